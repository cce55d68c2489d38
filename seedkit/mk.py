#!/usr/bin/env python3
"""mk.py ID PROPERTY FILE <<< json: creates seeded/ID from (edits, demo, needs, breaks)."""
import sys, os, subprocess, shutil, json
R = os.environ.get('SEED_REPO', '/repo')
def make(id, prop, edits, demo, needs, breaks, extra=None):
    d = '/verif/seeded/%s' % id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call(['git','-C',R,'diff','--quiet'])
    try:
        for f, old, new in edits:
            p = R + '/' + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p,'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git','-C',R,'diff']).decode()
    finally:
        subprocess.check_call(['git','-C',R,'checkout','--','.'])
    open(d+'/patch.diff','w').write(diff)
    here = os.path.dirname(os.path.abspath(__file__))
    if demo is not None:
        open(d+'/demo.cpp','w').write(demo)
        shutil.copy(here+'/kit.hpp', d); shutil.copy(here+'/demo.sh', d)
    for n, t in (extra or {}).items():
        open(d+'/'+n,'w').write(t)
        if n.endswith('.sh'): os.chmod(d+'/'+n, 0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
