#!/usr/bin/env python3
"""Driver: rebuilds what a check needs from /repo's working tree and runs it.

  run.py check <property> [quick|thorough]
  run.py replay <replay-file>
  run.py build <variant>
"""
import fcntl, os, re, shutil, subprocess, sys, time

HOME = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILDDIR") or os.path.join(HOME, "build")
JOBS = str(os.cpu_count() or 8)

COMMON = "-g1 -fno-omit-frame-pointer -w -include cstdint"
CCOMMON = "-g1 -fno-omit-frame-pointer -w"
VARIANTS = {
    # address sanitizer + deterministic poison for uninitialised locals
    "asan": dict(
        c="-O1 -fsanitize=address -ftrivial-auto-var-init=pattern",
        cxx="-O1 -fsanitize=address -ftrivial-auto-var-init=pattern",
        ld="-fsanitize=address"),
    "plain": dict(c="-O1", cxx="-O1", ld=""),
    # accesses and atomics reported to harness/schedrt.cpp (not to libtsan)
    "tsan": dict(c="-O1 -fsanitize=thread", cxx="-O1 -fsanitize=thread", ld=""),
}
SCHED = dict(variant="tsan", more=[("schedrt.cpp", "-O2 -fno-builtin")],
             pre=["-Wl,--wrap=" + f for f in
                  ("pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_init "
                   "pthread_mutex_destroy pthread_cond_init pthread_cond_destroy sem_init sem_wait sem_post "
                   "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_once sleep usleep "
                   "nanosleep sched_yield xmlLockLibrary memcpy memmove memset memcmp strlen strcmp strcpy "
                   "strdup").split()])
LIBS = ["-lmicrohttpd", "-lxml2", "-ljson-c", "-lleveldb", "-lsnappy", "-lcurl",
        "-lhtmlcxx", "-licuuc", "-lpthread", "-ldl"]
LIB_TARGETS_MWS = ["mwsdaemon", "mwsanalytics", "mwsdbc", "mwsindex", "mwsquery",
                   "mwstypes", "mwsxmlparser", "commonutils", "commontypes", "crc32"]
LIB_TARGETS_CRAWL = ["crawlercrawler", "crawlerdaemon", "crawlerparser",
                     "crawlertypes", "crawlerutils", "commonsocket",
                     "commonthread", "commonutils", "commontypes", "googleurl"]

# property -> how it is built
CHECKS = {
    "C01": dict(src="search.cpp", variant="asan", libs="mws"),
    "C02": dict(src="paging.cpp", variant="asan", libs="mws"),
    "C03": dict(src="location.cpp", variant="asan", libs="mws"),
    "C04": dict(src="backend.cpp", variant="asan", libs="mws", more=["farindex_tu.cpp"]),
    "C05": dict(src="ranges.cpp", variant="asan", libs="mws"),
    "C06": dict(src="renaming.cpp", variant="asan", libs="mws"),
    "C07": dict(src="loading.cpp", variant="asan", libs="mws", pre=["-Wl,--wrap=read"]),
    "C08": dict(src="damage.cpp", variant="asan", libs="mws"),
    "C09": dict(src="iofail.cpp", variant="asan", libs="mws"),
    "C10": dict(src="http.cpp", variant="asan", libs="mws"),
    "C11": dict(src="formats.cpp", variant="asan", libs="mws"),
    # unset fields read as 'R', a valid cutoff mode which is not the default
    "C12": dict(src="schemata.cpp", variant="asan", libs="mws", fill=82),
    "C16": dict(SCHED, src="crawlqueue.cpp", libs="crawl",
                more=SCHED["more"] + ["crawlerd_tu.cpp"],
                pre=SCHED["pre"] + ["-Wl,--wrap=" + f for f in "sigaction sigprocmask sigsuspend exit".split()]),
    "C17": dict(src="crawl.cpp", variant="asan", libs="crawl"),
    "C18": dict(src="extract.cpp", variant="asan", libs="crawl", pre=["-Wl,--wrap=time"]),
    "C19": dict(src="convert.cpp", variant="asan", libs="mws", targets=["docs2harvest"]),
    "C20": dict(src="dicts.cpp", variant="asan", libs="mws"),
    "C21": dict(src="stores.cpp", variant="asan", libs="mws"),
    "C22": dict(src="dirs.cpp", variant="asan", libs="mws",
                pre=["-Wl,--wrap=" + f for f in "readdir readdir64 readdir_r readdir64_r".split()]),
    "C23": dict(src="flags.cpp", variant="plain", libs="mws"),
    "C24": dict(src="walks.cpp", variant="asan", libs="mws", more=["farindex_tu.cpp"]),
    "C25": dict(src="tojson.cpp", variant="asan", libs="mws", targets=["harvests2json"]),
    "C26": dict(src="pieces.cpp", variant="asan", libs="mws", targets=["commonsocket"],
                pre=["-Wl,--wrap=read", "-Wl,--wrap=write", "-Wl,--wrap=recv", "-Wl,--wrap=send"]),
    "C27": dict(src="crawlreq.cpp", variant="asan", libs="crawl", more=["crawlerd_tu.cpp"],
                pre=["-Wl,--wrap=" + f for f in "sigaction sigprocmask sigsuspend exit sleep fopen".split()]),
    "C28": dict(src="programs.cpp", variant="asan", libs="none", targets=["mwsd", "schemad", "mws-index", "crawlerd"],
                shim="hold.c", plain=["mwsd", "schemad"]),
    "C13": dict(src="xengine.cpp", variant="asan", libs="mws", more=["farindex_tu.cpp"]),
    "C14": dict(SCHED, src="concurrent.cpp", libs="mws"),
    "C15": dict(SCHED, src="threads.cpp", libs="none", targets=["commonthread"]),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def configure(variant):
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, CC="gcc", CXX="g++")
    args = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-Wno-dev",
            "-DCMAKE_BUILD_TYPE=Debug",
            "-DCMAKE_C_FLAGS=%s %s" % (CCOMMON, v["c"]),
            "-DCMAKE_CXX_FLAGS=%s %s" % (COMMON, v["cxx"])]
    r = sh(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("cmake failed\n" + r.stdout[-3000:])
    return d


def ninja(d, targets):
    r = sh(["ninja", "-C", d, "-j", JOBS] + targets,
           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("building /repo failed\n" + r.stdout[-4000:])


def archives(d):
    out = []
    for base, _, files in os.walk(d):
        for f in files:
            if f.endswith(".a"):
                out.append(os.path.join(base, f))
    return sorted(out)


def fresh(o):
    """Whether an object is newer than everything it was made of."""
    try:
        t = os.path.getmtime(o)
        deps = open(o + ".d").read().replace("\\\n", " ").split(": ", 1)[1].split()
        return all(os.path.getmtime(d) < t for d in deps)
    except (OSError, IndexError):
        return False


def build_check(prop):
    c = CHECKS[prop]
    v = VARIANTS[c["variant"]]
    targets = list(c.get("targets", []))
    if c["libs"] in ("mws", "all"):
        targets += LIB_TARGETS_MWS
    if c["libs"] in ("crawl", "all"):
        targets += LIB_TARGETS_CRAWL
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    exe = os.path.join(BUILD, "bin", prop)
    d = configure(c["variant"])
    flags = (COMMON + " -std=c++11 " + c.get("hflags", v["cxx"])).split()
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + d,
           "-I" + os.path.join(REPO, "third_party/common"),
           "-I" + os.path.join(REPO, "third_party/crawler"),
           "-I" + os.path.join(REPO, "third_party/crawler/googleurl/src"),
           "-I/usr/include/libxml2", "-I/usr/include/json-c",
           "-I" + os.path.join(HOME, "harness")]
    # the harness sources compile while the repository builds
    procs = []
    objs = []
    for s in [c["src"]] + c.get("more", []):
        own = flags
        if isinstance(s, tuple):
            s, own = s[0], (COMMON + " -std=c++11 " + s[1]).split()
        o = os.path.join(BUILD, "bin", prop + "-" + s.replace(".", "_") + ".o")
        objs.append(o)
        cc = ["g++"] + own if not s.endswith(".c") else ["gcc"] + (CCOMMON + " " + c.get("hcflags", v["c"])).split()
        if os.environ.get("VERIF_REUSE") and fresh(o):
            continue
        procs.append(subprocess.Popen(
            cc + ["-MMD", "-MF", o + ".d"] + inc + c.get("defs", []) + ["-c", os.path.join(HOME, "harness", s), "-o", o],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    if "shim" in c:  # a library which the programs are run with
        procs.append(subprocess.Popen(
            ["gcc", "-O1", "-w", "-shared", "-fPIC", os.path.join(HOME, "harness", c["shim"]),
             "-o", os.path.join(BUILD, "bin", prop + "-shim.so"), "-ldl"],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    ninja(d, sorted(set(targets)))
    if "plain" in c:
        ninja(configure("plain"), c["plain"])
    for p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            die("building the harness failed\n" + o[-6000:])
    cmd = ["g++"] + objs + ["-o", exe] + c.get("pre", [])
    cmd += ["-Wl,--start-group"] + archives(d) + ["-Wl,--end-group"]
    cmd += v["ld"].split() + c.get("ldlibs", LIBS)
    r = sh(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("linking the harness failed\n" + r.stdout[-6000:])
    return exe, d


def env_for(prop, tier, d):
    e = dict(os.environ)
    e["VERIF_TIER"] = tier
    e.setdefault("VERIF_SEED", "1")
    e["VERIF_HOME"] = HOME
    e["VERIF_BUILD"] = d
    e["VERIF_PLAIN"] = os.path.join(BUILD, "plain")
    e["VERIF_SHIM"] = os.path.join(BUILD, "bin", prop + "-shim.so")
    e["VERIF_REPO"] = REPO
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:handle_abort=0:"
                         "new_delete_type_mismatch=0:malloc_fill_byte=%d:"
                         "max_malloc_fill_size=1048576:allocator_may_return_null=1:"
                         "quarantine_size_mb=16:symbolize=1:detect_stack_use_after_return=0" %
                         CHECKS[prop].get("fill", 190))
    e.update(CHECKS[prop].get("env", {}))
    return e


def run_check(prop, tier, extra=()):
    if prop not in CHECKS:
        die("unknown property " + prop)
    t = time.time()
    exe, d = build_check(prop)
    print("built in %.1f s" % (time.time() - t), flush=True)
    r = sh([exe] + list(extra), env=env_for(prop, tier, d), cwd=HOME)
    rc = r.returncode
    if rc not in (0, 1):
        print("ERROR: harness ended with %d" % rc, flush=True)
        rc = 2
    return rc


def main():
    if len(sys.argv) < 3:
        die(__doc__)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    mode = sys.argv[1]
    if mode == "build":
        fcntl.flock(lock, fcntl.LOCK_EX)
        ninja(configure(sys.argv[2]), LIB_TARGETS_MWS + LIB_TARGETS_CRAWL)
        sys.exit(0)
    if mode == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        fcntl.flock(lock, fcntl.LOCK_EX)
        sys.exit(run_check(sys.argv[2], tier))
    if mode == "replay":
        txt = open(sys.argv[2]).read()
        f = lambda k: re.search(r"^%s: (.*)$" % k, txt, re.M).group(1)
        sys.exit(run_check(f("property"), f("tier"),
                           ["--replay", f("family"), f("case")]))
    die(__doc__)


main()
