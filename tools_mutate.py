#!/usr/bin/env python3
"""tools_mutate.py CLONE BUILDDIR LOG [seed] [max per file] [only-path-substring]

Changes one place of a source file in a clone of /repo at a time and runs the
checks that should notice it. Survivors are written to LOG for a person to read.
"""
import os, random, re, subprocess, sys, time
CLONE, BUILD, LOG = sys.argv[1:4]
SEED = int(sys.argv[4]) if len(sys.argv) > 4 else 1
PER = int(sys.argv[5]) if len(sys.argv) > 5 else 5
ONLY = sys.argv[6] if len(sys.argv) > 6 else ""
HOME = os.path.dirname(os.path.abspath(__file__))
MAP = [
    ("common/utils/util.cpp", "C22 C28 C19"), ("common/utils/FlagParser.cpp", "C23"), ("common/utils/Path.hpp", "C22"),
    ("common/utils/mmap.c", "C08 C09 C04"), ("common/types/Parcelable", "C20 C21 C08"), ("common/types/IdDictionary.hpp", "C20 C01 C08"),
    ("common/types/ControlSequence", "C26"), ("common/socket/", "C26"), ("common/thread/", "C15"),
    ("index/memsector.c", "C24 C08 C09"), ("index/TmpIndex.cpp", "C24 C04 C09"), ("index/index.h", "C24 C04 C13"),
    ("index/IndexAccessor.hpp", "C04 C24"), ("index/TmpIndexAccessor.hpp", "C24 C04"), ("index/IndexIterator.hpp", "C24 C01"),
    ("index/ExpressionEncoder.cpp", "C01 C06 C05 C12 C07"), ("index/encoded_token.h", "C01 C04 C24 C05"),
    ("index/IndexBuilder.cpp", "C07 C22 C28"), ("index/IndexWriter.cpp", "C09 C28"), ("index/IndexLoader.cpp", "C08 C28 C09"),
    ("types/VectorMap.hpp", "C20 C01"), ("types/CmmlToken.cpp", "C03 C07 C12 C01"), ("types/FormulaPath.hpp", "C20 C21"),
    ("dbc/", "C21 C02 C09 C08"), ("query/SearchContext", "C01 C02 C03 C05"), ("query/engine.c", "C13"),
    ("query/SchemaEngine", "C12"), ("daemon/SchemaQueryHandler.cpp", "C12 C11"), ("daemon/Daemon.cpp", "C10 C28"),
    ("daemon/GenericHttpResponses", "C10"), ("daemon/IndexQueryHandler.cpp", "C04 C10 C13 C28"), ("daemon/HarvestQueryHandler.cpp", "C10 C28 C14"),
    ("xmlparser/readMwsQuery.cpp", "C11 C10 C02 C26"), ("xmlparser/processMwsHarvest.cpp", "C07 C26 C19"), ("ResponseFormatter.cpp", "C11"),
    ("mws/mwsd.cpp", "C28"), ("mws/schemad.cpp", "C28"), ("mws/mws-index.cpp", "C28"), ("analytics/analytics.cpp", "C24"),
    ("crawler/utils/Page", "C17 C18"), ("crawler/utils/MwsGetMath.cpp", "C18"), ("types/Robotstxt.cpp", "C17"),
    ("crawler/MwsCrawler.cpp", "C17 C18 C27"), ("CrawlerDaemon.cpp", "C27 C16"), ("crawlerd.cpp", "C16 C28"),
    ("docs2harvest.cpp", "C19"), ("MathParser.cpp", "C19"), ("XmlParser.cpp", "C19 C25"), ("harvests2json.cpp", "C25"),
]
SKIP = re.compile(r"^\s*(//|/\*|\*|#|assert|PRINT_|printf|fprintf|cout|cerr|UNUSED|using|namespace|typedef|template|class|struct|enum|public|private|protected|friend|explicit|virtual|case|default|static const char|const char)")
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\bif \(", "if (!("), (r"\btrue\b", "false"),
       (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r" \+= ", " = "), (r"\+\+", ""), (r"\bcontinue;", ";"), (r"\bbreak;", ";"),
       (r" \+ ", " - ")]
def mutants(path, rel):
    lines = open(path, errors="replace").read().split("\n")
    out = []
    comment = False
    for i, l in enumerate(lines):
        if "/*" in l and "*/" not in l: comment = True
        if comment:
            if "*/" in l: comment = False
            continue
        if SKIP.match(l) or not l.strip(): continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2: continue
                if b == "if (!(":
                    # negate a condition which ends on this line
                    d, j = 0, m.end() - 1
                    while j < len(code):
                        d += code[j] == "("
                        d -= code[j] == ")"
                        if d == 0: break
                        j += 1
                    if j == len(code): continue
                    n = code[:m.start()] + "if (!" + code[m.end() - 1:j + 1] + ")" + code[j + 1:]
                else:
                    n = code[:m.start()] + b + code[m.end():]
                out.append((rel, i, l, n))
        # a statement on one line is dropped
        if re.match(r"^\s+[A-Za-z_>.\-:*()\[\]]+.*;\s*$", code) and code.count("(") == code.count(")") and not re.match(r"^\s*(return|break|continue|goto|delete|const |auto |int |char |bool |string |uint|size_t|std::|vector|static |unsigned|FILE|free|close)", code):
            p = lines[i - 1].rstrip()
            if p.endswith((";", "{", "}", ")", "else")) :
                out.append((rel, i, l, re.match(r"^\s*", code).group() + ";"))
    return out
env = dict(os.environ, VERIF_REPO=CLONE, VERIF_BUILDDIR=BUILD, VERIF_REUSE="1", VERIF_TIER="quick")
def run(check):
    t = time.time()
    try:
        r = subprocess.run(["python3", "run.py", "check", check, "quick"], cwd=HOME, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
        return r.returncode, r.stdout, time.time() - t
    except subprocess.TimeoutExpired:
        return 99, "timeout", time.time() - t
work = []
files = subprocess.check_output(["git", "-C", CLONE, "ls-files", "src"], text=True).split()
for pat, checks in MAP:
    for f in files:
        if pat in f and f.endswith((".c", ".cpp", ".hpp", ".h")) and "test" not in f and ONLY in f:
            ms = mutants(os.path.join(CLONE, f), f)
            random.Random("%d %s" % (SEED, f)).shuffle(ms)
            seen = set()
            ms = [m for m in ms if not (m[1] in seen or seen.add(m[1]))]
            work += [(m, checks.split()) for m in ms[:PER]]
random.Random(SEED).shuffle(work)
log = open(LOG, "a")
print(len(work), "mutants", file=log, flush=True)
for (rel, i, old, new), checks in work:
    p = os.path.join(CLONE, rel)
    src = open(p, errors="surrogateescape").read()
    lines = src.split("\n")
    assert lines[i] == old, (rel, i)
    lines[i] = new
    open(p, "w", errors="surrogateescape").write("\n".join(lines))
    res = []
    verdict = "SURVIVED"
    for c in checks:
        rc, out, t = run(c)
        res.append("%s=%d (%.0f s)" % (c, rc, t))
        if rc == 1:
            verdict = "killed"
            break
        if rc == 2 and "building /repo failed" in out:
            verdict = "invalid"
            break
        if rc not in (0, 1):
            verdict = "NO ANSWER"
            res.append(out[-300:].replace("\n", "|"))
            break
    print("%s %s:%d %s\n    - %s\n    + %s" % (verdict, rel, i + 1, " ".join(res), old.strip(), new.strip()), file=log, flush=True)
    open(p, "w", errors="surrogateescape").write(src)
