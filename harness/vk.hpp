// vk.hpp -- small exhaustive-exploration kernel used by every check.
//
// A check declares families of cases.  A family is a finite, totally ordered,
// deterministic enumeration 0..n-1; forall() executes every one of them on the
// real code, spread over forked worker processes, so that an assertion, a
// signal, a sanitizer report or a hang inside the code under test is observed
// as the outcome of one identified case.  Nothing is sampled.
#ifndef VK_HPP
#define VK_HPP
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>

#include <algorithm>
#include <atomic>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vk {

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ULL;
    }
    return h;
}
inline double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
inline std::string fmt(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    char* p = nullptr;
    if (vasprintf(&p, f, ap) < 0) abort();
    va_end(ap);
    std::string s(p);
    free(p);
    return s;
}
inline std::string readFile(const std::string& p) {
    std::ifstream f(p.c_str(), std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
inline void writeFile(const std::string& p, const std::string& d) {
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) {
        fprintf(stderr, "vk: cannot write %s\n", p.c_str());
        _exit(70);
    }
    if (d.size() && fwrite(d.data(), 1, d.size(), f) != d.size()) _exit(70);
    fclose(f);
}
inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            o += fmt("\\u%04x", c);
        } else {
            o += c;
        }
    }
    return o + "\"";
}
// mixed radix odometer helper: splits i in digits
// all sequences of up to len of n symbols
inline uint64_t countSequences(uint64_t n, unsigned len) {
    uint64_t total = 1, p = 1;
    for (unsigned l = 0; l < len; l++) total += (p *= n);
    return total;
}
inline std::vector<unsigned> sequence(uint64_t index, uint64_t n, unsigned len) {
    uint64_t p = 1;
    unsigned l = 0;
    for (; l < len && index >= p; l++) index -= p, p *= n;
    std::vector<unsigned> o;
    for (unsigned i = 0; i < l; i++) o.push_back(index % n), index /= n;
    return o;
}
struct Digits {
    uint64_t i;
    explicit Digits(uint64_t i) : i(i) {}
    unsigned next(unsigned radix) {
        unsigned d = i % radix;
        i /= radix;
        return d;
    }
};

// removes a scratch tree; only ever called on paths below the scratch root
inline void rmTree(const std::string& p) {
    struct stat st;
    if (lstat(p.c_str(), &st) != 0) return;
    if (S_ISDIR(st.st_mode)) {
        DIR* d = opendir(p.c_str());
        if (d) {
            while (dirent* e = readdir(d)) {
                std::string n = e->d_name;
                if (n == "." || n == "..") continue;
                rmTree(p + "/" + n);
            }
            closedir(d);
        }
        rmdir(p.c_str());
    } else {
        unlink(p.c_str());
    }
}

inline void copyTree(const std::string& from, const std::string& to) {
    mkdir(to.c_str(), 0700);
    DIR* d = opendir(from.c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        struct stat st;
        if (n == "." || n == ".." || stat((from + "/" + n).c_str(), &st) != 0) continue;
        if (S_ISDIR(st.st_mode)) {
            copyTree(from + "/" + n, to + "/" + n);
            continue;
        }
        int in = open((from + "/" + n).c_str(), O_RDONLY), out = open((to + "/" + n).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        char buf[65536];
        ssize_t k;
        while (in >= 0 && out >= 0 && (k = read(in, buf, sizeof buf)) > 0)
            if (write(out, buf, k) != k) break;
        if (in >= 0) close(in);
        if (out >= 0) close(out);
    }
    closedir(d);
}

static const int MAXW = 64, MAXC = 48, DESC = 16384, MAXHIST = 200000;

struct WorkerSlot {
    std::atomic<int> active;
    std::atomic<uint64_t> index;
    std::atomic<double> since;
    char desc[DESC];
    uint64_t nhist;
    uint64_t hist[MAXHIST];
    std::atomic<uint64_t> pos, end;  // what is left of the piece in work
};
struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
    std::atomic<uint64_t> counters[MAXC];
    std::atomic<uint64_t> done;
    WorkerSlot w[MAXW];
};

class Run;
class Case {
 public:
    Run* run;
    WorkerSlot* slot;
    uint64_t index;
    bool failed = false, known = false, wantDesc = false;
    std::string msg, key, description, scratch;
    std::unordered_set<uint64_t>* seen;
    void desc(const std::string& d) {
        description = d;
        size_t n = std::min<size_t>(d.size(), DESC - 1);
        memcpy(slot->desc, d.data(), n);
        slot->desc[n] = 0;
    }
    // tells the watchdog that the case is making progress
    void beat() { slot->since = now(); }
    void add(const char* counter, uint64_t n = 1);
    // registers a distinct observed value (model state / behaviour / outcome)
    void state(const std::string& s) { seen->insert(fnv(s)); }
    void state(uint64_t h) { seen->insert(h); }
    void fail(const std::string& m) { failKey(m, ""); }
    void failKey(const std::string& m, const std::string& k) {
        if (!failed) {
            failed = true;
            msg = m;
            key = k;
        }
    }
    void fail(const char* f, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap;
        va_start(ap, f);
        char* p = nullptr;
        if (vasprintf(&p, f, ap) < 0) abort();
        va_end(ap);
        failKey(std::string(p), std::string());
        free(p);
    }
};
typedef std::function<void(Case&)> CaseFn;

struct Violation {
    std::string family, desc, msg;
    uint64_t index;
};

class Run {
 public:
    std::string property, tier, scratchRoot, home, level;
    bool thorough, replayMode;
    std::string replayFamily;
    uint64_t replayIndex;
    double t0, caseTimeout;
    int nworkers;
    int realOut;
    Shared* sh;
    std::vector<std::string> counterNames;
    std::unordered_set<uint64_t> states;
    std::vector<Violation> violations;
    std::vector<std::string> samples, assumptions, familyLog;
    std::map<std::string, std::string> extra;
    std::string rule;
    uint64_t totalCases = 0;
    bool capped = false, broken = false;
    uint64_t traces = 0;
    std::set<std::string> knownKeys, knownHit;
    std::string transitionsCounter, tracesCounter;

    Run(int argc, char** argv, const char* prop, const char* lvl)
        : property(prop), level(lvl), replayMode(false), replayIndex(0) {
        t0 = now();
        caseTimeout = 30;
        const char* t = getenv("VERIF_TIER");
        tier = (t && !strcmp(t, "thorough")) ? "thorough" : "quick";
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            if (a == "--replay" && i + 2 < argc) {
                replayMode = true;
                replayFamily = argv[i + 1];
                replayIndex = strtoull(argv[i + 2], nullptr, 10);
                i += 2;
            } else if (a == "--tier" && i + 1 < argc) {
                tier = argv[++i];
            }
        }
        thorough = tier == "thorough";
        const char* h = getenv("VERIF_HOME");
        home = h ? h : "/verif";
        const char* w = getenv("VERIF_WORKERS");
        nworkers = w ? atoi(w) : 8;
        if (nworkers < 1) nworkers = 1;
        if (nworkers > MAXW) nworkers = MAXW;
        sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (sh == MAP_FAILED) _exit(70);
        for (auto& c : sh->counters) c = 0;
        const char* base = getenv("VERIF_SCRATCH");
        std::string tpl = std::string(base ? base : "/dev/shm") + "/mwsvk.XXXXXX";
        std::vector<char> b(tpl.begin(), tpl.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) {
            perror("mkdtemp");
            _exit(70);
        }
        scratchRoot = b.data();
        // the harness keeps the real stdout; the code under test logs elsewhere
        realOut = fcntl(1, F_DUPFD_CLOEXEC, 3);
        prctl(PR_SET_CHILD_SUBREAPER, 1);
        // whatever the caller ignores or blocks (a shell's background jobs
        // ignore SIGINT)
        for (int sig : {SIGINT, SIGQUIT, SIGTERM, SIGHUP, SIGPIPE, SIGXFSZ, SIGALRM, SIGCHLD, SIGUSR1, SIGUSR2})
            signal(sig, SIG_DFL);
        sigset_t none;
        sigemptyset(&none);
        sigprocmask(SIG_SETMASK, &none, nullptr);
        loadKnown();
    }
    void out(const std::string& s) {
        std::string l = s + "\n";
        ssize_t r = write(realOut, l.data(), l.size());
        (void)r;
    }
    void loadKnown() {
        std::ifstream f((home + "/known_findings.txt").c_str());
        std::string line;
        std::string pre = "KNOWN-FINDING: property=" + property + " key=";
        while (std::getline(f, line)) {
            if (line.compare(0, pre.size(), pre) == 0) {
                std::string rest = line.substr(pre.size());
                knownKeys.insert(rest.substr(0, rest.find(' ')));
                knownText[rest.substr(0, rest.find(' '))] =
                    rest.substr(rest.find(' ') + 1);
            }
        }
    }
    std::map<std::string, std::string> knownText;
    int counter(const char* n) {
        for (size_t i = 0; i < counterNames.size(); i++)
            if (counterNames[i] == n) return i;
        if (counterNames.size() >= (size_t)MAXC) abort();
        counterNames.push_back(n);
        return counterNames.size() - 1;
    }
    // Counters must be declared in the parent so ids agree in all workers.
    void declare(std::initializer_list<const char*> ns) {
        for (auto n : ns) counter(n);
    }
    uint64_t get(const char* n) { return sh->counters[counter(n)].load(); }

    void runOne(const CaseFn& fn, Case& c) {
        fn(c);
    }
    // executes [case] alone in a fresh process. returns "" when it passes.
    // how long a case that hung is given when it is run again, alone; a quick
    // check has to answer within 900 seconds
    double hangLimit() const {
        if (thorough) return caseTimeout * 4;
        return std::min(caseTimeout * 4, std::max(caseTimeout, 840 - (now() - t0)));
    }
    // ends what a worker that was stopped has left running
    void endOrphans(const std::vector<pid_t>& keep = {}) {
        for (int round = 0; round < 20; round++) {
            std::string l = readFile(fmt("/proc/self/task/%d/children", (int)getpid()));
            std::istringstream is(l);
            pid_t p;
            int ended = 0;
            while (is >> p) {
                bool own = false;
                for (pid_t k : keep) own = own || k == p;
                if (own) continue;
                kill(p, SIGKILL);
                waitpid(p, nullptr, 0);
                ended++;
            }
            if (!ended) return;
        }
    }
    std::string solo(const std::string& family, const CaseFn& fn,
                     const std::vector<uint64_t>& hist, uint64_t index,
                     double limit, std::string* description, std::string* key) {
        std::string log = scratchRoot + "/solo.log";
        std::string res = scratchRoot + "/solo.res";
        unlink(res.c_str());
        sh->w[0].desc[0] = 0;
        pid_t p = fork();
        if (p == 0) {
            setupChild(log);
            std::string dir = scratchRoot + "/solo";
            mkdir(dir.c_str(), 0700);
            std::unordered_set<uint64_t> seen;
            for (size_t i = 0; i <= hist.size(); i++) {
                uint64_t ix = i < hist.size() ? hist[i] : index;
                Case c;
                c.run = this;
                c.slot = &sh->w[0];
                c.index = ix;
                c.seen = &seen;
                c.scratch = dir;
                c.wantDesc = true;
                fn(c);
                if (i == hist.size()) {
                    writeFile(res, (c.failed ? "F" : "P") + c.key + "\n" + c.msg);
                }
            }
            _exit(0);
        }
        double t = now();
        int st = 0;
        bool hung = false;
        while (waitpid(p, &st, WNOHANG) == 0) {
            if (now() - t > limit) {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                hung = true;
                break;
            }
            usleep(2000);
        }
        endOrphans();
        rmTree(scratchRoot + "/solo");
        *description = sh->w[0].desc;
        std::string r = readFile(res);
        if (r.size() && r[0] == 'F') {
            *key = r.substr(1, r.find('\n') - 1);
            return r.substr(r.find('\n') + 1);
        }
        if (r.size() && r[0] == 'P' && WIFEXITED(st) && WEXITSTATUS(st) == 0)
            return "";
        std::string lg = readFile(log);
        std::string why = hung ? fmt("no answer within %.0f s (hang)", limit)
                          : WIFSIGNALED(st)
                              ? fmt("process died with signal %d", WTERMSIG(st))
                              : fmt("process exited with status %d", WEXITSTATUS(st));
        *key = "";
        return why + "\n" + interesting(lg);
    }
    static std::string interesting(const std::string& lg) {
        std::istringstream is(lg);
        std::string l, o;
        std::vector<std::string> tail;
        int n = 0;
        while (std::getline(is, l)) {
            bool hit = l.find("ERROR: AddressSanitizer") != std::string::npos ||
                       l.find("runtime error:") != std::string::npos ||
                       l.find("Assertion") != std::string::npos ||
                       l.find("terminate called") != std::string::npos ||
                       l.find("what():") != std::string::npos ||
                       (l.find("    #") == 0 && n < 14);
            if (hit && n < 20) {
                o += l + "\n";
                n++;
            }
            tail.push_back(l);
            if (tail.size() > 4) tail.erase(tail.begin());
        }
        if (o.empty())
            for (auto& x : tail) o += x + "\n";
        return o.substr(0, 4000);
    }
    void setupChild(const std::string& log) {
        int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
        dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        close(nul);
        if (fd > 2) close(fd);
        rlimit rl;
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = (rlim_t)2 << 30;
        setrlimit(RLIMIT_FSIZE, &rl);
    }
    void report(const std::string& family, uint64_t index,
                const std::string& desc, const std::string& msg) {
        Violation v;
        v.family = family;
        v.index = index;
        v.desc = desc;
        v.msg = msg;
        violations.push_back(v);
        std::string dir = home + "/replays";
        mkdir(dir.c_str(), 0755);
        std::string path = dir + "/" + property + "-" +
                           std::to_string(violations.size()) + ".txt";
        writeFile(path,
                  "property: " + property + "\ntier: " + tier + "\nfamily: " +
                      family + "\ncase: " + std::to_string(index) +
                      "\nreplay: python3 /verif/run.py replay " + path +
                      "\n\n--- case\n" + desc + "\n\n--- what failed\n" + msg +
                      "\n");
        out("--- " + property + " / " + family + " / case " +
            std::to_string(index) + "\n" +
            (desc.size() > 5000 ? desc.substr(0, 5000) + "... (all of it in " + path + ")" : desc) + "\n" +
            (msg.size() > 5000 ? msg.substr(0, 5000) + "..." : msg));
        out("VIOLATION property=" + property + " replay=" + path);
    }
    bool failing() const { return !violations.empty(); }

    void forall(const std::string& family, uint64_t n, const CaseFn& fn,
                uint64_t chunk = 0) {
        if (replayMode) {
            if (family != replayFamily) return;
            std::string d, k, m;
            m = solo(family, fn, {}, replayIndex, 600, &d, &k);
            out("case:\n" + d);
            if (m.empty()) {
                out("PASS: the case holds on the current tree");
            } else {
                out("FAIL: " + m);
                violations.push_back(Violation());
            }
            return;
        }
        if (failing() || broken || n == 0) return;
        double ft0 = now();
        if (chunk == 0) chunk = std::max<uint64_t>(1, std::min<uint64_t>(64, n / (nworkers * 8)));
        sh->done = 0;
        std::string once;
        std::vector<std::pair<uint64_t, uint64_t> > todo(1, std::make_pair((uint64_t)0, n));
        // a failure which does not come again (the machine was overloaded) is
        // told, and the exploration goes on with what is left
        for (int attempt = 0; attempt < 3 && !todo.empty(); attempt++) {
            once.clear();
            explore(family, todo, fn, chunk, &once);
            if (failing() || broken) break;
            if (!once.empty()) out(once);
            todo = left();
        }
        totalCases += sh->done;
        familyLog.push_back(fmt("%s: %llu of %llu cases, %.1f s", family.c_str(),
                                (unsigned long long)sh->done.load(),
                                (unsigned long long)n, now() - ft0));
        if (!failing() && !todo.empty()) broken = true;
    }
    std::vector<std::pair<uint64_t, uint64_t> > work;  // the pieces to explore
    uint64_t workSize = 0;
    int workers = 0;
    uint64_t nth(uint64_t k) const {
        for (auto& r : work) {
            if (k < r.second - r.first) return r.first + k;
            k -= r.second - r.first;
        }
        return 0;
    }
    // what the last exploration did not get done
    std::vector<std::pair<uint64_t, uint64_t> > left() const {
        std::vector<std::pair<uint64_t, uint64_t> > flat, r;
        for (int w = 0; w < workers; w++)
            if (sh->w[w].pos < sh->w[w].end) flat.push_back(std::make_pair(sh->w[w].pos.load(), sh->w[w].end.load()));
        if (sh->next < workSize) flat.push_back(std::make_pair(sh->next.load(), workSize));
        std::sort(flat.begin(), flat.end());
        for (auto& f : flat)
            for (uint64_t k = f.first; k < f.second; k++) {
                uint64_t i = nth(k);
                if (!r.empty() && r.back().second == i) r.back().second++;
                else r.push_back(std::make_pair(i, i + 1));
            }
        return r;
    }
    void explore(const std::string& family, const std::vector<std::pair<uint64_t, uint64_t> >& todo, const CaseFn& fn,
                 uint64_t chunk, std::string* once) {
        work = todo;
        workSize = 0;
        for (auto& r : work) workSize += r.second - r.first;
        const uint64_t n = workSize;
        sh->next = 0;
        sh->stop = 0;
        int nw = workers = (int)std::min<uint64_t>(nworkers, (n + chunk - 1) / chunk);
        std::vector<pid_t> pids(nw);
        for (int w = 0; w < nw; w++) {
            WorkerSlot& s = sh->w[w];
            s.active = 0;
            s.since = now();
            s.desc[0] = 0;
            s.nhist = 0;
            s.pos = 0;
            s.end = 0;
            unlink(wf(w, "res").c_str());
            unlink(wf(w, "set").c_str());
            unlink(wf(w, "smp").c_str());
            pids[w] = fork();
            if (pids[w] == 0) {
                worker(w, n, chunk, fn);
                _exit(0);
            }
        }
        // wait, watching for hangs
        int live = nw;
        std::vector<int> stat(nw, 0);
        std::vector<bool> fin(nw, false), hung(nw, false);
        while (live > 0) {
            bool progress = false;
            for (int w = 0; w < nw; w++) {
                if (fin[w]) continue;
                int st;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                if (r == pids[w]) {
                    fin[w] = true;
                    stat[w] = st;
                    live--;
                    progress = true;
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) sh->stop = 1;
                } else if (sh->w[w].active &&
                           now() - sh->w[w].since > caseTimeout) {
                    hung[w] = true;
                    sh->stop = 1;
                    kill(pids[w], SIGKILL);
                }
            }
            if (!progress) usleep(3000);
        }
        endOrphans();
        // merge observations
        for (int w = 0; w < nw; w++) {
            std::string s = readFile(wf(w, "set"));
            for (size_t i = 0; i + 8 <= s.size(); i += 8) {
                uint64_t h;
                memcpy(&h, s.data() + i, 8);
                states.insert(h);
            }
            std::string m = readFile(wf(w, "smp"));
            if (m.size() && familySamples[family] < 2) {
                familySamples[family]++;
                samples.push_back("[" + family + "] " + m);
            }
        }
        // collect failures; lowest index first so the report is minimal
        std::map<uint64_t, int> bad;
        for (int w = 0; w < nw; w++)
            if (!(WIFEXITED(stat[w]) && WEXITSTATUS(stat[w]) == 0))
                bad[sh->w[w].index.load()] = w;
        for (auto& b : bad) {
            int w = b.second;
            if (sh->w[w].active == 0) {
                out(fmt("worker %d of %s died outside a case, status %x\n", w,
                        family.c_str(), stat[w]) + readFile(wf(w, "log")));
                broken = true;
                return;
            }
            std::vector<uint64_t> hist(sh->w[w].hist,
                                       sh->w[w].hist + sh->w[w].nhist);
            std::string d0 = sh->w[w].desc, d, k, m;
            std::string first = interesting(readFile(wf(w, "log")));
            std::string fres = readFile(wf(w, "res"));
            m = solo(family, fn, {}, b.first, hung[w] ? hangLimit() : 120,
                     &d, &k);
            if (m.empty() && !hist.empty() && hist.size() < MAXHIST) {
                m = solo(family, fn, hist, b.first, 600, &d, &k);
                if (!m.empty())
                    m = fmt("(after the %zu cases the same process ran before)\n",
                            hist.size()) + m;
            }
            for (int again = 0; again < 4 && m.empty() && !hung[w]; again++)
                m = solo(family, fn, {}, b.first, 120, &d, &k);
            if (m.empty()) {
                *once += fmt(
                    "case %llu of %s failed once (%s, status %x) and passes "
                    "when replayed: not reported as a violation\n%s\n%s\n%s\n",
                    (unsigned long long)b.first, family.c_str(),
                    hung[w] ? "timeout" : "failure", stat[w], d0.c_str(),
                    fres.c_str(), first.c_str());
                continue;
            }
            report(family, b.first, d.empty() ? d0 : d, m);
            return;
        }
    }
    std::map<std::string, int> familySamples;
    std::string wf(int w, const char* ext) {
        return scratchRoot + "/w" + std::to_string(w) + "." + ext;
    }
    void worker(int w, uint64_t n, uint64_t chunk, const CaseFn& fn) {
        setupChild(wf(w, "log"));
        std::string dir = scratchRoot + "/w" + std::to_string(w);
        mkdir(dir.c_str(), 0700);
        WorkerSlot& s = sh->w[w];
        std::unordered_set<uint64_t> seen;
        std::string sample;
        uint64_t cnt = 0;
        bool bad = false;
        while (!sh->stop && !bad) {
            uint64_t b = sh->next.fetch_add(chunk);
            if (b >= n) break;
            uint64_t e = std::min(n, b + chunk);
            s.pos = b;
            s.end = e;
            if (ftruncate(2, 0)) {
            }
            for (uint64_t k = b; k < e && !sh->stop; k++) {
                const uint64_t i = nth(k);
                s.index = i;
                s.since = now();
                s.active = 1;
                Case c;
                c.run = this;
                c.slot = &s;
                c.index = i;
                c.seen = &seen;
                c.scratch = dir;
                fn(c);
                if (c.failed) {
                    if (!c.key.empty() && knownKeys.count(c.key)) {
                        int fd = open((scratchRoot + "/known").c_str(),
                                      O_WRONLY | O_CREAT | O_APPEND, 0600);
                        std::string l = c.key + "\n";
                        if (write(fd, l.data(), l.size()) < 0) _exit(71);
                        close(fd);
                    } else {
                        writeFile(wf(w, "res"), c.msg);
                        sh->stop = 1;
                        bad = true;
                        break;
                    }
                }
                s.active = 0;
                sh->done++;
                s.pos = k + 1;
                cnt++;
                if (s.nhist < MAXHIST) s.hist[s.nhist++] = i;
                if (!c.description.empty()) sample = c.description;
            }
        }
        FILE* f = fopen(wf(w, "set").c_str(), "wb");
        for (uint64_t h : seen) fwrite(&h, 8, 1, f);
        fclose(f);
        if (sample.size() > 1500) sample = sample.substr(0, 1500) + "...";
        writeFile(wf(w, "smp"), sample);
        rmTree(dir);
        _exit(bad ? 3 : 0);
    }
    int finish() {
        if (replayMode) {
            rmTree(scratchRoot);
            return violations.empty() ? 0 : 1;
        }
        {
            std::istringstream is(readFile(scratchRoot + "/known"));
            std::string l;
            while (std::getline(is, l)) knownHit.insert(l);
        }
        for (auto& k : knownHit)
            out("KNOWN-FINDING: property=" + property + " " + k + " " + knownText[k]);
        uint64_t transitions = transitionsCounter.empty()
                                   ? totalCases
                                   : get(transitionsCounter.c_str());
        uint64_t tr = tracesCounter.empty() ? totalCases : get(tracesCounter.c_str());
        std::string j = "{\n";
        j += " \"property\": " + jstr(property) + ",\n \"tier\": " + jstr(tier) +
             ",\n";
        const char* sd = getenv("VERIF_SEED");
        j += fmt(" \"seed\": %d,\n", sd ? atoi(sd) : 1);
        j += " \"level\": " + jstr(level) + ",\n \"coverage\": {\n";
        if (level == "model_checking") {
            j += fmt("  \"states\": %zu,\n", states.size());
            j += fmt("  \"transitions\": %llu,\n", (unsigned long long)transitions);
            j += fmt("  \"traces_validated_against_impl\": %llu,\n",
                     (unsigned long long)tr);
        } else {
            j += fmt("  \"evaluations\": %llu,\n", (unsigned long long)totalCases);
            j += fmt("  \"distinct_nontrivial\": %zu,\n", states.size());
        }
        j += "  \"rule\": " + jstr(rule) + ",\n";
        j += std::string("  \"exhaustive\": ") +
             ((capped || failing() || broken) ? "false" : "true") + ",\n";
        j += "  \"counters\": {";
        for (size_t i = 0; i < counterNames.size(); i++)
            j += (i ? ", " : "") + jstr(counterNames[i]) + ": " +
                 std::to_string(sh->counters[i].load());
        j += "},\n  \"families\": [";
        for (size_t i = 0; i < familyLog.size(); i++)
            j += (i ? ", " : "") + jstr(familyLog[i]);
        j += "],\n";
        for (auto& e : extra) j += "  " + jstr(e.first) + ": " + jstr(e.second) + ",\n";
        j += "  \"samples\": [";
        for (size_t i = 0; i < samples.size() && i < 24; i++)
            j += (i ? ",\n   " : "") + jstr(samples[i]);
        j += "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < assumptions.size(); i++)
            j += (i ? ", " : "") + jstr(assumptions[i]);
        j += fmt("],\n \"wall_s\": %.2f,\n \"violations\": %zu\n}\n", now() - t0,
                 violations.size());
        mkdir((home + "/evidence").c_str(), 0755);
        writeFile(home + "/evidence/" + property + ".json", j);
        for (auto& l : familyLog) out(l);
        out(fmt("%s [%s]: %llu cases, %zu distinct states, %.1f s, %zu violations",
                property.c_str(), tier.c_str(), (unsigned long long)totalCases,
                states.size(), now() - t0, violations.size()));
        rmTree(scratchRoot);
        if (failing()) return 1;
        return broken ? 2 : 0;
    }
};
inline void Case::add(const char* n, uint64_t k) {
    for (size_t i = 0; i < run->counterNames.size(); i++)
        if (run->counterNames[i] == n) {
            run->sh->counters[i] += k;
            return;
        }
    fprintf(stderr, "vk: undeclared counter %s\n", n);
    _exit(72);
}
}  // namespace vk
#endif
