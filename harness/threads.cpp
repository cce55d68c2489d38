// C15: the thread wrapper under every schedule and every order of calls.
#include "common/thread/ThreadWrapper.hpp"
#include "sched.hpp"
#include <pthread.h>
using std::string;
using std::vector;
using vk::Case;

// ---- programs: sequences of control calls, each with its own expectations ---
// I init, R run a worker, C clean, J (second controller) clean,
// F run whose thread cannot be created
struct Work {
    int id;
    int ran;      // written by the worker only, read by the controller after clean()
    string nest;  // what the worker itself does
};
static Work work[8];
static int nwork;
static int rets[8];
static void note(const string& s) {
    sched::observe(s + "\n");
}
static void* body(void* p) {
    Work* w = (Work*)p;
    note(vk::fmt("begin %d", w->id));
    schedrt_point('u');
    for (char c : w->nest) {
        if (c == 'R') {
            Work* n = &work[4 + w->id];
            n->id = 4 + w->id;
            rets[n->id] = ThreadWrapper::run(body, n);
            note(vk::fmt("nested %d returned %d", n->id, rets[n->id] != 0));
        }
    }
    w->ran++;
    note(vk::fmt("end %d", w->id));
    return nullptr;
}
static void* cleaner(void*) {
    note("clean2 called");
    ThreadWrapper::clean();
    note("clean2 returned");
    return nullptr;
}
static void* runner(void* p) {
    Work* w = (Work*)p;
    rets[w->id] = ThreadWrapper::run(body, w);
    note(vk::fmt("run %d returned %d", w->id, rets[w->id] != 0));
    return nullptr;
}

// What must have been observed.  The text is a history: the position of its
// lines is the order in which the events took place.
struct Hist {
    vector<string> l;
    explicit Hist(const string& s) {
        std::istringstream is(s);
        string x;
        while (std::getline(is, x)) l.push_back(x);
    }
    int count(const string& s) const { return std::count(l.begin(), l.end(), s); }
    int pos(const string& s) const {
        auto i = std::find(l.begin(), l.end(), s);
        return i == l.end() ? -1 : i - l.begin();
    }
};

struct Prog {
    string calls;         // controller
    vector<string> nest;  // per worker
};
static string judge(const Prog& p, const sched::Outcome& o) {
    string e = sched::ending(o);
    if (!e.empty()) return e;
    Hist h(o.obs);
    // walk through the calls the controller made
    bool active = false;
    int w = 0, cleans = 0;
    vector<int> startedBy;  // workers accepted so far, of the current epoch
    for (char c : p.calls) {
        if (c == 'I') {
            active = true;
            if (h.pos("init failed") >= 0) return "init() failed\n" + o.obs;
        }
        if (c == 'R' || c == 'F') {
            int k = w++;
            bool ok = h.count(vk::fmt("run %d returned 0", k)) == 1;
            bool want = active && c != 'F';
            if (ok != want)
                return vk::fmt("run() of worker %d %s\n", k, ok ? "reported success although no thread can run it" : "reported an error") + o.obs;
            int b = h.count(vk::fmt("begin %d", k)), n = h.count(vk::fmt("end %d", k));
            if (!ok && b) return vk::fmt("worker %d ran although run() reported an error\n", k) + o.obs;
            if (ok && b > 1) return vk::fmt("worker %d ran %d times\n", k, b) + o.obs;
            if (ok) startedBy.push_back(k);
            (void)n;
        }
        if (c == 'P')
            for (int i = 0; i < 2; i++) {
                int k = w++;
                bool ok = h.count(vk::fmt("run %d returned 0", k)) == 1;
                if (ok != active) return vk::fmt("run() of worker %d returned the wrong status\n", k) + o.obs;
                if (ok) startedBy.push_back(k);
                else if (h.count(vk::fmt("begin %d", k))) return vk::fmt("worker %d ran although run() reported an error\n", k) + o.obs;
                if (h.count(vk::fmt("begin %d", k)) > 1) return vk::fmt("worker %d ran twice\n", k) + o.obs;
            }
        if (c == 'Q') {
            // accepted (and then over before clean() returned) or refused
            int k = w++;
            bool ok = h.count(vk::fmt("run %d returned 0", k)) == 1;
            if (ok && !active) return vk::fmt("run() of worker %d reported success after clean()\n", k) + o.obs;
            if (ok) startedBy.push_back(k);
            else if (h.count(vk::fmt("begin %d", k))) return vk::fmt("worker %d ran although run() reported an error\n", k) + o.obs;
        }
        if (c == 'C' || c == 'J' || c == 'Q') {
            int at = h.pos(vk::fmt("clean %d returned", cleans++));
            if (at < 0) return "clean() did not return\n" + o.obs;
            for (int k : startedBy) {
                int q = h.pos(vk::fmt("end %d", k));
                if (q < 0 || q > at) return vk::fmt("clean() returned before worker %d ended\n", k) + o.obs;
                // what a worker started before clean() was over counts too
                int r = h.pos(vk::fmt("nested %d returned 0", 4 + k));
                if (r >= 0) {
                    int z = h.pos(vk::fmt("end %d", 4 + k));
                    if (z < 0 || z > at) return vk::fmt("clean() returned before nested worker %d ended\n", 4 + k) + o.obs;
                }
            }
            active = false;
            startedBy.clear();
        }
    }
    for (int k = 4; k < 8; k++)
        if (h.count(vk::fmt("nested %d returned 1", k)) && h.count(vk::fmt("begin %d", k)))
            return vk::fmt("nested worker %d ran although run() reported an error\n", k) + o.obs;
    return "";
}
static void program(const Prog& p) {
    int w = 0, cleans = 0;
    for (char c : p.calls) {
        if (c == 'I') {
            if (ThreadWrapper::init() != 0) note("init failed");
        } else if (c == 'R' || c == 'F') {
            int k = w++;
            work[k].id = k;
            work[k].nest = k < (int)p.nest.size() ? p.nest[k] : "";
            if (c == 'F') schedrt_fail_create(1);
            int r = ThreadWrapper::run(body, &work[k]);
            note(vk::fmt("run %d returned %d", k, r != 0));
        } else if (c == 'C') {
            ThreadWrapper::clean();
            // the workers' results are visible without further synchronisation
            for (int k = 0; k < w; k++) rets[7] += work[k].ran;
            note(vk::fmt("clean %d returned", cleans++));
        } else if (c == 'P' || c == 'Q') {
            pthread_t t[2];
            int n = c == 'P' ? 2 : 1;
            for (int i = 0; i < n; i++) {
                work[w].id = w;
                work[w].nest = "";
                pthread_create(&t[i], nullptr, runner, &work[w++]);
            }
            if (c == 'Q') {
                ThreadWrapper::clean();
                note(vk::fmt("clean %d returned", cleans++));
            }
            for (int i = 0; i < n; i++) pthread_join(t[i], nullptr);
        } else if (c == 'J') {
            // two threads wait at the same time
            pthread_t t;
            pthread_create(&t, nullptr, cleaner, nullptr);
            ThreadWrapper::clean();
            note(vk::fmt("clean %d returned", cleans++));
            pthread_join(t, nullptr);
        }
    }
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C15", "model_checking");
    run.declare({"schedules", "steps", "accesses", "switches", "programs"});
    run.transitionsCounter = "steps";
    run.tracesCounter = "schedules";
    run.caseTimeout = 120;
    run.rule = "state = (control program, observed history); transition = one scheduling step of the real wrapper; "
               "trace = one complete schedule of the real code";
    run.assumptions = {"The pthread primitives are replaced by a controlled implementation with the POSIX semantics; "
                       "init() is documented not to be thread safe and is called while no worker runs.",
                       "Schedules are enumerated up to the stated number of preemptions; plain accesses are covered by "
                       "the happens-before race check on every schedule."};
    const bool th = run.thorough;
    auto go = [&](Case& c, const Prog& p, int pre, int spur, unsigned slice = 0, unsigned slices = 1) {
        string d = p.calls;
        for (auto& n : p.nest) d += " [" + n + "]";
        c.desc(d + vk::fmt("  (up to %d preemptions, %d spurious wake-ups)", pre, spur));
        c.add("programs");
        sched::pin(c);
    
        sched::Options o;
        o.preemptions = pre;
        o.spurious = spur;
        o.slice = slice;
        o.slices = slices;
        o.maxSteps = 20000;
        sched::Stats st;
        string e = sched::explore(o, [&] { program(p); },
                                  [&](const sched::Outcome& out) {
                                      c.state(d + out.obs);
                                      return judge(p, out);
                                  },
                                  st, [&] { c.beat(); });
        c.add("schedules", st.schedules);
        c.add("steps", st.steps);
        c.add("accesses", st.accesses);
        c.add("switches", st.switches);
        c.desc(c.description + vk::fmt(": %llu schedules", (unsigned long long)st.schedules));
        if (!e.empty()) c.fail(d + "\n" + e);
    };
    // every call sequence of one controller that begins with init: up to five
    // further calls; init is only called when the wrapper is idle
    vector<Prog> progs;
    std::function<void(string, bool, bool, int)> gen = [&](string s, bool active, bool dirty, int left) {
        progs.push_back({s, {}});
        if (!left) return;
        int w = std::count(s.begin(), s.end(), 'R'), f = std::count(s.begin(), s.end(), 'F');
        if (w < 3 && w + f < 4) gen(s + "R", active, true, left - 1);
        if (active && w + f < 4) gen(s + "F", active, dirty, left - 1);
        gen(s + "C", false, false, left - 1);
        gen(s + "J", false, false, left - 1);
        if (!dirty || !active) gen(s + "I", true, false, left - 1);
    };
    gen("I", true, false, 4);
    run.forall("call-sequences", progs.size(), [&](Case& c) {
        const string& s = progs[c.index].calls;
        int w = std::count(s.begin(), s.end(), 'R') + std::count(s.begin(), s.end(), 'J');
        if (th) go(c, progs[c.index], w <= 2 ? 3 : w <= 3 ? 2 : 1, w <= 3);
        else go(c, progs[c.index], w <= 2 ? 2 : w <= 3 ? 1 : 0, w <= 2);
    }, 1);
    // several threads use the wrapper at once
    vector<string> conc = {"IPC", "IPCP", "IQ", "IRQ", "IQC", "IQQ", "IPQ", "IQIRC", "IPCIRC", "IQIQ", "IFPC", "IPJ"};
    run.forall("concurrent-calls", conc.size() * 8, [&](Case& c) {
        const string& s = conc[c.index / 8];
        go(c, {s, {}}, s.size() <= 3 && s != "IPQ" && s != "IPJ" ? (th ? 3 : 2) : th ? 2 : 1, 0, c.index % 8, 8);
    }, 1);
    // workers that start workers
    vector<Prog> nested;
    for (string calls : {"IRC", "IRRC", "IRCIRC", "IRJ", "IRRJ"})
        for (int m = 1; m < 4; m++) nested.push_back({calls, {m & 1 ? "R" : "", m & 2 ? "R" : ""}});
    run.forall("nested", nested.size() * 8, [&](Case& c) {
        const Prog& p = nested[c.index / 8];
        int w = std::count(p.calls.begin(), p.calls.end(), 'R') + std::count(p.calls.begin(), p.calls.end(), 'J');
        for (auto& n : p.nest) w += n.size();
        go(c, p, w <= 2 ? 3 : w <= 3 ? 2 : w <= 4 && th ? 2 : 1, 0, c.index % 8, 8);
    }, 1);
    return run.finish();
}
