// Depth-first exploration of all interleavings of a program (see schedrt.h).
#ifndef SCHED_HPP
#define SCHED_HPP
#include "schedrt.h"
#include "vk.hpp"
#include <link.h>
#include <sched.h>

namespace sched {
struct Options {
    int preemptions = 2, spurious = 0;
    bool func = false, access = false, races = true;
    uint64_t maxSteps = 20000000, maxSchedules = 1000000000;
    unsigned slice = 0, slices = 1;  // this call explores only its share
    unsigned stride = 1;             // spacing of alternatives at access points
    unsigned timeout = 60;
};
struct Outcome {
    int end;
    std::string msg, obs;
    uint64_t schedule;
};
struct Stats {
    uint64_t schedules = 0, steps = 0, accesses = 0, switches = 0, points = 0;
};
inline SchedShm* shm() {
    static SchedShm* s = nullptr;
    static pid_t owner = 0;
    if (owner != getpid()) {
        owner = getpid();
        s = (SchedShm*)mmap(nullptr, sizeof(SchedShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (s == MAP_FAILED) _exit(70);
    }
    return s;
}
inline uintptr_t exeBase() {
    uintptr_t b = 0;
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void* d) {
        *(uintptr_t*)d = i->dlpi_addr;
        return 1;
    }, &b);
    return b;
}
inline std::string where(uintptr_t pc) {
    if (!pc) return "?";
    char exe[512];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n < 0) return "?";
    exe[n] = 0;
    std::string cmd = vk::fmt("addr2line -C -f -i -p -e '%s' 0x%lx 2>/dev/null", exe, (unsigned long)(pc - 1 - exeBase()));
    FILE* f = popen(cmd.c_str(), "r");
    std::string o;
    char b[512];
    int lines = 0;
    while (f && fgets(b, sizeof b, f) && lines++ < 6) o += std::string("    ") + b;
    if (f) pclose(f);
    return o;
}
// one thread runs at a time, so an execution keeps to one processor
inline void pinTo(unsigned k) {
    static cpu_set_t all;
    static int n = -1;
    if (n < 0) {
        if (sched_getaffinity(0, sizeof all, &all) != 0) return;
        n = CPU_COUNT(&all);
    }
    if (n < 2) return;
    k %= n;
    for (int i = 0; i < CPU_SETSIZE; i++)
        if (CPU_ISSET(i, &all) && k-- == 0) {
            cpu_set_t one;
            CPU_ZERO(&one);
            CPU_SET(i, &one);
            sched_setaffinity(0, sizeof one, &one);
            return;
        }
}
inline unsigned& worker() {
    static unsigned w = 0;
    return w;
}
inline void pin(vk::Case& c) {
    worker() = c.slot - c.run->sh->w;
}
inline void observe(const std::string& s) { schedrt_observe(s.data(), s.size()); }

// body runs as thread 0 of a fresh process for every schedule; judge looks at
// the outcome and returns what is wrong with it, or "".
inline std::string explore(const Options& o, const std::function<void()>& body,
                           const std::function<std::string(const Outcome&)>& judge, Stats& st,
                           const std::function<void()>& beat) {
    SchedShm* s = shm();
    std::vector<SchedChoice> path;
    for (;;) {
        s->nprefix = path.size();
        for (size_t i = 0; i < path.size(); i++) s->pts[i] = path[i];
        s->preemptions = o.preemptions;
        s->spurious = o.spurious;
        s->func = o.func;
        s->access = o.access;
        s->races = o.races;
        s->maxSteps = o.maxSteps;
        s->npts = 0;
        s->end = S_NONE;
        s->steps = s->accesses = s->cells = s->switches = 0;
        s->msg[0] = 0;
        s->pc[0] = s->pc[1] = 0;
        s->nobs = 0;
        pid_t p = fork();
        if (p < 0) return "fork failed";
        if (p == 0) {
            pinTo(worker());
            alarm(o.timeout);
            schedrt_begin(s);
            body();
            schedrt_end(S_DONE);
        }
        int w = 0;
        while (waitpid(p, &w, 0) < 0 && errno == EINTR) {
        }
        st.schedules++;
        st.steps += s->steps;
        st.accesses += s->accesses;
        st.switches += s->switches;
        if (s->npts > st.points) st.points = s->npts;
        beat();
        Outcome out;
        out.schedule = st.schedules;
        out.end = s->end;
        out.msg = s->msg;
        out.obs.assign(s->obs, s->nobs);
        if (WIFSIGNALED(w)) {
            out.end = S_CRASH;
            out.msg = WTERMSIG(w) == SIGALRM ? vk::fmt("no end after %u s", o.timeout)
                                             : vk::fmt("died with signal %d", WTERMSIG(w));
        } else if (s->end == S_NONE) {
            out.end = S_CRASH;
            out.msg = vk::fmt("exited with status %d", WEXITSTATUS(w));
        }
        std::string e = judge(out);
        if (!e.empty()) {
            std::string tr;
            for (uint32_t i = 0; i < s->npts && i < 2000000; i++)
                if (s->pts[i].c) tr += vk::fmt(" %u:%d%s", i, s->pts[i].c, s->pts[i].preempt ? "(preemption)" : "");
            e += vk::fmt("\nschedule %llu, choices other than the first:%s\n", (unsigned long long)st.schedules, tr.c_str());
            if (s->pc[0] || s->pc[1]) e += "  first access\n" + where(s->pc[0]) + "  second access\n" + where(s->pc[1]);
            return e;
        }
        if (st.schedules >= o.maxSchedules) return "";
        // next schedule
        path.assign(s->pts, s->pts + s->npts);
        for (;;) {
            if (path.empty()) return "";
            SchedChoice& l = path.back();
            if (l.c + 1 < l.n) {
                bool mine = true;
                if (l.preempt && l.c == 0) {
                    bool first = true;
                    for (size_t i = 0; i + 1 < path.size() && first; i++)
                        if (path[i].preempt && path[i].c) first = false;
                    // the first preemption decides whose share a schedule is
                    if (first && o.slices > 1) mine = path.size() % o.slices == o.slice;
                    if (first && o.stride > 1 && (path.size() / o.slices) % o.stride) mine = false;
                }
                if (mine) {
                    l.c++;
                    break;
                }
            }
            path.pop_back();
        }
    }
}
inline const char* endName(int e) {
    static const char* n[] = {"none", "done", "quiet", "deadlock", "race", "misuse", "limit", "nondeterminism", "crash"};
    return n[e];
}
// the usual verdict on how an execution ended
inline std::string ending(const Outcome& o, bool mayBeQuiet = false) {
    if (o.end == S_DONE || (mayBeQuiet && o.end == S_QUIET)) return "";
    return std::string(endName(o.end)) + ": " + o.msg + "\nobserved so far: " + o.obs;
}
}  // namespace sched
#endif
