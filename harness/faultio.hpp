// faultio.hpp -- total control over the file-changing system calls of a child
// process.  A seccomp filter traps them (whoever issues them: stdio, iostreams,
// LevelDB, any thread) and a SIGSYS handler decides per call whether it runs,
// runs in part, fails, or is the last thing the process ever does.
#ifndef FAULTIO_HPP
#define FAULTIO_HPP
#include "vk.hpp"

#include <errno.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>

namespace fio {
static const long MAGIC = 0x6d777356;
enum Mode { RECORD = 0, KILL_BEFORE, KILL_PARTIAL, KILL_AFTER, FAIL_ONCE, FAIL_FROM, SHORT_ONCE };

struct Event {
    int nr, fd;
    long len;
    char path[96];
};
struct Plan {
    int mode;
    int at;       // index of the controlled call
    int err;      // errno for FAIL_*
    long partial; // bytes performed before dying / returned by SHORT_ONCE
    int ioOnly;   // fail only calls of this class (see cls), 0 = any
    // observations
    std::atomic<int> count;
    std::atomic<int> hit;
    int nev;
    Event ev[4096];
};
// shared with the controlled child only: every process that runs children
// has its own
inline Plan*& plan() {
    static Plan* p = nullptr;
    return p;
}
inline void ownPlan() {
    static pid_t owner = 0;
    if (plan() && owner == getpid()) return;
    owner = getpid();
    plan() = (Plan*)mmap(nullptr, sizeof(Plan), PROT_READ | PROT_WRITE,
                         MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (plan() == MAP_FAILED) _exit(70);
}
inline long raw(long nr, long a, long b, long c, long d, long e) {
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = MAGIC;
    long ret;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
inline const char* name(int nr) {
    switch (nr) {
    case SYS_write: return "write";
    case SYS_pwrite64: return "pwrite";
    case SYS_writev: return "writev";
    case SYS_open: case SYS_openat: case SYS_creat: return "open";
    case SYS_close: return "close";
    case SYS_unlink: case SYS_unlinkat: return "unlink";
    case SYS_rename: case SYS_renameat: return "rename";
    case SYS_mkdir: case SYS_mkdirat: return "mkdir";
    case SYS_rmdir: return "rmdir";
    case SYS_ftruncate: return "ftruncate";
    case SYS_fsync: return "fsync";
    case SYS_fdatasync: return "fdatasync";
    }
    return "?";
}
inline bool isWrite(int nr) { return nr == SYS_write || nr == SYS_pwrite64 || nr == SYS_writev; }

inline void onSys(int, siginfo_t* si, void* uc_) {
    ucontext_t* uc = (ucontext_t*)uc_;
    greg_t* g = uc->uc_mcontext.gregs;
    int nr = si->si_syscall;
    long a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
    bool counted = true;
    const char* path = "";
    int fd = -1;
    long len = 0;
    int savedErrno = errno;
    switch (nr) {
    case SYS_write:
    case SYS_pwrite64:
    case SYS_writev:
    case SYS_close:
    case SYS_fsync:
    case SYS_fdatasync:
    case SYS_ftruncate: fd = a[0]; break;
    case SYS_open: path = (const char*)a[0]; break;
    case SYS_creat: path = (const char*)a[0]; break;
    case SYS_openat: path = (const char*)a[1]; break;
    default: path = (const char*)a[nr == SYS_unlinkat || nr == SYS_mkdirat ? 1 : 0];
    }
    if (nr == SYS_open && !(a[1] & (O_CREAT | O_WRONLY | O_RDWR))) counted = false;
    if (nr == SYS_openat && !(a[2] & (O_CREAT | O_WRONLY | O_RDWR))) counted = false;
    char link[96];
    link[0] = 0;
    if (fd >= 0) {
        if (fd <= 2) counted = false;
        char pr[32];
        // async-signal-safe number formatting
        const char* pre = "/proc/self/fd/";
        int n = 0;
        while (pre[n]) { pr[n] = pre[n]; n++; }
        char dg[12];
        int k = 0, v = fd;
        do { dg[k++] = '0' + v % 10; v /= 10; } while (v);
        while (k) pr[n++] = dg[--k];
        pr[n] = 0;
        char full[512];
        long r = raw(SYS_readlink, (long)pr, (long)full, sizeof(full) - 1, 0, 0);
        if (r > 0) {
            full[r] = 0;
            if (full[0] != '/' || !strncmp(full, "/dev/null", 9) || !strncmp(full, "/proc", 5)) counted = false;
            long st = r > 90 ? r - 90 : 0;
            memcpy(link, full + st, r - st + 1);
            if (nr == SYS_close) {
                // only files opened for writing matter
                long fl = raw(SYS_fcntl, fd, F_GETFL, 0, 0, 0);
                if (fl >= 0 && (fl & O_ACCMODE) == O_RDONLY) counted = false;
            }
        } else {
            counted = false;
        }
        path = link;
    }
    if (isWrite(nr)) {
        len = a[2];
        if (nr == SYS_writev) {
            len = 0;
            for (int i = 0; i < a[2]; i++) len += ((struct iovec*)a[1])[i].iov_len;
        }
    }
    Plan* p = plan();
    long ret;
    bool done = false;
    if (counted) {
        int i = p->count.fetch_add(1);
        if (i < 4096) {
            Event& e = p->ev[i];
            e.nr = nr;
            e.fd = fd;
            e.len = len;
            size_t L = strlen(path);
            const char* s = L > 90 ? path + L - 90 : path;
            size_t j = 0;
            for (; s[j] && j < 95; j++) e.path[j] = s[j];
            e.path[j] = 0;
            p->nev = i + 1;
        }
        if (i == p->at || (p->mode == FAIL_FROM && i > p->at)) {
            p->hit = 1;
            switch (p->mode) {
            case KILL_BEFORE: raw(SYS_exit_group, 99, 0, 0, 0, 0); break;
            case KILL_AFTER:
                raw(nr, a[0], a[1], a[2], a[3], a[4]);
                raw(SYS_exit_group, 99, 0, 0, 0, 0);
                break;
            case KILL_PARTIAL:
                if (nr == SYS_write || nr == SYS_pwrite64) {
                    long n = p->partial < a[2] ? p->partial : a[2];
                    raw(nr, a[0], a[1], n, a[3], a[4]);
                } else if (nr == SYS_writev) {
                    long left = p->partial;
                    for (int k = 0; k < a[2] && left > 0; k++) {
                        struct iovec& v = ((struct iovec*)a[1])[k];
                        long n = left < (long)v.iov_len ? left : (long)v.iov_len;
                        raw(SYS_write, a[0], (long)v.iov_base, n, 0, 0);
                        left -= n;
                    }
                }
                raw(SYS_exit_group, 99, 0, 0, 0, 0);
                break;
            case FAIL_ONCE:
            case FAIL_FROM:
                ret = -p->err;
                done = true;
                // a failing close still releases the descriptor
                if (nr == SYS_close) raw(nr, a[0], 0, 0, 0, 0);
                break;
            case SHORT_ONCE:
                if (nr == SYS_write || nr == SYS_pwrite64) {
                    long n = p->partial < a[2] ? p->partial : a[2];
                    ret = raw(nr, a[0], a[1], n, a[3], a[4]);
                    done = true;
                } else if (nr == SYS_writev) {
                    struct iovec& v = ((struct iovec*)a[1])[0];
                    long n = p->partial < (long)v.iov_len ? p->partial : (long)v.iov_len;
                    ret = raw(SYS_write, a[0], (long)v.iov_base, n, 0, 0);
                    done = true;
                }
                break;
            default: break;
            }
        }
    }
    if (!done) ret = raw(nr, a[0], a[1], a[2], a[3], a[4]);
    g[REG_RAX] = ret;
    errno = savedErrno;
}

// installs the trap in the calling process (all threads it starts later)
inline bool install() {
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = onSys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, nullptr);
    static const int NR[] = {SYS_write, SYS_pwrite64, SYS_writev, SYS_open, SYS_openat, SYS_creat,
                             SYS_close, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat,
                             SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_ftruncate, SYS_fsync,
                             SYS_fdatasync};
    const int N = sizeof(NR) / sizeof(NR[0]);
    std::vector<sock_filter> f;
    auto st = [&](uint16_t c, uint32_t k) { sock_filter x = BPF_STMT(c, k); f.push_back(x); };
    auto jp = [&](uint16_t c, uint32_t k, uint8_t t, uint8_t e) { sock_filter x = BPF_JUMP(c, k, t, e); f.push_back(x); };
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, args[5]));
    jp(BPF_JMP | BPF_JEQ | BPF_K, MAGIC, 0, 1);
    st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    st(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
    for (int i = 0; i < N; i++) {
        jp(BPF_JMP | BPF_JEQ | BPF_K, NR[i], 0, 1);
        st(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    }
    st(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    sock_fprog prog;
    prog.len = f.size();
    prog.filter = f.data();
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0) return false;
    return syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog) == 0;
}

struct Outcome {
    bool exited, killed;
    int code, sig, count, hit;
    std::string log;
};
// runs fn in a child under the plan; its return value is the exit code
inline Outcome run(int mode, int at, int err, long partial, const std::function<int()>& fn,
                   const std::string& logPath, double limit = 60) {
    ownPlan();
    Plan* p = plan();
    p->mode = mode;
    p->at = at;
    p->err = err;
    p->partial = partial;
    p->count = 0;
    p->hit = 0;
    p->nev = 0;
    pid_t pid = fork();
    if (pid == 0) {
        int fd = ::open(logPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
        dup2(fd, 2);
        ::close(fd);
        if (!install()) _exit(98);
        int rc = fn();
        raw(SYS_exit_group, rc, 0, 0, 0, 0);
    }
    double t = vk::now();
    int st;
    Outcome o;
    o.exited = false;
    o.killed = false;
    o.code = o.sig = 0;
    while (waitpid(pid, &st, WNOHANG) == 0) {
        if (vk::now() - t > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            o.sig = -1;
            o.log = "(hang)";
            o.count = p->count;
            o.hit = p->hit;
            return o;
        }
        usleep(300);
    }
    o.count = p->count;
    o.hit = p->hit;
    if (WIFEXITED(st)) {
        o.exited = true;
        o.code = WEXITSTATUS(st);
        o.killed = o.code == 99 && mode >= KILL_BEFORE && mode <= KILL_AFTER && o.hit;
    } else {
        o.sig = WTERMSIG(st);
    }
    if (!o.exited || (o.code != 0 && !o.killed)) o.log = vk::readFile(logPath);
    return o;
}
inline std::string describe(int i) {
    Plan* p = plan();
    if (i < 0 || i >= p->nev) return "?";
    Event& e = p->ev[i];
    std::string f = e.path;
    return vk::fmt("call %d: %s(%s%s)", i, name(e.nr), f.c_str(),
                   isWrite(e.nr) ? vk::fmt(", %ld bytes", e.len).c_str() : "");
}
}  // namespace fio
#endif
