// Runtime of the controlled scheduler; compiled without instrumentation and
// without using the C++ library.
#include "schedrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
size_t malloc_usable_size(void*);
}

namespace {
enum St { FREE, RUN, MUTEX, COND, JOIN, SLEEP, FLAG, ONCE, ENDED, RWR, RWW, SEM };
struct VC {
    uint32_t c[S_MAXT];
};
struct Thr {
    St st;
    const void* obj;
    const void* mtx;
    uint64_t mark;
    int joinee;
    bool daemon, timed, timedOut, detached, joined, woken;
    VC vc;
    pthread_t real;
    int fut;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    uint32_t seq;
};
struct Sync {  // mutexes, rwlocks, atomics, guards, semaphores
    const void* a;
    int owner, count, readers, kind;
    bool destroyed;
    VC vc;
};
struct Cell {
    uintptr_t key;
    uint32_t w[8];
    uint32_t r[S_MAXT][8];
    uintptr_t wpc, rpc[S_MAXT];
};
const int NSYNC = 1 << 14;
const int NCELL = 1 << 18, NINDEX = 1 << 20;
SchedShm* shm;
bool active;
Thr T[S_MAXT];
int nthr, cur, created, failAt = -1;
int preemptLeft, spuriousLeft;
uint32_t condSeq;
Sync* syncs;
int nsync;
Cell* cells;
int ncell;
uint32_t* cellIndex;
__thread int me = -1;
__thread int inrt = 0;

struct In {
    In() { inrt++; }
    ~In() { inrt--; }
};
inline bool managed() { return active && me >= 0 && inrt == 0; }

void die(int end, const char* f, ...) {
    if (shm->end == S_NONE) {
        shm->end = end;
        va_list ap;
        va_start(ap, f);
        vsnprintf(shm->msg, sizeof shm->msg, f, ap);
        va_end(ap);
    }
    _exit(0);
}
void fwait(int* f) {
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
void fwake(int* f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
void vjoin(VC& a, const VC& b) {
    for (int i = 0; i < S_MAXT; i++)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
Sync* sync_(const void* a) {
    uintptr_t h = ((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ULL >> 40;
    for (;; h++) {
        Sync* s = &syncs[h & (NSYNC - 1)];
        if (s->a == a) return s;
        if (!s->a) {
            if (++nsync > NSYNC * 3 / 4) die(S_LIMIT, "too many synchronisation objects");
            s->a = a;
            s->owner = -1;
            s->count = s->readers = 0;
            return s;
        }
    }
}
void acquireHB(const Sync* s) { vjoin(T[me].vc, s->vc); }
void releaseHB(Sync* s) {
    vjoin(s->vc, T[me].vc);
    T[me].vc.c[me]++;
}
bool enabled(int i) {
    Thr& t = T[i];
    switch (t.st) {
    case RUN: return true;
    case MUTEX: return sync_(t.obj)->owner < 0 && sync_(t.obj)->readers == 0;
    case RWR: return sync_(t.obj)->owner < 0;
    case RWW: return sync_(t.obj)->owner < 0 && sync_(t.obj)->readers == 0;
    case SEM: return sync_(t.obj)->count > 0;
    case JOIN: return T[t.joinee].st == ENDED;
    case SLEEP: return shm->steps > t.mark;
    case FLAG: return *(const int*)t.obj != 0;
    case ONCE: return sync_(t.obj)->owner < 0;
    case COND: return spuriousLeft > 0 && sync_(t.mtx)->owner < 0;
    default: return false;
    }
}
const char* stName(St s) {
    static const char* n[] = {"free", "running", "mutex", "condition", "join", "sleep", "flag", "once", "ended", "rwlock", "rwlock", "semaphore"};
    return n[s];
}
int choose(int n, bool preempt, int kind) {
    uint32_t p = shm->npts;
    if (p >= S_MAXP) die(S_LIMIT, "too many choice points");
    SchedChoice& c = shm->pts[p];
    if (p < shm->nprefix) {
        if (c.n != n || c.preempt != (uint8_t)preempt) die(S_NONDET, "choice point %u has %d options instead of %d", p, n, c.n);
    } else {
        c.n = n;
        c.c = 0;
        c.preempt = preempt;
        c.kind = kind;
    }
    shm->npts++;
    return c.c;
}
// gives the processor to the thread the choice list names; the caller's state
// says whether it can go on itself
void reschedule(int kind) {
    if (++shm->steps > shm->maxSteps) die(S_LIMIT, "more than %llu steps: the threads make no progress", (unsigned long long)shm->maxSteps);
    int opt[S_MAXT], n = 0;
    bool selfOn = T[me].st == RUN;
    if (selfOn) opt[n++] = me;
    if (!selfOn || preemptLeft > 0)
        for (int i = 0; i < nthr; i++)
            if (i != me || !selfOn)
                if (enabled(i)) opt[n++] = i;
    if (n == 0) {
        // time passes only when nothing else can happen
        for (int i = 0; i < nthr; i++)
            if (T[i].st == COND && T[i].timed && sync_(T[i].mtx)->owner < 0) {
                T[i].timedOut = true;
                opt[n++] = i;
            }
    }
    if (n == 0) {
        bool quiet = true;
        char who[512];
        int k = 0;
        for (int i = 0; i < nthr; i++) {
            if (T[i].st == ENDED || T[i].st == FREE) continue;
            k += snprintf(who + k, sizeof who - k, " thread %d waits for %s %p;", i, stName(T[i].st), T[i].obj);
            if (!T[i].daemon && T[i].st != SLEEP) quiet = false;
        }
        die(quiet ? S_QUIET : S_DEADLOCK, "%s:%s", quiet ? "nothing left to do" : "deadlock", who);
    }
    int c = 0;
    if (n > 1) c = choose(n, selfOn, kind);
    if (selfOn && c > 0) preemptLeft--;
    int next = opt[c];
    if (T[next].st == COND && !T[next].timedOut) spuriousLeft--;
    if (T[next].st == SLEEP) T[next].st = RUN;
    if (next == me) return;
    shm->switches++;
    cur = next;
    fwake(&T[next].fut);
    if (T[me].st == ENDED) return;
    fwait(&T[me].fut);
}
void point(int kind) {
    T[me].st = RUN;
    reschedule(kind);
}
// blocks the calling thread in state st until it is enabled and chosen
void block(St st, const void* obj, int kind) {
    T[me].st = st;
    T[me].obj = obj;
    reschedule(kind);
    T[me].st = RUN;
}

// ---- data races -----------------------------------------------------------
Cell* cell(uintptr_t k, bool make) {
    // neighbours stay neighbours: few pages are touched
    uintptr_t h = ((k >> 6) * 0x9E3779B97F4A7C15ULL >> 39 << 6) ^ k;
    for (;; h++) {
        uint32_t& ix = cellIndex[h & (NINDEX - 1)];
        if (ix) {
            Cell* c = &cells[ix - 1];
            if (c->key == k) return c;
            continue;
        }
        if (!make) return nullptr;
        if (ncell >= NCELL) die(S_LIMIT, "shadow memory is full");
        Cell* c = &cells[ncell++];
        ix = ncell;
        shm->cells = ncell;
        c->key = k;
        return c;
    }
}
void race(uintptr_t a, bool w1, int t1, uintptr_t pc1, bool w2, uintptr_t pc2) {
    shm->pc[0] = pc1;
    shm->pc[1] = pc2;
    die(S_RACE, "data race: %s of thread %d and %s of thread %d at %p are not ordered", w1 ? "write" : "read", t1,
        w2 ? "write" : "read", me, (void*)a);
}
inline bool before(uint32_t e, const VC& v) {  // epoch e ordered before v
    return (e >> 3) <= v.c[e & 7];
}
void accessRange(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (!shm->races || nthr < 2) return;
    shm->accesses++;
    Thr& t = T[me];
    uint32_t ep = t.vc.c[me] << 3 | me;
    while (n) {
        Cell* c = cell(a >> 3, true);
        unsigned b = a & 7, k = 8 - b < n ? 8 - b : n;
        for (unsigned i = b; i < b + k; i++) {
            if (c->w[i] && (c->w[i] & 7) != (uint32_t)me && !before(c->w[i], t.vc))
                race(a, true, c->w[i] & 7, c->wpc, w, pc);
            if (w)
                for (int j = 0; j < nthr; j++)
                    if (j != me && c->r[j][i] && !before(c->r[j][i], t.vc)) race(a, false, j, c->rpc[j], w, pc);
            if (w) c->w[i] = ep;
            else c->r[me][i] = ep;
        }
        if (w) c->wpc = pc;
        else c->rpc[me] = pc;
        a += k;
        n -= k;
    }
}
void wipeCell(Cell* c) {
    uintptr_t k = c->key;
    memset((void*)c, 0, sizeof *c);
    c->key = k;
}
void forget(uintptr_t a, size_t n) {
    if (!ncell || !n) return;
    uintptr_t lo = a >> 3, hi = (a + n - 1) >> 3;
    if (hi - lo > 4096) {
        for (int i = 0; i < ncell; i++)
            if (cells[i].key >= lo && cells[i].key <= hi) wipeCell(&cells[i]);
        return;
    }
    for (uintptr_t k = lo; k <= hi; k++)
        if (Cell* c = cell(k, false)) wipeCell(c);
}
inline void acc(const volatile void* a, size_t n, bool w, void* pc) {
    if (!managed()) return;
    In g;
    accessRange((uintptr_t)a, n, w, (uintptr_t)pc);
    if (shm->access && preemptLeft > 0 && nthr > 1) point('a');
}
#define PC __builtin_return_address(0)

void* realf(const char* n) {
    void* p = dlsym(RTLD_NEXT, n);
    if (!p) _exit(99);
    return p;
}
#define REAL(name) \
    static decltype(&name) real = (decltype(&name))realf(#name)

void* trampoline(void* p) {
    Thr* t = (Thr*)p;
    inrt = 1;
    me = t - T;
    pthread_attr_t at;
    if (pthread_getattr_np(pthread_self(), &at) == 0) {
        void* lo;
        size_t sz;
        fwait(&t->fut);
        pthread_attr_getstack(&at, &lo, &sz);
        forget((uintptr_t)lo, sz);
    } else {
        fwait(&t->fut);
    }
    inrt = 0;
    void* r = t->fn(t->arg);
    inrt = 1;
    t->ret = r;
    t->st = ENDED;
    if (t->detached) t->joined = true;
    T[me].vc.c[me]++;
    reschedule('e');
    // the handle stays valid; the thread itself is of no further use
    for (;;) pause();
}
}  // namespace

extern "C" {
void schedrt_begin(SchedShm* s) {
    In g;
    shm = s;
    syncs = (Sync*)mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cells = (Cell*)mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cellIndex = (uint32_t*)mmap(nullptr, sizeof(uint32_t) * NINDEX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (cellIndex == MAP_FAILED || syncs == MAP_FAILED || cells == MAP_FAILED) _exit(98);
    nthr = 1;
    me = cur = 0;
    T[0].st = RUN;
    T[0].vc.c[0] = 1;
    T[0].real = pthread_self();
    preemptLeft = s->preemptions;
    spuriousLeft = s->spurious;
    active = true;
}
void schedrt_end(int end) {
    inrt++;
    if (shm->end == S_NONE) shm->end = end;
    _exit(0);
}
void schedrt_point(int kind) {
    if (!managed()) return;
    In g;
    point(kind);
}
void schedrt_observe(const char* p, size_t n) {
    In g;
    if (!shm) return;
    for (size_t i = 0; i < n && shm->nobs < S_OBS; i++) shm->obs[shm->nobs++] = p[i];
}
void schedrt_daemon() {
    if (me >= 0) T[me].daemon = true;
}
void schedrt_fail_create(int nth) { failAt = created + nth; }
int schedrt_thread() { return me; }
int schedrt_alive() {
    int n = 0;
    for (int i = 0; i < nthr; i++)
        if (i != me && T[i].st != ENDED) n++;
    return n;
}
void schedrt_sleep() {
    if (!managed()) return;
    In g;
    T[me].mark = shm->steps + 1;
    block(SLEEP, nullptr, 's');
}
void schedrt_wait(int* flag) {
    In g;
    block(FLAG, flag, 'f');
    acquireHB(sync_(flag));
}
void schedrt_set(int* flag) {
    In g;
    point('f');
    *flag = 1;
    releaseHB(sync_(flag));
}

// ---- mutexes --------------------------------------------------------------
static int mtxLock(pthread_mutex_t* m, bool pt, bool tryOnly) {
    In g;
    if (pt && nthr > 1) point('m');
    Sync* s = sync_(m);
    if (s->destroyed) die(S_MISUSE, "lock of a destroyed mutex %p", (void*)m);
    if (s->owner == me) {
        int kind = m->__data.__kind & 3;
        if (kind == PTHREAD_MUTEX_RECURSIVE) {
            s->count++;
            return 0;
        }
        if (tryOnly) return EBUSY;
        if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        die(S_DEADLOCK, "thread %d locks mutex %p which it already holds", me, (void*)m);
    }
    if (s->owner >= 0) {
        if (tryOnly) return EBUSY;
        block(MUTEX, m, 'm');
    }
    s->owner = me;
    s->count = 1;
    acquireHB(s);
    return 0;
}
static int mtxUnlock(pthread_mutex_t* m) {
    In g;
    Sync* s = sync_(m);
    if (s->owner != me) die(S_MISUSE, "thread %d unlocks mutex %p which it does not hold", me, (void*)m);
    if (--s->count == 0) {
        s->owner = -1;
        releaseHB(s);
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (managed()) return mtxLock(m, false, false);
    REAL(pthread_mutex_lock);
    return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (managed()) return mtxLock(m, false, true);
    REAL(pthread_mutex_trylock);
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (managed()) return mtxUnlock(m);
    REAL(pthread_mutex_unlock);
    return real(m);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    return managed() ? mtxLock(m, true, false) : pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    return managed() ? mtxLock(m, true, true) : pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return pthread_mutex_unlock(m); }
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    if (managed()) {
        In g;
        Sync* s = sync_(m);
        if (!s->destroyed && s->owner >= 0) die(S_MISUSE, "initialisation of the locked mutex %p", (void*)m);
        s->destroyed = false;
        s->owner = -1;
    }
    return __real_pthread_mutex_init(m, a);
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
    if (managed()) {
        In g;
        Sync* s = sync_(m);
        if (s->owner >= 0) die(S_MISUSE, "destruction of the locked mutex %p", (void*)m);
        s->destroyed = true;
    }
    return __real_pthread_mutex_destroy(m);
}
// ---- condition variables --------------------------------------------------
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, bool pt) {
    In g;
    Sync* s = sync_(m);
    if (sync_(c)->destroyed) die(S_MISUSE, "wait on a destroyed condition");
    if (s->owner != me) die(S_MISUSE, "wait on a condition without holding the mutex");
    int cnt = s->count;
    Thr& t = T[me];
    s->owner = -1;
    releaseHB(s);
    t.mtx = m;
    t.timed = timed;
    t.timedOut = false;
    t.seq = ++condSeq;
    block(COND, c, 'c');
    // chosen: the mutex is free
    s->owner = me;
    s->count = cnt;
    acquireHB(s);
    bool to = t.timedOut;
    t.timed = t.timedOut = false;
    return to ? ETIMEDOUT : 0;
}
static void csignal(pthread_cond_t* c, bool all, bool pt) {
    In g;
    if (pt && nthr > 1) point('c');
    if (sync_(c)->destroyed) die(S_MISUSE, "signal of a destroyed condition");
    int w[S_MAXT], n = 0;
    for (int i = 0; i < nthr; i++)
        if (T[i].st == COND && T[i].obj == c) w[n++] = i;
    if (!n) return;
    if (all) {
        for (int i = 0; i < n; i++) {
            T[w[i]].st = MUTEX;
            T[w[i]].obj = T[w[i]].mtx;
        }
    } else {
        int k = n > 1 ? choose(n, false, 'w') : 0;
        T[w[k]].st = MUTEX;
        T[w[k]].obj = T[w[k]].mtx;
    }
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (managed()) return cwait(c, m, false, false);
    REAL(pthread_cond_wait);
    return real(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (managed()) return cwait(c, m, true, false);
    REAL(pthread_cond_timedwait);
    return real(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    if (managed()) return cwait(c, m, true, false);
    REAL(pthread_cond_clockwait);
    return real(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (managed()) {
        csignal(c, false, true);
        return 0;
    }
    REAL(pthread_cond_signal);
    return real(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (managed()) {
        csignal(c, true, true);
        return 0;
    }
    REAL(pthread_cond_broadcast);
    return real(c);
}
int __real_pthread_cond_destroy(pthread_cond_t*);
int __real_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*);
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    if (managed()) {
        In g;
        for (int i = 0; i < nthr; i++)
            if (T[i].st == COND && T[i].obj == c) die(S_MISUSE, "initialisation of a condition with waiters");
        sync_(c)->destroyed = false;
    }
    return __real_pthread_cond_init(c, a);
}
int __wrap_pthread_cond_destroy(pthread_cond_t* c) {
    if (managed()) {
        In g;
        for (int i = 0; i < nthr; i++)
            if (T[i].st == COND && T[i].obj == c) die(S_MISUSE, "destruction of a condition with waiters");
        sync_(c)->destroyed = true;
        return 0;
    }
    return __real_pthread_cond_destroy(c);
}
// ---- reader/writer locks --------------------------------------------------
static int rwlock(pthread_rwlock_t* l, bool wr, bool tryOnly) {
    In g;
    if (nthr > 1) point('m');
    Sync* s = sync_(l);
    bool ok = s->owner < 0 && (!wr || s->readers == 0);
    if (!ok) {
        if (tryOnly) return EBUSY;
        block(wr ? RWW : RWR, l, 'm');
    }
    if (wr) s->owner = me;
    else s->readers++;
    acquireHB(s);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (managed()) return rwlock(l, false, false);
    REAL(pthread_rwlock_rdlock);
    return real(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (managed()) return rwlock(l, true, false);
    REAL(pthread_rwlock_wrlock);
    return real(l);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if (managed()) return rwlock(l, false, true);
    REAL(pthread_rwlock_tryrdlock);
    return real(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if (managed()) return rwlock(l, true, true);
    REAL(pthread_rwlock_trywrlock);
    return real(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (managed()) {
        In g;
        Sync* s = sync_(l);
        if (s->owner == me) s->owner = -1;
        else if (s->readers > 0) s->readers--;
        else die(S_MISUSE, "unlock of a reader/writer lock that is not held");
        releaseHB(s);
        return 0;
    }
    REAL(pthread_rwlock_unlock);
    return real(l);
}
// ---- semaphores (repository code only) ------------------------------------
int __real_sem_init(sem_t*, int, unsigned);
int __real_sem_wait(sem_t*);
int __real_sem_post(sem_t*);
int __wrap_sem_init(sem_t* m, int p, unsigned v) {
    if (managed()) {
        In g;
        sync_(m)->count = v;
        return 0;
    }
    return __real_sem_init(m, p, v);
}
int __wrap_sem_wait(sem_t* m) {
    if (managed()) {
        In g;
        if (nthr > 1) point('m');
        if (sync_(m)->count == 0) block(SEM, m, 'm');
        sync_(m)->count--;
        acquireHB(sync_(m));
        return 0;
    }
    return __real_sem_wait(m);
}
int __wrap_sem_post(sem_t* m) {
    if (managed()) {
        In g;
        if (nthr > 1) point('m');
        sync_(m)->count++;
        releaseHB(sync_(m));
        return 0;
    }
    return __real_sem_post(m);
}
// ---- once -----------------------------------------------------------------
static bool onceEnter(const void* g, bool done) {  // true: the caller runs the body
    Sync* s = sync_(g);
    if (nthr > 1) point('o');
    if (s->owner >= 0 && s->owner != me) block(ONCE, g, 'o');
    acquireHB(s);
    if (s->count || done) return false;
    s->owner = me;
    return true;
}
static void onceLeave(const void* g, bool done) {
    Sync* s = sync_(g);
    s->owner = -1;
    if (done) s->count = 1;
    releaseHB(s);
}
int __real___cxa_guard_acquire(long long*);
void __real___cxa_guard_release(long long*);
void __real___cxa_guard_abort(long long*);
int __wrap___cxa_guard_acquire(long long* g) {
    if (!managed()) return __real___cxa_guard_acquire(g);
    In i;
    return onceEnter(g, *(char*)g != 0);
}
void __wrap___cxa_guard_release(long long* g) {
    if (!managed()) return __real___cxa_guard_release(g);
    In i;
    *(char*)g = 1;
    onceLeave(g, true);
}
void __wrap___cxa_guard_abort(long long* g) {
    if (!managed()) return __real___cxa_guard_abort(g);
    In i;
    onceLeave(g, false);
}
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!managed()) return __real_pthread_once(o, f);
    bool run;
    {
        In i;
        run = onceEnter(o, *o == 2);
    }
    if (run) {
        f();
        In i;
        *o = 2;
        onceLeave(o, true);
    }
    return 0;
}
// ---- threads --------------------------------------------------------------
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    REAL(pthread_create);
    if (!managed()) return real(h, a, fn, arg);
    In g;
    point('t');
    if (++created == failAt) return EAGAIN;
    int slot = nthr;
    if (nthr >= S_MAXT)  // the place of a thread that is gone
        for (slot = 1; slot < nthr; slot++)
            if (T[slot].st == ENDED && T[slot].joined) break;
    if (slot >= S_MAXT) die(S_LIMIT, "too many threads");
    Thr& t = T[slot];
    uint32_t clk = t.vc.c[slot];
    memset((void*)&t, 0, sizeof t);
    t.st = RUN;
    t.fn = fn;
    t.arg = arg;
    int ds = PTHREAD_CREATE_JOINABLE;
    if (a) pthread_attr_getdetachstate(a, &ds);
    t.detached = ds == PTHREAD_CREATE_DETACHED;
    t.vc = T[me].vc;
    t.vc.c[slot] = clk + 1;
    T[me].vc.c[me]++;
    int rc = real(&t.real, nullptr, trampoline, &t);
    if (rc) die(S_LIMIT, "pthread_create failed");
    *h = t.real;
    if (slot == nthr) nthr++;
    point('t');
    return 0;
}
static Thr* byHandle(pthread_t h) {
    for (int i = 0; i < nthr; i++)
        if (pthread_equal(T[i].real, h)) return &T[i];
    return nullptr;
}
int pthread_join(pthread_t h, void** r) {
    REAL(pthread_join);
    if (!managed()) return real(h, r);
    In g;
    Thr* t = byHandle(h);
    if (!t || t->detached || t->joined) die(S_MISUSE, "join of a thread that is detached or was joined before");
    t->joined = true;
    T[me].joinee = t - T;
    block(JOIN, nullptr, 'j');
    vjoin(T[me].vc, t->vc);
    if (r) *r = t->ret;
    return 0;
}
int pthread_detach(pthread_t h) {
    REAL(pthread_detach);
    if (!managed()) return real(h);
    In g;
    Thr* t = byHandle(h);
    if (!t || t->detached || t->joined) die(S_MISUSE, "detach of a thread that is detached or was joined before");
    t->detached = true;
    return 0;
}
// ---- time -----------------------------------------------------------------
unsigned __real_sleep(unsigned);
unsigned __wrap_sleep(unsigned n) {
    if (!managed()) return __real_sleep(n);
    schedrt_sleep();
    return 0;
}
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t n) {
    if (!managed()) return __real_usleep(n);
    schedrt_sleep();
    return 0;
}
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
    if (!managed()) return __real_nanosleep(a, b);
    schedrt_sleep();
    return 0;
}
int __real_sched_yield();
int __wrap_sched_yield() {
    if (!managed()) return __real_sched_yield();
    schedrt_sleep();
    return 0;
}
void __real_xmlLockLibrary();
void __wrap_xmlLockLibrary() {
    schedrt_point('x');
    __real_xmlLockLibrary();
}

// ---- memory ---------------------------------------------------------------
static void fresh(void* p) {
    if (p && managed()) {
        In g;
        forget((uintptr_t)p, malloc_usable_size(p));
    }
}
void* malloc(size_t n) {
    void* p = __libc_malloc(n);
    fresh(p);
    return p;
}
void* calloc(size_t n, size_t k) {
    void* p = __libc_calloc(n, k);
    fresh(p);
    return p;
}
void free(void* p) {
    if (p && managed()) {
        In g;
        // releasing is a write for the purpose of ordering
        size_t n = malloc_usable_size(p);
        if (shm->races && nthr > 1)
            for (uintptr_t k = (uintptr_t)p >> 3; k <= ((uintptr_t)p + (n < 4096 ? n : 4096) - 1) >> 3; k++)
                if (Cell* c = cell(k, false))
                    for (int i = 0; i < 8; i++) {
                        if (c->w[i] && (c->w[i] & 7) != (uint32_t)me && !before(c->w[i], T[me].vc))
                            race(k << 3, true, c->w[i] & 7, c->wpc, true, (uintptr_t)PC);
                        for (int j = 0; j < nthr; j++)
                            if (j != me && c->r[j][i] && !before(c->r[j][i], T[me].vc))
                                race(k << 3, false, j, c->rpc[j], true, (uintptr_t)PC);
                    }
        forget((uintptr_t)p, n);
    }
    __libc_free(p);
}
void* realloc(void* p, size_t n) {
    if (p && managed()) {
        In g;
        forget((uintptr_t)p, malloc_usable_size(p));
    }
    void* q = __libc_realloc(p, n);
    fresh(q);
    return q;
}
void* memalign(size_t a, size_t n) {
    void* p = __libc_memalign(a, n);
    fresh(p);
    return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) {
    *p = memalign(a, n);
    return *p ? 0 : ENOMEM;
}

#define STR(type, name, params, args, pre)          \
    type __real_##name params;                      \
    type __wrap_##name params {                     \
        if (managed()) {                            \
            In g;                                   \
            uintptr_t pc = (uintptr_t)PC;           \
            (void)pc;                               \
            pre;                                    \
        }                                           \
        return __real_##name args;                  \
    }
#define RD(p, n) accessRange((uintptr_t)(p), n, false, pc)
#define WR(p, n) accessRange((uintptr_t)(p), n, true, pc)
static size_t zlen(const char* s) {
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
STR(void*, memcpy, (void* d, const void* s, size_t n), (d, s, n), (RD(s, n), WR(d, n)))
STR(void*, memmove, (void* d, const void* s, size_t n), (d, s, n), (RD(s, n), WR(d, n)))
STR(void*, memset, (void* d, int c, size_t n), (d, c, n), (WR(d, n)))
STR(int, memcmp, (const void* a, const void* b, size_t n), (a, b, n), (RD(a, n), RD(b, n)))
STR(size_t, strlen, (const char* a), (a), (RD(a, zlen(a) + 1)))
STR(int, strcmp, (const char* a, const char* b), (a, b), (RD(a, zlen(a) + 1), RD(b, zlen(b) + 1)))
STR(char*, strcpy, (char* d, const char* s), (d, s), (RD(s, zlen(s) + 1), WR(d, zlen(s) + 1)))
STR(char*, strdup, (const char* s), (s), (RD(s, zlen(s) + 1)))

// ---- compiler interface ---------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {
    if (!managed() || !shm->func || nthr < 2 || preemptLeft <= 0) return;
    In g;
    point('F');
}
void __tsan_func_exit() {
    if (!managed() || !shm->func || nthr < 2 || preemptLeft <= 0) return;
    In g;
    point('G');
}
#define ACC(N)                                                                       \
    void __tsan_read##N(void* a) { acc(a, N, false, PC); }                           \
    void __tsan_write##N(void* a) { acc(a, N, true, PC); }                           \
    void __tsan_unaligned_read##N(void* a) { acc(a, N, false, PC); }                 \
    void __tsan_unaligned_write##N(void* a) { acc(a, N, true, PC); }                 \
    void __tsan_volatile_read##N(void* a) { acc(a, N, false, PC); }                  \
    void __tsan_volatile_write##N(void* a) { acc(a, N, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_read(void* a) { acc(a, 8, false, PC); }
void __tsan_vptr_update(void** a, void* v) {
    if (*a != v) acc(a, 8, true, PC);
}
void __tsan_read_range(void* a, unsigned long n) { acc(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { acc(a, n, true, PC); }

static bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void atomicOp(const volatile void* a, int mo, bool load, bool store) {
    if (!managed()) return;
    In g;
    if (nthr > 1) point('A');
    if (load && isAcq(mo)) acquireHB(sync_((const void*)a));
    if (store && isRel(mo)) releaseHB(sync_((const void*)a));
}
#define ATOM(B, TY)                                                                                                     \
    TY __tsan_atomic##B##_load(const volatile TY* a, int mo) {                                                          \
        atomicOp(a, mo, true, false);                                                                                   \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                    \
    }                                                                                                                   \
    void __tsan_atomic##B##_store(volatile TY* a, TY v, int mo) {                                                       \
        atomicOp(a, mo, false, true);                                                                                   \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                       \
    }                                                                                                                   \
    TY __tsan_atomic##B##_exchange(volatile TY* a, TY v, int mo) {                                                      \
        atomicOp(a, mo, true, true);                                                                                    \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                   \
    TY __tsan_atomic##B##_fetch_add(volatile TY* a, TY v, int mo) {                                                     \
        atomicOp(a, mo, true, true);                                                                                    \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                   \
    TY __tsan_atomic##B##_fetch_sub(volatile TY* a, TY v, int mo) {                                                     \
        atomicOp(a, mo, true, true);                                                                                    \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                   \
    TY __tsan_atomic##B##_fetch_and(volatile TY* a, TY v, int mo) {                                                     \
        atomicOp(a, mo, true, true);                                                                                    \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                   \
    TY __tsan_atomic##B##_fetch_or(volatile TY* a, TY v, int mo) {                                                      \
        atomicOp(a, mo, true, true);                                                                                    \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                               \
    }                                                                                                                   \
    TY __tsan_atomic##B##_fetch_xor(volatile TY* a, TY v, int mo) {                                                     \
        atomicOp(a, mo, true, true);                                                                                    \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                   \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY* a, TY* e, TY v, int mo, int) {                          \
        atomicOp(a, mo, true, true);                                                                                    \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                         \
    }                                                                                                                   \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY* a, TY* e, TY v, int mo, int) {                            \
        atomicOp(a, mo, true, true);                                                                                    \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                         \
    }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
