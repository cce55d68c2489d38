// Loaded into a server before everything else (C28): decides the schedule of two
// connections. The thread of connection VK_FIRST stops at its VK_HOLD-th event
// until the next connection has been answered or has stopped itself, which it
// does at its VK_HOLD2-th event (never if that is 0) until the first one has been
// answered. Who cannot go on (a lock) is waited for VK_WAIT milliseconds. Events
// are the allocations and the lock operations which a connection thread makes
// after it received something. VK_EVENTS.held is written when the first one has
// stopped, VK_EVENTS.events when it has answered.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static atomic_int connections, answered[2], stopped;
static __thread int number, inside;
static __thread long events;
static long hold = -1, hold2, first = 1, patience = 100;

__attribute__((constructor)) static void setup(void) {
    const char* h = getenv("VK_HOLD");
    const char* w = getenv("VK_WAIT");
    const char* h2 = getenv("VK_HOLD2");
    const char* n = getenv("VK_FIRST");
    if (h) hold = atol(h);
    if (h2) hold2 = atol(h2);
    if (n) first = atol(n);
    if (w) patience = atol(w);
}
static void tell(const char* suffix, long n) {
    const char* f = getenv("VK_EVENTS");
    char name[4096], text[32];
    if (!f) return;
    snprintf(name, sizeof name, "%s.%s", f, suffix);
    int fd = open(name, O_CREAT | O_WRONLY | O_TRUNC, 0644);
    int l = snprintf(text, sizeof text, "%ld", n);
    if (write(fd, text, l) < 0) return;
    close(fd);
}
static void event(void) {
    if (hold < 0 || inside || number < first || number > first + 1) return;
    int second = number - first;
    inside = 1;
    if (++events == (second ? hold2 : hold)) {
        struct timespec t = {0, 500000};
        if (second) stopped = 1;
        else tell("held", events);
        for (long i = 0; i < patience * 2; i++) {
            if (answered[!second] || (!second && stopped)) break;
            nanosleep(&t, 0);
        }
    }
    inside = 0;
}
static void received(ssize_t n) {
    if (n > 0 && number == 0) number = ++connections;
}
static void sent(ssize_t n) {
    if (n <= 0 || number < first || number > first + 1) return;
    inside++;
    if (number == first && !answered[0]) tell("events", events);
    inside--;
    answered[number - first] = 1;
}
#define NEXT(name) \
    if (!f) { inside++; f = dlsym(RTLD_NEXT, #name); inside--; }

void* malloc(size_t n) {
    static void* (*f)(size_t);
    NEXT(malloc)
    event();
    return f(n);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    static int (*f)(pthread_mutex_t*);
    NEXT(pthread_mutex_lock)
    event();
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static int (*f)(pthread_mutex_t*);
    NEXT(pthread_mutex_unlock)
    int r = f(m);
    event();
    return r;
}
ssize_t recv(int s, void* b, size_t n, int flags) {
    static ssize_t (*f)(int, void*, size_t, int);
    NEXT(recv)
    ssize_t r = f(s, b, n, flags);
    received(r);
    return r;
}
ssize_t send(int s, const void* b, size_t n, int flags) {
    static ssize_t (*f)(int, const void*, size_t, int);
    NEXT(send)
    ssize_t r = f(s, b, n, flags);
    sent(r);
    return r;
}
ssize_t sendmsg(int s, const struct msghdr* m, int flags) {
    static ssize_t (*f)(int, const struct msghdr*, int);
    NEXT(sendmsg)
    ssize_t r = f(s, m, flags);
    sent(r);
    return r;
}
