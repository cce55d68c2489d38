// C27: crawl requests reach the crawler exactly as they were sent, however
// their bodies are cut, and bad ones change nothing. The real program with the
// real HTTP library over the loopback network.
#include "vk.hpp"
#include "web.hpp"
#include "mhdpost.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <atomic>
#include <condition_variable>
#include <dlfcn.h>
#include <microhttpd.h>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <signal.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <thread>
using std::set;
using std::string;
using std::vector;
using vk::Case;

int crawlerd_main(int, char**);

// ---------------------------------------------------------------- the HTTP library, observed
typedef MHD_Result (*DH)(void*, MHD_Connection*, const char*, const char*, const char*, const char*, size_t*, void**);
typedef MHD_Result (*PI)(void*, MHD_ValueKind, const char*, const char*, const char*, const char*, const char*, uint64_t, size_t);
static DH gHandler;
static void* gHandlerCls;
static MHD_RequestCompletedCallback gDone;
static void* gDoneCls;
static std::atomic<uint64_t> gHeads, gBytes, gEnds, gPieces, gPosts;
static std::atomic<bool> gStarted, gFailed;
static std::mutex gMismatchLock;
static string gMismatch;
static MHD_Result watch(void* cls, MHD_Connection* c, const char* url, const char* method, const char* version, const char* data,
                        size_t* n, void** ptr) {
    bool first = *ptr == nullptr;
    size_t before = *n;
    MHD_Result r = gHandler(cls, c, url, method, version, data, n, ptr);
    if (first) gHeads++;
    gBytes += before - *n;
    return r;
}
static void watchDone(void* cls, MHD_Connection* c, void** ptr, MHD_RequestTerminationCode t) {
    if (gDone) gDone(cls, c, ptr, t);
    gEnds++;
}
template <class F>
static F real(const char* name) {
    F f = (F)dlsym(RTLD_NEXT, name);
    if (!f) _exit(71);
    return f;
}
struct Post {
    MHD_PostProcessor* lib;
    mhdpost::Processor* model;
    PI it;
    void* cls;
    vector<string> got, want;
    bool stopped;
};
static string callText(const char* key, const char* data, uint64_t off, size_t n) {
    return vk::fmt("%s @%llu ", key, (unsigned long long)off) + string(data ? data : "", data ? n : 0);
}
static MHD_Result recordLib(void* cls, MHD_ValueKind k, const char* key, const char* fn, const char* ct, const char* te,
                            const char* data, uint64_t off, size_t n) {
    Post* p = (Post*)cls;
    p->got.push_back(callText(key, data, off, n));
    gPieces++;
    MHD_Result r = p->it(p->cls, k, key, fn, ct, te, data, off, n);
    if (r != MHD_YES) p->stopped = true;
    return r;
}
static int recordModel(void* cls, MHD_ValueKind, const char* key, const char*, const char*, const char*, const char* data, uint64_t off,
                       size_t n) {
    ((Post*)cls)->want.push_back(callText(key, data, off, n));
    return MHD_YES;
}
static std::atomic<bool> gCompare;
static void compareCalls(Post* p) {
    if (!gCompare || p->stopped) return;
    gPosts++;
    if (p->got == p->want) return;
    std::lock_guard<std::mutex> g(gMismatchLock);
    gMismatch = "the library hands out";
    for (auto& x : p->got) gMismatch += " [" + x + "]";
    gMismatch += ", the model";
    for (auto& x : p->want) gMismatch += " [" + x + "]";
}
extern "C" {
MHD_PostProcessor* MHD_create_post_processor(MHD_Connection* c, size_t size, MHD_PostDataIterator it, void* cls) {
    static auto f = real<MHD_PostProcessor* (*)(MHD_Connection*, size_t, PI, void*)>("MHD_create_post_processor");
    Post* p = new Post();
    p->it = (PI)it;
    p->cls = cls;
    p->stopped = false;
    p->lib = f(c, size, recordLib, p);
    if (!p->lib) {
        delete p;
        return nullptr;
    }
    p->model = mhdpost::create(recordModel, p);
    return (MHD_PostProcessor*)p;
}
MHD_Result MHD_post_process(MHD_PostProcessor* pp, const char* d, size_t n) {
    static auto f = real<MHD_Result (*)(MHD_PostProcessor*, const char*, size_t)>("MHD_post_process");
    Post* p = (Post*)pp;
    MHD_Result r = f(p->lib, d, n);
    if (gCompare && !p->stopped) {
        mhdpost::process(p->model, d, n);
        compareCalls(p);
    }
    return r;
}
MHD_Result MHD_destroy_post_processor(MHD_PostProcessor* pp) {
    static auto f = real<MHD_Result (*)(MHD_PostProcessor*)>("MHD_destroy_post_processor");
    Post* p = (Post*)pp;
    if (!p) return MHD_YES;
    MHD_Result r = f(p->lib);
    mhdpost::destroy(p->model);
    compareCalls(p);
    delete p;
    return r;
}
MHD_Daemon* MHD_start_daemon(unsigned flags, uint16_t port, MHD_AcceptPolicyCallback apc, void* apcCls, MHD_AccessHandlerCallback dh,
                             void* cls, ...) {
    gHandler = (DH)dh;
    gHandlerCls = cls;
    unsigned limit = 0;
    va_list ap;
    va_start(ap, cls);
    for (bool more = true; more;) {
        switch (va_arg(ap, int)) {
        case MHD_OPTION_NOTIFY_COMPLETED:
            gDone = va_arg(ap, MHD_RequestCompletedCallback);
            gDoneCls = va_arg(ap, void*);
            break;
        case MHD_OPTION_CONNECTION_LIMIT: limit = va_arg(ap, unsigned); break;
        case MHD_OPTION_CONNECTION_TIMEOUT:
        case MHD_OPTION_PER_IP_CONNECTION_LIMIT:
        case MHD_OPTION_THREAD_POOL_SIZE:
        case MHD_OPTION_LISTENING_ADDRESS_REUSE: (void)va_arg(ap, unsigned); break;
        case MHD_OPTION_CONNECTION_MEMORY_LIMIT:
        case MHD_OPTION_CONNECTION_MEMORY_INCREMENT:
        case MHD_OPTION_THREAD_STACK_SIZE: (void)va_arg(ap, size_t); break;
        default: more = false;
        }
    }
    va_end(ap);
    typedef MHD_Daemon* (*Start)(unsigned, uint16_t, MHD_AcceptPolicyCallback, void*, DH, void*, ...);
    static Start f = real<Start>("MHD_start_daemon");
    MHD_Daemon* d = limit ? f(flags, port, apc, apcCls, watch, cls, MHD_OPTION_CONNECTION_LIMIT, limit, MHD_OPTION_NOTIFY_COMPLETED, watchDone, gDoneCls, MHD_OPTION_END)
                          : f(flags, port, apc, apcCls, watch, cls, MHD_OPTION_NOTIFY_COMPLETED, watchDone, gDoneCls, MHD_OPTION_END);
    if (d) gStarted = true;
    else gFailed = true;
    return d;
}

// ---------------------------------------------------------------- signals, sleep and the end
static bool inside = false;
int __real_sigaction(int, const struct sigaction*, struct sigaction*);
int __real_sigprocmask(int, const sigset_t*, sigset_t*);
int __real_sigsuspend(const sigset_t*);
void __real_exit(int) __attribute__((noreturn));
unsigned __real_sleep(unsigned);
int __wrap_sigaction(int s, const struct sigaction* n, struct sigaction* o) { return inside ? 0 : __real_sigaction(s, n, o); }
int __wrap_sigprocmask(int h, const sigset_t* n, sigset_t* o) { return inside ? 0 : __real_sigprocmask(h, n, o); }
int __wrap_sigsuspend(const sigset_t* m) {
    if (!inside) return __real_sigsuspend(m);
    for (;;) pause();
}
void __wrap_exit(int rc) {
    if (!inside) __real_exit(rc);
    gFailed = true;
    for (;;) pause();
}
}
static std::mutex gSleepLock;
static std::condition_variable gSleepCond;
static uint64_t gSleeps, gPokes;
// the page of requests, if it is not the one installed
static bool gOtherPage = false;
static string gPage;  // the file, if there is one
extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" FILE* __wrap_fopen(const char* path, const char* mode) {
    const string p = path, name = "GetResponse.html";
    if (gOtherPage && p.size() >= name.size() && p.compare(p.size() - name.size(), name.size(), name) == 0) {
        if (gPage.empty()) {
            errno = ENOENT;
            return nullptr;
        }
        path = gPage.c_str();
    }
    return __real_fopen(path, mode);
}
extern "C" unsigned __wrap_sleep(unsigned n) {
    if (!inside) return __real_sleep(n);
    std::unique_lock<std::mutex> l(gSleepLock);
    uint64_t p = gPokes;
    gSleeps++;
    gSleepCond.notify_all();
    gSleepCond.wait(l, [&] { return gPokes != p; });
    return 0;
}
static std::mutex gLogLock;
static vector<string> gLog;
static void fetched(const string& u) {
    std::lock_guard<std::mutex> l(gLogLock);
    gLog.push_back(u);
}
// waits until the crawler has nothing left to do
static void settle() {
    std::unique_lock<std::mutex> l(gSleepLock);
    uint64_t s = gSleeps;
    gPokes++;
    gSleepCond.notify_all();
    size_t last = 0;
    for (int quiet = 0; quiet < 40;) {
        if (gSleepCond.wait_for(l, std::chrono::milliseconds(300), [&] { return gSleeps > s; })) return;
        std::lock_guard<std::mutex> g(gLogLock);
        if (gLog.size() == last) quiet++;
        else quiet = 0, last = gLog.size();
    }
}
static int gPort;
static bool startProgram() {
    static bool done = false;
    if (done) return !gFailed;
    done = true;
    // a port outside of the range which connections get
    for (unsigned n = 0; gPort == 0; n++) {
        if (n == 2000) return false;
        int port = 10000 + (getpid() * 131 + n * 7) % 20000;
        int s = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        if (bind(s, (sockaddr*)&a, sizeof a) == 0) gPort = port;
        close(s);
    }
    web::state().onFetch = fetched;
    inside = true;
    std::thread([] {
        static string port = std::to_string(gPort);
        static const char* args[] = {"crawlerd", "-p", port.c_str(), "-d", "there/is/no/such/directory", nullptr};
        crawlerd_main(5, (char**)args);
    }).detach();
    for (int i = 0; i < 10000 && !gStarted && !gFailed; i++) usleep(1000);
    if (gFailed || !gStarted) return false;
    // the crawler looks at its queue for the first time
    std::unique_lock<std::mutex> l(gSleepLock);
    gSleepCond.wait_for(l, std::chrono::seconds(2), [] { return gSleeps > 0; });
    return true;
}

// ---------------------------------------------------------------- clients
struct Client {
    int fd;
    Client() {
        fd = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        a.sin_port = htons(gPort);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (connect(fd, (sockaddr*)&a, sizeof a) != 0) {
            close(fd);
            fd = -1;
            return;
        }
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    }
    ~Client() { end(); }
    void end() {
        if (fd >= 0) close(fd);
        fd = -1;
    }
    static bool until(std::atomic<uint64_t>& c, uint64_t n) {
        for (int i = 0; i < 300000; i++) {
            if (c >= n) return true;
            if (i < 2000) sched_yield();
            else usleep(100);
        }
        return false;
    }
    bool raw(const string& s) {
        for (size_t p = 0; p < s.size();) {
            ssize_t k = write(fd, s.data() + p, s.size() - p);
            if (k <= 0) return false;
            p += k;
        }
        return true;
    }
    // the head is seen before the body is sent
    bool head(const string& method, size_t n, const string& type = "application/x-www-form-urlencoded") {
        uint64_t h = gHeads + 1;
        return raw(method + " / HTTP/1.1\r\nHost: x\r\nConnection: close\r\n" + (n ? "Content-Type: " + type + vk::fmt("\r\nContent-Length: %zu\r\n", n) : "") + "\r\n") && until(gHeads, h);
    }
    bool piece(const string& s) {
        uint64_t b = gBytes + s.size();
        return raw(s) && until(gBytes, b);
    }
    // the body of the answer; "-" if there is none
    string answer() {
        string got;
        char b[4096];
        for (;;) {
            pollfd p = {fd, POLLIN, 0};
            if (poll(&p, 1, 30000) <= 0) return "-timeout";
            ssize_t k = read(fd, b, sizeof b);
            if (k <= 0) break;
            got.append(b, k);
        }
        size_t e = got.find("\r\n\r\n");
        if (e == string::npos) return "-";
        return got.substr(e + 4);
    }
};
static string gAccept, gRefuse;
static string encode(const string& s) {
    string o;
    for (unsigned char c : s) o += isalnum(c) ? string(1, c) : vk::fmt("%%%02X", c);
    return o;
}
typedef vector<std::pair<string, string>> Fields;
static string bodyOf(const Fields& f) {
    string o;
    for (auto& x : f) o += (o.empty() ? "" : "&") + x.first + "=" + encode(x.second);
    return o;
}
// sends a request in pieces and waits until it is over
static string send(const string& method, const vector<string>& pieces, const string& type = "application/x-www-form-urlencoded") {
    Client k;
    size_t n = 0;
    for (auto& p : pieces) n += p.size();
    uint64_t e = gEnds + 1;
    if (k.fd < 0 || !k.head(method, n, type)) return "-head";
    for (auto& p : pieces)
        if (!p.empty() && !k.piece(p)) return "-piece";
    string a = k.answer();
    Client::until(gEnds, e);
    return a;
}
static vector<string> takeLog() {
    settle();
    std::lock_guard<std::mutex> l(gLogLock);
    vector<string> v;
    v.swap(gLog);
    return v;
}
static const string SITE = "http://h.test";
static const string LONG100 = "http://h.test/" + string(86, 'l');  // 100 characters
static const string PATH100 = "/" + string(99, 'm');
static vector<string> gLinks;
static void site() {
    web::state().clear();
    gLinks = {"/a1", "/a2", "/a3", PATH100, PATH100 + "x"};
    for (auto host : {"http://h.test/p0", "http://h.test/q0", "http://g.test/p0"}) {
        string b;
        for (auto& l : gLinks) b += "<a href=\"" + l + "\">x</a>";
        web::put(host, b, "text/plain");
    }
    string b;
    for (auto& l : gLinks) b += "<a href=\"" + l + "\">x</a>";
    web::put(LONG100, b, "text/plain");
}
static string hostOf(const string& u) { return u.substr(0, u.find('/', 7)); }
static string names(const vector<string>& v) {
    string o;
    for (auto& x : v) o += (o.empty() ? "" : " ") + x;
    return o.empty() ? "nothing" : o;
}
// one crawl in the log from at: of start with this limit and these exclusions; returns what is wrong
static string crawlIs(const vector<string>& log, size_t& at, const string& start, long count, const vector<string>& excl, size_t more) {
    if (start.compare(0, 7, "http://") != 0) return "";  // nothing can be requested
    if (at >= log.size() || log[at] != hostOf(start) + "/robots.txt") return "there is no crawl of " + start;
    set<string> allowed = {start};
    for (auto& l : gLinks) {
        bool no = false;
        for (auto& e : excl) no |= l.compare(0, e.size(), e) == 0;
        if (!no && hostOf(start) + l != start) allowed.insert(hostOf(start) + l);
    }
    size_t n = allowed.size();
    n += more;  // pages of a larger graph
    if (count > 0 && (size_t)count < n) n = count;
    at++;
    set<string> got;
    for (size_t i = 0; i < n; i++, at++) {
        if (at >= log.size()) return "pages are missing";
        if (i == 0 && log[at] != start) return log[at] + " is requested first";
        if (!allowed.count(log[at])) return log[at] + " is requested";
        if (!got.insert(log[at]).second) return log[at] + " is requested twice";
    }
    return "";
}
static bool prepare(Case& c) {
    if (!startProgram()) {
        c.fail("crawlerd does not start");
        return false;
    }
    site();
    if (gAccept.empty()) {
        string a = send("POST", {"urlstart=" + encode(SITE + "/p0")}), b = send("POST", {"count=1"});
        takeLog();
        if (a[0] == '-' || b[0] == '-' || a == b) {
            c.fail("a request with a start URL is answered %s, one without %s", a.c_str(), b.c_str());
            return false;
        }
        gAccept = a;
        gRefuse = b;
    }
    return true;
}
static void modelAgrees(Case& c) {
    std::lock_guard<std::mutex> g(gMismatchLock);
    if (!gMismatch.empty()) {
        string m;
        m.swap(gMismatch);
        c.fail("the model of the post processor is wrong: " + m);
    }
}
static vector<string> cuts(const string& s, vector<size_t> at) {
    vector<string> o;
    size_t p = 0;
    for (size_t a : at) {
        a = std::min(std::max(a, p), s.size());
        o.push_back(s.substr(p, a - p));
        p = a;
    }
    o.push_back(s.substr(p));
    return o;
}

// The outcomes a list of fields may have: repeated fields, and values that are
// too long, are read in more than one way
struct Wish {
    bool refuse = false;
    vector<string> starts;
    vector<long> counts;  // 0: no limit
    vector<string> excl, maybe;
};
static Wish wish(const Fields& f) {
    Wish w;
    bool start = false;
    for (auto& x : f) {
        size_t n = x.second.size();
        if (x.first == "urlstart") {
            start = true;
            if (n == 0 || n > 100) w.refuse = true;
            else w.starts.push_back(x.second);
        } else if (x.first == "count") {
            w.counts.push_back(n <= 100 ? std::max(0, atoi(x.second.c_str())) : 0);
        } else if (x.first == "dontcrawl") {
            if (n == 0) continue;
            if (n > 100 || w.excl.size() == 128) {
                w.maybe.push_back(x.second);
                w.refuse = true;
            } else
                w.excl.push_back(x.second);
        }
    }
    if (!start) w.refuse = true;
    if (w.counts.empty()) w.counts.push_back(0);
    else if (w.counts.size() > 1) w.counts.push_back(0);
    return w;
}
static void judge(Case& c, const Fields& f, const string& answer, const vector<string>& log) {
    Wish w = wish(f);
    c.state(vk::fnv(answer + names(log)));
    if (answer != gAccept && answer != gRefuse) return c.fail("answered with %s", vk::jstr(answer).c_str());
    if (answer == gRefuse) {
        if (!log.empty()) return c.fail("the request is refused, but %s requested", names(log).c_str());
        if (!w.refuse) c.fail("the request is refused");
        return;
    }
    if (w.starts.empty()) return c.fail("the request is accepted, and %s requested", names(log).c_str());
    string why;
    for (auto& s : w.starts)
        for (long n : w.counts)
            for (size_t m = 0; m <= w.maybe.size(); m++) {
                vector<string> e = w.excl;
                e.insert(e.end(), w.maybe.begin(), w.maybe.begin() + m);
                size_t at = 0;
                why = crawlIs(log, at, s, n, e, 0);
                if (why.empty() && at < log.size()) why = log[at] + " is requested";
                if (why.empty()) return;
            }
    c.fail(why + ", requested are: " + names(log));
}

int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    vk::Run run(argc, argv, "C27", "model_checking");
    run.rule = "state = (answer, pages requested); transition = one piece of a field value handed out by the real HTTP library; trace = one body on which the model of the post processor was compared with the real one, call by call";
    run.declare({"requests", "pieces of values", "bodies compared with the model"});
    run.transitionsCounter = "pieces of values";
    run.tracesCounter = "bodies compared with the model";
    run.caseTimeout = 150;
    bool th = run.thorough;
    auto one = [&](Case& c, const Fields& f, const vector<string>& pieces) {
        gPieces = gPosts = 0;
        gCompare = true;
        string a = send("POST", pieces);
        if (a[0] == '-') return c.fail("no answer: %s", a.c_str());
        auto log = takeLog();
        gCompare = false;
        c.add("requests");
        c.add("pieces of values", gPieces);
        c.add("bodies compared with the model", gPosts);
        judge(c, f, a, log);
        modelAgrees(c);
    };
    // every size of the page of requests, and none
    {
        vector<int> sizes = {-1, 0, 1, 2, 100, 2048, 4000};
        for (int n = 4080; n <= 4110; n++) sizes.push_back(n);
        sizes.push_back(5000);
        sizes.push_back(70000);
        run.forall("pages", sizes.size(), [&](Case& c) {
            int n = sizes[c.index];
            c.desc(n < 0 ? string("no page of requests") : vk::fmt("a page of requests of %d bytes", n));
            string page, report = c.scratch + "/report";
            for (int i = 0; i < n; i++) page += vk::fmt("%d", i)[0];
            vk::writeFile(c.scratch + "/page", page);
            unlink(report.c_str());
            pid_t p = fork();
            if (p == 0) {
                gOtherPage = true;
                if (n >= 0) gPage = c.scratch + "/page";
                if (!startProgram()) _exit(3);
                site();
                string a = send("GET", {}), b = send("POST", {"urlstart=" + encode(SITE + "/p0")}), l = names(takeLog());
                vk::writeFile(report, a + "\n" + b + "\n" + l);
                _exit(0);
            }
            int st = 0;
            for (int i = 0; i < 6000 && waitpid(p, &st, WNOHANG) == 0; i++) {
                usleep(10000);
                c.beat();
                if (i == 5999) {
                    kill(p, SIGKILL);
                    waitpid(p, &st, 0);
                }
            }
            c.add("requests", 2);
            if (!WIFEXITED(st)) return c.fail("crawlerd ends with signal %d", WTERMSIG(st));
            if (WEXITSTATUS(st) != 0) return c.fail("crawlerd ends with %d", WEXITSTATUS(st));
            string r = vk::readFile(report);
            string got = r.substr(0, r.find('\n'));
            c.state(vk::fnv(r));
            bool fine = got == page || (n > 4000 && got.size() > 4000 && page.compare(0, got.size(), got) == 0);
            if (!fine) return c.fail("the page is answered %s", vk::jstr(got).substr(0, 300).c_str());
            if (r.find(SITE + "/p0") == string::npos) c.fail("the request is not carried out: %s", vk::jstr(r.substr(got.size())).c_str());
        }, 1);
    }
    // every way to cut a body
    {
        vector<Fields> F = {
            {{"urlstart", SITE + "/p0"}, {"count", "2"}, {"dontcrawl", "/a1"}},
            {{"dontcrawl", "/a1"}, {"dontcrawl", "/a2"}, {"count", "12"}, {"urlstart", SITE + "/p0"}},
            {{"count", "3"}, {"dontcrawl", ""}, {"urlstart", LONG100}, {"dontcrawl", "/a3"}},
            {{"urlstart", LONG100 + "x"}, {"dontcrawl", "/a3"}},
            {{"urlstart", SITE + "/p0"}, {"dontcrawl", PATH100}, {"other", "value"}},
            {{"urlstart", SITE + "/p0"}, {"dontcrawl", "/a2"}, {"dontcrawl", PATH100 + "x"}, {"dontcrawl", "/a1"}},
        };
        struct I {
            size_t f, a, b, e;
        };
        vector<I> items;
        for (size_t f = 0; f < F.size(); f++) {
            size_t n = bodyOf(F[f]).size();
            for (size_t a = 0; a <= n; a++)
                for (size_t b = a; b <= n; b++) {
                    items.push_back({f, a, b, n});
                    if (th && f == 0)
                        for (size_t e = b + 1; e < n; e++) items.push_back({f, a, b, e});
                }
        }
        run.forall("cut bodies", items.size(), [&](Case& c) {
            auto& i = items[c.index];
            string body = bodyOf(F[i.f]);
            c.desc(vk::fmt("body %s cut at %zu, %zu and %zu", body.c_str(), i.a, i.b, i.e));
            if (!prepare(c)) return;
            one(c, F[i.f], cuts(body, {i.a, i.b, i.e}));
        }, 32);
        run.forall("single bytes", F.size(), [&](Case& c) {
            string body = bodyOf(F[c.index]);
            c.desc("byte by byte: " + body);
            if (!prepare(c)) return;
            vector<string> p;
            for (char x : body) p.push_back(string(1, x));
            one(c, F[c.index], p);
        }, 1);
    }
    // every list of fields
    {
        Fields A = {{"urlstart", SITE + "/p0"}, {"urlstart", ""}, {"urlstart", "no address"}, {"urlstart", LONG100}, {"urlstart", LONG100 + "x"}, {"urlstart", "http://g.test/p0"}, {"count", "1"}, {"count", "3"}, {"count", "0"}, {"count", "many"}, {"count", "-2"}, {"count", string(120, '1')}, {"dontcrawl", "/a1"}, {"dontcrawl", "/a"}, {"dontcrawl", ""}, {"dontcrawl", PATH100}, {"dontcrawl", PATH100 + "x"}, {"other", "1"}};
        unsigned len = th ? 4 : 3;
        run.forall("fields", vk::countSequences(A.size(), len) * 2, [&, len](Case& c) {
            Fields f;
            for (auto i : vk::sequence(c.index / 2, A.size(), len)) f.push_back(A[i]);
            string body = bodyOf(f);
            c.desc("body " + body + (c.index % 2 ? ", in two pieces" : ""));
            if (!prepare(c)) return;
            if (body.empty()) body = "x=1";
            one(c, f, cuts(body, {c.index % 2 ? body.size() * 2 / 3 : 0}));
        }, 32);
    }
    // counts around the sizes of integers
    {
        vector<string> v;
        for (unsigned bits : {7u, 8u, 15u, 16u, 24u, 31u})
            for (int d = -1; d <= 2; d++) {
                long long n = (1ll << bits) + d;
                if (n <= 2147483647) v.push_back(vk::fmt("%lld", n)), v.push_back(vk::fmt("-%lld", n));
            }
        for (auto x : {"65538", "131073", "16777218", "2147483647", "1000000000", "00000000000000000002", "+2", " 2", "2 ", "2x", "2.9", "1e3", "0x2", "--2", "2&"}) v.push_back(x);
        run.forall("counts", v.size() * 2, [&](Case& c) {
            Fields f = {{"urlstart", SITE + "/p0"}, {"count", v[c.index / 2]}, {"dontcrawl", "/a1"}};
            c.desc("count " + vk::jstr(v[c.index / 2]) + (c.index % 2 ? ", in pieces" : ""));
            if (!prepare(c)) return;
            string body = bodyOf(f);
            vector<size_t> at;
            if (c.index % 2)
                for (size_t i = 0; i < body.size(); i += 7) at.push_back(i);
            one(c, f, cuts(body, at));
        }, 4);
    }
    // every number of excluded links around the limit
    run.forall("many exclusions", 140 * 2, [&](Case& c) {
        unsigned n = c.index / 2;
        Fields f = {{"urlstart", SITE + "/p0"}};
        for (unsigned i = 0; i < n; i++) f.push_back({"dontcrawl", i + 1 == n ? "/a1" : i == 126 ? "/a2" : vk::fmt("/no%u", i)});
        c.desc(vk::fmt("%u excluded links%s", n, c.index % 2 ? ", in pieces" : ""));
        if (!prepare(c)) return;
        string body = bodyOf(f);
        vector<size_t> at;
        if (c.index % 2)
            for (size_t i = 0; i < body.size(); i += 37) at.push_back(i);
        one(c, f, cuts(body, at));
    }, 8);
    // a connection that ends after every number of bytes
    {
        Fields f = {{"urlstart", SITE + "/p0"}, {"count", "2"}, {"dontcrawl", "/a1"}};
        string body = bodyOf(f);
        run.forall("cut connections", (body.size() + 1) * 2, [&](Case& c) {
            size_t n = c.index / 2;
            bool half = c.index % 2;
            c.desc(vk::fmt("%zu of %zu bytes are sent%s", n, body.size(), half ? ", in two pieces" : ""));
            if (!prepare(c)) return;
            string a;
            uint64_t e = gEnds + 1;
            {
                Client k;
                if (k.fd < 0 || !k.head("POST", body.size() + (n == body.size()))) return c.fail("no connection");
                for (auto& p : cuts(body.substr(0, n), {half ? n / 2 : 0}))
                    if (!p.empty()) k.piece(p);
            }
            if (!Client::until(gEnds, e)) return c.fail("the request does not end");
            auto log = takeLog();
            c.add("requests", 2);
            if (!log.empty()) return c.fail("a request that was cut leads to the request of " + names(log));
            one(c, {{"urlstart", SITE + "/q0"}}, {"urlstart=" + encode(SITE + "/q0")});
        }, 8);
    }
    // every merge of the pieces of two requests
    {
        vector<Fields> F = {{{"urlstart", SITE + "/p0"}, {"count", "2"}, {"dontcrawl", "/a1"}}, {{"dontcrawl", "/a2"}, {"urlstart", "http://g.test/p0"}}, {{"count", "1"}}, {{"count", "4"}, {"urlstart", SITE + "/q0"}, {"dontcrawl", "/a3"}, {"dontcrawl", "/a1"}}};
        vector<unsigned> merges;
        for (unsigned m = 0; m < 256; m++)
            if (__builtin_popcount(m) == 4) merges.push_back(m);
        run.forall("two connections", F.size() * F.size() * merges.size(), [&](Case& c) {
            vk::Digits d(c.index);
            const Fields* f[2] = {&F[d.next(F.size())], &F[d.next(F.size())]};
            unsigned m = merges[d.next(merges.size())];
            c.desc(vk::fmt("bodies %s and %s, merge %u", bodyOf(*f[0]).c_str(), bodyOf(*f[1]).c_str(), m));
            if (!prepare(c)) return;
            uint64_t ends = gEnds;
            Client k[2];
            vector<string> p[2];
            size_t next[2] = {0, 0};
            vector<int> order;
            string a[2];
            for (int i = 0; i < 2; i++) {
                string b = bodyOf(*f[i]);
                p[i] = cuts(b, {b.size() / 3, b.size() * 2 / 3});
            }
            for (int s = 0; s < 8; s++) {
                int i = m >> s & 1;
                size_t n = next[i]++;
                bool ok = n == 0 ? k[i].head("POST", p[i][0].size() + p[i][1].size() + p[i][2].size()) : k[i].piece(p[i][n - 1]);
                if (!ok) return c.fail("a piece is not taken");
                if (n == 3) {
                    a[i] = k[i].answer();
                    if (a[i] == gAccept) order.push_back(i);
                    if (!Client::until(gEnds, ++ends)) return c.fail("a request does not end");
                }
            }
            auto log = takeLog();
            c.add("requests", 2);
            size_t at = 0;
            string why;
            for (int i = 0; i < 2; i++)
                if (a[i] != (wish(*f[i]).starts.empty() ? gRefuse : gAccept)) return c.fail("request %d is answered %s", i, a[i].c_str());
            for (int i : order) {
                Wish w = wish(*f[i]);
                why = crawlIs(log, at, w.starts[0], w.counts[0], w.excl, 0);
                if (!why.empty()) return c.fail(why + ", requested are: " + names(log));
            }
            if (at < log.size()) c.fail(log[at] + " is requested");
        }, 16);
    }
    // every sequence of requests
    {
        unsigned K = 6, len = th ? 4 : 3;
        run.forall("sequences", vk::countSequences(K, len), [&, K, len](Case& c) {
            auto seq = vk::sequence(c.index, K, len);
            string d;
            for (auto i : seq) d += vk::fmt(" %u", i);
            c.desc("requests" + d);
            if (!prepare(c)) return;
            vector<Fields> done;
            string b = "--BxB\r\nContent-Disposition: form-data; name=\"urlstart\"\r\n\r\nhttp://g.test/p0\r\n--BxB\r\nContent-Disposition: form-data; name=\"dontcrawl\"\r\n\r\n/a2\r\n--BxB--\r\n";
            for (auto i : seq) {
                Fields f;
                string a;
                switch (i) {
                case 0: f = {{"urlstart", SITE + "/p0"}, {"count", "2"}}; break;
                case 1: f = {{"dontcrawl", "/a1"}, {"urlstart", SITE + "/q0"}}; break;
                case 2: f = {{"dontcrawl", "/a1"}, {"count", "1"}}; break;
                case 3:
                    a = send("GET", {});
                    if (a == gAccept || a.find("urlstart") == string::npos) return c.fail("the page of requests is %s", a.c_str());
                    break;
                case 4:
                    a = send("POST", cuts(b, {b.size() / 2}), "multipart/form-data; boundary=BxB");
                    if (a != gAccept) return c.fail("a form in parts is answered %s", a.c_str());
                    done.push_back({{"urlstart", "http://g.test/p0"}, {"dontcrawl", "/a2"}});
                    break;
                case 5:
                    a = send("PUT", {});
                    if (a == gAccept) return c.fail("another method is accepted");
                    break;
                }
                c.add("requests");
                if (!f.empty()) {
                    string body = bodyOf(f);
                    a = send("POST", cuts(body, {body.size() / 2}));
                    if (a != (i < 2 ? gAccept : gRefuse)) return c.fail("request %u is answered %s", i, a.c_str());
                    if (i < 2) done.push_back(f);
                }
            }
            auto log = takeLog();
            c.state(vk::fnv(names(log)));
            size_t at = 0;
            for (auto& f : done) {
                Wish w = wish(f);
                string why = crawlIs(log, at, w.starts[0], w.counts[0], w.excl, 0);
                if (!why.empty()) return c.fail(why + ", requested are: " + names(log));
            }
            if (at < log.size()) c.fail(log[at] + " is requested");
        }, 8);
    }
    run.assumptions.push_back("the HTTP library of this system; pages come from a web in memory behind the interface of libcurl");
    return run.finish();
}
