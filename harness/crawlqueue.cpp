// C16: crawl requests are handed to the crawler exactly once and in order, for
// every interleaving of the network thread, the crawling thread and shutdown.
#include "mhdsched.hpp"
#include "mhdpost.hpp"
#include "web.hpp"
#include <algorithm>
#include <pthread.h>
#include <set>
#include <signal.h>
using std::set;
using std::string;
using std::vector;
using vk::Case;

int crawlerd_main(int, char**);
extern "C" {
MHD_PostProcessor* MHD_create_post_processor(MHD_Connection*, size_t, MHD_PostDataIterator it, void* cls) {
    return (MHD_PostProcessor*)mhdpost::create((mhdpost::Iterator)it, cls);
}
MHD_Result MHD_post_process(MHD_PostProcessor* p, const char* d, size_t n) {
    return mhdpost::process((mhdpost::Processor*)p, d, n) ? MHD_YES : MHD_NO;
}
MHD_Result MHD_destroy_post_processor(MHD_PostProcessor* p) {
    mhdpost::destroy((mhdpost::Processor*)p);
    return MHD_YES;
}
}

// ---------------------------------------------------------------- signals and the end
static bool inside = false;
static struct sigaction handlers[65];
static int pending = 0;
extern "C" {
int __real_sigaction(int, const struct sigaction*, struct sigaction*);
int __real_sigprocmask(int, const sigset_t*, sigset_t*);
int __real_sigsuspend(const sigset_t*);
void __real_exit(int) __attribute__((noreturn));
int __wrap_sigaction(int s, const struct sigaction* n, struct sigaction* o) {
    if (!inside) return __real_sigaction(s, n, o);
    if (o) *o = handlers[s];
    if (n) handlers[s] = *n;
    return 0;
}
int __wrap_sigprocmask(int h, const sigset_t* n, sigset_t* o) {
    return inside ? 0 : __real_sigprocmask(h, n, o);
}
int __wrap_sigsuspend(const sigset_t* m) {
    if (!inside) return __real_sigsuspend(m);
    schedrt_daemon();
    schedrt_wait(&pending);
    handlers[SIGTERM].sa_handler(SIGTERM);
    errno = EINTR;
    return -1;
}
void __wrap_exit(int rc) {
    if (!inside) __real_exit(rc);
    sched::observe("exit\n");
    schedrt_end(S_DONE);
    abort();
}
}

// ---------------------------------------------------------------- what the clients send
struct Req {
    int count = 0;         // 0: not sent
    bool exclude = false;  // the page p1
    bool same = false;     // for the same start page as the request before
    int cut = 0;           // 0: in one piece, 1: in two, 2: the connection ends after the first, 3: without start URL, 4: GET
};
static int number(const vector<Req>& rs, int i) { return i > 0 && rs[i].same ? number(rs, i - 1) : i; }
static string host(int i) { return vk::fmt("http://h%d.test", i); }
static string show(const vector<Req>& rs) {
    string o;
    for (auto& r : rs) o += vk::fmt(" [%scount %d%s%s]", r.same ? "same start, " : "", r.count, r.exclude ? ", p1 excluded" : "", r.cut == 0 ? "" : r.cut == 1 ? ", in two pieces" : r.cut == 2 ? ", cut" : r.cut == 3 ? ", no start" : ", GET");
    return o;
}
static bool good(const Req& r) { return r.cut < 2; }
static set<string> pagesOf(int i, const Req& r) {
    vector<string> v = {"/p0"};
    if (!r.exclude) v.push_back("/p1");
    v.push_back("/p2");
    if (r.count && (size_t)r.count < v.size()) v.resize(r.count);
    set<string> s = {host(i) + "/robots.txt"};
    for (auto& x : v) s.insert(host(i) + x);
    return s;
}
static vector<Req> gReqs;
static pthread_t network, shutdown_;
static bool hasShutdown = false;
static pthread_mutex_t stopLock = PTHREAD_MUTEX_INITIALIZER;
static bool stopping = false;
static void* deliverAll(void*) {
    for (size_t i = 0; i < gReqs.size(); i++) {
        pthread_mutex_lock(&stopLock);
        bool s = stopping;
        pthread_mutex_unlock(&stopLock);
        if (s) break;
        const Req& r = gReqs[i];
        string body;
        if (r.cut != 3) body = vk::fmt("urlstart=http%%3A%%2F%%2Fh%d.test%%2Fp0", number(gReqs, i));
        if (r.count) body += vk::fmt("%scount=%d", body.empty() ? "" : "&", r.count);
        if (r.exclude) body += string(body.empty() ? "" : "&") + "dontcrawl=%2Fp1";
        vector<string> pieces = {body};
        if (r.cut == 1 || r.cut == 2) {
            size_t at = std::min(body.size() - 1, (size_t)33);
            pieces = {body.substr(0, at), body.substr(at)};
        }
        if (r.cut == 4) pieces.clear();
        string a = mhd::deliver(r.cut == 4 ? "GET" : "POST", "/", pieces, r.cut == 2 ? 2 : -1);
        sched::observe(vk::fmt("answered %zu %s\n", i, r.cut == 4 ? "page" : a.find("We sent") != string::npos ? "accepted" : "refused"));
    }
    return nullptr;
}
static void* sendSignal(void*) {
    schedrt_point('q');
    schedrt_set(&pending);
    sched::observe("signal\n");
    return nullptr;
}
static void fetched(const string& u) { sched::observe("fetch " + u + "\n"); }

static string verdict(const vector<Req>& rs, const sched::Outcome& out, bool mayStop, bool noCrawler) {
    string e = sched::ending(out, !mayStop);
    if (!e.empty()) return e;
    vector<string> fetches;
    vector<int> accepted;
    bool exited = false;
    std::istringstream is(out.obs);
    for (string l; getline(is, l);) {
        std::istringstream ls(l);
        string w;
        ls >> w;
        if (w == "fetch") {
            ls >> w;
            fetches.push_back(w);
        } else if (w == "answered") {
            int i;
            ls >> i >> w;
            if (w == "accepted") {
                if (!good(rs[i])) return vk::fmt("request %d is accepted\n", i) + out.obs;
                accepted.push_back(i);
            } else if (good(rs[i]))
                return vk::fmt("request %d is refused\n", i) + out.obs;
        } else if (w == "exit")
            exited = true;
    }
    if (noCrawler) {
        if (!accepted.empty()) return "a request is accepted without a crawler\n" + out.obs;
        if (!fetches.empty()) return "pages are requested\n" + out.obs;
        return "";
    }
    if (exited) return "crawlerd gives up\n" + out.obs;
    size_t f = 0;
    // a request may reach the crawler before its client has the answer
    vector<int> order;
    for (size_t i = 0; i < rs.size(); i++)
        if (good(rs[i])) order.push_back(i);
    for (int i : order) {
        if (f == fetches.size()) {
            if (mayStop) break;
            return vk::fmt("request %d is not handed to the crawler\n", i) + out.obs;
        }
        int h = number(rs, i);
        auto want = pagesOf(h, rs[i]);
        size_t n = std::min(want.size(), fetches.size() - f);
        set<string> got(fetches.begin() + f, fetches.begin() + f + n);
        if (fetches[f] != host(h) + "/robots.txt") return "the crawl of request " + vk::fmt("%d", i) + " is expected, not " + fetches[f] + "\n" + out.obs;
        if (got.size() != n) return "a page is requested twice\n" + out.obs;
        for (auto& g : got)
            if (!want.count(g)) return g + " is not a page of request " + vk::fmt("%d", i) + "\n" + out.obs;
        if (n < want.size() && !mayStop) return vk::fmt("request %d is not crawled completely\n", i) + out.obs;
        f += n;
        if (n < want.size()) break;
    }
    if (f < fetches.size()) return fetches[f] + " is requested once more\n" + out.obs;
    if (!mayStop && accepted.size() != order.size()) return "an answer is missing\n" + out.obs;
    return "";
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C16", "model_checking");
    run.declare({"schedules", "steps", "accesses", "switches"});
    run.transitionsCounter = "steps";
    run.tracesCounter = "schedules";
    run.caseTimeout = 200;
    run.rule = "state = (requests, observed history of answers and page requests); transition = one scheduling step of the real "
               "daemon and crawler; trace = one complete schedule";
    run.assumptions = {
        "The HTTP library is replaced by one that delivers the requests one after the other in a thread of its own, as "
        "MHD_USE_SELECT_INTERNALLY does, with a model of its post processor that C27 compares with the real one.",
        "Pages come from a web in memory behind the interface of libcurl. sleep ends when another thread has made progress. "
        "The signal is delivered to the main thread while it waits for it.",
        "Every schedule is checked for unordered conflicting accesses of the repository's code, so interleavings at synchronisation points suffice."};
    const bool th = run.thorough;
    web::state().onFetch = fetched;
    auto go = [&](Case& c, const vector<Req>& rs, bool stop, bool noCrawler, const sched::Options& o) {
        string d = "requests:" + show(rs) + (stop ? ", stopped at any time" : "") + (noCrawler ? ", no thread can be created" : "");
        c.desc(d + vk::fmt(", up to %d preemptions%s", o.preemptions, o.func ? " at any function" : ""));
        web::state().clear();
        for (size_t i = 0; i < rs.size(); i++) {
            web::put(host(i) + "/robots.txt", "", "text/plain");
            web::put(host(i) + "/p0", "<a href=\"p1\">x</a><a href=\"/p2\">y</a>", "text/plain");
            web::put(host(i) + "/p1", "one", "text/plain");
            web::put(host(i) + "/p2", "two", "text/plain");
        }
        gReqs = rs;
        hasShutdown = stop;
        sched::pin(c);
        sched::Stats st;
        string e = sched::explore(o, [&] {
            inside = true;
            mhd::onStart = [] {
                pthread_create(&network, nullptr, deliverAll, nullptr);
                if (hasShutdown) pthread_create(&shutdown_, nullptr, sendSignal, nullptr);
            };
            mhd::onStop = [] {
                pthread_mutex_lock(&stopLock);
                stopping = true;
                pthread_mutex_unlock(&stopLock);
                pthread_join(network, nullptr);
            };
            if (noCrawler) schedrt_fail_create(1);
            const char* args[] = {"crawlerd", "-p", "8080", "-d", "there/is/no/such/directory", nullptr};
            crawlerd_main(5, (char**)args);
        }, [&](const sched::Outcome& out) {
            c.state(vk::fnv(d + out.obs));
            return verdict(rs, out, stop, noCrawler);
        }, st, [&] { c.beat(); });
        c.desc(c.description + vk::fmt(": %llu schedules, %llu steps, %llu accesses", (unsigned long long)st.schedules, (unsigned long long)st.steps, (unsigned long long)st.accesses));
        c.add("schedules", st.schedules);
        c.add("steps", st.steps);
        c.add("accesses", st.accesses);
        c.add("switches", st.switches);
        if (!e.empty()) c.fail(d + "\n" + e);
    };
    vector<Req> kinds;
    {
        Req r;
        kinds.push_back(r);
        r.count = 2;
        r.exclude = true;
        r.cut = 1;
        kinds.push_back(r);
        r.cut = 2;
        kinds.push_back(r);
        r.cut = 3;
        kinds.push_back(r);
        r.cut = 4;
        kinds.push_back(r);
        r = Req();
        r.same = true;
        kinds.push_back(r);
    }
    unsigned K = kinds.size();
    auto pick = [&](uint64_t index, unsigned len) {
        vector<Req> rs;
        for (auto i : vk::sequence(index, K, len)) rs.push_back(kinds[i]);
        return rs;
    };
    run.forall("requests", vk::countSequences(K, 2), [&](Case& c) {
        sched::Options o;
        o.preemptions = th ? 3 : 2;
        go(c, pick(c.index, 2), false, false, o);
    }, 1);
    run.forall("three requests", 2 * 2 * 2, [&](Case& c) {
        sched::Options o;
        o.preemptions = th ? 2 : 1;
        vector<Req> rs;
        for (int i = 0; i < 3; i++) rs.push_back(kinds[c.index >> i & 1]);
        go(c, rs, false, false, o);
    }, 1);
    run.forall("shutdown", vk::countSequences(2, 2), [&](Case& c) {
        sched::Options o;
        o.preemptions = th ? 2 : 1;
        vector<Req> rs;
        for (auto i : vk::sequence(c.index, 2, 2)) rs.push_back(kinds[i]);
        go(c, rs, true, false, o);
    }, 1);
    run.forall("no crawler", 2, [&](Case& c) {
        sched::Options o;
        o.preemptions = 1;
        go(c, {kinds[c.index]}, false, true, o);
    }, 1);
    if (th)
        run.forall("functions", K * 16, [&](Case& c) {
            sched::Options o;
            o.preemptions = 1;
            o.func = true;
            o.slice = c.index % 16;
            o.slices = 16;
            go(c, {kinds[c.index / 16], kinds[0]}, false, false, o);
        }, 1);
    return run.finish();
}
