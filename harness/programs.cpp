// C28: the programs do what their options say, and stop when told.
//
// The real executables (mwsd, schemad, mws-index, crawlerd) are run as an
// unprivileged user inside a scratch directory: every combination of options
// and of files present, every history of index operations, and a signal at
// every system call of the main thread.
#include <arpa/inet.h>
#include <dirent.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/user.h>

#include "build-gen/config.h"
#include "vk.hpp"
using std::map;
using std::set;
using std::string;
using std::vector;
using vk::Case;
using vk::fmt;

static const int NOBODY = 65534;
static string bins;  // copies of the executables, reachable for everyone

// ------------------------------------------------------------------ sockets
static int dialOnce(int port, bool v6 = false) {
    int s = socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    if (s < 0) return -1;
    int r;
    if (v6) {
        sockaddr_in6 a;
        memset(&a, 0, sizeof a);
        a.sin6_family = AF_INET6;
        a.sin6_port = htons(port);
        a.sin6_addr = in6addr_loopback;
        r = connect(s, (sockaddr*)&a, sizeof a);
    } else {
        sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        r = connect(s, (sockaddr*)&a, sizeof a);
    }
    if (r != 0) {
        close(s);
        return -1;
    }
    int one = 1;
    setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    timeval tv = {20, 0};
    setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    return s;
}
static bool sendAll(int s, const string& d) {
    size_t p = 0;
    while (p < d.size()) {
        ssize_t n = send(s, d.data() + p, d.size() - p, MSG_NOSIGNAL);
        if (n <= 0) return false;
        p += n;
    }
    return true;
}
struct Response {
    int status = 0;
    string body;
};
static bool receive(int s, Response* out) {
    string d;
    char b[4096];
    size_t hdr;
    while ((hdr = d.find("\r\n\r\n")) == string::npos) {
        ssize_t n = recv(s, b, sizeof b, 0);
        if (n <= 0) return false;
        d.append(b, n);
    }
    out->status = atoi(d.c_str() + 9);
    size_t p = d.find("Content-Length: "), len = 0;
    if (p != string::npos && p < hdr) len = atoi(d.c_str() + p + 16);
    d.erase(0, hdr + 4);
    while (d.size() < len) {
        ssize_t n = recv(s, b, sizeof b, 0);
        if (n <= 0) return false;
        d.append(b, n);
    }
    out->body = d;
    return true;
}
static string post(const string& body) {
    return fmt("POST / HTTP/1.1\r\nHost: x\r\nContent-Length: %zu\r\n\r\n", body.size()) + body;
}
// a port nobody listens on; outside the range used for outgoing connections
static int freePort() {
    static unsigned n = 0;
    for (;;) {
        int port = 10000 + (getpid() * 131 + n++ * 7) % 20000;
        int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        int r = bind(s, (sockaddr*)&a, sizeof a);
        close(s);
        if (r == 0) return port;
    }
}

// ---------------------------------------------------------------- processes
struct Proc {
    pid_t pid = -1;
    bool ended = false;
    int st = 0;
    string log;
    bool poll() {
        if (!ended && waitpid(pid, &st, WNOHANG | __WALL) == pid) {
            if (WIFEXITED(st) || WIFSIGNALED(st)) ended = true;
            // a traced program stops for its signal
            else if (WIFSTOPPED(st)) ptrace(PTRACE_DETACH, pid, 0, (WSTOPSIG(st) & 0x7f) == SIGTRAP ? 0 : WSTOPSIG(st));
        }
        return ended;
    }
    bool await(double limit) {
        double t = vk::now();
        while (!poll()) {
            if (vk::now() - t > limit) return false;
            usleep(1000);
        }
        return true;
    }
    void destroy() {
        if (ended || pid <= 0) return;
        kill(pid, SIGKILL);
        waitpid(pid, &st, __WALL);
        ended = true;
    }
    string text() const {
        string l = vk::readFile(log);
        return l.size() > 1200 ? l.substr(l.size() - 1200) : l;
    }
    string how() const {
        return WIFEXITED(st) ? fmt("exit status %d", WEXITSTATUS(st)) : fmt("signal %d", WTERMSIG(st));
    }
};
static Proc start(const string& dir, const string& exe, const vector<string>& args, bool traced = false, const vector<string>& env = {}) {
    vector<string> a = args;
    a.insert(a.begin(), (env.empty() ? bins : bins + "/plain") + "/" + exe);
    vector<char*> v;
    for (auto& s : a) v.push_back((char*)s.c_str());
    v.push_back(nullptr);
    Proc p;
    p.log = dir + "/.out";
    p.pid = fork();
    if (p.pid == 0) {
        int nul = open("/dev/null", O_RDONLY);
        dup2(nul, 0);
        int fd = open(p.log.c_str(), O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
        dup2(fd, 1);
        dup2(fd, 2);
        for (int i = 3; i < 64; i++) close(i);
        if (chdir(dir.c_str()) != 0 || setgid(NOBODY) != 0 || setuid(NOBODY) != 0) _exit(125);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (traced && ptrace(PTRACE_TRACEME, 0, 0, 0) != 0) _exit(124);
        for (auto& e : env) putenv((char*)e.c_str());
        execv(v[0], v.data());
        _exit(126);
    }
    return p;
}
// 1 = accepts connections, 0 = ended, -1 = neither in time
static int awaitReady(Case& c, Proc& p, int port, bool v6 = false) {
    double t = vk::now();
    for (;;) {
        int s = dialOnce(port, v6);
        if (s >= 0) {
            close(s);
            return 1;
        }
        if (p.poll()) return 0;
        if (vk::now() - t > 20) return -1;
        c.beat();
        usleep(2000);
    }
}
static void own(const string& p) {
    if (lchown(p.c_str(), NOBODY, NOBODY) != 0) {}
    struct stat st;
    if (lstat(p.c_str(), &st) != 0 || !S_ISDIR(st.st_mode)) return;
    if (DIR* d = opendir(p.c_str())) {
        while (dirent* e = readdir(d)) {
            string n = e->d_name;
            if (n != "." && n != "..") own(p + "/" + n);
        }
        closedir(d);
    }
}

// ------------------------------------------------------------------- worlds
// the harvest named k holds plus(aa,k) at url k.1 and times(v,u) at url k.2
static const char* NS = "xmlns:mws=\"http://search.mathweb.org/ns\" xmlns:m=\"http://www.w3.org/1998/Math/MathML\"";
static string harvest(const string& k) {
    return fmt("<?xml version=\"1.0\"?>\n<mws:harvest %s>\n<mws:data mws:data_id=\"1\"><t>title%s</t></mws:data>\n", NS, k.c_str()) +
           "<mws:expr url=\"" + k + ".1\" mws:data_id=\"1\"><m:apply><m:plus/><m:ci>aa</m:ci><m:cn>" + fmt("%d", k[0]) + "</m:cn></m:apply></mws:expr>\n" +
           "<mws:expr url=\"" + k + ".2\" mws:data_id=\"1\"><m:apply><m:times/><m:ci>v</m:ci><m:ci>u</m:ci></m:apply></mws:expr>\n</mws:harvest>\n";
}
static string query(const string& inner) {
    return fmt("<mws:query %s limitmin=\"0\" answsize=\"30\" totalreq=\"yes\" output=\"xml\"><mws:expr>", NS) + inner + "</mws:expr></mws:query>";
}
static const string QA = "<m:apply><m:plus/><m:ci>aa</m:ci><mws:qvar>x</mws:qvar></m:apply>";
static const string QB = "<m:apply><m:times/><m:ci>z</m:ci><m:ci>y</m:ci></m:apply>";
static const string QC = "<m:apply><m:times/><m:ci>v</m:ci><m:ci>u</m:ci></m:apply>";

// file name -> harvest name
static const char* const FILES[][2] = {{"h/a.harvest", "a"}, {"h/b.xml", "b"}, {"h/sub/c.harvest", "c"}, {"h/sub/e.xml", "e"},
                                       {"h2/d.harvest", "d"}, {"h2/f.harvest.bak", "f"}};
static void makeHarvests(const string& dir) {
    for (auto d : {"/h", "/h/sub", "/h2"}) mkdir((dir + d).c_str(), 0755);
    for (auto& f : FILES) vk::writeFile(dir + "/" + f[0], harvest(f[1]));
}
static set<string> selected(const vector<string>& paths, bool recursive, const string& ext) {
    set<string> o;
    for (auto& p : paths)
        for (auto& f : FILES) {
            string n = f[0];
            if (n.compare(0, p.size() + 1, p + "/") != 0) continue;
            string rest = n.substr(p.size() + 1);
            if (rest.find('/') != string::npos && !recursive) continue;
            if (rest.size() < ext.size() || rest.substr(rest.size() - ext.size()) != ext) continue;
            o.insert(f[1]);
        }
    return o;
}

struct Served {
    set<string> files;   // harvests that are searched
    bool renamed = false, data = true;
};
static string show(const set<string>& s) {
    string o = "{";
    for (auto& x : s) o += " " + x;
    return o + " }";
}
// the uris of the answers and whether each one shows its data
static string asked(int port, const string& q, set<string>* uris, bool* data, bool v6 = false) {
    int s = dialOnce(port, v6);
    if (s < 0) return "does not accept a connection";
    Response r;
    bool ok = sendAll(s, post(query(q))) && receive(s, &r);
    close(s);
    if (!ok) return "does not answer a query";
    if (r.status != 200) return fmt("answers a query with status %d", r.status);
    xmlDocPtr d = xmlReadMemory(r.body.data(), r.body.size(), "", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
    if (!d) return "answers with malformed XML: " + vk::jstr(r.body);
    std::function<void(xmlNode*)> walk = [&](xmlNode* n) {
        for (; n; n = n->next) {
            if (n->type == XML_ELEMENT_NODE && !strcmp((const char*)n->name, "answ"))
                if (xmlChar* u = xmlGetProp(n, BAD_CAST "uri")) {
                    uris->insert((char*)u);
                    xmlFree(u);
                }
            walk(n->children);
        }
    };
    walk(xmlDocGetRootElement(d));
    xmlFreeDoc(d);
    size_t titles = 0;
    for (auto& u : *uris)
        if (r.body.find("title" + u.substr(0, 1)) != string::npos) titles++;
    *data = titles == uris->size();
    if (titles && !*data) return "shows the data of some of its answers only";
    return "";
}
static string judge(Case& c, int port, const Served& want, bool v6 = false) {
    struct {
        string q, suffix;
        bool hits;
    } Q[] = {{QA, ".1", true}, {QB, ".2", want.renamed}, {QC, ".2", true}};
    for (auto& q : Q) {
        set<string> expect, got;
        if (q.hits)
            for (auto& f : want.files) expect.insert(f + q.suffix);
        bool data = true;
        string e = asked(port, q.q, &got, &data, v6);
        c.add("queries");
        if (!e.empty()) return e;
        if (got != expect) return "answers " + q.q + " with " + show(got) + " instead of " + show(expect);
        if (!got.empty() && data != want.data) return data ? "shows data it was told to ignore" : "does not show the data of its answers";
    }
    return "";
}
// ends a server; "" or what went wrong
static string stop(Proc& p, int sig) {
    kill(p.pid, sig);
    if (!p.await(20)) return fmt("does not end after signal %d", sig);
    if (!WIFEXITED(p.st) || WEXITSTATUS(p.st) != 0) return fmt("ends with %s after signal %d", p.how().c_str(), sig);
    return "";
}
// starts the server until it gets its port; returns as awaitReady
static int serve(Case& c, const string& dir, const string& exe, vector<string> args, int* port, Proc* p) {
    for (int t = 0;; t++) {
        *port = freePort();
        vector<string> a = args;
        a.push_back("-p");
        a.push_back(fmt("%d", *port));
        *p = start(dir, exe, a);
        c.add("program runs");
        int r = awaitReady(c, *p, *port);
        if (r == 0 && t < 3 && p->text().find("MHD_start_daemon") != string::npos) continue;
        return r;
    }
}
static int runToEnd(Case& c, const string& dir, const string& exe, const vector<string>& args, Proc* p) {
    *p = start(dir, exe, args);
    c.add("program runs");
    if (!p->await(20)) {
        p->destroy();
        return -2;
    }
    c.beat();
    return WIFEXITED(p->st) ? WEXITSTATUS(p->st) : -1;
}
static string words(const vector<string>& a) {
    string o;
    for (auto& x : a) o += " " + x;
    return o;
}
// index of h2 (the harvest d), built once with and without renaming
static string indexes;
enum Disk { NODB, GOOD, GOODC, ABSENT, NOSECTOR, CUTSECTOR, NODICT, DISKS };
static const char* const diskName[] = {"none", "an index", "a renamed index", "an absent directory", "an index without memsector",
                                       "an index with a cut memsector", "an index without dictionary"};
static void putIndex(const string& dir, int k) {
    if (k == NODB || k == ABSENT) return;
    vk::copyTree(indexes + (k == GOODC ? "/c" : "/p"), dir + "/idx");
    string ms = dir + "/idx/" INDEX_MEMSECTOR_FILE;
    if (access(ms.c_str(), F_OK) != 0) _exit(71);
    if (k == NOSECTOR) unlink(ms.c_str());
    if (k == CUTSECTOR) vk::writeFile(ms, vk::readFile(ms).substr(0, 100));
    if (k == NODICT) unlink((dir + "/idx/" MEANING_DICTIONARY_FILE).c_str());
}
static void prepare(Case& c) {
    vk::rmTree(c.scratch);
    mkdir(c.scratch.c_str(), 0755);
    makeHarvests(c.scratch);
}

// ---------------------------------------------------------------- signals
struct Target {
    const char* name;
    string exe;
    vector<string> args;
    int disk;
    bool port;
};
static vector<Target> targets() {
    return {{"mwsd on harvests", "mwsd", {"-I", "h"}, NODB, true},
            {"mwsd on an index", "mwsd", {"-D", "idx"}, GOOD, true},
            {"schemad", "schemad", {}, NODB, true},
            {"crawlerd", "crawlerd", {}, NODB, true},
            {"mwsd building an index", "mwsd", {"-D", "idx", "-I", "h"}, ABSENT, true}};
}
static bool pendingShared(pid_t pid, int sig) {
    string s = vk::readFile(fmt("/proc/%d/status", pid));
    size_t p = s.find("ShdPnd:");
    if (p == string::npos) return false;
    uint64_t m = strtoull(s.c_str() + p + 7, nullptr, 16);
    return m >> (sig - 1) & 1;
}
static bool asleep(pid_t pid) {
    string s = vk::readFile(fmt("/proc/%d/stat", pid));
    size_t p = s.rfind(") ");
    return p != string::npos && s[p + 2] == 'S';
}
// Runs a program up to the n-th system call stop of its main thread, where
// the kernel shows a call about to begin or just ended.
struct Tracer {
    Proc p;
    int port = 0;
    uint64_t stops = 0;
    bool handlers = false;  // a handler for SIGTERM or SIGINT is installed
    bool served = false;    // the port accepted a connection just before the signal
    bool waiting = false;   // the program serves and its main thread sleeps
    bool told = false;      // it got a signal, so that it does not serve on
    void start(const string& dir, const Target& t) {
        port = freePort();
        auto a = t.args;
        a.push_back("-p");
        a.push_back(fmt("%d", port));
        p = ::start(dir, t.exe, a, true);
    }
    bool begin() {
        int st;
        while (waitpid(p.pid, &st, __WALL) < 0 && errno == EINTR) {}
        if (!WIFSTOPPED(st)) {
            p.st = st;
            p.ended = true;
            return false;
        }
        ptrace(PTRACE_SETOPTIONS, p.pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
        return true;
    }
    // to the next stop; false when the program waits, has ended or is stuck
    bool step() {
        int deliver = 0;
        double t = vk::now(), idle = 0;
        for (;;) {
            ptrace(PTRACE_SYSCALL, p.pid, 0, deliver);
            int st;
            pid_t r;
            unsigned spins = 0;
            while ((r = waitpid(p.pid, &st, __WALL | WNOHANG)) == 0) {
                if (++spins < 200) continue;
                usleep(200);
                double n = vk::now();
                if (n - t > 20) return false;
                if (!asleep(p.pid)) idle = n;
                else if (!told && n - std::max(idle, t) > 0.15) {
                    int s = dialOnce(port);
                    if (s >= 0) {
                        close(s);
                        waiting = true;
                        return false;
                    }
                    idle = n;
                }
            }
            if (r < 0 || !WIFSTOPPED(st)) {
                p.st = st;
                p.ended = true;
                return false;
            }
            int sig = WSTOPSIG(st);
            if (sig == (SIGTRAP | 0x80)) {
                stops++;
                struct user_regs_struct g;
                ptrace(PTRACE_GETREGS, p.pid, 0, &g);
                bool entering = (long)g.rax == -ENOSYS;
                if (!entering && g.orig_rax == SYS_rt_sigaction && (g.rdi == SIGTERM || g.rdi == SIGINT) && g.rsi != 0) handlers = true;
                return true;
            }
            deliver = sig == SIGTRAP ? 0 : sig;  // exec, or a signal
        }
    }
    string trouble() const { return (p.ended ? "ends with " + p.how() : "is stuck") + ": " + p.text(); }
    // sends a signal; when stopped, the other threads may take it first
    void signalNow(int sig) {
        int probe = dialOnce(port);
        if ((served = probe >= 0)) close(probe);
        kill(p.pid, sig);
        if (waiting) return;  // Proc::poll() detaches at the signal
        for (int i = 0; i < 10 && pendingShared(p.pid, sig); i++) usleep(1000);
        usleep(1000);
        ptrace(PTRACE_DETACH, p.pid, 0, 0);
    }
};
static string ended(Proc& p, int sig, bool served = false) {
    if (!p.await(15)) return fmt("does not end after signal %d", sig);
    bool by = !served && WIFSIGNALED(p.st) && WTERMSIG(p.st) == sig;
    bool fine = WIFEXITED(p.st) && WEXITSTATUS(p.st) == 0;
    if (!by && !fine) return "ends with " + p.how();
    return "";
}
static uint64_t countStops(const string& dir, const Target& t, uint64_t* first) {
    vk::rmTree(dir);
    mkdir(dir.c_str(), 0755);
    makeHarvests(dir);
    putIndex(dir, t.disk);
    own(dir);
    Tracer tr;
    tr.start(dir, t);
    *first = 0;
    if (!tr.begin()) return 0;
    while (tr.step())
        if (tr.handlers && *first == 0) *first = tr.stops;
    uint64_t n = tr.stops;
    if (!tr.waiting) fprintf(stderr, "%s never serves and %s\n", t.name, tr.trouble().c_str());
    tr.p.destroy();
    vk::rmTree(dir);
    return tr.waiting ? n : 0;
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C28", "model_checking");
    run.declare({"program runs", "queries", "signal points", "system call stops"});
    run.transitionsCounter = "queries";
    run.tracesCounter = "program runs";
    run.rule = "state = (options, files present, outcome); transition = one query whose answer was compared with the model of "
               "the options; trace = one run of a real program; a signal point = a system call stop of the main thread at "
               "which a signal was sent";
    run.caseTimeout = 90;
    const bool th = run.thorough;
    setenv("ASAN_OPTIONS", (string(getenv("ASAN_OPTIONS") ?: "") + ":abort_on_error=0:exitcode=99").c_str(), 1);

    chmod(run.scratchRoot.c_str(), 0755);
    bins = run.scratchRoot + "/bin";
    indexes = run.scratchRoot + "/indexes";
    vk::rmTree(bins);
    mkdir(bins.c_str(), 0755);
    for (auto e : {"mwsd", "schemad", "mws-index", "crawlerd"}) {
        vk::writeFile(bins + "/" + e, vk::readFile(string(getenv("VERIF_BUILD")) + "/" + e));
        chmod((bins + "/" + e).c_str(), 0755);
    }
    mkdir((bins + "/plain").c_str(), 0755);
    for (auto e : {"mwsd", "schemad"}) {
        vk::writeFile(bins + "/plain/" + e, vk::readFile(string(getenv("VERIF_PLAIN")) + "/" + e));
        chmod((bins + "/plain/" + e).c_str(), 0755);
    }
    const string shim = bins + "/shim.so";
    vk::writeFile(shim, vk::readFile(getenv("VERIF_SHIM")));
    chmod(shim.c_str(), 0755);
    // the indexes other cases start from
    mkdir(indexes.c_str(), 0755);
    makeHarvests(indexes);
    own(indexes);
    for (int k = 0; k < 2; k++) {
        vector<string> a = {"-I", "h2", "-o", k ? "c" : "p"};
        if (k) a.push_back("-c");
        Proc p = start(indexes, "mws-index", a);
        p.await(20);
        p.destroy();
    }
    bool indexed = access((indexes + "/c/" INDEX_MEMSECTOR_FILE).c_str(), F_OK) == 0 && access((indexes + "/p/" INDEX_MEMSECTOR_FILE).c_str(), F_OK) == 0;

    // -------------------------------------------------- options of mws-index
    {
        struct {
            vector<string> paths;
        } I[] = {{{"h"}}, {{"h", "h2"}}, {{"h2"}}, {{"absent"}}, {{"absent", "h2"}}, {{"h/"}}};
        const char* E[] = {nullptr, "xml", "bak", "nope"};
        run.forall("mws-index", 6 * 4 * 2 * 2 * 3, [&](Case& c) {
            vk::Digits d(c.index);
            auto& paths = I[d.next(6)].paths;
            const char* ext = E[d.next(4)];
            bool rec = d.next(2), ren = d.next(2);
            int out = d.next(3);  // new directory, existing empty directory, parent missing
            prepare(c);
            if (out == 1) mkdir((c.scratch + "/idx").c_str(), 0755);
            own(c.scratch);
            vector<string> a;
            for (auto& p : paths) a.push_back("-I"), a.push_back(p);
            if (ext) a.push_back("-e"), a.push_back(ext);
            if (rec) a.push_back("-r");
            if (ren) a.push_back("-c");
            string o = out == 2 ? "no/idx" : "idx";
            a.push_back("-o"), a.push_back(o);
            c.desc("mws-index" + words(a) + (out == 1 ? " (idx exists)" : ""));
            vector<string> canon;
            for (auto& p : paths) canon.push_back(p == "h/" ? "h" : p);
            Served want;
            want.files = selected(canon, rec, ext ? ext : "harvest");
            want.renamed = ren;
            bool good = !want.files.empty() && out != 2;
            Proc p;
            int rc = runToEnd(c, c.scratch, "mws-index", a, &p);
            c.state(fmt("index %zu %d %d", want.files.size(), rc, out));
            if (rc < 0) return c.fail("mws-index %s: %s", rc == -2 ? "does not end" : "crashed", p.text().c_str());
            if ((rc == 0) != good) return c.fail("exit status %d: %s", rc, p.text().c_str());
            // a failed run leaves nothing that is served as an index
            vector<string> b = {"-D", o};
            if (ren) b.push_back("-c");
            int port;
            Proc q;
            int r = serve(c, c.scratch, "mwsd", b, &port, &q);
            string e;
            if (r != (good ? 1 : 0)) e = fmt("mwsd %s that index: %s", r == 1 ? "loads" : "does not load", q.text().c_str());
            else if (good) e = judge(c, port, want);
            if (e.empty() && r == 1) e = stop(q, SIGTERM);
            if (e.empty() && r == 0 && (!WIFEXITED(q.st) || WEXITSTATUS(q.st) == 0)) e = "mwsd ends with " + q.how();
            q.destroy();
            if (!e.empty()) c.fail("%s", e.c_str());
        }, 1);
    }
    // ------------------------------------------------------- options of mwsd
    {
        struct {
            vector<string> paths;
        } I[] = {{{}}, {{"h"}}, {{"h", "h2"}}, {{"absent"}}, {{"absent", "h"}}};
        struct Opt {
            unsigned i, disk, flags;
            bool xml;
        };
        vector<Opt> opts;
        for (unsigned i = 0; i < 5; i++)
            for (unsigned disk = 0; disk < DISKS; disk++)
                for (unsigned flags = 0; flags < 32; flags++)
                    for (int x = 0; x < 2; x++) {
                        // -c must agree with the index that is loaded
                        bool ren = flags & 4;
                        if (disk == GOOD && ren) continue;
                        if (disk == GOODC && !ren) continue;
                        if (!th) {
                            bool builds = i && disk != GOOD && disk != GOODC;
                            // without an effect in that situation: only all or none of them
                            if (!builds && ((flags & 3) != 0 && (flags & 3) != 3)) continue;
                            if (!builds && x != ((flags & 3) == 3)) continue;
                            if (disk == NODB && (((flags >> 3) & 3) == 1 || ((flags >> 3) & 3) == 2)) continue;
                            if (i >= 3 && (flags & 2)) continue;
                            if (disk > NOSECTOR && (flags & 2)) continue;
                        }
                        opts.push_back({i, disk, flags, (bool)x});
                    }
        run.forall("mwsd", opts.size(), [&](Case& c) {
            auto& o = opts[c.index];
            bool rec = o.flags & 1, nodata = o.flags & 2, ren = o.flags & 4, engine = o.flags & 8, del = o.flags & 16;
            prepare(c);
            putIndex(c.scratch, o.disk);
            own(c.scratch);
            vector<string> a;
            for (auto& p : I[o.i].paths) a.push_back("-I"), a.push_back(p);
            if (o.disk != NODB) a.push_back("-D"), a.push_back("idx");
            if (o.xml) a.push_back("-e"), a.push_back("xml");
            if (rec) a.push_back("-r");
            if (nodata) a.push_back("-n");
            if (ren) a.push_back("-c");
            if (engine) a.push_back("-x");
            if (del) a.push_back("-f");
            c.desc("mwsd" + words(a) + ", idx: " + diskName[o.disk]);
            Served want;
            want.renamed = ren;
            int expect;  // 1 serves, 0 refuses, 2 either
            auto sel = selected(I[o.i].paths, rec, o.xml ? "xml" : "harvest");
            bool kept = false;  // the old data must still be there
            if (o.disk == NODB) {
                want.files = sel;
                want.data = !nodata;
                expect = o.i == 0 ? 0 : sel.empty() ? 2 : 1;
            } else if (o.disk == GOOD || o.disk == GOODC) {
                want.files = {"d"};
                expect = 1;
                kept = true;
            } else if (o.i == 0) {
                expect = 0;
                kept = o.disk != ABSENT;
            } else if (o.disk == ABSENT || del) {
                want.files = sel;
                want.data = !nodata;
                expect = !sel.empty();
            } else {
                expect = 0;  // would need to delete the old data
                kept = true;
            }
            int port;
            Proc p;
            int r = serve(c, c.scratch, "mwsd", a, &port, &p);
            string e;
            c.state(fmt("%u %u %d %zu", o.i, o.disk, r, want.files.size()));
            if (r < 0) e = "neither ends nor accepts connections: " + p.text();
            else if (expect != 2 && r != expect) e = r ? "serves although it should refuse: " + p.text() : "refuses: " + p.text();
            else if (r == 1) e = judge(c, port, want);
            else if (!WIFEXITED(p.st) || WEXITSTATUS(p.st) == 0) e = "refuses with " + p.how() + ": " + p.text();
            if (e.empty() && r == 1) e = stop(p, c.index % 2 ? SIGTERM : SIGINT);
            if (!e.empty() && r != 0) e += "; " + p.text();
            p.destroy();
            if (e.empty() && kept) {
                // what was stored is there, and works once the damage is undone
                if (o.disk == NOSECTOR || o.disk == CUTSECTOR)
                    vk::writeFile(c.scratch + "/idx/" INDEX_MEMSECTOR_FILE, vk::readFile(indexes + "/p/" INDEX_MEMSECTOR_FILE));
                if (o.disk == NODICT) vk::writeFile(c.scratch + "/idx/" MEANING_DICTIONARY_FILE, vk::readFile(indexes + "/p/" MEANING_DICTIONARY_FILE));
                own(c.scratch);
                vector<string> b = {"-D", "idx"};
                if (o.disk == GOODC) b.push_back("-c");
                Proc q;
                Served old;
                old.files = {"d"};
                old.renamed = o.disk == GOODC;
                if (serve(c, c.scratch, "mwsd", b, &port, &q) != 1) e = "the stored data was lost: " + q.text();
                else e = judge(c, port, old);
                if (!e.empty()) e = "afterwards: " + e;
                q.destroy();
            }
            if (!e.empty()) c.fail("%s", e.c_str());
        }, 1);
    }
    // ----------------------------------- files, daemon mode and relative paths
    {
        // program x (daemon mode) x (log file) x (pid file) x (statistics) x (absolute paths)
        run.forall("daemon mode", 4 * 2 * 2 * 2 * 2 * 2, [&](Case& c) {
            vk::Digits d(c.index);
            int kind = d.next(4);  // harvests, index, building, schemad
            bool dm = d.next(2), lg = d.next(2), pf = d.next(2), st = d.next(2), abs = d.next(2);
            if (kind == 3 && st) return;
            prctl(PR_SET_CHILD_SUBREAPER, 1);
            prepare(c);
            if (kind == 1) putIndex(c.scratch, GOOD);
            own(c.scratch);
            string pre = abs ? c.scratch + "/" : "";
            vector<string> a;
            if (kind == 0 || kind == 2) a.push_back("-I"), a.push_back(pre + "h");
            if (kind == 1 || kind == 2) a.push_back("-D"), a.push_back(pre + "idx");
            if (dm) a.push_back("-d");
            if (lg) a.push_back("-l"), a.push_back(pre + "log.txt");
            if (pf) a.push_back("-i"), a.push_back(pre + "pid.txt");
            if (st) a.push_back("-s"), a.push_back(pre + "stats.txt");
            string exe = kind == 3 ? "schemad" : "mwsd";
            c.desc(exe + words(a));
            int port = 0;
            Proc p;
            pid_t real = -1;
            string e;
            int r = -1;
            for (int t = 0; t < 4; t++) {
                port = freePort();
                vector<string> b = a;
                b.push_back("-p");
                b.push_back(fmt("%d", port));
                p = start(c.scratch, exe, b);
                c.add("program runs");
                if (!dm) {
                    r = awaitReady(c, p, port);
                    real = p.pid;
                } else {
                    if (!p.await(20)) {
                        e = "does not go into the background";
                        break;
                    }
                    if (!WIFEXITED(p.st) || WEXITSTATUS(p.st) != 0) {
                        e = "ends with " + p.how() + ": " + p.text();
                        break;
                    }
                    // the process in the background is now a child of this one
                    double t0 = vk::now();
                    r = -1;
                    while (vk::now() - t0 < 20) {
                        int s = dialOnce(port);
                        if (s >= 0) {
                            close(s);
                            r = 1;
                            break;
                        }
                        int st2;
                        pid_t w = waitpid(-1, &st2, WNOHANG);
                        if (w < 0 || w > 0) {
                            r = 0;
                            break;
                        }
                        usleep(2000);
                        c.beat();
                    }
                    // find it: the only child
                    string kids = vk::readFile(fmt("/proc/%d/task/%d/children", getpid(), getpid()));
                    real = kids.empty() ? -1 : atoi(kids.c_str());
                }
                if (r == 0 && t < 3 && (vk::readFile(c.scratch + "/log.txt") + p.text()).find("MHD_start_daemon") != string::npos) continue;
                break;
            }
            string logged = vk::readFile(c.scratch + "/log.txt");
            if (e.empty() && r != 1) e = "does not serve: " + p.text() + logged;
            if (e.empty() && kind != 3) {
                Served want;
                want.files = kind == 1 ? set<string>{"d"} : set<string>{"a"};
                e = judge(c, port, want);
            }
            if (e.empty() && pf) {
                string s = vk::readFile(c.scratch + "/pid.txt");
                if (real > 0 && s != fmt("%d", real)) e = "the pid file says \"" + s + "\" instead of " + fmt("%d", real);
                else if (atoi(s.c_str()) > 1) real = atoi(s.c_str());
            }
            if (e.empty() && real <= 0) e = "the process in the background was not found";
            if (real > 0) {
                kill(real, SIGTERM);
                int st2 = 0;
                double t0 = vk::now();
                bool gone = false;
                while (!gone && vk::now() - t0 < 20) {
                    pid_t w = waitpid(real, &st2, WNOHANG);
                    if (w == real || w < 0) gone = true;
                    else usleep(2000);
                }
                if (!gone) {
                    kill(real, SIGKILL);
                    waitpid(real, &st2, 0);
                }
                if (e.empty() && !gone) e = "does not end after SIGTERM";
                else if (e.empty() && !(WIFEXITED(st2) && WEXITSTATUS(st2) == 0)) e = "does not end normally after SIGTERM";
                if (real == p.pid) p.ended = true;
            }
            p.destroy();
            logged = vk::readFile(c.scratch + "/log.txt");
            if (e.empty() && lg && logged.empty()) e = "the log file is empty";
            if (e.empty() && st && (kind == 0 || kind == 2)) {
                // the last line counts what was indexed: two formulas, each with three and one more
                string s = vk::readFile(c.scratch + "/stats.txt");
                while (!s.empty() && s.back() == '\n') s.pop_back();
                size_t at = s.rfind('\n');
                string last = at == string::npos ? s : s.substr(at + 1);
                unsigned long n = 0, u = 0;
                if (sscanf(last.c_str(), " %lu , %lu", &n, &u) != 2) e = "the statistics are \"" + s + "\"";
                else if (n != 8 || u != 8) e = "the statistics count " + last + " instead of 8 formulas";
            }
            c.state(fmt("%d %d %d %d", kind, dm, lg, r));
            if (!e.empty()) c.fail("%s", e.c_str());
        }, 1);
    }
    // ------------------------------------------------------- refused options
    {
        struct R {
            string exe;
            vector<string> args;
        };
        vector<R> rs;
        vector<vector<string>> bases = {{"mwsd", "-I", "h"}, {"mwsd", "-D", "idx"}, {"schemad"}};
        for (auto& b : bases)
            for (auto& x : vector<vector<string>>{{"-p", "0"}, {"-p", "65536"}, {"-p", "-1"}, {"-p", "x"}, {"-p", "99999999"}, {"-p"},
                                                  {"-l", "no/log"}, {"-i", "no/pid"}, {"-l", "h"}, {"-i", "h"}, {"-q"}, {"--nope"},
                                                  {"--schema-portx=1"}}) {
                vector<string> a(b.begin() + 1, b.end());
                a.insert(a.end(), x.begin(), x.end());
                rs.push_back({b[0], a});
            }
        for (auto& x : vector<vector<string>>{{}, {"-I", "h"}, {"-o", "idx2"}, {"-I", "h", "-o"}, {"-o", "idx2", "-I"}, {"-I", "h", "-o", "idx2", "-q"},
                                              {"-I", "h", "-o", "h/a.harvest"}})
            rs.push_back({"mws-index", x});
        for (auto& x : vector<vector<string>>{{}, {"-r"}, {"-c", "-x"}, {"-p", "20001"}}) rs.push_back({"mwsd", x});
        run.forall("refusals", rs.size(), [&](Case& c) {
            prepare(c);
            putIndex(c.scratch, GOOD);
            own(c.scratch);
            c.desc(rs[c.index].exe + words(rs[c.index].args));
            Proc p;
            int rc = runToEnd(c, c.scratch, rs[c.index].exe, rs[c.index].args, &p);
            c.state(fmt("%d %d", (int)c.index, rc));
            if (rc == -2) c.fail("runs: %s", p.text().c_str());
            else if (rc <= 0 || rc == 99) c.fail("ends with %s: %s", p.how().c_str(), p.text().c_str());
            else if (access((c.scratch + "/idx2/" INDEX_MEMSECTOR_FILE).c_str(), F_OK) == 0) c.fail("an index was written");
        }, 1);
        // a port that is taken: the second one refuses, the first one goes on
        run.forall("port taken", 9, [&](Case& c) {
            vk::Digits d(c.index);
            int k1 = d.next(3), k2 = d.next(3);
            prepare(c);
            putIndex(c.scratch, GOOD);
            vk::copyTree(indexes + "/p", c.scratch + "/idx2");
            own(c.scratch);
            vector<string> A[] = {{"-I", "h"}, {"-D", "idx"}, {}}, B[] = {{"-I", "h"}, {"-D", "idx2"}, {}};
            int port;
            Proc p, q;
            c.desc(fmt("%d then %d", k1, k2));
            int r = serve(c, c.scratch, k1 == 2 ? "schemad" : "mwsd", A[k1], &port, &p);
            auto b = B[k2];
            b.push_back("-p");
            b.push_back(fmt("%d", port));
            string e;
            if (r != 1) e = "does not serve: " + p.text();
            else {
                int rc = runToEnd(c, c.scratch, k2 == 2 ? "schemad" : "mwsd", b, &q);
                if (rc == -2) e = "two programs serve one port";
                else if (rc <= 0 || rc == 99) e = "the second program ends with " + q.how() + ": " + q.text();
                Served want;
                want.files = k1 ? set<string>{"d"} : set<string>{"a"};
                if (e.empty() && k1 != 2) e = judge(c, port, want);
                if (e.empty()) e = stop(p, SIGTERM);
            }
            p.destroy();
            if (!e.empty()) c.fail("%s", e.c_str());
        }, 1);
        // -6 serves the IPv6 loopback address
        run.forall("ipv6", 3, [&](Case& c) {
            int s = socket(AF_INET6, SOCK_STREAM, 0);
            sockaddr_in6 sa;
            memset(&sa, 0, sizeof sa);
            sa.sin6_family = AF_INET6;
            sa.sin6_addr = in6addr_loopback;
            bool have = s >= 0 && bind(s, (sockaddr*)&sa, sizeof sa) == 0;
            if (s >= 0) close(s);
            if (!have) return;
            prepare(c);
            putIndex(c.scratch, GOOD);
            own(c.scratch);
            vector<string> A[] = {{"-6", "-I", "h"}, {"-6", "-D", "idx"}, {"-6"}};
            c.desc(words(A[c.index]));
            int port = freePort();
            auto a = A[c.index];
            a.push_back("-p");
            a.push_back(fmt("%d", port));
            Proc p = start(c.scratch, c.index == 2 ? "schemad" : "mwsd", a);
            c.add("program runs");
            string e;
            if (awaitReady(c, p, port, true) != 1) e = "does not serve ::1: " + p.text();
            Served want;
            want.files = c.index ? set<string>{"d"} : set<string>{"a"};
            if (e.empty() && c.index != 2) e = judge(c, port, want, true);
            if (e.empty()) e = stop(p, SIGTERM);
            p.destroy();
            if (!e.empty()) c.fail("%s", e.c_str());
        }, 1);
    }
    // ------------------------------------------------ histories on one index
    {
        const char* OPS[] = {"mws-index -I h", "mws-index -I h2 -r", "mws-index -I absent", "mwsd -D", "mwsd -D -I h", "mwsd -D -I h2 -f",
                             "mwsd -D -I absent -f", "memsector cut", "memsector removed"};
        const unsigned N = 9, depth = th ? 4 : 3;
        // histories of exactly that length; each step is judged
        uint64_t total = 1;
        for (unsigned i = 0; i < depth; i++) total *= N;
        run.forall("histories", total, [&](Case& c) {
            vk::Digits d(c.index);
            vector<unsigned> ops;
            string text;
            for (unsigned i = 0; i < depth; i++) ops.push_back(d.next(N));
            // damage without an index is no operation of its own
            for (unsigned i = 0; i < depth; i++)
                if (ops[i] >= 7 && (i == 0 || ops[i - 1] >= 7)) return;
            for (auto o : ops) text += string(OPS[o]) + "; ";
            c.desc(text);
            prepare(c);
            own(c.scratch);
            bool exists = false;    // there are databases
            bool loadable = false;  // and an index that can be served
            set<string> files;
            for (size_t i = 0; i < ops.size(); i++) {
                string e;
                unsigned o = ops[i];
                Proc p;
                if (o <= 2) {
                    vector<string> a = {"-o", "idx", "-I", o == 0 ? "h" : o == 1 ? "h2" : "absent"};
                    if (o == 1) a.push_back("-r");
                    bool good = !exists && o != 2;
                    int rc = runToEnd(c, c.scratch, "mws-index", a, &p);
                    if (rc < 0) e = "mws-index " + string(rc == -2 ? "does not end" : "crashed") + ": " + p.text();
                    else if ((rc == 0) != good) e = fmt("mws-index ends with %d: ", rc) + p.text();
                    if (good) loadable = true, files = o == 0 ? set<string>{"a"} : set<string>{"d"};
                    exists = true;
                } else if (o <= 6) {
                    vector<string> a = {"-D", "idx"};
                    if (o == 4) a.push_back("-I"), a.push_back("h");
                    if (o == 5) a.push_back("-I"), a.push_back("h2"), a.push_back("-f");
                    if (o == 6) a.push_back("-I"), a.push_back("absent"), a.push_back("-f");
                    if (!loadable) {
                        if (o == 4 && !exists) loadable = true, files = {"a"};
                        if (o == 5) loadable = true, files = {"d"};
                        if (o >= 4) exists = true;
                    }
                    int port;
                    int r = serve(c, c.scratch, "mwsd", a, &port, &p);
                    if (r != (loadable ? 1 : 0)) e = fmt("mwsd %s: ", r == 1 ? "serves" : r == 0 ? "refuses" : "hangs") + p.text();
                    Served want;
                    want.files = files;
                    if (e.empty() && r == 1) e = judge(c, port, want);
                    if (e.empty() && r == 1) e = stop(p, SIGTERM);
                    if (e.empty() && r == 0 && (!WIFEXITED(p.st) || WEXITSTATUS(p.st) == 0 || WEXITSTATUS(p.st) == 99))
                        e = "mwsd ends with " + p.how() + ": " + p.text();
                    p.destroy();
                } else {
                    string ms = c.scratch + "/idx/" INDEX_MEMSECTOR_FILE;
                    if (access(ms.c_str(), F_OK) == 0) {
                        if (o == 7) vk::writeFile(ms, vk::readFile(ms).substr(0, 100));
                        else unlink(ms.c_str());
                    }
                    own(c.scratch);
                    loadable = false;
                }
                c.state(fmt("history %d %d %zu %d", exists, loadable, files.size(), files.count("a") ? 1 : 0));
                if (!e.empty()) return c.fail("step %zu (%s): %s", i + 1, OPS[o], e.c_str());
            }
        }, 1);
    }
    // ------------------------------- a signal at every moment of a server's life
    {
        auto ts = targets();
        struct Point {
            unsigned target;
            int sig;
            uint64_t stop;
        };
        vector<Point> pts;
        const int SIGS[] = {SIGTERM, SIGINT};
        for (unsigned t = 0; t < ts.size(); t++) {
            uint64_t first = 0;
            uint64_t n = countStops(run.scratchRoot + "/count", ts[t], &first);
            if (!n) {
                // reported by the case below
                pts.push_back({t, SIGTERM, 1});
                continue;
            }
            fprintf(stderr, "%s: %llu stops, handlers after %llu\n", ts[t].name, (unsigned long long)n, (unsigned long long)first);
            // a few more, in case a run needs more calls than the one counted
            uint64_t from = th || first == 0 ? 1 : first > 4 ? first - 4 : 1;
            for (int sig : SIGS)
                for (uint64_t s = from; s <= n + 6; s++) pts.push_back({t, sig, s});
        }
        run.forall("signals", pts.size(), [&](Case& c) {
            auto& pt = pts[c.index];
            auto& t = ts[pt.target];
            prepare(c);
            putIndex(c.scratch, t.disk);
            own(c.scratch);
            c.desc(fmt("%s, signal %d at system call stop %llu of the main thread", t.name, pt.sig, (unsigned long long)pt.stop));
            Tracer tr;
            tr.start(c.scratch, t);
            c.add("program runs");
            if (!tr.begin()) return c.fail("cannot be traced: %s", tr.p.how().c_str());
            while (tr.stops < pt.stop && tr.step()) {}
            if (tr.stops < pt.stop && !tr.waiting) {
                string w = tr.trouble();
                tr.p.destroy();
                return c.fail("before any signal, the program %s", w.c_str());
            }
            c.add("signal points");
            c.add("system call stops", tr.stops);
            c.state(fmt("%u %d %llu", pt.target, pt.sig, (unsigned long long)tr.stops));
            tr.signalNow(pt.sig);
            string e = ended(tr.p, pt.sig, tr.served);
            tr.p.destroy();
            if (!e.empty()) c.fail("%s: %s", e.c_str(), tr.p.text().c_str());
        }, 1);
        // a second signal at every stop of the shutdown
        const unsigned MAXSTOP = th ? 120 : 60;
        run.forall("second signals", (th ? 4 : 3) * MAXSTOP, [&](Case& c) {
            vk::Digits d(c.index);
            unsigned stop = d.next(MAXSTOP), k = d.next(4);
            auto& t = ts[k];
            prepare(c);
            putIndex(c.scratch, t.disk);
            own(c.scratch);
            c.desc(fmt("%s, a second signal at system call stop %u of the shutdown", t.name, stop));
            Tracer tr;
            tr.start(c.scratch, t);
            c.add("program runs");
            if (!tr.begin()) return c.fail("cannot be traced: %s", tr.p.how().c_str());
            while (tr.step()) {}
            if (!tr.waiting) {
                string w = tr.trouble();
                tr.p.destroy();
                return c.fail("before any signal, the program %s", w.c_str());
            }
            kill(tr.p.pid, SIGTERM);
            tr.waiting = false;
            tr.told = true;
            bool over = false;
            for (unsigned i = 0; i < stop && !over; i++)
                if (!tr.step()) over = true;
            string e;
            if (over && !tr.p.ended) e = "does not end";
            if (!over) {
                c.add("signal points");
                tr.waiting = stop == 0;
                tr.signalNow(SIGTERM);
            }
            if (e.empty()) e = ended(tr.p, SIGTERM, true);
            c.state(fmt("second %u %d", k, over));
            tr.p.destroy();
            if (!e.empty()) c.fail("%s: %s", e.c_str(), tr.p.text().c_str());
        }, 1);
        // ------------------------------------------------- open connections
        // every pair (thorough: triple) of connection states when the signal comes
        enum { NONE, SILENT, HALFLINE, HEADERS, HALFBODY, BODYNOREAD, IDLE, HALFCLOSED, CONNS };
        const char* CN[] = {"none", "silent", "half a request line", "headers only", "half a body", "answer not read", "idle after an answer",
                            "half closed"};
        const unsigned width = th ? 3 : 2;
        uint64_t combos = 1;
        for (unsigned i = 0; i < width; i++) combos *= CONNS;
        run.forall("connections", combos * 4, [&](Case& c) {
            vk::Digits d(c.index);
            vector<unsigned> s;
            for (unsigned i = 0; i < width; i++) s.push_back(d.next(CONNS));
            for (unsigned i = 1; i < width; i++)
                if (s[i] < s[i - 1]) return;  // the order does not matter
            auto& t = ts[d.next(4)];
            string text = t.name;
            for (auto x : s) text += string(", ") + CN[x];
            c.desc(text);
            prepare(c);
            putIndex(c.scratch, t.disk);
            own(c.scratch);
            int port;
            Proc p;
            string e;
            if (serve(c, c.scratch, t.exe, t.args, &port, &p) != 1) e = "does not serve: " + p.text();
            vector<int> fds;
            string body = query(QA), full = post(body);
            for (auto x : s) {
                if (x == NONE || !e.empty()) continue;
                int f = dialOnce(port);
                if (f < 0) {
                    e = "does not accept a connection";
                    break;
                }
                fds.push_back(f);
                size_t h = full.find("\r\n\r\n") + 4;
                Response r;
                switch (x) {
                    case HALFLINE: sendAll(f, "POST / HT"); break;
                    case HEADERS: sendAll(f, full.substr(0, h)); break;
                    case HALFBODY: sendAll(f, full.substr(0, h + body.size() / 2)); break;
                    case BODYNOREAD: sendAll(f, full); break;
                    case IDLE:
                        if (!sendAll(f, t.exe == "crawlerd" ? "GET /nothing HTTP/1.1\r\nHost: x\r\n\r\n" : full) || !receive(f, &r)) e = "does not answer";
                        break;
                    case HALFCLOSED:
                        sendAll(f, full.substr(0, h + 5));
                        shutdown(f, SHUT_WR);
                        break;
                }
            }
            usleep(20000);
            if (e.empty()) e = stop(p, d.i % 2 ? SIGINT : SIGTERM);
            c.state(text + "|" + e);
            p.destroy();
            for (int f : fds) close(f);
            if (!e.empty()) c.fail("%s: %s", e.c_str(), p.text().c_str());
        }, 1);
        // ---------------------------------------------------- two at a time
        // the request of one connection stops at each of its allocations and
        // lock operations while another one is answered (thorough: also while
        // another one gets to any of its own); both get the answers they get
        // alone, and the server ends with success
        const Target both[] = {ts[0], ts[1], {"mwsd -x on an index", "mwsd", {"-D", "idx", "-x"}, GOOD, true}, ts[2],
                               {"mwsd without harvests", "mwsd", {"-I", "absent"}, NODB, true}};
        auto simultaneous = [&](Case& c, const Target& t, unsigned at, unsigned at2, bool warm, bool other) {
            c.desc(fmt("%s%s, a query stops at event %u while %s query is answered", t.name, warm ? " after a first query" : "", at,
                       other ? "another" : "the same") +
                   (at2 ? fmt(" or gets to its event %u", at2) : string()));
            prepare(c);
            putIndex(c.scratch, t.disk);
            own(c.scratch);
            int port;
            Proc p;
            string ev = c.scratch + "/ev", e;
            for (int tries = 0;; tries++) {
                port = freePort();
                vector<string> a = t.args;
                a.push_back("-p");
                a.push_back(fmt("%d", port));
                p = start(c.scratch, t.exe, a, false,
                          {"LD_PRELOAD=" + shim, fmt("VK_HOLD=%u", at), fmt("VK_HOLD2=%u", at2), fmt("VK_FIRST=%d", warm ? 2 : 1),
                           "VK_EVENTS=" + ev, "MALLOC_PERTURB_=190"});
                c.add("program runs");
                int r = awaitReady(c, p, port);
                if (r == 0 && tries < 3 && p.text().find("MHD_start_daemon") != string::npos) continue;
                if (r != 1) e = "does not serve: " + p.text();
                break;
            }
            const string full = post(query(QA)), full2 = post(query(other ? QC : QA));
            auto ask = [&](const string& text, Response* r) {
                int f = dialOnce(port);
                if (f < 0 || !sendAll(f, text) || !receive(f, r)) e = "a query is not answered";
                if (f >= 0) close(f);
                c.add("queries");
            };
            Response r0, r1, r2, alone1, alone2;
            if (e.empty() && warm) ask(full, &r0);
            int f = -1;
            if (e.empty()) {
                f = dialOnce(port);
                if (f < 0 || !sendAll(f, full)) e = "does not accept a connection";
            }
            for (int i = 0; i < 5000 && e.empty() && access((ev + ".held").c_str(), F_OK) != 0 && access((ev + ".events").c_str(), F_OK) != 0; i++)
                usleep(1000);
            bool was = access((ev + ".held").c_str(), F_OK) == 0;
            if (e.empty()) ask(full2, &r2);
            if (e.empty() && !receive(f, &r1)) e = "the query which was stopped is not answered";
            if (f >= 0) close(f);
            if (e.empty()) ask(full, &alone1);
            if (e.empty()) ask(full2, &alone2);
            if (e.empty() && (r1.status != 200 || r1.body != alone1.body)) e = fmt("the query which was stopped is answered with %d ", r1.status) + r1.body;
            if (e.empty() && (r2.status != 200 || r2.body != alone2.body)) e = fmt("the other query is answered with %d ", r2.status) + r2.body;
            string how = stop(p, SIGTERM);
            if (e.empty() || p.st != 0) e += (e.empty() ? "" : "; ") + how;
            c.state(fmt("two %s %d %d %d", t.name, was, warm, other) + e);
            p.destroy();
            if (!e.empty()) c.fail("%s: %s", e.c_str(), p.text().c_str());
        };
        // target; 0 the same query, 1 the same after a first one, 2 another one
        const unsigned combos2[][2] = {{0, 0}, {1, 0}, {1, 1}, {1, 2}, {2, 0}, {2, 2}, {3, 0}, {3, 2}, {4, 0}, {0, 2}, {0, 1}, {2, 1}, {3, 1}};
        const unsigned nc2 = th ? 13 : 9;
        run.forall("simultaneous queries", nc2 * 240, [&](Case& c) {
            vk::Digits d(c.index);
            auto& w = combos2[d.next(nc2)];
            simultaneous(c, both[w[0]], d.next(240) + 1, 0, w[1] == 1, w[1] == 2);
        }, 1);
        if (th)
            run.forall("simultaneous queries, two stops", 4 * 80 * 80, [&](Case& c) {
                vk::Digits d(c.index);
                auto& t = both[d.next(4)];
                unsigned a = d.next(80) + 1;
                simultaneous(c, t, a, d.next(80) + 1, false, false);
            }, 1);
        // ------------------------------------------------------------ crashes
        // a crash of any thread ends the program, whatever connections are open
        run.forall("crashes", 3 * 2 * 4 * 4, [&](Case& c) {
            vk::Digits d(c.index);
            auto& t = ts[d.next(3)];
            int sig = d.next(2) ? SIGABRT : SIGSEGV;
            unsigned conn = d.next(4);  // none, silent, half a body, two
            unsigned thread = d.next(4);
            c.desc(fmt("%s, signal %d to thread %u, connections %u", t.name, sig, thread, conn));
            prepare(c);
            putIndex(c.scratch, t.disk);
            own(c.scratch);
            int port;
            Proc p;
            string e;
            if (serve(c, c.scratch, t.exe, t.args, &port, &p) != 1) {
                p.destroy();
                return c.fail("does not serve: %s", p.text().c_str());
            }
            vector<int> fds;
            unsigned n = conn == 0 ? 0 : conn == 3 ? 2 : 1;
            for (unsigned i = 0; i < n; i++) {
                fds.push_back(dialOnce(port));
                if (conn >= 2) sendAll(fds.back(), post(query(QA)).substr(0, 150));
            }
            usleep(30000);
            vector<int> tids;
            if (DIR* dd = opendir(fmt("/proc/%d/task", p.pid).c_str())) {
                while (dirent* en = readdir(dd))
                    if (en->d_name[0] != '.') tids.push_back(atoi(en->d_name));
                closedir(dd);
            }
            std::sort(tids.begin(), tids.end());
            if (thread < tids.size()) {
                c.add("signal points");
                syscall(SYS_tgkill, p.pid, tids[thread], sig);
                if (!p.await(15)) e = "neither works nor ends after a crash";
                else if (WIFEXITED(p.st) && WEXITSTATUS(p.st) == 0) e = "ends with success after a crash";
                c.state(fmt("%s %d %u %u %s", t.name, sig, thread, conn, p.ended ? p.how().c_str() : "-"));
            }
            p.destroy();
            for (int f : fds) close(f);
            if (!e.empty()) c.fail("%s: %s", e.c_str(), p.text().c_str());
        }, 1);
    }
    if (!indexed) {
        run.forall("start", 1, [&](Case& c) { c.fail("mws-index did not build the index of h2"); });
    }
    return run.finish();
}
