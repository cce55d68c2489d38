// C26: partial reads and writes never lose, duplicate or truncate data.
#include "mwsh.hpp"
#include <netinet/in.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <netinet/tcp.h>
#include <poll.h>
#include "common/socket/InSocket.hpp"
#include "common/socket/OutSocket.hpp"
#include "common/types/ControlSequence.hpp"
#include "common/utils/util.hpp"
#include "mws/xmlparser/readMwsQuery.hpp"
#include "mws/xmlparser/xmlparser.hpp"
using namespace mwsh;
using vk::Case;

// --- what the operating system does with the next calls on one descriptor
enum Act { FULL, ONE, THREE, INTR, FAIL, END, NACTS };
static const char* ACTN[] = {"all", "1 byte", "3 bytes", "interrupted", "error", "end"};
static int g_fd = -1, g_calls, g_acted;
static size_t g_written;
static vector<int> g_script;
static bool g_after = false;  // once ended or failed, it stays so
static int step(int fd) {
    if (fd != g_fd || fd < 0) return FULL;
    int k = g_calls++;
    if (g_calls > 100000) {
        static const char m[] = "endless loop over reads or writes\n";
        if (write(2, m, sizeof m - 1) < 0) _exit(98);
        abort();
    }
    if (k < (int)g_script.size()) {
        g_acted = k + 1;
        return g_script[k];
    }
    return g_after && !g_script.empty() ? g_script.back() : (int)FULL;
}
#define IO(ret, name, args, call1, callk)                        \
    switch (step(fd)) {                                          \
        case ONE:                                                \
            return n > 1 ? call1 : __real_##name args;           \
        case THREE:                                              \
            return n > 3 ? callk : __real_##name args;           \
        case INTR:                                               \
            errno = EINTR;                                       \
            return -1;                                           \
        case FAIL:                                               \
            errno = EIO;                                         \
            return -1;                                           \
        case END:                                                \
            return 0;                                            \
    }                                                            \
    return __real_##name args;
extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __wrap_read(int fd, void* b, size_t n) { IO(ssize_t, read, (fd, b, n), __real_read(fd, b, 1), __real_read(fd, b, 3)) }
static ssize_t writeStep(int fd, const void* b, size_t n) { IO(ssize_t, write, (fd, b, n), __real_write(fd, b, 1), __real_write(fd, b, 3)) }
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    ssize_t k = writeStep(fd, b, n);
    if (fd == g_fd && k > 0) g_written += k;
    return k;
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { IO(ssize_t, recv, (fd, b, n, f), __real_recv(fd, b, 1, f), __real_recv(fd, b, 3, f)) }
static ssize_t sendStep(int fd, const void* b, size_t n, int f) { IO(ssize_t, send, (fd, b, n, f), __real_send(fd, b, 1, f), __real_send(fd, b, 3, f)) }
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) {
    ssize_t k = sendStep(fd, b, n, f);
    if (fd == g_fd && k > 0) g_written += k;
    return k;
}
}
struct Script {
    Script(int fd, const vector<int>& s, bool after = true) {
        g_script = s;
        g_after = after && !s.empty() && (s.back() == END || s.back() == FAIL);
        g_calls = g_acted = 0;
        g_written = 0;
        g_fd = fd;
    }
    ~Script() { g_fd = -1; }
};
static string show(const vector<int>& s) {
    string o;
    for (int a : s) o += (o.empty() ? "" : ", ") + string(ACTN[a]);
    return o;
}
static bool has(const vector<int>& s, int n, int a) {
    for (int i = 0; i < n && i < (int)s.size(); i++)
        if (s[i] == a) return true;
    return false;
}
// everything that arrives, at least `sure` bytes
static string drain(int fd, size_t sure = 0) {
    string o;
    char b[65536];
    ssize_t k;
    for (int t = 0; o.size() < sure && t < 100; t++) {
        pollfd p = {fd, POLLIN, 0};
        if (poll(&p, 1, 100) > 0 && (k = __real_read(fd, b, std::min(sizeof b, sure - o.size()))) > 0) o.append(b, k);
    }
    fcntl(fd, F_SETFL, O_NONBLOCK);
    while ((k = __real_read(fd, b, sizeof b)) > 0) o.append(b, k);
    fcntl(fd, F_SETFL, 0);
    return o;
}
// scripts of length <= depth; END and FAIL only last
static vector<vector<int>> scripts(int depth) {
    vector<vector<int>> o = {{}}, level = {{}};
    for (int d = 0; d < depth; d++) {
        vector<vector<int>> nx;
        for (auto& s : level)
            for (int a = 0; a < NACTS; a++) {
                if (!s.empty() && (s.back() == END || s.back() == FAIL)) continue;
                vector<int> t = s;
                t.push_back(a);
                nx.push_back(t);
            }
        o.insert(o.end(), nx.begin(), nx.end());
        level = nx;
    }
    return o;
}
// a transfer of `want`, of which `got` arrived, reported as rv (full = everything):
static bool judge(Case& c, const char* what, const string& want, const string& got, ssize_t rv, ssize_t full,
                  const vector<int>& s, bool exact) {
    bool broke = has(s, g_acted, FAIL) || has(s, g_acted, END), intr = has(s, g_acted, INTR);
    c.add("transfers");
    if (want.compare(0, got.size(), got) != 0) {
        c.fail("%s: bytes were lost, repeated or mixed up (%zu arrived)", what, got.size());
        return false;
    }
    if (got.size() == want.size()) {
        // everything went through: success, unless a later fault was met
        if (rv != full && !broke && !intr) {
            c.fail("%s: complete, but %zd is reported", what, rv);
            return false;
        }
        return true;
    }
    if (!broke && !intr) {
        c.fail("%s: only %zu of %zu bytes although nothing failed (reported: %zd)", what, got.size(), want.size(), rv);
        return false;
    }
    if (rv == full) {
        c.fail("%s: only %zu of %zu bytes, but reported as complete", what, got.size(), want.size());
        return false;
    }
    if (has(s, g_acted, FAIL) && rv != -1) {
        c.fail("%s: an error is reported as %zd", what, rv);
        return false;
    }
    if (exact && !has(s, g_acted, FAIL) && !intr && rv != (ssize_t)got.size()) {
        c.fail("%s: ended after %zu bytes, but %zd is reported", what, got.size(), rv);
        return false;
    }
    return true;
}
struct Collect : public mws::parser::HarvestProcessor {
    string all;
    void walk(const mws::types::CmmlToken* t) {
        all += t->getTag() + "#" + t->getTextContent() + "(";
        for (auto* k : t->getChildNodes()) walk(k);
        all += ")";
    }
    int processExpression(const mws::types::CmmlToken* e, const string& u, const uint32_t& id) {
        all += vk::fmt("expr %s %u ", u.c_str(), id);
        walk(e);
        all += "\n";
        return e->getExprSize();
    }
    mws::dbc::CrawlId processData(const string& d) {
        all += "data " + d + "\n";
        return 7;
    }
};
static string parseDoc(Case& c, const string& doc, const vector<int>& s, bool after, int* status) {
    vk::writeFile(c.scratch + "/doc", doc);
    int fd = open((c.scratch + "/doc").c_str(), O_RDONLY);
    Collect col;
    {
        Script sc(fd, s, after);
        auto r = mws::parser::processHarvestFromFd(fd, &col, true);
        *status = r.status;
    }
    close(fd);
    return col.all;
}
// a stdio stream whose underlying reads follow the script
struct Cookie {
    string text;
    size_t pos;
    int fd;
};
static ssize_t cookieRead(void* v, char* b, size_t n) {
    Cookie* k = (Cookie*)v;
    size_t left = k->text.size() - k->pos;
    switch (step(k->fd)) {
        case ONE:
            n = std::min<size_t>(n, 1);
            break;
        case THREE:
            n = std::min<size_t>(n, 3);
            break;
        case INTR:
            errno = EINTR;
            return -1;
        case FAIL:
            errno = EIO;
            return -1;
        case END:
            return 0;
    }
    n = std::min(n, left);
    memcpy(b, k->text.data() + k->pos, n);
    k->pos += n;
    return n;
}
static string tok(const mws::types::CmmlToken* t) {
    string s = t->getTag() + "#" + t->getTextContent() + "(";
    for (auto* k : t->getChildNodes()) s += tok(k);
    return s + ")";
}
static string readQ(const string& text, const vector<int>& s, bool after) {
    Cookie k = {text, 0, 4711};
    cookie_io_functions_t io = {cookieRead, nullptr, nullptr, nullptr};
    FILE* f = fopencookie(&k, "r", io);
    setvbuf(f, nullptr, _IOFBF, 64);
    string o;
    {
        Script sc(4711, s, after);
        std::unique_ptr<mws::types::Query> q(mws::xmlparser::readMwsQuery(f));
        if (!q || q->tokens.empty()) o = "none";
        else {
            o = vk::fmt("%u %u ", q->attrResultMaxSize, q->attrResultLimitMin);
            for (auto* t : q->tokens) o += tok(t) + ";";
        }
    }
    fclose(f);
    return o;
}
static int freePort() {
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l = sizeof a;
    if (bind(s, (sockaddr*)&a, l) || getsockname(s, (sockaddr*)&a, &l)) return -1;
    close(s);
    return ntohs(a.sin_port);
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C26", "model_checking");
    run.declare({"transfers", "documents"});
    run.transitionsCounter = "transfers";
    run.tracesCounter = "transfers";
    run.rule = "state = (component, size, distinct sequence of partial/interrupted/failing/ending system calls); transition = "
               "one real transfer under exactly that sequence, compared with the bytes exchanged";
    run.assumptions = {"an interrupted call may be retried or reported as failure; afterwards calls succeed in full",
                       "the loopback network is there"};
    const bool th = run.thorough;
    mws::parser::initxmlparser();
    signal(SIGPIPE, SIG_IGN);

    vector<vector<int>> S = scripts(th ? 7 : 6);
    // control sequences through a pipe
    run.forall("control sequences", S.size() * 2, [&](Case& c) {
        const vector<int>& s = S[c.index / 2];
        bool sending = c.index % 2;
        int p[2];
        if (pipe(p)) abort();
        ControlSequence cs, in, ref;
        cs.setFormat(DATAFORMAT_JSON);
        c.desc(string(sending ? "sending: " : "receiving: ") + show(s));
        ssize_t full = cs.send(p[1]);
        string bytes = drain(p[0]);
        if (bytes.size() < 2) c.fail("nothing is sent");
        if (sending) {
            ssize_t rv;
            {
                Script sc(p[1], s);
                rv = cs.send(p[1]);
            }
            judge(c, "sending", bytes, drain(p[0]), rv, full, s, true);
        } else {
            if (__real_write(p[1], bytes.data(), bytes.size()) != (ssize_t)bytes.size()) abort();
            ssize_t rv;
            {
                Script sc(p[0], s);
                rv = in.recv(p[0]);
            }
            string rest = drain(p[0]);
            string got = bytes.substr(0, bytes.size() - rest.size());
            if (rest != bytes.substr(got.size())) c.fail("receiving changes the stream");
            if (judge(c, "receiving", bytes, got, rv, full, s, true) && rv == full &&
                (!in.isParsed() || in.getFormat() != DATAFORMAT_JSON))
                c.fail("the received control sequence differs from the sent one");
        }
        close(p[0]);
        close(p[1]);
        c.state(c.description);
    });
    // sockets over the loopback network
    {
        const vector<int> sizes = {0, 1, 2, 3, 4, 7, 10};
        vector<vector<int>> T = scripts(th ? 5 : 4);
        run.forall("sockets", T.size() * sizes.size(), [&](Case& c) {
            static std::unique_ptr<InSocket> srv;
            static std::unique_ptr<OutSocket> cli, acc;
            const vector<int>& s = T[c.index / sizes.size()];
            int n = sizes[c.index % sizes.size()];
            c.desc(vk::fmt("%d bytes: ", n) + show(s));
            if (!cli) {
                for (int t = 0; t < 20 && !cli; t++) {
                    int port = freePort();
                    srv.reset(new InSocket(port));
                    if (srv->enable() != 0) continue;
                    cli.reset(new OutSocket("127.0.0.1", port));
                    if (cli->enable() != 0) {
                        cli.reset();
                        continue;
                    }
                    acc.reset(srv->accept());
                    if (!acc) abort();
                    int on = 1;
                    setsockopt(cli->getFd(), IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
                    setsockopt(acc->getFd(), IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
                }
                if (!cli) {
                    c.fail("no connection over the loopback network");
                    return;
                }
            }
            string data;
            for (int i = 0; i < n; i++) data += (char)('A' + i);
            for (int dir = 0; dir < 2 && !c.failed; dir++) {
                OutSocket *a = dir ? acc.get() : cli.get(), *b = dir ? cli.get() : acc.get();
                ssize_t rv;
                {
                    Script sc(a->getFd(), s);
                    rv = a->write(data.data(), n);
                }
                if (!judge(c, "writing", data, drain(b->getFd(), g_written), rv, n, s, true)) return;
                if (n && __real_write(a->getFd(), data.data(), n) != n) abort();
                string buf(n + 1, '#');
                {
                    Script sc(b->getFd(), s);
                    rv = b->read(&buf[0], n);
                }
                // what read() took is gone, the rest is still to come: a marker ends it
                char end = '$';
                if (__real_write(a->getFd(), &end, 1) != 1) abort();
                string rest;
                for (int t = 0; t < 100 && (rest.empty() || rest.back() != '$'); t++) rest += drain(b->getFd(), 1);
                if (!rest.empty()) rest.resize(rest.size() - 1);
                if (rest.size() > data.size() || rest != data.substr(data.size() - rest.size())) {
                    c.fail("reading changes the stream");
                    return;
                }
                string got = data.substr(0, data.size() - rest.size());
                if (!judge(c, "reading", data, got, rv, n, s, true)) return;
                if (rv >= 0 && buf.substr(0, rv) != data.substr(0, rv)) {
                    c.fail("%zd bytes are reported as read, but they are others", rv);
                    return;
                }
                if (buf[n] != '#') {
                    c.fail("read beyond the buffer");
                    return;
                }
            }
            c.state(c.description);
        });
    }
    // whole files
    {
        const vector<int> sizes = {0, 1, 2, 3, 4, 6, 9};
        vector<vector<int>> T = scripts(th ? 6 : 5);
        run.forall("file contents", T.size() * sizes.size(), [&](Case& c) {
            const vector<int>& s = T[c.index / sizes.size()];
            int n = sizes[c.index % sizes.size()];
            string data;
            for (int i = 0; i < n; i++) data += (char)('a' + i);
            if (n > 2) data[1] = '\0';
            string f = c.scratch + "/f";
            vk::writeFile(f, data);
            c.desc(vk::fmt("%d bytes: ", n) + show(s));
            int fd = open(f.c_str(), O_RDONLY);  // the descriptor the next open gets
            close(fd);
            string got;
            bool threw = false;
            {
                Script sc(fd, s);
                try {
                    got = common::utils::getFileContents(f);
                } catch (const std::exception& e) {
                    threw = true;
                }
            }
            c.add("transfers");
            bool excuse = has(s, g_acted, FAIL) || has(s, g_acted, END) || has(s, g_acted, INTR);
            if (threw ? !excuse : got != data)
                c.fail("%s", threw ? "fails although every call succeeded" : vk::fmt("%zu bytes returned instead of %zu, or others", got.size(), data.size()).c_str());
            c.state(c.description);
        });
        run.forall("large files", th ? 60 : 24, [&](Case& c) {
            string data;
            unsigned n = 1000 + c.index * c.index * 1777;
            for (unsigned i = 0; i < n; i++) data += (char)(i * 31 + i / 251);
            string f = c.scratch + "/f";
            vk::writeFile(f, data);
            c.desc(vk::fmt("%u bytes", n));
            c.add("transfers");
            try {
                if (common::utils::getFileContents(f) != data) c.fail("other contents");
            } catch (const std::exception& e) {
                c.fail("%s", e.what());
            }
            c.state(c.description);
        });
        run.forall("missing files", 3, [&](Case& c) {
            string f = c.scratch + (c.index == 0 ? "/no" : c.index == 1 ? "/no/such" : "");
            c.desc(f);
            c.add("transfers");
            try {
                common::utils::getFileContents(f);
                c.fail("reading %s succeeds", c.index == 2 ? "a directory" : "a missing file");
            } catch (const std::exception& e) {
            }
        });
    }
    // harvests and queries: every position at which reading can be cut, fail or be interrupted
    {
        string doc = string("<?xml version=\"1.0\"?>\n<mws:harvest xmlns:mws=\"http://search.mathweb.org/ns\" xmlns:m=\"http://www.w3.org/1998/Math/MathML\">"
                     "<mws:data mws:data_id=\"1\">d\xc3\xa4</mws:data><mws:expr url=\"a\" mws:data_id=\"1\"><m:apply><m:plus/><m:ci>x</m:ci></m:apply></mws:expr>") +
                     "<mws:expr url=\"b\"><m:cn>12</m:cn></mws:expr></mws:harvest>\n";
        string q = "<?xml version=\"1.0\"?><mws:query xmlns:mws=\"http://search.mathweb.org/ns\" xmlns:m=\"http://www.w3.org/1998/Math/MathML\" limitmin=\"3\" answsize=\"5\"><mws:expr><m:apply><m:plus/><mws:qvar>x</mws:qvar><m:ci>\xce\xb1</m:ci></m:apply></mws:expr></mws:query>";
        const int PK[] = {ONE, THREE};
        run.forall("harvest reading", doc.size() * 2 * 4, [&](Case& c) {
            vk::Digits d(c.index);
            int piece = PK[d.next(2)], last = (int)d.next(4);
            static const int L[] = {FULL, INTR, FAIL, END};
            last = L[last];
            size_t k = d.next(doc.size());
            vector<int> s(k, piece);
            s.push_back(last);
            c.desc(vk::fmt("%zu pieces of %s, then: %s", k, ACTN[piece], ACTN[last]));
            c.add("documents");
            c.add("transfers");
            int st, whole, cutst;
            string ref = parseDoc(c, doc, {}, false, &whole);
            string got = parseDoc(c, doc, s, true, &st);
            bool met = g_acted == (int)s.size();
            // what was read before the fault
            size_t before = std::min(doc.size(), k * (piece == ONE ? 1 : 3));
            string cut = parseDoc(c, doc.substr(0, before), {}, false, &cutst);
            if (whole != 0 || ref.empty()) c.fail("the undisturbed document is not accepted");
            bool asWhole = got == ref && st == 0;
            bool asCut = got == cut && (st != 0 || cutst == 0);  // only the final newline is missing
            if (last == FULL || !met ? !asWhole : last == INTR ? !asWhole && !asCut : !asCut && !(before == doc.size() && got == ref))
                c.fail("status %d, handed over:\n%sundisturbed:\n%sup to the fault:\n%s", st, got.c_str(), ref.c_str(), cut.c_str());
            c.state(c.description);
        });
        run.forall("query reading", q.size() * 2 * 4, [&](Case& c) {
            vk::Digits d(c.index);
            int piece = PK[d.next(2)], last = (int)d.next(4);
            static const int L[] = {FULL, INTR, FAIL, END};
            last = L[last];
            size_t k = d.next(q.size());
            vector<int> s(k, piece);
            s.push_back(last);
            c.desc(vk::fmt("%zu pieces of %s, then: %s", k, ACTN[piece], ACTN[last]));
            c.add("documents");
            c.add("transfers");
            string ref = readQ(q, {}, false), got = readQ(q, s, true);
            bool met = g_acted == (int)s.size();
            size_t before = std::min(q.size(), k * (piece == ONE ? 1 : 3));
            if (ref == "none") c.fail("the undisturbed query is not accepted");
            bool ok = got == ref || (met && last != FULL && got == "none");
            if (met && (last == END || last == FAIL) && before < q.size() && got != "none") ok = false;
            if (!ok) c.fail("read as %s, undisturbed: %s", got.c_str(), ref.c_str());
            c.state(c.description);
        });
    }
    return run.finish();
}
