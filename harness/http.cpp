// C10: every HTTP request gets the one right answer, however it is delivered.
//
// The HTTP library is replaced at link time: the handler the daemon registers is
// driven directly with every delivery within the bounds.  The last family runs
// the same daemon on the real library over loopback sockets and checks that the
// real library calls the handler by the protocol the replacement uses.
#include "mwsh.hpp"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <thread>
#include <mutex>
#include <microhttpd.h>
#include <json.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include "mws/daemon/Daemon.hpp"
#include "mws/xmlparser/xmlparser.hpp"
#include "mws/daemon/SchemaQueryHandler.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace mwsh;
using vk::Case;

// ------------------------------------------------- the replaced HTTP library
struct MHD_Connection { int dummy; };
struct MHD_Response {
    string body;
    std::multimap<string, string> headers;
    int refs;
    void* toFree;
};
namespace {
bool realMode = false;
struct Registered {
    MHD_AccessHandlerCallback dh = nullptr;
    void* cls = nullptr;
    MHD_RequestCompletedCallback done = nullptr;
    void* doneCls = nullptr;
} reg;
struct Sent {
    unsigned status;
    string body;
    std::multimap<string, string> headers;
};
std::map<MHD_Connection*, vector<Sent>> sent;
long liveResponses = 0;
// protocol observed from the real library
std::mutex protoLock;
std::map<void*, int> protoState;  // connection -> state
vector<string> protoErrors;
uint64_t protoCalls = 0;

template <class F> F real(const char* n) {
    void* p = dlsym(RTLD_NEXT, n);
    if (!p) abort();
    return (F)p;
}
typedef MHD_Result (*DH)(void*, MHD_Connection*, const char*, const char*, const char*,
                         const char*, size_t*, void**);
MHD_Result watchDh(void*, MHD_Connection* c, const char* url, const char* method,
                   const char* ver, const char* up, size_t* size, void** ptr) {
    {
        std::lock_guard<std::mutex> g(protoLock);
        protoCalls++;
        int& s = protoState[c];
        if (s == 0 && *size != 0) protoErrors.push_back("data in the first call");
        if (s == 0 && *ptr != nullptr) protoErrors.push_back("context set in the first call");
        s = *size ? 2 : s == 0 ? 1 : 3;
    }
    return reg.dh(reg.cls, c, url, method, ver, up, size, ptr);
}
void watchDone(void*, MHD_Connection* c, void** ptr, MHD_RequestTerminationCode code) {
    {
        std::lock_guard<std::mutex> g(protoLock);
        protoState.erase(c);
    }
    if (reg.done) reg.done(reg.doneCls, c, ptr, code);
}
}  // namespace

extern "C" {
MHD_Daemon* MHD_start_daemon(unsigned flags, uint16_t port, MHD_AcceptPolicyCallback apc,
                             void* apcCls, MHD_AccessHandlerCallback dh, void* cls, ...) {
    reg = Registered();
    reg.dh = dh;
    reg.cls = cls;
    vector<MHD_OptionItem> items;
    va_list ap;
    va_start(ap, cls);
    bool more = true;
    while (more) {
        int o = va_arg(ap, int);
        MHD_OptionItem it = {(MHD_OPTION)o, 0, nullptr};
        switch (o) {
        case MHD_OPTION_END: more = false; break;
        case MHD_OPTION_NOTIFY_COMPLETED:
            reg.done = va_arg(ap, MHD_RequestCompletedCallback);
            reg.doneCls = va_arg(ap, void*);
            break;
        case MHD_OPTION_CONNECTION_LIMIT:
        case MHD_OPTION_CONNECTION_TIMEOUT:
        case MHD_OPTION_PER_IP_CONNECTION_LIMIT:
        case MHD_OPTION_THREAD_POOL_SIZE:
        case MHD_OPTION_LISTENING_ADDRESS_REUSE:
            it.value = va_arg(ap, unsigned);
            items.push_back(it);
            break;
        case MHD_OPTION_CONNECTION_MEMORY_LIMIT:
        case MHD_OPTION_CONNECTION_MEMORY_INCREMENT:
        case MHD_OPTION_THREAD_STACK_SIZE:
            it.value = va_arg(ap, size_t);
            items.push_back(it);
            break;
        default: more = false;  // nothing known about its arguments
        }
    }
    va_end(ap);
    if (!realMode) {
        static int token;
        return (MHD_Daemon*)&token;
    }
    items.push_back({MHD_OPTION_NOTIFY_COMPLETED, (intptr_t)watchDone, nullptr});
    items.push_back({MHD_OPTION_END, 0, nullptr});
    typedef MHD_Daemon* (*F)(unsigned, uint16_t, MHD_AcceptPolicyCallback, void*,
                             MHD_AccessHandlerCallback, void*, ...);
    return real<F>("MHD_start_daemon")(flags, port, apc, apcCls,
                                       (MHD_AccessHandlerCallback)watchDh, nullptr,
                                       MHD_OPTION_ARRAY, items.data(), MHD_OPTION_END);
}
void MHD_stop_daemon(MHD_Daemon* d) {
    if (realMode) real<void (*)(MHD_Daemon*)>("MHD_stop_daemon")(d);
}
static MHD_Response* newResponse(size_t n, void* data, bool mustFree) {
    MHD_Response* r = new MHD_Response;
    r->body.assign((const char*)data, n);
    r->refs = 1;
    r->toFree = mustFree ? data : nullptr;
    liveResponses++;
    return r;
}
MHD_Response* MHD_create_response_from_buffer(size_t n, void* d, MHD_ResponseMemoryMode m) {
    if (realMode)
        return real<MHD_Response* (*)(size_t, void*, MHD_ResponseMemoryMode)>(
            "MHD_create_response_from_buffer")(n, d, m);
    return newResponse(n, d, m == MHD_RESPMEM_MUST_FREE);
}
MHD_Response* MHD_create_response_from_data(size_t n, void* d, int mustFree, int) {
    if (realMode)
        return real<MHD_Response* (*)(size_t, void*, int, int)>(
            "MHD_create_response_from_data")(n, d, mustFree, 0);
    return newResponse(n, d, mustFree);
}
MHD_Response* MHD_create_response_from_buffer_static(size_t n, const void* d) {
    if (realMode)
        return real<MHD_Response* (*)(size_t, const void*)>(
            "MHD_create_response_from_buffer_static")(n, d);
    return newResponse(n, (void*)d, false);
}
MHD_Response* MHD_create_response_from_buffer_copy(size_t n, const void* d) {
    if (realMode)
        return real<MHD_Response* (*)(size_t, const void*)>(
            "MHD_create_response_from_buffer_copy")(n, d);
    return newResponse(n, (void*)d, false);
}
MHD_Result MHD_add_response_header(MHD_Response* r, const char* k, const char* v) {
    if (realMode)
        return real<MHD_Result (*)(MHD_Response*, const char*, const char*)>(
            "MHD_add_response_header")(r, k, v);
    if (!r || !k || !v) return MHD_NO;
    r->headers.insert({k, v});
    return MHD_YES;
}
MHD_Result MHD_queue_response(MHD_Connection* c, unsigned status, MHD_Response* r) {
    if (realMode)
        return real<MHD_Result (*)(MHD_Connection*, unsigned, MHD_Response*)>(
            "MHD_queue_response")(c, status, r);
    if (!c || !r) return MHD_NO;
    // the real library refuses a second response to the same request
    if (!sent[c].empty()) {
        sent[c].push_back({0, "second response", {}});
        return MHD_NO;
    }
    sent[c].push_back({status, r->body, r->headers});
    return MHD_YES;
}
void MHD_destroy_response(MHD_Response* r) {
    if (realMode) {
        real<void (*)(MHD_Response*)>("MHD_destroy_response")(r);
        return;
    }
    if (--r->refs == 0) {
        free(r->toFree);
        delete r;
        liveResponses--;
    }
}
}

// ------------------------------------------------------------- the requests
struct Req {
    string name, method, url, body;
    int status;        // what the request calls for
    string type;       // expected content type prefix when 200 on a query
    string format;     // xml, json, ids, sjson, sxml
    int total;         // expected total
    vector<Hit> hits;  // expected hits
};
static string ctypeOf(const string& f) {
    return f == "xml" || f == "sxml" ? "application/xml" : "application/json";
}
static Harvest theHarvest() {
    Harvest h;
    h.datas = {{"1", "data &amp; <b>one</b>"}};
    h.exprs = {{"a", "1", app({ci("f"), ci("x")})},
               {"b", "", app({ci("f"), ci("y")})},
               {"c", "", app({ci("f"), ci("x")})}};
    return h;
}
static string slurp(xmlNode* n, const char* a) {
    xmlChar* v = xmlGetProp(n, BAD_CAST a);
    string s = v ? (char*)v : "<none>";
    xmlFree(v);
    return s;
}
// decodes a 200 answer and compares it with what the request calls for
static string checkAnswer(const Req& r, const Sent& s) {
    auto ct = s.headers.find("Content-Type");
    if (ct == s.headers.end() || s.headers.count("Content-Type") != 1)
        return "no (or several) Content-Type";
    if (ct->second.compare(0, ctypeOf(r.format).size(), ctypeOf(r.format)) != 0)
        return "content type " + ct->second;
    if (r.format == "xml" || r.format == "sxml") {
        xmlDoc* d = xmlReadMemory(s.body.data(), s.body.size(), "a", nullptr,
                                  XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
        if (!d) return "malformed XML answer";
        xmlNode* root = xmlDocGetRootElement(d);
        string err;
        if (r.format == "xml" && slurp(root, "total") != std::to_string(r.total))
            err = "total " + slurp(root, "total");
        vector<string> got, want;
        if (r.format == "xml") {
            if (string((char*)root->name) != "answset") err = "not an answer set";
            for (xmlNode* n = root->children; n; n = n->next)
                if (n->type == XML_ELEMENT_NODE)
                    got.push_back(slurp(n, "uri") + "@" + slurp(n, "xpath"));
            for (auto& h : r.hits) want.push_back(h.url + "@" + h.xpath);
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
            if (got != want) err = "hits differ";
        } else if (string((char*)root->name) != "schemata") {
            err = "not a list of schemata";
        }
        xmlFreeDoc(d);
        return err;
    }
    enum json_tokener_error je;
    json_object* o = json_tokener_parse_verbose(s.body.c_str(), &je);
    if (!o) return "malformed JSON answer";
    string err;
    json_object *t = nullptr, *l = nullptr;
    if (!json_object_object_get_ex(o, "total", &t) ||
        (r.format != "sjson" && json_object_get_int(t) != r.total))
        err = "total differs";
    json_object* tm = nullptr;
    if (r.format == "json" && (!json_object_object_get_ex(o, "time", &tm) || json_object_get_int64(tm) < 0 ||
                               json_object_get_int64(tm) > 3600000))
        err = "the time is not the duration of the search";
    if (r.format == "json") {
        vector<string> got, want;
        if (!json_object_object_get_ex(o, "hits", &l)) err = "no hits";
        else
            for (size_t i = 0; i < json_object_array_length(l); i++) {
                json_object *m, *u, *x;
                json_object_object_get_ex(json_object_array_get_idx(l, i), "math_ids", &m);
                m = json_object_array_get_idx(m, 0);
                json_object_object_get_ex(m, "url", &u);
                json_object_object_get_ex(m, "xpath", &x);
                got.push_back(string(json_object_get_string(u)) + "@" + json_object_get_string(x));
            }
        for (auto& h : r.hits) want.push_back(h.url + "@" + h.xpath);
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if (got != want) err = "hits differ";
    } else if (r.format == "ids") {
        if (!json_object_object_get_ex(o, "ids", &l) ||
            (int)json_object_array_length(l) != r.total)
            err = "ids differ";
    } else if (!json_object_object_get_ex(o, "schemata", &l)) {
        err = "no schemata";
    }
    json_object_put(o);
    return err;
}
// whether the values of a header name something, in any case
static bool names(const Sent& s, const char* header, const char* what) {
    for (auto& h : s.headers) {
        if (strcasecmp(h.first.c_str(), header)) continue;
        string v;
        for (char ch : h.second) v += ch == ',' || ch == ' ' ? ' ' : (char)tolower(ch);
        if ((" " + v + " ").find(string(" ") + what + " ") != string::npos) return true;
    }
    return false;
}
static string judge(const Req& r, const vector<Sent>& v) {
    if (v.size() != 1) return vk::fmt("%zu responses", v.size());
    const Sent& s = v[0];
    if ((int)s.status != r.status)
        return vk::fmt("status %u instead of %d", s.status, r.status);
    if (s.headers.count("Content-Type") != 1) return "no (or several) Content-Type";
    // pages of other sites may send queries and read the answers
    if ((r.method == "OPTIONS" || !r.format.empty()) && r.status == 200 && !names(s, "Access-Control-Allow-Origin", "*"))
        return "other sites may not use it";
    if (r.method == "OPTIONS") {
        if (!names(s, "Access-Control-Allow-Methods", "post")) return "other sites may not send queries";
        if (!names(s, "Access-Control-Allow-Headers", "content-type")) return "other sites may not send queries as XML";
    }
    if (r.status == 200 && !r.format.empty()) {
        if (!names(s, "Cache-Control", "no-cache") && !names(s, "Cache-Control", "no-store")) return "the answer may be cached";
        return checkAnswer(r, s);
    }
    if (r.status == 405) {
        if (!names(s, "Allow", "post") || !names(s, "Allow", "options") || names(s, "Allow", r.method == "GET" ? "get" : "?"))
            return "405 with a wrong Allow";
    }
    return "";
}

static string Q(const string& attrs, const string& inner) {
    return string("<mws:query") + NS() + attrs + ">" + inner + "</mws:query>";
}
static string E(const T& t) { return "<mws:expr>" + xml(t) + "</mws:expr>"; }

// bodies that are well-formed queries with at least one expression
static vector<Req> goodBodies(bool schema) {
    vector<Req> v;
    Harvest h = theHarvest();
    T p = app({ci("f"), qv("a")});
    string e = E(p);
    auto add = [&](const string& n, const string& body, const string& fmt, T pat) {
        Req r;
        r.name = n;
        r.method = "POST";
        r.url = "/";
        r.body = body;
        r.status = 200;
        r.format = fmt;
        if (!schema) {
            auto all = expected(h, pat);
            if (fmt == "ids") {
                std::set<string> d;
                for (auto& ex : h.exprs)
                    for (auto& s : subterms(ex.t))
                        if (matches(pat, *s.t)) d.insert(key(*s.t));
                r.total = d.size();
            } else {
                r.total = all.size();
                r.hits = all;
            }
        } else {
            r.total = 0;
        }
        v.push_back(r);
    };
    string dx = schema ? "sjson" : "xml", fj = schema ? "sjson" : "json", fx = schema ? "sxml" : "xml";
    add("default format", Q("", e), dx, p);
    add("json", Q(" output=\"json\"", e), fj, p);
    add("xml", Q(" output=\"xml\"", e), fx, p);
    add("ids", Q(" output=\"mws-ids\"", e), schema ? dx : "ids", p);
    add("json, no match", Q(" output=\"json\"", E(ci("nowhere"))), fj, ci("nowhere"));
    add("unknown format", Q(" output=\"csv\"", e), dx, p);
    add("declaration, no match", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + Q("", E(ci("nowhere"))) + "\n<!-- end -->\n", dx, ci("nowhere"));
    add("two expressions, unknown elements", Q(" x=\"1\"", "<u><mws:expr/></u>" + E(ci("x")) + E(ci("y")) + "<u/>"), dx, ci("x"));
    add("entities", Q("", "<mws:expr><m:ci>&#120;</m:ci></mws:expr>"), dx, ci("x"));
    if (schema) {
        add("schema options", Q(" schema_depth=\"1\" cutoff_mode=\"R\" answsize=\"2\"", e + E(ci("x")) + E(ci("x"))), "sjson", p);
    } else {
        add("limits", Q(" limitmin=\"0\" answsize=\"30\" totalreq=\"true\"", e), dx, p);
    }
    return v;
}
// bodies which are not
static vector<Req> badBodies() {
    string good = Q("", E(app({ci("f"), qv("a")})));
    vector<pair<string, string>> b = {
        {"empty", ""},
        {"blank", " \n\t "},
        {"text", "hello"},
        {"no expression", Q("", "")},
        {"empty expression", Q("", "<mws:expr/>")},
        {"blank expression", Q("", "<mws:expr>  </mws:expr>")},
        {"text expression", Q("", "<mws:expr>x</mws:expr>")},
        {"other root", "<mws:harvest" + string(NS()) + ">" + E(ci("x")) + "</mws:harvest>"},
        {"expression as root", "<mws:expr" + string(NS()) + "><m:ci>x</m:ci></mws:expr>"},
        {"nested query", "<r" + string(NS()) + ">" + Q("", E(ci("x"))) + "</r>"},
        {"trailing text", good + "x"},
        {"trailing element", good + "<x/>"},
        {"two queries", good + good},
        {"leading text", "x" + good},
        {"leading blank before declaration", " <?xml version=\"1.0\"?>" + good},
        {"mismatched", Q("", "<mws:expr><m:ci>x</m:cn></mws:expr>")},
        {"error after a complete expression", Q("", E(ci("x")) + "</b>")},
        {"error inside second expression", Q("", E(ci("x")) + "<mws:expr><m:ci>&#x;</m:ci></mws:expr>")},
        {"undefined entity", Q("", "<mws:expr><m:ci>&nope;</m:ci></mws:expr>")},
        {"undefined entity in attribute", Q(" x=\"&nope;\"", E(ci("x")))},
        {"duplicate attribute", Q(" x=\"1\" x=\"2\"", E(ci("x")))},
        {"unquoted attribute", Q(" x=1", E(ci("x")))},
        {"control character", Q("", string("<mws:expr><m:ci>x\x01</m:ci></mws:expr>"))},
        {"zero byte", Q("", string("<mws:expr><m:ci>x\0y</m:ci></mws:expr>", 38))},
        {"leading zero byte", string("\0", 1) + good},
        {"invalid utf-8", Q("", "<mws:expr><m:ci>\xc3(</m:ci></mws:expr>")},
        {"less-than in attribute", Q(" x=\"<\"", E(ci("x")))},
        {"unknown encoding", "<?xml version=\"1.0\" encoding=\"nope\"?>" + good},
        {"only a declaration", "<?xml version=\"1.0\"?>"},
        {"only a comment", "<!-- c -->"},
        {"unclosed comment", good + "<!-- "},
        {"unclosed cdata", Q("", "<mws:expr><m:ci><![CDATA[x</m:ci></mws:expr>")},
    };
    vector<Req> v;
    for (auto& x : b) v.push_back({x.first, "POST", "/", x.second, 400, "", "", 0, {}});
    return v;
}
static vector<Req> otherRequests() {
    vector<Req> v;
    string q = Q("", E(ci("x")));
    for (const char* url : {"/", "/other", "/?x=1", "", "//"})
        for (const char* m : {"OPTIONS", "GET", "HEAD", "PUT", "DELETE", "PATCH", "TRACE", "post", "POSTX", "get"}) {
            int st = !strcmp(m, "OPTIONS") ? 200
                     : !strcmp(m, "GET") && !strcmp(url, "/") ? 200 : 405;
            v.push_back({vk::fmt("%s %s", m, url), m, url, "", st, "", "", 0, {}});
            v.push_back({vk::fmt("%s %s with a body", m, url), m, url, q, st, "", "", 0, {}});
        }
    return v;
}

// -------------------------------------------------------------- deliveries
// One request on its way.  step() makes the next call of the handler, as the
// library would: a first call without data, one call per piece, a last call.
struct Delivery {
    const Req* r;
    vector<string> pieces;
    int abortAfter = -1;  // connection lost after that many calls
    MHD_Connection con;
    void* ptr = nullptr;
    size_t calls = 0;
    bool over = false;
    string error;
    Delivery(const Req* r, vector<string> p) : r(r), pieces(std::move(p)) {}
    ~Delivery() { sent.erase(&con); }
    void finish(MHD_RequestTerminationCode code) {
        if (reg.done) reg.done(reg.doneCls, &con, &ptr, code);
        over = true;
    }
    void step() {
        if (over) return;
        if (abortAfter >= 0 && (int)calls >= abortAfter) {
            finish(MHD_REQUEST_TERMINATED_CLIENT_ABORT);
            return;
        }
        DH dh = (DH)reg.dh;
        size_t k = calls++;
        bool data = k > 0 && k <= pieces.size();
        string buf = data ? pieces[k - 1] : "";
        while (true) {
            // an exact heap copy: reading beyond the piece is noticed
            char* up = data ? (char*)malloc(buf.size()) : nullptr;
            if (data) memcpy(up, buf.data(), buf.size());
            size_t n = buf.size(), n0 = n;
            int ret = dh(reg.cls, &con, r->url.c_str(), r->method.c_str(), "HTTP/1.1", up, &n, &ptr);
            free(up);
            bool answered = sent.count(&con) && !sent[&con].empty();
            if (ret != MHD_YES) {
                error = "the handler closed the connection";
                finish(MHD_REQUEST_TERMINATED_WITH_ERROR);
                return;
            }
            if (answered && (k == 0 || k > pieces.size())) {
                finish(MHD_REQUEST_TERMINATED_COMPLETED_OK);
                return;
            }
            if (answered) {
                error = "response queued while the body arrives";
                finish(MHD_REQUEST_TERMINATED_WITH_ERROR);
                return;
            }
            if (!data) {
                if (k > pieces.size()) {
                    error = "no response";
                    finish(MHD_REQUEST_TERMINATED_WITH_ERROR);
                }
                return;
            }
            if (n > n0) {
                error = "upload size grew";
                finish(MHD_REQUEST_TERMINATED_WITH_ERROR);
                return;
            }
            if (n == 0) return;
            if (n == n0) {
                error = "no progress on the body";
                finish(MHD_REQUEST_TERMINATED_WITH_ERROR);
                return;
            }
            buf = buf.substr(n0 - n);  // offered again
        }
    }
    size_t maxCalls() const { return abortAfter >= 0 ? abortAfter + 1 : pieces.size() + 2; }
    string verdict() {
        if (abortAfter >= 0 && (size_t)abortAfter < pieces.size() + 2) {
            if (r->method != "POST") return "";
            return sent.count(&con) && !sent[&con].empty() ? "answer to an aborted request" : "";
        }
        if (!error.empty()) return error;
        return judge(*r, sent[&con]);
    }
};
static vector<string> cut(const string& b, const vector<size_t>& at) {
    vector<string> v;
    size_t p = 0;
    for (size_t a : at) {
        if (a > p) v.push_back(b.substr(p, a - p));
        p = std::max(p, a);
    }
    if (p < b.size()) v.push_back(b.substr(p));
    return v;
}
static string deliver(const Req& r, vector<string> pieces) {
    Delivery d(&r, std::move(pieces));
    for (size_t i = 0; i < d.maxCalls() && !d.over; i++) d.step();
    return d.verdict();
}

// ---------------------------------------------------------------- handlers
struct Stub : mws::daemon::QueryHandler {
    int mode;
    explicit Stub(int m) : mode(m) {}
    mws::GenericAnswer* handleQuery(mws::types::Query*) {
        if (mode == 0) return nullptr;
        if (mode == 1) throw std::runtime_error("No data corresponding to crawlId = 1");
        throw std::bad_alloc();
    }
};
enum Kind { MEM, DISK, SCHEMA, KINDS };
static const char* kindName[] = {"memory", "disk", "schema"};
static std::unique_ptr<mws::daemon::QueryHandler> makeHandler(const string& dir, Kind k) {
    if (k == SCHEMA)
        return std::unique_ptr<mws::daemon::QueryHandler>(new mws::daemon::SchemaQueryHandler(
            mws::index::ExpressionEncoder::Config()));
    if (k == MEM) return memHandler(dir + "/h");
    return idxHandler(dir + "/idx");
}
// one daemon of every kind per worker process
static mws::daemon::Daemon* daemonOf(Case& c, Kind k) {
    static std::map<int, std::pair<mws::daemon::Daemon*, Registered>> m;
    auto it = m.find(k);
    if (it == m.end()) {
        string dir = c.scratch + "/d" + std::to_string(k);
        freshDir(dir);
        freshDir(dir + "/h");
        vk::writeFile(dir + "/h/a.harvest", harvestXml(theHarvest()));
        if (k == DISK && buildIndex(dir + "/h", dir + "/idx") != 0) abort();
        realMode = false;
        auto d = new mws::daemon::Daemon(makeHandler(dir, k).release());
        it = m.insert({k, {d, reg}}).first;
    }
    reg = it->second.second;
    return it->second.first;
}

// ------------------------------------------------------------ real sockets
static int dial(int port) {
    for (int t = 0; t < 200; t++) {
        int s = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (connect(s, (sockaddr*)&a, sizeof a) == 0) {
            int one = 1;
            setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
            timeval tv = {20, 0};
            setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
            return s;
        }
        close(s);
        usleep(20000);
    }
    return -1;
}
static bool sendAll(int s, const string& d) {
    size_t p = 0;
    while (p < d.size()) {
        ssize_t n = send(s, d.data() + p, d.size() - p, MSG_NOSIGNAL);
        if (n <= 0) return false;
        p += n;
    }
    return true;
}
// reads one response; returns false on a broken one
static bool receive(int s, bool head, Sent* out) {
    string d;
    char b[4096];
    size_t hdr;
    while ((hdr = d.find("\r\n\r\n")) == string::npos) {
        ssize_t n = recv(s, b, sizeof b, 0);
        if (n <= 0) return false;
        d.append(b, n);
    }
    out->status = atoi(d.c_str() + 9);
    size_t p = d.find("\r\n") + 2, len = 0;
    while (p < hdr) {
        size_t e = d.find("\r\n", p), c = d.find(": ", p);
        string k = d.substr(p, c - p), v = d.substr(c + 2, e - c - 2);
        out->headers.insert({k, v});
        if (k == "Content-Length") len = atoi(v.c_str());
        p = e + 2;
    }
    d.erase(0, hdr + 4);
    if (head) len = 0;
    while (d.size() < len) {
        ssize_t n = recv(s, b, sizeof b, 0);
        if (n <= 0) return false;
        d.append(b, n);
    }
    out->body = d;
    return d.size() == len;
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C10", "model_checking");
    run.declare({"deliveries", "handler_calls", "interleavings", "real_requests", "real_calls"});
    run.transitionsCounter = "handler_calls";
    run.tracesCounter = "real_requests";
    run.rule = "every body and method of the alphabet, every way to cut each body into up to 3 pieces "
               "(and into single bytes), every abort point, and every interleaving of the handler calls "
               "of concurrent requests is run on the registered handler";
    run.caseTimeout = 120;
    mws::parser::initxmlparser();

    // ---- methods, urls and bodies delivered in one piece, on every handler
    run.forall("requests", KINDS, [&](Case& c) {
        Kind k = (Kind)c.index;
        daemonOf(c, k);
        vector<Req> v = goodBodies(k == SCHEMA);
        for (auto& r : goodBodies(k == SCHEMA)) {  // any url takes queries
            Req x = r;
            x.url = "/other";
            v.push_back(x);
        }
        for (auto& r : badBodies()) v.push_back(r);
        for (auto& r : otherRequests()) v.push_back(r);
        for (int round = 0; round < 2; round++)
            for (auto& r : v) {
                c.desc(vk::fmt("%s handler, %s %s: %s [%s]", kindName[k], r.method.c_str(),
                               r.url.c_str(), r.name.c_str(), r.body.c_str()));
                c.beat();
                string e = deliver(r, cut(r.body, {}));
                c.add("deliveries");
                c.add("handler_calls", 3);
                c.state(vk::fmt("%d|%s|%d", k, r.name.c_str(), r.status));
                if (!e.empty()) {
                    c.fail("%s", e.c_str());
                    return;
                }
                if (liveResponses != 0) {
                    c.fail("%ld response objects were not released", liveResponses);
                    return;
                }
            }
    });
    // ---- every proper prefix of a query is refused
    run.forall("truncated", KINDS, [&](Case& c) {
        Kind k = (Kind)c.index;
        daemonOf(c, k);
        for (auto& g : goodBodies(k == SCHEMA)) {
            size_t end = g.body.rfind("</mws:query>") + strlen("</mws:query>");
            for (size_t n = 0; n < end; n++) {
                Req r = g;
                r.body = g.body.substr(0, n);
                r.status = 400;
                c.desc(vk::fmt("%s handler, first %zu bytes of [%s]", kindName[k], n, g.body.c_str()));
                c.beat();
                string e = deliver(r, cut(r.body, {}));
                c.add("deliveries");
                c.add("handler_calls", 3);
                if (!e.empty()) {
                    c.fail("%s", e.c_str());
                    return;
                }
            }
        }
    });
    // ---- every cut of every body: single bytes, two pieces, three pieces
    struct Job {
        Kind k;
        Req r;
    };
    vector<Job> jobs;
    for (int k = 0; k < KINDS; k++) {
        for (auto& r : goodBodies(k == SCHEMA)) jobs.push_back({(Kind)k, r});
        for (auto& r : badBodies()) jobs.push_back({(Kind)k, r});
    }
    run.forall("pieces", jobs.size(), [&](Case& c) {
        const Job& j = jobs[c.index];
        daemonOf(c, j.k);
        size_t n = j.r.body.size();
        auto go = [&](const vector<size_t>& at) {
            c.beat();
            auto p = cut(j.r.body, at);
            string e = deliver(j.r, p);
            c.add("deliveries");
            c.add("handler_calls", p.size() + 2);
            if (!e.empty()) {
                string d;
                for (auto& x : p) d += "[" + x + "]";
                c.desc(vk::fmt("%s handler, %s delivered as %s", kindName[j.k], j.r.name.c_str(), d.c_str()));
                c.fail("%s", e.c_str());
            }
            return e.empty();
        };
        vector<size_t> all;
        for (size_t i = 1; i < n; i++) all.push_back(i);
        c.desc(vk::fmt("%s handler, %s in pieces", kindName[j.k], j.r.name.c_str()));
        if (!go(all)) return;
        for (size_t a = 1; a < n; a++)
            if (!go({a})) return;
        size_t stride = run.thorough ? 1 : 3;
        for (size_t a = 1; a < n; a += stride)
            for (size_t b = a + 1; b < n; b += stride)
                if (!go({a, b})) return;
        c.state(vk::fmt("pieces|%d|%s", j.k, j.r.name.c_str()));
    }, 1);
    // ---- aborted uploads at every point, followed by a query; nothing is kept
    run.forall("aborts", KINDS, [&](Case& c) {
        Kind k = (Kind)c.index;
        daemonOf(c, k);
        auto good = goodBodies(k == SCHEMA);
        auto bad = badBodies();
        vector<Req> v = good;
        v.insert(v.end(), bad.begin(), bad.end());
        for (auto& r : v) {
            size_t n = r.body.size();
            for (int pieces = 1; pieces <= 3; pieces++)
                for (int ab = 0; ab <= pieces + 1; ab++) {
                    if (n < 3) continue;
                    c.desc(vk::fmt("%s handler, %s in %d pieces, connection lost after %d calls, then again complete",
                                   kindName[k], r.name.c_str(), pieces, ab));
                    c.beat();
                    auto p = pieces == 1 ? cut(r.body, {}) : pieces == 2 ? cut(r.body, {n / 2}) : cut(r.body, {n / 3, n / 2});
                    size_t live = 0;
                    for (int rep = 0; rep < 4; rep++) {
                        {
                            Delivery d(&r, p);
                            d.abortAfter = ab;
                            for (size_t i = 0; i < d.maxCalls() && !d.over; i++) d.step();
                            string e = d.verdict();
                            c.add("deliveries");
                            c.add("handler_calls", ab);
                            if (!e.empty()) {
                                c.fail("%s", e.c_str());
                                return;
                            }
                        }
                        string e = deliver(r, p);
                        if (!e.empty()) {
                            c.fail("after the lost connection: %s", e.c_str());
                            return;
                        }
                        size_t now = __sanitizer_get_current_allocated_bytes();
                        if (rep == 1) live = now;
                        if (rep == 3 && now > live + 64) {
                            c.fail("%zu bytes of the request stay allocated", (now - live) / 2);
                            return;
                        }
                    }
                }
        }
        c.state(vk::fmt("aborts|%d", k));
    });
    // ---- every kind of request releases what it used
    run.forall("release", KINDS, [&](Case& c) {
        Kind k = (Kind)c.index;
        daemonOf(c, k);
        vector<Req> v = goodBodies(k == SCHEMA);
        for (auto& r : badBodies()) v.push_back(r);
        for (auto& r : otherRequests()) v.push_back(r);
        for (auto& r : v) {
            c.desc(vk::fmt("%s handler, %s %s repeatedly [%s]", kindName[k], r.method.c_str(), r.name.c_str(), r.body.c_str()));
            size_t live = 0;
            for (int rep = 0; rep < 12; rep++) {
                string e = deliver(r, cut(r.body, {r.body.size() / 2}));
                c.add("deliveries");
                c.add("handler_calls", 4);
                if (!e.empty()) {
                    c.fail("%s", e.c_str());
                    return;
                }
                size_t now = __sanitizer_get_current_allocated_bytes();
                if (rep == 3) live = now;
                if (rep == 11 && now >= live + 8 * 16) {
                    c.fail("every such request leaves %zu bytes allocated", (now - live) / 8);
                    return;
                }
            }
        }
        c.state(vk::fmt("release|%d", k));
    });
    // ---- a query the handler cannot answer is a server error
    run.forall("handler-errors", 3, [&](Case& c) {
        realMode = false;
        mws::daemon::Daemon d(new Stub(c.index));
        for (auto& g : goodBodies(false)) {
            Req r = g;
            r.status = 500;
            r.format = "";
            c.desc(vk::fmt("the query handler %s; %s", c.index == 0 ? "returns nothing" : "throws", r.name.c_str()));
            for (int rep = 0; rep < 2; rep++) {
                string e = deliver(r, cut(r.body, {}));
                c.add("deliveries");
                c.add("handler_calls", 3);
                if (!e.empty()) {
                    c.fail("%s", e.c_str());
                    return;
                }
            }
        }
        c.state(vk::fmt("err|%d", (int)c.index));
    });
    // ---- concurrent requests: every interleaving of the handler calls
    {
        struct Mix {
            Kind k;
            vector<int> what;  // index in the pool
        };
        // pool: 0..2 queries, 3 bad, 4 empty, 5 GET, 6 aborted query, 7 OPTIONS
        vector<Mix> mixes;
        for (int k = 0; k < KINDS; k++) {
            for (int a = 0; a < 8; a++)
                for (int b = 0; b < 8; b++) mixes.push_back({(Kind)k, {a, b}});
            int last = run.thorough ? 8 : 4;
            for (int a = 0; a < last; a++)
                for (int b = a; b < last; b++)
                    for (int d : {1, 3, 6})
                        mixes.push_back({(Kind)k, {a, b, d}});
        }
        run.forall("interleaved", mixes.size(), [&](Case& c) {
            const Mix& m = mixes[c.index];
            daemonOf(c, m.k);
            auto good = goodBodies(m.k == SCHEMA);
            auto bad = badBodies();
            auto oth = otherRequests();
            vector<Req> pool = {good[0], good[1], good[5], bad[16], bad[0], oth[2], good[0], oth[0]};
            vector<int> len;
            size_t nPieces = m.what.size() == 2 ? 3 : run.thorough ? 2 : 1;
            auto mk = [&](int i) {
                const Req& r = pool[m.what[i]];
                size_t n = r.body.size();
                std::unique_ptr<Delivery> d(new Delivery(
                    &r, nPieces == 3 ? cut(r.body, {n / 3, n / 2}) : nPieces == 2 ? cut(r.body, {n / 2}) : cut(r.body, {})));
                if (m.what[i] == 6) d->abortAfter = 2;
                return d;
            };
            for (size_t i = 0; i < m.what.size(); i++) {
                auto d = mk(i);
                len.push_back(d->r->method != "POST" ? 1 : d->maxCalls());
            }
            // all words over the requests with len[i] occurrences of i
            vector<int> word;
            for (size_t i = 0; i < len.size(); i++) word.insert(word.end(), len[i], i);
            do {
                c.beat();
                vector<std::unique_ptr<Delivery>> ds;
                for (size_t i = 0; i < m.what.size(); i++) ds.push_back(mk(i));
                for (int i : word) ds[i]->step();
                c.add("interleavings");
                c.add("handler_calls", word.size());
                for (size_t i = 0; i < ds.size(); i++) {
                    string e = ds[i]->verdict();
                    if (!e.empty()) {
                        string w, q;
                        for (int x : word) w += std::to_string(x);
                        for (auto& x : ds) q += x->r->method + " " + x->r->name + (x->abortAfter >= 0 ? " (lost); " : "; ");
                        c.desc(vk::fmt("%s handler, requests %s calls in the order %s", kindName[m.k], q.c_str(), w.c_str()));
                        c.fail("request %zu: %s", i, e.c_str());
                        return;
                    }
                }
            } while (std::next_permutation(word.begin(), word.end()));
            c.state(vk::fmt("mix|%d|%d|%d", m.k, m.what[0], m.what[1]));
        }, 1);
    }
    // ---- the same daemon on the real library: conformance of the replacement
    run.forall("loopback", KINDS, [&](Case& c) {
        Kind k = (Kind)c.index;
        string dir = c.scratch + "/real" + std::to_string(k);
        freshDir(dir);
        freshDir(dir + "/h");
        vk::writeFile(dir + "/h/a.harvest", harvestXml(theHarvest()));
        if (k == DISK && buildIndex(dir + "/h", dir + "/idx") != 0) {
            c.fail("index creation failed");
            return;
        }
        realMode = true;
        mws::daemon::Daemon::Config conf;
        std::unique_ptr<mws::daemon::Daemon> d;
        for (int t = 0; t < 40 && !d; t++) {
            conf.port = 20000 + (getpid() * 37 + t * 101 + c.index * 7) % 12000;
            try {
                d.reset(new mws::daemon::Daemon(makeHandler(dir, k).release(), conf));
            } catch (std::exception&) {
            }
        }
        if (!d) {
            fprintf(stderr, "no free port\n");
            realMode = false;
            return;
        }
        vector<Req> v = goodBodies(k == SCHEMA);
        for (auto& r : badBodies()) v.push_back(r);
        for (const char* m : {"OPTIONS", "GET", "HEAD", "PUT", "DELETE"})
            for (const char* u : {"/", "/other"})
                v.push_back({string(m) + " " + u, m, u, "",
                             !strcmp(m, "OPTIONS") || (!strcmp(m, "GET") && !strcmp(u, "/")) ? 200 : 405, "", "", 0, {}});
        int keep = -1;
        for (int style = 0; style < 5 && !c.failed; style++)
            for (auto& r : v) {
                c.desc(vk::fmt("%s handler over loopback, delivery style %d, %s %s [%s]", kindName[k], style,
                               r.method.c_str(), r.name.c_str(), r.body.c_str()));
                c.beat();
                bool post = r.method == "POST";
                string head = r.method + " " + r.url + " HTTP/1.1\r\nHost: x\r\n";
                bool chunked = style == 3 && post && !r.body.empty();
                if (chunked) head += "Transfer-Encoding: chunked\r\n";
                else if (post) head += "Content-Length: " + std::to_string(r.body.size()) + "\r\n";
                head += "\r\n";
                int s = style == 4 && keep >= 0 ? keep : dial(conf.port);
                keep = -1;
                if (s < 0) {
                    c.fail("the daemon does not accept connections any more");
                    break;
                }
                if (style == 2 && post && r.body.size() > 4) {  // a lost upload first
                    int l = dial(conf.port);
                    sendAll(l, head + r.body.substr(0, r.body.size() / 2));
                    close(l);
                }
                size_t n = r.body.size();
                bool ok = true;
                if (style == 0 || style == 4) ok = sendAll(s, head + r.body);
                else if (style == 3) {
                    ok = sendAll(s, head);
                    if (chunked) {
                        for (size_t p = 0; p < n && ok; p += 50) {
                            string x = r.body.substr(p, 50);
                            ok = sendAll(s, vk::fmt("%zx\r\n", x.size()) + x + "\r\n");
                        }
                        ok = ok && sendAll(s, "0\r\n\r\n");
                    }
                } else {
                    ok = sendAll(s, head);
                    usleep(300);
                    ok = ok && sendAll(s, r.body.substr(0, n / 3));
                    usleep(300);
                    ok = ok && sendAll(s, r.body.substr(n / 3));
                }
                Sent a;
                if (!receive(s, r.method == "HEAD", &a)) {
                    c.fail("no response");
                    close(s);
                    break;
                }
                (void)ok;
                c.add("real_requests");
                string e = judge(r, {a});
                if (!e.empty()) {
                    c.fail("%s", e.c_str());
                    close(s);
                    break;
                }
                if (style == 4 && !a.headers.count("Connection")) keep = s;
                else close(s);
            }
        if (keep >= 0) close(keep);
        d.reset();
        realMode = false;
        c.add("real_calls", protoCalls);
        if (!protoErrors.empty() && !c.failed)
            c.fail("the replacement misrepresents the library: %s", protoErrors[0].c_str());
        c.state(vk::fmt("loopback|%d", k));
    }, 1);
    // ---- clients which have not finished their requests do not hold up others
    run.forall("unfinished requests", KINDS * 9, [&](Case& c) {
        Kind k = (Kind)(c.index % KINDS);
        unsigned others = c.index / KINDS;
        string dir = c.scratch + "/un";
        freshDir(dir);
        freshDir(dir + "/h");
        vk::writeFile(dir + "/h/a.harvest", harvestXml(theHarvest()));
        if (k == DISK && buildIndex(dir + "/h", dir + "/idx") != 0) {
            c.fail("index creation failed");
            return;
        }
        realMode = true;
        mws::daemon::Daemon::Config conf;
        std::unique_ptr<mws::daemon::Daemon> d;
        for (int t = 0; t < 40 && !d; t++) {
            conf.port = 20000 + (getpid() * 37 + t * 101 + c.index * 7) % 12000;
            try {
                d.reset(new mws::daemon::Daemon(makeHandler(dir, k).release(), conf));
            } catch (std::exception&) {
            }
        }
        if (!d) {
            fprintf(stderr, "no free port\n");
            realMode = false;
            return;
        }
        c.desc(vk::fmt("%s handler, %u clients in the middle of a request, then one more", kindName[k], others));
        c.beat();
        vector<Req> v = goodBodies(k == SCHEMA);
        vector<int> socks;
        vector<string> rest;
        auto request = [&](const Req& r) {
            return "POST " + r.url + " HTTP/1.1\r\nHost: x\r\nContent-Length: " + std::to_string(r.body.size()) + "\r\n\r\n" + r.body;
        };
        auto answer = [&](int s, const Req& r, const char* which) {
            Sent a;
            if (!receive(s, false, &a)) return c.fail("no response for %s", which);
            c.add("real_requests");
            string e = judge(r, {a});
            if (!e.empty()) c.fail("%s: %s", which, e.c_str());
        };
        for (unsigned i = 0; i <= others && !c.failed; i++) {
            string q = request(v[i % v.size()]);
            // cut within the request line, the header and the body
            size_t at = i == others ? q.size() : i % 3 == 0 ? 3 : i % 3 == 1 ? q.find("Host") + 2 : q.size() - 5;
            int s = dial(conf.port);
            if (s < 0) c.fail("the daemon does not accept connections any more");
            else if (!sendAll(s, q.substr(0, at))) c.fail("the connection was closed");
            socks.push_back(s);
            rest.push_back(q.substr(at));
        }
        if (!c.failed) answer(socks[others], v[others % v.size()], "the one which is complete");
        for (unsigned i = 0; i < others && !c.failed; i++) {
            if (!sendAll(socks[i], rest[i])) c.fail("the connection of client %u was closed", i);
            else answer(socks[i], v[i % v.size()], "one which was completed later");
        }
        for (int s : socks)
            if (s >= 0) close(s);
        d.reset();
        realMode = false;
        c.state(vk::fmt("unfinished|%d|%u", k, others));
    }, 1);
    return run.finish();
}
