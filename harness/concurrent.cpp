// C14: requests served at the same time do not influence each other.
//
// The daemon's registered handler is called from several threads, each
// delivering one complete request, under the controlled scheduler.
#include "mhdsched.hpp"
#include "mwsh.hpp"
#include "mws/daemon/Daemon.hpp"
#include "mws/daemon/SchemaQueryHandler.hpp"
#include "mws/xmlparser/xmlparser.hpp"
#include <pthread.h>
using namespace mwsh;
using vk::Case;

enum Kind { MEM, DISK, XDISK, SCHEMA, KINDS };
static const char* kindName[] = {"in-memory", "stored", "stored, experimental engine", "schema"};

static Harvest harvest() {
    Harvest h;
    h.datas = {{"1", "first <b>record</b>"}, {"2", "second &amp; record"}};
    h.exprs = {{"a", "1", app({ci("f"), ci("x")})},
               {"b", "2", app({ci("f"), ci("y")})},
               {"c", "", app({ci("f"), cn("3")})},
               {"d", "1", app({ci("g"), app({ci("f"), ci("x")}), ci("x")})},
               {"e", "2", app({ci("f"), cn("12")})},
               {"f", "", app({ci("f"), ci("x")})}};
    return h;
}
static std::unique_ptr<mws::daemon::QueryHandler> handler(Case& c, Kind k) {
    if (k == SCHEMA)
        return std::unique_ptr<mws::daemon::QueryHandler>(
            new mws::daemon::SchemaQueryHandler(mws::index::ExpressionEncoder::Config()));
    freshDir(c.scratch + "/h");
    vk::writeFile(c.scratch + "/h/a.harvest", harvestXml(harvest()));
    if (k == MEM) return memHandler(c.scratch + "/h");
    vk::rmTree(c.scratch + "/idx");
    if (buildIndex(c.scratch + "/h", c.scratch + "/idx") != 0) return nullptr;
    return idxHandler(c.scratch + "/idx", false, k == XDISK);
}
struct Request {
    string name, method, body;
    bool schema, search;
};
static vector<Request> requests(Kind k) {
    auto Q = [](const string& a, const string& e) {
        return string("<mws:query") + NS() + a + ">" + e + "</mws:query>";
    };
    auto E = [](const T& t) { return "<mws:expr>" + xml(t) + "</mws:expr>"; };
    T p = app({ci("f"), qv("a")});
    string all = " answsize=\"100\"";
    vector<Request> v;
    if (k == SCHEMA) {
        string es = E(app({ci("f"), ci("x")})) + E(app({ci("f"), ci("y")})) + E(app({ci("g"), ci("x"), cn("1")}));
        v.push_back({"schemata as JSON", "POST", Q(" output=\"json\"", es), true, true});
        v.push_back({"schemata as XML", "POST", Q(" output=\"xml\" schema_depth=\"1\"", E(ci("u")) + es), true, true});
        v.push_back({"other schemata", "POST", Q(" output=\"json\" schema_depth=\"2\"", E(app({ci("x"), ci("f")})) + E(app({ci("y"), ci("f")}))), true, true});
    } else {
        v.push_back({"all as XML", "POST", Q(all + " output=\"xml\"", E(p)), false, true});
        v.push_back({"page as JSON", "POST", Q(" answsize=\"2\" limitmin=\"1\" totalreq=\"true\" output=\"json\"", E(p)), false, true});
        if (k != XDISK) {
            v.push_back({"nested variables as JSON", "POST", Q(all + " output=\"json\"", E(app({qv("h"), app({ci("f"), qv("b")}), qv("b")}))), false, true});
            v.push_back({"range", "POST", Q(all + " output=\"json\"", E(app({qv("p"), range("2", "5")}))), false, true});
            v.push_back({"other range", "POST", Q(all + " output=\"xml\"", E(app({qv("p"), range("10", "20")}))), false, true});
        }
        v.push_back({"ids", "POST", Q(" output=\"mws-ids\"", E(p)), false, true});
        v.push_back({"no match", "POST", Q(all + " output=\"json\"", E(ci("nowhere"))), false, true});
    }
    v.push_back({"malformed", "POST", Q("", "<mws:expr><m:ci>x</mws:expr>"), false, false});
    v.push_back({"root page", "GET", "", false, false});
    v.push_back({"options", "OPTIONS", "", false, false});
    v.push_back({"other method", "PUT", "", false, false});
    return v;
}
// the time a search took is not part of the answer
static string plain(string s) {
    for (size_t p = 0; (p = s.find("\"time\":", p)) != string::npos;) {
        size_t e = p + 7;
        while (e < s.size() && (s[e] == ' ' || s[e] == '-' || isdigit((unsigned char)s[e]))) e++;
        s.replace(p, e - p, "\"time\"=");
    }
    return s;
}
struct Job {
    const Request* r;
    string got;
};
static void* serve(void* p) {
    Job* j = (Job*)p;
    size_t n = j->r->body.size();
    vector<string> pieces;
    if (n) pieces = {j->r->body.substr(0, n / 2), j->r->body.substr(n / 2)};
    j->got = mhd::deliver(j->r->method, "/", pieces);
    return nullptr;
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C14", "model_checking");
    run.declare({"schedules", "steps", "accesses", "switches"});
    run.transitionsCounter = "steps";
    run.tracesCounter = "schedules";
    run.caseTimeout = 200;
    run.rule = "state = (handler, requests, answers given); transition = one scheduling step of the daemon's request "
               "handlers; trace = one complete schedule of the real code";
    run.assumptions = {
        "The HTTP library is replaced by one that delivers each request in a thread of its own, as "
        "MHD_USE_THREAD_PER_CONNECTION does; C10 checks the replacement against the real library.",
        "Schedules are enumerated up to the stated number of preemptions; every schedule is checked for unordered "
        "conflicting accesses of the repository's code. The libraries' own code is not instrumented."};
    const bool th = run.thorough;
    mws::parser::initxmlparser();
    auto go = [&](Case& c, Kind k, const vector<const Request*>& rs, const sched::Options& o0) {
        string d = vk::fmt("%s index, requests:", kindName[k]);
        for (auto* r : rs) d += " [" + r->name + "]";
        c.desc(d + vk::fmt(" up to %d preemptions%s", o0.preemptions, o0.access ? " at any access" : o0.func ? " at any function" : ""));
        auto h = handler(c, k);
        if (!h) {
            c.fail("index creation failed");
            return;
        }
        mws::daemon::Daemon daemon(h.release());
        sched::pin(c);
        // alone
        vector<string> alone(rs.size());
        sched::Stats s0;
        sched::Options one;
        one.preemptions = 0;
        for (size_t i = 0; i < rs.size(); i++) {
            string e = sched::explore(one, [&] {
                Job j = {rs[i], ""};
                serve(&j);
                sched::observe(j.got);
            }, [&](const sched::Outcome& out) {
                alone[i] = plain(out.obs);
                return sched::ending(out);
            }, s0, [&] { c.beat(); });
            if (!e.empty()) {
                c.fail("alone: " + e);
                return;
            }
            if (rs[i]->search && alone[i].find("status 200") == string::npos) c.fail("unexpected answer: " + alone[i]);
        }
        // together
        sched::Stats st;
        string e = sched::explore(o0, [&] {
            vector<Job> js;
            for (auto* r : rs) js.push_back({r, ""});
            vector<pthread_t> t(rs.size());
            for (size_t i = 0; i < rs.size(); i++) pthread_create(&t[i], nullptr, serve, &js[i]);
            for (auto& x : t) pthread_join(x, nullptr);
            for (size_t i = 0; i < rs.size(); i++) {
                string g = plain(js[i].got);
                sched::observe(g == alone[i] ? "ok\n" : vk::fmt("request %zu (%s) alone:\n%s\nnow:\n%s\n", i, rs[i]->name.c_str(), alone[i].c_str(), g.c_str()));
            }
        }, [&](const sched::Outcome& out) {
            string e = sched::ending(out);
            if (!e.empty()) return e;
            string want;
            for (size_t i = 0; i < rs.size(); i++) want += "ok\n";
            c.state(d + out.obs);
            return out.obs == want ? string() : "an answer differs\n" + out.obs;
        }, st, [&] { c.beat(); });
        c.desc(c.description + vk::fmt(": %llu schedules, %llu steps, %llu accesses", (unsigned long long)st.schedules, (unsigned long long)st.steps, (unsigned long long)st.accesses));
        c.add("schedules", st.schedules);
        c.add("steps", st.steps);
        c.add("accesses", st.accesses);
        c.add("switches", st.switches);
        if (!e.empty()) c.fail(d + "\n" + e);
    };
    struct Item {
        Kind k;
        vector<Request> rs;
        vector<int> which;
    };
    vector<Item> pairs, fpairs, spairs, triples;
    for (int k = 0; k < KINDS; k++) {
        auto rs = requests((Kind)k);
        for (size_t i = 0; i < rs.size(); i++)
            for (size_t j = i; j < rs.size(); j++) {  // the scheduler tries both orders
                pairs.push_back({(Kind)k, rs, {(int)i, (int)j}});
                bool parsed = rs[i].method == "POST" && rs[j].method == "POST";
                if (th || parsed) fpairs.push_back(pairs.back());
                if (rs[i].search && rs[j].search) {
                    spairs.push_back(pairs.back());
                    for (size_t l = j; l < rs.size(); l++)
                        if (rs[l].search && (th || (i < j && j < l && l - i < 5)))
                            triples.push_back({(Kind)k, rs, {(int)i, (int)j, (int)l}});
                }
            }
    }
    auto item = [&](Case& c, const Item& it, const sched::Options& o) {
        vector<const Request*> v;
        for (int w : it.which) v.push_back(&it.rs[w]);
        go(c, it.k, v, o);
    };
    run.forall("pairs-sync", pairs.size(), [&](Case& c) {
        sched::Options o;
        o.preemptions = th ? 3 : 2;
        item(c, pairs[c.index], o);
    }, 1);
    run.forall("triples-sync", triples.size(), [&](Case& c) {
        sched::Options o;
        o.preemptions = 1;
        item(c, triples[c.index], o);
    }, 1);
    run.forall("pairs-functions", fpairs.size() * 2, [&](Case& c) {
        sched::Options o;
        o.preemptions = 1;
        o.func = true;
        o.slice = c.index % 2;
        o.slices = 2;
        item(c, fpairs[c.index / 2], o);
    }, 1);
    if (th)
        run.forall("pairs-accesses", spairs.size() * 16, [&](Case& c) {
            sched::Options o;
            o.preemptions = 1;
            o.access = true;
            o.slice = c.index % 16;
            o.slices = 16;
            item(c, spairs[c.index / 16], o);
        }, 1);
    return run.finish();
}
