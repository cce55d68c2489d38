// C03: every hit points at its formula (url, position, data, bindings).
#include "mwsh.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xpath.h>
using namespace mwsh;
using vk::Case;

// canonical text of an XML fragment: names, sorted attributes, merged text
static void canonNode(xmlNode* n, string& o) {
    for (; n; n = n->next) {
        if (n->type == XML_TEXT_NODE || n->type == XML_CDATA_SECTION_NODE) {
            xmlChar* s = xmlNodeGetContent(n);
            o += (const char*)s;
            xmlFree(s);
        } else if (n->type == XML_ELEMENT_NODE) {
            o += "\x01";
            if (n->ns && n->ns->prefix) o += string((const char*)n->ns->prefix) + ":";
            o += (const char*)n->name;
            std::set<string> as;
            for (xmlAttr* a = n->properties; a; a = a->next) {
                xmlChar* s = xmlNodeGetContent((xmlNode*)a);
                as.insert(string((const char*)a->name) + "=" + (const char*)s);
                xmlFree(s);
            }
            for (xmlNs* s = n->nsDef; s; s = s->next)
                as.insert(string("xmlns:") + (s->prefix ? (const char*)s->prefix : "") +
                          "=" + (const char*)s->href);
            for (auto& x : as) o += "\x02" + x;
            o += "\x03";
            canonNode(n->children, o);
            o += "\x04";
        }
    }
}
static string canonXml(const string& frag) {
    string d = "<d xmlns:mws=\"n1\" xmlns:m=\"n2\">" + frag + "</d>";
    xmlDoc* doc = xmlReadMemory(d.data(), d.size(), "x", nullptr,
                                XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
    if (!doc) return "\x05not well-formed: " + frag;
    string o;
    canonNode(xmlDocGetRootElement(doc)->children, o);
    xmlFreeDoc(doc);
    // the copy is allowed to differ in surrounding whitespace
    while (!o.empty() && isspace((unsigned char)o.back())) o.pop_back();
    size_t b = 0;
    while (b < o.size() && isspace((unsigned char)o[b])) b++;
    return o.substr(b);
}
static void allVars(const T& t, const string& xp, vector<pair<string, string>>& out) {
    if (isVar(t) && !varName(t).empty()) out.push_back({varName(t), xp});
    for (size_t i = 0; i < t.kids.size(); i++)
        allVars(t.kids[i], xp + vk::fmt("/*[%zu]", i + 1), out);
}
// checks one answer against the reference; urls identify expressions only when
// `uniqueUrl`
static void check(Case& c, const Harvest& h, const T& p, const Ans& a, bool uniqueUrl,
                  const string& what) {
    vector<Hit> e = expected(h, p), g = a.hits;
    for (auto& x : e) x.data = canonXml(x.data);
    for (auto& x : g) x.data = canonXml(x.data);
    c.add("queries");
    if (sorted(e) != sorted(g)) {
        c.desc(harvestXml(h) + queryXml(p));
        c.fail("%s: expected\n%sgot\n%s", what.c_str(), hitsStr(sorted(e)).c_str(),
               hitsStr(sorted(a.hits)).c_str());
        return;
    }
    vector<pair<string, string>> vs;
    allVars(p, "", vs);
    std::set<pair<string, string>> got;
    for (size_t i = 0; i < a.qvars.size() && i < a.qxpaths.size(); i++)
        got.insert({a.qvars[i], a.qxpaths[i]});
    std::set<string> named, want;
    for (auto& x : vs) want.insert(x.first);
    for (auto& x : got) named.insert(x.first);
    if (a.qvars.size() != a.qxpaths.size() || named != want) {
        c.desc(harvestXml(h) + queryXml(p));
        c.fail("%s: query variables in the answer do not match those of the query", what.c_str());
        return;
    }
    for (auto& x : got)
        if (std::find(vs.begin(), vs.end(), x) == vs.end()) {
            c.desc(harvestXml(h) + queryXml(p));
            c.fail("%s: %s is not variable %s of the query", what.c_str(), x.second.c_str(),
                   x.first.c_str());
            return;
        }
    if (!uniqueUrl) return;
    map<string, const T*> byUrl;
    for (auto& x : h.exprs) byUrl[x.url] = &x.t;
    for (auto& hit : a.hits) {
        c.add("hits");
        const T* root = byUrl[hit.url];
        const T* sub = atPath(*root, hit.xpath);
        map<string, string> bind;
        if (!sub || !match(p, *sub, bind)) {
            c.desc(harvestXml(h) + queryXml(p));
            c.fail("%s: hit %s does not select an instance", what.c_str(), hit.str().c_str());
            return;
        }
        for (auto& x : got) {
            const T* b = atPath(*root, hit.xpath + x.second);
            if (!b || key(*b) != bind[x.first]) {
                c.desc(harvestXml(h) + queryXml(p));
                c.fail("%s: hit %s: %s is not the binding of %s", what.c_str(),
                       hit.str().c_str(), x.second.c_str(), x.first.c_str());
                return;
            }
        }
    }
    c.state(what + key(p) + vk::fmt("|%zu", a.hits.size()));
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C03", "model_checking");
    run.declare({"queries", "hits", "harvests"});
    run.transitionsCounter = "queries";
    run.tracesCounter = "harvests";
    run.rule = "state = (harvest, pattern, number of hits); transition = one query whose every "
               "hit was located in the reference tree (url, path, data, each variable binding); "
               "trace = one harvest loaded by the real parser and indexer";
    const bool th = run.thorough;
    auto load = [&](Case& c, const Harvest& h, bool disk) {
        freshDir(c.scratch + "/h");
        vk::writeFile(c.scratch + "/h/a.harvest", harvestXml(h));
        c.desc(harvestXml(h));
        c.add("harvests");
        if (!disk) return memHandler(c.scratch + "/h");
        vk::rmTree(c.scratch + "/idx");
        if (buildIndex(c.scratch + "/h", c.scratch + "/idx")) {
            c.fail("index creation failed");
            return std::unique_ptr<mws::daemon::QueryHandler>();
        }
        return idxHandler(c.scratch + "/idx");
    };
    TermGen g({ci("a"), ci("b")}, {app({})}, 3);
    TermGen pg({ci("a"), qv("x"), qv("y"), qv("")}, {app({})}, 3);
    vector<T> ts = g.upTo(th ? 7 : 6), ps = canonicalPatterns(pg.upTo(th ? 5 : 4), {"x", "y"});
    // ---- positions and bindings, in memory and on disk
    run.forall("positions", ts.size(), [&](Case& c) {
        Harvest h;
        h.exprs.push_back({"u1", "", ts[c.index]});
        h.exprs.push_back({"u2", "", ts[ts.size() - 1 - c.index]});
        auto q = load(c, h, c.index % 8 == 0);
        if (!q) return;
        for (auto& p : ps) {
            c.beat();
            check(c, h, p, ask(q.get(), queryXml(p)), true, key(ts[c.index]));
            if (c.failed) return;
        }
    });
    // ---- variables anywhere, with many siblings (two-digit positions)
    run.forall("wide-positions", 40, [&](Case& c) {
        unsigned n = 3 + c.index;
        vector<T> k, pk;
        for (unsigned i = 0; i < n; i++) {
            k.push_back(ci("s" + std::to_string(i)));
            pk.push_back(i % 3 == 1 ? qv("v" + std::to_string(i % 7)) : k.back());
        }
        for (unsigned i = 0; i < n; i++)
            if (i % 3 == 1) k[i] = app({ci("q" + std::to_string(i % 7)), ci("z")});
        Harvest h;
        h.exprs.push_back({"u1", "", app({ci("g"), app(k), app({app({app(k)})})})});
        auto q = load(c, h, c.index & 1);
        if (!q) return;
        check(c, h, app(pk), ask(q.get(), queryXml(app(pk))), true, vk::fmt("wide%u", n));
    });
    // ---- urls: every combination of three expressions over the url alphabet
    static const char* U[] = {"u", "v", "", "a b", "http://h/p?a=1&b=2#x", "<>\"'", "\xC3\xA9",
                              "&amp;", "&#38;", "x\xE2\x82\xAC!1", "%20", "]]>", "&lt;"};
    const int NU = sizeof(U) / sizeof(U[0]);
    run.forall("urls", NU * NU * (th ? NU : 2) * 2, [&](Case& c) {
        vk::Digits d(c.index);
        bool disk = d.next(2);
        Harvest h;
        h.exprs.push_back({U[d.next(NU)], "", app({ci("f"), ci("a")})});
        h.exprs.push_back({U[d.next(NU)], "", app({ci("f"), ci("b")})});
        h.exprs.push_back({U[d.i], "", app({ci("f"), ci("a"), ci("b")})});
        auto q = load(c, h, disk);
        if (!q) return;
        for (auto& p : {app({ci("f"), qv("x")}), ci("a"), qv("y")}) {
            check(c, h, p, ask(q.get(), queryXml(p)), false, vk::fmt("url%d", (int)c.index));
            if (c.failed) return;
        }
    });
    // ---- data: 0..3 records x assignment of each expression to none/any/dangling
    static const char* DATA[] = {
        "", "plain", "<a>1</a>", "<a x=\"1\" y=\"2\"><b/>t<c>u</c></a>tail", "a&amp;b",
        "<t k=\"a&amp;b\"/>", "&lt;m&gt;", "<![CDATA[<x>&]]>", "\xCE\xB1\xE2\x88\x91",
        "<mws:expr url=\"no\"><ci>a</ci></mws:expr>", "<t k=\"&quot;&lt;'\">\"'</t>",
        "<text>x</text><metadata><title>t</title></metadata>", "l1\nl2\tl3", "&#233;",
        "<mws:data mws:data_id=\"1\">z</mws:data>", "<t k='&#10;'/>", "a\\b!1%s%n", "<!-- c -->x",
        "<?pi x?>y"};
    const int ND = sizeof(DATA) / sizeof(DATA[0]);
    static const char* IDS[] = {"1", "2", "a b&c"};
    run.forall("data-content", ND * ND * 2, [&](Case& c) {
        vk::Digits d(c.index);
        bool disk = d.next(2);
        Harvest h;
        h.datas.push_back({"1", DATA[d.next(ND)]});
        h.datas.push_back({"2", DATA[d.next(ND)]});
        h.exprs.push_back({"u1", "1", app({ci("f"), ci("a")})});
        h.exprs.push_back({"u2", "2", app({ci("f"), ci("a")})});
        h.exprs.push_back({"u3", "", app({ci("f"), ci("b")})});
        auto q = load(c, h, disk);
        if (!q) return;
        T p = app({ci("f"), qv("x")});
        check(c, h, p, ask(q.get(), queryXml(p)), false, vk::fmt("data%d", (int)c.index));
    });
    run.forall("data-assignment", 4 * 5 * 5 * 5 * 2, [&](Case& c) {
        vk::Digits d(c.index);
        bool disk = d.next(2);
        int n = d.next(4);
        Harvest h;
        for (int i = 0; i < n; i++) h.datas.push_back({IDS[i], vk::fmt("<r>%d</r>", i)});
        static const T E[3] = {app({ci("f"), ci("a")}), app({ci("f"), ci("a")}),
                               app({ci("f"), ci("b"), ci("a")})};
        for (int i = 0; i < 3; i++) {
            int k = d.next(5);
            h.exprs.push_back({vk::fmt("u%d", i), k == 0 ? "" : k == 4 ? "nope" : IDS[k - 1], E[i]});
        }
        auto q = load(c, h, disk);
        if (!q) return;
        for (auto& p : {qv("x"), ci("a"), app({ci("f"), qv("x")})}) {
            check(c, h, p, ask(q.get(), queryXml(p)), true, vk::fmt("as%d", (int)c.index));
            if (c.failed) return;
        }
    });
    // ---- positions are XPath positions of the document actually harvested:
    // comments, text, PIs and CDATA between the elements do not count
    static const char* SEP[] = {"", " \n ", "<!-- c -->", "<?pi d?>", "txt", "<![CDATA[q]]>"};
    const int NS_ = 6;
    run.forall("xpath-evaluation", NS_ * NS_ * NS_ * 2, [&](Case& c) {
        vk::Digits d(c.index);
        bool disk = d.next(2);
        string s1 = SEP[d.next(NS_)], s2 = SEP[d.next(NS_)], s3 = SEP[d.next(NS_)];
        string e = "<apply>" + s1 + "<ci>f</ci>" + s2 + "<apply>" + s3 + "<ci>g</ci>" + s1 +
                   "<ci>a</ci>" + s2 + "</apply>" + s3 + "<ci>b</ci><apply>" + s3 + "<ci>g</ci>" +
                   s1 + "<ci>b</ci></apply>" + s2 + "</apply>";
        string hx = string("<mws:harvest") + NS() + ">" + s1 + "<mws:expr url=\"u\">" + s1 + e + s2 +
                    "</mws:expr>" + s3 + "</mws:harvest>";
        freshDir(c.scratch + "/h");
        vk::writeFile(c.scratch + "/h/a.harvest", hx);
        c.desc(hx);
        c.add("harvests");
        std::unique_ptr<mws::daemon::QueryHandler> q;
        if (disk) {
            vk::rmTree(c.scratch + "/idx");
            if (buildIndex(c.scratch + "/h", c.scratch + "/idx")) {
                c.fail("index creation failed");
                return;
            }
            q = idxHandler(c.scratch + "/idx");
        } else {
            q = memHandler(c.scratch + "/h");
        }
        xmlDoc* doc = xmlReadMemory(e.data(), e.size(), "x", nullptr, XML_PARSE_NOERROR);
        xmlXPathContext* xc = xmlXPathNewContext(doc);
        for (auto& leaf : {"a", "b", "g", "f"}) {
            T p = ci(leaf);
            Ans a = ask(q.get(), queryXml(p));
            c.add("queries");
            if (a.hits.size() != 1) {
                c.fail("ci %s: %zu hits instead of one", leaf, a.hits.size());
                break;
            }
            xmlXPathObject* r = xmlXPathEvalExpression((const xmlChar*)a.hits[0].xpath.c_str(), xc);
            string got = "nothing";
            if (r && r->nodesetval && r->nodesetval->nodeNr == 1) {
                xmlChar* s = xmlNodeGetContent(r->nodesetval->nodeTab[0]);
                got = (const char*)s;
                xmlFree(s);
            }
            xmlXPathFreeObject(r);
            c.state(vk::fmt("xp%d", (int)c.index) + a.hits[0].xpath);
            if (got != leaf) {
                c.fail("ci %s: %s selects %s", leaf, a.hits[0].xpath.c_str(), got.c_str());
                break;
            }
        }
        xmlXPathFreeContext(xc);
        xmlFreeDoc(doc);
    });
    // ---- many expressions with many records, each hit with its own
    run.forall("many-records", 14 * 2, [&](Case& c) {
        static const unsigned N[] = {9, 10, 11, 63, 64, 65, 99, 100, 101, 127, 129, 255, 257, 1030};
        vk::Digits d(c.index);
        bool disk = d.next(2);
        unsigned n = N[d.i];
        Harvest h;
        for (unsigned i = 0; i < n; i++) h.datas.push_back({vk::fmt("d%u", i), vk::fmt("<r n=\"%u\">%s</r>", i, string(i % 97, 'w').c_str())});
        for (unsigned i = 0; i < n; i++)
            h.exprs.push_back({vk::fmt("http://x/%u#e%u", i, i * 31 % 1000), i % 5 == 4 ? "" : vk::fmt("d%u", (i * 7) % n),
                               app({ci("f"), ci(vk::fmt("s%u", i % 10)), app({ci("g"), ci(vk::fmt("t%u", i % 3))})})});
        auto q = load(c, h, disk);
        if (!q) return;
        for (auto& p : {app({ci("f"), qv("x"), qv("y")}), app({ci("g"), qv("x")}), ci("s3"), app({ci("f"), ci("s1"), app({qv("x"), ci("t1")})})}) {
            check(c, h, p, ask(q.get(), queryXml(p)), true, vk::fmt("records%u", n));
            if (c.failed) return;
        }
    }, 1);
    // ---- positions deep inside, with large numbers at every level
    run.forall("deep-positions", (th ? 60 : 30) * 2, [&](Case& c) {
        vk::Digits d(c.index);
        bool disk = d.next(2);
        unsigned depth = d.i + 1;
        T t = app({ci("g"), ci("a"), ci("b")});
        T pat = app({ci("g"), qv("x"), qv("y")});
        string rel;
        for (unsigned i = 0; i < depth; i++) {
            static const unsigned POS[] = {1, 2, 9, 10, 11, 99, 100, 127, 128, 199, 254};
            unsigned pos = POS[(i * 3 + depth) % 11];
            vector<T> k(pos, ci(vk::fmt("p%u", i % 4)));
            vector<T> pk(pos, ci(vk::fmt("p%u", i % 4)));
            k.push_back(t);
            pk.push_back(pat);
            t = app(k);
            pat = app(pk);
        }
        Harvest h;
        h.exprs.push_back({"u", "", t});
        auto q = load(c, h, disk);
        if (!q) return;
        for (auto& p : {pat, app({ci("g"), qv("x"), qv("y")}), ci("a"), app({ci("g"), qv("z"), ci("b")}), ci("p2")}) {
            check(c, h, p, ask(q.get(), queryXml(p)), true, vk::fmt("deep%u", depth));
            if (c.failed) return;
        }
    }, 1);
    // ---- records: every size around the likely buffer sizes, several of them at once
    run.forall("record-sizes", 16 * 2, [&](Case& c) {
        static const size_t L[] = {1, 100, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 300000, 999999};
        vk::Digits d(c.index);
        bool disk = d.next(2);
        size_t n = L[d.i];
        Harvest h;
        string body;
        for (size_t i = 0; i < n; i++) body += i % 61 == 60 ? '\n' : (char)('a' + i % 23);
        h.datas.push_back({"1", body});
        h.datas.push_back({"2", "<a>" + body + "</a><b>" + body + "</b>"});
        h.datas.push_back({"3", "small"});
        for (int i = 0; i < 6; i++) h.exprs.push_back({(i == 5 && n < 60000 ? body.substr(0, 60000) : string("u")) + std::to_string(i), std::to_string(i % 3 + 1), app({ci("f"), ci(vk::fmt("s%d", i % 4))})});
        for (auto& e : h.exprs)
            for (auto& ch : e.url)
                if (ch == '\n') ch = '/';
        auto q = load(c, h, disk);
        if (!q) return;
        for (auto& p : {app({ci("f"), qv("x")}), ci("s0")}) {
            check(c, h, p, ask(q.get(), queryXml(p)), true, vk::fmt("size%zu", n));
            if (c.failed) return;
        }
    }, 1);
    return run.finish();
}
