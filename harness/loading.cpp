// C07: harvest loading survives any document and keeps everything before the fault.
#include "mwsh.hpp"
#include "mws/xmlparser/processMwsHarvest.hpp"
#include "mws/dbc/MemCrawlDb.hpp"
#include "mws/dbc/MemFormulaDb.hpp"
#include "mws/index/IndexBuilder.hpp"
#include <libxml/parser.h>
#include <libxml/parserInternals.h>
using namespace mwsh;
using vk::Case;

// ---------------------------------------------------------- reference loader
// An independent SAX2 reader: collects the expressions whose root element was
// complete before the first error.
struct Ref {
    struct E {
        string url, data;
        T t;
        bool closed;  // the enclosing mws:expr was closed as well
    };
    vector<E> exprs;
    vector<string> datas;
    bool wellFormed = false;
    // state
    int depth = 0, skip = 0;
    bool harvest = false, inExpr = false, inData = false;
    string url, did, dataText;
    map<string, string> byId;
    vector<T> stack;
    size_t firstOfExpr = 0;
};
static string qname(const xmlChar* ln, const xmlChar* prefix) {
    return (prefix ? string((const char*)prefix) + ":" : string()) + (const char*)ln;
}
static void rStart(void* u, const xmlChar* ln, const xmlChar* prefix, const xmlChar*, int, const xmlChar**,
                   int na, int, const xmlChar** at) {
    Ref* r = (Ref*)u;
    string n = qname(ln, prefix);
    r->depth++;
    map<string, string> as;
    for (int i = 0; i < na; i++)
        as[qname(at[5 * i], at[5 * i + 1])] = string((const char*)at[5 * i + 3], at[5 * i + 4] - at[5 * i + 3]);
    if (r->skip) {
        r->skip++;
        return;
    }
    if (r->depth == 1) {
        if (n == "mws:harvest") r->harvest = true;
        else r->skip = 1;
        return;
    }
    if (r->inExpr) {
        T t(n, "");
        for (auto& a : as) t.attrs.push_back(a);
        r->stack.push_back(t);
    } else if (r->inData) {
        r->dataText += "<";
    } else if (n == "mws:expr") {
        r->inExpr = true;
        r->url = as["url"];
        r->did = as["mws:data_id"];
        r->firstOfExpr = r->exprs.size();
    } else if (n == "mws:data" && as["mws:data_id"] != "") {
        r->inData = true;
        r->did = as["mws:data_id"];
        r->dataText = "";
        r->depth = 2;
    } else {
        r->skip = 1;
    }
}
static void rEnd(void* u, const xmlChar*, const xmlChar*, const xmlChar*) {
    Ref* r = (Ref*)u;
    r->depth--;
    if (r->skip) {
        r->skip--;
        return;
    }
    if (r->inExpr) {
        if (r->stack.empty()) {
            r->inExpr = false;
            for (size_t i = r->firstOfExpr; i < r->exprs.size(); i++) r->exprs[i].closed = true;
            return;
        }
        T t = r->stack.back();
        r->stack.pop_back();
        if (r->stack.empty()) {
            auto it = r->byId.find(r->did);
            r->exprs.push_back({r->url, it == r->byId.end() ? "" : it->second, t, false});
        } else {
            r->stack.back().kids.push_back(t);
        }
    } else if (r->inData) {
        if (r->depth == 1) {
            r->inData = false;
            r->byId[r->did] = r->dataText;
            r->datas.push_back(r->dataText);
        } else {
            r->dataText += ">";
        }
    }
}
static void rText(void* u, const xmlChar* s, int n) {
    Ref* r = (Ref*)u;
    if (r->skip) return;
    if (r->inExpr && !r->stack.empty()) r->stack.back().text.append((const char*)s, n);
    if (r->inData) r->dataText.append((const char*)s, n);
}
static int rRead(void* ctx, char* b, int len) {
    auto* p = (pair<const string*, size_t>*)ctx;
    size_t n = std::min<size_t>(len, p->first->size() - p->second);
    memcpy(b, p->first->data() + p->second, n);
    p->second += n;
    return n;
}
static void quiet(void*, const char*, ...) {}
static Ref reference(const string& doc) {
    Ref r;
    xmlSAXHandler h;
    memset(&h, 0, sizeof(h));
    h.initialized = XML_SAX2_MAGIC;
    h.startElementNs = rStart;
    h.endElementNs = rEnd;
    h.characters = rText;
    h.error = quiet;
    h.warning = quiet;
    pair<const string*, size_t> io(&doc, 0);
    xmlParserCtxt* c = xmlCreateIOParserCtxt(&h, &r, rRead, nullptr, &io, XML_CHAR_ENCODING_UTF8);
    c->replaceEntities = 1;
    xmlParseDocument(c);
    r.wellFormed = c->wellFormed;
    xmlFreeParserCtxt(c);
    return r;
}
// names and texts of copied data in document order ("<" start, ">" end)
static string shape(const string& data) {
    Ref r = reference(string("<mws:harvest xmlns:mws='a' xmlns:m='b'><mws:data mws:data_id='1'>") + data +
                      "</mws:data></mws:harvest>");
    if (!r.wellFormed || r.datas.size() != 1) return "\x01 bad copy " + data;
    string o = r.datas[0];
    while (!o.empty() && isspace((unsigned char)o.back())) o.pop_back();
    size_t b = 0;
    while (b < o.size() && isspace((unsigned char)o[b])) b++;
    return o.substr(b);
}
static string trim(string o) {
    while (!o.empty() && isspace((unsigned char)o.back())) o.pop_back();
    size_t b = 0;
    while (b < o.size() && isspace((unsigned char)o[b])) b++;
    return o.substr(b);
}

// -------------------------------------------------------------- real loader
struct Rec : mws::parser::HarvestProcessor {
    struct E {
        string url;
        uint32_t crawl;
        string k, paths;
    };
    vector<E> exprs;
    vector<string> datas;
    static void walk(const mws::types::CmmlToken* t, string& k, string& p) {
        string x = t->getTag() + "#" + t->getTextContent();
        if (t->getTag() == "mtext") x = "mtext#";
        k += x + vk::fmt("(%zu)[", t->getChildNodes().size());
        p += t->getXpath() + ";";
        for (auto* c : t->getChildNodes()) walk(c, k, p);
        k += "]";
    }
    int processExpression(const mws::types::CmmlToken* e, const string& u, const uint32_t& id) {
        E x;
        x.url = u;
        x.crawl = id;
        walk(e, x.k, x.paths);
        exprs.push_back(x);
        return e->getExprSize();
    }
    mws::dbc::CrawlId processData(const string& d) {
        datas.push_back(d);
        return datas.size();
    }
};
// read() delivered in pieces
static int g_fd = -1, g_chunk = 0;
extern "C" ssize_t __real_read(int, void*, size_t);
extern "C" ssize_t __wrap_read(int fd, void* b, size_t n) {
    if (fd == g_fd && g_chunk > 0 && n > (size_t)g_chunk) n = g_chunk;
    return __real_read(fd, b, n);
}

static bool plainTerms(const T& t) {
    if (isVar(t) || isRange(t)) return false;
    for (auto& k : t.kids)
        if (!plainTerms(k)) return false;
    return true;
}
static uint64_t sizeOf(const T& t) { return t.size(); }

// runs the parser on one document; compares everything it hands over
static void parseCheck(Case& c, const string& doc, int chunk, const string& tag) {
    string f = c.scratch + "/doc";
    vk::writeFile(f, doc);
    Ref r = reference(doc);
    Rec rec;
    int fd = open(f.c_str(), O_RDONLY);
    g_fd = fd;
    g_chunk = chunk;
    c.beat();
    auto res = mws::parser::processHarvestFromFd(fd, &rec, true);
    g_fd = -1;
    close(fd);
    c.add("documents");
    string why;
    // expressions whose own element ended but whose mws:expr did not may be
    // counted as complete or not
    size_t sure = 0;
    for (auto& e : r.exprs) sure += e.closed;
    if (rec.exprs.size() < sure || rec.exprs.size() > r.exprs.size())
        why = vk::fmt("%zu expressions handed over, %zu complete in the document", rec.exprs.size(), sure);
    else if ((res.status == 0) != r.wellFormed)
        why = vk::fmt("status %d for a %s document", res.status, r.wellFormed ? "well-formed" : "malformed");
    else if (rec.datas.size() != r.datas.size())
        why = vk::fmt("%zu data records instead of %zu", rec.datas.size(), r.datas.size());
    uint64_t n = 0;
    for (size_t i = 0; why.empty() && i < rec.exprs.size(); i++) {
        auto& g = rec.exprs[i];
        auto& e = r.exprs[i];
        string data = g.crawl == 0 || g.crawl > rec.datas.size() ? "" : shape(rec.datas[g.crawl - 1]);
        string paths;
        vector<Sub> ss = subterms(e.t);
        for (auto& s : ss) paths += s.xpath + ";";
        n += sizeOf(e.t);
        if (g.url != e.url) why = "expression url " + g.url + " instead of " + e.url;
        else if (g.k != key(e.t)) why = "expression " + g.k + " instead of " + key(e.t);
        else if (g.paths != paths) why = "positions " + g.paths + " instead of " + paths;
        else if (data != trim(e.data)) why = "data {" + data + "} instead of {" + trim(e.data) + "}";
    }
    if (why.empty() && res.numExpressions != n)
        why = vk::fmt("%llu reported, %llu handed over", (unsigned long long)res.numExpressions, (unsigned long long)n);
    c.state(tag + vk::fmt("|%d|%zu|%zu|%llu", (int)r.wellFormed, r.exprs.size(), r.datas.size(), (unsigned long long)n) + (rec.exprs.size() ? rec.exprs.back().k : ""));
    if (!r.wellFormed) c.add("malformed");
    if (!why.empty()) {
        c.desc(vk::fmt("(read in pieces of %d)\n", chunk) + doc);
        c.fail("%s", why.c_str());
    }
}
// loads the document(s) with the real indexer and asks for everything
static void indexCheck(Case& c, const vector<string>& docs, const string& tag, bool subQueries) {
    freshDir(c.scratch + "/h");
    Harvest all;
    uint64_t n = 0;
    int id = 0;
    for (size_t i = 0; i < docs.size(); i++) {
        vk::writeFile(c.scratch + vk::fmt("/h/%zu.harvest", i), docs[i]);
        Ref r = reference(docs[i]);
        for (auto& e : r.exprs) {
            if (!e.closed) return;  // undetermined, covered by parseCheck
            if (!plainTerms(e.t)) return;
            string k = vk::fmt("d%d", id++);
            all.datas.push_back({k, trim(e.data)});
            all.exprs.push_back({e.url, k, e.t});
        }
    }
    for (auto& e : all.exprs)
        for (auto& s : subterms(e.t))
            if (s.t->kids.size() > 255) return;
    n = expectedSubexprs(all);
    c.beat();
    // count reported by the loader
    {
        mws::index::TmpIndex index;
        mws::index::MeaningDictionary md;
        mws::dbc::MemFormulaDb fdb;
        mws::dbc::MemCrawlDb cdb;
        mws::index::IndexBuilder b(&fdb, &cdb, &index, &md);
        uint64_t got = mws::index::loadHarvests(&b, harvestConfig(c.scratch + "/h"));
        if (got != n) {
            c.desc(docs[0]);
            c.fail("loader reports %llu subexpressions, %llu are searchable", (unsigned long long)got, (unsigned long long)n);
            return;
        }
    }
    auto q = memHandler(c.scratch + "/h");
    c.add("indexes");
    vector<T> ps = {qv("x")};
    std::set<string> seen;
    if (subQueries)
        for (auto& e : all.exprs)
            for (auto& s : subterms(e.t))
                if (seen.insert(key(*s.t)).second) ps.push_back(*s.t);
    for (auto& p : ps) {
        Ans a = ask(q.get(), queryXml(p));
        for (auto& h : a.hits) h.data = h.data.empty() ? "" : shape(h.data);
        vector<Hit> e = expected(all, p);
        c.add("queries");
        c.state(tag + key(p) + vk::fmt("|%zu", e.size()));
        if (sorted(a.hits) != sorted(e) || a.total != (int)e.size()) {
            string d;
            for (auto& x : docs) d += x + "\n-----\n";
            c.desc(d + queryXml(p));
            c.fail("expected\n%sgot\n%s", hitsStr(sorted(e)).c_str(), hitsStr(sorted(a.hits)).c_str());
            return;
        }
    }
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C07", "model_checking");
    run.declare({"documents", "malformed", "indexes", "queries"});
    run.transitionsCounter = "documents";
    run.tracesCounter = "indexes";
    run.rule = "state = (document family, well-formedness, expressions and records handed over); "
               "transition = one document parsed by the real loader and compared with an independent "
               "SAX2 reader; trace = one set of documents indexed and questioned for every subterm";
    run.assumptions = {"libxml2 decides well-formedness", "documents declaring their own entities are not explored",
                       "an expression whose own element is complete while its mws:expr is not may count either way"};
    const bool th = run.thorough;
    const string H = string("<mws:harvest") + NS() + ">", HE = "</mws:harvest>";
    static const char* ITEM[] = {
        "<mws:expr url=\"u1\"><apply><ci>f</ci><ci>a</ci></apply></mws:expr>",
        "<mws:expr url=\"u2\" mws:data_id=\"1\"><m:apply><m:ci>f</m:ci><m:cn>1</m:cn></m:apply></mws:expr>",
        "<mws:data mws:data_id=\"1\"><t>one</t></mws:data>",
        "<mws:data mws:data_id=\"1\">t<mws:expr url=\"in\"><ci>q</ci></mws:expr>u</mws:data>",
        "<other><mws:expr url=\"hidden\"><ci>h</ci></mws:expr><mws:data mws:data_id=\"2\">z</mws:data></other>",
        "<mws:expr url=\"u3\"><ci>r1</ci><apply><ci>r2</ci></apply></mws:expr>",
        "<mws:expr url=\"u4\"/>",
        "<mws:expr><ci>nourl</ci></mws:expr>",
        "<mws:expr url=\"u5\" mws:data_id=\"2\" class=\"x\" id='y'><ci type=\"real\">t</ci></mws:expr>",
        "<!-- c <mws:expr url='no'><ci>c</ci></mws:expr> --><?pi <mws:expr>?>",
        "text &amp; <![CDATA[<mws:expr>]]>",
        "<mws:data>no id</mws:data>",
        "<mws:data mws:data_id=\"2\" extra='1'/>",
        "<mws:expr url=\"u6\">tx<apply>ty<ci> s<!-- -->t </ci>tz<mws:expr url=\"n\"><ci>n</ci></mws:expr></apply>tw</mws:expr>",
        "<mws:harvest><mws:expr url=\"nested\"><ci>nh</ci></mws:expr></mws:harvest>",
        "<mws:expr url=\"u7\"><ci>broken</mws:expr>",
        "</x>",
        "&undefined;",
        "<expr url=\"plain\"><ci>p</ci></expr>",
        "<mws:expr url=\"u8\" mws:data_id=\"\"><mtext>some text</mtext></mws:expr>",
        "<mws:expr url=\"u9&#38;&lt;\" mws:data_id=\"2\"><apply><apply><ci>a</ci></apply><apply><ci>a</ci></apply></apply></mws:expr>"};
    const int NI = sizeof(ITEM) / sizeof(ITEM[0]);
    // --- every sequence of items
    int L = th ? 4 : 3;
    for (int len = 0; len <= L; len++) {
        uint64_t n = 1;
        for (int i = 0; i < len; i++) n *= NI;
        run.forall(vk::fmt("item-sequences-%d", len), n, [&, len](Case& c) {
            vk::Digits d(c.index);
            string doc = H;
            for (int i = 0; i < len; i++) doc += ITEM[d.next(NI)];
            doc += HE;
            parseCheck(c, doc, 0, vk::fmt("seq%d.%llu", len, (unsigned long long)c.index));
            if (!c.failed && (len <= 2 || c.index % 4 == 0)) indexCheck(c, {doc}, vk::fmt("q%d.%llu", len, (unsigned long long)c.index), len <= 2);
        });
    }
    // --- base documents for byte-level faults
    vector<string> base;
    base.push_back("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + H + "\n" + ITEM[2] + "\n" + ITEM[0] + ITEM[1] + "\n" + HE + "\n");
    base.push_back(H + ITEM[3] + ITEM[1] + ITEM[4] + ITEM[5] + HE);
    base.push_back(H + ITEM[13] + ITEM[9] + ITEM[20] + ITEM[10] + ITEM[8] + HE);
    base.push_back("<!DOCTYPE mws:harvest>" + H + "<mws:expr url='\xC3\xA9'><ci>\xCE\xB1\xF0\x9D\x94\xB8</ci></mws:expr>" + ITEM[0] + HE);
    for (size_t b = 0; b < base.size(); b++) {
        const string& doc = base[b];
        run.forall(vk::fmt("truncations-%zu", b), doc.size() + 1, [&](Case& c) {
            for (int chunk : {0, 1, 7}) {
                parseCheck(c, doc.substr(0, c.index), chunk, vk::fmt("tr%zu.%llu", b, (unsigned long long)c.index));
                if (c.failed) return;
            }
            indexCheck(c, {doc.substr(0, c.index), H + "<mws:expr url='after'><ci>ok</ci></mws:expr>" + HE}, vk::fmt("tq%zu", b), false);
        });
        static const char SUB[] = {'<', '>', '&', '/', '"', '\'', 0, '\xff', ' ', 'x', ']', ':', '=', '!', '\x01', '\xC3', '?', ';'};
        run.forall(vk::fmt("byte-changes-%zu", b), doc.size() * (sizeof(SUB) + 2), [&](Case& c) {
            vk::Digits d(c.index);
            int k = d.next(sizeof(SUB) + 2);
            string s = doc;
            if (k < (int)sizeof(SUB)) s[d.i] = SUB[k];
            else if (k == (int)sizeof(SUB)) s.erase(d.i, 1);
            else s.insert(d.i, 1, s[d.i]);
            parseCheck(c, s, 0, vk::fmt("by%zu.%llu", b, (unsigned long long)c.index));
            if (!c.failed && th) indexCheck(c, {s, H + ITEM[0] + HE}, vk::fmt("bq%zu", b), false);
        });
        // one item dropped, doubled or swapped at tag granularity
        vector<size_t> cut;
        for (size_t i = 0; i < doc.size(); i++)
            if (doc[i] == '<') cut.push_back(i);
        cut.push_back(doc.size());
        run.forall(vk::fmt("tag-edits-%zu", b), cut.size() * cut.size() * 2, [&](Case& c) {
            vk::Digits d(c.index);
            bool dup = d.next(2);
            size_t i = cut[d.next(cut.size())], j = cut[d.i];
            if (i >= j) return;
            string s = dup ? doc.substr(0, j) + doc.substr(i) : doc.substr(0, i) + doc.substr(j);
            parseCheck(c, s, 0, vk::fmt("te%zu.%llu", b, (unsigned long long)c.index));
        });
    }
    // --- delivery in pieces, on documents larger than the parser's buffers
    run.forall("piecewise", 5 * 7, [&](Case& c) {
        vk::Digits d(c.index);
        static const int ch[] = {1, 2, 3, 5, 17, 255, 4000};
        int chunk = ch[d.next(7)];
        string doc = H;
        for (int i = 0; i < 30 * (int)(d.i + 1); i++)
            doc += vk::fmt("<mws:data mws:data_id=\"k%d\">rec %d %s</mws:data>", i, i, string(i * 3, 'z').c_str()) +
                   vk::fmt("<mws:expr url=\"p%d\" mws:data_id=\"k%d\"><apply><ci>name%d</ci><cn>%d</cn></apply></mws:expr>", i, i - i % 3, i * 1111, i);
        if (!reference(doc + HE).wellFormed) c.fail("the reference rejects the document");
        parseCheck(c, doc + HE, chunk, vk::fmt("pc%llu", (unsigned long long)c.index));
        if (!c.failed) parseCheck(c, doc, chunk, vk::fmt("pd%llu", (unsigned long long)c.index));
    });
    // --- depth and width around the limits of the XML library and the encoder
    run.forall("deep", 12, [&](Case& c) {
        static const int D[] = {1, 10, 100, 200, 250, 252, 253, 254, 255, 256, 300, 5000};
        string doc = H + ITEM[0] + "<mws:expr url=\"deep\">";
        for (int i = 0; i < D[c.index]; i++) doc += "<apply>";
        doc += "<ci>x</ci>";
        for (int i = 0; i < D[c.index]; i++) doc += "</apply>";
        doc += string("</mws:expr>") + ITEM[5] + HE;
        parseCheck(c, doc, 0, "deep");
        if (!c.failed) indexCheck(c, {doc}, "deep", false);
    });
    // an expression with a node too wide to be encoded does not disturb others:
    // its encodable subterms stay searchable
    run.forall("wide", 10, [&](Case& c) {
        static const int W[] = {254, 255, 256, 257, 300, 511, 512, 513, 1000, 5000};
        int w = W[c.index];
        string wide = "<apply>";
        for (int i = 0; i < w; i++) wide += "<ci>a</ci>";
        wide += "</apply>";
        string doc = H + ITEM[0] + "<mws:expr url=\"wide\"><apply><apply><ci>g</ci><ci>a</ci></apply>" + wide + "</apply></mws:expr>" + ITEM[5] + HE;
        parseCheck(c, doc, 0, "wide");
        if (c.failed) return;
        freshDir(c.scratch + "/h");
        vk::writeFile(c.scratch + "/h/a.harvest", doc);
        auto q = memHandler(c.scratch + "/h");
        bool fits = w <= 255;
        struct { T p; size_t n; } ex[] = {{app({ci("g"), qv("x")}), 1}, {app({ci("f"), qv("x")}), 1}, {ci("r1"), 1}, {ci("a"), 2},
                                          {app({qv("x"), qv("y")}), fits ? 3u : 2u}, {qv("x"), 3 + 3 + 3 + (fits ? 2u : 0u)}};
        for (auto& e : ex) {
            Ans a = ask(q.get(), queryXml(e.p));
            c.add("queries");
            c.state(vk::fmt("wide%d", w) + key(e.p));
            if (a.total != (int)e.n || a.hits.size() != e.n) {
                c.desc(vk::fmt("node with %d children; ", w) + queryXml(e.p));
                c.fail("%d hits instead of %zu\n%s", a.total, e.n, hitsStr(a.hits).c_str());
                return;
            }
        }
    });
    // --- recoverable complaints of the XML library (undeclared entity with an
    // external subset): nothing may crash, neighbours stay intact
    run.forall("recoverable-errors", 5 * 5 * 5, [&](Case& c) {
        static const char* P[] = {"", "&no;", "<ci>&no;</ci>", "<apply>&no;<ci>w</ci></apply>", "<mws:data mws:data_id=\"5\">&no;</mws:data>"};
        vk::Digits d(c.index);
        int a = d.next(5), b = d.next(5), e = d.next(5);
        string doc = "<!DOCTYPE mws:harvest SYSTEM \"none.dtd\">" + H + ITEM[0] + P[a] + "<mws:expr url=\"m\"><apply>" + P[b] + "<ci>k</ci></apply>" + P[e] + "</mws:expr>" + ITEM[5] + HE;
        parseCheck(c, doc, 0, vk::fmt("re%llu", (unsigned long long)c.index));
        if (!c.failed) indexCheck(c, {doc}, "re", false);
    });
    // --- several files: each is judged on its own
    static const char* F[] = {"", "<", "<mws:harvest>", "\xff\xfe", "<x/>", nullptr, nullptr, nullptr};
    run.forall("file-combinations", 8 * 8 * 8, [&](Case& c) {
        vk::Digits d(c.index);
        vector<string> docs;
        for (int i = 0; i < 3; i++) {
            int k = d.next(8);
            if (k < 5) docs.push_back(F[k]);
            else if (k == 5) docs.push_back(H + vk::fmt("<mws:data mws:data_id=\"1\">f%d</mws:data>", i) + vk::fmt("<mws:expr url=\"f%d\" mws:data_id=\"1\"><apply><ci>f</ci><ci>a</ci></apply></mws:expr>", i) + HE);
            else if (k == 6) docs.push_back(H + vk::fmt("<mws:expr url=\"g%d\" mws:data_id=\"1\"><ci>a</ci></mws:expr>", i) + HE);
            else docs.push_back(H + vk::fmt("<mws:expr url=\"k%d\"><ci>a</ci></mws:expr><mws:expr url=\"cut\"><ci>", i));
        }
        indexCheck(c, docs, vk::fmt("fc%llu", (unsigned long long)c.index), true);
    });
    return run.finish();
}
