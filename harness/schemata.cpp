// C12: schemata partition the input formulae and every member is an instance.
#include "mwsh.hpp"
#include "mws/daemon/SchemaQueryHandler.hpp"
#include "mws/types/SchemaAnswset.hpp"
#include "mws/xmlparser/xmlparser.hpp"
using namespace mwsh;
using vk::Case;
using mws::SchemaAnswset;
using mws::types::CmmlToken;

// ------------------------------------------------------- reference reduction
// a schema keeps the nodes above the cut and, at any depth, the operator of
// every application it keeps; everything else becomes a variable
struct Cut {
    string key;              // canonical form of the schema
    vector<string> substs;   // xref of each replaced subterm, in order
};
static bool oneChar(const string& s) {
    return std::count_if(s.begin(), s.end(), [](char ch) { return (ch & 0xC0) != 0x80; }) == 1;
}
static string renamed(const T& t, bool isHead, map<string, string>* ren) {
    if (ren && t.tag == "ci" && oneChar(t.text) && !isHead) {
        auto it = ren->find(t.text);
        if (it == ren->end()) it = ren->insert({t.text, vk::fmt("ci~%zu", ren->size())}).first;
        return it->second;
    }
    return label(t);
}
static string xref(const T& t) {
    for (auto& a : t.attrs)
        if (a.first == "xref") return a.second;
    return "";
}
static void numberAll(const T& t, bool isHead, map<string, string>* ren) {
    renamed(t, isHead, ren);
    for (size_t i = 0; i < t.kids.size(); i++) numberAll(t.kids[i], i == 0 && t.tag == "apply", ren);
}
static void cutTo(const T& t, uint64_t depth, uint64_t d, bool isHead, map<string, string>* ren, Cut& o) {
    bool keep = depth < d || (isHead && d > 0);
    if (!keep) {
        o.key += "?";
        string x = xref(t);
        if (!x.empty()) o.substs.push_back(x);
        if (ren) numberAll(t, isHead, ren);  // identifiers count even when cut
        return;
    }
    o.key += renamed(t, isHead, ren) + vk::fmt("/%zu[", t.kids.size());
    for (size_t i = 0; i < t.kids.size(); i++)
        cutTo(t.kids[i], depth + 1, d, i == 0 && t.tag == "apply", ren, o);
    o.key += "]";
}
static uint64_t height(const T& t) {
    uint64_t h = 0;
    for (auto& k : t.kids) h = std::max(h, height(k) + 1);
    return h;
}
static bool tooWide(const T& t) {
    if (t.kids.size() > 255) return true;
    for (auto& k : t.kids)
        if (tooWide(k)) return true;
    return false;
}
static void setXrefs(T& t, const string& pre, int& n) {
    t.attrs.push_back({"xref", pre + std::to_string(n++)});
    for (auto& k : t.kids) setXrefs(k, pre, n);
}
// the schema tree of the answer against the member it was made from
static bool sameSchema(const CmmlToken* s, const T& t, uint64_t depth, uint64_t d, bool isHead, bool ren,
                       map<string, string>& fw, map<string, string>& bw, std::set<string>& vars, string& why) {
    bool keep = depth < d || (isHead && d > 0);
    if (!keep) {
        if (s->getTag() != "mws:qvar" || !s->getChildNodes().empty()) {
            why = "no variable where the formula was cut";
            return false;
        }
        if (!vars.insert(s->getTextContent()).second) {
            why = "two variables have the same name";
            return false;
        }
        return true;
    }
    string want = label(t);
    if (ren && t.tag == "ci" && oneChar(t.text) && !isHead) {
        if (s->getTag() != "ci") {
            why = "identifier became an element " + s->getTag();
            return false;
        }
        string r = s->getTextContent();
        auto a = fw.insert({t.text, r}).first, b = bw.insert({r, t.text}).first;
        if (a->second != r || b->second != t.text) {
            why = "identifiers are not renamed consistently";
            return false;
        }
    } else if (s->getTag() + "#" + s->getTextContent() != want ||
               s->getTag() != want.substr(0, want.find('#'))) {  // tags contain no #
        why = "node " + s->getTag() + "#" + s->getTextContent() + " instead of " + want;
        return false;
    }
    if (s->getChildNodes().size() != t.kids.size()) {
        why = "number of children differs";
        return false;
    }
    size_t i = 0;
    for (auto* k : s->getChildNodes()) {
        if (!sameSchema(k, t.kids[i], depth + 1, d, i == 0 && t.tag == "apply", ren, fw, bw, vars, why)) return false;
        i++;
    }
    return true;
}
struct Ask {
    string depth;
    char mode = 'A';
    string modeAttr = "A";  // attribute value, "" = no attribute
    long limit = 0;         // 0 = all
    bool ren = false;
};
static string showList(const vector<T>& l, const Ask& a) {
    string o = vk::fmt("depth=%s mode=%s limit=%ld renaming=%d\n", a.depth.c_str(), a.modeAttr.c_str(), a.limit, a.ren);
    for (size_t i = 0; i < l.size() && i < 8; i++) {
        string x = xml(l[i]);
        o += "  " + (x.size() > 600 ? x.substr(0, 600) + "..." : x) + "\n";
    }
    return o;
}
static string checkList(const vector<T>& l, const Ask& a, bool viaXml, size_t* found = nullptr) {
    string q = string("<mws:query") + NS() + vk::fmt(" answsize=\"%ld\" schema_depth=\"%s\"", a.limit, a.depth.c_str());
    if (!a.modeAttr.empty()) q += " cutoff_mode=\"" + a.modeAttr + "\"";
    q += ">";
    if (viaXml)
        for (auto& t : l) q += "<mws:expr>" + xml(t) + "</mws:expr>";
    q += "</mws:query>";
    std::unique_ptr<mws::types::Query> query;
    query = parseQuery(q, mws::xmlparser::QUERY_SCHEMA);
    if (!query) return "query refused";
    mws::index::ExpressionEncoder::Config cfg;
    cfg.renameCi = a.ren;
    mws::daemon::SchemaQueryHandler h(cfg);
    std::unique_ptr<mws::GenericAnswer> g(h.handleQuery(query.get()));
    auto* s = dynamic_cast<SchemaAnswset*>(g.get());
    if (!s) return "no answer";
    // the expected partition
    uint64_t D = strtoul(a.depth.c_str(), nullptr, 10);
    if (a.mode == 'R')  // percentages whose product is rounded differently by doubles are left open
        for (auto& t : l)
            if ((uint64_t)(0.01 * D * height(t)) != D * height(t) / 100) return "";
    map<string, std::set<uint32_t>> groups;
    vector<Cut> cuts(l.size());
    vector<uint64_t> ds(l.size());
    for (size_t i = 0; i < l.size(); i++) {
        if (tooWide(l[i])) continue;
        ds[i] = a.mode == 'R' ? D * height(l[i]) / 100 : D;
        map<string, string> ren;
        cutTo(l[i], 0, ds[i], false, a.ren ? &ren : nullptr, cuts[i]);
        groups[cuts[i].key].insert(i);
    }
    if (found) *found = groups.size();
    if (s->total != (int)groups.size()) return vk::fmt("total is %d instead of %zu", s->total, groups.size());
    vector<size_t> sizes;
    for (auto& x : groups) sizes.push_back(x.second.size());
    std::sort(sizes.rbegin(), sizes.rend());
    size_t want = a.limit > 0 ? std::min<size_t>(a.limit, sizes.size()) : sizes.size();
    if (s->schemata.size() != want) return vk::fmt("%zu schemata instead of %zu", s->schemata.size(), want);
    std::set<string> seen;
    for (size_t i = 0; i < want; i++) {
        auto& e = s->schemata[i];
        if (e.coverage != sizes[i]) return vk::fmt("schema %zu covers %zu formulae instead of %zu", i, e.coverage, sizes[i]);
        if (e.formulae.size() != e.coverage) return vk::fmt("schema %zu lists %zu members but covers %zu", i, e.formulae.size(), e.coverage);
        std::set<uint32_t> m(e.formulae.begin(), e.formulae.end());
        if (m.size() != e.formulae.size()) return vk::fmt("schema %zu lists a member twice", i);
        for (auto f : m)
            if (f >= l.size()) return vk::fmt("schema %zu lists formula %u", i, f);
        const string& key = cuts[*m.begin()].key;
        if (groups.count(key) == 0 || groups[key] != m) {
            string o = vk::fmt("members of schema %zu are not a class:", i);
            for (auto f : m) o += vk::fmt(" %u", f);
            return o;
        }
        if (!seen.insert(key).second) return vk::fmt("schema %zu repeats a class", i);
        map<string, string> fw, bw;
        std::set<string> vars;
        string why;
        if (!sameSchema(e.root, l[*m.begin()], 0, ds[*m.begin()], false, a.ren, fw, bw, vars, why))
            return vk::fmt("schema %zu does not generalise its members: %s\n%s", i, why.c_str(), e.root->toString().c_str());
        bool ok = false;
        for (auto f : m) ok = ok || cuts[f].substs == e.subst;
        if (!ok) {
            string o = vk::fmt("substitutions of schema %zu are those of no member:", i);
            for (auto& x : e.subst) o += " " + x;
            o += "\n" + e.root->toString();
            return o;
        }
    }
    return "";
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C12", "model_checking");
    run.declare({"lists", "schemata"});
    run.transitionsCounter = "schemata";
    run.tracesCounter = "lists";
    run.rule = "every list of formulae over all small trees up to the bounds, with every depth, cutoff mode and "
               "limit; the answer is compared with the partition computed by an independent recursive definition";
    run.assumptions.push_back("formulae contain no query variables; formulae with a node of more than 255 children are left out by the engine");
    mws::parser::initxmlparser();
    const bool th = run.thorough;

    auto go = [&](Case& c, const vector<T>& l, const Ask& a) {
        vector<T> x = l;
        for (size_t i = 0; i < x.size(); i++) {
            int n = 0;
            setXrefs(x[i], vk::fmt("f%zu.", i), n);
        }
        c.desc(showList(x, a));
        c.add("lists");
        size_t found = 0;
        string e = checkList(x, a, true, &found);
        c.add("schemata", found);
        if (!e.empty()) {
            c.fail("%s", e.c_str());
            return false;
        }
        return true;
    };
    auto A = [](int d) {
        Ask a;
        a.depth = std::to_string(d);
        return a;
    };
    auto R = [](int d) {
        Ask a;
        a.depth = std::to_string(d);
        a.mode = 'R';
        a.modeAttr = "R";
        return a;
    };
    // ---- pairs of one-symbol trees: only the shape tells them apart
    {
        vector<Ask> asks;
        for (int d = 0; d <= 7; d++) asks.push_back(A(d));
        asks.push_back(A(255));
        for (int d : {25, 50, 75, 100, 150, 200, 255}) asks.push_back(R(d));
        TermGen g({T("a", "")}, {T("a", "")}, 6);
        vector<T> ts = g.upTo(th ? 8 : 6);
        run.forall("one-symbol pairs", (uint64_t)ts.size() * (ts.size() + 1) / 2, [&](Case& c) {
            uint64_t i = 0, k = c.index;
            while (k > i) {
                k -= i + 1;
                i++;
            }
            for (auto& a : asks)
                if (!go(c, {ts[i], ts[k]}, a)) return;
            if (k == 0) c.state("s" + key(ts[i]));
        });
    }
    // ---- pairs with applications: operators survive the cut
    {
        vector<Ask> asks;
        for (int d = 0; d <= 5; d++) asks.push_back(A(d));
        for (int d : {30, 50, 80, 100}) asks.push_back(R(d));
        TermGen g({ci("x")}, {app({}), T("b", "")}, 5);
        vector<T> ts = g.upTo(th ? 6 : 5);
        run.forall("application pairs", (uint64_t)ts.size() * (ts.size() + 1) / 2, [&](Case& c) {
            uint64_t i = 0, k = c.index;
            while (k > i) {
                k -= i + 1;
                i++;
            }
            for (auto& a : asks)
                if (!go(c, {ts[i], ts[k]}, a)) return;
            if (k == 0) c.state("a" + key(ts[i]));
        });
        // deeper single applications
        vector<T> big = g.upTo(th ? 8 : 7);
        run.forall("single applications", big.size(), [&](Case& c) {
            for (auto& a : asks)
                if (!go(c, {big[c.index]}, a)) return;
            c.state("b" + key(big[c.index]));
        });
    }
    // ---- labelled lists: every list, every limit
    {
        TermGen g({ci("x"), ci("y"), cn("1")}, {app({}), T("b", "")}, 2);
        vector<T> ts = g.upTo(3);
        vector<T> few;  // a selection which collides at several depths
        for (auto& t : ts)
            if (t.size() != 3 || t.kids.size() == 2 || key(t).find("y") == string::npos) few.push_back(t);
        if (few.size() > (th ? 40 : 16)) {
            vector<T> f;
            for (size_t i = 0; i < (th ? 40u : 16u); i++) f.push_back(few[i * few.size() / (th ? 40 : 16)]);
            few = f;
        }
        uint64_t n = few.size();
        run.forall("triples", n * n * n, [&](Case& c) {
            vk::Digits d(c.index);
            vector<T> l = {few[d.next(n)], few[d.next(n)], few[d.next(n)]};
            for (int depth = 0; depth <= 3; depth++)
                for (long lim = 0; lim <= 3; lim++) {
                    Ask a = A(depth);
                    a.limit = lim;
                    if (!go(c, l, a)) return;
                }
            c.state(key(l[0]) + key(l[1]) + key(l[2]));
        });
        vector<T> five(few.begin(), few.begin() + 5);
        int len = th ? 7 : 5;
        uint64_t m = 1;
        for (int i = 0; i < len; i++) m *= 5;
        run.forall("long lists", m, [&](Case& c) {
            vk::Digits d(c.index);
            vector<T> l;
            for (int i = 0; i < len; i++) l.push_back(five[d.next(5)]);
            for (int depth : {0, 1, 9})
                for (long lim : {0, 1, 2, 100}) {
                    Ask a = A(depth);
                    a.limit = lim;
                    if (!go(c, l, a)) return;
                }
        });
    }
    // ---- more formulae than fit into a byte
    {
        const unsigned Z[] = {0, 1, 2, 255, 256, 257, 300, 511};
        run.forall("many formulae", 8 * 8 * 3, [&](Case& c) {
            vk::Digits d(c.index);
            unsigned a = Z[d.next(8)], b = Z[d.next(8)], order = d.next(3), k = 3;
            vector<T> l;
            auto add = [&](unsigned which) {
                T x = cn(vk::fmt("%zu", l.size() % 9));
                l.push_back(which == 0 ? app({T("plus", ""), x, ci("y")}) : which == 1 ? app({T("times", ""), x}) : app({T("sin", ""), ci("z")}));
            };
            if (order != 1)
                for (unsigned i = 0; i < a + b + k; i++) {
                    if (order == 0) add(i < k ? 2 : i < k + a ? 0 : 1);
                    else add(i < b ? 1 : i < b + a ? 0 : 2);
                }
            else
                for (unsigned i = 0; i < 511; i++) {
                    if (i < a) add(0);
                    if (i < b) add(1);
                    if (i < k) add(2);
                }
            for (long lim : {0, 1, 2}) {
                Ask q = A(1);
                q.limit = lim;
                if (!go(c, l, q)) return;
            }
        }, 8);
    }
    // ---- symbols with unusual texts and names
    {
        vector<T> odd;
        for (auto x : {"a#b", "#", "a#", "#a", "##", "a b", "<", ">&", "\"'", "0", "x0", "x1", "\xce\xb1", "apply", "a", "b", "3.50", "-1"}) {
            odd.push_back(ci(x));
            odd.push_back(T("csymbol", x));
            odd.push_back(cn(x));
        }
        for (auto x : {"b", "ci2", "c", "sin", "mi", "interval"}) odd.push_back(T(x, ""));
        uint64_t n = odd.size();
        run.forall("unusual symbols", n * n * 3, [&](Case& c) {
            vk::Digits d(c.index);
            const T &x = odd[d.next(n)], &y = odd[d.next(n)];
            int k = d.next(3);
            vector<T> l;
            if (k == 0) l = {x, y};
            if (k == 1) l = {app({x, y}), app({y, x}), x};
            if (k == 2) l = {T("b", "", {app({T("f", ""), x}), y}), T("b", "", {app({T("f", ""), x}), x}), app({x, app({y, x}), y})};
            for (int depth = 0; depth <= 4; depth++)
                for (int ren = 0; ren < 2; ren++) {
                    Ask a = A(depth);
                    a.ren = ren;
                    if (!go(c, l, a)) return;
                }
            c.state("o" + key(x) + key(y));
        });
    }
    // ---- renaming of identifiers
    {
        TermGen g({ci("x"), ci("y"), ci("xy")}, {app({})}, 3);
        vector<T> ts = g.upTo(4);
        uint64_t n = ts.size();
        run.forall("renamed pairs", n * n, [&](Case& c) {
            vk::Digits d(c.index);
            vector<T> l = {ts[d.next(n)], ts[d.next(n)]};
            for (int depth : {0, 1, 2, 9}) {
                Ask a = A(depth);
                a.ren = true;
                if (!go(c, l, a)) return;
            }
        });
    }
    // ---- wide, deep, odd attributes, odd symbols
    {
        T wide("cerror", "");
        for (int i = 0; i < 256; i++) wide.kids.push_back(ci("x"));
        T almost("cerror", "");
        for (int i = 0; i < 255; i++) almost.kids.push_back(ci("x"));
        T inner = app({ci("f"), wide});
        vector<T> pool = {ci("x"), app({ci("f"), ci("y")}), wide, inner, almost};
        run.forall("wide", 5 * 5 * 5 * 5, [&](Case& c) {
            vk::Digits d(c.index);
            vector<T> l;
            for (int i = 0; i < 4; i++) l.push_back(pool[d.next(5)]);
            for (int depth : {0, 1, 2, 5})
                for (long lim : {0, 2}) {
                    Ask a = A(depth);
                    a.limit = lim;
                    if (!go(c, l, a)) return;
                }
        });
        auto chain = [](int n, const char* leaf) {
            T t = ci(leaf);
            for (int i = 0; i < n; i++) {
                T u("s", "");
                u.kids.push_back(t);
                t = u;
            }
            return t;
        };
        const vector<int> lens = th ? vector<int>{1, 2, 126, 127, 128, 199, 200, 250, 252} : vector<int>{1, 2, 128, 200, 252};
        const vector<int> depths = {0, 1, 2, 127, 128, 200, 251, 252, 253, 255, 256, 257, 300, 512, 1000, 65536};
        run.forall("deep", lens.size() * lens.size() * depths.size(), [&](Case& c) {
            vk::Digits d(c.index);
            int a = lens[d.next(lens.size())], b = lens[d.next(lens.size())];
            int depth = depths[d.next(depths.size())];
            vector<T> l = {chain(a, "x"), chain(b, "y"), chain(b, "z")};
            if (!go(c, l, A(depth))) return;
            if (depth == 256)
                for (int p : {1, 50, 100, 150, 255})
                    if (!go(c, l, R(p))) return;
            c.state(vk::fmt("deep%d|%d|%d", a, b, depth));
        });
        run.forall("cutoff mode attribute", 6 * 4, [&](Case& c) {
            vk::Digits d(c.index);
            const char* modes[] = {"", "A", "R", "X", "Absolute", "Relative"};
            const char* m = modes[d.next(6)];
            int depth = d.next(4);
            Ask a = A(depth);
            a.modeAttr = m;
            a.mode = m[0] == 'R' ? 'R' : 'A';
            // freshly allocated queries must not depend on what was freed before
            for (int i = 0; i < 20; i++) {
                vector<char*> junk;
                for (int k = 0; k < 50; k++) {
                    junk.push_back((char*)malloc(sizeof(mws::types::Query)));
                    memset(junk.back(), i % 2 ? 'R' : 'A', sizeof(mws::types::Query));
                }
                for (auto j : junk) free(j);
                if (!go(c, {app({ci("f"), app({ci("g"), ci("x")})}), app({ci("f"), ci("x")})}, a)) return;
            }
        });
        // symbols with the separators of the engine's own encodings in them
        vector<T> odd = {ci("a#b"), ci("#"), ci("a"), ci("b"), T("mtext", "t"), T("mtext", "u"), T("csymbol", "~1"),
                         T("applyx", ""), T("apply", "q"), ci("1 2"), cn("12"), T("range", "0"), T("hvar", "0"), ci("\xc3\xa9"), T("m:ci", "a")};
        uint64_t n = odd.size();
        run.forall("odd symbols", n * n * n, [&](Case& c) {
            vk::Digits d(c.index);
            T x = odd[d.next(n)], y = odd[d.next(n)], z = odd[d.next(n)];
            vector<T> l = {x, y, app({x, y}), T("b", "", {y, z}), app({z, z})};
            for (int depth : {0, 1, 2, 9}) {
                for (auto& t : l)
                    (void)t;
                if (!go(c, l, A(depth))) return;
            }
        });
        run.forall("without references", 40, [&](Case& c) {
            int depth = c.index % 4;
            vector<T> l = {app({ci("f"), ci("x")}), ci("x"), app({ci("f"), ci("y")})};
            Ask a = A(depth);
            a.limit = c.index / 4 % 4;
            c.desc(showList(l, a));
            c.add("lists");
            string e = checkList(l, a, true);
            if (!e.empty()) c.fail("%s", e.c_str());
        });
    }
    return run.finish();
}
