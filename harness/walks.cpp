// C24: walking an index visits every stored formula exactly once.
#define main analytics_main
#include "mws/analytics/analytics.cpp"
#undef main
#undef PRINT_LOG
#include "mwsh.hpp"
#include "mws/index/TmpIndexAccessor.hpp"
#include "mws/index/IndexIterator.hpp"
#include "mws/xmlparser/xmlparser.hpp"
using namespace mwsh;
using vk::Case;
using mws::index::TmpIndexAccessor;
using mws::index::IndexIterator;

typedef map<string, uint64_t> Walk;  // spelled formula -> hits
static Walk g_analyzed;
static int g_begun, g_ended;
static uint64_t g_stopAfter, g_calls;
namespace mws {
namespace analytics {
AnalyticsStatus analyze_begin(const index_handle_t*, const inode_t*) {
    g_begun++;
    return ANALYTICS_OK;
}
static void spellToken(const types::CmmlToken* t, string& o) {
    if (t->getTag().find('#') != string::npos) o += "(part of the text taken for the tag)";
    o += t->getTag() + "#" + t->getTextContent() + vk::fmt("/%zu;", t->getChildNodes().size());
    for (auto* k : t->getChildNodes()) spellToken(k, o);
}
AnalyticsStatus analyze_expression(const types::CmmlToken* t, uint32_t hits) {
    string o;
    spellToken(t, o);
    if (!g_analyzed.insert({o, hits}).second) g_analyzed[o + " AGAIN"] = hits;
    return ++g_calls == g_stopAfter ? ANALYTICS_STOP : ANALYTICS_OK;
}
void analyze_end() { g_ended++; }
}  // namespace analytics
}  // namespace mws

// ------------------------------------------------------------------- oracle
static bool renames(const T& t, bool head) {
    size_t chars = std::count_if(t.text.begin(), t.text.end(), [](char ch) { return (ch & 0xC0) != 0x80; });
    return t.tag == "ci" && chars == 1 && !head;
}
static void number(const T& t, bool head, map<string, string>& ren) {
    if (renames(t, head) && !ren.count(t.text)) ren.insert({t.text, vk::fmt("ci#~%zu", ren.size() + 1)});
    for (size_t i = 0; i < t.kids.size(); i++) number(t.kids[i], i == 0 && t.tag == "apply", ren);
}
struct Vars {
    map<string, int> named;
    int anon = 0, ranges = 0;
};
static void spell(const T& t, bool head, const map<string, string>* ren, Vars& v, string& o) {
    if (isVar(t)) {
        string n = varName(t);
        if (n.empty()) o += vk::fmt("anonymous_hvar#%d/0;", v.anon++);
        else o += vk::fmt("hvar#%d/0;", v.named.insert({n, (int)v.named.size() + 1}).first->second);
        return;
    }
    if (isRange(t)) {
        o += vk::fmt("range#%d/0;", v.ranges++);
        return;
    }
    o += (ren && renames(t, head) ? ren->at(t.text) : label(t)) + vk::fmt("/%zu;", t.kids.size());
    for (size_t i = 0; i < t.kids.size(); i++) spell(t.kids[i], i == 0 && t.tag == "apply", ren, v, o);
}
static void eachSub(const T& t, bool head, const std::function<void(const T&, bool)>& f) {
    f(t, head);
    if (isVar(t) || isRange(t)) return;
    for (size_t i = 0; i < t.kids.size(); i++) eachSub(t.kids[i], i == 0 && t.tag == "apply", f);
}
static Walk oracle(const vector<T>& l, bool rename) {
    Walk w;
    for (auto& t : l) {
        map<string, string> ren;
        if (rename) number(t, false, ren);
        std::set<string> seen;
        eachSub(t, false, [&](const T& s, bool head) {
            Vars v;
            string o;
            spell(s, head, rename ? &ren : nullptr, v, o);
            if (seen.insert(o).second) w[o]++;
        });
    }
    return w;
}
static string show(const Walk& w) {
    string o;
    for (auto& p : w) o += vk::fmt("  %llu x ", (unsigned long long)p.second) + p.first + "\n";
    return o.size() > 4000 ? o.substr(0, 4000) + "...\n" : o;
}
// -------------------------------------------------------------- real walkers
template <class A>
struct Walker : mws::index::IndexIterator<A> {
    vector<uint32_t> open;  // tokens entered and not yet left
    bool balanced = true;
    Walker(typename A::Index* i) : mws::index::IndexIterator<A>(i) {}
    static uint32_t raw(encoded_token_t t) { return (t.id << 8) | t.arity; }
    void onPush(typename A::Iterator it) override { open.push_back(raw(A::getToken(it))); }
    void onPop(typename A::Iterator it) override {
        if (open.empty() || open.back() != raw(A::getToken(it))) balanced = false;
        if (!open.empty()) open.pop_back();
    }
};
static string spellRaw(const vector<uint32_t>& v, const mws::index::ExpressionDecoder& d) {
    string o;
    for (auto x : v) {
        string m = d.getMeaning(x >> 8);
        if (m[0] == '~') m = "ci#" + m;
        o += m + vk::fmt("/%u;", x & 255);
    }
    return o;
}
template <class A>
static string walk(typename A::Index* index, const mws::index::MeaningDictionary& dict, Walk& w, std::set<uint64_t>& ids) {
    mws::index::ExpressionDecoder dec(dict);
    Walker<A> it(index);
    while (auto* n = it.next()) {
        string s = spellRaw(it.open, dec);
        vector<uint32_t> path;
        for (auto& p : it.getPath()) path.push_back(Walker<A>::raw(A::getToken(p)));
        if (path != it.open) return "the path differs from what was entered: " + spellRaw(path, dec) + " instead of " + s;
        if (!w.insert({s, A::getHitsCount(n)}).second) return "visited twice: " + s;
        if (!ids.insert(A::getFormulaId(n)).second) return "two formulae have the same number";
        // the same formula is found by following its tokens
        typename A::Node* f = A::getRootNode(index);
        for (auto x : it.open) {
            encoded_token_t t;
            t.id = x >> 8;
            t.arity = x & 255;
            f = f ? A::getChild(index, f, t) : nullptr;
        }
        if (f != n) return "following the tokens leads elsewhere: " + s;
        if (!it.balanced) return "left something which was not entered";
    }
    if (!it.balanced || !it.open.empty()) return "entered and left do not match";
    return "";
}
static string loggedLast(const string& file) {
    string t = vk::readFile(file), last;
    std::istringstream in(t);
    string l;
    while (std::getline(in, l)) last = l;
    string o;
    for (char ch : last)
        if (ch != ' ') o += ch;
    return o;
}

extern unsigned long long gFarDistance;
// A node with short offsets has children nearer than far only
static string tooFar(const inode_long_t* r, uint64_t far) {
    vector<const char*> l = {(const char*)r};
    while (!l.empty()) {
        const char* p = l.back();
        l.pop_back();
        auto* s = (const inode_t*)p;
        if (s->type == LEAF_NODE) continue;
        for (uint64_t i = 0; i < s->size; i++) {
            uint64_t off = s->type == LONG_INTERNAL_NODE ? ((const inode_long_t*)p)->data[i].off : s->data[i].off;
            if (s->type != LONG_INTERNAL_NODE && off >= far) return vk::fmt("a distance of %llu is written in short form", (unsigned long long)off);
            l.push_back(p - off * MEMSECTOR_ALLOC_UNIT);
        }
    }
    return "";
}
// far: nodes at least this far away (in units of 4 bytes) are written with
// long offsets, which the predicted size does not count; 0: as in the program
static bool checkAll(Case& c, const vector<T>& l, bool rename, bool log, unsigned far = 0) {
    FarNodes fn(&gFarDistance, far ? far : gFarDistance);
    Harvest h;
    for (auto& t : l) h.exprs.push_back({vk::fmt("u%zu", h.exprs.size()), "", t});
    string doc = harvestXml(h);
    c.desc((rename ? "renamed " : "") + (doc.size() > 3000 ? doc.substr(0, 3000) : doc));
    Walk want = oracle(l, rename);
    uint64_t total = 0;
    for (auto& p : want) total += p.second;
    c.add("indexes");
    c.add("formulae", want.size());
    c.beat();
    freshDir(c.scratch + "/h");
    vk::rmTree(c.scratch + "/i");
    vk::writeFile(c.scratch + "/h/a.harvest", doc);
    mws::dbc::MemCrawlDb crawl;
    mws::dbc::MemFormulaDb fdb;
    mws::index::TmpIndex tmp;
    mws::index::MeaningDictionary dict;
    mws::index::ExpressionEncoder::Config ec;
    ec.renameCi = rename;
    mws::index::IndexBuilder b(&fdb, &crawl, &tmp, &dict, ec);
    auto hc = harvestConfig(c.scratch + "/h");
    hc.encoding = ec;
    if (log) hc.statisticsLogFile = c.scratch + "/log";
    uint64_t n = mws::index::loadHarvests(&b, hc);
    Walk got;
    std::set<uint64_t> ids;
    string e = walk<TmpIndexAccessor>(&tmp, dict, got, ids);
    if (e.empty() && got != want) e = "visited\n" + show(got) + "expected\n" + show(want);
    if (e.empty() && n != total) e = vk::fmt("%llu expressions reported, %llu stored", (unsigned long long)n, (unsigned long long)total);
    if (!e.empty()) {
        c.fail("in memory: %s", e.c_str());
        return false;
    }
    uint64_t predicted = tmp.computeMemsectorSize();
    if (log && !l.empty()) {
        string line = vk::fmt("%llu,%zu,%llu", (unsigned long long)total, want.size(), (unsigned long long)predicted);
        if (loggedLast(hc.statisticsLogFile) != line) {
            c.fail("statistics report %s instead of %s", loggedLast(hc.statisticsLogFile).c_str(), line.c_str());
            return false;
        }
    }
    if (l.empty()) return true;  // nothing to store
    if (buildIndex(c.scratch + "/h", c.scratch + "/i", rename) != 0) {
        c.fail("creation failed");
        return false;
    }
    mws::index::LoadingOptions lo;
    lo.includeHits = false;
    mws::index::IndexLoader loader(c.scratch + "/i", lo);
    Walk disk;
    ids.clear();
    e = walk<mws::index::IndexAccessor>(loader.getIndexHandle(), *loader.getMeaningDictionary(), disk, ids);
    if (e.empty() && far) e = tooFar(loader.getIndexHandle()->root, far);
    if (e.empty() && disk != want) e = "visited\n" + show(disk) + "expected\n" + show(want);
    uint64_t written = loader.getIndexHandle()->ms->index_size;
    if (e.empty() && !far && written != predicted)
        e = vk::fmt("%llu bytes written, %llu predicted", (unsigned long long)written, (unsigned long long)predicted);
    if (!e.empty()) {
        c.fail("stored: %s", e.c_str());
        return false;
    }
    g_analyzed.clear();
    g_begun = g_ended = 0;
    g_stopAfter = g_calls = 0;
    c.beat();
    mws::analytics::analyze(&loader);
    if (g_analyzed != want || g_begun != 1 || g_ended != 1) {
        c.fail("analysed (begun %d, ended %d)\n%sexpected\n%s", g_begun, g_ended, show(g_analyzed).c_str(), show(want).c_str());
        return false;
    }
    // an analysis which stops early reports no more
    if (want.size() > 1) {
        g_analyzed.clear();
        g_calls = 0;
        g_stopAfter = 1 + c.index % want.size();
        mws::analytics::analyze(&loader);
        bool sub = g_analyzed.size() == g_stopAfter && g_calls == g_stopAfter;
        for (auto& p : g_analyzed) sub = sub && want.count(p.first) && want[p.first] == p.second;
        if (!sub) {
            c.fail("stopped after %llu: %zu reported in %llu calls", (unsigned long long)g_stopAfter, g_analyzed.size(), (unsigned long long)g_calls);
            return false;
        }
    }
    c.state(show(want));
    return true;
}

// ---------------------------------------- tries with short and long branches
struct Node {
    map<uint32_t, Node> kids;  // token -> child
    uint32_t hits = 0, id = 0;
};
static uint64_t writeNode(memsector_writer_t* w, const Node& n, unsigned& longs) {
    if (n.kids.empty()) return memsector_write_leaf(w, n.hits, n.id);
    vector<std::pair<encoded_token_t, uint64_t>> offs;
    for (auto& k : n.kids) {
        encoded_token_t t;
        t.id = k.first >> 8;
        t.arity = k.first & 255;
        offs.push_back({t, writeNode(w, k.second, longs)});
    }
    std::sort(offs.begin(), offs.end(), [](const std::pair<encoded_token_t, uint64_t>& a, const std::pair<encoded_token_t, uint64_t>& b) {
        return memcmp(&a.first, &b.first, sizeof a.first) < 0;
    });
    bool isLong = longs & 1;
    longs >>= 1;
    uint64_t cur = memsector_get_current_offset(w);
    // a child which seems to be far away makes the writer use long offsets
    memsector_write_inode_begin(w, offs.size(), isLong ? cur + 1 : offs.front().second);
    for (auto& o : offs) memsector_write_inode_encoded_token_entry(w, o.first, cur - o.second);
    memsector_write_inode_end(w);
    return cur;
}
static unsigned inner(const Node& n) {
    unsigned k = !n.kids.empty();
    for (auto& x : n.kids) k += inner(x.second);
    return k;
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C24", "model_checking");
    run.declare({"indexes", "formulae"});
    run.transitionsCounter = "formulae";
    run.tracesCounter = "indexes";
    run.rule = "state = set of stored formulae with their numbers of hits; every list of small formulae is indexed by the "
               "real code, walked in memory, stored, walked again, analysed, and each walk compared with the set of "
               "subterms computed from the formulae; additionally every small trie with every assignment of short and "
               "long branches is written and walked";
    run.assumptions.push_back("indexes above 16 GiB are not built; their long branches are exercised by writing them for small offsets");
    mws::parser::initxmlparser();
    const bool th = run.thorough;
    TermGen g({ci("x"), cn("1"), ci("xy")}, {app({}), T("b", "")}, 3);
    vector<T> t4 = g.upTo(th ? 5 : 4);
    run.forall("single formulae", t4.size(), [&](Case& c) { checkAll(c, {t4[c.index]}, c.index & 1, true); });
    TermGen g2({ci("x"), ci("y")}, {app({})}, 3);
    vector<T> t3 = g2.upTo(th ? 5 : 4);
    uint64_t n = t3.size();
    run.forall("pairs of formulae", n * n, [&](Case& c) {
        vk::Digits d(c.index);
        vector<T> l = {t3[d.next(n)], t3[d.next(n)]};
        checkAll(c, l, false, false) && checkAll(c, l, true, true);
    });
    vector<T> few = g2.upTo(3);
    uint64_t m = few.size();
    run.forall("triples of formulae", m * m * m, [&](Case& c) {
        vk::Digits d(c.index);
        checkAll(c, {few[d.next(m)], few[d.next(m)], few[d.next(m)]}, false, true);
    });
    TermGen gv({ci("x"), qv("a"), qv("b"), qv(""), range("1", "2")}, {app({}), T("b", "")}, 3);
    vector<T> tv = gv.upTo(4);
    run.forall("variables", tv.size(), [&](Case& c) { checkAll(c, {tv[c.index]}, c.index & 1, false); });
    {
        const char* const CH[] = {"a", "#", "\xc3\xa9", "~", "&", "\xe2\x88\xab", "1", "<"};
        vector<string> texts;
        for (unsigned len = 1; len <= (th ? 4 : 3); len++) {
            vector<unsigned> q(len, 0);
            for (;;) {
                string t;
                for (auto x : q) t += CH[x];
                texts.push_back(t);
                unsigned i = 0;
                while (i < len && ++q[i] == 8) q[i++] = 0;
                if (i == len) break;
            }
        }
        run.forall("odd symbols", texts.size() * 2, [&](Case& c) {
            auto& t = texts[c.index / 2];
            // a renamed identifier is shown like one called ~1
            if (c.index & 1 && t[0] == '~') return;
            checkAll(c, {ci(t), app({T("csymbol", t), cn(t), ci("x")}), T("a", t)}, c.index & 1, true);
        });
    }
    run.forall("far nodes", (t3.size() * t3.size() + 6) * 3, [&](Case& c) {
        vk::Digits d(c.index);
        const unsigned far[] = {1, 4, 9};
        unsigned f = far[d.next(3)];
        uint64_t i = c.index / 3;
        vector<T> l;
        if (i < n * n) l = {t3[i / n], t3[i % n]};
        else {
            T t("b", "");
            for (unsigned k = 0; k < 20 * (i - n * n + 1); k++) {
                t.kids.push_back(ci(vk::fmt("v%u", k)));
                l.push_back(app({T("plus", ""), ci(vk::fmt("w%u", k)), cn(vk::fmt("%u", k % 7))}));
            }
            l.push_back(t);
        }
        checkAll(c, l, false, false, f);
    });
    run.forall("empty", 2, [&](Case& c) { checkAll(c, {}, c.index, true); });
    run.forall("large", th ? 60 : 24, [&](Case& c) {
        vk::Digits d(c.index);
        int k = d.next(4), z = d.next(15);
        unsigned s = z * (z + 1) * 2 + 1;
        T t("b", "");
        if (k == 0)
            for (unsigned i = 0; i < std::min(s, 255u); i++) t.kids.push_back(ci(vk::fmt("v%u", i)));
        if (k == 1)
            for (unsigned i = 0; i < std::min(s, 150u); i++) t = i % 3 ? app({T("sin", ""), t}) : T("b", "", {t, cn(vk::fmt("%u", i))});
        vector<T> l = {t};
        if (k == 2)
            for (unsigned i = 0; i < s; i++) l.push_back(app({T("plus", ""), ci(vk::fmt("w%u", i)), cn(vk::fmt("%u", i % 7))}));
        if (k == 3)
            for (unsigned i = 0; i < s; i++) l.push_back(ci("x"));
        checkAll(c, l, false, true);
    });
    // more than 16 bits' worth of hits, of formulae; wide nodes
    run.forall("many", th ? 8 : 4, [&](Case& c) {
        vector<T> l;
        const unsigned z = 66000 + c.index / 4 * 30000;
        switch (c.index % 4) {
        case 0:
            for (unsigned i = 0; i < z; i++) l.push_back(ci("x"));
            break;
        case 1:
            for (unsigned i = 0; i < z; i++)
                l.push_back(T("b", "", {cn(vk::fmt("%u", i % 260)), cn(vk::fmt("%u", i / 260))}));
            break;
        case 2:
            for (unsigned i = 0; i < (c.index < 4 ? 9000 : 20000); i++) l.push_back(T("b", "", {cn(vk::fmt("%u", i)), ci("x")}));
            break;
        default: {  // one formula with many different subterms, then each of them again
            T t("b", "");
            for (int again = 0; again < 2; again++)
                for (unsigned i = 0; i < 100; i++) {
                    T u(again ? "c" : "b", "");
                    for (unsigned k = 0; k < 100; k++) u.kids.push_back(cn(vk::fmt("%u", i * 100 + k)));
                    t.kids.push_back(u);
                }
            l.push_back(t);
        }
        }
        checkAll(c, l, false, true);
    }, 1);
    // tries: formulae over two symbols of arity 0, two of arity 1 and one of arity 2
    {
        const uint32_t TOK[] = {200u << 8, 300u << 8 | 0, 201u << 8 | 1, 65000u << 8 | 1, 202u << 8 | 2};
        vector<vector<uint32_t>> fs;
        std::function<void(vector<uint32_t>, int)> gen = [&](vector<uint32_t> p, int open) {
            if (open == 0) {
                fs.push_back(p);
                return;
            }
            if (p.size() + open > 3) return;
            for (auto t : TOK) {
                auto q = p;
                q.push_back(t);
                gen(q, open - 1 + (t & 255));
            }
        };
        gen({}, 1);
        uint64_t f = fs.size(), sets = f + f * f + (th ? f * f * f : 0);
        run.forall("short and long branches", sets, [&](Case& c) {
            vector<vector<uint32_t>> l;
            uint64_t i = c.index;
            if (i < f) l = {fs[i]};
            else if (i < f + f * f) l = {fs[(i - f) / f], fs[(i - f) % f]};
            else {
                i -= f + f * f;
                l = {fs[i / f / f], fs[i / f % f], fs[i % f]};
            }
            Node root;
            map<vector<uint32_t>, uint64_t> want;
            for (auto& x : l) {
                Node* p = &root;
                for (auto t : x) p = &p->kids[t];
                p->hits++;
                want[x]++;
            }
            uint32_t id = 0;
            std::function<void(Node&)> ids = [&](Node& x) {
                if (x.kids.empty()) x.id = ++id;
                for (auto& k : x.kids) ids(k.second);
            };
            ids(root);
            unsigned nodes = inner(root);
            for (unsigned mask = 0; mask < 1u << nodes; mask++) {
                string file = c.scratch + "/ms";
                c.desc(vk::fmt("set %llu, long branches %x", (unsigned long long)c.index, mask));
                c.add("indexes");
                c.add("formulae", want.size());
                memsector_writer_t w;
                memsector_handle_t h;
                unsigned longs = mask;
                if (memsector_create(&w, file.c_str()) != 0) return c.fail("create");
                uint64_t off = writeNode(&w, root, longs);
                if (memsector_save(&w, off) != 0) return c.fail("save");
                if (memsector_load(&h, file.c_str()) != 0) return c.fail("what was written is refused");
                index_handle_t ix;
                ix.ms = h.ms;
                ix.root = memsector_get_root(&h);
                Walker<mws::index::IndexAccessor> it(&ix);
                map<vector<uint32_t>, uint64_t> got;
                string e;
                while (auto* x = it.next()) {
                    got[it.open] += mws::index::IndexAccessor::getHitsCount(x);
                    const inode_t* p = mws::index::IndexAccessor::getRootNode(&ix);
                    for (auto t : it.open) p = p ? mws::index::IndexAccessor::getChild(&ix, p, encoded_token(t >> 8, t & 255)) : nullptr;
                    if (p != x) e = "following the tokens leads elsewhere";
                    if (mws::index::IndexAccessor::getChild(&ix, mws::index::IndexAccessor::getRootNode(&ix), encoded_token(250, 0)))
                        e = "a child which does not exist";
                }
                if (!it.balanced || !it.open.empty()) e = "entered and left do not match";
                if (got != want) e = vk::fmt("%zu formulae visited, %zu stored", got.size(), want.size());
                memsector_unload(&h);
                if (!e.empty()) return c.fail("%s", e.c_str());
                c.state(vk::fmt("t%llu", (unsigned long long)c.index));
            }
        });
        // positions of nodes are exact at any size
        run.forall("positions", 40 * 3, [&](Case& c) {
            vk::Digits d(c.index);
            unsigned bit = d.next(40);
            int delta = (int)d.next(3) - 1;
            uint64_t at = (1ull << bit) + delta;
            if (at < 16) return;
            c.desc(vk::fmt("after %llu units", (unsigned long long)at));
            c.add("indexes");
            c.add("formulae");
            memsector_writer_t w;
            if (memsector_create(&w, (c.scratch + "/ms").c_str()) != 0) return c.fail("create");
            w.offset = at * MEMSECTOR_ALLOC_UNIT;
            uint64_t leaf = memsector_write_leaf(&w, 1, 1);
            uint64_t node = memsector_write_inode_begin(&w, 1, leaf);
            memsector_write_inode_encoded_token_entry(&w, encoded_token(200, 0), node - leaf);
            memsector_write_inode_end(&w);
            fclose(w.file);
            if (leaf != at || node != at + memsector_leaf_size() / MEMSECTOR_ALLOC_UNIT)
                c.fail("nodes at %llu and %llu are taken to be at %llu and %llu", (unsigned long long)at,
                       (unsigned long long)(at + memsector_leaf_size() / MEMSECTOR_ALLOC_UNIT), (unsigned long long)leaf, (unsigned long long)node);
        });
    }
    return run.finish();
}
