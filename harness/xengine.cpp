// C13: the experimental engine finds what the regular engine finds.
#include "mwsh.hpp"
#include "mws/xmlparser/xmlparser.hpp"
using namespace mwsh;
using vk::Case;

extern unsigned long long gFarDistance;
static const unsigned long long FAR[] = {0, 1, 3, 5, 8, 12, 20, 40};
struct Two {
    std::unique_ptr<mws::daemon::QueryHandler> reg, exp;
};
static bool setup(Case& c, const Harvest& h, Two& b) {
    freshDir(c.scratch + "/h");
    vk::rmTree(c.scratch + "/idx");
    string doc = harvestXml(h);
    vk::writeFile(c.scratch + "/h/a.harvest", doc);
    c.desc(doc.size() > 4000 ? doc.substr(0, 4000) + "..." : doc);
    c.add("indexes");
    if (buildIndex(c.scratch + "/h", c.scratch + "/idx") != 0) {
        c.fail("index creation failed");
        return false;
    }
    vk::rmTree(c.scratch + "/idx2");
    vk::copyTree(c.scratch + "/idx", c.scratch + "/idx2");
    b.reg = idxHandler(c.scratch + "/idx");
    b.exp = idxHandler(c.scratch + "/idx2", false, true);
    return true;
}
static string cut(const string& s) { return s.size() > 1500 ? s.substr(0, 1500) + "..." : s; }
// both engines and the definition of search itself
static bool same(Case& c, Two& b, const Harvest* h, const T& p, const QOpt& o = QOpt()) {
    string qx = queryXml(p, o);
    c.beat();
    Ans r = ask(b.reg.get(), qx), e = ask(b.exp.get(), qx);
    c.add("queries");
    bool ok = r.parsed && e.parsed && r.total == e.total && r.qvars == e.qvars && r.qxpaths == e.qxpaths &&
              sorted(r.hits) == sorted(e.hits);
    if (o.output == "mws-ids") ok = ok && r.ids == e.ids;
    if (!ok) {
        c.fail("query %s\nregular engine: total %d, %zu ids\n%sexperimental engine: total %d, %zu ids\n%s", cut(qx).c_str(),
               r.total, r.ids.size(), hitsStr(sorted(r.hits)).c_str(), e.total, e.ids.size(),
               hitsStr(sorted(e.hits)).c_str());
        return false;
    }
    if (h && o.output.empty() && sorted(expected(*h, p)) != sorted(e.hits)) {
        c.fail("query %s\nboth engines agree on %zu hits, expected\n%s", cut(qx).c_str(), e.hits.size(),
               hitsStr(sorted(expected(*h, p))).c_str());
        return false;
    }
    return true;
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C13", "model_checking");
    run.declare({"queries", "indexes"});
    run.transitionsCounter = "queries";
    run.tracesCounter = "indexes";
    run.rule = "state = (harvest, query, total); transition = one query put to both engines on the same stored "
               "index, compared with each other and with the recursive definition of matching; trace = one index "
               "built and loaded by the real code";
    run.assumptions.push_back("harvests hold no variables and queries no ranges (the experimental engine's stored variables have no counterpart in the regular engine)");
    mws::parser::initxmlparser();
    const bool th = run.thorough;

    TermGen g({ci("a"), cn("1")}, {app({})}, 3);
    TermGen pg({ci("a"), cn("1"), qv("x"), qv("y"), qv("")}, {app({})}, 3);
    vector<T> ps = canonicalPatterns(pg.upTo(4), {"x", "y"});
    vector<T> ps3 = canonicalPatterns(pg.upTo(3), {"x", "y"});
    vector<T> t3 = g.upTo(3), t4 = g.upTo(4), t5 = g.upTo(th ? 6 : 5);
    auto all = [&](Case& c, Two& b, const Harvest& h, const vector<T>& pats) {
        for (auto& p : pats) {
            if (!same(c, b, &h, p)) return;
            c.state(vk::fmt("%llu|", (unsigned long long)vk::fnv(c.description)) + key(p));
        }
    };
    run.forall("one expression", t5.size(), [&](Case& c) {
        Harvest h;
        h.exprs.push_back({"u", "", t5[c.index]});
        Two b;
        if (setup(c, h, b)) all(c, b, h, ps);
    });
    run.forall("two expressions", t4.size() * (t4.size() + 1) / 2, [&](Case& c) {
        uint64_t i = 0, k = c.index;
        while (k > i) {
            k -= i + 1;
            i++;
        }
        Harvest h;
        h.exprs.push_back({"u", "", t4[i]});
        h.exprs.push_back({"v", "", t4[k]});
        Two b;
        if (setup(c, h, b)) all(c, b, h, th ? ps : ps3);
    });
    run.forall("three expressions", t3.size() * t3.size() * t3.size(), [&](Case& c) {
        vk::Digits d(c.index);
        Harvest h;
        for (int i = 0; i < 3; i++) h.exprs.push_back({vk::fmt("u%d", i), "", t3[d.next(t3.size())]});
        Two b;
        if (setup(c, h, b)) all(c, b, h, ps3);
    });
    // nodes whose children are far away, as in a very large index
    run.forall("far nodes", t4.size() * (t4.size() + 1) / 2 * 8, [&](Case& c) {
        vk::Digits d(c.index);
        FarNodes far(&gFarDistance, FAR[d.next(8)]);
        uint64_t i = 0, k = d.i;
        while (k > i) {
            k -= i + 1;
            i++;
        }
        Harvest h;
        h.exprs.push_back({"u", "", t4[i]});
        h.exprs.push_back({"v", "", t4[k]});
        Two b;
        if (setup(c, h, b)) all(c, b, h, th ? ps : ps3);
    });
    run.forall("far nodes, fan-out", 80 * 8, [&](Case& c) {
        vk::Digits d(c.index);
        FarNodes far(&gFarDistance, FAR[d.next(8)] * 4);
        unsigned n = d.next(80) + 1;
        Harvest h;
        for (unsigned i = 0; i < n; i++)
            h.exprs.push_back({vk::fmt("u%u", i), "", app({ci("g"), cn(std::to_string((i * 37) % n)), cn(std::to_string(i % 3))})});
        Two b;
        if (!setup(c, h, b)) return;
        for (auto& p : {app({ci("g"), qv("x"), qv("y")}), app({ci("g"), qv("x"), qv("x")}), app({ci("g"), cn(std::to_string(n - 1)), qv("")}),
                        app({ci("g"), qv(""), cn("1")}), app({ci("g"), cn(std::to_string(n)), qv("x")}), qv("x"), qv("")})
            if (!same(c, b, &h, p)) return;
        c.state(vk::fmt("farfan%u", n));
    });
    // every expression at once, every larger pattern
    {
        TermGen lg({ci("a"), ci("b")}, {app({}), T("s", "")}, 2);
        vector<T> ts = lg.upTo(4);
        TermGen lp({ci("a"), qv("x"), qv("y"), qv("z"), qv("")}, {app({}), T("s", "")}, th ? 3 : 2);
        vector<T> lps = canonicalPatterns(lp.upTo(th ? 6 : 5), {"x", "y", "z"});
        const unsigned part = 64;
        run.forall("larger patterns", (lps.size() + part - 1) / part, [&](Case& c) {
            Harvest h;
            for (size_t i = 0; i < ts.size(); i++) h.exprs.push_back({vk::fmt("u%zu", i), "", ts[i]});
            Two b;
            if (!setup(c, h, b)) return;
            for (size_t k = c.index * part; k < lps.size() && k < (c.index + 1) * part; k++) {
                c.desc(xml(lps[k]));
                if (!same(c, b, nullptr, lps[k])) return;
                c.state(key(lps[k]));
            }
        }, 1);
    }
    // windows: pages of the experimental engine tile its unlimited answer
    run.forall("windows", 27 * 2, [&](Case& c) {
        vk::Digits d(c.index);
        int n[3] = {d.next(3) + 0, d.next(3) + 0, d.next(3) + 0};
        bool ids = d.next(2);
        Harvest h;
        int k = 0;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j <= n[i]; j++) h.exprs.push_back({vk::fmt("u%d", k++), "", app({ci("f"), ci(vk::fmt("x%d", i))})});
        Two b;
        if (!setup(c, h, b)) return;
        for (auto& p : {app({ci("f"), qv("x")}), qv("x"), ci("x1"), app({qv("x"), qv("x")})}) {
            QOpt o;
            o.output = ids ? "mws-ids" : "";
            if (!same(c, b, nullptr, p, o)) return;
            if (ids) continue;
            vector<Hit> whole = ask(b.exp.get(), queryXml(p)).hits;
            int total = ask(b.exp.get(), queryXml(p)).total;
            for (size_t off = 0; off <= whole.size() + 1; off++)
                for (size_t sz = 0; sz <= whole.size() + 1; sz++) {
                    QOpt w;
                    w.size = std::to_string(sz);
                    w.min = std::to_string(off);
                    Ans a = ask(b.exp.get(), queryXml(p, w));
                    c.add("queries");
                    vector<Hit> want;
                    for (size_t i = off; i < whole.size() && i < off + sz; i++) want.push_back(whole[i]);
                    if (a.total != total || !(a.hits == want)) {
                        c.fail("query %s\ntotal %d instead of %d, hits\n%sinstead of\n%s", queryXml(p, w).c_str(), a.total,
                               total, hitsStr(a.hits).c_str(), hitsStr(want).c_str());
                        return;
                    }
                }
        }
        c.state(vk::fmt("w%llu", (unsigned long long)c.index));
    });
    // fan-out: every child of a node is found
    run.forall("fan-out", th ? 300 : 100, [&](Case& c) {
        unsigned n = c.index + 1;
        if (n > 80) n = 80 + (n - 80) * 97;
        Harvest h;
        for (unsigned i = 0; i < n; i++)
            h.exprs.push_back({vk::fmt("u%u", i), "", app({ci("g"), cn(std::to_string((i * 37) % n)), cn(std::to_string(i % 3))})});
        Two b;
        if (!setup(c, h, b)) return;
        for (auto& p : {app({ci("g"), qv("x"), qv("y")}), app({ci("g"), qv("x"), qv("x")}), app({ci("g"), cn(std::to_string(n - 1)), qv("")}),
                        app({ci("g"), qv(""), cn("1")}), app({ci("g"), cn(std::to_string(n)), qv("x")}), qv("x")})
            if (!same(c, b, n < 80 ? &h : nullptr, p)) return;
        // every child of the root and of the inner node by itself, and numbers which are none
        for (unsigned k = 0; k <= n && n <= 80; k++) {
            string s = std::to_string(k);
            for (auto& p : {cn(s), app({ci("g"), cn(s), qv("")}), app({qv("x"), cn(s), cn("1")}), ci(s)})
                if (!same(c, b, &h, p)) return;
        }
        c.state(vk::fmt("fan%u", n));
    });
    // sizes of queries and of bound subterms around the engine's limits
    {
        const vector<int> sizes = {1, 2, 15, 31, 63, 64, 126, 127, 128, 129, 191, 253, 254, 255, 256, 257, 258,
                                   300, 509, 510, 511, 512, 513, 514, 600, 1000, 1023, 1024, 1025, 2000, 4000};
        auto big = [](int n, const char* leaf) {  // n leaves in a tree of arity <= 100
            vector<T> lv;
            for (int i = 0; i < n; i++) lv.push_back(ci(i % 7 ? leaf : "q"));
            while (lv.size() > 1) {
                vector<T> up;
                for (size_t i = 0; i < lv.size(); i += 100)
                    up.push_back(app(vector<T>(lv.begin() + i, lv.begin() + std::min(lv.size(), i + 100))));
                lv = up;
            }
            return lv[0];
        };
        run.forall("sizes", sizes.size(), [&](Case& c) {
            int n = sizes[c.index];
            T t = big(n, "a"), u = big(n, "b");
            Harvest h;
            h.exprs.push_back({"u", "", app({ci("f"), t, t})});
            h.exprs.push_back({"v", "", app({ci("f"), t, u})});
            h.exprs.push_back({"w", "", app({ci("g"), app({ci("f"), u, u}), u, t})});
            Two b;
            if (!setup(c, h, b)) return;
            for (auto& p : {app({ci("f"), qv("x"), qv("x")}), app({ci("f"), qv("x"), qv("y")}), app({ci("f"), t, qv("x")}),
                            app({ci("f"), t, t}), app({ci("f"), qv("x"), t}), app({ci("f"), u, t}), t,
                            app({qv("h"), app({qv("i"), qv("x"), qv("x")}), qv("x"), qv("")}), qv("x")})
                if (!same(c, b, nullptr, p)) return;
            c.state(vk::fmt("size%d", n));
        });
        // a balanced comb: the same variable over and over
        run.forall("repeated variable", th ? 200 : 60, [&](Case& c) {
            int n = c.index + 1;
            T leaf = app({ci("f"), ci("a"), app({ci("g"), ci("b")})});
            vector<T> k(n, leaf), kp(n, qv("x"));
            vector<T> k2 = k;
            k2.back() = ci("c");
            Harvest h;
            h.exprs.push_back({"u", "", T("apply", "", k)});
            h.exprs.push_back({"v", "", T("apply", "", k2)});
            Two b;
            if (!setup(c, h, b)) return;
            T p2("apply", "", kp);
            p2.kids.back() = qv("y");
            if (!same(c, b, nullptr, T("apply", "", kp))) return;
            if (!same(c, b, nullptr, p2)) return;
            c.state(vk::fmt("rep%d", n));
        });
        // many different variables
        run.forall("many variables", (th ? 200 : 140) * 2, [&](Case& c) {
            int n = c.index / 2 + 1;
            bool named = c.index % 2;
            if (named && n > 31) return;  // both engines refuse these
            Harvest h;
            vector<T> k, kp, kq;
            for (int i = 0; i < n; i++) {
                k.push_back(i % 2 ? app({ci("f"), ci(vk::fmt("v%d", i))}) : ci("a"));
                kp.push_back(qv(named ? vk::fmt("n%d", i) : ""));
                kq.push_back(qv(named ? vk::fmt("n%d", (i + 2) % n) : ""));
            }
            h.exprs.push_back({"u", "", app({T("apply", "", k), T("apply", "", k)})});
            k.back() = cn("7");
            h.exprs.push_back({"v", "", app({T("apply", "", k), T("apply", "", k)})});
            Two b;
            if (!setup(c, h, b)) return;
            if (!same(c, b, nullptr, app({T("apply", "", kp), T("apply", "", kp)}))) return;
            if (!same(c, b, nullptr, app({T("apply", "", kp), T("apply", "", kq)}))) return;
            if (!same(c, b, nullptr, T("apply", "", kp))) return;
            c.state(vk::fmt("var%d|%d", n, named));
        });
        run.forall("depth", 40, [&](Case& c) {
            T t = ci("a");
            for (unsigned i = 0; i < (c.index + 1) * 6; i++) t = app({t});
            Harvest h;
            h.exprs.push_back({"u1", "", t});
            Two b;
            if (!setup(c, h, b)) return;
            for (auto& p : {t, qv("y"), ci("a"), app({qv("x")})})
                if (!same(c, b, nullptr, p)) return;
        });
    }
    return run.finish();
}
