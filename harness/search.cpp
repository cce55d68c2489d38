// search-exact: the in-memory search answers exactly the instances of the
// pattern, for every (harvest, pattern) pair of the bounded spaces below.
#include "mwsh.hpp"
using namespace mwsh;
using vk::Case;

static void compare(Case& c, const string& hx, const string& qx, const Harvest& h,
                    const T& p, const Ans& a) {
    vector<Hit> e = sorted(expected(h, p)), g = sorted(a.hits);
    c.add("queries");
    c.add("expected_hits", e.size());
    if (!e.empty()) c.add("queries_with_hits");
    if (!a.parsed || a.isNull || a.total != (int)e.size() || !(g == e)) {
        c.desc("harvest:\n" + hx + "query:\n" + qx);
        c.fail("expected total %zu:\n%sgot parsed=%d total=%d:\n%s", e.size(),
               hitsStr(e).c_str(), (int)a.parsed, a.total, hitsStr(g).c_str());
    }
}
static string sig(const Harvest& h) {
    string s;
    for (auto& e : h.exprs) s += key(e.t) + ";";
    return s;
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C01", "model_checking");
    run.declare({"queries", "queries_with_hits", "expected_hits", "harvests"});
    run.transitionsCounter = "queries";
    run.tracesCounter = "harvests";
    run.rule =
        "state = distinct (harvest, pattern, expected answer set) triple of the "
        "reference model with at least one harvested expression; transition = one "
        "query answered by the real HarvestQueryHandler and compared with the "
        "reference matcher; trace = one harvest loaded through the real parser and "
        "indexer and then questioned with the whole pattern space";
    run.assumptions = {"terms, patterns and labels beyond the stated bounds behave "
                       "like those within",
                       "libxml2 is trusted"};
    const bool th = run.thorough;
    vector<T> inner = {app({})};
    TermGen g({ci("a"), ci("b")}, inner, 3);
    TermGen pg({ci("a"), ci("b"), qv("x"), qv("y"), qv("")}, inner, 3);

    // --- single expressions x patterns
    vector<T> s5 = g.upTo(th ? 6 : 5);
    vector<T> p5 = canonicalPatterns(pg.upTo(th ? 5 : 4), {"x", "y"});
    auto load = [](Case& c, const Harvest& h, string* hx) {
        freshDir(c.scratch + "/h");
        *hx = harvestXml(h);
        vk::writeFile(c.scratch + "/h/a.harvest", *hx);
        c.add("harvests");
        return memHandler(c.scratch + "/h");
    };
    auto askAll = [&](Case& c, const Harvest& h, const vector<T>& ps) {
        string hx;
        c.desc("harvest:\n" + harvestXml(h));
        auto q = load(c, h, &hx);
        string hs = sig(h);
        for (auto& p : ps) {
            string qx = queryXml(p);
            c.beat();
            Ans a = ask(q.get(), qx);
            c.state(hs + "|" + key(p) + vk::fmt("|%d", a.total));
            compare(c, hx, qx, h, p, a);
            if (c.failed) return;
        }
    };
    run.forall("one-expression", s5.size(), [&](Case& c) {
        Harvest h;
        h.exprs.push_back({"u1", "", s5[c.index]});
        askAll(c, h, p5);
    });
    // --- every ordered pair of expressions (sharing trie paths)
    vector<T> s4 = g.upTo(4);
    vector<T> p4 = canonicalPatterns(pg.upTo(th ? 4 : 3), {"x", "y"});
    run.forall("two-expressions", s4.size() * s4.size(), [&](Case& c) {
        vk::Digits d(c.index);
        Harvest h;
        h.exprs.push_back({"u1", "", s4[d.next(s4.size())]});
        h.exprs.push_back({"u2", "", s4[d.next(s4.size())]});
        askAll(c, h, p4);
    });
    // --- the whole term space in a single index, every pattern up to 5 nodes
    {
        Harvest all;
        vector<T> ts = g.upTo(th ? 6 : 5);
        for (size_t i = 0; i < ts.size(); i++)
            all.exprs.push_back({"u" + std::to_string(i), "", ts[i]});
        vector<T> ps = canonicalPatterns(pg.upTo(5), {"x", "y"});
        size_t stripes = 64;
        run.forall("whole-space-index", stripes, [&](Case& c) {
            vector<T> mine;
            for (size_t i = c.index; i < ps.size(); i += stripes)
                mine.push_back(ps[i]);
            askAll(c, all, mine);
        }, 1);
    }
    // --- repeated variables binding deep subterms: f(x,..,x) over all pairs
    {
        TermGen d({ci("a"), ci("b")}, {app({})}, 2);
        vector<T> sub = d.upTo(th ? 5 : 4);
        vector<T> ps = {app({ci("f"), qv("x"), qv("x")}),
                        app({ci("f"), qv("x"), qv("y")}),
                        app({ci("f"), qv("x"), app({qv("x"), qv("y")})}),
                        app({ci("f"), app({qv("x"), qv("y")}), qv("x")}),
                        app({ci("f"), app({qv("x")}), qv("x")}),
                        app({ci("f"), app({qv("x"), qv("y")}), app({qv("y"), qv("x")})}),
                        app({qv("y"), qv("x"), qv("x")}),
                        app({ci("f"), app({qv("x"), qv("x")}), qv("")}),
                        app({ci("f"), qv(""), qv("")}),
                        app({ci("f"), app({qv(""), qv("x")}), app({qv("x"), qv("")})})};
        Harvest h;
        for (size_t i = 0; i < sub.size(); i++)
            for (size_t j = 0; j < sub.size(); j++)
                h.exprs.push_back({vk::fmt("p%zu.%zu", i, j), "",
                                   app({ci("f"), sub[i], sub[j]})});
        run.forall("repeated-variable", ps.size(), [&](Case& c) {
            askAll(c, h, {ps[c.index]});
        }, 1);
    }
    // --- node identity: every label variant harvested x every variant asked
    {
        vector<T> v;
        v.push_back(T("ci", "a"));
        v.push_back(T("m:ci", "a"));
        v.push_back(T("ci", " a\n"));
        { T t("ci", "a"); t.attrs.push_back({"type", "real"}); v.push_back(t); }
        { T t("ci", "a"); t.attrs.push_back({"name", "b"}); v.push_back(t); }
        { T t("ci", "ab"); t.rawText = "a<!-- c -->b"; v.push_back(t); }
        { T t("ci", "ab"); t.rawText = "a<![CDATA[b]]>"; v.push_back(t); }
        v.push_back(T("ci", "a b"));
        v.push_back(T("ci", "b"));
        v.push_back(T("cn", "a"));
        v.push_back(T("ci", ""));
        v.push_back(T("cia", ""));
        v.push_back(T("ci", "a#"));
        v.push_back(T("ci#", "a"));
        v.pop_back();
        v.push_back(T("mtext", "x"));
        v.push_back(T("mtext", "y"));
        v.push_back(T("m:mtext", "z"));
        v.push_back(T("text", "x"));
        v.push_back(T("csymbol", "a"));
        v.push_back(T("ci", "A"));
        v.push_back(T("ci", "\xCE\xB1"));
        v.push_back(T("ci", "\xCE\xB2"));
        { T t("ci", "\xCE\xB1"); t.rawText = "&#945;"; v.push_back(t); }
        v.push_back(T("ci", "&"));
        v.push_back(T("ci", "<"));
        v.push_back(T("ci", "&amp;"));
        v.push_back(T("m:m:ci", "a"));
        v.pop_back();
        v.push_back(T("mo", "+"));
        v.push_back(T("plus", ""));
        v.push_back(T("times", ""));
        v.push_back(T("qvar", "x"));
        v.push_back(T("range", ""));
        v.push_back(T("ci", string(300, 'q')));
        v.push_back(T("ci", string(299, 'q') + "r"));
        { T t("ci", "ab"); t.rawText = "a\tb"; v.push_back(t); }
        { T t("ci", "ab"); t.rawText = "&#13;a&#9;&#10;b&#32;"; v.push_back(t); }
        v.push_back(T("ci", "a\xC2\xA0" "b"));
        v.push_back(T("ci", string(70000, 'q') + "1"));
        v.push_back(T("ci", string(70000, 'q') + "2"));
        size_t n = v.size();
        // three placements: root, operand, operator
        auto place = [&](int k, const T& t) -> T {
            if (k == 0) return t;
            if (k == 1) return app({ci("h"), t});
            return app({t, ci("k")});
        };
        run.forall("label-identity", n * 3, [&](Case& c) {
            vk::Digits d(c.index);
            const T& hv = v[d.next(n)];
            int k = d.next(3);
            Harvest h;
            h.exprs.push_back({"u1", "", place(k, hv)});
            vector<T> ps;
            for (auto& x : v) ps.push_back(place(k, x));
            askAll(c, h, ps);
        });
        // text on inner nodes is part of the label, wherever it is placed
        vector<T> w;
        for (const char* txt : {"", "t", "u"})
            for (const char* raw : {"", "sp"}) {
                T t("apply", txt, {ci("a"), ci("b")});
                if (*raw) t.rawText = string(" \n") + txt + "\t ";
                w.push_back(t);
            }
        run.forall("inner-text", w.size(), [&](Case& c) {
            Harvest h;
            h.exprs.push_back({"u1", "", w[c.index]});
            askAll(c, h, w);
        });
    }
    // --- arity: same symbol with 0..N children
    {
        vector<unsigned> ar = {0, 1, 2, 3, 5, 8, 16, 64, 127, 128, 129, 254, 255};
        auto mk = [&](unsigned n, const T& leaf) {
            vector<T> k(n, leaf);
            return T("apply", "", k);
        };
        run.forall("arity", ar.size(), [&](Case& c) {
            Harvest h;
            h.exprs.push_back({"u1", "", mk(ar[c.index], ci("a"))});
            vector<T> ps;
            for (unsigned m : ar) {
                ps.push_back(mk(m, ci("a")));
                ps.push_back(mk(m, ci("b")));
                if (m <= 16) {
                    ps.push_back(mk(m, qv("x")));
                    ps.push_back(mk(m, qv("")));
                }
            }
            askAll(c, h, ps);
        });
        // wide tries: the root has every one of N distinct children, inserted in
        // every rotation, so child lookup is exercised at every size
        run.forall("wide-node", th ? 96 : 40, [&](Case& c) {
            unsigned n = c.index + 1;
            for (unsigned rot = 0; rot < n; rot += (n > 8 ? 5 : 1)) {
                Harvest h;
                vector<T> ps;
                for (unsigned i = 0; i < n; i++) {
                    unsigned k = (i * 7 + rot) % n;
                    if (n % 7 == 0) k = (i * 5 + rot) % n;
                    h.exprs.push_back({vk::fmt("u%u", k), "",
                                       app({ci("g"), cn(std::to_string(k))})});
                }
                for (unsigned k = 0; k < n; k++)
                    ps.push_back(app({ci("g"), cn(std::to_string(k))}));
                ps.push_back(app({ci("g"), qv("x")}));
                ps.push_back(app({qv("y"), qv("x")}));
                ps.push_back(qv("x"));
                askAll(c, h, ps);
                if (c.failed) return;
            }
        });
    }
    // --- number of distinct variables in one query
    {
        unsigned maxv = th ? 120 : 40;
        run.forall("many-variables", maxv * 2, [&](Case& c) {
            vk::Digits d(c.index);
            unsigned n = d.next(maxv) + 1;
            bool named = d.next(2);
            vector<T> hk, hk2, pk, pk2;
            for (unsigned i = 0; i < n; i++) {
                hk.push_back(ci("a" + std::to_string(i)));
                hk2.push_back(ci("a" + std::to_string(i)));
                pk.push_back(qv(named ? "v" + std::to_string(i) : ""));
            }
            // second half repeats the first
            pk2 = pk;
            pk2.insert(pk2.end(), pk.begin(), pk.end());
            hk2.insert(hk2.end(), hk.begin(), hk.end());
            vector<T> hk3 = hk2;
            hk3.back() = ci("z");
            Harvest h;
            h.exprs.push_back({"once", "", app(hk)});
            h.exprs.push_back({"twice", "", app(hk2)});
            h.exprs.push_back({"almost", "", app(hk3)});
            vector<T> ps = {app(pk)};
            if (2 * n <= 250) ps.push_back(app(pk2));
            if (2 * n > 250) h.exprs.resize(1);
            if (named && n > 31) {
                // nothing may be found which does not match; that nothing at all is found is a known limit
                string hx;
                auto q = load(c, h, &hx);
                c.desc(hx);
                for (auto& p : ps) {
                    Ans a = ask(q.get(), queryXml(p));
                    vector<Hit> want = sorted(expected(h, p));
                    if (sorted(a.hits) == want && a.total == (int)want.size()) continue;
                    if (a.hits.empty() && a.total == 0)
                        c.failKey(vk::fmt("a query with %u different variables finds nothing, expected %zu hits", n, want.size()),
                                  "more-than-31-variables-find-nothing");
                    else
                        c.fail("a query with %u different variables: total %d, hits\n%sexpected\n%s", n, a.total,
                               hitsStr(sorted(a.hits)).c_str(), hitsStr(want).c_str());
                    return;
                }
                return;
            }
            askAll(c, h, ps);
        });
    }
    // --- three expressions, every triple
    {
        vector<T> s3 = g.upTo(3);
        vector<T> p3 = canonicalPatterns(pg.upTo(th ? 4 : 3), {"x", "y"});
        run.forall("three-expressions", s3.size() * s3.size() * s3.size(), [&](Case& c) {
            vk::Digits d(c.index);
            Harvest h;
            for (int i = 0; i < 3; i++) h.exprs.push_back({vk::fmt("u%d", i), "", s3[d.next(s3.size())]});
            askAll(c, h, p3);
        });
        // the same formulae again and again, with equal urls
        run.forall("repetitions", s3.size() * s3.size() * 3, [&](Case& c) {
            vk::Digits d(c.index);
            int n = 2 + d.next(3);
            T t = s3[d.next(s3.size())], u = s3[d.next(s3.size())];
            Harvest h;
            for (int i = 0; i < n; i++) {
                h.exprs.push_back({"u", "", t});
                h.exprs.push_back({i % 2 ? "u" : "v", "", u});
            }
            askAll(c, h, p3);
        });
    }
    // --- depth: chains, and patterns which end at every level
    run.forall("depth", th ? 130 : 50, [&](Case& c) {
        unsigned n = c.index < 40 ? c.index + 1 : 40 + (c.index - 39) * 9;
        auto chain = [](unsigned k, T t, int kind) {
            for (unsigned i = 0; i < k; i++) {
                if (kind == 0) t = app({t});
                else if (kind == 1) t = app({ci("f"), t});
                else t = app({t, ci(i % 2 ? "r" : "s")});
            }
            return t;
        };
        for (int kind = 0; kind < 3; kind++) {
            Harvest h;
            h.exprs.push_back({"a", "", chain(n, ci("a"), kind)});
            h.exprs.push_back({"b", "", chain(n, ci("b"), kind)});
            h.exprs.push_back({"c", "", app({ci("g"), chain(n, ci("a"), kind), chain(n, ci("a"), kind)})});
            h.exprs.push_back({"d", "", app({ci("g"), chain(n, ci("a"), kind), chain(n, ci("b"), kind)})});
            vector<T> ps = {app({ci("g"), qv("x"), qv("x")}), app({ci("g"), qv("x"), qv("y")}),
                            app({ci("g"), chain(n / 2, qv("x"), kind), chain(n / 2, qv("x"), kind)}),
                            app({ci("g"), chain(n, qv("x"), kind), chain(n, qv("x"), kind)}),
                            app({ci("g"), chain(n, qv("x"), kind), chain(n, qv("y"), kind)}),
                            app({ci("g"), chain(n - 1, qv("x"), kind), qv("x")})};
            for (unsigned k : {0u, 1u, 2u, n / 2, n - 1, n, n + 1})
                for (auto& leaf : {ci("a"), ci("z"), qv("x"), qv("")}) ps.push_back(chain(k, leaf, kind));
            askAll(c, h, ps);
            if (c.failed) return;
        }
    }, 4);
    // --- size: patterns and bound subterms of n leaves which differ in one leaf
    {
        vector<unsigned> sz = {1, 2, 3, 7, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256,
                               257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049};
        if (th) for (unsigned k : {4095, 4096, 4097, 9000, 20000}) sz.push_back(k);
        auto big = [](unsigned n, int differs, const T& leaf) {
            vector<T> lv;
            for (unsigned i = 0; i < n; i++) lv.push_back((int)i == differs ? leaf : ci(vk::fmt("l%u", i % 5)));
            while (lv.size() > 1) {
                vector<T> up;
                for (size_t i = 0; i < lv.size(); i += 9)
                    up.push_back(app(vector<T>(lv.begin() + i, lv.begin() + std::min(lv.size(), i + 9))));
                lv = up;
            }
            return lv[0];
        };
        run.forall("size", sz.size(), [&](Case& c) {
            unsigned n = sz[c.index];
            T t = big(n, -1, ci(""));
            Harvest h;
            h.exprs.push_back({"t", "", t});
            h.exprs.push_back({"tt", "", app({ci("g"), t, t})});
            vector<T> ps = {t, app({ci("g"), qv("x"), qv("x")}), app({ci("g"), qv("x"), t}), app({ci("g"), t, qv("")}), app({ci("g"), t, t})};
            for (unsigned k : {0u, n / 2, n - 1}) {
                T u = big(n, k, ci("other"));
                h.exprs.push_back({vk::fmt("u%u", k), "", u});
                h.exprs.push_back({vk::fmt("tu%u", k), "", app({ci("g"), t, u})});
                h.exprs.push_back({vk::fmt("ut%u", k), "", app({ci("g"), u, t})});
                h.exprs.push_back({vk::fmt("uu%u", k), "", app({ci("g"), u, u})});
                ps.push_back(u);
                ps.push_back(app({ci("g"), u, t}));
                ps.push_back(app({ci("g"), u, qv("x")}));
                ps.push_back(big(n, k, qv("x")));
                ps.push_back(big(n, k, qv("")));
                ps.push_back(big(n, k, ci("none")));
                ps.push_back(app({ci("g"), big(n, k, qv("x")), big(n, k, qv("x"))}));
                ps.push_back(app({ci("g"), big(n, k, qv("x")), big(n, k, qv("y"))}));
                ps.push_back(app({ci("g"), big(n, k, qv("x")), qv("x")}));
            }
            askAll(c, h, ps);
        }, 1);
    }
    // --- many different symbols, and many hits of one formula
    {
        vector<unsigned> ns = {100, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1024, 4097};
        run.forall("many-symbols", ns.size(), [&](Case& c) {
            unsigned n = ns[c.index];
            Harvest h;
            for (unsigned i = 0; i < n; i++) h.exprs.push_back({vk::fmt("u%u", i), "", app({ci("g"), ci(vk::fmt("s%u", i))})});
            vector<T> ps;
            for (unsigned k = 0; k <= n; k++) {
                bool edge = n < 300 || k < 3 || k + 3 > n;
                for (unsigned e = 128; e <= 65536; e *= 2) edge = edge || (k + 5 > e && k < e + 5);
                if (!edge) continue;
                ps.push_back(app({ci("g"), ci(vk::fmt("s%u", k))}));
                if (n < 5000) ps.push_back(ci(vk::fmt("s%u", k)));
            }
            ps.push_back(app({ci("g"), qv("x")}));
            ps.push_back(app({qv("x"), qv("y")}));
            askAll(c, h, ps);
        }, 1);
        vector<unsigned> hs = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1024, 1025, 5000};
        run.forall("many-hits", hs.size(), [&](Case& c) {
            unsigned n = hs[c.index];
            Harvest h;
            for (unsigned i = 0; i < n; i++) {
                h.exprs.push_back({vk::fmt("u%u", i), "", app({ci("f"), ci("a"), ci("a")})});
                if (i % 3 == 0) h.exprs.push_back({vk::fmt("w%u", i), "", app({ci("f"), ci("b"), cn(std::to_string(i % 50))})});
            }
            askAll(c, h, {app({ci("f"), qv("x"), qv("x")}), app({ci("f"), qv("x"), qv("y")}), ci("a"), app({ci("f"), ci("b"), qv("x")}), ci("f")});
        }, 1);
    }
    // --- more symbols and more hits than 16 bits number
    run.caseTimeout = th ? 600 : 250;  // storing n symbols takes the square of n steps
    run.forall("sixteen-bits", th ? 2 : 1, [&](Case& c) {
        const unsigned n = 65800;
        string hx = string("<mws:harvest") + NS() + ">\n";
        for (unsigned i = 0; i < n; i++)
            hx += vk::fmt(c.index == 0 ? "<mws:expr url=\"u%u\"><ci>a</ci></mws:expr>\n" : "<mws:expr url=\"u%u\"><apply><ci>g</ci><ci>s%u</ci></apply></mws:expr>\n", i, i);
        hx += "</mws:harvest>\n";
        freshDir(c.scratch + "/h");
        vk::writeFile(c.scratch + "/h/a.harvest", hx);
        c.desc(hx.substr(0, 1000) + vk::fmt("... %u expressions", n));
        c.add("harvests");
        auto q = memHandler(c.scratch + "/h");
        c.beat();
        auto expect = [&](const T& p, vector<Hit> want, bool all) {
            Ans a = ask(q.get(), queryXml(p));
            c.add("queries");
            c.state(key(p) + vk::fmt("|%d|%u", a.total, n));
            bool ok = all ? a.total == (int)n && a.hits.size() == n : a.total == (int)want.size() && sorted(a.hits) == sorted(want);
            std::set<string> urls;
            for (auto& h : a.hits) urls.insert(h.url);
            if (all) ok = ok && urls.size() == n;
            if (!ok) c.fail("query %s: total %d, %zu hits of %zu urls", xml(p).c_str(), a.total, a.hits.size(), urls.size());
        };
        if (c.index == 0) {
            expect(ci("a"), {}, true);
            expect(qv("x"), {}, true);
            return;
        }
        expect(app({ci("g"), qv("x")}), {}, true);
        for (unsigned k : {0u, 1u, 32767u, 32768u, 65279u, 65280u, 65400u, 65500u, 65520u, 65530u, 65534u, 65535u, 65536u, 65537u, 65799u}) {
            expect(app({ci("g"), ci(vk::fmt("s%u", k))}), {{vk::fmt("u%u", k), "/*[1]", ""}}, false);
            expect(ci(vk::fmt("s%u", k)), {{vk::fmt("u%u", k), "/*[1]/*[2]", ""}}, false);
        }
        expect(ci(vk::fmt("s%u", n)), {}, false);
    }, 1);
    // --- how variables are written: names that differ late, blanks, attribute or text
    {
        vector<pair<T, string>> nv;
        auto byText = [](const string& raw) { T t("mws:qvar", ""); t.rawText = raw; return t; };
        auto byAttr = [](const string& n) { T t("mws:qvar", ""); t.attrs.push_back({"name", n}); return t; };
        string L(300, 'n');
        nv.push_back({byText("x"), "x"});
        nv.push_back({byText(" x\n"), "x"});
        nv.push_back({byAttr("x"), "x"});
        nv.push_back({byText("x1"), "x1"});
        nv.push_back({byText("X"), "X"});
        nv.push_back({byText("\xCE\xB1"), "\xCE\xB1"});
        nv.push_back({byText("&#945;"), "\xCE\xB1"});
        nv.push_back({byText("\xCE\xB2"), "\xCE\xB2"});
        nv.push_back({byText(L + "a"), L + "a"});
        nv.push_back({byText(L + "b"), L + "b"});
        nv.push_back({byText("a"), "a"});
        nv.push_back({byText(""), ""});
        nv.push_back({byText("0"), "0"});
        nv.push_back({byText("<!-- x -->y"), "y"});
        nv.push_back({byText("<![CDATA[y]]>"), "y"});
        size_t n = nv.size();
        Harvest h;
        h.exprs.push_back({"same", "", app({ci("f"), ci("a"), ci("a")})});
        h.exprs.push_back({"diff", "", app({ci("f"), ci("a"), ci("b")})});
        h.exprs.push_back({"deep", "", app({ci("f"), app({ci("a"), ci("b")}), app({ci("a"), ci("b")})})});
        h.exprs.push_back({"deep2", "", app({ci("f"), app({ci("a"), ci("b")}), app({ci("a"), ci("c")})})});
        run.forall("variable-names", n * n, [&](Case& c) {
            vk::Digits d(c.index);
            auto &v = nv[d.next(n)], &w = nv[d.next(n)];
            string hx;
            c.desc("harvest:\n" + harvestXml(h));
            auto q = load(c, h, &hx);
            T p = app({ci("f"), v.first, w.first}), m = app({ci("f"), qv(v.second), qv(w.second)});
            Ans a = ask(q.get(), queryXml(p));
            c.state(vk::fmt("vn%d|%d", (int)c.index, a.total));
            compare(c, hx, queryXml(p), h, m, a);
        });
    }
    return run.finish();
}
