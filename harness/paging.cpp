// C02: result pages tile one fixed list; the total does not depend on the page.
#include "mwsh.hpp"
using namespace mwsh;
using vk::Case;

static string win(int o, int s) { return vk::fmt("limitmin=%d answsize=%d", o, s); }

// every window of the answer list of pattern p on handler q
static void windows(Case& c, mws::daemon::QueryHandler* q, const Harvest& h,
                    const T& p, const string& what, bool ids) {
    QOpt full;
    if (ids) full.output = "mws-ids";
    Ans all = ask(q, queryXml(p, full));
    size_t n = ids ? all.ids.size() : all.hits.size();
    vector<Hit> e = expected(h, p);
    if (!ids && sorted(all.hits) != sorted(e)) {
        c.fail("%s: unlimited answer differs from the reference:\n%sexpected\n%s",
               what.c_str(), hitsStr(all.hits).c_str(), hitsStr(sorted(e)).c_str());
        return;
    }
    if (all.total != (int)n) {
        c.fail("%s: total %d but %zu in the unlimited answer", what.c_str(), all.total, n);
        return;
    }
    c.state(what + vk::fmt("|all|%zu", n));
    vector<uint32_t> idOrder;  // learnt from size-1 pages
    if (ids) {
        for (size_t o = 0; o < n; o++) {
            QOpt w = full;
            w.min = std::to_string(o);
            w.size = "1";
            Ans a = ask(q, queryXml(p, w));
            if (a.ids.size() != 1) {
                c.fail("%s: page %s has %zu ids", what.c_str(), win(o, 1).c_str(), a.ids.size());
                return;
            }
            idOrder.push_back(*a.ids.begin());
        }
        if (std::set<uint32_t>(idOrder.begin(), idOrder.end()) != all.ids) {
            c.fail("%s: size-1 id pages do not tile the full id set", what.c_str());
            return;
        }
    }
    for (size_t o = 0; o <= n + 2; o++)
        for (size_t s = 0; s <= n + 2; s++) {
            c.beat();
            QOpt w = full;
            w.min = std::to_string(o);
            w.size = std::to_string(s);
            Ans a = ask(q, queryXml(p, w));
            c.add("windows");
            size_t b = std::min(o, n), en = std::min(o + s, n);
            bool ok = a.total == (int)n;
            if (ids) {
                std::set<uint32_t> x(idOrder.begin() + b, idOrder.begin() + en);
                ok = ok && a.ids == x;
            } else {
                vector<Hit> x(all.hits.begin() + b, all.hits.begin() + en);
                ok = ok && a.hits == x;
            }
            c.state(what + vk::fmt("|%zu|%zu|%d|%zu", o, s, a.total,
                                   ids ? a.ids.size() : a.hits.size()));
            if (!ok) {
                c.fail("%s: window %s of an answer list of %zu: total %d, got %zu "
                       "entries\n%sfull list:\n%s",
                       what.c_str(), win(o, s).c_str(), n, a.total,
                       ids ? a.ids.size() : a.hits.size(), hitsStr(a.hits).c_str(),
                       hitsStr(all.hits).c_str());
                return;
            }
        }
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C02", "model_checking");
    run.declare({"windows", "indexes"});
    run.transitionsCounter = "windows";
    run.tracesCounter = "indexes";
    run.rule = "state = (multiplicity vector, pattern, backend, window, outcome); "
               "transition = one page request on the real handler compared with the slice "
               "of the unlimited answer; trace = one index whose complete window space was "
               "walked";
    const bool th = run.thorough;

    // leaf multiplicities: every vector of up to K leaves with 1..M hits each
    vector<vector<int>> vecs;
    int K = th ? 5 : 4, M = th ? 4 : 3;
    for (int k = 1; k <= K; k++) {
        uint64_t n = 1;
        for (int i = 0; i < k; i++) n *= M;
        for (uint64_t i = 0; i < n; i++) {
            vk::Digits d(i);
            vector<int> v;
            for (int j = 0; j < k; j++) v.push_back(1 + d.next(M));
            vecs.push_back(v);
        }
    }
    auto mk = [](const vector<int>& v, bool interleave) {
        Harvest h;
        if (!interleave) {
            for (size_t i = 0; i < v.size(); i++)
                for (int j = 0; j < v[i]; j++)
                    h.exprs.push_back({vk::fmt("u%zu.%d", i, j), "",
                                       app({ci("f"), cn(std::to_string(i))})});
        } else {
            for (int j = 0; j < 8; j++)
                for (size_t i = v.size(); i-- > 0;)
                    if (j < v[i])
                        h.exprs.push_back({vk::fmt("u%zu.%d", i, j), "",
                                           app({ci("f"), cn(std::to_string(i))})});
        }
        return h;
    };
    run.forall("memory-windows", vecs.size() * 2, [&](Case& c) {
        vk::Digits d(c.index);
        bool il = d.next(2);
        Harvest h = mk(vecs[d.i], il);
        freshDir(c.scratch + "/h");
        vk::writeFile(c.scratch + "/h/a.harvest", harvestXml(h));
        c.desc(harvestXml(h));
        auto q = memHandler(c.scratch + "/h");
        c.add("indexes");
        string w = "mem";
        for (int x : vecs[d.i]) w += std::to_string(x);
        windows(c, q.get(), h, app({ci("f"), qv("x")}), w, false);
        if (!c.failed) windows(c, q.get(), h, app({qv("y"), qv("x")}), w + "y", false);
        if (!c.failed) windows(c, q.get(), h, app({ci("f"), range(nullptr, "100")}), w + "r", false);
        if (!c.failed) windows(c, q.get(), h, app({ci("f"), qv("x")}), w + "ids", true);
    });
    run.forall("disk-windows", vecs.size(), [&](Case& c) {
        Harvest h = mk(vecs[c.index], c.index % 2);
        freshDir(c.scratch + "/h");
        vk::rmTree(c.scratch + "/idx");
        vk::writeFile(c.scratch + "/h/a.harvest", harvestXml(h));
        c.desc(harvestXml(h));
        if (buildIndex(c.scratch + "/h", c.scratch + "/idx") != 0) {
            c.fail("index creation failed");
            return;
        }
        auto q = idxHandler(c.scratch + "/idx");
        c.add("indexes");
        string w = "disk";
        for (int x : vecs[c.index]) w += std::to_string(x);
        windows(c, q.get(), h, app({ci("f"), qv("x")}), w, false);
        if (!c.failed) windows(c, q.get(), h, app({ci("f"), qv("x")}), w + "ids", true);
    });
    // leaves with many hits on disk (key order of the store: 1, 10, 2, ...)
    run.forall("large-leaf", 2, [&](Case& c) {
        Harvest h;
        for (int i = 0; i < 13; i++)
            h.exprs.push_back({vk::fmt("u%d", i), "", app({ci("f"), cn(i % 6 == 5 ? "2" : "1")})});
        freshDir(c.scratch + "/h");
        vk::rmTree(c.scratch + "/idx");
        vk::writeFile(c.scratch + "/h/a.harvest", harvestXml(h));
        c.desc(harvestXml(h));
        c.add("indexes");
        std::unique_ptr<mws::daemon::QueryHandler> q;
        if (c.index == 0) q = memHandler(c.scratch + "/h");
        else {
            if (buildIndex(c.scratch + "/h", c.scratch + "/idx")) {
                c.fail("index creation failed");
                return;
            }
            q = idxHandler(c.scratch + "/idx");
        }
        windows(c, q.get(), h, app({ci("f"), qv("x")}), vk::fmt("big%d", (int)c.index), false);
    });
    // attribute spellings: defaults and extreme values
    struct Sp { const char *min, *size; long o, s; };  // s<0: unlimited
    static const Sp sp[] = {
        {"", "", 0, 30}, {"", "5", 0, 5}, {"3", "", 3, 30}, {"0", "0", 0, 0},
        {"0", "2147483647", 0, -1}, {"1", "2147483647", 1, -1},
        {"39", "2147483647", 39, -1}, {"2147483647", "1", 2147483647, 1},
        {"2147483647", "2147483647", 2147483647, 1}, {"40", "1", 40, 1},
        {"39", "1", 39, 1}, {"39", "2", 39, 2}, {"100000", "1", 100000, 1},
        {"99999", "2", 99999, 2}, {"1", "100000", 1, -1}, {"1", "99999", 1, -1},
        {"1", "-1", 1, -1}, {"5", "4294967295", 5, -1}, {"35", "4294967294", 35, -1},
        {"0", "-1", 0, -1}, {"0", "4294967295", 0, -1}};
    run.forall("window-attributes", sizeof(sp) / sizeof(sp[0]) * 2, [&](Case& c) {
        vk::Digits d(c.index);
        bool disk = d.next(2);
        const Sp& s = sp[d.i];
        Harvest h;
        for (int i = 0; i < 40; i++)
            h.exprs.push_back({vk::fmt("u%d", i), "", app({ci("f"), cn(std::to_string(i % 7))})});
        freshDir(c.scratch + "/h");
        vk::rmTree(c.scratch + "/idx");
        vk::writeFile(c.scratch + "/h/a.harvest", harvestXml(h));
        c.add("indexes");
        std::unique_ptr<mws::daemon::QueryHandler> q;
        if (!disk) q = memHandler(c.scratch + "/h");
        else {
            if (buildIndex(c.scratch + "/h", c.scratch + "/idx")) {
                c.fail("index creation failed");
                return;
            }
            q = idxHandler(c.scratch + "/idx");
        }
        T p = app({ci("f"), qv("x")});
        Ans all = ask(q.get(), queryXml(p));
        QOpt w;
        w.min = s.min;
        w.size = s.size;
        string qx = queryXml(p, w);
        c.desc("40 hits; " + qx);
        Ans a = ask(q.get(), qx);
        c.add("windows");
        c.state(vk::fmt("attr|%s|%s|%d|%zu", s.min, s.size, a.total, a.hits.size()));
        size_t b = std::min<size_t>(s.o, 40), e = s.s < 0 ? 40 : std::min<size_t>(s.o + s.s, 40);
        vector<Hit> x(all.hits.begin() + b, all.hits.begin() + e);
        if (all.total != 40 || a.total != 40 || a.hits != x)
            c.fail("expected total 40 and %zu hits, got total %d and\n%s", x.size(),
                   a.total, hitsStr(a.hits).c_str());
    });
    // every offset and page size, as they are written in a query
    {
        static const struct { const char* s; long v; } NUM[] = {
            {"0", 0}, {"1", 1}, {"7", 7}, {"8", 8}, {"9", 9}, {"00", 0}, {"01", 1}, {"007", 7}, {"08", 8}, {"010", 10}, {"0000000000000000000012", 12},
            {" 3", 3}, {"3 ", 3}, {"10", 10}, {"12", 12}, {"13", 13}, {"127", 127}, {"128", 128}, {"255", 255}, {"256", 256}, {"257", 257},
            {"32767", 32767}, {"32768", 32768}, {"65535", 65535}, {"65536", 65536}, {"65537", 65537}, {"65540", 65540}, {"131072", 131072},
            {"16777215", 16777215}, {"16777216", 16777216}, {"16777217", 16777217}, {"2147483646", 2147483646l}, {"2147483647", 2147483647l},
            {"2147483648", 2147483648l}, {"2147483650", 2147483650l}, {"4294967295", 4294967295l}, {"4294967296", 4294967296l}, {"4294967297", 4294967297l},
            {"4294967300", 4294967300l}, {"8589934594", 8589934594l}, {"9223372036854775807", 9223372036854775807l}, {"18446744073709551617", 9223372036854775807l},
            {"100000000000000000000000000000001", 9223372036854775807l}};
        const unsigned N = sizeof NUM / sizeof *NUM;
        run.forall("written windows", N * 3, [&](Case& c) {
            vk::Digits d(c.index);
            int be = d.next(3);
            auto& mn = NUM[d.i];
            Harvest h;
            for (int i = 0; i < 12; i++) h.exprs.push_back({vk::fmt("u%d", i), "", app({ci("f"), cn(std::to_string(i % 5))})});
            freshDir(c.scratch + "/h");
            vk::rmTree(c.scratch + "/idx");
            vk::writeFile(c.scratch + "/h/a.harvest", harvestXml(h));
            c.add("indexes");
            std::unique_ptr<mws::daemon::QueryHandler> q;
            if (be == 0) q = memHandler(c.scratch + "/h");
            else {
                if (buildIndex(c.scratch + "/h", c.scratch + "/idx")) return c.fail("index creation failed");
                q = idxHandler(c.scratch + "/idx", false, be == 2);
            }
            T p = app({ci("f"), qv("x")});
            Ans all = ask(q.get(), queryXml(p));
            if (all.total != 12 || all.hits.size() != 12) return c.fail("%zu hits instead of 12", all.hits.size());
            for (unsigned j = 0; j < N; j++) {
                QOpt w;
                w.min = mn.s;
                w.size = NUM[j].s;
                string qx = queryXml(p, w);
                c.desc(vk::fmt("12 hits, backend %d; ", be) + qx);
                Ans a = ask(q.get(), qx);
                c.add("windows");
                size_t b = std::min(mn.v, 12l), e = b + std::min<size_t>(NUM[j].v, 12 - b);
                vector<Hit> x(all.hits.begin() + b, all.hits.begin() + e);
                c.state(vk::fmt("written|%s|%s|%d|%zu", mn.s, NUM[j].s, a.total, a.hits.size()));
                if (a.total != 12 || a.hits != x)
                    return c.fail("expected total 12 and %zu hits, got total %d and\n%s", x.size(), a.total, hitsStr(a.hits).c_str());
            }
        });
    }
    // counting cap: with at most C counted, pages are slices of the first C
    run.forall("count-cap", 9 * 2, [&](Case& c) {
        vk::Digits d(c.index);
        bool disk = d.next(2);
        int cap = d.next(9);
        Harvest h;
        for (int i = 0; i < 7; i++)
            h.exprs.push_back({vk::fmt("u%d", i), "", app({ci("f"), cn(std::to_string(i % 3))})});
        freshDir(c.scratch + "/h");
        vk::rmTree(c.scratch + "/idx");
        vk::writeFile(c.scratch + "/h/a.harvest", harvestXml(h));
        c.add("indexes");
        std::unique_ptr<mws::daemon::QueryHandler> q;
        if (!disk) q = memHandler(c.scratch + "/h");
        else {
            if (buildIndex(c.scratch + "/h", c.scratch + "/idx")) {
                c.fail("index creation failed");
                return;
            }
            q = idxHandler(c.scratch + "/idx");
        }
        T p = app({ci("f"), qv("x")});
        Ans all = ask(q.get(), queryXml(p));
        int n = std::min(cap, 7);
        for (int o = 0; o <= 9; o++)
            for (int s = 0; s <= 9; s++) {
                QOpt w;
                w.min = std::to_string(o);
                w.size = std::to_string(s);
                auto query = parseQuery(queryXml(p, w));
                query->attrResultTotalReqNr = cap;
                std::unique_ptr<mws::GenericAnswer> g(q->handleQuery(query.get()));
                Ans a = toAns(g.get());
                c.add("windows");
                int b = std::min(o, n), e = std::min(o + s, n);
                vector<Hit> x(all.hits.begin() + b, all.hits.begin() + e);
                c.state(vk::fmt("cap|%d|%d|%d|%d|%zu", cap, o, s, a.total, a.hits.size()));
                if (a.total != n || a.hits != x) {
                    c.desc(vk::fmt("7 hits, at most %d counted, %s", cap, win(o, s).c_str()));
                    c.fail("expected total %d and %zu hits, got total %d and\n%s", n,
                           x.size(), a.total, hitsStr(a.hits).c_str());
                    return;
                }
            }
    });
    // long answer lists: leaves with many hits, many leaves with few, windows at every edge
    {
        static const int SH[][2] = {{1, 300}, {300, 1}, {2, 150}, {17, 17}, {40, 3}, {3, 400}, {130, 9}, {1, 1025}};  // leaves, hits each
        run.forall("long-lists", 8 * 3, [&](Case& c) {
            vk::Digits d(c.index);
            int be = d.next(3);  // memory, disk, experimental engine
            const int* sh = SH[d.i];
            Harvest h;
            for (int j = 0; j < sh[1]; j++)
                for (int i = 0; i < sh[0]; i++) h.exprs.push_back({vk::fmt("u%d.%d", i, j), "", app({ci("f"), ci(vk::fmt("s%d", (i * 7) % sh[0]))})});
            freshDir(c.scratch + "/h");
            vk::rmTree(c.scratch + "/idx");
            vk::writeFile(c.scratch + "/h/a.harvest", harvestXml(h));
            c.desc(vk::fmt("%d leaves with %d hits each, backend %d", sh[0], sh[1], be));
            c.add("indexes");
            std::unique_ptr<mws::daemon::QueryHandler> q;
            if (be == 0) q = memHandler(c.scratch + "/h");
            else {
                if (buildIndex(c.scratch + "/h", c.scratch + "/idx")) {
                    c.fail("index creation failed");
                    return;
                }
                q = idxHandler(c.scratch + "/idx", false, be == 2);
            }
            T p = app({ci("f"), qv("x")});
            Ans all = ask(q.get(), queryXml(p));
            size_t n = h.exprs.size();
            std::set<Hit> once(all.hits.begin(), all.hits.end());
            if (all.total != (int)n || all.hits.size() != n || once.size() != n) {
                c.fail("%zu hits expected, total %d, %zu hits, %zu different", n, all.total, all.hits.size(), once.size());
                return;
            }
            std::set<size_t> edge = {0, 1, 2, n - 1, n, n + 1};
            for (size_t e : {7, 8, 10, 16, 30, 32, 64, 100, 128, 150, 256, 300, 400, 512, 1000, 1024})
                for (size_t k = e - 1; k <= e + 1; k++)
                    if (k <= n + 1) edge.insert(k);
            for (size_t e : {(size_t)sh[1], (size_t)sh[1] * 2, n / 2})
                for (size_t k = e - 1; k <= e + 1; k++)
                    if (k <= n + 1) edge.insert(k);
            for (size_t o : edge)
                for (size_t s : edge) {
                    c.beat();
                    QOpt w;
                    w.min = std::to_string(o);
                    w.size = std::to_string(s);
                    Ans a = ask(q.get(), queryXml(p, w));
                    c.add("windows");
                    size_t b = std::min(o, n), en = std::min(o + s, n);
                    vector<Hit> x(all.hits.begin() + b, all.hits.begin() + en);
                    c.state(vk::fmt("long|%d|%zu|%zu|%d|%zu", (int)c.index, o, s, a.total, a.hits.size()));
                    if (a.total != (int)n || !(a.hits == x)) {
                        c.fail("window %s of %zu hits: total %d, %zu hits\n%sinstead of\n%s", win(o, s).c_str(), n, a.total,
                               a.hits.size(), hitsStr(a.hits).c_str(), hitsStr(x).c_str());
                        return;
                    }
                }
        }, 1);
    }
    // pages in any order: what was asked before does not matter
    run.forall("page-orders", 720 * 2, [&](Case& c) {
        vk::Digits d(c.index);
        bool disk = d.next(2);
        vector<int> perm = {0, 1, 2, 3, 4, 5};
        for (uint64_t k = d.i; k; k--) std::next_permutation(perm.begin(), perm.end());
        Harvest h;
        for (int i = 0; i < 9; i++) h.exprs.push_back({vk::fmt("u%d", i), "", app({ci("f"), cn(std::to_string(i % 4))})});
        freshDir(c.scratch + "/h");
        vk::writeFile(c.scratch + "/h/a.harvest", harvestXml(h));
        std::unique_ptr<mws::daemon::QueryHandler> q;
        c.add("indexes");
        if (!disk) q = memHandler(c.scratch + "/h");
        else {
            vk::rmTree(c.scratch + "/idx");
            if (buildIndex(c.scratch + "/h", c.scratch + "/idx")) {
                c.fail("index creation failed");
                return;
            }
            q = idxHandler(c.scratch + "/idx");
        }
        static const int W[6][2] = {{0, 100}, {0, 3}, {3, 3}, {6, 3}, {8, 4}, {9, 2}};
        T p = app({ci("f"), qv("x")});
        vector<Hit> got[6];
        for (int k : perm) {
            QOpt w;
            w.min = std::to_string(W[k][0]);
            w.size = std::to_string(W[k][1]);
            Ans a = ask(q.get(), queryXml(p, w));
            c.add("windows");
            got[k] = a.hits;
            if (a.total != 9) {
                c.fail("total %d instead of 9", a.total);
                return;
            }
            ask(q.get(), queryXml(cn("1"), w));  // another query in between
        }
        c.state(vk::fmt("order|%llu", (unsigned long long)c.index));
        if (got[0].size() != 9) c.fail("%zu hits instead of 9", got[0].size());
        for (int k = 1; k < 6 && !c.failed; k++) {
            size_t b = std::min(W[k][0], 9), e = std::min(W[k][0] + W[k][1], 9);
            if (!(got[k] == vector<Hit>(got[0].begin() + b, got[0].begin() + e)))
                c.fail("window %s\n%sof\n%s", win(W[k][0], W[k][1]).c_str(), hitsStr(got[k]).c_str(), hitsStr(got[0]).c_str());
        }
    });
    return run.finish();
}
