// C04: a saved index answers every query exactly like an index held in memory.
#include "mwsh.hpp"
using namespace mwsh;
using vk::Case;

extern unsigned long long gFarDistance;
static const unsigned long long FAR[] = {0, 1, 3, 5, 8, 12, 20, 40};
struct Both {
    std::unique_ptr<mws::daemon::QueryHandler> mem, disk;
};
static bool setup(Case& c, const vector<string>& files, Both& b, bool ignoreData = false,
                  bool renameCi = false) {
    freshDir(c.scratch + "/h");
    vk::rmTree(c.scratch + "/idx");
    string all;
    for (size_t i = 0; i < files.size(); i++) {
        vk::writeFile(c.scratch + vk::fmt("/h/%c%zu.harvest", (char)('a' + i % 3), i), files[i]);
        all += files[i];
    }
    c.desc(all);
    c.add("indexes");
    if (buildIndex(c.scratch + "/h", c.scratch + "/idx", renameCi, ignoreData) != 0) {
        c.fail("index creation failed");
        return false;
    }
    b.mem = memHandler(c.scratch + "/h", renameCi, ignoreData);
    b.disk = idxHandler(c.scratch + "/idx", renameCi);
    return true;
}
static void same(Case& c, Both& b, const T& p, const QOpt& o = QOpt()) {
    string qx = queryXml(p, o);
    c.beat();
    Ans m = ask(b.mem.get(), qx), d = ask(b.disk.get(), qx);
    c.add("queries");
    c.state(c.run->property + vk::fmt("%llu|", (unsigned long long)vk::fnv(c.description)) + key(p) + o.output +
            vk::fmt("|%d", d.total));
    bool ok = m.parsed == d.parsed && m.total == d.total && m.qvars == d.qvars &&
              m.qxpaths == d.qxpaths && sorted(m.hits) == sorted(d.hits) &&
              m.ids.size() == d.ids.size();
    if (!ok)
        c.fail("query %s\nin memory: total %d, %zu ids\n%son disk: total %d, %zu ids\n%s",
               qx.c_str(), m.total, m.ids.size(), hitsStr(sorted(m.hits)).c_str(), d.total,
               d.ids.size(), hitsStr(sorted(d.hits)).c_str());
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C04", "model_checking");
    run.declare({"queries", "indexes"});
    run.transitionsCounter = "queries";
    run.tracesCounter = "indexes";
    run.rule = "state = (harvest files, query, total); transition = one query put to the loaded "
               "index and to the in-memory index and compared; trace = one index written, closed "
               "and loaded again by the real code";
    const bool th = run.thorough;
    TermGen g({ci("a"), cn("1")}, {app({})}, 3);
    TermGen pg({ci("a"), cn("1"), qv("x"), qv("y"), qv(""), range("0", nullptr)}, {app({})}, 3);
    vector<T> ps = canonicalPatterns(pg.upTo(th ? 4 : 3), {"x", "y"});
    vector<T> t4 = g.upTo(4), t5 = g.upTo(th ? 6 : 5);
    QOpt ids;
    ids.output = "mws-ids";
    auto askAll = [&](Case& c, Both& b) {
        for (auto& p : ps) {
            same(c, b, p);
            if (c.failed) return;
        }
        same(c, b, qv("x"), ids);
        if (!c.failed) same(c, b, app({qv("x"), qv("y")}), ids);
    };
    // empty harvests and files that add nothing
    static const char* EMPTY[] = {"", "<mws:harvest xmlns:mws=\"http://search.mathweb.org/ns\"/>",
                                  "<x/>", "garbage"};
    run.forall("empty", 16, [&](Case& c) {
        vk::Digits d(c.index);
        Both b;
        vector<string> f = {EMPTY[d.next(4)], EMPTY[d.next(4)]};
        freshDir(c.scratch + "/h");
        vk::rmTree(c.scratch + "/idx");
        for (size_t i = 0; i < f.size(); i++)
            vk::writeFile(c.scratch + vk::fmt("/h/%zu.harvest", i), f[i]);
        c.desc(f[0] + "\n" + f[1]);
        // an index without expressions may be refused, but then with an error
        int rc = buildIndex(c.scratch + "/h", c.scratch + "/idx");
        b.mem = memHandler(c.scratch + "/h");
        if (rc == 0) b.disk = idxHandler(c.scratch + "/idx");
        for (auto& p : ps) {
            Ans m = ask(b.mem.get(), queryXml(p));
            c.add("queries");
            c.state("empty" + key(p));
            if (!m.parsed || m.total != 0 || !m.hits.empty())
                c.fail("%zu hits in an empty index", m.hits.size());
            if (b.disk) same(c, b, p);
        }
    });
    run.forall("one-expression", t5.size(), [&](Case& c) {
        Harvest h;
        h.exprs.push_back({"u", "", t5[c.index]});
        Both b;
        if (setup(c, {harvestXml(h)}, b)) askAll(c, b);
    });
    run.forall("two-expressions-two-files", t4.size() * t4.size(), [&](Case& c) {
        vk::Digits d(c.index);
        Harvest h1, h2;
        h1.datas.push_back({"1", "first"});
        h2.datas.push_back({"1", "second"});
        h1.exprs.push_back({"u1", "1", t4[d.next(t4.size())]});
        h2.exprs.push_back({"u2", "1", t4[d.next(t4.size())]});
        Both b;
        if (setup(c, {harvestXml(h1), harvestXml(h2)}, b)) askAll(c, b);
    });
    // six expressions split over up to three files in every way, data kept/ignored
    run.forall("file-splits", 729 * 2, [&](Case& c) {
        vk::Digits d(c.index);
        bool ign = d.next(2);
        Harvest h[3];
        for (int f = 0; f < 3; f++) {
            h[f].datas.push_back({"1", vk::fmt("<t>%d</t>", f)});
            h[f].datas.push_back({"2", vk::fmt("other %d", f)});
        }
        const T E[6] = {app({ci("f"), ci("a")}), app({ci("f"), cn("1")}), app({ci("f"), ci("a")}),
                        ci("a"), app({ci("g"), app({ci("f"), ci("a")})}), cn("1")};
        const char* D[6] = {"1", "2", "1", "", "zz", "2"};
        for (int i = 0; i < 6; i++) h[d.next(3)].exprs.push_back({vk::fmt("u%d", i), D[i], E[i]});
        Both b;
        if (!setup(c, {harvestXml(h[0]), harvestXml(h[1]), harvestXml(h[2])}, b, ign)) return;
        for (auto& p : {qv("x"), ci("a"), app({ci("f"), qv("x")}), app({qv("x"), qv("y")}), cn("1")}) {
            same(c, b, p);
            if (c.failed) return;
        }
    });
    // data records of any content and size
    run.forall("data-bytes", 256 + 24, [&](Case& c) {
        string body;
        unsigned i = c.index;
        if (i < 256) {
            if (i < 0x20 && i != 9 && i != 10 && i != 13) body = "x";
            else if (i < 0x80) body = esc(string(3, (char)i)) + "q";
            else body = vk::fmt("&#%u;&#%u;", i, i * 13);
        } else {
            static const size_t len[] = {0, 1, 2, 63, 64, 127, 128, 255, 256, 257, 1000, 4095, 4096,
                                         4097, 9999, 10000, 16383, 16384, 16385, 32767, 65535, 65536,
                                         100000, 1000000};
            size_t n = len[i - 256];
            for (size_t k = 0; k < n; k++) body += (char)('a' + (k * k + k / 7) % 26);
        }
        Harvest h;
        h.datas.push_back({"1", body});
        h.datas.push_back({"2", "<b k=\"v\">" + body + "</b>"});
        h.exprs.push_back({"u1", "1", app({ci("f"), ci("a")})});
        h.exprs.push_back({"u2", "2", app({ci("f"), ci("a")})});
        h.exprs.push_back({body.size() < 9000 ? body : "u3", "", app({ci("f"), ci("b")})});
        Both b;
        if (!setup(c, {harvestXml(h)}, b)) return;
        same(c, b, app({ci("f"), qv("x")}));
        if (!c.failed) same(c, b, qv("x"));
    });
    // symbols of any byte content (dictionary round trip)
    static const char* SY[] = {"a", "", "\xCE\xB1", "\xE2\x88\x9E", "\xF0\x9D\x94\xB8", "a#b", "#", "\"",
                               "\\", "a\\nb", "1", "-1", "0x1", "%s", "&", "<", ">", "'", "A", "a1",
                               "a2", "a10", "\xC2\xA0", "\xEF\xBB\xBF"};
    const int NSY = sizeof(SY) / sizeof(SY[0]);
    run.forall("symbols", NSY * NSY, [&](Case& c) {
        vk::Digits d(c.index);
        string s1 = SY[d.next(NSY)], s2 = SY[d.next(NSY)];
        Harvest h;
        h.exprs.push_back({"u1", "", app({ci(s1), cn(s2)})});
        h.exprs.push_back({"u2", "", app({ci(s2), ci(s1)})});
        Both b;
        if (!setup(c, {harvestXml(h)}, b)) return;
        for (auto& p : {ci(s1), ci(s2), cn(s2), cn(s1), app({ci(s1), qv("x")}), app({qv("x"), ci(s1)}), qv("x")}) {
            same(c, b, p);
            if (c.failed) return;
        }
    });
    // large symbols
    run.forall("long-symbols", 20, [&](Case& c) {
        static const size_t L[] = {1, 2, 100, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 4095, 4096,
                                   4097, 8192, 65535, 65536, 70000, 200000};
        string s(L[c.index], 'k');
        Harvest h;
        h.exprs.push_back({"u1", "", app({ci(s + "1"), ci("z")})});
        h.exprs.push_back({"u2", "", app({ci(s + "2"), ci("z")})});
        Both b;
        if (!setup(c, {harvestXml(h)}, b)) return;
        for (auto& p : {ci(s + "1"), ci(s + "2"), ci(s), app({ci(s + "1"), qv("x")}), qv("x")}) {
            same(c, b, p);
            if (c.failed) return;
        }
    });
    // fan-out and depth: the shape of the stored trie nodes
    run.forall("fan-out", th ? 300 : 130, [&](Case& c) {
        unsigned n = c.index + 1;
        if (n > 120) n = 120 + (n - 120) * 97;
        Harvest h;
        for (unsigned i = 0; i < n; i++)
            h.exprs.push_back({vk::fmt("u%u", i), "", app({ci("g"), cn(std::to_string((i * 37) % n))})});
        Both b;
        if (!setup(c, {harvestXml(h)}, b)) return;
        for (auto& p : {app({ci("g"), qv("x")}), app({ci("g"), cn(std::to_string(n - 1))}),
                        app({ci("g"), cn("0")}), app({ci("g"), cn(std::to_string(n / 2))}),
                        app({ci("g"), cn(std::to_string(n))}), app({ci("g"), range("1", "2")})}) {
            same(c, b, p);
            if (c.failed) return;
        }
        for (unsigned k = 0; k <= n && n <= 60; k++) {
            string s = std::to_string(k);
            for (auto& p : {cn(s), app({ci("g"), cn(s)}), app({qv("x"), cn(s)}), ci(s)}) {
                same(c, b, p);
                if (c.failed) return;
            }
        }
    });
    run.forall("arity", 18, [&](Case& c) {
        static const unsigned A[] = {1, 2, 3, 4, 7, 8, 15, 16, 31, 63, 64, 126, 127, 128, 129, 200, 254, 255};
        vector<T> k(A[c.index], ci("a")), pk = k;
        pk.back() = qv("x");
        Harvest h;
        h.exprs.push_back({"u1", "", T("apply", "", k)});
        k.back() = ci("b");
        h.exprs.push_back({"u2", "", T("apply", "", k)});
        Both b;
        if (!setup(c, {harvestXml(h)}, b)) return;
        for (auto& p : {T("apply", "", k), T("apply", "", pk), qv("y"), ci("b")}) {
            same(c, b, p);
            if (c.failed) return;
        }
    });
    run.forall("depth", 40, [&](Case& c) {
        T t = ci("a");
        for (unsigned i = 0; i < (c.index + 1) * 6; i++) t = app({t});
        Harvest h;
        h.exprs.push_back({"u1", "", t});
        Both b;
        if (!setup(c, {harvestXml(h)}, b)) return;
        for (auto& p : {t, qv("y"), ci("a"), app({qv("x")})}) {
            same(c, b, p);
            if (c.failed) return;
        }
    });
    // nodes whose children are far away, as in a very large index
    run.forall("far nodes", t4.size() * t4.size() * 8, [&](Case& c) {
        vk::Digits d(c.index);
        FarNodes far(&gFarDistance, FAR[d.next(8)]);
        Harvest h1, h2;
        h1.datas.push_back({"1", "first"});
        h1.exprs.push_back({"u1", "1", t4[d.next(t4.size())]});
        h2.exprs.push_back({"u2", "", t4[d.next(t4.size())]});
        Both b;
        if (setup(c, {harvestXml(h1), harvestXml(h2)}, b)) askAll(c, b);
    });
    run.forall("far nodes, fan-out", 100 * 8, [&](Case& c) {
        vk::Digits d(c.index);
        FarNodes far(&gFarDistance, FAR[d.next(8)] * 4);
        unsigned n = d.next(100) + 1;
        Harvest h;
        for (unsigned i = 0; i < n; i++)
            h.exprs.push_back({vk::fmt("u%u", i), "", app({ci("g"), cn(std::to_string((i * 37) % n)), cn(std::to_string(i % 5))})});
        Both b;
        if (!setup(c, {harvestXml(h)}, b)) return;
        for (auto& p : {app({ci("g"), qv("x"), qv("y")}), app({ci("g"), qv("x"), qv("x")}), app({ci("g"), range("1", "2"), qv("")}), qv("x")}) {
            same(c, b, p);
            if (c.failed) return;
        }
        for (unsigned k = 0; k <= n && n <= 40; k++) {
            string s = std::to_string(k);
            for (auto& p : {cn(s), app({ci("g"), cn(s), qv("x")}), app({qv("x"), qv("y"), cn(s)}), ci(s)}) {
                same(c, b, p);
                if (c.failed) return;
            }
        }
    });
    // many hits on few leaves (hit counters in the stored leaves)
    run.forall("hit-counts", th ? 40 : 14, [&](Case& c) {
        unsigned n = c.index < 8 ? 250 + c.index : 1 + c.index * 37;
        Harvest h;
        for (unsigned i = 0; i < n; i++) h.exprs.push_back({vk::fmt("u%u", i), "", app({ci("f"), ci("a")})});
        Both b;
        if (!setup(c, {harvestXml(h)}, b)) return;
        for (auto& p : {ci("a"), app({ci("f"), qv("x")}), qv("x")}) {
            same(c, b, p);
            if (c.failed) return;
        }
    });
    // more than 16 bits' worth of hits, formulae
    run.forall("many", 2, [&](Case& c) {
        Harvest h;
        const unsigned z = 66000;
        for (unsigned i = 0; i < z; i++) {
            T t = c.index ? T("b", "", {cn(vk::fmt("%u", i % 260)), cn(vk::fmt("%u", i / 260))}) : app({ci("f")});
            h.exprs.push_back({vk::fmt("u%u", i), "", t});
        }
        Both b;
        if (!setup(c, {harvestXml(h)}, b)) return;
        for (auto& p : {app({ci("f")}), ci("f"), qv("x"), T("b", "", {cn("253"), qv("x")}), cn("17"), T("b", "", {range("7", "9"), cn("252")})}) {
            c.beat();
            same(c, b, p);
            if (c.failed) return;
        }
    }, 1);
    // with identifier renaming on both sides
    run.forall("renamed", t4.size() * 4, [&](Case& c) {
        vk::Digits d(c.index);
        static const char* N[] = {"a", "b", "xy", ""};
        string n = N[d.next(4)];
        T t = t4[d.i];
        Harvest h;
        h.exprs.push_back({"u1", "", app({ci("g"), t, ci(n)})});
        h.exprs.push_back({"u2", "", t});
        Both b;
        if (!setup(c, {harvestXml(h)}, b, false, true)) return;
        same(c, b, t);
        if (!c.failed) same(c, b, app({ci("g"), t, ci(n)}));
        if (!c.failed) same(c, b, app({ci("g"), t, ci("zz")}));
        if (!c.failed) same(c, b, qv("x"));
    });
    return run.finish();
}
