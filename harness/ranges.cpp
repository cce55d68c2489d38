// C05: ranges match exactly the numbers inside the inclusive interval.
#include "mwsh.hpp"
using namespace mwsh;
using vk::Case;

static const char* LIT[] = {
    "-1000000", "-1001", "-3", "-2.5", "-1", "-1.0", "-0.5", "-1e-3", "-0", "0", "0.0", ".5", "0.5", "1",
    "1.0", "01", "+1", "1.5", "2", "2.4999", "2.5", "2.50", "2.5000001", "3", "99", "100", "100.0",
    "101", "1000", "1e3", "1001", "1e-300", "1e300", "-1e300", "1e400", "-1e400", "", "abc", "-", "+", ".",
    "x1", "-x", " 5 ", "1 0", "007", "0.1", "0.10000000000000001", "123456789012345", "123456789012346", "-5", "12", "x1", "e3", "#1", "\xE2\x88\x9E"};
static const int NLIT = sizeof(LIT) / sizeof(LIT[0]);
static const char* BND[] = {nullptr, "", "abc", "-1001", "-1", "-0.5", "0", "-0", ".5", "1", "2.5", "100", "1e3",
                            "1e400", "-1e400", "-1e300", "1e300", "3", " 1 ", "0.1", "123456789012345.5", "10"};
static const int NBND = sizeof(BND) / sizeof(BND[0]);

static void check(Case& c, mws::daemon::QueryHandler* q, const Harvest& h, const T& p) {
    string qx = queryXml(p);
    c.beat();
    Ans a = ask(q, qx);
    c.add("queries");
    vector<Hit> e = sorted(expected(h, p));
    c.add("expected_hits", e.size());
    c.state(xml(p) + vk::fmt("|%zu|%zu", h.exprs.size(), e.size()));
    if (!a.parsed || a.isNull || a.total != (int)e.size() || sorted(a.hits) != e) {
        c.desc((h.exprs.size() < 60 ? harvestXml(h) : string("(index of all literals)\n")) + qx);
        c.fail("expected %zu hits\n%sgot total %d\n%s", e.size(), hitsStr(e).c_str(), a.total,
               hitsStr(sorted(a.hits)).c_str());
    }
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C05", "model_checking");
    run.declare({"queries", "expected_hits", "indexes"});
    run.transitionsCounter = "queries";
    run.tracesCounter = "indexes";
    run.rule = "state = (query, index, number of hits); transition = one range query on the real "
               "handler compared with the interval semantics; trace = one index loaded";
    run.assumptions = {"the number a text reads as is its longest decimal prefix (strtod); hexadecimal "
                       "and inf/nan spellings are outside the explored alphabet"};
    const bool th = run.thorough;
    auto load = [&](Case& c, const Harvest& h, bool disk) {
        freshDir(c.scratch + "/h");
        vk::writeFile(c.scratch + "/h/a.harvest", harvestXml(h));
        c.desc(harvestXml(h));
        c.add("indexes");
        if (!disk) return memHandler(c.scratch + "/h");
        vk::rmTree(c.scratch + "/idx");
        if (buildIndex(c.scratch + "/h", c.scratch + "/idx")) {
            c.fail("index creation failed");
            return std::unique_ptr<mws::daemon::QueryHandler>();
        }
        return idxHandler(c.scratch + "/idx");
    };
    // all literals as numbers, identifiers, inner nodes, in one index
    Harvest all;
    for (int i = 0; i < NLIT; i++) {
        all.exprs.push_back({vk::fmt("n%d", i), "", app({ci("f"), cn(LIT[i])})});
        all.exprs.push_back({vk::fmt("i%d", i), "", app({ci("f"), ci(LIT[i])})});
        all.exprs.push_back({vk::fmt("t%d", i), "", app({ci("f"), T("cn", LIT[i], {ci("z")})})});
        all.exprs.push_back({vk::fmt("m%d", i), "", app({ci("f"), T("m:cn", LIT[i])})});
        all.exprs.push_back({vk::fmt("c%d", i), "", app({ci("f"), T("cnx", LIT[i])})});
    }
    run.forall("bounds-x-literals", NBND * NBND * 2, [&](Case& c) {
        vk::Digits d(c.index);
        bool disk = d.next(2);
        T r = range(BND[d.next(NBND)], nullptr);
        T r2 = range(nullptr, BND[d.i]);
        r.attrs.insert(r.attrs.end(), r2.attrs.begin(), r2.attrs.end());
        auto q = load(c, all, disk);
        if (!q) return;
        check(c, q.get(), all, app({ci("f"), r}));
        if (!c.failed) check(c, q.get(), all, r);
    });
    // each literal alone against each bound pair
    run.forall("single-literal", NLIT, [&](Case& c) {
        Harvest h;
        h.exprs.push_back({"u", "", app({ci("f"), cn(LIT[c.index])})});
        auto q = load(c, h, c.index % 3 == 2);
        if (!q) return;
        for (int i = 0; i < NBND; i++)
            for (int j = 0; j < NBND; j++) {
                check(c, q.get(), h, app({ci("f"), range(BND[i], BND[j])}));
                if (c.failed) return;
                T r = range(BND[i], BND[j]);
                if (r.attrs.size() == 2) {
                    std::swap(r.attrs[0], r.attrs[1]);
                    check(c, q.get(), h, app({ci("f"), r}));
                    if (c.failed) return;
                }
            }
    });
    // patterns mixing two ranges, variables (also repeated) and constants over
    // an index of all argument tuples
    vector<T> arg = {cn("0"), cn("1"), cn("2"), cn("-1"), ci("a"), app({cn("1"), ci("b")})};
    vector<T> el = {range("1", nullptr), range(nullptr, "1"), range("0", "1"), range("5", "1"), qv("x"), qv("y"),
                    qv(""), cn("1"), ci("a"), app({range("1", "1"), qv("x")}), app({qv("x"), ci("b")})};
    Harvest tup;
    for (size_t i = 0; i < arg.size(); i++)
        for (size_t j = 0; j < arg.size(); j++)
            for (size_t k = 0; k < arg.size(); k++)
                tup.exprs.push_back({vk::fmt("u%zu%zu%zu", i, j, k), "", app({ci("f"), arg[i], arg[j], arg[k]})});
    size_t ne = el.size();
    run.forall("range-placements", ne * ne * ne, [&](Case& c) {
        vk::Digits d(c.index);
        T p1 = el[d.next(ne)], p2 = el[d.next(ne)], p3 = el[d.next(ne)];
        static std::unique_ptr<mws::daemon::QueryHandler> mem, disk;
        if (!mem) mem = load(c, tup, false);
        if (!disk) disk = load(c, tup, true);
        if (c.failed) return;
        check(c, mem.get(), tup, app({ci("f"), p1, p2, p3}));
        if (!c.failed && (th || c.index % 4 == 0)) check(c, disk.get(), tup, app({ci("f"), p1, p2, p3}));
        if (!c.failed) check(c, mem.get(), tup, app({qv("g"), p1, p2, p3}));
        // never reached: no such operator prefix / argument in front
        if (!c.failed) check(c, mem.get(), tup, app({ci("a"), p1, p2, p3}));
        if (!c.failed) check(c, mem.get(), tup, app({ci("f"), ci("b"), p1, p2, p3}));
        if (!c.failed) check(c, mem.get(), tup, app({ci("f"), ci("b"), p1, p3}));
        if (!c.failed) check(c, mem.get(), tup, app({ci("nosuch"), p1, p2, p3}));
    });
    // many ranges in one query
    run.forall("many-ranges", th ? 100 : 40, [&](Case& c) {
        unsigned n = c.index + 1;
        Harvest h;
        vector<T> k, k2, p;
        for (unsigned i = 0; i < n; i++) {
            k.push_back(cn(std::to_string(i)));
            k2.push_back(cn(std::to_string(i + (i == n - 1))));
            p.push_back(range(std::to_string(i).c_str(), std::to_string(i).c_str()));
        }
        h.exprs.push_back({"yes", "", app(k)});
        h.exprs.push_back({"no", "", app(k2)});
        auto q = load(c, h, c.index % 2);
        if (!q) return;
        if (n > 32) {
            Ans a = ask(q.get(), queryXml(app(p)));
            if (a.total == 0 && a.hits.empty()) {
                c.failKey(vk::fmt("a query with %u ranges finds nothing, expected 1 hit", n), "more-than-32-ranges-find-nothing");
                return;
            }
        }
        check(c, q.get(), h, app(p));
    });
    // order of questions: every ordered pair of queries on one handler
    {
        vector<T> qs = {app({ci("f"), range("1", nullptr), qv("x"), qv("y")}), app({ci("f"), range(nullptr, "1"), qv("x"), qv("x")}),
                        app({ci("f"), range("0", "0"), range("1", "2"), qv("")}), app({ci("nosuch"), range("1", "2")}),
                        range("1", "2"), qv("x"), app({ci("f"), ci("b"), range("1", "2")}), app({ci("f"), qv("x"), range("1", "2"), qv("x")})};
        run.forall("question-order", qs.size() * qs.size() * qs.size(), [&](Case& c) {
            vk::Digits d(c.index);
            static std::unique_ptr<mws::daemon::QueryHandler> mem;
            if (!mem) mem = load(c, tup, false);
            for (int i = 0; i < 3 && !c.failed; i++) check(c, mem.get(), tup, qs[d.next(qs.size())]);
        });
    }
    // ranges on an index where the place is a leaf, empty or has no numbers
    run.forall("nothing-to-scan", 6, [&](Case& c) {
        Harvest h;
        if (c.index >= 2) h.exprs.push_back({"u", "", ci("a")});
        if (c.index >= 4) h.exprs.push_back({"u", "", app({ci("a")})});
        auto q = load(c, h, c.index >= 2 && c.index % 2);
        if (!q) return;
        for (auto& p : {range("1", "2"), app({range("1", "2")}), app({ci("a"), range("1", "2")}), app({range(nullptr, nullptr), range("1", "2")}), range(nullptr, nullptr)}) {
            check(c, q.get(), h, p);
            if (c.failed) return;
        }
    });
    // nodes with many numbers, asked for every kind of interval
    run.forall("many-numbers", 12 * 2, [&](Case& c) {
        static const int N[] = {2, 10, 31, 32, 33, 64, 100, 127, 128, 255, 256, 700};
        vk::Digits d(c.index);
        bool disk = d.next(2);
        int n = N[d.i];
        Harvest h;
        for (int i = 0; i < n; i++) {
            int v = (i * 37) % n - n / 3;
            h.exprs.push_back({vk::fmt("u%d", v), "", app({ci("f"), cn(std::to_string(v)), i % 2 ? ci("a") : cn(std::to_string(-v))})});
        }
        auto q = load(c, h, disk);
        if (!q) return;
        vector<int> e = {-n / 3 - 1, -n / 3, -n / 3 + 1, -2, -1, 0, 1, 2, n / 2, n - n / 3 - 2, n - n / 3 - 1, n - n / 3};
        for (int a : e)
            for (int b : e) {
                if (a > b && a != e.back()) continue;
                string lo = std::to_string(a), hi = std::to_string(b);
                for (auto& p : {app({ci("f"), range(lo.c_str(), hi.c_str()), qv("x")}), app({ci("f"), range(lo.c_str(), nullptr), range(nullptr, hi.c_str())}),
                                app({ci("f"), range(lo.c_str(), hi.c_str()), ci("a")})}) {
                    check(c, q.get(), h, p);
                    if (c.failed) return;
                }
            }
    }, 1);
    return run.finish();
}
