// C21: formula and crawl stores, in memory and on disk, across reopening.
#include "vk.hpp"
#include <memory>
#include "common/utils/compiler_defs.h"
#include "mws/dbc/DbQueryManager.hpp"
#include "mws/dbc/LevCrawlDb.hpp"
#include "mws/dbc/LevFormulaDb.hpp"
#include "mws/dbc/MemCrawlDb.hpp"
#include "mws/dbc/MemFormulaDb.hpp"
using namespace mws;
using namespace mws::dbc;
using std::string;
using std::vector;
using types::FormulaId;
using types::FormulaPath;
using vk::Case;

struct Rec {
    FormulaId f;
    CrawlId c;
    string id, xp;
    string str() const { return vk::fmt("%u->(%u,", f, c) + id + "," + xp + ")"; }
    bool operator==(const Rec& o) const { return f == o.f && c == o.c && id == o.id && xp == o.xp; }
};
static string list(const vector<Rec>& v) {
    string s;
    for (auto& r : v) s += r.str().substr(0, 200) + "\n";
    return s;
}
struct Model {
    vector<Rec> recs;
    vector<string> data;  // data[i] stored under id[i]
    vector<CrawlId> ids;
    vector<Rec> of(FormulaId f) const {
        vector<Rec> o;
        for (auto& r : recs)
            if (r.f == f) o.push_back(r);
        return o;
    }
};
// one implementation under test
struct Impl {
    bool disk;
    string path;
    std::unique_ptr<FormulaDb> fdb;
    std::unique_ptr<CrawlDb> cdb;
    string create(bool del) {
        try {
            if (disk) {
                std::unique_ptr<LevFormulaDb> f(new LevFormulaDb());
                f->create_new((path + "/formula.db").c_str(), del);
                fdb = std::move(f);
                std::unique_ptr<LevCrawlDb> c(new LevCrawlDb());
                c->create_new((path + "/crawl.db").c_str(), del);
                cdb = std::move(c);
            } else {
                fdb.reset(new MemFormulaDb());
                cdb.reset(new MemCrawlDb());
            }
        } catch (const std::exception& e) {
            return e.what();
        }
        return "";
    }
    void shut() {
        fdb.reset();
        cdb.reset();
    }
    string open() {
        try {
            std::unique_ptr<LevFormulaDb> f(new LevFormulaDb());
            f->open((path + "/formula.db").c_str());
            fdb = std::move(f);
            std::unique_ptr<LevCrawlDb> c(new LevCrawlDb());
            c->open((path + "/crawl.db").c_str());
            cdb = std::move(c);
        } catch (const std::exception& e) {
            return e.what();
        }
        return "";
    }
    // creating without permission to delete has to fail and keep everything
    bool refuses() {
        bool f = false, c = false;
        try {
            LevFormulaDb x;
            x.create_new((path + "/formula.db").c_str(), false);
        } catch (const std::exception& e) {
            f = true;
        }
        try {
            LevCrawlDb x;
            x.create_new((path + "/crawl.db").c_str(), false);
        } catch (const std::exception& e) {
            c = true;
        }
        return f && c;
    }
};
static bool get(Case& c, Impl& im, FormulaId f, unsigned min, unsigned size, int stopAfter, vector<Rec>* out, int* rv) {
    out->clear();
    c.add("queries");
    *rv = im.fdb->queryFormula(f, min, size, [&](const CrawlId& id, const FormulaPath& p) {
        out->push_back({f, id, p.xmlId, p.xpath});
        return stopAfter >= 0 && (int)out->size() > stopAfter ? -1 : 0;
    });
    return true;
}
static bool window(Case& c, Impl& im, const Model& m, FormulaId f, unsigned min, unsigned size, int stop = -1) {
    vector<Rec> got, all = m.of(f), want;
    bool stopped = false;
    for (uint64_t i = min; i < all.size() && i - min < size; i++) {
        want.push_back(all[i]);
        if (stop >= 0 && (int)want.size() > stop) {
            stopped = true;
            break;
        }
    }
    int rv;
    get(c, im, f, min, size, stop, &got, &rv);
    if (!(got == want) || rv != (stopped ? -1 : 0)) {
        c.fail("%s store: query(formula %u, from %u, size %u, stop after %d) returned %d with\n%sexpected %d with\n%s",
               im.disk ? "disk" : "memory", f, min, size, stop, rv, list(got).c_str(), stopped ? -1 : 0, list(want).c_str());
        return false;
    }
    return true;
}
static bool crawl(Case& c, Impl& im, const Model& m) {
    for (size_t i = 0; i < m.ids.size(); i++) {
        c.add("queries");
        try {
            if (im.cdb->getData(m.ids[i]) != m.data[i]) {
                c.fail("%s store: record %u changed", im.disk ? "disk" : "memory", m.ids[i]);
                return false;
            }
        } catch (const std::exception& e) {
            c.fail("%s store: record %u lost: %s", im.disk ? "disk" : "memory", m.ids[i], e.what());
            return false;
        }
    }
    for (CrawlId bad : {CrawlId(0), CrawlId(77777), CrawlId(4294967295u)}) {
        bool used = false;
        for (auto i : m.ids) used |= i == bad;
        if (used) continue;
        try {
            im.cdb->getData(bad);
            c.fail("%s store: a record %u which was never stored is returned", im.disk ? "disk" : "memory", bad);
            return false;
        } catch (const std::exception& e) {
        }
    }
    return true;
}
static bool put(Case& c, Impl& im, const string& d, CrawlId* id) {
    try {
        *id = im.cdb->putData(d);
    } catch (const std::exception& e) {
        c.fail("%s store refuses data: %s", im.disk ? "disk" : "memory", e.what());
        return false;
    }
    if (*id == CRAWLID_NULL) {
        c.fail("%s store gives the id which means no data", im.disk ? "disk" : "memory");
        return false;
    }
    return true;
}
static bool insert(Case& c, Impl& im, const Rec& r) {
    if (im.fdb->insertFormula(r.f, r.c, FormulaPath(r.id, r.xp)) != 0) {
        c.fail("%s store refuses a formula", im.disk ? "disk" : "memory");
        return false;
    }
    return true;
}
static const vector<FormulaId> FS = {1, 2, 3, 10, 11, 12, 100, 4294967295u};
// everything that can be observed
static bool observe(Case& c, Impl& im, const Model& m, bool stops) {
    for (FormulaId f : FS) {
        unsigned n = m.of(f).size();
        for (unsigned min = 0; min <= n + 1; min++)
            for (unsigned size = 0; size <= n + 1; size++) {
                if (!window(c, im, m, f, min, size)) return false;
                if (stops)
                    for (unsigned s = 0; s <= n; s++)
                        if (!window(c, im, m, f, min, size, s)) return false;
            }
        if (!window(c, im, m, f, 0, 4294967295u)) return false;
        if (!window(c, im, m, f, n ? n - 1 : 0, 4294967295u)) return false;
        if (!window(c, im, m, f, 4294967295u, 4294967295u)) return false;
    }
    return crawl(c, im, m);
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C21", "model_checking");
    run.declare({"sequences", "operations", "queries"});
    run.transitionsCounter = "operations";
    run.tracesCounter = "sequences";
    run.rule = "state = distinct content of the model store (records per formula, crawl records, open/reopened); "
               "transition = one operation on the real memory and disk stores; every reachable state within the "
               "depth is fully observed (every formula, every window, every crawl record)";
    run.assumptions = {"LevelDB is trusted", "one process has a store open at a time"};
    const bool th = run.thorough;

    auto start = [&](Case& c, Impl* im, int n) {
        for (int k = 0; k < n; k++) {
            im[k].disk = k == 0;
            im[k].path = c.scratch + "/s";
            if (k == 0) {
                vk::rmTree(im[k].path);
                mkdir(im[k].path.c_str(), 0700);
            }
            string e = im[k].create(false);
            if (!e.empty()) {
                c.fail("cannot create: %s", e.c_str());
                return false;
            }
        }
        return true;
    };
    // all operation sequences
    {
        enum { INS1, INS2, INS10, PUT, PUT0, REOPEN, REFUSE, RECREATE, NOPS };
        const char* names[] = {"insert(1)", "insert(2)", "insert(10)", "put", "put(empty)", "reopen", "create refused", "recreate"};
        const int depth = th ? 6 : 5;
        uint64_t n = 1;
        for (int i = 0; i < depth; i++) n *= NOPS;
        run.forall("operations", n, [&](Case& c) {
            vk::Digits d(c.index);
            Impl im[2];
            Model m;
            c.add("sequences");
            string desc;
            if (!start(c, im, 2)) return;
            int k = 0;
            for (int s = 0; s < depth; s++) {
                int op = d.next(NOPS);
                desc += string(names[op]) + "; ";
                c.desc(desc);
                c.add("operations");
                c.beat();
                switch (op) {
                    case INS1:
                    case INS2:
                    case INS10: {
                        Rec r{op == INS1 ? 1u : op == INS2 ? 2u : 10u, m.ids.empty() ? 0 : m.ids[k % m.ids.size()], vk::fmt("u%d", k), k % 2 ? "" : "/*[1]"};
                        m.recs.push_back(r);
                        if (!insert(c, im[0], r) || !insert(c, im[1], r)) return;
                        k++;
                        break;
                    }
                    case PUT:
                    case PUT0: {
                        string t = op == PUT0 ? "" : vk::fmt("data %d", k++);
                        CrawlId a, b;
                        if (!put(c, im[0], t, &a) || !put(c, im[1], t, &b)) return;
                        if (a != b) {
                            c.fail("the disk store numbers a record %u, the memory store %u", a, b);
                            return;
                        }
                        m.ids.push_back(a);
                        m.data.push_back(t);
                        break;
                    }
                    case REOPEN: {
                        im[0].shut();
                        string e = im[0].open();
                        if (!e.empty()) {
                            c.fail("cannot be reopened: %s", e.c_str());
                            return;
                        }
                        break;
                    }
                    case REFUSE: {
                        im[0].shut();
                        if (!im[0].refuses()) {
                            c.fail("an existing store is overwritten without having been asked to");
                            return;
                        }
                        string e = im[0].open();
                        if (!e.empty()) {
                            c.fail("cannot be reopened: %s", e.c_str());
                            return;
                        }
                        break;
                    }
                    case RECREATE:
                        for (auto& x : im) {
                            x.shut();
                            string e = x.create(true);
                            if (!e.empty()) {
                                c.fail("cannot be recreated: %s", e.c_str());
                                return;
                            }
                        }
                        m = Model();
                        break;
                }
                for (size_t i = 0; i < m.ids.size(); i++)
                    for (size_t j = 0; j < i; j++)
                        if (m.ids[i] == m.ids[j]) {
                            c.fail("two records share the id %u", m.ids[i]);
                            return;
                        }
            }
            for (auto& x : im)
                if (!observe(c, x, m, true)) return;
            string s;
            for (auto& r : m.recs) s += r.str();
            for (auto& t : m.data) s += t + "|";
            c.state(s);
        });
    }
    // many records of a formula, interleaved with its neighbours
    run.forall("many records", (th ? 260 : 120) * 2, [&](Case& c) {
        unsigned n = c.index / 2 + 1;
        bool mid = c.index % 2;
        Impl im[2];
        Model m;
        c.add("sequences");
        c.desc(vk::fmt("%u records for each of three formulae%s", n, mid ? ", reopened in between" : ""));
        if (!start(c, im, 2)) return;
        for (unsigned i = 0; i < n; i++) {
            for (FormulaId f : {FormulaId(1), FormulaId(10), FormulaId(11)}) {
                Rec r{f, i, vk::fmt("u%u.%u", f, i), vk::fmt("/*[%u]", i)};
                m.recs.push_back(r);
                c.add("operations", 2);
                if (!insert(c, im[0], r) || !insert(c, im[1], r)) return;
            }
            if (mid && i == n / 2) {
                im[0].shut();
                im[0].open();
            }
        }
        im[0].shut();
        string e = im[0].open();
        if (!e.empty()) {
            c.fail("cannot be reopened: %s", e.c_str());
            return;
        }
        c.state(vk::fmt("many%u", n));
        for (auto& x : im)
            for (FormulaId f : {FormulaId(1), FormulaId(10), FormulaId(11), FormulaId(2)}) {
                c.beat();
                for (unsigned min = 0; min <= n + 1; min += th || n < 24 ? 1 : 1 + n / 12)
                    for (unsigned size : {0u, 1u, 2u, 9u, 10u, n / 2, n - 1, n, n + 1, 4294967295u})
                        if (!window(c, x, m, f, min, size)) return;
            }
    });
    // formula and crawl ids of every length, positions and data of every kind
    {
        vector<string> texts = {"", "a", string(1, '\0'), string("\0b", 2), "\xff", "a!b", "<x y=\"z\">&amp;</x>\n", "\xe2\x88\x9e"};
        for (int a = 0; a < 256; a++) texts.push_back(string(1, (char)a) + "x");
        for (size_t l : {7, 8, 9, 127, 128, 255, 256, 257, 4095, 4096, 65535, 65536, 1000000}) texts.push_back(string(l, 'q') + "end");
        run.forall("contents", texts.size(), [&](Case& c) {
            Impl im[2];
            Model m;
            c.add("sequences");
            c.desc("text " + vk::jstr(texts[c.index].substr(0, 100)));
            if (!start(c, im, 2)) return;
            for (int k = 0; k < 3; k++) {
                const string& t = texts[(c.index + k) % texts.size()];
                CrawlId id[2];
                for (int j = 0; j < 2; j++)
                    if (!put(c, im[j], t, &id[j])) return;
                m.ids.push_back(id[0]);
                m.data.push_back(t);
                Rec r{FormulaId(k % 2 + 1), id[0], t, texts[(c.index + 2 * k + 1) % texts.size()]};
                m.recs.push_back(r);
                c.add("operations", 4);
                if (!insert(c, im[0], r) || !insert(c, im[1], r)) return;
            }
            for (auto& x : im)
                if (!observe(c, x, m, false)) return;
            im[0].shut();
            im[0].open();
            if (!observe(c, im[0], m, false)) return;
            c.state("text" + texts[c.index].substr(0, 100));
        });
        vector<uint32_t> nums = {0, 1, 2, 9, 10, 11, 19, 99, 100, 101, 255, 256, 999, 1000, 65535, 65536, 99999, 100000, 2147483647u, 2147483648u, 4294967294u, 4294967295u};
        run.forall("ids", nums.size() * nums.size(), [&](Case& c) {
            Impl im[2];
            Model m;
            FormulaId a = nums[c.index % nums.size()], b = nums[c.index / nums.size()];
            c.add("sequences");
            c.desc(vk::fmt("formulae %u and %u", a, b));
            if (!start(c, im, 2)) return;
            for (int k = 0; k < 4; k++) {
                Rec r{k % 2 ? a : b, nums[(c.index + k * 5) % nums.size()], vk::fmt("u%d", k), ""};
                m.recs.push_back(r);
                c.add("operations", 2);
                if (!insert(c, im[0], r) || !insert(c, im[1], r)) return;
            }
            c.state(vk::fmt("ids%u|%u", a, b));
            for (auto& x : im)
                for (FormulaId f : nums)
                    for (unsigned min = 0; min < 5; min++)
                        for (unsigned size = 0; size < 5; size++)
                            if (!window(c, x, m, f, min, size)) return;
        });
        run.forall("many crawl records", th ? 40 : 12, [&](Case& c) {
            unsigned n = (c.index + 1) * 37;
            Impl im[2];
            Model m;
            c.add("sequences");
            c.desc(vk::fmt("%u crawl records", n));
            if (!start(c, im, 2)) return;
            for (unsigned i = 0; i < n; i++) {
                string t = vk::fmt("%u", i) + string(i % 50, 'x');
                CrawlId id[2];
                for (int j = 0; j < 2; j++)
                    if (!put(c, im[j], t, &id[j])) return;
                if (id[0] != id[1]) {
                    c.fail("the stores number record %u differently: %u, %u", i, id[0], id[1]);
                    return;
                }
                c.add("operations", 2);
                m.ids.push_back(id[0]);
                m.data.push_back(t);
                if (i % 100 == 99) {
                    im[0].shut();
                    im[0].open();
                }
            }
            for (auto& x : im)
                if (!crawl(c, x, m)) return;
            c.state(vk::fmt("crawl%u", n));
        });
    }
    // stores which grow past every number of digits and bytes
    {
        vector<unsigned> marks = {10, 100, 256, 1000, 10000, 65536, 100000};
        if (th) marks.push_back(1000000);
        run.forall("volumes", marks.size() * 4 * 2, [&](Case& c) {
            vk::Digits d(c.index);
            int reopen = d.next(4);  // never, before, at, after the mark
            bool crawls = d.next(2);
            unsigned mark = marks[d.i];
            Impl im[2];
            Model m;
            c.add("sequences");
            c.desc(vk::fmt("%u %s, %s", mark + 4, crawls ? "crawl records" : "formula records", reopen == 0 ? "never reopened" : reopen == 1 ? "reopened before" : reopen == 2 ? "reopened at" : "reopened after"));
            if (!start(c, im, 2)) return;
            for (unsigned i = 1; i <= mark + 4; i++) {
                if (i % 4096 == 0) c.beat();
                bool near = i + 3 >= mark;
                if (crawls) {
                    string t = vk::fmt("record %u", i);
                    CrawlId id[2];
                    for (int j = 0; j < 2; j++)
                        if (!put(c, im[j], t, &id[j])) return;
                    if (id[0] != id[1]) return c.fail("the stores number record %u differently: %u, %u", i, id[0], id[1]);
                    m.ids.push_back(id[0]);
                    m.data.push_back(t);
                } else {
                    // the formula asked for, a few times before and after, among others
                    Rec r{near || (i & (i - 1)) == 0 ? 12u : i % 3 ? 1u : 123u, i, vk::fmt("u%u", i), ""};
                    if (r.f == 12 || mark <= 10000) m.recs.push_back(r);
                    for (int j = 0; j < 2; j++)
                        if (!insert(c, im[j], r)) return;
                }
                c.add("operations", 2);
                if (reopen && i == mark - 2 + reopen) {
                    im[0].shut();
                    string e = im[0].open();
                    if (!e.empty()) return c.fail("cannot be reopened: %s", e.c_str());
                }
            }
            c.state(vk::fmt("volume%llu", (unsigned long long)c.index));
            for (auto& x : im) {
                if (crawls) {
                    if (!crawl(c, x, m)) return;
                    continue;
                }
                unsigned n = m.of(12).size();
                for (unsigned min = 0; min <= n; min++)
                    for (unsigned size : {1u, 2u, n, 4294967295u})
                        if (!window(c, x, m, 12, min, size)) return;
                if (mark > 10000) continue;
                for (FormulaId f : {1u, 123u}) {
                    unsigned k = m.of(f).size();
                    for (unsigned min : {0u, 1u, k / 2, k > 10 ? k - 10 : 0, k})
                        if (!window(c, x, m, f, min, 4294967295u)) return;
                }
            }
        });
    }
    // the query manager hands out the data of the record a formula refers to
    run.forall("manager", 3 * 3 * 3 * 2 * 2, [&](Case& c) {
        vk::Digits d(c.index);
        int ref[3] = {(int)d.next(3), (int)d.next(3), (int)d.next(3)};
        bool disk = d.next(2), with = d.next(2);
        Impl im[2];
        c.add("sequences");
        c.desc(vk::fmt("references %d %d %d, %s, %s crawl store", ref[0], ref[1], ref[2], disk ? "disk" : "memory", with ? "with" : "without"));
        if (!start(c, im, 2)) return;
        Impl& x = im[disk ? 0 : 1];
        CrawlId ids[3] = {CRAWLID_NULL, 0, 0};
        string data[3] = {"", "first", ""};
        put(c, x, data[1], &ids[1]);
        put(c, x, data[2] = "second", &ids[2]);
        for (int i = 0; i < 3; i++) insert(c, x, {5, ids[ref[i]], vk::fmt("u%d", i), vk::fmt("p%d", i)});
        DbQueryManager mgr(with ? x.cdb.get() : nullptr, x.fdb.get());
        for (unsigned min = 0; min < 5; min++)
            for (unsigned size = 0; size < 5; size++) {
                vector<string> got, want;
                int rv = mgr.query(5, min, size, [&](const FormulaPath& p, const CrawlData& t) {
                    got.push_back(p.xmlId + "|" + p.xpath + "|" + t);
                    return 0;
                });
                c.add("queries");
                for (unsigned i = min; i < 3 && i < min + size; i++)
                    want.push_back(vk::fmt("u%u|p%u|", i, i) + (with ? data[ref[i]] : ""));
                if (rv != 0 || got != want) {
                    c.fail("window %u+%u: returned %d and %zu records instead of %zu, or with other data", min, size, rv, got.size(), want.size());
                    return;
                }
            }
        c.state(vk::fmt("mgr%llu", (unsigned long long)c.index));
    });
    return run.finish();
}
