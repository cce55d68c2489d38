// C09: index creation reports success only when everything was stored.
#include "faultio.hpp"
#include "mwsh.hpp"
using namespace mwsh;
using vk::Case;

static Harvest harvestNo(int k) {
    Harvest h;
    if (k == 0) {
        h.exprs.push_back({"u1", "", app({ci("f"), cn("1")})});
    } else if (k == 1) {
        h.datas.push_back({"1", "<t>one</t>"});
        h.datas.push_back({"2", "two"});
        h.exprs.push_back({"u1", "1", app({ci("f"), cn("1")})});
        h.exprs.push_back({"u2", "2", app({ci("f"), cn("2")})});
        h.exprs.push_back({"u3", "", app({ci("g"), app({ci("f"), cn("1")}), cn("2")})});
    } else if (k == 2) {  // index and dictionary larger than the stdio buffers
        h.datas.push_back({"1", string(40, 'd')});
        for (int i = 0; i < 70; i++)
            h.exprs.push_back({vk::fmt("v%d", i), i % 2 ? "1" : "",
                               app({ci(vk::fmt("h%d", i % 3)), cn(string(150, '1') + std::to_string(i)), ci("f")})});
    } else {  // data larger than LevelDB's write buffer
        for (int i = 0; i < 3; i++) {
            h.datas.push_back({std::to_string(i), string(3000000, 'a' + i)});
            h.exprs.push_back({vk::fmt("w%d", i), std::to_string(i), app({ci("f"), cn(std::to_string(i))})});
        }
    }
    return h;
}
static vector<string> QUERIES;
static string serve(const string& dir, const string& mem) {
    std::unique_ptr<mws::daemon::QueryHandler> h;
    if (mem.empty()) {
        try {
            h = idxHandler(dir);
        } catch (const std::exception& e) {
            return string("cannot be loaded: ") + e.what();
        }
    } else {
        h = memHandler(mem);
    }
    string o;
    for (auto& q : QUERIES) {
        Ans a = ask(h.get(), q);
        o += vk::fmt("total %d\n", a.total);
        for (auto& x : sorted(a.hits))
            o += x.url + " " + x.xpath + vk::fmt(" %zu %llx\n", x.data.size(), (unsigned long long)vk::fnv(x.data));
    }
    return o;
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C09", "model_checking");
    run.declare({"failed_calls", "reported", "tolerated", "short_writes"});
    run.rule = "state = (index content, call that fails, kind of failure); transition = one execution of "
               "the real index writer in which that system call fails (once or from then on) or is "
               "performed in part, judged by its result and by loading and querying what it stored";
    const bool th = run.thorough;
    for (auto& p : {qv("x"), ci("f"), cn("2"), app({ci("f"), qv("x")}), app({qv("y"), qv("z"), ci("f")})})
        QUERIES.push_back(queryXml(p));
    auto builder = [&](const string& dir, const string& out, bool del) {
        return [=]() {
            mws::index::IndexConfiguration cfg;
            cfg.harvester = harvestConfig(dir);
            cfg.dataPath = out;
            cfg.deleteOldData = del;
            return mws::index::createCompressedIndex(cfg);
        };
    };
    const int NH = 4;
    string want[NH];
    struct F {
        int k, over, at, mode, err;
        long partial;
        string call;
    };
    vector<F> cases, bigCases;
    for (int k = 0; k < NH; k++) {
        string d = run.scratchRoot + vk::fmt("/base%d", k);
        freshDir(d);
        freshDir(d + "/h");
        vk::writeFile(d + "/h/a.harvest", harvestXml(harvestNo(k)));
        pid_t p = fork();
        if (p == 0) {
            run.setupChild(d + "/log");
            vk::writeFile(d + "/ans", serve("", d + "/h"));
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        want[k] = vk::readFile(d + "/ans");
        for (int over = 0; over < 2; over++) {
            if (over && k != 1 && !th) continue;
            fio::Outcome o = fio::run(fio::RECORD, -1, 0, 0, builder(d + "/h", d + "/idx", over), d + "/log");
            if (!o.exited || o.code != 0) {
                run.forall("no-fault", 1, [&](Case& c) {
                    c.desc(harvestXml(harvestNo(k)).substr(0, 2000));
                    vk::rmTree(d + "/idx");
                    fio::Outcome o2 = fio::run(fio::RECORD, -1, 0, 0, builder(d + "/h", d + "/idx", over), d + "/log");
                    if (!o2.exited || o2.code != 0) c.fail("index creation fails although no call does: exit %d, signal %d\n%s", o2.code, o2.sig, o2.log.c_str());
                });
                run.broken = !run.failing();
                return run.finish();
            }
            fio::Plan* p = fio::plan();
            for (int i = 0; i < p->nev; i++) {
                string s = fio::describe(i);
                size_t a = s.find(d);
                if (a != string::npos) s.erase(a, d.size() + 1);
                vector<F>& v = k == 3 ? bigCases : cases;
                for (int err : {ENOSPC, EIO, EINTR, EACCES}) {
                    if ((err == EINTR || err == EACCES) && k == 3) continue;
                    if (!th && (err == EIO || err == EACCES)) continue;
                    if (!th && k == 3) {
                        v.push_back({k, over, i, fio::FAIL_FROM, err, 0, s});
                        continue;
                    }
                    v.push_back({k, over, i, fio::FAIL_ONCE, err, 0, s});
                    if (err != EINTR) v.push_back({k, over, i, fio::FAIL_FROM, err, 0, s});
                }
                if (fio::isWrite(p->ev[i].nr) && p->ev[i].len > 1 && (th || k != 3)) {
                    long L = p->ev[i].len;
                    for (long x : std::set<long>{1, L / 2, L - 1})
                        if (x > 0 && x < L) v.push_back({k, over, i, fio::SHORT_ONCE, 0, x, s});
                }
            }
        }
    }
    auto body = [&](Case& c, const F& f) {
        string d = c.scratch, base = run.scratchRoot + vk::fmt("/base%d", f.k);
        vk::rmTree(d + "/idx");
        if (f.over && builder(base + "/h", d + "/idx", true)() != 0) {
            c.fail("index creation fails although no call does");
            return;
        }
        fio::Outcome o = fio::run(f.mode, f.at, f.err, f.partial, builder(base + "/h", d + "/idx", f.over), d + "/blog");
        string s = vk::fmt("harvest %d%s; %s %s", f.k, f.over ? " over an older index" : "", f.call.c_str(),
                           f.mode == fio::SHORT_ONCE ? vk::fmt("performs %ld bytes only", f.partial).c_str()
                           : f.mode == fio::FAIL_ONCE ? vk::fmt("fails (%s)", strerror(f.err)).c_str()
                                                      : vk::fmt("and all later calls fail (%s)", strerror(f.err)).c_str());
        c.desc(s);
        c.state(s);
        c.beat();
        if (!o.exited) {
            c.fail("index creation ends with signal %d\n%s", o.sig, o.log.c_str());
            return;
        }
        if (f.mode == fio::SHORT_ONCE) c.add("short_writes");
        else if (o.hit) c.add("failed_calls");
        if (o.code != 0 && o.code != 1) {
            c.fail("index creation ends with status %d\n%s", o.code, o.log.c_str());
            return;
        }
        if (o.code == 1) {
            c.add("reported");
            if (f.mode == fio::SHORT_ONCE) c.fail("index creation reports failure although every call succeeded\n%s", o.log.c_str());
            return;
        }
        c.add("tolerated");
        string a = serve(d + "/idx", "");
        if (a != want[f.k])
            c.fail("index creation reports success, but the index: %s\nexpected %s", a.c_str(), want[f.k].c_str());
    };
    run.forall("calls", cases.size(), [&](Case& c) { body(c, cases[c.index]); });
    run.forall("calls-large-data", bigCases.size(), [&](Case& c) { body(c, bigCases[c.index]); });
    return run.finish();
}
