// C08: a damaged or half-written index is refused, never served.
#include "faultio.hpp"
#include "mwsh.hpp"
using namespace mwsh;
using vk::Case;

typedef map<string, string> Files;  // path below the index directory -> content

static void listFiles(const string& root, const string& rel, Files& out) {
    string dir = rel.empty() ? root : root + "/" + rel;
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    vector<string> names;
    while (dirent* e = readdir(d)) {
        string n = e->d_name;
        if (n != "." && n != "..") names.push_back(n);
    }
    closedir(d);
    for (auto& n : names) {
        string r = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (lstat((root + "/" + r).c_str(), &st) != 0) continue;
        if (S_ISDIR(st.st_mode)) listFiles(root, r, out);
        else out[r] = vk::readFile(root + "/" + r);
    }
}
static void writeFiles(const string& root, const Files& f) {
    freshDir(root);
    for (auto& e : f) {
        size_t s = e.first.find('/');
        if (s != string::npos) mkdir((root + "/" + e.first.substr(0, s)).c_str(), 0700);
        vk::writeFile(root + "/" + e.first, e.second);
    }
}
static vector<string> QUERIES;
static string answersOf(mws::daemon::QueryHandler* h) {
    string o;
    for (auto& q : QUERIES) {
        Ans a = ask(h, q);
        o += vk::fmt("total %d\n", a.total) + hitsStr(sorted(a.hits));
    }
    return o;
}
// "" = refused cleanly
static string serve(const string& dir) {
    std::unique_ptr<mws::daemon::QueryHandler> h;
    try {
        h = idxHandler(dir);
    } catch (const std::exception& e) {
        return "";
    }
    return answersOf(h.get());
}
static Harvest harvestNo(int k) {
    Harvest h;
    if (k == 0) {
        h.exprs.push_back({"u1", "", app({ci("f"), cn("1")})});
    } else if (k == 1) {
        h.datas.push_back({"1", "<t>one</t>"});
        h.datas.push_back({"2", "two"});
        h.exprs.push_back({"u1", "1", app({ci("f"), cn("1")})});
        h.exprs.push_back({"u2", "2", app({ci("f"), cn("2")})});
        h.exprs.push_back({"u3", "", app({ci("g"), app({ci("f"), cn("1")}), cn("2")})});
    } else {
        h.datas.push_back({"1", string(40, 'd')});
        for (int i = 0; i < 12; i++)
            h.exprs.push_back({vk::fmt("v%d", i), i % 2 ? "1" : "",
                               app({ci(vk::fmt("h%d", i % 3)), cn(std::to_string(i)), ci("f")})});
    }
    return h;
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C08", "model_checking");
    run.declare({"queries", "loads", "refused", "crash_points", "rebuilds"});
    run.transitionsCounter = "loads";
    run.tracesCounter = "crash_points";
    run.rule = "state = content of the index directory after one damage or after the process died at "
               "one system call (whole, partial or no effect of it); transition = one load of such a "
               "directory by the real loader, followed by queries when it is accepted; trace = one "
               "interrupted execution of the real index writer";
    const bool th = run.thorough;
    for (auto& p : {qv("x"), ci("f"), cn("2"), app({ci("f"), qv("x")}), app({ci("g"), qv("y"), qv("z")}),
                    app({qv("a"), qv("b"), ci("f")})})
        QUERIES.push_back(queryXml(p));

    // reference indexes, built once by the real writer
    const int NH = 3;
    Files fresh[NH], loaded[NH];
    string want[NH];
    for (int k = 0; k < NH; k++) {
        string d = run.scratchRoot + vk::fmt("/base%d", k);
        mkdir(d.c_str(), 0700);
        freshDir(d + "/h");
        vk::writeFile(d + "/h/a.harvest", harvestXml(harvestNo(k)));
        pid_t p = fork();
        if (p == 0) {
            run.setupChild(d + "/log");
            int rc = buildIndex(d + "/h", d + "/idx");
            _exit(rc);
        }
        int st;
        waitpid(p, &st, 0);
        if (st == 0) {
            listFiles(d + "/idx", "", fresh[k]);
            p = fork();
            if (p == 0) {
                run.setupChild(d + "/log");
                vk::writeFile(d + "/ans", serve(d + "/idx"));
                _exit(0);
            }
            waitpid(p, &st, 0);
        }
        if (st != 0) {
            run.forall("reference", 1, [&](Case& c) {
                c.desc(harvestXml(harvestNo(k)));
                if (buildIndex(d + "/h", c.scratch + "/idx") != 0 || serve(c.scratch + "/idx").empty())
                    c.fail("an undamaged index cannot be built or loaded");
            });
            return run.finish();
        }
        listFiles(d + "/idx", "", loaded[k]);
        want[k] = vk::readFile(d + "/ans");
    }
    run.forall("undamaged", NH * 2, [&](Case& c) {
        int k = c.index / 2;
        writeFiles(c.scratch + "/x", c.index % 2 ? loaded[k] : fresh[k]);
        c.add("loads");
        c.desc(vk::fmt("index %d copied unchanged%s", k, c.index % 2 ? " (loaded before)" : ""));
        string a = serve(c.scratch + "/x");
        if (a.empty()) c.fail("an undamaged index is refused");
        else if (a != want[k]) c.fail("the undamaged index answers\n%s\ninstead of\n%s", a.c_str(), want[k].c_str());
    });
    auto judge = [&](Case& c, const string& dir, const vector<string>& ok) {
        c.add("loads");
        c.beat();
        string a = serve(dir);
        if (a.empty()) {
            c.add("refused");
            return;
        }
        c.add("queries", QUERIES.size());
        for (auto& o : ok)
            if (a == o) return;
        c.fail("the damaged index is served and answers\n%s\nthe complete one answers\n%s", a.c_str(), ok[0].c_str());
    };
    struct Pos {
        int k;
        const Files* base;
        bool again;
        string file;
        size_t off;
    };
    // one position per byte of every stored file
    vector<Pos> pos;
    for (int k = 0; k < (th ? 3 : 2); k++)
        for (int again = 0; again < 2; again++) {
            const Files& f = again ? loaded[k] : fresh[k];
            for (auto& e : f) {
                string n = e.first.substr(e.first.find('/') + 1);
                if (n == "LOG" || n == "LOG.old" || n == "LOCK") continue;
                for (size_t i = 0; i < e.second.size(); i++) pos.push_back({k, &f, (bool)again, e.first, i});
            }
        }
    auto where = [&](const Pos& p, const char* what) {
        return vk::fmt("index %d%s, file %s (%zu bytes): %s at %zu", p.k, p.again ? " (loaded before)" : "",
                       p.file.c_str(), p.base->at(p.file).size(), what, p.off);
    };
    run.forall("truncated", pos.size(), [&](Case& c) {
        const Pos& p = pos[c.index];
        Files f = *p.base;
        f[p.file].resize(p.off);
        c.desc(where(p, "truncated"));
        c.state("t" + where(p, ""));
        writeFiles(c.scratch + "/x", f);
        judge(c, c.scratch + "/x", {want[p.k]});
    });
    vector<int> masks = {0x01, 0x80, 0xff};
    if (th) masks = {0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff, 0x55, -1};
    run.forall("byte-changed", pos.size() * masks.size(), [&](Case& c) {
        vk::Digits d(c.index);
        int m = masks[d.next(masks.size())];
        const Pos& p = pos[d.i];
        Files f = *p.base;
        char& b = f[p.file][p.off];
        if (m < 0) {
            if (b == 0) return;
            b = 0;
        } else {
            b ^= m;
        }
        c.desc(where(p, vk::fmt("byte changed to 0x%02x", (unsigned char)b).c_str()));
        c.state("b" + c.description);
        writeFiles(c.scratch + "/x", f);
        judge(c, c.scratch + "/x", {want[p.k]});
    });
    // bytes inserted at / appended to / removed from inside a file
    run.forall("byte-inserted-or-removed", pos.size() * 2, [&](Case& c) {
        vk::Digits d(c.index);
        int what = d.next(2);
        const Pos& p = pos[d.i];
        Files f = *p.base;
        if (what == 0) f[p.file].erase(p.off, 1);
        else f[p.file].insert(p.off, 1, '\0');
        // an accepted file with unchanged answers is fine
        c.desc(where(p, what ? "zero byte inserted" : "byte removed"));
        c.state("i" + c.description);
        writeFiles(c.scratch + "/x", f);
        judge(c, c.scratch + "/x", {want[p.k]});
    });
    // what a lost cache leaves behind: every combination of files cut short
    for (int again = 0; again < 2; again++) {
        const Files& base = again ? loaded[1] : fresh[1];
        vector<string> names;
        for (auto& e : base) {
            string n = e.first.substr(e.first.find('/') + 1);
            if (n == "LOG" || n == "LOG.old" || n == "LOCK" || e.second.empty()) continue;
            names.push_back(e.first);
        }
        uint64_t n = 1;
        for (size_t i = 0; i < names.size(); i++) n *= names.size() > 8 ? 3 : 4;
        const int R = names.size() > 8 ? 3 : 4;
        run.forall(again ? "files-cut-together-loaded" : "files-cut-together", n, [&](Case& c) {
            vk::Digits d(c.index);
            Files f = base;
            string s;
            for (auto& nm : names) {
                int w = d.next(R);
                string& v = f[nm];
                s += nm;
                if (w == 1) { v.clear(); s += " emptied; "; }
                else if (w == 2) { f.erase(nm); s += " missing; "; }
                else if (w == 3) { v.resize(v.size() / 2); s += " halved; "; }
                else s += " kept; ";
            }
            c.desc(s);
            c.state(s);
            writeFiles(c.scratch + "/x", f);
            judge(c, c.scratch + "/x", {want[1]});
        });
    }
    // files of two different indexes mixed
    run.forall("mixed", NH * NH * 16, [&](Case& c) {
        vk::Digits d(c.index);
        int a = d.next(NH), b = d.next(NH);
        unsigned m = d.next(16);
        if (a == b) return;
        Files f;
        // groups: two databases, dictionary, memsector
        std::set<string> groups;
        for (auto& e : fresh[a]) groups.insert(e.first.substr(0, e.first.find('/')));
        vector<string> gs(groups.begin(), groups.end());
        string s;
        for (size_t i = 0; i < gs.size(); i++) {
            bool second = (m >> i) & 1;
            s += gs[i] + vk::fmt(" of index %d; ", second ? b : a);
            for (auto& e : second ? fresh[b] : fresh[a])
                if (e.first.substr(0, e.first.find('/')) == gs[i]) f[e.first] = e.second;
        }
        c.desc(s);
        c.state(s);
        writeFiles(c.scratch + "/x", f);
        // refusing is not demanded of a mixture; surviving it is
        c.add("loads");
        serve(c.scratch + "/x");
    });

    // ---- crash points of the real writer
    auto build = [&](const string& dir, int k, const string& out, bool del) {
        freshDir(dir + "/h");
        vk::writeFile(dir + "/h/a.harvest", harvestXml(harvestNo(k)));
        mws::index::IndexConfiguration cfg;
        cfg.harvester = harvestConfig(dir + "/h");
        cfg.dataPath = out;
        cfg.deleteOldData = del;
        return mws::index::createCompressedIndex(cfg);
    };
    auto put = [&](const string& dir, int k) {
        freshDir(dir + "/h");
        vk::writeFile(dir + "/h/a.harvest", harvestXml(harvestNo(k)));
    };
    auto builder = [&](const string& dir, const string& out, bool del) {
        return [=]() {
            mws::index::IndexConfiguration cfg;
            cfg.harvester = harvestConfig(dir + "/h");
            cfg.dataPath = out;
            cfg.deleteOldData = del;
            return mws::index::createCompressedIndex(cfg);
        };
    };
    struct Crash {
        int before, k;  // index present before (-1 none), index being written
        int at, mode;
        long partial;
        string call;
    };
    vector<Crash> crashes;
    for (int before = -1; before < NH; before++)
        for (int k = 0; k < NH; k++) {
            if (!th && before >= 0 && (before != 1 || k == 1)) continue;
            if (before == k && !th) continue;
            string d = run.scratchRoot + "/rec";
            freshDir(d);
            if (before >= 0) writeFiles(d + "/idx", fresh[before]);
            put(d, k);
            fio::Outcome o = fio::run(fio::RECORD, -1, 0, 0, builder(d, d + "/idx", before >= 0), d + "/log");
            if (!o.exited || o.code != 0) {
                run.forall("writer", 1, [&](Case& c) {
                    c.desc(vk::fmt("index %d%s", k, before >= 0 ? " over an old one" : ""));
                    fio::Outcome o2 = fio::run(fio::RECORD, -1, 0, 0, builder(d, d + "/idx", true), d + "/log");
                    if (!o2.exited || o2.code != 0) c.fail("index creation failed: exit %d signal %d\n%s", o2.code, o2.sig, o2.log.c_str());
                });
                run.broken = !run.failing();
                return run.finish();
            }
            fio::Plan* p = fio::plan();
            auto callName = [&](int i) {
                string s = fio::describe(i);
                size_t a = s.find(d);
                if (a != string::npos) s.erase(a, d.size() + 1);
                return s;
            };
            for (int i = 0; i < p->nev; i++) {
                crashes.push_back({before, k, i, fio::KILL_BEFORE, 0, callName(i)});
                if (fio::isWrite(p->ev[i].nr) && p->ev[i].len > 1) {
                    long L = p->ev[i].len;
                    std::set<long> cuts = {1, L / 4, L / 2, L - 1};
                    if (th || L <= 64)
                        for (long x = 1; x < L; x += (L <= 600 ? 1 : L / 300)) cuts.insert(x);
                    for (long x : cuts)
                        if (x > 0 && x < L) crashes.push_back({before, k, i, fio::KILL_PARTIAL, x, callName(i)});
                }
            }
            crashes.push_back({before, k, p->nev - 1, fio::KILL_AFTER, 0, callName(p->nev - 1)});
        }
    auto crashDesc = [&](const Crash& x) {
        return vk::fmt("index %d written%s; killed %s %s", x.k, x.before >= 0 ? vk::fmt(" over index %d", x.before).c_str() : "",
                       x.mode == fio::KILL_BEFORE ? "before" : x.mode == fio::KILL_AFTER ? "after"
                                                                                         : vk::fmt("after %ld bytes of", x.partial).c_str(),
                       x.call.c_str());
    };
    run.forall("crash-points", crashes.size(), [&](Case& c) {
        const Crash& x = crashes[c.index];
        string d = c.scratch;
        vk::rmTree(d + "/idx");
        if (x.before >= 0) writeFiles(d + "/idx", fresh[x.before]);
        put(d, x.k);
        fio::Outcome o = fio::run(x.mode, x.at, 0, x.partial, builder(d, d + "/idx", x.before >= 0), d + "/blog");
        c.desc(crashDesc(x));
        c.state(crashDesc(x));
        if (!o.killed) {
            c.fail("the writer did not reach the call: exit %d signal %d\n%s", o.code, o.sig, o.log.c_str());
            return;
        }
        c.add("crash_points");
        vector<string> ok = {want[x.k]};
        if (x.before >= 0) ok.push_back(want[x.before]);
        Files left;
        listFiles(d + "/idx", "", left);
        writeFiles(d + "/x", left);
        judge(c, d + "/x", ok);
        if (c.failed) return;
        // recovery: a complete rebuild with deletion of old data
        c.add("rebuilds");
        int rc = build(d, x.k, d + "/idx", true);
        if (rc != 0) {
            c.fail("rebuilding over the remains fails");
            return;
        }
        string a = serve(d + "/idx");
        c.add("loads");
        if (a != want[x.k])
            c.fail("the rebuilt index answers\n%s\ninstead of\n%s", a.c_str(), want[x.k].c_str());
    });
    // two interruptions in a row, then a complete rebuild
    if (th) {
        vector<Crash> one;
        for (auto& x : crashes)
            if (x.before == -1 && x.k == 0 && x.mode == fio::KILL_BEFORE) one.push_back(x);
        run.forall("two-crashes", one.size() * one.size(), [&](Case& c) {
            vk::Digits g(c.index);
            const Crash x = one[g.next(one.size())], y = one[g.next(one.size())];
            string d = c.scratch;
            vk::rmTree(d + "/idx");
            put(d, 0);
            fio::run(x.mode, x.at, 0, x.partial, builder(d, d + "/idx", true), d + "/blog");
            string s = crashDesc(x);
            put(d, 1);
            fio::run(y.mode, y.at, 0, y.partial, builder(d, d + "/idx", true), d + "/blog");
            c.desc(s + "\nthen " + crashDesc(y));
            c.state(c.description);
            c.add("crash_points", 2);
            Files left;
            listFiles(d + "/idx", "", left);
            writeFiles(d + "/x", left);
            judge(c, d + "/x", {want[1], want[0]});
            if (c.failed) return;
            if (build(d, 1, d + "/idx", true) != 0) c.fail("rebuilding over the remains fails");
            else if (serve(d + "/idx") != want[1]) c.fail("the rebuilt index answers differently");
            c.add("rebuilds");
        });
    }
    return run.finish();
}
