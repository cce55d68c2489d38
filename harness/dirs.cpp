// C22: loading a directory processes every matching file once and only those.
#include "mwsh.hpp"
#include <sys/stat.h>
#include "common/utils/util.hpp"
using namespace mwsh;
using vk::Case;

// a file system may leave it to stat to tell what an entry is
static bool gNoTypes = false;
extern "C" {
struct dirent* __real_readdir(DIR*);
struct dirent64* __real_readdir64(DIR*);
int __real_readdir_r(DIR*, struct dirent*, struct dirent**);
int __real_readdir64_r(DIR*, struct dirent64*, struct dirent64**);
struct dirent* __wrap_readdir(DIR* d) {
    struct dirent* e = __real_readdir(d);
    if (e && gNoTypes) e->d_type = DT_UNKNOWN;
    return e;
}
struct dirent64* __wrap_readdir64(DIR* d) {
    struct dirent64* e = __real_readdir64(d);
    if (e && gNoTypes) e->d_type = DT_UNKNOWN;
    return e;
}
int __wrap_readdir_r(DIR* d, struct dirent* b, struct dirent** e) {
    int r = __real_readdir_r(d, b, e);
    if (r == 0 && *e && gNoTypes) (*e)->d_type = DT_UNKNOWN;
    return r;
}
int __wrap_readdir64_r(DIR* d, struct dirent64* b, struct dirent64** e) {
    int r = __real_readdir64_r(d, b, e);
    if (r == 0 && *e && gNoTypes) (*e)->d_type = DT_UNKNOWN;
    return r;
}
}

// as an unprivileged user, so that permissions count
struct Unprivileged {
    Unprivileged() {
        if (setegid(65534) || seteuid(65534)) abort();
    }
    ~Unprivileged() {
        if (seteuid(0) || setegid(0)) abort();
    }
};
enum Kind { FILE_, DIR_, FIFO, EMPTY, BROKEN, UNREADABLE, UNREADABLE_DIR };
struct Entry {
    const char* path;
    Kind kind;
};
// the universe of entries; parents are created when needed
static const Entry U[] = {
    {"b.harvest", FILE_},          {"a.txt", FILE_},          {"a.harvest", BROKEN},     {"0.harvest", UNREADABLE},
    {".h.harvest", FILE_},         {"d/a.harvest", FILE_},    {"d/u.harvest", UNREADABLE}, {"d/e/z.harvest", FILE_},
    {"c", UNREADABLE_DIR},         {"d/c", UNREADABLE_DIR},   {"t.harvest/y.harvest", FILE_}, {"p.harvest", FIFO},
    {"n.harvest", EMPTY},          {".hid/x.harvest", FILE_}, {"d/b.harvest.bak", FILE_},   {"z/e/f/g.harvest", FILE_}};
static const int NU = sizeof(U) / sizeof(U[0]);
static void mkParents(const string& base, const string& p) {
    for (size_t i = p.find('/'); i != string::npos; i = p.find('/', i + 1)) mkdir((base + "/" + p.substr(0, i)).c_str(), 0755);
}
static string nameOf(const string& p) {
    string s = "n";
    for (char ch : p) s += isalnum(ch) ? string(1, ch) : vk::fmt("_%d_", ch);
    return s;
}
static void put(const string& base, const Entry& e) {
    mkParents(base, e.path);
    string f = base + "/" + e.path, doc;
    Harvest h;
    h.exprs.push_back({"u", "", ci(nameOf(e.path))});
    doc = harvestXml(h);
    switch (e.kind) {
        case FILE_:
            vk::writeFile(f, doc);
            chmod(f.c_str(), 0644);
            break;
        case BROKEN:
            vk::writeFile(f, doc.substr(0, doc.rfind("</mws:harvest")) + "<mws:expr url=\"x\"><m:ci>lost");
            chmod(f.c_str(), 0644);
            break;
        case EMPTY:
            vk::writeFile(f, "");
            chmod(f.c_str(), 0644);
            break;
        case UNREADABLE:
            vk::writeFile(f, doc);
            chmod(f.c_str(), 0);
            break;
        case UNREADABLE_DIR: {
            mkdir(f.c_str(), 0755);
            h.exprs[0].t = ci(nameOf(string(e.path) + "/in.harvest"));
            vk::writeFile(f + "/in.harvest", harvestXml(h));
            chmod(f.c_str(), 0);
            break;
        }
        case FIFO:
            if (mkfifo(f.c_str(), 0644)) abort();
            break;
        default:
            break;
    }
}
static bool suffix(const string& s, const string& e) {
    return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0;
}
static int expectedCount(const Entry& e, bool recursive, const string& ext) {
    string p = e.path;
    if (p[0] == '.' || p.find("/.") != string::npos) return 0;  // hidden
    if (!recursive && p.find('/') != string::npos) return 0;
    if (e.kind == FILE_ || e.kind == BROKEN) return suffix(p, ext);
    return 0;
}
static void clean(const string& base) {
    std::function<void(const string&)> open = [&](const string& d) {
        chmod(d.c_str(), 0755);
        DIR* x = opendir(d.c_str());
        if (!x) return;
        while (dirent* e = readdir(x))
            if (e->d_type == DT_DIR && strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) open(d + "/" + e->d_name);
        closedir(x);
    };
    open(base);
    vk::rmTree(base);
    mkdir(base.c_str(), 0755);
}
static std::unique_ptr<mws::daemon::QueryHandler> loadPaths(const vector<string>& paths, bool rec, const string& ext) {
    mws::index::HarvesterConfiguration hc = harvestConfig(paths.empty() ? "" : paths[0]);
    hc.paths = paths;
    hc.recursive = rec;
    hc.fileExtension = ext;
    Unprivileged u;
    return std::unique_ptr<mws::daemon::QueryHandler>(new mws::daemon::HarvestQueryHandler(hc));
}
struct NoTypes {
    NoTypes(bool on) { gNoTypes = on; }
    ~NoTypes() { gNoTypes = false; }
};

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C22", "model_checking");
    run.declare({"directories", "questions", "visits"});
    run.transitionsCounter = "directories";
    run.tracesCounter = "directories";
    run.rule = "state = distinct directory content x recursion x extension; transition = one load of that directory by "
               "the real loader as an unprivileged user, judged by asking for a symbol unique to each file";
    run.assumptions = {"hidden entries and those which are no regular file or directory are no candidates (stated in the code's log)",
                       "names end in '.<extension>' or not with the extension at all"};
    const bool th = run.thorough;
    {
        char ch[4096];
        (void)ch;
        // the scratch tree has to be reachable for the unprivileged user
        string p = run.scratchRoot;
        chmod(p.c_str(), 0755);
    }
    auto directories = [&](const char* family, const vector<int>& pick, bool noTypes) {
    const int nu = pick.size();
    run.forall(family, (1ull << nu) * 2, [&](Case& c) {
        uint64_t set = 0;
        for (int i = 0; i < nu; i++) set |= (c.index / 2 >> i & 1) << pick[i];
        bool rec = c.index % 2;
        chmod(c.scratch.c_str(), 0755);
        string base = c.scratch + "/h";
        mkdir(base.c_str(), 0755);
        clean(base);
        string d = rec ? "recursive:" : "not recursive:";
        for (int i : pick)
            if (set >> i & 1) {
                put(base, U[i]);
                d += string(" ") + U[i].path;
            }
        c.desc(d);
        c.add("directories");
        std::unique_ptr<mws::daemon::QueryHandler> q;
        {
            NoTypes t(noTypes);
            q = loadPaths({base}, rec, "harvest");
        }
        for (int i : pick) {
            if (!(set >> i & 1) && i % 3 != (int)(set % 3)) continue;
            int want = (set >> i & 1) ? expectedCount(U[i], rec, "harvest") : 0;
            string n = nameOf(U[i].path);
            if (U[i].kind == UNREADABLE_DIR) n = nameOf(string(U[i].path) + "/in.harvest");
            int got = ask(q.get(), queryXml(ci(n))).total;
            c.add("questions");
            if (got != want) {
                c.fail("%s: %d times in the index, expected %d", U[i].path, got, want);
                break;
            }
        }
        c.state(vk::fmt("%llu", (unsigned long long)c.index));
        clean(base);
    });
    };
    vector<int> pick;
    for (int i = 0; i < (th ? NU : 14); i++) pick.push_back(i);
    directories("directories", pick, false);
    // the entries come without their types
    if (!th) pick = {0, 2, 4, 5, 7, 8, 10, 11, 13};
    directories("untyped entries", pick, true);
    // extensions
    {
        static const char* EXT[] = {"harvest", "txt", "xml", ".harvest", "bak"};
        static const char* NM[] = {"a.harvest", "b.txt", "c.xml", "d.harvest.bak", "e.bak.harvest", "f", "g.HARVEST", "h.harvest.", "i.harv"};
        run.forall("extensions", 5 * 512, [&](Case& c) {
            string ext = EXT[c.index % 5];
            unsigned set = c.index / 5;
            chmod(c.scratch.c_str(), 0755);
            string base = c.scratch + "/h";
            mkdir(base.c_str(), 0755);
            clean(base);
            string d = "extension " + ext + ":";
            for (int i = 0; i < 9; i++)
                if (set >> i & 1) {
                    put(base, {NM[i], FILE_});
                    d += string(" ") + NM[i];
                }
            c.desc(d);
            c.add("directories");
            auto q = loadPaths({base}, c.index & 1, ext);
            string dotted = ext[0] == '.' ? ext : "." + ext;
            for (int i = 0; i < 9; i++) {
                int want = (set >> i & 1) && suffix(NM[i], dotted);
                int got = ask(q.get(), queryXml(ci(nameOf(NM[i])))).total;
                c.add("questions");
                if (got != want) {
                    c.fail("%s: %d times in the index, expected %d", NM[i], got, want);
                    return;
                }
            }
            c.state(d);
        });
    }
    // several directories, missing and unreadable ones among them
    {
        enum { A, B, MISSING, LOCKED, AFILE, NK };
        run.forall("several paths", NK * NK * NK * NK * 2, [&](Case& c) {
            vk::Digits d(c.index);
            chmod(c.scratch.c_str(), 0755);
            string base = c.scratch + "/h";
            mkdir(base.c_str(), 0755);
            clean(base);
            put(base, {"A/x.harvest", FILE_});
            put(base, {"A/s/y.harvest", FILE_});
            put(base, {"B/x.harvest", FILE_});
            put(base, {"L", UNREADABLE_DIR});
            put(base, {"F.harvest", FILE_});
            static const char* N[] = {"A", "B", "missing", "L", "F.harvest"};
            vector<string> paths;
            int na = 0, nb = 0;
            string desc;
            for (int i = 0; i < 4; i++) {
                int k = d.next(NK);
                if ((k == A && na) || (k == B && nb)) continue;  // the same directory twice is not covered
                na += k == A;
                nb += k == B;
                paths.push_back(base + "/" + N[k]);
                desc += string(" ") + N[k];
            }
            bool rec = d.next(2);
            c.desc((rec ? "recursive:" : "not recursive:") + desc);
            c.add("directories");
            auto q = loadPaths(paths, rec, "harvest");
            struct {
                const char* n;
                int want;
            } t[] = {{"A/x.harvest", na}, {"A/s/y.harvest", na && rec}, {"B/x.harvest", nb}, {"L/in.harvest", 0}};
            for (auto& x : t) {
                int got = ask(q.get(), queryXml(ci(nameOf(x.n)))).total;
                c.add("questions");
                if (got != x.want) {
                    c.fail("%s: %d times in the index, expected %d", x.n, got, x.want);
                    break;
                }
            }
            c.state(c.description);
            clean(base);
        });
    }
    // the traversal itself: every file once with its place, every directory asked for once
    run.forall("traversal", 1 << 12, [&](Case& c) {
        static const char* F[] = {"a", "b/a", "b/c/a", "b/c/d/a", "e/a", "e/e/e", "z", "b/z", "g/h/i/j/k/l"};
        unsigned set = c.index & 511, deny = c.index >> 9;  // directories b, e, b/c can be declined
        chmod(c.scratch.c_str(), 0755);
        string base = c.scratch + "/t";
        mkdir(base.c_str(), 0755);
        clean(base);
        std::multiset<string> want, got;
        auto declined = [&](const string& p) {
            return ((deny & 1) && p.compare(0, 2, "b/") == 0) || ((deny & 2) && p.compare(0, 2, "e/") == 0) ||
                   ((deny & 4) && p.compare(0, 4, "b/c/") == 0);
        };
        string desc = vk::fmt("declined %u:", deny);
        for (int i = 0; i < 9; i++)
            if (set >> i & 1) {
                mkParents(base, F[i]);
                vk::writeFile(base + "/" + F[i], F[i]);
                desc += string(" ") + F[i];
                if (!declined(F[i])) want.insert(F[i]);
            }
        c.desc(desc);
        c.add("directories");
        auto norm = [](string p) {
            string o;
            std::istringstream s(p);
            string part;
            while (std::getline(s, part, '/'))
                if (part != "." && !part.empty()) o += (o.empty() ? "" : "/") + part;
            return o;
        };
        string bad;
        std::multiset<string> asked;
        int rv = common::utils::foreachEntryInDirectory(
            base,
            [&](const string& full, const string& dir) {
                std::ifstream in(full.c_str());
                string text((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
                got.insert(text);
                c.add("visits");
                string parent = text.rfind('/') == string::npos ? "" : text.substr(0, text.rfind('/'));
                if (norm(dir) != parent) bad = "file " + text + " is reported in directory " + dir;
                return 0;
            },
            [&](const string& dir) {
                string n = norm(dir);
                asked.insert(n);
                return !declined(n + "/");
            });
        if (rv != 0) c.fail("returned %d", rv);
        if (got != want) c.fail("%zu visits instead of %zu", got.size(), want.size());
        if (!bad.empty()) c.fail(bad);
        for (auto& a : asked)
            if (asked.count(a) != 1) c.fail("asked %zu times whether to enter %s", asked.count(a), a.c_str());
        c.state(desc);
    });
    // names and paths of any length
    {
        vector<std::pair<int, int>> P;  // length of each name, depth
        for (int n : {1, 5, 50, 63, 64, 100, 127, 128, 200, 240})
            for (int d : {1, 2, 3, 5, 8, 12, 30, 60, 120})
                if (n * d + d < 3300) P.push_back({n, d});
        run.forall("long paths", P.size() * 2, [&](Case& c) {
            auto p = P[c.index / 2];
            string base = c.scratch + "/t", dir = base, rel;
            mkdir(base.c_str(), 0755);
            clean(base);
            std::map<string, int> want, got;
            string bad;
            for (int i = 0; i <= p.second; i++) {
                string f = vk::fmt("/f%d.x", i);
                vk::writeFile(dir + f, vk::fmt("%d", i));
                want[vk::fmt("%d", i)] = 1;
                if (i == p.second) break;
                string name(p.first, 'a' + i % 20);
                if (c.index % 2) {  // a sibling that shares all but the last character
                    string other = dir + "/" + name.substr(1) + "z";
                    mkdir(other.c_str(), 0755);
                    vk::writeFile(other + "/g.x", vk::fmt("g%d", i));
                    want[vk::fmt("g%d", i)] = 1;
                }
                dir += "/" + name;
                if (mkdir(dir.c_str(), 0755) && errno != EEXIST) return c.fail("harness: mkdir");
            }
            c.desc(vk::fmt("%d directories with names of %d characters", p.second, p.first));
            c.add("directories", p.second);
            int rv = common::utils::foreachEntryInDirectory(base,
                [&](const string& full, const string&) {
                    got[vk::readFile(full)]++;
                    c.add("visits");
                    return 0;
                },
                [&](const string&) { return true; });
            if (rv) c.fail("returned %d", rv);
            for (auto& w : want)
                if (got[w.first] != 1) c.fail("file %s is reported %d times", w.first.c_str(), got[w.first]);
            if (got.size() != want.size()) c.fail("%zu files reported instead of %zu", got.size(), want.size());
            c.state(c.description);
            clean(base);
        });
    }
    run.forall("many files", th ? 40 : 12, [&](Case& c) {
        unsigned n = (c.index + 1) * 50;
        string base = c.scratch + "/m";
        mkdir(base.c_str(), 0755);
        clean(base);
        for (unsigned i = 0; i < n; i++) {
            string dir = base + (i % 3 ? vk::fmt("/d%u", i % 7) : string());
            mkdir(dir.c_str(), 0755);
            vk::writeFile(dir + vk::fmt("/f%u", i), "x");
        }
        std::map<string, int> seen;
        c.desc(vk::fmt("%u files", n));
        c.add("directories");
        int rv = common::utils::foreachEntryInDirectory(base, [&](const string& f, const string&) { seen[f.substr(f.rfind('/'))]++; return 0; },
                                                       [](const string&) { return true; });
        bool once = true;
        for (auto& s : seen) once = once && s.second == 1;
        if (rv || seen.size() != n || !once) c.fail("returned %d, %zu distinct files%s", rv, seen.size(), once ? "" : ", some repeatedly");
        c.state(vk::fmt("m%u", n));
    });
    return run.finish();
}
