// C25: harvest-to-JSON conversion (the harvests2json program) maps every document
// to exactly its formulae.
#include "mwsh.hpp"
#include "mws/index/IndexLoader.hpp"
#include "mws/xmlparser/xmlparser.hpp"
#include <json.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace mwsh;
using vk::Case;

static int runProgram(const string& dir, const vector<string>& args, long fsize = -1, bool killed = false) {
    vector<string> a = args;
    a.insert(a.begin(), string(getenv("VERIF_BUILD")) + "/harvests2json");
    vector<char*> v;
    for (auto& s : a) v.push_back((char*)s.c_str());
    v.push_back(nullptr);
    pid_t p = fork();
    if (p == 0) {
        int fd = fsize < 0 ? open((dir + "/log").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644) : open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
        if (fsize >= 0) {
            signal(SIGXFSZ, killed ? SIG_DFL : SIG_IGN);
            struct rlimit r = {(rlim_t)fsize, (rlim_t)fsize};
            setrlimit(RLIMIT_FSIZE, &r);
        }
        execv(v[0], v.data());
        _exit(126);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
static string squeeze(const string& s) {
    string o;
    std::istringstream is(s);
    for (string w; is >> w;) o += (o.empty() ? "" : " ") + w;
    return o;
}
static string show(const string& s) { return vk::jstr(s).substr(0, 500); }

// ------------------------------------------------------------ the model
struct Record {
    string dataId, id, text;                // as an XML reader sees them
    vector<pair<string, string>> metadata;
    vector<pair<string, string>> math;      // local id -> source
    string raw;                             // when set: the literal content
    bool none = false;                      // no content at all
};
static string recordXml(const Record& r) {
    string s = "<mws:data mws:data_id=\"" + esc(r.dataId) + "\">";
    if (r.none) return s + "</mws:data>\n";
    if (!r.raw.empty()) return s + r.raw + "</mws:data>\n";
    s += "\n<id>" + esc(r.id) + "</id>\n<text>" + esc(r.text) + "</text>\n<metadata>\n";
    for (auto& m : r.metadata) s += "<" + m.first + ">" + esc(m.second) + "</" + m.first + ">\n";
    s += "</metadata>\n";
    for (auto& m : r.math) s += "<math local_id=\"" + esc(m.first) + "\">" + esc(m.second) + "</math>\n";
    return s + "</mws:data>\n";
}
struct Item {
    bool isRecord;
    Record r;
    Expr e;
};
struct File {
    string name;
    vector<Item> items;
    string xml() const {
        string o = string("<?xml version=\"1.0\"?>\n<mws:harvest") + NS() + ">\n";
        for (auto& i : items) {
            if (i.isRecord) {
                o += recordXml(i.r);
                continue;
            }
            o += "<mws:expr url=\"" + esc(i.e.url) + "\"";
            if (!i.e.dataId.empty()) o += " mws:data_id=\"" + esc(i.e.dataId) + "\"";
            o += ">" + mwsh::xml(i.e.t) + "</mws:expr>\n";
        }
        return o + "</mws:harvest>\n";
    }
};
// what must be written for a file
struct WantDoc {
    Record r;
    map<string, vector<std::pair<string, const T*>>> formulae;  // key -> (url, expression)
};
static vector<WantDoc> wanted(const File& f) {
    vector<WantDoc> w;
    map<string, size_t> at;
    for (auto& i : f.items) {
        if (i.isRecord) {
            at[i.r.dataId] = w.size();
            w.push_back({i.r, {}});
            continue;
        }
        auto it = at.find(i.e.dataId);
        if (it == at.end()) continue;
        for (auto& s : subterms(i.e.t)) w[it->second].formulae[key(*s.t)].push_back({i.e.url, &i.e.t});
    }
    return w;
}
struct J {  // json value holder
    json_object* o;
    explicit J(const string& s) {
        json_tokener* t = json_tokener_new();
        json_tokener_set_flags(t, JSON_TOKENER_STRICT);
        o = json_tokener_parse_ex(t, s.c_str(), s.size());
        if (json_tokener_get_error(t) == json_tokener_continue) {
            if (o) json_object_put(o);
            o = json_tokener_parse_ex(t, "", 1);
        }
        if (json_tokener_get_error(t) != json_tokener_success || json_tokener_get_parse_end(t) < std::min(s.size(), (size_t)1)) {
            if (o) json_object_put(o);
            o = nullptr;
        }
        json_tokener_free(t);
    }
    ~J() {
        if (o) json_object_put(o);
    }
};
static json_object* get(json_object* o, const char* k) {
    json_object* r = nullptr;
    if (!o || json_object_get_type(o) != json_type_object || !json_object_object_get_ex(o, k, &r)) return nullptr;
    return r;
}
static bool strMap(json_object* o, map<string, string>* m) {
    if (!o || json_object_get_type(o) != json_type_object) return false;
    json_object_object_foreach(o, k, v) {
        if (json_object_get_type(v) != json_type_string) return false;
        (*m)[k] = string(json_object_get_string(v), json_object_get_string_len(v));
    }
    return true;
}
static string mapStr(const map<string, string>& m) {
    string o;
    for (auto& x : m) o += x.first + "=" + x.second + "; ";
    return o;
}
// identifier the index has for a formula: a query reports it
static bool idOf(mws::daemon::QueryHandler* h, const T& t, uint32_t* id) {
    auto a = ask(h, queryXml(t));
    if (a.total == 0) return false;
    if (a.ids.size() != 1) {
        fprintf(stderr, "%zu identifiers for %s\n", a.ids.size(), xml(t).c_str());
        abort();
    }
    *id = *a.ids.begin();
    return true;
}
static const T* find(const T& t, const string& k) {
    for (auto& s : subterms(t))
        if (key(*s.t) == k) return s.t;
    return nullptr;
}
static void judge(Case& c, const File& f, const string& out, mws::daemon::QueryHandler* h, const map<string, std::set<uint32_t>>& byUrl = {}) {
    vector<string> lines;
    {
        std::istringstream is(out);
        for (string l; std::getline(is, l);) lines.push_back(l);
        if (!out.empty() && out.back() != '\n') return c.fail("%s: the last line is not complete", f.name.c_str());
    }
    auto w = wanted(f);
    if (lines.size() != 2 * w.size()) return c.fail("%s: %zu lines for %zu records: %s", f.name.c_str(), lines.size(), w.size(), show(out).c_str());
    for (size_t i = 0; i < w.size(); i++) {
        J head(lines[2 * i]), doc(lines[2 * i + 1]);
        if (!head.o || !doc.o) return c.fail("%s: record %zu is not valid JSON: %s", f.name.c_str(), i, show(lines[2 * i + (head.o ? 1 : 0)]).c_str());
        auto* jid = get(get(head.o, "index"), "_id");
        if (!jid || json_object_get_type(jid) != json_type_string) return c.fail("%s: record %zu has no identifier", f.name.c_str(), i);
        string id(json_object_get_string(jid), json_object_get_string_len(jid));
        if (id != squeeze(w[i].r.id)) return c.fail("%s: record %zu is %s instead of %s", f.name.c_str(), i, show(id).c_str(), show(w[i].r.id).c_str());
        auto* jt = get(doc.o, "text");
        string text = jt ? string(json_object_get_string(jt), json_object_get_string_len(jt)) : "(none)";
        if (text != squeeze(w[i].r.text)) return c.fail("%s: the text of record %zu is %s instead of %s", f.name.c_str(), i, show(text).c_str(), show(w[i].r.text).c_str());
        map<string, string> meta, math, wmeta, wmath;
        if (!strMap(get(doc.o, "metadata"), &meta) || !strMap(get(doc.o, "math"), &math)) return c.fail("%s: metadata or math of record %zu are missing", f.name.c_str(), i);
        for (auto& m : w[i].r.metadata) wmeta[m.first] = squeeze(m.second);
        for (auto& m : w[i].r.math) wmath[m.first] = squeeze(m.second);
        if (meta != wmeta) return c.fail("%s: the metadata of record %zu are %s instead of %s", f.name.c_str(), i, show(mapStr(meta)).c_str(), show(mapStr(wmeta)).c_str());
        if (math != wmath) return c.fail("%s: the sources of record %zu are %s instead of %s", f.name.c_str(), i, show(mapStr(math)).c_str(), show(mapStr(wmath)).c_str());
        // identifiers: those the index itself reports for the expressions
        map<uint32_t, vector<std::pair<string, pair<string, const T*>>>> want;
        if (h) {
            for (auto& x : w[i].formulae) {
                uint32_t n;
                if (!idOf(h, *find(*x.second[0].second, x.first), &n)) continue;  // not in the index
                for (auto& u : x.second) want[n].push_back({x.first, u});
            }
        } else {
            for (auto& x : w[i].formulae)
                for (auto& u : x.second)
                    for (auto& n : (byUrl.count(u.first) ? byUrl.at(u.first) : (c.fail("%s has no formulae", u.first.c_str()), std::set<uint32_t>()))) want[n].push_back({"", u});
        }
        auto* ids = get(doc.o, "mws_ids");
        auto* mapping = get(doc.o, "mws_id");
        if (!ids || json_object_get_type(ids) != json_type_array || !mapping || json_object_get_type(mapping) != json_type_object)
            return c.fail("%s: the identifiers of record %zu are missing", f.name.c_str(), i);
        std::set<uint32_t> got;
        size_t n = json_object_array_length(ids);
        for (size_t j = 0; j < n; j++) got.insert((uint32_t)json_object_get_int64(json_object_array_get_idx(ids, j)));
        if (got.size() != n) return c.fail("%s: record %zu lists an identifier twice", f.name.c_str(), i);
        std::set<uint32_t> wg;
        string ws, gs;
        for (auto& x : want) wg.insert(x.first), ws += vk::fmt("%u ", x.first);
        for (auto x : got) gs += vk::fmt("%u ", x);
        if (got != wg) return c.fail("%s: record %zu lists formulae %sinstead of %s", f.name.c_str(), i, gs.c_str(), ws.c_str());
        if ((size_t)json_object_object_length(mapping) != want.size()) return c.fail("%s: record %zu describes %d formulae instead of %zu", f.name.c_str(), i, json_object_object_length(mapping), want.size());
        for (auto& x : want) {
            auto* m = get(mapping, std::to_string(x.first).c_str());
            if (!m) return c.fail("%s: record %zu does not describe formula %u", f.name.c_str(), i, x.first);
            std::set<string> urls, gurls;
            for (auto& y : x.second) urls.insert(y.second.first);
            json_object_object_foreach(m, url, pos) {
                gurls.insert(url);
                auto* xp = get(pos, "xpath");
                if (!xp) return c.fail("%s: no position of formula %u", f.name.c_str(), x.first);
                bool ok = false;
                for (auto& y : x.second)
                    if (y.second.first == url) {
                        for (auto& s : subterms(*y.second.second))
                            if (s.xpath == json_object_get_string(xp) && (!h || key(*s.t) == y.first)) ok = true;
                    }
                if (!ok) return c.fail("%s: formula %u is not at %s of %s", f.name.c_str(), x.first, json_object_get_string(xp), show(url).c_str());
            }
            if (urls != gurls) return c.fail("%s: formula %u has %zu places instead of %zu", f.name.c_str(), x.first, gurls.size(), urls.size());
            c.add("formula identifiers compared");
        }
        c.state(vk::fnv(lines[2 * i + 1] + lines[2 * i]));
    }
}
static string log(Case& c) {
    string l = vk::readFile(c.scratch + "/log");
    return l.size() > 2000 ? l.substr(0, 2000) : l;
}
static Item rec(const string& d, const string& id) {
    Item i;
    i.isRecord = true;
    i.r.dataId = d;
    i.r.id = id;
    i.r.text = "some math1  text of " + id;
    i.r.metadata = {{"title", "T " + id}};
    i.r.math = {{"1", "<math>x</math>"}};
    return i;
}
static Item expr(const string& url, const string& d, const T& t) {
    Item i;
    i.isRecord = false;
    i.e.url = url;
    i.e.dataId = d;
    i.e.t = t;
    return i;
}
// in a process of its own, like the program: formulae are numbered per process
static int buildIndexApart(const string& h, const string& ix, bool rename) {
    pid_t p = fork();
    if (p == 0) _exit(buildIndex(h, ix, rename) == 0 ? 0 : 1);
    int st = 0;
    waitpid(p, &st, 0);
    return st;
}
// converts files in c.scratch/h with an index made of them (or of others)
static bool convert(Case& c, vector<File> files, bool rename, const vector<File>* indexed = nullptr) {
    string h = c.scratch + "/h", ix = c.scratch + "/ix", hx = c.scratch + "/hx";
    freshDir(h);
    freshDir(ix);
    if (rename)
        for (auto& f : files)
            for (size_t i = 0; i < f.items.size(); i++) f.items[i].e.url = f.name + vk::fmt("#%zu", i);
    for (auto& f : files) vk::writeFile(h + "/" + f.name, f.xml());
    if (indexed) {
        freshDir(hx);
        for (auto& f : *indexed) vk::writeFile(hx + "/" + f.name, f.xml());
    }
    if (buildIndexApart(indexed ? hx : h, ix, rename) != 0) {
        c.fail("harness: no index");
        return false;
    }
    vector<string> a = {"-I", ix, "-H", h};
    if (rename) a.push_back("-c");
    int rc = runProgram(c.scratch, a);
    c.add("runs of harvests2json");
    if (rc != 0) {
        c.fail("harvests2json ended with %d: %s", rc, log(c).c_str());
        return false;
    }
    map<string, std::set<uint32_t>> byUrl;
    std::unique_ptr<mws::daemon::QueryHandler> q;
    if (rename) {  // urls are unique, subterms cannot be asked for in their context
        mws::index::IndexLoader l(ix);
        for (uint32_t n = 1;; n++) {
            int hits = 0;
            l.getDbQueryManager()->query(n, 0, 1000000, [&](const mws::types::FormulaPath& p, const mws::dbc::CrawlData&) {
                byUrl[p.xmlId].insert(n);
                hits++; 
                return 0;
            });
            if (!hits) break;
        }
    } else {
        q = idxHandler(ix);
    }
    for (auto& f : files) {
        struct stat st;
        if (stat((h + "/" + f.name + ".json").c_str(), &st)) {
            c.fail("%s was not converted", f.name.c_str());
            return false;
        }
        judge(c, f, vk::readFile(h + "/" + f.name + ".json"), q.get(), byUrl);
        if (c.failed) return false;
    }
    return true;
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C25", "model_checking");
    run.rule = "state = (directory of harvests, configuration, outcome); transition = one run of the real harvests2json, its output compared with the model of the documents; trace = one such run";
    run.declare({"runs of harvests2json", "formula identifiers compared"});
    mws::parser::initxmlparser();
    const bool th = run.thorough;

    vector<Item> alpha;
    {
        alpha.push_back(rec("1", "doc 1"));
        alpha.push_back(rec("2", "doc/2"));
        vector<T> ts = {ci("a"), app({ci("f"), ci("a")}), app({ci("f"), app({ci("f"), ci("a"), cn("1")}), ci("a")})};
        int n = 0;
        for (auto& t : ts)
            for (const char* d : {"", "1", "2", "9"}) alpha.push_back(expr(vk::fmt("u%d", n++ % 5), d, t));
    }
    // every sequence of records and expressions
    {
        const unsigned depth = th ? 4 : 3;
        vector<vector<unsigned>> seqs = {{}};
        for (size_t i = 0; i < seqs.size(); i++) {
            auto s = seqs[i];
            if (s.size() == depth) continue;
            for (unsigned k = 0; k < alpha.size(); k++) {
                s.push_back(k);
                seqs.push_back(s);
                s.pop_back();
            }
        }
        const unsigned per = 16;
        run.forall("harvests", (seqs.size() + per - 1) / per * 2, [&](Case& c) {
            bool rename = c.index % 2;
            uint64_t g = c.index / 2;
            vector<File> fs;
            string desc;
            for (uint64_t i = g * per; i < seqs.size() && i < (g + 1) * per; i++) {
                File f;
                f.name = vk::fmt("h%02llu.harvest", (unsigned long long)(i - g * per));
                for (auto k : seqs[i]) f.items.push_back(alpha[k]);
                desc += "[";
                for (auto k : seqs[i]) desc += vk::fmt("%u ", k);
                desc += "]";
                fs.push_back(f);
            }
            c.desc(vk::fmt("rename %d ", rename) + desc);
            convert(c, fs, rename);
        });
    }
    // every formula up to a size, alone and next to another one
    {
        TermGen g({ci("a"), ci("b"), cn("1"), T("plus", "")}, {app({}), T("bind", "")}, 3);
        auto ts = g.upTo(th ? 5 : 4);
        const unsigned per = 40;
        run.forall("formulae", (ts.size() + per - 1) / per * 2, [&](Case& c) {
            bool rename = c.index % 2;
            uint64_t k = c.index / 2;
            vector<File> fs;
            for (uint64_t i = k * per; i < ts.size() && i < (k + 1) * per; i++) {
                File f;
                f.name = vk::fmt("h%02llu.harvest", (unsigned long long)(i - k * per));
                f.items = {rec("1", "d"), expr("u", "1", ts[i]), rec("2", "e"), expr("v", "2", ts[(i * 7 + 3) % ts.size()]), expr("w", "1", ts[(i * 5 + 1) % ts.size()])};
                fs.push_back(f);
            }
            c.desc(vk::fmt("rename %d, formulae %llu...", rename, (unsigned long long)k * per));
            convert(c, fs, rename);
        });
    }
    // harvests which are not (completely) in the index
    run.forall("other index", 14 * 14, [&](Case& c) {
        vk::Digits d(c.index);
        bool rename = false;
        unsigned a = d.next(14), b = d.next(14);
        File f, x;
        f.name = x.name = "h.harvest";
        f.items = {alpha[0], alpha[1], alpha[a], alpha[13]};
        x.items = {alpha[0], alpha[b], expr("q", "", ci("qq"))};
        c.desc(vk::fmt("harvest with %u, index with %u, rename %d", a, b, rename));
        vector<File> ix = {x};
        convert(c, {f}, rename, &ix);
    });
    // texts
    {
        vector<string> S;
        for (int i = 32; i < 128; i++) S.push_back(string(1, (char)i));
        for (const char* s : {"\t", "\n", "\r\n", "\xc3\xa4", "\xe2\x80\xa8", "\xf0\x9d\x94\xb8", "\xc2\x85", "a\"b", "a\\", "\\u0041", "</text>", "]]>", "<!--", "&amp;", "&#65;", "a/b", "<math>", "math1", "  x  y  "}) S.push_back(s);
        S.push_back("");
        size_t n = S.size();
        run.forall("texts", n * 6, [&](Case& c) {
            vk::Digits d(c.index);
            int place = d.next(6);
            string s = S[d.next(n)];
            c.desc(vk::fmt("place %d: ", place) + vk::jstr(s));
            Item r = rec("1", "doc");
            string url = "u", did = "1";
            if (place == 0) r.r.id = s;
            if (place == 1) r.r.text = s;
            if (place == 2) r.r.metadata.push_back({"x", s});
            if (place == 3) r.r.math.push_back({"m" + squeeze(s), "y"});
            if (place == 4) r.r.math.push_back({"2", s});
            if (place == 5) url = "u" + squeeze(s);
            File f;
            f.name = "h.harvest";
            f.items = {r, expr(url, did, alpha[4].e.t), rec("2", "other"), expr(url, "2", alpha[3].e.t)};
            convert(c, {f}, false);
        });
    }
    // names of metadata
    {
        const char* const N[] = {"title", "Title", "author", "p", "br", "link", "meta", "id2", "div", "a", "script", "style", "img", "body", "html", "head", "x-y", "_u", "A.b", "li", "td", "option", "textarea", "form", "h1", "table", "pre"};
        const size_t n = sizeof(N) / sizeof(*N);
        run.forall("metadata", n * n, [&](Case& c) {
            Item r = rec("1", "doc");
            r.r.metadata.clear();
            r.r.metadata.push_back({N[c.index % n], "value <one>"});
            if (c.index / n != c.index % n) r.r.metadata.push_back({N[c.index / n], "value two"});
            c.desc(string(N[c.index % n]) + ", " + N[c.index / n]);
            File f;
            f.name = "h.harvest";
            f.items = {r, expr("u", "1", alpha[4].e.t)};
            convert(c, {f}, false);
        });
    }
    // shapes of records
    {
        const char* const RAW[] = {"", " ", "plain", "<id>doc</id>", "<text/>", "<r><id>doc</id><text>t</text></r>", "<id>doc</id><text>t</text><metadata/>", "<text>a<b>c</b>d</text><id> doc </id>", "<m:x/><id>doc</id>", "<text><![CDATA[<x>]]></text><id>doc</id>", "<id>doc</id><math local_id=\"1\"/>", "<id>doc</id><math>no number</math>", "<x>1</x><y>2</y>", "<id>doc</id><?pi x?><!-- c -->", "<id>a</id><id>b</id>"};
        const size_t n = sizeof(RAW) / sizeof(*RAW);
        // with formulae of each record, or of none, or of the others
        run.forall("records", n * 3 * 3, [&](Case& c) {
            string raw = RAW[c.index % n];
            int pos = c.index / n % 3, formulae = c.index / n / 3;
            c.desc(vk::fmt("record %d of 3, formulae of %s: ", pos, formulae == 0 ? "all" : formulae == 1 ? "the others" : "none") + raw);
            vector<Item> v = {rec("1", "first"), rec("2", "second"), rec("3", "third")};
            v[pos].r.raw = raw;
            v[pos].r.none = raw.empty();
            auto& r = v[pos].r;
            bool hasDoc = raw.find("doc") != string::npos;
            r.id = hasDoc ? "doc" : raw.find("<id>a") != string::npos ? "a" : "";
            r.text = raw.find("<text>t<") != string::npos ? "t" : raw.find("a<b>") != string::npos ? "a c d" : raw.find("CDATA") != string::npos ? "<x>" : "";
            r.metadata.clear();
            r.math.clear();
            if (raw.find("local_id") != string::npos) r.math = {{"1", ""}};
            File f;
            f.name = "h.harvest";
            f.items = {v[0], v[1], v[2]};
            const char* const url[] = {"u", "v", "w"};
            const int of[] = {4, 3, 8};
            for (int i = 0; i < 3; i++)
                if (formulae == 0 || (formulae == 1 && i != pos)) f.items.push_back(expr(url[i], vk::fmt("%d", i + 1), alpha[of[i]].e.t));
            f.items.push_back(expr("x", "9", alpha[8].e.t));  // an index is not made of nothing
            convert(c, {f}, false);
        });
    }
    // directories
    run.forall("directories", 2 * 2 * 64, [&](Case& c) {
        vk::Digits d(c.index);
        bool rec_ = d.next(2), ext = d.next(2);
        unsigned mask = d.next(64);
        const char* const P[] = {"a.harvest", "a.txt", "d/b.harvest", ".h.harvest", "z.harvest.json", "e/f/c.txt"};
        string h = c.scratch + "/h", ix = c.scratch + "/ix", hx = c.scratch + "/hx";
        freshDir(h);
        freshDir(ix);
        freshDir(hx);
        mkdir((h + "/d").c_str(), 0755);
        mkdir((h + "/e").c_str(), 0755);
        mkdir((h + "/e/f").c_str(), 0755);
        File f;
        f.name = "all.harvest";
        f.items = {rec("1", "one"), expr("u", "1", alpha[6].e.t)};
        vk::writeFile(hx + "/all.harvest", f.xml());
        if (buildIndex(hx, ix, false)) return c.fail("harness: no index");
        string desc;
        for (int i = 0; i < 6; i++)
            if (mask >> i & 1) {
                vk::writeFile(h + "/" + P[i], f.xml());
                desc += string(" ") + P[i];
            }
        c.desc(vk::fmt("recursive %d, extension %d:", rec_, ext) + desc);
        vector<string> a = {"-I", ix, "-H", h};
        if (rec_) a.push_back("-r");
        if (ext) {
            a.push_back("-e");
            a.push_back("txt");
        }
        for (int round = 0; round < 2; round++) {
            int rc = runProgram(c.scratch, a);
            c.add("runs of harvests2json");
            if (rc != 0) return c.fail("harvests2json ended with %d", rc);
            auto q = idxHandler(ix);
            for (int i = 0; i < 6; i++) {
                string p = P[i], e = ext ? ".txt" : ".harvest";
                bool want = (mask >> i & 1) && p[0] != '.' && p.size() > e.size() && p.substr(p.size() - e.size()) == e && (rec_ || p.find('/') == string::npos);
                struct stat st;
                bool is = stat((h + "/" + p + ".json").c_str(), &st) == 0;
                if (is != want) return c.fail("%s was %sconverted", P[i], is ? "" : "not ");
                if (is) judge(c, f, vk::readFile(h + "/" + p + ".json"), q.get());
                if (c.failed) return;
                if ((mask >> i & 1) && vk::readFile(h + "/" + p) != f.xml()) return c.fail("%s was changed", P[i]);
            }
        }
    });
    // every number of bytes that can be written, then another run with room
    {
        unsigned stride = th ? 1 : 9;
        const unsigned LIMIT = 1800;
        run.forall("full disk", LIMIT / stride, [&](Case& c) {
            long limit = c.index * stride;
            c.desc(vk::fmt("no more than %ld bytes per file", limit));
            string h = c.scratch + "/h", ix = c.scratch + "/ix";
            freshDir(h);
            freshDir(ix);
            File f;
            f.name = "a.harvest";
            f.items = {alpha[0], alpha[1], alpha[12], alpha[7], alpha[11]};
            vk::writeFile(h + "/a.harvest", f.xml());
            if (buildIndex(h, ix, false)) return c.fail("harness: no index");
            vector<string> a = {"-I", ix, "-H", h};
            int rc = runProgram(c.scratch, a, limit);
            c.add("runs of harvests2json");
            if (rc < 0) return c.fail("harvests2json crashed");
            auto q = idxHandler(ix);
            struct stat st;
            bool is = stat((h + "/a.harvest.json").c_str(), &st) == 0;
            if (rc == 0) {
                if (!is) return c.fail("success is reported, but nothing was written");
                judge(c, f, vk::readFile(h + "/a.harvest.json"), q.get());
                if (c.failed) return;
            } else if (limit > 1700) {
                return c.fail("failure although there is room");
            }
            rc = runProgram(c.scratch, a);
            if (rc != 0) return c.fail("the next run ended with %d", rc);
            judge(c, f, vk::readFile(h + "/a.harvest.json"), q.get());
        });
    }
    // a run that is killed at any byte of its output, then a complete one
    {
        unsigned stride = th ? 1 : 23;
        File f, g;
        f.name = "a.harvest";
        f.items = {alpha[0], alpha[1], alpha[12], alpha[7], alpha[11]};
        for (int i = 0; i < 12; i++) f.items.push_back(expr(vk::fmt("url/of/the/expression/%d", i), i % 2 ? "1" : "2", alpha[12].e.t));
        g.name = "b.harvest";
        g.items = {alpha[0], alpha[7]};
        const unsigned LIMIT = 4700;
        run.forall("interrupted", LIMIT / stride, [&](Case& c) {
            long limit = c.index * stride;
            c.desc(vk::fmt("killed when %ld bytes of a file are written", limit));
            string h = c.scratch + "/h", ix = c.scratch + "/ix";
            freshDir(h);
            freshDir(ix);
            for (auto* x : {&f, &g}) vk::writeFile(h + "/" + x->name, x->xml());
            if (buildIndex(h, ix, false)) return c.fail("harness: no index");
            vector<string> a = {"-I", ix, "-H", h};
            int rc = runProgram(c.scratch, a, limit, true);
            c.add("runs of harvests2json");
            if (rc > 0) return c.fail("failure although nothing failed");
            bool done = rc == 0;
            auto q = idxHandler(ix);
            for (int round = 0; round < 2; round++) {
                for (auto* x : {&f, &g}) {
                    string o = h + "/" + x->name + ".json";
                    struct stat st;
                    bool is = stat(o.c_str(), &st) == 0;
                    if (!is && done) return c.fail("%s was not converted", x->name.c_str());
                    if (is) judge(c, *x, vk::readFile(o), q.get());
                    if (c.failed) return;
                }
                if (round) break;
                rc = runProgram(c.scratch, a);
                c.add("runs of harvests2json");
                if (rc != 0) return c.fail("the next run ended with %d", rc);
                done = true;
            }
        });
    }
    // every place where a harvest can end too early
    {
        File f;
        f.name = "b.harvest";
        f.items = {alpha[0], alpha[7], alpha[1], alpha[12]};
        string whole = f.xml();
        unsigned stride = th ? 1 : 5;
        run.forall("cut harvests", whole.size() / stride, [&](Case& c) {
            size_t n = c.index * stride;
            c.desc(vk::fmt("%zu of %zu bytes, up to ", n, whole.size()) + whole.substr(n < 20 ? 0 : n - 20, 20));
            string h = c.scratch + "/h", ix = c.scratch + "/ix";
            freshDir(h);
            freshDir(ix);
            File g = f;
            g.name = "a.harvest";
            vk::writeFile(h + "/a.harvest", g.xml());
            g.name = "c.harvest";
            vk::writeFile(h + "/c.harvest", g.xml());
            if (buildIndex(h, ix, false)) return c.fail("harness: no index");
            vk::writeFile(h + "/b.harvest", whole.substr(0, n));
            int rc = runProgram(c.scratch, {"-I", ix, "-H", h});
            c.add("runs of harvests2json");
            if (rc < 0) return c.fail("harvests2json crashed: %s", log(c).c_str());
            // the end tag may lack its last characters without any loss
            if (rc == 0 && n + 17 < whole.size()) return c.fail("success is reported for an incomplete harvest");
            auto q = idxHandler(ix);
            // what precedes the fault is converted
            {
                struct stat st;
                if (stat((h + "/b.harvest.json").c_str(), &st)) return c.fail("b.harvest was not converted");
                File part = f;
                size_t records = 0, at = 0;
                string w = whole.substr(0, n);
                for (; (at = w.find("</mws:data>", at)) != string::npos; at++) records++;
                size_t exprs = 0;
                for (at = 0; (at = w.find("</mws:expr>", at)) != string::npos; at++) exprs++;
                part.items.resize(records + exprs);
                if (rc == 0) part = f;
                // an expression of which only the end tag is missing may or may not count
                size_t lt = w.rfind('<');
                bool inEndTag = rc != 0 && (whole.compare(n, 11, "</mws:expr>") == 0 || (lt != string::npos && n < lt + 11 && whole.compare(lt, 11, "</mws:expr>") == 0));
                if (!inEndTag) judge(c, part, vk::readFile(h + "/b.harvest.json"), q.get());
                if (c.failed) return;
            }
            for (const char* p : {"a", "c"}) {
                struct stat st;
                if (stat((h + "/" + p + ".harvest.json").c_str(), &st)) return c.fail("%s.harvest was not converted", p);
                judge(c, f, vk::readFile(h + "/" + p + ".harvest.json"), q.get());
                if (c.failed) return;
            }
        });
    }
    return run.finish();
}
