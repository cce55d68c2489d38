// mwsh.hpp -- reference model of formulae, harvests and queries, plus the
// driver that runs the real handlers.  The model works on plain trees and
// strings; it shares no code with /repo.
#ifndef MWSH_HPP
#define MWSH_HPP
#include "vk.hpp"

#include "mws/daemon/HarvestQueryHandler.hpp"
#include "mws/daemon/IndexQueryHandler.hpp"
#include "mws/index/IndexWriter.hpp"
#include "mws/types/MwsAnswset.hpp"
#include "mws/types/Query.hpp"
#include "mws/xmlparser/readMwsQuery.hpp"

#include <memory>

namespace mwsh {
using std::string;
using std::vector;
using std::map;
using std::pair;

// ---------------------------------------------------------------- terms
struct T {
    string tag, text;
    vector<pair<string, string>> attrs;
    vector<T> kids;
    string rawText;  // when set: literal XML for the text part
    T() {}
    T(string tag, string text, vector<T> kids = {})
        : tag(std::move(tag)), text(std::move(text)), kids(std::move(kids)) {}
    size_t size() const {
        size_t n = 1;
        for (auto& k : kids) n += k.size();
        return n;
    }
};
inline T ci(const string& s) { return T("ci", s); }
inline T cn(const string& s) { return T("cn", s); }
inline T app(vector<T> k) { return T("apply", "", std::move(k)); }
inline T qv(const string& name) { return T("mws:qvar", name); }
inline T range(const char* lo, const char* hi) {
    T t("mws:range", "");
    if (lo) t.attrs.push_back({"low", lo});
    if (hi) t.attrs.push_back({"high", hi});
    return t;
}
inline bool isVar(const T& t) { return t.tag == "mws:qvar"; }
inline bool isRange(const T& t) { return t.tag == "mws:range"; }

inline string esc(const string& s) {
    string o;
    for (char c : s) {
        if (c == '<') o += "&lt;";
        else if (c == '>') o += "&gt;";
        else if (c == '&') o += "&amp;";
        else if (c == '"') o += "&quot;";
        else o += c;
    }
    return o;
}
inline void xmlTo(const T& t, string& o) {
    o += "<" + t.tag;
    for (auto& a : t.attrs) o += " " + a.first + "=\"" + esc(a.second) + "\"";
    o += ">";
    o += t.rawText.empty() ? esc(t.text) : t.rawText;
    for (auto& k : t.kids) xmlTo(k, o);
    o += "</" + t.tag + ">";
}
inline string xml(const T& t) {
    string o;
    xmlTo(t, o);
    return o;
}
// identity of a node label: what two nodes must share to be "the same symbol"
inline string label(const T& t) {
    string tag = t.tag;
    if (tag.compare(0, 2, "m:") == 0) tag = tag.substr(2);
    if (tag == "mtext") return "mtext#";
    string s;
    for (char c : t.text)
        if (!strchr(" \t\n\v\f\r", c)) s += c;
    return tag + "#" + s;
}
// canonical name of a term: equal iff the terms are equal
inline void keyTo(const T& t, string& o) {
    o += label(t) + "(" + std::to_string(t.kids.size()) + ")[";
    for (auto& k : t.kids) keyTo(k, o);
    o += "]";
}
inline string key(const T& t) {
    string o;
    keyTo(t, o);
    return o;
}
struct Sub {
    const T* t;
    string xpath;
};
inline void subtermsTo(const T& t, const string& xp, vector<Sub>& out) {
    out.push_back({&t, xp});
    for (size_t i = 0; i < t.kids.size(); i++)
        subtermsTo(t.kids[i], xp + "/*[" + std::to_string(i + 1) + "]", out);
}
inline vector<Sub> subterms(const T& t) {
    vector<Sub> v;
    subtermsTo(t, "/*[1]", v);
    return v;
}
inline const T* atPath(const T& root, const string& xp) {
    // xp = "/*[1]/*[i]..."
    const T* cur = nullptr;
    size_t p = 0;
    while (p < xp.size()) {
        if (xp.compare(p, 3, "/*[") != 0) return nullptr;
        size_t e = xp.find(']', p);
        if (e == string::npos) return nullptr;
        size_t n = strtoul(xp.c_str() + p + 3, nullptr, 10);
        if (!cur) {
            if (n != 1) return nullptr;
            cur = &root;
        } else {
            if (n < 1 || n > cur->kids.size()) return nullptr;
            cur = &cur->kids[n - 1];
        }
        p = e + 1;
    }
    return cur;
}
// numeric literal in the sense of a range: C strtod prefix semantics
inline bool asNumber(const string& s, double* d) {
    const char* b = s.c_str();
    char* e;
    errno = 0;
    double v = strtod(b, &e);
    if (e == b) return false;
    if (errno == ERANGE) return false;
    *d = v;
    return true;
}
struct Bounds {
    bool hasLo = false, hasHi = false;
    double lo = 0, hi = 0;
};
inline Bounds boundsOf(const T& t) {
    Bounds b;
    for (auto& a : t.attrs) {
        double d;
        if (a.first == "low" && asNumber(a.second, &d)) {
            b.hasLo = true;
            b.lo = d;
        }
        if (a.first == "high" && asNumber(a.second, &d)) {
            b.hasHi = true;
            b.hi = d;
        }
    }
    return b;
}
inline string varName(const T& t) {
    for (auto& a : t.attrs)
        if (a.first == "name") return a.second;
    string s;
    for (char c : t.text)
        if (!strchr(" \t\n\v\f\r", c)) s += c;
    return s;
}
// pattern ?= term, one way.  bind: named variable -> key of the term
inline bool match(const T& p, const T& t, map<string, string>& bind) {
    if (isVar(p)) {
        string n = varName(p);
        if (n.empty()) return true;
        string k = key(t);
        auto it = bind.find(n);
        if (it == bind.end()) {
            bind[n] = k;
            return true;
        }
        return it->second == k;
    }
    if (isRange(p)) {
        if (!t.kids.empty()) return false;
        string l = label(t);
        if (l.compare(0, 3, "cn#") != 0) return false;
        double d;
        if (!asNumber(l.substr(3), &d)) return false;
        Bounds b = boundsOf(p);
        if (b.hasLo && d < b.lo) return false;
        if (b.hasHi && d > b.hi) return false;
        return true;
    }
    if (label(p) != label(t) || p.kids.size() != t.kids.size()) return false;
    for (size_t i = 0; i < p.kids.size(); i++)
        if (!match(p.kids[i], t.kids[i], bind)) return false;
    return true;
}
inline bool matches(const T& p, const T& t) {
    map<string, string> b;
    return match(p, t, b);
}

// ------------------------------------------------------------ enumeration
// all trees with exactly n nodes: leaves from `leaves`, inner nodes tagged
// `inner` (one entry per symbol), any arity in [1,maxArity]
struct TermGen {
    vector<T> leaves;
    vector<T> inner;
    unsigned maxArity;
    vector<vector<T>> memo;
    map<pair<unsigned, unsigned>, vector<vector<T>>> fmemo;
    TermGen(vector<T> l, vector<T> i, unsigned a)
        : leaves(std::move(l)), inner(std::move(i)), maxArity(a) {}
    const vector<vector<T>>& forests(unsigned n, unsigned k) {
        auto it = fmemo.find({n, k});
        if (it != fmemo.end()) return it->second;
        vector<vector<T>> out;
        if (k == 0) {
            if (n == 0) out.push_back({});
        } else {
            for (unsigned f = 1; f + (k - 1) <= n; f++) {
                vector<T> heads = terms(f);
                const vector<vector<T>> tails = forests(n - f, k - 1);
                for (auto& h : heads)
                    for (auto& t : tails) {
                        vector<T> v;
                        v.push_back(h);
                        v.insert(v.end(), t.begin(), t.end());
                        out.push_back(v);
                    }
            }
        }
        return fmemo[{n, k}] = out;
    }
    vector<T> terms(unsigned n) {
        if (memo.size() <= n) memo.resize(n + 1);
        if (!memo[n].empty()) return memo[n];
        vector<T> out;
        if (n == 1) {
            out = leaves;
        } else {
            for (unsigned k = 1; k <= maxArity && k <= n - 1; k++) {
                vector<vector<T>> fs = forests(n - 1, k);
                for (auto& in : inner)
                    for (auto& f : fs) {
                        T t = in;
                        t.kids = f;
                        out.push_back(t);
                    }
            }
        }
        memo[n] = out;
        return out;
    }
    vector<T> upTo(unsigned n) {
        vector<T> o;
        for (unsigned i = 1; i <= n; i++) {
            vector<T> v = terms(i);
            o.insert(o.end(), v.begin(), v.end());
        }
        return o;
    }
};
// keep only patterns whose named variables first occur in the order of `names`
inline bool canonicalVars(const T& t, const vector<string>& names, size_t& used) {
    if (isVar(t)) {
        string n = varName(t);
        if (!n.empty()) {
            for (size_t i = 0; i < names.size(); i++)
                if (names[i] == n) {
                    if (i > used) return false;
                    if (i == used) used++;
                }
        }
    }
    for (auto& k : t.kids)
        if (!canonicalVars(k, names, used)) return false;
    return true;
}
inline vector<T> canonicalPatterns(const vector<T>& v, const vector<string>& names) {
    vector<T> o;
    for (auto& t : v) {
        size_t u = 0;
        if (canonicalVars(t, names, u)) o.push_back(t);
    }
    return o;
}

// ------------------------------------------------------------------ harvest
struct Expr {
    string url, dataId;
    T t;
};
struct Harvest {
    vector<pair<string, string>> datas;  // id -> raw xml content
    vector<Expr> exprs;
};
inline const char* NS() {
    return " xmlns:mws=\"http://search.mathweb.org/ns\" "
           "xmlns:m=\"http://www.w3.org/1998/Math/MathML\"";
}
inline string harvestXml(const Harvest& h) {
    string o = string("<?xml version=\"1.0\"?>\n<mws:harvest") + NS() + ">\n";
    for (auto& d : h.datas)
        o += "<mws:data mws:data_id=\"" + esc(d.first) + "\">" + d.second +
             "</mws:data>\n";
    for (auto& e : h.exprs) {
        o += "<mws:expr url=\"" + esc(e.url) + "\"";
        if (!e.dataId.empty()) o += " mws:data_id=\"" + esc(e.dataId) + "\"";
        o += ">" + xml(e.t) + "</mws:expr>\n";
    }
    return o + "</mws:harvest>\n";
}
struct Hit {
    string url, xpath, data;
    bool operator<(const Hit& o) const {
        if (url != o.url) return url < o.url;
        if (xpath != o.xpath) return xpath < o.xpath;
        return data < o.data;
    }
    bool operator==(const Hit& o) const {
        return url == o.url && xpath == o.xpath && data == o.data;
    }
    string str() const { return url + " @ " + xpath + " {" + data + "}"; }
};
// The specification of search: one hit for every distinct subterm of every
// harvested expression that is an instance of the pattern, located at that
// subterm's first occurrence.
inline vector<Hit> expected(const Harvest& h, const T& pattern) {
    vector<Hit> out;
    map<string, string> data;
    for (auto& d : h.datas) data[d.first] = d.second;
    for (auto& e : h.exprs) {
        std::set<string> done;
        for (auto& s : subterms(e.t)) {
            if (!done.insert(key(*s.t)).second) continue;
            if (!matches(pattern, *s.t)) continue;
            auto it = data.find(e.dataId);
            out.push_back({e.url, s.xpath, it == data.end() ? "" : it->second});
        }
    }
    return out;
}
inline uint64_t expectedSubexprs(const Harvest& h) {
    uint64_t n = 0;
    for (auto& e : h.exprs) {
        std::set<string> done;
        for (auto& s : subterms(e.t)) done.insert(key(*s.t));
        n += done.size();
    }
    return n;
}

// ------------------------------------------------------------------ queries
struct QOpt {
    string size = "1000000", min, output, extra;
};
inline string queryXml(const T& p, const QOpt& o = QOpt()) {
    string s = string("<?xml version=\"1.0\"?>\n<mws:query") + NS();
    if (!o.size.empty()) s += " answsize=\"" + o.size + "\"";
    if (!o.min.empty()) s += " limitmin=\"" + o.min + "\"";
    if (!o.output.empty()) s += " output=\"" + o.output + "\"";
    s += o.extra;
    return s + "><mws:expr>" + xml(p) + "</mws:expr></mws:query>\n";
}
struct Ans {
    bool parsed = false, isNull = true;
    int total = -1;
    vector<Hit> hits;
    vector<string> qvars, qxpaths;
    std::set<uint32_t> ids;
};
inline std::unique_ptr<mws::types::Query> parseQuery(
    const string& q, mws::xmlparser::QueryMode m = mws::xmlparser::QUERY_MWS) {
    FILE* f = fmemopen((void*)q.data(), q.size(), "r");
    std::unique_ptr<mws::types::Query> r(mws::xmlparser::readMwsQuery(f, m));
    fclose(f);
    return r;
}
inline Ans toAns(mws::GenericAnswer* g) {
    Ans a;
    a.parsed = true;
    auto* s = dynamic_cast<mws::MwsAnswset*>(g);
    if (!s) return a;
    a.isNull = false;
    a.total = s->total;
    for (auto* x : s->answers) a.hits.push_back({x->uri, x->xpath, x->data});
    a.qvars = s->qvarNames;
    a.qxpaths = s->qvarXpaths;
    for (auto i : s->ids) a.ids.insert(i);
    return a;
}
inline Ans ask(mws::daemon::QueryHandler* h, const string& q) {
    Ans a;
    auto query = parseQuery(q);
    if (!query || query->tokens.empty()) return a;
    std::unique_ptr<mws::GenericAnswer> g(h->handleQuery(query.get()));
    return toAns(g.get());
}
inline string hitsStr(const vector<Hit>& v) {
    string o;
    for (size_t i = 0; i < v.size() && i < 40; i++) o += "  " + v[i].str() + "\n";
    if (v.size() > 40) o += vk::fmt("  ... %zu in all\n", v.size());
    return o;
}
inline vector<Hit> sorted(vector<Hit> v) {
    std::sort(v.begin(), v.end());
    return v;
}
// ---------------------------------------------------------------- backends
inline mws::index::HarvesterConfiguration harvestConfig(const string& dir) {
    mws::index::HarvesterConfiguration c;
    c.paths.push_back(dir);
    c.recursive = false;
    c.shouldIgnoreData = false;
    c.fileExtension = ".harvest";
    return c;
}
inline void freshDir(const string& d) {
    vk::rmTree(d);
    mkdir(d.c_str(), 0700);
}
inline std::unique_ptr<mws::daemon::QueryHandler> memHandler(
    const string& dir, bool renameCi = false, bool ignoreData = false) {
    auto c = harvestConfig(dir);
    c.encoding.renameCi = renameCi;
    c.shouldIgnoreData = ignoreData;
    return std::unique_ptr<mws::daemon::QueryHandler>(
        new mws::daemon::HarvestQueryHandler(c));
}
inline int buildIndex(const string& dir, const string& out, bool renameCi = false,
                      bool ignoreData = false) {
    mws::index::IndexConfiguration c;
    c.harvester = harvestConfig(dir);
    c.harvester.encoding.renameCi = renameCi;
    c.harvester.shouldIgnoreData = ignoreData;
    c.dataPath = out;
    c.deleteOldData = false;
    return mws::index::createCompressedIndex(c);
}
// Indexes built in the meantime have long offsets where children are at least
// this far away, in units of 4 bytes (with farindex_tu.cpp)
struct FarNodes {
    unsigned long long* const at;
    const unsigned long long was;
    FarNodes(unsigned long long* at, unsigned long long d) : at(at), was(*at) { *at = d; }
    ~FarNodes() { *at = was; }
};
inline std::unique_ptr<mws::daemon::QueryHandler> idxHandler(const string& out,
                                                             bool renameCi = false,
                                                             bool exper = false) {
    mws::daemon::IndexQueryHandler::Config c;
    c.encoding.renameCi = renameCi;
    c.useExperimentalQueryEngine = exper;
    return std::unique_ptr<mws::daemon::QueryHandler>(
        new mws::daemon::IndexQueryHandler(out, c));
}
}  // namespace mwsh
#endif
