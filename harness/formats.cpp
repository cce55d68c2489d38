// C11: responses are well-formed and carry the answer set unchanged.
#include "mwsh.hpp"
#include <json.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include "mws/types/MwsAnswset.hpp"
#include "mws/types/SchemaAnswset.hpp"
#include "mws/xmlparser/MwsXmlResponseFormatter.hpp"
#include "mws/xmlparser/MwsJsonResponseFormatter.hpp"
#include "mws/xmlparser/MwsIdsResponseFormatter.hpp"
#include "mws/xmlparser/SchemaXmlResponseFormatter.hpp"
#include "mws/xmlparser/SchemaJsonResponseFormatter.hpp"
#include "mws/daemon/SchemaQueryHandler.hpp"
#include "mws/xmlparser/xmlparser.hpp"
using namespace mwsh;
using namespace mws::parser;
using vk::Case;
using mws::MwsAnswset;
using mws::SchemaAnswset;
using mws::types::Answer;
using mws::types::CmmlToken;
typedef mws::types::Query::ResponseFormatter Formatter;

// ------------------------------------------------- plain view of answer sets
struct PAnswer {
    string uri, xpath, data;
};
struct PSet {
    vector<PAnswer> answers;
    vector<pair<string, string>> qvars;
    std::set<uint32_t> ids;
    int total = 0, time = 0;
};
static std::unique_ptr<MwsAnswset> make(const PSet& p) {
    std::unique_ptr<MwsAnswset> a(new MwsAnswset);
    a->total = p.total;
    a->time = p.time;
    for (auto& q : p.qvars) {
        a->qvarNames.push_back(q.first);
        a->qvarXpaths.push_back(q.second);
    }
    for (auto i : p.ids) a->ids.insert(i);
    for (auto& x : p.answers) {
        auto n = new Answer;
        n->uri = x.uri;
        n->xpath = x.xpath;
        n->data = x.data;
        a->answers.push_back(n);
    }
    return a;
}
static string show(const PSet& p) {
    string o = vk::fmt("total=%d ", p.total);
    for (auto& q : p.qvars) o += "qvar " + vk::jstr(q.first) + " at " + vk::jstr(q.second) + "; ";
    for (auto& a : p.answers)
        o += "hit " + vk::jstr(a.uri) + " " + vk::jstr(a.xpath) + " " + vk::jstr(a.data) + "; ";
    for (auto i : p.ids) o += "id " + std::to_string(i) + "; ";
    return o;
}

// ------------------------------------------------------------------- sinks
struct Sink {
    string got;
    size_t limit;  // fails from there on
    static ssize_t wr(void* c, const char* b, size_t n) {
        Sink* s = (Sink*)c;
        size_t room = s->limit - std::min(s->limit, s->got.size());
        size_t k = std::min(room, n);
        s->got.append(b, k);
        if (k < n) errno = ENOSPC;
        return k;
    }
};
static int writeTo(const Formatter* f, const mws::GenericAnswer* a, Sink* s, bool unbuffered) {
    cookie_io_functions_t io = {nullptr, Sink::wr, nullptr, nullptr};
    FILE* o = fopencookie(s, "w", io);
    if (unbuffered) setvbuf(o, nullptr, _IONBF, 0);
    int rv = f->writeData(a, o);
    fclose(o);
    return rv;
}

// ------------------------------------------------------------------ decoding
static string attr(xmlNode* n, const char* a, bool* ok) {
    if (!xmlHasProp(n, BAD_CAST a)) {
        *ok = false;
        return "";
    }
    xmlChar* v = xmlGetProp(n, BAD_CAST a);
    string s = v ? (char*)v : "";
    xmlFree(v);
    return s;
}
static string content(xmlNode* n) {
    xmlChar* v = xmlNodeGetContent(n);
    string s = v ? (char*)v : "";
    xmlFree(v);
    return s;
}
static xmlDoc* parseXml(const string& s) {
    return xmlReadMemory(s.data(), s.size(), "a", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
}
static string jget(json_object* o, const char* k) {
    json_object* v = nullptr;
    if (!json_object_object_get_ex(o, k, &v) || !json_object_is_type(v, json_type_string)) return "<none>";
    return string(json_object_get_string(v), json_object_get_string_len(v));
}
static bool jint(json_object* o, const char* k, int64_t want) {
    json_object* v = nullptr;
    return json_object_object_get_ex(o, k, &v) && json_object_is_type(v, json_type_int) &&
           json_object_get_int64(v) == want;
}
static string localName(xmlNode* n) {
    return (n->ns && n->ns->prefix ? string((char*)n->ns->prefix) + ":" : string()) + (char*)n->name;
}
// the XML format: hits with positions, substitution positions, data, total
static string checkXml(const string& out, const PSet& p) {
    xmlDoc* d = parseXml(out);
    if (!d) return "not well-formed XML";
    string err;
    bool ok = true;
    xmlNode* root = xmlDocGetRootElement(d);
    if (localName(root) != "mws:answset") err = "root is " + localName(root);
    else if (attr(root, "total", &ok) != std::to_string(p.total)) err = "total differs";
    else if (attr(root, "size", &ok) != std::to_string(p.answers.size())) err = "size differs";
    size_t i = 0;
    for (xmlNode* n = root->children; n && err.empty(); n = n->next) {
        if (n->type != XML_ELEMENT_NODE) continue;
        if (localName(n) != "mws:answ" || i >= p.answers.size()) {
            err = "unexpected element " + localName(n);
            break;
        }
        const PAnswer& a = p.answers[i++];
        if (attr(n, "uri", &ok) != a.uri) err = "uri decodes to " + vk::jstr(attr(n, "uri", &ok));
        else if (attr(n, "xpath", &ok) != a.xpath) err = "xpath decodes to " + vk::jstr(attr(n, "xpath", &ok));
        size_t q = 0, datas = 0;
        for (xmlNode* m = n->children; m && err.empty(); m = m->next) {
            if (m->type != XML_ELEMENT_NODE) {
                if (content(m).find_first_not_of(" \n") != string::npos) err = "stray text";
                continue;
            }
            if (localName(m) == "mws:substpair") {
                if (q >= p.qvars.size()) err = "too many substitutions";
                else if (attr(m, "qvar", &ok) != p.qvars[q].first) err = "substituted variable differs";
                else if (attr(m, "xpath", &ok) != a.xpath + p.qvars[q].second) err = "substitution differs";
                q++;
            } else if (localName(m) == "data") {
                datas++;
                if (content(m) != a.data) err = "data decodes to " + vk::jstr(content(m));
            } else {
                err = "unexpected element " + localName(m);
            }
        }
        if (err.empty() && q != p.qvars.size()) err = "a substitution is missing";
        if (err.empty() && datas != 1) err = vk::fmt("%zu data elements", datas);
    }
    if (err.empty() && i != p.answers.size()) err = "a hit is missing";
    if (err.empty() && !ok) err = "an attribute is missing";
    xmlFreeDoc(d);
    return err;
}
static json_object* parseJson(const string& s) {
    json_tokener* t = json_tokener_new();
    json_tokener_set_flags(t, JSON_TOKENER_STRICT);
    json_object* o = json_tokener_parse_ex(t, s.data(), s.size() + 0);
    if (json_tokener_get_error(t) != json_tokener_success) {
        if (o) json_object_put(o);
        o = nullptr;
    }
    json_tokener_free(t);
    return o;
}
static string checkQvars(json_object* o, const PSet& p) {
    json_object* l = nullptr;
    if (!json_object_object_get_ex(o, "qvars", &l) || !json_object_is_type(l, json_type_array)) return "no qvars";
    if (json_object_array_length(l) != p.qvars.size()) return "number of qvars differs";
    for (size_t i = 0; i < p.qvars.size(); i++) {
        json_object* q = json_object_array_get_idx(l, i);
        if (jget(q, "name") != p.qvars[i].first) return "qvar name decodes to " + vk::jstr(jget(q, "name"));
        if (jget(q, "xpath") != p.qvars[i].second) return "qvar xpath decodes to " + vk::jstr(jget(q, "xpath"));
    }
    return "";
}
static string checkJson(const string& out, const PSet& p) {
    json_object* o = parseJson(out);
    if (!o) return "not valid JSON";
    string err = checkQvars(o, p);
    json_object* l = nullptr;
    if (!jint(o, "total", p.total)) err = "total differs";
    if (!json_object_object_get_ex(o, "hits", &l) || !json_object_is_type(l, json_type_array)) err = "no hits";
    else if (json_object_array_length(l) != p.answers.size()) err = "number of hits differs";
    for (size_t i = 0; i < p.answers.size() && err.empty(); i++) {
        json_object *h = json_object_array_get_idx(l, i), *m = nullptr;
        if (!json_object_object_get_ex(h, "math_ids", &m) || !json_object_is_type(m, json_type_array) ||
            json_object_array_length(m) != 1) {
            err = "math_ids";
            break;
        }
        m = json_object_array_get_idx(m, 0);
        if (jget(m, "url") != p.answers[i].uri) err = "url decodes to " + vk::jstr(jget(m, "url"));
        else if (jget(m, "xpath") != p.answers[i].xpath) err = "xpath decodes to " + vk::jstr(jget(m, "xpath"));
        else if (jget(h, "xhtml") != p.answers[i].data) err = "data decodes to " + vk::jstr(jget(h, "xhtml"));
    }
    json_object_put(o);
    return err;
}
static string checkIds(const string& out, const PSet& p) {
    json_object* o = parseJson(out);
    if (!o) return "not valid JSON";
    string err = checkQvars(o, p);
    json_object* l = nullptr;
    if (!jint(o, "total", p.total)) err = "total differs";
    if (!jint(o, "size", p.ids.size())) err = "size differs";
    if (!json_object_object_get_ex(o, "ids", &l) || !json_object_is_type(l, json_type_array)) err = "no ids";
    else {
        std::multiset<int64_t> got, want(p.ids.begin(), p.ids.end());
        for (size_t i = 0; i < json_object_array_length(l); i++)
            got.insert(json_object_get_int64(json_object_array_get_idx(l, i)));
        if (got != want) err = "ids differ";
    }
    json_object_put(o);
    return err;
}
enum Fmt { XML, JSON, IDS, FMTS };
static const char* fmtName[] = {"xml", "json", "mws-ids"};
static const Formatter* formatter(int f) {
    if (f == XML) return RESPONSE_FORMATTER_MWS_XML;
    if (f == JSON) return RESPONSE_FORMATTER_MWS_JSON;
    return RESPONSE_FORMATTER_MWS_IDS;
}
static string decode(int f, const string& out, const PSet& p) {
    return f == XML ? checkXml(out, p) : f == JSON ? checkJson(out, p) : checkIds(out, p);
}
static string roundTrip(int f, const PSet& p) {
    auto a = make(p);
    Sink s;
    s.limit = (size_t)-1;
    int rv = writeTo(formatter(f), a.get(), &s, false);
    if (rv < 0) return "writing failed";
    if ((size_t)rv != s.got.size()) return vk::fmt("returned %d but wrote %zu bytes", rv, s.got.size());
    string e = decode(f, s.got, p);
    return e.empty() ? e : e + "\n" + s.got;
}

// ------------------------------------------------------------------ schemata
struct PSchema {
    T root = T("ci", "");
    size_t coverage = 0;
    vector<uint32_t> formulae;
    vector<string> subst;
};
struct PSchemata {
    vector<PSchema> v;
    int total = 0;
};
static void fill(CmmlToken* t, const T& x) {
    t->setTag(x.tag);
    t->appendTextContent(x.text);
    for (auto& k : x.kids) fill(t->newChildNode(), k);
}
static std::unique_ptr<SchemaAnswset> make(const PSchemata& p) {
    std::unique_ptr<SchemaAnswset> a(new SchemaAnswset);
    a->total = p.total;
    for (auto& s : p.v) {
        mws::types::ExprSchema e;
        e.root = CmmlToken::newRoot();
        fill(e.root, s.root);
        e.coverage = s.coverage;
        e.formulae = s.formulae;
        e.subst = s.subst;
        a->schemata.push_back(e);
    }
    return a;
}
static string nows(const string& s) {
    string o;
    for (char c : s)
        if (!isspace((unsigned char)c)) o += c;
    return o;
}
// compares a parsed tree with the schema's tree (text without white space)
static string sameTree(xmlNode* n, const T& t) {
    if (localName(n) != t.tag) return "element " + localName(n) + " instead of " + t.tag;
    string text;
    size_t k = 0;
    for (xmlNode* m = n->children; m; m = m->next) {
        if (m->type == XML_ELEMENT_NODE) {
            if (k >= t.kids.size()) return "too many children";
            string e = sameTree(m, t.kids[k++]);
            if (!e.empty()) return e;
        } else {
            text += nows(content(m));
        }
    }
    if (k != t.kids.size()) return "a child is missing";
    if (text != nows(t.text)) return "text decodes to " + vk::jstr(text);
    return "";
}
static string checkSchemaXml(const string& out, const PSchemata& p) {
    xmlDoc* d = parseXml(out);
    if (!d) return "not well-formed XML";
    string err;
    bool ok = true;
    xmlNode* root = xmlDocGetRootElement(d);
    if (localName(root) != "mws:schemata") err = "root is " + localName(root);
    else if (attr(root, "total", &ok) != std::to_string(p.total)) err = "total differs";
    else if (attr(root, "size", &ok) != std::to_string(p.v.size())) err = "size differs";
    size_t i = 0;
    for (xmlNode* n = root->children; n && err.empty(); n = n->next) {
        if (n->type != XML_ELEMENT_NODE) continue;
        if (localName(n) != "mws:schema" || i >= p.v.size()) {
            err = "unexpected element";
            break;
        }
        const PSchema& s = p.v[i++];
        if (attr(n, "coverage", &ok) != std::to_string(s.coverage)) err = "coverage differs";
        xmlNode* m = n->children;
        while (m && m->type != XML_ELEMENT_NODE) m = m->next;
        if (!m || localName(m) != "math") err = "no math element";
        else {
            m = m->children;
            while (m && m->type != XML_ELEMENT_NODE) m = m->next;
            if (!m) err = "empty schema";
            else err = sameTree(m, s.root);
        }
    }
    if (err.empty() && i != p.v.size()) err = "a schema is missing";
    if (err.empty() && !ok) err = "an attribute is missing";
    xmlFreeDoc(d);
    return err;
}
static string checkSchemaJson(const string& out, const PSchemata& p) {
    json_object* o = parseJson(out);
    if (!o) return "not valid JSON";
    string err;
    json_object* l = nullptr;
    if (!jint(o, "total", p.total)) err = "total differs";
    if (!jint(o, "size", p.v.size())) err = "size differs";
    if (!json_object_object_get_ex(o, "schemata", &l) || json_object_array_length(l) != p.v.size())
        err = "number of schemata differs";
    for (size_t i = 0; i < p.v.size() && err.empty(); i++) {
        json_object *s = json_object_array_get_idx(l, i), *f = nullptr, *u = nullptr;
        if (!jint(s, "coverage", p.v[i].coverage)) err = "coverage differs";
        json_object_object_get_ex(s, "formulae", &f);
        json_object_object_get_ex(s, "subst", &u);
        vector<uint32_t> ids;
        vector<string> subst;
        for (size_t k = 0; f && k < json_object_array_length(f); k++)
            ids.push_back(json_object_get_int64(json_object_array_get_idx(f, k)));
        for (size_t k = 0; u && k < json_object_array_length(u); k++) {
            json_object* x = json_object_array_get_idx(u, k);
            subst.push_back(string(json_object_get_string(x), json_object_get_string_len(x)));
        }
        if (ids != p.v[i].formulae) err = "formulae differ";
        if (subst != p.v[i].subst) err = "substitutions differ";
        // the schema is an XML fragment
        string x = "<w xmlns:mws=\"urn:x\" xmlns:a=\"urn:y\">" + jget(s, "cmmlSchema") + "</w>";
        xmlDoc* d = parseXml(x);
        if (!d) err = "the schema is not well-formed: " + x;
        else {
            xmlNode* m = xmlDocGetRootElement(d)->children;
            while (m && m->type != XML_ELEMENT_NODE) m = m->next;
            string e = m ? sameTree(m, p.v[i].root) : "empty schema";
            if (!e.empty()) err = e;
            xmlFreeDoc(d);
        }
    }
    json_object_put(o);
    return err;
}
static string schemaTrip(bool xmlFmt, const PSchemata& p) {
    auto a = make(p);
    Sink s;
    s.limit = (size_t)-1;
    const Formatter* f = xmlFmt ? (const Formatter*)RESPONSE_FORMATTER_SCHEMA_XML
                                : (const Formatter*)RESPONSE_FORMATTER_SCHEMA_JSON;
    int rv = writeTo(f, a.get(), &s, false);
    if (rv < 0) return "writing failed";
    if ((size_t)rv != s.got.size()) return vk::fmt("returned %d but wrote %zu bytes", rv, s.got.size());
    string e = xmlFmt ? checkSchemaXml(s.got, p) : checkSchemaJson(s.got, p);
    return e.empty() ? e : e + "\n" + s.got;
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C11", "model_checking");
    run.declare({"responses", "sinks", "end_to_end"});
    run.transitionsCounter = "responses";
    run.tracesCounter = "end_to_end";
    run.rule = "every string up to the length bound over an alphabet of markup, quotes, blanks, control and "
               "multi-byte characters in every field of an answer set, every answer set shape up to the "
               "bound, every point at which the output fails; each response is decoded and compared";
    run.assumptions.push_back("strings are valid UTF-8 without zero bytes; for the XML format also without the control "
                              "characters XML cannot represent (none of these can come from a harvest)");
    mws::parser::initxmlparser();

    const vector<string> common = {"a", "<", ">", "&", "\"", "'", " ", "\n", "\t", "\r", "]", "/", "\\",
                                   "\xc3\xa9", "\xf0\x9d\x94\xb8", "\xe2\x80\xa8", ";", "#", "{", "%", "\xc2\x85", "\x7f", "-", "!", "?"};
    const vector<string> ctl = {"\x01", "\x08", "\x0b", "\x0c", "\x1b", "\x1f"};
    int len = run.thorough ? 4 : 3;
    // ---- one hostile string in every field
    const int FIELDS = 6;
    for (int f = 0; f < FMTS; f++) {
        vector<string> al = common;
        if (f != XML) al.insert(al.end(), ctl.begin(), ctl.end());
        uint64_t n = 0, m = 1;
        for (int l = 0; l <= len; l++, m *= al.size()) n += m;
        uint64_t A = al.size();
        int fields = f == IDS ? 2 : FIELDS;
        run.forall(vk::fmt("strings-%s", fmtName[f]), n, [&](Case& c) {
            uint64_t x = c.index, m = 1;
            int l = 0;
            while (x >= m) {
                x -= m;
                m *= A;
                l++;
            }
            string s;
            for (int i = 0; i < l; i++) {
                s += al[x % A];
                x /= A;
            }
            for (int k = 0; k < fields; k++) {
                PSet p;
                p.total = 1;
                p.answers.push_back({"u", "/*[1]", "d"});
                p.qvars.push_back({"q", "/*[2]"});
                switch (k) {
                case 0: p.qvars[0].first = s; break;
                case 1: p.qvars[0].second = s; break;
                case 2: p.answers[0].uri = s; break;
                case 3: p.answers[0].xpath = s; break;
                case 4: p.answers[0].data = s; break;
                case 5:
                    p.answers[0] = {s, s, s};
                    p.qvars[0] = {s, s};
                    break;
                }
                c.desc(vk::fmt("%s response: ", fmtName[f]) + show(p));
                c.add("responses");
                string e = roundTrip(f, p);
                if (!e.empty()) {
                    c.fail("%s", e.c_str());
                    return;
                }
            }
            if (l <= 2) c.state(s);
        });
    }
    // ---- shapes: numbers of hits, variables and ids, extreme totals
    {
        const vector<int> totals = {0, 1, 2147483647, 100000, -1};
        const vector<uint32_t> idv = {1, 2, 1000000, 2147483647u, 2147483648u, 4294967295u};
        run.forall("shapes", FMTS * 5 * 4 * 64 * totals.size(), [&](Case& c) {
            vk::Digits d(c.index);
            int f = d.next(FMTS);
            int na = d.next(5), nq = d.next(4), mask = d.next(64);
            PSet p;
            p.total = totals[d.next(totals.size())];
            p.time = na * 1000003;
            for (int i = 0; i < na; i++)
                p.answers.push_back({i == 3 ? "u0" : vk::fmt("u%d", i), vk::fmt("/*[1]/*[%d]", i), string(i * 300, 'x') + "<b>"});
            for (int i = 0; i < nq; i++) p.qvars.push_back({i == 2 ? "q0" : vk::fmt("q%d", i), vk::fmt("/*[%d]", i)});
            for (int i = 0; i < 6; i++)
                if (mask >> i & 1) p.ids.insert(idv[i]);
            if (f != IDS && mask > 3) return;
            c.desc(vk::fmt("%s response: ", fmtName[f]) + show(p));
            c.add("responses");
            c.state(vk::fmt("%d|%d|%d|%d", f, na, nq, mask));
            string e = roundTrip(f, p);
            if (!e.empty()) c.fail("%s", e.c_str());
        });
    }
    // ---- long texts (buffers of the libraries below: 4000, 4096, 8192 ...)
    run.forall("lengths", FMTS * (run.thorough ? 20000 : 700), [&](Case& c) {
        vk::Digits d(c.index);
        int f = d.next(FMTS);
        int k = d.next(1 << 30);
        size_t n = run.thorough ? k : k < 500 ? 3800 + k : 8000 + k;
        for (const char* unit : {"x", "<", "\xc3\xa9", "\xf0\x9d\x94\xb8"}) {
            PSet p;
            p.total = 1;
            string s;
            for (size_t i = 0; i < n; i++) s += unit;
            p.answers.push_back({"u", "/*[1]", s});
            p.answers.push_back({f == IDS ? "v" : s, "/*[1]", "e"});
            p.qvars.push_back({f == IDS ? s : "q", "/*[2]"});
            c.desc(vk::fmt("%s response, text of %zu times %s", fmtName[f], n, unit));
            c.add("responses");
            string e = roundTrip(f, p);
            if (!e.empty()) {
                c.fail("%s", e.substr(0, 300).c_str());
                return;
            }
        }
    }, 16);
    // ---- output that fails at any point is reported
    run.forall("failing-output", 5 * 2 * 2 * 32, [&](Case& c) {
        vk::Digits d(c.index);
        int f = d.next(5);
        bool big = d.next(2), unbuf = d.next(2);
        size_t part = d.next(32);
        PSet p;
        p.total = 2;
        p.answers.push_back({"u", "/*[1]", big ? string(9000, 'd') : "d"});
        p.answers.push_back({"v", "/*[1]", "<&>"});
        p.qvars.push_back({"q", "/*[2]"});
        p.ids = {1, 2, 3};
        if (big)
            for (int i = 0; i < 3000; i++) p.ids.insert(i + 10);
        PSchemata ps;
        PSchema sc;
        sc.root = T("apply", "", {ci("f"), ci(big ? string(9000, 'x') : "x")});
        sc.coverage = 1;
        sc.formulae = {0};
        ps.v = {sc};
        ps.total = 1;
        auto a = make(p);
        auto s = make(ps);
        const Formatter* fm = f < FMTS ? formatter(f)
                              : f == 3 ? (const Formatter*)RESPONSE_FORMATTER_SCHEMA_XML
                                       : (const Formatter*)RESPONSE_FORMATTER_SCHEMA_JSON;
        const mws::GenericAnswer* ans = f < FMTS ? (mws::GenericAnswer*)a.get() : s.get();
        Sink whole;
        whole.limit = (size_t)-1;
        int n = writeTo(fm, ans, &whole, unbuf);
        for (size_t lim = part; lim <= whole.got.size(); lim += 32) {
            c.beat();
            Sink k;
            k.limit = lim;
            // with a buffer, failures past writeData are the caller's to see
            cookie_io_functions_t io = {nullptr, Sink::wr, nullptr, nullptr};
            FILE* o = fopencookie(&k, "w", io);
            if (unbuf) setvbuf(o, nullptr, _IONBF, 0);
            int rv = fm->writeData(ans, o);
            int late = fclose(o);
            c.add("sinks");
            c.desc(vk::fmt("%s response of %d bytes, the output fails after %zu bytes (%s)",
                           f < FMTS ? fmtName[f] : f == 3 ? "schema xml" : "schema json", n, lim,
                           unbuf ? "unbuffered" : "buffered"));
            bool complete = k.got.size() == whole.got.size();
            if (rv >= 0 && late == 0 && !complete) {
                c.fail("returned %d although only %zu bytes could be written", rv, k.got.size());
                return;
            }
            if (unbuf && rv >= 0 && (size_t)rv != k.got.size()) {
                c.fail("returned %d although only %zu bytes were written", rv, k.got.size());
                return;
            }
            if (lim == whole.got.size() && rv != n) {
                c.fail("returned %d although everything was written", rv);
                return;
            }
        }
        c.state(vk::fmt("sink|%d|%d|%d", f, big, unbuf));
    }, 1);
    // ---- schemata
    {
        const vector<string> al = {"a", "<", ">", "&", "\"", "'", "]", "\xc3\xa9", "\xf0\x9d\x94\xb8", "#", ";"};
        uint64_t A = al.size(), n = 1 + A + A * A + A * A * A;
        run.forall("schema-strings", n * 2, [&](Case& c) {
            vk::Digits d(c.index);
            bool x = d.next(2);
            uint64_t k = d.next(1 << 30);
            string s;
            int l = k < 1 ? 0 : k < 1 + A ? 1 : k < 1 + A + A * A ? 2 : 3;
            k -= l == 0 ? 0 : l == 1 ? 1 : l == 2 ? 1 + A : 1 + A + A * A;
            for (int i = 0; i < l; i++) {
                s += al[k % A];
                k /= A;
            }
            PSchemata p;
            PSchema q;
            q.root = T("apply", "", {T("csymbol", s), T("mws:qvar", "x1"), T("a:b", s, {ci("x")})});
            q.coverage = 2;
            q.formulae = {0, 4294967295u};
            q.subst = {s, "b"};
            if (x) q.formulae = {0, 1};
            p.v = {q};
            p.total = 7;
            if (x) p.v[0].root.kids[2].tag = "b";
            c.desc(vk::fmt("schema %s response, text %s", x ? "xml" : "json", vk::jstr(s).c_str()));
            c.add("responses");
            string e = schemaTrip(x, p);
            if (!e.empty()) c.fail("%s", e.c_str());
            if (l <= 1) c.state("schema" + s);
        });
        vector<T> shapes = {ci("x"), T("mws:qvar", "x0"), app({}), app({ci("f"), T("mws:qvar", "x1")}),
                            app({app({ci("f"), T("mws:qvar", "x1")}), T("cn", "1"), T("mws:qvar", "x2")}),
                            app({app({app({app({ci("f")})})})}), T("mtext", "")};
        run.forall("schema-shapes", 2 * 4 * shapes.size() * shapes.size(), [&](Case& c) {
            vk::Digits d(c.index);
            bool x = d.next(2);
            int num = d.next(4);
            size_t i = d.next(shapes.size()), j = d.next(shapes.size());
            PSchemata p;
            for (int k = 0; k < num; k++) {
                PSchema q;
                q.root = shapes[k % 2 ? j : i];
                q.coverage = 1 + k;
                for (int m = 0; m < k; m++) q.formulae.push_back(m);
                for (int m = 0; m < k; m++) q.subst.push_back(vk::fmt("s%d", m));
                p.v.push_back(q);
            }
            p.total = num + 2;
            c.desc(vk::fmt("schema %s response, %d schemata of %s and %s", x ? "xml" : "json", num,
                           label(shapes[i]).c_str(), label(shapes[j]).c_str()));
            c.add("responses");
            c.state(vk::fmt("%d|%d|%zu|%zu", x, num, i, j));
            string e = schemaTrip(x, p);
            if (!e.empty()) c.fail("%s", e.c_str());
        });
    }
    // ---- end to end: hostile urls, data, names through harvest, query, response
    {
        const vector<string> al = {"a", "<", ">", "&", "\"", "'", "]]>", "\xc3\xa9", "\xf0\x9d\x94\xb8", "\\", "%", "#", "\t", "\n", "\r", " "};
        uint64_t A = al.size();
        run.forall("end-to-end", A * A * (run.thorough ? A : 1), [&](Case& c) {
            vk::Digits d(c.index);
            string s = al[d.next(A)];
            s += al[d.next(A)];
            if (run.thorough) s += al[d.next(A)];
            auto charRefs = [](const string& x) {  // keeps blanks from being normalised
                string o;
                for (char ch : x)
                    if (ch == '\t' || ch == '\n' || ch == '\r') o += vk::fmt("&#%d;", ch);
                    else o += esc(string(1, ch));
                return o;
            };
            string doc = string("<mws:harvest") + NS() + "><mws:data mws:data_id=\"i\">" + charRefs("p" + s) +
                         "</mws:data><mws:expr url=\"" + charRefs(s) +
                         "\" mws:data_id=\"i\"><m:apply><m:ci>f</m:ci><m:ci>x</m:ci></m:apply></mws:expr></mws:harvest>";
            freshDir(c.scratch + "/h");
            vk::writeFile(c.scratch + "/h/a.harvest", doc);
            auto h = memHandler(c.scratch + "/h");
            for (int f = 0; f < 2; f++) {
                string q = string("<mws:query") + NS() + " output=\"" + fmtName[f] +
                           "\"><mws:expr><m:apply><m:ci>f</m:ci><mws:qvar name=\"" + charRefs("n" + s) +
                           "\"/></m:apply></mws:expr></mws:query>";
                c.desc(doc + "\n" + q);
                auto query = parseQuery(q);
                if (!query) {
                    c.fail("query refused");
                    return;
                }
                std::unique_ptr<mws::GenericAnswer> g(h->handleQuery(query.get()));
                PSet p;
                p.total = 1;
                p.qvars.push_back({"n" + s, "/*[2]"});
                string data;
                auto* set = dynamic_cast<MwsAnswset*>(g.get());
                if (set && set->answers.size() == 1) data = set->answers[0]->data;  // content is C03's subject
                p.answers.push_back({s, "/*[1]", data});
                Sink o;
                o.limit = (size_t)-1;
                int rv = writeTo(query->responseFormatter, g.get(), &o, false);
                c.add("end_to_end");
                c.add("responses");
                string e = rv != (int)o.got.size() ? "wrong byte count" : decode(f, o.got, p);
                if (!e.empty()) {
                    c.fail("%s\n%s", e.c_str(), o.got.c_str());
                    return;
                }
            }
            c.state("e2e" + s);
        });
    }
    return run.finish();
}
