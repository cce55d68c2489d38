// C19: document conversion (the docs2harvest program) yields a loadable harvest
// with every formula of the documents.
#include "mwsh.hpp"
#include "mws/xmlparser/processMwsHarvest.hpp"
#include "mws/xmlparser/xmlparser.hpp"
#include <libxml/parser.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace mwsh;
using vk::Case;

// ---------------------------------------------------------------- XML trees
struct Tree {
    string name, text;  // local name; own text
    map<string, string> attrs;
    vector<Tree> kids;
};
static Tree toTree(xmlNode* n) {
    Tree t;
    t.name = (const char*)n->name;
    size_t c = t.name.find(':');
    if (c != string::npos) t.name = t.name.substr(c + 1);
    for (xmlAttr* a = n->properties; a; a = a->next) {
        xmlChar* v = xmlNodeGetContent((xmlNode*)a);
        t.attrs[(const char*)a->name] = v ? (const char*)v : "";
        xmlFree(v);
    }
    for (xmlNode* k = n->children; k; k = k->next) {
        if (k->type == XML_ELEMENT_NODE) t.kids.push_back(toTree(k));
        else if (k->type == XML_TEXT_NODE || k->type == XML_CDATA_SECTION_NODE) t.text += (const char*)k->content;
    }
    return t;
}
static bool readTree(const string& xml, Tree* t, int flags = 0) {
    xmlDoc* d = xmlReadMemory(xml.data(), xml.size(), "", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | flags);
    if (!d) return false;
    *t = toTree(xmlDocGetRootElement(d));
    xmlFreeDoc(d);
    return true;
}
static string squeeze(const string& s) {
    string o;
    std::istringstream is(s);
    for (string w; is >> w;) o += (o.empty() ? "" : " ") + w;
    return o;
}
static void spell(const Tree& t, string& o, bool attrs) {
    o += "<" + t.name;
    if (attrs)
        for (auto& a : t.attrs)
            if (a.first != "xmlns") o += " " + a.first + "=" + a.second;
    o += ">" + squeeze(t.text);
    for (auto& k : t.kids) spell(k, o, attrs);
    o += "/";
}
static string spellTerm(const T& t) {
    string o = "<" + (t.tag.compare(0, 2, "m:") ? t.tag : t.tag.substr(2)) + ">" + squeeze(t.text);
    for (auto& k : t.kids) o += spellTerm(k);
    return o + "/";
}
static string spellToken(const mws::types::CmmlToken* t) {
    string o = "<" + t->getTag() + ">" + squeeze(t->getTextContent());
    for (auto* k : t->getChildNodes()) o += spellToken(k);
    return o + "/";
}

// ---------------------------------------------------------------- documents
struct Math {
    bool hasId, hasCmml;
    string id;     // as the reader of the document sees it
    string content;  // spelled
    string source;   // markup
    bool inP;
};
struct Doc {
    string path, markup;
    bool readable, optional, known;  // known: the oracle knows what is in it
    string title, pid;     // values of //title, //p/@id
    string text, ptext;    // text with placeholders, of all and of the first p
    vector<Math> maths;
    vector<string> textIds;  // identifiers in order of first appearance in text
    vector<string> pIds;
    bool html;
    Doc() : readable(true), optional(false), known(true), html(false) {}
};
// the content markup of a formula with identifiers and cross references
// the attributes of each element: 2 bits (identifier, cross reference)
static uint64_t refs = 0;
static bool fixedRefs = false;
static void markup(const T& t, const string& pfx, int& n, bool rich, string& o) {
    string tag = pfx + t.tag;
    o += "<" + tag;
    uint64_t bits = rich ? refs >> (2 * n) : 0;
    if (bits & 1) o += vk::fmt(" id=\"c%d\"", n);
    if (bits & 2) o += vk::fmt(" xref=\"p%d\"", n);
    n++;
    if (rich && t.tag == "csymbol") o += " cd=\"latexml\"";
    if (t.text.empty() && t.kids.empty()) {
        o += "/>";
        return;
    }
    o += ">" + (t.rawText.empty() ? esc(t.text) : t.rawText);
    for (auto& k : t.kids) {
        if (rich) o += "\n ";
        markup(k, pfx, n, rich, o);
    }
    o += "</" + tag + ">";
}
enum { NITEMS = 18 };
struct Builder {
    Doc d;
    string pfx, body;
    int counter;
    bool html, entities, inP, donep;
    Builder(bool prefixed, bool html) : pfx(prefixed ? "m:" : ""), counter(0), html(html), entities(false), inP(false), donep(false) {}
    void text(const string& shown) {
        d.text += " " + shown + " ";
        if (inP && !donep) d.ptext += " " + shown + " ";
    }
    void math(bool hasId, const string& id, const T* t, bool rich, const char* wrap = nullptr) {
        Math m;
        m.hasId = hasId;
        m.id = id;
        m.hasCmml = t != nullptr;
        m.inP = inP;
        string s = "<" + pfx + "math" + (pfx.empty() ? " xmlns=\"http://www.w3.org/1998/Math/MathML\"" : "");
        if (hasId) s += " id=\"" + esc(id) + "\"";
        s += " alttext=\"a &lt; b\"><" + pfx + "semantics><" + pfx + "mrow><" + pfx + "mi>ignored</" + pfx + "mi></" + pfx + "mrow>";
        if (wrap) s += wrap;
        if (t) {
            int n = 0;
            if (!fixedRefs) refs = ~0ull * 3 / 7 << counter % 6 | 1;  // varied
            s += "<" + pfx + "annotation-xml encoding=\"MathML-Content\">";
            markup(*t, pfx, n, rich, s);
            s += "</" + pfx + "annotation-xml>";
            m.content = spellTerm(*t);
        }
        s += "<" + pfx + "annotation encoding=\"application/x-tex\">x&lt;y</" + pfx + "annotation></" + pfx + "semantics></" + pfx + "math>";
        m.source = s;
        body += s;
        if (hasId) {
            d.textIds.push_back(id);
            if (inP && !donep) d.pIds.push_back(id);
            text("\1" + id + "\1");  // placeholder, resolved later
        }
        d.maths.push_back(m);
    }
    void item(unsigned k) {
        string n = vk::fmt("%d", ++counter);
        T x = ci("x" + n), sum = app({T("plus", ""), ci("x"), cn(n)});
        switch (k) {
        case 0: math(true, "m" + n, &x, false); break;
        case 1: math(true, "m" + n, &sum, true); break;
        case 2: math(false, "", &x, false); break;
        case 3: math(true, "m" + n, nullptr, false); break;
        case 4: body += "word" + n + " &lt;i&gt; &amp;\n"; text("word" + n + " <i> &"); break;
        case 5:
            if (inP) {
                body += "</p>";
                inP = false;
                donep = true;
            } else {
                body += "<p id=\"par" + n + "\">";
                if (!donep) d.pid = "par" + n;
                inP = true;
            }
            break;
        case 6: math(true, "a\"&<" + n + "'>", &x, false); break;
        case 7: body += "<!-- <math id='no'/> -->"; break;
        case 8: {
            T t = app({T("csymbol", "a<b&\"c\""), T("ci", "\xce\xb1")});
            math(true, "m" + n, &t, true);
            break;
        }
        case 9: body += "<b>bold</b>"; text("bold"); break;
        case 10: {
            T t = sum;
            math(true, "m" + n, &t, false, "<annotation encoding=\"other\">z</annotation>");
            break;
        }
        case 11: math(true, "m-\xc3\xa4 " + n, &sum, false); break;
        case 12: {  // a character by number and by name
            T t = ci("\xce\xb1\xc2\xa0<");
            t.rawText = "&#945;&nbsp;&lt;";
            entities = true;
            math(true, "m" + n, &t, false);
            break;
        }
        case 13: {
            if (html) {
                body += " &eacute; ";
            } else {
                body += " <![CDATA[<]]> ";
                text("<");
                break;
            }
            text("\xc3\xa9");
            break;
        }
        case 14: {
            T t = T("semantics", "", {app({T("times", ""), cn("1.5"), T("share", "")}), T("cerror", "", {T("csymbol", "unknown"), T("cs", " ]]&gt; ")})});
            t.kids[1].kids[1].text = "]]>";
            math(true, "m" + n, &t, false);
            break;
        }
        case 15: body += "<br/><img alt=\"&lt;math&gt;\"/>"; break;
        case 16: {
            T t = app({ci("f"), app({T("cn", ""), T("ci", "")})});
            math(true, "0", &t, false);
            break;
        }
        case 17: {  // foreign attributes below the formula
            T t = ci("q" + n);
            math(true, "m" + n, &t, false);
            size_t p = body.rfind("MathML-Content\"><");
            size_t e = body.find('>', p + 18);
            const char* extra = html ? " xlink:href=\"#\" dir=\"&quot;\"" : " xlink:href=\"#\" dir=\"&lt;&quot;\"";
            body.insert(e, extra);
            p = d.maths.back().source.rfind("MathML-Content\"><");
            e = d.maths.back().source.find('>', p + 18);
            d.maths.back().source.insert(e, extra);
            break;
        }
        }
    }
    Doc finish(const string& path, bool doctype) {
        if (inP) body += "</p>";
        d.title = "T<1>&";
        d.text = " " + d.title + " " + d.text;
        d.path = path;
        d.html = html;
        string m;
        if (doctype || entities)
            m += "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.1 plus MathML 2.0//EN\" \"http://www.w3.org/Math/DTD/mathml2/xhtml-math11-f.dtd\">\n";
        m += "<html";
        if (!html) m += " xmlns=\"http://www.w3.org/1999/xhtml\"";
        if (!html) m += " xmlns:m=\"http://www.w3.org/1998/Math/MathML\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"";
        m += "><head><title>T&lt;1>&amp;</title>";
        if (html) m += "<meta charset=\"utf-8\">";  // not well-formed as XML
        m += "</head><body>" + body + "</body></html>";
        d.markup = m;
        return d;
    }
};

// ---------------------------------------------------------------- options
struct Config {
    bool save;
    int id;    // 0: none given, 1: //title, 2: nothing matches, 3: //p/@id
    int text;  // 0: default, 1: first p, 2: nothing matches, 3: everything, explicitly
    int meta;  // 0: none, 1: title, 2: title and nothing
    Config() : save(true), id(0), text(0), meta(0) {}
};
static const char* const IDX[] = {"", "//*[local-name()='title']", "//nothing", "//*[local-name()='p']/@id"};
static const char* const TEXTX[] = {"/", "//*[local-name()='p']", "//nothing", "/*"};
static string idOf(const Config& k, const Doc& d) {
    return k.id == 0 ? d.path : k.id == 1 ? d.title : k.id == 2 ? "" : d.pid;
}
static string metaText(const Doc& d) { return d.title; }

struct Collector : mws::parser::HarvestProcessor {
    struct E {
        string url, content;
        uint32_t data;
    };
    vector<E> exprs;
    vector<string> datas;
    int processExpression(const mws::types::CmmlToken* t, const string& u, const uint32_t& id) {
        exprs.push_back({u, spellToken(t), id});
        return 0;
    }
    mws::dbc::CrawlId processData(const string& d) {
        datas.push_back(d);
        return datas.size();
    }
};
// runs the program; returns exit status or -1
static int runProgram(const string& dir, const vector<string>& args, long fsize = -1) {
    vector<string> a = args;
    a.insert(a.begin(), string(getenv("VERIF_BUILD")) + "/docs2harvest");
    vector<char*> v;
    for (auto& s : a) v.push_back((char*)s.c_str());
    v.push_back(nullptr);
    pid_t p = fork();
    if (p == 0) {
        int fd = open((dir + "/log").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        dup2(fd, 1);
        dup2(fd, 2);
        if (fsize >= 0) {
            signal(SIGXFSZ, SIG_IGN);
            close(fd);
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            dup2(nul, 2);
            struct rlimit r = {(rlim_t)fsize, (rlim_t)fsize};
            setrlimit(RLIMIT_FSIZE, &r);
        }
        execv(v[0], v.data());
        _exit(126);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
static vector<string> outputs(const string& dir) {
    vector<string> l;
    DIR* d = opendir(dir.c_str());
    if (!d) return l;
    while (dirent* e = readdir(d))
        if (e->d_name[0] != '.') l.push_back(dir + "/" + e->d_name);
    closedir(d);
    return l;
}
// below a formula there are neither identifiers nor cross references
static bool hasReferences(const Tree& t, bool inExpr) {
    if (inExpr && (t.attrs.count("id") || t.attrs.count("xref"))) return true;
    size_t colon = t.name.find(':');
    bool expr = inExpr || (colon == string::npos ? t.name : t.name.substr(colon + 1)) == "expr";
    for (auto& k : t.kids)
        if (hasReferences(k, expr)) return true;
    return false;
}
static bool load(const string& file, Collector* col, string* why) {
    string txt = vk::readFile(file);
    Tree t;
    if (!readTree(txt, &t)) {
        *why = "is not well-formed XML";
        return false;
    }
    if (hasReferences(t, false)) {
        *why = "has identifiers or cross references in a formula";
        return false;
    }
    int fd = open(file.c_str(), O_RDONLY);
    auto r = mws::parser::processHarvestFromFd(fd, col);
    close(fd);
    if (r.status != 0) {
        *why = vk::fmt("is refused by the harvest loader (%d)", r.status);
        return false;
    }
    return true;
}
static string show(const string& s) { return vk::jstr(s).substr(0, 400); }

// the part of a collected harvest that belongs to document i
static void judge(Case& c, const Config& k, const vector<Doc>& docs, const Collector& col) {
    size_t e = 0, dn = 0;
    for (auto& d : docs) {
        if (!d.readable) continue;
        if (d.optional) {  // an empty document may have an empty record
            if (k.save && dn < col.datas.size() && col.datas[dn].find("<id>" + d.path + "</id>") != string::npos) dn++;
            continue;
        }
        // data record
        map<string, string> number;  // identifier -> local number
        if (k.save) {
            if (dn >= col.datas.size()) return c.fail("no data record for %s", show(d.path).c_str());
            Tree t;
            if (!readTree("<r>" + col.datas[dn] + "</r>", &t)) return c.fail("data of %s is not well-formed: %s", show(d.path).c_str(), show(col.datas[dn]).c_str());
            dn++;
            auto kid = [&](const string& n) -> Tree* {
                for (auto& x : t.kids)
                    if (x.name == n) return &x;
                return nullptr;
            };
            if (!d.known) {
                while (e < col.exprs.size() && col.exprs[e].data == dn) e++;
                continue;
            }
            Tree *id = kid("id"), *text = kid("text"), *meta = kid("metadata");
            if (!id || !text || !meta) return c.fail("data of %s lacks a part", show(d.path).c_str());
            if (squeeze(id->text) != squeeze(idOf(k, d))) return c.fail("document is called %s instead of %s", show(id->text).c_str(), show(idOf(k, d)).c_str());
            const vector<string>& ids = k.text == 1 ? d.pIds : k.text == 2 ? vector<string>() : d.textIds;
            string want = k.text == 1 ? d.ptext : k.text == 2 ? "" : d.text;
            for (auto& i : ids)
                if (!number.count(i)) number[i] = vk::fmt("%zu", number.size() + 1);
            string w;
            for (size_t i = 0; i < want.size(); i++) {
                if (want[i] != '\1') {
                    w += want[i];
                    continue;
                }
                size_t z = want.find('\1', i + 1);
                w += "math" + number[want.substr(i + 1, z - i - 1)];
                i = z;
            }
            if (squeeze(text->text) != squeeze(w)) return c.fail("text of %s is %s instead of %s", show(d.path).c_str(), show(text->text).c_str(), show(squeeze(w)).c_str());
            vector<pair<string, string>> m;
            if (k.meta) m.push_back({"title", metaText(d)});
            if (k.meta == 2) m.push_back({"none", ""});
            if (meta->kids.size() != m.size()) return c.fail("%zu metadata items instead of %zu", meta->kids.size(), m.size());
            for (size_t i = 0; i < m.size(); i++)
                if (meta->kids[i].name != m[i].first || squeeze(meta->kids[i].text) != squeeze(m[i].second))
                    return c.fail("metadata %s is %s instead of %s", meta->kids[i].name.c_str(), show(meta->kids[i].text).c_str(), show(m[i].second).c_str());
            // formulae of the record
            size_t q = 0;
            vector<const Tree*> rec;
            for (auto& x : t.kids)
                if (x.name == "math") rec.push_back(&x);
            std::set<string> used;
            for (auto& s : number) used.insert(s.second);
            for (auto& mm : d.maths) {
                if (!mm.hasId || !mm.hasCmml) continue;
                if (q >= rec.size()) return c.fail("data of %s lacks the source of %s", show(d.path).c_str(), show(mm.id).c_str());
                auto& r = *rec[q++];
                string num = r.attrs.count("local_id") ? r.attrs.find("local_id")->second : "";
                if (!number.count(mm.id)) {
                    if (!used.insert(num).second)
                        return c.fail("%s has the number %s of another formula", show(mm.id).c_str(), show(num).c_str());
                    number[mm.id] = num;
                } else if (number[mm.id] != num) {
                    return c.fail("%s has the number %s instead of %s", show(mm.id).c_str(), show(num).c_str(), number[mm.id].c_str());
                }
                string wrap = "<r xmlns:m=\"m\" xmlns:xlink=\"x\">";
                Tree a, b;
                string src = mm.source;
                for (size_t p; (p = src.find("&nbsp;")) != string::npos;) src.replace(p, 6, "&#160;");
                string got = r.text;
                for (size_t p; (p = got.find("&nbsp;")) != string::npos;) got.replace(p, 6, "&#160;");
                if (!readTree(wrap + src + "</r>", &b)) abort();
                if (!readTree(wrap + got + "</r>", &a)) return c.fail("source of %s is not well-formed: %s", show(mm.id).c_str(), show(r.text).c_str());
                string sa, sb;
                spell(a, sa, true);
                spell(b, sb, true);
                if (d.html) {  // attribute prefixes are not resolved in HTML
                    for (string* s : {&sa, &sb})
                        for (size_t p; (p = s->find(" xlink:href")) != string::npos;) s->replace(p, 11, " href");
                }
                if (sa != sb) return c.fail("source of %s is %s instead of %s", show(mm.id).c_str(), show(sa).c_str(), show(sb).c_str());
            }
            if (q != rec.size()) return c.fail("data of %s has too many formulae", show(d.path).c_str());
        } else if (!d.known) {
            return c.fail("harness: unknown document without data");
        }
        // expressions
        for (auto& mm : d.maths) {
            if (!mm.hasId || !mm.hasCmml) continue;
            if (e >= col.exprs.size()) return c.fail("formula %s of %s is missing", show(mm.id).c_str(), show(d.path).c_str());
            auto& x = col.exprs[e++];
            string url = k.save ? number[mm.id] : idOf(k, d) + "#" + mm.id;
            if (x.content != mm.content) return c.fail("formula %s of %s is %s instead of %s", show(mm.id).c_str(), show(d.path).c_str(), show(x.content).c_str(), show(mm.content).c_str());
            if (squeeze(x.url) != squeeze(url)) return c.fail("formula %s of %s has url %s instead of %s", show(mm.id).c_str(), show(d.path).c_str(), show(x.url).c_str(), show(url).c_str());
            if (x.data != (k.save ? dn : 0)) return c.fail("formula %s of %s is linked to data record %u", show(mm.id).c_str(), show(d.path).c_str(), x.data);
        }
    }
    if (e != col.exprs.size()) return c.fail("%zu expressions too many, first %s", col.exprs.size() - e, show(col.exprs[e].content).c_str());
    if (dn != col.datas.size()) return c.fail("%zu data records too many", col.datas.size() - dn);
}
static vector<string> arguments(Case& c, const Config& k, bool viaFlags, const vector<Doc>& docs) {
    vector<string> a = {"-o", c.scratch + "/out"};
    if (viaFlags) {
        if (!k.save) a.push_back("-n");
        if (k.id) {
            a.push_back("-x");
            a.push_back(IDX[k.id]);
        }
    } else {
        string j = vk::fmt("{\"shouldSaveData\": %s, \"documentIdXpath\": \"%s\", \"textWithMathXpath\": \"%s\", \"metadata\": {%s%s}}",
                           k.save ? "true" : "false", IDX[k.id], TEXTX[k.text], k.meta ? "\"title\": \"//*[local-name()='title']\"" : "",
                           k.meta == 2 ? ", \"none\": \"//nothing\"" : "");
        vk::writeFile(c.scratch + "/config", j);
        a.push_back("-c");
        a.push_back(c.scratch + "/config");
    }
    for (auto& d : docs) a.push_back(d.path);
    return a;
}
// converts the documents and compares the harvest with what is in them
static bool convert(Case& c, const Config& k, bool viaFlags, const vector<Doc>& docs, Collector* keep = nullptr) {
    vk::rmTree(c.scratch + "/out");
    int rc = runProgram(c.scratch, arguments(c, k, viaFlags, docs));
    c.add("runs of docs2harvest");
    auto log = [&] {
        string l = vk::readFile(c.scratch + "/log");
        return l.size() > 1500 ? l.substr(l.size() - 1500) : l;
    };
    if (rc != 0) {
        c.fail("docs2harvest ended with %d: %s", rc, log().c_str());
        return false;
    }
    auto o = outputs(c.scratch + "/out");
    if (o.size() != 1) {
        c.fail("%zu harvests written", o.size());
        return false;
    }
    Collector col;
    string why;
    if (!load(o[0], &col, &why)) {
        c.fail("the harvest %s: %s", why.c_str(), show(vk::readFile(o[0])).c_str());
        return false;
    }
    for (auto& e : col.exprs) c.state(vk::fnv(e.content + "|" + e.url));
    c.add("formulae compared", col.exprs.size());
    if (keep) *keep = col;
    else judge(c, k, docs, col);
    return !c.failed;
}
static void store(const Doc& d) { vk::writeFile(d.path, d.markup); }

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C19", "model_checking");
    run.rule = "state = (documents, configuration, outcome); transition = one run of the real docs2harvest, its harvest compared with the model of the documents; trace = one such run";
    run.declare({"runs of docs2harvest", "formulae compared"});
    mws::parser::initxmlparser();
    const bool th = run.thorough;

    // every sequence of fragments, as XHTML with two prefix styles and as HTML
    {
        const unsigned depth = th ? 3 : 2;
        vector<vector<unsigned>> seqs = {{}};
        for (size_t i = 0; i < seqs.size(); i++) {
            auto s = seqs[i];
            if (s.size() == depth) continue;
            for (unsigned k = 0; k < NITEMS; k++) {
                s.push_back(k);
                seqs.push_back(s);
                s.pop_back();
            }
        }
        const unsigned per = 12;
        uint64_t groups = (seqs.size() + per - 1) / per;
        run.forall("documents", groups * 3 * 2, [&](Case& c) {
            vk::Digits d(c.index);
            int style = d.next(3), save = d.next(2);
            uint64_t g = d.i;
            vector<Doc> docs;
            string desc;
            for (uint64_t i = g * per; i < seqs.size() && i < (g + 1) * per; i++) {
                Builder b(style == 1, style == 2);
                for (auto k : seqs[i]) b.item(k);
                docs.push_back(b.finish(c.scratch + vk::fmt("/d%llu.xhtml", (unsigned long long)(i - g * per)), i % 2));
                store(docs.back());
                desc += "[";
                for (auto k : seqs[i]) desc += vk::fmt("%u ", k);
                desc += "]";
            }
            c.desc(vk::fmt("style %d, save %d, ", style, save) + desc);
            Config k;
            k.save = save;
            convert(c, k, true, docs);
        });
    }
    // every assignment of identifiers and cross references to the elements of a formula
    {
        const unsigned per = 16;
        run.forall("references", 4096 / per * 2 * 2, [&](Case& c) {
            vk::Digits d(c.index);
            int style = d.next(2);
            Config k;
            k.save = d.next(2);
            uint64_t g = d.i;
            vector<Doc> docs;
            fixedRefs = true;
            for (uint64_t i = g * per; i < (g + 1) * per; i++) {
                Builder b(style, false);
                refs = i;
                T t = app({T("plus", ""), ci("x"), app({T("times", ""), cn("2")})});
                b.math(true, "m", &t, true);
                docs.push_back(b.finish(c.scratch + vk::fmt("/d%llu.xhtml", (unsigned long long)(i - g * per)), false));
                store(docs.back());
            }
            fixedRefs = false;
            c.desc(vk::fmt("style %d, save %d, references %llu..", style, k.save, (unsigned long long)(g * per)));
            convert(c, k, true, docs);
        });
    }
    // every configuration on every document of up to 3 of the fragments that matter for it
    {
        const unsigned IT[] = {0, 3, 4, 5, 6};
        const unsigned depth = th ? 4 : 3;
        vector<vector<unsigned>> seqs = {{}};
        for (size_t i = 0; i < seqs.size(); i++) {
            auto s = seqs[i];
            if (s.size() == depth) continue;
            for (unsigned k : IT) {
                s.push_back(k);
                seqs.push_back(s);
                s.pop_back();
            }
        }
        const unsigned per = 20;
        uint64_t groups = (seqs.size() + per - 1) / per;
        run.forall("configurations", groups * 2 * 4 * 4 * 3, [&](Case& c) {
            vk::Digits d(c.index);
            Config k;
            k.save = d.next(2);
            k.id = d.next(4);
            k.text = d.next(4);
            k.meta = d.next(3);
            uint64_t g = d.i;
            vector<Doc> docs;
            for (uint64_t i = g * per; i < seqs.size() && i < (g + 1) * per; i++) {
                Builder b(g % 2, false);
                for (auto x : seqs[i]) b.item(x);
                docs.push_back(b.finish(c.scratch + vk::fmt("/d%llu.xhtml", (unsigned long long)(i - g * per)), false));
                store(docs.back());
            }
            c.desc(vk::fmt("save %d id %d text %d meta %d group %llu", k.save, k.id, k.text, k.meta, (unsigned long long)g));
            convert(c, k, false, docs);
        });
    }
    // what a path of the configuration can select, and the configurations of config/
    {
        struct Sel {
            const char *path, *text;  // and the text of the first node it selects
        };
        static const Sel S[] = {
            {"//*[local-name()='title']", "T <1> & x"},
            {"//*[local-name()='title']/text()", "T <1> & x"},
            {"//*[local-name()='title']/text()[1]", "T <1> & x"},
            {"//*[local-name()='meta'][@name='mmturi']/@content", "m?a=1&b=\"2\" <3>"},
            {"//*[local-name()='meta'][@name='mmturi']/attribute::content", "m?a=1&b=\"2\" <3>"},
            {"//*[local-name()='meta'][@name='url']/@content", ""},
            {"//*[local-name()='meta']", ""},
            {"//@missing", ""},
            {"//*[local-name()='span' and @class='number']", "12 .3 (b)"},
            {"//*[local-name()='span' and @class='number']/text()", "12"},
            {"//*[local-name()='span' and @class='number']/*/text()", ".3"},
            {"//*[local-name()='span' and @class='number']/*[2]/text()", "(b)"},
            {"//*[local-name()='span' and @class='number']/text()[2]", ""},
            {"//*[local-name()='span']/@class", "number"},
            {"//*[local-name()='div'][@class='review-body']", "Let mathk0 be mathk1 ."},
            {"//*[local-name()='div'][@class='review-body']/text()", "Let"},
            {"//*[local-name()='div'][@class='review-body']/text()[2]", "be"},
            {"//*[local-name()='div'][@class='review-body']/*[1]/@id", "k0"},
            {"//*[local-name()='div'][2]", "last"},
            {"//*[local-name()='div'] | //*[local-name()='title']", "T <1> & x"},
            {"//comment()", nullptr},  // anything
            {"", ""},
            {"//*[", ""},
        };
        const unsigned N = sizeof S / sizeof *S;
        const int SHIPPED = 3;
        auto page = [](bool html, const string& body) {
            string m = html ? "<html>" : "<html xmlns=\"http://www.w3.org/1999/xhtml\">";
            return m + "<head><title>T &lt;1> &amp; x</title><meta name=\"url\" content=\"\"/><meta content=\"m?a=1&amp;b=&quot;2&quot; &lt;3&gt;\" name='mmturi'/>" + (html ? "<meta charset=\"utf-8\">" : "") +
                   "</head><body>" + body + "</body></html>";
        };
        string formulae[2];
        for (int i = 0; i < 2; i++)
            formulae[i] = vk::fmt("<math xmlns=\"http://www.w3.org/1998/Math/MathML\" id=\"k%d\"><semantics><mi>n</mi><annotation-xml encoding=\"MathML-Content\"><ci>v%d</ci></annotation-xml></semantics></math>", i, i);
        const string body = "<!-- c --><span class=\"number\">12<b>.3</b> <i>(b)</i></span><div class=\"review-body\">Let " + formulae[0] + " be <!-- be not -->" + formulae[1] + ".</div><div>last</div>";
        run.forall("selections", (uint64_t)(N * N * 3 + SHIPPED) * 2, [&](Case& c) {
            vk::Digits d(c.index);
            bool html = d.next(2);
            uint64_t w = d.i;
            string cfg, id, text;
            vector<pair<string, string>> meta;
            vector<bool> any;
            auto js = [](const string& s) { return vk::jstr(s); };
            const string doc = c.scratch + "/doc";
            vk::writeFile(doc, page(html, body));
            bool anyId = false, anyText = false;
            string all = "12 .3 (b) Let mathk0 be mathk1 . last";
            if (w < N * N * 3) {
                unsigned place = w / (N * N), a = w % N, b = w / N % N;
                const char* def = "//*[local-name()='title']";
                string pi = place == 0 ? S[a].path : def, pt = place == 1 ? S[a].path : def, p1 = place == 2 ? S[a].path : def, p2 = S[b].path;
                cfg = "{\"shouldSaveData\": true, \"documentIdXpath\": " + js(pi) + ", \"textWithMathXpath\": " + js(pt) + ", \"metadata\": {\"one\": " + js(p1) + ", \"two\": " + js(p2) + "}}";
                auto val = [&](unsigned i, bool* any) {
                    if (!S[i].text) *any = true;
                    return string(S[i].text ? S[i].text : "");
                };
                bool x = false, y = false;
                id = place == 0 ? (*S[a].path ? val(a, &anyId) : doc) : S[0].text;
                text = place == 1 ? val(a, &anyText) : S[0].text;
                meta.push_back({"one", place == 2 ? val(a, &x) : S[0].text});
                meta.push_back({"two", val(b, &y)});
                any = {x, y};
            } else {
                // the configurations shipped; plain names only reach HTML documents
                static const char* const NAME[] = {"arxiv", "mathhub", "zbl"};
                unsigned k = w - N * N * 3;
                cfg = vk::readFile(string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/config/" + NAME[k] + ".json");
                if (cfg.empty()) return c.desc(string("no configuration ") + NAME[k]);
                if (k == 0) id = doc, text = html ? all : "", meta = {{"title", html ? S[0].text : ""}, {"author", ""}};
                if (k == 1) id = html ? S[3].text : "", text = html ? all : "", meta = {{"title", html ? S[0].text : ""}, {"url", ""}, {"mmturi", html ? S[3].text : ""}};
                if (k == 2) id = "12 .3 (b)", text = "Let mathk0 be mathk1 .", meta = {{"title", ""}, {"author", ""}, {"language", ""}, {"class", ""}, {"keywords", ""}, {"doctype", ""}};
                any.assign(meta.size(), false);
            }
            c.desc(vk::fmt("html %d, configuration ", html) + cfg);
            vk::writeFile(c.scratch + "/config", cfg);
            vk::rmTree(c.scratch + "/out");
            int rc = runProgram(c.scratch, {"-o", c.scratch + "/out", "-c", c.scratch + "/config", doc});
            c.add("runs of docs2harvest");
            if (rc != 0) return c.fail("docs2harvest ended with %d", rc);
            auto o = outputs(c.scratch + "/out");
            Collector col;
            string why;
            if (o.size() != 1 || !load(o[0], &col, &why)) return c.fail("%zu harvests, the harvest %s", o.size(), why.c_str());
            if (col.exprs.size() != 2 || col.datas.size() != 1) return c.fail("%zu formulae and %zu records instead of 2 and 1", col.exprs.size(), col.datas.size());
            c.add("formulae compared", 2);
            Tree t;
            if (!readTree("<r>" + col.datas[0] + "</r>", &t)) return c.fail("the record is not well-formed: %s", show(col.datas[0]).c_str());
            string gid, gtext, num[2];
            vector<pair<string, string>> gmeta;
            unsigned nm = 0;
            for (auto& x : t.kids) {
                if (x.name == "id") gid = squeeze(x.text);
                if (x.name == "text") gtext = squeeze(x.text);
                if (x.name == "metadata")
                    for (auto& y : x.kids) gmeta.push_back({y.name, squeeze(y.text)});
                if (x.name == "math" && nm < 2) num[nm++] = x.attrs.count("local_id") ? x.attrs.find("local_id")->second : "";
            }
            c.state(vk::fnv(gid + "|" + gtext));
            if (nm != 2 || num[0] == num[1] || num[0].empty() || num[1].empty()) return c.fail("formulae numbered %s and %s", num[0].c_str(), num[1].c_str());
            for (int i = 0; i < 2; i++) {
                if (col.exprs[i].url != num[i] || col.exprs[i].data != 1 || col.exprs[i].content != vk::fmt("<ci>v%d/", i))
                    return c.fail("formula %d is %s with url %s", i, col.exprs[i].content.c_str(), col.exprs[i].url.c_str());
                string k = vk::fmt("mathk%d", i);
                size_t p = text.find(k);
                if (p != string::npos) text.replace(p, k.size(), "math" + num[i]);
            }
            if (!anyId && gid != id) return c.fail("the document is called %s instead of %s", show(gid).c_str(), show(id).c_str());
            if (!anyText && gtext != text) return c.fail("the text is %s instead of %s", show(gtext).c_str(), show(text).c_str());
            if (gmeta.size() != meta.size()) return c.fail("%zu metadata items instead of %zu", gmeta.size(), meta.size());
            for (size_t i = 0; i < meta.size(); i++)
                if (gmeta[i].first != meta[i].first || (!any[i] && gmeta[i].second != meta[i].second))
                    return c.fail("metadata %s is %s instead of %s", gmeta[i].first.c_str(), show(gmeta[i].second).c_str(), show(meta[i].second).c_str());
        }, 32);
    }
    // every list of documents of different kinds, some of which cannot be read
    {
        const int KINDS = 7;
        run.forall("lists", (7 + 49 + 343 + (th ? 2401 : 0)) * 2, [&](Case& c) {
            Config k;
            k.save = c.index % 2;
            uint64_t i = c.index / 2;
            unsigned len = 1;
            for (uint64_t n = KINDS; i >= n; n *= KINDS, len++) i -= n;
            vk::Digits d(i);
            vector<Doc> docs;
            string desc;
            for (unsigned j = 0; j < len; j++) {
                int kind = d.next(KINDS);
                string p = c.scratch + vk::fmt("/d%u", j);
                vk::rmTree(p);
                desc += vk::fmt(" %d", kind);
                Builder b(kind == 1, kind == 2);
                if (kind < 3) {
                    b.item(1);
                    b.item(4);
                    b.item(0);
                    docs.push_back(b.finish(p, false));
                    store(docs.back());
                    continue;
                }
                Doc x;
                x.path = p;
                x.readable = false;
                if (kind == 3) unlink(p.c_str());
                if (kind == 4) {
                    vk::writeFile(p, "");
                    x.readable = x.optional = true;
                }
                if (kind == 5) mkdir(p.c_str(), 0755);
                if (kind == 6) {  // a second look at the first document
                    Builder a(false, false);
                    a.item(1);
                    x = a.finish(c.scratch + "/twice", false);
                    store(x);
                }
                docs.push_back(x);
            }
            c.desc("documents" + desc + (k.save ? "" : " -n"));
            convert(c, k, true, docs);
        });
    }
    // words of any length in the text, the title and the tokens
    {
        vector<int> W;
        for (int p = 1; p <= (th ? 32768 : 4096); p *= 2)
            for (int d = -1; d <= 1; d++)
                if (p + d > 0 && (W.empty() || W.back() < p + d)) W.push_back(p + d);
        run.forall("long words", W.size() * 2, [&](Case& c) {
            Config k;
            k.save = c.index % 2;
            int n = W[c.index / 2];
            c.desc(vk::fmt("words of %d characters, save %d", n, k.save));
            vector<Doc> docs;
            for (int s = 0; s < 3; s++) {
                Builder b(s == 1, s == 2);
                string w(n, 'w');
                for (int i = 0; i < 3; i++) {
                    w[n / 2] = 'a' + i;
                    b.body += (i ? "\n" : " ") + w + " ";
                    b.text(w);
                }
                T t = app({ci(w), cn("1")});
                b.math(true, "m", &t, true);
                b.body += "  " + w + "\t\t" + w;
                b.text(w + " " + w);
                docs.push_back(b.finish(c.scratch + vk::fmt("/w%d.xhtml", s), false));
                store(docs.back());
            }
            convert(c, k, true, docs);
        });
    }
    // names of files
    run.forall("names", 127 * 2, [&](Case& c) {
        Config k;
        k.save = c.index % 2;
        unsigned ch = 1 + c.index / 2;
        string name = ch == 127 ? string("\xc3\xa4\xe2\x82\xac") : string(1, (char)ch);
        c.desc(vk::fmt("character %u in the name of the file, save %d", ch, k.save));
        if (ch == '/') return;
        // characters XML cannot carry have no faithful form
        bool carries = ch >= 32 || ch == '\t' || ch == '\n' || ch == '\r';
        Builder b(false, false);
        b.item(0);
        Doc d = b.finish(c.scratch + "/a" + name + "b", false);
        store(d);
        Builder b2(false, false);
        b2.item(1);
        Doc d2 = b2.finish(c.scratch + "/good", false);
        store(d2);
        if (carries) {
            convert(c, k, true, {d, d2});
        } else {
            Collector col;
            if (!convert(c, k, true, {d, d2}, &col)) return;
            if (col.exprs.size() != 2 || col.exprs[0].content != d.maths[0].content || col.exprs[1].content != d2.maths[0].content)
                c.fail("%zu formulae instead of 2", col.exprs.size());
        }
        unlink(d.path.c_str());
    });
    // every byte at every place of a document: the other documents must not suffer
    {
        const int PLACES = 6;
        run.forall("bytes", 256 * PLACES * 2, [&](Case& c) {
            vk::Digits g(c.index);
            Config k;
            k.save = g.next(2);
            int place = g.next(PLACES), byte = g.next(256);
            c.desc(vk::fmt("byte %d at place %d, save %d", byte, place, k.save));
            Builder b(false, place >= 3);
            b.item(0);
            b.item(4);
            Doc d = b.finish(c.scratch + "/odd", false);
            const char* WHERE[] = {"word", "id=\"m1\"", "x1"};
            size_t at = d.markup.find(WHERE[place % 3]) + (place % 3 == 1 ? 4 : 1);
            d.markup.insert(at, 1, (char)byte);
            d.known = false;
            store(d);
            Builder b1(false, false), b2(false, false);
            b1.item(1);
            b2.item(1);
            Doc d1 = b1.finish(c.scratch + "/before", false), d2 = b2.finish(c.scratch + "/after", false);
            store(d1);
            store(d2);
            Collector col;
            if (!convert(c, k, true, {d1, d, d2}, &col)) return;
            if (col.exprs.size() < 2 || col.exprs.size() > 3 || col.exprs.front().content != d1.maths[0].content || col.exprs.back().content != d2.maths[0].content)
                return c.fail("%zu formulae, the neighbours are disturbed", col.exprs.size());
            // a byte which is no markup and no control character does not lose the formula
            if (byte > 32 && byte < 127 && !strchr("<&\"", byte) && col.exprs.size() != 3) return c.fail("the formula is lost");
        });
    }
    // sequences of bytes and references which are no characters, likewise
    {
        vector<string> Q = {"\xef\xbf\xbe", "\xef\xbf\xbf", "\xef\xbf\xbd", "\xed\xa0\x80", "\xed\xbf\xbf", "\xc0\x80", "\xf4\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xf0\x9f\xbf\xbf", "\xe2\x80\xa8", "\xef\xbb\xbf", "\xc2\x85", "\xef\xbf", "\xf0\x9f\xbf",
                            "&#xFFFE;", "&#xFFFF;", "&#xD800;", "&#0;", "&#1;", "&#x110000;", "&#x10FFFF;", "&#x99999999;", "&#-1;", "&#x;", "&#;", "&;", "&", "&x", "&unknown;", "&unknown;&other;", "&#xFFFE;&#xFFFF;", "\xef\xbf\xbe\xef\xbf\xbf", "]]>", "<![CDATA[\xef\xbf\xbe]]>", "<?p \xef\xbf\xbe?>"};
        const int PLACES = 6;
        run.forall("sequences", Q.size() * PLACES * 2 * 2, [&](Case& c) {
            vk::Digits g(c.index);
            Config k;
            k.save = g.next(2);
            int place = g.next(PLACES);
            bool doctype = g.next(2);
            const string& q = Q[g.next(Q.size())];
            c.desc(vk::fmt("%s at place %d, save %d, doctype %d", vk::jstr(q).c_str(), place, k.save, doctype));
            Builder b(false, place >= 3);
            b.item(0);
            b.item(4);
            Doc d = b.finish(c.scratch + "/odd", doctype);
            const char* WHERE[] = {"word", "id=\"m1\"", "x1"};
            size_t at = d.markup.find(WHERE[place % 3]) + (place % 3 == 1 ? 4 : 1);
            d.markup.insert(at, q);
            d.known = false;
            store(d);
            Builder b1(false, false), b2(false, false);
            b1.item(1);
            b2.item(1);
            Doc d1 = b1.finish(c.scratch + "/before", false), d2 = b2.finish(c.scratch + "/after", false);
            store(d1);
            store(d2);
            Collector col;
            if (!convert(c, k, true, {d1, d, d2}, &col)) return;
            if (col.exprs.size() < 2 || col.exprs.size() > 3 || col.exprs.front().content != d1.maths[0].content || col.exprs.back().content != d2.maths[0].content)
                return c.fail("%zu formulae, the neighbours are disturbed", col.exprs.size());
        });
    }
    // every short sequence of entity references, in symbols and in attributes
    {
        const char* const E[][2] = {{"x", "x"}, {"&alpha;", "\xce\xb1"}, {"&#945;", "\xce\xb1"}, {"&lt;", "<"}, {"&amp;", "&"}, {"&eacute;", "\xc3\xa9"}, {"&unknown;", "&unknown;"}, {"&own;", "own"}};
        const unsigned per = 8, N = 8 + 64 + 512;
        run.forall("entities", N / per * 2 * 2, [&](Case& c) {
            vk::Digits g(c.index);
            Config k;
            k.save = g.next(2);
            int place = g.next(2);
            uint64_t from = g.i * per;
            c.desc(vk::fmt("entities %llu.., %s, save %d", (unsigned long long)from, place ? "identifier" : "symbol", k.save));
            vector<Doc> docs;
            for (uint64_t i = from; i < from + per; i++) {
                string raw, shown;
                uint64_t r = i;
                unsigned len = r < 8 ? 1 : r < 72 ? 2 : 3;
                r -= len == 1 ? 0 : len == 2 ? 8 : 72;
                for (unsigned j = 0; j < len; j++, r /= 8) raw += E[r % 8][0], shown += E[r % 8][1];
                // the XML library leaves out undeclared ones in attributes
                if (place && (raw.find("&alpha;") != string::npos || raw.find("&eacute;") != string::npos || raw.find("&unknown;") != string::npos)) continue;
                Builder b(false, false);
                T t = ci("a"), u = app({T("plus", ""), ci("x"), cn("2")});
                if (place == 0) t.text = shown, t.rawText = raw;
                b.math(true, place ? "i" + shown : string("m"), &t, false);
                if (place) {
                    string was = "id=\"i" + esc(shown) + "\"", now = "id=\"i" + raw + "\"";
                    b.body.replace(b.body.find(was), was.size(), now);
                } else {
                    string& s = b.d.maths.back().source;
                    s.replace(s.find("<ci>" + raw), raw.size() + 4, "<ci>" + esc(shown));
                }
                b.math(true, "n", &u, false);
                Doc d = b.finish(c.scratch + vk::fmt("/e%llu.xhtml", (unsigned long long)(i - from)), true);
                size_t at = d.markup.find(".dtd\">") + 5;
                d.markup.insert(at, " [<!ENTITY own \"own\">]");
                docs.push_back(d);
                store(d);
            }
            if (!docs.empty()) convert(c, k, true, docs);
        });
    }
    // every place where a document can end too early
    {
        Builder b(false, false), h(false, true);
        for (int i : {4, 1, 9, 0, 6}) b.item(i), h.item(i);
        Doc D[2] = {b.finish("", true), h.finish("", true)};
        unsigned stride = th ? 1 : 3;
        size_t n[2] = {D[0].markup.size() / stride, D[1].markup.size() / stride};
        run.forall("cut documents", (n[0] + n[1]) * 2, [&](Case& c) {
            Config k;
            k.save = c.index % 2;
            uint64_t i = c.index / 2;
            int w = i >= n[0];
            if (w) i -= n[0];
            Doc d = D[w];
            d.markup.resize(i * stride + c.index / 2 % stride);
            d.path = c.scratch + "/cut";
            d.known = false;
            c.desc(vk::fmt("document %d cut after %zu bytes, save %d", w, d.markup.size(), k.save));
            store(d);
            Builder b1(false, false), b2(false, false);
            b1.item(1);
            b2.item(1);
            Doc d1 = b1.finish(c.scratch + "/before", false), d2 = b2.finish(c.scratch + "/after", false);
            store(d1);
            store(d2);
            Collector col;
            if (!convert(c, k, true, {d1, d, d2}, &col)) return;
            unsigned whole = 0;
            for (size_t p = 0; (p = d.markup.find("</math>", p)) != string::npos; p++) whole++;
            auto& e = col.exprs;
            if (e.size() < 2 || e.front().content != d1.maths[0].content || e.back().content != d2.maths[0].content) return c.fail("the neighbours are disturbed (%zu formulae)", e.size());
            if (e.size() - 2 < whole || e.size() - 2 > whole + 1) return c.fail("%zu formulae of the cut document, %u are complete", e.size() - 2, whole);
            for (unsigned j = 0; j < whole; j++)
                if (e[j + 1].content != d.maths[j].content) return c.fail("formula %u is %s", j, show(e[j + 1].content).c_str());
        });
    }
    // the harvest cannot be written beyond every number of bytes
    {
        unsigned stride = th ? 1 : 7;
        const unsigned LIMIT = 2600;
        run.forall("full disk", LIMIT / stride * 2, [&](Case& c) {
            Config k;
            k.save = c.index % 2;
            long limit = c.index / 2 * stride;
            c.desc(vk::fmt("no more than %ld bytes can be written, save %d", limit, k.save));
            Builder b(false, false);
            for (int i : {1, 4, 0}) b.item(i);
            Doc d = b.finish(c.scratch + "/doc", false);
            store(d);
            vk::rmTree(c.scratch + "/out");
            int rc = runProgram(c.scratch, arguments(c, k, true, {d}), limit);
            c.add("runs of docs2harvest");
            if (rc < 0) return c.fail("docs2harvest crashed");
            if (rc != 0) {
                if (limit > 2500) c.fail("failure although the harvest fits");
                return;
            }
            auto o = outputs(c.scratch + "/out");
            if (o.size() != 1) return c.fail("%zu harvests written", o.size());
            Collector col;
            string why;
            if (!load(o[0], &col, &why)) return c.fail("success is reported, but the harvest %s", why.c_str());
            judge(c, k, {d}, col);
        });
    }
    return run.finish();
}
