// C18: the math of crawled pages is extracted completely and stored without loss.
#include "vk.hpp"
#include "web.hpp"
#include "crawler/crawler/MwsCrawler.hpp"
#include "build-gen/config.h"
#include <algorithm>
#include <dirent.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <set>
#include <sstream>
#include <sys/stat.h>
using std::map;
using std::pair;
using std::string;
using std::vector;
using vk::Case;

static long gClock = 1000000, gTick = 0;
extern "C" time_t __wrap_time(time_t* t) {
    gClock += gTick;
    if (t) *t = gClock;
    return gClock;
}

// ---------------------------------------------------------------- XML
static string squeeze(const string& s) {
    string o;
    std::istringstream is(s);
    for (string w; is >> w;) o += (o.empty() ? "" : " ") + w;
    return o;
}
static string local(const char* n) {
    string s = n;
    size_t c = s.rfind(':');
    return c == string::npos ? s : s.substr(c + 1);
}
// an element without its namespaces
static string spell(xmlNode* n) {
    string text, kids;
    map<string, string> attrs;
    for (xmlAttr* a = n->properties; a; a = a->next) {
        xmlChar* v = xmlNodeGetContent((xmlNode*)a);
        attrs[local((const char*)a->name)] = v ? (const char*)v : "";
        xmlFree(v);
    }
    for (xmlNode* k = n->children; k; k = k->next) {
        if (k->type == XML_ELEMENT_NODE) kids += spell(k);
        else if (k->type == XML_TEXT_NODE || k->type == XML_CDATA_SECTION_NODE) text += (const char*)k->content;
    }
    string o = "<" + local((const char*)n->name);
    for (auto& a : attrs) o += " " + a.first + "=" + a.second;
    return o + ">" + squeeze(text) + kids + "/";
}
static string attribute(xmlNode* n, const char* name) {
    xmlChar* v = xmlGetNoNsProp(n, BAD_CAST name);
    string s = v ? (const char*)v : "";
    xmlFree(v);
    return s;
}
static xmlDoc* parse(const string& x) {
    return xmlReadMemory(x.data(), x.size(), "", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
}

struct Formula {
    string url, content;
    bool optional;
};
static string show(const vector<Formula>& v) {
    string o;
    for (auto& f : v) o += (o.empty() ? "" : "; ") + f.url + " " + f.content + (f.optional ? " (optional)" : "");
    return o;
}

// ---------------------------------------------------------------- the formulae of an HTML page
// A math element is an opening tag with the closing tag that belongs to it, or
// an empty tag. An element inside of another one is part of that.
static vector<Formula> mathOfHtml(const string& page, const string& url) {
    struct El {
        size_t a, b;
    };
    vector<El> all;
    vector<size_t> open;
    for (size_t p = 0; p < page.size(); p++) {
        if (page[p] != '<') continue;
        size_t e = p + 1;
        char q = 0;
        for (; e < page.size(); e++) {
            char x = page[e];
            if (x == '<') break;
            if (q) {
                if (x == q) q = 0;
            } else if (x == '"' || x == '\'')
                q = x;
            else if (x == '>')
                break;
        }
        if (e >= page.size() || page[e] != '>') continue;  // not a tag
        string tag = page.substr(p + 1, e - p - 1);
        string name = tag.substr(0, tag.find_first_of(" \t\r\n/", 1));
        if (name == "/math") {
            if (open.empty()) continue;
            all.push_back({open.back(), e + 1});
            open.pop_back();
        } else if (name == "math") {
            if (tag.back() == '/') all.push_back({p, e + 1});
            else open.push_back(p);
        }
    }
    std::sort(all.begin(), all.end(), [](const El& x, const El& y) { return x.a < y.a; });
    vector<Formula> o;
    for (auto& x : all) {
        bool inGood = false, inBad = false;
        for (auto& y : all)
            if (y.a < x.a && x.b < y.b) {
                xmlDoc* d = parse(page.substr(y.a, y.b - y.a));
                (d ? inGood : inBad) = true;
                if (d) xmlFreeDoc(d);
            }
        if (inGood) continue;
        xmlDoc* d = parse(page.substr(x.a, x.b - x.a));
        if (!d) continue;
        xmlNode* r = xmlDocGetRootElement(d);
        string id = attribute(r, "id");
        o.push_back({id.empty() ? url : url + "#" + id, spell(r), inBad});
        xmlFreeDoc(d);
    }
    return o;
}

// ---------------------------------------------------------------- what was stored
// file -> its formulae; false: a file is not well-formed
static bool stored(const string& dir, vector<vector<Formula>>* files, string* bad) {
    vector<string> names;
    DIR* d = opendir(dir.c_str());
    if (!d) return true;
    while (dirent* e = readdir(d))
        if (e->d_name[0] != '.') names.push_back(e->d_name);
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
        xmlDoc* x = parse(vk::readFile(dir + "/" + n));
        if (!x) {
            *bad = n;
            return false;
        }
        vector<Formula> v;
        for (xmlNode* k = xmlDocGetRootElement(x)->children; k; k = k->next) {
            if (k->type != XML_ELEMENT_NODE) continue;
            if (local((const char*)k->name) != "expr") continue;
            Formula f = {attribute(k, "url"), "", false};
            for (xmlNode* m = k->children; m; m = m->next)
                if (m->type == XML_ELEMENT_NODE) f.content += spell(m);
            v.push_back(f);
        }
        files->push_back(v);
        xmlFreeDoc(x);
    }
    return true;
}
static void crawl(const string& start, const string& dir, int count = -1) {
    mws::Crawler crawler;
    crawler.addURLStart(start);
    if (count != -1) crawler.addCrawlerCount(count);
    crawler.addDataDirectory(dir.c_str());
    crawler.start();
}
static void emptyDir(const string& d) {
    vk::rmTree(d);
    mkdir(d.c_str(), 0700);
}
static bool same(const vector<Formula>& want, const vector<Formula>& got, string* why) {
    size_t i = 0, j = 0;
    for (; i < want.size(); i++) {
        if (j < got.size() && got[j].url == want[i].url && got[j].content == want[i].content) {
            j++;
            continue;
        }
        if (want[i].optional) continue;
        *why = "formula " + want[i].url + " " + want[i].content + " is " + (j < got.size() ? got[j].url + " " + got[j].content : "missing");
        return false;
    }
    if (j < got.size()) {
        *why = "there is another formula " + got[j].url + " " + got[j].content;
        return false;
    }
    return true;
}
// crawls one page and compares what is stored
static void onePage(Case& c, const string& url, const vector<Formula>& want) {
    emptyDir(c.scratch);
    crawl(url, c.scratch, 1);
    c.add("pages");
    vector<vector<Formula>> files;
    string bad, why;
    if (!stored(c.scratch, &files, &bad)) return c.fail("the stored harvest %s is not well-formed", bad.c_str());
    vector<Formula> got;
    for (auto& f : files) got.insert(got.end(), f.begin(), f.end());
    c.add("formulae", got.size());
    c.state(vk::fnv(show(got)));
    if (!same(want, got, &why)) c.fail("%s (%zu expected, %zu stored)", why.c_str(), want.size(), got.size());
}

static const string URL = "http://site.test/p0";

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C18", "model_checking");
    run.rule = "state = (page, stored expressions); transition = one page crawled and its stored harvest compared with the independent scanner; trace = one page";
    run.declare({"pages", "formulae", "crawls"});
    run.transitionsCounter = "formulae";
    run.tracesCounter = "pages";
    run.caseTimeout = 60;
    bool th = run.thorough;
    web::state().onFetch = nullptr;

    // every page of fragments
    {
        vector<string> A = {
            " text &amp; more ",
            "<math>",
            "<math id=\"i1\">",
            "<math class=\"c\" id='i&amp;2'>",
            "</math>",
            "<math/>",
            "<math id=\"s\" />",
            "<apply><plus/><ci>x</ci><ci>y</ci></apply>",
            "<cn type=\"integer\">1</cn>",
            "<apply>",
            "<mathx>z</mathx>",
            "<math id=\"u",
            "</math",
            "<p class=\"q\">",
            "<math\n\tid = \"t\"\ntitle=\"a>b\">",
            "</math >",
            "<ci>a/>b</ci>",
        };
        unsigned len = th ? 5 : 4;
        run.forall("fragments", vk::countSequences(A.size(), len), [&, len](Case& c) {
            auto seq = vk::sequence(c.index, A.size(), len);
            string inner;
            for (auto i : seq) inner += A[i];
            for (int form = 0; form < 2 && !c.failed; form++) {
                string page = form ? inner : "<html><body>" + inner + "</body></html>";
                c.desc("page " + page);
                web::state().clear();
                web::put(URL, page);
                onePage(c, URL, mathOfHtml(page, URL));
            }
        }, 64);
    }
    // three formulae and anything between them
    {
        vector<string> A = {"", " x ", "<math>", "</math>", "<math id=\"", "<math/>", "<!-- c -->", "<mathe>", "<p><b>", "</math", "<", ">", "\"", "<math id=\"u\"><ci>", "&nbsp;", "</ci></math>", "\xc3\xa9", "\xe9"};
        vector<string> M = {"<math id=\"a\"><ci>x</ci></math>", "<math><cn>1</cn></math>", "<math id=\"c\"/>"};
        run.forall("gaps", A.size() * A.size() * A.size() * (th ? A.size() : 3), [&](Case& c) {
            vk::Digits d(c.index);
            string page;
            for (int i = 0; i < 3; i++) page += M[i] + A[d.next(A.size())];
            page = A[d.next(A.size())] + page;
            c.desc("page " + vk::jstr(page));
            web::state().clear();
            web::put(URL, page);
            onePage(c, URL, mathOfHtml(page, URL));
        }, 64);
    }
    // a page cut after every byte
    {
        vector<string> P = {
            "<html><body><p>See <math id=\"a\"><apply><plus/><ci>x</ci><cn>1</cn></apply></math> and <math/> or\n<math id='b' class=\"c\"><semantics><mrow><mi>y</mi></mrow><annotation-xml encoding=\"MathML-Content\"><ci>y</ci></annotation-xml></semantics></math></p></body></html>",
            "<math><math id=\"in\"><ci>x</ci></math><math/></math><math id=\"z\" /><math>",
        };
        uint64_t total = 0;
        for (auto& p : P) total += p.size() + 1;
        run.forall("cut pages", total * 2, [&](Case& c) {
            uint64_t i = c.index / 2;
            bool tail = c.index % 2;
            size_t w = 0;
            while (i > P[w].size()) i -= P[w++].size() + 1;
            string page = P[w].substr(0, i);
            if (tail) page += "<math id=\"after\"><ci>v</ci></math>";
            c.desc("page " + page);
            web::state().clear();
            web::state().piece = 7;
            web::put(URL, page);
            onePage(c, URL, mathOfHtml(page, URL));
        });
    }
    // every element of the tag list, empty, with text and with another one in it
    {
        vector<string> names;
        std::istringstream is(vk::readFile(MATHMLTAGS_PATH));
        for (string l; getline(is, l);) {
            size_t a = l.find('<');
            if (a == string::npos) continue;
            names.push_back(l.substr(a + 1, l.find_first_of(" >/", a) - a - 1));
        }
        for (auto s : {"foo", "mi2", "mI", "M", "ci-x", "cs", "bind", "share"}) names.push_back(s);
        run.forall("elements", names.size() * 5, [&](Case& c) {
            string n = names[c.index / 5];
            string e;
            switch (c.index % 5) {
                case 0: e = "<" + n + "/>"; break;
                case 1: e = "<" + n + ">t</" + n + ">"; break;
                case 2: e = "<" + n + " a=\"b\"><ci>x</ci></" + n + ">"; break;
                case 3: e = "<apply><" + n + " /><" + n + "></" + n + "></apply>"; break;
                case 4: e = "<ci\n><" + n + "\na='b'/></ci\n>"; break;
            }
            // a math element in a math element is not for this family
            string page = "<p><math id=\"i\">" + e + "</math></p>";
            c.desc("page " + page);
            web::state().clear();
            web::put(URL, page);
            onePage(c, URL, mathOfHtml(page, URL));
        });
    }
    // XHTML pages
    {
        struct Block {
            const char* markup;  // %s: prefix with colon, or nothing
            vector<pair<const char*, const char*>> formulae;  // id, spelled
        };
        vector<Block> B = {
            {"<p>text &amp; more</p>", {}},
            {"<%smath id=\"i1\"><%ssemantics><%smrow/><%sannotation-xml encoding=\"MathML-Content\"><%sci>x</%sci></%sannotation-xml></%ssemantics></%smath>", {{"i1", "<ci>x/"}}},
            {"<%smath><%ssemantics><%sannotation-xml encoding=\"MathML-Content\"><%sapply><%splus/><%scn type=\"integer\">1</%scn><%sci>a &lt; b</%sci></%sapply></%sannotation-xml></%ssemantics></%smath>", {{"", "<apply><plus>/<cn type=integer>1/<ci>a < b//"}}},
            {"<div><%smath id=\"i&amp;2'&quot;\"><%ssemantics><%sannotation-xml encoding=\"MathML-Content\"> <!-- c --> <%sci>y</%sci> <%scn>2</%scn></%sannotation-xml></%ssemantics></%smath></div>", {{"i&2'\"", "<ci>y/"}, {"i&2'\"", "<cn>2/"}}},
            {"<%smath id=\"i3\"><%smrow><%smi>z</%smi></%smrow></%smath>", {}},
            {"<%smath id=\"i4\"><%ssemantics><%smi>z</%smi><%sannotation-xml encoding=\"MathML-Presentation\"><%smi>z</%smi></%sannotation-xml><%sannotation encoding=\"TeX\">z</%sannotation></%ssemantics></%smath>", {}},
            {"<%smath id=\"i5\"><%ssemantics><%sannotation-xml encoding=\"MathML-Content\"/></%ssemantics></%smath>", {}},
            {"<%smath id=\"i6\"><%ssemantics><%smi>z</%smi><%sannotation encoding=\"TeX\">z</%sannotation><%sannotation-xml encoding=\"MathML-Content\"><%scsymbol cd=\"l\">s&#233;</%scsymbol></%sannotation-xml></%ssemantics></%smath>", {{"i6", "<csymbol cd=l>s\xc3\xa9/"}}},
            {"<math id=\"i7\"><semantics><annotation-xml encoding=\"MathML-Content\"><ci>x</ci></annotation-xml></semantics></math>", {}},  // not MathML, unless it is the default namespace
        };
        unsigned n = B.size();
        unsigned len = th ? 4 : 3;
        run.forall("XHTML", vk::countSequences(n, len) * 3, [&, n, len](Case& c) {
            unsigned form = c.index % 3;
            auto seq = vk::sequence(c.index / 3, n, len);
            const char* prefix = form == 0 ? "m:" : form == 1 ? "mml:" : "";
            string page = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<html xmlns=\"http://www.w3.org/1999/xhtml\"";
            if (form == 0) page += " xmlns:m=\"http://www.w3.org/1998/Math/MathML\"";
            if (form == 1) page += " xmlns:mml=\"http://www.w3.org/1998/Math/MathML\"";
            page += "><body>";
            vector<Formula> want;
            for (auto i : seq) {
                string m = B[i].markup;
                if (form == 2 && i < 8) {
                    size_t p = m.find("<%smath");
                    if (p != string::npos) m.insert(p + 7, " xmlns=\"http://www.w3.org/1998/Math/MathML\"");
                }
                for (size_t p; (p = m.find("%s")) != string::npos;) m.replace(p, 2, prefix);
                page += m;
                for (auto& f : B[i].formulae) want.push_back({*f.first ? URL + "#" + f.first : URL, f.second, false});
            }
            page += "</body></html>";
            c.desc("page " + page);
            web::state().clear();
            web::put(URL, page, "application/xhtml+xml; charset=utf-8");
            onePage(c, URL, want);
        }, 32);
        string whole = "<?xml version=\"1.0\"?><html xmlns=\"http://www.w3.org/1999/xhtml\" xmlns:m=\"http://www.w3.org/1998/Math/MathML\"><body><m:math id=\"a\"><m:semantics><m:annotation-xml encoding=\"MathML-Content\"><m:ci>x</m:ci></m:annotation-xml></m:semantics></m:math></body></html>\n";
        run.forall("cut XHTML", whole.size() + 1, [&](Case& c) {
            string page = whole.substr(0, c.index);
            c.desc("page " + page);
            web::state().clear();
            web::put(URL, page, "application/xhtml+xml");
            vector<Formula> want = {{URL + "#a", "<ci>x/", c.index + 1 < whole.size()}};
            onePage(c, URL, want);
        });
    }
    // every header
    {
        struct H {
            string header;
            int kind;  // 0 no page with math, 1 HTML, 2 XHTML
        };
        vector<H> V = {{"Content-Type: text/html", 1}, {"Content-Type: text/html; charset=utf-8", 1}, {"content-type: text/html", 1}, {"Content-Type:text/html", 1}, {"CONTENT-TYPE:  TEXT/HTML", 1}, {"Content-Type: application/xhtml+xml", 2}, {"content-type: application/xhtml+xml;charset=utf-8", 2}, {"Content-type:application/xhtml+xml", 2}, {"Content-Type: text/plain", 0}, {"Content-Type: image/png", 0}, {"", 0}, {"X-Content-Type: none", 0}};
        vector<string> around = {"", "Server: s\r\n", "Set-Cookie: a=b; path=/\r\nVary: Accept\r\n"};
        run.forall("headers", V.size() * 9 * 2, [&](Case& c) {
            vk::Digits d(c.index);
            const H& h = V[d.next(V.size())];
            string before = around[d.next(3)], after = around[d.next(3)];
            bool eol = d.next(2);
            web::Page p;
            p.header = "HTTP/1.1 200 OK\r\n" + before + (h.header.empty() ? "" : h.header + "\r\n") + after + "\r\n";
            if (eol)
                for (size_t i; (i = p.header.find('\r')) != string::npos;) p.header.erase(i, 1);
            p.body = "<html xmlns=\"http://www.w3.org/1999/xhtml\"><body><math xmlns=\"http://www.w3.org/1998/Math/MathML\" id=\"a\"><semantics><annotation-xml encoding=\"MathML-Content\"><ci>x</ci></annotation-xml></semantics></math></body></html>";
            c.desc("header " + vk::jstr(p.header));
            web::state().clear();
            web::state().site[URL] = p;
            vector<Formula> want;
            if (h.kind == 1) want = mathOfHtml(p.body, URL);
            if (h.kind == 2) want = {{URL + "#a", "<ci>x/", false}};
            onePage(c, URL, want);
        });
    }
    // every kind of address and identifier
    {
        vector<string> U = {"http://site.test/p0", "http://site.test/", "http://site.test/p0?a=1&b=2", "http://site.test/a'b", "http://site.test:8080/p", "http://site.test/a;b=c,d", "http://site.test/p?x=%26&y", "https://site.test/p?amp;lt;", "http://site.test/p?q=a%20b", "http://site.test/p]]"};
        vector<pair<string, string>> I = {{"", ""}, {" id=\"\"", ""}, {" id=\"a\"", "a"}, {" id='b'", "b"}, {" id=\"a&amp;b\"", "a&b"}, {" id='\"'", "\""}, {" id=\"'\"", "'"}, {" id=\"&lt;&gt;\"", "<>"}, {" class=\"x id=y\"", ""}, {" data-id=\"z\"", ""}, {"\tid\t=\t\"t\"", "t"}, {" id=\"\xc3\xa9\"", "\xc3\xa9"}, {" class=\"k\" id=\"l\" style=\"m\"", "l"}, {" id=\"#\"", "#"}};
        run.forall("addresses", U.size() * I.size() * 2, [&](Case& c) {
            vk::Digits d(c.index);
            string u = U[d.next(U.size())];
            auto& i = I[d.next(I.size())];
            bool x = d.next(2);
            web::state().clear();
            string body = "<math" + i.first + "><ci>x</ci></math>", spelled;
            if (x) body = "<html xmlns=\"http://www.w3.org/1998/Math/MathML\"><math" + i.first + "><semantics><annotation-xml encoding=\"MathML-Content\"><ci>x</ci></annotation-xml></semantics></math></html>";
            web::put(u, body, x ? "application/xhtml+xml" : "text/html");
            c.desc("address " + u + ", page " + body);
            vector<Formula> want;
            if (x) want = {{"", "<ci>x/", false}};
            else want = mathOfHtml(body, u);
            want[0].url = i.second.empty() ? u : u + "#" + i.second;
            onePage(c, u, want);
        });
    }
    // every history of crawls: what one stores the others keep
    {
        run.forall("histories", 4 * 4 * 4 * 3 * 3 * 2, [&](Case& c) {
            vk::Digits d(c.index);
            unsigned sizes[3] = {(unsigned)d.next(4), (unsigned)d.next(4), (unsigned)d.next(4)};
            unsigned pages = d.next(3) + 1;
            gTick = d.next(3);
            bool there = d.next(2);
            gClock = 1000000;
            c.desc(vk::fmt("crawls of %u pages with %u, %u and %u formulae, clock +%ld, %s directory", pages, sizes[0], sizes[1], sizes[2], gTick, there ? "used" : "empty"));
            emptyDir(c.scratch);
            string old = "<?xml version=\"1.0\"?><mws:harvest xmlns:mws=\"http://search.mathweb.org/ns\"><mws:expr url=\"old\"><ci>old</ci></mws:expr></mws:harvest>";
            std::multiset<string> want;
            if (there)
                for (auto n : {"harvest1000000.xml", "harvest1000001.xml", "harvest1000001_1.xml"}) {
                    vk::writeFile(c.scratch + "/" + n, old);
                    want.insert("old <ci>old/");
                }
            for (unsigned k = 0; k < 3; k++) {
                web::state().clear();
                for (unsigned p = 0; p < pages; p++) {
                    string body = "<html><body>", u = vk::fmt("http://site.test/p%u", p);
                    for (unsigned f = 0; f < sizes[k]; f++) {
                        body += vk::fmt("<math id=\"f%u\"><cn>%u</cn></math>", f, k);
                        want.insert(u + vk::fmt("#f%u <math id=f%u><cn>%u//", f, f, k));
                    }
                    if (p + 1 < pages) body += vk::fmt("<a href=\"p%u\">next</a>", p + 1);
                    web::put(u, body + "</body></html>");
                }
                crawl(URL, c.scratch);
                c.add("crawls");
                c.add("pages", pages);
            }
            gTick = 0;
            vector<vector<Formula>> files;
            string bad;
            if (!stored(c.scratch, &files, &bad)) return c.fail("the stored harvest %s is not well-formed", bad.c_str());
            std::multiset<string> got;
            for (auto& f : files)
                for (auto& x : f) got.insert(x.url + " " + x.content);
            c.add("formulae", got.size());
            for (auto& w : want)
                if (got.count(w) != want.count(w)) return c.fail("%s is stored %zu times, expected %zu", w.c_str(), got.count(w), want.count(w));
            if (got.size() != want.size()) c.fail("%zu formulae stored, expected %zu", got.size(), want.size());
        }, 8);
        // any number of crawls that end in the same second
        run.forall("same second", 2, [&](Case& c) {
            const unsigned n = c.index ? (th ? 1100 : 300) : 40;
            gTick = 0;
            gClock = 1000000;
            c.desc(vk::fmt("%u crawls of a page with a formula in the same second", n));
            emptyDir(c.scratch);
            std::multiset<string> want, got;
            for (unsigned k = 0; k < n; k++) {
                web::state().clear();
                web::put(URL, vk::fmt("<html><body><math id=\"f\"><cn>%u</cn></math></body></html>", k));
                want.insert(string(URL) + vk::fmt("#f <math id=f><cn>%u//", k));
                crawl(URL, c.scratch);
                c.add("crawls");
                c.add("pages");
            }
            vector<vector<Formula>> files;
            string bad;
            if (!stored(c.scratch, &files, &bad)) return c.fail("the stored harvest %s is not well-formed", bad.c_str());
            for (auto& f : files)
                for (auto& x : f) got.insert(x.url + " " + x.content);
            c.add("formulae", got.size());
            for (auto& w : want)
                if (got.count(w) != 1) return c.fail("%s is stored %zu times", w.c_str(), got.count(w));
            if (got.size() != want.size()) c.fail("%zu formulae stored, expected %zu", got.size(), want.size());
        }, 1);
        // around the number of formulae that are stored together
        vector<vector<unsigned>> P = {{4999}, {5000}, {5001}, {10001}, {4999, 1}, {4999, 1, 1}, {5000, 1}, {2500, 2500, 2500, 2500}, {1, 5000, 1}, {3000, 3000, 3000}};
        run.forall("packs", P.size() * (th ? 2 : 1), [&](Case& c) {
            auto& p = P[c.index % P.size()];
            gTick = c.index / P.size();
            c.desc(vk::fmt("%zu pages, the first with %u formulae", p.size(), p[0]));
            emptyDir(c.scratch);
            web::state().clear();
            vector<Formula> want;
            for (size_t i = 0; i < p.size(); i++) {
                string u = vk::fmt("http://site.test/p%zu", i), body = "<html><body>";
                for (unsigned f = 0; f < p[i]; f++) {
                    body += vk::fmt("<math id=\"f%u\"><cn>%u</cn></math>\n", f, f);
                    want.push_back({u + vk::fmt("#f%u", f), vk::fmt("<math id=f%u><cn>%u//", f, f), false});
                }
                if (i + 1 < p.size()) body += vk::fmt("<a href=\"p%zu\">next</a>", i + 1);
                web::put(u, body);
            }
            crawl(URL, c.scratch);
            c.add("crawls");
            c.add("pages", p.size());
            gTick = 0;
            vector<vector<Formula>> files;
            string bad;
            if (!stored(c.scratch, &files, &bad)) return c.fail("the stored harvest %s is not well-formed", bad.c_str());
            std::multiset<string> w, g;
            for (auto& f : want) w.insert(f.url + f.content);
            for (auto& v : files) {
                for (auto& f : v) g.insert(f.url + f.content);
            }
            c.add("formulae", g.size());
            if (w != g) c.fail("%zu formulae are stored, %zu were found", g.size(), w.size());
        }, 1);
    }
    run.assumptions.push_back("pages come from a web in memory behind the interface of libcurl; libxml2 decides what is well-formed");
    return run.finish();
}
