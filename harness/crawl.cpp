// C17: the crawler obeys robots rules and limits, requests no page twice and
// reaches every page it may.
#include "vk.hpp"
#include "web.hpp"
#include "crawler/crawler/MwsCrawler.hpp"
#include <algorithm>
#include <set>
#include <sys/stat.h>
using std::map;
using std::pair;
using std::set;
using std::string;
using std::vector;
using vk::Case;

static const string SITE = "http://site.test";

// What a crawl is asked to do, and what the pages are
struct Crawl {
    string start = SITE + "/p0";
    int count = -1;             // no limit
    vector<string> exclusions;  // as given by the user
    map<string, set<string>> links;  // page -> pages of the site its markup links to
    set<string> broken;         // pages whose download fails
    vector<string> rules;       // prefixes of path and query that are not allowed
    vector<string> grey;        // prefixes that may be treated either way
};
static string target(const string& url) { return url.substr(SITE.size()); }
static bool prefixed(const vector<string>& v, const string& url) {
    for (auto& p : v)
        if (target(url).compare(0, p.size(), p) == 0) return true;
    return false;
}
static string names(const vector<string>& v) {
    string o;
    for (auto& x : v) o += (o.empty() ? "" : " ") + x;
    return o;
}
static void judge(Case& c, const Crawl& k, const vector<string>& log) {
    vector<string> pages;
    size_t robots = 0;
    for (auto& u : log) {
        if (u == SITE + "/robots.txt" && robots == 0) {
            robots++;
            if (!pages.empty()) return c.fail("the rules are read after a page was requested: %s", names(log).c_str());
            continue;
        }
        pages.push_back(u);
    }
    if (!robots) return c.fail("the rules of the site are not read: %s", names(log).c_str());
    c.state(vk::fnv(names(pages)));
    c.add("pages requested", pages.size());
    set<string> seen, offered = {k.start};
    for (auto& u : pages) {
        if (!seen.insert(u).second) return c.fail("%s is requested twice: %s", u.c_str(), names(pages).c_str());
        if (u.compare(0, SITE.size() + 1, SITE + "/")) return c.fail("%s is not on the site", u.c_str());
        if (u != k.start && prefixed(k.rules, u) && !prefixed(k.grey, u))
            return c.fail("%s is requested, it is not allowed: %s", u.c_str(), names(pages).c_str());
        if (!offered.count(u)) return c.fail("%s is requested, no page read before links to it: %s", u.c_str(), names(pages).c_str());
        auto l = k.links.find(u);
        if (l != k.links.end()) offered.insert(l->second.begin(), l->second.end());
    }
    if (k.count >= 0 && pages.size() > (size_t)k.count) return c.fail("%zu pages are requested, the limit is %d: %s", pages.size(), k.count, names(pages).c_str());
    if (k.count >= 0 && pages.size() == (size_t)k.count) return;
    // the limit was not reached, so everything reachable was requested
    set<string> reach = {k.start};
    vector<string> todo = {k.start};
    while (!todo.empty()) {
        string u = todo.back();
        todo.pop_back();
        if (!seen.count(u)) return c.fail("%s is not requested: %s", u.c_str(), names(pages).c_str());
        auto l = k.links.find(u);
        if (l == k.links.end() || k.broken.count(u)) continue;
        for (auto& v : l->second)
            if (!prefixed(k.rules, v) && !prefixed(k.grey, v) && reach.insert(v).second) todo.push_back(v);
    }
}
static void crawl(Case& c, const Crawl& k) {
    web::state().log.clear();
    {
        mws::Crawler crawler;
        crawler.addURLStart(k.start);
        if (k.count != -1) crawler.addCrawlerCount(k.count);
        for (auto& e : k.exclusions) crawler.dontCrawl(e);
        crawler.addDataDirectory(c.scratch.c_str());
        crawler.start();
    }
    c.add("crawls");
    judge(c, k, web::state().log);
    static int n = 0;
    if (++n % 64 == 0) {
        vk::rmTree(c.scratch);
        mkdir(c.scratch.c_str(), 0700);
    }
}

// ---------------------------------------------------------------- robots.txt
static string trim(string s) {
    while (!s.empty() && strchr(" \t\r", s.back())) s.pop_back();
    while (!s.empty() && strchr(" \t\r", s[0])) s.erase(0, 1);
    return s;
}
static string lower(string s) {
    for (auto& x : s) x = tolower(x);
    return s;
}
// The rules for a crawler without a name, in one of the readings of the
// standards: a blank line ends a record or not, an unknown field ends the list
// of agents or not, Allow is known or not.
struct Rules {
    vector<string> disallow, allow;
    bool forbids(const string& url) const {
        size_t d = 0, a = 0;
        for (auto& p : disallow)
            if (target(url).compare(0, p.size(), p) == 0) d = std::max(d, p.size());
        for (auto& p : allow)
            if (target(url).compare(0, p.size(), p) == 0) a = std::max(a, p.size());
        return d && d > a;
    }
};
static const unsigned READINGS = 8;
static Rules readRobots(const vector<string>& lines, unsigned reading) {
    bool blankEnds = reading & 1, unknownCloses = reading & 2, allowKnown = reading & 4;
    bool mine = false, open = false;  // the list of agents may go on
    Rules r;
    for (string l : lines) {
        bool comment = l.find('#') != string::npos;
        l = trim(l.substr(0, l.find('#')));
        if (l.empty() && !comment && blankEnds) mine = open = false;
        size_t colon = l.find(':');
        if (l.empty() || colon == string::npos) continue;
        string f = lower(trim(l.substr(0, colon))), v = trim(l.substr(colon + 1));
        if (f == "user-agent") {
            if (!open) mine = false;
            if (v == "*") mine = true;
            open = true;
            continue;
        }
        bool known = f == "disallow" || (f == "allow" && allowKnown);
        if (known || unknownCloses) open = false;
        if (mine && known && !v.empty()) (f == "allow" ? r.allow : r.disallow).push_back(v);
    }
    return r;
}

int main(int argc, char** argv) {
    vk::Run run(argc, argv, "C17", "model_checking");
    run.rule = "state = (web, request sequence); transition = one page request of the real crawler judged by the model of the rules; trace = one crawl";
    run.declare({"crawls", "pages requested"});
    run.transitionsCounter = "pages requested";
    run.tracesCounter = "crawls";
    run.caseTimeout = 60;
    bool th = run.thorough;
    auto page = [](unsigned i) { return SITE + vk::fmt("/p%u", i); };

    // every graph of pages x limit x excluded pages (by robots.txt, by the user)
    auto graphs = [&](const char* family, unsigned N, vector<int> counts, unsigned ways, unsigned chunk) {
        uint64_t nsub = 1u << (N - 1);
        uint64_t total = (1ull << (N * N)) * counts.size() * nsub * ways;
        run.forall(family, total, [&, N, counts, nsub, ways](Case& c) {
            vk::Digits d(c.index);
            uint64_t how = 2 - d.next(ways);
            uint64_t sub = d.next(nsub);
            Crawl k;
            k.count = counts[d.next(counts.size())];
            uint64_t adj = d.next(1ull << (N * N));
            web::state().clear();
            string robots = "User-agent: *\n";
            for (unsigned i = 1; i < N; i++)
                if (sub >> (i - 1) & 1) {
                    k.rules.push_back(vk::fmt("/p%u", i));
                    // by the rules of the site, by the user, or in turn
                    if (how == 0 || (how == 2 && i % 2)) robots += vk::fmt("Disallow: /p%u\n", i);
                    else k.exclusions.push_back(i % 2 ? vk::fmt("/p%u", i) : page(i));
                }
            web::put(SITE + "/robots.txt", robots, "text/plain");
            string show;
            for (unsigned i = 0; i < N; i++) {
                string body = "<html><body>";
                for (unsigned j = 0; j < N; j++)
                    if (adj >> (i * N + j) & 1) {
                        body += vk::fmt("<a href=\"%sp%u\">x</a>", (i + j) % 3 == 0 ? "/" : (i + j) % 3 == 1 ? "" : (SITE + "/").c_str(), j);
                        k.links[page(i)].insert(page(j));
                        show += vk::fmt(" %u->%u", i, j);
                    }
                web::put(page(i), body + "</body></html>");
            }
            c.desc(vk::fmt("links%s, limit %d, not allowed %s (%s)", show.c_str(), k.count, names(k.rules).c_str(), how == 0 ? "robots.txt" : how == 1 ? "user" : "both"));
            crawl(c, k);
        }, chunk);
    };
    graphs("graphs", 3, {-1, 0, 1, 2, 3, 4}, 3, 64);
    if (th) graphs("graphs of four", 4, {-1, 3}, 1, 64);

    // pages with the same link several times, and pages whose download breaks
    {
        const unsigned N = 3;
        run.forall("broken pages", 512 * 7 * 2 * 3, [&](Case& c) {
            vk::Digits d(c.index);
            unsigned adj = d.next(512), bad = d.next(7) + 1, twice = d.next(2), cut = d.next(3);
            web::state().clear();
            web::put(SITE + "/robots.txt", "", "text/plain");
            Crawl k;
            for (unsigned i = 0; i < N; i++) {
                string body = "<html><body>";
                for (unsigned t = 0; t <= twice; t++)
                    for (unsigned j = 0; j < N; j++)
                        if (adj >> (i * N + j) & 1) {
                            body += vk::fmt("<a href=\"p%u\">x</a>", j);
                            k.links[page(i)].insert(page(j));
                        }
                body += "</body></html>";
                web::put(page(i), body);
                if (bad >> i & 1) {
                    k.broken.insert(page(i));
                    web::state().site[page(i)].failAfter = cut == 0 ? 0 : cut == 1 ? (long)body.size() / 2 : (long)body.size();
                    if (cut == 0) web::state().site[page(i)].header = "";
                }
            }
            c.desc(vk::fmt("adjacency %u, broken pages %u, links %s, cut %u", adj, bad, twice ? "doubled" : "single", cut));
            crawl(c, k);
        }, 64);
    }

    // every list of links in a page
    {
        struct Link {
            string markup;
            vector<string> to;
        };
        vector<Link> L = {
            {"<a href=\"p1\">x</a>", {"/p1"}},
            {"<a href='/p2'>x</a>", {"/p2"}},
            {"<a href=p3>x</a>", {"/p3"}},
            {"<A HREF=\"/p4\">x</A>", {"/p4"}},
            {"<a class=\"q\" href=\"/p5\" id=\"r\">x</a>", {"/p5"}},
            {"<a\nhref = \"http://site.test/p6\">x</a>", {"/p6"}},
            {"<a href=\"//site.test/p7\">x</a>", {"/p7"}},
            {"<a href=\"p1#part\">x</a>", {"/p1"}},
            {"<a href=\"#part\">x</a>", {}},
            {"<a href=\"\">x</a>", {}},
            {"<a name=\"n\">x</a>", {}},
            {"<a href=\"/p8?a=1\">x</a>", {"/p8?a=1"}},
            {"<a href=\"/p8?a=2\">x</a>", {"/p8?a=2"}},
            {"<a href=\"/p8\">x</a>", {"/p8"}},
            {"<a href=\"/p9?a=1&amp;b=2\">x</a>", {"/p9?a=1&b=2"}},
            {"<a href=\"/d/e\">x</a>", {"/d/e"}},
            {"<a href=\"d/../p10\">x</a>", {"/p10"}},
            {"<a href=\"/d/\">x</a>", {"/d/"}},
            {"<a href=\"/\">x</a>", {"/"}},
            {"<a href=\"http://SITE.test/p11\">x</a>", {"/p11"}},
            {"<a href=\"http://other.test/p1\">x</a>", {}},
            {"<a href=\"http://sub.site.test/p1\">x</a>", {}},
            {"<a href=\"http://site.test.other/p1\">x</a>", {}},
            {"<a href=\"mailto:a@site.test\">x</a>", {}},
            {"<a href=\"javascript:f()\">x</a>", {}},
            {"<a href=\"/p0\">x</a>", {"/p0"}},
            {"<!-- <a href=\"/no1\">x</a> -->", {}},
            {"<abbr href=\"/no2\">x</abbr>", {}},
            {"<p href=\"/no3\"> a href=\"/no4\" </p>", {}},
            {"<ul><li><b><a href=\"/p12\"><i>x</i></a></b></ul>", {"/p12"}},
            {"<a href=\"/p13\"><a href=\"/p14\">x", {"/p13", "/p14"}},
            {"<a href=\" /p15 \">x</a>", {"/p15"}},
            {"<math><ci>x</ci></math>", {}},
            {"<a href=\"/%41\">x</a>", {"/A"}},
        };
        unsigned A = L.size();
        unsigned len = th ? 3 : 2;
        run.forall("links", vk::countSequences(A, len) * 2, [&, A, len](Case& c) {
            unsigned piece = c.index % 2;
            auto seq = vk::sequence(c.index / 2, A, len);
            web::state().clear();
            web::put(SITE + "/robots.txt", "", "text/plain");
            web::state().piece = piece ? 3 : 0;
            Crawl k;
            k.start = SITE + "/p0";
            string body = "<html><body>";
            for (auto i : seq) {
                body += L[i].markup;
                for (auto& t : L[i].to) k.links[SITE + "/p0"].insert(SITE + t);
            }
            web::put(SITE + "/p0", body + "</body></html>", "text/html; charset=utf-8");
            c.desc("page " + body);
            crawl(c, k);
        }, 64);
    }

    // every small robots.txt
    {
        vector<string> A = {"User-agent: *", "User-agent: other", "user-agent:*", "Disallow: /a", "Disallow: /b/", "Disallow:", "Disallow: /c?x=1", "disallow:/d # all", "# note", "", "Crawl-delay: 1", "Allow: /a/ok", "Disallow: /", "Disallow: /a "};
        vector<string> T = {"/a", "/a/x", "/a/ok", "/a?x=1", "/ab", "/b", "/b/", "/b/x", "/bc", "/c", "/c?x=1", "/c?x=12", "/c?y=1", "/cc?x=1", "/d", "/e"};
        unsigned len = th ? 4 : 3;
        run.forall("robots files", vk::countSequences(A.size(), len) * 3, [&, len](Case& c) {
            unsigned form = c.index % 3;  // LF, CRLF, LF without the last one
            auto seq = vk::sequence(c.index / 3, A.size(), len);
            vector<string> lines;
            string text;
            for (size_t i = 0; i < seq.size(); i++) {
                lines.push_back(A[seq[i]]);
                text += A[seq[i]];
                if (form != 2 || i + 1 < seq.size()) text += form == 1 ? "\r\n" : "\n";
            }
            web::state().clear();
            web::put(SITE + "/robots.txt", text, "text/plain");
            string body = "<html><body>";
            for (auto& t : T) body += "<a href=\"" + t + "\">x</a>";
            web::put(SITE + "/p0", body);
            c.desc("robots.txt: " + vk::jstr(text));
            web::state().log.clear();
            {
                mws::Crawler crawler;
                crawler.addURLStart(SITE + "/p0");
                crawler.addDataDirectory(c.scratch.c_str());
                crawler.start();
            }
            c.add("crawls");
            vector<string> log = web::state().log;
            c.add("pages requested", log.size() - 1);
            c.state(vk::fnv(names(log)));
            if (log.empty() || log[0] != SITE + "/robots.txt") return c.fail("the rules are not read first");
            for (size_t i = 1; i < log.size(); i++)
                for (size_t j = 0; j < i; j++)
                    if (log[i] == log[j]) return c.fail("%s is requested twice", log[i].c_str());
            vector<Rules> R;
            for (unsigned r = 0; r < READINGS; r++) R.push_back(readRobots(lines, r));
            for (auto& t : T) {
                unsigned no = 0;
                for (auto& r : R) no += r.forbids(SITE + t);
                bool got = std::count(log.begin(), log.end(), SITE + t);
                if (no == READINGS && got) return c.fail("%s is requested, it is not allowed", t.c_str());
                if (no == 0 && !got) return c.fail("%s is not requested, it is allowed", t.c_str());
            }
            static int n = 0;
            if (++n % 64 == 0) vk::rmTree(c.scratch), mkdir(c.scratch.c_str(), 0700);
        }, 128);
    }

    // addresses and rules that share a beginning, an end or their characters: every pair
    {
        vector<string> T = {"/f", "/f?g", "/fg", "/f%3Fg", "/f:g", "/f:g:h", "/f:/g", "/g", "/f?g=h:i", "/f//g", "/f/g", "/f;g", "/f?g?h", "/f?gh", "/fgh", "/f=g", "/" + string(300, 'f'), "/" + string(299, 'f'), "/" + string(255, 'f') + "?g", "/" + string(300, 'f') + "/g"};
        unsigned N = T.size();
        run.forall("similar addresses", (uint64_t)N * N * 2, [&, N](Case& c) {
            vk::Digits d(c.index);
            unsigned i = d.next(N), j = d.next(N), rule = d.next(2);
            Crawl k;
            k.start = SITE + "/p0";
            web::state().clear();
            string robots = "User-agent: *\n";
            if (rule) robots += "Disallow: " + T[j] + "\n", k.rules = {T[j]};
            web::put(SITE + "/robots.txt", robots, "text/plain");
            string body = "<html><body>";
            for (auto& t : T) {
                if (!rule && t != T[i] && t != T[j]) continue;
                body += "<a href=\"" + t + "\">x</a>";
                k.links[SITE + "/p0"].insert(SITE + t);
            }
            web::put(SITE + "/p0", body + "</body></html>", "text/html; charset=utf-8");
            c.desc("links " + T[i] + " and " + T[j] + (rule ? ", the second is not allowed" : ""));
            crawl(c, k);
        }, 32);
    }

    // what the user excludes
    {
        struct Ex {
            string text;
            string rule;  // "" excludes nothing here
        };
        vector<Ex> X = {{"/a", "/a"}, {"http://site.test/a", "/a"}, {"/b/", "/b/"}, {"http://other.test/", ""}, {"/c?x=1", "/c?x=1"}, {"d", "/d"}, {"http://SITE.test/e#f", "/e"}, {"/", "/"}};
        vector<string> T = {"/a", "/a/x", "/a?x=1", "/ab", "/b", "/b/x", "/bc", "/c", "/c?x=1", "/c?y=1", "/d", "/e", "/f"};
        vector<string> R = {"", "User-agent: *\nDisallow: /f\n", "User-agent: *\nDisallow: /\n"};
        unsigned len = th ? 4 : 3;
        run.forall("exclusions", vk::countSequences(X.size(), len) * R.size(), [&, len](Case& c) {
            unsigned r = c.index % R.size();
            auto seq = vk::sequence(c.index / R.size(), X.size(), len);
            web::state().clear();
            web::put(SITE + "/robots.txt", R[r], "text/plain");
            Crawl k;
            string body = "<html><body>";
            for (auto& t : T) {
                body += "<a href=\"" + t + "\">x</a>";
                k.links[SITE + "/p0"].insert(SITE + t);
            }
            web::put(SITE + "/p0", body);
            if (r == 1) k.rules.push_back("/f");
            if (r == 2) k.rules.push_back("/");
            for (auto i : seq) {
                k.exclusions.push_back(X[i].text);
                if (!X[i].rule.empty()) k.rules.push_back(X[i].rule);
            }
            // a rule for a directory may be taken to mean the directory too
            for (auto& p : vector<string>(k.rules))
                if (p == "/b/") k.grey.push_back("/b");
            c.desc(vk::fmt("exclusions %s, robots.txt %u", names(k.exclusions).c_str(), r));
            crawl(c, k);
        }, 64);
    }

    // every kind of start address
    {
        struct S {
            string start, first;  // first: the page that is requested, "" none
        };
        vector<S> V = {{"http://site.test/p0", "/p0"}, {"http://site.test", "/"}, {"http://site.test/", "/"}, {"http://SITE.TEST/p0", "/p0"}, {"http://site.test/p0#x", "/p0"}, {"http://site.test/p0?q=1", "/p0?q=1"}, {"  http://site.test/p0  ", "/p0"}, {"http://site.test/d/p0", "/d/p0"}, {"http://site.test/d/e/p0?q=1", "/d/e/p0?q=1"}, {"http://site.test/d/", "/d/"}, {"", ""}, {"nonsense", ""}, {"/p0", ""}, {"http://", ""}, {"http://site.test:99999999/", ""}};
        vector<vector<string>> X = {{}, {"/p1"}, {"http://site.test/p1", ""}, {"::"}};
        run.forall("start addresses", V.size() * X.size() * 4, [&](Case& c) {
            vk::Digits d(c.index);
            const S& s = V[d.next(V.size())];
            const auto& x = X[d.next(X.size())];
            int count = (int)d.next(4) - 1;
            web::state().clear();
            web::put(SITE + "/robots.txt", "", "text/plain");
            Crawl k;
            for (auto f : {"/p0", "/", "/p0?q=1"}) {
                web::put(SITE + f, "<a href=\"p1\">x</a><a href=\"/p2\">x</a><a href=\"p0\">x</a>");
                k.links[SITE + f] = {SITE + "/p1", SITE + "/p2", SITE + "/p0"};
            }
            for (string f : {"/d/p0", "/d/e/p0?q=1", "/d/"}) {
                string dir = SITE + f.substr(0, f.rfind('/') + 1);
                web::put(SITE + f, "<a href=\"p3\">x</a><a href=\"/p2\">x</a><a href=\"../p4\">x</a><a href=\"/p5\">x</a>");
                string up = dir.substr(0, dir.rfind('/', dir.size() - 2) + 1);
                k.links[SITE + f] = {dir + "p3", SITE + "/p2", up + "p4", SITE + "/p5"};
            }
            // rules for robots are those at the root of the site
            web::put(SITE + "/robots.txt", "User-agent: *\nDisallow: /p5\n", "text/plain");
            k.rules.push_back("/p5");
            k.count = count;
            k.exclusions = x;
            for (auto& e : x)
                if (e.find("/p1") != string::npos) k.rules.push_back("/p1");
            c.desc(vk::fmt("start %s, exclusions %s, limit %d", s.start.c_str(), names(x).c_str(), count));
            web::state().log.clear();
            {
                mws::Crawler crawler;
                crawler.addURLStart(s.start);
                if (count != -1) crawler.addCrawlerCount(count);
                for (auto& e : x) crawler.dontCrawl(e);
                crawler.addDataDirectory(c.scratch.c_str());
                crawler.start();
            }
            c.add("crawls");
            if (s.first.empty()) {
                c.state(vk::fnv(names(web::state().log)));
                if (!web::state().log.empty()) c.fail("an invalid address leads to requests: %s", names(web::state().log).c_str());
                return;
            }
            k.start = SITE + s.first;
            judge(c, k, web::state().log);
        });
    }

    // several crawls of one process do not influence each other
    {
        run.forall("crawls in a row", 8 * 8 * 8, [&](Case& c) {
            vk::Digits d(c.index);
            unsigned a[3] = {(unsigned)d.next(8), (unsigned)d.next(8), (unsigned)d.next(8)};
            c.desc(vk::fmt("crawls %u %u %u", a[0], a[1], a[2]));
            for (unsigned i : a) {
                if (c.failed) return;
                web::state().clear();
                Crawl k;
                bool rules = i & 1, limit = i & 2, ring = i & 4;
                web::put(SITE + "/robots.txt", rules ? "User-agent: *\nDisallow: /p2\n" : "", "text/plain");
                if (rules) k.rules.push_back("/p2");
                else k.exclusions.push_back("/p3"), k.rules.push_back("/p3");
                k.count = limit ? 2 : -1;
                for (unsigned p = 0; p < 4; p++) {
                    unsigned t = ring ? (p + 1) % 4 : 3 - p;
                    web::put(page(p), vk::fmt("<a href=\"p%u\">x</a><a href=\"p1\">x</a>", t));
                    k.links[page(p)] = {page(t), page(1)};
                }
                crawl(c, k);
            }
        }, 32);
    }
    run.assumptions.push_back("pages come from a web in memory behind the interface of libcurl; one host, no redirects");
    return run.finish();
}
