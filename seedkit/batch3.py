import os
from mk import make
WEB = open('/verif/harness/web.hpp').read()
make('s14_static_query','C14',
 [('src/mws/daemon/HarvestQueryHandler.cpp','''    vector<encoded_token_t> encodedQuery;
''','''    // keeps its memory between queries
    static vector<encoded_token_t> encodedQuery;
    encodedQuery.clear();
''')],
 r'''#include "kit.hpp"
#include "mws/daemon/HarvestQueryHandler.hpp"
#include <thread>
#include <atomic>
using namespace kit;
int main() {
    mws::parser::initxmlparser();
    if (system("mkdir h")) return 99;
    string d;
    for (int i = 0; i < 40; i++) d += expr("u" + std::to_string(i), "<m:apply><m:plus/><m:ci>x" + std::to_string(i) + "</m:ci></m:apply>");
    FILE* f = fopen("h/a.harvest", "w"); d = harvest(d); fwrite(d.data(), 1, d.size(), f); fclose(f);
    index::HarvesterConfiguration c; c.paths.push_back("h"); c.recursive = false;
    daemon::HarvestQueryHandler h(c);
    std::atomic<int> bad(0);
    vector<std::thread> ts;
    for (int t = 0; t < 4; t++) ts.emplace_back([&, t] {
        for (int i = 0; i < 4000; i++) {
            int k = (t * 7 + i) % 40;
            std::unique_ptr<types::Query> q(parse("<m:apply><m:plus/><m:ci>x" + std::to_string(k) + "</m:ci></m:apply>", ""));
            std::unique_ptr<MwsAnswset> a((MwsAnswset*)h.handleQuery(q.get()));
            if (a->total != 1 || a->answers.front()->uri != "u" + std::to_string(k)) bad++;
        }
    });
    for (auto& t : ts) t.join();
    return check(bad == 0, "every query gets its own answer");
}
''',"two queries handled at the same time by a server without stored index","one query is answered with the hits of the other, or crashes")
make('s15_counted_late','C15',
 [('src/common/thread/ThreadWrapper.cpp','''        alive++;

        pthread_attr_destroy(&attr);''','''        pthread_attr_destroy(&attr);'''),
  ('src/common/thread/ThreadWrapper.cpp','''    (data->start_routine)(data->arg);

    pthread_mutex_lock(&ThreadWrapper::lock);
''','''    pthread_mutex_lock(&ThreadWrapper::lock);
    alive++;
    pthread_mutex_unlock(&ThreadWrapper::lock);

    (data->start_routine)(data->arg);

    pthread_mutex_lock(&ThreadWrapper::lock);
''')],
 r'''#include "kit.hpp"
#include "common/thread/ThreadWrapper.hpp"
#include <pthread.h>
using namespace kit;
static volatile int done;
static void* work(void*) { usleep(2000); __sync_fetch_and_add(&done, 1); return nullptr; }
int main() {
    int bad = 0;
    for (int i = 0; i < 200 && !bad; i++) {
        done = 0;
        ThreadWrapper::init();
        for (int k = 0; k < 3; k++) ThreadWrapper::run(work, nullptr);
        ThreadWrapper::clean();
        bad = done != 3;
        usleep(10000);
    }
    return check(!bad, "clean() waits for every thread started");
}
''',"clean() is called before a thread which was just started has run","clean() returns while threads are still working")
make('s16_same_url_twice','C16',
 [('src/crawler/daemon/CrawlerDaemon.cpp','''        (*sharedQueue).sharedQueue.push(qNode);
''','''        // the form is often sent twice
        if (sharedQueue->sharedQueue.empty() ||
            sharedQueue->sharedQueue.back().urlstart != qNode.urlstart) {
            sharedQueue->sharedQueue.push(qNode);
        }
''')],
 r'''#include "kit.hpp"
#include "crawler/daemon/CrawlerDaemon.hpp"
#include <arpa/inet.h>
#include <sys/socket.h>
using namespace kit;
static void post(int port, const string& body) {
    int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(s, (sockaddr*)&a, sizeof a)) exit(99);
    string r = "POST / HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    send(s, r.data(), r.size(), 0);
    char b[4096]; while (recv(s, b, sizeof b, 0) > 0) {}
    close(s);
}
int main() {
    SharedQueue sq;
    CrawlerDaemon d;
    int port = 0;
    for (int i = 0; i < 50; i++) { port = 20000 + (getpid() + i * 37) % 9000; if (d.start(port, &sq) == 0) break; port = 0; }
    if (!port) return 99;
    post(port, "urlstart=http://h/&count=1");
    post(port, "urlstart=http://h/&count=500");
    for (int i = 0; i < 200; i++) { pthread_mutex_lock(&sq.lock); size_t n = sq.sharedQueue.size(); pthread_mutex_unlock(&sq.lock); if (n == 2) return 0; usleep(10000); }
    return check(false, "both requests are in the queue");
}
''',"two requests for the same start page while the crawler is busy","the second request (with other options) is lost")
CR = r'''#include "kit.hpp"
#include "web.hpp"
#include "crawler/crawler/MwsCrawler.hpp"
#include <dirent.h>
#include <thread>
using namespace kit;
static string stored() {
    string all;
    DIR* d = opendir("out");
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') {
        FILE* f = fopen((string("out/") + e->d_name).c_str(), "r"); char b[65536]; size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n);
        fclose(f);
    }
    closedir(d);
    return all;
}
static int count(const string& s, const string& w) { int n = 0; for (size_t p = 0; (p = s.find(w, p)) != string::npos; p += w.size()) n++; return n; }
static string math(const string& x) { return "<math><semantics><annotation-xml encoding=\"MathML-Content\"><ci>" + x + "</ci></annotation-xml></semantics></math>"; }
'''
make('s17_queries_ignored','C17',
 [('src/crawler/crawler/MwsCrawler.cpp','    return url.path() + "?" + url.query();','    return url.path();')],
 CR + r'''
int main() {
    if (system("mkdir out")) return 99;
    web::put("http://h/", "<html><body><a href='/a?x=1'>1</a><a href='/a?x=2'>2</a></body></html>");
    web::put("http://h/a?x=1", "<html><body>1</body></html>");
    web::put("http://h/a?x=2", "<html><body>2</body></html>");
    { mws::Crawler c; c.addURLStart("http://h/"); c.addDataDirectory("out"); c.start(); }
    std::set<string> got(web::state().log.begin(), web::state().log.end());
    return check(got.count("http://h/a?x=1") && got.count("http://h/a?x=2"), "pages which differ in the query are both visited");
}
''',"two pages of a site whose addresses differ only after the question mark","only the first one is visited",{'web.hpp':WEB})
make('s18_pack_stored_again','C18',
 [('src/crawler/crawler/MwsCrawler.cpp','''    {
        storeMath(currentMathFormulae);
        currentMathFormulae.clear();
    }
}

/**
 * Implementation of cleanupLinks''','''    {
        storeMath(currentMathFormulae);
        currentMathFormulae.resize(currentMathFormulae.size() % MathPackLimit);
    }
}

/**
 * Implementation of cleanupLinks''')],
 CR + r'''
int main() {
    if (system("mkdir out")) return 99;
    string a = "<html><body><a href='/b'>b</a>", b = "<html><body>";
    for (int i = 0; i < 4999; i++) a += math("a" + std::to_string(i));
    for (int i = 0; i < 3; i++) b += math("b" + std::to_string(i));
    web::put("http://h/", a + "</body></html>");
    web::put("http://h/b", b + "</body></html>");
    { mws::Crawler c; c.addURLStart("http://h/"); c.addDataDirectory("out"); c.start(); }
    string s = stored();
    int bad = check(count(s, ">b2<") == 1, "the last formula is stored once");
    bad |= check(count(s, ">a0<") == 1, "the first formula is stored once");
    return bad | check(count(s, ">a1<") == 1, "the second formula is stored once");
}
''',"a crawl whose formulas exceed a pack by less than a page has","the first formulas are stored twice",{'web.hpp':WEB})
make('s27_limit_stays','C27',
 [('src/crawler/crawler/MwsCrawler.cpp','''        if (qNode.count != -1) newCrawler.addCrawlerCount(qNode.count);
''','''        static int limit = INT_MAX;
        if (qNode.count != -1) limit = qNode.count;
        newCrawler.addCrawlerCount(limit);
''')],
 CR + r'''
int main() {
    if (system("mkdir out")) return 99;
    web::put("http://h/", "<html><body><a href='/a'>a</a></body></html>");
    web::put("http://h/a", "<html><body>x</body></html>");
    web::put("http://g/", "<html><body><a href='/a'>a</a></body></html>");
    web::put("http://g/a", "<html><body>x</body></html>");
    static SharedQueue sq;
    QueueNode n; n.urlstart = "http://h/"; n.count = 1; n.dontcrawlnr = 0; sq.sharedQueue.push(n);
    n.urlstart = "http://g/"; n.count = -1; sq.sharedQueue.push(n);
    std::thread([] { mws::Crawler::run(&sq, "out"); }).detach();
    for (int i = 0; i < 40; i++) usleep(50000);
    std::set<string> got(web::state().log.begin(), web::state().log.end());
    int bad = check(!got.count("http://h/a"), "the first crawl is limited to one page") | check(got.count("http://g/a"), "the second one is not");
    fflush(nullptr); _exit(bad);
}
''',"a request without a limit after one with a limit","the limit of the earlier request holds for the later one",{'web.hpp':WEB})
DOC = r'''#include "kit.hpp"
#include "crawler/parser/MathParser.hpp"
using namespace kit;
static void put(const char* n, const string& d) { FILE* f = fopen(n, "w"); fwrite(d.data(), 1, d.size(), f); fclose(f); }
'''
make('s19_text_nodes_first','C19',
 [('src/crawler/parser/MathParser.cpp','''    xmlUnsetProp(node, BAD_CAST "id");
    xmlUnsetProp(node, BAD_CAST "xref");
''','''    if (xmlUnsetProp(node, BAD_CAST "id") != 0) return;
    xmlUnsetProp(node, BAD_CAST "xref");
''')],
 DOC + r'''
int main() {
    put("d.xml", "<doc><math id='m1'><semantics><annotation-xml encoding='MathML-Content'><apply id='a' xref='b'><plus/><ci id='c' xref='d'>x</ci><apply><times/><ci xref='e' id='f'>y</ci></apply></apply></annotation-xml></semantics></math></doc>");
    crawler::parser::HarvesterConfiguration c; c.data_id = "0";
    auto h = crawler::parser::createHarvestFromDocument("d.xml", c);
    if (check(h.contentMathElements.size() == 1, "one formula")) return 1;
    return check(h.contentMathElements[0].find("xref") == string::npos, "no references remain");
}
''',"an operator or inner element without id, around elements with references","references (and namespaces) stay in the harvest below elements without id")

make('s24_hash_in_symbol','C24',
 [('src/mws/analytics/analytics.cpp',"    std::size_t separator_pos = meaning.find('#');","    std::size_t separator_pos = meaning.rfind('#');")],
 r'''#define main analytics_main
#include "mws/analytics/analytics.cpp"
#undef main
#include "kit.hpp"
static std::vector<std::string> seen;
namespace mws { namespace analytics {
AnalyticsStatus analyze_begin(const index_handle_t*, const inode_t*) { return ANALYTICS_OK; }
AnalyticsStatus analyze_expression(const types::CmmlToken* t, uint32_t) { seen.push_back(t->getTag() + "|" + t->getTextContent()); return ANALYTICS_OK; }
void analyze_end() {}
} }
int main() {
    std::string doc = kit::harvest(kit::expr("u", "<m:csymbol>a#b</m:csymbol>"));
    if (system("mkdir h ix")) return 99;
    FILE* f = fopen("h/a.harvest", "w"); fwrite(doc.data(), 1, doc.size(), f); fclose(f);
    mws::index::IndexConfiguration c;
    c.harvester.paths.push_back("h"); c.harvester.recursive = false;
    c.dataPath = "ix"; c.deleteOldData = true;
    if (mws::index::createCompressedIndex(c) != 0) return 99;
    mws::index::LoadingOptions o; o.includeHits = false;
    IndexLoader l("ix", o);
    mws::analytics::analyze(&l);
    return kit::check(seen.size() == 1 && seen[0] == "csymbol|a#b", "the symbol is analysed as it was stored");
}
''',"a symbol whose name contains the character which separates it from its tag","it is reported with a wrong tag and name")
make('s25_second_url','C25',
 [('src/crawler/harvests2json.cpp','''        (doc->idMappings[fmId]).push_back(hit);
''','''        std::vector<Hit*>& hits = doc->idMappings[fmId];
        if (hits.empty() || hits.back()->uri == hit->uri) {
            hits.push_back(hit);
        } else {
            delete hit;
        }
''')], None, "a formula which occurs in two places of one document", "only the first place is reported",
 {'demo.sh': r'''#!/bin/bash
R=$PWD
T=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$T"' EXIT
cd "$T" && mkdir h || exit 99
cat > h/a.harvest <<'E'
<?xml version="1.0"?>
<mws:harvest xmlns:mws="http://search.mathweb.org/ns" xmlns:m="http://www.w3.org/1998/Math/MathML">
<mws:data mws:data_id="1"><id>d</id><text>t</text><metadata><title>x</title></metadata></mws:data>
<mws:expr url="11" mws:data_id="1"><m:ci>x</m:ci></mws:expr>
<mws:expr url="22" mws:data_id="1"><m:ci>x</m:ci></mws:expr>
</mws:harvest>
E
timeout 60 "$R/_build/mws-index" -I h -o ix >/dev/null 2>&1 || exit 99
timeout 60 "$R/_build/harvests2json" -I ix -H h >/dev/null 2>&1 || exit 98
cat h/a.harvest.json
grep -q '"11"' h/a.harvest.json && grep -q '"22"' h/a.harvest.json
'''})
PROG = r'''#!/bin/bash
R=$PWD
T=$(mktemp -d /tmp/demoXXXXXX)
trap 'rm -rf "$T"' EXIT
cd "$T" && mkdir h k || exit 99
har() { echo "<?xml version=\"1.0\"?><mws:harvest xmlns:mws=\"http://search.mathweb.org/ns\" xmlns:m=\"http://www.w3.org/1998/Math/MathML\"><mws:expr url=\"$1\"><m:ci>x</m:ci></mws:expr></mws:harvest>"; }
har u1 > h/a.harvest
har u2 > k/a.harvest
'''
make('s28_missing_directory','C28',
 [('src/mws/index/IndexBuilder.cpp','''        if (foreachEntryInDirectory(dirPath, fileCallback, recursive) != 0) {
            continue;''','''        if (foreachEntryInDirectory(dirPath, fileCallback, recursive) != 0) {
            break;''')], None, "several directories of which one cannot be read", "the directories after it are not indexed",
 {'demo.sh': PROG + r'''timeout 60 "$R/_build/mws-index" -I h -I missing -I k -o ix > log 2>&1
cat log
[ "$(grep -c '1 loaded' log)" = 2 ]
'''})
make('s28_old_data_deleted','C28',
 [('src/mws/mwsd.cpp','''                createCompressedIndex(indexConfig);
''','''                indexConfig.deleteOldData = true;
                createCompressedIndex(indexConfig);
''')], None, "mwsd finds stored data which it cannot load, without --delete-old-data", "the stored data is deleted",
 {'demo.sh': PROG + r'''timeout 60 "$R/_build/mws-index" -I h -o ix > log 2>&1 || exit 99
for f in $(find ix -name '*memsector*'); do truncate -s 100 $f; done
cp -a ix keep
timeout -s TERM 3 "$R/_build/mwsd" -D ix -I k -p $((20000 + $$ % 9000)) > log 2>&1
cat log
for f in $(cd keep && find . -name '*memsector*'); do cmp keep/$f ix/$f || exit 1; done
'''})
