import os
from mk import make
WEB = open('/verif/harness/web.hpp').read()
make('s29_robots_beside_page','C17',
 [('src/crawler/types/Robotstxt.cpp','aStartUrl.GetOrigin().Resolve("/robots.txt")','aStartUrl.Resolve("robots.txt")')],
 r'''#include "kit.hpp"
#include "web.hpp"
#include "crawler/crawler/MwsCrawler.hpp"
using namespace kit;
int main() {
    if (system("mkdir out")) return 99;
    web::put("http://h/robots.txt", "User-agent: *\nDisallow: /private\n", "text/plain");
    web::put("http://h/docs/index", "<html><body><a href='/private/x'>1</a><a href='a'>2</a></body></html>");
    { mws::Crawler c; c.addURLStart("http://h/docs/index"); c.addDataDirectory("out"); c.start(); }
    std::set<string> got(web::state().log.begin(), web::state().log.end());
    return check(!got.count("http://h/private/x") && got.count("http://h/docs/a"), "the rules of the site hold for a crawl which starts below a directory");
}
''',"a crawl whose start address lies below a directory, on a site with rules","pages the site excludes are requested, as its robots.txt is not found",{'web.hpp':WEB})
make('s30_many_hits','C04',
 [('src/mws/index/index.h','''    memsector_writer_t* mswr, uint32_t num_hits, uint32_t formula_id) {''','''    memsector_writer_t* mswr, uint16_t num_hits, uint32_t formula_id) {''')],
 r'''#include "kit.hpp"
using namespace kit;
int main() {
    mws::parser::initxmlparser();
    if (system("mkdir h i")) return 99;
    const int N = 65600;
    string b;
    for (int i = 0; i < N; i++) b += expr("u" + std::to_string(i), "<m:ci>x</m:ci>");
    FILE* f = fopen("h/a.harvest", "w"); b = harvest(b); fwrite(b.data(), 1, b.size(), f); fclose(f);
    index::IndexConfiguration c;
    c.harvester.paths.push_back("h"); c.harvester.recursive = false; c.dataPath = "i"; c.deleteOldData = true;
    if (index::createCompressedIndex(c) != 0) return 99;
    index::IndexLoader l("i");
    Result r = kit::ask<index::IndexAccessor>(l.getIndexHandle(), l.getDbQueryManager(), l.getMeaningDictionary(), "<m:ci>x</m:ci>", "totalreq=\"100000\" answsize=\"5\"");
    return check(r.total == N && r.hits.size() == 5, "all hits of a frequent formula are counted");
}
''',"a formula which occurs more than 65535 times in a stored index","a stored index counts and returns too few hits, or none, unlike the index in memory")
make('s31_far_children','C24',
 [('src/mws/index/IndexAccessor.hpp','''            off = reinterpret_cast<LongNode*>(_it._node)->data[_it._index].off;
            break;''','''            off = (memsector_off_t)reinterpret_cast<LongNode*>(_it._node)
                      ->data[_it._index]
                      .off;
            break;'''),
  ('src/mws/index/IndexAccessor.hpp','''        case LONG_INTERNAL_NODE:
            tok =
                reinterpret_cast<LongNode*>(_it._node)->data[_it._index].token;
            break;
''','''        case LONG_INTERNAL_NODE:
            tok = _it._node->data[_it._index].token;
            break;
''')],
 r'''#include "kit.hpp"
#include "mws/index/IndexIterator.hpp"
using namespace kit;
int main() {
    // a node with long offsets, which the writer chooses for distant children
    memsector_writer_t w;
    memsector_handle_t h;
    if (memsector_create(&w, "m") != 0) return 99;
    uint64_t leaf[3];
    for (int i = 0; i < 3; i++) leaf[i] = memsector_write_leaf(&w, i + 1, i + 1);
    uint64_t cur = memsector_get_current_offset(&w);
    memsector_write_inode_begin(&w, 3, cur + 1);
    for (int i = 0; i < 3; i++) memsector_write_inode_encoded_token_entry(&w, encoded_token(200 + i, 0), cur - leaf[i]);
    memsector_write_inode_end(&w);
    if (memsector_save(&w, cur) != 0 || memsector_load(&h, "m") != 0) return 99;
    index_handle_t ix;
    ix.ms = h.ms;
    ix.root = memsector_get_root(&h);
    typedef index::IndexAccessor A;
    bool ok = true;
    int n = 0;
    index::IndexIterator<A> it(&ix);
    while (auto* x = it.next()) {
        n++;
        ok = ok && (int)A::getHitsCount(x) == n && it.getPath().size() == 1 && A::getToken(it.getPath().back()).id == 199u + n;
    }
    return check(ok && n == 3, "a walk over a node with distant children yields its formulae");
}
''',"an index with children 16 GB away from their node (or written as such)","walking the index reports wrong symbols")
make('s32_range_ends_early','C05',
 [('src/mws/query/SearchContext.cpp','''        iterator->next();
        encoded_token_t tok = Accessor::getToken(*iterator);
        while (!validSubst(tok) && iterator->hasNext()) {
            iterator->next();
            tok = Accessor::getToken(*iterator);
        }
''','''        iterator->next();
        encoded_token_t tok = Accessor::getToken(*iterator);
        // the numbers in the index follow each other
        while (isCmmlNumber(tok) && !isInRange(tok) && iterator->hasNext()) {
            iterator->next();
            tok = Accessor::getToken(*iterator);
        }
''')],
 r'''#include "kit.hpp"
using namespace kit;
int main() {
    mws::parser::initxmlparser();
    string b;
    const char* v[] = {"<m:cn>1</m:cn>", "<m:ci>aa</m:ci>", "<m:cn>2</m:cn>", "<m:ci>bb</m:ci>", "<m:cn>3</m:cn>"};
    for (auto x : v) b += expr(x == v[0] ? "u" : "v", string("<m:apply><m:minus/>") + x + "</m:apply>");
    Mem m(harvest(b));
    Result r = m.ask("<m:apply><m:minus/><mws:range low=\"0\" high=\"9\"/></m:apply>");
    return check(r.total == 3, "all numbers in the range are found");
}
''',"numbers and other symbols that take turns at the place of the range","later numbers in the range are not found")
