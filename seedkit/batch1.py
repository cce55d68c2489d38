from mk import make
make('s01_nonascii_symbols','C01',
 [('src/mws/types/CmmlToken.cpp','''        if (!isspace(aTextContent[i])) {''','''        if (aTextContent[i] > ' ') {  // drops blanks and control characters''')],
 r'''#include "kit.hpp"
using namespace kit;
int main() {
    Mem m(harvest(expr("a", "<m:apply><m:plus/><m:ci>\xce\xb1</m:ci></m:apply>") +
                  expr("b", "<m:apply><m:plus/><m:ci>\xce\xb2</m:ci></m:apply>")));
    Result r = m.ask("<m:ci>\xce\xb1</m:ci>");
    return check(r.total == 1 && r.hits.size() == 1 && r.hits[0].uri == "a", "alpha is not beta");
}
''',"symbols whose text is made of non-ASCII characters","different non-ASCII symbols become the same symbol")
make('s02_page_across_formulas','C02',
 [('src/mws/query/SearchContext.cpp','''                        dbMaxSize = size + offset - found;''','''                        dbMaxSize = size - (found > offset ? found % size : 0);''')],
 r'''#include "kit.hpp"
using namespace kit;
int main() {
    string doc;
    for (int i = 0; i < 4; i++)
        for (int k = 0; k < 3; k++)
            doc += expr("u" + std::to_string(i) + std::to_string(k),
                "<m:apply><m:sin/><m:ci>x" + std::to_string(i) + "</m:ci></m:apply>");
    Mem m(harvest(doc));
    string q = "<m:apply><m:sin/><mws:qvar>a</mws:qvar></m:apply>";
    vector<Hit> all = m.ask(q, "limitmin=\"0\" answsize=\"100\"").hits;
    int bad = check(all.size() == 12, "12 hits");
    for (unsigned off = 0; off < 13; off++)
        for (unsigned size = 1; size < 13; size++) {
            Result r = m.ask(q, "limitmin=\"" + std::to_string(off) + "\" answsize=\"" + std::to_string(size) + "\"");
            size_t want = off >= 12 ? 0 : std::min<size_t>(size, 12 - off);
            bool ok = r.hits.size() == want;
            for (size_t i = 0; ok && i < want; i++) ok = r.hits[i].uri == all[off + i].uri;
            if (!ok) { fprintf(stderr, "offset %u size %u\n", off, size); bad = 1; }
        }
    return bad;
}
''',"a page which starts within the hits of one formula and ends within those of a later one","pages return too many or too few hits")
make('s03_second_occurrence_position','C03',
 [('src/mws/types/CmmlToken.cpp','''        for (auto rIt = currentSubterm->getChildNodes().rbegin();
             rIt != currentSubterm->getChildNodes().rend(); rIt++) {
            subtermStack.push(*rIt);
        }

        callback(currentSubterm);''','''        for (auto child : currentSubterm->getChildNodes()) {
            subtermStack.push(child);
        }

        callback(currentSubterm);''')],
 r'''#include "kit.hpp"
using namespace kit;
int main() {
    Mem m(harvest(expr("a", "<m:apply><m:plus/><m:ci>x</m:ci><m:ci>y</m:ci><m:ci>x</m:ci></m:apply>")));
    Result r = m.ask("<m:ci>x</m:ci>");
    return check(r.hits.size() == 1 && r.hits[0].xpath == "/*[1]/*[2]", "first occurrence is reported");
}
''',"a subterm which occurs twice in an expression","the position names a later occurrence instead of the first one")
make('s04_lev_window','C04',
 [('src/mws/dbc/LevFormulaDb.cpp','''    std::string maxKey = fmId + "\\xff";''','''    std::string maxKey = fmId + "9";''')],
 r'''#include "kit.hpp"
using namespace kit;
int main() {
    string doc = harvest([] { string d; for (int i = 0; i < 12; i++) d += expr("u" + std::to_string(i), "<m:ci>x</m:ci>"); return d; }());
    Mem m(doc);
    if (system("mkdir h ix")) return 99;
    FILE* f = fopen("h/a.harvest", "w"); fwrite(doc.data(), 1, doc.size(), f); fclose(f);
    index::IndexConfiguration c;
    c.harvester.paths.push_back("h"); c.harvester.recursive = false;
    c.dataPath = "ix"; c.deleteOldData = true;
    int bad = check(index::createCompressedIndex(c) == 0, "index created");
    index::IndexLoader l("ix");
    Result a = m.ask("<m:ci>x</m:ci>", "answsize=\"50\"");
    Result b = kit::ask<index::IndexAccessor>(l.getIndexHandle(), l.getDbQueryManager(), l.getMeaningDictionary(), "<m:ci>x</m:ci>", "answsize=\"50\"");
    fprintf(stderr, "%zu %zu\n", a.hits.size(), b.hits.size());
    bad |= check(a.total == b.total && a.hits.size() == b.hits.size(), "same number of hits");
    return bad;
}
''',"a formula with at least nine records in the stored index","the stored index loses hits whose record number starts with 9")
make('s05_float_ranges','C05',
 [('src/mws/query/SearchContext.cpp','''            num = std::stod(val);''','''            num = std::stof(val);''')],
 r'''#include "kit.hpp"
using namespace kit;
int main() {
    Mem m(harvest(expr("a", "<m:cn>0.1</m:cn>") + expr("b", "<m:cn>0.3</m:cn>")));
    Result r = m.ask("<mws:range low=\"0.1\" high=\"0.3\"/>");
    Result s = m.ask("<mws:range low=\"0.1\" high=\"0.1\"/>");
    fprintf(stderr, "%d %d\n", r.total, s.total);
    return check(r.total == 2 && s.total == 1, "bounds are inclusive");
}
''',"a bound and a number that are equal but not exact in single precision","numbers at the bounds fall outside (or inside) the interval")
make('s06_operator_as_argument','C06',
 [('src/mws/index/ExpressionEncoder.cpp','''         (tokParent->getChildNodes().front()) == token)) {''','''         tokParent->getChildNodes().front()->equals(token))) {''')],
 r'''#include "kit.hpp"
using namespace kit;
int main() {
    string fx = "<m:apply><m:ci>f</m:ci><m:ci>x</m:ci></m:apply>", ff = "<m:apply><m:ci>f</m:ci><m:ci>f</m:ci></m:apply>";
    Mem m(harvest(expr("a", fx)), true);
    Result r = m.ask(ff);
    return check(r.total == 1, "f(f) is a renaming of f(x)");
}
''',"an operator which occurs as its own argument","the argument is taken for the applied operator and not renamed")
make('s07_stale_url','C07',
 [('src/mws/xmlparser/processMwsHarvest.cpp','''            data->exprUri = MWSHARVEST_EXPR_URI_DEFAULT;
            data->localId = "";''','''            data->localId = "";''')],
 r'''#include "kit.hpp"
using namespace kit;
int main() {
    Mem m(harvest(expr("a", "<m:ci>x</m:ci>") + "<mws:expr><m:ci>y</m:ci></mws:expr>"));
    Result r = m.ask("<m:ci>y</m:ci>");
    return check(r.hits.size() == 1 && r.hits[0].uri == "", "no url");
}
''',"an expression without url after one with a url","the expression gets the url of its predecessor")
make('s08_no_checksum_of_last_bytes','C08',
 [('src/mws/index/memsector.c','''    msw->ms.checksum = crc32(msw->ms.checksum, data, size);''','''    msw->ms.checksum = crc32(0, data, size);'''),
  ('src/mws/index/memsector.c','''    return crc32(/* initial crc32 = */ 0, index_start, index_size);''','''    /* the checksum of the block written last */
    size_t last = sizeof(encoded_token_dict_entry_t);
    const inode_t* root = (const inode_t*)memsector_off2addr(memsector, memsector->root_off);
    if (root->type == LONG_INTERNAL_NODE) last = sizeof(encoded_token_dict_entry_long_t);
    if (index_size < last) last = index_size;
    return crc32(/* initial crc32 = */ 0, index_start + index_size - last, last);''')],
 r'''#include "kit.hpp"
#include <sys/wait.h>
using namespace kit;
static Result load(const char* q) {
    index::IndexLoader l("ix");
    return kit::ask<index::IndexAccessor>(l.getIndexHandle(), l.getDbQueryManager(), l.getMeaningDictionary(), q, "answsize=\"50\"");
}
int main() {
    string doc = harvest(expr("a", "<m:apply><m:sin/><m:ci>x</m:ci></m:apply>") + expr("b", "<m:apply><m:sin/><m:ci>y</m:ci></m:apply>"));
    if (system("mkdir h ix")) return 99;
    FILE* f = fopen("h/a.harvest", "w"); fwrite(doc.data(), 1, doc.size(), f); fclose(f);
    index::IndexConfiguration c;
    c.harvester.paths.push_back("h"); c.harvester.recursive = false;
    c.dataPath = "ix"; c.deleteOldData = true;
    if (index::createCompressedIndex(c) != 0) return 99;
    const char* q = "<m:apply><m:sin/><m:ci>y</m:ci></m:apply>";
    Result good = load(q);
    int bad = check(good.total == 1, "complete index");
    f = fopen("ix/index.memsector", "r+");
    fseek(f, 0, SEEK_END); long n = ftell(f);
    for (long i = 28; i < n; i++) {
        fseek(f, i, SEEK_SET); int ch = fgetc(f);
        fseek(f, i, SEEK_SET); fputc(ch ^ 0x10, f); fflush(f);
        pid_t p = fork();
        if (p == 0) {
            alarm(20);
            if (!freopen("/dev/null", "w", stderr)) _exit(1);
            try { Result r = load(q); _exit(r.total == good.total && r.hits.size() == 1 && r.hits[0].uri == "b" ? 0 : 1); }
            catch (std::exception&) { _exit(0); }
        }
        int st; waitpid(p, &st, 0);
        if (st != 0) { fprintf(stderr, "byte %ld: status %x\n", i, st); bad = 1; }
        fseek(f, i, SEEK_SET); fputc(ch, f); fflush(f);
    }
    return bad;
}
''',"a changed byte before the last entry of the memsector","a damaged index is served")
make('s09_put_status_ignored','C09',
 [('src/mws/dbc/LevFormulaDb.cpp','''    if (!status.ok()) return -1;

    return 0;
}

int LevFormulaDb::queryFormula''','''    if (status.IsCorruption()) return -1;

    return 0;
}

int LevFormulaDb::queryFormula''')],
 r'''#include "kit.hpp"
#include <sys/resource.h>
#include <signal.h>
using namespace kit;
int main() {
    string body;
    for (int i = 0; i < 400; i++) body += expr("http://example.org/document/" + std::to_string(i), "<m:ci>x" + std::to_string(i) + "</m:ci>");
    string doc = harvest(body);
    if (system("mkdir h")) return 99;
    FILE* f = fopen("h/a.harvest", "w"); fwrite(doc.data(), 1, doc.size(), f); fclose(f);
    signal(SIGXFSZ, SIG_IGN);
    int bad = 0;
    for (int limit = 4096; limit <= 65536; limit += 4096) {
        if (system("rm -rf ix; mkdir ix")) return 99;
        struct rlimit rl; getrlimit(RLIMIT_FSIZE, &rl);
        rl.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &rl);
        index::IndexConfiguration c;
        c.harvester.paths.push_back("h"); c.harvester.recursive = false;
        c.dataPath = "ix"; c.deleteOldData = true;
        int rv = index::createCompressedIndex(c);
        rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_FSIZE, &rl);
        if (rv != 0) continue;
        int total = 0;
        try {
            index::IndexLoader l("ix");
            for (int i = 0; i < 400; i++) {
                Result r = kit::ask<index::IndexAccessor>(l.getIndexHandle(), l.getDbQueryManager(), l.getMeaningDictionary(), "<m:ci>x" + std::to_string(i) + "</m:ci>");
                total += r.hits.size();
            }
        } catch (std::exception& e) { fprintf(stderr, "%s\n", e.what()); }
        if (total != 400) { fprintf(stderr, "limit %d: success, but %d hits\n", limit, total); bad = 1; }
    }
    return bad;
}
''',"a write to the formula database that fails, e.g. because of a file size limit","index creation reports success although formula records are missing")
