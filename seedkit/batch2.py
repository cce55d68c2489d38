from mk import make
make('s04_numeric_child_search','C04',
 [('src/mws/index/IndexAccessor.hpp','''            off = inode_get_child(node, token);''','''            // children are sorted
            for (uint64_t i = 0; i < node->size; i++) {
                encoded_token_t curr = node->data[i].token;
                if (memcmp(&curr, &token, sizeof(token)) == 0) {
                    off = node->data[i].off;
                    break;
                }
                if (encoded_token_get_id(curr) > encoded_token_get_id(token)) {
                    break;
                }
            }''')],
 r'''#include "kit.hpp"
using namespace kit;
int main() {
    string doc = harvest([] { string d; for (int i = 0; i < 700; i++) d += expr("u" + std::to_string(i), "<m:ci>x" + std::to_string(i) + "</m:ci>"); return d; }());
    Mem m(doc);
    if (system("mkdir h ix")) return 99;
    FILE* f = fopen("h/a.harvest", "w"); fwrite(doc.data(), 1, doc.size(), f); fclose(f);
    index::IndexConfiguration c;
    c.harvester.paths.push_back("h"); c.harvester.recursive = false;
    c.dataPath = "ix"; c.deleteOldData = true;
    int bad = check(index::createCompressedIndex(c) == 0, "index created");
    index::IndexLoader l("ix");
    int lost = 0;
    for (int i = 0; i < 700; i++) {
        string q = "<m:ci>x" + std::to_string(i) + "</m:ci>";
        Result a = m.ask(q), b = kit::ask<index::IndexAccessor>(l.getIndexHandle(), l.getDbQueryManager(), l.getMeaningDictionary(), q);
        lost += a.total != b.total;
    }
    return bad | check(lost == 0, "same answers");
}
''',"a node with children whose symbol numbers lie on both sides of 256","the stored index does not find some symbols, as its nodes are sorted by bytes")
make('s10_nul_in_body','C10',
 [('src/mws/daemon/Daemon.cpp','''            size_t nbytes = fwrite(upload_data, sizeof(char), *upload_data_size,
                                   memstream->getInput());''','''            size_t nbytes = fwrite(upload_data, sizeof(char),
                                   strnlen(upload_data, *upload_data_size),
                                   memstream->getInput());''')],
 r'''#include "kit.hpp"
#include "mws/daemon/Daemon.hpp"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
using namespace kit;
struct None : daemon::QueryHandler { GenericAnswer* handleQuery(types::Query*) { return new MwsAnswset; } };
int main() {
    daemon::Daemon::Config c; c.port = 30000 + getpid() % 20000;
    daemon::Daemon d(new None, c);
    string body = string("<mws:query>") + string(1, '\0') + "</mws:query>";
    string req = "POST / HTTP/1.0\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(c.port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(s, (sockaddr*)&a, sizeof a)) return 99;
    if (write(s, req.data(), req.size()) != (ssize_t)req.size()) return 99;
    string got; char b[4096]; ssize_t k;
    while ((k = read(s, b, sizeof b)) > 0) got.append(b, k);
    return check(got.find(" 400 ") != string::npos, "a malformed query is answered");
}
''',"a request body with a NUL byte","the connection is dropped without any answer")
make('s11_cdata','C11',
 [('src/mws/xmlparser/MwsXmlResponseFormatter.cpp','''                xmlTextWriterWriteElement(writerPtr, BAD_CAST "data",
                                          BAD_CAST answer->data.c_str());''','''                // CDATA is more compact for data which consists of markup
                xmlTextWriterStartElement(writerPtr, BAD_CAST "data");
                if (answer->data.find('<') == string::npos) {
                    xmlTextWriterWriteString(writerPtr,
                                             BAD_CAST answer->data.c_str());
                } else {
                    xmlTextWriterWriteCDATA(writerPtr,
                                            BAD_CAST answer->data.c_str());
                }
                xmlTextWriterEndElement(writerPtr);''')],
 r'''#include "kit.hpp"
#include "mws/xmlparser/MwsXmlResponseFormatter.hpp"
#include "mws/types/MwsAnswset.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace kit;
int main() {
    MwsAnswset s; s.total = 1; s.time = 0;
    auto* a = new types::Answer; a->uri = "u"; a->xpath = "/*[1]"; a->data = "<x>a]]&gt;b</x><y><![CDATA[c]]></y>";
    s.answers.push_back(a);
    char* buf; size_t n; FILE* f = open_memstream(&buf, &n);
    int r = parser::MwsXmlResponseFormatter().writeData(&s, f);
    fclose(f);
    xmlDocPtr d = xmlReadMemory(buf, n, nullptr, nullptr, XML_PARSE_NOERROR | XML_PARSE_NONET);
    int bad = check(r >= 0 && d, "well-formed");
    string got;
    if (d) for (auto* x = xmlDocGetRootElement(d)->children; x; x = x->next)
        for (auto* y = x->children; y; y = y->next)
            if (!strcmp((char*)y->name, "data")) got = (char*)xmlNodeGetContent(y);
    return bad | check(got == a->data, "data unchanged");
}
''',"document data which contains ]]>","the XML response is not well-formed")
make('s12_hash_in_symbol','C12',
 [('src/mws/query/SchemaEngine.cpp','''    size_t delim_pos = meaning.find('#');''','''    size_t delim_pos = meaning.rfind('#');''')],
 r'''#include "kit.hpp"
#include "mws/daemon/SchemaQueryHandler.hpp"
#include "mws/types/SchemaAnswset.hpp"
using namespace kit;
int main() {
    string q = "<mws:query xmlns:mws=\"http://search.mathweb.org/ns\" xmlns:m=\"http://www.w3.org/1998/Math/MathML\" schema_depth=\"3\">"
        "<mws:expr><m:apply><m:csymbol>list#append</m:csymbol><m:ci>x</m:ci></m:apply></mws:expr></mws:query>";
    FILE* f = fmemopen((void*)q.data(), q.size(), "r");
    std::unique_ptr<types::Query> p(xmlparser::readMwsQuery(f, xmlparser::QUERY_SCHEMA)); fclose(f);
    if (!p) return 99;
    daemon::SchemaQueryHandler h((index::ExpressionEncoder::Config()));
    std::unique_ptr<SchemaAnswset> s((SchemaAnswset*)h.handleQuery(p.get()));
    auto* c = s->schemata.at(0).root->getChildNodes().front();
    fprintf(stderr, "%s %s\n", c->getTag().c_str(), c->getTextContent().c_str());
    return check(c->getTag() == "csymbol" && c->getTextContent() == "list#append", "symbol as given");
}
''',"a symbol whose text contains #","the schema has another symbol and the formula is no instance of it")
make('s13_solving_variable','C13',
 [('src/mws/query/engine.c','''        query_ctxt->solving_var_id = var_id;
        var->solved = false;''','''        var->solved = false;''')],
 r'''#include "kit.hpp"
#include "mws/daemon/IndexQueryHandler.hpp"
using namespace kit;
int main() {
    string doc, args;
    for (int i = 0; i < 4; i++)
        for (int k = 0; k < 4; k++) {
            auto v = [](int n) { return n < 2 ? "<m:ci>x" + std::to_string(n) + "</m:ci>" : "<m:apply><m:sin/><m:ci>y" + std::to_string(n) + "</m:ci></m:apply>"; };
            doc += expr("u", "<m:apply><m:plus/>" + v(i) + v(k) + v(i) + "</m:apply>");
        }
    doc = harvest(doc);
    if (system("mkdir h ix")) return 99;
    FILE* f = fopen("h/a.harvest", "w"); fwrite(doc.data(), 1, doc.size(), f); fclose(f);
    index::IndexConfiguration c;
    c.harvester.paths.push_back("h"); c.harvester.recursive = false;
    c.dataPath = "ix"; c.deleteOldData = true;
    int bad = check(index::createCompressedIndex(c) == 0, "index created");
    for (string q : {"<m:apply><m:plus/><mws:qvar>a</mws:qvar><mws:qvar>b</mws:qvar><mws:qvar>a</mws:qvar></m:apply>",
                     "<m:apply><mws:qvar>f</mws:qvar><mws:qvar>a</mws:qvar><mws:qvar>b</mws:qvar><mws:qvar>a</mws:qvar></m:apply>"}) {
        int total[2];
        for (int x = 0; x < 2; x++) {
            daemon::IndexQueryHandler::Config qc; qc.useExperimentalQueryEngine = x == 1;
            daemon::IndexQueryHandler h("ix", qc);
            std::unique_ptr<types::Query> p(parse(q, "answsize=\"50\""));
            std::unique_ptr<GenericAnswer> a(h.handleQuery(p.get()));
            total[x] = a ? ((MwsAnswset*)a.get())->total : -1;
        }
        fprintf(stderr, "%d %d\n", total[0], total[1]);
        bad |= check(total[0] == total[1], "same total");
    }
    return bad;
}
''',"a pattern with a repeated variable next to another one, and several candidates for both","the experimental engine binds the wrong variable after backtracking")
make('s20_growing_ids','C20',
 [('src/common/types/IdDictionary.hpp','''            result = _nextId;
            _map[key] = _nextId;
            _nextId++;''','''            // continue after the last key, so that loaded tables can grow
            result = _map.empty() ? VALUEID_START : _map.rbegin()->second + 1;
            if (result < _nextId && _nextId % 32 != 0) result = _nextId;
            _map[key] = result;
            _nextId = result + 1;''')],
 r'''#include "kit.hpp"
#include "common/types/IdDictionary.hpp"
using namespace kit;
int main() {
    int bad = 0;
    common::types::IdDictionary<string, unsigned> d;
    std::set<unsigned> ids;
    for (int i = 0; i < 60; i++) ids.insert(d.put(string(1, 126 - i)));
    return check(ids.size() == 60, "distinct numbers");
}
''',"32 or more keys which do not arrive in alphabetical order","two keys share a number")
make('s21_window_beyond_end','C21',
 [('src/mws/dbc/MemFormulaDb.cpp','''    if (limitMin >= formulaInfos.size()) return 0;''','''    if (limitMin > 0 && limitMin >= formulaInfos.size()) limitMin = formulaInfos.size() - 1;''')],
 r'''#include "kit.hpp"
using namespace kit;
int main() {
    dbc::MemFormulaDb db; types::FormulaPath p; p.xmlId = "a"; p.xpath = "b";
    for (int i = 0; i < 3; i++) db.insertFormula(7, 1, p);
    int bad = 0;
    for (unsigned min = 0; min < 6; min++)
        for (unsigned n = 0; n < 5; n++) {
            unsigned got = 0;
            db.queryFormula(7, min, n, [&](const dbc::CrawlId&, const types::FormulaPath&) { got++; return 0; });
            unsigned want = min >= 3 ? 0 : std::min(3 - min, n);
            if (got != want) { fprintf(stderr, "from %u size %u: %u\n", min, n, got); bad = 1; }
        }
    return bad;
}
''',"a window which begins at or after the last record of a formula","the last record is returned again")
make('s22_suffix_twice','C22',
 [('src/common/utils/util.cpp','''           (0 == str.compare(str.length() - suffix.length(), suffix.length(),
                             suffix));''','''           (str.find(suffix) == str.length() - suffix.length());''')],
 r'''#include "kit.hpp"
#include "common/utils/util.hpp"
using namespace kit;
int main() {
    if (system("mkdir -p h/old.harvest")) return 99;
    for (string n : {"h/a.harvest", "h/b.harvest.harvest", "h/old.harvest/c.harvest", "h/d.harvest.bak"}) {
        FILE* f = fopen(n.c_str(), "w"); string d = harvest(expr(n, "<m:ci>x</m:ci>")); fwrite(d.data(), 1, d.size(), f); fclose(f);
    }
    dbc::MemCrawlDb crawl; dbc::MemFormulaDb formula; index::TmpIndex idx; index::MeaningDictionary dict;
    index::IndexBuilder b(&formula, &crawl, &idx, &dict, index::ExpressionEncoder::Config());
    index::HarvesterConfiguration c; c.paths.push_back("h"); c.recursive = true;
    return check(index::loadHarvests(&b, c) == 3, "three files loaded");
}
''',"a file or directory name which contains the extension more than once","such files are not loaded")
make('s23_permuted_arguments','C23',
 [('src/common/utils/FlagParser.cpp','''    optString = "+";  // Setting POSIXLY_CORRECT ON''','''    optString = "";''')],
 r'''#include "kit.hpp"
#include "common/utils/FlagParser.hpp"
using namespace kit; using common::utils::FlagParser;
int main() {
    FlagParser::addFlag('p', "port", FLAG_OPT, ARG_REQ);
    FlagParser::setMinNumParams(1);
    char* argv[] = {(char*)"x", (char*)"file", (char*)"-p", (char*)"-", nullptr};
    int bad = check(FlagParser::parse(4, argv) == 0, "accepted");
    bad |= check(!FlagParser::hasArg('p'), "what follows a parameter is a parameter");
    bad |= check(FlagParser::getParams().size() == 3, "three parameters");
    return bad;
}
''',"a flag after a parameter","parameters are taken for flags")
make('s26_resent_piece','C26',
 [('src/common/types/ControlSequence.cpp','''        nbytes = write(fd, data, data_size);
        if (nbytes <= 0) {
            if (nbytes == -1) bytes_written = -1;
            break;
        }

        bytes_written += nbytes;
        data += nbytes;''','''        nbytes = write(fd, data, data_size);
        if (nbytes <= 0) {
            if (nbytes == -1) bytes_written = -1;
            break;
        }

        bytes_written += nbytes;''')],
 r'''#include "kit.hpp"
#include <dlfcn.h>
#include "common/types/ControlSequence.hpp"
#include <fcntl.h>
#include <thread>
using namespace kit;
// a writer which accepts one byte at a time
extern "C" ssize_t write(int fd, const void* b, size_t n) {
    static auto real = (ssize_t (*)(int, const void*, size_t))dlsym((void*)-1L, "write");
    return real(fd, b, fd > 2 && n > 1 ? 1 : n);
}
int main() {
    int p[2]; if (pipe(p)) return 99;
    ControlSequence a, b; a.setFormat((DataFormat)1);
    ssize_t s = a.send(p[1]); close(p[1]);
    ssize_t r = b.recv(p[0]);
    return check(s == (ssize_t)sizeof a && r == s && b.isParsed() && b.getFormat() == a.getFormat(), "received as sent");
}
''',"a transfer which takes more than one write","the first bytes are sent again instead of the remaining ones")
