// Small helpers for the demonstrations: load harvests, ask queries.
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <memory>
#include <string>
#include <vector>
#include <set>
#include <iostream>

#include "mws/dbc/MemCrawlDb.hpp"
#include "mws/dbc/MemFormulaDb.hpp"
#include "mws/dbc/DbQueryManager.hpp"
#include "mws/index/TmpIndex.hpp"
#include "mws/index/TmpIndexAccessor.hpp"
#include "mws/index/IndexBuilder.hpp"
#include "mws/index/IndexWriter.hpp"
#include "mws/index/IndexLoader.hpp"
#include "mws/index/IndexAccessor.hpp"
#include "mws/index/ExpressionEncoder.hpp"
#include "mws/query/SearchContext.hpp"
#include "mws/xmlparser/xmlparser.hpp"
#include "mws/xmlparser/readMwsQuery.hpp"
#include "mws/xmlparser/processMwsHarvest.hpp"

namespace kit {
using namespace mws;
using std::string;
using std::vector;

inline string harvest(const string& body) {
    return "<?xml version=\"1.0\"?>\n<mws:harvest "
           "xmlns:mws=\"http://search.mathweb.org/ns\" "
           "xmlns:m=\"http://www.w3.org/1998/Math/MathML\">" + body +
           "</mws:harvest>";
}
inline string expr(const string& url, const string& math, const string& id = "") {
    return "<mws:expr url=\"" + url + "\"" +
           (id.empty() ? "" : " mws:data_id=\"" + id + "\"") + ">" + math +
           "</mws:expr>";
}
inline string data(const string& id, const string& text) {
    return "<mws:data mws:data_id=\"" + id + "\">" + text + "</mws:data>";
}
struct Hit { string uri, xpath, data; };
struct Result { vector<Hit> hits; int total; bool ok; };

inline types::Query* parse(const string& math, const string& attrs) {
    string q = "<mws:query xmlns:mws=\"http://search.mathweb.org/ns\" "
               "xmlns:m=\"http://www.w3.org/1998/Math/MathML\" " + attrs +
               "><mws:expr>" + math + "</mws:expr></mws:query>";
    FILE* f = fmemopen((void*)q.data(), q.size(), "r");
    auto r = xmlparser::readMwsQuery(f, xmlparser::QUERY_MWS);
    fclose(f);
    return r;
}
template <class A>
Result ask(typename A::Index* index, dbc::DbQueryManager* dbm,
           index::MeaningDictionary* dict, const string& math,
           const string& attrs = "", index::ExpressionEncoder::Config cfg =
               index::ExpressionEncoder::Config()) {
    Result res; res.ok = false; res.total = -1;
    std::unique_ptr<types::Query> q(parse(math, attrs));
    if (!q) return res;
    vector<encoded_token_t> enc;
    index::ExpressionInfo info;
    index::QueryEncoder encoder(dict);
    res.ok = true;
    if (encoder.encode(cfg, q->tokens[0], &enc, &info) != 0) { res.total = 0; return res; }
    query::SearchContext ctx(enc, q->options, info.rangeBounds, dict);
    std::unique_ptr<MwsAnswset> a(ctx.getResult<A>(index, dbm, q->attrResultLimitMin,
        q->attrResultMaxSize, q->attrResultTotalReqNr));
    res.total = a->total;
    for (auto x : a->answers) { Hit h; h.uri = x->uri; h.xpath = x->xpath; h.data = x->data; res.hits.push_back(h); }
    return res;
}
struct Mem {
    dbc::MemCrawlDb crawl; dbc::MemFormulaDb formula; index::TmpIndex idx;
    index::MeaningDictionary dict; index::ExpressionEncoder::Config cfg;
    std::unique_ptr<dbc::DbQueryManager> dbm;
    int status; uint64_t loaded;
    Mem(const string& doc, bool renameCi = false) {
        cfg.renameCi = renameCi;
        index::IndexBuilder b(&formula, &crawl, &idx, &dict, cfg);
        int p[2]; char tmpl[] = "/tmp/kitXXXXXX"; int fd = mkstemp(tmpl); unlink(tmpl);
        (void)p;
        if (write(fd, doc.data(), doc.size()) != (ssize_t)doc.size()) abort();
        lseek(fd, 0, SEEK_SET);
        auto r = index::loadHarvestFromFd(&b, fd, true);
        status = r.status; loaded = r.numExpressions;
        close(fd);
        dbm.reset(new dbc::DbQueryManager(&crawl, &formula));
    }
    Result ask(const string& math, const string& attrs = "") {
        return kit::ask<index::TmpIndexAccessor>(&idx, dbm.get(), &dict, math, attrs, cfg);
    }
};
inline int check(bool ok, const char* what) {
    std::cerr << (ok ? "ok: " : "FAILED: ") << what << std::endl;
    return ok ? 0 : 1;
}
}  // namespace kit
