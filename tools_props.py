#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that wording and anchors stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Search returns exactly the subterms that are instances of the pattern",
 "For any set of harvested expressions and any query pattern, the answer contains one hit for every distinct subterm of every harvested expression that the pattern matches, and nothing else; the reported total equals the number of those hits. A named query variable stands for one complete subterm and must stand for the same subterm everywhere it occurs, an unnamed one stands for any subterm, and two nodes are the same symbol exactly when tag (ignoring the m: prefix), whitespace-free text and number of children agree (the text of mtext is ignored).",
 ["inputs"], "all harvests (sets of content-MathML trees) and all patterns",
 "The engine tests ask a handful of fixed queries against fixed four-node terms; soundness and completeness quantify over every term/pattern pair, every sharing of trie prefixes and every backtracking order.",
 ["src/mws/query/SearchContext.cpp", "src/mws/index/IndexBuilder.cpp", "src/mws/index/TmpIndex.cpp", "src/mws/index/ExpressionEncoder.cpp", "src/mws/types/CmmlToken.cpp", "src/mws/types/VectorMap.hpp"],
 [("backtracking search over the subterm trie", "SearchContext::getResult"), ("one trie path per subterm", "IndexBuilder::indexContentMath"), ("node labels", "ExpressionEncoder::encode, CmmlToken::getMeaning")],
 ["answer set returned by the query handlers"])

prop("C02", "Result pages tile one fixed answer list and the total never depends on the page",
 "For a fixed index and pattern, the hits returned for any offset and page size are exactly the corresponding slice of the unlimited answer list (clipped at its end), so consecutive pages neither repeat nor lose a hit. The reported total is the same for every offset and page size.",
 ["inputs", "histories"], "all offsets, page sizes and sequences of page requests",
 "No test passes limitmin at all; slices cross boundaries between trie leaves that carry several hits each, and those crossings only show for particular offset/size/leaf-size combinations.",
 ["src/mws/query/SearchContext.cpp", "src/mws/dbc/DbQueryManager.cpp", "src/mws/dbc/MemFormulaDb.cpp", "src/mws/dbc/LevFormulaDb.cpp", "src/mws/xmlparser/readMwsQuery.cpp"],
 [("window arithmetic per leaf", "SearchContext::getResult"), ("offset/limit inside a leaf", "FormulaDb::queryFormula")],
 ["answers and total of the answer set"])

prop("C03", "Every hit points at its formula: url, position, data and variable bindings",
 "Each hit carries the url and the associated data of the harvested expression it came from, and a position that, evaluated in that expression, selects an instance of the pattern (the first occurrence of that subterm). For each query variable the answer names a relative position which, appended to the hit position, selects the subterm bound to the variable.",
 ["inputs"], "all harvests with any assignment of urls and data records, all patterns with named variables",
 "Tests check only that a hit count is reached; a wrong path, url or data id is invisible to them.",
 ["src/mws/index/IndexBuilder.cpp", "src/mws/types/CmmlToken.cpp", "src/mws/xmlparser/processMwsHarvest.cpp", "src/mws/xmlparser/MwsXmlResponseFormatter.cpp", "src/mws/xmlparser/MwsJsonResponseFormatter.cpp", "src/mws/dbc/DbQueryManager.cpp"],
 [("path construction", "CmmlToken::newChildNode"), ("local data ids to stored records", "processMwsHarvest"), ("variable positions", "ExpressionEncoder::encode, getXpathRelative")],
 ["uri, xpath, data and substpair of each answer"])

prop("C04", "A saved index answers every query exactly like an index held in memory",
 "Building an index on disk from a harvest, closing it and loading it again yields, for every query, the same hits, data and total as loading that harvest directly into memory. This holds however the harvest is split over files and whatever its data records contain.",
 ["inputs", "configurations"], "all harvests, all splits over files, all queries, data kept or ignored",
 "Saved-index tests compare one small export byte by byte or query four terms; agreement must hold for every trie shape, key order and label that is written and read back.",
 ["src/mws/index/IndexWriter.cpp", "src/mws/index/IndexLoader.cpp", "src/mws/index/TmpIndex.cpp", "src/mws/index/index.h", "src/mws/index/memsector.c", "src/mws/index/IndexAccessor.hpp", "src/mws/dbc/LevFormulaDb.cpp", "src/mws/dbc/LevCrawlDb.cpp", "src/common/types/IdDictionary.hpp"],
 [("trie export", "TmpIndex::exportToMemsector"), ("trie import", "IndexAccessor"), ("dictionary save/load", "IdDictionary")],
 ["answer sets of both handlers"])

prop("C05", "Range queries match exactly the numbers inside the interval",
 "A range in a query matches a leaf exactly when that leaf is a number node whose text reads as a number within the inclusive bounds; a missing or unreadable bound leaves that side unlimited, so negative numbers and zero are found when no lower bound is given. Ranges are independent of each other, of query variables and of what was asked before, and a query whose range is never reached ends normally.",
 ["inputs"], "all bounds, all number literals, all placements of ranges and variables in a pattern",
 "One test asks one closed positive range; open ends, negative values, several ranges, and the order of ranges and variables are never exercised.",
 ["src/mws/query/SearchContext.cpp", "src/mws/types/CmmlToken.cpp", "src/mws/index/ExpressionEncoder.cpp"],
 [("candidate filtering", "RangeCtxt"), ("bounds", "CmmlToken::getRangeBounds")],
 ["answer set"])

prop("C06", "Identifier renaming identifies expressions up to renaming and nothing else",
 "With identifier renaming enabled for indexing and querying, a variable-free query finds a whole harvested expression exactly when the two are equal up to a consistent one-to-one renaming of their single-character identifiers; longer names and applied operators are never renamed. Expressions and queries are renamed independently of each other and of the order they were loaded or asked; with renaming disabled identifiers match literally.",
 ["inputs", "histories"], "all pairs of expressions over a finite identifier alphabet, all orders of loading and asking",
 "The single test counts trie entries for x+y and a+b; it never asks a query, and consistency/injectivity quantify over all identifier patterns.",
 ["src/mws/index/ExpressionEncoder.cpp", "src/mws/index/IndexBuilder.cpp", "src/mws/daemon/HarvestQueryHandler.cpp", "src/mws/daemon/IndexQueryHandler.cpp"],
 [("translation table per expression", "ExpressionEncoder::_getCiMeaning")],
 ["answer set"])

prop("C07", "Harvest loading survives any document and keeps everything before the fault",
 "For any byte sequence given as a harvest the loader returns normally, indexes exactly the expressions that were complete before the first error (each as if it were alone, with its own url and data), and reports failure exactly when the document is not well-formed. Unknown elements, attributes, dangling data references and comments never disturb neighbouring expressions, and the number it reports equals the number of subexpressions it made searchable.",
 ["inputs", "fault_sequences"], "all documents: every truncation point, every malformed variant, every order of elements, every split of the input into reads",
 "Tests load four well-formed files and one empty one; truncations, nested unknown elements, entity errors and read sizes are not covered.",
 ["src/mws/xmlparser/processMwsHarvest.cpp", "src/mws/index/IndexBuilder.cpp", "src/common/utils/util.cpp"],
 [("SAX state machine", "my_startElement/my_endElement/my_error"), ("per-file loop", "loadHarvests")],
 ["return status, counts, searchable contents"],
 [("parser state", "where in the document the parser is", "MwsHarvest_SaxUserData")])

prop("C08", "A damaged or half-written index is refused, never served",
 "If index creation is interrupted at any point, or any stored index file is truncated, or a byte of it is changed, added or removed, then loading that index either fails cleanly with an error or yields an index that answers every query exactly as the completed one; it never crashes and never serves other answers. After an interruption a complete rebuild with deletion of old data succeeds.",
 ["crash_points", "inputs"], "every crash point of the write history of index creation, every truncation length and every single-byte change of the index file",
 "Tests only load indexes that were completely written; crash points and corruptions are a universally quantified environment.",
 ["src/mws/index/memsector.c", "src/mws/index/IndexWriter.cpp", "src/mws/index/IndexLoader.cpp", "src/common/utils/mmap.c", "src/common/types/IdDictionary.hpp"],
 [("magic, version, checksum", "memsector_load"), ("write order", "createCompressedIndex")],
 ["exception or answers of the loaded index"])

prop("C09", "Index creation reports success only when everything was stored",
 "Whichever write, sync, creation, deletion or close fails while an index is created, index creation never crashes and reports success only if the stored index can be loaded and answers every query like the in-memory index; a failure to store any index data is reported as failure. A write that is merely performed in pieces is no failure and changes nothing.",
 ["fault_sequences"], "every single failing file operation (error or short write) in the history of index creation",
 "No test injects an I/O error.",
 ["src/mws/index/IndexWriter.cpp", "src/mws/index/memsector.c", "src/mws/index/TmpIndex.cpp", "src/mws/dbc/LevFormulaDb.cpp", "src/mws/dbc/LevCrawlDb.cpp"],
 [("return codes", "memsector_create/memsector_write/memsector_save, createCompressedIndex")],
 ["exit status of index creation"])

prop("C10", "Every HTTP request gets the one right answer, however it is delivered",
 "The daemon answers every request exactly once with the status the method and body call for: OPTIONS and GET of the root 200, other methods 405, a POST whose body is a well-formed query with at least one expression 200 with the answer in the requested format and content type, any other body 400. The answer depends only on the request, not on how the body was split into pieces nor on earlier, concurrent or aborted requests, and no request takes the daemon down. The headers let pages of other sites send queries and read the answers, keep answers from being cached, and name the allowed methods in a 405.",
 ["inputs", "histories", "fault_sequences"], "all methods, paths and bodies, all splits of the body, all interleaved or aborted request sequences up to the bound",
 "Tests never start the daemon; fragmentation, truncation and aborted uploads are environment behaviour.",
 ["src/mws/daemon/Daemon.cpp", "src/mws/daemon/GenericHttpResponses.hpp", "src/mws/xmlparser/readMwsQuery.cpp"],
 [("request state machine", "accessHandlerCallback"), ("query parser", "readMwsQuery")],
 ["status, headers and body handed to the HTTP library"])

prop("C11", "Responses are well-formed and carry the answer set unchanged in every format",
 "For any answer set the XML response is well-formed XML, the JSON and id responses are valid JSON, and decoding them gives back the same hits, total, query variables, substitutions and data that the answer set holds, including text with markup, quotes, control or non-ASCII characters. The returned byte count is the number of bytes written.",
 ["inputs"], "all answer sets over an alphabet of hostile strings, all formats",
 "One test writes one benign answer set and compares nothing but the return code.",
 ["src/mws/xmlparser/MwsXmlResponseFormatter.cpp", "src/mws/xmlparser/MwsJsonResponseFormatter.cpp", "src/mws/xmlparser/MwsIdsResponseFormatter.cpp", "src/mws/xmlparser/SchemaXmlResponseFormatter.cpp", "src/mws/xmlparser/SchemaJsonResponseFormatter.cpp"],
 [("escaping and structure", "writeData of each formatter")],
 ["response bytes"])

prop("C12", "Schemata partition the input formulae and every member is an instance",
 "For any list of formulae the returned schemata place every formula in exactly one schema, each schema's coverage and member list count its formulae, schemata are ordered by coverage and limited to the requested number, and the substitutions listed for a member rebuild that member from the schema. With unlimited depth only equal formulae share a schema; with depth zero all do.",
 ["inputs"], "all lists of formulae, all depths, cutoff modes and result limits",
 "Three tests reduce and hash two or three fixed formulae; the partition property quantifies over every list and depth.",
 ["src/mws/query/SchemaEngine.cpp", "src/mws/daemon/SchemaQueryHandler.cpp", "src/mws/query/SchemaAnswset.hpp"],
 [("reduction and hashing", "SchemaEngine::getSchemata"), ("substitutions", "SchemaQueryHandler::getSubstitutions")],
 ["schema answer set"])

prop("C13", "The experimental engine finds what the regular engine finds",
 "For a saved index and any query with variables and constants, running the query with the experimental engine yields the same total and, for unlimited page size, the same set of hits as the regular engine.",
 ["inputs"], "all harvests and patterns without ranges",
 "Its tests run eight fixed queries against indexes with one or two entries per node.",
 ["src/mws/query/engine.c", "src/mws/daemon/IndexQueryHandler.cpp"],
 [("recursive matching over the stored trie", "query_engine_run")],
 ["answer set with the experimental flag on and off"])

prop("C14", "Concurrent queries do not influence each other",
 "Queries served concurrently on one index, in memory or on disk, each return exactly the answer they return when served alone, for every interleaving of their execution.",
 ["schedules"], "all interleavings of two or three concurrent queries (parse, search, format) up to the preemption bound",
 "Tests are single-threaded.",
 ["src/mws/daemon/Daemon.cpp", "src/mws/daemon/HarvestQueryHandler.cpp", "src/mws/daemon/IndexQueryHandler.cpp", "src/mws/query/SearchContext.cpp", "src/mws/dbc/DbQueryManager.cpp", "src/mws/xmlparser/readMwsQuery.cpp"],
 [("no shared mutable state on the query path; lock around the XML library", "readMwsQuery, handleQuery")],
 ["response of each request"])

prop("C15", "Thread wrapper: accepted work runs exactly once and waiting ends when it is over",
 "For every interleaving and every order of calls: a function accepted by ThreadWrapper::run is executed exactly once; run reports an error, and the function is never executed, when no thread can be created or when the wrapper was cleaned and not initialised again; clean returns only after every accepted function (also those started by workers or by other threads before clean was over) has ended, and it does return, in every thread that calls it; after init the wrapper can be used again. No sequence of calls deadlocks, and the wrapper's own state is free of data races.",
 ["schedules", "histories"], "all interleavings of controllers and workers up to a preemption bound, all call sequences up to the bound, thread creation failing at any call, spurious wake-ups",
 "No test uses the threading layer, and a test would see one schedule.",
 ["src/common/thread/ThreadWrapper.cpp", "src/common/thread/ThreadWrapper.hpp"],
 [("alive counter, active flag, mutex and condition", "ThreadWrapper")],
 ["executions of the function, return values of run, order of clean's return and the end of the functions"])

prop("C16", "Every crawl request is handed to the crawler once, in order, as it was sent",
 "For every interleaving of the network thread, the crawling thread and the shutdown, including connections that are cut: each crawl request that crawlerd answers as accepted is handed to the crawler exactly once and in the order of acceptance (unless crawlerd is stopped before), with its start URL, its count and its list of excluded links; no other request is handed to it. The queue and the fields of a request are never accessed by two threads at once, the crawler does not spin or get stuck, the shutdown ends, and nothing is accepted when no crawler could be started.",
 ["schedules", "inputs"], "all interleavings of network, crawler and shutdown up to a preemption bound, with failing connections and failing thread creation",
 "No test covers the crawler daemon, and a test would see one schedule.",
 ["src/crawler/types/SharedQueue.hpp", "src/crawler/crawler/MwsCrawler.cpp", "src/crawler/daemon/CrawlerDaemon.cpp", "src/crawler/crawlerd.cpp"],
 [("request fields collected from pieces and queued", "cd_IteratePostRequest, cd_RequestCompletedCallback"), ("consumer loop", "Crawler::run"), ("start and shutdown", "crawlerd main")],
 ["sequence of pages requested by the crawler", "answers to the requests"])

prop("C27", "Crawl requests reach the crawler exactly as sent, however they are cut",
 "For every body of a crawl request (any list of the fields urlstart, count and dontcrawl, repeated or missing, with values up to and beyond the size of 100 characters and lists up to and beyond 128 excluded links) and every way the network cuts it into pieces, the answer and the crawl depend on the fields alone: a request with a start URL of at most 100 characters is accepted and crawls from exactly that URL, with exactly that limit (none, 0 or no number: no limit) and leaving out exactly the excluded links; a request without one, or whose values do not fit, is refused as a whole and crawls nothing, or leaves out only what does not fit; values are never truncated, joined or mixed between fields, requests or connections. A connection that ends before its request does leads to no crawl; other methods and the request page change nothing; afterwards the next request is served as before.",
 ["inputs", "histories"], "all ways to cut bodies in up to three (thorough: four) pieces, all field lists up to a length, all merges of two connections, all small sequences of requests, through the real HTTP library",
 "No test covers the crawler daemon, and a test would see one way to cut a request.",
 ["src/crawler/daemon/CrawlerDaemon.cpp", "src/crawler/crawlerd.cpp", "src/crawler/crawler/MwsCrawler.cpp"],
 [("request fields collected from pieces", "cd_IteratePostRequest"), ("accept or refuse", "cd_AccessHandlerCallback, cd_RequestCompletedCallback"), ("limits and exclusions handed to the crawl", "Crawler::run, MwsCrawler")],
 ["answers to the requests", "sequence of pages requested by the crawler"])

prop("C28", "The programs do what their options say, and stop when told",
 "mws-index writes an index of exactly the harvest files that its options select (every given directory, below it only with --recursive, only the names with the extension) and ends with success only if that index can be served; it never replaces an index that exists. mwsd serves exactly the formulas of the index given by --data-path if it can be loaded, of the harvests selected by its options if there is no such index (and stores them if a data path is given; data of an earlier index is deleted only with --delete-old-data), with or without identifier renaming, stored data and the experimental engine as asked; it refuses, with a failure status, when there is nothing valid to serve, an option is invalid, a file it should write cannot be written, or its port is taken, and then leaves stored data as it was. Log, process-id and statistics files are written where asked, and relative paths mean the same with and without --daemonize. SIGTERM or SIGINT at any moment, with any connections open, ends mwsd, schemad and crawlerd, with success once they serve; a crash in any thread ends mwsd and schemad rather than leaving them hanging.",
 ["inputs", "histories", "schedules"], "all option combinations with all kinds of stored index, all histories of index operations up to a length, a signal at every system call of the main thread, all combinations of open connections",
 "The tests run libraries, not the programs, and no test sends a signal or combines options.",
 ["src/mws/mwsd.cpp", "src/mws/schemad.cpp", "src/mws/mws-index.cpp", "src/crawler/crawlerd.cpp", "src/mws/index/IndexWriter.cpp"],
 [("options to configuration", "main of mwsd, schemad, mws-index"), ("selection of harvest files", "loadHarvests"), ("old data", "createCompressedIndex"), ("waiting for a signal", "setup_signals, wait_for_signal, catch_sig")],
 ["answers over HTTP", "exit status", "files written", "time of the end"])

prop("C17", "The crawler obeys robots rules, its limits, and visits each page once",
 "For any link graph, any robots.txt and any list of excluded links, a crawl reads the site's robots.txt before any page; then requests only the start page and pages linked from pages it has read, on the host of the start page; never a page that a Disallow rule for all user agents (\"*\") or an excluded link is a prefix of (path and query), whatever the case, blanks, comments, line ends and grouping in robots.txt; no page twice, even if it is linked repeatedly, by different spellings, or its download fails; not more pages than the given count; and, if the count is not reached, every page reachable by allowed links. An invalid start URL leads to no request and no crash, and crawls do not influence each other.",
 ["inputs", "histories"], "all small link graphs, all small robots files and exclusion lists, all small lists of link spellings",
 "No test covers the crawler.",
 ["src/crawler/crawler/MwsCrawler.cpp", "src/crawler/types/Robotstxt.cpp", "src/crawler/utils/Page.cpp"],
 [("visited set and limits", "Crawler::start, cleanupLinks"), ("rule parsing and matching", "Robotstxt"), ("links and downloads", "Page")],
 ["sequence of requested URLs"])

prop("C18", "Math found on a page is extracted completely and stored without loss",
 "For any HTML page, every complete and well-formed math element that is not inside of another one is extracted exactly once and in order, with the page's URL and the element's id; for any well-formed XHTML page, every MathML-Content annotation of a math element is, likewise. The extracted expression equals the source up to namespace prefixes. Math that is incomplete or damaged is left out without disturbing the rest and without reading beyond the page. The type of the page is recognised in any valid spelling of the header. Everything extracted from every crawled page ends up in the stored, well-formed harvest files, which never replace each other or existing files.",
 ["inputs", "histories"], "all sequences of page fragments up to the bound, every cut of a page, all small histories of crawls",
 "No test covers the crawler.",
 ["src/crawler/utils/MwsGetMath.cpp", "src/crawler/crawler/MwsCrawler.cpp"],
 [("scanner of HTML pages", "get_math_blocks"), ("annotations of XHTML pages", "get_math_xhtml"), ("storage", "Crawler::storeMath, addMath")],
 ["url and content of the expressions in the harvest files"])

prop("C19", "Document conversion yields a loadable harvest with every formula of the document",
 "For any list of XHTML or HTML documents and any configuration, the generated harvest is well-formed, loads without error, and contains, in order, exactly one expression for every math element that has an identifier and a content annotation, equal to that annotation without its identifiers and cross references; its url (with -n document name and identifier, otherwise the number by which the document's text and record refer to the element) identifies its document and element, and it is linked to a record with the document's name, text, metadata and formula sources. A document that is missing, damaged or cut does not disturb the others, and success is reported only if the harvest was written completely.",
 ["inputs", "configurations"], "all small documents, all option combinations, all lists of documents",
 "No test runs the converter.",
 ["src/crawler/docs2harvest.cpp", "src/crawler/parser/MathParser.cpp", "src/crawler/parser/XmlParser.cpp"],
 [("document traversal", "MathParser"), ("escaping and assembly", "docs2harvest")],
 ["generated harvest"])

prop("C20", "Dictionaries, maps and records survive every operation sequence and round trip",
 "The symbol dictionary gives every key one stable number for life, distinct keys distinct numbers, and gives the same numbers after being saved and loaded; ordered maps behave like a mathematical map for every insertion order; encoded records decode to the values they were made from, and decoding damaged records fails cleanly.",
 ["histories", "inputs"], "all operation sequences up to the bound, all record shapes and every truncation of the encoding",
 "One test round-trips one record.",
 ["src/common/types/IdDictionary.hpp", "src/mws/types/VectorMap.hpp", "src/common/types/Parcelable.cpp"],
 [("id allocation and save format", "IdDictionary"), ("sorted vector", "VectorMap"), ("length-prefixed records", "ParcelEncoder/ParcelDecoder")],
 ["returned values"])

prop("C21", "Formula and crawl stores behave the same in memory and on disk, across reopening",
 "For every sequence of insertions and queries, both stores return for a formula exactly the records inserted for it (each with its crawl reference and position) within the requested window, and every crawl record is returned unchanged under the id given when it was stored; reopening the disk store changes nothing, and creating a store refuses to overwrite existing data unless asked to.",
 ["histories"], "all operation sequences (insert, query window, store, fetch, reopen) up to the bound",
 "Tests insert a few records into the in-memory stores only.",
 ["src/mws/dbc/LevFormulaDb.cpp", "src/mws/dbc/MemFormulaDb.cpp", "src/mws/dbc/LevCrawlDb.cpp", "src/mws/dbc/MemCrawlDb.cpp", "src/mws/dbc/DbQueryManager.cpp"],
 [("key layout", "LevFormulaDb"), ("id counters", "LevCrawlDb, MemCrawlDb")],
 ["returned records"])

prop("C22", "Directory loading visits every matching file once and only those",
 "Loading a harvest directory processes exactly the non-hidden regular files carrying the configured extension in the given directories, and in their non-hidden subdirectories exactly when recursion is requested, each once; an unreadable file or directory does not keep the others from being processed.",
 ["inputs", "configurations", "fault_sequences"], "all small directory trees (files, subdirectories, links, unreadable entries), recursion on or off",
 "Tests pass explicit file names.",
 ["src/common/utils/util.cpp", "src/mws/index/IndexBuilder.cpp", "src/common/utils/Path.hpp"],
 [("traversal", "foreachEntryInDirectory"), ("filter", "loadHarvests")],
 ["set of processed files"])

prop("C23", "Command lines are read as given or rejected",
 "For every argument vector, parsing succeeds exactly when every flag is declared, every required flag is present and every required value is supplied; then each declared flag reports presence, its values in order and nothing it was not given, for short and long spellings alike.",
 ["inputs"], "all argument vectors up to the bound over a flag alphabet",
 "No test parses a command line.",
 ["src/common/utils/FlagParser.cpp", "src/common/utils/FlagParser.hpp"],
 [("tokenizing and validation", "FlagParser::parse")],
 ["parse result and accessors"])

prop("C24", "Walking an index visits every stored formula exactly once",
 "Iterating over an index, in memory or on disk, yields each distinct indexed formula exactly once with its exact number of hits and the path that spells it, and the analytics built on it report exactly those formulae; the size predicted for the stored form equals the size written.",
 ["inputs"], "all harvests within the bounds, including repeated and nested subterms",
 "One test exports a two-node index.",
 ["src/mws/index/IndexIterator.hpp", "src/mws/index/CallbackIndexIterator.hpp", "src/mws/analytics/analytics.cpp", "src/mws/index/TmpIndex.cpp"],
 [("depth-first stack", "IndexIterator::next"), ("size computation", "TmpIndex::computeMemsectorSize")],
 ["visited leaves"])

prop("C25", "Harvest-to-JSON conversion maps every document to exactly its formulae",
 "For any harvests and any index, the produced documents are valid JSON, there is one per data record, in order, and each lists exactly the identifiers of the formulae occurring in the expressions attached to that record (those a query against the same index reports, with the urls where they occur and a position at each), with its identifier, text, metadata and formula sources unchanged. Files that do not match, or were converted before, are left alone; what precedes the fault of a damaged harvest is converted; success is reported only if every harvest was read and written completely, and a later run completes what failed or was interrupted.",
 ["inputs"], "all small harvests with any assignment of expressions to data records",
 "No test runs the converter.",
 ["src/crawler/harvests2json.cpp", "src/mws/xmlparser/processMwsHarvest.cpp"],
 [("mapping from data to formula ids", "harvests2json")],
 ["files written"])

prop("C26", "Partial reads and writes never lose, duplicate or truncate data",
 "Whenever the operating system delivers a read or accepts a write in pieces, interrupts it or ends it early, the I/O layer passes on exactly the bytes exchanged, in order and once, reports end and failure faithfully, and terminates.",
 ["fault_sequences"], "all splittings of a transfer into pieces and all positions of an early end or error, up to the bound",
 "Local files and pipes used in tests always deliver in one piece.",
 ["src/common/types/ControlSequence.cpp", "src/common/socket/OutSocket.cpp", "src/common/socket/InSocket.cpp", "src/common/utils/util.cpp", "src/common/utils/mmap.c"],
 [("loops around read/write", "ControlSequence::recv/send, getFileContents")],
 ["bytes delivered, return values"])

open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w").write(
    "".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["title"]
