From 7d42811d5f493ad5604f0848c69ad122da7a5063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:11 +0000
Subject: [PATCH 01/81] fix: range without low bound has to accept zero and
 negative numbers

numeric_limits<double>::min() is the smallest positive double.
---
 src/mws/types/CmmlToken.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index 2dc954c..e2623c5 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -228,7 +228,7 @@ std::string CmmlToken::getAttribute(const std::string& attr) const {
 /**
  * @brief CmmlToken::getRangeBounds
  * @return a pair with the first field set to the low bound
- * (MIN_DOUBLE if no low bound found)
+ * (lowest double if no low bound found)
  * and the second field set to the upper bound
  * (MAX_DOUBLE if no upper bound found)
  */
@@ -239,7 +239,7 @@ const std::pair<double, double> CmmlToken::getRangeBounds() const {
 
     auto itLow = _attributes.find(RANGE_LOW_ATTR);
     if (itLow == _attributes.end()) {
-        bounds.first = numeric_limits<double>::min();
+        bounds.first = numeric_limits<double>::lowest();
     } else {
         try {
             bounds.first = std::stod(itLow->second);
@@ -247,7 +247,7 @@ const std::pair<double, double> CmmlToken::getRangeBounds() const {
         catch (std::exception & e) {
             UNUSED(e);
             PRINT_WARN("Invalid low bound for range.");
-            bounds.first = numeric_limits<double>::min();
+            bounds.first = numeric_limits<double>::lowest();
         }
     }
 
-- 
2.43.0


From f61a3e1ac5363d2784a841352f3afc8b9f2dba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:11 +0000
Subject: [PATCH 02/81] fix: do not free an uninitialised iterator of a range
 that was never reached

A query whose search ends before its range token is reached freed a garbage
pointer; a range reached several times leaked all iterators but the last.
---
 src/mws/query/SearchContext.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index eba24a9..4227b45 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -119,19 +119,16 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
 
     typename Accessor::Index* index;
     typename Accessor::Node* root;
-    typename Accessor::Iterator* iterator;
+    unique_ptr<typename Accessor::Iterator> iterator;
 
     typename Accessor::Node* solve(typename Accessor::Index* index,
                                    typename Accessor::Node* root) {
         this->index = index;
         this->root = root;
 
-        // XXX:
-        typename Accessor::Iterator it = Accessor::getChildrenIterator(root);
-        // malloc'ed because there is no default constructor
-        iterator = (typename Accessor::Iterator*)malloc(sizeof(it));
-        assert(iterator != nullptr);
-        *iterator = it;
+        // heap allocated because there is no default constructor
+        iterator.reset(new
+            typename Accessor::Iterator(Accessor::getChildrenIterator(root)));
 
         encoded_token_t tok = Accessor::getToken(*iterator);
         while (!validSubst(tok) && iterator->hasNext()) {
@@ -176,8 +173,6 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
         return node;
     }
 
-    ~RangeCtxt() { free(iterator); }
-
  private:
     bool isCmmlNumber(encoded_token_t tok) {
         if (tok.arity != 0) return false;
-- 
2.43.0


From a3f9b67a09284b0d32b7664de158f5f87519754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:11 +0000
Subject: [PATCH 03/81] fix: result window whose offset + size overflows
 returned no hits

---
 src/mws/query/SearchContext.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index 4227b45..7e6c331 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -297,12 +297,11 @@ MwsAnswset* SearchContext::getResult(typename A::Index* index,
     auto startTime = Time::now();
 
     // Checking the arguments
-    if (offset + size > maxTotal) {
-        if (maxTotal <= offset) {
-            size = 0;
-        } else {
-            size = maxTotal - offset;
-        }
+    if (maxTotal <= offset) {
+        offset = maxTotal;
+        size = 0;
+    } else if (size > maxTotal - offset) {  // offset + size might overflow
+        size = maxTotal - offset;
     }
 
     // Retrieving the solutions
-- 
2.43.0


From 900c070ff2961422c0286db9e231812fd2401271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:52 +0000
Subject: [PATCH 04/81] fix: ampersand in attributes of harvests and queries
 was stored as "&#38;"

The SAX1 interface only substitutes &amp; in attribute values when
replaceEntities is set, so url="?a=1&amp;b=2" was reported as "?a=1&#38;b=2".
---
 src/mws/xmlparser/processMwsHarvest.cpp | 9 ++++++---
 src/mws/xmlparser/readMwsQuery.cpp      | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index a61621e..c7808e5 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -486,10 +486,13 @@ HarvestResult processHarvestFromFd(int fd, HarvestProcessor* harvestProcessor,
                                          XML_CHAR_ENCODING_UTF8)) ==
         nullptr) {
         PRINT_WARN("Error while creating the ParserContext\n");
-    }
+    } else {
+        // Otherwise an ampersand in an attribute is reported as "&#38;"
+        ctxtPtr->replaceEntities = 1;
         // Parsing the document
-        else if ((result.status = xmlParseDocument(ctxtPtr)) == -1) {
-        PRINT_WARN("Parsing XML document failed\n");
+        if ((result.status = xmlParseDocument(ctxtPtr)) == -1) {
+            PRINT_WARN("Parsing XML document failed\n");
+        }
     }
 
     // Freeing the parser context
diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 95bce09..d6946dc 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -400,6 +400,8 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
         xmlUnlockLibrary();
         return nullptr;
     }
+    // Otherwise an ampersand in an attribute is reported as "&#38;"
+    ctxtPtr->replaceEntities = 1;
 
     ret = xmlParseDocument(ctxtPtr);
     if (ret == -1) {
-- 
2.43.0


From 1e2dd7f198f787046c76004d9fefb5dfc6252979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:30 +0000
Subject: [PATCH 05/81] fix: querying an empty index crashed

The first child of a node without children was dereferenced. With
-i/-I harvests that contain no expression, any query with a variable or a
range at the root took the daemon down; so did the statistics log.
---
 src/mws/index/IndexIterator.hpp | 4 +++-
 src/mws/query/SearchContext.cpp | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mws/index/IndexIterator.hpp b/src/mws/index/IndexIterator.hpp
index 1a14660..3ebae24 100644
--- a/src/mws/index/IndexIterator.hpp
+++ b/src/mws/index/IndexIterator.hpp
@@ -63,7 +63,9 @@ class IndexIterator {
 
     typename Accessor::Node* next() {
         if (_backtrackIterators.empty()) {  // add first branch
-            _push(Accessor::getChildrenIterator(_root));
+            auto iterator = Accessor::getChildrenIterator(_root);
+            if (!iterator.isValid()) return nullptr;  // empty index
+            _push(iterator);
         } else {  // or find first unexplored branch
             while (!_backtrackIterators.back().hasNext()) {
                 _pop();
diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index 7e6c331..1f77d7e 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -129,6 +129,10 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
         // heap allocated because there is no default constructor
         iterator.reset(new
             typename Accessor::Iterator(Accessor::getChildrenIterator(root)));
+        if (!iterator->isValid()) {  // empty index
+            this->isSolved = false;
+            return nullptr;
+        }
 
         encoded_token_t tok = Accessor::getToken(*iterator);
         while (!validSubst(tok) && iterator->hasNext()) {
-- 
2.43.0


From f6d05ee074078e6c0b31cb7cacc3c515f23d8c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:24 +0000
Subject: [PATCH 06/81] fix: a recoverable XML error inside an expression broke
 the harvest parser

my_error() dropped the current token although libxml2 may go on after a
non-fatal error (e.g. an undeclared entity of a document with an external
DTD); the remaining end tags then ran into assert(false).
---
 src/mws/xmlparser/processMwsHarvest.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index c7808e5..d13be56 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -434,11 +434,6 @@ static void my_error(void* user_data, const char* msg, ...) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
 
     data->errorDetected = true;
-    if (data->currentTokenRoot) {
-        delete data->currentTokenRoot;
-        data->currentTokenRoot = nullptr;
-        data->currentToken = nullptr;
-    }
     va_start(args, msg);
     vfprintf(stderr, msg, args);
     va_end(args);
@@ -503,6 +498,9 @@ HarvestResult processHarvestFromFd(int fd, HarvestProcessor* harvestProcessor,
     // Unlocking libXML -- to allow multi-threaded use
     xmlUnlockLibrary();
 
+    // Expression which was left incomplete by an error
+    delete user_data.currentTokenRoot;
+
     result.numExpressions = user_data.parsedExpr;
 
     return result;
-- 
2.43.0


From 39e5ad0e9a4abe45dc00e8a11f0932f33bf7d3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:51 +0000
Subject: [PATCH 07/81] fix: half-written, truncated or damaged memsectors were
 loaded as valid

The header was valid from the first byte written, so an interrupted
export left a loadable file; the size and the root offset were never
checked, and failed writes were not reported.
---
 src/common/utils/mmap.h    |  2 +-
 src/mws/index/TmpIndex.cpp |  4 +--
 src/mws/index/TmpIndex.hpp |  3 +-
 src/mws/index/memsector.c  | 67 +++++++++++++++++++++++++++++++++++---
 src/mws/index/memsector.h  |  5 ++-
 5 files changed, 71 insertions(+), 10 deletions(-)

diff --git a/src/common/utils/mmap.h b/src/common/utils/mmap.h
index 53ef1a9..2c167ba 100644
--- a/src/common/utils/mmap.h
+++ b/src/common/utils/mmap.h
@@ -44,7 +44,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 typedef struct mmap_handle_s {
     const char* path;
     char*    start_addr;
-    uint32_t size;
+    size_t   size;
 } mmap_handle_t;
 
 /*--------------------------------------------------------------------------*/
diff --git a/src/mws/index/TmpIndex.cpp b/src/mws/index/TmpIndex.cpp
index 4f4f5b4..7e36cc4 100644
--- a/src/mws/index/TmpIndex.cpp
+++ b/src/mws/index/TmpIndex.cpp
@@ -142,7 +142,7 @@ uint64_t TmpIndex::computeMemsectorSize() const {
     return size;
 }
 
-void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
+int TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
     stack<vector<memsector_long_off_t> > dfsStack;
 
     auto onPush = [&](TmpIndexAccessor::Iterator iterator) {
@@ -181,7 +181,7 @@ void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
 
     dfsStack.pop();
     assert(dfsStack.empty());
-    memsector_save(mswr, rootOffset);
+    return memsector_save(mswr, rootOffset);
 }
 
 }  // namespace index
diff --git a/src/mws/index/TmpIndex.hpp b/src/mws/index/TmpIndex.hpp
index f74c18c..f2b06c6 100644
--- a/src/mws/index/TmpIndex.hpp
+++ b/src/mws/index/TmpIndex.hpp
@@ -117,8 +117,9 @@ class TmpIndex {
     /**
      * @brief exportToMemsector dump index data to a memsector index
      * @param mswr memsector writer handle
+     * @return 0 on success, -1 if the memsector could not be written
      */
-    void exportToMemsector(memsector_writer_t* mswr) const;
+    int exportToMemsector(memsector_writer_t* mswr) const;
 
  private:
     static memsector_long_off_t _writeChildrenOffsets(
diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index dbbac2c..42b1cc6 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -36,6 +36,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <crc32/crc32.h>
 
 #include "common/utils/mmap.h"
+#include "mws/index/index.h"
 #include "mws/index/memsector.h"
 
 const uint64_t MEMSECTOR_MAGIC = 0x88CAFE88;
@@ -46,6 +47,7 @@ const uint32_t MEMSECTOR_VERSION = 1;
 /*--------------------------------------------------------------------------*/
 
 static uint32_t memsector_get_checksum(const memsector_header_t* memsector);
+static int memsector_has_root(const memsector_header_t* memsector);
 
 /*--------------------------------------------------------------------------*/
 /* Implementation                                                           */
@@ -67,8 +69,11 @@ int memsector_create(memsector_writer_t* mswr, const char* path) {
     mswr->ms.version = MEMSECTOR_VERSION;
     mswr->offset = sizeof(mswr->ms);
 
-    /* write header to memsector file */
-    size_t items_writen = fwrite(&mswr->ms, sizeof(mswr->ms), 1, mswr->file);
+    /* reserve space for the header; it is written by memsector_save, such
+     * that an incomplete file is never taken for a memsector */
+    memsector_header_t no_header;
+    memset(&no_header, 0, sizeof(no_header));
+    size_t items_writen = fwrite(&no_header, sizeof(no_header), 1, mswr->file);
     if (items_writen != 1) {
         PRINT_WARN("Error while writing memsector header: %s\n",
                    strerror(errno));
@@ -83,6 +88,7 @@ void memsector_write(memsector_writer_t* msw, void* data, size_t size) {
     size_t items_writen = fwrite(data, size, 1, msw->file);
     if (items_writen != 1) {
         perror("fwrite");
+        msw->failed = true;
     }
     msw->offset += size;
     msw->ms.checksum = crc32(msw->ms.checksum, data, size);
@@ -91,10 +97,20 @@ void memsector_write(memsector_writer_t* msw, void* data, size_t size) {
 int memsector_save(memsector_writer_t* msw, memsector_long_off_t index_off) {
     msw->ms.root_off = index_off;
     msw->ms.index_size = msw->offset - sizeof(msw->ms);
-    fseek(msw->file, 0, SEEK_SET);
-    fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file);
+    if (msw->failed || fflush(msw->file) != 0 ||
+        fseek(msw->file, 0, SEEK_SET) != 0 ||
+        fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file) != 1) {
+        PRINT_WARN("Error while writing memsector: %s\n", strerror(errno));
+        fclose(msw->file);
+        return -1;
+    }
+
+    if (fclose(msw->file) != 0) {
+        PRINT_WARN("Error while closing memsector: %s\n", strerror(errno));
+        return -1;
+    }
 
-    return fclose(msw->file);
+    return 0;
 }
 
 int memsector_load(memsector_handle_t* ms, const char* path) {
@@ -109,6 +125,11 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
     // read and validate memsector data
     memsector_header_t* memsector =
         (memsector_header_t*)ms->mmap_handle.start_addr;
+    if (ms->mmap_handle.size < sizeof(*memsector)) {
+        PRINT_WARN("File %s is not a memsector (too short)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->magic != MEMSECTOR_MAGIC) {
         PRINT_WARN("File %s is not a memsector (magic mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
@@ -120,12 +141,24 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
+    if (memsector->index_size !=
+        ms->mmap_handle.size - sizeof(*memsector)) {
+        PRINT_WARN("Memsector %s is corrupted (size mismatch)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->checksum != memsector_get_checksum(memsector)) {
         PRINT_WARN("Memsector %s is corrupted (checksum mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
 
+    if (!memsector_has_root(memsector)) {
+        PRINT_WARN("Memsector %s is corrupted (invalid root)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
+
     // initialize handle data
     ms->ms = memsector;
 
@@ -151,3 +184,27 @@ static uint32_t memsector_get_checksum(const memsector_header_t* memsector) {
 
     return crc32(/* initial crc32 = */ 0, index_start, index_size);
 }
+
+/* The root is the last node written, hence it extends up to the end */
+static int memsector_has_root(const memsector_header_t* memsector) {
+    const uint64_t total_size = sizeof(*memsector) + memsector->index_size;
+    if (memsector->root_off > total_size / MEMSECTOR_ALLOC_UNIT) return 0;
+
+    const uint64_t root_start = memsector->root_off * MEMSECTOR_ALLOC_UNIT;
+    if (root_start < sizeof(*memsector)) return 0;
+    if (total_size - root_start < sizeof(inode_t)) return 0;
+
+    const inode_t* root =
+        (const inode_t*)memsector_off2addr(memsector, memsector->root_off);
+    const uint64_t data_size = total_size - root_start - sizeof(inode_t);
+    switch (root->type) {
+    case INTERNAL_NODE:
+        return data_size % sizeof(encoded_token_dict_entry_t) == 0 &&
+               root->size == data_size / sizeof(encoded_token_dict_entry_t);
+    case LONG_INTERNAL_NODE:
+        return data_size % sizeof(encoded_token_dict_entry_long_t) == 0 &&
+               root->size == data_size / sizeof(encoded_token_dict_entry_long_t);
+    default:
+        return 0;
+    }
+}
diff --git a/src/mws/index/memsector.h b/src/mws/index/memsector.h
index d3f59d8..c6c01e5 100644
--- a/src/mws/index/memsector.h
+++ b/src/mws/index/memsector.h
@@ -75,6 +75,7 @@ typedef struct memsector_writer_s {
     FILE* file;
     memsector_header_t ms;
     uint64_t offset;
+    bool failed; /* a write could not be completed */
     struct {
         uint32_t entries_promised;
         uint32_t entries_delivered;
@@ -112,7 +113,9 @@ int memsector_create(memsector_writer_t* mswr, const char* path);
 void memsector_write(memsector_writer_t* msw, void* data, size_t size);
 
 /**
- * @return 0 on success, -1 on failure.
+ * Completes the memsector: only a memsector which was saved can be loaded.
+ *
+ * @return 0 on success, -1 on failure (also of any earlier write).
  */
 int memsector_save(memsector_writer_t* msw, memsector_long_off_t index_off);
 
-- 
2.43.0


From 4ac1ddbfda9c688027c967d0a08aedd1f79601ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:57 +0000
Subject: [PATCH 08/81] fix: variables in harvests were stored as if they had a
 child, walking such an index crashed

---
 src/mws/index/ExpressionEncoder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index a97cea1..e22cf2b 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -79,7 +79,7 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
 
         if (token->isVar()) {
             string qvarName = token->getVarName();
-            encoded_token.arity = 1;
+            encoded_token.arity = 0;
             if (qvarName == "") {
                 encoded_token.id = _getAnonVarOffset() + anonVarId;
                 anonVarId++;
@@ -93,7 +93,7 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
                 }
             }
         } else if (token->isRange()) {
-            encoded_token.arity = 1;
+            encoded_token.arity = 0;
             encoded_token.id = _getRangeOffset() + anonRangeId;
             anonRangeId++;
             if (expressionInfo != nullptr) {
@@ -118,6 +118,9 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
         }
         encodedFormula->push_back(encoded_token);
 
+        // variables and ranges stand for a complete subterm
+        if (token->isVar() || token->isRange()) continue;
+
         // Replenish stack
         for (auto rIt = token->getChildNodes().rbegin();
              rIt != token->getChildNodes().rend(); rIt++) {
-- 
2.43.0


From a82eb3818ac7b41774908e7a55c2b6b962db19ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:39 +0000
Subject: [PATCH 09/81] fix: decoding a damaged record read beyond its end

---
 src/common/types/Parcelable.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/common/types/Parcelable.cpp b/src/common/types/Parcelable.cpp
index aa90960..45c854f 100644
--- a/src/common/types/Parcelable.cpp
+++ b/src/common/types/Parcelable.cpp
@@ -32,6 +32,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <assert.h>
 #include <string.h>
 
+#include <stdexcept>
 #include <string>
 
 #include "common/utils/compiler_defs.h"
@@ -89,11 +90,7 @@ size_t ParcelEncoder::getSize() const {
 // Parcel Decoder
 
 ParcelDecoder::ParcelDecoder(const char* data, size_t size)
-    : mSize(size), mData(data), mCurr(data) {
-    // Mark variables which are only used in debug build (assert)
-    RELEASE_UNUSED(mSize);
-    RELEASE_UNUSED(mData);
-}
+    : mSize(size), mData(data), mCurr(data) {}
 
 void ParcelDecoder::decode(Parcelable* parcelable) {
     parcelable->readFromParcel(this);
@@ -102,7 +99,14 @@ void ParcelDecoder::decode(Parcelable* parcelable) {
 
 void ParcelDecoder::decode(std::string* str) {
     size_t size;
+    size_t available = mSize - (mCurr - mData);
+    if (available < sizeof(size_t)) {
+        throw std::runtime_error("Parcel is damaged: unexpected end");
+    }
     memcpy(&size, mCurr, sizeof(size_t));
+    if (available - sizeof(size_t) < size) {
+        throw std::runtime_error("Parcel is damaged: string exceeds parcel");
+    }
     mCurr += sizeof(size_t);
     *str = std::string(mCurr, size);
     mCurr += size;
-- 
2.43.0


From 17f1ca2bec338ca4a55b60ef494963f444fec73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 10/81] fix: a truncated or changed dictionary was loaded as if
 it were complete

---
 src/common/types/IdDictionary.hpp | 44 ++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/common/types/IdDictionary.hpp b/src/common/types/IdDictionary.hpp
index 22c1bed..986f9d5 100644
--- a/src/common/types/IdDictionary.hpp
+++ b/src/common/types/IdDictionary.hpp
@@ -25,8 +25,9 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #ifndef _COMMON_TYPES_IDDICTIONARY_HPP
 #define _COMMON_TYPES_IDDICTIONARY_HPP
 
-#include <string.h>
 #include <errno.h>
+#include <stdint.h>
+#include <string.h>
 
 #include <map>
 #include <fstream>
@@ -71,14 +72,25 @@ class IdDictionary {
             file.open(path.c_str(), std::ios::in);
             file.exceptions(std::ifstream::badbit);
             Key key;
+            uint64_t checksum = CHECKSUM_START;
+            bool complete = false;
             while (!file.eof()) {
                 std::getline(file, key, '\0');
                 if (key.size() > 0) {
                     put(key);
+                    checksum = _updateChecksum(checksum, key);
                 } else if (!file.eof()) {
-                    PRINT_WARN("Empty key");
+                    // an empty key announces the trailer, which is last
+                    std::getline(file, key, '\0');
+                    complete = !file.eof() && key == _getTrailer(checksum) &&
+                               file.peek() == std::ifstream::traits_type::eof();
+                    break;
                 }
             }
+            if (!complete) {
+                errno = EINVAL;
+                throw std::runtime_error("damaged");
+            }
 
             PRINT_LOG("Loaded IdDictionary\n");
         }
@@ -88,20 +100,28 @@ class IdDictionary {
         }
     }
 
+    /**
+     * @brief write all keys, followed by a trailer which allows to detect
+     * whether the dictionary is complete and unchanged when it is loaded
+     * @return 0 on success, -1 if anything could not be written
+     */
     int save(std::ostream& out) const {
         ReverseLookupTable table = getReverseLookupTable();
 
         try {
-            for (auto key : table._keys) {
+            uint64_t checksum = CHECKSUM_START;
+            for (const Key& key : table._keys) {
                 out << key << '\0';
+                checksum = _updateChecksum(checksum, key);
             }
+            out << '\0' << _getTrailer(checksum) << '\0';
             out.flush();
         }
         catch (...) {
             return -1;
         }
 
-        return 0;
+        return out.good() ? 0 : -1;
     }
 
     ValueId put(const Key& key) {
@@ -137,6 +157,22 @@ class IdDictionary {
 
         return table;
     }
+
+ private:
+    static const uint64_t CHECKSUM_START = 14695981039346656037ULL;
+
+    // FNV-1a over the key and its terminator
+    static uint64_t _updateChecksum(uint64_t checksum, const Key& key) {
+        for (size_t i = 0; i <= key.size(); i++) {
+            unsigned char c = (i < key.size()) ? key[i] : '\0';
+            checksum = (checksum ^ c) * 1099511628211ULL;
+        }
+        return checksum;
+    }
+
+    Key _getTrailer(uint64_t checksum) const {
+        return std::to_string(_map.size()) + " " + std::to_string(checksum);
+    }
 };
 
 }  // namespace types
-- 
2.43.0


From fd5ad3bddbf81dc19493e3b4beabcc50387df6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 11/81] fix: an index whose databases lost records was loaded
 as if it were complete

Corrupt or truncated LevelDB logs are dropped silently by default, the
remaining records were served as the answer.
---
 src/mws/dbc/LevCrawlDb.cpp    | 28 +++++++++++++++++++++++++++-
 src/mws/dbc/LevCrawlDb.hpp    |  7 +++++++
 src/mws/dbc/LevFormulaDb.cpp  | 31 +++++++++++++++++++++++++++++++
 src/mws/dbc/LevFormulaDb.hpp  |  8 ++++++++
 src/mws/index/IndexLoader.cpp | 25 +++++++++++++++++++++++++
 5 files changed, 98 insertions(+), 1 deletion(-)

diff --git a/src/mws/dbc/LevCrawlDb.cpp b/src/mws/dbc/LevCrawlDb.cpp
index af154e1..c6b2769 100644
--- a/src/mws/dbc/LevCrawlDb.cpp
+++ b/src/mws/dbc/LevCrawlDb.cpp
@@ -29,13 +29,17 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <sys/stat.h>
 #include <sys/types.h>
 
+#include <memory>
+using std::unique_ptr;
 #include <stdexcept>
 using std::runtime_error;
 #include <string>
 using std::string;
 #include <leveldb/db.h>
 using leveldb::DB;
+using leveldb::Iterator;
 using leveldb::Options;
+using leveldb::ReadOptions;
 using leveldb::Status;
 using leveldb::DestroyDB;
 
@@ -57,10 +61,11 @@ LevCrawlDb::~LevCrawlDb() { delete mDatabase; }
 void LevCrawlDb::open(const char* path) {
     leveldb::Options options;
     options.create_if_missing = false;
+    options.paranoid_checks = true;
     leveldb::Status status = leveldb::DB::Open(options, path, &mDatabase);
 
     if (!status.ok()) {
-        throw std::runtime_error(string(path) + " not found.");
+        throw std::runtime_error(string(path) + ": " + status.ToString());
     }
 }
 
@@ -121,5 +126,26 @@ const CrawlData LevCrawlDb::getData(const CrawlId& crawlId) {
     return retrieved;
 }
 
+/** @throw runtime_error */
+uint64_t LevCrawlDb::verify() const {
+    ReadOptions options;
+    options.verify_checksums = true;
+    unique_ptr<Iterator> it(mDatabase->NewIterator(options));
+
+    uint64_t numRecords = 0;
+    for (it->SeekToFirst(); it->Valid(); it->Next()) {
+        string serial = it->value().ToString();
+        CrawlData crawlData;
+        ParcelDecoder decoder(serial.data(), serial.size());
+        decoder.decode(&crawlData);
+        numRecords++;
+    }
+    if (!it->status().ok()) {
+        throw runtime_error(it->status().ToString());
+    }
+
+    return numRecords;
+}
+
 }  // namespace dbc
 }  // namespace mws
diff --git a/src/mws/dbc/LevCrawlDb.hpp b/src/mws/dbc/LevCrawlDb.hpp
index 8ab954e..8c85131 100644
--- a/src/mws/dbc/LevCrawlDb.hpp
+++ b/src/mws/dbc/LevCrawlDb.hpp
@@ -66,6 +66,13 @@ class LevCrawlDb : public CrawlDb {
      */
     virtual const CrawlData getData(const CrawlId& crawlId);
 
+    /**
+     * @brief read all records
+     * @return number of records
+     * @throw runtime_error if the database is damaged
+     */
+    uint64_t verify() const;
+
  private:
     leveldb::DB* mDatabase;
     CrawlId mNextCrawlId;
diff --git a/src/mws/dbc/LevFormulaDb.cpp b/src/mws/dbc/LevFormulaDb.cpp
index cb68a7e..fd9107a 100644
--- a/src/mws/dbc/LevFormulaDb.cpp
+++ b/src/mws/dbc/LevFormulaDb.cpp
@@ -27,6 +27,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <stdlib.h>
 
+#include <algorithm>
+using std::max;
 #include <memory>
 using std::unique_ptr;
 #include <stdexcept>
@@ -59,6 +61,7 @@ LevFormulaDb::~LevFormulaDb() { delete mDatabase; }
 void LevFormulaDb::open(const char* path) {
     Options options;
     options.create_if_missing = false;
+    options.paranoid_checks = true;
     Status status = DB::Open(options, path, &mDatabase);
 
     if (!status.ok()) {
@@ -140,5 +143,33 @@ int LevFormulaDb::queryFormula(const types::FormulaId& formulaId,
     return 0;
 }
 
+/** @throw runtime_error */
+uint64_t LevFormulaDb::verify(CrawlId* maxCrawlId) const {
+    ReadOptions options;
+    options.verify_checksums = true;
+    unique_ptr<Iterator> it(mDatabase->NewIterator(options));
+
+    uint64_t numRecords = 0;
+    *maxCrawlId = CRAWLID_NULL;
+    for (it->SeekToFirst(); it->Valid(); it->Next()) {
+        std::string retrieved = it->value().ToString();
+        ParcelDecoder decoder(retrieved.data(), retrieved.size());
+
+        std::string crawlId_str;
+        types::FormulaPath formulaPath;
+        decoder.decode(&crawlId_str);
+        decoder.decode(&formulaPath);
+
+        CrawlId crawlId = strtoul(crawlId_str.data(), nullptr, 0);
+        *maxCrawlId = max(*maxCrawlId, crawlId);
+        numRecords++;
+    }
+    if (!it->status().ok()) {
+        throw runtime_error(it->status().ToString());
+    }
+
+    return numRecords;
+}
+
 }  // namespace dbc
 }  // namespace mws
diff --git a/src/mws/dbc/LevFormulaDb.hpp b/src/mws/dbc/LevFormulaDb.hpp
index 380a10d..cc25dd1 100644
--- a/src/mws/dbc/LevFormulaDb.hpp
+++ b/src/mws/dbc/LevFormulaDb.hpp
@@ -57,6 +57,14 @@ class LevFormulaDb : public FormulaDb {
                              unsigned                limitSize,
                              QueryCallback           queryCallback);
 
+    /**
+     * @brief read all records
+     * @param maxCrawlId set to the highest crawl id a record refers to
+     * @return number of records
+     * @throw runtime_error if the database is damaged
+     */
+    uint64_t verify(CrawlId* maxCrawlId) const;
+
  private:
     leveldb::DB* mDatabase;
     uint32_t mCounter;
diff --git a/src/mws/index/IndexLoader.cpp b/src/mws/index/IndexLoader.cpp
index 2c70bd2..4df6d24 100644
--- a/src/mws/index/IndexLoader.cpp
+++ b/src/mws/index/IndexLoader.cpp
@@ -60,6 +60,8 @@ using mws::types::FormulaPath;
 using mws::dbc::CrawlId;
 using mws::dbc::CrawlData;
 #include "mws/index/ExpressionEncoder.hpp"
+#include "mws/index/IndexAccessor.hpp"
+#include "mws/index/IndexIterator.hpp"
 #include "mws/index/IndexLoader.hpp"
 
 #include "build-gen/config.h"
@@ -67,19 +69,35 @@ using mws::dbc::CrawlData;
 namespace mws {
 namespace index {
 
+static uint64_t countHits(index_handle_t* index) {
+    uint64_t numHits = 0;
+    IndexIterator<IndexAccessor> iterator(index);
+    while (auto leaf = iterator.next()) {
+        numHits += IndexAccessor::getHitsCount(leaf);
+    }
+    return numHits;
+}
+
 IndexLoader::IndexLoader(const std::string& path, const LoadingOptions& options)
     : m_meaningDictionary(path + "/" + MEANING_DICTIONARY_FILE) {
+    uint64_t numFormulaRecords = 0;
 
     // we need the two databases to include hits
     if (options.includeHits) {
+        CrawlId maxCrawlId;
         auto formulaDb = new LevFormulaDb();
         m_formulaDb = unique_ptr<FormulaDb>(formulaDb);
         formulaDb->open((path + "/" + FORMULA_DB_FILE).c_str());
+        numFormulaRecords = formulaDb->verify(&maxCrawlId);
         PRINT_LOG("Loaded FormulaDb\n");
 
         auto crawlDb = new LevCrawlDb();
         m_crawlDb = unique_ptr<CrawlDb>(crawlDb);
         crawlDb->open((path + "/" + CRAWL_DB_FILE).c_str());
+        if (crawlDb->verify() < maxCrawlId) {
+            throw runtime_error(path + "/" + CRAWL_DB_FILE +
+                                " is incomplete");
+        }
         PRINT_LOG("Loaded CrawlDb\n");
 
         m_dbQueryManager =
@@ -96,6 +114,13 @@ IndexLoader::IndexLoader(const std::string& path, const LoadingOptions& options)
 
     m_index.ms = m_memsectorHandler.ms;
     m_index.root = memsector_get_root(&m_memsectorHandler);
+
+    // every hit has exactly one record
+    if (options.includeHits && countHits(&m_index) != numFormulaRecords) {
+        memsector_unload(&m_memsectorHandler);
+        throw runtime_error(path + "/" + FORMULA_DB_FILE +
+                            " does not belong to the index or is incomplete");
+    }
 }
 
 IndexLoader::~IndexLoader() { memsector_unload(&m_memsectorHandler); }
-- 
2.43.0


From c219993ce534a69a9bb450a3b7ab4769a8c57d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 12/81] fix: index creation ignored failed writes and left
 loadable incomplete indexes

---
 src/mws/index/IndexBuilder.cpp | 21 +++++++++++++---
 src/mws/index/IndexBuilder.hpp |  6 +++++
 src/mws/index/IndexWriter.cpp  | 44 +++++++++++++++++++++++++++-------
 src/mws/index/IndexWriter.hpp  |  2 ++
 4 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/src/mws/index/IndexBuilder.cpp b/src/mws/index/IndexBuilder.cpp
index dfedf6c..d2fe45a 100644
--- a/src/mws/index/IndexBuilder.cpp
+++ b/src/mws/index/IndexBuilder.cpp
@@ -32,6 +32,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 using std::set;
 #include <stack>
 using std::stack;
+#include <stdexcept>
+using std::exception;
 #include <string>
 using std::string;
 #include <vector>
@@ -79,11 +81,20 @@ IndexBuilder::IndexBuilder(dbc::FormulaDb* formulaDb, dbc::CrawlDb* crawlDb,
       m_crawlDb(crawlDb),
       m_index(index),
       m_meaningDictionary(meaningDictionary),
-      m_indexingOptions(std::move(encodingOptions)) {}
+      m_indexingOptions(std::move(encodingOptions)),
+      m_failed(false) {}
 
 CrawlId IndexBuilder::indexCrawlData(const CrawlData& crawlData) {
     if (m_crawlDb != nullptr) {
-        return m_crawlDb->putData(crawlData);
+        try {
+            return m_crawlDb->putData(crawlData);
+        }
+        catch (const exception& e) {
+            // the caller may be a C library, which exceptions cannot pass
+            PRINT_WARN("%s\n", e.what());
+            m_failed = true;
+            return CRAWLID_NULL;
+        }
     } else {
         return CRAWLID_NULL;
     }
@@ -110,7 +121,11 @@ int IndexBuilder::indexContentMath(const CmmlToken* cmmlToken,
             types::FormulaPath formulaPath;
             formulaPath.xmlId = xmlId;
             formulaPath.xpath = token->getXpath();
-            m_formulaDb->insertFormula(leaf->id, crawlId, formulaPath);
+            if (m_formulaDb->insertFormula(leaf->id, crawlId, formulaPath) !=
+                0) {
+                PRINT_WARN("Could not store a formula\n");
+                m_failed = true;
+            }
             leaf->solutions++;
             numSubExpressions++;
         }
diff --git a/src/mws/index/IndexBuilder.hpp b/src/mws/index/IndexBuilder.hpp
index 5733bef..3ae2c72 100644
--- a/src/mws/index/IndexBuilder.hpp
+++ b/src/mws/index/IndexBuilder.hpp
@@ -58,6 +58,7 @@ class IndexBuilder {
     mws::index::TmpIndex* m_index;
     index::MeaningDictionary* m_meaningDictionary;
     index::ExpressionEncoder::Config m_indexingOptions;
+    bool m_failed;
 
  public:
     IndexBuilder(dbc::FormulaDb* formulaDb, dbc::CrawlDb* crawlDb,
@@ -68,6 +69,11 @@ class IndexBuilder {
 
     const mws::index::TmpIndex* getIndex() const { return m_index; }
 
+    /**
+     * @return whether any of the data could not be stored
+     */
+    bool hasFailed() const { return m_failed; }
+
     /**
      * @brief index crawl data
      * @param crawlData URL and opaque data given in the crawled harvest
diff --git a/src/mws/index/IndexWriter.cpp b/src/mws/index/IndexWriter.cpp
index 717c1b9..bb41712 100644
--- a/src/mws/index/IndexWriter.cpp
+++ b/src/mws/index/IndexWriter.cpp
@@ -28,9 +28,14 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
   * @date 29 May 2014
   */
 
+#include <errno.h>
+#include <string.h>
+#include <unistd.h>
+
 #include <cinttypes>
 #include <stdexcept>
 using std::exception;
+using std::runtime_error;
 #include <string>
 using std::string;
 #include <fstream>
@@ -53,8 +58,15 @@ using common::utils::create_directory;
 namespace mws {
 namespace index {
 
+static void removeFile(const string& path) {
+    if (unlink(path.c_str()) != 0 && errno != ENOENT) {
+        throw runtime_error(path + ": " + strerror(errno));
+    }
+}
+
 int createCompressedIndex(const IndexConfiguration& config) {
     const std::string output_dir = config.dataPath;
+    const std::string memsector_path = output_dir + "/" + INDEX_MEMSECTOR_FILE;
     memsector_writer_t mwsr;
     unique_ptr<dbc::CrawlDb> crawlDb;
     unique_ptr<dbc::FormulaDb> formulaDb;
@@ -66,14 +78,18 @@ int createCompressedIndex(const IndexConfiguration& config) {
 
     try {
         create_directory(output_dir);
+        // The memsector is removed first and written last, such that an
+        // incomplete index cannot be loaded
+        if (config.deleteOldData) removeFile(memsector_path);
         auto crawlLevDb = new dbc::LevCrawlDb();
+        crawlDb.reset(crawlLevDb);
         crawlLevDb->create_new((output_dir + "/" + CRAWL_DB_FILE).c_str(),
                                config.deleteOldData);
-        crawlDb.reset(crawlLevDb);
         auto formulaLevDb = new dbc::LevFormulaDb();
+        formulaDb.reset(formulaLevDb);
         formulaLevDb->create_new((output_dir + "/" + FORMULA_DB_FILE).c_str(),
                                  config.deleteOldData);
-        formulaDb.reset(formulaLevDb);
+        removeFile(memsector_path);
     }
     catch (exception & e) {
         PRINT_WARN("%s\n", e.what());
@@ -88,18 +104,28 @@ int createCompressedIndex(const IndexConfiguration& config) {
         return EXIT_FAILURE;
     }
     PRINT_LOG("%" PRIu64 " expressions loaded.\n", numExpressions);
+    if (indexBuilder.hasFailed()) {
+        PRINT_WARN("Not all data could be stored. Aborting...\n");
+        return EXIT_FAILURE;
+    }
 
-    memsector_create(&mwsr, (output_dir + "/" + INDEX_MEMSECTOR_FILE).c_str());
-    index.exportToMemsector(&mwsr);
+    fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
+            std::ios::out);
+    int status = meaningDictionary.save(os);
+    if (fb.close() == nullptr || status != 0) {
+        PRINT_WARN("Could not store the dictionary. Aborting...\n");
+        return EXIT_FAILURE;
+    }
+
+    if (memsector_create(&mwsr, memsector_path.c_str()) != 0 ||
+        index.exportToMemsector(&mwsr) != 0) {
+        PRINT_WARN("Could not store the index. Aborting...\n");
+        return EXIT_FAILURE;
+    }
     PRINT_LOG("Created index of %s\n",
               humanReadableByteCount(mwsr.ms.index_size,
                                      /* si= */ false).c_str());
 
-    fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
-            std::ios::out);
-    meaningDictionary.save(os);
-    fb.close();
-
     return EXIT_SUCCESS;
 }
 
diff --git a/src/mws/index/IndexWriter.hpp b/src/mws/index/IndexWriter.hpp
index 19f0875..2ce4081 100644
--- a/src/mws/index/IndexWriter.hpp
+++ b/src/mws/index/IndexWriter.hpp
@@ -41,6 +41,8 @@ struct IndexConfiguration {
     HarvesterConfiguration harvester;
     std::string dataPath;
     bool deleteOldData;
+
+    IndexConfiguration() : deleteOldData(false) {}
 };
 
 /**
-- 
2.43.0


From d63f4fcc8312790a3681f06586688af8d7bc4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:28 +0000
Subject: [PATCH 13/81] fix: leftovers of a database which could not be deleted
 ended up in the new one

---
 src/mws/dbc/LevCrawlDb.cpp   | 5 ++++-
 src/mws/dbc/LevFormulaDb.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mws/dbc/LevCrawlDb.cpp b/src/mws/dbc/LevCrawlDb.cpp
index c6b2769..cd5036d 100644
--- a/src/mws/dbc/LevCrawlDb.cpp
+++ b/src/mws/dbc/LevCrawlDb.cpp
@@ -73,7 +73,10 @@ void LevCrawlDb::open(const char* path) {
 void LevCrawlDb::create_new(const char* path,
                             bool deleteIfExists) {
     if (deleteIfExists) {
-        (void)DestroyDB(path, Options());
+        Status status = DestroyDB(path, Options());
+        if (!status.ok()) {
+            throw runtime_error(status.ToString());
+        }
     }
 
     Options options;
diff --git a/src/mws/dbc/LevFormulaDb.cpp b/src/mws/dbc/LevFormulaDb.cpp
index fd9107a..51ce327 100644
--- a/src/mws/dbc/LevFormulaDb.cpp
+++ b/src/mws/dbc/LevFormulaDb.cpp
@@ -72,7 +72,10 @@ void LevFormulaDb::open(const char* path) {
 /** @throw runtime_error */
 void LevFormulaDb::create_new(const char* path, bool deleteIfExists) {
     if (deleteIfExists) {
-        (void)DestroyDB(path, Options());
+        Status status = DestroyDB(path, Options());
+        if (!status.ok()) {
+            throw runtime_error(status.ToString());
+        }
     }
 
     Options options;
-- 
2.43.0


From 874d33cd9ba622afab9062ef19122a311a9fcdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:46 +0000
Subject: [PATCH 14/81] fix: a schema query asking for ids crashed the daemon

---
 src/mws/xmlparser/readMwsQuery.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index d6946dc..f0036b0 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -201,7 +201,8 @@ static void my_startElement(void* user_data, const xmlChar* name,
                             data->result->responseFormatter =
                                 RESPONSE_FORMATTER_MWS_JSON;
                         }
-                    } else if (strcmp((char*)attrs[1], "mws-ids") == 0) {
+                    } else if (strcmp((char*)attrs[1], "mws-ids") == 0 &&
+                               !schemaMode) {
                         data->result->responseFormatter =
                             RESPONSE_FORMATTER_MWS_IDS;
                         data->result->options.includeHits = false;
-- 
2.43.0


From b554029bcfc44a8be6dedbd24dfa58de2b182c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:27 +0000
Subject: [PATCH 15/81] fix: the data of interrupted requests was never
 released

---
 src/mws/daemon/Daemon.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mws/daemon/Daemon.cpp b/src/mws/daemon/Daemon.cpp
index 623333c..ea210e6 100644
--- a/src/mws/daemon/Daemon.cpp
+++ b/src/mws/daemon/Daemon.cpp
@@ -194,7 +194,6 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
             size_t nbytes = fwrite(upload_data, sizeof(char), *upload_data_size,
                                    memstream->getInput());
             if (nbytes <= 0) {
-                delete memstream;
                 return MHD_NO;
             }
 
@@ -212,6 +211,7 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
         qMode = QueryMode::QUERY_SCHEMA;
     }
     unique_ptr<Query> mwsQuery(readMwsQuery(memstream->getOutputFile(), qMode));
+    *ptr = nullptr;
     delete memstream;
 
     // Check if query failed or is empty
@@ -270,6 +270,19 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
     return ret;
 }
 
+/// Releases what is left of a request, which might have been interrupted
+static void requestCompletedCallback(void* cls,
+                                     struct MHD_Connection* connection,
+                                     void** ptr,
+                                     enum MHD_RequestTerminationCode code) {
+    UNUSED(cls);
+    UNUSED(connection);
+    UNUSED(code);
+
+    delete (MemStream*)*ptr;
+    *ptr = nullptr;
+}
+
 Daemon::Daemon(QueryHandler* queryHandler, const Config& config)
     : _queryHandler(queryHandler) {
 
@@ -285,7 +298,9 @@ Daemon::Daemon(QueryHandler* queryHandler, const Config& config)
     _mhd = MHD_start_daemon(mhd_flags, config.port, (MHD_AcceptPolicyCallback)acceptPolicyCallback,
                             /* PolicyContext = */ nullptr,
                             (MHD_AccessHandlerCallback)accessHandlerCallback, _queryHandler.get(),
-                            MHD_OPTION_CONNECTION_LIMIT, 20, MHD_OPTION_END);
+                            MHD_OPTION_CONNECTION_LIMIT, 20,
+                            MHD_OPTION_NOTIFY_COMPLETED,
+                            requestCompletedCallback, nullptr, MHD_OPTION_END);
     if (_mhd == nullptr) {
         throw runtime_error(
             formattedString("MHD_start_daemon: %s", strerror(errno)));
-- 
2.43.0


From 39f620165bca80882c0ff53403e743a8e7bb9805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 16/81] fix: a read error while answering a query took the
 daemon down

---
 src/mws/daemon/Daemon.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mws/daemon/Daemon.cpp b/src/mws/daemon/Daemon.cpp
index ea210e6..c9d1189 100644
--- a/src/mws/daemon/Daemon.cpp
+++ b/src/mws/daemon/Daemon.cpp
@@ -226,7 +226,14 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
     mwsQuery->applyRestrictions();
 #endif
 
-    unique_ptr<GenericAnswer> answset(qh->handleQuery(mwsQuery.get()));
+    unique_ptr<GenericAnswer> answset;
+    try {
+        answset.reset(qh->handleQuery(mwsQuery.get()));
+    }
+    catch (const std::exception& e) {
+        // e.g. the index cannot be read; the caller is a C library
+        PRINT_WARN("%s\n", e.what());
+    }
     if (answset == nullptr) {
         PRINT_WARN("Error while obtaining answer set\n");
         return sendXmlGenericResponse(connection, XML_MWS_SERVER_ERROR,
-- 
2.43.0


From bb957fa55b79478eb4ec5f47c5e9d59438455685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:21 +0000
Subject: [PATCH 17/81] fix: formula ids above 2^31 were reported as negative
 numbers

---
 src/mws/xmlparser/MwsIdsResponseFormatter.cpp     | 2 +-
 src/mws/xmlparser/SchemaJsonResponseFormatter.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mws/xmlparser/MwsIdsResponseFormatter.cpp b/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
index 916a12b..e0eec64 100644
--- a/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
+++ b/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
@@ -78,7 +78,7 @@ int MwsIdsResponseFormatter::writeData(const GenericAnswer* ans,
     // Create ids field
     json_object* json_ids = json_object_new_array();
     for (FormulaId formulaId : answerSet.ids) {
-        json_object_array_add(json_ids, json_object_new_int(formulaId));
+        json_object_array_add(json_ids, json_object_new_int64(formulaId));
     }
     json_object_object_add(json_doc, "ids", json_ids);
 
diff --git a/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp b/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
index dd9ed0f..ae79e27 100644
--- a/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
+++ b/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
@@ -83,7 +83,7 @@ int SchemaJsonResponseFormatter::writeData(const GenericAnswer* ans,
 
         json_object* formulae = json_object_new_array();
         for (const uint32_t f_id : exprSch.formulae) {
-            json_object_array_add(formulae, json_object_new_int(f_id));
+            json_object_array_add(formulae, json_object_new_int64(f_id));
         }
         json_object_object_add(schema, "formulae", formulae);
 
-- 
2.43.0


From 6fec3376cce439d2525cbd7ac05c99298e909b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:21 +0000
Subject: [PATCH 18/81] fix: schemata in JSON responses were not escaped and so
 not well-formed

---
 src/mws/types/CmmlToken.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index e2623c5..6c9cd6c 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -142,6 +142,29 @@ string CmmlToken::getXpathRelative() const {
     return xpath_relative;
 }
 
+static string escapeXml(const string& text) {
+    string escaped;
+    for (const char c : text) {
+        switch (c) {
+            case '&':
+                escaped += "&amp;";
+                break;
+            case '<':
+                escaped += "&lt;";
+                break;
+            case '>':
+                escaped += "&gt;";
+                break;
+            case '"':
+                escaped += "&quot;";
+                break;
+            default:
+                escaped += c;
+        }
+    }
+    return escaped;
+}
+
 string CmmlToken::toString(int indent) const {
     stringstream ss;
     string padding;
@@ -153,10 +176,10 @@ string CmmlToken::toString(int indent) const {
     ss << padding << "<" << _tag << " ";
 
     for (mIt = _attributes.begin(); mIt != _attributes.end(); mIt++) {
-        ss << mIt->first << "=\"" << mIt->second << "\" ";
+        ss << mIt->first << "=\"" << escapeXml(mIt->second) << "\" ";
     }
 
-    ss << ">" << _textContent;
+    ss << ">" << escapeXml(_textContent);
 
     if (_childNodes.size()) {
         ss << "\n";
-- 
2.43.0


From 50ae55cb5b04b114141fbbea2f9e2c3ee975d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 19/81] fix: truncated responses were reported as completely
 written

---
 src/mws/xmlparser/MwsIdsResponseFormatter.cpp     | 10 ++++++++--
 src/mws/xmlparser/MwsJsonResponseFormatter.cpp    | 11 +++++++++--
 src/mws/xmlparser/MwsXmlResponseFormatter.cpp     |  3 +++
 src/mws/xmlparser/SchemaJsonResponseFormatter.cpp | 11 +++++++++--
 src/mws/xmlparser/SchemaXmlResponseFormatter.cpp  |  3 +++
 5 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/mws/xmlparser/MwsIdsResponseFormatter.cpp b/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
index e0eec64..225c816 100644
--- a/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
+++ b/src/mws/xmlparser/MwsIdsResponseFormatter.cpp
@@ -40,6 +40,7 @@ using std::string;
 
 #include "mws/types/FormulaPath.hpp"
 using mws::types::FormulaId;
+#include "common/utils/compiler_defs.h"
 #include "mws/types/GenericAnswer.hpp"
 #include "mws/types/MwsAnswset.hpp"
 #include "mws/xmlparser/MwsIdsResponseFormatter.hpp"
@@ -90,11 +91,16 @@ int MwsIdsResponseFormatter::writeData(const GenericAnswer* ans,
                            json_object_new_int(answerSet.ids.size()));
 
     string json_string = json_object_to_json_string(json_doc);
-    fwrite(json_string.c_str(), json_string.size(), 1, output);
+    const size_t bytes_written =
+        fwrite(json_string.c_str(), sizeof(char), json_string.size(), output);
 
     json_object_put(json_doc);
 
-    return json_string.size();
+    if (bytes_written != json_string.size()) {
+        PRINT_WARN("Error while writing json answers\n");
+        return -1;
+    }
+    return bytes_written;
 }
 
 }  // namespace parser
diff --git a/src/mws/xmlparser/MwsJsonResponseFormatter.cpp b/src/mws/xmlparser/MwsJsonResponseFormatter.cpp
index 692f0fd..ef9947f 100644
--- a/src/mws/xmlparser/MwsJsonResponseFormatter.cpp
+++ b/src/mws/xmlparser/MwsJsonResponseFormatter.cpp
@@ -40,6 +40,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <vector>
 #include <string>
 
+#include "common/utils/compiler_defs.h"
 #include "mws/types/GenericAnswer.hpp"
 #include "mws/types/MwsAnswset.hpp"
 #include "mws/xmlparser/MwsJsonResponseFormatter.hpp"
@@ -108,10 +109,16 @@ int MwsJsonResponseFormatter::writeData(const GenericAnswer* ans,
     json_object_object_add(json_doc, "hits", hits);
 
     string json_string = json_object_to_json_string(json_doc);
-    fwrite(json_string.c_str(), json_string.size(), 1, output);
+    const size_t bytes_written =
+        fwrite(json_string.c_str(), sizeof(char), json_string.size(), output);
 
     json_object_put(json_doc);
-    return json_string.size();
+
+    if (bytes_written != json_string.size()) {
+        PRINT_WARN("Error while writing json answers\n");
+        return -1;
+    }
+    return bytes_written;
 }
 }
 }
diff --git a/src/mws/xmlparser/MwsXmlResponseFormatter.cpp b/src/mws/xmlparser/MwsXmlResponseFormatter.cpp
index 1a82b39..2b46899 100644
--- a/src/mws/xmlparser/MwsXmlResponseFormatter.cpp
+++ b/src/mws/xmlparser/MwsXmlResponseFormatter.cpp
@@ -72,6 +72,9 @@ static inline int fileXmlOutputWriteCallback(void* _ctxt, const char* data,
     LocalContext* ctxt = (LocalContext*)_ctxt;
     size_t bytes_written = fwrite(data, sizeof(char), data_size, ctxt->file);
     ctxt->total_bytes_written += bytes_written;
+    if (bytes_written != (size_t)data_size) {
+        return -1;
+    }
     return bytes_written;
 }
 
diff --git a/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp b/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
index ae79e27..85bf32e 100644
--- a/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
+++ b/src/mws/xmlparser/SchemaJsonResponseFormatter.cpp
@@ -36,6 +36,7 @@ using std::string;
 
 #include "mws/types/CmmlToken.hpp"
 using mws::types::CmmlToken;
+#include "common/utils/compiler_defs.h"
 #include "mws/types/GenericAnswer.hpp"
 #include "mws/types/SchemaAnswset.hpp"
 #include "mws/types/ExprSchema.hpp"
@@ -98,10 +99,16 @@ int SchemaJsonResponseFormatter::writeData(const GenericAnswer* ans,
     json_object_object_add(json_doc, "schemata", schemata);
 
     string json_string = json_object_to_json_string(json_doc);
-    fwrite(json_string.c_str(), json_string.size(), 1, output);
+    const size_t bytes_written =
+        fwrite(json_string.c_str(), sizeof(char), json_string.size(), output);
 
     json_object_put(json_doc);
-    return json_string.size();
+
+    if (bytes_written != json_string.size()) {
+        PRINT_WARN("Error while writing json answers\n");
+        return -1;
+    }
+    return bytes_written;
 }
 }
 }
diff --git a/src/mws/xmlparser/SchemaXmlResponseFormatter.cpp b/src/mws/xmlparser/SchemaXmlResponseFormatter.cpp
index c5c0c2e..79814a3 100644
--- a/src/mws/xmlparser/SchemaXmlResponseFormatter.cpp
+++ b/src/mws/xmlparser/SchemaXmlResponseFormatter.cpp
@@ -66,6 +66,9 @@ static inline int fileXmlOutputWriteCallback(void* _ctxt, const char* data,
     LocalContext* ctxt = (LocalContext*)_ctxt;
     size_t bytes_written = fwrite(data, sizeof(char), data_size, ctxt->file);
     ctxt->total_bytes_written += bytes_written;
+    if (bytes_written != (size_t)data_size) {
+        return -1;
+    }
     return bytes_written;
 }
 
-- 
2.43.0


From 80edd1f5d8b6d5dd66069a2b117f7f5269270eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 20/81] fix: formulae cut at different relative depths shared a
 schema they are no instances of

---
 src/mws/query/SchemaEngine.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index e439292..43b73e6 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -35,6 +35,8 @@ using std::string;
 #include <sstream>
 using std::ostringstream;
 using std::istringstream;
+#include <memory>
+using std::unique_ptr;
 #include <unordered_map>
 using std::unordered_map;
 #include <utility>
@@ -65,7 +67,7 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
     SchemaAnswset* result = new SchemaAnswset();
 
     unordered_map<string, vector<uint32_t>> schemaGroup;
-    unordered_map<string, uint8_t> cutoffs;
+    unordered_map<string, unique_ptr<CmmlToken>> schemaRoots;
     for (size_t i = 0; i < formulae.size(); i++) {
         const EncodedFormula& expr = formulae[i];
         uint8_t cutoff;
@@ -81,17 +83,20 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
             assert(false);
         }
 
-        string hash = hashExpr(reduceFormula(expr, cutoff));
-
-        auto it = schemaGroup.find(hash);
+        // with relative cutoffs the tokens which are left after reducing do not
+        // tell where the formula was cut, so we need to group by the schema
+        unique_ptr<CmmlToken> root(
+            decodeFormula(reduceFormula(expr, cutoff), cutoff));
+        const string schema = root->toString();
+        auto it = schemaGroup.find(schema);
         if (it != schemaGroup.end()) {
             it->second.push_back(i);
         } else {
-            schemaGroup[hash] = {(uint32_t)i};
+            schemaGroup[schema] = {(uint32_t)i};
+            schemaRoots[schema] = std::move(root);
         }
-        // we need to store the cutoff for each schemata in order to decode it
-        cutoffs[hash] = cutoff;
     }
+
     result->total = schemaGroup.size();
 
     vector<pair<string, vector<uint32_t>>> topExpr(schemaGroup.begin(),
@@ -109,9 +114,8 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
 
     result->schemata.reserve(topExpr.size());
     for (auto& p : topExpr) {
-        EncodedFormula e = unhashExpr(p.first);
         ExprSchema sch;
-        sch.root = decodeFormula(e, cutoffs[p.first]);
+        sch.root = schemaRoots[p.first].release();
         sch.coverage = p.second.size();
         sch.formulae = p.second;
         result->schemata.push_back(sch);
-- 
2.43.0


From 5d37a57ed97bc4463b3fd9092d80e8d20c63d509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 21/81] fix: substitutions inside the operator of an
 application were missing

---
 src/mws/daemon/SchemaQueryHandler.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 8508940..5103f7c 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -147,12 +147,6 @@ void SchemaQueryHandler::getSubstitutions(CmmlToken* exprRoot,
         return;
     }
 
-    // disregard the first child of apply
-    if (currExprTag == "apply") {
-        expr_it++;
-        schema_it++;
-    }
-
     /* we know that both exprChildren and schemaChildren have the same length,
      * so it is enough to check for one */
     while (expr_it != exprChildren.end()) {
-- 
2.43.0


From 966109f20fd76a51c797110387aee73c861115e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 22/81] fix: a formula which cannot be encoded shifted the
 members of all schemata

---
 src/mws/daemon/SchemaQueryHandler.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 5103f7c..6ec6504 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -69,11 +69,16 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
 
     vector<const CmmlToken*> exprsTokens;
     exprsTokens.reserve(query->tokens.size());
-    for (const CmmlToken* tok : query->tokens) {
+    // position in the query of each of the encoded expressions
+    vector<uint32_t> exprsIds;
+    exprsIds.reserve(query->tokens.size());
+    for (size_t i = 0; i < query->tokens.size(); i++) {
+        const CmmlToken* tok = query->tokens[i];
         EncodedFormula encTok;
         if (encoder.encode(_encodingConfig, tok, &encTok, nullptr) == 0) {
             exprs.push_back(std::move(encTok));
             exprsTokens.push_back(tok);
+            exprsIds.push_back(i);
         }
     }
 
@@ -99,6 +104,9 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
     /* we can't deduce the substitutions in SchemaEngine because we need
      * the original query, so we will do it here */
     for (ExprSchema& sch : result->schemata) {
+        for (uint32_t& formulaId : sch.formulae) {
+            formulaId = exprsIds[formulaId];
+        }
         /* As a heuristic,
          * we choose the first formula in this class to be schematized */
         const uint32_t representativeId = sch.formulae.front();
-- 
2.43.0


From 21fe5056d802f955840cb5921f2e0d4e4a5f5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 23/81] fix: schema depths above 255 wrapped around

---
 src/mws/daemon/SchemaQueryHandler.cpp | 2 +-
 src/mws/query/SchemaEngine.cpp        | 8 ++++----
 src/mws/query/SchemaEngine.hpp        | 6 +++---
 src/mws/types/Query.hpp               | 2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 6ec6504..4aaa3e3 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -57,7 +57,7 @@ SchemaQueryHandler::SchemaQueryHandler(const ExpressionEncoder::Config& conf)
 SchemaQueryHandler::~SchemaQueryHandler() {}
 
 GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
-    const uint8_t max_depth = query->max_depth;
+    const uint32_t max_depth = query->max_depth;
     const uint32_t max_total = query->attrResultMaxSize;
 
     MeaningDictionary dict;
diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index 43b73e6..a65ed72 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -63,14 +63,14 @@ SchemaEngine::SchemaEngine(const MeaningDictionary& meaningDictionary,
 SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
                                 const vector<const CmmlToken*>& exprsTokens,
                                 uint32_t max_total,
-                                uint8_t depth) const {
+                                uint32_t depth) const {
     SchemaAnswset* result = new SchemaAnswset();
 
     unordered_map<string, vector<uint32_t>> schemaGroup;
     unordered_map<string, unique_ptr<CmmlToken>> schemaRoots;
     for (size_t i = 0; i < formulae.size(); i++) {
         const EncodedFormula& expr = formulae[i];
-        uint8_t cutoff;
+        uint32_t cutoff;
         switch (_config.cutoffHeuristic) {
         case ABSOLUTE:
             cutoff = depth;
@@ -125,7 +125,7 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
 }
 
 EncodedFormula SchemaEngine::reduceFormula(const EncodedFormula& expr,
-                                           uint8_t max_depth) const {
+                                           uint32_t max_depth) const {
     EncodedFormula reducedExpr;
     if (expr.empty()) return {};
     if (max_depth == 0) return {};
@@ -230,7 +230,7 @@ EncodedFormula SchemaEngine::unhashExpr(const std::string& exprHash) const {
 }
 
 CmmlToken* SchemaEngine::decodeFormula(const EncodedFormula& expr,
-                                       uint8_t max_depth) const {
+                                       uint32_t max_depth) const {
     if (expr.size() == 0) {
         CmmlToken* unifZero = CmmlToken::newRoot();
         unifZero->setTag(types::QVAR_TAG);
diff --git a/src/mws/query/SchemaEngine.hpp b/src/mws/query/SchemaEngine.hpp
index bc582d7..0d47bd0 100644
--- a/src/mws/query/SchemaEngine.hpp
+++ b/src/mws/query/SchemaEngine.hpp
@@ -66,20 +66,20 @@ class SchemaEngine {
     mws::SchemaAnswset* getSchemata(const std::vector<EncodedFormula>& formulae,
                             const std::vector<const types::CmmlToken*>& toks,
                             uint32_t max_total,
-                            uint8_t depth = DEFAULT_SCHEMA_DEPTH) const;
+                            uint32_t depth = DEFAULT_SCHEMA_DEPTH) const;
 
  private:
     const index::ExpressionDecoder decoder;
     const Config _config;
 
     EncodedFormula reduceFormula(const EncodedFormula& expr,
-                                 uint8_t depth) const;
+                                 uint32_t depth) const;
     size_t completeExpression(const EncodedFormula& expr,
                               size_t startExpr) const;
     std::string hashExpr(const EncodedFormula& expr) const;
     EncodedFormula unhashExpr(const std::string& exprHash) const;
     types::CmmlToken* decodeFormula(const EncodedFormula& expr,
-                                    uint8_t depth) const;
+                                    uint32_t depth) const;
     std::pair<std::string, std::string> decodeMeaning(
         const types::Meaning& meaning) const;
     bool isApply(const encoded_token_t& tok) const;
diff --git a/src/mws/types/Query.hpp b/src/mws/types/Query.hpp
index 0f3ea24..1c4abf4 100644
--- a/src/mws/types/Query.hpp
+++ b/src/mws/types/Query.hpp
@@ -78,7 +78,7 @@ struct Query {
     /// Boolean value showing if the query needed restrictions
     bool restricted;
     /// Depth used for schema-queries; ignored for regular mws-queries
-    uint8_t max_depth;
+    uint32_t max_depth;
     /// Cutoff mode used for schema-queries; ignored for regular mws-queries
     char cutoff_mode;
 
-- 
2.43.0


From 6de3741669f80d8d3df80307589bdb2e0fc1509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 24/81] fix: the cutoff mode of schema queries was
 uninitialised unless given

---
 src/mws/types/Query.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/types/Query.hpp b/src/mws/types/Query.hpp
index 1c4abf4..56ed89a 100644
--- a/src/mws/types/Query.hpp
+++ b/src/mws/types/Query.hpp
@@ -90,7 +90,8 @@ struct Query {
           attrResultTotalReq(DEFAULT_QUERY_TOTALREQ),
           attrResultTotalReqNr(DEFAULT_QUERY_RESULT_TOTAL),
           restricted(false),
-          max_depth(DEFAULT_SCHEMA_DEPTH) {}
+          max_depth(DEFAULT_SCHEMA_DEPTH),
+          cutoff_mode('A') {}
 
     /// Destructor of the MwsQuery class
     ~Query() {
-- 
2.43.0


From 2b814dd742d04c5e5015d6663d6c5e62c107114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 25/81] fix: schemata of renamed identifiers were malformed and
 renamed across formulae

---
 src/mws/daemon/SchemaQueryHandler.cpp | 7 ++++---
 src/mws/query/SchemaEngine.cpp        | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 4aaa3e3..31972cf 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -61,9 +61,6 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
     const uint32_t max_total = query->attrResultMaxSize;
 
     MeaningDictionary dict;
-    // using a HarvestEncoder to be able to fill
-    // the MeaningDictonary on the fly, so we don't require an index for ids
-    HarvestEncoder encoder(&dict);
     vector<EncodedFormula> exprs;
     exprs.reserve(query->tokens.size());
 
@@ -75,6 +72,10 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
     for (size_t i = 0; i < query->tokens.size(); i++) {
         const CmmlToken* tok = query->tokens[i];
         EncodedFormula encTok;
+        // using a HarvestEncoder to be able to fill
+        // the MeaningDictonary on the fly, so we don't require an index for ids
+        // (each formula has its own one, renaming is local to a formula)
+        HarvestEncoder encoder(&dict);
         if (encoder.encode(_encodingConfig, tok, &encTok, nullptr) == 0) {
             exprs.push_back(std::move(encTok));
             exprsTokens.push_back(tok);
diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index a65ed72..9e447e1 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -332,7 +332,8 @@ pair<string, string> SchemaEngine::decodeMeaning(
     const types::Meaning& meaning) const {
     size_t delim_pos = meaning.find('#');
     if (delim_pos == string::npos) {
-        return {meaning, ""};
+        // only renamed identifiers have no tag in their meaning
+        return {"ci", meaning};
     }
 
     string tag = meaning.substr(0, delim_pos);
-- 
2.43.0


From 8699048c84896802fa5a9374274c8ac0480b68dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:41 +0000
Subject: [PATCH 26/81] fix: the experimental engine only followed the first
 child of each node

---
 src/mws/query/engine.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index d72e77a..2c574f7 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -304,12 +304,13 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             encoded_token_t entry_token;
             memsector_long_off_t entry_off;
             if (node_type == LONG_INTERNAL_NODE) {
-                entry_token = long_data->token;
-                entry_off = long_data->off;
+                entry_token = long_data[i].token;
+                entry_off = long_data[i].off;
             } else {
-                entry_token = data->token;
-                entry_off = data->off;
+                entry_token = data[i].token;
+                entry_off = data[i].off;
             }
+            const inode_t* curr = query_ctxt->curr_index_inode;
             int pushed_var_tokens = 0;
             token_stack_t var_stack;
             var_stack.size = 0;
@@ -351,7 +352,6 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             }
 
             // advance in the index
-            const inode_t* curr = query_ctxt->curr_index_inode;
             const inode_t* child =
                 (inode_t*)memsector_relOff2addr((char*)curr, entry_off);
             query_ctxt->curr_index_inode = child;
-- 
2.43.0


From 93fb3ea450b5db7f50955a7e7df2d09a44ccdbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 27/81] fix: the experimental engine ignored the result window
 and the requested ids

---
 src/mws/daemon/IndexQueryHandler.cpp | 31 +++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/mws/daemon/IndexQueryHandler.cpp b/src/mws/daemon/IndexQueryHandler.cpp
index a2df29b..a9e6ec0 100644
--- a/src/mws/daemon/IndexQueryHandler.cpp
+++ b/src/mws/daemon/IndexQueryHandler.cpp
@@ -40,6 +40,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <fcntl.h>      // File control operations
 #include <stdlib.h>
 
+#include <algorithm>
 #include <string>
 using std::string;
 #include <vector>
@@ -110,12 +111,32 @@ static result_cb_return_t result_callback(void* _ctxt, const leaf_t* leaf) {
     }
     ;
 
-    dbQueryManager->query((FormulaId)leaf->formula_id,
-                          mwsQuery->attrResultLimitMin,
-                          mwsQuery->attrResultMaxSize, queryCallback);
-    result->total += leaf->num_hits;
+    // the window of results is over the hits of all leaves
+    const unsigned int maxTotal = mwsQuery->attrResultTotalReqNr;
+    const unsigned int offset =
+        std::min<unsigned int>(mwsQuery->attrResultLimitMin, maxTotal);
+    const unsigned int size =
+        std::min<unsigned int>(mwsQuery->attrResultMaxSize, maxTotal - offset);
+    const unsigned int found = result->total;
+    const unsigned int hitsCount =
+        mwsQuery->options.includeHits ? leaf->num_hits : 1;
+
+    if (found + hitsCount > offset &&
+        (found < offset || found - offset < size)) {
+        if (mwsQuery->options.includeHits) {
+            const unsigned int dbOffset = found < offset ? offset - found : 0;
+            const unsigned int dbMaxSize =
+                found < offset ? size : size - (found - offset);
+            dbQueryManager->query((FormulaId)leaf->formula_id, dbOffset,
+                                  dbMaxSize, queryCallback);
+        }
+        if (mwsQuery->options.includeMwsIds) {
+            result->ids.insert(leaf->formula_id);
+        }
+    }
+    result->total = std::min(found + hitsCount, maxTotal);
 
-    return QUERY_CONTINUE;
+    return (unsigned int)result->total < maxTotal ? QUERY_CONTINUE : QUERY_STOP;
 }
 
 GenericAnswer* IndexQueryHandler::handleQuery(Query* query) {
-- 
2.43.0


From 6f5abb1c1777c06b5209a72a5b7e0b452f109d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 28/81] fix: the experimental engine overflowed its stacks on
 large queries and subterms

---
 src/mws/query/engine.c | 115 +++++++++++++++++++++++++++--------------
 1 file changed, 75 insertions(+), 40 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index 2c574f7..957a6e1 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -26,32 +26,38 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  * License: GPLv3
  */
 
+#include <stdlib.h>
+
 #include "mws/query/engine.h"
 
 #include "mws/index/encoded_token.h"
 #include "common/utils/compiler_defs.h"
 
-/*--------------------------------------------------------------------------*/
-/* Constants                                                                */
-/*--------------------------------------------------------------------------*/
-
-#define MAX_VAR_INSTATIATION_SIZE 256
-#define MAX_QUERY_STACK_SIZE 512
-
 /*--------------------------------------------------------------------------*/
 /* Type declarations                                                        */
 /*--------------------------------------------------------------------------*/
 
+typedef struct token_stack_s {
+    encoded_token_t* data;
+    int size;
+    int capacity;
+} token_stack_t;
+
 typedef struct var_instantiation_s {
     bool solved;
-    encoded_token_t tokens[MAX_VAR_INSTATIATION_SIZE];
-    int num_tokens;
+    token_stack_t tokens;
 } var_instantiation_t;
 
-typedef struct token_stack_s {
-    encoded_token_t data[MAX_QUERY_STACK_SIZE];
-    int size;
-} token_stack_t;
+static inline void token_stack_init(token_stack_t* RESTRICT stack) {
+    stack->data = NULL;
+    stack->size = 0;
+    stack->capacity = 0;
+}
+
+static inline void token_stack_free(token_stack_t* RESTRICT stack) {
+    free(stack->data);
+    token_stack_init(stack);
+}
 
 static inline encoded_token_t token_stack_pop(token_stack_t* RESTRICT stack) {
     stack->size--;
@@ -60,6 +66,12 @@ static inline encoded_token_t token_stack_pop(token_stack_t* RESTRICT stack) {
 
 static inline void token_stack_push(token_stack_t* RESTRICT stack,
                                     encoded_token_t token) {
+    if (stack->size == stack->capacity) {
+        stack->capacity = stack->capacity ? 2 * stack->capacity : 64;
+        stack->data = (encoded_token_t*)realloc(
+            stack->data, stack->capacity * sizeof(encoded_token_t));
+        if (stack->data == NULL) abort();  // out of memory
+    }
     stack->data[stack->size] = token;
     stack->size++;
 }
@@ -82,7 +94,7 @@ typedef struct query_ctxt_s {
     token_stack_t index_stack;
 
     /* var instantiations */
-    var_instantiation_t vars[VAR_ID_MAX];
+    var_instantiation_t vars[VAR_ID_MAX + 1];
     /* var solve stack */
     uint32_t solving_var_id;
 
@@ -104,6 +116,8 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
                             result_callback_t result_cb,
                             void* RESTRICT result_cb_handle);
 
+static void query_ctxt_free(query_ctxt_t* RESTRICT query_ctxt);
+
 static int process_query_token(query_ctxt_t* query_ctxt);
 
 static int match_var_to_index(query_ctxt_t* query_ctxt, uint32_t arity);
@@ -124,7 +138,11 @@ int query_engine_run(index_handle_t* RESTRICT index,
 
     query_ctxt_init(&query_ctxt, index, query, result_cb, result_cb_handle);
 
-    return process_query_token(&query_ctxt);
+    int ret = process_query_token(&query_ctxt);
+
+    query_ctxt_free(&query_ctxt);
+
+    return ret;
 }
 
 /*--------------------------------------------------------------------------*/
@@ -139,20 +157,21 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
     int i;
 
     // initialize variables table
-    for (i = 0; i < VAR_ID_MAX; i++) {
+    for (i = 0; i <= VAR_ID_MAX; i++) {
         query_ctxt->vars[i].solved = false;
+        token_stack_init(&query_ctxt->vars[i].tokens);
     }
 
     // initialize query stack
     int size = query->size;
-    query_ctxt->query_stack.size = size;
-    for (i = 0; i < size; i++) {
-        query_ctxt->query_stack.data[size - i - 1] = query->data[i];
+    token_stack_init(&query_ctxt->query_stack);
+    for (i = size - 1; i >= 0; i--) {
+        token_stack_push(&query_ctxt->query_stack, query->data[i]);
     }
 
     // intialize index
     query_ctxt->curr_index_inode = (inode_t*)index->root;
-    query_ctxt->index_stack.size = 0;
+    token_stack_init(&query_ctxt->index_stack);
 
     // initialize memsector alloc
     query_ctxt->alloc = index->ms;
@@ -162,6 +181,15 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
     query_ctxt->result_cb_handle = result_cb_handle;
 }
 
+static void query_ctxt_free(query_ctxt_t* RESTRICT query_ctxt) {
+    int i;
+    for (i = 0; i <= VAR_ID_MAX; i++) {
+        token_stack_free(&query_ctxt->vars[i].tokens);
+    }
+    token_stack_free(&query_ctxt->query_stack);
+    token_stack_free(&query_ctxt->index_stack);
+}
+
 static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
     int ret;
     token_stack_t* query = &query_ctxt->query_stack;
@@ -182,9 +210,9 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
         if (query_ctxt->vars[var_id].solved) {  // solved
             var_instantiation_t* var = &query_ctxt->vars[var_id];
             int i;
-            int size = var->num_tokens;
+            int size = var->tokens.size;
             for (i = 0; i < size; ++i) {
-                token_stack_push(query, var->tokens[size - i - 1]);
+                token_stack_push(query, var->tokens.data[size - i - 1]);
             }
 
             // continue
@@ -195,7 +223,7 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
             token_stack_pop_many(query, size);
         } else {  // unsolved
             query_ctxt->solving_var_id = var_id;
-            query_ctxt->vars[var_id].num_tokens = 0;
+            query_ctxt->vars[var_id].tokens.size = 0;
             ret = match_var_to_index(query_ctxt, 1);
             if (ret != QUERY_CONTINUE) return ret;
         }
@@ -276,7 +304,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
 
     if (arity == 0) {
         uint32_t var_id = query_ctxt->solving_var_id;
-        if (var->num_tokens > 0) {
+        if (var->tokens.size > 0) {
             var->solved = true;
         }
 
@@ -313,7 +341,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             const inode_t* curr = query_ctxt->curr_index_inode;
             int pushed_var_tokens = 0;
             token_stack_t var_stack;
-            var_stack.size = 0;
+            token_stack_init(&var_stack);
             token_stack_push(&var_stack, entry_token);
 
             while (!token_stack_empty(&var_stack)) {
@@ -323,7 +351,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                     // check self-referencing variable
                     if (var_id == query_ctxt->solving_var_id) {
                         if (token_stack_empty(&var_stack) &&
-                            var->num_tokens == 0) {
+                            var->tokens.size == 0) {
                             // variable self references (e.g. Q1 -> H1 -> Q1)
                             // => set as not solved and proceed
                             break;
@@ -339,18 +367,19 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                             &query_ctxt->vars[var_id];
                         // push in reverse order on stack
                         int i;
-                        for (i = solved_var->num_tokens - 1; i >= 0; --i) {
-                            token_stack_push(&var_stack, solved_var->tokens[i]);
+                        for (i = solved_var->tokens.size - 1; i >= 0; --i) {
+                            token_stack_push(&var_stack, solved_var->tokens.data[i]);
                         }
                         continue;
                     }
                 }
                 // save to var_instantiation
-                var->tokens[var->num_tokens] = token;
-                var->num_tokens++;
+                token_stack_push(&var->tokens, token);
                 pushed_var_tokens++;
             }
 
+            token_stack_free(&var_stack);
+
             // advance in the index
             const inode_t* child =
                 (inode_t*)memsector_relOff2addr((char*)curr, entry_off);
@@ -362,7 +391,8 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
 
         revert_index:
             // revert
-            var->num_tokens -= pushed_var_tokens;
+            token_stack_pop_many(&var->tokens, pushed_var_tokens);
+            token_stack_free(&var_stack);
             query_ctxt->curr_index_inode = curr;
         }
     }
@@ -380,7 +410,7 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
     var_instantiation_t* var = &query_ctxt->vars[query_ctxt->solving_var_id];
 
     token_stack_t tmp_rev_stack;
-    tmp_rev_stack.size = 0;
+    token_stack_init(&tmp_rev_stack);
 
     // move the var matching to a temp reverted stack
     int arity = 1;
@@ -394,9 +424,9 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
     token_stack_t var_stack;
     int i;
     int size = tmp_rev_stack.size;
-    var_stack.size = size;
+    token_stack_init(&var_stack);
     for (i = 0; i < size; ++i) {
-        var_stack.data[i] = tmp_rev_stack.data[size - 1 - i];
+        token_stack_push(&var_stack, tmp_rev_stack.data[size - 1 - i]);
     }
 
     // simplify using solved vars and save to var_instantiation
@@ -407,7 +437,7 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
             uint32_t var_id = encoded_token_get_id(token);
             // check self-referencing variable
             if (var_id == query_ctxt->solving_var_id) {
-                if (token_stack_empty(&var_stack) && var->num_tokens == 0) {
+                if (token_stack_empty(&var_stack) && var->tokens.size == 0) {
                     // variable self references (e.g. Q1 -> H1 -> Q1)
                     // => set as not solved and proceed
                     solved = false;
@@ -423,15 +453,14 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
                 var_instantiation_t* solved_var = &query_ctxt->vars[var_id];
                 // push in reverse order on stack
                 int i;
-                for (i = solved_var->num_tokens - 1; i >= 0; --i) {
-                    token_stack_push(&var_stack, solved_var->tokens[i]);
+                for (i = solved_var->tokens.size - 1; i >= 0; --i) {
+                    token_stack_push(&var_stack, solved_var->tokens.data[i]);
                 }
                 continue;
             }
         }
         // save to var_instantiation
-        var->tokens[var->num_tokens] = token;
-        var->num_tokens++;
+        token_stack_push(&var->tokens, token);
     }
 
     // set var as solved
@@ -439,13 +468,19 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
 
     // continue
     ret = process_query_token(query_ctxt);
-    if (ret != QUERY_CONTINUE) return ret;
+    if (ret != QUERY_CONTINUE) {
+        token_stack_free(&tmp_rev_stack);
+        token_stack_free(&var_stack);
+        return ret;
+    }
 
 revert_stack:
     var->solved = false;
     while (!token_stack_empty(&tmp_rev_stack)) {
         token_stack_push(stack, token_stack_pop(&tmp_rev_stack));
     }
+    token_stack_free(&tmp_rev_stack);
+    token_stack_free(&var_stack);
 
     return QUERY_CONTINUE;
 }
-- 
2.43.0


From 73e0786416394b59b38bf07b3c66a66c43dbe281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:17 +0000
Subject: [PATCH 29/81] fix: queries with more than 31 variables or 32 ranges
 mixed up variables, ranges and symbols

---
 src/mws/index/ExpressionEncoder.cpp | 23 ++++++++++++++++++++---
 src/mws/query/engine.c              |  8 ++++++--
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index e22cf2b..6ad4f3c 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -42,6 +42,7 @@ using std::unordered_map;
 #include <vector>
 using std::vector;
 
+#include "common/utils/compiler_defs.h"
 #include "encoded_token.h"
 #include "mws/types/CmmlToken.hpp"
 using mws::types::CmmlToken;
@@ -55,6 +56,12 @@ using mws::types::Meaning;
 namespace mws {
 namespace index {
 
+// Sizes of the id ranges in encoded_token.h. Dictionary ids start with 1, and
+// the last id of the anonymous variables does not count as anonymous.
+static const MeaningId MAX_NAMED_VARS = HVAR_ID_MAX - HVAR_ID_MIN;
+static const int MAX_ANON_VARS = ANON_HVAR_ID_MAX - ANON_HVAR_ID_MIN;
+static const int MAX_RANGES = RANGE_ID_MAX - RANGE_ID_MIN + 1;
+
 ExpressionEncoder::ExpressionEncoder(MeaningDictionary* dictionary)
     : _meaningDictionary(dictionary), _ciTranslationCounter(0) {}
 
@@ -82,10 +89,16 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
             encoded_token.arity = 0;
             if (qvarName == "") {
                 encoded_token.id = _getAnonVarOffset() + anonVarId;
-                anonVarId++;
+                // anonymous variables are independent also if they share an id
+                if (anonVarId < MAX_ANON_VARS - 1) anonVarId++;
             } else {
-                encoded_token.id =
-                    _getNamedVarOffset() + namedVarDictionary.put(qvarName);
+                MeaningId varId = namedVarDictionary.put(qvarName);
+                if (varId > MAX_NAMED_VARS) {
+                    PRINT_WARN("More than %u different variables\n",
+                               MAX_NAMED_VARS);
+                    return -1;
+                }
+                encoded_token.id = _getNamedVarOffset() + varId;
                 if (expressionInfo != nullptr) {
                     expressionInfo->qvarNames.push_back(qvarName);
                     expressionInfo->qvarXpaths
@@ -93,6 +106,10 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
                 }
             }
         } else if (token->isRange()) {
+            if (anonRangeId >= MAX_RANGES) {
+                PRINT_WARN("More than %d ranges\n", MAX_RANGES);
+                return -1;
+            }
             encoded_token.arity = 0;
             encoded_token.id = _getRangeOffset() + anonRangeId;
             anonRangeId++;
diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index 957a6e1..746c318 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -223,7 +223,9 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
             token_stack_pop_many(query, size);
         } else {  // unsolved
             query_ctxt->solving_var_id = var_id;
-            query_ctxt->vars[var_id].tokens.size = 0;
+            if (!encoded_token_is_anon_var(query_token)) {
+                query_ctxt->vars[var_id].tokens.size = 0;
+            }
             ret = match_var_to_index(query_ctxt, 1);
             if (ret != QUERY_CONTINUE) return ret;
         }
@@ -304,7 +306,9 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
 
     if (arity == 0) {
         uint32_t var_id = query_ctxt->solving_var_id;
-        if (var->tokens.size > 0) {
+        // anonymous variables are independent of each other
+        if (var->tokens.size > 0 &&
+            !encoded_token_is_anon_var(encoded_token(var_id, 0))) {
             var->solved = true;
         }
 
-- 
2.43.0


From 209b6334559bc8a6d74597399c4e51ee2b50f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 30/81] fix: records stored after reopening a database
 overwrote existing ones

---
 src/mws/dbc/LevCrawlDb.cpp   | 13 +++++++++++++
 src/mws/dbc/LevFormulaDb.cpp | 11 +++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/mws/dbc/LevCrawlDb.cpp b/src/mws/dbc/LevCrawlDb.cpp
index cd5036d..5d12e6e 100644
--- a/src/mws/dbc/LevCrawlDb.cpp
+++ b/src/mws/dbc/LevCrawlDb.cpp
@@ -27,8 +27,11 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
   */
 
 #include <sys/stat.h>
+#include <stdlib.h>
 #include <sys/types.h>
 
+#include <algorithm>
+using std::max;
 #include <memory>
 using std::unique_ptr;
 #include <stdexcept>
@@ -67,6 +70,16 @@ void LevCrawlDb::open(const char* path) {
     if (!status.ok()) {
         throw std::runtime_error(string(path) + ": " + status.ToString());
     }
+
+    // continue counting after the records which are already stored
+    mNextCrawlId = CRAWLID_NULL;
+    ReadOptions readOptions;
+    readOptions.verify_checksums = true;
+    unique_ptr<Iterator> it(mDatabase->NewIterator(readOptions));
+    for (it->SeekToFirst(); it->Valid(); it->Next()) {
+        CrawlId crawlId = strtoul(it->key().ToString().c_str(), nullptr, 10);
+        mNextCrawlId = max(mNextCrawlId, crawlId);
+    }
 }
 
 /** @throw runtime_error */
diff --git a/src/mws/dbc/LevFormulaDb.cpp b/src/mws/dbc/LevFormulaDb.cpp
index 51ce327..e4a8673 100644
--- a/src/mws/dbc/LevFormulaDb.cpp
+++ b/src/mws/dbc/LevFormulaDb.cpp
@@ -67,6 +67,17 @@ void LevFormulaDb::open(const char* path) {
     if (!status.ok()) {
         throw runtime_error(status.ToString());
     }
+
+    // continue counting after the records which are already stored
+    mCounter = 0;
+    ReadOptions readOptions;
+    readOptions.verify_checksums = true;
+    unique_ptr<Iterator> it(mDatabase->NewIterator(readOptions));
+    for (it->SeekToFirst(); it->Valid(); it->Next()) {
+        string key = it->key().ToString();
+        uint32_t counter = strtoul(key.c_str() + key.find('!') + 1, nullptr, 10);
+        mCounter = max(mCounter, counter);
+    }
 }
 
 /** @throw runtime_error */
-- 
2.43.0


From 0a1acfc2151535e1f8427a35ccf9a816c8900673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 31/81] fix: a formula database returned the records of a
 formula out of order

---
 src/mws/dbc/LevFormulaDb.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mws/dbc/LevFormulaDb.cpp b/src/mws/dbc/LevFormulaDb.cpp
index e4a8673..f2f8146 100644
--- a/src/mws/dbc/LevFormulaDb.cpp
+++ b/src/mws/dbc/LevFormulaDb.cpp
@@ -111,8 +111,10 @@ int LevFormulaDb::insertFormula(const types::FormulaId& formulaId,
     encoder.encode(crawlId_str);
     encoder.encode(formulaPath);
 
-    std::string key =
-        std::to_string(formulaId) + "!" + std::to_string(mCounter);
+    // leading zeros keep the records of a formula in insertion order
+    std::string number = std::to_string(mCounter);
+    std::string key = std::to_string(formulaId) + "!" +
+                      std::string(10 - number.size(), '0') + number;
     std::string value(encoder.getData(), encoder.getSize());
 
     leveldb::Status status =
-- 
2.43.0


From 1557c2d0312f517ea32e7456a20b2ec841cb3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 32/81] fix: an unreadable file or directory kept the remaining
 ones from being loaded

---
 src/common/utils/util.cpp      | 10 +++++++---
 src/crawler/harvests2json.cpp  | 13 +++++++++----
 src/mws/index/IndexBuilder.cpp |  2 +-
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 9caed66..2c1fe6f 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -202,6 +202,7 @@ int foreachEntryInDirectory(const std::string& path,
                             const DirectoryCallback& directoryCallback) {
     queue<string> directories;
     queue<FileData> files;
+    int ret = 0;
 
     FAIL_ON(getPathsInDirectory(path, ".", &directories, &files) != 0);
 
@@ -216,13 +217,16 @@ int foreachEntryInDirectory(const std::string& path,
             const string directory = directories.front();
             directories.pop();
             if (directoryCallback(directory)) {
-                FAIL_ON(getPathsInDirectory(path + "/" + directory, directory,
-                                            &directories, &files) != 0);
+                // an unreadable directory does not concern the other entries
+                if (getPathsInDirectory(path + "/" + directory, directory,
+                                        &directories, &files) != 0) {
+                    ret = -1;
+                }
             }
         }
     }
 
-    return 0;
+    return ret;
 
 fail:
     return -1;
diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index f4d17f7..9febd76 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -34,6 +34,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <fcntl.h>
 #include <stdio.h>
 #include <string.h>
+#include <unistd.h>
 #include <json-c/json.h>
 #include <errno.h>
 #include <libxml/parser.h>
@@ -244,6 +245,7 @@ int main(int argc, char* argv[]) {
         config.harvester.fileExtension = DEFAULT_MWS_HARVEST_EXTENSION;
     }
 
+    int result = EXIT_SUCCESS;
     try {
         LoadingOptions loadingOptions;
         loadingOptions.includeHits = false;
@@ -263,7 +265,8 @@ int main(int argc, char* argv[]) {
                     } else {
                         PRINT_WARN("Open %s: %s\n", outputName.c_str(),
                                    strerror(errno));
-                        return -1;
+                        result = EXIT_FAILURE;
+                        return 0;
                     }
                 }
 
@@ -271,7 +274,9 @@ int main(int argc, char* argv[]) {
                 if (fd < 0) {
                     PRINT_WARN("Open %s: %s\n", path.c_str(), strerror(errno));
                     fclose(output);
-                    return -1;
+                    unlink(outputName.c_str());
+                    result = EXIT_FAILURE;
+                    return 0;
                 }
 
                 vector<ParseResult*> parseResults = parseMwsHarvestFromFd(
@@ -302,7 +307,7 @@ int main(int argc, char* argv[]) {
             if (common::utils::foreachEntryInDirectory(
                     harvestPath, fileCallback, shouldRecurse)) {
                 PRINT_WARN("Error in foreachEntryInDirectory");
-                return EXIT_FAILURE;
+                result = EXIT_FAILURE;
             }
         }
     } catch (exception& e) {
@@ -310,7 +315,7 @@ int main(int argc, char* argv[]) {
         return EXIT_FAILURE;
     }
 
-    return EXIT_SUCCESS;
+    return result;
 }
 
 class HarvestParser : public HarvestProcessor {
diff --git a/src/mws/index/IndexBuilder.cpp b/src/mws/index/IndexBuilder.cpp
index d2fe45a..daab900 100644
--- a/src/mws/index/IndexBuilder.cpp
+++ b/src/mws/index/IndexBuilder.cpp
@@ -161,7 +161,7 @@ uint64_t loadHarvests(IndexBuilder* indexBuilder,
                 int fd = open(path.c_str(), O_RDONLY);
                 if (fd < 0) {
                     perror(path.c_str());
-                    return -1;
+                    return 0;  // does not concern the other files
                 }
                 auto loadReturn = loadHarvestFromFd(indexBuilder, fd,
                                                     !config.shouldIgnoreData);
-- 
2.43.0


From 03eb635f111b55cbf8e271bfa8e61d42340a6de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 33/81] fix: a flag with an optional value was reported as
 missing if it had none

---
 src/common/utils/FlagParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/utils/FlagParser.cpp b/src/common/utils/FlagParser.cpp
index 90fa3f2..7fa7c6f 100644
--- a/src/common/utils/FlagParser.cpp
+++ b/src/common/utils/FlagParser.cpp
@@ -133,6 +133,7 @@ int FlagParser::parse(const int argc, char* const argv[]) {
                 _parsedArgs.insert(make_pair(ch, vector<string>()));
                 break;
             case ARG_OPT:
+                _parsedArgs.insert(make_pair(ch, vector<string>()));
                 if (optarg == nullptr) continue;
                 _parsedArgs[ch].push_back(optarg);
                 break;
-- 
2.43.0


From 8cae956b38b47ecc25fef7ce77bf59786980f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 34/81] fix: receiving a control sequence stopped after the
 first piece and reported nothing received

---
 src/common/types/ControlSequence.cpp | 2 +-
 src/common/types/ControlSequence.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/types/ControlSequence.cpp b/src/common/types/ControlSequence.cpp
index c4f8986..373d111 100644
--- a/src/common/types/ControlSequence.cpp
+++ b/src/common/types/ControlSequence.cpp
@@ -96,7 +96,7 @@ ssize_t ControlSequence::recv(int fd) {
 
     while (data_size) {
         nbytes = read(fd, data, data_size);
-        if (bytes_read <= 0) {
+        if (nbytes <= 0) {
             if (nbytes == -1) bytes_read = -1;
             break;
         }
diff --git a/src/common/types/ControlSequence.hpp b/src/common/types/ControlSequence.hpp
index 3c09f61..799d899 100644
--- a/src/common/types/ControlSequence.hpp
+++ b/src/common/types/ControlSequence.hpp
@@ -72,14 +72,14 @@ class ControlSequence {
       * @brief Method to send the current ControlSequence via a file
       * descriptor.
       * @param fd is the destination file descriptor.
-      * @return 0 on success, or the number of bytes which were not delivered.
+      * @return the number of bytes which were delivered, or -1 on failure.
       */
     ssize_t send(int fd);
 
     /**
       * @brief Method to receive a ControlSequence via a file descriptor.
       * @param fd is the sender file descriptor.
-      * @return 0 on success, or the number of bytes which were not delivered.
+      * @return the number of bytes which were delivered, or -1 on failure.
       */
     ssize_t recv(int fd);
 };
-- 
2.43.0


From 65246e68f51db945f9d37c8c7b09610f0787f745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 35/81] fix: reading a file which got shorter never ended

---
 src/common/utils/util.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 2c1fe6f..733150c 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -117,11 +117,13 @@ std::string getFileContents(const std::string& path) throw(runtime_error) {
     curr = 0;
     size = file_stat.st_size;
     contents.resize(size);
-    do {
+    while (curr < size) {
         ssize_t ret;
         FAIL_ON((ret = read(fd, &contents[curr], size - curr)) < 0);
+        if (ret == 0) break;
         curr += ret;
-    } while (curr < size);
+    }
+    if (curr != size) errno = EIO;
     FAIL_ON(curr != size);
 
     close(fd);
-- 
2.43.0


From 5c88aa4b9ebba0d37ace3042c34cea02b75ce1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 36/81] fix: a harvest read in small pieces was rejected

---
 src/mws/xmlparser/processMwsHarvest.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index d13be56..eeb990f 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -167,7 +167,16 @@ static inline void tearDownCopyToStringWriter(MwsHarvest_SaxUserData* data) {
   *
   */
 static inline int fdXmlInputReadCallback(void* fdPtr, char* buffer, int len) {
-    return read(*(int*)fdPtr, (void*)buffer, (size_t)len);
+    // libxml can not handle arbitrarily short reads at the document start
+    int total = 0;
+    while (total < len) {
+        ssize_t ret = read(*(int*)fdPtr, (void*)(buffer + total),
+                           (size_t)(len - total));
+        if (ret < 0) return total > 0 ? total : -1;
+        if (ret == 0) break;
+        total += ret;
+    }
+    return total;
 }
 
 /**
-- 
2.43.0


From 1bbf8c9f6fac867d7cf75e0b80c75d146356e217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 37/81] fix: analysing an index with renamed identifiers
 aborted

---
 src/mws/analytics/analytics.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mws/analytics/analytics.cpp b/src/mws/analytics/analytics.cpp
index 1b34b38..24ab5c0 100644
--- a/src/mws/analytics/analytics.cpp
+++ b/src/mws/analytics/analytics.cpp
@@ -148,9 +148,14 @@ void CmmlTokenBuilder::pushToken(encoded_token_t encodedToken) {
 
     string meaning = _decoder.getMeaning(encodedToken.id);
     std::size_t separator_pos = meaning.find('#');
-    assert(separator_pos != std::string::npos);
-    string tag = meaning.substr(0, separator_pos);
-    string textContent = meaning.substr(separator_pos + 1);
+    string tag, textContent;
+    if (separator_pos != std::string::npos) {
+        tag = meaning.substr(0, separator_pos);
+        textContent = meaning.substr(separator_pos + 1);
+    } else {  // only renamed identifiers have no tag in their meaning
+        tag = "ci";
+        textContent = meaning;
+    }
     token->setTag(tag);
     token->appendTextContent(textContent);
 
-- 
2.43.0


From 788db27476d59b53bea29d0f8857cb5f8ed84122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 38/81] fix: anonymous variables of harvests were decoded with
 a wrong number

---
 src/mws/index/ExpressionEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 6ad4f3c..0bb8a90 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -223,7 +223,7 @@ Meaning ExpressionDecoder::getMeaning(MeaningId meaningId) const {
     } else if (meaningId >= QVAR_ID_MIN) {
         return "qvar#" + to_string(meaningId - QVAR_ID_MIN);
     } else if (meaningId >= ANON_HVAR_ID_MIN) {
-        return "anonymous_hvar#" + to_string(meaningId - ANON_QVAR_ID_MIN);
+        return "anonymous_hvar#" + to_string(meaningId - ANON_HVAR_ID_MIN);
     } else if (meaningId >= HVAR_ID_MIN) {
         return "hvar#" + to_string(meaningId - HVAR_ID_MIN);
     } else {
-- 
2.43.0


From 1a43f3cb2f3b7eb0b37ee56645db21962da48da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 39/81] fix: nodes beyond 16 GiB of an index were linked at the
 wrong positions

---
 src/mws/index/memsector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/memsector.h b/src/mws/index/memsector.h
index c6c01e5..bef7595 100644
--- a/src/mws/index/memsector.h
+++ b/src/mws/index/memsector.h
@@ -99,7 +99,7 @@ static inline const char* memsector_relOff2addr(const char* baseAddr,
     return baseAddr - MEMSECTOR_ALLOC_UNIT * off;
 }
 
-static inline memsector_off_t memsector_get_current_offset(
+static inline memsector_long_off_t memsector_get_current_offset(
     const memsector_writer_t* mswr) {
     assert(mswr->offset % MEMSECTOR_ALLOC_UNIT == 0);
     return mswr->offset / MEMSECTOR_ALLOC_UNIT;
-- 
2.43.0


From d29842fda496fe099da2224b8453cd8f2a3c00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 40/81] fix: document names and identifiers were written
 unescaped to harvests

---
 src/crawler/parser/MathParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 8322189..42c5818 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -141,7 +141,8 @@ Harvest createHarvestFromDocument(const string& path,
                        << "\"";
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
-            expression << "<mws:expr url=\"" << documentId << "#" << id << "\"";
+            expression << "<mws:expr url=\"" << escapeXml(doc, documentId) << "#"
+                       << escapeXml(doc, id) << "\"";
         }
         expression << ">" << getXmlFromNode(doc, cmmlNode) << "</mws:expr>\n";
         harvest.contentMathElements.push_back(expression.str());
-- 
2.43.0


From 8b48eb3328f71a65aac2730bb63b5979fc103c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:41 +0000
Subject: [PATCH 41/81] fix: entities of XHTML documents broke the harvest

---
 src/crawler/parser/XmlParser.cpp | 37 ++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index a712e89..1f34246 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -28,6 +28,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <string.h>
 #include <libxml/parser.h>
 #include <libxml/HTMLparser.h>
+#include <libxml/entities.h>
+#include <libxml/parserInternals.h>
 #include <libxml/tree.h>
 #include <libxml/xpath.h>
 
@@ -57,6 +59,7 @@ static xmlXPathObjectPtr getXMLNodeset(xmlDocPtr doc, const char* xpath,
                                        xmlNode* contextNode = nullptr);
 static void dumpNodeToText(const xmlNode* node, stringstream* stream,
                            MathIdDictionary* encodedMathIds);
+static void replaceEntityReferences(xmlDoc* doc, xmlNode* node);
 
 /*--------------------------------------------------------------------------*/
 /* Implementation                                                           */
@@ -69,6 +72,7 @@ xmlDocPtr parseDocument(const char* content, int size) {
     doc = xmlReadMemory(content, size, /* URL = */ "", "UTF-8",
                         XML_PARSE_NOWARNING | XML_PARSE_NOERROR);
     if (doc != nullptr) {
+        replaceEntityReferences(doc, doc->children);
         return doc;
     }
 
@@ -213,6 +217,39 @@ static xmlXPathObjectPtr getXMLNodeset(xmlDocPtr doc, const char* xpath,
     return result;
 }
 
+/**
+ * @brief replace references to entities, which are only declared in the
+ * document itself or in its (not loaded) DTD, by the text they stand for
+ */
+static void replaceEntityReferences(xmlDoc* doc, xmlNode* node) {
+    while (node != nullptr) {
+        xmlNode* next = node->next;
+        if (node->type == XML_ENTITY_REF_NODE) {
+            string text;
+            const htmlEntityDesc* htmlEntity;
+            if (xmlGetDocEntity(doc, node->name) != nullptr) {
+                xmlChar* content = xmlNodeGetContent(node);
+                if (content != nullptr) text = (const char*)content;
+                xmlFree(content);
+            } else if ((htmlEntity = htmlEntityLookup(node->name)) != nullptr) {
+                xmlChar utf8[8] = {0};
+                xmlCopyCharMultiByte(utf8, htmlEntity->value);
+                text = (const char*)utf8;
+            } else {
+                text = "&" + string((const char*)node->name) + ";";
+            }
+            xmlReplaceNode(node, xmlNewDocText(doc, BAD_CAST text.c_str()));
+            xmlFreeNode(node);
+        } else if (node->type == XML_ELEMENT_NODE) {
+            for (xmlAttr* a = node->properties; a != nullptr; a = a->next) {
+                replaceEntityReferences(doc, a->children);
+            }
+            replaceEntityReferences(doc, node->children);
+        }
+        node = next;
+    }
+}
+
 static void dumpNodeToText(const xmlNode* root, stringstream* stream,
                            MathIdDictionary* encodedMathIds) {
     stack<const xmlNode*> nodes;
-- 
2.43.0


From c3eeb57c481c151c717fa508402553878c946924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 42/81] fix: CDATA sections were missing in the text of
 documents

---
 src/crawler/parser/XmlParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index 1f34246..d273089 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -266,6 +266,7 @@ static void dumpNodeToText(const xmlNode* root, stringstream* stream,
 
         switch (node->type) {
         case XML_TEXT_NODE:
+        case XML_CDATA_SECTION_NODE:
             *stream << " " << reinterpret_cast<char*>(node->content) << " ";
             break;
 
-- 
2.43.0


From 1cf4fc09a403d4dbe729485bce3a00d6206f6b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 43/81] fix: formulae outside of the selected text all had the
 same number

---
 src/crawler/parser/MathParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 42c5818..38839fc 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -130,6 +130,8 @@ Harvest createHarvestFromDocument(const string& path,
         }
 
         if (config.shouldSaveData) {
+            // elements outside of the text have no number yet
+            mathIdDictionary.put(id);
             data << "<math local_id=\"" << mathIdDictionary.get(id) << "\">"
                  << getEscapedXmlFromNode(doc, mathNode) << "</math>\n";
         }
-- 
2.43.0


From b3849d1850a829e2824915799c4379bcf52d154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 44/81] fix: characters XML cannot contain broke the harvest

---
 src/crawler/parser/XmlParser.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index d273089..de4a398 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -33,6 +33,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <libxml/tree.h>
 #include <libxml/xpath.h>
 
+#include <algorithm>
 #include <stack>
 using std::stack;
 #include <stdexcept>
@@ -60,6 +61,7 @@ static xmlXPathObjectPtr getXMLNodeset(xmlDocPtr doc, const char* xpath,
 static void dumpNodeToText(const xmlNode* node, stringstream* stream,
                            MathIdDictionary* encodedMathIds);
 static void replaceEntityReferences(xmlDoc* doc, xmlNode* node);
+static string replaceInvalidCharacters(const string& text);
 
 /*--------------------------------------------------------------------------*/
 /* Implementation                                                           */
@@ -90,7 +92,8 @@ xmlDocPtr parseDocument(const char* content, int size) {
 }
 
 string escapeXml(xmlDoc* doc, const string& xml) {
-    xmlChar* escapedXml = xmlEncodeSpecialChars(doc, BAD_CAST xml.c_str());
+    const string validXml = replaceInvalidCharacters(xml);
+    xmlChar* escapedXml = xmlEncodeSpecialChars(doc, BAD_CAST validXml.c_str());
     string escapedXmlString(reinterpret_cast<char*>(escapedXml));
     xmlFree(escapedXml);
     return escapedXmlString;
@@ -120,7 +123,7 @@ string getXmlFromNode(xmlDoc* doc, xmlNode* node) {
     string content = (string)buf;
     free(buf);
 
-    return content;
+    return replaceInvalidCharacters(content);
 }
 
 string getEscapedXmlFromNode(xmlDoc* doc, xmlNode* node) {
@@ -217,6 +220,29 @@ static xmlXPathObjectPtr getXMLNodeset(xmlDocPtr doc, const char* xpath,
     return result;
 }
 
+/**
+ * @brief replace everything XML documents cannot contain
+ */
+static string replaceInvalidCharacters(const string& text) {
+    static const char REPLACEMENT_CHARACTER[] = "\xef\xbf\xbd";
+    string result;
+    size_t pos = 0;
+    while (pos < text.size()) {
+        int length = std::min<size_t>(text.size() - pos, 4);
+        int character = xmlGetUTF8Char(
+            reinterpret_cast<const unsigned char*>(&text[pos]), &length);
+        if (character >= 0 && IS_CHAR(character)) {
+            result.append(text, pos, length);
+            pos += length;
+        } else {
+            result.append(REPLACEMENT_CHARACTER);
+            pos++;
+        }
+    }
+
+    return result;
+}
+
 /**
  * @brief replace references to entities, which are only declared in the
  * document itself or in its (not loaded) DTD, by the text they stand for
-- 
2.43.0


From 1608bab577a6e0231bb1a919b6e4778d1322304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 45/81] fix: docs2harvest reported success when the harvest
 could not be written

---
 src/crawler/docs2harvest.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/crawler/docs2harvest.cpp b/src/crawler/docs2harvest.cpp
index 3d361b9..d052841 100644
--- a/src/crawler/docs2harvest.cpp
+++ b/src/crawler/docs2harvest.cpp
@@ -135,7 +135,15 @@ int main(int argc, char* argv[]) {
         }
     }
     fputs("</mws:harvest>\n", harvestOutStream);
-    fclose(harvestOutStream);
+    {
+        const bool failed = ferror(harvestOutStream) != 0;
+        const bool closed = fclose(harvestOutStream) == 0;
+        harvestOutStream = nullptr;
+        if (failed || !closed) {
+            PRINT_WARN("Cannot write harvest %s\n", harvestPath);
+            goto failure;
+        }
+    }
 
     PRINT_LOG("Written harvest %s\n", harvestPath);
 
-- 
2.43.0


From d3fac291427519d997adef83debf95c633818b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 46/81] fix: converting a harvest with an expression without
 data crashed

---
 src/crawler/harvests2json.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 9febd76..8acee85 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -365,6 +365,12 @@ int HarvestParser::processExpression(const CmmlToken* expression,
     assert(expression != nullptr);
     assert(crawlId <= _idCounter);
 
+    auto document = documents.find(crawlId);
+    if (document == documents.end()) {
+        PRINT_WARN("Skipping an expression without data\n");
+        return 0;
+    }
+
     HarvestEncoder encoder(_meaningDictionary);
     u_int32_t numSubExpressions = 0;
 
@@ -389,7 +395,7 @@ int HarvestParser::processExpression(const CmmlToken* expression,
         hit->uri = exprUri;
         hit->xpath = subexpression->getXpath();
 
-        ParseResult* doc = documents[crawlId];
+        ParseResult* doc = document->second;
         (doc->idMappings[fmId]).push_back(hit);
         delete result;
     });
-- 
2.43.0


From bbdba6fa42a1efe4fa67af95649f5e2f26d3b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:16 +0000
Subject: [PATCH 47/81] fix: formulae which are not in the index were converted
 with an arbitrary identifier

---
 src/crawler/harvests2json.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 8acee85..9fe1f6a 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -389,6 +389,11 @@ int HarvestParser::processExpression(const CmmlToken* expression,
                                                /* offset = */ 0,
                                                /* size = */ 1,
                                                /* maxTotal = */ 1);
+        if (result->ids.empty()) {
+            PRINT_WARN("Skipping a formula (not in the index)\n");
+            delete result;
+            return;
+        }
         numSubExpressions += result->total;
         auto hit = new Hit();
         FormulaId fmId = *(result->ids.begin());
-- 
2.43.0


From 01f65d3b589ebc96a20a5eeba34410c0f10b911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 48/81] fix: metadata named like HTML elements were damaged by
 the conversion to JSON

---
 src/crawler/harvests2json.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 9fe1f6a..33929e6 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -140,7 +140,9 @@ struct DataItems {
 };
 
 static DataItems* getDataItems(const string& content) {
-    xmlDocPtr doc = parseDocument(content.c_str(), content.size());
+    // without a single root element, it would be taken for an HTML document
+    const string document = "<data>" + content + "</data>";
+    xmlDocPtr doc = parseDocument(document.c_str(), document.size());
     DataItems* dataItems = new DataItems();
     dataItems->text = getTextByXpath(doc, TEXT_XPATH);
     dataItems->id = getTextByXpath(doc, ID_XPATH);
-- 
2.43.0


From 98d37d309f48442cb567facfa387e9feb365c265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 49/81] fix: converting a record with an unnumbered math
 element aborted

---
 src/crawler/harvests2json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 33929e6..07cd899 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -150,7 +150,10 @@ static DataItems* getDataItems(const string& content) {
     // get math node mappings
     processXpathResults(doc, MATH_XPATH, [&](xmlNode* mathNode) {
         const xmlChar* xmlId = xmlGetProp(mathNode, BAD_CAST "local_id");
-        assert(xmlId != nullptr);
+        if (xmlId == nullptr) {
+            PRINT_WARN("Skipping a math element without local_id\n");
+            return;
+        }
 
         string id((char*)xmlId);
         xmlFree((void*)xmlId);
-- 
2.43.0


From 4744fb5777304742146819fe01178426a249a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 50/81] fix: harvests2json reported success when its output
 could not be written

---
 src/crawler/harvests2json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 07cd899..fe2feea 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -293,7 +293,14 @@ int main(int argc, char* argv[]) {
                 }
 
                 close(fd);
-                fclose(output);
+                const bool failed = ferror(output) != 0;
+                if (fclose(output) != 0 || failed) {
+                    PRINT_WARN("Cannot write %s\n", outputName.c_str());
+                    // otherwise it would be skipped as already converted
+                    unlink(outputName.c_str());
+                    result = EXIT_FAILURE;
+                    return 0;
+                }
                 PRINT_LOG("Processed %s\n", path.c_str());
             } else {
                 PRINT_LOG("Skipping \"%s\": bad extension\n", path.c_str());
-- 
2.43.0


From 53e8f1877f0e4ffbc63aaa6900fa4c77790c9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 51/81] fix: harvests2json reported success for damaged
 harvests

---
 src/crawler/harvests2json.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index fe2feea..ab24a5d 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -126,11 +126,13 @@ struct ParseResult {
  * @param meaningDictionary
  * @param fd file descriptor of the harvest file. The caller is responsable
  * for closing it.
+ * @param status is set to 0 if the complete harvest was read
  * @return a vector, where every element is a ParseResult associated with a doc
  */
 static vector<ParseResult*> parseMwsHarvestFromFd(
     const ExpressionEncoder::Config& encodingConfig,
-    IndexAccessor::Index* index, MeaningDictionary* meaningDictionary, int fd);
+    IndexAccessor::Index* index, MeaningDictionary* meaningDictionary, int fd,
+    int* status);
 
 struct DataItems {
     string id;
@@ -284,15 +286,20 @@ int main(int argc, char* argv[]) {
                     return 0;
                 }
 
+                int status;
                 vector<ParseResult*> parseResults = parseMwsHarvestFromFd(
                     config.encoding, data.getIndexHandle(),
-                    data.getMeaningDictionary(), fd);
+                    data.getMeaningDictionary(), fd, &status);
                 for (const ParseResult* parseResult : parseResults) {
                     writeParseResultToFile(*parseResult, output);
                     delete parseResult;
                 }
 
                 close(fd);
+                if (status != 0) {
+                    PRINT_WARN("Converted only a part of %s\n", path.c_str());
+                    result = EXIT_FAILURE;
+                }
                 const bool failed = ferror(output) != 0;
                 if (fclose(output) != 0 || failed) {
                     PRINT_WARN("Cannot write %s\n", outputName.c_str());
@@ -429,9 +436,10 @@ CrawlId HarvestParser::processData(const string& data) {
 
 static vector<ParseResult*> parseMwsHarvestFromFd(
     const ExpressionEncoder::Config& encodingConfig,
-    IndexAccessor::Index* index, MeaningDictionary* meaningDictionary, int fd) {
+    IndexAccessor::Index* index, MeaningDictionary* meaningDictionary, int fd,
+    int* status) {
 
     HarvestParser harvestParser(index, meaningDictionary, encodingConfig);
-    processHarvestFromFd(fd, &harvestParser);
+    *status = processHarvestFromFd(fd, &harvestParser).status;
     return harvestParser.getParseResults();
 }
-- 
2.43.0


From 375b87e3d81f81d01c3ce80eeddf048e9663c4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 52/81] fix: only one of several threads waiting in
 ThreadWrapper::clean returned

---
 src/common/thread/ThreadWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/thread/ThreadWrapper.cpp b/src/common/thread/ThreadWrapper.cpp
index 0d45958..b4fae42 100644
--- a/src/common/thread/ThreadWrapper.cpp
+++ b/src/common/thread/ThreadWrapper.cpp
@@ -114,7 +114,7 @@ ThreadWrapper::ThreadWrapper(void* (*start_routine)(void*), void* arg) {
 
 ThreadWrapper::~ThreadWrapper() {
     alive--;
-    if (alive == 0) pthread_cond_signal(&threadReleased);
+    if (alive == 0) pthread_cond_broadcast(&threadReleased);
 }
 
 int ThreadWrapper::run(void* (*start_routine)(void*), void* arg) {
-- 
2.43.0


From eccb34b3953e8baff77fcc1b2fbf53a9ab6d0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 53/81] fix: ThreadWrapper::run reported success for a thread
 it did not start

---
 src/common/thread/ThreadWrapper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/thread/ThreadWrapper.cpp b/src/common/thread/ThreadWrapper.cpp
index b4fae42..631c60f 100644
--- a/src/common/thread/ThreadWrapper.cpp
+++ b/src/common/thread/ThreadWrapper.cpp
@@ -30,6 +30,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 // System includes
 
+#include <errno.h>
+
 #include "ThreadWrapper.hpp"  // ThreadWrapper class definition
 
 // Static definitions
@@ -108,6 +110,9 @@ ThreadWrapper::ThreadWrapper(void* (*start_routine)(void*), void* arg) {
         alive++;
 
         pthread_attr_destroy(&attr);
+    } else {
+        pthread_mutex_unlock(&lock);
+        throw ECANCELED;
     }
     pthread_mutex_unlock(&lock);
 }
-- 
2.43.0


From 68b17877d2759da1f93b6db8eb7f2d4eaeff2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:19 +0000
Subject: [PATCH 54/81] fix: the time in answers without a search was arbitrary

---
 src/mws/types/MwsAnswset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/types/MwsAnswset.hpp b/src/mws/types/MwsAnswset.hpp
index 04d1cfb..c77cf4f 100644
--- a/src/mws/types/MwsAnswset.hpp
+++ b/src/mws/types/MwsAnswset.hpp
@@ -58,7 +58,7 @@ struct MwsAnswset : GenericAnswer {
     /// Duration for retrieng results (in ms)
     time_t time;
 
-    MwsAnswset() : total(0) {}
+    MwsAnswset() : total(0), time(0) {}
 
     ~MwsAnswset() {
         for (auto answer : answers) {
-- 
2.43.0


From 443856b88ba09c2f761b6f7a9d3d542f95d5007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:22 +0000
Subject: [PATCH 55/81] fix: the crawler requested a page three times when its
 download failed

---
 src/crawler/utils/Page.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index e7d03f0..2bd4152 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -83,7 +83,12 @@ void Page::downloadContent() {
         return;
     }
     string strUrl = getUrl();
-    auto errorstr = new char[CURL_ERROR_SIZE];
+    char errorstr[CURL_ERROR_SIZE] = "";
+
+    // The page is requested only once, even if it cannot be downloaded
+    downloadedContent = 1;
+    downloadedHeader = 1;
+    header.clear();
 
     curl_easy_setopt(curl, CURLOPT_URL, strUrl.c_str());
     curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, curlWriter);
@@ -94,11 +99,11 @@ void Page::downloadContent() {
     curl_easy_setopt(curl, CURLOPT_CONNECTTIMEOUT, 100);
     curl_easy_setopt(curl, CURLOPT_ERRORBUFFER, errorstr);
 
-    if (curl_easy_perform(curl) == 0) {
-        downloadedContent = 1;
-        downloadedHeader = 1;
-    } else
+    if (curl_easy_perform(curl) != 0) {
         PRINT_WARN("CURL: Cannot Download page because: \n  %s \n", errorstr);
+        header.clear();
+        content.clear();
+    }
 
     curl_easy_cleanup(curl);
 }
-- 
2.43.0


From 145acbd762d4cd754e3e0a136059a4fcaebd513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:22 +0000
Subject: [PATCH 56/81] fix: the crawler did not follow links in upper case or
 with entities

---
 src/crawler/utils/Page.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index 2bd4152..496e6e9 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -31,6 +31,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <gurl.h>
 #include <htmlcxx/html/ParserDom.h>
 #include <htmlcxx/html/tree.h>
+#include <htmlcxx/html/utils.h>
 
 #include "common/utils/compiler_defs.h"
 
@@ -198,9 +199,10 @@ vector<GURL> Page::getLinks() {
     tree<HTML::Node>::iterator it = dom.begin();
     tree<HTML::Node>::iterator end = dom.end();
     for (; it != end; ++it) {
-        if (it->tagName() == "a") {
+        if (it->tagName() == "a" || it->tagName() == "A") {
             it->parseAttributes();
-            string relative = it->attribute("href").second;
+            string relative =
+                HTML::decode_entities(it->attribute("href").second);
 
             GURL resolved = curr.Resolve(relative);
             if (resolved.host() == curr.host()) answer.push_back(resolved);
-- 
2.43.0


From 3e11245f15be312baf07c6a08eb9c39cb1f1071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 57/81] fix: a page linked twice from one page was crawled
 twice

---
 src/crawler/crawler/MwsCrawler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 0f9ad1b..9fa1ceb 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -267,7 +267,7 @@ void Crawler::cleanupLinks(vector<GURL>& page_links) {
     for (itpos = it = page_links.begin(); it != page_links.end(); ++i, ++it) {
         current = (*it);
         if (rtxt->is_allowed_by_robots_txt(current))
-            if (all_urls.find(getQueryable(current)) == all_urls.end()) {
+            if (all_urls.insert(getQueryable(current)).second) {
                 page_links[pos++] = (*it);
                 itpos++;
             }
-- 
2.43.0


From a7e13364a90f066add4de9656b9c579d716be5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 58/81] fix: a request with an invalid start URL and an
 excluded link crashed the crawler

---
 src/crawler/crawler/MwsCrawler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 9fa1ceb..b43679c 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -112,7 +112,10 @@ void Crawler::addCrawlerCount(int cnt) {
 /**
  * Implementation of dontCrawl
  */
-void Crawler::dontCrawl(string link) { rtxt->dont_allow(link); }
+void Crawler::dontCrawl(string link) {
+    if (rtxt == nullptr) return;  // there is nothing to crawl
+    rtxt->dont_allow(link);
+}
 
 /**
  * Implementation of addDataDirectory
-- 
2.43.0


From 7a9c854de28fa3d8d8c1b332a7ddfe8fed5c34bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 59/81] fix: robots.txt was parsed with an overflow and its
 groups and values misread

---
 src/crawler/types/Robotstxt.cpp | 55 ++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index bb9e54d..a28ead3 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -26,10 +26,11 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <string>
 #include <vector>
 #include <iostream>
+#include <sstream>
+#include <strings.h>
 
 // Local includes
 #include "common/utils/compiler_defs.h"
-#include "common/utils/memstream.h"
 #include "crawler/utils/Page.hpp"
 #include "Robotstxt.hpp"
 
@@ -38,6 +39,16 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 using namespace std;
 
+/**
+ * Removes the blanks around a string
+ */
+static string trim(const string& str) {
+    const char* blanks = " \t\r\n";
+    size_t first = str.find_first_not_of(blanks);
+    if (first == string::npos) return "";
+    return str.substr(first, str.find_last_not_of(blanks) - first + 1);
+}
+
 /**
  * Implementation of Robotstxt constructor
  *
@@ -54,29 +65,31 @@ Robotstxt::Robotstxt(GURL aStartUrl) {
     }
 
     // If Our Crawler has no name
-    string userAgent = "User-agent: ";
     string thisCrawler = "*";
-    string disallow = "Disallow: ";
-    int isInBrackets = 0;
-    FILE* stream;
-    auto robpg = new char[rob.size()];
-    strcpy(robpg, rob.c_str());
-    stream = fmemopen(robpg, rob.size(), "r");
-    const int bufmax = 1000;
-    char buf[bufmax];
-    while (fgets(buf, bufmax, stream) != nullptr) {
-        string line(buf);
-        if (line.compare(0, userAgent.size(), userAgent) == 0) {
-            if (isInBrackets)
-                isInBrackets = 0;
-            else if (line.compare(0, userAgent.size() + thisCrawler.size(),
-                                  userAgent + thisCrawler) == 0)
-                isInBrackets = 1;
+    bool isInBrackets = false;
+    bool lastWasAgent = false;
+    stringstream stream(rob);
+    string line;
+    while (getline(stream, line)) {
+        // the line is "field: value", a comment may follow
+        line = line.substr(0, line.find('#'));
+        size_t colon = line.find(':');
+        if (colon == string::npos) continue;
+        string field = trim(line.substr(0, colon));
+        string value = trim(line.substr(colon + 1));
+
+        if (strcasecmp(field.c_str(), "User-agent") == 0) {
+            // several agents may share the rules that follow them
+            if (!lastWasAgent) isInBrackets = false;
+            if (value == thisCrawler) isInBrackets = true;
+            lastWasAgent = true;
+            continue;
         }
+        lastWasAgent = false;
 
-        if (isInBrackets && line.compare(0, disallow.size(), disallow) == 0) {
-            string dontCrawlLink = line.substr(disallow.size());
-            this->dont_allow(dontCrawlLink);
+        if (isInBrackets && strcasecmp(field.c_str(), "Disallow") == 0 &&
+            value != "") {
+            this->dont_allow(value);
         }
     }
     // TODO: Crawl-Delay getter for Non-Standard robots.txt extension
-- 
2.43.0


From f8b56f2c3f20ea645b535a95a7d667095c265388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 60/81] fix: rules of robots.txt were not applied to pages with
 a query and applied to siblings of directories

---
 src/crawler/types/Robotstxt.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index a28ead3..1cb596c 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -49,6 +49,13 @@ static string trim(const string& str) {
     return str.substr(first, str.find_last_not_of(blanks) - first + 1);
 }
 
+/**
+ * The part of a url the rules are about
+ */
+static string pathAndQuery(const GURL& gurl) {
+    return gurl.has_query() ? gurl.path() + "?" + gurl.query() : gurl.path();
+}
+
 /**
  * Implementation of Robotstxt constructor
  *
@@ -113,21 +120,13 @@ void Robotstxt::dont_allow(string url) {
  */
 int Robotstxt::is_allowed_by_robots_txt(GURL gurl) {
     vector<GURL>::iterator it;
-    GURL c;
-    string cp;
+    string path = pathAndQuery(gurl);
 
+    // everything that starts with a path that is not allowed is not allowed
     for (it = not_allowed.begin(); it != not_allowed.end(); ++it) {
-        c = (*it);
-        if (gurl.host() == c.host() && gurl.query() == c.query()) {
-            cp = c.path();
-            if (cp[cp.size() - 1] == '/') {
-                if (gurl.path().substr(0, cp.length() - 1) ==
-                    cp.substr(0, cp.length() - 1))
-                    return 0;
-            } else {
-                if (gurl.path().substr(0, cp.length()) == cp) return 0;
-            }
-        }
+        string cp = pathAndQuery(*it);
+        if (gurl.host() == it->host() && path.compare(0, cp.size(), cp) == 0)
+            return 0;
     }
     return 1;
 }
-- 
2.43.0


From 9e206503ecd7f7b6c8e3090c88e7570bdaae2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 61/81] fix: math in HTML pages was read beyond the page, and
 lost beside incomplete or empty elements

---
 src/crawler/utils/MwsGetMath.cpp | 168 ++++++++++++++++---------------
 1 file changed, 88 insertions(+), 80 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 9670d62..f45378a 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -54,99 +54,107 @@ using namespace mws;
 std::set<std::string> mathml_tags;
 
 /*
- * Helper function for get_math_html
+ * Helper function for get_math_blocks
  *
- * Get math blocks from a html code
- * returns a vector of formulas together with their id's(if they have one)
+ * Finds the complete math elements of a html code, without those inside of
+ * another one. Returns the positions of their first character and of the one
+ * after the last
  */
-vector<pair<string, string> > get_math_blocks(string html) {
-    store_mathml_tags();
-    int pos = 0, sz = html.size();
-    vector<pair<int, int> > allpos;
-    string matho = "<math";
-    string mathc = "</math>";
-
-    // finds all opening math tags and stores starting position in all pos
-    while (1) {
-        size_t oc = html.find(matho, pos);
-        if (oc == string::npos) break;
-        pos = oc + matho.size();
-        allpos.push_back(make_pair(oc, 1));
-        // check whether the tag closes by itself
-        while (1) {
-            if (pos == sz) break;
-            if (html[pos] == '>') break;
-            if (html[pos] == '/' && (pos + 1) < sz && html[pos + 1] == '>') {
-                allpos.push_back(make_pair(pos, -1));
-                pos = pos + 2;
+static vector<pair<size_t, size_t> > find_math_elements(const string& html) {
+    const string matho = "<math";
+    const string mathc = "</math";
+    const string nameEnd = " \t\r\n/>";
+    vector<pair<size_t, size_t> > found;
+    vector<size_t> opened;
+
+    for (size_t pos = html.find('<'); pos != string::npos;
+         pos = html.find('<', pos + 1)) {
+        bool closing = html.compare(pos, mathc.size(), mathc) == 0;
+        if (!closing && html.compare(pos, matho.size(), matho) != 0) continue;
+        size_t end = pos + (closing ? mathc.size() : matho.size());
+        if (end >= html.size() || nameEnd.find(html[end]) == string::npos)
+            continue;  // another tag
+
+        // find where the tag ends
+        char quote = 0;
+        while (end < html.size() && html[end] != '<' &&
+               (quote || html[end] != '>')) {
+            if (quote) {
+                if (html[end] == quote) quote = 0;
+            } else if (html[end] == '"' || html[end] == '\'') {
+                quote = html[end];
             }
-            ++pos;
+            ++end;
         }
+        if (end == html.size() || html[end] == '<') continue;  // it does not
+
+        size_t start = pos;
+        if (closing) {
+            if (opened.empty()) continue;
+            start = opened.back();
+            opened.pop_back();
+        } else if (html[end - 1] != '/') {
+            opened.push_back(pos);
+            continue;
+        }
+        while (!found.empty() && found.back().first > start) found.pop_back();
+        found.push_back(make_pair(start, end + 1));
     }
-    pos = 0;
 
-    // finds all closing math tags and stores starting position in allpos
-    while (1) {
-        size_t oc = html.find(mathc, pos);
-        if (oc == string::npos) break;
-        pos = oc + mathc.size();
-        allpos.push_back(make_pair(oc, -1));
-    }
-    sort(allpos.begin(), allpos.end());
+    return found;
+}
 
-    // for (int i = 0; i < allpos.size(); ++i) cout << allpos[i].first << " " <<
-    // allpos[i].second << endl;
+/*
+ * Helper function for get_math_html
+ *
+ * Get math blocks from a html code
+ * returns a vector of formulas together with their id's(if they have one)
+ */
+vector<pair<string, string> > get_math_blocks(string html) {
+    store_mathml_tags();
+    vector<pair<size_t, size_t> > allpos = find_math_elements(html);
 
     vector<pair<string, string> > ans;
 
     // extract math content and add namespaces to mathml tags
 
-    int lpos = 0, val = 0;
-    for (int i = 0; (unsigned int)i < allpos.size(); ++i) {
-        val += allpos[i].second;
-        if (val == 0) {
-            string nstr;
-            int start = allpos[lpos].first;
-            int stop = allpos[i].first + mathc.size();
-            if (html[allpos[i].first] == '/')
-                stop = allpos[i].first +
-                       2;  // the case when the tag closes by itself
-
-            for (int j = start; j < stop; ++j)
-                if (html[j] != '<')
-                    nstr.push_back(html[j]);
-                else {
-                    string g;
-                    int k = j + 1;
-                    if (html[k] == '/') {
-                        g.push_back(html[k]);
-                        ++k;
-                    }
-                    while (k < stop && islower(html[k])) {
-                        g.push_back(html[k]);
-                        ++k;
-                    }
-                    if (mathml_tags.find(g) != mathml_tags.end()) {
-                        if (g[0] == '/') {
-                            nstr = nstr + "</m:";
-                            ++j;
-                        } else
-                            nstr = nstr + "<m:";
-                    } else
-                        nstr.push_back(html[j]);
+    for (size_t i = 0; i < allpos.size(); ++i) {
+        string nstr;
+        int start = allpos[i].first;
+        int stop = allpos[i].second;
+
+        for (int j = start; j < stop; ++j)
+            if (html[j] != '<')
+                nstr.push_back(html[j]);
+            else {
+                string g;
+                int k = j + 1;
+                if (html[k] == '/') {
+                    g.push_back(html[k]);
+                    ++k;
                 }
-            lpos = i + 1;
-
-            // check whether formula has an id, save it and return it
-            string id;
-            size_t we = nstr.find(">");
-            size_t wid = nstr.find(" id=");
-            if (wid != string::npos && wid < we)
-                for (int j = wid + 5; nstr[j] != '"'; ++j)
-                    id.push_back(nstr[j]);
-
-            ans.push_back(make_pair(nstr, id));
-        }
+                while (k < stop && islower(html[k])) {
+                    g.push_back(html[k]);
+                    ++k;
+                }
+                if (mathml_tags.find(g) != mathml_tags.end()) {
+                    if (g[0] == '/') {
+                        nstr = nstr + "</m:";
+                        ++j;
+                    } else
+                        nstr = nstr + "<m:";
+                } else
+                    nstr.push_back(html[j]);
+            }
+        // check whether formula has an id, save it and return it
+        string id;
+        size_t we = nstr.find(">");
+        size_t wid = nstr.find(" id=");
+        if (wid != string::npos && wid < we)
+            for (int j = wid + 5; nstr[j] != '"'; ++j)
+                id.push_back(nstr[j]);
+
+        ans.push_back(make_pair(nstr, id));
     }
 
     return ans;
-- 
2.43.0


From 495a92f998b17989f77a1f15357eb94d4c0a0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 62/81] fix: formulas of pages with special characters in their
 address or id were lost or misattributed

---
 src/crawler/utils/MwsGetMath.cpp | 75 +++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index f45378a..069a8bf 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -53,6 +53,52 @@ using namespace mws;
 
 std::set<std::string> mathml_tags;
 
+// The beginning and the end of the documents with the formulas
+static const string harvestStart =
+    "<?xml version=\"1.0\" ?> <mws:harvest "
+    "xmlns:m=\"http://www.w3.org/1998/Math/MathML\" "
+    "xmlns:mws=\"http://search.mathweb.org/ns\">";
+static const string harvestEnd = "</mws:harvest>";
+
+/*
+ * Helper function: the attribute with the url of a formula in a page
+ */
+static string get_url_attribute(const string& url, const string& id) {
+    string value = id.empty() ? url : url + "#" + id;
+    xmlChar* escaped = xmlEncodeSpecialChars(nullptr, BAD_CAST value.c_str());
+    string attribute = string("url=\"") + (const char*)escaped + "\"";
+    xmlFree(escaped);
+    return attribute;
+}
+
+/*
+ * Helper function: the identifier of an element, empty if it has none
+ */
+static string get_id(xmlNodePtr node) {
+    xmlChar* value = xmlGetProp(node, BAD_CAST "id");
+    string id = (value != nullptr) ? (const char*)value : "";
+    xmlFree(value);
+    return id;
+}
+
+/*
+ * Helper function for get_math_blocks
+ *
+ * The identifier of a formula, empty if it has none
+ */
+static string get_id(const string& xml) {
+    string xmlfull = harvestStart + xml + harvestEnd;
+    xmlDocPtr doc = xmlParseMemory(xmlfull.c_str(), xmlfull.size());
+    if (doc == nullptr) return "";  // will not be used
+
+    string id;
+    xmlNodePtr root = xmlDocGetRootElement(doc);
+    if (root->children != nullptr) id = get_id(root->children);
+    xmlFreeDoc(doc);
+
+    return id;
+}
+
 /*
  * Helper function for get_math_blocks
  *
@@ -146,13 +192,9 @@ vector<pair<string, string> > get_math_blocks(string html) {
                 } else
                     nstr.push_back(html[j]);
             }
+
         // check whether formula has an id, save it and return it
-        string id;
-        size_t we = nstr.find(">");
-        size_t wid = nstr.find(" id=");
-        if (wid != string::npos && wid < we)
-            for (int j = wid + 5; nstr[j] != '"'; ++j)
-                id.push_back(nstr[j]);
+        string id = get_id(nstr);
 
         ans.push_back(make_pair(nstr, id));
     }
@@ -250,12 +292,8 @@ vector<string> get_math_html(Page& page) {
     for (it = xml.begin(); it != xml.end(); ++it) {
         string str;
         if (is_good_xml(it->first)) {
-            if (it->second != "")
-                str = "<mws:expr url=\"" + url + "#" + (it->second) + "\">\n" +
-                      (it->first) + "\n</mws:expr>\n";
-            else
-                str = "<mws:expr url=\"" + url + "\">\n" + (it->first) +
-                      "\n</mws:expr>\n";
+            str = "<mws:expr " + get_url_attribute(url, it->second) + ">\n" +
+                  (it->first) + "\n</mws:expr>\n";
             ret.push_back(str);
         }
     }
@@ -344,10 +382,10 @@ std::vector<std::string> get_math_xhtml(const string& xhtml,
             size_t sz;
             FILE* stream = open_memstream(&buf, &sz);
 
-            xmlChar* id = xmlGetProp(
-                nodeset->nodeTab[i]->parent->parent->parent, (xmlChar*)"id");
+            string id = get_id(nodeset->nodeTab[i]->parent->parent->parent);
 
-            fprintf(stream, "<mws:expr url=\"%s#%s\">\n", url.c_str(), id);
+            fprintf(stream, "<mws:expr %s>\n",
+                    get_url_attribute(url, id).c_str());
             xmlElemDump(stream, doc, nodeset->nodeTab[i]);
             fprintf(stream, "</mws:expr>\n");
             fclose(stream);
@@ -357,7 +395,6 @@ std::vector<std::string> get_math_xhtml(const string& xhtml,
                 harvest_exprs.push_back(str);
             }
 
-            xmlFree(id);
             free(buf);
         }
 
@@ -395,11 +432,7 @@ vector<string> get_math(Page& page) {
  * Implementation of is_good_xml()
  */
 int is_good_xml(string xml) {
-    string xmlfull =
-        "<?xml version=\"1.0\" ?> <mws:harvest "
-        "xmlns:m=\"http://www.w3.org/1998/Math/MathML\" "
-        "xmlns:mws=\"http://search.mathweb.org/ns\">" +
-        xml + "</mws:harvest>";
+    string xmlfull = harvestStart + xml + harvestEnd;
 
     int size = xmlfull.size();
     xmlDocPtr doc = xmlParseMemory(xmlfull.c_str(), size);
-- 
2.43.0


From d49f51e28e784b3cfd8fbfe4bc2b21a303020e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 63/81] fix: the list of MathML tags was read beyond its end

---
 src/crawler/utils/MwsGetMath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 069a8bf..909ed4f 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -318,7 +318,7 @@ void store_mathml_tags() {
     is.seekg(0, ios::beg);
     is.read(alltags, length);
     is.close();
-    string all_tags(alltags);
+    string all_tags(alltags, length);
     delete[] alltags;
     int pos = 0;
 
@@ -372,6 +372,7 @@ std::vector<std::string> get_math_xhtml(const string& xhtml,
     vector<string> harvest_exprs;
 
     xmlDocPtr doc = get_XMLDoc(xhtml.c_str());
+    if (doc == nullptr) return harvest_exprs;
 
     xmlXPathObjectPtr result = get_XMLNodeset(doc, xpath);
     if (result != nullptr) {
-- 
2.43.0


From d8b0a725edd6fe2422b7439aef2a25b1ede56764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:17 +0000
Subject: [PATCH 64/81] fix: the type of a page was not recognised in headers
 in lower case or without a blank

---
 src/crawler/utils/MwsGetMath.cpp | 33 +++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 909ed4f..4642482 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -34,6 +34,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <cstring>
 #include <iostream>
 #include <fstream>
+#include <sstream>
+#include <strings.h>
 #include <libxml/parser.h>  // LIBXML2 library for XHTML parsing
 #include <libxml/HTMLparser.h>
 #include <libxml/xpath.h>
@@ -264,16 +266,32 @@ namespace mws {
 
 // ============ HTML RELATED ================
 
+/*
+ * Helper function: returns 1 if the header of the page gives this type
+ */
+static int has_content_type(Page& page, const string& type) {
+    const string field = "Content-Type:";
+    stringstream header(page.getHeader());
+    string line;
+
+    while (getline(header, line)) {
+        if (strncasecmp(line.c_str(), field.c_str(), field.size()) != 0)
+            continue;
+        size_t value = line.find_first_not_of(" \t", field.size());
+        if (value != string::npos &&
+            strncasecmp(line.c_str() + value, type.c_str(), type.size()) == 0)
+            return 1;
+    }
+
+    return 0;
+}
+
 /*
  * Implementation of isHTML
  * returns 1 if the header says that the page is HTML
  */
 int isHTML(Page& page) {
-    string header = page.getHeader();
-
-    // Search for "Content-Type: text/html" in the header file
-    string ctype = "Content-Type: text/html";
-    return (header.find(ctype) != string::npos);
+    return has_content_type(page, "text/html");
 }
 
 /*
@@ -353,10 +371,7 @@ void store_mathml_tags() {
  * returns 1 if the header says that the page is XHTML
  */
 int isXHTML(Page& page) {
-    // Search for "Content-Type: application/xhtml+xml" in the header file
-    string ctype = "Content-Type: application/xhtml+xml";  // FIXME spaces can
-                                                           // easily break this
-    return (page.getHeader().find(ctype) != string::npos);
+    return has_content_type(page, "application/xhtml+xml");
 }
 
 /**
-- 
2.43.0


From 4cd65798633d707753d0242952a5a56d3be04699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:17 +0000
Subject: [PATCH 65/81] fix: harvests stored within the same second overwrote
 each other

---
 src/crawler/crawler/MwsCrawler.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index b43679c..2dd84cc 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -31,6 +31,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <vector>
 #include <queue>
 #include <set>
+#include <errno.h>
 #include <unistd.h>
 #include <time.h>
 #include <sstream>
@@ -207,16 +208,24 @@ void Crawler::run(SharedQueue* sq, const char* dataDir) {
  */
 void Crawler::storeMath(const char* xml) {
     stringstream strs;
-    strs << data_directory << "/harvest" << time(nullptr) << ".xml";
-    string fileName;
-    strs >> fileName;
-    FILE* f = fopen(fileName.c_str(), "w");
+    strs << data_directory << "/harvest" << time(nullptr);
+    string fileName = strs.str() + ".xml";
+    // there may be files of the same second already
+    FILE* f = fopen(fileName.c_str(), "wx");
+    for (int i = 1; f == nullptr && errno == EEXIST; i++) {
+        stringstream name;
+        name << strs.str() << "_" << i << ".xml";
+        fileName = name.str();
+        f = fopen(fileName.c_str(), "wx");
+    }
     if (f == nullptr) {
         cerr << "Cannot open harvest file: " << fileName << endl;
         return;
     }
-    fwrite(xml, strlen(xml), sizeof(char), f);
-    fclose(f);
+    bool written = (fputs(xml, f) != EOF);
+    if (fclose(f) != 0 || !written) {
+        cerr << "Cannot write harvest file: " << fileName << endl;
+    }
 }
 
 /**
-- 
2.43.0


From 5465c052948d918b2710dbfccba6d55864eba507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:42 +0000
Subject: [PATCH 66/81] fix: values of a crawl request received in pieces or at
 the limits of their size were damaged

---
 src/crawler/daemon/CrawlerDaemon.cpp | 82 ++++++++++++++--------------
 src/crawler/daemon/CrawlerDaemon.hpp |  1 +
 2 files changed, 43 insertions(+), 40 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index e5809be..fe74648 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -79,6 +79,29 @@ static int cd_SendPageThroughConnection(struct MHD_Connection* connection,
     return ret;
 }
 
+/**
+ * @brief: adds a piece at position 'off' to a value, which may be received in
+ * several ones
+ * @return the value, or nullptr if it is empty or too long
+ */
+static char* cd_AddToValue(char* value, const char* data, uint64_t off,
+                           size_t size) {
+    if (off == 0) {
+        free(value);
+        value = (size > 0) ? (char*)malloc(MAXNAMESIZE + 1) : nullptr;
+    }
+    if (value == nullptr) return nullptr;
+
+    if (off + size > MAXNAMESIZE) {
+        free(value);
+        return nullptr;
+    }
+    memcpy(value + off, data, size);
+    value[off + size] = '\0';
+
+    return value;
+}
+
 /**
  * @brief: method that iterates the key-value pairs of the POST message received
  */
@@ -91,50 +114,29 @@ static int cd_IteratePostRequest(void* coninfo_cls, enum MHD_ValueKind kind,
     UNUSED(filename);
     UNUSED(content_type);
     UNUSED(transfer_encoding);
-    UNUSED(off);
 
     struct connection_info_struct* con_info =
         (connection_info_struct*)coninfo_cls;
 
     if (0 == strcmp(key, "urlstart")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* urlstart;
-            urlstart = (char*)malloc(MAXNAMESIZE);
-            if (!urlstart) return MHD_NO;
-
-            strcpy(urlstart, data);
-            con_info->urlstart = urlstart;
-        } else
-            con_info->urlstart = nullptr;
-
-        return MHD_YES;
-    }
-    if (0 == strcmp(key, "count")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* count;
-            count = (char*)malloc(MAXNAMESIZE);
-            if (!count) return MHD_NO;
-
-            strcpy(count, data);
-            con_info->count = count;
-        } else
-            con_info->count = nullptr;
-
-        return MHD_YES;
-    }
-    if (0 == strcmp(key, "dontcrawl")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* dontcrawl;
-            dontcrawl = (char*)malloc(MAXNAMESIZE);
-            if (!dontcrawl) return MHD_NO;
-
-            strcpy(dontcrawl, data);
-            con_info->dontcrawl[con_info->dontcrawlnr] = dontcrawl;
-            con_info->dontcrawlnr++;
-        } else
-            con_info->dontcrawl[con_info->dontcrawlnr] = nullptr;
-
-        return MHD_YES;
+        con_info->urlstart =
+            cd_AddToValue(con_info->urlstart, data, off, size);
+    } else if (0 == strcmp(key, "count")) {
+        con_info->count = cd_AddToValue(con_info->count, data, off, size);
+    } else if (0 == strcmp(key, "dontcrawl")) {
+        int* nr = &con_info->dontcrawlnr;
+        if (off == 0) {  // another link, if there is place for it
+            con_info->dontcrawlskip = (*nr == MAXDONTCRAWLSIZE);
+            if (!con_info->dontcrawlskip) con_info->dontcrawl[(*nr)++] = nullptr;
+        }
+        if (!con_info->dontcrawlskip) {
+            char** last = &con_info->dontcrawl[*nr - 1];
+            *last = cd_AddToValue(*last, data, off, size);
+            if (*last == nullptr) {  // empty or too long
+                con_info->dontcrawlskip = 1;
+                (*nr)--;
+            }
+        }
     }
     return MHD_YES;
 }
@@ -215,7 +217,7 @@ static int cd_AccessHandlerCallback(void* cls,
         con_info->urlstart = nullptr;
         con_info->count = nullptr;
         con_info->dontcrawlnr = 0;
-        con_info->dontcrawl[0] = nullptr;
+        con_info->dontcrawlskip = 1;
 
         if (0 == strcmp(method, "POST")) {
             con_info->postprocessor = MHD_create_post_processor(
diff --git a/src/crawler/daemon/CrawlerDaemon.hpp b/src/crawler/daemon/CrawlerDaemon.hpp
index 56e9944..5d5c91c 100644
--- a/src/crawler/daemon/CrawlerDaemon.hpp
+++ b/src/crawler/daemon/CrawlerDaemon.hpp
@@ -59,6 +59,7 @@ struct connection_info_struct
     char *urlstart;
     char *count;
     int dontcrawlnr;
+    int dontcrawlskip; // whether the link being received is not kept
     char *dontcrawl[MAXDONTCRAWLSIZE];
     struct MHD_PostProcessor *postprocessor;
 };
-- 
2.43.0


From 2c543806940f53200454d635b966fea8c76006b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:42 +0000
Subject: [PATCH 67/81] fix: crawl requests cut by the connection were run with
 the part of them that had been received

---
 src/crawler/daemon/CrawlerDaemon.cpp | 7 +++++--
 src/crawler/daemon/CrawlerDaemon.hpp | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index fe74648..e967eb9 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -163,7 +163,7 @@ static void cd_RequestCompletedCallback(void* cls,
     if (nullptr == con_info) return;
 
     if (con_info->connectiontype == POST) {
-        if (con_info->urlstart != nullptr) {
+        if (con_info->complete && con_info->urlstart != nullptr) {
             qNode.urlstart = con_info->urlstart;
             goodRequest = 1;
         }
@@ -218,6 +218,7 @@ static int cd_AccessHandlerCallback(void* cls,
         con_info->count = nullptr;
         con_info->dontcrawlnr = 0;
         con_info->dontcrawlskip = 1;
+        con_info->complete = 0;
 
         if (0 == strcmp(method, "POST")) {
             con_info->postprocessor = MHD_create_post_processor(
@@ -252,7 +253,9 @@ static int cd_AccessHandlerCallback(void* cls,
             *upload_data_size = 0;
 
             return MHD_YES;
-        } else if (con_info->urlstart != nullptr) {
+        }
+        con_info->complete = 1;
+        if (con_info->urlstart != nullptr) {
             return cd_SendPageThroughConnection(connection, answerpage);
         }
     }
diff --git a/src/crawler/daemon/CrawlerDaemon.hpp b/src/crawler/daemon/CrawlerDaemon.hpp
index 5d5c91c..0845303 100644
--- a/src/crawler/daemon/CrawlerDaemon.hpp
+++ b/src/crawler/daemon/CrawlerDaemon.hpp
@@ -56,6 +56,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 struct connection_info_struct
 {
     int connectiontype;
+    int complete; // whether all of the request was received
     char *urlstart;
     char *count;
     int dontcrawlnr;
-- 
2.43.0


From abfb1484cb0a1920a40b241053752ea7957540ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:42 +0000
Subject: [PATCH 68/81] fix: crawlerd crashed without its request page

---
 src/crawler/daemon/CrawlerDaemon.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index e967eb9..01a1f12 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -271,7 +271,12 @@ CrawlerDaemon::CrawlerDaemon() {
     sharedQueue = nullptr;
 
     FILE* getpg = fopen(GETRESPONSE_PATH, "r");
-    fread(askpage, 1, MAXASKPAGESIZE, getpg);
+    if (getpg == nullptr) {
+        PRINT_WARN("Cannot open %s\n", GETRESPONSE_PATH);
+        return;
+    }
+    // the page ends with a zero
+    fread(askpage, 1, MAXASKPAGESIZE - 1, getpg);
     fclose(getpg);
 }
 
-- 
2.43.0


From 6236fc0c07f0459a389464ddae1734bcf8b52471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:42 +0000
Subject: [PATCH 69/81] fix: the crawl queue was read without its lock

---
 src/crawler/crawler/MwsCrawler.cpp | 18 ++++++++++++------
 src/crawler/crawlerd.cpp           |  2 ++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 2dd84cc..776c68f 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -181,16 +181,22 @@ void Crawler::start() {
  */
 void Crawler::run(SharedQueue* sq, const char* dataDir) {
     while (true) {
-        while ((*sq).sharedQueue.empty()) {
-            sleep(1);  // TODO
-        }
-
-        QueueNode qNode = (*sq).sharedQueue.front();
+        QueueNode qNode;
+        bool received = false;
 
         pthread_mutex_lock(&sq->lock);
-        (*sq).sharedQueue.pop();
+        if (!(*sq).sharedQueue.empty()) {
+            qNode = (*sq).sharedQueue.front();
+            (*sq).sharedQueue.pop();
+            received = true;
+        }
         pthread_mutex_unlock(&sq->lock);
 
+        if (!received) {
+            sleep(1);  // TODO
+            continue;
+        }
+
         Crawler newCrawler;
 
         newCrawler.addURLStart(qNode.urlstart);
diff --git a/src/crawler/crawlerd.cpp b/src/crawler/crawlerd.cpp
index accd50a..48f35e5 100644
--- a/src/crawler/crawlerd.cpp
+++ b/src/crawler/crawlerd.cpp
@@ -148,9 +148,11 @@ int main(int argc, char* argv[]) {
     crawlerDaemon.stop();
 
     // delete sharedQueue
+    pthread_mutex_lock(&sq->lock);
     while (!(*sq).sharedQueue.empty()) {
         sq->sharedQueue.pop();
     }
+    pthread_mutex_unlock(&sq->lock);
 
     return EXIT_SUCCESS;
 }
-- 
2.43.0


From 1615391ed20c565df509d628f837d35ebd53e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:42 +0000
Subject: [PATCH 70/81] fix: crawlerd accepted requests although no crawler was
 running

---
 src/crawler/crawlerd.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crawler/crawlerd.cpp b/src/crawler/crawlerd.cpp
index 48f35e5..86dfa61 100644
--- a/src/crawler/crawlerd.cpp
+++ b/src/crawler/crawlerd.cpp
@@ -109,7 +109,11 @@ int main(int argc, char* argv[]) {
     auto ci = new CrawlerInfo;
     ci->sharedQueuePtr = sq;
     ci->dataDirectory = dataDir;
-    ThreadWrapper::run(*startCrawler, (void*)ci);
+    ret = ThreadWrapper::run(*startCrawler, (void*)ci);
+    if (ret != 0) {
+        fprintf(stderr, "Failed to start the Crawler!\n");
+        exit(0);
+    }
 
     // Starting the daemon
     ret = crawlerDaemon.start(restPort, sq);
-- 
2.43.0


From aed42a3a454c272cbce7224064b7a934a95feb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:50 +0000
Subject: [PATCH 71/81] fix: relative paths were looked up in / with
 --daemonize

---
 src/mws/mwsd.cpp    | 2 +-
 src/mws/schemad.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index 030718b..f65f0ff 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -156,7 +156,7 @@ int main(int argc, char* argv[]) {
     // daemon
     if (FlagParser::hasArg('d')) {
         // Daemonizing
-        ret = ::daemon(0, /* noclose = */ FlagParser::hasArg('l'));
+        ret = ::daemon(/* nochdir = */ 1, /* noclose = */ FlagParser::hasArg('l'));
         if (ret != 0) {
             fprintf(stderr, "Failed to daemonize\n");
             return EXIT_FAILURE;
diff --git a/src/mws/schemad.cpp b/src/mws/schemad.cpp
index 8e92e8d..27afcf0 100644
--- a/src/mws/schemad.cpp
+++ b/src/mws/schemad.cpp
@@ -118,7 +118,7 @@ int main(int argc, char* argv[]) {
     // daemon
     if (FlagParser::hasArg('d')) {
         // Daemonizing
-        ret = ::daemon(0, /* noclose = */ FlagParser::hasArg('l'));
+        ret = ::daemon(/* nochdir = */ 1, /* noclose = */ FlagParser::hasArg('l'));
         if (ret != 0) {
             fprintf(stderr, "Failed to daemonize\n");
             return EXIT_FAILURE;
-- 
2.43.0


From 46d246870c41997299a5d49a454651e8a56faaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:35 +0000
Subject: [PATCH 72/81] fix: a shutdown signal could be lost by the daemons

The signals were blocked in the main thread only. When another thread
received one after the flag was checked, the main thread waited forever.
---
 src/crawler/crawlerd.cpp | 15 ++++++++-------
 src/mws/mwsd.cpp         | 17 +++++++----------
 src/mws/schemad.cpp      | 17 +++++++----------
 3 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/crawler/crawlerd.cpp b/src/crawler/crawlerd.cpp
index 86dfa61..d3b26e0 100644
--- a/src/crawler/crawlerd.cpp
+++ b/src/crawler/crawlerd.cpp
@@ -97,6 +97,14 @@ int main(int argc, char* argv[]) {
         dataDir = dataDir + "/" + (FlagParser::getArg('d'));
     }
 
+    // Preparing the signal mask
+    sigemptyset(&mask);
+    sigaddset(&mask, SIGINT);
+    sigaddset(&mask, SIGTERM);
+    // Block the signals, before the threads which would inherit the mask
+    if (sigprocmask(SIG_BLOCK, &mask, &old_mask) == -1)
+        fprintf(stderr, "sigprocmask - SIG_BLOCK");
+
     // Initialize Thread
     ret = ThreadWrapper::init();
     if (ret) {
@@ -126,13 +134,6 @@ int main(int argc, char* argv[]) {
     sa.sa_handler = catch_sigint;
     sigemptyset(&sa.sa_mask);
     sa.sa_flags = 0;
-    // Preparing the signal mask
-    sigemptyset(&mask);
-    sigaddset(&mask, SIGINT);
-    sigaddset(&mask, SIGTERM);
-    // Block the signals and actions
-    if (sigprocmask(SIG_BLOCK, &mask, &old_mask) == -1)
-        fprintf(stderr, "sigprocmask - SIG_BLOCK");
     if (sigaction(SIGINT, &sa, &old_sa1) == -1)
         fprintf(stderr, "sigaction - open");
     if (sigaction(SIGTERM, &sa, &old_sa2) == -1)
diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index f65f0ff..172db52 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -28,6 +28,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
+#include <semaphore.h>
 #include <signal.h>
 
 #include <memory>
@@ -60,7 +61,8 @@ using mws::parser::initxmlparser;
 
 #include "build-gen/config.h"
 
-static volatile sig_atomic_t shouldQuit = 0;
+// posted on SIGINT / SIGTERM, which any of the threads might receive
+static sem_t shouldQuit;
 unique_ptr<Daemon> mwsDaemon;
 
 static void catch_sig(int sig);
@@ -237,7 +239,7 @@ static void catch_sig(int sig) {
     switch (sig) {
     case SIGINT:
     case SIGTERM:
-        shouldQuit = 1;
+        sem_post(&shouldQuit);
         break;
     case SIGSEGV:
     case SIGABRT:
@@ -261,6 +263,8 @@ static void catch_sig(int sig) {
 
 static void setup_signals() {
     struct sigaction sa;
+
+    sem_init(&shouldQuit, /* pshared = */ 0, /* value = */ 0);
     memset(&sa, 0, sizeof(struct sigaction));
 
     sa.sa_handler = catch_sig;
@@ -271,13 +275,6 @@ static void setup_signals() {
 }
 
 static void wait_for_signal() {
-    sigset_t mask, old_mask;
-    sigemptyset(&mask);
-    sigaddset(&mask, SIGINT);
-    sigaddset(&mask, SIGTERM);
-    sigprocmask(SIG_BLOCK, &mask, &old_mask);
     // Waiting for SIGINT / SIGTERM
-    while (!shouldQuit) sigsuspend(&old_mask);
-
-    sigprocmask(SIG_SETMASK, &old_mask, nullptr);
+    while (sem_wait(&shouldQuit) != 0) continue;
 }
diff --git a/src/mws/schemad.cpp b/src/mws/schemad.cpp
index 27afcf0..761c3f6 100644
--- a/src/mws/schemad.cpp
+++ b/src/mws/schemad.cpp
@@ -28,6 +28,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
+#include <semaphore.h>
 #include <signal.h>
 
 #include <memory>
@@ -52,7 +53,8 @@ using mws::parser::initxmlparser;
 
 #include "build-gen/config.h"
 
-static volatile sig_atomic_t shouldQuit = 0;
+// posted on SIGINT / SIGTERM, which any of the threads might receive
+static sem_t shouldQuit;
 unique_ptr<Daemon> mwsDaemon;
 
 static void catch_sig(int sig);
@@ -158,7 +160,7 @@ static void catch_sig(int sig) {
     switch (sig) {
     case SIGINT:
     case SIGTERM:
-        shouldQuit = 1;
+        sem_post(&shouldQuit);
         break;
     case SIGSEGV:
     case SIGABRT:
@@ -179,6 +181,8 @@ static void catch_sig(int sig) {
 
 static void setup_signals() {
     struct sigaction sa;
+
+    sem_init(&shouldQuit, /* pshared = */ 0, /* value = */ 0);
     memset(&sa, 0, sizeof(struct sigaction));
 
     sa.sa_handler = catch_sig;
@@ -189,13 +193,6 @@ static void setup_signals() {
 }
 
 static void wait_for_signal() {
-    sigset_t mask, old_mask;
-    sigemptyset(&mask);
-    sigaddset(&mask, SIGINT);
-    sigaddset(&mask, SIGTERM);
-    sigprocmask(SIG_BLOCK, &mask, &old_mask);
     // Waiting for SIGINT / SIGTERM
-    while (!shouldQuit) sigsuspend(&old_mask);
-
-    sigprocmask(SIG_SETMASK, &old_mask, nullptr);
+    while (sem_wait(&shouldQuit) != 0) continue;
 }
-- 
2.43.0


From 1c94a71cd24394a14d886a27bb3b6571a52c4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:45 +0000
Subject: [PATCH 73/81] fix: schemad repeated its crash handler forever

---
 src/mws/schemad.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mws/schemad.cpp b/src/mws/schemad.cpp
index 761c3f6..5214122 100644
--- a/src/mws/schemad.cpp
+++ b/src/mws/schemad.cpp
@@ -171,6 +171,9 @@ static void catch_sig(int sig) {
         struct sigaction new_sa;
         memset(&new_sa, 0, sizeof(struct sigaction));
         new_sa.sa_handler = SIG_DFL;
+        // also reset the handling for SIGSEGV, otherwise there will be an
+        // endless chain of signal handling
+        sigaction(SIGSEGV, &new_sa, nullptr);
         sigaction(SIGTERM, &new_sa, nullptr);
         sigaction(SIGABRT, &new_sa, nullptr);
         // let it crash and generate a core dump
-- 
2.43.0


From 7f91b5ff5daa640734b9a85fa75c3b1354a212a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:28 +0000
Subject: [PATCH 74/81] fix: a crash in one thread of a daemon could hang it

The handler stopped the HTTP daemon, which waits for all of its threads,
from any of them.
---
 src/mws/mwsd.cpp    | 5 ++---
 src/mws/schemad.cpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index 172db52..6fbbb55 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -243,9 +243,8 @@ static void catch_sig(int sig) {
         break;
     case SIGSEGV:
     case SIGABRT:
-        // delete mwsDaemon
-        mwsDaemon.reset();
-        PRINT_LOG("Index was unmmapped.\n");
+        // The daemon cannot be stopped here: its threads might wait for this
+        // one, or hold the locks needed
         // disable handling for SIGTERM AND SIGABRT
         struct sigaction new_sa;
         memset(&new_sa, 0, sizeof(struct sigaction));
diff --git a/src/mws/schemad.cpp b/src/mws/schemad.cpp
index 5214122..0edf0c2 100644
--- a/src/mws/schemad.cpp
+++ b/src/mws/schemad.cpp
@@ -164,9 +164,8 @@ static void catch_sig(int sig) {
         break;
     case SIGSEGV:
     case SIGABRT:
-        // delete mwsDaemon
-        mwsDaemon.reset();
-        PRINT_LOG("Schemad exited successfully.");
+        // The daemon cannot be stopped here: its threads might wait for this
+        // one, or hold the locks needed
         // disable handling for SIGTERM AND SIGABRT
         struct sigaction new_sa;
         memset(&new_sa, 0, sizeof(struct sigaction));
-- 
2.43.0


From 575e58e54607c76102b9e59916500c2bbee795e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:16 +0000
Subject: [PATCH 75/81] fix: rename identifiers of one character also when it
 takes several bytes, and only those

---
 src/mws/index/ExpressionEncoder.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 0bb8a90..a3417de 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -62,6 +62,15 @@ static const MeaningId MAX_NAMED_VARS = HVAR_ID_MAX - HVAR_ID_MIN;
 static const int MAX_ANON_VARS = ANON_HVAR_ID_MAX - ANON_HVAR_ID_MIN;
 static const int MAX_RANGES = RANGE_ID_MAX - RANGE_ID_MIN + 1;
 
+// Number of characters of an UTF-8 string
+static size_t _countChars(const string& s) {
+    size_t n = 0;
+    for (unsigned char c : s) {
+        if ((c & 0xC0) != 0x80) n++;
+    }
+    return n;
+}
+
 ExpressionEncoder::ExpressionEncoder(MeaningDictionary* dictionary)
     : _meaningDictionary(dictionary), _ciTranslationCounter(0) {}
 
@@ -154,8 +163,8 @@ MeaningId ExpressionEncoder::_getCiMeaning(const CmmlToken* token) {
 
     // check if we should not rename this ci
     if ((tokMeaning == "#P") || (tokMeaning == "#p") ||
-        // the content must have only 1 char:
-        (tokMeaning.length() > 2 + token->getTag().length()) ||
+        // the content must have exactly 1 char:
+        (_countChars(tokMeaning) != 2 + token->getTag().length()) ||
         // make sure this is not the 1st child of apply
         ((tokParent != nullptr) && (tokParent->getTag() == "apply") &&
          (tokParent->getChildNodes().front()) == token)) {
-- 
2.43.0


From 9c57edaffe7954988a8e0e8e57feea1e88dee82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:46 +0000
Subject: [PATCH 76/81] fix: files were skipped on file systems which do not
 tell the types of directory entries

---
 src/common/utils/util.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 733150c..4930d1a 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -166,7 +166,15 @@ static int getPathsInDirectory(const std::string& directoryPath,
         if (currEntry->d_name[0] == '.') {
             PRINT_LOG("Skipping \"%s\": hidden\n", fullPath.c_str());
         } else {
-            switch (currEntry->d_type) {
+            unsigned char type = currEntry->d_type;
+            struct stat status;
+            // some file systems do not tell the type of an entry
+            if (type == DT_UNKNOWN && lstat(fullPath.c_str(), &status) == 0) {
+                type = S_ISDIR(status.st_mode)
+                           ? DT_DIR
+                           : S_ISREG(status.st_mode) ? DT_REG : DT_UNKNOWN;
+            }
+            switch (type) {
             case DT_DIR:
                 directories.push_back(relativePath);
                 break;
-- 
2.43.0


From a8aa07b666246e7ad0ea7faa4cc3c2d96663e09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:46 +0000
Subject: [PATCH 77/81] fix: a harvest whose conversion was interrupted was
 taken for converted afterwards

---
 src/crawler/harvests2json.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index ab24a5d..5f793f6 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -263,25 +263,27 @@ int main(int argc, char* argv[]) {
             UNUSED(prefix);
             if (hasSuffix(path, "." + config.harvester.fileExtension)) {
                 string outputName = path + ".json";
-                FILE* output = fopen(outputName.c_str(), "wx");
+                if (access(outputName.c_str(), F_OK) == 0) {
+                    PRINT_LOG("Skipping \"%s\": already converted\n",
+                              path.c_str());
+                    return 0;
+                }
+                // it gets its name when it is complete, such that it is not
+                // taken for converted if the program is interrupted
+                string partName = outputName + ".part";
+                FILE* output = fopen(partName.c_str(), "w");
                 if (output == nullptr) {
-                    if (errno == EEXIST) {
-                        PRINT_LOG("Skipping \"%s\": already converted\n",
-                                  path.c_str());
-                        return 0;
-                    } else {
-                        PRINT_WARN("Open %s: %s\n", outputName.c_str(),
-                                   strerror(errno));
-                        result = EXIT_FAILURE;
-                        return 0;
-                    }
+                    PRINT_WARN("Open %s: %s\n", partName.c_str(),
+                               strerror(errno));
+                    result = EXIT_FAILURE;
+                    return 0;
                 }
 
                 int fd = open(path.c_str(), O_RDONLY);
                 if (fd < 0) {
                     PRINT_WARN("Open %s: %s\n", path.c_str(), strerror(errno));
                     fclose(output);
-                    unlink(outputName.c_str());
+                    unlink(partName.c_str());
                     result = EXIT_FAILURE;
                     return 0;
                 }
@@ -301,10 +303,10 @@ int main(int argc, char* argv[]) {
                     result = EXIT_FAILURE;
                 }
                 const bool failed = ferror(output) != 0;
-                if (fclose(output) != 0 || failed) {
+                if (fclose(output) != 0 || failed ||
+                    rename(partName.c_str(), outputName.c_str()) != 0) {
                     PRINT_WARN("Cannot write %s\n", outputName.c_str());
-                    // otherwise it would be skipped as already converted
-                    unlink(outputName.c_str());
+                    unlink(partName.c_str());
                     result = EXIT_FAILURE;
                     return 0;
                 }
-- 
2.43.0


From 82b5c5bd546f1ab26e9e7a0ac3b06c71fecac849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:56 +0000
Subject: [PATCH 78/81] fix: an XPath which selects a text node gave the empty
 text

---
 src/crawler/parser/XmlParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index de4a398..83f139d 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -278,6 +278,11 @@ static void replaceEntityReferences(xmlDoc* doc, xmlNode* node) {
 
 static void dumpNodeToText(const xmlNode* root, stringstream* stream,
                            MathIdDictionary* encodedMathIds) {
+    if (root->type == XML_TEXT_NODE || root->type == XML_CDATA_SECTION_NODE) {
+        *stream << " " << reinterpret_cast<char*>(root->content) << " ";
+        return;
+    }
+
     stack<const xmlNode*> nodes;
     nodes.push(root->children);
     static const char MATH_PREFIX[] = "math";
-- 
2.43.0


From 8a2d92675b994714e91f144622651e351d7027d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:56 +0000
Subject: [PATCH 79/81] fix: limits of a query above 2^31 were cut

---
 src/mws/xmlparser/readMwsQuery.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index f0036b0..578e7c7 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -33,6 +33,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 // System includes
 
+#include <limits.h>
 #include <stdarg.h>
 #include <stdio.h>                   // C Standrad Input Output
 #include <stdlib.h>                  // C general purpose library
@@ -117,6 +118,14 @@ struct MwsQuery_SaxUserData {
     }
 };
 
+/// Value of a decimal number; the closest one if it does not fit
+static inline int getIntValue(const char* str) {
+    long value = strtol(str, nullptr, 10);
+    if (value > INT_MAX) return INT_MAX;
+    if (value < INT_MIN) return INT_MIN;
+    return (int)value;
+}
+
 /**
   * @brief Callback function used to be used with an IO context parser
   *
@@ -161,12 +170,12 @@ static void my_startElement(void* user_data, const xmlChar* name,
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_MAXSIZE) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
+                    numValue = getIntValue((char*)attrs[1]);
                     data->result->attrResultMaxSize = numValue;
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_LIMITMIN) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
+                    numValue = getIntValue((char*)attrs[1]);
                     data->result->attrResultLimitMin = numValue;
                 } else if (strcmp((char*)attrs[0],
                                   MWSQUERY_ATTR_ANSWSET_TOTALREQ) ==
@@ -175,7 +184,7 @@ static void my_startElement(void* user_data, const xmlChar* name,
                     data->result->attrResultTotalReq = boolValue;
                 } else if (strcmp((char*)attrs[0], SCHQUERY_ATTR_DEPTH) ==
                            0) {
-                    numValue = (int)strtol((char*)attrs[1], nullptr, 10);
+                    numValue = getIntValue((char*)attrs[1]);
                     data->result->max_depth = numValue;
                 } else if (strcmp((char*)attrs[0], SCHQUERY_ATTR_CUTOFFMODE) ==
                            0) {
-- 
2.43.0


From ca8acb32c285aeb96ec6df119097211c7f34acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:56 +0000
Subject: [PATCH 80/81] fix: the first queries could crash mwsd when several
 arrived at once

---
 src/mws/mwsd.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index 6fbbb55..7247e67 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -179,6 +179,7 @@ int main(int argc, char* argv[]) {
     // data-path and harvest paths
     if (FlagParser::hasArg('D')) {
         try {
+            initxmlparser();
             indexConfig.dataPath = FlagParser::getArg('D');
             IndexQueryHandler::Config config;
             config.encoding = indexConfig.harvester.encoding;
-- 
2.43.0


From 955edd5cac386a80d9bcfde8a35a22ad29ac91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:21 +0000
Subject: [PATCH 81/81] fix: characters XML cannot contain left bytes behind
 which broke the harvest

---
 src/crawler/parser/XmlParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index 83f139d..b286077 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -231,7 +231,11 @@ static string replaceInvalidCharacters(const string& text) {
         int length = std::min<size_t>(text.size() - pos, 4);
         int character = xmlGetUTF8Char(
             reinterpret_cast<const unsigned char*>(&text[pos]), &length);
-        if (character >= 0 && IS_CHAR(character)) {
+        // continuation bytes on their own and overlong forms are decoded as well
+        xmlChar utf8[8];
+        if (character >= 0 && IS_CHAR(character) &&
+            xmlCopyCharMultiByte(utf8, character) == length &&
+            text.compare(pos, length, (const char*)utf8, length) == 0) {
             result.append(text, pos, length);
             pos += length;
         } else {
-- 
2.43.0

