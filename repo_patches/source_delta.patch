From 3b2b234dc3a1258288fa308c383c65fe5a14d078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 01/27] fix: purge skips wipe-locked databases instead of
 dereferencing a null visitor

---
 src/fdb5/api/local/PurgeVisitor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fdb5/api/local/PurgeVisitor.cc b/src/fdb5/api/local/PurgeVisitor.cc
index 789386c..b16988b 100644
--- a/src/fdb5/api/local/PurgeVisitor.cc
+++ b/src/fdb5/api/local/PurgeVisitor.cc
@@ -75,6 +75,12 @@ void PurgeVisitor::visitDatum(const Field& field, const std::string& keyFingerpr
 }
 
 void PurgeVisitor::catalogueComplete(const Catalogue& catalogue) {
+
+    // The DB was skipped (it is locked for wiping)
+    if (!internalVisitor_) {
+        return;
+    }
+
     internalVisitor_->catalogueComplete(catalogue);
 
     internalVisitor_->gatherAuxiliaryURIs();
-- 
2.43.0


From b5e5fd9dbfc15c23eff93fd7becad6669a000478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 02/27] fix: de-duplicated read adds each listed element, not
 the last one, to the hypercube

---
 src/fdb5/api/FDB.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/api/FDB.cc b/src/fdb5/api/FDB.cc
index d5f914d..1a478f8 100644
--- a/src/fdb5/api/FDB.cc
+++ b/src/fdb5/api/FDB.cc
@@ -242,7 +242,7 @@ eckit::DataHandle* FDB::read(ListIterator& it, bool sorted) {
             ListElementDeduplicator deduplicator;
             metkit::hypercube::HyperCubePayloaded<ListElement> cube(cubeRequest, deduplicator);
             for (const auto& elem : elements) {
-                cube.add(elem.combinedKey().request(), el);
+                cube.add(elem.combinedKey().request(), elem);
             }
 
             if (cube.countVacant() > 0) {
-- 
2.43.0


From 98ef721851c2d682e12085d850ee867352e8a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 03/27] fix: list at level 1 skips databases locked for listing

---
 src/fdb5/api/local/ListVisitor.h | 5 ++++-
 src/fdb5/toc/TocHandler.h        | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/api/local/ListVisitor.h b/src/fdb5/api/local/ListVisitor.h
index 7ad949e..b944e4f 100644
--- a/src/fdb5/api/local/ListVisitor.h
+++ b/src/fdb5/api/local/ListVisitor.h
@@ -31,6 +31,7 @@
 #include "fdb5/database/Index.h"
 #include "fdb5/database/Key.h"
 #include "fdb5/database/Store.h"
+#include "fdb5/toc/TocHandler.h"
 #include "fdb5/types/Type.h"
 
 #include "metkit/mars/MarsRequest.h"
@@ -55,7 +56,9 @@ public:
     bool preVisitDatabase(const eckit::URI& uri, const Schema& schema) override {
 
         // If level == 1, avoid constructing the Catalogue/Store objects, so just interrogate the URIs
-        if (level_ == 1 && uri.scheme() == "toc") {
+        // (unless the DB is locked for listing, which visitDatabase takes care of)
+        if (level_ == 1 && uri.scheme() == "toc" &&
+            TocHandler(uri.path(), Config()).enabled(ControlIdentifier::List)) {
             /// @todo only works with the toc backend
             if (auto dbKey = schema.matchDatabase(uri.path().baseName())) {
                 queue_.emplace(*dbKey, 0);
diff --git a/src/fdb5/toc/TocHandler.h b/src/fdb5/toc/TocHandler.h
index ebeca73..cb4f47f 100644
--- a/src/fdb5/toc/TocHandler.h
+++ b/src/fdb5/toc/TocHandler.h
@@ -152,6 +152,7 @@ public:  // methods
     std::vector<eckit::PathName> subTocPaths() const;
     // Utilities for handling locks
     std::vector<eckit::PathName> lockfilePaths() const;
+    bool enabled(const ControlIdentifier& controlIdentifier) const;
 
 protected:  // methods
 
@@ -162,8 +163,6 @@ protected:  // methods
 
     void control(const ControlAction& action, const ControlIdentifiers& identifiers) const;
 
-    bool enabled(const ControlIdentifier& controlIdentifier) const;
-
 private:  // methods
 
     eckit::LocalPathName fullControlFilePath(const std::string& name) const;
-- 
2.43.0


From 5ec7dbf00e864c1d102c27cff11b74d2b8355ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 04/27] fix: purge tolerates masked indexes whose files a wipe
 or an interrupted purge already removed

---
 src/fdb5/toc/TocPurgeVisitor.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocPurgeVisitor.cc b/src/fdb5/toc/TocPurgeVisitor.cc
index 96464cb..558010e 100644
--- a/src/fdb5/toc/TocPurgeVisitor.cc
+++ b/src/fdb5/toc/TocPurgeVisitor.cc
@@ -187,7 +187,8 @@ void TocPurgeVisitor::purge(std::ostream& out, bool porcelain, bool doit) const
     for (const auto& it : dataUsage_) {  // <std::string, size_t>
         if (it.second == 0) {
             eckit::PathName path(it.first);
-            if (path.dirName().sameAs(directory)) {
+            // n.b. masked indexes may refer to files already removed (by a partial wipe, or an interrupted purge)
+            if (path.dirName().sameAs(directory) && path.exists()) {
                 store_.remove(eckit::URI(store_.type(), path), logAlways, logVerbose, doit);
             }
         }
@@ -202,7 +203,7 @@ void TocPurgeVisitor::purge(std::ostream& out, bool porcelain, bool doit) const
     for (const auto& it : indexUsage_) {  // <std::string, size_t>
         if (it.second == 0) {
             eckit::PathName path(it.first);
-            if (path.dirName().sameAs(directory)) {
+            if (path.dirName().sameAs(directory) && path.exists()) {
                 currentCatalogue->remove(path, logAlways, logVerbose, doit);
             }
         }
-- 
2.43.0


From 4ba46f75c60a0c4b8a72d3b83c0cba5f5914df46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 05/27] fix: tables of contents can be read when caching them
 on read is switched off

---
 src/fdb5/toc/TocHandler.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 68f7695..1da4e56 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -84,8 +84,8 @@ public:  // methods
     }
 
     long read(void* buf, long len, const char** pdata = nullptr) {
-        if (pdata && !cached_) {
-            throw SeriousBug("Can only return a pointer to data in memory if cached", Here());
+        if (pdata) {
+            *pdata = nullptr;  // There is only data in memory to point to if the TOC is cached
         }
         if (cached_) {
             if (pdata) {
@@ -1330,6 +1330,7 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
         const TocRecord* datap;
         size_t dataLen;
         LocalPathName tocDirectoryName;  // May differ if using the overlay
+        std::unique_ptr<eckit::Buffer> owned;  // The record itself, if the TOC is not cached in memory
     };
     std::vector<IndexEntry> indexEntries;
 
@@ -1360,7 +1361,13 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
                 break;
 
             case TocRecord::TOC_INDEX:
-                indexEntries.emplace_back(IndexEntry{indexEntries.size(), pdata, dataLength, currentDirectory()});
+                indexEntries.emplace_back(
+                    IndexEntry{indexEntries.size(), pdata, dataLength, currentDirectory(), nullptr});
+                if (!pdata) {
+                    IndexEntry& entry = indexEntries.back();
+                    entry.owned       = std::make_unique<eckit::Buffer>(r.get(), dataLength);
+                    entry.datap       = static_cast<const TocRecord*>(entry.owned->data());
+                }
 
                 if (subTocs && subTocRead_) {
                     subTocs->insert(subTocRead_->tocPath());
@@ -1642,6 +1649,9 @@ DbStats TocHandler::stats() const {
 
 void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metadata, std::set<eckit::URI>& data) const {
 
+    openForRead();
+    TocHandlerCloser close(*this);
+
     if (!enumeratedMaskedEntries_) {
         populateMaskedEntriesList();
     }
@@ -1684,9 +1694,6 @@ void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metada
     // Get the data files referenced by the masked indexes (those in subtocs are
     // referenced internally)
 
-    openForRead();
-    TocHandlerCloser close(*this);
-
     auto r = std::make_unique<TocRecord>(
         serialisationVersion_.used());  // allocate (large) TocRecord on heap not stack (MARS-779)
 
-- 
2.43.0


From 0e0f93344a552253d98fc1057cce437db0d3b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 06/27] fix: FDB_ASYNC_WRITE did not force field data to stable
 storage on flush

---
 src/fdb5/io/LustreFileHandle.h | 3 +++
 src/fdb5/toc/TocStore.cc       | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/io/LustreFileHandle.h b/src/fdb5/io/LustreFileHandle.h
index bf61de6..c4f6517 100644
--- a/src/fdb5/io/LustreFileHandle.h
+++ b/src/fdb5/io/LustreFileHandle.h
@@ -42,6 +42,9 @@ public:  // methods
     LustreFileHandle(const std::string& path, size_t buffcount, size_t buffsize, LustreStripe stripe) :
         HANDLE(path, buffcount, buffsize), stripe_(stripe) {}
 
+    LustreFileHandle(const std::string& path, size_t buffcount, size_t buffsize, bool fsync, LustreStripe stripe) :
+        HANDLE(path, buffcount, buffsize, fsync), stripe_(stripe) {}
+
     ~LustreFileHandle() override {}
 
     void openForAppend(const eckit::Length& len) override {
diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 52d72af..d209b33 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -233,16 +233,19 @@ std::unique_ptr<eckit::DataHandle> TocStore::createAsyncHandle(const eckit::Path
     static size_t nbBuffers = eckit::Resource<unsigned long>("fdbNbAsyncBuffers", 4);
     static size_t sizeBuffer = eckit::Resource<unsigned long>("fdbSizeAsyncBuffer", 64_MiB);
 
+    // as for FDBFileHandle, flush() must force the data to stable storage before the indexes referring to it are written
+    constexpr bool fsync = true;
+
     if (stripeLustre()) {
 
         LOG_DEBUG_LIB(LibFdb5) << "Creating LustreFileHandle<AIOHandle> to " << path << " with " << nbBuffers
                                << " buffer each with " << eckit::Bytes(sizeBuffer) << std::endl;
 
-        return std::make_unique<LustreFileHandle<eckit::AIOHandle>>(path, nbBuffers, sizeBuffer,
+        return std::make_unique<LustreFileHandle<eckit::AIOHandle>>(path, nbBuffers, sizeBuffer, fsync,
                                                                     stripeDataLustreSettings());
     }
 
-    return std::make_unique<eckit::AIOHandle>(path, nbBuffers, sizeBuffer);
+    return std::make_unique<eckit::AIOHandle>(path, nbBuffers, sizeBuffer, fsync);
 }
 
 std::unique_ptr<eckit::DataHandle> TocStore::createDataHandle(const eckit::PathName& path) {
-- 
2.43.0


From a4bc522bd34dac80cf85bbce8d4313f45bd4facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:14 +0000
Subject: [PATCH 07/27] fix: readers failed on a database whose TOC has been
 created but not yet initialised

---
 src/fdb5/toc/TocHandler.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 1da4e56..32f0845 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -219,7 +219,9 @@ TocHandler::~TocHandler() {
 }
 
 bool TocHandler::exists() const {
-    return tocPath_.exists();
+    // n.b. a TOC is created empty, and only exists as a TOC once its TOC_INIT record has been written. It may be found
+    //      empty whilst (or if a process has died whilst) the database is being created.
+    return tocPath_.exists() && tocPath_.size() > eckit::Length(0);
 }
 
 void TocHandler::openForAppend() {
@@ -1305,7 +1307,7 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
 
     std::vector<Index> indexes;
 
-    if (!tocPath_.exists()) {
+    if (!exists()) {
         return indexes;
     }
 
-- 
2.43.0


From 76a0a30dc8bbf1d3e64b2f709bf7f81e41196c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:54 +0000
Subject: [PATCH 08/27] fix: an interrupted wipe could leave a database that
 can neither be wiped, read nor written

The schema and the toc were removed first. After an interruption, listing fails
(no schema), or the remaining lock files refuse all new data while no database
is left to wipe or to unlock; without the sub-tocs, masked index files become
unrecognised. Remove the sub-tocs, the toc and the schema last.
---
 src/fdb5/toc/TocCatalogue.cc | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/toc/TocCatalogue.cc b/src/fdb5/toc/TocCatalogue.cc
index 154a42a..4c40a60 100644
--- a/src/fdb5/toc/TocCatalogue.cc
+++ b/src/fdb5/toc/TocCatalogue.cc
@@ -11,8 +11,10 @@
 #include "eckit/filesystem/PathName.h"
 #include "eckit/log/Timer.h"
 
+#include <algorithm>
 #include <memory>
 #include <set>
+#include <vector>
 #include "fdb5/LibFdb5.h"
 #include "fdb5/api/helpers/WipeIterator.h"
 #include "fdb5/database/Catalogue.h"
@@ -296,15 +298,37 @@ bool TocCatalogue::doWipeURIs(const CatalogueWipeState& wipeState) const {
 
     bool wipeAll = wipeState.safeURIs().empty();  // nothing else in the directory.
 
-    for (const auto& [type, uris] : wipeState.deleteMap()) {
+    // The (sub)tocs, then the main toc and at last the schema are removed after everything else. Until then the database
+    // can still be opened and knows all of its files, so a wipe which has been interrupted can be repeated, and no lock
+    // file outlives the database it belongs to.
+    const eckit::PathName toc = tocPath().path();
+    const eckit::PathName schema = schemaPath().path();
+    std::vector<eckit::PathName> last;
+
+    auto removeIfExists = [this](const eckit::PathName& path) {
+        if (path.exists()) {
+            remove(path, eckit::Log::info(), eckit::Log::info(), true);
+        }
+    };
 
+    for (const auto& [type, uris] : wipeState.deleteMap()) {
         for (auto& uri : uris) {
-            if (uri.path().exists()) {
-                remove(uri.path(), eckit::Log::info(), eckit::Log::info(), true);
+            if (type == WipeElementType::CATALOGUE) {
+                last.push_back(uri.path());
+            }
+            else {
+                removeIfExists(uri.path());
             }
         }
     }
 
+    auto order = [&toc, &schema](const eckit::PathName& path) { return path == schema ? 2 : (path == toc ? 1 : 0); };
+    std::stable_sort(last.begin(), last.end(), [&order](const auto& a, const auto& b) { return order(a) < order(b); });
+
+    for (const auto& path : last) {
+        removeIfExists(path);
+    }
+
     // Grab the database URI from the first uri in the wipeState
     if (wipeAll && !wipeState.deleteMap().empty()) {
         cleanupEmptyDatabase_ = true;
-- 
2.43.0


From 13fd7f4e7ca94b2f6381324ac108c71d1f2983fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 09/27] fix: unmounting an overlay masks only the mounts that
 precede it, of that database

All main TOCs have the base name 'toc', which is what masks were matched against. Removing one overlay
hid all the others, a database could never be mounted again, and purge took the TOC of the database
itself for a masked file, and deleted it.
---
 src/fdb5/toc/TocHandler.cc | 57 ++++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 32f0845..fb9257d 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -12,7 +12,10 @@
 #include <pwd.h>
 #include <sys/types.h>
 #include <cstddef>
+#include <map>
+#include <string>
 #include <utility>
+#include <vector>
 
 #include "eckit/config/Resource.h"
 #include "eckit/filesystem/PathName.h"
@@ -132,6 +135,24 @@ private:  // members
 
 //----------------------------------------------------------------------------------------------------------------------
 
+namespace {
+
+/// Does this path, found in a TOC_SUB_TOC or TOC_CLEAR record, name the TOC of another (mounted) database?
+bool isOverlay(const eckit::LocalPathName& path) {
+    return path.baseName().path() == "toc";
+}
+
+/// The main TOCs of all databases have the same base name. A mounted database is masked by the name of its directory,
+/// together with the position of the (end of the) record that mounted it, such that other mounts are unaffected.
+std::pair<eckit::LocalPathName, eckit::Offset> overlayMask(const eckit::LocalPathName& path,
+                                                           const eckit::Offset& position) {
+    return {path.dirName().baseName() / path.baseName(), position};
+}
+
+}  // namespace
+
+//----------------------------------------------------------------------------------------------------------------------
+
 TocHandler::TocHandler(const eckit::PathName& directory, const Config& config) :
     TocCommon(directory),
     tocPath_(directory_ / "toc"),
@@ -645,7 +666,12 @@ void TocHandler::allMaskableEntries(Offset startOffset, Offset endOffset,
         switch (r->header_.tag_) {
             case TocRecord::TOC_SUB_TOC: {
                 s >> path;
-                maskedEntries.emplace(std::pair<PathName, Offset>(path.baseName(), 0));
+                if (isOverlay(path)) {
+                    maskedEntries.emplace(overlayMask(path, proxy.position()));
+                }
+                else {
+                    maskedEntries.emplace(std::pair<PathName, Offset>(path.baseName(), 0));
+                }
                 break;
             }
 
@@ -693,7 +719,11 @@ eckit::LocalPathName TocHandler::parseSubTocRecord(const TocRecord& r, bool read
 
     // If this subtoc has a masking entry, then skip it, and go on to the next entry.
     // Unless readMasked is true, in which case walk it if it exists.
-    std::pair<eckit::LocalPathName, size_t> key(absPath.baseName(), 0);
+    std::pair<eckit::LocalPathName, Offset> key(absPath.baseName(), 0);
+    if (isOverlay(path)) {
+        // n.b. the record has just been read
+        key = overlayMask(path, CachedFDProxy(tocPath_, fd_, cachedToc_).position());
+    }
     if (maskedEntries_.find(key) != maskedEntries_.end()) {
         if (!readMasked) {
             LOG_DEBUG_LIB(LibFdb5) << "SubToc ignored by mask: " << path << std::endl;
@@ -957,6 +987,7 @@ void TocHandler::populateMaskedEntriesList() const {
         serialisationVersion_.used());  // allocate (large) TocRecord on heap not stack (MARS-779)
 
     size_t countSubTocs = 0;
+    std::map<std::string, std::vector<Offset>> mounted;  // positions of the records mounting each other database
 
     while (readNextInternal(*r)) {
 
@@ -979,15 +1010,28 @@ void TocHandler::populateMaskedEntriesList() const {
                     // readNextInternal --> use directory_ not currentDirectory()
                     // ASSERT(path.size() > 0);
                     // eckit::PathName absPath = (path[0] == '/') ? findRealPath(path) : (directory_ / path);
-                    eckit::PathName pathName = path;
-                    maskedEntries_.emplace(std::pair<PathName, Offset>(pathName.baseName(), offset));
+                    LocalPathName pathName = path;
+                    if (isOverlay(pathName)) {  // mask the mounts that precede the unmount
+                        for (const Offset& position : mounted[overlayMask(pathName, 0).first.path()]) {
+                            maskedEntries_.emplace(overlayMask(pathName, position));
+                        }
+                    }
+                    else {
+                        maskedEntries_.emplace(std::pair<PathName, Offset>(pathName.baseName(), offset));
+                    }
                 }
                 break;
             }
 
-            case TocRecord::TOC_SUB_TOC:
+            case TocRecord::TOC_SUB_TOC: {
                 countSubTocs++;
+                LocalPathName subToc;
+                s >> subToc;
+                if (isOverlay(subToc)) {
+                    mounted[overlayMask(subToc, 0).first.path()].push_back(proxy.position());
+                }
                 break;
+            }
             case TocRecord::TOC_INIT:
                 break;
             case TocRecord::TOC_INDEX:
@@ -1661,6 +1705,9 @@ void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metada
     for (const auto& entry : maskedEntries_) {
 
         ASSERT(entry.first.path().size() > 0);
+        if (isOverlay(entry.first)) {
+            continue;  // mounted databases, masked or not, are not part of this one
+        }
         eckit::LocalPathName absPath;
         if (entry.first.path()[0] == '/') {
             absPath = entry.first;
-- 
2.43.0


From 43868d7bec09924055f0aa847d0e8fc44a813edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 10/27] fix: a mounted database that no longer exists is
 ignored

Its TOC was replaced by the file of the same name in the current directory, which is the TOC being read:
the recursion ended in a crash.
---
 src/fdb5/toc/TocHandler.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index fb9257d..afd818a 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -710,6 +710,10 @@ eckit::LocalPathName TocHandler::parseSubTocRecord(const TocRecord& r, bool read
     if (path.path()[0] == '/') {
         absPath = findRealPath(path);
         if (!absPath.exists()) {
+            if (isOverlay(path)) {  // n.b. the same base name in this directory is this TOC itself
+                Log::warning() << "Mounted database does not exist: " << path << std::endl;
+                return "";
+            }
             absPath = currentDirectory() / path.baseName();
         }
     }
-- 
2.43.0


From e296149802d03ad9e58717dff46e517e0b30eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 11/27] fix: statistics of a database failed when a database
 mounted on it has subtocs

---
 src/fdb5/toc/TocHandler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index afd818a..30deaaa 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -472,7 +472,8 @@ bool TocHandler::readNext(TocRecord& r, bool walkSubTocs, bool hideSubTocEntries
                 return true;
             }
             else {
-                ASSERT(r.header_.tag_ != TocRecord::TOC_SUB_TOC);
+                // A mounted database may have subtocs of its own
+                ASSERT(!hideSubTocEntries || r.header_.tag_ != TocRecord::TOC_SUB_TOC);
                 return true;
             }
         }
-- 
2.43.0


From fa5261f90b9dc22432cf1b9a016afdcfa25a8e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 12/27] fix: a database could not be read once another was
 mounted on it twice

---
 src/fdb5/toc/TocHandler.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 30deaaa..1849d6b 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -13,6 +13,7 @@
 #include <sys/types.h>
 #include <cstddef>
 #include <map>
+#include <set>
 #include <string>
 #include <utility>
 #include <vector>
@@ -801,6 +802,7 @@ class SubtocPreloader {
 
     mutable std::map<eckit::LocalPathName, std::unique_ptr<TocHandler>> subTocReadCache_;
     std::vector<eckit::LocalPathName> paths_;
+    std::set<eckit::LocalPathName> known_;
 
 public:
 
@@ -924,7 +926,11 @@ public:
         return std::move(subTocReadCache_);
     }
 
-    void addPath(const eckit::LocalPathName& path) { paths_.push_back(path); }
+    void addPath(const eckit::LocalPathName& path) {
+        if (known_.insert(path).second) {  // n.b. a database may be mounted more than once
+            paths_.push_back(path);
+        }
+    }
 };
 
 void TocHandler::preloadSubTocs(bool readMasked) const {
-- 
2.43.0


From 29711e243b10963bef24cf0dcddaa9fc4b7c30f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 13/27] fix: keep data and control messages in order on a
 single connection

---
 src/fdb5/remote/client/ClientConnection.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index c75e32f..876db32 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -224,6 +224,13 @@ void ClientConnection::dataWrite(Client& client, remote::Message msg, uint32_t r
         ASSERT(clients_.find(client.clientId()) != clients_.end());
     }
 
+    if (single_) {
+        // Data and control messages share one socket: a queued write could be overtaken by the control message that
+        // relies on it (e.g. a flush ahead of the fields/locations it waits for)
+        Connection::write(msg, false, client.clientId(), requestID, payloads);
+        return;
+    }
+
     {
         std::lock_guard lock(dataWriteMutex_);
         if (!dataWriteThread_.joinable()) {
@@ -403,8 +410,9 @@ void ClientConnection::listeningControlThreadLoop() {
                     // Hold promisesMutex_ only for the promise lookup/erase (NOT across handle(); risk a deadlock.
                     std::lock_guard lock(promisesMutex_);
 
+                    // On a single connection the data of a reply may come ahead of its acknowledgement
                     auto pp = promises_.find(hdr.requestID);
-                    if (pp != promises_.end()) {
+                    if (pp != promises_.end() && (hdr.control() || hdr.message == Message::Error)) {
                         if (hdr.message == Message::Error) {
                             std::string msg(hdr.payloadSize, ' ');
                             if (hdr.payloadSize != 0) {
-- 
2.43.0


From 507f5c5cde4b4888e6e8fdc117e53bf8ec8af44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 14/27] fix: a wipe that was not carried out does not stand in
 the way of the next one on the same connection

---
 src/fdb5/remote/server/CatalogueHandler.cc | 9 +++------
 src/fdb5/remote/server/StoreHandler.cc     | 2 +-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index 28cbfd8..85e427d 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -244,21 +244,18 @@ struct WipeHelper : public BaseHelper<CatalogueWipeState> {
 
         const Key& dbKey = state.dbKey();
 
+        // A previous wipe is still in progress if the client had nothing to delete, or gave it up (unclean database)
+        handler.wipesInProgress_.erase(dbKey);
+
         if (doit_) {
             // Keep a local copy of the catalogue wipe state, awaiting an explicit doWipeURIs command from the client
 
-            // Expect this dbKey not to already be in progress
-            ASSERT(handler.wipesInProgress_.find(dbKey) == handler.wipesInProgress_.end());
-
             handler.wipesInProgress_.emplace(
                 dbKey, CatalogueHandler::WipeInProgress{unsafeWipeAll_,
                                                         CatalogueReaderFactory::instance().build(dbKey, state.config()),
                                                         CatalogueWipeState(dbKey, state.safeURIs(), state.deleteMap(),
                                                                            state.indexesToMask(), state.config())});
         }
-        else {
-            handler.wipesInProgress_.erase(dbKey);
-        }
         return {s.position(), std::move(encodeBuffer)};
     }
 
diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index a616a8a..65e108c 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -476,7 +476,7 @@ void StoreHandler::finaliseWipeState(const uint32_t clientID, const uint32_t req
     // keep state for doWipeURIs
     if (doit) {
         ASSERT(!unsafeAll);  // Until Im explicitly told otherwise, we dont support unsafeAll on remote fdb.
-        wipesInProgress_.emplace(dbkey, WipeInProgress{unsafeAll, std::move(storeState)});
+        wipesInProgress_.insert_or_assign(dbkey, WipeInProgress{unsafeAll, std::move(storeState)});
     }
 }
 
-- 
2.43.0


From 7f96c3cacfcd636f34c488f2595382a066c053a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 15/27] fix: the text of an error sent by a server reaches the
 client

---
 src/fdb5/api/RemoteFDB.cc                  | 3 ++-
 src/fdb5/remote/client/ClientConnection.cc | 7 ++++---
 src/fdb5/remote/client/RemoteStore.cc      | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index b659412..76d2a0e 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -28,6 +28,7 @@
 #include "eckit/utils/Literals.h"
 
 #include <cstdint>
+#include <cstring>
 #include <exception>
 #include <memory>
 #include <mutex>
@@ -406,7 +407,7 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
             }
             std::string msg;
             msg.resize(payload.size(), ' ');
-            payload.copy(&msg[0], payload.size());
+            ::memcpy(msg.data(), payload.data(), payload.size());
             queue->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
             return true;
         }
diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index 876db32..3f865d1 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -25,6 +25,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <exception>
 #include <future>
 #include <iostream>
@@ -416,7 +417,7 @@ void ClientConnection::listeningControlThreadLoop() {
                         if (hdr.message == Message::Error) {
                             std::string msg(hdr.payloadSize, ' ');
                             if (hdr.payloadSize != 0) {
-                                payload.copy(msg.data(), payload.size());
+                                ::memcpy(msg.data(), payload.data(), payload.size());
                             }
                             pp->second.set_exception(
                                 std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint_)));
@@ -465,7 +466,7 @@ void ClientConnection::listeningControlThreadLoop() {
                         if (hdr.payloadSize) {
                             std::string msg;
                             msg.resize(payload.size(), ' ');
-                            payload.copy(msg.data(), payload.size());
+                            ::memcpy(msg.data(), payload.data(), payload.size());
                             ss << ": " << msg;
                         }
                         throw RemoteFDBException(ss.str(), controlEndpoint_);
@@ -550,7 +551,7 @@ void ClientConnection::listeningDataThreadLoop() {
                         if (hdr.payloadSize) {
                             std::string msg;
                             msg.resize(payload.size(), ' ');
-                            payload.copy(msg.data(), payload.size());
+                            ::memcpy(msg.data(), payload.data(), payload.size());
                             ss << ": " << msg;
                         }
                         throw RemoteFDBException(ss.str(), dataEndpoint_);
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 5308eeb..c2de7d0 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -436,7 +436,7 @@ bool RemoteStore::handle(Message message, uint32_t requestID, eckit::Buffer&& pa
             if (iter != messageQueues_.end()) {
                 std::string msg;
                 msg.resize(payload.size(), ' ');
-                payload.copy(&msg[0], payload.size());
+                ::memcpy(msg.data(), payload.data(), payload.size());
                 iter->second->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
 
                 // Remove entry (shared_ptr --> message queue will be destroyed when it
-- 
2.43.0


From bdedecf32c228dc1533ff3b2ec8140072edf26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 16/27] fix: a wipe leaves out the remote stores that have
 nothing to delete

---
 src/fdb5/remote/client/RemoteStore.cc | 12 ++++++++++++
 src/fdb5/remote/client/RemoteStore.h  |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index c2de7d0..da85231 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -525,6 +525,8 @@ void RemoteStore::finaliseWipeState(StoreWipeState& storeState, bool doit, bool
 
     auto recvBuf = controlWriteReadResponse(Message::Wipe, generateRequestID(), sendBuf, stream.position());
 
+    wipeInProgress_ = doit;
+
     // Receieve auxiliary and unknown URIs back from server
     eckit::MemoryStream rstream(recvBuf);
     std::set<eckit::URI> auxURIs;
@@ -557,6 +559,9 @@ bool RemoteStore::doWipeUnknowns(const std::set<eckit::URI>& unknownURIs) const
 }
 
 bool RemoteStore::doWipeURIs(const StoreWipeState& wipeState) const {
+    if (!wipeInProgress_) {
+        return true;
+    }
     eckit::Buffer sendBuf(256);
     eckit::ResizableMemoryStream s(sendBuf);
     s << dbKey_;
@@ -564,6 +569,9 @@ bool RemoteStore::doWipeURIs(const StoreWipeState& wipeState) const {
     return true;
 }
 void RemoteStore::doWipeEmptyDatabase() const {
+    if (!wipeInProgress_) {
+        return;
+    }
     // emptyDatabases_ will be accumulated on the server side.
     eckit::Buffer sendBuf(256);
     eckit::ResizableMemoryStream s(sendBuf);
@@ -575,6 +583,10 @@ bool RemoteStore::doUnsafeFullWipe() const {
 
     bool result = false;
 
+    if (!wipeInProgress_) {
+        return result;
+    }
+
     // send dbkey to remote
     eckit::Buffer keyBuffer(RemoteStore::defaultBufferSizeKey);
     eckit::MemoryStream keyStream(keyBuffer);
diff --git a/src/fdb5/remote/client/RemoteStore.h b/src/fdb5/remote/client/RemoteStore.h
index 44369bc..c8a3d56 100644
--- a/src/fdb5/remote/client/RemoteStore.h
+++ b/src/fdb5/remote/client/RemoteStore.h
@@ -218,6 +218,9 @@ private:  // members
     std::mutex messageMutex_;
 
     Locations locations_;
+
+    // Has the server been told about the wipe? It is not, when there is nothing to delete in this store
+    bool wipeInProgress_{false};
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From e93fd33b86cf36dd2cce510bba5db10c97d4a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 17/27] fix: wipes in progress on a catalogue server are shared
 between threads under a lock

---
 src/fdb5/remote/server/CatalogueHandler.cc | 10 +++++++++-
 src/fdb5/remote/server/CatalogueHandler.h  |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index 85e427d..37946bf 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -244,6 +244,8 @@ struct WipeHelper : public BaseHelper<CatalogueWipeState> {
 
         const Key& dbKey = state.dbKey();
 
+        std::lock_guard<std::mutex> lock(handler.wipesMutex_);
+
         // A previous wipe is still in progress if the client had nothing to delete, or gave it up (unclean database)
         handler.wipesInProgress_.erase(dbKey);
 
@@ -587,6 +589,7 @@ CatalogueWriter& CatalogueHandler::catalogue(uint32_t id, const Key& dbKey) {
 }
 
 const CatalogueHandler::WipeInProgress& CatalogueHandler::cachedWipeState(Key dbKey) const {
+    std::lock_guard<std::mutex> lock(wipesMutex_);
     auto it = wipesInProgress_.find(dbKey);
     ASSERT(it != wipesInProgress_.end());
     return it->second;
@@ -646,6 +649,8 @@ void CatalogueHandler::doWipeEmptyDatabase(uint32_t clientID, uint32_t requestID
 
     // Cleanup empty DBs and reset wipe state
     currentWipe.catalogue->doWipeEmptyDatabase();
+
+    std::lock_guard<std::mutex> lock(wipesMutex_);
     wipesInProgress_.erase(dbKey);
 }
 
@@ -661,7 +666,10 @@ void CatalogueHandler::doUnsafeFullWipe(uint32_t clientID, uint32_t requestID, e
     eckit::MemoryStream stream(boolBuf);
     stream << fullWipeSupported;
 
-    wipesInProgress_.erase(dbKey);
+    {
+        std::lock_guard<std::mutex> lock(wipesMutex_);
+        wipesInProgress_.erase(dbKey);
+    }
 
     write(Message::Received, true, clientID, requestID, boolBuf.data(), stream.position());
 }
diff --git a/src/fdb5/remote/server/CatalogueHandler.h b/src/fdb5/remote/server/CatalogueHandler.h
index 6fa7083..a6df664 100644
--- a/src/fdb5/remote/server/CatalogueHandler.h
+++ b/src/fdb5/remote/server/CatalogueHandler.h
@@ -107,7 +107,9 @@ private:  // member
         CatalogueWipeState state;
     };
 
+    // n.b. filled by the worker threads, used by the control thread
     std::map<Key, WipeInProgress> wipesInProgress_;
+    mutable std::mutex wipesMutex_;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 7f68cd0989eafec8f2d77676c794f3c2e8abc2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 18/27] fix: purge masked an index through which data outside
 the database was accessible

---
 src/fdb5/toc/TocStats.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fdb5/toc/TocStats.cc b/src/fdb5/toc/TocStats.cc
index 1a88fdb..957c98d 100644
--- a/src/fdb5/toc/TocStats.cc
+++ b/src/fdb5/toc/TocStats.cc
@@ -226,6 +226,14 @@ void TocStatsReportVisitor::visitDatum(const Field& field, const std::string& fi
             return;
         }
         if (!field.location().uri().path().dirName().sameAs(cat->basePath())) {
+            // n.b. the index remains in use: it is what makes this field accessible
+            auto it = indexStats_.find(*currentIndex_);
+            if (it == indexStats_.end()) {
+                it = indexStats_.insert(std::make_pair(*currentIndex_, IndexStats(new TocIndexStats()))).first;
+            }
+            it->second.addFieldsCount(1);
+            it->second.addFieldsSize(field.location().length());
+            indexUsage_[currentIndex_->location().uri().path()]++;
             return;
         }
     }
-- 
2.43.0


From 689b27a0a456dce08aa374aa0aaa85696a1cc5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 19/27] fix: a schema rule excluding a single value matched
 only that value

---
 src/fdb5/rules/SchemaParser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fdb5/rules/SchemaParser.cc b/src/fdb5/rules/SchemaParser.cc
index ae71d71..5f72fa8 100644
--- a/src/fdb5/rules/SchemaParser.cc
+++ b/src/fdb5/rules/SchemaParser.cc
@@ -116,6 +116,9 @@ std::unique_ptr<Predicate> SchemaParser::parsePredicate(eckit::StringDict& types
         case 0:
             return std::make_unique<Predicate>(k, new MatchAlways());
         case 1:
+            if (exclude) {
+                return std::make_unique<Predicate>(k, new ExcludeAll(values));
+            }
             return std::make_unique<Predicate>(k, new MatchValue(*values.begin()));
         default:
             if (exclude) {
-- 
2.43.0


From f20e347d108cb9113a170f9a7269890c849a4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 20/27] fix: dates in other forms than yyyymmdd were archived
 as they were, and could not be retrieved

---
 src/fdb5/types/TypeDate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/types/TypeDate.cc b/src/fdb5/types/TypeDate.cc
index c909f49..81041ba 100644
--- a/src/fdb5/types/TypeDate.cc
+++ b/src/fdb5/types/TypeDate.cc
@@ -36,7 +36,7 @@ std::string TypeDate::tidy(const std::string& value) const {
             return t(now.yyyymmdd());
         }
     }
-    return value;
+    return value.empty() ? value : eckit::Translator<long, std::string>()(eckit::Date(value).yyyymmdd());
 }
 
 void TypeDate::getValues(const metkit::mars::MarsRequest& request, const std::string& keyword,
-- 
2.43.0


From 406fe8ea10adf2aa0086361a59bf76090e1a422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 21/27] fix: integers with signs or leading zeros were archived
 as they were, and could not be retrieved

---
 src/fdb5/types/TypeInteger.cc | 9 +++++++++
 src/fdb5/types/TypeInteger.h  | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/fdb5/types/TypeInteger.cc b/src/fdb5/types/TypeInteger.cc
index 08b5f08..d4bf85f 100644
--- a/src/fdb5/types/TypeInteger.cc
+++ b/src/fdb5/types/TypeInteger.cc
@@ -8,6 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
+#include "eckit/exception/Exceptions.h"
 #include "eckit/utils/Translator.h"
 
 #include "metkit/mars/MarsRequest.h"
@@ -23,6 +24,14 @@ TypeInteger::TypeInteger(const std::string& name, const std::string& type) : Typ
 
 TypeInteger::~TypeInteger() {}
 
+std::string TypeInteger::toKey(const std::string& value) const {
+    const auto digits = value.find_first_not_of("+-") == 1 ? 1 : 0;
+    if (value.empty() || value.find_first_not_of("0123456789", digits) != std::string::npos) {
+        throw eckit::UserError("Keyword '" + name_ + "': not an integer: '" + value + "'", Here());
+    }
+    return eckit::Translator<long, std::string>()(std::stol(value));
+}
+
 void TypeInteger::getValues(const metkit::mars::MarsRequest& request, const std::string& keyword,
                             eckit::StringList& values, const CatalogueReader*) const {
     std::vector<long> intValues;
diff --git a/src/fdb5/types/TypeInteger.h b/src/fdb5/types/TypeInteger.h
index 271533e..fe9e80c 100644
--- a/src/fdb5/types/TypeInteger.h
+++ b/src/fdb5/types/TypeInteger.h
@@ -30,6 +30,8 @@ public:  // methods
 
     ~TypeInteger() override;
 
+    std::string toKey(const std::string& value) const override;
+
     void getValues(const metkit::mars::MarsRequest& request, const std::string& keyword, eckit::StringList& values,
                    const CatalogueReader* cat) const override;
 
-- 
2.43.0


From e34b72613178b9c80b71632d289113d2e5bc4c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 22/27] fix: listings left out fields whose keys have the same
 values for different optional keywords

---
 src/fdb5/api/helpers/ListIterator.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/api/helpers/ListIterator.cc b/src/fdb5/api/helpers/ListIterator.cc
index fb23465..e880197 100644
--- a/src/fdb5/api/helpers/ListIterator.cc
+++ b/src/fdb5/api/helpers/ListIterator.cc
@@ -110,9 +110,13 @@ std::pair<size_t, eckit::Length> ListIterator::dumpCompact(std::ostream& out) {
 //----------------------------------------------------------------------------------------------------------------------
 
 bool KeyStore::tryInsert(const std::array<Key, 3>& keyParts) {
+    // The same values of different (optional) keywords are different keys. The keywords hardly change, so are kept with
+    // the levels above.
+
     // Level 1 and 2, may or may not exist. But it doesn't matter for the insert
-    auto& level1 = fingerprints_[keyParts[0].valuesToString()];
-    auto& level2 = level1[keyParts[1].valuesToString()];
+    auto& level1 = fingerprints_[keySignature(keyParts[0]) + "=" + keyParts[0].valuesToString()];
+    auto& level2 = level1[keySignature(keyParts[1]) + "=" + keyParts[1].valuesToString() + "," +
+                          keySignature(keyParts[2])];
 
     // And then for the third level, we try and insert. And if it does not
     // already exist, that is great!
-- 
2.43.0


From e88c513f20a8184cb618ef063b55c6fd0f19d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 23/27] fix: purge took fields of different index rules with
 equal values for duplicates

---
 src/fdb5/toc/TocStats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocStats.cc b/src/fdb5/toc/TocStats.cc
index 957c98d..2b6dc6e 100644
--- a/src/fdb5/toc/TocStats.cc
+++ b/src/fdb5/toc/TocStats.cc
@@ -284,7 +284,7 @@ void TocStatsReportVisitor::visitDatum(const Field& field, const std::string& fi
         lastIndexPath_ = indexPath;
     }
 
-    std::string unique = currentIndex_->key().valuesToString() + "+" + fieldFingerprint;
+    std::string unique = std::string(currentIndex_->key()) + "+" + fieldFingerprint;
 
     if (active_.insert(unique).second) {
         indexUsage_[indexPath]++;
-- 
2.43.0


From b211c369854c895394774fefe78db12863db9f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 24/27] fix: keys without optional keywords were not archived
 when they had fewer keywords than a rule

---
 src/fdb5/rules/Rule.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 43cffe5..996468e 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -186,7 +186,7 @@ size_t Rule::size() const {
 
 std::optional<Key> Rule::findMatchingKey(const Key& field) const {
 
-    if (field.size() < predicates_.size()) {
+    if (field.size() < requiredPredicateCount(predicates_)) {
         return {};
     }
 
-- 
2.43.0


From be62efc69e17bdd33a8258516d0dc04261fca5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 25/27] fix: a keyword missing from a rule whose values do not
 match kept the next rules from being tried

---
 src/fdb5/rules/Rule.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 996468e..b51f047 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -190,18 +190,16 @@ std::optional<Key> Rule::findMatchingKey(const Key& field) const {
         return {};
     }
 
+    /// @note a keyword that is missing only matters once all the predicates match
+    if (!match(field)) {
+        return {};
+    }
+
     TypedKey key(registry_);
 
     for (const auto& pred : predicates_) {
-
         /// @note the key is constructed from the predicate
-        if (!pred->match(field)) {
-            return {};
-        }
-
-        const auto& keyword = pred->keyword();
-
-        key.push(keyword, pred->value(field));
+        key.push(pred->keyword(), pred->value(field));
     }
 
     return key.canonical();
-- 
2.43.0


From b4a35556c20b0351bc49174194ff415d2c5cc427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 26/27] fix: fields with metadata refused as not canonical were
 archived nevertheless

---
 src/fdb5/database/Archiver.cc | 2 --
 src/fdb5/rules/Rule.cc        | 3 +++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/database/Archiver.cc b/src/fdb5/database/Archiver.cc
index 47051c8..077b23b 100644
--- a/src/fdb5/database/Archiver.cc
+++ b/src/fdb5/database/Archiver.cc
@@ -55,8 +55,6 @@ void Archiver::archive(const Key& key, BaseArchiveVisitor& visitor) {
         oss << "FDB: Could not find a rule to archive " << key;
         throw eckit::SeriousBug(oss.str());
     }
-    // validate metadata
-    rule->check(key);
 }
 
 void Archiver::flushDatabase(Database& db) {
diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index b51f047..1e1b8a7 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -552,6 +552,9 @@ bool RuleDatum::expand(const Key& field, WriteVisitor& visitor, Key& full) const
 
     if (const auto key = findMatchingKey(field)) {
 
+        // validate metadata
+        check(field);
+
         full.pushFrom(*key);
 
         if (visitor.rule()) {
-- 
2.43.0


From a58da76e9e4d95a65e85457dab7d76f35fb55b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 27/27] fix: fields were listed with the keywords of another
 rule that matches their index

---
 src/fdb5/rules/Rule.cc   | 17 +++++++++++++++++
 src/fdb5/rules/Rule.h    |  3 +++
 src/fdb5/rules/Schema.cc | 14 +++++++++++++-
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 1e1b8a7..c86d7cc 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -377,6 +377,23 @@ bool Rule::match(const Key& key) const {
     return true;
 }
 
+bool Rule::hasKeywordsOf(const Key& key) const {
+    std::set<std::string> keywords;
+    for (const auto& pred : predicates_) {
+        const auto& keyword = registry_.lookupType(pred->keyword()).alias();
+        if (!pred->optional() && !key.find(keyword).second) {
+            return false;
+        }
+        keywords.insert(keyword);
+    }
+    for (const auto& keyword : key.names()) {
+        if (keywords.find(keyword) == keywords.end()) {
+            return false;
+        }
+    }
+    return true;
+}
+
 bool Rule::tryFill(Key& key, const eckit::StringList& values) const {
     // See FDB-103. This is a hack to work around the indexing abstraction
     // being leaky.
diff --git a/src/fdb5/rules/Rule.h b/src/fdb5/rules/Rule.h
index 9fcb6e8..62471d2 100644
--- a/src/fdb5/rules/Rule.h
+++ b/src/fdb5/rules/Rule.h
@@ -63,6 +63,9 @@ public:  // methods
 
     bool match(const Key& key) const;
 
+    /// Whether the key has the keywords of this rule: all the mandatory ones, and no others
+    bool hasKeywordsOf(const Key& key) const;
+
     void check(const Key& key) const;
 
     void dump(std::ostream& out) const;
diff --git a/src/fdb5/rules/Schema.cc b/src/fdb5/rules/Schema.cc
index d24d2c9..69c235b 100644
--- a/src/fdb5/rules/Schema.cc
+++ b/src/fdb5/rules/Schema.cc
@@ -89,6 +89,9 @@ Schema::~Schema() {
 
 const RuleDatum& Schema::matchingRule(const Key& dbKey, const Key& idxKey) const {
 
+    // several rules may match the values: the one that has the keywords of the index is the one it was made by
+    const RuleDatum* first = nullptr;
+
     for (const auto& dbRule : rules_) {
         if (!dbRule->match(dbKey)) {
             continue;
@@ -97,10 +100,19 @@ const RuleDatum& Schema::matchingRule(const Key& dbKey, const Key& idxKey) const
             if (!idxRule->match(idxKey)) {
                 continue;
             }
-            return idxRule->rule();
+            if (idxRule->hasKeywordsOf(idxKey)) {
+                return idxRule->rule();
+            }
+            if (!first) {
+                first = &idxRule->rule();
+            }
         }
     }
 
+    if (first) {
+        return *first;
+    }
+
     std::ostringstream msg;
     msg << "No rule is matching dbKey=" << dbKey << " and idxKey=" << idxKey;
     throw eckit::SeriousBug(msg.str(), Here());
-- 
2.43.0

