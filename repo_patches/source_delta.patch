From 39ec425776750bb0f06dc5afcec54ee2c1dd6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 01/77] fix: PersistentElementStore takes offset, order and
 count from the end of its files

A cancelled search or a text search leaves the stream positions in the middle
of the files: the next store then wrote a wrong offset and a wrong order, and
the next search saw only a part of the elements.
---
 core/src/index/PersistentElementStore.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index d3f659c..2214b6c 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -116,17 +116,18 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
 
   void store(const Element &element, const QuadKey &quadKey) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    // NOTE searches leave the positions anywhere in the files
+    quadKeyData->dataFile->seekg(0, std::ios::end);
+    quadKeyData->indexFile->seekg(0, std::ios::end);
     auto offset = static_cast<std::uint32_t>(quadKeyData->dataFile->tellg());
     auto fileSize = quadKeyData->indexFile->tellg();
     auto order = static_cast<std::uint32_t>(fileSize / (sizeof(element.id) + sizeof(offset)));
 
     // write element index
-    quadKeyData->indexFile->seekg(0, std::ios::end);
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&offset), sizeof(offset));
 
     // write element data
-    quadKeyData->dataFile->seekg(0, std::ios::end);
     ElementStream::write(*quadKeyData->dataFile, element);
 
     // write element search data
@@ -149,6 +150,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    quadKeyData->indexFile->seekg(0, std::ios::end);
     auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
         (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
 
-- 
2.43.0


From 3e7f3b70152741124db6bd6b93233db2d7dfe70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 02/77] fix: PersistentElementStore does not create files when
 an empty quad key is searched

The quad key was reported as having data afterwards.
---
 core/src/index/PersistentElementStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 2214b6c..b32935e 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -149,6 +149,9 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void search(const QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
+    // NOTE do not create files for quad key which was never stored
+    if (!hasData(quadKey)) return;
+
     const auto &quadKeyData = getQuadKeyData(quadKey);
     quadKeyData->indexFile->seekg(0, std::ios::end);
     auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
-- 
2.43.0


From 38b985996af1a964e93bf9577404d114f848abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:26 +0000
Subject: [PATCH 03/77] fix: text search keeps 'or' terms mandatory in tiles
 where none of them occurs

With 'and' terms given too, such tiles answered with everything the 'and' terms
match, while the other tiles required one of the 'or' terms.
---
 core/src/index/BitmapIndex.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/index/BitmapIndex.cpp b/core/src/index/BitmapIndex.cpp
index c453d4b..6b06be3 100644
--- a/core/src/index/BitmapIndex.cpp
+++ b/core/src/index/BitmapIndex.cpp
@@ -49,13 +49,16 @@ void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visito
 
         auto& bitmap = getBitmap(quadKey);
         Bitset bitset;
+        // nothing is selected yet: "and" has to narrow result of "or" even if it is empty
+        bool isEmptyQuery = orTerms.empty();
 
         applyOperation(orTerms, bitmap, [&](const Bitset &b) {
           bitset = b.logicalor(bitset);
         }, [](){ return true; });
 
         applyOperation(andTerms, bitmap, [&](const Bitset &b) {
-          if (bitset.sizeInBits() == 0) {
+          if (isEmptyQuery) {
+            isEmptyQuery = false;
             bitset = b;
             return;
           }
-- 
2.43.0


From 498f88bc8791a4b7cc32f9365cf4579b2645fb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:19 +0000
Subject: [PATCH 04/77] fix: restore bitmaps read from disk so that more bits
 can be set

EWAHBoolArray::read left the position of the last marker word untouched: the
next set corrupted the bitmap. An empty file was read as one bitmap with an
uninitialized key.
---
 core/lib/ewah/ewah.h            |  7 +++++++
 core/src/index/BitmapStream.cpp | 11 +++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/lib/ewah/ewah.h b/core/lib/ewah/ewah.h
index 6b3d987..f092ba0 100644
--- a/core/lib/ewah/ewah.h
+++ b/core/lib/ewah/ewah.h
@@ -1129,6 +1129,13 @@ void EWAHBoolArray<uword>::read(std::istream &in, const bool savesizeinbits) {
   if (buffersize > 0)
     in.read(reinterpret_cast<char *>(&buffer[0]),
             static_cast<std::streamsize>(sizeof(uword) * buffersize));
+  // restore position of the last marker word: it is not a part of the stream
+  lastRLW = 0;
+  for (size_t pointer = 0; pointer < buffer.size();
+       pointer += static_cast<size_t>(
+           RunningLengthWord<uword>::getNumberOfLiteralWords(buffer[pointer]) +
+           1))
+    lastRLW = pointer;
 }
 
 template <class uword>
diff --git a/core/src/index/BitmapStream.cpp b/core/src/index/BitmapStream.cpp
index a88714a..6988f49 100644
--- a/core/src/index/BitmapStream.cpp
+++ b/core/src/index/BitmapStream.cpp
@@ -4,14 +4,13 @@ using namespace utymap::index;
 
 void BitmapStream::read(std::istream &in, BitmapIndex::Bitmap &bitmap) {
   std::uint32_t key;
-  BitmapIndex::Bitset bitset;
   in.seekg(0, std::ios::beg);
-  do
-  {
-    in.read(reinterpret_cast<char *>(&key), sizeof(key));
+  while (in.read(reinterpret_cast<char *>(&key), sizeof(key))) {
+    BitmapIndex::Bitset bitset;
     bitset.read(in);
-    bitmap.emplace(key, bitset);
-  } while (in);
+    if (in)
+      bitmap.emplace(key, bitset);
+  }
 }
 
 void BitmapStream::write(std::ostream &out, const BitmapIndex::Bitmap &bitmap) {
-- 
2.43.0


From 2e3f79da884572f0dc01ffaba995f1ff28ef3d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:16 +0000
Subject: [PATCH 05/77] fix: clip ways which cross a tile without having a
 vertex inside it

Such ways vanished from the tile: checking whether all of the vertices are
outside is not enough, areas were handled properly already.
---
 core/src/index/ElementGeometryClipper.cpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/core/src/index/ElementGeometryClipper.cpp b/core/src/index/ElementGeometryClipper.cpp
index 1668028..538dad7 100644
--- a/core/src/index/ElementGeometryClipper.cpp
+++ b/core/src/index/ElementGeometryClipper.cpp
@@ -19,26 +19,14 @@ const double Scale = 1E7;
 
 using PointLocation = utymap::index::ElementGeometryClipper::PointLocation;
 
-template<typename T, typename std::enable_if<std::is_same<T, Way>::value, std::size_t>::type = 0>
-bool areConnected(const BoundingBox &, const BoundingBox &, bool allOutside) {
-  return !allOutside;
-}
-
-template<typename T, typename std::enable_if<std::is_same<T, Area>::value, std::size_t>::type = 0>
-bool areConnected(const BoundingBox &quadKeyBbox, const BoundingBox &elementBbox, bool allOutside) {
-  return quadKeyBbox.intersects(elementBbox);
-}
-
 template<typename T>
 PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, IntPath &elementShape) {
   elementShape.reserve(element.coordinates.size());
   bool allInside = true;
-  bool allOutside = true;
   BoundingBox elementBbox;
   for (const GeoCoordinate &coord : element.coordinates) {
     bool contains = quadKeyBbox.contains(coord);
     allInside &= contains;
-    allOutside &= !contains;
     elementBbox.expand(coord);
 
     auto x = static_cast<cInt>(coord.longitude*Scale);
@@ -47,7 +35,7 @@ PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, Int
   }
 
   return allInside ? PointLocation::AllInside :
-         (areConnected<T>(quadKeyBbox, elementBbox, allOutside) ? PointLocation::Mixed : PointLocation::AllOutside);
+         (quadKeyBbox.intersects(elementBbox) ? PointLocation::Mixed : PointLocation::AllOutside);
 }
 
 template<typename T>
-- 
2.43.0


From 7dd324678a1bec9d82e386c28622231ed0d4450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 06/77] fix: adding data to an unknown store is reported
 instead of crashing

---
 core/src/index/GeoStore.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/src/index/GeoStore.cpp b/core/src/index/GeoStore.cpp
index 382be60..c3ed531 100644
--- a/core/src/index/GeoStore.cpp
+++ b/core/src/index/GeoStore.cpp
@@ -31,7 +31,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     elementStore->store(element, range, styleProvider);
   }
 
@@ -40,7 +40,7 @@ class GeoStore::GeoStoreImpl final {
            const QuadKey &quadKey,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     add(path, cancelToken, [&](Element &element) {
       return elementStore->store(element, quadKey, styleProvider);
     });
@@ -54,7 +54,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     auto bbox = add(path, cancelToken, [&](Element &element) {
       return elementStore->store(element, range, styleProvider);
     });
@@ -69,7 +69,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     add(path, cancelToken, [&](Element &element) {
       return elementStore->store(element, bbox, range, styleProvider);
     });
@@ -150,6 +150,14 @@ class GeoStore::GeoStoreImpl final {
   const StringTable &stringTable_;
   std::map<std::string, std::unique_ptr<ElementStore>> storeMap_;
 
+  /// Gets registered store: unknown key should not create an empty entry.
+  const std::unique_ptr<ElementStore> &getStore(const std::string &storeKey) const {
+    auto store = storeMap_.find(storeKey);
+    if (store == storeMap_.end())
+      throw std::domain_error("Unknown store: " + storeKey);
+    return store->second;
+  }
+
   static FormatType getFormatTypeFromPath(const std::string &path) {
     if (utymap::utils::endsWith(path, "pbf"))
       return FormatType::Pbf;
-- 
2.43.0


From 6fde306705e9cb6c9cc6608cff4866228485709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 07/77] fix: string table does not remember an empty string for
 an id which is not used yet

---
 core/src/index/StringTable.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index b73e003..bcd5344 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -78,6 +78,9 @@ class StringTable::StringTableImpl {
 
     std::string str;
     readString(id, str);
+    // NOTE id which is not used yet should not be cached
+    if (id >= offsets_.size())
+      return std::make_shared<std::string>(std::move(str));
     cache_.put(id, std::move(str));
 
     return cache_.get(id);
-- 
2.43.0


From 06d431d83546ee924917825080270a470fdd2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 08/77] fix: StyleProvider::forCanvas does not change filters
 shared between threads

---
 core/src/mapcss/StyleProvider.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 940ea2f..3ff4a5d 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -418,9 +418,13 @@ Style StyleProvider::forElement(const Element &element, int levelOfDetails) cons
 
 Style StyleProvider::forCanvas(int levelOfDetails) const {
   Style style({}, pimpl_->stringTable);
-  for (const auto &filter : pimpl_->filters.canvases[levelOfDetails]) {
-    for (const auto &declaration : filter.declarations) {
-      style.put(*declaration);
+  // NOTE the filters are shared between threads and must not be changed here.
+  auto filters = pimpl_->filters.canvases.find(levelOfDetails);
+  if (filters!=pimpl_->filters.canvases.end()) {
+    for (const auto &filter : filters->second) {
+      for (const auto &declaration : filter.declarations) {
+        style.put(*declaration);
+      }
     }
   }
   return std::move(style);
-- 
2.43.0


From cbef16066a9f6558191ebf50e95e9812edbe7d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 09/77] fix: StyleProvider looks gradients up under its lock

---
 core/src/mapcss/StyleProvider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 3ff4a5d..6bb680c 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -285,12 +285,12 @@ class StyleProvider::StyleProviderImpl {
   }
 
   const ColorGradient &getGradient(const std::string &key) {
+    std::lock_guard<std::mutex> lock(lock_);
     auto gradientPair = gradients.find(key);
     if (gradientPair==gradients.end()) {
       auto gradient = utymap::utils::GradientUtils::parseGradient(key);
       if (gradient->empty())
         throw MapCssException("Invalid gradient: " + key);
-      std::lock_guard<std::mutex> lock(lock_);
       gradients.emplace(key, std::move(gradient));
       gradientPair = gradients.find(key);
     }
-- 
2.43.0


From c5d4b9501d1fbd2cbc13c7c9409b53be5fe60523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 10/77] fix: later element id rules add to earlier ones as
 rules of other selectors do

---
 core/src/mapcss/StyleProvider.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 6bb680c..1713a34 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -324,8 +324,10 @@ class StyleProvider::StyleProviderImpl {
     });
 
     for (int i = selector.zoom.start; i <= selector.zoom.end; ++i) {
-      for (const auto &filterPair : filter)
-        filters.elements[i].emplace(filterPair);
+      for (const auto &filterPair : filter) {
+        auto &merged = filters.elements[i][filterPair.first];
+        merged.insert(merged.end(), filterPair.second.begin(), filterPair.second.end());
+      }
     }
   }
 
-- 
2.43.0


From 40a69eef84525f870af40c08cf47dd8e80b45dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:51 +0000
Subject: [PATCH 11/77] fix: tags of style providers tell all different sets of
 rules apart

---
 core/src/mapcss/StyleProvider.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 1713a34..c04f620 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -48,10 +48,12 @@ struct FilterCollection final {
 };
 
 /// Alters tag with value specific for passed style declarations.
+/// NOTE values have arbitrary characters, so their size is a part of the tag.
 void addTo(std::string &tag, const StyleDeclarations &styles) {
   for (const auto &style :styles) {
-    tag.append(utymap::utils::toString(style->key()));
-    tag.append(utymap::utils::toString(style->value()));
+    tag.append(";" + utymap::utils::toString(style->key()));
+    tag.append(":" + utymap::utils::toString(style->value().size()));
+    tag.append(":" + style->value());
   }
 }
 
@@ -73,10 +75,11 @@ void addTo(std::string &tag, const OpType &type) {
 /// Alters tag with value specific for passed filter map.
 void addTo(std::string &tag, const ConditionFilterMap &filterMap) {
   for (const auto &pair : filterMap) {
-    tag.append(utymap::utils::toString(pair.first));
+    tag.append("|z" + utymap::utils::toString(pair.first));
     for (const auto &filter : pair.second) {
+      tag.append("{");
       for (const auto &cond : filter.conditions) {
-        tag.append(utymap::utils::toString(cond.key));
+        tag.append("," + utymap::utils::toString(cond.key));
         addTo(tag, cond.type);
         tag.append(utymap::utils::toString(cond.value));
       }
@@ -88,9 +91,9 @@ void addTo(std::string &tag, const ConditionFilterMap &filterMap) {
 /// Alters tag with value specific for passed filter map.
 void addTo(std::string &tag, const IdentifierFilterMap &filterMap) {
   for (const auto &pair : filterMap) {
-    tag.append(utymap::utils::toString(pair.first));
+    tag.append("|z" + utymap::utils::toString(pair.first));
     for (const auto &id : pair.second) {
-      tag.append(utymap::utils::toString(id.first));
+      tag.append("{" + utymap::utils::toString(id.first));
       addTo(tag, id.second);
     }
   }
@@ -101,11 +104,17 @@ std::string getHashTag(const FilterCollection &filterCollection) {
   std::string tag;
   tag.reserve(64000);
 
+  tag.append("node");
   addTo(tag, filterCollection.nodes);
+  tag.append("way");
   addTo(tag, filterCollection.ways);
+  tag.append("area");
   addTo(tag, filterCollection.areas);
+  tag.append("relation");
   addTo(tag, filterCollection.relations);
+  tag.append("canvas");
   addTo(tag, filterCollection.canvases);
+  tag.append("element");
   addTo(tag, filterCollection.elements);
 
   return MD5(tag).hexdigest();
-- 
2.43.0


From 131f7be544f0137dae1453fab22cf329ff34705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:49 +0000
Subject: [PATCH 12/77] fix: restoring a turtle state which was not saved is
 reported

---
 core/src/lsys/Turtle3d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/lsys/Turtle3d.cpp b/core/src/lsys/Turtle3d.cpp
index 34ea2d9..3a5a556 100644
--- a/core/src/lsys/Turtle3d.cpp
+++ b/core/src/lsys/Turtle3d.cpp
@@ -2,6 +2,8 @@
 #include "lsys/LSystem.hpp"
 #include "utils/MathUtils.hpp"
 
+#include <stdexcept>
+
 using namespace utymap::lsys;
 using namespace utymap::math;
 
@@ -71,6 +73,9 @@ void Turtle3d::save() {
 }
 
 void Turtle3d::restore() {
+  if (states_.empty())
+    throw std::domain_error("Turtle3d: cannot restore state which is not saved.");
+
   state_ = states_.top();
   states_.pop();
 }
-- 
2.43.0


From f9e10735060778146d9c1237ea173fe1ea2b1176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 13/77] fix: elements with more than 65534 points or members
 are stored as a whole

---
 core/src/index/ElementStream.cpp | 37 ++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/core/src/index/ElementStream.cpp b/core/src/index/ElementStream.cpp
index ba95909..ac64a18 100644
--- a/core/src/index/ElementStream.cpp
+++ b/core/src/index/ElementStream.cpp
@@ -17,6 +17,9 @@ const char WayType = 1;
 const char AreaType = 2;
 const char RelationType = 3;
 
+/// Marks that size does not fit into 16 bits.
+const std::uint16_t LongSizeMark = 0xFFFF;
+
 std::ostream &operator<<(std::ostream &stream, const Tag &tag) {
   stream.write(reinterpret_cast<const char *>(&tag.key), sizeof(tag.key));
   stream.write(reinterpret_cast<const char *>(&tag.value), sizeof(tag.value));
@@ -41,10 +44,29 @@ std::istream &operator>>(std::istream &stream, utymap::GeoCoordinate &coordinate
   return stream;
 }
 
+/// Writes size of collection: 16 bits are used if it is enough, otherwise they are followed by 32 bits.
+void writeSize(std::ostream &stream, std::size_t size) {
+  auto shortSize = static_cast<std::uint16_t>(size < LongSizeMark ? size : LongSizeMark);
+  stream.write(reinterpret_cast<const char *>(&shortSize), sizeof(shortSize));
+  if (shortSize==LongSizeMark) {
+    auto longSize = static_cast<std::uint32_t>(size);
+    stream.write(reinterpret_cast<const char *>(&longSize), sizeof(longSize));
+  }
+}
+
+std::uint32_t readSize(std::istream &stream) {
+  std::uint16_t shortSize = 0;
+  stream.read(reinterpret_cast<char *>(&shortSize), sizeof(shortSize));
+  if (shortSize!=LongSizeMark) return shortSize;
+
+  std::uint32_t longSize = 0;
+  stream.read(reinterpret_cast<char *>(&longSize), sizeof(longSize));
+  return longSize;
+}
+
 template<typename T>
 std::ostream &operator<<(std::ostream &stream, const std::vector<T> &data) {
-  std::uint16_t size = static_cast<std::uint16_t>(data.size());
-  stream.write(reinterpret_cast<const char *>(&size), sizeof(size));
+  writeSize(stream, data.size());
   for (const auto &item : data)
     stream << item;
   return stream;
@@ -52,8 +74,7 @@ std::ostream &operator<<(std::ostream &stream, const std::vector<T> &data) {
 
 template<typename T>
 std::istream &operator>>(std::istream &stream, std::vector<T> &data) {
-  std::uint16_t size = 0;
-  stream.read(reinterpret_cast<char *>(&size), sizeof(size));
+  std::uint32_t size = readSize(stream);
   data.resize(size);
   for (size_t i = 0; i < size; ++i)
     stream >> data[i];
@@ -78,8 +99,7 @@ struct ElementWriter : ElementVisitor {
 
   void visitRelation(const Relation &relation) override {
     stream_ << RelationType << relation.tags;
-    auto size = static_cast<std::uint16_t>(relation.elements.size());
-    stream_.write(reinterpret_cast<const char *>(&size), sizeof(size));
+    writeSize(stream_, relation.elements.size());
     for (const auto &element : relation.elements) {
       stream_.write(reinterpret_cast<const char *>(&element->id), sizeof(element->id));
       element->accept(*this);
@@ -131,10 +151,9 @@ class ElementReader final {
     auto relation = utymap::utils::make_unique<Relation>();
     stream_ >> relation->tags;
 
-    std::uint16_t elementSize = 0;
-    stream_.read(reinterpret_cast<char *>(&elementSize), sizeof(elementSize));
+    std::uint32_t elementSize = readSize(stream_);
 
-    for (std::uint16_t i = 0; i < elementSize; ++i) {
+    for (std::uint32_t i = 0; i < elementSize; ++i) {
       std::uint64_t id;
       stream_.read(reinterpret_cast<char *>(&id), sizeof(id));
       auto element = read();
-- 
2.43.0


From e81416e96c81b87fedc9183c2cabd72dfb897ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 14/77] fix: clipped element which is found in several stores
 is built once

---
 core/src/builders/QuadKeyBuilder.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/QuadKeyBuilder.cpp b/core/src/builders/QuadKeyBuilder.cpp
index d41a915..4adbb59 100644
--- a/core/src/builders/QuadKeyBuilder.cpp
+++ b/core/src/builders/QuadKeyBuilder.cpp
@@ -36,7 +36,8 @@ class BuilderElementVisitor : public ElementVisitor {
 
   void visitRelation(const Relation &relation) override {
     if (relation.tags.empty()) {
-      // processing clipped element
+      // processing clipped element: prevent multiple building if it comes from different stores
+      if (!canVisit(relation)) return;
       ids_.insert(relation.id);
       for (const auto &element : relation.elements)
         visitElement(*element);
@@ -67,7 +68,12 @@ class BuilderElementVisitor : public ElementVisitor {
 
   bool canBuild(const Element &element, const Style &style) {
     // check do we know how to build it and prevent multiple building
-    return !style.empty() && (element.id==0 || ids_.find(element.id)==ids_.end());
+    return !style.empty() && canVisit(element);
+  }
+
+  /// Checks whether element with the same id is already processed.
+  bool canVisit(const Element &element) const {
+    return element.id==0 || ids_.find(element.id)==ids_.end();
   }
 
   ElementBuilder &getBuilder(const std::string &name) {
-- 
2.43.0


From 088d33d6dcdf16be7d1a9cd11f5e13ac37359505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 15/77] fix: contexts which build the same quadkey at the same
 time do not break each other's mesh cache file

---
 core/src/builders/MeshCache.cpp | 50 +++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index 1bce9f2..ad49bc1 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -21,6 +21,12 @@ class MeshCache::MeshCacheImpl {
   using MeshCallback = BuilderContext::MeshCallback;
   using ElementCallback = BuilderContext::ElementCallback;
 
+  /// File which is being written and token of the context which writes it.
+  struct CachingFile {
+    std::shared_ptr<std::fstream> file;
+    const CancellationToken *token;
+  };
+
  public:
   explicit MeshCacheImpl(const std::string &dataPath, const std::string &extension) :
       dataPath_(dataPath),
@@ -30,7 +36,7 @@ class MeshCache::MeshCacheImpl {
     auto filePath = getFilePath(context);
 
     std::lock_guard<std::mutex> lock(lock_);
-    return isCacheHit(context.quadKey, filePath) ? context : wrap(context, filePath);
+    return isInProgress(filePath) || isCacheHit(filePath) ? context : wrap(context, filePath);
   }
 
   bool fetch(const BuilderContext &context) {
@@ -38,7 +44,7 @@ class MeshCache::MeshCacheImpl {
 
     {
       std::lock_guard<std::mutex> lock(lock_);
-      if (!isCacheHit(context.quadKey, filePath))
+      if (!isCacheHit(filePath))
         return false;
     }
 
@@ -48,43 +54,51 @@ class MeshCache::MeshCacheImpl {
   }
 
   void unwrap(const BuilderContext &context) {
+    auto filePath = getFilePath(context);
+
     std::lock_guard<std::mutex> lock(lock_);
 
-    auto entry = cachingQuads_.find(context.quadKey);
+    auto entry = cachingFiles_.find(filePath);
 
-    if (entry==cachingQuads_.end()) return;
+    // NOTE the file might be written by another context which has the same path.
+    if (entry==cachingFiles_.end() || entry->second.token!=&context.cancelToken) return;
 
-    if (entry->second->good()) {
+    auto &file = *entry->second.file;
+    if (file.good()) {
       if (context.cancelToken.isCancelled()) {
         // NOTE no guarantee that all data was processed and saved.
         // So it is better to delete the whole file
-        entry->second->close();
+        file.close();
         // TODO any smarter option?
-        if (!entry->second->fail())
-          std::remove(getFilePath(context).c_str());
+        if (!file.fail())
+          std::remove(filePath.c_str());
       } else {
-        entry->second->seekg(0, std::ios::beg);
-        *entry->second << static_cast<char>(1);
-        entry->second->close();
+        file.seekg(0, std::ios::beg);
+        file << static_cast<char>(1);
+        file.close();
       }
     }
 
-    cachingQuads_.erase(entry);
+    cachingFiles_.erase(entry);
   }
 
  private:
 
   /// Checks whether the data associated with given context is already cached on disk.
-  bool isCacheHit(const QuadKey &quadKey, const std::string &filePath) const {
-    // NOTE if quadkey is preset in collection, then caching is in progress.
-    // in this case, we let app to behaviour as there is no cache at all
-    if (cachingQuads_.find(quadKey) != cachingQuads_.end()) return false;
+  bool isCacheHit(const std::string &filePath) const {
+    if (isInProgress(filePath)) return false;
     // NOTE if file is on disk, it should be processed.
     std::ifstream file(filePath, std::ios::in | std::ios::binary | std::ios::ate);
     file.seekg(0, std::ios::beg);
     return isGood(file);
   }
 
+  /// Checks whether the file is present in collection: it means that caching is in progress.
+  /// In this case, we let app to behave as there is no cache at all
+  bool isInProgress(const std::string &filePath) const {
+    return cachingFiles_.find(filePath)!=cachingFiles_.end();
+  }
+
   /// Gets path to cache file on disk.
   std::string getFilePath(const BuilderContext &context) const {
     std::stringstream ss;
@@ -100,7 +114,7 @@ class MeshCache::MeshCacheImpl {
     // NOTE marker that processing in progress
     *file << static_cast<char>(0);
 
-    cachingQuads_.insert({context.quadKey, file});
+    cachingFiles_.insert({filePath, CachingFile { file, &context.cancelToken }});
 
     return BuilderContext(
         context.quadKey,
@@ -165,7 +179,7 @@ class MeshCache::MeshCacheImpl {
   const std::string dataPath_;
   const std::string extension_;
   std::mutex lock_;
-  std::map<QuadKey, std::shared_ptr<std::fstream>, QuadKey::Comparator> cachingQuads_;
+  std::map<std::string, CachingFile> cachingFiles_;
 };
 
 MeshCache::MeshCache(const std::string &directory, const std::string &extension) :
-- 
2.43.0


From ce5e3fc6c66848debe285fdd8e6ba9c19f932906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 16/77] fix: empty mesh cache file is not considered as
 complete

---
 core/src/builders/MeshCache.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index ad49bc1..76deddb 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -171,7 +171,8 @@ class MeshCache::MeshCacheImpl {
   static bool isGood(std::istream& stream) {
     if (!stream.good()) return false;
 
-    char status;
+    // NOTE nothing is read from empty file
+    char status = 0;
     stream >> status;
     return status == 1;
   }
-- 
2.43.0


From 907aa69e8132f85f4a326e68e574760265875f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 17/77] fix: mesh cache is released when building is
 interrupted

---
 core/src/builders/CacheBuilder.hpp |  8 +++++++-
 core/src/builders/MeshCache.cpp    | 10 +++++++---
 core/src/builders/MeshCache.hpp    |  3 +++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/core/src/builders/CacheBuilder.hpp b/core/src/builders/CacheBuilder.hpp
index 98f0538..ffb7563 100644
--- a/core/src/builders/CacheBuilder.hpp
+++ b/core/src/builders/CacheBuilder.hpp
@@ -51,10 +51,16 @@ class CacheBuilder final : public ElementBuilder {
     builder_->complete();
     if (cacheContext_) {
       meshCache_.unwrap(*cacheContext_);
-      cacheContext_.release();
+      cacheContext_.reset();
     }
   }
 
+  ~CacheBuilder() {
+    // NOTE building is interrupted, e.g. by exception.
+    if (cacheContext_)
+      meshCache_.discard(*cacheContext_);
+  }
+
  private:
   MeshCache &meshCache_;
   std::unique_ptr<BuilderContext> cacheContext_;
diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index 76deddb..8567316 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -53,7 +53,7 @@ class MeshCache::MeshCacheImpl {
     return true;
   }
 
-  void unwrap(const BuilderContext &context) {
+  void release(const BuilderContext &context, bool isComplete) {
     auto filePath = getFilePath(context);
 
     std::lock_guard<std::mutex> lock(lock_);
@@ -65,7 +65,7 @@ class MeshCache::MeshCacheImpl {
 
     auto &file = *entry->second.file;
     if (file.good()) {
-      if (context.cancelToken.isCancelled()) {
+      if (!isComplete || context.cancelToken.isCancelled()) {
         // NOTE no guarantee that all data was processed and saved.
         // So it is better to delete the whole file
         file.close();
@@ -196,7 +196,11 @@ bool MeshCache::fetch(const BuilderContext &context) const {
 }
 
 void MeshCache::unwrap(const BuilderContext &context) const {
-  pimpl_->unwrap(context);
+  pimpl_->release(context, true);
+}
+
+void MeshCache::discard(const BuilderContext &context) const {
+  pimpl_->release(context, false);
 }
 
 MeshCache::~MeshCache() {}
diff --git a/core/src/builders/MeshCache.hpp b/core/src/builders/MeshCache.hpp
index e848b3a..dfd548a 100644
--- a/core/src/builders/MeshCache.hpp
+++ b/core/src/builders/MeshCache.hpp
@@ -36,6 +36,9 @@ class MeshCache final {
   /// Releases context.
   void unwrap(const BuilderContext &context) const;
 
+  /// Releases context which has not been completed: its data is not kept.
+  void discard(const BuilderContext &context) const;
+
   ~MeshCache();
 
  private:
-- 
2.43.0


From de5db58fdf7f28ac836d68a56c9dd7d573a8f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 18/77] fix: ways which refer to nodes missing in data
 dereferenced a null pointer

---
 core/src/formats/osm/OsmDataVisitor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/formats/osm/OsmDataVisitor.cpp b/core/src/formats/osm/OsmDataVisitor.cpp
index ff98906..49483f3 100644
--- a/core/src/formats/osm/OsmDataVisitor.cpp
+++ b/core/src/formats/osm/OsmDataVisitor.cpp
@@ -31,8 +31,13 @@ void OsmDataVisitor::visitWay(std::uint64_t id, std::vector<std::uint64_t> &node
   std::vector<GeoCoordinate> coordinates;
   coordinates.reserve(nodeIds.size());
   for (auto nodeId : nodeIds) {
-    coordinates.push_back(context_.nodeMap[nodeId]->coordinate);
+    // NOTE way may refer to nodes which are not present in given data (e.g. extract).
+    auto nodePair = context_.nodeMap.find(nodeId);
+    if (nodePair!=context_.nodeMap.end())
+      coordinates.push_back(nodePair->second->coordinate);
   }
+  if (coordinates.empty()) return;
+
   auto size = coordinates.size();
   if (size > 3 && coordinates[0]==coordinates[size - 1]) {
     coordinates.pop_back();
-- 
2.43.0


From 44f3b163b8455b86bcbabb53be3959891e6726dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 19/77] fix: relations were resolved again when referenced
 (duplicating their elements), and without end when they form a cycle

---
 core/src/formats/osm/BuildingProcessor.hpp |  8 ++++----
 core/src/formats/osm/OsmDataVisitor.cpp    | 17 +++++++++++------
 core/src/formats/osm/OsmDataVisitor.hpp    |  6 +++++-
 core/src/formats/osm/RelationProcessor.hpp |  8 ++++----
 4 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/core/src/formats/osm/BuildingProcessor.hpp b/core/src/formats/osm/BuildingProcessor.hpp
index 8801232..d2ce34d 100644
--- a/core/src/formats/osm/BuildingProcessor.hpp
+++ b/core/src/formats/osm/BuildingProcessor.hpp
@@ -19,7 +19,7 @@ class BuildingProcessor {
   BuildingProcessor(utymap::entities::Relation &relation,
                     const utymap::formats::RelationMembers &members,
                     utymap::formats::OsmDataContext &context,
-                    std::function<void(utymap::entities::Relation &)> resolve)
+                    std::function<bool(utymap::entities::Relation &)> resolve)
       : relation_(relation), members_(members), context_(context), resolve_(resolve) {
   }
 
@@ -40,8 +40,8 @@ class BuildingProcessor {
   }
 
   void visit(OsmDataContext::RelationMapType::const_iterator rel, const std::string &role) {
-    resolve_(*rel->second);
-    addToRelation(rel->second, role);
+    if (resolve_(*rel->second))
+      addToRelation(rel->second, role);
   }
 
  private:
@@ -58,7 +58,7 @@ class BuildingProcessor {
   utymap::entities::Relation &relation_;
   const utymap::formats::RelationMembers &members_;
   utymap::formats::OsmDataContext &context_;
-  std::function<void(utymap::entities::Relation &)> resolve_;
+  std::function<bool(utymap::entities::Relation &)> resolve_;
 };
 
 }
diff --git a/core/src/formats/osm/OsmDataVisitor.cpp b/core/src/formats/osm/OsmDataVisitor.cpp
index 49483f3..f471116 100644
--- a/core/src/formats/osm/OsmDataVisitor.cpp
+++ b/core/src/formats/osm/OsmDataVisitor.cpp
@@ -82,14 +82,15 @@ bool OsmDataVisitor::hasTag(const std::string &key,
   return utymap::utils::hasTag(stringTable_.getId(key), stringTable_.getId(value), tags);
 }
 
-void OsmDataVisitor::resolve(Relation &relation) {
-  if (cancelToken_.isCancelled()) return;
+bool OsmDataVisitor::resolve(Relation &relation) {
+  if (cancelToken_.isCancelled()) return false;
 
-  auto membersPair = relationMembers_.find(relation.id);
-  // already resolved
-  if (relation.elements.size()==membersPair->second.size())
-    return;
+  if (resolved_.find(relation.id)!=resolved_.end()) return true;
+
+  // relation refers to itself through its members
+  if (!resolving_.insert(relation.id).second) return false;
 
+  auto membersPair = relationMembers_.find(relation.id);
   auto resolveFunc = std::bind(&OsmDataVisitor::resolve, this, std::placeholders::_1);
 
   if (hasTag("type", "multipolygon", relation.tags))
@@ -99,6 +100,10 @@ void OsmDataVisitor::resolve(Relation &relation) {
   else {
     RelationProcessor(relation, membersPair->second, context_, relationMembers_, resolveFunc).process();
   }
+
+  resolving_.erase(relation.id);
+  resolved_.insert(relation.id);
+  return true;
 }
 
 utymap::BoundingBox OsmDataVisitor::complete() {
diff --git a/core/src/formats/osm/OsmDataVisitor.hpp b/core/src/formats/osm/OsmDataVisitor.hpp
index 93eea1a..0199462 100644
--- a/core/src/formats/osm/OsmDataVisitor.hpp
+++ b/core/src/formats/osm/OsmDataVisitor.hpp
@@ -13,6 +13,7 @@
 #include <string>
 #include <vector>
 #include <unordered_map>
+#include <unordered_set>
 
 namespace utymap {
 namespace formats {
@@ -39,7 +40,8 @@ class OsmDataVisitor final {
  private:
 
   bool hasTag(const std::string &key, const std::string &value, const std::vector<utymap::entities::Tag> &tags) const;
-  void resolve(utymap::entities::Relation &relation);
+  /// Resolves relation. Returns false if it cannot be used as member because it is being resolved itself.
+  bool resolve(utymap::entities::Relation &relation);
 
   const utymap::index::StringTable &stringTable_;
   std::function<bool(utymap::entities::Element &)> add_;
@@ -47,6 +49,8 @@ class OsmDataVisitor final {
   utymap::formats::OsmDataContext context_;
   utymap::BoundingBox bbox_;
   std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> relationMembers_;
+  /// Relations which are resolved and which are being resolved.
+  std::unordered_set<std::uint64_t> resolved_, resolving_;
 };
 
 }
diff --git a/core/src/formats/osm/RelationProcessor.hpp b/core/src/formats/osm/RelationProcessor.hpp
index 3c2a0b2..24c04ce 100644
--- a/core/src/formats/osm/RelationProcessor.hpp
+++ b/core/src/formats/osm/RelationProcessor.hpp
@@ -19,7 +19,7 @@ class RelationProcessor final {
                     const utymap::formats::RelationMembers &members,
                     utymap::formats::OsmDataContext &context,
                     std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> &relationMembersMap,
-                    std::function<void(utymap::entities::Relation &)> resolve)
+                    std::function<bool(utymap::entities::Relation &)> resolve)
       : relation_(relation), members_(members), context_(context),
         relationMembersMap_(relationMembersMap), resolve_(resolve) {
   }
@@ -47,8 +47,8 @@ class RelationProcessor final {
     if (isAlreadyProcessed(rel->first) || hasReferenceToParent(*rel->second))
       return;
 
-    resolve_(*rel->second);
-    relation_.elements.push_back(rel->second);
+    if (resolve_(*rel->second))
+      relation_.elements.push_back(rel->second);
   }
 
  private:
@@ -83,7 +83,7 @@ class RelationProcessor final {
 
   std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> &relationMembersMap_;
 
-  std::function<void(utymap::entities::Relation &)> resolve_;
+  std::function<bool(utymap::entities::Relation &)> resolve_;
 };
 
 }
-- 
2.43.0


From 0a6840197dc6bc3eb3f2e3bf3c99223743e5a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 20/77] fix: members of relations were confused with elements
 of other types which have the same id

---
 core/src/formats/osm/MultipolygonProcessor.cpp |  6 +-----
 core/src/formats/osm/RelationProcessor.hpp     | 17 +++++++++--------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index a0e46bc..98bfd22 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -117,11 +117,7 @@ void MultipolygonProcessor::process() {
         if (member.role=="outer" && hasNoTags)
           mergeTags(areaPair->second->tags);
       } else {
-        auto relationPair = context_.relationMap.find(member.refId);
-        if (relationPair==context_.relationMap.end())
-          return; //  NOTE cannot fill relation: incomplete data
-
-        resolve_(*relationPair->second);
+        return; //  NOTE cannot fill relation: incomplete data
       }
     }
 
diff --git a/core/src/formats/osm/RelationProcessor.hpp b/core/src/formats/osm/RelationProcessor.hpp
index 24c04ce..055df16 100644
--- a/core/src/formats/osm/RelationProcessor.hpp
+++ b/core/src/formats/osm/RelationProcessor.hpp
@@ -29,22 +29,22 @@ class RelationProcessor final {
   }
 
   void visit(OsmDataContext::NodeMapType::const_iterator node, const std::string &role) {
-    if (!isAlreadyProcessed(node->first))
+    if (!isAlreadyProcessed(*node->second))
       relation_.elements.push_back(node->second);
   }
 
   void visit(OsmDataContext::WayMapType::const_iterator way, const std::string &role) {
-    if (!isAlreadyProcessed(way->first))
+    if (!isAlreadyProcessed(*way->second))
       relation_.elements.push_back(way->second);
   }
 
   void visit(OsmDataContext::AreaMapType::const_iterator area, const std::string &role) {
-    if (!isAlreadyProcessed(area->first))
+    if (!isAlreadyProcessed(*area->second))
       relation_.elements.push_back(area->second);
   }
 
   void visit(OsmDataContext::RelationMapType::const_iterator rel, const std::string &role) {
-    if (isAlreadyProcessed(rel->first) || hasReferenceToParent(*rel->second))
+    if (isAlreadyProcessed(*rel->second) || hasReferenceToParent(*rel->second))
       return;
 
     if (resolve_(*rel->second))
@@ -53,10 +53,11 @@ class RelationProcessor final {
 
  private:
 
-  bool isAlreadyProcessed(std::uint64_t id) {
+  /// NOTE ids are unique only among elements of the same type.
+  bool isAlreadyProcessed(const utymap::entities::Element &element) {
     auto it = std::find_if(relation_.elements.begin(), relation_.elements.end(),
-                           [&id](const std::shared_ptr<utymap::entities::Element> &e) {
-                             return e->id==id;
+                           [&element](const std::shared_ptr<utymap::entities::Element> &e) {
+                             return e.get()==&element;
                            });
 
     return it!=relation_.elements.end();
@@ -71,7 +72,7 @@ class RelationProcessor final {
     auto members = relationMembersMap_.find(rel.id)->second;
     auto it = std::find_if(members.begin(), members.end(),
                            [&parentId](const utymap::formats::RelationMember &m) {
-                             return m.refId==parentId;
+                             return m.type=="r" && m.refId==parentId;
                            });
 
     return it!=members.end();
-- 
2.43.0


From e89ee1b4531dbfa93e4ae2e1e74c4c0d1be546a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 21/77] fix: inner areas of multipolygons had uninitialised ids

---
 core/src/formats/osm/MultipolygonProcessor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index 98bfd22..e25a926 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -160,6 +160,7 @@ void MultipolygonProcessor::simpleCase(const CoordinateSequences &sequences,
   // inner
   for (int i : innerIndecies) {
     auto innerArea = std::make_shared<Area>();
+    innerArea->id = sequences[i]->id;
     insertCoordinates(sequences[i]->coordinates, innerArea->coordinates, false);
     relation_.elements.push_back(innerArea);
   }
@@ -254,6 +255,7 @@ void MultipolygonProcessor::fillRelation(CoordinateSequences &rings) const {
     // inner: create a new area and remove the used rings
     for (const auto &innerRing : inners) {
       auto innerArea = std::make_shared<Area>();
+      innerArea->id = innerRing->id;
       insertCoordinates(innerRing->coordinates, innerArea->coordinates, false);
       relation_.elements.push_back(innerArea);
     }
-- 
2.43.0


From e7b949a04397332beada76b1132a05dc2e9cfa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 22/77] fix: multipolygon with an unclosed ring was assembled
 partially or not at all depending on the order of its members

---
 core/src/formats/osm/MultipolygonProcessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index e25a926..096bb80 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -205,6 +205,10 @@ std::vector<std::shared_ptr<MultipolygonProcessor::CoordinateSequence>> Multipol
     }
   }
 
+  // the last ring is not closed
+  if (currentRing!=nullptr)
+    return CoordinateSequences();
+
   return std::move(closedRings);
 }
 
-- 
2.43.0


From 7dc386d8bee4e09771d76205f119b1f31ecbc9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 23/77] fix: island inside of a hole was added as hole of the
 outer ring if the hole comes first

---
 core/src/formats/osm/MultipolygonProcessor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index 096bb80..d1e6bda 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -234,7 +234,10 @@ void MultipolygonProcessor::fillRelation(CoordinateSequences &rings) const {
     CoordinateSequences inners;
     for (auto ring = rings.begin(); ring!=rings.end();) {
       if (outer->containsRing((*ring)->coordinates)) {
-        bool containedInOthers = false;
+        // NOTE rings which are already known as inner ones are not in rings anymore
+        bool containedInOthers = std::any_of(inners.begin(), inners.end(), [&](const std::shared_ptr<CoordinateSequence> &inner) {
+          return inner->containsRing((*ring)->coordinates);
+        });
         for (auto other = rings.begin(); other!=rings.end(); ++other) {
           if (other!=ring && (*other)->containsRing((*ring)->coordinates)) {
             containedInOthers = true;
-- 
2.43.0


From 4c1f13506e0e44c531cac21ca9776e3c002281b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 24/77] fix: xml with an empty attribute, a way without nodes
 or a relation without members could not be read

---
 core/src/formats/osm/xml/OsmXmlParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/formats/osm/xml/OsmXmlParser.cpp b/core/src/formats/osm/xml/OsmXmlParser.cpp
index ff50440..6b506b6 100644
--- a/core/src/formats/osm/xml/OsmXmlParser.cpp
+++ b/core/src/formats/osm/xml/OsmXmlParser.cpp
@@ -51,7 +51,7 @@ struct AttributeSkipper : qi::grammar <Iterator> {
 
       attributeSkipper =
         ascii::space |
-        ((+qi::alnum - knownKey) >> "=\"" >> +(qi::char_ - '"') >> '"');
+        ((+qi::alnum - knownKey) >> "=\"" >> *(qi::char_ - '"') >> '"');
       ;
 
       BOOST_SPIRIT_DEBUG_NODE(knownKey);
@@ -170,7 +170,7 @@ struct WayGrammar : qi::grammar < Iterator, WayType(), AttributeSkipper<Iterator
     nodeRef = qi::skip(qi::space)["<nd" > ref > "/>"];
 
     way =
-        "<way" > id > '>' > +nodeRef > *tag > "</way>";
+        "<way" > id > '>' > *nodeRef > *tag > "</way>";
 
     BOOST_SPIRIT_DEBUG_NODE(nodeRef);
     BOOST_SPIRIT_DEBUG_NODE(way);
@@ -189,7 +189,7 @@ struct RelationGrammar : qi::grammar < Iterator, RelationType(), AttributeSkippe
     memberRef = qi::skip(qi::space)["<member" > ("type=" > value) > ref > ("role=" > value) > "/>"];
 
     relation =
-        "<relation" > id > '>' > +memberRef > *tag > "</relation>";
+        "<relation" > id > '>' > *memberRef > *tag > "</relation>";
 
     BOOST_SPIRIT_DEBUG_NODE(memberRef);
     BOOST_SPIRIT_DEBUG_NODE(relation);
-- 
2.43.0


From 5c7b59accd03f70ef21b0277c9817eca1453ec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 25/77] fix: xml entities in tags and roles were not decoded

---
 core/src/formats/osm/xml/OsmXmlParser.cpp | 61 +++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/core/src/formats/osm/xml/OsmXmlParser.cpp b/core/src/formats/osm/xml/OsmXmlParser.cpp
index 6b506b6..4a9f9c5 100644
--- a/core/src/formats/osm/xml/OsmXmlParser.cpp
+++ b/core/src/formats/osm/xml/OsmXmlParser.cpp
@@ -12,6 +12,8 @@
 #include "formats/FormatTypes.hpp"
 #include "formats/osm/xml/OsmXmlParser.hpp"
 
+#include <cstdlib>
+
 using namespace utymap;
 using namespace utymap::formats;
 
@@ -40,6 +42,61 @@ typedef boost::tuple<std::uint64_t, std::vector<std::uint64_t>, std::vector<TagT
 typedef RelationMember MemberType;
 typedef boost::tuple<std::uint64_t, std::vector<MemberType>, std::vector<TagType>> RelationType;
 
+/// Appends code point encoded as utf-8.
+void appendCodePoint(unsigned long code, std::string &result) {
+  if (code < 0x80) {
+    result += static_cast<char>(code);
+  } else if (code < 0x800) {
+    result += static_cast<char>(0xC0 | (code >> 6));
+    result += static_cast<char>(0x80 | (code & 0x3F));
+  } else if (code < 0x10000) {
+    result += static_cast<char>(0xE0 | (code >> 12));
+    result += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+    result += static_cast<char>(0x80 | (code & 0x3F));
+  } else {
+    result += static_cast<char>(0xF0 | (code >> 18));
+    result += static_cast<char>(0x80 | ((code >> 12) & 0x3F));
+    result += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+    result += static_cast<char>(0x80 | (code & 0x3F));
+  }
+}
+
+/// Replaces character references and predefined entities of xml by characters they stand for.
+void unescape(std::string &value) {
+  if (value.find('&')==std::string::npos) return;
+
+  std::string result;
+  for (std::size_t i = 0; i < value.size(); ++i) {
+    auto end = value[i]=='&' ? value.find(';', i) : std::string::npos;
+    if (end==std::string::npos) {
+      result += value[i];
+      continue;
+    }
+    auto name = value.substr(i + 1, end - i - 1);
+    if (name=="amp") result += '&';
+    else if (name=="quot") result += '"';
+    else if (name=="apos") result += '\'';
+    else if (name=="lt") result += '<';
+    else if (name=="gt") result += '>';
+    else if (name.size() > 1 && name[0]=='#') {
+      bool isHex = name[1]=='x' || name[1]=='X';
+      appendCodePoint(std::strtoul(name.c_str() + (isHex ? 2 : 1), nullptr, isHex ? 16 : 10), result);
+    } else {
+      result += value[i];
+      continue;
+    }
+    i = end;
+  }
+  value = result;
+}
+
+void unescape(Tags &tags) {
+  for (auto &tag : tags) {
+    unescape(tag.key);
+    unescape(tag.value);
+  }
+}
+
 template <typename Iterator>
 struct AttributeSkipper : qi::grammar <Iterator> {
   AttributeSkipper() : AttributeSkipper::base_type(attributeSkipper, "attr_skipper") {
@@ -247,12 +304,14 @@ private:
   void onNode(NodeType& node) {
     utymap::GeoCoordinate coordinate(boost::get<1>(node), boost::get<2>(node));
     Tags& tags = boost::get<3>(node);
+    unescape(tags);
     visitor.visitNode(boost::get<0>(node), coordinate, tags);
   }
 
   void onWay(WayType& way) {
     auto& ids = boost::get<1>(way);
     Tags& tags = boost::get<2>(way);
+    unescape(tags);
     visitor.visitWay(boost::get<0>(way), ids, tags);
   }
 
@@ -260,8 +319,10 @@ private:
     auto& members = boost::get<1>(relation);
     for (auto& member : members) {
         member.type = mapType(member.type);
+        unescape(member.role);
     }
     Tags& tags = boost::get<2>(relation);
+    unescape(tags);
     visitor.visitRelation(boost::get<0>(relation), members, tags);
   }
 
-- 
2.43.0


From cb1e03cd985a75ca8e1f3acf7435df33698b1fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 26/77] fix: uncompressed blobs of pbf were read from the wrong
 place

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index eb6c0c3..9b88e08 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -94,7 +94,7 @@ class OsmPbfParser final {
     // uncompressed
     if (blob.has_raw()) {
       sz = static_cast<std::int32_t>(blob.raw().size());
-      memcpy(unpack_buffer_.data(), buffer_.data(), sz);
+      memcpy(unpack_buffer_.data(), blob.raw().data(), sz);
       return sz;
     }
 
-- 
2.43.0


From e40c4d5318c640ab131cf44a239f2ef68a9bdc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 27/77] fix: offset of pbf block was added to every difference
 of dense nodes

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index 9b88e08..d3be6a3 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -153,15 +153,15 @@ class OsmPbfParser final {
       if (pg.has_dense()) {
         OSMPBF::DenseNodes dn = pg.dense();
         uint64_t id = 0;
-        double lon = 0;
-        double lat = 0;
+        std::int64_t lon = 0;
+        std::int64_t lat = 0;
 
         int current_kv = 0;
 
         for (int i = 0; i < dn.id_size(); ++i) {
           id += dn.id(i);
-          lat += 0.000000001*(primblock.lat_offset() + (primblock.granularity()*dn.lat(i)));
-          lon += 0.000000001*(primblock.lon_offset() + (primblock.granularity()*dn.lon(i)));
+          lat += dn.lat(i);
+          lon += dn.lon(i);
 
           Tags tags;
           tags.reserve(2);
@@ -175,7 +175,8 @@ class OsmPbfParser final {
             tags.push_back(tag);
           }
           ++current_kv;
-          GeoCoordinate coordinate(lat, lon);
+          GeoCoordinate coordinate(0.000000001*(primblock.lat_offset() + (primblock.granularity()*lat)),
+                                   0.000000001*(primblock.lon_offset() + (primblock.granularity()*lon)));
           visitor.visitNode(id, coordinate, tags);
         }
       }
-- 
2.43.0


From bda1b67d0d4fc8faeeb7503c5893a939fb9891e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 28/77] fix: damaged pbf data was read out of bounds

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 38 ++++++++++++++++++-----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index d3be6a3..e9ca6a3 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -64,7 +64,7 @@ class OsmPbfParser final {
     // little endian to big endian
     sz = (((sz & 0xff) << 24) + ((sz & 0xff00) << 8) + ((sz & 0xff0000) >> 8) + ((sz >> 24) & 0xff));
 
-    if (sz > MaxBlobHeaderSize)
+    if (sz < 0 || sz > MaxBlobHeaderSize)
       throw std::domain_error("Blob header size is bigger than allowed");
 
     stream.read(buffer_.data(), sz);
@@ -82,7 +82,7 @@ class OsmPbfParser final {
 
     std::int32_t sz = header.datasize();
 
-    if (sz > MaxUncompressedBlobSize)
+    if (sz < 0 || sz > MaxUncompressedBlobSize)
       throw std::domain_error("Blob size is bigger then allowed");
 
     if (!stream.read(buffer_.data(), sz))
@@ -101,6 +101,9 @@ class OsmPbfParser final {
     if (blob.has_zlib_data()) {
       sz = static_cast<std::int32_t>(blob.zlib_data().size());
 
+      if (blob.raw_size() < 0 || blob.raw_size() > MaxUncompressedBlobSize)
+        throw std::domain_error("Uncompressed blob size is bigger then allowed");
+
       z_stream z;
       z.next_in = (unsigned char *) blob.zlib_data().c_str();
       z.avail_in = sz;
@@ -113,8 +116,10 @@ class OsmPbfParser final {
       if (inflateInit(&z)!=Z_OK)
         throw std::domain_error("Failed to init zlib stream");
 
-      if (inflate(&z, Z_FINISH)!=Z_STREAM_END)
+      if (inflate(&z, Z_FINISH)!=Z_STREAM_END) {
+        inflateEnd(&z);
         throw std::domain_error("Failed to inflate zlib stream");
+      }
 
       if (inflateEnd(&z)!=Z_OK)
         throw std::domain_error("Failed to deinit zlib stream");
@@ -158,6 +163,9 @@ class OsmPbfParser final {
 
         int current_kv = 0;
 
+        if (dn.lat_size() != dn.id_size() || dn.lon_size() != dn.id_size())
+          throw std::domain_error("Dense nodes have different amount of ids and coordinates");
+
         for (int i = 0; i < dn.id_size(); ++i) {
           id += dn.id(i);
           lat += dn.lat(i);
@@ -166,11 +174,13 @@ class OsmPbfParser final {
           Tags tags;
           tags.reserve(2);
           while (current_kv < dn.keys_vals_size() && dn.keys_vals(current_kv)!=0) {
+            if (current_kv + 1 >= dn.keys_vals_size())
+              throw std::domain_error("Key of dense node has no value");
             auto key = dn.keys_vals(current_kv);
             auto val = dn.keys_vals(current_kv + 1);
             Tag tag;
-            tag.key = primblock.stringtable().s(key);
-            tag.value = primblock.stringtable().s(val);
+            tag.key = getString(primblock, key);
+            tag.value = getString(primblock, val);
             current_kv += 2;
             tags.push_back(tag);
           }
@@ -200,6 +210,9 @@ class OsmPbfParser final {
       for (int i = 0; i < pg.relations_size(); ++i) {
         OSMPBF::Relation rel = pg.relations(i);
         uint64_t id = 0;
+        if (rel.types_size() != rel.memids_size() || rel.roles_sid_size() != rel.memids_size())
+          throw std::domain_error("Relation has different amount of members, types and roles");
+
         RelationMembers refs;
         refs.reserve(rel.memids_size());
         for (int l = 0; l < rel.memids_size(); ++l) {
@@ -207,7 +220,7 @@ class OsmPbfParser final {
           RelationMember member;
           member.refId = id;
           member.type = parseType(rel, l);
-          member.role = primblock.stringtable().s(rel.roles_sid(l));
+          member.role = getString(primblock, rel.roles_sid(l));
           refs.push_back(member);
         }
 
@@ -228,15 +241,24 @@ class OsmPbfParser final {
     }
   }
 
+  static const std::string &getString(const OSMPBF::PrimitiveBlock &primblock, std::int64_t index) {
+    if (index < 0 || index >= primblock.stringtable().s_size())
+      throw std::domain_error("String table has no string with given index");
+    return primblock.stringtable().s(static_cast<int>(index));
+  }
+
   template<typename T>
   void setTags(const T &object, const OSMPBF::PrimitiveBlock &primblock, Tags &tags) {
+    if (object.keys_size() != object.vals_size())
+      throw std::domain_error("Element has different amount of keys and values");
+
     tags.reserve(object.keys_size());
     for (int i = 0; i < object.keys_size(); ++i) {
       Tag tag;
       auto key = object.keys(i);
       auto val = object.vals(i);
-      tag.key = primblock.stringtable().s(key);
-      tag.value = primblock.stringtable().s(val);
+      tag.key = getString(primblock, key);
+      tag.value = getString(primblock, val);
       tags.push_back(tag);
     }
   }
-- 
2.43.0


From 809c11eeb7a782213fff5b3df7a0f0b408f703d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 29/77] fix: bounding box to quad keys missed tiles of boxes
 with even sides

---
 unity/library/UtyMap.Unity/Utils/GeoUtils.cs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Utils/GeoUtils.cs b/unity/library/UtyMap.Unity/Utils/GeoUtils.cs
index 97bc854..2db999e 100644
--- a/unity/library/UtyMap.Unity/Utils/GeoUtils.cs
+++ b/unity/library/UtyMap.Unity/Utils/GeoUtils.cs
@@ -151,11 +151,12 @@ namespace UtyMap.Unity.Utils
             var yBase = maxQuadKey.TileY + halfHeight;
 
             int x = 0, y = 0, dx = 0, dy = -1;
-            int t = Math.Max(width, height);
+            // NOTE if side is even, the middle is not in the center
+            int t = Math.Max(width, height) + 1;
             int maxI = t*t;
             for (int i = 0; i < maxI; i++)
             {
-                if ((-halfWidth <= x) && (x <= halfWidth) && (-halfHeight <= y) && (y <= halfHeight))
+                if ((-halfWidth <= x) && (x < width - halfWidth) && (halfHeight - height < y) && (y <= halfHeight))
                     yield return new QuadKey(xBase + x, yBase - y, levelOfDetails);
 
                 if ((x == y) || ((x < 0) && (x == -y)) || ((x > 0) && (x == 1 - y)))
-- 
2.43.0


From d83c63d49540770c0a81edb607b028151f9f256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 30/77] fix: bounding box was created with width and height
 swapped

---
 unity/library/UtyMap.Unity/BoundingBox.cs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/unity/library/UtyMap.Unity/BoundingBox.cs b/unity/library/UtyMap.Unity/BoundingBox.cs
index 8919d0c..416d9f7 100644
--- a/unity/library/UtyMap.Unity/BoundingBox.cs
+++ b/unity/library/UtyMap.Unity/BoundingBox.cs
@@ -105,13 +105,13 @@ namespace UtyMap.Unity
             // Radius of the parallel at given latitude
             var pradius = radius*Math.Cos(lat);
 
-            var dWidth = width/(2*radius);
-            var dHeight = height/(2*pradius);
+            var dWidth = width/(2*pradius);
+            var dHeight = height/(2*radius);
 
-            var latMin = lat - dWidth;
-            var latMax = lat + dWidth;
-            var lonMin = lon - dHeight;
-            var lonMax = lon + dHeight;
+            var latMin = lat - dHeight;
+            var latMax = lat + dHeight;
+            var lonMin = lon - dWidth;
+            var lonMax = lon + dWidth;
 
             return new BoundingBox(
                 new GeoCoordinate(MathUtils.Rad2Deg(latMin), MathUtils.Rad2Deg(lonMin)),
-- 
2.43.0


From faadc88d177bde2cae5a7d58a861513fe86fa1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 31/77] fix: low byte of srtm heights was sign extended

---
 core/src/heightmap/SrtmElevationProvider.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 2a308e2..ec1b313 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -142,7 +142,8 @@ class SrtmElevationProvider final : public ElevationProvider {
 
   static int readPx(const HgtCell &cell, int y, int x) {
     int pos = cell.offset + 2*(x - cell.totalPx*y);
-    return (cell.data[pos]) << 8 | (cell.data[pos + 1]);
+    // big endian signed value: low byte should not be sign extended
+    return static_cast<signed char>(cell.data[pos])*256 + static_cast<unsigned char>(cell.data[pos + 1]);
   }
 
   static HgtCell readCell(const std::string &path) {
-- 
2.43.0


From acea953f73ea5e694c51587d74bb954eaf52b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 32/77] fix: srtm cells of negative coordinates were truncated
 towards zero

---
 core/src/heightmap/SrtmElevationProvider.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index ec1b313..7309e08 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -66,10 +66,10 @@ class SrtmElevationProvider final : public ElevationProvider {
       return;
 
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
-    int minLat = static_cast<int>(bbox.minPoint.latitude);
-    int minLon = static_cast<int>(bbox.minPoint.longitude);
-    int maxLat = static_cast<int>(bbox.maxPoint.latitude);
-    int maxLon = static_cast<int>(bbox.maxPoint.longitude);
+    int minLat = static_cast<int>(std::floor(bbox.minPoint.latitude));
+    int minLon = static_cast<int>(std::floor(bbox.minPoint.longitude));
+    int maxLat = static_cast<int>(std::floor(bbox.maxPoint.latitude));
+    int maxLon = static_cast<int>(std::floor(bbox.maxPoint.longitude));
 
     int latDiff = maxLat - minLat;
     int lonDiff = maxLon - minLon;
@@ -88,8 +88,9 @@ class SrtmElevationProvider final : public ElevationProvider {
   }
 
   double getElevationImpl(const utymap::QuadKey &quadKey, double latitude, double longitude) const {
-    int latDec = static_cast<int>(latitude);
-    int lonDec = static_cast<int>(longitude);
+    // cell is named by its south west corner
+    int latDec = static_cast<int>(std::floor(latitude));
+    int lonDec = static_cast<int>(std::floor(longitude));
 
     double secondsLat = (latitude - latDec)*3600;
     double secondsLon = (longitude - lonDec)*3600;
@@ -177,9 +178,9 @@ class SrtmElevationProvider final : public ElevationProvider {
     std::ostringstream stream;
     stream << dataPath_
            << std::setfill('0')
-           << (key.lat > 0 ? 'N' : 'S')
+           << (key.lat >= 0 ? 'N' : 'S')
            << std::setw(2) << std::abs(key.lat) << std::setw(0)
-           << (key.lon > 0 ? 'E' : 'W')
+           << (key.lon >= 0 ? 'E' : 'W')
            << std::setw(3) << std::abs(key.lon)
            << ".hgt";
     return stream.str();
-- 
2.43.0


From 91f772800b9edb309ee5ce7b9b3bbdf7395b8934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 33/77] fix: asking for a missing srtm cell created an empty
 file

---
 core/src/heightmap/SrtmElevationProvider.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 7309e08..099834e 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -82,7 +82,6 @@ class SrtmElevationProvider final : public ElevationProvider {
           continue;
 
         std::string path = getFilePath(cellKey);
-        HgtCell cell = readCell(path);
         cells_.emplace(cellKey, readCell(path));
       }
   }
@@ -148,7 +147,7 @@ class SrtmElevationProvider final : public ElevationProvider {
   }
 
   static HgtCell readCell(const std::string &path) {
-    std::fstream file(path, std::ios::in | std::ios::out | std::ios::binary | std::ios::app);
+    std::fstream file(path, std::ios::in | std::ios::binary);
     file.seekg(0, std::ios::end);
     auto size = file.tellg();
 
-- 
2.43.0


From 3193f3558a540d5fb55034284b5c16661f3533d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 34/77] fix: caches of elevation data were read outside of
 their lock

---
 core/src/heightmap/GridElevationProvider.hpp | 39 +++++++++-----------
 core/src/heightmap/SrtmElevationProvider.hpp | 24 ++++++------
 2 files changed, 31 insertions(+), 32 deletions(-)

diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index 29a6b14..9c1967d 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -46,31 +46,27 @@ class GridElevationProvider final : public ElevationProvider {
 
   /// Gets elevation for given geocoordinate.
   double getElevation(const utymap::QuadKey &quadKey, double latitude, double longitude) const override {
-    auto data = data_.find(quadKey);
-    if (data==data_.end()) {
-      preload(quadKey);
-      data = data_.find(quadKey);
-    }
+    const auto &data = getData(quadKey);
 
-    int resolution = data->second.resolution;
+    int resolution = data.resolution;
 
-    int x = static_cast<int>(longitude*Scale) - data->second.xStart;
-    int y = static_cast<int>(latitude*Scale) - data->second.yStart;
+    int x = static_cast<int>(longitude*Scale) - data.xStart;
+    int y = static_cast<int>(latitude*Scale) - data.yStart;
 
-    int x0 = clamp(x/data->second.xStep, 0, resolution);
-    int y0 = clamp(y/data->second.yStep, 0, resolution);
+    int x0 = clamp(x/data.xStep, 0, resolution);
+    int y0 = clamp(y/data.yStep, 0, resolution);
 
     int x1 = std::min(x0 + 1, resolution);
     int y1 = std::min(y0 + 1, resolution);
 
-    double dx = static_cast<double>(x - x0*data->second.xStep)/data->second.xStep;
-    double dy = static_cast<double>(y - y0*data->second.yStep)/data->second.yStep;
+    double dx = static_cast<double>(x - x0*data.xStep)/data.xStep;
+    double dy = static_cast<double>(y - y0*data.yStep)/data.yStep;
 
     int cellSize = resolution + 1;
-    int height2 = data->second.heights[x0 + y0*cellSize];
-    int height0 = data->second.heights[x0 + y1*cellSize];
-    int height3 = data->second.heights[x1 + y0*cellSize];
-    int height1 = data->second.heights[x1 + y1*cellSize];
+    int height2 = data.heights[x0 + y0*cellSize];
+    int height0 = data.heights[x0 + y1*cellSize];
+    int height3 = data.heights[x1 + y0*cellSize];
+    int height1 = data.heights[x1 + y1*cellSize];
 
     // Bilinear interpolation
     // h0------------h1
@@ -90,12 +86,13 @@ class GridElevationProvider final : public ElevationProvider {
     return std::max(lower, std::min(n, upper));
   }
 
-  /// Preloads data for given quadkey.
-  void preload(const utymap::QuadKey &quadKey) const {
+  /// Gets data for given quadkey, loads it if necessary.
+  const EleData &getData(const utymap::QuadKey &quadKey) const {
     std::lock_guard<std::mutex> lock(lock_);
 
-    if (data_.find(quadKey)!=data_.end())
-      return;
+    auto dataPtr = data_.find(quadKey);
+    if (dataPtr!=data_.end())
+      return dataPtr->second;
 
     std::string filePath = getFilePath(quadKey);
     std::fstream file(filePath);
@@ -124,7 +121,7 @@ class GridElevationProvider final : public ElevationProvider {
     data.xStep = static_cast<int>(bbox.width()/data.resolution*Scale);
     data.yStep = static_cast<int>(bbox.height()/data.resolution*Scale);
 
-    data_.emplace(quadKey, std::move(data));
+    return data_.emplace(quadKey, std::move(data)).first->second;
   }
 
   std::string getFilePath(const QuadKey &quadKey) const {
diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 099834e..010269f 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -59,11 +59,13 @@ class SrtmElevationProvider final : public ElevationProvider {
 
  private:
 
-  void preload(const utymap::QuadKey &quadKey, HgtCellKey &hgtCellKey) const {
+  /// Gets cell by its key, loads cells of given quadkey if necessary.
+  const HgtCell &getCell(const utymap::QuadKey &quadKey, const HgtCellKey &hgtCellKey) const {
     std::lock_guard<std::mutex> lock(lock_);
 
-    if (cells_.find(hgtCellKey)!=cells_.end())
-      return;
+    auto cellPtr = cells_.find(hgtCellKey);
+    if (cellPtr!=cells_.end())
+      return cellPtr->second;
 
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
     int minLat = static_cast<int>(std::floor(bbox.minPoint.latitude));
@@ -84,6 +86,13 @@ class SrtmElevationProvider final : public ElevationProvider {
         std::string path = getFilePath(cellKey);
         cells_.emplace(cellKey, readCell(path));
       }
+
+    // coordinate might be out of quadkey
+    cellPtr = cells_.find(hgtCellKey);
+    if (cellPtr==cells_.end())
+      cellPtr = cells_.emplace(hgtCellKey, readCell(getFilePath(hgtCellKey))).first;
+
+    return cellPtr->second;
   }
 
   double getElevationImpl(const utymap::QuadKey &quadKey, double latitude, double longitude) const {
@@ -94,14 +103,7 @@ class SrtmElevationProvider final : public ElevationProvider {
     double secondsLat = (latitude - latDec)*3600;
     double secondsLon = (longitude - lonDec)*3600;
 
-    HgtCellKey hgtCellKey(latDec, lonDec);
-    auto cellPtr = cells_.find(hgtCellKey);
-    if (cellPtr==cells_.end()) {
-      preload(quadKey, hgtCellKey);
-      cellPtr = cells_.find(hgtCellKey);
-    }
-
-    const auto &cell = cellPtr->second;
+    const auto &cell = getCell(quadKey, HgtCellKey(latDec, lonDec));
 
     // load tile
     //X corresponds to x/y values,
-- 
2.43.0


From 60af49fedd05b2bb3c0fa854eff3523bfd714ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:29 +0000
Subject: [PATCH 35/77] fix: terrain regions without layer were not ordered by
 their area

---
 core/src/builders/terrain/TerraBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/builders/terrain/TerraBuilder.cpp b/core/src/builders/terrain/TerraBuilder.cpp
index f51bb00..6999090 100644
--- a/core/src/builders/terrain/TerraBuilder.cpp
+++ b/core/src/builders/terrain/TerraBuilder.cpp
@@ -198,6 +198,11 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
                  const utymap::entities::Element &element,
                  const Style &style,
                  std::shared_ptr<Region> &region) {
+    // NOTE holes have negative area
+    region->area = std::abs(std::accumulate(region->geometry.begin(), region->geometry.end(), 0.,
+                                            [](double acc, const IntPath &path) {
+                                              return acc + getArea(path);
+                                            }))/(Scale*Scale);
     layers_[type].regions.push_back(region);
     for (const auto &generator : generators_) {
       generator->onNewRegion(type, element, style, region);
-- 
2.43.0


From 0581fbd2948d34ee09256c32880f8213e28b253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:29 +0000
Subject: [PATCH 36/77] fix: holes with islands and places enclosed by touching
 contours were triangulated wrong

---
 core/src/builders/MeshBuilder.cpp | 26 ++++++++-
 core/src/math/Polygon.hpp         | 90 ++++++++-----------------------
 2 files changed, 46 insertions(+), 70 deletions(-)

diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index 7a115ca..e081fcd 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -8,6 +8,7 @@
 #include "utils/GeoUtils.hpp"
 #include "utils/GradientUtils.hpp"
 
+#include <algorithm>
 #include <mutex>
 
 using namespace utymap;
@@ -50,6 +51,25 @@ void ensureMeshCapacity(Mesh &mesh, std::size_t pointCount, std::size_t triCount
   mesh.uvs.reserve(mesh.uvs.size() + pointCount*2);
 }
 
+/// Removes triangles which are not covered by polygon: these are in holes or enclosed by touching contours.
+/// NOTE triangle library keeps them as it knows only segments of contours.
+void removeOutside(const Polygon &polygon, triangulateio &io) {
+  int count = 0;
+  for (int i = 0; i < io.numberoftriangles; ++i) {
+    Vector2 center(0, 0);
+    for (int j = 0; j < 3; ++j) {
+      const double *point = io.pointlist + io.trianglelist[i*io.numberofcorners + j]*2;
+      center = Vector2(center.x + point[0]/3, center.y + point[1]/3);
+    }
+    if (!polygon.contains(center)) continue;
+
+    std::copy_n(io.trianglelist + i*io.numberofcorners, io.numberofcorners,
+                io.trianglelist + count*io.numberofcorners);
+    ++count;
+  }
+  io.numberoftriangles = count;
+}
+
 /// Fills mesh with all data needed to render object correctly outside core library.
 void fillMesh(triangulateio *io, QuadKey quadKey, const BoundingBox &bbox, Mesh &mesh,
               const ElevationProvider &eleProvider,
@@ -120,13 +140,13 @@ void MeshBuilder::addPolygon(Mesh &mesh,
   triangulateio in, mid;
 
   in.numberofpoints = static_cast<int>(polygon.points.size()/2);
-  in.numberofholes = static_cast<int>(polygon.holes.size()/2);
+  in.numberofholes = 0;
   in.numberofpointattributes = 0;
   in.numberofregions = 0;
   in.numberofsegments = static_cast<int>(polygon.segments.size()/2);
 
   in.pointlist = polygon.points.data();
-  in.holelist = polygon.holes.data();
+  in.holelist = nullptr;
   in.segmentlist = polygon.segments.data();
   in.segmentmarkerlist = nullptr;
   in.pointmarkerlist = nullptr;
@@ -142,6 +162,8 @@ void MeshBuilder::addPolygon(Mesh &mesh,
     ::triangulate(const_cast<char *>("pzBQ"), &in, &mid, nullptr);
   }
 
+  removeOutside(polygon, mid);
+
   // do not refine mesh if area is not set.
   if (std::abs(geometryOptions.area) < std::numeric_limits<double>::epsilon()) {
     fillMesh(&mid, quadKey_, bbox_, mesh, eleProvider_, geometryOptions, appearanceOptions);
diff --git a/core/src/math/Polygon.hpp b/core/src/math/Polygon.hpp
index 9f7d71b..bc411d1 100644
--- a/core/src/math/Polygon.hpp
+++ b/core/src/math/Polygon.hpp
@@ -13,7 +13,6 @@ class Polygon final {
   typedef std::pair<std::size_t, std::size_t> Range;
 
   std::vector<double> points;
-  std::vector<double> holes;
   std::vector<int> segments;
 
   /// defines outer shape
@@ -25,7 +24,7 @@ class Polygon final {
 
   Polygon(std::size_t numberOfPoints, std::size_t numberOfHoles = 1) {
     points.reserve(numberOfPoints*2);
-    holes.reserve(numberOfHoles*2);
+    inners.reserve(numberOfHoles);
     segments.reserve(numberOfPoints*2);
   }
 
@@ -37,6 +36,17 @@ class Polygon final {
     addContour(hole, true);
   }
 
+  /// Checks whether point is covered using even-odd rule.
+  /// NOTE it is not always known which of touching contours are outer and which are inner ones.
+  bool contains(const Vector2 &point) const {
+    std::size_t depth = 0;
+    for (const auto &range : outers)
+      depth += isInside(point, range) ? 1 : 0;
+    for (const auto &range : inners)
+      depth += isInside(point, range) ? 1 : 0;
+    return depth%2==1;
+  }
+
  private:
   void addContour(const std::vector<Vector2> &contour, bool isHole) {
     auto count = contour.size();
@@ -47,13 +57,6 @@ class Polygon final {
     auto endIndex = startIndex + count*2;
 
     if (isHole) {
-      Vector2 pointInside;
-      if (!findPointInPolygon(contour, pointInside)) {
-        // TODO log error
-        return;
-      }
-      holes.push_back(pointInside.x);
-      holes.push_back(pointInside.y);
       inners.push_back(std::make_pair(startIndex, endIndex));
     } else {
       outers.push_back(std::make_pair(startIndex, endIndex));
@@ -70,67 +73,18 @@ class Polygon final {
     }
   }
 
-  /// Tries to find point in polygon.
-  static bool findPointInPolygon(const std::vector<Vector2> &contour, Vector2 &point) {
-    Rectangle bounds;
-    bounds.expand(contour);
-
-    auto length = contour.size();
-    int limit = 8;
-
-    Vector2 a, b; // Current edge.
-    if (contour.size()==3) {
-      point = Vector2((contour[0].x + contour[1].x + contour[2].x)/3,
-                      (contour[0].y + contour[1].y + contour[2].y)/3);
-      return true;
-    }
-
-    for (std::size_t i = 0; i < length; i++) {
-      a = contour[i];
-      b = contour[(i + 1)%length];
-
-      double cx = (a.x + b.x)/2;
-      double cy = (a.y + b.y)/2;
-
-      double dx = (b.y - a.y)/1.374;
-      double dy = (a.x - b.x)/1.374;
+  /// Checks whether contour goes around given point: winding number is not zero.
+  bool isInside(const Vector2 &point, const Range &range) const {
+    int winding = 0;
+    for (std::size_t i = range.first, j = range.second - 2; i < range.second; j = i, i += 2) {
+      bool isUp = points[j + 1] <= point.y;
+      if (isUp==(points[i + 1] <= point.y)) continue;
 
-      for (int j = 1; j <= limit; j++) {
-        // Search to the right of the segment.
-        point.x = cx + dx/j;
-        point.y = cy + dy/j;
-
-        if (bounds.contains(point) && isPointInPolygon(point, contour))
-          return true;
-
-        // Search on the other side of the segment.
-        point.x = cx - dx/j;
-        point.y = cy - dy/j;
-
-        if (bounds.contains(point) && isPointInPolygon(point, contour))
-          return true;
-      }
-    }
-
-    return false;
-  }
-
-  /// Checks whether point in polygon using ray casting algorithm
-  static bool isPointInPolygon(const Vector2 &point, const std::vector<Vector2> &poly) {
-    bool inside = false;
-    double x = point.x;
-    double y = point.y;
-    auto count = poly.size();
-
-    for (std::size_t i = 0, j = count - 1; i < count; i++) {
-      if (((poly[i].y < y && poly[j].y >= y) || (poly[j].y < y && poly[i].y >= y))
-          && (poly[i].x <= x || poly[j].x <= x)) {
-        inside ^= (poly[i].x + (y - poly[i].y)/(poly[j].y - poly[i].y)*(poly[j].x - poly[i].x) < x);
-      }
-      j = i;
+      double x = points[j] + (point.y - points[j + 1])/(points[i + 1] - points[j + 1])*(points[i] - points[j]);
+      if (point.x < x)
+        winding += isUp ? 1 : -1;
     }
-
-    return inside;
+    return winding!=0;
   }
 };
 
-- 
2.43.0


From 06654d0c427999349c5b566e0e6f467393d2ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:29 +0000
Subject: [PATCH 37/77] fix: walls of a region with its own mesh were put into
 the mesh of the tile

---
 core/src/builders/terrain/TerraGenerator.cpp | 16 +++++++++++++---
 core/src/builders/terrain/TerraGenerator.hpp |  4 +++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/core/src/builders/terrain/TerraGenerator.cpp b/core/src/builders/terrain/TerraGenerator.cpp
index e9dbe44..3981b31 100644
--- a/core/src/builders/terrain/TerraGenerator.cpp
+++ b/core/src/builders/terrain/TerraGenerator.cpp
@@ -44,6 +44,11 @@ void TerraGenerator::addGeometry(int level,
   for (std::size_t i = 0; i < geometry.size(); ++i)
     size += geometry[i].size()*1.5;
 
+  // NOTE region with its own mesh should not affect the shared one
+  const auto meshName = regionContext.style.getString(regionContext.prefix + StyleConsts::MeshNameKey());
+  Mesh ownMesh(meshName);
+  Mesh &heightOffsetMesh = meshName.empty() ? mesh_ : ownMesh;
+
   Polygon polygon(static_cast<std::size_t>(size));
   for (const IntPath &path : geometry) {
     double area = utymap::math::getArea(path);
@@ -60,14 +65,19 @@ void TerraGenerator::addGeometry(int level,
       polygon.addContour(points);
 
     if (hasHeightOffset)
-      buildHeightOffset(points, regionContext);
+      buildHeightOffset(heightOffsetMesh, points, regionContext);
+  }
+
+  if (!ownMesh.vertices.empty()) {
+    context_.meshBuilder.writeTextureMappingInfo(ownMesh, regionContext.appearanceOptions);
+    context_.meshCallback(ownMesh);
   }
 
   if (!polygon.points.empty())
     addGeometry(level, polygon, regionContext);
 }
 
-void TerraGenerator::buildHeightOffset(const std::vector<Vector2> &points, const RegionContext &regionContext) {
+void TerraGenerator::buildHeightOffset(Mesh &mesh, const std::vector<Vector2> &points, const RegionContext &regionContext) {
   // do not use elevation noise for height offset.
   auto newGeometryOptions = regionContext.geometryOptions;
   newGeometryOptions.eleNoiseFreq = 0;
@@ -79,7 +89,7 @@ void TerraGenerator::buildHeightOffset(const std::vector<Vector2> &points, const
     // check whether two points are on cell rect
     if (isOnBorder(p1) && isOnBorder(p2)) continue;
 
-    context_.meshBuilder.addPlane(mesh_, p1, p2, newGeometryOptions, regionContext.appearanceOptions);
+    context_.meshBuilder.addPlane(mesh, p1, p2, newGeometryOptions, regionContext.appearanceOptions);
   }
 }
 
diff --git a/core/src/builders/terrain/TerraGenerator.hpp b/core/src/builders/terrain/TerraGenerator.hpp
index 6f7e004..a2028c1 100644
--- a/core/src/builders/terrain/TerraGenerator.hpp
+++ b/core/src/builders/terrain/TerraGenerator.hpp
@@ -53,7 +53,9 @@ class TerraGenerator {
   inline bool isOnBorder(const utymap::math::Vector2 &p) const { return rect_.isOnBorder(p); }
 
   /// Builds height contour shape.
-  void buildHeightOffset(const std::vector<utymap::math::Vector2> &points, const RegionContext &regionContext);
+  void buildHeightOffset(utymap::math::Mesh &mesh,
+                         const std::vector<utymap::math::Vector2> &points,
+                         const RegionContext &regionContext);
 
   /// Restores geometry from clipper format.
   std::vector<utymap::math::Vector2> restoreGeometry(const utymap::math::IntPath &geometry) const;
-- 
2.43.0


From fee347827c6d087f2c2749c00f76690f4ef1dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:29 +0000
Subject: [PATCH 38/77] fix: grid points of an edge depended on its direction
 and moved its vertices

---
 .../src/builders/terrain/LineGridSplitter.hpp | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/core/src/builders/terrain/LineGridSplitter.hpp b/core/src/builders/terrain/LineGridSplitter.hpp
index 2cbf368..7fd10a4 100644
--- a/core/src/builders/terrain/LineGridSplitter.hpp
+++ b/core/src/builders/terrain/LineGridSplitter.hpp
@@ -46,8 +46,13 @@ class LineGridSplitter final {
   void split(const utymap::math::IntPoint &start,
              const utymap::math::IntPoint &end,
              Points &result) const {
-    Point s(start.X/scale_, start.Y/scale_);
-    Point e(end.X/scale_, end.Y/scale_);
+    // NOTE the same points should be found for both directions
+    bool isReversed = start.X==end.X ? start.Y > end.Y : start.X > end.X;
+    const auto &first = isReversed ? end : start;
+    const auto &last = isReversed ? start : end;
+
+    Point s(first.X/scale_, first.Y/scale_);
+    Point e(last.X/scale_, last.Y/scale_);
 
     Points points;
     points.reserve(2);
@@ -61,11 +66,25 @@ class LineGridSplitter final {
 
     points.push_back(e);
 
+    // NOTE vertex on grid line should be kept as it is: other line might have it too
+    for (auto &point : points) {
+      if (isSame(point, s)) point = s;
+      else if (isSame(point, e)) point = e;
+    }
+
+    if (isReversed)
+      std::reverse(points.begin(), points.end());
+
     mergeResults(points, result);
   }
 
  private:
 
+  static bool isSame(const Point &first, const Point &second) {
+    return std::abs(first.x - second.x) < std::numeric_limits<double>::epsilon() &&
+        std::abs(first.y - second.y) < std::numeric_limits<double>::epsilon();
+  }
+
   double ceil(double value) const {
     return std::ceil(value/step_)*step_;
   }
@@ -147,8 +166,7 @@ class LineGridSplitter final {
       Point candidate = points[i];
       if (result.size() > 0) {
         Point last = result[result.size() - 1];
-        if (std::abs(last.x - candidate.x) < std::numeric_limits<double>::epsilon() &&
-            std::abs(last.y - candidate.y) < std::numeric_limits<double>::epsilon())
+        if (isSame(last, candidate))
           continue;
       }
 
-- 
2.43.0


From 938e6fb8036032a3fba18d4546434e1e5e725945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:29 +0000
Subject: [PATCH 39/77] fix: triangulation of terrain crashed on edges which
 are the same except of rounding

---
 core/src/builders/terrain/TerraGenerator.cpp | 43 ++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/core/src/builders/terrain/TerraGenerator.cpp b/core/src/builders/terrain/TerraGenerator.cpp
index 3981b31..7cde549 100644
--- a/core/src/builders/terrain/TerraGenerator.cpp
+++ b/core/src/builders/terrain/TerraGenerator.cpp
@@ -9,6 +9,48 @@ namespace {
 const double AreaTolerance = 1000;
 /// Coordinate scale.
 const double Scale = 1E7;
+
+/// Adds vertices to the edges they touch: result of clipping has edges which are the same except of rounding,
+/// but triangle library is not able to process them.
+void addTouchVertices(IntPaths &geometry) {
+  IntPath vertices;
+  for (const IntPath &path : geometry)
+    vertices.insert(vertices.end(), path.begin(), path.end());
+  std::sort(vertices.begin(), vertices.end(), [](const IntPoint &a, const IntPoint &b) { return a.X < b.X; });
+
+  for (IntPath &path : geometry) {
+    IntPath result;
+    for (std::size_t i = 0; i < path.size(); ++i) {
+      const IntPoint start = path[i];
+      const IntPoint end = path[i==path.size() - 1 ? 0 : i + 1];
+      const double x = static_cast<double>(end.X - start.X);
+      const double y = static_cast<double>(end.Y - start.Y);
+      const double length = std::sqrt(x*x + y*y);
+
+      std::vector<std::pair<double, IntPoint>> touching;
+      auto vertex = std::lower_bound(vertices.begin(), vertices.end(), std::min(start.X, end.X) - 1,
+                                     [](const IntPoint &a, cInt value) { return a.X < value; });
+      for (; vertex!=vertices.end() && vertex->X <= std::max(start.X, end.X) + 1; ++vertex) {
+        const double dx = static_cast<double>(vertex->X - start.X);
+        const double dy = static_cast<double>(vertex->Y - start.Y);
+        const double along = dx*x + dy*y;
+        if (*vertex!=start && *vertex!=end && along > 0 && along < length*length &&
+            std::abs(dx*y - dy*x) <= length)
+          touching.push_back(std::make_pair(along, *vertex));
+      }
+      std::sort(touching.begin(), touching.end(),
+                [](const std::pair<double, IntPoint> &a, const std::pair<double, IntPoint> &b) {
+                  return a.first < b.first;
+                });
+
+      result.push_back(start);
+      for (const auto &pair : touching)
+        if (pair.second!=result.back())
+          result.push_back(pair.second);
+    }
+    path = std::move(result);
+  }
+}
 }
 
 TerraGenerator::TerraGenerator(const BuilderContext &context,
@@ -37,6 +79,7 @@ void TerraGenerator::addGeometry(int level,
                                  const std::function<void(const IntPath &)> &geometryVisitor) {
   utymap::math::simplifyPolygons(geometry);
   utymap::math::cleanPolygons(geometry);
+  addTouchVertices(geometry);
 
   bool hasHeightOffset = std::abs(regionContext.geometryOptions.heightOffset) > 0;
   // calculate approximate size of overall points
-- 
2.43.0


From 24b80877537de3ff19f5aa1b595607d4cb7653f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 40/77] fix: bounding rectangle was wrong for negative
 coordinates

---
 core/src/math/Rectangle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/math/Rectangle.hpp b/core/src/math/Rectangle.hpp
index 1550dd7..26fc82d 100644
--- a/core/src/math/Rectangle.hpp
+++ b/core/src/math/Rectangle.hpp
@@ -19,8 +19,8 @@ struct Rectangle final {
   Rectangle()
       : Rectangle(std::numeric_limits<double>::max(),
                   std::numeric_limits<double>::max(),
-                  std::numeric_limits<double>::min(),
-                  std::numeric_limits<double>::min()) {
+                  std::numeric_limits<double>::lowest(),
+                  std::numeric_limits<double>::lowest()) {
   }
 
   Rectangle(double xMin, double yMin, double xMax, double yMax) :
-- 
2.43.0


From c9339b52aba3b61c3fba0127e067c4215d010e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 41/77] fix: round roof was broken for shapes which have not
 four sides or are irregular

---
 .../buildings/roofs/RoundRoofBuilder.hpp      | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp b/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp
index 22a1c3c..43da2fb 100644
--- a/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp
@@ -45,6 +45,16 @@ class RoundRoofBuilder : public FlatRoofBuilder {
     if (!polygon.inners.empty())
       return false;
 
+    // NOTE only shapes with four sides are supported
+    for (const auto &range : polygon.outers) {
+      if (range.second - range.first!=8)
+        return false;
+      for (std::size_t i = range.first, j = range.second - 2; i < range.second; j = i, i += 2) {
+        if (polygon.points[i]==polygon.points[j] && polygon.points[i + 1]==polygon.points[j + 1])
+          return false;
+      }
+    }
+
     for (const auto range : polygon.outers) {
       // detect side with maximum length
       double maxSideLength = 0;
@@ -89,8 +99,8 @@ class RoundRoofBuilder : public FlatRoofBuilder {
     utymap::math::Vector2 u0(0, 0);
 
     // prepare data involved into rotation logic.
-    const auto direction2d = (p3 - p0).normalized();
-    const utymap::math::Vector3 direction(-direction2d.z, 0, direction2d.x);
+    const auto frontDirection = getRotationAxis(p0, p3);
+    const auto backDirection = getRotationAxis(p1, p2);
     // these points are rotation centers for front/back sides.
     const auto frontCenter = (p0 + p3)/2;
     const auto backCenter = (p1 + p2)/2;
@@ -101,17 +111,19 @@ class RoundRoofBuilder : public FlatRoofBuilder {
     const double frontRadius = utymap::math::Vector3::distance(p0, frontCenter);
     const double backRadius = utymap::math::Vector3::distance(p1, backCenter);
     // quaternions between which spherical interpolation should be done.
-    const auto q0 = utymap::math::Quaternion::fromAngleAxis(0, direction);
-    const auto q1 = utymap::math::Quaternion::fromAngleAxis(-pi, direction);
+    const auto frontQ0 = utymap::math::Quaternion::fromAngleAxis(0, frontDirection);
+    const auto frontQ1 = utymap::math::Quaternion::fromAngleAxis(-pi, frontDirection);
+    const auto backQ0 = utymap::math::Quaternion::fromAngleAxis(0, backDirection);
+    const auto backQ1 = utymap::math::Quaternion::fromAngleAxis(-pi, backDirection);
 
     for (int j = 0; j < RadialSegmentCount; j++) {
-      auto q0t = q0.slerp(q0, q1, j/static_cast<double>(RadialSegmentCount));
-      auto q1t = q1.slerp(q0, q1, (j + 1)/static_cast<double>(RadialSegmentCount));
+      const double t0 = j/static_cast<double>(RadialSegmentCount);
+      const double t1 = (j + 1)/static_cast<double>(RadialSegmentCount);
 
-      const auto front1 = restore(q0t*frontRot, frontRadius, frontCenter);
-      const auto front2 = restore(q1t*frontRot, frontRadius, frontCenter);
-      const auto back1 = restore(q0t*backRot, backRadius, backCenter);
-      const auto back2 = restore(q1t*backRot, backRadius, backCenter);
+      const auto front1 = restore(frontQ0.slerp(frontQ0, frontQ1, t0)*frontRot, frontRadius, frontCenter);
+      const auto front2 = restore(frontQ1.slerp(frontQ0, frontQ1, t1)*frontRot, frontRadius, frontCenter);
+      const auto back1 = restore(backQ0.slerp(backQ0, backQ1, t0)*backRot, backRadius, backCenter);
+      const auto back2 = restore(backQ1.slerp(backQ0, backQ1, t1)*backRot, backRadius, backCenter);
 
       addTriangle(frontCenter, front2, front1, u0, u0, u0);
       addTriangle(backCenter, back1, back2, u0, u0, u0);
@@ -121,6 +133,12 @@ class RoundRoofBuilder : public FlatRoofBuilder {
     }
   }
 
+  /// Gets axis around which start has to be rotated to get end.
+  static utymap::math::Vector3 getRotationAxis(const utymap::math::Vector3 &start, const utymap::math::Vector3 &end) {
+    const auto direction = (end - start).normalized();
+    return utymap::math::Vector3(-direction.z, 0, direction.x);
+  }
+
   std::size_t nextIndex(std::size_t current, std::size_t min, std::size_t max) const {
     return (current += 2) > max ? min : current;
   }
-- 
2.43.0


From 9197f206132e386a9c28e70fabe6716fca643ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 42/77] fix: mansard roof was attached to wrong corners

---
 .../buildings/roofs/MansardRoofBuilder.hpp    | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
index 2babcd0..11ea1f1 100644
--- a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
@@ -22,6 +22,11 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
   }
 
   void build(utymap::math::Polygon &polygon) override {
+    // NOTE algorithm below expects only one simple shape.
+    if (polygon.outers.size()!=1 || !polygon.inners.empty()) {
+      return FlatRoofBuilder::build(polygon);
+    }
+
     utymap::math::ClipperOffset offset;
     utymap::math::IntPath path;
     path.reserve(polygon.points.size()/2);
@@ -51,17 +56,18 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
       return FlatRoofBuilder::build(polygon);
     }
 
-    build(polygon, solution[0], findFirstIndex(solution[0][0], polygon));
+    build(polygon, solution[0]);
   }
 
  private:
 
   void build(const utymap::math::Polygon &polygon,
-             utymap::math::IntPath &offsetShape,
-             std::size_t index) {
+             utymap::math::IntPath &offsetShape) {
     if (!utymap::math::getOrientation(offsetShape))
       std::reverse(offsetShape.begin(), offsetShape.end());
 
+    auto index = findFirstIndex(offsetShape, polygon);
+
     // build top
     utymap::math::Polygon topShape(offsetShape.size(), 0);
     std::vector<utymap::math::Vector2> topShapeVertices;
@@ -115,17 +121,21 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
     }
   }
 
-  std::size_t findFirstIndex(const utymap::math::IntPoint &p,
+  /// Finds index of polygon point which corresponds to the first one of offset shape.
+  std::size_t findFirstIndex(const utymap::math::IntPath &offsetShape,
                              const utymap::math::Polygon &polygon) const {
-    utymap::math::Vector2 point(p.X/Scale, p.Y/Scale);
-
-    std::size_t index = 0, size = polygon.points.size()/2;
+    std::size_t index = 0, size = polygon.points.size();
     double minDistance = std::numeric_limits<double>::max();
 
     for (std::size_t i = 0; i < size; i += 2) {
-      double distance = utymap::math::Vector2::distance(point,
-                                                        utymap::math::Vector2(polygon.points[i],
-                                                                              polygon.points[i + 1]));
+      // NOTE the closest point of the polygon might be not the right one, so compare all of them.
+      double distance = 0;
+      for (std::size_t j = 0; j < offsetShape.size(); ++j) {
+        auto k = (i + 2*j)%size;
+        distance += utymap::math::Vector2::distance(
+            utymap::math::Vector2(offsetShape[j].X/Scale, offsetShape[j].Y/Scale),
+            utymap::math::Vector2(polygon.points[k], polygon.points[k + 1]));
+      }
       if (distance < minDistance) {
         minDistance = distance;
         index = i;
-- 
2.43.0


From 841dfa75f9f2635d707bc35b4d48bc28faa0dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 43/77] fix: skillion roof ignored holes and further parts of
 building

---
 core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp b/core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp
index 6187fed..190ec82 100644
--- a/core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp
@@ -48,6 +48,9 @@ class SkillionRoofBuilder : public FlatRoofBuilder {
 
   /// Tries to build skillion roof. So far we support only one simple polygon.
   bool buildSkillion(utymap::math::Polygon &polygon) const {
+    if (polygon.outers.size()!=1 || !polygon.inners.empty())
+      return false;
+
     // get direction vector
     const auto grad = utymap::utils::deg2Rad(direction_);
     const auto direction = utymap::math::Vector2(std::sin(grad), std::cos(grad)).normalized();
-- 
2.43.0


From 001c36795d8b8f77d13dc56af0b4100a9d6e6ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 44/77] fix: pyramidal roof covered holes of building

---
 .../builders/buildings/roofs/PyramidalRoofBuilder.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/src/builders/buildings/roofs/PyramidalRoofBuilder.hpp b/core/src/builders/buildings/roofs/PyramidalRoofBuilder.hpp
index 409a1ff..886d47c 100644
--- a/core/src/builders/buildings/roofs/PyramidalRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/PyramidalRoofBuilder.hpp
@@ -1,7 +1,7 @@
 #ifndef BUILDERS_BUILDINGS_FACADES_PYRAMIDALROOFBUILDER_HPP_DEFINED
 #define BUILDERS_BUILDINGS_FACADES_PYRAMIDALROOFBUILDER_HPP_DEFINED
 
-#include "builders/buildings/roofs/RoofBuilder.hpp"
+#include "builders/buildings/roofs/FlatRoofBuilder.hpp"
 #include "utils/GeometryUtils.hpp"
 #include "utils/GeoUtils.hpp"
 
@@ -9,14 +9,19 @@ namespace utymap {
 namespace builders {
 
 /// Builds flat roof in low poly.
-class PyramidalRoofBuilder final : public RoofBuilder {
+class PyramidalRoofBuilder final : public FlatRoofBuilder {
  public:
   PyramidalRoofBuilder(const utymap::builders::BuilderContext &builderContext,
                        utymap::builders::MeshContext &meshContext)
-      : RoofBuilder(builderContext, meshContext) {
+      : FlatRoofBuilder(builderContext, meshContext) {
   }
 
   void build(utymap::math::Polygon &polygon) override {
+    // NOTE pyramid covers holes too.
+    if (!polygon.inners.empty()) {
+      return FlatRoofBuilder::build(polygon);
+    }
+
     double scale = utymap::utils::GeoUtils::getScaled(builderContext_.boundingBox,
                                                       meshContext_.appearanceOptions.textureScale,
                                                       height_);
-- 
2.43.0


From d1f18fdfe32c7c19a41fb0f4266de0543bbd51f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 45/77] fix: more than one recursion of sphere subdivided the
 original faces

---
 core/src/builders/generators/IcoSphereGenerator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/builders/generators/IcoSphereGenerator.cpp b/core/src/builders/generators/IcoSphereGenerator.cpp
index 5bc10e3..5d46af1 100644
--- a/core/src/builders/generators/IcoSphereGenerator.cpp
+++ b/core/src/builders/generators/IcoSphereGenerator.cpp
@@ -91,11 +91,11 @@ void IcoSphereGenerator::generate() {
   const auto &faces = isSemiSphere_ ? getSemiSphereFaces() : getSphereFaces();
 
   // refine triangles
-  std::vector<TriangleIndices> meshFaces;
+  std::vector<TriangleIndices> meshFaces(faces);
   for (int i = 0; i < recursionLevel_; i++) {
     std::vector<TriangleIndices> faces2;
-    faces2.reserve(faces.size()*4);
-    for (const auto &tri : faces) {
+    faces2.reserve(meshFaces.size()*4);
+    for (const auto &tri : meshFaces) {
       // replace triangle by 4 triangles
       auto a = getMiddlePoint(tri.V1, tri.V2);
       auto b = getMiddlePoint(tri.V2, tri.V3);
-- 
2.43.0


From 57091ed35dee8c2abf0c07e561ac02052bb61870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 46/77] fix: pillars of barrier got elevation twice

---
 core/src/builders/misc/BarrierBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/builders/misc/BarrierBuilder.cpp b/core/src/builders/misc/BarrierBuilder.cpp
index 081898b..4cd891f 100644
--- a/core/src/builders/misc/BarrierBuilder.cpp
+++ b/core/src/builders/misc/BarrierBuilder.cpp
@@ -100,7 +100,8 @@ void BarrierBuilder::buildPillar(const T &element, Iterator begin, Iterator end,
   CylinderGenerator generator(context_, meshContext);
   generator
       .setCenter(Vector3(begin->longitude,
-                         context_.eleProvider.getElevation(context_.quadKey, *begin),
+                         // NOTE elevation of copies is added when they are placed
+                         size==1 ? context_.eleProvider.getElevation(context_.quadKey, *begin) : 0,
                          begin->latitude))
       .setSize(Vector3(radius.x, height, radius.z))
       .setMaxSegmentHeight(5)
-- 
2.43.0


From 6dee2f4d6f537804134e78dc6401973a82073a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 47/77] fix: barrier around area left out its last side

---
 core/src/builders/misc/BarrierBuilder.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/builders/misc/BarrierBuilder.cpp b/core/src/builders/misc/BarrierBuilder.cpp
index 4cd891f..9ed3480 100644
--- a/core/src/builders/misc/BarrierBuilder.cpp
+++ b/core/src/builders/misc/BarrierBuilder.cpp
@@ -30,7 +30,12 @@ void BarrierBuilder::visitWay(const Way &way) {
 }
 
 void BarrierBuilder::visitArea(const Area &area) {
-  build(area, area.coordinates.begin(), area.coordinates.end());
+  // NOTE area is surrounded by barrier completely.
+  auto coordinates = area.coordinates;
+  if (!coordinates.empty() && !(coordinates.front()==coordinates.back()))
+    coordinates.push_back(coordinates.front());
+
+  build(area, coordinates.begin(), coordinates.end());
 }
 
 void BarrierBuilder::visitRelation(const Relation &relation) {
-- 
2.43.0


From 02ce93fa71149df2c6555c3d3cb5332c06cf50d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 48/77] fix: wall over repeated point had invalid vertices

---
 core/src/builders/generators/WallGenerator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/builders/generators/WallGenerator.hpp b/core/src/builders/generators/WallGenerator.hpp
index 0a4be41..4fc5672 100644
--- a/core/src/builders/generators/WallGenerator.hpp
+++ b/core/src/builders/generators/WallGenerator.hpp
@@ -63,6 +63,7 @@ class WallGenerator : public AbstractGenerator {
     for (std::size_t i = 0; i < size; ++i) {
       const auto &p0 = *(begin_ + i);
       const auto &p1 = *(begin_ + i + 1);
+      if (p0==p1) continue;
 
       double distanceInMeters = utymap::utils::GeoUtils::distance(p0, p1);
       int count = std::max(static_cast<int>(distanceInMeters/fullLength), 1);
-- 
2.43.0


From 98bf53bf8210d77989e73e64212b34deeff6d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 49/77] fix: restored state of L-system kept look of the left
 one

---
 core/src/builders/generators/LSystemGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/builders/generators/LSystemGenerator.cpp b/core/src/builders/generators/LSystemGenerator.cpp
index 68c4ce0..ab29d5b 100644
--- a/core/src/builders/generators/LSystemGenerator.cpp
+++ b/core/src/builders/generators/LSystemGenerator.cpp
@@ -94,6 +94,11 @@ class DickTurtle : public Turtle3d {
     updateStyles();
   }
 
+  void restore() override {
+    Turtle3d::restore();
+    updateStyles();
+  }
+
  private:
   void addSphere() {
     icoSphereGenerator_
-- 
2.43.0


From a2a9acac705d694c11184d2ed0586672654b546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 50/77] fix: building without shape crashed

---
 .../builders/buildings/BuildingBuilder.cpp    | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/src/builders/buildings/BuildingBuilder.cpp b/core/src/builders/buildings/BuildingBuilder.cpp
index f780cd0..f950257 100644
--- a/core/src/builders/buildings/BuildingBuilder.cpp
+++ b/core/src/builders/buildings/BuildingBuilder.cpp
@@ -132,6 +132,17 @@ std::vector<Vector2> toPoints(const std::vector<GeoCoordinate> &coordinates) {
   return std::move(points);
 }
 
+/// Checks whether area has a shape: there are at least three different points one after another.
+bool hasShape(const Area &area) {
+  std::size_t count = 0;
+  for (std::size_t i = 0; i < area.coordinates.size(); ++i) {
+    const auto &next = area.coordinates[(i + 1)%area.coordinates.size()];
+    if (!(area.coordinates[i]==next))
+      ++count;
+  }
+  return count > 2;
+}
+
 /// NOTE this method exists due to special processing of all buildings parts of the
 /// one relation. In general, we want to have ability to render complex building
 /// as one game object. If area/relation is already part of relation then we
@@ -159,6 +170,9 @@ class MultiPolygonVisitor final : public ElementVisitor {
   }
 
   void visitArea(const Area &area) override {
+    if (!hasShape(area))
+      return;
+
     if (!utymap::utils::isClockwise(area.coordinates))
       polygon_.addContour(toPoints(area.coordinates));
     else
@@ -191,7 +205,7 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
     Style style = context_.styleProvider.forElement(area, context_.quadKey.levelOfDetail);
 
     // NOTE this might happen if relation contains not a building
-    if (!isBuilding(style))
+    if (!isBuilding(style) || !hasShape(area))
       return;
 
     bool justCreated = ensureContext(area);
@@ -257,6 +271,9 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
   }
 
   void build(const Element &element, const Style &style) {
+    if (polygon_->points.empty())
+      return;
+
     auto geoCoordinate = GeoCoordinate(polygon_->points[1], polygon_->points[0]);
 
     double height = style.getValue(StyleConsts::HeightKey());
-- 
2.43.0


From fc1a94efa35abdaa63fb03f5db29477fca657316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 51/77] fix: back side of triangle was made from wrong vertices

---
 core/src/builders/MeshBuilder.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index e081fcd..c698cbe 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -269,10 +269,9 @@ void MeshBuilder::addTriangle(Mesh &mesh,
   addVertex(mesh, v2, color, ++startIndex, uv2);
 
   if (geometryOptions.hasBackSide) {
-    // TODO check indices
-    addVertex(mesh, v2, color, startIndex, uv0);
+    addVertex(mesh, v2, color, ++startIndex, uv2);
     addVertex(mesh, v1, color, ++startIndex, uv1);
-    addVertex(mesh, v0, color, ++startIndex, uv2);
+    addVertex(mesh, v0, color, ++startIndex, uv0);
   }
 }
 
-- 
2.43.0


From 7ca52e3116a5804b716f59fa75a9f47c8d629a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 52/77] fix: exceptions on wrong level of details left exported
 functions

---
 core/shared/Search.hpp  |  2 +-
 core/shared/Storage.hpp | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/shared/Search.hpp b/core/shared/Search.hpp
index 6584be8..deba4df 100644
--- a/core/shared/Search.hpp
+++ b/core/shared/Search.hpp
@@ -30,9 +30,9 @@ public:
                      utymap::CancellationToken *cancellationToken) {
     utymap::BoundingBox bbox(utymap::GeoCoordinate(minLatitude, minLongitude),
                              utymap::GeoCoordinate(maxLatitude, maxLongitude));
-    utymap::LodRange lodRange(startLod, endLod);
     ExportElementVisitor elementVisitor(tag, context_.stringTable, elementCallback);
     ::safeExecute([&]() {
+      utymap::LodRange lodRange(startLod, endLod);
       context_.geoStore.search(notTerms, andTerms, orTerms, bbox, lodRange, elementVisitor, *cancellationToken);
     }, errorCallback);
   }
diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index 750c241..04f6b50 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -36,8 +36,8 @@ public:
                   utymap::CancellationToken *cancelToken) {
     utymap::BoundingBox bbox(utymap::GeoCoordinate(minLat, minLon),
                              utymap::GeoCoordinate(maxLat, maxLon));
-    utymap::LodRange lodRange(startLod, endLod);
     ::safeExecute([&]() {
+      utymap::LodRange lodRange(startLod, endLod);
       context_.geoStore.add(key, path, bbox, lodRange, context_.getStyleProvider(styleFile), *cancelToken);
     }, errorCallback);
   }
@@ -50,8 +50,8 @@ public:
                   int endLod,                // end zoom level
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancelToken) {
-    utymap::LodRange lodRange(startLod, endLod);
     ::safeExecute([&]() {
+      utymap::LodRange lodRange(startLod, endLod);
       context_.geoStore.add(key, path, lodRange, context_.getStyleProvider(styleFile), *cancelToken);
     }, errorCallback);
   }
@@ -69,7 +69,6 @@ public:
                   int endLod,                // end zoom level
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancellationToken) {
-    utymap::LodRange lod(startLod, endLod);
     std::vector<utymap::entities::Tag> elementTags;
     elementTags.reserve(static_cast<std::size_t>(tagLength / 2));
     for (std::size_t i = 0; i < tagLength; i += 2) {
@@ -84,7 +83,7 @@ public:
       node.id = id;
       node.tags = elementTags;
       node.coordinate = utymap::GeoCoordinate(vertices[0], vertices[1]);
-      addToStore(key, styleFile, node, lod, errorCallback, cancellationToken);
+      addToStore(key, styleFile, node, startLod, endLod, errorCallback, cancellationToken);
       return;
     }
 
@@ -100,14 +99,14 @@ public:
       area.id = id;
       area.coordinates = coordinates;
       area.tags = elementTags;
-      addToStore(key, styleFile, area, lod, errorCallback, cancellationToken);
+      addToStore(key, styleFile, area, startLod, endLod, errorCallback, cancellationToken);
     }
     else {
       utymap::entities::Way way;
       way.id = id;
       way.coordinates = coordinates;
       way.tags = elementTags;
-      addToStore(key, styleFile, way, lod, errorCallback, cancellationToken);
+      addToStore(key, styleFile, way, startLod, endLod, errorCallback, cancellationToken);
     }
   }
 
@@ -121,10 +120,12 @@ private:
   void addToStore(const char *key,
                   const char *styleFile,
                   const utymap::entities::Element &element,
-                  const utymap::LodRange &range,
+                  int startLod,
+                  int endLod,
                   OnError *errorCallback,
                   utymap::CancellationToken *cancelToken) {
     safeExecute([&]() {
+      utymap::LodRange range(startLod, endLod);
       context_.geoStore.add(key, element, range, context_.getStyleProvider(styleFile), *cancelToken);
     }, errorCallback);
   }
-- 
2.43.0


From d32c1259457640cc046c43ae4a8b39330c4621a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 53/77] fix: second disconnect released application again

---
 core/shared/ExportLib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/shared/ExportLib.cpp b/core/shared/ExportLib.cpp
index ded0428..52ed448 100644
--- a/core/shared/ExportLib.cpp
+++ b/core/shared/ExportLib.cpp
@@ -18,6 +18,7 @@ extern "C"
 /************* Lifecycle API *****************/
 void EXPORT_API disconnect() {
   delete applicationPtr;
+  applicationPtr = nullptr;
 }
 
 void EXPORT_API connect(const char *indexPath, OnError *errorCallback) {
-- 
2.43.0


From 807827fa477ab39f5f96c6c92c8d7f24d19c16a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 54/77] fix: tags of added element were not sorted

---
 core/shared/Storage.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index 04f6b50..4d3f71c 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -1,6 +1,8 @@
 #ifndef STORAGE_HPP_DEFINED
 #define STORAGE_HPP_DEFINED
 
+#include <algorithm>
+
 /// Wraps Storage API.
 class Storage {
 public:
@@ -76,6 +78,8 @@ public:
       auto valueId = getStringId(tags[i + 1]);
       elementTags.push_back(utymap::entities::Tag(keyId, valueId));
     }
+    // NOTE tags are looked up by binary search.
+    std::sort(elementTags.begin(), elementTags.end());
 
     // Node
     if (vertexLength / 2 == 1) {
-- 
2.43.0


From 750c201a6628332b779e5553851a30b27c8f796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 55/77] fix: xml document without nodes and bounds was rejected

---
 core/src/formats/osm/xml/OsmXmlParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/formats/osm/xml/OsmXmlParser.cpp b/core/src/formats/osm/xml/OsmXmlParser.cpp
index 4a9f9c5..247e741 100644
--- a/core/src/formats/osm/xml/OsmXmlParser.cpp
+++ b/core/src/formats/osm/xml/OsmXmlParser.cpp
@@ -266,7 +266,7 @@ struct OsmGrammar : qi::grammar < Iterator, int(), AttributeSkipper<Iterator> >
     osm =
       ascii::string("<?") > *(qi::char_ - '>') > '>' >
       "<osm" > '>' >
-          -(qi::lexeme[+(qi::char_ - (ascii::string("<node") | "<bounds"))]) >
+          -(qi::lexeme[+(qi::char_ - (ascii::string("<node") | "<bounds" | "<way" | "<relation" | "</osm>"))]) >
           -qi::omit[bounds[boost::bind(&OsmGrammar::onBounds, this, _1)]] >
           *qi::omit[node[boost::bind(&OsmGrammar::onNode, this, _1)]] >
           *qi::omit[way[boost::bind(&OsmGrammar::onWay, this, _1)]] >
-- 
2.43.0


From 471d839039725dd71c437073f4f0f1b1b7e5c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 56/77] fix: search by text ignored cancellation token

---
 core/src/index/InMemoryElementStore.cpp   | 2 +-
 core/src/index/PersistentElementStore.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/index/InMemoryElementStore.cpp b/core/src/index/InMemoryElementStore.cpp
index e804289..c03a9ec 100644
--- a/core/src/index/InMemoryElementStore.cpp
+++ b/core/src/index/InMemoryElementStore.cpp
@@ -90,7 +90,7 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
-      return ElementGeometryVisitor::intersects(element, query.boundingBox);
+      return !cancelToken.isCancelled() && ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
     stringIndex_.search(query, filter);
   }
diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index b32935e..11f4ff4 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -141,7 +141,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
-      return ElementGeometryVisitor::intersects(element, query.boundingBox);
+      return !cancelToken.isCancelled() && ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
     BitmapIndex::search(query, filter);
   }
-- 
2.43.0


From ce72c2344d1002490ad653964e6dcdd46c5a39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 57/77] fix: in memory store was not thread safe

---
 core/src/index/InMemoryElementStore.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/core/src/index/InMemoryElementStore.cpp b/core/src/index/InMemoryElementStore.cpp
index c03a9ec..95e50b6 100644
--- a/core/src/index/InMemoryElementStore.cpp
+++ b/core/src/index/InMemoryElementStore.cpp
@@ -7,6 +7,8 @@
 #include "index/InMemoryElementStore.hpp"
 #include "index/BitmapIndex.hpp"
 
+#include <mutex>
+
 using namespace utymap;
 using namespace utymap::index;
 using namespace utymap::entities;
@@ -92,28 +94,37 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
       return !cancelToken.isCancelled() && ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     stringIndex_.search(query, filter);
   }
 
   void search(const utymap::QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
-    auto it = begin(quadKey);
-    // No elements for this quad key
-    if (it == end())
-      return;
+    Elements elements;
+    {
+      std::lock_guard<std::recursive_mutex> lock(lock_);
+      auto it = begin(quadKey);
+      // No elements for this quad key
+      if (it == end())
+        return;
+      // NOTE elements might be added while these ones are visited
+      elements = it->second;
+    }
 
-    for (const auto &element : it->second) {
+    for (const auto &element : elements) {
       if (cancelToken.isCancelled()) break;
       element->accept(visitor);
     }
   }
 
   bool hasData(const utymap::QuadKey &quadKey) const {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     return elementsMap_.find(quadKey)!=elementsMap_.end();
   }
 
   void store(const utymap::entities::Element &element, const QuadKey &quadKey) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     auto &elements = elementsMap_[quadKey];
 
     stringIndex_.add(element, quadKey, static_cast<std::uint32_t>(elements.size()));
@@ -122,6 +133,7 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   }
 
   void erase(const utymap::QuadKey &quadKey) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     elementsMap_.erase(quadKey);
     stringIndex_.erase(quadKey);
   }
@@ -142,6 +154,7 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   const StringTable &stringTable_;
   ElementMap elementsMap_;
   InMemoryStringIndex stringIndex_;
+  mutable std::recursive_mutex lock_;
 };
 
 InMemoryElementStore::InMemoryElementStore(const StringTable &stringTable) :
-- 
2.43.0


From 32dcb97d169cb3e0d875202dfe6f37440691e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 58/77] fix: persistent store was not thread safe

---
 core/src/index/PersistentElementStore.cpp | 28 ++++++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 11f4ff4..7e933ee 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -55,7 +55,6 @@ struct QuadKeyData {
 
   BitmapData& getBitmap() const {
     if (bitmapData_->data.empty()) {
-      // TODO not thread safe!
       std::fstream bitmapFile;
       bitmapFile.open(bitmapData_->path, std::ios::in | std::ios::binary);
       BitmapStream::read(bitmapFile, bitmapData_->data);
@@ -104,7 +103,6 @@ private:
 
 using Cache = utymap::utils::LruCache<QuadKey, QuadKeyData, QuadKey::Comparator>;
 
-// TODO improve thread safety!
 class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
  public:
   PersistentElementStoreImpl(const std::string &dataPath,
@@ -115,6 +113,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     cache_(12) {}
 
   void store(const Element &element, const QuadKey &quadKey) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     const auto &quadKeyData = getQuadKeyData(quadKey);
     // NOTE searches leave the positions anywhere in the files
     quadKeyData->dataFile->seekg(0, std::ios::end);
@@ -143,12 +142,28 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
       return !cancelToken.isCancelled() && ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     BitmapIndex::search(query, filter);
   }
 
   void search(const QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
+    // NOTE files are shared: elements are visited when everything is read
+    std::vector<std::unique_ptr<Element>> elements;
+    read(quadKey, elements, cancelToken);
+
+    for (const auto &element : elements) {
+      if (cancelToken.isCancelled()) break;
+      element->accept(visitor);
+    }
+  }
+
+  void read(const QuadKey &quadKey,
+            std::vector<std::unique_ptr<Element>> &elements,
+            const utymap::CancellationToken &cancelToken) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
+
     // NOTE do not create files for quad key which was never stored
     if (!hasData(quadKey)) return;
 
@@ -164,7 +179,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
       auto entry = readIndexEntry(*quadKeyData);
       quadKeyData->dataFile->seekg(std::get<1>(entry), std::ios::beg);
 
-      ElementStream::read(*quadKeyData->dataFile, std::get<0>(entry ))->accept(visitor);
+      elements.push_back(ElementStream::read(*quadKeyData->dataFile, std::get<0>(entry )));
     }
   }
 
@@ -176,7 +191,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void erase(const utymap::QuadKey &quadKey) override {
     auto quadKeyData = getQuadKeyData(quadKey);
     {
-      std::lock_guard<std::mutex> lock(lock_);
+      std::lock_guard<std::recursive_mutex> lock(lock_);
       quadKeyData->erase();
       cache_.clear();
     }
@@ -187,6 +202,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   void flush() {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     cache_.clear();
   }
 
@@ -211,7 +227,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
  private:
   /// Gets quad key data.
   std::shared_ptr<QuadKeyData> getQuadKeyData(const QuadKey& quadKey) {
-    std::lock_guard<std::mutex> lock(lock_);
+    std::lock_guard<std::recursive_mutex> lock(lock_);
 
     if (cache_.exists(quadKey))
       return cache_.get(quadKey);
@@ -241,7 +257,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   const std::string dataPath_;
-  std::mutex lock_;
+  std::recursive_mutex lock_;
   utymap::utils::LruCache<QuadKey, QuadKeyData, QuadKey::Comparator> cache_;
 };
 
-- 
2.43.0


From 99408a3b39d5082d7aaa5b9f30c0f32495f6cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 59/77] fix: style providers were created without lock

---
 core/shared/Application.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/shared/Application.hpp b/core/shared/Application.hpp
index 7e36fd6..23ae179 100644
--- a/core/shared/Application.hpp
+++ b/core/shared/Application.hpp
@@ -11,6 +11,8 @@
 #include "heightmap/SrtmElevationProvider.hpp"
 #include "mapcss/MapCssParser.hpp"
 
+#include <mutex>
+
 /// Composes object graph and exposes functionality as API.
 class Application {
  public:
@@ -41,6 +43,7 @@ class Application {
  private:
   /// Gets registered style provider by its style path.
   const utymap::mapcss::StyleProvider &getStyleProvider(const std::string &stylePath) {
+    std::lock_guard<std::mutex> lock(styleLock_);
     auto pair = styleProviders_.find(stylePath);
     if (pair != styleProviders_.end())
       return *pair->second;
@@ -77,6 +80,8 @@ class Application {
   utymap::heightmap::GridElevationProvider gridEleProvider_;
   std::unordered_map<std::string, std::unique_ptr<const utymap::mapcss::StyleProvider>> styleProviders_;
 
+  std::mutex styleLock_;
+
   Configuration configuration_;
   Search search_;
   Storage storage_;
-- 
2.43.0


From 9c92f2f68158c95d1996bf1410d5ccea0d947768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 60/77] fix: range tree gave wrong ends

---
 .../Infrastructure/Primitives/RangeTree.cs    | 44 ++++++++++++++-----
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
index 274119e..3e5c69e 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
@@ -62,7 +62,13 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         /// </summary>
         public TKey Max
         {
-            get { return _root.Max; }
+            get
+            {
+                if (!_isInSync && _autoRebuild)
+                    Rebuild();
+
+                return _root.Max;
+            }
         }
 
         /// <summary>
@@ -70,7 +76,13 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         /// </summary>
         public TKey Min
         {
-            get { return _root.Min; }
+            get
+            {
+                if (!_isInSync && _autoRebuild)
+                    Rebuild();
+
+                return _root.Min;
+            }
         }
 
         /// <summary>
@@ -292,11 +304,15 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         {
             get
             {
-                if (_rightNode != null)
-                    return _rightNode.Max;
-                if (_items != null)
-                    return _items.Max(i => i.To);
-                return default(TKey);
+                if (_items == null)
+                    return _rightNode != null ? _rightNode.Max : default(TKey);
+
+                // items of the node might reach further than ones on the right side
+                var max = _rightNode != null ? _rightNode.Max : _items[0].To;
+                foreach (var item in _items)
+                    if (_comparer.Compare(item.To, max) > 0)
+                        max = item.To;
+                return max;
             }
         }
 
@@ -304,11 +320,15 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         {
             get
             {
-                if (_leftNode != null)
-                    return _leftNode.Min;
-                if (_items != null)
-                    return _items.Min(i => i.From);
-                return default(TKey);
+                if (_items == null)
+                    return _leftNode != null ? _leftNode.Min : default(TKey);
+
+                // items of the node might start before ones on the left side
+                var min = _leftNode != null ? _leftNode.Min : _items[0].From;
+                foreach (var item in _items)
+                    if (_comparer.Compare(item.From, min) < 0)
+                        min = item.From;
+                return min;
             }
         }
 
-- 
2.43.0


From 941617d9cfd544cbd54263d8a438564e49b0812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 61/77] fix: range tree took reversed ranges when comparer
 gives more than one

---
 .../library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
index 3e5c69e..f87ed06 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
@@ -192,7 +192,7 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         /// </summary>
         public void Add(TKey from, TKey to, TValue value)
         {
-            if (_comparer.Compare(from, to) == 1)
+            if (_comparer.Compare(from, to) > 0)
                 throw new ArgumentOutOfRangeException();
 
             _isInSync = false;
-- 
2.43.0


From eaf611895ae711023cdeccfec480347678ff82e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 62/77] fix: composite animation never told that it is finished

---
 unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs b/unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs
index 3508654..5ab4453 100644
--- a/unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs
+++ b/unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs
@@ -26,6 +26,8 @@ namespace UtyMap.Unity.Animations
         {
             foreach (var animation in _animations)
                 animation.Stop();
+
+            base.OnStopped(e);
         }
 
         /// <inheritdoc />
-- 
2.43.0


From 08fdf4d9d0fe526c26747318ee07f78e22b6cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 63/77] fix: transform animation didn't reach its end

---
 unity/library/UtyMap.Unity/Animations/TransformAnimation.cs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unity/library/UtyMap.Unity/Animations/TransformAnimation.cs b/unity/library/UtyMap.Unity/Animations/TransformAnimation.cs
index e3ef70e..7da58ae 100644
--- a/unity/library/UtyMap.Unity/Animations/TransformAnimation.cs
+++ b/unity/library/UtyMap.Unity/Animations/TransformAnimation.cs
@@ -50,6 +50,7 @@ namespace UtyMap.Unity.Animations
                     _time = 0;
                 else
                 {
+                    UpdateTransform(_transform, _timeInterpolator.GetTime(1));
                     Stop();
                     return;
                 }
-- 
2.43.0


From 008fedaf3d83ba53c172255c53ab88dbf1ddbd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 64/77] fix: set was enumerated without lock

---
 .../Infrastructure/Primitives/SafeHashSet.cs          | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Infrastructure/Primitives/SafeHashSet.cs b/unity/library/UtyMap.Unity/Infrastructure/Primitives/SafeHashSet.cs
index 4faff98..27a7dd5 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Primitives/SafeHashSet.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Primitives/SafeHashSet.cs
@@ -29,7 +29,16 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         /// <inheritdoc />
         public IEnumerator<T> GetEnumerator()
         {
-            return _hashSet.GetEnumerator();
+            try
+            {
+                _lock.EnterReadLock();
+                // NOTE set might be changed while its items are enumerated
+                return new List<T>(_hashSet).GetEnumerator();
+            }
+            finally
+            {
+                if (_lock.IsReadLockHeld) _lock.ExitReadLock();
+            }
         }
 
         /// <inheritdoc />
-- 
2.43.0


From 78967fbc2d794b592e3f41afe8bf33c45c5fb808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 65/77] fix: element registered while tile is disposed stayed
 registered

---
 unity/library/UtyMap.Unity/Tile.cs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Tile.cs b/unity/library/UtyMap.Unity/Tile.cs
index e6a0e1f..2faf646 100644
--- a/unity/library/UtyMap.Unity/Tile.cs
+++ b/unity/library/UtyMap.Unity/Tile.cs
@@ -74,11 +74,14 @@ namespace UtyMap.Unity
         /// </remarks>
         public void Register(long id)
         {
-            if (IsDisposed)
-                return;
+            lock (_localIds)
+            {
+                if (IsDisposed)
+                    return;
 
-            _localIds.Add(id);
-            GlobalIds.Add(id);
+                _localIds.Add(id);
+                GlobalIds.Add(id);
+            }
         }
 
         /// <inheritdoc />
@@ -94,12 +97,16 @@ namespace UtyMap.Unity
         {
             // notify native code.
             CancelationToken.SetCancelled(true);
-            IsDisposed = true;
 
-            // remove all registered ids from global list if they are in current registry
-            foreach (var id in _localIds)
-                GlobalIds.Remove(id);
-            _localIds.Clear();
+            lock (_localIds)
+            {
+                IsDisposed = true;
+
+                // remove all registered ids from global list if they are in current registry
+                foreach (var id in _localIds)
+                    GlobalIds.Remove(id);
+                _localIds.Clear();
+            }
 
             if (GameObject != null)
             {
-- 
2.43.0


From 29956b01fbf3d210d4ec71e1daceb2c5a6c70bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 66/77] fix: tile observers were not told about tiles whose
 data had to be imported

---
 unity/library/UtyMap.Unity/Data/MapDataStore.cs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataStore.cs b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
index 2b1fad6..4bc9f88 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataStore.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
@@ -63,16 +63,22 @@ namespace UtyMap.Unity.Data
                 {
                     // We have map data in store.
                     if (String.IsNullOrEmpty(value.Item2))
-                        _mapDataLibrary
-                            .Get(value.Item1, _dataObservers)
-                            .Subscribe(_ => _tileObservers.ForEach(t => t.OnNext(value.Item1)));
+                        Load(value.Item1);
                     else
                         // NOTE store data in the first registered store
                         AddTo(_storageKeys.First(), value.Item2, value.Item1.Stylesheet, value.Item1.QuadKey, value.Item1.CancelationToken)
-                            .Subscribe(progress => { }, () => _mapDataLibrary.Get(value.Item1, _dataObservers));
+                            .Subscribe(progress => { }, () => Load(value.Item1));
                 });
         }
 
+        /// <summary> Loads tile data and notifies tile observers once it is done. </summary>
+        private void Load(Tile tile)
+        {
+            _mapDataLibrary
+                .Get(tile, _dataObservers)
+                .Subscribe(_ => _tileObservers.ForEach(t => t.OnNext(tile)));
+        }
+
         #region Interface implementations
 
         /// <inheritdoc />
-- 
2.43.0


From d852de0101e79be64941ea6a1f46174eef28e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 67/77] fix: srtm cell was named wrongly next to the equator
 and the meridian, file had no extension

---
 .../Providers/Elevation/SrtmElevationDataProvider.cs     | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
index fe22b65..931c44e 100644
--- a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
@@ -79,7 +79,7 @@ namespace UtyMap.Unity.Data.Providers.Elevation
         protected override string GetFilePath(QuadKey quadKey)
         {
             var prefix = GetFileNamePrefix(GeoUtils.QuadKeyToBoundingBox(quadKey).Center());
-            return Path.Combine(_elePath, prefix);
+            return Path.Combine(_elePath, prefix + ".hgt");
         }
 
         /// <inheritdoc />
@@ -92,9 +92,12 @@ namespace UtyMap.Unity.Data.Providers.Elevation
 
         private string GetFileNamePrefix(GeoCoordinate coordinate)
         {
+            // NOTE cell is named by its south west corner
+            var latitude = (int) Math.Floor(coordinate.Latitude);
+            var longitude = (int) Math.Floor(coordinate.Longitude);
             return String.Format("{0}{1:00}{2}{3:000}",
-                coordinate.Latitude > 0 ? 'N' : 'S', Math.Abs((int)coordinate.Latitude),
-                coordinate.Longitude > 0 ? 'E' : 'W', Math.Abs((int)coordinate.Longitude));
+                latitude < 0 ? 'S' : 'N', Math.Abs(latitude),
+                longitude < 0 ? 'W' : 'E', Math.Abs(longitude));
         }
     }
 }
-- 
2.43.0


From 954e68e4ae5fc789fb36c5acf2e53711171a2714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 68/77] fix: srtm archive was not requested when its name
 misses a dot

---
 .../Data/Providers/Elevation/SrtmElevationDataProvider.cs       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
index 931c44e..659cb86 100644
--- a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
@@ -66,7 +66,7 @@ namespace UtyMap.Unity.Data.Providers.Elevation
                     var parameters = line.Split(' ');
                     // NOTE some of files miss extension point between name and .hgt.zip
                     return String.Format("{0}/{1}/{2}", _server, ContinentMap[int.Parse(parameters[1])],
-                        parameters[1].EndsWith("zip") ? "" : parameters[0] + ".hgt.zip");
+                        parameters[0].EndsWith("zip") ? parameters[0] : parameters[0] + ".hgt.zip");
                 }
             }
 
-- 
2.43.0


From eeb00c6d469b670fbb4183643967d17c95f500dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 69/77] fix: backslash in polyline was not escaped in json

---
 .../Data/Providers/Elevation/MapzenElevationDataProvider.cs     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs b/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs
index 806ed72..347b0bc 100644
--- a/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs
@@ -63,7 +63,7 @@ namespace UtyMap.Unity.Data.Providers.Elevation
         private string GetJsonPayload(QuadKey quadkey)
         {
             return String.Format("{{\"range\":false,\"encoded_polyline\":\"{0}\"}}",
-                EncodePolyline(CreatePolyline(quadkey)));
+                EncodePolyline(CreatePolyline(quadkey)).Replace("\\", "\\\\"));
         }
 
         private IEnumerable<GeoCoordinate> CreatePolyline(QuadKey quadkey)
-- 
2.43.0


From 538652efe722b9936d05b632bcbc6020fd757d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 70/77] fix: failed download left an empty file or an unhandled
 exception

---
 .../UtyMap.Unity/Data/MapDataProvider.cs      | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
index f2be3bf..2aa95bd 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
@@ -130,12 +130,34 @@ namespace UtyMap.Unity.Data
                     var filePath = GetFilePath(value.QuadKey);
                     lock (_lockObj)
                     {
-                        if (!_fileSystemService.Exists(filePath))
-                            using (var stream = _fileSystemService.WriteStream(filePath))
-                                WriteBytes(stream, bytes);
+                        if (!_fileSystemService.Exists(filePath) && !SaveBytes(filePath, bytes, uri))
+                            return;
                     }
                     Notify(new Tuple<Tile, string>(value, filePath));
-                });
+                }, ex => _trace.Error(TraceCategory, ex, "cannot download {0}", uri));
+        }
+
+        /// <summary> Creates file with data once it is known that the data can be processed. </summary>
+        private bool SaveBytes(string filePath, byte[] bytes, string uri)
+        {
+            byte[] content;
+            try
+            {
+                using (var memory = new MemoryStream())
+                {
+                    WriteBytes(memory, bytes);
+                    content = memory.ToArray();
+                }
+            }
+            catch (Exception ex)
+            {
+                _trace.Error(TraceCategory, ex, "cannot process data from {0}", uri);
+                return false;
+            }
+
+            using (var stream = _fileSystemService.WriteStream(filePath))
+                stream.Write(content, 0, content.Length);
+            return true;
         }
     }
 }
-- 
2.43.0


From d007bb18a1f1bef6c38cf37eb57a479c0dd74967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 71/77] fix: query cancellation token was ignored by map data
 store

---
 unity/library/UtyMap.Unity/Data/MapDataLibrary.cs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index 52d0ace..23807b8 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -270,7 +270,7 @@ namespace UtyMap.Unity.Data
         private IObservable<int> Get(MapQuery query, int tag, OnElementLoaded elementLoadedHandler, OnError errorHandler)
         {
             _trace.Debug(TraceCategory, "Search elements");
-            WithCancelToken(new CancellationToken(), (cancelTokenHandle) => getDataByText(
+            WithCancelToken(query.CancelToken, (cancelTokenHandle) => getDataByText(
                 tag, query.NotTerms, query.AndTerms, query.OrTerms,
                 query.BoundingBox.MinPoint.Latitude, query.BoundingBox.MinPoint.Longitude,
                 query.BoundingBox.MaxPoint.Latitude, query.BoundingBox.MaxPoint.Longitude,
-- 
2.43.0


From 5bce0025393bb27c3d2ae1b3e57efc8f0dcb5254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 72/77] fix: exception of a listener unwound through native
 code and left the store locked

---
 .../UtyMap.Unity/Data/MapDataLibrary.cs       | 114 +++++++++++++-----
 1 file changed, 83 insertions(+), 31 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index 23807b8..22d9e6d 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -117,15 +117,17 @@ namespace UtyMap.Unity.Data
         /// <inheritdoc />
         public IObservable<int> Get(Tile tile, IList<IObserver<MapData>> observers)
         {
-            var tileHandler = new TileHandler(tile, observers);
-            return Get(tile, tile.GetHashCode(), tileHandler.OnMeshBuiltHandler, tileHandler.OnElementLoadedHandler, OnErrorHandler);
+            var guard = new CallbackGuard();
+            var tileHandler = new TileHandler(tile, observers, guard);
+            return Get(tile, tile.GetHashCode(), tileHandler.OnMeshBuiltHandler, tileHandler.OnElementLoadedHandler, guard);
         }
 
         /// <inheritdoc />
         public IObservable<int> Get(MapQuery query, IList<IObserver<Element>> observers)
         {
-            var queryHandler = new QueryHandler(observers);
-            return Get(query, 0, queryHandler.OnElementLoadedHandler, OnErrorHandler);
+            var guard = new CallbackGuard();
+            var queryHandler = new QueryHandler(observers, guard);
+            return Get(query, 0, queryHandler.OnElementLoadedHandler, guard);
         }
 
         /// <inheritdoc />
@@ -145,7 +147,9 @@ namespace UtyMap.Unity.Data
                 // create directory for downloaded raw map data.
                 CreateDirectory(Path.Combine(indexPath, "import"));
 
-                connect(indexPath, OnErrorHandler);
+                var guard = new CallbackGuard();
+                connect(indexPath, guard.OnErrorHandler);
+                guard.ThrowIfFailed();
                 _isConfigured = true;
             }
         }
@@ -188,9 +192,10 @@ namespace UtyMap.Unity.Data
             _trace.Debug(TraceCategory, "Add data from {0} to {1} storage", dataPath, storageKey);
             lock (__lockObj)
             {
-                WithCancelToken(cancellationToken, (cancelTokenHandle) => addDataInRange(
+                var guard = new CallbackGuard();
+                WithCancelToken(cancellationToken, guard, (cancelTokenHandle) => addDataInRange(
                     storageKey, stylePath, dataPath, levelOfDetails.Minimum,
-                    levelOfDetails.Maximum, OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
+                    levelOfDetails.Maximum, guard.OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
             }
             return Observable.Return<int>(100);
         }
@@ -203,9 +208,10 @@ namespace UtyMap.Unity.Data
             _trace.Debug(TraceCategory, "Add data from {0} to {1} storage", dataPath, storageKey);
             lock (__lockObj)
             {
-                WithCancelToken(cancellationToken, (cancelTokenHandle) => addDataInQuadKey(
+                var guard = new CallbackGuard();
+                WithCancelToken(cancellationToken, guard, (cancelTokenHandle) => addDataInQuadKey(
                     storageKey, stylePath, dataPath, quadKey.TileX, quadKey.TileY,
-                    quadKey.LevelOfDetail, OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
+                    quadKey.LevelOfDetail, guard.OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
             }
             return Observable.Return<int>(100);
         }
@@ -233,9 +239,10 @@ namespace UtyMap.Unity.Data
 
             lock (__lockObj)
             {
-                WithCancelToken(cancellationToken, (cancelTokenHandle) => addDataInElement(
+                var guard = new CallbackGuard();
+                WithCancelToken(cancellationToken, guard, (cancelTokenHandle) => addDataInElement(
                     storageKey, stylePath, element.Id, coordinates, coordinates.Length, tags, tags.Length,
-                    levelOfDetails.Minimum, levelOfDetails.Maximum, OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
+                    levelOfDetails.Minimum, levelOfDetails.Maximum, guard.OnErrorHandler, cancelTokenHandle.AddrOfPinnedObject()));
             }
             return Observable.Return<int>(100);
         }
@@ -254,38 +261,39 @@ namespace UtyMap.Unity.Data
 
         #region Private members
 
-        private IObservable<int> Get(Tile tile, int tag, OnMeshBuilt meshBuiltHandler, OnElementLoaded elementLoadedHandler, OnError errorHandler)
+        private IObservable<int> Get(Tile tile, int tag, OnMeshBuilt meshBuiltHandler, OnElementLoaded elementLoadedHandler, CallbackGuard guard)
         {
             _trace.Debug(TraceCategory, "Get tile {0}", tile.ToString());
             var stylePath = RegisterStylesheet(tile.Stylesheet);
             var quadKey = tile.QuadKey;
-            WithCancelToken(tile.CancelationToken, (cancelTokenHandle) => getDataByQuadKey(
+            WithCancelToken(tile.CancelationToken, guard, (cancelTokenHandle) => getDataByQuadKey(
                 tag, stylePath, quadKey.TileX, quadKey.TileY, quadKey.LevelOfDetail,
-                (int)tile.ElevationType, meshBuiltHandler, elementLoadedHandler, errorHandler,
+                (int)tile.ElevationType, meshBuiltHandler, elementLoadedHandler, guard.OnErrorHandler,
                 cancelTokenHandle.AddrOfPinnedObject())
             );
             return Observable.Return(100);
         }
 
-        private IObservable<int> Get(MapQuery query, int tag, OnElementLoaded elementLoadedHandler, OnError errorHandler)
+        private IObservable<int> Get(MapQuery query, int tag, OnElementLoaded elementLoadedHandler, CallbackGuard guard)
         {
             _trace.Debug(TraceCategory, "Search elements");
-            WithCancelToken(query.CancelToken, (cancelTokenHandle) => getDataByText(
+            WithCancelToken(query.CancelToken, guard, (cancelTokenHandle) => getDataByText(
                 tag, query.NotTerms, query.AndTerms, query.OrTerms,
                 query.BoundingBox.MinPoint.Latitude, query.BoundingBox.MinPoint.Longitude,
                 query.BoundingBox.MaxPoint.Latitude, query.BoundingBox.MaxPoint.Longitude,
-                query.LodRange.Minimum, query.LodRange.Maximum, elementLoadedHandler, errorHandler,
+                query.LodRange.Minimum, query.LodRange.Maximum, elementLoadedHandler, guard.OnErrorHandler,
                 cancelTokenHandle.AddrOfPinnedObject())
             );
             return Observable.Return(100);
         }
 
-        private void WithCancelToken(CancellationToken token, Action<GCHandle> action)
+        private void WithCancelToken(CancellationToken token, CallbackGuard guard, Action<GCHandle> action)
         {
             var cancelTokenHandle = GCHandle.Alloc(token, GCHandleType.Pinned);
             try
             {
                 action(cancelTokenHandle);
+                guard.ThrowIfFailed();
             }
             catch (Exception ex)
             {
@@ -343,30 +351,73 @@ namespace UtyMap.Unity.Data
 
         #region Callbacks
 
+        /// <summary>
+        ///     Keeps the first exception raised in callbacks till native code returns: exceptions should
+        ///     not be propagated through native frames as locks acquired there are never released then.
+        /// </summary>
+        private class CallbackGuard
+        {
+            private Exception _exception;
+
+            public void OnErrorHandler(string message)
+            {
+                if (_exception == null)
+                    _exception = new InvalidOperationException(message);
+            }
+
+            public void Execute(Action action)
+            {
+                if (_exception != null) return;
+
+                try
+                {
+                    action();
+                }
+                catch (Exception ex)
+                {
+                    _exception = ex;
+                }
+            }
+
+            public void ThrowIfFailed()
+            {
+                if (_exception != null)
+                    throw _exception;
+            }
+        }
+
         private class TileHandler
         {
             private readonly Tile _tile;
             private readonly IList<IObserver<MapData>> _observers;
+            private readonly CallbackGuard _guard;
 
-            public TileHandler(Tile tile, IList<IObserver<MapData>> observers)
+            public TileHandler(Tile tile, IList<IObserver<MapData>> observers, CallbackGuard guard)
             {
                 _tile = tile;
                 _observers = observers;
+                _guard = guard;
             }
 
             public void OnMeshBuiltHandler(int tag, string name, double[] vertices, int vertexCount,
                 int[] triangles, int triangleCount, int[] colors, int colorCount,
                 double[] uvs, int uvCount, int[] uvMap, int uvMapCount)
             {
-                Mesh mesh = GetMesh(_tile, name, vertices, triangles, colors);
-                NotifyObservers(new MapData(_tile, new Union<Element, Mesh>(mesh)));
+                _guard.Execute(() =>
+                {
+                    Mesh mesh = GetMesh(_tile, name, vertices, triangles, colors);
+                    NotifyObservers(new MapData(_tile, new Union<Element, Mesh>(mesh)));
+                });
             }
 
             public void OnElementLoadedHandler(int tag, long id, string[] tags, int tagCount,
                 double[] vertices, int vertexCount, string[] styles, int styleCount)
             {
-                Element element = GetElement(id, tags, vertices, styles);
-                NotifyObservers(new MapData(_tile, new Union<Element, Mesh>(element)));
+                _guard.Execute(() =>
+                {
+                    Element element = GetElement(id, tags, vertices, styles);
+                    NotifyObservers(new MapData(_tile, new Union<Element, Mesh>(element)));
+                });
             }
 
             private void NotifyObservers(MapData mapData)
@@ -379,25 +430,26 @@ namespace UtyMap.Unity.Data
         private class QueryHandler
         {
             private readonly IList<IObserver<Element>> _observers;
+            private readonly CallbackGuard _guard;
 
-            public QueryHandler(IList<IObserver<Element>> observers)
+            public QueryHandler(IList<IObserver<Element>> observers, CallbackGuard guard)
             {
                 _observers = observers;
+                _guard = guard;
             }
 
             public void OnElementLoadedHandler(int tag, long id, string[] tags, int tagCount,
                 double[] vertices, int vertexCount, string[] styles, int styleCount)
             {
-                Element element = GetElement(id, tags, vertices, styles);
-                foreach (var observer in _observers)
-                    observer.OnNext(element);
+                _guard.Execute(() =>
+                {
+                    Element element = GetElement(id, tags, vertices, styles);
+                    foreach (var observer in _observers)
+                        observer.OnNext(element);
+                });
             }
         }
 
-        private static void OnErrorHandler(string message)
-        {
-            throw new InvalidOperationException(message);
-        }
 
         #endregion
 
-- 
2.43.0


From bdcec0cf7f0f64eb320196e4dc1f6ecf5d0a394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 73/77] fix: stylesheet could be used by another thread before
 it was registered

---
 unity/library/UtyMap.Unity/Data/MapDataLibrary.cs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index 22d9e6d..02430e0 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -314,11 +314,15 @@ namespace UtyMap.Unity.Data
         {
             var stylePath = _pathResolver.Resolve(stylesheet.Path);
 
-            if (_stylePaths.Contains(stylePath))
-                return stylePath;
+            // NOTE stylesheet should not be used by another thread till it is registered.
+            lock (_stylePaths)
+            {
+                if (_stylePaths.Contains(stylePath))
+                    return stylePath;
 
-            _stylePaths.Add(stylePath);
-            registerStylesheet(stylePath, CreateDirectory);
+                registerStylesheet(stylePath, CreateDirectory);
+                _stylePaths.Add(stylePath);
+            }
 
             return stylePath;
         }
-- 
2.43.0


From 84301dfd3346839b6daa412ae8fe95f01283a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 74/77] fix: search of the geocoder escaped its box as a whole

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 6698658..2214a19 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -77,12 +77,12 @@ namespace UtyMap.Unity.Geocoding
             sb.Append(_searchPath);
             if (area != null)
             {
-                sb.Append(Uri.EscapeDataString(String.Format(CultureInfo.InvariantCulture,
+                sb.AppendFormat(CultureInfo.InvariantCulture,
                     "viewbox={0:f4},{1:f4},{2:f4},{3:f4}&",
                     area.MinPoint.Longitude,
                     area.MinPoint.Latitude,
                     area.MaxPoint.Longitude,
-                    area.MaxPoint.Latitude)));
+                    area.MaxPoint.Latitude);
             }
             sb.AppendFormat("q={0}&format=json", Uri.EscapeDataString(name));
 
-- 
2.43.0


From 8b6ff1485d19ee98bd7d1af9117ef2cfe2746036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 75/77] fix: geocoder wrote and read numbers by the culture of
 the thread

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 2214a19..1d465a0 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -98,7 +98,7 @@ namespace UtyMap.Unity.Geocoding
         public void OnNext(Tuple<GeoCoordinate, float> value)
         {
             var coordinate = value.Item1;
-            var url = String.Format("{0}format=json&lat={1}&lon={2}",
+            var url = String.Format(CultureInfo.InvariantCulture, "{0}format=json&lat={1}&lon={2}",
                 _reverseSearchPath, coordinate.Latitude, coordinate.Longitude);
 
             _networkService
@@ -132,7 +132,8 @@ namespace UtyMap.Unity.Geocoding
         private static GeoCoordinate ParseGeoCoordinate(string latStr, string lonStr)
         {
             double latitude, longitude;
-            if (double.TryParse(latStr, out latitude) && double.TryParse(lonStr, out longitude))
+            if (double.TryParse(latStr, NumberStyles.Float, CultureInfo.InvariantCulture, out latitude) &&
+                double.TryParse(lonStr, NumberStyles.Float, CultureInfo.InvariantCulture, out longitude))
                 return new GeoCoordinate(latitude, longitude);
             return default(GeoCoordinate);
         }
-- 
2.43.0


From 4669a31ab12a4cc04865899e3ac5c1ec82d9c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 76/77] fix: geocoder ignored bounding boxes given as json
 array

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 1d465a0..27cc41e 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -111,7 +111,11 @@ namespace UtyMap.Unity.Geocoding
         private GeocoderResult ParseGeocoderResult(JSONNode resultNode)
         {
             BoundingBox bbox = null;
-            string[] bboxArray = resultNode["boundingbox"].Value.Split(',');
+            // NOTE nominatim returns json array here.
+            var bboxNode = resultNode["boundingbox"];
+            string[] bboxArray = bboxNode is JSONArray
+                ? bboxNode.Childs.Select(n => n.Value).ToArray()
+                : bboxNode.Value.Split(',');
             if (bboxArray.Length == 4)
             {
                 bbox = new BoundingBox(ParseGeoCoordinate(bboxArray[0], bboxArray[2]),
-- 
2.43.0


From 9d16faa562976373885576115dd591fd559fa22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 77/77] fix: failed or unreadable answer of the geocoder threw
 on the thread of the network

---
 .../library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 27cc41e..a746ea8 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -91,7 +91,7 @@ namespace UtyMap.Unity.Geocoding
                 .SelectMany(r => (
                     from JSONNode json in JSON.Parse(r).AsArray
                     select ParseGeocoderResult(json)))
-                .Subscribe(r => _observers.ForEach(o => o.OnNext(r)));
+                .Subscribe(r => _observers.ForEach(o => o.OnNext(r)), IgnoreFailure);
         }
 
         /// <inheritdoc />
@@ -105,7 +105,12 @@ namespace UtyMap.Unity.Geocoding
                 .Get(url, _headers)
                 .Take(1)
                 .Select(r => ParseGeocoderResult(JSON.Parse(r)))
-                .Subscribe(r => _observers.ForEach(o => o.OnNext(r)));
+                .Subscribe(r => _observers.ForEach(o => o.OnNext(r)), IgnoreFailure);
+        }
+
+        /// <summary> Called when there is no (readable) response: there is just no result then. </summary>
+        private static void IgnoreFailure(Exception error)
+        {
         }
 
         private GeocoderResult ParseGeocoderResult(JSONNode resultNode)
-- 
2.43.0

