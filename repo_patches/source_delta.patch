From d503cf91964b1db230c32a121c81f0d8f33643ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 001/143] fix: keep lattice edge iterators valid when a new tag
 mask is indexed

---
 common/lattice.cpp | 40 ++++++++++++++++++++--------------------
 common/lattice.hpp | 10 ++++++++--
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 51f6e03..74858c0 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -76,10 +76,10 @@ Lattice::VertexDescriptor Lattice::addLooseVertex() {
     vertices_[-nLooseVertices_] = vertex;
     for (size_t i = 0; i < indexedTagMasks_.size(); ++i) {
         graph_[vertex].outEdgesIndex.push_back(
-            std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+            boost::shared_ptr<VertexEntry::EdgesIndex>(new VertexEntry::EdgesIndex())
         );
         graph_[vertex].inEdgesIndex.push_back(
-            std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+            boost::shared_ptr<VertexEntry::EdgesIndex>(new VertexEntry::EdgesIndex())
         );
     }
     return -nLooseVertices_;
@@ -272,10 +272,10 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             vertices_[from] = boost_from;
             for (size_t i = 0; i < indexedTagMasks_.size(); ++i) {
                 graph_[boost_from].outEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+                    boost::shared_ptr<VertexEntry::EdgesIndex>(new VertexEntry::EdgesIndex())
                 );
                 graph_[boost_from].inEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+                    boost::shared_ptr<VertexEntry::EdgesIndex>(new VertexEntry::EdgesIndex())
                 );
             }
         }
@@ -287,10 +287,10 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             vertices_[to] = boost_to;
             for (size_t i = 0; i < indexedTagMasks_.size(); ++i) {
                 graph_[boost_to].outEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+                    boost::shared_ptr<VertexEntry::EdgesIndex>(new VertexEntry::EdgesIndex())
                 );
                 graph_[boost_to].inEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+                    boost::shared_ptr<VertexEntry::EdgesIndex>(new VertexEntry::EdgesIndex())
                 );
             }
         }
@@ -313,8 +313,8 @@ Lattice::EdgeDescriptor Lattice::addEdge(
                 ++iter
             ) {
                 if (matches(tags, iter->first)) {
-                    graph_[boost_from].outEdgesIndex[iter->second].push_back(result.first);
-                    graph_[boost_to].inEdgesIndex[iter->second].push_back(result.first);
+                    graph_[boost_from].outEdgesIndex[iter->second]->push_back(result.first);
+                    graph_[boost_to].inEdgesIndex[iter->second]->push_back(result.first);
                 }
             }
             if (!isLooseVertex(from) && !isLooseVertex(to)) {
@@ -379,8 +379,8 @@ Lattice::InOutEdgesIterator Lattice::outEdges(
     if (isLooseVertex(vertex)) {
         Graph::vertex_descriptor boost_vertex = vertices_[vertex];
         return Lattice::InOutEdgesIterator(
-            graph_[boost_vertex].outEdgesIndex[ix].begin(),
-            graph_[boost_vertex].outEdgesIndex[ix].end(),
+            graph_[boost_vertex].outEdgesIndex[ix]->begin(),
+            graph_[boost_vertex].outEdgesIndex[ix]->end(),
             -1
         );
     }
@@ -394,8 +394,8 @@ Lattice::InOutEdgesIterator Lattice::outEdges(
     }
     Graph::vertex_descriptor boost_vertex = (*iter).second;
     return Lattice::InOutEdgesIterator(
-        graph_[boost_vertex].outEdgesIndex[ix].begin(),
-        graph_[boost_vertex].outEdgesIndex[ix].end(),
+        graph_[boost_vertex].outEdgesIndex[ix]->begin(),
+        graph_[boost_vertex].outEdgesIndex[ix]->end(),
         (layerTagManager_.canBeAppliedToImplicitSymbol(mask)
          && implicitOutEdges_[vertex]) ?
             vertex : -1
@@ -413,8 +413,8 @@ Lattice::InOutEdgesIterator Lattice::inEdges(
     if (isLooseVertex(vertex)) {
         Graph::vertex_descriptor boost_vertex = vertices_[vertex];
         return Lattice::InOutEdgesIterator(
-            graph_[boost_vertex].inEdgesIndex[ix].begin(),
-            graph_[boost_vertex].inEdgesIndex[ix].end(),
+            graph_[boost_vertex].inEdgesIndex[ix]->begin(),
+            graph_[boost_vertex].inEdgesIndex[ix]->end(),
             -1
         );
     }
@@ -436,8 +436,8 @@ Lattice::InOutEdgesIterator Lattice::inEdges(
     }
     Graph::vertex_descriptor boost_vertex = (*iter).second;
     return Lattice::InOutEdgesIterator(
-        graph_[boost_vertex].inEdgesIndex[ix].begin(),
-        graph_[boost_vertex].inEdgesIndex[ix].end(),
+        graph_[boost_vertex].inEdgesIndex[ix]->begin(),
+        graph_[boost_vertex].inEdgesIndex[ix]->end(),
         (layerTagManager_.canBeAppliedToImplicitSymbol(mask)
          && priorVertexImplicitOutEdges) ?
             priorVertex : -1
@@ -921,19 +921,19 @@ int Lattice::addTagMaskIndex_(LayerTagMask tagMask) {
         int ix = indexedTagMasks_.size();
         BOOST_FOREACH(VerticesMap::value_type iv, vertices_) {
             graph_[iv.second].outEdgesIndex.push_back(
-                std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+                boost::shared_ptr<VertexEntry::EdgesIndex>(new VertexEntry::EdgesIndex())
             );
             BOOST_FOREACH(Graph::edge_descriptor edge, boost::out_edges(iv.second, graph_)) {
                 if (matches(graph_[edge].tagList, tagMask)) {
-                    graph_[iv.second].outEdgesIndex[ix].push_back(edge);
+                    graph_[iv.second].outEdgesIndex[ix]->push_back(edge);
                 }
             }
             graph_[iv.second].inEdgesIndex.push_back(
-                std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
+                boost::shared_ptr<VertexEntry::EdgesIndex>(new VertexEntry::EdgesIndex())
             );
             BOOST_FOREACH(Graph::edge_descriptor edge, boost::in_edges(iv.second, graph_)) {
                 if (matches(graph_[edge].tagList, tagMask)) {
-                    graph_[iv.second].inEdgesIndex[ix].push_back(edge);
+                    graph_[iv.second].inEdgesIndex[ix]->push_back(edge);
                 }
             }
         }
diff --git a/common/lattice.hpp b/common/lattice.hpp
index 2f8a788..8964d68 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -12,6 +12,7 @@
 
 #include <boost/graph/adjacency_list.hpp>
 #include <boost/graph/topological_sort.hpp>
+#include <boost/shared_ptr.hpp>
 
 #include "utf8/utf8.h"
 
@@ -74,8 +75,13 @@ public:
          */
         int index;
 
-        std::vector< std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > outEdgesIndex;
-        std::vector< std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > inEdgesIndex;
+        /**
+         * Lists of edges, one for each indexed mask. The lists are kept by pointers so that
+         * they stay in place (and so do iterators over them) when a new mask is indexed.
+         */
+        typedef std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> EdgesIndex;
+        std::vector< boost::shared_ptr<EdgesIndex> > outEdgesIndex;
+        std::vector< boost::shared_ptr<EdgesIndex> > inEdgesIndex;
 
         VertexEntry() : index(-1) { }
         VertexEntry(int ix) : index(ix) { }
-- 
2.43.0


From 56abc106ee3f9a073cc6661e886ddd2eebc9f734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 002/143] fix: update lattice mask indices when tags are merged
 into an existing edge

---
 common/lattice.cpp | 48 ++++++++++++++++++++++++++++++++++++++++++++++
 common/lattice.hpp |  9 +++++++++
 2 files changed, 57 insertions(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 74858c0..76f8eb8 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -210,6 +210,7 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (edge.isExplicit()) {
             if (tags != oldTags) {
                 graph_[edge.descriptor].tagList = tags;
+                updateEdgeIndices_(edge.descriptor, oldTags, tags);
             }
             if (score > oldScore) {
                 graph_[edge.descriptor].score = score;
@@ -942,6 +943,53 @@ int Lattice::addTagMaskIndex_(LayerTagMask tagMask) {
     }
 }
 
+template<typename GraphEdgeIterator>
+static void insertIntoEdgesIndex_(
+    Lattice::VertexEntry::EdgesIndex& edgesIndex,
+    std::pair<GraphEdgeIterator, GraphEdgeIterator> graphEdges,
+    const Lattice::Graph::edge_descriptor& edge
+) {
+    // the order of edges in the index is the same as in the graph
+    Lattice::VertexEntry::EdgesIndex::iterator position = edgesIndex.begin();
+    for (
+        GraphEdgeIterator iter = graphEdges.first;
+        iter != graphEdges.second && !(*iter == edge);
+        ++iter
+    ) {
+        if (position != edgesIndex.end() && *position == *iter) {
+            ++position;
+        }
+    }
+    edgesIndex.insert(position, edge);
+}
+
+void Lattice::updateEdgeIndices_(
+    const Graph::edge_descriptor& edge,
+    const LayerTagCollection& oldTags,
+    const LayerTagCollection& newTags
+) {
+    Graph::vertex_descriptor source = boost::source(edge, graph_);
+    Graph::vertex_descriptor target = boost::target(edge, graph_);
+    for (
+        TagMasksHash::iterator iter = indexedTagMasks_.begin();
+        iter != indexedTagMasks_.end();
+        ++iter
+    ) {
+        if (matches(newTags, iter->first) && !matches(oldTags, iter->first)) {
+            insertIntoEdgesIndex_(
+                *graph_[source].outEdgesIndex[iter->second],
+                boost::out_edges(source, graph_),
+                edge
+            );
+            insertIntoEdgesIndex_(
+                *graph_[target].inEdgesIndex[iter->second],
+                boost::in_edges(target, graph_),
+                edge
+            );
+        }
+    }
+}
+
 void Lattice::resizeImplicitEdgesStructures_() {
     implicitOutEdges_.resize(allText_.length()+1);
     hiddenImplicitOutEdges_.resize(allText_.length()+1);
diff --git a/common/lattice.hpp b/common/lattice.hpp
index 8964d68..15819ed 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -687,6 +687,15 @@ public:
     const LayerTagCollection& getSymbolTag() const;
     const LayerTagMask& getSymbolMask() const;
 
+    /**
+     * Adds the edge to the indices of masks matched by its new, but not by its old tags.
+     */
+    void updateEdgeIndices_(
+        const Graph::edge_descriptor& edge,
+        const LayerTagCollection& oldTags,
+        const LayerTagCollection& newTags
+    );
+
     int addTagMaskIndex_(LayerTagMask tagMask);
 
     static const std::string DISCARDED_TAG_NAME;
-- 
2.43.0


From 7240da2675885978daf18bdc766eca7280a212d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 003/143] fix: replace an implicit lattice edge when it is
 merged with a new edge

---
 common/lattice.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 76f8eb8..a6a71d0 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -175,6 +175,9 @@ Lattice::EdgeDescriptor Lattice::addEdge(
     // indicates if we need to add edge to the boost graph
     bool needToAddEdge = false;
 
+    // the score of the edge (the best score of its partitions)
+    Score edgeScore = score;
+
     // finds an existing edge in the same plane
     EdgeDescriptor isoplanarEdge;
     bool isoplanarEdgeFound = false;
@@ -218,8 +221,12 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             graph_[edge.descriptor].partitions.push_back(
                 Partition(tags, sequence, score, ruleId, treeChoice));
         } else {
+            // the implicit edge is replaced with an explicit one
             implicitOutEdges_.set(from, false);
-            edge.implicitIndex = -1;
+            std::vector<EdgeDescriptor>& edges = (insertResult.first)->second;
+            edges.erase(std::find(edges.begin(), edges.end(), edge));
+            --edgeCounterHash_[vpair];
+            edgeScore = (std::max)(score, oldScore);
             needToAddEdge = true;
         }
     }
@@ -301,7 +308,7 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             boost_to,
             EdgeEntry(
                 annotationItem,
-                tags, score,
+                tags, edgeScore,
                 Partition(tags, sequence, score, ruleId, treeChoice)
             ),
             graph_
-- 
2.43.0


From 268da98bdd3253e3bfef11d625c9527acf0bf305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 004/143] fix: keep the annotation of an edge tagged as symbol
 which is not the default symbol edge

---
 common/lattice.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index a6a71d0..5d3b270 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -58,7 +58,7 @@ void Lattice::addSymbols(VertexDescriptor startVertex, VertexDescriptor endVerte
         addEdge(
             vd,
             vd + symbol.length(),
-            AnnotationItem("'" + symbol),
+            AnnotationItem("'" + symbol, StringFrag(symbol)),
             getSymbolTag());
         vd += symbol.length();
     }
@@ -145,6 +145,18 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         throw ReversedEdgeException("Cannot add a reversed edge");
     }
 
+    // a default symbol edge given without its text is the same as the implicit one
+    bool isSingleSymbol = !isLooseVertex(from)
+        && !isLooseVertex(to)
+        && tags == getSymbolTag()
+        && from + (int) symbolLength_(from) == to;
+    if (isSingleSymbol) {
+        AnnotationItem symbolItem = getEdgeAnnotationItem(EdgeDescriptor(from));
+        if (annotationItem == AnnotationItem(symbolItem.getCategory())) {
+            return addEdge(from, to, symbolItem, tags, sequence, score, ruleId, treeChoice);
+        }
+    }
+
     // result of adding edge to the boost graph
     std::pair<Graph::edge_descriptor, bool> result;
 
@@ -254,11 +266,10 @@ Lattice::EdgeDescriptor Lattice::addEdge(
 
         // updating implicit edges, where applicable
         if (
-            !isLooseVertex(from)
-            && !isLooseVertex(to)
+            isSingleSymbol
             && tags == getSymbolTag()
-            && from + (int) symbolLength_(from) == to
             && !implicitOutEdges_[from]
+            && annotationItem == getEdgeAnnotationItem(EdgeDescriptor(from))
         ) {
             implicitOutEdges_.set(from, true);
             (insertResult.first)->second.push_back(EdgeDescriptor(from));
-- 
2.43.0


From 2ae63004b917e9a0f21411041983a1444f3fbba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 005/143] fix: correct a lattice by inserting an empty text

---
 common/lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 5d3b270..07b7543 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -843,7 +843,7 @@ int Lattice::getLooseVertexIndex(VertexDescriptor vd) const {
 
 void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
     VertexDescriptor from = here;
-    VertexDescriptor to;
+    VertexDescriptor to = here;
     std::string::iterator iter = text.begin();
     std::string::iterator end = text.end();
     while (iter != end) {
-- 
2.43.0


From 4e14305bc042aa031d6f4c9f5af4dc8712f8e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 006/143] fix: never cut a segment inside a multi-byte
 character at the hard limit

---
 common/cutter.hpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/common/cutter.hpp b/common/cutter.hpp
index a990a26..095b6a7 100644
--- a/common/cutter.hpp
+++ b/common/cutter.hpp
@@ -215,20 +215,15 @@ size_t Cutter::findHardLimitCutPoint_(
     const StringType& text,
     size_t cutPoint) {
 
-    const size_t UTF8_MAX_LENGTH = 4;
-
-    size_t hardLimitPos = cutPoint + segmentLengthHardLimit();
-
-    size_t candidatePos =
-        (hardLimitPos > UTF8_MAX_LENGTH
-         ? hardLimitPos - UTF8_MAX_LENGTH
-         : 0);
-
-    while (candidatePos < hardLimitPos) {
-        int symLen = symbolLength(text, candidatePos);
-        if (candidatePos + symLen > hardLimitPos)
-            break;
-        candidatePos += symLen;
+    size_t candidatePos = cutPoint + segmentLengthHardLimit();
+
+    // do not cut inside a multi-byte character
+    while (
+        candidatePos > cutPoint
+        && candidatePos < text.length()
+        && (text[candidatePos] & 0xc0) == 0x80
+    ) {
+        --candidatePos;
     }
 
     if (candidatePos <= cutPoint)
-- 
2.43.0


From 7b8346b8569ab12d42b76eba68c88a3ba7a926d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 007/143] fix: do not advance twice when choosing an edge to be
 skipped on a lattice path

---
 common/lattice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/lattice.hpp b/common/lattice.hpp
index 15819ed..dfb6ecc 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -928,7 +928,7 @@ Lattice::EdgeSequence Lattice::getPathWithSkipping(
                 while (iter.hasNext()) {
                     EdgeDescriptor currentOne = iter.next();
                     if (skippingPredicate(*this, currentOne)) {
-                        bestOne = iter.next();
+                        bestOne = currentOne;
                     }
                 }
                 pathBuilder.addEdge(bestOne);
-- 
2.43.0


From a69d833f5ab3470936ce9d7875c725a951f7f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 008/143] fix: keep all the edges of a non-contiguous edge
 sequence starting at the beginning of the text

---
 common/lattice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 07b7543..7266176 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -1214,6 +1214,7 @@ Lattice::EdgeSequence::Builder& Lattice::EdgeSequence::Builder::addEdge(
         } else if (lattice_.getEdgeBeginIndex(edge) == end) {
             end = lattice_.getEdgeEndIndex(edge);
         } else {
+            begin = 1;
             end = 0;
         }
     } else {
-- 
2.43.0


From da3c2a31bf133dcad829eaac81f878bb8bf9f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 009/143] fix: StringFrag::append and StringFrag::find respect
 the bounds of the fragment

---
 common/string_frag.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/string_frag.cpp b/common/string_frag.cpp
index 22ea01a..c9cc2b3 100644
--- a/common/string_frag.cpp
+++ b/common/string_frag.cpp
@@ -74,7 +74,7 @@ void StringFrag::append(const StringFrag & other) {
     ) {
         len_ += other.len_;
         contents_ = src_.substr(begin_, (std::min)(len_, (size_t)ABBR_LENGTH));
-    } else if (contents_=="" && this != &other) {
+    } else if (length() == 0 && this != &other) {
         this->StringFrag::~StringFrag();
         new (this) StringFrag(other);
     } else {
@@ -95,7 +95,11 @@ size_t StringFrag::find(char c, size_t pos) const {
     if (stored_()) {
         return contents_.find(c, pos);
     }
-    return src_.find(c, begin_ + pos) - begin_;
+    if (pos >= len_) {
+        return std::string::npos;
+    }
+    size_t found = src_.find(c, begin_ + pos);
+    return found < begin_ + len_ ? found - begin_ : std::string::npos;
 }
 
 
-- 
2.43.0


From 3a00e0e29d143a61a355f6259fe7281de9ef8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 010/143] fix: a fragment of a StringFrag with its own contents

---
 common/string_frag.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/common/string_frag.hpp b/common/string_frag.hpp
index e6b49ea..ac77b79 100644
--- a/common/string_frag.hpp
+++ b/common/string_frag.hpp
@@ -56,13 +56,17 @@ public:
         size_t len
     ) :
 #if STRING_FRAG_VALIDATION
-        contents_(sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))),
+        contents_(
+            sf.stored_()
+                ? sf.contents_.substr(begin, len)
+                : sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))
+        ),
 #else
-        contents_(""),
+        contents_(sf.stored_() ? sf.contents_.substr(begin, len) : std::string()),
 #endif
-        src_(sf.src_),
-        begin_(sf.begin_ + begin),
-        len_(len)
+        src_(sf.stored_() ? contents_ : sf.src_),
+        begin_(sf.stored_() ? std::string::npos : sf.begin_ + begin),
+        len_(sf.stored_() ? std::string::npos : len)
     {
 #if STRING_FRAG_VALIDATION
         if (len == std::string::npos) {
-- 
2.43.0


From 588e421a3c593fd3b6089964bc3c511afac100bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 011/143] fix: correct a lattice by inserting a text at its end

---
 common/lattice.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 7266176..8a5ec0d 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -842,8 +842,17 @@ int Lattice::getLooseVertexIndex(VertexDescriptor vd) const {
 }
 
 void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
+    if (text.empty()) {
+        return;
+    }
+    // the edge following the inserted text has to be found before the text is inserted
+    boost::optional<EdgeDescriptor> nextEdge;
+    try {
+        nextEdge = firstOutEdge(here, symbolMask_);
+    } catch (NoEdgeException) {
+    }
     VertexDescriptor from = here;
-    VertexDescriptor to = here;
+    VertexDescriptor to;
     std::string::iterator iter = text.begin();
     std::string::iterator end = text.end();
     while (iter != end) {
@@ -858,11 +867,8 @@ void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
         );
         from = to;
     }
-    try {
-        EdgeDescriptor nextEdge
-            = firstOutEdge(here, symbolMask_);
-        addEdge(to, getEdgeTarget(nextEdge), getEdgeAnnotationItem(nextEdge), getSymbolTag());
-    } catch (NoEdgeException) {
+    if (nextEdge) {
+        addEdge(to, getEdgeTarget(*nextEdge), getEdgeAnnotationItem(*nextEdge), getSymbolTag());
     }
 }
 
-- 
2.43.0


From 9ccf9e6268771c2afbe16d7ad34cd1f4091b71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 012/143] fix: insert only the rest of the replacement when it
 is longer than the replaced text

---
 common/lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 8a5ec0d..35e755d 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -906,7 +906,7 @@ void Lattice::correctionReplace(VertexDescriptor from, VertexDescriptor to, std:
         std::string::iterator end = text.end();
         while (iter != end) {
             if (from == to) {
-                return correctionInsert(from, text);
+                return correctionInsert(from, std::string(iter, end));
             }
             std::string symbol;
             utf8::append(utf8::next(iter, end), std::back_inserter(symbol));
-- 
2.43.0


From a7cb7a0b2aae58e7bf00e9b45549cc25187f755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 013/143] fix: items with different attributes are not equal
 even if the value is empty or false

---
 common/annotation_item.cpp | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/common/annotation_item.cpp b/common/annotation_item.cpp
index d13c08f..49fc683 100644
--- a/common/annotation_item.cpp
+++ b/common/annotation_item.cpp
@@ -43,29 +43,15 @@ size_t AnnotationItem::resize_(size_t size) {
 }
 
 bool AnnotationItem::areAttributesTheSame_(const AnnotationItem& other) const {
-    size_t smallerSize = values_.size();
-    size_t largerSize  = other.values_.size();
-    const std::vector<zvalue>* largerVector = &(other.values_);
-
-    if (smallerSize > largerSize) {
-        smallerSize = other.values_.size();
-        largerSize  = values_.size();
-        largerVector = &values_;
+    if (attributes_ != other.attributes_) {
+        return false;
     }
 
-   for (size_t i = 0; i < smallerSize; ++i) {
-       if (values_[i] != other.values_[i]) {
-           return false;
-       }
-   }
-
-   for (size_t i = smallerSize; i < largerSize; ++i) {
-       char * valStr = zvalue_to_string((*largerVector)[i]);
-       if (strcmp(valStr, "") != 0) {
-           delete [] valStr;
-           return false;
-       }
-   }
+    for (size_t i = 0; i < values_.size() && i < other.values_.size(); ++i) {
+        if (attributes_[i] && values_[i] != other.values_[i]) {
+            return false;
+        }
+    }
 
-   return true;
+    return true;
 }
-- 
2.43.0


From a002beda6d74216d30fd24df05433c2025641040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 014/143] fix: keep all the bits of an integer attribute value

---
 common/zvalue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/zvalue.hpp b/common/zvalue.hpp
index 0ab36ce..3978095 100644
--- a/common/zvalue.hpp
+++ b/common/zvalue.hpp
@@ -34,7 +34,7 @@ class zobject;
 #define TRUEP(z)    ( !( NULLP((z)) || ZEROP((z)) ) )
 
 #define ZVALUE_TO_INTEGER(z) ( reinterpret_cast<zint_t>(z) >> 1 )
-#define INTEGER_TO_ZVALUE(i) ( reinterpret_cast<zvalue>(((i) << 1) | 1) )
+#define INTEGER_TO_ZVALUE(i) ( reinterpret_cast<zvalue>((static_cast<zint_t>(i) << 1) | 1) )
 #define INTEGERP(z)          ( reinterpret_cast<zint_t>(z) & 1 )
 
 #define ZVALUE_TO_ZOBJECT(z) ( reinterpret_cast<zobject*>(z) )
-- 
2.43.0


From 730a474aa30cc8d8adea94b965d37d7f51596c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 015/143] fix: print the smallest integer attribute value

---
 common/zvalue.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/common/zvalue.cpp b/common/zvalue.cpp
index f0d6895..c7091b4 100644
--- a/common/zvalue.cpp
+++ b/common/zvalue.cpp
@@ -358,11 +358,12 @@ char* itoa(int i)
     char buf[16];
     char *s = buf;
     int neg = 0;
-    if (i<0) { i*=-1; neg=1; }
-    if (0==i) { *s++ = '0'; }
-    while (i>0) {
-        *s++ = '0' + i%10;
-        i/=10;
+    unsigned int u = i;
+    if (i<0) { u = 0 - u; neg=1; }
+    if (0==u) { *s++ = '0'; }
+    while (u>0) {
+        *s++ = '0' + u%10;
+        u/=10;
     }
     char* result = new char[s-buf+1+neg];
     char* r = result;
-- 
2.43.0


From 641599d3fdaa44927afdf842ace7004691f6e052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 016/143] fix: read every partition of an edge from the
 beginning of the edge

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index caeeac1..4b133c2 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -238,6 +238,7 @@ void PsiLatticeReader::Worker::doRun() {
                 if (parse(partsBegin, partsEnd, partsGrammar, partsItem)) {
 
                     BOOST_FOREACH(std::string part, partsItem) {
+                        currentVertex = from;
                         Lattice::EdgeSequence::Builder seqBuilder(lattice_);
                         PsiLRPartitionItem partItem;
                         std::string::const_iterator partBegin = part.begin();
-- 
2.43.0


From 6e605c2b2b4a2fb71c1eb74ca5f026e78f7202e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 017/143] fix: unescape the layer tags read from the PSI format

---
 formats/psi/psi_reader/psi_lattice_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 1c2a80a..84ed16a 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -84,7 +84,7 @@ struct PsiLRItem {
 
     void unescape(Quoter & quoter) {
         text = quoter.unescape(text);
-        BOOST_FOREACH(std::string tag, tags) {
+        BOOST_FOREACH(std::string& tag, tags) {
             tag = quoter.unescape(tag);
         }
         annotationText = quoter.unescape(annotationText);
-- 
2.43.0


From dd2d1c204ffe14689c6eac3a52021baebd26b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 018/143] fix: do not append the text of an edge with a loose
 end to the lattice text

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index 4b133c2..7fba76e 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -112,7 +112,9 @@ void PsiLatticeReader::Worker::doRun() {
                             PLACEHOLDER
                         ));
                     }
-                    if (
+                    if (item.lengthPoint) {
+                        // The text of an edge to a loose vertex is not a part of the lattice text.
+                    } else if (
                         lattice_.getLayerTagManager().isThere("symbol", tags) ||
                         lattice_.getLayerTagManager().isThere("∅", tags) ||
                         item.annotationItem.partitions == "[]"
-- 
2.43.0


From 648e0778604824b93f050527f060ea0465faea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 019/143] fix: write the text needed by the ends of a loose
 edge before the edge

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 93fe86d..f74b47f 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -99,9 +99,11 @@ void PsiLatticeWriter::Worker::printEdge(
     Lattice::VertexDescriptor source = lattice_.getEdgeSource(edge);
     Lattice::VertexDescriptor target = lattice_.getEdgeTarget(edge);
 
-    if (!lattice_.isLooseVertex(source) && !lattice_.isLooseVertex(target)) {
+    if (!lattice_.isLooseVertex(source) || !lattice_.isLooseVertex(target)) {
         size_t i = latticeTextCovered.length();
-        while (i < lattice_.getVertexRawCharIndex(source)) {
+        size_t textNeeded = lattice_.getVertexRawCharIndex(
+            lattice_.isLooseVertex(source) ? target : source);
+        while (i < textNeeded) {
             try {
 
                 std::vector<std::string> outputCells;
-- 
2.43.0


From 681bb24446526075a3fdae7fbe04efa0d3ccc061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 020/143] fix: write a whole multi-byte character not covered
 by any edge

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index f74b47f..9f0c23f 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -152,7 +152,11 @@ void PsiLatticeWriter::Worker::printEdge(
 
                 std::vector<std::string> outputCells;
 
-                char uncoveredSymbol = lattice_.getAllText()[i];
+                std::string::const_iterator textBegin = lattice_.getAllText().begin();
+                std::string::const_iterator symbolBegin = textBegin + i;
+                std::string::const_iterator symbolEnd = symbolBegin;
+                utf8::unchecked::next(symbolEnd);
+                std::string uncoveredSymbol(symbolBegin, symbolEnd);
 
                 ++ordinal;
                 std::stringstream ordinalSs;
@@ -165,9 +169,12 @@ void PsiLatticeWriter::Worker::printEdge(
                 beginningSs << i;
                 outputCells.push_back(beginningSs.str());
 
-                outputCells.push_back("01");
+                std::stringstream lengthSs;
+                lengthSs << std::right << std::setfill('0') << std::setw(2);
+                lengthSs << uncoveredSymbol.length();
+                outputCells.push_back(lengthSs.str());
 
-                outputCells.push_back(quoter.escape(std::string(1, uncoveredSymbol)));
+                outputCells.push_back(quoter.escape(uncoveredSymbol));
 
                 outputCells.push_back("∅");
 
@@ -178,7 +185,7 @@ void PsiLatticeWriter::Worker::printEdge(
                 printTableRow_(outputCells);
 
                 latticeTextCovered += uncoveredSymbol;
-                i++;
+                i += uncoveredSymbol.length();
 
             }
         }
-- 
2.43.0


From 800d92d88b9d3bf9bd50b79a305f682ae74a6598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 021/143] fix: count the text covered by the edges already
 written without the escape sequences

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 9f0c23f..e61d522 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -142,7 +142,7 @@ void PsiLatticeWriter::Worker::printEdge(
 
                 printTableRow_(outputCells);
 
-                latticeTextCovered += edgeText;
+                latticeTextCovered += lattice_.getEdgeText(rawEdge);
 
                 i = lattice_.getEdgeEndIndex(rawEdge);
 
@@ -228,9 +228,9 @@ void PsiLatticeWriter::Worker::printEdge(
     const AnnotationItem& annotationItem = lattice_.getEdgeAnnotationItem(edge);
     std::string edgeText;
     if (lattice_.isLooseVertex(source) || lattice_.isLooseVertex(target)) {
-        edgeText = quoter.escape(annotationItem.getText());
+        edgeText = annotationItem.getText();
     } else {
-        edgeText = quoter.escape(lattice_.getEdgeText(edge));
+        edgeText = lattice_.getEdgeText(edge);
     }
 
     std::list<Lattice::Partition> partitions = lattice_.getEdgePartitions(edge);
@@ -253,22 +253,20 @@ void PsiLatticeWriter::Worker::printEdge(
     } else if (edgeTextLength > getColumnWidth_(3) && !writeWholeText) {
         std::string::const_iterator bIter = edgeText.begin();
         utf8::unchecked::advance(bIter, getColumnWidth_(3) - 7);
-        edgeTextSs << edgeText.substr(0, bIter - edgeText.begin()) << "...";
+        edgeTextSs << quoter.escape(edgeText.substr(0, bIter - edgeText.begin())) << "...";
 
         std::string::const_iterator eIter = edgeText.end();
         for (int i = 0; i < 3; ++i)
             utf8::unchecked::prior(eIter);
 
-        edgeTextPrinted = edgeText.substr(eIter - edgeText.begin());
+        edgeTextPrinted = quoter.escape(edgeText.substr(eIter - edgeText.begin()));
     } else {
-        edgeTextPrinted = edgeText;
+        edgeTextPrinted = quoter.escape(edgeText);
     }
-    if (!lattice_.isLooseVertex(source) && !lattice_.isLooseVertex(target)) {
-        try {
-            latticeTextCovered +=
-                edgeTextPrinted.substr(latticeTextCovered.length()
-                    - lattice_.getVertexRawCharIndex(source));
-        } catch (std::out_of_range) { }
+    if (writeWholeText) {
+        latticeTextCovered +=
+            edgeText.substr(latticeTextCovered.length()
+                - lattice_.getVertexRawCharIndex(source));
     }
     edgeTextSs << edgeTextPrinted;
     outputCells.push_back(edgeTextSs.str());
-- 
2.43.0


From b6b8eec7fabb5acbeb81c83e86f7227e0af9d2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 022/143] fix: read edges after an edge going to a loose vertex
 from the end of the text

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index 7fba76e..3c440e9 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -92,7 +92,7 @@ void PsiLatticeReader::Worker::doRun() {
             if (!item.beginningLoose) {
                 try {
                     if (
-                        (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex())) <
+                        (int)(lattice_.getAllText().length()) <
                             item.beginning
                     ) {
                         // throw FileFormatException(
@@ -103,12 +103,12 @@ void PsiLatticeReader::Worker::doRun() {
                             "Some lattice text cannot be reconstructed: " <<
                             "the placeholder will be put instead ('" <<
                             std::string(1, PLACEHOLDER) << "' at " <<
-                            (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex())) <<
+                            (int)(lattice_.getAllText().length()) <<
                             ")."
                         );
                         lattice_.appendStringWithSymbols(std::string(
                             item.beginning
-                                - lattice_.getVertexRawCharIndex(lattice_.getLastVertex()),
+                                - lattice_.getAllText().length(),
                             PLACEHOLDER
                         ));
                     }
@@ -120,12 +120,12 @@ void PsiLatticeReader::Worker::doRun() {
                         item.annotationItem.partitions == "[]"
                     ) {
                         lattice_.appendString(form.substr(
-                            lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
+                            lattice_.getAllText().length()
                                 - item.beginning
                         ));
                     } else {
                         lattice_.appendStringWithSymbols(form.substr(
-                            lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
+                            lattice_.getAllText().length()
                                 - item.beginning
                         ));
                     }
-- 
2.43.0


From 36ae8a847f63275c7b9018404e71bd4edc7aafd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 023/143] fix: write sub-edges before the text of the edge made
 of them is counted as written

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index e61d522..7911928 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -96,6 +96,18 @@ void PsiLatticeWriter::Worker::printEdge(
     int &ordinal,
     std::string &latticeTextCovered
 ) {
+    // The edges this edge is made of have to be written before it.
+    std::list<Lattice::Partition> partitions = lattice_.getEdgePartitions(edge);
+    BOOST_FOREACH(Lattice::Partition partition, partitions) {
+        Lattice::Partition::Iterator pi(lattice_, partition);
+        while (pi.hasNext()) {
+            Lattice::EdgeDescriptor subEdge = pi.next();
+            if (!lattice_.isEdgeHidden(subEdge) && !edgeOrdinalMap.count(subEdge)) {
+                printEdge(subEdge, quoter, edgeOrdinalMap, ordinal, latticeTextCovered);
+            }
+        }
+    }
+
     Lattice::VertexDescriptor source = lattice_.getEdgeSource(edge);
     Lattice::VertexDescriptor target = lattice_.getEdgeTarget(edge);
 
@@ -233,7 +245,6 @@ void PsiLatticeWriter::Worker::printEdge(
         edgeText = lattice_.getEdgeText(edge);
     }
 
-    std::list<Lattice::Partition> partitions = lattice_.getEdgePartitions(edge);
     bool writeWholeText = false;
     if (
         !lattice_.isLooseVertex(source) &&
@@ -354,20 +365,6 @@ void PsiLatticeWriter::Worker::printEdge(
                             lattice_.getAnnotationItemManager().zvalueToString(ed.getRole()))
                         << '$';
                 }
-            } else if (!lattice_.getLayerTagManager().isThere(
-                    "symbol", lattice_.getEdgeLayerTags(ed.getEdge()))) {
-                printEdge(ed.getEdge(), quoter, edgeOrdinalMap, ordinal, latticeTextCovered);
-                std::map<Lattice::EdgeDescriptor, int>::iterator mi2
-                    = edgeOrdinalMap.find(ed.getEdge());
-                if (mi2 != edgeOrdinalMap.end()) {
-                    linkSs << mi2->second;
-                    if (!NULLP(ed.getRole())) {
-                        linkSs << '$'
-                            << quoter.escape(
-                                lattice_.getAnnotationItemManager().zvalueToString(ed.getRole()))
-                            << '$';
-                    }
-                }
             }
         }
         partSs << linkSs.str();
-- 
2.43.0


From 0c2532c7eef24afbe1bb8ee4b798c9c0c2687a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 024/143] fix: write all the partitions of an edge if one of
 them is the default one

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 7911928..9b73171 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -322,12 +322,13 @@ void PsiLatticeWriter::Worker::printEdge(
     }
     aiSs << quoter.escape(avStr);
 
-    bool isDefaultPartition = (
+    // The default partition is written down only if there are other ones.
+    bool isDefaultPartition = (partitions.size() == 1);
+    bool isSymbol = (
         lattice_.getEdgeLayerTags(edge)
             == lattice_.getLayerTagManager().createSingletonTagCollection("symbol")
     );
     bool firstPartition = true;
-    bool partitionBeginning = false;
     std::stringstream partSs;
     BOOST_FOREACH(Lattice::Partition partition, partitions) {
         if (firstPartition) {
@@ -336,23 +337,19 @@ void PsiLatticeWriter::Worker::printEdge(
             partSs << ",";
         }
         std::stringstream linkSs;
-        partitionBeginning = true;
+        bool partitionBeginning = true;
         Lattice::Partition::Iterator ei(lattice_, partition);
+        if (ei.hasNext() == isSymbol) {
+            isDefaultPartition = false;
+        }
         while (ei.hasNext()) {
             Lattice::EdgeUsage ed = ei.nextUsage();
+            if (!lattice_.isEdgeHidden(ed.getEdge())) {
+                isDefaultPartition = false;
+            }
             if (partitionBeginning) {
-                if (
-                    lattice_.isEdgeHidden(ed.getEdge())
-                ) {
-                    isDefaultPartition = true;
-                }
                 partitionBeginning = false;
             } else {
-                if (
-                    !lattice_.isEdgeHidden(ed.getEdge())
-                ) {
-                    isDefaultPartition = false;
-                }
                 linkSs << "-";
             }
             std::map<Lattice::EdgeDescriptor, int>::iterator mi
-- 
2.43.0


From b8179f9f0b19db6aceb69e5f1c230c0f6aba6d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 025/143] fix: distinguish an empty partition from a single
 symbol among other partitions in the PSI format

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 4 ++++
 formats/psi/psi_reader/psi_lattice_reader.hpp | 2 +-
 formats/psi/psi_writer/psi_lattice_writer.cpp | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index 3c440e9..f7009dc 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -246,6 +246,10 @@ void PsiLatticeReader::Worker::doRun() {
                         std::string::const_iterator partBegin = part.begin();
                         std::string::const_iterator partEnd = part.end();
                         if (parse(partBegin, partEnd, partGrammar, partItem)) {
+                            if (part.empty() || part[0] == '(' || part[0] == '<') {
+                                // no sub-edges
+                                partItem.edgeNumbersWithRoles.clear();
+                            }
                             BOOST_FOREACH(
                                 PsiLREdgeNumberWithRole edgeNumberWithRole,
                                 partItem.edgeNumbersWithRoles
diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 84ed16a..f731d70 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -231,7 +231,7 @@ struct PsiLRPartitionsGrammar : public qi::grammar<
 
         partition
             = qi::eps[qi::_val = ""]
-            >> +(qi::char_ - '(' - '<' - ']' - ',')[qi::_val += qi::_1]
+            >> *(qi::char_ - '(' - '<' - ']' - ',')[qi::_val += qi::_1]
             >> -(
                 qi::char_('(')[qi::_val += qi::_1]
                 >> +(qi::char_ - ')')[qi::_val += qi::_1]
diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 9b73171..8f77a98 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -364,6 +364,10 @@ void PsiLatticeWriter::Worker::printEdge(
                 }
             }
         }
+        if (!partitionBeginning && linkSs.str().empty()) {
+            // a single implicit symbol (nothing would stand for no edges)
+            linkSs << "0";
+        }
         partSs << linkSs.str();
         std::list<std::string> partitionTagNames
             = lattice_.getLayerTagManager().getTagNames(partition.getTagList());
-- 
2.43.0


From 7cea6c43b5463200b1902eae43e5869f5587cb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 026/143] fix: do not write the missing partitions of an
 implicit symbol edge

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 8f77a98..2950744 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -323,7 +323,7 @@ void PsiLatticeWriter::Worker::printEdge(
     aiSs << quoter.escape(avStr);
 
     // The default partition is written down only if there are other ones.
-    bool isDefaultPartition = (partitions.size() == 1);
+    bool isDefaultPartition = (partitions.size() <= 1);
     bool isSymbol = (
         lattice_.getEdgeLayerTags(edge)
             == lattice_.getLayerTagManager().createSingletonTagCollection("symbol")
-- 
2.43.0


From e72f2ff251f97322302e5c11e42a6f3a5b5a98d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 027/143] fix: append symbols to a lattice with an edge going
 to a loose vertex from the end of the text

---
 common/lattice.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 35e755d..8686e06 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -65,9 +65,9 @@ void Lattice::addSymbols(VertexDescriptor startVertex, VertexDescriptor endVerte
 }
 
 void Lattice::appendStringWithSymbols(const std::string & text) {
-    Lattice::VertexDescriptor joinPoint = getLastVertex();
+    Lattice::VertexDescriptor joinPoint = allText_.length();
     appendString(text);
-    addSymbols(joinPoint, getLastVertex());
+    addSymbols(joinPoint, allText_.length());
 }
 
 Lattice::VertexDescriptor Lattice::addLooseVertex() {
-- 
2.43.0


From 0e951a4fa7f6361b1ee583906f8924f62b548e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 028/143] fix: add several symbol edges going out of or into a
 loose vertex

---
 common/lattice.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 8686e06..f6db8d4 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -257,9 +257,13 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (tags == getSymbolTag()) {
             try {
                 firstOutEdge(from, symbolMask_);
-                visibleImplicitOutEdges_[from] = true;
-                EdgeDescriptor ed = firstInEdge(to, symbolMask_);
-                visibleImplicitOutEdges_[getEdgeSource(ed)] = true;
+                if (!isLooseVertex(from)) {
+                    visibleImplicitOutEdges_[from] = true;
+                }
+                VertexDescriptor source = getEdgeSource(firstInEdge(to, symbolMask_));
+                if (!isLooseVertex(source)) {
+                    visibleImplicitOutEdges_[source] = true;
+                }
             } catch (NoEdgeException) {
             }
         }
-- 
2.43.0


From df98e16a5a46f0f62628af6ead41d588b7e27b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 029/143] fix: do not read a separator of sub-edges in the PSI
 format as a minus sign

---
 formats/psi/psi_reader/psi_lattice_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index f731d70..d4e43fb 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -296,7 +296,7 @@ struct PsiLRPartitionGrammar : public qi::grammar<
 
         edgeNumber
             = qi::eps[qi::_val = 0]
-            >> -(qi::int_[qi::_val = qi::_1]);
+            >> -(qi::uint_[qi::_val = qi::_1]);
 
         role
             = qi::eps[qi::_val = ""]
-- 
2.43.0


From 8c9e3de11ec6fad83dc23352a5bd0c6f462565a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 030/143] fix: read symbols among sub-edges from the PSI format
 also when no edge has introduced them yet

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index f7009dc..34132a7 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -263,6 +263,9 @@ void PsiLatticeReader::Worker::doRun() {
                                             << " (too many sub-edges)";
                                         throw FileFormatException(errorSs.str());
                                     }
+                                    if (!lattice_.outEdges(currentVertex, rawMask).hasNext()) {
+                                        lattice_.addSymbols(currentVertex, to);
+                                    }
                                     currentEdge = lattice_.firstOutEdge(currentVertex, rawMask);
                                 } else if (edgeOrdinalMap.find(edgeNumberWithRole.edgeNumber)
                                            == edgeOrdinalMap.end()) {
-- 
2.43.0


From b4bc7564a71d3466b2d11c463c6f28c7dd1cdf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 031/143] fix: do not cut the text following the edge a cutter
 is run on

---
 common/lattice.cpp | 11 +++++++++--
 common/lattice.hpp |  8 +++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index f6db8d4..d28d112 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -803,12 +803,19 @@ bool Lattice::isBlank(EdgeDescriptor edge) {
 }
 
 
-Lattice::EdgeSequence Lattice::getPath(VertexDescriptor& vertex, LayerTagMask mask) {
+Lattice::EdgeSequence Lattice::getPath(
+    VertexDescriptor& vertex,
+    LayerTagMask mask,
+    boost::optional<VertexDescriptor> limit
+) {
     bool nextVertexFound = true;
 
     Lattice::EdgeSequence::Builder pathBuilder(*this);
 
     do {
+        if (limit && vertex == *limit)
+            break;
+
         InOutEdgesIterator iter = outEdges(vertex, mask);
 
         if (iter.hasNext()) {
@@ -1315,7 +1322,7 @@ void Lattice::runCutterOnEdge_(Cutter& cutter, EdgeDescriptor edge, LayerTagMask
 
     VertexDescriptor vertex = getEdgeSource(edge);
 
-    EdgeSequence sequence = getPath(vertex, mask);
+    EdgeSequence sequence = getPath(vertex, mask, getEdgeTarget(edge));
 
     if (sequence.empty())
         return;
diff --git a/common/lattice.hpp b/common/lattice.hpp
index dfb6ecc..918ecf5 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -627,8 +627,14 @@ public:
      *
      * If there are multiple outgoing edges matching `mask` the best
      * one is chosen (the last one with the higher score).
+     *
+     * If `limit` is given, the path does not go beyond this vertex.
      */
-    Lattice::EdgeSequence getPath(VertexDescriptor& vertex, LayerTagMask mask);
+    Lattice::EdgeSequence getPath(
+        VertexDescriptor& vertex,
+        LayerTagMask mask,
+        boost::optional<VertexDescriptor> limit = boost::optional<VertexDescriptor>()
+    );
 
     /**
      * Get a path starting with `vertex` composed of edges matching `mask`,
-- 
2.43.0


From d18af2d2d178ac4b65688ac1f43e5c5ea852c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 032/143] fix: a tokenizer rule matching no characters does not
 make a token

---
 tools/tokenizers/tp/tp_token_cutter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/tokenizers/tp/tp_token_cutter.hpp b/tools/tokenizers/tp/tp_token_cutter.hpp
index 990ec5e..22c7e2a 100644
--- a/tools/tokenizers/tp/tp_token_cutter.hpp
+++ b/tools/tokenizers/tp/tp_token_cutter.hpp
@@ -46,7 +46,7 @@ AnnotationItem TpTokenCutter::performCutOff(const StringType& text, size_t& posi
     for (size_t i = 0; i < ruleSet_.getRegexCount(); ++i) {
         PerlRegExp* regexp = ruleSet_.getRegex(i);
 
-        if (PerlRegExp::Consume(&textSp, *regexp)) {
+        if (PerlRegExp::Consume(&textSp, *regexp) && (size_t) textSp.size() < len) {
             size_t tokenLength = len - textSp.size();
             StringFrag sf(text, positionInText, tokenLength);
             positionInText += tokenLength;
-- 
2.43.0


From a8ada38beeadbdaf54bcde1503ffd00b64a2f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 033/143] fix: let segmentation rules see the text before the
 previous break

---
 tools/segmenters/srx/srx_segmenter.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tools/segmenters/srx/srx_segmenter.cpp b/tools/segmenters/srx/srx_segmenter.cpp
index bc32647..3f2c480 100644
--- a/tools/segmenters/srx/srx_segmenter.cpp
+++ b/tools/segmenters/srx/srx_segmenter.cpp
@@ -353,9 +353,6 @@ private:
                            const StringType& text,
                            size_t positionInText) {
 
-        if (ruleApplication.startingPosition < positionInText)
-            ruleApplication.startingPosition = positionInText;
-
         while (ruleApplication.startingPosition < text.length()
                && (ruleApplication.breakingPosition == std::string::npos
                    || ruleApplication.breakingPosition < minBreakPoint)) {
-- 
2.43.0


From bed9dafffb9d1f7f05499ba7f88a42c5e7e38e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 034/143] fix: report unbalanced else and endif in tokenizer
 rules and keep nested conditionals closed

---
 .../tp/tp_basic_tokenizer_rule_set.cpp        | 46 +++++++++----------
 .../tp/tp_basic_tokenizer_rule_set.hpp        |  3 +-
 2 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index b61883a..0c1d9d4 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -475,40 +475,40 @@ void TPBasicTokenizerRuleSet::readIf(
         throw TPTokenizerException(
             std::string("ifdef - unexpected quotes")+context+std::string(":")+itoa(filePos));
 
-    if (openedIf && ((defs.find(name) == defs.end()) == expectation)) {
-        ifstack.push_back(IfElem(true, context, filePos, TIF));
+    // whether the whole conditional is within an open branch is remembered on the stack
+    ifstack.push_back(IfElem(openedIf, context, filePos, TIF));
+
+    if ((defs.find(name) == defs.end()) == expectation)
         openedIf = false;
-    }
-    else
-        ifstack.push_back(IfElem(false, context, filePos, TIF));
 };
 
 void TPBasicTokenizerRuleSet::readElse(
     std::string context, size_t & filePos,
     std::list<IfElem> & ifstack) {
 
-    if (!openedIf && ifstack.back().getValue()) {
+    if (ifstack.empty())
+        throw TPTokenizerException(std::string("else without if")
+                                   +context+std::string(":")+itoa(filePos));
 
-        if (ifstack.back().getType() == TELSE)
-            throw TPTokenizerException(std::string("too many else")
-                                       +context+std::string(":")+itoa(filePos));
-        openedIf = true;
-        ifstack.back().setType(TELSE);
-    }
-    else
-    {
-        ifstack.back().setType(TELSE);
-        ifstack.back().setValue(true);
-        openedIf = false;
-    }
+    if (ifstack.back().getType() == TELSE)
+        throw TPTokenizerException(std::string("too many else")
+                                   +context+std::string(":")+itoa(filePos));
+
+    ifstack.back().setType(TELSE);
+
+    if (ifstack.back().getValue())
+        openedIf = !openedIf;
 };
 
-void TPBasicTokenizerRuleSet::readEndIf(std::list<IfElem> & ifstack) {
+void TPBasicTokenizerRuleSet::readEndIf(
+    std::string context, size_t & filePos,
+    std::list<IfElem> & ifstack) {
 
-    if (!openedIf && ifstack.back().getValue()) {
-        openedIf = true;
-    }
+    if (ifstack.empty())
+        throw TPTokenizerException(std::string("endif without if")
+                                   +context+std::string(":")+itoa(filePos));
 
+    openedIf = ifstack.back().getValue();
     ifstack.pop_back();
 };
 
@@ -550,7 +550,7 @@ void TPBasicTokenizerRuleSet::parseLine(
     }
     else if (resbuffer.length() >= 5 && resbuffer.substr(0, 5).compare("endif") == 0) {
         resbuffer = resbuffer.erase(0, 5);
-        readEndIf(ifstack);
+        readEndIf(context, filePos, ifstack);
     }
     else
         throw TPTokenizerException("unknown command "+ resbuffer +" in file " + context + "\n");
diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.hpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.hpp
index 456efc2..76c3192 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.hpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.hpp
@@ -198,7 +198,8 @@ private:
     void readElse(std::string context, size_t & filePos,
                   std::list<IfElem> &ifstack);
 
-    void readEndIf(std::list<IfElem> &ifstack);
+    void readEndIf(std::string context, size_t & filePos,
+                   std::list<IfElem> &ifstack);
 
     std::vector<_regex> regs;
     boost::shared_ptr<PerlRegExp> mainRegex;
-- 
2.43.0


From 40a39d40940af9a02f8add8011b7ed357735565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 035/143] fix: throw tokenizer rule exceptions by value so that
 they can be caught

---
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index 0c1d9d4..ef19762 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -124,7 +124,7 @@ bool TPBasicTokenizerRuleSet::changeHereDoc(std::string& strg) {
         std::string restS = rest.as_string();
         size_t markerPos = restS.find(marker);
         if (markerPos == std::string::npos)
-            throw new TPTokenizerException("wrong here doc for `" + marker + "'");
+            throw TPTokenizerException("wrong here doc for `" + marker + "'");
 
         std::string hereDocBody = restS.substr(0, markerPos);
 
@@ -249,7 +249,7 @@ std::string TPBasicTokenizerRuleSet::getContent(
 
     PerlStringPiece bufferPiece(buffer);
     if (!PerlRegExp::FindAndConsume(&bufferPiece, ruleName, &target))
-        throw new TPTokenizerException(msg + context + " at line: " + itoa(filePos));
+        throw TPTokenizerException(msg + context + " at line: " + itoa(filePos));
 
     buffer = bufferPiece.as_string();
 
@@ -265,7 +265,7 @@ void TPBasicTokenizerRuleSet::isEmpty(
     PerlRegExp empty("^\\s+$");
 
     if (PerlRegExp::FullMatch(buffer, empty))
-        throw new TPTokenizerException(std::string(msg) + "in: "+ context + "at: " + itoa(filePos));
+        throw TPTokenizerException(std::string(msg) + "in: "+ context + "at: " + itoa(filePos));
 }
 
 void TPBasicTokenizerRuleSet::readRule(
-- 
2.43.0


From 4d047a0f03b3e60c6e9ac027dd6729b87d220d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 036/143] fix: treat neighbouring escapes and blanks in
 tokenizer rules alike

---
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index ef19762..c8d4f91 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -291,13 +291,13 @@ void TPBasicTokenizerRuleSet::readRule(
 
     while (changeHereDoc(ureg));
 
-    PerlRegExp white("((?:^|[^\\\\])(?:\\\\\\\\)*)\\s+");
+    PerlRegExp white("(?<!\\\\)((?:\\\\\\\\)*)\\s+");
     PerlRegExp::GlobalReplace(&ureg, white, "\\1");
 
     PerlRegExp whiteB("\\\\(\\s)");
     PerlRegExp::GlobalReplace(&ureg, whiteB, "\\1");
 
-    PerlRegExp ats("((?:^|[^\\\\])(?:\\\\\\\\)*)\\\\(@|#)");
+    PerlRegExp ats("(?<!\\\\)((?:\\\\\\\\)*)\\\\(@|#)");
     PerlRegExp::GlobalReplace(&ureg, ats, "\\1\\2");
 
     _regex r;
-- 
2.43.0


From 3ecaee9a6fe8698942292cd61c363c06355c7b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 037/143] fix: read exactly as many bytes of a POST request as
 announced

---
 server/server/request_parser.cpp | 48 +++++++-------------------------
 server/server/request_parser.hpp |  5 +---
 2 files changed, 11 insertions(+), 42 deletions(-)

diff --git a/server/server/request_parser.cpp b/server/server/request_parser.cpp
index b7fc184..0fd8a79 100644
--- a/server/server/request_parser.cpp
+++ b/server/server/request_parser.cpp
@@ -289,13 +289,12 @@ boost::tribool request_parser::consume(request& req, char input)
     if (input == '\n')
     {
         if (req.method == "POST") {
-            if (!is_multipart(req)) {
-                state_ = post_line_start;
-            }
-            else {
-                state_ = multipart_start;
-            }
+            state_ = post_data;
             set_post_data_length(req);
+            // there is nothing to wait for if the body is empty
+            if (post_data_length_ <= 0) {
+                return true;
+            }
             return boost::indeterminate;
         }
         else {
@@ -307,47 +306,20 @@ boost::tribool request_parser::consume(request& req, char input)
     {
         return false;
     }
-  case post_line_start:
-    if (input != '\n' && input != '\r') {
-
-        if (post_data_length_counter_ < post_data_length_) {
-            post_data_length_counter_++;
-            req.post_data += input;
-            return boost::indeterminate;
-        }
-        else {
-            req.post_data += input;
-            return true;
-        }
-    }
-    else {
-        return false;
-    }
-  case multipart_start:
+  case post_data:
+    req.post_data += input;
+    post_data_length_counter_++;
     if (post_data_length_counter_ < post_data_length_) {
-        post_data_length_counter_++;
-        req.post_data += input;
         return boost::indeterminate;
     }
-    else {
-        return true;
-    }
+    return true;
   default:
     return false;
   }
 }
 
-bool request_parser::is_multipart(request& req) {
-    std::string val = req.get_header_value("Content-Type");
-
-    if (val.substr(0, 9) == "multipart") {
-        return true;
-    }
-    return false;
-}
-
 void request_parser::set_post_data_length(request& req) {
-    post_data_length_counter_ = 1;
+    post_data_length_counter_ = 0;
     post_data_length_ = 0;
 
     std::string val = req.get_header_value("Content-Length");
diff --git a/server/server/request_parser.hpp b/server/server/request_parser.hpp
index 887914d..f548b36 100644
--- a/server/server/request_parser.hpp
+++ b/server/server/request_parser.hpp
@@ -86,16 +86,13 @@ private:
     header_value,
     expecting_newline_2,
     expecting_newline_3,
-    post_line_start,
-    multipart_start
+    post_data
   } state_;
 
   void set_post_data_length(request& req);
   int post_data_length_;
   int post_data_length_counter_;
 
-  bool is_multipart(request& req);
-
 };
 
 } // namespace server3
-- 
2.43.0


From c5f1121ad7ee343409f17f83228f3dcd52c13792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 038/143] fix: find request headers whatever the case of their
 names

---
 server/server/request.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/server/request.hpp b/server/server/request.hpp
index cb2f975..5c5431d 100644
--- a/server/server/request.hpp
+++ b/server/server/request.hpp
@@ -8,6 +8,7 @@
 
 #include <string>
 #include <vector>
+#include <boost/algorithm/string/predicate.hpp>
 #include "header.hpp"
 
 namespace http {
@@ -25,7 +26,8 @@ struct request
 
     std::string get_header_value(const char * str) {
         for (unsigned int i = headers.size(); i > 0; i--) {
-            if (headers[i-1].name == str) {
+            // names of headers are case-insensitive
+            if (boost::algorithm::iequals(headers[i-1].name, str)) {
                 return headers[i-1].value;
             }
         }
-- 
2.43.0


From 12bbde2065146ad2d7c34a00d7575563c1e143f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 039/143] fix: answer a request for a directory with Not Found

---
 server/server/request_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index d25e1a0..55c119b 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -7,6 +7,7 @@
 #include <fstream>
 #include <sstream>
 #include <string>
+#include <boost/filesystem/operations.hpp>
 #include <boost/lexical_cast.hpp>
 #include "mime_types.hpp"
 #include "reply.hpp"
@@ -56,7 +57,7 @@ void request_handler::handle_request(const request& req, reply& rep)
   // Open the file to send back.
   std::string full_path = doc_root_ + request_path;
   std::ifstream is(full_path.c_str(), std::ios::in | std::ios::binary);
-  if (!is)
+  if (!is || boost::filesystem::is_directory(full_path))
   {
     rep = reply::stock_reply(reply::not_found);
     return;
-- 
2.43.0


From 8a9662cb65cb4260a0e855f20e9020d4614f4138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 040/143] fix: reject a percent sign not followed by two
 hexadecimal digits in a request path

---
 server/server/request_handler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index 55c119b..56343ba 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -4,6 +4,7 @@
 //
 
 #include "request_handler.hpp"
+#include <cctype>
 #include <fstream>
 #include <sstream>
 #include <string>
@@ -83,7 +84,8 @@ bool request_handler::url_decode(const std::string& in, std::string& out)
   {
     if (in[i] == '%')
     {
-      if (i + 3 <= in.size())
+      if (i + 3 <= in.size() && isxdigit((unsigned char) in[i + 1])
+          && isxdigit((unsigned char) in[i + 2]))
       {
         int value = 0;
         std::istringstream is(in.substr(i + 1, 2));
-- 
2.43.0


From c4c4447c558589ff2b3451899c5b5d927c72c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 041/143] fix: do not serve a file whose name is only a
 beginning of the requested one

---
 server/server/request_handler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index 56343ba..8f8ec57 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -40,6 +40,13 @@ void request_handler::handle_request(const request& req, reply& rep)
     return;
   }
 
+  // No file has a null character in its name.
+  if (request_path.find('\0') != std::string::npos)
+  {
+    rep = reply::stock_reply(reply::not_found);
+    return;
+  }
+
   // If path ends in slash (i.e. is a directory) then add "index.html".
   if (request_path[request_path.size() - 1] == '/')
   {
-- 
2.43.0


From 77b6f97f15f4ca47162d336db2f52cf392e52abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 042/143] fix: decode names and values of forms with missing
 equals signs or malformed escapes

---
 server/psi_server.cpp | 60 ++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/server/psi_server.cpp b/server/psi_server.cpp
index 9e7a0c7..0c2c104 100644
--- a/server/psi_server.cpp
+++ b/server/psi_server.cpp
@@ -8,6 +8,8 @@
 #include <boost/bind.hpp>
 #include <boost/lexical_cast.hpp>
 
+#include <cctype>
+#include <cstdlib>
 #include <iostream>
 
 typedef std::multimap <std::string, std::string> psis_mmp_name_value;
@@ -175,34 +177,28 @@ void PsiServer::parseMultipartFormData(http::server3::request& req) {
 }
 
 void PsiServer::parseNamesAndValues(std::string uri, int q) {
-    std::string name;
-    std::string value;
+    size_t p = q;
 
-    int p = q;
-    int flag_done = 0;
+    while (p < uri.length()) {
+        size_t end = uri.find("&", p);
+        if (end == std::string::npos) {
+            end = uri.length();
+        }
 
-    while (!flag_done) {
-        q = uri.find("=", p);
-        name = uri.substr(p, q-p);
-        p = q + 1;
-        q = uri.find("&", p);
+        std::string name = uri.substr(p, end - p);
+        std::string value;
 
-        if (q != -1) {
-            value = uri.substr(p, q-p);
-        } else {
-            value = uri.substr(p);
-            flag_done = 1;
+        size_t equals = name.find("=");
+        if (equals != std::string::npos) {
+            value = name.substr(equals + 1);
+            name.erase(equals);
         }
 
-        // the browser sends blanks as +
-        while (1) {
-            int p = value.find("+");
-            if (p == -1) break;
-            value.replace(p, 1, " ");
+        if (end > p) {
+            addDataToCurrentSession(urlDecode(name), urlDecode(value));
         }
 
-        addDataToCurrentSession(name, urlDecode(value));
-        p = q + 1;
+        p = end + 1;
     }
 }
 
@@ -213,25 +209,25 @@ void PsiServer::addDataToCurrentSession(std::string key, std::string value) {
 std::string PsiServer::urlDecode(std::string & encodedString) {
     std::string decodedString;
 
-    char ch;
-    unsigned int i;
-    int j;
-
-    for (i = 0; i < encodedString.length(); i++) {
+    for (size_t i = 0; i < encodedString.length(); i++) {
 
-        if (int(encodedString[i]) == 37) {
-            sscanf(encodedString.substr(i+1, 2).c_str(), "%2x", &j);
+        if (encodedString[i] == '%' && i + 2 < encodedString.length()
+            && isxdigit((unsigned char) encodedString[i + 1])
+            && isxdigit((unsigned char) encodedString[i + 2])) {
 
-            ch = static_cast<char>(j);
-            decodedString += ch;
-            i = i + 2;
+            decodedString += static_cast<char>(
+                strtol(encodedString.substr(i + 1, 2).c_str(), NULL, 16));
+            i += 2;
 
+        } else if (encodedString[i] == '+') {
+            // the browser sends blanks as +
+            decodedString += ' ';
         } else {
             decodedString += encodedString[i];
         }
     }
 
-    return (decodedString);
+    return decodedString;
 }
 
 Session * PsiServer::session() {
-- 
2.43.0


From 75c8616fd153cdf4ad22399e37db7fdaa88d8694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 043/143] fix: keep the whole content of a form field accepted
 in pieces or containing a null character

---
 server/mpfd-parser/Field.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/server/mpfd-parser/Field.cpp b/server/mpfd-parser/Field.cpp
index 610ae2d..939c1be 100644
--- a/server/mpfd-parser/Field.cpp
+++ b/server/mpfd-parser/Field.cpp
@@ -17,7 +17,7 @@ MPFD::Field::Field() {
 MPFD::Field::~Field() {
 
     if (FieldContent) {
-        delete FieldContent;
+        free(FieldContent);
     }
 
     if (type == FileType) {
@@ -49,14 +49,11 @@ int MPFD::Field::GetType() {
 
 void MPFD::Field::AcceptSomeData(char *data, long length) {
     if (type == TextType) {
-        if (FieldContent == NULL) {
-            FieldContent = new char[length + 1];
-        } else {
-            FieldContent = (char*) realloc(FieldContent, FieldContentLength + length + 1);
-        }
+        FieldContent = (char*) realloc(FieldContent, FieldContentLength + length + 1);
 
         memcpy(FieldContent + FieldContentLength, data, length);
-        FieldContent[FieldContentLength + length] = 0;
+        FieldContentLength += length;
+        FieldContent[FieldContentLength] = 0;
     } else if (type == FileType) {
         if (WhereToStoreUploadedFiles == Parser::StoreUploadedFilesInFilesystem) {
             if (TempDir.length() > 0) {
@@ -92,11 +89,7 @@ void MPFD::Field::AcceptSomeData(char *data, long length) {
                 throw MPFD::Exception("Trying to AcceptSomeData for a file but no TempDir is set.");
             }
         } else { // If files are stored in memory
-            if (FieldContent == NULL) {
-                FieldContent = new char[length];
-            } else {
-                FieldContent = (char*) realloc(FieldContent, FieldContentLength + length);
-            }
+            FieldContent = (char*) realloc(FieldContent, FieldContentLength + length);
             memcpy(FieldContent + FieldContentLength, data, length);
             FieldContentLength += length;
         }
@@ -151,7 +144,7 @@ std::string MPFD::Field::GetTextTypeContent() {
             if (FieldContent == NULL) {
                 return std::string();
             } else {
-                return std::string(FieldContent);
+                return std::string(FieldContent, FieldContentLength);
             }
         }
     }
-- 
2.43.0


From 413b99b1bd25ee034cb47c0ae57d40bf29120f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 044/143] fix: free the collected form data the way it was
 allocated

---
 server/mpfd-parser/Parser.cpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/server/mpfd-parser/Parser.cpp b/server/mpfd-parser/Parser.cpp
index 5941706..629c365 100644
--- a/server/mpfd-parser/Parser.cpp
+++ b/server/mpfd-parser/Parser.cpp
@@ -28,7 +28,7 @@ MPFD::Parser::~Parser() {
     }
 
     if (DataCollector) {
-        delete DataCollector;
+        free(DataCollector);
     }
 }
 
@@ -52,15 +52,9 @@ void MPFD::Parser::SetContentType(const std::string & type) {
 void MPFD::Parser::AcceptSomeData(const char *data, const long length) {
     if (Boundary.length() > 0) {
         // Append data to existing accumulator
-        if (DataCollector == NULL) {
-            DataCollector = new char[length];
-            memcpy(DataCollector, data, length);
-            DataCollectorLength = length;
-        } else {
-            DataCollector = (char*) realloc(DataCollector, DataCollectorLength + length);
-            memcpy(DataCollector + DataCollectorLength, data, length);
-            DataCollectorLength += length;
-        }
+        DataCollector = (char*) realloc(DataCollector, DataCollectorLength + length);
+        memcpy(DataCollector + DataCollectorLength, data, length);
+        DataCollectorLength += length;
 
         if (DataCollectorLength > MaxDataCollectorLength) {
             throw Exception("Maximum data collector length reached.");
@@ -137,11 +131,12 @@ bool MPFD::Parser::WaitForHeadersEndAndParseThem() {
             memset(headers, 0, headers_length + 1);
             memcpy(headers, DataCollector, headers_length);
 
-            _ParseHeaders(std::string(headers));
+            std::string headersStr(headers);
+            delete[] headers;
 
-            TruncateDataCollectorFromTheBeginning(i + 4);
+            _ParseHeaders(headersStr);
 
-            //delete headers;
+            TruncateDataCollectorFromTheBeginning(i + 4);
 
             return true;
         }
@@ -222,15 +217,10 @@ void MPFD::Parser::SetMaxCollectedDataLength(long max) {
 void MPFD::Parser::TruncateDataCollectorFromTheBeginning(long n) {
     long TruncatedDataCollectorLength = DataCollectorLength - n;
 
-    char *tmp = DataCollector;
-
-    DataCollector = new char[TruncatedDataCollectorLength];
-    memcpy(DataCollector, tmp + n, TruncatedDataCollectorLength);
+    memmove(DataCollector, DataCollector + n, TruncatedDataCollectorLength);
 
     DataCollectorLength = TruncatedDataCollectorLength;
 
-    delete tmp;
-
 }
 
 long MPFD::Parser::BoundaryPositionInDataCollector() {
-- 
2.43.0


From e542902432df916d19443f58b94b67c1a2ed3edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 045/143] fix: read the whole content type of a file field

---
 server/mpfd-parser/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/mpfd-parser/Parser.cpp b/server/mpfd-parser/Parser.cpp
index 629c365..ebfbdb7 100644
--- a/server/mpfd-parser/Parser.cpp
+++ b/server/mpfd-parser/Parser.cpp
@@ -195,7 +195,7 @@ void MPFD::Parser::_ParseHeaders(std::string headers) {
                 long content_type_end_pos = 0;
                 for (unsigned int i = content_type_pos + 14; (i < headers.length()) && (!content_type_end_pos); i++) {
                     if ((headers[i] == ' ') || (headers[i] == 10) || (headers[i] == 13)) {
-                        content_type_end_pos = i - 1;
+                        content_type_end_pos = i;
                     }
                 }
                 std::string content_type = headers.substr(content_type_pos + 14, content_type_end_pos - (content_type_pos + 14));
-- 
2.43.0


From 3c30c47bf89e9a580c3c7512d89a7daf812c2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 046/143] fix: do not look for fields of a form after its
 closing boundary

---
 server/mpfd-parser/Parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/mpfd-parser/Parser.cpp b/server/mpfd-parser/Parser.cpp
index ebfbdb7..ef97152 100644
--- a/server/mpfd-parser/Parser.cpp
+++ b/server/mpfd-parser/Parser.cpp
@@ -124,6 +124,11 @@ bool MPFD::Parser::ProcessContentOfTheField() {
 }
 
 bool MPFD::Parser::WaitForHeadersEndAndParseThem() {
+    // The closing boundary is followed by two dashes, no field follows it.
+    if (DataCollectorLength >= 2 && DataCollector[0] == '-' && DataCollector[1] == '-') {
+        return false;
+    }
+
     for (int i = 0; i < DataCollectorLength - 3; i++) {
         if ((DataCollector[i] == 13) && (DataCollector[i + 1] == 10) && (DataCollector[i + 2] == 13) && (DataCollector[i + 3] == 10)) {
             long headers_length = i;
-- 
2.43.0


From 5de1395d6aab86dd2f8f01ba9d09c9b7bec145df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 047/143] fix: accept a quoted boundary of a form and
 parameters after it

---
 server/mpfd-parser/Parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/server/mpfd-parser/Parser.cpp b/server/mpfd-parser/Parser.cpp
index ef97152..1edd209 100644
--- a/server/mpfd-parser/Parser.cpp
+++ b/server/mpfd-parser/Parser.cpp
@@ -46,7 +46,15 @@ void MPFD::Parser::SetContentType(const std::string & type) {
         throw MPFD::Exception(std::string("Cannot find boundary in Content-type: \"") + type + std::string("\""));
     }
 
-    Boundary = std::string("--") + type.substr(bp + 9, type.length() - bp);
+    // the boundary may be quoted and followed by other parameters
+    std::string boundary = type.substr(bp + 9);
+    if (!boundary.empty() && boundary[0] == '"') {
+        boundary = boundary.substr(1, boundary.find('"', 1) - 1);
+    } else {
+        boundary = boundary.substr(0, boundary.find_first_of("; "));
+    }
+
+    Boundary = std::string("--") + boundary;
 }
 
 void MPFD::Parser::AcceptSomeData(const char *data, const long length) {
-- 
2.43.0


From 934aa4077ef05c7e08fb5134e5bbd7b025968ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 048/143] fix: find the session cookie by its whole name

---
 server/session_manager.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/server/session_manager.cpp b/server/session_manager.cpp
index 684ba30..b58114d 100644
--- a/server/session_manager.cpp
+++ b/server/session_manager.cpp
@@ -7,13 +7,24 @@ std::string SessionManager::cookieIdentifier = "PSISESSIONID";
 int SessionManager::sessionIdLength = 25;
 
 std::string SessionManager::SessionId(std::string cookies) {
-    size_t hasId = cookies.find(cookieIdentifier);
-
-    std::string id = "";
-    if (hasId != std::string::npos) {
-        id = cookies.substr(hasId + cookieIdentifier.size() + 1, sessionIdLength);
+    const std::string prefix = cookieIdentifier + "=";
+
+    size_t start = 0;
+    while (start < cookies.size()) {
+        size_t end = cookies.find(';', start);
+        if (end == std::string::npos) {
+            end = cookies.size();
+        }
+
+        start = cookies.find_first_not_of(" \t", start);
+        if (start < end && cookies.compare(start, prefix.size(), prefix) == 0) {
+            start += prefix.size();
+            return cookies.substr(start, end - start);
+        }
+
+        start = end + 1;
     }
-    return id;
+    return std::string("");
 }
 
 std::string SessionManager::CookieHeaderValue(std::string & id) {
-- 
2.43.0


From f1eab09e4ad7185bb955cb199cc79e368405fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 049/143] fix: do not handle requests of several clients at the
 same time

---
 server/psi_request_handler.cpp | 2 ++
 server/psi_request_handler.hpp | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/server/psi_request_handler.cpp b/server/psi_request_handler.cpp
index 64a51db..4820e9c 100644
--- a/server/psi_request_handler.cpp
+++ b/server/psi_request_handler.cpp
@@ -37,6 +37,8 @@ std::map<std::string, std::string> PsiRequestHandler::fileExceptionsToContentTyp
 void PsiRequestHandler::handle_request(
     const http::server3::request& req, http::server3::reply& rep
 ) {
+    boost::mutex::scoped_lock lock(mutex_);
+
     http::server3::request req_modified = req;
 
     // session management
diff --git a/server/psi_request_handler.hpp b/server/psi_request_handler.hpp
index abe865f..ba1520a 100644
--- a/server/psi_request_handler.hpp
+++ b/server/psi_request_handler.hpp
@@ -3,6 +3,8 @@
 #ifndef PSI_SERVER_HANDLER_HDR
 #define PSI_SERVER_HANDLER_HDR
 
+#include <boost/thread/mutex.hpp>
+
 #include "server/request_handler.hpp"
 
 class PsiServer;
@@ -19,6 +21,9 @@ public:
 private:
     PsiServer* psi_server_;
 
+    /// the current session and the contents of sites are common to all threads
+    boost::mutex mutex_;
+
     static std::map<std::string, std::string> filesToContentTypes;
     static std::map<std::string, std::string> fileExceptionsToContentTypes;
 
-- 
2.43.0


From f3bb9ed37f2c209de2c36d747286ddb083822c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 050/143] fix: escape all texts in the JSON API reply, and all
 characters which need it

---
 server/site/json_site.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/server/site/json_site.cpp b/server/site/json_site.cpp
index 40f668b..82300a6 100644
--- a/server/site/json_site.cpp
+++ b/server/site/json_site.cpp
@@ -1,8 +1,8 @@
+#include <iomanip>
 #include <string>
 #include <boost/bind.hpp>
 #include <boost/assign.hpp>
 #include <boost/foreach.hpp>
-#include <boost/algorithm/string/replace.hpp>
 
 #include "json_site.hpp"
 #include "pipe_runner.hpp"
@@ -17,10 +17,12 @@ std::map<std::string, std::string> JsonSite::ESCAPED_CHARS =
     boost::assign::map_list_of
         ("/", "\\/")
         ("\"", "\\\"")
+        ("\\", "\\\\")
         ("\n", "\\n")
         ("\r", "\\r")
         ("\t", "\\t")
         ("\b", "\\b")
+        ("\f", "\\f")
         ;
 
 const std::vector<std::string> JsonSite::JSON_WRITERS = boost::assign::list_of
@@ -62,7 +64,7 @@ char * JsonSite::actionJson() {
             addKeyValuePairToOutput_(OUTPUT_KEY_NAME, oss.str());
         }
         else {
-            addKeyValuePairToOutputAsString_(OUTPUT_KEY_NAME, oss.str());
+            addKeyValuePairToOutputAsString_(OUTPUT_KEY_NAME, escape_(oss.str()));
         }
         addKeyValuePairToOutput_(ERROR_KEY_NAME, "null", true);
     }
@@ -70,7 +72,7 @@ char * JsonSite::actionJson() {
         oss << "There are some problems: " << e.what();
 
         addKeyValuePairToOutput_(OUTPUT_KEY_NAME, "null");
-        addKeyValuePairToOutputAsString_(ERROR_KEY_NAME, oss.str(), true);
+        addKeyValuePairToOutputAsString_(ERROR_KEY_NAME, escape_(oss.str()), true);
     }
 
     output_ << " }";
@@ -95,12 +97,23 @@ bool JsonSite::isJavascriptOutput_(std::string pipe) {
 }
 
 std::string JsonSite::escape_(const std::string& text) {
-    std::string escapedText(text);
+    std::ostringstream escapedText;
 
-    typedef std::map<std::string, std::string> string_map;
-    BOOST_FOREACH(const string_map::value_type& pair, ESCAPED_CHARS) {
-        boost::replace_all(escapedText, pair.first, pair.second);
+    for (size_t i = 0; i < text.size(); ++i) {
+        std::map<std::string, std::string>::const_iterator escaped =
+            ESCAPED_CHARS.find(text.substr(i, 1));
+
+        if (escaped != ESCAPED_CHARS.end()) {
+            escapedText << escaped->second;
+        }
+        else if (static_cast<unsigned char>(text[i]) < 0x20) {
+            escapedText << "\\u" << std::hex << std::setw(4) << std::setfill('0')
+                << static_cast<int>(text[i]);
+        }
+        else {
+            escapedText << text[i];
+        }
     }
 
-    return escapedText;
+    return escapedText.str();
 }
-- 
2.43.0


From f5bf1205adae962b6e1fee413fc0cf7d409b8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 051/143] fix: do not look for the name of a requested file in
 the query

---
 server/psi_request_handler.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/server/psi_request_handler.cpp b/server/psi_request_handler.cpp
index 4820e9c..681cbaf 100644
--- a/server/psi_request_handler.cpp
+++ b/server/psi_request_handler.cpp
@@ -110,18 +110,13 @@ std::string PsiRequestHandler::getContentType(const std::string & uri) {
 }
 
 std::string PsiRequestHandler::getFileName(const std::string & uri) {
-    size_t startFile = uri.find_last_of('/');
-    size_t endFile = uri.find_last_of('?');
+    std::string path = uri.substr(0, uri.find('?'));
+    size_t startFile = path.find_last_of('/');
 
     std::string file = "";
 
     if (startFile != std::string::npos) {
-        if (endFile != std::string::npos) {
-            file = uri.substr(startFile + 1, endFile - startFile - 1);
-        }
-        else {
-            file = uri.substr(startFile + 1);
-        }
+        file = path.substr(startFile + 1);
     }
 
     return file;
-- 
2.43.0


From 394040ae14fc17388b04dd3ec9fd25c66a6f630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 052/143] fix: do not give an error page the content type of
 the missing file

---
 server/psi_request_handler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/server/psi_request_handler.cpp b/server/psi_request_handler.cpp
index 681cbaf..afdd2aa 100644
--- a/server/psi_request_handler.cpp
+++ b/server/psi_request_handler.cpp
@@ -67,7 +67,9 @@ void PsiRequestHandler::handle_request(
     psi_server_->include(rep.content);
 
     rep.headers[0].value = boost::lexical_cast<std::string>(rep.content.size());
-    rep.headers[1].value = getContentType(req.uri);
+    if (rep.status == http::server3::reply::ok) {
+        rep.headers[1].value = getContentType(req.uri);
+    }
 
     //set cookie with session id for browser
     if (!hasId) {
-- 
2.43.0


From bff697563562e56b7e144e5500f0a5f235ddd92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 053/143] fix: look for directives only in pages

---
 server/psi_request_handler.cpp | 13 ++++++++++++-
 server/psi_request_handler.hpp |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/server/psi_request_handler.cpp b/server/psi_request_handler.cpp
index afdd2aa..082c503 100644
--- a/server/psi_request_handler.cpp
+++ b/server/psi_request_handler.cpp
@@ -64,7 +64,9 @@ void PsiRequestHandler::handle_request(
     //handle request
     psi_server_->checkForAction(req_modified);
     http::server3::request_handler::handle_request(req_modified, rep);
-    psi_server_->include(rep.content);
+    if (isPage(req_modified.uri)) {
+        psi_server_->include(rep.content);
+    }
 
     rep.headers[0].value = boost::lexical_cast<std::string>(rep.content.size());
     if (rep.status == http::server3::reply::ok) {
@@ -111,6 +113,15 @@ std::string PsiRequestHandler::getContentType(const std::string & uri) {
     return content;
 }
 
+bool PsiRequestHandler::isPage(const std::string & uri) {
+    std::string file = getFileName(uri);
+    std::map<std::string, std::string>::iterator type =
+        filesToContentTypes.find(getFileExtension(file));
+
+    return file.empty()
+        || (type != filesToContentTypes.end() && type->second == "text/html");
+}
+
 std::string PsiRequestHandler::getFileName(const std::string & uri) {
     std::string path = uri.substr(0, uri.find('?'));
     size_t startFile = path.find_last_of('/');
diff --git a/server/psi_request_handler.hpp b/server/psi_request_handler.hpp
index ba1520a..dbfdeae 100644
--- a/server/psi_request_handler.hpp
+++ b/server/psi_request_handler.hpp
@@ -27,6 +27,7 @@ private:
     static std::map<std::string, std::string> filesToContentTypes;
     static std::map<std::string, std::string> fileExceptionsToContentTypes;
 
+    bool isPage(const std::string & uri);
     std::string getContentType(const std::string & uri);
     std::string getFileName(const std::string & uri);
     std::string getFileExtension(std::string fileName);
-- 
2.43.0


From 4c4acc7845a25b5fbf84119d19c01f2e11458808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 054/143] fix: store a file of unknown type with the default
 extension

---
 common/file_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/file_storage.cpp b/common/file_storage.cpp
index c7e9f24..1d649a9 100644
--- a/common/file_storage.cpp
+++ b/common/file_storage.cpp
@@ -34,7 +34,7 @@ FileStorage::FileStorage(const std::string& rootPath)
 std::string FileStorage::storeFile(const std::string& content) {
     std::string ext = fileRecognizer_.recognizeFileExtension(content);
 
-    if (ext == FileRecognizer::UNKNOWN_TYPE) {
+    if (ext == FileRecognizer::UNKNOWN_TYPE || ext == FileRecognizer::UNKNOWN_EXTENSION) {
         ext = DEFAULT_FILE_EXTENSION;
     }
 
-- 
2.43.0


From 81ad1db7357d2961cf0160bdf1fd9603dee61061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 055/143] fix: escape the input text and an output of unknown
 type in the page

---
 server/site/pipe_site.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/site/pipe_site.cpp b/server/site/pipe_site.cpp
index cccc779..b28606d 100644
--- a/server/site/pipe_site.cpp
+++ b/server/site/pipe_site.cpp
@@ -49,7 +49,7 @@ void PipeSite::registerIncludesAndActions_() {
 
 char * PipeSite::inputText() {
     std::string input = getOrSetDefaultData_("input-text", initialText_);
-    return stringToChar(input);
+    return stringToChar(encodeHTML_(input));
 }
 
 char * PipeSite::pipeText() {
@@ -249,7 +249,7 @@ std::string PipeSite::generateOutput_(const std::string& rawOutput) {
         output << "<pre>" << encodeHTML_(rawOutput) << "</pre>";
     }
     if (type == FileRecognizer::UNKNOWN_TYPE) {
-        output << "<pre>" << rawOutput << "</pre>";
+        output << "<pre>" << encodeHTML_(rawOutput) << "</pre>";
         output << "[output format not recognized]";
     }
 
-- 
2.43.0


From 44808026cf1e3ca433dfbf01b2d9c97ade9cbd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 056/143] fix: escape the options passed to the script of the
 page

---
 server/site/pipe_site.cpp | 27 +++++++++++++++++++++++----
 server/site/pipe_site.hpp |  1 +
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/server/site/pipe_site.cpp b/server/site/pipe_site.cpp
index b28606d..f909596 100644
--- a/server/site/pipe_site.cpp
+++ b/server/site/pipe_site.cpp
@@ -112,10 +112,10 @@ char * PipeSite::hiddenOptions() {
 
     std::string opts =
         std::string("psisOptions = {") +
-        std::string("'isInputFile' : '") + fileOnOff + std::string("', ") +
-        std::string("'fileToDownload' : '") + outputFile + std::string("', ") +
-        std::string("'initialOutputType' : '") + outputType + std::string("', " ) +
-        std::string("'errorOccured' : '") + errorOccured + std::string("' ") +
+        std::string("'isInputFile' : '") + encodeJavaScript_(fileOnOff) + std::string("', ") +
+        std::string("'fileToDownload' : '") + encodeJavaScript_(outputFile) + std::string("', ") +
+        std::string("'initialOutputType' : '") + encodeJavaScript_(outputType) + std::string("', " ) +
+        std::string("'errorOccured' : '") + encodeJavaScript_(errorOccured) + std::string("' ") +
         std::string("};");
 
     psiServer_.session()->clearData("radio-file");
@@ -273,3 +273,22 @@ std::string PipeSite::encodeHTML_(const std::string& data) {
 
     return buffer;
 }
+
+std::string PipeSite::encodeJavaScript_(const std::string& data) {
+    std::string buffer;
+    buffer.reserve(data.size());
+
+    for (size_t pos = 0; pos != data.size(); ++pos) {
+        switch (data[pos]) {
+            case '\\': buffer.append("\\\\");     break;
+            case '\"': buffer.append("\\\"");     break;
+            case '\'': buffer.append("\\'");      break;
+            case '\n': buffer.append("\\n");      break;
+            case '\r': buffer.append("\\r");      break;
+            case '<':  buffer.append("\\x3C");    break;
+            default:   buffer.append(1, data[pos]); break;
+        }
+    }
+
+    return buffer;
+}
diff --git a/server/site/pipe_site.hpp b/server/site/pipe_site.hpp
index 2e8c364..a72d2fe 100644
--- a/server/site/pipe_site.hpp
+++ b/server/site/pipe_site.hpp
@@ -50,6 +50,7 @@ private:
     void tryToAddGuessingReader_(std::string& pipe);
 
     std::string encodeHTML_(const std::string& data);
+    std::string encodeJavaScript_(const std::string& data);
 
     EncodingConverter encodingConverter_;
 
-- 
2.43.0


From d5f43091d975484586e76a56a994cd525cb33f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 057/143] fix: print the annotations of units not beginning at
 the start of the text and stop at the end of the unit; make --linear skip
 crossing annotations

---
 common/lattice_iter_writer.cpp | 53 ++++++++++++++++++++++------------
 common/lattice_iter_writer.hpp |  2 ++
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/common/lattice_iter_writer.cpp b/common/lattice_iter_writer.cpp
index b93871c..6d0ed75 100644
--- a/common/lattice_iter_writer.cpp
+++ b/common/lattice_iter_writer.cpp
@@ -22,13 +22,13 @@ void LatticeIterWriter::run() {
     }
     bool alternativeOpened = false;
 
+    Lattice::VertexDescriptor linearTarget = vd;
+
     bool printElements = true;
 
-    while (linear_ ? true : vi.hasNext()) {
+    while (vi.hasNext()) {
 
-        if (!linear_) {
-            vd = vi.next();
-        }
+        vd = vi.next();
 
         Lattice::InOutEdgesIterator oei
             = lattice_.outEdges(vd, lattice_.getLayerTagManager().anyTag());
@@ -62,7 +62,8 @@ void LatticeIterWriter::run() {
                         fmi->second.push(edge);
                     }
                 }
-                if (isHandledTag_(tag) && targets[tag] == vd) {
+                if (isHandledTag_(tag)
+                    && (!groupOpened[tag] || isReached_(targets[tag], vd))) {
                     targets[tag] = lattice_.getEdgeTarget(edge);
                     if (groupOpened[tag]) {
                         outputIterator_.closeGroup(tag);
@@ -73,6 +74,14 @@ void LatticeIterWriter::run() {
             }
         }
 
+        // close the groups which end here and are not followed by another one
+        BOOST_FOREACH(std::string tag, handledTags_) {
+            if (groupOpened[tag] && isReached_(targets[tag], vd)) {
+                outputIterator_.closeGroup(tag);
+                groupOpened[tag] = false;
+            }
+        }
+
         // check if there is need for printing anything
         // (prevents from printing edges not covered by --spec-ified tags)
         if (!handledTags_.empty()) {
@@ -108,6 +117,15 @@ void LatticeIterWriter::run() {
             }
         }
 
+        // skip edges starting before the end of the previous one
+        if (linear_ && !basicTagEdges.empty() && printElements) {
+            if (isReached_(linearTarget, vd)) {
+                linearTarget = lattice_.getEdgeTarget(basicTagEdges.front());
+            } else {
+                basicTagEdges = std::queue<Lattice::EdgeDescriptor>();
+            }
+        }
+
         // print edges
         while (!basicTagEdges.empty()) {
             Lattice::EdgeDescriptor basicTagEdge = basicTagEdges.front();
@@ -136,21 +154,12 @@ void LatticeIterWriter::run() {
             alternativeOpened = false;
         }
 
-        if (linear_) {
-            try {
-                vd = lattice_.getEdgeTarget(
-                    lattice_.firstOutEdge(vd, lattice_.getLayerTagManager().anyTag())
-                );
-            } catch (NoEdgeException) {
-                break;
-            }
-        }
-
     }
 
-    typedef std::pair<std::string, Lattice::VertexDescriptor> TagTargetPair;
-    BOOST_FOREACH(TagTargetPair tagTargetpair, targets) {
-        outputIterator_.closeGroup(tagTargetpair.first);
+    BOOST_FOREACH(std::string tag, handledTags_) {
+        if (groupOpened[tag]) {
+            outputIterator_.closeGroup(tag);
+        }
     }
 
     outputIterator_.flush();
@@ -160,3 +169,11 @@ void LatticeIterWriter::run() {
 bool LatticeIterWriter::isHandledTag_(std::string tagName) {
     return std::find(handledTags_.begin(), handledTags_.end(), tagName) != handledTags_.end();
 }
+
+bool LatticeIterWriter::isReached_(
+    Lattice::VertexDescriptor target, Lattice::VertexDescriptor vertex) {
+
+    return target == vertex
+        || (!lattice_.isLooseVertex(target) && !lattice_.isLooseVertex(vertex)
+            && target < vertex);
+}
diff --git a/common/lattice_iter_writer.hpp b/common/lattice_iter_writer.hpp
index f4029cd..d948060 100644
--- a/common/lattice_iter_writer.hpp
+++ b/common/lattice_iter_writer.hpp
@@ -56,6 +56,8 @@ private:
 
     bool isHandledTag_(std::string tagName);
 
+    bool isReached_(Lattice::VertexDescriptor target, Lattice::VertexDescriptor vertex);
+
 };
 
 #endif
-- 
2.43.0


From b12a79b0d4461ba0c61cd97c0e7af417074a09bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 058/143] fix: separate annotations of different units, and
 those following a unit, in the simple writer

---
 ..._lattice_writer_stream_output_iterator.cpp | 28 +++++++++++++------
 ..._lattice_writer_stream_output_iterator.hpp |  3 ++
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/formats/simple/simple_lattice_writer_stream_output_iterator.cpp b/formats/simple/simple_lattice_writer_stream_output_iterator.cpp
index 91b20fc..d9ad1ca 100644
--- a/formats/simple/simple_lattice_writer_stream_output_iterator.cpp
+++ b/formats/simple/simple_lattice_writer_stream_output_iterator.cpp
@@ -9,7 +9,8 @@ SimpleLatticeWriterStreamOutputIterator::SimpleLatticeWriterStreamOutputIterator
     outputStream_(outputStream),
     altSep_(altSep),
     sep_(sep),
-    alternativeOpened_(false)
+    alternativeOpened_(false),
+    groupSeparated_(false)
 { }
 
 SimpleLatticeWriterStreamOutputIterator::~SimpleLatticeWriterStreamOutputIterator() {
@@ -62,7 +63,9 @@ void SimpleLatticeWriterStreamOutputIterator::doOpenGroup(const std::string& gro
         if (groupOpened_[group]) {
             doCloseGroup(group);
         }
+        flushBlock_();
         if (mainSs_.str() != "") {
+            groupSeparated_ = true;
             if (sepSs_.str().find((*smi).second) == std::string::npos) {
                 sepSs_ << (*smi).second;
             }
@@ -74,18 +77,27 @@ void SimpleLatticeWriterStreamOutputIterator::doOpenGroup(const std::string& gro
 void SimpleLatticeWriterStreamOutputIterator::doCloseGroup(const std::string& group) {
     std::map<std::string, std::string>::iterator smi = sepMap_.find(group);
     if (smi != sepMap_.end()) {
-        if (blockSs_.str() != "") {
-            mainSs_ << sepSs_.str();
-            sepSs_.str("");
-            mainSs_ << blockSs_.str();
-        }
-        blockSs_.str("");
+        flushBlock_();
         groupOpened_[group] = false;
     }
 }
 
 void SimpleLatticeWriterStreamOutputIterator::doFlush() {
     blockSs_ << alternativeSs_.str();
-    mainSs_ << blockSs_.str();
+    flushBlock_();
     outputStream_ << mainSs_.str();
 }
+
+void SimpleLatticeWriterStreamOutputIterator::flushBlock_() {
+    if (blockSs_.str() != "") {
+        if (groupSeparated_) {
+            mainSs_ << sepSs_.str();
+        } else if (mainSs_.str() != "") {
+            mainSs_ << sep_;
+        }
+        sepSs_.str("");
+        groupSeparated_ = false;
+        mainSs_ << blockSs_.str();
+    }
+    blockSs_.str("");
+}
diff --git a/formats/simple/simple_lattice_writer_stream_output_iterator.hpp b/formats/simple/simple_lattice_writer_stream_output_iterator.hpp
index 0f5dcd7..fbe2c2e 100644
--- a/formats/simple/simple_lattice_writer_stream_output_iterator.hpp
+++ b/formats/simple/simple_lattice_writer_stream_output_iterator.hpp
@@ -36,6 +36,7 @@ private:
     std::stringstream mainSs_;
 
     bool alternativeOpened_;
+    bool groupSeparated_;
     std::map<std::string, bool> groupOpened_;
 
     virtual void doPutElement(const AnnotationItem& element);
@@ -50,6 +51,8 @@ private:
 
     virtual void doFlush();
 
+    void flushBlock_();
+
 };
 
 #endif
-- 
2.43.0


From 1c23321eb6d4a7818218c4cea2ce3639bfc95b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 059/143] fix: escape control characters in JSON output

---
 .../json_lattice_writer_output.cpp            | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/formats/json-simple/json_lattice_writer_output.cpp b/formats/json-simple/json_lattice_writer_output.cpp
index 2a16926..c199fe4 100644
--- a/formats/json-simple/json_lattice_writer_output.cpp
+++ b/formats/json-simple/json_lattice_writer_output.cpp
@@ -1,3 +1,4 @@
+#include <iomanip>
 #include <iostream>
 #include <list>
 #include <string>
@@ -185,11 +186,21 @@ void JSONLatticeWriterOutput::printCurrentArrayToString_(std::string & output) {
 
 void JSONLatticeWriterOutput::createEscapedJSONString_(
                 const std::string & content, std::string & output) {
-    output = content;
-    boost::replace_all(output, "\\", "\\\\");
-    boost::replace_all(output, "\"", "\\\"");
+    std::ostringstream escaped;
+
+    escaped << '"';
+    BOOST_FOREACH(unsigned char c, content) {
+        if (c == '\\' || c == '"') {
+            escaped << '\\' << c;
+        } else if (c < 0x20) {
+            escaped << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)c;
+        } else {
+            escaped << c;
+        }
+    }
+    escaped << '"';
 
-    output = "\"" + output + "\"";
+    output = escaped.str();
 }
 
 
-- 
2.43.0


From 3eb47a5f56bd81feab1be6687c0ba7bfe69feb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 060/143] fix: keep backslashes before other characters in
 brackets

---
 formats/bracketing/bracketing-writer/bracketing_quoter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/bracketing/bracketing-writer/bracketing_quoter.cpp b/formats/bracketing/bracketing-writer/bracketing_quoter.cpp
index b8f07bb..68b6ba7 100644
--- a/formats/bracketing/bracketing-writer/bracketing_quoter.cpp
+++ b/formats/bracketing/bracketing-writer/bracketing_quoter.cpp
@@ -32,7 +32,7 @@ std::string BracketingQuoter::doUnescape(std::string str) {
                 case 't' : result += "\t"; break;
                 case 'r' : result += "\r"; break;
                 case '\\' : result += "\\"; break;
-                default: break;
+                default: result += '\\'; result += str[i]; break;
                 }
             } else {
                 throw QuoterException("Wrong escape sequence.");
-- 
2.43.0


From ad305529cc7de51eddf2013012fb6769ac6500c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 061/143] fix: pass the arguments of a pipeline to processors
 as they are written

---
 framework/shallow_aliaser.cpp | 24 +++++++++++++-----------
 framework/split_pipeline.cpp  |  4 +++-
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/framework/shallow_aliaser.cpp b/framework/shallow_aliaser.cpp
index 1dcb4b5..f1e8ccd 100644
--- a/framework/shallow_aliaser.cpp
+++ b/framework/shallow_aliaser.cpp
@@ -96,20 +96,22 @@ std::string ShallowAliaser::replace(const std::string& pipeline) {
 }
 
 std::vector<std::string> ShallowAliaser::replace(std::vector<std::string> pipeline) {
-    for (size_t i = 0; i < pipeline.size(); ++i) {
-        boost::replace_all(pipeline[i], "\\", "\\\\\\\\");
-        boost::replace_all(pipeline[i], "\\\\\\\\n", "\\\\n");
-        boost::replace_all(pipeline[i], "\\\\\\\\\\\\n", "\\\\\\\\n");
-        boost::replace_all(pipeline[i], "\"", "\\\"");
-        if (pipeline[i].find(" ") != std::string::npos) {
-            pipeline[i] = "\"" + pipeline[i] + "\"";
+    BOOST_FOREACH(const string_map::value_type& pair, ALIASES) {
+        std::vector<std::string> result;
+
+        BOOST_FOREACH(const std::string& element, pipeline) {
+            if (element == pair.first) {
+                std::vector<std::string> expansion = splitPipeline(pair.second);
+                result.insert(result.end(), expansion.begin(), expansion.end());
+            } else {
+                result.push_back(element);
+            }
         }
-    }
 
-    std::string pipelineAsString = boost::algorithm::join(pipeline, " ");
-    std::string resultAsString = replace(pipelineAsString);
+        pipeline.swap(result);
+    }
 
-    return splitPipeline(resultAsString);
+    return pipeline;
 }
 
 std::set<std::string> ShallowAliaser::getAllAliases() {
diff --git a/framework/split_pipeline.cpp b/framework/split_pipeline.cpp
index 925db86..59ac371 100644
--- a/framework/split_pipeline.cpp
+++ b/framework/split_pipeline.cpp
@@ -1,13 +1,15 @@
 #include "split_pipeline.hpp"
 
+#include <boost/algorithm/string/trim.hpp>
 #include <boost/foreach.hpp>
 #include <boost/tokenizer.hpp>
 
 std::vector<std::string> splitPipeline(const std::string& pipeline) {
     std::vector<std::string> strs;
+    const std::string trimmed = boost::algorithm::trim_copy(pipeline);
     // the first element should be the name of the program
     boost::tokenizer< boost::escaped_list_separator<char> >
-        tokenized(pipeline, boost::escaped_list_separator<char>('\\', ' ', '\"'));
+        tokenized(trimmed, boost::escaped_list_separator<char>('\\', ' ', '\"'));
     BOOST_FOREACH(std::string token, tokenized) {
         strs.push_back(token);
     }
-- 
2.43.0


From 53c91279b741c9d9840833144fe70d833618d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 062/143] fix: quote the brackets of the xml-writer alias

---
 framework/shallow_aliaser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework/shallow_aliaser.cpp b/framework/shallow_aliaser.cpp
index f1e8ccd..c00266e 100644
--- a/framework/shallow_aliaser.cpp
+++ b/framework/shallow_aliaser.cpp
@@ -29,14 +29,14 @@ std::map<std::string, std::string> ShallowAliaser::ALIASES =
         ("write-selected",  "simple-writer --tags selected --sep \" \" --no-alts")
         ("get-selected",    "simple-writer --tags selected --sep \" \" --no-alts")
 
-        ("xml-writer", "bracketing-writer --skip-symbol-edges --opening-bracket \n"
-            "<edge tags=\"%T\" category=\"%c\" attrs=\"%A\"> --closing-bracket </edge>\n"
+        ("xml-writer", "bracketing-writer --skip-symbol-edges --opening-bracket"
+            " \"\\n<edge tags=\\\"%T\\\" category=\\\"%c\\\" attrs=\\\"%A\\\">\" --closing-bracket </edge>\n"
             " --av-separator : --av-pairs-separator ;")
-        ("write-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \n"
-            "<edge tags=\"%T\" category=\"%c\" attrs=\"%A\"> --closing-bracket </edge>\n"
+        ("write-xml", "bracketing-writer --skip-symbol-edges --opening-bracket"
+            " \"\\n<edge tags=\\\"%T\\\" category=\\\"%c\\\" attrs=\\\"%A\\\">\" --closing-bracket </edge>\n"
             " --av-separator : --av-pairs-separator ;")
-        ("get-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \n"
-            "<edge tags=\"%T\" category=\"%c\" attrs=\"%A\"> --closing-bracket </edge>\n"
+        ("get-xml", "bracketing-writer --skip-symbol-edges --opening-bracket"
+            " \"\\n<edge tags=\\\"%T\\\" category=\\\"%c\\\" attrs=\\\"%A\\\">\" --closing-bracket </edge>\n"
             " --av-separator : --av-pairs-separator ;")
 
         ("write-forms", "bracketing-writer --tags form --show-only-tags 0"
-- 
2.43.0


From 69aad659ac14caa8a7d83bd103628ef62d9e86c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 063/143] fix: do not read past the arguments when --lang is
 the last one

---
 framework/pipe_runner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/pipe_runner.cpp b/framework/pipe_runner.cpp
index 62159cd..572aa77 100644
--- a/framework/pipe_runner.cpp
+++ b/framework/pipe_runner.cpp
@@ -621,9 +621,9 @@ boost::program_options::variables_map PipeRunner::tryOptions_(
             if (iter != processorArgsWithoutLang.end()) {
                 std::list<std::string>::iterator b_iter = iter;
                 ++b_iter;
-                std::string langCode = *b_iter;
 
                 if (b_iter != processorArgsWithoutLang.end()) {
+                    std::string langCode = *b_iter;
                     ++b_iter;
                     processorArgsWithoutLang.erase(iter, b_iter);
 
-- 
2.43.0


From 4d2262b97ce3ea86733d702d9598ab1f2b967836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 064/143] fix: no completion when there is no language to
 process

---
 framework/auto_completer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/auto_completer.cpp b/framework/auto_completer.cpp
index 0b100a3..d64ad68 100644
--- a/framework/auto_completer.cpp
+++ b/framework/auto_completer.cpp
@@ -93,6 +93,9 @@ void AutoCompleter::complete_(ProcessorPromiseAlternativeSequence& sequence) {
 
                 INFO("multiplying by languages");
 
+                if (langCodes_.empty())
+                    return;
+
                 bool firstTime = true;
 
                 BOOST_FOREACH(std::string langCode, langCodes_) {
-- 
2.43.0


From 80f0107f009e8970b61f113a61d2f47f3b562dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 065/143] fix: stop looking for aliases at the depth limit

---
 framework/aliaser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/aliaser.cpp b/framework/aliaser.cpp
index a32e67c..befc324 100644
--- a/framework/aliaser.cpp
+++ b/framework/aliaser.cpp
@@ -90,9 +90,11 @@ void Aliaser::findAliases_(
     if (isAlias(name))
         aliases.insert(name);
 
-    if (depthLimit == 0)
+    if (depthLimit == 0) {
         WARN("search depth limit exceeded for `" << name
              << "` , there might be a loop in alias definitions");
+        return;
+    }
 
     std::map<std::string, std::set<std::string> >::const_iterator it
         = destinationAliases_.find(name);
-- 
2.43.0


From e1ede6cf6250af3cab1b1117d7be16523b16fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 066/143] fix: UTT reader: unescape a segment before measuring
 it and an attribute's value after splitting the annotations

---
 formats/utt/utt_lattice_reader.cpp | 7 ++++---
 formats/utt/utt_lattice_reader.hpp | 1 -
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/formats/utt/utt_lattice_reader.cpp b/formats/utt/utt_lattice_reader.cpp
index decf0c0..59083fb 100644
--- a/formats/utt/utt_lattice_reader.cpp
+++ b/formats/utt/utt_lattice_reader.cpp
@@ -75,11 +75,12 @@ void UTTLatticeReader::Worker::doRun() {
                 item.position = endPosition;
             }
 
+            item.unescape(quoter);
+
             if (item.length < 0) {
                 item.length = utf8::distance(item.form.begin(), item.form.end());
             }
 
-            item.unescape(quoter);
             endPosition = item.position + item.length;
 
             if (item.length > 0) {
@@ -158,8 +159,8 @@ void UTTLatticeReader::Worker::doRun() {
                         if (parse(avBegin, avEnd, avGrammar, avItem)) {
                             lattice_.getAnnotationItemManager().setValue(
                                 annotationItem,
-                                avItem.arg,
-                                avItem.val
+                                quoter.unescape(avItem.arg),
+                                quoter.unescape(avItem.val)
                             );
                         }
                     }
diff --git a/formats/utt/utt_lattice_reader.hpp b/formats/utt/utt_lattice_reader.hpp
index 7edad7d..24ba496 100644
--- a/formats/utt/utt_lattice_reader.hpp
+++ b/formats/utt/utt_lattice_reader.hpp
@@ -35,7 +35,6 @@ struct UTTLRItem {
     void unescape(Quoter & quoter) {
         segmentType = quoter.unescape(segmentType);
         form = quoter.unescape(form);
-        annotations = quoter.unescape(annotations);
     }
 };
 
-- 
2.43.0


From 472693eaa02388b57414d183948b26f78eb39624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 067/143] fix: UTT reader: a sentence consists of a path of
 segments and its text is the text covered

---
 formats/utt/utt_lattice_reader.cpp | 45 +++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/formats/utt/utt_lattice_reader.cpp b/formats/utt/utt_lattice_reader.cpp
index 59083fb..5359f2b 100644
--- a/formats/utt/utt_lattice_reader.cpp
+++ b/formats/utt/utt_lattice_reader.cpp
@@ -1,6 +1,7 @@
 #include "utt_lattice_reader.hpp"
 
 
+#include <map>
 #include <sstream>
 
 
@@ -50,7 +51,6 @@ void UTTLatticeReader::Worker::doRun() {
     UTTLRAVGrammar avGrammar;
     PosConverter conv;
     std::string line;
-    std::string sentenceForm = "";
     int beginningOfSentencePosition = -1;
     int endPosition = -1;
     int lineno = 0;
@@ -174,12 +174,9 @@ void UTTLatticeReader::Worker::doRun() {
                     seqBuilder.build()
                 );
 
-                sentenceForm += item.form;
-
             } else if (item.segmentType == "BOS") {
 
                 beginningOfSentencePosition = item.position;
-                sentenceForm = "";
 
             } else if (item.segmentType == "EOS") {
 
@@ -193,21 +190,37 @@ void UTTLatticeReader::Worker::doRun() {
                 LayerTagMask tokenMask = lattice_.getLayerTagManager().getSingletonMask("token");
 
                 Lattice::EdgeSequence::Builder sentenceBuilder(lattice_);
-                for (int i = beginningOfSentencePosition; i < endPosition; ++i) {
-                    try {
-                        sentenceBuilder.addEdge(
-                            lattice_.firstOutEdge(
-                                lattice_.getVertexForRawCharIndex(conv.psi(i)),
-                                tokenMask
-                            )
-                        );
-                    } catch (NoEdgeException) { }
+                Lattice::VertexDescriptor sentenceEnd
+                    = lattice_.getVertexForRawCharIndex(conv.psi(endPosition));
+                std::map<Lattice::VertexDescriptor, Lattice::EdgeDescriptor> tokensOnPath;
+                for (int i = endPosition - 1; i >= beginningOfSentencePosition; --i) {
+                    Lattice::VertexDescriptor vertex
+                        = lattice_.getVertexForRawCharIndex(conv.psi(i));
+                    Lattice::InOutEdgesIterator tokenIter = lattice_.outEdges(vertex, tokenMask);
+                    while (tokenIter.hasNext()) {
+                        Lattice::EdgeDescriptor token = tokenIter.next();
+                        Lattice::VertexDescriptor target = lattice_.getEdgeTarget(token);
+                        if (target == sentenceEnd || tokensOnPath.count(target)) {
+                            tokensOnPath[vertex] = token;
+                            break;
+                        }
+                    }
+                }
+                Lattice::VertexDescriptor currentVertex
+                    = lattice_.getVertexForRawCharIndex(conv.psi(beginningOfSentencePosition));
+                while (tokensOnPath.count(currentVertex)) {
+                    sentenceBuilder.addEdge(tokensOnPath[currentVertex]);
+                    currentVertex = lattice_.getEdgeTarget(tokensOnPath[currentVertex]);
                 }
 
+                Lattice::VertexDescriptor sentenceBegin
+                    = lattice_.getVertexForRawCharIndex(conv.psi(beginningOfSentencePosition));
                 lattice_.addEdge(
-                    lattice_.getVertexForRawCharIndex(conv.psi(beginningOfSentencePosition)),
-                    lattice_.getVertexForRawCharIndex(conv.psi(endPosition)),
-                    AnnotationItem("sen", sentenceForm),
+                    sentenceBegin,
+                    sentenceEnd,
+                    AnnotationItem(
+                        "sen",
+                        lattice_.getAllText().substr(sentenceBegin, sentenceEnd - sentenceBegin)),
                     lattice_.getLayerTagManager().createSingletonTagCollection("sentence"),
                     sentenceBuilder.build()
                 );
-- 
2.43.0


From 4cec6a01a0cf6398927112b1b503e182cf0a7c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 068/143] fix: lexica: characters outside ASCII compare equal
 to themselves

---
 tools/datastructures/lexica/string_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/lexica/string_vector.hpp b/tools/datastructures/lexica/string_vector.hpp
index 9680e45..27b3db3 100644
--- a/tools/datastructures/lexica/string_vector.hpp
+++ b/tools/datastructures/lexica/string_vector.hpp
@@ -217,7 +217,9 @@ template <typename ValueIteratorT>
 template <typename StringT>
 bool ValueIteratorRange<ValueIteratorT>::operator==(const StringT& o) const {
     if (std::distance(m_begin, m_end) == std::distance(o.begin(), o.end()))
-        return std::equal(m_begin, m_end, o.begin());
+        return std::equal(
+            m_begin, m_end, o.begin(),
+            std::equal_to<typename std::iterator_traits<ValueIteratorT>::value_type>());
     else
         return false;
 }
-- 
2.43.0


From 558ecc18ac9517c48fae05ce5d3ed7091b47025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 069/143] fix: lexica: a line with leading blanks is not an
 empty one

---
 tools/datastructures/lexica/lexicon_base.cpp        | 2 +-
 tools/datastructures/psi_query/fsa_lexicon_base.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index e313c46..6507720 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -104,5 +104,5 @@ void LexiconBase::removeComment_(std::string& s) {
 }
 
 bool LexiconBase::isEmptyLine_(const std::string& s) {
-    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS);
+    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS) == std::string::npos;
 }
diff --git a/tools/datastructures/psi_query/fsa_lexicon_base.cpp b/tools/datastructures/psi_query/fsa_lexicon_base.cpp
index 235bd0f..1f3972d 100644
--- a/tools/datastructures/psi_query/fsa_lexicon_base.cpp
+++ b/tools/datastructures/psi_query/fsa_lexicon_base.cpp
@@ -76,7 +76,7 @@ void FSALexiconBase::removeComment_(std::string& s) {
 }
 
 bool FSALexiconBase::isEmptyLine_(const std::string& s) {
-    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS);
+    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS) == std::string::npos;
 }
 
 }
-- 
2.43.0


From ea52858fc96406937ee15ed9a6634a659e339871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 070/143] fix: lexica: lines with the same key need not be
 adjacent

---
 tools/datastructures/lexica/lexicon_base.cpp | 37 +++++++++-----------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index 6507720..a6512de 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -2,6 +2,8 @@
 #include "lexicon_base.hpp"
 #include "logging.hpp"
 
+#include <map>
+
 #include <boost/filesystem/fstream.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/foreach.hpp>
@@ -15,9 +17,8 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
     boost::filesystem::ifstream plainTextStream(plainTextLexicon);
 
     std::string line;
-    std::string prevKey;
-    std::string stringSoFar;
-    bool firstEntry = true;
+    std::vector<std::string> keys;
+    std::map<std::string, std::string> entries;
 
     typedef boost::sub_range<std::vector<std::string> > SubRange; 
     
@@ -42,28 +43,22 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
                 std::string("at least two fields expected in plain text lexicon, was: `")
                 + line + "`");
 
-        if (firstEntry) {
-            prevKey = fields[0];
-            stringSoFar = boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                      LEXICON_FIELD_SEPARATOR);
-            firstEntry = false;
+        const std::string record = boost::join(SubRange(fields.begin() + 1, fields.end()),
+                                               LEXICON_FIELD_SEPARATOR);
+
+        std::map<std::string, std::string>::iterator entry = entries.find(fields[0]);
+
+        if (entry == entries.end()) {
+            entries[fields[0]] = record;
+            keys.push_back(fields[0]);
         } else {
-            if (fields[0] == prevKey) {
-                stringSoFar += LEXICON_RECORD_SEPARATOR;
-                stringSoFar += boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                           LEXICON_FIELD_SEPARATOR);
-            }
-            else {
-                storeBuilder.add(prevKey, stringSoFar);
-                prevKey = fields[0];
-                stringSoFar = boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                          LEXICON_FIELD_SEPARATOR);
-            }
+            entry->second += LEXICON_RECORD_SEPARATOR + record;
         }
     }
 
-    if (!firstEntry)
-        storeBuilder.add(prevKey, stringSoFar);
+    BOOST_FOREACH(const std::string& key, keys) {
+        storeBuilder.add(key, entries[key]);
+    }
 
     store_.reset(storeBuilder.build());
 }
-- 
2.43.0


From 6b6d0d33ce1952bcff77c24421eb668b134f01b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 071/143] fix: lexica: a lexicon may be empty

---
 tools/datastructures/lexica/perfect_hash_index.cpp | 9 ++++++++-
 tools/datastructures/lexica/perfect_hash_index.hpp | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/lexica/perfect_hash_index.cpp b/tools/datastructures/lexica/perfect_hash_index.cpp
index 752b9cf..d3b0b2b 100644
--- a/tools/datastructures/lexica/perfect_hash_index.cpp
+++ b/tools/datastructures/lexica/perfect_hash_index.cpp
@@ -77,6 +77,10 @@ void PerfectHashIndex::clearKeys() {
 }
 
 void PerfectHashIndex::create() {
+    // a hash function of no keys cannot be calculated
+    if (m_keys.empty())
+        return;
+
     calcHashFunction();
     calcFprints();
 }
@@ -88,7 +92,10 @@ void PerfectHashIndex::save(std::string filename) const {
 }
 
 void PerfectHashIndex::save(std::FILE* mphf) const {
-    cmph_dump(m_hash, mphf);
+    if (m_hash)
+        cmph_dump(m_hash, mphf);
+    else
+        std::fputc('\0', mphf); // no algorithm
 
     size_t nkeys = m_fprints.size();
     std::fwrite(&nkeys, sizeof(nkeys), 1, mphf);
diff --git a/tools/datastructures/lexica/perfect_hash_index.hpp b/tools/datastructures/lexica/perfect_hash_index.hpp
index dd55928..30abf63 100644
--- a/tools/datastructures/lexica/perfect_hash_index.hpp
+++ b/tools/datastructures/lexica/perfect_hash_index.hpp
@@ -62,6 +62,9 @@ public:
     }
 
     size_t getHash(const char* key) const {
+        if (!m_hash)
+            return getSize();
+
         size_t idx = cmph_search(m_hash, key, (cmph_uint32) strlen(key));
 
         // idx < getSize() is checked because getSize() is
-- 
2.43.0


From 8d4b313a38bad18c7c63df5967716fd8cda7e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 072/143] fix: automata: do not read the first arc of an
 automaton without arcs

---
 tools/datastructures/psi_query/fsa_bindfsa.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_bindfsa.hpp b/tools/datastructures/psi_query/fsa_bindfsa.hpp
index f263ac7..4255ee9 100644
--- a/tools/datastructures/psi_query/fsa_bindfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_bindfsa.hpp
@@ -337,12 +337,14 @@ void BinDFSA<ArcT, PosT, Allocator>::load(IStream& in) {
       uint64_t statesNum;
       istream.read((char*)&statesNum, sizeof(uint64_t));
       m_states.resize(statesNum);
-      istream.read((char*)&m_states[0], statesNum * sizeof(PosT));
+      if (statesNum > 0)
+          istream.read((char*)&m_states[0], statesNum * sizeof(PosT));
 
       uint64_t arcsNum;
       istream.read((char*)&arcsNum, sizeof(uint64_t));
       m_arcs.resize(arcsNum);
-      istream.read((char*)&m_arcs[0], arcsNum * sizeof(ArcT));
+      if (arcsNum > 0)
+          istream.read((char*)&m_arcs[0], arcsNum * sizeof(ArcT));
   }
   in.seekg(end);
 }
@@ -367,11 +369,13 @@ void BinDFSA<ArcT, PosT, Allocator>::save(OStream& out) {
 
       uint64_t statesNum = m_states.size();
       ostream.write((char*)&statesNum, sizeof(uint64_t));
-      ostream.write((char*)&m_states[0], statesNum * sizeof(PosT));
+      if (statesNum > 0)
+          ostream.write((char*)&m_states[0], statesNum * sizeof(PosT));
 
       uint64_t arcsNum = m_arcs.size();
       ostream.write((char*)&arcsNum, sizeof(uint64_t));
-      ostream.write((char*)&m_arcs[0], arcsNum * sizeof(ArcT));
+      if (arcsNum > 0)
+          ostream.write((char*)&m_arcs[0], arcsNum * sizeof(ArcT));
   }
   // Some magic to remember the exact gzip stream end:
   uint64_t end = out.tellp();
-- 
2.43.0


From 3eb19436fde05d29133b37ce1bfeda66977f6c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 073/143] fix: automata: an optional automaton accepts the
 empty word

---
 tools/datastructures/psi_query/fsa_algorithms.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index 2f4b0cb..656a0bc 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -580,6 +580,8 @@ void kleene_option(FSA &fsa) {
     typename FSA::state_type ne = fsa.addState();
     fsa.setEndState(ne);
 
+    fsa.addArc(ns, typename FSA::arc_type(EPS, ne));
+
     BOOST_FOREACH(typename FSA::state_type p, start) {
         fsa.unsetStartState(p);
         fsa.addArc(ns, typename FSA::arc_type(EPS, p));
-- 
2.43.0


From 345d25dc9a5c3558da1ec3346c2f0c6732574151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 074/143] fix: automata: intersect from the start states of
 both up to states from which the ends are reached by empty transitions

---
 .../datastructures/psi_query/fsa_algorithms.hpp  | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index 656a0bc..04d43b4 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -228,14 +228,22 @@ class Intersector {
     std::set<state_type> startFn() const {
         std::set<state_type> starts;
         BOOST_FOREACH( typename FSA1::state_type p1, m_fsa1.getStartStates() )
-            BOOST_FOREACH( typename FSA2::state_type p2, m_fsa1.getStartStates() )
+            BOOST_FOREACH( typename FSA2::state_type p2, m_fsa2.getStartStates() )
                 starts.insert(state_type(p1, p2));
 
         return starts;
     }
 
     bool finalFn(state_type p) const {
-        return (m_fsa1.isEndState(p.first) && m_fsa2.isEndState(p.second));
+        bool final1 = false;
+        BOOST_FOREACH( typename FSA1::state_type p1, m_fsa1.epsClosure(p.first) )
+            final1 = final1 || m_fsa1.isEndState(p1);
+
+        bool final2 = false;
+        BOOST_FOREACH( typename FSA2::state_type p2, m_fsa2.epsClosure(p.second) )
+            final2 = final2 || m_fsa2.isEndState(p2);
+
+        return final1 && final2;
     }
 
     std::set<arc_type, ArcSorter> arcFn(state_type p) const {
@@ -260,7 +268,7 @@ class Intersector {
                         }
 
                         if (m_allowAny) {
-                            if (ait1->getSymbol() == ANY) {
+                            if (ait1->getSymbol() == ANY && ait2->getSymbol() != EPS) {
                                 arcs.insert(
                                     arc_type(
                                         ait2->getSymbol(),
@@ -268,7 +276,7 @@ class Intersector {
                                     )
                                 );
                             }
-                            else if (ait2->getSymbol() == ANY) {
+                            else if (ait2->getSymbol() == ANY && ait1->getSymbol() != EPS) {
                                 arcs.insert(
                                     arc_type(
                                         ait1->getSymbol(),
-- 
2.43.0


From ef0058c125643ee09cf6bd100e01054572b1607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 075/143] fix: automata: nothing can be concatenated to an
 automaton that accepts nothing

---
 tools/datastructures/psi_query/fsa_algorithms.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index 04d43b4..308d21e 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -557,13 +557,17 @@ void concatenate(FSA1 &dst, FSA2 &src) {
 
     BOOST_FOREACH(typename FSA1::state_type p, first_end) {
         BOOST_FOREACH(typename FSA1::state_type q, second_start) {
-            if (!first_start.count(q)) {
+            if (!first_start.count(q))
                 dst.addArc(p, typename FSA1::arc_type(EPS, q));
-                dst.unsetStartState(q);
-            }
         }
         dst.unsetEndState(p);
     }
+
+    // concatenating to an automaton without states means copying
+    if (!first_start.empty())
+        BOOST_FOREACH(typename FSA1::state_type q, second_start)
+            if (!first_start.count(q))
+                dst.unsetStartState(q);
 }
 
 /*******************************************************************************
-- 
2.43.0


From 52b634238bb8ae8b59386133d3dd268a6a9f1ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 076/143] fix: automata: an assigned automaton replaces the
 previous one

---
 tools/datastructures/psi_query/fsa_ndfsa_impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp b/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
index 8a9f86f..03b5c6f 100644
--- a/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
+++ b/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
@@ -239,6 +239,13 @@ std::set<typename ArcT::state_type> NDFSA<ArcT>::epsClosure(typename ArcT::state
 
 template <typename ArcT>
 NDFSA<ArcT>& NDFSA<ArcT>::operator=(const NDFSA<ArcT> &a) {
+    if (this == &a)
+        return *this;
+
+    BOOST_FOREACH(Arcs* arcs, m_states)
+        delete arcs;
+    m_states.clear();
+
     BOOST_FOREACH(Arcs* arcs, a.m_states)
         m_states.push_back(new Arcs(*arcs));
 
-- 
2.43.0


From c1e02c4f6a8ab7fab1c0b951bb60d401b4ee7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 077/143] fix: automata: no word or only the empty one can be
 stored

---
 tools/datastructures/psi_query/fsa_algorithms.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index 308d21e..fde9394 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -717,7 +717,11 @@ void replace_or_register(DFSA &fsa,
 
     //std::cerr << "replace or register: " << state << std::endl;
 
-    ArcIt last_arc = fsa.getArcs(state).second-1;
+    ArcRange<ArcIt> state_range = fsa.getArcs(state);
+    if (state_range.first == state_range.second)
+        return;
+
+    ArcIt last_arc = state_range.second-1;
     State last_child = last_arc->getDest();
     ArcRange<ArcIt> range = fsa.getArcs(last_child);
     if (range.first != range.second)
-- 
2.43.0


From 6abfa5ff139fbf598e5506debbee5d824bda6ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 078/143] fix: automata: load an automaton followed by other
 data

---
 tools/datastructures/psi_query/fsa_bindfsa.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_bindfsa.hpp b/tools/datastructures/psi_query/fsa_bindfsa.hpp
index 4255ee9..95a5a18 100644
--- a/tools/datastructures/psi_query/fsa_bindfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_bindfsa.hpp
@@ -12,6 +12,7 @@
 #include <boost/optional.hpp>
 #include <boost/iostreams/filtering_stream.hpp>
 #include <boost/iostreams/copy.hpp>
+#include <boost/iostreams/device/array.hpp>
 #include <boost/iostreams/filter/gzip.hpp>
 
 #include "fsa_types.hpp"
@@ -329,10 +330,16 @@ template <class IStream>
 void BinDFSA<ArcT, PosT, Allocator>::load(IStream& in) {
   uint64_t end;
   in.read((char*) &end, sizeof(uint64_t));
+  // what follows the automaton must not be seen by the decompressor
+  uint64_t begin = in.tellg();
+  std::vector<char> compressed(end > begin ? end - begin : 0);
+  if (!compressed.empty())
+      in.read(&compressed[0], compressed.size());
   {
       boost::iostreams::filtering_istream istream;
       istream.push(boost::iostreams::gzip_decompressor());
-      istream.push(in);
+      istream.push(boost::iostreams::basic_array_source<char>(
+          compressed.data(), compressed.size()));
 
       uint64_t statesNum;
       istream.read((char*)&statesNum, sizeof(uint64_t));
@@ -346,7 +353,6 @@ void BinDFSA<ArcT, PosT, Allocator>::load(IStream& in) {
       if (arcsNum > 0)
           istream.read((char*)&m_arcs[0], arcsNum * sizeof(ArcT));
   }
-  in.seekg(end);
 }
 
 template <typename ArcT, typename PosT, template <typename> class Allocator>
-- 
2.43.0


From 68cdb5d5c9994e823eccfa6ec65069c12da6d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 079/143] fix: lamerlemma: decode lemmas of forms longer than
 62 bytes

---
 tools/lemmatizers/lamerlemma/utility_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lemmatizers/lamerlemma/utility_functions.cpp b/tools/lemmatizers/lamerlemma/utility_functions.cpp
index a140c51..19e10ac 100644
--- a/tools/lemmatizers/lamerlemma/utility_functions.cpp
+++ b/tools/lemmatizers/lamerlemma/utility_functions.cpp
@@ -126,8 +126,8 @@ std::string KLEndEncode(std::string asRef, std::string toCode)
 
 std::string KLEndDecode(std::string asRef, std::string asCode)
 {
-    char K = asCode[0];
-    char L = asCode[1];
+    unsigned char K = asCode[0];
+    unsigned char L = asCode[1];
     std::string end = asCode.substr(2);
 
     size_t asRefLen = asRef.size();
-- 
2.43.0


From 00c701add98734235c17e47a6e3e0a7683724805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 080/143] fix: lamerlemma: no morphological features means no
 feature

---
 tools/lemmatizers/lamerlemma/utility_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lemmatizers/lamerlemma/utility_functions.cpp b/tools/lemmatizers/lamerlemma/utility_functions.cpp
index 19e10ac..da6485b 100644
--- a/tools/lemmatizers/lamerlemma/utility_functions.cpp
+++ b/tools/lemmatizers/lamerlemma/utility_functions.cpp
@@ -85,7 +85,7 @@ void parseResult(const std::string& key, const std::string& result, LemmaMap &le
                     std::string value = morpho.substr(pos + 1);
                     lemmaMap[lemma][tag].second.back()[key] = value;
                 }
-                else
+                else if (!morpho.empty())
                     lemmaMap[lemma][tag].second.back()[morpho] = "1";
             }
         }
-- 
2.43.0


From dca032360dcb3b83c0e38162bd01e656fea601a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 081/143] fix: mapper: an edge mapped to itself gets the tags

---
 tools/lexica/mapper/mapper.cpp | 34 +++++++++++++++++++---------------
 tools/lexica/mapper/mapper.hpp |  2 ++
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/tools/lexica/mapper/mapper.cpp b/tools/lexica/mapper/mapper.cpp
index 16dda7a..95667a7 100644
--- a/tools/lexica/mapper/mapper.cpp
+++ b/tools/lexica/mapper/mapper.cpp
@@ -322,15 +322,27 @@ void Mapper::addEntry_(
 
     LayerTagCollection tags = lattice.getLayerTagManager().createTagCollectionFromList(outTags_);
 
+    addMappedEdge_(lattice, edge, ai, tags);
+}
+
+void Mapper::addMappedEdge_(
+    Lattice& lattice, Lattice::EdgeDescriptor edge,
+    const AnnotationItem& item, const LayerTagCollection& tags) {
+
     Lattice::EdgeSequence::Builder builder(lattice);
     builder.addEdge(edge);
 
-    lattice.addEdge(
-        lattice.getEdgeSource(edge),
-        lattice.getEdgeTarget(edge),
-        ai,
-        tags,
-        builder.build());
+    try {
+        lattice.addEdge(
+            lattice.getEdgeSource(edge),
+            lattice.getEdgeTarget(edge),
+            item,
+            tags,
+            builder.build());
+    } catch (const EdgeSelfReferenceException&) {
+        // the edge is mapped to itself, so it only gets the tags
+        lattice.addPartitionToEdge(edge, tags);
+    }
 }
 
 void Mapper::addEntryUnknown_(Lattice& lattice, Lattice::EdgeDescriptor edge) {
@@ -371,15 +383,7 @@ void Mapper::addEntryUnknown_(Lattice& lattice, Lattice::EdgeDescriptor edge) {
 
     LayerTagCollection tags = lattice.getLayerTagManager().createTagCollectionFromList(outTags_);
 
-    Lattice::EdgeSequence::Builder builder(lattice);
-    builder.addEdge(edge);
-
-    lattice.addEdge(
-        lattice.getEdgeSource(edge),
-        lattice.getEdgeTarget(edge),
-        ai,
-        tags,
-        builder.build());
+    addMappedEdge_(lattice, edge, ai, tags);
 }
 
 void Mapper::parseEntry_(const std::string& record,
diff --git a/tools/lexica/mapper/mapper.hpp b/tools/lexica/mapper/mapper.hpp
index ae6da53..2191969 100644
--- a/tools/lexica/mapper/mapper.hpp
+++ b/tools/lexica/mapper/mapper.hpp
@@ -54,6 +54,8 @@ private:
 
     void addEntry_(Lattice& lattice, Lattice::EdgeDescriptor edge, const std::string& record);
     void addEntryUnknown_(Lattice& lattice, Lattice::EdgeDescriptor edge);
+    void addMappedEdge_(Lattice& lattice, Lattice::EdgeDescriptor edge,
+                        const AnnotationItem& item, const LayerTagCollection& tags);
 
     void parseEntry_(const std::string& record,
                      boost::optional<std::string>& text,
-- 
2.43.0


From e314acd995ddf3da55b65039d308f138477d842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 082/143] fix: joiner: an edge joined to one equal to itself
 gets the tags

---
 tools/converters/joiner/joiner.cpp | 42 +++++++++++++++++++-----------
 tools/converters/joiner/joiner.hpp |  7 +++++
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/tools/converters/joiner/joiner.cpp b/tools/converters/joiner/joiner.cpp
index a721b6d..fe5d764 100644
--- a/tools/converters/joiner/joiner.cpp
+++ b/tools/converters/joiner/joiner.cpp
@@ -221,15 +221,7 @@ void Joiner::Worker::doRun() {
                 builder.addEdge(edge);
                 builder.addEdge(rightEdge);
 
-                Lattice::VertexDescriptor fromVertex = lattice_.getEdgeSource(edge);
-                Lattice::VertexDescriptor toVertex = lattice_.getEdgeTarget(edge);
-
-                lattice_.addEdge(
-                    fromVertex,
-                    toVertex,
-                    annotationItem,
-                    providedTags,
-                    builder.build());
+                addJoinedEdge_(edge, annotationItem, providedTags, builder.build());
             }
         }
 
@@ -248,12 +240,8 @@ void Joiner::Worker::doRun() {
                 Lattice::EdgeSequence::Builder builder(lattice_);
                 builder.addEdge(edge);
 
-                Lattice::VertexDescriptor fromVertex = lattice_.getEdgeSource(edge);
-                Lattice::VertexDescriptor toVertex = lattice_.getEdgeTarget(edge);
-
-                lattice_.addEdge(
-                    fromVertex,
-                    toVertex,
+                addJoinedEdge_(
+                    edge,
                     lattice_.getEdgeAnnotationItem(edge),
                     providedTags,
                     builder.build());
@@ -262,6 +250,30 @@ void Joiner::Worker::doRun() {
     }
 }
 
+void Joiner::Worker::addJoinedEdge_(
+    Lattice::EdgeDescriptor edge,
+    const AnnotationItem& item,
+    const LayerTagCollection& tags,
+    const Lattice::EdgeSequence& sequence) {
+
+    Lattice::VertexDescriptor fromVertex = lattice_.getEdgeSource(edge);
+    Lattice::VertexDescriptor toVertex = lattice_.getEdgeTarget(edge);
+
+    try {
+        lattice_.addEdge(fromVertex, toVertex, item, tags, sequence);
+    } catch (const EdgeSelfReferenceException&) {
+        // the joined edge is one of the edges it is made of,
+        // so that one only gets the tags
+        lattice_.addEdge(
+            fromVertex,
+            toVertex,
+            item,
+            lattice_.getLayerTagManager().onlyPlaneTags(tags).isEmpty()
+                ? createUnion(tags, sequence.gatherPlaneTags(lattice_))
+                : tags);
+    }
+}
+
 std::string Joiner::doInfo() {
     return "joiner";
 }
diff --git a/tools/converters/joiner/joiner.hpp b/tools/converters/joiner/joiner.hpp
index ef28942..1b0d1c9 100644
--- a/tools/converters/joiner/joiner.hpp
+++ b/tools/converters/joiner/joiner.hpp
@@ -55,6 +55,13 @@ private:
         Worker(Joiner& processor, Lattice& lattice);
     private:
         virtual void doRun();
+
+        void addJoinedEdge_(
+            Lattice::EdgeDescriptor edge,
+            const AnnotationItem& item,
+            const LayerTagCollection& tags,
+            const Lattice::EdgeSequence& sequence);
+
         Joiner& processor_;
     };
 
-- 
2.43.0


From b94b5da87e3ec96021fef49aac79447759b3d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 083/143] fix: gobio: circular rules do not overflow the stack

---
 tools/parsers/gobio/accommodater/accommodater.tpl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/parsers/gobio/accommodater/accommodater.tpl b/tools/parsers/gobio/accommodater/accommodater.tpl
index 45e7a25..99d57c3 100644
--- a/tools/parsers/gobio/accommodater/accommodater.tpl
+++ b/tools/parsers/gobio/accommodater/accommodater.tpl
@@ -12,9 +12,12 @@ binary_accommodater<H,K>::binary_accommodater(H& chart, K& combinator, size_t li
 template<class H, class K>
 void binary_accommodater<H,K>::accommodate(typename H::edge_descriptor edge)
 {
+    // set before going down, an edge may be (indirectly) a part of itself
     if (accommodated_[edge])
     return;
 
+    accommodated_[edge] = true;
+
     std::pair<
     typename H::partition_iterator,
     typename H::partition_iterator> pits
@@ -34,8 +37,6 @@ void binary_accommodater<H,K>::accommodate(typename H::edge_descriptor edge)
 
     // jeśli dane pochodzą ze słownika nie wprowadzamy żadnych ograniczeń
     // chart_.sort_variants(edge, (lexical_entry_found ? 0 : limit_));
-
-    accommodated_[edge] = true;
 }
 
 template<class H, class K>
-- 
2.43.0


From 6f746557ca65d8371779d099aa1c0dabae81d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 084/143] fix: gobio: a shorter alternative frees the places
 after it, not those at the start of the rule

---
 tools/parsers/gobio/rules/tgbg_combinator.tpl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/parsers/gobio/rules/tgbg_combinator.tpl b/tools/parsers/gobio/rules/tgbg_combinator.tpl
index ecc2a20..0627223 100644
--- a/tools/parsers/gobio/rules/tgbg_combinator.tpl
+++ b/tools/parsers/gobio/rules/tgbg_combinator.tpl
@@ -2055,7 +2055,12 @@ std::vector<typename tgbg_combinator<T, S, M, X, E>::rule_holder>
         {
         typename tgbg_combinator::rule_holder rh((*it));
 
-        relocate_grule_(rh, sub_m, m);
+        // miejsca niewykorzystane przez krótszy wariant są za symbolami
+        // dodanymi do tej pory
+        relocate_grule_(
+            rh,
+            (signed int)rh.rhs_symbols.size(),
+            (signed int)(rh.rhs_symbols.size() + m - sub_m));
 
         u.push_back(rh);
         }
-- 
2.43.0


From 49015e55fc50f28dbfc9f064980c6b8a68359500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 085/143] fix: gobio: a filter made of the last part of a
 condition keeps its last comparison

---
 tools/parsers/gobio/rules/decompose_expression.tpl | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tools/parsers/gobio/rules/decompose_expression.tpl b/tools/parsers/gobio/rules/decompose_expression.tpl
index bc758f4..826d46e 100644
--- a/tools/parsers/gobio/rules/decompose_expression.tpl
+++ b/tools/parsers/gobio/rules/decompose_expression.tpl
@@ -460,8 +460,18 @@ std::vector<boost::shared_ptr<compiled_expression<T, S, 2> > > get_bifiltres(
         {
         assert(block_cut_point > prev_block_cut_point);
 
+        // the jump ending the block is left out; the last block has none
+        // and its last operation has to stay (but for unification, which
+        // fails anyway when its second argument is false)
+        const int last_opcode = expr->get_opcode(block_cut_point - 1);
+        const bool leave_out_last =
+            last_opcode == gobio_opcodes::OPCODE_IFNJUMP
+            || last_opcode == gobio_opcodes::OPCODE_UEQUAL;
+
         boost::shared_ptr<compiled_expression<T, S, 2> > bif
-            = expr->get_slice(prev_block_cut_point, block_cut_point-1);
+            = expr->get_slice(
+            prev_block_cut_point,
+            leave_out_last ? block_cut_point - 1 : block_cut_point);
 
         relocate_jumps<T,S>(
             *bif,
-- 
2.43.0


From 7d17f8b4fda55c45a6bd9bec4a89cd0e57ac2c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 086/143] fix: gobio: an assignment does not make the earlier
 ones forgotten

---
 tools/parsers/gobio/rules/decompose_expression.tpl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/parsers/gobio/rules/decompose_expression.tpl b/tools/parsers/gobio/rules/decompose_expression.tpl
index 826d46e..0c44471 100644
--- a/tools/parsers/gobio/rules/decompose_expression.tpl
+++ b/tools/parsers/gobio/rules/decompose_expression.tpl
@@ -338,7 +338,8 @@ boost::shared_ptr<compiled_expression<T, S, 2> > decompose_expression(
     if (is_assign)
     {
         int attr_ix = expr->get_iarg(i, 0);
-        set_attrs.resize(attr_ix+1);
+        if (attr_ix >= (signed int)set_attrs.size())
+            set_attrs.resize(attr_ix+1);
         set_attrs[attr_ix] = true;
     }
 
@@ -507,7 +508,8 @@ std::vector<boost::shared_ptr<compiled_expression<T, S, 2> > > get_bifiltres(
     if (is_assign)
     {
         int attr_ix = expr->get_iarg(i, 0);
-        set_attrs.resize(attr_ix+1);
+        if (attr_ix >= (signed int)set_attrs.size())
+            set_attrs.resize(attr_ix+1);
         set_attrs[attr_ix] = true;
     }
 
-- 
2.43.0


From 012a78b29432805849dc0a83722b09d4624c2a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 087/143] fix: bracketing writer: asking for an attribute does
 not add it to the edge

---
 formats/bracketing/bracketing-writer/bracket_printer.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/formats/bracketing/bracketing-writer/bracket_printer.hpp b/formats/bracketing/bracketing-writer/bracket_printer.hpp
index 8389f05..7440aa4 100644
--- a/formats/bracketing/bracketing-writer/bracket_printer.hpp
+++ b/formats/bracketing/bracketing-writer/bracket_printer.hpp
@@ -136,8 +136,12 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                                 size_t to = pattern.find(close_(pattern[i+2]), from);
                                 if (to != std::string::npos) {
                                     std::string attr = pattern.substr(from, to-from);
-                                    resSs << edgeData.avMap[attr];
-                                    thisEdgeData.avMap[attr] = edgeData.avMap[attr];
+                                    std::map<std::string, std::string>::const_iterator
+                                        found = edgeData.avMap.find(attr);
+                                    std::string value = (found == edgeData.avMap.end())
+                                        ? "" : found->second;
+                                    resSs << value;
+                                    thisEdgeData.avMap[attr] = value;
                                     i = to + 1;
                                 } else {
                                     resSs << "%a";
-- 
2.43.0


From 9d41983244c7a740e0eb354d1975729233f76d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 088/143] fix: bracketing writer: empty active elements count
 too when edges are joined

---
 .../bracketing-writer/bracket_printer.hpp     | 91 ++++++++++++-------
 1 file changed, 57 insertions(+), 34 deletions(-)

diff --git a/formats/bracketing/bracketing-writer/bracket_printer.hpp b/formats/bracketing/bracketing-writer/bracket_printer.hpp
index 7440aa4..f9178b8 100644
--- a/formats/bracketing/bracketing-writer/bracket_printer.hpp
+++ b/formats/bracketing/bracketing-writer/bracket_printer.hpp
@@ -64,6 +64,51 @@ private:
     template <typename InputContainer, typename OutputContainer>
     OutputContainer print_(InputContainer edgeDataContainer);
 
+    // the elements of an edge description referred to outside join operators
+    struct ActiveElements {
+        bool tags;
+        bool category;
+        bool text;
+        bool allAttributes;
+        bool score;
+        bool role;
+        std::set<std::string> attributes;
+
+        ActiveElements() :
+            tags(false),
+            category(false),
+            text(false),
+            allAttributes(false),
+            score(false),
+            role(false)
+        { }
+
+        bool agree(const EdgeData & a, const EdgeData & b) const {
+            if (
+                (tags && a.tags != b.tags) ||
+                (category && a.category != b.category) ||
+                (text && a.text != b.text) ||
+                (allAttributes && a.avMap != b.avMap) ||
+                (score && a.score != b.score) ||
+                (role && a.role != b.role)
+            ) {
+                return false;
+            }
+            BOOST_FOREACH(std::string attribute, attributes) {
+                if (getValue_(a, attribute) != getValue_(b, attribute)) {
+                    return false;
+                }
+            }
+            return true;
+        }
+
+        static std::string getValue_(const EdgeData & data, const std::string & attribute) {
+            std::map<std::string, std::string>::const_iterator found
+                = data.avMap.find(attribute);
+            return (found == data.avMap.end()) ? "" : found->second;
+        }
+    };
+
     std::vector<std::string> patterns_;
     std::string tagSeparator_;
     std::string avPairsSeparator_;
@@ -91,7 +136,7 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
     OutputContainer result;
     BOOST_FOREACH(EdgeData edgeData, edgeDataContainer) {
         EdgePrintData resultElement(edgeData);
-        EdgeData thisEdgeData;
+        ActiveElements active;
         InputContainer edgeDataSubcontainer;
         std::string separator;
         std::string subpattern;
@@ -111,21 +156,21 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                                 tagSs << tag;
                             }
                             resSs << tagSs.str();
-                            thisEdgeData.tags = edgeData.tags;
+                            active.tags = true;
                             i += 2;
                         }
                         break;
                     case 'c':
                         {
                             resSs << edgeData.category;
-                            thisEdgeData.category = edgeData.category;
+                            active.category = true;
                             i += 2;
                         }
                         break;
                     case 't':
                         {
                             resSs << edgeData.text;
-                            thisEdgeData.text = edgeData.text;
+                            active.text = true;
                             i += 2;
                         }
                         break;
@@ -138,10 +183,10 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                                     std::string attr = pattern.substr(from, to-from);
                                     std::map<std::string, std::string>::const_iterator
                                         found = edgeData.avMap.find(attr);
-                                    std::string value = (found == edgeData.avMap.end())
-                                        ? "" : found->second;
-                                    resSs << value;
-                                    thisEdgeData.avMap[attr] = value;
+                                    if (found != edgeData.avMap.end()) {
+                                        resSs << found->second;
+                                    }
+                                    active.attributes.insert(attr);
                                     i = to + 1;
                                 } else {
                                     resSs << "%a";
@@ -164,14 +209,14 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                                 avSs << avPair.first << avSeparator_ << avPair.second;
                             }
                             resSs << avSs.str();
-                            thisEdgeData.avMap = edgeData.avMap;
+                            active.allAttributes = true;
                             i += 2;
                         }
                         break;
                     case 's':
                         {
                             resSs << edgeData.score;
-                            thisEdgeData.score = edgeData.score;
+                            active.score = true;
                             i += 2;
                         }
                         break;
@@ -205,7 +250,7 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                     case 'r':
                         {
                             resSs << edgeData.role;
-                            thisEdgeData.role = edgeData.role;
+                            active.role = true;
                             i += 2;
                         }
                         break;
@@ -225,31 +270,9 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
         }
         if (!subpattern.empty()) {
             BOOST_FOREACH(EdgeData edgeData2, edgeDataContainer) {
-                if (!thisEdgeData.category.empty() && edgeData2.category != thisEdgeData.category) {
+                if (!active.agree(edgeData, edgeData2)) {
                     continue;
                 }
-                if (!thisEdgeData.text.empty() && edgeData2.text != thisEdgeData.text) {
-                    continue;
-                }
-                if (!thisEdgeData.tags.empty() && edgeData2.tags != thisEdgeData.tags) {
-                    continue;
-                }
-                if (thisEdgeData.score != 0.0 && edgeData2.score != thisEdgeData.score) {
-                    continue;
-                }
-                if (!thisEdgeData.avMap.empty()) {
-                    bool shallWeContinue = false;
-                    typedef std::pair<std::string, std::string> StrStrPair;
-                    BOOST_FOREACH(StrStrPair avPair, thisEdgeData.avMap) {
-                        if (edgeData2.avMap[avPair.first] != thisEdgeData.avMap[avPair.first]) {
-                            shallWeContinue = true;
-                            break;
-                        }
-                    }
-                    if (shallWeContinue) {
-                        continue;
-                    }
-                }
                 insertElementIntoContainer<EdgeData>(edgeDataSubcontainer, edgeData2);
             }
             std::vector<std::string> subpatterns
-- 
2.43.0


From b37fa94360a339035405ea0c3f809a45c473b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 089/143] fix: bracketing writer: three edges of one span built
 one of another are nested in order

---
 .../bracketing/bracketing-writer/bracketing_lattice_writer.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
index 7c4eb3b..3e5d2fd 100644
--- a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
+++ b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
@@ -215,7 +215,7 @@ void BracketingLatticeWriter::Worker::doRun_() {
                         ) {
                             vprinted[a].swap(vprinted[b]);
                             a = 0;
-                            b = 1;
+                            b = 0;
                         }
                     }
                 }
-- 
2.43.0


From 69192b427b54ce988f2c5075c1536d2e868803d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 090/143] fix: bracketing writer: edges of no known span are
 left out instead of crashing

---
 .../bracketing-writer/bracketing_lattice_writer.hpp  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
index 3e5d2fd..464d8dc 100644
--- a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
+++ b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
@@ -181,7 +181,9 @@ void BracketingLatticeWriter::Worker::doRun_() {
         }
 
         BOOST_FOREACH(EdgeData ed, collectedEdges) {
-            BracketPrinter::insertElementIntoContainer(edgeStore[*ed.begin][*ed.end], ed);
+            if (ed.begin && ed.end) {
+                BracketPrinter::insertElementIntoContainer(edgeStore[*ed.begin][*ed.end], ed);
+            }
         }
 
     } else {
@@ -194,9 +196,11 @@ void BracketingLatticeWriter::Worker::doRun_() {
                 continue;
             }
             EdgeData edgeData = getEdgeData_(edge);
-            BracketPrinter::insertElementIntoContainer(
-                edgeStore[*edgeData.begin][*edgeData.end],
-                edgeData);
+            if (edgeData.begin && edgeData.end) {
+                BracketPrinter::insertElementIntoContainer(
+                    edgeStore[*edgeData.begin][*edgeData.end],
+                    edgeData);
+            }
         }
 
     }
-- 
2.43.0


From 3e6ee152c56474ca2078aa19783cdbecba897022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 091/143] fix: bracketing writer: an edge to be skipped is not
 chosen in the disambig mode if there is another one

---
 .../bracketing/bracketing-writer/bracketing_lattice_writer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
index 464d8dc..153b7fe 100644
--- a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
+++ b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
@@ -158,7 +158,8 @@ void BracketingLatticeWriter::Worker::doRun_() {
                         continue;
                     }
                     try {
-                        if (lattice_.getEdgeEndIndex(currentEdge) >
+                        if (shouldBeSkipped_(bestEdge) ||
+                                lattice_.getEdgeEndIndex(currentEdge) >
                                 lattice_.getEdgeEndIndex(bestEdge)) {
                             bestEdge = currentEdge;
                         }
-- 
2.43.0


From 9cdff33015406568f2e9e4063942a51c024be95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:16 +0000
Subject: [PATCH 092/143] fix: tagset converter: an empty line does not end the
 rule file

---
 tools/converters/unumsunt/unumsunt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/converters/unumsunt/unumsunt.cpp b/tools/converters/unumsunt/unumsunt.cpp
index d8ca213..b131dc4 100644
--- a/tools/converters/unumsunt/unumsunt.cpp
+++ b/tools/converters/unumsunt/unumsunt.cpp
@@ -117,7 +117,7 @@ Unumsunt::Unumsunt(
         std::getline(rulesFs, line);
         boost::algorithm::trim(line);
         if (line.empty()) {
-            break;
+            continue;
         }
         switch (line.at(0)) {
             case '#': {
-- 
2.43.0


From 69886edf355c0f58cc6aadb3e6fcf5e6fb04fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:16 +0000
Subject: [PATCH 093/143] fix: tagset converter: parts are converted before the
 edges that are built of them

---
 tools/converters/unumsunt/unumsunt.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/converters/unumsunt/unumsunt.cpp b/tools/converters/unumsunt/unumsunt.cpp
index b131dc4..4ef8b49 100644
--- a/tools/converters/unumsunt/unumsunt.cpp
+++ b/tools/converters/unumsunt/unumsunt.cpp
@@ -230,10 +230,15 @@ void Unumsunt::convertTags(Lattice & lattice) {
     LayerTagCollection preservedTags
         = lattice.getLayerTagManager().createTagCollectionFromList(preservedTags_);
 
-    Lattice::EdgesSortedBySourceIterator ei(lattice, maskSourceTagset);
+    // Sorted by target, so that parts are converted before what is built of them.
+    // Collected beforehand, so that the new edges are not converted once again.
+    std::vector<Lattice::EdgeDescriptor> edges;
+    Lattice::EdgesSortedByTargetIterator ei(lattice, maskSourceTagset);
     while (ei.hasNext()) {
+        edges.push_back(ei.next());
+    }
 
-        Lattice::EdgeDescriptor edge = ei.next();
+    BOOST_FOREACH(Lattice::EdgeDescriptor edge, edges) {
 
         LayerTagCollection edgePreservedTags
             = createIntersection(lattice.getEdgeLayerTags(edge), preservedTags);
-- 
2.43.0


From 4d3c6762e9fa404c3332839feefa9ef677155d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:16 +0000
Subject: [PATCH 094/143] fix: tagset converter: a rule with alternatives is
 applied once, and all of it to every alternative

---
 tools/converters/unumsunt/unumsunt_rule.cpp | 41 ++++++++++++---------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/tools/converters/unumsunt/unumsunt_rule.cpp b/tools/converters/unumsunt/unumsunt_rule.cpp
index 1639082..75e7481 100644
--- a/tools/converters/unumsunt/unumsunt_rule.cpp
+++ b/tools/converters/unumsunt/unumsunt_rule.cpp
@@ -98,7 +98,9 @@ bool UnumsuntRule::apply(
     std::vector< boost::shared_ptr<AnnotationItem> > & items
 ) {
     bool result = false;
-    for (size_t i = 0; i < items.size(); ++i) {
+    // the alternatives added below are not subject to the rule once again
+    size_t numberOfItems = items.size();
+    for (size_t i = 0; i < numberOfItems; ++i) {
         boost::shared_ptr<AnnotationItem> item = items[i];
         if (!item) {
             continue;
@@ -127,38 +129,41 @@ bool UnumsuntRule::apply(
             items[i].reset();
             result = true;
         }
+        std::vector< boost::shared_ptr<AnnotationItem> > alternatives(1, item);
         BOOST_FOREACH(StringPair command, commands) {
             std::vector<std::string> alternativeValues;
             boost::split(
                 alternativeValues,
                 command.second,
                 boost::is_any_of(ALTERNATIVE_SEPARATORS));
-            for (size_t i = 0; i < alternativeValues.size(); ++i) {
-                boost::shared_ptr<AnnotationItem> itemCopy;
-                if (i == 0) {
-                    itemCopy = item;
-                } else {
-                    items.push_back(boost::shared_ptr<AnnotationItem>(
-                        new AnnotationItem(*item)));
-                    itemCopy = items.back();
-                }
+            // A rule contains at most one alternative command,
+            // so there is just one item when the copies are made.
+            while (alternatives.size() < alternativeValues.size()) {
+                items.push_back(boost::shared_ptr<AnnotationItem>(
+                    new AnnotationItem(*item)));
+                alternatives.push_back(items.back());
+            }
+            for (size_t j = 0; j < alternatives.size(); ++j) {
+                boost::shared_ptr<AnnotationItem> itemCopy = alternatives[j];
+                const std::string & value
+                    = alternativeValues[alternativeValues.size() == 1 ? 0 : j];
                 if (command.first == CATEGORY_MARKER) {
-                    if (command.second[0] == REFERENCE_MARKER) {
+                    if (value[0] == REFERENCE_MARKER) {
                         manager.setCategory(*itemCopy,
-                            manager.getValueAsString(*itemCopy, alternativeValues[i].substr(1)));
+                            manager.getValueAsString(*itemCopy, value.substr(1)));
                     } else {
-                        manager.setCategory(*itemCopy, alternativeValues[i]);
+                        manager.setCategory(*itemCopy, value);
                     }
                 } else {
-                    if (alternativeValues[i][0] == REFERENCE_MARKER) {
+                    if (value[0] == REFERENCE_MARKER) {
                         manager.setValue(*itemCopy, command.first,
-                            manager.getValue(*itemCopy, alternativeValues[i].substr(1)));
-                    } else if (alternativeValues[i] == ANY_DESIGNATION) {
+                            manager.getValue(*itemCopy, value.substr(1)));
+                    } else if (value == ANY_DESIGNATION) {
                         manager.setValue(*itemCopy, command.first, manager.any_value());
-                    } else if (alternativeValues[i] == FALSE_DESIGNATION) {
+                    } else if (value == FALSE_DESIGNATION) {
                         manager.setValue(*itemCopy, command.first, manager.false_value());
                     } else {
-                        manager.setValue(*itemCopy, command.first, alternativeValues[i]);
+                        manager.setValue(*itemCopy, command.first, value);
                     }
                 }
             }
-- 
2.43.0


From 0bf9d05c8c202e5b19ee49f5ea0f3eb8124e2082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:53 +0000
Subject: [PATCH 095/143] fix: tagset converter: a single candidate left after
 skipping the others counts as the conversion of a part

---
 tools/converters/unumsunt/unumsunt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/converters/unumsunt/unumsunt.cpp b/tools/converters/unumsunt/unumsunt.cpp
index 4ef8b49..005cffd 100644
--- a/tools/converters/unumsunt/unumsunt.cpp
+++ b/tools/converters/unumsunt/unumsunt.cpp
@@ -293,6 +293,9 @@ void Unumsunt::convertTags(Lattice & lattice) {
         BOOST_FOREACH(UnumsuntRule rule, aux_rules_) {
             rule.apply(lattice.getAnnotationItemManager(), items);
         }
+        items.erase(
+            std::remove(items.begin(), items.end(), boost::shared_ptr<AnnotationItem>()),
+            items.end());
 
         const std::list<Lattice::Partition> partitions = lattice.getEdgePartitions(edge);
         BOOST_FOREACH(Lattice::Partition partition, partitions) {
-- 
2.43.0


From 07247e9f29e2099fda2aee66db96fa578075ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 096/143] fix: simplenorm: skip the lines of the rule file that
 have no second column

---
 tools/normalizers/simplenorm/simplenorm_normalizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/normalizers/simplenorm/simplenorm_normalizer.cpp b/tools/normalizers/simplenorm/simplenorm_normalizer.cpp
index d4ad9bc..0d0b40a 100644
--- a/tools/normalizers/simplenorm/simplenorm_normalizer.cpp
+++ b/tools/normalizers/simplenorm/simplenorm_normalizer.cpp
@@ -97,6 +97,9 @@ SimplenormNormalizer::SimplenormNormalizer(
     while (std::getline(fin, line)) {
         std::vector<std::string> pair;
         boost::split(pair, line, boost::is_any_of("\t"));
+        if (pair.size() < 2) {
+            continue;
+        }
         normalization_map_[pair[0]] = pair[1];
     }
 }
-- 
2.43.0


From d4ea9e1f5f466adae632e688a0815c26c9015f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 097/143] fix: niema: a line of the conditions file without a
 second column means no condition

---
 tools/normalizers/niema/niema.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/normalizers/niema/niema.cpp b/tools/normalizers/niema/niema.cpp
index 6486b18..f3e4b9b 100644
--- a/tools/normalizers/niema/niema.cpp
+++ b/tools/normalizers/niema/niema.cpp
@@ -256,7 +256,8 @@ Annotator* Niema::Factory::doCreateAnnotator(
                         conditionLinePair,
                         conditionLine,
                         boost::is_any_of("\t"));
-                spec.push_back(std::make_pair(std::make_pair(far, conditionLinePair[0]), conditionLinePair[1]));
+                spec.push_back(std::make_pair(std::make_pair(far, conditionLinePair[0]),
+                            conditionLinePair.size() > 1 ? conditionLinePair[1] : std::string()));
             }
         }
         fin.close();
-- 
2.43.0


From c888d053a8c233a9ffebe0f3ecaf890b50804490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 098/143] fix: iayko: do not normalize the tokens just added

---
 tools/normalizers/iayko/iayko.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/normalizers/iayko/iayko.cpp b/tools/normalizers/iayko/iayko.cpp
index c0851b2..5a294af 100644
--- a/tools/normalizers/iayko/iayko.cpp
+++ b/tools/normalizers/iayko/iayko.cpp
@@ -374,12 +374,18 @@ void Iayko::Worker::doRun()
         Lattice::EdgesSortedByTargetIterator edgeIter
             = lattice_.edgesSortedByTarget(tokenMask);
 
+        // the edges added below must not be normalized once again
+        std::vector<Lattice::EdgeDescriptor> edges;
+        while (edgeIter.hasNext()) {
+            edges.push_back(edgeIter.next());
+        }
+
         Lattice::EdgeDescriptor lastTokenEdge;
         Lattice::EdgeDescriptor lastSeparatingEdge;
 
-        while (edgeIter.hasNext())
+        for (size_t i = 0; i < edges.size(); ++i)
         {
-            Lattice::EdgeDescriptor currentEdge = edgeIter.next();
+            Lattice::EdgeDescriptor currentEdge = edges[i];
             std::string category = lattice_.getAnnotationCategory(currentEdge);
 
             Lattice::VertexDescriptor source = lattice_.getEdgeSource(currentEdge);
-- 
2.43.0


From fc3114fcb042ca88ea6f89b1ea07396c4fd1a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 099/143] fix: aspell: do not check the suggestions just added
 as tokens

---
 tools/spellcheckers/aspell/psi_aspell.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/spellcheckers/aspell/psi_aspell.cpp b/tools/spellcheckers/aspell/psi_aspell.cpp
index 4353f59..7f626d6 100644
--- a/tools/spellcheckers/aspell/psi_aspell.cpp
+++ b/tools/spellcheckers/aspell/psi_aspell.cpp
@@ -218,13 +218,19 @@ void PSIAspell::Worker::doRun() {
         Lattice::EdgesSortedByTargetIterator edgeIterator
             = lattice_.edgesSortedByTarget(tokenMask_);
 
+        // the suggestions added below must not be checked as tokens
+        std::vector<Lattice::EdgeDescriptor> edges;
+        while (edgeIterator.hasNext()) {
+            edges.push_back(edgeIterator.next());
+        }
+
         Lattice::EdgeDescriptor lastTokenEdge;
         Lattice::EdgeDescriptor lastSeparatingEdge;
         bool wasLastSeparatingEdge = false;
         bool wasTokenEdgeInShortDistanceIncorrect = false;
 
-        while (edgeIterator.hasNext()) {
-            Lattice::EdgeDescriptor currentEdge = edgeIterator.next();
+        for (size_t i = 0; i < edges.size(); ++i) {
+            Lattice::EdgeDescriptor currentEdge = edges[i];
             std::string category = lattice_.getAnnotationCategory(currentEdge);
 
             if ("T" == category) {
-- 
2.43.0


From 7e34a20755b66ea50e95180597e4464221aa83aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 100/143] fix: apertium reader: escaped quotes and parentheses,
 non-capturing groups and adjacent quotes in a format rule

---
 formats/apertium/apertium_reader/format_specification.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/formats/apertium/apertium_reader/format_specification.cpp b/formats/apertium/apertium_reader/format_specification.cpp
index 285a55f..dd1bd38 100644
--- a/formats/apertium/apertium_reader/format_specification.cpp
+++ b/formats/apertium/apertium_reader/format_specification.cpp
@@ -281,6 +281,8 @@ void FormatSpecificationReader::removeQuotations_(std::string& str) {
     while ((pos = str.find("\"", pos)) != std::string::npos) {
         if (!Escaping::isEscaped(str, pos)) {
             str.erase(pos, 1);
+        }
+        else {
             pos += 1;
         }
     }
@@ -294,5 +296,7 @@ void FormatSpecificationReader::removeBackreferences_(std::string& str) {
             str.replace(pos+1, 0, "?:");
             pos += 2;
         }
+
+        pos += 1;
     }
 }
-- 
2.43.0


From 68031e99b4b0bcefa6103a7325d47b017fc1193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 101/143] fix: apertium reader: the blanks around a tag belong
 to every alternative of its format rule

---
 formats/apertium/apertium_reader/format_rules.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/apertium/apertium_reader/format_rules.cpp b/formats/apertium/apertium_reader/format_rules.cpp
index 1ab5d01..07cd18a 100644
--- a/formats/apertium/apertium_reader/format_rules.cpp
+++ b/formats/apertium/apertium_reader/format_rules.cpp
@@ -71,9 +71,9 @@ std::string FormatRule::getRegexp_() {
 
 std::string FormatRule::tagsToRegexpDisjunctions_() {
     if (tags_.size() == 1) {
-        return tags_[0];
+        return std::string("(?:") + tags_[0] + ")";
     }
-    return std::string("(?:") + boost::algorithm::join(tags_, ")|(?:") + ")";
+    return std::string("(?:(?:") + boost::algorithm::join(tags_, ")|(?:") + "))";
 }
 
 bool FormatRule::operator< (const FormatRule &other) const {
-- 
2.43.0


From e0a31961123374549dcc31518e9d4fbfd1d5ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:37 +0000
Subject: [PATCH 102/143] fix: apertium reader: any number of format rules

---
 .../apertium/apertium_reader/apertium_deformatter.cpp |  3 ++-
 .../apertium/apertium_reader/format_specification.cpp | 11 +++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/formats/apertium/apertium_reader/apertium_deformatter.cpp b/formats/apertium/apertium_reader/apertium_deformatter.cpp
index b92109a..2b35a90 100644
--- a/formats/apertium/apertium_reader/apertium_deformatter.cpp
+++ b/formats/apertium/apertium_reader/apertium_deformatter.cpp
@@ -57,7 +57,8 @@ std::vector<DeformatIndex> ApertiumDeformatter::processFormatRules(const std::st
     std::vector<DeformatIndex> deformatIndexes;
     unsigned int rulesCounter = 0;
 
-    while (PerlRegExp::FindAndConsumeN(&currentInput, res[0], args[0], levels[0])) {
+    while (formatSpecification_.formatRuleSize() > 0
+        && PerlRegExp::FindAndConsumeN(&currentInput, res[0], args[0], levels[0])) {
         unsigned int lvl = 0;
         std::string text = matches[0][levels[lvl] - 1];
 
diff --git a/formats/apertium/apertium_reader/format_specification.cpp b/formats/apertium/apertium_reader/format_specification.cpp
index dd1bd38..a2a4085 100644
--- a/formats/apertium/apertium_reader/format_specification.cpp
+++ b/formats/apertium/apertium_reader/format_specification.cpp
@@ -25,12 +25,15 @@ FormatSpecification::FormatSpecification(
 }
 
 void FormatSpecification::setLevels_() {
-    levels_ = std::vector<int>(formatRules_.size() / (MAX_RULES_PER_LEVEL), MAX_RULES_PER_LEVEL);
+    // the last regexp group of each level but the last one stands for all the following rules
+    int rulesLeft = formatRules_.size();
 
-    if ((int)formatRules_.size() != MAX_RULES_PER_LEVEL) {
-        int lastLevel = (formatRules_.size() % MAX_RULES_PER_LEVEL) + levels_.size();
-        if (lastLevel != 0) levels_.push_back(lastLevel);
+    while (rulesLeft > MAX_RULES_PER_LEVEL) {
+        levels_.push_back(MAX_RULES_PER_LEVEL);
+        rulesLeft -= MAX_RULES_PER_LEVEL - 1;
     }
+
+    levels_.push_back(rulesLeft);
 }
 
 std::vector<int> FormatSpecification::getLevels() {
-- 
2.43.0


From 2da7e74e7988e277afefb34c90df25399a10c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:37 +0000
Subject: [PATCH 103/143] fix: apertium reader: rules of the same priority stay
 in the order of the file

---
 formats/apertium/apertium_reader/format_specification.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/apertium/apertium_reader/format_specification.cpp b/formats/apertium/apertium_reader/format_specification.cpp
index a2a4085..07343eb 100644
--- a/formats/apertium/apertium_reader/format_specification.cpp
+++ b/formats/apertium/apertium_reader/format_specification.cpp
@@ -198,7 +198,7 @@ std::pair<std::vector<FormatRule>, std::vector<ReplacementRule> >
         }
     }
 
-    std::sort(formatRules.begin(), formatRules.end());
+    std::stable_sort(formatRules.begin(), formatRules.end());
 
     return std::pair<std::vector<FormatRule>, std::vector<ReplacementRule> >
         (formatRules, replacementRules);
-- 
2.43.0


From 58e619c8502e8d0d09964a4d0f0b9dda94a2bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:37 +0000
Subject: [PATCH 104/143] fix: apertium reader: the letter case option applies
 to the format rules as well

---
 formats/apertium/apertium_reader/apertium_deformatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/apertium/apertium_reader/apertium_deformatter.cpp b/formats/apertium/apertium_reader/apertium_deformatter.cpp
index 2b35a90..0718eb1 100644
--- a/formats/apertium/apertium_reader/apertium_deformatter.cpp
+++ b/formats/apertium/apertium_reader/apertium_deformatter.cpp
@@ -47,7 +47,7 @@ std::vector<DeformatIndex> ApertiumDeformatter::processFormatRules(const std::st
     std::string matches[levels.size()][FormatSpecification::MAX_RULES_PER_LEVEL];
 
     for (unsigned int i = 0; i < levels.size(); i++) {
-        res.push_back(PerlRegExp(regexps[i], pcrecpp::UTF8()));
+        res.push_back(PerlRegExp(regexps[i], perlRegexpOptions_));
 
         for (int j = 0; j < levels[i]; j++) {
             args[i][j] = new PerlArg(&matches[i][j]);
-- 
2.43.0


From afa57acff653ed8f00ccacabcecdcd57059a3cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:37 +0000
Subject: [PATCH 105/143] fix: apertium reader: character references that
 differ in letter case only are told apart

---
 formats/apertium/apertium_reader/apertium_deformatter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/formats/apertium/apertium_reader/apertium_deformatter.cpp b/formats/apertium/apertium_reader/apertium_deformatter.cpp
index 0718eb1..e005480 100644
--- a/formats/apertium/apertium_reader/apertium_deformatter.cpp
+++ b/formats/apertium/apertium_reader/apertium_deformatter.cpp
@@ -103,6 +103,13 @@ std::string ApertiumDeformatter::processReplacementRules(const std::string& inpu
     std::map<std::string, std::string>::iterator it;
     std::map<std::string, std::string> rules = formatSpecification_.replacementRulesRegexp();
 
+    // the exact letter case goes first (&Oacute; and &oacute; are different characters)
+    for (it = rules.begin(); it != rules.end(); ++it) {
+        PerlStringPiece target(it->first);
+        PerlRegExp re(it->second, pcrecpp::UTF8());
+        PerlRegExp::GlobalReplace(&text, re, target);
+    }
+
     for (it = rules.begin(); it != rules.end(); ++it) {
         PerlStringPiece target(it->first);
         PerlRegExp re(it->second, perlRegexpOptions_);
-- 
2.43.0


From f52b467a76c701e02af417231878afd68548ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:23 +0000
Subject: [PATCH 106/143] fix: apertium reader: compressed data are passed to
 the extractor as they are

---
 .../apertium/apertium_reader/apertium_deformatter.cpp  |  7 +++++--
 .../apertium/apertium_reader/apertium_deformatter.hpp  |  1 +
 .../apertium_reader/apertium_lattice_reader.cpp        | 10 ++++++++++
 .../apertium_reader/apertium_lattice_reader.hpp        |  1 +
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/formats/apertium/apertium_reader/apertium_deformatter.cpp b/formats/apertium/apertium_reader/apertium_deformatter.cpp
index e005480..35beaa4 100644
--- a/formats/apertium/apertium_reader/apertium_deformatter.cpp
+++ b/formats/apertium/apertium_reader/apertium_deformatter.cpp
@@ -97,8 +97,7 @@ std::vector<DeformatIndex> ApertiumDeformatter::processFormatRules(const std::st
 std::string ApertiumDeformatter::processReplacementRules(const std::string& input) {
     DEBUG("is compressed format " << formatSpecification_.getOptions().isCompressed());
 
-    std::string text = (unzipData_ && formatSpecification_.getOptions().isCompressed()) ?
-        decompressFiles_(input) : input;
+    std::string text = isUnzippingData() ? decompressFiles_(input) : input;
 
     std::map<std::string, std::string>::iterator it;
     std::map<std::string, std::string> rules = formatSpecification_.replacementRulesRegexp();
@@ -163,3 +162,7 @@ std::string ApertiumDeformatter::decompressFiles_(const std::string &compressed)
 void ApertiumDeformatter::setUnzipData(bool onOff) {
     unzipData_ = onOff;
 }
+
+bool ApertiumDeformatter::isUnzippingData() {
+    return unzipData_ && formatSpecification_.getOptions().isCompressed();
+}
diff --git a/formats/apertium/apertium_reader/apertium_deformatter.hpp b/formats/apertium/apertium_reader/apertium_deformatter.hpp
index 2fb315c..cb4695e 100644
--- a/formats/apertium/apertium_reader/apertium_deformatter.hpp
+++ b/formats/apertium/apertium_reader/apertium_deformatter.hpp
@@ -33,6 +33,7 @@ public:
     std::string deformat(const std::string& input);
 
     void setUnzipData(bool);
+    bool isUnzippingData();
 
     class ApertiumException : public PsiException {
     public:
diff --git a/formats/apertium/apertium_reader/apertium_lattice_reader.cpp b/formats/apertium/apertium_reader/apertium_lattice_reader.cpp
index 1c1fffc..b50d0ee 100644
--- a/formats/apertium/apertium_reader/apertium_lattice_reader.cpp
+++ b/formats/apertium/apertium_reader/apertium_lattice_reader.cpp
@@ -35,6 +35,10 @@ bool ApertiumLatticeReader::isKeepTags() {
     return keepTags_;
 }
 
+bool ApertiumLatticeReader::isUnzippingData() {
+    return apertiumDeformatter_.isUnzippingData();
+}
+
 ApertiumLatticeReader::Factory::~Factory() { }
 
 LatticeReader<std::istream>* ApertiumLatticeReader::Factory::doCreateLatticeReader(
@@ -108,6 +112,12 @@ void ApertiumLatticeReader::Worker::doRun() {
 
     bool firstLine = true;
 
+    if (processor_.isUnzippingData()) {
+        // compressed data are binary, so no line may be left out
+        input.assign(std::istreambuf_iterator<char>(inputStream_),
+            std::istreambuf_iterator<char>());
+    }
+
     while (std::getline(inputStream_, line)) {
         if (boost::algorithm::trim_copy(line).empty()) {
             continue;
diff --git a/formats/apertium/apertium_reader/apertium_lattice_reader.hpp b/formats/apertium/apertium_reader/apertium_lattice_reader.hpp
index 5cb7336..df6fe17 100644
--- a/formats/apertium/apertium_reader/apertium_lattice_reader.hpp
+++ b/formats/apertium/apertium_reader/apertium_lattice_reader.hpp
@@ -38,6 +38,7 @@ public:
     };
 
     bool isKeepTags();
+    bool isUnzippingData();
 
 private:
 
-- 
2.43.0


From 48d88c02856b42e43aafe64d21592a86d864c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 107/143] fix: dot and gv writers: do not align vertices when
 there are none

---
 formats/dot/dot_lattice_writer.cpp | 2 +-
 formats/gv/gv_lattice_writer.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/dot/dot_lattice_writer.cpp b/formats/dot/dot_lattice_writer.cpp
index 851d1e0..f42964e 100644
--- a/formats/dot/dot_lattice_writer.cpp
+++ b/formats/dot/dot_lattice_writer.cpp
@@ -239,7 +239,7 @@ void DotLatticeWriter::Worker::doRun() {
 
     }
 
-    if (processor_.isAlign()) {
+    if (processor_.isAlign() && !vertexNodes.empty()) {
         std::set<int>::iterator vni = vertexNodes.begin();
         int prev = *vni;
         int next;
diff --git a/formats/gv/gv_lattice_writer.cpp b/formats/gv/gv_lattice_writer.cpp
index 9f2ef4c..f9f2f28 100644
--- a/formats/gv/gv_lattice_writer.cpp
+++ b/formats/gv/gv_lattice_writer.cpp
@@ -243,7 +243,7 @@ void GVLatticeWriter::Worker::doRun() {
             printEdge(edge, quoter, ordinal, edgeOrdinalMap, vertexNodes, startVertices);
         }
 
-        if (processor_.isAlign() && !processor_.isTree()) {
+        if (processor_.isAlign() && !processor_.isTree() && !vertexNodes.empty()) {
             std::map<int, int>::iterator vni = vertexNodes.begin();
             int prevKey = vni->first;
             int prevVal = vni->second;
-- 
2.43.0


From edaa47a39e37408b08643aa7a9726f950f1408bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 108/143] fix: dot writer: quotes in labels and backslashes in
 categories are escaped

---
 formats/dot/dot_lattice_writer.cpp | 13 ++++++++++---
 formats/dot/dot_lattice_writer.hpp |  2 ++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/formats/dot/dot_lattice_writer.cpp b/formats/dot/dot_lattice_writer.cpp
index f42964e..8afc97b 100644
--- a/formats/dot/dot_lattice_writer.cpp
+++ b/formats/dot/dot_lattice_writer.cpp
@@ -4,6 +4,8 @@
 #include <iostream>
 #include <locale>
 
+#include <boost/algorithm/string.hpp>
+
 #include "lattice.hpp"
 #include "logging.hpp"
 
@@ -126,9 +128,9 @@ void DotLatticeWriter::Worker::doRun() {
 
         const AnnotationItem& annotationItem = lattice_.getEdgeAnnotationItem(edge);
         if (lattice_.isLooseVertex(source) || lattice_.isLooseVertex(target)) {
-            edgeLabelSs << quoter.escape(annotationItem.getText());
+            edgeLabelSs << escapeQuotes_(quoter.escape(annotationItem.getText()));
         } else {
-            edgeLabelSs << quoter.escape(lattice_.getEdgeText(edge));
+            edgeLabelSs << escapeQuotes_(quoter.escape(lattice_.getEdgeText(edge)));
         }
 
         std::string tagStr("");
@@ -159,7 +161,8 @@ void DotLatticeWriter::Worker::doRun() {
             edgeLabelSs << " (" << tagStr << ")";
         }
 
-        edgeLabelSs << " " << annotationItem.getCategory();
+        edgeLabelSs << " " << escapeQuotes_(
+            boost::algorithm::replace_all_copy(annotationItem.getCategory(), "\\", "\\\\"));
 
         if (processor_.isTree()) {
 
@@ -261,5 +264,9 @@ void DotLatticeWriter::Worker::doRun() {
     DEBUG("WRITING");
 }
 
+std::string DotLatticeWriter::Worker::escapeQuotes_(const std::string& text) {
+    return boost::algorithm::replace_all_copy(text, "\"", "\\\"");
+}
+
 DotLatticeWriter::Worker::~Worker() {
 }
diff --git a/formats/dot/dot_lattice_writer.hpp b/formats/dot/dot_lattice_writer.hpp
index 184d37c..b41c560 100644
--- a/formats/dot/dot_lattice_writer.hpp
+++ b/formats/dot/dot_lattice_writer.hpp
@@ -73,6 +73,8 @@ private:
 
         virtual ~Worker();
     private:
+        static std::string escapeQuotes_(const std::string& text);
+
         DotLatticeWriter& processor_;
     };
 
-- 
2.43.0


From eea52e063f47a406bf5698435d82223ced533cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 109/143] fix: dot writer: the label with the number of a
 partition is closed

---
 formats/dot/dot_lattice_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/dot/dot_lattice_writer.cpp b/formats/dot/dot_lattice_writer.cpp
index 8afc97b..fc6f996 100644
--- a/formats/dot/dot_lattice_writer.cpp
+++ b/formats/dot/dot_lattice_writer.cpp
@@ -195,7 +195,7 @@ void DotLatticeWriter::Worker::doRun() {
                         edSs << moi->second;
                         edgeSs << "\n" << edgeIdSs.str() << " -> " << edSs.str();
                         if (partitions.size() > 1) {
-                            edgeSs << " [label=\"" << partSs.str() << "]";
+                            edgeSs << " [label=\"" << partSs.str() << "\"]";
                         }
                     }
                 }
-- 
2.43.0


From dbc2ea6970714d1fd73a05ca82f74cd1d093c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 110/143] fix: dot writer: parts that come later than what is
 built of them are linked in trees

---
 formats/dot/dot_lattice_writer.cpp | 42 +++++++++++++++++++-----------
 formats/dot/dot_lattice_writer.hpp |  1 +
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/formats/dot/dot_lattice_writer.cpp b/formats/dot/dot_lattice_writer.cpp
index fc6f996..e127dc2 100644
--- a/formats/dot/dot_lattice_writer.cpp
+++ b/formats/dot/dot_lattice_writer.cpp
@@ -3,6 +3,7 @@
 #include <iomanip>
 #include <iostream>
 #include <locale>
+#include <vector>
 
 #include <boost/algorithm/string.hpp>
 
@@ -99,25 +100,21 @@ void DotLatticeWriter::Worker::doRun() {
         printLine_("rankdir=LR");
     }
 
-    while (ei.hasNext()) {
+    std::vector<Lattice::EdgeDescriptor> shownEdges;
 
+    while (ei.hasNext()) {
         Lattice::EdgeDescriptor edge = ei.next();
-
-        if (lattice_.isDiscarded(edge)) {
-            continue;
+        if (isShown_(edge)) {
+            shownEdges.push_back(edge);
+            edgeOrdinalMap[edge] = ++ordinal;
         }
+    }
+
+    BOOST_FOREACH(Lattice::EdgeDescriptor edge, shownEdges) {
 
         std::list<std::string> tagNames
             = lattice_.getLayerTagManager().getTagNames(lattice_.getEdgeLayerTags(edge));
 
-        if (
-            tagNames.size() == 1 &&
-            tagNames.front() == "symbol" &&
-            !processor_.isShowSymbolEdges()
-        ) continue;
-
-        if (!processor_.areSomeInFilter(tagNames)) continue;
-
         std::stringstream edgeSs;
 
         Lattice::VertexDescriptor source = lattice_.getEdgeSource(edge);
@@ -166,9 +163,7 @@ void DotLatticeWriter::Worker::doRun() {
 
         if (processor_.isTree()) {
 
-            ++ordinal;
-            edgeOrdinalMap[edge] = ordinal;
-            edgeIdSs << ordinal;
+            edgeIdSs << edgeOrdinalMap[edge];
 
             edgeSs << edgeIdSs.str() << " [label=\"" << edgeLabelSs.str() << "\"";
             if (processor_.isColor()) {
@@ -264,6 +259,23 @@ void DotLatticeWriter::Worker::doRun() {
     DEBUG("WRITING");
 }
 
+bool DotLatticeWriter::Worker::isShown_(Lattice::EdgeDescriptor edge) {
+    if (lattice_.isDiscarded(edge)) {
+        return false;
+    }
+
+    std::list<std::string> tagNames
+        = lattice_.getLayerTagManager().getTagNames(lattice_.getEdgeLayerTags(edge));
+
+    if (
+        tagNames.size() == 1 &&
+        tagNames.front() == "symbol" &&
+        !processor_.isShowSymbolEdges()
+    ) return false;
+
+    return processor_.areSomeInFilter(tagNames);
+}
+
 std::string DotLatticeWriter::Worker::escapeQuotes_(const std::string& text) {
     return boost::algorithm::replace_all_copy(text, "\"", "\\\"");
 }
diff --git a/formats/dot/dot_lattice_writer.hpp b/formats/dot/dot_lattice_writer.hpp
index b41c560..85c5bba 100644
--- a/formats/dot/dot_lattice_writer.hpp
+++ b/formats/dot/dot_lattice_writer.hpp
@@ -73,6 +73,7 @@ private:
 
         virtual ~Worker();
     private:
+        bool isShown_(Lattice::EdgeDescriptor edge);
         static std::string escapeQuotes_(const std::string& text);
 
         DotLatticeWriter& processor_;
-- 
2.43.0


From 7722f5a0a5bdc0b96ec06e24718f1b2c17ee18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 111/143] fix: close the temporary files created with mkstemp

---
 formats/gv/gv_lattice_writer.cpp  | 4 +++-
 tools/normalizers/iayko/iayko.cpp | 6 ++++--
 tools/normalizers/niema/niema.cpp | 6 ++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/formats/gv/gv_lattice_writer.cpp b/formats/gv/gv_lattice_writer.cpp
index f9f2f28..110c516 100644
--- a/formats/gv/gv_lattice_writer.cpp
+++ b/formats/gv/gv_lattice_writer.cpp
@@ -10,6 +10,8 @@
 #include <map>
 #include <vector>
 
+#include <unistd.h>
+
 #include "lattice.hpp"
 #include "plugin_manager.hpp"
 
@@ -196,7 +198,7 @@ void GVLatticeWriter::Worker::doRun() {
         static char tmpFileNameTemplate[] = "gv_XXXXXX";
         char tmpFileName[PATH_MAX];
         strcpy(tmpFileName, tmpFileNameTemplate);
-        mkstemp(tmpFileName);
+        close(mkstemp(tmpFileName));
 
         std::string arg0("dot");
         std::string arg1("-T" + processor_.getOutputFormat());
diff --git a/tools/normalizers/iayko/iayko.cpp b/tools/normalizers/iayko/iayko.cpp
index 5a294af..9b01609 100644
--- a/tools/normalizers/iayko/iayko.cpp
+++ b/tools/normalizers/iayko/iayko.cpp
@@ -6,6 +6,8 @@
 #include <fstream>
 #include <sstream>
 
+#include <unistd.h>
+
 #include <boost/algorithm/string/predicate.hpp>
 #include <boost/assign/list_of.hpp>
 
@@ -157,7 +159,7 @@ Annotator* Iayko::Factory::doCreateAnnotator(
         static char tmpFileNameTemplate[] = "far_XXXXXX";
         char tmpFileName[PATH_MAX];
         strcpy(tmpFileName, tmpFileNameTemplate);
-        mkstemp(tmpFileName);
+        close(mkstemp(tmpFileName));
         saveFar = tmpFileName;
     }
 
@@ -165,7 +167,7 @@ Annotator* Iayko::Factory::doCreateAnnotator(
         static char tmpFileNameTemplate[] = "grm_XXXXXX";
         char tmpFileName[PATH_MAX];
         strcpy(tmpFileName, tmpFileNameTemplate);
-        mkstemp(tmpFileName);
+        close(mkstemp(tmpFileName));
         grm = tmpFileName;
 
         std::ifstream fin(md.c_str());
diff --git a/tools/normalizers/niema/niema.cpp b/tools/normalizers/niema/niema.cpp
index f3e4b9b..bfc488d 100644
--- a/tools/normalizers/niema/niema.cpp
+++ b/tools/normalizers/niema/niema.cpp
@@ -6,6 +6,8 @@
 #include <fstream>
 #include <sstream>
 
+#include <unistd.h>
+
 #include <boost/algorithm/string.hpp>
 #include <boost/algorithm/string/predicate.hpp>
 #include <boost/assign/list_of.hpp>
@@ -168,7 +170,7 @@ Annotator* Niema::Factory::doCreateAnnotator(
         static char tmpFileNameTemplate[] = "far_XXXXXX";
         char tmpFileName[PATH_MAX];
         strcpy(tmpFileName, tmpFileNameTemplate);
-        mkstemp(tmpFileName);
+        close(mkstemp(tmpFileName));
         saveFar = tmpFileName;
     }
 
@@ -176,7 +178,7 @@ Annotator* Niema::Factory::doCreateAnnotator(
         static char tmpFileNameTemplate[] = "grm_XXXXXX";
         char tmpFileName[PATH_MAX];
         strcpy(tmpFileName, tmpFileNameTemplate);
-        mkstemp(tmpFileName);
+        close(mkstemp(tmpFileName));
         grm = tmpFileName;
 
         std::ifstream fin(md.c_str());
-- 
2.43.0


From 464d9ad40d011bc1656e63089f291c194eab0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 112/143] fix: utf8case: the special casing table is not
 sorted, so search all of it

---
 utf8case/special_casing_converter.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utf8case/special_casing_converter.cpp b/utf8case/special_casing_converter.cpp
index c23afb9..3592c3d 100644
--- a/utf8case/special_casing_converter.cpp
+++ b/utf8case/special_casing_converter.cpp
@@ -5,9 +5,6 @@ const char* SpecialCasingConverter::convert(uint32_t code_point) const {
     for (size_t i = 0; i < tableSize_; ++i) {
         const SpecialCasingConversionRecord* currentRecord = &conversionTable_[i];
 
-        if (code_point < currentRecord->code_point)
-            return 0;
-
         if (code_point == currentRecord->code_point)
             return currentRecord->replacement;
     }
-- 
2.43.0


From 59426a231164fa2a058a59e77f7d9e96c7de9c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 113/143] fix: utf8case: a character mapped to itself is not
 touched by the conversion

---
 utf8case/general_case_converter.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utf8case/general_case_converter.hpp b/utf8case/general_case_converter.hpp
index 6d5439e..04e2cc9 100644
--- a/utf8case/general_case_converter.hpp
+++ b/utf8case/general_case_converter.hpp
@@ -1,6 +1,8 @@
 #ifndef GENERAL_CASE_CONVERTER_HDR
 #define GENERAL_CASE_CONVERTER_HDR
 
+#include <string>
+
 #include <boost/shared_ptr.hpp>
 
 #include "range_based_case_converter.hpp"
@@ -24,10 +26,13 @@ public:
 
     bool willBeTouchedWhenConverted(octet_iterator start, octet_iterator end) const {
         while (start != end) {
+            octet_iterator char_start = start;
             uint32_t code_point = utf8::unchecked::next(start);
 
-            if (specialCasingConverter_->convert(code_point)
-                || rangeBasedCaseConverter_->convert(code_point) != code_point)
+            if (const char* special = specialCasingConverter_->convert(code_point)) {
+                if (std::string(char_start, start) != special)
+                    return true;
+            } else if (rangeBasedCaseConverter_->convert(code_point) != code_point)
                 return true;
         }
 
-- 
2.43.0


From 0b38ffba02f3690494e59c1226931a55b3b15727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:49 +0000
Subject: [PATCH 114/143] fix: globs: the star and the question mark match
 whole UTF-8 characters and never run beyond the end

---
 common/segment_glob.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/common/segment_glob.cpp b/common/segment_glob.cpp
index 9b40639..217d8e5 100644
--- a/common/segment_glob.cpp
+++ b/common/segment_glob.cpp
@@ -1,6 +1,14 @@
 #include "segment_glob.hpp"
 
-#include "utf8/utf8.h"
+namespace {
+    // moves to the next UTF-8 character (never beyond the terminating zero)
+    const char* nextCharacter(const char* s) {
+        ++s;
+        while ((static_cast<unsigned char>(*s) & 0xC0) == 0x80)
+            ++s;
+        return s;
+    }
+}
 
 SegmentGlob::SegmentGlob(const std::string& glob):glob_(glob) {
     checkIfFixed_();
@@ -22,7 +30,7 @@ bool SegmentGlob::matches(const std::string& segment) const {
             return false;
         }
         if (*g == '?')
-            utf8::unchecked::next(s);
+            s = nextCharacter(s);
         else
             ++s;
 
@@ -35,16 +43,18 @@ bool SegmentGlob::matches(const std::string& segment) const {
                 return true;
             }
             mp = g;
-            cp = s+1;
+            cp = nextCharacter(s);
         } else if (*g == '?') {
             ++g;
-            utf8::unchecked::next(s);
+            s = nextCharacter(s);
         } else if (*g == *s) {
             ++g;
             ++s;
         } else {
             g = mp;
-            s = cp++;
+            s = cp;
+            if (*cp)
+                cp = nextCharacter(cp);
         }
     }
 
-- 
2.43.0


From e5ecfb5b60e4f84d2a06f8c8f8d0cb6d0113f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:49 +0000
Subject: [PATCH 115/143] fix: a known name is suggested for an unknown one
 however far it is

---
 common/edit_distance.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/common/edit_distance.hpp b/common/edit_distance.hpp
index dfbda81..5ad32d1 100644
--- a/common/edit_distance.hpp
+++ b/common/edit_distance.hpp
@@ -28,14 +28,15 @@ unsigned int levenshteinDistance(const T &s1, const T & s2) {
 template<class S, class C>
 S findTheMostSimilarString(const S &string, const C &container) {
     S mostSimilarElement;
-    int shortestDistance = 99;
+    unsigned int shortestDistance = 0;
+    bool first = true;
 
-    int distance = 0;
     BOOST_FOREACH(const S &element, container) {
-        distance = levenshteinDistance(element, string);
-        if (distance < shortestDistance) {
+        unsigned int distance = levenshteinDistance(element, string);
+        if (first || distance < shortestDistance) {
             mostSimilarElement = element;
             shortestDistance = distance;
+            first = false;
         }
     }
     return mostSimilarElement;
-- 
2.43.0


From d051ba9a648bbceeee51111ad2a45ed06fe74053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 116/143] fix: encoding converter: a null character does not
 end the text

---
 common/encoding_converter.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index de73755..8272ff9 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -146,20 +146,19 @@ bool EncodingConverter::convert_(int inCharsetId, int outCharsetId,
     int inSizeConsumed, outSizeConsumed;
 
     unsigned char outputBuffer[BUFFER_SIZE];
-    const char* inputChars = input.c_str();
-    int inputCharsLength = strlen(inputChars);
+    const char* inputChars = input.data();
+    int inputCharsLength = input.length();
 
     result = tiniconv_convert(&tiniconvStruct,
                               (const unsigned char*)inputChars, inputCharsLength, &inSizeConsumed,
-                              outputBuffer, sizeof(outputBuffer) - 1, &outSizeConsumed);
+                              outputBuffer, sizeof(outputBuffer), &outSizeConsumed);
 
     if (result < TINICONV_CONVERT_OUT_TOO_SMALL) {
         WARN("tiniconv convertion failed");
         return false;
     }
 
-    outputBuffer[outSizeConsumed] = 0;
-    output = std::string((const char *)outputBuffer);
+    output = std::string((const char *)outputBuffer, outSizeConsumed);
 
     DEBUG("tiniconv convertion output: [" << output << "]");
 
-- 
2.43.0


From 84b4d8668578128192b2144b8e92d0082eed7727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 117/143] fix: encoding converter: texts longer than the buffer
 are converted whole

---
 common/encoding_converter.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index 8272ff9..5306139 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -149,16 +149,25 @@ bool EncodingConverter::convert_(int inCharsetId, int outCharsetId,
     const char* inputChars = input.data();
     int inputCharsLength = input.length();
 
-    result = tiniconv_convert(&tiniconvStruct,
-                              (const unsigned char*)inputChars, inputCharsLength, &inSizeConsumed,
-                              outputBuffer, sizeof(outputBuffer), &outSizeConsumed);
+    output.clear();
 
-    if (result < TINICONV_CONVERT_OUT_TOO_SMALL) {
-        WARN("tiniconv convertion failed");
-        return false;
-    }
+    // the output may be longer than the buffer, so go on until the whole input is consumed
+    do {
+        result = tiniconv_convert(&tiniconvStruct,
+                                  (const unsigned char*)inputChars, inputCharsLength,
+                                  &inSizeConsumed,
+                                  outputBuffer, sizeof(outputBuffer), &outSizeConsumed);
+
+        if (result < TINICONV_CONVERT_OUT_TOO_SMALL) {
+            WARN("tiniconv convertion failed");
+            return false;
+        }
+
+        output.append((const char *)outputBuffer, outSizeConsumed);
 
-    output = std::string((const char *)outputBuffer, outSizeConsumed);
+        inputChars += inSizeConsumed;
+        inputCharsLength -= inSizeConsumed;
+    } while (inputCharsLength > 0 && result != TINICONV_CONVERT_IN_TOO_SMALL);
 
     DEBUG("tiniconv convertion output: [" << output << "]");
 
-- 
2.43.0


From 3f875c0055f76960937bd320e39958c67ced2522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:28 +0000
Subject: [PATCH 118/143] fix: encoding converter: the output ends with the
 closing shift sequence

---
 common/encoding_converter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index 5306139..103e58f 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -169,6 +169,14 @@ bool EncodingConverter::convert_(int inCharsetId, int outCharsetId,
         inputCharsLength -= inSizeConsumed;
     } while (inputCharsLength > 0 && result != TINICONV_CONVERT_IN_TOO_SMALL);
 
+    // the output may have to return to the initial state (e.g. in UTF-7)
+    if (tiniconvStruct.reset) {
+        outSizeConsumed = tiniconvStruct.reset(
+            &tiniconvStruct, outputBuffer, sizeof(outputBuffer));
+
+        output.append((const char *)outputBuffer, outSizeConsumed);
+    }
+
     DEBUG("tiniconv convertion output: [" << output << "]");
 
     return true;
-- 
2.43.0


From 52ce8ebab8d88e388c4802897324eb185272f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 119/143] fix: encoding converter: texts in the default target
 encoding may be converted to another one

---
 common/encoding_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index 103e58f..d7bf542 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -118,7 +118,7 @@ std::string EncodingConverter::convert(std::string from, std::string to, std::st
         WARN("unrecognized target encoding: " << to);
         return text;
     }
-    if (from == ASCII || from == to || from == targetEncoding_) {
+    if (from == ASCII || from == to) {
         INFO("conversion skipped because source and/or target encoding(s)");
         return text;
     }
-- 
2.43.0


From a3913ba28a06c26c31f23e5db94046c0ebaf5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 120/143] fix: encoding names: CP936, ISO-2022-JP,
 x-mac-cyrillic, IBM866 and GB2312 are known under the names the detector
 gives

---
 common/encoding_converter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index d7bf542..6661f85 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -24,10 +24,10 @@ std::map<std::string, int> EncodingConverter::CHARSET_CODES = boost::assign::map
     ("windows-1256",    7)
     ("windows-1257",    8)
     ("windows-1258",    9)
-    ("CP939",           10)
+    ("CP936",           10)
     ("HZ-GB-2312",      11) // or EUC-CN like in tiniconv/tiniconv_desc.c?
     ("GBK",             12)
-    ("ISO-2020-JP",     13)
+    ("ISO-2022-JP",     13)
     ("ISO-8859-1",      14) // doesn't exist in uchardet
     ("ISO-8859-2",      15)
     ("ISO-8859-3",      16) // doesn't exist in uchardet
@@ -44,14 +44,16 @@ std::map<std::string, int> EncodingConverter::CHARSET_CODES = boost::assign::map
     ("ISO-8859-15",     27) // doesn't exist in uchardet
     ("ISO-8859-16",     28) // doesn't exist in uchardet
     ("CP866",           29)
+    ("IBM866",          29) // CP866 in uchardet
     ("KOI8-R",          30)
     ("KOI8-RU",         31) // doesn't exist in uchardet
     ("KOI8-U",          32) // doesn't exist in uchardet
-    ("x-max-cyrillic",  33)
+    ("x-mac-cyrillic",  33)
     ("UCS-2",           34) // doesn't exist in uchardet
     ("UTF-7",           35) // doesn't exist in uchardet
     ("UTF-8",           36)
-    ("GB-2312",         37) // or EUC-CN like 11?
+    ("GB-2312",         11)
+    ("GB2312",          11) // GB-2312 in uchardet
     ("Big5",            38)
     ;
 
-- 
2.43.0


From 0a2104b63350bdc35810fa1b093f06ae2ebbda7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 121/143] fix: tiniconv: texts in GBK may contain ASCII
 characters

---
 tiniconv/tiniconv_desc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiniconv/tiniconv_desc.c b/tiniconv/tiniconv_desc.c
index ef676ab..f052385 100644
--- a/tiniconv/tiniconv_desc.c
+++ b/tiniconv/tiniconv_desc.c
@@ -87,7 +87,7 @@ const struct tiniconv_charset_map_entry_s tiniconv_charset_map[] =
   {cp1258_mbtowc,       cp1258_flushwc, cp1258_wctomb,       NULL            }, /* 9 */
   {cp936_mbtowc,        NULL,           cp936_wctomb,        NULL            }, /* 10 */
   {euc_cn_mbtowc,       NULL,           euc_cn_wctomb,       NULL            }, /* 11 */
-  {gbk_mbtowc,          NULL,           gbk_wctomb,          NULL            }, /* 12 */
+  {ces_gbk_mbtowc,      NULL,           ces_gbk_wctomb,      NULL            }, /* 12 */
   {iso2022_jp_mbtowc,   NULL,           iso2022_jp_wctomb,   iso2022_jp_reset}, /* 13 */
   {iso8859_1_mbtowc,    NULL,           iso8859_1_wctomb,    NULL            }, /* 14 */
   {iso8859_2_mbtowc,    NULL,           iso8859_2_wctomb,    NULL            }, /* 15 */
-- 
2.43.0


From 11dd0969f571b0d71f156969646d8879fb0b4048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:05 +0000
Subject: [PATCH 122/143] fix: file recognizer: only the beginning of a text is
 matched (no stack overflow, no failure at a cut character)

---
 common/file_recognizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/file_recognizer.cpp b/common/file_recognizer.cpp
index 6ef1826..add4bcb 100644
--- a/common/file_recognizer.cpp
+++ b/common/file_recognizer.cpp
@@ -208,14 +208,14 @@ bool FileRecognizer::looksLikePsiFormat_(const std::string& text) {
         if (line.empty() || boost::starts_with(line, "#")) {
             continue;
         }
-        return RegExp::FullMatch(text, RegExp("(01 0000 [0-9*][0-9@])(.|\n|\r)*"));
+        return RegExp::FullMatch(text.substr(0, 10), RegExp("01 0000 [0-9*][0-9@]"));
     }
 
     return false;
 }
 
 bool FileRecognizer::looksLikeUTTFormat_(const std::string& text) {
-    return RegExp::FullMatch(text, RegExp("(0000 00 [A-Z])(.|\n|\r)*"));
+    return RegExp::FullMatch(text.substr(0, 9), RegExp("0000 00 [A-Z]"));
 }
 
 std::string FileRecognizer::recognizeCompressedFileFormat(const std::string &data) {
-- 
2.43.0


From 50e4050476499470edeedc88d87f1d3d062a96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:05 +0000
Subject: [PATCH 123/143] fix: file recognizer: a PSI file may begin with
 comments

---
 common/file_recognizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/file_recognizer.cpp b/common/file_recognizer.cpp
index add4bcb..a47795f 100644
--- a/common/file_recognizer.cpp
+++ b/common/file_recognizer.cpp
@@ -208,7 +208,7 @@ bool FileRecognizer::looksLikePsiFormat_(const std::string& text) {
         if (line.empty() || boost::starts_with(line, "#")) {
             continue;
         }
-        return RegExp::FullMatch(text.substr(0, 10), RegExp("01 0000 [0-9*][0-9@]"));
+        return RegExp::FullMatch(line.substr(0, 10), RegExp("01 0000 [0-9*][0-9@]"));
     }
 
     return false;
-- 
2.43.0


From 92ca68e66900e79ce29716556b2018c637d16bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:05 +0000
Subject: [PATCH 124/143] fix: guessing reader: look beyond the header that the
 PSI writer puts at the beginning

---
 formats/guessing/guessing_reader/guessing_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/guessing/guessing_reader/guessing_reader.cpp b/formats/guessing/guessing_reader/guessing_reader.cpp
index 9f07ea4..9c7f79b 100644
--- a/formats/guessing/guessing_reader/guessing_reader.cpp
+++ b/formats/guessing/guessing_reader/guessing_reader.cpp
@@ -20,7 +20,7 @@
 #include "doc_lattice_reader.hpp"
 #endif
 
-const int GuessingReader::DEFAULT_BLOCK_SIZE = 32;
+const int GuessingReader::DEFAULT_BLOCK_SIZE = 256;
 
 std::map<std::string, GuessingReader::PointerToReader> GuessingReader::fileTypeToReaderMap_ =
     boost::assign::map_list_of
-- 
2.43.0


From 97cc054d39ac1bce443239a234e142c88c5ac28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 125/143] fix: stream helpers: go back in the stream instead of
 putting back more than its buffer holds

---
 common/stream_helpers.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/common/stream_helpers.cpp b/common/stream_helpers.cpp
index 9787f6c..a2170c8 100644
--- a/common/stream_helpers.cpp
+++ b/common/stream_helpers.cpp
@@ -1,22 +1,36 @@
 #include "stream_helpers.hpp"
 
 #include <sstream>
+#include <vector>
+
+namespace {
+
+// Goes back to the position or, if the stream cannot be positioned, puts the data back.
+void goBack(std::istream& stream, std::streampos position, const std::string& data) {
+    if (position == std::streampos(-1)) {
+        setDataToIStream(stream, data);
+    } else {
+        stream.seekg(position);
+    }
+}
+
+}
 
 std::string getStartingDataWithoutTouchingStream(std::istream& stream, int size) {
-    char buffer[size];
-    stream.read(buffer, size);
+    std::streampos position = stream.tellg();
+
+    std::vector<char> buffer(size + 1);
+    stream.read(&buffer[0], size);
 
     // it is necessary to remove eofbit flag in the case of when the blockSize_
     // is greather than the total length of input
     stream.clear();
 
-    int lastReadable = (int)stream.gcount();
+    std::string data(&buffer[0], (int)stream.gcount());
 
-    for (int i = lastReadable; i > 0; i--) {
-        stream.putback(buffer[i - 1]);
-    }
+    goBack(stream, position, data);
 
-    return std::string(buffer, lastReadable);
+    return data;
 }
 
 std::string getDataFromIStream(std::istream& stream) {
@@ -38,8 +52,11 @@ void setDataToIStream(std::istream& stream, std::string data) {
 }
 
 std::string getDataWithoutTouchingIStream(std::istream& stream) {
+    std::streampos position = stream.tellg();
+
     std::string data = getDataFromIStream(stream);
-    setDataToIStream(stream, data);
+
+    goBack(stream, position, data);
 
     return data;
 }
-- 
2.43.0


From 551a8b3c3f67b8a8cb84325f9bae5cb752bbcea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 126/143] fix: pipe runner: the converted input is read
 whatever the stream is

---
 framework/pipe_runner.cpp | 21 +++++++++++----------
 framework/pipe_runner.hpp |  2 +-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/framework/pipe_runner.cpp b/framework/pipe_runner.cpp
index 572aa77..a3d3747 100644
--- a/framework/pipe_runner.cpp
+++ b/framework/pipe_runner.cpp
@@ -499,10 +499,13 @@ void PipeRunner::runPipelineNode_(
         if (!reader)
             throw Exception("first element of the pipeline should be a reader");
 
-        if (encodingConversion_)
-            convertInputStreamEncoding_(in);
-
-        reader->readIntoLattice(in, lattice);
+        if (encodingConversion_) {
+            // not every stream accepts other characters than those read from it
+            std::istringstream convertedInput(convertInputStreamEncoding_(in));
+            reader->readIntoLattice(convertedInput, lattice);
+        } else {
+            reader->readIntoLattice(in, lattice);
+        }
     }
     else if (current == lastElementIter) {
         boost::shared_ptr<LatticeWriter<Sink> > writer =
@@ -778,12 +781,10 @@ void PipeRunner::turnOnLineByLineMode_() {
     }
 }
 
-void PipeRunner::convertInputStreamEncoding_(std::istream& stream) {
+std::string PipeRunner::convertInputStreamEncoding_(std::istream& stream) {
     std::string data = getDataFromIStream(stream);
 
-    std::string convertedData = inputEncoding_.empty()
-                                ? encodingConverter_.convert(data)
-                                : encodingConverter_.convert(inputEncoding_, data);
-
-    setDataToIStream(stream, convertedData);
+    return inputEncoding_.empty()
+           ? encodingConverter_.convert(data)
+           : encodingConverter_.convert(inputEncoding_, data);
 }
diff --git a/framework/pipe_runner.hpp b/framework/pipe_runner.hpp
index abc8bde..c8cce75 100644
--- a/framework/pipe_runner.hpp
+++ b/framework/pipe_runner.hpp
@@ -62,7 +62,7 @@ private:
     bool encodingConversion_;
     std::string inputEncoding_;
     EncodingConverter encodingConverter_;
-    void convertInputStreamEncoding_(std::istream&);
+    std::string convertInputStreamEncoding_(std::istream&);
 
     template<typename Source, typename Sink>
     void parseIntoFinalPipeline_(std::vector<std::string> args, bool isTheFirstArgProgramName);
-- 
2.43.0


From 6c3086291e5903e3f3e0058662474ce2fc02dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:12 +0000
Subject: [PATCH 127/143] fix: file recognizer: Office Open XML types given by
 newer versions of libmagic are known

---
 common/file_recognizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/file_recognizer.cpp b/common/file_recognizer.cpp
index a47795f..c5ffc9b 100644
--- a/common/file_recognizer.cpp
+++ b/common/file_recognizer.cpp
@@ -19,6 +19,9 @@ std::map<std::string, std::string> FileRecognizer::mimeTypeToFileExtension_ =
         ("application/octet-stream",  "bin") //?
         ("application/pdf",           "pdf")
         ("application/postscript",    "eps")
+        ("application/vnd.openxmlformats-officedocument.wordprocessingml.document",   "docx")
+        ("application/vnd.openxmlformats-officedocument.spreadsheetml.sheet",         "xlsx")
+        ("application/vnd.openxmlformats-officedocument.presentationml.presentation", "pptx")
         ("application/xml",           "xml")
         ("application/x-empty",       "") //?
         ("application/x-gzip",        "gz")
-- 
2.43.0


From a9c0bee143c2a674f6ff68e3aefb3d598ab96adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:13 +0000
Subject: [PATCH 128/143] fix: lemmatizers: a form given without a lexeme is
 built of the token

---
 common/lemmatizer_annotator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/lemmatizer_annotator.hpp b/common/lemmatizer_annotator.hpp
index ed03302..9d41c66 100644
--- a/common/lemmatizer_annotator.hpp
+++ b/common/lemmatizer_annotator.hpp
@@ -158,7 +158,8 @@ public:
                  tokenEdge_(tokenEdge),
                  lastCorrection_(tokenEdge),
                  lastNormalization_(tokenEdge),
-                 lastLemma_(tokenEdge) {
+                 lastLemma_(tokenEdge),
+                 lastLexeme_(tokenEdge) {
             }
 
         private:
-- 
2.43.0


From aacbce33093aef7a8c7d64757b44dbc998d6effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 129/143] fix: Morfologik tags: a tag with an unknown or
 repeated compound value does not lose all its descriptions

---
 common/morfologik_tags_parser.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/common/morfologik_tags_parser.cpp b/common/morfologik_tags_parser.cpp
index 487b76b..5678c8d 100644
--- a/common/morfologik_tags_parser.cpp
+++ b/common/morfologik_tags_parser.cpp
@@ -148,6 +148,8 @@ void MorfologikTagsParser::removeLexemeAttributes_(std::map<std::string, std::st
             complexAttributesCounter--;
         description.erase(it->second);
     }
+    if (pos.find(INNER_SEPARATOR) != std::string::npos)
+        complexAttributesCounter--;
     description.erase("pos");
 }
 
@@ -233,11 +235,14 @@ std::map<std::string, std::string> MorfologikTagsParser::parseSimple(std::string
     boost::split(attributes, tag, boost::is_any_of(OUTER_SEPARATOR));
 
     for (unsigned int i = 0; i < attributes.size(); ++i) {
-        foundAttribute = PREDEFINED_TAGS.find(getAttributeToSeek_(attributes[i], counter));
+        int complexity = 0;
+        foundAttribute = PREDEFINED_TAGS.find(getAttributeToSeek_(attributes[i], complexity));
 
         if (foundAttribute != PREDEFINED_TAGS.end()) {
-            descriptions.insert(std::pair<std::string, std::string>
-                (foundAttribute->second, attributes[i]));
+            // only attributes that are really there are counted
+            if (descriptions.insert(std::pair<std::string, std::string>
+                    (foundAttribute->second, attributes[i])).second)
+                counter += complexity;
         }
         else {
             WARN("Attribute [" << attributes[i] << "] for tag [" << tag
-- 
2.43.0


From 2837a0fc744bd2f32ee82262e7c452aaf1f47f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:01 +0000
Subject: [PATCH 130/143] fix: language guesser: the last bigram of a text
 counts, a text of one letter is no error

---
 tools/recognizers/langguesser/bigram_language_model.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tools/recognizers/langguesser/bigram_language_model.cpp b/tools/recognizers/langguesser/bigram_language_model.cpp
index bbef03e..822f9f2 100644
--- a/tools/recognizers/langguesser/bigram_language_model.cpp
+++ b/tools/recognizers/langguesser/bigram_language_model.cpp
@@ -45,7 +45,7 @@ double* BigramLanguageModel::frequencyTable() {
 
 void BigramLanguageModel::countBigramsInText(std::string& text, int* countTable) {
 
-    if (text.length() < 2) {
+    if (text.empty()) {
         return;
     }
 
@@ -54,14 +54,12 @@ void BigramLanguageModel::countBigramsInText(std::string& text, int* countTable)
 
     utf8::uint32_t a = utf8::next(iter, end);
     a = LOWER_LETTER(a);
-    utf8::uint32_t b = utf8::next(iter, end);
-    b = LOWER_LETTER(b);
 
     while (iter != end) {
+        utf8::uint32_t b = utf8::next(iter, end);
+        b = LOWER_LETTER(b);
         ++countTable[(a * FACTOR + b * (FACTOR * FACTOR)) % TABLE_SIZE];
         a = b;
-        b = utf8::next(iter, end);
-        b = LOWER_LETTER(b);
     }
 }
 
-- 
2.43.0


From a53e9c0fa39e37d4099e99107a679022406dc542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:01 +0000
Subject: [PATCH 131/143] fix: language guesser: a guesser without options has
 defined options

---
 tools/recognizers/langguesser/lang_guesser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/recognizers/langguesser/lang_guesser.cpp b/tools/recognizers/langguesser/lang_guesser.cpp
index 0c11ef0..1e5f5d7 100644
--- a/tools/recognizers/langguesser/lang_guesser.cpp
+++ b/tools/recognizers/langguesser/lang_guesser.cpp
@@ -31,7 +31,9 @@ std::map<std::string, std::string> LangGuesser::LANGUAGES =
         ("de", "äöüßÄÖÜ")
         ("ru", "абвгдеёжзийклмнопрстуфхцчшщъыьэюяАБВГДЕЁЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯ") ;
 
-LangGuesser::LangGuesser() {
+LangGuesser::LangGuesser()
+    : forceMode_(false), defaultLanguage_(DEFAULT_DEFAULT_LANGUAGE) {
+
     initLanguages();
 }
 
-- 
2.43.0


From a5e8d7d909f971ce17c983f18ba98623eb379458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 132/143] fix: NKJP reader: a comment with the position of a
 segment that contains a space is understood

---
 formats/nkjp/nkjp_lattice_reader.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/nkjp/nkjp_lattice_reader.hpp b/formats/nkjp/nkjp_lattice_reader.hpp
index 4e60758..271115d 100644
--- a/formats/nkjp/nkjp_lattice_reader.hpp
+++ b/formats/nkjp/nkjp_lattice_reader.hpp
@@ -59,7 +59,8 @@ struct NKJPMorphosyntaxCommentGrammar : public qi::grammar<
 
         start
             %= qi::lit(" ")
-            >> +(qi::char_ - ' ')
+            >> +(qi::char_ - (
+                qi::lit(" [") >> qi::int_ >> qi::lit(",") >> qi::int_ >> qi::lit("] ")))
             >> qi::lit(" [")
             >> qi::int_
             >> qi::lit(",")
-- 
2.43.0


From 65b71b1ce5f0eecf8a838f4d9320017443c903c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 133/143] fix: NKJP reader: a div without text is not an error

---
 formats/nkjp/nkjp_lattice_reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/formats/nkjp/nkjp_lattice_reader.cpp b/formats/nkjp/nkjp_lattice_reader.cpp
index 4cefc8d..1150dd6 100644
--- a/formats/nkjp/nkjp_lattice_reader.cpp
+++ b/formats/nkjp/nkjp_lattice_reader.cpp
@@ -409,6 +409,9 @@ void NKJPLatticeReader::Worker::doRun() {
             );
         } catch (WrongVertexException) { }
         AnnotationItem divItem(vP.first.data(), divAnnotationText);
+        if (divBegin == divEnd) {
+            divEnd = lattice_.addLooseVertex();
+        }
         lattice_.addEdge(
             divBegin,
             divEnd,
-- 
2.43.0


From 22bc3da2bcfde5208fc026187dfc9672477c7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 134/143] fix: NKJP reader: the text of a segment is not given
 to the following segments

---
 formats/nkjp/nkjp_lattice_reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/nkjp/nkjp_lattice_reader.cpp b/formats/nkjp/nkjp_lattice_reader.cpp
index 1150dd6..0d25ad4 100644
--- a/formats/nkjp/nkjp_lattice_reader.cpp
+++ b/formats/nkjp/nkjp_lattice_reader.cpp
@@ -336,6 +336,7 @@ void NKJPLatticeReader::Worker::doRun() {
                 }
                 sBuilder.addEdge(segEdge);
                 sEnd = segEnd;
+                segText.clear();
 
             } else if (strcmp(vSeg.first.data(), "<xmlcomment>") == 0) {
                 segText = boost::algorithm::trim_copy(vSeg.second.get("", std::string()));
-- 
2.43.0


From 81791b58c18c88976429f33875156002ac80d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 135/143] fix: NKJP reader: text after an empty sentence or
 paragraph is where it is in the text

---
 formats/nkjp/nkjp_lattice_reader.cpp | 24 ++++++++++++++++++++++--
 formats/nkjp/nkjp_lattice_reader.hpp |  4 ++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/formats/nkjp/nkjp_lattice_reader.cpp b/formats/nkjp/nkjp_lattice_reader.cpp
index 0d25ad4..9dcec84 100644
--- a/formats/nkjp/nkjp_lattice_reader.cpp
+++ b/formats/nkjp/nkjp_lattice_reader.cpp
@@ -74,6 +74,7 @@ void NKJPLatticeReader::Worker::doRun() {
         strcmp(vP.first.data(), "u") == 0
     ) {
         Lattice::VertexDescriptor pBegin = lattice_.getLastVertex();
+        size_t pTextBegin = lattice_.getAllText().length();
         Lattice::VertexDescriptor pEnd = lattice_.getLastVertex();
         Lattice::EdgeSequence::Builder pBuilder(lattice_);
         BOOST_FOREACH(
@@ -81,6 +82,7 @@ void NKJPLatticeReader::Worker::doRun() {
             vP.second.get_child("")
         ) if (strcmp(vS.first.data(), "s") == 0) {
             Lattice::VertexDescriptor sBegin = lattice_.getLastVertex();
+            size_t sTextBegin = lattice_.getAllText().length();
             Lattice::VertexDescriptor sEnd = lattice_.getLastVertex();
             Lattice::EdgeSequence::Builder sBuilder(lattice_);
             std::string segText;
@@ -341,6 +343,7 @@ void NKJPLatticeReader::Worker::doRun() {
             } else if (strcmp(vSeg.first.data(), "<xmlcomment>") == 0) {
                 segText = boost::algorithm::trim_copy(vSeg.second.get("", std::string()));
             }
+            sBegin = getTextBeginning_(sBegin, sTextBegin);
             StringFrag sAnnotationText;
             try {
                 sAnnotationText = StringFrag(
@@ -363,6 +366,7 @@ void NKJPLatticeReader::Worker::doRun() {
             pBuilder.addEdge(sEdge);
             pEnd = sEnd;
         }
+        pBegin = getTextBeginning_(pBegin, pTextBegin);
         StringFrag pAnnotationText;
         try {
             pAnnotationText = StringFrag(
@@ -387,6 +391,7 @@ void NKJPLatticeReader::Worker::doRun() {
         strcmp(vP.first.data(), "<xmlcomment>") != 0
     ) {
         Lattice::VertexDescriptor divBegin = lattice_.getLastVertex();
+        size_t divTextBegin = lattice_.getAllText().length();
         Lattice::EdgeSequence::Builder divBuilder(lattice_);
         BOOST_FOREACH(
             boost::property_tree::ptree::value_type &vAB,
@@ -401,6 +406,7 @@ void NKJPLatticeReader::Worker::doRun() {
             divBuilder.addEdge(abEdge);
         }
         Lattice::VertexDescriptor divEnd = lattice_.getLastVertex();
+        divBegin = getTextBeginning_(divBegin, divTextBegin);
         StringFrag divAnnotationText;
         try {
             divAnnotationText = StringFrag(
@@ -432,6 +438,17 @@ LayerTagCollection NKJPLatticeReader::Worker::getTags_(std::string mainTag) {
 }
 
 
+Lattice::VertexDescriptor NKJPLatticeReader::Worker::getTextBeginning_(
+    Lattice::VertexDescriptor begin,
+    size_t textBegin
+) {
+    if (lattice_.isLooseVertex(begin) && lattice_.getAllText().length() > textBegin) {
+        return textBegin;
+    }
+    return begin;
+}
+
+
 Lattice::EdgeDescriptor NKJPLatticeReader::Worker::appendSegmentToLattice_(
     std::string segment,
     AnnotationItem item,
@@ -439,7 +456,7 @@ Lattice::EdgeDescriptor NKJPLatticeReader::Worker::appendSegmentToLattice_(
     bool insertSpace
 ) {
     if (insertSpace) {
-        Lattice::VertexDescriptor sFrom = lattice_.getLastVertex();
+        Lattice::VertexDescriptor sFrom = lattice_.getAllText().length();
         lattice_.appendStringWithSymbols(" ");
         Lattice::VertexDescriptor sTo = lattice_.getLastVertex();
         std::string blank(" ");
@@ -452,11 +469,14 @@ Lattice::EdgeDescriptor NKJPLatticeReader::Worker::appendSegmentToLattice_(
         lattice_.addEdge(sFrom, sTo, sItem, getTags_(mainTag), sBuilder.build());
     }
 
-    Lattice::VertexDescriptor from = lattice_.getLastVertex();
+    Lattice::VertexDescriptor from;
     Lattice::VertexDescriptor to;
     if (segment.empty()) {
+        from = lattice_.getLastVertex();
         to = lattice_.addLooseVertex();
     } else {
+        // the text is appended to the text, also after loose vertices
+        from = lattice_.getAllText().length();
         lattice_.appendStringWithSymbols(segment);
         to = lattice_.getLastVertex();
     }
diff --git a/formats/nkjp/nkjp_lattice_reader.hpp b/formats/nkjp/nkjp_lattice_reader.hpp
index 271115d..f96da59 100644
--- a/formats/nkjp/nkjp_lattice_reader.hpp
+++ b/formats/nkjp/nkjp_lattice_reader.hpp
@@ -110,6 +110,10 @@ private:
 
         LayerTagCollection getTags_(std::string mainTag);
 
+        Lattice::VertexDescriptor getTextBeginning_(
+            Lattice::VertexDescriptor begin,
+            size_t textBegin);
+
         Lattice::EdgeDescriptor appendSegmentToLattice_(
             std::string segment,
             AnnotationItem item,
-- 
2.43.0


From 503912d55eab853174d9d986a7cba01a2dc2fb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:25 +0000
Subject: [PATCH 136/143] fix: metagger: a discarded form is not chosen again

---
 tools/taggers/metagger/me_tagger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/taggers/metagger/me_tagger.cpp b/tools/taggers/metagger/me_tagger.cpp
index 2785959..f0a1523 100644
--- a/tools/taggers/metagger/me_tagger.cpp
+++ b/tools/taggers/metagger/me_tagger.cpp
@@ -450,6 +450,8 @@ MeTagger::Outcome MeTagger::getBestTag(Lattice &lattice,
         lattice.outEdges(currentVertex, formMask);
     while (formIt.hasNext()) {
         Lattice::EdgeDescriptor form = formIt.next();
+        if (isDiscarded(lattice, form))
+            continue;
         if (getFormPartOfSpeech(lattice, form) == unknownPosLabel) {
             std::string currentOrth = lattice.getEdgeText(token);
             std::vector<std::string> openClasses;
-- 
2.43.0


From 0584a168c97823cec725e5131223e829700949bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:25 +0000
Subject: [PATCH 137/143] fix: metagger: a lemma may contain the separator of
 lemma and category

---
 tools/taggers/metagger/me_tagger.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/taggers/metagger/me_tagger.cpp b/tools/taggers/metagger/me_tagger.cpp
index f0a1523..02ceac3 100644
--- a/tools/taggers/metagger/me_tagger.cpp
+++ b/tools/taggers/metagger/me_tagger.cpp
@@ -638,10 +638,10 @@ std::string MeTagger::getFormLemma(Lattice &lattice,
         if (lattice.getLayerTagManager().isThere("lexeme", tags)) {
             std::string lemma_pos =
                 lattice.getEdgeAnnotationItem(parentEdge).getText();
-            if (lemma_pos.find(LEMMA_CATEGORY_SEPARATOR)
+            if (lemma_pos.rfind(LEMMA_CATEGORY_SEPARATOR)
                     != std::string::npos) {
                 return lemma_pos.substr(0,
-                        lemma_pos.find(LEMMA_CATEGORY_SEPARATOR));
+                        lemma_pos.rfind(LEMMA_CATEGORY_SEPARATOR));
             } else {
                 return lemma_pos;
             }
@@ -661,10 +661,10 @@ std::string MeTagger::getFormPartOfSpeech(Lattice &lattice,
         if (lattice.getLayerTagManager().isThere("lexeme", tags)) {
             std::string lemma_pos =
                 lattice.getEdgeAnnotationItem(parentEdge).getText();
-            if (lemma_pos.find(LEMMA_CATEGORY_SEPARATOR)
+            if (lemma_pos.rfind(LEMMA_CATEGORY_SEPARATOR)
                     != std::string::npos) {
                 return lemma_pos.substr(
-                        lemma_pos.find(LEMMA_CATEGORY_SEPARATOR) + 1,
+                        lemma_pos.rfind(LEMMA_CATEGORY_SEPARATOR) + 1,
                         std::string::npos);
             } else {
                 return unknownPosLabel;
-- 
2.43.0


From 83d9147885cd605caffaefa18a5fe910263dfff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:25 +0000
Subject: [PATCH 138/143] fix: metagger: a form with a head or orth attribute
 matches its own tag

---
 tools/taggers/metagger/me_tagger.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/taggers/metagger/me_tagger.cpp b/tools/taggers/metagger/me_tagger.cpp
index 02ceac3..c609bc8 100644
--- a/tools/taggers/metagger/me_tagger.cpp
+++ b/tools/taggers/metagger/me_tagger.cpp
@@ -595,6 +595,15 @@ bool MeTagger::formMatchesTag(Lattice &lattice,
             = lattice.getAnnotationItemManager().getValues(ai);
         std::list<std::pair<std::string, std::string> > attributes =
             getAttributesFromMorphoTag(tag);
+        for (std::list<std::pair<std::string, std::string> >::iterator
+                avIt = av.begin();
+                avIt != av.end();) {
+            // these are not in morpho tags
+            if (avIt->first == "head" || avIt->first == "orth")
+                avIt = av.erase(avIt);
+            else
+                ++ avIt;
+        }
         if (!av.empty()) {
             bool allAttributesMatched = true;
             for (std::list<std::pair<std::string, std::string> >::iterator
-- 
2.43.0


From 1bbf65ddfba6175889380d552c792c240a76e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:14 +0000
Subject: [PATCH 139/143] fix: the head of a puddle rule with a left context is
 sought within its match part

---
 tools/parsers/puddle/attach_action.cpp | 2 +-
 tools/parsers/puddle/group_action.cpp  | 2 +-
 tools/parsers/puddle/join_action.cpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/parsers/puddle/attach_action.cpp b/tools/parsers/puddle/attach_action.cpp
index 6eb03e0..ab50e83 100644
--- a/tools/parsers/puddle/attach_action.cpp
+++ b/tools/parsers/puddle/attach_action.cpp
@@ -34,7 +34,7 @@ bool AttachAction::apply(Lattice &lattice, std::string langCode,
     Lattice::VertexDescriptor startVertex = lattice::getVertex(
             lattice, langCode, realStart, matchedStartIndex);
     Lattice::VertexDescriptor headVertex = lattice::getVertex(
-            lattice, langCode, realHead, matchedStartIndex);
+            lattice, langCode, realStart + realHead, matchedStartIndex);
     Lattice::VertexDescriptor endVertex = lattice::getVertex(
             lattice, langCode, realEnd, matchedStartIndex);
     lattice::removeParseEdges(lattice, langCode, headVertex, headVertex + 1);
diff --git a/tools/parsers/puddle/group_action.cpp b/tools/parsers/puddle/group_action.cpp
index dba5848..82bc325 100644
--- a/tools/parsers/puddle/group_action.cpp
+++ b/tools/parsers/puddle/group_action.cpp
@@ -40,7 +40,7 @@ bool GroupAction::apply(Lattice &lattice, std::string langCode,
     //Lattice::VertexDescriptor headVertex = lattice::getVertex(
     //        lattice, matchedStartIndex + realHead);
     Lattice::VertexDescriptor headVertex = lattice::getVertex(
-            lattice, langCode, realHead, matchedStartIndex);
+            lattice, langCode, realStart + realHead, matchedStartIndex);
     //Lattice::VertexDescriptor headVertex = matchedStartIndex + realHead;
     ////@todo: rozwiazanie tymczasowe. nie uwzglednia to chyba lewego kontekstu
     //Lattice::VertexDescriptor endVertex = lattice::getVertex(
diff --git a/tools/parsers/puddle/join_action.cpp b/tools/parsers/puddle/join_action.cpp
index 4c1004f..2cd5548 100644
--- a/tools/parsers/puddle/join_action.cpp
+++ b/tools/parsers/puddle/join_action.cpp
@@ -31,7 +31,7 @@ bool JoinAction::apply(Lattice &lattice, std::string langCode,
     Lattice::VertexDescriptor startVertex = lattice::getVertex(
             lattice, langCode, realStart, matchedStartIndex);
     Lattice::VertexDescriptor headVertex = lattice::getVertex(
-            lattice, langCode, realHead, matchedStartIndex);
+            lattice, langCode, realStart + realHead, matchedStartIndex);
     Lattice::VertexDescriptor endVertex = lattice::getVertex(
             lattice, langCode, realEnd, matchedStartIndex);
     lattice::removeParseEdges(lattice, langCode, startVertex, endVertex);
-- 
2.43.0


From 5105b50998941a2965638e4cf96cd43cb943d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:14 +0000
Subject: [PATCH 140/143] fix: conditions on attributes in puddle rules match
 their values

---
 tools/parsers/puddle/rule_loader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/parsers/puddle/rule_loader.cpp b/tools/parsers/puddle/rule_loader.cpp
index 56229da..5047c4f 100644
--- a/tools/parsers/puddle/rule_loader.cpp
+++ b/tools/parsers/puddle/rule_loader.cpp
@@ -798,7 +798,8 @@ std::string RuleLoader::generateTokenPatternsString(TokenPatterns tokenPatterns)
                 } else {
                     if (partIt != patternIt->parts.begin())
                         //if not the first part = not the part of speech
-                        morphoPattern = "[^:<>]+";
+                        morphoPattern = partIt->negative
+                            ? "[^:<>]+" : "[^:<>]+(?::[^:<>]+)*";
                 }
                 if (partIt->negative) {
 #if HAVE_RE2
@@ -833,6 +834,8 @@ std::string RuleLoader::generateTokenPatternsString(TokenPatterns tokenPatterns)
                     morphoPattern += partIt->condition;
                     morphoPattern += ")[^<>]+";
 #endif
+                } else if (partIt != patternIt->parts.begin()) {
+                    morphoPattern += ":(?:" + partIt->condition + ")";
                 } else {
                     morphoPattern += partIt->condition;
                     //@todo: nie trzeba owinac w nawiasy jeszcze tego?
-- 
2.43.0


From a4ff5b922fe6f15fffc2e14331e3908902c3b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:13 +0000
Subject: [PATCH 141/143] fix: puddle conditions on all interpretations match
 tokens having several

---
 tools/parsers/puddle/rule_loader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/parsers/puddle/rule_loader.cpp b/tools/parsers/puddle/rule_loader.cpp
index 5047c4f..7f0110b 100644
--- a/tools/parsers/puddle/rule_loader.cpp
+++ b/tools/parsers/puddle/rule_loader.cpp
@@ -871,6 +871,8 @@ std::string RuleLoader::generateTokenPatternsString(TokenPatterns tokenPatterns)
         if (result == "(<[^<>]+<[^<>]+)")
         //    result += "*";
             result = "(?:<[^<>]+<[^<>]+)*";
+        else
+            result += "+";
     }
     return result;
 }
-- 
2.43.0


From 8d498181674a86694bbf7133b07d83314d73d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:51 +0000
Subject: [PATCH 142/143] fix: puddle conditions may have escaped special
 characters

---
 tools/parsers/puddle/rule_loader.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tools/parsers/puddle/rule_loader.cpp b/tools/parsers/puddle/rule_loader.cpp
index 7f0110b..d93fe60 100644
--- a/tools/parsers/puddle/rule_loader.cpp
+++ b/tools/parsers/puddle/rule_loader.cpp
@@ -1253,15 +1253,15 @@ std::string RuleLoader::escapeSpecialChars(std::string text) {
     Pattern regAsterisk("\\\\\\*");
     Pattern regOpt("\\\\\\?");
 
-    RegExp::GlobalReplace(&text, regAmp, "\\&amp;");
-    RegExp::GlobalReplace(&text, regLt, "\\&lt;");
-    RegExp::GlobalReplace(&text, regGt, "\\&gt;");
+    RegExp::GlobalReplace(&text, regAmp, "&amp;");
+    RegExp::GlobalReplace(&text, regLt, "&lt;");
+    RegExp::GlobalReplace(&text, regGt, "&gt;");
     RegExp::GlobalReplace(&text, regLPar, "&#40;");
     RegExp::GlobalReplace(&text, regRPar, "&#41;");
-    RegExp::GlobalReplace(&text, regAlt, "\\&#124;");
-    RegExp::GlobalReplace(&text, regPlus, "\\&#42;");
-    RegExp::GlobalReplace(&text, regAsterisk, "\\&#43;");
-    RegExp::GlobalReplace(&text, regOpt, "\\&#63;");
+    RegExp::GlobalReplace(&text, regAlt, "&#124;");
+    RegExp::GlobalReplace(&text, regPlus, "&#42;");
+    RegExp::GlobalReplace(&text, regAsterisk, "&#43;");
+    RegExp::GlobalReplace(&text, regOpt, "&#63;");
 
     return text;
 }
-- 
2.43.0


From dabce499cd58ca61f0ec9e01a792d60702af9bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:22 +0000
Subject: [PATCH 143/143] fix: puddle rules apply to texts shorter than the
 number of their elements

---
 tools/parsers/puddle/attach_action.cpp | 5 +----
 tools/parsers/puddle/group_action.cpp  | 5 +----
 tools/parsers/puddle/join_action.cpp   | 5 +----
 3 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/tools/parsers/puddle/attach_action.cpp b/tools/parsers/puddle/attach_action.cpp
index ab50e83..3943f65 100644
--- a/tools/parsers/puddle/attach_action.cpp
+++ b/tools/parsers/puddle/attach_action.cpp
@@ -61,12 +61,9 @@ bool AttachAction::apply(Lattice &lattice, std::string langCode,
     return true;
 }
 
-bool AttachAction::test(Lattice &lattice, std::string, int,
+bool AttachAction::test(Lattice &, std::string, int,
         RuleTokenSizes &ruleTokenSizes,
         std::list<Lattice::EdgeSequence>&) {
-    if ( ( (size_t)lattice.getLastVertex() ) < head) {
-        return false;
-    }
     if (ruleTokenSizes[head - 1] == 0) {
         throw PuddleRuleElementNotMatchedException(
                 "Group head element " + boost::lexical_cast<std::string>(head)
diff --git a/tools/parsers/puddle/group_action.cpp b/tools/parsers/puddle/group_action.cpp
index 82bc325..13581a4 100644
--- a/tools/parsers/puddle/group_action.cpp
+++ b/tools/parsers/puddle/group_action.cpp
@@ -77,12 +77,9 @@ bool GroupAction::apply(Lattice &lattice, std::string langCode,
     return true;
 }
 
-bool GroupAction::test(Lattice &lattice, std::string, int,
+bool GroupAction::test(Lattice &, std::string, int,
         RuleTokenSizes &ruleTokenSizes,
         std::list<Lattice::EdgeSequence>&) {
-    if ( ( (size_t) lattice.getLastVertex() ) < head) {
-        return false;
-    }
     if (ruleTokenSizes[head - 1] == 0) {
         throw PuddleRuleElementNotMatchedException(
                 "Group head element " + boost::lexical_cast<std::string>(head)
diff --git a/tools/parsers/puddle/join_action.cpp b/tools/parsers/puddle/join_action.cpp
index 2cd5548..520c780 100644
--- a/tools/parsers/puddle/join_action.cpp
+++ b/tools/parsers/puddle/join_action.cpp
@@ -64,12 +64,9 @@ bool JoinAction::apply(Lattice &lattice, std::string langCode,
     return true;
 }
 
-bool JoinAction::test(Lattice &lattice, std::string, int,
+bool JoinAction::test(Lattice &, std::string, int,
         RuleTokenSizes &ruleTokenSizes,
         std::list<Lattice::EdgeSequence>&) {
-    if ( ( (size_t) lattice.getLastVertex() ) < head ) {
-        return false;
-    }
     if (ruleTokenSizes[head - 1] == 0) {
         throw PuddleRuleElementNotMatchedException(
                 "Group head element " + boost::lexical_cast<std::string>(head)
-- 
2.43.0

