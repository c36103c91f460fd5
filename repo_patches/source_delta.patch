From dc41a69d041973d4ce164993fe6a34782ea08738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 001/128] fix: find an edge by tags that were merged into it
 after the mask was first used

---
 common/lattice.cpp | 43 +++++++++++++++++++++++++++++++++++++++++++
 common/lattice.hpp | 13 +++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 51f6e03..6c93aca 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -210,6 +210,7 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (edge.isExplicit()) {
             if (tags != oldTags) {
                 graph_[edge.descriptor].tagList = tags;
+                updateTagMaskIndexes_(edge.descriptor, oldTags);
             }
             if (score > oldScore) {
                 graph_[edge.descriptor].score = score;
@@ -942,6 +943,48 @@ int Lattice::addTagMaskIndex_(LayerTagMask tagMask) {
     }
 }
 
+void Lattice::updateTagMaskIndexes_(
+    const Graph::edge_descriptor& edge,
+    LayerTagCollection oldTags
+) {
+    Graph::vertex_descriptor source = boost::source(edge, graph_);
+    Graph::vertex_descriptor target = boost::target(edge, graph_);
+    for (
+        TagMasksHash::iterator iter = indexedTagMasks_.begin();
+        iter != indexedTagMasks_.end();
+        ++iter
+    ) {
+        if (!matches(oldTags, iter->first) && matches(graph_[edge].tagList, iter->first)) {
+            insertIntoIndex_(
+                graph_[source].outEdgesIndex[iter->second],
+                boost::out_edges(source, graph_),
+                edge
+            );
+            insertIntoIndex_(
+                graph_[target].inEdgesIndex[iter->second],
+                boost::in_edges(target, graph_),
+                edge
+            );
+        }
+    }
+}
+
+template <typename EdgeRange>
+void Lattice::insertIntoIndex_(
+    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>& index,
+    EdgeRange edges,
+    const Graph::edge_descriptor& edge
+) {
+    // the index keeps the order in which the edges were added
+    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>::iterator position = index.begin();
+    for (; edges.first != edges.second && *edges.first != edge; ++edges.first) {
+        if (position != index.end() && *position == *edges.first) {
+            ++position;
+        }
+    }
+    index.insert(position, edge);
+}
+
 void Lattice::resizeImplicitEdgesStructures_() {
     implicitOutEdges_.resize(allText_.length()+1);
     hiddenImplicitOutEdges_.resize(allText_.length()+1);
diff --git a/common/lattice.hpp b/common/lattice.hpp
index 2f8a788..f58f790 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -744,6 +744,19 @@ private:
 
     void resizeImplicitEdgesStructures_();
 
+    /**
+     * Adds the edge to the indexes of those tag masks that its tags have started to match.
+     */
+    void updateTagMaskIndexes_(
+        const Graph::edge_descriptor& edge,
+        LayerTagCollection oldTags);
+
+    template <typename EdgeRange>
+    void insertIntoIndex_(
+        std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>& index,
+        EdgeRange edges,
+        const Graph::edge_descriptor& edge);
+
     VertexDescriptor priorVertex_(VertexDescriptor vertex);
 
     size_t symbolLength_(int ix) const;
-- 
2.43.0


From dcfe130eacfb8ab9d66d58869d400d1d6610eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 002/128] fix: forget the implicit edge when a symbol edge is
 made explicit

---
 common/lattice.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 6c93aca..2c3cc1c 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -1,5 +1,6 @@
 #include "lattice.hpp"
 
+#include <algorithm>
 #include <sstream>
 
 #include "string_helpers.hpp"
@@ -218,8 +219,11 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             graph_[edge.descriptor].partitions.push_back(
                 Partition(tags, sequence, score, ruleId, treeChoice));
         } else {
+            // the implicit edge is replaced with an explicit one
             implicitOutEdges_.set(from, false);
-            edge.implicitIndex = -1;
+            std::vector<EdgeDescriptor>& edges = (insertResult.first)->second;
+            edges.erase(std::find(edges.begin(), edges.end(), edge));
+            --edgeCounterHash_[vpair];
             needToAddEdge = true;
         }
     }
-- 
2.43.0


From cc37debfd4214153e499b8c3f9e5f5deed8af20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 003/128] fix: let discarding a symbol edge mark that edge and
 not a copy of it

---
 common/lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 2c3cc1c..bac83e1 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -59,7 +59,7 @@ void Lattice::addSymbols(VertexDescriptor startVertex, VertexDescriptor endVerte
         addEdge(
             vd,
             vd + symbol.length(),
-            AnnotationItem("'" + symbol),
+            AnnotationItem("'" + symbol, StringFrag(symbol)),
             getSymbolTag());
         vd += symbol.length();
     }
-- 
2.43.0


From 2f6910b4b981dfb05a8eda3306640ac948b781e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 004/128] fix: keep the category, values and score given for a
 symbol edge

---
 common/lattice.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index bac83e1..6779bfa 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -158,6 +158,20 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         AnnotationItem
     > hkey(vpair, annotationItem);
 
+    // the text of a default symbol edge can be omitted
+    if (
+        annotationItem.getTextAsStringFrag().length() == 0
+        && tags == getSymbolTag()
+        && !isLooseVertex(from)
+        && !isLooseVertex(to)
+        && from + (int) symbolLength_(from) == to
+    ) {
+        AnnotationItem symbolItem(getEdgeAnnotationItem(EdgeDescriptor(from)));
+        if (annotationItem == AnnotationItem(symbolItem, StringFrag(""))) {
+            hkey.second = symbolItem;
+        }
+    }
+
     std::vector<EdgeDescriptor> vectorOfOneEmptyEdgeDescriptor;
     // vectorOfOneEmptyEdgeDescriptor.push_back(EdgeDescriptor());
 
@@ -256,6 +270,9 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             && tags == getSymbolTag()
             && from + (int) symbolLength_(from) == to
             && !implicitOutEdges_[from]
+            && score == 0.0
+            && sequence.empty()
+            && hkey.second == getEdgeAnnotationItem(EdgeDescriptor(from))
         ) {
             implicitOutEdges_.set(from, true);
             (insertResult.first)->second.push_back(EdgeDescriptor(from));
@@ -304,7 +321,7 @@ Lattice::EdgeDescriptor Lattice::addEdge(
             boost_from,
             boost_to,
             EdgeEntry(
-                annotationItem,
+                hkey.second,
                 tags, score,
                 Partition(tags, sequence, score, ruleId, treeChoice)
             ),
-- 
2.43.0


From 2c5137ce31e58f3e97fc164975ce8a8f7e64c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 005/128] fix: do not index the implicit edges with a loose
 vertex

---
 common/lattice.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 6779bfa..f7b4fbf 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -256,9 +256,13 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (tags == getSymbolTag()) {
             try {
                 firstOutEdge(from, symbolMask_);
-                visibleImplicitOutEdges_[from] = true;
+                if (!isLooseVertex(from)) {
+                    visibleImplicitOutEdges_[from] = true;
+                }
                 EdgeDescriptor ed = firstInEdge(to, symbolMask_);
-                visibleImplicitOutEdges_[getEdgeSource(ed)] = true;
+                if (!isLooseVertex(getEdgeSource(ed))) {
+                    visibleImplicitOutEdges_[getEdgeSource(ed)] = true;
+                }
             } catch (NoEdgeException) {
             }
         }
-- 
2.43.0


From 55b349441819ad4cc9c9c617435ff688d11b1901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 006/128] fix: inserting an empty text is a no-op

---
 common/lattice.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index f7b4fbf..9f5f3c4 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -849,6 +849,9 @@ int Lattice::getLooseVertexIndex(VertexDescriptor vd) const {
 }
 
 void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
+    if (text.empty()) {
+        return;
+    }
     VertexDescriptor from = here;
     VertexDescriptor to;
     std::string::iterator iter = text.begin();
-- 
2.43.0


From 50dfdc73672349dcf9df36bfeebf42df720fe1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 007/128] fix: cut and append string frags that hold their own
 text

---
 common/string_frag.cpp |  5 +++--
 common/string_frag.hpp | 11 +++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/common/string_frag.cpp b/common/string_frag.cpp
index 22ea01a..0590a39 100644
--- a/common/string_frag.cpp
+++ b/common/string_frag.cpp
@@ -74,7 +74,7 @@ void StringFrag::append(const StringFrag & other) {
     ) {
         len_ += other.len_;
         contents_ = src_.substr(begin_, (std::min)(len_, (size_t)ABBR_LENGTH));
-    } else if (contents_=="" && this != &other) {
+    } else if (length() == 0 && this != &other) {
         this->StringFrag::~StringFrag();
         new (this) StringFrag(other);
     } else {
@@ -95,7 +95,8 @@ size_t StringFrag::find(char c, size_t pos) const {
     if (stored_()) {
         return contents_.find(c, pos);
     }
-    return src_.find(c, begin_ + pos) - begin_;
+    size_t found = src_.find(c, begin_ + pos);
+    return found < begin_ + len_ ? found - begin_ : std::string::npos;
 }
 
 
diff --git a/common/string_frag.hpp b/common/string_frag.hpp
index e6b49ea..c0feef0 100644
--- a/common/string_frag.hpp
+++ b/common/string_frag.hpp
@@ -56,12 +56,15 @@ public:
         size_t len
     ) :
 #if STRING_FRAG_VALIDATION
-        contents_(sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))),
+        contents_(
+            sf.stored_() ?
+            sf.contents_.substr(begin, len) :
+            sf.src_.substr(sf.begin_ + begin, (std::min)(len, (size_t)ABBR_LENGTH))),
 #else
-        contents_(""),
+        contents_(sf.stored_() ? sf.contents_.substr(begin, len) : std::string()),
 #endif
-        src_(sf.src_),
-        begin_(sf.begin_ + begin),
+        src_(sf.stored_() ? contents_ : sf.src_),
+        begin_(sf.stored_() ? std::string::npos : sf.begin_ + begin),
         len_(len)
     {
 #if STRING_FRAG_VALIDATION
-- 
2.43.0


From 82b670eba1b85b5538d379d994ed380e9e556c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 008/128] fix: keep integer attribute values of 31 bits and
 more

---
 common/zvalue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/zvalue.hpp b/common/zvalue.hpp
index 0ab36ce..3978095 100644
--- a/common/zvalue.hpp
+++ b/common/zvalue.hpp
@@ -34,7 +34,7 @@ class zobject;
 #define TRUEP(z)    ( !( NULLP((z)) || ZEROP((z)) ) )
 
 #define ZVALUE_TO_INTEGER(z) ( reinterpret_cast<zint_t>(z) >> 1 )
-#define INTEGER_TO_ZVALUE(i) ( reinterpret_cast<zvalue>(((i) << 1) | 1) )
+#define INTEGER_TO_ZVALUE(i) ( reinterpret_cast<zvalue>((static_cast<zint_t>(i) << 1) | 1) )
 #define INTEGERP(z)          ( reinterpret_cast<zint_t>(z) & 1 )
 
 #define ZVALUE_TO_ZOBJECT(z) ( reinterpret_cast<zobject*>(z) )
-- 
2.43.0


From bd9d99b71e00c0c49fdbef9bad49b31290d851e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 009/128] fix: tell an item with a value from an item without
 it

---
 common/annotation_item.cpp | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/common/annotation_item.cpp b/common/annotation_item.cpp
index d13c08f..e2d37a0 100644
--- a/common/annotation_item.cpp
+++ b/common/annotation_item.cpp
@@ -1,5 +1,7 @@
 #include "annotation_item.hpp"
 
+#include <algorithm>
+
 bool AnnotationItem::operator==(const AnnotationItem& other) const {
     return getCategory() == other.getCategory()
         && getText() == other.getText()
@@ -43,29 +45,17 @@ size_t AnnotationItem::resize_(size_t size) {
 }
 
 bool AnnotationItem::areAttributesTheSame_(const AnnotationItem& other) const {
-    size_t smallerSize = values_.size();
-    size_t largerSize  = other.values_.size();
-    const std::vector<zvalue>* largerVector = &(other.values_);
-
-    if (smallerSize > largerSize) {
-        smallerSize = other.values_.size();
-        largerSize  = values_.size();
-        largerVector = &values_;
-    }
+    if (attributes_ != other.attributes_)
+        return false;
 
-   for (size_t i = 0; i < smallerSize; ++i) {
-       if (values_[i] != other.values_[i]) {
-           return false;
-       }
-   }
+    // the attributes are the same, so cells missing in one item are empty in the other one
+    size_t smallerSize = (std::min)(values_.size(), other.values_.size());
 
-   for (size_t i = smallerSize; i < largerSize; ++i) {
-       char * valStr = zvalue_to_string((*largerVector)[i]);
-       if (strcmp(valStr, "") != 0) {
-           delete [] valStr;
-           return false;
-       }
-   }
+    for (size_t i = 0; i < smallerSize; ++i) {
+        if (values_[i] != other.values_[i]) {
+            return false;
+        }
+    }
 
-   return true;
+    return true;
 }
-- 
2.43.0


From 58e719cac29cc70f2664152edbbc22bf00788efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:46 +0000
Subject: [PATCH 010/128] fix: print the smallest integer value

---
 common/zvalue.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/common/zvalue.cpp b/common/zvalue.cpp
index f0d6895..6dc0202 100644
--- a/common/zvalue.cpp
+++ b/common/zvalue.cpp
@@ -358,11 +358,12 @@ char* itoa(int i)
     char buf[16];
     char *s = buf;
     int neg = 0;
-    if (i<0) { i*=-1; neg=1; }
-    if (0==i) { *s++ = '0'; }
-    while (i>0) {
-        *s++ = '0' + i%10;
-        i/=10;
+    unsigned int u = i;
+    if (i<0) { u=0-u; neg=1; }
+    if (0==u) { *s++ = '0'; }
+    while (u>0) {
+        *s++ = '0' + u%10;
+        u/=10;
     }
     char* result = new char[s-buf+1+neg];
     char* r = result;
-- 
2.43.0


From ae4293f6bb798d63e27aef56e4aacd33926a715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 011/128] fix: insert only the rest when a replacement is
 longer than the replaced text

---
 common/lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 9f5f3c4..8d78f4f 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -910,7 +910,7 @@ void Lattice::correctionReplace(VertexDescriptor from, VertexDescriptor to, std:
         std::string::iterator end = text.end();
         while (iter != end) {
             if (from == to) {
-                return correctionInsert(from, text);
+                return correctionInsert(from, std::string(iter, end));
             }
             std::string symbol;
             utf8::append(utf8::next(iter, end), std::back_inserter(symbol));
-- 
2.43.0


From 052966492186a21746377695885405e8e59593e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 012/128] fix: insert a correction at the end of the text

---
 common/lattice.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 8d78f4f..0d5b711 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -852,6 +852,11 @@ void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
     if (text.empty()) {
         return;
     }
+    boost::optional<EdgeDescriptor> nextEdge;
+    try {
+        nextEdge = firstOutEdge(here, symbolMask_);
+    } catch (NoEdgeException) {
+    }
     VertexDescriptor from = here;
     VertexDescriptor to;
     std::string::iterator iter = text.begin();
@@ -868,11 +873,8 @@ void Lattice::correctionInsert(VertexDescriptor here, std::string text) {
         );
         from = to;
     }
-    try {
-        EdgeDescriptor nextEdge
-            = firstOutEdge(here, symbolMask_);
-        addEdge(to, getEdgeTarget(nextEdge), getEdgeAnnotationItem(nextEdge), getSymbolTag());
-    } catch (NoEdgeException) {
+    if (nextEdge) {
+        addEdge(to, getEdgeTarget(*nextEdge), getEdgeAnnotationItem(*nextEdge), getSymbolTag());
     }
 }
 
-- 
2.43.0


From c60043d4357d867265100e9201596a62148b8a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 013/128] fix: write the whole text of a PSI edge unless it is
 written already

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 77 ++++++++++---------
 1 file changed, 39 insertions(+), 38 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 93fe86d..9fcec84 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -140,7 +140,7 @@ void PsiLatticeWriter::Worker::printEdge(
 
                 printTableRow_(outputCells);
 
-                latticeTextCovered += edgeText;
+                latticeTextCovered += lattice_.getEdgeText(rawEdge);
 
                 i = lattice_.getEdgeEndIndex(rawEdge);
 
@@ -225,44 +225,9 @@ void PsiLatticeWriter::Worker::printEdge(
     }
 
     std::list<Lattice::Partition> partitions = lattice_.getEdgePartitions(edge);
-    bool writeWholeText = false;
-    if (
-        !lattice_.isLooseVertex(source) &&
-        !lattice_.isLooseVertex(target) &&
-        latticeTextCovered.length() < lattice_.getVertexRawCharIndex(target)
-    ) {
-        writeWholeText = true;
-    }
+    // edge text (filled in when the rows of the sub-edges are printed):
 
-    // edge text:
-
-    std::stringstream edgeTextSs;
-    unsigned int edgeTextLength = utf8::distance(edgeText.begin(), edgeText.end());
-    std::string edgeTextPrinted;
-    if (edgeTextLength == 0) {
-        edgeTextSs << "∅";
-    } else if (edgeTextLength > getColumnWidth_(3) && !writeWholeText) {
-        std::string::const_iterator bIter = edgeText.begin();
-        utf8::unchecked::advance(bIter, getColumnWidth_(3) - 7);
-        edgeTextSs << edgeText.substr(0, bIter - edgeText.begin()) << "...";
-
-        std::string::const_iterator eIter = edgeText.end();
-        for (int i = 0; i < 3; ++i)
-            utf8::unchecked::prior(eIter);
-
-        edgeTextPrinted = edgeText.substr(eIter - edgeText.begin());
-    } else {
-        edgeTextPrinted = edgeText;
-    }
-    if (!lattice_.isLooseVertex(source) && !lattice_.isLooseVertex(target)) {
-        try {
-            latticeTextCovered +=
-                edgeTextPrinted.substr(latticeTextCovered.length()
-                    - lattice_.getVertexRawCharIndex(source));
-        } catch (std::out_of_range) { }
-    }
-    edgeTextSs << edgeTextPrinted;
-    outputCells.push_back(edgeTextSs.str());
+    outputCells.push_back("");
 
     // tags:
 
@@ -387,6 +352,42 @@ void PsiLatticeWriter::Worker::printEdge(
 
     outputCells.push_back(aiSs.str());
 
+    // insert edge text into fourth cell (only now, for printing sub-edges covers some text):
+
+    bool writeWholeText = false;
+    if (
+        !lattice_.isLooseVertex(source) &&
+        !lattice_.isLooseVertex(target) &&
+        latticeTextCovered.length() < lattice_.getVertexRawCharIndex(target)
+    ) {
+        writeWholeText = true;
+    }
+
+    std::stringstream edgeTextSs;
+    unsigned int edgeTextLength = utf8::distance(edgeText.begin(), edgeText.end());
+    std::string edgeTextPrinted;
+    if (edgeTextLength == 0) {
+        edgeTextSs << "∅";
+    } else if (edgeTextLength > getColumnWidth_(3) && !writeWholeText) {
+        std::string::const_iterator bIter = edgeText.begin();
+        utf8::unchecked::advance(bIter, getColumnWidth_(3) - 7);
+        edgeTextSs << edgeText.substr(0, bIter - edgeText.begin()) << "...";
+
+        std::string::const_iterator eIter = edgeText.end();
+        for (int i = 0; i < 3; ++i)
+            utf8::unchecked::prior(eIter);
+
+        edgeTextPrinted = edgeText.substr(eIter - edgeText.begin());
+    } else {
+        edgeTextPrinted = edgeText;
+    }
+    if (writeWholeText) {
+        latticeTextCovered
+            = lattice_.getAllText().substr(0, lattice_.getVertexRawCharIndex(target));
+    }
+    edgeTextSs << edgeTextPrinted;
+    outputCells[3] = edgeTextSs.str();
+
     // insert ordinal number into first cell:
 
     ++ordinal;
-- 
2.43.0


From 2552a020e370d8f466c5b75af86e435a30ce43b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 014/128] fix: write uncovered PSI text character by character

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 9fcec84..a97a3e2 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -6,6 +6,7 @@
 #include <boost/assign/list_of.hpp>
 
 #include "logging.hpp"
+#include "string_helpers.hpp"
 
 std::string PsiLatticeWriter::getFormatName() {
     return "PSI";
@@ -150,7 +151,8 @@ void PsiLatticeWriter::Worker::printEdge(
 
                 std::vector<std::string> outputCells;
 
-                char uncoveredSymbol = lattice_.getAllText()[i];
+                std::string uncoveredSymbol
+                    = lattice_.getAllText().substr(i, symbolLength(lattice_.getAllText(), i));
 
                 ++ordinal;
                 std::stringstream ordinalSs;
@@ -163,9 +165,12 @@ void PsiLatticeWriter::Worker::printEdge(
                 beginningSs << i;
                 outputCells.push_back(beginningSs.str());
 
-                outputCells.push_back("01");
+                std::stringstream lengthSs;
+                lengthSs << std::right << std::setfill('0') << std::setw(2);
+                lengthSs << uncoveredSymbol.length();
+                outputCells.push_back(lengthSs.str());
 
-                outputCells.push_back(quoter.escape(std::string(1, uncoveredSymbol)));
+                outputCells.push_back(quoter.escape(uncoveredSymbol));
 
                 outputCells.push_back("∅");
 
@@ -176,7 +181,7 @@ void PsiLatticeWriter::Worker::printEdge(
                 printTableRow_(outputCells);
 
                 latticeTextCovered += uncoveredSymbol;
-                i++;
+                i += uncoveredSymbol.length();
 
             }
         }
-- 
2.43.0


From 1486f6fe97da184895e4e49c3db5263234cfe6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 015/128] fix: do not cut a shortened PSI text inside an escape

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index a97a3e2..4e9ea20 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -90,6 +90,15 @@ void PsiLatticeWriter::Worker::doRun() {
 }
 
 
+// Is the position between a backslash and the character it escapes?
+static bool isInsideEscape_(const std::string& text, size_t position) {
+    size_t backslashes = 0;
+    while (backslashes < position && text[position - backslashes - 1] == '\\')
+        ++backslashes;
+    return backslashes % 2 == 1;
+}
+
+
 void PsiLatticeWriter::Worker::printEdge(
     Lattice::EdgeDescriptor edge,
     PsiQuoter &quoter,
@@ -376,11 +385,15 @@ void PsiLatticeWriter::Worker::printEdge(
     } else if (edgeTextLength > getColumnWidth_(3) && !writeWholeText) {
         std::string::const_iterator bIter = edgeText.begin();
         utf8::unchecked::advance(bIter, getColumnWidth_(3) - 7);
+        if (isInsideEscape_(edgeText, bIter - edgeText.begin()))
+            --bIter;
         edgeTextSs << edgeText.substr(0, bIter - edgeText.begin()) << "...";
 
         std::string::const_iterator eIter = edgeText.end();
         for (int i = 0; i < 3; ++i)
             utf8::unchecked::prior(eIter);
+        if (isInsideEscape_(edgeText, eIter - edgeText.begin()))
+            --eIter;
 
         edgeTextPrinted = edgeText.substr(eIter - edgeText.begin());
     } else {
-- 
2.43.0


From 1509ec0906bf23825186a9e60ae61fea1c607c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 016/128] fix: read the PSI category of a comma, bracket or
 less-than symbol

---
 formats/psi/psi_reader/psi_lattice_reader.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 1c2a80a..b3465bf 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -146,11 +146,20 @@ struct PsiLRGrammar : public qi::grammar<
             %= +(qi::char_ - ' ' - ',') % ',';
 
         annotation
-            %= +(qi::char_ - ' ' - ',' - '[' - '<')                         //category
+            %= category                                                     //category
             >> score                                                        //score
             >> -(',' >> +(qi::char_ - '['))                                 //av
             >> -(qi::char_("[") >> *(qi::char_ - ']') >> qi::char_("]"));   //partitions
 
+        // the category of a symbol is the symbol (any) with an apostrophe
+        category
+            %= qi::hold[
+                qi::char_('\'')
+                >> (qi::char_ - ' ')
+                >> *(qi::char_ - ' ' - ',' - '[' - '<')
+            ]
+            | +(qi::char_ - ' ' - ',' - '[' - '<');
+
         score
             = qi::eps[qi::_val = 0.0]
             >> -('<' >> qi::double_[qi::_val = qi::_1] >> '>');
@@ -163,6 +172,7 @@ struct PsiLRGrammar : public qi::grammar<
     qi::rule<std::string::const_iterator, bool()> point;
     qi::rule<std::string::const_iterator, std::vector<std::string>()> tags;
     qi::rule<std::string::const_iterator, PsiLRAnnotation()> annotation;
+    qi::rule<std::string::const_iterator, std::string()> category;
     qi::rule<std::string::const_iterator, double()> score;
 
 };
-- 
2.43.0


From 31d0cc1879834d73ebe8912f47132e4c8ddf919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 017/128] fix: unescape the tags of a PSI edge

---
 formats/psi/psi_reader/psi_lattice_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index b3465bf..77b848b 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -84,7 +84,7 @@ struct PsiLRItem {
 
     void unescape(Quoter & quoter) {
         text = quoter.unescape(text);
-        BOOST_FOREACH(std::string tag, tags) {
+        BOOST_FOREACH(std::string& tag, tags) {
             tag = quoter.unescape(tag);
         }
         annotationText = quoter.unescape(annotationText);
-- 
2.43.0


From d02b2844a16832b45bf8bba4783d7d319041695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:43 +0000
Subject: [PATCH 018/128] fix: escape the tags of a PSI partition

---
 formats/psi/psi_writer/psi_lattice_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 4e9ea20..b6e45b0 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -353,7 +353,7 @@ void PsiLatticeWriter::Worker::printEdge(
                 }
                 partitionTagStr += partitionTagName;
             }
-            partSs << "(" << partitionTagStr << ")";
+            partSs << "(" << quoter.escape(partitionTagStr) << ")";
         }
         Lattice::Score partitionScore = partition.getScore();
         if (partitionScore != score) {
-- 
2.43.0


From 7e6ed517508a0f68cb81bea8fbe9cc92df47cf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 019/128] fix: append text with symbols after a loose vertex at
 the end

---
 common/lattice.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 0d5b711..47bf755 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -66,9 +66,10 @@ void Lattice::addSymbols(VertexDescriptor startVertex, VertexDescriptor endVerte
 }
 
 void Lattice::appendStringWithSymbols(const std::string & text) {
-    Lattice::VertexDescriptor joinPoint = getLastVertex();
+    // the last vertex may be a loose one
+    Lattice::VertexDescriptor joinPoint = allText_.length();
     appendString(text);
-    addSymbols(joinPoint, getLastVertex());
+    addSymbols(joinPoint, allText_.length());
 }
 
 Lattice::VertexDescriptor Lattice::addLooseVertex() {
-- 
2.43.0


From 31b4387bc816f8cb5bc89f5ff265d4f09b9dde5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 020/128] fix: write and read PSI edges between the text and
 loose vertices

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 14 ++++++++------
 formats/psi/psi_writer/psi_lattice_writer.cpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index caeeac1..0c350b2 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -92,7 +92,7 @@ void PsiLatticeReader::Worker::doRun() {
             if (!item.beginningLoose) {
                 try {
                     if (
-                        (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex())) <
+                        (int)(lattice_.getAllText().length()) <
                             item.beginning
                     ) {
                         // throw FileFormatException(
@@ -103,27 +103,29 @@ void PsiLatticeReader::Worker::doRun() {
                             "Some lattice text cannot be reconstructed: " <<
                             "the placeholder will be put instead ('" <<
                             std::string(1, PLACEHOLDER) << "' at " <<
-                            (int)(lattice_.getVertexRawCharIndex(lattice_.getLastVertex())) <<
+                            (int)(lattice_.getAllText().length()) <<
                             ")."
                         );
                         lattice_.appendStringWithSymbols(std::string(
                             item.beginning
-                                - lattice_.getVertexRawCharIndex(lattice_.getLastVertex()),
+                                - lattice_.getAllText().length(),
                             PLACEHOLDER
                         ));
                     }
-                    if (
+                    if (item.lengthLoose) {
+                        // The text of the edge is not a text of the lattice.
+                    } else if (
                         lattice_.getLayerTagManager().isThere("symbol", tags) ||
                         lattice_.getLayerTagManager().isThere("∅", tags) ||
                         item.annotationItem.partitions == "[]"
                     ) {
                         lattice_.appendString(form.substr(
-                            lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
+                            lattice_.getAllText().length()
                                 - item.beginning
                         ));
                     } else {
                         lattice_.appendStringWithSymbols(form.substr(
-                            lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
+                            lattice_.getAllText().length()
                                 - item.beginning
                         ));
                     }
diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index b6e45b0..18503b4 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -109,9 +109,10 @@ void PsiLatticeWriter::Worker::printEdge(
     Lattice::VertexDescriptor source = lattice_.getEdgeSource(edge);
     Lattice::VertexDescriptor target = lattice_.getEdgeTarget(edge);
 
-    if (!lattice_.isLooseVertex(source) && !lattice_.isLooseVertex(target)) {
+    if (!lattice_.isLooseVertex(source) || !lattice_.isLooseVertex(target)) {
         size_t i = latticeTextCovered.length();
-        while (i < lattice_.getVertexRawCharIndex(source)) {
+        Lattice::VertexDescriptor textVertex = lattice_.isLooseVertex(source) ? target : source;
+        while (i < lattice_.getVertexRawCharIndex(textVertex)) {
             try {
 
                 std::vector<std::string> outputCells;
@@ -326,8 +327,11 @@ void PsiLatticeWriter::Worker::printEdge(
                             lattice_.getAnnotationItemManager().zvalueToString(ed.getRole()))
                         << '$';
                 }
-            } else if (!lattice_.getLayerTagManager().isThere(
-                    "symbol", lattice_.getEdgeLayerTags(ed.getEdge()))) {
+            } else if (
+                !lattice_.isEdgeHidden(ed.getEdge())
+                || lattice_.isLooseVertex(source)
+                || lattice_.isLooseVertex(target)
+            ) {
                 printEdge(ed.getEdge(), quoter, edgeOrdinalMap, ordinal, latticeTextCovered);
                 std::map<Lattice::EdgeDescriptor, int>::iterator mi2
                     = edgeOrdinalMap.find(ed.getEdge());
-- 
2.43.0


From 362a4e6a85df9224eb03ca8e8eb3841b54555b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 021/128] fix: read an apostrophe as the category of a PSI edge
 with partitions or values

---
 formats/psi/psi_reader/psi_lattice_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index 77b848b..f80ee2b 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -155,8 +155,8 @@ struct PsiLRGrammar : public qi::grammar<
         category
             %= qi::hold[
                 qi::char_('\'')
-                >> (qi::char_ - ' ')
-                >> *(qi::char_ - ' ' - ',' - '[' - '<')
+                >> qi::char_(",[<")
+                >> &(qi::eoi | qi::char_(",[< "))
             ]
             | +(qi::char_ - ' ' - ',' - '[' - '<');
 
-- 
2.43.0


From 9da6cfd39495a75411dcd273d24b7703263a6980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 022/128] fix: do not take the hyphen of a PSI partition for a
 minus

---
 formats/psi/psi_reader/psi_lattice_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index f80ee2b..cc8cd0c 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -306,7 +306,7 @@ struct PsiLRPartitionGrammar : public qi::grammar<
 
         edgeNumber
             = qi::eps[qi::_val = 0]
-            >> -(qi::int_[qi::_val = qi::_1]);
+            >> -(qi::uint_[qi::_val = qi::_1]);
 
         role
             = qi::eps[qi::_val = ""]
-- 
2.43.0


From 87913325a9ed82970e44b249616d8307c556a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 023/128] fix: write and read all partitions of a PSI edge

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 13 +++++++-
 formats/psi/psi_reader/psi_lattice_reader.hpp |  2 +-
 formats/psi/psi_writer/psi_lattice_writer.cpp | 32 ++++++++++++-------
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index 0c350b2..3b05972 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -242,9 +242,13 @@ void PsiLatticeReader::Worker::doRun() {
                     BOOST_FOREACH(std::string part, partsItem) {
                         Lattice::EdgeSequence::Builder seqBuilder(lattice_);
                         PsiLRPartitionItem partItem;
+                        currentVertex = from;
                         std::string::const_iterator partBegin = part.begin();
                         std::string::const_iterator partEnd = part.end();
                         if (parse(partBegin, partEnd, partGrammar, partItem)) {
+                            if (part.empty() || part[0] == '(' || part[0] == '<') {
+                                partItem.edgeNumbersWithRoles.clear();
+                            }
                             BOOST_FOREACH(
                                 PsiLREdgeNumberWithRole edgeNumberWithRole,
                                 partItem.edgeNumbersWithRoles
@@ -258,7 +262,14 @@ void PsiLatticeReader::Worker::doRun() {
                                             << " (too many sub-edges)";
                                         throw FileFormatException(errorSs.str());
                                     }
-                                    currentEdge = lattice_.firstOutEdge(currentVertex, rawMask);
+                                    try {
+                                        currentEdge
+                                            = lattice_.firstOutEdge(currentVertex, rawMask);
+                                    } catch (NoEdgeException) {
+                                        lattice_.addSymbols(currentVertex, to);
+                                        currentEdge
+                                            = lattice_.firstOutEdge(currentVertex, rawMask);
+                                    }
                                 } else if (edgeOrdinalMap.find(edgeNumberWithRole.edgeNumber)
                                            == edgeOrdinalMap.end()) {
                                     std::stringstream errorSs;
diff --git a/formats/psi/psi_reader/psi_lattice_reader.hpp b/formats/psi/psi_reader/psi_lattice_reader.hpp
index cc8cd0c..95f4d1a 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.hpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.hpp
@@ -241,7 +241,7 @@ struct PsiLRPartitionsGrammar : public qi::grammar<
 
         partition
             = qi::eps[qi::_val = ""]
-            >> +(qi::char_ - '(' - '<' - ']' - ',')[qi::_val += qi::_1]
+            >> *(qi::char_ - '(' - '<' - ']' - ',')[qi::_val += qi::_1]
             >> -(
                 qi::char_('(')[qi::_val += qi::_1]
                 >> +(qi::char_ - ')')[qi::_val += qi::_1]
diff --git a/formats/psi/psi_writer/psi_lattice_writer.cpp b/formats/psi/psi_writer/psi_lattice_writer.cpp
index 18503b4..00cc5cc 100644
--- a/formats/psi/psi_writer/psi_lattice_writer.cpp
+++ b/formats/psi/psi_writer/psi_lattice_writer.cpp
@@ -284,10 +284,13 @@ void PsiLatticeWriter::Worker::printEdge(
     }
     aiSs << quoter.escape(avStr);
 
-    bool isDefaultPartition = (
+    bool isSymbol = (
         lattice_.getEdgeLayerTags(edge)
             == lattice_.getLayerTagManager().createSingletonTagCollection("symbol")
     );
+    // the only partition of a symbol is empty,
+    // the only partition of another edge consists of hidden symbols
+    bool isDefaultPartition = partitions.empty() ? isSymbol : partitions.size() == 1;
     bool firstPartition = true;
     bool partitionBeginning = false;
     std::stringstream partSs;
@@ -299,24 +302,23 @@ void PsiLatticeWriter::Worker::printEdge(
         }
         std::stringstream linkSs;
         partitionBeginning = true;
+        Lattice::VertexDescriptor currentVertex = source;
         Lattice::Partition::Iterator ei(lattice_, partition);
         while (ei.hasNext()) {
             Lattice::EdgeUsage ed = ei.nextUsage();
             if (partitionBeginning) {
-                if (
-                    lattice_.isEdgeHidden(ed.getEdge())
-                ) {
-                    isDefaultPartition = true;
-                }
                 partitionBeginning = false;
             } else {
-                if (
-                    !lattice_.isEdgeHidden(ed.getEdge())
-                ) {
-                    isDefaultPartition = false;
-                }
                 linkSs << "-";
             }
+            if (
+                isSymbol
+                || !lattice_.isEdgeHidden(ed.getEdge())
+                || lattice_.getEdgeSource(ed.getEdge()) != currentVertex
+            ) {
+                isDefaultPartition = false;
+            }
+            currentVertex = lattice_.getEdgeTarget(ed.getEdge());
             std::map<Lattice::EdgeDescriptor, int>::iterator mi
                 = edgeOrdinalMap.find(ed.getEdge());
             if (mi != edgeOrdinalMap.end()) {
@@ -346,6 +348,12 @@ void PsiLatticeWriter::Worker::printEdge(
                 }
             }
         }
+        if (!isSymbol && currentVertex != target) {
+            isDefaultPartition = false;
+        }
+        if (!partitionBeginning && linkSs.str().empty()) {
+            linkSs << "0"; // a single symbol
+        }
         partSs << linkSs.str();
         std::list<std::string> partitionTagNames
             = lattice_.getLayerTagManager().getTagNames(partition.getTagList());
@@ -358,10 +366,12 @@ void PsiLatticeWriter::Worker::printEdge(
                 partitionTagStr += partitionTagName;
             }
             partSs << "(" << quoter.escape(partitionTagStr) << ")";
+            isDefaultPartition = false;
         }
         Lattice::Score partitionScore = partition.getScore();
         if (partitionScore != score) {
             partSs << "<" << partitionScore << ">";
+            isDefaultPartition = false;
         }
     }
     if (!isDefaultPartition) {
-- 
2.43.0


From 6e8f2bed1c5877a2f692a62764f5865672a8c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 024/128] fix: do not append a shortened PSI text that is in
 the lattice already

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index 3b05972..2cad5fe 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -114,6 +114,11 @@ void PsiLatticeReader::Worker::doRun() {
                     }
                     if (item.lengthLoose) {
                         // The text of the edge is not a text of the lattice.
+                    } else if (
+                        !item.lengthPoint &&
+                        item.beginning + item.length <= (int)(lattice_.getAllText().length())
+                    ) {
+                        // The text (possibly shortened) is already in the lattice.
                     } else if (
                         lattice_.getLayerTagManager().isThere("symbol", tags) ||
                         lattice_.getLayerTagManager().isThere("∅", tags) ||
-- 
2.43.0


From 1da1e2629278a0545b75d5a2d017a60e4fab2d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 025/128] fix: refuse a PSI row whose text breaks a character

---
 formats/psi/psi_reader/psi_lattice_reader.cpp | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/formats/psi/psi_reader/psi_lattice_reader.cpp b/formats/psi/psi_reader/psi_lattice_reader.cpp
index 2cad5fe..f2fe68b 100644
--- a/formats/psi/psi_reader/psi_lattice_reader.cpp
+++ b/formats/psi/psi_reader/psi_lattice_reader.cpp
@@ -119,20 +119,24 @@ void PsiLatticeReader::Worker::doRun() {
                         item.beginning + item.length <= (int)(lattice_.getAllText().length())
                     ) {
                         // The text (possibly shortened) is already in the lattice.
-                    } else if (
-                        lattice_.getLayerTagManager().isThere("symbol", tags) ||
-                        lattice_.getLayerTagManager().isThere("∅", tags) ||
-                        item.annotationItem.partitions == "[]"
-                    ) {
-                        lattice_.appendString(form.substr(
-                            lattice_.getAllText().length()
-                                - item.beginning
-                        ));
                     } else {
-                        lattice_.appendStringWithSymbols(form.substr(
-                            lattice_.getAllText().length()
-                                - item.beginning
-                        ));
+                        std::string rest = form.substr(
+                            lattice_.getAllText().length() - item.beginning);
+                        if (!utf8::is_valid(rest.begin(), rest.end())) {
+                            std::stringstream errorSs;
+                            errorSs << "PSI reader: syntax error in line " << lineno
+                                << ": " << line << "\n\tText is not valid UTF-8";
+                            throw FileFormatException(errorSs.str());
+                        }
+                        if (
+                            lattice_.getLayerTagManager().isThere("symbol", tags) ||
+                            lattice_.getLayerTagManager().isThere("∅", tags) ||
+                            item.annotationItem.partitions == "[]"
+                        ) {
+                            lattice_.appendString(rest);
+                        } else {
+                            lattice_.appendStringWithSymbols(rest);
+                        }
                     }
                 } catch (std::out_of_range) {
                     // Don't need to append lattice.
-- 
2.43.0


From eec1106a8a5b30f0566faa1a4e4c80dd6274e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 026/128] fix: order the edge labels of the bracketing writer
 strictly

---
 .../bracketing/bracketing-writer/edge_data.hpp   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/formats/bracketing/bracketing-writer/edge_data.hpp b/formats/bracketing/bracketing-writer/edge_data.hpp
index 9b4f843..b012dc6 100644
--- a/formats/bracketing/bracketing-writer/edge_data.hpp
+++ b/formats/bracketing/bracketing-writer/edge_data.hpp
@@ -76,14 +76,14 @@ struct EdgeData {
     }
 
     bool operator<(const EdgeData & other) const {
-        return category < other.category ||
-            text < other.text ||
-            score < other.score ||
-            tags < other.tags ||
-            avMap < other.avMap ||
-            role < other.role ||
-            begin < other.begin ||
-            end < other.end;
+        if (category != other.category) return category < other.category;
+        if (text != other.text) return text < other.text;
+        if (score != other.score) return score < other.score;
+        if (tags != other.tags) return tags < other.tags;
+        if (avMap != other.avMap) return avMap < other.avMap;
+        if (role != other.role) return role < other.role;
+        if (begin != other.begin) return begin < other.begin;
+        return end < other.end;
     }
 };
 
-- 
2.43.0


From da7edb79a61634225e52e83e4218c5c63d0ade65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 027/128] fix: do not read past an unfinished join in a bracket
 pattern

---
 formats/bracketing/bracketing-writer/bracket_printer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/formats/bracketing/bracketing-writer/bracket_printer.hpp b/formats/bracketing/bracketing-writer/bracket_printer.hpp
index 8389f05..7fea668 100644
--- a/formats/bracketing/bracketing-writer/bracket_printer.hpp
+++ b/formats/bracketing/bracketing-writer/bracket_printer.hpp
@@ -176,7 +176,11 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                             if (i+2 < pattern.length()) {
                                 size_t from = i+3;
                                 size_t to = pattern.find(close_(pattern[i+2]), from);
-                                if (pattern[to+1] == pattern[i+2]) {
+                                if (
+                                    to != std::string::npos &&
+                                    to+1 < pattern.length() &&
+                                    pattern[to+1] == pattern[i+2]
+                                ) {
                                     size_t from2 = to+2;
                                     size_t to2 = pattern.find(close_(pattern[i+2]), from2);
                                     if (to2 != std::string::npos) {
-- 
2.43.0


From 7e789f1c33d42e17208200d807864e70f4d582dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 028/128] fix: let the bracketing writer pass over edges
 without a place in the text

---
 .../bracketing-writer/bracketing_lattice_writer.hpp         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
index 7c4eb3b..5a7442c 100644
--- a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
+++ b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
@@ -181,6 +181,9 @@ void BracketingLatticeWriter::Worker::doRun_() {
         }
 
         BOOST_FOREACH(EdgeData ed, collectedEdges) {
+            if (!ed.begin || !ed.end) {
+                continue;
+            }
             BracketPrinter::insertElementIntoContainer(edgeStore[*ed.begin][*ed.end], ed);
         }
 
@@ -194,6 +197,9 @@ void BracketingLatticeWriter::Worker::doRun_() {
                 continue;
             }
             EdgeData edgeData = getEdgeData_(edge);
+            if (!edgeData.begin || !edgeData.end) {
+                continue;
+            }
             BracketPrinter::insertElementIntoContainer(
                 edgeStore[*edgeData.begin][*edgeData.end],
                 edgeData);
-- 
2.43.0


From cfec57dc80b6a89b0104ae72f97c5c157c05686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 029/128] fix: restart sorting of nested brackets from the
 first pair

---
 .../bracketing/bracketing-writer/bracketing_lattice_writer.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
index 5a7442c..c0b164f 100644
--- a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
+++ b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
@@ -221,7 +221,7 @@ void BracketingLatticeWriter::Worker::doRun_() {
                         ) {
                             vprinted[a].swap(vprinted[b]);
                             a = 0;
-                            b = 1;
+                            b = 0;
                         }
                     }
                 }
-- 
2.43.0


From 107d16665a3e23988798d49665feb0f66cac9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 030/128] fix: escape control characters in JSON output

---
 .../json_lattice_writer_output.cpp            | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/formats/json-simple/json_lattice_writer_output.cpp b/formats/json-simple/json_lattice_writer_output.cpp
index 2a16926..e5bbde8 100644
--- a/formats/json-simple/json_lattice_writer_output.cpp
+++ b/formats/json-simple/json_lattice_writer_output.cpp
@@ -185,11 +185,36 @@ void JSONLatticeWriterOutput::printCurrentArrayToString_(std::string & output) {
 
 void JSONLatticeWriterOutput::createEscapedJSONString_(
                 const std::string & content, std::string & output) {
-    output = content;
-    boost::replace_all(output, "\\", "\\\\");
-    boost::replace_all(output, "\"", "\\\"");
-
-    output = "\"" + output + "\"";
+    static const char hexDigits[] = "0123456789abcdef";
+
+    output = "\"";
+    BOOST_FOREACH(char c, content) {
+        switch (c) {
+        case '\\':
+        case '"':
+            output += '\\';
+            output += c;
+            break;
+        case '\n':
+            output += "\\n";
+            break;
+        case '\r':
+            output += "\\r";
+            break;
+        case '\t':
+            output += "\\t";
+            break;
+        default:
+            if (static_cast<unsigned char>(c) < 0x20) {
+                output += "\\u00";
+                output += hexDigits[static_cast<unsigned char>(c) / 16];
+                output += hexDigits[static_cast<unsigned char>(c) % 16];
+            } else {
+                output += c;
+            }
+        }
+    }
+    output += '"';
 }
 
 
-- 
2.43.0


From 72911fc7ba977d2a5cea7c08f0f8f94acf25a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 031/128] fix: prefer shown edges over skipped ones with
 bracketing-writer --disambig

---
 .../bracketing/bracketing-writer/bracketing_lattice_writer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
index c0b164f..919a777 100644
--- a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
+++ b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
@@ -158,7 +158,8 @@ void BracketingLatticeWriter::Worker::doRun_() {
                         continue;
                     }
                     try {
-                        if (lattice_.getEdgeEndIndex(currentEdge) >
+                        if (shouldBeSkipped_(bestEdge) ||
+                                lattice_.getEdgeEndIndex(currentEdge) >
                                 lattice_.getEdgeEndIndex(bestEdge)) {
                             bestEdge = currentEdge;
                         }
-- 
2.43.0


From c7c7162638f598a12e34b6520121c283e028bf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 032/128] fix: do not add attributes to an edge by showing them
 in brackets

---
 .../bracketing/bracketing-writer/bracket_printer.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/formats/bracketing/bracketing-writer/bracket_printer.hpp b/formats/bracketing/bracketing-writer/bracket_printer.hpp
index 7fea668..abeb4ad 100644
--- a/formats/bracketing/bracketing-writer/bracket_printer.hpp
+++ b/formats/bracketing/bracketing-writer/bracket_printer.hpp
@@ -69,6 +69,11 @@ private:
     std::string avPairsSeparator_;
     std::string avSeparator_;
 
+    std::string getValue_(const EdgeData& edgeData, const std::string& attr) {
+        std::map<std::string, std::string>::const_iterator found = edgeData.avMap.find(attr);
+        return (found == edgeData.avMap.end()) ? std::string() : found->second;
+    }
+
     char close_(char c) {
         switch (c) {
             case '(': return ')';
@@ -136,8 +141,9 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                                 size_t to = pattern.find(close_(pattern[i+2]), from);
                                 if (to != std::string::npos) {
                                     std::string attr = pattern.substr(from, to-from);
-                                    resSs << edgeData.avMap[attr];
-                                    thisEdgeData.avMap[attr] = edgeData.avMap[attr];
+                                    std::string value = getValue_(edgeData, attr);
+                                    resSs << value;
+                                    thisEdgeData.avMap[attr] = value;
                                     i = to + 1;
                                 } else {
                                     resSs << "%a";
@@ -241,7 +247,7 @@ OutputContainer BracketPrinter::print_(InputContainer edgeDataContainer) {
                     bool shallWeContinue = false;
                     typedef std::pair<std::string, std::string> StrStrPair;
                     BOOST_FOREACH(StrStrPair avPair, thisEdgeData.avMap) {
-                        if (edgeData2.avMap[avPair.first] != thisEdgeData.avMap[avPair.first]) {
+                        if (getValue_(edgeData2, avPair.first) != avPair.second) {
                             shallWeContinue = true;
                             break;
                         }
-- 
2.43.0


From 8e91509c3540678ad8619fdcd0c8b0dc54ddf2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 033/128] fix: nested @else in a skipped part of tokenization
 rules does not start using them

---
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index b61883a..8da6bdd 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -498,7 +498,8 @@ void TPBasicTokenizerRuleSet::readElse(
     else
     {
         ifstack.back().setType(TELSE);
-        ifstack.back().setValue(true);
+        // nothing to close if it is inside of something skipped
+        ifstack.back().setValue(openedIf);
         openedIf = false;
     }
 };
-- 
2.43.0


From 99d0e7a893ce300571ad4b0f4ba8e06b513d4a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 034/128] fix: throw tokenization rule exceptions by value

---
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index 8da6bdd..c063378 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -124,7 +124,7 @@ bool TPBasicTokenizerRuleSet::changeHereDoc(std::string& strg) {
         std::string restS = rest.as_string();
         size_t markerPos = restS.find(marker);
         if (markerPos == std::string::npos)
-            throw new TPTokenizerException("wrong here doc for `" + marker + "'");
+            throw TPTokenizerException("wrong here doc for `" + marker + "'");
 
         std::string hereDocBody = restS.substr(0, markerPos);
 
@@ -249,7 +249,7 @@ std::string TPBasicTokenizerRuleSet::getContent(
 
     PerlStringPiece bufferPiece(buffer);
     if (!PerlRegExp::FindAndConsume(&bufferPiece, ruleName, &target))
-        throw new TPTokenizerException(msg + context + " at line: " + itoa(filePos));
+        throw TPTokenizerException(msg + context + " at line: " + itoa(filePos));
 
     buffer = bufferPiece.as_string();
 
@@ -265,7 +265,7 @@ void TPBasicTokenizerRuleSet::isEmpty(
     PerlRegExp empty("^\\s+$");
 
     if (PerlRegExp::FullMatch(buffer, empty))
-        throw new TPTokenizerException(std::string(msg) + "in: "+ context + "at: " + itoa(filePos));
+        throw TPTokenizerException(std::string(msg) + "in: "+ context + "at: " + itoa(filePos));
 }
 
 void TPBasicTokenizerRuleSet::readRule(
-- 
2.43.0


From 874b29c54842f65b7e6b8872ca2646b015ed9610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 035/128] fix: spaces around an escaped backslash in
 tokenization rules

---
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index c063378..c1b4711 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -291,7 +291,7 @@ void TPBasicTokenizerRuleSet::readRule(
 
     while (changeHereDoc(ureg));
 
-    PerlRegExp white("((?:^|[^\\\\])(?:\\\\\\\\)*)\\s+");
+    PerlRegExp white("(?<!\\\\)((?:\\\\\\\\)*)\\s+");
     PerlRegExp::GlobalReplace(&ureg, white, "\\1");
 
     PerlRegExp whiteB("\\\\(\\s)");
-- 
2.43.0


From 8f7a6aac330b32753a320c8611c9ffdc66aecfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 036/128] fix: refuse @else and @endif without @ifdef

---
 .../tokenizers/tp/tp_basic_tokenizer_rule_set.cpp  | 14 ++++++++++++--
 .../tokenizers/tp/tp_basic_tokenizer_rule_set.hpp  |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index c1b4711..a9b1799 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -487,6 +487,10 @@ void TPBasicTokenizerRuleSet::readElse(
     std::string context, size_t & filePos,
     std::list<IfElem> & ifstack) {
 
+    if (ifstack.empty())
+        throw TPTokenizerException(
+            std::string("else without ifdef")+context+std::string(":")+itoa(filePos));
+
     if (!openedIf && ifstack.back().getValue()) {
 
         if (ifstack.back().getType() == TELSE)
@@ -504,7 +508,13 @@ void TPBasicTokenizerRuleSet::readElse(
     }
 };
 
-void TPBasicTokenizerRuleSet::readEndIf(std::list<IfElem> & ifstack) {
+void TPBasicTokenizerRuleSet::readEndIf(
+    std::string context, size_t & filePos,
+    std::list<IfElem> & ifstack) {
+
+    if (ifstack.empty())
+        throw TPTokenizerException(
+            std::string("endif without ifdef")+context+std::string(":")+itoa(filePos));
 
     if (!openedIf && ifstack.back().getValue()) {
         openedIf = true;
@@ -551,7 +561,7 @@ void TPBasicTokenizerRuleSet::parseLine(
     }
     else if (resbuffer.length() >= 5 && resbuffer.substr(0, 5).compare("endif") == 0) {
         resbuffer = resbuffer.erase(0, 5);
-        readEndIf(ifstack);
+        readEndIf(context, filePos, ifstack);
     }
     else
         throw TPTokenizerException("unknown command "+ resbuffer +" in file " + context + "\n");
diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.hpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.hpp
index 456efc2..f867848 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.hpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.hpp
@@ -198,7 +198,7 @@ private:
     void readElse(std::string context, size_t & filePos,
                   std::list<IfElem> &ifstack);
 
-    void readEndIf(std::list<IfElem> &ifstack);
+    void readEndIf(std::string context, size_t &filePos, std::list<IfElem> &ifstack);
 
     std::vector<_regex> regs;
     boost::shared_ptr<PerlRegExp> mainRegex;
-- 
2.43.0


From 71a5a47a4221325b6a28075c52c5289776024e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 037/128] fix: leave parentheses in character classes of SRX
 rules as they are

---
 tools/segmenters/srx/srx_segmenter.cpp | 41 +++++++++++++++++++-------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/tools/segmenters/srx/srx_segmenter.cpp b/tools/segmenters/srx/srx_segmenter.cpp
index bc32647..85c78ec 100644
--- a/tools/segmenters/srx/srx_segmenter.cpp
+++ b/tools/segmenters/srx/srx_segmenter.cpp
@@ -10,7 +10,6 @@
 
 #include "annotation_item.hpp"
 #include "cutter.hpp"
-#include "escaping.hpp"
 
 #include "cutter_annotator_options.hpp"
 
@@ -126,16 +125,38 @@ std::string SrxSegmenter::makeRegexp_(const SrxRule& srxRule) {
 }
 
 std::string SrxSegmenter::makeAllParensNonCapturing_(const std::string& pattern) {
-    size_t pos = 0;
-    std::string ret = pattern;
-    while ( (pos = ret.find("(", pos)) != std::string::npos ) {
-        if (!Escaping::isEscaped(ret, pos)
-            && !(pos + 1 < ret.length() && ret[pos+1] == '?')) {
-            ret.replace(pos+1, 0, "?:");
-            pos += 2;
+    std::string ret;
+    bool inCharacterClass = false;
+
+    for (size_t pos = 0; pos < pattern.length(); ++pos) {
+        char c = pattern[pos];
+        ret += c;
+
+        if (c == '\\' && pos + 1 < pattern.length())
+            ret += pattern[++pos];
+        else if (inCharacterClass) {
+            size_t end = pattern.compare(pos, 2, "[:") == 0
+                ? pattern.find(":]", pos + 2)
+                : std::string::npos;
+
+            if (end != std::string::npos) {
+                ret += pattern.substr(pos + 1, end + 1 - pos);
+                pos = end + 1;
+            }
+            else
+                inCharacterClass = (c != ']');
         }
-
-        ++pos;
+        else if (c == '[') {
+            inCharacterClass = true;
+
+            // a bracket at the very beginning does not close the class
+            if (pos + 1 < pattern.length() && pattern[pos+1] == '^')
+                ret += pattern[++pos];
+            if (pos + 1 < pattern.length() && pattern[pos+1] == ']')
+                ret += pattern[++pos];
+        }
+        else if (c == '(' && !(pos + 1 < pattern.length() && pattern[pos+1] == '?'))
+            ret += "?:";
     }
 
     return ret;
-- 
2.43.0


From ddd2d6d5266454842c85d3e3bd17dc8229e32e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 038/128] fix: let rules of the SRX segmenter match empty
 strings

---
 tools/segmenters/srx/srx_segmenter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/segmenters/srx/srx_segmenter.cpp b/tools/segmenters/srx/srx_segmenter.cpp
index 85c78ec..0d34a17 100644
--- a/tools/segmenters/srx/srx_segmenter.cpp
+++ b/tools/segmenters/srx/srx_segmenter.cpp
@@ -385,7 +385,7 @@ private:
             PerlStringPiece fragFound;
 
             if (PerlRegExp::FindAndConsume(&currentText, *regexp.get(), &fragFound)) {
-                assert (originalLength > currentText.size());
+                assert (originalLength >= currentText.size());
                 int lengthDiff = originalLength - currentText.size();
 
                 ruleApplication.breakingPosition =
-- 
2.43.0


From 0c12ca5fd779e6fe9a07cb3984f68ce16e8c1892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 039/128] fix: split UTT annotations before unescaping them

---
 formats/utt/utt_lattice_reader.cpp | 4 ++--
 formats/utt/utt_lattice_reader.hpp | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/formats/utt/utt_lattice_reader.cpp b/formats/utt/utt_lattice_reader.cpp
index decf0c0..225af75 100644
--- a/formats/utt/utt_lattice_reader.cpp
+++ b/formats/utt/utt_lattice_reader.cpp
@@ -158,8 +158,8 @@ void UTTLatticeReader::Worker::doRun() {
                         if (parse(avBegin, avEnd, avGrammar, avItem)) {
                             lattice_.getAnnotationItemManager().setValue(
                                 annotationItem,
-                                avItem.arg,
-                                avItem.val
+                                quoter.unescape(avItem.arg),
+                                quoter.unescape(avItem.val)
                             );
                         }
                     }
diff --git a/formats/utt/utt_lattice_reader.hpp b/formats/utt/utt_lattice_reader.hpp
index 7edad7d..24ba496 100644
--- a/formats/utt/utt_lattice_reader.hpp
+++ b/formats/utt/utt_lattice_reader.hpp
@@ -35,7 +35,6 @@ struct UTTLRItem {
     void unescape(Quoter & quoter) {
         segmentType = quoter.unescape(segmentType);
         form = quoter.unescape(form);
-        annotations = quoter.unescape(annotations);
     }
 };
 
-- 
2.43.0


From 152d980a0be0da8e380aef99e53b4951cf41d1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 040/128] fix: do not repeat alternative segments in the text
 of a UTT sentence

---
 formats/utt/utt_lattice_reader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/formats/utt/utt_lattice_reader.cpp b/formats/utt/utt_lattice_reader.cpp
index 225af75..1384900 100644
--- a/formats/utt/utt_lattice_reader.cpp
+++ b/formats/utt/utt_lattice_reader.cpp
@@ -80,6 +80,7 @@ void UTTLatticeReader::Worker::doRun() {
             }
 
             item.unescape(quoter);
+            bool isAlternative = (item.position < endPosition);
             endPosition = item.position + item.length;
 
             if (item.length > 0) {
@@ -173,7 +174,9 @@ void UTTLatticeReader::Worker::doRun() {
                     seqBuilder.build()
                 );
 
-                sentenceForm += item.form;
+                if (!isAlternative) {
+                    sentenceForm += item.form;
+                }
 
             } else if (item.segmentType == "BOS") {
 
-- 
2.43.0


From a7d3d97ce8f0cf2e1811adf7a23110de8e20ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 041/128] fix: take the length of a UTT segment from its
 unescaped form

---
 formats/utt/utt_lattice_reader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/formats/utt/utt_lattice_reader.cpp b/formats/utt/utt_lattice_reader.cpp
index 1384900..356d0a3 100644
--- a/formats/utt/utt_lattice_reader.cpp
+++ b/formats/utt/utt_lattice_reader.cpp
@@ -61,7 +61,9 @@ void UTTLatticeReader::Worker::doRun() {
         std::string::const_iterator end = line.end();
         if (parse(begin, end, grammar, item)) {
 
-            if (item.form == "*") {
+            bool isEmptyForm = (item.form == "*");
+            item.unescape(quoter);
+            if (isEmptyForm) {
                 item.form = "";
             }
 
@@ -79,7 +81,6 @@ void UTTLatticeReader::Worker::doRun() {
                 item.length = utf8::distance(item.form.begin(), item.form.end());
             }
 
-            item.unescape(quoter);
             bool isAlternative = (item.position < endPosition);
             endPosition = item.position + item.length;
 
-- 
2.43.0


From fab890ab2403d34539f09270d5c8cc2cff04af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 042/128] fix: keep the order of apertium format rules of equal
 priority

---
 formats/apertium/apertium_reader/format_specification.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/apertium/apertium_reader/format_specification.cpp b/formats/apertium/apertium_reader/format_specification.cpp
index 285a55f..ffa84d6 100644
--- a/formats/apertium/apertium_reader/format_specification.cpp
+++ b/formats/apertium/apertium_reader/format_specification.cpp
@@ -195,7 +195,7 @@ std::pair<std::vector<FormatRule>, std::vector<ReplacementRule> >
         }
     }
 
-    std::sort(formatRules.begin(), formatRules.end());
+    std::stable_sort(formatRules.begin(), formatRules.end());
 
     return std::pair<std::vector<FormatRule>, std::vector<ReplacementRule> >
         (formatRules, replacementRules);
-- 
2.43.0


From 439cf5992244c452a44bb317c56e4ee915d7785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 043/128] fix: do not hang on escaped quotes in apertium format
 rules

---
 formats/apertium/apertium_reader/format_specification.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/formats/apertium/apertium_reader/format_specification.cpp b/formats/apertium/apertium_reader/format_specification.cpp
index ffa84d6..2f63628 100644
--- a/formats/apertium/apertium_reader/format_specification.cpp
+++ b/formats/apertium/apertium_reader/format_specification.cpp
@@ -281,6 +281,8 @@ void FormatSpecificationReader::removeQuotations_(std::string& str) {
     while ((pos = str.find("\"", pos)) != std::string::npos) {
         if (!Escaping::isEscaped(str, pos)) {
             str.erase(pos, 1);
+        }
+        else {
             pos += 1;
         }
     }
-- 
2.43.0


From 5f6d3f6dd28a010a76ea44e0e938810cee1a738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 044/128] fix: match long comments of apertium formats without
 recursion

---
 formats/apertium/apertium_reader/format_rules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/apertium/apertium_reader/format_rules.cpp b/formats/apertium/apertium_reader/format_rules.cpp
index 1ab5d01..e4fdceb 100644
--- a/formats/apertium/apertium_reader/format_rules.cpp
+++ b/formats/apertium/apertium_reader/format_rules.cpp
@@ -66,7 +66,7 @@ std::string FormatRule::getRegexp_() {
     if (!tags_.empty()) {
         return tagsToRegexpDisjunctions_();
     }
-    return begin_ + "(?:(?:\\s|.)*?)" + end_;
+    return begin_ + "(?s:.*?)" + end_;
 }
 
 std::string FormatRule::tagsToRegexpDisjunctions_() {
-- 
2.43.0


From 1205d54b9f82b4333d5235215354c3c6f6472f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 045/128] fix: apply the margins of an apertium format rule to
 all its alternatives

---
 formats/apertium/apertium_reader/format_rules.cpp | 13 ++++++++++---
 formats/apertium/apertium_reader/format_rules.hpp |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/formats/apertium/apertium_reader/format_rules.cpp b/formats/apertium/apertium_reader/format_rules.cpp
index e4fdceb..dc839be 100644
--- a/formats/apertium/apertium_reader/format_rules.cpp
+++ b/formats/apertium/apertium_reader/format_rules.cpp
@@ -66,14 +66,21 @@ std::string FormatRule::getRegexp_() {
     if (!tags_.empty()) {
         return tagsToRegexpDisjunctions_();
     }
-    return begin_ + "(?s:.*?)" + end_;
+    return groupAlternatives_(begin_) + "(?s:.*?)" + groupAlternatives_(end_);
 }
 
 std::string FormatRule::tagsToRegexpDisjunctions_() {
     if (tags_.size() == 1) {
-        return tags_[0];
+        return groupAlternatives_(tags_[0]);
     }
-    return std::string("(?:") + boost::algorithm::join(tags_, ")|(?:") + ")";
+    return std::string("(?:(?:") + boost::algorithm::join(tags_, ")|(?:") + "))";
+}
+
+std::string FormatRule::groupAlternatives_(const std::string& regexp) {
+    if (regexp.find('|') == std::string::npos) {
+        return regexp;
+    }
+    return "(?:" + regexp + ")";
 }
 
 bool FormatRule::operator< (const FormatRule &other) const {
diff --git a/formats/apertium/apertium_reader/format_rules.hpp b/formats/apertium/apertium_reader/format_rules.hpp
index c443dea..582b232 100644
--- a/formats/apertium/apertium_reader/format_rules.hpp
+++ b/formats/apertium/apertium_reader/format_rules.hpp
@@ -58,6 +58,7 @@ private:
 
     std::string getRegexp_();
     std::string tagsToRegexpDisjunctions_();
+    static std::string groupAlternatives_(const std::string& regexp);
 };
 
 
-- 
2.43.0


From 6a06f08ab8d2721ea61f50136b9651ce9bd67345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 046/128] fix: do not hang on escaped parentheses in apertium
 format rules

---
 formats/apertium/apertium_reader/format_specification.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/apertium/apertium_reader/format_specification.cpp b/formats/apertium/apertium_reader/format_specification.cpp
index 2f63628..fecbdac 100644
--- a/formats/apertium/apertium_reader/format_specification.cpp
+++ b/formats/apertium/apertium_reader/format_specification.cpp
@@ -296,5 +296,6 @@ void FormatSpecificationReader::removeBackreferences_(std::string& str) {
             str.replace(pos+1, 0, "?:");
             pos += 2;
         }
+        pos += 1;
     }
 }
-- 
2.43.0


From 726eb68909f5577c3134aa4fa35afdaef832494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 047/128] fix: take the text of a UTT sentence from the text it
 covers

---
 formats/utt/utt_lattice_reader.cpp | 33 +++++++++++++++---------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/formats/utt/utt_lattice_reader.cpp b/formats/utt/utt_lattice_reader.cpp
index 356d0a3..db22a61 100644
--- a/formats/utt/utt_lattice_reader.cpp
+++ b/formats/utt/utt_lattice_reader.cpp
@@ -50,7 +50,6 @@ void UTTLatticeReader::Worker::doRun() {
     UTTLRAVGrammar avGrammar;
     PosConverter conv;
     std::string line;
-    std::string sentenceForm = "";
     int beginningOfSentencePosition = -1;
     int endPosition = -1;
     int lineno = 0;
@@ -81,7 +80,6 @@ void UTTLatticeReader::Worker::doRun() {
                 item.length = utf8::distance(item.form.begin(), item.form.end());
             }
 
-            bool isAlternative = (item.position < endPosition);
             endPosition = item.position + item.length;
 
             if (item.length > 0) {
@@ -175,14 +173,9 @@ void UTTLatticeReader::Worker::doRun() {
                     seqBuilder.build()
                 );
 
-                if (!isAlternative) {
-                    sentenceForm += item.form;
-                }
-
             } else if (item.segmentType == "BOS") {
 
                 beginningOfSentencePosition = item.position;
-                sentenceForm = "";
 
             } else if (item.segmentType == "EOS") {
 
@@ -196,20 +189,28 @@ void UTTLatticeReader::Worker::doRun() {
                 LayerTagMask tokenMask = lattice_.getLayerTagManager().getSingletonMask("token");
 
                 Lattice::EdgeSequence::Builder sentenceBuilder(lattice_);
-                for (int i = beginningOfSentencePosition; i < endPosition; ++i) {
+                int i = beginningOfSentencePosition;
+                while (i < endPosition) {
                     try {
-                        sentenceBuilder.addEdge(
-                            lattice_.firstOutEdge(
-                                lattice_.getVertexForRawCharIndex(conv.psi(i)),
-                                tokenMask
-                            )
+                        Lattice::EdgeDescriptor tokenEdge = lattice_.firstOutEdge(
+                            lattice_.getVertexForRawCharIndex(conv.psi(i)),
+                            tokenMask
                         );
-                    } catch (NoEdgeException) { }
+                        sentenceBuilder.addEdge(tokenEdge);
+                        i = conv.utt(lattice_.getEdgeEndIndex(tokenEdge));
+                    } catch (NoEdgeException) {
+                        ++i;
+                    }
                 }
 
+                size_t sentenceBegin = conv.psi(beginningOfSentencePosition);
+                size_t sentenceEnd = conv.psi(endPosition);
+                std::string sentenceForm = lattice_.getAllText().substr(
+                    sentenceBegin, sentenceEnd - sentenceBegin);
+
                 lattice_.addEdge(
-                    lattice_.getVertexForRawCharIndex(conv.psi(beginningOfSentencePosition)),
-                    lattice_.getVertexForRawCharIndex(conv.psi(endPosition)),
+                    lattice_.getVertexForRawCharIndex(sentenceBegin),
+                    lattice_.getVertexForRawCharIndex(sentenceEnd),
                     AnnotationItem("sen", sentenceForm),
                     lattice_.getLayerTagManager().createSingletonTagCollection("sentence"),
                     sentenceBuilder.build()
-- 
2.43.0


From e3c2ef8cdd3490f59056821c67c94897d7f003ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 048/128] fix: keep the positions of UTT segments right after
 shorter alternatives

---
 formats/utt/utt_lattice_reader.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/formats/utt/utt_lattice_reader.cpp b/formats/utt/utt_lattice_reader.cpp
index db22a61..6c4a53e 100644
--- a/formats/utt/utt_lattice_reader.cpp
+++ b/formats/utt/utt_lattice_reader.cpp
@@ -107,11 +107,13 @@ void UTTLatticeReader::Worker::doRun() {
                             break; // Don't need to iterate further.
                         }
                     }
+                    bool isTextAppended = false;
                     for (
                         int i = conv.utt(lattice_.getVertexRawCharIndex(lattice_.getLastVertex()));
                         i < endPosition;
                         ++i
                     ) {
+                        isTextAppended = true;
                         conv.add(i, lattice_.getVertexRawCharIndex(lattice_.getLastVertex()));
                         try {
                             std::string symbol;
@@ -122,10 +124,12 @@ void UTTLatticeReader::Worker::doRun() {
                                 // Appending lattice with undefined content.
                         }
                     }
-                    conv.add(
-                        endPosition,
-                        lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
-                    );
+                    if (isTextAppended) {
+                        conv.add(
+                            endPosition,
+                            lattice_.getVertexRawCharIndex(lattice_.getLastVertex())
+                        );
+                    }
                 }
 
                 Lattice::VertexDescriptor from
-- 
2.43.0


From 7272c19f02d47baac0a2cb95a47fe9b6b5aeea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 049/128] fix: convert the encoding of any input stream, not
 only of those that can be put back

---
 framework/pipe_runner.cpp | 20 ++++++++++----------
 framework/pipe_runner.hpp |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/framework/pipe_runner.cpp b/framework/pipe_runner.cpp
index 62159cd..a503032 100644
--- a/framework/pipe_runner.cpp
+++ b/framework/pipe_runner.cpp
@@ -499,10 +499,12 @@ void PipeRunner::runPipelineNode_(
         if (!reader)
             throw Exception("first element of the pipeline should be a reader");
 
-        if (encodingConversion_)
-            convertInputStreamEncoding_(in);
-
-        reader->readIntoLattice(in, lattice);
+        if (encodingConversion_) {
+            std::istringstream convertedInput(convertInputStreamEncoding_(in));
+            reader->readIntoLattice(convertedInput, lattice);
+        } else {
+            reader->readIntoLattice(in, lattice);
+        }
     }
     else if (current == lastElementIter) {
         boost::shared_ptr<LatticeWriter<Sink> > writer =
@@ -778,12 +780,10 @@ void PipeRunner::turnOnLineByLineMode_() {
     }
 }
 
-void PipeRunner::convertInputStreamEncoding_(std::istream& stream) {
+std::string PipeRunner::convertInputStreamEncoding_(std::istream& stream) {
     std::string data = getDataFromIStream(stream);
 
-    std::string convertedData = inputEncoding_.empty()
-                                ? encodingConverter_.convert(data)
-                                : encodingConverter_.convert(inputEncoding_, data);
-
-    setDataToIStream(stream, convertedData);
+    return inputEncoding_.empty()
+        ? encodingConverter_.convert(data)
+        : encodingConverter_.convert(inputEncoding_, data);
 }
diff --git a/framework/pipe_runner.hpp b/framework/pipe_runner.hpp
index abc8bde..c8cce75 100644
--- a/framework/pipe_runner.hpp
+++ b/framework/pipe_runner.hpp
@@ -62,7 +62,7 @@ private:
     bool encodingConversion_;
     std::string inputEncoding_;
     EncodingConverter encodingConverter_;
-    void convertInputStreamEncoding_(std::istream&);
+    std::string convertInputStreamEncoding_(std::istream&);
 
     template<typename Source, typename Sink>
     void parseIntoFinalPipeline_(std::vector<std::string> args, bool isTheFirstArgProgramName);
-- 
2.43.0


From b569e5cf3ba23eb0370feae2f3a4b80fd2da8f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 050/128] fix: do not read past the options when --lang lacks
 its value

---
 framework/pipe_runner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/pipe_runner.cpp b/framework/pipe_runner.cpp
index a503032..423d25b 100644
--- a/framework/pipe_runner.cpp
+++ b/framework/pipe_runner.cpp
@@ -623,9 +623,9 @@ boost::program_options::variables_map PipeRunner::tryOptions_(
             if (iter != processorArgsWithoutLang.end()) {
                 std::list<std::string>::iterator b_iter = iter;
                 ++b_iter;
-                std::string langCode = *b_iter;
 
                 if (b_iter != processorArgsWithoutLang.end()) {
+                    std::string langCode = *b_iter;
                     ++b_iter;
                     processorArgsWithoutLang.erase(iter, b_iter);
 
-- 
2.43.0


From 13cbc75e8d06e61cccd6227b9c45a60ee3ba94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 051/128] fix: convert the encoding of texts of any length and
 with any characters

---
 common/encoding_converter.cpp | 39 +++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index de73755..0e6b1b7 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -1,3 +1,5 @@
+#include <vector>
+
 #include <boost/assign.hpp>
 
 #include "encoding_converter.hpp"
@@ -70,7 +72,6 @@ std::vector<std::string> EncodingConverter::getAllEncodings() {
 
 const int EncodingConverter::TINICONV_OPTION = 0;
 
-// FIXME: 400 000 = memory access violation at address: 0xbfa729ac: no mapping at fault address
 const int EncodingConverter::BUFFER_SIZE = 100000;
 
 EncodingConverter::EncodingConverter() : targetEncoding_("UTF-8") { }
@@ -145,21 +146,27 @@ bool EncodingConverter::convert_(int inCharsetId, int outCharsetId,
 
     int inSizeConsumed, outSizeConsumed;
 
-    unsigned char outputBuffer[BUFFER_SIZE];
-    const char* inputChars = input.c_str();
-    int inputCharsLength = strlen(inputChars);
-
-    result = tiniconv_convert(&tiniconvStruct,
-                              (const unsigned char*)inputChars, inputCharsLength, &inSizeConsumed,
-                              outputBuffer, sizeof(outputBuffer) - 1, &outSizeConsumed);
-
-    if (result < TINICONV_CONVERT_OUT_TOO_SMALL) {
-        WARN("tiniconv convertion failed");
-        return false;
-    }
-
-    outputBuffer[outSizeConsumed] = 0;
-    output = std::string((const char *)outputBuffer);
+    std::vector<unsigned char> outputBuffer(BUFFER_SIZE);
+    const unsigned char* inputChars = (const unsigned char*)input.data();
+    int inputCharsLength = input.length();
+    int inputPosition = 0;
+
+    do {
+        result = tiniconv_convert(&tiniconvStruct,
+                                  inputChars + inputPosition, inputCharsLength - inputPosition,
+                                  &inSizeConsumed,
+                                  &outputBuffer[0], outputBuffer.size(), &outSizeConsumed);
+
+        if (result < TINICONV_CONVERT_OUT_TOO_SMALL) {
+            WARN("tiniconv convertion failed");
+            return false;
+        }
+
+        output.append((const char*)&outputBuffer[0], outSizeConsumed);
+        inputPosition += inSizeConsumed;
+    } while (inputPosition < inputCharsLength
+             && inSizeConsumed > 0
+             && result != TINICONV_CONVERT_IN_TOO_SMALL);
 
     DEBUG("tiniconv convertion output: [" << output << "]");
 
-- 
2.43.0


From 6b259bfbcbfc6fdfc6151d13bd0f08ae6a9bac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 052/128] fix: convert GB-2312 texts as EUC-CN and GBK ones as
 CP936

---
 common/encoding_converter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index 0e6b1b7..08d37b7 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -28,7 +28,7 @@ std::map<std::string, int> EncodingConverter::CHARSET_CODES = boost::assign::map
     ("windows-1258",    9)
     ("CP939",           10)
     ("HZ-GB-2312",      11) // or EUC-CN like in tiniconv/tiniconv_desc.c?
-    ("GBK",             12)
+    ("GBK",             10) // i.e. CP936 (12 has no single bytes)
     ("ISO-2020-JP",     13)
     ("ISO-8859-1",      14) // doesn't exist in uchardet
     ("ISO-8859-2",      15)
@@ -53,7 +53,7 @@ std::map<std::string, int> EncodingConverter::CHARSET_CODES = boost::assign::map
     ("UCS-2",           34) // doesn't exist in uchardet
     ("UTF-7",           35) // doesn't exist in uchardet
     ("UTF-8",           36)
-    ("GB-2312",         37) // or EUC-CN like 11?
+    ("GB-2312",         11) // i.e. EUC-CN
     ("Big5",            38)
     ;
 
-- 
2.43.0


From a286bce65d5fd944690a6b5c00d3b122ebfd6ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:52 +0000
Subject: [PATCH 053/128] fix: detection of ISO-2022-JP read past its table of
 character lengths

---
 uchardet/src/nsEscSM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchardet/src/nsEscSM.cpp b/uchardet/src/nsEscSM.cpp
index 48e2c50..9eede9d 100644
--- a/uchardet/src/nsEscSM.cpp
+++ b/uchardet/src/nsEscSM.cpp
@@ -197,7 +197,7 @@ PCK4BITS(eError, eError, eError, eItsMe, eError, eError, eError, eError), //38-3
 PCK4BITS(eError, eError, eError, eError, eItsMe, eError, eStart, eStart) //40-47
 };
 
-static const PRUint32 ISO2022JPCharLenTable[] = {0, 0, 0, 0, 0, 0, 0, 0};
+static const PRUint32 ISO2022JPCharLenTable[] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
 
 const SMModel ISO2022JPSMModel = {
   {eIdxSft4bits, eSftMsk4bits, eBitSft4bits, eUnitMsk4bits, ISO2022JP_cls },
-- 
2.43.0


From 8ded11a26747ee489177e18c06a09077290df0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 054/128] fix: detection of EUC-TW read past its table of
 frequencies

---
 uchardet/src/EUCTWFreq.tab | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchardet/src/EUCTWFreq.tab b/uchardet/src/EUCTWFreq.tab
index 3a189ae..39f9d97 100644
--- a/uchardet/src/EUCTWFreq.tab
+++ b/uchardet/src/EUCTWFreq.tab
@@ -57,7 +57,7 @@
 #define EUCTW_TYPICAL_DISTRIBUTION_RATIO (float)0.75
 
 //Char to FreqOrder table , 
-#define EUCTW_TABLE_SIZE  8102
+#define EUCTW_TABLE_SIZE  5376
 
 static const PRInt16 EUCTWCharToFreqOrder[] =
 {
-- 
2.43.0


From b7484fb2dc4510061e500e4a49eb7561c07cec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 055/128] fix: keep the opening bracket of the xml-writer alias
 in one piece

---
 framework/shallow_aliaser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework/shallow_aliaser.cpp b/framework/shallow_aliaser.cpp
index 1dcb4b5..d493302 100644
--- a/framework/shallow_aliaser.cpp
+++ b/framework/shallow_aliaser.cpp
@@ -29,14 +29,14 @@ std::map<std::string, std::string> ShallowAliaser::ALIASES =
         ("write-selected",  "simple-writer --tags selected --sep \" \" --no-alts")
         ("get-selected",    "simple-writer --tags selected --sep \" \" --no-alts")
 
-        ("xml-writer", "bracketing-writer --skip-symbol-edges --opening-bracket \n"
-            "<edge tags=\"%T\" category=\"%c\" attrs=\"%A\"> --closing-bracket </edge>\n"
+        ("xml-writer", "bracketing-writer --skip-symbol-edges --opening-bracket \"\n"
+            "<edge tags=\\\"%T\\\" category=\\\"%c\\\" attrs=\\\"%A\\\">\" --closing-bracket </edge>\n"
             " --av-separator : --av-pairs-separator ;")
-        ("write-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \n"
-            "<edge tags=\"%T\" category=\"%c\" attrs=\"%A\"> --closing-bracket </edge>\n"
+        ("write-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \"\n"
+            "<edge tags=\\\"%T\\\" category=\\\"%c\\\" attrs=\\\"%A\\\">\" --closing-bracket </edge>\n"
             " --av-separator : --av-pairs-separator ;")
-        ("get-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \n"
-            "<edge tags=\"%T\" category=\"%c\" attrs=\"%A\"> --closing-bracket </edge>\n"
+        ("get-xml", "bracketing-writer --skip-symbol-edges --opening-bracket \"\n"
+            "<edge tags=\\\"%T\\\" category=\\\"%c\\\" attrs=\\\"%A\\\">\" --closing-bracket </edge>\n"
             " --av-separator : --av-pairs-separator ;")
 
         ("write-forms", "bracketing-writer --tags form --show-only-tags 0"
-- 
2.43.0


From 61350fb3672aa1961b4034b2f9f04708a9caf695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:11 +0000
Subject: [PATCH 056/128] fix: do not lose empty and blank arguments at the end
 of a pipeline

---
 framework/shallow_aliaser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/shallow_aliaser.cpp b/framework/shallow_aliaser.cpp
index d493302..1ba1960 100644
--- a/framework/shallow_aliaser.cpp
+++ b/framework/shallow_aliaser.cpp
@@ -101,7 +101,7 @@ std::vector<std::string> ShallowAliaser::replace(std::vector<std::string> pipeli
         boost::replace_all(pipeline[i], "\\\\\\\\n", "\\\\n");
         boost::replace_all(pipeline[i], "\\\\\\\\\\\\n", "\\\\\\\\n");
         boost::replace_all(pipeline[i], "\"", "\\\"");
-        if (pipeline[i].find(" ") != std::string::npos) {
+        if (pipeline[i].empty() || pipeline[i].find_first_of(" \t\n\v\f\r") != std::string::npos) {
             pipeline[i] = "\"" + pipeline[i] + "\"";
         }
     }
-- 
2.43.0


From f32e1af1e2ac201dff93fd88bcb94f4d5e3359ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 057/128] fix: do not leave out a processor for which there is
 no language

---
 framework/auto_completer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/framework/auto_completer.cpp b/framework/auto_completer.cpp
index 0b100a3..3406ab8 100644
--- a/framework/auto_completer.cpp
+++ b/framework/auto_completer.cpp
@@ -93,6 +93,11 @@ void AutoCompleter::complete_(ProcessorPromiseAlternativeSequence& sequence) {
 
                 INFO("multiplying by languages");
 
+                // there is no language the processor could be run for,
+                // the processor must not be left out silently
+                if (langCodes_.empty())
+                    return;
+
                 bool firstTime = true;
 
                 BOOST_FOREACH(std::string langCode, langCodes_) {
-- 
2.43.0


From b9bb47904b889a87abe14fb32d823aed0ee2141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 058/128] fix: references in alternative categories of tagset
 converter rules

---
 tools/converters/unumsunt/unumsunt_rule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/converters/unumsunt/unumsunt_rule.cpp b/tools/converters/unumsunt/unumsunt_rule.cpp
index 1639082..b446177 100644
--- a/tools/converters/unumsunt/unumsunt_rule.cpp
+++ b/tools/converters/unumsunt/unumsunt_rule.cpp
@@ -143,7 +143,7 @@ bool UnumsuntRule::apply(
                     itemCopy = items.back();
                 }
                 if (command.first == CATEGORY_MARKER) {
-                    if (command.second[0] == REFERENCE_MARKER) {
+                    if (alternativeValues[i][0] == REFERENCE_MARKER) {
                         manager.setCategory(*itemCopy,
                             manager.getValueAsString(*itemCopy, alternativeValues[i].substr(1)));
                     } else {
-- 
2.43.0


From c8531506413a70bb6872bddf61ac7992e687d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 059/128] fix: do not stop reading tagset converter rules at an
 empty line

---
 tools/converters/unumsunt/unumsunt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/converters/unumsunt/unumsunt.cpp b/tools/converters/unumsunt/unumsunt.cpp
index d8ca213..b131dc4 100644
--- a/tools/converters/unumsunt/unumsunt.cpp
+++ b/tools/converters/unumsunt/unumsunt.cpp
@@ -117,7 +117,7 @@ Unumsunt::Unumsunt(
         std::getline(rulesFs, line);
         boost::algorithm::trim(line);
         if (line.empty()) {
-            break;
+            continue;
         }
         switch (line.at(0)) {
             case '#': {
-- 
2.43.0


From fdc732033a8e7f2d807aa9db78f0b3df88d14ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:49 +0000
Subject: [PATCH 060/128] fix: apply tagset converter rules to the items they
 breed, and only once

---
 tools/converters/unumsunt/unumsunt_rule.cpp | 39 ++++++++++++---------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/tools/converters/unumsunt/unumsunt_rule.cpp b/tools/converters/unumsunt/unumsunt_rule.cpp
index b446177..6de7f0a 100644
--- a/tools/converters/unumsunt/unumsunt_rule.cpp
+++ b/tools/converters/unumsunt/unumsunt_rule.cpp
@@ -98,7 +98,9 @@ bool UnumsuntRule::apply(
     std::vector< boost::shared_ptr<AnnotationItem> > & items
 ) {
     bool result = false;
-    for (size_t i = 0; i < items.size(); ++i) {
+    // the items bred by the rule come after the ones the rule is applied to
+    const size_t itemsCount = items.size();
+    for (size_t i = 0; i < itemsCount; ++i) {
         boost::shared_ptr<AnnotationItem> item = items[i];
         if (!item) {
             continue;
@@ -127,38 +129,43 @@ bool UnumsuntRule::apply(
             items[i].reset();
             result = true;
         }
+        // the item and all the items bred from it
+        std::vector< boost::shared_ptr<AnnotationItem> > offspring(1, item);
         BOOST_FOREACH(StringPair command, commands) {
             std::vector<std::string> alternativeValues;
             boost::split(
                 alternativeValues,
                 command.second,
                 boost::is_any_of(ALTERNATIVE_SEPARATORS));
-            for (size_t i = 0; i < alternativeValues.size(); ++i) {
-                boost::shared_ptr<AnnotationItem> itemCopy;
-                if (i == 0) {
-                    itemCopy = item;
-                } else {
+            const size_t offspringCount = offspring.size();
+            for (size_t i = 1; i < alternativeValues.size(); ++i) {
+                for (size_t j = 0; j < offspringCount; ++j) {
                     items.push_back(boost::shared_ptr<AnnotationItem>(
-                        new AnnotationItem(*item)));
-                    itemCopy = items.back();
+                        new AnnotationItem(*offspring[j])));
+                    offspring.push_back(items.back());
                 }
+            }
+            for (size_t j = 0; j < offspring.size(); ++j) {
+                boost::shared_ptr<AnnotationItem> itemCopy = offspring[j];
+                const std::string& alternativeValue
+                    = alternativeValues[j / offspringCount];
                 if (command.first == CATEGORY_MARKER) {
-                    if (alternativeValues[i][0] == REFERENCE_MARKER) {
+                    if (alternativeValue[0] == REFERENCE_MARKER) {
                         manager.setCategory(*itemCopy,
-                            manager.getValueAsString(*itemCopy, alternativeValues[i].substr(1)));
+                            manager.getValueAsString(*itemCopy, alternativeValue.substr(1)));
                     } else {
-                        manager.setCategory(*itemCopy, alternativeValues[i]);
+                        manager.setCategory(*itemCopy, alternativeValue);
                     }
                 } else {
-                    if (alternativeValues[i][0] == REFERENCE_MARKER) {
+                    if (alternativeValue[0] == REFERENCE_MARKER) {
                         manager.setValue(*itemCopy, command.first,
-                            manager.getValue(*itemCopy, alternativeValues[i].substr(1)));
-                    } else if (alternativeValues[i] == ANY_DESIGNATION) {
+                            manager.getValue(*itemCopy, alternativeValue.substr(1)));
+                    } else if (alternativeValue == ANY_DESIGNATION) {
                         manager.setValue(*itemCopy, command.first, manager.any_value());
-                    } else if (alternativeValues[i] == FALSE_DESIGNATION) {
+                    } else if (alternativeValue == FALSE_DESIGNATION) {
                         manager.setValue(*itemCopy, command.first, manager.false_value());
                     } else {
-                        manager.setValue(*itemCopy, command.first, alternativeValues[i]);
+                        manager.setValue(*itemCopy, command.first, alternativeValue);
                     }
                 }
             }
-- 
2.43.0


From 0120926cca6043f073041d72b777e2018efc526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 061/128] fix: keep open edge iterators valid when a tag mask
 is first asked about

---
 common/lattice.cpp | 30 ------------------------------
 common/lattice.hpp |  4 ++--
 2 files changed, 2 insertions(+), 32 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 47bf755..16a1608 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -76,14 +76,6 @@ Lattice::VertexDescriptor Lattice::addLooseVertex() {
     ++nLooseVertices_;
     Graph::vertex_descriptor vertex = boost::add_vertex(VertexEntry(-nLooseVertices_), graph_);
     vertices_[-nLooseVertices_] = vertex;
-    for (size_t i = 0; i < indexedTagMasks_.size(); ++i) {
-        graph_[vertex].outEdgesIndex.push_back(
-            std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-        );
-        graph_[vertex].inEdgesIndex.push_back(
-            std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-        );
-    }
     return -nLooseVertices_;
 }
 
@@ -297,14 +289,6 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         } else {
             boost_from = boost::add_vertex(VertexEntry(from), graph_);
             vertices_[from] = boost_from;
-            for (size_t i = 0; i < indexedTagMasks_.size(); ++i) {
-                graph_[boost_from].outEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-                );
-                graph_[boost_from].inEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-                );
-            }
         }
 
         if (iterTo != vertices_.end()) {
@@ -312,14 +296,6 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         } else {
             boost_to = boost::add_vertex(VertexEntry(to), graph_);
             vertices_[to] = boost_to;
-            for (size_t i = 0; i < indexedTagMasks_.size(); ++i) {
-                graph_[boost_to].outEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-                );
-                graph_[boost_to].inEdgesIndex.push_back(
-                    std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-                );
-            }
         }
 
         result = boost::add_edge(
@@ -952,17 +928,11 @@ int Lattice::addTagMaskIndex_(LayerTagMask tagMask) {
     } else {
         int ix = indexedTagMasks_.size();
         BOOST_FOREACH(VerticesMap::value_type iv, vertices_) {
-            graph_[iv.second].outEdgesIndex.push_back(
-                std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-            );
             BOOST_FOREACH(Graph::edge_descriptor edge, boost::out_edges(iv.second, graph_)) {
                 if (matches(graph_[edge].tagList, tagMask)) {
                     graph_[iv.second].outEdgesIndex[ix].push_back(edge);
                 }
             }
-            graph_[iv.second].inEdgesIndex.push_back(
-                std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461>()
-            );
             BOOST_FOREACH(Graph::edge_descriptor edge, boost::in_edges(iv.second, graph_)) {
                 if (matches(graph_[edge].tagList, tagMask)) {
                     graph_[iv.second].inEdgesIndex[ix].push_back(edge);
diff --git a/common/lattice.hpp b/common/lattice.hpp
index f58f790..8d3c962 100644
--- a/common/lattice.hpp
+++ b/common/lattice.hpp
@@ -74,8 +74,8 @@ public:
          */
         int index;
 
-        std::vector< std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > outEdgesIndex;
-        std::vector< std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > inEdgesIndex;
+        std::map< int, std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > outEdgesIndex;
+        std::map< int, std::list<EdgeDescriptorWrapperToFoolBoost146OrGnu461> > inEdgesIndex;
 
         VertexEntry() : index(-1) { }
         VertexEntry(int ix) : index(ix) { }
-- 
2.43.0


From 646e7f060c63aaebb503a56e6ef86aba31a24a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 062/128] fix: take the whole body of a POST request and do not
 wait for an empty one

---
 server/server/request_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/server/request_parser.cpp b/server/server/request_parser.cpp
index b7fc184..b954c36 100644
--- a/server/server/request_parser.cpp
+++ b/server/server/request_parser.cpp
@@ -296,6 +296,10 @@ boost::tribool request_parser::consume(request& req, char input)
                 state_ = multipart_start;
             }
             set_post_data_length(req);
+            if (post_data_length_ <= 0) {
+                // there is no body to wait for
+                return true;
+            }
             return boost::indeterminate;
         }
         else {
@@ -330,6 +334,7 @@ boost::tribool request_parser::consume(request& req, char input)
         return boost::indeterminate;
     }
     else {
+        req.post_data += input;
         return true;
     }
   default:
-- 
2.43.0


From 249ad12c4499ee5075712a367f100e0d13b8f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 063/128] fix: compare names of HTTP headers regardless of case

---
 server/server/request.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/server/request.hpp b/server/server/request.hpp
index cb2f975..820c75c 100644
--- a/server/server/request.hpp
+++ b/server/server/request.hpp
@@ -8,6 +8,7 @@
 
 #include <string>
 #include <vector>
+#include <boost/algorithm/string/predicate.hpp>
 #include "header.hpp"
 
 namespace http {
@@ -25,7 +26,7 @@ struct request
 
     std::string get_header_value(const char * str) {
         for (unsigned int i = headers.size(); i > 0; i--) {
-            if (headers[i-1].name == str) {
+            if (boost::algorithm::iequals(headers[i-1].name, str)) {
                 return headers[i-1].value;
             }
         }
-- 
2.43.0


From 94a828b36689831fcb92c8185efda66289c0245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 064/128] fix: refuse URLs with incorrect percent-encoding

---
 server/server/request_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index d25e1a0..89e99fe 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -4,6 +4,7 @@
 //
 
 #include "request_handler.hpp"
+#include <cctype>
 #include <fstream>
 #include <sstream>
 #include <string>
@@ -86,7 +87,9 @@ bool request_handler::url_decode(const std::string& in, std::string& out)
       {
         int value = 0;
         std::istringstream is(in.substr(i + 1, 2));
-        if (is >> std::hex >> value)
+        if (isxdigit(static_cast<unsigned char>(in[i + 1]))
+            && isxdigit(static_cast<unsigned char>(in[i + 2]))
+            && is >> std::hex >> value)
         {
           out += static_cast<char>(value);
           i += 2;
-- 
2.43.0


From 59547b1940f5699279c1314ce5bc78a69be3e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 065/128] fix: refuse URLs with a null character

---
 server/server/request_handler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index 89e99fe..d1b7a3c 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -31,9 +31,10 @@ void request_handler::handle_request(const request& req, reply& rep)
     return;
   }
 
-  // Request path must be absolute and not contain "..".
+  // Request path must be absolute and not contain ".." (or end before its end).
   if (request_path.empty() || request_path[0] != '/'
-      || request_path.find("..") != std::string::npos)
+      || request_path.find("..") != std::string::npos
+      || request_path.find('\0') != std::string::npos)
   {
     rep = reply::stock_reply(reply::bad_request);
     return;
-- 
2.43.0


From 32d6544364de49968615fd637ff517671bd96d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 066/128] fix: do not serve directories as empty files

---
 server/server/request_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index d1b7a3c..3edeb92 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -8,6 +8,7 @@
 #include <fstream>
 #include <sstream>
 #include <string>
+#include <boost/filesystem/operations.hpp>
 #include <boost/lexical_cast.hpp>
 #include "mime_types.hpp"
 #include "reply.hpp"
@@ -58,7 +59,7 @@ void request_handler::handle_request(const request& req, reply& rep)
   // Open the file to send back.
   std::string full_path = doc_root_ + request_path;
   std::ifstream is(full_path.c_str(), std::ios::in | std::ios::binary);
-  if (!is)
+  if (!is || boost::filesystem::is_directory(full_path))
   {
     rep = reply::stock_reply(reply::not_found);
     return;
-- 
2.43.0


From 9175a256b90b11463d7e919a96364ad7a8f8cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 067/128] fix: do not loop forever on form fields without a
 value

---
 server/psi_server.cpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/server/psi_server.cpp b/server/psi_server.cpp
index 9e7a0c7..098b15e 100644
--- a/server/psi_server.cpp
+++ b/server/psi_server.cpp
@@ -8,6 +8,7 @@
 #include <boost/bind.hpp>
 #include <boost/lexical_cast.hpp>
 
+#include <algorithm>
 #include <iostream>
 
 typedef std::multimap <std::string, std::string> psis_mmp_name_value;
@@ -175,34 +176,25 @@ void PsiServer::parseMultipartFormData(http::server3::request& req) {
 }
 
 void PsiServer::parseNamesAndValues(std::string uri, int q) {
-    std::string name;
-    std::string value;
+    std::string::size_type begin = q;
 
-    int p = q;
-    int flag_done = 0;
+    while (begin < uri.length()) {
+        std::string::size_type end = std::min(uri.find('&', begin), uri.length());
 
-    while (!flag_done) {
-        q = uri.find("=", p);
-        name = uri.substr(p, q-p);
-        p = q + 1;
-        q = uri.find("&", p);
+        if (end > begin) {
+            // a name may have no value
+            std::string::size_type sep = std::min(uri.find('=', begin), end);
 
-        if (q != -1) {
-            value = uri.substr(p, q-p);
-        } else {
-            value = uri.substr(p);
-            flag_done = 1;
-        }
+            std::string name = uri.substr(begin, sep - begin);
+            std::string value = (sep < end ? uri.substr(sep + 1, end - sep - 1) : "");
+
+            // the browser sends blanks as +
+            std::replace(value.begin(), value.end(), '+', ' ');
 
-        // the browser sends blanks as +
-        while (1) {
-            int p = value.find("+");
-            if (p == -1) break;
-            value.replace(p, 1, " ");
+            addDataToCurrentSession(name, urlDecode(value));
         }
 
-        addDataToCurrentSession(name, urlDecode(value));
-        p = q + 1;
+        begin = end + 1;
     }
 }
 
-- 
2.43.0


From ecd114f69f94b33c1dea674c9b4dd59a2b78215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 068/128] fix: leave incorrect percent-encoding in form data as
 it is

---
 server/psi_server.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/server/psi_server.cpp b/server/psi_server.cpp
index 098b15e..a3dc522 100644
--- a/server/psi_server.cpp
+++ b/server/psi_server.cpp
@@ -9,6 +9,8 @@
 #include <boost/lexical_cast.hpp>
 
 #include <algorithm>
+#include <cctype>
+#include <cstdio>
 #include <iostream>
 
 typedef std::multimap <std::string, std::string> psis_mmp_name_value;
@@ -205,17 +207,19 @@ void PsiServer::addDataToCurrentSession(std::string key, std::string value) {
 std::string PsiServer::urlDecode(std::string & encodedString) {
     std::string decodedString;
 
-    char ch;
     unsigned int i;
-    int j;
+    unsigned int j;
 
     for (i = 0; i < encodedString.length(); i++) {
 
-        if (int(encodedString[i]) == 37) {
-            sscanf(encodedString.substr(i+1, 2).c_str(), "%2x", &j);
+        if (encodedString[i] == '%'
+            && i + 2 < encodedString.length()
+            && isxdigit(static_cast<unsigned char>(encodedString[i + 1]))
+            && isxdigit(static_cast<unsigned char>(encodedString[i + 2]))) {
 
-            ch = static_cast<char>(j);
-            decodedString += ch;
+            sscanf(encodedString.substr(i + 1, 2).c_str(), "%2x", &j);
+
+            decodedString += static_cast<char>(j);
             i = i + 2;
 
         } else {
-- 
2.43.0


From d09e6f801a164541829f8ab240dd7ac90a453132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 069/128] fix: decode names of form fields too

---
 server/psi_server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/psi_server.cpp b/server/psi_server.cpp
index a3dc522..8c4785c 100644
--- a/server/psi_server.cpp
+++ b/server/psi_server.cpp
@@ -191,9 +191,10 @@ void PsiServer::parseNamesAndValues(std::string uri, int q) {
             std::string value = (sep < end ? uri.substr(sep + 1, end - sep - 1) : "");
 
             // the browser sends blanks as +
+            std::replace(name.begin(), name.end(), '+', ' ');
             std::replace(value.begin(), value.end(), '+', ' ');
 
-            addDataToCurrentSession(name, urlDecode(value));
+            addDataToCurrentSession(urlDecode(name), urlDecode(value));
         }
 
         begin = end + 1;
-- 
2.43.0


From 19eebb4243964b7a83a04a0a75706161541dac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 070/128] fix: do not fail on a session cookie without a value

---
 server/session_manager.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/server/session_manager.cpp b/server/session_manager.cpp
index 684ba30..7d8aae9 100644
--- a/server/session_manager.cpp
+++ b/server/session_manager.cpp
@@ -2,18 +2,25 @@
 #include "logging.hpp"
 
 #include <iostream>
+#include <vector>
+
+#include <boost/algorithm/string.hpp>
 
 std::string SessionManager::cookieIdentifier = "PSISESSIONID";
 int SessionManager::sessionIdLength = 25;
 
 std::string SessionManager::SessionId(std::string cookies) {
-    size_t hasId = cookies.find(cookieIdentifier);
-
-    std::string id = "";
-    if (hasId != std::string::npos) {
-        id = cookies.substr(hasId + cookieIdentifier.size() + 1, sessionIdLength);
+    std::vector<std::string> items;
+    boost::algorithm::split(items, cookies, boost::algorithm::is_any_of(";"));
+
+    std::string prefix = cookieIdentifier + "=";
+    for (size_t i = 0; i < items.size(); ++i) {
+        std::string item = boost::algorithm::trim_copy(items[i]);
+        if (boost::algorithm::starts_with(item, prefix)) {
+            return item.substr(prefix.size());
+        }
     }
-    return id;
+    return std::string("");
 }
 
 std::string SessionManager::CookieHeaderValue(std::string & id) {
-- 
2.43.0


From b50697e43a11a51a4d78390e962ce115ff87fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 071/128] fix: do not lose parts of text fields of multipart
 forms

---
 server/mpfd-parser/Field.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/mpfd-parser/Field.cpp b/server/mpfd-parser/Field.cpp
index 610ae2d..7fbbe77 100644
--- a/server/mpfd-parser/Field.cpp
+++ b/server/mpfd-parser/Field.cpp
@@ -57,6 +57,7 @@ void MPFD::Field::AcceptSomeData(char *data, long length) {
 
         memcpy(FieldContent + FieldContentLength, data, length);
         FieldContent[FieldContentLength + length] = 0;
+        FieldContentLength += length;
     } else if (type == FileType) {
         if (WhereToStoreUploadedFiles == Parser::StoreUploadedFilesInFilesystem) {
             if (TempDir.length() > 0) {
@@ -151,7 +152,7 @@ std::string MPFD::Field::GetTextTypeContent() {
             if (FieldContent == NULL) {
                 return std::string();
             } else {
-                return std::string(FieldContent);
+                return std::string(FieldContent, FieldContentLength);
             }
         }
     }
-- 
2.43.0


From 5f28644cca27838291b25a3c0d3424d4c68c548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 072/128] fix: keep the last character of the content type of
 an uploaded file

---
 server/mpfd-parser/Parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/mpfd-parser/Parser.cpp b/server/mpfd-parser/Parser.cpp
index 5941706..ac83a67 100644
--- a/server/mpfd-parser/Parser.cpp
+++ b/server/mpfd-parser/Parser.cpp
@@ -197,12 +197,15 @@ void MPFD::Parser::_ParseHeaders(std::string headers) {
             // find Content-Type if exists
             unsigned long content_type_pos = headers.find("Content-Type: ");
             if (content_type_pos != std::string::npos) {
-                long content_type_end_pos = 0;
+                unsigned long content_type_end_pos = 0;
                 for (unsigned int i = content_type_pos + 14; (i < headers.length()) && (!content_type_end_pos); i++) {
                     if ((headers[i] == ' ') || (headers[i] == 10) || (headers[i] == 13)) {
-                        content_type_end_pos = i - 1;
+                        content_type_end_pos = i;
                     }
                 }
+                if (!content_type_end_pos) {
+                    content_type_end_pos = headers.length();
+                }
                 std::string content_type = headers.substr(content_type_pos + 14, content_type_end_pos - (content_type_pos + 14));
                 Fields[ProcessingFieldName]->SetFileContentType(content_type);
             }
-- 
2.43.0


From 2053ec4a38074ab1ece0c866c4775dd0c8410364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 073/128] fix: free the memory of multipart forms the way it
 was allocated

---
 server/mpfd-parser/Field.cpp  | 6 +++---
 server/mpfd-parser/Parser.cpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/server/mpfd-parser/Field.cpp b/server/mpfd-parser/Field.cpp
index 7fbbe77..6d8129c 100644
--- a/server/mpfd-parser/Field.cpp
+++ b/server/mpfd-parser/Field.cpp
@@ -17,7 +17,7 @@ MPFD::Field::Field() {
 MPFD::Field::~Field() {
 
     if (FieldContent) {
-        delete FieldContent;
+        free(FieldContent);
     }
 
     if (type == FileType) {
@@ -50,7 +50,7 @@ int MPFD::Field::GetType() {
 void MPFD::Field::AcceptSomeData(char *data, long length) {
     if (type == TextType) {
         if (FieldContent == NULL) {
-            FieldContent = new char[length + 1];
+            FieldContent = (char*) malloc(length + 1);
         } else {
             FieldContent = (char*) realloc(FieldContent, FieldContentLength + length + 1);
         }
@@ -94,7 +94,7 @@ void MPFD::Field::AcceptSomeData(char *data, long length) {
             }
         } else { // If files are stored in memory
             if (FieldContent == NULL) {
-                FieldContent = new char[length];
+                FieldContent = (char*) malloc(length);
             } else {
                 FieldContent = (char*) realloc(FieldContent, FieldContentLength + length);
             }
diff --git a/server/mpfd-parser/Parser.cpp b/server/mpfd-parser/Parser.cpp
index ac83a67..116980b 100644
--- a/server/mpfd-parser/Parser.cpp
+++ b/server/mpfd-parser/Parser.cpp
@@ -28,7 +28,7 @@ MPFD::Parser::~Parser() {
     }
 
     if (DataCollector) {
-        delete DataCollector;
+        free(DataCollector);
     }
 }
 
@@ -53,7 +53,7 @@ void MPFD::Parser::AcceptSomeData(const char *data, const long length) {
     if (Boundary.length() > 0) {
         // Append data to existing accumulator
         if (DataCollector == NULL) {
-            DataCollector = new char[length];
+            DataCollector = (char*) malloc(length);
             memcpy(DataCollector, data, length);
             DataCollectorLength = length;
         } else {
@@ -227,12 +227,12 @@ void MPFD::Parser::TruncateDataCollectorFromTheBeginning(long n) {
 
     char *tmp = DataCollector;
 
-    DataCollector = new char[TruncatedDataCollectorLength];
+    DataCollector = (char*) malloc(TruncatedDataCollectorLength);
     memcpy(DataCollector, tmp + n, TruncatedDataCollectorLength);
 
     DataCollectorLength = TruncatedDataCollectorLength;
 
-    delete tmp;
+    free(tmp);
 
 }
 
-- 
2.43.0


From 5543de9f7240e0f43936decba609bcec6e2ea85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 074/128] fix: escape the output and every special character in
 JSON replies

---
 server/site/json_site.cpp | 41 +++++++++++++++++++++++++--------------
 server/site/json_site.hpp |  2 +-
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/server/site/json_site.cpp b/server/site/json_site.cpp
index 40f668b..d9e9dce 100644
--- a/server/site/json_site.cpp
+++ b/server/site/json_site.cpp
@@ -1,8 +1,9 @@
+#include <iomanip>
+#include <sstream>
 #include <string>
 #include <boost/bind.hpp>
 #include <boost/assign.hpp>
 #include <boost/foreach.hpp>
-#include <boost/algorithm/string/replace.hpp>
 
 #include "json_site.hpp"
 #include "pipe_runner.hpp"
@@ -13,14 +14,15 @@ const std::string JsonSite::INPUT_KEY_NAME = "input";
 const std::string JsonSite::OUTPUT_KEY_NAME = "output";
 const std::string JsonSite::ERROR_KEY_NAME = "error";
 
-std::map<std::string, std::string> JsonSite::ESCAPED_CHARS =
+std::map<char, std::string> JsonSite::ESCAPED_CHARS =
     boost::assign::map_list_of
-        ("/", "\\/")
-        ("\"", "\\\"")
-        ("\n", "\\n")
-        ("\r", "\\r")
-        ("\t", "\\t")
-        ("\b", "\\b")
+        ('/', "\\/")
+        ('\\', "\\\\")
+        ('"', "\\\"")
+        ('\n', "\\n")
+        ('\r', "\\r")
+        ('\t', "\\t")
+        ('\b', "\\b")
         ;
 
 const std::vector<std::string> JsonSite::JSON_WRITERS = boost::assign::list_of
@@ -62,7 +64,7 @@ char * JsonSite::actionJson() {
             addKeyValuePairToOutput_(OUTPUT_KEY_NAME, oss.str());
         }
         else {
-            addKeyValuePairToOutputAsString_(OUTPUT_KEY_NAME, oss.str());
+            addKeyValuePairToOutputAsString_(OUTPUT_KEY_NAME, escape_(oss.str()));
         }
         addKeyValuePairToOutput_(ERROR_KEY_NAME, "null", true);
     }
@@ -70,7 +72,7 @@ char * JsonSite::actionJson() {
         oss << "There are some problems: " << e.what();
 
         addKeyValuePairToOutput_(OUTPUT_KEY_NAME, "null");
-        addKeyValuePairToOutputAsString_(ERROR_KEY_NAME, oss.str(), true);
+        addKeyValuePairToOutputAsString_(ERROR_KEY_NAME, escape_(oss.str()), true);
     }
 
     output_ << " }";
@@ -95,12 +97,21 @@ bool JsonSite::isJavascriptOutput_(std::string pipe) {
 }
 
 std::string JsonSite::escape_(const std::string& text) {
-    std::string escapedText(text);
+    std::ostringstream escapedText;
 
-    typedef std::map<std::string, std::string> string_map;
-    BOOST_FOREACH(const string_map::value_type& pair, ESCAPED_CHARS) {
-        boost::replace_all(escapedText, pair.first, pair.second);
+    BOOST_FOREACH(char c, text) {
+        std::map<char, std::string>::const_iterator escaped = ESCAPED_CHARS.find(c);
+
+        if (escaped != ESCAPED_CHARS.end()) {
+            escapedText << escaped->second;
+        }
+        else if (static_cast<unsigned char>(c) < 0x20) {
+            escapedText << "\\u" << std::hex << std::setw(4) << std::setfill('0') << int(c);
+        }
+        else {
+            escapedText << c;
+        }
     }
 
-    return escapedText;
+    return escapedText.str();
 }
diff --git a/server/site/json_site.hpp b/server/site/json_site.hpp
index f6d45af..13a2e00 100644
--- a/server/site/json_site.hpp
+++ b/server/site/json_site.hpp
@@ -31,7 +31,7 @@ private:
     static const std::string OUTPUT_KEY_NAME;
     static const std::string ERROR_KEY_NAME;
 
-    static std::map<std::string, std::string> ESCAPED_CHARS;
+    static std::map<char, std::string> ESCAPED_CHARS;
     std::string escape_(const std::string &);
 };
 
-- 
2.43.0


From 09ceec6610b424a7baa6a4b605d9ce0491443059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 075/128] fix: handle requests of the web server one at a time

---
 server/psi_request_handler.cpp | 2 ++
 server/psi_request_handler.hpp | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/server/psi_request_handler.cpp b/server/psi_request_handler.cpp
index 64a51db..e6afa71 100644
--- a/server/psi_request_handler.cpp
+++ b/server/psi_request_handler.cpp
@@ -39,6 +39,8 @@ void PsiRequestHandler::handle_request(
 ) {
     http::server3::request req_modified = req;
 
+    boost::mutex::scoped_lock lock(mutex_);
+
     // session management
     SessionManager * sesMng = SessionManager::Instance();
     std::string id = SessionManager::SessionId(req_modified.get_header_value("Cookie"));
diff --git a/server/psi_request_handler.hpp b/server/psi_request_handler.hpp
index abe865f..b601902 100644
--- a/server/psi_request_handler.hpp
+++ b/server/psi_request_handler.hpp
@@ -5,6 +5,8 @@
 
 #include "server/request_handler.hpp"
 
+#include <boost/thread/mutex.hpp>
+
 class PsiServer;
 
 class PsiRequestHandler : public http::server3::request_handler
@@ -19,6 +21,10 @@ public:
 private:
     PsiServer* psi_server_;
 
+    /// The current session and form data are common to all threads
+    /// hence requests are handled one at a time
+    boost::mutex mutex_;
+
     static std::map<std::string, std::string> filesToContentTypes;
     static std::map<std::string, std::string> fileExceptionsToContentTypes;
 
-- 
2.43.0


From e6ca1a2d2e3ff1a3bca85bc12ffdc1af2a53daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 076/128] fix: name the Mac Cyrillic encoding as the detector
 does

---
 common/encoding_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/encoding_converter.cpp b/common/encoding_converter.cpp
index 08d37b7..4e9dbc4 100644
--- a/common/encoding_converter.cpp
+++ b/common/encoding_converter.cpp
@@ -49,7 +49,7 @@ std::map<std::string, int> EncodingConverter::CHARSET_CODES = boost::assign::map
     ("KOI8-R",          30)
     ("KOI8-RU",         31) // doesn't exist in uchardet
     ("KOI8-U",          32) // doesn't exist in uchardet
-    ("x-max-cyrillic",  33)
+    ("x-mac-cyrillic",  33)
     ("UCS-2",           34) // doesn't exist in uchardet
     ("UTF-7",           35) // doesn't exist in uchardet
     ("UTF-8",           36)
-- 
2.43.0


From 3abd74a3ef0967812abcb2146d2a24454df98d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 077/128] fix: do not take the address of elements that string
 vectors do not have

---
 tools/datastructures/lexica/monotonic_vector.hpp   | 12 ++++++------
 tools/datastructures/lexica/perfect_hash_index.cpp |  4 ++--
 tools/datastructures/lexica/string_vector.hpp      |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/tools/datastructures/lexica/monotonic_vector.hpp b/tools/datastructures/lexica/monotonic_vector.hpp
index 6f1b4a4..071a198 100644
--- a/tools/datastructures/lexica/monotonic_vector.hpp
+++ b/tools/datastructures/lexica/monotonic_vector.hpp
@@ -84,29 +84,29 @@ public:
 
         fread(&size, sizeof(size_t), 1, in);
         m_diffs.resize(size);
-        fread(&m_diffs[0], sizeof(LenT), size, in);
+        fread(m_diffs.data(), sizeof(LenT), size, in);
 
         fread(&size, sizeof(size_t), 1, in);
         m_anchors.resize(size);
-        fread(&m_anchors[0], sizeof(PosT), size, in);
+        fread(m_anchors.data(), sizeof(PosT), size, in);
 
         fread(&size, sizeof(size_t), 1, in);
         m_rests.resize(size);
-        fread(&m_rests[0], sizeof(std::pair<PosT, PosT>), size, in);
+        fread(m_rests.data(), sizeof(std::pair<PosT, PosT>), size, in);
     }
 
     void save(std::FILE* out) const {
         size_t size = m_diffs.size();
         fwrite(&size, sizeof(size_t), 1, out);
-        fwrite(&m_diffs[0], sizeof(LenT), size, out);
+        fwrite(m_diffs.data(), sizeof(LenT), size, out);
 
         size = m_anchors.size();
         fwrite(&size, sizeof(size_t), 1, out);
-        fwrite(&m_anchors[0], sizeof(PosT), size, out);
+        fwrite(m_anchors.data(), sizeof(PosT), size, out);
 
         size = m_rests.size();
         fwrite(&size, sizeof(size_t), 1, out);
-        fwrite(&m_rests[0], sizeof(std::pair<PosT, PosT>), size, out);
+        fwrite(m_rests.data(), sizeof(std::pair<PosT, PosT>), size, out);
     }
 
     void swap(MonotonicVector<PosT, LenT, stepSize> &mv) {
diff --git a/tools/datastructures/lexica/perfect_hash_index.cpp b/tools/datastructures/lexica/perfect_hash_index.cpp
index 752b9cf..fab7929 100644
--- a/tools/datastructures/lexica/perfect_hash_index.cpp
+++ b/tools/datastructures/lexica/perfect_hash_index.cpp
@@ -92,7 +92,7 @@ void PerfectHashIndex::save(std::FILE* mphf) const {
 
     size_t nkeys = m_fprints.size();
     std::fwrite(&nkeys, sizeof(nkeys), 1, mphf);
-    std::fwrite(&m_fprints[0], sizeof(Fprint), nkeys, mphf);
+    std::fwrite(m_fprints.data(), sizeof(Fprint), nkeys, mphf);
 }
 
 void PerfectHashIndex::load(std::string filename) {
@@ -107,5 +107,5 @@ void PerfectHashIndex::load(std::FILE* mphf) {
     size_t nkeys;
     std::fread(&nkeys, sizeof(nkeys), 1, mphf);
     m_fprints.resize(nkeys, 0);
-    std::fread(&m_fprints[0], sizeof(Fprint), nkeys, mphf);
+    std::fread(m_fprints.data(), sizeof(Fprint), nkeys, mphf);
 }
diff --git a/tools/datastructures/lexica/string_vector.hpp b/tools/datastructures/lexica/string_vector.hpp
index 9680e45..c886015 100644
--- a/tools/datastructures/lexica/string_vector.hpp
+++ b/tools/datastructures/lexica/string_vector.hpp
@@ -150,7 +150,7 @@ public:
 
         size_t valSize = m_charArray.size();
         std::fwrite(&valSize, sizeof(size_t), 1, out);
-        std::fwrite(&m_charArray[0], sizeof(ValueT), valSize, out);
+        std::fwrite(m_charArray.data(), sizeof(ValueT), valSize, out);
 
         return true;
     }
@@ -167,7 +167,7 @@ public:
         size_t valSize;
         std::fread(&valSize, sizeof(size_t), 1, in);
         m_charArray.resize(valSize, 0);
-        std::fread(&m_charArray[0], sizeof(ValueT), valSize, in);
+        std::fread(m_charArray.data(), sizeof(ValueT), valSize, in);
 
         return true;
     }
@@ -347,7 +347,7 @@ PosT StringVector<ValueT, PosT>::length(PosT i) const {
 
 template<typename ValueT, typename PosT>
 const ValueT* StringVector<ValueT, PosT>::value_ptr(PosT i) const {
-    return &m_charArray[m_positions[i]];
+    return m_charArray.data() + m_positions[i];
 }
 
 template<typename ValueT, typename PosT>
-- 
2.43.0


From 1086d605f5b243d9a91fcda4668f7f4de699adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 078/128] fix: compare the characters of string vectors as
 values of the same type

---
 tools/datastructures/lexica/string_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/lexica/string_vector.hpp b/tools/datastructures/lexica/string_vector.hpp
index c886015..fbe2fea 100644
--- a/tools/datastructures/lexica/string_vector.hpp
+++ b/tools/datastructures/lexica/string_vector.hpp
@@ -3,6 +3,7 @@
 
 #include <vector>
 #include <algorithm>
+#include <functional>
 #include <string>
 #include <iterator>
 #include <cstdio>
@@ -217,7 +218,9 @@ template <typename ValueIteratorT>
 template <typename StringT>
 bool ValueIteratorRange<ValueIteratorT>::operator==(const StringT& o) const {
     if (std::distance(m_begin, m_end) == std::distance(o.begin(), o.end()))
-        return std::equal(m_begin, m_end, o.begin());
+        return std::equal(
+            m_begin, m_end, o.begin(),
+            std::equal_to<typename std::iterator_traits<ValueIteratorT>::value_type>());
     else
         return false;
 }
-- 
2.43.0


From 59319f004e22e7ea4b4c6784eb3b890b0f0dd7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 079/128] fix: let lexica have no entries

---
 tools/datastructures/lexica/perfect_hash_index.cpp | 5 ++++-
 tools/datastructures/lexica/perfect_hash_index.hpp | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/lexica/perfect_hash_index.cpp b/tools/datastructures/lexica/perfect_hash_index.cpp
index fab7929..f3a4920 100644
--- a/tools/datastructures/lexica/perfect_hash_index.cpp
+++ b/tools/datastructures/lexica/perfect_hash_index.cpp
@@ -88,7 +88,10 @@ void PerfectHashIndex::save(std::string filename) const {
 }
 
 void PerfectHashIndex::save(std::FILE* mphf) const {
-    cmph_dump(m_hash, mphf);
+    if (m_hash)
+        cmph_dump(m_hash, mphf);
+    else
+        std::fputc('\0', mphf); // i.e. no algorithm, cmph_load will return a null pointer
 
     size_t nkeys = m_fprints.size();
     std::fwrite(&nkeys, sizeof(nkeys), 1, mphf);
diff --git a/tools/datastructures/lexica/perfect_hash_index.hpp b/tools/datastructures/lexica/perfect_hash_index.hpp
index dd55928..35ddc31 100644
--- a/tools/datastructures/lexica/perfect_hash_index.hpp
+++ b/tools/datastructures/lexica/perfect_hash_index.hpp
@@ -23,6 +23,9 @@ private:
     cmph_t* m_hash;
 
     void calcHashFunction() {
+        if (m_keys.empty())
+            return; // cmph cannot do it
+
         cmph_io_adapter_t* source = cmph_io_vector_adapter((char**) &m_keys[0], m_keys.size());
 
         cmph_config_t* config = cmph_config_new(source);
@@ -62,6 +65,9 @@ public:
     }
 
     size_t getHash(const char* key) const {
+        if (!m_hash)
+            return getSize();
+
         size_t idx = cmph_search(m_hash, key, (cmph_uint32) strlen(key));
 
         // idx < getSize() is checked because getSize() is
-- 
2.43.0


From b1dc88067b38c3fc70846084400621a3c2ff2133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 080/128] fix: read lexicon entries that begin with blanks

---
 tools/datastructures/lexica/lexicon_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index e313c46..6507720 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -104,5 +104,5 @@ void LexiconBase::removeComment_(std::string& s) {
 }
 
 bool LexiconBase::isEmptyLine_(const std::string& s) {
-    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS);
+    return s.find_first_not_of(LEXICON_TEXT_FIELD_SEPARATORS) == std::string::npos;
 }
-- 
2.43.0


From bba2d19ac6c10b1f85f7da44649b06eeac9361a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:34 +0000
Subject: [PATCH 081/128] fix: gather records of a lexicon key wherever they
 are in the file

---
 tools/datastructures/lexica/lexicon_base.cpp | 39 +++++++++-----------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index 6507720..5925429 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -2,6 +2,8 @@
 #include "lexicon_base.hpp"
 #include "logging.hpp"
 
+#include <map>
+
 #include <boost/filesystem/fstream.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/foreach.hpp>
@@ -15,9 +17,8 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
     boost::filesystem::ifstream plainTextStream(plainTextLexicon);
 
     std::string line;
-    std::string prevKey;
-    std::string stringSoFar;
-    bool firstEntry = true;
+    std::map<std::string, size_t> entryIndices;
+    std::vector<std::pair<std::string, std::string> > entries;
 
     typedef boost::sub_range<std::vector<std::string> > SubRange; 
     
@@ -42,28 +43,24 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
                 std::string("at least two fields expected in plain text lexicon, was: `")
                 + line + "`");
 
-        if (firstEntry) {
-            prevKey = fields[0];
-            stringSoFar = boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                      LEXICON_FIELD_SEPARATOR);
-            firstEntry = false;
+        std::string record = boost::join(SubRange(fields.begin() + 1, fields.end()),
+                                         LEXICON_FIELD_SEPARATOR);
+
+        std::map<std::string, size_t>::iterator found = entryIndices.find(fields[0]);
+
+        if (found == entryIndices.end()) {
+            entryIndices[fields[0]] = entries.size();
+            entries.push_back(std::make_pair(fields[0], record));
         } else {
-            if (fields[0] == prevKey) {
-                stringSoFar += LEXICON_RECORD_SEPARATOR;
-                stringSoFar += boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                           LEXICON_FIELD_SEPARATOR);
-            }
-            else {
-                storeBuilder.add(prevKey, stringSoFar);
-                prevKey = fields[0];
-                stringSoFar = boost::join(SubRange(fields.begin() + 1, fields.end()),
-                                          LEXICON_FIELD_SEPARATOR);
-            }
+            // entries of the same key do not need to be next to each other
+            std::string& recordsSoFar = entries[found->second].second;
+            recordsSoFar += LEXICON_RECORD_SEPARATOR;
+            recordsSoFar += record;
         }
     }
 
-    if (!firstEntry)
-        storeBuilder.add(prevKey, stringSoFar);
+    for (size_t i = 0; i < entries.size(); ++i)
+        storeBuilder.add(entries[i].first, entries[i].second);
 
     store_.reset(storeBuilder.build());
 }
-- 
2.43.0


From bfaefbbd071cc836eab2130cbff35f4754764573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 082/128] fix: do not process edges added by a
 one-edge-at-a-time annotator itself

---
 common/one_edge_at_a_time_annotator.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/one_edge_at_a_time_annotator.hpp b/common/one_edge_at_a_time_annotator.hpp
index d0b4fab..f3e4aa0 100644
--- a/common/one_edge_at_a_time_annotator.hpp
+++ b/common/one_edge_at_a_time_annotator.hpp
@@ -1,6 +1,10 @@
 #ifndef ONE_EDGE_AT_A_TIME_ANNOTATOR_HDR_HDR
 #define ONE_EDGE_AT_A_TIME_ANNOTATOR_HDR_HDR
 
+#include <vector>
+
+#include <boost/foreach.hpp>
+
 #include "annotator.hpp"
 #include "annotator_factory.hpp"
 
@@ -96,9 +100,13 @@ public:
             Lattice::EdgesSortedByTargetIterator edgeIterator
                 = lattice_.edgesSortedByTarget(tokenMask_);
 
-            while (edgeIterator.hasNext()) {
-                Lattice::EdgeDescriptor edge = edgeIterator.next();
+            // edges added while processing are not to be processed
+            std::vector<Lattice::EdgeDescriptor> edges;
+
+            while (edgeIterator.hasNext())
+                edges.push_back(edgeIterator.next());
 
+            BOOST_FOREACH(Lattice::EdgeDescriptor edge, edges) {
                 engine.processEdge(lattice_, edge);
             }
         }
-- 
2.43.0


From 870e8057785f13fc8236f4cfb89cd868bf3e8463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 083/128] fix: throw exceptions of lexica by value

---
 tools/lexica/bilexicon/bilexicon.cpp | 4 ++--
 tools/lexica/mapper/mapper.cpp       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/lexica/bilexicon/bilexicon.cpp b/tools/lexica/bilexicon/bilexicon.cpp
index 04d1b12..3111fdc 100644
--- a/tools/lexica/bilexicon/bilexicon.cpp
+++ b/tools/lexica/bilexicon/bilexicon.cpp
@@ -23,7 +23,7 @@ BiLexicon::BiLexicon(const boost::program_options::variables_map& options) {
     if (options.count("plain-text-lexicon") > 0) {
         if (options.count("binary-lexicon") > 0
             && options["binary-lexicon"].as<std::string>() != DEFAULT_BINARY_LEXICON_SPEC)
-            throw new Exception(
+            throw Exception(
                 "either --plain-text-lexicon or --binary-lexicon expected, not both");
 
         boost::filesystem::path plainTextLexiconPath =
@@ -41,7 +41,7 @@ BiLexicon::BiLexicon(const boost::program_options::variables_map& options) {
 
     if (options.count("save-binary-lexicon") > 0) {
         if (lexiconBase_.isEmpty())
-            throw new Exception("no data to save");
+            throw Exception("no data to save");
 
         boost::filesystem::path binaryLexiconPath(
             options["save-binary-lexicon"].as<std::string>());
diff --git a/tools/lexica/mapper/mapper.cpp b/tools/lexica/mapper/mapper.cpp
index 16dda7a..63b7f65 100644
--- a/tools/lexica/mapper/mapper.cpp
+++ b/tools/lexica/mapper/mapper.cpp
@@ -108,7 +108,7 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
     else {
         if (options.count("plain-text-lexicon") > 0) {
             if (options.count("binary-lexicon") > 0)
-                throw new Exception(
+                throw Exception(
                     "either --plain-text-lexicon or --binary-lexicon expected, not both");
 
             boost::filesystem::path plainTextLexiconPath =
@@ -126,7 +126,7 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
 
         if (options.count("save-binary-lexicon") > 0) {
             if (lexiconBase_.isEmpty())
-                throw new Exception("no data to save");
+                throw Exception("no data to save");
 
             boost::filesystem::path binaryLexiconPath(
                 options["save-binary-lexicon"].as<std::string>());
-- 
2.43.0


From ea8d63ccb3c97cfb0e07216a324541ab2745fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 084/128] fix: refuse lexicon files that cannot be opened

---
 tools/datastructures/lexica/key_value_store.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tools/datastructures/lexica/key_value_store.cpp b/tools/datastructures/lexica/key_value_store.cpp
index 78803ef..de9650a 100644
--- a/tools/datastructures/lexica/key_value_store.cpp
+++ b/tools/datastructures/lexica/key_value_store.cpp
@@ -3,6 +3,17 @@
 #include <assert.h>
 #include <vector>
 
+#include "psi_exception.hpp"
+
+static std::FILE* openFile_(const std::string& filename, const char* mode) {
+    std::FILE* file = std::fopen(filename.c_str(), mode);
+
+    if (!file)
+        throw PsiException("cannot open key-value store file `" + filename + "'");
+
+    return file;
+}
+
 KeyValueStore::Builder::Builder()
     :store_(new KeyValueStore()) {
 }
@@ -61,7 +72,7 @@ void KeyValueStore::load(std::FILE* mphf) {
 }
 
 void KeyValueStore::load(const std::string& filename) {
-    std::FILE* mphf = std::fopen(filename.c_str(), "r");
+    std::FILE* mphf = openFile_(filename, "r");
     load(mphf);
     std::fclose(mphf);
 }
@@ -72,7 +83,7 @@ void KeyValueStore::save(std::FILE* mphf) const {
 }
 
 void KeyValueStore::save(const std::string& filename) const {
-    std::FILE* mphf = std::fopen(filename.c_str(), "w");
+    std::FILE* mphf = openFile_(filename, "w");
     save(mphf);
     std::fclose(mphf);
 }
-- 
2.43.0


From 47b8b56d8960e8d71083383062188572cd1ad594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 085/128] fix: let optional and starred automata accept the
 empty word

---
 tools/datastructures/psi_query/fsa_algorithms.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index 2f4b0cb..f14d682 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -589,6 +589,8 @@ void kleene_option(FSA &fsa) {
         fsa.unsetEndState(p);
         fsa.addArc(p, typename FSA::arc_type(EPS, ne));
     }
+
+    fsa.addArc(ns, typename FSA::arc_type(EPS, ne));
 }
 
 /*******************************************************************************
-- 
2.43.0


From 4432df16772094e91d81b96239f2cffc899fc473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 086/128] fix: build dictionary automata of no words

---
 tools/datastructures/psi_query/fsa_algorithms.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index f14d682..35fc908 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -688,7 +688,9 @@ void minimize_incremental(DFSA &dst, Iterator current, Iterator end) {
         if (count % 1000000 == 0)
             INFO("[" << count << "]");
     }
-    replace_or_register(fsa, state_register, q0);
+    ArcRange<ArcIt> start_range = fsa.getArcs(q0);
+    if (start_range.first != start_range.second)
+        replace_or_register(fsa, state_register, q0);
     dst.swap(fsa);
 
     INFO("Done");
-- 
2.43.0


From a7d15f6692ecf2dfefbfd44dcd4afbee7f256a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 087/128] fix: intersect automata with other start states and
 epsilon transitions

---
 tools/datastructures/psi_query/fsa_algorithms.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_algorithms.hpp b/tools/datastructures/psi_query/fsa_algorithms.hpp
index 35fc908..1d5305b 100644
--- a/tools/datastructures/psi_query/fsa_algorithms.hpp
+++ b/tools/datastructures/psi_query/fsa_algorithms.hpp
@@ -228,14 +228,14 @@ class Intersector {
     std::set<state_type> startFn() const {
         std::set<state_type> starts;
         BOOST_FOREACH( typename FSA1::state_type p1, m_fsa1.getStartStates() )
-            BOOST_FOREACH( typename FSA2::state_type p2, m_fsa1.getStartStates() )
+            BOOST_FOREACH( typename FSA2::state_type p2, m_fsa2.getStartStates() )
                 starts.insert(state_type(p1, p2));
 
         return starts;
     }
 
     bool finalFn(state_type p) const {
-        return (m_fsa1.isEndState(p.first) && m_fsa2.isEndState(p.second));
+        return isFinal_(m_fsa1, p.first) && isFinal_(m_fsa2, p.second);
     }
 
     std::set<arc_type, ArcSorter> arcFn(state_type p) const {
@@ -285,6 +285,14 @@ class Intersector {
     }
 
   private:
+    template <typename FSA>
+    static bool isFinal_(const FSA &fsa, typename FSA::state_type p) {
+        BOOST_FOREACH(typename FSA::state_type q, fsa.epsClosure(p))
+            if (fsa.isEndState(q))
+                return true;
+        return false;
+    }
+
     const FSA1 &m_fsa1;
     const FSA2 &m_fsa2;
     bool m_allowAny;
-- 
2.43.0


From 42d5801fd60e2887409f454056a538546a2673f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 088/128] fix: copy automata whole

---
 tools/datastructures/psi_query/fsa_ndfsa.hpp      |  1 +
 tools/datastructures/psi_query/fsa_ndfsa_impl.hpp | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_ndfsa.hpp b/tools/datastructures/psi_query/fsa_ndfsa.hpp
index d04bd57..0ed0a46 100644
--- a/tools/datastructures/psi_query/fsa_ndfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_ndfsa.hpp
@@ -257,6 +257,7 @@ pointers, iterators to states and transitions will be invalidated.
 *******************************************************************************/
     void print();
 
+    NDFSA(const NDFSA<arc_type> &);
     NDFSA<arc_type>& operator=(const NDFSA<arc_type> &);
 
 };
diff --git a/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp b/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
index 8a9f86f..d30a250 100644
--- a/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
+++ b/tools/datastructures/psi_query/fsa_ndfsa_impl.hpp
@@ -238,12 +238,16 @@ std::set<typename ArcT::state_type> NDFSA<ArcT>::epsClosure(typename ArcT::state
 }
 
 template <typename ArcT>
-NDFSA<ArcT>& NDFSA<ArcT>::operator=(const NDFSA<ArcT> &a) {
+NDFSA<ArcT>::NDFSA(const NDFSA<ArcT> &a)
+    : m_startStates(a.m_startStates), m_endStates(a.m_endStates) {
     BOOST_FOREACH(Arcs* arcs, a.m_states)
         m_states.push_back(new Arcs(*arcs));
+}
 
-    m_endStates = a.m_endStates;
-    m_startStates = a.m_startStates;
+template <typename ArcT>
+NDFSA<ArcT>& NDFSA<ArcT>::operator=(const NDFSA<ArcT> &a) {
+    NDFSA<ArcT> copy(a);
+    swap(copy);
 
     return *this;
 }
-- 
2.43.0


From d6d3bd53bb03526ed55950093e901050a65893e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 089/128] fix: throw exceptions of lamerlemma by value

---
 tools/lemmatizers/lamerlemma/lamerlemma.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lemmatizers/lamerlemma/lamerlemma.cpp b/tools/lemmatizers/lamerlemma/lamerlemma.cpp
index caca83f..33d0fb2 100644
--- a/tools/lemmatizers/lamerlemma/lamerlemma.cpp
+++ b/tools/lemmatizers/lamerlemma/lamerlemma.cpp
@@ -15,7 +15,7 @@ LamerLemma::LamerLemma(const boost::program_options::variables_map& options)
     if (options.count("plain-text-lexicon")) {
         if (options.count("binary-lexicon")
             && options["binary-lexicon"].as<std::string>() != DEFAULT_LAMERLEMMA_SPEC)
-            throw new PsiException(
+            throw PsiException(
                 "either --plain-text-lexicon or --binary-lexicon expected, not both");
 
         boost::filesystem::path plainTextLexiconPath =
@@ -33,7 +33,7 @@ LamerLemma::LamerLemma(const boost::program_options::variables_map& options)
 
     if (options.count("save-binary-lexicon")) {
         if (dict_.isEmpty())
-            throw new PsiException("no data to save");
+            throw PsiException("no data to save");
 
         boost::filesystem::path binaryLexiconPath(
             options["save-binary-lexicon"].as<std::string>());
-- 
2.43.0


From 98fe2f3be593c4fb7373e96e5846845e6e567520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 090/128] fix: decode lemmas of words of more than 62 bytes

---
 tools/lemmatizers/lamerlemma/utility_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lemmatizers/lamerlemma/utility_functions.cpp b/tools/lemmatizers/lamerlemma/utility_functions.cpp
index a140c51..19e10ac 100644
--- a/tools/lemmatizers/lamerlemma/utility_functions.cpp
+++ b/tools/lemmatizers/lamerlemma/utility_functions.cpp
@@ -126,8 +126,8 @@ std::string KLEndEncode(std::string asRef, std::string toCode)
 
 std::string KLEndDecode(std::string asRef, std::string asCode)
 {
-    char K = asCode[0];
-    char L = asCode[1];
+    unsigned char K = asCode[0];
+    unsigned char L = asCode[1];
     std::string end = asCode.substr(2);
 
     size_t asRefLen = asRef.size();
-- 
2.43.0


From c622e16bd068ecc7727fc0c8a8fc3169bf765485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 091/128] fix: refuse lamerlemma dictionaries that cannot be
 opened

---
 tools/lemmatizers/lamerlemma/dictionary.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/lemmatizers/lamerlemma/dictionary.cpp b/tools/lemmatizers/lamerlemma/dictionary.cpp
index a980f28..25c9068 100644
--- a/tools/lemmatizers/lamerlemma/dictionary.cpp
+++ b/tools/lemmatizers/lamerlemma/dictionary.cpp
@@ -11,6 +11,8 @@ void Dictionary::readDictionary(const std::string& filename)
     INFO("Reading text dictionary data");
     std::ifstream in;
     in.open(filename.c_str());
+    if (!in.is_open())
+        throw PsiException("cannot open `" + filename + "'");
     fsa::FSAMultiStore::Builder builder;
     builder.createFromSeparatedLines(LineIterator(in), LineIterator());
     store_.reset(builder.build());
@@ -21,6 +23,8 @@ void Dictionary::readDictionary(const std::string& filename)
 void Dictionary::load(std::string file_name) {
     std::ifstream in;
     in.open(file_name.c_str(), std::ios::in|std::ios::binary);
+    if (!in.is_open())
+        throw PsiException("cannot open `" + file_name + "'");
     load(in);
     in.close();
 }
@@ -34,6 +38,8 @@ void Dictionary::load(std::ifstream &in) {
 
 void Dictionary::save(std::string file_name) {
     std::ofstream out(file_name.c_str(), std::ios::out|std::ios::binary);
+    if (!out.is_open())
+        throw PsiException("cannot open `" + file_name + "'");
     save(out);
     out.close();
 }
-- 
2.43.0


From 97782987cd67cbfd40df7b8447840500f857768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 092/128] fix: save and load automata without arcs

---
 tools/datastructures/psi_query/fsa_bindfsa.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_bindfsa.hpp b/tools/datastructures/psi_query/fsa_bindfsa.hpp
index f263ac7..c176ccb 100644
--- a/tools/datastructures/psi_query/fsa_bindfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_bindfsa.hpp
@@ -337,12 +337,12 @@ void BinDFSA<ArcT, PosT, Allocator>::load(IStream& in) {
       uint64_t statesNum;
       istream.read((char*)&statesNum, sizeof(uint64_t));
       m_states.resize(statesNum);
-      istream.read((char*)&m_states[0], statesNum * sizeof(PosT));
+      istream.read((char*)m_states.data(), statesNum * sizeof(PosT));
 
       uint64_t arcsNum;
       istream.read((char*)&arcsNum, sizeof(uint64_t));
       m_arcs.resize(arcsNum);
-      istream.read((char*)&m_arcs[0], arcsNum * sizeof(ArcT));
+      istream.read((char*)m_arcs.data(), arcsNum * sizeof(ArcT));
   }
   in.seekg(end);
 }
@@ -367,11 +367,11 @@ void BinDFSA<ArcT, PosT, Allocator>::save(OStream& out) {
 
       uint64_t statesNum = m_states.size();
       ostream.write((char*)&statesNum, sizeof(uint64_t));
-      ostream.write((char*)&m_states[0], statesNum * sizeof(PosT));
+      ostream.write((char*)m_states.data(), statesNum * sizeof(PosT));
 
       uint64_t arcsNum = m_arcs.size();
       ostream.write((char*)&arcsNum, sizeof(uint64_t));
-      ostream.write((char*)&m_arcs[0], arcsNum * sizeof(ArcT));
+      ostream.write((char*)m_arcs.data(), arcsNum * sizeof(ArcT));
   }
   // Some magic to remember the exact gzip stream end:
   uint64_t end = out.tellp();
-- 
2.43.0


From 59c74cc70d7090c4de073f79b3a01f0a946c5b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:03 +0000
Subject: [PATCH 093/128] fix: refuse files that do not hold an automaton

---
 tools/datastructures/psi_query/fsa_bindfsa.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tools/datastructures/psi_query/fsa_bindfsa.hpp b/tools/datastructures/psi_query/fsa_bindfsa.hpp
index c176ccb..3134085 100644
--- a/tools/datastructures/psi_query/fsa_bindfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_bindfsa.hpp
@@ -14,6 +14,8 @@
 #include <boost/iostreams/copy.hpp>
 #include <boost/iostreams/filter/gzip.hpp>
 
+#include "psi_exception.hpp"
+
 #include "fsa_types.hpp"
 #include "fsa_mmap_allocator.hpp"
 
@@ -335,14 +337,17 @@ void BinDFSA<ArcT, PosT, Allocator>::load(IStream& in) {
       istream.push(in);
 
       uint64_t statesNum;
-      istream.read((char*)&statesNum, sizeof(uint64_t));
+      if (!istream.read((char*)&statesNum, sizeof(uint64_t)))
+          throw PsiException("not a binary automaton");
       m_states.resize(statesNum);
       istream.read((char*)m_states.data(), statesNum * sizeof(PosT));
 
       uint64_t arcsNum;
-      istream.read((char*)&arcsNum, sizeof(uint64_t));
+      if (!istream.read((char*)&arcsNum, sizeof(uint64_t)))
+          throw PsiException("truncated binary automaton");
       m_arcs.resize(arcsNum);
-      istream.read((char*)m_arcs.data(), arcsNum * sizeof(ArcT));
+      if (!istream.read((char*)m_arcs.data(), arcsNum * sizeof(ArcT)))
+          throw PsiException("truncated binary automaton");
   }
   in.seekg(end);
 }
-- 
2.43.0


From d0527653ae30b81bca602c6995037913ecfbb2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 094/128] fix: skip all the blanks after an edge of the chart

---
 tools/parsers/gobio/chart/chart.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/parsers/gobio/chart/chart.tpl b/tools/parsers/gobio/chart/chart.tpl
index 4d610ac..68109ff 100644
--- a/tools/parsers/gobio/chart/chart.tpl
+++ b/tools/parsers/gobio/chart/chart.tpl
@@ -302,7 +302,7 @@ typename chart<C,S,V,R,I>::vertex_descriptor chart<C,S,V,R,I>::edge_target(
         while (oei.hasNext()) {
             Lattice::EdgeDescriptor edge = oei.next();
             if (lattice_.isBlank(edge)) {
-                return edge_target(edge);
+                return edge_target(edge, true);
             }
         }
     }
-- 
2.43.0


From 604d34804d7ad0509681877007ca18282af843ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 095/128] fix: keep the places of symbols after shorter
 alternatives of rules

---
 tools/parsers/gobio/rules/tgbg_combinator.tpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/parsers/gobio/rules/tgbg_combinator.tpl b/tools/parsers/gobio/rules/tgbg_combinator.tpl
index ecc2a20..a30c176 100644
--- a/tools/parsers/gobio/rules/tgbg_combinator.tpl
+++ b/tools/parsers/gobio/rules/tgbg_combinator.tpl
@@ -2055,7 +2055,9 @@ std::vector<typename tgbg_combinator<T, S, M, X, E>::rule_holder>
         {
         typename tgbg_combinator::rule_holder rh((*it));
 
-        relocate_grule_(rh, sub_m, m);
+        const int first_unused = (signed int)rh.rhs_symbols.size();
+
+        relocate_grule_(rh, first_unused, first_unused + m - sub_m);
 
         u.push_back(rh);
         }
-- 
2.43.0


From b539250d8001120f801dc8ffb8c319b0c33eb475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 096/128] fix: do not go round in circles among derivations of
 the chart

---
 tools/parsers/gobio/accommodater/accommodater.tpl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/parsers/gobio/accommodater/accommodater.tpl b/tools/parsers/gobio/accommodater/accommodater.tpl
index 45e7a25..49cf38a 100644
--- a/tools/parsers/gobio/accommodater/accommodater.tpl
+++ b/tools/parsers/gobio/accommodater/accommodater.tpl
@@ -15,6 +15,9 @@ void binary_accommodater<H,K>::accommodate(typename H::edge_descriptor edge)
     if (accommodated_[edge])
     return;
 
+    // zaznaczamy przed zejściem w dół, bo podziały mogą tworzyć cykl
+    accommodated_[edge] = true;
+
     std::pair<
     typename H::partition_iterator,
     typename H::partition_iterator> pits
@@ -34,8 +37,6 @@ void binary_accommodater<H,K>::accommodate(typename H::edge_descriptor edge)
 
     // jeśli dane pochodzą ze słownika nie wprowadzamy żadnych ograniczeń
     // chart_.sort_variants(edge, (lexical_entry_found ? 0 : limit_));
-
-    accommodated_[edge] = true;
 }
 
 template<class H, class K>
-- 
2.43.0


From 93bcd9da2e48a886639f2852c05d402393b3bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 097/128] fix: put trees whose nodes repeat their only subtree
 into lattices

---
 common/put_zsyntree_into_lattice.cpp | 35 ++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/common/put_zsyntree_into_lattice.cpp b/common/put_zsyntree_into_lattice.cpp
index a05cd32..59766a8 100644
--- a/common/put_zsyntree_into_lattice.cpp
+++ b/common/put_zsyntree_into_lattice.cpp
@@ -98,15 +98,30 @@ Lattice::EdgeDescriptor putZsyntreeIntoLattice(
         }
     }
 
-    Lattice::EdgeDescriptor addedEdge = lattice.addEdge(
-        fromVertex,
-        toVertex,
-        annotationItem,
-        targetTags,
-        builder.build());
+    Lattice::EdgeSequence sequence = builder.build();
 
-    if (newEdge)
-        tree->setOrigin(addedEdge);
-
-    return addedEdge;
+    try {
+        Lattice::EdgeDescriptor addedEdge = lattice.addEdge(
+            fromVertex,
+            toVertex,
+            annotationItem,
+            targetTags,
+            sequence);
+
+        if (newEdge)
+            tree->setOrigin(addedEdge);
+
+        return addedEdge;
+    } catch (const EdgeSelfReferenceException &) {
+        // the node repeats its subtree, so its edge is already there
+        Lattice::EdgeSequence::Iterator sequenceIter(lattice, sequence);
+        while (sequenceIter.hasNext()) {
+            Lattice::EdgeDescriptor subedge = sequenceIter.next();
+            if (lattice.getEdgeSource(subedge) == fromVertex
+                    && lattice.getEdgeTarget(subedge) == toVertex) {
+                return subedge;
+            }
+        }
+        throw;
+    }
 }
-- 
2.43.0


From b0bc2f1aff33750e48254042a29296023c54c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:28 +0000
Subject: [PATCH 098/128] fix: filter pairs of rule symbols only by whole
 conditions that decide

---
 tools/parsers/gobio/rules/decompose_expression.tpl | 14 +++++++++++++-
 tools/parsers/gobio/rules/relocate_expression.tpl  |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/tools/parsers/gobio/rules/decompose_expression.tpl b/tools/parsers/gobio/rules/decompose_expression.tpl
index bc758f4..99d37e3 100644
--- a/tools/parsers/gobio/rules/decompose_expression.tpl
+++ b/tools/parsers/gobio/rules/decompose_expression.tpl
@@ -453,7 +453,17 @@ std::vector<boost::shared_ptr<compiled_expression<T, S, 2> > > get_bifiltres(
         if (block_used_subvars[i])
             ++nb_used_subvars;
 
+        // wartość bloku ma znaczenie tylko wtedy, gdy od niej zależy
+        // przyjęcie reguły (a nie np. gdy po bloku jest ALWAYS_TRUE)
+        const bool ends_with_ifnjump =
+        (expr->get_opcode(block_cut_point - 1) == gobio_opcodes::OPCODE_IFNJUMP
+         && expr->get_iarg(block_cut_point - 1, 0) == last_address);
+        const bool is_decisive =
+        (ends_with_ifnjump ||
+         expr->get_opcode(block_cut_point) == gobio_opcodes::OPCODE_STOP);
+
         if (nb_used_subvars == 2
+           && is_decisive
            && block_used_subvars[first_symbol_ix]
            && block_used_subvars[first_symbol_ix + 1]
            && !block_side_effects)
@@ -461,7 +471,9 @@ std::vector<boost::shared_ptr<compiled_expression<T, S, 2> > > get_bifiltres(
         assert(block_cut_point > prev_block_cut_point);
 
         boost::shared_ptr<compiled_expression<T, S, 2> > bif
-            = expr->get_slice(prev_block_cut_point, block_cut_point-1);
+            = expr->get_slice(
+            prev_block_cut_point,
+            (ends_with_ifnjump ? block_cut_point - 1 : block_cut_point));
 
         relocate_jumps<T,S>(
             *bif,
diff --git a/tools/parsers/gobio/rules/relocate_expression.tpl b/tools/parsers/gobio/rules/relocate_expression.tpl
index 4b003fd..8410fcc 100644
--- a/tools/parsers/gobio/rules/relocate_expression.tpl
+++ b/tools/parsers/gobio/rules/relocate_expression.tpl
@@ -629,7 +629,7 @@ settop2push(const compiled_expression<T, S, 2>& expr)
         r_expr->set_opcode(0, gobio_opcodes::OPCODE_PUSH_TRUE);
         break;
     case gobio_opcodes::OPCODE_SETTOP:
-        r_expr->set_opcode(0, gobio_opcodes::OPCODE_SETTOP);
+        r_expr->set_opcode(0, gobio_opcodes::OPCODE_PUSH);
         break;
     case gobio_opcodes::OPCODE_SETTOP_EXTRA_SUBVAR:
         r_expr->set_opcode(0, gobio_opcodes::OPCODE_PUSH_EXTRA_SUBVAR);
-- 
2.43.0


From adc26f4ee2a24e4ea6e64cdc2d29b50c71b06367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:56 +0000
Subject: [PATCH 099/128] fix: remember every attribute that a rule assigns

---
 tools/parsers/gobio/rules/decompose_expression.tpl | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tools/parsers/gobio/rules/decompose_expression.tpl b/tools/parsers/gobio/rules/decompose_expression.tpl
index 99d37e3..3fc0986 100644
--- a/tools/parsers/gobio/rules/decompose_expression.tpl
+++ b/tools/parsers/gobio/rules/decompose_expression.tpl
@@ -338,7 +338,8 @@ boost::shared_ptr<compiled_expression<T, S, 2> > decompose_expression(
     if (is_assign)
     {
         int attr_ix = expr->get_iarg(i, 0);
-        set_attrs.resize(attr_ix+1);
+        if (attr_ix >= (signed int)set_attrs.size())
+            set_attrs.resize(attr_ix+1);
         set_attrs[attr_ix] = true;
     }
 
@@ -458,6 +459,11 @@ std::vector<boost::shared_ptr<compiled_expression<T, S, 2> > > get_bifiltres(
         const bool ends_with_ifnjump =
         (expr->get_opcode(block_cut_point - 1) == gobio_opcodes::OPCODE_IFNJUMP
          && expr->get_iarg(block_cut_point - 1, 0) == last_address);
+        // (unifikacja na końcu wyrażenia udaje się tylko wtedy, gdy jej
+        // prawy argument nie jest fałszywy - wystarczy sprawdzić ten argument)
+        const bool is_last_redundant =
+        (ends_with_ifnjump ||
+         expr->get_opcode(block_cut_point - 1) == gobio_opcodes::OPCODE_UEQUAL);
         const bool is_decisive =
         (ends_with_ifnjump ||
          expr->get_opcode(block_cut_point) == gobio_opcodes::OPCODE_STOP);
@@ -473,7 +479,7 @@ std::vector<boost::shared_ptr<compiled_expression<T, S, 2> > > get_bifiltres(
         boost::shared_ptr<compiled_expression<T, S, 2> > bif
             = expr->get_slice(
             prev_block_cut_point,
-            (ends_with_ifnjump ? block_cut_point - 1 : block_cut_point));
+            (is_last_redundant ? block_cut_point - 1 : block_cut_point));
 
         relocate_jumps<T,S>(
             *bif,
@@ -509,7 +515,8 @@ std::vector<boost::shared_ptr<compiled_expression<T, S, 2> > > get_bifiltres(
     if (is_assign)
     {
         int attr_ix = expr->get_iarg(i, 0);
-        set_attrs.resize(attr_ix+1);
+        if (attr_ix >= (signed int)set_attrs.size())
+            set_attrs.resize(attr_ix+1);
         set_attrs[attr_ix] = true;
     }
 
-- 
2.43.0


From 0c34c47dfe13b2985a4b4fc1d2996ef67e0cc03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:46 +0000
Subject: [PATCH 100/128] fix: forget the rest of rules with a syntax error

---
 tools/parsers/gobio/translator/grparser.cpp  | 3 +++
 tools/parsers/gobio/translator/lex.grlex.lpp | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/tools/parsers/gobio/translator/grparser.cpp b/tools/parsers/gobio/translator/grparser.cpp
index 9a9f847..6e1cac7 100644
--- a/tools/parsers/gobio/translator/grparser.cpp
+++ b/tools/parsers/gobio/translator/grparser.cpp
@@ -6,6 +6,8 @@ extern GRuleList* grparser_all;
 extern char grerror_message[];
 extern int grlexlineno;
 
+void grlexreset();
+
 
 int grparserparse();
 
@@ -34,6 +36,7 @@ GRuleList* GRParser::parse(std::istream& a_input_stream, bool a_encoded)
     encoded = a_encoded;
 
     grlex_input_stream = &a_input_stream;
+    grlexreset();
     if (grparserparse())
     {
         ended_with_error = true;
diff --git a/tools/parsers/gobio/translator/lex.grlex.lpp b/tools/parsers/gobio/translator/lex.grlex.lpp
index 88eb68c..07e0505 100644
--- a/tools/parsers/gobio/translator/lex.grlex.lpp
+++ b/tools/parsers/gobio/translator/lex.grlex.lpp
@@ -134,3 +134,10 @@ PLLETTER [a-ząćęłńóśźżA-ZĄĆĘŁŃÓŚŻ]
 <<EOF>>                         {BEGIN(INITIAL); yyterminate();}
 .               {BEGIN(INITIAL);return RTOKEN_ERROR;}
 %%
+
+/* zapomina o tym, co zostało z wejścia, którego analiza skończyła się błędem */
+void grlexreset()
+{
+    BEGIN(INITIAL);
+    grlexrestart(NULL);
+}
-- 
2.43.0


From 3671d218298b2cba07f5f6b69125759e2253da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 101/128] fix: use the special casing of every character

---
 utf8case/special_casing_converter.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utf8case/special_casing_converter.cpp b/utf8case/special_casing_converter.cpp
index c23afb9..3592c3d 100644
--- a/utf8case/special_casing_converter.cpp
+++ b/utf8case/special_casing_converter.cpp
@@ -5,9 +5,6 @@ const char* SpecialCasingConverter::convert(uint32_t code_point) const {
     for (size_t i = 0; i < tableSize_; ++i) {
         const SpecialCasingConversionRecord* currentRecord = &conversionTable_[i];
 
-        if (code_point < currentRecord->code_point)
-            return 0;
-
         if (code_point == currentRecord->code_point)
             return currentRecord->replacement;
     }
-- 
2.43.0


From 612d5bd020527d22db3f8f85f17f213da452c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 102/128] fix: match file name patterns by whole characters

---
 common/segment_glob.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/segment_glob.cpp b/common/segment_glob.cpp
index 9b40639..8eece4d 100644
--- a/common/segment_glob.cpp
+++ b/common/segment_glob.cpp
@@ -35,7 +35,8 @@ bool SegmentGlob::matches(const std::string& segment) const {
                 return true;
             }
             mp = g;
-            cp = s+1;
+            cp = s;
+            utf8::unchecked::next(cp);
         } else if (*g == '?') {
             ++g;
             utf8::unchecked::next(s);
@@ -44,7 +45,8 @@ bool SegmentGlob::matches(const std::string& segment) const {
             ++s;
         } else {
             g = mp;
-            s = cp++;
+            s = cp;
+            utf8::unchecked::next(cp);
         }
     }
 
-- 
2.43.0


From eab3924e2dce1e76439c3764b29b72eef5f89328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 103/128] fix: keep descriptions of tags with unknown or
 repeated complex attributes

---
 common/morfologik_tags_parser.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/morfologik_tags_parser.cpp b/common/morfologik_tags_parser.cpp
index 487b76b..835bed2 100644
--- a/common/morfologik_tags_parser.cpp
+++ b/common/morfologik_tags_parser.cpp
@@ -148,6 +148,8 @@ void MorfologikTagsParser::removeLexemeAttributes_(std::map<std::string, std::st
             complexAttributesCounter--;
         description.erase(it->second);
     }
+    if (pos.find(INNER_SEPARATOR) != std::string::npos)
+        complexAttributesCounter--;
     description.erase("pos");
 }
 
@@ -233,11 +235,15 @@ std::map<std::string, std::string> MorfologikTagsParser::parseSimple(std::string
     boost::split(attributes, tag, boost::is_any_of(OUTER_SEPARATOR));
 
     for (unsigned int i = 0; i < attributes.size(); ++i) {
-        foundAttribute = PREDEFINED_TAGS.find(getAttributeToSeek_(attributes[i], counter));
+        int complexAttribute = 0;
+        foundAttribute = PREDEFINED_TAGS.find(
+            getAttributeToSeek_(attributes[i], complexAttribute));
 
         if (foundAttribute != PREDEFINED_TAGS.end()) {
-            descriptions.insert(std::pair<std::string, std::string>
-                (foundAttribute->second, attributes[i]));
+            if (descriptions.insert(std::pair<std::string, std::string>
+                    (foundAttribute->second, attributes[i])).second) {
+                counter += complexAttribute;
+            }
         }
         else {
             WARN("Attribute [" << attributes[i] << "] for tag [" << tag
-- 
2.43.0


From 7141e0bc469638d45428a1bc710ee8956279686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:43 +0000
Subject: [PATCH 104/128] fix: recognize PSI files that begin with comments,
 whatever the block size

---
 common/file_recognizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/file_recognizer.cpp b/common/file_recognizer.cpp
index 6ef1826..078ffda 100644
--- a/common/file_recognizer.cpp
+++ b/common/file_recognizer.cpp
@@ -208,14 +208,14 @@ bool FileRecognizer::looksLikePsiFormat_(const std::string& text) {
         if (line.empty() || boost::starts_with(line, "#")) {
             continue;
         }
-        return RegExp::FullMatch(text, RegExp("(01 0000 [0-9*][0-9@])(.|\n|\r)*"));
+        return RegExp::PartialMatch(line, RegExp("^01 0000 [0-9*][0-9@]"));
     }
 
     return false;
 }
 
 bool FileRecognizer::looksLikeUTTFormat_(const std::string& text) {
-    return RegExp::FullMatch(text, RegExp("(0000 00 [A-Z])(.|\n|\r)*"));
+    return RegExp::PartialMatch(text, RegExp("^0000 00 [A-Z]"));
 }
 
 std::string FileRecognizer::recognizeCompressedFileFormat(const std::string &data) {
-- 
2.43.0


From 931cc35abcd55fdd60521eaecec258e00fb44568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 105/128] fix: tell whether special casing really changes
 characters

---
 utf8case/general_case_converter.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utf8case/general_case_converter.hpp b/utf8case/general_case_converter.hpp
index 6d5439e..37a2471 100644
--- a/utf8case/general_case_converter.hpp
+++ b/utf8case/general_case_converter.hpp
@@ -1,6 +1,8 @@
 #ifndef GENERAL_CASE_CONVERTER_HDR
 #define GENERAL_CASE_CONVERTER_HDR
 
+#include <string>
+
 #include <boost/shared_ptr.hpp>
 
 #include "range_based_case_converter.hpp"
@@ -24,10 +26,13 @@ public:
 
     bool willBeTouchedWhenConverted(octet_iterator start, octet_iterator end) const {
         while (start != end) {
+            octet_iterator prev_start = start;
             uint32_t code_point = utf8::unchecked::next(start);
 
-            if (specialCasingConverter_->convert(code_point)
-                || rangeBasedCaseConverter_->convert(code_point) != code_point)
+            if (const char* special = specialCasingConverter_->convert(code_point)) {
+                if (std::string(prev_start, start) != special)
+                    return true;
+            } else if (rangeBasedCaseConverter_->convert(code_point) != code_point)
                 return true;
         }
 
-- 
2.43.0


From 3b904708a4a5aa1f4de2a192b17518c7efaee20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 106/128] fix: escape quotation marks in labels of DOT graphs

---
 formats/dot/dot_lattice_writer.cpp | 13 ++++++++++---
 formats/dot/dot_lattice_writer.hpp |  2 ++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/formats/dot/dot_lattice_writer.cpp b/formats/dot/dot_lattice_writer.cpp
index 851d1e0..d0938ea 100644
--- a/formats/dot/dot_lattice_writer.cpp
+++ b/formats/dot/dot_lattice_writer.cpp
@@ -4,6 +4,8 @@
 #include <iostream>
 #include <locale>
 
+#include <boost/algorithm/string/replace.hpp>
+
 #include "lattice.hpp"
 #include "logging.hpp"
 
@@ -126,9 +128,9 @@ void DotLatticeWriter::Worker::doRun() {
 
         const AnnotationItem& annotationItem = lattice_.getEdgeAnnotationItem(edge);
         if (lattice_.isLooseVertex(source) || lattice_.isLooseVertex(target)) {
-            edgeLabelSs << quoter.escape(annotationItem.getText());
+            edgeLabelSs << escapeQuotes_(quoter.escape(annotationItem.getText()));
         } else {
-            edgeLabelSs << quoter.escape(lattice_.getEdgeText(edge));
+            edgeLabelSs << escapeQuotes_(quoter.escape(lattice_.getEdgeText(edge)));
         }
 
         std::string tagStr("");
@@ -159,7 +161,8 @@ void DotLatticeWriter::Worker::doRun() {
             edgeLabelSs << " (" << tagStr << ")";
         }
 
-        edgeLabelSs << " " << annotationItem.getCategory();
+        edgeLabelSs << " "
+            << escapeQuotes_(boost::replace_all_copy(annotationItem.getCategory(), "\\", "\\\\"));
 
         if (processor_.isTree()) {
 
@@ -261,5 +264,9 @@ void DotLatticeWriter::Worker::doRun() {
     DEBUG("WRITING");
 }
 
+std::string DotLatticeWriter::Worker::escapeQuotes_(const std::string& str) {
+    return boost::replace_all_copy(str, "\"", "\\\"");
+}
+
 DotLatticeWriter::Worker::~Worker() {
 }
diff --git a/formats/dot/dot_lattice_writer.hpp b/formats/dot/dot_lattice_writer.hpp
index 184d37c..e7c6f09 100644
--- a/formats/dot/dot_lattice_writer.hpp
+++ b/formats/dot/dot_lattice_writer.hpp
@@ -73,6 +73,8 @@ private:
 
         virtual ~Worker();
     private:
+        static std::string escapeQuotes_(const std::string& str);
+
         DotLatticeWriter& processor_;
     };
 
-- 
2.43.0


From 762e075decca4411d24b24521015548a1320306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 107/128] fix: close the quotation marks of partition labels in
 DOT graphs

---
 formats/dot/dot_lattice_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/dot/dot_lattice_writer.cpp b/formats/dot/dot_lattice_writer.cpp
index d0938ea..f99570b 100644
--- a/formats/dot/dot_lattice_writer.cpp
+++ b/formats/dot/dot_lattice_writer.cpp
@@ -195,7 +195,7 @@ void DotLatticeWriter::Worker::doRun() {
                         edSs << moi->second;
                         edgeSs << "\n" << edgeIdSs.str() << " -> " << edSs.str();
                         if (partitions.size() > 1) {
-                            edgeSs << " [label=\"" << partSs.str() << "]";
+                            edgeSs << " [label=\"" << partSs.str() << "\"]";
                         }
                     }
                 }
-- 
2.43.0


From e1409e573bc7914ecd8b9ee0509e84f0e641b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 108/128] fix: write all six digits of colors in DOT graphs

---
 formats/dot/dot_lattice_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/dot/dot_lattice_writer.cpp b/formats/dot/dot_lattice_writer.cpp
index f99570b..d18e322 100644
--- a/formats/dot/dot_lattice_writer.cpp
+++ b/formats/dot/dot_lattice_writer.cpp
@@ -152,7 +152,7 @@ void DotLatticeWriter::Worker::doRun() {
                     unsigned int color
                         = coll.hash(tagName.data(), tagName.data() + tagName.length()) & 0xffffff;
                     if ((color & 0xe0e0e0) == 0xe0e0e0) color &= 0x7f7f7f; // darken if too bright
-                    colorSs << "#" << std::setbase(16) << color;
+                    colorSs << "#" << std::setbase(16) << std::setw(6) << std::setfill('0') << color;
                 }
             }
         }
-- 
2.43.0


From 3c487fab7839c7cba11d96212ddedf104af7cb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 109/128] fix: align DOT graphs with no edges

---
 formats/dot/dot_lattice_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/dot/dot_lattice_writer.cpp b/formats/dot/dot_lattice_writer.cpp
index d18e322..26304ff 100644
--- a/formats/dot/dot_lattice_writer.cpp
+++ b/formats/dot/dot_lattice_writer.cpp
@@ -242,7 +242,7 @@ void DotLatticeWriter::Worker::doRun() {
 
     }
 
-    if (processor_.isAlign()) {
+    if (processor_.isAlign() && !vertexNodes.empty()) {
         std::set<int>::iterator vni = vertexNodes.begin();
         int prev = *vni;
         int next;
-- 
2.43.0


From 9046f3d5c94bc00994c6cac895cc28c46b02618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:17 +0000
Subject: [PATCH 110/128] fix: show every dependency in DOT trees, whatever the
 order of edges

---
 formats/dot/dot_lattice_writer.cpp | 42 ++++++++++++++++++++----------
 formats/dot/dot_lattice_writer.hpp |  1 +
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/formats/dot/dot_lattice_writer.cpp b/formats/dot/dot_lattice_writer.cpp
index 26304ff..ff3e34a 100644
--- a/formats/dot/dot_lattice_writer.cpp
+++ b/formats/dot/dot_lattice_writer.cpp
@@ -99,25 +99,26 @@ void DotLatticeWriter::Worker::doRun() {
         printLine_("rankdir=LR");
     }
 
+    if (processor_.isTree()) {
+        Lattice::EdgesSortedByTargetIterator oi
+            = lattice_.edgesSortedByTarget(lattice_.getLayerTagManager().anyTag());
+        while (oi.hasNext()) {
+            Lattice::EdgeDescriptor edge = oi.next();
+            if (isShown_(edge)) {
+                edgeOrdinalMap[edge] = ++ordinal;
+            }
+        }
+    }
+
     while (ei.hasNext()) {
 
         Lattice::EdgeDescriptor edge = ei.next();
 
-        if (lattice_.isDiscarded(edge)) {
-            continue;
-        }
+        if (!isShown_(edge)) continue;
 
         std::list<std::string> tagNames
             = lattice_.getLayerTagManager().getTagNames(lattice_.getEdgeLayerTags(edge));
 
-        if (
-            tagNames.size() == 1 &&
-            tagNames.front() == "symbol" &&
-            !processor_.isShowSymbolEdges()
-        ) continue;
-
-        if (!processor_.areSomeInFilter(tagNames)) continue;
-
         std::stringstream edgeSs;
 
         Lattice::VertexDescriptor source = lattice_.getEdgeSource(edge);
@@ -166,9 +167,7 @@ void DotLatticeWriter::Worker::doRun() {
 
         if (processor_.isTree()) {
 
-            ++ordinal;
-            edgeOrdinalMap[edge] = ordinal;
-            edgeIdSs << ordinal;
+            edgeIdSs << edgeOrdinalMap[edge];
 
             edgeSs << edgeIdSs.str() << " [label=\"" << edgeLabelSs.str() << "\"";
             if (processor_.isColor()) {
@@ -264,6 +263,21 @@ void DotLatticeWriter::Worker::doRun() {
     DEBUG("WRITING");
 }
 
+bool DotLatticeWriter::Worker::isShown_(Lattice::EdgeDescriptor edge) {
+    if (lattice_.isDiscarded(edge)) return false;
+
+    std::list<std::string> tagNames
+        = lattice_.getLayerTagManager().getTagNames(lattice_.getEdgeLayerTags(edge));
+
+    if (
+        tagNames.size() == 1 &&
+        tagNames.front() == "symbol" &&
+        !processor_.isShowSymbolEdges()
+    ) return false;
+
+    return processor_.areSomeInFilter(tagNames);
+}
+
 std::string DotLatticeWriter::Worker::escapeQuotes_(const std::string& str) {
     return boost::replace_all_copy(str, "\"", "\\\"");
 }
diff --git a/formats/dot/dot_lattice_writer.hpp b/formats/dot/dot_lattice_writer.hpp
index e7c6f09..ae4f4d7 100644
--- a/formats/dot/dot_lattice_writer.hpp
+++ b/formats/dot/dot_lattice_writer.hpp
@@ -73,6 +73,7 @@ private:
 
         virtual ~Worker();
     private:
+        bool isShown_(Lattice::EdgeDescriptor edge);
         static std::string escapeQuotes_(const std::string& str);
 
         DotLatticeWriter& processor_;
-- 
2.43.0


From 458288edb3e49c6aa1fc2f641262a82023d4242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 111/128] fix: evaluate maximum entropy models when all
 log-probabilities are very low

---
 maxent/maxentmodel.cpp | 4 ++--
 maxent/trainer.cpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxent/maxentmodel.cpp b/maxent/maxentmodel.cpp
index 9d4bb27..36fd66d 100644
--- a/maxent/maxentmodel.cpp
+++ b/maxent/maxentmodel.cpp
@@ -381,7 +381,7 @@ void MaxentModel::eval_all(const context_type& context,
        loss of significant difference between two highly likely outcomes. */
 
     // Find the maximum log-prob
-    double max_prob = numeric_limits<double>::min();
+    double max_prob = -numeric_limits<double>::max();
     for (size_t i = 0; i < probs.size(); ++i) {
         max_prob = max(max_prob, probs[i]);
     }
@@ -457,7 +457,7 @@ double MaxentModel::eval(const context_type& context,
        see maxentmodel.cpp:maxent::MaxentModel::eval_all*/
 
     // Find the maximum log-prob
-    double max_prob = numeric_limits<double>::min();
+    double max_prob = -numeric_limits<double>::max();
     for (size_t i = 0; i < probs.size(); ++i) {
         max_prob = max(max_prob, probs[i]);
     }
diff --git a/maxent/trainer.cpp b/maxent/trainer.cpp
index e1bf421..c5be710 100644
--- a/maxent/trainer.cpp
+++ b/maxent/trainer.cpp
@@ -207,7 +207,7 @@ Trainer::eval(const Event::context_type* context, size_t len,
        see maxentmodel.cpp:maxent::MaxentModel::eval_all */
 
     // Find the maximum log-prob
-    double max_prob = numeric_limits<double>::min();
+    double max_prob = -numeric_limits<double>::max();
     size_t best_oid = 0;
     for (size_t oid = 0; oid < m_n_outcomes; ++oid) {
         if (probs[oid] >= max_prob) {
-- 
2.43.0


From 1bfa8b75d239f7882e2ccc0963a5beb66e862568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 112/128] fix: write only the header of binary maximum entropy
 models, not what follows it in memory

---
 maxent/modelfile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxent/modelfile.cpp b/maxent/modelfile.cpp
index 62ba582..e44e7c3 100644
--- a/maxent/modelfile.cpp
+++ b/maxent/modelfile.cpp
@@ -351,7 +351,8 @@ void MaxentModelFile::save_model_bin(const string& model) {
         throw runtime_error("unable to open model file to write");
 
     // todo: write a header section here
-    gzwrite(f, (void*)"#bin,maxent", header_len);
+    char header[header_len] = "#bin,maxent"; // padded with zeros
+    gzwrite(f, (void*)header, header_len);
 
     size_t uint;
     uint = m_pred_map->size();
-- 
2.43.0


From 8df3f62414501a7dbb2c917fe1d6a63358ee95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 113/128] fix: read long predicates of binary maximum entropy
 models

---
 maxent/modelfile.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/maxent/modelfile.cpp b/maxent/modelfile.cpp
index e44e7c3..8a22829 100644
--- a/maxent/modelfile.cpp
+++ b/maxent/modelfile.cpp
@@ -248,21 +248,23 @@ void MaxentModelFile::load_model_bin(const string& model) {
 
     size_t count;
     size_t len;
-    char buf[4096]; // TODO: handle unsafe buffer
+    string buf;
     // read context predicates
     gzread(f, (void*)&count, sizeof(count));
     for (size_t i = 0; i < count; ++i) {
         gzread(f, (void*)&len, sizeof(len));
-        gzread(f, (void*)&buf, len);
-        m_pred_map->add(string(buf, len));
+        buf.assign(len, '\0');
+        gzread(f, (void*)&buf[0], len);
+        m_pred_map->add(buf);
     }
 
     // read outcomes
     gzread(f, (void*)&count, sizeof(count));
     for (size_t i = 0; i < count; ++i) {
         gzread(f, (void*)&len, sizeof(len));
-        gzread(f, (void*)&buf, len);
-        m_outcome_map->add(string(buf, len));
+        buf.assign(len, '\0');
+        gzread(f, (void*)&buf[0], len);
+        m_outcome_map->add(buf);
     }
 
     // read paramaters
-- 
2.43.0


From 22e8c59d2aa3d025fffc849b5e9624aac79b24b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 114/128] fix: guess the language of a single non-ASCII letter

---
 tools/recognizers/langguesser/bigram_language_model.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/recognizers/langguesser/bigram_language_model.cpp b/tools/recognizers/langguesser/bigram_language_model.cpp
index bbef03e..4b04f4a 100644
--- a/tools/recognizers/langguesser/bigram_language_model.cpp
+++ b/tools/recognizers/langguesser/bigram_language_model.cpp
@@ -54,6 +54,11 @@ void BigramLanguageModel::countBigramsInText(std::string& text, int* countTable)
 
     utf8::uint32_t a = utf8::next(iter, end);
     a = LOWER_LETTER(a);
+
+    if (iter == end) {
+        return;
+    }
+
     utf8::uint32_t b = utf8::next(iter, end);
     b = LOWER_LETTER(b);
 
-- 
2.43.0


From 02e208e0149cc40dfe988b621dda3c3c0df7483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:18 +0000
Subject: [PATCH 115/128] fix: choose tags only among the forms that aren't
 discarded

---
 tools/taggers/inflector/inflector.cpp | 2 ++
 tools/taggers/metagger/me_tagger.cpp  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tools/taggers/inflector/inflector.cpp b/tools/taggers/inflector/inflector.cpp
index ef0578e..237dfc8 100644
--- a/tools/taggers/inflector/inflector.cpp
+++ b/tools/taggers/inflector/inflector.cpp
@@ -451,6 +451,8 @@ Inflector::Outcome Inflector::getBestTag(Lattice &lattice,
         lattice.outEdges(currentVertex, formMask);
     while (formIt.hasNext()) {
         Lattice::EdgeDescriptor form = formIt.next();
+        if (isDiscarded(lattice, form))
+            continue;
         if (getFormPartOfSpeech(lattice, form) == unknownPosLabel) {
             std::string currentOrth = lattice.getEdgeText(token);
             std::vector<std::string> openClasses;
diff --git a/tools/taggers/metagger/me_tagger.cpp b/tools/taggers/metagger/me_tagger.cpp
index 2785959..f0a1523 100644
--- a/tools/taggers/metagger/me_tagger.cpp
+++ b/tools/taggers/metagger/me_tagger.cpp
@@ -450,6 +450,8 @@ MeTagger::Outcome MeTagger::getBestTag(Lattice &lattice,
         lattice.outEdges(currentVertex, formMask);
     while (formIt.hasNext()) {
         Lattice::EdgeDescriptor form = formIt.next();
+        if (isDiscarded(lattice, form))
+            continue;
         if (getFormPartOfSpeech(lattice, form) == unknownPosLabel) {
             std::string currentOrth = lattice.getEdgeText(token);
             std::vector<std::string> openClasses;
-- 
2.43.0


From 127af1ae6fafab91fb1443b2b60cb3c0cc6f39ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:58 +0000
Subject: [PATCH 116/128] fix: look for the head of a puddle group behind the
 left context

---
 tools/parsers/puddle/attach_action.cpp | 2 +-
 tools/parsers/puddle/group_action.cpp  | 2 +-
 tools/parsers/puddle/join_action.cpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/parsers/puddle/attach_action.cpp b/tools/parsers/puddle/attach_action.cpp
index 6eb03e0..ab50e83 100644
--- a/tools/parsers/puddle/attach_action.cpp
+++ b/tools/parsers/puddle/attach_action.cpp
@@ -34,7 +34,7 @@ bool AttachAction::apply(Lattice &lattice, std::string langCode,
     Lattice::VertexDescriptor startVertex = lattice::getVertex(
             lattice, langCode, realStart, matchedStartIndex);
     Lattice::VertexDescriptor headVertex = lattice::getVertex(
-            lattice, langCode, realHead, matchedStartIndex);
+            lattice, langCode, realStart + realHead, matchedStartIndex);
     Lattice::VertexDescriptor endVertex = lattice::getVertex(
             lattice, langCode, realEnd, matchedStartIndex);
     lattice::removeParseEdges(lattice, langCode, headVertex, headVertex + 1);
diff --git a/tools/parsers/puddle/group_action.cpp b/tools/parsers/puddle/group_action.cpp
index dba5848..82bc325 100644
--- a/tools/parsers/puddle/group_action.cpp
+++ b/tools/parsers/puddle/group_action.cpp
@@ -40,7 +40,7 @@ bool GroupAction::apply(Lattice &lattice, std::string langCode,
     //Lattice::VertexDescriptor headVertex = lattice::getVertex(
     //        lattice, matchedStartIndex + realHead);
     Lattice::VertexDescriptor headVertex = lattice::getVertex(
-            lattice, langCode, realHead, matchedStartIndex);
+            lattice, langCode, realStart + realHead, matchedStartIndex);
     //Lattice::VertexDescriptor headVertex = matchedStartIndex + realHead;
     ////@todo: rozwiazanie tymczasowe. nie uwzglednia to chyba lewego kontekstu
     //Lattice::VertexDescriptor endVertex = lattice::getVertex(
diff --git a/tools/parsers/puddle/join_action.cpp b/tools/parsers/puddle/join_action.cpp
index 4c1004f..2cd5548 100644
--- a/tools/parsers/puddle/join_action.cpp
+++ b/tools/parsers/puddle/join_action.cpp
@@ -31,7 +31,7 @@ bool JoinAction::apply(Lattice &lattice, std::string langCode,
     Lattice::VertexDescriptor startVertex = lattice::getVertex(
             lattice, langCode, realStart, matchedStartIndex);
     Lattice::VertexDescriptor headVertex = lattice::getVertex(
-            lattice, langCode, realHead, matchedStartIndex);
+            lattice, langCode, realStart + realHead, matchedStartIndex);
     Lattice::VertexDescriptor endVertex = lattice::getVertex(
             lattice, langCode, realEnd, matchedStartIndex);
     lattice::removeParseEdges(lattice, langCode, startVertex, endVertex);
-- 
2.43.0


From 0084d5b81b17442956134f76686e0116cc1a8f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 117/128] fix: conditions on attributes in puddle rules

---
 tools/parsers/puddle/rule_loader.cpp | 32 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/tools/parsers/puddle/rule_loader.cpp b/tools/parsers/puddle/rule_loader.cpp
index 56229da..04715d6 100644
--- a/tools/parsers/puddle/rule_loader.cpp
+++ b/tools/parsers/puddle/rule_loader.cpp
@@ -793,6 +793,7 @@ std::string RuleLoader::generateTokenPatternsString(TokenPatterns tokenPatterns)
                 patternIt->parts.begin();
                 partIt != patternIt->parts.end(); ++ partIt) {
             if (partIt->condition != "") {
+#if HAVE_RE2
                 if (morphoPattern != "") {
                     morphoPattern += "(?::[^:<>]+)*";
                 } else {
@@ -801,7 +802,6 @@ std::string RuleLoader::generateTokenPatternsString(TokenPatterns tokenPatterns)
                         morphoPattern = "[^:<>]+";
                 }
                 if (partIt->negative) {
-#if HAVE_RE2
                     if (partIt == patternIt->parts.begin() ) //first part = part of speech
                         morphoPattern = "(?P<";
                     else
@@ -821,28 +821,30 @@ std::string RuleLoader::generateTokenPatternsString(TokenPatterns tokenPatterns)
                             std::pair<std::string, std::string>(
                                 negativePatternName, partIt->condition
                                 ) );
-#else
-                    if (partIt == patternIt->parts.begin() ) //first part = part of speech
-                        morphoPattern = "(?!";
-                    else
-                        morphoPattern += ":(?!"; //@todo: jak sie da :?(?P< to wtedy lapie takie,
-                    //ktore nie maj danego atrybutu w ogole. ta wersja z obowiazkowym :
-                    //wymusza wartosc atrybutu. pytanie, ktore dzialanie jest podejrzane.
-                    //moze ustawic to po prostu jako parametr parsera, tak jak 'null agreement'
-                    //dla unify czy etykiete dla nierozpoznanej czesci mowy ('ign')
-                    morphoPattern += partIt->condition;
-                    morphoPattern += ")[^<>]+";
-#endif
                 } else {
-                    morphoPattern += partIt->condition;
-                    //@todo: nie trzeba owinac w nawiasy jeszcze tego?
+                    if (partIt != patternIt->parts.begin())
+                        morphoPattern += ":";
+                    morphoPattern += "(?:" + partIt->condition + ")";
                 }
+#else
+                //the attributes may be written in any order in a morphology
+                //string, so each of the conditions is checked on its own
+                morphoPattern += (partIt->negative ? "(?!" : "(?=");
+                if (partIt != patternIt->parts.begin())
+                    //if not the first part = not the part of speech
+                    morphoPattern += "[^<>]*:";
+                morphoPattern += "(?:" + partIt->condition + ")[:<>])";
+#endif
             }
         }
         if (morphoPattern == "")
             morphoPattern = "[^<>]+";
         else
+#if HAVE_RE2
             morphoPattern += "(?::(?:[^:<>]+))*";
+#else
+            morphoPattern += "[^<>]+";
+#endif
         pattern += "<";
         pattern += basePattern;
         pattern += "<";
-- 
2.43.0


From 5ad95b3dffbfa71f0a8f3d3deeb74324a94809cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 118/128] fix: match all the interpretations of a token with ~~
 and !~

---
 tools/parsers/puddle/rule_loader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/parsers/puddle/rule_loader.cpp b/tools/parsers/puddle/rule_loader.cpp
index 04715d6..af3e611 100644
--- a/tools/parsers/puddle/rule_loader.cpp
+++ b/tools/parsers/puddle/rule_loader.cpp
@@ -870,6 +870,9 @@ std::string RuleLoader::generateTokenPatternsString(TokenPatterns tokenPatterns)
         if (result == "(<[^<>]+<[^<>]+)")
         //    result += "*";
             result = "(?:<[^<>]+<[^<>]+)*";
+        else
+            //all the interpretations have to satisfy the conditions
+            result = "(?:" + result + ")+";
     }
     return result;
 }
-- 
2.43.0


From 27c8f4e799d77a1e25a3f38f843de0e05b6071c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 119/128] fix: delete the interpretations that satisfy all the
 conditions in puddle

---
 tools/parsers/puddle/lattice_wrapper.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/tools/parsers/puddle/lattice_wrapper.cpp b/tools/parsers/puddle/lattice_wrapper.cpp
index ecfac8f..a1118d4 100644
--- a/tools/parsers/puddle/lattice_wrapper.cpp
+++ b/tools/parsers/puddle/lattice_wrapper.cpp
@@ -1000,27 +1000,27 @@ namespace poleng {
                         if (lattice::isDiscarded(lattice, *edgeIt))
                             continue; //skip discarded edges
 
+                        bool conditionsSatisfied = true;
                         for (DeleteConditions::iterator cond_it = conditions.begin();
                                 cond_it != conditions.end(); ++ cond_it) {
+                            bool satisfied = true;
                             if (cond_it->type == BASE_CONDITION) {
                                 std::string tokenBase = lattice::getBase(lattice, *edgeIt);
-                                if (cond_it->negation) {
-                                    if (RegExp::FullMatch(tokenBase, cond_it->pattern)) {
-                                        lattice.discard(*edgeIt);
-                                    }
-                                } else {
-                                    if (!RegExp::FullMatch(tokenBase, cond_it->pattern)) {
-                                        lattice.discard(*edgeIt);
-                                    }
-                                }
+                                satisfied = (RegExp::FullMatch(tokenBase, cond_it->pattern)
+                                        != cond_it->negation);
                             } else if (cond_it->type == MORPHOLOGY_CONDITION) {
                                 std::string tokenMorphology = getMorphologyString(
                                         lattice, *edgeIt);
-                                if (RegExp::FullMatch(tokenMorphology, cond_it->pattern)) {
-                                    lattice.discard(*edgeIt);
-                                }
+                                satisfied = RegExp::FullMatch(tokenMorphology,
+                                        cond_it->pattern);
+                            }
+                            if (! satisfied) {
+                                conditionsSatisfied = false;
+                                break;
                             }
                         }
+                        if (conditionsSatisfied)
+                            lattice.discard(*edgeIt);
                     }
                     vertexI ++;
                 }
-- 
2.43.0


From 1c4abb9dbafffc6937ae827beb49577f32c06dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:40 +0000
Subject: [PATCH 120/128] fix: compare whole words in negative orth and base
 conditions of puddle

---
 tools/parsers/puddle/rule_loader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/parsers/puddle/rule_loader.cpp b/tools/parsers/puddle/rule_loader.cpp
index af3e611..09cf550 100644
--- a/tools/parsers/puddle/rule_loader.cpp
+++ b/tools/parsers/puddle/rule_loader.cpp
@@ -744,7 +744,7 @@ std::string RuleLoader::compileOrthCondition(std::string &comparisonOperator,
                     negativePatternName, value
                     ) );
 #else
-        result = "(?!" + value + ")[^<>]+";
+        result = "(?!(?:" + value + ")<)[^<>]+";
 #endif
     }
     else {
@@ -782,7 +782,7 @@ std::string RuleLoader::generateTokenPatternsString(TokenPatterns tokenPatterns)
                             negativePatternName, patternIt->base.condition
                             ) );
 #else
-                basePattern = "(?!" + patternIt->base.condition + ")[^<>]+";
+                basePattern = "(?!(?:" + patternIt->base.condition + ")<)[^<>]+";
 #endif
             } else {
                 basePattern = patternIt->base.condition;
-- 
2.43.0


From 0a0ee9f471a8ba3212fcc414ab53773707c90bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:16 +0000
Subject: [PATCH 121/128] fix: do not abort parsing when a puddle group would
 consist of itself

---
 tools/parsers/puddle/lattice_wrapper.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/parsers/puddle/lattice_wrapper.cpp b/tools/parsers/puddle/lattice_wrapper.cpp
index a1118d4..a7accfb 100644
--- a/tools/parsers/puddle/lattice_wrapper.cpp
+++ b/tools/parsers/puddle/lattice_wrapper.cpp
@@ -395,6 +395,15 @@ namespace poleng {
                     lattice.getAnnotationItemManager().setValue(annotationItem, "head",
                             boost::lexical_cast<std::string>(headEdgeIndex));
 
+                    if (annotationItem == lattice.getEdgeAnnotationItem(*edgeIt)
+                            && lattice.getEdgeLayerTags(*edgeIt) == tags
+                            && lattice.getEdgeBeginIndex(*edgeIt) == startVertex
+                            && lattice.getEdgeBeginIndex(*edgeIt)
+                                + lattice.getEdgeLength(*edgeIt) == endVertex) {
+                        //this would be a group of itself
+                        continue;
+                    }
+
                     for (std::list<Lattice::EdgeSequence>::iterator seqIt =
                             groupSequences.begin();
                             seqIt != groupSequences.end();
-- 
2.43.0


From cfbe6e7a7ff3a471e4223847a15f8bb45d532e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:22 +0000
Subject: [PATCH 122/128] fix: do not compare the head of a puddle group with
 the length of the text

---
 tools/parsers/puddle/group_action.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/parsers/puddle/group_action.cpp b/tools/parsers/puddle/group_action.cpp
index 82bc325..32f730d 100644
--- a/tools/parsers/puddle/group_action.cpp
+++ b/tools/parsers/puddle/group_action.cpp
@@ -77,10 +77,10 @@ bool GroupAction::apply(Lattice &lattice, std::string langCode,
     return true;
 }
 
-bool GroupAction::test(Lattice &lattice, std::string, int,
+bool GroupAction::test(Lattice &, std::string, int,
         RuleTokenSizes &ruleTokenSizes,
         std::list<Lattice::EdgeSequence>&) {
-    if ( ( (size_t) lattice.getLastVertex() ) < head) {
+    if (ruleTokenSizes.size() < head) {
         return false;
     }
     if (ruleTokenSizes[head - 1] == 0) {
-- 
2.43.0


From c63f867f21b57684192064f981062c7a3b083aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 123/128] fix: compare the values of the attributes when puddle
 unifies interpretations

---
 tools/parsers/puddle/unify_action.cpp | 82 ++++++++++++---------------
 tools/parsers/puddle/unify_action.hpp |  6 +-
 2 files changed, 40 insertions(+), 48 deletions(-)

diff --git a/tools/parsers/puddle/unify_action.cpp b/tools/parsers/puddle/unify_action.cpp
index 8a7008d..ff714a9 100644
--- a/tools/parsers/puddle/unify_action.cpp
+++ b/tools/parsers/puddle/unify_action.cpp
@@ -20,12 +20,11 @@ bool UnifyAction::apply(Lattice &lattice, std::string langCode,
         generateInterpretationsVector(lattice, langCode, ruleTokenSizes,
                 matchedStartIndex);
 
-    std::set<std::string> unifiedStrings = generateUnifiedInterpretationStrings(
-            unifiedInterpretations);
-
     std::vector<std::list<Lattice::EdgeDescriptor> > edgesToKeep =
         generateUnifiedEdgesList(lattice, langCode, ruleTokenSizes,
-                matchedStartIndex, unifiedStrings);
+                matchedStartIndex, std::set<std::vector<std::string> >(
+                    unifiedInterpretations.begin(),
+                    unifiedInterpretations.end()));
 
     std::list<Lattice::EdgeSequence> newRulePartitions;
     for (std::vector<std::list<Lattice::EdgeDescriptor> >::iterator listIt =
@@ -99,28 +98,10 @@ std::vector<std::vector<std::string> > UnifyAction::generateInterpretationsVecto
             for (std::list<Lattice::EdgeDescriptor>::iterator edgeIt =
                     edges.begin();
                     edgeIt != edges.end(); ++ edgeIt) {
-                std::vector<std::string> interpretation;
-
-                for (std::vector<std::string>::iterator pattern_it = unifiedPatterns.begin();
-                        pattern_it != unifiedPatterns.end(); ++ pattern_it) {
-
-                    AnnotationItem annotationItem =
-                        lattice.getEdgeAnnotationItem(*edgeIt);
-                    if (lattice::isDiscarded(lattice, *edgeIt))
-                        continue; //skip discarded edges
-                    std::string morphology = lattice::getMorphologyString(
-                            lattice, *edgeIt);
-
-                    std::string slot;
-                    std::string value;
-                    if (RegExp::FullMatch(morphology, *pattern_it, &slot, &value)) {
-                        interpretation.push_back(value);
-                    } else {
-                        interpretation.push_back("");
-                    }
-                }
-                unifiedInterpretations.push_back(interpretation);
-
+                if (lattice::isDiscarded(lattice, *edgeIt))
+                    continue; //skip discarded edges
+                unifiedInterpretations.push_back(
+                        generateInterpretation(lattice, *edgeIt));
             }
             vertexI ++;
         }
@@ -129,28 +110,32 @@ std::vector<std::vector<std::string> > UnifyAction::generateInterpretationsVecto
     return unifiedInterpretations;
 }
 
-std::set<std::string> UnifyAction::generateUnifiedInterpretationStrings(
-        std::vector<std::vector<std::string> > unifiedInterpretations) {
-    std::set<std::string> unifiedStrings;
-    for (std::vector<std::vector<std::string> >::iterator interpIt =
-            unifiedInterpretations.begin();
-            interpIt != unifiedInterpretations.end();
-            ++ interpIt) {
-        std::string unifiedString = boost::algorithm::join(*interpIt, ":([^:]+:)*");
-        unifiedStrings.insert(unifiedString);
+std::vector<std::string> UnifyAction::generateInterpretation(
+        Lattice &lattice, Lattice::EdgeDescriptor edge) {
+    std::vector<std::string> interpretation;
+    std::string morphology = lattice::getMorphologyString(lattice, edge);
+    for (std::vector<std::string>::iterator pattern_it = unifiedPatterns.begin();
+            pattern_it != unifiedPatterns.end(); ++ pattern_it) {
+        std::string slot;
+        std::string value;
+        if (RegExp::FullMatch(morphology, *pattern_it, &slot, &value)) {
+            interpretation.push_back(value);
+        } else {
+            interpretation.push_back("");
+        }
     }
-    return unifiedStrings;
+    return interpretation;
 }
 
 std::vector<std::list<Lattice::EdgeDescriptor> >
 UnifyAction::generateUnifiedEdgesList(Lattice &lattice, std::string langCode,
         RuleTokenSizes &ruleTokenSizes, int matchedStartIndex,
-        std::set<std::string> unifiedStrings) {
+        std::set<std::vector<std::string> > unifiedInterpretations) {
     std::vector<std::list<Lattice::EdgeDescriptor> > edgesToKeep;
-    for (std::set<std::string>::iterator uniPatternIt =
-            unifiedStrings.begin();
-            uniPatternIt != unifiedStrings.end();
-            ++ uniPatternIt) {
+    for (std::set<std::vector<std::string> >::iterator uniIt =
+            unifiedInterpretations.begin();
+            uniIt != unifiedInterpretations.end();
+            ++ uniIt) {
         std::vector<std::list<Lattice::EdgeDescriptor> > matchingSequences;
         bool patternMatched = true;
         for (std::vector<int>::iterator index_it = tokenIndices.begin();
@@ -185,10 +170,17 @@ UnifyAction::generateUnifiedEdgesList(Lattice &lattice, std::string langCode,
                         lattice.getEdgeAnnotationItem(*edgeIt);
                     if (lattice::isDiscarded(lattice, *edgeIt))
                         continue; //skip discarded edges
-                    Morphology morphology = lattice::getMorphology(lattice, *edgeIt);
-                    std::string morphologyString =
-                        util::getMorphologyString(morphology);
-                    if (RegExp::PartialMatch(morphologyString, *uniPatternIt)) {
+                    std::vector<std::string> interpretation =
+                        generateInterpretation(lattice, *edgeIt);
+                    bool matching = true;
+                    for (size_t i = 0; i < interpretation.size(); ++ i) {
+                        if (! (*uniIt)[i].empty() &&
+                                (*uniIt)[i] != interpretation[i]) {
+                            matching = false;
+                            break;
+                        }
+                    }
+                    if (matching) {
                         matchingEdges.push_back(*edgeIt);
                     }
                 }
diff --git a/tools/parsers/puddle/unify_action.hpp b/tools/parsers/puddle/unify_action.hpp
index f78b971..e76e073 100644
--- a/tools/parsers/puddle/unify_action.hpp
+++ b/tools/parsers/puddle/unify_action.hpp
@@ -29,12 +29,12 @@ class UnifyAction : public Action
         std::vector<std::vector<std::string> > generateInterpretationsVector(
                 Lattice &lattice, std::string langCode,
                 RuleTokenSizes &ruleTokenSizes, int matchedStartIndex);
-        std::set<std::string> generateUnifiedInterpretationStrings(
-                std::vector<std::vector<std::string> > unifiedInterpretations);
+        std::vector<std::string> generateInterpretation(Lattice &lattice,
+                Lattice::EdgeDescriptor edge);
         std::vector<std::list<Lattice::EdgeDescriptor> >
             generateUnifiedEdgesList(Lattice &lattice, std::string langCode,
                     RuleTokenSizes &ruleTokenSizes, int CurrentEntity,
-                    std::set<std::string> unifiedStrings);
+                    std::set<std::vector<std::string> > unifiedInterpretations);
         bool isUnifyingPossible(Lattice &lattice, std::string langCode,
                 int matchedStartIndex, RuleTokenSizes &ruleTokenSizes);
         void discardUnunifiedEdges(Lattice &lattice, std::string langCode,
-- 
2.43.0


From 5a14fec99b74fb650e359c62c84080142409fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:38 +0000
Subject: [PATCH 124/128] fix: discard the interpretations of the right words
 when puddle unifies repeated or omitted ones

---
 tools/parsers/puddle/unify_action.cpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/tools/parsers/puddle/unify_action.cpp b/tools/parsers/puddle/unify_action.cpp
index ff714a9..46f2869 100644
--- a/tools/parsers/puddle/unify_action.cpp
+++ b/tools/parsers/puddle/unify_action.cpp
@@ -323,12 +323,8 @@ void UnifyAction::discardUnunifiedEdges(Lattice &lattice, std::string langCode,
         RuleTokenSizes &ruleTokenSizes, int matchedStartIndex,
         std::vector<std::list<Lattice::EdgeDescriptor> > edgesToKeep) {
 
-    std::vector<std::set<std::string> > unifiedMorphoStrings;
-    for (std::vector<int>::iterator indexIt = tokenIndices.begin();
-            indexIt != tokenIndices.end(); ++ indexIt) {
-        std::set<std::string> tmpSet;
-        unifiedMorphoStrings.push_back(tmpSet);
-    }
+    std::vector<std::set<std::string> > unifiedMorphoStrings(
+            edgesToKeep.front().size());
 
     for (std::vector<std::list<Lattice::EdgeDescriptor> >::iterator listIt =
             edgesToKeep.begin();
@@ -350,10 +346,8 @@ void UnifyAction::discardUnunifiedEdges(Lattice &lattice, std::string langCode,
 
         int count, before;
         if (! util::getUnifyActionTokenParams(ruleTokenSizes, *index_it,
-                    count, before) ) {
-            tokenCounter ++;
+                    count, before) )
             continue;
-        }
 
         //Lattice::VertexDescriptor vertex = matchedStartIndex + before;
         Lattice::VertexDescriptor vertex = lattice::getVertex(lattice,
@@ -365,12 +359,11 @@ void UnifyAction::discardUnunifiedEdges(Lattice &lattice, std::string langCode,
 //            vertex = matchedStartIndex + before;
 //        }
 
-        std::set<std::string> morphologyStrings =
-            unifiedMorphoStrings[tokenCounter];
-
         int offset = vertex;
         int vertexI = 0;
         while (vertexI < count) {
+            std::set<std::string> morphologyStrings =
+                unifiedMorphoStrings[tokenCounter];
             vertex = lattice::getVertex(lattice, langCode, vertexI, offset);
             std::list<Lattice::EdgeDescriptor> edges =
                 lattice::getTopEdges(lattice, langCode, vertex);
@@ -384,9 +377,8 @@ void UnifyAction::discardUnunifiedEdges(Lattice &lattice, std::string langCode,
                 }
             }
             vertexI ++;
+            tokenCounter ++;
         }
-
-        tokenCounter ++;
     }
 
 }
-- 
2.43.0


From 0113700a48c1cb9f2d1d3c1cd74b2d057b3cecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:38 +0000
Subject: [PATCH 125/128] fix: do not forget that two words disagree when
 puddle unifies three

---
 tools/parsers/puddle/unify_action.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/parsers/puddle/unify_action.cpp b/tools/parsers/puddle/unify_action.cpp
index 46f2869..4a104c9 100644
--- a/tools/parsers/puddle/unify_action.cpp
+++ b/tools/parsers/puddle/unify_action.cpp
@@ -239,6 +239,7 @@ bool UnifyAction::isUnifyingPossible(Lattice &lattice, std::string langCode,
 
         bool wasAllNulls = false;
 
+        bool anyValues = false;
         std::set<std::string> refValues;
         for (std::vector<int>::iterator index_it = tokenIndices.begin();
                 index_it != tokenIndices.end(); ++ index_it) {
@@ -284,7 +285,8 @@ bool UnifyAction::isUnifyingPossible(Lattice &lattice, std::string langCode,
                     }
                 }
                 if (! values.empty()) {
-                    if (refValues.empty()) {
+                    if (! anyValues) {
+                        anyValues = true;
                         refValues.insert(values.begin(), values.end());
                     } else {
                         std::set<std::string> intersection;
-- 
2.43.0


From 6496e060a97e22b21cd35357f0aae8468ecfefc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:25 +0000
Subject: [PATCH 126/128] fix: close the archive when it cannot be extracted

---
 common/file_extractor.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/common/file_extractor.cpp b/common/file_extractor.cpp
index 512a6e8..15f1837 100644
--- a/common/file_extractor.cpp
+++ b/common/file_extractor.cpp
@@ -1,4 +1,5 @@
 #include <boost/filesystem.hpp>
+#include <boost/shared_ptr.hpp>
 #include <cstdio>
 #include <fstream>
 #include <cstring>
@@ -23,6 +24,7 @@ std::set<std::string> FileExtractor::getFileListByPath(const std::string &archiv
 
     fex_t* fex;
     handleError_( fex_open(&fex, archivePath.c_str()) );
+    boost::shared_ptr<fex_t> closer(fex, fex_close);
 
     while (!fex_done(fex)) {
         std::string foundFile = fex_name(fex);
@@ -33,9 +35,6 @@ std::set<std::string> FileExtractor::getFileListByPath(const std::string &archiv
         handleError_( fex_next(fex) );
     }
 
-    fex_close(fex);
-    fex = NULL;
-
     return files;
 }
 
@@ -51,6 +50,7 @@ std::map<std::string, std::string> FileExtractor::extractFilesByPath(
 
     fex_t* fex;
     handleError_( fex_open(&fex, archivePath.c_str()) );
+    boost::shared_ptr<fex_t> closer(fex, fex_close);
 
     while (!fex_done(fex)) {
         if (regexp.empty() || RegExp::FullMatch(fex_name(fex), PerlRegExp(regexp))) {
@@ -64,9 +64,6 @@ std::map<std::string, std::string> FileExtractor::extractFilesByPath(
         handleError_( fex_next(fex) );
     }
 
-    fex_close(fex);
-    fex = NULL;
-
     return files;
 }
 
-- 
2.43.0


From a052a8a8ce7a6426d5b17979272dd073f5ffbdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:19 +0000
Subject: [PATCH 127/128] fix: do not let others read a half-written copy of an
 archive

---
 common/file_extractor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/file_extractor.cpp b/common/file_extractor.cpp
index 15f1837..8cbc52c 100644
--- a/common/file_extractor.cpp
+++ b/common/file_extractor.cpp
@@ -90,7 +90,10 @@ std::string FileExtractor::storeToTempFile_(const std::string &archive) {
         return fileName;
     }
 
-    std::ofstream tempFile(fileName.c_str(), std::ios::out | std::ios::binary);
+    //the file may be needed by others before all of it is written
+    std::string partialFileName = fileName + "."
+        + boost::filesystem::unique_path().string();
+    std::ofstream tempFile(partialFileName.c_str(), std::ios::out | std::ios::binary);
 
     if (tempFile) {
         INFO("creating temporary file " << fileName);
@@ -101,6 +104,7 @@ std::string FileExtractor::storeToTempFile_(const std::string &archive) {
     }
 
     tempFile.close();
+    boost::filesystem::rename(partialFileName, fileName);
     return fileName;
 }
 
-- 
2.43.0


From 385e9da0393075764d90d4b36a3d75d2e29aaf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:52 +0000
Subject: [PATCH 128/128] fix: read a compressed document in apertium-reader as
 it is, not as lines of text

---
 .../apertium/apertium_reader/apertium_deformatter.cpp    | 7 +++++--
 .../apertium/apertium_reader/apertium_deformatter.hpp    | 1 +
 .../apertium/apertium_reader/apertium_lattice_reader.cpp | 9 +++++++++
 .../apertium/apertium_reader/apertium_lattice_reader.hpp | 1 +
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/formats/apertium/apertium_reader/apertium_deformatter.cpp b/formats/apertium/apertium_reader/apertium_deformatter.cpp
index b92109a..058b987 100644
--- a/formats/apertium/apertium_reader/apertium_deformatter.cpp
+++ b/formats/apertium/apertium_reader/apertium_deformatter.cpp
@@ -96,8 +96,7 @@ std::vector<DeformatIndex> ApertiumDeformatter::processFormatRules(const std::st
 std::string ApertiumDeformatter::processReplacementRules(const std::string& input) {
     DEBUG("is compressed format " << formatSpecification_.getOptions().isCompressed());
 
-    std::string text = (unzipData_ && formatSpecification_.getOptions().isCompressed()) ?
-        decompressFiles_(input) : input;
+    std::string text = isInputCompressed() ? decompressFiles_(input) : input;
 
     std::map<std::string, std::string>::iterator it;
     std::map<std::string, std::string> rules = formatSpecification_.replacementRulesRegexp();
@@ -155,3 +154,7 @@ std::string ApertiumDeformatter::decompressFiles_(const std::string &compressed)
 void ApertiumDeformatter::setUnzipData(bool onOff) {
     unzipData_ = onOff;
 }
+
+bool ApertiumDeformatter::isInputCompressed() {
+    return unzipData_ && formatSpecification_.getOptions().isCompressed();
+}
diff --git a/formats/apertium/apertium_reader/apertium_deformatter.hpp b/formats/apertium/apertium_reader/apertium_deformatter.hpp
index 2fb315c..8707dbb 100644
--- a/formats/apertium/apertium_reader/apertium_deformatter.hpp
+++ b/formats/apertium/apertium_reader/apertium_deformatter.hpp
@@ -33,6 +33,7 @@ public:
     std::string deformat(const std::string& input);
 
     void setUnzipData(bool);
+    bool isInputCompressed();
 
     class ApertiumException : public PsiException {
     public:
diff --git a/formats/apertium/apertium_reader/apertium_lattice_reader.cpp b/formats/apertium/apertium_reader/apertium_lattice_reader.cpp
index 1c1fffc..66b217d 100644
--- a/formats/apertium/apertium_reader/apertium_lattice_reader.cpp
+++ b/formats/apertium/apertium_reader/apertium_lattice_reader.cpp
@@ -14,6 +14,10 @@ std::string ApertiumLatticeReader::doInfo() {
     return "Apertium reader";
 }
 
+bool ApertiumLatticeReader::isInputCompressed() {
+    return apertiumDeformatter_.isInputCompressed();
+}
+
 std::string ApertiumLatticeReader::processReplacementRules(const std::string& input) {
     return apertiumDeformatter_.processReplacementRules(input);
 }
@@ -108,6 +112,11 @@ void ApertiumLatticeReader::Worker::doRun() {
 
     bool firstLine = true;
 
+    if (processor_.isInputCompressed()) {
+        //not lines of text
+        input.assign(std::istreambuf_iterator<char>(inputStream_), std::istreambuf_iterator<char>());
+    }
+
     while (std::getline(inputStream_, line)) {
         if (boost::algorithm::trim_copy(line).empty()) {
             continue;
diff --git a/formats/apertium/apertium_reader/apertium_lattice_reader.hpp b/formats/apertium/apertium_reader/apertium_lattice_reader.hpp
index 5cb7336..25f72c8 100644
--- a/formats/apertium/apertium_reader/apertium_lattice_reader.hpp
+++ b/formats/apertium/apertium_reader/apertium_lattice_reader.hpp
@@ -17,6 +17,7 @@ public:
 
     std::string getFormatName();
 
+    bool isInputCompressed();
     std::string processReplacementRules(const std::string& input);
     std::vector<DeformatIndex> processFormatRules(const std::string& input);
 
-- 
2.43.0

