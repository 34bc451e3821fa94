From 9dae97b6ee6f7cf70c1d1fa6cc49af929766f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:47 +0000
Subject: [PATCH 01/49] fix: traverse level trees with entries on several
 levels and with shallow last roots

Iterating over all levels stopped early (or ran past the end) when the last
root was not the deepest one, single-level traversal of entries that occupy
several levels skipped or repeated entries, and inserting a root and taking
--end() did not always give the inserted entry.
---
 kernel/Base/LevelTree_Impl.h | 24 ++++++++++++++---------
 kernel/Base/Mesh_Impl.h      |  7 +++----
 kernel/Base/TreeIterator.h   | 37 +++++++++++++++++++++++++++++-------
 3 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/kernel/Base/LevelTree_Impl.h b/kernel/Base/LevelTree_Impl.h
index 811b277..76e3b8e 100644
--- a/kernel/Base/LevelTree_Impl.h
+++ b/kernel/Base/LevelTree_Impl.h
@@ -121,7 +121,7 @@ TreeIterator<V> LevelTree<V>::begin() {
     TreeIterator<V> result =
         entries_.front()->getIterator(traversalMethod_, activeLevel_);
     if (traversalMethod_ == TreeTraversalMethod::POSTORDER) {
-        while ((*result.ptr_)->hasChild()) {
+        while (result.canMoveDown()) {
             result.moveToChild(0);
         }
     }
@@ -137,12 +137,15 @@ TreeIterator<V> LevelTree<V>::end() {
     // it is easier to first get the last valid position
     TreeIterator<V> result =
         entries_.back()->getIterator(traversalMethod_, activeLevel_);
-    if (traversalMethod_ == TreeTraversalMethod::PREORDER ||
-        traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
-        while ((*result.ptr_)->hasChild()) {
+    if (traversalMethod_ == TreeTraversalMethod::PREORDER) {
+        while (result.canMoveDown()) {
             result.moveToChild((*result.ptr_)->getNumberOfChildren() - 1);
         }
     }
+    if (traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+        // the last root need not have descendants on the highest level
+        result.moveToLastOnLevel(maxLevel_ - 1);
+    }
     if (traversalMethod_ == TreeTraversalMethod::SINGLELEVEL) {
         result.moveToLastOnLevel(activeLevel_);
     }
@@ -160,7 +163,7 @@ TreeIteratorConst<V> LevelTree<V>::begin() const {
     TreeIterator<V> result =
         entries_.front()->getIterator(traversalMethod_, activeLevel_);
     if (traversalMethod_ == TreeTraversalMethod::POSTORDER) {
-        while ((*result.ptr_)->hasChild()) {
+        while (result.canMoveDown()) {
             result.moveToChild(0);
         }
     }
@@ -176,12 +179,15 @@ TreeIteratorConst<V> LevelTree<V>::end() const {
     // it is easier to first get the last valid position
     TreeIterator<V> result =
         entries_.back()->getIterator(traversalMethod_, activeLevel_);
-    if (traversalMethod_ == TreeTraversalMethod::PREORDER ||
-        traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
-        while ((*result.ptr_)->hasChild()) {
+    if (traversalMethod_ == TreeTraversalMethod::PREORDER) {
+        while (result.canMoveDown()) {
             result.moveToChild((*result.ptr_)->getNumberOfChildren() - 1);
         }
     }
+    if (traversalMethod_ == TreeTraversalMethod::ALLLEVEL) {
+        // the last root need not have descendants on the highest level
+        result.moveToLastOnLevel(maxLevel_ - 1);
+    }
     if (traversalMethod_ == TreeTraversalMethod::SINGLELEVEL) {
         result.moveToLastOnLevel(activeLevel_);
     }
@@ -318,7 +324,7 @@ template <typename V>
 TreeIterator<V> LevelTree<V>::beginPostOrder() {
     TreeIterator<V> result =
         entries_.front()->getIterator(TreeTraversalMethod::POSTORDER);
-    while ((*result.ptr_)->hasChild()) {
+    while (result.canMoveDown()) {
         result.moveToChild(0);
     }
     return result;
diff --git a/kernel/Base/Mesh_Impl.h b/kernel/Base/Mesh_Impl.h
index 6d71a5d..3095447 100644
--- a/kernel/Base/Mesh_Impl.h
+++ b/kernel/Base/Mesh_Impl.h
@@ -145,8 +145,8 @@ Element* Mesh<DIM>::addElement(
     // with the submesh here
     Element* newElement = ElementFactory::instance().makeElement(
         globalNodeIndexes, nodeCoordinates_, zone, owner, owning);
-    elements_.addRootEntry(newElement);
-    newElement->setPositionInTree((--elements_.end()).getTreeEntry());
+    newElement->setPositionInTree(
+        elements_.addRootEntry(newElement).getTreeEntry());
     return newElement;
 }
 
@@ -179,8 +179,7 @@ bool Mesh<DIM>::addFace(Element* leftElementPtr,
             leftElementPtr, leftElementLocalFaceNo, rightElementPtr,
             rightElementLocalFaceNo);
     }
-    faces_.addRootEntry(newFace);
-    newFace->setPositionInTree((--faces_.end()).getTreeEntry());
+    newFace->setPositionInTree(faces_.addRootEntry(newFace).getTreeEntry());
     return true;
 }
 
diff --git a/kernel/Base/TreeIterator.h b/kernel/Base/TreeIterator.h
index ce96767..07c651c 100644
--- a/kernel/Base/TreeIterator.h
+++ b/kernel/Base/TreeIterator.h
@@ -263,7 +263,8 @@ class TreeIterator {
         // more elaborate
         if (ptr_ != end_ && traversalMethod_ == i.traversalMethod_ &&
             i.ptr_ != i.end_) {
-            return *ptr_ == *i.ptr_;
+            // an entry may be visited once for every level it occupies
+            return *ptr_ == *i.ptr_ && depthCounter_ == i.depthCounter_;
         }
         // a == b implies ++a == ++b, and --a == --b implies a == b, but the
         // reverses are not required and having one end() for all
@@ -354,6 +355,12 @@ class TreeIterator {
         --depthCounter_;
     }
 
+    //! true if there is a deeper level below this position, occupied either by
+    //! this entry itself or by its children
+    bool canMoveDown() const {
+        return (*ptr_)->hasChild() || canIncreaseCounter();
+    }
+
     void setMaxDepthCounter() {
         depthCounter_ = (ptr_ == end_ ? 0 : (*ptr_)->getDepth() - 1);
     }
@@ -467,6 +474,8 @@ class TreeIterator {
                 // initially so if it fails this was the last on the level
                 *this = backup;
                 ++ptr_;
+                // remaining siblings (if any) do not reach this level
+                end_ = ptr_;
             } else {
                 end_ = (*ptr_)->getSiblings().end();
             }
@@ -478,6 +487,7 @@ class TreeIterator {
         if (ptr_ == end_) {
             // the increment operator made sure we end up at the back
             --ptr_;
+            end_ = (*ptr_)->getSiblings().end();
         } else {
             //--begin() is undefined so we don't have to care about restoring
             // the current position
@@ -501,7 +511,7 @@ class TreeIterator {
     }
 
     bool hasPreviousOnLevel() {
-        if (ptr_ == end_ || !(*ptr_)->isFirstSibling()) {
+        if (ptr_ == end_) {
             return true;
         }
         std::size_t level = (*ptr_)->getLevel() + depthCounter_;
@@ -510,8 +520,12 @@ class TreeIterator {
                (*duplicate.ptr_)->isFirstSibling()) {
             duplicate.moveToParent();
         }
-        return !(*duplicate.ptr_)->isFirstSibling() &&
-               (--duplicate).moveDownToLevelEnd(level);
+        if ((*duplicate.ptr_)->isFirstSibling()) {
+            return false;
+        }
+        --duplicate.ptr_;
+        duplicate.depthCounter_ = 0;
+        return duplicate.moveDownToLevelEnd(level);
     }
 
     //! move to next node in the pre-order traversal
@@ -526,7 +540,7 @@ class TreeIterator {
             }
             if ((*ptr_)->isLastSibling()) {
                 // move back to the final node before moving to end_
-                while ((*ptr_)->hasChild()) {
+                while (canMoveDown()) {
                     moveToChild((*ptr_)->getNumberOfChildren() - 1);
                 }
             }
@@ -540,7 +554,8 @@ class TreeIterator {
         if (ptr_ == end_ ||
             (!(*ptr_)->isFirstSibling() && depthCounter_ == 0)) {
             --ptr_;
-            while ((*ptr_)->hasChild()) {
+            depthCounter_ = 0;
+            while (canMoveDown()) {
                 moveToChild((*ptr_)->getNumberOfChildren() - 1);
             }
         } else {
@@ -557,7 +572,7 @@ class TreeIterator {
                             "can only increment dereferenceable iterators");
         if (!(*ptr_)->isLastSibling() && depthCounter_ == 0) {
             ++ptr_;
-            while ((*ptr_)->hasChild()) {
+            while (canMoveDown()) {
                 moveToChild(0);
             }
         } else if ((*ptr_)->isRoot() && depthCounter_ == 0) {
@@ -578,11 +593,13 @@ class TreeIterator {
             moveToChild((*ptr_)->getNumberOfChildren() - 1);
         } else if (ptr_ == end_) {
             --ptr_;
+            depthCounter_ = 0;
         } else {
             while ((*ptr_)->isFirstSibling()) {
                 moveToParent();
             }
             --ptr_;
+            depthCounter_ = 0;
         }
     }
 
@@ -605,10 +622,16 @@ class TreeIterator {
             "iterator has to be dereferenceable to be incrementable");
         moveToNextOnLevel();
         if (ptr_ == end_) {
+            TreeIterator backup = *this;
             --ptr_;
             std::size_t level = (*ptr_)->getLevel() + depthCounter_ + 1;
             // will move to end_ again if this was the last level
             moveToFirstOnLevel(level);
+            if (ptr_ == end_) {
+                // stay behind the last entry of the last level, so we can move
+                // back to it with --
+                *this = backup;
+            }
         }
     }
 
-- 
2.43.0


From 5475858cfc794d74c397e7f7c239ccc38300a93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:28 +0000
Subject: [PATCH 02/49] fix: assigning basis functions to one unknown clears
 what its faces, edges and nodes carried before

---
 kernel/Base/MeshManipulator.h      |  4 ++++
 kernel/Base/MeshManipulator_Impl.h | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/kernel/Base/MeshManipulator.h b/kernel/Base/MeshManipulator.h
index 4195724..d835d65 100644
--- a/kernel/Base/MeshManipulator.h
+++ b/kernel/Base/MeshManipulator.h
@@ -110,6 +110,10 @@ class MeshManipulator : public MeshManipulatorBase {
 
     void clearBasisFunctionAssignment();
 
+    /// Clear the number of basis functions that faces, edges and nodes carry
+    /// for a single unknown.
+    void clearBasisFunctionAssignment(std::size_t unknown);
+
     /// creates some cheap, easy to construct basis function set (monomials) to
     /// use as a placeholder Note that they usually result in very badly
     /// conditioned matrices.
diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index bdc0346..295fa47 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -118,6 +118,21 @@ void MeshManipulator<DIM>::clearBasisFunctionAssignment() {
     }
 }
 
+template <std::size_t DIM>
+void MeshManipulator<DIM>::clearBasisFunctionAssignment(std::size_t unknown) {
+    for (Base::Face *face : getFacesList(IteratorType::GLOBAL)) {
+        face->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    for (Base::Edge *edge : getEdgesList(IteratorType::GLOBAL)) {
+        edge->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    if (dimension_ > 1) {
+        for (Base::Node *node : getNodesList(IteratorType::GLOBAL)) {
+            node->setLocalNumberOfBasisFunctions(0, unknown);
+        }
+    }
+}
+
 template <std::size_t DIM>
 void MeshManipulator<DIM>::useMonomialBasisFunctions(std::size_t order) {
     FE::BasisFunctionSet *bFset1 = new FE::BasisFunctionSet(order);
@@ -239,6 +254,7 @@ void MeshManipulator<DIM>::useDefaultDGBasisFunctions(std::size_t order,
         "useDefaultDGBasisFunctions(std::size_t unknown) will not clear "
         "collBasisFSet_ of the default basis functions. Use "
         "useDefaultBasisFunctions() instead for the zeroth unknown.");
+    clearBasisFunctionAssignment(unknown);
     std::unordered_map<Geometry::ReferenceGeometryType, std::size_t,
                        EnumHash<Geometry::ReferenceGeometryType>>
         shapeToIndex;
@@ -712,6 +728,7 @@ void MeshManipulator<DIM>::useDefaultConformingBasisFunctions(
                         "supporting elements. Use a DG basis function on a "
                         "single element non-periodic mesh instead");
     // collBasisFSet_.clear();
+    clearBasisFunctionAssignment(unknown);
     std::unordered_map<Geometry::ReferenceGeometryType, std::size_t,
                        EnumHash<Geometry::ReferenceGeometryType>>
         shapeToElementIndex;
-- 
2.43.0


From 445d9d5ec311d4884d6ac8f188187eedbb2aae74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:40 +0000
Subject: [PATCH 03/49] fix: report the true order of the 35- and 56-point
 tetrahedron quadrature rules

The two Shunn-Ham rules are exact only up to order 6 and 8, not 7 and 9.
---
 .../Integration/QuadratureRules/AllGaussQuadratureRules.cpp   | 4 ++--
 .../QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp b/kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp
index 90b03e3..7379261 100644
--- a/kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp
+++ b/kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp
@@ -101,10 +101,10 @@ AllGaussQuadratureRules::AllGaussQuadratureRules() {
     addRule(&Tn3_3_10::Instance());
     addRule(&Tn3_4_14::Instance());
     addRule(&T3_5_14::Instance());
-    addRule(&T3_6_24::Instance());
     addRule(&T3_7_31::Instance());
-    addRule(&T3_8_43::Instance());
+    addRule(&T3_6_24::Instance());
     addRule(&T3_9_53::Instance());
+    addRule(&T3_8_43::Instance());
     addRule(&T3_10_126::Instance());
     //*************************TRIANGULARPRISM
     // QUADRATURES*****************************
diff --git a/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp b/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp
index 854c283..d1c63c7 100644
--- a/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp
+++ b/kernel/Integration/QuadratureRules/GaussQuadratureRulesForTetrahedron.cpp
@@ -399,7 +399,7 @@ T3_6_24::T3_6_24()
 // clang-format-off
 T3_7_31::T3_7_31()
     : StandardGaussQuadratureRule<3>(
-        "T3_7_35", 7, &Geometry::ReferenceTetrahedron::Instance(), {
+        "T3_7_35", 6, &Geometry::ReferenceTetrahedron::Instance(), {
         {0.0021900463965388 * TET_VOLUME, {0.0267367755543735,  0.0267367755543735,  0.0267367755543735}},
         {0.0021900463965388 * TET_VOLUME, {0.9197896733368800,  0.0267367755543735,  0.0267367755543735}},
         {0.0021900463965388 * TET_VOLUME, {0.0267367755543735,  0.9197896733368800,  0.0267367755543735}},
@@ -644,7 +644,7 @@ T3_8_43::T3_8_43()
 // clang-format-off
 T3_9_53::T3_9_53()
     : StandardGaussQuadratureRule<3>(
-        "T3_9_56", 9, &Geometry::ReferenceTetrahedron::Instance(),{
+        "T3_9_56", 8, &Geometry::ReferenceTetrahedron::Instance(),{
         // Source [2]
         {0.0010373112336140 * TET_VOLUME, {0.0149520651530592, 0.0149520651530592, 0.0149520651530592}},
         {0.0010373112336140 * TET_VOLUME, {0.9551438045408220, 0.0149520651530592, 0.0149520651530592}},
-- 
2.43.0


From 567ff7af5fc9630b54ba6a90343ebe546222d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:24 +0000
Subject: [PATCH 04/49] fix: conforming functions on the quadrilateral faces of
 prisms use the quadrilateral face functions

They were built from the functions of triangular faces (which reject these nodes) with node orders that do not match
the orientations of a tensor-ordered face.
---
 .../FE/BasisFunctions3DH1ConformingPrism.cpp  | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
index 47c9f3a..46ce2ed 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingPrism.cpp
@@ -695,72 +695,72 @@ std::vector<const OrientedBasisFunctionSet*>
         set = new OrientedBasisFunctionSet(order, 0, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[0], vectorOfPointIndexes[1],
-                    vectorOfPointIndexes[2], j, k));
+                    vectorOfPointIndexes[2], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 1, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[1], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[3], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[1], vectorOfPointIndexes[3],
+                    vectorOfPointIndexes[0], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 2, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[2], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[0], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[3], vectorOfPointIndexes[2],
+                    vectorOfPointIndexes[1], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 3, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[3], vectorOfPointIndexes[0],
-                    vectorOfPointIndexes[1], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[2], vectorOfPointIndexes[0],
+                    vectorOfPointIndexes[3], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 4, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[3], vectorOfPointIndexes[2],
-                    vectorOfPointIndexes[1], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[2], vectorOfPointIndexes[3],
+                    vectorOfPointIndexes[0], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 5, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
                     vectorOfPointIndexes[1], vectorOfPointIndexes[0],
-                    vectorOfPointIndexes[3], j, k));
+                    vectorOfPointIndexes[3], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 6, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[2], vectorOfPointIndexes[1],
-                    vectorOfPointIndexes[0], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[3], vectorOfPointIndexes[1],
+                    vectorOfPointIndexes[2], k, j));
             }
         }
         result.push_back(set);
         set = new OrientedBasisFunctionSet(order, 7, i);
         for (std::size_t j = 0; j + 2 <= order; ++j) {
             for (std::size_t k = 0; k + 2 <= order; ++k) {
-                set->addBasisFunction(new BasisFunction3DFacePrism_0(
-                    vectorOfPointIndexes[0], vectorOfPointIndexes[3],
-                    vectorOfPointIndexes[2], j, k));
+                set->addBasisFunction(new BasisFunction3DFacePrism_1(
+                    vectorOfPointIndexes[0], vectorOfPointIndexes[2],
+                    vectorOfPointIndexes[1], k, j));
             }
         }
         result.push_back(set);
-- 
2.43.0


From f816760acf68a8dfa44579bd803538f8cef9c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:24 +0000
Subject: [PATCH 05/49] fix: conforming face functions on cubes follow the
 orientation of the face

When a face is transposed the two polynomial orders have to be exchanged as well, and odd functions need the
same sign as on neighbouring prisms.
---
 .../FE/BasisFunctions3DH1ConformingCube.cpp   | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
index 6189249..fb4326a 100644
--- a/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
+++ b/kernel/FE/BasisFunctions3DH1ConformingCube.cpp
@@ -94,7 +94,7 @@ BasisFunction3DEdgeCube_0::BasisFunction3DEdgeCube_0(
         "This class is intended for edges aligned in the x-direction");
     edgePosition1_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
     edgePosition2_ = (static_cast<int>(node0) / 4) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_0::eval(
@@ -142,7 +142,7 @@ BasisFunction3DEdgeCube_1::BasisFunction3DEdgeCube_1(
         "This class is intended for edges aligned in the y-direction");
     edgePosition0_ = (static_cast<int>(node0) % 2) * 2 - 1;
     edgePosition2_ = (static_cast<int>(node0) / 4) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_1::eval(
@@ -190,7 +190,7 @@ BasisFunction3DEdgeCube_2::BasisFunction3DEdgeCube_2(
         "This class is intended for edges aligned in the z-direction");
     edgePosition0_ = (static_cast<int>(node0) % 2) * 2 - 1;
     edgePosition1_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
-    mirroring_ = node0 < node1 ? 1 : -1;
+    mirroring_ = node0 < node1 ? -1 : 1;
 }
 
 double BasisFunction3DEdgeCube_2::evalDeriv0(
@@ -238,9 +238,14 @@ BasisFunction3DFaceCube_0::BasisFunction3DFaceCube_0(
     logger.assert_debug(
         node0 % 2 == node2 % 2,
         "This class is intended for faces aligned in the x-direction");
-    mirroring1_ = node0 < node1 ? 1 : -1;  // choices about mirroring need only
+    mirroring1_ = node0 < node1 ? -1 : 1;  // choices about mirroring need only
                                            // be consistent for one face
-    mirroring2_ = node0 < node2 ? 1 : -1;
+    mirroring2_ = node0 < node2 ? -1 : 1;
+    if ((node0 / 2) % 2 == (node1 / 2) % 2) {
+        // node1 is the neighbour of node0 in the z-direction
+        std::swap(mirroring1_, mirroring2_);
+        std::swap(polynomialOrder1_, polynomialOrder2_);
+    }
     facePosition_ = (static_cast<int>(node0) % 2) * 2 - 1;
 }
 
@@ -290,8 +295,13 @@ BasisFunction3DFaceCube_1::BasisFunction3DFaceCube_1(
     logger.assert_debug(
         (node0 / 2) % 2 == (node2 / 2) % 2,
         "This class is intended for faces aligned in the y-direction");
-    mirroring0_ = node0 < node1 ? 1 : -1;
-    mirroring2_ = node0 < node2 ? 1 : -1;
+    mirroring0_ = node0 < node1 ? -1 : 1;
+    mirroring2_ = node0 < node2 ? -1 : 1;
+    if (node0 % 2 == node1 % 2) {
+        // node1 is the neighbour of node0 in the z-direction
+        std::swap(mirroring0_, mirroring2_);
+        std::swap(polynomialOrder0_, polynomialOrder2_);
+    }
     facePosition_ = ((static_cast<int>(node0) / 2) % 2) * 2 - 1;
 }
 
@@ -348,8 +358,13 @@ BasisFunction3DFaceCube_2::BasisFunction3DFaceCube_2(
     logger.assert_debug(
         node0 / 4 == node2 / 4,
         "This class is intended for faces aligned in the x-direction");
-    mirroring0_ = node0 < node1 ? 1 : -1;
-    mirroring1_ = node0 < node2 ? 1 : -1;
+    mirroring0_ = node0 < node1 ? -1 : 1;
+    mirroring1_ = node0 < node2 ? -1 : 1;
+    if (node0 % 2 == node1 % 2) {
+        // node1 is the neighbour of node0 in the y-direction
+        std::swap(mirroring0_, mirroring1_);
+        std::swap(polynomialOrder0_, polynomialOrder1_);
+    }
     facePosition_ = (static_cast<int>(node0) / 4) * 2 - 1;
 }
 
-- 
2.43.0


From a7867fb8afabd82c88cc5ecdf690e30c21f06f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:20 +0000
Subject: [PATCH 06/49] fix: stage times of RK2TVD, RK3TVD and Bogacki-Shampine
 match their tableaus

---
 kernel/Base/TimeIntegration/BogackiShampine.cpp | 2 +-
 kernel/Base/TimeIntegration/RK2TVD.cpp          | 2 +-
 kernel/Base/TimeIntegration/RK3TVD.cpp          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/Base/TimeIntegration/BogackiShampine.cpp b/kernel/Base/TimeIntegration/BogackiShampine.cpp
index 79e5dc5..4c48ddf 100644
--- a/kernel/Base/TimeIntegration/BogackiShampine.cpp
+++ b/kernel/Base/TimeIntegration/BogackiShampine.cpp
@@ -59,7 +59,7 @@ TimeIntegration::BogackiShampine::BogackiShampine() {
     b_ = {2. / 9., 1. / 3., 4. / 9., 0.};
     // second-order coefficients
     //{   7./24., 1./4., 1./3., 1./8.};
-    c_ = {0., 1. / 5., 3. / 10., 4. / 5., 8. / 9., 1., 1.};
+    c_ = {0., 1. / 2., 3. / 4., 1.};
     error_ = {
         2. / 9. - 7. / 24.,
         1. / 3. - 1. / 4.,
diff --git a/kernel/Base/TimeIntegration/RK2TVD.cpp b/kernel/Base/TimeIntegration/RK2TVD.cpp
index 30a8168..ab11efd 100644
--- a/kernel/Base/TimeIntegration/RK2TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK2TVD.cpp
@@ -58,7 +58,7 @@ RK2TVD::RK2TVD() {
     b_ = {0.5, 0.5};
     // first order coefficients
     //{1., 0.}
-    c_ = {0.0, 0.0};
+    c_ = {0.0, 1.0};
     error_ = {-0.5, 0.5};
 }
 
diff --git a/kernel/Base/TimeIntegration/RK3TVD.cpp b/kernel/Base/TimeIntegration/RK3TVD.cpp
index eb826bd..a0b950a 100644
--- a/kernel/Base/TimeIntegration/RK3TVD.cpp
+++ b/kernel/Base/TimeIntegration/RK3TVD.cpp
@@ -59,7 +59,7 @@ RK3TVD::RK3TVD() {
 
     // make b_ and c_
     b_ = {1.0 / 6.0, 1.0 / 6.0, 2.0 / 3.0};
-    c_ = {0.0, 0.0, 0.0};
+    c_ = {0.0, 1.0, 0.5};
 }
 
 std::size_t RK3TVD::getOrder() const { return order_; }
-- 
2.43.0


From 419565c550fb3ba3c1735463b220f4c99bfd254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:20 +0000
Subject: [PATCH 07/49] fix: products with a matrix without rows return an
 empty or zero result instead of ending the program

---
 kernel/LinearAlgebra/MiddleSizeMatrix.cpp | 26 +++++++++++------------
 kernel/LinearAlgebra/SmallMatrix_impl.h   | 24 ++++++++++-----------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
index e407b68..e0f6716 100644
--- a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
+++ b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
@@ -366,10 +366,10 @@ MiddleSizeMatrix MiddleSizeMatrix::operator*(const MiddleSizeMatrix& other) {
     logger.assert_debug(numberOfColumns_ == other.numberOfRows_,
                         "Inner dimensions not equal.");
 
-    if (numberOfColumns_ == 0) {
-        logger(
-            WARN,
-            "Trying to multiply a matrix with a matrix without any columns.");
+    if (numberOfRows_ == 0 || numberOfColumns_ == 0) {
+        logger(WARN,
+               "Trying to multiply a matrix with a matrix without any rows or "
+               "columns.");
         return MiddleSizeMatrix(numberOfRows_, other.getNumberOfColumns());
     }
     int i = numberOfRows_;
@@ -400,10 +400,10 @@ MiddleSizeMatrix MiddleSizeMatrix::operator*(
     logger.assert_debug(numberOfColumns_ == other.numberOfRows_,
                         "Inner dimensions are not the same.");
 
-    if (numberOfColumns_ == 0) {
-        logger(
-            WARN,
-            "Trying to multiply a matrix with a matrix without any columns.");
+    if (numberOfRows_ == 0 || numberOfColumns_ == 0) {
+        logger(WARN,
+               "Trying to multiply a matrix with a matrix without any rows or "
+               "columns.");
         return MiddleSizeMatrix(numberOfRows_, other.getNumberOfColumns());
     }
     int i = numberOfRows_;
@@ -939,11 +939,11 @@ MiddleSizeVector operator*(MiddleSizeVector& left, MiddleSizeMatrix& right) {
     logger.assert_debug(right.getNumberOfRows() == left.size(),
                         "Matrix-vector multiplication with mismatching sizes");
 
-    if (right.getNumberOfColumns() == 0) {
-        logger(
-            WARN,
-            "Trying to multiply a vector with a matrix without any columns.");
-        return MiddleSizeVector(0);
+    if (right.getNumberOfRows() == 0 || right.getNumberOfColumns() == 0) {
+        logger(WARN,
+               "Trying to multiply a vector with a matrix without any rows or "
+               "columns.");
+        return MiddleSizeVector(right.getNumberOfColumns());
     }
     int nr = right.getNumberOfRows();
     int nc = right.getNumberOfColumns();
diff --git a/kernel/LinearAlgebra/SmallMatrix_impl.h b/kernel/LinearAlgebra/SmallMatrix_impl.h
index da5407d..f59b118 100644
--- a/kernel/LinearAlgebra/SmallMatrix_impl.h
+++ b/kernel/LinearAlgebra/SmallMatrix_impl.h
@@ -138,10 +138,10 @@ SmallMatrix<numberOfRows, K>
     int j = numberOfColumns;
     int k = K;
 
-    if (numberOfColumns == 0) {
-        logger(
-            WARN,
-            "Trying to multiply a matrix with a matrix without any columns.");
+    if (numberOfRows == 0 || numberOfColumns == 0) {
+        logger(WARN,
+               "Trying to multiply a matrix with a matrix without any rows or "
+               "columns.");
         return SmallMatrix<numberOfRows, K>();
     }
     // The result of the matrix is left.numberOfRows, right.numberOfColumns()
@@ -166,10 +166,10 @@ SmallMatrix<numberOfRows, K>
     int j = numberOfColumns;
     int k = K;
 
-    if (numberOfColumns == 0) {
-        logger(
-            WARN,
-            "Trying to multiply a matrix with a matrix without any columns.");
+    if (numberOfRows == 0 || numberOfColumns == 0) {
+        logger(WARN,
+               "Trying to multiply a matrix with a matrix without any rows or "
+               "columns.");
         return SmallMatrix<numberOfRows, K>();
     }
     // The result of the matrix is left.Nrows, right.NCols()
@@ -398,10 +398,10 @@ template <std::size_t numberOfRows, std::size_t numberOfColumns>
 SmallVector<numberOfColumns> operator*(
     SmallVector<numberOfRows>& vec,
     SmallMatrix<numberOfRows, numberOfColumns>& mat) {
-    if (numberOfColumns == 0) {
-        logger(
-            WARN,
-            "Trying to multiply a vector with a matrix without any columns.");
+    if (numberOfRows == 0 || numberOfColumns == 0) {
+        logger(WARN,
+               "Trying to multiply a vector with a matrix without any rows or "
+               "columns.");
         return SmallVector<numberOfColumns>();
     }
     int nr = numberOfRows;
-- 
2.43.0


From 35dd7f02b9b987342c963d4ccaed84553156f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:20 +0000
Subject: [PATCH 08/49] fix: pseudoSolve passes LAPACK its real work array and
 handles matrices that are not square

---
 kernel/LinearAlgebra/MiddleSizeMatrix.cpp | 26 ++++++++++++++++-------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
index e0f6716..969c363 100644
--- a/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
+++ b/kernel/LinearAlgebra/MiddleSizeMatrix.cpp
@@ -125,7 +125,8 @@ void dgelss_(int* m, int* n, int* nrhs, double* A, int* lda, double* B,
              int* lWork, int* info);
 void zgelss_(int* m, int* n, int* nrhs, std::complex<double>* A, int* lda,
              std::complex<double>* B, int* ldb, double* s, double* rCond,
-             int* rank, std::complex<double>* work, int* lWork, int* info);
+             int* rank, std::complex<double>* work, int* lWork, double* rWork,
+             int* info);
 }
 
 MiddleSizeMatrix::MiddleSizeMatrix() : numberOfRows_(0), numberOfColumns_(0) {}
@@ -889,21 +890,30 @@ void MiddleSizeMatrix::solveLowerTriangular(MiddleSizeVector& B, Side side,
 /// \param[in] rCond Double precision value used to determine the effective rank
 /// of A. Singular values S(i) <= rCond*S(1) are treated as zero.
 void MiddleSizeMatrix::pseudoSolve(MiddleSizeVector& b, double rCond) const {
+    logger.assert_debug(
+        numberOfRows_ == b.size(),
+        "size of the RHS does not match the size of the matrix");
     MiddleSizeMatrix A = *this;
-    int n = int(A.getNumberOfRows());
+    int m = int(A.getNumberOfRows());
+    int n = int(A.getNumberOfColumns());
     int nRHS = 1;
-    std::vector<double> s(n);
+    int ldb = std::max(m, n);
+    // LAPACK needs room for both the right hand side and the solution
+    b.resize(ldb);
+    std::vector<double> s(std::min(m, n));
     int rank = 0;
-    int lWork = n * 10;
+    int lWork = ldb * 10;
     LinearAlgebra::MiddleSizeVector work(lWork);
     int info = 0;
 #ifdef HPGEM_USE_COMPLEX_PETSC
-    zgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
-            work.data(), &lWork, &info);
+    std::vector<double> rWork(5 * std::min(m, n));
+    zgelss_(&m, &n, &nRHS, A.data(), &m, b.data(), &ldb, s.data(), &rCond,
+            &rank, work.data(), &lWork, rWork.data(), &info);
 #else
-    dgelss_(&n, &n, &nRHS, A.data(), &n, b.data(), &n, s.data(), &rCond, &rank,
-            work.data(), &lWork, &info);
+    dgelss_(&m, &n, &nRHS, A.data(), &m, b.data(), &ldb, s.data(), &rCond,
+            &rank, work.data(), &lWork, &info);
 #endif
+    b.resize(n);
 }
 
 MiddleSizeMatrix::type* MiddleSizeMatrix::data() { return data_.data(); }
-- 
2.43.0


From c3480b45ff43951efcc93f9b354440230c51852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:18 +0000
Subject: [PATCH 09/49] fix: numeric command line options reject values that
 are not a number of their type

---
 kernel/Base/CommandLineOptions.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kernel/Base/CommandLineOptions.h b/kernel/Base/CommandLineOptions.h
index 0bfdc35..1312d8d 100644
--- a/kernel/Base/CommandLineOptions.h
+++ b/kernel/Base/CommandLineOptions.h
@@ -148,10 +148,14 @@ typename std::enable_if<
     std::is_arithmetic<T>::value && !std::is_same<T, bool>::value, T>::type
     parse_argument(CLOParser& p) {
     ++p;
-    std::istringstream arg(*p);
+    std::string text(*p);
+    std::istringstream arg(text);
     T retVal = 0;
     arg >> retVal;
-    if (!arg.eof()) {
+    // a stream would wrap a negative number into a large unsigned one
+    bool negative =
+        std::is_unsigned<T>::value && text.find('-') != std::string::npos;
+    if (arg.fail() || !arg.eof() || negative) {
         std::string error = "Argument could not be converted to ";
         if (std::is_unsigned<T>::value) error += "unsigned ";
 
-- 
2.43.0


From f20a0c0d877c20ccf41151df605e22ef786b7da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:16 +0000
Subject: [PATCH 10/49] fix: face indices of the right element start after all
 functions of the left element

Face::convertToSingleIndex offset the functions of the right element by the
number of functions local to the left element, which excludes conforming
functions, so that left and right indices collided and did not match
getSide and getElementBasisFunctionId.
---
 kernel/Base/Face.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Base/Face.cpp b/kernel/Base/Face.cpp
index e0533c2..046b73b 100644
--- a/kernel/Base/Face.cpp
+++ b/kernel/Base/Face.cpp
@@ -243,7 +243,7 @@ std::size_t Face::convertToSingleIndex(Side side,
         scalarBasisFunctionId,
         getPtrElementRight()->getNumberOfBasisFunctions(varId));
     std::size_t nDOFLeft =
-        getPtrElementLeft()->getTotalLocalNumberOfBasisFunctions();
+        getPtrElementLeft()->getTotalNumberOfBasisFunctions();
     return nDOFLeft + number + scalarBasisFunctionId;
 }
 
-- 
2.43.0


From 900d388ce14ba98123b59ed22e38730aa8abfa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:51 +0000
Subject: [PATCH 11/49] fix: cross products of one side of a face call the
 cross product overloads

---
 kernel/Base/PhysicalFace_Impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 5bda610..6fdd3e8 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -428,11 +428,11 @@ inline void PhysicalFace<DIM>::basisFunctionNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionNormal(i, result);
+        return basisFunctionNormalCross(i, result);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionNormal(i + nLeftBasisFunctions[0], result);
+    return basisFunctionNormalCross(i + nLeftBasisFunctions[0], result);
 }
 
 template <std::size_t DIM>
@@ -442,11 +442,11 @@ inline void PhysicalFace<DIM>::basisFunctionNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionNormal(i, result, unknown);
+        return basisFunctionNormalCross(i, result, unknown);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionNormal(i + nLeftBasisFunctions[unknown], result,
+    return basisFunctionNormalCross(i + nLeftBasisFunctions[unknown], result,
                                unknown);
 }
 
@@ -536,11 +536,11 @@ inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionUnitNormal(i, result);
+        return basisFunctionUnitNormalCross(i, result);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionUnitNormal(i + nLeftBasisFunctions[0], result);
+    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[0], result);
 }
 template <std::size_t DIM>
 inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
@@ -549,11 +549,11 @@ inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
     logger.assert_debug(hasPointReference && hasFace,
                         "Need a location to evaluate the data");
     if (side == Side::LEFT) {
-        return basisFunctionUnitNormal(i, result, unknown);
+        return basisFunctionUnitNormalCross(i, result, unknown);
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionUnitNormal(i + nLeftBasisFunctions[unknown], result,
+    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[unknown], result,
                                    unknown);
 }
 
-- 
2.43.0


From 26a6fc5f34c182bb6dd61def8eccbacbf4d87755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:51 +0000
Subject: [PATCH 12/49] fix: products with the normal use the basis functions
 of the requested unknown

---
 kernel/Base/PhysicalFace_Impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 6fdd3e8..a95d65d 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -156,7 +156,8 @@ inline const LinearAlgebra::SmallVector<DIM>&
 
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
-        basisFunctionNormal_[unknown][j] = getNormalVector() * basisFunction(j);
+        basisFunctionNormal_[unknown][j] =
+            getNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionNormal_[unknown][j] *= -1.;
         }
@@ -228,7 +229,7 @@ inline const LinearAlgebra::SmallVector<DIM>&
     for (std::size_t j = 0; j < face_->getNumberOfBasisFunctions(unknown);
          ++j) {
         basisFunctionUnitNormal_[unknown][j] =
-            getUnitNormalVector() * basisFunction(j);
+            getUnitNormalVector() * basisFunction(j, unknown);
         if (j >= nLeftBasisFunctions[unknown]) {
             basisFunctionUnitNormal_[unknown][j] *= -1.;
         }
-- 
2.43.0


From ad636f1b68872b732548f8f3e2e93c0eb1c2b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:09 +0000
Subject: [PATCH 13/49] fix: a face view adapts to the number of basis
 functions of each new face

---
 kernel/Base/PhysicalFace_Impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index a95d65d..e2fbb66 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -846,7 +846,8 @@ inline void PhysicalFace<DIM>::setFace(const Face* face) {
                         "This face is not supported by this physical face");
     std::size_t numberOfUnknowns =
         face->getPtrElementLeft()->getNumberOfUnknowns();
-    if (!hasFace) {
+    {
+        // the next face can have other numbers of basis functions
         std::size_t leftCoefficients =
             face->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
         nLeftBasisFunctions.resize(numberOfUnknowns);
-- 
2.43.0


From cf8ee75c9ff72b6d9e5f3232b3f7bd3b904f138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:09 +0000
Subject: [PATCH 14/49] fix: a face view uses the maps of its current face for
 quadrature points

---
 kernel/Base/PhysicalFace_Impl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index e2fbb66..9c091ec 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -888,6 +888,11 @@ inline void PhysicalFace<DIM>::setFace(const Face* face) {
     }
     face_ = face;
     hasFace = true;
+    // a quadrature rule that was set before is from now on used on this face
+    mapToLeftElement = face_->refFaceToRefElemMapL();
+    if (isInternal_) {
+        mapToRightElement = face_->refFaceToRefElemMapR();
+    }
     left.setElement(face->getPtrElementLeft());
     if (isInternal_) {
         right.setElement(face->getPtrElementRight());
-- 
2.43.0


From 293505b1fdb6412947787e043a07223c859e1006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:09 +0000
Subject: [PATCH 15/49] fix: the point of a view can be set before its element
 or face

---
 kernel/Base/PhysicalElement_Impl.h | 2 +-
 kernel/Base/PhysicalFace_Impl.h    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Base/PhysicalElement_Impl.h b/kernel/Base/PhysicalElement_Impl.h
index ffbeafb..9b55e00 100644
--- a/kernel/Base/PhysicalElement_Impl.h
+++ b/kernel/Base/PhysicalElement_Impl.h
@@ -626,7 +626,7 @@ inline void PhysicalElement<DIM>::setPointReference(
     hasQuadratureRule = false;
     hasPointReference = true;
     // even if they are already computed, the information is now out of date
-    std::size_t unknowns = theElement_->getNumberOfUnknowns();
+    std::size_t unknowns = hasElement ? theElement_->getNumberOfUnknowns() : 0;
     hasFunctionValue.assign(unknowns, false);
     hasVectorFunctionValue.assign(unknowns, false);
     hasFunctionDeriv.assign(unknowns, false);
diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index 9c091ec..b2946db 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -807,7 +807,8 @@ inline void PhysicalFace<DIM>::setPointReference(
         }
     }
     // even if they are already computed, the information is now out of date
-    std::size_t unknowns = face_->getPtrElementLeft()->getNumberOfUnknowns();
+    std::size_t unknowns =
+        hasFace ? face_->getPtrElementLeft()->getNumberOfUnknowns() : 0;
     hasBasisFunctionNormal.assign(unknowns, false);
     hasBasisFunctionUnitNormal.assign(unknowns, false);
     hasVectorBasisFunctionNormal.assign(unknowns, false);
-- 
2.43.0


From 88ae3d28cd5aa71c0d51ee27cda79c42b5030f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:46 +0000
Subject: [PATCH 16/49] fix: solutions are evaluated with the basis functions
 of each unknown

Unknowns without a coordinate transformation of their own use that of the
first unknown.
---
 kernel/Base/Element.h              |  4 +-
 kernel/Base/PhysicalElement_Impl.h | 70 +++++++++++++++++-------------
 kernel/Base/PhysicalFace_Impl.h    | 26 ++++++-----
 3 files changed, 57 insertions(+), 43 deletions(-)

diff --git a/kernel/Base/Element.h b/kernel/Base/Element.h
index 6eec26d..508466b 100644
--- a/kernel/Base/Element.h
+++ b/kernel/Base/Element.h
@@ -787,7 +787,7 @@ Element::SolutionVector Element::getSolution(
         numberOfBasisFunctions[iV] = ElementData::getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            solution[iV] += data(iVB) * basisFunction(iB, p);
+            solution[iV] += data(iVB) * basisFunction(iB, p, iV);
         }
     }
     return solution;
@@ -813,7 +813,7 @@ std::vector<LinearAlgebra::SmallVector<DIM>> Element::getSolutionGradient(
         numberOfBasisFunctions[iV] = ElementData::getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            auto derivative = basisFunctionDeriv(iB, p);
+            auto derivative = basisFunctionDeriv(iB, p, iV);
             jacobean.solve(derivative);
             solution[iV] += data(iVB) * derivative;
         }
diff --git a/kernel/Base/PhysicalElement_Impl.h b/kernel/Base/PhysicalElement_Impl.h
index 9b55e00..d246ed8 100644
--- a/kernel/Base/PhysicalElement_Impl.h
+++ b/kernel/Base/PhysicalElement_Impl.h
@@ -100,20 +100,24 @@ inline double PhysicalElement<DIM>::basisFunction(std::size_t i,
          ++j) {
         if (hasQuadratureRule) {
             if (doesMapQuadraturePointFromFace) {
-                basisFunctionValue[unknown][j] = transform_[unknown]->transform(
-                    theElement_->basisFunction(j, quadratureRule_,
-                                               quadraturePointIndex_,
-                                               faceToElementMap_, unknown),
-                    *this);
+                basisFunctionValue[unknown][j] =
+                    getTransformation(unknown)->transform(
+                        theElement_->basisFunction(j, quadratureRule_,
+                                                   quadraturePointIndex_,
+                                                   faceToElementMap_, unknown),
+                        *this);
             } else {
-                basisFunctionValue[unknown][j] = transform_[unknown]->transform(
-                    theElement_->basisFunction(j, quadratureRule_,
-                                               quadraturePointIndex_, unknown),
-                    *this);
+                basisFunctionValue[unknown][j] =
+                    getTransformation(unknown)->transform(
+                        theElement_->basisFunction(
+                            j, quadratureRule_, quadraturePointIndex_, unknown),
+                        *this);
             }
         } else {
-            basisFunctionValue[unknown][j] = transform_[unknown]->transform(
-                theElement_->basisFunction(j, pointReference_, unknown), *this);
+            basisFunctionValue[unknown][j] =
+                getTransformation(unknown)->transform(
+                    theElement_->basisFunction(j, pointReference_, unknown),
+                    *this);
         }
     }
     return basisFunctionValue[unknown][i];
@@ -167,21 +171,21 @@ inline const LinearAlgebra::SmallVector<DIM>&
         if (hasQuadratureRule) {
             if (doesMapQuadraturePointFromFace) {
                 basisFunctionDeriv_[unknown][j] =
-                    transform_[unknown]->transformDeriv(
+                    getTransformation(unknown)->transformDeriv(
                         theElement_->basisFunctionDeriv<DIM>(
                             j, quadratureRule_, quadraturePointIndex_,
                             faceToElementMap_, unknown),
                         *this);
             } else {
                 basisFunctionDeriv_[unknown][j] =
-                    transform_[unknown]->transformDeriv(
+                    getTransformation(unknown)->transformDeriv(
                         theElement_->basisFunctionDeriv<DIM>(
                             j, quadratureRule_, quadraturePointIndex_, unknown),
                         *this);
             }
         } else {
             basisFunctionDeriv_[unknown][j] =
-                transform_[unknown]->transformDeriv(
+                getTransformation(unknown)->transformDeriv(
                     theElement_->basisFunctionDeriv(j, pointReference_,
                                                     unknown),
                     *this);
@@ -247,14 +251,14 @@ inline void PhysicalElement<DIM>::basisFunction(
                         faceToElementMap_, vectorBasisFunctionValue[unknown][j],
                         unknown);
                     vectorBasisFunctionValue[unknown][j] =
-                        transform_[unknown]->transform(
+                        getTransformation(unknown)->transform(
                             vectorBasisFunctionValue[unknown][j], *this);
                 } else {
                     theElement_->basisFunction(
                         j, quadratureRule_, quadraturePointIndex_,
                         vectorBasisFunctionValue[unknown][j], unknown);
                     vectorBasisFunctionValue[unknown][j] =
-                        transform_[unknown]->transform(
+                        getTransformation(unknown)->transform(
                             vectorBasisFunctionValue[unknown][j], *this);
                 }
             } else {
@@ -262,7 +266,7 @@ inline void PhysicalElement<DIM>::basisFunction(
                                            vectorBasisFunctionValue[unknown][j],
                                            unknown);
                 vectorBasisFunctionValue[unknown][j] =
-                    transform_[unknown]->transform(
+                    getTransformation(unknown)->transform(
                         vectorBasisFunctionValue[unknown][j], *this);
             }
         }
@@ -318,22 +322,23 @@ inline const LinearAlgebra::SmallVector<DIM>&
         if (hasQuadratureRule) {
             if (doesMapQuadraturePointFromFace) {
                 basisFunctionCurl_[unknown][j] =
-                    transform_[unknown]->transformCurl(
+                    getTransformation(unknown)->transformCurl(
                         theElement_->basisFunctionCurl<DIM>(
                             j, quadratureRule_, quadraturePointIndex_,
                             faceToElementMap_, unknown),
                         *this);
             } else {
                 basisFunctionCurl_[unknown][j] =
-                    transform_[unknown]->transformCurl(
+                    getTransformation(unknown)->transformCurl(
                         theElement_->basisFunctionCurl<DIM>(
                             j, quadratureRule_, quadraturePointIndex_, unknown),
                         *this);
             }
         } else {
-            basisFunctionCurl_[unknown][j] = transform_[unknown]->transformCurl(
-                theElement_->basisFunctionCurl(j, pointReference_, unknown),
-                *this);
+            basisFunctionCurl_[unknown][j] =
+                getTransformation(unknown)->transformCurl(
+                    theElement_->basisFunctionCurl(j, pointReference_, unknown),
+                    *this);
         }
     }
     return basisFunctionCurl_[unknown][i];
@@ -383,22 +388,23 @@ inline const double& PhysicalElement<DIM>::basisFunctionDiv(
         if (hasQuadratureRule) {
             if (doesMapQuadraturePointFromFace) {
                 basisFunctionDiv_[unknown][j] =
-                    transform_[unknown]->transformDiv(
+                    getTransformation(unknown)->transformDiv(
                         theElement_->basisFunctionDiv(
                             j, quadratureRule_, quadraturePointIndex_,
                             faceToElementMap_, unknown),
                         *this);
             } else {
                 basisFunctionDiv_[unknown][j] =
-                    transform_[unknown]->transformDiv(
+                    getTransformation(unknown)->transformDiv(
                         theElement_->basisFunctionDiv(
                             j, quadratureRule_, quadraturePointIndex_, unknown),
                         *this);
             }
         } else {
-            basisFunctionDiv_[unknown][j] = transform_[unknown]->transformDiv(
-                theElement_->basisFunctionDiv(j, pointReference_, unknown),
-                *this);
+            basisFunctionDiv_[unknown][j] =
+                getTransformation(unknown)->transformDiv(
+                    theElement_->basisFunctionDiv(j, pointReference_, unknown),
+                    *this);
         }
     }
     return basisFunctionDiv_[unknown][i];
@@ -429,7 +435,7 @@ inline const LinearAlgebra::MiddleSizeVector&
         numberOfBasisFunctions[iV] = theElement_->getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVb = theElement_->convertToSingleIndex(iB, iV);
-            solution[iV] += data(iVb) * basisFunction(iB);
+            solution[iV] += data(iVb) * basisFunction(iB, iV);
         }
     }
     return solution;
@@ -459,7 +465,7 @@ inline const std::vector<LinearAlgebra::SmallVector<DIM> >&
         numberOfBasisFunctions[iV] = theElement_->getNumberOfBasisFunctions(iV);
         for (std::size_t iB = 0; iB < numberOfBasisFunctions[iV]; ++iB) {
             iVB = convertToSingleIndex(iB, iV);
-            solutionDeriv[iV] += data(iVB) * basisFunctionDeriv(iB);
+            solutionDeriv[iV] += data(iVB) * basisFunctionDeriv(iB, iV);
         }
     }
     return solutionDeriv;
@@ -616,7 +622,11 @@ inline const Base::CoordinateTransformation<DIM>*
     PhysicalElement<DIM>::getTransformation(std::size_t unknown) {
     logger.assert_debug(unknown < theElement_->getNumberOfUnknowns(),
                         "Unknown % does not exist", unknown);
-    return transform_[unknown].get();
+    // unknowns without their own transformation share that of the first unknown
+    if (unknown < transform_.size() && transform_[unknown] != nullptr) {
+        return transform_[unknown].get();
+    }
+    return transform_[0].get();
 }
 
 template <std::size_t DIM>
diff --git a/kernel/Base/PhysicalFace_Impl.h b/kernel/Base/PhysicalFace_Impl.h
index b2946db..2085a8f 100644
--- a/kernel/Base/PhysicalFace_Impl.h
+++ b/kernel/Base/PhysicalFace_Impl.h
@@ -69,7 +69,7 @@ inline double PhysicalFace<DIM>::basisFunction(std::size_t i,
     double value =
         right.basisFunction(i - nLeftBasisFunctions[unknown], unknown);
     if (requiresTransformation) {
-        value = transform_[unknown]->transform(value, rightVectorTransform);
+        value = getTransform(unknown)->transform(value, rightVectorTransform);
     }
     return value;
 }
@@ -102,7 +102,7 @@ inline double PhysicalFace<DIM>::basisFunction(Side side, std::size_t i,
                         "cannot find the right element for a boundary face");
     double value = right.basisFunction(i, unknown);
     if (requiresTransformation) {
-        value = transform_[unknown]->transform(value, rightVectorTransform);
+        value = getTransform(unknown)->transform(value, rightVectorTransform);
     }
     return value;
 }
@@ -293,7 +293,7 @@ inline void PhysicalFace<DIM>::basisFunction(
     logger.assert_debug(isInternal_, "basis function index out of bounds");
     right.basisFunction(i - nLeftBasisFunctions[unknown], result, unknown);
     if (requiresTransformation) {
-        result = transform_[unknown]->transform(result, rightVectorTransform);
+        result = getTransform(unknown)->transform(result, rightVectorTransform);
     }
     return;
 }
@@ -329,7 +329,7 @@ inline void PhysicalFace<DIM>::basisFunction(
         right.basisFunction(i, result, unknown);
         if (requiresTransformation) {
             result =
-                transform_[unknown]->transform(result, rightVectorTransform);
+                getTransform(unknown)->transform(result, rightVectorTransform);
         }
     }
 }
@@ -448,7 +448,7 @@ inline void PhysicalFace<DIM>::basisFunctionNormalCross(
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
     return basisFunctionNormalCross(i + nLeftBasisFunctions[unknown], result,
-                               unknown);
+                                    unknown);
 }
 
 template <std::size_t DIM>
@@ -554,8 +554,8 @@ inline void PhysicalFace<DIM>::basisFunctionUnitNormalCross(
     }
     logger.assert_debug(isInternal_,
                         "cannot find the right element for a boundary face");
-    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[unknown], result,
-                                   unknown);
+    return basisFunctionUnitNormalCross(i + nLeftBasisFunctions[unknown],
+                                        result, unknown);
 }
 
 template <std::size_t DIM>
@@ -792,7 +792,11 @@ inline const CoordinateTransformation<DIM>* PhysicalFace<DIM>::getTransform() {
 template <std::size_t DIM>
 inline const CoordinateTransformation<DIM>* PhysicalFace<DIM>::getTransform(
     std::size_t unknown) {
-    return transform_[unknown].get();
+    // unknowns without their own transformation share that of the first unknown
+    if (unknown < transform_.size() && transform_[unknown] != nullptr) {
+        return transform_[unknown].get();
+    }
+    return transform_[0].get();
 }
 
 template <std::size_t DIM>
@@ -1036,7 +1040,7 @@ void PhysicalFace<DIM>::computeBasisFunctionDeriv(
         } else {
             values[i] = right.basisFunctionDeriv(i - nLeft, unknown);
             if (requiresTransformation) {
-                values[i] = transform_[unknown]->transformDeriv(
+                values[i] = getTransform(unknown)->transformDeriv(
                     values[i], rightVectorTransform);
             }
         }
@@ -1055,7 +1059,7 @@ void PhysicalFace<DIM>::computeBasisFunctionCurl(
         } else {
             values[i] = right.basisFunctionCurl(i - nLeft, unknown);
             if (requiresTransformation) {
-                values[i] = transform_[unknown]->transformCurl(
+                values[i] = getTransform(unknown)->transformCurl(
                     values[i], rightVectorTransform);
             }
         }
@@ -1075,7 +1079,7 @@ void PhysicalFace<DIM>::computeBasisFunctionDiv(std::vector<double>& values,
         } else {
             values[i] = right.basisFunctionDiv(i - nLeft, unknown);
             if (requiresTransformation) {
-                values[i] = transform_[unknown]->transformDiv(
+                values[i] = getTransform(unknown)->transformDiv(
                     values[i], rightVectorTransform);
             }
         }
-- 
2.43.0


From d6c1c50955a1fa7037a30806948f7aeb242e4156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:57 +0000
Subject: [PATCH 17/49] fix: copies of a preprocessor mesh keep the zone names,
 assignments return

---
 applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h b/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h
index 960fecd..47f88a8 100644
--- a/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h
+++ b/applications/Preprocessor/lib/mesh/MeshImpl/Mesh.h
@@ -71,7 +71,8 @@ class Mesh {
     Mesh(const Mesh& other)
         : elementsList(other.elementsList),
           coordinates(other.coordinates),
-          meshEntities(other.meshEntities) {
+          meshEntities(other.meshEntities),
+          zoneNames(other.zoneNames) {
         for (auto& element : elementsList) {
             element.mesh = this;
         }
@@ -81,7 +82,8 @@ class Mesh {
     Mesh(Mesh&& other)
         : elementsList(std::move(other.elementsList)),
           coordinates(std::move(other.coordinates)),
-          meshEntities(std::move(other.meshEntities)) {
+          meshEntities(std::move(other.meshEntities)),
+          zoneNames(std::move(other.zoneNames)) {
         for (auto& element : elementsList) {
             element.mesh = this;
         }
@@ -92,20 +94,24 @@ class Mesh {
         elementsList = other.elementsList;
         coordinates = other.coordinates;
         meshEntities = other.meshEntities;
+        zoneNames = other.zoneNames;
         for (auto& element : elementsList) {
             element.mesh = this;
         }
         copyEntities(tag<dimension>{});
+        return *this;
     }
 
     Mesh& operator=(Mesh&& other) {
         elementsList = std::move(other.elementsList);
         coordinates = std::move(other.coordinates);
         meshEntities = std::move(other.meshEntities);
+        zoneNames = std::move(other.zoneNames);
         for (auto& element : elementsList) {
             element.mesh = this;
         }
         copyEntities(tag<dimension>{});
+        return *this;
     }
 
     // Elements //
-- 
2.43.0


From e114522fb79316b4e68f5c665d0f6c7969998c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:56 +0000
Subject: [PATCH 18/49] fix: merge all entities that are mapped to the same
 coordinates

---
 applications/Preprocessor/lib/MergePlan.h | 24 ++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/applications/Preprocessor/lib/MergePlan.h b/applications/Preprocessor/lib/MergePlan.h
index f4d2de2..a8434aa 100644
--- a/applications/Preprocessor/lib/MergePlan.h
+++ b/applications/Preprocessor/lib/MergePlan.h
@@ -264,7 +264,7 @@ class MergePlan {
      *   Indexed by the coordinate ids of the nodes as th
      */
     template <std::size_t d>
-    static std::map<std::set<CoordId>, EntityGId> findLeftCandidates(
+    static std::multimap<std::set<CoordId>, EntityGId> findLeftCandidates(
         const std::map<CoordId, CoordId>& pairing,
         const MergeElements& elements);
 
@@ -397,7 +397,7 @@ void MergePlan<dimension>::computeMergePlanLevels(
 
     // Eligible left-entities, indexed by the mapped coordinates (i.e.
     // coordinates in the right set).
-    std::map<std::set<CoordId>, EntityGId> leftCandidates =
+    std::multimap<std::set<CoordId>, EntityGId> leftCandidates =
         findLeftCandidates<d>(pairing, elements);
 
     logger(DEBUG, "Found % left candidates of dimension %",
@@ -422,8 +422,9 @@ void MergePlan<dimension>::computeMergePlanLevels(
                     return rightElement.getCoordinateIndex(nodeNumber);
                 });
 
-            auto candidateIter = leftCandidates.find(rightCoords);
-            if (candidateIter != leftCandidates.end()) {
+            auto candidates = leftCandidates.equal_range(rightCoords);
+            for (auto candidateIter = candidates.first;
+                 candidateIter != candidates.second; ++candidateIter) {
                 // A matching left element is found.
                 EntityGId leftEntity = candidateIter->second;
                 EntityGId rightEntity =
@@ -443,11 +444,13 @@ void MergePlan<dimension>::computeMergePlanLevels(
 
 template <std::size_t dimension>
 template <std::size_t d>
-std::map<std::set<CoordId>, EntityGId> MergePlan<dimension>::findLeftCandidates(
-    const std::map<CoordId, CoordId>& pairing, const MergeElements& elements) {
+std::multimap<std::set<CoordId>, EntityGId>
+    MergePlan<dimension>::findLeftCandidates(
+        const std::map<CoordId, CoordId>& pairing,
+        const MergeElements& elements) {
     // Eligible left-entities, indexed by the mapped coordinates (i.e.
     // coordinates in the right set).
-    std::map<std::set<CoordId>, EntityGId> leftCandidates;
+    std::multimap<std::set<CoordId>, EntityGId> leftCandidates;
 
     elements.template forEachBoundingEntity<d>(
         true, [&](const Element<dimension>& leftElement, EntityLId lid) {
@@ -485,8 +488,11 @@ std::map<std::set<CoordId>, EntityGId> MergePlan<dimension>::findLeftCandidates(
                     "coordinate. This is not supported by hpgem.");
                 return;
             }
-            leftCandidates[rightCoords] =
-                leftElement.template getIncidentEntityIndex<d>(lid);
+            // Several entities may map to the same coordinates, each of them
+            // is a candidate.
+            leftCandidates.emplace(
+                rightCoords,
+                leftElement.template getIncidentEntityIndex<d>(lid));
         });
     return leftCandidates;
 }
-- 
2.43.0


From 9f54367888b04e91b4579d3672074cd2215a6b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:18 +0000
Subject: [PATCH 19/49] fix: write the right coordinate when an element touches
 a periodic node more than once

---
 applications/Preprocessor/lib/output_impl.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/output_impl.h b/applications/Preprocessor/lib/output_impl.h
index 82fb591..2800254 100644
--- a/applications/Preprocessor/lib/output_impl.h
+++ b/applications/Preprocessor/lib/output_impl.h
@@ -178,10 +178,19 @@ void outputMesh(Mesh<dimension>& mesh,
     output << "elements" << std::endl;
     for (auto element : mesh.getElements()) {
         output << element.getNumberOfNodes() << " ";
+        std::size_t localIndex = 0;
         for (auto node : element.getNodesList()) {
             output << node.getGlobalIndex().id << " ";
-            output << coordinateIndices[node][node.getElementIndex(element)]
-                   << " ";
+            // With periodic boundaries a node can occur several times on the
+            // same element, so match on the local index as well.
+            for (std::size_t i = 0; i < node.getNumberOfElements(); ++i) {
+                if (node.getElement(i).getGlobalIndex() ==
+                        element.getGlobalIndex() &&
+                    node.getLocalIndex(i).id == localIndex) {
+                    output << coordinateIndices[node][i] << " ";
+                }
+            }
+            ++localIndex;
         }
         output << partitions[element] << " ";
         std::set<std::size_t> shadowPartitions;
-- 
2.43.0


From 9349f3022f6ff071d03ae9ab85682a9d26548684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:47 +0000
Subject: [PATCH 20/49] fix: linear tetrahedra can be read from gmsh files

---
 applications/Preprocessor/lib/gmsh.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 95a6676..a0ec224 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -320,8 +320,7 @@ void GmshReader::readElements() {
     reorder.addElementType(2, "triangle2", {0, 3, 1, 5, 4, 2});
 
     reorder.addElementType(2, "square:", {0, 1, 3, 2});
-    // Tetrahedrons should not require reordering
-    // reorder.addElementType(3, "tetrahedron:", {0, 3, 1, 2});
+    reorder.addElementType(3, "tetrahedron:", {0, 1, 2, 3});
     reorder.addElementType(3, "pyramid:", {4, 1, 2, 0, 3});
     reorder.addElementType(3, "cube:", {4, 5, 0, 1, 7, 6, 3, 2});
     reorder.addElementType(3, "prism", {0, 2, 1, 3, 5, 4});
-- 
2.43.0


From baa7016608e49f503cf6615ee26422eaf9d5b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:47 +0000
Subject: [PATCH 21/49] fix: gmsh elements without tags can be read

---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index a0ec224..1c6dafe 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -356,7 +356,7 @@ void GmshReader::readElements() {
         if (no_tags > 0) {
             Filehandle_ >> element.physicalNameTag;
         }
-        for (std::size_t i = 0; i < no_tags - 1; i++) {
+        for (std::size_t i = 1; i < no_tags; i++) {
             int dummy;
             Filehandle_ >> dummy;
         }
-- 
2.43.0


From cf9cb7cd18c75bf3c72c6889c0765c89e32dbb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:48 +0000
Subject: [PATCH 22/49] fix: gmsh node tags need not be the position of the
 node in the file

---
 applications/Preprocessor/lib/gmsh.cpp | 21 +++++++++++++++------
 applications/Preprocessor/lib/gmsh.h   |  4 ++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 1c6dafe..863ea44 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -295,15 +295,26 @@ void GmshReader::readNodes(double tol) {
             dimension_ = 1;
         }
 
+        // gmsh tags are positive, but not necessarily dense or ordered, hpgem
+        // uses the position in the list of nodes
+        logger.assert_always(
+            nodeIndices_.emplace(nodeTag, nodes_.size()).second,
+            "Node % is listed more than once", nodeTag);
         MeshSource2::Coord temp;
-        temp.nodeId =
-            nodeTag - 1;  // gmsh ids are 1 indexed hpgem is zero indexed
+        temp.nodeId = nodes_.size();
         temp.coordinate = std::vector<double>{x, y, z};
         nodes_.push_back(temp);
     }
     readSectionEnd("Nodes");
 }
 
+std::size_t GmshReader::getNodeIndex(std::size_t nodeTag) const {
+    auto iterator = nodeIndices_.find(nodeTag);
+    logger.assert_always(iterator != nodeIndices_.end(),
+                         "Node % is used before it is listed", nodeTag);
+    return iterator->second;
+}
+
 void GmshReader::readElements() {
 
     // Reordering of the nodes
@@ -365,8 +376,7 @@ void GmshReader::readElements() {
         for (std::size_t i = 0; i < num_points; i++) {
             size_t nodetag;
             Filehandle_ >> nodetag;
-            // gmsh ids are 1 indexed hpgem is zero indexed
-            element.coordinates_.push_back(nodetag - 1);
+            element.coordinates_.push_back(getNodeIndex(nodetag));
         }
         reorder.reorderToHpGem(element.dimension_, element.coordinates_);
         rawElements_.push_back(std::move(element));
@@ -465,8 +475,7 @@ void GmshReader::readPBCs() {
             size_t node1;
             size_t node2;
             Filehandle_ >> node2 >> node1;
-            // gmsh is 1 indexed hpgem is zero indexed
-            merge[node2 - 1] = node1 - 1;
+            merge[getNodeIndex(node2)] = getNodeIndex(node1);
         }
     }
     readSectionEnd("Periodic");
diff --git a/applications/Preprocessor/lib/gmsh.h b/applications/Preprocessor/lib/gmsh.h
index d74c45d..a9c80d7 100644
--- a/applications/Preprocessor/lib/gmsh.h
+++ b/applications/Preprocessor/lib/gmsh.h
@@ -99,6 +99,8 @@ class GmshReader final : public MeshSource2 {
     void readPhysicalNames();
     /// Read a Nodes section
     void readNodes(double tol = 1e-12);
+    /// Position in nodes_ of the node with the given gmsh tag
+    std::size_t getNodeIndex(std::size_t nodeTag) const;
     /// Read an Elements section
     void readElements();
     /// Read an ElementData section
@@ -135,6 +137,8 @@ class GmshReader final : public MeshSource2 {
     std::vector<MeshSource2::Element> elements_;
 
     std::vector<MeshSource2::Coord> nodes_;
+    /// Position in nodes_ of each gmsh node tag
+    std::map<std::size_t, std::size_t> nodeIndices_;
 
     std::ifstream Filehandle_;
     std::map<size_t, size_t> nodesPerElementtype_;
-- 
2.43.0


From 3cf54703e114f6ca9b21ade1dba02f775a555498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:48 +0000
Subject: [PATCH 23/49] fix: gmsh element numbers need not be consecutive

---
 applications/Preprocessor/lib/gmsh.cpp | 15 ++++++++-------
 applications/Preprocessor/lib/gmsh.h   |  2 ++
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 863ea44..3567fc8 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -360,10 +360,10 @@ void GmshReader::readElements() {
         element.dimension_ = dimensionOfElementtype_.at(elm_type);
         element.gmshTag = elm_number;
         element.physicalNameTag = Element::NO_TAG;
-        // gmsh ids are 1 indexed and hpgem is zero indexed.
-        logger.assert_always(elm_number - 1 == rawElements_.size(),
-                             "hpGEM expects the element numbers to be "
-                             "consecutive starting from 1");
+        // gmsh numbers are positive, but not necessarily dense or ordered
+        logger.assert_always(
+            elementIndices_.emplace(elm_number, rawElements_.size()).second,
+            "Element % is listed more than once", elm_number);
         if (no_tags > 0) {
             Filehandle_ >> element.physicalNameTag;
         }
@@ -445,9 +445,10 @@ void GmshReader::readElementData() {
         size_t elementid;
         double zoneinfo;
         Filehandle_ >> elementid >> zoneinfo;
-        Element& element = rawElements_[elementid - 1];
-        logger.assert_always(element.gmshTag == elementid,
-                             "The elements are not indexed continuously");
+        auto iterator = elementIndices_.find(elementid);
+        logger.assert_always(iterator != elementIndices_.end(),
+                             "Data for the unknown element %", elementid);
+        Element& element = rawElements_[iterator->second];
         element.physicalNameTag =
             static_cast<std::size_t>(std::round(zoneinfo));
     }
diff --git a/applications/Preprocessor/lib/gmsh.h b/applications/Preprocessor/lib/gmsh.h
index a9c80d7..4e73c46 100644
--- a/applications/Preprocessor/lib/gmsh.h
+++ b/applications/Preprocessor/lib/gmsh.h
@@ -133,6 +133,8 @@ class GmshReader final : public MeshSource2 {
     /// element, so depending on the dimension this contains points, lines etc.
     /// Note that 'Entity' in gmsh files refers to model description parts.
     std::vector<Element> rawElements_;
+    /// Position in rawElements_ of each gmsh element number
+    std::map<std::size_t, std::size_t> elementIndices_;
     /// Actual elements for hpgem
     std::vector<MeshSource2::Element> elements_;
 
-- 
2.43.0


From 712ba112bfb89a37c007436cdaf3012e85bc2caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:10 +0000
Subject: [PATCH 24/49] fix: names of gmsh element data may contain spaces

---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 3567fc8..1d01ed6 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -404,7 +404,7 @@ void GmshReader::readElementData() {
     Filehandle_ >> numStringelements;
     for (size_t i = 0; i < numStringelements; i++) {
         std::string view_names;
-        Filehandle_ >> view_names;
+        Filehandle_ >> std::quoted(view_names);
     }
     // Read  global reals (doubles)
     size_t numrealelements;
-- 
2.43.0


From 2a7e41627ba464afe214174cd908044521ef78b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 25/49] fix: time integration ends at the final time

---
 kernel/Base/HpgemAPISimplified_Impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernel/Base/HpgemAPISimplified_Impl.h b/kernel/Base/HpgemAPISimplified_Impl.h
index f2fa39d..7fd928c 100644
--- a/kernel/Base/HpgemAPISimplified_Impl.h
+++ b/kernel/Base/HpgemAPISimplified_Impl.h
@@ -1032,7 +1032,9 @@ bool HpgemAPISimplified<DIM>::solve(const double initialTime,
                 time, maximumRelativeError,
                 std::min(std::min(dt, outputTime - time), finalTime - time));
         } else {
-            computeOneTimeStep(time, dt);
+            // do not step over the final time: when dt does not divide the time
+            // interval, or when rounding errors leave a small remainder
+            computeOneTimeStep(time, std::min(dt, finalTime - time));
         }
 
         if (time > outputTime - 1e-12) {
-- 
2.43.0


From d2f72c735cc9518b1ce3c35bf701461d217d246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:40 +0000
Subject: [PATCH 26/49] fix: tensors in vtk files have nine components per
 point

---
 kernel/Output/VTKSpecificTimeWriter_Impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kernel/Output/VTKSpecificTimeWriter_Impl.h b/kernel/Output/VTKSpecificTimeWriter_Impl.h
index 1b23749..a756e7d 100644
--- a/kernel/Output/VTKSpecificTimeWriter_Impl.h
+++ b/kernel/Output/VTKSpecificTimeWriter_Impl.h
@@ -166,10 +166,8 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
                         << std::endl;
         }
         for (const auto& entry : tensors) {
-            // Note: It seems strange that this is identical to the vector case
-            // this was just copied from the previous implementation.
             masterFile_ << R"(      <PDataArray type="Float64" Name=")"
-                        << entry.first << R"(" NumberOfComponents="3"/>)"
+                        << entry.first << R"(" NumberOfComponents="9"/>)"
                         << std::endl;
         }
     }
@@ -233,7 +231,7 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
     for (const auto& entry : tensors) {
         const std::string& name = entry.first;
         localFile_ << R"(      <DataArray type="Float64" Name=")" << name
-                   << R"(" NumberOfComponents="3" format="binary">)"
+                   << R"(" NumberOfComponents="9" format="binary">)"
                    << std::endl;
         localFile_ << "        ";
         writeBinaryDataArrayData(data[name]);
-- 
2.43.0


From ac626573b29a102918f13bc1375958926e5c55d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:56 +0000
Subject: [PATCH 27/49] fix: the sparsity estimate looks at the right unknown
 before refusing face coupling

---
 kernel/Utilities/SparsityEstimator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernel/Utilities/SparsityEstimator.cpp b/kernel/Utilities/SparsityEstimator.cpp
index 9835e8e..588780e 100644
--- a/kernel/Utilities/SparsityEstimator.cpp
+++ b/kernel/Utilities/SparsityEstimator.cpp
@@ -385,7 +385,9 @@ std::pair<std::vector<int>, std::vector<int>>
              ++i) {
             for (std::size_t j = 0;
                  j < columnIndexing_.getNumberOfIncludedUnknowns(); ++j) {
-                if (faceCoupling(i, j) && !rowDoFs.isOnlyElementBased(i)) {
+                if (faceCoupling(i, j) &&
+                    !rowDoFs.isOnlyElementBased(
+                        rowIndexing_.getIncludedUnknowns()[i])) {
                     logger(ERROR,
                            "Face coupling of a row-DoF from an Face, Edge or "
                            "Node.");
-- 
2.43.0


From 1f105e69e9d20f38dd4caaf1acb69c05169b6df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:45 +0000
Subject: [PATCH 28/49] fix: coefficients go to and from a global vector that
 holds some of the unknowns

---
 kernel/Utilities/GlobalVector.cpp | 143 +++++++++++++++---------------
 1 file changed, 71 insertions(+), 72 deletions(-)

diff --git a/kernel/Utilities/GlobalVector.cpp b/kernel/Utilities/GlobalVector.cpp
index d9bdf18..02af757 100644
--- a/kernel/Utilities/GlobalVector.cpp
+++ b/kernel/Utilities/GlobalVector.cpp
@@ -172,18 +172,19 @@ void GlobalPetscVector::constructFromTimeIntegrationVector(
     std::vector<PetscInt> localToGlobal;
     for (Base::Element* element : mesh->getElementsList()) {
         indexing_.getGlobalIndices(element, localToGlobal);
-        elementData.resize(element->getTotalNumberOfBasisFunctions());
-        for (std::size_t j = 0; j < element->getNumberOfUnknowns(); ++j) {
-            for (std::size_t i = 0; i < element->getNumberOfBasisFunctions(j);
-                 ++i) {
-
-                if (j == solutionVar) {
-                    elementData[element->convertToSingleIndex(i, solutionVar)] =
-                        element->getTimeIntegrationData(timeIntegrationVectorId,
-                                                        solutionVar, i);
+        elementData.resize(localToGlobal.size());
+        // Position in the local numbering of the included unknowns
+        std::size_t position = 0;
+        for (std::size_t unknown : indexing_.getIncludedUnknowns()) {
+            for (std::size_t i = 0;
+                 i < element->getNumberOfBasisFunctions(unknown); ++i) {
+                if (unknown == solutionVar) {
+                    elementData[position] = element->getTimeIntegrationData(
+                        timeIntegrationVectorId, solutionVar, i);
                 } else {
-                    localToGlobal[element->convertToSingleIndex(i, j)] = -1;
+                    localToGlobal[position] = -1;
                 }
+                ++position;
             }
         }
         int ierr = VecSetValues(b_, localToGlobal.size(), localToGlobal.data(),
@@ -209,13 +210,20 @@ void GlobalPetscVector::constructFromTimeIntegrationVector(
     LinearAlgebra::MiddleSizeVector elementData;
     std::vector<PetscInt> localToGlobal;
     for (Base::Element* element : mesh->getElementsList()) {
-        std::size_t numberOfBasisFunctions =
-            element->getTotalNumberOfBasisFunctions();
         indexing_.getGlobalIndices(element, localToGlobal);
-        int ierr = VecSetValues(
-            b_, numberOfBasisFunctions, localToGlobal.data(),
-            element->getTimeIntegrationVector(timeIntegrationVectorId).data(),
-            INSERT_VALUES);
+        elementData.resize(localToGlobal.size());
+        // Position in the local numbering of the included unknowns
+        std::size_t position = 0;
+        for (std::size_t unknown : indexing_.getIncludedUnknowns()) {
+            for (std::size_t i = 0;
+                 i < element->getNumberOfBasisFunctions(unknown); ++i) {
+                elementData[position] = element->getTimeIntegrationData(
+                    timeIntegrationVectorId, unknown, i);
+                ++position;
+            }
+        }
+        int ierr = VecSetValues(b_, localToGlobal.size(), localToGlobal.data(),
+                                elementData.data(), INSERT_VALUES);
         CHKERRV(ierr);
     }
 
@@ -272,13 +280,13 @@ void GlobalPetscVector::writeTimeIntegrationVector(
     for (Base::MeshManipulatorBase::ConstElementIterator it =
              mesh->elementColBegin(Base::IteratorType::GLOBAL);
          it != end; ++it) {
-        // Create vector for the local data that has to be written
-        LinearAlgebra::MiddleSizeVector localData(
-            (*it)->getTotalNumberOfBasisFunctions());
-        std::size_t runningTotal = 0;
-        for (std::size_t index = 0; index < (*it)->getNumberOfUnknowns();
-             ++index)  // for every variable iV
+        for (std::size_t index :
+             indexing_.getIncludedUnknowns())  // for every variable iV
         {
+            // Create vector for the local data that has to be written
+            LinearAlgebra::MiddleSizeVector localData(
+                (*it)->getNumberOfBasisFunctions(index));
+            std::size_t runningTotal = 0;
             std::size_t nElementBasis =
                 (*it)->getLocalNumberOfBasisFunctions(index);
             int elementBasis0 = indexing_.getGlobalIndex((*it), index);
@@ -346,11 +354,12 @@ void GlobalPetscVector::writeTimeIntegrationVector(
                     }
                 }
             }
+            // Put the localData in the element
+            logger.assert_debug(localData.size() == runningTotal,
+                                "not enough info to fill the vector");
+            (*it)->setTimeIntegrationSubvector(timeIntegrationVectorId, index,
+                                               localData);
         }
-        // Put the localData in the element
-        logger.assert_debug(localData.size() == runningTotal,
-                            "not enough info to fill the vector");
-        (*it)->setTimeIntegrationVector(timeIntegrationVectorId, localData);
     }
     ierr = VecRestoreArray(localB, &data);
     VecDestroy(&localB);
@@ -404,63 +413,53 @@ void GlobalPetscVector::writeTimeIntegrationVector(
              mesh->elementColBegin(Base::IteratorType::GLOBAL);
          it != end; ++it) {
         LinearAlgebra::MiddleSizeVector localData(
-            (*it)->getTotalNumberOfBasisFunctions());
+            (*it)->getNumberOfBasisFunctions(unknown));
         std::size_t runningTotal = 0;
-        for (std::size_t index = 0; index < (*it)->getNumberOfUnknowns();
-             ++index) {
-            std::size_t nElementBasis =
-                (*it)->getLocalNumberOfBasisFunctions(index);
-            int elementBasis0 = indexing_.getGlobalIndex((*it), index);
-            for (std::size_t i = 0; i < nElementBasis; ++i) {
-                localData[runningTotal] = data[elementBasis0 + i];
+        std::size_t nElementBasis =
+            (*it)->getLocalNumberOfBasisFunctions(unknown);
+        int elementBasis0 = indexing_.getGlobalIndex((*it), unknown);
+        for (std::size_t i = 0; i < nElementBasis; ++i) {
+            localData[runningTotal] = data[elementBasis0 + i];
+            ++runningTotal;
+        }
+
+        for (std::size_t i = 0;
+             i < (*it)->getPhysicalGeometry()->getNumberOfFaces(); ++i) {
+            std::size_t nFaceBasis =
+                (*it)->getFace(i)->getLocalNumberOfBasisFunctions(unknown);
+            int faceBasis0 =
+                indexing_.getGlobalIndex((*it)->getFace(i), unknown);
+            for (std::size_t j = 0; j < nFaceBasis; ++j) {
+                localData[runningTotal] = data[faceBasis0 + j];
                 ++runningTotal;
             }
-
-            for (std::size_t i = 0;
-                 i < (*it)->getPhysicalGeometry()->getNumberOfFaces(); ++i) {
-                std::size_t nFaceBasis =
-                    (*it)->getFace(i)->getLocalNumberOfBasisFunctions(index);
-                int faceBasis0 =
-                    indexing_.getGlobalIndex((*it)->getFace(i), index);
-                for (std::size_t j = 0; j < nFaceBasis; ++j) {
-                    localData[runningTotal] = data[faceBasis0 + j];
-                    ++runningTotal;
-                }
+        }
+        for (std::size_t i = 0; i < (*it)->getNumberOfEdges(); ++i) {
+            std::size_t nEdgeBasis =
+                (*it)->getEdge(i)->getLocalNumberOfBasisFunctions(unknown);
+            int edgeBasis0 =
+                indexing_.getGlobalIndex((*it)->getEdge(i), unknown);
+            for (std::size_t j = 0; j < nEdgeBasis; ++j) {
+                localData[runningTotal] = data[edgeBasis0 + j];
+                ++runningTotal;
             }
-            for (std::size_t i = 0; i < (*it)->getNumberOfEdges(); ++i) {
-                std::size_t nEdgeBasis =
-                    (*it)->getEdge(i)->getLocalNumberOfBasisFunctions(index);
-                int edgeBasis0 =
-                    indexing_.getGlobalIndex((*it)->getEdge(i), index);
-                for (std::size_t j = 0; j < nEdgeBasis; ++j) {
-                    localData[runningTotal] = data[edgeBasis0 + j];
+        }
+        if (mesh->dimension() > 1) {
+            for (std::size_t i = 0; i < (*it)->getNumberOfNodes(); ++i) {
+                std::size_t nNodeBasis =
+                    (*it)->getNode(i)->getLocalNumberOfBasisFunctions(unknown);
+                int nodeBasis0 =
+                    indexing_.getGlobalIndex((*it)->getNode(i), unknown);
+                for (std::size_t j = 0; j < nNodeBasis; ++j) {
+                    localData[runningTotal] = data[nodeBasis0 + j];
                     ++runningTotal;
                 }
             }
-            if (mesh->dimension() > 1) {
-                for (std::size_t i = 0; i < (*it)->getNumberOfNodes(); ++i) {
-                    std::size_t nNodeBasis =
-                        (*it)->getNode(i)->getLocalNumberOfBasisFunctions(
-                            index);
-                    int nodeBasis0 =
-                        indexing_.getGlobalIndex((*it)->getNode(i), index);
-                    for (std::size_t j = 0; j < nNodeBasis; ++j) {
-                        localData[runningTotal] = data[nodeBasis0 + j];
-                        ++runningTotal;
-                    }
-                }
-            }
         }
         logger.assert_debug(localData.size() == runningTotal,
                             "not enough info to fill the vector");
-        LinearAlgebra::MiddleSizeVector singleUnknownData(
-            (*it)->getNumberOfBasisFunctions());
-        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(); ++i) {
-            singleUnknownData[i] =
-                localData[(*it)->convertToSingleIndex(i, unknown)];
-        }
         (*it)->setTimeIntegrationSubvector(timeIntegrationVectorId, unknown,
-                                           singleUnknownData);
+                                           localData);
     }
     ierr = VecRestoreArray(localB, &data);
     VecDestroy(&localB);
-- 
2.43.0


From e45120aeb9ac4c2aadf055c35cfd3214e55cb1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:33 +0000
Subject: [PATCH 29/49] fix: the local numberings accept an empty selection of
 unknowns and no face

---
 kernel/Utilities/ElementLocalIndexing.cpp | 2 +-
 kernel/Utilities/FaceLocalIndexing.cpp    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/Utilities/ElementLocalIndexing.cpp b/kernel/Utilities/ElementLocalIndexing.cpp
index 0f7a23c..eb769d4 100644
--- a/kernel/Utilities/ElementLocalIndexing.cpp
+++ b/kernel/Utilities/ElementLocalIndexing.cpp
@@ -54,7 +54,7 @@ void ElementLocalIndexing::reinit(
     std::sort(includedUnknowns_.begin(), includedUnknowns_.end());
 #ifdef HPGEM_ASSERTS
     // Check for duplicates, easy after sorting
-    for (std::size_t i = 0; i < includedUnknowns_.size() - 1; ++i) {
+    for (std::size_t i = 0; i + 1 < includedUnknowns_.size(); ++i) {
         logger.assert_debug(includedUnknowns_[i] != includedUnknowns_[i + 1],
                             "Duplicate unknown");
     }
diff --git a/kernel/Utilities/FaceLocalIndexing.cpp b/kernel/Utilities/FaceLocalIndexing.cpp
index 6b2f225..87e1239 100644
--- a/kernel/Utilities/FaceLocalIndexing.cpp
+++ b/kernel/Utilities/FaceLocalIndexing.cpp
@@ -52,8 +52,8 @@ void FaceLocalIndexing::reinit(
 
 void FaceLocalIndexing::reinit(const Base::Face *face) {
     face_ = face;
-    left_.reinit(face->getPtrElementLeft());
-    right_.reinit(face->getPtrElementRight());
+    left_.reinit(face == nullptr ? nullptr : face->getPtrElementLeft());
+    right_.reinit(face == nullptr ? nullptr : face->getPtrElementRight());
 }
 }  // namespace Utilities
 }  // namespace hpgem
-- 
2.43.0


From b0d4dc1ca6ebe800d0105fa851ba3bcf9070d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:33 +0000
Subject: [PATCH 30/49] fix: an unknown that is not included has no offset on
 the right of a face either

---
 kernel/Utilities/FaceLocalIndexing.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kernel/Utilities/FaceLocalIndexing.h b/kernel/Utilities/FaceLocalIndexing.h
index 9954f6b..bc102f4 100644
--- a/kernel/Utilities/FaceLocalIndexing.h
+++ b/kernel/Utilities/FaceLocalIndexing.h
@@ -79,9 +79,11 @@ class FaceLocalIndexing {
             hpgem::logger.assert_debug(
                 right_.getElement() != nullptr,
                 "Asking for the right side of an internal face");
-            // Also works for non included unknowns, as
-            // left_.getNumberOfDoFs() == 0 for such an unknown
-            return left_.getNumberOfDoFs() + right_.getDoFOffset(unknown);
+            std::size_t offset = right_.getDoFOffset(unknown);
+            if (offset == ElementLocalIndexing::UNKNOWN_NOT_INCLUDED) {
+                return offset;
+            }
+            return left_.getNumberOfDoFs() + offset;
         }
     }
 
-- 
2.43.0


From 16bea42a7310e77aac47521fb242384b599fe4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:47 +0000
Subject: [PATCH 31/49] fix: zones of a Centaur file with several types of
 elements

---
 applications/Preprocessor/lib/centaur.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/centaur.cpp b/applications/Preprocessor/lib/centaur.cpp
index 50a7c6c..6585544 100644
--- a/applications/Preprocessor/lib/centaur.cpp
+++ b/applications/Preprocessor/lib/centaur.cpp
@@ -515,12 +515,15 @@ void CentaurReader::readZoneInfo() {
         positions[elemType] =
             positions[elemType - 1] + elementCount[elemType - 1];
     }
+    const std::array<std::size_t, 4> typeStarts = positions;
     for (const ZoneInformation& zone : zones) {
         std::string zoneName = zone.getZoneName();
         // Assign the zone for each elementtype
         for (std::size_t elemType = 0; elemType < 4; ++elemType) {
-            for (; positions[elemType] < zone.endOffsets[elemType];
-                 ++positions[elemType]) {
+            // The offsets count the elements of this type only
+            const std::size_t end =
+                typeStarts[elemType] + zone.endOffsets[elemType];
+            for (; positions[elemType] < end; ++positions[elemType]) {
                 elements[positions[elemType]].zoneName = zoneName;
             }
         }
-- 
2.43.0


From a06ec35f53b265e11bbaa96b2492b4189b8b1fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:26 +0000
Subject: [PATCH 32/49] fix: elements of a Centaur file without zones are in
 the default zone

---
 applications/Preprocessor/lib/centaur.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/applications/Preprocessor/lib/centaur.cpp b/applications/Preprocessor/lib/centaur.cpp
index 6585544..686cbf3 100644
--- a/applications/Preprocessor/lib/centaur.cpp
+++ b/applications/Preprocessor/lib/centaur.cpp
@@ -391,6 +391,9 @@ void CentaurReader::readZoneInfo() {
         }
         zones[0].endOffsets[0] = elementCount[0];
         zones[0].endOffsets[1] = elementCount[1];
+        for (MeshSource2::Element& element : elements) {
+            element.zoneName = defaultName;
+        }
         return;
     }
     GroupSize groupSize = readGroupSize(false);
-- 
2.43.0


From 89544b3aef2b6611ec10729580e2f502dd44484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:39 +0000
Subject: [PATCH 33/49] fix: DG-Max vectors without a function are zero

The local vector was only resized, so that it kept the values of the
vector that was computed before it.
---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 42eec90..c5cd619 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -119,7 +119,8 @@ void DGMaxDiscretization<DIM>::computeElementIntegralsImpl(
         for (auto const& elementVectorDef : elementVectors) {
             std::size_t numberOfBasisFunctions =
                 element->getNumberOfBasisFunctions(0);
-            tempElementVector.resize(numberOfBasisFunctions);
+            tempElementVector =
+                LinearAlgebra::MiddleSizeVector(numberOfBasisFunctions);
             if (elementVectorDef.second) {
                 tempElementVector = elementIntegrator_.integrate(
                     element, [&](Base::PhysicalElement<DIM>& element) {
@@ -172,7 +173,8 @@ void DGMaxDiscretization<DIM>::computeFaceIntegralsImpl(
                     face->getPtrElementRight()->getNumberOfBasisFunctions(0);
             }
 
-            tempFaceVector.resize(numberOfBasisFunctions);
+            tempFaceVector =
+                LinearAlgebra::MiddleSizeVector(numberOfBasisFunctions);
             using BCT = DGMax::BoundaryConditionType;
             BCT bct =
                 face->isInternal() ? BCT::INTERNAL : boundaryIndicator(*face);
-- 
2.43.0


From 05460228fc4cd8f104f48a45ad4ff890e2fffd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:24 +0000
Subject: [PATCH 34/49] fix: energy flux through internal faces with
 orthogonalized DG-Max matrices

The coefficients of both sides were solved for at once with the mass
matrix of the left element, instead of the copied coefficients of the
left side.
---
 applications/DG-Max/Algorithms/DGMaxDiscretization.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index c5cd619..e8b860b 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -657,7 +657,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
         face.getPtrElementLeft()
             ->getElementMatrix(MASS_MATRIX_ID)
             .solveLowerTriangular(
-                coefficients, hpgem::LinearAlgebra::Side::OP_LEFT,
+                solveCoefs, hpgem::LinearAlgebra::Side::OP_LEFT,
                 hpgem::LinearAlgebra::Transpose::HERMITIAN_TRANSPOSE);
 
         if (face.isInternal()) {
@@ -671,7 +671,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
                 face.getPtrElementRight()->getNumberOfBasisFunctions();
             temp.resize(rightDoFs);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
-                temp[i] = coefficients[i + rightDoFs];
+                temp[i] = coefficients[i + leftDoFs];
             }
             face.getPtrElementRight()
                 ->getElementMatrix(MASS_MATRIX_ID)
@@ -679,7 +679,7 @@ LinearAlgebra::SmallVector<4> DGMaxDiscretization<DIM>::computeEnergyFluxes(
                     temp, hpgem::LinearAlgebra::Side::OP_LEFT,
                     hpgem::LinearAlgebra::Transpose::HERMITIAN_TRANSPOSE);
             for (std::size_t i = 0; i < rightDoFs; ++i) {
-                coefficients[i + rightDoFs] = temp[i];
+                coefficients[i + leftDoFs] = temp[i];
             }
         }
     }
-- 
2.43.0


From 45998a5f8513334af3d8a52d26d147eefc5faa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:24 +0000
Subject: [PATCH 35/49] fix: normal stabilization of DivDGMax uses the test
 function

The value of the test function was overwritten with the conjugate of the
trial function.
---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 3ad3e4e..446b5bc 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -645,7 +645,7 @@ void DivDGMaxDiscretization<DIM>::faceStiffnessMatrixFieldIntegrand(
                 // Test functions are conjugated as an inner product is
                 // computed. This is not done by * for complex<double> so we do
                 // it manually.
-                phiUj = std::conj(phiUi);
+                phiUj = std::conj(phiUj);
                 std::complex<double> value = stab2 * phiUi * phiUj;
                 ret(jIndex, iIndex) += value;
                 if (i != j) {
-- 
2.43.0


From a492a91667f9b9cb64884b4f7a6ac0bc100cf5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:24 +0000
Subject: [PATCH 36/49] fix: normal lifting of DivDGMax uses the permittivity
 on the right

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 446b5bc..84e4a44 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -963,7 +963,7 @@ LinearAlgebra::MiddleSizeMatrix
         const auto materialDivLeft = materialLeft.getMaterialConstantDiv(point);
         const auto materialDivRight =
             materialRight != nullptr
-                ? materialRight->getMaterialConstantCurl(point)
+                ? materialRight->getMaterialConstantDiv(point)
                 : DGMax::MaterialTensor();
 
         normal = face.getUnitNormalVector();
-- 
2.43.0


From 47ec6ce6a0ad1b549908aabae1652fa80be71f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 37/49] fix: coefficients on the right of a face in the
 DivDGMax energy flux

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 84e4a44..f340170 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -382,11 +382,8 @@ LinearAlgebra::SmallVector<4> DivDGMaxDiscretization<DIM>::computeEnergyFluxes(
             VecC avgField;
             LinearAlgebra::SmallVector<DIM> phi;
             VecC normal = pface.getUnitNormalVector();
-            std::size_t leftDoFs = dofInfo.leftUDoFs + dofInfo.leftPDoFs;
             for (std::size_t i = 0; i < dofInfo.totalUDoFs(); ++i) {
-                const auto& coefficient = i < dofInfo.leftUDoFs
-                                              ? coefficients[i]
-                                              : coefficients[i + leftDoFs];
+                const auto& coefficient = coefficients[i];
                 avgCurl += factor * coefficient * pface.basisFunctionCurl(i, 0);
                 pface.basisFunction(i, phi, 0);
                 avgField += factor * coefficient * normal.crossProduct(phi);
-- 
2.43.0


From 554798d196e931b33a843aa0ef3d279c0536979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 38/49] fix: squared field on the right of a face in DivDGMax

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index f340170..6cac1f3 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -421,7 +421,7 @@ double DivDGMaxDiscretization<DIM>::computeFieldL2Integral(
     std::size_t dofOffset =
         side == Base::Side::LEFT
             ? 0
-            : face.getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+            : face.getPtrElementLeft()->getNumberOfBasisFunctions(0);
     std::size_t numDoFs =
         side == Base::Side::LEFT
             ? face.getPtrElementLeft()->getNumberOfBasisFunctions(0)
-- 
2.43.0


From ce44df09a30c892cc14847d5c211a21d86cd37f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:49 +0000
Subject: [PATCH 39/49] fix: boundary vector of DivDGMax is lifted only with
 the Brezzi flux for the field

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 6cac1f3..c874be9 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -209,7 +209,7 @@ void DivDGMaxDiscretization<DIM>::computeFaceIntegralsImpl(
                                            bct);
                         return result;
                     });
-                if (stab_.hasFlux(FluxType::BREZZI) &&
+                if (stab_.fluxType1 == FluxType::BREZZI &&
                     bct == DGMax::BoundaryConditionType::DIRICHLET) {
                     vec += brezziFluxBoundaryVector(face, boundaryVec.second);
                 }
-- 
2.43.0


From 3a7293f1c3f75c9977b19ff0f5195861236f8e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:40 +0000
Subject: [PATCH 40/49] fix: escapes after the last argument of a log message

---
 kernel/Logger.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kernel/Logger.h b/kernel/Logger.h
index d28014c..ec8359d 100644
--- a/kernel/Logger.h
+++ b/kernel/Logger.h
@@ -538,7 +538,12 @@ class Logger {
             }
         }
         fmt++;  // Consume the % sign
-        msg << arg << fmt;
+        msg << arg;
+        // The rest of the message may contain escapes as well
+        for (; *fmt != '\0'; fmt++) {
+            if (*fmt == '\\' && fmt[1] != '\0') fmt++;
+            msg << *fmt;
+        }
     }
 
     /*!
-- 
2.43.0


From b12dfb336980050b7fbecd752c8424ac737049e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:14 +0000
Subject: [PATCH 41/49] fix: absorbing layers of elements of other processes

---
 applications/DG-Max/DGMaxProgramUtils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/applications/DG-Max/DGMaxProgramUtils.cpp b/applications/DG-Max/DGMaxProgramUtils.cpp
index 1eb562c..22315eb 100644
--- a/applications/DG-Max/DGMaxProgramUtils.cpp
+++ b/applications/DG-Max/DGMaxProgramUtils.cpp
@@ -430,7 +430,10 @@ std::vector<std::shared_ptr<PMLElementInfos<dim>>> applyPMLs(
         }
     }
 
-    for (Base::Element* element : mesh.getElementsList()) {
+    // Including the elements of other processes, they are needed for the faces
+    // on the boundary between the processes.
+    for (Base::Element* element :
+         mesh.getElementsList(Base::IteratorType::GLOBAL)) {
         std::size_t zoneId = element->getZone().getZoneId();
         int index = pmlIndices[zoneId];
         if (index == NO_PML_NEEDED) {
-- 
2.43.0


From d1eabbadfa4c8f722943036a942e4be8784e2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:14 +0000
Subject: [PATCH 42/49] fix: transmission through an absorbing layer on several
 processes

---
 applications/DG-Max/Utils/PMLTransmission.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/applications/DG-Max/Utils/PMLTransmission.cpp b/applications/DG-Max/Utils/PMLTransmission.cpp
index 2f0f9cc..edcdeea 100644
--- a/applications/DG-Max/Utils/PMLTransmission.cpp
+++ b/applications/DG-Max/Utils/PMLTransmission.cpp
@@ -101,12 +101,18 @@ std::vector<double> PMLTransmission<dim>::pmlTransmission(
     AbstractHarmonicResult<dim>& result) const {
     std::vector<double> transmission(facetNames_.size());
     for (std::size_t i = 0; i < facetNames_.size(); ++i) {
-        double totalField = 0.0;
         for (Base::Face* face : resultFacets_[i]) {
-            totalField +=
+            transmission[i] +=
                 result.computeFieldL2Integral(*face, Base::Side::LEFT);
         }
-        transmission[i] = std::sqrt(totalField / surfaceArea_[i]);
+    }
+#ifdef HPGEM_USE_MPI
+    // Sum the contributions of all processes
+    MPI_Allreduce(MPI_IN_PLACE, transmission.data(), transmission.size(),
+                  MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
+#endif
+    for (std::size_t i = 0; i < facetNames_.size(); ++i) {
+        transmission[i] = std::sqrt(transmission[i] / surfaceArea_[i]);
     }
     return transmission;
 }
-- 
2.43.0


From 14f7b93a347b68a200125fd48e480250a204d65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:36 +0000
Subject: [PATCH 43/49] fix: error norms of the Maxwell discretisations on
 several processes

---
 .../DG-Max/Algorithms/DGMaxDiscretization.cpp         | 11 +++++++++++
 .../DG-Max/Algorithms/DivDGMaxDiscretization.cpp      |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index e8b860b..5bcd420 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -807,6 +807,9 @@ std::map<typename DGMaxDiscretizationBase::NormType, double>
         for (typename Base::MeshManipulator<DIM>::FaceIterator it =
                  mesh.faceColBegin();
              it != end; ++it) {
+            if (!(*it)->isOwnedByCurrentProcessor()) {
+                continue;
+            }
             dgNorm += faceIntegrator_.integrate(
                 *it, [&](Base::PhysicalFace<DIM>& face) {
                     return faceErrorIntegrand(face, timeVector, electricField);
@@ -814,6 +817,14 @@ std::map<typename DGMaxDiscretizationBase::NormType, double>
         }
     }
 
+#ifdef HPGEM_USE_MPI
+    // Sum the contributions of all processes
+    for (double* norm : {&l2Norm, &hCurlNorm, &dgNorm}) {
+        MPI_Allreduce(MPI_IN_PLACE, norm, 1, MPI_DOUBLE, MPI_SUM,
+                      MPI_COMM_WORLD);
+    }
+#endif
+
     std::map<NormType, double> result;
     if (l2Wanted) result[L2] = sqrt(l2Norm);
     if (hcurlWanted) result[HCurl] = sqrt(hCurlNorm);
diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index c874be9..f66bdae 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -1275,6 +1275,10 @@ double DivDGMaxDiscretization<DIM>::computeL2Error(
                                              electricField);
             });
     }
+#ifdef HPGEM_USE_MPI
+    // Sum the contributions of all processes
+    MPI_Allreduce(MPI_IN_PLACE, &error, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
+#endif
     return std::sqrt(error);
 }
 
-- 
2.43.0


From d21871e0788c77cf1c419d7c455ec667adb2605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:01 +0000
Subject: [PATCH 44/49] fix: coefficients of one unknown are collected without
 negative indices

---
 kernel/Utilities/GlobalVector.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kernel/Utilities/GlobalVector.cpp b/kernel/Utilities/GlobalVector.cpp
index 02af757..2eca480 100644
--- a/kernel/Utilities/GlobalVector.cpp
+++ b/kernel/Utilities/GlobalVector.cpp
@@ -175,19 +175,21 @@ void GlobalPetscVector::constructFromTimeIntegrationVector(
         elementData.resize(localToGlobal.size());
         // Position in the local numbering of the included unknowns
         std::size_t position = 0;
+        // Number of values, PETSc does not accept negative indices to skip some
+        std::size_t count = 0;
         for (std::size_t unknown : indexing_.getIncludedUnknowns()) {
             for (std::size_t i = 0;
                  i < element->getNumberOfBasisFunctions(unknown); ++i) {
                 if (unknown == solutionVar) {
-                    elementData[position] = element->getTimeIntegrationData(
+                    localToGlobal[count] = localToGlobal[position];
+                    elementData[count] = element->getTimeIntegrationData(
                         timeIntegrationVectorId, solutionVar, i);
-                } else {
-                    localToGlobal[position] = -1;
+                    ++count;
                 }
                 ++position;
             }
         }
-        int ierr = VecSetValues(b_, localToGlobal.size(), localToGlobal.data(),
+        int ierr = VecSetValues(b_, count, localToGlobal.data(),
                                 elementData.data(), INSERT_VALUES);
         CHKERRV(ierr);
     }
-- 
2.43.0


From 8024af6ce0cf1d56f2a490671fd72140c5093d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:37 +0000
Subject: [PATCH 45/49] fix: the steady-state interface needs no source term
 that is said not to exist

---
 kernel/Base/HpgemAPILinearSteadyState_Impl.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/kernel/Base/HpgemAPILinearSteadyState_Impl.h b/kernel/Base/HpgemAPILinearSteadyState_Impl.h
index cfea3e6..324dc09 100644
--- a/kernel/Base/HpgemAPILinearSteadyState_Impl.h
+++ b/kernel/Base/HpgemAPILinearSteadyState_Impl.h
@@ -111,14 +111,25 @@ void HpgemAPILinearSteadyState<DIM>::createSourceTerms() {
     logger(INFO, "- Creating source term vectors for the elements.");
     for (Base::Element *ptrElement : this->meshes_[0]->getElementsList()) {
         LinearAlgebra::MiddleSizeVector sourceTerm(
-            this->integrateSourceTermAtElement(ptrElement, 0, 0));
+            ptrElement->getTotalNumberOfBasisFunctions());
+        if (this->useSourceTerm_) {
+            sourceTerm = this->integrateSourceTermAtElement(ptrElement, 0, 0);
+        }
         ptrElement->setElementVector(sourceTerm, sourceElementVectorID_);
     }
 
     logger(INFO, "- Creating source term vectors for the boundary faces.");
     for (Base::Face *ptrFace : this->meshes_[0]->getFacesList()) {
-        LinearAlgebra::MiddleSizeVector sourceTerm(
-            this->integrateSourceTermAtFace(ptrFace, 0, 0));
+        std::size_t numberOfFunctions =
+            ptrFace->getPtrElementLeft()->getTotalNumberOfBasisFunctions();
+        if (ptrFace->isInternal()) {
+            numberOfFunctions +=
+                ptrFace->getPtrElementRight()->getTotalNumberOfBasisFunctions();
+        }
+        LinearAlgebra::MiddleSizeVector sourceTerm(numberOfFunctions);
+        if (this->useSourceTermAtBoundary_) {
+            sourceTerm = this->integrateSourceTermAtFace(ptrFace, 0, 0);
+        }
         ptrFace->setFaceVector(sourceTerm, sourceFaceVectorID_);
     }
 }
-- 
2.43.0


From 4d15c7966251bf561fd2b16b47fea98e62f2dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:39 +0000
Subject: [PATCH 46/49] fix: CO4 time integration of Maxwell takes the source
 and boundary terms into account

---
 .../Algorithms/DGMaxTimeIntegration.cpp       | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
index 7f44443..67244c3 100644
--- a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
@@ -240,19 +240,27 @@ void DGMaxTimeIntegration<DIM>::solve(
                 CHKERRABORT(PETSC_COMM_WORLD, error);
 
                 sourceTime = t + (alpha_sum[k - 1] + beta_sum[k - 1]) * tau;
-                double eta = input.timeScalingBoundary(sourceTime);
-                // error = VecCopy(RHS_, dummy2);
+                error = VecCopy(rhsBoundary, dummy2);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
-                error = VecScale(dummy2, beta[k] * tau * eta);
+                error = VecScale(dummy2, input.timeScalingBoundary(sourceTime));
+                CHKERRABORT(PETSC_COMM_WORLD, error);
+                error = VecAXPY(dummy2, input.timeScalingSource(sourceTime),
+                                rhsSource);
+                CHKERRABORT(PETSC_COMM_WORLD, error);
+                error = VecScale(dummy2, beta[k] * tau);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
                 VecAYPX(dummy, -(beta[k] + alpha[k]) * tau, dummy2);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
 
                 sourceTime = t + (alpha_sum[k] + beta_sum[k]) * tau;
-                eta = input.timeScalingBoundary(sourceTime);
-                // error = VecCopy(RHS_, dummy2);
+                error = VecCopy(rhsBoundary, dummy2);
+                CHKERRABORT(PETSC_COMM_WORLD, error);
+                error = VecScale(dummy2, input.timeScalingBoundary(sourceTime));
+                CHKERRABORT(PETSC_COMM_WORLD, error);
+                error = VecAXPY(dummy2, input.timeScalingSource(sourceTime),
+                                rhsSource);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
-                error = VecScale(dummy2, alpha[k] * tau * eta);
+                error = VecScale(dummy2, alpha[k] * tau);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
                 error = VecAXPY(dummy, 1.0, dummy2);
                 CHKERRABORT(PETSC_COMM_WORLD, error);
-- 
2.43.0


From f9e231c7168f5854d1afcda0a06f78cb26c1ca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:39 +0000
Subject: [PATCH 47/49] fix: Maxwell time integration stores the solution at
 the final time

---
 .../DG-Max/Algorithms/DGMaxTimeIntegration.cpp     | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
index 67244c3..ac55b5b 100644
--- a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
@@ -279,14 +279,12 @@ void DGMaxTimeIntegration<DIM>::solve(
         // getArrayRead only gets local values, so make the entire std::vector
         // local
     }
-    // Save the last snapshot if needed.
-    if (parameters.numberOfSteps % parameters.snapshotStride == 0) {
-        logger(DEBUG, "Writing snapshot at timestep %, (t=%)",
-               parameters.numberOfSteps, t);
-        resultVector.writeTimeIntegrationVector(snapshotIndex);
-        snapshotTime[snapshotIndex] = t;
-        snapshotIndex++;
-    }
+    // Save the last snapshot, the loop only saved those before a time step.
+    logger(DEBUG, "Writing snapshot at timestep %, (t=%)",
+           parameters.numberOfSteps, t);
+    resultVector.writeTimeIntegrationVector(snapshotIndex);
+    snapshotTime[snapshotIndex] = t;
+    snapshotIndex++;
     // Save the number of snapshots for writing the output.
     numberOfSnapshots = snapshotIndex;
 }
-- 
2.43.0


From f36ecc3e5e607c082a981fb70b06a2feee481e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:39 +0000
Subject: [PATCH 48/49] fix: Maxwell time integration starts from the given
 field in a dielectric too

---
 .../DG-Max/Algorithms/DGMaxTimeIntegration.cpp    | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
index ac55b5b..72e27bb 100644
--- a/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxTimeIntegration.cpp
@@ -43,6 +43,8 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "Utilities/GlobalMatrix.h"
 #include "Utilities/GlobalVector.h"
 
+#include "ElementInfos.h"
+
 using namespace hpgem;
 
 template <std::size_t DIM>
@@ -88,15 +90,20 @@ void DGMaxTimeIntegration<DIM>::solve(
         [&input](const Base::Element&, const Geometry::PointPhysical<DIM>& p) {
             return input.sourceTermRef(p);
         };
+    // The mass matrix that is inverted for the initial conditions includes the
+    // permittivity.
     elementVectors[DGMaxDiscretizationBase::INITIAL_CONDITION_VECTOR_ID] =
-        [&input](const Base::Element&, const Geometry::PointPhysical<DIM>& p) {
-            return input.initialCondition(p);
+        [&input](const Base::Element& element,
+                 const Geometry::PointPhysical<DIM>& p) {
+            return input.initialCondition(p) *
+                   ElementInfos::get(element).getPermittivity();
         };
     elementVectors
         [DGMaxDiscretizationBase::INITIAL_CONDITION_DERIVATIVE_VECTOR_ID] =
-            [&input](const Base::Element&,
+            [&input](const Base::Element& element,
                      const Geometry::PointPhysical<DIM>& p) {
-                return input.initialConditionDerivative(p);
+                return input.initialConditionDerivative(p) *
+                       ElementInfos::get(element).getPermittivity();
             };
 
     discretization.setMatrixHandling(DGMaxDiscretizationBase::INVERT);
-- 
2.43.0


From 02e8edb44064f25d99ba473d820c0b8d565642e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:31 +0000
Subject: [PATCH 49/49] fix: the trench problem can be used in 3D

---
 .../Harmonic/TrenchReflectionProblem.cpp      | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/applications/DG-Max/ProblemTypes/Harmonic/TrenchReflectionProblem.cpp b/applications/DG-Max/ProblemTypes/Harmonic/TrenchReflectionProblem.cpp
index d9f024b..25f305c 100644
--- a/applications/DG-Max/ProblemTypes/Harmonic/TrenchReflectionProblem.cpp
+++ b/applications/DG-Max/ProblemTypes/Harmonic/TrenchReflectionProblem.cpp
@@ -63,10 +63,20 @@ TrenchReflectionProblem<dim>::TrenchReflectionProblem(double omega,
     logger.assert_always(ky2 > 0,
                          "Frequency too low to support the transverse wave");
     double ky = std::sqrt(ky2);
-    waveIn1_ = PlaneWave<dim>({kx, ky}, {1, -kx / ky}, 0.0);
-    waveIn2_ = PlaneWave<dim>({-kx, ky}, {1, kx / ky}, 0.0);
-    waveR1_ = PlaneWave<dim>({kx, -ky}, {1, kx / ky}, 0.0);
-    waveR2_ = PlaneWave<dim>({-kx, -ky}, {1, -kx / ky}, 0.0);
+    // Wave with wave vector <kx, ky, 0> and field <1, Ey, 0>
+    auto planeWave = [](double kx, double ky, double Ey) {
+        LinearAlgebra::SmallVector<dim> k;
+        LinearAlgebra::SmallVectorC<dim> E0;
+        k[0] = kx;
+        k[1] = ky;
+        E0[0] = 1.0;
+        E0[1] = Ey;
+        return PlaneWave<dim>(k, E0, 0.0);
+    };
+    waveIn1_ = planeWave(kx, ky, -kx / ky);
+    waveIn2_ = planeWave(-kx, ky, kx / ky);
+    waveR1_ = planeWave(kx, -ky, kx / ky);
+    waveR2_ = planeWave(-kx, -ky, -kx / ky);
 }
 
 template <std::size_t dim>
@@ -74,7 +84,9 @@ BoundaryConditionType TrenchReflectionProblem<dim>::getBoundaryConditionType(
     const Base::Face& face) const {
 
     auto normal = face.getNormalVector(
-        face.getReferenceGeometry()->getCenter().castDimension<1>());
+        face.getReferenceGeometry()
+            ->getCenter()
+            .template castDimension<dim - 1>());
     normal /= normal.l2Norm();
     if (std::abs(normal[0]) > 1e-8) {
         return BoundaryConditionType::DIRICHLET;
@@ -232,7 +244,8 @@ double TrenchReflectionProblem<dim>::farSideL2FieldIntegral() const {
     double ky = waveIn1_.waveVector()[1];
 
     // Value of the individual fields x=0, y=yL
-    Geometry::PointPhysical<dim> pPhys = {0, length_};
+    Geometry::PointPhysical<dim> pPhys;
+    pPhys[1] = length_;
     auto fieldIn1 = waveIn1_.field(pPhys);
     auto fieldIn2 = waveIn2_.field(pPhys);
     auto fieldR1 = waveR1_.field(pPhys);
-- 
2.43.0

