From 624d66b66766615a82217a8732f70da2af75780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:31 +0000
Subject: [PATCH 01/62] fix: BLAS1 ordinal fill iterates over the list of
 ordinals, not over the output

The kernel ran once per output entry and indexed the ordinal and value
lists with it: with fewer ordinals than output entries it read past the
end of both lists and wrote through the garbage ordinals.
---
 src/BLAS1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BLAS1.hpp b/src/BLAS1.hpp
index b77afa6..327bcdc 100644
--- a/src/BLAS1.hpp
+++ b/src/BLAS1.hpp
@@ -156,7 +156,7 @@ inline void fill(const Plato::Scalar & aMultiplier,
         THROWERR(tMsg.str().c_str())
     }
 
-    const Plato::OrdinalType tNumLocalVals = aOutput.size();
+    const Plato::OrdinalType tNumLocalVals = aOrdinals.size();
     Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumLocalVals), LAMBDA_EXPRESSION(const Plato::OrdinalType & aIndex)
     {
         aOutput(aOrdinals(aIndex)) = aMultiplier * aValues(aIndex);
-- 
2.43.0


From 1ae8bdabfd90b42e977a9de8c95ac66634b4e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:32 +0000
Subject: [PATCH 02/62] fix: do not read past the row map when expanding a
 block matrix

The row-map kernels of getDataAsNonBlock run for one index past the last
row and read the row-map entry after the last one there.
---
 src/PlatoMathHelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PlatoMathHelpers.hpp b/src/PlatoMathHelpers.hpp
index 58d05f5..5ea75a7 100644
--- a/src/PlatoMathHelpers.hpp
+++ b/src/PlatoMathHelpers.hpp
@@ -210,7 +210,7 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / tNumRowsPerBlock;
             auto tLocalRowIndex = tMatrixRowIndex % tNumRowsPerBlock;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            auto tTo   = (tLocalRowIndex == 0) ? tFrom : tRowMap(tBlockRowIndex+1); // last index has no next block row
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * tBlockSize + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
@@ -221,7 +221,7 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / aRowStride;
             auto tLocalRowIndex = tMatrixRowIndex % aRowStride;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            auto tTo   = (tLocalRowIndex == 0) ? tFrom : tRowMap(tBlockRowIndex+1); // last index has no next block row
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * aRowStride * tNumColsPerBlock + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
-- 
2.43.0


From 24057673e9283e87ec5a37bb0b2f2b4ea2afd437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:26 +0000
Subject: [PATCH 03/62] fix: constraints listed more than once correct the
 right-hand side once

Two work items of the same constrained dof could both read an off-diagonal
entry before either cleared it, and both subtract it from the right-hand
side. Node sets of different boundary conditions share nodes, so repeated
dofs are ordinary input.
---
 src/ApplyConstraints.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ApplyConstraints.hpp b/src/ApplyConstraints.hpp
index a33dcfb..8f902e2 100644
--- a/src/ApplyConstraints.hpp
+++ b/src/ApplyConstraints.hpp
@@ -48,9 +48,10 @@ template<int NumDofPerNode>
                 else
                 {
                     // correct the rhs to account for the fact that we'll be zeroing out (col,row) as well
-                    // to maintain symmetry
-                    Kokkos::atomic_add(&aRhs(tColumnDofOrdinal), -tMatrixEntries(tEntryOrdinal)*tValue);
-                    tMatrixEntries(tEntryOrdinal) = 0.0;
+                    // to maintain symmetry.  take the entry atomically: if the dof is listed more than once, only one
+                    // of the entries in the list may correct the rhs.
+                    Scalar tEntry = Kokkos::atomic_exchange(&tMatrixEntries(tEntryOrdinal), static_cast<Scalar>(0.0));
+                    Kokkos::atomic_add(&aRhs(tColumnDofOrdinal), -tEntry*tValue);
                     OrdinalType tColRowStart = tRowMap(tColumnNodeOrdinal  );
                     OrdinalType tColRowEnd   = tRowMap(tColumnNodeOrdinal+1);
                     for (OrdinalType tColRowNodeOffset=tColRowStart; tColRowNodeOffset<tColRowEnd; tColRowNodeOffset++)
@@ -115,9 +116,10 @@ applyConstraints(
       else
       {
         // correct the rhs to account for the fact that we'll be zeroing out (col,row) as well
-        // to maintain symmetry
-        Kokkos::atomic_add(&rhs(column), -matrixEntries(entryOrdinal)*value);
-        matrixEntries(entryOrdinal) = 0.0;
+        // to maintain symmetry.  take the entry atomically: if the dof is listed more than once, only one
+        // of the entries in the list may correct the rhs.
+        Scalar entry = Kokkos::atomic_exchange(&matrixEntries(entryOrdinal), static_cast<Scalar>(0.0));
+        Kokkos::atomic_add(&rhs(column), -entry*value);
         OrdinalType colRowStart = rowMap(column  );
         OrdinalType colRowEnd   = rowMap(column+1);
         for (OrdinalType colRowEntryOrdinal=colRowStart; colRowEntryOrdinal<colRowEnd; colRowEntryOrdinal++)
-- 
2.43.0


From 38d5888113f34af50e5c7783b2950012895e48db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:20 +0000
Subject: [PATCH 04/62] fix: shear strains do not depend on the previous
 content of the strain workset

---
 src/ComplexStrain.hpp | 1 +
 src/EMKinematics.hpp  | 1 +
 src/Kinematics.hpp    | 1 +
 src/Strain.hpp        | 1 +
 src/TMKinematics.hpp  | 2 ++
 5 files changed, 6 insertions(+)

diff --git a/src/ComplexStrain.hpp b/src/ComplexStrain.hpp
index d387980..5f6d220 100644
--- a/src/ComplexStrain.hpp
+++ b/src/ComplexStrain.hpp
@@ -58,6 +58,7 @@ public:
             {
                 for (Plato::OrdinalType tIndexI=tIndexJ-1; tIndexI>=0; tIndexI--)
                 {
+                    aStrain(aCellOrdinal, tComplexIndex, tVoigtTerm) = 0.0;
                     for( Plato::OrdinalType tNodeIndex=0; tNodeIndex < tNumNodesPerCell; tNodeIndex++)
                     {
                         Plato::OrdinalType tCellDofI = (tNodeIndex * NumDofsPerNode) + ((SpaceDim * tComplexIndex) + tIndexI);
diff --git a/src/EMKinematics.hpp b/src/EMKinematics.hpp
index 2926a42..3f38df5 100644
--- a/src/EMKinematics.hpp
+++ b/src/EMKinematics.hpp
@@ -46,6 +46,7 @@ class EMKinematics : public Plato::SimplexElectromechanics<SpaceDim>
       }
       for (Plato::OrdinalType jDof=SpaceDim-1; jDof>=1; jDof--){
         for (Plato::OrdinalType iDof=jDof-1; iDof>=0; iDof--){
+          strain(cellOrdinal,voigtTerm)=0.0;
           for( Plato::OrdinalType iNode=0; iNode<mNumNodesPerCell; iNode++){
             Plato::OrdinalType iLocalOrdinal = iNode*mNumDofsPerNode+iDof;
             Plato::OrdinalType jLocalOrdinal = iNode*mNumDofsPerNode+jDof;
diff --git a/src/Kinematics.hpp b/src/Kinematics.hpp
index 1dea873..45562bc 100644
--- a/src/Kinematics.hpp
+++ b/src/Kinematics.hpp
@@ -58,6 +58,7 @@ public:
         {
             for(Plato::OrdinalType tDofI = tDofJ - 1; tDofI >= 0; tDofI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     Plato::OrdinalType tLocalOrdinalI = tNodeIndex * mNumDofsPerNode + tDofI;
diff --git a/src/Strain.hpp b/src/Strain.hpp
index 7956e2f..6f65b2e 100644
--- a/src/Strain.hpp
+++ b/src/Strain.hpp
@@ -82,6 +82,7 @@ public:
         {
             for(Plato::OrdinalType tDofIndexI = tDofIndexJ - 1; tDofIndexI >= 0; tDofIndexI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     auto tLocalOrdinalI = tNodeIndex * NumDofsPerNode + tDofIndexI;
diff --git a/src/TMKinematics.hpp b/src/TMKinematics.hpp
index 7e1f6c6..06b64d2 100644
--- a/src/TMKinematics.hpp
+++ b/src/TMKinematics.hpp
@@ -50,6 +50,7 @@ public:
         {
             for(Plato::OrdinalType tDofIndexI = tDofIndexJ - 1; tDofIndexI >= 0; tDofIndexI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     Plato::OrdinalType tLocalOrdinalI = tNodeIndex * mNumDofsPerNode + tDofIndexI;
@@ -124,6 +125,7 @@ public:
         {
             for(Plato::OrdinalType tDofIndexI = tDofIndexJ - 1; tDofIndexI >= 0; tDofIndexI--)
             {
+                aStrain(aCellOrdinal, tVoigtTerm) = 0.0;
                 for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < mNumNodesPerCell; tNodeIndex++)
                 {
                     Plato::OrdinalType tLocalOrdinalI = tNodeIndex * mNumDofsPerNode + tDofIndexI;
-- 
2.43.0


From ede3020f5710eb935b1d47d24fa00f84a5f19221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:10 +0000
Subject: [PATCH 05/62] fix: complex Rayleigh damping acts on every node of the
 cell

---
 src/AdjointComplexRayleighDamping.hpp | 19 ++++++++++++-------
 src/ComplexRayleighDamping.hpp        | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/AdjointComplexRayleighDamping.hpp b/src/AdjointComplexRayleighDamping.hpp
index db65578..cdabbab 100644
--- a/src/AdjointComplexRayleighDamping.hpp
+++ b/src/AdjointComplexRayleighDamping.hpp
@@ -75,15 +75,20 @@ public:
         assert(aElasticForces.extent(1) == aInertialForces.extent(1));
         assert(aDampingForces.extent(1) == aInertialForces.extent(1));
 
-        for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+        const Plato::OrdinalType tNumDofsPerNode = 2 * SpaceDim;
+        const Plato::OrdinalType tNumDofs = aDampingForces.extent(1);
+        for(Plato::OrdinalType tOffset = 0; tOffset < tNumDofs; tOffset += tNumDofsPerNode)
         {
-            aDampingForces(aCellOrdinal, tDimIndex) = static_cast<Plato::Scalar>(-1) *
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, SpaceDim + tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, SpaceDim + tDimIndex)) );
+            for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+            {
+                aDampingForces(aCellOrdinal, tOffset + tDimIndex) = static_cast<Plato::Scalar>(-1) *
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tOffset + SpaceDim + tDimIndex)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tOffset + SpaceDim + tDimIndex)) );
 
-            aDampingForces(aCellOrdinal, SpaceDim + tDimIndex) =
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, tDimIndex)) );
+                aDampingForces(aCellOrdinal, tOffset + SpaceDim + tDimIndex) =
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tOffset + tDimIndex)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tOffset + tDimIndex)) );
+            }
         }
     }
 };
diff --git a/src/ComplexRayleighDamping.hpp b/src/ComplexRayleighDamping.hpp
index a0bdf29..66c39e3 100644
--- a/src/ComplexRayleighDamping.hpp
+++ b/src/ComplexRayleighDamping.hpp
@@ -72,15 +72,20 @@ public:
         assert(aElasticForces.extent(1) == aInertialForces.extent(1));
         assert(aDampingForces.extent(1) == aInertialForces.extent(1));
 
-        for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+        const Plato::OrdinalType tNumDofsPerNode = 2 * SpaceDim;
+        const Plato::OrdinalType tNumDofs = aDampingForces.extent(1);
+        for(Plato::OrdinalType tOffset = 0; tOffset < tNumDofs; tOffset += tNumDofsPerNode)
         {
-            aDampingForces(aCellOrdinal, tDimIndex) = 
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, SpaceDim + tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, SpaceDim + tDimIndex)) );
+            for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+            {
+                aDampingForces(aCellOrdinal, tOffset + tDimIndex) = 
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tOffset + SpaceDim + tDimIndex)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tOffset + SpaceDim + tDimIndex)) );
 
-            aDampingForces(aCellOrdinal, SpaceDim + tDimIndex) = static_cast<Plato::Scalar>(-1) *
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, tDimIndex)) );
+                aDampingForces(aCellOrdinal, tOffset + SpaceDim + tDimIndex) = static_cast<Plato::Scalar>(-1) *
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tOffset + tDimIndex)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tOffset + tDimIndex)) );
+            }
         }
     }
 };
-- 
2.43.0


From ae551e8db0862b1e5066e6ea9c53e476edb74879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:41 +0000
Subject: [PATCH 06/62] fix: principal values of 2D tensors with negative shear

---
 src/Eigenvalues.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Eigenvalues.hpp b/src/Eigenvalues.hpp
index 62a23e4..bc591be 100644
--- a/src/Eigenvalues.hpp
+++ b/src/Eigenvalues.hpp
@@ -194,7 +194,7 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
     ResultType tTensor11 = aVoigtTensor(aCellOrdinal, 0);
     ResultType tTensor22 = aVoigtTensor(aCellOrdinal, 1);
     ResultType tTau = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tTau = (tTensor22 - tTensor11) / (tTwo * tTensor12);
 
     ResultType tTangent = tMinusOne / (sqrt(tOne + tTau*tTau) - tTau);
@@ -203,9 +203,9 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
 
     ResultType tCosine = tOne;
     ResultType tSine   = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tCosine = tOne / sqrt(tOne + tTangent*tTangent);
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tSine   = tTangent * tCosine;
 
     aEigenvalues(aCellOrdinal, 0) = tCosine * (tTensor11*tCosine - tTensor12*tSine) -
-- 
2.43.0


From 7309bf3199266baff362d388a20bed58a2367bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:04 +0000
Subject: [PATCH 07/62] fix: a Bingo equation past the end of the table is an
 error

---
 src/CustomMaterial.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/CustomMaterial.cpp b/src/CustomMaterial.cpp
index f8c3a23..dce41a3 100644
--- a/src/CustomMaterial.cpp
+++ b/src/CustomMaterial.cpp
@@ -90,10 +90,15 @@ CustomMaterial::GetCustomExpressionValue(
           line.clear();
 
           // Read the equation requested, default is the first.
-          while( std::getline(infile, line) && equationIndex > 0)
+          bool lineRead = static_cast<bool>(std::getline(infile, line));
+
+          while( lineRead && equationIndex > 0)
+          {
             --equationIndex;
+            lineRead = static_cast<bool>(std::getline(infile, line));
+          }
 
-          if( line.empty() || equationIndex != 0 )
+          if( !lineRead || line.empty() || equationIndex != 0 )
           {
             THROWERR( "Cannot find Bingo equation requested." );
           }
-- 
2.43.0


From b7c58d6b877f05363cb8e38f87ad328ed845bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:20 +0000
Subject: [PATCH 08/62] fix: only sqrt is read as the square root function

---
 src/ExpressionEvaluator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 983b20b..5397010 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -693,7 +693,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
       expPtr += 3-1;
       node.ID = LOG;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "sqrt", 3) ) {
+    else if( 0 == strncmp(expPtr-1, "sqrt", 4) ) {
       expPtr += 4-1;
       node.ID = SQRT;  node.precedence = 7;  info = LeftAssociative;
     }
-- 
2.43.0


From c2cddbc078a8960f7486508ae978dee64b87d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:20 +0000
Subject: [PATCH 09/62] fix: the arguments of pow are whole expressions

---
 src/ExpressionEvaluator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 5397010..8a56b47 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -717,7 +717,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     else if( c == ',' ) {
       if( twoParamFunctionIDs.size() )
       {
-        node.ID = twoParamFunctionIDs.back();  node.precedence = 5;  info = LeftAssociative;
+        node.ID = twoParamFunctionIDs.back();  node.precedence = 1;  info = LeftAssociative;
         twoParamFunctionIDs.pop_back();
         twoParamFunctionLocations.pop_back();
       }
-- 
2.43.0


From 2a4a2a9501d044de8562f4c975b5f2a061ca4771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:47 +0000
Subject: [PATCH 10/62] fix: an abandoned expression tree is released

---
 src/ExpressionEvaluator.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 8a56b47..4898dec 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -443,8 +443,7 @@ ExpressionEvaluator::insert_node_item(       Node* current,
   else
   {
     // Step 5.1: create the new node
-    Node* node = new Node;
-    *node = item;
+    Node* node = new Node( item );
 
     node->right = nullptr;
 
@@ -496,6 +495,14 @@ void ExpressionEvaluator::parse_expression( const char* expression )
   root.right      = nullptr;
   root.left       = nullptr;
 
+  // Delete the nodes inserted so far if the parsing is abandoned.
+  struct TreeGuard
+  {
+    const ExpressionEvaluator* evaluator;
+    Node* root;
+    ~TreeGuard() { evaluator->deleteNode( root->right ); }
+  } treeGuard{ this, &root };
+
   Node *current = &root, previous = root;
 
   // For tracking two parameter functions and open operands
@@ -1027,6 +1034,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
 
   // Return the actual top level root node
   mTree = root.right;
+  root.right = nullptr;
 }
 
 } // namespace Plato
-- 
2.43.0


From 4b5702bc49cef00243155331de9ac54163c51780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:01 +0000
Subject: [PATCH 11/62] fix: keep defaults for absent keys in penalty
 setParameters

A missing key dereferenced the map's end iterator after the default had been set,
and Heaviside stored the regularization length as the minimum value.
---
 src/Heaviside.hpp | 22 +++++++++++++++++-----
 src/Ramp.hpp      | 15 ++++++++++++---
 src/Simp.hpp      | 15 ++++++++++++---
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/Heaviside.hpp b/src/Heaviside.hpp
index 4aad7d5..8f69853 100644
--- a/src/Heaviside.hpp
+++ b/src/Heaviside.hpp
@@ -78,28 +78,40 @@ public:
         {
             mPenaltyParam = 1.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Regularization Length");
         if(tParamMapIterator == aInputs.end())
         {
-            mMinValue = 1.0; // default value
+            mRegLength = 1.0; // default value
+        }
+        else
+        {
+            mRegLength = tParamMapIterator->second;
         }
-        mMinValue = tParamMapIterator->second;
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Ramp.hpp b/src/Ramp.hpp
index 6d593b6..1ef9078 100644
--- a/src/Ramp.hpp
+++ b/src/Ramp.hpp
@@ -69,21 +69,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Simp.hpp b/src/Simp.hpp
index afdd661..23d46c9 100644
--- a/src/Simp.hpp
+++ b/src/Simp.hpp
@@ -77,21 +77,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
-- 
2.43.0


From e80ffbde1dea81ffa73da4743451af2a6e6cea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:25 +0000
Subject: [PATCH 12/62] fix: MSIMP: do not keep a dangling expression of an AD
 temporary

With Fad types the auto result held a reference to the temporary 1.0 after the
full expression; evaluating it on return read a dead object.
---
 src/Simp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simp.hpp b/src/Simp.hpp
index 23d46c9..75054ea 100644
--- a/src/Simp.hpp
+++ b/src/Simp.hpp
@@ -138,7 +138,7 @@ public:
     template<typename ScalarType>
     DEVICE_TYPE inline ScalarType operator()( const ScalarType & aInput ) const
     {
-        auto tOutput = mMinValue + ( (static_cast<ScalarType>(1.0) - mMinValue) * pow(aInput, mPenaltyParam) );
+        ScalarType tOutput = mMinValue + ( (static_cast<ScalarType>(1.0) - mMinValue) * pow(aInput, mPenaltyParam) );
         return tOutput;
     }
 };
-- 
2.43.0


From b9a80b85bc6d2107715f9e7704288c34b613d07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:17 +0000
Subject: [PATCH 13/62] fix: name the infinite-norm stop reason in the
 Newton-Raphson record

---
 src/NewtonRaphsonUtilities.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/NewtonRaphsonUtilities.hpp b/src/NewtonRaphsonUtilities.hpp
index 5161ef0..d8cdece 100644
--- a/src/NewtonRaphsonUtilities.hpp
+++ b/src/NewtonRaphsonUtilities.hpp
@@ -173,6 +173,11 @@ inline void print_newton_raphson_stop_criterion(const Plato::NewtonRaphsonOutput
             aOutputFile << "\n\n******  MAJOR FAILURE: Newton-Raphson algorithm stopping due to NaN norm values detected. ******\n\n";
             break;
         }
+        case Plato::NewtonRaphson::INFINITE_NORM_VALUE:
+        {
+            aOutputFile << "\n\n******  MAJOR FAILURE: Newton-Raphson algorithm stopping due to infinite norm values detected. ******\n\n";
+            break;
+        }
         case Plato::NewtonRaphson::DID_NOT_CONVERGE:
         {
             aOutputFile << "\n\n****** Newton-Raphson algorithm did not converge. ******\n\n";
-- 
2.43.0


From 28b8cd809ef648f80bb175ee0a596d3d451a42b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:44 +0000
Subject: [PATCH 14/62] fix: report a thrust profile that could not be written

---
 src/Plato_AlgebraicRocketModel.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Plato_AlgebraicRocketModel.hpp b/src/Plato_AlgebraicRocketModel.hpp
index 076a4f1..415a3ba 100644
--- a/src/Plato_AlgebraicRocketModel.hpp
+++ b/src/Plato_AlgebraicRocketModel.hpp
@@ -61,6 +61,7 @@
 #include <fstream>
 
 #include "Plato_GeometryModel.hpp"
+#include "AnalyzeMacros.hpp"
 
 namespace Plato
 {
@@ -386,11 +387,19 @@ private:
     {
         std::ofstream tFile;
         tFile.open("thrust_profile.txt");
+        if(tFile.is_open() == false)
+        {
+            THROWERR("Algebraic Rocket Model: Failed to open file 'thrust_profile.txt'.")
+        }
         for(size_t tIndex =0; tIndex < mThrustProfile.size(); tIndex++)
         {
             tFile << mThrustProfile[tIndex] << "\n";
         }
         tFile.close();
+        if(tFile.fail())
+        {
+            THROWERR("Algebraic Rocket Model: Failed to write file 'thrust_profile.txt'.")
+        }
     }
 
 private:
-- 
2.43.0


From 5c80e0f31c9457bd1ece00b5acc483a366cdcf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:20 +0000
Subject: [PATCH 15/62] fix: tensor norms use the exponent they were given

A real exponent was truncated to an integer in the cell norms but not when the
root is taken, and giving an integer Barlat exponent raised a type error.
---
 src/TensorPNorm.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index 5b8b7e7..4f12d27 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -29,7 +29,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -81,7 +81,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -128,7 +128,7 @@ public:
         auto p = params.sublist("Normalize").sublist("Barlat");
         if(p.isType < Plato::OrdinalType > ("Barlat Exponent"))
         {
-            mBarlatExponent = p.get<Plato::Scalar>("Barlat Exponent");
+            mBarlatExponent = p.get<Plato::OrdinalType>("Barlat Exponent");
         }
         if(p.isType<Plato::Scalar>("Reference Weight"))
         {
@@ -182,7 +182,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
         TensorScalarType s[barlatLength] = {0.0};
-- 
2.43.0


From d030331cd9e1c27d6007cfdc74ff9157cc34a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:37 +0000
Subject: [PATCH 16/62] fix: Barlat norm of stresses with equal principal
 values is a number

Rounding took the angle's cosine outside [-1,1], and zero stress divided by zero.
---
 src/TensorPNorm.hpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index 4f12d27..c58b8b6 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -235,22 +235,38 @@ public:
         if(Hp1 * Hp1 + Hp2 > 0.0)
             Pp = Hp1 * Hp1 + Hp2;
         TensorScalarType Qp = (2.0 * Hp1 * Hp1 * Hp1 + 3.0 * Hp1 * Hp2 + 2.0 * Hp3) / 2.0;
-        TensorScalarType Thetap = acos(Qp / pow(Pp, 3.0 / 2.0));
+        TensorScalarType Thetap = 0.0;
+        if(Pp > 0.0)
+        {
+            TensorScalarType CosThetap = Qp / pow(Pp, 3.0 / 2.0);
+            if(CosThetap <= -1.0)
+                Thetap = acos(-1.0);
+            else if(CosThetap < 1.0)
+                Thetap = acos(CosThetap);
+        }
 
         TensorScalarType Ppp = 0.0;
         if(Hpp1 * Hpp1 + Hpp2 > 0.0)
             Ppp = Hpp1 * Hpp1 + Hpp2;
         TensorScalarType Qpp = (2.0 * Hpp1 * Hpp1 * Hpp1 + 3.0 * Hpp1 * Hpp2 + 2.0 * Hpp3) / 2.0;
-        TensorScalarType Thetapp = acos(Qpp / pow(Ppp, 3.0 / 2.0));
+        TensorScalarType Thetapp = 0.0;
+        if(Ppp > 0.0)
+        {
+            TensorScalarType CosThetapp = Qpp / pow(Ppp, 3.0 / 2.0);
+            if(CosThetapp <= -1.0)
+                Thetapp = acos(-1.0);
+            else if(CosThetapp < 1.0)
+                Thetapp = acos(CosThetapp);
+        }
 
         //Apply the analytic solutions for the SVD stress deviators
-        TensorScalarType Sp1 = (Hp1 + 2.0 * sqrt(Hp1 * Hp1 + Hp2) * cos(Thetap / 3.0));
-        TensorScalarType Sp2 = (Hp1 + 2.0 * sqrt(Hp1 * Hp1 + Hp2) * cos((Thetap + 4.0 * acos(-1.0)) / 3.0));
-        TensorScalarType Sp3 = (Hp1 + 2.0 * sqrt(Hp1 * Hp1 + Hp2) * cos((Thetap + 2.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Sp1 = (Hp1 + 2.0 * sqrt(Pp) * cos(Thetap / 3.0));
+        TensorScalarType Sp2 = (Hp1 + 2.0 * sqrt(Pp) * cos((Thetap + 4.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Sp3 = (Hp1 + 2.0 * sqrt(Pp) * cos((Thetap + 2.0 * acos(-1.0)) / 3.0));
 
-        TensorScalarType Spp1 = (Hpp1 + 2.0 * sqrt(Hpp1 * Hpp1 + Hpp2) * cos(Thetapp / 3.0));
-        TensorScalarType Spp2 = (Hpp1 + 2.0 * sqrt(Hpp1 * Hpp1 + Hpp2) * cos((Thetapp + 4.0 * acos(-1.0)) / 3.0));
-        TensorScalarType Spp3 = (Hpp1 + 2.0 * sqrt(Hpp1 * Hpp1 + Hpp2) * cos((Thetapp + 2.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Spp1 = (Hpp1 + 2.0 * sqrt(Ppp) * cos(Thetapp / 3.0));
+        TensorScalarType Spp2 = (Hpp1 + 2.0 * sqrt(Ppp) * cos((Thetapp + 4.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Spp3 = (Hpp1 + 2.0 * sqrt(Ppp) * cos((Thetapp + 2.0 * acos(-1.0)) / 3.0));
 
         //Apply the Barlat yield function to get effective response.
         pnorm(cellOrdinal) = pow((pow(Sp1 - Spp1, mBarlatExponent) + pow(Sp1 - Spp2, mBarlatExponent)
-- 
2.43.0


From 7d3cded1f837b3c70796d6f5782cabefdcf3efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:42 +0000
Subject: [PATCH 17/62] fix: refuse Barlat transformation rows that are not six
 values long

---
 src/TensorPNorm.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index c58b8b6..dbe0a3c 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -5,6 +5,7 @@
 
 #include "PlatoStaticsTypes.hpp"
 #include "SimplexFadTypes.hpp"
+#include "AnalyzeMacros.hpp"
 
 namespace Plato
 {
@@ -143,6 +144,10 @@ public:
             std::stringstream ss;
             ss << "T1" << i;
             auto vals = p.get<Teuchos::Array<Plato::Scalar>>(ss.str());
+            if(vals.size() != barlatLength)
+            {
+                THROWERR("Barlat Norm: Row '" + ss.str() + "' does not have six values.")
+            }
             for(Plato::OrdinalType j = 0; j < barlatLength; j++)
                 cp[i][j] = vals[j];
         }
@@ -152,6 +157,10 @@ public:
             std::stringstream ss;
             ss << "T2" << i;
             auto vals = p.get<Teuchos::Array<Plato::Scalar>>(ss.str());
+            if(vals.size() != barlatLength)
+            {
+                THROWERR("Barlat Norm: Row '" + ss.str() + "' does not have six values.")
+            }
             for(Plato::OrdinalType j = 0; j < barlatLength; j++)
                 cpp[i][j] = vals[j];
         }
-- 
2.43.0


From cc534d47d2e86d7f25c2e1e2900eca2d0b7f3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:20 +0000
Subject: [PATCH 18/62] fix: the 1D Voigt map addresses the only tensor
 component

---
 src/VoigtMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VoigtMap.hpp b/src/VoigtMap.hpp
index 0fd3aa0..de52cf9 100644
--- a/src/VoigtMap.hpp
+++ b/src/VoigtMap.hpp
@@ -10,7 +10,7 @@ namespace Plato {
   struct VoigtMap<1> {
     Plato::OrdinalType I[1];
     Plato::OrdinalType J[1];
-    VoigtMap() : I{1}, J{1} {}
+    VoigtMap() : I{0}, J{0} {}
   };
   template<>
   struct VoigtMap<2> {
-- 
2.43.0


From c6fddc25435b80242d16756bd275e3ad5d5b980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:20 +0000
Subject: [PATCH 19/62] fix: temperature dependent isotropic stiffness in 1D
 divides by (1+v)(1-2v)

---
 src/IsotropicStiffness.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/IsotropicStiffness.cpp b/src/IsotropicStiffness.cpp
index 6bdad7d..aaaf5b7 100644
--- a/src/IsotropicStiffness.cpp
+++ b/src/IsotropicStiffness.cpp
@@ -14,9 +14,9 @@ namespace Plato {
       T E1 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c1", 0.0);
       T E2 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c2", 0.0);
 
-      c0[0][0] = E0*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c1[0][0] = E1*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c2[0][0] = E2*((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      c0[0][0] = E0/((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      c1[0][0] = E1/((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      c2[0][0] = E2/((1.0+v)*(1.0-2.0*v))*(1.0-v);
   }
 
   template<>
-- 
2.43.0


From 28496d002548435a7ddd2f3a6f1c910457dbfb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:20 +0000
Subject: [PATCH 20/62] fix: anisotropic thermoelastic stiffness is read from
 the material's list

---
 src/ThermoelasticMaterial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermoelasticMaterial.hpp b/src/ThermoelasticMaterial.hpp
index e797a1d..ce259b0 100644
--- a/src/ThermoelasticMaterial.hpp
+++ b/src/ThermoelasticMaterial.hpp
@@ -54,7 +54,7 @@ namespace Plato {
       }
       else
       {
-          this->parseRank4Voigt("Elastic Stiffness", tParams);
+          this->parseRank4Voigt("Elastic Stiffness", paramList);
       }
   }
 
-- 
2.43.0


From edd956f2ac02efa0ad9d6d69036200a50f1f22e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:54 +0000
Subject: [PATCH 21/62] fix: a thermoelastic stiffness is kept in the form its
 model type is evaluated with

---
 src/ThermoelasticMaterial.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ThermoelasticMaterial.hpp b/src/ThermoelasticMaterial.hpp
index ce259b0..81b30db 100644
--- a/src/ThermoelasticMaterial.hpp
+++ b/src/ThermoelasticMaterial.hpp
@@ -45,12 +45,26 @@ namespace Plato {
       auto tParams = paramList.sublist("Elastic Stiffness");
       if (tParams.isSublist("Youngs Modulus"))
       {
+          if (this->type() == Plato::MaterialModelType::Linear)
+          {
+              THROWERR("Found a temperature dependent 'Youngs Modulus' in a linear model. Set Parameter 'Temperature Dependent' to 'true'.");
+          }
           this->setRank4VoigtFunctor("Elastic Stiffness", Plato::IsotropicStiffnessFunctor<SpatialDim>(tParams));
       }
       else
       if (tParams.isType<Plato::Scalar>("Youngs Modulus"))
       {
-          this->setRank4VoigtConstant("Elastic Stiffness", Plato::IsotropicStiffnessConstant<SpatialDim>(tParams));
+          if (this->type() == Plato::MaterialModelType::Nonlinear)
+          {
+              auto tYoungsModulus = tParams.get<Plato::Scalar>("Youngs Modulus");
+              tParams.remove("Youngs Modulus");
+              tParams.sublist("Youngs Modulus").set("c0", tYoungsModulus);
+              this->setRank4VoigtFunctor("Elastic Stiffness", Plato::IsotropicStiffnessFunctor<SpatialDim>(tParams));
+          }
+          else
+          {
+              this->setRank4VoigtConstant("Elastic Stiffness", Plato::IsotropicStiffnessConstant<SpatialDim>(tParams));
+          }
       }
       else
       {
-- 
2.43.0


From fad98efd0d842c2510baf54739cab281c974808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:43 +0000
Subject: [PATCH 22/62] fix: cell_mass keeps each term as a value, so that it
 can be differentiated

---
 src/Plato_TopOptFunctors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Plato_TopOptFunctors.hpp b/src/Plato_TopOptFunctors.hpp
index 7c402ca..1ee0773 100644
--- a/src/Plato_TopOptFunctors.hpp
+++ b/src/Plato_TopOptFunctors.hpp
@@ -32,7 +32,7 @@ cell_mass(const Plato::OrdinalType & aCellOrdinal,
         ControlType tNodalMass = 0.0;
         for(Plato::OrdinalType tIndex_J = 0; tIndex_J < CellNumNodes; tIndex_J++)
         {
-            auto tValue = aBasisFunc(tIndex_I) * aBasisFunc(tIndex_J) * aCellControls(aCellOrdinal, tIndex_J);
+            ControlType tValue = aBasisFunc(tIndex_I) * aBasisFunc(tIndex_J) * aCellControls(aCellOrdinal, tIndex_J);
             tNodalMass += tValue;
         }
         tCellMass += tNodalMass;
-- 
2.43.0


From fc775b82cb79f108f9b76c72c78343d73e37ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 23/62] fix: a time expression keeps all digits of small times

The time was substituted with 18 digits after the point, so a time of
1e-10 kept eight significant digits and one below 1e-18 became zero.
(The expression reader does not accept the scientific form the stream
would print.)
---
 src/PlatoMathExpr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PlatoMathExpr.hpp b/src/PlatoMathExpr.hpp
index a321984..945d073 100644
--- a/src/PlatoMathExpr.hpp
+++ b/src/PlatoMathExpr.hpp
@@ -81,7 +81,7 @@ class MathExpr
     {
         Teuchos::any result_any;
         std::stringstream ss;
-        ss << "t=" << std::fixed << std::setprecision(18) << aInVal << "; " << mExpression;
+        ss << "t=" << std::fixed << std::setprecision(40) << aInVal << "; " << mExpression;
         mReader->read_string(result_any, ss.str(), "expression");
         auto result = Teuchos::any_cast<Plato::Scalar>(result_any);
         return result;
-- 
2.43.0


From 6c6cb2b2d597129960572c06bbcac8dbdc9f233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:58 +0000
Subject: [PATCH 24/62] fix: a time expression that cannot be assembled is an
 error, not a truncated expression

The stream swallowed failed allocations, so the beginning of a long
expression could be evaluated in place of the whole.
---
 src/PlatoMathExpr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PlatoMathExpr.hpp b/src/PlatoMathExpr.hpp
index 945d073..52d7cee 100644
--- a/src/PlatoMathExpr.hpp
+++ b/src/PlatoMathExpr.hpp
@@ -81,6 +81,7 @@ class MathExpr
     {
         Teuchos::any result_any;
         std::stringstream ss;
+        ss.exceptions(std::ios::badbit);
         ss << "t=" << std::fixed << std::setprecision(40) << aInVal << "; " << mExpression;
         mReader->read_string(result_any, ss.str(), "expression");
         auto result = Teuchos::any_cast<Plato::Scalar>(result_any);
-- 
2.43.0


From f54eb37e1512b43c8ba05f51ae5ce1fe337a34de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:29 +0000
Subject: [PATCH 25/62] fix: errors reported by AmgX are not ignored

The return codes of all calls between initialization and destruction were
dropped: a failed upload or setup left the previous system (or an
uninitialized handle) in use and the solve returned as if it had
succeeded.
---
 src/alg/AmgXLinearSolver.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/alg/AmgXLinearSolver.cpp b/src/alg/AmgXLinearSolver.cpp
index 51aa89c..846d115 100644
--- a/src/alg/AmgXLinearSolver.cpp
+++ b/src/alg/AmgXLinearSolver.cpp
@@ -96,7 +96,7 @@ AmgXLinearSolver::AmgXLinearSolver(
         tConfigFile = aSolverParams.get<std::string>("Configuration File");
     }
     auto tConfigString = loadConfigString(tConfigFile);
-    AMGX_config_create(&mConfigHandle, tConfigString.c_str());
+    AMGX_SAFE_CALL(AMGX_config_create(&mConfigHandle, tConfigString.c_str()));
 
     if(aSolverParams.isType<bool>("Divergence is Fatal"))
     {
@@ -109,13 +109,13 @@ AmgXLinearSolver::AmgXLinearSolver(
     int devices[1];
     //it is critical to specify the current device, which is not always zero
     cudaGetDevice(&devices[0]);
-    AMGX_resources_create(
-        &mResources, mConfigHandle, &mpi_comm, ndevices, devices);
+    AMGX_SAFE_CALL(AMGX_resources_create(
+        &mResources, mConfigHandle, &mpi_comm, ndevices, devices));
 
-    AMGX_matrix_create(&mMatrixHandle,   mResources, AMGX_mode_dDDI);
-    AMGX_vector_create(&mForcingHandle,  mResources, AMGX_mode_dDDI);
-    AMGX_vector_create(&mSolutionHandle, mResources, AMGX_mode_dDDI);
-    AMGX_solver_create(&mSolverHandle,   mResources, AMGX_mode_dDDI, mConfigHandle);
+    AMGX_SAFE_CALL(AMGX_matrix_create(&mMatrixHandle,   mResources, AMGX_mode_dDDI));
+    AMGX_SAFE_CALL(AMGX_vector_create(&mForcingHandle,  mResources, AMGX_mode_dDDI));
+    AMGX_SAFE_CALL(AMGX_vector_create(&mSolutionHandle, mResources, AMGX_mode_dDDI));
+    AMGX_SAFE_CALL(AMGX_solver_create(&mSolverHandle,   mResources, AMGX_mode_dDDI, mConfigHandle));
 }
 
 /******************************************************************************//**
@@ -140,18 +140,18 @@ AmgXLinearSolver::solve(
     const int *col_map = aA.columnIndices().data();
     const void *data   = aA.entries().data();
     const void *diag   = nullptr; // no exterior diagonal
-    AMGX_matrix_upload_all(mMatrixHandle, N/mDofsPerNode, nnz, mDofsPerNode, mDofsPerNode, row_map, col_map, data, diag);
+    AMGX_SAFE_CALL(AMGX_matrix_upload_all(mMatrixHandle, N/mDofsPerNode, nnz, mDofsPerNode, mDofsPerNode, row_map, col_map, data, diag));
 
-    AMGX_vector_upload(mForcingHandle, aB.size()/mDofsPerNode, mDofsPerNode, aB.data());
-    AMGX_vector_upload(mSolutionHandle, aX.size()/mDofsPerNode, mDofsPerNode, aX.data());
+    AMGX_SAFE_CALL(AMGX_vector_upload(mForcingHandle, aB.size()/mDofsPerNode, mDofsPerNode, aB.data()));
+    AMGX_SAFE_CALL(AMGX_vector_upload(mSolutionHandle, aX.size()/mDofsPerNode, mDofsPerNode, aX.data()));
 
-    AMGX_solver_setup(mSolverHandle, mMatrixHandle);
+    AMGX_SAFE_CALL(AMGX_solver_setup(mSolverHandle, mMatrixHandle));
 
     int err = cudaDeviceSynchronize();
     assert(err == cudaSuccess);
-    auto solverErr = AMGX_solver_solve(mSolverHandle, mForcingHandle, mSolutionHandle);
+    AMGX_SAFE_CALL(AMGX_solver_solve(mSolverHandle, mForcingHandle, mSolutionHandle));
     AMGX_SOLVE_STATUS tStatus;
-    AMGX_solver_get_status(mSolverHandle, &tStatus);
+    AMGX_SAFE_CALL(AMGX_solver_get_status(mSolverHandle, &tStatus));
     if (tStatus == AMGX_SOLVE_FAILED)
     {
         THROWERR("AMGX Solver Failed!");
@@ -167,7 +167,7 @@ AmgXLinearSolver::solve(
             WARNING("AMGX Solver Diverged!");
         }
     }
-    AMGX_vector_download(mSolutionHandle, mSolution.data());
+    AMGX_SAFE_CALL(AMGX_vector_download(mSolutionHandle, mSolution.data()));
 }
 
 /******************************************************************************//**
-- 
2.43.0


From c2464c3de5c26e58aff5dc79c32c7b6c3282d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:29 +0000
Subject: [PATCH 26/62] fix: an AmgX configuration that cannot be assembled is
 an error, not a truncated one

---
 src/alg/AmgXConfigs.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/alg/AmgXConfigs.cpp b/src/alg/AmgXConfigs.cpp
index c2a7636..2e9aa8e 100644
--- a/src/alg/AmgXConfigs.cpp
+++ b/src/alg/AmgXConfigs.cpp
@@ -9,6 +9,7 @@ namespace Plato
   {
       using namespace std;
       std::ostringstream tStrStream;
+      tStrStream.exceptions(std::ios::badbit);
       if(aConfigOption == "eaf")
       {
           tStrStream <<
-- 
2.43.0


From 0a56c0232bc508de171e73b309ab97980d02d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:05 +0000
Subject: [PATCH 27/62] fix: an AmgX configuration file that cannot be read is
 an error

A read error ended the file, and AmgX ran with its beginning (with
nothing: with the library's own defaults).
---
 src/alg/AmgXLinearSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/alg/AmgXLinearSolver.cpp b/src/alg/AmgXLinearSolver.cpp
index 846d115..9ecbec9 100644
--- a/src/alg/AmgXLinearSolver.cpp
+++ b/src/alg/AmgXLinearSolver.cpp
@@ -25,6 +25,9 @@ AmgXLinearSolver::loadConfigString(std::string aConfigFile)
       std::istringstream iss(line);
       config << iss.str();
     }
+    if(infile.bad() || !config){
+      THROWERR("AmgX configuration file could not be read.");
+    }
     configString = config.str();
   } else {
     std::cout << "*** Warning" << std::endl;
-- 
2.43.0


From 6de9838fd76a6531c3305bf47f31b65ae4936021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:06 +0000
Subject: [PATCH 28/62] fix: move the prescribed columns, not the prescribed
 rows, to the right-hand side

The correction used entry (bc, col) for unknown col where (col, bc) multiplies the
prescribed value: wrong states for Jacobians that aren't symmetric (thermomechanics).
---
 src/ApplyConstraints.hpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/ApplyConstraints.hpp b/src/ApplyConstraints.hpp
index 8f902e2..3b845c4 100644
--- a/src/ApplyConstraints.hpp
+++ b/src/ApplyConstraints.hpp
@@ -47,11 +47,7 @@ template<int NumDofPerNode>
                 }
                 else
                 {
-                    // correct the rhs to account for the fact that we'll be zeroing out (col,row) as well
-                    // to maintain symmetry.  take the entry atomically: if the dof is listed more than once, only one
-                    // of the entries in the list may correct the rhs.
-                    Scalar tEntry = Kokkos::atomic_exchange(&tMatrixEntries(tEntryOrdinal), static_cast<Scalar>(0.0));
-                    Kokkos::atomic_add(&aRhs(tColumnDofOrdinal), -tEntry*tValue);
+                    tMatrixEntries(tEntryOrdinal) = 0.0;
                     OrdinalType tColRowStart = tRowMap(tColumnNodeOrdinal  );
                     OrdinalType tColRowEnd   = tRowMap(tColumnNodeOrdinal+1);
                     for (OrdinalType tColRowNodeOffset=tColRowStart; tColRowNodeOffset<tColRowEnd; tColRowNodeOffset++)
@@ -62,8 +58,12 @@ template<int NumDofPerNode>
                         auto tColRowDofOrdinal = NumDofPerNode*tColRowNodeOrdinal+tLocalRowDofOrdinal;
                         if (tColRowDofOrdinal == tRowDofOrdinal)
                         {
-                            // this is the (col, row) entry -- clear it, too
-                            tMatrixEntries(tColRowEntryOrdinal) = 0.0;
+                            // this is the (col, row) entry -- clear it, too, to maintain symmetry, and correct the rhs
+                            // to account for that.  (col, row) and (row, col) differ if the matrix isn't symmetric.
+                            // take the entry atomically: if the dof is listed more than once, only one of the entries
+                            // in the list may correct the rhs.
+                            Scalar tEntry = Kokkos::atomic_exchange(&tMatrixEntries(tColRowEntryOrdinal), static_cast<Scalar>(0.0));
+                            Kokkos::atomic_add(&aRhs(tColumnDofOrdinal), -tEntry*tValue);
                         }
                     }
                 }
@@ -115,11 +115,7 @@ applyConstraints(
       }
       else
       {
-        // correct the rhs to account for the fact that we'll be zeroing out (col,row) as well
-        // to maintain symmetry.  take the entry atomically: if the dof is listed more than once, only one
-        // of the entries in the list may correct the rhs.
-        Scalar entry = Kokkos::atomic_exchange(&matrixEntries(entryOrdinal), static_cast<Scalar>(0.0));
-        Kokkos::atomic_add(&rhs(column), -entry*value);
+        matrixEntries(entryOrdinal) = 0.0;
         OrdinalType colRowStart = rowMap(column  );
         OrdinalType colRowEnd   = rowMap(column+1);
         for (OrdinalType colRowEntryOrdinal=colRowStart; colRowEntryOrdinal<colRowEnd; colRowEntryOrdinal++)
@@ -127,8 +123,11 @@ applyConstraints(
           OrdinalType colRowColumn = columnIndices(colRowEntryOrdinal);
           if (colRowColumn == nodeNumber)
           {
-            // this is the (col, row) entry -- clear it, too
-            matrixEntries(colRowEntryOrdinal) = 0.0;
+            // this is the (col, row) entry -- clear it, too, to maintain symmetry, and correct the rhs to account
+            // for that.  (col, row) and (row, col) differ if the matrix isn't symmetric.  take the entry atomically:
+            // if the dof is listed more than once, only one of the entries in the list may correct the rhs.
+            Scalar entry = Kokkos::atomic_exchange(&matrixEntries(colRowEntryOrdinal), static_cast<Scalar>(0.0));
+            Kokkos::atomic_add(&rhs(column), -entry*value);
           }
         }
       }
-- 
2.43.0


From 2f4f78c2df92b5265e7544811e1c6ee9abe5b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:06 +0000
Subject: [PATCH 29/62] fix: read the value of the electroelastic 'Alpha' in 1D
 and 2D

---
 src/LinearElectroelasticMaterial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearElectroelasticMaterial.cpp b/src/LinearElectroelasticMaterial.cpp
index 0a69c58..ccabbd7 100644
--- a/src/LinearElectroelasticMaterial.cpp
+++ b/src/LinearElectroelasticMaterial.cpp
@@ -10,7 +10,7 @@ LinearElectroelasticMaterial<1>()
 /******************************************************************************/
 {
     if (paramList.isType<Plato::Scalar>("Alpha")){
-      mAlpha = paramList.isType<Plato::Scalar>("Alpha");
+      mAlpha = paramList.get<Plato::Scalar>("Alpha");
     }
 
     Plato::Scalar v = paramList.get<Plato::Scalar>("Poissons Ratio");
@@ -30,7 +30,7 @@ LinearElectroelasticMaterial<2>()
 /******************************************************************************/
 {
     if (paramList.isType<Plato::Scalar>("Alpha")){
-      mAlpha = paramList.isType<Plato::Scalar>("Alpha");
+      mAlpha = paramList.get<Plato::Scalar>("Alpha");
     }
 
     Plato::Scalar v = paramList.get<Plato::Scalar>("Poissons Ratio");
-- 
2.43.0


From 16a0f55f95685200db79d959051acc044f2be76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:06 +0000
Subject: [PATCH 30/62] fix: output the electric field and displacement, not
 strain and stress, as efield and edisp

---
 src/elliptic/ElectroelastostaticResidual.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/ElectroelastostaticResidual.hpp b/src/elliptic/ElectroelastostaticResidual.hpp
index e4fcf39..09b5a98 100644
--- a/src/elliptic/ElectroelastostaticResidual.hpp
+++ b/src/elliptic/ElectroelastostaticResidual.hpp
@@ -194,9 +194,9 @@ public:
       }
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, strain, "strain", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"efield") ) toMap(mDataMap, strain, "efield", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"efield") ) toMap(mDataMap, efield, "efield", mSpatialDomain);
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, stress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, stress, "edisp" , mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, edisp, "edisp" , mSpatialDomain);
 
     }
     /**************************************************************************/
-- 
2.43.0


From 44c08e6352d05bf324d30e6cac0432305d668bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:10 +0000
Subject: [PATCH 31/62] fix: read the electroelastostatic output list where
 every other static analysis reads it

The problem saves output when 'Elliptic' lists fields; the residual read its list from
'Electroelastostatics', so requested fields were never written.
---
 src/elliptic/ElectroelastostaticResidual.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/ElectroelastostaticResidual.hpp b/src/elliptic/ElectroelastostaticResidual.hpp
index 09b5a98..c945f73 100644
--- a/src/elliptic/ElectroelastostaticResidual.hpp
+++ b/src/elliptic/ElectroelastostaticResidual.hpp
@@ -118,7 +118,7 @@ public:
                 (aProblemParams.sublist("Electrical Natural Boundary Conditions"));
         }
   
-        auto tResidualParams = aProblemParams.sublist("Electroelastostatics");
+        auto tResidualParams = aProblemParams.sublist("Elliptic");
         if( tResidualParams.isType<Teuchos::Array<std::string>>("Plottable") )
         {
             mPlottable = tResidualParams.get<Teuchos::Array<std::string>>("Plottable").toVector();
-- 
2.43.0


From a179d1b7e20ff4ba2c0aa990f8d39009366a0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:28 +0000
Subject: [PATCH 32/62] fix: impose prescribed values even if the initial
 residual meets the Newton tolerance

With a residual tolerance and no loads, solution() returned the zero state and ignored
the essential boundary conditions.
---
 src/elliptic/Problem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elliptic/Problem.hpp b/src/elliptic/Problem.hpp
index 8787000..b7c1fc2 100644
--- a/src/elliptic/Problem.hpp
+++ b/src/elliptic/Problem.hpp
@@ -273,7 +273,8 @@ public:
             if (mNumNewtonSteps > 1) {
                 auto tResidualNorm = Plato::blas1::norm(mResidual);
                 std::cout << " Residual norm: " << tResidualNorm << std::endl;
-                if (tResidualNorm < mNewtonResTol) {
+                // the first step imposes the essential boundary conditions: it's never skipped
+                if (tNewtonIndex > 0 && tResidualNorm < mNewtonResTol) {
                     std::cout << " Residual norm tolerance satisfied." << std::endl;
                     break;
                 }
-- 
2.43.0


From 2d18739c2c437d8424376c510cada70c775b00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:08 +0000
Subject: [PATCH 33/62] fix: read least squares criteria from the Criteria list

---
 src/elliptic/LeastSquaresFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/LeastSquaresFunction.hpp b/src/elliptic/LeastSquaresFunction.hpp
index ceb9b70..3744797 100644
--- a/src/elliptic/LeastSquaresFunction.hpp
+++ b/src/elliptic/LeastSquaresFunction.hpp
@@ -62,7 +62,7 @@ private:
         mFunctionGoldValues.clear();
         mFunctionNormalization.clear();
 
-        auto tFunctionParams = aProblemParams.sublist("Criterial").sublist(mFunctionName);
+        auto tFunctionParams = aProblemParams.sublist("Criteria").sublist(mFunctionName);
 
         auto tFunctionNamesArray = tFunctionParams.get<Teuchos::Array<std::string>>("Functions");
         auto tFunctionWeightsArray = tFunctionParams.get<Teuchos::Array<Plato::Scalar>>("Weights");
-- 
2.43.0


From ff45f020c469e6d0501b52ed65362adac81d0cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:08 +0000
Subject: [PATCH 34/62] fix: keep no references to temporaries of
 differentiated terms in surface weights

---
 src/NaturalBCUtilities.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/NaturalBCUtilities.hpp b/src/NaturalBCUtilities.hpp
index 3c2cc83..a18f5d2 100644
--- a/src/NaturalBCUtilities.hpp
+++ b/src/NaturalBCUtilities.hpp
@@ -299,8 +299,8 @@ ComputeSurfaceIntegralWeight<2>::operator()
  const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
  ResultScalarType & aOutput) const
 {
-    auto tJ11 = aJacobian(aFaceOrdinal, 0, 0) * aJacobian(aFaceOrdinal, 0, 0);
-    auto tJ12 = aJacobian(aFaceOrdinal, 0, 1) * aJacobian(aFaceOrdinal, 0, 1);
+    ConfigScalarType tJ11 = aJacobian(aFaceOrdinal, 0, 0) * aJacobian(aFaceOrdinal, 0, 0);
+    ConfigScalarType tJ12 = aJacobian(aFaceOrdinal, 0, 1) * aJacobian(aFaceOrdinal, 0, 1);
     aOutput = aMultiplier * sqrt( tJ11 + tJ12 );
 }
 // class ComputeSurfaceIntegralWeight<2>::operator()
@@ -317,9 +317,9 @@ ComputeSurfaceIntegralWeight<3>::operator()
  const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
  ResultScalarType & aOutput) const
 {
-    auto tJ23 = aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,2) - aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,1);
-    auto tJ31 = aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,0) - aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,2);
-    auto tJ12 = aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,1) - aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,0);
+    ConfigScalarType tJ23 = aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,2) - aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,1);
+    ConfigScalarType tJ31 = aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,0) - aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,2);
+    ConfigScalarType tJ12 = aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,1) - aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,0);
     aOutput = aMultiplier * sqrt(tJ23*tJ23 + tJ31*tJ31 + tJ12*tJ12);
 }
 // class ComputeSurfaceIntegralWeight<3>::operator()
-- 
2.43.0


From 0551d0b117be827da7c25ec85bbcb73d1433c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:08 +0000
Subject: [PATCH 35/62] fix: use the transposed Jacobian and homogeneous
 constraints in the shape gradient

---
 src/elliptic/Problem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/Problem.hpp b/src/elliptic/Problem.hpp
index b7c1fc2..33a0ae4 100644
--- a/src/elliptic/Problem.hpp
+++ b/src/elliptic/Problem.hpp
@@ -538,8 +538,8 @@ public:
             Plato::blas1::scale(static_cast<Plato::Scalar>(-1), tPartialCriterionWRT_State);
 
             // compute dgdu: partial of PDE wrt state
-            mJacobian = mPDE->gradient_u(tStatesSubView, aControl);
-            this->applyStateConstraints(mJacobian, tPartialCriterionWRT_State, 1.0);
+            mJacobian = mPDE->gradient_u_T(tStatesSubView, aControl);
+            this->applyAdjointConstraints(mJacobian, tPartialCriterionWRT_State);
 
             // adjoint problem uses transpose of global stiffness, but we're assuming the constrained
             // system is symmetric.
-- 
2.43.0


From d53c04e353526d1bec4de538729f0df446003ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:08 +0000
Subject: [PATCH 36/62] fix: set the missing terms of a solution criterion's
 normal to zero

---
 src/elliptic/SolutionFunction.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elliptic/SolutionFunction.hpp b/src/elliptic/SolutionFunction.hpp
index 9162333..5916eed 100644
--- a/src/elliptic/SolutionFunction.hpp
+++ b/src/elliptic/SolutionFunction.hpp
@@ -102,6 +102,10 @@ private:
                 {
                     mNormal[i] = tNormalArray[i];
                 }
+                for(int i=tNormalArray.size(); i<mNumDofsPerNode; i++)
+                {
+                    mNormal[i] = 0.0;
+                }
             }
             else
             {
-- 
2.43.0


From 0d8cb3d0ea2c09ee1ec6132daa874edcbb1515d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:08 +0000
Subject: [PATCH 37/62] fix: evaluate thermal criteria with the conductivity at
 the temperature

---
 src/elliptic/FluxPNorm.hpp             | 10 +++++++++-
 src/elliptic/InternalThermalEnergy.hpp | 12 +++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/FluxPNorm.hpp b/src/elliptic/FluxPNorm.hpp
index 7ad4c0a..9d7059f 100644
--- a/src/elliptic/FluxPNorm.hpp
+++ b/src/elliptic/FluxPNorm.hpp
@@ -9,6 +9,7 @@
 #include "SimplexThermal.hpp"
 #include "ApplyWeighting.hpp"
 #include "SimplexFadTypes.hpp"
+#include "InterpolateFromNodal.hpp"
 #include "ThermalConductivityMaterial.hpp"
 #include "ImplicitFunctors.hpp"
 #include "Simp.hpp"
@@ -94,6 +95,8 @@ class FluxPNorm :
       Plato::ThermalFlux<SpaceDim>            thermalFlux(mMaterialModel);
       Plato::VectorPNorm<SpaceDim>            vectorPNorm;
 
+      Plato::InterpolateFromNodal<SpaceDim, Plato::SimplexThermal<SpaceDim>::mNumDofsPerNode> interpolateFromNodal;
+
       using GradScalarType =
         typename Plato::fad_type_t<Plato::SimplexThermal<EvaluationType::SpatialDim>,StateScalarType, ConfigScalarType>;
 
@@ -109,7 +112,11 @@ class FluxPNorm :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tflux("thermal flux",numCells,SpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        temperature("Gauss point temperature",numCells);
+
       auto tQuadratureWeight = mCubatureRule->getCubWeight();
+      auto tBasisFunctions   = mCubatureRule->getBasisFunctions();
       auto& applyWeighting  = mApplyWeighting;
       auto exponent         = mExponent;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0,numCells), LAMBDA_EXPRESSION(const int & aCellOrdinal)
@@ -123,7 +130,8 @@ class FluxPNorm :
 
         // compute flux
         //
-        thermalFlux(aCellOrdinal, tflux, tgrad);
+        interpolateFromNodal(aCellOrdinal, tBasisFunctions, aState, temperature);
+        thermalFlux(aCellOrdinal, tflux, tgrad, temperature);
 
         // apply weighting
         //
diff --git a/src/elliptic/InternalThermalEnergy.hpp b/src/elliptic/InternalThermalEnergy.hpp
index 66990cc..5c5aa50 100644
--- a/src/elliptic/InternalThermalEnergy.hpp
+++ b/src/elliptic/InternalThermalEnergy.hpp
@@ -9,12 +9,14 @@
 #include "ApplyWeighting.hpp"
 #include "SimplexThermal.hpp"
 #include "SimplexFadTypes.hpp"
+#include "InterpolateFromNodal.hpp"
 #include "ImplicitFunctors.hpp"
 #include "ThermalConductivityMaterial.hpp"
 #include "Simp.hpp"
 #include "Ramp.hpp"
 #include "Heaviside.hpp"
 #include "NoPenalty.hpp"
+#include "LinearTetCubRuleDegreeOne.hpp"
 
 #include "ExpInstMacros.hpp"
 
@@ -108,6 +110,8 @@ class InternalThermalEnergy :
       Plato::ScalarProduct<mSpaceDim>          tComputeScalarProduct;
       Plato::ThermalFlux<mSpaceDim>            tComputeThermalFlux(mMaterialModel);
 
+      Plato::InterpolateFromNodal<mSpaceDim, Plato::SimplexThermal<mSpaceDim>::mNumDofsPerNode> tInterpolateFromNodal;
+
       using GradScalarType =
         typename Plato::fad_type_t<Plato::SimplexThermal<EvaluationType::SpatialDim>, StateScalarType, ConfigScalarType>;
 
@@ -123,6 +127,11 @@ class InternalThermalEnergy :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tThermalFlux("thermal flux", tNumCells, mSpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        tTemperature("Gauss point temperature", tNumCells);
+
+      Plato::LinearTetCubRuleDegreeOne<mSpaceDim> tCubatureRule;
+      auto tBasisFunctions   = tCubatureRule.getBasisFunctions();
       auto tQuadratureWeight = mQuadratureWeight;
       auto tApplyWeighting  = mApplyWeighting;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, tNumCells), LAMBDA_EXPRESSION(const Plato::OrdinalType & aCellOrdinal)
@@ -136,7 +145,8 @@ class InternalThermalEnergy :
 
         // compute flux
         //
-        tComputeThermalFlux(aCellOrdinal, tThermalFlux, tThermalGrad);
+        tInterpolateFromNodal(aCellOrdinal, tBasisFunctions, aState, tTemperature);
+        tComputeThermalFlux(aCellOrdinal, tThermalFlux, tThermalGrad, tTemperature);
 
         // apply weighting
         //
-- 
2.43.0


From 805ac8156d999597621c45730fb2692ff455879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:04 +0000
Subject: [PATCH 38/62] fix: solve the transient adjoint problems of the given
 solution with transposed Jacobians and homogeneous constraints

---
 src/parabolic/Problem.hpp        | 36 +++++++++----------
 src/parabolic/VectorFunction.hpp | 62 +++++++++++++++++++++++++++++---
 2 files changed, 74 insertions(+), 24 deletions(-)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index f7d7027..83f39bc 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -505,24 +505,22 @@ namespace Parabolic
                 THROWERR("OBJECTIVE REQUESTED BUT NOT DEFINED BY USER.");
             }
 
-            auto tSolution = Plato::Solution(mState, mStateDot);
-
             // F_{,z}
-            auto t_dFdz = aCriterion->gradient_z(tSolution, aControl, mTimeStep);
+            auto t_dFdz = aCriterion->gradient_z(aSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--) {
 
-                auto tU = Kokkos::subview(mState, tStepIndex, Kokkos::ALL());
-                auto tV = Kokkos::subview(mStateDot, tStepIndex, Kokkos::ALL());
+                auto tU = Kokkos::subview(aSolution.State, tStepIndex, Kokkos::ALL());
+                auto tV = Kokkos::subview(aSolution.StateDot, tStepIndex, Kokkos::ALL());
 
                 Plato::ScalarVector tAdjoint_U = Kokkos::subview(mAdjoints_U, tStepIndex, Kokkos::ALL());
                 Plato::ScalarVector tAdjoint_V = Kokkos::subview(mAdjoints_V, tStepIndex, Kokkos::ALL());
 
                 // F_{,u^k}
-                auto t_dFdu = aCriterion->gradient_u(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdu = aCriterion->gradient_u(aSolution, aControl, tStepIndex, mTimeStep);
                 // F_{,v^k}
-                auto t_dFdv = aCriterion->gradient_v(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdv = aCriterion->gradient_v(aSolution, aControl, tStepIndex, mTimeStep);
 
                 if(tStepIndex != tLastStepIndex) { // the last step doesn't have a contribution from k+1
 
@@ -552,15 +550,15 @@ namespace Parabolic
                 Plato::blas1::axpy(tR_vu, t_dFdv, t_dFdu);
 
                 // R_{u,u^k}
-                mJacobianU = mPDEConstraint.gradient_u(tU, tV, aControl, mTimeStep);
+                mJacobianU = mPDEConstraint.gradient_u_T(tU, tV, aControl, mTimeStep);
 
                 // R_{u,v^k}
-                mJacobianV = mPDEConstraint.gradient_v(tU, tV, aControl, mTimeStep);
+                mJacobianV = mPDEConstraint.gradient_v_T(tU, tV, aControl, mTimeStep);
 
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
-                this->applyStateConstraints(mJacobianU, t_dFdu, 1.0);
+                this->applyStateConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
@@ -660,24 +658,22 @@ namespace Parabolic
                 THROWERR("OBJECTIVE REQUESTED BUT NOT DEFINED BY USER.");
             }
 
-            auto tSolution = Plato::Solution(mState, mStateDot);
-
             // F_{,x}
-            auto t_dFdx = aCriterion->gradient_x(tSolution, aControl, mTimeStep);
+            auto t_dFdx = aCriterion->gradient_x(aSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--) {
 
-                auto tU = Kokkos::subview(mState, tStepIndex, Kokkos::ALL());
-                auto tV = Kokkos::subview(mStateDot, tStepIndex, Kokkos::ALL());
+                auto tU = Kokkos::subview(aSolution.State, tStepIndex, Kokkos::ALL());
+                auto tV = Kokkos::subview(aSolution.StateDot, tStepIndex, Kokkos::ALL());
 
                 Plato::ScalarVector tAdjoint_U = Kokkos::subview(mAdjoints_U, tStepIndex, Kokkos::ALL());
                 Plato::ScalarVector tAdjoint_V = Kokkos::subview(mAdjoints_V, tStepIndex, Kokkos::ALL());
 
                 // F_{,u^k}
-                auto t_dFdu = aCriterion->gradient_u(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdu = aCriterion->gradient_u(aSolution, aControl, tStepIndex, mTimeStep);
                 // F_{,v^k}
-                auto t_dFdv = aCriterion->gradient_v(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdv = aCriterion->gradient_v(aSolution, aControl, tStepIndex, mTimeStep);
 
                 if(tStepIndex != tLastStepIndex) { // the last step doesn't have a contribution from k+1
 
@@ -709,15 +705,15 @@ namespace Parabolic
 
 
                 // R_{u,u^k}
-                mJacobianU = mPDEConstraint.gradient_u(tU, tV, aControl, mTimeStep);
+                mJacobianU = mPDEConstraint.gradient_u_T(tU, tV, aControl, mTimeStep);
 
                 // R_{u,v^k}
-                mJacobianV = mPDEConstraint.gradient_v(tU, tV, aControl, mTimeStep);
+                mJacobianV = mPDEConstraint.gradient_v_T(tU, tV, aControl, mTimeStep);
 
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
-                this->applyStateConstraints(mJacobianU, t_dFdu, 1.0);
+                this->applyStateConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
diff --git a/src/parabolic/VectorFunction.hpp b/src/parabolic/VectorFunction.hpp
index 036df97..c8facab 100644
--- a/src/parabolic/VectorFunction.hpp
+++ b/src/parabolic/VectorFunction.hpp
@@ -355,6 +355,33 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
               Plato::Scalar         aTimeStep = 0.0
     ) const
     /**************************************************************************/
+    {
+        return assembleGradientU<Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumDofsPerNode, mNumDofsPerNode>>(aState, aStateDot, aControl, aTimeStep);
+    }
+
+    /**************************************************************************/
+    Teuchos::RCP<Plato::CrsMatrixType>
+    gradient_u_T(
+        const Plato::ScalarVector & aState,
+        const Plato::ScalarVector & aStateDot,
+        const Plato::ScalarVector & aControl,
+              Plato::Scalar         aTimeStep = 0.0
+    ) const
+    /**************************************************************************/
+    {
+        return assembleGradientU<Plato::BlockMatrixTransposeEntryOrdinal<mNumSpatialDims, mNumDofsPerNode>>(aState, aStateDot, aControl, aTimeStep);
+    }
+
+    /**************************************************************************/
+    template<typename EntryOrdinalType>
+    Teuchos::RCP<Plato::CrsMatrixType>
+    assembleGradientU(
+        const Plato::ScalarVector & aState,
+        const Plato::ScalarVector & aStateDot,
+        const Plato::ScalarVector & aControl,
+              Plato::Scalar         aTimeStep
+    ) const
+    /**************************************************************************/
     {
         using ConfigScalar   = typename GradientU::ConfigScalarType;
         using StateScalar    = typename GradientU::StateScalarType;
@@ -402,7 +429,7 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
             mGradientUFunctions.at(tName)->evaluate( tStateWS, tStateDotWS, tControlWS, tConfigWS, tGradient, aTimeStep );
 
             // assembly to return matrix
-            Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumDofsPerNode, mNumDofsPerNode>
+            EntryOrdinalType
                 tGradientMatEntryOrdinal( tGradientMat, &tMesh );
 
             auto tGradientMatEntries = tGradientMat->entries();
@@ -440,7 +467,7 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
             mBoundaryLoadsGradientUFunction->evaluate_boundary(mSpatialModel, tStateWS, tStateDotWS, tControlWS, tConfigWS, tGradient, aTimeStep );
 
             // assembly to return matrix
-            Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumDofsPerNode, mNumDofsPerNode>
+            EntryOrdinalType
                 tGradientMatEntryOrdinal( tGradientMat, &tMesh );
 
             auto tGradientMatEntries = tGradientMat->entries();
@@ -460,6 +487,33 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
               Plato::Scalar         aTimeStep = 0.0
     ) const
     /**************************************************************************/
+    {
+        return assembleGradientV<Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumDofsPerNode, mNumDofsPerNode>>(aState, aStateDot, aControl, aTimeStep);
+    }
+
+    /**************************************************************************/
+    Teuchos::RCP<Plato::CrsMatrixType>
+    gradient_v_T(
+        const Plato::ScalarVector & aState,
+        const Plato::ScalarVector & aStateDot,
+        const Plato::ScalarVector & aControl,
+              Plato::Scalar         aTimeStep = 0.0
+    ) const
+    /**************************************************************************/
+    {
+        return assembleGradientV<Plato::BlockMatrixTransposeEntryOrdinal<mNumSpatialDims, mNumDofsPerNode>>(aState, aStateDot, aControl, aTimeStep);
+    }
+
+    /**************************************************************************/
+    template<typename EntryOrdinalType>
+    Teuchos::RCP<Plato::CrsMatrixType>
+    assembleGradientV(
+        const Plato::ScalarVector & aState,
+        const Plato::ScalarVector & aStateDot,
+        const Plato::ScalarVector & aControl,
+              Plato::Scalar         aTimeStep
+    ) const
+    /**************************************************************************/
     {
         using ConfigScalar   = typename GradientV::ConfigScalarType;
         using StateScalar    = typename GradientV::StateScalarType;
@@ -507,7 +561,7 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
             mGradientVFunctions.at(tName)->evaluate( tStateWS, tStateDotWS, tControlWS, tConfigWS, tGradient, aTimeStep );
 
             // assembly to return matrix
-            Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumDofsPerNode, mNumDofsPerNode>
+            EntryOrdinalType
                 tGradientMatEntryOrdinal( tGradientMat, &tMesh );
 
             auto tGradientMatEntries = tGradientMat->entries();
@@ -545,7 +599,7 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
             mBoundaryLoadsGradientVFunction->evaluate_boundary(mSpatialModel, tStateWS, tStateDotWS, tControlWS, tConfigWS, tGradient, aTimeStep );
 
             // assembly to return matrix
-            Plato::BlockMatrixEntryOrdinal<mNumSpatialDims, mNumDofsPerNode, mNumDofsPerNode>
+            EntryOrdinalType
                 tGradientMatEntryOrdinal( tGradientMat, &tMesh );
 
             auto tGradientMatEntries = tGradientMat->entries();
-- 
2.43.0


From f61ce3bb2a1c9cb14d85b7abaf5bc4020507ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:04 +0000
Subject: [PATCH 39/62] fix: evaluate the transient heat flux with the
 conductivity at the temperature

---
 src/parabolic/HeatEquationResidual.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parabolic/HeatEquationResidual.hpp b/src/parabolic/HeatEquationResidual.hpp
index bf3e0bc..f0f2bd2 100644
--- a/src/parabolic/HeatEquationResidual.hpp
+++ b/src/parabolic/HeatEquationResidual.hpp
@@ -157,7 +157,8 @@ class HeatEquationResidual :
     
         // compute flux
         //
-        tThermalFlux(tCellOrdinal, tFlux, tGrad);
+        tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aState, tTemperature);
+        tThermalFlux(tCellOrdinal, tFlux, tGrad, tTemperature);
     
         // apply weighting
         //
@@ -169,10 +170,9 @@ class HeatEquationResidual :
 
         // add capacitance terms
         
-        // compute temperature at gausspoints
+        // compute temperature rate at gausspoints
         //
         tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aStateDot, tTemperatureRate);
-        tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aState,    tTemperature    );
 
         // compute the time rate of internal thermal energy
         //
-- 
2.43.0


From f8f988b035d810e786c87b30aa6e65741937cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:04 +0000
Subject: [PATCH 40/62] fix: weight the transient temperature average with the
 quadrature weight

---
 src/parabolic/TemperatureAverage.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parabolic/TemperatureAverage.hpp b/src/parabolic/TemperatureAverage.hpp
index 8b72789..b5a9eb1 100644
--- a/src/parabolic/TemperatureAverage.hpp
+++ b/src/parabolic/TemperatureAverage.hpp
@@ -98,6 +98,7 @@ class TemperatureAverage :
       {
         ConfigScalarType tCellVolume(0.0);
         tComputeCellVolume(aCellOrdinal, aConfig, tCellVolume);
+        tCellVolume *= quadratureWeight;
 
         // compute temperature at Gauss points
         //
-- 
2.43.0


From 6bd7163a5876e41f762675473b0706480a89d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:04 +0000
Subject: [PATCH 41/62] fix: output transient thermomechanics fields of all
 blocks

---
 src/parabolic/TransientThermomechResidual.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parabolic/TransientThermomechResidual.hpp b/src/parabolic/TransientThermomechResidual.hpp
index 0ce015c..16f5c5b 100644
--- a/src/parabolic/TransientThermomechResidual.hpp
+++ b/src/parabolic/TransientThermomechResidual.hpp
@@ -229,8 +229,8 @@ class TransientThermomechResidual :
 
       },"stress and flux divergence");
 
-      if(std::count(mPlotTable.begin(), mPlotTable.end(), "strain")) { Plato::toMap(mDataMap, tStrain, "strain"); }
-      if(std::count(mPlotTable.begin(), mPlotTable.end(), "stress")) { Plato::toMap(mDataMap, tStress, "stress"); }
+      if(std::count(mPlotTable.begin(), mPlotTable.end(), "strain")) { Plato::toMap(mDataMap, tStrain, "strain", mSpatialDomain); }
+      if(std::count(mPlotTable.begin(), mPlotTable.end(), "stress")) { Plato::toMap(mDataMap, tStress, "stress", mSpatialDomain); }
     }
 
     /**************************************************************************/
-- 
2.43.0


From d701f74d15b72c401267f7f25f5f9a39ee2ed880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:04 +0000
Subject: [PATCH 42/62] fix: start every time step of a repeated transient
 solve at zero

---
 src/parabolic/Problem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index 83f39bc..9047a6e 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -292,6 +292,10 @@ namespace Parabolic
               Plato::ScalarVector tState        = Kokkos::subview(mState,    tStepIndex,   Kokkos::ALL());
               Plato::ScalarVector tStateDot     = Kokkos::subview(mStateDot, tStepIndex,   Kokkos::ALL());
 
+              // prescribed values are added as an increment, so every step starts at zero
+              Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), tState);
+              Plato::blas1::fill(static_cast<Plato::Scalar>(0.0), tStateDot);
+
               // inner loop for non-linear models
               for(Plato::OrdinalType tNewtonIndex = 0; tNewtonIndex < mNumNewtonSteps; tNewtonIndex++)
               {
-- 
2.43.0


From 055fb0fff1c0fc19e7077b5306e91160f52b940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:04 +0000
Subject: [PATCH 43/62] fix: impose prescribed values even if the initial
 residual meets the transient Newton tolerance

---
 src/parabolic/Problem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index 9047a6e..5801d19 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -325,7 +325,8 @@ namespace Parabolic
                   if (mNumNewtonSteps > 1) {
                       auto tResidualNorm = Plato::blas1::norm(mResidual);
                       std::cout << " Residual norm: " << tResidualNorm << std::endl;
-                      if (tResidualNorm < mNewtonResTol) {
+                      // the first iteration imposes the prescribed values
+                      if (tNewtonIndex > 0 && tResidualNorm < mNewtonResTol) {
                           std::cout << " Residual norm tolerance satisfied." << std::endl;
                           break;
                       }
-- 
2.43.0


From a538fb99e269ee76612fed7400cc8a1263926197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:23 +0000
Subject: [PATCH 44/62] fix: evaluate the transient thermal energy with the
 conductivity at the temperature

---
 src/parabolic/InternalThermalEnergy.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parabolic/InternalThermalEnergy.hpp b/src/parabolic/InternalThermalEnergy.hpp
index e38d4eb..f8c35ed 100644
--- a/src/parabolic/InternalThermalEnergy.hpp
+++ b/src/parabolic/InternalThermalEnergy.hpp
@@ -6,6 +6,7 @@
 #include "ScalarProduct.hpp"
 #include "ApplyWeighting.hpp"
 #include "SimplexThermal.hpp"
+#include "InterpolateFromNodal.hpp"
 #include "ImplicitFunctors.hpp"
 #include "ThermalConductivityMaterial.hpp"
 #include "parabolic/ParabolicSimplexFadTypes.hpp"
@@ -98,6 +99,8 @@ class InternalThermalEnergy :
       Plato::ThermalFlux<mSpaceDim>            thermalFlux(mThermalConductivityMaterialModel);
       Plato::ScalarProduct<mSpaceDim>          scalarProduct;
 
+      Plato::InterpolateFromNodal<mSpaceDim, Plato::SimplexThermal<mSpaceDim>::mNumDofsPerNode> interpolateFromNodal;
+
       using GradScalarType =
         typename Plato::fad_type_t<Plato::SimplexThermal<EvaluationType::SpatialDim>, StateScalarType, ConfigScalarType>;
 
@@ -113,7 +116,11 @@ class InternalThermalEnergy :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tflux("thermal flux", tNumCells,mSpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        temperature("Gauss point temperature", tNumCells);
+
       auto tQuadratureWeight = mCubatureRule->getCubWeight();
+      auto basisFunctions = mCubatureRule->getBasisFunctions();
       auto applyWeighting  = mApplyWeighting;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, tNumCells), LAMBDA_EXPRESSION(const int & aCellOrdinal)
       {
@@ -126,7 +133,8 @@ class InternalThermalEnergy :
 
         // compute flux
         //
-        thermalFlux(aCellOrdinal, tflux, tgrad);
+        interpolateFromNodal(aCellOrdinal, basisFunctions, aState, temperature);
+        thermalFlux(aCellOrdinal, tflux, tgrad, temperature);
 
         // apply weighting
         //
-- 
2.43.0


From 21142bb17a0b97d3ac9d65e5a5a7f6f22a7d1be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:23 +0000
Subject: [PATCH 45/62] fix: name the thermomechanics state components of 1D
 and 2D models

---
 src/parabolic/TransientThermomechResidual.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parabolic/TransientThermomechResidual.hpp b/src/parabolic/TransientThermomechResidual.hpp
index 16f5c5b..ac06ee6 100644
--- a/src/parabolic/TransientThermomechResidual.hpp
+++ b/src/parabolic/TransientThermomechResidual.hpp
@@ -83,6 +83,17 @@ class TransientThermomechResidual :
 
     std::vector<std::string> mPlotTable;
 
+    /**************************************************************************/
+    static std::vector<std::string>
+    getStateNames()
+    /**************************************************************************/
+    {
+        const std::vector<std::string> tDisplacementNames({"Displacement X", "Displacement Y", "Displacement Z"});
+        std::vector<std::string> tStateNames(tDisplacementNames.begin(), tDisplacementNames.begin() + SpaceDim);
+        tStateNames.push_back("Temperature");
+        return tStateNames;
+    }
+
   public:
     /**************************************************************************/
     TransientThermomechResidual(
@@ -91,7 +102,7 @@ class TransientThermomechResidual :
               Teuchos::ParameterList & aProblemParams,
               Teuchos::ParameterList & aPenaltyParams
      ) :
-         FunctionBaseType      (aSpatialDomain, aDataMap, {"Displacement X", "Displacement Y", "Displacement Z", "Temperature"}),
+         FunctionBaseType      (aSpatialDomain, aDataMap, getStateNames()),
          mIndicatorFunction    (aPenaltyParams),
          mApplyStressWeighting (mIndicatorFunction),
          mApplyFluxWeighting   (mIndicatorFunction),
-- 
2.43.0


From 940c627bb5e38a4794455f0f2148785ba914fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:43 +0000
Subject: [PATCH 46/62] fix: a saved state keeps the values it had when it was
 saved

---
 src/PlatoStaticsTypes.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/PlatoStaticsTypes.hpp b/src/PlatoStaticsTypes.hpp
index 0141965..8e3739b 100644
--- a/src/PlatoStaticsTypes.hpp
+++ b/src/PlatoStaticsTypes.hpp
@@ -85,7 +85,23 @@ struct DataMap
 
   void saveState()
   {
-    stateDataMaps.push_back(getState());
+    // entries of the map are views that may be overwritten by the next state, so save copies
+    auto tState = getState();
+    copyEntries(tState.scalarVectors);
+    copyEntries(tState.scalarMultiVectors);
+    copyEntries(tState.scalarArray3Ds);
+    stateDataMaps.push_back(tState);
+  }
+
+  template<typename ViewType>
+  static void copyEntries(std::map<std::string, ViewType> & aEntries)
+  {
+    for(auto & tEntry : aEntries)
+    {
+      auto tCopy = Kokkos::create_mirror(typename ViewType::memory_space(), tEntry.second);
+      Kokkos::deep_copy(tCopy, tEntry.second);
+      tEntry.second = tCopy;
+    }
   }
 
   DataMap getState() const
-- 
2.43.0


From 41b67fdda331fc18aff0cfa279599b86e837b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:15 +0000
Subject: [PATCH 47/62] fix: refuse an initial value of a state component that
 does not exist

---
 src/parabolic/Problem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index 5801d19..7460c5e 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -182,6 +182,10 @@ namespace Parabolic
                                tDofIndex = j;
                             }
                         }
+                        if (tDofIndex == -1)
+                        {
+                            THROWERR("Attempted to initialize state variable that doesn't exist.");
+                        }
                         mComputedFields->get(tFieldName, tDofIndex, tDofNames.size(), tInitialState);
                     }
                 }
-- 
2.43.0


From ca833402916bb6e30d55a873474a2c6cfdbc6efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:06 +0000
Subject: [PATCH 48/62] fix: output the strain and the velocity gradient of a
 dynamic analysis

---
 src/hyperbolic/ElastomechanicsResidual.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hyperbolic/ElastomechanicsResidual.hpp b/src/hyperbolic/ElastomechanicsResidual.hpp
index c08b870..93ee29a 100644
--- a/src/hyperbolic/ElastomechanicsResidual.hpp
+++ b/src/hyperbolic/ElastomechanicsResidual.hpp
@@ -227,7 +227,7 @@ class TransientMechanicsResidual :
       }, "Compute Residual");
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStress, "strain", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
 
       if( mBodyLoads != nullptr )
       {
@@ -333,8 +333,8 @@ class TransientMechanicsResidual :
       }, "Compute Residual");
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStress, "strain", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"velgrad") ) toMap(mDataMap, tStress, "velgrad", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"velgrad") ) toMap(mDataMap, tVelGrad, "velgrad", mSpatialDomain);
 
       if( mBodyLoads != nullptr )
       {
-- 
2.43.0


From 438dba4447ef01f0e60c27006beca507a0dde6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:06 +0000
Subject: [PATCH 49/62] fix: name the dynamics state components of 1D and 2D
 models

---
 src/hyperbolic/ElastomechanicsResidual.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/hyperbolic/ElastomechanicsResidual.hpp b/src/hyperbolic/ElastomechanicsResidual.hpp
index 93ee29a..9fc05b8 100644
--- a/src/hyperbolic/ElastomechanicsResidual.hpp
+++ b/src/hyperbolic/ElastomechanicsResidual.hpp
@@ -68,6 +68,22 @@ class TransientMechanicsResidual :
 
     std::vector<std::string> mPlottable;
 
+    /**************************************************************************/
+    static std::vector<std::string>
+    getComponentNames(
+        const std::string & aFieldName
+    )
+    /**************************************************************************/
+    {
+        const std::vector<std::string> tComponentNames({" X", " Y", " Z"});
+        std::vector<std::string> tNames;
+        for(Plato::OrdinalType tDim = 0; tDim < SpaceDim; tDim++)
+        {
+            tNames.push_back(aFieldName + tComponentNames[tDim]);
+        }
+        return tNames;
+    }
+
   public:
     /**************************************************************************/
     TransientMechanicsResidual(
@@ -77,8 +93,8 @@ class TransientMechanicsResidual :
               Teuchos::ParameterList & aPenaltyParams
     ) :
         FunctionBaseType      (aSpatialDomain, aDataMap,
-                               {"Displacement X", "Displacement Y", "Displacement Z"},
-                               {"Velocity X",     "Velocity Y",     "Velocity Z"    }),
+                               getComponentNames("Displacement"),
+                               getComponentNames("Velocity")),
         mIndicatorFunction    (aPenaltyParams),
         mApplyStressWeighting (mIndicatorFunction),
         mApplyMassWeighting   (mIndicatorFunction),
-- 
2.43.0


From 5028ba4ee4fd8ac4f6ad5b2b7890e0c78e683c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:06 +0000
Subject: [PATCH 50/62] fix: read the mass density of a cubic linear elastic
 material

---
 src/CubicLinearElasticMaterial.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/CubicLinearElasticMaterial.cpp b/src/CubicLinearElasticMaterial.cpp
index 3b3eed7..7cc76bd 100644
--- a/src/CubicLinearElasticMaterial.cpp
+++ b/src/CubicLinearElasticMaterial.cpp
@@ -19,6 +19,15 @@ CubicLinearElasticMaterial(const Teuchos::ParameterList& paramList) :
 {
     Plato::Scalar tC11 = paramList.get<Plato::Scalar>("C11");
     mCellStiffness(0, 0) = tC11;
+
+    if(paramList.isType<Plato::Scalar>("Mass Density"))
+    {
+        mCellDensity = paramList.get<Plato::Scalar>("Mass Density");
+    }
+    else
+    {
+        mCellDensity = 1.0;
+    }
 }
 
 /******************************************************************************//**
@@ -38,6 +47,15 @@ CubicLinearElasticMaterial(const Teuchos::ParameterList& paramList) :
     mCellStiffness(1, 0) = tC12;
     mCellStiffness(1, 1) = tC11;
     mCellStiffness(2, 2) = tC44;
+
+    if(paramList.isType<Plato::Scalar>("Mass Density"))
+    {
+        mCellDensity = paramList.get<Plato::Scalar>("Mass Density");
+    }
+    else
+    {
+        mCellDensity = 1.0;
+    }
 }
 
 /******************************************************************************//**
@@ -64,6 +82,15 @@ CubicLinearElasticMaterial(const Teuchos::ParameterList& paramList) :
     mCellStiffness(3, 3) = tC44;
     mCellStiffness(4, 4) = tC44;
     mCellStiffness(5, 5) = tC44;
+
+    if(paramList.isType<Plato::Scalar>("Mass Density"))
+    {
+        mCellDensity = paramList.get<Plato::Scalar>("Mass Density");
+    }
+    else
+    {
+        mCellDensity = 1.0;
+    }
 }
 
 }
-- 
2.43.0


From 5a89350b5e324d0a111330268f53a67b758e3eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:06 +0000
Subject: [PATCH 51/62] fix: solve the dynamic adjoint problems with
 homogeneous constraints at the time of the step

---
 src/hyperbolic/HyperbolicProblem.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/hyperbolic/HyperbolicProblem.hpp b/src/hyperbolic/HyperbolicProblem.hpp
index 4e640f5..6440dd1 100644
--- a/src/hyperbolic/HyperbolicProblem.hpp
+++ b/src/hyperbolic/HyperbolicProblem.hpp
@@ -245,14 +245,25 @@ namespace Plato
           const Plato::ScalarVector & aVector
         )
         /******************************************************************************/
+        {
+            this->applyStateConstraints(aMatrix, aVector, 1.0);
+        }
+
+        /******************************************************************************/
+        void applyStateConstraints(
+          const Teuchos::RCP<Plato::CrsMatrixType> & aMatrix,
+          const Plato::ScalarVector & aVector,
+          Plato::Scalar aScale
+        )
+        /******************************************************************************/
         {
             if(mJacobianU->isBlockMatrix())
             {
-                Plato::applyBlockConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues);
+                Plato::applyBlockConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues, aScale);
             }
             else
             {
-                Plato::applyConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues);
+                Plato::applyConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues, aScale);
             }
         }
         void applyBoundaryLoads(const Plato::ScalarVector & aForce){}
@@ -490,7 +501,9 @@ namespace Plato
             auto t_dFdz = aCriterion->gradient_z(tSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
-            Plato::Scalar tCurrentTime(mTimeStep*mNumSteps);
+            Plato::Scalar tCurrentTime(mTimeStep*tLastStepIndex);
+
+            mStateBoundaryConditions.get(mStateBcDofs, mStateBcValues, tCurrentTime);
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--)
             {
                 auto tU = Kokkos::subview(mDisplacement, tStepIndex, Kokkos::ALL());
@@ -585,7 +598,7 @@ namespace Plato
                 // R_{u,u^k} -= R_{a,u^k} R_{u,a^k}
                 Plato::blas1::axpy(-tR_au, mJacobianA->entries(), mJacobianU->entries());
 
-                this->applyConstraints(mJacobianU, t_dFdu);
+                this->applyStateConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
@@ -686,7 +699,9 @@ namespace Plato
             auto t_dFdx = aCriterion->gradient_x(tSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
-            Plato::Scalar tCurrentTime(mTimeStep*mNumSteps);
+            Plato::Scalar tCurrentTime(mTimeStep*tLastStepIndex);
+
+            mStateBoundaryConditions.get(mStateBcDofs, mStateBcValues, tCurrentTime);
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--) {
 
                 auto tU = Kokkos::subview(mDisplacement, tStepIndex, Kokkos::ALL());
@@ -781,7 +796,7 @@ namespace Plato
                 // R_{u,u^k} -= R_{a,u^k} R_{u,a^k}
                 Plato::blas1::axpy(-tR_au, mJacobianA->entries(), mJacobianU->entries());
 
-                this->applyConstraints(mJacobianU, t_dFdu);
+                this->applyStateConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
-- 
2.43.0


From c0bfa958a56927431821a6d2f0f925f98ac2db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:06 +0000
Subject: [PATCH 52/62] fix: differentiate a dynamic criterion at the given
 solution

---
 src/hyperbolic/HyperbolicProblem.hpp | 30 +++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/hyperbolic/HyperbolicProblem.hpp b/src/hyperbolic/HyperbolicProblem.hpp
index 6440dd1..c5e39fc 100644
--- a/src/hyperbolic/HyperbolicProblem.hpp
+++ b/src/hyperbolic/HyperbolicProblem.hpp
@@ -495,10 +495,9 @@ namespace Plato
                 THROWERR("REQUESTED CRITERION NOT DEFINED BY USER.");
             }
 
-            auto tSolution = Plato::Solution(mDisplacement, mVelocity, mAcceleration);
 
             // F_{,z}
-            auto t_dFdz = aCriterion->gradient_z(tSolution, aControl, mTimeStep);
+            auto t_dFdz = aCriterion->gradient_z(aSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
             Plato::Scalar tCurrentTime(mTimeStep*tLastStepIndex);
@@ -506,20 +505,20 @@ namespace Plato
             mStateBoundaryConditions.get(mStateBcDofs, mStateBcValues, tCurrentTime);
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--)
             {
-                auto tU = Kokkos::subview(mDisplacement, tStepIndex, Kokkos::ALL());
-                auto tV = Kokkos::subview(mVelocity,     tStepIndex, Kokkos::ALL());
-                auto tA = Kokkos::subview(mAcceleration, tStepIndex, Kokkos::ALL());
+                auto tU = Kokkos::subview(aSolution.State, tStepIndex, Kokkos::ALL());
+                auto tV = Kokkos::subview(aSolution.StateDot, tStepIndex, Kokkos::ALL());
+                auto tA = Kokkos::subview(aSolution.StateDotDot, tStepIndex, Kokkos::ALL());
 
                 Plato::ScalarVector tAdjoint_U = Kokkos::subview(mAdjoints_U, tStepIndex, Kokkos::ALL());
                 Plato::ScalarVector tAdjoint_V = Kokkos::subview(mAdjoints_V, tStepIndex, Kokkos::ALL());
                 Plato::ScalarVector tAdjoint_A = Kokkos::subview(mAdjoints_A, tStepIndex, Kokkos::ALL());
 
                 // F_{,u^k}
-                auto t_dFdu = aCriterion->gradient_u(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdu = aCriterion->gradient_u(aSolution, aControl, tStepIndex, mTimeStep);
                 // F_{,v^k}
-                auto t_dFdv = aCriterion->gradient_v(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdv = aCriterion->gradient_v(aSolution, aControl, tStepIndex, mTimeStep);
                 // F_{,a^k}
-                auto t_dFda = aCriterion->gradient_a(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFda = aCriterion->gradient_a(aSolution, aControl, tStepIndex, mTimeStep);
 
                 if(tStepIndex != tLastStepIndex) { // the last step doesn't have a contribution from k+1
 
@@ -693,10 +692,9 @@ namespace Plato
                 THROWERR("REQUESTED CRITERION NOT DEFINED BY USER.");
             }
 
-            auto tSolution = Plato::Solution(mDisplacement, mVelocity, mAcceleration);
 
             // F_{,x}
-            auto t_dFdx = aCriterion->gradient_x(tSolution, aControl, mTimeStep);
+            auto t_dFdx = aCriterion->gradient_x(aSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
             Plato::Scalar tCurrentTime(mTimeStep*tLastStepIndex);
@@ -704,20 +702,20 @@ namespace Plato
             mStateBoundaryConditions.get(mStateBcDofs, mStateBcValues, tCurrentTime);
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--) {
 
-                auto tU = Kokkos::subview(mDisplacement, tStepIndex, Kokkos::ALL());
-                auto tV = Kokkos::subview(mVelocity,     tStepIndex, Kokkos::ALL());
-                auto tA = Kokkos::subview(mAcceleration, tStepIndex, Kokkos::ALL());
+                auto tU = Kokkos::subview(aSolution.State, tStepIndex, Kokkos::ALL());
+                auto tV = Kokkos::subview(aSolution.StateDot, tStepIndex, Kokkos::ALL());
+                auto tA = Kokkos::subview(aSolution.StateDotDot, tStepIndex, Kokkos::ALL());
 
                 Plato::ScalarVector tAdjoint_U = Kokkos::subview(mAdjoints_U, tStepIndex, Kokkos::ALL());
                 Plato::ScalarVector tAdjoint_V = Kokkos::subview(mAdjoints_V, tStepIndex, Kokkos::ALL());
                 Plato::ScalarVector tAdjoint_A = Kokkos::subview(mAdjoints_A, tStepIndex, Kokkos::ALL());
 
                 // F_{,u^k}
-                auto t_dFdu = aCriterion->gradient_u(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdu = aCriterion->gradient_u(aSolution, aControl, tStepIndex, mTimeStep);
                 // F_{,v^k}
-                auto t_dFdv = aCriterion->gradient_v(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFdv = aCriterion->gradient_v(aSolution, aControl, tStepIndex, mTimeStep);
                 // F_{,a^k}
-                auto t_dFda = aCriterion->gradient_a(tSolution, aControl, tStepIndex, mTimeStep);
+                auto t_dFda = aCriterion->gradient_a(aSolution, aControl, tStepIndex, mTimeStep);
 
                 if(tStepIndex != tLastStepIndex) { // the last step doesn't have a contribution from k+1
 
-- 
2.43.0


From dfaa793ac4718a52b0811a16f4fcad582f7e7a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:48 +0000
Subject: [PATCH 53/62] fix: scale the state gradients of a dynamic stress norm
 with the sum over all steps

---
 .../HyperbolicPhysicsScalarFunction.hpp       | 52 +++++++++++++------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp b/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
index 9004f02..24cd280 100644
--- a/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
+++ b/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
@@ -147,19 +147,20 @@ public:
     {
     }
 
+private:
     /******************************************************************************//**
-     * @brief Evaluate physics scalar function
+     * @brief Sum the function values of all elements over all steps
      * @param [in] aSolution Plato::Solution composed of state variables
      * @param [in] aControl 1D view of control variables
-     * @param [in] aTimeStep time step (default = 0.0)
-     * @return scalar physics function evaluation
+     * @param [in] aTimeStep time step
+     * @return sum of the element values, before it is post-processed
     **********************************************************************************/
     Plato::Scalar
-    value(
+    sumOverSteps(
         const Plato::Solution     & aSolution,
         const Plato::ScalarVector & aControl,
-              Plato::Scalar         aTimeStep = 0.0
-    ) const override
+              Plato::Scalar         aTimeStep
+    ) const
     {
         using ConfigScalar      = typename Residual::ConfigScalarType;
         using StateScalar       = typename Residual::StateScalarType;
@@ -226,6 +227,27 @@ public:
                 tReturnVal += Plato::local_result_sum<Plato::Scalar>( tNumCells, tResult);
             }
         }
+
+        return tReturnVal;
+    }
+
+public:
+    /******************************************************************************//**
+     * @brief Evaluate physics scalar function
+     * @param [in] aSolution Plato::Solution composed of state variables
+     * @param [in] aControl 1D view of control variables
+     * @param [in] aTimeStep time step (default = 0.0)
+     * @return scalar physics function evaluation
+    **********************************************************************************/
+    Plato::Scalar
+    value(
+        const Plato::Solution     & aSolution,
+        const Plato::ScalarVector & aControl,
+              Plato::Scalar         aTimeStep = 0.0
+    ) const override
+    {
+        auto tReturnVal = this->sumOverSteps(aSolution, aControl, aTimeStep);
+
         auto tName = mSpatialModel.Domains.front().getDomainName();
         mValueFunctions.at(tName)->postEvaluate( tReturnVal );
 
@@ -352,7 +374,6 @@ public:
         //
         Plato::ScalarVector tObjGradientU("objective gradient state", mNumDofsPerNode * mNumNodes);
 
-        Plato::Scalar tValue(0.0);
         for(const auto& tDomain : mSpatialModel.Domains)
         {
             auto tNumCells = tDomain.numCells();
@@ -396,9 +417,10 @@ public:
 
             Plato::assemble_vector_gradient_fad<mNumNodesPerCell, mNumDofsPerNode>
                 (tDomain, mGlobalStateEntryOrdinal, tResult, tObjGradientU);
-
-            tValue += Plato::assemble_scalar_func_value<Plato::Scalar>(tNumCells, tResult);
         }
+        // the function is the post-processed sum over all steps
+        //
+        auto tValue = this->sumOverSteps(aSolution, aControl, aTimeStep);
         auto tName = mSpatialModel.Domains.front().getDomainName();
         mGradientUFunctions.at(tName)->postEvaluate( tObjGradientU, tValue );
 
@@ -436,7 +458,6 @@ public:
         //
         Plato::ScalarVector tObjGradientV("objective gradient state", mNumDofsPerNode*mNumNodes);
 
-        Plato::Scalar tValue(0.0);
         for(const auto& tDomain : mSpatialModel.Domains)
         {
             auto tNumCells = tDomain.numCells();
@@ -480,9 +501,10 @@ public:
 
             Plato::assemble_vector_gradient_fad<mNumNodesPerCell, mNumDofsPerNode>
                 (tDomain, mGlobalStateEntryOrdinal, tResult, tObjGradientV);
-
-            tValue += Plato::assemble_scalar_func_value<Plato::Scalar>(tNumCells, tResult);
         }
+        // the function is the post-processed sum over all steps
+        //
+        auto tValue = this->sumOverSteps(aSolution, aControl, aTimeStep);
         auto tName = mSpatialModel.Domains.front().getDomainName();
         mGradientVFunctions.at(tName)->postEvaluate( tObjGradientV, tValue );
 
@@ -520,7 +542,6 @@ public:
         //
         Plato::ScalarVector tObjGradientA("objective gradient state", mNumDofsPerNode * mNumNodes);
 
-        Plato::Scalar tValue(0.0);
         for(const auto& tDomain : mSpatialModel.Domains)
         {
             auto tNumCells = tDomain.numCells();
@@ -564,9 +585,10 @@ public:
 
             Plato::assemble_vector_gradient_fad<mNumNodesPerCell, mNumDofsPerNode>
                 (tDomain, mGlobalStateEntryOrdinal, tResult, tObjGradientA);
-
-            tValue += Plato::assemble_scalar_func_value<Plato::Scalar>(tNumCells, tResult);
         }
+        // the function is the post-processed sum over all steps
+        //
+        auto tValue = this->sumOverSteps(aSolution, aControl, aTimeStep);
         auto tName = mSpatialModel.Domains.front().getDomainName();
         mGradientAFunctions.at(tName)->postEvaluate( tObjGradientA, tValue );
 
-- 
2.43.0


From 84d8043591c01e13a431ca690333e800e976b366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:34 +0000
Subject: [PATCH 54/62] fix: size the shape gradient of a plasticity criterion
 for every node

---
 src/PlasticityProblem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PlasticityProblem.hpp b/src/PlasticityProblem.hpp
index a17bd44..2f70001 100644
--- a/src/PlasticityProblem.hpp
+++ b/src/PlasticityProblem.hpp
@@ -676,7 +676,8 @@ public:
 
         this->shouldOptimizationProblemStop();
         mAdjointSolver->appendScalarFunction(aCriterion);
-        Plato::ScalarVector tTotalDerivative("Total Derivative", mNumConfigDofsPerCell);
+        auto tNumConfigDofs = mSpaceDim * mGlobalEquation->numNodes();
+        Plato::ScalarVector tTotalDerivative("Total Derivative", tNumConfigDofs);
         this->backwardTimeIntegration(Plato::PartialDerivative::CONFIGURATION, aControls, tTotalDerivative);
         this->addCriterionPartialDerivativeX(*aCriterion, aControls, tTotalDerivative);
 
-- 
2.43.0


From 4edfd11ebb3e29499646b36dc437005f6efca319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:59 +0000
Subject: [PATCH 55/62] fix: convert every entry of the configuration gradient
 of a local criterion

---
 src/BasicLocalScalarFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BasicLocalScalarFunction.hpp b/src/BasicLocalScalarFunction.hpp
index c7eb1ed..d598e3d 100644
--- a/src/BasicLocalScalarFunction.hpp
+++ b/src/BasicLocalScalarFunction.hpp
@@ -657,7 +657,7 @@ public:
                                                     tControlWS, tConfigWS, tResultWS, aTimeStep);
 
             // convert AD types to POD types
-            Plato::transform_ad_type_to_pod_2Dview<mNumSpatialDims>(tDomain, tResultWS, tCriterionPartialWrtConfiguration);
+            Plato::transform_ad_type_to_pod_2Dview<mNumConfigDofsPerCell>(tDomain, tResultWS, tCriterionPartialWrtConfiguration);
         }
         Plato::blas2::scale(mMultiplier, tCriterionPartialWrtConfiguration);
 
-- 
2.43.0


From 32620280ce4c0b24f1a87fd5395ca618d0de8430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:50 +0000
Subject: [PATCH 56/62] fix: a load on a plasticity model has as many
 components as the displacement

---
 src/InfinitesimalStrainPlasticityResidual.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InfinitesimalStrainPlasticityResidual.hpp b/src/InfinitesimalStrainPlasticityResidual.hpp
index 8f77b2c..41479ee 100644
--- a/src/InfinitesimalStrainPlasticityResidual.hpp
+++ b/src/InfinitesimalStrainPlasticityResidual.hpp
@@ -100,7 +100,7 @@ private:
 
     std::shared_ptr<Plato::BodyLoads<EvaluationType, SimplexPhysicsType>> mBodyLoads;   /*!< body loads interface */
     std::shared_ptr<CubatureType> mCubatureRule;                                        /*!< linear cubature rule */
-    std::shared_ptr<Plato::NaturalBCs<mSpaceDim, mNumGlobalDofsPerNode>> mNeumannLoads; /*!< Neumann loads interface */
+    std::shared_ptr<Plato::NaturalBCs<mSpaceDim, mNumMechDims, mNumGlobalDofsPerNode, mMechDofOffset>> mNeumannLoads; /*!< Neumann loads interface */
 
 // Private access functions
 private:
@@ -181,7 +181,7 @@ private:
             if(tNaturalBCsParams.isSublist("Mechanical Natural Boundary Conditions"))
             {
                 mNeumannLoads =
-                std::make_shared<Plato::NaturalBCs<mSpaceDim, mNumGlobalDofsPerNode>> (tNaturalBCsParams.sublist("Mechanical Natural Boundary Conditions"));
+                std::make_shared<Plato::NaturalBCs<mSpaceDim, mNumMechDims, mNumGlobalDofsPerNode, mMechDofOffset>> (tNaturalBCsParams.sublist("Mechanical Natural Boundary Conditions"));
             }
 
         }
-- 
2.43.0


From 2056b2965e12232bc1abf6deb67c446f573a3dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 57/62] fix: differentiate the plasticity residual at the load
 of each step

---
 src/PlasticityProblem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PlasticityProblem.hpp b/src/PlasticityProblem.hpp
index 2f70001..559116a 100644
--- a/src/PlasticityProblem.hpp
+++ b/src/PlasticityProblem.hpp
@@ -1057,6 +1057,10 @@ private:
             this->updateForwardState(tCurrentStates);
             this->updateAdjointState(tAdjointStates);
 
+            // the residual is differentiated at the load of the step
+            mDataMap.mScalarValues["LoadControlConstant"] =
+                mPseudoTimeStep * static_cast<Plato::Scalar>(tCurrentStates.mCurrentStepIndex + 1);
+
             mAdjointSolver->updateAdjointVariables(aControls, tCurrentStates, tPreviousStates, tAdjointStates);
             mAdjointSolver->addContributionFromPDE(aControls, tCurrentStates, tAdjointStates, aTotalDerivative);
         }
-- 
2.43.0


From 33afdcfdf2bc6dbe7729d24c3689bc5646f1ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 58/62] fix: the reaction force of a step is that of the last
 analysis

---
 src/PlasticityProblem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PlasticityProblem.hpp b/src/PlasticityProblem.hpp
index 559116a..31338d1 100644
--- a/src/PlasticityProblem.hpp
+++ b/src/PlasticityProblem.hpp
@@ -700,6 +700,7 @@ public:
         auto tReactionForce = Kokkos::subview(mReactionForce, aStates.mCurrentStepIndex, Kokkos::ALL());
         Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumNodes), LAMBDA_EXPRESSION(const Plato::OrdinalType &aOrdinal)
         {
+            tReactionForce(aOrdinal) = 0.0;
             for(Plato::OrdinalType tDim = 0; tDim < mSpaceDim; tDim++)
             {
                 tReactionForce(aOrdinal) += tInternalForce(aOrdinal*mNumGlobalDofsPerNode+tDim);
-- 
2.43.0


From 6fc76ae0d0827be088adfd4a27045c6ea5845e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 59/62] fix: apply the whole load when the initial number of
 steps exceeds the maximum

---
 src/PlasticityProblem.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PlasticityProblem.hpp b/src/PlasticityProblem.hpp
index 31338d1..f86109c 100644
--- a/src/PlasticityProblem.hpp
+++ b/src/PlasticityProblem.hpp
@@ -722,6 +722,12 @@ private:
         {
             mNumPseudoTimeSteps = mMaxNumPseudoTimeSteps;
             mMaxNumPseudoTimeStepsReached = true;
+
+            mPseudoTimeStep = mEndTime / static_cast<Plato::Scalar>(mNumPseudoTimeSteps);
+            Kokkos::resize(mLocalStates, mNumPseudoTimeSteps, mLocalEquation->size());
+            Kokkos::resize(mGlobalStates, mNumPseudoTimeSteps, mGlobalEquation->size());
+            Kokkos::resize(mReactionForce, mNumPseudoTimeSteps, mGlobalEquation->numNodes());
+            Kokkos::resize(mProjectedPressGrad, mNumPseudoTimeSteps, mProjectionEquation->size());
         }
 
         if(aInputParams.isSublist("Material Models") == false)
-- 
2.43.0


From 76918afbffca59cbad45656061efd9dedb20757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:54 +0000
Subject: [PATCH 60/62] fix: evaluate the gradients of the local equations of a
 plasticity model block by block

---
 src/LocalVectorFunctionInc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LocalVectorFunctionInc.hpp b/src/LocalVectorFunctionInc.hpp
index cdff3f8..c56b4c5 100644
--- a/src/LocalVectorFunctionInc.hpp
+++ b/src/LocalVectorFunctionInc.hpp
@@ -505,7 +505,7 @@ public:
             // Workset global state
             //
             Plato::ScalarMultiVectorT<StateScalar> tGlobalStateWS("State Workset", tNumCells, mNumGlobalDofsPerCell);
-            mWorksetBase.worksetState(aGlobalState, tGlobalStateWS);
+            mWorksetBase.worksetState(aGlobalState, tGlobalStateWS, tDomain);
 
             // Workset prev global state
             //
@@ -937,7 +937,7 @@ public:
                                                     tLocalStateWS,  tPrevLocalStateWS, 
                                                     tControlWS, tConfigWS, tJacobianWS, aTimeStep);
 
-            Plato::transform_ad_type_to_pod_3Dview<mNumLocalDofsPerCell, mNumNodesPerCell>(mNumCells, tJacobianWS, tOutputJacobian);
+            Plato::transform_ad_type_to_pod_3Dview<mNumLocalDofsPerCell, mNumNodesPerCell>(tDomain, tJacobianWS, tOutputJacobian);
         }
         return tOutputJacobian;
     }
-- 
2.43.0


From 3baf0a30aeaf46aa8624385a05744f0debdf5a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:38 +0000
Subject: [PATCH 61/62] fix: an analysis that does not converge is repeated
 with more steps

---
 src/PlasticityProblem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PlasticityProblem.hpp b/src/PlasticityProblem.hpp
index f86109c..8be5e6b 100644
--- a/src/PlasticityProblem.hpp
+++ b/src/PlasticityProblem.hpp
@@ -760,7 +760,8 @@ private:
     *******************************************************************************/
     void resizeTimeDependentStates()
     {
-        mNumPseudoTimeSteps = static_cast<Plato::OrdinalType>(mNumPseudoTimeSteps * mPseudoTimeStepMultiplier);
+        auto tNumPseudoTimeSteps = static_cast<Plato::OrdinalType>(mNumPseudoTimeSteps * mPseudoTimeStepMultiplier);
+        mNumPseudoTimeSteps = tNumPseudoTimeSteps > mNumPseudoTimeSteps ? tNumPseudoTimeSteps : mNumPseudoTimeSteps + 1;
         if(mNumPseudoTimeSteps >= mMaxNumPseudoTimeSteps)
         {
             mNumPseudoTimeSteps = mMaxNumPseudoTimeSteps;
-- 
2.43.0


From 9bb8123c60cae61d423cfd4eea4767bfe05eb68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:55 +0000
Subject: [PATCH 62/62] fix: mass properties of static analyses read their
 description and densities from the wrong lists

The elliptic mass properties criterion looked up its properties, weights and
gold values in the problem list instead of 'Criteria' and the density of a
material in the problem list instead of 'Material Models': every description
was refused.
---
 src/elliptic/MassPropertiesFunction.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/MassPropertiesFunction.hpp b/src/elliptic/MassPropertiesFunction.hpp
index 13f5f30..8b6255c 100644
--- a/src/elliptic/MassPropertiesFunction.hpp
+++ b/src/elliptic/MassPropertiesFunction.hpp
@@ -75,7 +75,7 @@ private:
             auto tMaterialModelsInputs = aInputParams.get<Teuchos::ParameterList>("Material Models");
             if( tMaterialModelsInputs.isSublist(tDomain.getMaterialName()) )
             {
-                auto tMaterialModelInputs = aInputParams.sublist(tDomain.getMaterialName());
+                auto tMaterialModelInputs = tMaterialModelsInputs.sublist(tDomain.getMaterialName());
                 mMaterialDensities[tName] = tMaterialModelInputs.get<Plato::Scalar>("Density", 1.0);
             }
         }
@@ -93,7 +93,7 @@ private:
               Teuchos::ParameterList & aInputParams
     )
     {
-        auto tProblemFunctionName = aInputParams.sublist(mFunctionName);
+        auto tProblemFunctionName = aInputParams.sublist("Criteria").sublist(mFunctionName);
 
         auto tPropertyNamesTeuchos      = tProblemFunctionName.get<Teuchos::Array<std::string>>("Properties");
         auto tPropertyWeightsTeuchos    = tProblemFunctionName.get<Teuchos::Array<Plato::Scalar>>("Weights");
-- 
2.43.0

