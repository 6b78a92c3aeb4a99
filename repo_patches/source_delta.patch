From 4802833f79176165cf001b4e413953bccf2e4370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 01/69] fix: gp_GetArcCapacity reports the whole capacity

It subtracted the first edge index although arcCapacity does not include it,
so graphs claimed room for one edge less than they have and
gp_DynamicAddEdge could not grow a graph of capacity 2 or 4.
---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 273b8ab..6be0fe8 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -341,7 +341,7 @@ void _ReinitializeGraph(graphP theGraph)
  ********************************************************************/
 int gp_GetArcCapacity(graphP theGraph)
 {
-    return theGraph->arcCapacity - gp_GetFirstEdge(theGraph);
+    return theGraph->arcCapacity;
 }
 
 /********************************************************************
-- 
2.43.0


From eae8f1b377a51dadb9f64e23dc7b41c3b00beee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 02/69] fix: gp_SetDirection replaces an earlier direction

Setting the opposite direction left both direction flags set.
---
 c/graphLib/graphStructures.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/graphStructures.h b/c/graphLib/graphStructures.h
index 48d2dc4..896a7f2 100644
--- a/c/graphLib/graphStructures.h
+++ b/c/graphLib/graphStructures.h
@@ -150,11 +150,15 @@ extern "C"
 	{                                                                                          \
 		if (edgeFlag_Direction == EDGEFLAG_DIRECTION_INONLY)                                   \
 		{                                                                                      \
+			theGraph->E[e].flags &= ~EDGEFLAG_DIRECTION_MASK;                                  \
+			theGraph->E[gp_GetTwinArc(theGraph, e)].flags &= ~EDGEFLAG_DIRECTION_MASK;         \
 			theGraph->E[e].flags |= EDGEFLAG_DIRECTION_INONLY;                                 \
 			theGraph->E[gp_GetTwinArc(theGraph, e)].flags |= EDGEFLAG_DIRECTION_OUTONLY;       \
 		}                                                                                      \
 		else if (edgeFlag_Direction == EDGEFLAG_DIRECTION_OUTONLY)                             \
 		{                                                                                      \
+			theGraph->E[e].flags &= ~EDGEFLAG_DIRECTION_MASK;                                  \
+			theGraph->E[gp_GetTwinArc(theGraph, e)].flags &= ~EDGEFLAG_DIRECTION_MASK;         \
 			theGraph->E[e].flags |= EDGEFLAG_DIRECTION_OUTONLY;                                \
 			theGraph->E[gp_GetTwinArc(theGraph, e)].flags |= EDGEFLAG_DIRECTION_INONLY;        \
 		}                                                                                      \
-- 
2.43.0


From 573ef05704ebb750444e4e1057f8aed2e0fd563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 03/69] fix: _RestoreVertex ends v's list at its last arc

The previous link of the last arc was cleared instead of its next link.
---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 6be0fe8..0393ade 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2285,7 +2285,7 @@ int _RestoreVertex(graphP theGraph)
         if (gp_IsArc(e_v_first))
             gp_SetPrevArc(theGraph, e_v_first, NIL);
         if (gp_IsArc(e_v_last))
-            gp_SetPrevArc(theGraph, e_v_last, NIL);
+            gp_SetNextArc(theGraph, e_v_last, NIL);
 
         // For each edge record restored to v's adjacency list, reassign the 'v' member
         //    of each twin arc to indicate v rather than u.
-- 
2.43.0


From 42cf6921b3d5121f83e1df93b30e1fabf481093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 04/69] fix: contracting an edge directly can be undone

_ContractEdge pushes the contracted edge below the hidden edge stack bottom
recorded by the identification; only _IdentifyVertices corrected that, so after
gp_ContractEdge the edge stayed on the stack and gp_RestoreVertices failed.
---
 c/graphLib/graphUtils.c | 42 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 0393ade..af7929d 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2001,7 +2001,7 @@ int gp_ContractEdge(graphP theGraph, int e)
 
 int _ContractEdge(graphP theGraph, int e)
 {
-    int eBefore, u, v;
+    int eBefore, u, v, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue;
 
     if (gp_IsNotArc(e))
         return NOTOK;
@@ -2013,7 +2013,25 @@ int _ContractEdge(graphP theGraph, int e)
     sp_Push(theGraph->theStack, e);
     gp_HideEdge(theGraph, e);
 
-    return gp_IdentifyVertices(theGraph, u, v, eBefore);
+    if (gp_IdentifyVertices(theGraph, u, v, eBefore) != OK)
+        return NOTOK;
+
+    // The edge contraction operation pushes one hidden edge, then the
+    // vertex identification pushes K hidden edges and then an integer
+    // indicating where the top of stack was before the edges were hidden.
+    // That integer indicator must be decremented, thereby incrementing the
+    // number of hidden edges to K+1.
+    // After pushing the K hidden edges and the stackBottom of
+    // the hidden edges, the vertex identification pushes
+    // six more integers to indicate edges that were moved from
+    // v to u, so the "hidden edges stackBottom" is in the next
+    // position down.
+    hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
+    hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
+
+    sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
+
+    return OK;
 }
 
 /********************************************************************
@@ -2065,25 +2083,7 @@ int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
     // essentially an edge contraction with a bit of fixup.
     if (gp_IsArc(e))
     {
-        int result = gp_ContractEdge(theGraph, e);
-
-        // The edge contraction operation pushes one hidden edge then
-        // recursively calls this method. This method then pushes K
-        // hidden edges then an integer indicating where the top of
-        // stack was before the edges were hidden. That integer
-        // indicator must be decremented, thereby incrementing the
-        // number of hidden edges to K+1.
-        // After pushing the K hidden edges and the stackBottom of
-        // the hidden edges, the recursive call to this method pushes
-        // six more integers to indicate edges that were moved from
-        // v to u, so the "hidden edges stackBottom" is in the next
-        // position down.
-        int hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
-        int hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
-
-        sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
-
-        return result;
+        return gp_ContractEdge(theGraph, e);
     }
 
     // Now, u and v are not adjacent. Before we do any edge hiding or
-- 
2.43.0


From c3e501f0a1c16ea18b47711d902edcf38da1c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:36 +0000
Subject: [PATCH 05/69] fix: copying a feature reads only the source's edge
 data

The copy's edge capacity can be larger than the source's, so the copy of the
per-edge data ran past the end of the source's array.
---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 5 +++--
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 5 +++--
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 7 ++++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 468f724..ac55e4c 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -313,7 +313,7 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -323,7 +323,8 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
          _K33Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K33Search_CreateStructures(newContext) != OK)
+             if (_K33Search_CreateStructures(newContext) != OK ||
+                 _K33Search_InitStructures(newContext) != OK)
              {
                  _K33Search_FreeContext(newContext);
                  return NULL;
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 13ff6a0..0fd3b56 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -269,7 +269,7 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
 
      if (newContext != NULL)
      {
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -279,7 +279,8 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
          _K4Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K4Search_CreateStructures(newContext) != OK)
+             if (_K4Search_CreateStructures(newContext) != OK ||
+                 _K4Search_InitStructures(newContext) != OK)
              {
                  _K4Search_FreeContext(newContext);
                  return NULL;
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 92aee53..7054157 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -50,7 +50,7 @@ void _DrawPlanar_FreeContext(void *);
 /****************************************************************************
  * DRAWPLANAR_ID - the variable used to hold the integer identifier for this
  * extension, enabling this feature's extension context to be distinguished
- * from other features' extension contexts that may be attached to a graph.
+ * from other features' extension contexts that may be attached to a graph.
  ****************************************************************************/
 
 int DRAWPLANAR_ID = 0;
@@ -255,7 +255,7 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -265,7 +265,8 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
          _DrawPlanar_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_DrawPlanar_CreateStructures(newContext) != OK)
+             if (_DrawPlanar_CreateStructures(newContext) != OK ||
+                 _DrawPlanar_InitStructures(newContext) != OK)
              {
                  _DrawPlanar_FreeContext(newContext);
                  return NULL;
-- 
2.43.0


From 0dfe3f13144057156f7865a52f693e075b0de0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:36 +0000
Subject: [PATCH 06/69] fix: a copied feature uses the function table of its
 own context

gp_CopyExtensions left the copy pointing at the source's table, so detaching a
feature from either graph corrupted the other, and used freed memory once the
source was gone. A failed duplication is now reported as well.
---
 c/graphLib/extensionSystem/graphExtensions.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index 1dee8d0..38122ec 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -487,9 +487,18 @@ int gp_CopyExtensions(graphP dstGraph, graphP srcGraph)
 
         newNext->moduleID = next->moduleID;
         newNext->context = next->dupContext(next->context, dstGraph);
+        if (newNext->context == NULL)
+        {
+            free(newNext);
+            gp_FreeExtensions(dstGraph);
+            return NOTOK;
+        }
         newNext->dupContext = next->dupContext;
         newNext->freeContext = next->freeContext;
-        newNext->functions = next->functions;
+        // The table of functions is stored in the data context, so the copy's
+        // table is at the same place within the duplicated context
+        newNext->functions = (graphFunctionTableP)((char *)newNext->context +
+                                                   ((char *)next->functions - (char *)next->context));
         newNext->next = NULL;
 
         if (newLast != NULL)
-- 
2.43.0


From 3c990c98b733386be0e7bac1f2b99facbfff5a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:42 +0000
Subject: [PATCH 07/69] fix: graph copies leave no stale edge records behind

When the destination has a higher arc capacity than the source, its extra edge
records kept the flags of its earlier edges, so edges added later to the copy
could come out directed.
---
 c/graphLib/graphUtils.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index af7929d..3f9d922 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -908,7 +908,7 @@ void gp_Free(graphP *pGraph)
  ********************************************************************/
 int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
 {
-    int v, e, EsizeOccupied;
+    int v, e, Esize, EsizeOccupied;
 
     if (dstGraph == NULL || srcGraph == NULL)
         return NOTOK;
@@ -933,8 +933,15 @@ int gp_CopyAdjacencyLists(graphP dstGraph, graphP srcGraph)
         gp_SetNeighbor(dstGraph, e, gp_GetNeighbor(srcGraph, e));
         gp_SetNextArc(dstGraph, e, gp_GetNextArc(srcGraph, e));
         gp_SetPrevArc(dstGraph, e, gp_GetPrevArc(srcGraph, e));
+        if (gp_EdgeNotInUse(dstGraph, e))
+            gp_InitEdgeFlags(dstGraph, e);
     }
 
+    // The remaining edge records of dstGraph are not in use
+    Esize = gp_EdgeIndexBound(dstGraph);
+    for (; e < Esize; e++)
+        _InitEdgeRec(dstGraph, e);
+
     // Tell the dstGraph how many edges it now has and where the edge holes are
     dstGraph->M = srcGraph->M;
     sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
@@ -1000,6 +1007,11 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
     for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
         gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
 
+    // If dstGraph has a higher arc capacity, then its extra edge records are not in use
+    Esize = gp_EdgeIndexBound(dstGraph);
+    for (; e < Esize; e++)
+        _InitEdgeRec(dstGraph, e);
+
     // Give the dstGraph the same size and intrinsic properties
     dstGraph->N = srcGraph->N;
     dstGraph->NV = srcGraph->NV;
-- 
2.43.0


From cefe8c56bb0ffdc12c30002ca83018531f6b1a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:49 +0000
Subject: [PATCH 08/69] fix: the built-in stack holds the records of all hidden
 vertices

With an edge capacity set below the default, hiding or identifying all of the
vertices (7 integers each plus one per hidden edge) overran the stack.
---
 c/graphLib/graphUtils.c | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 3f9d922..7198842 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -175,8 +175,8 @@ void _InitFunctionTable(graphP theGraph)
  The BicompRootLists and sortedDFSChildLists are of size N and start out empty.
 
  The stack, initially empty, is made big enough for a pair of integers
-     per edge record (2 * arcCapacity), or 6N integers if the arcCapacity
-     was set below the default value.
+     per edge record (2 * arcCapacity), or 7N integers plus one per edge
+     if the arcCapacity was set below the default value.
 
  The edgeHoles stack, initially empty, is set to arcCapacity / 2,
      which is big enough to push every edge (to indicate an edge
@@ -212,9 +212,10 @@ int _InitGraph(graphP theGraph, int N)
     Vsize = gp_VertexIndexBound(theGraph);
     Esize = gp_EdgeIndexBound(theGraph);
 
-    // Stack size is 2 integers per arc, or 6 integers per vertex in case of small arcCapacity
+    // Stack size is 2 integers per arc, or in case of small arcCapacity, enough to hide all
+    // vertices (7 integers per vertex plus 1 per edge, see gp_RestoreVertex())
     stackSize = 2 * Esize;
-    stackSize = stackSize < 6 * N ? 6 * N : stackSize;
+    stackSize = stackSize < 7 * N + Esize / 2 ? 7 * N + Esize / 2 : stackSize;
 
     // Allocate memory as described above
     if ((theGraph->V = (vertexRecP)calloc(Vsize, sizeof(vertexRec))) == NULL ||
@@ -425,29 +426,20 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 {
     stackP newStack;
     int e, Esize = gp_EdgeIndexBound(theGraph),
-           newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
+           newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity,
+           stackSize = 2 * requiredArcCapacity;
 
     // If the new size is less than or equal to the old size, then
     // the graph already has the required arc capacity
     if (newEsize <= Esize)
         return OK;
 
-    // Expand theStack
-    if (sp_GetCapacity(theGraph->theStack) < 2 * requiredArcCapacity)
-    {
-        int stackSize = 2 * requiredArcCapacity;
-
-        if (stackSize < 6 * theGraph->N)
-        {
-            // NOTE: Since this routine only makes the stack bigger, this
-            //       calculation is not needed here because we already ensured
-            //       we had stack capacity of the greater of 2*arcs and 6*N
-            //       But we do it for clarity and consistency (e.g. so this rule
-            //       is not forgotten whenever a "SetArcCapacity" method or a
-            //       "reduceArcCapacity" method is added)
-            stackSize = 6 * theGraph->N;
-        }
+    // Expand theStack (see _InitGraph() for the size calculation)
+    if (stackSize < 7 * theGraph->N + newEsize / 2)
+        stackSize = 7 * theGraph->N + newEsize / 2;
 
+    if (sp_GetCapacity(theGraph->theStack) < stackSize)
+    {
         if ((newStack = sp_New(stackSize)) == NULL)
             return NOTOK;
 
-- 
2.43.0


From b9e395332bae65174194b1cff769ea57a15538e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 09/69] fix: gp_LeastAncestor starts with cleared visited flags

---
 c/graphLib/graphDFSUtils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 997952f..60f6707 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -405,6 +405,8 @@ int gp_LeastAncestor(graphP theGraph)
 
     sp_ClearStack(theStack);
 
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
     // This outer loop causes the connected subgraphs of a disconnected graph to be processed
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v);)
     {
-- 
2.43.0


From e461326b991baf7a5c95b804e8f9e2e649c477ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 10/69] fix: ancestor utilities refuse a missing graph before
 using it

---
 c/graphLib/graphDFSUtils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 60f6707..9d8cbdc 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -250,12 +250,14 @@ int _SortVertices(graphP theGraph)
 
 int gp_LowpointAndLeastAncestor(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack = NULL;
     int v, u, uneighbor, e, L, leastAncestor;
 
     if (theGraph == NULL)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     if (!(theGraph->internalFlags & FLAGS_DFSNUMBERED))
         if (gp_CreateDFSTree(theGraph) != OK)
             return NOTOK;
@@ -378,12 +380,14 @@ int gp_LowpointAndLeastAncestor(graphP theGraph)
 
 int gp_LeastAncestor(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack = NULL;
     int v, u, uneighbor, e, leastAncestor;
 
     if (theGraph == NULL)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     if (!(theGraph->internalFlags & FLAGS_DFSNUMBERED))
         if (gp_CreateDFSTree(theGraph) != OK)
             return NOTOK;
-- 
2.43.0


From 02b0858f6a221dff49a747acbfaf98b266549939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 11/69] fix: sf_fgets does not write in front of an empty
 buffer

---
 c/graphLib/io/strOrFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/strOrFile.c b/c/graphLib/io/strOrFile.c
index 314e315..5fc5183 100644
--- a/c/graphLib/io/strOrFile.c
+++ b/c/graphLib/io/strOrFile.c
@@ -113,7 +113,7 @@ char sf_ungetc(char theChar, strOrFileP theStrOrFile)
  ********************************************************************/
 char *sf_fgets(char *str, int count, strOrFileP theStrOrFile)
 {
-	if (str == NULL || count < 0 || theStrOrFile == NULL)
+	if (str == NULL || count <= 0 || theStrOrFile == NULL)
 		return NULL;
 
 	if (theStrOrFile->pFile != NULL)
-- 
2.43.0


From 587a6a47342b929b7c83ed12368ecb8fd0c8470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 12/69] fix: sf_fputs returns the number of characters written
 to a file too

---
 c/graphLib/io/strOrFile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/strOrFile.c b/c/graphLib/io/strOrFile.c
index 5fc5183..634d600 100644
--- a/c/graphLib/io/strOrFile.c
+++ b/c/graphLib/io/strOrFile.c
@@ -163,7 +163,10 @@ int sf_fputs(char *strToWrite, strOrFileP theStrOrFile)
 
 	int lenOfStringToPuts = strlen(strToWrite);
 	if (theStrOrFile->pFile != NULL)
-		outputLen = fputs(strToWrite, theStrOrFile->pFile);
+	{
+		if (fputs(strToWrite, theStrOrFile->pFile) >= 0)
+			outputLen = lenOfStringToPuts;
+	}
 	else if (theStrOrFile->theStr != NULL)
 	{
 		// Want to be able to contain the original theStr contents, the strToWrite, and a null terminator (added by strcat)
-- 
2.43.0


From d0d23f7f627c59c0a61892272c44a19b2c387fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 13/69] fix: a string buffer reads from the start of its new
 content

---
 c/graphLib/io/strbuf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 1ab64a6..eaf1cb3 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -108,6 +108,7 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
 
     strBufDst->size = strBufSrc->size;
     strBufDst->capacity = strBufSrc->capacity;
+    strBufDst->readPos = 0;
 
     return OK;
 }
@@ -241,7 +242,7 @@ char *sb_TakeString(strBufP theStrBuf)
     theBuf = theStrBuf->buf;
     theStrBuf->buf = (char *)malloc(sizeof(char));
     theStrBuf->buf[0] = '\0';
-    theStrBuf->size = theStrBuf->capacity = 0;
+    theStrBuf->size = theStrBuf->capacity = theStrBuf->readPos = 0;
 
     return theBuf;
 }
-- 
2.43.0


From 55f3e53e2707329ee95c96cfd72f95e23ea2b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:41 +0000
Subject: [PATCH 14/69] fix: adjacency matrices are read flag by flag, and an
 incomplete one is refused

---
 c/graphLib/io/graphIO.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 3a0fed4..6b122f9 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -61,12 +61,18 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         {
             // Read each of v's w-neighbor flags
             if (Infile != NULL)
-                fscanf(Infile, " %1d", &Flag);
+            {
+                if (fscanf(Infile, " %1d", &Flag) != 1)
+                    return NOTOK;
+            }
             else
             {
+                // Each flag is a single digit, so only one character is skipped
+                // (the flags of a row need not be separated by whitespace)
                 sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %1d", &Flag);
-                sb_ReadSkipInteger(inBuf);
+                if (sscanf(sb_GetReadString(inBuf), "%1d", &Flag) != 1)
+                    return NOTOK;
+                sb_ReadSkipChar(inBuf);
             }
 
             // Add the edge (v, w) if the flag is raised
-- 
2.43.0


From 0fe4cefa6fd5117ec9fd70349d55f9dc6d6d7490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:42 +0000
Subject: [PATCH 15/69] fix: an incomplete adjacency list is refused instead of
 read forever

---
 c/graphLib/io/graphIO.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 6b122f9..11d790e 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -152,10 +152,14 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     {
         // Read the vertex number
         if (Infile != NULL)
-            fscanf(Infile, "%d", &indexValue);
+        {
+            if (fscanf(Infile, "%d", &indexValue) != 1)
+                return NOTOK;
+        }
         else
         {
-            sscanf(sb_GetReadString(inBuf), "%d", &indexValue);
+            if (sscanf(sb_GetReadString(inBuf), "%d", &indexValue) != 1)
+                return NOTOK;
             sb_ReadSkipInteger(inBuf);
         }
 
@@ -213,11 +217,15 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         {
             // Read the value indicating the next adjacent vertex (or the list end)
             if (Infile != NULL)
-                fscanf(Infile, " %d ", &W);
+            {
+                if (fscanf(Infile, " %d ", &W) != 1)
+                    return NOTOK;
+            }
             else
             {
                 sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %d ", &W);
+                if (sscanf(sb_GetReadString(inBuf), " %d ", &W) != 1)
+                    return NOTOK;
                 sb_ReadSkipInteger(inBuf);
                 sb_ReadSkipWhitespace(inBuf);
             }
-- 
2.43.0


From 59e3fac12131f80efe24ba48d2c82b1ae94e5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:43 +0000
Subject: [PATCH 16/69] fix: the LEDA reader refuses incomplete files and
 vertices out of range

---
 c/graphLib/io/graphIO.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 11d790e..eb6b07c 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -332,7 +332,8 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
 {
     char Line[256];
     int N = -1;
-    int M, m, u, v, ErrorCode;
+    int M = -1;
+    int m, u, v, ErrorCode;
     int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
 
     /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
@@ -342,8 +343,8 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
     fgets(Line, 255, Infile);
 
     /* Read the number of vertices N, initialize the graph, then skip N. */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &N);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &N) != 1)
+        return NOTOK;
 
     if (gp_InitGraph(theGraph, N) != OK)
         return NOTOK;
@@ -352,14 +353,19 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
         fgets(Line, 255, Infile);
 
     /* Read the number of edges */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &M);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &M) != 1 || M < 0)
+        return NOTOK;
 
     /* Read and add each edge, omitting loops and parallel edges */
     for (m = 0; m < M; m++)
     {
-        fgets(Line, 255, Infile);
-        sscanf(Line, " %d %d", &u, &v);
+        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d %d", &u, &v) != 2)
+            return NOTOK;
+
+        if (!gp_VertexInRange(theGraph, u - zeroBasedOffset) || u - zeroBasedOffset < gp_GetFirstVertex(theGraph) ||
+            !gp_VertexInRange(theGraph, v - zeroBasedOffset) || v - zeroBasedOffset < gp_GetFirstVertex(theGraph))
+            return NOTOK;
+
         if (u != v && !gp_IsNeighbor(theGraph, u - zeroBasedOffset, v - zeroBasedOffset))
         {
             if ((ErrorCode = gp_DynamicAddEdge(theGraph, u - zeroBasedOffset, 0, v - zeroBasedOffset, 0)) != OK)
-- 
2.43.0


From 23d58dfa5cb3c2e8bce0ca98cc4cf4de7951cda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:08 +0000
Subject: [PATCH 17/69] fix: gp_Read refuses an empty file instead of reading
 an unset buffer

---
 c/graphLib/io/graphIO.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index eb6b07c..fc64a5a 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -409,7 +409,14 @@ int gp_Read(graphP theGraph, char *FileName)
     else if ((Infile = fopen(FileName, READTEXT)) == NULL)
         return NOTOK;
 
-    fgets(lineBuff, 255, Infile);
+    // An empty (or unreadable) file contains no graph in any format
+    if (fgets(lineBuff, 255, Infile) == NULL)
+    {
+        if (Infile != stdin)
+            fclose(Infile);
+        return NOTOK;
+    }
+
     // Reset file pointer to beginning of file
     fseek(Infile, 0, SEEK_SET);
     if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
-- 
2.43.0


From 953bdbcc48f344ef2b2fc43ec6d3650e2234b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:09 +0000
Subject: [PATCH 18/69] fix: gp_Read null-terminates the extra data it hands to
 extensions

---
 c/graphLib/io/graphIO.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index fc64a5a..31a35c8 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -460,7 +460,11 @@ int gp_Read(graphP theGraph, char *FileName)
         if (filePos < fileSize)
         {
             extraData = malloc(fileSize - filePos + 1);
-            fread(extraData, fileSize - filePos, 1, Infile);
+            if (extraData == NULL || fread(extraData, fileSize - filePos, 1, Infile) != 1)
+                RetVal = NOTOK;
+            else
+                // The readers of extra data expect a null-terminated string
+                ((char *)extraData)[fileSize - filePos] = '\0';
         }
         /*
                 // Useful for quick debugging of IO extensibility
@@ -476,7 +480,8 @@ int gp_Read(graphP theGraph, char *FileName)
 
         if (extraData != NULL)
         {
-            RetVal = theGraph->functions.fpReadPostprocess(theGraph, extraData, fileSize - filePos);
+            if (RetVal == OK)
+                RetVal = theGraph->functions.fpReadPostprocess(theGraph, extraData, fileSize - filePos);
             free((void *)extraData);
         }
     }
-- 
2.43.0


From 1f5a84ee2ccbc7f5190d5aa31aa280c8f0ce9a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:10 +0000
Subject: [PATCH 19/69] fix: gp_ReadFromString releases its buffer when it
 refuses LEDA content

---
 c/graphLib/io/graphIO.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 31a35c8..1d1fdfe 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -528,6 +528,7 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
 
     if (strncmp(inputStr, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
     {
+        sb_Free(&inBuf);
         if (inputStr != NULL)
             free(inputStr);
         return NOTOK;
-- 
2.43.0


From 5ccc71f0bed27966019dc0160f4ddb24f5a26ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:12 +0000
Subject: [PATCH 20/69] fix: _WriteAdjMatrix releases its row on errors

---
 c/graphLib/io/graphIO.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 1d1fdfe..8d04196 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -703,7 +703,10 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         while (gp_IsArc(e))
         {
             if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+            {
+                free(Row);
                 return NOTOK;
+            }
 
             if (gp_GetNeighbor(theGraph, e) > v)
                 Row[gp_GetNeighbor(theGraph, e) - gp_GetFirstVertex(theGraph)] = '1';
@@ -717,8 +720,11 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         // Write the row to the file or string buffer
         if (Outfile != NULL)
             fprintf(Outfile, "%s", Row);
-        else
-            sb_ConcatString(outBuf, Row);
+        else if (sb_ConcatString(outBuf, Row) != OK)
+        {
+            free(Row);
+            return NOTOK;
+        }
     }
 
     free(Row);
-- 
2.43.0


From fb8e7d7a9c726cf6f165869c4c8f9eb918f4260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:13 +0000
Subject: [PATCH 21/69] fix: gp_Write adds no extra data to .g6 output, whose
 file is closed already

---
 c/graphLib/io/graphIO.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 8d04196..3f46300 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -922,7 +922,9 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
         break;
     }
 
-    if (RetVal == OK)
+    // The .g6 format does not allow "extra data" (see gp_Read), and the
+    // output file has already been closed
+    if (RetVal == OK && Mode != WRITE_G6)
     {
         void *extraData = NULL;
         long extraDataSize;
-- 
2.43.0


From c11be3642ceaf5b16e5501bbdd00e20cbb8f99a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:14 +0000
Subject: [PATCH 22/69] fix: gp_WriteToString leaves no dangling string when
 .g6 output fails

---
 c/graphLib/io/g6-write-iterator.c | 7 +++++++
 c/graphLib/io/graphIO.c           | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 44f0691..c7ca65d 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -655,13 +655,20 @@ int _WriteGraphToG6String(graphP pGraph, char **g6OutputStr)
 	{
 		ErrorMessage("Unable to begin G6 write iteration.\n");
 		freeG6WriteIterator(&pG6WriteIterator);
+		// The iterator owned, and has released, the string
+		if (g6OutputStr != NULL)
+			(*g6OutputStr) = NULL;
 		return exitCode;
 	}
 
 	exitCode = writeGraphUsingG6WriteIterator(pG6WriteIterator);
 
 	if (exitCode != OK)
+	{
 		ErrorMessage("Unable to write graph using G6WriteIterator.\n");
+		// The iterator owns, and will release, the string
+		(*g6OutputStr) = NULL;
+	}
 	else
 	{
 		(*g6OutputStr) = sf_takeTheStr(pG6WriteIterator->g6Output);
diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 3f46300..418b4b0 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -978,6 +978,8 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
     switch (Mode)
     {
     case WRITE_G6:
+        // The content of *pOutputStr is output only, in every mode
+        *pOutputStr = NULL;
         RetVal = _WriteGraphToG6String(theGraph, pOutputStr);
         sb_Free(&outBuf);
         break;
-- 
2.43.0


From bbbb2edbd0b62d98b22f1af1e32bdbf5b0c939fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 23/69] fix: reading a malformed .g6 graph reports the error

---
 c/graphLib/io/g6-read-iterator.c | 54 ++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 55759f4..8cceb79 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -744,9 +744,7 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -756,14 +754,18 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	// The result of the read is kept, unless only the cleanup fails
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -790,9 +792,7 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -802,14 +802,18 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	// The result of the read is kept, unless only the cleanup fails
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
@@ -839,9 +843,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -851,14 +853,18 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	// The result of the read is kept, unless only the cleanup fails
+	if (endG6ReadIteration(pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = NOTOK;
+	}
 
-	if (exitCode != OK)
+	if (freeG6ReadIterator(&pG6ReadIterator) != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = NOTOK;
+	}
 
 	return exitCode;
 }
-- 
2.43.0


From b9cc90b1f97e211f72026302948b97fecd4507fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:21 +0000
Subject: [PATCH 24/69] fix: .g6 input that ends after the graph order is
 complete for order 1 only

---
 c/graphLib/io/g6-read-iterator.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 8cceb79..416d1a1 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -439,7 +439,15 @@ int readGraphUsingG6ReadIterator(G6ReadIterator *pG6ReadIterator)
 
 	char firstChar = '\0';
 	char *graphEncodingChars = NULL;
-	if (sf_fgets(currGraphBuff, currGraphBuffSize, g6Input) != NULL)
+	char *line = sf_fgets(currGraphBuff, currGraphBuffSize, g6Input);
+
+	// The order of the first graph was read when the iteration began, so if the
+	// input ends here, then the encoding of that graph is empty, which is only
+	// valid for a graph of order 1
+	if (line == NULL && numGraphsRead == 0)
+		line = strcpy(currGraphBuff, "\n");
+
+	if (line != NULL)
 	{
 		numGraphsRead++;
 		firstChar = currGraphBuff[0];
@@ -587,7 +595,7 @@ int _validateGraphEncoding(char *graphBuff, const int graphOrder, const int numC
 	// Check that there are no extraneous bits in representation (since we pad out to a
 	// multiple of 6 before splitting into bytes and adding 63 to each byte)
 	int expectedNumPaddingZeroes = _getExpectedNumPaddingZeroes(graphOrder, numChars);
-	char finalByte = graphBuff[numChars - 1] - 63;
+	char finalByte = numChars > 0 ? graphBuff[numChars - 1] - 63 : 0;
 	int numPaddingZeroes = 0;
 	for (int i = 0; i < expectedNumPaddingZeroes; i++)
 	{
-- 
2.43.0


From 3c3176d49ab7bd88e195a4a833739a924bc45f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:21 +0000
Subject: [PATCH 25/69] fix: the .g6 reader checks all characters of a
 four-character graph order

---
 c/graphLib/io/g6-read-iterator.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 416d1a1..ca9bbaa 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -378,9 +378,20 @@ int _getGraphOrder(strOrFileP g6Input, int *graphOrder)
 		for (int i = 2; i >= 0; i--)
 		{
 			graphChar = sf_getc(g6Input) - 63;
+			if (graphChar < 0 || graphChar > 63)
+			{
+				ErrorMessage("Invalid graph order signifier.\n");
+				return NOTOK;
+			}
 			n |= graphChar << (6 * i);
 		}
 
+		if (n < 63)
+		{
+			ErrorMessage("Graph orders up to 62 are expressed by one character.\n");
+			return NOTOK;
+		}
+
 		if (n > 100000)
 		{
 			ErrorMessage("Graph order is too large; we only support n <= 100000.\n");
@@ -542,7 +553,20 @@ int _checkGraphOrder(char *graphBuff, int graphOrder)
 		int orderCharIndex = 2;
 
 		for (int i = 1; i < 4; i++)
+		{
+			if (graphBuff[i] < 63 || graphBuff[i] > 126)
+			{
+				ErrorMessage("Invalid graph order signifier.\n");
+				return NOTOK;
+			}
 			n |= (graphBuff[i] - 63) << (6 * orderCharIndex--);
+		}
+
+		if (n < 63)
+		{
+			ErrorMessage("Graph orders up to 62 are expressed by one character.\n");
+			return NOTOK;
+		}
 	}
 	else if (currChar > 62 && currChar < 126)
 		n = currChar - 63;
-- 
2.43.0


From 29c0261e752ae9855f6fbadcfd0703bf4668c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 26/69] fix: .g6 iterators refuse a missing graph or iterator

---
 c/graphLib/io/g6-read-iterator.c  | 18 +++++++++++++++---
 c/graphLib/io/g6-write-iterator.c | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index ca9bbaa..44c46b7 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -37,10 +37,10 @@ int allocateG6ReadIterator(G6ReadIterator **ppG6ReadIterator, graphP pGraph)
 	{
 		ErrorMessage("Must allocate graph to be used by G6ReadIterator.\n");
 
-		exitCode = freeG6ReadIterator(ppG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(ppG6ReadIterator) != OK)
 			ErrorMessage("Unable to free the G6ReadIterator.\n");
+
+		exitCode = NOTOK;
 	}
 	else
 	{
@@ -140,6 +140,12 @@ int beginG6ReadIterationFromG6FilePointer(G6ReadIterator *pG6ReadIterator, FILE
 {
 	int exitCode = OK;
 
+	if (!_isG6ReadIteratorAllocated(pG6ReadIterator))
+	{
+		ErrorMessage("G6ReadIterator is not allocated.\n");
+		return NOTOK;
+	}
+
 	if (g6Infile == NULL)
 	{
 		ErrorMessage(".g6 file pointer is NULL.\n");
@@ -165,6 +171,12 @@ int beginG6ReadIterationFromG6String(G6ReadIterator *pG6ReadIterator, char *g6In
 {
 	int exitCode = OK;
 
+	if (!_isG6ReadIteratorAllocated(pG6ReadIterator))
+	{
+		ErrorMessage("G6ReadIterator is not allocated.\n");
+		return NOTOK;
+	}
+
 	if (g6InputStr == NULL || strlen(g6InputStr) <= 0)
 	{
 		ErrorMessage("g6InputStr must not be null or empty string.\n");
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index c7ca65d..504a393 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -39,10 +39,10 @@ int allocateG6WriteIterator(G6WriteIterator **ppG6WriteIterator, graphP pGraph)
 	{
 		ErrorMessage("[ERROR] Must allocate and initialize graph with an order greater than 0 to use the G6WriteIterator.\n");
 
-		exitCode = freeG6WriteIterator(ppG6WriteIterator);
-
-		if (exitCode != OK)
+		if (freeG6WriteIterator(ppG6WriteIterator) != OK)
 			ErrorMessage("Unable to free the G6WriteIterator.\n");
+
+		exitCode = NOTOK;
 	}
 	else
 		(*ppG6WriteIterator)->currGraph = pGraph;
@@ -154,6 +154,12 @@ int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE
 {
 	int exitCode = OK;
 
+	if (!_isG6WriteIteratorAllocated(pG6WriteIterator))
+	{
+		ErrorMessage("G6WriteIterator is not allocated.\n");
+		return NOTOK;
+	}
+
 	if (g6Outfile == NULL)
 	{
 		ErrorMessage(".g6 outfile pointer is NULL.\n");
@@ -174,6 +180,12 @@ int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6
 {
 	int exitCode = OK;
 
+	if (!_isG6WriteIteratorAllocated(pG6WriteIterator))
+	{
+		ErrorMessage("G6WriteIterator is not allocated.\n");
+		return NOTOK;
+	}
+
 	if (g6OutputStr == NULL)
 	{
 		ErrorMessage("No .g6 output string pointer provided.\n");
-- 
2.43.0


From 8176d91c0324d1963157115b9ff5d4a9a0232688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:23 +0000
Subject: [PATCH 27/69] fix: .g6 output of a graph of order 1

---
 c/graphLib/io/g6-write-iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 504a393..3bd32ee 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -335,7 +335,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 			g6Encoding[3 - i] = intermediate & 63;
 			g6Encoding[3 - i] += 63;
 		}
-	} else if (graphOrder > 1 && graphOrder < 63) {
+	} else if (graphOrder > 0 && graphOrder < 63) {
 		g6Encoding[0] = graphOrder + 63;
 	}
 
-- 
2.43.0


From 8bfbcbeab6b3c45d96c0e2faa2e083b911bdb92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:24 +0000
Subject: [PATCH 28/69] fix: a failed .g6 encoding leaves the iterator's
 buffers to the iterator

---
 c/graphLib/io/g6-write-iterator.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 3bd32ee..0941367 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -384,9 +384,8 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 
 		if (exitCode != OK)
 		{
+			// The buffers belong to the iterator, which will release them
 			ErrorMessage("Unable to fetch next edge in graph.\n");
-			free(columnOffsets);
-			free(g6Encoding);
 			return exitCode;
 		}
 	}
-- 
2.43.0


From 43abd31f081748c54779be7401632275ce89bf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 29/69] fix: .g6 output of a digraph is refused

---
 c/graphLib/io/g6-write-iterator.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 0941367..cca6a42 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -352,6 +352,13 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 	int bitPositionPower = 0;
 	while (u != NIL && v != NIL)
 	{
+		// Directed edges cannot be expressed in .g6 format
+		if (gp_GetDirection(pGraph, e) != 0)
+		{
+			ErrorMessage("Unable to express a directed edge in .g6 format.\n");
+			return NOTOK;
+		}
+
 		// The internal graph representation is usually 1-based, but may be 0-based, so
 		// one must subtract the index of the first vertex (i.e. result of gp_GetFirstVertex)
 		// because the .g6 format is 0-based
-- 
2.43.0


From 7a717fe2a78e0f59f958368af0967f1576db6c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 30/69] fix: .g6 write iteration separates and counts the
 graphs

---
 c/graphLib/io/g6-write-iterator.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index cca6a42..e622145 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -219,6 +219,8 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 		return NOTOK;
 	}
 
+	pG6WriteIterator->numGraphsWritten = 0;
+
 	pG6WriteIterator->graphOrder = pG6WriteIterator->currGraph->N;
 
 	pG6WriteIterator->columnOffsets = (int *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(int));
@@ -473,11 +475,20 @@ int _printEncodedGraph(G6WriteIterator *pG6WriteIterator)
 		return NOTOK;
 	}
 
+	// Each graph after the first one starts on a new line
+	if (pG6WriteIterator->numGraphsWritten > 0 && sf_fputs("\n", pG6WriteIterator->g6Output) < 0)
+	{
+		ErrorMessage("Failed to output the line separator.\n");
+		return NOTOK;
+	}
+
 	if (sf_fputs(pG6WriteIterator->currGraphBuff, pG6WriteIterator->g6Output) < 0)
 	{
 		ErrorMessage("Failed to output all characters of g6 encoding.\n");
 		exitCode = NOTOK;
 	}
+	else
+		pG6WriteIterator->numGraphsWritten++;
 
 	return exitCode;
 }
-- 
2.43.0


From d3388a6ceb63a7ea60cc1b67d653de3564478b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:44 +0000
Subject: [PATCH 31/69] fix: .g6 bit positions of graphs with more than 46340
 vertices

---
 c/graphLib/io/g6-api-utilities.c  | 12 ++++++------
 c/graphLib/io/g6-api-utilities.h  |  2 +-
 c/graphLib/io/g6-write-iterator.c | 10 +++++-----
 c/graphLib/io/g6-write-iterator.h |  4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/c/graphLib/io/g6-api-utilities.c b/c/graphLib/io/g6-api-utilities.c
index 99d6c3e..a0681a5 100644
--- a/c/graphLib/io/g6-api-utilities.c
+++ b/c/graphLib/io/g6-api-utilities.c
@@ -6,16 +6,16 @@ See the LICENSE.TXT file for licensing information.
 
 #include "g6-api-utilities.h"
 
-int _getMaxEdgeCount(int graphOrder)
+long long _getMaxEdgeCount(int graphOrder)
 {
-	return (graphOrder * (graphOrder - 1)) / 2;
+	return ((long long)graphOrder * (graphOrder - 1)) / 2;
 }
 
 int _getNumCharsForGraphEncoding(int graphOrder)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
 
-	return (maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0);
+	return (int)((maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0));
 }
 
 int _getNumCharsForGraphOrder(int graphOrder)
@@ -31,8 +31,8 @@ int _getNumCharsForGraphOrder(int graphOrder)
 
 int _getExpectedNumPaddingZeroes(const int graphOrder, const int numChars)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
-	int expectedNumPaddingZeroes = numChars * 6 - maxNumEdges;
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
+	int expectedNumPaddingZeroes = (int)((long long)numChars * 6 - maxNumEdges);
 
 	return expectedNumPaddingZeroes;
 }
diff --git a/c/graphLib/io/g6-api-utilities.h b/c/graphLib/io/g6-api-utilities.h
index ae6de29..78c2d89 100644
--- a/c/graphLib/io/g6-api-utilities.h
+++ b/c/graphLib/io/g6-api-utilities.h
@@ -11,7 +11,7 @@ See the LICENSE.TXT file for licensing information.
 extern "C" {
 #endif
 
-int _getMaxEdgeCount(int);
+long long _getMaxEdgeCount(int);
 int _getNumCharsForGraphEncoding(int);
 int _getNumCharsForGraphOrder(int);
 int _getExpectedNumPaddingZeroes(const int, const int);
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index e622145..8e7b489 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -223,7 +223,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 
 	pG6WriteIterator->graphOrder = pG6WriteIterator->currGraph->N;
 
-	pG6WriteIterator->columnOffsets = (int *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(int));
+	pG6WriteIterator->columnOffsets = (long long *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(long long));
 
 	if ( pG6WriteIterator->columnOffsets == NULL)
 	{
@@ -248,7 +248,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 	return exitCode;
 }
 
-void _precomputeColumnOffsets(int *columnOffsets, int graphOrder)
+void _precomputeColumnOffsets(long long *columnOffsets, int graphOrder)
 {
 	if (columnOffsets == NULL)
 	{
@@ -304,7 +304,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		return NOTOK;
 	}
 
-	int *columnOffsets = pG6WriteIterator->columnOffsets;
+	long long *columnOffsets = pG6WriteIterator->columnOffsets;
 	if (columnOffsets == NULL)
 	{
 		ErrorMessage("Column offsets array is not allocated.\n");
@@ -384,8 +384,8 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		// bit to set in that byte by left-shifting 1 by (5 - ((columnOffsets[v] + u) % 6))
 		// (transforming the ((columnOffsets[v] + u) % 6)th bit from the left to the
 		// (5 - ((columnOffsets[v] + u) % 6))th bit from the right)
-		charOffset = numCharsForGraphOrder + ((columnOffsets[v] + u) / 6);
-		bitPositionPower = 5 - ((columnOffsets[v] + u) % 6);
+		charOffset = numCharsForGraphOrder + (int)((columnOffsets[v] + u) / 6);
+		bitPositionPower = 5 - (int)((columnOffsets[v] + u) % 6);
 
 		g6Encoding[charOffset] |= (1u << bitPositionPower);
 
diff --git a/c/graphLib/io/g6-write-iterator.h b/c/graphLib/io/g6-write-iterator.h
index b3314aa..6b88b0c 100644
--- a/c/graphLib/io/g6-write-iterator.h
+++ b/c/graphLib/io/g6-write-iterator.h
@@ -29,7 +29,7 @@ extern "C"
 		int currGraphBuffSize;
 		char *currGraphBuff;
 
-		int *columnOffsets;
+		long long *columnOffsets;
 
 		graphP currGraph;
 	} G6WriteIterator;
@@ -45,7 +45,7 @@ extern "C"
 	int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE *g6Outfile);
 	int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6OutputStr);
 	int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator);
-	void _precomputeColumnOffsets(int *, int);
+	void _precomputeColumnOffsets(long long *, int);
 
 	int writeGraphUsingG6WriteIterator(G6WriteIterator *);
 
-- 
2.43.0


From ddb3e56a8fb2925df3197048fdea5b47c63331a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:45 +0000
Subject: [PATCH 32/69] fix: .g6 output of more than 100000 vertices is refused

---
 c/graphLib/io/g6-write-iterator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 8e7b489..42978af 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -234,6 +234,12 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 	_precomputeColumnOffsets(pG6WriteIterator->columnOffsets, pG6WriteIterator->graphOrder);
 
 	pG6WriteIterator->numCharsForGraphOrder = _getNumCharsForGraphOrder(pG6WriteIterator->graphOrder);
+	if (pG6WriteIterator->numCharsForGraphOrder < 0)
+	{
+		ErrorMessage("Graph order is too large; we only support n <= 100000.\n");
+		return NOTOK;
+	}
+
 	pG6WriteIterator->numCharsForGraphEncoding = _getNumCharsForGraphEncoding(pG6WriteIterator->graphOrder);
 	// Must add 3 bytes for newline, possible carriage return, and null terminator
 	pG6WriteIterator->currGraphBuffSize = pG6WriteIterator->numCharsForGraphOrder + pG6WriteIterator->numCharsForGraphEncoding + 3;
-- 
2.43.0


From 7f45110a94734e89d49c448ef60df64db8903744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:45 +0000
Subject: [PATCH 33/69] fix: skipping a character does not leave the string
 buffer

---
 c/graphLib/io/strbuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/strbuf.h b/c/graphLib/io/strbuf.h
index d8891ad..2725943 100644
--- a/c/graphLib/io/strbuf.h
+++ b/c/graphLib/io/strbuf.h
@@ -39,7 +39,7 @@ strBufP sb_Duplicate(strBufP);
 
 void sb_ReadSkipWhitespace(strBufP);
 void sb_ReadSkipInteger(strBufP);
-#define sb_ReadSkipChar(theStrBuf) { theStrBuf->readPos++; }
+#define sb_ReadSkipChar(theStrBuf) { if (theStrBuf->buf[theStrBuf->readPos] != '\0') theStrBuf->readPos++; }
 
 int sb_ConcatString(strBufP, char *);
 int sb_ConcatChar(strBufP, char);
-- 
2.43.0


From ea5cc85924dff488e060525150b7ec1dc3742189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 34/69] fix: gp_ReadFromString refuses a missing string and
 releases an empty one

---
 c/graphLib/io/graphIO.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 418b4b0..b3819c3 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -507,8 +507,17 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
 {
     int RetVal;
     bool extraDataAllowed = false;
+    strBufP inBuf = NULL;
 
-    strBufP inBuf = sb_New(0);
+    // An empty (or missing) string contains no graph in any format
+    if (inputStr == NULL || inputStr[0] == '\0')
+    {
+        if (inputStr != NULL)
+            free(inputStr);
+        return NOTOK;
+    }
+
+    inBuf = sb_New(0);
     if (inBuf == NULL)
     {
         if (inputStr != NULL)
-- 
2.43.0


From 94162bacce508bacc02af04cda82362b6c930bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:38 +0000
Subject: [PATCH 35/69] fix: the attached drawing feature leaves the integrity
 checks of other algorithms' results alone

---
 .../graphDrawPlanar_Extensions.c              | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 7054157..0ef3e3e 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -534,6 +534,10 @@ int  _DrawPlanar_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
         if (context->functions.fpCheckEmbeddingIntegrity(theGraph, origGraph) != OK)
             return NOTOK;
 
+        // Only the drawing algorithm produces a visibility representation
+        if (theGraph->embedFlags != EMBEDFLAGS_DRAWPLANAR)
+            return OK;
+
         return _CheckVisibilityRepresentationIntegrity(context);
     }
 
@@ -545,7 +549,25 @@ int  _DrawPlanar_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
 
 int  _DrawPlanar_CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
 {
-     return OK;
+     // When drawing, no obstruction is isolated
+     if (theGraph->embedFlags == EMBEDFLAGS_DRAWPLANAR)
+     {
+         return OK;
+     }
+
+     // When not drawing, we let the superclass do the work
+     else
+     {
+         DrawPlanarContext *context = NULL;
+         gp_FindExtension(theGraph, DRAWPLANAR_ID, (void *)&context);
+
+         if (context != NULL)
+         {
+             return context->functions.fpCheckObstructionIntegrity(theGraph, origGraph);
+         }
+     }
+
+     return NOTOK;
 }
 
 /********************************************************************
-- 
2.43.0


From f59e81fad359a76fd2cb0d1a13d472cd01f9e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:55 +0000
Subject: [PATCH 36/69] fix: gp_CreateRandomGraphEx does not exceed the
 requested number of edges

A step of the planar phase adds two edges, so a request could be exceeded by one.
---
 c/graphLib/graphUtils.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 7198842..9076f80 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1274,8 +1274,12 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
                     return NOTOK;
             }
 
-            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
-                return NOTOK;
+            // Each step can add two edges, so the limit can be reached by the first
+            if (theGraph->M < M)
+            {
+                if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                    return NOTOK;
+            }
 
             v = last = c;
         }
@@ -1287,21 +1291,21 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
             {
                 v = p;
                 p = gp_GetVertexParent(theGraph, v);
-                if (gp_IsVertex(p) && p != root)
+                if (gp_IsVertex(p) && p != root && theGraph->M < M)
                 {
                     if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
                         return NOTOK;
                 }
             }
 
-            if (gp_IsVertex(p))
+            if (gp_IsVertex(p) && theGraph->M < M)
             {
                 if (p == root)
                 {
                     if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
                         return NOTOK;
 
-                    if (v != last)
+                    if (v != last && theGraph->M < M)
                     {
                         if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                             return NOTOK;
@@ -1315,7 +1319,7 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
 
                 if (p != root)
                 {
-                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
                         return NOTOK;
                     last = c;
                 }
-- 
2.43.0


From e008c9587f3a5d5de45d5358bdbf9249e6297065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 37/69] fix: random graph generators limit the number of edges
 to that of the complete graph

gp_CreateRandomGraphEx did not return when more edges were requested, and the
limit in gp_CreateRandomGraph overflowed for more than 46341 vertices.
---
 c/graphLib/graphUtils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 9076f80..386bb52 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1098,8 +1098,8 @@ int gp_CreateRandomGraph(graphP theGraph)
 
     M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
 
-    if (M > N * (N - 1) / 2)
-        M = N * (N - 1) / 2;
+    if (M > (long long)N * (N - 1) / 2)
+        M = (int)((long long)N * (N - 1) / 2);
 
     for (m = N - 1; m < M; m++)
     {
@@ -1237,6 +1237,10 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
     if (numEdges > theGraph->arcCapacity / 2)
         numEdges = theGraph->arcCapacity / 2;
 
+    // No simple graph has more than N*(N-1)/2 edges
+    if (numEdges > (long long)N * (N - 1) / 2)
+        numEdges = (int)((long long)N * (N - 1) / 2);
+
     /* Generate a random tree. */
 
     for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-- 
2.43.0


From d6fcb58f6497b72360c8bfd2190a1fdc562cbbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:58 +0000
Subject: [PATCH 38/69] fix: gp_DynamicAddEdge grows graphs of more than 46341
 vertices

The limit N*(N-1) overflowed, so the capacity could not grow.
---
 c/graphLib/graphUtils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 386bb52..841d1b1 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1687,7 +1687,8 @@ int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
     {
         int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
         int N = theGraph->N;
-        int newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
+        // N*(N-1) is only computed if it is at most the candidate, so it cannot overflow
+        int newArcCapacity = (candidateArcCapacity / N >= N - 1) ? (N * (N - 1)) : candidateArcCapacity;
         Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
 
         if (Result != OK)
-- 
2.43.0


From 2e2cfe41d5df26fb0270733e6c678be4411fd982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:22 +0000
Subject: [PATCH 39/69] fix: the integrity check rejects results with a
 different number of vertices

It accepted additional isolated vertices, and read past the end of the other
graph's vertices if there were many more.
---
 c/graphLib/planarityRelated/graphTests.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphTests.c b/c/graphLib/planarityRelated/graphTests.c
index c6df6cc..8f27c53 100644
--- a/c/graphLib/planarityRelated/graphTests.c
+++ b/c/graphLib/planarityRelated/graphTests.c
@@ -867,6 +867,10 @@ int _TestSubgraph(graphP theSubgraph, graphP theGraph)
     int invokeSortOnGraph = FALSE;
     int invokeSortOnSubgraph = FALSE;
 
+    // The vertices of the graphs only correspond if there are equally many
+    if (theSubgraph->N != theGraph->N)
+        return FALSE;
+
     // If the graph is not sorted by DFI, but the alleged subgraph is,
     // then "unsort" the alleged subgraph so both have the same vertex order
     if (!(theGraph->internalFlags & FLAGS_SORTEDBYDFI) &&
-- 
2.43.0


From 32215789ddd0df112a18ee91469e85baac68faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:46 +0000
Subject: [PATCH 40/69] fix: the integrity check rejects embeddings with
 duplicated edges

---
 c/graphLib/planarityRelated/graphTests.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphTests.c b/c/graphLib/planarityRelated/graphTests.c
index 8f27c53..3804572 100644
--- a/c/graphLib/planarityRelated/graphTests.c
+++ b/c/graphLib/planarityRelated/graphTests.c
@@ -120,6 +120,10 @@ int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
     if (_TestSubgraph(origGraph, theGraph) != TRUE)
         return NOTOK;
 
+    // Equal adjacencies with a different number of edges means duplicated edges
+    if (theGraph->M != origGraph->M)
+        return NOTOK;
+
     if (_CheckEmbeddingFacialIntegrity(theGraph) != OK)
         return NOTOK;
 
-- 
2.43.0


From f350840c55ffdf52c8aaf0e9c143dbce0e318f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:23 +0000
Subject: [PATCH 41/69] fix: keep long vertex labels within the rendered vertex

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 6b8d9e5..db03bce 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -833,6 +833,10 @@ char *_RenderToString(graphP theEmbedding)
             sprintf(numBuffer, "%d", v - zeroBasedVertexOffset);
             if ((unsigned)(context->VI[v].end - context->VI[v].start + 1) >= strlen(numBuffer))
             {
+                // Keep the label within the vertex if it nearly fills the vertex
+                if (Mid + (int)strlen(numBuffer) > context->VI[v].end + 1)
+                    Mid = context->VI[v].end + 1 - (int)strlen(numBuffer);
+
                 memcpy((char *)visRep + (2 * Pos) * (M + 1) + Mid, (char *)numBuffer, strlen(numBuffer));
             }
             // If the vertex width is less than the label width, then fail gracefully
-- 
2.43.0


From 8431fcd4b6055bc8ff96e4cfb9bd1e5eaa8bccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 42/69] fix: do not render a visibility representation outside
 the bounds of the drawing

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 49 ++++++++++++++++---
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index db03bce..8515886 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -26,6 +26,7 @@ int _ComputeVisibilityRepresentation(DrawPlanarContext *context);
 int _CheckVisibilityRepresentationIntegrity(DrawPlanarContext *context);
 
 /* Private functions */
+int _IsVisibilityRepresentationInBounds(DrawPlanarContext *context);
 int _ComputeVertexPositions(DrawPlanarContext *context);
 int _ComputeVertexPositionsInComponent(DrawPlanarContext *context, int root, int *pIndex);
 int _ComputeEdgePositions(DrawPlanarContext *context);
@@ -775,6 +776,39 @@ int _BreakTie(DrawPlanarContext *context, int BicompRoot, int W, int WPrevLink)
     return OK;
 }
 
+/********************************************************************
+ _IsVisibilityRepresentationInBounds()
+ Returns TRUE if the positions and ranges of all vertices and edges
+ lie within a drawing of N by M positions, FALSE otherwise.
+ ********************************************************************/
+
+int _IsVisibilityRepresentationInBounds(DrawPlanarContext *context)
+{
+    graphP theEmbedding = context->theGraph;
+    int N = theEmbedding->N;
+    int M = theEmbedding->M;
+    int v, e, EsizeOccupied;
+
+    for (v = gp_GetFirstVertex(theEmbedding); gp_VertexInRange(theEmbedding, v); v++)
+    {
+        if (context->VI[v].pos < 0 || context->VI[v].pos >= N ||
+            context->VI[v].start < 0 || context->VI[v].start > context->VI[v].end ||
+            context->VI[v].end >= (M > 0 ? M : 1))
+            return FALSE;
+    }
+
+    EsizeOccupied = gp_EdgeInUseIndexBound(theEmbedding);
+    for (e = gp_GetFirstEdge(theEmbedding); e < EsizeOccupied; e += 2)
+    {
+        if (context->E[e].pos < 0 || context->E[e].pos >= M ||
+            context->E[e].start < 0 || context->E[e].start > context->E[e].end ||
+            context->E[e].end >= N)
+            return FALSE;
+    }
+
+    return TRUE;
+}
+
 /********************************************************************
  _RenderToString()
  Draws the previously calculated visibility representation in a
@@ -796,17 +830,20 @@ char *_RenderToString(graphP theEmbedding)
         int M = theEmbedding->M;
         int zeroBasedVertexOffset = (theEmbedding->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theEmbedding) : 0;
         int n, m, EsizeOccupied, v, vRange, e, eRange, Mid, Pos;
-        char *visRep = (char *)malloc(sizeof(char) * ((M + 1) * 2 * N + 1));
+        char *visRep = NULL;
         char numBuffer[32];
 
-        if (visRep == NULL)
+        if (sp_NonEmpty(context->theGraph->edgeHoles))
             return NULL;
 
-        if (sp_NonEmpty(context->theGraph->edgeHoles))
-        {
-            free(visRep);
+        // The visibility representation may have been read from a file, so
+        // make sure that all of it fits into the string
+        if (!_IsVisibilityRepresentationInBounds(context))
+            return NULL;
+
+        visRep = (char *)malloc(sizeof(char) * ((M + 1) * 2 * N + 1));
+        if (visRep == NULL)
             return NULL;
-        }
 
         // Clear the space
         for (n = 0; n < N; n++)
-- 
2.43.0


From 024dd94f7564e99f7d7c6ecac43db1d2ca3b1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:25 +0000
Subject: [PATCH 43/69] fix: reading a saved drawing gives each edge its own
 position, and refuses incomplete data

---
 .../graphDrawPlanar_Extensions.c              | 93 ++++++++++++++++---
 1 file changed, 78 insertions(+), 15 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 0ef3e3e..acce15c 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -5,6 +5,7 @@ See the LICENSE.TXT file for licensing information.
 */
 
 #include <stdlib.h>
+#include <string.h>
 
 #include "graphDrawPlanar.private.h"
 #include "graphDrawPlanar.h"
@@ -39,6 +40,7 @@ void _DrawPlanar_ReinitializeGraph(graphP theGraph);
 int  _DrawPlanar_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity);
 int  _DrawPlanar_SortVertices(graphP theGraph);
 
+int  _FindEdgeBetween(graphP theGraph, int v, int w);
 int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize);
 int  _DrawPlanar_WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDataSize);
 
@@ -570,6 +572,35 @@ int  _DrawPlanar_CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
      return NOTOK;
 }
 
+/********************************************************************
+ _FindEdgeBetween()
+ Returns an arc of an edge between vertices v and w, or NIL if there is
+ none.  Walks both adjacency lists, so that only the shorter one matters.
+ ********************************************************************/
+
+int  _FindEdgeBetween(graphP theGraph, int v, int w)
+{
+    int e, eW;
+
+    if (gp_IsNotVertex(v) || gp_IsNotVertex(w))
+        return NIL;
+
+    e = gp_GetFirstArc(theGraph, v);
+    eW = gp_GetFirstArc(theGraph, w);
+    while (gp_IsArc(e) && gp_IsArc(eW))
+    {
+        if (gp_GetNeighbor(theGraph, e) == w)
+            return e;
+        if (gp_GetNeighbor(theGraph, eW) == v)
+            return eW;
+
+        e = gp_GetNextArc(theGraph, e);
+        eW = gp_GetNextArc(theGraph, eW);
+    }
+
+    return NIL;
+}
+
 /********************************************************************
  ********************************************************************/
 
@@ -585,9 +616,15 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
 
         else if (extraData != NULL && extraDataSize > 0)
         {
-            int v, e, tempInt, EsizeOccupied;
+            int v, e, i, tempInt, pos, start, end, RetVal = OK;
+            int *vertexAtPos = NULL;
             char line[64], tempChar;
 
+            // Whitespace after the graph is not data for this feature
+            extraData = (void *) ((char *) extraData + strspn(extraData, " \t\r\n"));
+            if (*(char *) extraData == '\0')
+                return OK;
+
             sprintf(line, "<%s>", DRAWPLANAR_NAME);
 
             // Find the start of the data for this feature
@@ -596,30 +633,56 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
                 return NOTOK;
 
             // Advance past the start tag
-            extraData = (void *) ((char *) extraData + strlen(line)+1);
+            extraData = (void *) ((char *) extraData + strlen(line));
+
+            // Edge records need not be in the same order as when the graph was
+            // written, so the vertices at the ends of the edges are identified
+            // by their positions.
+            vertexAtPos = (int *) calloc(theGraph->N, sizeof(int));
+            if (vertexAtPos == NULL)
+                return NOTOK;
 
             // Read the N lines of vertex information
-            for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+            for (v = gp_GetFirstVertex(theGraph); RetVal == OK && gp_VertexInRange(theGraph, v); v++)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
+                if ((extraData = strchr(extraData, '\n')) == NULL ||
+                    sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
                               &context->VI[v].pos,
                               &context->VI[v].start,
-                              &context->VI[v].end);
-
-                extraData = strchr(extraData, '\n') + 1;
+                              &context->VI[v].end) != 5)
+                    RetVal = NOTOK;
+                else
+                {
+                    extraData = (void *) ((char *) extraData + 1);
+                    if (context->VI[v].pos >= 0 && context->VI[v].pos < theGraph->N)
+                        vertexAtPos[context->VI[v].pos] = v;
+                }
             }
 
             // Read the lines that contain edge information
-            EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-            for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+            for (i = 0; RetVal == OK && i < 2*theGraph->M; i++)
             {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
-                              &context->E[e].pos,
-                              &context->E[e].start,
-                              &context->E[e].end);
-
-                extraData = strchr(extraData, '\n') + 1;
+                if ((extraData = strchr(extraData, '\n')) == NULL ||
+                    sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar, &pos, &start, &end) != 5)
+                    RetVal = NOTOK;
+                else
+                {
+                    extraData = (void *) ((char *) extraData + 1);
+                    if (start >= 0 && start < end && end < theGraph->N)
+                    {
+                        e = _FindEdgeBetween(theGraph, vertexAtPos[start], vertexAtPos[end]);
+                        if (gp_IsArc(e))
+                        {
+                            context->E[e].pos = context->E[gp_GetTwinArc(theGraph, e)].pos = pos;
+                            context->E[e].start = context->E[gp_GetTwinArc(theGraph, e)].start = start;
+                            context->E[e].end = context->E[gp_GetTwinArc(theGraph, e)].end = end;
+                        }
+                    }
+                }
             }
+
+            free(vertexAtPos);
+            return RetVal;
         }
 
         return OK;
-- 
2.43.0


From 0bc30f596552853004fcb06b0173244ab646939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:31 +0000
Subject: [PATCH 44/69] fix: testing all graphs of order 1 with the drawing,
 K3,3 and K4 algorithms is not an error

---
 c/planarityApp/planarityTestAllGraphs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 07b6361..4c8c049 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -174,7 +174,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	// We have to set the maximum arc capacity (i.e. (N * (N - 1))) because some of the test files
 	// can contain complete graphs, and the graph drawing, K_{3, 3} search, and K_4 search extensions
 	// don't support expanding the arc capacity after being attached.
-	if (strchr("d34", command) != NULL)
+	if (strchr("d34", command) != NULL && graphOrder > 1)
 	{
 		Result = gp_EnsureArcCapacity(pG6ReadIterator->currGraph, (graphOrder * (graphOrder - 1)));
 		if (Result != OK)
@@ -206,7 +206,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 		return Result;
 	}
 
-	if (strchr("d34", command) != NULL)
+	if (strchr("d34", command) != NULL && graphOrder > 1)
 	{
 		Result = gp_EnsureArcCapacity(copyOfOrigGraph, (graphOrder * (graphOrder - 1)));
 		if (Result != OK)
-- 
2.43.0


From 977df4de7a9a8d4fe3f37ca1af5e82148a52155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:32 +0000
Subject: [PATCH 45/69] fix: messages about unopenable files with long names
 fit the message buffer

---
 c/planarityApp/planarityTestAllGraphs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 4c8c049..ca42348 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -79,8 +79,8 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 				FILE *infile = fopen(infileName, "r");
 				if (infile == NULL)
 				{
-					charsAvailForFilename = (int)(MAXLINE - strlen(infileName));
 					messageFormat = "Unable to open file \"%.*s\" for input.\n";
+					charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 					sprintf(messageContents, messageFormat, charsAvailForFilename, infileName);
 					ErrorMessage(messageContents);
 
@@ -329,8 +329,8 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 		FILE *outputFileP = fopen(outfileName, "w");
 		if (outputFileP == NULL)
 		{
-			charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 			messageFormat = "Unable to open file \"%.*s\" for output.\n";
+			charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
 			ErrorMessage(messageContents);
 		}
@@ -421,8 +421,8 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 
 	if (sf_closeFile(testOutput) != OK)
 	{
-		charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 		messageFormat = "Unable to close output file \"%.*s\".\n";
+		charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 		sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
 		ErrorMessage(messageContents);
 		Result = NOTOK;
-- 
2.43.0


From 23231f3606ff1617fe856d557cdac762cb7aa851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:32 +0000
Subject: [PATCH 46/69] fix: missing command line arguments are reported as an
 error and not as a NONEMBEDDABLE result

---
 c/planarityApp/planarityCommandLine.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 813d1e3..8551ebb 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -605,13 +605,13 @@ int callRandomGraphs(int argc, char *argv[])
 	int offset = 0, NumGraphs, SizeOfGraphs;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
 		Choice = argv[3][1];
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -632,13 +632,13 @@ int callSpecificGraph(int argc, char *argv[])
 	int offset = 0;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
 		Choice = argv[3][1];
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -661,12 +661,12 @@ int callRandomMaxPlanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -689,12 +689,12 @@ int callRandomNonplanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -720,12 +720,12 @@ int callTransformGraph(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -756,12 +756,12 @@ int callTestAllGraphs(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
-- 
2.43.0


From 4e226f22e085c391803855ff9a375e27637100d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:33 +0000
Subject: [PATCH 47/69] fix: release graphs on the error paths of the command
 line application

---
 c/planarityApp/planarityRandomGraphs.c   | 2 ++
 c/planarityApp/planarityTestAllGraphs.c  | 1 +
 c/planarityApp/planarityTransformGraph.c | 1 +
 3 files changed, 4 insertions(+)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index ae028f1..de95dd3 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -48,6 +48,7 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	if (theGraph == NULL || origGraph == NULL)
 	{
 		gp_Free(&theGraph);
+		gp_Free(&origGraph);
 		return NOTOK;
 	}
 
@@ -385,6 +386,7 @@ char saveEdgeListFormat;
 	if (gp_CreateRandomGraphEx(theGraph, 3*numVertices-6+extraEdges) != OK)
 	{
 		ErrorMessage("gp_CreateRandomGraphEx() failed\n");
+		gp_Free(&theGraph);
 		return NOTOK;
 	}
 	platform_GetTime(end);
diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index ca42348..cd74973 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -192,6 +192,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	if (copyOfOrigGraph == NULL)
 	{
 		ErrorMessage("Unable to allocate graph to store copy of original graph before embedding.\n");
+		freeG6ReadIterator(&pG6ReadIterator);
 		stats->errorFlag = TRUE;
 		return NOTOK;
 	}
diff --git a/c/planarityApp/planarityTransformGraph.c b/c/planarityApp/planarityTransformGraph.c
index 24923f9..cf6a6da 100644
--- a/c/planarityApp/planarityTransformGraph.c
+++ b/c/planarityApp/planarityTransformGraph.c
@@ -42,6 +42,7 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 		else
 		{
 			ErrorMessage("Invalid argument; only -(gam) is allowed.\n");
+			gp_Free(&theGraph);
 			return NOTOK;
 		}
 
-- 
2.43.0


From d9aac1310ceb6cb8ef43c8089f3f202f6e57c52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:07 +0000
Subject: [PATCH 48/69] fix: a graph whose initialization fails can be freed

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 841d1b1..37a2c61 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -834,7 +834,7 @@ void _ClearGraph(graphP theGraph)
     if (theGraph->VI != NULL)
     {
         free(theGraph->VI);
-        theGraph->V = NULL;
+        theGraph->VI = NULL;
     }
     if (theGraph->E != NULL)
     {
-- 
2.43.0


From daba6ebf208c34db7c0d93d2d21ffc2dea768bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:09 +0000
Subject: [PATCH 49/69] fix: a graph keeps its edges when its arc capacity
 cannot be increased

---
 c/graphLib/graphUtils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 37a2c61..5192497 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -425,6 +425,7 @@ int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 {
     stackP newStack;
+    edgeRecP newE;
     int e, Esize = gp_EdgeIndexBound(theGraph),
            newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity,
            stackSize = 2 * requiredArcCapacity;
@@ -459,10 +460,12 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
     theGraph->edgeHoles = newStack;
 
     // Reallocate the edgeRec array to the new size,
-    theGraph->E = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
-    if (theGraph->E == NULL)
+    newE = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
+    if (newE == NULL)
         return NOTOK;
 
+    theGraph->E = newE;
+
     // Initialize the new edge records
     for (e = Esize; e < newEsize; e++)
         _InitEdgeRec(theGraph, e);
-- 
2.43.0


From 783a998540d23ce20397a364952d6111c619b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:55 +0000
Subject: [PATCH 50/69] fix: a feature whose attachment fails does not remain
 in the graph's extension list

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 4 +++-
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 4 +++-
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index ac55e4c..7d62312 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -130,7 +130,9 @@ int  gp_AttachK33Search(graphP theGraph)
          if (_K33Search_CreateStructures(context) != OK ||
              _K33Search_InitStructures(context) != OK)
          {
-             _K33Search_FreeContext(context);
+             // The graph's extension list now owns the context, so the
+             // context is freed by removing the extension
+             gp_RemoveExtension(theGraph, K33SEARCH_ID);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 0fd3b56..f1ccabd 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -118,7 +118,9 @@ int  gp_AttachK4Search(graphP theGraph)
          if (_K4Search_CreateStructures(context) != OK ||
              _K4Search_InitStructures(context) != OK)
          {
-             _K4Search_FreeContext(context);
+             // The graph's extension list now owns the context, so the
+             // context is freed by removing the extension
+             gp_RemoveExtension(theGraph, K4SEARCH_ID);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index acce15c..f05b80b 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -145,7 +145,9 @@ int  gp_AttachDrawPlanar(graphP theGraph)
          if (_DrawPlanar_CreateStructures(context) != OK ||
              _DrawPlanar_InitStructures(context) != OK)
          {
-             _DrawPlanar_FreeContext(context);
+             // The graph's extension list now owns the context, so the
+             // context is freed by removing the extension
+             gp_RemoveExtension(theGraph, DRAWPLANAR_ID);
              return NOTOK;
          }
      }
-- 
2.43.0


From 495c6223cf8bd524a4f1481e69bbd73d912cf8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:10 +0000
Subject: [PATCH 51/69] fix: graph initialization fails when an attached
 feature's initialization fails

---
 .../homeomorphSearch/graphK33Search_Extensions.c   | 14 ++++++++------
 .../homeomorphSearch/graphK4Search_Extensions.c    | 14 ++++++++------
 .../planarityRelated/graphDrawPlanar_Extensions.c  | 13 +++++++------
 3 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 7d62312..890e593 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -9,6 +9,8 @@ See the LICENSE.TXT file for licensing information.
 #include "graphK33Search.private.h"
 #include "graphK33Search.h"
 
+extern void _ClearGraph(graphP theGraph);
+
 extern int  _SearchForMergeBlocker(graphP theGraph, K33SearchContext *context, int v, int *pMergeBlocker);
 extern int  _FindK33WithMergeBlocker(graphP theGraph, K33SearchContext *context, int v, int mergeBlocker);
 extern int  _SearchForK33InBicomp(graphP theGraph, K33SearchContext *context, int v, int R);
@@ -255,16 +257,16 @@ int  _K33Search_InitGraph(graphP theGraph, int N)
     	return NOTOK;
     }
 
-	theGraph->N = N;
-	theGraph->NV = N;
-	if (theGraph->arcCapacity == 0)
-		theGraph->arcCapacity = 2*DEFAULT_EDGE_LIMIT*N;
+	// Initialize the core graph (on failure, it also frees this context)
+	if (context->functions.fpInitGraph(theGraph, N) != OK)
+		return NOTOK;
 
 	if (_K33Search_CreateStructures(context) != OK ||
 		_K33Search_InitStructures(context) != OK)
+	{
+		_ClearGraph(theGraph);
 		return NOTOK;
-
-	context->functions.fpInitGraph(theGraph, N);
+	}
 
     return OK;
 }
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index f1ccabd..c39b13e 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -9,6 +9,8 @@ See the LICENSE.TXT file for licensing information.
 #include "graphK4Search.private.h"
 #include "graphK4Search.h"
 
+extern void _ClearGraph(graphP theGraph);
+
 extern int  _SearchForK4InBicomp(graphP theGraph, K4SearchContext *context, int v, int R);
 
 extern int _TestForCompleteGraphObstruction(graphP theGraph, int numVerts,
@@ -214,16 +216,16 @@ int  _K4Search_InitGraph(graphP theGraph, int N)
     if (context == NULL)
         return NOTOK;
 
-    theGraph->N = N;
-	theGraph->NV = N;
-	if (theGraph->arcCapacity == 0)
-		theGraph->arcCapacity = 2*DEFAULT_EDGE_LIMIT*N;
+	// Initialize the core graph (on failure, it also frees this context)
+	if (context->functions.fpInitGraph(theGraph, N) != OK)
+		return NOTOK;
 
 	if (_K4Search_CreateStructures(context) != OK ||
 		_K4Search_InitStructures(context) != OK)
+	{
+		_ClearGraph(theGraph);
 		return NOTOK;
-
-	context->functions.fpInitGraph(theGraph, N);
+	}
 
     return OK;
 }
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index f05b80b..e6ad171 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -10,6 +10,7 @@ See the LICENSE.TXT file for licensing information.
 #include "graphDrawPlanar.private.h"
 #include "graphDrawPlanar.h"
 
+extern void _ClearGraph(graphP theGraph);
 extern void _ClearVertexVisitedFlags(graphP theGraph, int);
 
 extern void _CollectDrawingData(DrawPlanarContext *context, int RootVertex, int W, int WPrevLink);
@@ -309,16 +310,16 @@ int  _DrawPlanar_InitGraph(graphP theGraph, int N)
     	return NOTOK;
     }
 
-	theGraph->N = N;
-	theGraph->NV = N;
-	if (theGraph->arcCapacity == 0)
-		theGraph->arcCapacity = 2*DEFAULT_EDGE_LIMIT*N;
+	// Initialize the core graph (on failure, it also frees this context)
+	if (context->functions.fpInitGraph(theGraph, N) != OK)
+		return NOTOK;
 
 	if (_DrawPlanar_CreateStructures(context) != OK ||
 		_DrawPlanar_InitStructures(context) != OK)
+	{
+		_ClearGraph(theGraph);
 		return NOTOK;
-
-	context->functions.fpInitGraph(theGraph, N);
+	}
 
     return OK;
 }
-- 
2.43.0


From 28fcb77daa9d9d9ee0fcbe5b7d9ab9f4d10b33f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:12 +0000
Subject: [PATCH 52/69] fix: a string buffer whose content cannot be replaced
 keeps it

---
 c/graphLib/io/strbuf.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index eaf1cb3..edb2fe2 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -234,13 +234,18 @@ int sb_ConcatChar(strBufP theStrBuf, char ch)
  ********************************************************************/
 char *sb_TakeString(strBufP theStrBuf)
 {
-    char *theBuf = NULL;
+    char *theBuf = NULL, *newBuf = NULL;
 
     if (theStrBuf == NULL)
         return NULL;
 
+    newBuf = (char *)malloc(sizeof(char));
+
+    if (newBuf == NULL)
+        return NULL;
+
     theBuf = theStrBuf->buf;
-    theStrBuf->buf = (char *)malloc(sizeof(char));
+    theStrBuf->buf = newBuf;
     theStrBuf->buf[0] = '\0';
     theStrBuf->size = theStrBuf->capacity = theStrBuf->readPos = 0;
 
-- 
2.43.0


From 64c82482830b23c81b83a192d5ec672eb491ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:08 +0000
Subject: [PATCH 53/69] fix: graph6 iterations that cannot allocate their input
 or output container fail cleanly

---
 c/graphLib/io/g6-read-iterator.c  |  4 ++++
 c/graphLib/io/g6-write-iterator.c | 38 +++++++++++++++++++++++++++++--
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 44c46b7..783e5fa 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -133,6 +133,10 @@ int beginG6ReadIterationFromG6FilePath(G6ReadIterator *pG6ReadIterator, char *g6
 
 	exitCode = beginG6ReadIterationFromG6FilePointer(pG6ReadIterator, g6Infile);
 
+	// Without an input container, the iterator cannot close the file
+	if (exitCode != OK && pG6ReadIterator->g6Input == NULL)
+		fclose(g6Infile);
+
 	return exitCode;
 }
 
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 42978af..879e702 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -145,8 +145,14 @@ int beginG6WriteIterationToG6FilePath(G6WriteIterator *pG6WriteIterator, char *g
 	exitCode = beginG6WriteIterationToG6FilePointer(pG6WriteIterator, g6Outfile);
 
 	if (exitCode != OK)
+	{
 		ErrorMessage("Unable to begin write iteration from .g6 file pointer corresponding to given file path.\n");
 
+		// Without an output container, the iterator cannot close the file
+		if (pG6WriteIterator->g6Output == NULL)
+			fclose(g6Outfile);
+	}
+
 	return exitCode;
 }
 
@@ -168,6 +174,12 @@ int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE
 
 	pG6WriteIterator->g6Output = sf_New(g6Outfile, NULL);
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate memory for g6Output.\n");
+		return NOTOK;
+	}
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
@@ -179,6 +191,7 @@ int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE
 int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6OutputStr)
 {
 	int exitCode = OK;
+	char *newOutputStr = NULL;
 
 	if (!_isG6WriteIteratorAllocated(pG6WriteIterator))
 	{
@@ -194,12 +207,33 @@ int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6
 
 	if ((*g6OutputStr) == NULL)
 	{
-		(*g6OutputStr) = (char *) malloc(1 * sizeof(char));
-		(*g6OutputStr)[0] = '\0';
+		newOutputStr = (char *) malloc(1 * sizeof(char));
+
+		if (newOutputStr == NULL)
+		{
+			ErrorMessage("Unable to allocate memory for the .g6 output string.\n");
+			return NOTOK;
+		}
+
+		newOutputStr[0] = '\0';
+		(*g6OutputStr) = newOutputStr;
 	}
 
 	pG6WriteIterator->g6Output = sf_New(NULL, (*g6OutputStr));
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate memory for g6Output.\n");
+
+		if (newOutputStr != NULL)
+		{
+			free(newOutputStr);
+			(*g6OutputStr) = NULL;
+		}
+
+		return NOTOK;
+	}
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
-- 
2.43.0


From 6a3aa45a04f7965337f5eb139919743bc63dad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:47 +0000
Subject: [PATCH 54/69] fix: gp_WriteToString reports failure when the output
 string cannot be allocated

---
 c/graphLib/io/graphIO.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index b3819c3..9409ae7 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -1013,13 +1013,20 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
         if (extraData != NULL)
         {
             for (int i = 0; i < extraDataSize; i++)
-                sb_ConcatChar(outBuf, ((char *)extraData)[i]);
+            {
+                if (outBuf != NULL && sb_ConcatChar(outBuf, ((char *)extraData)[i]) != OK)
+                    RetVal = NOTOK;
+            }
             free(extraData);
         }
     }
 
     if (outBuf != NULL)
-        *pOutputStr = sb_TakeString(outBuf);
+    {
+        *pOutputStr = RetVal == OK ? sb_TakeString(outBuf) : NULL;
+        if (*pOutputStr == NULL)
+            RetVal = NOTOK;
+    }
     sb_Free(&outBuf);
 
     return RetVal;
-- 
2.43.0


From c365f30012713bb9cef7e7c2857c592336fcb54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:42 +0000
Subject: [PATCH 55/69] fix: gp_Embed does not rely on the results of an
 earlier depth first search

---
 c/graphLib/planarityRelated/graphEmbed.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphEmbed.c b/c/graphLib/planarityRelated/graphEmbed.c
index 2c01899..ea9278b 100644
--- a/c/graphLib/planarityRelated/graphEmbed.c
+++ b/c/graphLib/planarityRelated/graphEmbed.c
@@ -182,6 +182,20 @@ int _EmbeddingInitialize(graphP theGraph)
 
     sp_ClearStack(theStack);
 
+    // If the DFS utility methods have already been used on this graph, then their results
+    // must not influence the DFS below (the graph may even have been changed since then)
+    if (theGraph->internalFlags & FLAGS_DFSNUMBERED)
+    {
+        if ((theGraph->internalFlags & FLAGS_SORTEDBYDFI) && gp_SortVertices(theGraph) != OK)
+            return NOTOK;
+
+        for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+            gp_SetVertexParent(theGraph, v, NIL);
+
+        for (e = gp_GetFirstEdge(theGraph); e < gp_EdgeInUseIndexBound(theGraph); e++)
+            gp_ClearEdgeType(theGraph, e);
+    }
+
     _ClearVertexVisitedFlags(theGraph, FALSE);
 
     // This outer loop processes each connected component of a disconnected graph
-- 
2.43.0


From 95402a7cd3ae90e954a93b93a851c5aac71a536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:09 +0000
Subject: [PATCH 56/69] fix: planar drawings of graphs from which edges have
 been deleted

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 43 +++++++++++--------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 8515886..0ce3c26 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -45,9 +45,6 @@ int _ComputeEdgeRanges(DrawPlanarContext *context);
 
 int _ComputeVisibilityRepresentation(DrawPlanarContext *context)
 {
-    if (sp_NonEmpty(context->theGraph->edgeHoles))
-        return NOTOK;
-
     if (_ComputeVertexPositions(context) != OK)
         return NOTOK;
 
@@ -352,14 +349,15 @@ int _ComputeEdgePositions(DrawPlanarContext *context)
     for (v = gp_GetFirstVertex(theEmbedding); gp_VertexInRange(theEmbedding, v); v++)
         vertexOrder[context->VI[v].pos] = v;
 
-    // Allocate the edge list of size M.
+    // Allocate the edge list, with a place for each edge (and each hole
+    //    left by a deleted edge).
     //    This is an array of (prev, next) pointers.
     //    An edge at position X corresponds to the edge
     //    at position X in the graph structure, which is
     //    represented by a pair of adjacent edge records
     //    at index 2X.
 
-    if (theEmbedding->M > 0 && (edgeList = LCNew(gp_GetFirstEdge(theEmbedding) / 2 + theEmbedding->M)) == NULL)
+    if (theEmbedding->M > 0 && (edgeList = LCNew(gp_EdgeInUseIndexBound(theEmbedding) / 2)) == NULL)
     {
         free(vertexOrder);
         return NOTOK;
@@ -558,14 +556,13 @@ int _ComputeEdgeRanges(DrawPlanarContext *context)
     graphP theEmbedding = context->theGraph;
     int e, eTwin, EsizeOccupied, v1, v2, pos1, pos2;
 
-    // Deleted edges are not supported, nor should they be in the embedding, so
-    // this is just a reality check that avoids an in-use test inside the loop
-    if (sp_NonEmpty(theEmbedding->edgeHoles))
-        return NOTOK;
-
     EsizeOccupied = gp_EdgeInUseIndexBound(theEmbedding);
     for (e = gp_GetFirstEdge(theEmbedding); e < EsizeOccupied; e += 2)
     {
+        // Skip the holes left by deleted edges
+        if (gp_EdgeNotInUse(theEmbedding, e))
+            continue;
+
         eTwin = gp_GetTwinArc(theEmbedding, e);
 
         v1 = gp_GetNeighbor(theEmbedding, e);
@@ -800,6 +797,10 @@ int _IsVisibilityRepresentationInBounds(DrawPlanarContext *context)
     EsizeOccupied = gp_EdgeInUseIndexBound(theEmbedding);
     for (e = gp_GetFirstEdge(theEmbedding); e < EsizeOccupied; e += 2)
     {
+        // Skip the holes left by deleted edges
+        if (gp_EdgeNotInUse(theEmbedding, e))
+            continue;
+
         if (context->E[e].pos < 0 || context->E[e].pos >= M ||
             context->E[e].start < 0 || context->E[e].start > context->E[e].end ||
             context->E[e].end >= N)
@@ -833,9 +834,6 @@ char *_RenderToString(graphP theEmbedding)
         char *visRep = NULL;
         char numBuffer[32];
 
-        if (sp_NonEmpty(context->theGraph->edgeHoles))
-            return NULL;
-
         // The visibility representation may have been read from a file, so
         // make sure that all of it fits into the string
         if (!_IsVisibilityRepresentationInBounds(context))
@@ -892,6 +890,10 @@ char *_RenderToString(graphP theEmbedding)
         EsizeOccupied = gp_EdgeInUseIndexBound(theEmbedding);
         for (e = gp_GetFirstEdge(theEmbedding); e < EsizeOccupied; e += 2)
         {
+            // Skip the holes left by deleted edges
+            if (gp_EdgeNotInUse(theEmbedding, e))
+                continue;
+
             Pos = context->E[e].pos;
             for (eRange = context->E[e].start; eRange < context->E[e].end; eRange++)
             {
@@ -921,7 +923,7 @@ char *_RenderToString(graphP theEmbedding)
 
 int gp_DrawPlanar_RenderToString(graphP theEmbedding, char **pRenditionString)
 {
-    if (theEmbedding != NULL && sp_IsEmpty(theEmbedding->edgeHoles) && pRenditionString != NULL)
+    if (theEmbedding != NULL && pRenditionString != NULL)
     {
         *pRenditionString = _RenderToString(theEmbedding);
         return *pRenditionString != NULL ? OK : NOTOK;
@@ -941,7 +943,7 @@ int gp_DrawPlanar_RenderToString(graphP theEmbedding, char **pRenditionString)
  ********************************************************************/
 int gp_DrawPlanar_RenderToFile(graphP theEmbedding, char *theFileName)
 {
-    if (theEmbedding != NULL && sp_IsEmpty(theEmbedding->edgeHoles))
+    if (theEmbedding != NULL)
     {
         FILE *outfile;
         char *theRendition;
@@ -984,9 +986,6 @@ int _CheckVisibilityRepresentationIntegrity(DrawPlanarContext *context)
     graphP theEmbedding = context->theGraph;
     int v, e, eTwin, EsizeOccupied, epos, eposIndex;
 
-    if (sp_NonEmpty(context->theGraph->edgeHoles))
-        return NOTOK;
-
     _ClearVisitedFlags(theEmbedding);
 
     /* Test whether the vertex values make sense and
@@ -1021,6 +1020,10 @@ int _CheckVisibilityRepresentationIntegrity(DrawPlanarContext *context)
     EsizeOccupied = gp_EdgeInUseIndexBound(theEmbedding);
     for (e = gp_GetFirstEdge(theEmbedding); e < EsizeOccupied; e += 2)
     {
+        // Skip the holes left by deleted edges
+        if (gp_EdgeNotInUse(theEmbedding, e))
+            continue;
+
         /* Each edge has two index locations in the edge information array */
         eTwin = gp_GetTwinArc(theEmbedding, e);
 
@@ -1059,6 +1062,10 @@ int _CheckVisibilityRepresentationIntegrity(DrawPlanarContext *context)
     EsizeOccupied = gp_EdgeInUseIndexBound(theEmbedding);
     for (e = gp_GetFirstEdge(theEmbedding); e < EsizeOccupied; e += 2)
     {
+        // Skip the holes left by deleted edges
+        if (gp_EdgeNotInUse(theEmbedding, e))
+            continue;
+
         eTwin = gp_GetTwinArc(theEmbedding, e);
 
         for (v = gp_GetFirstVertex(theEmbedding); gp_VertexInRange(theEmbedding, v); v++)
-- 
2.43.0


From fa81b083c142d18499fdbd1496c8778f2ee5d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:14 +0000
Subject: [PATCH 57/69] fix: the menu's transform and test-all-graphs choices
 read the file names that are entered

---
 c/planarityApp/planarityMenu.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 83eff4f..f05447b 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -11,6 +11,7 @@ See the LICENSE.TXT file for licensing information.
  ****************************************************************************/
 void TransformGraphMenu(void);
 void TestAllGraphsMenu(void);
+static void DiscardRestOfLine(void);
 
 int menu(void)
 {
@@ -96,6 +97,17 @@ int menu(void)
     return 0;
 }
 
+// Discards what remains of the line that contained the last answer, so that it
+// is not mistaken for the answer to the next question (fflush(stdin) does not
+// have that effect on all platforms).
+static void DiscardRestOfLine(void)
+{
+    int c;
+
+    while ((c = getchar()) != '\n' && c != EOF)
+        ;
+}
+
 void TransformGraphMenu(void)
 {
     int Result = OK;
@@ -109,6 +121,8 @@ void TransformGraphMenu(void)
     char commandStr[4];
     commandStr[0] = '\0';
 
+    DiscardRestOfLine();
+
     do
     {
         Prompt("Enter input filename:\n");
@@ -120,9 +134,9 @@ void TransformGraphMenu(void)
             ErrorMessage("stdin not supported from menu.\n");
             infileName[0] = '\0';
         }
-    } while (strlen(infileName) == 0);
 
-    infileName[strcspn(infileName, "\n\r")] = '\0';
+        infileName[strcspn(infileName, "\n\r")] = '\0';
+    } while (strlen(infileName) == 0);
 
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
@@ -179,6 +193,8 @@ void TestAllGraphsMenu(void)
     char commandStr[3];
     commandStr[0] = '\0';
 
+    DiscardRestOfLine();
+
     do
     {
         Prompt("Enter input filename:\n");
@@ -190,9 +206,9 @@ void TestAllGraphsMenu(void)
             ErrorMessage("stdin not supported from menu.\n");
             infileName[0] = '\0';
         }
-    } while (strlen(infileName) == 0);
 
-    infileName[strcspn(infileName, "\n\r")] = '\0';
+        infileName[strcspn(infileName, "\n\r")] = '\0';
+    } while (strlen(infileName) == 0);
 
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
-- 
2.43.0


From 8b7d9e0722776c2e4e729c8478c9479b82a66b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:15 +0000
Subject: [PATCH 58/69] fix: a menu session ends when its input ends

---
 c/planarityApp/planarityMenu.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index f05447b..b3698f7 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -33,7 +33,8 @@ int menu(void)
 
         Prompt("Enter Choice: ");
         fflush(stdin);
-        scanf(" %c", &Choice);
+        if (scanf(" %c", &Choice) != 1)
+            Choice = 'q';
         Choice = tolower(Choice);
 
         if (Choice == 'h')
@@ -127,7 +128,8 @@ void TransformGraphMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+            return;
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -140,7 +142,8 @@ void TransformGraphMenu(void)
 
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
-    fgets(outfileName, MAXLINE, stdin);
+    if (fgets(outfileName, MAXLINE, stdin) == NULL)
+        return;
     outfileName[strcspn(outfileName, "\n\r")] = '\0';
 
     do
@@ -148,7 +151,8 @@ void TransformGraphMenu(void)
         Message(GetSupportedOutputChoices());
         Prompt("Enter output format: ");
         fflush(stdin);
-        scanf(" %c", &outputFormat);
+        if (scanf(" %c", &outputFormat) != 1)
+            return;
         outputFormat = tolower(outputFormat);
         if (strchr(GetSupportedOutputFormats(), outputFormat))
             sprintf(commandStr, "-%c", outputFormat);
@@ -199,7 +203,8 @@ void TestAllGraphsMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+            return;
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -212,7 +217,8 @@ void TestAllGraphsMenu(void)
 
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
-    fgets(outfileName, MAXLINE, stdin);
+    if (fgets(outfileName, MAXLINE, stdin) == NULL)
+        return;
     outfileName[strcspn(outfileName, "\n\r")] = '\0';
 
     do
@@ -221,7 +227,8 @@ void TestAllGraphsMenu(void)
 
         Prompt("Enter algorithm specifier: ");
         fflush(stdin);
-        scanf(" %c", &algorithmSpecifier);
+        if (scanf(" %c", &algorithmSpecifier) != 1)
+            return;
         algorithmSpecifier = tolower(algorithmSpecifier);
         if (strchr(GetAlgorithmChoices(), algorithmSpecifier))
             sprintf(commandStr, "-%c", algorithmSpecifier);
-- 
2.43.0


From 517ef21682bf6b33e92e734031ec065cb3854782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:16 +0000
Subject: [PATCH 59/69] fix: a file name that is entered cannot overrun its
 buffer, and none is made up at the end of the input

---
 c/planarityApp/planarityUtils.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 308f96f..6c48eb1 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -518,7 +518,16 @@ char *ConstructInputFilename(char *infileName)
 	{
 		Prompt("Enter graph file name: ");
 		fflush(stdin);
-		scanf(" %s", theFileName);
+		char inputName[MAXLINE + 1];
+		if (scanf(" %1024s", inputName) != 1)
+			return NULL;
+
+		if (strlen(inputName) > FILENAMEMAXLENGTH)
+		{
+			ErrorMessage("Filename is too long");
+			return NULL;
+		}
+		strcpy(theFileName, inputName);
 
 		if (!strchr(theFileName, '.'))
 			strcat(theFileName, ".txt");
-- 
2.43.0


From 3ee2068795a3a5f8948d7eef65c5b419c27b2ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:16 +0000
Subject: [PATCH 60/69] fix: random graphs are not saved when the question
 whether to do so gets no answer

---
 c/planarityApp/planarityRandomGraphs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index de95dd3..32f7ec9 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -435,7 +435,8 @@ char saveEdgeListFormat;
 		{
 			Prompt("Do you want to save the generated graph in edge list format (y/n)? ");
 			fflush(stdin);
-			scanf(" %c", &saveEdgeListFormat);
+			if (scanf(" %c", &saveEdgeListFormat) != 1)
+				saveEdgeListFormat = 'n';
 		}
 		else
 			saveEdgeListFormat = 'n';
-- 
2.43.0


From ac72de909127365b501be1154f881897b530454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:17 +0000
Subject: [PATCH 61/69] fix: the menu releases the report on all graphs after
 showing it

---
 c/planarityApp/planarityMenu.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index b3698f7..afc803b 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -252,4 +252,10 @@ void TestAllGraphsMenu(void)
         if (Result != OK)
             ErrorMessage("Algorithm test on all graphs in .g6 input file failed.\n");
     }
+
+    if (outputStr != NULL)
+    {
+        free(outputStr);
+        outputStr = NULL;
+    }
 }
-- 
2.43.0


From 2e836f3c1c5ff40408acc509e5b63c648b0fbd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:32 +0000
Subject: [PATCH 62/69] fix: adjacency matrices and .g6 output of graphs whose
 edges involve virtual vertices are refused, not written out of bounds

---
 c/graphLib/io/g6-write-iterator.c | 8 ++++++++
 c/graphLib/io/graphIO.c           | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 879e702..59fe500 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -401,6 +401,14 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 			return NOTOK;
 		}
 
+		// Edges of virtual vertices (e.g. after a search that did not complete an
+		// embedding) have no place in the adjacency matrix of the graph
+		if (gp_IsVirtualVertex(pGraph, u) || gp_IsVirtualVertex(pGraph, v))
+		{
+			ErrorMessage("Unable to express an edge of a virtual vertex in .g6 format.\n");
+			return NOTOK;
+		}
+
 		// The internal graph representation is usually 1-based, but may be 0-based, so
 		// one must subtract the index of the first vertex (i.e. result of gp_GetFirstVertex)
 		// because the .g6 format is 0-based
diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 9409ae7..55711b8 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -711,7 +711,10 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         e = gp_GetFirstArc(theGraph, v);
         while (gp_IsArc(e))
         {
-            if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+            // Neither an edge into the vertex nor an edge of a virtual vertex (e.g. after a
+            // search that did not complete an embedding) can be expressed in the matrix
+            if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY ||
+                gp_IsVirtualVertex(theGraph, gp_GetNeighbor(theGraph, e)))
             {
                 free(Row);
                 return NOTOK;
-- 
2.43.0


From 977702779f49826bb91a5d9f670e2f4250ba1711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:32 +0000
Subject: [PATCH 63/69] fix: sorting the vertices keeps the edges of virtual
 vertices of an incomplete embedding

---
 c/graphLib/graphDFSUtils.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 9d8cbdc..0f459a8 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -138,9 +138,20 @@ int gp_SortVertices(graphP theGraph)
     return theGraph->functions.fpSortVertices(theGraph);
 }
 
+// The location to which sorting moves a vertex. A virtual vertex, which is only found
+// on edges if an embedding was not completed, moves with the DFS child it belongs to.
+static int _GetSortedLocation(graphP theGraph, int v)
+{
+    if (gp_IsVirtualVertex(theGraph, v))
+        return gp_GetRootFromDFSChild(theGraph, gp_GetVertexIndex(theGraph, gp_GetDFSChildFromRoot(theGraph, v)));
+
+    return gp_GetVertexIndex(theGraph, v);
+}
+
 int _SortVertices(graphP theGraph)
 {
     int v, EsizeOccupied, e, srcPos, dstPos;
+    int virtualVerticesFound = FALSE;
 
 #ifdef PROFILE
     platform_time start, end;
@@ -164,8 +175,12 @@ int _SortVertices(graphP theGraph)
     {
         if (gp_EdgeInUse(theGraph, e))
         {
-            gp_SetNeighbor(theGraph, e, gp_GetVertexIndex(theGraph, gp_GetNeighbor(theGraph, e)));
-            gp_SetNeighbor(theGraph, e + 1, gp_GetVertexIndex(theGraph, gp_GetNeighbor(theGraph, e + 1)));
+            if (gp_IsVirtualVertex(theGraph, gp_GetNeighbor(theGraph, e)) ||
+                gp_IsVirtualVertex(theGraph, gp_GetNeighbor(theGraph, e + 1)))
+                virtualVerticesFound = TRUE;
+
+            gp_SetNeighbor(theGraph, e, _GetSortedLocation(theGraph, gp_GetNeighbor(theGraph, e)));
+            gp_SetNeighbor(theGraph, e + 1, _GetSortedLocation(theGraph, gp_GetNeighbor(theGraph, e + 1)));
         }
     }
 
@@ -202,6 +217,10 @@ int _SortVertices(graphP theGraph)
             gp_SwapVertexRec(theGraph, dstPos, theGraph, v);
             gp_SwapVertexInfo(theGraph, dstPos, theGraph, v);
 
+            // The virtual vertex that is the root copy for a DFS child stays with the child
+            if (virtualVerticesFound)
+                gp_SwapVertexRec(theGraph, gp_GetRootFromDFSChild(theGraph, dstPos), theGraph, gp_GetRootFromDFSChild(theGraph, v));
+
             gp_SetVertexVisited(theGraph, dstPos);
             gp_SetVertexIndex(theGraph, dstPos, srcPos);
 
-- 
2.43.0


From d8b82d1f70722393f164b209c778675ffecf1be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:40 +0000
Subject: [PATCH 64/69] fix: files are closed when reading or writing .g6 fails
 before the iteration begins

---
 c/graphLib/io/g6-read-iterator.c  | 6 ++++++
 c/graphLib/io/g6-write-iterator.c | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 783e5fa..9ae28c3 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -831,6 +831,8 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		if (g6Infile != NULL && g6Infile != stdin)
+			fclose(g6Infile);
 		return exitCode;
 	}
 
@@ -840,6 +842,10 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
+		// Without an input container, the iterator cannot close the file
+		if (pG6ReadIterator->g6Input == NULL && g6Infile != NULL && g6Infile != stdin)
+			fclose(g6Infile);
+
 		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 59fe500..2d46c0a 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -670,6 +670,8 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6WriteIterator.\n");
+		if (g6Outfile != NULL && g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
 		freeG6WriteIterator(&pG6WriteIterator);
 		return exitCode;
 	}
@@ -679,6 +681,9 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to begin G6 write iteration.\n");
+		// Without an output container, the iterator cannot close the file
+		if (pG6WriteIterator->g6Output == NULL && g6Outfile != NULL && g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
 		freeG6WriteIterator(&pG6WriteIterator);
 		return exitCode;
 	}
-- 
2.43.0


From 507dd2a63471902d6b87942a11d68a5477da7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:00 +0000
Subject: [PATCH 65/69] fix: the legacy command line leaked the graph when
 reading failed

---
 c/planarityApp/planarityCommandLine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 8551ebb..15697aa 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -107,6 +107,7 @@ int legacyCommandLine(int argc, char *argv[])
 			int charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForFilename, argv[1]);
 			ErrorMessage(messageContents);
+			gp_Free(&theGraph);
 			return -2;
 		}
 	}
-- 
2.43.0


From 2768f00193dd9ee069cfc91bb284327bbce41da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:00 +0000
Subject: [PATCH 66/69] fix: the legacy command line reported success although
 the output could not be written

---
 c/planarityApp/planarityCommandLine.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 15697aa..51da5ec 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -117,7 +117,8 @@ int legacyCommandLine(int argc, char *argv[])
 	if (Result == OK)
 	{
 		gp_SortVertices(theGraph);
-		gp_Write(theGraph, argv[2], WRITE_ADJLIST);
+		if (gp_Write(theGraph, argv[2], WRITE_ADJLIST) != OK)
+			Result = NOTOK;
 	}
 
 	else if (Result == NONEMBEDDABLE)
@@ -125,7 +126,8 @@ int legacyCommandLine(int argc, char *argv[])
 		if (argc >= 5 && strcmp(argv[3], "-n") == 0)
 		{
 			gp_SortVertices(theGraph);
-			gp_Write(theGraph, argv[4], WRITE_ADJLIST);
+			if (gp_Write(theGraph, argv[4], WRITE_ADJLIST) != OK)
+				Result = NOTOK;
 		}
 	}
 	else
-- 
2.43.0


From e076c2fd62fbeaf5515eb5f031f3a5b94ec25a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:02 +0000
Subject: [PATCH 67/69] fix: random graph commands reported success although an
 output file could not be written

---
 c/planarityApp/planarityRandomGraphs.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 32f7ec9..174b6bf 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -369,6 +369,7 @@ int  Result;
 platform_time start, end;
 graphP theGraph=NULL, origGraph;
 int embedFlags = GetEmbedFlags(command);
+int writeFailed = FALSE;
 char saveEdgeListFormat;
 
 	char *messageFormat = NULL;
@@ -398,7 +399,11 @@ char saveEdgeListFormat;
 	// The user may have requested a copy of the random graph before processing
 	if (outfile2Name != NULL)
 	{
-		gp_Write(theGraph, outfile2Name, WRITE_ADJLIST);
+		if (gp_Write(theGraph, outfile2Name, WRITE_ADJLIST) != OK)
+		{
+			ErrorMessage("Unable to write the random graph to the output file.\n");
+			writeFailed = TRUE;
+		}
 	}
 
 	origGraph = gp_DupGraph(theGraph);
@@ -428,8 +433,11 @@ char saveEdgeListFormat;
 	// user wants the edge list formatted file.
 	if (Result == OK || Result == NONEMBEDDABLE)
 	{
-		if (outfileName != NULL)
-			gp_Write(theGraph, outfileName, WRITE_ADJLIST);
+		if (outfileName != NULL && gp_Write(theGraph, outfileName, WRITE_ADJLIST) != OK)
+		{
+			ErrorMessage("Unable to write the result to the output file.\n");
+			writeFailed = TRUE;
+		}
 
 		if (!getQuietModeSetting())
 		{
@@ -470,5 +478,5 @@ char saveEdgeListFormat;
 	gp_Free(&origGraph);
 
 	FlushConsole(stdout);
-	return Result;
+	return writeFailed ? NOTOK : Result;
 }
-- 
2.43.0


From bb7b3a4fa1e0a3068e109819b179f013794f12e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:18 +0000
Subject: [PATCH 68/69] fix: attaching an arc next to the last arc with the
 vertex implied changed the wrong list head

---
 c/graphLib/graphUtils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 5192497..5b2fc41 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1560,10 +1560,11 @@ void gp_AttachArc(graphP theGraph, int v, int e, int link, int newArc)
         gp_SetAdjacentArc(theGraph, newArc, link, e2);
 
         // if e2 is an arc, then e2's 1^link is newArc, else v's 1^link is newArc
+        // (where v is implied by e if the caller passed NIL for v)
         if (gp_IsArc(e2))
             gp_SetAdjacentArc(theGraph, e2, 1 ^ link, newArc);
         else
-            gp_SetArc(theGraph, v, 1 ^ link, newArc);
+            gp_SetArc(theGraph, gp_IsVertex(v) ? v : gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, e)), 1 ^ link, newArc);
     }
     else
     {
-- 
2.43.0


From 7e113c611a9999f59ee4cf911841f9323a5190ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:10 +0000
Subject: [PATCH 69/69] fix: a specific graph command without an algorithm
 reported success

---
 c/planarityApp/planaritySpecificGraph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index 64f7279..cf02a13 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -71,8 +71,8 @@ int Result = OK;
 		// Copy the graph for integrity checking
 		origGraph = gp_DupGraph(theGraph);
 
-        // Run the algorithm
-        if (strchr(GetAlgorithmChoices(), command))
+        // Run the algorithm (a missing command is not one of the algorithm choices)
+        if (command != '\0' && strchr(GetAlgorithmChoices(), command))
         {
 			switch (command)
 			{
-- 
2.43.0

