From 565ea3944a03a186f53ce59d2afb28ce9ac5fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:44 +0000
Subject: [PATCH 01/82] fix: keep vertex labels inside the vertex when
 rendering a drawing

Labels of three or more digits on a vertex just as wide as the label were
written past the vertex's right end, over its neighbour cells or the line
break of the row.
---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 6b8d9e5..7ab0acc 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -833,6 +833,10 @@ char *_RenderToString(graphP theEmbedding)
             sprintf(numBuffer, "%d", v - zeroBasedVertexOffset);
             if ((unsigned)(context->VI[v].end - context->VI[v].start + 1) >= strlen(numBuffer))
             {
+                // Keep the whole label within the vertex's horizontal range
+                if (Mid + (int)strlen(numBuffer) - 1 > context->VI[v].end)
+                    Mid = context->VI[v].end - (int)strlen(numBuffer) + 1;
+
                 memcpy((char *)visRep + (2 * Pos) * (M + 1) + Mid, (char *)numBuffer, strlen(numBuffer));
             }
             // If the vertex width is less than the label width, then fail gracefully
-- 
2.43.0


From 1d11e32649f3d7962d38f503b8e7fd18eab64e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 02/82] fix: let the drawing feature check only drawings in its
 result integrity overloads

---
 .../graphDrawPlanar_Extensions.c              | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 92aee53..86b8dba 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -533,7 +533,11 @@ int  _DrawPlanar_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
         if (context->functions.fpCheckEmbeddingIntegrity(theGraph, origGraph) != OK)
             return NOTOK;
 
-        return _CheckVisibilityRepresentationIntegrity(context);
+        // Only a drawing has a visibility representation to check
+        if (theGraph->embedFlags == EMBEDFLAGS_DRAWPLANAR)
+            return _CheckVisibilityRepresentationIntegrity(context);
+
+        return OK;
     }
 
     return NOTOK;
@@ -544,7 +548,25 @@ int  _DrawPlanar_CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
 
 int  _DrawPlanar_CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
 {
-     return OK;
+     // When drawing, no obstruction is isolated, so there is nothing to check
+     if (theGraph->embedFlags == EMBEDFLAGS_DRAWPLANAR)
+     {
+         return OK;
+     }
+
+     // When not drawing, we let the superclass do the work
+     else
+     {
+        DrawPlanarContext *context = NULL;
+        gp_FindExtension(theGraph, DRAWPLANAR_ID, (void *)&context);
+
+        if (context != NULL)
+        {
+            return context->functions.fpCheckObstructionIntegrity(theGraph, origGraph);
+        }
+     }
+
+     return NOTOK;
 }
 
 /********************************************************************
-- 
2.43.0


From 5e79722e884c7b1f1c67515008d77fcef6d7c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 03/82] fix: bound the vertex positions of an edgeless drawing
 before using them as indices

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 7ab0acc..fae0210 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -957,11 +957,13 @@ int _CheckVisibilityRepresentationIntegrity(DrawPlanarContext *context)
 
     for (v = gp_GetFirstVertex(theEmbedding); gp_VertexInRange(theEmbedding, v); v++)
     {
+        if (context->VI[v].pos < 0 ||
+            context->VI[v].pos >= theEmbedding->N)
+            return NOTOK;
+
         if (theEmbedding->M > 0)
         {
-            if (context->VI[v].pos < 0 ||
-                context->VI[v].pos >= theEmbedding->N ||
-                context->VI[v].start < 0 ||
+            if (context->VI[v].start < 0 ||
                 context->VI[v].start > context->VI[v].end ||
                 context->VI[v].end >= theEmbedding->M)
                 return NOTOK;
-- 
2.43.0


From 775c0850d7972b83e856810ebc8da6792318ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 04/82] fix: refuse a result with repeated edges or another
 number of vertices

---
 c/graphLib/planarityRelated/graphTests.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/graphLib/planarityRelated/graphTests.c b/c/graphLib/planarityRelated/graphTests.c
index c6df6cc..8fa7e0a 100644
--- a/c/graphLib/planarityRelated/graphTests.c
+++ b/c/graphLib/planarityRelated/graphTests.c
@@ -120,6 +120,11 @@ int _CheckEmbeddingIntegrity(graphP theGraph, graphP origGraph)
     if (_TestSubgraph(origGraph, theGraph) != TRUE)
         return NOTOK;
 
+    // The subgraph tests compare sets of neighbors, so also ensure that
+    // theGraph has no extra copies of an edge of the original graph
+    if (theGraph->M != origGraph->M)
+        return NOTOK;
+
     if (_CheckEmbeddingFacialIntegrity(theGraph) != OK)
         return NOTOK;
 
@@ -867,6 +872,10 @@ int _TestSubgraph(graphP theSubgraph, graphP theGraph)
     int invokeSortOnGraph = FALSE;
     int invokeSortOnSubgraph = FALSE;
 
+    // The vertices of the two graphs must correspond
+    if (theSubgraph->N != theGraph->N)
+        return FALSE;
+
     // If the graph is not sorted by DFI, but the alleged subgraph is,
     // then "unsort" the alleged subgraph so both have the same vertex order
     if (!(theGraph->internalFlags & FLAGS_SORTEDBYDFI) &&
-- 
2.43.0


From 26938380225e7d24c4dfb8fb06299aa8714b840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 05/82] fix: compute the vertex positions of a drawing in
 linear time when there are many components

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index fae0210..eecf5e8 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -27,7 +27,7 @@ int _CheckVisibilityRepresentationIntegrity(DrawPlanarContext *context);
 
 /* Private functions */
 int _ComputeVertexPositions(DrawPlanarContext *context);
-int _ComputeVertexPositionsInComponent(DrawPlanarContext *context, int root, int *pIndex);
+int _ComputeVertexPositionsInComponent(DrawPlanarContext *context, listCollectionP theOrder, int root, int *pIndex);
 int _ComputeEdgePositions(DrawPlanarContext *context);
 int _ComputeVertexRanges(DrawPlanarContext *context);
 int _ComputeEdgeRanges(DrawPlanarContext *context);
@@ -76,8 +76,14 @@ int _ComputeVisibilityRepresentation(DrawPlanarContext *context)
 int _ComputeVertexPositions(DrawPlanarContext *context)
 {
     graphP theEmbedding = context->theGraph;
+    listCollectionP theOrder = NULL;
     int v, vertpos;
 
+    // The components have disjoint sets of vertices, so one list collection
+    // can hold the vertex orders of all of them
+    if ((theOrder = LCNew(gp_PrimaryVertexIndexBound(theEmbedding))) == NULL)
+        return NOTOK;
+
     vertpos = 0;
     for (v = gp_GetFirstVertex(theEmbedding); gp_VertexInRange(theEmbedding, v); v++)
     {
@@ -85,11 +91,15 @@ int _ComputeVertexPositions(DrawPlanarContext *context)
         // compute the vertex positions
         if (gp_IsDFSTreeRoot(theEmbedding, v))
         {
-            if (_ComputeVertexPositionsInComponent(context, v, &vertpos) != OK)
+            if (_ComputeVertexPositionsInComponent(context, theOrder, v, &vertpos) != OK)
+            {
+                LCFree(&theOrder);
                 return NOTOK;
+            }
         }
     }
 
+    LCFree(&theOrder);
     return OK;
 }
 
@@ -186,15 +196,11 @@ int _ComputeVertexPositions(DrawPlanarContext *context)
   based on the between/beyond indicator stored in W during embedding.
  ********************************************************************/
 
-int _ComputeVertexPositionsInComponent(DrawPlanarContext *context, int root, int *pVertpos)
+int _ComputeVertexPositionsInComponent(DrawPlanarContext *context, listCollectionP theOrder, int root, int *pVertpos)
 {
     graphP theEmbedding = context->theGraph;
-    listCollectionP theOrder = LCNew(gp_PrimaryVertexIndexBound(theEmbedding));
     int W, P, C, V, e;
 
-    if (theOrder == NULL)
-        return NOTOK;
-
     // Determine the vertex order using a depth first search with
     // pre-order visitation.
 
@@ -280,9 +286,6 @@ int _ComputeVertexPositionsInComponent(DrawPlanarContext *context, int root, int
         V = LCGetNext(theOrder, root, V);
     }
 
-    // Clean up and return
-
-    LCFree(&theOrder);
     return OK;
 }
 
-- 
2.43.0


From 7befafbc59b7f810a7407c6151676ad8d435fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 06/82] fix: return the whole arc capacity from
 gp_GetArcCapacity

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 273b8ab..6be0fe8 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -341,7 +341,7 @@ void _ReinitializeGraph(graphP theGraph)
  ********************************************************************/
 int gp_GetArcCapacity(graphP theGraph)
 {
-    return theGraph->arcCapacity - gp_GetFirstEdge(theGraph);
+    return theGraph->arcCapacity;
 }
 
 /********************************************************************
-- 
2.43.0


From 1de6396cc49d2b3d03dac4f5cd1e96c761a05a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 07/82] fix: let gp_SetDirection replace an earlier direction

---
 c/graphLib/graphStructures.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/c/graphLib/graphStructures.h b/c/graphLib/graphStructures.h
index 48d2dc4..a3d3d3a 100644
--- a/c/graphLib/graphStructures.h
+++ b/c/graphLib/graphStructures.h
@@ -148,6 +148,8 @@ extern "C"
 // to edgeFlag_Direction and e's twin arc is set to the opposing setting.
 #define gp_SetDirection(theGraph, e, edgeFlag_Direction)                                       \
 	{                                                                                          \
+		theGraph->E[e].flags &= ~EDGEFLAG_DIRECTION_MASK;                                      \
+		theGraph->E[gp_GetTwinArc(theGraph, e)].flags &= ~EDGEFLAG_DIRECTION_MASK;             \
 		if (edgeFlag_Direction == EDGEFLAG_DIRECTION_INONLY)                                   \
 		{                                                                                      \
 			theGraph->E[e].flags |= EDGEFLAG_DIRECTION_INONLY;                                 \
@@ -158,11 +160,6 @@ extern "C"
 			theGraph->E[e].flags |= EDGEFLAG_DIRECTION_OUTONLY;                                \
 			theGraph->E[gp_GetTwinArc(theGraph, e)].flags |= EDGEFLAG_DIRECTION_INONLY;        \
 		}                                                                                      \
-		else                                                                                   \
-		{                                                                                      \
-			theGraph->E[e].flags &= ~(EDGEFLAG_DIRECTION_INONLY | EDGEFLAG_DIRECTION_OUTONLY); \
-			theGraph->E[gp_GetTwinArc(theGraph, e)].flags &= ~EDGEFLAG_DIRECTION_MASK;         \
-		}                                                                                      \
 	}
 
 #define gp_CopyEdgeRec(dstGraph, edst, srcGraph, esrc) (dstGraph->E[edst] = srcGraph->E[esrc])
-- 
2.43.0


From c4f31116658ff67d04b40680622a9be514c86ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 08/82] fix: end the restored list of a vertex at its last arc

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 6be0fe8..0393ade 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2285,7 +2285,7 @@ int _RestoreVertex(graphP theGraph)
         if (gp_IsArc(e_v_first))
             gp_SetPrevArc(theGraph, e_v_first, NIL);
         if (gp_IsArc(e_v_last))
-            gp_SetPrevArc(theGraph, e_v_last, NIL);
+            gp_SetNextArc(theGraph, e_v_last, NIL);
 
         // For each edge record restored to v's adjacency list, reassign the 'v' member
         //    of each twin arc to indicate v rather than u.
-- 
2.43.0


From 219253892a9861c4377d9dc7c42126a272a7f418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 09/82] fix: record the contracted edge as hidden in
 gp_ContractEdge so that restoring brings it back

---
 c/graphLib/graphUtils.c | 44 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 0393ade..d065376 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -2001,7 +2001,7 @@ int gp_ContractEdge(graphP theGraph, int e)
 
 int _ContractEdge(graphP theGraph, int e)
 {
-    int eBefore, u, v;
+    int eBefore, u, v, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue;
 
     if (gp_IsNotArc(e))
         return NOTOK;
@@ -2013,7 +2013,25 @@ int _ContractEdge(graphP theGraph, int e)
     sp_Push(theGraph->theStack, e);
     gp_HideEdge(theGraph, e);
 
-    return gp_IdentifyVertices(theGraph, u, v, eBefore);
+    if (gp_IdentifyVertices(theGraph, u, v, eBefore) != OK)
+        return NOTOK;
+
+    // The edge contraction operation pushed one hidden edge and then
+    // identified the vertices, which pushed K hidden edges and then an
+    // integer indicating where the top of stack was before those edges
+    // were hidden. That integer indicator must be decremented, thereby
+    // incrementing the number of hidden edges to K+1.
+    // After pushing the K hidden edges and the stackBottom of
+    // the hidden edges, the vertex identification pushed
+    // six more integers to indicate edges that were moved from
+    // v to u, so the "hidden edges stackBottom" is in the next
+    // position down.
+    hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
+    hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
+
+    sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
+
+    return OK;
 }
 
 /********************************************************************
@@ -2064,27 +2082,7 @@ int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
     // If the vertices are adjacent, then the identification is
     // essentially an edge contraction with a bit of fixup.
     if (gp_IsArc(e))
-    {
-        int result = gp_ContractEdge(theGraph, e);
-
-        // The edge contraction operation pushes one hidden edge then
-        // recursively calls this method. This method then pushes K
-        // hidden edges then an integer indicating where the top of
-        // stack was before the edges were hidden. That integer
-        // indicator must be decremented, thereby incrementing the
-        // number of hidden edges to K+1.
-        // After pushing the K hidden edges and the stackBottom of
-        // the hidden edges, the recursive call to this method pushes
-        // six more integers to indicate edges that were moved from
-        // v to u, so the "hidden edges stackBottom" is in the next
-        // position down.
-        int hiddenEdgesStackBottomIndex = sp_GetCurrentSize(theGraph->theStack) - 7;
-        int hiddenEdgesStackBottomValue = sp_Get(theGraph->theStack, hiddenEdgesStackBottomIndex);
-
-        sp_Set(theGraph->theStack, hiddenEdgesStackBottomIndex, hiddenEdgesStackBottomValue - 1);
-
-        return result;
-    }
+        return gp_ContractEdge(theGraph, e);
 
     // Now, u and v are not adjacent. Before we do any edge hiding or
     // moving, we record the current stack size, as this is the
-- 
2.43.0


From d17d27d5e0ec9dd83e5ca1557fcb279d51a48335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 10/82] fix: refuse to hide or identify a vertex when the
 graph's stack has no room for it

---
 c/graphLib/graphUtils.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index d065376..448fd65 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -32,6 +32,7 @@ extern int _WritePostprocess(graphP theGraph, void **pExtraData, long *pExtraDat
 int _HideVertex(graphP theGraph, int vertex);
 void _HideEdge(graphP theGraph, int arcPos);
 void _RestoreEdge(graphP theGraph, int arcPos);
+int _EnsureStackRoomForVertex(graphP theGraph, int vertex);
 int _ContractEdge(graphP theGraph, int e);
 int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore);
 int _RestoreVertex(graphP theGraph);
@@ -1937,6 +1938,30 @@ int _RestoreHiddenEdges(graphP theGraph, int stackBottom)
     return OK;
 }
 
+/********************************************************************
+ _EnsureStackRoomForVertex()
+
+ Hiding a vertex, identifying it with another vertex or contracting
+ an edge into it pushes, at most, each edge of the vertex and seven
+ more integers onto the graph's built-in stack.
+
+ Returns OK if the stack has enough room left, NOTOK if not
+ ********************************************************************/
+
+int _EnsureStackRoomForVertex(graphP theGraph, int vertex)
+{
+    int room = sp_GetCapacity(theGraph->theStack) - sp_GetCurrentSize(theGraph->theStack) - 7;
+    int e = gp_GetFirstArc(theGraph, vertex);
+
+    while (gp_IsArc(e) && room >= 0)
+    {
+        room--;
+        e = gp_GetNextArc(theGraph, e);
+    }
+
+    return room >= 0 ? OK : NOTOK;
+}
+
 /********************************************************************
  gp_HideVertex()
 
@@ -1961,6 +1986,9 @@ int _HideVertex(graphP theGraph, int vertex)
     int hiddenEdgeStackBottom = sp_GetCurrentSize(theGraph->theStack);
     int e = gp_GetFirstArc(theGraph, vertex);
 
+    if (_EnsureStackRoomForVertex(theGraph, vertex) != OK)
+        return NOTOK;
+
     // Cycle through all the edges, pushing and hiding each
     while (gp_IsArc(e))
     {
@@ -2009,6 +2037,9 @@ int _ContractEdge(graphP theGraph, int e)
     u = gp_GetNeighbor(theGraph, gp_GetTwinArc(theGraph, e));
     v = gp_GetNeighbor(theGraph, e);
 
+    if (_EnsureStackRoomForVertex(theGraph, v) != OK)
+        return NOTOK;
+
     eBefore = gp_GetNextArc(theGraph, e);
     sp_Push(theGraph->theStack, e);
     gp_HideEdge(theGraph, e);
@@ -2084,6 +2115,9 @@ int _IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
     if (gp_IsArc(e))
         return gp_ContractEdge(theGraph, e);
 
+    if (_EnsureStackRoomForVertex(theGraph, v) != OK)
+        return NOTOK;
+
     // Now, u and v are not adjacent. Before we do any edge hiding or
     // moving, we record the current stack size, as this is the
     // stackBottom for the edges that will be hidden next.
-- 
2.43.0


From e977a86631c36b32d9dab14620c6f38ffd623980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 11/82] fix: clear the visited flags before gp_LeastAncestor
 visits the vertices

---
 c/graphLib/graphDFSUtils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 997952f..60f6707 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -405,6 +405,8 @@ int gp_LeastAncestor(graphP theGraph)
 
     sp_ClearStack(theStack);
 
+    _ClearVertexVisitedFlags(theGraph, FALSE);
+
     // This outer loop causes the connected subgraphs of a disconnected graph to be processed
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v);)
     {
-- 
2.43.0


From 19fc33f1f8ac9607d2dea4bf8fcda0fc610e7a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 12/82] fix: clear the vertex info pointer in _ClearGraph so
 that it is not freed twice

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 448fd65..35234ea 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -843,7 +843,7 @@ void _ClearGraph(graphP theGraph)
     if (theGraph->VI != NULL)
     {
         free(theGraph->VI);
-        theGraph->V = NULL;
+        theGraph->VI = NULL;
     }
     if (theGraph->E != NULL)
     {
-- 
2.43.0


From b052c09c05d3edfee099cc8f8d4c1a665bd93941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 13/82] fix: unhook a feature from the graph when attaching it
 runs out of memory

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 2 +-
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 2 +-
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 468f724..9353c43 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -130,7 +130,7 @@ int  gp_AttachK33Search(graphP theGraph)
          if (_K33Search_CreateStructures(context) != OK ||
              _K33Search_InitStructures(context) != OK)
          {
-             _K33Search_FreeContext(context);
+             gp_RemoveExtension(theGraph, K33SEARCH_ID);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 13ff6a0..c6bfca4 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -118,7 +118,7 @@ int  gp_AttachK4Search(graphP theGraph)
          if (_K4Search_CreateStructures(context) != OK ||
              _K4Search_InitStructures(context) != OK)
          {
-             _K4Search_FreeContext(context);
+             gp_RemoveExtension(theGraph, K4SEARCH_ID);
              return NOTOK;
          }
      }
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 86b8dba..beb4b74 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -143,7 +143,7 @@ int  gp_AttachDrawPlanar(graphP theGraph)
          if (_DrawPlanar_CreateStructures(context) != OK ||
              _DrawPlanar_InitStructures(context) != OK)
          {
-             _DrawPlanar_FreeContext(context);
+             gp_RemoveExtension(theGraph, DRAWPLANAR_ID);
              return NOTOK;
          }
      }
-- 
2.43.0


From ab8d501353e2640ca1adcfe3d640b67b0a956ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:02 +0000
Subject: [PATCH 14/82] fix: report and clean up a failed graph initialization
 when features are attached

---
 c/graphLib/graphUtils.c                                  | 9 ++++++++-
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 4 +---
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 4 +---
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 4 +---
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 35234ea..110078c 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -198,7 +198,14 @@ int gp_InitGraph(graphP theGraph, int N)
     if (theGraph->N)
         return NOTOK;
 
-    return theGraph->functions.fpInitGraph(theGraph, N);
+    if (theGraph->functions.fpInitGraph(theGraph, N) != OK)
+    {
+        // Some overload may have failed after others allocated memory
+        _ClearGraph(theGraph);
+        return NOTOK;
+    }
+
+    return OK;
 }
 
 int _InitGraph(graphP theGraph, int N)
diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 9353c43..21c93a0 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -262,9 +262,7 @@ int  _K33Search_InitGraph(graphP theGraph, int N)
 		_K33Search_InitStructures(context) != OK)
 		return NOTOK;
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+    return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index c6bfca4..18bd347 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -221,9 +221,7 @@ int  _K4Search_InitGraph(graphP theGraph, int N)
 		_K4Search_InitStructures(context) != OK)
 		return NOTOK;
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+    return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index beb4b74..42fc7e3 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -313,9 +313,7 @@ int  _DrawPlanar_InitGraph(graphP theGraph, int N)
 		_DrawPlanar_InitStructures(context) != OK)
 		return NOTOK;
 
-	context->functions.fpInitGraph(theGraph, N);
-
-    return OK;
+    return context->functions.fpInitGraph(theGraph, N);
 }
 
 /********************************************************************
-- 
2.43.0


From 96e0ab0719b38f549c3f48fc4496a5cecbb00cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:02 +0000
Subject: [PATCH 15/82] fix: keep the edge records when increasing the arc
 capacity runs out of memory

---
 c/graphLib/graphUtils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 110078c..53a6d44 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -432,6 +432,7 @@ int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
 {
     stackP newStack;
+    edgeRecP newE;
     int e, Esize = gp_EdgeIndexBound(theGraph),
            newEsize = gp_GetFirstEdge(theGraph) + requiredArcCapacity;
 
@@ -475,9 +476,10 @@ int _EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
     theGraph->edgeHoles = newStack;
 
     // Reallocate the edgeRec array to the new size,
-    theGraph->E = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
-    if (theGraph->E == NULL)
+    newE = (edgeRecP)realloc(theGraph->E, newEsize * sizeof(edgeRec));
+    if (newE == NULL)
         return NOTOK;
+    theGraph->E = newE;
 
     // Initialize the new edge records
     for (e = Esize; e < newEsize; e++)
-- 
2.43.0


From 03b9c403d15b1768faa4e64ee2d8423e26175e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:02 +0000
Subject: [PATCH 16/82] fix: give a copied feature its own function table and
 report when it cannot be copied

---
 c/graphLib/extensionSystem/graphExtensions.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/extensionSystem/graphExtensions.c b/c/graphLib/extensionSystem/graphExtensions.c
index 1dee8d0..06722d8 100644
--- a/c/graphLib/extensionSystem/graphExtensions.c
+++ b/c/graphLib/extensionSystem/graphExtensions.c
@@ -487,9 +487,19 @@ int gp_CopyExtensions(graphP dstGraph, graphP srcGraph)
 
         newNext->moduleID = next->moduleID;
         newNext->context = next->dupContext(next->context, dstGraph);
+        if (newNext->context == NULL)
+        {
+            free(newNext);
+            gp_FreeExtensions(dstGraph);
+            return NOTOK;
+        }
         newNext->dupContext = next->dupContext;
         newNext->freeContext = next->freeContext;
-        newNext->functions = next->functions;
+
+        // The function table is stored in the context, so the copy of the
+        // extension must use the table in the copy of the context
+        newNext->functions = (graphFunctionTableP)((char *)newNext->context +
+                                                   ((char *)next->functions - (char *)next->context));
         newNext->next = NULL;
 
         if (newLast != NULL)
-- 
2.43.0


From 4a792659643d5629c1945c77aefef77f9e956724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:02 +0000
Subject: [PATCH 17/82] fix: copy no more feature data than the source graph
 has

---
 c/graphLib/homeomorphSearch/graphK33Search_Extensions.c  | 6 ++++--
 c/graphLib/homeomorphSearch/graphK4Search_Extensions.c   | 6 ++++--
 c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
index 21c93a0..0760c19 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search_Extensions.c
@@ -311,7 +311,7 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -321,7 +321,9 @@ void *_K33Search_DupContext(void *pContext, void *theGraph)
          _K33Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K33Search_CreateStructures(newContext) != OK)
+             // The new graph may have a greater arc capacity
+             if (_K33Search_CreateStructures(newContext) != OK ||
+                 _K33Search_InitStructures(newContext) != OK)
              {
                  _K33Search_FreeContext(newContext);
                  return NULL;
diff --git a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
index 18bd347..b3dc20c 100644
--- a/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
+++ b/c/graphLib/homeomorphSearch/graphK4Search_Extensions.c
@@ -267,7 +267,7 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
 
      if (newContext != NULL)
      {
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -277,7 +277,9 @@ void *_K4Search_DupContext(void *pContext, void *theGraph)
          _K4Search_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_K4Search_CreateStructures(newContext) != OK)
+             // The new graph may have a greater arc capacity
+             if (_K4Search_CreateStructures(newContext) != OK ||
+                 _K4Search_InitStructures(newContext) != OK)
              {
                  _K4Search_FreeContext(newContext);
                  return NULL;
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index 42fc7e3..ddb37d9 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -255,7 +255,7 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
      if (newContext != NULL)
      {
          int VIsize = gp_PrimaryVertexIndexBound((graphP) theGraph);
-         int Esize = gp_EdgeIndexBound((graphP) theGraph);
+         int Esize = gp_EdgeIndexBound(context->theGraph);
 
          *newContext = *context;
 
@@ -265,7 +265,9 @@ void *_DrawPlanar_DupContext(void *pContext, void *theGraph)
          _DrawPlanar_ClearStructures(newContext);
          if (((graphP) theGraph)->N > 0)
          {
-             if (_DrawPlanar_CreateStructures(newContext) != OK)
+             // The new graph may have a greater arc capacity
+             if (_DrawPlanar_CreateStructures(newContext) != OK ||
+                 _DrawPlanar_InitStructures(newContext) != OK)
              {
                  _DrawPlanar_FreeContext(newContext);
                  return NULL;
-- 
2.43.0


From 78dcdc1ee5404970c246b5bf2be2d92df91ae55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:02 +0000
Subject: [PATCH 18/82] fix: clear the edge records beyond those of the source
 when copying a graph

---
 c/graphLib/graphUtils.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 53a6d44..16fb7c1 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1010,6 +1010,10 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
     for (e = gp_GetFirstEdge(theGraph); e < Esize; e++)
         gp_CopyEdgeRec(dstGraph, e, srcGraph, e);
 
+    // Clear the edge records, if any, that exist only in the dstGraph
+    for (Esize = gp_EdgeIndexBound(dstGraph); e < Esize; e++)
+        _InitEdgeRec(dstGraph, e);
+
     // Give the dstGraph the same size and intrinsic properties
     dstGraph->N = srcGraph->N;
     dstGraph->NV = srcGraph->NV;
@@ -1021,8 +1025,9 @@ int gp_CopyGraph(graphP dstGraph, graphP srcGraph)
 
     LCCopy(dstGraph->BicompRootLists, srcGraph->BicompRootLists);
     LCCopy(dstGraph->sortedDFSChildLists, srcGraph->sortedDFSChildLists);
-    sp_Copy(dstGraph->theStack, srcGraph->theStack);
-    sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles);
+    if (sp_Copy(dstGraph->theStack, srcGraph->theStack) != OK ||
+        sp_Copy(dstGraph->edgeHoles, srcGraph->edgeHoles) != OK)
+        return NOTOK;
 
     // Copy the set of extensions, which includes copying the
     // extension data as well as the function overload tables
-- 
2.43.0


From 361b2c116cdaed26f0038248b59707b570181ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 19/82] fix: refuse a missing or unsized graph and vertices
 outside the graph before using them

---
 c/graphLib/graphDFSUtils.c               | 17 +++++---
 c/graphLib/graphUtils.c                  | 52 +++++++++++++++++++-----
 c/graphLib/io/graphIO.c                  | 11 ++++-
 c/graphLib/planarityRelated/graphEmbed.c |  2 +-
 4 files changed, 63 insertions(+), 19 deletions(-)

diff --git a/c/graphLib/graphDFSUtils.c b/c/graphLib/graphDFSUtils.c
index 60f6707..c559c6a 100644
--- a/c/graphLib/graphDFSUtils.c
+++ b/c/graphLib/graphDFSUtils.c
@@ -36,7 +36,7 @@ int gp_CreateDFSTree(graphP theGraph)
     platform_GetTime(start);
 #endif
 
-    if (theGraph == NULL)
+    if (theGraph == NULL || theGraph->N == 0)
         return NOTOK;
     if (theGraph->internalFlags & FLAGS_DFSNUMBERED)
         return OK;
@@ -135,6 +135,9 @@ int gp_CreateDFSTree(graphP theGraph)
 
 int gp_SortVertices(graphP theGraph)
 {
+    if (theGraph == NULL || theGraph->N == 0)
+        return NOTOK;
+
     return theGraph->functions.fpSortVertices(theGraph);
 }
 
@@ -250,12 +253,14 @@ int _SortVertices(graphP theGraph)
 
 int gp_LowpointAndLeastAncestor(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack;
     int v, u, uneighbor, e, L, leastAncestor;
 
-    if (theGraph == NULL)
+    if (theGraph == NULL || theGraph->N == 0)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     if (!(theGraph->internalFlags & FLAGS_DFSNUMBERED))
         if (gp_CreateDFSTree(theGraph) != OK)
             return NOTOK;
@@ -378,12 +383,14 @@ int gp_LowpointAndLeastAncestor(graphP theGraph)
 
 int gp_LeastAncestor(graphP theGraph)
 {
-    stackP theStack = theGraph->theStack;
+    stackP theStack;
     int v, u, uneighbor, e, leastAncestor;
 
-    if (theGraph == NULL)
+    if (theGraph == NULL || theGraph->N == 0)
         return NOTOK;
 
+    theStack = theGraph->theStack;
+
     if (!(theGraph->internalFlags & FLAGS_DFSNUMBERED))
         if (gp_CreateDFSTree(theGraph) != OK)
             return NOTOK;
diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 16fb7c1..355a2c3 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -349,6 +349,9 @@ void _ReinitializeGraph(graphP theGraph)
  ********************************************************************/
 int gp_GetArcCapacity(graphP theGraph)
 {
+    if (theGraph == NULL)
+        return 0;
+
     return theGraph->arcCapacity;
 }
 
@@ -1059,6 +1062,9 @@ graphP gp_DupGraph(graphP theGraph)
 {
     graphP result;
 
+    if (theGraph == NULL)
+        return NULL;
+
     if ((result = gp_New()) == NULL)
         return NULL;
 
@@ -1089,6 +1095,9 @@ int gp_CreateRandomGraph(graphP theGraph)
 {
     int N, M, u, v, m;
 
+    if (theGraph == NULL)
+        return NOTOK;
+
     N = theGraph->N;
 
     /* Generate a random tree; note that this method virtually guarantees
@@ -1243,6 +1252,9 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
 {
     int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
 
+    if (theGraph == NULL)
+        return NOTOK;
+
     N = theGraph->N;
 
     if (numEdges > theGraph->arcCapacity / 2)
@@ -1378,8 +1390,13 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
 
 int gp_IsNeighbor(graphP theGraph, int u, int v)
 {
-    int e = gp_GetFirstArc(theGraph, u);
+    int e;
+
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
+        return FALSE;
 
+    e = gp_GetFirstArc(theGraph, u);
     while (gp_IsArc(e))
     {
         if (gp_GetNeighbor(theGraph, e) == v)
@@ -1411,7 +1428,8 @@ int gp_GetNeighborEdgeRecord(graphP theGraph, int u, int v)
 {
     int e;
 
-    if (gp_IsNotVertex(u) || gp_IsNotVertex(v))
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
         return NIL + NOTOK - NOTOK;
 
     e = gp_GetFirstArc(theGraph, u);
@@ -1445,7 +1463,7 @@ int gp_GetVertexDegree(graphP theGraph, int v)
 {
     int e, degree;
 
-    if (theGraph == NULL || gp_IsNotVertex(v))
+    if (theGraph == NULL || v < gp_GetFirstVertex(theGraph) || !gp_VirtualVertexInRange(theGraph, v))
         return 0 + NOTOK - NOTOK;
 
     degree = 0;
@@ -1477,7 +1495,7 @@ int gp_GetVertexInDegree(graphP theGraph, int v)
 {
     int e, degree;
 
-    if (theGraph == NULL || gp_IsNotVertex(v))
+    if (theGraph == NULL || v < gp_GetFirstVertex(theGraph) || !gp_VirtualVertexInRange(theGraph, v))
         return 0 + NOTOK - NOTOK;
 
     degree = 0;
@@ -1510,7 +1528,7 @@ int gp_GetVertexOutDegree(graphP theGraph, int v)
 {
     int e, degree;
 
-    if (theGraph == NULL || gp_IsNotVertex(v))
+    if (theGraph == NULL || v < gp_GetFirstVertex(theGraph) || !gp_VirtualVertexInRange(theGraph, v))
         return 0 + NOTOK - NOTOK;
 
     degree = 0;
@@ -1719,11 +1737,15 @@ int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
 int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
                   int v, int e_v, int e_vlink)
 {
-    int vertMax = gp_GetLastVirtualVertex(theGraph),
-        edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1,
-        upos, vpos;
+    int vertMax, edgeMax, upos, vpos;
 
-    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+    if (theGraph == NULL)
+        return NOTOK;
+
+    vertMax = gp_GetLastVirtualVertex(theGraph);
+    edgeMax = gp_EdgeInUseIndexBound(theGraph) - 1;
+
+    if (u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
         u > vertMax || v > vertMax ||
         e_u > edgeMax || (e_u < gp_GetFirstEdge(theGraph) && gp_IsArc(e_u)) ||
         e_v > edgeMax || (e_v < gp_GetFirstEdge(theGraph) && gp_IsArc(e_v)) ||
@@ -1989,7 +2011,8 @@ int _EnsureStackRoomForVertex(graphP theGraph, int vertex)
 
 int gp_HideVertex(graphP theGraph, int vertex)
 {
-    if (gp_IsNotVertex(vertex))
+    if (theGraph == NULL || vertex < gp_GetFirstVertex(theGraph) ||
+        !gp_VirtualVertexInRange(theGraph, vertex))
         return NOTOK;
 
     return theGraph->functions.fpHideVertex(theGraph, vertex);
@@ -2035,7 +2058,7 @@ int _HideVertex(graphP theGraph, int vertex)
 
 int gp_ContractEdge(graphP theGraph, int e)
 {
-    if (gp_IsNotArc(e))
+    if (theGraph == NULL || gp_IsNotArc(e))
         return NOTOK;
 
     return theGraph->functions.fpContractEdge(theGraph, e);
@@ -2116,6 +2139,10 @@ int _ContractEdge(graphP theGraph, int e)
 
 int gp_IdentifyVertices(graphP theGraph, int u, int v, int eBefore)
 {
+    if (theGraph == NULL || u < gp_GetFirstVertex(theGraph) || v < gp_GetFirstVertex(theGraph) ||
+        !gp_VirtualVertexInRange(theGraph, u) || !gp_VirtualVertexInRange(theGraph, v))
+        return NOTOK;
+
     return theGraph->functions.fpIdentifyVertices(theGraph, u, v, eBefore);
 }
 
@@ -2364,6 +2391,9 @@ int _RestoreVertex(graphP theGraph)
 
 int gp_RestoreVertices(graphP theGraph)
 {
+    if (theGraph == NULL)
+        return NOTOK;
+
     while (sp_NonEmpty(theGraph->theStack))
     {
         if (gp_RestoreVertex(theGraph) != OK)
diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 3a0fed4..114bd22 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -384,6 +384,9 @@ int gp_Read(graphP theGraph, char *FileName)
     char lineBuff[255];
     int RetVal;
 
+    if (theGraph == NULL || FileName == NULL)
+        return NOTOK;
+
     if (strcmp(FileName, "stdin") == 0)
         Infile = stdin;
     else if ((Infile = fopen(FileName, READTEXT)) == NULL)
@@ -477,8 +480,10 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
     bool extraDataAllowed = false;
 
     strBufP inBuf = sb_New(0);
-    if (inBuf == NULL)
+    if (theGraph == NULL || inputStr == NULL || inBuf == NULL)
     {
+        sb_Free(&inBuf);
+
         if (inputStr != NULL)
             free(inputStr);
         return NOTOK;
@@ -561,12 +566,14 @@ int _ReadPostprocess(graphP theGraph, void *extraData, long extraDataSize)
 int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf)
 {
     int v, e;
-    int zeroBasedOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
+    int zeroBasedOffset;
     char numberStr[128];
 
     if (theGraph == NULL || (Outfile == NULL && outBuf == NULL))
         return NOTOK;
 
+    zeroBasedOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
+
     // Write the number of vertices of the graph to the file or string buffer
     if (Outfile != NULL)
         fprintf(Outfile, "N=%d\n", theGraph->N);
diff --git a/c/graphLib/planarityRelated/graphEmbed.c b/c/graphLib/planarityRelated/graphEmbed.c
index 2c01899..47a0946 100644
--- a/c/graphLib/planarityRelated/graphEmbed.c
+++ b/c/graphLib/planarityRelated/graphEmbed.c
@@ -82,7 +82,7 @@ int gp_Embed(graphP theGraph, int embedFlags)
     int RetVal = OK;
 
     // Basic parameter checks
-    if (theGraph == NULL)
+    if (theGraph == NULL || theGraph->N == 0)
         return NOTOK;
 
     // Preprocessing
-- 
2.43.0


From bc2eb055a2a1d0add75fa3751c9b8bc85163222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 20/82] fix: refuse an unknown write mode before creating the
 output file

---
 c/graphLib/io/graphIO.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 114bd22..bee0ed9 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -858,6 +858,10 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
     if (theGraph == NULL || FileName == NULL)
         return NOTOK;
 
+    // Don't touch the output file if the mode is not supported
+    if (Mode != WRITE_G6 && Mode != WRITE_ADJLIST && Mode != WRITE_ADJMATRIX && Mode != WRITE_DEBUGINFO)
+        return NOTOK;
+
     if (strcmp(FileName, "nullwrite") == 0)
         return OK;
 
-- 
2.43.0


From 2d008c9e00e251879c36ccef95ee0a0ca1fed9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 21/82] fix: keep gp_DynamicAddEdge's capacity calculation from
 overflowing on graphs of more than 46340 vertices

---
 c/graphLib/graphUtils.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 355a2c3..57109c3 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -4,6 +4,7 @@ All rights reserved.
 See the LICENSE.TXT file for licensing information.
 */
 
+#include <limits.h>
 #include <stdlib.h>
 
 #include "graphStructures.h"
@@ -1706,10 +1707,15 @@ int gp_DynamicAddEdge(graphP theGraph, int u, int ulink, int v, int vlink)
 
     if (Result == NONEMBEDDABLE)
     {
-        int candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2;
-        int N = theGraph->N;
-        int newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
-        Result = gp_EnsureArcCapacity(theGraph, newArcCapacity);
+        long long candidateArcCapacity = gp_GetArcCapacity(theGraph) * 2LL;
+        long long N = theGraph->N;
+        long long newArcCapacity = (candidateArcCapacity > (N * (N - 1))) ? (N * (N - 1)) : candidateArcCapacity;
+
+        // Records are indexed by int
+        if (newArcCapacity > INT_MAX / 2)
+            return NOTOK;
+
+        Result = gp_EnsureArcCapacity(theGraph, (int)newArcCapacity);
 
         if (Result != OK)
             return Result;
-- 
2.43.0


From 78e5fe82446f67cbe2325f7c7e20bdf81075c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:28 +0000
Subject: [PATCH 22/82] fix: refuse to insert an edge into an unsized graph

---
 c/graphLib/graphUtils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 57109c3..bd778ef 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1745,7 +1745,7 @@ int gp_InsertEdge(graphP theGraph, int u, int e_u, int e_ulink,
 {
     int vertMax, edgeMax, upos, vpos;
 
-    if (theGraph == NULL)
+    if (theGraph == NULL || theGraph->N == 0)
         return NOTOK;
 
     vertMax = gp_GetLastVirtualVertex(theGraph);
-- 
2.43.0


From 5495e8a9b20f178dad49998227bed04012d9dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 23/82] fix: return the failure of reading or writing .g6
 instead of the result of the cleanup after it

---
 c/graphLib/io/g6-read-iterator.c  | 69 +++++++++++++++++++------------
 c/graphLib/io/g6-write-iterator.c |  6 +--
 2 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 55759f4..100ce18 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -37,10 +37,10 @@ int allocateG6ReadIterator(G6ReadIterator **ppG6ReadIterator, graphP pGraph)
 	{
 		ErrorMessage("Must allocate graph to be used by G6ReadIterator.\n");
 
-		exitCode = freeG6ReadIterator(ppG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(ppG6ReadIterator) != OK)
 			ErrorMessage("Unable to free the G6ReadIterator.\n");
+
+		exitCode = NOTOK;
 	}
 	else
 	{
@@ -744,9 +744,7 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -756,14 +754,21 @@ int _ReadGraphFromG6FilePath(graphP pGraphToRead, char *pathToG6File)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	int endG6ReadIterationCode = endG6ReadIteration(pG6ReadIterator);
+
+	if (endG6ReadIterationCode != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = endG6ReadIterationCode;
+	}
 
-	if (exitCode != OK)
+	int freeG6ReadIteratorCode = freeG6ReadIterator(&pG6ReadIterator);
+
+	if (freeG6ReadIteratorCode != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = freeG6ReadIteratorCode;
+	}
 
 	return exitCode;
 }
@@ -790,9 +795,7 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -802,14 +805,21 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	int endG6ReadIterationCode = endG6ReadIteration(pG6ReadIterator);
+
+	if (endG6ReadIterationCode != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = endG6ReadIterationCode;
+	}
 
-	if (exitCode != OK)
+	int freeG6ReadIteratorCode = freeG6ReadIterator(&pG6ReadIterator);
+
+	if (freeG6ReadIteratorCode != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = freeG6ReadIteratorCode;
+	}
 
 	return exitCode;
 }
@@ -839,9 +849,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	{
 		ErrorMessage("Unable to begin .g6 read iteration.\n");
 
-		exitCode = freeG6ReadIterator(&pG6ReadIterator);
-
-		if (exitCode != OK)
+		if (freeG6ReadIterator(&pG6ReadIterator) != OK)
 			ErrorMessage("Unable to free G6ReadIterator.\n");
 
 		return exitCode;
@@ -851,14 +859,21 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 		ErrorMessage("Unable to read graph from .g6 read iterator.\n");
 
-	exitCode = endG6ReadIteration(pG6ReadIterator);
-	if (exitCode != OK)
+	int endG6ReadIterationCode = endG6ReadIteration(pG6ReadIterator);
+
+	if (endG6ReadIterationCode != OK)
+	{
 		ErrorMessage("Unable to end G6ReadIterator.\n");
-	
-	exitCode = freeG6ReadIterator(&pG6ReadIterator);
+		exitCode = endG6ReadIterationCode;
+	}
 
-	if (exitCode != OK)
+	int freeG6ReadIteratorCode = freeG6ReadIterator(&pG6ReadIterator);
+
+	if (freeG6ReadIteratorCode != OK)
+	{
 		ErrorMessage("Unable to free G6ReadIterator.\n");
+		exitCode = freeG6ReadIteratorCode;
+	}
 
 	return exitCode;
 }
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 44f0691..eac13ad 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -39,10 +39,10 @@ int allocateG6WriteIterator(G6WriteIterator **ppG6WriteIterator, graphP pGraph)
 	{
 		ErrorMessage("[ERROR] Must allocate and initialize graph with an order greater than 0 to use the G6WriteIterator.\n");
 
-		exitCode = freeG6WriteIterator(ppG6WriteIterator);
-
-		if (exitCode != OK)
+		if (freeG6WriteIterator(ppG6WriteIterator) != OK)
 			ErrorMessage("Unable to free the G6WriteIterator.\n");
+
+		exitCode = NOTOK;
 	}
 	else
 		(*ppG6WriteIterator)->currGraph = pGraph;
-- 
2.43.0


From 3cbaae2de4fad85f42693698fda962f6dcd3b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 24/82] fix: refuse a .g6 input that ends after the order of
 its first graph

---
 c/graphLib/io/g6-read-iterator.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 100ce18..ab86cfc 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -338,7 +338,7 @@ bool _firstCharIsValid(char c, const int lineNum)
 {
 	bool isValidFirstChar = false;
 
-	if (strchr(":;&", c) != NULL)
+	if (c != '\0' && strchr(":;&", c) != NULL)
 	{
 		char messageContents[MAXLINE + 1];
 		sprintf(messageContents, "Invalid first character on line %d, i.e. one of ':', ';', or '&'; aborting.\n", lineNum);
@@ -439,7 +439,17 @@ int readGraphUsingG6ReadIterator(G6ReadIterator *pG6ReadIterator)
 
 	char firstChar = '\0';
 	char *graphEncodingChars = NULL;
-	if (sf_fgets(currGraphBuff, currGraphBuffSize, g6Input) != NULL)
+	bool lineWasRead = sf_fgets(currGraphBuff, currGraphBuffSize, g6Input) != NULL;
+
+	// The order of the first graph has been read already, so the first graph exists. If nothing
+	// follows its order, then its encoding is missing unless the graph has only one vertex.
+	if (!lineWasRead && numGraphsRead == 0)
+	{
+		currGraphBuff[0] = '\0';
+		lineWasRead = true;
+	}
+
+	if (lineWasRead)
 	{
 		numGraphsRead++;
 		firstChar = currGraphBuff[0];
-- 
2.43.0


From 8f0e235598293fb8f320c0581150efda964ca20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 25/82] fix: read and write the .g6 encoding of a graph with
 one vertex

---
 c/graphLib/io/g6-read-iterator.c  | 2 +-
 c/graphLib/io/g6-write-iterator.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index ab86cfc..fb04cc6 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -597,7 +597,7 @@ int _validateGraphEncoding(char *graphBuff, const int graphOrder, const int numC
 	// Check that there are no extraneous bits in representation (since we pad out to a
 	// multiple of 6 before splitting into bytes and adding 63 to each byte)
 	int expectedNumPaddingZeroes = _getExpectedNumPaddingZeroes(graphOrder, numChars);
-	char finalByte = graphBuff[numChars - 1] - 63;
+	char finalByte = numChars > 0 ? graphBuff[numChars - 1] - 63 : 0;
 	int numPaddingZeroes = 0;
 	for (int i = 0; i < expectedNumPaddingZeroes; i++)
 	{
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index eac13ad..039c2e7 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -323,7 +323,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 			g6Encoding[3 - i] = intermediate & 63;
 			g6Encoding[3 - i] += 63;
 		}
-	} else if (graphOrder > 1 && graphOrder < 63) {
+	} else if (graphOrder > 0 && graphOrder < 63) {
 		g6Encoding[0] = graphOrder + 63;
 	}
 
-- 
2.43.0


From 448dbfe8574623d85a3db6dbb8fe27d06e792fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:32 +0000
Subject: [PATCH 26/82] fix: refuse invalid characters in the four-byte graph
 order of .g6 input

---
 c/graphLib/io/g6-read-iterator.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index fb04cc6..49743a9 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -377,8 +377,13 @@ int _getGraphOrder(strOrFileP g6Input, int *graphOrder)
 
 		for (int i = 2; i >= 0; i--)
 		{
-			graphChar = sf_getc(g6Input) - 63;
-			n |= graphChar << (6 * i);
+			graphChar = sf_getc(g6Input);
+			if (graphChar < 63 || graphChar > 126)
+			{
+				ErrorMessage("Invalid character in graph order.\n");
+				return NOTOK;
+			}
+			n |= (graphChar - 63) << (6 * i);
 		}
 
 		if (n > 100000)
@@ -544,7 +549,14 @@ int _checkGraphOrder(char *graphBuff, int graphOrder)
 		int orderCharIndex = 2;
 
 		for (int i = 1; i < 4; i++)
+		{
+			if (graphBuff[i] < 63 || graphBuff[i] > 126)
+			{
+				ErrorMessage("Invalid character in graph order.\n");
+				return NOTOK;
+			}
 			n |= (graphBuff[i] - 63) << (6 * orderCharIndex--);
+		}
 	}
 	else if (currChar > 62 && currChar < 126)
 		n = currChar - 63;
-- 
2.43.0


From b3c0a4ebba9c9acf8782fd801288cd9f82559785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:08 +0000
Subject: [PATCH 27/82] fix: compute the size and bit positions of a .g6
 encoding without overflow for large orders

---
 c/graphLib/io/g6-api-utilities.c  | 12 ++++++------
 c/graphLib/io/g6-api-utilities.h  |  2 +-
 c/graphLib/io/g6-write-iterator.c |  8 ++++----
 c/graphLib/io/g6-write-iterator.h |  4 ++--
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/c/graphLib/io/g6-api-utilities.c b/c/graphLib/io/g6-api-utilities.c
index 99d6c3e..1cf73cc 100644
--- a/c/graphLib/io/g6-api-utilities.c
+++ b/c/graphLib/io/g6-api-utilities.c
@@ -6,16 +6,16 @@ See the LICENSE.TXT file for licensing information.
 
 #include "g6-api-utilities.h"
 
-int _getMaxEdgeCount(int graphOrder)
+long long _getMaxEdgeCount(int graphOrder)
 {
-	return (graphOrder * (graphOrder - 1)) / 2;
+	return ((long long) graphOrder * (graphOrder - 1)) / 2;
 }
 
 int _getNumCharsForGraphEncoding(int graphOrder)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
 
-	return (maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0);
+	return (int) ((maxNumEdges / 6) + (maxNumEdges % 6 ? 1 : 0));
 }
 
 int _getNumCharsForGraphOrder(int graphOrder)
@@ -31,8 +31,8 @@ int _getNumCharsForGraphOrder(int graphOrder)
 
 int _getExpectedNumPaddingZeroes(const int graphOrder, const int numChars)
 {
-	int maxNumEdges = _getMaxEdgeCount(graphOrder);
-	int expectedNumPaddingZeroes = numChars * 6 - maxNumEdges;
+	long long maxNumEdges = _getMaxEdgeCount(graphOrder);
+	int expectedNumPaddingZeroes = (int) (numChars * 6LL - maxNumEdges);
 
 	return expectedNumPaddingZeroes;
 }
diff --git a/c/graphLib/io/g6-api-utilities.h b/c/graphLib/io/g6-api-utilities.h
index ae6de29..78c2d89 100644
--- a/c/graphLib/io/g6-api-utilities.h
+++ b/c/graphLib/io/g6-api-utilities.h
@@ -11,7 +11,7 @@ See the LICENSE.TXT file for licensing information.
 extern "C" {
 #endif
 
-int _getMaxEdgeCount(int);
+long long _getMaxEdgeCount(int);
 int _getNumCharsForGraphEncoding(int);
 int _getNumCharsForGraphOrder(int);
 int _getExpectedNumPaddingZeroes(const int, const int);
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 039c2e7..1bea11a 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -209,7 +209,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 
 	pG6WriteIterator->graphOrder = pG6WriteIterator->currGraph->N;
 
-	pG6WriteIterator->columnOffsets = (int *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(int));
+	pG6WriteIterator->columnOffsets = (long long *) calloc(pG6WriteIterator->graphOrder + 1, sizeof(long long));
 
 	if ( pG6WriteIterator->columnOffsets == NULL)
 	{
@@ -234,7 +234,7 @@ int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator)
 	return exitCode;
 }
 
-void _precomputeColumnOffsets(int *columnOffsets, int graphOrder)
+void _precomputeColumnOffsets(long long *columnOffsets, int graphOrder)
 {
 	if (columnOffsets == NULL)
 	{
@@ -290,7 +290,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		return NOTOK;
 	}
 
-	int *columnOffsets = pG6WriteIterator->columnOffsets;
+	long long *columnOffsets = pG6WriteIterator->columnOffsets;
 	if (columnOffsets == NULL)
 	{
 		ErrorMessage("Column offsets array is not allocated.\n");
@@ -363,7 +363,7 @@ int _encodeAdjMatAsG6(G6WriteIterator *pG6WriteIterator) {
 		// bit to set in that byte by left-shifting 1 by (5 - ((columnOffsets[v] + u) % 6))
 		// (transforming the ((columnOffsets[v] + u) % 6)th bit from the left to the
 		// (5 - ((columnOffsets[v] + u) % 6))th bit from the right)
-		charOffset = numCharsForGraphOrder + ((columnOffsets[v] + u) / 6);
+		charOffset = numCharsForGraphOrder + (int) ((columnOffsets[v] + u) / 6);
 		bitPositionPower = 5 - ((columnOffsets[v] + u) % 6);
 
 		g6Encoding[charOffset] |= (1u << bitPositionPower);
diff --git a/c/graphLib/io/g6-write-iterator.h b/c/graphLib/io/g6-write-iterator.h
index b3314aa..6b88b0c 100644
--- a/c/graphLib/io/g6-write-iterator.h
+++ b/c/graphLib/io/g6-write-iterator.h
@@ -29,7 +29,7 @@ extern "C"
 		int currGraphBuffSize;
 		char *currGraphBuff;
 
-		int *columnOffsets;
+		long long *columnOffsets;
 
 		graphP currGraph;
 	} G6WriteIterator;
@@ -45,7 +45,7 @@ extern "C"
 	int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE *g6Outfile);
 	int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6OutputStr);
 	int _beginG6WriteIteration(G6WriteIterator *pG6WriteIterator);
-	void _precomputeColumnOffsets(int *, int);
+	void _precomputeColumnOffsets(long long *, int);
 
 	int writeGraphUsingG6WriteIterator(G6WriteIterator *);
 
-- 
2.43.0


From a9b4d32f43d9704fe3380c659f62cc432b7955ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:08 +0000
Subject: [PATCH 28/82] fix: separate the graphs written by a G6WriteIterator
 by line breaks and count them

---
 c/graphLib/io/g6-write-iterator.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index 1bea11a..cb1fabc 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -455,11 +455,20 @@ int _printEncodedGraph(G6WriteIterator *pG6WriteIterator)
 		return NOTOK;
 	}
 
+	// Each graph after the first one starts on a new line
+	if (pG6WriteIterator->numGraphsWritten > 0 && sf_fputs("\n", pG6WriteIterator->g6Output) < 0)
+	{
+		ErrorMessage("Failed to output line separator before g6 encoding.\n");
+		return NOTOK;
+	}
+
 	if (sf_fputs(pG6WriteIterator->currGraphBuff, pG6WriteIterator->g6Output) < 0)
 	{
 		ErrorMessage("Failed to output all characters of g6 encoding.\n");
 		exitCode = NOTOK;
 	}
+	else
+		pG6WriteIterator->numGraphsWritten++;
 
 	return exitCode;
 }
-- 
2.43.0


From 38347d40590494a82ca7be402c7d8457cf37f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 29/82] fix: write a graph with attached feature data to .g6,
 and return a string only when writing to it succeeded

---
 c/graphLib/io/graphIO.c | 30 ++++++++++++++++++++++--------
 c/graphLib/io/strbuf.c  | 10 +++++++---
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index bee0ed9..e21317d 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -894,7 +894,8 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
         break;
     }
 
-    if (RetVal == OK)
+    // The .g6 format does not allow extra data (see gp_Read())
+    if (RetVal == OK && Mode != WRITE_G6)
     {
         void *extraData = NULL;
         long extraDataSize;
@@ -909,7 +910,7 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
         }
     }
 
-    if (strcmp(FileName, "stdout") == 0 || strcmp(FileName, "stderr") == 0)
+    if (Outfile != NULL && (strcmp(FileName, "stdout") == 0 || strcmp(FileName, "stderr") == 0))
         fflush(Outfile);
 
     else if (Outfile != NULL && fclose(Outfile) != 0)
@@ -938,6 +939,7 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
 {
     int RetVal;
     strBufP outBuf = sb_New(0);
+    char *g6OutputStr = NULL;
 
     if (theGraph == NULL || pOutputStr == NULL || outBuf == NULL)
     {
@@ -948,8 +950,7 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
     switch (Mode)
     {
     case WRITE_G6:
-        RetVal = _WriteGraphToG6String(theGraph, pOutputStr);
-        sb_Free(&outBuf);
+        RetVal = _WriteGraphToG6String(theGraph, &g6OutputStr);
         break;
     case WRITE_ADJLIST:
         RetVal = _WriteAdjList(theGraph, NULL, outBuf);
@@ -962,7 +963,8 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
         break;
     }
 
-    if (RetVal == OK)
+    // The .g6 format does not allow extra data (see gp_ReadFromString())
+    if (RetVal == OK && Mode != WRITE_G6)
     {
         void *extraData = NULL;
         long extraDataSize;
@@ -972,13 +974,25 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
         if (extraData != NULL)
         {
             for (int i = 0; i < extraDataSize; i++)
-                sb_ConcatChar(outBuf, ((char *)extraData)[i]);
+            {
+                if (sb_ConcatChar(outBuf, ((char *)extraData)[i]) != OK)
+                {
+                    RetVal = NOTOK;
+                    break;
+                }
+            }
             free(extraData);
         }
     }
 
-    if (outBuf != NULL)
-        *pOutputStr = sb_TakeString(outBuf);
+    // The caller receives a string only on success
+    *pOutputStr = NULL;
+    if (RetVal == OK)
+    {
+        *pOutputStr = Mode == WRITE_G6 ? g6OutputStr : sb_TakeString(outBuf);
+        if (*pOutputStr == NULL)
+            RetVal = NOTOK;
+    }
     sb_Free(&outBuf);
 
     return RetVal;
diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index 1ab64a6..f62a6f3 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -233,15 +233,19 @@ int sb_ConcatChar(strBufP theStrBuf, char ch)
  ********************************************************************/
 char *sb_TakeString(strBufP theStrBuf)
 {
-    char *theBuf = NULL;
+    char *theBuf = NULL, *newBuf = NULL;
 
     if (theStrBuf == NULL)
         return NULL;
 
+    newBuf = (char *)malloc(sizeof(char));
+    if (newBuf == NULL)
+        return NULL;
+
     theBuf = theStrBuf->buf;
-    theStrBuf->buf = (char *)malloc(sizeof(char));
+    theStrBuf->buf = newBuf;
     theStrBuf->buf[0] = '\0';
-    theStrBuf->size = theStrBuf->capacity = 0;
+    theStrBuf->size = theStrBuf->capacity = theStrBuf->readPos = 0;
 
     return theBuf;
 }
-- 
2.43.0


From e17c1cf24546d1264add365de59f746e90f18b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:06 +0000
Subject: [PATCH 30/82] fix: let string buffer copies start reading at their
 beginning and accept a missing source

---
 c/graphLib/io/strbuf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/strbuf.c b/c/graphLib/io/strbuf.c
index f62a6f3..9427de7 100644
--- a/c/graphLib/io/strbuf.c
+++ b/c/graphLib/io/strbuf.c
@@ -92,7 +92,7 @@ void sb_ClearBuf(strBufP theStrBuf)
 int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
 {
     char *tempBuf;
-    strBufP newStrBuf = sb_Duplicate(strBufSrc);
+    strBufP newStrBuf = strBufSrc == NULL ? NULL : sb_Duplicate(strBufSrc);
 
     if (strBufDst == NULL || strBufSrc == NULL || newStrBuf == NULL)
     {
@@ -108,6 +108,7 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
 
     strBufDst->size = strBufSrc->size;
     strBufDst->capacity = strBufSrc->capacity;
+    strBufDst->readPos = 0;
 
     return OK;
 }
@@ -122,7 +123,12 @@ int sb_Copy(strBufP strBufDst, strBufP strBufSrc)
  ********************************************************************/
 strBufP sb_Duplicate(strBufP theStrBuf)
 {
-    strBufP newStrBuf = sb_New(theStrBuf->capacity);
+    strBufP newStrBuf;
+
+    if (theStrBuf == NULL)
+        return NULL;
+
+    newStrBuf = sb_New(theStrBuf->capacity);
 
     if (newStrBuf == NULL)
         return NULL;
-- 
2.43.0


From 8dbc0e190bed31a8d9aa94d130758b39aad72b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:25 +0000
Subject: [PATCH 31/82] fix: refuse adjacency list and matrix texts that are
 truncated, out of range or not in the format, and read strings in linear time

---
 c/graphLib/io/graphIO.c | 166 +++++++++++++++++++++++++---------------
 1 file changed, 103 insertions(+), 63 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index e21317d..b135b2e 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -7,6 +7,8 @@ See the LICENSE.TXT file for licensing information.
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 
 #include "../graph.h"
 #include "g6-read-iterator.h"
@@ -20,6 +22,78 @@ int _WriteAdjList(graphP theGraph, FILE *Outfile, strBufP outBuf);
 int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf);
 int _WriteDebugInfo(graphP theGraph, FILE *Outfile);
 
+/********************************************************************
+ _ReadInteger()
+ Reads the next integer of the file or string buffer, after any white
+ space, into *pValue.
+ Returns: OK, or NOTOK if there is no integer or it is out of range
+ ********************************************************************/
+
+int _ReadInteger(FILE *Infile, strBufP inBuf, int *pValue)
+{
+    long value;
+
+    if (Infile != NULL)
+    {
+        errno = 0;
+        if (fscanf(Infile, "%ld", &value) != 1 || errno == ERANGE)
+            return NOTOK;
+    }
+    else
+    {
+        char *readString = sb_GetReadString(inBuf), *endOfInteger = NULL;
+
+        if (readString == NULL)
+            return NOTOK;
+
+        errno = 0;
+        value = strtol(readString, &endOfInteger, 10);
+        if (endOfInteger == readString || errno == ERANGE)
+            return NOTOK;
+
+        sb_SetReadPos(inBuf, sb_GetReadPos(inBuf) + (int)(endOfInteger - readString));
+    }
+
+    if (value < INT_MIN || value > INT_MAX)
+        return NOTOK;
+
+    *pValue = (int)value;
+    return OK;
+}
+
+/********************************************************************
+ _ReadCharacter()
+ Returns the next character of the file or string buffer, or EOF
+ ********************************************************************/
+
+int _ReadCharacter(FILE *Infile, strBufP inBuf)
+{
+    char *readString;
+
+    if (Infile != NULL)
+        return fgetc(Infile);
+
+    readString = sb_GetReadString(inBuf);
+    if (readString == NULL || *readString == '\0')
+        return EOF;
+
+    sb_ReadSkipChar(inBuf);
+    return (unsigned char)*readString;
+}
+
+/********************************************************************
+ _ReadWhitespace()
+ Skips any white space in the file or string buffer
+ ********************************************************************/
+
+void _ReadWhitespace(FILE *Infile, strBufP inBuf)
+{
+    if (Infile != NULL)
+        fscanf(Infile, " ");
+    else
+        sb_ReadSkipWhitespace(inBuf);
+}
+
 /********************************************************************
  _ReadAdjMatrix()
  This function reads the undirected graph in upper triangular matrix format.
@@ -38,15 +112,8 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         return NOTOK;
 
     // Read the number of vertices from the first line of the file
-    if (Infile != NULL)
-        fscanf(Infile, " %d ", &N);
-    else
-    {
-        sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
-        sb_ReadSkipInteger(inBuf);
-        sb_ReadSkipWhitespace(inBuf);
-    }
+    if (_ReadInteger(Infile, inBuf, &N) != OK)
+        return NOTOK;
 
     // Initialize the graph based on the number of vertices
     if (gp_InitGraph(theGraph, N) != OK)
@@ -60,17 +127,13 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         for (w = v + 1; gp_VertexInRange(theGraph, w); w++)
         {
             // Read each of v's w-neighbor flags
-            if (Infile != NULL)
-                fscanf(Infile, " %1d", &Flag);
-            else
-            {
-                sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %1d", &Flag);
-                sb_ReadSkipInteger(inBuf);
-            }
+            _ReadWhitespace(Infile, inBuf);
+            Flag = _ReadCharacter(Infile, inBuf);
+            if (Flag != '0' && Flag != '1')
+                return NOTOK;
 
             // Add the edge (v, w) if the flag is raised
-            if (Flag)
+            if (Flag == '1')
             {
                 if (gp_DynamicAddEdge(theGraph, v, 0, w, 0) != OK)
                     return NOTOK;
@@ -78,6 +141,8 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
         }
     }
 
+    _ReadWhitespace(Infile, inBuf);
+
     return OK;
 }
 
@@ -93,7 +158,7 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
  NOTE:  The vertex number is for file documentation only.  It is an
         error if the vertices are not in sorted order in the file.
 
- NOTE:  If a loop edge is found, it is ignored without error.
+ NOTE:  It is an error if a loop edge is found.
 
  NOTE:  This routine supports digraphs.  For a directed arc (v -> W),
         an edge record is created in both vertices, v and W, and the
@@ -116,21 +181,9 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         return NOTOK;
 
     // Skip the "N=" and then read the N value for number of vertices
-    if (Infile != NULL)
-    {
-        fgetc(Infile);
-        fgetc(Infile);
-        fscanf(Infile, " %d ", &N);
-    }
-    else
-    {
-        sb_ReadSkipChar(inBuf);
-        sb_ReadSkipChar(inBuf);
-        sb_ReadSkipWhitespace(inBuf);
-        sscanf(sb_GetReadString(inBuf), " %d ", &N);
-        sb_ReadSkipInteger(inBuf);
-        sb_ReadSkipWhitespace(inBuf);
-    }
+    if (_ReadCharacter(Infile, inBuf) != 'N' || _ReadCharacter(Infile, inBuf) != '=' ||
+        _ReadInteger(Infile, inBuf, &N) != OK)
+        return NOTOK;
 
     // Initialize theGraph based on the number of vertices in the input
     if (gp_InitGraph(theGraph, N) != OK)
@@ -145,29 +198,21 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
     {
         // Read the vertex number
-        if (Infile != NULL)
-            fscanf(Infile, "%d", &indexValue);
-        else
-        {
-            sscanf(sb_GetReadString(inBuf), "%d", &indexValue);
-            sb_ReadSkipInteger(inBuf);
-        }
+        if (_ReadInteger(Infile, inBuf, &indexValue) != OK)
+            return NOTOK;
 
         if (indexValue == 0 && v == gp_GetFirstVertex(theGraph))
             zeroBased = TRUE;
-        indexValue += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
-
-        gp_SetVertexIndex(theGraph, v, indexValue);
 
         // The vertices are expected to be in numeric ascending order
-        if (gp_GetVertexIndex(theGraph, v) != v)
+        if (indexValue != v - (zeroBased ? gp_GetFirstVertex(theGraph) : 0))
             return NOTOK;
 
+        gp_SetVertexIndex(theGraph, v, v);
+
         // Skip the colon after the vertex number
-        if (Infile != NULL)
-            fgetc(Infile);
-        else
-            sb_ReadSkipChar(inBuf);
+        if (_ReadCharacter(Infile, inBuf) != ':')
+            return NOTOK;
 
         // If the vertex already has a non-empty adjacency list, then it is
         // the result of adding edges during processing of preceding vertices.
@@ -206,27 +251,22 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         while (1)
         {
             // Read the value indicating the next adjacent vertex (or the list end)
-            if (Infile != NULL)
-                fscanf(Infile, " %d ", &W);
-            else
-            {
-                sb_ReadSkipWhitespace(inBuf);
-                sscanf(sb_GetReadString(inBuf), " %d ", &W);
-                sb_ReadSkipInteger(inBuf);
-                sb_ReadSkipWhitespace(inBuf);
-            }
+            if (_ReadInteger(Infile, inBuf, &W) != OK)
+                return NOTOK;
+            _ReadWhitespace(Infile, inBuf);
+
+            // A value above the valid range is an error
+            if (W > gp_GetLastVertex(theGraph) - (zeroBased ? gp_GetFirstVertex(theGraph) : 0))
+                return NOTOK;
+
             W += zeroBased ? gp_GetFirstVertex(theGraph) : 0;
 
             // A value below the valid range indicates the adjacency list end
             if (W < gp_GetFirstVertex(theGraph))
                 break;
 
-            // A value above the valid range is an error
-            if (W > gp_GetLastVertex(theGraph))
-                return NOTOK;
-
             // Loop edges are not supported
-            else if (W == v)
+            if (W == v)
                 return NOTOK;
 
             // If the adjacency is to a succeeding, higher numbered vertex,
-- 
2.43.0


From 7659dcf582a0290fcb73e5a1685e2bd32ae6c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:49 +0000
Subject: [PATCH 32/82] fix: refuse a LEDA text that is truncated or names
 vertices outside the graph

---
 c/graphLib/io/graphIO.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index b135b2e..e1f441a 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -358,34 +358,40 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
 {
     char Line[256];
     int N = -1;
-    int M, m, u, v, ErrorCode;
+    int M = -1;
+    int m, u, v, ErrorCode;
     int zeroBasedOffset = gp_GetFirstVertex(theGraph) == 0 ? 1 : 0;
 
     /* Skip the lines that say LEDA.GRAPH and give the node and edge types */
-    fgets(Line, 255, Infile);
-
-    fgets(Line, 255, Infile);
-    fgets(Line, 255, Infile);
+    if (fgets(Line, 255, Infile) == NULL ||
+        fgets(Line, 255, Infile) == NULL ||
+        fgets(Line, 255, Infile) == NULL)
+        return NOTOK;
 
     /* Read the number of vertices N, initialize the graph, then skip N. */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &N);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &N) != 1)
+        return NOTOK;
 
     if (gp_InitGraph(theGraph, N) != OK)
         return NOTOK;
 
     for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-        fgets(Line, 255, Infile);
+    {
+        if (fgets(Line, 255, Infile) == NULL)
+            return NOTOK;
+    }
 
     /* Read the number of edges */
-    fgets(Line, 255, Infile);
-    sscanf(Line, " %d", &M);
+    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &M) != 1 || M < 0)
+        return NOTOK;
 
     /* Read and add each edge, omitting loops and parallel edges */
     for (m = 0; m < M; m++)
     {
-        fgets(Line, 255, Infile);
-        sscanf(Line, " %d %d", &u, &v);
+        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d %d", &u, &v) != 2 ||
+            u < 1 || u > N || v < 1 || v > N)
+            return NOTOK;
+
         if (u != v && !gp_IsNeighbor(theGraph, u - zeroBasedOffset, v - zeroBasedOffset))
         {
             if ((ErrorCode = gp_DynamicAddEdge(theGraph, u - zeroBasedOffset, 0, v - zeroBasedOffset, 0)) != OK)
-- 
2.43.0


From 238fff26cd07a034aa75323d280a5a36ec8cae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:49 +0000
Subject: [PATCH 33/82] fix: refuse an empty input file, terminate the extra
 data read from a file, and free the buffer of a refused string

---
 c/graphLib/io/graphIO.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index e1f441a..959d3e2 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -438,7 +438,14 @@ int gp_Read(graphP theGraph, char *FileName)
     else if ((Infile = fopen(FileName, READTEXT)) == NULL)
         return NOTOK;
 
-    fgets(lineBuff, 255, Infile);
+    // An empty input contains no graph
+    if (fgets(lineBuff, 255, Infile) == NULL)
+    {
+        if (Infile != stdin)
+            fclose(Infile);
+        return NOTOK;
+    }
+
     // Reset file pointer to beginning of file
     fseek(Infile, 0, SEEK_SET);
     if (strncmp(lineBuff, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
@@ -449,7 +456,7 @@ int gp_Read(graphP theGraph, char *FileName)
         if (RetVal == OK)
             extraDataAllowed = true;
     }
-    else if (isdigit(lineBuff[0]))
+    else if (isdigit((unsigned char)lineBuff[0]))
     {
         RetVal = _ReadAdjMatrix(theGraph, Infile, NULL);
         if (RetVal == OK)
@@ -481,24 +488,25 @@ int gp_Read(graphP theGraph, char *FileName)
 
         if (filePos < fileSize)
         {
+            // The extra data is given to the readers as a string
             extraData = malloc(fileSize - filePos + 1);
-            fread(extraData, fileSize - filePos, 1, Infile);
+            if (extraData == NULL || fread(extraData, fileSize - filePos, 1, Infile) != 1)
+                RetVal = NOTOK;
+            else
+                ((char *)extraData)[fileSize - filePos] = '\0';
         }
         /*
                 // Useful for quick debugging of IO extensibility
                 if (extraData == NULL)
                     printf("extraData == NULL\n");
                 else
-                {
-                    char *extraDataString = (char *) extraData;
-                    extraDataString[fileSize - filePos] = '\0';
-                    printf("extraData = '%s'\n", extraDataString);
-                }
+                    printf("extraData = '%s'\n", (char *) extraData);
         */
 
         if (extraData != NULL)
         {
-            RetVal = theGraph->functions.fpReadPostprocess(theGraph, extraData, fileSize - filePos);
+            if (RetVal == OK)
+                RetVal = theGraph->functions.fpReadPostprocess(theGraph, extraData, fileSize - filePos);
             free((void *)extraData);
         }
     }
@@ -547,8 +555,8 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
 
     if (strncmp(inputStr, "LEDA.GRAPH", strlen("LEDA.GRAPH")) == 0)
     {
-        if (inputStr != NULL)
-            free(inputStr);
+        sb_Free(&inBuf);
+        free(inputStr);
         return NOTOK;
     }
     else if (strncmp(inputStr, "N=", strlen("N=")) == 0)
@@ -557,7 +565,7 @@ int gp_ReadFromString(graphP theGraph, char *inputStr)
         if (RetVal == OK)
             extraDataAllowed = true;
     }
-    else if (isdigit(inputStr[0]))
+    else if (isdigit((unsigned char)inputStr[0]))
     {
         RetVal = _ReadAdjMatrix(theGraph, NULL, inBuf);
         if (RetVal == OK)
-- 
2.43.0


From 039f8891848af1726f0567284e2f59cab46c8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:49 +0000
Subject: [PATCH 34/82] fix: release the row buffer and report failures of
 writing an adjacency matrix

---
 c/graphLib/io/graphIO.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 959d3e2..98bc5be 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -731,7 +731,10 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         while (gp_IsArc(e))
         {
             if (gp_GetDirection(theGraph, e) == EDGEFLAG_DIRECTION_INONLY)
+            {
+                free(Row);
                 return NOTOK;
+            }
 
             if (gp_GetNeighbor(theGraph, e) > v)
                 Row[gp_GetNeighbor(theGraph, e) - gp_GetFirstVertex(theGraph)] = '1';
@@ -745,8 +748,11 @@ int _WriteAdjMatrix(graphP theGraph, FILE *Outfile, strBufP outBuf)
         // Write the row to the file or string buffer
         if (Outfile != NULL)
             fprintf(Outfile, "%s", Row);
-        else
-            sb_ConcatString(outBuf, Row);
+        else if (sb_ConcatString(outBuf, Row) != OK)
+        {
+            free(Row);
+            return NOTOK;
+        }
     }
 
     free(Row);
-- 
2.43.0


From 50f0a6e6ef28c02d16c61d81273c813cd64d3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 35/82] fix: tell the character 255 from the end of the input
 of a string-or-file container

---
 c/graphLib/io/strOrFile.c | 19 ++++++++++---------
 c/graphLib/io/strOrFile.h |  4 ++--
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/c/graphLib/io/strOrFile.c b/c/graphLib/io/strOrFile.c
index 314e315..064ae04 100644
--- a/c/graphLib/io/strOrFile.c
+++ b/c/graphLib/io/strOrFile.c
@@ -44,9 +44,9 @@ strOrFileP sf_New(FILE *pFile, char *theStr)
  If strOrFileP has input string, returns character at theStrPos and
  increments theStrPos.
  ********************************************************************/
-char sf_getc(strOrFileP theStrOrFile)
+int sf_getc(strOrFileP theStrOrFile)
 {
-	char theChar = '\0';
+	int theChar = EOF;
 
 	if (theStrOrFile != NULL)
 	{
@@ -57,7 +57,7 @@ char sf_getc(strOrFileP theStrOrFile)
 			if ((theStrOrFile->theStr + theStrOrFile->theStrPos)[0] == '\0')
 				return EOF;
 
-			theChar = theStrOrFile->theStr[theStrOrFile->theStrPos++];
+			theChar = (unsigned char)theStrOrFile->theStr[theStrOrFile->theStrPos++];
 		}
 	}
 
@@ -72,14 +72,14 @@ char sf_getc(strOrFileP theStrOrFile)
  If strOrFileP has input string, decrements theStrPos and returns
  character at theStrPos.
 
- Like ungetc() in stdio, on success theChar is returned. On failure, EOF
- is returned.
+ Like ungetc() in stdio, on success theChar is returned. On failure, or
+ if theChar is EOF, EOF is returned.
  ********************************************************************/
-char sf_ungetc(char theChar, strOrFileP theStrOrFile)
+int sf_ungetc(int theChar, strOrFileP theStrOrFile)
 {
-	char charToReturn = EOF;
+	int charToReturn = EOF;
 
-	if (theStrOrFile != NULL)
+	if (theStrOrFile != NULL && theChar != EOF)
 	{
 		if (theStrOrFile->pFile != NULL)
 			charToReturn = ungetc(theChar, theStrOrFile->pFile);
@@ -90,7 +90,8 @@ char sf_ungetc(char theChar, strOrFileP theStrOrFile)
 				return EOF;
 
 			// Decrement theStrPos, then replace the character in theStr at that position with theChar
-			charToReturn = theStrOrFile->theStr[--(theStrOrFile->theStrPos)] = theChar;
+			theStrOrFile->theStr[--(theStrOrFile->theStrPos)] = (char)theChar;
+			charToReturn = (unsigned char)theChar;
 		}
 	}
 
diff --git a/c/graphLib/io/strOrFile.h b/c/graphLib/io/strOrFile.h
index bc3f699..a7fa7ce 100644
--- a/c/graphLib/io/strOrFile.h
+++ b/c/graphLib/io/strOrFile.h
@@ -24,8 +24,8 @@ typedef strOrFile *strOrFileP;
 
 strOrFileP sf_New(FILE * pFile, char *theStr);
 
-char sf_getc(strOrFileP theStrOrFile);
-char sf_ungetc(char theChar, strOrFileP theStrOrFile);
+int sf_getc(strOrFileP theStrOrFile);
+int sf_ungetc(int theChar, strOrFileP theStrOrFile);
 char * sf_fgets(char *str, int count, strOrFileP theStrOrFile);
 
 int sf_fputs(char *strToWrite, strOrFileP theStrOrFile);
-- 
2.43.0


From acdd33e21b060538d1633e4a703316a48aee4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 36/82] fix: refuse characters between a carriage return and
 the end of a .g6 line

---
 c/graphLib/io/g6-read-iterator.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 49743a9..0790d98 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -464,7 +464,14 @@ int readGraphUsingG6ReadIterator(G6ReadIterator *pG6ReadIterator)
 
 		// From https://stackoverflow.com/a/28462221, strcspn finds the index of the first
 		// char in charset; this way, I replace the char at that index with the null-terminator
-		currGraphBuff[strcspn(currGraphBuff, "\n\r")] = '\0'; // works for LF, CR, CRLF, LFCR, ...
+		char *lineEnd = currGraphBuff + strcspn(currGraphBuff, "\n\r");
+		if (lineEnd[strspn(lineEnd, "\n\r")] != '\0')
+		{
+			sprintf(messageContents, "Invalid line ending on line %d\n", numGraphsRead);
+			ErrorMessage(messageContents);
+			return NOTOK;
+		}
+		*lineEnd = '\0'; // works for LF, CR, CRLF, LFCR, ...
 
 		// If the line was too long, then we would have placed the null terminator at the final
 		// index (where it already was; see strcpn docs), and the length of the string will be 
-- 
2.43.0


From 139d97704ca0add10768a3cd8910201fef38bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:00 +0000
Subject: [PATCH 37/82] fix: close files and free strings owned by a .g6
 iterator when it cannot be set up

---
 c/graphLib/io/g6-read-iterator.c  |  9 +++++++++
 c/graphLib/io/g6-write-iterator.c | 29 +++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index 0790d98..e059b2f 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -151,6 +151,9 @@ int beginG6ReadIterationFromG6FilePointer(G6ReadIterator *pG6ReadIterator, FILE
 	if (g6Input == NULL)
 	{
 		ErrorMessage("Unable to allocate string-or-file container.\n");
+		// The iterator owns the file pointer, so it has to be closed
+		if (g6Infile != stdin)
+			fclose(g6Infile);
 		return NOTOK;
 	}
 
@@ -176,6 +179,8 @@ int beginG6ReadIterationFromG6String(G6ReadIterator *pG6ReadIterator, char *g6In
 	if (g6Input == NULL)
 	{
 		ErrorMessage("Unable to allocate string-or-file container.\n");
+		// The iterator owns the string, so it has to be freed
+		free(g6InputStr);
 		return NOTOK;
 	}
 
@@ -815,6 +820,8 @@ int _ReadGraphFromG6FilePointer(graphP pGraphToRead, FILE *g6Infile)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		if (g6Infile != NULL && g6Infile != stdin)
+			fclose(g6Infile);
 		return exitCode;
 	}
 
@@ -860,6 +867,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (g6EncodedString == NULL || strlen(g6EncodedString) == 0)
 	{
 		ErrorMessage("Input string is empty.\n");
+		free(g6EncodedString);
 		return NOTOK;
 	}
 
@@ -869,6 +877,7 @@ int _ReadGraphFromG6String(graphP pGraphToRead, char *g6EncodedString)
 	if (exitCode != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		free(g6EncodedString);
 		return exitCode;
 	}
 
diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index cb1fabc..c485fb3 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -162,6 +162,15 @@ int beginG6WriteIterationToG6FilePointer(G6WriteIterator *pG6WriteIterator, FILE
 
 	pG6WriteIterator->g6Output = sf_New(g6Outfile, NULL);
 
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate string-or-file container.\n");
+		// The iterator owns the file pointer, so it has to be closed
+		if (g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
+		return NOTOK;
+	}
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
@@ -183,11 +192,29 @@ int beginG6WriteIterationToG6String(G6WriteIterator *pG6WriteIterator, char **g6
 	if ((*g6OutputStr) == NULL)
 	{
 		(*g6OutputStr) = (char *) malloc(1 * sizeof(char));
+
+		if ((*g6OutputStr) == NULL)
+		{
+			ErrorMessage("Unable to allocate memory for .g6 output string.\n");
+			return NOTOK;
+		}
+
 		(*g6OutputStr)[0] = '\0';
 	}
 
 	pG6WriteIterator->g6Output = sf_New(NULL, (*g6OutputStr));
 
+	// The iterator owns the output string until it is taken from it
+	if (pG6WriteIterator->g6Output == NULL)
+	{
+		ErrorMessage("Unable to allocate string-or-file container.\n");
+		free((*g6OutputStr));
+		(*g6OutputStr) = NULL;
+		return NOTOK;
+	}
+
+	(*g6OutputStr) = NULL;
+
 	exitCode = _beginG6WriteIteration(pG6WriteIterator);
 
 	if (exitCode != OK)
@@ -603,6 +630,8 @@ int _WriteGraphToG6FilePointer(graphP pGraph, FILE *g6Outfile)
 	{
 		ErrorMessage("Unable to allocate G6WriteIterator.\n");
 		freeG6WriteIterator(&pG6WriteIterator);
+		if (g6Outfile != NULL && g6Outfile != stdout && g6Outfile != stderr)
+			fclose(g6Outfile);
 		return exitCode;
 	}
 
-- 
2.43.0


From dbbadf0d9ac76c343b868af65f094507dac94352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 38/82] fix: compute the size and positions of a rendered
 drawing without overflow

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 32 ++++++++++---------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index eecf5e8..4916ec7 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -798,8 +798,10 @@ char *_RenderToString(graphP theEmbedding)
         int N = theEmbedding->N;
         int M = theEmbedding->M;
         int zeroBasedVertexOffset = (theEmbedding->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theEmbedding) : 0;
-        int n, m, EsizeOccupied, v, vRange, e, eRange, Mid, Pos;
-        char *visRep = (char *)malloc(sizeof(char) * ((M + 1) * 2 * N + 1));
+        int m, EsizeOccupied, v, vRange, e, eRange, Mid, Pos;
+        // The rendition can have more characters than an int can count
+        size_t n, lineSize = (size_t)M + 1;
+        char *visRep = (char *)malloc(sizeof(char) * (lineSize * 2 * N + 1));
         char numBuffer[32];
 
         if (visRep == NULL)
@@ -812,16 +814,16 @@ char *_RenderToString(graphP theEmbedding)
         }
 
         // Clear the space
-        for (n = 0; n < N; n++)
+        for (n = 0; n < (size_t)N; n++)
         {
             for (m = 0; m < M; m++)
             {
-                visRep[(2 * n) * (M + 1) + m] = ' ';
-                visRep[(2 * n + 1) * (M + 1) + m] = ' ';
+                visRep[(2 * n) * lineSize + m] = ' ';
+                visRep[(2 * n + 1) * lineSize + m] = ' ';
             }
 
-            visRep[(2 * n) * (M + 1) + M] = '\n';
-            visRep[(2 * n + 1) * (M + 1) + M] = '\n';
+            visRep[(2 * n) * lineSize + M] = '\n';
+            visRep[(2 * n + 1) * lineSize + M] = '\n';
         }
 
         // Draw the vertices
@@ -829,7 +831,7 @@ char *_RenderToString(graphP theEmbedding)
         {
             Pos = context->VI[v].pos;
             for (vRange = context->VI[v].start; vRange <= context->VI[v].end; vRange++)
-                visRep[(2 * Pos) * (M + 1) + vRange] = '-';
+                visRep[(2 * Pos) * lineSize + vRange] = '-';
 
             // Draw vertex label
             Mid = (context->VI[v].start + context->VI[v].end) / 2;
@@ -840,17 +842,17 @@ char *_RenderToString(graphP theEmbedding)
                 if (Mid + (int)strlen(numBuffer) - 1 > context->VI[v].end)
                     Mid = context->VI[v].end - (int)strlen(numBuffer) + 1;
 
-                memcpy((char *)visRep + (2 * Pos) * (M + 1) + Mid, (char *)numBuffer, strlen(numBuffer));
+                memcpy((char *)visRep + (2 * Pos) * lineSize + Mid, (char *)numBuffer, strlen(numBuffer));
             }
             // If the vertex width is less than the label width, then fail gracefully
             else
             {
                 if (strlen(numBuffer) == 2)
-                    visRep[(2 * Pos) * (M + 1) + Mid] = numBuffer[0];
+                    visRep[(2 * Pos) * lineSize + Mid] = numBuffer[0];
                 else
-                    visRep[(2 * Pos) * (M + 1) + Mid] = '*';
+                    visRep[(2 * Pos) * lineSize + Mid] = '*';
 
-                visRep[(2 * Pos + 1) * (M + 1) + Mid] = numBuffer[strlen(numBuffer) - 1];
+                visRep[(2 * Pos + 1) * lineSize + Mid] = numBuffer[strlen(numBuffer) - 1];
             }
         }
 
@@ -862,13 +864,13 @@ char *_RenderToString(graphP theEmbedding)
             for (eRange = context->E[e].start; eRange < context->E[e].end; eRange++)
             {
                 if (eRange > context->E[e].start)
-                    visRep[(2 * eRange) * (M + 1) + Pos] = '|';
-                visRep[(2 * eRange + 1) * (M + 1) + Pos] = '|';
+                    visRep[(2 * eRange) * lineSize + Pos] = '|';
+                visRep[(2 * eRange + 1) * lineSize + Pos] = '|';
             }
         }
 
         // Null terminate string and return it
-        visRep[(M + 1) * 2 * N] = '\0';
+        visRep[lineSize * 2 * N] = '\0';
         return visRep;
     }
 
-- 
2.43.0


From d0289453bc06f84dccb990d048ffbc632dfc6adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 39/82] fix: refuse to render an unsized graph or without a
 file name, before creating the output file

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index 4916ec7..ec1e95b 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -889,7 +889,7 @@ char *_RenderToString(graphP theEmbedding)
 
 int gp_DrawPlanar_RenderToString(graphP theEmbedding, char **pRenditionString)
 {
-    if (theEmbedding != NULL && sp_IsEmpty(theEmbedding->edgeHoles) && pRenditionString != NULL)
+    if (theEmbedding != NULL && theEmbedding->N > 0 && sp_IsEmpty(theEmbedding->edgeHoles) && pRenditionString != NULL)
     {
         *pRenditionString = _RenderToString(theEmbedding);
         return *pRenditionString != NULL ? OK : NOTOK;
@@ -909,11 +909,16 @@ int gp_DrawPlanar_RenderToString(graphP theEmbedding, char **pRenditionString)
  ********************************************************************/
 int gp_DrawPlanar_RenderToFile(graphP theEmbedding, char *theFileName)
 {
-    if (theEmbedding != NULL && sp_IsEmpty(theEmbedding->edgeHoles))
+    if (theEmbedding != NULL && theEmbedding->N > 0 && sp_IsEmpty(theEmbedding->edgeHoles) && theFileName != NULL)
     {
         FILE *outfile;
         char *theRendition;
 
+        // Don't touch the output file if there is no rendition
+        theRendition = _RenderToString(theEmbedding);
+        if (theRendition == NULL)
+            return NOTOK;
+
         if (strcmp(theFileName, "stdout") == 0)
             outfile = stdout;
         else if (strcmp(theFileName, "stderr") == 0)
@@ -922,22 +927,21 @@ int gp_DrawPlanar_RenderToFile(graphP theEmbedding, char *theFileName)
             outfile = fopen(theFileName, WRITETEXT);
 
         if (outfile == NULL)
-            return NOTOK;
-
-        theRendition = _RenderToString(theEmbedding);
-        if (theRendition != NULL)
         {
-            fprintf(outfile, "%s", theRendition);
             free(theRendition);
+            return NOTOK;
         }
 
+        fputs(theRendition, outfile);
+        free(theRendition);
+
         if (strcmp(theFileName, "stdout") == 0 || strcmp(theFileName, "stderr") == 0)
             fflush(outfile);
 
         else if (fclose(outfile) != 0)
             return NOTOK;
 
-        return theRendition ? OK : NOTOK;
+        return OK;
     }
 
     return NOTOK;
-- 
2.43.0


From d69510c5797d98cfc9e4c09bd2518a68a63c701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 40/82] fix: compute the size of a written drawing section
 without overflow

---
 c/graphLib/io/graphIO.c                             |  2 +-
 .../planarityRelated/graphDrawPlanar_Extensions.c   | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 98bc5be..c42dbc9 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -1033,7 +1033,7 @@ int gp_WriteToString(graphP theGraph, char **pOutputStr, int Mode)
 
         if (extraData != NULL)
         {
-            for (int i = 0; i < extraDataSize; i++)
+            for (long i = 0; i < extraDataSize; i++)
             {
                 if (sb_ConcatChar(outBuf, ((char *)extraData)[i]) != OK)
                 {
diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index ddb37d9..b196678 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -643,8 +643,9 @@ int  _DrawPlanar_WritePostprocess(graphP theGraph, void **pExtraData, long *pExt
         {
             int v, e, EsizeOccupied;
             char line[64];
-            int maxLineSize = 64, extraDataPos = 0;
-            char *extraData = (char *) malloc((1 + theGraph->N + 2*theGraph->M + 1) * maxLineSize * sizeof(char));
+            int maxLineSize = 64;
+            long extraDataPos = 0;
+            char *extraData = (char *) malloc((1 + (size_t)theGraph->N + 2*(size_t)theGraph->M + 1) * maxLineSize * sizeof(char));
             int zeroBasedVertexOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstVertex(theGraph) : 0;
             int zeroBasedEdgeOffset = (theGraph->internalFlags & FLAGS_ZEROBASEDIO) ? gp_GetFirstEdge(theGraph) : 0;
 
@@ -661,7 +662,7 @@ int  _DrawPlanar_WritePostprocess(graphP theGraph, void **pExtraData, long *pExt
 
             sprintf(line, "<%s>\n", DRAWPLANAR_NAME);
             strcpy(extraData+extraDataPos, line);
-            extraDataPos += (int) strlen(line);
+            extraDataPos += (long) strlen(line);
 
             for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
             {
@@ -670,7 +671,7 @@ int  _DrawPlanar_WritePostprocess(graphP theGraph, void **pExtraData, long *pExt
                               context->VI[v].start,
                               context->VI[v].end);
                 strcpy(extraData+extraDataPos, line);
-                extraDataPos += (int) strlen(line);
+                extraDataPos += (long) strlen(line);
             }
 
             EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
@@ -683,13 +684,13 @@ int  _DrawPlanar_WritePostprocess(graphP theGraph, void **pExtraData, long *pExt
                                   context->E[e].start,
                                   context->E[e].end);
                     strcpy(extraData+extraDataPos, line);
-                    extraDataPos += (int) strlen(line);
+                    extraDataPos += (long) strlen(line);
                 }
             }
 
             sprintf(line, "</%s>\n", DRAWPLANAR_NAME);
             strcpy(extraData+extraDataPos, line);
-            extraDataPos += (int) strlen(line);
+            extraDataPos += (long) strlen(line);
 
             *pExtraData = (void *) extraData;
             *pExtraDataSize = extraDataPos * sizeof(char);
-- 
2.43.0


From db21f1e74f45a2fa3e9cd93cb4602da7f145672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:19 +0000
Subject: [PATCH 41/82] fix: read the section of a drawing safely and assign
 its lines to the edges they describe

---
 .../graphDrawPlanar_Extensions.c              | 189 +++++++++++++++---
 1 file changed, 162 insertions(+), 27 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
index b196678..49172cc 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c
@@ -5,6 +5,9 @@ See the LICENSE.TXT file for licensing information.
 */
 
 #include <stdlib.h>
+#include <string.h>
+#include <errno.h>
+#include <limits.h>
 
 #include "graphDrawPlanar.private.h"
 #include "graphDrawPlanar.h"
@@ -569,6 +572,162 @@ int  _DrawPlanar_CheckObstructionIntegrity(graphP theGraph, graphP origGraph)
      return NOTOK;
 }
 
+/********************************************************************
+ _ReadDrawingLine()
+
+ Reads a line with a label and the pos, start and end numbers of a
+ vertex or an edge, and advances *pData past it.
+
+ Returns OK, or NOTOK if the line does not have this form or if one of
+ its numbers is out of range.
+ ********************************************************************/
+
+static int _ReadDrawingLine(char **pData, int maxPos, int maxEnd, int *pLabel,
+                            int *pPos, int *pStart, int *pEnd)
+{
+    int i;
+    long values[4];
+    char *data = *pData, *endOfValue = NULL;
+
+    for (i = 0; i < 4; i++)
+    {
+        errno = 0;
+        values[i] = strtol(data, &endOfValue, 10);
+        if (endOfValue == data || errno == ERANGE || values[i] < 0 || values[i] > INT_MAX)
+            return NOTOK;
+        data = endOfValue;
+
+        if (i == 0 && *data++ != ':')
+            return NOTOK;
+    }
+
+    if (values[1] > maxPos || values[2] > values[3] || values[3] > maxEnd)
+        return NOTOK;
+
+    *pLabel = (int) values[0];
+    *pPos = (int) values[1];
+    *pStart = (int) values[2];
+    *pEnd = (int) values[3];
+
+    data += strspn(data, " \t\r");
+    if (*data != '\n')
+        return NOTOK;
+
+    *pData = data + 1;
+    return OK;
+}
+
+/********************************************************************
+ _FindDrawnEdge()
+
+ Returns an arc of the edge (u, v), or NIL if there is no such edge.
+ The two adjacency lists are traversed in parallel, so that the cost is
+ proportional to the smaller degree.
+ ********************************************************************/
+
+static int _FindDrawnEdge(graphP theGraph, int u, int v)
+{
+    int eu = gp_GetFirstArc(theGraph, u), ev = gp_GetFirstArc(theGraph, v);
+
+    while (gp_IsArc(eu) && gp_IsArc(ev))
+    {
+        if (gp_GetNeighbor(theGraph, eu) == v)
+            return eu;
+        if (gp_GetNeighbor(theGraph, ev) == u)
+            return ev;
+
+        eu = gp_GetNextArc(theGraph, eu);
+        ev = gp_GetNextArc(theGraph, ev);
+    }
+
+    return NIL;
+}
+
+/********************************************************************
+ _ReadDrawing()
+
+ Reads the lines of the section for this feature into the context.
+
+ The edges of theGraph do not generally have the same locations in edge
+ storage as they had in the graph that was written, so the line of an
+ edge is matched with the edge between the two vertices whose vertical
+ positions are the start and end of the edge. This is not possible if
+ the graph that was written had not been drawn, in which case the lines
+ are assigned to the edges in order.
+
+ Returns OK, or NOTOK on file content error or internal error
+ ********************************************************************/
+
+static int _ReadDrawing(DrawPlanarContext *context, char *data)
+{
+    graphP theGraph = context->theGraph;
+    int v, e, drawnEdge, EsizeOccupied, label, firstLabel = 0, pos, start, end, isDrawn = TRUE;
+    int maxRow = theGraph->N - 1, maxColumn = theGraph->M > 0 ? theGraph->M - 1 : 0;
+    char line[64];
+
+    // For each vertical position, this has the vertex at that position
+    int *rowVertex = (int *) malloc(theGraph->N * sizeof(int));
+
+    if (rowVertex == NULL)
+        return NOTOK;
+
+    for (v = 0; v < theGraph->N; v++)
+        rowVertex[v] = NIL;
+
+    // Read the N lines of vertex information
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+    {
+        if (_ReadDrawingLine(&data, maxRow, maxColumn, &label, &pos, &start, &end) != OK)
+        {
+            free(rowVertex);
+            return NOTOK;
+        }
+
+        if (v == gp_GetFirstVertex(theGraph))
+            firstLabel = label;
+
+        if (firstLabel > gp_GetFirstVertex(theGraph) || label - firstLabel != v - gp_GetFirstVertex(theGraph))
+        {
+            free(rowVertex);
+            return NOTOK;
+        }
+
+        context->VI[v].pos = pos;
+        context->VI[v].start = start;
+        context->VI[v].end = end;
+
+        if (rowVertex[pos] != NIL)
+            isDrawn = FALSE;
+        rowVertex[pos] = v;
+    }
+
+    // Read the lines that contain edge information
+    EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
+    for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
+    {
+        if (_ReadDrawingLine(&data, maxColumn, maxRow, &label, &pos, &start, &end) != OK)
+        {
+            free(rowVertex);
+            return NOTOK;
+        }
+
+        drawnEdge = isDrawn ? _FindDrawnEdge(theGraph, rowVertex[start], rowVertex[end]) : NIL;
+        if (!gp_IsArc(drawnEdge))
+            drawnEdge = e;
+
+        context->E[drawnEdge].pos = pos;
+        context->E[drawnEdge].start = start;
+        context->E[drawnEdge].end = end;
+        context->E[gp_GetTwinArc(theGraph, drawnEdge)] = context->E[drawnEdge];
+    }
+
+    free(rowVertex);
+
+    // The section is complete only if it has its end tag
+    sprintf(line, "</%s>", DRAWPLANAR_NAME);
+    return strncmp(data, line, strlen(line)) == 0 ? OK : NOTOK;
+}
+
 /********************************************************************
  ********************************************************************/
 
@@ -584,8 +743,7 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
 
         else if (extraData != NULL && extraDataSize > 0)
         {
-            int v, e, tempInt, EsizeOccupied;
-            char line[64], tempChar;
+            char line[64];
 
             sprintf(line, "<%s>", DRAWPLANAR_NAME);
 
@@ -594,31 +752,8 @@ int  _DrawPlanar_ReadPostprocess(graphP theGraph, void *extraData, long extraDat
             if (extraData == NULL)
                 return NOTOK;
 
-            // Advance past the start tag
-            extraData = (void *) ((char *) extraData + strlen(line)+1);
-
-            // Read the N lines of vertex information
-            for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
-            {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
-                              &context->VI[v].pos,
-                              &context->VI[v].start,
-                              &context->VI[v].end);
-
-                extraData = strchr(extraData, '\n') + 1;
-            }
-
-            // Read the lines that contain edge information
-            EsizeOccupied = gp_EdgeInUseIndexBound(theGraph);
-            for (e = gp_GetFirstEdge(theGraph); e < EsizeOccupied; e++)
-            {
-                sscanf(extraData, " %d%c %d %d %d", &tempInt, &tempChar,
-                              &context->E[e].pos,
-                              &context->E[e].start,
-                              &context->E[e].end);
-
-                extraData = strchr(extraData, '\n') + 1;
-            }
+            // Read the lines after the start tag
+            return _ReadDrawing(context, (char *) extraData + strlen(line));
         }
 
         return OK;
-- 
2.43.0


From f2558418e69375abad7dcbf53cdb7583b27360ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 42/82] fix: refuse graph sizes whose arrays an int cannot
 count

---
 c/graphLib/graphUtils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index bd778ef..f759d2f 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -195,6 +195,10 @@ int gp_InitGraph(graphP theGraph, int N)
     if (theGraph == NULL || N <= 0)
         return NOTOK;
 
+    // The sizes of the graph's arrays and stacks must be countable by an int
+    if (N > (INT_MAX - 16) / (4 * DEFAULT_EDGE_LIMIT))
+        return NOTOK;
+
     // Should not call init a second time; use reinit
     if (theGraph->N)
         return NOTOK;
@@ -417,6 +421,10 @@ int gp_EnsureArcCapacity(graphP theGraph, int requiredArcCapacity)
     if (requiredArcCapacity & 1)
         return NOTOK;
 
+    // The sizes of the graph's arrays and stacks must be countable by an int
+    if (requiredArcCapacity > (INT_MAX - 16) / 2)
+        return NOTOK;
+
     if (theGraph->arcCapacity >= requiredArcCapacity)
         return OK;
 
-- 
2.43.0


From a32ad05f378d6857dd0f761b3df97bbbb0b54003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:46 +0000
Subject: [PATCH 43/82] fix: random numbers are mixed without signed overflow

---
 c/graphLib/graphUtils.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index f759d2f..055a56d 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1162,7 +1162,8 @@ int gp_CreateRandomGraph(graphP theGraph)
 
 int _GetRandomNumber(int NMin, int NMax)
 {
-    int N = rand();
+    // Unsigned so that mixing the bits cannot overflow
+    unsigned int N = (unsigned int)rand();
 
     if (NMax < NMin)
         return NMin;
@@ -1170,8 +1171,8 @@ int _GetRandomNumber(int NMin, int NMax)
     N += ((N & 0xFFFF0000) >> 16);
     N += ((N & 0x0000FF00) >> 8);
     N &= 0x7FFFFFF;
-    N %= (NMax - NMin + 1);
-    return N + NMin;
+    N %= (unsigned int)(NMax - NMin + 1);
+    return (int)N + NMin;
 }
 
 /********************************************************************
-- 
2.43.0


From 45955e67b185b58da6b3a766bfc6028744f15321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 44/82] fix: gp_CreateRandomGraph refuses an unsized graph and
 does not overflow the edge limit

---
 c/graphLib/graphUtils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 055a56d..33b0743 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1104,7 +1104,7 @@ int gp_CreateRandomGraph(graphP theGraph)
 {
     int N, M, u, v, m;
 
-    if (theGraph == NULL)
+    if (theGraph == NULL || theGraph->N <= 0)
         return NOTOK;
 
     N = theGraph->N;
@@ -1125,10 +1125,10 @@ int gp_CreateRandomGraph(graphP theGraph)
             (actually, leave open a small chance that no
             additional edges will be added). */
 
-    M = _GetRandomNumber(7 * N / 8, theGraph->arcCapacity / 2);
+    M = _GetRandomNumber(7 * (N / 8) + 7 * (N % 8) / 8, theGraph->arcCapacity / 2);
 
-    if (M > N * (N - 1) / 2)
-        M = N * (N - 1) / 2;
+    if (M > (long long)N * (N - 1) / 2)
+        M = (int)((long long)N * (N - 1) / 2);
 
     for (m = N - 1; m < M; m++)
     {
-- 
2.43.0


From cc3aaa2d937d3e4153d304c36d2b72c3e224ad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:28 +0000
Subject: [PATCH 45/82] fix: gp_CreateRandomGraphEx stops at the complete graph
 and refuses an unsized graph

---
 c/graphLib/graphUtils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index 33b0743..d2f66e4 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1262,7 +1262,7 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
 {
     int N, arc, M, root, v, c, p, last, u, e, EsizeOccupied;
 
-    if (theGraph == NULL)
+    if (theGraph == NULL || theGraph->N <= 0)
         return NOTOK;
 
     N = theGraph->N;
@@ -1270,6 +1270,10 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
     if (numEdges > theGraph->arcCapacity / 2)
         numEdges = theGraph->arcCapacity / 2;
 
+    // A simple graph cannot have more edges than the complete graph
+    if (numEdges > (long long)N * (N - 1) / 2)
+        numEdges = (int)((long long)N * (N - 1) / 2);
+
     /* Generate a random tree. */
 
     for (v = gp_GetFirstVertex(theGraph) + 1; gp_VertexInRange(theGraph, v); v++)
-- 
2.43.0


From f747adca718ba6ba5d675451ed15f0661238f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:29 +0000
Subject: [PATCH 46/82] fix: gp_CreateRandomGraphEx no longer exceeds the
 requested number of edges

---
 c/graphLib/graphUtils.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/c/graphLib/graphUtils.c b/c/graphLib/graphUtils.c
index d2f66e4..3f90ac3 100644
--- a/c/graphLib/graphUtils.c
+++ b/c/graphLib/graphUtils.c
@@ -1311,8 +1311,11 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
                     return NOTOK;
             }
 
-            if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
-                return NOTOK;
+            if (theGraph->M < M)
+            {
+                if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                    return NOTOK;
+            }
 
             v = last = c;
         }
@@ -1324,21 +1327,21 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
             {
                 v = p;
                 p = gp_GetVertexParent(theGraph, v);
-                if (gp_IsVertex(p) && p != root)
+                if (gp_IsVertex(p) && p != root && theGraph->M < M)
                 {
                     if (gp_AddEdge(theGraph, last, 1, p, 1) != OK)
                         return NOTOK;
                 }
             }
 
-            if (gp_IsVertex(p))
+            if (gp_IsVertex(p) && theGraph->M < M)
             {
                 if (p == root)
                 {
                     if (gp_AddEdge(theGraph, v, 1, c, 1) != OK)
                         return NOTOK;
 
-                    if (v != last)
+                    if (v != last && theGraph->M < M)
                     {
                         if (gp_AddEdge(theGraph, last, 1, c, 1) != OK)
                             return NOTOK;
@@ -1352,7 +1355,7 @@ int gp_CreateRandomGraphEx(graphP theGraph, int numEdges)
 
                 if (p != root)
                 {
-                    if (gp_AddEdge(theGraph, root, 1, c, 1) != OK)
+                    if (theGraph->M < M && gp_AddEdge(theGraph, root, 1, c, 1) != OK)
                         return NOTOK;
                     last = c;
                 }
-- 
2.43.0


From b54dbe3e765c5b3107a3ea208f40e0b2cb81da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:53 +0000
Subject: [PATCH 47/82] fix: refuse to write graphs of unsupported order as
 graph6

---
 c/graphLib/io/g6-write-iterator.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c/graphLib/io/g6-write-iterator.c b/c/graphLib/io/g6-write-iterator.c
index c485fb3..39b47cc 100644
--- a/c/graphLib/io/g6-write-iterator.c
+++ b/c/graphLib/io/g6-write-iterator.c
@@ -44,6 +44,15 @@ int allocateG6WriteIterator(G6WriteIterator **ppG6WriteIterator, graphP pGraph)
 
 		exitCode = NOTOK;
 	}
+	else if (_getNumCharsForGraphOrder(pGraph->N) <= 0)
+	{
+		ErrorMessage("[ERROR] Graph order is too large; we only support n <= 100000.\n");
+
+		if (freeG6WriteIterator(ppG6WriteIterator) != OK)
+			ErrorMessage("Unable to free the G6WriteIterator.\n");
+
+		exitCode = NOTOK;
+	}
 	else
 		(*ppG6WriteIterator)->currGraph = pGraph;
 
-- 
2.43.0


From 62cc0dfe363878e7744c01083c3e4d0ef47c2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:21 +0000
Subject: [PATCH 48/82] fix: refuse parallel edges in adjacency list input

---
 c/graphLib/io/graphIO.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index c42dbc9..a0280f5 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -158,7 +158,7 @@ int _ReadAdjMatrix(graphP theGraph, FILE *Infile, strBufP inBuf)
  NOTE:  The vertex number is for file documentation only.  It is an
         error if the vertices are not in sorted order in the file.
 
- NOTE:  It is an error if a loop edge is found.
+ NOTE:  It is an error if a loop edge or a parallel edge is found.
 
  NOTE:  This routine supports digraphs.  For a directed arc (v -> W),
         an edge record is created in both vertices, v and W, and the
@@ -269,12 +269,19 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
             if (W == v)
                 return NOTOK;
 
+            // Parallel edges are not supported, so W must not yet be marked
+            // as having appeared in the adjacency list of v
+            if (gp_GetVertexVisitedInfo(theGraph, W) == -(v + 2))
+                return NOTOK;
+
             // If the adjacency is to a succeeding, higher numbered vertex,
             // then we'll add an undirected edge for now
             else if (v < W)
             {
                 if ((ErrorCode = gp_DynamicAddEdge(theGraph, v, 0, W, 0)) != OK)
                     return ErrorCode;
+
+                gp_SetVertexVisitedInfo(theGraph, W, -(v + 2));
             }
 
             // If the adjacency is to a preceding, lower numbered vertex, then
@@ -284,12 +291,11 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
             {
                 // If the adjacency node (arc) already exists, then we add it
                 // as the new first arc of the vertex and delete it from adjList
-                if (gp_IsArc(gp_GetVertexVisitedInfo(theGraph, W)))
+                if (gp_GetVertexVisitedInfo(theGraph, W) >= gp_GetFirstEdge(theGraph))
                 {
                     e = gp_GetVertexVisitedInfo(theGraph, W);
 
                     // Remove the arc e from the adjList construct
-                    gp_SetVertexVisitedInfo(theGraph, W, NIL);
                     if (adjList == e)
                     {
                         if ((adjList = gp_GetNextArc(theGraph, e)) == e)
@@ -313,6 +319,8 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
                     // Note that this call also sets OUTONLY on the twin arc
                     gp_SetDirection(theGraph, gp_GetFirstArc(theGraph, W), EDGEFLAG_DIRECTION_INONLY);
                 }
+
+                gp_SetVertexVisitedInfo(theGraph, W, -(v + 2));
             }
         }
 
@@ -338,6 +346,9 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
         }
     }
 
+    for (v = gp_GetFirstVertex(theGraph); gp_VertexInRange(theGraph, v); v++)
+        gp_SetVertexVisitedInfo(theGraph, v, NIL);
+
     if (zeroBased)
         theGraph->internalFlags |= FLAGS_ZEROBASEDIO;
 
-- 
2.43.0


From 78dbe8c9eb2bb10a59d80103f9172119738a0ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:55 +0000
Subject: [PATCH 49/82] fix: refuse numbers too large for an int in LEDA input

---
 c/graphLib/io/graphIO.c | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index a0280f5..93af4d9 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -355,6 +355,31 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
     return OK;
 }
 
+/********************************************************************
+ _ParseLEDAInteger()
+ Parses the integer that comes next in the text, after any whitespace.
+ A number that an int cannot represent is not accepted, so that it is
+ not taken for some other number.
+
+ Returns: Pointer to the text after the integer, or NULL on failure
+ ********************************************************************/
+
+static char const *_ParseLEDAInteger(char const *text, int *pValue)
+{
+    char *end = NULL;
+    long value;
+
+    errno = 0;
+    value = strtol(text, &end, 10);
+
+    if (end == text || errno == ERANGE || value < INT_MIN || value > INT_MAX)
+        return NULL;
+
+    *pValue = (int)value;
+
+    return end;
+}
+
 /********************************************************************
  _ReadLEDAGraph()
  Reads the edge list from a LEDA file containing a simple undirected graph.
@@ -368,6 +393,7 @@ int _ReadAdjList(graphP theGraph, FILE *Infile, strBufP inBuf)
 int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
 {
     char Line[256];
+    char const *afterU = NULL;
     int N = -1;
     int M = -1;
     int m, u, v, ErrorCode;
@@ -380,7 +406,8 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
         return NOTOK;
 
     /* Read the number of vertices N, initialize the graph, then skip N. */
-    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &N) != 1)
+    if (fgets(Line, 255, Infile) == NULL ||
+        _ParseLEDAInteger(Line, &N) == NULL)
         return NOTOK;
 
     if (gp_InitGraph(theGraph, N) != OK)
@@ -393,13 +420,16 @@ int _ReadLEDAGraph(graphP theGraph, FILE *Infile)
     }
 
     /* Read the number of edges */
-    if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d", &M) != 1 || M < 0)
+    if (fgets(Line, 255, Infile) == NULL ||
+        _ParseLEDAInteger(Line, &M) == NULL || M < 0)
         return NOTOK;
 
     /* Read and add each edge, omitting loops and parallel edges */
     for (m = 0; m < M; m++)
     {
-        if (fgets(Line, 255, Infile) == NULL || sscanf(Line, " %d %d", &u, &v) != 2 ||
+        if (fgets(Line, 255, Infile) == NULL ||
+            (afterU = _ParseLEDAInteger(Line, &u)) == NULL ||
+            _ParseLEDAInteger(afterU, &v) == NULL ||
             u < 1 || u > N || v < 1 || v > N)
             return NOTOK;
 
-- 
2.43.0


From bb80620a257c70cdf57f089e3f9272cb1c333593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:49 +0000
Subject: [PATCH 50/82] fix: parenthesize the list collection macros so that
 they can be used in expressions

---
 c/graphLib/lowLevelUtils/listcoll.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/graphLib/lowLevelUtils/listcoll.h b/c/graphLib/lowLevelUtils/listcoll.h
index 2e8fec0..ac59ca7 100644
--- a/c/graphLib/lowLevelUtils/listcoll.h
+++ b/c/graphLib/lowLevelUtils/listcoll.h
@@ -58,7 +58,7 @@ int  LCDelete(listCollectionP listColl, int theList, int theNode);
 /* int  LCGetNext(listCollectionP listColl, int theList, int theNode);
 	Return theNode's successor, unless it is theList head pointer */
 
-#define LCGetNext(listColl, theList, theNode) listColl->List[theNode].next==theList ? NIL : listColl->List[theNode].next
+#define LCGetNext(listColl, theList, theNode) (listColl->List[theNode].next==theList ? NIL : listColl->List[theNode].next)
 
 /* int  LCGetPrev(listCollectionP listColl, int theList, int theNode);
 	Return theNode's predecessor unless theNode is theList head.
@@ -106,11 +106,11 @@ int  LCDelete(listCollectionP listColl, int theList, int theNode);
 
 
 #define LCDelete(listColl, theList, theNode) \
-        listColl->List[theList].next == theList \
+        (listColl->List[theList].next == theList \
 	? (listColl->List[theList].prev = listColl->List[theList].next = NIL) \
         : (listColl->List[listColl->List[theNode].prev].next = listColl->List[theNode].next, \
            listColl->List[listColl->List[theNode].next].prev = listColl->List[theNode].prev, \
-	   (theList==theNode ? listColl->List[theNode].next : theList))
+	   (theList==theNode ? listColl->List[theNode].next : theList)))
 
 #endif
 
-- 
2.43.0


From 9684e3f4ea1526106d545c8d9dbd6e479fc61332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:18 +0000
Subject: [PATCH 51/82] fix: sf_fgets does not write before a buffer of no size

---
 c/graphLib/io/strOrFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/graphLib/io/strOrFile.c b/c/graphLib/io/strOrFile.c
index 064ae04..76288c0 100644
--- a/c/graphLib/io/strOrFile.c
+++ b/c/graphLib/io/strOrFile.c
@@ -114,7 +114,7 @@ int sf_ungetc(int theChar, strOrFileP theStrOrFile)
  ********************************************************************/
 char *sf_fgets(char *str, int count, strOrFileP theStrOrFile)
 {
-	if (str == NULL || count < 0 || theStrOrFile == NULL)
+	if (str == NULL || count < 1 || theStrOrFile == NULL)
 		return NULL;
 
 	if (theStrOrFile->pFile != NULL)
-- 
2.43.0


From 0f7873a5406c91ba9d21752342122cf8ede335b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:52 +0000
Subject: [PATCH 52/82] fix: missing command-line arguments are an error, not a
 NONEMBEDDABLE result

---
 c/planarityApp/planarityCommandLine.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 813d1e3..8551ebb 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -605,13 +605,13 @@ int callRandomGraphs(int argc, char *argv[])
 	int offset = 0, NumGraphs, SizeOfGraphs;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
 		Choice = argv[3][1];
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -632,13 +632,13 @@ int callSpecificGraph(int argc, char *argv[])
 	int offset = 0;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
 		Choice = argv[3][1];
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -661,12 +661,12 @@ int callRandomMaxPlanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -689,12 +689,12 @@ int callRandomNonplanarGraph(int argc, char *argv[])
 	char *outfileName = NULL, *outfile2Name = NULL;
 
 	if (argc < 4)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 5)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -720,12 +720,12 @@ int callTransformGraph(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
@@ -756,12 +756,12 @@ int callTestAllGraphs(int argc, char *argv[])
 	char *infileName = NULL, *outfileName = NULL;
 
 	if (argc < 5)
-		return -1;
+		return NOTOK;
 
 	if (argv[2][0] == '-' && argv[2][1] == 'q')
 	{
 		if (argc < 6)
-			return -1;
+			return NOTOK;
 		offset = 1;
 	}
 
-- 
2.43.0


From a3537994e70b718cd9369700f7578539e9053d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:52 +0000
Subject: [PATCH 53/82] fix: free the graph when the legacy command line cannot
 read its input

---
 c/planarityApp/planarityCommandLine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 8551ebb..15697aa 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -107,6 +107,7 @@ int legacyCommandLine(int argc, char *argv[])
 			int charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForFilename, argv[1]);
 			ErrorMessage(messageContents);
+			gp_Free(&theGraph);
 			return -2;
 		}
 	}
-- 
2.43.0


From 81cfcbe78d0f908f41ea1ad9a9fa961f02d2bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:52 +0000
Subject: [PATCH 54/82] fix: the legacy command line reports output that cannot
 be written

---
 c/planarityApp/planarityCommandLine.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 15697aa..51da5ec 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -117,7 +117,8 @@ int legacyCommandLine(int argc, char *argv[])
 	if (Result == OK)
 	{
 		gp_SortVertices(theGraph);
-		gp_Write(theGraph, argv[2], WRITE_ADJLIST);
+		if (gp_Write(theGraph, argv[2], WRITE_ADJLIST) != OK)
+			Result = NOTOK;
 	}
 
 	else if (Result == NONEMBEDDABLE)
@@ -125,7 +126,8 @@ int legacyCommandLine(int argc, char *argv[])
 		if (argc >= 5 && strcmp(argv[3], "-n") == 0)
 		{
 			gp_SortVertices(theGraph);
-			gp_Write(theGraph, argv[4], WRITE_ADJLIST);
+			if (gp_Write(theGraph, argv[4], WRITE_ADJLIST) != OK)
+				Result = NOTOK;
 		}
 	}
 	else
-- 
2.43.0


From 736deac6e8d2ea7fcb5382497f4817bb0333a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:52 +0000
Subject: [PATCH 55/82] fix: bound the file names in the messages of the
 all-graphs test

---
 c/planarityApp/planarityTestAllGraphs.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 07b6361..94fcbf0 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -79,8 +79,8 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 				FILE *infile = fopen(infileName, "r");
 				if (infile == NULL)
 				{
-					charsAvailForFilename = (int)(MAXLINE - strlen(infileName));
 					messageFormat = "Unable to open file \"%.*s\" for input.\n";
+					charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 					sprintf(messageContents, messageFormat, charsAvailForFilename, infileName);
 					ErrorMessage(messageContents);
 
@@ -329,8 +329,8 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 		FILE *outputFileP = fopen(outfileName, "w");
 		if (outputFileP == NULL)
 		{
-			charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 			messageFormat = "Unable to open file \"%.*s\" for output.\n";
+			charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
 			sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
 			ErrorMessage(messageContents);
 		}
@@ -421,9 +421,9 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 
 	if (sf_closeFile(testOutput) != OK)
 	{
-		charsAvailForFilename = (int)(MAXLINE - strlen(outfileName));
 		messageFormat = "Unable to close output file \"%.*s\".\n";
-		sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName);
+		charsAvailForFilename = (int)(MAXLINE - strlen(messageFormat));
+		sprintf(messageContents, messageFormat, charsAvailForFilename, outfileName != NULL ? outfileName : "");
 		ErrorMessage(messageContents);
 		Result = NOTOK;
 	}
-- 
2.43.0


From ffb10d16c4534d7eb22f91859f80945ee783c6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:52 +0000
Subject: [PATCH 56/82] fix: the all-graphs test accepts graphs of one vertex
 for every algorithm

---
 c/planarityApp/planarityTestAllGraphs.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index 94fcbf0..ba49d20 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -174,7 +174,8 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	// We have to set the maximum arc capacity (i.e. (N * (N - 1))) because some of the test files
 	// can contain complete graphs, and the graph drawing, K_{3, 3} search, and K_4 search extensions
 	// don't support expanding the arc capacity after being attached.
-	if (strchr("d34", command) != NULL)
+	// (A graph of one vertex has no edges, so there is no capacity to maximize)
+	if (strchr("d34", command) != NULL && graphOrder > 1)
 	{
 		Result = gp_EnsureArcCapacity(pG6ReadIterator->currGraph, (graphOrder * (graphOrder - 1)));
 		if (Result != OK)
@@ -206,7 +207,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 		return Result;
 	}
 
-	if (strchr("d34", command) != NULL)
+	if (strchr("d34", command) != NULL && graphOrder > 1)
 	{
 		Result = gp_EnsureArcCapacity(copyOfOrigGraph, (graphOrder * (graphOrder - 1)));
 		if (Result != OK)
-- 
2.43.0


From e1183ccff9622fa2d8c65a1d906121deaf92d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:52 +0000
Subject: [PATCH 57/82] fix: free the graph when the transformation format is
 invalid

---
 c/planarityApp/planarityTransformGraph.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planarityTransformGraph.c b/c/planarityApp/planarityTransformGraph.c
index 24923f9..cf6a6da 100644
--- a/c/planarityApp/planarityTransformGraph.c
+++ b/c/planarityApp/planarityTransformGraph.c
@@ -42,6 +42,7 @@ int TransformGraph(char *commandString, char *infileName, char *inputStr, int *o
 		else
 		{
 			ErrorMessage("Invalid argument; only -(gam) is allowed.\n");
+			gp_Free(&theGraph);
 			return NOTOK;
 		}
 
-- 
2.43.0


From 93a0ecd6507695f5746613405498131efb8bb12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:20 +0000
Subject: [PATCH 58/82] fix: free all graphs when a random graph cannot be made

---
 c/planarityApp/planarityRandomGraphs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index ae028f1..de95dd3 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -48,6 +48,7 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	if (theGraph == NULL || origGraph == NULL)
 	{
 		gp_Free(&theGraph);
+		gp_Free(&origGraph);
 		return NOTOK;
 	}
 
@@ -385,6 +386,7 @@ char saveEdgeListFormat;
 	if (gp_CreateRandomGraphEx(theGraph, 3*numVertices-6+extraEdges) != OK)
 	{
 		ErrorMessage("gp_CreateRandomGraphEx() failed\n");
+		gp_Free(&theGraph);
 		return NOTOK;
 	}
 	platform_GetTime(end);
-- 
2.43.0


From 696940e1c5cb55a2eca81cc69724d0572c22317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:20 +0000
Subject: [PATCH 59/82] fix: the random graph commands report output that
 cannot be written

---
 c/planarityApp/planarityRandomGraphs.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index de95dd3..6248b99 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -366,6 +366,7 @@ void ReinitializeGraph(graphP *pGraph, int ReuseGraphs, char command)
 int RandomGraph(char command, int extraEdges, int numVertices, char *outfileName, char *outfile2Name)
 {
 int  Result;
+int  writeResult = OK;
 platform_time start, end;
 graphP theGraph=NULL, origGraph;
 int embedFlags = GetEmbedFlags(command);
@@ -398,7 +399,7 @@ char saveEdgeListFormat;
 	// The user may have requested a copy of the random graph before processing
 	if (outfile2Name != NULL)
 	{
-		gp_Write(theGraph, outfile2Name, WRITE_ADJLIST);
+		writeResult = gp_Write(theGraph, outfile2Name, WRITE_ADJLIST);
 	}
 
 	origGraph = gp_DupGraph(theGraph);
@@ -428,8 +429,8 @@ char saveEdgeListFormat;
 	// user wants the edge list formatted file.
 	if (Result == OK || Result == NONEMBEDDABLE)
 	{
-		if (outfileName != NULL)
-			gp_Write(theGraph, outfileName, WRITE_ADJLIST);
+		if (outfileName != NULL && gp_Write(theGraph, outfileName, WRITE_ADJLIST) != OK)
+			writeResult = NOTOK;
 
 		if (!getQuietModeSetting())
 		{
@@ -465,6 +466,13 @@ char saveEdgeListFormat;
 	}
 	else ErrorMessage("Failure occurred");
 
+	// The result is not available to the user if the requested output was not written
+	if (writeResult != OK)
+	{
+		ErrorMessage("Failed to write the requested output\n");
+		Result = NOTOK;
+	}
+
 	gp_Free(&theGraph);
 	gp_Free(&origGraph);
 
-- 
2.43.0


From ffed6035394776eccbb6969ab0b8d3140337461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:20 +0000
Subject: [PATCH 60/82] fix: the random graphs command refuses an unsupported
 algorithm

---
 c/planarityApp/planarityRandomGraphs.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 6248b99..75ef3ae 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -43,6 +43,12 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	GetNumberIfZero(&NumGraphs, "Enter number of graphs to generate:", 1, 1000000000);
 	GetNumberIfZero(&SizeOfGraphs, "Enter size of graphs:", 1, 10000);
 
+	if (command == '\0' || !strchr(GetAlgorithmChoices(), command))
+	{
+		ErrorMessage("Unsupported algorithm for random graphs.\n");
+		return NOTOK;
+	}
+
 	theGraph = MakeGraph(SizeOfGraphs, command);
 	origGraph = MakeGraph(SizeOfGraphs, command);
 	if (theGraph == NULL || origGraph == NULL)
-- 
2.43.0


From 52a0d9ae4b91eee9783d6a6d5d89e124a4df2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:20 +0000
Subject: [PATCH 61/82] fix: bound the file name read from the console, and
 notice its absence

---
 c/planarityApp/planarityUtils.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 308f96f..3e14260 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -518,7 +518,13 @@ char *ConstructInputFilename(char *infileName)
 	{
 		Prompt("Enter graph file name: ");
 		fflush(stdin);
-		scanf(" %s", theFileName);
+
+		// The width limit is FILENAMEMAXLENGTH
+		if (scanf(" %128s", theFileName) != 1)
+		{
+			ErrorMessage("No filename given");
+			return NULL;
+		}
 
 		if (!strchr(theFileName, '.'))
 			strcat(theFileName, ".txt");
-- 
2.43.0


From 4da5c783c0bed957d01461e843d4d3ed54f245ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:20 +0000
Subject: [PATCH 62/82] fix: the menu ends at the end of its input instead of
 repeating forever

---
 c/planarityApp/planarityMenu.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 83eff4f..d65b367 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -32,7 +32,10 @@ int menu(void)
 
         Prompt("Enter Choice: ");
         fflush(stdin);
-        scanf(" %c", &Choice);
+
+        // There are no more choices at the end of the input
+        if (scanf(" %c", &Choice) != 1)
+            Choice = 'q';
         Choice = tolower(Choice);
 
         if (Choice == 'h')
@@ -113,7 +116,8 @@ void TransformGraphMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+            return;
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -126,7 +130,8 @@ void TransformGraphMenu(void)
 
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
-    fgets(outfileName, MAXLINE, stdin);
+    if (fgets(outfileName, MAXLINE, stdin) == NULL)
+        return;
     outfileName[strcspn(outfileName, "\n\r")] = '\0';
 
     do
@@ -134,7 +139,8 @@ void TransformGraphMenu(void)
         Message(GetSupportedOutputChoices());
         Prompt("Enter output format: ");
         fflush(stdin);
-        scanf(" %c", &outputFormat);
+        if (scanf(" %c", &outputFormat) != 1)
+            return;
         outputFormat = tolower(outputFormat);
         if (strchr(GetSupportedOutputFormats(), outputFormat))
             sprintf(commandStr, "-%c", outputFormat);
@@ -183,7 +189,8 @@ void TestAllGraphsMenu(void)
     {
         Prompt("Enter input filename:\n");
         fflush(stdin);
-        fgets(infileName, MAXLINE, stdin);
+        if (fgets(infileName, MAXLINE, stdin) == NULL)
+            return;
 
         if (strncmp(infileName, "stdin", 5) == 0)
         {
@@ -196,7 +203,8 @@ void TestAllGraphsMenu(void)
 
     Prompt("Enter output filename, or press return to output to console:\n");
     fflush(stdin);
-    fgets(outfileName, MAXLINE, stdin);
+    if (fgets(outfileName, MAXLINE, stdin) == NULL)
+        return;
     outfileName[strcspn(outfileName, "\n\r")] = '\0';
 
     do
@@ -205,7 +213,8 @@ void TestAllGraphsMenu(void)
 
         Prompt("Enter algorithm specifier: ");
         fflush(stdin);
-        scanf(" %c", &algorithmSpecifier);
+        if (scanf(" %c", &algorithmSpecifier) != 1)
+            return;
         algorithmSpecifier = tolower(algorithmSpecifier);
         if (strchr(GetAlgorithmChoices(), algorithmSpecifier))
             sprintf(commandStr, "-%c", algorithmSpecifier);
-- 
2.43.0


From fedd6629458ee9456ba84a259754b27e6d3586c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:20 +0000
Subject: [PATCH 63/82] fix: the transform and test menus read the file names
 they ask for

---
 c/planarityApp/planarityMenu.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index d65b367..41ca2ea 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -11,6 +11,7 @@ See the LICENSE.TXT file for licensing information.
  ****************************************************************************/
 void TransformGraphMenu(void);
 void TestAllGraphsMenu(void);
+void DiscardRestOfLine(void);
 
 int menu(void)
 {
@@ -99,6 +100,18 @@ int menu(void)
     return 0;
 }
 
+/****************************************************************************
+ Discards what follows a menu choice on its line (at least the line end), so
+ that a subsequent fgets() gets the next line. Flushing stdin does not do that.
+ ****************************************************************************/
+void DiscardRestOfLine(void)
+{
+    int c;
+
+    while ((c = getc(stdin)) != EOF && c != '\n')
+        ;
+}
+
 void TransformGraphMenu(void)
 {
     int Result = OK;
@@ -112,6 +125,8 @@ void TransformGraphMenu(void)
     char commandStr[4];
     commandStr[0] = '\0';
 
+    DiscardRestOfLine();
+
     do
     {
         Prompt("Enter input filename:\n");
@@ -185,6 +200,8 @@ void TestAllGraphsMenu(void)
     char commandStr[3];
     commandStr[0] = '\0';
 
+    DiscardRestOfLine();
+
     do
     {
         Prompt("Enter input filename:\n");
-- 
2.43.0


From 1df67abbe423d98b6c4e60922139f8180268fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:20 +0000
Subject: [PATCH 64/82] fix: free the result string of the test menu

---
 c/planarityApp/planarityMenu.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/planarityApp/planarityMenu.c b/c/planarityApp/planarityMenu.c
index 41ca2ea..bbcf906 100644
--- a/c/planarityApp/planarityMenu.c
+++ b/c/planarityApp/planarityMenu.c
@@ -255,4 +255,10 @@ void TestAllGraphsMenu(void)
         if (Result != OK)
             ErrorMessage("Algorithm test on all graphs in .g6 input file failed.\n");
     }
+
+    if (outputStr != NULL)
+    {
+        free(outputStr);
+        outputStr = NULL;
+    }
 }
-- 
2.43.0


From 631dfd48b0a47410e03095bff707aa3f27991b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:18 +0000
Subject: [PATCH 65/82] fix: no answer means not to save the random graph in
 edge list format

---
 c/planarityApp/planarityRandomGraphs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 75ef3ae..fa876d3 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -442,7 +442,8 @@ char saveEdgeListFormat;
 		{
 			Prompt("Do you want to save the generated graph in edge list format (y/n)? ");
 			fflush(stdin);
-			scanf(" %c", &saveEdgeListFormat);
+			if (scanf(" %c", &saveEdgeListFormat) != 1)
+				saveEdgeListFormat = 'n';
 		}
 		else
 			saveEdgeListFormat = 'n';
-- 
2.43.0


From de2d85b5e1073eb68ba46ae590a085e263e22dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 66/82] fix: the all-graphs test does not return a freed result
 string

---
 c/planarityApp/planarityTestAllGraphs.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index ba49d20..e22ce9e 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -408,11 +408,9 @@ int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileNa
 		}
 	}
 
-	if (Result == OK)
-	{
-		if (outputStr != NULL)
-			(*outputStr) = sf_takeTheStr(testOutput);
-	}
+	// The string-or-file container owns the string, including when it could not be extended
+	if (outputStr != NULL)
+		(*outputStr) = Result == OK ? sf_takeTheStr(testOutput) : NULL;
 
 	free(headerStr);
 	headerStr = NULL;
-- 
2.43.0


From a043e754696efcf023a192b4dd9670315c5a0809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 67/82] fix: the all-graphs test frees the iterator and closes
 the file on every error

---
 c/planarityApp/planarityTestAllGraphs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index e22ce9e..a7837e4 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -156,6 +156,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	if (Result != OK)
 	{
 		ErrorMessage("Unable to allocate G6ReadIterator.\n");
+		fclose(infile);
 		stats->errorFlag = TRUE;
 		return Result;
 	}
@@ -193,6 +194,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	if (copyOfOrigGraph == NULL)
 	{
 		ErrorMessage("Unable to allocate graph to store copy of original graph before embedding.\n");
+		freeG6ReadIterator(&pG6ReadIterator);
 		stats->errorFlag = TRUE;
 		return NOTOK;
 	}
-- 
2.43.0


From 049c8acf2c5634299cad8d12e48a9d444655dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 68/82] fix: report algorithms that cannot be attached instead
 of running without them

---
 c/planarityApp/planarity.h              |  2 +-
 c/planarityApp/planarityRandomGraphs.c  | 17 +++++++++++++----
 c/planarityApp/planaritySpecificGraph.c | 11 ++++++-----
 c/planarityApp/planarityTestAllGraphs.c |  9 ++++++++-
 c/planarityApp/planarityUtils.c         | 14 +++++++++-----
 5 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/c/planarityApp/planarity.h b/c/planarityApp/planarity.h
index 1b22d13..f3612f5 100644
--- a/c/planarityApp/planarity.h
+++ b/c/planarityApp/planarity.h
@@ -61,7 +61,7 @@ extern "C"
     char *GetAlgorithmName(char command);
     char *GetTransformationName(char command);
     char *GetBaseName(int baseFlag);
-    void AttachAlgorithm(graphP theGraph, char command);
+    int AttachAlgorithm(graphP theGraph, char command);
 
     char *ConstructInputFilename(char *infileName);
     char *ConstructPrimaryOutputFilename(char *infileName, char *outfileName, char command);
diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index fa876d3..dfc0b69 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -324,6 +324,8 @@ void GetNumberIfZero(int *pNum, char *prompt, int min, int max)
 graphP MakeGraph(int Size, char command)
 {
 	graphP theGraph;
+	int Result = OK;
+
 	if ((theGraph = gp_New()) == NULL || gp_InitGraph(theGraph, Size) != OK)
 	{
 		ErrorMessage("Error creating space for a graph of the given size.\n");
@@ -338,10 +340,17 @@ graphP MakeGraph(int Size, char command)
 
 	switch (command)
 	{
-		case 'd' : gp_AttachDrawPlanar(theGraph); break;
-		case '2' : gp_AttachK23Search(theGraph); break;
-		case '3' : gp_AttachK33Search(theGraph); break;
-		case '4' : gp_AttachK4Search(theGraph); break;
+		case 'd' : Result = gp_AttachDrawPlanar(theGraph); break;
+		case '2' : Result = gp_AttachK23Search(theGraph); break;
+		case '3' : Result = gp_AttachK33Search(theGraph); break;
+		case '4' : Result = gp_AttachK4Search(theGraph); break;
+	}
+
+	if (Result != OK)
+	{
+		ErrorMessage("Error attaching the algorithm to the graph.\n");
+		gp_Free(&theGraph);
+		return NULL;
 	}
 
 	return theGraph;
diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index 64f7279..1b5eaf7 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -76,10 +76,10 @@ int Result = OK;
         {
 			switch (command)
 			{
-				case 'd' : gp_AttachDrawPlanar(theGraph); break;
-				case '2' : gp_AttachK23Search(theGraph); break;
-				case '3' : gp_AttachK33Search(theGraph); break;
-				case '4' : gp_AttachK4Search(theGraph); break;
+				case 'd' : Result = gp_AttachDrawPlanar(theGraph); break;
+				case '2' : Result = gp_AttachK23Search(theGraph); break;
+				case '3' : Result = gp_AttachK33Search(theGraph); break;
+				case '4' : Result = gp_AttachK4Search(theGraph); break;
 			}
 
     		int embedFlags = GetEmbedFlags(command);
@@ -90,7 +90,8 @@ int Result = OK;
 //			gp_Write(theGraph, "debug.before.txt", WRITE_DEBUGINFO);
 //	        gp_SortVertices(theGraph);
 
-			Result = gp_Embed(theGraph, embedFlags);
+			if (Result == OK)
+				Result = gp_Embed(theGraph, embedFlags);
 	        platform_GetTime(end);
 	        Result = gp_TestEmbedResultIntegrity(theGraph, origGraph, Result);
         }
diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index a7837e4..ed1c5c1 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -188,7 +188,14 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 		}
 	}
 
-	AttachAlgorithm(pG6ReadIterator->currGraph, command);
+	Result = AttachAlgorithm(pG6ReadIterator->currGraph, command);
+	if (Result != OK)
+	{
+		ErrorMessage("Unable to attach the algorithm to G6ReadIterator's graph struct.\n");
+		freeG6ReadIterator(&pG6ReadIterator);
+		stats->errorFlag = TRUE;
+		return Result;
+	}
 
 	copyOfOrigGraph = gp_New();
 	if (copyOfOrigGraph == NULL)
diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index 3e14260..c4f09ae 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -473,23 +473,27 @@ char *GetBaseName(int baseFlag)
 /****************************************************************************
  ****************************************************************************/
 
-void AttachAlgorithm(graphP theGraph, char command)
+int AttachAlgorithm(graphP theGraph, char command)
 {
+	int Result = OK;
+
 	switch (command)
 	{
 	case 'd':
-		gp_AttachDrawPlanar(theGraph);
+		Result = gp_AttachDrawPlanar(theGraph);
 		break;
 	case '2':
-		gp_AttachK23Search(theGraph);
+		Result = gp_AttachK23Search(theGraph);
 		break;
 	case '3':
-		gp_AttachK33Search(theGraph);
+		Result = gp_AttachK33Search(theGraph);
 		break;
 	case '4':
-		gp_AttachK4Search(theGraph);
+		Result = gp_AttachK4Search(theGraph);
 		break;
 	}
+
+	return Result;
 }
 
 /****************************************************************************
-- 
2.43.0


From 90da1d86a3ab9390360cc3b254fd17a140fcb157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 69/82] fix: an error is not reported as a negative result of
 the algorithm

---
 c/planarityApp/planaritySpecificGraph.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index 1b5eaf7..32232e7 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -219,7 +219,9 @@ void WriteAlgorithmResults(graphP theGraph, int Result, char command, platform_t
 	else sprintf(messageContents, "The graph ");
 	Message(messageContents);
 
-	switch (command)
+	if (Result != OK && Result != NONEMBEDDABLE)
+		sprintf(messageContents, "has not been processed due to an error.\n");
+	else switch (command)
 	{
 		case 'p' : sprintf(messageContents, "is%s planar.\n", Result==OK ? "" : " not"); break;
 		case 'd' : sprintf(messageContents, "is%s planar.\n", Result==OK ? "" : " not"); break;
-- 
2.43.0


From 79d31a41a856b999f9101a8659588d625cf9be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:46 +0000
Subject: [PATCH 70/82] fix: do not write the undefined result of a random
 graph search that found nothing

---
 c/planarityApp/planarityRandomGraphs.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index dfc0b69..44ef3be 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -116,7 +116,8 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 					if (tolower(EmbeddableOut) == 'y')
 					{
 						sprintf(theFileName, "embedded%c%d.txt", FILE_DELIMITER, K%10);
-						writeResult = gp_Write(theGraph, theFileName, WRITE_ADJMATRIX);
+						// The searches produce no embedding, and leave theGraph undefined
+						writeResult = gp_Write(strchr("pdo", command) ? theGraph : origGraph, theFileName, WRITE_ADJMATRIX);
 						if (writeResult != OK && !writeErrorReported_Embedded)
 						{
 							sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
@@ -125,7 +126,7 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 						}
 					}
 
-					if (tolower(AdjListsForEmbeddingsOut) == 'y')
+					if (tolower(AdjListsForEmbeddingsOut) == 'y' && strchr("pdo", command))
 					{
 						sprintf(theFileName, "adjlist%c%d.txt", FILE_DELIMITER, K%10);
 						writeResult = gp_Write(theGraph, theFileName, WRITE_ADJLIST);
-- 
2.43.0


From eb2f0b207c4caef6eaae3127044380f69340f13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:12 +0000
Subject: [PATCH 71/82] fix: a missing algorithm letter is an error, not
 planarity

---
 c/planarityApp/planarityCommandLine.c   | 4 ++--
 c/planarityApp/planaritySpecificGraph.c | 2 +-
 c/planarityApp/planarityTestAllGraphs.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index 51da5ec..f507516 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -612,7 +612,7 @@ int callRandomGraphs(int argc, char *argv[])
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
-		Choice = argv[3][1];
+		Choice = argv[3][0] == '-' ? argv[3][1] : '\0';
 		if (argc < 6)
 			return NOTOK;
 		offset = 1;
@@ -639,7 +639,7 @@ int callSpecificGraph(int argc, char *argv[])
 
 	if (argv[2][0] == '-' && (Choice = argv[2][1]) == 'q')
 	{
-		Choice = argv[3][1];
+		Choice = argv[3][0] == '-' ? argv[3][1] : '\0';
 		if (argc < 6)
 			return NOTOK;
 		offset = 1;
diff --git a/c/planarityApp/planaritySpecificGraph.c b/c/planarityApp/planaritySpecificGraph.c
index 32232e7..9c3ced1 100644
--- a/c/planarityApp/planaritySpecificGraph.c
+++ b/c/planarityApp/planaritySpecificGraph.c
@@ -72,7 +72,7 @@ int Result = OK;
 		origGraph = gp_DupGraph(theGraph);
 
         // Run the algorithm
-        if (strchr(GetAlgorithmChoices(), command))
+        if (command != '\0' && strchr(GetAlgorithmChoices(), command))
         {
 			switch (command)
 			{
diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index ed1c5c1..f235a87 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -59,7 +59,7 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 
 	if (commandString[0] == '-')
 	{
-		if (strchr(GetAlgorithmChoices(), commandString[1]))
+		if (commandString[1] != '\0' && strchr(GetAlgorithmChoices(), commandString[1]))
 		{
 			if (infileName == NULL)
 			{
-- 
2.43.0


From 23ce473411ed5a0fe98459e6e72c3f0119d4e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:27 +0000
Subject: [PATCH 72/82] fix: the random graphs command counts silently in quiet
 mode

---
 c/planarityApp/planarityRandomGraphs.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 44ef3be..2ea7572 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -75,8 +75,11 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	countUpdateFreq = countUpdateFreq % 5 == 0 ? countUpdateFreq+2 : countUpdateFreq;
 
 	// Start the count
-	fprintf(stdout, "0\r");
-	fflush(stdout);
+	if (!getQuietModeSetting())
+	{
+		fprintf(stdout, "0\r");
+		fflush(stdout);
+	}
 
 	// Start the timer
 	platform_GetTime(start);
@@ -215,8 +218,11 @@ int writeErrorReported_Random=FALSE, writeErrorReported_Embedded=FALSE,
 	platform_GetTime(end);
 
 	// Finish the count
-	fprintf(stdout, "%d\n", NumGraphs);
-	fflush(stdout);
+	if (!getQuietModeSetting())
+	{
+		fprintf(stdout, "%d\n", NumGraphs);
+		fflush(stdout);
+	}
 
 	// Free the graph structures created before the loop
 	gp_Free(&theGraph);
-- 
2.43.0


From 8acb425f3577c6a50bb164aa3cf52b85b35e7947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:22 +0000
Subject: [PATCH 73/82] fix: do not save the undefined result of a random graph
 as an edge list

---
 c/planarityApp/planarityRandomGraphs.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/c/planarityApp/planarityRandomGraphs.c b/c/planarityApp/planarityRandomGraphs.c
index 2ea7572..d984957 100644
--- a/c/planarityApp/planarityRandomGraphs.c
+++ b/c/planarityApp/planarityRandomGraphs.c
@@ -479,12 +479,16 @@ char saveEdgeListFormat;
 			Message(messageContents);
 			SaveAsciiGraph(origGraph, theFileName);
 
-			strcat(theFileName, ".out.txt");
-			messageFormat =  "Saving edge list format of result to \"%.*s\"\n";
-			charsAvailForStr = (int) (MAXLINE - strlen(messageFormat));
-			sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
-			Message(messageContents);
-			SaveAsciiGraph(theGraph, theFileName);
+			// A search that finds nothing, and drawing a non-planar graph, leave theGraph undefined
+			if (Result == OK ? strchr("pdo", command) != NULL : command != 'd')
+			{
+				strcat(theFileName, ".out.txt");
+				messageFormat =  "Saving edge list format of result to \"%.*s\"\n";
+				charsAvailForStr = (int) (MAXLINE - strlen(messageFormat));
+				sprintf(messageContents, messageFormat, charsAvailForStr, theFileName);
+				Message(messageContents);
+				SaveAsciiGraph(theGraph, theFileName);
+			}
 		}
 	}
 	else ErrorMessage("Failure occurred");
-- 
2.43.0


From a2d1484b57ab01b2c9eaa70f22526fadfe8b2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:23 +0000
Subject: [PATCH 74/82] fix: the self test compares no result, and null
 characters in a file, safely

---
 c/planarityApp/planarityUtils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityUtils.c b/c/planarityApp/planarityUtils.c
index c4f09ae..0529136 100644
--- a/c/planarityApp/planarityUtils.c
+++ b/c/planarityApp/planarityUtils.c
@@ -168,7 +168,7 @@ int TextFileMatchesString(char *theFilename, char *theString)
 	if (theFilename != NULL)
 		infile = fopen(theFilename, "r");
 
-	if (infile == NULL)
+	if (infile == NULL || theString == NULL)
 		Result = FALSE;
 	else
 	{
@@ -189,7 +189,8 @@ int TextFileMatchesString(char *theFilename, char *theString)
 
 			// If c1 doesn't equal c2 (whether c2 is a null terminator or a different character)
 			// then the file content doesn't match the string
-			if (c1 != c2)
+			// (nor does it if c1 is a null character, since the string has no such content)
+			if (c1 != c2 || c2 == '\0')
 			{
 				Result = FALSE;
 				break;
-- 
2.43.0


From bd4ea5c55ddf2bac9d0abe3c0c78bd7b5eac7262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:23 +0000
Subject: [PATCH 75/82] fix: the self test frees the results of transformations
 and fails when there is none

---
 c/planarityApp/planarityCommandLine.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/planarityApp/planarityCommandLine.c b/c/planarityApp/planarityCommandLine.c
index f507516..c11b283 100644
--- a/c/planarityApp/planarityCommandLine.c
+++ b/c/planarityApp/planarityCommandLine.c
@@ -549,6 +549,7 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 		if (Result != OK || actualOutput == NULL)
 		{
 			ErrorMessage("Failed to perform transformation.\n");
+			Result = NOTOK;
 		}
 		else
 		{
@@ -559,6 +560,7 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 			if (Result != OK || expectedOutfileName == NULL)
 			{
 				ErrorMessage("Unable to construct output filename for expected transformation output.\n");
+				free(actualOutput);
 				return -1;
 			}
 
@@ -590,6 +592,9 @@ int runGraphTransformationTest(char *command, char *infileName, int inputInMemFl
 				expectedOutfileName = NULL;
 			}
 		}
+
+		if (actualOutput != NULL)
+			free(actualOutput);
 	}
 
 	Message("\n");
-- 
2.43.0


From c0753c9fe06f2a4b38cb6f240de190edec9310ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:29 +0000
Subject: [PATCH 76/82] fix: an empty input string of a transformation is
 released

---
 c/planarityApp/planarityTransformGraph.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/planarityApp/planarityTransformGraph.c b/c/planarityApp/planarityTransformGraph.c
index cf6a6da..f76faa0 100644
--- a/c/planarityApp/planarityTransformGraph.c
+++ b/c/planarityApp/planarityTransformGraph.c
@@ -97,6 +97,7 @@ int transformString(graphP theGraph, char *inputStr)
 	if (inputStr == NULL || strlen(inputStr) == 0)
 	{
 		ErrorMessage("Input string is null or empty.\n");
+		free(inputStr);
 		return NOTOK;
 	}
 
-- 
2.43.0


From 74362cffc92cfe6a7fe1ed767f69feff519b37ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:13 +0000
Subject: [PATCH 77/82] fix: the all-graphs test computes the maximum arc
 capacity without overflow

---
 c/planarityApp/planarityTestAllGraphs.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/c/planarityApp/planarityTestAllGraphs.c b/c/planarityApp/planarityTestAllGraphs.c
index f235a87..43f9ab5 100644
--- a/c/planarityApp/planarityTestAllGraphs.c
+++ b/c/planarityApp/planarityTestAllGraphs.c
@@ -4,6 +4,8 @@ All rights reserved.
 See the LICENSE.TXT file for licensing information.
 */
 
+#include <limits.h>
+
 #include "planarity.h"
 #include "../graphLib/graph.h"
 #include "../graphLib/lowLevelUtils/platformTime.h"
@@ -21,6 +23,7 @@ typedef struct
 
 typedef testAllStats *testAllStatsP;
 
+int ensureMaximumArcCapacity(graphP theGraph, int graphOrder);
 int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP stats);
 int outputTestAllGraphsResults(char command, testAllStatsP stats, char *infileName, char *outfileName, char **outputStr);
 
@@ -138,6 +141,17 @@ int TestAllGraphs(char *commandString, char *infileName, char *outfileName, char
 	return Result;
 }
 
+// The arc capacity of a complete graph, which an int can only represent up to a certain order
+int ensureMaximumArcCapacity(graphP theGraph, int graphOrder)
+{
+	long long maximumArcCapacity = (long long)graphOrder * (graphOrder - 1);
+
+	if (maximumArcCapacity > INT_MAX)
+		return NOTOK;
+
+	return gp_EnsureArcCapacity(theGraph, (int)maximumArcCapacity);
+}
+
 int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP stats)
 {
 	int Result = OK;
@@ -178,7 +192,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 	// (A graph of one vertex has no edges, so there is no capacity to maximize)
 	if (strchr("d34", command) != NULL && graphOrder > 1)
 	{
-		Result = gp_EnsureArcCapacity(pG6ReadIterator->currGraph, (graphOrder * (graphOrder - 1)));
+		Result = ensureMaximumArcCapacity(pG6ReadIterator->currGraph, graphOrder);
 		if (Result != OK)
 		{
 			ErrorMessage("Unable to maximize arc capacity of G6ReadIterator's graph struct.\n");
@@ -218,7 +232,7 @@ int testAllGraphs(graphP theGraph, char command, FILE *infile, testAllStatsP sta
 
 	if (strchr("d34", command) != NULL && graphOrder > 1)
 	{
-		Result = gp_EnsureArcCapacity(copyOfOrigGraph, (graphOrder * (graphOrder - 1)));
+		Result = ensureMaximumArcCapacity(copyOfOrigGraph, graphOrder);
 		if (Result != OK)
 		{
 			ErrorMessage("Unable to maximize arc capacity of graph struct to contain copy of original graph.\n");
-- 
2.43.0


From 9657ab5e4ce5615ae983ca7d21ad138299b11479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:18 +0000
Subject: [PATCH 78/82] fix: gp_Write reports output that could not be
 transferred

---
 c/graphLib/io/graphIO.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 93af4d9..913cdc4 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -1011,8 +1011,15 @@ int gp_Write(graphP theGraph, char *FileName, int Mode)
         }
     }
 
+    // An earlier failure to transfer part of the output is reported, too
+    if (Outfile != NULL && ferror(Outfile))
+        RetVal = NOTOK;
+
     if (Outfile != NULL && (strcmp(FileName, "stdout") == 0 || strcmp(FileName, "stderr") == 0))
-        fflush(Outfile);
+    {
+        if (fflush(Outfile) != 0)
+            RetVal = NOTOK;
+    }
 
     else if (Outfile != NULL && fclose(Outfile) != 0)
         RetVal = NOTOK;
-- 
2.43.0


From e54bd0249c961ed6cfdd8bd175f4705312181fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:18 +0000
Subject: [PATCH 79/82] fix: gp_DrawPlanar_RenderToFile reports output that
 could not be transferred

---
 c/graphLib/planarityRelated/graphDrawPlanar.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/c/graphLib/planarityRelated/graphDrawPlanar.c b/c/graphLib/planarityRelated/graphDrawPlanar.c
index ec1e95b..5fd54ea 100644
--- a/c/graphLib/planarityRelated/graphDrawPlanar.c
+++ b/c/graphLib/planarityRelated/graphDrawPlanar.c
@@ -913,6 +913,7 @@ int gp_DrawPlanar_RenderToFile(graphP theEmbedding, char *theFileName)
     {
         FILE *outfile;
         char *theRendition;
+        int RetVal = OK;
 
         // Don't touch the output file if there is no rendition
         theRendition = _RenderToString(theEmbedding);
@@ -932,16 +933,20 @@ int gp_DrawPlanar_RenderToFile(graphP theEmbedding, char *theFileName)
             return NOTOK;
         }
 
-        fputs(theRendition, outfile);
+        if (fputs(theRendition, outfile) < 0)
+            RetVal = NOTOK;
         free(theRendition);
 
         if (strcmp(theFileName, "stdout") == 0 || strcmp(theFileName, "stderr") == 0)
-            fflush(outfile);
+        {
+            if (fflush(outfile) != 0)
+                RetVal = NOTOK;
+        }
 
         else if (fclose(outfile) != 0)
-            return NOTOK;
+            RetVal = NOTOK;
 
-        return OK;
+        return RetVal;
     }
 
     return NOTOK;
-- 
2.43.0


From e637d76e09eee9f7e0b51c9aa64cc70947402687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:18 +0000
Subject: [PATCH 80/82] fix: gp_Read reports input that could not be read

---
 c/graphLib/io/graphIO.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/graphLib/io/graphIO.c b/c/graphLib/io/graphIO.c
index 913cdc4..3fa503d 100644
--- a/c/graphLib/io/graphIO.c
+++ b/c/graphLib/io/graphIO.c
@@ -552,6 +552,10 @@ int gp_Read(graphP theGraph, char *FileName)
         }
     }
 
+    // If the input could not be read completely, then what was read is not the graph
+    if (Infile != NULL && ferror(Infile))
+        RetVal = NOTOK;
+
     if (strcmp(FileName, "stdin") != 0 && Infile != NULL)
         fclose(Infile);
 
-- 
2.43.0


From b08b70040809132d0304f6c4ff4ba195952c223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:18 +0000
Subject: [PATCH 81/82] fix: the graph6 reader does not take a read failure for
 the end of the input

---
 c/graphLib/io/g6-read-iterator.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/graphLib/io/g6-read-iterator.c b/c/graphLib/io/g6-read-iterator.c
index e059b2f..bed7a95 100644
--- a/c/graphLib/io/g6-read-iterator.c
+++ b/c/graphLib/io/g6-read-iterator.c
@@ -451,6 +451,13 @@ int readGraphUsingG6ReadIterator(G6ReadIterator *pG6ReadIterator)
 	char *graphEncodingChars = NULL;
 	bool lineWasRead = sf_fgets(currGraphBuff, currGraphBuffSize, g6Input) != NULL;
 
+	// A failure to read the input is not the end of the input
+	if (g6Input->pFile != NULL && ferror(g6Input->pFile))
+	{
+		ErrorMessage("Unable to read from .g6 input.\n");
+		return NOTOK;
+	}
+
 	// The order of the first graph has been read already, so the first graph exists. If nothing
 	// follows its order, then its encoding is missing unless the graph has only one vertex.
 	if (!lineWasRead && numGraphsRead == 0)
-- 
2.43.0


From c820bcf888a10c3def4be10669c460fb6c7bb6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:50 +0000
Subject: [PATCH 82/82] fix: K3,3 search with a merge blocker repeats the
 Walkup on restored external faces

---
 c/graphLib/homeomorphSearch/graphK33Search.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/c/graphLib/homeomorphSearch/graphK33Search.c b/c/graphLib/homeomorphSearch/graphK33Search.c
index d37da67..239edf1 100644
--- a/c/graphLib/homeomorphSearch/graphK33Search.c
+++ b/c/graphLib/homeomorphSearch/graphK33Search.c
@@ -839,6 +839,19 @@ int _FindK33WithMergeBlocker(graphP theGraph, K33SearchContext *context, int v,
         gp_SetVertexFuturePertinentChild(theGraph, v, gp_GetVertexSortedDFSChildList(theGraph, v));
     }
 
+    /* The Walkup traverses the external face links, whose short-circuits may bypass
+       vertices of the restored paths, so the links are reset to the external faces
+       of the bicomps. */
+
+    for (v = gp_GetFirstVertex(theGraph); v < gp_VertexIndexBound(theGraph); v++)
+    {
+        if (gp_IsArc(gp_GetFirstArc(theGraph, v)))
+        {
+            gp_SetExtFaceVertex(theGraph, v, 0, gp_GetNeighbor(theGraph, gp_GetFirstArc(theGraph, v)));
+            gp_SetExtFaceVertex(theGraph, v, 1, gp_GetNeighbor(theGraph, gp_GetLastArc(theGraph, v)));
+        }
+    }
+
     /* Restore the pertinence settings of step v by doing the Walkup for each
        back edge that was not embedded when step v was originally performed. */
 
-- 
2.43.0

