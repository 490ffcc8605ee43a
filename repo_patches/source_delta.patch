From bf2789896f31c8cb7eeeca70b7d4f12a556faf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 01/55] fix: release the partly built network when an input
 line is malformed

---
 src/bipartite.c | 10 ++++++++++
 src/graph.c     |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/bipartite.c b/src/bipartite.c
index 8323fe4..beadcdc 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -77,6 +77,11 @@ FBuildNetworkBipart(FILE *inFile,
       noReadItems = sscanf(line, "%s %s", label1, label2);
 	  if(noReadItems != 2){
 		printf ("Failed to read input: not enough fields in line %s (%d!=2). \n",line, noReadItems);
+		free(line);
+		FreeLabelDict(dict1);
+		FreeLabelDict(dict2);
+		RemoveGraph(root1);
+		RemoveGraph(root2);
 		return NULL;}
 	  weight = 1;
     }
@@ -84,6 +89,11 @@ FBuildNetworkBipart(FILE *inFile,
       noReadItems = sscanf(line,"%s %s %lf", label1, label2, &weight);
 	  if(noReadItems != 3){
 		printf ("Failed to read input: not enough fields in line %s (%d!=3). \n",line, noReadItems);
+		free(line);
+		FreeLabelDict(dict1);
+		FreeLabelDict(dict2);
+		RemoveGraph(root1);
+		RemoveGraph(root2);
 		return NULL;
 	  }
     }
diff --git a/src/graph.c b/src/graph.c
index 7f63069..ec65b6f 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -558,6 +558,9 @@ FBuildNetwork(FILE *inFile,
       noReadItems = sscanf(line, "%s %s", label1, label2);
 	  if(noReadItems != 2){
 		printf ("Failed to read input: not enough fields in line %s (%d!=2). \n",line, noReadItems);
+		free(line);
+		FreeLabelDict(node_dict);
+		RemoveGraph(root);
 		return NULL;
 	  }
 	  weight = 1;
@@ -566,6 +569,9 @@ FBuildNetwork(FILE *inFile,
       noReadItems = sscanf(line,"%s %s %lf", label1, label2, &weight);
 	  if(noReadItems != 3){
 		printf ("Failed to read input: not enough fields in line %s (%d!=3). \n",line, noReadItems);
+		free(line);
+		FreeLabelDict(node_dict);
+		RemoveGraph(root);
 		return NULL;
 	  }
     }
-- 
2.43.0


From 11b58eab809c896d4fcb5fe4ad06774ad2080d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 02/55] fix: release the BFS list on the early returns of the
 square clustering functions

---
 src/graph.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index ec65b6f..f6a1fea 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1904,6 +1904,8 @@ SquareClustering(struct node_gra *root)
     if(*size<totnodes)
       lp = RenewQueue(list,lp,size,0); // First neighbors
     else{ // If the size of the cluster is 1
+      ClearList(list,size);
+      free(list);
       return -1.0;
     }
     k1b = *size-1;
@@ -2003,11 +2005,12 @@ OneNodeSquareClustering(struct node_gra *node,
 
   res_size = 0;
   size = &res_size;
-  list = CreateHeaderList();
-  
+
   if(NodeDegree(node) == 0)
     return -1;
 
+  list = CreateHeaderList();
+
   ResetNodesState(root);
     
   Enqueue(node,list,list,size,0); //Posem el header com a predecessor
@@ -2037,11 +2040,17 @@ OneNodeSquareClustering(struct node_gra *node,
       pl = pl->next;
     }
 
-    if(k1<= 1)
+    if(k1<= 1) {
+      ClearList(list,size);
+      free(list);
       return -2; // only 1 first neighbor!!
+    }
   }
-  else
+  else {
+    ClearList(list,size);
+    free(list);
     return -3; // all nodes are first neighbors!!
+  }
   
   T = (double)C_v/((double)k2*(double)k1*(double)(k1-1));
 
-- 
2.43.0


From 6d35f2783424da01181edeb8d9f47d4eafee3088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 03/55] fix: release the working storage when the largest
 component is found early

---
 src/graph.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index f6a1fea..dfc4d89 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2695,6 +2695,9 @@ GetLargestStronglyConnectedSet(struct node_gra *root,
       giant = root_loc;
       if (maxS > nnod/2 || maxS > thres) {
 	ClearList(list, size);
+	free(list);
+	free_i_vec(selected);
+	free_i_vec(this_net);
 	RemoveGraph(root_cop); // WAS COMMENTED OUT?!?!?!?!
 	return giant;
       }
@@ -2836,7 +2839,10 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
       giant = root_loc;
       if(maxS>nnod/2 || maxS>thres ){
 	ClearList(list,size);
-/* 	RemoveGraph(root_cop); */
+	free(list);
+	free_i_vec(selected);
+	free_i_vec(this_net);
+	RemoveGraph(root_cop);
 	return giant;
       }
     }
-- 
2.43.0


From e97abe54c31fc67d6a76f7886436f4e20c274870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 04/55] fix: release the work arrays of GetAllConnectedSets

---
 src/graph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph.c b/src/graph.c
index dfc4d89..c92d6bd 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2982,6 +2982,8 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   }while(anod<numNodes);
 
   free(list);
+  free(selected);
+  free(thisNet);
   RemoveGraph(network_cop);
 
   return numComponents;
-- 
2.43.0


From 776c25d334298d8b65cab7074a3826367e8a3161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 05/55] fix: release whole nodes and links in
 RemoveIsolatedNodes and ClearAdjacencies

---
 src/graph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index c92d6bd..9b9059f 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -858,7 +858,7 @@ RemoveIsolatedNodes(struct node_gra *root)
     if (NodeDegree(p->next) ==  0) {
       temp = p->next;
       p->next = (p->next)->next;
-      free(temp);
+      FreeNode(temp);
       nrem++;
     }
     else{
@@ -2875,7 +2875,7 @@ void ClearAdjacencies(struct node_gra *p,int *net)
         temp=nei->next;
         if(temp->next==NULL)  nei->next=NULL;
         else  nei->next=temp->next;
-        free(temp);
+        FreeNodeLis(temp);
       }else{
         nei=nei->next;
       }
-- 
2.43.0


From bc1b0c05f94ea813117db9df9802a5303741ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 06/55] fix: release the displacement arrays of
 ArrangeComponents and start the centers at zero

---
 src/layout.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/layout.c b/src/layout.c
index 3c78de9..3ec8a80 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -149,6 +149,7 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
       g = g->next;
       glist[g->label] = g;
       dxtot[g->label] = dytot[g->label] = 0.0;
+      xce[g->label] = yce[g->label] = 0.0;
 
       // Find the center of the component and of the network
       node = g->nodeList;
@@ -236,6 +237,8 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
     free(xce);
     free(yce);
     free(rad);
+    free(dxtot);
+    free(dytot);
     free(glist);
     RemoveGraph(cnet);
     RemovePartition(part);
-- 
2.43.0


From 96a56776454be135278ef3d7804cd6c9c526e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 07/55] fix: do not use the Laplacian of a network with
 self-loops

---
 src/matrix.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index ff0562f..27efbba 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -62,7 +62,8 @@ LaplacianMat(struct node_gra *net)
   for (i=0; i<nnod; i++) {
     p = p->next;
     if (L[i][i] > 0) {
-      fprintf(stderr, "ERROR: Graph contains self-loops (this will crash)");
+      fprintf(stderr, "ERROR: Graph contains self-loops ");
+      free_i_mat(L, nnod);
       return NULL;
     }
     else {
@@ -91,6 +92,9 @@ LaplacianSpectrum(struct node_gra *net)
   gsl_eigen_symm_workspace *workspace;
   gsl_vector *eval;
 
+  if (L == NULL)
+    return NULL;
+
   /* Create a Laplacian ready for GSL use */
   gslL = gsl_matrix_calloc(nnod, nnod);
   for (i=0; i<nnod; i++)
@@ -122,6 +126,9 @@ Synchronizability(struct node_gra *net)
   int count=0, nnod=CountNodes(net);
   double l2=-1.0, lN=-1.0;
   
+  if (spec == NULL)
+    return -1.0;
+
   lN = gsl_vector_get(spec, nnod - 1);
   while (l2 < 1e-10)
     l2 = gsl_vector_get(spec, count++);
-- 
2.43.0


From dae74063d34ed07ca4ac0a8b22b3a6ba86492ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 08/55] fix: release the log-factorial tables and the scores of
 the network reconstruction

---
 src/missing.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 38cfa02..ffd6bb3 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1030,6 +1030,7 @@ NetworkScore(struct node_gra *netTar,
   free_i_mat(G2G, nnod);
   free_i_vec(n2gList);
   FreeFastLogChoose(LogChooseList, LogChooseListSize);
+  FreeFastLogFact(LogFactList);
   
   return scoreTar / scoreObs;
 }
@@ -1117,8 +1118,10 @@ NetReconstruct(struct node_gra *netObs,
 	RemoveLink(n1Add, n2Add, 1);
       }
     } while(someRejected < thresReject);
+    free_d_mat(linkScores, nnod);
   } while (someChanged == 1);
 
+  free(nlist);
   return net;
 }
 
@@ -1281,6 +1284,7 @@ PartitionSampling(struct node_gra *net,
   free_i_mat(G2G, nnod);
   free_i_vec(n2gList);
   FreeFastLogChoose(LogChooseList, LogChooseListSize);
+  FreeFastLogFact(LogFactList);
   
   return partList;
 }
-- 
2.43.0


From 8219e77f43d766b5863253295d78af636c9e96c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:27 +0000
Subject: [PATCH 09/55] fix: release the label dictionary of MapPartToNetSoft

---
 src/modules.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 45cd990..58f69c6 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1412,6 +1412,9 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
     }
   }
 
+  /* Free memory */
+  FreeLabelDict(nodeDict);
+
   return;
 }
 
-- 
2.43.0


From bab2600d40d79bcb1afc2dba438b564f0cc10551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:48 +0000
Subject: [PATCH 10/55] fix: release the rows already allocated when a matrix
 allocation fails

---
 src/tools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools.c b/src/tools.c
index 4b05dc3..7214e56 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -43,6 +43,7 @@ allocate_i_mat(int nrows, int ncolumns)
       if(array[i] == NULL)
 	{
 	  fprintf(stderr, "out of memory\n");
+	  free_i_mat(array, i);
 	  return NULL;
 	}
   }
@@ -126,6 +127,7 @@ allocate_d_mat(int nrows, int ncolumns)
     array[i] = (double*)malloc(ncolumns * sizeof(double));
     if(array[i] == NULL){
       fprintf(stderr, "out of memory\n");
+      free_d_mat(array, i);
       return NULL;
     }else
       memset(array[i], 0, ncolumns * sizeof(double));
-- 
2.43.0


From 9db3365721d37eb1cea29cda8af349f669117084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:39 +0000
Subject: [PATCH 11/55] fix: release everything when the edge list has a
 malformed line, and stop netcarto there

---
 src/io.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/io.c b/src/io.c
index 8e0c0c5..7c2a02e 100644
--- a/src/io.c
+++ b/src/io.c
@@ -114,6 +114,17 @@ EdgeListFileInput(FILE *inFile, int weighted, int bipartite, unsigned int **node
     if(noReadItems != noReadItemsExpected){
       printf ("Failed to read input: not enough fields in line %s (%d!=%d). \n",
               line, noReadItems,noReadItemsExpected);
+      free(node1);
+      free(node2);
+      free_node_tree(nodes_root);
+      free_node_tree(nodes_root_bipartite);
+      while (N > 0)
+        free(labels[--N]);
+      free(labels);
+      free(weights);
+      free(nodes_in);
+      free(nodes_out);
+      free(line);
       return 1;
     }
 
-- 
2.43.0


From f92626660f262f4f5a6203a475345731cf594759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:39 +0000
Subject: [PATCH 12/55] fix: netcarto: stop when the input cannot be read, and
 ignore -t without -b

---
 netcarto/main_netcarto.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/netcarto/main_netcarto.c b/netcarto/main_netcarto.c
index ddc2a7e..2cb01c6 100644
--- a/netcarto/main_netcarto.c
+++ b/netcarto/main_netcarto.c
@@ -166,9 +166,14 @@ main(int argc, char **argv)
   unsigned int *nodes1 = NULL,*nodes2 = NULL;
   unsigned int E,N;
   double *weights = NULL;
-	err = EdgeListFileInput(inF, weighted, bipartite+invert,
+	err = EdgeListFileInput(inF, weighted, bipartite ? bipartite+invert : 0,
 								 &nodes1, &nodes2, &weights, &labels,
 								 &E, &N);
+	if (err) {
+		if (from_file) fclose(inF);
+		gsl_rng_free(randGen);
+		return(1);
+	}
 	if (Ngroups==0) Ngroups=N;
 
 	if (!bipartite){
-- 
2.43.0


From 9d0d03afb14fd46d4ade1c2ec731d1d0c3549938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:39 +0000
Subject: [PATCH 13/55] fix: simulated annealing: always hand back the best
 partition seen, and nothing freed

---
 src/sannealing.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/sannealing.c b/src/sannealing.c
index 8ed7d9d..95ab752 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -154,8 +154,12 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 							  Ti, T, 0.95,
 							  nochange_limit,
 							  part, adj, gen);
-		  if (err)
+		  if (err) {
+			if (best_part != NULL)
+			  FreePartition(best_part);
+			*ppart = part;
 			return 2;
+		  }
 		  explain("Using a nested SA.\n");
 		}
 
@@ -224,7 +228,14 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 
   info ("# End of SA, best partition so far: %e\n",best_E);
 
-  FreePartition(part);
+  // The current partition was never saved if it was reached in the
+  // last round (or if no round improved on the initial one).
+  if (best_part == NULL || E > best_E) {
+	if (best_part != NULL)
+	  FreePartition(best_part);
+	best_part = part;
+  } else
+	FreePartition(part);
   *ppart = best_part;
   return(0);
 }
-- 
2.43.0


From 0cb1dc1a41ab4c729dadbdacd554cba8744c2502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:39 +0000
Subject: [PATCH 14/55] fix: do not follow a link after RemoveLink has released
 it

---
 src/modules.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 58f69c6..9187996 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -677,8 +677,8 @@ RemoveWithinGroupLinks(struct group *g, int symmetric_sw)
   nod = g->nodeList;
   while ((nod = nod->next) != NULL) {
     nei = nod->ref->neig;
-    while ((nei = nei->next) != NULL)
-      RemoveLink(nod->ref, nei->ref, symmetric_sw);
+    while (nei->next != NULL)
+      RemoveLink(nod->ref, nei->next->ref, symmetric_sw);
   }
 
   return;
@@ -700,9 +700,11 @@ RemoveBetweenGroupLinks(struct group *part, int symmetric_sw)
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
       nei = nod->ref->neig;
-      while ((nei = nei->next) != NULL) {
-	if (nod->ref->inGroup != nei->ref->inGroup)
-	  RemoveLink(nod->ref,nei->ref, symmetric_sw);
+      while (nei->next != NULL) {
+	if (nod->ref->inGroup != nei->next->ref->inGroup)
+	  RemoveLink(nod->ref, nei->next->ref, symmetric_sw);
+	else
+	  nei = nei->next;
       }
     }
   }
@@ -1507,9 +1509,11 @@ RemoveInterGroupLinks(struct node_gra *net)
   while ((p = p->next) != NULL) {
     thisgroup = p->inGroup;
     n = p->neig;
-    while ((n = n->next) != NULL) {
-      if(n->ref->inGroup != thisgroup)
-	RemoveLink(p, n->ref, 0);
+    while (n->next != NULL) {
+      if (n->next->ref->inGroup != thisgroup)
+	RemoveLink(p, n->next->ref, 0);
+      else
+	n = n->next;
     }
   }
 }
-- 
2.43.0


From 47f68bd7ea4781a91ac3a0161bdf51c4d3c94518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:39 +0000
Subject: [PATCH 15/55] fix: Gibbs link-score steps: do not use stale group
 data when all nodes are in one group

---
 src/missing.c        | 13 +++++++++++++
 src/multiblock.c     | 26 ++++++++++++++++++++++++++
 src/only_deg.c       | 13 +++++++++++++
 src/sparse_missing.c | 13 +++++++++++++
 4 files changed, 65 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index ffd6bb3..6dc2fc3 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2057,6 +2057,19 @@ GibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Quantities that do not depend on the destination group (needed
+       below even if all the nodes are in the same group) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/multiblock.c b/src/multiblock.c
index ee89278..a6d410d 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1356,6 +1356,19 @@ GibbsLinkScoreStepMB(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Quantities that do not depend on the destination group (needed
+       below even if all the nodes are in the same group) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
@@ -1992,6 +2005,19 @@ ORGibbsLinkScoreStepMB(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Quantities that do not depend on the destination group (needed
+       below even if all the nodes are in the same group) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/only_deg.c b/src/only_deg.c
index d271ea3..f4e16fe 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -719,6 +719,19 @@ GibbsLinkScoreStepMB_OD(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Quantities that do not depend on the destination group (needed
+       below even if all the nodes are in the same group) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index bde304a..67b968a 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -123,6 +123,19 @@ SparseGibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Quantities that do not depend on the destination group (needed
+       below even if all the nodes are in the same group) */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
-- 
2.43.0


From 376133c4bcb2b6830a25507197f6bbb74084b0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:10 +0000
Subject: [PATCH 16/55] fix: CorrectlyClassified: count every node of the
 partition once

---
 src/modules.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 9187996..893e29a 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1766,7 +1766,6 @@ CorrectlyClassified(struct group *refpart, struct group *actpart)
   /* Count correctly classified nodes */
   g2 = actpart;
   while ((g2 = g2->next) != NULL) {
-    nnod += g2->size;
     if (map[g2->label] > -1){
       p = g2->nodeList;
       while ((p = p->next) != NULL) {
-- 
2.43.0


From 7b3453c665e90c7de368516d8d07848552558232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:28 +0000
Subject: [PATCH 17/55] fix: GetAllConnectedSets: keep the links of every
 component, whatever its nodes are numbered

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 9b9059f..8a7947f 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2971,7 +2971,7 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
       d++;
     }while(*size!=sizeAnt);
 
-    ClearAdjacencies(network_loc,thisNet);
+    CleanAdjacencies(network_loc);
     RewireAdjacencyByLabel(network_loc);
 
     net_list[numComponents]=network_loc;
-- 
2.43.0


From 33c0f2757d1f837a7f7beec8ad5ec54d70c54a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:28 +0000
Subject: [PATCH 18/55] fix: GetAllConnectedSets: work arrays of the size of
 the network

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 8a7947f..43e53c5 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2903,7 +2903,7 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   int d;
 
   int numComponents=0;
-  int MAX_SIZE_NET=10001;
+  int MAX_SIZE_NET=CountNodes(network);
 
   selected=(int *)malloc(sizeof(int)*MAX_SIZE_NET);
   thisNet=(int *)malloc(sizeof(int)*MAX_SIZE_NET);
-- 
2.43.0


From 4fea3c3eded73b42e9532b5c111539685e66d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:28 +0000
Subject: [PATCH 19/55] fix: AverageSquaredDegree: do not drop the fraction of
 the average

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 43e53c5..7405caa 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1439,7 +1439,7 @@ AverageSquaredDegree(struct node_gra *root)
     k2sum += k * k;
   }
 
-  return k2sum / nnod;
+  return (double)k2sum / nnod;
 
 }
 
-- 
2.43.0


From c8b5bd7f4db014b58bf4b50dae67e40973134dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:28 +0000
Subject: [PATCH 20/55] fix: IsThereNode: compare the labels, not their
 addresses

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 7405caa..f9d6f9d 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -798,7 +798,7 @@ IsThereNode(char *label, struct node_gra *p)
 {
   
   while ((p = p->next) != NULL)
-    if (p->label == label)
+    if (strcmp(p->label, label) == 0)
       return 1;
 
   return 0;
-- 
2.43.0


From f649b7ce09561b1cf879a175aca75a8fbc8a8dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:28 +0000
Subject: [PATCH 21/55] fix: AddRandomLinks: add the reverse link only when the
 network is symmetric

---
 src/graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index f9d6f9d..33386e5 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1004,7 +1004,8 @@ AddRandomLinks(struct node_gra *net,
       n2 = gsl_rng_uniform_int(gen, nnod);
     } while ((n1 == n2) || IsThereLink(nlist[n1], nlist[n2]) == 1);
     AddAdjacency(nlist[n1], nlist[n2], 0, 0, 1.0, 0);
-    AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
+    if (symmetric_sw != 0)
+      AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
   }
 
   /* Done */
-- 
2.43.0


From 7bc24d8ec8bcc8a4dccd1c926a6697a753c3dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:28 +0000
Subject: [PATCH 22/55] fix: BuildNetFromGroupNeig: connect the copied links by
 label; the copies carry no node numbers

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 893e29a..8f3a664 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1136,7 +1136,7 @@ BuildNetFromGroupNeig(struct group *group)
   }
 
   CleanAdjacencies(net);
-  RewireAdjacencyByNum(net);
+  RewireAdjacencyByLabel(net);
 
   return net;
 }
-- 
2.43.0


From 5af45ead79651617cbbbd9c2d40b3414d7dd91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:25 +0000
Subject: [PATCH 23/55] fix: SquareClustering: no second shell in a small
 component, and no debug output

---
 src/graph.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 33386e5..5b07836 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1914,13 +1914,12 @@ SquareClustering(struct node_gra *root)
       lp = RenewQueue(list,lp,size,1); // Second neighbors
 
       k1 = k2 = 0;
-      pl = (list->next)->next; // Pointer to the first neighbor
-      while(pl->d<2){
+      pl = (list->next)->next; // Pointer to the first neighbor //Pointer to the first neighbor
+      while(pl != NULL && pl->d<2){
 	pl = pl->next;
 	k1++;
       }   // count first neighbors and place the pointer at the first
 	  // second neighbor
-      printf("%d %d = %d %d\n",p->num+1,k1,k1b,totnodes);
     
       C_v = 0;
       while(pl != NULL){
@@ -1930,7 +1929,7 @@ SquareClustering(struct node_gra *root)
 	pl = pl->next;
       }
 
-      if(k1>1){
+      if(k1>1 && k2>0){
 	C_av += (double)(C_v)/(double)(k2*k1*(k1-1));
       }
       else
-- 
2.43.0


From bc779b0128e216fba13962ebf436cd35a45bbc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:36 +0000
Subject: [PATCH 24/55] fix: distance histograms: as long as the network needs,
 not 10000 entries

---
 src/graph.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 5b07836..77c1c30 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1490,7 +1490,7 @@ NodeStrength(struct node_gra *node)
 void
 FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 {
-  double histogram[10000];
+  double *histogram;
   int a, d, nodes, *size, i, counter, size_ant;
   struct node_gra *p = root;
   struct node_bfs *list, *lp;
@@ -1501,14 +1501,15 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
+  nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+  for(i = 0; i<nodes+2; i++)
     histogram[i] = 0.0;
 
   counter = 0;
   a = 0;
   size = &a;
 
-  nodes = CountNodes(root);
 
   p = root;
   while(p->next != NULL){
@@ -1535,7 +1536,7 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
 
   // Output the histogram
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0;i<nodes+2;i++){
     if(histogram[i] != 0.0){
       fprintf(file,"%d %lf\n",i,histogram[i]/(double)(nodes-1));
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
@@ -1547,6 +1548,7 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
   fprintf(file,"#z = %lf\n",histogram[1]);
 
   free_i_mat(max_dis_pairs, CountNodes(root));
+  free_d_vec(histogram);
   free(list);
 }
 
@@ -1559,7 +1561,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
 				struct node_gra *root,
 				int orinode)
 {
-  double histogram[10000];
+  double *histogram;
   int a,d,nodes,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
@@ -1567,14 +1569,15 @@ FPrintDistanceHistogramFromNode(FILE *file,
 
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
+  nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+  for(i = 0; i<nodes+2; i++)
     histogram[i] = 0.0;
 
   counter = 0;
   a = 0;
   size = &a;
 
-  nodes = CountNodes(root);
 
   p = root;
   while(p->next != NULL){
@@ -1602,7 +1605,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
   }
 
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0;i<nodes+2;i++){
     if(histogram[i] != 0.0){
 /*       fprintf(file,"%d %lf\n",i,histogram[i]); */
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
@@ -1613,6 +1616,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
 /*   fprintf(file,"#Normalization = %lf\n",norm); */
   fprintf(file,"#z = %lf\n",histogram[1]);
 
+  free_d_vec(histogram);
   free(list);
 }
 
@@ -1622,7 +1626,7 @@ FPrintDistanceHistogramFromNode(FILE *file,
 double
 AveragePathLength(struct node_gra *root)
 {
-  double histogram[10000];
+  double *histogram;
   int a, d, nodes, *size, i, counter, size_ant;
   struct node_gra *p=root;
   struct node_bfs *list,*lp;
@@ -1630,14 +1634,15 @@ AveragePathLength(struct node_gra *root)
 
   list = CreateHeaderList();
 
-  for(i = 0;i<10000;i++)
+  nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+  for(i = 0; i<nodes+2; i++)
     histogram[i] = 0.0;
 
   counter = 0;
   a = 0;
   size = &a;
 
-  nodes = CountNodes(root);
   
   p = root;
   while(p->next != NULL){
@@ -1661,6 +1666,7 @@ AveragePathLength(struct node_gra *root)
     if(*size != nodes){
       printf("Sorry, the network is not connected!\n");
       ClearList(list,size);
+      free_d_vec(histogram);
       free(list);
       return -1;
     }
@@ -1669,12 +1675,13 @@ AveragePathLength(struct node_gra *root)
   }
 
   av_dis = norm = 0.0;
-  for(i = 0;i<10000;i++){
+  for(i = 0;i<nodes+2;i++){
     if(histogram[i] != 0.0){
       av_dis += (double)(i)*histogram[i]/(double)(nodes-1);
     }
   }
 
+  free_d_vec(histogram);
   free(list);
 
   return av_dis;
@@ -1687,7 +1694,7 @@ AveragePathLength(struct node_gra *root)
 double
 AverageInverseDistance(struct node_gra *root)
 {
-  double histogram[10000];
+  double *histogram;
   int a,d,nodes,*size,i,counter,size_ant;
   struct node_gra *p = root;
   struct node_bfs *list,*lp;
@@ -1695,14 +1702,15 @@ AverageInverseDistance(struct node_gra *root)
 
   list = CreateHeaderList();
 
-  for(i = 0; i<10000; i++)
+  nodes = CountNodes(root);
+  histogram = allocate_d_vec(nodes + 2);
+  for(i = 0; i<nodes+2; i++)
     histogram[i] = 0.0;
 
   counter = 0;
   a = 0;
   size = &a;
 
-  nodes = CountNodes(root);
   
   p = root;
   while(p->next !=  NULL){
@@ -1728,12 +1736,13 @@ AverageInverseDistance(struct node_gra *root)
 
   // Calculate the average inverse distance
   av_dis = norm = 0.0;
-  for(i = 0; i<10000; i++){
+  for(i = 0; i<nodes+2; i++){
     if(histogram[i] !=  0.0){
       av_dis +=  histogram[i]/(double)( i * (nodes-1) );
     }
   }
 
+  free_d_vec(histogram);
   free(list);
 
   return av_dis;
-- 
2.43.0


From 9d9e32d35c64630bd8f6bdd44dd7753813936816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:32 +0000
Subject: [PATCH 25/55] fix: ProjectBipartWeighted: do not truncate the weights
 of the projection

---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index beadcdc..dccb80e 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -620,7 +620,7 @@ ProjectBipartWeighted(struct binet *binet)
   struct node_gra *p1 = NULL, *p2 = NULL;
   void *dict = NULL;
   struct node_tree *ntree=NULL;
-  int weight;
+  double weight;
 
   /* Create the header of the projection network */
   last = projnet = CreateHeaderGraph();
-- 
2.43.0


From c6f7c566077f47fc4c34facf9650ea0075c79a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:32 +0000
Subject: [PATCH 26/55] fix: FPrintTabNodesBipart: write to the stream the
 caller passed

---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index dccb80e..5059956 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -1004,7 +1004,7 @@ FPrintTabNodesBipart(FILE *outf, struct binet *network,  struct group *modules,
 		z = WithinModuleRelativeStrength(n->ref, g);
 		role = GetRole(P,z) + 1;
 	  }
-	  printf ("%-20s\t%d\tR%d\t%f\t%f\n",
+	  fprintf (outf, "%-20s\t%d\tR%d\t%f\t%f\n",
 			  n->nodeLabel,
 			  group_nb,
 			  role,
-- 
2.43.0


From cde50ce01c6f732d86f02c63c85762754ee9257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 27/55] fix: ProjectBipartEdgeList: start the sums at zero,
 stay inside the lists and keep the last projected link

---
 src/fillpartitions.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fillpartitions.c b/src/fillpartitions.c
index 34700a4..e7a715e 100644
--- a/src/fillpartitions.c
+++ b/src/fillpartitions.c
@@ -155,7 +155,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
 
   double fac1 = 0;
   double fac2 = 0;
-  double strength;
+  double strength = 0;
 
   // Count the degree of each node and assign a first data structure for the
   // projected network.
@@ -164,7 +164,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
     degree++; // degree of current team
     strength += ed[i].strength; // Strength of current team
     part->nodes[ed[i].node1]->strength += ed[i].strength; // degree of current actor
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       Emax += (degree)*(degree-1) / 2;
       fac2 += strength;
       fac1 += strength * (strength-strength/degree);
@@ -182,7 +182,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   unsigned int j = 0, x, y, x0 = 0;
   for (i = 0; i <= count-1; i++) {
     degree++;
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       for (x = x0; x < i+1; x++){
         for (y = x0; y < x; y++) {
           if (ed[x].node1 < ed[y].node1){
@@ -206,7 +206,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   E = j;
   unsigned int *degree_proj = calloc(N,sizeof(unsigned int));
   for (i = 0; i < j; i++) {
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0 || i == j-1) {
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0) {
       degree_proj[projected[i].node1]++;
       degree_proj[projected[i].node2]++;
     }
@@ -231,7 +231,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   for (i = 0; i < j; i++) {
     adj->strength[idx[projected[i].node1]] += projected[i].strength;
     adj->strength[idx[projected[i].node2]] += projected[i].strength;
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0){
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0){
       //printf("%d %d %f:\n",projected[i].node1,projected[i].node2,projected[i].strength);
       adj->neighbors[idx[projected[i].node1]] = projected[i].node2;
       adj->neighbors[idx[projected[i].node2]] = projected[i].node1;
-- 
2.43.0


From 090049e38ce8628e5bdc2740ae83e0720d3e5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 28/55] fix: SplitModuleByComponent: follow only links inside
 the module

---
 src/movements.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/movements.c b/src/movements.c
index d04a07e..bef4f11 100644
--- a/src/movements.c
+++ b/src/movements.c
@@ -271,7 +271,7 @@ SplitModuleByComponent(unsigned int targetModuleId,
 		for (i=adj->idx[j];i<adj->idx[j+1];i++){
 		  k = adj->neighbors[i]; // The index of the neighbor.
 
-		  if(!visited[k]){
+		  if(!visited[k] && part->nodes[k]->module == targetModuleId){
 			visited[k] = 1;
 			// Add the node to the queue of nodes to visit.
 			AddToStack(k,to_visit);
-- 
2.43.0


From c14c47780d9a120d2264ffef4c0834f5ccaac68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 29/55] fix: PartitionRolesMetrics: start the participation
 coefficient at zero

---
 src/partition.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/partition.c b/src/partition.c
index 5fd82e1..25b01ad 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -221,6 +221,7 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
 	  //it is not correct for bipartite network thanks to the
 	  //-epsilon.
 	  double strength = 0;
+	  participation[i] = 0;
 	  for (j=0;j<M;j++){
 		strength += strengthToModule[i+N*j];
 		participation[i] += strengthToModule[i+N*j]*strengthToModule[i+N*j];
-- 
2.43.0


From 0b09059aaf586f1e8c81b46abe3b245113494d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 30/55] fix: GeneralSA: nothing to do when there is a single
 module

---
 src/sannealing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sannealing.c b/src/sannealing.c
index 95ab752..706a8b5 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -67,6 +67,8 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 	collective_movements = floor(fac * (double)part->N);
 
   info ("#T\tE\tStop\n");
+  if (part->M < 2) return 0;
+
   /// SIMULATED ANNEALING ///
   for (T=Ti; T > Tf; T = T*Ts) {
 	info ("%e\t%e\t%d\n", T , E, nochange_count);
-- 
2.43.0


From e53ff82f222010b1a8fdc24b1f68fe6fd97bb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:01 +0000
Subject: [PATCH 31/55] fix: dEChangeModule: a self-loop moves with its node

---
 src/movements.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/movements.c b/src/movements.c
index bef4f11..7803f1b 100644
--- a/src/movements.c
+++ b/src/movements.c
@@ -30,6 +30,7 @@ double dEChangeModule(unsigned int nodeid,
   // old and new group.
   for (i=adj->idx[nodeid]; i<adj->idx[nodeid+1]; i++){
 	int j = adj->neighbors[i]; // The index of the neighbor.
+	if (j == nodeid) continue;
 	if (part->nodes[j]->module == old)
 	  dE -= adj->strength[i]; // - k_(i,G)
 	else if (part->nodes[j]->module == newModuleid)
-- 
2.43.0


From 63af15bc5c7b5850eb8325e7757cb6dcb889eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:01 +0000
Subject: [PATCH 32/55] fix: PartitionModularity: count every link of a pair
 that is listed more than once

---
 src/partition.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/partition.c b/src/partition.c
index 25b01ad..7ced920 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -265,8 +265,7 @@ PartitionModularity(Partition *part, AdjaArray *adj, int diagonal_term){
 		aij = 0;
 		for (i=adj->idx[node1->id]; i<adj->idx[node1->id+1]; i++){
 		  if (adj->neighbors[i] == node2->id){
-			aij = adj->strength[i];
-			break; // found the edge, we can stop.
+			aij += adj->strength[i];
 		  }
 		}
 
-- 
2.43.0


From 282930ee690c13bc5115e6e36ba2c94df17752a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:59 +0000
Subject: [PATCH 33/55] fix: LinkScoreMCStep: start the node-to-group counts of
 groups outside the shortlist at zero

---
 src/missing.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 6dc2fc3..bd0306e 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -185,6 +185,9 @@ LinkScoreMCStep(int factor,
     if (g->size > 0)
       slg[slgsize++] = g->label;
 
+  for (i=0; i<nnod; i++)  // Groups outside the shortlist are empty
+    n2gList[i] = 0;
+
   /* Steps */
   for (move=0; move<nnod*factor; move++) {
 
-- 
2.43.0


From 1dec0bd2ce92dfcdeed94ad63fb7659cc5a2b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:55 +0000
Subject: [PATCH 34/55] fix: link scores of several states: the restart
 threshold does not depend on the verbosity

---
 src/conflict.c  | 7 ++++---
 src/missing.c   | 7 ++++---
 src/recommend.c | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/conflict.c b/src/conflict.c
index 342b510..b64087b 100644
--- a/src/conflict.c
+++ b/src/conflict.c
@@ -46,7 +46,7 @@ AllLinkScore2State(struct binet *ratings,
   struct node_gra **nlist1=NULL, **nlist2=NULL;
   struct group **glist1=NULL, **glist2=NULL;
   struct group *lastg=NULL;
-  double H;
+  double H, H0=0.0;
   int iter;
   int i, j;
   int **N1G2_0=NULL, **N2G1_0=NULL;
@@ -220,6 +220,7 @@ AllLinkScore2State(struct binet *ratings,
   */
   switch (verbose_sw) {
   case 'd':
+    H0 = H;
     break;
   default:
     H = 0; /* Reset the origin of energies to avoid huge exponentials */
@@ -250,7 +251,7 @@ AllLinkScore2State(struct binet *ratings,
 
     /* Check if the energy has gone below a certain threshold and, if
        so, reset energies and start over */
-    if (H < -400.0) {
+    if (H - H0 < -400.0) {
       switch (verbose_sw) {
       case 'q':
 	break;
@@ -260,7 +261,7 @@ AllLinkScore2State(struct binet *ratings,
 	break;
       }
       iter = 0;
-      H = 0.0;
+      H = H0;
       norm = 0;
       for (q=0; q<nquery; q++) {
 	querySet[q]->score = 0.0;
diff --git a/src/missing.c b/src/missing.c
index bd0306e..b5eca3b 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1746,7 +1746,7 @@ LSMultiLinkScoreKState(int K,
   struct node_gra **nlist=NULL;
   struct group **glist=NULL;
   struct group *lastg=NULL;
-  double H;
+  double H, H0=0.0;
   int iter;
   double **score;
   int i, j;
@@ -1885,6 +1885,7 @@ LSMultiLinkScoreKState(int K,
   */
   switch (verbose_sw) {
   case 'd':
+    H0 = H;
     break;
   default:
     H = 0; /* Reset the origin of energies to avoid huge exponentials */
@@ -1913,7 +1914,7 @@ LSMultiLinkScoreKState(int K,
 
     /* Check if the energy has gone below a certain threshold and, if
        so, reset energies and start over */
-    if (H < -400.0) {
+    if (H - H0 < -400.0) {
       switch (verbose_sw) {
       case 'q':
 	break;
@@ -1923,7 +1924,7 @@ LSMultiLinkScoreKState(int K,
 	break;
       }
       iter = 0;
-      H = 0.0;
+      H = H0;
       norm = 0;
       for (k=0; k<K; k++) {
 	for (q=0; q<*nquery; q++) {
diff --git a/src/recommend.c b/src/recommend.c
index cc5e06a..f787109 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -755,7 +755,7 @@ MultiLinkScore2State(struct binet *ratings,
   struct node_gra **nlist1=NULL, **nlist2=NULL;
   struct group **glist1=NULL, **glist2=NULL;
   struct group *lastg=NULL;
-  double H;
+  double H, H0=0.0;
   int iter;
   double *score;
   int i, j;
@@ -933,6 +933,7 @@ MultiLinkScore2State(struct binet *ratings,
   */
   switch (verbose_sw) {
   case 'd':
+    H0 = H;
     break;
   default:
     H = 0; /* Reset the origin of energies to avoid huge exponentials */
@@ -963,7 +964,7 @@ MultiLinkScore2State(struct binet *ratings,
 
     /* Check if the energy has gone below a certain threshold and, if
        so, reset energies and start over */
-    if (H < -400.0) {
+    if (H - H0 < -400.0) {
       switch (verbose_sw) {
       case 'q':
 	break;
@@ -973,7 +974,7 @@ MultiLinkScore2State(struct binet *ratings,
 	break;
       }
       iter = 0;
-      H = 0.0;
+      H = H0;
       norm = 0;
       for (q=0; q<nquery; q++) {
 	score[q] = 0.0;
-- 
2.43.0


From 13bba8e2bfc7275336b9a900c3c92c4a6321cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:19 +0000
Subject: [PATCH 35/55] fix: link scores with log-uniform priors: harmonic
 numbers up to the number of pairs plus two

---
 src/multiblock.c | 8 ++++----
 src/only_deg.c   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/multiblock.c b/src/multiblock.c
index a6d410d..21fbd8a 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -481,7 +481,7 @@ LinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_AND = allocate_d_mat(nnod, nnod);
@@ -1111,7 +1111,7 @@ ORLinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_OR = allocate_d_mat(nnod, nnod);
@@ -1764,7 +1764,7 @@ GibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
@@ -2413,7 +2413,7 @@ ORGibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
diff --git a/src/only_deg.c b/src/only_deg.c
index f4e16fe..80ba149 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -480,7 +480,7 @@ LinkScoreMB_OD(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA = allocate_d_mat(nnod, nnod);
@@ -1127,7 +1127,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
-- 
2.43.0


From 194d63687de68d4997c9fe60c9e950d3b7e7cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:22 +0000
Subject: [PATCH 36/55] fix: GibbsLinkScoreMB_OD: report the energy of its own
 model

---
 src/only_deg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/only_deg.c b/src/only_deg.c
index 80ba149..6c8f0ef 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -1045,7 +1045,7 @@ GibbsThermalizeLSMCMB_OD(double *H,
 	/*PartitionHMB(part, linC, HarmonicList);*/ /* Number of groups */
 	break;
       case 'd':
-	fprintf(stderr, "%lf %lf %d\n", *H, PartitionHMB(part, linC, HarmonicList),
+	fprintf(stderr, "%lf %lf %d\n", *H, PartitionHMB_OD(part, linC, HarmonicList),
 		NNonEmptyGroups(part));
 	break;
       default:
@@ -1171,7 +1171,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   }
 
   /* Initial energy */
-  H = PartitionHMB(part, linC, HarmonicList);
+  H = PartitionHMB_OD(part, linC, HarmonicList);
 
   /*
     GET READY FOR THE SAMPLING
@@ -1217,7 +1217,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
       fprintf(stderr, "%d %lf\n", iter, H);
       break;
     case 'd':
-      fprintf(stderr, "%d %lf %lf %d\n", iter, H, PartitionHMB(part, linC, HarmonicList),
+      fprintf(stderr, "%d %lf %lf %d\n", iter, H, PartitionHMB_OD(part, linC, HarmonicList),
 	      NNonEmptyGroups(part));
       /* FPrintPartition(stderr, part, 0); */
       break;
-- 
2.43.0


From 1037c9e9b1273310c4b3b2cec86a1a764f0d7d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:57 +0000
Subject: [PATCH 37/55] fix: heat-bath group choice read outside the shortlist
 when the draw was zero or rounding exhausted it

---
 src/missing.c        | 4 ++--
 src/multiblock.c     | 8 ++++----
 src/only_deg.c       | 4 ++--
 src/recommend.c      | 3 ++-
 src/sparse_missing.c | 4 ++--
 5 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index b5eca3b..08a5929 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2299,9 +2299,9 @@ GibbsLinkScoreStep(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/multiblock.c b/src/multiblock.c
index 21fbd8a..fd211b4 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1609,9 +1609,9 @@ GibbsLinkScoreStepMB(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
@@ -2258,9 +2258,9 @@ ORGibbsLinkScoreStepMB(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/only_deg.c b/src/only_deg.c
index 6c8f0ef..4bab51e 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -972,9 +972,9 @@ GibbsLinkScoreStepMB_OD(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/recommend.c b/src/recommend.c
index f787109..f80598f 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -2120,8 +2120,9 @@ GibbsStepKState(int K,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice)
+      do
 	cum += exp(-dH[slg[target++]]);
+      while (cum < dice && target < *slgsize);
       newgnum = slg[target - 1];
       newg = (*glistnode)[newgnum];
     }
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index 67b968a..2cfa71a 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -315,9 +315,9 @@ SparseGibbsLinkScoreStep(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
-- 
2.43.0


From 221a8c6359f712f9dff9d5736bbcac3415c24204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:49 +0000
Subject: [PATCH 38/55] fix: MultiLinkScoreKState judged a drop of the energy
 against zero instead of its level after thermalization

---
 src/recommend.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/recommend.c b/src/recommend.c
index f80598f..b05bf20 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -1589,7 +1589,7 @@ MultiLinkScoreKState(int K,
   struct node_gra **nlist1=NULL, **nlist2=NULL;
   struct group **glist1=NULL, **glist2=NULL;
   struct group *lastg=NULL;
-  double H;
+  double H, H0;
   int iter;
   double **score;
   int i, j;
@@ -1748,13 +1748,7 @@ MultiLinkScoreKState(int K,
   /*
     SAMPLIN' ALONG
   */
-  switch (verbose_sw) {
-  case 'd':
-    break;
-  default:
-    /* H = 0; /\* Reset the origin of energies to avoid huge exponentials *\/ */
-    break;
-  }
+  H0 = H;
   for (iter=0; iter<nIter; iter++) {
     MCStepKState(K, decorStep, &H, nlist1, nlist2,
 		 glist1, glist2, part1, part2,
@@ -1779,7 +1773,7 @@ MultiLinkScoreKState(int K,
 
     /* Check if the energy has gone below a certain threshold and, if
        so, reset energies and start over */
-    if (H < -400.0) {
+    if ((H0 - H) > 400.0) {
       switch (verbose_sw) {
       case 'q':
 	break;
@@ -1789,7 +1783,7 @@ MultiLinkScoreKState(int K,
 	break;
       }
       iter = 0;
-      H = 0.0;
+      H0 = H;
       norm = 0;
       for (k=0; k<K; k++) {
 	for (q=0; q<nquery; q++) {
-- 
2.43.0


From 3be71fa4b4c8cd51a87440094eeecb88069d8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:01 +0000
Subject: [PATCH 39/55] fix: NetReconstruct exchanged undefined nodes when no
 link could be added or removed

---
 src/missing.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 08a5929..312815e 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1080,6 +1080,7 @@ NetReconstruct(struct node_gra *netObs,
 
       /* Get the largest missing link score and the smallest link
 	 score */
+      n1Add = n2Add = n1Remove = n2Remove = NULL;
       maxLinkScore = 0.0;
       minLinkScore = 1.0;
       for (n1=0; n1<nnod; n1++) {
@@ -1099,6 +1100,10 @@ NetReconstruct(struct node_gra *netObs,
 	}
       }
 
+      /* Nothing to exchange (e.g. complete or empty network) */
+      if ((n1Add == NULL) || (n1Remove == NULL))
+	break;
+
       /* Add and remove links */
       AddAdjacency(n1Add, n2Add, 0, 0, 1.0, 2);
       AddAdjacency(n2Add, n1Add, 0, 0, 1.0, 2);
-- 
2.43.0


From 1cb53de3efe50196da9ae4f04f9f44b9f4bda051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:02 +0000
Subject: [PATCH 40/55] fix: netcarto_legacy stored the network name and the
 seed outside their variables and used the name unset

---
 netcarto/main_netcarto_legacy.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index 8e9718e..873d5ee 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -2,6 +2,7 @@
 #include <math.h>
 #include <unistd.h>
 #include <stdlib.h>
+#include <string.h>
  
 #include <gsl/gsl_rng.h>
 #include "tools.h"
@@ -40,7 +41,8 @@ main(int argc, char **argv)
   double Tsched = 0.995, Tf = 0.0;
   double iterfac = 1.0;
   gsl_rng *rand_gen;
-  char *netF;
+  char *netF = "-";
+  char netName[1000];
   /*
     ------------------------------------------------------------
     Prompt for user-defined parameters
@@ -50,10 +52,11 @@ main(int argc, char **argv)
   if (argc == 1) {
 
   printf("\n# Enter random number seed (POSITIVE integer): ");
-  scanf("%d", &seed);
+  scanf("%ld", &seed);
 
   printf("\n# Enter the name of the network file: ");
-  scanf("%s", &netF);
+  if (scanf("%999s", netName) == 1)
+    netF = netName;
 
   printf("\n# Enter iteration factor (recommended 1.0): ");
   scanf("%lf", &iterfac);
@@ -104,7 +107,14 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   */
   fprintf(stderr, "\n# Creating the network\n");
 
-  inFile=fopen(netF,"r");
+  if (strcmp(netF, "-") == 0)
+    inFile = stdin;
+  else
+    inFile = fopen(netF, "r");
+  if (inFile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(inFile, 0, 0, 0, 1);
   fclose(inFile);
 
-- 
2.43.0


From d953c7d3ad21d2aae99c5e0c31af4d27078d7710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 41/55] fix: labels longer than the label buffers were written
 past their end

---
 src/bipartite.c | 4 ++--
 src/graph.c     | 4 ++--
 src/io.c        | 6 +++---
 src/modules.c   | 6 +++---
 src/recommend.c | 2 +-
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 5059956..c879036 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -74,7 +74,7 @@ FBuildNetworkBipart(FILE *inFile,
   while ((nbytes = getline(&line, &bufsiz, inFile)) != -1){
     /* Read the labels (and weight, if necessary) */
     if (weight_sw == 0) {
-      noReadItems = sscanf(line, "%s %s", label1, label2);
+      noReadItems = sscanf(line, "%99s %99s", label1, label2);
 	  if(noReadItems != 2){
 		printf ("Failed to read input: not enough fields in line %s (%d!=2). \n",line, noReadItems);
 		free(line);
@@ -86,7 +86,7 @@ FBuildNetworkBipart(FILE *inFile,
 	  weight = 1;
     }
     else {
-      noReadItems = sscanf(line,"%s %s %lf", label1, label2, &weight);
+      noReadItems = sscanf(line,"%99s %99s %lf", label1, label2, &weight);
 	  if(noReadItems != 3){
 		printf ("Failed to read input: not enough fields in line %s (%d!=3). \n",line, noReadItems);
 		free(line);
diff --git a/src/graph.c b/src/graph.c
index 77c1c30..e8e3eb1 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -555,7 +555,7 @@ FBuildNetwork(FILE *inFile,
   while ((nbytes = getline(&line, &bufsiz, inFile)) != -1){
     /* Read the labels (and weight, if necessary) */
     if (weight_sw == 0) {
-      noReadItems = sscanf(line, "%s %s", label1, label2);
+      noReadItems = sscanf(line, "%99s %99s", label1, label2);
 	  if(noReadItems != 2){
 		printf ("Failed to read input: not enough fields in line %s (%d!=2). \n",line, noReadItems);
 		free(line);
@@ -566,7 +566,7 @@ FBuildNetwork(FILE *inFile,
 	  weight = 1;
     }
     else {
-      noReadItems = sscanf(line,"%s %s %lf", label1, label2, &weight);
+      noReadItems = sscanf(line,"%99s %99s %lf", label1, label2, &weight);
 	  if(noReadItems != 3){
 		printf ("Failed to read input: not enough fields in line %s (%d!=3). \n",line, noReadItems);
 		free(line);
diff --git a/src/io.c b/src/io.c
index 7c2a02e..1cae847 100644
--- a/src/io.c
+++ b/src/io.c
@@ -98,10 +98,10 @@ EdgeListFileInput(FILE *inFile, int weighted, int bipartite, unsigned int **node
 
     /* Read the labels (and edge weight, if necessary) */
     if (weighted == 0) {
-      noReadItems = sscanf(line, "%s %s", node1->label, node2->label);
+      noReadItems = sscanf(line, "%99s %99s", node1->label, node2->label);
       weights[E] = 1;
 	  } else {
-      noReadItems = sscanf(line,"%s %s %lf", node1->label, node2->label, &weights[E]);
+      noReadItems = sscanf(line,"%99s %99s %lf", node1->label, node2->label, &weights[E]);
     }
 
     if (bipartite>1){
@@ -273,7 +273,7 @@ AssignNodesToModulesFromFile(FILE *inF,
   }
 
   while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
+	nfields=fscanf(inF,"%99[^\t\n]%1[\t\n]%*[\t\n]",label,sep);
 	if (nfields) {
 	  e.key = label;
 	  ep = hsearch(e, FIND);
diff --git a/src/modules.c b/src/modules.c
index 8f3a664..9b1761b 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -123,7 +123,7 @@ FReadPartition(FILE *inF){
   g = CreateGroup(part, npart);
 
   while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
+	nfields=fscanf(inF,"%99[^\t\n]%1[\t\n]%*[\t\n]",label,sep);
 	if (nfields) {
 	  AddNodeToGroupSoft(g, label);
 	  if(sep[0]=='\n'){
@@ -157,13 +157,13 @@ FCreatePartition(FILE *inF)
   while (!feof(inF)) {
     g = CreateGroup(part, npart);
     npart++;
-    noReadItems = fscanf(inF, "%s\n", &label[0]);
+    noReadItems = fscanf(inF, "%99s\n", &label[0]);
 	if (noReadItems != 1)
 	  printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
 
     while (strcmp(label, separator) != 0) {
       AddNodeToGroupSoft(g, label);
-      noReadItems = fscanf(inF, "%s\n", &label[0]);
+      noReadItems = fscanf(inF, "%99s\n", &label[0]);
 	  if (noReadItems != 1)
 		printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
 
diff --git a/src/recommend.c b/src/recommend.c
index b05bf20..9e424d1 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -175,7 +175,7 @@ ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
 
   /* Go through the file and create the queries */
   for (nq=0; nq<nQueries; nq++) {
-    dummy = fscanf(inFile, "%s %s\n", &node1[0], &node2[0]);
+    dummy = fscanf(inFile, "%99s %99s\n", &node1[0], &node2[0]);
     n1 = GetNodeDict(node1, dict1);
     /* add to binet if absent */
     if (n1 == NULL) {
-- 
2.43.0


From 855c03b65422aa124b7ee9a3e4f104574993c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:15 +0000
Subject: [PATCH 42/55] fix: long network file names overran the output file
 name of the multiblock and only_deg programs

---
 multiblock/main_reliability_links_mb.c          | 8 +++++---
 multiblock/main_reliability_links_mb_OR.c       | 8 +++++---
 multiblock/main_reliability_links_mb_gibbs.c    | 8 +++++---
 multiblock/main_reliability_links_mb_gibbs_OR.c | 8 +++++---
 only_deg/main_only_degeneration_mb.c            | 8 +++++---
 only_deg/main_only_degeneration_mb_gibbs.c      | 8 +++++---
 6 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index 4df38e4..9e9808d 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char outFileNameOR[FILENAME_MAX], outFileNameAND[FILENAME_MAX];
 
   /*
     ---------------------------------------------------------------------------
@@ -60,8 +60,10 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
-  strcpy(outFileNameAND, netF);
-  strcat(outFileNameAND, ".AND_scores");
+  if (snprintf(outFileNameAND, FILENAME_MAX, "%s.AND_scores", netF) >= FILENAME_MAX) {
+    fprintf(stderr, "ERROR: file name too long\n");
+    return 1;
+  }
   outfileAND = fopen(outFileNameAND, "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 533564b..d1a9678 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char outFileNameOR[FILENAME_MAX];
 
   /*
     ---------------------------------------------------------------------------
@@ -60,8 +60,10 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
-  strcpy(outFileNameOR, netF);
-  strcat(outFileNameOR, ".OR_scores");
+  if (snprintf(outFileNameOR, FILENAME_MAX, "%s.OR_scores", netF) >= FILENAME_MAX) {
+    fprintf(stderr, "ERROR: file name too long\n");
+    return 1;
+  }
   outfileOR = fopen(outFileNameOR, "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 3480993..5aa6fa5 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char outFileNameOR[FILENAME_MAX], outFileNameAND[FILENAME_MAX];
 
   /*
     ---------------------------------------------------------------------------
@@ -60,8 +60,10 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
-  strcpy(outFileNameAND, netF);
-  strcat(outFileNameAND, ".AND_scores");
+  if (snprintf(outFileNameAND, FILENAME_MAX, "%s.AND_scores", netF) >= FILENAME_MAX) {
+    fprintf(stderr, "ERROR: file name too long\n");
+    return 1;
+  }
   outfileAND = fopen(outFileNameAND, "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index a4ab09d..1aa8c9f 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char outFileNameOR[FILENAME_MAX];
 
   /*
     ---------------------------------------------------------------------------
@@ -60,8 +60,10 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
-  strcpy(outFileNameOR, netF);
-  strcat(outFileNameOR, ".OR_scores");
+  if (snprintf(outFileNameOR, FILENAME_MAX, "%s.OR_scores", netF) >= FILENAME_MAX) {
+    fprintf(stderr, "ERROR: file name too long\n");
+    return 1;
+  }
   outfileOR = fopen(outFileNameOR, "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 0eb3bcc..2d3fdb0 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char outFileName[FILENAME_MAX];
 
   /*
     ---------------------------------------------------------------------------
@@ -60,8 +60,10 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
-  strcpy(outFileName, netF);
-  strcat(outFileName, ".scores");
+  if (snprintf(outFileName, FILENAME_MAX, "%s.scores", netF) >= FILENAME_MAX) {
+    fprintf(stderr, "ERROR: file name too long\n");
+    return 1;
+  }
   outfile = fopen(outFileName, "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 79d49df..2aabb21 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -23,7 +23,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char outFileName[FILENAME_MAX];
 
   /*
     ---------------------------------------------------------------------------
@@ -60,8 +60,10 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
-  strcpy(outFileName, netF);
-  strcat(outFileName, ".scores");
+  if (snprintf(outFileName, FILENAME_MAX, "%s.scores", netF) >= FILENAME_MAX) {
+    fprintf(stderr, "ERROR: file name too long\n");
+    return 1;
+  }
   outfile = fopen(outFileName, "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
-- 
2.43.0


From 5b2d0e21d15612801e017613dec8cae14648322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:30 +0000
Subject: [PATCH 43/55] fix: netprop overran its array of components in
 networks with more than 1000 of them

---
 utils/main_netprop.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index 1479434..f8633d9 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -15,7 +15,7 @@ main(int argc, char **argv)
   char *netF;
   FILE *infile=NULL;
   struct node_gra *net=NULL;
-  struct node_gra *components[1000];
+  struct node_gra **components=NULL;
   int i,ncomponents,sizeGC=0,sizeothers=0;
 /*   struct prng *rand_gen; */
 /*   int seed; */
@@ -39,6 +39,7 @@ main(int argc, char **argv)
     Calculate and print a variety of network properties
   */
   /* Calculate the size of the giant component and the number of components */
+  components = (struct node_gra **) calloc(CountNodes(net) + 1, sizeof(struct node_gra *));
   ncomponents = GetAllConnectedSets(net,components);
   for(i=0;i<ncomponents;i++)
   {
@@ -83,6 +84,7 @@ main(int argc, char **argv)
 /*   RemovePartition(part); */
 
   /* Finish */
+  free(components);
   RemoveGraph(net);
   return 0;
 }
-- 
2.43.0


From b31672284a9970a8900ac460004856ed07a1de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:30 +0000
Subject: [PATCH 44/55] fix: CountLinesInFile counted lines of 1000 characters
 or more several times

---
 src/tools.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools.c b/src/tools.c
index 7214e56..86de436 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -616,7 +616,8 @@ CountLinesInFile(char *inFileName)
 
   inFile = fopen(inFileName, "r");
   while (fgets(line, 1000, inFile))
-    n++;
+    if (strchr(line, '\n') != NULL || feof(inFile)) /* lines may be longer than the buffer */
+      n++;
   fclose(inFile);
 
   return n;
-- 
2.43.0


From ed4fca024ae9a22339e4a7dfb719b267d1d68be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:09 +0000
Subject: [PATCH 45/55] fix: programs went on with missing arguments and with
 files they could not open or read

---
 conflict/main_conflict.c                      | 12 +++++++++++
 multiblock/main_reliability_links_mb.c        | 14 ++++++++++++-
 multiblock/main_reliability_links_mb_OR.c     | 14 ++++++++++++-
 multiblock/main_reliability_links_mb_gibbs.c  | 14 ++++++++++++-
 .../main_reliability_links_mb_gibbs_OR.c      | 14 ++++++++++++-
 netcarto/main_netcarto.c                      |  2 ++
 netcarto/main_netcarto_legacy.c               | 20 +++++++++++++++++++
 only_deg/main_only_degeneration_mb.c          | 14 ++++++++++++-
 only_deg/main_only_degeneration_mb_gibbs.c    | 14 ++++++++++++-
 recommender/main_multi_recommend_2.c          | 18 ++++++++++++++++-
 recommender/main_multi_recommend_k.c          | 18 ++++++++++++++++-
 recommender/main_multi_recommend_k_gibbs.c    | 18 ++++++++++++++++-
 reliability/main_reliability_links.c          | 18 ++++++++++++++++-
 reliability/main_reliability_links_gibbs.c    | 10 +++++++++-
 .../main_reliability_links_gibbs_sparse.c     | 10 +++++++++-
 reliability/main_reliability_links_k.c        | 18 ++++++++++++++++-
 reliability/main_reliability_reconstruct.c    | 12 +++++++++++
 utils/main_bipartitemodularity.c              | 17 ++++++++++++++++
 utils/main_bipartitemodularity_w.c            | 17 ++++++++++++++++
 utils/main_countlinks.c                       |  8 ++++++++
 utils/main_getgiant.c                         |  8 ++++++++
 utils/main_lapspec.c                          | 12 +++++++++++
 utils/main_modularbipart.c                    |  4 ++++
 utils/main_multinetlayout.c                   |  8 ++++++++
 utils/main_mutualinfo.c                       | 13 ++++++++++++
 utils/main_netcompare.c                       | 16 +++++++++++++++
 utils/main_netlayout.c                        |  8 ++++++++
 utils/main_netprop.c                          | 10 +++++++++-
 utils/main_netrandomize.c                     | 10 +++++++++-
 utils/main_nodeprop.c                         |  8 ++++++++
 30 files changed, 364 insertions(+), 15 deletions(-)

diff --git a/conflict/main_conflict.c b/conflict/main_conflict.c
index a53100f..7f872a5 100644
--- a/conflict/main_conflict.c
+++ b/conflict/main_conflict.c
@@ -42,7 +42,15 @@ main(int argc, char **argv)
 
   /* Build the observation network */
   infile = fopen(obsFile, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", obsFile);
+    return 1;
+  }
   ratings = ReadRecommenderObservations(infile);
+  if (ratings == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", obsFile);
+    return 1;
+  }
   fclose(infile);
   nquery = CountNodes(ratings->net1) * CountNodes(ratings->net2);
 
@@ -50,6 +58,10 @@ main(int argc, char **argv)
   querySet = AllLinkScore2State(ratings,
 				10000, rand_gen, 'v', -1);
   outfile = fopen("link_scores.dat", "w");
+  if (outfile == NULL) {
+    fprintf(stderr, "ERROR: cannot open link_scores.dat\n");
+    return 1;
+  }
   for (q=0; q<nquery; q++) {
     if (strcmp(querySet[q]->n1->label, querySet[q]->n2->label) != 0) {
       fprintf(outfile, "%s %s %lf\n",
diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index 9e9808d..3d5c685 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
@@ -45,7 +45,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
@@ -65,6 +73,10 @@ main(int argc, char **argv)
     return 1;
   }
   outfileAND = fopen(outFileNameAND, "w");
+  if (outfileAND == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", outFileNameAND);
+    return 1;
+  }
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index d1a9678..453d31d 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
     return -1;
   }
@@ -45,7 +45,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
@@ -65,6 +73,10 @@ main(int argc, char **argv)
     return 1;
   }
   outfileOR = fopen(outFileNameOR, "w");
+  if (outfileOR == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", outFileNameOR);
+    return 1;
+  }
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 5aa6fa5..0d71e78 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return;
   }
@@ -45,7 +45,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
@@ -65,6 +73,10 @@ main(int argc, char **argv)
     return 1;
   }
   outfileAND = fopen(outFileNameAND, "w");
+  if (outfileAND == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", outFileNameAND);
+    return 1;
+  }
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index 1aa8c9f..985d72d 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
     return;
   }
@@ -45,7 +45,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
@@ -65,6 +73,10 @@ main(int argc, char **argv)
     return 1;
   }
   outfileOR = fopen(outFileNameOR, "w");
+  if (outfileOR == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", outFileNameOR);
+    return 1;
+  }
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/netcarto/main_netcarto.c b/netcarto/main_netcarto.c
index 2cb01c6..5c1ef7d 100644
--- a/netcarto/main_netcarto.c
+++ b/netcarto/main_netcarto.c
@@ -214,6 +214,8 @@ main(int argc, char **argv)
 	int i;
 	i = AssignNodesToModulesFromFile(inF,part,labels);
 	fclose(inF);
+	if (i < 0)
+	  return 1;
 	if (i){
 	  printf ("Error: %d nodes are missing from the partition file.\n",i);
 	}
diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index 873d5ee..15d203f 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -116,6 +116,10 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
     return 1;
   }
   net = FBuildNetwork(inFile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(inFile);
 
   S = CountNodes(net);
@@ -134,6 +138,10 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
 			  iterfac, 0, 'o', 1, 's', rand_gen);
 
   outFile = fopen("modules.dat", "w");
+  if (outFile == NULL) {
+    fprintf(stderr, "ERROR: cannot write modules.dat\n");
+    return 1;
+  }
   FPrintPartition(outFile, part, 0);
   realmod = Modularity(part);
   fprintf(outFile, "# Modularity = %g\n", realmod);
@@ -148,6 +156,10 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
     ------------------------------------------------------------
   */
   outFile=fopen("node_prop.dat","w");
+  if (outFile == NULL) {
+    fprintf(stderr, "ERROR: cannot write node_prop.dat\n");
+    return 1;
+  }
   p = net;
   while ((p = p->next) != NULL) {
     fprintf(outFile,"%s %d %lf %lf\n",
@@ -166,6 +178,10 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   roles = CatalogRoleIdent(net, part);
 
   outFile = fopen("roles.dat","w");
+  if (outFile == NULL) {
+    fprintf(stderr, "ERROR: cannot write roles.dat\n");
+    return 1;
+  }
   FPrintPartition(outFile, roles, 0);
   fclose(outFile);
 
@@ -202,6 +218,10 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   ranmodst = sqrt(ranmodst / (double)rep);
 
   outFile = fopen("randomized_mod.dat", "w");
+  if (outFile == NULL) {
+    fprintf(stderr, "ERROR: cannot write randomized_mod.dat\n");
+    return 1;
+  }
   fprintf(outFile, "# M\tMrand\tsimga_Mrand\n");
   fprintf(outFile, "%lf %lf %lf\n", realmod, ranmodav, ranmodst);
   fclose(outFile);
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 2d3fdb0..b045ea5 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
     return;
   }
@@ -45,7 +45,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
@@ -65,6 +73,10 @@ main(int argc, char **argv)
     return 1;
   }
   outfile = fopen(outFileName, "w");
+  if (outfile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", outFileName);
+    return 1;
+  }
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 2aabb21..bc516da 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -30,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
     return;
   }
@@ -45,7 +45,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
@@ -65,6 +73,10 @@ main(int argc, char **argv)
     return 1;
   }
   outfile = fopen(outFileName, "w");
+  if (outfile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", outFileName);
+    return 1;
+  }
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/recommender/main_multi_recommend_2.c b/recommender/main_multi_recommend_2.c
index 4c702a7..5451d19 100644
--- a/recommender/main_multi_recommend_2.c
+++ b/recommender/main_multi_recommend_2.c
@@ -32,7 +32,7 @@ main(int argc, char **argv)
   double *scores;
 
   /* Command line parameters */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: multi_recommend_2.out observation_file query_file seed\n\n");
     return -1;
   }
@@ -44,14 +44,30 @@ main(int argc, char **argv)
 
   /* Build the observations */
   infile = fopen(obsFile, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", obsFile);
+    return 1;
+  }
   ratings = ReadRecommenderObservations(infile);
+  if (ratings == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", obsFile);
+    return 1;
+  }
   fclose(infile);
 
   /* Get the number of queries and build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
   infile = fopen(queFile, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", queFile);
+    return 1;
+  }
   queries = ReadQueries(infile, nquery, ratings);
+  if (queries == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", queFile);
+    return 1;
+  }
   fclose(infile);
 
   /* Get the scores of the queries and print them */
diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index bd5f603..8497fd3 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k.out K observation_file query_file seed\n\n");
     return -1;
   }
@@ -46,14 +46,30 @@ main(int argc, char **argv)
 
   /* Build the observations */
   infile = fopen(obsFile, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", obsFile);
+    return 1;
+  }
   ratings = ReadRecommenderObservations(infile);
+  if (ratings == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", obsFile);
+    return 1;
+  }
   fclose(infile);
 
   /* Get the number of queries and build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
   infile = fopen(queFile, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", queFile);
+    return 1;
+  }
   queries = ReadQueries(infile, nquery, ratings);
+  if (queries == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", queFile);
+    return 1;
+  }
   fclose(infile);
 
   /* Get the scores of the queries and print them */
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index ab54b04..420e3ca 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k_gibbs K observation_file query_file seed\n\n");
     return -1;
   }
@@ -46,14 +46,30 @@ main(int argc, char **argv)
 
   /* Build the observations */
   infile = fopen(obsFile, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", obsFile);
+    return 1;
+  }
   ratings = ReadRecommenderObservations(infile);
+  if (ratings == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", obsFile);
+    return 1;
+  }
   fclose(infile);
 
   /* Get the number of queries end build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
   infile = fopen(queFile, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", queFile);
+    return 1;
+  }
   queries = ReadQueries(infile, nquery, ratings);
+  if (queries == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", queFile);
+    return 1;
+  }
   fclose(infile);
 
   /* Get the scores of the queries and print them */
diff --git a/reliability/main_reliability_links.c b/reliability/main_reliability_links.c
index 547ddbe..d037adb 100644
--- a/reliability/main_reliability_links.c
+++ b/reliability/main_reliability_links.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
@@ -46,7 +46,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
@@ -62,7 +70,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   outfile1 = fopen("missing.dat", "w");
+  if (outfile1 == NULL) {
+    fprintf(stderr, "ERROR: cannot open missing.dat\n");
+    return 1;
+  }
   outfile2 = fopen("spurious.dat", "w");
+  if (outfile2 == NULL) {
+    fprintf(stderr, "ERROR: cannot open spurious.dat\n");
+    return 1;
+  }
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/reliability/main_reliability_links_gibbs.c b/reliability/main_reliability_links_gibbs.c
index 64eef2c..c598739 100644
--- a/reliability/main_reliability_links_gibbs.c
+++ b/reliability/main_reliability_links_gibbs.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
@@ -46,7 +46,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
diff --git a/reliability/main_reliability_links_gibbs_sparse.c b/reliability/main_reliability_links_gibbs_sparse.c
index e20bf8c..76af489 100644
--- a/reliability/main_reliability_links_gibbs_sparse.c
+++ b/reliability/main_reliability_links_gibbs_sparse.c
@@ -31,7 +31,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return;
   }
@@ -46,7 +46,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
diff --git a/reliability/main_reliability_links_k.c b/reliability/main_reliability_links_k.c
index 7b6c31d..5cfefa5 100644
--- a/reliability/main_reliability_links_k.c
+++ b/reliability/main_reliability_links_k.c
@@ -34,7 +34,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: reliability_links_k K net_file seed\n\n");
     return -1;
   }
@@ -50,7 +50,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 1, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
@@ -67,7 +75,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   outfile1 = fopen("unobserved_k.dat", "w");
+  if (outfile1 == NULL) {
+    fprintf(stderr, "ERROR: cannot open unobserved_k.dat\n");
+    return 1;
+  }
   outfile2 = fopen("observed_k.dat", "w");
+  if (outfile2 == NULL) {
+    fprintf(stderr, "ERROR: cannot open observed_k.dat\n");
+    return 1;
+  }
   for (q=0; q<nquery; q++) {
     if (IsThereLink(queries[q]->n1, queries[q]->n2) == 0) {
       fprintf(outfile1, "%s %s",
diff --git a/reliability/main_reliability_reconstruct.c b/reliability/main_reliability_reconstruct.c
index b56ddf4..beab694 100644
--- a/reliability/main_reliability_reconstruct.c
+++ b/reliability/main_reliability_reconstruct.c
@@ -38,7 +38,15 @@ main(int argc, char **argv)
 
   /* Build the network */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /* Reconstruct the network */
@@ -48,6 +56,10 @@ main(int argc, char **argv)
 
   /* Print the reconstruction */
   outfile = fopen("net_reconstructed.dat", "w");
+  if (outfile == NULL) {
+    fprintf(stderr, "ERROR: cannot open net_reconstructed.dat\n");
+    return 1;
+  }
   FPrintNetAdjacencyList(outfile, netRec, 0, 1);
   fclose(outfile);
 
diff --git a/utils/main_bipartitemodularity.c b/utils/main_bipartitemodularity.c
index 902a04c..14cfaa7 100644
--- a/utils/main_bipartitemodularity.c
+++ b/utils/main_bipartitemodularity.c
@@ -14,6 +14,11 @@ int main(int argc,char* argv[])
   struct binet *binet = NULL;
   struct group *part = NULL;
 
+  if (argc < 4) {
+    printf("\nUse: bipartitemodularity net_file partition_file invert(0/1)\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
@@ -21,12 +26,24 @@ int main(int argc,char* argv[])
   */
   //fprintf(stderr, "Creating the network...");
   inf = fopen(argv[1], "r");
+  if (inf == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", argv[1]);
+    return 1;
+  }
   binet = FBuildNetworkBipart(inf, 0, 0);
+  if (binet == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", argv[1]);
+    return 1;
+  }
   fclose(inf);
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Creating the partition...");
   inf = fopen(argv[2], "r");
+  if (inf == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", argv[2]);
+    return 1;
+  }
   part = FCreatePartition(inf);
   fclose(inf);
   //fprintf(stderr, "done.\n");
diff --git a/utils/main_bipartitemodularity_w.c b/utils/main_bipartitemodularity_w.c
index c914b31..cf40ba2 100644
--- a/utils/main_bipartitemodularity_w.c
+++ b/utils/main_bipartitemodularity_w.c
@@ -14,6 +14,11 @@ int main(int argc,char* argv[])
   struct binet *binet = NULL;
   struct group *part = NULL;
 
+  if (argc < 4) {
+    printf("\nUse: bipartitemodularity_w net_file partition_file invert(0/1)\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
@@ -21,12 +26,24 @@ int main(int argc,char* argv[])
   */
   //fprintf(stderr, "Creating the network...");
   inf = fopen(argv[1], "r");
+  if (inf == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", argv[1]);
+    return 1;
+  }
   binet = FBuildNetworkBipart(inf, 1, 0);
+  if (binet == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", argv[1]);
+    return 1;
+  }
   fclose(inf);
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Creating the partition...");
   inf = fopen(argv[2], "r");
+  if (inf == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", argv[2]);
+    return 1;
+  }
   part = FCreatePartition(inf);
   fclose(inf);
   //fprintf(stderr, "done.\n");
diff --git a/utils/main_countlinks.c b/utils/main_countlinks.c
index 40e54ef..2d9061d 100644
--- a/utils/main_countlinks.c
+++ b/utils/main_countlinks.c
@@ -35,7 +35,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
diff --git a/utils/main_getgiant.c b/utils/main_getgiant.c
index b454f0a..a0134e7 100644
--- a/utils/main_getgiant.c
+++ b/utils/main_getgiant.c
@@ -21,7 +21,15 @@ main(int argc, char **argv)
 
   /* Build the network */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /* Get the giant component and print it */
diff --git a/utils/main_lapspec.c b/utils/main_lapspec.c
index 274be38..822ab48 100644
--- a/utils/main_lapspec.c
+++ b/utils/main_lapspec.c
@@ -26,12 +26,24 @@ main(int argc, char **argv)
 
   /* Build the network */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
   nnod = CountNodes(net);
 
   /* Calculate the spectrum of the Laplacian */
   spec = LaplacianSpectrum(net);
+  if (spec == NULL) {
+    fprintf(stderr, "ERROR: the Laplacian of %s cannot be calculated\n", netF);
+    return 1;
+  }
 
   /* Check results */
   for (i=0; i<nnod; i++)
diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index c8514b2..53480fc 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -22,6 +22,10 @@ main(int argc, char **argv)
   double teamHomog;
 
   /* Command line parameters */
+  if (argc < 7) {
+    printf("\nUse: modularbipart n_mod mod_size n_team team_size team_homogeneity seed\n\n");
+    return -1;
+  }
   nMod = atoi(argv[1]);
   modSize = atoi(argv[2]);
   nTeam = atoi(argv[3]);
diff --git a/utils/main_multinetlayout.c b/utils/main_multinetlayout.c
index 63fdae0..47a741d 100644
--- a/utils/main_multinetlayout.c
+++ b/utils/main_multinetlayout.c
@@ -43,7 +43,15 @@ main(int argc, char **argv)
   for (i=0; i<nnet; i++) {
     netF = argv[i+1];
     inFile = fopen(netF, "r");
+    if (inFile == NULL) {
+      fprintf(stderr, "ERROR: cannot open %s\n", netF);
+      return 1;
+    }
     net[i] = FBuildNetwork(inFile, 0, 0, 0, 1);
+    if (net[i] == NULL) {
+      fprintf(stderr, "ERROR: cannot read %s\n", netF);
+      return 1;
+    }
     fclose(inFile);
   }
 
diff --git a/utils/main_mutualinfo.c b/utils/main_mutualinfo.c
index ed59c9d..024ebe6 100644
--- a/utils/main_mutualinfo.c
+++ b/utils/main_mutualinfo.c
@@ -13,6 +13,11 @@ int main(int argc,char* argv[])
   struct group *part1 = NULL;
   struct group *part2 = NULL;
 
+  if (argc < 3) {
+    printf("\nUse: mutualinfo partition_file_1 partition_file_2\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
@@ -20,11 +25,19 @@ int main(int argc,char* argv[])
   */
   //fprintf(stderr, "Creating the partition...\n");
   inf = fopen(argv[1], "r");
+  if (inf == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", argv[1]);
+    return 1;
+  }
   part1 = FCreatePartition(inf);
   fclose(inf);
 
   //fprintf(stderr, "Creating the partition...\n");
   inf = fopen(argv[2], "r");
+  if (inf == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", argv[2]);
+    return 1;
+  }
   part2 = FCreatePartition(inf);
   fclose(inf);
 
diff --git a/utils/main_netcompare.c b/utils/main_netcompare.c
index 04b9bd0..113554e 100644
--- a/utils/main_netcompare.c
+++ b/utils/main_netcompare.c
@@ -41,11 +41,27 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   inFile = fopen(netFA, "r");
+  if (inFile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netFA);
+    return 1;
+  }
   netA = FBuildNetwork(inFile, 0, 0, 0, 1);
+  if (netA == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netFA);
+    return 1;
+  }
   fclose(inFile);
 
   inFile = fopen(netFB, "r");
+  if (inFile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netFB);
+    return 1;
+  }
   netB = FBuildNetwork(inFile, 0, 0, 0, 1);
+  if (netB == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netFB);
+    return 1;
+  }
   fclose(inFile);
 
   /*
diff --git a/utils/main_netlayout.c b/utils/main_netlayout.c
index 175cc1a..ab0c704 100644
--- a/utils/main_netlayout.c
+++ b/utils/main_netlayout.c
@@ -55,7 +55,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   inFile=fopen(netF, "r");
+  if (inFile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(inFile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(inFile);
   S = CountNodes(net);
   L = TotalNLinks(net, 1);
diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index f8633d9..bfdb2c1 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -21,7 +21,7 @@ main(int argc, char **argv)
 /*   int seed; */
 
   /* Command line parameters */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: netprop net_file\n\n");
     return -1;
   }
@@ -32,7 +32,15 @@ main(int argc, char **argv)
 
   /* Build the network */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
diff --git a/utils/main_netrandomize.c b/utils/main_netrandomize.c
index 80d52e4..6e53919 100644
--- a/utils/main_netrandomize.c
+++ b/utils/main_netrandomize.c
@@ -26,7 +26,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: netrandomize.out net_file seed\n\n");
     return -1;
   }
@@ -41,7 +41,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
diff --git a/utils/main_nodeprop.c b/utils/main_nodeprop.c
index 0c42d9e..d9f31d1 100644
--- a/utils/main_nodeprop.c
+++ b/utils/main_nodeprop.c
@@ -35,7 +35,15 @@ main(int argc, char **argv)
     ---------------------------------------------------------------------------
   */
   infile = fopen(netF, "r");
+  if (infile == NULL) {
+    fprintf(stderr, "ERROR: cannot open %s\n", netF);
+    return 1;
+  }
   net = FBuildNetwork(infile, 0, 0, 0, 1);
+  if (net == NULL) {
+    fprintf(stderr, "ERROR: cannot read %s\n", netF);
+    return 1;
+  }
   fclose(infile);
 
   /*
-- 
2.43.0


From 6741e3763993a1e79d6164419c53d30f1ca2b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:09 +0000
Subject: [PATCH 46/55] fix: CountLinesInFile crashed on a file that cannot be
 opened

---
 src/tools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools.c b/src/tools.c
index 86de436..5d322f8 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -615,6 +615,8 @@ CountLinesInFile(char *inFileName)
   FILE *inFile;
 
   inFile = fopen(inFileName, "r");
+  if (inFile == NULL)
+    return 0;
   while (fgets(line, 1000, inFile))
     if (strchr(line, '\n') != NULL || feof(inFile)) /* lines may be longer than the buffer */
       n++;
-- 
2.43.0


From 4c200157fbb2d2dd4b4e3d16998aae6da7f67962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:09 +0000
Subject: [PATCH 47/55] fix: a partition file that ends early or names an
 unknown node was misread or crashed AssignNodesToModulesFromFile

---
 src/io.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/io.c b/src/io.c
index 1cae847..4dc66e4 100644
--- a/src/io.c
+++ b/src/io.c
@@ -272,11 +272,14 @@ AssignNodesToModulesFromFile(FILE *inF,
 	ep = hsearch(e, ENTER);
   }
 
-  while (!feof(inF)){
-	nfields=fscanf(inF,"%99[^\t\n]%1[\t\n]%*[\t\n]",label,sep);
-	if (nfields) {
+  while ((nfields=fscanf(inF,"%99[^\t\n]%1[\t\n]%*[\t\n]",label,sep)) > 0){
 	  e.key = label;
 	  ep = hsearch(e, FIND);
+	  if (ep == NULL) {
+		fprintf(stderr, "ERROR: node %s of the partition is not in the network.\n", label);
+		hdestroy();
+		return -1;
+	  }
 	  i = (int) ep->data;
 	  nnode--;
 
@@ -296,9 +299,8 @@ AssignNodesToModulesFromFile(FILE *inF,
 		part->nodes[i]->prev = part->modules[j]->last;
 		part->modules[j]->last = part->nodes[i];
 	  }
-	  if(sep[0]=='\n')
+	  if(nfields > 1 && sep[0]=='\n')
 		j++;
-	}
   }
 
   CompressPartition(part);
-- 
2.43.0


From f40c4174d44ffc3869141c5655585f99abfef353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:09 +0000
Subject: [PATCH 48/55] fix: the Pajek writers crashed when the output file
 could not be created

---
 src/bipartite.c | 4 ++++
 src/graph.c     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/bipartite.c b/src/bipartite.c
index c879036..9ca2ba2 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -766,6 +766,10 @@ FPrintPajekFileBipart (char *fname,
   Stot  = S1 + S2;
 
   outF = fopen(fname, "w");
+  if (outF == NULL) {
+    fprintf(stderr, "ERROR: cannot write %s\n", fname);
+    return;
+  }
 
   fprintf(outF, "*Vertices %d %d\n", Stot, S1);
 
diff --git a/src/graph.c b/src/graph.c
index e8e3eb1..597e87a 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -688,6 +688,10 @@ FPrintPajekFile(char *fname,
   FILE *outF;
 
   outF = fopen(fname, "w");
+  if (outF == NULL) {
+    fprintf(stderr, "ERROR: cannot write %s\n", fname);
+    return;
+  }
   fprintf(outF, "*Vertices %d\n", CountNodes(root));
 
   /* Print the nodes */
-- 
2.43.0


From 77e9b665d47af7b09f9e64b367ee15b5ac43ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:09 +0000
Subject: [PATCH 49/55] fix: partition readers misread a file that ends early,
 and partition writers crashed without an output file

---
 src/modules.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 9b1761b..65c8532 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -122,15 +122,12 @@ FReadPartition(FILE *inF){
   part = CreateHeaderGroup();
   g = CreateGroup(part, npart);
 
-  while (!feof(inF)){
-	nfields=fscanf(inF,"%99[^\t\n]%1[\t\n]%*[\t\n]",label,sep);
-	if (nfields) {
+  while ((nfields=fscanf(inF,"%99[^\t\n]%1[\t\n]%*[\t\n]",label,sep)) > 0){
 	  AddNodeToGroupSoft(g, label);
-	  if(sep[0]=='\n'){
+	  if(nfields > 1 && sep[0]=='\n'){
 		npart++;
 		g = CreateGroup(part, npart);
 	  }
-	}
   }
   return(part);
 }
@@ -161,7 +158,7 @@ FCreatePartition(FILE *inF)
 	if (noReadItems != 1)
 	  printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
 
-    while (strcmp(label, separator) != 0) {
+    while (noReadItems == 1 && strcmp(label, separator) != 0) {
       AddNodeToGroupSoft(g, label);
       noReadItems = fscanf(inF, "%99s\n", &label[0]);
 	  if (noReadItems != 1)
@@ -1582,6 +1579,10 @@ FPrintPajekPartitionFile(char *fname, struct node_gra *net)
   FILE *outF;
 
   outF = fopen(fname, "w");
+  if (outF == NULL) {
+    fprintf(stderr, "ERROR: cannot write %s\n", fname);
+    return;
+  }
   fprintf(outF, "*Vertices %d\n", CountNodes(net));
 
   while ((net = net->next) != NULL) {
@@ -2613,12 +2614,16 @@ SACommunityIdent(struct node_gra *net,
     switch (output_sw) {
     case 'b':
       outf = fopen("part.tmp", "w");
-      FPrintPartition(outf, best_part, 1);
-      fclose(outf);
+      if (outf != NULL) {
+	FPrintPartition(outf, best_part, 1);
+	fclose(outf);
+      }
     case 's':
       outf = fopen("part.tmp", "w");
-      FPrintPartition(outf, best_part, 1);
-      fclose(outf);
+      if (outf != NULL) {
+	FPrintPartition(outf, best_part, 1);
+	fclose(outf);
+      }
     default:
       break;
     }
-- 
2.43.0


From 8830d1cc8c337145f433fd9c0794e548ba55373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:09 +0000
Subject: [PATCH 50/55] fix: ReadQueries scored leftover labels after a short
 query file, and the progress files crashed when not writable

---
 src/missing.c   |  30 ++++++++------
 src/recommend.c | 107 ++++++++++++++++++++++++++++++------------------
 2 files changed, 84 insertions(+), 53 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 312815e..41b0883 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1959,20 +1959,24 @@ LSMultiLinkScoreKState(int K,
 	break;
       default:
  	outfile = fopen("scores.tmp", "w");
-	for (q=0; q<*nquery; q++) {
-	  fprintf(outfile, "%s %s",
-		  (((*querySet)[q])->n1)->label,
-		  (((*querySet)[q])->n2)->label);
-	  for (k=0; k<K; k++) {
-	    fprintf(outfile, " %lf",
-		    score[k][q]/(double)norm);
-	  }
-	  fprintf(outfile, "\n");
-	}
-	fclose(outfile);
+ 	if (outfile != NULL) {
+  	for (q=0; q<*nquery; q++) {
+  	  fprintf(outfile, "%s %s",
+  		  (((*querySet)[q])->n1)->label,
+  		  (((*querySet)[q])->n2)->label);
+  	  for (k=0; k<K; k++) {
+  	    fprintf(outfile, " %lf",
+  		    score[k][q]/(double)norm);
+  	  }
+  	  fprintf(outfile, "\n");
+  	}
+ 	  fclose(outfile);
+ 	}
 	outfile = fopen("part.tmp", "w");
-	FPrintPartition(outfile, part, 1);
-	fclose(outfile);
+	if (outfile != NULL) {
+  	FPrintPartition(outfile, part, 1);
+	  fclose(outfile);
+	}
 	break;
       }
     }
diff --git a/src/recommend.c b/src/recommend.c
index 9e424d1..e9eae59 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -176,6 +176,15 @@ ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
   /* Go through the file and create the queries */
   for (nq=0; nq<nQueries; nq++) {
     dummy = fscanf(inFile, "%99s %99s\n", &node1[0], &node2[0]);
+    if (dummy != 2) {
+      fprintf(stderr, "ERROR: query %d of %d cannot be read\n", nq + 1, nQueries);
+      while (nq > 0)
+	FreeQuery(querySet[--nq]);
+      free(querySet);
+      FreeLabelDict(dict1);
+      FreeLabelDict(dict2);
+      return NULL;
+    }
     n1 = GetNodeDict(node1, dict1);
     /* add to binet if absent */
     if (n1 == NULL) {
@@ -1000,19 +1009,25 @@ MultiLinkScore2State(struct binet *ratings,
 	break;
       default:
  	outfile = fopen("scores.tmp", "w");
-	for (q=0; q<nquery; q++) {
-	  fprintf(outfile, "%s %s %lf\n",
-		  ((querySet[q])->n1)->label,
-		  ((querySet[q])->n2)->label,
-		  score[q]/(double)norm);
-	}
-	fclose(outfile);
+ 	if (outfile != NULL) {
+  	for (q=0; q<nquery; q++) {
+  	  fprintf(outfile, "%s %s %lf\n",
+  		  ((querySet[q])->n1)->label,
+  		  ((querySet[q])->n2)->label,
+  		  score[q]/(double)norm);
+  	}
+ 	  fclose(outfile);
+ 	}
 	outfile = fopen("part1.tmp", "w");
-	FPrintPartition(outfile, part1, 1);
-	fclose(outfile);
+	if (outfile != NULL) {
+  	FPrintPartition(outfile, part1, 1);
+	  fclose(outfile);
+	}
 	outfile = fopen("part2.tmp", "w");
-	FPrintPartition(outfile, part2, 1);
-	fclose(outfile);
+	if (outfile != NULL) {
+  	FPrintPartition(outfile, part2, 1);
+	  fclose(outfile);
+	}
 	break;
       }
     }
@@ -1813,23 +1828,29 @@ MultiLinkScoreKState(int K,
 	break;
       default:
  	outfile = fopen("scores.tmp", "w");
-	for (q=0; q<nquery; q++) {
-	  fprintf(outfile, "%s %s",
-		  ((querySet[q])->n1)->label,
-		  ((querySet[q])->n2)->label);
-	  for (k=0; k<K; k++) {
-	    fprintf(outfile, " %lf",
-		    score[k][q]/(double)norm);
-	  }
-	  fprintf(outfile, "\n");
-	}
-	fclose(outfile);
+ 	if (outfile != NULL) {
+  	for (q=0; q<nquery; q++) {
+  	  fprintf(outfile, "%s %s",
+  		  ((querySet[q])->n1)->label,
+  		  ((querySet[q])->n2)->label);
+  	  for (k=0; k<K; k++) {
+  	    fprintf(outfile, " %lf",
+  		    score[k][q]/(double)norm);
+  	  }
+  	  fprintf(outfile, "\n");
+  	}
+ 	  fclose(outfile);
+ 	}
 	outfile = fopen("part1.tmp", "w");
-	FPrintPartition(outfile, part1, 1);
-	fclose(outfile);
+	if (outfile != NULL) {
+  	FPrintPartition(outfile, part1, 1);
+	  fclose(outfile);
+	}
 	outfile = fopen("part2.tmp", "w");
-	FPrintPartition(outfile, part2, 1);
-	fclose(outfile);
+	if (outfile != NULL) {
+  	FPrintPartition(outfile, part2, 1);
+	  fclose(outfile);
+	}
 	break;
       }
     }
@@ -2466,23 +2487,29 @@ GibbsMultiLinkScoreKState(int K,
   	break;
       default:
   	outfile = fopen("scores.tmp", "w");
-  	for (q=0; q<nquery; q++) {
-  	  fprintf(outfile, "%s %s",
-  		  ((querySet[q])->n1)->label,
-  		  ((querySet[q])->n2)->label);
-  	  for (k=0; k<K; k++) {
-  	    fprintf(outfile, " %lf",
-  		    score[k][q]/(double)norm);
-  	  }
-  	  fprintf(outfile, "\n");
+  	if (outfile != NULL) {
+    	for (q=0; q<nquery; q++) {
+    	  fprintf(outfile, "%s %s",
+    		  ((querySet[q])->n1)->label,
+    		  ((querySet[q])->n2)->label);
+    	  for (k=0; k<K; k++) {
+    	    fprintf(outfile, " %lf",
+    		    score[k][q]/(double)norm);
+    	  }
+    	  fprintf(outfile, "\n");
+    	}
+  	  fclose(outfile);
   	}
-  	fclose(outfile);
   	outfile = fopen("part1.tmp", "w");
-  	FPrintPartition(outfile, part1, 1);
-  	fclose(outfile);
+  	if (outfile != NULL) {
+    	FPrintPartition(outfile, part1, 1);
+  	  fclose(outfile);
+  	}
   	outfile = fopen("part2.tmp", "w");
-  	FPrintPartition(outfile, part2, 1);
-  	fclose(outfile);
+  	if (outfile != NULL) {
+    	FPrintPartition(outfile, part2, 1);
+  	  fclose(outfile);
+  	}
   	break;
       }
     }
-- 
2.43.0


From bdec524f6bd27abf3d71bfdc52df40cefa0d8ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:13 +0000
Subject: [PATCH 51/55] fix: netprop needs only its network file

---
 utils/main_netprop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index bfdb2c1..5ae3679 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -21,7 +21,7 @@ main(int argc, char **argv)
 /*   int seed; */
 
   /* Command line parameters */
-  if (argc < 3) {
+  if (argc < 2) {
     printf("\nUse: netprop net_file\n\n");
     return -1;
   }
-- 
2.43.0


From 9907f4214d43a59f7f7167c3f4b0b5f43f573658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:07 +0000
Subject: [PATCH 52/55] fix: modularbipart ignored the team size it was given
 and used the module size

---
 utils/main_modularbipart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index 53480fc..53d32a6 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -40,7 +40,7 @@ main(int argc, char **argv)
 
   /* Build the network */
   binet = BuildModularBipartiteNetwork(NULL, modSize, nMod, NULL,
-				       nTeam, modSize, modSize, -1.,
+				       nTeam, teamSize, teamSize, -1.,
 				       teamHomog, randGen);
   FPrintPajekFileBipart ("binet.net", binet, 0, 0);
 
-- 
2.43.0


From 30a85026588c1b15354c914ad5abc996be66fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:27 +0000
Subject: [PATCH 53/55] fix: CreateEquiNPartition walks past the last node when
 groups are left over

---
 src/modules.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 65c8532..620b3de 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -193,10 +193,9 @@ CreateEquiNPartition(struct node_gra *net, int gsize)
   /* Create the groups and assign the nodes */
   for (i=0; i<=ngroups; i++) {
     g = CreateGroup(part,i);
-    for (j=0; j<gsize; j++) {
-      if ((p = p->next) != NULL) {
-	AddNodeToGroup(g, p);
-      }
+    for (j=0; j<gsize && p->next != NULL; j++) {
+      p = p->next;
+      AddNodeToGroup(g, p);
     }
   }
 
-- 
2.43.0


From 7c6f4ff184d14b706757c32e7a8d166c71bbf505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:38 +0000
Subject: [PATCH 54/55] fix: BlockModel halves the probability of a connection
 inside a group

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 620b3de..d97ee87 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -768,7 +768,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	    break;
 	  case 'p':
 	    if (g1 == g2)
-	      bij = (double)NG2GLinks(g1, g2) /
+	      bij = (double)(2 * g1->inlinks) /
 		(double)(g1->size * (g1->size - 1));
 	    else
 	      bij = (double)NG2GLinks(g1, g2) /
-- 
2.43.0


From 59dd523c1584ec63a3645485e0a0686d59cb0bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:00 +0000
Subject: [PATCH 55/55] fix: SACommunityIdent releases a best partition it
 never had (networks without links)

---
 src/modules.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index d97ee87..611d4ba 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2614,13 +2614,13 @@ SACommunityIdent(struct node_gra *net,
     case 'b':
       outf = fopen("part.tmp", "w");
       if (outf != NULL) {
-	FPrintPartition(outf, best_part, 1);
+	FPrintPartition(outf, best_part != NULL ? best_part : part, 1);
 	fclose(outf);
       }
     case 's':
       outf = fopen("part.tmp", "w");
       if (outf != NULL) {
-	FPrintPartition(outf, best_part, 1);
+	FPrintPartition(outf, best_part != NULL ? best_part : part, 1);
 	fclose(outf);
       }
     default:
@@ -2633,7 +2633,8 @@ SACommunityIdent(struct node_gra *net,
   } /*  End of simulated annealing */
  
   /* Free memory */
-  RemovePartition(best_part);
+  if (best_part != NULL)
+    RemovePartition(best_part);
   FreeLabelDict(nodeDict);
   free(glist);
   free(nlist);
-- 
2.43.0

