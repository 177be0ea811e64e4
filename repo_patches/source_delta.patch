From 15bd69e90a5b990563f536c23771b27628a5a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 01/44] fix: store traditional graph edge weights by the local
 id of the edge

Traditional edges are numbered by source vertex, so the weights given in
construction order were attached to the wrong edges.
---
 agi/agiConstruct.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index ee53d5c..c2d24d9 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -222,6 +222,8 @@ namespace agi {
     }
 
     //Loop through edges again to build the edge lists
+    //edge_lids stores the local id given to each edge
+    std::vector<lid_t> edge_lids(edge_ids.size(),-1);
     for (lid_t i=0;i<(lid_t)edge_ids.size();i++) {
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
         lid_t u = pin_list[t][j];
@@ -232,6 +234,7 @@ namespace agi {
           //In hypergraph mode the edges are numbered by a local id/global id
           if (u<num_local_verts)
             edge_list[t][temp_counts[u]++] = i;
+          edge_lids[i] = i;
         }
         else {
           //In traditional mode the edge_list stores the destination of the edge
@@ -239,8 +242,10 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            edge_lids[i] = temp_counts[u];
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
@@ -253,7 +258,8 @@ namespace agi {
         edge_weights[t][i] = 1;
     else
       for (lid_t i=0;i<(lid_t)e_weights.size();i++)
-        edge_weights[t][i] = e_weights[i];
+        if (edge_lids[i]!=-1)
+          edge_weights[t][edge_lids[i]] = e_weights[i];
 
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
@@ -329,6 +335,8 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    //edge_lids stores the local id given to each edge
+    std::vector<lid_t> edge_lids(num_edges,-1);
     for (lid_t i=0;i<num_edges;i++) {
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
         lid_t u = pin_list[t][j];
@@ -338,14 +346,17 @@ namespace agi {
         if (isHyperGraph) {
           if (u<num_local_verts)
             edge_list[t][temp_counts[u]++] = i;
+          edge_lids[i] = i;
         }
         else {
           lid_t v = pin_list[t][++j];
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            edge_lids[i] = temp_counts[u];
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
@@ -358,7 +369,8 @@ namespace agi {
         edge_weights[t][i] = 1;
     else
       for (lid_t i=0;i<num_edges;i++)
-        edge_weights[t][i] = e_weights[i];
+        if (edge_lids[i]!=-1)
+          edge_weights[t][edge_lids[i]] = e_weights[i];
 
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
-- 
2.43.0


From ef7897b85ab6a5b024b72445c25995eb2fe9ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 02/44] fix: create ghost weights in the array form of
 constructGhosts

weight() of a ghost vertex dereferenced a null tag when the graph was built
with the array (and C) interface. Vertices that are not on this process no
longer get a bogus entry in the vertex map either.
---
 agi/agiConstruct.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index c2d24d9..ea3b2e1 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -443,8 +443,10 @@ namespace agi {
     if (num_ghost_verts>0)
       owners = new part_t[num_ghost_verts];
     for (lid_t i = 0;i<num_ghosts;i++) {
-      gid_t v = vert_ids[i];
-      lid_t lid = vtx_mapping[v]-num_local_verts;
+      map_t::iterator vitr = vtx_mapping.find(vert_ids[i]);
+      if (vitr==vtx_mapping.end())
+        continue;
+      lid_t lid = vitr->second-num_local_verts;
       if (lid<0)
         continue;
       owners[lid] = owns[i];
@@ -477,6 +479,11 @@ namespace agi {
         num_global_pins[t] = 2*num_global_edges[t];
       }
     }
+
+    //Create the ghost weights
+    if (PCU_Comm_Peers() > 1)
+      ghost_weights = createDoubleGhostTag(weightTag);
+
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From ddf7ce33d9d55ef4f32b9538519ee5d626bf8fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 03/44] fix: send the edges of every type of the migrated
 vertices

getAffected looked at edges of type 0 for each type.
---
 agi/agiMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index ab73a41..8b12939 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -77,7 +77,7 @@ namespace agi {
       VertexVector::iterator itr;
       //loop through the vertices being sent
       for (itr = verts.begin();itr!=verts.end();itr++) {
-        GraphIterator* gitr =g->adjacent(*itr);
+        GraphIterator* gitr =g->adjacent(*itr,t);
         GraphEdge* e;
         GraphEdge* old=NULL;
         while ((g->iterate(gitr))) {
-- 
2.43.0


From ab1a08c9ce90ac5086ebd266ab288d2cded21c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 04/44] fix: keep traditional edges whose target migrates but
 whose source stays

Such edges were neither kept nor sent and disappeared from the graph.
---
 agi/agiMigrate.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index 8b12939..41e26e1 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -127,9 +127,15 @@ namespace agi {
     while ((e = g->iterate(itr))) {
       agi::PinIterator* pitr = g->pins(e);
       agi::GraphVertex* end;
-      while ((end=g->iterate(pitr)))
+      while ((end=g->iterate(pitr))) {
         if (plan->has(end))
           break;
+        //A traditional edge stays where its source vertex is
+        if (!g->isHyper()) {
+          end = NULL;
+          break;
+        }
+      }
       g->destroy(pitr);
       if (!end) {
         //Add the Edge
@@ -142,7 +148,7 @@ namespace agi {
         while ((end=g->iterate(pitr))) {
           gid_t other_gid = g->globalID(end);
           pins.push_back(other_gid);
-          part_t owner = g->owner(end);
+          part_t owner = plan->has(end) ? plan->get(end) : g->owner(end);
 
           if (owner!=PCU_Comm_Self()) 
             ghost_owners[other_gid] = owner;          
-- 
2.43.0


From ad9d22486f1c135552ca97daa62dd31a7e635916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 05/44] fix: update the owners of all ghost vertices before
 migrating

The new owner was only sent along edges of type 0, and in traditional graphs
to the targets of a vertex although the sources hold it as a ghost.
---
 agi/agiMigrate.cpp | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index 41e26e1..c61a5b8 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -25,22 +25,30 @@ namespace agi {
   }
 
   void Ngraph::updateGhostOwners(Migration* plan) {
+    //Ask the owner of each ghost vertex where the vertex is going
     PCU_Comm_Begin();
-    Migration::iterator itr;
-    for (itr = plan->begin();itr!=plan->end();itr++) {
-      GraphVertex* v = *itr;
+    GraphVertex* v;
+    GhostIterator* gitr = beginGhosts();
+    while ((v = iterate(gitr))) {
       gid_t gid = globalID(v);
-      part_t toSend = plan->get(v);
-      GraphIterator* gitr = adjacent(v);
-      GraphVertex* other;
-      while ((other=iterate(gitr))) {
-        part_t own = owner(other);
-        if (own!=PCU_Comm_Self()) {
-          PCU_COMM_PACK(own,gid);
-          PCU_COMM_PACK(own,toSend);
-        }
+      PCU_COMM_PACK(owner(v),gid);
+    }
+    PCU_Comm_Send();
+    std::vector<std::pair<part_t,gid_t> > requests;
+    while (PCU_Comm_Receive()) {
+      gid_t gid;
+      PCU_COMM_UNPACK(gid);
+      requests.push_back(std::make_pair(PCU_Comm_Sender(),gid));
+    }
+    PCU_Comm_Begin();
+    for (size_t i = 0;i<requests.size();i++) {
+      gid_t gid = requests[i].second;
+      v = findGID(gid);
+      if (plan->has(v)) {
+        part_t toSend = plan->get(v);
+        PCU_COMM_PACK(requests[i].first,gid);
+        PCU_COMM_PACK(requests[i].first,toSend);
       }
-      destroy(gitr);
     }
     PCU_Comm_Send();
     while (PCU_Comm_Receive()) {
@@ -48,10 +56,7 @@ namespace agi {
       part_t own;
       PCU_COMM_UNPACK(gid);
       PCU_COMM_UNPACK(own);
-      lid_t lid = vtx_mapping[gid];
-      if (lid>=num_local_verts) {
-        owners[lid-num_local_verts]=own;
-      }
+      owners[localID(findGID(gid))-num_local_verts]=own;
     }
   }
   /*
-- 
2.43.0


From c125f24e18697745bf48e7cba8fb7e84b2ead3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 06/44] fix: keep valid empty arrays when an edge type other
 than the last is removed

---
 agi/agiConstruct.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index ea3b2e1..0f7b8f6 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -521,6 +521,20 @@ namespace agi {
     edge_unmap[t] = NULL;
     if (t==num_types-1)
       num_types--;
+    else {
+      //The type remains with no edges, so its arrays must be valid
+      edge_weights[t] = new wgt_t[0];
+      edge_unmap[t] = new gid_t[0];
+      degree_list[t] = new lid_t[num_local_verts+1];
+      for (lid_t i=0;i<num_local_verts+1;i++)
+        degree_list[t][i] = 0;
+      edge_list[t] = new lid_t[0];
+      if (isHyperGraph) {
+        pin_degree_list[t] = new lid_t[1];
+        pin_degree_list[t][0] = 0;
+        pin_list[t] = new lid_t[0];
+      }
+    }
   }
   
   void Ngraph::destroyData() {
-- 
2.43.0


From 6e2fb91974a1c8427ef35d26ba487187d789b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 07/44] fix: build and iterate the second adjacencies of the
 requested edge type

---
 agi/agiConstruct.cpp | 8 ++++----
 agi/agiIterate.cpp   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 0f7b8f6..18d401e 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -663,7 +663,7 @@ namespace agi {
     while ((v = iterate(vitr))) {
       int count = 0;
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         count++;
@@ -684,7 +684,7 @@ namespace agi {
     //Populate the adjacency list by repeating the operation
     while ((v = iterate(vitr))) {
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         if (compress)
@@ -722,7 +722,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           count++;
           unique_adj.insert(other);
@@ -751,7 +751,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           if (compress)
             unique_adj.insert(other);
diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index e6c5d84..52c3201 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -52,7 +52,7 @@ namespace agi {
     else
       index = vev_lists[type][id];
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     vevItr = reinterpret_cast<VEVIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphVertex*>(toPtr(index+1));
   }
@@ -122,7 +122,7 @@ namespace agi {
     else
       index = eve_lists[type][id]*num_types+type;
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     eveItr = reinterpret_cast<EVEIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphEdge*>(toPtr(index+1));
   }
-- 
2.43.0


From 9fc442ee01d994b6ed575127b8d2067dde0303ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 08/44] fix: credit moved weight to the vertex it was sent to

---
 agi/agiWeightMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiWeightMigrate.cpp b/agi/agiWeightMigrate.cpp
index dd8c677..590518d 100644
--- a/agi/agiWeightMigrate.cpp
+++ b/agi/agiWeightMigrate.cpp
@@ -44,7 +44,7 @@ namespace agi {
       PCU_COMM_UNPACK(gid);
       PCU_COMM_UNPACK(w);
       agi::GraphVertex* mine = findGID(gid);
-      v_weights[numLocalVtxs() - 1]+=w;
+      v_weights[localID(mine)]+=w;
       wp_map[gid][other_gid] -= w;
     }
 
-- 
2.43.0


From f8f151996a39f57880c24423ad589c822205ff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 09/44] fix: update the ghost weights after moving weight
 between vertices

---
 agi/agiWeightMigrate.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/agi/agiWeightMigrate.cpp b/agi/agiWeightMigrate.cpp
index 590518d..ec614d5 100644
--- a/agi/agiWeightMigrate.cpp
+++ b/agi/agiWeightMigrate.cpp
@@ -8,6 +8,8 @@
 
 namespace agi {
 
+  double weightTag(Ngraph* g, GraphVertex* v);
+
   void Ngraph::migrate(WeightMigration* plan, MigrationTimers*) {
     //Get initial vertex weights
     wgt_t* v_weights = new wgt_t[numLocalVtxs()];
@@ -51,6 +53,12 @@ namespace agi {
     setWeights(v_weights);
     delete [] v_weights;
     delete plan;
+
+    //Update the weights known for the ghost vertices
+    if (ghost_weights) {
+      destroyTag(ghost_weights);
+      ghost_weights = createDoubleGhostTag(weightTag);
+    }
   }
 
   WeightPartitionMap* Ngraph::getWeightPartition() {
-- 
2.43.0


From c23b898bad74b980a7b96c7e112ab3184394742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 10/44] fix: define cengpar_createLocalSplitInput with the
 declared parameter order

---
 interfaces/cengpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/cengpar.cpp b/interfaces/cengpar.cpp
index cfac2ff..a8ed204 100644
--- a/interfaces/cengpar.cpp
+++ b/interfaces/cengpar.cpp
@@ -25,7 +25,7 @@ ngraph cengpar_createEmptyGraph() {
 
 
 engparInput cengpar_createLocalSplitInput(ngraph g, MPI_Fint smallComm, MPI_Fint largeComm,
-    bool isOrig, int splitFactor, double tol, agi::etype t, agi::part_t* ranks) {
+    bool isOrig, int splitFactor, double tol, agi::part_t* ranks, agi::etype t) {
   MPI_Comm s = MPI_Comm_f2c(smallComm);
   MPI_Comm l = MPI_Comm_f2c(largeComm);
   agi::Ngraph* ng = (agi::Ngraph*)g;
-- 
2.43.0


From 8b325fb5dca035d33c6c3beb966f7294d39be657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 11/44] fix: average every value of the partition evaluation

---
 partition/engpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 03d2ed8..7930add 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -97,7 +97,7 @@ namespace engpar {
     empty = PCU_Add_Int(empty);
     delete [] my_vals;
     if (!PCU_Comm_Self()) {
-      for (int i=0;i<5+g->numEdgeTypes();i++) {
+      for (int i=0;i<num_vals;i++) {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
       char prefix[100];
-- 
2.43.0


From e92bd3bfd74a30178bf3df805d70af13a0985640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 12/44] fix: do not overflow the name buffers of the partition
 evaluation

---
 partition/engpar.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 7930add..ac30b74 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -3,6 +3,8 @@
 #include "Diffusive/src/engpar_sides.h"
 #include <engpar_support.h>
 #include <engpar_metrics.h>
+#include <sstream>
+#include <string>
 
 namespace engpar {
 
@@ -100,8 +102,8 @@ namespace engpar {
       for (int i=0;i<num_vals;i++) {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
-      char prefix[100];
-      sprintf(prefix,"PARTITION %s",name);
+      std::string prefix_str = std::string("PARTITION ")+name;
+      const char* prefix = prefix_str.c_str();
       EnGPar_Status_Message("%s: Empty Parts: %d\n",prefix,empty);
       EnGPar_Status_Message("%s: Disconnected Components: <max,tot> %.3f %.3f\n",
                             prefix,max[0],total[0]);
@@ -112,8 +114,10 @@ namespace engpar {
       EnGPar_Status_Message("%s: Total Vertex: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",
                             prefix,max[3],min[3],avg[3],max[3]/avg[3]);
       for (int i=0;i<g->numEdgeTypes();i++) {
-        char edge_name[30];
-        sprintf(edge_name,"%s: Edges type %d",prefix,i);
+        std::stringstream edge_str;
+        edge_str << prefix_str << ": Edges type " << i;
+        std::string edge_name_str = edge_str.str();
+        const char* edge_name = edge_name_str.c_str();
         EnGPar_Status_Message("%s: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",edge_name,
                               max[4+i*2],min[4+i*2],avg[4+i*2],max[4+i*2]/avg[4+i*2]);
         EnGPar_Status_Message("%s Cut: <max,tot> %.3f %.3f\n", edge_name,
-- 
2.43.0


From 5ca82e8cb659b9a1683cb83b6519b328e67ce24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 13/44] fix: count no disconnected components on an empty part

---
 partition/engpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index ac30b74..9cf0add 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -50,7 +50,7 @@ namespace engpar {
     }
 
     g->destroyTag(visited);
-    return dis-1;
+    return dis>0 ? dis-1 : 0;
   }
 
   void evaluatePartition(agi::Ngraph* g,const char* name) {
-- 
2.43.0


From 7005f26e67a0bd067877c3cfe2abb4fe7ee04bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 14/44] fix: keep the fractions of edge weights in the sides of
 a part

---
 partition/Diffusive/src/engpar_balancer.cpp |  2 +-
 partition/Diffusive/src/engpar_balancer.h   |  2 +-
 partition/Diffusive/src/engpar_make.cpp     |  6 +++---
 partition/Diffusive/src/engpar_sides.h      |  2 +-
 partition/Diffusive/src/engpar_targets.h    | 10 +++++-----
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index f470942..3575bd9 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -273,7 +273,7 @@ namespace engpar {
         }
       }
       if (!PCU_Comm_Self() && verbosity >= 2)
-        EnGPar_Status_Message("Side Tolerance is: %d\n", sideTol);
+        EnGPar_Status_Message("Side Tolerance is: %f\n", sideTol);
 
       //Run diffusion
       int rc;
diff --git a/partition/Diffusive/src/engpar_balancer.h b/partition/Diffusive/src/engpar_balancer.h
index ba4ef27..f44878d 100644
--- a/partition/Diffusive/src/engpar_balancer.h
+++ b/partition/Diffusive/src/engpar_balancer.h
@@ -34,7 +34,7 @@ namespace engpar {
     Input* input;
     double totStepTime;
     double distance_time;
-    int sideTol;
+    wgt_t sideTol;
     agi::Ngraph* weightGraph;
     agi::MigrationTimers* migrTime;
   };
diff --git a/partition/Diffusive/src/engpar_make.cpp b/partition/Diffusive/src/engpar_make.cpp
index 39deda4..82675fe 100644
--- a/partition/Diffusive/src/engpar_make.cpp
+++ b/partition/Diffusive/src/engpar_make.cpp
@@ -16,17 +16,17 @@ namespace engpar {
   Weights* makeWeights(agi::Ngraph* g, bool countGhosts, Sides* s, int target) {
     return new Weights(g,countGhosts,s,target);
   }
-  Targets* makeTargets(bool isHG, double sf, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(bool isHG, double sf, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(isHG, sf,s,tW,sT,cWs,cTs);
   }
 
-  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(in->g->isHyper(),in->step_factor,s,tW,sT,cWs,cTs);
   }
   Targets* makePartWeightTargets(DiffusiveInput* in, Sides* s, agi::WeightPartitionMap* wp_map,
-                                 int sT, Weights** cWs, std::vector<wgt_t>& cTs) {
+                                 wgt_t sT, Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(in->g->isHyper(),in->step_factor,s,wp_map,sT,cWs,cTs);
   }
 
diff --git a/partition/Diffusive/src/engpar_sides.h b/partition/Diffusive/src/engpar_sides.h
index 7ee95ac..4509bf1 100644
--- a/partition/Diffusive/src/engpar_sides.h
+++ b/partition/Diffusive/src/engpar_sides.h
@@ -8,7 +8,7 @@
 #include "engpar_diffusive_input.h"
 
 namespace engpar {
-  class Sides : public Container<int>  {
+  class Sides : public Container<wgt_t>  {
   public:
     Sides(agi::Ngraph* g, agi::etype t) {
       agi::GraphEdge* edge;
diff --git a/partition/Diffusive/src/engpar_targets.h b/partition/Diffusive/src/engpar_targets.h
index 7c74ea0..ce1eb54 100644
--- a/partition/Diffusive/src/engpar_targets.h
+++ b/partition/Diffusive/src/engpar_targets.h
@@ -9,7 +9,7 @@ namespace engpar {
 
   class Targets : public Container<wgt_t> {
   public:
-    Targets(bool isHyper, double step_factor, Sides* s, Weights* targetW, int sideTol,
+    Targets(bool isHyper, double step_factor, Sides* s, Weights* targetW, wgt_t sideTol,
             Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
       Sides::iterator itr;
       //For each side
@@ -38,7 +38,7 @@ namespace engpar {
     }
 
     Targets(bool isHyper, double, Sides* s, agi::WeightPartitionMap* wp_map,
-            int sideTol, Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
+            wgt_t sideTol, Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
       Sides::iterator itr;
       for (itr = s->begin();itr!=s->end();itr++) {
         int neighbor = itr->first;
@@ -64,14 +64,14 @@ namespace engpar {
       }
     }
   };
-  Targets* makeTargets(bool isHyper, double step_factor, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(bool isHyper, double step_factor, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs,std::vector<wgt_t>& cTs);
 
-  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs,std::vector<wgt_t>& cTs);
 
   Targets* makePartWeightTargets(DiffusiveInput* in, Sides* s, agi::WeightPartitionMap* wp_map,
-                                 int sT, Weights** cWs, std::vector<wgt_t>& cTs);
+                                 wgt_t sT, Weights** cWs, std::vector<wgt_t>& cTs);
 }
 
 #endif
-- 
2.43.0


From 698eb6d78f9aaf99ed72d8a6966d538509c066c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 15/44] fix: count disconnected components of traditional
 graphs regardless of edge direction

---
 partition/engpar.cpp | 55 +++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 9cf0add..d8e7ca3 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -5,51 +5,44 @@
 #include <engpar_metrics.h>
 #include <sstream>
 #include <string>
+#include <vector>
 
 namespace engpar {
 
-  void bfs(agi::Ngraph* g, agi::GraphVertex* v, agi::GraphTag* visited) {
-    agi::GraphVertex** queue = new agi::GraphVertex*[g->numLocalVtxs()];
-    queue[0] = v;
-    g->setIntTag(visited,v,1);
-    agi::lid_t size=1;
-    agi::lid_t i=0;
-    while (i<size) {
-      agi::GraphVertex* u = queue[i++];
-      agi::GraphVertex* other;
-      agi::GraphIterator* gitr = g->adjacent(u);
-      while ((other = g->iterate(gitr))) {
-        if (g->owner(other)!=PCU_Comm_Self())
-          continue;
-        if (g->getIntTag(visited,other)==0) {
-          queue[size++] = other;
-          g->setIntTag(visited,other,1);
-        }
-      }
-      g->destroy(gitr);
+  agi::lid_t findSet(std::vector<agi::lid_t>& parents, agi::lid_t i) {
+    while (parents[i]!=i) {
+      parents[i] = parents[parents[i]];
+      i = parents[i];
     }
-    delete [] queue;
+    return i;
   }
 
   int countDisconnected(agi::Ngraph* g) {
-    int dis = 0;
+    //Disjoint sets of the local vertices, adjacent vertices are in the same set
+    // regardless of the direction of the edge between them
+    std::vector<agi::lid_t> parents(g->numLocalVtxs());
+    for (agi::lid_t i=0;i<g->numLocalVtxs();i++)
+      parents[i] = i;
+    int dis = g->numLocalVtxs();
 
-    agi::GraphTag* visited = g->createIntTag();
     agi::VertexIterator* vitr = g->begin();
     agi::GraphVertex* vtx;
     while ((vtx = g->iterate(vitr))) {
-      g->setIntTag(visited,vtx,0);
-    }
-
-    vitr = g->begin();
-    while ((vtx = g->iterate(vitr))) {
-      if (g->getIntTag(visited,vtx)==0) {
-        bfs(g,vtx,visited);
-        dis++;
+      agi::GraphVertex* other;
+      agi::GraphIterator* gitr = g->adjacent(vtx);
+      while ((other = g->iterate(gitr))) {
+        if (g->owner(other)!=PCU_Comm_Self())
+          continue;
+        agi::lid_t a = findSet(parents,g->localID(vtx));
+        agi::lid_t b = findSet(parents,g->localID(other));
+        if (a!=b) {
+          parents[b] = a;
+          dis--;
+        }
       }
+      g->destroy(gitr);
     }
 
-    g->destroyTag(visited);
     return dis>0 ? dis-1 : 0;
   }
 
-- 
2.43.0


From 1cb56c03c0f1775ac46dcb33e0ce3ea2cafc36e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:05 +0000
Subject: [PATCH 16/44] fix: seed the distance computation with an existing
 edge

---
 partition/Diffusive/src/engpar_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 8b1bf82..94159c2 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -255,9 +255,9 @@ namespace engpar {
     //Setup Inputs for first BFS traversal
     Inputs* in1 = new Inputs;
     in1->seeds = new agi::lid_t[pg->num_local_edges[t]];
-    //If run in serial use edge 2 for the seed
+    //If run in serial use edge 2 (or the last edge) for the seed
     if (g->numGhostVtxs()==0)
-       in1->seeds[in1->numSeeds++]=2;
+      in1->seeds[in1->numSeeds++] = pg->num_local_edges[t]>2 ? 2 : pg->num_local_edges[t]-1;
     //Otherwise use all edges that are shared across part boundaries
     else if (pg->isHyperGraph) {
       for (agi::lid_t i=0;i<pg->num_local_edges[t];i++) {
-- 
2.43.0


From e32eb34d638b59b6523a186a050aa722c8f7c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 17/44] fix: visit the edges of traditional graphs in the pull
 based traversal

---
 partition/Diffusive/src/engpar_queue.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 94159c2..87ee1c7 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -210,21 +210,21 @@ namespace engpar {
     agi::lid_t* next_vtxs = new agi::lid_t[pg->num_local_verts];
     agi::lid_t num_nv = 0;
     int num_updates;
-    //Implemented for HG
+    //In traditional mode the out edges of a vertex are numbered by their offsets
     do {
       num_updates=0;
       for (agi::lid_t i=0;i<num_cv;i++) {
         int source = -1;
         agi::lid_t v = current_vtxs[i];
         for (agi::lid_t j=pg->degree_list[t][v];j<pg->degree_list[t][v+1];j++){
-          agi::lid_t edge = pg->edge_list[t][j];
+          agi::lid_t edge = pg->isHyperGraph ? pg->edge_list[t][j] : j;
           if (in->visited[edge] != -1 &&
               (source == -1 || in->visited[edge] < in->visited[source]))
             source = edge;
         }
         if (source!=-1&&in->visited[source]==level) {
           for (agi::lid_t j=pg->degree_list[t][v];j<pg->degree_list[t][v+1];j++){
-            agi::lid_t edge = pg->edge_list[t][j];
+            agi::lid_t edge = pg->isHyperGraph ? pg->edge_list[t][j] : j;
             num_updates+=visit(in,source,edge);
           }
         }
-- 
2.43.0


From 6694bd4ee3361f29bdcf2f6da38bf5f574580a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 18/44] fix: keep the traversals of the distance computation
 apart on traditional graphs

---
 partition/Diffusive/src/engpar_queue.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 87ee1c7..72b01df 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -128,6 +128,9 @@ namespace engpar {
       return true;
     }
     int l2 = i->labels[dest];
+    //The edge belongs to an earlier traversal (edges of traditional graphs are directed)
+    if (l2==-1)
+      return false;
     while(l2!=i->parents[l2]) 
       l2=i->parents[l2];
     if (label!=l2) {
@@ -370,6 +373,8 @@ namespace engpar {
       bfsSort(in2->seeds,start_seed,in2->numSeeds-1,in2->visited);
       
       //Cleanup disjoint sets
+      for (agi::lid_t i=start_seed;i<in2->numSeeds;i++)
+        in2->labels[in2->seeds[i]] = -1;
       delete [] in2->parents;
       in2->parents = NULL;
       delete [] in2->set_size;
-- 
2.43.0


From 907097567a23f50996ee848e08a360f320fa2f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 19/44] fix: exchange weights both ways between neighbors of
 traditional graphs

---
 partition/Diffusive/src/engpar_weights.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/partition/Diffusive/src/engpar_weights.h b/partition/Diffusive/src/engpar_weights.h
index 23349d9..b3e09d9 100644
--- a/partition/Diffusive/src/engpar_weights.h
+++ b/partition/Diffusive/src/engpar_weights.h
@@ -26,6 +26,22 @@ namespace engpar {
         PCU_COMM_UNPACK(otherWeight);
         set(PCU_Comm_Sender(),otherWeight);
       }
+
+      //The sides of traditional graphs can be one directional, so
+      // reply to the neighbors that do not receive the weight of this part
+      if (g->isHyper())
+        return;
+      PCU_Comm_Begin();
+      iterator witr;
+      for (witr=begin();witr!=end();witr++)
+        if (!s->has(witr->first))
+          PCU_COMM_PACK(witr->first,myWeight());
+      PCU_Comm_Send();
+      while (PCU_Comm_Listen()) {
+        double otherWeight;
+        PCU_COMM_UNPACK(otherWeight);
+        set(PCU_Comm_Sender(),otherWeight);
+      }
     }
     const wgt_t& myWeight() const {return my_weight;}
     void addWeight(wgt_t w) {my_weight+=w;}
-- 
2.43.0


From 2192898ba74a7eeac505891c93c14a7a2d4edf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 20/44] fix: run no more balancing steps than the iteration
 limits

---
 partition/Diffusive/src/engpar_balancer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 3575bd9..054f990 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -276,9 +276,12 @@ namespace engpar {
         EnGPar_Status_Message("Side Tolerance is: %f\n", sideTol);
 
       //Run diffusion
-      int rc;
-      while ((rc = runStep(tol)) == 0 && inner_steps++ < inp->maxIterationsPerType &&
-             step++ < inp->maxIterations);
+      int rc = 0;
+      while (inner_steps < inp->maxIterationsPerType && step < inp->maxIterations &&
+             (rc = runStep(tol)) == 0) {
+        inner_steps++;
+        step++;
+      }
 
       //Keep track of completed dimension for trim/cancel
       completed_dimensions.push_back(target_dimension);
-- 
2.43.0


From 6a1bd967226d84631d6839d31eb84686adf5192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 21/44] fix: do not send cavities that have no peers

---
 partition/Diffusive/src/engpar_selector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index c890e38..8e28429 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -233,7 +233,8 @@ namespace engpar {
       Cavity& cav = cavities[q->get(itr)];
       Peers peers;
       getCavityPeers(g,plan,cav,peers);
-      if (isPartiallyConnected(g,in->connectivityType,in->minConnectivity,plan,cav)) {
+      if (!peers.empty() &&
+          isPartiallyConnected(g,in->connectivityType,in->minConnectivity,plan,cav)) {
         addCavity(g,cav,*peers.begin(),plan,target_dimension);
       }
     }
-- 
2.43.0


From cfad81bbc0e504757af87501aaf07f05ed668a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 22/44] fix: account for all edges sent with the vertices of
 traditional graphs

---
 partition/Diffusive/src/engpar_selector.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 8e28429..bae0bdc 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -16,6 +16,12 @@ namespace std {
 }
 
 namespace engpar {
+  //Returns true if sending a vertex of the edge to the peer adds the edge to the peer
+  //  In traditional graphs the edge is only on the part that owns its source
+  bool addsEdge(agi::Ngraph* g, agi::GraphEdge* edge, agi::part_t peer) {
+    return !g->isHyper() || !g->isResidentOn(edge,peer);
+  }
+
   void getCavity(agi::Ngraph* g, agi::GraphEdge* edge, Cavity& cav) {
     //Grab all vertices connected to the edge that are on part
     agi::PinIterator* pitr = g->pins(edge);
@@ -120,7 +126,7 @@ namespace engpar {
     EdgeSet::iterator sitr;
     for (sitr = target_edges.begin();sitr!=target_edges.end();++sitr) {
       agi::GraphEdge* e = *sitr;
-      if (!g->isResidentOn(e,peer))
+      if (addsEdge(g,e,peer))
         w+=g->weight(e);
     }
     return w;
@@ -245,7 +251,7 @@ namespace engpar {
     agi::EdgeIterator* eitr = g->edges(vtx,dim);
     agi::GraphEdge* e;
     while ((e = g->iterate(eitr))) {
-      if (!g->isResidentOn(e,dest))
+      if (addsEdge(g,e,dest))
         edges.insert(e);
     }
     g->destroy(eitr);
@@ -258,7 +264,7 @@ namespace engpar {
     while ((e = g->iterate(eitr))) {
       if (edges.find(e)!=edges.end())
         continue;
-      if (!g->isResidentOn(e,dest))
+      if (addsEdge(g,e,dest))
         tmpEdges.insert(e);
     }
     g->destroy(eitr);
-- 
2.43.0


From 979393b918ef5eeadd88614fd3a83e9f60339465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 23/44] fix: trim plans for any number of completed dimensions

---
 partition/Diffusive/src/engpar_selector.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index bae0bdc..375004f 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -280,11 +280,10 @@ namespace engpar {
   }
   struct Migr {
     Migr(int i) :
-      id(i), edge_types(0) {}
-    void addWeight(double w) {ws[edge_types++]=w;}
+      id(i) {}
+    void addWeight(double w) {ws.push_back(w);}
     int id;
-    double ws[5];
-    int edge_types;
+    std::vector<double> ws;
   };
   struct CompareMigr {
     //sort by part first completed edge type weights
-- 
2.43.0


From 4c3b11f702003d5c0d2231e8d507c6b3eba3e8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 24/44] fix: allow cavities of any size

---
 partition/Diffusive/src/engpar_selector.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 375004f..7889389 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -34,16 +34,12 @@ namespace engpar {
   
   void Selector::constructCavities() {
     q->startIteration();
-    int cav_sizes[100];
-    for (int i =0; i < 100; ++i)
-      cav_sizes[i] = 0;
     Queue::iterator itr;
     for (itr = q->begin();itr!=q->end();itr++) {
       Cavity cav;
       getCavity(g, q->get(itr), cav);
       cavities.insert(std::make_pair(q->get(itr),cav));
       q->addElement(q->get(itr));
-      cav_sizes[cav.size()]++;
     }
   }
   
-- 
2.43.0


From 1283b097e5ec3a9876da7ffddf3db5a40eb32d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 25/44] fix: reduce truth values in PCU_Or and PCU_And

---
 pcu/pcu.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcu/pcu.c b/pcu/pcu.c
index e600b6f..d3f83ea 100644
--- a/pcu/pcu.c
+++ b/pcu/pcu.c
@@ -474,14 +474,14 @@ int PCU_Max_Int(int x)
   */
 int PCU_Or(int c)
 {
-  return PCU_Max_Int(c);
+  return PCU_Max_Int(c != 0);
 }
 
 /** \brief Performs a parallel logical AND reduction
   */
 int PCU_And(int c)
 {
-  return PCU_Min_Int(c);
+  return PCU_Min_Int(c != 0);
 }
 
 /** \brief Returns the unique rank of the calling process.
-- 
2.43.0


From 1031d4868cd9825a0f955de9522614e5eee14f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 26/44] fix: finalize only a PCU that EnGPar initialized

---
 support/engpar_support.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/engpar_support.cpp b/support/engpar_support.cpp
index d309b21..bcd77e4 100644
--- a/support/engpar_support.cpp
+++ b/support/engpar_support.cpp
@@ -21,6 +21,7 @@ void EnGPar_Finalize() {
   EnGPar_Close_Log();
   if (handlingPCU &&PCU_Comm_Initialized())
     PCU_Comm_Free();
+  handlingPCU=false;
 }
 
 void EnGPar_Switch_Comm(MPI_Comm comm) {
-- 
2.43.0


From b5e0de0bf81f84bd7e5a0846efaf80b5ee29482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 27/44] fix: label all vertices when loading a binary edge list

Targets were relabelled and then looked up again as global ids, and vertices
with no edge on their process were never labelled.
---
 interfaces/binGraph.cpp | 49 +++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index bc80493..6eb314e 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -1,6 +1,7 @@
 #include <engpar_support.h>
 #include "binGraph.h"
 #include <mpi.h>
+#include <cassert>
 #include <cstdlib>
 #include <fstream>
 #include <string>
@@ -289,19 +290,24 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   local_weights = new wgt_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
     local_weights[i] = 1;
-  int64_t cur_label = 0;
-  for (int64_t i = 0; i < num_local_edges[t]*2; i++) {
-    int64_t out = edge_list[t][i];
-    if (ranks[out] != PCU_Comm_Self())
+  //Label the vertices on this process in order of appearance in the edges
+  lid_t cur_label = 0;
+  for (lid_t i = 0; i < num_local_edges[t]*2; i++) {
+    gid_t gid = edge_list[t][i];
+    if (ranks[gid] != PCU_Comm_Self() || vtx_mapping.count(gid))
       continue;
-    if (vtx_mapping.count(out) == 0) {
-      vtx_mapping[out] = cur_label;
-      local_unmap[cur_label] = out;
-      edge_list[t][i] = cur_label++;
-    }
-    else        
-      edge_list[t][i] = vtx_mapping[out];
+    vtx_mapping[gid] = cur_label;
+    local_unmap[cur_label++] = gid;
+  }
+  //followed by those with no edge on this process
+  for (gid_t gid = 0; gid < num_global_verts; ++gid) {
+    if (ranks[gid] != PCU_Comm_Self() || vtx_mapping.count(gid))
+      continue;
+    vtx_mapping[gid] = cur_label;
+    local_unmap[cur_label++] = gid;
   }
+  assert(cur_label == num_local_verts);
+
   lid_t* tmp_edges = new lid_t[num_local_edges[t]];
   lid_t* temp_counts = new lid_t[num_local_verts];
   degree_list[t] = new lid_t[num_local_verts+1];
@@ -310,30 +316,27 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   for (lid_t i = 0; i < num_local_verts; ++i)
     temp_counts[i] = 0;
   for (lid_t i = 0; i < num_local_edges[t]*2; i+=2)
-    ++temp_counts[edge_list[t][i]];
+    ++temp_counts[vtx_mapping[edge_list[t][i]]];
   for (lid_t i = 0; i < num_local_verts; ++i)
     degree_list[t][i+1] = degree_list[t][i] + temp_counts[i];
   memcpy(temp_counts, degree_list[t], num_local_verts*sizeof(lid_t));
+  //The targets remain global ids until the ghost vertices are labeled
   for (lid_t i = 0; i < num_local_edges[t]*2; i+=2) {
-    tmp_edges[temp_counts[edge_list[t][i]]++] = edge_list[t][i+1];
+    tmp_edges[temp_counts[vtx_mapping[edge_list[t][i]]]++] = edge_list[t][i+1];
   }
   delete [] temp_counts;
   delete [] edge_list[t];
   edge_list[t] = tmp_edges;
   
-
   if (createGhost) {
     cur_label = num_local_verts;
-    std::vector<int64_t> nonlocal_vids;
-    for (int64_t i = 0; i < num_local_edges[t]; ++i) {
-      int64_t out = edge_list[t][i];
-      if (vtx_mapping.find(out) ==vtx_mapping.end()) {
-        vtx_mapping[out] = cur_label;
-        edge_list[t][i] = cur_label++;
+    std::vector<gid_t> nonlocal_vids;
+    for (lid_t i = 0; i < num_local_edges[t]; ++i) {
+      gid_t out = edge_list[t][i];
+      if (vtx_mapping.find(out) == vtx_mapping.end()) {
+        vtx_mapping[out] = cur_label++;
         nonlocal_vids.push_back(out);
       }
-      else if (vtx_mapping[out] >= num_local_verts)
-        edge_list[t][i] = vtx_mapping[out];
     }
     num_ghost_verts = cur_label - num_local_verts;
     if (num_ghost_verts>0) {
@@ -345,6 +348,8 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
       }
     }
   }
+  for (lid_t i = 0; i < num_local_edges[t]; ++i)
+    edge_list[t][i] = vtx_mapping[edge_list[t][i]];
 
   //Create the ghost weights
   if (PCU_Comm_Peers() > 1)
-- 
2.43.0


From ec7509fd59f151a12974f0525d5730f0f4787022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 28/44] fix: renumber the original owners when the graph moves
 to a larger communicator

Original owners recorded before a split kept the numbers of the small communicator.
---
 agi/agiVertex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 55ed6ef..6abe909 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -164,6 +164,9 @@ bool Ngraph::isEqual(GraphVertex* u,GraphVertex* v) const {
   void Ngraph::changeOwners(int* newRanks) {
     for (int i=0;i<num_ghost_verts;++i)
       owners[i] = newRanks[owners[i]];
+    if (original_owners)
+      for (lid_t i=0;i<num_local_verts;++i)
+        original_owners[i] = newRanks[original_owners[i]];
   }
 
   VEVIterator* Ngraph::vev_begin(GraphVertex* vtx, etype t) const {
-- 
2.43.0


From a1eccd6e362e423e3944f2787744636398ba9da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 29/44] fix: give local ParMETIS the edges between the vertices
 of every process

Under MPI_COMM_SELF the owner of a local vertex is 0, so processes other than 0
passed no adjacency at all.
---
 partition/Multilevel/engpar_parmetis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/partition/Multilevel/engpar_parmetis.cpp b/partition/Multilevel/engpar_parmetis.cpp
index f97764b..547da93 100644
--- a/partition/Multilevel/engpar_parmetis.cpp
+++ b/partition/Multilevel/engpar_parmetis.cpp
@@ -58,7 +58,7 @@ namespace engpar {
           if (other==vtx)
             continue;
           agi::part_t owner = g->owner(other);
-          if (!isLocal || owner ==input->self)
+          if (!isLocal || g->localID(other) < g->numLocalVtxs())
             neighbors[other]=1;
           if (!isLocal)
             res.insert(owner);
@@ -109,8 +109,8 @@ namespace engpar {
       g->destroy(gitr);
       for (VertexSet::iterator vsItr = neighbors.begin(); vsItr != neighbors.end(); vsItr++) {
         agi::GraphVertex* other = vsItr->first;
-        if (g->owner(other)==input->self) {
-          agi::lid_t lidv = g->localID(other);
+        agi::lid_t lidv = g->localID(other);
+        if (lidv < g->numLocalVtxs()) {
           adjncy[deg] = gids[lidv]; 
           ewgts[deg++] = vsItr->second;
         }
-- 
2.43.0


From ac3a00fd6110a25bda5173db4f92194210c0333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 30/44] fix: renumber the owners before Zoltan runs on the
 large communicator

The neighbors of a vertex were given to Zoltan with the process numbers of the
small communicator.
---
 partition/Multilevel/engpar_split.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/partition/Multilevel/engpar_split.cpp b/partition/Multilevel/engpar_split.cpp
index 969bf04..668581b 100644
--- a/partition/Multilevel/engpar_split.cpp
+++ b/partition/Multilevel/engpar_split.cpp
@@ -29,6 +29,9 @@ namespace engpar {
     agi::Migration* plan = NULL;
     inp->self = PCU_Comm_Self();
     if (method == ZOLTAN_PHG) {
+      //Zoltan runs on the large communicator
+      if (inp->isOriginal)
+        expandParts(inp->g,inp->largeComm);
       PCU_Switch_Comm(inp->largeComm);
       plan = EnGPar_Zoltan(inp,inp->total_parts,false);
       PCU_Switch_Comm(inp->smallComm);
@@ -49,7 +52,8 @@ namespace engpar {
         }
         PCU_Switch_Comm(inp->smallComm);
       }
-      expandParts(inp->g,inp->largeComm);
+      if (method != ZOLTAN_PHG)
+        expandParts(inp->g,inp->largeComm);
     }
     else {
       if (plan)
-- 
2.43.0


From abb0a4cc43bb0ce4ec05520cbe40d231d224413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 31/44] fix: give Zoltan the chosen edge type and the right
 number of pins

The callbacks always used edge type 0, and counted the pins of ghost vertices,
which left the list of the last vertex partly unwritten.
---
 partition/Multilevel/engpar_zoltan.cpp | 50 +++++++++++++++-----------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/partition/Multilevel/engpar_zoltan.cpp b/partition/Multilevel/engpar_zoltan.cpp
index cb5dfc4..924aefd 100644
--- a/partition/Multilevel/engpar_zoltan.cpp
+++ b/partition/Multilevel/engpar_zoltan.cpp
@@ -120,10 +120,15 @@ namespace engpar {
 
   //ZOLTAN_HG_SIZE_CS_FN
   void numHyperedges(void* data, int* numVtxs, int* numPins, int* format, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     *numVtxs = g->numLocalVtxs();
-    //TODO: this number is inaccurate in parallel
-    *numPins = g->numLocalPins();
+    //Only the pins of local vertices are listed
+    *numPins = 0;
+    agi::GraphVertex* v;
+    agi::VertexIterator* vitr = g->begin();
+    while ((v = g->iterate(vitr)))
+      *numPins += g->degree(v,input->edge_type);
     *format = ZOLTAN_COMPRESSED_VERTEX;
     *ierr = ZOLTAN_OK;
   }
@@ -131,7 +136,8 @@ namespace engpar {
   //ZOLTAN_HG_CS_FN
   void getHyperedges(void* data, int ngid, int, int, int,
                      ZOLTAN_ID_PTR vtx_gids, int* offsets, ZOLTAN_ID_PTR edge_gids, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     agi::GraphVertex* v;
     agi::VertexIterator* vitr = g->begin();
     int index = 0;
@@ -140,9 +146,9 @@ namespace engpar {
       agi::lid_t lid = g->localID(v);
       vtx_gids[lid*ngid] = g->globalID(v);
       if (lid < g->numLocalVtxs()-1)
-        offsets[lid+1] = offsets[lid] + g->degree(v); 
+        offsets[lid+1] = offsets[lid] + g->degree(v,input->edge_type);
       agi::GraphEdge* e;
-      agi::EdgeIterator* eitr = g->edges(v);
+      agi::EdgeIterator* eitr = g->edges(v,input->edge_type);
       while ((e = g->iterate(eitr))) {
         edge_gids[index++] = g->globalID(e);
       }
@@ -153,17 +159,19 @@ namespace engpar {
 
   //ZOLTAN_HG_SIZE_EDGE_WTS_FN
   void numHyperedgeWeights(void *data, int* num_edges, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
-    *num_edges = g->numLocalEdges();
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
+    *num_edges = g->numLocalEdges(input->edge_type);
     *ierr = ZOLTAN_OK;
   }
   
   //ZOLTAN_HG_EDGE_ETS_FN
   void getHyperedgeWeights(void* data, int ngids, int nlids, int, int nweights,
                            ZOLTAN_ID_PTR gids, ZOLTAN_ID_PTR lids, float* wgts, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     agi::GraphEdge* e;
-    agi::EdgeIterator* eitr = g->begin(0);
+    agi::EdgeIterator* eitr = g->begin(input->edge_type);
     while ((e = g->iterate(eitr))) {
       agi::lid_t lid = g->localID(e);
       lids[nlids*lid] = lid;
@@ -178,21 +186,23 @@ namespace engpar {
 
   //ZOLTAN_NUM_EDGES_FN
   int numEdges(void* data, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR lid, int *ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     *ierr = ZOLTAN_OK;
     agi::PNgraph* pg = g->publicize();
     agi::GraphVertex* v = pg->getVertex(*lid);
-    return g->degree(v);
+    return g->degree(v,input->edge_type);
   }
 
   //ZOLTAN_EDGE_LIST_FN
   void getEdges(void* data, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR lid,
                 ZOLTAN_ID_PTR nbrs, int* owners, int, float* wgts, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     agi::PNgraph* pg = g->publicize();
     agi::GraphVertex* u = pg->getVertex(*lid);
 
-    agi::EdgeIterator* eitr = g->edges(u);
+    agi::EdgeIterator* eitr = g->edges(u,input->edge_type);
     agi::GraphEdge* e;
     int index = 0;
     while ((e = g->iterate(eitr))) {
@@ -214,19 +224,19 @@ namespace engpar {
                   (void (*)())getVertices,(void*) input->g);
     if (isHyper) {
       Zoltan_Set_Fn(zz, ZOLTAN_HG_SIZE_CS_FN_TYPE,
-                    (void (*)())numHyperedges,(void*) input->g);
+                    (void (*)())numHyperedges,(void*) input);
       Zoltan_Set_Fn(zz, ZOLTAN_HG_CS_FN_TYPE,
-                    (void (*)())getHyperedges,(void*) input->g);
+                    (void (*)())getHyperedges,(void*) input);
       Zoltan_Set_Fn(zz, ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE,
-                    (void (*)())numHyperedgeWeights,(void*) input->g);
+                    (void (*)())numHyperedgeWeights,(void*) input);
       Zoltan_Set_Fn(zz, ZOLTAN_HG_EDGE_WTS_FN_TYPE,
-                    (void (*)())getHyperedgeWeights,(void*) input->g);
+                    (void (*)())getHyperedgeWeights,(void*) input);
     }
     else {
       Zoltan_Set_Fn(zz, ZOLTAN_NUM_EDGES_FN_TYPE,
-                    (void (*)())numEdges, (void*) input->g);
+                    (void (*)())numEdges, (void*) input);
       Zoltan_Set_Fn(zz, ZOLTAN_EDGE_LIST_FN_TYPE,
-                    (void (*)())getEdges, (void*) input->g);
+                    (void (*)())getEdges, (void*) input);
     }
   }
 #else
-- 
2.43.0


From 241d52d8dfb1895fee444d752cb2526907aaf9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 32/44] fix: evaluate graphs that have no edge types

---
 partition/engpar.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index d8e7ca3..a4a48cc 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -27,7 +27,7 @@ namespace engpar {
 
     agi::VertexIterator* vitr = g->begin();
     agi::GraphVertex* vtx;
-    while ((vtx = g->iterate(vitr))) {
+    while (g->numEdgeTypes()>0 && (vtx = g->iterate(vitr))) {
       agi::GraphVertex* other;
       agi::GraphIterator* gitr = g->adjacent(vtx);
       while ((other = g->iterate(gitr))) {
@@ -58,11 +58,14 @@ namespace engpar {
     my_vals[0] = countDisconnected(g);
 
     //Neighbors
-    DiffusiveInput* in = static_cast<DiffusiveInput*>(createDiffusiveInput(g,0));
-    Sides* sides = makeSides(in);
-    my_vals[1] = sides->size();
-    delete in;
-    delete sides;
+    my_vals[1] = 0;
+    if (g->numEdgeTypes()>0) {
+      DiffusiveInput* in = static_cast<DiffusiveInput*>(createDiffusiveInput(g,0));
+      Sides* sides = makeSides(in);
+      my_vals[1] = sides->size();
+      delete in;
+      delete sides;
+    }
     
     //Vertex Imbalance
     my_vals[2] = getWeight(g,-1);
-- 
2.43.0


From 0f098d442df2348396fb5f69d7a550ad7a5169a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:09 +0000
Subject: [PATCH 33/44] fix: attach migrated coordinates by vertex id, not by
 order of arrival

With message ordering off (PCU_Comm_Order(false)) the coordinates could arrive
in another order than the vertices and were given to the wrong ones.
---
 agi/agiMigrate.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index c61a5b8..5b5f313 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -187,7 +187,9 @@ namespace agi {
     old_owners.push_back(old_owner);
   }
   void Ngraph::sendCoord(GraphVertex* vtx, part_t toSend) {
+    gid_t gid = globalID(vtx);
     const coord_t& c = coord(vtx);
+    PCU_COMM_PACK(toSend,gid);
     PCU_COMM_PACK(toSend,c[0]);
     PCU_COMM_PACK(toSend,c[1]);
     PCU_COMM_PACK(toSend,c[2]);
@@ -356,8 +358,16 @@ namespace agi {
         sendCoord(*itr,plan->get(*itr));
       }
       PCU_Comm_Send();
+      //The messages may come in another order than those of the vertices
+      std::unordered_map<gid_t,lid_t> recvd;
+      for (lid_t i=size;i<(lid_t)ownedVerts.size();i++)
+        recvd[ownedVerts[i]] = i;
       while (PCU_Comm_Receive()) {
-        recvCoord(cs,size);
+        gid_t gid;
+        PCU_COMM_UNPACK(gid);
+        lid_t index = recvd.at(gid);
+        recvCoord(cs,index);
+        size++;
       }
       assert(size==(lid_t)ownedVerts.size());
     }
-- 
2.43.0


From cd6f26599dd768d430769ebe17461d8e49cb73bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:38 +0000
Subject: [PATCH 34/44] fix: write the ghost points that the cells of directed
 graphs refer to

---
 agi/agiVTK.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index f0de133..fed162d 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -82,6 +82,11 @@ namespace agi {
       }
       g->destroy(eitr);
     }
+    else {
+      //Write the position of each ghost vertex, the cells of cut edges end there
+      for (lid_t i=0;i<g->numGhostVtxs();i++)
+        fprintf(f," %f %f %f\n",ghost_cs[i][0],ghost_cs[i][1],ghost_cs[i][2]);
+    }
     fprintf(f,"\n</DataArray>\n</Points>\n");
     delete [] ghost_cs;
   }
@@ -169,6 +174,13 @@ namespace agi {
       }
       g->destroy(eitr);
     }
+    else {
+      agi::GraphVertex* ghost;
+      agi::GhostIterator* gitr = g->beginGhosts();
+      while ((ghost=g->iterate(gitr))) {
+        fprintf(f,"%d\n",g->owner(ghost));
+      }
+    }
     fprintf(f,"</DataArray>\n");
 
     if (g->isHyper()) {
@@ -206,6 +218,10 @@ namespace agi {
         }
         g->destroy(eitr);
       }
+      else {
+        for (lid_t i=0;i<g->numGhostVtxs();i++)
+          fprintf(f,"-1\n");
+      }
       fprintf(f,"</DataArray>\n");
     }
     fprintf(f,"</PointData>\n");
@@ -276,6 +292,8 @@ namespace agi {
     lid_t numPoints = g->numLocalVtxs();
     if (g->isHyper())
       numPoints+= g->numLocalEdges();
+    else
+      numPoints+= g->numGhostVtxs();
     fprintf(f,"<Piece NumberOfPoints=\"%d\" NumberOfCells=\"%ld\">\n",
             numPoints,numCells);
     writePoints(g,f);
-- 
2.43.0


From 1091843e2c99af01763ee7d4b0970722dcba1687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 35/44] fix: tell a used up iteration budget of the weight
 balancer from convergence

---
 partition/Diffusive/src/engpar_weightBalancer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 5a7cf9e..fe948d9 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -192,7 +192,7 @@ namespace engpar {
     if (verbosity >= 0) {
       time = PCU_Max_Double(time);
       if (!PCU_Comm_Self()) {
-        if(step==inp->maxIterations)
+        if(step>inp->maxIterations)
           EnGPar_Status_Message("EnGPar ran to completion in %d iterations in %f seconds\n",
                  inp->maxIterations, time);
         else
-- 
2.43.0


From e990b8e5bd3dd1d077be68e1ad43aacf022992c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 36/44] fix: keep the whole text of log entries

---
 agi/agiConstruct.cpp                        | 18 ++++++-------
 interfaces/binGraph.cpp                     |  5 ++--
 partition/Diffusive/src/engpar_balancer.cpp | 29 ++++++++++-----------
 3 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 18d401e..b67c5e4 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -50,11 +50,11 @@ namespace agi {
                               std::unordered_map<gid_t,part_t>& owns) {
     if (EnGPar_Is_Log_Open()) {
       char message[45];
-      sprintf(message,"constructGraph: ");
+      int len = sprintf(message,"constructGraph: ");
       if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
+        sprintf(message+len,"Creating hypergraph\n");
       else
-        sprintf(message,"%sCreating traditional graph\n",message);
+        sprintf(message+len,"Creating traditional graph\n");
       EnGPar_Log_Function(message);
     }
 
@@ -72,11 +72,11 @@ namespace agi {
                               std::vector<wgt_t>& wgts) {
     if (EnGPar_Is_Log_Open()) {
       char message[45];
-      sprintf(message,"constructVerts: ");
+      int len = sprintf(message,"constructVerts: ");
       if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
+        sprintf(message+len,"Creating hypergraph\n");
       else
-        sprintf(message,"%sCreating traditional graph\n",message);
+        sprintf(message+len,"Creating traditional graph\n");
       EnGPar_Log_Function(message);
     }
     destroyData();
@@ -107,11 +107,11 @@ namespace agi {
                               gid_t* verts, wgt_t* wgts) {
     if (EnGPar_Is_Log_Open()) {
       char message[45];
-      sprintf(message,"constructVerts: ");
+      int len = sprintf(message,"constructVerts: ");
       if (isHG)
-        sprintf(message,"%sCreating hypergraph\n",message);
+        sprintf(message+len,"Creating hypergraph\n");
       else
-        sprintf(message,"%sCreating traditional graph\n",message);
+        sprintf(message+len,"Creating traditional graph\n");
       EnGPar_Log_Function(message);
     }
     destroyData();
diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index 6eb314e..17e2566 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -17,9 +17,8 @@ namespace agi {
 
 Ngraph* createBinGraph(char* graph_file,char* part_file) {
   if (EnGPar_Is_Log_Open()) {
-    char message[256];
-    sprintf(message,"createBinGraph %s\n",graph_file);
-    EnGPar_Log_Function(message);
+    std::string message = std::string("createBinGraph ") + graph_file + "\n";
+    EnGPar_Log_Function(&message[0]);
     EnGPar_End_Function();
   }
 
diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 054f990..558b31a 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -196,26 +196,25 @@ namespace engpar {
     DiffusiveInput* inp = dynamic_cast<DiffusiveInput*>(input);
     if (EnGPar_Is_Log_Open()) {
       char message[1000];
-      sprintf(message,"balance() : \n");
+      char* temp = message;
+      temp += sprintf(temp,"balance() : \n");
       //Log the input parameters
-      sprintf(message,"%s priorities :",message);
+      temp += sprintf(temp," priorities :");
       for (unsigned int i=0;i<inp->priorities.size();i++)
-        sprintf(message,"%s %d",message,inp->priorities[i]);
-      sprintf(message,"%s\n",message);
+        temp += sprintf(temp," %d",inp->priorities[i]);
+      temp += sprintf(temp,"\n");
       if (inp->tolerances.size()>0) {
-        sprintf(message,"%s tolerances :",message);
+        temp += sprintf(temp," tolerances :");
         for (unsigned int i=0;i<inp->tolerances.size();i++)
-          sprintf(message,"%s %f",message,inp->tolerances[i]);
-        sprintf(message,"%s\n",message);
+          temp += sprintf(temp," %f",inp->tolerances[i]);
+        temp += sprintf(temp,"\n");
       }
-      sprintf(message,"%s maxIterations : %d\n",message,inp->maxIterations);
-      sprintf(message,"%s maxIterationsPerType : %d\n",
-              message,inp->maxIterationsPerType);
-      sprintf(message,"%s step_factor : %f\n",message,inp->step_factor);
-      sprintf(message,"%s sides_edge_type : %d\n",message,inp->sides_edge_type);
-      sprintf(message,"%s selection_edge_type : %d\n",
-              message,inp->selection_edge_type);
-      sprintf(message,"%s countGhosts : %d\n",message,inp->countGhosts);
+      temp += sprintf(temp," maxIterations : %d\n",inp->maxIterations);
+      temp += sprintf(temp," maxIterationsPerType : %d\n",inp->maxIterationsPerType);
+      temp += sprintf(temp," step_factor : %f\n",inp->step_factor);
+      temp += sprintf(temp," sides_edge_type : %d\n",inp->sides_edge_type);
+      temp += sprintf(temp," selection_edge_type : %d\n",inp->selection_edge_type);
+      temp += sprintf(temp," countGhosts : %d\n",inp->countGhosts);
       
       EnGPar_Log_Function(message);
     }
-- 
2.43.0


From c8fb0bf5c6f6bff8520e93330c58fead2e15a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 37/44] fix: end exactly those log entries that were begun

---
 agi/agiConstruct.cpp                              |  3 +++
 agi/agiVertex.cpp                                 | 10 +++++-----
 partition/Diffusive/src/engpar_balancer.cpp       |  2 ++
 partition/Diffusive/src/engpar_weightBalancer.cpp |  2 --
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index b67c5e4..933bd1d 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -535,6 +535,9 @@ namespace agi {
         pin_list[t] = new lid_t[0];
       }
     }
+    if (EnGPar_Is_Log_Open()) {
+      EnGPar_End_Function();
+    }
   }
   
   void Ngraph::destroyData() {
diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 6abe909..3843737 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -85,11 +85,11 @@ void Ngraph::setOriginalOwners() {
     sprintf(message,"setOriginalOwners\n");
     EnGPar_Log_Function(message);
   }
-  if (original_owners)
-    return;
-  original_owners = new part_t[num_local_verts];
-  for (lid_t i=0;i<num_local_verts;i++)
-    original_owners[i]=PCU_Comm_Self();
+  if (!original_owners) {
+    original_owners = new part_t[num_local_verts];
+    for (lid_t i=0;i<num_local_verts;i++)
+      original_owners[i]=PCU_Comm_Self();
+  }
   if (EnGPar_Is_Log_Open()) {
     EnGPar_End_Function();
   }
diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 558b31a..6462478 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -220,6 +220,8 @@ namespace engpar {
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("ran in serial, nothing to do exiting...\n");
+      if (EnGPar_Is_Log_Open())
+        EnGPar_End_Function();
       return;
     }
 
diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index fe948d9..909fa1e 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -214,8 +214,6 @@ namespace engpar {
       }
     }
     */
-    if (EnGPar_Is_Log_Open())
-      EnGPar_End_Function();
   }
 
   void balanceWeights(WeightInput* in, int v_) {
-- 
2.43.0


From b35549dc6c00d7c9185f0ecc3c91136a5cbfb6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:09 +0000
Subject: [PATCH 38/44] fix: reset the size of a weight plan when it is cleared

---
 agi/agiWeightMigration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agi/agiWeightMigration.cpp b/agi/agiWeightMigration.cpp
index 3f12858..013a449 100644
--- a/agi/agiWeightMigration.cpp
+++ b/agi/agiWeightMigration.cpp
@@ -30,6 +30,7 @@ namespace agi {
 
   void WeightMigration::clear() {
     sending.clear();
+    s = 0;
   }
 
   WeightMigration::iterator WeightMigration::begin() const {
-- 
2.43.0


From 10d0da8783c6f4ff8468cb9369dd4a3e5b60ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:09 +0000
Subject: [PATCH 39/44] fix: give the status of a graph room for counts of any
 length

---
 agi/agiConstruct.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 933bd1d..677fbbf 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -627,7 +627,8 @@ namespace agi {
     else
       EnGPar_Status_Message("N-graph Status\n");
     EnGPar_Status_Message("Vertices: %ld\n", numGlobalVtxs());
-    char edges[100];
+    //Each type takes its number, its count and the text around them
+    char edges[10+MAX_TYPES*40];
     int n = sprintf(edges,"Edges: ");
     char* temp = edges + n;
     for (etype t = 0; t < numEdgeTypes(); t++) {
-- 
2.43.0


From 6bcd2be1ca105acb88f53f1d773b534774c9dc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:09 +0000
Subject: [PATCH 40/44] fix: allow file names of any length when saving,
 loading and drawing graphs

---
 agi/agiIO.cpp  | 16 ++++++++--------
 agi/agiVTK.cpp | 17 ++++++-----------
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/agi/agiIO.cpp b/agi/agiIO.cpp
index 52d0310..aad8866 100644
--- a/agi/agiIO.cpp
+++ b/agi/agiIO.cpp
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <PCU.h>
 #include <cstring>
+#include <string>
 #include <sys/stat.h>
 #include <pcu_io.h>
 namespace agi {
@@ -124,11 +125,10 @@ namespace agi {
   //Recursive mkdir function modified from here:
   //http://nion.modprobe.de/blog/archives/357-Recursive-directory-creation.html
   void mkdir_r(const char *dir) {
-    char tmp[256];
+    std::string path(dir);
+    char *tmp = &path[0];
     char *p = NULL;
-    size_t len;
-    snprintf(tmp, sizeof(tmp),"%s",dir);
-    len = strlen(tmp);
+    size_t len = path.size();
     if(tmp[len - 1] == '/')
       tmp[len - 1] = 0;
     for(p = tmp + 1; *p; p++)
@@ -139,8 +139,8 @@ namespace agi {
       }
   }
   void Ngraph::saveToFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
+    std::string name = std::string(prefix)+"_"+std::to_string(PCU_Comm_Self())+".bgd";
+    const char* filename = name.c_str();
     mkdir_r(filename);
     struct pcu_file* file = pcu_fopen(filename,true,false);
     if (!file) {
@@ -223,8 +223,8 @@ namespace agi {
   }
 
   void Ngraph::loadFromFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
+    std::string name = std::string(prefix)+"_"+std::to_string(PCU_Comm_Self())+".bgd";
+    const char* filename = name.c_str();
     struct pcu_file* file = pcu_fopen(filename,false,false);
     if (!file) {
       EnGPar_Error_Message("Could not open file for loading: %s#.bgd",prefix);
diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index fed162d..dace92e 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -265,11 +265,8 @@ namespace agi {
   }
 
   void writePSources(FILE* pf, const char* prefix) {
-    char filename[256];
-    for (int i=0;i<PCU_Comm_Peers();i++) {
-      sprintf(filename,"%s%d.vtu",prefix,i);
-      fprintf(pf,"<Piece Source=\"%s\"/>\n",filename);
-    }
+    for (int i=0;i<PCU_Comm_Peers();i++)
+      fprintf(pf,"<Piece Source=\"%s%d.vtu\"/>\n",prefix,i);
   }
   
   void writePVTU(FILE* pf,const char* prefix, agi::Ngraph* g, GraphTag* tag, etype t) {
@@ -283,9 +280,8 @@ namespace agi {
 
   }
   void writeVTK(Ngraph* g, const char* prefix,GraphTag* tag,etype t) {
-    char filename[256];
-    sprintf(filename,"%s%d.vtu",prefix,PCU_Comm_Self());
-    FILE* f = fopen(filename,"w");
+    std::string filename = std::string(prefix)+std::to_string(PCU_Comm_Self())+".vtu";
+    FILE* f = fopen(filename.c_str(),"w");
     fprintf(f,"<VTKFile type=\"UnstructuredGrid\">\n");
     fprintf(f,"<UnstructuredGrid>\n");
     gid_t numCells = getNumCells(g);
@@ -305,9 +301,8 @@ namespace agi {
     fclose(f);
 
     if (!PCU_Comm_Self()) {
-      char pfilename[256];
-      sprintf(pfilename,"%s.pvtu",prefix);
-      FILE* pf = fopen(pfilename,"w");
+      std::string pfilename = std::string(prefix)+".pvtu";
+      FILE* pf = fopen(pfilename.c_str(),"w");
       writePVTU(pf,prefix,g,tag,t);
       fclose(pf);
     }
-- 
2.43.0


From 45e3f4904279838337b1bc710ace9af51651c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:14 +0000
Subject: [PATCH 41/44] fix: aim the part weight balancer's amounts only at
 neighbors that may be sent to

The loop over the neighbors of a part shadowed its own variables, so that
one neighbor that may be sent to was enough to aim at all of them, whatever
their shared boundary and completed weights, and looking up the side of a
neighbor that is gone inserted into the container being iterated. Amounts
used up became negative targets, which lower the total of the targets and
end the selection before anything is sent.
---
 partition/Diffusive/src/engpar_targets.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/partition/Diffusive/src/engpar_targets.h b/partition/Diffusive/src/engpar_targets.h
index ce1eb54..08407da 100644
--- a/partition/Diffusive/src/engpar_targets.h
+++ b/partition/Diffusive/src/engpar_targets.h
@@ -49,17 +49,19 @@ namespace engpar {
         }
         if (!canSend)
           continue;
-        agi::WeightPartitionMap::iterator itr;
-        for (itr = wp_map->begin(); itr != wp_map->end(); itr++) {
-          std::unordered_map<agi::gid_t,agi::wgt_t>::iterator inner_itr;
-          for (inner_itr = itr->second.begin(); inner_itr != itr->second.end(); inner_itr++) {
-            part_t neighbor = inner_itr->first;
-            wgt_t diff = inner_itr->second;
-            wgt_t sideFraction = s->get(neighbor);
-            sideFraction /= s->total();
-            wgt_t scaledW = diff * sideFraction;
-            set(neighbor,scaledW);
-          }
+        //Only weight that is still planned to be sent to this neighbor counts
+        wgt_t diff = 0;
+        agi::WeightPartitionMap::iterator witr;
+        for (witr = wp_map->begin(); witr != wp_map->end(); witr++) {
+          std::unordered_map<agi::gid_t,agi::wgt_t>::iterator inner_itr = witr->second.find(neighbor);
+          if (inner_itr != witr->second.end())
+            diff += inner_itr->second;
+        }
+        if (diff > 0) {
+          wgt_t sideFraction = itr->second;
+          sideFraction /= s->total();
+          wgt_t scaledW = diff * sideFraction;
+          set(neighbor,scaledW);
         }
       }
     }
-- 
2.43.0


From ec47ff44c530e31c5389139646903e409a39488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:47 +0000
Subject: [PATCH 42/44] fix: give every migration timer its own place

addTimer pointed each name one place past its own, so that adding a timer
emptied the previous one, the last one's count was never initialised and the
seventeenth was written past the end of the reserved array.
---
 agi/agiMigrationTimers.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agi/agiMigrationTimers.cpp b/agi/agiMigrationTimers.cpp
index 4c79f4f..e31d412 100644
--- a/agi/agiMigrationTimers.cpp
+++ b/agi/agiMigrationTimers.cpp
@@ -15,12 +15,11 @@ namespace agi {
   }
 
   void MigrationTimers::addTimer(std::string name) {
-    int idx = nameToIdx.size()+1;
+    int idx = times.size();
     nameToIdx[name] = idx;
     names.push_back(name);
     counts.push_back(0);
     times.push_back(0);
-    times[idx] = 0; // valgrind does not think times[idx] was initialized...
   }
 
   void MigrationTimers::update(std::string name, double val) {
-- 
2.43.0


From 36ee81238961aa2cc4a644ce29a7c3933c2a1ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:47 +0000
Subject: [PATCH 43/44] fix: tell the time of each balancing step's own
 migration

The step messages gave the time of all migrations so far.
---
 partition/Diffusive/src/engpar_balancer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 6462478..a38cb10 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -165,6 +165,7 @@ namespace engpar {
     int numMigrate = plan->size();
     numMigrate = PCU_Add_Int(numMigrate);
 
+    double migrateTime = migrTime->getTime("total");
     if (numMigrate>0)
       input->g->migrate(plan, migrTime);
     else
@@ -183,7 +184,8 @@ namespace engpar {
       if (!PCU_Comm_Self()) {
         if (sd->isFull())
           EnGPar_Status_Message("    Slope: %f\n",sd->slope());
-        EnGPar_Status_Message("    Migrating %d vertices took %f seconds\n",numMigrate, migrTime->getTime("total"));
+        EnGPar_Status_Message("    Migrating %d vertices took %f seconds\n",numMigrate,
+                              migrTime->getTime("total")-migrateTime);
       }
     }
 
-- 
2.43.0


From 55ec9dacd899ea15f85244bb958a49b1499a0e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:13 +0000
Subject: [PATCH 44/44] fix: let no side be too heavy for the weight balancer

The side tolerance of the weight balancer is meant to be ignored, but was
ten times the number of edges of type 0. With heavier edges, or few of
them, every neighbour was refused and no weight moved.
---
 partition/Diffusive/src/engpar_weightBalancer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 909fa1e..871421c 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -6,6 +6,7 @@
 #include <engpar_support.h>
 #include <agiMigration.h>
 #include "../engpar_weight_input.h"
+#include <limits>
 
 namespace engpar {
 
@@ -172,7 +173,7 @@ namespace engpar {
 
 
     //Set side tolerance to arbitrarily high number such that it will be ignored in targeting
-    sideTol = inp->g->numGlobalEdges()*10;
+    sideTol = std::numeric_limits<double>::max();
 
     char buffer[100];
     getImbalances(input->g,buffer);
-- 
2.43.0

