From fa8dd5c0568a5206ec61915c4b0dd612c5d39721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 01/28] fix: EditDigraph::adjacent ignored arcs from the second
 to the first vertex

---
 src/editdigraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 01f1d73..dd82594 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -59,7 +59,7 @@ impl Graph for EditDigraph {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.has_arc(u, v) || self.has_arc(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-- 
2.43.0


From 83700f47c37b7380d2284400752a4d630bfcbe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:06 +0000
Subject: [PATCH 02/28] fix: disjoint unions and normalization of digraphs lost
 the arc directions

---
 src/editdigraph.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index dd82594..6f6bec4 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -334,22 +334,22 @@ impl EditDigraph {
 
     /// Creates a new graph that is the disjoint union of `self` and `graph`.
     /// The vertices of the second graph are relabelled to avoid index clashes.
-    pub fn disj_union(&self, graph: &impl Graph) -> EditDigraph {
+    pub fn disj_union(&self, graph: &impl Digraph) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(self.len() + graph.len());
 
         let offset:Vertex = self.vertices().max().map(|x| x+1).unwrap_or(0);
 
         res.add_vertices(self.vertices().cloned());
-        res.add_arcs(self.edges());
+        res.add_arcs(self.arcs());
 
         res.add_vertices(graph.vertices().map(|v| v+offset));
-        res.add_arcs(graph.edges().map(|(u,v)| (u+offset,v+offset) ));
+        res.add_arcs(graph.arcs().map(|(u,v)| (u+offset,v+offset) ));
 
         res
     }
 
     /// Computes the disjoint unions of all graphs in the iterator `it`.
-    pub fn disj_unions<'a,I,G>(it: I) -> EditDigraph where I: Iterator<Item = &'a G>, G: Graph + 'a {
+    pub fn disj_unions<'a,I,G>(it: I) -> EditDigraph where I: Iterator<Item = &'a G>, G: Digraph + 'a {
         let mut res = EditDigraph::new();
         for graph in it {
             res = res.disj_union(graph);
@@ -378,7 +378,7 @@ impl EditDigraph {
         for u in self.vertices() {
             res.add_vertex(&vex2id[u]);
         }
-        for (u, v) in self.edges() {
+        for (u, v) in self.arcs() {
             res.add_arc(&vex2id[&u], &vex2id[&v]);
         }
         (res, id2vex)
-- 
2.43.0


From 3a8586a5b617f184ccf2a55d4d5b7b6e7fea4f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:42 +0000
Subject: [PATCH 03/28] fix: directed generators panicked or dropped vertices
 for degenerate sizes

---
 src/editdigraph.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 6f6bec4..cfba227 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -223,6 +223,11 @@ impl EditDigraph {
     /// Generates a directed path on `n` vertices.
     pub fn path(n:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(n as usize);
+        if n == 0 {
+            return res;
+        }
+
+        res.add_vertex(&0);
         for u in 0..(n-1) {
             let v = u+1;
             res.add_arc(&u,&v);
@@ -263,6 +268,7 @@ impl EditDigraph {
     pub fn clique(n:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(n as usize);
         for u in 0..n {
+            res.add_vertex(&u);
             for v in (u+1)..n {
                 res.add_arc(&u,&v);
             }
@@ -285,6 +291,7 @@ impl EditDigraph {
     /// Arcs go from the s-side to the t-side.
     pub fn biclique(s:u32, t:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity((s+t) as usize);
+        res.add_vertices(0..(s+t));
         for u in 0..s {
             for v in s..(s+t) {
                 res.add_arc(&u,&v);
@@ -302,6 +309,9 @@ impl EditDigraph {
             return res;
         }
 
+        // Ensures that the 1x1 grid contains its only vertex
+        res.add_vertex(&0);
+
         // s = 3, t = 4
         // 0 -- 1 -- 2 -- 3
         // |    |    |    |
-- 
2.43.0


From 29b275e00cd79dbf89fe352555a59814da4c1933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 04/28] fix: generators dropped vertices for degenerate sizes,
 complete 1-partite graphs had edges

---
 src/editgraph.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/editgraph.rs b/src/editgraph.rs
index 3a710ac..54016a7 100644
--- a/src/editgraph.rs
+++ b/src/editgraph.rs
@@ -336,6 +336,7 @@ impl EditGraph {
     /// Generates a complete bipartite graph (biclique) on `s`+`t` vertices.
     pub fn biclique(s:u32, t:u32) -> EditGraph {
         let mut res = EditGraph::with_capacity((s+t) as usize);
+        res.add_vertices(0..(s+t));
         for u in 0..s {
             for v in s..(s+t) {
                 res.add_edge(&u,&v);
@@ -354,8 +355,6 @@ impl EditGraph {
 
         if sizes.is_empty() {
             return EditGraph::new();
-        } else if sizes.len() == 1 {
-            return EditGraph::clique(sizes[0]);
         }
 
         let mut ranges:Vec<(u32,u32)> = Vec::new();
@@ -368,6 +367,7 @@ impl EditGraph {
         let n = ranges.last().unwrap().1;
 
         let mut res = EditGraph::with_capacity(n as usize);
+        res.add_vertices(0..n);
 
         #[allow(clippy::needless_range_loop)]
         for i in 0..ranges.len() {
@@ -392,6 +392,9 @@ impl EditGraph {
             return res;
         }
 
+        // Ensures that the 1x1 grid contains its only vertex
+        res.add_vertex(&0);
+
         // s = 3, t = 4
         // 0 -- 1 -- 2 -- 3
         // |    |    |    |
-- 
2.43.0


From ee8f21229af8bd77ced59866b4248b3195bf07e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 05/28] fix: graph products dropped product vertices without
 edges

---
 src/operations.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operations.rs b/src/operations.rs
index ae7610b..15d3546 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -78,6 +78,7 @@ impl<G> GraphOperations<G> for G where G: Graph {
             for v in other.vertices() {
                 map.insert((*u,*v), free_id);
                 inverse.insert(free_id, (*u,*v));
+                res.add_vertex(&free_id);
                 free_id += 1;
             }
         }
@@ -121,6 +122,7 @@ impl<G> GraphOperations<G> for G where G: Graph {
             for v in other.vertices() {
                 map.insert((*u,*v), free_id);
                 inverse.insert(free_id, (*u,*v));
+                res.add_vertex(&free_id);
                 free_id += 1;
             }
         }
-- 
2.43.0


From 56f67f17369253c5b62d5cbba51b0bfd7e900f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:53 +0000
Subject: [PATCH 06/28] fix: MixedIterator omitted loops

---
 src/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index f57fa17..04e52cd 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -230,7 +230,7 @@ impl<G> Iterator for MixedIterator<'_, G> where G: Graph {
             // Otherwise return edge
             for u in it.by_ref() {
                 // Tie-break so we do not return edges multiple times
-                if v < *u {
+                if v <= *u {
                     return Some(VertexOrEdge::E( (v,*u) ));
                 }
             }
-- 
2.43.0


From e1ca300c15ffbbe87a1a5162636d02f74e1bb5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:22 +0000
Subject: [PATCH 07/28] fix: is_bipartite returned a closed walk with repeated
 vertices instead of an odd cycle

---
 src/algorithms/graph.rs | 68 ++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 45 deletions(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index b14cfe5..e711dcb 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -194,62 +194,40 @@ impl<G> GraphAlgorithms for G where G: Graph {
             }
         }
 
-        // If the colouring failed we construct an odd path witness
-        if let Some((parent1, v, parent2)) = conflict {       
-            // The first path starts at v and follows it until
-            // the 'root' of the colouring via parent1
-            let mut path1:Vec<Vertex> = vec![v, parent1];
+        // If the colouring failed we construct an odd cycle witness. The edge between
+        // `parent` and `v` joins two vertices of the same colour in the same spanning tree
+        // (for a loop, `parent` and `v` coincide).
+        if let Some((parent, v, _)) = conflict {
+            // Path from `v` to the root of the spanning tree
+            let mut path:Vec<Vertex> = vec![v];
             loop {
-                let last = *path1.last().unwrap();                
+                let last = *path.last().unwrap();
                 let par = colours.get(&last).unwrap().1;
                 if par != last {
-                    path1.push(par)
+                    path.push(par)
                 } else {
                     break
                 }
             }
 
-            // The first path starts at parent2 and follows it until
-            // the 'root' of the colouring
-            let mut path2:Vec<Vertex> = vec![parent2];
-            loop {
-                let last = *path2.last().unwrap();                
-                let par = colours.get(&last).unwrap().1;
-                if par != last {
-                    path2.push(par)
-                } else {
-                    break
-                }
-            }
+            let index:VertexMap<usize> = path.iter().enumerate().map(|(i,x)| (*x,i)).collect();
 
-            // path1: v parent1 ... root
-            // path1: parent2 ... root
-            assert_eq!(path1.last(), path2.last());
-
-            // If v == parent2 then path1 is already an odd cycle
-            if path1.len() > 1 && path1.first() == path1.last() {
-                path1.pop();
-                return BipartiteWitness::OddCycle(path1);   
-            }
-
-            // If v == parent1 then path2 is already an odd cycle
-            if path2.len() > 1 && path2.first() == path2.last() {
-                path2.pop();
-                return BipartiteWitness::OddCycle(path2);   
-            }            
-
-            // path2 = parent2 ... x root  (for some vertex x, potentially x = parent2)
-            path2.pop();     
-
-            // path2 = parent2 ... x
-            path2.reverse(); 
-            // path2 = x ... parent2
-        
+            // Follow the path from `parent` towards the root until it meets the first path
+            let mut other_path:Vec<Vertex> = vec![];
+            let mut curr = parent;
+            let meet = loop {
+                if let Some(i) = index.get(&curr) {
+                    break *i;
+                }
+                other_path.push(curr);
+                curr = colours.get(&curr).unwrap().1;
+            };
 
-            // Create odd cycle by concatenating paths
-            path1.append(&mut path2); // root ... parent1 v parent2 ... x
+            // The cycle is v ... meet ... parent
+            path.truncate(meet + 1);
+            path.extend(other_path.into_iter().rev());
 
-            return BipartiteWitness::OddCycle(path1);
+            return BipartiteWitness::OddCycle(path);
         };
 
         let mut left = VertexSet::default();
-- 
2.43.0


From fc9e19269c696d4b3ed41fbf42116edef50f2077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:32 +0000
Subject: [PATCH 08/28] fix: DegenGraph::normalize read out of bounds on an
 empty graph

---
 src/degengraph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/degengraph.rs b/src/degengraph.rs
index cea5b5e..f0a798c 100644
--- a/src/degengraph.rs
+++ b/src/degengraph.rs
@@ -69,6 +69,10 @@ impl DegenGraph {
         let mut ix = 0;
         let mut new_to_old = VertexMap::default();
         let mut old_to_new = VertexMap::default();
+        if self.is_empty() {
+            return new_to_old;
+        }
+
         unsafe {
             loop {
                 let u = *self.contents.get_unchecked(i); // contents[i]
-- 
2.43.0


From e32e473f00a96b36bc06e643d33dbc01d67f819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 09/28] fix: OrdGraph::swap misplaced neighbours when the
 swapped vertices are adjacent

---
 src/ordgraph.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ordgraph.rs b/src/ordgraph.rs
index 2b656cd..e7adad4 100644
--- a/src/ordgraph.rs
+++ b/src/ordgraph.rs
@@ -143,7 +143,9 @@ impl OrdGraph {
                 for x in n.neighbours() {
                     let ix = self.indices.get(x).unwrap();
                     needs_update.push(*ix);
-                    if ix < &new_i {
+                    // If `u` and `v` are adjacent then the neighbour at `new_i` moves to `old_i`
+                    let ix_after = if *ix == new_i { old_i } else { *ix };
+                    if ix_after < new_i {
                         new_left.insert(*x);
                     } else {
                         new_right.insert(*x);
@@ -153,6 +155,10 @@ impl OrdGraph {
             }
             // Now update neighbours
             for ix in needs_update {
+                if ix == new_i {
+                    // This is the other swapped vertex whose neighbours are recomputed above
+                    continue;
+                }
                 let n = &mut self.nodes[ix];
                 if new_i > ix && n.left.contains(s) {
                     n.left.remove(s);
-- 
2.43.0


From 9bf34af3c503347a8dd575ad15c52a3824bbbe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:48 +0000
Subject: [PATCH 10/28] fix: sreach_set panicked for radius 0

---
 src/algorithms/lineargraph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 9ec46ab..62546a9 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -134,6 +134,10 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
     }
 
     fn sreach_set(&self, u:&Vertex, r:u32) -> VertexMap<u32> {
+        if r == 0 {
+            return VertexMap::default();
+        }
+
         let bfs = self.right_bfs(u, r-1);
         let mut res = VertexMap::default();
 
-- 
2.43.0


From c6155162930441e3648aaf31293d9c9c34321727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 11/28] fix: count_max_cliques recursed into the pivot's
 instead of the chosen vertex's neighbours

---
 src/algorithms/lineargraph.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 62546a9..c605b39 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -649,14 +649,20 @@ fn bk_pivot_count<L: LinearGraph>(graph:&L, v:&Vertex, vertices:&[Vertex], inclu
             continue
         }
 
+        // Compute w's neighbourhood inside of `vertices`, which contains all `maybe`- and
+        // `exclude`-vertices up to index `iu`.
+        let w_neighbours:Vec<Vertex> = vertices[0..=iu].iter()
+                .filter(|x| graph.adjacent(w, x)).copied().collect();
+        let w_neighbours_set:VertexSet = w_neighbours.iter().cloned().collect();
+
         // Recursion
         include.insert(*w);
         bk_pivot_count(graph,
                 v,
-                &left_neighbours,
+                &w_neighbours,
                 include,
-                maybe.intersection(&left_neighbours_set).cloned().collect(),
-                exclude.intersection(&left_neighbours_set).cloned().collect(),
+                maybe.intersection(&w_neighbours_set).cloned().collect(),
+                exclude.intersection(&w_neighbours_set).cloned().collect(),
                 results);
         include.remove(w);
 
-- 
2.43.0


From 042890cd1f8628c4022aa31da0910e8917b869cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:51 +0000
Subject: [PATCH 12/28] fix: colour_greedy left vertices without a colour

---
 src/algorithms/lineargraph.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index c605b39..ac745c4 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -234,11 +234,15 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
                 continue
             }
 
-            // Find unused colour
-            for c in used_colours.iter() {
-                if !Ncols.contains(c) {
+            // Find unused colour, if there is none we need a new one
+            match used_colours.iter().find(|c| !Ncols.contains(c)) {
+                Some(c) => {
                     colours.insert(v, *c);
-                    break
+                }
+                None => {
+                    let new_colour = used_colours.len() as u32;
+                    used_colours.push(new_colour);
+                    colours.insert(v, new_colour);
                 }
             }
         }
-- 
2.43.0


From c084443248da86ea2b617c8a8c35504e6c13a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:30 +0000
Subject: [PATCH 13/28] fix: scattered_colouring merged classes closer than an
 odd distance

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index ac745c4..2792b67 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -528,7 +528,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
                     let dist = small_distance_sets(&wreach, distance, set1.iter(), set2.iter());
                     if let Some(dist) = dist {
-                        if dist < 2*radius {
+                        if dist < distance {
                             // Cannot merge these two classes
                             continue;
                         }
-- 
2.43.0


From fff7b3c07c1a7cb0ba6d1b7fdf914a84431706c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:21 +0000
Subject: [PATCH 14/28] fix: domset reported distances that were not the
 distance to the dominating set

---
 src/algorithms/lineargraph.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 2792b67..9f3ec64 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -332,6 +332,10 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
             }
         }
 
+        // The distances computed above are only upper bounds (and the distances of vertices
+        // outside of `target` might not be distances to `domset` at all).
+        let dom_distance = distances_to_set(self, &domset);
+
         if !witness {
             return (domset, dom_distance, None)
         }
@@ -554,6 +558,29 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
     }
 }
 
+/// Computes the distance to `set` for all vertices which have a path to some member of `set`.
+fn distances_to_set<L: LinearGraph>(graph:&L, set:&VertexSet) -> VertexMap<u32> {
+    let mut distances:VertexMap<u32> = set.iter().map(|u| (*u, 0)).collect();
+    let mut layer:Vec<Vertex> = set.iter().cloned().collect();
+    let mut dist = 0;
+
+    while !layer.is_empty() {
+        dist += 1;
+        let mut next_layer = Vec::new();
+        for u in &layer {
+            for v in graph.neighbours(u) {
+                if !distances.contains_key(v) {
+                    distances.insert(*v, dist);
+                    next_layer.push(*v);
+                }
+            }
+        }
+        layer = next_layer;
+    }
+
+    distances
+}
+
 // TODO: These methods should probably go into its own dedicated 'WReach' struct
 fn small_distance_sets<V,I1,I2>(wreach:&VertexMap<VertexMap<u32>>, distance:u32, X:I1, Y:I2) -> Option<u32>
     where V: Borrow<Vertex>, I1: IntoIterator<Item=V>, I2: IntoIterator<Item=V> {
-- 
2.43.0


From 63719da7fa2259a09e96819db7a57be33da62075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:11 +0000
Subject: [PATCH 15/28] fix: degeneracy bounds and core numbers were wrong for
 degrees above 128

---
 src/algorithms/graph.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index e711dcb..cb11407 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -83,6 +83,17 @@ impl<G> GraphAlgorithms for G where G: Graph {
                     .trailing_zeros() as usize
         }
 
+        // Returns the smallest and largest degree which `calc_index` maps to the bucket `ix`.
+        fn bucket_range(ix: u32) -> (u32, u32) {
+            let small = 2_u32.pow(7);
+            if ix <= small {
+                (ix, ix)
+            } else {
+                let k = ix - small;
+                (small + (1 << (k - 1)), small - 1 + (1 << k))
+            }
+        }
+
         let mut deg_dict = VertexMap::default();
         let mut core_numbers = VertexMap::default();        
         let mut buckets = FxHashMap::<i32, FxHashSet<Vertex>>::default();
@@ -138,18 +149,13 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 // Updated degree
                 deg_dict.entry(*u).and_modify(|e| *e -= 1);
             }
-            core_numbers.insert(v, core_num);
+            core_numbers.insert(v, bucket_range(core_num).1);
             order.push(v);
         }
 
-        // Compute lower bound for core number. 
-        let ix = calc_index(core_num) as u32; 
-        let lower = if ix <= 129 {       
-            ix
-        } else {
-            129 + (1 << ((ix - 129 - 1) as u32 ))
-        };
-        let upper = core_num;                  
+        // All vertices left when the largest bucket was reached had at least the smallest
+        // degree of that bucket, all vertices were removed with at most its largest degree.
+        let (lower, upper) = bucket_range(core_num);
 
         order.reverse(); // The reverse order is more natural to us (small left-degree)
         (lower, upper, order, core_numbers)
-- 
2.43.0


From 234f13a6f209f52df79857056671c6ce9fe4f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:55 +0000
Subject: [PATCH 16/28] fix: DTFArcIterator skipped arcs and reversed the
 direction of the others

---
 src/iterators.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 04e52cd..b18455a 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -419,12 +419,9 @@ impl Iterator for DTFArcIterator<'_> {
                 continue;
             }
 
-            // Tie-breaking so we only return every edge once
+            // Every arc is only stored as an in-arc of its head, so no tie-breaking is needed
             let u = *uu.unwrap();
-            if self.curr_v > u {
-                continue;
-            }
-            return Some((self.curr_v, u));
+            return Some((u, self.curr_v));
         }
 
         None
-- 
2.43.0


From 8baec52a627c2c2d13c3a76f842b29211e0597fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:10 +0000
Subject: [PATCH 17/28] fix: DTFGraph::small_distance had no answer for a
 vertex and itself

---
 src/dtfgraph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 2c9d107..bebdb9a 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -413,6 +413,10 @@ impl DTFGraph {
     /// Returns the distance between the vertices `u` and `v` if it
     /// it smaller than the depth of the augmentation. Otherwise returns `None`.
     pub fn small_distance(&self, u:&Vertex, v:&Vertex) -> Option<u32> {
+        if u == v {
+            return Some(0)
+        }
+
         let mut dist = u32::MAX;
 
         if let Some(d) = self.get_arc_depth(u, v) {
-- 
2.43.0


From f542796bea3f1c3c99e6126b4723852d7a25d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:31 +0000
Subject: [PATCH 18/28] fix: DTFGraph::reserve_depth lowered the depth and
 miscounted the weights

---
 src/dtfgraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index bebdb9a..775ab4f 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -344,9 +344,9 @@ impl DTFGraph {
             for (_, node) in self.nodes.iter_mut() {
                 node.reserve_depth(depth);
             }
-            self.ms.push(0);
+            self.ms.resize(depth, 0);
+            self.depth = depth;
         }
-        self.depth = depth;
     }
 
     pub fn add_arc(&mut self, u:&Vertex, v:&Vertex, depth:usize) {
-- 
2.43.0


From a01e3b35bcd95921bdaadd9f03c836027b50a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:09 +0000
Subject: [PATCH 19/28] fix: DTFLayer reported adjacency and degrees of the
 whole augmentation

---
 src/dtfgraph.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 775ab4f..287a769 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -61,11 +61,11 @@ impl Graph for DTFLayer<'_> {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.graph.adjacent(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-        self.graph.degree(u)
+        self.in_degree(u) + self.out_degree(u)
     }
 
     fn vertices<'b>(&'b self) -> Box<dyn Iterator<Item=&'b Vertex> + 'b> {
@@ -85,11 +85,11 @@ impl Digraph for DTFLayer<'_> {
     }
 
     fn in_degree(&self, u:&Vertex) -> u32 {
-        self.graph.in_degree(u)
+        self.graph.nodes.get(u).unwrap().in_degree_at(self.depth)
     }
 
     fn out_degree(&self, u:&Vertex) -> u32 {
-        self.graph.out_degree(u)
+        self.graph.nodes.get(u).unwrap().out_degree_at(self.depth)
     }
 
     fn neighbours<'a>(&'a self, _:&Vertex) -> Box<dyn Iterator<Item=&'a Vertex> + 'a> {
@@ -174,6 +174,14 @@ impl DTFNode {
         self.out_degs.iter().sum1::<u32>().unwrap() 
     }
 
+    pub fn in_degree_at(&self, depth:usize) -> u32 {
+        self.in_degs.get(depth-1).copied().unwrap_or(0)
+    }
+
+    pub fn out_degree_at(&self, depth:usize) -> u32 {
+        self.out_degs.get(depth-1).copied().unwrap_or(0)
+    }
+
     pub fn degree(&self) -> u32 {
         self.out_degree()+self.in_degree()
     }
-- 
2.43.0


From 966071f586931f0860c85350d2fd297f36b178eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:12 +0000
Subject: [PATCH 20/28] fix: DTFGraph::augment panicked if an arc is stored
 with several weights

---
 src/dtfgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 287a769..cadf9c1 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -527,7 +527,7 @@ impl DTFGraph {
 
             for x in self.in_neighbours_at(u, *wx) {
                 for y in self.in_neighbours_at(u, wy) {
-                    if !self.adjacent(x, y) {
+                    if x != y && !self.adjacent(x, y) {
                         res.insert((*x,*y));
                     }
                 }
-- 
2.43.0


From 60fbecb9966dc97a2c4a20cf8a3bca8d0f0dca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:07 +0000
Subject: [PATCH 21/28] fix: viewing a layer of a DTFGraph changed its
 augmentation depth

---
 src/dtfgraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index cadf9c1..36e3716 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -163,7 +163,8 @@ impl DTFNode {
     }
 
     pub fn in_neighbours_at(&self, depth:usize) ->  Box<dyn Iterator<Item=&Vertex> + '_> {
-        Box::new(self.in_arcs.get(depth-1).unwrap().iter())
+        // There are no in-neighbours at depths which have not been reserved yet
+        Box::new(self.in_arcs.get(depth-1).into_iter().flatten())
     }
 
     pub fn in_degree(&self) -> u32 {
@@ -277,7 +278,6 @@ impl DTFGraph {
     }
 
     pub fn layer(&mut self, depth:usize) -> DTFLayer {
-        self.reserve_depth(depth);
         DTFLayer{ graph: self, depth }
     }
 
-- 
2.43.0


From 3871ea5db3c39cd9d7e52ef2e3deb25be56e3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 22/28] fix: loading panicked on read errors and on input that
 is not valid text

---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 07bafb3..866b7c3 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -53,7 +53,7 @@ impl LoadFromFile for VertexSet {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = VertexSet::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.insert(u);
         }
@@ -76,7 +76,7 @@ impl LoadFromFile for Vec<Vertex> {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = Vec::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.push(u);
         }
@@ -114,7 +114,7 @@ impl EditGraph {
     fn from_buf_with_estimate<R: BufRead>(reader: &mut R, n_estimate:usize) -> io::Result<EditGraph> {
         let mut G = EditGraph::with_capacity(n_estimate);
         for (lineno, line) in reader.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
@@ -184,7 +184,7 @@ impl LoadFromFile for EditGraph {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut G = EditGraph::with_capacity(500);
         for (lineno, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
-- 
2.43.0


From 3e2edd45c5084f6c5d982b30e8b098a5f6f4018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:26 +0000
Subject: [PATCH 23/28] fix: write_gzipped ignored errors while finishing the
 compressed stream

---
 src/io.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 866b7c3..7074245 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -2,17 +2,33 @@ use crate::editgraph::EditGraph;
 use crate::graph::Vertex;
 use crate::iterators::*;
 
+use std::cell::RefCell;
 use std::ffi::OsStr;
 use std::io;
 use std::io::{BufRead,BufReader,BufWriter,Write};
 use std::fs::File;
 use std::path::Path;
+use std::rc::Rc;
 use flate2::Compression;
 use flate2::read::GzDecoder;
 use flate2::write::GzEncoder;
 
 use crate::graph::*;
 
+/// Handle to a gzip encoder which allows its creator to finish the
+/// compressed stream after the writer has been consumed.
+struct SharedGzEncoder(Rc<RefCell<GzEncoder<File>>>);
+
+impl Write for SharedGzEncoder {
+    fn write(&mut self, data:&[u8]) -> io::Result<usize> {
+        self.0.borrow_mut().write(data)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.0.borrow_mut().flush()
+    }
+}
+
 pub trait WriteToFile {
     fn write_txt(&self, filename:&str) -> io::Result<()> {
         let file = File::create(filename)?;
@@ -22,9 +38,14 @@ pub trait WriteToFile {
 
     fn write_gzipped(&self, filename:&str) -> io::Result<()> {
         let file = File::create(filename)?;
-        let gz = GzEncoder::new(file, Compression::default());
-        let buf = BufWriter::new(gz);
-        self.write_buf(Box::new(buf))
+        let gz = Rc::new(RefCell::new(GzEncoder::new(file, Compression::default())));
+        let buf = BufWriter::new(SharedGzEncoder(gz.clone()));
+        self.write_buf(Box::new(buf))?;
+
+        // The end of the compressed stream is only written here. Dropping the encoder
+        // would do so as well, but ignores errors.
+        let res = gz.borrow_mut().try_finish();
+        res
     }
 
     fn write_buf(&self, buf:Box<dyn Write>) -> io::Result<()>;
-- 
2.43.0


From f81ed21405ea7d393d45c7ee14c7a9e003ec78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:39 +0000
Subject: [PATCH 24/28] fix: contract_pair removed the vertex if both members
 of the pair are the same

---
 src/editgraph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/editgraph.rs b/src/editgraph.rs
index 54016a7..a39a81d 100644
--- a/src/editgraph.rs
+++ b/src/editgraph.rs
@@ -500,6 +500,9 @@ impl EditGraph {
         if !self.contains(u) || !self.contains(v) {
             panic!("Pair {u},{v} not contained in graph.");
         }
+        if u == v {
+            return // There is nothing to contract
+        }
         let mut N:VertexSet = self.neighbours(v).cloned().collect();
         N.remove(u); // Avoid adding a self-loop
 
-- 
2.43.0


From 305690916c914b8752fe4859231cf8d7a80f06bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:35 +0000
Subject: [PATCH 25/28] fix: is_shattered overflowed if the parameter exceeds
 the size of the set by 64 or more

---
 src/datastructures/sreach_trace_oracle.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/datastructures/sreach_trace_oracle.rs b/src/datastructures/sreach_trace_oracle.rs
index cd53061..eefa059 100644
--- a/src/datastructures/sreach_trace_oracle.rs
+++ b/src/datastructures/sreach_trace_oracle.rs
@@ -274,8 +274,10 @@ impl SReachTraceOracle {
         let traces = self.compute_traces(&inner, graph);
 
         assert!(k >= inner.len() as u32);
-        let multiplicity = 2usize.pow(k - inner.len() as u32);
-        let num_neighbourhoods = 2usize.pow(inner.len() as u32);
+        let (Some(multiplicity), Some(num_neighbourhoods)) =
+            (2usize.checked_pow(k - inner.len() as u32), 2usize.checked_pow(inner.len() as u32)) else {
+            return false // No graph is large enough
+        };
 
         if traces.len() < num_neighbourhoods {
             return false
-- 
2.43.0


From bdcf5443b61d8b2115d683c2c78324acb6200bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:39 +0000
Subject: [PATCH 26/28] fix: dominating sets and scattered colourings
 overflowed for large radii

---
 src/algorithms/lineargraph.rs | 4 ++--
 src/dtfgraph.rs               | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 9f3ec64..77d82e0 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -272,7 +272,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
         let mut dom_distance = FxHashMap::<Vertex, u32>::default();
         let mut dom_counter = FxHashMap::<Vertex, u32>::default();
 
-        let cutoff = (2*radius).pow(2);
+        let cutoff = (2*radius).saturating_pow(2);
         let n = self.num_vertices() as i64;
 
         // Sort by _decreasing_ in-degree, tie-break by
@@ -397,7 +397,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
         // Sort by _decreasing_ in-degree, tie-break by
         // total degree.
-        let cutoff = distance.pow(2);
+        let cutoff = distance.saturating_pow(2);
         let n = self.num_vertices() as i64;
         let order:Vec<Vertex> = self.vertices()
                 .cloned()
diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 36e3716..10eb343 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -576,7 +576,7 @@ impl DTFGraph {
         let mut dom_distance = FxHashMap::<Vertex, u32>::default();
         let mut dom_counter = FxHashMap::<Vertex, u32>::default();
 
-        let cutoff = (2*radius).pow(2);
+        let cutoff = (2*radius).saturating_pow(2);
         let n = self.num_vertices() as i64;
 
         // Sort by _decreasing_ in-degree, tie-break by
-- 
2.43.0


From 2fffb253e6360bb44f7c4a49ea6565d591b77125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:44 +0000
Subject: [PATCH 27/28] fix: loading a gzip file with several members ignored
 all but the first

---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 7074245..b6318ae 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -10,7 +10,7 @@ use std::fs::File;
 use std::path::Path;
 use std::rc::Rc;
 use flate2::Compression;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use flate2::write::GzEncoder;
 
 use crate::graph::*;
@@ -193,7 +193,7 @@ impl LoadFromFile for EditGraph {
         let file = File::open(filename)?;
         let metadata = file.metadata()?;
         let size = metadata.len();
-        let gz = GzDecoder::new(file);
+        let gz = MultiGzDecoder::new(file);
 
         // This is a rought estimate of n given the number of bytes in
         // the compresed file, obtained from data in my network collection.
@@ -232,7 +232,7 @@ fn open_reader(filename:&str) -> io::Result<Box<dyn BufRead>> {
         }
         Some("gz") => {
             let file = File::open(path)?;
-            let gz = GzDecoder::new(file);
+            let gz = MultiGzDecoder::new(file);
             Box::new(BufReader::new(gz))
         }
         _ => {
@@ -253,7 +253,7 @@ fn open_reader_txt(filename:&str) -> io::Result<Box<dyn BufRead>> {
 fn open_reader_gzip(filename:&str) -> io::Result<Box<dyn BufRead>> {
     let path = Path::new(&filename);
     let file = File::open(path)?;
-    let gz = GzDecoder::new(file);
+    let gz = MultiGzDecoder::new(file);
     Ok(Box::new(BufReader::new(gz)))
 }
 
-- 
2.43.0


From 0d1ca9ac49fc53e5ad9b0a1d91d2c90a32f6d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:12 +0000
Subject: [PATCH 28/28] fix: disjoint_extend merged colour classes if the added
 colours are negative

---
 src/graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 49b858d..db5ab22 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -194,7 +194,9 @@ impl<T> VertexColouring<T> where T: Copy + Hash + Eq {
         } else {
             let mut res = *colours.iter().max().unwrap();
             res.inc();
-            res
+            // Negative colours must not be moved below the offset
+            let least = other.colouring.values().min().cloned().unwrap_or(T::zero());
+            res - T::min(least, T::zero())
         };
 
         for (u, c) in other.iter() {
-- 
2.43.0

