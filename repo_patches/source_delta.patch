From e96f5929444055d9d7fb9b69732765b2c599e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:22 +0000
Subject: [PATCH 01/13] fix: pattern matching no longer stops at the first
 vacant slot

---
 src/dataset/graph/impl/indexed_btree_graph.rs |  9 ++++++-
 src/dataset/impl/indexed_btree_dataset.rs     | 27 ++++++++++++++++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 274bfc4..92e4a97 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -620,7 +620,14 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.triples.capacity() {
 			let i = self.subject.next(self.i)?;
-			let triple = *self.triples.get(i)?;
+			let triple = match self.triples.get(i) {
+				Some(triple) => *triple,
+				None => {
+					// Vacant slot, left by a removed triple.
+					self.i = i + 1;
+					continue;
+				}
+			};
 			match self.predicate.next(i, triple) {
 				Ok(()) => match self.object.next(i, triple) {
 					Ok(()) => {
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 1e81ec5..b9bf9c3 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -817,7 +817,14 @@ impl<'a, R> Iterator for PatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let quad = match self.quads.get(i) {
+				Some(quad) => *quad,
+				None => {
+					// Vacant slot, left by a removed quad.
+					self.i = i + 1;
+					continue;
+				}
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -854,7 +861,14 @@ impl<'a, R> Iterator for MultiPatternMatching<'a, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.quads.get(i)?;
+			let quad = match self.quads.get(i) {
+				Some(quad) => *quad,
+				None => {
+					// Vacant slot, left by a removed quad.
+					self.i = i + 1;
+					continue;
+				}
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
@@ -890,7 +904,14 @@ impl<R: Clone + Ord> Iterator for ExtractPatternMatching<'_, R> {
 	fn next(&mut self) -> Option<Self::Item> {
 		while self.i < self.dataset.quads.capacity() {
 			let i = self.subject.next(self.i)?;
-			let quad = *self.dataset.quads.get(i)?;
+			let quad = match self.dataset.quads.get(i) {
+				Some(quad) => *quad,
+				None => {
+					// Vacant slot, left by a removed quad.
+					self.i = i + 1;
+					continue;
+				}
+			};
 			match self.predicate.next(i, quad) {
 				Ok(()) => match self.object.next(i, quad) {
 					Ok(()) => match self.graph.next(i, quad) {
-- 
2.43.0


From 2b1499346e02b2113f9f16609279cc9199858b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:43 +0000
Subject: [PATCH 02/13] fix: inserting an element that mentions a new resource
 several times registers it once

---
 src/dataset/graph/impl/btree_graph.rs         | 17 +++++-------
 src/dataset/graph/impl/indexed_btree_graph.rs | 17 +++++-------
 src/dataset/impl/btree_dataset.rs             | 26 +++++++++----------
 src/dataset/impl/indexed_btree_dataset.rs     | 26 +++++++++----------
 4 files changed, 38 insertions(+), 48 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index d029f20..2034305 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -142,14 +142,11 @@ impl<R: Ord> BTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			// Each component is looked up once the previous ones are inserted, since
+			// the same resource may occur at multiple positions.
+			let i = self.triples.vacant_key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -162,7 +159,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -175,7 +172,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -188,7 +185,7 @@ impl<R: Ord> BTreeGraph<R> {
 				}
 			};
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 92e4a97..09d7194 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -220,14 +220,11 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 		if self.contains(triple.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&triple.0);
-			let p_i = self.index_of_resource(&triple.1);
-			let o_i = self.index_of_resource(&triple.2);
+			// Each component is looked up once the previous ones are inserted, since
+			// the same resource may occur at multiple positions.
+			let i = self.triples.vacant_key();
 
-			let e = self.triples.vacant_entry();
-			let i = e.key();
-
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&triple.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -240,7 +237,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&triple.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -253,7 +250,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&triple.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -270,7 +267,7 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			self.predicates.insert(p_i);
 			self.objects.insert(o_i);
 
-			e.insert(Triple(s_i, p_i, o_i));
+			self.triples.insert(Triple(s_i, p_i, o_i));
 
 			self.triples_indexes
 				.insert(triple_index_cmp(&self.resources, &self.triples), i);
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 29d4e24..6b7c409 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -140,18 +140,11 @@ impl<R: Ord> BTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
+			// Each component is looked up once the previous ones are inserted, since
+			// the same resource may occur at multiple positions.
+			let i = self.quads.vacant_key();
 
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].occurrences += 1;
 					s_i
@@ -164,7 +157,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].occurrences += 1;
 					p_i
@@ -177,7 +170,7 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].occurrences += 1;
 					o_i
@@ -190,6 +183,11 @@ impl<R: Ord> BTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self.index_of_resource(&g);
+				(g, g_i)
+			});
+
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].occurrences += 1;
@@ -204,7 +202,7 @@ impl<R: Ord> BTreeDataset<R> {
 				None => None,
 			};
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index b9bf9c3..cbcf502 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -249,18 +249,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 		if self.contains(quad.as_ref()) {
 			false
 		} else {
-			let s_i = self.index_of_resource(&quad.0);
-			let p_i = self.index_of_resource(&quad.1);
-			let o_i = self.index_of_resource(&quad.2);
-			let g_i = quad.3.map(|g| {
-				let g_i = self.index_of_resource(&g);
-				(g, g_i)
-			});
-
-			let e = self.quads.vacant_entry();
-			let i = e.key();
+			// Each component is looked up once the previous ones are inserted, since
+			// the same resource may occur at multiple positions.
+			let i = self.quads.vacant_key();
 
-			let s_i = match s_i {
+			let s_i = match self.index_of_resource(&quad.0) {
 				Some(s_i) => {
 					self.resources[s_i].as_subject.insert(i);
 					s_i
@@ -273,7 +266,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let p_i = match p_i {
+			let p_i = match self.index_of_resource(&quad.1) {
 				Some(p_i) => {
 					self.resources[p_i].as_predicate.insert(i);
 					p_i
@@ -286,7 +279,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
-			let o_i = match o_i {
+			let o_i = match self.index_of_resource(&quad.2) {
 				Some(o_i) => {
 					self.resources[o_i].as_object.insert(i);
 					o_i
@@ -299,6 +292,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				}
 			};
 
+			let g_i = quad.3.map(|g| {
+				let g_i = self.index_of_resource(&g);
+				(g, g_i)
+			});
+
 			let g_i = match g_i {
 				Some((_, Some(g_i))) => {
 					self.resources[g_i].as_graph.insert(i);
@@ -323,7 +321,7 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 				self.named_graphs.insert(g_i);
 			}
 
-			e.insert(Quad(s_i, p_i, o_i, g_i));
+			self.quads.insert(Quad(s_i, p_i, o_i, g_i));
 
 			self.quads_indexes
 				.insert(quad_index_cmp(&self.resources, &self.quads), i);
-- 
2.43.0


From fd77cab8f5eda9da842ce1419b96dbe02f9b8dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:44 +0000
Subject: [PATCH 03/13] fix: removal only drops a resource from the roles it no
 longer plays

---
 src/dataset/graph/impl/indexed_btree_graph.rs | 13 +++++++++----
 src/dataset/impl/indexed_btree_dataset.rs     | 17 ++++++++++++-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 09d7194..9265156 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -288,12 +288,11 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 			Some(i) => {
 				let Triple(s_i, p_i, o_i) = self.triples.remove(i);
 
-				self.subjects.remove(&s_i);
-				self.predicates.remove(&p_i);
-				self.objects.remove(&o_i);
-
 				let s = &mut self.resources[s_i];
 				s.as_subject.remove(&i);
+				if s.as_subject.is_empty() {
+					self.subjects.remove(&s_i);
+				}
 				if s.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.0);
@@ -302,6 +301,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let p = &mut self.resources[p_i];
 				p.as_predicate.remove(&i);
+				if p.as_predicate.is_empty() {
+					self.predicates.remove(&p_i);
+				}
 				if p.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.1);
@@ -310,6 +312,9 @@ impl<R: Ord> IndexedBTreeGraph<R> {
 
 				let o = &mut self.resources[o_i];
 				o.as_object.remove(&i);
+				if o.as_object.is_empty() {
+					self.objects.remove(&o_i);
+				}
 				if o.is_empty() {
 					self.resources_indexes
 						.remove(resource_cmp(&self.resources), triple.2);
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index cbcf502..5893337 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -382,12 +382,11 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let Quad(s_i, p_i, o_i, g_i) = self.quads.remove(i);
 
-		self.subjects.remove(&s_i);
-		self.predicates.remove(&p_i);
-		self.objects.remove(&o_i);
-
 		let s = &mut self.resources[s_i];
 		s.as_subject.remove(&i);
+		if s.as_subject.is_empty() {
+			self.subjects.remove(&s_i);
+		}
 		if s.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &s_i);
@@ -396,6 +395,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let p = &mut self.resources[p_i];
 		p.as_predicate.remove(&i);
+		if p.as_predicate.is_empty() {
+			self.predicates.remove(&p_i);
+		}
 		if p.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &p_i);
@@ -404,6 +406,9 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 
 		let o = &mut self.resources[o_i];
 		o.as_object.remove(&i);
+		if o.as_object.is_empty() {
+			self.objects.remove(&o_i);
+		}
 		if o.is_empty() {
 			self.resources_indexes
 				.remove(resource_index_cmp(&self.resources), &o_i);
@@ -414,11 +419,13 @@ impl<R: Ord> IndexedBTreeDataset<R> {
 			Some(g_i) => {
 				let g = &mut self.resources[g_i];
 				g.as_graph.remove(&i);
+				if g.as_graph.is_empty() {
+					self.named_graphs.remove(&g_i);
+				}
 				if g.is_empty() {
 					self.resources_indexes
 						.remove(resource_index_cmp(&self.resources), &g_i);
 					self.resources.remove(g_i);
-					self.named_graphs.remove(&g_i);
 				}
 			}
 			None => {
-- 
2.43.0


From eef2ed9310ebd7038c26d36f8c67c22e8a368b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:40 +0000
Subject: [PATCH 04/13] fix: cloning a graph or dataset no longer shares B-tree
 nodes with the original

---
 src/dataset/graph/impl/btree_graph.rs         | 13 ++++++++++++-
 src/dataset/graph/impl/indexed_btree_graph.rs | 16 +++++++++++++++-
 src/dataset/impl/btree_dataset.rs             | 13 ++++++++++++-
 src/dataset/impl/indexed_btree_dataset.rs     | 18 +++++++++++++++++-
 src/utils.rs                                  | 19 ++++++++++++++++++-
 5 files changed, 74 insertions(+), 5 deletions(-)

diff --git a/src/dataset/graph/impl/btree_graph.rs b/src/dataset/graph/impl/btree_graph.rs
index 2034305..100ed7d 100644
--- a/src/dataset/graph/impl/btree_graph.rs
+++ b/src/dataset/graph/impl/btree_graph.rs
@@ -7,6 +7,7 @@ use slab::Slab;
 use super::{super::Graph, IndexedBTreeGraph};
 use crate::{
 	dataset::{GraphMut, ResourceTraversableGraph, TraversableGraph},
+	utils::clone_index,
 	LocalTerm, RdfDisplay, Triple,
 };
 
@@ -49,7 +50,6 @@ fn triple_index_cmp<'a, R: Ord>(
 }
 
 /// BTree-based RDF graph.
-#[derive(Clone)]
 pub struct BTreeGraph<R = LocalTerm> {
 	pub(crate) resources: Slab<Resource<R>>,
 	pub(crate) triples: Slab<Triple<usize>>,
@@ -57,6 +57,17 @@ pub struct BTreeGraph<R = LocalTerm> {
 	pub(crate) triples_indexes: RawBTree<usize>,
 }
 
+impl<R: Clone> Clone for BTreeGraph<R> {
+	fn clone(&self) -> Self {
+		Self {
+			resources: self.resources.clone(),
+			triples: self.triples.clone(),
+			resources_indexes: clone_index(&self.resources_indexes),
+			triples_indexes: clone_index(&self.triples_indexes),
+		}
+	}
+}
+
 impl<R> Default for BTreeGraph<R> {
 	fn default() -> Self {
 		Self {
diff --git a/src/dataset/graph/impl/indexed_btree_graph.rs b/src/dataset/graph/impl/indexed_btree_graph.rs
index 9265156..9d1ce1e 100644
--- a/src/dataset/graph/impl/indexed_btree_graph.rs
+++ b/src/dataset/graph/impl/indexed_btree_graph.rs
@@ -14,6 +14,7 @@ use crate::{
 		triple::canonical::{PatternObject, PatternPredicate, PatternSubject},
 		CanonicalTriplePattern,
 	},
+	utils::clone_index,
 	LocalTerm, RdfDisplay, Triple,
 };
 
@@ -56,7 +57,6 @@ fn triple_index_cmp<'a, R: Ord>(
 }
 
 /// Indexed BTree-based RDF graph, optimized for pattern matching operations.
-#[derive(Clone)]
 pub struct IndexedBTreeGraph<R = LocalTerm> {
 	resources: Slab<Resource<R>>,
 	triples: Slab<Triple<usize>>,
@@ -67,6 +67,20 @@ pub struct IndexedBTreeGraph<R = LocalTerm> {
 	objects: BTreeSet<usize>,
 }
 
+impl<R: Clone> Clone for IndexedBTreeGraph<R> {
+	fn clone(&self) -> Self {
+		Self {
+			resources: self.resources.clone(),
+			triples: self.triples.clone(),
+			resources_indexes: clone_index(&self.resources_indexes),
+			triples_indexes: clone_index(&self.triples_indexes),
+			subjects: self.subjects.clone(),
+			predicates: self.predicates.clone(),
+			objects: self.objects.clone(),
+		}
+	}
+}
+
 impl<R> Default for IndexedBTreeGraph<R> {
 	fn default() -> Self {
 		Self {
diff --git a/src/dataset/impl/btree_dataset.rs b/src/dataset/impl/btree_dataset.rs
index 6b7c409..827bec8 100644
--- a/src/dataset/impl/btree_dataset.rs
+++ b/src/dataset/impl/btree_dataset.rs
@@ -7,6 +7,7 @@ use slab::Slab;
 use super::super::Dataset;
 use crate::{
 	dataset::{DatasetMut, IndexedBTreeDataset, ResourceTraversableDataset, TraversableDataset},
+	utils::clone_index,
 	LocalTerm, Quad, RdfDisplay,
 };
 
@@ -47,7 +48,6 @@ fn quad_index_cmp<'a, R: Ord>(
 }
 
 /// BTree-based RDF dataset.
-#[derive(Clone)]
 pub struct BTreeDataset<R = LocalTerm> {
 	pub(crate) resources: Slab<Resource<R>>,
 	pub(crate) quads: Slab<Quad<usize>>,
@@ -55,6 +55,17 @@ pub struct BTreeDataset<R = LocalTerm> {
 	pub(crate) quads_indexes: RawBTree<usize>,
 }
 
+impl<R: Clone> Clone for BTreeDataset<R> {
+	fn clone(&self) -> Self {
+		Self {
+			resources: self.resources.clone(),
+			quads: self.quads.clone(),
+			resources_indexes: clone_index(&self.resources_indexes),
+			quads_indexes: clone_index(&self.quads_indexes),
+		}
+	}
+}
+
 impl<R> Default for BTreeDataset<R> {
 	fn default() -> Self {
 		Self {
diff --git a/src/dataset/impl/indexed_btree_dataset.rs b/src/dataset/impl/indexed_btree_dataset.rs
index 5893337..355dea7 100644
--- a/src/dataset/impl/indexed_btree_dataset.rs
+++ b/src/dataset/impl/indexed_btree_dataset.rs
@@ -18,6 +18,7 @@ use crate::{
 		quad::canonical::{PatternGraph, PatternObject, PatternPredicate, PatternSubject},
 		CanonicalQuadPattern,
 	},
+	utils::clone_index,
 	LocalTerm, Quad, RdfDisplay,
 };
 
@@ -58,7 +59,6 @@ fn quad_index_cmp<'a, R: Ord>(
 }
 
 /// Indexed BTree-based RDF dataset, optimized for pattern matching operations.
-#[derive(Clone)]
 pub struct IndexedBTreeDataset<R = LocalTerm> {
 	resources: Slab<Resource<R>>,
 	quads: Slab<Quad<usize>>,
@@ -71,6 +71,22 @@ pub struct IndexedBTreeDataset<R = LocalTerm> {
 	named_graphs: BTreeSet<usize>,
 }
 
+impl<R: Clone> Clone for IndexedBTreeDataset<R> {
+	fn clone(&self) -> Self {
+		Self {
+			resources: self.resources.clone(),
+			quads: self.quads.clone(),
+			resources_indexes: clone_index(&self.resources_indexes),
+			quads_indexes: clone_index(&self.quads_indexes),
+			subjects: self.subjects.clone(),
+			predicates: self.predicates.clone(),
+			objects: self.objects.clone(),
+			default_graph: self.default_graph.clone(),
+			named_graphs: self.named_graphs.clone(),
+		}
+	}
+}
+
 impl<R> Default for IndexedBTreeDataset<R> {
 	fn default() -> Self {
 		Self {
diff --git a/src/utils.rs b/src/utils.rs
index 768d1df..1b4d71d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,4 +1,6 @@
-use std::marker::PhantomData;
+use std::{cmp::Ordering, marker::PhantomData};
+
+use raw_btree::RawBTree;
 
 use crate::{Quad, Triple};
 
@@ -37,3 +39,18 @@ impl<I: Iterator> Iterator for OptionIterator<I> {
 		self.0.as_mut().and_then(I::next)
 	}
 }
+
+/// Clones a B-Tree index.
+///
+/// The `Clone` implementation of `RawBTree` leaves both trees sharing some of
+/// their nodes, which are then freed twice. This rebuilds the tree instead.
+pub(crate) fn clone_index(index: &RawBTree<usize>) -> RawBTree<usize> {
+	let mut result = RawBTree::new();
+
+	for &i in index {
+		// Items come in order: each one is greater than all the previous ones.
+		result.insert(|_, _| Ordering::Less, i);
+	}
+
+	result
+}
-- 
2.43.0


From 8490f27cb8b45dfdd1dc275dbaacc06b033ed559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:25 +0000
Subject: [PATCH 05/13] fix: dataset isomorphism only renames blank nodes

---
 src/dataset/isomorphism.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 405b586..3ef9601 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -289,6 +289,11 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 			}
 		}
 
+		// Only blank nodes can be renamed.
+		if !interpretation.is_anonymous(a) || !interpretation.is_anonymous(b) {
+			return false;
+		}
+
 		match self.forward.get(a) {
 			Some(&c) => c == b,
 			None => match self.backward.get(b) {
-- 
2.43.0


From 6355790b106aef3a4283339d5c5009ab561e6b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:39 +0000
Subject: [PATCH 06/13] fix: dataset isomorphism compares quads without blank
 nodes

---
 src/dataset/isomorphism.rs | 39 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 3ef9601..0f71e96 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -68,6 +68,11 @@ where
 		return None;
 	}
 
+	// Step 0: quads without blank nodes must be the same in both datasets.
+	if !ground_quads_match(interpretation, a, b) {
+		return None;
+	}
+
 	// Step 1: collect signatures.
 	let mut a_blanks_map = BTreeMap::new();
 	let mut b_blanks_map = BTreeMap::new();
@@ -160,6 +165,40 @@ where
 		}
 }
 
+/// Checks that the quads without blank nodes are the same in `a` and `b`.
+fn ground_quads_match<I, A, B>(interpretation: &I, a: &A, b: &B) -> bool
+where
+	I: ReverseInterpretation,
+	I::Resource: Ord,
+	A: TraversableDataset<Resource = I::Resource>,
+	B: TraversableDataset<Resource = I::Resource>,
+{
+	let is_ground = |q: &Quad<&I::Resource>| blank_count(interpretation, *q) == 0;
+
+	let mut others: BTreeSet<_> = b.quads().filter(is_ground).collect();
+
+	// Quads using the same resources are matched first.
+	let remaining: Vec<_> = a
+		.quads()
+		.filter(is_ground)
+		.filter(|quad| !others.remove(quad))
+		.collect();
+
+	// The other ones may use different resources having the same terms.
+	remaining.len() == others.len()
+		&& remaining.into_iter().all(|quad| {
+			let other = others
+				.iter()
+				.copied()
+				.find(|other| quad_matches(interpretation, quad, *other));
+
+			match other {
+				Some(other) => others.remove(&other),
+				None => false,
+			}
+		})
+}
+
 fn blank_count<I>(interpretation: &I, Quad(s, p, o, g): Quad<&I::Resource>) -> usize
 where
 	I: ReverseInterpretation,
-- 
2.43.0


From 33e96d9c07e6a549900c7703b3bbcd1ebb4a4175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:07 +0000
Subject: [PATCH 07/13] fix: merging triple pattern maps keeps the values
 registered on both sides

---
 src/pattern/triple/map.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pattern/triple/map.rs b/src/pattern/triple/map.rs
index de78054..612f82d 100644
--- a/src/pattern/triple/map.rs
+++ b/src/pattern/triple/map.rs
@@ -81,7 +81,9 @@ impl<V, T: Eq + Hash> GivenSubjectMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
-		self.given.extend(other.given);
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().union_with(rest);
+		}
 	}
 }
 
@@ -153,7 +155,9 @@ impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectAnyPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().extend(rest);
+		}
 	}
 }
 
@@ -211,7 +215,9 @@ impl<V, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 impl<V: Eq + Hash, T: Eq + Hash> GivenSubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
-		self.given.extend(other.given)
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().extend(rest);
+		}
 	}
 }
 
@@ -276,7 +282,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.union_with(other.any);
 		self.same_as_subject.union_with(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().union_with(rest);
+		}
 	}
 }
 
@@ -352,7 +360,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectAnyPredicateMap<V, T> {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
 		self.same_as_predicate.extend(other.same_as_predicate);
-		self.given.extend(other.given)
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().extend(rest);
+		}
 	}
 }
 
@@ -421,7 +431,9 @@ impl<V: Eq + Hash, T: Eq + Hash> AnySubjectGivenPredicateMap<V, T> {
 	pub fn union_with(&mut self, other: Self) {
 		self.any.extend(other.any);
 		self.same_as_subject.extend(other.same_as_subject);
-		self.given.extend(other.given)
+		for (id, rest) in other.given {
+			self.given.entry(id).or_default().extend(rest);
+		}
 	}
 }
 
-- 
2.43.0


From c5a4af23ef27da1018aa6901f281b6c18ceb888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:08 +0000
Subject: [PATCH 08/13] fix: binding a position of a triple pattern follows the
 positions linked to it

---
 src/pattern/triple/canonical.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pattern/triple/canonical.rs b/src/pattern/triple/canonical.rs
index 9a2e2b6..d422030 100644
--- a/src/pattern/triple/canonical.rs
+++ b/src/pattern/triple/canonical.rs
@@ -338,6 +338,16 @@ impl<T> CanonicalTriplePattern<T> {
 					),
 				),
 			),
+			Self::AnySubject(AnySubject::GivenPredicate(
+				p,
+				AnySubjectGivenPredicate::SameAsSubject,
+			)) => (
+				PatternObject::SameAsSubject,
+				Self::GivenSubject(
+					o.clone(),
+					GivenSubject::GivenPredicate(p, GivenSubjectGivenPredicate::GivenObject(o)),
+				),
+			),
 			Self::AnySubject(mut current_p) => {
 				let old_p = current_p.set_object(o);
 				(old_p, Self::AnySubject(current_p))
@@ -568,7 +578,7 @@ impl<T> AnySubject<T> {
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsSubject) => (
 				PatternPredicate::Any,
-				Self::GivenPredicate(p, AnySubjectGivenPredicate::AnyObject),
+				Self::GivenPredicate(p, AnySubjectGivenPredicate::SameAsSubject),
 			),
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
 				PatternPredicate::Any,
@@ -603,7 +613,7 @@ impl<T> AnySubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(AnySubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), AnySubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
@@ -856,7 +866,7 @@ impl<T> GivenSubject<T> {
 	{
 		replace_with_or_abort_and_return(self, |this| match this {
 			Self::AnyPredicate(GivenSubjectAnyPredicate::SameAsPredicate) => (
-				PatternObject::Any,
+				PatternObject::SameAsPredicate,
 				Self::GivenPredicate(o.clone(), GivenSubjectGivenPredicate::GivenObject(o)),
 			),
 			Self::AnyPredicate(mut current_o) => {
-- 
2.43.0


From e663e8a7029f76ddf8b766eddb4a7260c56b6d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 09/13] fix: an exhausted blank node generator panics instead
 of repeating identifiers

---
 src/term/generator/blank.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/term/generator/blank.rs b/src/term/generator/blank.rs
index 46ec52a..9d54328 100644
--- a/src/term/generator/blank.rs
+++ b/src/term/generator/blank.rs
@@ -60,7 +60,10 @@ impl Blank {
 
 	pub fn next_blank_id(&mut self) -> BlankIdBuf {
 		let id = unsafe { BlankIdBuf::new_unchecked(format!("_:{}{}", self.prefix, self.count)) };
-		self.count += 1;
+		self.count = self
+			.count
+			.checked_add(1)
+			.expect("blank node identifiers exhausted");
 		id
 	}
 }
-- 
2.43.0


From 55ccb958eea4551d2757a94ec221160246d7ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:59 +0000
Subject: [PATCH 10/13] fix: blank node identifiers are displayed as such in
 RDF syntax, not as quoted strings

---
 src/display.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/display.rs b/src/display.rs
index d787ff8..28b73bb 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -2,6 +2,8 @@ use std::fmt;
 
 use langtag::{LangTag, LangTagBuf};
 
+use crate::{BlankId, BlankIdBuf};
+
 /// Display method for RDF syntax elements.
 pub trait RdfDisplay {
 	/// Formats the value using the given formatter.
@@ -99,6 +101,19 @@ impl<C: ?Sized> RdfDisplayWithContext<C> for iref::IriRefBuf {
 	}
 }
 
+impl RdfDisplay for BlankId {
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		use fmt::Display;
+		self.as_str().fmt(f)
+	}
+}
+
+impl RdfDisplay for BlankIdBuf {
+	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		self.as_blank_id_ref().rdf_fmt(f)
+	}
+}
+
 impl RdfDisplay for LangTag {
 	fn rdf_fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
 		use fmt::Display;
-- 
2.43.0


From aab5a02216d89af56c5fb655b6d6a81d76619c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:30 +0000
Subject: [PATCH 11/13] fix: UUID generators compile again

The uuid-generator features failed to build: the module referred to the
Generator trait, Term and IriBuf without importing them, and implemented
a method the trait no longer has.
---
 src/term/generator/uuid.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/term/generator/uuid.rs b/src/term/generator/uuid.rs
index 7975d9e..cb8cada 100644
--- a/src/term/generator/uuid.rs
+++ b/src/term/generator/uuid.rs
@@ -1,3 +1,16 @@
+#[cfg(any(
+	feature = "uuid-generator-v3",
+	feature = "uuid-generator-v4",
+	feature = "uuid-generator-v5"
+))]
+use crate::{Generator, Term};
+#[cfg(any(
+	feature = "uuid-generator-v3",
+	feature = "uuid-generator-v4",
+	feature = "uuid-generator-v5"
+))]
+use iref::IriBuf;
+
 /// Generates UUID blank node identifiers based on the [`uuid`](https://crates.io/crates/uuid) crate.
 ///
 /// This is an enum type with different UUID versions supported
@@ -79,12 +92,12 @@ impl Uuid {
 	feature = "uuid-generator-v5"
 ))]
 impl Generator for Uuid {
-	fn next(&mut self) -> Term {
+	fn next_term(&mut self) -> Term {
 		let mut buffer: Vec<u8> = vec![0; uuid::adapter::Urn::LENGTH];
 		let uuid = self.next_uuid();
 		let len = uuid.to_urn().encode_lower(buffer.as_mut()).len();
 		buffer.truncate(len);
-		Term::Iri(IriBuf::new_unchecked(String::from_utf8_unchecked(buffer)).unwrap())
+		Term::Iri(unsafe { IriBuf::new_unchecked(String::from_utf8_unchecked(buffer)) })
 	}
 }
 
-- 
2.43.0


From 4d9052a84857ce3fae26dcb45e7370db21b6f40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:47 +0000
Subject: [PATCH 12/13] fix: don't print to the standard error while searching
 for a bijection

eprintln! panics when the standard error stream is closed or full.
---
 src/dataset/isomorphism.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 0f71e96..0ac4157 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -80,7 +80,6 @@ where
 	collect_signatures(interpretation, &mut b_blanks_map, b);
 
 	if a_blanks_map.len() != b_blanks_map.len() {
-		eprintln!("different blank node count");
 		return None;
 	}
 
@@ -89,12 +88,10 @@ where
 	let b_groups = split_by_size(&b_blanks_map);
 
 	if a_groups.len() != b_groups.len() {
-		eprintln!("different group count");
 		return None;
 	}
 
 	if !a_groups.iter().all(|(len, _)| b_groups.contains_key(len)) {
-		eprintln!("different group lengths");
 		return None;
 	}
 
@@ -112,7 +109,6 @@ where
 			}
 
 			if a_blank_id_candidates.is_empty() {
-				eprintln!("no candidates found for blank id");
 				return None;
 			}
 
-- 
2.43.0


From 04bef20db8bcc79b782505733eca8dfe6b92c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:04 +0000
Subject: [PATCH 13/13] fix: isomorphism search doesn't recurse for each blank
 node

Datasets with a few thousand blank nodes overflowed the stack. The
bijection was also copied at each level of the recursion.
---
 src/dataset/isomorphism.rs | 66 ++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/dataset/isomorphism.rs b/src/dataset/isomorphism.rs
index 0ac4157..8249f48 100644
--- a/src/dataset/isomorphism.rs
+++ b/src/dataset/isomorphism.rs
@@ -118,7 +118,7 @@ where
 
 	BTreeBijection::new().find_from_candidates(
 		interpretation,
-		candidates.iter(),
+		&candidates,
 		&a_blanks_map,
 		&b_blanks_map,
 	)
@@ -304,6 +304,12 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 		self.backward.insert(b, a);
 	}
 
+	fn remove(&mut self, a: &'a R) {
+		if let Some(b) = self.forward.remove(a) {
+			self.backward.remove(b);
+		}
+	}
+
 	fn resource_matches_with<I>(&self, interpretation: &I, a: &'a R, b: &'b R) -> bool
 	where
 		I: ReverseInterpretation<Resource = R>,
@@ -385,47 +391,53 @@ impl<'a, 'b, R: Ord> BTreeBijection<'a, 'b, R> {
 	}
 
 	fn find_from_candidates<I>(
-		self,
+		mut self,
 		interpretation: &I,
-		mut candidates: std::collections::btree_map::Iter<&'a R, BTreeSet<&'b R>>,
+		candidates: &BTreeMap<&'a R, BTreeSet<&'b R>>,
 		a: &BTreeMap<&'a R, BlankSignature<'a, R>>,
 		b: &BTreeMap<&'b R, BlankSignature<'b, R>>,
 	) -> Option<Self>
 	where
 		I: ReverseInterpretation<Resource = R>,
 	{
-		match candidates.next() {
-			Some((a_blank_id, b_candidates)) => {
-				for b_candidate in b_candidates {
-					if !self.backward.contains_key(b_candidate) {
-						// eprintln!("analyzing candidate {} for {}", b_candidate, a_blank_id);
-
-						let mut new_sigma = self.clone();
-						new_sigma.insert(a_blank_id, b_candidate);
-						if new_sigma.signature_matches_with(
-							interpretation,
-							a.get(a_blank_id).unwrap(),
-							b.get(b_candidate).unwrap(),
-						) {
-							// eprintln!("this is a valid candidate. continuing.");
-							if let Some(final_sigma) = new_sigma.find_from_candidates(
+		// The search is not recursive: its depth is the number of blank nodes.
+		let candidates: Vec<_> = candidates.iter().map(|(&a, b)| (a, b)).collect();
+
+		// Remaining candidates of each blank id of the current branch.
+		let mut branch = Vec::with_capacity(candidates.len());
+
+		while let Some((_, b_candidates)) = candidates.get(branch.len()) {
+			branch.push(b_candidates.iter());
+
+			// Move to the next valid candidate, backtracking if necessary.
+			loop {
+				let (a_blank_id, _) = candidates[branch.len() - 1];
+				self.remove(a_blank_id);
+
+				match branch.last_mut().and_then(Iterator::next) {
+					Some(&b_candidate) => {
+						if !self.backward.contains_key(b_candidate) {
+							self.insert(a_blank_id, b_candidate);
+							if self.signature_matches_with(
 								interpretation,
-								candidates.clone(),
-								a,
-								b,
+								a.get(a_blank_id).unwrap(),
+								b.get(b_candidate).unwrap(),
 							) {
-								return Some(final_sigma);
+								break;
 							}
-							// eprintln!("it didn't work out in the end. next candidate for {}.", a_blank_id);
+						}
+					}
+					None => {
+						branch.pop();
+						if branch.is_empty() {
+							return None;
 						}
 					}
 				}
-
-				// eprintln!("no valid candidate for {}", a_blank_id);
-				None
 			}
-			None => Some(self),
 		}
+
+		Some(self)
 	}
 }
 
-- 
2.43.0

