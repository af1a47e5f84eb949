From c5b584317ebd5b8257dd95aed39c680125f1e3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:23 +0000
Subject: [PATCH 01/21] fix: switch_context loses or aliases links when old and
 new ids overlap

---
 src/typed_graph.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 44aeeef..1b4009d 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -456,9 +456,17 @@ where
       id_map.insert(id, new_idx);
     }
 
-    for (id, new_id) in &id_map {
-      for (y, s) in &self.back_links[id] {
-        new_nodes.get_mut(id_map[y]).unwrap().modify_link(*s, *id, *new_id);
+    // Old and new ids may overlap, so all old links are cleared before any new link is added.
+    // Links to nodes outside of the graph have no counterpart in the new context.
+    for (_, node) in new_nodes.iter_mut() {
+      let sources = Vec::from_iter(node.iter_sources());
+      for (y, s) in &sources {
+        node.modify_link(*s, *y, NodeIndex::empty());
+      }
+      for (y, s) in &sources {
+        if let Some(new_y) = id_map.get(y) {
+          node.modify_link(*s, NodeIndex::empty(), *new_y);
+        }
       }
     }
 
-- 
2.43.0


From 59a10a611f05f161b9b61802d337a3a2b0037da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:32 +0000
Subject: [PATCH 02/21] fix: contexts made by Context::default() share the same
 id

---
 src/typed_graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 1b4009d..e035031 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -871,11 +871,16 @@ pub type UpdateFunc<'a, T> = Box<dyn FnOnce(T) -> T + 'a>;
 
 /// Context for typed graph
 /// Transactions and graph must have the same context to ensure the correctness of NodeIndex
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct Context {
   id: Uuid,
   node_dist: IdDistributer,
 }
+impl Default for Context {
+  fn default() -> Self {
+    Self::new()
+  }
+}
 impl Context {
   /// Create a new context
   pub fn new() -> Context {
-- 
2.43.0


From 4a6ee9fe7b1d88bbdabeef08fbb87eab06137ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:38 +0000
Subject: [PATCH 03/21] fix: commit accepts a foreign or unfilled transaction
 in release builds

---
 src/typed_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index e035031..10c0d64 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -521,8 +521,8 @@ where
   pub fn check_backlinks(&self) {}
 
   fn do_commit(&mut self, t: Transaction<NodeT, Arena>) -> LinkChangeRecorder<NodeT> {
-    debug_assert!(t.ctx_id == self.ctx_id, "The transaction and the graph are from different context!");
-    debug_assert!(t.alloc_nodes.is_empty(), "There are unfilled allocated nodes");
+    assert!(t.ctx_id == self.ctx_id, "The transaction and the graph are from different context!");
+    assert!(t.alloc_nodes.is_empty(), "There are unfilled allocated nodes");
 
     let mut lcr = LinkChangeRecorder::default();
 
-- 
2.43.0


From 79c3def48173f58f35230bd56a933ebbb8e04706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:43 +0000
Subject: [PATCH 04/21] fix: get_links_by_group reports empty Vec slots as
 links

---
 ttgraph_macros/src/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttgraph_macros/src/group.rs b/ttgraph_macros/src/group.rs
index df0ad7b..fcb53fb 100644
--- a/ttgraph_macros/src/group.rs
+++ b/ttgraph_macros/src/group.rs
@@ -53,7 +53,7 @@ pub(crate) fn make_get_links_by_group(links: &[LinkType], groups: &[Vec<Ident>])
           quote! {if !self.#ident.is_empty() {result.push(self.#ident);}}
         },
         LinkType::Set(ident, _) => quote! {result.extend(self.#ident.clone());},
-        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.clone());},
+        LinkType::Vec(ident, _) => quote! {result.extend(self.#ident.iter().filter(|x| !x.is_empty()));},
         LinkType::Empty => quote! {},
       });
     }
-- 
2.43.0


From 5ac78f63560c4d96175b7c4a422efaa183a88d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:49 +0000
Subject: [PATCH 05/21] fix: a node whose variant is changed stays in the
 container of its old variant

---
 src/cate_arena.rs              | 16 +++++++++++++---
 src/typed_graph.rs             |  2 +-
 src/typed_graph/transaction.rs |  2 +-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/cate_arena.rs b/src/cate_arena.rs
index 6903018..21e0126 100644
--- a/src/cate_arena.rs
+++ b/src/cate_arena.rs
@@ -99,9 +99,19 @@ pub trait CateArena: 'static {
   where
     F: FnOnce(Self::V) -> Self::V,
   {
-    let d = self.dispatch(i).expect(&format!("Update a non-existing node {:?}", i));
-    let x = self.get_container_mut(d).swap_remove(&i.0).expect(&format!("Update a non-existing node {:?}", i));
-    self.get_container_mut(d).insert(i.0, f(x));
+    let x = self.remove(i).expect(&format!("Update a non-existing node {:?}", i));
+    self.fill_back_untyped(i, f(x));
+  }
+  fn mutate_with<F>(&mut self, i: NodeIndex, f: F)
+  where
+    F: FnOnce(&mut Self::V),
+  {
+    let x = self.get_mut(i).expect(&format!("Mutate a non-existing node {:?}", i));
+    let d = Discriminated::discriminant(x);
+    f(x);
+    if Discriminated::discriminant(x) != d {
+      self.update_with(i, |x| x);
+    }
   }
 
   // fn iter_cate<'a, T: 'a>(&'a self) -> IterCate<'a, Self::K, Self::V, T>
diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 10c0d64..9797731 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -575,7 +575,7 @@ where
       lcr.remove_link(x, y, NodeT::to_link_mirror_enum(s));
     }
 
-    f(self.nodes.get_mut(x).unwrap());
+    self.nodes.mutate_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.get_mut(&y).unwrap().insert((x, s));
diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index dcaaaca..15919ad 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -276,7 +276,7 @@ where
     F: FnOnce(&mut NodeT) + 'a,
   {
     if self.inc_nodes.contains(node) {
-      func(self.inc_nodes.get_mut(node).unwrap());
+      self.inc_nodes.mutate_with(node, func);
     } else {
       self.mut_nodes.push((node, Box::new(func)));
     }  }
-- 
2.43.0


From bd02d605b57c965f3e9f8c285702cea2044e6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:47 +0000
Subject: [PATCH 06/21] fix: commit panics on links to, or redirection of, a
 node that is not in the graph

---
 src/typed_graph.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 9797731..f8e5077 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -578,7 +578,7 @@ where
     self.nodes.mutate_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
-      self.back_links.get_mut(&y).unwrap().insert((x, s));
+      self.back_links.entry(y).or_default().insert((x, s));
       lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
   }
@@ -595,13 +595,13 @@ where
     self.nodes.update_with(x, f);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
-      self.back_links.get_mut(&y).unwrap().insert((x, s));
+      self.back_links.entry(y).or_default().insert((x, s));
       lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
     }
   }
 
   fn redirect_links(&mut self, old_node: NodeIndex, new_node: NodeIndex, lcr: &mut LinkChangeRecorder<NodeT>) {
-    let old_link = self.back_links.swap_remove(&old_node).unwrap();
+    let old_link = self.back_links.swap_remove(&old_node).unwrap_or_default();
     self.back_links.insert(old_node, OrderSet::new());
 
     let new_link = self.back_links.entry(new_node).or_default();
-- 
2.43.0


From 3ebbb8c7b10376c9150d1382127c7601c829262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:53 +0000
Subject: [PATCH 07/21] fix: several #[group] attributes on one field
 misattribute the groups of later fields

---
 ttgraph_macros/src/lib.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index d769a0c..c79a28d 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -218,10 +218,10 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
         data.push((ident.clone(), p.clone()));
       }
     }
-    let mut have_group = false;
+    let mut field_groups = Vec::new();
     for attr in &f.attrs {
       if attr.path().is_ident("group") {
-        let mut cur_group = Vec::new();
+        let mut cur_group: Vec<Ident> = Vec::new();
         if let Err(err) = attr.parse_nested_meta(|meta| {
           if let Some(ident) = meta.path.get_ident() {
             cur_group.push(ident.clone());
@@ -238,14 +238,13 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
           for g in &cur_group {
             group_map.entry(g.clone()).or_default().push(ident.clone());
           }
-          groups.push(cur_group);
+          field_groups.extend(cur_group);
         }
-        have_group = true;
       }
     }
 
-    if !have_group && is_link {
-      groups.push(Vec::new());
+    if is_link {
+      groups.push(field_groups);
     }
   }
   if links.is_empty() {
-- 
2.43.0


From b2b9115c9bc150e53ddfd93df4b8aa44760887f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:59 +0000
Subject: [PATCH 08/21] fix: one opposite link declared twice is taken for
 multiple choices

---
 src/typed_graph/macro_traits.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph/macro_traits.rs b/src/typed_graph/macro_traits.rs
index 3b526e7..ae3105f 100644
--- a/src/typed_graph/macro_traits.rs
+++ b/src/typed_graph/macro_traits.rs
@@ -145,7 +145,9 @@ pub trait NodeEnum: Discriminated<Self::Discriminant> {
   /// Returns: Vec<link>, these types of links are the opposite side of the specified link
   /// Returns nothing if the link type does not match the node type
   fn get_bidiretional_link_mirrors_of(&self, link: Self::LinkMirrorEnum) -> Vec<Self::LinkMirrorEnum> {
-    Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x)).collect()
+    let links = Self::to_log_mirror_enums(link).into_iter().flat_map(|x| self.get_bidiretional_link_mirrors_of_log(x));
+    // A link may be the opposite through several declarations, but it is only one choice
+    Vec::from_iter(OrderSet::<Self::LinkMirrorEnum>::from_iter(links))
   }
 
   /// Get the opposite links of the specified link or group
-- 
2.43.0


From ac2bb9e1a59b6c80dd44e9d2fb17dfdeeb18b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:52 +0000
Subject: [PATCH 09/21] fix: data_ref_by_name and data_names skip tuple, array
 and reference fields

---
 ttgraph_macros/src/lib.rs        | 4 +++-
 ttgraph_macros/src/typed_node.rs | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index c79a28d..f0d8816 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -215,8 +215,10 @@ pub fn typed_node(input: TokenStream) -> TokenStream {
         links.push(LinkType::Vec(ident.clone(), upper_camel(&ident)));
         is_link = true;
       } else {
-        data.push((ident.clone(), p.clone()));
+        data.push((ident.clone(), f.ty.clone()));
       }
+    } else {
+      data.push((ident.clone(), f.ty.clone()));
     }
     let mut field_groups = Vec::new();
     for attr in &f.attrs {
diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index 3311457..aa008e4 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -1,6 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use syn::{Generics, Ident, TypePath};
+use syn::{Generics, Ident, Type};
 
 use std::collections::BTreeMap;
 
@@ -154,7 +154,7 @@ pub(crate) fn make_log_mirror(
 }
 
 pub(crate) fn make_typed_node(
-  links: &[LinkType], data: &[(Ident, TypePath)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
+  links: &[LinkType], data: &[(Ident, Type)], groups: &[Vec<Ident>], group_map: &BTreeMap<Ident, Vec<Ident>>,
   name: &Ident, generics: &Generics, gen_mod: &Ident, source_enum: &Ident, link_mirror: &Ident, log_mirror: &Ident,
 ) -> TokenStream {
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-- 
2.43.0


From 3a675d24d6212fe23b69080abf2423a1c0f1b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:57 +0000
Subject: [PATCH 10/21] fix: nodes inserted after deserialization can capture
 dangling links

---
 src/typed_graph/serialize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/typed_graph/serialize.rs b/src/typed_graph/serialize.rs
index f478c76..912631b 100644
--- a/src/typed_graph/serialize.rs
+++ b/src/typed_graph/serialize.rs
@@ -106,7 +106,10 @@ where
 pub fn deserialize_graph<'de, NodeT: NodeEnum + Deserialize<'de>>(
   input: GraphSerializer<NodeT>,
 ) -> (Context, Graph<NodeT>) {
-  let cnt = input.nodes.iter().map(|(idx, _)| idx.0).max().unwrap_or_else(|| 0);
+  // Links to nodes outside of the graph also occupy their index
+  let nodes = input.nodes.iter().map(|(idx, _)| idx.0);
+  let links = input.nodes.iter().flat_map(|(_, node)| node.iter_sources().map(|(idx, _)| idx.0));
+  let cnt = nodes.chain(links).max().unwrap_or_else(|| 0);
   let ctx = Context::from_id(input.ctx_id, cnt);
   let graph = Graph::do_deserialize(&ctx, input.nodes);
   (ctx, graph)
-- 
2.43.0


From e9e4334ccffbcb7eb73ac5bfd6fb4e388296c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:02 +0000
Subject: [PATCH 11/21] fix: repeated links in a Vec make commit miss or invent
 link changes

---
 src/typed_graph.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index f8e5077..9ec71c8 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -656,7 +656,7 @@ where
   }
 
   fn apply_bidirectional_links(&mut self, lcr: &LinkChangeRecorder<NodeT>) {
-    for &(x, y, l) in &lcr.removes {
+    for &(x, y, l) in lcr.removes.keys() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -670,7 +670,7 @@ where
       }
     }
 
-    for &(x, y, l) in &lcr.adds {
+    for &(x, y, l) in lcr.adds.keys() {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -716,7 +716,7 @@ where
   }
 
   fn check_link_type(&self, lcr: &LinkChangeRecorder<NodeT>) {
-    for (_, y, l) in &lcr.adds {
+    for (_, y, l) in lcr.adds.keys() {
       if let Some(node) = self.nodes.get(*y) {
         if let Result::Err(err) = NodeT::check_link_type(node.discriminant(), *l) {
           panic!("Link type check failed! Link {:?} expect {:?}, found {:?}", err.link, err.expect, err.found);
@@ -729,7 +729,7 @@ where
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
     let mut changed_nodes = OrderSet::new();
-    for (x, _, _) in lcr.adds.iter().chain(lcr.removes.iter()) {
+    for (x, _, _) in lcr.adds.keys().chain(lcr.removes.keys()) {
       changed_nodes.insert(*x);
     }
     for (name, check_func) in &checks.node_checks {
@@ -741,7 +741,7 @@ where
       }
     }
     for (name, check_func) in &checks.link_add_checks {
-      for (x, y, _) in &lcr.adds {
+      for (x, y, _) in lcr.adds.keys() {
         if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
@@ -749,7 +749,7 @@ where
       }
     }
     for (name, check_func) in &checks.link_remove_checks {
-      for (x, y, _) in &lcr.adds {
+      for (x, y, _) in lcr.adds.keys() {
         if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
@@ -770,19 +770,19 @@ where
 }
 
 struct LinkChangeRecorder<NodeT: NodeEnum> {
-  adds: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
-  removes: OrderSet<(NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)>,
+  adds: LinkCounts<NodeT>,
+  removes: LinkCounts<NodeT>,
 }
+/// A link in a Vec may appear more than once, so the number of times it is added or removed is counted
+type LinkCounts<NodeT> = OrderMap<(NodeIndex, NodeIndex, <NodeT as NodeEnum>::LinkMirrorEnum), usize>;
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
   #[cfg(feature = "debug")]
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
     }
-    if self.removes.contains(&(x, y, l)) {
-      self.removes.swap_remove(&(x, y, l));
-    } else {
-      self.adds.insert((x, y, l));
+    if !Self::cancel(&mut self.removes, (x, y, l)) {
+      *self.adds.entry((x, y, l)).or_default() += 1;
     }
   }
 
@@ -794,21 +794,28 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     if y.is_empty() {
       return;
     }
-    if self.adds.contains(&(x, y, l)) {
-      self.adds.swap_remove(&(x, y, l));
-    } else {
-      self.removes.insert((x, y, l));
+    if !Self::cancel(&mut self.adds, (x, y, l)) {
+      *self.removes.entry((x, y, l)).or_default() += 1;
     }
   }
 
   #[cfg(not(feature = "debug"))]
   fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
+
+  fn cancel(counts: &mut LinkCounts<NodeT>, link: (NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)) -> bool {
+    let Some(cnt) = counts.get_mut(&link) else { return false };
+    *cnt -= 1;
+    if *cnt == 0 {
+      counts.swap_remove(&link);
+    }
+    true
+  }
 }
 impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
   fn default() -> Self {
     LinkChangeRecorder {
-      adds: OrderSet::default(),
-      removes: OrderSet::default(),
+      adds: OrderMap::default(),
+      removes: OrderMap::default(),
     }
   }
 }
-- 
2.43.0


From 5ac91b1a1d4bdb84c016b1ffbc2b9e6a7700dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:26 +0000
Subject: [PATCH 12/21] fix: bidirectional links are not maintained (and the
 crate does not build) without the debug feature

---
 src/typed_graph.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 9ec71c8..ca42893 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -29,6 +29,7 @@ mod transaction;
 pub use transaction::Transaction;
 
 pub mod check;
+#[cfg(feature = "debug")]
 use check::*;
 
 pub mod macros;
@@ -715,6 +716,10 @@ where
     }
   }
 
+  #[cfg(not(feature = "debug"))]
+  fn check_link_type(&self, _lcr: &LinkChangeRecorder<NodeT>) {}
+
+  #[cfg(feature = "debug")]
   fn check_link_type(&self, lcr: &LinkChangeRecorder<NodeT>) {
     for (_, y, l) in lcr.adds.keys() {
       if let Some(node) = self.nodes.get(*y) {
@@ -776,7 +781,6 @@ struct LinkChangeRecorder<NodeT: NodeEnum> {
 /// A link in a Vec may appear more than once, so the number of times it is added or removed is counted
 type LinkCounts<NodeT> = OrderMap<(NodeIndex, NodeIndex, <NodeT as NodeEnum>::LinkMirrorEnum), usize>;
 impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
-  #[cfg(feature = "debug")]
   fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -786,10 +790,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     }
   }
 
-  #[cfg(not(feature = "debug"))]
-  fn add_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
-
-  #[cfg(feature = "debug")]
   fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {
     if y.is_empty() {
       return;
@@ -799,9 +799,6 @@ impl<NodeT: NodeEnum> LinkChangeRecorder<NodeT> {
     }
   }
 
-  #[cfg(not(feature = "debug"))]
-  fn remove_link(&mut self, x: NodeIndex, y: NodeIndex, l: NodeT::LinkMirrorEnum) {}
-
   fn cancel(counts: &mut LinkCounts<NodeT>, link: (NodeIndex, NodeIndex, NodeT::LinkMirrorEnum)) -> bool {
     let Some(cnt) = counts.get_mut(&link) else { return false };
     *cnt -= 1;
-- 
2.43.0


From 511c21b31522674c246a2ab1da72aa4f57974752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:49 +0000
Subject: [PATCH 13/21] fix: link changes made by bidirectional maintenance are
 not recorded

They escaped link type checks and commit_checked, and a link it had just
removed was still mirrored as newly added, leaving one-sided links.
---
 src/typed_graph.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index ca42893..9daaf84 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -479,7 +479,7 @@ where
 
     let mut lcr = LinkChangeRecorder::default();
     result.merge_nodes(new_nodes, &mut lcr);
-    result.apply_bidirectional_links(&lcr);
+    result.apply_bidirectional_links(&mut lcr);
     result.check_link_type(&lcr);
     result
   }
@@ -540,7 +540,7 @@ where
       self.remove_node(*n, &mut lcr);
     }
 
-    self.apply_bidirectional_links(&lcr);
+    self.apply_bidirectional_links(&mut lcr);
     lcr
   }
 
@@ -656,8 +656,8 @@ where
     }
   }
 
-  fn apply_bidirectional_links(&mut self, lcr: &LinkChangeRecorder<NodeT>) {
-    for &(x, y, l) in lcr.removes.keys() {
+  fn apply_bidirectional_links(&mut self, lcr: &mut LinkChangeRecorder<NodeT>) {
+    for (x, y, l) in Vec::from_iter(lcr.removes.keys().copied()) {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -667,11 +667,12 @@ where
       for link in bds {
         if self.nodes.get_mut(y).unwrap().remove_link(link, x) {
           self.remove_back_link(y, x, NodeT::to_source_enum(link));
+          lcr.remove_link(y, x, link);
         }
       }
     }
 
-    for &(x, y, l) in lcr.adds.keys() {
+    for (x, y, l) in Vec::from_iter(lcr.adds.keys().copied()) {
       if !self.nodes.contains(x) || !self.nodes.contains(y) {
         continue;
       }
@@ -690,6 +691,7 @@ where
         let link = bds.first().unwrap();
         if self.nodes.get_mut(y).unwrap().add_link(*link, x) {
           self.add_back_link(y, x, NodeT::to_source_enum(*link));
+          lcr.add_link(y, x, *link);
         }
       }
     }
@@ -769,7 +771,7 @@ where
     let mut lcr = LinkChangeRecorder::default();
     let mut graph = Self::new(ctx);
     graph.merge_nodes(arena, &mut lcr);
-    graph.apply_bidirectional_links(&lcr);
+    graph.apply_bidirectional_links(&mut lcr);
     graph
   }
 }
-- 
2.43.0


From 3f62edd48eea0fe9ce89b2efef05d5e9bc65fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:31 +0000
Subject: [PATCH 14/21] fix: commit_checked checks the wrong nodes and links,
 and panics on removed nodes

---
 src/typed_graph.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/typed_graph.rs b/src/typed_graph.rs
index 9daaf84..357055f 100644
--- a/src/typed_graph.rs
+++ b/src/typed_graph.rs
@@ -547,6 +547,7 @@ where
   fn merge_nodes(&mut self, nodes: Arena, lcr: &mut LinkChangeRecorder<NodeT>) {
     for (x, n) in nodes.iter() {
       self.add_back_links(x, n);
+      lcr.nodes.insert(x);
       for (y, s) in n.iter_sources() {
         lcr.add_link(x, y, NodeT::to_link_mirror_enum(s));
       }
@@ -577,6 +578,7 @@ where
     }
 
     self.nodes.mutate_with(x, f);
+    lcr.nodes.insert(x);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.entry(y).or_default().insert((x, s));
@@ -594,6 +596,7 @@ where
     }
 
     self.nodes.update_with(x, f);
+    lcr.nodes.insert(x);
 
     for (y, s) in self.nodes.get(x).unwrap().iter_sources() {
       self.back_links.entry(y).or_default().insert((x, s));
@@ -735,13 +738,15 @@ where
   #[cfg(feature = "debug")]
   fn check_change<'a>(&self, lcr: &LinkChangeRecorder<NodeT>, checks: &'a GraphCheck<NodeT>) -> Vec<&'a str> {
     let mut failed = Vec::new();
-    let mut changed_nodes = OrderSet::new();
+    let mut changed_nodes = lcr.nodes.clone();
     for (x, _, _) in lcr.adds.keys().chain(lcr.removes.keys()) {
       changed_nodes.insert(*x);
     }
+    // Nodes may have been removed from the graph after they are changed
     for (name, check_func) in &checks.node_checks {
       for x in &changed_nodes {
-        if check_func(*x, self.get(*x).unwrap()).is_err() {
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, node).is_err() {
           failed.push(name.as_str());
           break;
         }
@@ -749,15 +754,17 @@ where
     }
     for (name, check_func) in &checks.link_add_checks {
       for (x, y, _) in lcr.adds.keys() {
-        if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, *y, node, self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
         }
       }
     }
     for (name, check_func) in &checks.link_remove_checks {
-      for (x, y, _) in lcr.adds.keys() {
-        if check_func(*x, *y, self.get(*x).unwrap(), self.get(*y)).is_err() {
+      for (x, y, _) in lcr.removes.keys() {
+        let Some(node) = self.get(*x) else { continue };
+        if check_func(*x, *y, node, self.get(*y)).is_err() {
           failed.push(name.as_str());
           break;
         }
@@ -779,6 +786,8 @@ where
 struct LinkChangeRecorder<NodeT: NodeEnum> {
   adds: LinkCounts<NodeT>,
   removes: LinkCounts<NodeT>,
+  /// Nodes that are inserted, mutated or updated, with or without link changes
+  nodes: OrderSet<NodeIndex>,
 }
 /// A link in a Vec may appear more than once, so the number of times it is added or removed is counted
 type LinkCounts<NodeT> = OrderMap<(NodeIndex, NodeIndex, <NodeT as NodeEnum>::LinkMirrorEnum), usize>;
@@ -815,6 +824,7 @@ impl<NodeT: NodeEnum> Default for LinkChangeRecorder<NodeT> {
     LinkChangeRecorder {
       adds: OrderMap::default(),
       removes: OrderMap::default(),
+      nodes: OrderSet::default(),
     }
   }
 }
-- 
2.43.0


From 6a2c9e574196fbeefb9c56a6840e170171270f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:46 +0000
Subject: [PATCH 15/21] fix: only one of several link_type! annotations of a
 link is enforced

---
 ttgraph_macros/src/link_check.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ttgraph_macros/src/link_check.rs b/ttgraph_macros/src/link_check.rs
index 8befbdb..554ee66 100644
--- a/ttgraph_macros/src/link_check.rs
+++ b/ttgraph_macros/src/link_check.rs
@@ -1,4 +1,4 @@
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::BTreeMap;
 
 use proc_macro2::TokenStream;
 use quote::quote;
@@ -73,7 +73,7 @@ pub(crate) fn make_check_link_type(
   vars: &[(Ident, Type)], annotations: Vec<TypeAnnotation>, groups: &[NamedGroup],
 ) -> TokenStream {
   let mut arms = Vec::new();
-  let mut anno_map: BTreeMap<Ident, BTreeSet<(Ident, Vec<Ident>)>> = BTreeMap::new();
+  let mut anno_map: BTreeMap<Ident, BTreeMap<Ident, Vec<Ident>>> = BTreeMap::new();
   let mut group_map: BTreeMap<Ident, Vec<Ident>> = BTreeMap::new();
   for NamedGroup { name, idents } in groups {
     group_map.insert(name.clone(), idents.clone());
@@ -81,22 +81,26 @@ pub(crate) fn make_check_link_type(
   let annotations = expand_group(annotations, &group_map);
   for TypeAnnotation { var, link, var2 } in annotations {
     let camel = upper_camel(&link);
-    anno_map.entry(var.clone()).or_default().insert((camel, var2));
+    // If a link is annotated more than once, every annotation must be satisfied
+    anno_map
+      .entry(var.clone())
+      .or_default()
+      .entry(camel)
+      .and_modify(|expect| expect.retain(|v| var2.contains(v)))
+      .or_insert(var2.clone());
   }
   for (var, ty) in vars {
     if let Some(vs) = anno_map.get(var) {
       let mut link_arms = Vec::new();
       for (link, var2) in vs {
-        let mut var2_arms = Vec::new();
         let mut expect = Vec::new();
         for v2 in var2 {
-          var2_arms.push(quote! {Self::Discriminant::#v2});
           expect.push(quote! {Self::Discriminant::#v2});
         }
 
         link_arms.push(quote! {
           <#ty as TypedNode>::LoGMirror::#link => match target {
-            #(#var2_arms)|* => Ok(()),
+            #(#expect => Ok(()),)*
             other => Err(ttgraph::LinkTypeError{
               link,
               expect: &[#(#expect),*],
-- 
2.43.0


From 8f8a91dff823989756f218fe33a2d5fdc2d86c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:08 +0000
Subject: [PATCH 16/21] fix: fill_back_untyped accepts an index that is not
 allocated or already filled back

A second fill-back with another variant left two nodes under one index.
---
 src/typed_graph/transaction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/typed_graph/transaction.rs b/src/typed_graph/transaction.rs
index 15919ad..9538d8a 100644
--- a/src/typed_graph/transaction.rs
+++ b/src/typed_graph/transaction.rs
@@ -157,6 +157,7 @@ where
 
   /// Fill back the data to a [`NodeIndex`] created by [`alloc_untyped`](Transaction::alloc_untyped)
   pub fn fill_back_untyped(&mut self, idx: NodeIndex, data: NodeT) {
+    assert!(self.alloc_nodes.contains(&idx), "Fillback an index {:?} that is not allocated", idx);
     self.inc_nodes.fill_back_untyped(idx, data);
     self.alloc_nodes.swap_remove(&idx);
   }
-- 
2.43.0


From cb7d1231e807c5ac759cc46a5e3c1cec395f31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:16 +0000
Subject: [PATCH 17/21] fix: link_type! silently ignores unknown variants

---
 ttgraph_macros/src/lib.rs        |  1 +
 ttgraph_macros/src/link_check.rs | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index f0d8816..d8ce33b 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -119,6 +119,7 @@ pub fn node_enum(macro_input: TokenStream) -> TokenStream {
   }
 
   check_bidirectional_links(&vars, &bidirectional_links, &groups);
+  check_type_annotations(&vars, &type_annotations, &groups);
   abort_if_dirty();
 
   let mut generated = proc_macro2::TokenStream::new();
diff --git a/ttgraph_macros/src/link_check.rs b/ttgraph_macros/src/link_check.rs
index 554ee66..6ccb748 100644
--- a/ttgraph_macros/src/link_check.rs
+++ b/ttgraph_macros/src/link_check.rs
@@ -1,6 +1,7 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 
 use proc_macro2::TokenStream;
+use proc_macro_error::emit_error;
 use quote::quote;
 use syn::parse::{Parse, ParseStream};
 use syn::{self, braced, token, Ident, Token, Type};
@@ -45,6 +46,18 @@ impl Parse for TypeAnnotationVec {
   }
 }
 
+pub(crate) fn check_type_annotations(vars: &[(Ident, Type)], annotations: &[TypeAnnotation], groups: &[NamedGroup]) {
+  let mut vars = BTreeSet::from_iter(vars.iter().map(|(ident, _)| ident));
+  vars.extend(groups.iter().map(|x| &x.name));
+  for TypeAnnotation { var, var2, .. } in annotations {
+    for ident in std::iter::once(var).chain(var2) {
+      if !vars.contains(ident) {
+        emit_error!(ident, "Unknown identifier, not a variant of the NodeEnum");
+      }
+    }
+  }
+}
+
 fn expand_group(annotations: Vec<TypeAnnotation>, group_map: &BTreeMap<Ident, Vec<Ident>>) -> Vec<TypeAnnotation> {
   let mut result = Vec::new();
   for TypeAnnotation{var, link ,var2} in annotations {
-- 
2.43.0


From 053679a5d2e0951d5a6d776c7ee13ce4bb5f0fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:16 +0000
Subject: [PATCH 18/21] fix: variants named like a keyword do not compile

---
 ttgraph_macros/src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttgraph_macros/src/utils.rs b/ttgraph_macros/src/utils.rs
index 66d88ea..309c03d 100644
--- a/ttgraph_macros/src/utils.rs
+++ b/ttgraph_macros/src/utils.rs
@@ -7,8 +7,9 @@ pub(crate) fn upper_camel(ident: &Ident) -> Ident {
   format_ident!("{}", pascal_case(&ident.to_string()), span = ident.span())
 }
 
+// The suffix keeps variants like `Type` or `If` from becoming keywords
 pub(crate) fn snake_case(ident: &Ident) -> Ident {
-  format_ident!("{}", change_case::snake_case(&ident.to_string()), span = ident.span())
+  format_ident!("{}_nodes", change_case::snake_case(&ident.to_string()), span = ident.span())
 }
 
 pub(crate) fn make_generated_mod(result: &mut TokenStream, generated: TokenStream, ident: &Ident, vis: &Visibility) -> Ident {
-- 
2.43.0


From c6443a42086b42fde85bf9ff3b1f1b742c611f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:16 +0000
Subject: [PATCH 19/21] fix: generic node types do not compile

---
 ttgraph_macros/src/typed_node.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ttgraph_macros/src/typed_node.rs b/ttgraph_macros/src/typed_node.rs
index aa008e4..aa137b5 100644
--- a/ttgraph_macros/src/typed_node.rs
+++ b/ttgraph_macros/src/typed_node.rs
@@ -166,18 +166,18 @@ pub(crate) fn make_typed_node(
     match s {
       LinkType::Direct(ident, camel) => add_source_ops.push(quote! {
         if !self.#ident.is_empty() {
-          sources.push((self.#ident, <#name as ttgraph::TypedNode>::Source::#camel));
+          sources.push((self.#ident, Self::Source::#camel));
         }
       }),
       LinkType::Set(ident, camel) => add_source_ops.push(quote! {
         for i in self.#ident.iter() {
-          sources.push((*i, <#name as ttgraph::TypedNode>::Source::#camel));
+          sources.push((*i, Self::Source::#camel));
         }
       }),
       LinkType::Vec(ident, camel) => add_source_ops.push(quote! {
         for (idx, i) in self.#ident.iter().enumerate() {
           if !i.is_empty() {
-            sources.push((*i, <#name as ttgraph::TypedNode>::Source::#camel(idx)));
+            sources.push((*i, Self::Source::#camel(idx)));
           }
         }
       }),
-- 
2.43.0


From 3db7e4dd41f778e5b7c31a885389d3ef2353d3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:16 +0000
Subject: [PATCH 20/21] fix: an empty group does not compile

---
 ttgraph_macros/src/group.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttgraph_macros/src/group.rs b/ttgraph_macros/src/group.rs
index fcb53fb..d2c98f1 100644
--- a/ttgraph_macros/src/group.rs
+++ b/ttgraph_macros/src/group.rs
@@ -110,11 +110,11 @@ pub(crate) fn make_in_group(groups: &[NamedGroup]) -> TokenStream {
   for NamedGroup { name, idents } in groups {
     let mut matched_vars = Vec::new();
     for i in idents {
-      matched_vars.push(quote! {Self::#i(_)});
+      matched_vars.push(quote! {Self::#i(_) => true,});
     }
     name_arms.push(quote! {
       std::stringify!(#name) => match self {
-        #(#matched_vars)|* => true,
+        #(#matched_vars)*
         _ => false,
       },
     });
-- 
2.43.0


From 812ef5cfc20b04f07ba2c229100d030a7ed9f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:16 +0000
Subject: [PATCH 21/21] fix: a group declared in several parts is partly
 ignored

---
 ttgraph_macros/src/group.rs | 11 +++++++++++
 ttgraph_macros/src/lib.rs   |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ttgraph_macros/src/group.rs b/ttgraph_macros/src/group.rs
index d2c98f1..61c3591 100644
--- a/ttgraph_macros/src/group.rs
+++ b/ttgraph_macros/src/group.rs
@@ -36,6 +36,17 @@ impl Parse for NamedGroupVec {
   }
 }
 
+/// A group may be declared in several parts
+pub(crate) fn add_groups(groups: &mut Vec<NamedGroup>, parts: Vec<NamedGroup>) {
+  for part in parts {
+    if let Some(group) = groups.iter_mut().find(|g| g.name == part.name) {
+      group.idents.extend(part.idents);
+    } else {
+      groups.push(part);
+    }
+  }
+}
+
 pub(crate) fn make_get_links_by_group(links: &[LinkType], groups: &[Vec<Ident>]) -> TokenStream {
   let mut group_map: BTreeMap<Ident, Vec<LinkType>> = BTreeMap::new();
   for (link, group) in links.iter().zip(groups.iter()) {
diff --git a/ttgraph_macros/src/lib.rs b/ttgraph_macros/src/lib.rs
index d8ce33b..9965d00 100644
--- a/ttgraph_macros/src/lib.rs
+++ b/ttgraph_macros/src/lib.rs
@@ -97,7 +97,7 @@ pub fn node_enum(macro_input: TokenStream) -> TokenStream {
       } else if the_macro.mac.path.is_ident("group") {
         let result: syn::Result<NamedGroupVec> = parse2(the_macro.mac.tokens.clone());
         match result {
-          Ok(x) => groups.extend(x.groups),
+          Ok(x) => add_groups(&mut groups, x.groups),
           Err(err) => {
             emit_error!(err.span(), "{}", err);
           },
-- 
2.43.0

