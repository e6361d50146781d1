From 729c3a341467bf6620acb83a8d2d9fbcb693105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 01/34] fix: report NEGRA input that ends inside a sentence

The reader returned None when the stream ended between #BOS and #EOS, so a
truncated file looked like a complete one.
---
 lumberjack/src/io/negra.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index f579433..d6ee31a 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -71,6 +71,9 @@ where
                 }
             }
         }
+        if cur.is_some() {
+            return Some(Err(format_err!("Input ended before #EOS.")));
+        }
         None
     }
 }
-- 
2.43.0


From ae1df717d42a5132d3e72cbccfbb5ecd54bf15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 02/34] fix: return an error for NEGRA secondary edges with
 unknown parent

The reader panicked if a secondary edge referred to a node that is not part
of the sentence.
---
 lumberjack/src/io/negra.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index d6ee31a..abdd90b 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -148,11 +148,12 @@ impl Builder {
             ));
         }
         for (source, label, target) in self.sec_edges {
-            self.graph.add_edge(
-                *self.nt_indices.get(&source).unwrap(),
-                target,
-                Edge::Secondary(Some(label)),
-            );
+            let source = *self
+                .nt_indices
+                .get(&source)
+                .ok_or_else(|| format_err!("Unknown parent of secondary edge: {}", source))?;
+            self.graph
+                .add_edge(source, target, Edge::Secondary(Some(label)));
         }
 
         let root = *self.nt_indices.get(&0).unwrap();
-- 
2.43.0


From 1bff90415324cfc0cb951b28a8d60ea5676fb11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 03/34] fix: read unlabeled NEGRA secondary edges without a
 label

The writer represents a missing label of a secondary edge as "--", the reader
turned that into the label "--".
---
 lumberjack/src/io/negra.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index abdd90b..9332524 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -87,7 +87,7 @@ struct Builder {
     finished_terminals: bool,
     num_non_projective: usize,
     processed_nts: usize,
-    sec_edges: Vec<(usize, String, NodeIndex)>,
+    sec_edges: Vec<(usize, Option<String>, NodeIndex)>,
 }
 
 impl Builder {
@@ -153,7 +153,7 @@ impl Builder {
                 .get(&source)
                 .ok_or_else(|| format_err!("Unknown parent of secondary edge: {}", source))?;
             self.graph
-                .add_edge(source, target, Edge::Secondary(Some(label)));
+                .add_edge(source, target, Edge::Secondary(label));
         }
 
         let root = *self.nt_indices.get(&0).unwrap();
@@ -280,7 +280,12 @@ impl Builder {
         self.graph
             .add_edge(parent_idx, node_idx, Edge::new_primary(edge));
         if let Some((label, id)) = Self::parse_optional_fields(parts)? {
-            self.sec_edges.push((id, label.to_string(), node_idx));
+            let label = if label == "--" {
+                None
+            } else {
+                Some(label.to_string())
+            };
+            self.sec_edges.push((id, label, node_idx));
         }
         Ok(())
     }
-- 
2.43.0


From 09186523bce77c87d1a356c89432db7883e82fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 04/34] fix: refuse NEGRA sentences that are no trees

Sentences with duplicated or misdirected lines were returned as malformed
trees: cyclic, unconnected or with nodes that have several parents. Spans were
wrong if a nonterminal preceded its children.
---
 lumberjack/src/io/negra.rs | 42 ++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 9332524..88d2852 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -3,9 +3,10 @@ use std::io::{BufRead, Lines, Write};
 
 use failure::Error;
 use petgraph::prelude::{Direction, EdgeRef, NodeIndex, StableGraph};
-use petgraph::visit::{VisitMap, Visitable};
+use petgraph::visit::{Dfs, VisitMap, Visitable};
 
 use crate::io::NODE_ANNOTATION_FEATURE_KEY;
+use crate::tree::GraphWrap;
 use crate::{Edge, Node, NonTerminal, Span, Terminal, Tree, WriteTree};
 
 /// Iterator over constituency trees in a Negra export file.
@@ -147,7 +148,7 @@ impl Builder {
                 eos_id
             ));
         }
-        for (source, label, target) in self.sec_edges {
+        for (source, label, target) in self.sec_edges.drain(..) {
             let source = *self
                 .nt_indices
                 .get(&source)
@@ -160,13 +161,46 @@ impl Builder {
         if self.processed_nts != self.nt_indices.len() {
             return Err(format_err!("Did not process all nonterminals."));
         }
+        self.check_structure(root)?;
         self.graph[root].set_span(Span::new(0, self.n_terminals))?;
-        Ok(Tree::new_from_parts(
+        let mut tree = Tree::new_from_parts(
             self.graph,
             self.n_terminals,
             root,
             self.num_non_projective,
-        ))
+        );
+        // spans collected line by line are incomplete if a node precedes its children.
+        tree.reset_nt_spans();
+        Ok(tree)
+    }
+
+    /// Verify that the nodes form a tree.
+    ///
+    /// Returns `Err` if there are no terminals, if the root is attached to another node, if
+    /// another node isn't attached exactly once or isn't dominated by the root.
+    fn check_structure(&self, root: NodeIndex) -> Result<(), Error> {
+        if self.n_terminals == 0 {
+            return Err(format_err!("Tree without Terminal nodes."));
+        }
+        for node in self.graph.node_indices() {
+            let n_parents = self
+                .graph
+                .edges_directed(node, Direction::Incoming)
+                .filter(|e| e.weight().is_primary())
+                .count();
+            if n_parents != (node != root) as usize {
+                return Err(format_err!("Node with {} parents.", n_parents));
+            }
+        }
+        let mut dfs = Dfs::new(GraphWrap::new(&self.graph), root);
+        let mut n_dominated = 0;
+        while dfs.next(GraphWrap::new(&self.graph)).is_some() {
+            n_dominated += 1;
+        }
+        if n_dominated != self.graph.node_count() {
+            return Err(format_err!("Nodes are not dominated by the root."));
+        }
+        Ok(())
     }
 
     /// Add the given line to the builder.
-- 
2.43.0


From 5bc0e96c96a3a639e894099ad80ad77be21c13f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 05/34] fix: return an error for surplus closing brackets in
 multi-line trees

The bracket count underflowed: a panic in debug builds, the rest of the input
read as a single tree in release builds.
---
 lumberjack/src/io/ptb.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 88a11e6..5afabae 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -312,6 +312,9 @@ where
                 }
                 let (line_open, line_closed) = count_pars(&line);
                 open += line_open;
+                if line_closed > open {
+                    return Some(Err(format_err!("Unbalanced brackets: {}{}", buffer, line)));
+                }
                 open -= line_closed;
                 buffer.push_str(line.as_str());;
                 if open == 0 {
-- 
2.43.0


From f4beaa6dc97d5d139810d63cacc4bfee32eb89ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 06/34] fix: report multi-line brackets that end inside a tree

The reader returned None when the input ended before the last bracket was
closed, so a truncated file looked like a complete one.
---
 lumberjack/src/io/ptb.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 5afabae..a3d3853 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -321,6 +321,9 @@ where
                     return Some(self.format.string_to_tree(&buffer));
                 }
             }
+            if !buffer.is_empty() {
+                return Some(Err(format_err!("Input ended inside a tree: {}", buffer)));
+            }
         }
         None
     }
-- 
2.43.0


From 5fe75985132eed2cf22fcf206b644e2fef434cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 07/34] fix: separate the lines of multi-line bracketed trees

Lines were joined without any separator, fusing a label at the end of a line
with a word at the beginning of the next one.
---
 lumberjack/src/io/ptb.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index a3d3853..a482fc9 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -316,7 +316,9 @@ where
                     return Some(Err(format_err!("Unbalanced brackets: {}{}", buffer, line)));
                 }
                 open -= line_closed;
-                buffer.push_str(line.as_str());;
+                buffer.push_str(line.as_str());
+                // the line break separates tokens
+                buffer.push('\n');
                 if open == 0 {
                     return Some(self.format.string_to_tree(&buffer));
                 }
-- 
2.43.0


From cc2d1c224e4a0b0c22ab493b1e1e610649f187b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 08/34] fix: don't include the separator in PTB annotations

"TAG-annotation" is documented to result in the annotation "annotation". The
reader returned "-annotation", which was then written as "TAG--annotation".
---
 lumberjack/src/io/ptb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index a482fc9..736107f 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -240,7 +240,7 @@ impl PTBFormat {
             match self {
                 PTBFormat::PTB => {
                     if let Some(idx) = label.find('-') {
-                        Ok((&label[..idx], None, Some(&label[idx..])))
+                        Ok((&label[..idx], None, Some(&label[idx + 1..])))
                     } else {
                         Ok((label, None, None))
                     }
-- 
2.43.0


From 1522f6d110e68960858edb910d059ddadad427b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:59 +0000
Subject: [PATCH 09/34] fix: refuse writing single terminals as NEGRA sentences

---
 lumberjack/src/io/negra.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 88d2852..0ac6366 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -455,6 +455,9 @@ where
     W: Write,
 {
     fn write_tree(&mut self, tree: &Tree) -> Result<(), Error> {
+        if tree[tree.root()].is_terminal() {
+            return Err(format_err!("Can't write a tree consisting of a single terminal."));
+        }
         let sentence_id = if let Some(Some(sentence_id)) = tree[tree.root()]
             .features()
             .and_then(|f| f.get_val("sentence_id"))
-- 
2.43.0


From 49d10c445161e47ae457cafc7732f8291bfe654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 10/34] fix: keep all spans up to date when reattaching nodes

---
 lumberjack/src/tree.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 045be65..fe806b3 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -602,25 +602,25 @@ impl Tree {
         } else if self.siblings(child).count() == 0 && parent != new_parent {
             return Err(format_err!("Last child of a node."));
         }
-        let mut climber = Climber::new(parent, self);
-        let mut path = vec![parent];
-        // climb tree to check if the old parent is dominated by the new parent
+        // nodes dominating the child after the reattachment
+        let mut dominating = vec![new_parent];
+        let mut climber = Climber::new(new_parent, self);
         while let Some(node) = climber.next(self) {
-            path.push(node);
-            // if new parent is higher in the tree, we need to remove the indices from the old
-            // parent's span
-            if new_parent == node {
-                let coverage = self[child].span().into_iter().collect::<Vec<_>>();
-                for node in path {
-                    let before = self[node].continuity();
-                    let after = self[node]
-                        .nonterminal_mut()
-                        .unwrap()
-                        .remove_indices(coverage.iter().cloned());
-                    self.projectivity_change(before, after);
-                }
+            dominating.push(node);
+        }
+        // remove the indices from the spans of all nodes that won't dominate the child any more
+        let coverage = self[child].span().into_iter().collect::<Vec<_>>();
+        let mut climber = Climber::new(child, self);
+        while let Some(node) = climber.next(self) {
+            if dominating.contains(&node) {
                 break;
             }
+            let before = self[node].continuity();
+            let after = self[node]
+                .nonterminal_mut()
+                .unwrap()
+                .remove_indices(coverage.iter().cloned());
+            self.projectivity_change(before, after);
         }
         let edge = self.graph.remove_edge(edge).unwrap();
         let edge_idx = self
-- 
2.43.0


From 8376f44b4a056939f1d292eb3b59c3c5702068d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 11/34] fix: refuse reattaching a node below itself

---
 lumberjack/src/tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index fe806b3..861e964 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -336,6 +336,7 @@ impl Tree {
     /// Returns `Err` if:
     ///   * `edge` is the last outgoing edge of a node.
     ///   * `new_parent` is a `Terminal` node.
+    ///   * `new_parent` is the node itself or dominated by it.
     ///
     /// Returns `Ok(old_edge)` otherwise.
     ///
@@ -608,6 +609,9 @@ impl Tree {
         while let Some(node) = climber.next(self) {
             dominating.push(node);
         }
+        if dominating.contains(&child) {
+            return Err(format_err!("New parent is dominated by the node."));
+        }
         // remove the indices from the spans of all nodes that won't dominate the child any more
         let coverage = self[child].span().into_iter().collect::<Vec<_>>();
         let mut climber = Climber::new(child, self);
-- 
2.43.0


From c9fb910dc96ac247ea870558d0d114df5af0bfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 12/34] fix: remove terminals before resetting the spans

---
 lumberjack/src/tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index 861e964..d5b8f41 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -697,10 +697,11 @@ impl Tree {
         if self.siblings(terminal).count() == 0 {
             return Err(format_err!("Last terminal of a branch."));
         }
+        let terminal = self.graph.remove_node(terminal).unwrap();
+        self.n_terminals -= 1;
         self.compact_terminal_spans()?;
         self.reset_nt_spans();
-        self.n_terminals -= 1;
-        Ok(self.graph.remove_node(terminal).unwrap())
+        Ok(terminal)
     }
 
     /// Reset terminal spans to increasing by 1 at each step.
-- 
2.43.0


From b8b997a049f48284bb26d62dcdd4df55d2017de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 13/34] fix: count inserted discontinuous nodes

---
 lumberjack/src/tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index d5b8f41..a58a1fb 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -250,6 +250,9 @@ impl Tree {
         S: Into<String>,
     {
         let span = self[child].span().to_owned();
+        if span.skips().is_some() {
+            self.num_discontinuous += 1;
+        }
         let node = NonTerminal::new(node_label, span).into();
         let insert = self.graph.add_node(node);
         if let Some((parent, old_edge_idx)) = self.parent(child) {
@@ -288,6 +291,9 @@ impl Tree {
         // collect children before attaching new node
         let children = self.children(node).collect::<Vec<_>>();
         let span = self[node].span().to_owned();
+        if span.skips().is_some() {
+            self.num_discontinuous += 1;
+        }
         let new_node = NonTerminal::new(node_label, span).into();
         let insert = self.graph.add_node(new_node);
         self.graph
-- 
2.43.0


From c2ffc1e54b0a69b67061a5fff58b5f4de8e00d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:22 +0000
Subject: [PATCH 14/34] fix: compare roots, forms and numbers of children of
 trees

---
 lumberjack/src/tree.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index a58a1fb..c11f827 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -788,6 +788,10 @@ fn subtree_eq(tree_1_idx: NodeIndex, tree_1: &Tree, tree_2_idx: NodeIndex, tree_
         .collect::<Vec<_>>();
     tree_2.sort_indices(&mut nodes2);
 
+    if nodes1.len() != nodes2.len() {
+        return false;
+    }
+
     for (node1, node2) in nodes1.into_iter().zip(nodes2) {
         if tree_1[node1] != tree_2[node2] {
             return false;
@@ -819,6 +823,10 @@ impl PartialEq for Tree {
             return false;
         };
 
+        if self[self.root()] != other[other.root()] {
+            return false;
+        };
+
         subtree_eq(self.root(), self, other.root(), other)
     }
 }
-- 
2.43.0


From 2d0b6aa10a03a49056f138b9fc327eca6334501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 15/34] fix: compare the forms of terminals

---
 lumberjack/src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/node.rs b/lumberjack/src/node.rs
index 2f02449..f3db325 100644
--- a/lumberjack/src/node.rs
+++ b/lumberjack/src/node.rs
@@ -319,7 +319,11 @@ pub struct Terminal {
 
 impl PartialEq<Terminal> for Terminal {
     fn eq(&self, other: &Terminal) -> bool {
-        if self.pos != other.pos || self.span != other.span || self.lemma != other.lemma {
+        if self.form != other.form
+            || self.pos != other.pos
+            || self.span != other.span
+            || self.lemma != other.lemma
+        {
             return false;
         }
         match (&self.features, &other.features) {
-- 
2.43.0


From 45c6c886982ef975a7c760da706ff2e939064b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 16/34] fix: stop climbing at the root when reattaching lone
 terminals

---
 lumberjack/src/tree_modification.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index c1fa251..7b918bc 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -223,14 +223,17 @@ impl TreeOps for Tree {
             if match_fn(&self, terminal) {
                 let mut climber = Climber::new(terminal, self);
                 while self.siblings(terminal).count() == 0 {
-                    if let Some(parent) = climber.next(self) {
-                        if parent != self.root() && parent != attachment {
+                    match climber.next(self) {
+                        Some(parent) if parent != self.root() && parent != attachment => {
                             self.remove_node(parent).unwrap();
                         }
+                        // neither the root nor the attachment point can be removed
+                        _ => break,
                     }
                 }
-                let (_, edge) = self.parent(terminal).unwrap();
-                self.reattach_node(attachment, edge).unwrap();
+                if let Some((_, edge)) = self.parent(terminal) {
+                    self.reattach_node(attachment, edge).unwrap();
+                }
             }
         }
         self.reset_nt_spans();
-- 
2.43.0


From 544ebad0e5c200dcde48c2ab1a7c83590627c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 17/34] fix: insert intermediate nodes only once

---
 lumberjack/src/tree_modification.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index 7b918bc..198e90c 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -177,6 +177,7 @@ impl TreeOps for Tree {
                 children.sort_by(|c1, c2| self[c1.0].span().cmp(self[c2.0].span()));
                 let mut children = children.into_iter();
                 let (terminal, _) = children.next().unwrap();
+                visit_map.visit(terminal);
                 let mut insert = self.insert_unary_above(terminal, label.clone());
 
                 let mut prev_idx = self[terminal].span().start;
-- 
2.43.0


From 86b510c2d97934ee3933440dfc77c3ef9ad41a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 18/34] fix: annotate PoS tags in sentence order

---
 lumberjack/src/tree_modification.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index 198e90c..8f975dd 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -22,20 +22,24 @@ impl AnnotatePOS for Tree {
     where
         S: Into<String>,
     {
-        let terminals = self.terminals().collect::<Vec<_>>();
-        let mut pos_iter = pos_iter.into_iter();
-        for terminal in terminals {
-            if let Some(pos) = pos_iter.next() {
-                self[terminal].terminal_mut().unwrap().set_label(pos);
-            } else {
-                return Err(format_err!("Not enough POS tags were provided"));
-            }
+        let mut terminals = self.terminals().collect::<Vec<_>>();
+        self.sort_indices(&mut terminals);
+        // check the number of tags first to leave the tree unchanged in case of errors
+        let tags = pos_iter
+            .into_iter()
+            .take(terminals.len() + 1)
+            .collect::<Vec<_>>();
+        if tags.len() < terminals.len() {
+            return Err(format_err!("Not enough POS tags were provided"));
         }
-        if pos_iter.next().is_some() {
+        if tags.len() > terminals.len() {
             return Err(format_err!(
                 "Number of POS tags is greater than number of terminals."
             ));
         }
+        for (terminal, pos) in terminals.into_iter().zip(tags) {
+            self[terminal].terminal_mut().unwrap().set_label(pos);
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 7e4b80a9210d0f1f1e408c5be5111ea87e3cead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:16 +0000
Subject: [PATCH 19/34] fix: projectivize independent of the hash order of
 skips

---
 lumberjack/src/tree_modification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index 8f975dd..eb28b2e 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -330,7 +330,7 @@ impl Projectivize for Tree {
                 while let Some(&skipped) = self[attachment_point]
                     .span()
                     .skips()
-                    .and_then(|s| s.iter().next())
+                    .and_then(|s| s.iter().min())
                 {
                     let mut prev = terminals[skipped];
                     // start climbing at skipped index
-- 
2.43.0


From 5a41d62c7a2a092f1182b3c15ead98b5d5ec6a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 20/34] fix: print empty features of CoNLL-X tokens as
 unspecified

---
 lumberjack/src/io/conllx.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index 5ed131f..748aec3 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -134,7 +134,7 @@ impl<'a> From<&'a Terminal> for Token {
         let mut token = Token::new(terminal.form());
         token.set_lemma(terminal.lemma());
         token.set_pos(Some(terminal.label()));
-        if let Some(features) = terminal.features() {
+        if let Some(features) = terminal.features().filter(|f| !f.inner().is_empty()) {
             token.set_features(Some(Features::from_string(features.to_string())));
         }
         token
@@ -154,7 +154,7 @@ impl From<Tree> for Sentence {
             let lemma = terminal.set_lemma::<String>(None);
             token.set_lemma(lemma);
             token.set_pos(Some(terminal.set_label(String::new())));
-            if let Some(morph) = terminal.set_features(None) {
+            if let Some(morph) = terminal.set_features(None).filter(|f| !f.inner().is_empty()) {
                 token.set_features(Some(Features::from_string(morph.to_string())));
             }
             tokens.push((token, terminal.span().start));
-- 
2.43.0


From 6b3b8c16175f493a02ba526994e76b524139472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:21 +0000
Subject: [PATCH 21/34] fix: leave trees with valueless unary chains unchanged

---
 lumberjack/src/tree_modification.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index eb28b2e..f0a5e12 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -292,10 +292,14 @@ impl UnaryChains for Tree {
 
     fn restore_unary_chains(&mut self, delim: &str) -> Result<(), Error> {
         let nodes = self.graph().node_indices().collect::<Vec<_>>();
+        // check all chains first to leave the tree unchanged in case of errors
+        for &node in &nodes {
+            if let Some(None) = self[node].features().and_then(|f| f.get_val("unary_chain")) {
+                return Err(format_err!("Missing value for unary chain feature."));
+            }
+        }
         for mut cur in nodes {
-            if let Some(chain) = self[cur].features_mut().remove("unary_chain") {
-                let chain =
-                    chain.ok_or_else(|| format_err!("Missing value for unary chain feature."))?;
+            if let Some(Some(chain)) = self[cur].features_mut().remove("unary_chain") {
                 for label in chain.split(delim) {
                     cur = self.insert_unary_above(cur, label);
                 }
-- 
2.43.0


From 1029b86109228b11ad9802b77f099950b519b410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 22/34] fix: refuse numbers of common ancestors that are out of
 range

---
 lumberjack/src/io/encode.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lumberjack/src/io/encode.rs b/lumberjack/src/io/encode.rs
index 193dc27..10f1845 100644
--- a/lumberjack/src/io/encode.rs
+++ b/lumberjack/src/io/encode.rs
@@ -23,6 +23,11 @@ use petgraph::Direction;
 
 static EMPTY_NODE: &str = "DUMMY";
 
+/// Largest accepted number of common ancestors in textual labels.
+///
+/// Decoding inserts a node per ancestor, corrupted labels shouldn't exhaust the memory.
+static MAX_COMMON: usize = 4096;
+
 /// Encode trait.
 ///
 /// Defines methods that encode a tree through a sequence of labels.
@@ -380,6 +385,9 @@ impl<'a> TryFrom<&'a str> for AbsoluteAncestor {
             .next()
             .ok_or_else(|| format_err!("Missing offset."))?
             .parse::<usize>()?;
+        if offset < 1 || offset > MAX_COMMON {
+            return Err(format_err!("Number of common ancestors out of range."));
+        }
         Ok(AbsoluteAncestor::new(offset, label))
     }
 }
@@ -423,6 +431,9 @@ impl<'a> TryFrom<&'a str> for RelativeAncestor {
             .ok_or_else(|| format_err!("Missing common label."))?;
         if let Some(offset) = parts.next() {
             let offset = offset.parse::<isize>()?;
+            if offset < -(MAX_COMMON as isize) || offset > MAX_COMMON as isize {
+                return Err(format_err!("Offset of common ancestors out of range."));
+            }
             Ok(RelativeAncestor::new(offset, label))
         } else {
             Ok(RelativeAncestor::Root(label.to_owned()))
-- 
2.43.0


From da0528748e0ed13ada64e6f9fc31075c9e976ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:19 +0000
Subject: [PATCH 23/34] fix: return None when removing secondary edges that are
 not present

---
 lumberjack/src/tree.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index c11f827..f6ed4b7 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -134,10 +134,9 @@ impl Tree {
     ///
     /// Returns `None` if the edge is not present in the graph.
     pub fn remove_secondary_edge(&mut self, edge: EdgeIndex) -> Option<Edge> {
-        if !self[edge].is_primary() {
-            self.graph.remove_edge(edge)
-        } else {
-            None
+        match self.graph.edge_weight(edge) {
+            Some(weight) if !weight.is_primary() => self.graph.remove_edge(edge),
+            _ => None,
         }
     }
 
-- 
2.43.0


From 9f5e83959693453b6a4a730c7426130007f8a82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 24/34] fix: refuse reattaching to terminals before removing
 nodes

---
 lumberjack/src/tree_modification.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lumberjack/src/tree_modification.rs b/lumberjack/src/tree_modification.rs
index f0a5e12..3abd830 100644
--- a/lumberjack/src/tree_modification.rs
+++ b/lumberjack/src/tree_modification.rs
@@ -226,6 +226,14 @@ impl TreeOps for Tree {
 
         for terminal in terminals {
             if match_fn(&self, terminal) {
+                if self.parent(terminal).is_none() {
+                    // the tree consists of the terminal
+                    continue;
+                }
+                assert!(
+                    !self[attachment].is_terminal(),
+                    "Can't reattach below terminals."
+                );
                 let mut climber = Climber::new(terminal, self);
                 while self.siblings(terminal).count() == 0 {
                     match climber.next(self) {
-- 
2.43.0


From 398469aa51e72d6fbd8941742b2fc270c4a4fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 25/34] fix: compare the parents of siblings only

---
 lumberjack/src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index f6ed4b7..bf9398e 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -400,7 +400,7 @@ impl Tree {
     /// Returns whether two nodes are immediately dominated by the same node.
     pub fn are_siblings(&self, node_1: NodeIndex, node_2: NodeIndex) -> bool {
         match (self.parent(node_1), self.parent(node_2)) {
-            (Some(parent_1), Some(parent_2)) => parent_1 == parent_2,
+            (Some((parent_1, _)), Some((parent_2, _))) => parent_1 == parent_2,
             _ => false,
         }
     }
-- 
2.43.0


From 14f3f92d53ab5ce8a515edd12fdd525d78747836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:14 +0000
Subject: [PATCH 26/34] fix: refuse reattaching secondary edges below terminals

---
 lumberjack/src/tree.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/tree.rs b/lumberjack/src/tree.rs
index bf9398e..d48eb0c 100644
--- a/lumberjack/src/tree.rs
+++ b/lumberjack/src/tree.rs
@@ -368,6 +368,9 @@ impl Tree {
         if child == new_parent {
             return Err(format_err!("New parent is node itself."));
         }
+        if self[new_parent].is_terminal() {
+            return Err(format_err!("Terminal node as new parent."));
+        }
 
         match self[edge] {
             Edge::Primary(_) => self.reattach_primary(new_parent, edge),
@@ -603,9 +606,7 @@ impl Tree {
     ) -> Result<(EdgeIndex, Edge), Error> {
         let (parent, child) = self.graph.edge_endpoints(edge).unwrap();
         // ensure we're not removing the last child of a node
-        if self[new_parent].is_terminal() {
-            return Err(format_err!("Terminal node as new parent."));
-        } else if self.siblings(child).count() == 0 && parent != new_parent {
+        if self.siblings(child).count() == 0 && parent != new_parent {
             return Err(format_err!("Last child of a node."));
         }
         // nodes dominating the child after the reattachment
-- 
2.43.0


From 31a2d97fe0bf5a994d68212c08e73cdf70502609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:17 +0000
Subject: [PATCH 27/34] fix: refuse writing NEGRA secondary edges from
 terminals

---
 lumberjack/src/io/negra.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 0ac6366..b5ca27f 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -458,6 +458,13 @@ where
         if tree[tree.root()].is_terminal() {
             return Err(format_err!("Can't write a tree consisting of a single terminal."));
         }
+        // terminals don't have IDs that secondary edges could point to
+        if tree
+            .terminals()
+            .any(|terminal| tree.secondary_children(terminal).count() > 0)
+        {
+            return Err(format_err!("Can't write secondary edges from terminals."));
+        }
         let sentence_id = if let Some(Some(sentence_id)) = tree[tree.root()]
             .features()
             .and_then(|f| f.get_val("sentence_id"))
-- 
2.43.0


From dedde986826cfdb7d07c54b776dd612b81b34e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:37 +0000
Subject: [PATCH 28/34] fix: keep the entire POS tag when reading bracketed
 trees

Tags like -NONE- or -LRB- were split like node labels and lost
everything after the first hyphen (PTB) or equals sign (TueBa).
---
 lumberjack/src/io/ptb.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 736107f..60bc896 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -215,7 +215,13 @@ impl PTBFormat {
     ) -> Result<(Option<&'a str>, &'a str, &'a str), Error> {
         let mut pairs = pair.into_inner();
         let pos = pairs.next().unwrap();
-        let (tag, edge, _) = self.process_label(pos)?;
+        let label = pos.as_str();
+        let (_, edge, _) = self.process_label(pos)?;
+        // terminals don't have annotations, the entire tag up to the edge label is the POS tag.
+        let tag = match self {
+            PTBFormat::TueBa => label.split(':').next().unwrap(),
+            PTBFormat::PTB | PTBFormat::Simple => label,
+        };
 
         let form = pairs.next().unwrap();
         if let Rule::terminal = form.as_rule() {
-- 
2.43.0


From 21c413e9de6f483ff080ed8ffa6136dd96cd2a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:58 +0000
Subject: [PATCH 29/34] fix: read and write all secondary edges of a node

Only the first secondary edge of a line was read and only one was
written, the others were dropped silently.
---
 lumberjack/src/io/negra.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index b5ca27f..a1dfa41 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -313,7 +313,7 @@ impl Builder {
         };
         self.graph
             .add_edge(parent_idx, node_idx, Edge::new_primary(edge));
-        if let Some((label, id)) = Self::parse_optional_fields(parts)? {
+        while let Some((label, id)) = Self::parse_optional_fields(&mut parts)? {
             let label = if label == "--" {
                 None
             } else {
@@ -436,14 +436,22 @@ impl<W> NegraWriter<W> {
         let (parent, edge) = tree.parent(idx).unwrap();
         let mut edge_rep = tree[edge].label().unwrap_or_else(|| "--").to_string();
         edge_rep.push_str(&Self::pad(edge_rep.len(), 8));
-        let id = id_map.get(&parent).unwrap();
+        let mut id = id_map.get(&parent).unwrap();
         edge_rep.push_str(id);
-        if let Some((parent, sec_edge)) = tree.secondary_parent(idx) {
+        let mut sec_edges = tree
+            .graph()
+            .edges_directed(idx, Direction::Incoming)
+            .filter(|e| !e.weight().is_primary())
+            .collect::<Vec<_>>();
+        // keep the order in which the edges were added
+        sec_edges.reverse();
+        for sec_edge in sec_edges {
             edge_rep.push_str(&Self::pad(id.len(), 8));
-            let label = tree[sec_edge].label().unwrap_or_else(|| "--");
+            let label = sec_edge.weight().label().unwrap_or_else(|| "--");
             edge_rep.push_str(label);
             edge_rep.push_str(&Self::pad(label.len(), 8));
-            edge_rep.push_str(id_map.get(&parent).unwrap());
+            id = id_map.get(&sec_edge.source()).unwrap();
+            edge_rep.push_str(id);
         }
 
         edge_rep
-- 
2.43.0


From 52a2ec8868f823c63673b866c5a0070d4b314731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:34 +0000
Subject: [PATCH 30/34] fix: refuse to write NEGRA sentences that can't be read
 back

Fields that are empty or contain whitespace shifted the columns of
the line, secondary edges to the root were dropped silently and
sentence ids that are no numbers or metadata with line breaks gave
sentences without valid header.
---
 lumberjack/src/io/negra.rs | 67 +++++++++++++++++++++++++++++++++++---
 1 file changed, 62 insertions(+), 5 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index a1dfa41..893f13d 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -416,6 +416,15 @@ impl<W> NegraWriter<W> {
         nt_rep.push_str(&Self::pad(id.len() + 1, 24));
         nt_rep.push_str("--");
         nt_rep.push_str(&Self::pad(2, 24));
+        let label = Self::annotated_label(nt);
+        nt_rep.push_str(&label);
+        nt_rep.push_str(&Self::pad(label.len(), 8));
+        nt_rep.push_str("--");
+        nt_rep.push_str(&Self::pad(2, 16));
+        nt_rep
+    }
+
+    fn annotated_label(nt: &NonTerminal) -> String {
         let mut label = nt.label().to_string();
         if let Some(Some(annotation)) = nt
             .features()
@@ -424,11 +433,54 @@ impl<W> NegraWriter<W> {
             label.push('=');
             label.push_str(annotation);
         }
-        nt_rep.push_str(&label);
-        nt_rep.push_str(&Self::pad(label.len(), 8));
-        nt_rep.push_str("--");
-        nt_rep.push_str(&Self::pad(2, 16));
-        nt_rep
+        label
+    }
+
+    // Fields are separated by whitespace, thus they can neither be empty nor contain whitespace.
+    fn check_fields(tree: &Tree) -> Result<(), Error> {
+        let check = |field: &str| {
+            if field.is_empty() || field.contains(char::is_whitespace) {
+                Err(format_err!("Can't write field: {:?}", field))
+            } else {
+                Ok(())
+            }
+        };
+        for edge in tree.graph().edge_indices() {
+            if let Some(label) = tree[edge].label() {
+                check(label)?;
+                if !tree[edge].is_primary() && label.starts_with('%') {
+                    return Err(format_err!("Can't write secondary edge label: {}", label));
+                }
+            }
+        }
+        for node in tree.graph().node_indices().filter(|n| *n != tree.root()) {
+            match &tree[node] {
+                Node::Terminal(terminal) => {
+                    check(terminal.form())?;
+                    check(terminal.label())?;
+                    check(terminal.lemma().unwrap_or("--"))?;
+                    let morph = terminal.features().and_then(|f| f.get_val("morph"));
+                    if let Some(Some(morph)) = morph {
+                        check(morph)?;
+                    }
+                }
+                Node::NonTerminal(nt) => check(&Self::annotated_label(nt))?,
+            }
+        }
+        if let Some(features) = tree[tree.root()].features() {
+            if let Some(Some(id)) = features.get_val("sentence_id") {
+                let canonical = id.parse::<usize>().map(|id| id.to_string()).ok();
+                if canonical.as_ref().map(String::as_str) != Some(id) {
+                    return Err(format_err!("Can't write sentence id: {:?}", id));
+                }
+            }
+            if let Some(Some(metadata)) = features.get_val("metadata") {
+                if metadata.contains('\n') {
+                    return Err(format_err!("Can't write metadata: {:?}", metadata));
+                }
+            }
+        }
+        Ok(())
     }
 
     /// Get the Negra String representation for edge and parent ID.
@@ -473,6 +525,11 @@ where
         {
             return Err(format_err!("Can't write secondary edges from terminals."));
         }
+        // there is no line for the root
+        if tree.secondary_parent(tree.root()).is_some() {
+            return Err(format_err!("Can't write secondary edges to the root."));
+        }
+        Self::check_fields(tree)?;
         let sentence_id = if let Some(Some(sentence_id)) = tree[tree.root()]
             .features()
             .and_then(|f| f.get_val("sentence_id"))
-- 
2.43.0


From 56dc641059d54cf893931d193452c65b2caf1a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:20 +0000
Subject: [PATCH 31/34] fix: refuse to write bracketed trees that can't be read
 back

Labels and forms that are empty or contain blanks or line breaks, and
node or edge labels with brackets, gave text with another structure.
---
 lumberjack/src/io/ptb.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 60bc896..5f264f9 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -80,6 +80,7 @@ impl PTBFormat {
     /// Convert the tree into a bracketed string according to the format.
     pub fn tree_to_string(&self, tree: &Tree) -> Result<String, Error> {
         if tree.is_projective() {
+            self.check_fields(tree)?;
             Ok(self.format_sub_tree(tree, tree.root(), None))
         } else {
             Err(format_err!("Can't linearize nonprojective tree"))
@@ -96,6 +97,24 @@ impl PTBFormat {
         Ok(Tree::new_from_parts(graph, n_terminals, root, 0))
     }
 
+    // Labels and forms are delimited by whitespace and brackets, thus they can neither be empty nor
+    // contain any of them. Brackets in POS tags and forms are replaced.
+    fn check_fields(&self, tree: &Tree) -> Result<(), Error> {
+        let delims: &[char] = &[' ', '\n', '\r', '(', ')'];
+        for node in tree.graph().node_indices() {
+            let edge = tree.parent(node).and_then(|(_, edge)| tree[edge].label());
+            let (repr, n_fields) = match &tree[node] {
+                Node::Terminal(t) => (self.fmt_term(t.form(), t.label(), edge), 2),
+                Node::NonTerminal(nt) => (format!("({})", self.fmt_inner(nt, edge)), 1),
+            };
+            let fields = repr[1..repr.len() - 1].split(delims).collect::<Vec<_>>();
+            if fields.len() != n_fields || fields.contains(&"") {
+                return Err(format_err!("Can't write node: {}", repr));
+            }
+        }
+        Ok(())
+    }
+
     fn format_sub_tree(&self, sentence: &Tree, position: NodeIndex, edge: Option<&str>) -> String {
         let sent = sentence.graph();
 
-- 
2.43.0


From f4b345a9ca40fed9b282b7ca3619ea298ea69df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:50 +0000
Subject: [PATCH 32/34] fix: refuse to write CoNLL-X tokens with tabs or line
 breaks

They shifted the columns or split the token.
---
 lumberjack/src/io/conllx.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lumberjack/src/io/conllx.rs b/lumberjack/src/io/conllx.rs
index 748aec3..1a5ce0c 100644
--- a/lumberjack/src/io/conllx.rs
+++ b/lumberjack/src/io/conllx.rs
@@ -15,6 +15,18 @@ where
     W: Write,
 {
     fn write_tree(&mut self, tree: &Tree) -> Result<(), Error> {
+        // columns and tokens are separated by tabs and line breaks
+        let separators: &[char] = &['\t', '\n'];
+        for terminal in tree.terminals().filter_map(|t| tree[t].terminal()) {
+            let features = terminal.features().map(|f| f.to_string());
+            if terminal.form().contains(separators)
+                || terminal.label().contains(separators)
+                || terminal.lemma().map_or(false, |l| l.contains(separators))
+                || features.map_or(false, |f| f.contains(separators))
+            {
+                return Err(format_err!("Can't write token:\n{}", terminal));
+            }
+        }
         self.write_sentence(&tree.into())
     }
 }
-- 
2.43.0


From 882eaedd7ac503dd2837bc57462ab36b3f828c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:23 +0000
Subject: [PATCH 33/34] fix: refuse to write words beginning with # in NEGRA

Lines beginning with # are nonterminals or delimit sentences, the
sentence could not be read back.
---
 lumberjack/src/io/negra.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 893f13d..596970c 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -457,6 +457,9 @@ impl<W> NegraWriter<W> {
             match &tree[node] {
                 Node::Terminal(terminal) => {
                     check(terminal.form())?;
+                    if terminal.form().starts_with('#') {
+                        return Err(format_err!("Can't write form: {}", terminal.form()));
+                    }
                     check(terminal.label())?;
                     check(terminal.lemma().unwrap_or("--"))?;
                     let morph = terminal.features().and_then(|f| f.get_val("morph"));
-- 
2.43.0


From f0bb5c8fbfb616613cb6b93731f621e19bdf66c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:26 +0000
Subject: [PATCH 34/34] fix: keep entire annotations and edge labels

Everything behind a second separator in the label of a node was
dropped silently.
---
 lumberjack/src/io/negra.rs | 2 +-
 lumberjack/src/io/ptb.rs   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lumberjack/src/io/negra.rs b/lumberjack/src/io/negra.rs
index 596970c..3ab8ed0 100644
--- a/lumberjack/src/io/negra.rs
+++ b/lumberjack/src/io/negra.rs
@@ -235,7 +235,7 @@ impl Builder {
             .ok_or_else(|| format_err!("Nonterminal without children."))?;
         read_required_string_field(parts.next())?;
 
-        let mut label_parts = read_required_string_field(parts.next())?.split('=');
+        let mut label_parts = read_required_string_field(parts.next())?.splitn(2, '=');
         let label = read_required_string_field(label_parts.next())?;
         self.graph[self_idx].set_label(label);
 
diff --git a/lumberjack/src/io/ptb.rs b/lumberjack/src/io/ptb.rs
index 5f264f9..bbd7754 100644
--- a/lumberjack/src/io/ptb.rs
+++ b/lumberjack/src/io/ptb.rs
@@ -271,10 +271,10 @@ impl PTBFormat {
                     }
                 }
                 PTBFormat::TueBa => {
-                    let mut parts = label.split(':');
+                    let mut parts = label.splitn(2, ':');
                     let tag = parts.next().unwrap();
                     let edge = parts.next().filter(|s| s != &"--");
-                    let mut label_parts = tag.split('=');
+                    let mut label_parts = tag.splitn(2, '=');
                     let label = label_parts.next().unwrap();
                     let annotation = label_parts.next();
                     Ok((label, edge, annotation))
-- 
2.43.0

