From 5ad89f6bbce7bd36082fa881bef4aa376d720bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 01/64] fix: SHACL constraint evaluation errors are no longer
 reported as conformance

---
 shacl/src/validator/constraints/mod.rs | 48 +++++++++++---------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/shacl/src/validator/constraints/mod.rs b/shacl/src/validator/constraints/mod.rs
index b9578a7..b1e162a 100644
--- a/shacl/src/validator/constraints/mod.rs
+++ b/shacl/src/validator/constraints/mod.rs
@@ -254,9 +254,9 @@ fn apply<S: Rdf, I: IterationStrategy<S>>(
     msg: &str,
     maybe_path: Option<&SHACLPath>,
 ) -> Result<Vec<ValidationResult>, ValidationError> {
-    let results = strategy
+    strategy
         .iterate(value_nodes)
-        .flat_map(|(focus_node, item)| {
+        .filter_map(|(focus_node, item)| {
             let focus = S::term_as_object(focus_node).ok()?;
             let component = Object::iri(component.into());
             let shape_id = shape.id();
@@ -266,21 +266,17 @@ fn apply<S: Rdf, I: IterationStrategy<S>>(
             if let Some(m) = shape.message() {
                 msg = msg.merge(m.to_owned(), true);
             }
-            if let Ok(condition) = evaluator(item)
-                && condition
-            {
-                return Some(
-                    ValidationResult::new(focus, component, shape.severity().clone())
-                        .with_source(source.cloned())
-                        .with_message(msg)
-                        .with_path(maybe_path.cloned())
-                        .with_value(value),
-                );
+            match evaluator(item) {
+                Ok(true) => Some(Ok(ValidationResult::new(focus, component, shape.severity().clone())
+                    .with_source(source.cloned())
+                    .with_message(msg)
+                    .with_path(maybe_path.cloned())
+                    .with_value(value))),
+                Ok(false) => None,
+                Err(err) => Some(Err(err)),
             }
-            None
         })
-        .collect();
-    Ok(results)
+        .collect()
 }
 
 // TODO - Extract common logic with above fn?
@@ -293,29 +289,25 @@ fn apply_with_focus<S: Rdf, I: IterationStrategy<S>>(
     msg: &str,
     maybe_path: Option<&SHACLPath>,
 ) -> Result<Vec<ValidationResult>, ValidationError> {
-    let results = strategy
+    strategy
         .iterate(value_nodes)
-        .flat_map(|(focus_node, item)| {
+        .filter_map(|(focus_node, item)| {
             let focus = S::term_as_object(focus_node).ok()?;
             let component = Object::iri(component.into());
             let shape_id = shape.id();
             let source = Some(shape_id);
             let value = strategy.to_object(item);
             match evaluator(focus_node, item) {
-                Ok(true) => Some(
-                    ValidationResult::new(focus, component, shape.severity().clone())
-                        .with_source(source.cloned())
-                        .with_message(MessageMap::from(msg))
-                        .with_path(maybe_path.cloned())
-                        .with_value(value),
-                ),
+                Ok(true) => Some(Ok(ValidationResult::new(focus, component, shape.severity().clone())
+                    .with_source(source.cloned())
+                    .with_message(MessageMap::from(msg))
+                    .with_path(maybe_path.cloned())
+                    .with_value(value))),
                 Ok(false) => None,
-                Err(_) => None,
+                Err(err) => Some(Err(err)),
             }
         })
-        .collect();
-
-    Ok(results)
+        .collect()
 }
 
 /// Validate with a boolean evaluator. If the evaluator returns true, it means there is a violation
-- 
2.43.0


From 62e4a0a9a477d5dc4a75a51b8f33406103342eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 02/64] fix: an error inside
 sh:and/sh:not/sh:xone/sh:qualifiedValueShape is reported, not taken for
 non-conformance

---
 .../validator/constraints/core/logical/and.rs    | 16 ++++------------
 .../validator/constraints/core/logical/not.rs    |  7 ++-----
 .../validator/constraints/core/logical/xone.rs   |  6 ++----
 .../core/shape_based/qualified_value_shape.rs    | 12 ++++--------
 4 files changed, 12 insertions(+), 29 deletions(-)

diff --git a/shacl/src/validator/constraints/core/logical/and.rs b/shacl/src/validator/constraints/core/logical/and.rs
index 293abed..c6e4483 100644
--- a/shacl/src/validator/constraints/core/logical/and.rs
+++ b/shacl/src/validator/constraints/core/logical/and.rs
@@ -33,18 +33,10 @@ impl<S: NeighsRDF + Debug> Validator<S> for And {
                 for idx in self.shapes().iter() {
                     let and_shape = shapes_graph.get_shape_from_idx_e(idx)?;
                     let inner_results =
-                        and_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                    match inner_results {
-                        Ok(results) => {
-                            if !results.is_empty() {
-                                conforms = false;
-                                break;
-                            }
-                        },
-                        Err(_) => {
-                            conforms = false;
-                            break;
-                        },
+                        and_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph)?;
+                    if !inner_results.is_empty() {
+                        conforms = false;
+                        break;
                     }
                 }
 
diff --git a/shacl/src/validator/constraints/core/logical/not.rs b/shacl/src/validator/constraints/core/logical/not.rs
index 31b6785..882b6de 100644
--- a/shacl/src/validator/constraints/core/logical/not.rs
+++ b/shacl/src/validator/constraints/core/logical/not.rs
@@ -29,11 +29,8 @@ impl<S: NeighsRDF + Debug> Validator<S> for Not {
             for node in nodes.iter() {
                 let focus_nodes = FocusNodes::single(node.clone());
                 let not_shape = shapes_graph.get_shape_from_idx_e(self.shape())?;
-                let inner_results = not_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                let is_valid_inside = match inner_results {
-                    Ok(results) => results.is_empty(),
-                    Err(_) => false, // TODO - Should we fail instead of considering it valid?
-                };
+                let inner_results = not_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph)?;
+                let is_valid_inside = inner_results.is_empty();
                 if is_valid_inside {
                     let msg = format!(
                         "Shape: {}. NOT constraint not satisfied for focus node {fnode} and internal shape {}",
diff --git a/shacl/src/validator/constraints/core/logical/xone.rs b/shacl/src/validator/constraints/core/logical/xone.rs
index dab77da..a075ece 100644
--- a/shacl/src/validator/constraints/core/logical/xone.rs
+++ b/shacl/src/validator/constraints/core/logical/xone.rs
@@ -33,10 +33,8 @@ impl<S: NeighsRDF + Debug> Validator<S> for Xone {
                 for idx in self.shapes().iter() {
                     let internal_shape = shapes_graph.get_shape_from_idx_e(idx)?;
                     let inner_results =
-                        internal_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                    if let Ok(results) = inner_results
-                        && results.is_empty()
-                    {
+                        internal_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph)?;
+                    if inner_results.is_empty() {
                         conforming_shapes += 1;
                     }
                 }
diff --git a/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs b/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
index 2c028ea..fb4c678 100644
--- a/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
+++ b/shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs
@@ -35,20 +35,16 @@ impl<S: NeighsRDF + Debug> Validator<S> for QualifiedValueShape {
             for node in nodes.iter() {
                 let focus_nodes = FocusNodes::single(node.clone());
                 let qv_shape = shapes_graph.get_shape_from_idx_e(self.shape())?;
-                let inner_results = qv_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                let mut is_valid = match inner_results {
-                    Ok(results) => results.is_empty(),
-                    Err(_) => false,
-                };
+                let inner_results = qv_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph)?;
+                let mut is_valid = inner_results.is_empty();
 
                 if !self.siblings().is_empty() && is_valid {
                     // If there are siblings, check that none of them validate
                     for sibling in self.siblings().iter() {
                         let sibling_shape = shapes_graph.get_shape_from_idx_e(sibling)?;
                         let sibling_results =
-                            sibling_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph);
-                        let sibling_is_valid = sibling_results.is_ok() && sibling_results.unwrap().is_empty();
-                        if sibling_is_valid {
+                            sibling_shape.validate(store, engine, Some(&focus_nodes), Some(shape), shapes_graph)?;
+                        if sibling_results.is_empty() {
                             is_valid = false;
                             break;
                         }
-- 
2.43.0


From f8469ea6d292b9e614596a969a159b7d1973d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 03/64] fix: SHACL value nodes of focus nodes whose path meets
 a literal are no longer dropped

---
 rudof_rdf/src/rdf_core/neighs_rdf.rs          |  4 ++++
 shacl/src/validator/engine/value_nodes_ops.rs | 11 ++++-------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/neighs_rdf.rs b/rudof_rdf/src/rdf_core/neighs_rdf.rs
index ec19298..47f5e6b 100644
--- a/rudof_rdf/src/rdf_core/neighs_rdf.rs
+++ b/rudof_rdf/src/rdf_core/neighs_rdf.rs
@@ -325,6 +325,10 @@ pub trait NeighsRDF: Rdf {
     fn objects_for_shacl_path(&self, subject: &Self::Term, path: &SHACLPath) -> Result<HashSet<Self::Term>, RDFError> {
         match path {
             SHACLPath::Predicate { pred } => {
+                // A term that can't be a subject (e.g. a literal) has no outgoing arcs
+                if Self::term_as_subject(subject).is_err() {
+                    return Ok(HashSet::new());
+                }
                 let pred: Self::IRI = pred.clone().into();
                 self.objects_for(subject, &pred)
             },
diff --git a/shacl/src/validator/engine/value_nodes_ops.rs b/shacl/src/validator/engine/value_nodes_ops.rs
index 65b5092..91190bf 100644
--- a/shacl/src/validator/engine/value_nodes_ops.rs
+++ b/shacl/src/validator/engine/value_nodes_ops.rs
@@ -46,12 +46,9 @@ impl<RDF: NeighsRDF> ValueNodesOps<RDF> for IRPropertyShape {
         focus_nodes: &FocusNodes<RDF>,
         runner: &dyn Engine<RDF>,
     ) -> Result<ValueNodes<RDF>, ValidationError> {
-        let value_nodes = focus_nodes.iter().filter_map(|n| {
-            match runner.path(store, self, n) {
-                Ok(ts) => Some((n.clone(), ts)),
-                Err(_) => None, // TODO - Should we add a violation for this case?
-            }
-        });
-        Ok(ValueNodes::from_iter(value_nodes))
+        focus_nodes
+            .iter()
+            .map(|n| Ok((n.clone(), runner.path(store, self, n)?)))
+            .collect()
     }
 }
-- 
2.43.0


From 842a7889bb53629089a0ceae4982a0673c94ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 04/64] fix: errors while resolving SHACL targets are reported
 instead of dropping the target

---
 shacl/src/validator/engine/focus_nodes_ops.rs |  9 ++++-----
 shacl/src/validator/engine/mod.rs             |  9 ++++-----
 shacl/src/validator/engine/native.rs          | 14 ++++++--------
 shacl/src/validator/engine/validate.rs        |  2 +-
 4 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/shacl/src/validator/engine/focus_nodes_ops.rs b/shacl/src/validator/engine/focus_nodes_ops.rs
index 7461de6..34bf166 100644
--- a/shacl/src/validator/engine/focus_nodes_ops.rs
+++ b/shacl/src/validator/engine/focus_nodes_ops.rs
@@ -1,16 +1,15 @@
+use crate::error::ValidationError;
 use crate::ir::IRShape;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::FocusNodes;
 use rudof_rdf::rdf_core::{NeighsRDF, Rdf};
 
 pub(crate) trait FocusNodesOps<RDF: Rdf> {
-    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> FocusNodes<RDF>;
+    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> Result<FocusNodes<RDF>, ValidationError>;
 }
 
 impl<RDF: NeighsRDF> FocusNodesOps<RDF> for IRShape {
-    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> FocusNodes<RDF> {
-        runner
-            .focus_nodes(store, self.targets())
-            .expect("Failed to retrieve focus nodes")
+    fn focus_nodes(&self, store: &RDF, runner: &dyn Engine<RDF>) -> Result<FocusNodes<RDF>, ValidationError> {
+        runner.focus_nodes(store, self.targets())
     }
 }
diff --git a/shacl/src/validator/engine/mod.rs b/shacl/src/validator/engine/mod.rs
index d3d3515..b16fc91 100644
--- a/shacl/src/validator/engine/mod.rs
+++ b/shacl/src/validator/engine/mod.rs
@@ -49,9 +49,9 @@ pub trait Engine<S: NeighsRDF>: Send {
     ) -> Result<Vec<ValidationResult>, ValidationError>;
 
     fn focus_nodes(&self, store: &S, targets: &[Target]) -> Result<FocusNodes<S>, ValidationError> {
-        let targets_iter: Vec<_> = targets
+        let targets = targets
             .iter()
-            .flat_map(|target| match target {
+            .map(|target| match target {
                 Target::Node(n) => self.target_node(store, n),
                 Target::Class(c) => self.target_class(store, c),
                 Target::SubjectsOf(p) => self.target_subject_of(store, p),
@@ -63,10 +63,9 @@ pub trait Engine<S: NeighsRDF>: Send {
                 Target::WrongObjectsOf(_) => todo!(),
                 Target::WrongImplicitClass(_) => todo!(),
             })
-            .flatten()
-            .collect();
+            .collect::<Result<Vec<_>, _>>()?;
 
-        Ok(FocusNodes::from_iter(targets_iter))
+        Ok(FocusNodes::from_iter(targets.into_iter().flatten()))
     }
 
     /// If s is a shape in a shapes graph SG and s has value t for sh:targetNode
diff --git a/shacl/src/validator/engine/native.rs b/shacl/src/validator/engine/native.rs
index 4d428d0..affc548 100644
--- a/shacl/src/validator/engine/native.rs
+++ b/shacl/src/validator/engine/native.rs
@@ -113,14 +113,12 @@ impl NativeEngine {
         let subclass_targets = store
             .subjects_for(&RdfsVocab::rdfs_subclass_of_str().into(), &term)?
             .into_iter()
-            .flat_map(move |subclass| {
-                store
-                    .subjects_for(&RdfVocab::rdf_type().into(), &subclass)
-                    .into_iter()
-                    .flatten()
-            });
-
-        Ok(FocusNodes::from_iter(targets.into_iter().chain(subclass_targets)))
+            .map(|subclass| store.subjects_for(&RdfVocab::rdf_type().into(), &subclass))
+            .collect::<Result<Vec<_>, _>>()?;
+
+        Ok(FocusNodes::from_iter(
+            targets.into_iter().chain(subclass_targets.into_iter().flatten()),
+        ))
     }
 }
 
diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index d40124e..2132661 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -40,7 +40,7 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
 
         // Get focus nodes
         let focus_nodes = match targets {
-            None => &self.focus_nodes(store, runner),
+            None => &self.focus_nodes(store, runner)?,
             Some(targets) => targets,
         };
 
-- 
2.43.0


From eb1fabdbcca41760f0d4f1fc6c0397ac8d126d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 05/64] fix: store errors in sh:class and sh:disjoint are
 reported; literal focus nodes no longer panic in sh:disjoint

---
 .../core/property_pair/disjoint.rs            | 24 +++++-----
 .../validator/constraints/core/value/class.rs | 46 ++++++++-----------
 shacl/src/validator/constraints/mod.rs        | 21 ---------
 3 files changed, 33 insertions(+), 58 deletions(-)

diff --git a/shacl/src/validator/constraints/core/property_pair/disjoint.rs b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
index 966e841..711706e 100644
--- a/shacl/src/validator/constraints/core/property_pair/disjoint.rs
+++ b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
@@ -3,7 +3,7 @@ use crate::ir::components::Disjoint;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::BasicSparqlValidator;
-use crate::validator::constraints::{NativeValidator, validate_with_focus};
+use crate::validator::constraints::{NativeValidator, apply_with_focus};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -31,25 +31,27 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
         _: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
         let check_fn = |f: &S::Term, vn: &S::Term| {
-            let subject = S::term_as_subject(f).unwrap();
-            let iri: S::IRI = self.iri().clone().into();
-            let triples_to_compare = match store.triples_with_subject_predicate(&subject, &iri) {
-                Ok(iter) => iter,
-                Err(_) => return true,
+            // A focus node that can't be a subject (e.g. a literal) has no values for the property
+            let Ok(subject) = S::term_as_subject(f) else {
+                return Ok(false);
             };
+            let iri: S::IRI = self.iri().clone().into();
+            let triples_to_compare = store
+                .triples_with_subject_predicate(&subject, &iri)
+                .map_err(ValidationError::new_graph_error::<S>)?;
 
             for triple in triples_to_compare {
-                let value1 = S::term_as_object(vn).unwrap();
-                let value2 = S::term_as_object(triple.obj()).unwrap();
+                let value1 = S::term_as_object(vn)?;
+                let value2 = S::term_as_object(triple.obj())?;
 
                 if value1 == value2 {
-                    return true;
+                    return Ok(true);
                 }
             }
-            false
+            Ok(false)
         };
 
-        validate_with_focus(
+        apply_with_focus(
             component,
             shape,
             value_nodes,
diff --git a/shacl/src/validator/constraints/core/value/class.rs b/shacl/src/validator/constraints/core/value/class.rs
index 7b90934..29238e4 100644
--- a/shacl/src/validator/constraints/core/value/class.rs
+++ b/shacl/src/validator/constraints/core/value/class.rs
@@ -3,7 +3,7 @@ use crate::ir::components::Class;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 #[cfg(feature = "sparql")]
 use crate::types::MessageMap;
-use crate::validator::constraints::{NativeValidator, validate_with};
+use crate::validator::constraints::{NativeValidator, apply};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
@@ -36,25 +36,15 @@ impl<S: NeighsRDF + 'static> NativeValidator<S> for Class {
         _: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
         let class_fn = |vn: &S::Term| {
-            if vn.is_literal() {
-                return true;
+            // A term that can't be a subject (e.g. a literal) is not an instance of any class
+            if S::term_as_subject(vn).is_err() {
+                return Ok(true);
             }
             let term = S::object_as_term(self.class_rule());
-
-            !store
-                .objects_for(vn, &RdfVocab::rdf_type().into())
-                .unwrap_or_default()
-                .iter()
-                .any(|ctype| {
-                    ctype == &term
-                        || store
-                            .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                            .unwrap_or_default()
-                            .contains(&term)
-                })
+            Ok(!is_instance(store, vn, &term)?)
         };
 
-        validate_with(
+        apply(
             component,
             shape,
             value_nodes,
@@ -94,7 +84,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
                 let conforms = if vn.is_literal() {
                     false
                 } else if vn.is_blank_node() {
-                    blank_is_instance::<S>(store, vn, &class_term)?
+                    is_instance::<S>(store, vn, &class_term)?
                 } else {
                     let vn_sparql = term_as_sparql::<S>(vn).unwrap_or_default();
                     let query = formatdoc! {"
@@ -121,14 +111,18 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
     }
 }
 
-#[cfg(feature = "sparql")]
-fn blank_is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> Result<bool, ValidationError> {
-    let types = store.objects_for(vn, &RdfVocab::rdf_type().into()).unwrap_or_default();
-    Ok(types.iter().any(|ctype| {
-        ctype == class_term
-            || store
-                .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                .unwrap_or_default()
+fn is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> Result<bool, ValidationError> {
+    for ctype in store.objects_for(vn, &RdfVocab::rdf_type().into())? {
+        if &ctype == class_term {
+            return Ok(true);
+        }
+        if S::term_as_subject(&ctype).is_ok()
+            && store
+                .objects_for(&ctype, &RdfsVocab::rdfs_subclass_of_str().into())?
                 .contains(class_term)
-    }))
+        {
+            return Ok(true);
+        }
+    }
+    Ok(false)
 }
diff --git a/shacl/src/validator/constraints/mod.rs b/shacl/src/validator/constraints/mod.rs
index b1e162a..b410be7 100644
--- a/shacl/src/validator/constraints/mod.rs
+++ b/shacl/src/validator/constraints/mod.rs
@@ -331,27 +331,6 @@ fn validate_with<S: Rdf, I: IterationStrategy<S>>(
     )
 }
 
-/// Validate with a boolean evaluator. If the evaluator returns true, it means that there is a violation
-fn validate_with_focus<S: Rdf, I: IterationStrategy<S>>(
-    component: &IRComponent,
-    shape: &IRShape,
-    value_nodes: &ValueNodes<S>,
-    strategy: I,
-    evaluator: impl Fn(&S::Term, &I::Item) -> bool,
-    msg: &str,
-    maybe_path: Option<&SHACLPath>,
-) -> Result<Vec<ValidationResult>, ValidationError> {
-    apply_with_focus(
-        component,
-        shape,
-        value_nodes,
-        strategy,
-        |f, i| Ok(evaluator(f, i)),
-        msg,
-        maybe_path,
-    )
-}
-
 /// Runs an ASK query per value node and emits a violation when the query
 /// returns `false`. If the closure returns `None` for a value node, that node
 /// is treated as conforming (use this for cases where the value node can't be
-- 
2.43.0


From 66835e091f7b438590adda0a2e8530e95915c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 06/64] fix: errors writing the buffered command output are
 reported instead of lost at exit

---
 rudof_cli/src/commands/shex.rs          | 3 ++-
 rudof_cli/src/commands/shex_validate.rs | 1 +
 rudof_cli/src/main.rs                   | 8 +++++++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/rudof_cli/src/commands/shex.rs b/rudof_cli/src/commands/shex.rs
index 0392bc0..c41d249 100644
--- a/rudof_cli/src/commands/shex.rs
+++ b/rudof_cli/src/commands/shex.rs
@@ -2,7 +2,7 @@ use crate::cli::parser::ShexArgs;
 use crate::commands::base::{Command, CommandContext};
 use anyhow::{Context, Result};
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 
 /// Implementation of the `shex` command.
 ///
@@ -73,6 +73,7 @@ impl Command for ShexCommand {
                 .with_context(|| format!("Failed to create precompiled cache file '{}'", cache_path.display()))?;
             let mut writer = BufWriter::new(file);
             ctx.rudof.compile_shex_schema_to_file(&mut writer).execute()?;
+            writer.flush()?;
         }
 
         Ok(())
diff --git a/rudof_cli/src/commands/shex_validate.rs b/rudof_cli/src/commands/shex_validate.rs
index 4ec34b8..afbbdb1 100644
--- a/rudof_cli/src/commands/shex_validate.rs
+++ b/rudof_cli/src/commands/shex_validate.rs
@@ -91,6 +91,7 @@ impl Command for ShexValidateCommand {
                     .with_context(|| format!("Failed to create precompiled cache file '{}'", cache_path.display()))?;
                 let mut writer = BufWriter::new(file);
                 ctx.rudof.compile_shex_schema_to_file(&mut writer).execute()?;
+                writer.flush()?;
             }
         }
         // Neither `--schema` nor `--compiled-schema` given: reuse whatever
diff --git a/rudof_cli/src/main.rs b/rudof_cli/src/main.rs
index 5415350..52414f6 100755
--- a/rudof_cli/src/main.rs
+++ b/rudof_cli/src/main.rs
@@ -4,7 +4,10 @@ use rudof_cli::{
     commands::{CommandContext, CommandFactory},
 };
 #[cfg(not(target_family = "wasm"))]
-use std::{env, io};
+use std::{
+    env,
+    io::{self, Write},
+};
 #[cfg(not(target_family = "wasm"))]
 use tracing_subscriber::{filter::EnvFilter, fmt, layer::SubscriberExt, util::SubscriberInitExt};
 
@@ -71,5 +74,8 @@ fn execute(cli_command: &Command, debug: u8) -> anyhow::Result<()> {
     // Run the core logic
     command.execute(&mut ctx)?;
 
+    // The writer is buffered: an error writing the pending output must be reported
+    ctx.writer.flush()?;
+
     Ok(())
 }
-- 
2.43.0


From 9c3649b14a2def22e980955f2998468d78233d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 07/64] fix: malformed sh:in, sh:languageIn and sh:nodeKind
 values and sh:prefixes lookups are reported instead of dropped

---
 shacl/src/rdf/parsers/other/in_component.rs   |  4 +-
 shacl/src/rdf/parsers/sparql/basic.rs         | 41 +++++++++----------
 .../rdf/parsers/string_based/language_in.rs   |  2 +-
 shacl/src/rdf/parsers/value_type/node_kind.rs | 14 +++----
 4 files changed, 28 insertions(+), 33 deletions(-)

diff --git a/shacl/src/rdf/parsers/other/in_component.rs b/shacl/src/rdf/parsers/other/in_component.rs
index 9590110..9c31d31 100644
--- a/shacl/src/rdf/parsers/other/in_component.rs
+++ b/shacl/src/rdf/parsers/other/in_component.rs
@@ -11,8 +11,8 @@ pub(crate) fn in_component<RDF: FocusRDF>() -> impl RDFNodeParse<RDF, Output = V
         ListParser::new().flat_map(|ls| {
             let values = ls
                 .iter()
-                .flat_map(|t| term_to_value::<RDF>(t, "parsing in list"))
-                .collect();
+                .map(|t| term_to_value::<RDF>(t, "parsing in list"))
+                .collect::<Result<_, _>>()?;
             Ok(ASTComponent::In(values))
         }),
     )
diff --git a/shacl/src/rdf/parsers/sparql/basic.rs b/shacl/src/rdf/parsers/sparql/basic.rs
index c108a61..6218cdd 100644
--- a/shacl/src/rdf/parsers/sparql/basic.rs
+++ b/shacl/src/rdf/parsers/sparql/basic.rs
@@ -35,13 +35,11 @@ impl<RDF: FocusRDF> RDFNodeParse<RDF> for BasicSparqlConstraintParser<RDF> {
                 .parse_focused(rdf)?;
 
             let mut pm = PrefixMap::new();
-            let prefix_nodes = ValuesPropertyParser::new(ShaclVocab::sh_prefixes())
-                .parse_focused(rdf)
-                .unwrap_or_default();
+            let prefix_nodes = ValuesPropertyParser::new(ShaclVocab::sh_prefixes()).parse_focused(rdf)?;
 
             for pn in prefix_nodes {
                 // Changes focus node, should be restored afterwards
-                collect_prefixes(rdf, &pn, &mut pm, &mut HashSet::new());
+                collect_prefixes(rdf, &pn, &mut pm, &mut HashSet::new())?;
             }
             rdf.set_focus(&node);
 
@@ -69,36 +67,35 @@ fn collect_prefixes<RDF: FocusRDF>(
     node: &RDF::Term,
     out: &mut PrefixMap,
     visited: &mut HashSet<String>,
-) {
+) -> Result<(), RDFError> {
     let node_str = node.to_string();
     if !visited.insert(node_str) {
-        return;
+        return Ok(());
     }
 
     rdf.set_focus(node);
 
     // sh:declare: bnodes with sh:prefix and sh:namespace
-    if let Ok(decl_nodes) = ValuesPropertyParser::new(ShaclVocab::sh_declare()).parse_focused(rdf) {
-        for decl in decl_nodes {
-            rdf.set_focus(&decl);
-            let prefix = SingleStringPropertyParser::new(ShaclVocab::sh_prefix()).parse_focused(rdf);
-            let ns = SingleStringPropertyParser::new(ShaclVocab::sh_namespace()).parse_focused(rdf);
-            if let (Ok(p), Ok(n)) = (prefix, ns)
-                && let Ok(iri) = IriS::new(&n)
-            {
-                out.add_prefix(&p, iri);
-            }
+    let decl_nodes = ValuesPropertyParser::new(ShaclVocab::sh_declare()).parse_focused(rdf)?;
+    for decl in decl_nodes {
+        rdf.set_focus(&decl);
+        let prefix = SingleStringPropertyParser::new(ShaclVocab::sh_prefix()).parse_focused(rdf);
+        let ns = SingleStringPropertyParser::new(ShaclVocab::sh_namespace()).parse_focused(rdf);
+        if let (Ok(p), Ok(n)) = (prefix, ns)
+            && let Ok(iri) = IriS::new(&n)
+        {
+            out.add_prefix(&p, iri);
         }
-        rdf.set_focus(node);
     }
+    rdf.set_focus(node);
 
     // owl:imports
-    if let Ok(import_nodes) = ValuesPropertyParser::new(OwlVocab::owl_imports()).parse_focused(rdf) {
-        for imp in import_nodes {
-            collect_prefixes(rdf, &imp, out, visited);
-        }
-        rdf.set_focus(node);
+    let import_nodes = ValuesPropertyParser::new(OwlVocab::owl_imports()).parse_focused(rdf)?;
+    for imp in import_nodes {
+        collect_prefixes(rdf, &imp, out, visited)?;
     }
+    rdf.set_focus(node);
+    Ok(())
 }
 
 pub(crate) fn basic_sparql<RDF: FocusRDF>() -> impl RDFNodeParse<RDF, Output = Vec<ASTComponent>> {
diff --git a/shacl/src/rdf/parsers/string_based/language_in.rs b/shacl/src/rdf/parsers/string_based/language_in.rs
index 7a73de5..f1de5d5 100644
--- a/shacl/src/rdf/parsers/string_based/language_in.rs
+++ b/shacl/src/rdf/parsers/string_based/language_in.rs
@@ -14,6 +14,6 @@ pub(crate) fn language_in<RDF: FocusRDF>() -> impl RDFNodeParse<RDF, Output = Ve
 }
 
 fn cnv_language_in_list<RDF: FocusRDF>(terms: Vec<RDF::Term>) -> Result<ASTComponent, RDFError> {
-    let langs: Vec<Lang> = terms.iter().flat_map(RDF::term_as_lang).collect();
+    let langs: Vec<Lang> = terms.iter().map(RDF::term_as_lang).collect::<Result<_, _>>()?;
     Ok(ASTComponent::LanguageIn(langs))
 }
diff --git a/shacl/src/rdf/parsers/value_type/node_kind.rs b/shacl/src/rdf/parsers/value_type/node_kind.rs
index 0102e7e..a61fb7d 100644
--- a/shacl/src/rdf/parsers/value_type/node_kind.rs
+++ b/shacl/src/rdf/parsers/value_type/node_kind.rs
@@ -5,18 +5,16 @@ use rudof_rdf::rdf_core::parser::rdf_node_parser::constructors::ValuesPropertyPa
 use rudof_rdf::rdf_core::parser::rdf_node_parser::{ParserExt, RDFNodeParse};
 use rudof_rdf::rdf_core::term::Iri;
 use rudof_rdf::rdf_core::vocabs::ShaclVocab;
-use rudof_rdf::rdf_core::{FocusRDF, Rdf};
+use rudof_rdf::rdf_core::{FocusRDF, RDFError, Rdf};
 
 pub(crate) fn node_kind<RDF: FocusRDF>() -> impl RDFNodeParse<RDF, Output = Vec<ASTComponent>> {
     ValuesPropertyParser::new(ShaclVocab::sh_node_kind()).flat_map(|ns| {
-        let nks: Vec<_> = ns
-            .into_iter()
-            .flat_map(|term| {
-                let nk = term_to_node_kind::<RDF>(term)?;
-                Ok::<ASTComponent, ShaclParserError>(ASTComponent::NodeKind(nk))
+        ns.into_iter()
+            .map(|term| {
+                let nk = term_to_node_kind::<RDF>(term).map_err(|e| RDFError::DefaultError { msg: e.to_string() })?;
+                Ok(ASTComponent::NodeKind(nk))
             })
-            .collect();
-        Ok(nks)
+            .collect::<Result<Vec<_>, RDFError>>()
     })
 }
 
-- 
2.43.0


From 95042a3c799ee39b85201920ca4a83fa28741f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 08/64] fix: an endpoint error while listing triples is
 reported instead of yielding fewer triples

---
 sparql_service/src/srdf_data/rdf_data.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index a38de47..8500854 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -433,11 +433,10 @@ impl NeighsRDF for RdfData {
             .triples()
             .map_err(|e| RdfDataError::Backend { err: Box::new(e) })?
             .collect();
-        let endpoint_triples: Vec<OxTriple> = self
-            .use_endpoints
-            .values()
-            .flat_map(|e| NeighsRDF::triples(e).map(|i| i.collect::<Vec<_>>()).unwrap_or_default())
-            .collect();
+        let mut endpoint_triples: Vec<OxTriple> = Vec::new();
+        for e in self.use_endpoints.values() {
+            endpoint_triples.extend(NeighsRDF::triples(e)?);
+        }
         let iter: Box<dyn Iterator<Item = OxTriple> + '_> = Box::new(primary.into_iter().chain(endpoint_triples));
         Ok(iter)
     }
-- 
2.43.0


From aa9079235f44789689f12eb93e652f5842c19326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 09/64] fix: errors adding anonymous edge types of a PG schema
 are reported

---
 pgschema/src/parser/pg_builder.rs  | 2 +-
 pgschema/src/parser/pgs_builder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pgschema/src/parser/pg_builder.rs b/pgschema/src/parser/pg_builder.rs
index 88cb26e..fd16611 100644
--- a/pgschema/src/parser/pg_builder.rs
+++ b/pgschema/src/parser/pg_builder.rs
@@ -79,7 +79,7 @@ fn get_node(node: Node, pg: &mut PropertyGraph) -> Result<(), PgsError> {
 
 fn get_labels_record(labels_record: LabelsRecord) -> Result<(HashSet<LabelName>, Record), PgsError> {
     let labels = if let Some(labels) = labels_record.labels_opt {
-        get_labels(labels).unwrap_or_default()
+        get_labels(labels)?
     } else {
         HashSet::new()
     };
diff --git a/pgschema/src/parser/pgs_builder.rs b/pgschema/src/parser/pgs_builder.rs
index fc5983f..6c90a29 100644
--- a/pgschema/src/parser/pgs_builder.rs
+++ b/pgschema/src/parser/pgs_builder.rs
@@ -64,7 +64,7 @@ fn get_create_types(create_types: Vec<CreateType>, schema: &mut PropertyGraphSch
                 if let Some(type_name) = edge_type.type_name_opt {
                     let _ = schema.add_edge_spec(type_name.as_str(), source_spec, label_property_spec, target_spec)?;
                 } else {
-                    let _ = schema.add_blank_edge_spec(source_spec, label_property_spec, target_spec);
+                    let _ = schema.add_blank_edge_spec(source_spec, label_property_spec, target_spec)?;
                 }
             },
             CreateType::CreateGraphType(_) => todo!(),
-- 
2.43.0


From 4362dadef28987474cb5b068e9bef3d7ff5c3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 10/64] fix: a failed MCP HTTP server ends with an error
 instead of success

---
 rudof_mcp/src/server/streamable_http/http_server.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rudof_mcp/src/server/streamable_http/http_server.rs b/rudof_mcp/src/server/streamable_http/http_server.rs
index ee60b85..b372a86 100644
--- a/rudof_mcp/src/server/streamable_http/http_server.rs
+++ b/rudof_mcp/src/server/streamable_http/http_server.rs
@@ -95,6 +95,7 @@ pub async fn run_mcp_http(
         result = server => {
             if let Err(e) = result {
                 tracing::error!("Server error: {}", e);
+                return Err(e.into());
             }
         }
         _ = tokio::signal::ctrl_c() => {
-- 
2.43.0


From 87ccfd4bc142d451ddfa5b523964993287b352d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 11/64] fix: failing to install the shutdown signal handler of
 the MCP server is an error

---
 rudof_mcp/src/server/streamable_http/http_server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rudof_mcp/src/server/streamable_http/http_server.rs b/rudof_mcp/src/server/streamable_http/http_server.rs
index b372a86..5ba4e82 100644
--- a/rudof_mcp/src/server/streamable_http/http_server.rs
+++ b/rudof_mcp/src/server/streamable_http/http_server.rs
@@ -98,7 +98,8 @@ pub async fn run_mcp_http(
                 return Err(e.into());
             }
         }
-        _ = tokio::signal::ctrl_c() => {
+        signal = tokio::signal::ctrl_c() => {
+            signal?;
             tracing::debug!("Shutdown signal received, stopping HTTP server...");
         }
     }
-- 
2.43.0


From 59cbba5a8a6a902d21d90ff765a0246a5f380735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 12/64] fix: a node/shape pair that cannot be resolved is
 reported instead of dropped from the shape map

---
 shex_validation/src/validator.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/shex_validation/src/validator.rs b/shex_validation/src/validator.rs
index f933a51..896b760 100644
--- a/shex_validation/src/validator.rs
+++ b/shex_validation/src/validator.rs
@@ -191,8 +191,8 @@ impl Validator {
                                     "fill_pending: Could not convert node {} while handling missing label error: {}",
                                     node, node_err
                                 );
-                                // TODO: Should we push a failure for this case as well?
-                                // It would be a bit redundant with the error message we already have, but it would allow us to report the node in the result map as well.
+                                // The pair cannot be reported in the result map: report it as an error
+                                return Err(e);
                             },
                         },
                         Err(label_err) => {
@@ -200,9 +200,8 @@ impl Validator {
                                 "fill_pending: Could not convert shape label {} while handling missing label error: {}",
                                 label, label_err
                             );
-                            // TODO: Should we push a failure for this case as well?
-                            // It would be a bit redundant with the error message we already have,
-                            // but it would allow us to report the label in the result map as well.
+                            // The pair cannot be reported in the result map: report it as an error
+                            return Err(e);
                         },
                     }
                 },
-- 
2.43.0


From 42e783d84bd7e95c56a93abcada6a12f9fc81741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 13/64] fix: malformed sh:declare prefix declarations are
 reported instead of dropped

---
 shacl/src/rdf/parsers/sparql/basic.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/shacl/src/rdf/parsers/sparql/basic.rs b/shacl/src/rdf/parsers/sparql/basic.rs
index 6218cdd..1a688c9 100644
--- a/shacl/src/rdf/parsers/sparql/basic.rs
+++ b/shacl/src/rdf/parsers/sparql/basic.rs
@@ -79,13 +79,10 @@ fn collect_prefixes<RDF: FocusRDF>(
     let decl_nodes = ValuesPropertyParser::new(ShaclVocab::sh_declare()).parse_focused(rdf)?;
     for decl in decl_nodes {
         rdf.set_focus(&decl);
-        let prefix = SingleStringPropertyParser::new(ShaclVocab::sh_prefix()).parse_focused(rdf);
-        let ns = SingleStringPropertyParser::new(ShaclVocab::sh_namespace()).parse_focused(rdf);
-        if let (Ok(p), Ok(n)) = (prefix, ns)
-            && let Ok(iri) = IriS::new(&n)
-        {
-            out.add_prefix(&p, iri);
-        }
+        let prefix = SingleStringPropertyParser::new(ShaclVocab::sh_prefix()).parse_focused(rdf)?;
+        let ns = SingleStringPropertyParser::new(ShaclVocab::sh_namespace()).parse_focused(rdf)?;
+        let iri = IriS::new(&ns).map_err(|e| RDFError::DefaultError { msg: e.to_string() })?;
+        out.add_prefix(&prefix, iri);
     }
     rdf.set_focus(node);
 
-- 
2.43.0


From 6dcc8edf06055efddfdaa610fca372bba41dcbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 14/64] fix: sh:minLength and sh:maxLength count characters,
 not bytes, in the native engine

---
 .../src/validator/constraints/core/string_based/max_length.rs | 4 ++--
 .../src/validator/constraints/core/string_based/min_length.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/shacl/src/validator/constraints/core/string_based/max_length.rs b/shacl/src/validator/constraints/core/string_based/max_length.rs
index 07ae4eb..7108ed3 100644
--- a/shacl/src/validator/constraints/core/string_based/max_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/max_length.rs
@@ -35,10 +35,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MaxLength {
                 return true;
             }
             if let Ok(iri) = S::term_as_iri(vn) {
-                return iri.as_str().len() > self.max_length() as usize;
+                return iri.as_str().chars().count() > self.max_length() as usize;
             }
             if let Ok(lit) = S::term_as_literal(vn) {
-                return lit.lexical_form().len() > self.max_length() as usize;
+                return lit.lexical_form().chars().count() > self.max_length() as usize;
             }
             true
         };
diff --git a/shacl/src/validator/constraints/core/string_based/min_length.rs b/shacl/src/validator/constraints/core/string_based/min_length.rs
index b1e6dec..646577c 100644
--- a/shacl/src/validator/constraints/core/string_based/min_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/min_length.rs
@@ -35,10 +35,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MinLength {
                 return true;
             }
             if let Ok(iri) = S::term_as_iri(vn) {
-                return iri.as_str().len() < self.min_length() as usize;
+                return iri.as_str().chars().count() < self.min_length() as usize;
             }
             if let Ok(lit) = S::term_as_literal(vn) {
-                return lit.lexical_form().len() < self.min_length() as usize;
+                return lit.lexical_form().chars().count() < self.min_length() as usize;
             }
             true
         };
-- 
2.43.0


From 5fd42e33a2f6e6645ae4d39727d1108d25889620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 15/64] fix: sh:class follows rdfs:subClassOf over any number
 of steps in the native engine

---
 .../validator/constraints/core/value/class.rs  | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/shacl/src/validator/constraints/core/value/class.rs b/shacl/src/validator/constraints/core/value/class.rs
index 29238e4..a91b5e0 100644
--- a/shacl/src/validator/constraints/core/value/class.rs
+++ b/shacl/src/validator/constraints/core/value/class.rs
@@ -8,9 +8,11 @@ use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
+#[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::term::Term;
 use rudof_rdf::rdf_core::vocabs::{RdfVocab, RdfsVocab};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
+use std::collections::HashSet;
 #[cfg(feature = "sparql")]
 use std::fmt::Debug;
 
@@ -112,16 +114,18 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
 }
 
 fn is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> Result<bool, ValidationError> {
-    for ctype in store.objects_for(vn, &RdfVocab::rdf_type().into())? {
+    // A node is an instance of its types and of all their superclasses
+    let mut pending: Vec<S::Term> = store
+        .objects_for(vn, &RdfVocab::rdf_type().into())?
+        .into_iter()
+        .collect();
+    let mut visited = HashSet::new();
+    while let Some(ctype) = pending.pop() {
         if &ctype == class_term {
             return Ok(true);
         }
-        if S::term_as_subject(&ctype).is_ok()
-            && store
-                .objects_for(&ctype, &RdfsVocab::rdfs_subclass_of_str().into())?
-                .contains(class_term)
-        {
-            return Ok(true);
+        if S::term_as_subject(&ctype).is_ok() && visited.insert(ctype.clone()) {
+            pending.extend(store.objects_for(&ctype, &RdfsVocab::rdfs_subclass_of_str().into())?);
         }
     }
     Ok(false)
-- 
2.43.0


From 2667f2f8f1111620bf3b142e6680d7f697b43582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 16/64] fix: property pair constraints on blank nodes and
 literals decide the same in the SPARQL engine as in the native one

---
 .../core/property_pair/disjoint.rs            | 21 ++++++++--
 .../constraints/core/property_pair/equals.rs  | 42 ++++++++++++-------
 .../core/property_pair/less_than.rs           | 23 +++++++---
 .../core/property_pair/less_than_or_equals.rs | 23 +++++++---
 shacl/src/validator/constraints/mod.rs        | 11 +++++
 5 files changed, 91 insertions(+), 29 deletions(-)

diff --git a/shacl/src/validator/constraints/core/property_pair/disjoint.rs b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
index 711706e..9f20e63 100644
--- a/shacl/src/validator/constraints/core/property_pair/disjoint.rs
+++ b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
@@ -2,7 +2,7 @@ use crate::error::ValidationError;
 use crate::ir::components::Disjoint;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 #[cfg(feature = "sparql")]
-use crate::validator::constraints::BasicSparqlValidator;
+use crate::validator::constraints::{BasicSparqlValidator, not_expressible_in_sparql};
 use crate::validator::constraints::{NativeValidator, apply_with_focus};
 use crate::validator::engine::Engine;
 use crate::validator::iteration::ValueNodeIteration;
@@ -70,12 +70,25 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Disj
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
+        source_shape: Option<&IRShape>,
         maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
+        if not_expressible_in_sparql::<S>(value_nodes) {
+            return self.validate_native(
+                component,
+                shape,
+                store,
+                engine,
+                value_nodes,
+                source_shape,
+                maybe_path,
+                shapes_graph,
+            );
+        }
+
         let component_obj = Object::iri(component.into());
         let mut results = Vec::new();
 
diff --git a/shacl/src/validator/constraints/core/property_pair/equals.rs b/shacl/src/validator/constraints/core/property_pair/equals.rs
index f60ad68..90d8b1a 100644
--- a/shacl/src/validator/constraints/core/property_pair/equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/equals.rs
@@ -1,9 +1,9 @@
 use crate::error::ValidationError;
 use crate::ir::components::Equals;
 use crate::ir::{IRComponent, IRSchema, IRShape};
-#[cfg(feature = "sparql")]
-use crate::validator::constraints::BasicSparqlValidator;
 use crate::validator::constraints::NativeValidator;
+#[cfg(feature = "sparql")]
+use crate::validator::constraints::{BasicSparqlValidator, not_expressible_in_sparql};
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -32,18 +32,17 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Equals {
         let mut results = Vec::new();
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = match S::term_as_subject(fnode) {
-                Ok(s) => s,
-                Err(_) => continue,
-            };
-
             let iri: S::IRI = self.iri().clone().into();
 
-            let prop_values = store
-                .triples_with_subject_predicate(&subject, &iri)
-                .map_err(ValidationError::new_graph_error::<S>)?
-                .map(|t| t.obj().clone())
-                .collect::<HashSet<_>>();
+            // A focus node that can't be a subject (e.g. a literal) has no values for the property
+            let prop_values = match S::term_as_subject(fnode) {
+                Ok(subject) => store
+                    .triples_with_subject_predicate(&subject, &iri)
+                    .map_err(ValidationError::new_graph_error::<S>)?
+                    .map(|t| t.obj().clone())
+                    .collect::<HashSet<_>>(),
+                Err(_) => HashSet::new(),
+            };
 
             let nodes_set = nodes.iter().collect::<HashSet<_>>();
 
@@ -83,12 +82,25 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Equa
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
+        source_shape: Option<&IRShape>,
         maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
+        if not_expressible_in_sparql::<S>(value_nodes) {
+            return self.validate_native(
+                component,
+                shape,
+                store,
+                engine,
+                value_nodes,
+                source_shape,
+                maybe_path,
+                shapes_graph,
+            );
+        }
+
         let component_obj = Object::iri(component.into());
         let mut results = Vec::new();
 
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than.rs b/shacl/src/validator/constraints/core/property_pair/less_than.rs
index 27f7a15..ba63baa 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than.rs
@@ -2,9 +2,9 @@ use crate::error::ValidationError;
 use crate::ir::components::LessThan;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 use crate::types::MessageMap;
-#[cfg(feature = "sparql")]
-use crate::validator::constraints::BasicSparqlValidator;
 use crate::validator::constraints::NativeValidator;
+#[cfg(feature = "sparql")]
+use crate::validator::constraints::{BasicSparqlValidator, not_expressible_in_sparql};
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -94,12 +94,25 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Less
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
+        source_shape: Option<&IRShape>,
         maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
+        if not_expressible_in_sparql::<S>(value_nodes) {
+            return self.validate_native(
+                component,
+                shape,
+                store,
+                engine,
+                value_nodes,
+                source_shape,
+                maybe_path,
+                shapes_graph,
+            );
+        }
+
         let component_obj = Object::iri(component.into());
         let mut results = Vec::new();
 
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
index 91c9393..4a90a3e 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@@ -2,9 +2,9 @@ use crate::error::ValidationError;
 use crate::ir::components::LessThanOrEquals;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 use crate::types::MessageMap;
-#[cfg(feature = "sparql")]
-use crate::validator::constraints::BasicSparqlValidator;
 use crate::validator::constraints::NativeValidator;
+#[cfg(feature = "sparql")]
+use crate::validator::constraints::{BasicSparqlValidator, not_expressible_in_sparql};
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -94,12 +94,25 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Less
         component: &IRComponent,
         shape: &IRShape,
         store: &S,
-        _: &mut dyn Engine<S>,
+        engine: &mut dyn Engine<S>,
         value_nodes: &ValueNodes<S>,
-        _: Option<&IRShape>,
+        source_shape: Option<&IRShape>,
         maybe_path: Option<&SHACLPath>,
-        _: &IRSchema,
+        shapes_graph: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
+        if not_expressible_in_sparql::<S>(value_nodes) {
+            return self.validate_native(
+                component,
+                shape,
+                store,
+                engine,
+                value_nodes,
+                source_shape,
+                maybe_path,
+                shapes_graph,
+            );
+        }
+
         let component_obj = Object::iri(component.into());
         let mut results = Vec::new();
 
diff --git a/shacl/src/validator/constraints/mod.rs b/shacl/src/validator/constraints/mod.rs
index b410be7..15f86f8 100644
--- a/shacl/src/validator/constraints/mod.rs
+++ b/shacl/src/validator/constraints/mod.rs
@@ -19,6 +19,8 @@ use crate::validator::report::ValidationResult;
 #[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::query::QueryRDF;
 use rudof_rdf::rdf_core::term::Object;
+#[cfg(feature = "sparql")]
+use rudof_rdf::rdf_core::term::Term;
 use rudof_rdf::rdf_core::{NeighsRDF, Rdf, SHACLPath};
 use std::fmt::Debug;
 use std::marker::PhantomData;
@@ -363,6 +365,15 @@ fn validate_ask_with_opt<S: QueryRDF>(
     )
 }
 
+/// Whether some focus node or value node can't be written in a SPARQL query: the label of a blank node acts as
+/// a variable there, and a literal can't be the subject of a triple pattern.
+#[cfg(feature = "sparql")]
+pub(crate) fn not_expressible_in_sparql<S: Rdf>(value_nodes: &ValueNodes<S>) -> bool {
+    value_nodes
+        .iter()
+        .any(|(focus, values)| !focus.is_iri() || values.iter().any(|value| !value.is_iri() && !value.is_literal()))
+}
+
 /// Format an [`Object`] as SPARQL term syntax.
 /// Returns `None` for blank nodes, which can't be
 /// referenced by label in a SPARQL query — bare `_:foo`
-- 
2.43.0


From 4ae4a6db482845ceabaf0df3d1645da8d9e77422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 17/64] fix: native sh:lessThan(OrEquals) reports store errors,
 accepts literal focus nodes and compares only literals

---
 .../core/property_pair/less_than.rs           | 74 ++++++++-----------
 .../core/property_pair/less_than_or_equals.rs | 74 ++++++++-----------
 shacl/src/validator/constraints/mod.rs        |  9 +++
 3 files changed, 69 insertions(+), 88 deletions(-)

diff --git a/shacl/src/validator/constraints/core/property_pair/less_than.rs b/shacl/src/validator/constraints/core/property_pair/less_than.rs
index ba63baa..599d0d7 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than.rs
@@ -2,9 +2,9 @@ use crate::error::ValidationError;
 use crate::ir::components::LessThan;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 use crate::types::MessageMap;
-use crate::validator::constraints::NativeValidator;
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::{BasicSparqlValidator, not_expressible_in_sparql};
+use crate::validator::constraints::{NativeValidator, compare_values};
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -32,54 +32,40 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
         let component = Object::Iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
+            // A focus node that can't be a subject (e.g. a literal) has no values for the property
+            let Ok(subject) = S::term_as_subject(fnode) else {
+                continue;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
-            match store.triples_with_subject_predicate(&subject, &iri) {
-                Ok(triples_iter) => {
-                    // Collect nodes to compare
-                    for triple in triples_iter {
-                        let node1 = S::term_as_object(triple.obj())?;
-                        for value in nodes.iter() {
-                            let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
-                                None => Some(format!(
-                                    "LessThan constraint violated: {node1} is not comparable to {node2}"
-                                )),
-                                Some(ord) if ord.is_ge() => Some(format!(
-                                    "LessThan constraint violated: {node1} is not less than {node2}"
-                                )),
-                                _ => None,
-                            };
+            let triples = store
+                .triples_with_subject_predicate(&subject, &iri)
+                .map_err(ValidationError::new_graph_error::<S>)?;
+            // Collect nodes to compare
+            for triple in triples {
+                let node1 = S::term_as_object(triple.obj())?;
+                for value in nodes.iter() {
+                    let node2 = S::term_as_object(value)?;
+                    let msg = match compare_values(&node2, &node1) {
+                        None => Some(format!(
+                            "LessThan constraint violated: {node1} is not comparable to {node2}"
+                        )),
+                        Some(ord) if ord.is_ge() => Some(format!(
+                            "LessThan constraint violated: {node1} is not less than {node2}"
+                        )),
+                        _ => None,
+                    };
 
-                            if let Some(msg) = msg {
-                                let node_obj = S::term_as_object(value).ok();
-                                let vr = ValidationResult::new(
-                                    fnode_obj.clone(),
-                                    component.clone(),
-                                    shape.severity().clone(),
-                                )
-                                .with_message(MessageMap::from(msg))
-                                .with_path(maybe_path.cloned())
-                                .with_source(Some(shape.id().clone()))
-                                .with_value(node_obj);
-                                validation_results.push(vr);
-                            }
-                        }
+                    if let Some(msg) = msg {
+                        let vr = ValidationResult::new(fnode_obj.clone(), component.clone(), shape.severity().clone())
+                            .with_message(MessageMap::from(msg))
+                            .with_path(maybe_path.cloned())
+                            .with_source(Some(shape.id().clone()))
+                            .with_value(Some(node2));
+                        validation_results.push(vr);
                     }
-                },
-                Err(e) => {
-                    let msg = format!(
-                        "LessThan: Error trying to find triples for subject {subject} and predicate {}: {e}",
-                        self.iri()
-                    );
-                    let vr = ValidationResult::new(fnode_obj, component.clone(), shape.severity().clone())
-                        .with_path(maybe_path.cloned())
-                        .with_message(MessageMap::from(msg))
-                        .with_source(Some(shape.id().clone()));
-                    validation_results.push(vr);
-                },
+                }
             }
         }
 
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
index 4a90a3e..e0d7ade 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@@ -2,9 +2,9 @@ use crate::error::ValidationError;
 use crate::ir::components::LessThanOrEquals;
 use crate::ir::{IRComponent, IRSchema, IRShape};
 use crate::types::MessageMap;
-use crate::validator::constraints::NativeValidator;
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::{BasicSparqlValidator, not_expressible_in_sparql};
+use crate::validator::constraints::{NativeValidator, compare_values};
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -32,57 +32,43 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
         let component = Object::iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
+            // A focus node that can't be a subject (e.g. a literal) has no values for the property
+            let Ok(subject) = S::term_as_subject(fnode) else {
+                continue;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
-            match store.triples_with_subject_predicate(&subject, &iri) {
-                Ok(triples_iter) => {
-                    // Collect nodes to compare
-                    for triple in triples_iter {
-                        let node1 = S::term_as_object(triple.obj())?;
-                        for value in nodes.iter() {
-                            let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
-                                None => Some(format!(
-                                    "LessThanOrEquals constraint violated: {node1} is not comparable to {node2}"
-                                )),
-                                Some(ord) if ord.is_gt() => Some(format!(
-                                    "LessThanOrEquals constraint violated: {node1} is not less or equals than {node2}"
-                                )),
-                                _ => None,
-                            };
+            let triples = store
+                .triples_with_subject_predicate(&subject, &iri)
+                .map_err(ValidationError::new_graph_error::<S>)?;
+            // Collect nodes to compare
+            for triple in triples {
+                let node1 = S::term_as_object(triple.obj())?;
+                for value in nodes.iter() {
+                    let node2 = S::term_as_object(value)?;
+                    let msg = match compare_values(&node2, &node1) {
+                        None => Some(format!(
+                            "LessThanOrEquals constraint violated: {node1} is not comparable to {node2}"
+                        )),
+                        Some(ord) if ord.is_gt() => Some(format!(
+                            "LessThanOrEquals constraint violated: {node1} is not less or equals than {node2}"
+                        )),
+                        _ => None,
+                    };
 
-                            if let Some(msg) = msg {
-                                let node_obj = S::term_as_object(value).ok();
-                                let validation_result = ValidationResult::new(
-                                    fnode_obj.clone(),
-                                    component.clone(),
-                                    shape.severity().clone(),
-                                )
-                                .with_message(MessageMap::from(msg))
-                                .with_path(maybe_path.cloned())
-                                .with_value(node_obj)
-                                .with_source(Some(shape.id().clone()));
-                                validation_results.push(validation_result);
-                            }
-                        }
-                    }
-                },
-                Err(e) => {
-                    let msg = format!(
-                        "LessThanOrEquals: Error trying to find triples for subject {subject} and predicate {}: {e}",
-                        self.iri()
-                    );
-                    let validation_result =
-                        ValidationResult::new(fnode_obj, component.clone(), shape.severity().clone())
+                    if let Some(msg) = msg {
+                        let vr = ValidationResult::new(fnode_obj.clone(), component.clone(), shape.severity().clone())
                             .with_message(MessageMap::from(msg))
                             .with_path(maybe_path.cloned())
-                            .with_source(Some(shape.id().clone()));
-                    validation_results.push(validation_result);
-                },
+                            .with_source(Some(shape.id().clone()))
+                            .with_value(Some(node2));
+                        validation_results.push(vr);
+                    }
+                }
             }
         }
+
         Ok(validation_results)
     }
 }
diff --git a/shacl/src/validator/constraints/mod.rs b/shacl/src/validator/constraints/mod.rs
index 15f86f8..e4056f4 100644
--- a/shacl/src/validator/constraints/mod.rs
+++ b/shacl/src/validator/constraints/mod.rs
@@ -22,6 +22,7 @@ use rudof_rdf::rdf_core::term::Object;
 #[cfg(feature = "sparql")]
 use rudof_rdf::rdf_core::term::Term;
 use rudof_rdf::rdf_core::{NeighsRDF, Rdf, SHACLPath};
+use std::cmp::Ordering;
 use std::fmt::Debug;
 use std::marker::PhantomData;
 
@@ -333,6 +334,14 @@ fn validate_with<S: Rdf, I: IterationStrategy<S>>(
     )
 }
 
+/// Order of two values as defined by the SPARQL operator `<`, which only compares literals
+pub(crate) fn compare_values(value1: &Object, value2: &Object) -> Option<Ordering> {
+    match (value1, value2) {
+        (Object::Literal(_), Object::Literal(_)) => value1.partial_cmp(value2),
+        _ => None,
+    }
+}
+
 /// Runs an ASK query per value node and emits a violation when the query
 /// returns `false`. If the closure returns `None` for a value node, that node
 /// is treated as conforming (use this for cases where the value node can't be
-- 
2.43.0


From 752a93cc93b05144ab61581ab89afadbb797c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 18/64] fix: sh:closed on a literal focus node is no syntax
 error in the SPARQL engine

---
 shacl/src/validator/constraints/core/other/closed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shacl/src/validator/constraints/core/other/closed.rs b/shacl/src/validator/constraints/core/other/closed.rs
index aad1db3..f611ade 100644
--- a/shacl/src/validator/constraints/core/other/closed.rs
+++ b/shacl/src/validator/constraints/core/other/closed.rs
@@ -103,7 +103,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clos
         for (fnode, _) in value_nodes.iter() {
             let focus_obj = S::term_as_object(fnode)?;
 
-            let triples_iter: Box<dyn Iterator<Item = (Object, Option<Object>)>> = if fnode.is_blank_node() {
+            let triples_iter: Box<dyn Iterator<Item = (Object, Option<Object>)>> = if !fnode.is_iri() {
                 let subject = match S::term_as_subject(fnode) {
                     Ok(s) => s,
                     Err(_) => continue,
-- 
2.43.0


From 6a7c2e9afe6b890f19652c667ebae63df0b574db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 19/64] fix: sh:targetClass and implicit class targets reach
 instances of subclasses over any number of steps in the native engine

---
 shacl/src/validator/engine/native.rs | 53 +++++++++++++++-------------
 shacl/src/validator/index/class.rs   | 14 +++++---
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/shacl/src/validator/engine/native.rs b/shacl/src/validator/engine/native.rs
index affc548..f6b3119 100644
--- a/shacl/src/validator/engine/native.rs
+++ b/shacl/src/validator/engine/native.rs
@@ -10,6 +10,7 @@ use rudof_iri::IriS;
 use rudof_rdf::rdf_core::term::{Object, Term, Triple};
 use rudof_rdf::rdf_core::vocabs::{RdfVocab, RdfsVocab};
 use rudof_rdf::rdf_core::{NeighsRDF, SHACLPath};
+use std::collections::HashSet;
 use std::fmt::Debug;
 use std::sync::Arc;
 
@@ -54,19 +55,40 @@ impl NativeEngine {
         &self,
         store: &RDF,
         class: &Object,
+    ) -> Result<FocusNodes<RDF>, ValidationError> {
+        self.shacl_instances(store, class)
+    }
+
+    /// The SHACL instances of a class: the nodes whose `rdf:type` is the class or one
+    /// of its (transitive) subclasses.
+    fn shacl_instances<RDF: NeighsRDF + Debug + 'static>(
+        &self,
+        store: &RDF,
+        class: &Object,
     ) -> Result<FocusNodes<RDF>, ValidationError> {
         if let Some(index) = &self.class_index {
-            let focus_nodes = index.instances_of(class).map(|obj| -> RDF::Term { obj.clone().into() });
+            let instances = index.instances_of_with_subclasses(class);
+            let focus_nodes = instances.into_iter().map(|obj| -> RDF::Term { obj.clone().into() });
             return Ok(FocusNodes::from_iter(focus_nodes));
         }
 
+        let rdf_type: RDF::IRI = RdfVocab::rdf_type().into();
+        let rdfs_subclass_of: RDF::IRI = RdfsVocab::rdfs_subclass_of_str().into();
         let cls: RDF::Term = class.clone().into();
-        let focus_nodes = store
-            .shacl_instances_of(&cls)
-            .map_err(ValidationError::new_graph_error::<RDF>)?
-            .map(|s| RDF::subject_as_term(&s));
+        let mut visited = HashSet::from([cls.clone()]);
+        let mut pending = vec![cls];
+        let mut instances = HashSet::new();
+
+        while let Some(cls) = pending.pop() {
+            instances.extend(store.subjects_for(&rdf_type, &cls)?);
+            for subclass in store.subjects_for(&rdfs_subclass_of, &cls)? {
+                if visited.insert(subclass.clone()) {
+                    pending.push(subclass);
+                }
+            }
+        }
 
-        Ok(FocusNodes::from_iter(focus_nodes))
+        Ok(FocusNodes::new(instances))
     }
 
     fn target_subject_of_impl<RDF: NeighsRDF + Debug + 'static>(
@@ -101,24 +123,7 @@ impl NativeEngine {
         store: &RDF,
         shape: &Object,
     ) -> Result<FocusNodes<RDF>, ValidationError> {
-        if let Some(index) = &self.class_index {
-            let instances = index.instances_of_with_subclasses(shape);
-            let focus_nodes = instances.into_iter().map(|obj| -> RDF::Term { obj.clone().into() });
-            return Ok(FocusNodes::from_iter(focus_nodes));
-        }
-
-        let term: RDF::Term = shape.clone().into();
-        let targets = store.subjects_for(&RdfVocab::rdf_type().into(), &term)?;
-
-        let subclass_targets = store
-            .subjects_for(&RdfsVocab::rdfs_subclass_of_str().into(), &term)?
-            .into_iter()
-            .map(|subclass| store.subjects_for(&RdfVocab::rdf_type().into(), &subclass))
-            .collect::<Result<Vec<_>, _>>()?;
-
-        Ok(FocusNodes::from_iter(
-            targets.into_iter().chain(subclass_targets.into_iter().flatten()),
-        ))
+        self.shacl_instances(store, shape)
     }
 }
 
diff --git a/shacl/src/validator/index/class.rs b/shacl/src/validator/index/class.rs
index 5ad5cd2..cf7bf1e 100644
--- a/shacl/src/validator/index/class.rs
+++ b/shacl/src/validator/index/class.rs
@@ -68,13 +68,19 @@ impl ClassIndex {
         self.subclass_map.get(class).into_iter().flat_map(|set| set.iter())
     }
 
-    /// Returns instances of the class and instances of all its direct subclasses.
+    /// Returns instances of the class and instances of all its subclasses, over
+    /// any number of `rdfs:subClassOf` steps.
     pub fn instances_of_with_subclasses(&self, class: &Object) -> HashSet<&Object> {
         let mut result: HashSet<_> = self.instances_of(class).collect();
+        let mut visited: HashSet<_> = self.subclasses_of(class).collect();
+        let mut pending: Vec<_> = visited.iter().copied().collect();
 
-        for subclass in self.subclasses_of(class) {
-            for instance in self.instances_of(subclass) {
-                result.insert(instance);
+        while let Some(subclass) = pending.pop() {
+            result.extend(self.instances_of(subclass));
+            for sub in self.subclasses_of(subclass) {
+                if visited.insert(sub) {
+                    pending.push(sub);
+                }
             }
         }
 
-- 
2.43.0


From 85031a62c1e6d3636603ac657cd2584189771b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 20/64] fix: cached results of a shape include those of its
 nested property and reifier shapes

---
 shacl/src/validator/engine/validate.rs | 130 ++++++++++++-------------
 1 file changed, 63 insertions(+), 67 deletions(-)

diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index 2132661..7166313 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -108,35 +108,25 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
         // unique (value-node, shape) pair is only truly validated once; subsequent
         // invocations for the same pair return the cached results, correctly producing
         // one violation entry per path that led to the offending node.
-        let mut property_shapes_validation_results = Vec::new();
+        //
+        // The results of nested property shapes and reifier shapes name the node they are
+        // about, not the focus node of the current shape, so they are kept together with
+        // the focus node they were produced for.
+        let mut nested_results: Vec<(&RDF::Term, Vec<ValidationResult>)> = Vec::new();
         for ps in self.property_shapes().iter() {
             let shape = shapes_graph.get_shape_from_idx_e(ps)?;
-            for (_, vn) in value_nodes.iter() {
+            for (fnode, vn) in value_nodes.iter() {
                 let results = shape.validate(store, runner, Some(vn), Some(self), shapes_graph)?;
-                property_shapes_validation_results.extend(results);
+                nested_results.push((fnode, results));
             }
         }
 
-        let reification_results = if let Some(reifier_info) = self.reifier_info() {
-            validate_reifiers(
-                self,
-                store,
-                runner,
-                source_shape,
-                reifier_info,
-                &uncached_focus_nodes,
-                shapes_graph,
-            )?
-        } else {
-            Vec::new()
-        };
-
-        // Collect all NEW validation results (from uncached focus nodes)
-        let new_results: Vec<ValidationResult> = component_validation_results
-            .into_iter()
-            .chain(property_shapes_validation_results)
-            .chain(reification_results)
-            .collect();
+        if let Some(reifier_info) = self.reifier_info() {
+            for fnode in uncached_focus_nodes.iter() {
+                let results = validate_reifiers(self, store, runner, source_shape, reifier_info, fnode, shapes_graph)?;
+                nested_results.push((fnode, results));
+            }
+        }
 
         // Record new results in the cache per focus node
         if let Some(idx) = idx {
@@ -146,11 +136,18 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
                 .filter_map(|n| RDF::term_as_object(n).ok())
                 .map(|obj| (obj, Vec::new()))
                 .collect();
-            for r in &new_results {
+            for r in &component_validation_results {
                 if let Some(bucket) = by_focus.get_mut(r.focus_node()) {
                     bucket.push(r.clone());
                 }
             }
+            for (fnode, results) in &nested_results {
+                if let Ok(obj) = RDF::term_as_object(fnode)
+                    && let Some(bucket) = by_focus.get_mut(&obj)
+                {
+                    bucket.extend(results.iter().cloned());
+                }
+            }
             for (node_object, node_results) in by_focus {
                 runner.record_validation(node_object, *idx, node_results);
             }
@@ -158,7 +155,8 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
 
         // Merge cached results with newly computed results
         let mut all_results = cached_results;
-        all_results.extend(new_results);
+        all_results.extend(component_validation_results);
+        all_results.extend(nested_results.into_iter().flat_map(|(_, results)| results));
         Ok(all_results)
     }
 }
@@ -169,53 +167,51 @@ fn validate_reifiers<RDF: NeighsRDF + Debug>(
     runner: &mut dyn Engine<RDF>,
     source_shape: Option<&IRShape>,
     reifier_info: &ReifierInfo,
-    focus_nodes: &FocusNodes<RDF>,
+    node: &RDF::Term,
     shapes_graph: &IRSchema,
 ) -> Result<Vec<ValidationResult>, ValidationError> {
     let mut results = Vec::new();
 
-    for node in focus_nodes.iter() {
-        for reifier_shape in reifier_info.reifier_shape() {
-            let pred = reifier_info.predicate();
-            let pred_iri: RDF::IRI = pred.clone().into();
-            let subject = RDF::term_as_subject(node)?;
-            let triples = store
-                .triples_with_subject_predicate(&subject, &pred_iri)
-                .map_err(ValidationError::new_graph_error::<RDF>)?;
-
-            for triple in triples {
-                let reifier_subjects = store
-                    .reifiers_of_triple(&triple)
-                    .map_err(ValidationError::new_graph_error::<RDF>)?
-                    .collect::<Vec<_>>();
-                if reifier_subjects.is_empty() && reifier_info.reification_required() {
-                    let vr_single = ValidationResult::new(
-                        shape.id().clone(),
-                        Object::iri(ShaclVocab::sh_reifier_shape_constraint_component()),
-                        shape.severity().clone(),
-                    )
-                    .with_message(MessageMap::from(
-                        "Reification required but no reifier found for triple {triple} with predicate {pred}",
-                    ))
-                    .with_path(Some(SHACLPath::iri(pred.clone())))
-                    .with_source(source_shape.map(|s| s.id()).cloned());
-                    results.push(vr_single);
-                    continue;
-                }
-                let reifier_nodes = reifier_subjects
-                    .iter()
-                    .map(RDF::subject_as_term)
-                    .collect::<HashSet<_>>();
-                let reifier_shape = shapes_graph.get_shape_from_idx_e(reifier_shape)?;
-                let vr_iter = reifier_shape.validate(
-                    store,
-                    runner,
-                    Some(&FocusNodes::from_iter(reifier_nodes)),
-                    Some(shape),
-                    shapes_graph,
-                )?;
-                results.extend(vr_iter)
+    for reifier_shape in reifier_info.reifier_shape() {
+        let pred = reifier_info.predicate();
+        let pred_iri: RDF::IRI = pred.clone().into();
+        let subject = RDF::term_as_subject(node)?;
+        let triples = store
+            .triples_with_subject_predicate(&subject, &pred_iri)
+            .map_err(ValidationError::new_graph_error::<RDF>)?;
+
+        for triple in triples {
+            let reifier_subjects = store
+                .reifiers_of_triple(&triple)
+                .map_err(ValidationError::new_graph_error::<RDF>)?
+                .collect::<Vec<_>>();
+            if reifier_subjects.is_empty() && reifier_info.reification_required() {
+                let vr_single = ValidationResult::new(
+                    shape.id().clone(),
+                    Object::iri(ShaclVocab::sh_reifier_shape_constraint_component()),
+                    shape.severity().clone(),
+                )
+                .with_message(MessageMap::from(
+                    "Reification required but no reifier found for triple {triple} with predicate {pred}",
+                ))
+                .with_path(Some(SHACLPath::iri(pred.clone())))
+                .with_source(source_shape.map(|s| s.id()).cloned());
+                results.push(vr_single);
+                continue;
             }
+            let reifier_nodes = reifier_subjects
+                .iter()
+                .map(RDF::subject_as_term)
+                .collect::<HashSet<_>>();
+            let reifier_shape = shapes_graph.get_shape_from_idx_e(reifier_shape)?;
+            let vr_iter = reifier_shape.validate(
+                store,
+                runner,
+                Some(&FocusNodes::from_iter(reifier_nodes)),
+                Some(shape),
+                shapes_graph,
+            )?;
+            results.extend(vr_iter)
         }
     }
     Ok(results)
-- 
2.43.0


From 3bf7fbde1cbf5beabc1556ea59ecb4b80c72f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 21/64] fix: a missing reifier is reported at the focus node,
 not at the shape

---
 shacl/src/validator/engine/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index 7166313..c784a90 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -187,7 +187,7 @@ fn validate_reifiers<RDF: NeighsRDF + Debug>(
                 .collect::<Vec<_>>();
             if reifier_subjects.is_empty() && reifier_info.reification_required() {
                 let vr_single = ValidationResult::new(
-                    shape.id().clone(),
+                    RDF::term_as_object(node)?,
                     Object::iri(ShaclVocab::sh_reifier_shape_constraint_component()),
                     shape.severity().clone(),
                 )
-- 
2.43.0


From 6b7209894639b5a83cdc7d1e3dc6959ee5a688c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 22/64] fix: sh:deactivated on a property shape is honoured

---
 shacl/src/ast/property_shape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shacl/src/ast/property_shape.rs b/shacl/src/ast/property_shape.rs
index 22a08ba..73fba85 100644
--- a/shacl/src/ast/property_shape.rs
+++ b/shacl/src/ast/property_shape.rs
@@ -158,6 +158,10 @@ impl ASTPropertyShape {
 
     pub fn is_deactivated(&self) -> bool {
         self.deactivated
+            || self
+                .components
+                .iter()
+                .any(|component| matches!(component, ASTComponent::Deactivated(true)))
     }
 
     pub fn severity(&self) -> Option<&Severity> {
-- 
2.43.0


From c7b5d25b761a49a977c74bf33eac53d6dd7c2300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 23/64] fix: every vocabulary has its own base IRI

---
 rudof_rdf/src/rdf_core/vocabs/mod.rs | 7 +++----
 shacl/src/ir/schema.rs               | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/vocabs/mod.rs b/rudof_rdf/src/rdf_core/vocabs/mod.rs
index 3cc1bf2..d08b7b9 100644
--- a/rudof_rdf/src/rdf_core/vocabs/mod.rs
+++ b/rudof_rdf/src/rdf_core/vocabs/mod.rs
@@ -5,7 +5,6 @@
 //! represent standard properties and datatypes used throughout RDF processing.
 
 use rudof_iri::IriS;
-use std::sync::OnceLock;
 
 mod owl;
 mod rdf;
@@ -51,8 +50,8 @@ macro_rules! vocab_term {
 pub trait RdfVocabulary {
     const BASE: &'static str;
 
-    fn base_iri() -> &'static IriS {
-        static IRI: OnceLock<IriS> = OnceLock::new();
-        IRI.get_or_init(|| IriS::new_unchecked(Self::BASE))
+    fn base_iri() -> IriS {
+        // A static here would be shared by the implementations of all vocabularies
+        IriS::new_unchecked(Self::BASE)
     }
 }
diff --git a/shacl/src/ir/schema.rs b/shacl/src/ir/schema.rs
index 8022a38..a32ea8b 100644
--- a/shacl/src/ir/schema.rs
+++ b/shacl/src/ir/schema.rs
@@ -297,9 +297,9 @@ impl IRSchema {
         let mut graph = RDF::empty();
 
         graph.set_prefix_map(self.prefixmap.clone());
-        graph.add_prefix("rdf", RdfVocab::base_iri());
-        graph.add_prefix("xsd", XsdVocab::base_iri());
-        graph.add_prefix("sh", ShaclVocab::base_iri());
+        graph.add_prefix("rdf", &RdfVocab::base_iri());
+        graph.add_prefix("xsd", &XsdVocab::base_iri());
+        graph.add_prefix("sh", &ShaclVocab::base_iri());
 
         graph.add_base(&self.base().cloned());
 
-- 
2.43.0


From 060f6508b68f08c3a99f3eeb6ab295f8f8742c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 24/64] fix: recursion through sh:reifierShape is detected; a
 deactivated property shape is written once

---
 shacl/src/ir/property_shape.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/shacl/src/ir/property_shape.rs b/shacl/src/ir/property_shape.rs
index cbdb641..40248ea 100644
--- a/shacl/src/ir/property_shape.rs
+++ b/shacl/src/ir/property_shape.rs
@@ -270,7 +270,7 @@ impl IRPropertyShape {
             .map_err(|e| IRError::from_rdf_err::<RDF>("add target to graph", e))?;
 
         if self.deactivated {
-            let lit: RDF::Literal = "true".to_string().into();
+            let lit: RDF::Literal = true.into();
 
             graph
                 .add_triple(id.clone(), ShaclVocab::sh_deactivated(), lit)
@@ -309,6 +309,16 @@ impl IRPropertyShape {
                 }
             }
         }
+
+        let reifier_shapes = self.reifier_info.iter().flat_map(ReifierInfo::reifier_shape);
+        for reifier_shape_idx in reifier_shapes {
+            if let Some(shape) = ir.get_shape_from_idx(reifier_shape_idx) {
+                dg.add_edge(idx, *reifier_shape_idx, posneg);
+                if cache.insert(*reifier_shape_idx) {
+                    shape.add_edges(*reifier_shape_idx, dg, posneg, ir, cache);
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From 106dfaa9798abdf213ee4bbca10313437e035d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 25/64] fix: a repeated group accepts exactly the numbers of
 rounds its cardinality allows

---
 rbe/src/rbe.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/rbe/src/rbe.rs b/rbe/src/rbe.rs
index ede88bf..c761e6f 100644
--- a/rbe/src/rbe.rs
+++ b/rbe/src/rbe.rs
@@ -181,13 +181,17 @@ where
                     if inner.is_empty() {
                         inner
                     } else {
-                        let card_interval = Interval::new(Max::IntMax(card.min.value), card.max.clone());
-                        let intersection = inner.intersection(&card_interval);
-                        if intersection.is_empty() {
-                            Interval::fail()
-                        } else {
-                            Interval::new(Max::IntMax(1), Max::IntMax(1))
-                        }
+                        // `i` rounds of the group take between `min * i` and `max * i` copies of
+                        // `value`, so `i` is valid iff that range meets the interval of `value`.
+                        let n = match &inner.n {
+                            Max::Unbounded => Max::Unbounded,
+                            Max::IntMax(n) => card.max.div_up(n),
+                        };
+                        let m = match &inner.m {
+                            Max::Unbounded => Max::Unbounded,
+                            Max::IntMax(m) => Max::IntMax(card.min.value).div_down(m),
+                        };
+                        Interval::new(n, m)
                     }
                 }
             },
@@ -401,14 +405,13 @@ where
                 let d = value.deriv(x, n, open, controlled);
                 Self::mk_and(&d, &Rbe::Star { value: value.clone() })
             },
-            Rbe::Repeat { ref value, ref card } if card.is_0_0() => {
-                let d = value.deriv(x, n, open, controlled);
-                if d.is_nullable() {
+            Rbe::Repeat { ref card, .. } if card.is_0_0() => {
+                if open && !controlled.contains(x) {
+                    self.clone()
+                } else {
                     Rbe::Fail {
                         error: DerivError::CardinalityZeroZeroDeriv { symbol: x.clone() },
                     }
-                } else {
-                    Rbe::Empty
                 }
             },
             Rbe::Repeat { ref value, ref card } => {
-- 
2.43.0


From 28ee4d97456c962c66cb3c190a31305ccd62674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 26/64] fix: values that match no triple constraint are not
 ignored by an expression table

---
 rbe/src/rbe_table.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rbe/src/rbe_table.rs b/rbe/src/rbe_table.rs
index 6ffd776..2aaacb7 100644
--- a/rbe/src/rbe_table.rs
+++ b/rbe/src/rbe_table.rs
@@ -187,7 +187,6 @@ where
             &self,
             values.iter().map(|(k, v, _ctx)| format!("({k} {v})")).join(", ")
         );*/
-        let mut pairs_found = 0;
         let mut candidates = Vec::new();
         let cs_empty = IndexSet::new();
         // Values that had more than one candidate component but matched none of them.
@@ -208,7 +207,6 @@ where
                     let cond = self.component_cond.get(component).unwrap();
                     match cond.matches(value, ctx) {
                         Ok(_) => {
-                            pairs_found += 1;
                             pairs.push((key.clone(), value.clone(), ctx.clone(), *component, cond.clone()));
                         },
                         Err(err) => {
@@ -225,16 +223,15 @@ where
             } else {
                 for component in components {
                     let cond = self.component_cond.get(component).unwrap();
-                    pairs_found += 1;
                     pairs.push((key.clone(), value.clone(), ctx.clone(), *component, cond.clone()));
                 }
             }
             candidates.push(pairs);
         }
 
-        if candidates.is_empty() || pairs_found == 0 {
+        if candidates.is_empty() {
             /*tracing::trace!(
-                "No candidates for rbe: {}, candidates: {:?}, pairs_found: {pairs_found}",
+                "No candidates for rbe: {}, candidates: {:?}",
                 self.rbe,
                 candidates,
             );*/
-- 
2.43.0


From ae8c8d4da3a20f89d4704900c08e0b10c63041e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 27/64] fix: the length of a term counts characters, not bytes

---
 rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs |  6 +++---
 rudof_rdf/src/rdf_core/term/triple.rs           | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs b/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
index fef5ca2..563c1e1 100644
--- a/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
+++ b/rudof_rdf/src/rdf_core/term/iri_or_blanknode.rs
@@ -19,14 +19,14 @@ pub enum IriOrBlankNode {
 }
 
 impl IriOrBlankNode {
-    /// Returns the length (in bytes) of this resource's string representation.
+    /// Returns the length (in characters) of this resource's string representation.
     ///
     /// - For blank nodes: the length of the identifier string
     /// - For IRIs: the length of the full IRI string
     pub fn length(&self) -> usize {
         match self {
-            IriOrBlankNode::BlankNode(label) => label.len(),
-            IriOrBlankNode::Iri(iri) => iri.as_str().len(),
+            IriOrBlankNode::BlankNode(label) => label.chars().count(),
+            IriOrBlankNode::Iri(iri) => iri.as_str().chars().count(),
         }
     }
 
diff --git a/rudof_rdf/src/rdf_core/term/triple.rs b/rudof_rdf/src/rdf_core/term/triple.rs
index de7ef97..94a217e 100644
--- a/rudof_rdf/src/rdf_core/term/triple.rs
+++ b/rudof_rdf/src/rdf_core/term/triple.rs
@@ -241,7 +241,7 @@ impl Object {
 
 /// ## Accessors methods
 impl Object {
-    // Returns the length (in bytes) of this object's string representation.
+    /// Returns the length (in characters) of this object's string representation.
     ///
     /// - For IRIs: the length of the IRI string
     /// - For blank nodes: the length of the identifier
@@ -249,14 +249,14 @@ impl Object {
     /// - For triples: the sum of all component lengths
     pub fn length(&self) -> usize {
         match self {
-            Object::Iri(iri) => iri.as_str().len(),
-            Object::BlankNode(bn) => bn.len(),
-            Object::Literal(lit) => lit.lexical_form().len(),
+            Object::Iri(iri) => iri.as_str().chars().count(),
+            Object::BlankNode(bn) => bn.chars().count(),
+            Object::Literal(lit) => lit.lexical_form().chars().count(),
             Object::Triple {
                 subject,
                 predicate,
                 object,
-            } => subject.as_ref().length() + predicate.as_str().len() + object.as_ref().length(),
+            } => subject.as_ref().length() + predicate.as_str().chars().count() + object.as_ref().length(),
         }
     }
 
-- 
2.43.0


From 6336e0a178b8e8d7f1f30a5575575da00cf6c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 28/64] fix: ShExC facets can be separated by blanks

---
 shex_ast/src/compact/shex_grammar.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 0da4d17..976e611 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -418,11 +418,14 @@ fn value_set_facets<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, NodeConstraint> {
 
 /// `from [24] numeric_facets = numericFacet+`
 fn numeric_facets(i: Span) -> IRes<NodeConstraint> {
-    map(many1(numeric_facet()), |ns| NodeConstraint::new().with_xsfacets(ns)).parse(i)
+    map(many1(preceded(tws0, numeric_facet())), |ns| {
+        NodeConstraint::new().with_xsfacets(ns)
+    })
+    .parse(i)
 }
 
 fn facets<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, Vec<XsFacet>> {
-    move |i| many0(xs_facet()).parse(i)
+    move |i| many0(preceded(tws0, xs_facet())).parse(i)
 }
 
 /// `[25] nonLitNodeConstraint ::= nonLiteralKind stringFacet* | stringFacet+`
@@ -432,7 +435,7 @@ fn non_lit_node_constraint(i: Span) -> IRes<NodeConstraint> {
 
 /// `from [25] non_literal_kind_string-facets = nonLiteralKind stringFacet* `
 fn non_literal_kind_string_facets(i: Span) -> IRes<NodeConstraint> {
-    let (i, (kind, facets)) = (non_literal_kind, many0(string_facet)).parse(i)?;
+    let (i, (kind, facets)) = (non_literal_kind, many0(preceded(tws0, string_facet))).parse(i)?;
     let mut nc = NodeConstraint::new().with_node_kind(kind);
     if !facets.is_empty() {
         nc = nc.with_xsfacets(facets);
@@ -442,7 +445,7 @@ fn non_literal_kind_string_facets(i: Span) -> IRes<NodeConstraint> {
 
 /// `from [25] string_facets = string_facet+`
 fn string_facets(i: Span) -> IRes<NodeConstraint> {
-    let (i, facets) = many1(string_facet).parse(i)?;
+    let (i, facets) = many1(preceded(tws0, string_facet)).parse(i)?;
     Ok((i, NodeConstraint::new().with_xsfacets(facets)))
 }
 
-- 
2.43.0


From e07f91173ace8ca6c29aa3d48d3a20cca3413b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 29/64] fix: what follows a ShExC bracket does not replace what
 is inside it

---
 shex_ast/src/ast/triple_expr.rs      | 33 ++++++++++++++++++++++++++++
 shex_ast/src/compact/shex_grammar.rs |  9 +++++++-
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/ast/triple_expr.rs b/shex_ast/src/ast/triple_expr.rs
index 3074a9c..04475a2 100644
--- a/shex_ast/src/ast/triple_expr.rs
+++ b/shex_ast/src/ast/triple_expr.rs
@@ -139,6 +139,39 @@ impl TripleExpr {
         }
     }
 
+    /// Returns an expression to which an identifier, a cardinality, annotations or semantic actions
+    /// can be added: the expression itself when it has none of its own, or a group that contains it.
+    pub fn grouped(self) -> TripleExpr {
+        let plain = match &self {
+            TripleExpr::EachOf {
+                id,
+                min,
+                max,
+                sem_acts,
+                annotations,
+                ..
+            }
+            | TripleExpr::OneOf {
+                id,
+                min,
+                max,
+                sem_acts,
+                annotations,
+                ..
+            }
+            | TripleExpr::TripleConstraint {
+                id,
+                min,
+                max,
+                sem_acts,
+                annotations,
+                ..
+            } => id.is_none() && min.is_none() && max.is_none() && sem_acts.is_none() && annotations.is_none(),
+            TripleExpr::Ref(_) => false,
+        };
+        if plain { self } else { TripleExpr::each_of(vec![self]) }
+    }
+
     pub fn with_id(mut self, id: Option<TripleExprLabel>) -> Self {
         self = match self {
             TripleExpr::EachOf {
diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 976e611..0d08426 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -778,7 +778,10 @@ fn unary_triple_expr_opt1(i: Span) -> IRes<TripleExpr> {
         alt((bracketed_triple_expr(), triple_constraint())),
     )
         .parse(i)?;
-    Ok((i, te.with_id(id)))
+    match id {
+        None => Ok((i, te)),
+        Some(_) => Ok((i, te.grouped().with_id(id))),
+    }
 }
 
 // From unary_triple_expr_opt1
@@ -804,6 +807,10 @@ fn bracketed_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
             )
                 .parse(i)?;
             let mut te = te;
+            if maybe_card.is_some() || !annotations.is_empty() || sem_acts.is_some() {
+                // What follows the bracket belongs to the group, not to the expression inside it
+                te = te.grouped();
+            }
             if let Some(card) = maybe_card {
                 te = te.with_min(card.min());
                 te = te.with_max(card.max());
-- 
2.43.0


From 22b718a1bc2ffab385e37a746734b9090ccfb139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 30/64] fix: EXTRA ignores the values that don't conform to a
 shape reference

---
 shex_validation/src/engine.rs | 52 ++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 65aa01f..60b457e 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -662,7 +662,7 @@ impl Engine {
                 }
                 // Lenient predicates (in EXTRA): only values that satisfy a leaf condition
                 // participate in the RBE; non-matching values fall into M^∉ and are ignored.
-                matches_any_leaf(shape.triple_expr(), pred, value, ctx)
+                matches_any_leaf(shape.triple_expr(), pred, value, ctx, typing)
             })
             .collect::<Vec<_>>();
         if shape.is_closed() && !reminder.is_empty() {
@@ -833,6 +833,13 @@ impl Engine {
         let values_ctx: Vec<_> = values_ctx_raw
             .into_iter()
             .filter(|(pred, value, ctx)| {
+                // EXTRA predicate with no satisfying leaf → goes into M^∉, exclude from partition.
+                if extra_preds.contains(pred) {
+                    return triple_exprs
+                        .values()
+                        .flatten()
+                        .any(|rbe| matches_any_leaf(rbe, pred, value, ctx, typing));
+                }
                 // Keep if the triple satisfies at least one leaf-bucket condition
                 // (conservatively: Ref conditions count as matching for M^∈ placement).
                 let matches_leaf = triple_exprs.values().any(|rbes| {
@@ -845,10 +852,6 @@ impl Engine {
                 if matches_leaf {
                     return true;
                 }
-                // EXTRA predicate with no satisfying leaf → goes into M^∉, exclude from partition.
-                if extra_preds.contains(pred) {
-                    return false;
-                }
                 // Triple is not needed by any leaf bucket.
                 // Keep it only if it is also NOT covered by any ancestor (case b: truly invalid).
                 // If it IS covered by an ancestor (case a), exclude it — the exhaustive check
@@ -1155,19 +1158,13 @@ impl Engine {
             .iter()
             .map(|(p, v)| (p.clone(), v.clone(), SemanticActionContext::triple(node, p, v)))
             .filter(|(pred, value, ctx)| {
-                let matches_leaf = bucket_exprs.values().any(|rbes| {
-                    rbes.iter().any(|rbe| {
-                        rbe.components().any(|(_, key, cond)| {
-                            &key == pred && (cond_has_ref(&cond) || cond.matches(value, ctx).is_ok())
-                        })
-                    })
-                });
-                if matches_leaf {
-                    return true;
-                }
                 // EXTRA predicate with no satisfying leaf goes into M^∉; other non-matching
                 // triples stay so the partition correctly fails (forced assignment).
                 !extra_preds.contains(pred)
+                    || bucket_exprs
+                        .values()
+                        .flatten()
+                        .any(|rbe| matches_any_leaf(rbe, pred, value, ctx, typing))
             })
             .collect();
 
@@ -2096,20 +2093,17 @@ fn cond_has_ref(cond: &MatchCond<Pred, Node, ShapeLabelIdx, SemanticActionContex
     }
 }
 
-/// Returns true if `(pred, value)` satisfies at least one leaf condition in `expr`.
-///
-/// For `MatchCond::Ref` leaves the value is kept in M^∈ conservatively — the RBE /
-/// pending-typing path already handles shape-reference validation correctly.
-fn matches_any_leaf(expr: &Expr, pred: &Pred, value: &Node, ctx: &SemanticActionContext) -> bool {
-    for (_, key, cond) in expr.components() {
-        if &key != pred {
-            continue;
-        }
-        if cond_has_ref(&cond) || cond.matches(value, ctx).is_ok() {
-            return true;
-        }
-    }
-    false
+/// Returns true if `(pred, value)` satisfies at least one leaf condition in `expr`,
+/// including the shape references of that condition, which are looked up in `typing`.
+fn matches_any_leaf(expr: &Expr, pred: &Pred, value: &Node, ctx: &SemanticActionContext, typing: &RefTyping) -> bool {
+    expr.components().any(|(_, key, cond)| {
+        &key == pred
+            && cond.matches(value, ctx).is_ok_and(|pending| {
+                pending
+                    .iter_vr()
+                    .all(|(node, idx, _)| typing.contains(&(node.clone(), *idx)))
+            })
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From a1689288be6c5a3e870add7c184b51cb0bcccfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 31/64] fix: the dependency graph keeps every negative
 reference

---
 rbe/src/match_cond.rs               |  9 +++++
 shex_ast/src/ir/dependency_graph.rs |  5 +++
 shex_ast/src/ir/shape.rs            | 21 +++++-----
 shex_ast/src/ir/shape_expr.rs       | 61 ++++++++++++-----------------
 4 files changed, 50 insertions(+), 46 deletions(-)

diff --git a/rbe/src/match_cond.rs b/rbe/src/match_cond.rs
index 85742bd..de3a57e 100644
--- a/rbe/src/match_cond.rs
+++ b/rbe/src/match_cond.rs
@@ -87,6 +87,15 @@ where
         }
     }
 
+    /// The references that appear in this condition.
+    pub fn refs(&self) -> Vec<&R> {
+        match self {
+            MatchCond::Single(_) => Vec::new(),
+            MatchCond::Ref(r) => vec![r],
+            MatchCond::And(vs) => vs.iter().flat_map(|v| v.refs()).collect(),
+        }
+    }
+
     pub fn single(single: SingleCond<K, V, R, Ctx, P>) -> Self {
         MatchCond::Single(single)
     }
diff --git a/shex_ast/src/ir/dependency_graph.rs b/shex_ast/src/ir/dependency_graph.rs
index acdd6e2..287322a 100644
--- a/shex_ast/src/ir/dependency_graph.rs
+++ b/shex_ast/src/ir/dependency_graph.rs
@@ -16,6 +16,11 @@ impl DependencyGraph {
     }
 
     pub fn add_edge(&mut self, from: ShapeLabelIdx, to: ShapeLabelIdx, pos_neg: PosNeg) {
+        // A positive reference must not hide a negative one between the same shapes
+        let pos_neg = match self.graph.edge_weight(from, to) {
+            Some(PosNeg::Neg) => PosNeg::Neg,
+            _ => pos_neg,
+        };
         self.graph.add_edge(from, to, pos_neg);
     }
 
diff --git a/shex_ast/src/ir/shape.rs b/shex_ast/src/ir/shape.rs
index f229546..e434298 100644
--- a/shex_ast/src/ir/shape.rs
+++ b/shex_ast/src/ir/shape.rs
@@ -107,11 +107,14 @@ impl Shape {
     }*/
 
     pub fn add_edges(&self, source: ShapeLabelIdx, graph: &mut DependencyGraph, pos_neg: PosNeg) {
-        for (_component, _pred, cond) in self.expr.components() {
-            match cond {
-                rbe::MatchCond::Single(_single_cond) => {},
-                rbe::MatchCond::And(_match_conds) => {},
-                rbe::MatchCond::Ref(r) => graph.add_edge(source, r, pos_neg),
+        for (_component, pred, cond) in self.expr.components() {
+            for r in cond.refs() {
+                graph.add_edge(source, *r, pos_neg);
+                // Values of an EXTRA predicate are matched only if they conform to the reference,
+                // so the shape depends also on the values that don't conform to it.
+                if self.extra.contains(&pred) {
+                    graph.add_edge(source, *r, PosNeg::Neg);
+                }
             }
         }
     }
@@ -119,12 +122,8 @@ impl Shape {
     fn get_value_expr_references(&self) -> HashMap<Pred, Vec<ShapeLabelIdx>> {
         let mut result: HashMap<Pred, Vec<ShapeLabelIdx>> = HashMap::new();
         for (_component, pred, cond) in self.expr.components() {
-            match cond {
-                rbe::MatchCond::Single(_single_cond) => {},
-                rbe::MatchCond::And(_match_conds) => {},
-                rbe::MatchCond::Ref(r) => {
-                    result.entry(pred.clone()).or_default().push(r);
-                },
+            for r in cond.refs() {
+                result.entry(pred.clone()).or_default().push(*r);
             }
         }
         result
diff --git a/shex_ast/src/ir/shape_expr.rs b/shex_ast/src/ir/shape_expr.rs
index b6f515c..79d9a0f 100644
--- a/shex_ast/src/ir/shape_expr.rs
+++ b/shex_ast/src/ir/shape_expr.rs
@@ -208,50 +208,24 @@ impl ShapeExpr {
     }
 
     /// Adds PosNeg edges to the dependency graph.
-    pub(crate) fn add_edges<'a>(
-        &'a self,
+    ///
+    /// `visited` records the sub-expressions already traversed with each polarity.
+    pub(crate) fn add_edges(
+        &self,
         source: ShapeLabelIdx,
         graph: &mut DependencyGraph,
         pos_neg: PosNeg,
-        schema: &'a SchemaIR,
-        visited: &mut Vec<&'a ShapeExpr>,
+        schema: &SchemaIR,
+        visited: &mut Vec<(ShapeLabelIdx, PosNeg)>,
     ) {
         match self {
-            ShapeExpr::ShapeOr { exprs, .. } => {
+            ShapeExpr::ShapeOr { exprs, .. } | ShapeExpr::ShapeAnd { exprs, .. } => {
                 for expr in exprs {
-                    if let Some(info) = schema.find_shape_idx(expr) {
-                        let expr = info.expr();
-                        if visited.contains(&expr) {
-                            continue;
-                        } else {
-                            visited.push(expr);
-                            expr.add_edges(source, graph, pos_neg, schema, visited);
-                        }
-                    }
-                }
-            },
-            ShapeExpr::ShapeAnd { exprs, .. } => {
-                for expr in exprs {
-                    if let Some(info) = schema.find_shape_idx(expr) {
-                        let expr = info.expr();
-                        if visited.contains(&expr) {
-                            continue;
-                        } else {
-                            visited.push(expr);
-                            expr.add_edges(source, graph, pos_neg, schema, visited);
-                        }
-                    }
+                    Self::add_edges_idx(expr, source, graph, pos_neg, schema, visited);
                 }
             },
             ShapeExpr::ShapeNot { expr, .. } => {
-                if let Some(info) = schema.find_shape_idx(expr) {
-                    let expr = info.expr();
-                    if visited.contains(&expr) {
-                    } else {
-                        visited.push(expr);
-                        expr.add_edges(source, graph, pos_neg.change(), schema, visited);
-                    }
-                }
+                Self::add_edges_idx(expr, source, graph, pos_neg.change(), schema, visited);
             },
             ShapeExpr::NodeConstraint(_) => {},
             ShapeExpr::Shape(s) => s.add_edges(source, graph, pos_neg),
@@ -263,6 +237,23 @@ impl ShapeExpr {
         }
     }
 
+    fn add_edges_idx(
+        idx: &ShapeLabelIdx,
+        source: ShapeLabelIdx,
+        graph: &mut DependencyGraph,
+        pos_neg: PosNeg,
+        schema: &SchemaIR,
+        visited: &mut Vec<(ShapeLabelIdx, PosNeg)>,
+    ) {
+        if visited.contains(&(*idx, pos_neg)) {
+            return;
+        }
+        visited.push((*idx, pos_neg));
+        if let Some(info) = schema.find_shape_idx(idx) {
+            info.expr().add_edges(source, graph, pos_neg, schema, visited);
+        }
+    }
+
     // TODO: Improve the visualization of shape expressions
     /*pub fn show_qualified(&self, prefixmap: &prefixmap::PrefixMap) -> String {
         match self {
-- 
2.43.0


From c0c6be8aaa7185c4976008b7cdb4ff845cc13f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 32/64] fix: a negated triple constraint is rejected instead of
 read as a positive one

---
 shex_ast/src/ir/ast2ir.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 178cb06..cda19ca 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -547,7 +547,7 @@ impl AST2IR {
             },
             ast::TripleExpr::TripleConstraint {
                 id: _,
-                negated: _,
+                negated,
                 inverse,
                 predicate,
                 value_expr,
@@ -556,6 +556,11 @@ impl AST2IR {
                 sem_acts,
                 annotations: _,
             } => {
+                if *negated == Some(true) {
+                    return Err(Box::new(SchemaIRError::Internal {
+                        msg: format!("Negated triple constraints are not supported: !{predicate}"),
+                    }));
+                }
                 let min = self.cnv_min(min)?;
                 let max = self.cnv_max(max)?;
                 let iri = Self::cnv_predicate(predicate, inverse)?;
-- 
2.43.0


From 5e40b9c358ada2fc6b4d4d50e1e4c101b457ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 33/64] fix: a schema cannot declare a shape label twice

---
 shex_ast/src/ir/ast2ir.rs          | 6 +++++-
 shex_ast/src/ir/schema_ir_error.rs | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index cda19ca..5911236 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -25,7 +25,7 @@ use rbe::{Component, MatchCond, Max, Min, RbeStruct, RbeTable};
 use rudof_iri::IriS;
 use rudof_iri::error::IriSError;
 use rudof_rdf::rdf_core::term::literal::NumericLiteral;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 use tracing::{info, trace};
 
@@ -236,8 +236,12 @@ impl AST2IR {
         match &schema_ast.shapes() {
             None => {},
             Some(shape_decls) => {
+                let mut declared = HashSet::new();
                 for shape_decl in shape_decls {
                     let label = self.shape_expr_label_to_shape_label(&shape_decl.id)?;
+                    if !declared.insert(label.clone()) {
+                        return Err(Box::new(SchemaIRError::DuplicatedShapeLabel { label }));
+                    }
                     // trace!("Collecting shape label for {label}");
                     let idx = compiled_schema.add_shape(label, ShapeExpr::Empty, source_iri);
                     if shape_decl.is_abstract {
diff --git a/shex_ast/src/ir/schema_ir_error.rs b/shex_ast/src/ir/schema_ir_error.rs
index 10dc672..09ba4cb 100644
--- a/shex_ast/src/ir/schema_ir_error.rs
+++ b/shex_ast/src/ir/schema_ir_error.rs
@@ -41,6 +41,9 @@ pub enum SchemaIRError {
     #[error("SchemaJson Error")]
     SchemaJsonError { source: Box<ast::SchemaJsonError> },
 
+    #[error("Duplicated shape label in schema: {label}")]
+    DuplicatedShapeLabel { label: ShapeLabel },
+
     #[error("Duplicated triple expression label in schema: {label:?}")]
     DuplicatedTripleExprLabel { label: Box<TripleExprLabel> },
 
-- 
2.43.0


From d9dd4a9c7b616cc843bd0b691f12511b2cca1b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 34/64] fix: CLOSED is checked when a shape mentions no
 outgoing predicate

---
 rudof_rdf/src/rdf_impl/backend.rs        | 3 ---
 sparql_service/src/srdf_data/rdf_data.rs | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/backend.rs b/rudof_rdf/src/rdf_impl/backend.rs
index c6ece46..b31cf41 100644
--- a/rudof_rdf/src/rdf_impl/backend.rs
+++ b/rudof_rdf/src/rdf_impl/backend.rs
@@ -200,9 +200,6 @@ impl NeighsRDF for RdfBackend {
             return b.outgoing_arcs_from_list(subject, preds).map_err(Into::into);
         }
         // For InMemory and Qlever: default behavior — fetch all triples and filter in memory
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
         let mut results: std::collections::HashMap<OxNamedNode, std::collections::HashSet<OxTerm>> =
             std::collections::HashMap::new();
         let mut reminder: Vec<OxNamedNode> = Vec::new();
diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index 8500854..3a1d11f 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -475,9 +475,6 @@ impl NeighsRDF for RdfData {
         ),
         Self::Err,
     > {
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
         // Primary backend (in-memory or endpoint-backed): uses its own FILTER query when available
         let (mut results, reminder) = self
             .primary
-- 
2.43.0


From a7b2a5590774aaf61f886064e1af67ff55386f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:45 +0000
Subject: [PATCH 35/64] fix: a ShExC bracket with no semantic actions keeps the
 ones inside it

---
 shex_ast/src/compact/shex_grammar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 0d08426..8bc442b 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -818,7 +818,9 @@ fn bracketed_triple_expr<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, TripleExpr> {
             if !annotations.is_empty() {
                 te = te.with_annotations(Some(annotations));
             }
-            te = te.with_sem_acts(sem_acts);
+            if sem_acts.is_some() {
+                te = te.with_sem_acts(sem_acts);
+            }
             Ok((i, te))
         },
         || ShExParseError::BracketedTripleExpr,
-- 
2.43.0


From d51d7ae0522f04fbdcd5ecadb2a9a5501b9c012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 36/64] fix: xsd:int literals are checked and compared as
 numbers, infinities and NaN compare by value

---
 .../src/rdf_core/term/literal/literal.rs      | 18 ++++
 .../rdf_core/term/literal/numeric_literal.rs  | 84 ++++++++++++++-----
 shex_ast/src/ast/cond_kind.rs                 |  8 +-
 shex_ast/src/ast/mod.rs                       |  1 +
 shex_ast/src/ast/object_value.rs              |  3 +-
 shex_ast/src/compact/compact_printer.rs       |  1 +
 .../src/compact/shapemap_compact_printer.rs   |  5 ++
 shex_ast/src/compact/shex_compact_printer.rs  |  5 ++
 8 files changed, 100 insertions(+), 25 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index edbdad5..924d6db 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -499,6 +499,14 @@ impl ConcreteLiteral {
         Self::NumericLiteral(NumericLiteral::short(n))
     }
 
+    /// Creates a literal representing an int (`i32`).
+    ///
+    /// This corresponds to XSD's `xsd:int` type.
+    #[inline]
+    pub fn int(n: i32) -> Self {
+        Self::NumericLiteral(NumericLiteral::int(n))
+    }
+
     /// Creates a literal representing an unsigned byte (`u8`), values 0–255.
     ///
     /// This corresponds to XSD's `xsd:unsignedByte` type.
@@ -896,6 +904,15 @@ impl ConcreteLiteral {
             .map_err(|e| format!("Cannot convert {s} to short: {e}"))
     }
 
+    /// Parses a signed int (-2147483648 to 2147483647) from its string representation.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if the string cannot be parsed as an `i32`.
+    pub fn parse_int(s: &str) -> Result<i32, String> {
+        s.parse::<i32>().map_err(|e| format!("Cannot convert {s} to int: {e}"))
+    }
+
     /// Parses a datetime string using XsdDateTime
     pub fn parse_datetime(s: &str) -> Result<XsdDateTime, String> {
         XsdDateTime::new(s).map_err(|e| e.to_string())
@@ -1224,6 +1241,7 @@ fn check_literal_datatype(lexical_form: &str, datatype: &IriRef) -> Result<Concr
         ConcreteLiteral::parse_decimal,
         ConcreteLiteral::decimal
     );
+    check_xsd_type!(XsdVocab::XSD_INT, ConcreteLiteral::parse_int, ConcreteLiteral::int);
     check_xsd_type!(XsdVocab::XSD_BYTE, ConcreteLiteral::parse_byte, ConcreteLiteral::byte);
     check_xsd_type!(
         XsdVocab::XSD_SHORT,
diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index de06ac9..b62859f 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -1,4 +1,5 @@
 use core::fmt;
+use std::cmp::Ordering;
 use std::fmt::Display;
 use std::str::FromStr;
 
@@ -20,6 +21,7 @@ pub enum NumericLiteral {
     Integer(i128),
     Byte(i8),
     Short(i16),
+    Int(i32),
     NonNegativeInteger(u128),
     UnsignedLong(u64),
     UnsignedInt(u32),
@@ -65,6 +67,7 @@ impl NumericLiteral {
             NumericLiteral::Float(_) => XsdVocab::XSD_FLOAT,
             NumericLiteral::Byte(_) => XsdVocab::XSD_BYTE,
             NumericLiteral::Short(_) => XsdVocab::XSD_SHORT,
+            NumericLiteral::Int(_) => XsdVocab::XSD_INT,
             NumericLiteral::NonNegativeInteger(_) => XsdVocab::XSD_NON_NEGATIVE_INTEGER,
             NumericLiteral::UnsignedLong(_) => XsdVocab::XSD_UNSIGNED_LONG,
             NumericLiteral::UnsignedInt(_) => XsdVocab::XSD_UNSIGNED_INT,
@@ -165,6 +168,11 @@ impl NumericLiteral {
         NumericLiteral::Short(d)
     }
 
+    /// Creates an int literal (32-bit signed integer).
+    pub fn int(d: i32) -> NumericLiteral {
+        NumericLiteral::Int(d)
+    }
+
     /// Creates a long literal (64-bit signed integer).
     pub fn long(d: i64) -> NumericLiteral {
         NumericLiteral::Long(d)
@@ -222,6 +230,7 @@ impl NumericLiteral {
             NumericLiteral::Float(f) => Decimal::from_f32(*f),
             NumericLiteral::Byte(b) => Decimal::from_i8(*b),
             NumericLiteral::Short(s) => Decimal::from_i16(*s),
+            NumericLiteral::Int(i) => Decimal::from_i32(*i),
             NumericLiteral::NonNegativeInteger(n) => Decimal::from_u128(*n),
             NumericLiteral::UnsignedLong(n) => Decimal::from_u64(*n),
             NumericLiteral::UnsignedInt(n) => Decimal::from_u32(*n),
@@ -243,25 +252,49 @@ impl NumericLiteral {
         self.to_string()
     }
 
-    /// Checks if this numeric literal is less than another.
+    /// Compares the values of two numeric literals.
     ///
-    /// Optimized for integer comparisons; falls back to decimal conversion
-    /// for mixed-type comparisons.
-    pub fn less_than(&self, other: &NumericLiteral) -> bool {
+    /// Returns `None` if one of them is not a number (`NaN`).
+    fn compare(&self, other: &NumericLiteral) -> Option<Ordering> {
         match (self, other) {
             // Fast path: direct integer comparison
-            (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1 < n2,
-            // Generic path: convert to decimal for comparison
-            (v1, v2) => v1.to_decimal() < v2.to_decimal(),
+            (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => Some(n1.cmp(n2)),
+            (v1, v2) => match (v1.to_decimal(), v2.to_decimal()) {
+                (Some(d1), Some(d2)) => Some(d1.cmp(&d2)),
+                // Infinities and numbers that are too big for a decimal
+                _ => v1.to_f64().partial_cmp(&v2.to_f64()),
+            },
+        }
+    }
+
+    fn to_f64(&self) -> f64 {
+        match self {
+            NumericLiteral::Integer(n) | NumericLiteral::NegativeInteger(n) | NumericLiteral::NonPositiveInteger(n) => {
+                *n as f64
+            },
+            NumericLiteral::NonNegativeInteger(n) | NumericLiteral::PositiveInteger(n) => *n as f64,
+            NumericLiteral::Byte(n) => f64::from(*n),
+            NumericLiteral::Short(n) => f64::from(*n),
+            NumericLiteral::Int(n) => f64::from(*n),
+            NumericLiteral::Long(n) => *n as f64,
+            NumericLiteral::UnsignedByte(n) => f64::from(*n),
+            NumericLiteral::UnsignedShort(n) => f64::from(*n),
+            NumericLiteral::UnsignedInt(n) => f64::from(*n),
+            NumericLiteral::UnsignedLong(n) => *n as f64,
+            NumericLiteral::Decimal(d) => d.to_f64().unwrap_or(f64::NAN),
+            NumericLiteral::Double(d) => *d,
+            NumericLiteral::Float(f) => f64::from(*f),
         }
     }
 
+    /// Checks if this numeric literal is less than another.
+    pub fn less_than(&self, other: &NumericLiteral) -> bool {
+        self.compare(other) == Some(Ordering::Less)
+    }
+
     /// Checks if this numeric literal is less than or equal to another.
     pub fn less_than_or_eq(&self, other: &NumericLiteral) -> bool {
-        match (self, other) {
-            (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1 <= n2,
-            (v1, v2) => v1.to_decimal() <= v2.to_decimal(),
-        }
+        matches!(self.compare(other), Some(Ordering::Less | Ordering::Equal))
     }
 
     /// Returns the total number of digits in the literal.
@@ -299,6 +332,7 @@ impl NumericLiteral {
                     d.abs().to_string().len()
                 }
             },
+            NumericLiteral::Int(d) => d.unsigned_abs().to_string().len(),
             NumericLiteral::NonNegativeInteger(d) => d.to_string().len(),
             NumericLiteral::UnsignedLong(d) => d.to_string().len(),
             NumericLiteral::UnsignedInt(d) => d.to_string().len(),
@@ -321,8 +355,10 @@ impl NumericLiteral {
             },
             // For decimals, normalize and count only digits
             NumericLiteral::Decimal(d) => {
-                let normalized = d.normalize();
-                normalized.to_string().chars().filter(|c| c.is_ascii_digit()).count()
+                // (the 0 before the decimal point of a fraction doesn't count)
+                let normalized = d.normalize().abs().to_string();
+                let digits = normalized.strip_prefix("0.").unwrap_or(&normalized);
+                digits.chars().filter(|c| c.is_ascii_digit()).count()
             },
             // Float/double don't have meaningful total digits
             NumericLiteral::Double(_) | NumericLiteral::Float(_) => return None,
@@ -349,7 +385,8 @@ impl NumericLiteral {
             | NumericLiteral::NegativeInteger(_)
             | NumericLiteral::NonPositiveInteger(_)
             | NumericLiteral::Byte(_)
-            | NumericLiteral::Short(_) => Some(0),
+            | NumericLiteral::Short(_)
+            | NumericLiteral::Int(_) => Some(0),
             // For decimals, normalize (strip trailing zeros for XSD canonical
             // form), then count digits after the decimal point.
             NumericLiteral::Decimal(d) => {
@@ -391,6 +428,7 @@ impl PartialEq for NumericLiteral {
                         (NumericLiteral::Integer(a), NumericLiteral::Integer(b)) => a == b,
                         (NumericLiteral::Byte(a), NumericLiteral::Byte(b)) => a == b,
                         (NumericLiteral::Short(a), NumericLiteral::Short(b)) => a == b,
+                        (NumericLiteral::Int(a), NumericLiteral::Int(b)) => a == b,
                         (NumericLiteral::NonNegativeInteger(a), NumericLiteral::NonNegativeInteger(b)) => a == b,
                         (NumericLiteral::UnsignedLong(a), NumericLiteral::UnsignedLong(b)) => a == b,
                         (NumericLiteral::UnsignedInt(a), NumericLiteral::UnsignedInt(b)) => a == b,
@@ -437,6 +475,7 @@ impl Hash for NumericLiteral {
             NumericLiteral::Integer(n) => n.hash(state),
             NumericLiteral::Byte(b) => b.hash(state),
             NumericLiteral::Short(s) => s.hash(state),
+            NumericLiteral::Int(i) => i.hash(state),
             NumericLiteral::NonNegativeInteger(n) => n.hash(state),
             NumericLiteral::UnsignedLong(n) => n.hash(state),
             NumericLiteral::UnsignedInt(n) => n.hash(state),
@@ -474,6 +513,7 @@ impl Serialize for NumericLiteral {
             NumericLiteral::Float(f) => serializer.serialize_f32(*f),
             NumericLiteral::Byte(b) => serializer.serialize_i8(*b),
             NumericLiteral::Short(s) => serializer.serialize_i16(*s),
+            NumericLiteral::Int(i) => serializer.serialize_i32(*i),
             NumericLiteral::NonNegativeInteger(n) => serializer.serialize_u128(*n),
             NumericLiteral::UnsignedLong(n) => serializer.serialize_u64(*n),
             NumericLiteral::UnsignedInt(n) => serializer.serialize_u32(*n),
@@ -509,6 +549,7 @@ enum NumericLiteralUntagged {
     Integer(i128),
     Byte(i8),
     Short(i16),
+    Int(i32),
     NonNegativeInteger(u128),
     UnsignedLong(u64),
     UnsignedInt(u32),
@@ -529,6 +570,7 @@ impl From<NumericLiteralUntagged> for NumericLiteral {
             NumericLiteralUntagged::Integer(n) => NumericLiteral::Integer(n),
             NumericLiteralUntagged::Byte(n) => NumericLiteral::Byte(n),
             NumericLiteralUntagged::Short(n) => NumericLiteral::Short(n),
+            NumericLiteralUntagged::Int(n) => NumericLiteral::Int(n),
             NumericLiteralUntagged::NonNegativeInteger(n) => NumericLiteral::NonNegativeInteger(n),
             NumericLiteralUntagged::UnsignedLong(n) => NumericLiteral::UnsignedLong(n),
             NumericLiteralUntagged::UnsignedInt(n) => NumericLiteral::UnsignedInt(n),
@@ -550,6 +592,7 @@ enum NumericLiteralTagged {
     Integer(i128),
     Byte(i8),
     Short(i16),
+    Int(i32),
     NonNegativeInteger(u128),
     UnsignedLong(u64),
     UnsignedInt(u32),
@@ -570,6 +613,7 @@ impl From<&NumericLiteral> for NumericLiteralTagged {
             NumericLiteral::Integer(n) => NumericLiteralTagged::Integer(*n),
             NumericLiteral::Byte(n) => NumericLiteralTagged::Byte(*n),
             NumericLiteral::Short(n) => NumericLiteralTagged::Short(*n),
+            NumericLiteral::Int(n) => NumericLiteralTagged::Int(*n),
             NumericLiteral::NonNegativeInteger(n) => NumericLiteralTagged::NonNegativeInteger(*n),
             NumericLiteral::UnsignedLong(n) => NumericLiteralTagged::UnsignedLong(*n),
             NumericLiteral::UnsignedInt(n) => NumericLiteralTagged::UnsignedInt(*n),
@@ -594,6 +638,7 @@ impl TryFrom<NumericLiteralTagged> for NumericLiteral {
             NumericLiteralTagged::Integer(n) => NumericLiteral::Integer(n),
             NumericLiteralTagged::Byte(n) => NumericLiteral::Byte(n),
             NumericLiteralTagged::Short(n) => NumericLiteral::Short(n),
+            NumericLiteralTagged::Int(n) => NumericLiteral::Int(n),
             NumericLiteralTagged::NonNegativeInteger(n) => NumericLiteral::NonNegativeInteger(n),
             NumericLiteralTagged::UnsignedLong(n) => NumericLiteral::UnsignedLong(n),
             NumericLiteralTagged::UnsignedInt(n) => NumericLiteral::UnsignedInt(n),
@@ -623,6 +668,7 @@ impl Display for NumericLiteral {
             NumericLiteral::Float(n) => write!(f, "{n}"),
             NumericLiteral::Byte(b) => write!(f, "{b}"),
             NumericLiteral::Short(s) => write!(f, "{s}"),
+            NumericLiteral::Int(i) => write!(f, "{i}"),
             NumericLiteral::NonNegativeInteger(n) => write!(f, "{n}"),
             NumericLiteral::UnsignedLong(n) => write!(f, "{n}"),
             NumericLiteral::UnsignedInt(n) => write!(f, "{n}"),
@@ -637,12 +683,9 @@ impl Display for NumericLiteral {
 
 /// Ordering based on decimal conversion for cross-type comparisons.
 impl PartialOrd for NumericLiteral {
-    // Convert both to Decimal and compare
-    // Returns None if conversion fails (e.g., NaN)
-    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let self_decimal = self.to_decimal()?;
-        let other_decimal = other.to_decimal()?;
-        self_decimal.partial_cmp(&other_decimal)
+    // Returns None if one of them is NaN
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        self.compare(other)
     }
 }
 
@@ -687,6 +730,7 @@ impl From<NumericLiteral> for oxrdf::Literal {
             NumericLiteral::Float(f) => oxrdf::Literal::from(f),
             NumericLiteral::Byte(b) => oxrdf::Literal::new_typed_literal(b.to_string(), oxrdf::vocab::xsd::BYTE),
             NumericLiteral::Short(s) => oxrdf::Literal::from(s),
+            NumericLiteral::Int(i) => oxrdf::Literal::from(i),
             NumericLiteral::NonNegativeInteger(n) => {
                 oxrdf::Literal::new_typed_literal(n.to_string(), oxrdf::vocab::xsd::NON_NEGATIVE_INTEGER)
             },
diff --git a/shex_ast/src/ast/cond_kind.rs b/shex_ast/src/ast/cond_kind.rs
index 9dad5ef..dea49da 100644
--- a/shex_ast/src/ast/cond_kind.rs
+++ b/shex_ast/src/ast/cond_kind.rs
@@ -316,7 +316,7 @@ pub(crate) fn check_node_min_inclusive(node: &Node, min: NumericLiteral) -> CRes
             msg: "check_node_min_inclusive: as_numeric error".to_string(),
         })
     })?;
-    if !node_num.less_than(&min) {
+    if min.less_than_or_eq(&node_num) {
         Ok(())
     } else {
         Err(Box::new(SchemaIRError::MinInclusiveError {
@@ -339,7 +339,7 @@ pub(crate) fn check_node_min_exclusive(node: &Node, min: NumericLiteral) -> CRes
             msg: "check_node_min_exclusive: as_numeric error".to_string(),
         })
     })?;
-    if !node_num.less_than_or_eq(&min) {
+    if min.less_than(&node_num) {
         Ok(())
     } else {
         Err(Box::new(SchemaIRError::MinExclusiveError {
@@ -421,13 +421,13 @@ pub(crate) fn check_node_max_exclusive(node: &Node, max: NumericLiteral) -> CRes
     })?;
     let node_num = node_object.numeric_value().ok_or_else(|| {
         Box::new(SchemaIRError::Internal {
-            msg: "check_node_min_exclusive: as_numeric error".to_string(),
+            msg: "check_node_max_exclusive: as_numeric error".to_string(),
         })
     })?;
     if node_num.less_than(&max) {
         Ok(())
     } else {
-        Err(Box::new(SchemaIRError::MinExclusiveError {
+        Err(Box::new(SchemaIRError::MaxExclusiveError {
             expected: max.clone(),
             found: node_num,
             node: node.to_string(),
diff --git a/shex_ast/src/ast/mod.rs b/shex_ast/src/ast/mod.rs
index e4ae2c7..a47373a 100644
--- a/shex_ast/src/ast/mod.rs
+++ b/shex_ast/src/ast/mod.rs
@@ -58,6 +58,7 @@ const BOOLEAN_STR: &str = "http://www.w3.org/2001/XMLSchema#boolean";
 const INTEGER_STR: &str = "http://www.w3.org/2001/XMLSchema#integer";
 const BYTE_STR: &str = "http://www.w3.org/2001/XMLSchema#byte";
 const SHORT_STR: &str = "http://www.w3.org/2001/XMLSchema#short";
+const INT_STR: &str = "http://www.w3.org/2001/XMLSchema#int";
 const NON_NEGATIVE_INTEGER_STR: &str = "http://www.w3.org/2001/XMLSchema#nonNegativeInteger";
 const UNSIGNED_LONG_STR: &str = "http://www.w3.org/2001/XMLSchema#unsignedLong";
 const UNSIGNED_INT_STR: &str = "http://www.w3.org/2001/XMLSchema#unsignedInt";
diff --git a/shex_ast/src/ast/object_value.rs b/shex_ast/src/ast/object_value.rs
index 548bc0e..365c187 100644
--- a/shex_ast/src/ast/object_value.rs
+++ b/shex_ast/src/ast/object_value.rs
@@ -18,7 +18,7 @@ use std::{result, str::FromStr};
 
 use crate::Node;
 use crate::ast::{
-    BYTE_STR, DATETIME_STR, FLOAT_STR, LONG_STR, NEGATIVE_INTEGER_STR, NON_NEGATIVE_INTEGER_STR,
+    BYTE_STR, DATETIME_STR, FLOAT_STR, INT_STR, LONG_STR, NEGATIVE_INTEGER_STR, NON_NEGATIVE_INTEGER_STR,
     NON_POSITIVE_INTEGER_STR, POSITIVE_INTEGER_STR, SHORT_STR, UNSIGNED_BYTE_STR, UNSIGNED_INT_STR, UNSIGNED_LONG_STR,
     UNSIGNED_SHORT_STR,
 };
@@ -174,6 +174,7 @@ fn get_type_str(n: &NumericLiteral) -> &str {
         NumericLiteral::Float(_) => FLOAT_STR,
         NumericLiteral::Byte(_) => BYTE_STR,
         NumericLiteral::Short(_) => SHORT_STR,
+        NumericLiteral::Int(_) => INT_STR,
         NumericLiteral::NonNegativeInteger(_) => NON_NEGATIVE_INTEGER_STR,
         NumericLiteral::UnsignedLong(_) => UNSIGNED_LONG_STR,
         NumericLiteral::UnsignedInt(_) => UNSIGNED_INT_STR,
diff --git a/shex_ast/src/compact/compact_printer.rs b/shex_ast/src/compact/compact_printer.rs
index 26b2d2d..58bec87 100644
--- a/shex_ast/src/compact/compact_printer.rs
+++ b/shex_ast/src/compact/compact_printer.rs
@@ -50,6 +50,7 @@ fn pp_numeric_literal<'a, A>(value: &NumericLiteral, doc: &'a Arena<'a, A>) -> D
         NumericLiteral::Float(n) => doc.text(n.to_string()),
         NumericLiteral::Byte(n) => doc.text(n.to_string()),
         NumericLiteral::Short(n) => doc.text(n.to_string()),
+        NumericLiteral::Int(n) => doc.text(n.to_string()),
         NumericLiteral::NonNegativeInteger(n) => doc.text(n.to_string()),
         NumericLiteral::UnsignedLong(n) => doc.text(n.to_string()),
         NumericLiteral::UnsignedInt(n) => doc.text(n.to_string()),
diff --git a/shex_ast/src/compact/shapemap_compact_printer.rs b/shex_ast/src/compact/shapemap_compact_printer.rs
index d247cc4..f994b4b 100644
--- a/shex_ast/src/compact/shapemap_compact_printer.rs
+++ b/shex_ast/src/compact/shapemap_compact_printer.rs
@@ -257,6 +257,7 @@ where
             NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
             NumericLiteral::Byte(b) => self.pp_byte(b),
             NumericLiteral::Short(s) => self.pp_short(s),
+            NumericLiteral::Int(i) => self.pp_int(i),
             NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
             NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
             NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
@@ -292,6 +293,10 @@ where
         self.doc.text(value.to_string())
     }
 
+    fn pp_int(&self, value: &i32) -> DocBuilder<'a, Arena<'a, A>, A> {
+        self.doc.text(value.to_string())
+    }
+
     fn pp_non_negative_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(value.to_string())
     }
diff --git a/shex_ast/src/compact/shex_compact_printer.rs b/shex_ast/src/compact/shex_compact_printer.rs
index a564ed2..db39ee7 100644
--- a/shex_ast/src/compact/shex_compact_printer.rs
+++ b/shex_ast/src/compact/shex_compact_printer.rs
@@ -667,6 +667,7 @@ where
             NumericLiteral::Float(f) => self.pp_float(&(*f as f64)),
             NumericLiteral::Byte(b) => self.pp_byte(b),
             NumericLiteral::Short(s) => self.pp_short(s),
+            NumericLiteral::Int(i) => self.pp_int(i),
             NumericLiteral::NonNegativeInteger(n) => self.pp_non_negative_integer(n),
             NumericLiteral::UnsignedLong(u) => self.pp_unsigned_long(u),
             NumericLiteral::UnsignedInt(u) => self.pp_unsigned_int(u),
@@ -706,6 +707,10 @@ where
         self.doc.text(value.to_string())
     }
 
+    fn pp_int(&self, value: &i32) -> DocBuilder<'a, Arena<'a, A>, A> {
+        self.doc.text(value.to_string())
+    }
+
     fn pp_non_negative_integer(&self, value: &u128) -> DocBuilder<'a, Arena<'a, A>, A> {
         self.doc.text(value.to_string())
     }
-- 
2.43.0


From 50d3156260f3889001394fe1ef68d33c9cb3d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 37/64] fix: a literal of a value set matches the same literal
 of the data whatever its datatype

---
 .../src/rdf_core/term/literal/literal.rs      | 75 ++++++++++---------
 shex_ast/src/ast/mod.rs                       |  2 +-
 shex_ast/src/ast/object_value.rs              | 18 +++--
 shex_ast/src/ast/value_set_value.rs           | 12 +--
 4 files changed, 58 insertions(+), 49 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 924d6db..8821d25 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -393,6 +393,11 @@ impl ConcreteLiteral {
             | (Self::NumericLiteral(_), Self::DatatypeLiteral { .. }) => false,
             (Self::DatetimeLiteral(dt1), Self::DatetimeLiteral(dt2)) => dt1 == dt2,
             (Self::BooleanLiteral(b1), Self::BooleanLiteral(b2)) => b1 == b2,
+            // Booleans don't keep their lexical form
+            (Self::BooleanLiteral(b), other @ Self::DatatypeLiteral { lexical_form, .. })
+            | (other @ Self::DatatypeLiteral { lexical_form, .. }, Self::BooleanLiteral(b)) => {
+                other.datatype() == Self::BooleanLiteral(*b).datatype() && Self::parse_bool(lexical_form) == Ok(*b)
+            },
             (
                 Self::WrongDatatypeLiteral {
                     lexical_form, datatype, ..
@@ -403,7 +408,12 @@ impl ConcreteLiteral {
                     ..
                 },
             ) => lexical_form == expected_lexical_form && datatype == expected_datatype,
-            _ => false,
+            // The same literal in different representations, like "a" and "a"^^xsd:string
+            _ => {
+                self.lexical_form() == literal_expected.lexical_form()
+                    && self.datatype() == literal_expected.datatype()
+                    && self.lang() == literal_expected.lang()
+            },
         }
     }
 }
@@ -959,21 +969,27 @@ impl PartialOrd for ConcreteLiteral {
             (Self::StringLiteral { lexical_form: lf1, .. }, Self::StringLiteral { lexical_form: lf2, .. }) => {
                 Some(lf1.cmp(lf2))
             },
-            // Datatype literals: try numeric comparison for numeric types (cross-type allowed),
-            // fall back to lexical for same-datatype non-numeric, incomparable otherwise
-            (
-                Self::DatatypeLiteral {
-                    lexical_form: lf1,
-                    datatype: dt1,
-                },
-                Self::DatatypeLiteral {
-                    lexical_form: lf2,
-                    datatype: dt2,
-                },
-            ) => match (check_literal_datatype(lf1, dt1), check_literal_datatype(lf2, dt2)) {
-                (Ok(Self::NumericLiteral(n1)), Ok(Self::NumericLiteral(n2))) => n1.partial_cmp(&n2),
-                _ if dt1 == dt2 => Some(lf1.cmp(lf2)),
-                _ => None,
+            // Datatype literals are compared by value if their datatypes are known (numbers of different types
+            // are comparable), by lexical form if they share an unknown datatype, incomparable otherwise
+            (Self::DatatypeLiteral { .. }, _) | (_, Self::DatatypeLiteral { .. }) => {
+                match (
+                    self.clone().into_checked_literal(),
+                    other.clone().into_checked_literal(),
+                ) {
+                    (
+                        Ok(Self::DatatypeLiteral {
+                            lexical_form: lf1,
+                            datatype: dt1,
+                        }),
+                        Ok(Self::DatatypeLiteral {
+                            lexical_form: lf2,
+                            datatype: dt2,
+                        }),
+                    ) => (dt1 == dt2).then(|| lf1.cmp(&lf2)),
+                    (Ok(Self::DatatypeLiteral { .. }), _) | (_, Ok(Self::DatatypeLiteral { .. })) => None,
+                    (Ok(l1), Ok(l2)) => l1.partial_cmp(&l2),
+                    _ => None,
+                }
             },
             // Numeric comparison (may return None for NaN)
             (Self::NumericLiteral(n1), Self::NumericLiteral(n2)) => n1.partial_cmp(n2),
@@ -1082,30 +1098,17 @@ impl TryFrom<oxrdf::Literal> for ConcreteLiteral {
 
             (s, Some(dtype), None) => {
                 let datatype_iri = IriRef::iri(IriS::new_unchecked(dtype.as_str()));
-                let iri_str = dtype.as_str();
-                // For bare numeric types in Turtle, preserve original lexical form for valid values
+                // Preserve the original lexical form of valid values
                 // (ShEx value set matching requires lexical-form equality, not value equality).
                 // But invalid lexical forms must still produce WrongDatatypeLiteral.
-                if iri_str == XsdVocab::XSD_INTEGER
-                    || iri_str == XsdVocab::XSD_DECIMAL
-                    || iri_str == XsdVocab::XSD_DOUBLE
-                    || iri_str == XsdVocab::XSD_FLOAT
-                {
-                    match check_literal_datatype(s.as_ref(), &datatype_iri) {
-                        Ok(ConcreteLiteral::WrongDatatypeLiteral { error, .. }) => {
-                            Ok(ConcreteLiteral::WrongDatatypeLiteral {
-                                lexical_form: s.to_string(),
-                                datatype: datatype_iri,
-                                error,
-                            })
-                        },
-                        _ => Ok(ConcreteLiteral::DatatypeLiteral {
+                match check_literal_datatype(s.as_ref(), &datatype_iri)? {
+                    ConcreteLiteral::NumericLiteral(_) | ConcreteLiteral::DatetimeLiteral(_) => {
+                        Ok(ConcreteLiteral::DatatypeLiteral {
                             lexical_form: s.to_string(),
                             datatype: datatype_iri,
-                        }),
-                    }
-                } else {
-                    check_literal_datatype(s.as_ref(), &datatype_iri)
+                        })
+                    },
+                    checked => Ok(checked),
                 }
             },
 
diff --git a/shex_ast/src/ast/mod.rs b/shex_ast/src/ast/mod.rs
index a47373a..68fe9c8 100644
--- a/shex_ast/src/ast/mod.rs
+++ b/shex_ast/src/ast/mod.rs
@@ -72,7 +72,7 @@ const LONG_STR: &str = "http://www.w3.org/2001/XMLSchema#long";
 const DOUBLE_STR: &str = "http://www.w3.org/2001/XMLSchema#double";
 const FLOAT_STR: &str = "http://www.w3.org/2001/XMLSchema#float";
 const DECIMAL_STR: &str = "http://www.w3.org/2001/XMLSchema#decimal";
-const DATETIME_STR: &str = "http://www.w3.org/2001/XMLSchema#datetime";
+const DATETIME_STR: &str = "http://www.w3.org/2001/XMLSchema#dateTime";
 
 #[derive(Debug, Clone)]
 pub struct FromStrRefError;
diff --git a/shex_ast/src/ast/object_value.rs b/shex_ast/src/ast/object_value.rs
index 365c187..9959f23 100644
--- a/shex_ast/src/ast/object_value.rs
+++ b/shex_ast/src/ast/object_value.rs
@@ -60,6 +60,12 @@ impl ObjectValue {
         ObjectValue::Literal(ConcreteLiteral::lit_datatype(lexical_form, datatype))
     }
 
+    /// Creates a literal of an XSD datatype that keeps its lexical form,
+    /// because matching a value in a value set compares lexical forms
+    pub(crate) fn xsd_literal(lexical_form: &str, datatype: &str) -> ObjectValue {
+        ObjectValue::datatype_literal(lexical_form, &IriRef::iri(IriS::new_unchecked(datatype)))
+    }
+
     pub fn lexical_form(&self) -> String {
         match self {
             ObjectValue::IriRef(iri) => iri.to_string(),
@@ -318,28 +324,28 @@ impl<'de> Deserialize<'de> for ObjectValue {
                     },
                     Some(ObjectValueType::Decimal) => match value {
                         Some(s) => {
-                            let n = Decimal::from_str(&s).map_err(|e| {
+                            Decimal::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
                             })?;
-                            Ok(ObjectValue::decimal(n))
+                            Ok(ObjectValue::xsd_literal(&s, DECIMAL_STR))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ObjectValueType::Double) => match value {
                         Some(s) => {
-                            let n = f64::from_str(&s).map_err(|e| {
+                            f64::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
                             })?;
-                            Ok(ObjectValue::double(n))
+                            Ok(ObjectValue::xsd_literal(&s, DOUBLE_STR))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ObjectValueType::Integer) => match value {
                         Some(s) => {
-                            let n = isize::from_str(&s).map_err(|e| {
+                            isize::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
                             })?;
-                            Ok(ObjectValue::integer(n))
+                            Ok(ObjectValue::xsd_literal(&s, INTEGER_STR))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index 192ecef..64a8329 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -708,29 +708,29 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                     },
                     Some(ValueSetValueType::Double) => match value {
                         Some(s) => {
-                            let n = f64::from_str(&s).map_err(|e| {
+                            f64::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
                             })?;
-                            Ok(ValueSetValue::ObjectValue(ObjectValue::double(n)))
+                            Ok(ValueSetValue::ObjectValue(ObjectValue::xsd_literal(&s, DOUBLE_STR)))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ValueSetValueType::Decimal) => match value {
                         Some(s) => {
-                            let n = Decimal::from_str(&s).map_err(|e| {
+                            Decimal::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
                             })?;
-                            let v = ValueSetValue::ObjectValue(ObjectValue::decimal(n));
+                            let v = ValueSetValue::ObjectValue(ObjectValue::xsd_literal(&s, DECIMAL_STR));
                             Ok(v)
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ValueSetValueType::Integer) => match value {
                         Some(s) => {
-                            let n = isize::from_str(&s).map_err(|e| {
+                            isize::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
                             })?;
-                            let v = ValueSetValue::ObjectValue(ObjectValue::integer(n));
+                            let v = ValueSetValue::ObjectValue(ObjectValue::xsd_literal(&s, INTEGER_STR));
                             Ok(v)
                         },
                         None => Err(de::Error::missing_field("value")),
-- 
2.43.0


From f1bb678a92bcd02127f65660911e4f1502a0c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:38 +0000
Subject: [PATCH 38/64] fix: lexical forms of unsigned, floating-point and
 decimal literals follow XSD, xsd:int and xsd:short keep their datatype

---
 .../src/rdf_core/term/literal/literal.rs      | 47 +++++++++++--------
 .../rdf_core/term/literal/numeric_literal.rs  |  4 +-
 2 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 8821d25..46e2e97 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -785,17 +785,7 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a non-negative integer.
     pub fn parse_non_negative_integer(s: &str) -> Result<u128, String> {
-        let normalized = s.strip_prefix('+').unwrap_or(s);
-        if let Some(rest) = normalized.strip_prefix('-') {
-            let val = rest
-                .parse::<u128>()
-                .map_err(|e| format!("Cannot convert {s} to non-negative integer: {e}"))?;
-            if val == 0 {
-                return Ok(0);
-            }
-            return Err(format!("Cannot convert {s} to non-negative integer: value is negative"));
-        }
-        normalized
+        unsigned_lexical_form(s)
             .parse::<u128>()
             .map_err(|e| format!("Cannot convert {s} to non-negative integer: {e}"))
     }
@@ -806,7 +796,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `u8`.
     pub fn parse_unsigned_byte(s: &str) -> Result<u8, String> {
-        s.parse::<u8>()
+        unsigned_lexical_form(s)
+            .parse::<u8>()
             .map_err(|e| format!("Cannot convert {s} to unsignedByte: {e}"))
     }
 
@@ -816,7 +807,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `u16`.
     pub fn parse_unsigned_short(s: &str) -> Result<u16, String> {
-        s.parse::<u16>()
+        unsigned_lexical_form(s)
+            .parse::<u16>()
             .map_err(|e| format!("Cannot convert {s} to unsignedShort: {e}"))
     }
 
@@ -826,7 +818,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `u32`.
     pub fn parse_unsigned_int(s: &str) -> Result<u32, String> {
-        s.parse::<u32>()
+        unsigned_lexical_form(s)
+            .parse::<u32>()
             .map_err(|e| format!("Cannot convert {s} to unsignedInt: {e}"))
     }
 
@@ -836,7 +829,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `u64`.
     pub fn parse_unsigned_long(s: &str) -> Result<u64, String> {
-        s.parse::<u64>()
+        unsigned_lexical_form(s)
+            .parse::<u64>()
             .map_err(|e| format!("Cannot convert {s} to unsignedLong: {e}"))
     }
 
@@ -846,8 +840,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `f64`.
     pub fn parse_double(s: &str) -> Result<f64, String> {
-        // XSD double lexical space does not include "+INF"; only "INF", "-INF", "NaN"
-        if s.eq_ignore_ascii_case("+INF") || s.eq_ignore_ascii_case("+infinity") {
+        // The lexical space of xsd:double only includes "INF", "-INF" and "NaN" apart from the numerals
+        if !is_float_lexical_form(s) {
             return Err(format!("{s} is not a valid xsd:double lexical form"));
         }
         s.parse::<f64>()
@@ -874,7 +868,7 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a `Decimal`.
     pub fn parse_decimal(s: &str) -> Result<Decimal, String> {
-        if s.contains('e') || s.contains('E') {
+        if !s.chars().all(|c| matches!(c, '0'..='9' | '+' | '-' | '.')) {
             return Err("Invalid decimal: unknown character".to_string());
         }
         s.parse::<Decimal>()
@@ -887,8 +881,8 @@ impl ConcreteLiteral {
     ///
     /// Returns an error if the string cannot be parsed as a float.
     pub fn parse_float(s: &str) -> Result<f32, String> {
-        // XSD float lexical space does not include "+INF"; only "INF", "-INF", "NaN"
-        if s.eq_ignore_ascii_case("+INF") || s.eq_ignore_ascii_case("+infinity") {
+        // The lexical space of xsd:float only includes "INF", "-INF" and "NaN" apart from the numerals
+        if !is_float_lexical_form(s) {
             return Err(format!("{s} is not a valid xsd:float lexical form"));
         }
         s.parse::<f32>()
@@ -1171,6 +1165,19 @@ where
     serializer.serialize_str(if *value { "true" } else { "false" })
 }
 
+/// Removes the sign that XSD allows before the zeros of an unsigned integer, which Rust doesn't parse.
+fn unsigned_lexical_form(s: &str) -> &str {
+    match s.strip_prefix('-') {
+        Some(rest) if !rest.is_empty() && rest.bytes().all(|b| b == b'0') => rest,
+        _ => s,
+    }
+}
+
+/// Checks the special values of floating point numbers, which Rust parses in any case and with more names.
+fn is_float_lexical_form(s: &str) -> bool {
+    matches!(s, "INF" | "-INF" | "NaN") || !s.chars().any(|c| c.is_ascii_alphabetic() && !matches!(c, 'e' | 'E'))
+}
+
 /// Validates a literal's lexical form against its declared datatype.
 ///
 /// Returns a properly typed literal if validation succeeds, or a
diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index b62859f..8cb6025 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -729,8 +729,8 @@ impl From<NumericLiteral> for oxrdf::Literal {
             NumericLiteral::Long(l) => oxrdf::Literal::new_typed_literal(l.to_string(), oxrdf::vocab::xsd::LONG),
             NumericLiteral::Float(f) => oxrdf::Literal::from(f),
             NumericLiteral::Byte(b) => oxrdf::Literal::new_typed_literal(b.to_string(), oxrdf::vocab::xsd::BYTE),
-            NumericLiteral::Short(s) => oxrdf::Literal::from(s),
-            NumericLiteral::Int(i) => oxrdf::Literal::from(i),
+            NumericLiteral::Short(s) => oxrdf::Literal::new_typed_literal(s.to_string(), oxrdf::vocab::xsd::SHORT),
+            NumericLiteral::Int(i) => oxrdf::Literal::new_typed_literal(i.to_string(), oxrdf::vocab::xsd::INT),
             NumericLiteral::NonNegativeInteger(n) => {
                 oxrdf::Literal::new_typed_literal(n.to_string(), oxrdf::vocab::xsd::NON_NEGATIVE_INTEGER)
             },
-- 
2.43.0


From 1356989f3357a1a5e71a660ee987ad51ec63c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:40 +0000
Subject: [PATCH 39/64] fix: the host of an Origin header is the host of its
 authority, not anything in brackets

---
 .../src/server/streamable_http/middleware.rs  | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/rudof_mcp/src/server/streamable_http/middleware.rs b/rudof_mcp/src/server/streamable_http/middleware.rs
index 687b90e..36dddd7 100644
--- a/rudof_mcp/src/server/streamable_http/middleware.rs
+++ b/rudof_mcp/src/server/streamable_http/middleware.rs
@@ -105,20 +105,25 @@ impl OriginConfig {
             .or_else(|| origin.strip_prefix("http://"))
             .unwrap_or(origin);
 
+        // Keep the authority only: a path, query or fragment says nothing about the host
+        let authority_end = without_protocol.find(['/', '?', '#']).unwrap_or(without_protocol.len());
+        let authority = &without_protocol[..authority_end];
+
+        // An origin carries no user information: `localhost:x@evil.com` is not localhost
+        if authority.contains('@') {
+            return None;
+        }
+
         // Handle IPv6 addresses in brackets
-        if let Some(start) = without_protocol.find('[')
-            && let Some(end) = without_protocol.find(']')
-        {
-            return Some(&without_protocol[start + 1..end]);
+        if let Some(rest) = authority.strip_prefix('[') {
+            let (host, port) = rest.split_once(']')?;
+            return (port.is_empty() || port.starts_with(':')).then_some(host);
         }
 
-        // Split by : or / to remove port and path
-        let host_end = without_protocol
-            .find(':')
-            .or_else(|| without_protocol.find('/'))
-            .unwrap_or(without_protocol.len());
+        // Split by : to remove port
+        let host_end = authority.find(':').unwrap_or(authority.len());
 
-        Some(&without_protocol[..host_end])
+        Some(&authority[..host_end])
     }
 }
 
-- 
2.43.0


From aaaf9e307b997d27d0c0fc16536f3c35218b4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:40 +0000
Subject: [PATCH 40/64] fix: the MCP state file is only replaced once the new
 state has been written completely

---
 rudof_mcp/src/service/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rudof_mcp/src/service/state.rs b/rudof_mcp/src/service/state.rs
index a877f20..c977f0e 100644
--- a/rudof_mcp/src/service/state.rs
+++ b/rudof_mcp/src/service/state.rs
@@ -162,8 +162,11 @@ pub fn save_state_to_path(state: &PersistedState, path: &Path) -> io::Result<()>
     let tmp_path = path.with_extension("tmp");
     {
         let file = fs::File::create(&tmp_path)?;
-        let writer = BufWriter::new(file);
-        serde_json::to_writer_pretty(writer, state).map_err(io::Error::other)?;
+        let mut writer = BufWriter::new(file);
+        serde_json::to_writer_pretty(&mut writer, state).map_err(io::Error::other)?;
+        // Dropping the writer would discard the error of its last write: the target must only
+        // be replaced once everything has reached the file
+        writer.into_inner().map_err(|e| e.into_error())?.sync_all()?;
     }
 
     // Atomically replace the target (POSIX atomic; Windows best-effort)
-- 
2.43.0


From a8f5fa02cc95f882096f64fe25c69678cbd795bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 41/64] fix: the embedded SPARQL store is rebuilt when the
 triples change

---
 rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs | 30 ++++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
index 8bd6edd..27ced60 100644
--- a/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
+++ b/rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
@@ -107,6 +107,18 @@ impl OxigraphInMemory {
         self.graph.is_empty()
     }
 
+    /// Gives mutable access to the triples.
+    ///
+    /// The embedded SPARQL store is a copy of the triples, so it is dropped: the
+    /// next [`ensure_store`](Self::ensure_store) builds it again.
+    fn graph_mut(&mut self) -> &mut Graph {
+        #[cfg(feature = "sparql")]
+        {
+            self.store = None;
+        }
+        Arc::make_mut(&mut self.graph)
+    }
+
     pub fn set_default_base_prefixes(&mut self, default_base: Option<IriS>) {
         self.base = default_base;
     }
@@ -190,7 +202,7 @@ impl OxigraphInMemory {
         };
 
         let mut turtle_reader = turtle_parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in turtle_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| {
@@ -245,7 +257,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NTriplesParser::new();
         let mut nt_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in nt_reader.by_ref() {
             let triple =
@@ -279,7 +291,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = RdfXmlParser::new();
         let mut xml_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in xml_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::RDFXMLError {
@@ -313,7 +325,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = NQuadsParser::new();
         let mut nq_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in nq_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::NQuadsError {
@@ -346,7 +358,7 @@ impl OxigraphInMemory {
     ) -> Result<(), OxigraphInMemoryError> {
         let parser = JsonLdParser::new();
         let mut jsonld_reader = parser.for_reader(reader);
-        let graph = Arc::make_mut(&mut self.graph);
+        let graph = self.graph_mut();
 
         for triple_result in jsonld_reader.by_ref() {
             let triple = match handle_parse_error(triple_result, reader_mode, |e| OxigraphInMemoryError::JsonLDError {
@@ -482,7 +494,7 @@ impl OxigraphInMemory {
         O: Into<TermRef<'a>>,
     {
         let triple = TripleRef::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).insert(triple);
+        self.graph_mut().insert(triple);
         Ok(())
     }
 }
@@ -993,7 +1005,7 @@ impl BuildRDF for OxigraphInMemory {
         O: Into<Self::Term>,
     {
         let triple = OxTriple::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).insert(&triple);
+        self.graph_mut().insert(&triple);
         Ok(())
     }
 
@@ -1011,7 +1023,7 @@ impl BuildRDF for OxigraphInMemory {
         O: Into<Self::Term>,
     {
         let triple = OxTriple::new(subj.into(), pred.into(), obj.into());
-        Arc::make_mut(&mut self.graph).remove(&triple);
+        self.graph_mut().remove(&triple);
         Ok(())
     }
 
@@ -1029,7 +1041,7 @@ impl BuildRDF for OxigraphInMemory {
         T: Into<Self::Term>,
     {
         let triple = OxTriple::new(node.into(), rdf_type(), type_.into());
-        Arc::make_mut(&mut self.graph).insert(&triple);
+        self.graph_mut().insert(&triple);
         Ok(())
     }
 
-- 
2.43.0


From cab54d928d20bc245f35a74617e0733ca8f7c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:09 +0000
Subject: [PATCH 42/64] fix: loading several sources without merging keeps all
 of them, not only the last

---
 .../src/api/data/implementations/load_data.rs     | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rudof_lib/src/api/data/implementations/load_data.rs b/rudof_lib/src/api/data/implementations/load_data.rs
index 3a0c3a4..d85819b 100644
--- a/rudof_lib/src/api/data/implementations/load_data.rs
+++ b/rudof_lib/src/api/data/implementations/load_data.rs
@@ -61,7 +61,7 @@ fn init_defaults(
 }
 
 fn load_data_from_specs_pg(rudof: &mut Rudof, data: &[InputSpec], merge: bool) -> Result<()> {
-    for input_spec in data {
+    for (i, input_spec) in data.iter().enumerate() {
         let mut data_reader = input_spec
             .open_read(Some(DataFormat::Pg.mime_type()), "PG data")
             .map_err(|error| {
@@ -70,7 +70,13 @@ fn load_data_from_specs_pg(rudof: &mut Rudof, data: &[InputSpec], merge: bool) -
                 })
             })?;
 
-        read_pg_data(rudof, &mut data_reader, input_spec.source_name().as_str(), merge)?;
+        // Only the first source replaces the data loaded before
+        read_pg_data(
+            rudof,
+            &mut data_reader,
+            input_spec.source_name().as_str(),
+            merge || i > 0,
+        )?;
     }
 
     Ok(())
@@ -85,7 +91,7 @@ fn load_data_from_specs_rdf(
     merge: bool,
     prefixes: Option<&[InputSpec]>,
 ) -> Result<()> {
-    for input_spec in data {
+    for (i, input_spec) in data.iter().enumerate() {
         let mut data_reader = input_spec
             .open_read(Some(data_format.mime_type()), "RDF data")
             .map_err(|error| {
@@ -101,7 +107,8 @@ fn load_data_from_specs_rdf(
             &data_format,
             &base,
             &reader_mode,
-            merge,
+            // Only the first source replaces the data loaded before
+            merge || i > 0,
         )?;
     }
 
-- 
2.43.0


From 44ae00e20af39e60e44fcdc73d9267302b50204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:06 +0000
Subject: [PATCH 43/64] fix: prefixed IRIs in the exclusions of IRI stems are
 resolved instead of aborting the program

---
 shex_ast/src/ir/ast2ir.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 5911236..1638c80 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -1154,7 +1154,7 @@ fn cnv_value(v: &ast::ValueSetValue, prefixmap: &PrefixMap) -> CResult<ValueSetV
         },
         ast::ValueSetValue::IriStemRange { stem, exclusions } => {
             let stem = cnv_iriref_or_wildcard(stem, prefixmap)?;
-            let exclusions = cnv_iri_exclusions(exclusions)?;
+            let exclusions = cnv_iri_exclusions(exclusions, prefixmap)?;
             Ok(ValueSetValue::IriStemRange { stem, exclusions })
         },
         ast::ValueSetValue::LanguageStem { stem } => {
@@ -1236,13 +1236,14 @@ fn cnv_literal_exclusions(
 
 fn cnv_iri_exclusions(
     exclusions: &Option<Vec<ast::iri_exclusion::IriExclusion>>,
+    prefixmap: &PrefixMap,
 ) -> CResult<Option<Vec<ir::exclusion::IriExclusion>>> {
     match exclusions {
         None => Ok(None),
         Some(exs) => {
             let mut rs = Vec::new();
             for ex in exs {
-                let cnv_ex = cnv_iri_exclusion(ex)?;
+                let cnv_ex = cnv_iri_exclusion(ex, prefixmap)?;
                 rs.push(cnv_ex);
             }
             Ok(Some(rs))
@@ -1306,14 +1307,14 @@ fn cnv_literal_exclusion(
     }
 }
 
-fn cnv_iri_exclusion(le: &IriExclusion) -> CResult<crate::ir::exclusion::IriExclusion> {
+fn cnv_iri_exclusion(le: &IriExclusion, prefixmap: &PrefixMap) -> CResult<crate::ir::exclusion::IriExclusion> {
     match le {
         ast::iri_exclusion::IriExclusion::Iri(s) => {
-            let iri_s = iri_ref2iri_s(s);
+            let iri_s = cnv_iri_ref(s, prefixmap)?;
             Ok(crate::ir::exclusion::IriExclusion::Iri(iri_s))
         },
         ast::iri_exclusion::IriExclusion::IriStem(s) => {
-            let iri_s = iri_ref2iri_s(s);
+            let iri_s = cnv_iri_ref(s, prefixmap)?;
             Ok(crate::ir::exclusion::IriExclusion::IriStem(iri_s))
         },
     }
-- 
2.43.0


From 576876c7c56685b1e4e61bd7584e2fa137992cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:52 +0000
Subject: [PATCH 44/64] fix: the start shape can refer to the triple
 expressions of the schema

---
 shex_ast/src/ir/ast2ir.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 1638c80..14d8a7e 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -117,17 +117,19 @@ impl AST2IR {
             }
             compiled_schema.set_start_actions(compiled_start_acts);
         }
-        // Root labels (may include `start`).
-
-        // trace!("Collecting shape labels for root schema {source_iri}");
-        let local_shapes = self.collect_shape_labels(schema_ast, compiled_schema, source_iri, base)?;
-        // trace!("Collected shape labels for root schema {source_iri}: {local_shapes} shapes");
+        // Triple expression labels must be known before compiling any shape expression, including `start`.
         self.triple_expr_labels.clear();
         for (ast, _) in imported_asts.iter() {
             self.collect_triple_expr_labels_schema(ast)?;
         }
         self.collect_triple_expr_labels_schema(schema_ast)?;
 
+        // Root labels (may include `start`).
+
+        // trace!("Collecting shape labels for root schema {source_iri}");
+        let local_shapes = self.collect_shape_labels(schema_ast, compiled_schema, source_iri, base)?;
+        // trace!("Collected shape labels for root schema {source_iri}: {local_shapes} shapes");
+
         // Phase 2: compile shape expressions in the order they were collected
         // (imports bottom-up, then root).
         for (ast, src) in imported_asts.iter() {
-- 
2.43.0


From 6f77238986d98efa8d0f9cb2d881488106e33249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 45/64] fix: the inverse of a complex path is followed instead
 of aborting the program

---
 rudof_rdf/src/rdf_core/neighs_rdf.rs | 11 +++++++----
 rudof_rdf/src/rdf_core/shacl_path.rs | 21 +++++++++++++++++++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/neighs_rdf.rs b/rudof_rdf/src/rdf_core/neighs_rdf.rs
index 47f5e6b..8da7c51 100644
--- a/rudof_rdf/src/rdf_core/neighs_rdf.rs
+++ b/rudof_rdf/src/rdf_core/neighs_rdf.rs
@@ -353,10 +353,13 @@ pub trait NeighsRDF: Rdf {
                     Ok(all_objects)
                 },
             },
-            SHACLPath::Inverse { path } => {
-                let pred: Self::IRI = path.pred().unwrap().clone().into();
-                let objects = self.subjects_for(&pred, subject)?;
-                Ok(objects)
+            SHACLPath::Inverse { path } => match path.pred() {
+                Some(pred) => {
+                    let pred: Self::IRI = pred.clone().into();
+                    self.subjects_for(&pred, subject)
+                },
+                // The inverse of a complex path is pushed towards its predicates
+                None => self.objects_for_shacl_path(subject, &path.inverted()),
             },
             SHACLPath::ZeroOrMore { path } => {
                 let mut all_objects = HashSet::new();
diff --git a/rudof_rdf/src/rdf_core/shacl_path.rs b/rudof_rdf/src/rdf_core/shacl_path.rs
index c222608..9e4fa72 100644
--- a/rudof_rdf/src/rdf_core/shacl_path.rs
+++ b/rudof_rdf/src/rdf_core/shacl_path.rs
@@ -75,6 +75,27 @@ impl SHACLPath {
         SHACLPath::Inverse { path: Box::new(path) }
     }
 
+    /// Returns a path that relates the same nodes as this one, in the opposite direction.
+    ///
+    /// The inversion is pushed one level inwards, so only predicates end up directly
+    /// under an inverse path.
+    pub(crate) fn inverted(&self) -> Self {
+        let invert = |paths: &[SHACLPath]| paths.iter().cloned().map(SHACLPath::inverse).collect::<Vec<_>>();
+        match self {
+            SHACLPath::Predicate { .. } => SHACLPath::inverse(self.clone()),
+            SHACLPath::Alternative { paths } => SHACLPath::alternative(invert(paths)),
+            SHACLPath::Sequence { paths } => {
+                let mut paths = invert(paths);
+                paths.reverse();
+                SHACLPath::sequence(paths)
+            },
+            SHACLPath::Inverse { path } => path.as_ref().clone(),
+            SHACLPath::ZeroOrMore { path } => SHACLPath::zero_or_more(SHACLPath::inverse(path.as_ref().clone())),
+            SHACLPath::OneOrMore { path } => SHACLPath::one_or_more(SHACLPath::inverse(path.as_ref().clone())),
+            SHACLPath::ZeroOrOne { path } => SHACLPath::zero_or_one(SHACLPath::inverse(path.as_ref().clone())),
+        }
+    }
+
     /// Creates a zero-or-more quantified path (transitive closure).
     ///
     /// # Arguments
-- 
2.43.0


From ce4adcf9f686206dcf0262c15b9dfd1d368e7f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:58 +0000
Subject: [PATCH 46/64] fix: convert honours --target-folder

---
 rudof_cli/src/commands/convert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rudof_cli/src/commands/convert.rs b/rudof_cli/src/commands/convert.rs
index 46cec21..52b58e7 100644
--- a/rudof_cli/src/commands/convert.rs
+++ b/rudof_cli/src/commands/convert.rs
@@ -55,7 +55,12 @@ impl Command for ConvertCommand {
         if let Some(templates_folder) = self.args.template_folder.as_deref() {
             conversion = conversion.with_templates_folder(templates_folder);
         }
-        if let Some(output_folder) = self.args.common.output.as_deref() {
+        if let Some(output_folder) = self
+            .args
+            .target_folder
+            .as_deref()
+            .or(self.args.common.output.as_deref())
+        {
             conversion = conversion.with_output_folder(output_folder);
         }
 
-- 
2.43.0


From a1d45ed3c5befb5bec5c55d64d7d772f6f9e4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:58 +0000
Subject: [PATCH 47/64] fix: compare honours --reader-mode

---
 rudof_cli/src/commands/compare.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rudof_cli/src/commands/compare.rs b/rudof_cli/src/commands/compare.rs
index 5d5c029..9c13329 100644
--- a/rudof_cli/src/commands/compare.rs
+++ b/rudof_cli/src/commands/compare.rs
@@ -30,6 +30,7 @@ impl Command for CompareCommand {
         let input_mode1 = self.args.input_mode1.into();
         let input_mode2 = self.args.input_mode2.into();
         let result_format = self.args.result_format.into();
+        let reader_mode = self.args.reader_mode.into();
 
         let mut comparison = ctx
             .rudof
@@ -42,7 +43,8 @@ impl Command for CompareCommand {
                 &input_mode2,
                 &mut ctx.writer,
             )
-            .with_result_format(&result_format);
+            .with_result_format(&result_format)
+            .with_reader_mode(&reader_mode);
 
         if let Some(base1) = self.args.base1.as_deref() {
             comparison = comparison.with_base1(base1);
-- 
2.43.0


From d7f1b40f480f807ef414fa30f71fb3ee4da75afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:58 +0000
Subject: [PATCH 48/64] fix: validate --mode pgschema reports an unsupported
 result format instead of panicking

---
 rudof_cli/src/cli/wrappers/validation.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rudof_cli/src/cli/wrappers/validation.rs b/rudof_cli/src/cli/wrappers/validation.rs
index 1c0f925..1c4e832 100644
--- a/rudof_cli/src/cli/wrappers/validation.rs
+++ b/rudof_cli/src/cli/wrappers/validation.rs
@@ -197,12 +197,12 @@ impl TryFrom<ResultValidationFormatCli> for ResultPgSchemaValidationFormatCli {
             ResultValidationFormatCli::Details => Ok(ResultPgSchemaValidationFormatCli::Details),
             ResultValidationFormatCli::Json => Ok(ResultPgSchemaValidationFormatCli::Json),
             ResultValidationFormatCli::Csv => Ok(ResultPgSchemaValidationFormatCli::Csv),
-            ResultValidationFormatCli::Turtle => todo!("PGSchema validation doesn't support Turtle result format"),
-            ResultValidationFormatCli::NTriples => todo!("PGSchema validation doesn't support NTriples result format"),
-            ResultValidationFormatCli::RdfXml => todo!("PGSchema validation doesn't support RDF/XML result format"),
-            ResultValidationFormatCli::TriG => todo!("PGSchema validation doesn't support TriG result format"),
-            ResultValidationFormatCli::N3 => todo!("PGSchema validation doesn't support N3 result format"),
-            ResultValidationFormatCli::NQuads => todo!("PGSchema validation doesn't support NQuads result format"),
+            ResultValidationFormatCli::Turtle => bail!("PGSchema validation doesn't support Turtle result format"),
+            ResultValidationFormatCli::NTriples => bail!("PGSchema validation doesn't support NTriples result format"),
+            ResultValidationFormatCli::RdfXml => bail!("PGSchema validation doesn't support RDF/XML result format"),
+            ResultValidationFormatCli::TriG => bail!("PGSchema validation doesn't support TriG result format"),
+            ResultValidationFormatCli::N3 => bail!("PGSchema validation doesn't support N3 result format"),
+            ResultValidationFormatCli::NQuads => bail!("PGSchema validation doesn't support NQuads result format"),
         }
     }
 }
-- 
2.43.0


From 0e120cc4eb97ed9c964e37cb769b1705a945683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:11 +0000
Subject: [PATCH 49/64] fix: convert accepts the result format plantuml that
 its help lists

---
 rudof_lib/src/formats/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rudof_lib/src/formats/conversion.rs b/rudof_lib/src/formats/conversion.rs
index d7391b0..7b1c9c7 100644
--- a/rudof_lib/src/formats/conversion.rs
+++ b/rudof_lib/src/formats/conversion.rs
@@ -277,7 +277,7 @@ impl FromStr for ResultConversionFormat {
             "shexc" => Ok(ResultConversionFormat::ShExC),
             "shexj" => Ok(ResultConversionFormat::ShExJ),
             "turtle" => Ok(ResultConversionFormat::Turtle),
-            "uml" => Ok(ResultConversionFormat::PlantUML),
+            "uml" | "plantuml" => Ok(ResultConversionFormat::PlantUML),
             "html" => Ok(ResultConversionFormat::Html),
             "svg" => Ok(ResultConversionFormat::Svg),
             "png" => Ok(ResultConversionFormat::Png),
-- 
2.43.0


From 722cf365f73b5a5a000f730b49b8cca9fc46f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:11 +0000
Subject: [PATCH 50/64] fix: shex --no-show-schema leaves the schema out

---
 rudof_cli/src/commands/shex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rudof_cli/src/commands/shex.rs b/rudof_cli/src/commands/shex.rs
index c41d249..2abd1cd 100644
--- a/rudof_cli/src/commands/shex.rs
+++ b/rudof_cli/src/commands/shex.rs
@@ -51,7 +51,7 @@ impl Command for ShexCommand {
         let mut shex_serialization = ctx
             .rudof
             .serialize_shex_schema(&mut ctx.writer)
-            .with_show_schema(self.args.show_schema)
+            .with_show_schema(self.args.show_schema && self.args.no_show_schema)
             .with_result_shex_format(&result_schema_format);
 
         if let Some(shape_label) = self.args.shape.as_deref() {
-- 
2.43.0


From 61937cfb1e2b8785a6c3b99c3e57898afcdd2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:11 +0000
Subject: [PATCH 51/64] fix: resetting everything also resets the default
 prefixes

---
 rudof_lib/src/api/core/implementations/reset_all.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rudof_lib/src/api/core/implementations/reset_all.rs b/rudof_lib/src/api/core/implementations/reset_all.rs
index b8dbf3e..6f5a295 100644
--- a/rudof_lib/src/api/core/implementations/reset_all.rs
+++ b/rudof_lib/src/api/core/implementations/reset_all.rs
@@ -18,4 +18,5 @@ pub fn reset_all(rudof: &mut Rudof) {
     rudof.service_description = None;
     rudof.rdf_config = None;
     rudof.map_state = None;
+    rudof.prefixes = None;
 }
-- 
2.43.0


From cb6c809dc01a94a2f0058405d4e764dda095fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:11 +0000
Subject: [PATCH 52/64] fix: a shell line whose output file is refused keeps
 the loaded data

---
 rudof_cli/src/shell/repl.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rudof_cli/src/shell/repl.rs b/rudof_cli/src/shell/repl.rs
index 67d2326..0700ffd 100644
--- a/rudof_cli/src/shell/repl.rs
+++ b/rudof_cli/src/shell/repl.rs
@@ -229,6 +229,17 @@ fn dispatch(line: &str, ctx: &mut CommandContext) -> Result<()> {
 
     let command = CommandFactory::create(parsed)?;
 
+    // The file has to be opened before anything is replaced: a refused file
+    // (e.g. an existing one without `--force-overwrite`) must leave the data
+    // already loaded in the session alone.
+    let file_output = match output_path {
+        Some(path) => {
+            let (file_writer, _color) = crate::output::get_writer(&Some(path.clone()), force_overwrite)?;
+            Some((path, file_writer))
+        },
+        None => None,
+    };
+
     if should_replace_data {
         ctx.rudof.reset_data().execute();
     }
@@ -242,11 +253,10 @@ fn dispatch(line: &str, ctx: &mut CommandContext) -> Result<()> {
         return Ok(());
     }
 
-    let Some(path) = output_path else {
+    let Some((path, file_writer)) = file_output else {
         return command.execute(ctx);
     };
 
-    let (file_writer, _color) = crate::output::get_writer(&Some(path.clone()), force_overwrite)?;
     let previous_writer = std::mem::replace(&mut ctx.writer, file_writer);
 
     let result = command.execute(ctx).and_then(|()| Ok(ctx.writer.flush()?));
-- 
2.43.0


From 07791c5ad4ff4a34889381450c53c250e6cec9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:11 +0000
Subject: [PATCH 53/64] fix: nesting depth of arcs below a last arc in MCP
 node_info

---
 rudof_mcp/src/service/tools/node_tools_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rudof_mcp/src/service/tools/node_tools_impl.rs b/rudof_mcp/src/service/tools/node_tools_impl.rs
index 05e8944..d898776 100644
--- a/rudof_mcp/src/service/tools/node_tools_impl.rs
+++ b/rudof_mcp/src/service/tools/node_tools_impl.rs
@@ -200,6 +200,9 @@ fn strip_tree_glyphs(value: &str) -> String {
 }
 
 /// Computes the nesting depth from line prefixes used by `termtree`.
+///
+/// Each ancestor is drawn as a vertical bar followed by the three spaces of the
+/// indentation, or, when it is the last one of its level, as these three spaces alone.
 fn tree_depth(line: &str) -> usize {
     let mut remaining = line;
     let mut depth = 0;
@@ -211,7 +214,7 @@ fn tree_depth(line: &str) -> usize {
             continue;
         }
 
-        if let Some(rest) = remaining.strip_prefix("    ") {
+        if let Some(rest) = remaining.strip_prefix("   ") {
             depth += 1;
             remaining = rest;
             continue;
-- 
2.43.0


From f7a6568790b420d8f6587a06077f626bc35d49c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:11 +0000
Subject: [PATCH 54/64] fix: kind of a SPARQL query whose keyword is not
 followed by a space or is in a comment

---
 rudof_mcp/src/service/tools/helpers.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rudof_mcp/src/service/tools/helpers.rs b/rudof_mcp/src/service/tools/helpers.rs
index 18cec37..a1731d2 100644
--- a/rudof_mcp/src/service/tools/helpers.rs
+++ b/rudof_mcp/src/service/tools/helpers.rs
@@ -764,14 +764,26 @@ pub fn unsupported_format_error(format_name: &str, requested: &str, supported: &
 /// Returns `Some("SELECT")`, `Some("CONSTRUCT")`, `Some("ASK")`, `Some("DESCRIBE")`,
 /// or `None` when no type keyword is found.
 pub fn sparql_query_type(query: &str) -> Option<&'static str> {
-    for token in query.split_whitespace() {
-        match token.to_uppercase().as_str() {
+    let mut rest = query;
+    loop {
+        rest = rest.trim_start();
+
+        // A comment extends to the end of its line
+        if rest.starts_with('#') {
+            rest = rest.find('\n').map_or("", |end| &rest[end..]);
+            continue;
+        }
+
+        let end = rest.find(|c: char| !c.is_ascii_alphabetic()).unwrap_or(rest.len());
+        let keyword = &rest[..end];
+        match keyword.to_ascii_uppercase().as_str() {
             "SELECT" => return Some("SELECT"),
             "CONSTRUCT" => return Some("CONSTRUCT"),
             "ASK" => return Some("ASK"),
             "DESCRIBE" => return Some("DESCRIBE"),
-            _ => {},
+            // A declaration of the prologue ends with its IRI
+            "BASE" | "PREFIX" => rest = rest.find('>').map_or("", |end| &rest[end + 1..]),
+            _ => return None,
         }
     }
-    None
 }
-- 
2.43.0


From a2a5b118f38b3f94cfab43caf214f27a145b304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:19 +0000
Subject: [PATCH 55/64] fix: size of an exported PlantUML diagram is its number
 of characters

---
 rudof_mcp/src/service/tools/data_tools_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rudof_mcp/src/service/tools/data_tools_impl.rs b/rudof_mcp/src/service/tools/data_tools_impl.rs
index 766bfb8..796fcf3 100644
--- a/rudof_mcp/src/service/tools/data_tools_impl.rs
+++ b/rudof_mcp/src/service/tools/data_tools_impl.rs
@@ -335,7 +335,7 @@ pub async fn export_plantuml_impl(
             Some(json!({"operation":"export_plantuml_impl", "phase":"utf8_conversion"})),
         )
     })?;
-    let size = str.len();
+    let size = str.chars().count();
     let response = ExportPlantUmlResponse {
         plantuml_data: str.clone(),
         size,
-- 
2.43.0


From 0c0438745c171de4ab8f291ea30360eebc245e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:19 +0000
Subject: [PATCH 56/64] fix: MCP export_image refuses formats that are not
 image formats

---
 rudof_mcp/src/service/tools/data_tools_impl.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rudof_mcp/src/service/tools/data_tools_impl.rs b/rudof_mcp/src/service/tools/data_tools_impl.rs
index 796fcf3..92962fa 100644
--- a/rudof_mcp/src/service/tools/data_tools_impl.rs
+++ b/rudof_mcp/src/service/tools/data_tools_impl.rs
@@ -369,7 +369,14 @@ pub async fn export_image_impl(
 
     // Parse image format - return Tool Execution Error for unsupported format
     let format = match ResultDataFormat::from_str(&image_format) {
-        Ok(fmt) => fmt,
+        Ok(fmt) if fmt.is_image_visualization_format() => fmt,
+        Ok(_) => {
+            return Ok(ToolExecutionError::with_hint(
+                format!("Invalid image format '{}': not an image format", image_format),
+                format!("Supported formats: {}", IMAGE_FORMATS),
+            )
+            .into_call_tool_result());
+        },
         Err(e) => {
             return Ok(ToolExecutionError::with_hint(
                 format!("Invalid image format '{}': {}", image_format, e),
-- 
2.43.0


From 30954de06a8040fb5fcb64150ec485e9d47352a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:25 +0000
Subject: [PATCH 57/64] fix: concurrent saves of the MCP state do not write the
 same temporary file

---
 rudof_mcp/src/service/state.rs | 39 ++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/rudof_mcp/src/service/state.rs b/rudof_mcp/src/service/state.rs
index c977f0e..df1bc6b 100644
--- a/rudof_mcp/src/service/state.rs
+++ b/rudof_mcp/src/service/state.rs
@@ -14,6 +14,7 @@ use serde::{Deserialize, Serialize};
 use std::fs;
 use std::io::{self, BufReader, BufWriter};
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicU64, Ordering};
 use tracing::{debug, info, warn};
 
 /// Default path for state persistence in Docker containers.
@@ -22,6 +23,9 @@ pub const DEFAULT_STATE_PATH: &str = "/app/state/data.json";
 /// Environment variable to override the state file path.
 pub const STATE_PATH_ENV_VAR: &str = "RUDOF_MCP_STATE_PATH";
 
+/// Number of saves started by this process, which tells their temporary files apart.
+static SAVES: AtomicU64 = AtomicU64::new(0);
+
 /// Persisted state structure for the MCP server.
 ///
 /// This structure captures the essential state that needs to survive
@@ -158,24 +162,37 @@ pub fn save_state_to_path(state: &PersistedState, path: &Path) -> io::Result<()>
         fs::create_dir_all(parent)?;
     }
 
-    // Write to a temporary file in the same directory so the rename is same-filesystem
-    let tmp_path = path.with_extension("tmp");
-    {
-        let file = fs::File::create(&tmp_path)?;
-        let mut writer = BufWriter::new(file);
-        serde_json::to_writer_pretty(&mut writer, state).map_err(io::Error::other)?;
-        // Dropping the writer would discard the error of its last write: the target must only
-        // be replaced once everything has reached the file
-        writer.into_inner().map_err(|e| e.into_error())?.sync_all()?;
-    }
+    // Write to a temporary file in the same directory so the rename is same-filesystem. Its
+    // name is not shared with a save that another session may be doing at the same time.
+    let mut tmp_name = path.file_name().unwrap_or_default().to_os_string();
+    tmp_name.push(format!(
+        ".{:x}.{}.tmp",
+        chrono::Utc::now().timestamp_micros(),
+        SAVES.fetch_add(1, Ordering::Relaxed)
+    ));
+    let tmp_path = path.with_file_name(tmp_name);
 
     // Atomically replace the target (POSIX atomic; Windows best-effort)
-    fs::rename(&tmp_path, path)?;
+    let saved = write_state(state, &tmp_path).and_then(|()| fs::rename(&tmp_path, path));
+    if saved.is_err() {
+        let _ = fs::remove_file(&tmp_path);
+    }
+    saved?;
 
     info!("Saved state to {:?} (triples: {:?})", path, state.triple_count);
     Ok(())
 }
 
+/// Write state to a file, and only succeed once it has reached the disk.
+fn write_state(state: &PersistedState, path: &Path) -> io::Result<()> {
+    let file = fs::File::create(path)?;
+    let mut writer = BufWriter::new(file);
+    serde_json::to_writer_pretty(&mut writer, state).map_err(io::Error::other)?;
+    // Dropping the writer would discard the error of its last write: the target must only
+    // be replaced once everything has reached the file
+    writer.into_inner().map_err(|e| e.into_error())?.sync_all()
+}
+
 /// Error type for state persistence operations.
 #[derive(Debug)]
 pub enum StatePersistenceError {
-- 
2.43.0


From 1997334dd2c03a14574b182990fc1229d9a1caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:25 +0000
Subject: [PATCH 58/64] fix: the MCP state is saved in the order of the loads

---
 rudof_mcp/src/service/tools/data_tools_impl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rudof_mcp/src/service/tools/data_tools_impl.rs b/rudof_mcp/src/service/tools/data_tools_impl.rs
index 92962fa..b0adad7 100644
--- a/rudof_mcp/src/service/tools/data_tools_impl.rs
+++ b/rudof_mcp/src/service/tools/data_tools_impl.rs
@@ -223,15 +223,16 @@ pub async fn load_rdf_data_from_sources_impl(
     let mut result = CallToolResult::success(vec![Content::text(summary)]);
     result.structured_content = Some(structured);
 
-    // Explicitly release the Mutex lock before the async persist_state_with() call.
-    // persist_state_with() re-acquires the lock internally; holding it here would deadlock.
-    drop(rudof);
+    // The Mutex lock is held until the state has been saved, so that concurrent calls save
+    // their states in the order of their loads. persist_state_with() only acquires the lock
+    // when it is not given the N-Triples.
 
     // Persist state for Docker ephemeral container support, reusing the N-Triples
     // string we already serialized above to avoid a redundant serialization pass.
     if let Err(e) = service.persist_state_with(Some(ntriples)).await {
         tracing::warn!("Failed to persist state after loading RDF data: {}", e);
     }
+    drop(rudof);
 
     Ok(result)
 }
-- 
2.43.0


From d2915ff703c70ad988b62bfa98509f2abf4d44cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:04 +0000
Subject: [PATCH 59/64] fix: a prefixed name is the concatenation of the
 namespace and the local name

---
 prefixmap/src/prefix_map.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prefixmap/src/prefix_map.rs b/prefixmap/src/prefix_map.rs
index 42d3cf2..ec4e7d7 100644
--- a/prefixmap/src/prefix_map.rs
+++ b/prefixmap/src/prefix_map.rs
@@ -566,8 +566,7 @@ impl PrefixMap {
                 if local.is_empty() {
                     return Ok(iri.clone());
                 }
-                let new_iri = iri.extend(local.as_str())?;
-                Ok(new_iri)
+                Ok(IriS::new(&format!("{}{local}", iri.as_str()))?)
             },
             None => Err(PrefixMapError::PrefixNotFound {
                 prefix,
-- 
2.43.0


From 8540fa99f5fa069862f5caa382b41d16662b5261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:04 +0000
Subject: [PATCH 60/64] fix: the prefix of a prefixed name ends at its first
 colon

---
 prefixmap/src/prefix_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prefixmap/src/prefix_map.rs b/prefixmap/src/prefix_map.rs
index ec4e7d7..5843c45 100644
--- a/prefixmap/src/prefix_map.rs
+++ b/prefixmap/src/prefix_map.rs
@@ -511,7 +511,7 @@ impl PrefixMap {
     /// # Ok::<(), PrefixMapError>(())
     /// ```
     pub fn resolve(&self, str: &str) -> Result<IriS, PrefixMapError> {
-        match str.rsplit_once(':') {
+        match str.split_once(':') {
             Some((prefix, local)) => Ok(self.resolve_prefix_local(prefix, local)?),
             None => Ok(IriS::from_str(str)?),
         }
-- 
2.43.0


From 4598a91175a135dc2dbe3a1841b7fd90444248d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:04 +0000
Subject: [PATCH 61/64] fix: an IRI whose rest is not a local name is not
 written as a prefixed name

---
 prefixmap/src/prefix_map.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/prefixmap/src/prefix_map.rs b/prefixmap/src/prefix_map.rs
index 5843c45..d687b0a 100644
--- a/prefixmap/src/prefix_map.rs
+++ b/prefixmap/src/prefix_map.rs
@@ -389,7 +389,7 @@ impl PrefixMap {
     /// # Ok::<(), PrefixMapError>(())
     /// ```
     pub fn qualify_optional(&self, iri: &IriS) -> Option<String> {
-        let (alias, rest) = self.longest_prefix_match(iri)?;
+        let (alias, rest) = self.prefixed_name(iri)?;
         let s = self.format_colored(alias, rest);
 
         if self.hyperlink {
@@ -422,7 +422,7 @@ impl PrefixMap {
     /// # Ok::<(), PrefixMapError>(())
     /// ```
     pub fn qualify_and_length(&self, iri: &IriS) -> (String, usize) {
-        let (s, length) = if let Some((alias, rest)) = self.longest_prefix_match(iri) {
+        let (s, length) = if let Some((alias, rest)) = self.prefixed_name(iri) {
             let s = self.format_colored(alias, rest);
             let length = alias.len() + 1 + rest.len();
             (s, length)
@@ -468,6 +468,12 @@ impl PrefixMap {
         self.longest_prefix_match(iri).map(|(_, rest)| rest.to_string())
     }
 
+    /// The alias and the local name of the prefixed name of an IRI, if what follows the longest
+    /// prefix can be written as a local name without escapes
+    fn prefixed_name<'a>(&'a self, iri: &'a IriS) -> Option<(&'a str, &'a str)> {
+        self.longest_prefix_match(iri).filter(|(_, local)| is_local_name(local))
+    }
+
     /// Finds the longest prefix match for a given IRI in the [`PrefixMap`]
     fn longest_prefix_match<'a>(&'a self, iri: &'a IriS) -> Option<(&'a str, &'a str)> {
         self.map
@@ -576,6 +582,31 @@ impl PrefixMap {
     }
 }
 
+/// Checks whether a string is a `PN_LOCAL` of Turtle, SPARQL, and ShExC that needs no escapes, or empty
+fn is_local_name(str: &str) -> bool {
+    let mut chars = str.chars();
+    let mut first = true;
+    while let Some(c) = chars.next() {
+        let ok = match c {
+            '%' => [chars.next(), chars.next()]
+                .iter()
+                .all(|c| c.is_some_and(|c| c.is_ascii_hexdigit())),
+            '.' | '-' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}' => !first,
+            ':' | '_' | '0'..='9' | 'a'..='z' | 'A'..='Z' => true,
+            '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' => true,
+            '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}' => true,
+            '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' => true,
+            '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}' => true,
+            _ => false,
+        };
+        if !ok {
+            return false;
+        }
+        first = false;
+    }
+    !str.ends_with('.')
+}
+
 impl Display for PrefixMap {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         for (alias, iri) in self.map.iter() {
-- 
2.43.0


From f829988fe0c2f15966104fb5f84ccc8494c66615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:04 +0000
Subject: [PATCH 62/64] fix: escapes and final dots of names in ShExC are read
 as the grammar says

---
 shex_ast/src/compact/shex_grammar.rs | 62 +++++++---------------------
 1 file changed, 16 insertions(+), 46 deletions(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 8bc442b..78af082 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1792,7 +1792,8 @@ pub(crate) fn blank_node(i: Span) -> IRes<BNode> {
 /// `[142s] <BLANK_NODE_LABEL> ::= "_:" (PN_CHARS_U | [0-9]) ((PN_CHARS | ".")* PN_CHARS)?`
 fn blank_node_label(i: Span<'_>) -> IRes<'_, &str> {
     let (i, _) = tag("_:")(i)?;
-    let (i, label) = recognize((one_if(is_pn_chars_u_digit), blank_node_label2)).parse(i)?;
+    let (_, label) = recognize((one_if(is_pn_chars_u_digit), take_while(is_pn_chars_or_dot))).parse(i)?;
+    let (i, label) = i.take_split(label.fragment().trim_end_matches('.').len());
     Ok((i, label.fragment()))
 }
 
@@ -1804,28 +1805,6 @@ fn is_pn_chars_or_dot(c: char) -> bool {
     c == '.' || is_pn_chars(c)
 }
 
-fn blank_node_label2(src: Span) -> IRes<()> {
-    match blank_node_label3(src) {
-        Ok((left, m)) => {
-            // if last is a '.', remove that
-            if m.ends_with('.') {
-                // TODO!!: Original parser had this:
-                // But I need to see how to remove the last character of left...
-                // Ok(((&src[m.len() - 1..]), ()))
-                tracing::error!("This code is pending review when the last is a '.' {left}");
-                Ok((left, ()))
-            } else {
-                Ok((left, ()))
-            }
-        },
-        Err(e) => Err(e),
-    }
-}
-
-fn blank_node_label3(i: Span) -> IRes<Span> {
-    take_while(is_pn_chars_or_dot)(i)
-}
-
 /// `[19t] <INTEGER> ::= [+-]? [0-9]+`
 fn integer<'a>() -> impl FnMut(Span<'a>) -> IRes<'a, i128> {
     map_error(
@@ -1894,35 +1873,26 @@ fn digits(i: Span) -> IRes<i128> {
 fn pname_ln(i: Span) -> IRes<IriRef> {
     // This code is different here: https://github.com/vandenoever/rome/blob/047cf54def2aaac75ac4b9adbef08a9d010689bd/src/io/turtle/grammar.rs#L293
     let (i, (prefix, local)) = (pname_ns, pn_local).parse(i)?;
-    Ok((i, IriRef::prefixed(*prefix.fragment(), local)))
+    Ok((i, IriRef::prefixed(prefix.fragment().to_string(), local)))
 }
 
-/// `[77] <PN_LOCAL> ::= (PN_CHARS_U | ":" | [0-9] | PLX) (PN_CHARS | "." | ":" | PLX)`
-fn pn_local(i: Span<'_>) -> IRes<'_, &str> {
-    let (i, cs) = recognize((alt((one_if(is_pn_local_start), plx)), pn_local2)).parse(i)?;
-    Ok((i, cs.fragment()))
+/// `[77] <PN_LOCAL> ::= (PN_CHARS_U | ":" | [0-9] | PLX) ((PN_CHARS | "." | ":" | PLX)* (PN_CHARS | ":" | PLX))?`
+///
+/// Returns the local name without the backslashes of its escapes
+fn pn_local(i: Span<'_>) -> IRes<'_, String> {
+    let (_, cs) = recognize((alt((one_if(is_pn_local_start), plx)), pn_local3)).parse(i)?;
+    let (i, cs) = i.take_split(without_final_dots(cs.fragment()));
+    Ok((i, cs.fragment().replace('\\', "")))
 }
 
-fn is_pn_local_start(c: char) -> bool {
-    c == ':' || is_digit(c) || is_pn_chars_u(c)
+/// The length of a local name without the dots at its end, unless they are escaped
+fn without_final_dots(local: &str) -> usize {
+    let len = local.trim_end_matches('.').len();
+    if local[..len].ends_with('\\') { len + 1 } else { len }
 }
 
-fn pn_local2(src: Span) -> IRes<()> {
-    match pn_local3(src) {
-        Ok((left, m)) => {
-            // if last is a '.', remove that
-            if m.ends_with('.') {
-                // TODO!!: Original parser had this:
-                // But I need to see how to remove the last character of left...
-                // Ok(((&src[m.len() - 1..]), ()))
-                tracing::error!("This code is pending review when the last is a '.' {left}");
-                Ok((left, ()))
-            } else {
-                Ok((left, ()))
-            }
-        },
-        Err(e) => Err(e),
-    }
+fn is_pn_local_start(c: char) -> bool {
+    c == ':' || is_digit(c) || is_pn_chars_u(c)
 }
 
 fn pn_local3(i: Span) -> IRes<Span> {
-- 
2.43.0


From 6b6d0127f9305014a66d57ecc4e71f0fd7b77adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:00 +0000
Subject: [PATCH 63/64] fix: stems and excluded IRIs of value sets are resolved
 against the base

---
 shex_ast/src/ast/iri_exclusion.rs       | 13 ++++++++++++-
 shex_ast/src/ast/iri_ref_or_wildcard.rs | 13 ++++++++++++-
 shex_ast/src/ast/value_set_value.rs     |  8 +++++---
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/shex_ast/src/ast/iri_exclusion.rs b/shex_ast/src/ast/iri_exclusion.rs
index 45d603e..f829630 100644
--- a/shex_ast/src/ast/iri_exclusion.rs
+++ b/shex_ast/src/ast/iri_exclusion.rs
@@ -1,4 +1,6 @@
-use prefixmap::IriRef;
+use prefixmap::error::DerefError;
+use prefixmap::{DerefIri, IriRef, PrefixMap};
+use rudof_iri::IriS;
 use serde::ser::SerializeMap;
 use serde::{Deserialize, Serialize, Serializer};
 use std::fmt::Display;
@@ -10,6 +12,15 @@ pub enum IriExclusion {
     IriStem(IriRef),
 }
 
+impl DerefIri for IriExclusion {
+    fn deref_iri(self, base: Option<&IriS>, prefixmap: Option<&PrefixMap>) -> Result<Self, DerefError> {
+        match self {
+            IriExclusion::Iri(iri) => Ok(IriExclusion::Iri(iri.deref_iri(base, prefixmap)?)),
+            IriExclusion::IriStem(stem) => Ok(IriExclusion::IriStem(stem.deref_iri(base, prefixmap)?)),
+        }
+    }
+}
+
 impl Serialize for IriExclusion {
     fn serialize<S>(&self, serializer: S) -> result::Result<S::Ok, S::Error>
     where
diff --git a/shex_ast/src/ast/iri_ref_or_wildcard.rs b/shex_ast/src/ast/iri_ref_or_wildcard.rs
index 16773bb..c2c81ae 100644
--- a/shex_ast/src/ast/iri_ref_or_wildcard.rs
+++ b/shex_ast/src/ast/iri_ref_or_wildcard.rs
@@ -1,4 +1,6 @@
-use prefixmap::IriRef;
+use prefixmap::error::DerefError;
+use prefixmap::{DerefIri, IriRef, PrefixMap};
+use rudof_iri::IriS;
 use rudof_iri::error::IriSError;
 use serde::ser::SerializeMap;
 use serde::{Serialize, Serializer};
@@ -10,6 +12,15 @@ pub enum IriRefOrWildcard {
     Wildcard,
 }
 
+impl DerefIri for IriRefOrWildcard {
+    fn deref_iri(self, base: Option<&IriS>, prefixmap: Option<&PrefixMap>) -> Result<Self, DerefError> {
+        match self {
+            IriRefOrWildcard::IriRef(iri) => Ok(IriRefOrWildcard::IriRef(iri.deref_iri(base, prefixmap)?)),
+            IriRefOrWildcard::Wildcard => Ok(IriRefOrWildcard::Wildcard),
+        }
+    }
+}
+
 impl FromStr for IriRefOrWildcard {
     type Err = IriSError;
 
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index 64a8329..f934178 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -109,10 +109,12 @@ impl DerefIri for ValueSetValue {
                 language_tag: language_tag.clone(),
             }),
             ValueSetValue::LanguageStem { stem } => Ok(ValueSetValue::LanguageStem { stem: stem.clone() }),
-            ValueSetValue::IriStem { stem } => Ok(ValueSetValue::IriStem { stem: stem.clone() }),
+            ValueSetValue::IriStem { stem } => Ok(ValueSetValue::IriStem {
+                stem: stem.deref_iri(base, prefixmap)?,
+            }),
             ValueSetValue::IriStemRange { stem, exclusions } => Ok(ValueSetValue::IriStemRange {
-                stem: stem.clone(),
-                exclusions: exclusions.clone(),
+                stem: stem.deref_iri(base, prefixmap)?,
+                exclusions: exclusions.deref_iri(base, prefixmap)?,
             }),
             ValueSetValue::LanguageStemRange { stem, exclusions } => Ok(ValueSetValue::LanguageStemRange {
                 stem: stem.clone(),
-- 
2.43.0


From ffd03b20cabe7fdc26b35b62ad78a02fa51fa6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:00 +0000
Subject: [PATCH 64/64] fix: IRIs of ShEx directives are resolved against the
 base in force

---
 shex_ast/src/compact/shex_parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/shex_ast/src/compact/shex_parser.rs b/shex_ast/src/compact/shex_parser.rs
index 5d86286..63a3be4 100644
--- a/shex_ast/src/compact/shex_parser.rs
+++ b/shex_ast/src/compact/shex_parser.rs
@@ -36,9 +36,11 @@ impl ShExParser<'_> {
         for s in parser.shex_statement_iterator.by_ref() {
             match s? {
                 ShExStatement::BaseDecl { iri } => {
+                    let iri = Self::resolve_base(&schema, iri)?;
                     schema = schema.with_base(Some(iri));
                 },
                 ShExStatement::PrefixDecl { alias, iri } => {
+                    let iri = Self::resolve_base(&schema, iri)?;
                     schema.add_prefix(alias, &iri);
                 },
                 ShExStatement::StartDecl { shape_expr } => {
@@ -46,6 +48,7 @@ impl ShExParser<'_> {
                     schema = schema.with_start(Some(shape_expr))
                 },
                 ShExStatement::ImportDecl { iri } => {
+                    let iri = iri.deref_iri(schema.base().as_ref(), schema.prefixmap().as_ref())?;
                     schema = schema.with_import(iri);
                 },
                 ShExStatement::ShapeDecl {
@@ -58,6 +61,7 @@ impl ShExParser<'_> {
                     schema.add_shape(shape_label, shape_expr, is_abstract);
                 },
                 ShExStatement::StartActions { actions } => {
+                    let actions = actions.deref_iri(schema.base().as_ref(), schema.prefixmap().as_ref())?;
                     schema = schema.with_start_actions(Some(actions));
                 },
             }
@@ -65,6 +69,14 @@ impl ShExParser<'_> {
         Ok(schema)
     }
 
+    /// Resolves the IRI of a directive with the base that is in force
+    fn resolve_base(schema: &Schema, iri: IriS) -> Result<IriS> {
+        match schema.base() {
+            None => Ok(iri),
+            Some(base) => Ok(base.resolve(iri)?),
+        }
+    }
+
     pub fn parse_buf(path: &Path, base: Option<IriS>) -> Result<Schema> {
         let source_iri = path.try_into().map_err(|e| ParseError::Custom {
             msg: format!("Cannot convert path to IRI: {e}"),
-- 
2.43.0

