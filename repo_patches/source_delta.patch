From 7a011cda41683172a23d3d7d4d05718d1f5beed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 01/43] fix: cubic interactions skip by the position of the
 second feature, not the first

---
 reductionml-core/src/weights.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/weights.rs b/reductionml-core/src/weights.rs
index ed44568..46f0d18 100644
--- a/reductionml-core/src/weights.rs
+++ b/reductionml-core/src/weights.rs
@@ -64,12 +64,14 @@ macro_rules! generate_foreach_feature_func {
                         let halfhash1 =
                             (FNV_PRIME as u64).wrapping_mul(u32::from(feat1.0) as u64) as u32;
                         if let Some(ns2) = features.get_namespace(*ns2) {
-                            for feat2 in ns2.iter().skip(if same_ns { i } else { 0 }) {
+                            for (j, feat2) in
+                                ns2.iter().enumerate().skip(if same_ns { i } else { 0 })
+                            {
                                 let halfhash2 = (FNV_PRIME as u64)
                                     .wrapping_mul((halfhash1 ^ u32::from(feat2.0)) as u64)
                                     as u32;
                                 if let Some(ns3) = features.get_namespace(*ns3) {
-                                    for feat3 in ns3.iter().skip(if same_ns2 { i } else { 0 }) {
+                                    for feat3 in ns3.iter().skip(if same_ns2 { j } else { 0 }) {
                                         let idx = FeatureHash::from(halfhash2 ^ u32::from(feat3.0))
                                             .mask(masker);
                                         let model_weight =
-- 
2.43.0


From dff4db258307a33e23bd3a70e7d96f1893ff4d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 02/43] fix: SparseFeaturesNamespace::reserve must not
 underflow on recycled objects

---
 reductionml-core/src/sparse_namespaced_features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index d9490b4..7201a30 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -130,9 +130,9 @@ impl SparseFeaturesNamespace {
 
     pub fn reserve(&mut self, size: usize) {
         self.feature_indices
-            .reserve_exact(size - self.feature_indices.capacity());
+            .reserve_exact(size.saturating_sub(self.feature_indices.len()));
         self.feature_values
-            .reserve(size - self.feature_values.capacity());
+            .reserve(size.saturating_sub(self.feature_values.len()));
     }
 
     pub fn add_feature(&mut self, feature_index: FeatureIndex, feature_value: f32) {
-- 
2.43.0


From 45f995f8c9d35b7cb4f697a2ad6cd8fdac07f309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 03/43] fix: namespaces() must not yield inactive namespaces of
 recycled features

---
 reductionml-core/src/sparse_namespaced_features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index 7201a30..e7acf2a 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -19,11 +19,11 @@ pub struct NamespaceIterator<'a> {
     values: std::slice::Iter<'a, f32>,
 }
 
-// TODO this should be skipping inactive namespaces.
 impl<'a> Iterator for NamespacesIterator<'a> {
     type Item = (Namespace, NamespaceIterator<'a>);
     fn next(&mut self) -> Option<Self::Item> {
-        self.namespaces.next().map(|(namespace_feats, namespace)| {
+        let mut active = self.namespaces.by_ref().filter(|(_, ns)| ns.is_active());
+        active.next().map(|(namespace_feats, namespace)| {
             (
                 *namespace_feats,
                 NamespaceIterator {
-- 
2.43.0


From d1853119428380a3a6142ea2381091b895038a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 04/43] fix: an active namespace without features is no
 difference between features

---
 reductionml-core/src/sparse_namespaced_features.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index e7acf2a..34fdff8 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -221,14 +221,16 @@ impl AbsDiffEq for SparseFeatures {
         let left_ns: BTreeSet<Namespace> = self
             .namespaces
             .iter()
-            .filter_map(|(ns, ns_vals)| if ns_vals.is_active() { Some(ns) } else { None })
+            .filter(|(_, ns_vals)| ns_vals.is_active() && ns_vals.size() > 0)
+            .map(|(ns, _)| ns)
             .cloned()
             .collect();
 
         let right_ns = other
             .namespaces
             .iter()
-            .filter_map(|(ns, ns_vals)| if ns_vals.is_active() { Some(ns) } else { None })
+            .filter(|(_, ns_vals)| ns_vals.is_active() && ns_vals.size() > 0)
+            .map(|(ns, _)| ns)
             .cloned()
             .collect();
         if left_ns != right_ns {
-- 
2.43.0


From 5890b173700beffcaef1c31faa80cab6c47a96d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 05/43] fix: Debug must not apply the model offset twice in
 predict_then_learn

---
 reductionml-core/src/reductions/debug.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reductionml-core/src/reductions/debug.rs b/reductionml-core/src/reductions/debug.rs
index 32fb02a..5aff94e 100644
--- a/reductionml-core/src/reductions/debug.rs
+++ b/reductionml-core/src/reductions/debug.rs
@@ -196,7 +196,7 @@ impl ReductionImpl for DebugReduction {
 
         let prediction = self
             .next
-            .predict_then_learn(features, label, depth_info, model_offset);
+            .predict_then_learn(features, label, depth_info, 0.into());
         if self.prediction {
             self.print_debug(
                 "predict_then_learn",
-- 
2.43.0


From 296c236922db67d9b3c406110ea610652d7ae8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 06/43] fix: a configured namespace name must denote the
 namespace the parsers produce for it

---
 reductionml-core/src/interactions.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/reductionml-core/src/interactions.rs b/reductionml-core/src/interactions.rs
index c634df8..9474aae 100644
--- a/reductionml-core/src/interactions.rs
+++ b/reductionml-core/src/interactions.rs
@@ -1,7 +1,7 @@
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
 
-use crate::{hash::hash_bytes, sparse_namespaced_features::Namespace};
+use crate::sparse_namespaced_features::Namespace;
 
 #[derive(Serialize, Deserialize, Clone, JsonSchema, Debug)]
 pub enum NamespaceDef {
@@ -15,10 +15,7 @@ pub type HashedInteraction = Vec<Namespace>;
 impl NamespaceDef {
     pub fn to_namespace(&self, hash_seed: u32) -> Namespace {
         match self {
-            NamespaceDef::Name(name) => {
-                let namespace_hash = hash_bytes(name.as_bytes(), hash_seed);
-                Namespace::Named(namespace_hash.into())
-            }
+            NamespaceDef::Name(name) => Namespace::from_name(name, hash_seed),
             NamespaceDef::Default => Namespace::Default,
         }
     }
-- 
2.43.0


From 79729353561bfedfcd03e430562062b4d5e56f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 07/43] fix: inverse hash table must hash the default namespace
 like the parsers

---
 reductionml-core/src/inverse_hash_table.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/inverse_hash_table.rs b/reductionml-core/src/inverse_hash_table.rs
index eda9277..3571d5a 100644
--- a/reductionml-core/src/inverse_hash_table.rs
+++ b/reductionml-core/src/inverse_hash_table.rs
@@ -3,6 +3,7 @@ use serde::{Deserialize, Serialize};
 use crate::{
     hash::{hash_bytes, FNV_PRIME},
     parsers::ParsedFeature,
+    sparse_namespaced_features::Namespace,
     FeatureHash, FeatureIndex,
 };
 
@@ -34,7 +35,7 @@ impl Feature {
     pub fn hash(&self, hash_seed: u32) -> FeatureHash {
         match &self {
             Feature::Simple { namespace, name } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 hash_bytes(name.as_bytes(), namespace_hash).into()
             }
             Feature::SimpleWithStringValue {
@@ -42,12 +43,12 @@ impl Feature {
                 name,
                 value,
             } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 let name_key_hash = hash_bytes(name.as_bytes(), namespace_hash);
                 hash_bytes(value.as_bytes(), name_key_hash).into()
             }
             Feature::Anonymous { namespace, offset } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 (namespace_hash + offset).into()
             }
             // In a very cool property hashing of the interacted feature does not need to take into account bit masking until the very end
-- 
2.43.0


From 26722b7fabde04f495bd9a7553324b15843799d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 08/43] fix: anonymous feature hashes wrap instead of
 overflowing

---
 reductionml-core/src/inverse_hash_table.rs  | 2 +-
 reductionml-core/src/parsers.rs             | 2 +-
 reductionml-core/src/parsers/json_parser.rs | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/inverse_hash_table.rs b/reductionml-core/src/inverse_hash_table.rs
index 3571d5a..57559c3 100644
--- a/reductionml-core/src/inverse_hash_table.rs
+++ b/reductionml-core/src/inverse_hash_table.rs
@@ -49,7 +49,7 @@ impl Feature {
             }
             Feature::Anonymous { namespace, offset } => {
                 let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
-                (namespace_hash + offset).into()
+                namespace_hash.wrapping_add(*offset).into()
             }
             // In a very cool property hashing of the interacted feature does not need to take into account bit masking until the very end
             // In fact, the produced result is idenitical if interim values are masked or just the final value.
diff --git a/reductionml-core/src/parsers.rs b/reductionml-core/src/parsers.rs
index 9850247..e8f55a8 100644
--- a/reductionml-core/src/parsers.rs
+++ b/reductionml-core/src/parsers.rs
@@ -26,7 +26,7 @@ impl<'a> ParsedFeature<'a> {
                 let name_key_hash = hash_bytes(name.as_bytes(), *namespace_hash);
                 FeatureHash::from(hash_bytes(value.as_bytes(), name_key_hash))
             }
-            ParsedFeature::Anonymous { offset } => (*namespace_hash + offset).into(),
+            ParsedFeature::Anonymous { offset } => namespace_hash.wrapping_add(*offset).into(),
         }
     }
 }
diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index b11fb4d..8f0bc85 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -28,8 +28,9 @@ pub fn to_features(
                     Value::Str(_) => todo!(),
                     Value::Array(ar) => match ar.first() {
                         Some(Value::Number(_)) => {
-                            let it = (u32::from(ns_hash)..(u32::from(ns_hash) + ar.len() as u32))
-                                .map(|x| FeatureHash::from(x).mask(mask));
+                            let it = (0..ar.len() as u32).map(|x| {
+                                FeatureHash::from(u32::from(ns_hash).wrapping_add(x)).mask(mask)
+                            });
                             ns.add_features_with_iter(
                                 it,
                                 ar.iter().map(|x| {
-- 
2.43.0


From 288a18f6c18306856317d7dd4fa2f068c57393f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 09/43] fix: JSON parser returns an error for malformed input
 instead of panicking

---
 reductionml-core/src/parsers/json_parser.rs | 75 ++++++++++++---------
 1 file changed, 42 insertions(+), 33 deletions(-)

diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index 8f0bc85..1b50c04 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -1,6 +1,6 @@
-use core::{f32, panic};
+use core::f32;
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 
 use crate::object_pool::Pool;
 use crate::parsers::ParsedFeature;
@@ -17,7 +17,7 @@ pub fn to_features(
     mut output: SparseFeatures,
     hash_seed: u32,
     num_bits: u8,
-) -> SparseFeatures {
+) -> Result<SparseFeatures> {
     match val {
         Value::Object(obj) => {
             for (ns_name, value) in obj {
@@ -25,32 +25,31 @@ pub fn to_features(
                 let ns_hash = ns.namespace().hash();
                 let mask = FeatureMask::from_num_bits(num_bits);
                 match value {
-                    Value::Str(_) => todo!(),
                     Value::Array(ar) => match ar.first() {
                         Some(Value::Number(_)) => {
                             let it = (0..ar.len() as u32).map(|x| {
                                 FeatureHash::from(u32::from(ns_hash).wrapping_add(x)).mask(mask)
                             });
-                            ns.add_features_with_iter(
-                                it,
-                                ar.iter().map(|x| {
-                                    x.as_f64().expect("Arrays must contain the same type") as f32
-                                }),
-                            );
+                            let values = ar
+                                .iter()
+                                .map(|x| x.as_f64().map(|x| x as f32))
+                                .collect::<Option<Vec<f32>>>()
+                                .ok_or_else(|| invalid("Arrays must contain the same type"))?;
+                            ns.add_features_with_iter(it, values.into_iter());
                         }
                         Some(Value::Str(_)) => {
                             ns.reserve(ar.len());
                             for string in ar {
                                 let feat = ParsedFeature::Simple {
-                                    name: string
-                                        .as_str()
-                                        .expect("Arrays must contain the same type"),
+                                    name: string.as_str().ok_or_else(|| {
+                                        invalid("Arrays must contain the same type")
+                                    })?,
                                 };
                                 ns.add_feature(feat.hash(ns_hash).mask(mask), 1.0);
                             }
                         }
-                        Some(_) => panic!("Not a number or string"),
-                        None => todo!(),
+                        Some(_) => return Err(invalid("Not a number or string")),
+                        None => (),
                     },
 
                     Value::Object(contents) => {
@@ -61,7 +60,8 @@ pub fn to_features(
                                         ParsedFeature::Simple { name: key };
                                     ns.add_feature(
                                         feat.hash(ns_hash).mask(mask),
-                                        value.as_f64().unwrap() as f32,
+                                        value.as_f64().ok_or_else(|| invalid("Invalid number"))?
+                                            as f32,
                                     );
                                 }
                                 Value::Str(value) => {
@@ -75,17 +75,21 @@ pub fn to_features(
                                         ns.add_feature(feat.hash(ns_hash).mask(mask), 1.0);
                                     }
                                 }
-                                _ => todo!(),
+                                _ => return Err(invalid("Unsupported feature value")),
                             }
                         }
                     }
-                    _ => todo!(),
+                    _ => return Err(invalid("Unsupported namespace value")),
                 }
             }
         }
-        _ => panic!("Not an object"),
+        _ => return Err(invalid("Not an object")),
     }
-    output
+    Ok(output)
+}
+
+fn invalid(msg: &str) -> Error {
+    Error::ParserError(msg.to_owned())
 }
 
 #[derive(Default)]
@@ -123,30 +127,34 @@ impl<'a, 'b> JsonParser {
     fn parse_features(&self, json_input: &'a Value) -> Result<Features<'b>> {
         match self.features_type {
             FeaturesType::SparseSimple => match json_input.get("features") {
-                Value::Null => panic!("No features found"),
+                Value::Null => Err(invalid("No features found")),
                 val => Ok(
-                    to_features(val, self.pool.get_object(), self.hash_seed, self.num_bits).into(),
+                    to_features(val, self.pool.get_object(), self.hash_seed, self.num_bits)?.into(),
                 ),
             },
             FeaturesType::SparseCBAdf => {
                 let shared = match json_input.get("shared") {
                     Value::Null => None,
                     val => {
-                        let feats =
-                            to_features(val, self.pool.get_object(), self.hash_seed, self.num_bits);
+                        let feats = to_features(
+                            val,
+                            self.pool.get_object(),
+                            self.hash_seed,
+                            self.num_bits,
+                        )?;
                         Some(feats)
                     }
                 };
 
                 let actions = match json_input.get("actions") {
-                    Value::Null => panic!("No actions found"),
+                    Value::Null => return Err(invalid("No actions found")),
                     Value::Array(val) => val
                         .iter()
                         .map(|x| {
                             to_features(x, self.pool.get_object(), self.hash_seed, self.num_bits)
                         })
-                        .collect(),
-                    _ => panic!("Actions must be an array"),
+                        .collect::<Result<Vec<_>>>()?,
+                    _ => return Err(invalid("Actions must be an array")),
                 };
 
                 Ok(CBAdfFeatures { shared, actions }.into())
@@ -160,20 +168,21 @@ impl JsonParser {
         match self.label_type {
             LabelType::Simple => Ok(match json_input.get("label") {
                 Value::Null => None,
-                Value::Number(val) => Some(SimpleLabel::from(val.as_f64().unwrap() as f32)),
+                Value::Number(val) => Some(SimpleLabel::from(
+                    val.as_f64().ok_or_else(|| invalid("Invalid number"))? as f32,
+                )),
                 val => {
                     let l: SimpleLabel =
-                        serde_json::from_value(serde_json::Value::from(val.clone())).unwrap();
+                        serde_json::from_value(serde_json::Value::from(val.clone()))?;
                     Some(l)
                 }
             }
             .map(Into::into)),
-            LabelType::Binary => todo!(),
+            LabelType::Binary => Err(invalid("Binary labels are not supported")),
             LabelType::CB => Ok(match json_input.get("label") {
                 Value::Null => None,
                 val => {
-                    let l: CBLabel =
-                        serde_json::from_value(serde_json::Value::from(val.clone())).unwrap();
+                    let l: CBLabel = serde_json::from_value(serde_json::Value::from(val.clone()))?;
                     Some(l.into())
                 }
             }),
@@ -196,7 +205,7 @@ impl TextModeParser for JsonParser {
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
-        let json: Value = serde_json::from_str(chunk).expect("JSON was not well-formatted");
+        let json: Value = serde_json::from_str(chunk)?;
         let features = self.parse_features(&json)?;
         let label = self.parse_label(&json)?;
         Ok((features, label))
-- 
2.43.0


From 1c680f3d93f0cdfa7b9007ddcf2f8283a2031b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 10/43] fix: DsJson parser returns an error for malformed input
 instead of panicking

---
 reductionml-core/src/parsers/dsjson_parser.rs | 71 +++++++++++--------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/reductionml-core/src/parsers/dsjson_parser.rs b/reductionml-core/src/parsers/dsjson_parser.rs
index 90fe366..38cd143 100644
--- a/reductionml-core/src/parsers/dsjson_parser.rs
+++ b/reductionml-core/src/parsers/dsjson_parser.rs
@@ -2,7 +2,7 @@ use core::f32;
 
 use serde_json_borrow::Value;
 
-use crate::error::Result;
+use crate::error::{Error, Result};
 
 use crate::object_pool::Pool;
 use crate::parsers::ParsedFeature;
@@ -59,19 +59,19 @@ impl DsJsonParser {
         object_key: &str,
         json_value: &Value,
         namespace_stack: &mut Vec<Namespace>,
-    ) {
+    ) -> Result<()> {
         // All underscore prefixed keys are ignored.
         if object_key.starts_with('_') {
-            return;
+            return Ok(());
         }
 
         // skip everything with _
         match json_value {
-            Value::Null => panic!("Null is not supported"),
+            Value::Null => return Err(invalid("Null is not supported")),
             Value::Bool(true) => {
                 let current_ns = *namespace_stack
                     .last()
-                    .expect("namespace stack should not be empty here");
+                    .ok_or_else(|| invalid("A value must be inside of a namespace"))?;
                 let current_ns_hash = current_ns.hash();
                 let current_feats = features.get_or_create_namespace(current_ns);
                 current_feats.add_feature(
@@ -85,20 +85,20 @@ impl DsJsonParser {
             Value::Number(value) => {
                 let current_ns = *namespace_stack
                     .last()
-                    .expect("namespace stack should not be empty here");
+                    .ok_or_else(|| invalid("A value must be inside of a namespace"))?;
                 let current_ns_hash = current_ns.hash();
                 let current_feats = features.get_or_create_namespace(current_ns);
                 current_feats.add_feature(
                     ParsedFeature::Simple { name: object_key }
                         .hash(current_ns_hash)
                         .mask(FeatureMask::from_num_bits(self.num_bits)),
-                    value.as_f64().unwrap() as f32,
+                    value.as_f64().ok_or_else(|| invalid("Invalid number"))? as f32,
                 );
             }
             Value::Str(value) => {
                 let current_ns = namespace_stack
                     .last()
-                    .expect("namespace stack should not be empty here");
+                    .ok_or_else(|| invalid("A value must be inside of a namespace"))?;
                 let current_ns_hash = current_ns.hash();
                 let current_feats = features.get_or_create_namespace(*current_ns);
                 current_feats.add_feature(
@@ -115,7 +115,7 @@ impl DsJsonParser {
                 namespace_stack.push(Namespace::from_name(object_key, self.hash_seed));
                 let current_ns = *namespace_stack
                     .last()
-                    .expect("namespace stack should not be empty here");
+                    .ok_or_else(|| invalid("A value must be inside of a namespace"))?;
                 let current_ns_hash = current_ns.hash();
                 for (anon_idx, v) in value.iter().enumerate() {
                     match v {
@@ -129,33 +129,40 @@ impl DsJsonParser {
                                 }
                                 .hash(current_ns_hash)
                                 .mask(FeatureMask::from_num_bits(self.num_bits)),
-                                value.as_f64().unwrap() as f32,
+                                value.as_f64().ok_or_else(|| invalid("Invalid number"))? as f32,
                             );
                         }
                         Value::Object(_) => {
-                            self.handle_features(features, object_key, v, namespace_stack);
+                            self.handle_features(features, object_key, v, namespace_stack)?;
                         }
                         // Just ignore null and do nothing
                         Value::Null => (),
-                        _ => panic!(
-                            "Array of non-number or object is not supported key:{} value:{:?}",
-                            object_key, v
-                        ),
+                        _ => {
+                            return Err(Error::ParserError(format!(
+                                "Array of non-number or object is not supported key:{} value:{:?}",
+                                object_key, v
+                            )))
+                        }
                     }
                 }
-                namespace_stack.pop().unwrap();
+                namespace_stack.pop();
             }
             Value::Object(value) => {
                 namespace_stack.push(Namespace::from_name(object_key, self.hash_seed));
                 for (key, v) in value {
-                    self.handle_features(features, key, v, namespace_stack);
+                    self.handle_features(features, key, v, namespace_stack)?;
                 }
-                namespace_stack.pop().unwrap();
+                namespace_stack.pop();
             }
         }
+        Ok(())
     }
 }
 
+fn invalid(msg: &str) -> Error {
+    Error::ParserError(msg.to_owned())
+}
+
 impl TextModeParser for DsJsonParser {
     fn get_next_chunk(
         &self,
@@ -171,20 +178,22 @@ impl TextModeParser for DsJsonParser {
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
-        let json: Value = serde_json::from_str(chunk).expect("JSON was not well-formatted");
+        let json: Value = serde_json::from_str(chunk)?;
 
         let mut namespace_stack = Vec::new();
 
         let mut shared_ex = self.pool.get_object();
-        self.handle_features(&mut shared_ex, " ", json.get("c"), &mut namespace_stack);
-        assert!(namespace_stack.is_empty());
+        self.handle_features(&mut shared_ex, " ", json.get("c"), &mut namespace_stack)?;
 
         let mut actions = Vec::new();
-        for item in json.get("c").get("_multi").iter_array().unwrap() {
+        let multi = json.get("c").get("_multi");
+        for item in multi
+            .iter_array()
+            .ok_or_else(|| invalid("_multi must be an array"))?
+        {
             let mut action = self.pool.get_object();
-            self.handle_features(&mut action, " ", item, &mut namespace_stack);
+            self.handle_features(&mut action, " ", item, &mut namespace_stack)?;
             actions.push(action);
-            assert!(namespace_stack.is_empty());
         }
 
         let label = match (
@@ -193,12 +202,18 @@ impl TextModeParser for DsJsonParser {
             json.get("_labelIndex"),
         ) {
             (Value::Number(cost), Value::Number(prob), Value::Number(action)) => Some(CBLabel {
-                action: action.as_u64().unwrap() as usize,
-                cost: cost.as_f64().unwrap() as f32,
-                probability: prob.as_f64().unwrap() as f32,
+                action: action
+                    .as_u64()
+                    .ok_or_else(|| invalid("Invalid action index"))?
+                    as usize,
+                cost: cost.as_f64().ok_or_else(|| invalid("Invalid cost"))? as f32,
+                probability: prob
+                    .as_f64()
+                    .ok_or_else(|| invalid("Invalid probability"))?
+                    as f32,
             }),
             (Value::Null, Value::Null, Value::Null) => None,
-            _ => panic!("Invalid label, all 3 or none must be present"),
+            _ => return Err(invalid("Invalid label, all 3 or none must be present")),
         };
 
         Ok((
-- 
2.43.0


From b8ed60dd75a2afb32b295ba2ddf94a3a8990acb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:33 +0000
Subject: [PATCH 11/43] fix: VW text parser returns an error for malformed
 input instead of panicking

---
 .../src/parsers/vw_text_parser.rs             | 85 +++++++++++--------
 1 file changed, 49 insertions(+), 36 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index fbe7fc2..1e3037b 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -50,17 +50,17 @@ fn finalize_parsed_result_singleline<'a>(
     parsed: TextParseResult,
     _num_bits: u8,
     dest: SparseFeatures,
-) -> (Features<'a>, Option<Label>) {
+) -> Result<(Features<'a>, Option<Label>)> {
     let hashed_sparse_features = Features::SparseSimple(dest);
     match parsed.label {
         // TODO fix
-        Some(TextLabel::Simple(x, weight)) => (
+        Some(TextLabel::Simple(x, weight)) => Ok((
             hashed_sparse_features,
             Some(Label::Simple(SimpleLabel::new(x, weight.unwrap_or(1.0)))),
-        ),
+        )),
         // TODO binary
-        Some(_) => todo!(),
-        None => (hashed_sparse_features, None),
+        Some(_) => Err(invalid("Label type is not supported for these features")),
+        None => Ok((hashed_sparse_features, None)),
     }
 }
 
@@ -78,20 +78,20 @@ where
     match (expected_label, expected_features) {
         (LabelType::CB, FeaturesType::SparseCBAdf) => {
             // First thing to do is to determine if there is a shared example.
-            let mut txt_labels_iter = parsed.map(|x| x.label.unwrap()).peekable();
+            let mut txt_labels_iter = parsed.filter_map(|x| x.label).peekable();
             // let mut feats_iter = feats.into_iter();
             let first_label: &CBTextLabel = txt_labels_iter
                 .peek()
                 .ok_or(Error::InvalidArgument("".to_owned()))?
                 .as_inner()
-                .expect("Label should be CB");
+                .ok_or_else(|| invalid("Label should be CB"))?;
             let first_is_shared = first_label.shared;
 
             // TODO assert not more than 1 is shared.
             let shared_ex = if first_is_shared {
                 // Consume shared token
                 txt_labels_iter.next();
-                Some(feats_iter.next().unwrap())
+                feats_iter.next()
             } else {
                 None
             };
@@ -99,7 +99,9 @@ where
             // Find the labelled action.
             let mut label: Option<CBLabel> = None;
             for (counter, action_label) in txt_labels_iter.enumerate() {
-                let lbl: &CBTextLabel = action_label.as_inner().expect("Label should be CB");
+                let lbl: &CBTextLabel = action_label
+                    .as_inner()
+                    .ok_or_else(|| invalid("Label should be CB"))?;
                 if let Some((_a, c, p)) = lbl.acp {
                     if label.is_some() {
                         return Err(Error::InvalidArgument(
@@ -132,23 +134,29 @@ struct TextParseResult<'a> {
     label: Option<TextLabel>,
 }
 
+fn invalid(msg: &str) -> Error {
+    Error::ParserError(msg.to_owned())
+}
+
+fn parse_float(text: &str) -> Result<f32> {
+    fast_float::parse(text)
+        .map_err(|err| Error::ParserError(format!("Failed to parse number '{text}': {err}")))
+}
+
 fn parse_label(tokens: &[&str], label_type: LabelType) -> Result<Option<TextLabel>> {
     match label_type {
         LabelType::Simple => match tokens.len() {
             0 => Ok(None),
-            1 => Ok(Some(TextLabel::Simple(
-                fast_float::parse(tokens[0]).unwrap(),
-                None,
-            ))),
+            1 => Ok(Some(TextLabel::Simple(parse_float(tokens[0])?, None))),
             2 => Ok(Some(TextLabel::Simple(
-                fast_float::parse(tokens[0]).unwrap(),
-                Some(fast_float::parse(tokens[1]).unwrap()),
+                parse_float(tokens[0])?,
+                Some(parse_float(tokens[1])?),
             ))),
             // Initial not currently supported...
-            3 => todo!(),
-            _ => todo!(),
+            3 => Err(invalid("Initial in a simple label is not supported")),
+            _ => Err(invalid("Too many tokens in simple label")),
         },
-        LabelType::Binary => todo!(),
+        LabelType::Binary => Err(invalid("Binary labels are not supported")),
         LabelType::CB => match tokens.iter().next() {
             None => Ok(Some(TextLabel::CB(CBTextLabel {
                 shared: false,
@@ -160,9 +168,16 @@ fn parse_label(tokens: &[&str], label_type: LabelType) -> Result<Option<TextLabe
             }))),
             Some(value) => {
                 let mut tokens = value.split(':');
-                let action = tokens.next().unwrap().parse().unwrap();
-                let cost = fast_float::parse(tokens.next().unwrap()).unwrap();
-                let probability = fast_float::parse(tokens.next().unwrap()).unwrap();
+                let mut next = || {
+                    tokens
+                        .next()
+                        .ok_or_else(|| invalid("CB label must be action:cost:probability"))
+                };
+                let action = next()?
+                    .parse()
+                    .map_err(|_| invalid("Invalid action in CB label"))?;
+                let cost = parse_float(next()?)?;
+                let probability = parse_float(next()?)?;
 
                 // TODO: check that there are no more tokens
 
@@ -238,15 +253,11 @@ fn parse_namespace_inline(
         // Anonymous namespace
         (" ", 1.0)
     } else {
-        let namespace_info_token = tokens.next().unwrap();
-        let mut namespace_info_tokens = namespace_info_token.split(':');
-        let name = namespace_info_tokens.next().unwrap();
-        let value = match namespace_info_tokens.next() {
-            Some(value) => fast_float::parse(value).unwrap(),
-            None => 1.0,
-        };
-
-        (name, value)
+        match tokens.next() {
+            Some(namespace_info_token) => parse_namespace_info_token(namespace_info_token)?,
+            // Anonymous namespace without any features
+            None => (" ", 1.0),
+        }
     };
 
     let namespace_def = Namespace::from_name(namespace_name, hash_seed);
@@ -287,7 +298,13 @@ fn parse_namespace_info(input: &str) -> Result<(&str, (ParsedNamespaceInfo, f32)
     if first_char_is_space {
         Ok((&input[1..], (ParsedNamespaceInfo::Default, 1.0)))
     } else {
-        let input_until_first_space = input.find(' ').unwrap();
+        let input = input.trim_ascii_start();
+        if input.is_empty() {
+            return Ok((input, (ParsedNamespaceInfo::Default, 1.0)));
+        }
+        let input_until_first_space = input
+            .find(|c: char| c.is_ascii_whitespace())
+            .unwrap_or(input.len());
         let namespace_info_token = &input[..input_until_first_space];
         let (ns_name, ns_value) = parse_namespace_info_token(namespace_info_token)?;
         Ok((
@@ -485,11 +502,7 @@ impl TextModeParser for VwTextParser {
                 self.hash_seed,
                 self.num_bits,
             )?;
-            Ok(finalize_parsed_result_singleline(
-                result,
-                self.num_bits,
-                dest,
-            ))
+            finalize_parsed_result_singleline(result, self.num_bits, dest)
         }
     }
 
-- 
2.43.0


From fa3d5483a4bf9f6dfbe3b458c4fd43eb0e4da72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 12/43] fix: train reports a failure to write the predictions
 file instead of exiting successfully

---
 reductionml-cli/src/train.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 8107083..b9db60c 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -383,6 +383,11 @@ impl Command for TrainCommand {
             }
         }
 
+        if let Some(file) = predictions_file.as_mut() {
+            file.flush()
+                .with_context(|| "Failed to write predictions file")?;
+        }
+
         if !quiet {
             manager.add_results(metrics.iter().map(|x| x.get_value()).collect());
             manager.render_table_to_stdout();
-- 
2.43.0


From 83447093d2f88b295a51b9effb1c525f0f35e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 13/43] fix: train stops with an error on bad input instead of
 panicking or hanging

---
 reductionml-cli/src/train.rs | 51 ++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index b9db60c..56a8569 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -307,8 +307,8 @@ impl Command for TrainCommand {
         match num_parse_threads {
             0 => {
                 let mut buffer = String::new();
-                while let Some(chunk) = parser.get_next_chunk(&mut input_file, buffer).unwrap() {
-                    let (features, label) = parser.parse_chunk(&chunk).unwrap();
+                while let Some(chunk) = parser.get_next_chunk(&mut input_file, buffer)? {
+                    let (features, label) = parser.parse_chunk(&chunk)?;
                     buffer = chunk;
                     process_example(
                         label,
@@ -319,7 +319,7 @@ impl Command for TrainCommand {
                         &mut manager,
                         quiet,
                         &pool,
-                    );
+                    )?;
                 }
             }
             n => {
@@ -327,22 +327,24 @@ impl Command for TrainCommand {
                 let (parse_sender, parse_receiver) = flume::bounded(args.queue_size);
                 let (learn_sender, learn_receiver) = flume::bounded(args.queue_size);
                 std::thread::scope(|s| -> Result<()> {
+                    // Dropped as soon as learning stops, so that the input thread can't block forever.
+                    let learn_receiver = learn_receiver;
                     // Input thread
-                    s.spawn(|| {
-                        loop {
-                            if let Some(chunk) = parser
-                                .get_next_chunk(&mut input_file, string_pool.get_object())
-                                .unwrap()
+                    let input_thread = s.spawn(|| -> Result<()> {
+                        // Owned here so that the receivers see the end of the input.
+                        let (parse_sender, learn_sender) = (parse_sender, learn_sender);
+                        while let Some(chunk) =
+                            parser.get_next_chunk(&mut input_file, string_pool.get_object())?
+                        {
+                            let res = Arc::new(ParseResult::new(chunk));
+                            if parse_sender.send(res.clone()).is_err()
+                                || learn_sender.send(res).is_err()
                             {
-                                let res = Arc::new(ParseResult::new(chunk));
-                                parse_sender.send(res.clone()).unwrap();
-                                learn_sender.send(res).unwrap();
-                            } else {
+                                // Learning stopped early and reports why.
                                 break;
                             }
                         }
-                        std::mem::drop(parse_sender);
-                        std::mem::drop(learn_sender);
+                        Ok(())
                     });
 
                     for _ in 0..n {
@@ -363,7 +365,7 @@ impl Command for TrainCommand {
                         let res = learn_receiver.recv();
                         match res {
                             Ok(result) => {
-                                let (features, label) = result.await_result().unwrap();
+                                let (features, label) = result.await_result()?;
                                 process_example(
                                     label,
                                     &mut workspace,
@@ -373,12 +375,15 @@ impl Command for TrainCommand {
                                     &mut manager,
                                     quiet,
                                     &pool,
-                                );
+                                )?;
                             }
                             Err(_) => break,
                         }
                     }
-                    Ok(())
+                    match input_thread.join() {
+                        Ok(res) => res,
+                        Err(_) => Err(anyhow::anyhow!("Input thread panicked")),
+                    }
                 })?;
             }
         }
@@ -394,8 +399,9 @@ impl Command for TrainCommand {
         }
 
         if let Some(file) = &args.output_model {
-            let data = workspace.serialize_model().unwrap();
-            std::fs::write(file, data).unwrap();
+            let data = workspace.serialize_model()?;
+            std::fs::write(file, data)
+                .with_context(|| format!("Failed to write model file: {}", file))?;
         }
 
         Ok(())
@@ -414,12 +420,12 @@ fn process_example(
     pool: &std::sync::Arc<
         object_pool::Pool<reductionml_core::sparse_namespaced_features::SparseFeatures>,
     >,
-) {
-    let label = label.unwrap();
+) -> Result<()> {
+    let label = label.context("Training requires every example to have a label")?;
     if !quiet || predictions_file.is_some() {
         let prediction = workspace.predict_then_learn(&mut features, &label);
         if let Some(file) = predictions_file.as_mut() {
-            writeln!(file, "{}", serde_json::to_string(&prediction).unwrap()).unwrap();
+            writeln!(file, "{}", serde_json::to_string(&prediction)?)?;
         }
 
         for metric in metrics.iter_mut() {
@@ -437,4 +443,5 @@ fn process_example(
 
     // Put feature objects back into the pool for reuse.
     features.clear_and_return_object(pool.as_ref());
+    Ok(())
 }
-- 
2.43.0


From 3144c36f681cff7fb365664979058ba72b73cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 14/43] fix: train reports an unknown metric instead of
 panicking

---
 reductionml-cli/src/train.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 56a8569..de85043 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -289,9 +289,12 @@ impl Command for TrainCommand {
 
         let mut metrics = vec![reductionml_core::metrics::get_metric("example_number").unwrap()];
         if args.metrics.is_some() {
-            args.metrics.as_ref().unwrap().iter().for_each(|name| {
-                metrics.push(reductionml_core::metrics::get_metric(name).unwrap())
-            });
+            for name in args.metrics.as_ref().unwrap() {
+                metrics.push(
+                    reductionml_core::metrics::get_metric(name)
+                        .with_context(|| format!("Unknown metric: {}", name))?,
+                );
+            }
         };
 
         let mut manager = TrainResultManager::new(
-- 
2.43.0


From 4356f57918a49674218b2d920e7e5fb111b0e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 15/43] fix: import-model and export-model report errors
 instead of panicking

---
 reductionml-cli/src/export_model.rs | 11 ++++++-----
 reductionml-cli/src/import_model.rs | 14 ++++++++------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/reductionml-cli/src/export_model.rs b/reductionml-cli/src/export_model.rs
index eb146e4..db9d852 100644
--- a/reductionml-cli/src/export_model.rs
+++ b/reductionml-cli/src/export_model.rs
@@ -4,7 +4,7 @@ use reductionml_core::workspace::Workspace;
 
 use crate::command::Command;
 
-use anyhow::Result;
+use anyhow::{Context, Result};
 
 // TODO: add warning that weights are not printed in any nice way at the moment
 #[derive(Args)]
@@ -23,10 +23,11 @@ impl Command for ExportModelCommand {
             "{} Exporting a model to JSON is not a supported feature. Use at your own risk.",
             "Warning:".yellow()
         );
-        let input_model_data = std::fs::read(&args.input_model).unwrap();
-        let workspace = Workspace::create_from_model(&input_model_data).unwrap();
-        let json = workspace.serialize_to_json().unwrap();
-        println!("{}", serde_json::to_string_pretty(&json).unwrap());
+        let input_model_data = std::fs::read(&args.input_model)
+            .with_context(|| format!("Failed to read model file: {}", args.input_model))?;
+        let workspace = Workspace::create_from_model(&input_model_data)?;
+        let json = workspace.serialize_to_json()?;
+        println!("{}", serde_json::to_string_pretty(&json)?);
         Ok(())
     }
 }
diff --git a/reductionml-cli/src/import_model.rs b/reductionml-cli/src/import_model.rs
index 7f5a94a..1afb54e 100644
--- a/reductionml-cli/src/import_model.rs
+++ b/reductionml-cli/src/import_model.rs
@@ -4,7 +4,7 @@ use reductionml_core::workspace::Workspace;
 
 use crate::command::Command;
 
-use anyhow::Result;
+use anyhow::{Context, Result};
 
 // TODO: add warning that weights are not printed in any nice way at the moment
 #[derive(Args)]
@@ -25,11 +25,13 @@ impl Command for ImportModelCommand {
             "Warning:".yellow()
         );
 
-        let input_data = std::fs::read(&args.input_file).unwrap();
-        let json = serde_json::from_slice(&input_data).unwrap();
-        let workspace = Workspace::deserialize_from_json(&json).unwrap();
-        let data = workspace.serialize_model().unwrap();
-        std::fs::write(&args.output_model, data).unwrap();
+        let input_data = std::fs::read(&args.input_file)
+            .with_context(|| format!("Failed to read model file: {}", args.input_file))?;
+        let json = serde_json::from_slice(&input_data)?;
+        let workspace = Workspace::deserialize_from_json(&json)?;
+        let data = workspace.serialize_model()?;
+        std::fs::write(&args.output_model, data)
+            .with_context(|| format!("Failed to write model file: {}", args.output_model))?;
 
         Ok(())
     }
-- 
2.43.0


From 2fdee83c24fd645e562b180e992fcdc74db52c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:16 +0000
Subject: [PATCH 16/43] fix: a configured interaction that is neither a pair
 nor a triple is an error, not a panic

---
 reductionml-core/src/interactions.rs    | 46 +++++++++----------------
 reductionml-core/src/reductions/coin.rs |  2 +-
 2 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/reductionml-core/src/interactions.rs b/reductionml-core/src/interactions.rs
index 9474aae..c784f36 100644
--- a/reductionml-core/src/interactions.rs
+++ b/reductionml-core/src/interactions.rs
@@ -1,6 +1,7 @@
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
 
+use crate::error::{Error, Result};
 use crate::sparse_namespaced_features::Namespace;
 
 #[derive(Serialize, Deserialize, Clone, JsonSchema, Debug)]
@@ -22,9 +23,6 @@ impl NamespaceDef {
 }
 
 pub fn hash_interaction(interaction: &Interaction, hash_seed: u32) -> HashedInteraction {
-    if interaction.is_empty() || interaction.len() > 3 {
-        panic!("Interaction must be between 1 and 3 namespaces")
-    }
     interaction
         .iter()
         .map(|ns| ns.to_namespace(hash_seed))
@@ -37,32 +35,22 @@ type InteractionTriple = (Namespace, Namespace, Namespace);
 pub fn compile_interactions(
     interactions: &[Interaction],
     hash_seed: u32,
-) -> (Vec<InteractionPair>, Vec<InteractionTriple>) {
-    let pairs: Vec<(Namespace, Namespace)> = interactions
-        .iter()
-        .filter(|interaction| interaction.len() == 2)
-        .map(|interaction| {
-            let hashed_interaction = hash_interaction(interaction, hash_seed);
-            (hashed_interaction[0], hashed_interaction[1])
-        })
-        .collect();
-
-    let triples: Vec<(Namespace, Namespace, Namespace)> = interactions
-        .iter()
-        .filter(|interaction| interaction.len() == 3)
-        .map(|interaction| {
-            let hashed_interaction = hash_interaction(interaction, hash_seed);
-            (
-                hashed_interaction[0],
-                hashed_interaction[1],
-                hashed_interaction[2],
-            )
-        })
-        .collect();
-
-    if pairs.len() + triples.len() != interactions.len() {
-        panic!("Invalid interaction. Only pairs and triples are supported")
+) -> Result<(Vec<InteractionPair>, Vec<InteractionTriple>)> {
+    let mut pairs = Vec::new();
+    let mut triples = Vec::new();
+
+    for interaction in interactions {
+        match hash_interaction(interaction, hash_seed).as_slice() {
+            [one, two] => pairs.push((*one, *two)),
+            [one, two, three] => triples.push((*one, *two, *three)),
+            other => {
+                return Err(Error::InvalidConfiguration(format!(
+                    "Invalid interaction of {} namespaces. Only pairs and triples are supported",
+                    other.len()
+                )))
+            }
+        }
     }
 
-    (pairs, triples)
+    Ok((pairs, triples))
 }
diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index 99d0b65..e868833 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -113,7 +113,7 @@ impl CoinRegressor {
         num_models_above: ModelIndex,
     ) -> Result<CoinRegressor> {
         let (pairs, triples) =
-            compile_interactions(global_config.interactions(), global_config.hash_seed());
+            compile_interactions(global_config.interactions(), global_config.hash_seed())?;
 
         let (min_label, max_label) = match config.loss_function {
             LossFunction::Squared(_) => (0.0, 0.0),
-- 
2.43.0


From 2d8ab95136897ba2b982797fb3eab85443e2a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 17/43] fix: reject a numBits the feature index cannot
 represent

---
 reductionml-core/src/global_config.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/global_config.rs b/reductionml-core/src/global_config.rs
index c03b039..d06f70e 100644
--- a/reductionml-core/src/global_config.rs
+++ b/reductionml-core/src/global_config.rs
@@ -1,6 +1,6 @@
 use derive_builder::Builder;
 use schemars::JsonSchema;
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 use serde_default::DefaultFromSerde;
 
 use crate::interactions::Interaction;
@@ -9,7 +9,10 @@ use crate::interactions::Interaction;
 #[serde(rename_all = "camelCase")]
 #[serde(deny_unknown_fields)]
 pub struct GlobalConfig {
-    #[serde(default = "default_num_bits")]
+    #[serde(
+        default = "default_num_bits",
+        deserialize_with = "deserialize_num_bits"
+    )]
     num_bits: u8,
 
     #[serde(default)]
@@ -26,6 +29,22 @@ fn default_num_bits() -> u8 {
     18
 }
 
+// Feature indices are 32 bit, and the number of weights must itself be representable.
+const MAX_NUM_BITS: u8 = 31;
+
+fn deserialize_num_bits<'de, D>(deserializer: D) -> Result<u8, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let num_bits = u8::deserialize(deserializer)?;
+    if num_bits > MAX_NUM_BITS {
+        return Err(serde::de::Error::custom(format!(
+            "numBits must be at most {MAX_NUM_BITS}, but is {num_bits}"
+        )));
+    }
+    Ok(num_bits)
+}
+
 fn default_true() -> bool {
     true
 }
-- 
2.43.0


From 9dbd66b526a7e9f4e214145b41b50629627bd2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 18/43] fix: reject unknown keys next to typename and config as
 the schema documents

---
 reductionml-core/src/reduction_factory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reductionml-core/src/reduction_factory.rs b/reductionml-core/src/reduction_factory.rs
index c60046d..f74341f 100644
--- a/reductionml-core/src/reduction_factory.rs
+++ b/reductionml-core/src/reduction_factory.rs
@@ -17,6 +17,7 @@ use crate::{
 // This intentionally does not derive JsonSchema
 // Use gen_json_reduction_config_schema instead with schema_with
 #[derive(Clone, Deserialize, Serialize, Debug)]
+#[serde(deny_unknown_fields)]
 #[serde(rename_all = "camelCase")]
 pub struct JsonReductionConfig {
     typename: PascalCaseString,
-- 
2.43.0


From a98ab68b8845201116340442ce59f2d70e2aed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 19/43] fix: ElementwiseInteraction must not panic on examples
 lacking a namespace or on wrapped indices

---
 .../src/reductions/elementwise_interaction.rs | 59 +++++++++++++------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 11f8136..f97ca7c 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -139,8 +139,14 @@ fn elementwise_multiply(
     let composite_base = FeatureHash::from(u32::from(composite_ns.hash())).mask(mask);
 
     let mut dest_iter = SparseFeaturesNamespace::new(composite_ns);
-    let mut ns_one_it = features.get_namespace(one).unwrap().iter();
-    let mut ns_two_it = features.get_namespace(two).unwrap().iter();
+    let mut ns_one_it = features
+        .get_namespace(one)
+        .into_iter()
+        .flat_map(|ns| ns.iter());
+    let mut ns_two_it = features
+        .get_namespace(two)
+        .into_iter()
+        .flat_map(|ns| ns.iter());
     let mut cur_1 = ns_one_it.next();
     let mut cur_2 = ns_two_it.next();
     loop {
@@ -155,13 +161,18 @@ fn elementwise_multiply(
             }
         };
 
-        let idx1 = u32::from(idx1) - u32::from(base_one);
-        let idx2 = u32::from(idx2) - u32::from(base_two);
+        // Masked indices wrap around, so the offset from the base of the namespace does too.
+        let idx1 = u32::from(
+            FeatureHash::from(u32::from(idx1).wrapping_sub(u32::from(base_one))).mask(mask),
+        );
+        let idx2 = u32::from(
+            FeatureHash::from(u32::from(idx2).wrapping_sub(u32::from(base_two))).mask(mask),
+        );
 
-        let dest_index = u32::from(composite_base) + idx1;
+        let dest_index = FeatureHash::from(u32::from(composite_base).wrapping_add(idx1)).mask(mask);
 
         if idx1 == idx2 {
-            dest_iter.add_feature(dest_index.into(), val1 * val2);
+            dest_iter.add_feature(dest_index, val1 * val2);
             cur_1 = ns_one_it.next();
             cur_2 = ns_two_it.next();
         } else if idx1 < idx2 {
@@ -196,15 +207,19 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self
                 .regressor
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            if let Some(ns1) = ns1 {
+                sparse_feats.set_namespace(self.pair.0, ns1);
+            }
+            if let Some(ns2) = ns2 {
+                sparse_feats.set_namespace(self.pair.1, ns2);
+            }
             pred
         }
     }
@@ -233,8 +248,8 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self.regressor.predict_then_learn(
                 &mut sparse_feats.into(),
                 label,
@@ -243,8 +258,12 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            if let Some(ns1) = ns1 {
+                sparse_feats.set_namespace(self.pair.0, ns1);
+            }
+            if let Some(ns2) = ns2 {
+                sparse_feats.set_namespace(self.pair.1, ns2);
+            }
             pred
         }
     }
@@ -268,14 +287,18 @@ impl ReductionImpl for ElementwiseInteraction {
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            if let Some(ns1) = ns1 {
+                sparse_feats.set_namespace(self.pair.0, ns1);
+            }
+            if let Some(ns2) = ns2 {
+                sparse_feats.set_namespace(self.pair.1, ns2);
+            }
         }
     }
 
-- 
2.43.0


From f9f318e0a9412e9ac9f2459809e78e7605f2b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 20/43] fix: CbAdf mtr learns without shared features and on
 the example predict scores

---
 reductionml-core/src/reductions/cb_adf.rs | 27 ++++++++++-------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/reductionml-core/src/reductions/cb_adf.rs b/reductionml-core/src/reductions/cb_adf.rs
index 1c0fac5..d547c20 100644
--- a/reductionml-core/src/reductions/cb_adf.rs
+++ b/reductionml-core/src/reductions/cb_adf.rs
@@ -201,21 +201,18 @@ impl ReductionImpl for CBAdfReduction {
                     * (self.mtr_state.event_sum as f32 / self.mtr_state.action_sum as f32);
 
                 let simple_label = SimpleLabel::new(cost, weight);
-                match cb_adf_features.shared.as_mut() {
-                    Some(shared_feats) => {
-                        let action = cb_adf_features.actions.get(cb_label.action).unwrap();
-                        shared_feats.append(action);
-                        self.regressor.learn(
-                            &mut Features::SparseSimpleRef(shared_feats),
-                            &simple_label.into(),
-                            depth_info,
-                            0.into(),
-                        );
-                        shared_feats.remove(action);
-                    }
-                    None => {
-                        todo!()
-                    }
+                let action = cb_adf_features.actions.get_mut(cb_label.action).unwrap();
+                if let Some(shared_feats) = &cb_adf_features.shared {
+                    action.append(shared_feats);
+                }
+                self.regressor.learn(
+                    &mut Features::SparseSimpleRef(action),
+                    &simple_label.into(),
+                    depth_info,
+                    0.into(),
+                );
+                if let Some(shared_feats) = &cb_adf_features.shared {
+                    action.remove(shared_feats);
                 }
             }
         }
-- 
2.43.0


From c7cd21ba5293a8f125eb57d58b8a0021498af237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 21/43] fix: reading a corrupt binary model is an error, not a
 panic

---
 reductionml-core/src/dense_weights.rs | 13 +++++++++----
 reductionml-core/src/workspace.rs     |  9 ++++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/reductionml-core/src/dense_weights.rs b/reductionml-core/src/dense_weights.rs
index cb0805a..137031a 100644
--- a/reductionml-core/src/dense_weights.rs
+++ b/reductionml-core/src/dense_weights.rs
@@ -159,12 +159,17 @@ impl SparseF32Vec {
         }
     }
 
-    fn to_dense(&self) -> Vec<f32> {
+    fn to_dense(&self) -> Result<Vec<f32>> {
         let mut vec = vec![0.0; self.len as usize];
         for (index, value) in self.non_zero_value_and_index_pairs.iter() {
-            vec[*index] = *value;
+            *vec.get_mut(*index).ok_or_else(|| {
+                Error::InvalidArgument(format!(
+                    "weight index {} out of range, there are {} weights",
+                    index, self.len
+                ))
+            })? = *value;
         }
-        vec
+        Ok(vec)
     }
 }
 
@@ -184,7 +189,7 @@ where
     D: Deserializer<'de>,
 {
     let sparse_vec = SparseF32Vec::deserialize(deserializer)?;
-    Ok(sparse_vec.to_dense())
+    sparse_vec.to_dense().map_err(serde::de::Error::custom)
 }
 
 impl DenseWeights {
diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index e4e6ed1..14ebbfc 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -139,14 +139,17 @@ impl Workspace {
 
     // TODO move to bincode or msgpack
     pub fn create_from_model(json: &[u8]) -> Result<Workspace> {
-        let r = flexbuffers::Reader::get_root(json).unwrap();
-        Ok(Workspace::deserialize(r).unwrap())
+        let r = flexbuffers::Reader::get_root(json)
+            .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))?;
+        Workspace::deserialize(r)
+            .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))
     }
 
     // TODO move to bincode or msgpack
     pub fn serialize_model(&self) -> Result<Vec<u8>> {
         let mut s = flexbuffers::FlexbufferSerializer::new();
-        self.serialize(&mut s).unwrap();
+        self.serialize(&mut s)
+            .map_err(|e| Error::InvalidArgument(format!("Failed to serialize model: {e}")))?;
         Ok(s.take_buffer())
     }
 
-- 
2.43.0


From 0ff4c0a8bad67a527a567b098f186b545aa3ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 22/43] fix: exporting and importing JSON models reports errors
 instead of panicking

---
 reductionml-core/src/dense_weights.rs | 39 +++++++++++++++++++++++++++
 reductionml-core/src/workspace.rs     | 34 ++++++++++++-----------
 2 files changed, 57 insertions(+), 16 deletions(-)

diff --git a/reductionml-core/src/dense_weights.rs b/reductionml-core/src/dense_weights.rs
index 137031a..f0601c6 100644
--- a/reductionml-core/src/dense_weights.rs
+++ b/reductionml-core/src/dense_weights.rs
@@ -106,6 +106,45 @@ impl DenseWeightsWithNDArray {
         }
     }
 
+    /// Checks that the sizes, shifts and weights agree with each other, as to_dense_weights requires.
+    pub fn validate(&self) -> Result<()> {
+        let shift_of = |size: u64| size.checked_sub(1).map(num_bits_to_represent);
+        let (feature_shift, model_shift, state_shift) = match (
+            shift_of(*self.feature_index_size as u64),
+            shift_of(*self.model_index_size as u64),
+            shift_of(*self.feature_state_size as u64),
+        ) {
+            (Some(feature), Some(model), Some(state)) => (feature, model, state),
+            _ => {
+                return Err(Error::InvalidArgument(
+                    "the sizes of the weights must not be 0".to_owned(),
+                ))
+            }
+        };
+        if model_shift != self.model_index_size_shift as u64
+            || state_shift != self.feature_state_size_shift as u64
+            || feature_shift + model_shift + state_shift >= usize::BITS as u64
+        {
+            return Err(Error::InvalidArgument(
+                "the sizes of the weights do not match their shifts".to_owned(),
+            ));
+        }
+        for (feature_index, feature) in &self.weights {
+            if *feature_index >= self.feature_index_size
+                || feature.len() > *self.model_index_size as usize
+                || feature
+                    .iter()
+                    .any(|state| state.len() != *self.feature_state_size as usize)
+            {
+                return Err(Error::InvalidArgument(format!(
+                    "the weights of feature {} do not match the sizes",
+                    **feature_index
+                )));
+            }
+        }
+        Ok(())
+    }
+
     pub fn to_dense_weights(&self) -> DenseWeights {
         let feature_index_size_shift =
             num_bits_to_represent(*self.feature_index_size as u64 - 1) as usize;
diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index 14ebbfc..7ac9f12 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -66,7 +66,7 @@ impl TryInto<Configuration> for serde_yaml::Value {
 }
 
 // We need to search until we find an object with the keys weights, feature_index_size, model_index_size, feature_state_size, model_index_size_shift, feature_state_size_shift
-fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) {
+fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) -> Result<()> {
     match value {
         serde_json::Value::Object(map) => {
             if map.contains_key("weights")
@@ -76,24 +76,26 @@ fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) {
                 && map.contains_key("model_index_size_shift")
                 && map.contains_key("feature_state_size_shift")
             {
-                let wts: DenseWeightsWithNDArray = serde_json::from_value(value.clone()).unwrap();
-                *value = serde_json::to_value(wts.to_dense_weights()).unwrap();
-                return;
+                let wts: DenseWeightsWithNDArray = serde_json::from_value(value.clone())?;
+                wts.validate()?;
+                *value = serde_json::to_value(wts.to_dense_weights())?;
+                return Ok(());
             }
             for (_, v) in map {
-                rewrite_json_ndarray_to_sparse(v);
+                rewrite_json_ndarray_to_sparse(v)?;
             }
         }
         serde_json::Value::Array(vec) => {
             for v in vec {
-                rewrite_json_ndarray_to_sparse(v);
+                rewrite_json_ndarray_to_sparse(v)?;
             }
         }
         _ => (),
     }
+    Ok(())
 }
 
-fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) {
+fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) -> Result<()> {
     match value {
         serde_json::Value::Object(map) => {
             if map.contains_key("weights")
@@ -103,22 +105,22 @@ fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) {
                 && map.contains_key("model_index_size_shift")
                 && map.contains_key("feature_state_size_shift")
             {
-                let wts: DenseWeights = serde_json::from_value(value.clone()).unwrap();
-                *value =
-                    serde_json::to_value(DenseWeightsWithNDArray::from_dense_weights(wts)).unwrap();
-                return;
+                let wts: DenseWeights = serde_json::from_value(value.clone())?;
+                *value = serde_json::to_value(DenseWeightsWithNDArray::from_dense_weights(wts))?;
+                return Ok(());
             }
             for (_, v) in map {
-                rewrite_json_sparse_to_ndarray(v);
+                rewrite_json_sparse_to_ndarray(v)?;
             }
         }
         serde_json::Value::Array(vec) => {
             for v in vec {
-                rewrite_json_sparse_to_ndarray(v);
+                rewrite_json_sparse_to_ndarray(v)?;
             }
         }
         _ => (),
     }
+    Ok(())
 }
 
 impl Workspace {
@@ -155,8 +157,8 @@ impl Workspace {
 
     // experimental
     pub fn serialize_to_json(&self) -> Result<Value> {
-        let mut value = serde_json::to_value(self).unwrap();
-        rewrite_json_sparse_to_ndarray(&mut value);
+        let mut value = serde_json::to_value(self)?;
+        rewrite_json_sparse_to_ndarray(&mut value)?;
         Ok(value)
     }
 
@@ -165,7 +167,7 @@ impl Workspace {
         let mut value: serde_json::Value = serde_json::from_value(json.clone()).map_err(|e| {
             Error::InvalidConfiguration(format!("Failed to parse configuration: {e}"))
         })?;
-        rewrite_json_ndarray_to_sparse(&mut value);
+        rewrite_json_ndarray_to_sparse(&mut value)?;
         serde_json::from_value(value)
             .map_err(|e| Error::InvalidConfiguration(format!("Failed to parse model: {e}")))
     }
-- 
2.43.0


From a3525524df6846c80fad037ae722e7059f4fff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 23/43] fix: reject an exploration epsilon that is not a
 probability when the workspace is created

---
 reductionml-core/src/explore.rs                       | 11 +++++++++++
 .../src/reductions/cb_explore_adf_greedy.rs           |  2 ++
 .../src/reductions/cb_explore_adf_softmax.rs          |  3 ++-
 .../src/reductions/cb_explore_adf_squarecb.rs         |  3 ++-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/explore.rs b/reductionml-core/src/explore.rs
index 256e955..3eb81aa 100644
--- a/reductionml-core/src/explore.rs
+++ b/reductionml-core/src/explore.rs
@@ -1,5 +1,16 @@
 use crate::error::Result;
 
+/// Returns an error if the configured value is not usable as a probability.
+pub fn check_probability(name: &str, value: f32) -> Result<()> {
+    if !(0.0..=1.0).contains(&value) {
+        return Err(crate::error::Error::InvalidArgument(format!(
+            "{} must be in [0, 1], but is {}",
+            name, value
+        )));
+    }
+    Ok(())
+}
+
 pub fn enforce_min_prob(
     uniform_epsilon: f32,
     consider_zero_valued_elements: bool,
diff --git a/reductionml-core/src/reductions/cb_explore_adf_greedy.rs b/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
index 9b079fd..27db18e 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
@@ -1,4 +1,5 @@
 use crate::error::Result;
+use crate::explore::check_probability;
 use crate::global_config::GlobalConfig;
 
 use crate::reduction::{
@@ -69,6 +70,7 @@ impl ReductionFactory for CBExploreAdfGreedyReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfGreedyConfig>()
             .unwrap();
+        check_probability("epsilon", config.epsilon)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         let cb_adf: ReductionWrapper =
             create_reduction(cb_adf_config.as_ref(), global_config, num_models_above)?;
diff --git a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
index 84d5365..8e24101 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
@@ -8,7 +8,7 @@ use crate::reduction_factory::{
     create_reduction, JsonReductionConfig, PascalCaseString, ReductionConfig, ReductionFactory,
 };
 
-use crate::explore::enforce_min_prob;
+use crate::explore::{check_probability, enforce_min_prob};
 use crate::{impl_default_factory_functions, types::*, ModelIndex};
 use schemars::schema::RootSchema;
 use schemars::{schema_for, JsonSchema};
@@ -78,6 +78,7 @@ impl ReductionFactory for CBExploreAdfSoftmaxReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfSoftmaxConfig>()
             .unwrap();
+        check_probability("uniformEpsilon", config.uniform_epsilon)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         let cb_adf: ReductionWrapper =
             create_reduction(cb_adf_config.as_ref(), global_config, num_models_above)?;
diff --git a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
index c86a086..5667abf 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
@@ -16,7 +16,7 @@ use serde::{Deserialize, Serialize};
 use serde_default::DefaultFromSerde;
 use serde_json::json;
 
-use crate::explore::enforce_min_prob;
+use crate::explore::{check_probability, enforce_min_prob};
 
 use super::{CBAdfConfig, CBType};
 
@@ -87,6 +87,7 @@ impl ReductionFactory for CBExploreAdfSquareCBReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfSquareCBConfig>()
             .unwrap();
+        check_probability("uniformEpsilon", config.uniform_epsilon)?;
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         // Try checking for MTR
         if let Some(cfg) = cb_adf_config.as_any().downcast_ref::<CBAdfConfig>() {
-- 
2.43.0


From c8ab581ee55c051434cd539fe5dc45bc1933a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 24/43] fix: derive Send and Sync of shared objects instead of
 asserting them unconditionally

---
 reductionml-core/src/object_pool.rs         | 3 ---
 reductionml-core/src/parsers/text_parser.rs | 2 +-
 reductionml-core/src/reduction_factory.rs   | 2 +-
 reductionml-core/src/reduction_registry.rs  | 2 --
 reductionml-python/src/parsers.rs           | 5 -----
 5 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/reductionml-core/src/object_pool.rs b/reductionml-core/src/object_pool.rs
index cf831aa..6d3982f 100644
--- a/reductionml-core/src/object_pool.rs
+++ b/reductionml-core/src/object_pool.rs
@@ -40,9 +40,6 @@ impl<T: Default> Default for Pool<T> {
     }
 }
 
-unsafe impl<T: Default> Sync for Pool<T> {}
-unsafe impl<T: Default> Send for Pool<T> {}
-
 pub trait PoolReturnable<T: Default> {
     fn clear_and_return_object(self, pool: &Pool<T>);
 }
diff --git a/reductionml-core/src/parsers/text_parser.rs b/reductionml-core/src/parsers/text_parser.rs
index 58b9b09..b0bd61f 100644
--- a/reductionml-core/src/parsers/text_parser.rs
+++ b/reductionml-core/src/parsers/text_parser.rs
@@ -37,7 +37,7 @@ pub enum ParsedNamespaceInfo<'a> {
     Default,
 }
 
-pub trait TextModeParser: Sync {
+pub trait TextModeParser: Send + Sync {
     fn get_next_chunk(
         &self,
         input: &mut dyn BufRead,
diff --git a/reductionml-core/src/reduction_factory.rs b/reductionml-core/src/reduction_factory.rs
index f74341f..927fb89 100644
--- a/reductionml-core/src/reduction_factory.rs
+++ b/reductionml-core/src/reduction_factory.rs
@@ -139,7 +139,7 @@ pub trait ReductionConfig: Any {
     fn typename(&self) -> PascalCaseString;
 }
 
-pub trait ReductionFactory {
+pub trait ReductionFactory: Send {
     fn parse_config(&self, value: &serde_json::Value) -> Result<Box<dyn ReductionConfig>>;
     fn create(
         &self,
diff --git a/reductionml-core/src/reduction_registry.rs b/reductionml-core/src/reduction_registry.rs
index 575520b..104665a 100644
--- a/reductionml-core/src/reduction_registry.rs
+++ b/reductionml-core/src/reduction_registry.rs
@@ -31,8 +31,6 @@ pub struct ReductionRegistry {
     registry: BTreeMap<String, Box<dyn ReductionFactory>>,
 }
 
-unsafe impl Send for ReductionRegistry {}
-
 impl ReductionRegistry {
     pub fn register(&mut self, factory: Box<dyn ReductionFactory>) {
         self.registry
diff --git a/reductionml-python/src/parsers.rs b/reductionml-python/src/parsers.rs
index a5ca223..ffab699 100644
--- a/reductionml-python/src/parsers.rs
+++ b/reductionml-python/src/parsers.rs
@@ -35,11 +35,6 @@ impl IntoPy<PyObject> for WrappedParser {
     }
 }
 
-unsafe impl Send for WrappedParserTextOnly {}
-unsafe impl Sync for WrappedParserTextOnly {}
-unsafe impl Send for WrappedParserTextAndJson {}
-unsafe impl Sync for WrappedParserTextAndJson {}
-
 #[pyclass]
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 pub(crate) enum FormatType {
-- 
2.43.0


From f06ed57974760230e2aa3356303205a1c854315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 25/43] fix: Coin trains with the configured loss function

---
 reductionml-core/src/reductions/coin.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index e868833..732662f 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -98,7 +98,6 @@ struct CoinRegressor {
     average_squared_norm_x: f32,
     min_label: f32,
     max_label: f32,
-    // TODO allow this to be chosen
     loss_function: LossFunction,
     pairs: Vec<(Namespace, Namespace)>,
     triples: Vec<(Namespace, Namespace, Namespace)>,
@@ -115,7 +114,8 @@ impl CoinRegressor {
         let (pairs, triples) =
             compile_interactions(global_config.interactions(), global_config.hash_seed())?;
 
-        let (min_label, max_label) = match config.loss_function {
+        let loss_function = config.loss_function;
+        let (min_label, max_label) = match loss_function {
             LossFunction::Squared(_) => (0.0, 0.0),
             // This is essentially so that the clamp is a no-op
             LossFunction::Logistic(_) => (-50.0, 50.0),
@@ -138,7 +138,7 @@ impl CoinRegressor {
             average_squared_norm_x: 0.0,
             min_label,
             max_label,
-            loss_function: LossFunction::Squared(SquaredLoss::new()),
+            loss_function,
             pairs,
             triples,
             num_bits: global_config.num_bits(),
-- 
2.43.0


From 0bb363b69181ec5b0018b41631034d76e34661dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 26/43] fix: the Python bindings raise exceptions for invalid
 input instead of panicking

---
 reductionml-python/src/parsers.rs   |  6 +++--
 reductionml-python/src/workspace.rs | 34 +++++++++++++++--------------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/reductionml-python/src/parsers.rs b/reductionml-python/src/parsers.rs
index ffab699..e2efb3b 100644
--- a/reductionml-python/src/parsers.rs
+++ b/reductionml-python/src/parsers.rs
@@ -141,8 +141,10 @@ impl WrappedParserTextAndJson {
             JsonInputKinds::StringInput(x) => x.into(),
             JsonInputKinds::DictInput(x) => {
                 // TODO: avoid the trip to string here.
-                let input: serde_json::Value = depythonize(x).unwrap();
-                serde_json::to_string(&input).unwrap().into()
+                let input: serde_json::Value = depythonize(x)?;
+                serde_json::to_string(&input)
+                    .map_err(|e| WrappedError::from(reductionml_core::error::Error::from(e)))?
+                    .into()
             }
         };
 
diff --git a/reductionml-python/src/workspace.rs b/reductionml-python/src/workspace.rs
index 7889f9d..343e3a3 100644
--- a/reductionml-python/src/workspace.rs
+++ b/reductionml-python/src/workspace.rs
@@ -14,7 +14,7 @@ use crate::{
     labels::{WrappedLabel, WrappedLabelType},
     parsers::{create_parser, FormatType, WrappedParser},
     predictions::{WrappedPrediction, WrappedPredictionType},
-    WrappedFeaturesType,
+    WrappedError, WrappedFeaturesType,
 };
 
 #[pyclass]
@@ -125,35 +125,37 @@ pub(crate) struct WrappedWorkspace(pub(crate) reductionml_core::workspace::Works
 #[pymethods]
 impl WrappedWorkspace {
     #[staticmethod]
-    pub(crate) fn create_from_config(config: &PyDict) -> Self {
-        let config: Configuration = depythonize(config).unwrap();
-        let workspace = reductionml_core::workspace::Workspace::new(config).unwrap();
-        Self(workspace)
+    pub(crate) fn create_from_config(config: &PyDict) -> PyResult<Self> {
+        let config: Configuration = depythonize(config)?;
+        let workspace =
+            reductionml_core::workspace::Workspace::new(config).map_err(WrappedError::from)?;
+        Ok(Self(workspace))
     }
 
     #[staticmethod]
-    pub(crate) fn create_from_model(data: Vec<u8>) -> Self {
-        let workspace = reductionml_core::workspace::Workspace::create_from_model(&data).unwrap();
-        Self(workspace)
+    pub(crate) fn create_from_model(data: Vec<u8>) -> PyResult<Self> {
+        let workspace = reductionml_core::workspace::Workspace::create_from_model(&data)
+            .map_err(WrappedError::from)?;
+        Ok(Self(workspace))
     }
 
     #[staticmethod]
-    pub(crate) fn create_from_json_model(model_json: &PyDict) -> Self {
-        let data = depythonize(model_json).unwrap();
-        let workspace =
-            reductionml_core::workspace::Workspace::deserialize_from_json(&data).unwrap();
-        Self(workspace)
+    pub(crate) fn create_from_json_model(model_json: &PyDict) -> PyResult<Self> {
+        let data = depythonize(model_json)?;
+        let workspace = reductionml_core::workspace::Workspace::deserialize_from_json(&data)
+            .map_err(WrappedError::from)?;
+        Ok(Self(workspace))
     }
 
     pub(crate) fn serialize(&self) -> PyResult<Vec<u8>> {
-        let data = self.0.serialize_model().unwrap();
+        let data = self.0.serialize_model().map_err(WrappedError::from)?;
         Ok(data)
     }
 
     pub(crate) fn serialize_to_json(&self) -> PyResult<PyObject> {
-        let data = self.0.serialize_to_json().unwrap();
+        let data = self.0.serialize_to_json().map_err(WrappedError::from)?;
         Python::with_gil(|py| {
-            let data = pythonize(py, &data).unwrap();
+            let data = pythonize(py, &data)?;
             Ok(data.into_py(py))
         })
     }
-- 
2.43.0


From 30d2c086d160f7a18e98685f0b88fd8a692e9c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:35 +0000
Subject: [PATCH 27/43] fix: refuse unknown keys in loss function options

---
 reductionml-core/src/loss_function/logistic_loss.rs | 1 +
 reductionml-core/src/loss_function/squared_loss.rs  | 1 +
 schemas/config/latest/schema.json                   | 6 ++++--
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/loss_function/logistic_loss.rs b/reductionml-core/src/loss_function/logistic_loss.rs
index 1c15304..cf8e6fa 100644
--- a/reductionml-core/src/loss_function/logistic_loss.rs
+++ b/reductionml-core/src/loss_function/logistic_loss.rs
@@ -5,6 +5,7 @@ use serde_default::DefaultFromSerde;
 use crate::loss_function::LossFunctionImpl;
 
 #[derive(Clone, Copy, Debug, Serialize, Deserialize, JsonSchema, DefaultFromSerde)]
+#[serde(deny_unknown_fields)]
 pub struct LogisticLoss {
     #[serde(default = "default_min")]
     min_label: f32,
diff --git a/reductionml-core/src/loss_function/squared_loss.rs b/reductionml-core/src/loss_function/squared_loss.rs
index bbc16d0..6d354ca 100644
--- a/reductionml-core/src/loss_function/squared_loss.rs
+++ b/reductionml-core/src/loss_function/squared_loss.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 use crate::loss_function::LossFunctionImpl;
 
 #[derive(Clone, Copy, Debug, Serialize, Deserialize, JsonSchema, Default)]
+#[serde(deny_unknown_fields)]
 pub struct SquaredLoss {}
 
 impl SquaredLoss {
diff --git a/schemas/config/latest/schema.json b/schemas/config/latest/schema.json
index 4bcaf15..103bb3d 100644
--- a/schemas/config/latest/schema.json
+++ b/schemas/config/latest/schema.json
@@ -467,7 +467,8 @@
           "type": "number",
           "format": "float"
         }
-      }
+      },
+      "additionalProperties": false
     },
     "LossFunction": {
       "oneOf": [
@@ -520,7 +521,8 @@
       ]
     },
     "SquaredLoss": {
-      "type": "object"
+      "type": "object",
+      "additionalProperties": false
     },
     "any_reduction_config": {
       "oneOf": [
-- 
2.43.0


From e236c736a79ccef9cbf12724a1a251a2bcc6e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:02 +0000
Subject: [PATCH 28/43] fix: the configuration schema requires typename, which
 the program refuses to do without

---
 reductionml-core/src/config_schema.rs | 14 +++++++++++---
 schemas/config/latest/schema.json     | 25 +++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/config_schema.rs b/reductionml-core/src/config_schema.rs
index a235f5f..2558583 100644
--- a/reductionml-core/src/config_schema.rs
+++ b/reductionml-core/src/config_schema.rs
@@ -1,6 +1,6 @@
 use schemars::{
     gen::SchemaGenerator,
-    schema::{RootSchema, Schema, SchemaObject},
+    schema::{InstanceType, RootSchema, Schema, SchemaObject},
     schema_for,
 };
 
@@ -29,8 +29,11 @@ impl ConfigSchema {
             Schema::Object(any_reduction_config),
         );
 
-        // Allow $schema to be set to anything
-        let mut schema_schema: SchemaObject = SchemaObject::default();
+        // Allow $schema to be set to any string
+        let mut schema_schema: SchemaObject = SchemaObject {
+            instance_type: Some(InstanceType::String.into()),
+            ..Default::default()
+        };
         schema_schema.string().pattern = Some(".*".to_owned());
         schema
             .schema
@@ -62,6 +65,11 @@ impl ConfigSchema {
             "config".to_owned(),
             Schema::Object(reductions_inner_schema.schema),
         );
+        // config may be left out, but which reduction is meant must always be given
+        reduction_config_schema
+            .object()
+            .required
+            .insert("typename".to_owned());
         // Set additionalProperties to false
         reduction_config_schema.object().additional_properties =
             Some(Box::new(Schema::Bool(false)));
diff --git a/schemas/config/latest/schema.json b/schemas/config/latest/schema.json
index 103bb3d..d41cbc5 100644
--- a/schemas/config/latest/schema.json
+++ b/schemas/config/latest/schema.json
@@ -8,6 +8,7 @@
   ],
   "properties": {
     "$schema": {
+      "type": "string",
       "pattern": ".*"
     },
     "entryReduction": {
@@ -20,6 +21,9 @@
   "additionalProperties": false,
   "definitions": {
     "Binary": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "BinaryReductionConfig",
@@ -62,6 +66,9 @@
       ]
     },
     "CbAdf": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CBAdfConfig",
@@ -105,6 +112,9 @@
       "additionalProperties": false
     },
     "CbExploreAdfGreedy": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CBExploreAdfGreedyConfig",
@@ -151,6 +161,9 @@
       "additionalProperties": false
     },
     "CbExploreAdfSoftmax": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CBExploreAdfSoftmaxConfig",
@@ -202,6 +215,9 @@
       "additionalProperties": false
     },
     "CbExploreAdfSquareCb": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CBExploreAdfSquareCBConfig",
@@ -258,6 +274,9 @@
       "additionalProperties": false
     },
     "Coin": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "CoinRegressorConfig",
@@ -311,6 +330,9 @@
       "additionalProperties": false
     },
     "Debug": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "DebugConfig",
@@ -359,6 +381,9 @@
       "additionalProperties": false
     },
     "ElementwiseInteraction": {
+      "required": [
+        "typename"
+      ],
       "properties": {
         "config": {
           "title": "ElementwiseInteractionConfig",
-- 
2.43.0


From 9cd6a0168f6bdc4f089ee5b0c045877af4c298db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:29 +0000
Subject: [PATCH 29/43] fix: the configuration schema documents the largest
 accepted numBits

---
 reductionml-core/src/global_config.rs | 1 +
 schemas/config/latest/schema.json     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/reductionml-core/src/global_config.rs b/reductionml-core/src/global_config.rs
index d06f70e..5103541 100644
--- a/reductionml-core/src/global_config.rs
+++ b/reductionml-core/src/global_config.rs
@@ -13,6 +13,7 @@ pub struct GlobalConfig {
         default = "default_num_bits",
         deserialize_with = "deserialize_num_bits"
     )]
+    #[schemars(range(max = 31))] // MAX_NUM_BITS
     num_bits: u8,
 
     #[serde(default)]
diff --git a/schemas/config/latest/schema.json b/schemas/config/latest/schema.json
index d41cbc5..ad0675b 100644
--- a/schemas/config/latest/schema.json
+++ b/schemas/config/latest/schema.json
@@ -467,6 +467,7 @@
           "default": 18,
           "type": "integer",
           "format": "uint8",
+          "maximum": 31.0,
           "minimum": 0.0
         }
       },
-- 
2.43.0


From 9bda9e9de1917ab3f28114ee8a9aaf75775f444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:28 +0000
Subject: [PATCH 30/43] fix: equality of SparseFeatures must ignore the
 inactive namespaces of recycled objects

---
 reductionml-core/src/sparse_namespaced_features.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index 34fdff8..eae29bb 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -199,11 +199,21 @@ impl Namespace {
     }
 }
 
-#[derive(PartialEq, Clone, Debug)]
+#[derive(Clone, Debug)]
 pub struct SparseFeatures {
     namespaces: std::collections::BTreeMap<Namespace, SparseFeaturesNamespace>,
 }
 
+impl PartialEq for SparseFeatures {
+    fn eq(&self, other: &Self) -> bool {
+        // Inactive namespaces are left behind when an object is recycled and are not part of its contents.
+        self.namespaces
+            .iter()
+            .filter(|(_, ns)| ns.is_active())
+            .eq(other.namespaces.iter().filter(|(_, ns)| ns.is_active()))
+    }
+}
+
 impl Default for SparseFeatures {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 65c34806a9bdc3b65d01cfad3b4e9838ae2d75d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:33 +0000
Subject: [PATCH 31/43] fix: Python types of interactions match the
 configuration that is read

---
 reductionml-python/python/reductionml/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-python/python/reductionml/__init__.py b/reductionml-python/python/reductionml/__init__.py
index dedb1c1..d54bff2 100644
--- a/reductionml-python/python/reductionml/__init__.py
+++ b/reductionml-python/python/reductionml/__init__.py
@@ -50,10 +50,10 @@ __all__ = [
 
 
 class NameInteraction(TypedDict):
-    name: str
+    Name: str
 
 
-Interaction = Union[Literal["Default"], NameInteraction]
+Interaction = List[Union[Literal["Default"], NameInteraction]]
 
 
 class GlobalConfig(TypedDict):
-- 
2.43.0


From d3f84f3a29c6dbee640810e2d2ff0f28e78df779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 32/43] fix: extra text in a contextual bandit text label is an
 error, not dropped

---
 reductionml-core/src/parsers/vw_text_parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index 1e3037b..2e89a0d 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -157,6 +157,7 @@ fn parse_label(tokens: &[&str], label_type: LabelType) -> Result<Option<TextLabe
             _ => Err(invalid("Too many tokens in simple label")),
         },
         LabelType::Binary => Err(invalid("Binary labels are not supported")),
+        LabelType::CB if tokens.len() > 1 => Err(invalid("Too many tokens in CB label")),
         LabelType::CB => match tokens.iter().next() {
             None => Ok(Some(TextLabel::CB(CBTextLabel {
                 shared: false,
@@ -179,7 +180,9 @@ fn parse_label(tokens: &[&str], label_type: LabelType) -> Result<Option<TextLabe
                 let cost = parse_float(next()?)?;
                 let probability = parse_float(next()?)?;
 
-                // TODO: check that there are no more tokens
+                if next().is_ok() {
+                    return Err(invalid("CB label must be action:cost:probability"));
+                }
 
                 Ok(Some(TextLabel::CB(CBTextLabel {
                     shared: false,
-- 
2.43.0


From 311994e799a0e61da2ef53965e3cf2ea36ebfb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 33/43] fix: extra text after a namespace value is an error,
 not dropped

---
 reductionml-core/src/parsers/vw_text_parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index 2e89a0d..c81172e 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -290,6 +290,9 @@ fn parse_namespace_info_token(namespace_segment: &str) -> Result<(&str, f32)> {
         })?,
         None => 1.0,
     };
+    if tokens.next().is_some() {
+        return Err(invalid("Namespace must be name or name:value"));
+    }
 
     Ok((name, value))
 }
-- 
2.43.0


From 9d7885d9e85f854293257dc794106ea27a5310b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 34/43] fix: the string value of a text feature keeps
 everything after the first colon

---
 reductionml-core/src/parsers/vw_text_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index c81172e..17bfee5 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -221,7 +221,7 @@ fn parse_feature<'a>(feature: &'a str, offset_counter: &mut u32) -> (ParsedFeatu
         }
     } else {
         // Named feature
-        let mut tokens = feature.split(':');
+        let mut tokens = feature.splitn(2, ':');
         let name = tokens.next().unwrap();
         match tokens.next() {
             Some(value) => {
-- 
2.43.0


From f9ccc6ed106909242373bc9310c37d1d4dd0613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:05 +0000
Subject: [PATCH 35/43] fix: a shared line after the first one is an error, not
 an action

---
 reductionml-core/src/parsers/vw_text_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index 17bfee5..ff1e458 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -87,7 +87,6 @@ where
                 .ok_or_else(|| invalid("Label should be CB"))?;
             let first_is_shared = first_label.shared;
 
-            // TODO assert not more than 1 is shared.
             let shared_ex = if first_is_shared {
                 // Consume shared token
                 txt_labels_iter.next();
@@ -102,6 +101,9 @@ where
                 let lbl: &CBTextLabel = action_label
                     .as_inner()
                     .ok_or_else(|| invalid("Label should be CB"))?;
+                if lbl.shared {
+                    return Err(invalid("Only the first line can be shared"));
+                }
                 if let Some((_a, c, p)) = lbl.acp {
                     if label.is_some() {
                         return Err(Error::InvalidArgument(
-- 
2.43.0


From 454c678f85e376b16527ac7ad999b16c84d46081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:38 +0000
Subject: [PATCH 36/43] fix: not having enough memory for the weights of a
 configuration or model is an error

---
 reductionml-core/src/dense_weights.rs | 33 +++++++++++++++++++--------
 reductionml-core/src/workspace.rs     |  2 +-
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/reductionml-core/src/dense_weights.rs b/reductionml-core/src/dense_weights.rs
index f0601c6..553d4dd 100644
--- a/reductionml-core/src/dense_weights.rs
+++ b/reductionml-core/src/dense_weights.rs
@@ -13,6 +13,16 @@ fn num_bits_to_represent(val: u64) -> u64 {
     64 - val.leading_zeros() as u64
 }
 
+/// The sizes of weights come from configurations and models, so not having enough memory for them is an error.
+fn zeroed_weights(len: usize) -> Result<Vec<f32>> {
+    let mut available = Vec::<f32>::new();
+    available
+        .try_reserve_exact(len)
+        .map_err(|e| Error::InvalidArgument(format!("cannot store {} weights: {}", len, e)))?;
+    drop(std::hint::black_box(available));
+    Ok(vec![0.0; len])
+}
+
 #[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
 pub struct DenseWeights {
     #[serde(
@@ -146,15 +156,19 @@ impl DenseWeightsWithNDArray {
     }
 
     pub fn to_dense_weights(&self) -> DenseWeights {
+        self.try_to_dense_weights()
+            .expect("there should be enough memory for the weights")
+    }
+
+    pub fn try_to_dense_weights(&self) -> Result<DenseWeights> {
         let feature_index_size_shift =
             num_bits_to_represent(*self.feature_index_size as u64 - 1) as usize;
 
-        let weights = vec![
-            0.0;
+        let weights = zeroed_weights(
             (1 << feature_index_size_shift)
                 * (1 << self.model_index_size_shift)
-                * (1 << self.feature_state_size_shift)
-        ];
+                * (1 << self.feature_state_size_shift),
+        )?;
 
         let mut weights = DenseWeights {
             weights,
@@ -173,7 +187,7 @@ impl DenseWeightsWithNDArray {
             }
         }
 
-        weights
+        Ok(weights)
     }
 }
 
@@ -199,7 +213,7 @@ impl SparseF32Vec {
     }
 
     fn to_dense(&self) -> Result<Vec<f32>> {
-        let mut vec = vec![0.0; self.len as usize];
+        let mut vec = zeroed_weights(self.len as usize)?;
         for (index, value) in self.non_zero_value_and_index_pairs.iter() {
             *vec.get_mut(*index).ok_or_else(|| {
                 Error::InvalidArgument(format!(
@@ -258,12 +272,11 @@ impl DenseWeights {
         let feature_state_size_shift =
             num_bits_to_represent(*feature_state_size as u64 - 1) as usize;
         assert!(feature_index_size_shift + model_index_size_shift + feature_state_size_shift <= 64);
-        let weights = vec![
-            0.0;
+        let weights = zeroed_weights(
             (1 << feature_index_size_shift)
                 * (1 << model_index_size_shift)
-                * (1 << feature_state_size_shift)
-        ];
+                * (1 << feature_state_size_shift),
+        )?;
         Ok(DenseWeights {
             weights,
             feature_index_size,
diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index 7ac9f12..d955403 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -78,7 +78,7 @@ fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) -> Result<()> {
             {
                 let wts: DenseWeightsWithNDArray = serde_json::from_value(value.clone())?;
                 wts.validate()?;
-                *value = serde_json::to_value(wts.to_dense_weights())?;
+                *value = serde_json::to_value(wts.try_to_dense_weights()?)?;
                 return Ok(());
             }
             for (_, v) in map {
-- 
2.43.0


From 0b56c26d1a051bb227661cc9af7a5169fcd62823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:20 +0000
Subject: [PATCH 37/43] fix: create_parser panicked (debug) or hashed with a
 wrong mask (release) for num_bits above 31

---
 reductionml-core/src/global_config.rs | 2 +-
 reductionml-python/src/parsers.rs     | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/global_config.rs b/reductionml-core/src/global_config.rs
index 5103541..4fe89a8 100644
--- a/reductionml-core/src/global_config.rs
+++ b/reductionml-core/src/global_config.rs
@@ -31,7 +31,7 @@ fn default_num_bits() -> u8 {
 }
 
 // Feature indices are 32 bit, and the number of weights must itself be representable.
-const MAX_NUM_BITS: u8 = 31;
+pub const MAX_NUM_BITS: u8 = 31;
 
 fn deserialize_num_bits<'de, D>(deserializer: D) -> Result<u8, D::Error>
 where
diff --git a/reductionml-python/src/parsers.rs b/reductionml-python/src/parsers.rs
index e2efb3b..3629d06 100644
--- a/reductionml-python/src/parsers.rs
+++ b/reductionml-python/src/parsers.rs
@@ -1,8 +1,9 @@
 use std::{borrow::Cow, sync::Arc};
 
-use pyo3::{prelude::*, types::PyDict};
+use pyo3::{exceptions::PyValueError, prelude::*, types::PyDict};
 use pythonize::depythonize;
 use reductionml_core::{
+    global_config::MAX_NUM_BITS,
     parsers::{TextModeParser, TextModeParserFactory},
     FeaturesType, LabelType,
 };
@@ -91,6 +92,11 @@ pub(crate) fn create_parser(
     hash_seed: u32,
     num_bits: u8,
 ) -> Result<WrappedParser, PyErr> {
+    if num_bits > MAX_NUM_BITS {
+        return Err(PyValueError::new_err(format!(
+            "num_bits must be at most {MAX_NUM_BITS}, but is {num_bits}"
+        )));
+    }
     let parser =
         format_type.get_parser(features_type.into(), label_type.into(), hash_seed, num_bits);
     match format_type {
-- 
2.43.0


From 1bc4cc7d2e3cace8cdba9bb8cbad407606235796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:16 +0000
Subject: [PATCH 38/43] fix: metrics of no examples, or of more than i32::MAX
 features or examples, crashed training or were wrong

---
 reductionml-core/src/metrics/example_number.rs  | 6 ++----
 reductionml-core/src/metrics/metric.rs          | 2 +-
 reductionml-core/src/metrics/parsed_features.rs | 2 +-
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/reductionml-core/src/metrics/example_number.rs b/reductionml-core/src/metrics/example_number.rs
index 95adbec..6524613 100644
--- a/reductionml-core/src/metrics/example_number.rs
+++ b/reductionml-core/src/metrics/example_number.rs
@@ -29,10 +29,8 @@ impl Metric for ExampleNumberMetric {
     }
 
     fn get_value(&self) -> MetricValue {
-        if self.count == 0 {
-            panic!("Cannot get value of ExampleNumberMetric with no points");
-        }
-        MetricValue::Int(self.count as i32 - 1)
+        // Number of the last example, -1 if there was none.
+        MetricValue::Int(self.count as i64 - 1)
     }
 
     fn get_name(&self) -> String {
diff --git a/reductionml-core/src/metrics/metric.rs b/reductionml-core/src/metrics/metric.rs
index 47a0c96..0c0375b 100644
--- a/reductionml-core/src/metrics/metric.rs
+++ b/reductionml-core/src/metrics/metric.rs
@@ -12,7 +12,7 @@ pub trait Metric {
 pub enum MetricValue {
     Bool(bool),
     Float(f32),
-    Int(i32),
+    Int(i64),
     String(String),
 }
 
diff --git a/reductionml-core/src/metrics/parsed_features.rs b/reductionml-core/src/metrics/parsed_features.rs
index f778ad1..2529357 100644
--- a/reductionml-core/src/metrics/parsed_features.rs
+++ b/reductionml-core/src/metrics/parsed_features.rs
@@ -54,7 +54,7 @@ impl Metric for ParsedFeaturesMetric {
     }
 
     fn get_value(&self) -> MetricValue {
-        MetricValue::Int(self.count.try_into().unwrap())
+        MetricValue::Int(self.count as i64)
     }
 
     fn get_name(&self) -> String {
-- 
2.43.0


From 054e37a4463bbe8e2bb5741b10123e00574b41be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:39 +0000
Subject: [PATCH 39/43] fix: a metric that does not apply to the model's labels
 or predictions crashed training

---
 reductionml-cli/src/train.rs                       | 11 +++++++----
 reductionml-core/src/metrics/ips.rs                |  9 ++++++++-
 reductionml-core/src/metrics/mean_squared_error.rs |  9 ++++++++-
 reductionml-core/src/metrics/metric.rs             |  7 ++++++-
 4 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index de85043..096f371 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -290,10 +290,13 @@ impl Command for TrainCommand {
         let mut metrics = vec![reductionml_core::metrics::get_metric("example_number").unwrap()];
         if args.metrics.is_some() {
             for name in args.metrics.as_ref().unwrap() {
-                metrics.push(
-                    reductionml_core::metrics::get_metric(name)
-                        .with_context(|| format!("Unknown metric: {}", name))?,
-                );
+                let metric = reductionml_core::metrics::get_metric(name)
+                    .with_context(|| format!("Unknown metric: {}", name))?;
+                let types = workspace.get_entry_reduction().types();
+                if !metric.supports(types.input_label_type(), types.output_prediction_type()) {
+                    anyhow::bail!("Metric {} does not apply to this model", name);
+                }
+                metrics.push(metric);
             }
         };
 
diff --git a/reductionml-core/src/metrics/ips.rs b/reductionml-core/src/metrics/ips.rs
index 8e786b5..71d2c0d 100644
--- a/reductionml-core/src/metrics/ips.rs
+++ b/reductionml-core/src/metrics/ips.rs
@@ -1,4 +1,7 @@
-use crate::{metrics::Metric, utils::AsInner, ActionProbsPrediction, CBLabel, Features};
+use crate::{
+    metrics::Metric, utils::AsInner, ActionProbsPrediction, CBLabel, Features, LabelType,
+    PredictionType,
+};
 
 use super::MetricValue;
 
@@ -53,4 +56,8 @@ impl Metric for IpsMetric {
     fn get_name(&self) -> String {
         "Estimated reward (IPS)".to_owned()
     }
+
+    fn supports(&self, label_type: LabelType, prediction_type: PredictionType) -> bool {
+        label_type == LabelType::CB && prediction_type == PredictionType::ActionProbs
+    }
 }
diff --git a/reductionml-core/src/metrics/mean_squared_error.rs b/reductionml-core/src/metrics/mean_squared_error.rs
index 14b8610..7d04293 100644
--- a/reductionml-core/src/metrics/mean_squared_error.rs
+++ b/reductionml-core/src/metrics/mean_squared_error.rs
@@ -1,4 +1,7 @@
-use crate::{metrics::Metric, utils::AsInner, Features, ScalarPrediction, SimpleLabel};
+use crate::{
+    metrics::Metric, utils::AsInner, Features, LabelType, PredictionType, ScalarPrediction,
+    SimpleLabel,
+};
 
 use super::MetricValue;
 
@@ -42,4 +45,8 @@ impl Metric for MeanSquaredErrorMetric {
     fn get_name(&self) -> String {
         "MeanSquaredError".to_owned()
     }
+
+    fn supports(&self, label_type: LabelType, prediction_type: PredictionType) -> bool {
+        label_type == LabelType::Simple && prediction_type == PredictionType::Scalar
+    }
 }
diff --git a/reductionml-core/src/metrics/metric.rs b/reductionml-core/src/metrics/metric.rs
index 0c0375b..a4921fb 100644
--- a/reductionml-core/src/metrics/metric.rs
+++ b/reductionml-core/src/metrics/metric.rs
@@ -1,5 +1,5 @@
 use crate::{
-    types::{Label, Prediction},
+    types::{Label, LabelType, Prediction, PredictionType},
     Features,
 };
 
@@ -7,6 +7,11 @@ pub trait Metric {
     fn add_point(&mut self, features: &Features, label: &Label, prediction: &Prediction);
     fn get_value(&self) -> MetricValue;
     fn get_name(&self) -> String;
+
+    /// Whether this metric can be calculated for labels and predictions of these types.
+    fn supports(&self, _label_type: LabelType, _prediction_type: PredictionType) -> bool {
+        true
+    }
 }
 
 pub enum MetricValue {
-- 
2.43.0


From 8df4eaf2cf219272772303702d66e876687caa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:13 +0000
Subject: [PATCH 40/43] fix: an example whose features or label do not fit the
 model crashed training and the Python calls

---
 reductionml-cli/src/train.rs        |  1 +
 reductionml-core/src/workspace.rs   | 42 ++++++++++++++++++++++++++++-
 reductionml-python/src/workspace.rs |  9 +++++++
 3 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 096f371..c24a353 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -428,6 +428,7 @@ fn process_example(
     >,
 ) -> Result<()> {
     let label = label.context("Training requires every example to have a label")?;
+    workspace.check_example(&features, Some(&label))?;
     if !quiet || predictions_file.is_some() {
         let prediction = workspace.predict_then_learn(&mut features, &label);
         if let Some(file) = predictions_file.as_mut() {
diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index d955403..3acf7bd 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -12,7 +12,7 @@ use crate::{
     reduction::{DepthInfo, ReductionWrapper},
     reduction_factory::JsonReductionConfig,
     sparse_namespaced_features::SparseFeatures,
-    types::{Features, Label, Prediction},
+    types::{Features, FeaturesType, Label, LabelType, Prediction},
 };
 
 #[derive(Serialize, Deserialize)]
@@ -172,6 +172,46 @@ impl Workspace {
             .map_err(|e| Error::InvalidConfiguration(format!("Failed to parse model: {e}")))
     }
 
+    /// Checks that the features and the label are of the kind this workspace takes, and that the
+    /// label does not name an action the features don't have.
+    pub fn check_example(&self, features: &Features, label: Option<&Label>) -> Result<()> {
+        let types = self.entry_reduction.types();
+        let (features_type, num_actions) = match features {
+            Features::SparseSimple(_) | Features::SparseSimpleRef(_) => {
+                (FeaturesType::SparseSimple, 0)
+            }
+            Features::SparseCBAdf(f) => (FeaturesType::SparseCBAdf, f.actions.len()),
+            Features::SparseCBAdfRef(f) => (FeaturesType::SparseCBAdf, f.actions.len()),
+        };
+        if features_type != types.input_features_type() {
+            return Err(Error::InvalidArgument(format!(
+                "Expected features of type {:?}, got {features_type:?}",
+                types.input_features_type()
+            )));
+        }
+        let Some(label) = label else { return Ok(()) };
+        let label_type = match label {
+            Label::Simple(_) => LabelType::Simple,
+            Label::Binary(_) => LabelType::Binary,
+            Label::CB(_) => LabelType::CB,
+        };
+        if label_type != types.input_label_type() {
+            return Err(Error::InvalidArgument(format!(
+                "Expected a label of type {:?}, got {label_type:?}",
+                types.input_label_type()
+            )));
+        }
+        match label {
+            Label::CB(label) if label.action >= num_actions => {
+                Err(Error::InvalidArgument(format!(
+                    "The label names action {}, but there are {num_actions} actions",
+                    label.action
+                )))
+            }
+            _ => Ok(()),
+        }
+    }
+
     pub fn predict(&self, features: &mut Features) -> Prediction {
         let mut depth_info = DepthInfo::new();
         self.entry_reduction
diff --git a/reductionml-python/src/workspace.rs b/reductionml-python/src/workspace.rs
index 343e3a3..3f13a63 100644
--- a/reductionml-python/src/workspace.rs
+++ b/reductionml-python/src/workspace.rs
@@ -177,6 +177,9 @@ impl WrappedWorkspace {
 
     pub(crate) fn predict(&self, mut features: WrappedFeatures) -> PyResult<WrappedPrediction> {
         let mut feats = features.to_features();
+        self.0
+            .check_example(&feats, None)
+            .map_err(WrappedError::from)?;
         let pred = self.0.predict(&mut feats);
         Ok(pred.into())
     }
@@ -188,6 +191,9 @@ impl WrappedWorkspace {
     ) -> PyResult<WrappedPrediction> {
         let mut feats = features.to_features();
         let label: Label = label.into();
+        self.0
+            .check_example(&feats, Some(&label))
+            .map_err(WrappedError::from)?;
         let pred = self.0.predict_then_learn(&mut feats, &label);
         Ok(pred.into())
     }
@@ -199,6 +205,9 @@ impl WrappedWorkspace {
     ) -> PyResult<()> {
         let mut feats = features.to_features();
         let label: Label = label.into();
+        self.0
+            .check_example(&feats, Some(&label))
+            .map_err(WrappedError::from)?;
         self.0.learn(&mut feats, &label);
         Ok(())
     }
-- 
2.43.0


From affc0b0a85fc8ca976d7bfb643f5d9487e728b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:54 +0000
Subject: [PATCH 41/43] fix: predicting an example without actions panicked

---
 reductionml-core/src/workspace.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index 3acf7bd..03e0f7f 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -189,6 +189,11 @@ impl Workspace {
                 types.input_features_type()
             )));
         }
+        if features_type == FeaturesType::SparseCBAdf && num_actions == 0 {
+            return Err(Error::InvalidArgument(
+                "The example has no actions to choose from".to_owned(),
+            ));
+        }
         let Some(label) = label else { return Ok(()) };
         let label_type = match label {
             Label::Simple(_) => LabelType::Simple,
-- 
2.43.0


From 540241a6caf270d38257ff137156856af8b746cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:16 +0000
Subject: [PATCH 42/43] fix: choosing the dsjson format for a model that is not
 a contextual bandit panicked

---
 reductionml-cli/src/main.rs                   | 12 +++++++++---
 reductionml-cli/src/train.rs                  |  2 +-
 reductionml-core/src/parsers/dsjson_parser.rs |  4 ++++
 reductionml-core/src/parsers/text_parser.rs   |  7 +++++++
 reductionml-python/src/parsers.rs             | 16 ++++++++++++----
 5 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/reductionml-cli/src/main.rs b/reductionml-cli/src/main.rs
index 9058119..b5bb4e0 100644
--- a/reductionml-cli/src/main.rs
+++ b/reductionml-cli/src/main.rs
@@ -48,8 +48,14 @@ impl DataFormat {
         hash_seed: u32,
         num_bits: u8,
         pool: Arc<Pool<SparseFeatures>>,
-    ) -> Box<dyn TextModeParser> {
-        match self {
+    ) -> anyhow::Result<Box<dyn TextModeParser>> {
+        if let DataFormat::Dsjson = self {
+            let factory = reductionml_core::parsers::DsJsonParserFactory::default();
+            if !factory.supports(features_type, label_type) {
+                anyhow::bail!("The dsjson format can only be used with contextual bandit models");
+            }
+        }
+        Ok(match self {
             DataFormat::VWText => Box::new(
                 reductionml_core::parsers::VwTextParserFactory::default().create(
                     features_type,
@@ -77,7 +83,7 @@ impl DataFormat {
                     pool,
                 ),
             ),
-        }
+        })
     }
 }
 
diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index c24a353..61ad7b2 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -271,7 +271,7 @@ impl Command for TrainCommand {
             workspace.global_config().hash_seed(),
             workspace.global_config().num_bits(),
             pool.clone(),
-        );
+        )?;
 
         let mut input_file = io::BufReader::new(file);
         let mut predictions_file = if let Some(pred_file_name) = &args.predictions {
diff --git a/reductionml-core/src/parsers/dsjson_parser.rs b/reductionml-core/src/parsers/dsjson_parser.rs
index 38cd143..a997d39 100644
--- a/reductionml-core/src/parsers/dsjson_parser.rs
+++ b/reductionml-core/src/parsers/dsjson_parser.rs
@@ -17,6 +17,10 @@ pub struct DsJsonParserFactory;
 impl TextModeParserFactory for DsJsonParserFactory {
     type Parser = DsJsonParser;
 
+    fn supports(&self, features_type: FeaturesType, label_type: LabelType) -> bool {
+        features_type == FeaturesType::SparseCBAdf && label_type == LabelType::CB
+    }
+
     fn create(
         &self,
         features_type: FeaturesType,
diff --git a/reductionml-core/src/parsers/text_parser.rs b/reductionml-core/src/parsers/text_parser.rs
index b0bd61f..ec20b47 100644
--- a/reductionml-core/src/parsers/text_parser.rs
+++ b/reductionml-core/src/parsers/text_parser.rs
@@ -8,6 +8,13 @@ use crate::{
 
 pub trait TextModeParserFactory {
     type Parser: TextModeParser;
+
+    /// Whether this format can describe features and labels of these types. `create` must not be
+    /// called with types that are not supported.
+    fn supports(&self, _features_type: FeaturesType, _label_type: LabelType) -> bool {
+        true
+    }
+
     fn create(
         &self,
         features_type: FeaturesType,
diff --git a/reductionml-python/src/parsers.rs b/reductionml-python/src/parsers.rs
index 3629d06..cb0297e 100644
--- a/reductionml-python/src/parsers.rs
+++ b/reductionml-python/src/parsers.rs
@@ -51,8 +51,16 @@ impl FormatType {
         label_type: LabelType,
         hash_seed: u32,
         num_bits: u8,
-    ) -> Box<dyn TextModeParser> {
-        match self {
+    ) -> PyResult<Box<dyn TextModeParser>> {
+        if let FormatType::DsJson = self {
+            let factory = reductionml_core::parsers::DsJsonParserFactory::default();
+            if !factory.supports(features_type, label_type) {
+                return Err(PyValueError::new_err(
+                    "The DsJson format only supports CbAdf features with CB labels",
+                ));
+            }
+        }
+        Ok(match self {
             FormatType::VwText => Box::new(
                 reductionml_core::parsers::VwTextParserFactory::default().create(
                     features_type,
@@ -80,7 +88,7 @@ impl FormatType {
                     SPARSE_FEATURES_POOL.clone(),
                 ),
             ),
-        }
+        })
     }
 }
 
@@ -98,7 +106,7 @@ pub(crate) fn create_parser(
         )));
     }
     let parser =
-        format_type.get_parser(features_type.into(), label_type.into(), hash_seed, num_bits);
+        format_type.get_parser(features_type.into(), label_type.into(), hash_seed, num_bits)?;
     match format_type {
         FormatType::VwText => Ok(WrappedParser::WrappedParserTextOnly(WrappedParserTextOnly(
             parser.into(),
-- 
2.43.0


From d4259aac8d1004d9874fbd6dfc1b0ed4e3923a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:16 +0000
Subject: [PATCH 43/43] fix: predicting with a binary model from Python
 panicked

---
 reductionml-python/python/reductionml/__init__.py      | 2 +-
 reductionml-python/python/reductionml/_reductionml.pyi | 4 ++--
 reductionml-python/src/predictions.rs                  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/reductionml-python/python/reductionml/__init__.py b/reductionml-python/python/reductionml/__init__.py
index d54bff2..06a3f1c 100644
--- a/reductionml-python/python/reductionml/__init__.py
+++ b/reductionml-python/python/reductionml/__init__.py
@@ -81,7 +81,7 @@ class Config(TypedDict):
 
 Features = typing.Union[SparseFeatures, CbAdfFeatures]
 Label = typing.Union[SimpleLabel, CbLabel]
-Prediction = typing.Union[ScalarPred, ActionScoresPred, ActionProbsPred]
+Prediction = typing.Union[bool, ScalarPred, ActionScoresPred, ActionProbsPred]
 
 
 class Workspace:
diff --git a/reductionml-python/python/reductionml/_reductionml.pyi b/reductionml-python/python/reductionml/_reductionml.pyi
index 9931216..bf93824 100644
--- a/reductionml-python/python/reductionml/_reductionml.pyi
+++ b/reductionml-python/python/reductionml/_reductionml.pyi
@@ -150,7 +150,7 @@ class Workspace:
     ) -> Union[TextParser, JsonParser]: ...
     def predict(
         self, features: Union[SparseFeatures, CbAdfFeatures]
-    ) -> Union[ScalarPred, ActionScoresPred, ActionProbsPred]: ...
+    ) -> Union[bool, ScalarPred, ActionScoresPred, ActionProbsPred]: ...
     def learn(
         self,
         features: Union[SparseFeatures, CbAdfFeatures],
@@ -160,6 +160,6 @@ class Workspace:
         self,
         features: Union[SparseFeatures, CbAdfFeatures],
         label: Union[SimpleLabel, CbLabel],
-    ) -> Union[ScalarPred, ActionScoresPred, ActionProbsPred]: ...
+    ) -> Union[bool, ScalarPred, ActionScoresPred, ActionProbsPred]: ...
 
 def version() -> str: ...
diff --git a/reductionml-python/src/predictions.rs b/reductionml-python/src/predictions.rs
index 6b72ad7..92868b0 100644
--- a/reductionml-python/src/predictions.rs
+++ b/reductionml-python/src/predictions.rs
@@ -150,7 +150,7 @@ impl IntoPy<PyObject> for WrappedPrediction {
     fn into_py(self, py: Python) -> PyObject {
         match self.0 {
             reductionml_core::Prediction::Scalar(pred) => WrappedScalarPrediction(pred).into_py(py),
-            reductionml_core::Prediction::Binary(_) => todo!(),
+            reductionml_core::Prediction::Binary(pred) => pred.0.into_py(py),
             reductionml_core::Prediction::ActionScores(pred) => {
                 WrappedActionScoresPrediction(pred).into_py(py)
             }
-- 
2.43.0

