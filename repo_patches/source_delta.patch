From f48e6e3daaa9fde1b200aa32d61dac7982aa17d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 01/66] fix: never replace an already rotated log file on
 rotation

Two rotations within the same millisecond, or a wall clock moving backwards, renamed the
current log file over an older rotated one, losing its content.
---
 crates/rolling-logger/src/lib.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/rolling-logger/src/lib.rs b/crates/rolling-logger/src/lib.rs
index f5e161c..14a0b29 100644
--- a/crates/rolling-logger/src/lib.rs
+++ b/crates/rolling-logger/src/lib.rs
@@ -69,16 +69,33 @@ impl RollingLogger {
     fn flush_and_rotate(&mut self) -> io::Result<()> {
         self.flush()?;
 
-        let mut path = self.path.as_os_str().to_os_string();
-        path.push(format!(".{}", self.file.timestamp()));
-
-        std::fs::rename(&self.path, &path)?;
+        std::fs::rename(&self.path, self.rotated_path()?)?;
 
         self.file = LogFile::new(&self.path, self.file.copy_new_rotate())?;
 
         Ok(())
     }
 
+    /// Returns a path for the rotated log file that isn't used yet. The start timestamp alone isn't
+    /// necessarily unique: a file can be rotated twice within a millisecond, or the clock can be
+    /// adjusted, and renaming to an existing path would silently replace an older log file.
+    fn rotated_path(&self) -> io::Result<PathBuf> {
+        let mut timestamp = self.file.timestamp();
+
+        loop {
+            let mut path = self.path.as_os_str().to_os_string();
+            path.push(format!(".{timestamp}"));
+
+            let path = PathBuf::from(path);
+
+            if !path.try_exists()? {
+                return Ok(path);
+            }
+
+            timestamp += 1;
+        }
+    }
+
     #[cfg(test)]
     pub(crate) fn set_rotate_start(&mut self, start: std::time::SystemTime) {
         self.file.set_rotate_start(start);
-- 
2.43.0


From 6240874355dc219281c27d7280ed35aa105c71bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 02/66] fix: recover from a rotation that could not create the
 new log file

Once the current log file had been renamed and creating its successor had failed, every later
write failed forever, as there was no file left to rename.
---
 crates/rolling-logger/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/rolling-logger/src/lib.rs b/crates/rolling-logger/src/lib.rs
index 14a0b29..9ca1f67 100644
--- a/crates/rolling-logger/src/lib.rs
+++ b/crates/rolling-logger/src/lib.rs
@@ -69,7 +69,12 @@ impl RollingLogger {
     fn flush_and_rotate(&mut self) -> io::Result<()> {
         self.flush()?;
 
-        std::fs::rename(&self.path, self.rotated_path()?)?;
+        match std::fs::rename(&self.path, self.rotated_path()?) {
+            Ok(()) => (),
+            // An earlier rotation may have moved the file, but failed to create the new one.
+            Err(err) if err.kind() == io::ErrorKind::NotFound => (),
+            Err(err) => return Err(err),
+        }
 
         self.file = LogFile::new(&self.path, self.file.copy_new_rotate())?;
 
-- 
2.43.0


From 3f7bef9e3b23a9fc17b93d2beec1fe98f26e8e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 03/66] fix: never truncate an existing log file when opening
 it

Whenever checking for the existence of the log file failed, the file was considered to be missing
and truncated.
---
 crates/rolling-logger/src/log_file.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/rolling-logger/src/log_file.rs b/crates/rolling-logger/src/log_file.rs
index 80097df..94c9157 100644
--- a/crates/rolling-logger/src/log_file.rs
+++ b/crates/rolling-logger/src/log_file.rs
@@ -48,11 +48,7 @@ impl LogFile {
     /// Returns an `io::Result<Self>`, which is `Ok` if the log file was created successfully,
     /// or an `io::Error` if there was an issue creating the file.
     pub fn new(path: &Path, rotate_strategy: RotateStrategy) -> io::Result<Self> {
-        let file = if path.exists() {
-            File::options().append(true).open(path)?
-        } else {
-            File::create(path)?
-        };
+        let file = File::options().append(true).create(true).open(path)?;
 
         let size = fs::metadata(path).map_or(0, |m| m.len());
 
-- 
2.43.0


From 613f0d24f4dcae920359477a9cd79e06f8c84f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 04/66] fix: only count the bytes written to the log file
 towards its size

Failed and partial writes were counted in full, rotating the log file too early.
---
 crates/rolling-logger/src/log_file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/rolling-logger/src/log_file.rs b/crates/rolling-logger/src/log_file.rs
index 94c9157..2103f00 100644
--- a/crates/rolling-logger/src/log_file.rs
+++ b/crates/rolling-logger/src/log_file.rs
@@ -98,8 +98,10 @@ impl LogFile {
 
 impl Write for LogFile {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
-        self.size += buf.len() as u64;
-        self.file.write(buf)
+        let written = self.file.write(buf)?;
+        self.size += written as u64;
+
+        Ok(written)
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From 829fff3d49527f7801959d9b56f9be3df733f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 05/66] fix: truncate exported log texts at a character
 boundary

A field, error or message whose size limit fell within a multi-byte character panicked while
logging.
---
 crates/telemetry/src/otel/logs/bridge.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/telemetry/src/otel/logs/bridge.rs b/crates/telemetry/src/otel/logs/bridge.rs
index e3b9e00..fe293aa 100644
--- a/crates/telemetry/src/otel/logs/bridge.rs
+++ b/crates/telemetry/src/otel/logs/bridge.rs
@@ -62,6 +62,17 @@ where
     Some((trace_id, span_id, flags))
 }
 
+/// Returns the longest prefix of at most `max_size` bytes that doesn't cut a character.
+fn prefix(s: &str, max_size: usize) -> &str {
+    let mut end = max_size.min(s.len());
+
+    while !s.is_char_boundary(end) {
+        end -= 1;
+    }
+
+    &s[..end]
+}
+
 const LOGGER_NAME: &str = "grafbase-gateway";
 
 /// Custom tracing layer that properly extracts trace context and sends logs to OpenTelemetry
@@ -124,7 +135,7 @@ where
         // Set the log body (message) with size limit
         let message = visitor.message.unwrap_or_else(|| metadata.name().to_string());
         let truncated_message = if message.len() > MAX_MESSAGE_SIZE {
-            format!("{}...[truncated]", &message[..MAX_MESSAGE_SIZE])
+            format!("{}...[truncated]", prefix(&message, MAX_MESSAGE_SIZE))
         } else {
             message
         };
@@ -201,7 +212,7 @@ impl LogRecordVisitor {
 
     fn truncate_string(s: String) -> String {
         if s.len() > MAX_FIELD_VALUE_SIZE {
-            format!("{}...[truncated]", &s[..MAX_FIELD_VALUE_SIZE])
+            format!("{}...[truncated]", prefix(&s, MAX_FIELD_VALUE_SIZE))
         } else {
             s
         }
-- 
2.43.0


From 28b69bf62722c803e2b90a49bf5d146cf22bfb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 06/66] fix: do not loop forever planning an interface field
 through an implementor the subgraph does not return

---
 .../query-solver/src/solution_space/builder/alternative.rs   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/engine/query-solver/src/solution_space/builder/alternative.rs b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
index c594579..5c02fd9 100644
--- a/crates/engine/query-solver/src/solution_space/builder/alternative.rs
+++ b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
@@ -205,7 +205,10 @@ where
                         std::cmp::Ordering::Greater => r += 1,
                         std::cmp::Ordering::Equal => {
                             let object = right[r].walk(self.schema);
-                            if !object.implements_interface_in_subgraph(&subgraph_id, &interface.id) {
+                            // The subgraph providing the parent will never return this object.
+                            if !parent_output.possible_types_include_in_subgraph(subgraph_id, object.id) {
+                                l += 1;
+                                r += 1;
                                 continue;
                             }
                             let object_field_definition = object
-- 
2.43.0


From 0aaed30af4bb7d00ae62d7721932780fa5f16c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 07/66] fix: do not execute a mutation field twice when its
 subgraph is called again

---
 .../engine/query-solver/src/post_process/mutation_order.rs  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/engine/query-solver/src/post_process/mutation_order.rs b/crates/engine/query-solver/src/post_process/mutation_order.rs
index 6bcf10e..470d8e7 100644
--- a/crates/engine/query-solver/src/post_process/mutation_order.rs
+++ b/crates/engine/query-solver/src/post_process/mutation_order.rs
@@ -54,9 +54,7 @@ pub(super) fn ensure_mutation_execution_order(query: &mut QuerySteinerSolution)
             .last()
             .filter(|(_, last_resolver_definition_id)| *last_resolver_definition_id == resolver_definition_id)
         {
-            if original_partition_node_ix == *last_partition_node_ix {
-                continue;
-            } else {
+            if original_partition_node_ix != *last_partition_node_ix {
                 if let Some(id) = query.graph.find_edge(original_partition_node_ix, field_node_ix) {
                     query.graph.remove_edge(id);
                 }
@@ -64,6 +62,8 @@ pub(super) fn ensure_mutation_execution_order(query: &mut QuerySteinerSolution)
                     .graph
                     .add_edge(*last_partition_node_ix, field_node_ix, Edge::Field);
             }
+            root_fields.push(field_node_ix);
+            continue;
         }
 
         // If original partition is already used, create a new one.
-- 
2.43.0


From b4a99abbacee60a66db2aab439fefefc5d141a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 08/66] fix: a default value makes a list variable non-null,
 not a list of lists

---
 crates/engine/operation/src/bind/operation.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/engine/operation/src/bind/operation.rs b/crates/engine/operation/src/bind/operation.rs
index dda4950..d4558e6 100644
--- a/crates/engine/operation/src/bind/operation.rs
+++ b/crates/engine/operation/src/bind/operation.rs
@@ -4,7 +4,7 @@ use cynic_parser::{
     executable::{Argument, Directive, FieldSelection, Iter, Selection},
 };
 use id_newtypes::IdRange;
-use schema::{CompositeType, FieldDefinition, ObjectDefinitionId, TypeDefinition, TypeRecord, Wrapping};
+use schema::{CompositeType, FieldDefinition, ObjectDefinitionId, TypeDefinition, TypeRecord};
 use std::collections::HashSet;
 use walker::Walk;
 
@@ -416,11 +416,7 @@ impl<'schema, 'p> OperationBinder<'schema, 'p> {
 
             match variable.default_value() {
                 Some(value) if !value.is_null() => {
-                    if ty.wrapping.is_list() {
-                        ty.wrapping = ty.wrapping.list_non_null();
-                    } else {
-                        ty.wrapping = Wrapping::default().non_null()
-                    }
+                    ty.wrapping = ty.wrapping.non_null();
                 }
                 _ => (),
             }
-- 
2.43.0


From df766f6e9cf37582103d830e7b276042de65bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 09/66] fix: split query partitions depending on each other
 through the keys of another partition

---
 .../src/post_process/partition_cycles.rs      | 51 +++++++++++++++----
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/crates/engine/query-solver/src/post_process/partition_cycles.rs b/crates/engine/query-solver/src/post_process/partition_cycles.rs
index 9859484..162d208 100644
--- a/crates/engine/query-solver/src/post_process/partition_cycles.rs
+++ b/crates/engine/query-solver/src/post_process/partition_cycles.rs
@@ -1,6 +1,7 @@
+use std::collections::{HashMap, HashSet};
+
 use operation::QueryPosition;
 use petgraph::graph::NodeIndex;
-use petgraph::visit::EdgeFiltered;
 use petgraph::visit::EdgeRef;
 use schema::ResolverDefinitionId;
 
@@ -66,6 +67,11 @@ pub(super) fn split_query_partition_dependency_cycles(
 
         nested_patitions_fields.sort_unstable_by(|a, b| a.position.cmp(&b.position));
 
+        let original_partitions = nested_patitions_fields
+            .iter()
+            .map(|field| (field.query_field_node_ix, field.original_partition_node_ix))
+            .collect::<HashMap<_, _>>();
+
         // Removing edges to the parent partitions
         for field in &nested_patitions_fields {
             if let Some(id) = query
@@ -98,19 +104,16 @@ pub(super) fn split_query_partition_dependency_cycles(
                             }
                         })
                         .any(|partition_query_field_node_ix| {
-                            let graph = EdgeFiltered::from_fn(&query.graph, |edge| {
-                                matches!(edge.weight(), Edge::RequiredBySubgraph)
-                            });
-                            petgraph::algo::has_path_connecting(
-                                &graph,
+                            depends_on(
+                                query,
+                                &original_partitions,
                                 partition_query_field_node_ix,
                                 query_field_node_ix,
-                                None,
-                            ) || petgraph::algo::has_path_connecting(
-                                &graph,
+                            ) || depends_on(
+                                query,
+                                &original_partitions,
                                 query_field_node_ix,
                                 partition_query_field_node_ix,
-                                None,
                             )
                         });
                     if is_connected { None } else { Some(*partition_node_ix) }
@@ -143,3 +146,31 @@ pub(super) fn split_query_partition_dependency_cycles(
         nested_partitions.clear();
     }
 }
+
+/// Whether retrieving a field requires another one first, either for itself or for the partition it's
+/// retrieved with.
+fn depends_on(
+    query: &QuerySteinerSolution,
+    original_partitions: &HashMap<NodeIndex, NodeIndex>,
+    field_node_ix: NodeIndex,
+    required_field_node_ix: NodeIndex,
+) -> bool {
+    let mut seen = HashSet::new();
+    let mut stack = vec![field_node_ix];
+    while let Some(node_ix) = stack.pop() {
+        for source_ix in std::iter::once(node_ix).chain(original_partitions.get(&node_ix).copied()) {
+            for edge in query.graph.edges(source_ix) {
+                if !matches!(edge.weight(), Edge::RequiredBySubgraph) {
+                    continue;
+                }
+                if edge.target() == required_field_node_ix {
+                    return true;
+                }
+                if seen.insert(edge.target()) {
+                    stack.push(edge.target());
+                }
+            }
+        }
+    }
+    false
+}
-- 
2.43.0


From 3ca678fce97b3e428dc40938ad6cd2a4c82fea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 10/66] fix: do not panic when subgraphs sharing a field
 disagree on its nullness

---
 crates/engine/src/response/write/merge.rs | 32 ++++++++++++++++-------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/engine/src/response/write/merge.rs b/crates/engine/src/response/write/merge.rs
index 42f8641..9215173 100644
--- a/crates/engine/src/response/write/merge.rs
+++ b/crates/engine/src/response/write/merge.rs
@@ -104,7 +104,8 @@ impl<'ctx> ResponseBuilder<'ctx> {
                     }
                 }
                 Ordering::Equal => {
-                    self.recursive_merge_value(existing_field.value.clone(), new_field.value);
+                    let merged = self.recursive_merge_value(existing_field.value.clone(), new_field.value);
+                    existing_fields[i].value = merged;
                     i += 1;
                     if let Some(next) = new_fields_sorted_by_key.pop_front() {
                         new_field = next;
@@ -120,25 +121,35 @@ impl<'ctx> ResponseBuilder<'ctx> {
         self.data_parts[object_id].fields_sorted_by_key = existing_fields;
     }
 
-    fn recursive_merge_value(&mut self, existing: ResponseValue, new: ResponseValue) {
+    /// Returns the value that should be kept.
+    fn recursive_merge_value(&mut self, existing: ResponseValue, new: ResponseValue) -> ResponseValue {
         match (existing, new) {
-            (ResponseValue::Object { id: existing_id, .. }, ResponseValue::Object { id: new_id, .. }) => {
+            (ResponseValue::Object { id: existing_id }, ResponseValue::Object { id: new_id }) => {
                 let new_fields_sorted_by_key = std::mem::take(&mut self.data_parts[new_id].fields_sorted_by_key);
                 self.recursive_merge_object(existing_id, new_fields_sorted_by_key);
+                ResponseValue::Object { id: existing_id }
             }
-            (ResponseValue::List { id: existing_id, .. }, ResponseValue::List { id: new_id, .. }) => {
-                self.recursive_merge_list(existing_id, new_id)
+            (ResponseValue::List { id: existing_id }, ResponseValue::List { id: new_id }) => {
+                self.recursive_merge_list(existing_id, new_id);
+                ResponseValue::List { id: existing_id }
             }
             (ResponseValue::Inaccessible { id: existing_id }, ResponseValue::Inaccessible { id: new_id }) => {
-                self.recursive_merge_value(self.data_parts[existing_id].clone(), self.data_parts[new_id].clone());
+                let merged =
+                    self.recursive_merge_value(self.data_parts[existing_id].clone(), self.data_parts[new_id].clone());
+                self.data_parts[existing_id] = merged;
+                ResponseValue::Inaccessible { id: existing_id }
             }
             (ResponseValue::Inaccessible { id }, new) => {
-                self.recursive_merge_value(self.data_parts[id].clone(), new);
+                let merged = self.recursive_merge_value(self.data_parts[id].clone(), new);
+                self.data_parts[id] = merged;
+                ResponseValue::Inaccessible { id }
             }
             (existing, ResponseValue::Inaccessible { id }) => {
-                self.recursive_merge_value(existing, self.data_parts[id].clone());
+                self.recursive_merge_value(existing, self.data_parts[id].clone())
             }
-            (ResponseValue::Null, ResponseValue::Null) => {}
+            // A subgraph failing to provide its share of a value, because of an error, makes it null as a
+            // whole.
+            (ResponseValue::Null, _) | (_, ResponseValue::Null) => ResponseValue::Null,
             (l, r) => {
                 unreachable!(
                     "Trying to merge something values that aren't a couple of objects/list/couple of nulls {l:?} | {r:?}"
@@ -153,7 +164,8 @@ impl<'ctx> ResponseBuilder<'ctx> {
             .get(i)
             .zip(self.data_parts[new_list_id].get(i))
         {
-            self.recursive_merge_value(existing.clone(), new.clone());
+            let merged = self.recursive_merge_value(existing.clone(), new.clone());
+            self.data_parts[existing_list_id][i] = merged;
             i += 1;
         }
         // FIXME: Unlikely but should generate an error here.
-- 
2.43.0


From abc6f93fcaa905478a43385b98807cfff59545b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 11/66] fix: default every missing field of a failed shared
 root request under its own key

---
 crates/engine/src/response/write/merge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/engine/src/response/write/merge.rs b/crates/engine/src/response/write/merge.rs
index 9215173..24919c7 100644
--- a/crates/engine/src/response/write/merge.rs
+++ b/crates/engine/src/response/write/merge.rs
@@ -62,7 +62,7 @@ impl<'ctx> ResponseBuilder<'ctx> {
         }
         for field in default_fields_sorted_by_key {
             existing_fields.push(ResponseObjectField {
-                key,
+                key: field.key(),
                 value: field.value.into(),
             });
         }
-- 
2.43.0


From 7873a699dcf3b1c3bd6afa55193b0a282dc65cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:28 +0000
Subject: [PATCH 12/66] fix: propagate nulls and run plans on the objects that
 others were merged into

---
 crates/engine/src/response/write/merge.rs | 86 +++++++++++++++++++----
 crates/engine/src/response/write/mod.rs   | 20 +++++-
 2 files changed, 92 insertions(+), 14 deletions(-)

diff --git a/crates/engine/src/response/write/merge.rs b/crates/engine/src/response/write/merge.rs
index 24919c7..b68d9f1 100644
--- a/crates/engine/src/response/write/merge.rs
+++ b/crates/engine/src/response/write/merge.rs
@@ -1,12 +1,58 @@
-use std::{cmp::Ordering, collections::VecDeque};
+use std::{
+    cmp::Ordering,
+    collections::{BTreeMap, VecDeque},
+};
 
 use crate::{
     prepare::DefaultFieldShape,
-    response::{ResponseListId, ResponseObjectField, ResponseObjectId, ResponseValue},
+    response::{ResponseListId, ResponseObjectField, ResponseObjectId, ResponseValue, ResponseValueId},
 };
 
 use super::ResponseBuilder;
 
+/// Objects and lists of a new part which were merged into existing ones and hence are not part of the
+/// response anymore.
+#[derive(Default)]
+pub(super) struct MergedValues {
+    objects: BTreeMap<ResponseObjectId, ResponseObjectId>,
+    lists: BTreeMap<ResponseListId, ResponseListId>,
+}
+
+impl MergedValues {
+    pub(super) fn is_empty(&self) -> bool {
+        self.objects.is_empty() && self.lists.is_empty()
+    }
+
+    pub(super) fn resolve_object(&self, id: ResponseObjectId) -> ResponseObjectId {
+        self.objects.get(&id).copied().unwrap_or(id)
+    }
+
+    pub(super) fn resolve_value(&self, value_id: ResponseValueId) -> ResponseValueId {
+        match value_id {
+            ResponseValueId::Field {
+                part_id,
+                object_id,
+                key,
+                nullable,
+            } => ResponseValueId::field(
+                self.resolve_object(ResponseObjectId { part_id, object_id }),
+                key,
+                nullable,
+            ),
+            ResponseValueId::Index {
+                part_id,
+                list_id,
+                index,
+                nullable,
+            } => {
+                let id = ResponseListId { part_id, list_id };
+                ResponseValueId::index(self.lists.get(&id).copied().unwrap_or(id), index, nullable)
+            }
+            ResponseValueId::IntListIndex { .. } | ResponseValueId::FloatListIndex { .. } => value_id,
+        }
+    }
+}
+
 impl<'ctx> ResponseBuilder<'ctx> {
     pub(super) fn merge_with_default_object(
         &mut self,
@@ -75,6 +121,7 @@ impl<'ctx> ResponseBuilder<'ctx> {
         &mut self,
         object_id: ResponseObjectId,
         new_fields_sorted_by_key: Vec<ResponseObjectField>,
+        merged_values: &mut MergedValues,
     ) {
         let mut new_fields_sorted_by_key = VecDeque::from(new_fields_sorted_by_key);
         let Some(mut new_field) = new_fields_sorted_by_key.pop_front() else {
@@ -104,7 +151,7 @@ impl<'ctx> ResponseBuilder<'ctx> {
                     }
                 }
                 Ordering::Equal => {
-                    let merged = self.recursive_merge_value(existing_field.value.clone(), new_field.value);
+                    let merged = self.recursive_merge_value(existing_field.value.clone(), new_field.value, merged_values);
                     existing_fields[i].value = merged;
                     i += 1;
                     if let Some(next) = new_fields_sorted_by_key.pop_front() {
@@ -122,30 +169,40 @@ impl<'ctx> ResponseBuilder<'ctx> {
     }
 
     /// Returns the value that should be kept.
-    fn recursive_merge_value(&mut self, existing: ResponseValue, new: ResponseValue) -> ResponseValue {
+    fn recursive_merge_value(
+        &mut self,
+        existing: ResponseValue,
+        new: ResponseValue,
+        merged_values: &mut MergedValues,
+    ) -> ResponseValue {
         match (existing, new) {
             (ResponseValue::Object { id: existing_id }, ResponseValue::Object { id: new_id }) => {
                 let new_fields_sorted_by_key = std::mem::take(&mut self.data_parts[new_id].fields_sorted_by_key);
-                self.recursive_merge_object(existing_id, new_fields_sorted_by_key);
+                merged_values.objects.insert(new_id, existing_id);
+                self.recursive_merge_object(existing_id, new_fields_sorted_by_key, merged_values);
                 ResponseValue::Object { id: existing_id }
             }
             (ResponseValue::List { id: existing_id }, ResponseValue::List { id: new_id }) => {
-                self.recursive_merge_list(existing_id, new_id);
+                merged_values.lists.insert(new_id, existing_id);
+                self.recursive_merge_list(existing_id, new_id, merged_values);
                 ResponseValue::List { id: existing_id }
             }
             (ResponseValue::Inaccessible { id: existing_id }, ResponseValue::Inaccessible { id: new_id }) => {
-                let merged =
-                    self.recursive_merge_value(self.data_parts[existing_id].clone(), self.data_parts[new_id].clone());
+                let merged = self.recursive_merge_value(
+                    self.data_parts[existing_id].clone(),
+                    self.data_parts[new_id].clone(),
+                    merged_values,
+                );
                 self.data_parts[existing_id] = merged;
                 ResponseValue::Inaccessible { id: existing_id }
             }
             (ResponseValue::Inaccessible { id }, new) => {
-                let merged = self.recursive_merge_value(self.data_parts[id].clone(), new);
+                let merged = self.recursive_merge_value(self.data_parts[id].clone(), new, merged_values);
                 self.data_parts[id] = merged;
                 ResponseValue::Inaccessible { id }
             }
             (existing, ResponseValue::Inaccessible { id }) => {
-                self.recursive_merge_value(existing, self.data_parts[id].clone())
+                self.recursive_merge_value(existing, self.data_parts[id].clone(), merged_values)
             }
             // A subgraph failing to provide its share of a value, because of an error, makes it null as a
             // whole.
@@ -158,13 +215,18 @@ impl<'ctx> ResponseBuilder<'ctx> {
         }
     }
 
-    fn recursive_merge_list(&mut self, existing_list_id: ResponseListId, new_list_id: ResponseListId) {
+    fn recursive_merge_list(
+        &mut self,
+        existing_list_id: ResponseListId,
+        new_list_id: ResponseListId,
+        merged_values: &mut MergedValues,
+    ) {
         let mut i = 0;
         while let Some((existing, new)) = self.data_parts[existing_list_id]
             .get(i)
             .zip(self.data_parts[new_list_id].get(i))
         {
-            let merged = self.recursive_merge_value(existing.clone(), new.clone());
+            let merged = self.recursive_merge_value(existing.clone(), new.clone(), merged_values);
             self.data_parts[existing_list_id][i] = merged;
             i += 1;
         }
diff --git a/crates/engine/src/response/write/mod.rs b/crates/engine/src/response/write/mod.rs
index d3d2fe3..0e381f4 100644
--- a/crates/engine/src/response/write/mod.rs
+++ b/crates/engine/src/response/write/mod.rs
@@ -80,7 +80,7 @@ impl<'ctx> ResponseBuilder<'ctx> {
         })
     }
 
-    pub fn ingest(&mut self, part: ResponsePartBuilder<'ctx>) -> PartIngestionResult {
+    pub fn ingest(&mut self, mut part: ResponsePartBuilder<'ctx>) -> PartIngestionResult {
         self.data_parts.insert(part.data);
         self.error_parts.push(part.errors);
 
@@ -91,12 +91,13 @@ impl<'ctx> ResponseBuilder<'ctx> {
 
         let mut has_ingested_data = false;
         let ctx = OperationPlanContext::from((self.schema.as_ref(), self.operation.as_ref()));
+        let mut merged_values = merge::MergedValues::default();
         for update in part.object_updates {
             match update {
                 ObjectUpdate::Fields(id, mut fields) => {
                     has_ingested_data = true;
                     fields.sort_unstable_by(|a, b| a.key.cmp(&b.key));
-                    self.recursive_merge_object(id, fields);
+                    self.recursive_merge_object(id, fields, &mut merged_values);
                 }
                 ObjectUpdate::Default(id, default_field_ids) => {
                     self.merge_with_default_object(id, default_field_ids.walk(ctx));
@@ -104,6 +105,21 @@ impl<'ctx> ResponseBuilder<'ctx> {
             }
         }
 
+        // The part still references the objects and lists which have been merged into existing ones.
+        if !merged_values.is_empty() {
+            for value_id in &mut part.propagated_null_at {
+                *value_id = merged_values.resolve_value(*value_id);
+            }
+            for (_, object_set) in &mut part.object_sets {
+                for object_ref in object_set {
+                    object_ref.id = merged_values.resolve_object(object_ref.id);
+                    for value_id in &mut object_ref.path {
+                        *value_id = merged_values.resolve_value(*value_id);
+                    }
+                }
+            }
+        }
+
         // Must be done after object updates, as it'll add nulls if the field doesn't exist yet.
         // And we don't merge null with something else than null, as we treat it as an indicator
         // that something went wrong.
-- 
2.43.0


From 5aebb1204bec16c4ff96a4d457480e9434e73274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 13/66] fix: look up free requirements of a query plan under
 the edge they were found on

---
 .../query-solver/src/solve/input/builder/requirements.rs   | 7 +++++--
 crates/engine/query-solver/src/solve/updater.rs            | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/engine/query-solver/src/solve/input/builder/requirements.rs b/crates/engine/query-solver/src/solve/input/builder/requirements.rs
index d27d151..bb53f0a 100644
--- a/crates/engine/query-solver/src/solve/input/builder/requirements.rs
+++ b/crates/engine/query-solver/src/solve/input/builder/requirements.rs
@@ -22,7 +22,7 @@ use crate::{
 #[derive(id_derives::IndexedFields)]
 pub(crate) struct DispensableRequirementsBuilder {
     free_requirements_by_node: Vec<(SteinerNodeId, IdRange<RequiredSpaceNodeId>)>,
-    free_requirements_by_edge: Vec<(SteinerEdgeId, IdRange<RequiredSpaceNodeId>)>,
+    free_requirements_by_edge: Vec<(SpaceEdgeId, IdRange<RequiredSpaceNodeId>)>,
     requirements_by_edge: Vec<DependentEdgeWithDispensableRequirements>,
     hasher: FxBuildHasher,
     interner: hashbrown::HashTable<IdRange<RequiredSpaceNodeId>>,
@@ -232,7 +232,10 @@ impl DispensableRequirementsBuilder {
                 required_space_node_ids,
             })
         }
-        for (edge_id, required_space_node_ids) in std::mem::take(&mut self.free_requirements_by_edge) {
+        for (space_edge_id, required_space_node_ids) in std::mem::take(&mut self.free_requirements_by_edge) {
+            let Some(edge_id) = builder.map.space_edge_id_to_edge_id.get(&space_edge_id).copied() else {
+                continue;
+            };
             let required_node_ids =
                 out.extend_extra_required_nodes(&builder.map, steiner_tree, required_space_node_ids, &mut buffer);
 
diff --git a/crates/engine/query-solver/src/solve/updater.rs b/crates/engine/query-solver/src/solve/updater.rs
index ddaf1bb..d68d5cd 100644
--- a/crates/engine/query-solver/src/solve/updater.rs
+++ b/crates/engine/query-solver/src/solve/updater.rs
@@ -190,7 +190,7 @@ impl<'state> FixedPointWeightAlgorithm<'state, '_, '_, '_, '_> {
         {
             if self.steiner_tree[edge_id] {
                 self.extend_terminals(required_node_ids, required_space_node_ids);
-                self.input.requirements.free_requirements_by_node.swap_remove(i);
+                self.input.requirements.free_requirements_by_edge.swap_remove(i);
             } else {
                 i += 1;
             }
-- 
2.43.0


From 195d39f577782a1ef51512f415ddfb68fa65496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 14/66] fix: do not panic on a query field removed together
 with its unreachable parent

---
 .../query-solver/src/solution_space/builder/alternative.rs   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/engine/query-solver/src/solution_space/builder/alternative.rs b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
index 5c02fd9..2207582 100644
--- a/crates/engine/query-solver/src/solution_space/builder/alternative.rs
+++ b/crates/engine/query-solver/src/solution_space/builder/alternative.rs
@@ -17,11 +17,12 @@ where
             query_field_node_ix,
         }: UnplannableField,
     ) -> crate::Result<()> {
-        let SpaceNode::Field(FieldNode {
+        // It may have been removed with an unreachable parent.
+        let Some(&SpaceNode::Field(FieldNode {
             id: query_field_id,
             flags,
             ..
-        }) = self.query.graph[query_field_node_ix]
+        })) = self.query.graph.node_weight(query_field_node_ix)
         else {
             return Ok(());
         };
-- 
2.43.0


From ffa654718e873c7a8bfc666c2f5312a7567146c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 15/66] fix: keep the nullable fields of an object whose
 subgraph request failed

---
 .../src/prepare/cached/builder/shapes/mod.rs       | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/engine/src/prepare/cached/builder/shapes/mod.rs b/crates/engine/src/prepare/cached/builder/shapes/mod.rs
index e262776..d4b0234 100644
--- a/crates/engine/src/prepare/cached/builder/shapes/mod.rs
+++ b/crates/engine/src/prepare/cached/builder/shapes/mod.rs
@@ -8,7 +8,8 @@ use im::HashSet;
 use itertools::Itertools;
 use operation::{QueryPosition, ResponseKey};
 use schema::{
-    CompositeType, CompositeTypeId, ObjectDefinitionId, Schema, SubgraphId, TypeDefinition, TypeDefinitionId,
+    CompositeType, CompositeTypeId, EntityDefinitionId, ObjectDefinitionId, Schema, SubgraphId, TypeDefinition,
+    TypeDefinitionId,
 };
 use walker::Walk;
 
@@ -65,7 +66,8 @@ impl Solver<'_> {
                 };
                 shape_id = id;
             };
-            query_partition.shape_id = builder.build_root_fields_shape(shape_id);
+            query_partition.shape_id =
+                builder.build_root_fields_shape(shape_id, query_partition.entity_definition_id);
         }
 
         let ShapesBuilder {
@@ -129,7 +131,11 @@ pub(super) struct ShapesBuilder<'ctx> {
 }
 
 impl<'ctx> ShapesBuilder<'ctx> {
-    fn build_root_fields_shape(&mut self, shape_id: ConcreteShapeId) -> RootFieldsShapeId {
+    fn build_root_fields_shape(
+        &mut self,
+        shape_id: ConcreteShapeId,
+        entity_definition_id: EntityDefinitionId,
+    ) -> RootFieldsShapeId {
         let shape = &self.shapes[shape_id];
         let mut propagate_null = false;
         let mut default_fields = Vec::new();
@@ -159,7 +165,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
 
         let typename_field_shapes = &self.shapes[shape.typename_shape_ids];
         if let Some(first_typename_shape) = typename_field_shapes.first() {
-            if let ObjectIdentifier::Known(object_id) = shape.identifier {
+            if let EntityDefinitionId::Object(object_id) = entity_definition_id {
                 let name_id = object_id.walk(self.ctx).name_id;
                 default_fields.extend(typename_field_shapes.iter().filter_map(|shape| {
                     shape
-- 
2.43.0


From a1a18eb75d5e6c9dec89e512c735b51cd5336848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 16/66] fix: ignore skipped fields when a subgraph request
 fails

---
 .../src/prepare/cached/builder/shapes/mod.rs  | 103 +++++++-----------
 .../engine/src/prepare/cached/shape/root.rs   |  66 ++++++++++-
 crates/engine/src/response/write/merge.rs     |   3 +-
 crates/engine/src/response/write/part.rs      |  12 +-
 4 files changed, 108 insertions(+), 76 deletions(-)

diff --git a/crates/engine/src/prepare/cached/builder/shapes/mod.rs b/crates/engine/src/prepare/cached/builder/shapes/mod.rs
index d4b0234..2046ef5 100644
--- a/crates/engine/src/prepare/cached/builder/shapes/mod.rs
+++ b/crates/engine/src/prepare/cached/builder/shapes/mod.rs
@@ -15,8 +15,8 @@ use walker::Walk;
 
 use crate::{
     prepare::{
-        BatchFieldShape, DataOrLookupFieldId, DefaultFieldShapeRecord, Derive, DerivedEntityShapeId,
-        DerivedEntityShapeRecord, LookupFieldId, OnRootFieldsError, RootFieldsShapeId, RootFieldsShapeRecord,
+        BatchFieldShape, DataOrLookupFieldId, DefaultFieldShapeId, DefaultFieldShapeRecord, DefaultFieldValue, Derive,
+        DerivedEntityShapeId, DerivedEntityShapeRecord, LookupFieldId, RootFieldsShapeId, RootFieldsShapeRecord,
         TypenameFieldId, TypenameShapeRecord,
         cached::{
             CachedOperationContext, ConcreteShapeId, ConcreteShapeRecord, DataFieldId, FieldShapeId, FieldShapeRecord,
@@ -66,8 +66,7 @@ impl Solver<'_> {
                 };
                 shape_id = id;
             };
-            query_partition.shape_id =
-                builder.build_root_fields_shape(shape_id, query_partition.entity_definition_id);
+            query_partition.shape_id = builder.build_root_fields_shape(shape_id, query_partition.entity_definition_id);
         }
 
         let ShapesBuilder {
@@ -137,9 +136,7 @@ impl<'ctx> ShapesBuilder<'ctx> {
         entity_definition_id: EntityDefinitionId,
     ) -> RootFieldsShapeId {
         let shape = &self.shapes[shape_id];
-        let mut propagate_null = false;
         let mut default_fields = Vec::new();
-        let mut location_and_key = None;
 
         for field_shape in &self.shapes[shape.field_shape_ids] {
             let Some(query_position) = field_shape.query_position_before_modifications else {
@@ -150,72 +147,52 @@ impl<'ctx> ShapesBuilder<'ctx> {
                 .as_data()
                 .walk(self.ctx)
                 .expect("We shouldn't generate errors for lookup fields");
-            location_and_key.get_or_insert_with(|| (field.location, field.response_key));
-            if propagate_null | field_shape.wrapping.is_non_null() {
-                propagate_null = true;
-                continue;
-            }
             default_fields.push(DefaultFieldShapeRecord {
                 query_position_before_modifications: query_position,
                 response_key: field_shape.response_key,
+                location: field.location,
                 id: field.id.into(),
-                value: None,
+                value: if field_shape.wrapping.is_non_null() {
+                    DefaultFieldValue::PropagateNull
+                } else {
+                    DefaultFieldValue::Null
+                },
             })
         }
 
-        let typename_field_shapes = &self.shapes[shape.typename_shape_ids];
-        if let Some(first_typename_shape) = typename_field_shapes.first() {
-            if let EntityDefinitionId::Object(object_id) = entity_definition_id {
-                let name_id = object_id.walk(self.ctx).name_id;
-                default_fields.extend(typename_field_shapes.iter().filter_map(|shape| {
-                    shape
-                        .query_position_before_modifications
-                        .map(|qp| DefaultFieldShapeRecord {
-                            query_position_before_modifications: qp,
-                            response_key: shape.response_key,
-                            id: shape.id.into(),
-                            value: Some(name_id),
-                        })
-                }));
-            } else {
-                propagate_null = true;
-                if location_and_key.is_none() {
-                    location_and_key = Some((first_typename_shape.location, first_typename_shape.response_key));
-                }
-            }
+        let typename_value = match entity_definition_id {
+            EntityDefinitionId::Object(object_id) => DefaultFieldValue::Typename(object_id.walk(self.ctx).name_id),
+            EntityDefinitionId::Interface(_) => DefaultFieldValue::PropagateNull,
+        };
+        for shape in &self.shapes[shape.typename_shape_ids] {
+            let Some(query_position) = shape.query_position_before_modifications else {
+                continue;
+            };
+            default_fields.push(DefaultFieldShapeRecord {
+                query_position_before_modifications: query_position,
+                response_key: shape.response_key,
+                location: shape.location,
+                id: shape.id.into(),
+                value: typename_value,
+            });
         }
 
-        let shape = if let Some(error_location_and_key) = location_and_key {
-            if propagate_null {
-                RootFieldsShapeRecord {
-                    concrete_shape_id: shape_id,
-                    on_error: OnRootFieldsError::PropagateNull { error_location_and_key },
-                }
-            } else {
-                default_fields.sort_unstable_by(|a, b| {
-                    let a = a
-                        .response_key
-                        .with_position(Some(a.query_position_before_modifications));
-                    let b = b
-                        .response_key
-                        .with_position(Some(b.query_position_before_modifications));
-                    a.cmp(&b)
-                });
-                let start = self.shapes.default_fields.len();
-                self.shapes.default_fields.append(&mut default_fields);
-                RootFieldsShapeRecord {
-                    concrete_shape_id: shape_id,
-                    on_error: OnRootFieldsError::Default {
-                        fields_sorted_by_key: (start..self.shapes.default_fields.len()).into(),
-                        error_location_and_key,
-                    },
-                }
-            }
-        } else {
-            RootFieldsShapeRecord {
-                concrete_shape_id: shape_id,
-                on_error: OnRootFieldsError::Skip,
-            }
+        let sort_key = |field: &DefaultFieldShapeRecord| {
+            field
+                .response_key
+                .with_position(Some(field.query_position_before_modifications))
+        };
+        let main_field_key = default_fields.first().map(sort_key);
+        default_fields.sort_unstable_by_key(sort_key);
+        let start = self.shapes.default_fields.len();
+        let main_field_id = main_field_key
+            .and_then(|key| default_fields.iter().position(|field| sort_key(field) == key))
+            .map(|ix| DefaultFieldShapeId::from(start + ix));
+        self.shapes.default_fields.append(&mut default_fields);
+        let shape = RootFieldsShapeRecord {
+            concrete_shape_id: shape_id,
+            fields_sorted_by_key: (start..self.shapes.default_fields.len()).into(),
+            main_field_id,
         };
 
         let id = self.shapes.root_fields.len().into();
diff --git a/crates/engine/src/prepare/cached/shape/root.rs b/crates/engine/src/prepare/cached/shape/root.rs
index e8c89b4..cfa050f 100644
--- a/crates/engine/src/prepare/cached/shape/root.rs
+++ b/crates/engine/src/prepare/cached/shape/root.rs
@@ -3,17 +3,21 @@ use operation::{Location, PositionedResponseKey, QueryPosition, ResponseKey};
 use schema::StringId;
 use walker::Walk;
 
-use crate::prepare::{ConcreteShapeId, OperationPlanContext, PartitionFieldId};
+use crate::{
+    prepare::{ConcreteShapeId, OperationPlanContext, PartitionFieldId},
+    response::ResponseValue,
+};
 
 use super::ConcreteShape;
 
 #[derive(Debug, serde::Serialize, serde::Deserialize)]
 pub(crate) struct RootFieldsShapeRecord {
     pub concrete_shape_id: ConcreteShapeId,
-    pub on_error: OnRootFieldsError,
+    pub fields_sorted_by_key: IdRange<DefaultFieldShapeId>,
+    /// Errors are reported on this field, unless it's skipped.
+    pub main_field_id: Option<DefaultFieldShapeId>,
 }
 
-#[derive(Debug, serde::Serialize, serde::Deserialize)]
 pub(crate) enum OnRootFieldsError {
     PropagateNull {
         error_location_and_key: (Location, ResponseKey),
@@ -67,6 +71,34 @@ impl<'a> RootFieldsShape<'a> {
     pub(crate) fn concrete_shape(&self) -> ConcreteShape<'a> {
         self.as_ref().concrete_shape_id.walk(self.ctx)
     }
+
+    /// Skipped fields (@skip, @include) aren't part of the response, so they have no influence on
+    /// what happens upon an error.
+    pub(crate) fn on_error(&self) -> OnRootFieldsError {
+        let fields_sorted_by_key = self.as_ref().fields_sorted_by_key;
+        let mut included_fields = fields_sorted_by_key
+            .walk(self.ctx)
+            .filter(|field| field.is_included())
+            .peekable();
+        let Some(error_field) = self
+            .main_field_id
+            .walk(self.ctx)
+            .filter(|field| field.is_included())
+            .or_else(|| included_fields.peek().copied())
+        else {
+            return OnRootFieldsError::Skip;
+        };
+        let error_location_and_key = (error_field.location, error_field.response_key);
+
+        if included_fields.any(|field| matches!(field.value, DefaultFieldValue::PropagateNull)) {
+            OnRootFieldsError::PropagateNull { error_location_and_key }
+        } else {
+            OnRootFieldsError::Default {
+                fields_sorted_by_key,
+                error_location_and_key,
+            }
+        }
+    }
 }
 
 #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy, Hash, serde::Serialize, serde::Deserialize, id_derives::Id)]
@@ -76,8 +108,26 @@ pub(crate) struct DefaultFieldShapeId(u32);
 pub struct DefaultFieldShapeRecord {
     pub query_position_before_modifications: QueryPosition,
     pub response_key: ResponseKey,
+    pub location: Location,
     pub id: PartitionFieldId,
-    pub value: Option<StringId>,
+    pub value: DefaultFieldValue,
+}
+
+#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
+pub enum DefaultFieldValue {
+    Null,
+    Typename(StringId),
+    /// The field has no valid value, the parent object must be null.
+    PropagateNull,
+}
+
+impl From<DefaultFieldValue> for ResponseValue {
+    fn from(value: DefaultFieldValue) -> Self {
+        match value {
+            DefaultFieldValue::Typename(id) => id.into(),
+            DefaultFieldValue::Null | DefaultFieldValue::PropagateNull => ResponseValue::Null,
+        }
+    }
 }
 
 #[derive(Clone, Copy)]
@@ -124,10 +174,14 @@ impl<'a> DefaultFieldShape<'a> {
             query_position: Some(shape.query_position_before_modifications),
             response_key: shape.response_key,
         }
-        .with_query_position_if(match shape.id {
+        .with_query_position_if(self.is_included())
+    }
+
+    pub fn is_included(&self) -> bool {
+        match self.as_ref().id {
             PartitionFieldId::Data(id) => self.ctx.plan.query_modifications.included_response_data_fields[id],
             PartitionFieldId::Lookup(_) => false,
             PartitionFieldId::Typename(id) => self.ctx.plan.query_modifications.included_response_typename_fields[id],
-        })
+        }
     }
 }
diff --git a/crates/engine/src/response/write/merge.rs b/crates/engine/src/response/write/merge.rs
index b68d9f1..f338ac0 100644
--- a/crates/engine/src/response/write/merge.rs
+++ b/crates/engine/src/response/write/merge.rs
@@ -151,7 +151,8 @@ impl<'ctx> ResponseBuilder<'ctx> {
                     }
                 }
                 Ordering::Equal => {
-                    let merged = self.recursive_merge_value(existing_field.value.clone(), new_field.value, merged_values);
+                    let merged =
+                        self.recursive_merge_value(existing_field.value.clone(), new_field.value, merged_values);
                     existing_fields[i].value = merged;
                     i += 1;
                     if let Some(next) = new_fields_sorted_by_key.pop_front() {
diff --git a/crates/engine/src/response/write/part.rs b/crates/engine/src/response/write/part.rs
index d16ba06..bb895d1 100644
--- a/crates/engine/src/response/write/part.rs
+++ b/crates/engine/src/response/write/part.rs
@@ -76,7 +76,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
 
     pub fn insert_empty_update(&mut self, parent_object: &ResponseObjectRef, shape_id: RootFieldsShapeId) {
         let shape = shape_id.walk((self.schema, self.operation));
-        match shape.on_error {
+        match shape.on_error() {
             OnRootFieldsError::PropagateNull { .. } => {
                 self.propagate_null_parent_path(&parent_object.path);
             }
@@ -100,7 +100,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
     ) {
         let parent_objects = parent_objects.into_iter();
         let shape = shape_id.walk((self.schema, self.operation));
-        match shape.on_error {
+        match shape.on_error() {
             OnRootFieldsError::PropagateNull { .. } => {
                 self.propagated_null_at.reserve(parent_objects.len());
                 for parent_object in parent_objects {
@@ -122,7 +122,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
 
     pub fn insert_propagated_empty_update(&mut self, parent_object: &ResponseObjectRef, shape_id: RootFieldsShapeId) {
         let shape = shape_id.walk((self.schema, self.operation));
-        match shape.on_error {
+        match shape.on_error() {
             OnRootFieldsError::Default {
                 fields_sorted_by_key, ..
             } => {
@@ -140,7 +140,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
         errors: impl IntoIterator<Item = GraphqlError>,
     ) {
         let shape = shape_id.walk((self.schema, self.operation));
-        match shape.on_error {
+        match shape.on_error() {
             OnRootFieldsError::PropagateNull {
                 error_location_and_key: (location, key),
             } => {
@@ -177,7 +177,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
         let mut parent_objects = parent_objects.into_iter();
         let shape = shape_id.walk((self.schema, self.operation));
         if let Some(first_parent_object) = parent_objects.next() {
-            match shape.on_error {
+            match shape.on_error() {
                 OnRootFieldsError::PropagateNull {
                     error_location_and_key: (location, key),
                 } => {
@@ -219,7 +219,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
         errors: impl IntoIterator<Item = GraphqlError>,
     ) {
         let shape = shape_id.walk((self.schema, self.operation));
-        match shape.on_error {
+        match shape.on_error() {
             OnRootFieldsError::PropagateNull {
                 error_location_and_key: (location, key),
             } => {
-- 
2.43.0


From 8e24b638a92cd4bce5bcd30a4bfbe33106d045e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 17/66] fix: lose exactly the fields of a subgraph response
 that can't be parsed

---
 .../src/resolver/graphql/federation/with_cache.rs   |  4 ++--
 crates/engine/src/response/data.rs                  |  8 ++++++--
 .../engine/src/response/write/deserialize/field.rs  |  2 +-
 .../src/response/write/deserialize/list/mod.rs      |  2 +-
 crates/engine/src/response/write/deserialize/mod.rs |  6 ------
 .../write/deserialize/root/batch_objects.rs         |  2 +-
 .../src/response/write/deserialize/root/object.rs   |  2 +-
 crates/engine/src/response/write/part.rs            | 13 -------------
 8 files changed, 12 insertions(+), 27 deletions(-)

diff --git a/crates/engine/src/resolver/graphql/federation/with_cache.rs b/crates/engine/src/resolver/graphql/federation/with_cache.rs
index 8c3a16e..54f9749 100644
--- a/crates/engine/src/resolver/graphql/federation/with_cache.rs
+++ b/crates/engine/src/resolver/graphql/federation/with_cache.rs
@@ -184,7 +184,7 @@ impl<'de> Visitor<'de> for PartiallyCachedEntitiesSeed<'_, '_, '_, 'de> {
                 }
                 Err(err) => {
                     match state.bubbling_up_deser_error.replace(true) {
-                        true => state.insert_propagated_empty_update(parent_object),
+                        true => state.insert_empty_update(parent_object),
                         false => {
                             tracing::error!(
                                 "Deserialization failure of subgraph response at path '{}': {err}",
@@ -201,7 +201,7 @@ impl<'de> Visitor<'de> for PartiallyCachedEntitiesSeed<'_, '_, '_, 'de> {
 
             if let Err(err) = state.parent_seed(parent_object).deserialize(raw_value) {
                 match state.bubbling_up_deser_error.replace(true) {
-                    true => state.insert_propagated_empty_update(parent_object),
+                    true => state.insert_empty_update(parent_object),
                     false => {
                         tracing::error!(
                             "Deserialization failure of subgraph response at path '{}': {err}",
diff --git a/crates/engine/src/response/data.rs b/crates/engine/src/response/data.rs
index 21e2303..778629e 100644
--- a/crates/engine/src/response/data.rs
+++ b/crates/engine/src/response/data.rs
@@ -292,8 +292,12 @@ impl DataPart {
                         value_id: PartInaccesibleValueId::from(self.inaccessible_values.len()),
                     },
                 };
-                std::mem::swap(&mut self[list_id][index as usize], &mut inaccessible_value);
-                self.inaccessible_values.push(inaccessible_value);
+                // The list is empty if it couldn't be de-serialized entirely, it isn't part of the
+                // response then.
+                if let Some(value) = self[list_id].get_mut(index as usize) {
+                    std::mem::swap(value, &mut inaccessible_value);
+                    self.inaccessible_values.push(inaccessible_value);
+                }
             }
             _ => unreachable!(
                 "Neither FloatList nor IntList can contain nullable data, so they can't be made inaccessible."
diff --git a/crates/engine/src/response/write/deserialize/field.rs b/crates/engine/src/response/write/deserialize/field.rs
index c83f26d..90cbf9b 100644
--- a/crates/engine/src/response/write/deserialize/field.rs
+++ b/crates/engine/src/response/write/deserialize/field.rs
@@ -93,7 +93,7 @@ impl<'de> DeserializeSeed<'de> for FieldSeed<'_, '_, '_> {
         };
 
         result.inspect_err(|err| {
-            if !self.state.bubbling_up_deser_error.replace(true) && self.state.should_report_error_for(self.field) {
+            if self.state.should_report_error_for(self.field) && !self.state.bubbling_up_deser_error.replace(true) {
                 tracing::error!(
                     "Deserialization failure of subgraph response at path '{}': {err}",
                     self.state.display_path()
diff --git a/crates/engine/src/response/write/deserialize/list/mod.rs b/crates/engine/src/response/write/deserialize/list/mod.rs
index 8f7103a..c044bb8 100644
--- a/crates/engine/src/response/write/deserialize/list/mod.rs
+++ b/crates/engine/src/response/write/deserialize/list/mod.rs
@@ -106,7 +106,7 @@ where
                     break;
                 }
                 Err(err) => {
-                    if !state.bubbling_up_deser_error.replace(true) && state.should_report_error_for(field) {
+                    if state.should_report_error_for(field) && !state.bubbling_up_deser_error.replace(true) {
                         tracing::error!(
                             "Deserialization failure of subgraph response at path '{}': {err}",
                             self.state.display_path()
diff --git a/crates/engine/src/response/write/deserialize/mod.rs b/crates/engine/src/response/write/deserialize/mod.rs
index 6ec2baf..8cad3f8 100644
--- a/crates/engine/src/response/write/deserialize/mod.rs
+++ b/crates/engine/src/response/write/deserialize/mod.rs
@@ -118,12 +118,6 @@ impl<'parent> SeedState<'_, 'parent> {
             .insert_empty_updates(parent_objects, self.root_shape.id);
     }
 
-    pub fn insert_propagated_empty_update(&self, parent_object: &'parent ResponseObjectRef) {
-        self.response
-            .borrow_mut()
-            .insert_propagated_empty_update(parent_object, self.root_shape.id);
-    }
-
     pub fn insert_error_update(
         &self,
         parent_object: &'parent ResponseObjectRef,
diff --git a/crates/engine/src/response/write/deserialize/root/batch_objects.rs b/crates/engine/src/response/write/deserialize/root/batch_objects.rs
index 45e2e3f..3b44f62 100644
--- a/crates/engine/src/response/write/deserialize/root/batch_objects.rs
+++ b/crates/engine/src/response/write/deserialize/root/batch_objects.rs
@@ -91,7 +91,7 @@ where
                 }
                 Err(err) => {
                     match state.bubbling_up_deser_error.replace(true) {
-                        true => state.insert_propagated_empty_update(parent_object),
+                        true => state.insert_empty_update(parent_object),
                         false => {
                             tracing::error!(
                                 "Deserialization failure of subgraph response at path '{}': {err}",
diff --git a/crates/engine/src/response/write/deserialize/root/object.rs b/crates/engine/src/response/write/deserialize/root/object.rs
index d790f05..7d43f34 100644
--- a/crates/engine/src/response/write/deserialize/root/object.rs
+++ b/crates/engine/src/response/write/deserialize/root/object.rs
@@ -63,7 +63,7 @@ impl<'de> DeserializeSeed<'de> for RootObjectSeed<'_, '_, '_> {
                 }
             })
             .inspect_err(|err| match state.bubbling_up_deser_error.replace(true) {
-                true => state.insert_propagated_empty_update(parent_object),
+                true => state.insert_empty_update(parent_object),
                 false => {
                     tracing::error!(
                         "Deserialization failure of subgraph response at path '{}': {err}",
diff --git a/crates/engine/src/response/write/part.rs b/crates/engine/src/response/write/part.rs
index bb895d1..de24e7c 100644
--- a/crates/engine/src/response/write/part.rs
+++ b/crates/engine/src/response/write/part.rs
@@ -120,19 +120,6 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
         }
     }
 
-    pub fn insert_propagated_empty_update(&mut self, parent_object: &ResponseObjectRef, shape_id: RootFieldsShapeId) {
-        let shape = shape_id.walk((self.schema, self.operation));
-        match shape.on_error() {
-            OnRootFieldsError::Default {
-                fields_sorted_by_key, ..
-            } => {
-                self.object_updates
-                    .push(ObjectUpdate::Default(parent_object.id, fields_sorted_by_key));
-            }
-            OnRootFieldsError::Skip | OnRootFieldsError::PropagateNull { .. } => {}
-        }
-    }
-
     pub fn insert_error_update(
         &mut self,
         parent_object: &ResponseObjectRef,
-- 
2.43.0


From 74088c633745fc0f6950a820648c4b362ca07160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 18/66] fix: continue with the next plans after one failed or
 had nothing to do

---
 .../src/execution/operation/coordinator.rs    | 25 +++++++++++------
 .../engine/src/prepare/cached/shape/root.rs   | 10 +++++--
 crates/engine/src/response/write/mod.rs       |  2 +-
 crates/engine/src/response/write/part.rs      | 28 +++++++++++++++----
 4 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/crates/engine/src/execution/operation/coordinator.rs b/crates/engine/src/execution/operation/coordinator.rs
index ca1a108..b1bf2f5 100644
--- a/crates/engine/src/execution/operation/coordinator.rs
+++ b/crates/engine/src/execution/operation/coordinator.rs
@@ -347,15 +347,19 @@ impl<'ctx, R: Runtime> OperationExecution<'ctx, R> {
     where
         'ctx: 'exec,
     {
-        let PartIngestionResult::Data { response_object_sets } = self.response.ingest(response_part) else {
-            tracing::trace!(%plan_id, "Failed");
-            return (self, Vec::new());
-        };
-
-        tracing::trace!(%plan_id, "Succeeded");
-
-        for (set_id, response_object_refs) in response_object_sets {
-            self.state.push_response_objects(set_id, response_object_refs);
+        match self.response.ingest(response_part) {
+            PartIngestionResult::Data { response_object_sets } => {
+                tracing::trace!(%plan_id, "Succeeded");
+                for (set_id, response_object_refs) in response_object_sets {
+                    self.state.push_response_objects(set_id, response_object_refs);
+                }
+            }
+            // Even if this plan failed, the next ones may still have objects to work with. Either
+            // they manage without the fields of this plan, like mutation root fields, or their own
+            // fields will be null.
+            PartIngestionResult::SubgraphFailure => {
+                tracing::trace!(%plan_id, "Failed");
+            }
         }
 
         let plan = plan_id.walk(&self.ctx);
@@ -369,6 +373,9 @@ impl<'ctx, R: Runtime> OperationExecution<'ctx, R> {
                 Executable::Plan(plan) => {
                     if let Some(fut) = self.create_plan_execution_future(plan) {
                         next_futures.push(fut);
+                    } else {
+                        // Without any objects there is nothing to do, but the next ones may have some.
+                        stack.append(&mut self.state.get_next_executables(plan));
                     }
                 }
                 Executable::ResponseModifier(response_modifier) => {
diff --git a/crates/engine/src/prepare/cached/shape/root.rs b/crates/engine/src/prepare/cached/shape/root.rs
index cfa050f..87f2d3b 100644
--- a/crates/engine/src/prepare/cached/shape/root.rs
+++ b/crates/engine/src/prepare/cached/shape/root.rs
@@ -26,7 +26,11 @@ pub(crate) enum OnRootFieldsError {
         fields_sorted_by_key: IdRange<DefaultFieldShapeId>,
         error_location_and_key: (Location, ResponseKey),
     },
-    Skip,
+    /// No field is part of the response.
+    Skip {
+        /// Whether other fields may be lost because of the missing ones.
+        is_required: bool,
+    },
 }
 
 #[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy, Hash, serde::Serialize, serde::Deserialize, id_derives::Id)]
@@ -86,7 +90,9 @@ impl<'a> RootFieldsShape<'a> {
             .filter(|field| field.is_included())
             .or_else(|| included_fields.peek().copied())
         else {
-            return OnRootFieldsError::Skip;
+            return OnRootFieldsError::Skip {
+                is_required: self.concrete_shape().fields().any(|field| !field.is_absent()),
+            };
         };
         let error_location_and_key = (error_field.location, error_field.response_key);
 
diff --git a/crates/engine/src/response/write/mod.rs b/crates/engine/src/response/write/mod.rs
index 0e381f4..174da24 100644
--- a/crates/engine/src/response/write/mod.rs
+++ b/crates/engine/src/response/write/mod.rs
@@ -132,7 +132,7 @@ impl<'ctx> ResponseBuilder<'ctx> {
                 response_object_sets: part.object_sets,
             }
         } else {
-            debug_assert!(part.object_sets.is_empty());
+            // Any object we may have is part of something we couldn't de-serialize entirely.
             PartIngestionResult::SubgraphFailure
         }
     }
diff --git a/crates/engine/src/response/write/part.rs b/crates/engine/src/response/write/part.rs
index de24e7c..83539ec 100644
--- a/crates/engine/src/response/write/part.rs
+++ b/crates/engine/src/response/write/part.rs
@@ -86,7 +86,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
                 self.object_updates
                     .push(ObjectUpdate::Default(parent_object.id, fields_sorted_by_key));
             }
-            OnRootFieldsError::Skip => {}
+            OnRootFieldsError::Skip { .. } => {}
         }
     }
 
@@ -116,7 +116,7 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
                         .push(ObjectUpdate::Default(parent_object.id, fields_sorted_by_key));
                 }
             }
-            OnRootFieldsError::Skip => {}
+            OnRootFieldsError::Skip { .. } => {}
         }
     }
 
@@ -148,7 +148,13 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
                 self.object_updates
                     .push(ObjectUpdate::Default(parent_object.id, fields_sorted_by_key));
             }
-            OnRootFieldsError::Skip => {}
+            OnRootFieldsError::Skip { is_required } => {
+                if is_required {
+                    for err in errors {
+                        self.errors.push(err.with_path(&parent_object.path));
+                    }
+                }
+            }
         }
     }
 
@@ -194,7 +200,13 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
                             .push(ObjectUpdate::Default(parent_object.id, fields_sorted_by_key));
                     }
                 }
-                OnRootFieldsError::Skip => {}
+                OnRootFieldsError::Skip { is_required } => {
+                    if is_required {
+                        for err in errors {
+                            self.errors.push(err.with_path(&first_parent_object.path));
+                        }
+                    }
+                }
             }
         }
     }
@@ -224,7 +236,13 @@ impl<'ctx> ResponsePartBuilder<'ctx> {
                         .push(err.with_location(location).with_path((&parent_object.path, key)));
                 }
             }
-            OnRootFieldsError::Skip => {}
+            OnRootFieldsError::Skip { is_required } => {
+                if is_required {
+                    for err in errors {
+                        self.errors.push(err.with_path(&parent_object.path));
+                    }
+                }
+            }
         }
     }
 
-- 
2.43.0


From 74de5469274336acf121ce40db0974da6d9cc0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 19/66] fix: never return objects that miss the share of a
 failed subgraph

---
 crates/engine/src/response/write/merge.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/engine/src/response/write/merge.rs b/crates/engine/src/response/write/merge.rs
index f338ac0..d8073b8 100644
--- a/crates/engine/src/response/write/merge.rs
+++ b/crates/engine/src/response/write/merge.rs
@@ -65,6 +65,7 @@ impl<'ctx> ResponseBuilder<'ctx> {
         let mut key = default_field.key();
 
         let mut existing_fields = std::mem::take(&mut self.data_parts[object_id].fields_sorted_by_key);
+        let mut incomplete_keys = Vec::new();
         let n = existing_fields.len();
         let mut i = 0;
         loop {
@@ -94,8 +95,15 @@ impl<'ctx> ResponseBuilder<'ctx> {
                     }
                 }
                 // When ingesting default fields, which we set to Null, we may encounter an actual
-                // value in the case of shared roots. In this case we keep the old value.
+                // value in the case of shared roots. Objects and lists miss the share of the failed
+                // plan, so they're null as a whole. But other plans may still need them.
                 Ordering::Equal => {
+                    if matches!(
+                        existing_field.value,
+                        ResponseValue::Object { .. } | ResponseValue::List { .. }
+                    ) {
+                        incomplete_keys.push(key);
+                    }
                     i += 1;
                     if let Some(next) = default_fields_sorted_by_key.next() {
                         default_field = next;
@@ -115,6 +123,10 @@ impl<'ctx> ResponseBuilder<'ctx> {
         existing_fields.sort_unstable_by(|a, b| a.key.cmp(&b.key));
 
         self.data_parts[object_id].fields_sorted_by_key = existing_fields;
+
+        for key in incomplete_keys {
+            self.data_parts[object_id.part_id].make_inaccessible(ResponseValueId::field(object_id, key, true));
+        }
     }
 
     pub(super) fn recursive_merge_object(
@@ -207,7 +219,8 @@ impl<'ctx> ResponseBuilder<'ctx> {
             }
             // A subgraph failing to provide its share of a value, because of an error, makes it null as a
             // whole.
-            (ResponseValue::Null, _) | (_, ResponseValue::Null) => ResponseValue::Null,
+            (ResponseValue::Null | ResponseValue::Unexpected, _)
+            | (_, ResponseValue::Null | ResponseValue::Unexpected) => ResponseValue::Null,
             (l, r) => {
                 unreachable!(
                     "Trying to merge something values that aren't a couple of objects/list/couple of nulls {l:?} | {r:?}"
-- 
2.43.0


From ae9d086cd5754b00ad7a069c129d03b73c900c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 20/66] fix: subgraph requests cancelled by the gateway timeout
 stayed in the in-flight metric

---
 crates/engine/src/resolver/graphql/context.rs | 35 ++++++++++++-------
 .../src/resolver/graphql/request/execute.rs   |  4 +--
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/crates/engine/src/resolver/graphql/context.rs b/crates/engine/src/resolver/graphql/context.rs
index 39d2c82..e22f447 100644
--- a/crates/engine/src/resolver/graphql/context.rs
+++ b/crates/engine/src/resolver/graphql/context.rs
@@ -13,7 +13,7 @@ use url::Url;
 use grafbase_telemetry::{
     graphql::SubgraphResponseStatus,
     metrics::{
-        SubgraphCacheHitAttributes, SubgraphCacheMissAttributes, SubgraphInFlightRequestAttributes,
+        EngineMetrics, SubgraphCacheHitAttributes, SubgraphCacheMissAttributes, SubgraphInFlightRequestAttributes,
         SubgraphRequestBodySizeAttributes, SubgraphRequestDurationAttributes, SubgraphRequestRetryAttributes,
         SubgraphResponseBodySizeAttributes,
     },
@@ -34,6 +34,20 @@ pub(crate) struct SubgraphContext<'ctx, R: Runtime> {
     send_count: usize,
 }
 
+pub(super) struct InflightRequest<'ctx> {
+    metrics: &'ctx EngineMetrics,
+    name: &'ctx str,
+}
+
+impl Drop for InflightRequest<'_> {
+    fn drop(&mut self) {
+        self.metrics
+            .decrement_subgraph_inflight_requests(SubgraphInFlightRequestAttributes {
+                name: self.name.to_string(),
+            });
+    }
+}
+
 impl<'ctx, R: Runtime> Deref for SubgraphContext<'ctx, R> {
     type Target = ExecutionContext<'ctx, R>;
 
@@ -114,19 +128,14 @@ impl<'ctx, R: Runtime> SubgraphContext<'ctx, R> {
         ResolverResult { response_part }
     }
 
-    pub(super) fn increment_inflight_requests(&mut self) {
+    /// The request is in flight until the guard is dropped, which also happens when it is cancelled
+    /// by the gateway timeout.
+    pub(super) fn track_inflight_request(&mut self) -> InflightRequest<'ctx> {
         self.send_count += 1;
-        self.metrics()
-            .increment_subgraph_inflight_requests(SubgraphInFlightRequestAttributes {
-                name: self.subgraph.name().to_string(),
-            });
-    }
-
-    pub(super) fn decrement_inflight_requests(&mut self) {
-        self.metrics()
-            .decrement_subgraph_inflight_requests(SubgraphInFlightRequestAttributes {
-                name: self.subgraph.name().to_string(),
-            });
+        let metrics = self.ctx.metrics();
+        let name = self.subgraph.name();
+        metrics.increment_subgraph_inflight_requests(SubgraphInFlightRequestAttributes { name: name.to_string() });
+        InflightRequest { metrics, name }
     }
 
     pub(super) fn record_cache_hit(&mut self) {
diff --git a/crates/engine/src/resolver/graphql/request/execute.rs b/crates/engine/src/resolver/graphql/request/execute.rs
index d813895..debd02c 100644
--- a/crates/engine/src/resolver/graphql/request/execute.rs
+++ b/crates/engine/src/resolver/graphql/request/execute.rs
@@ -289,9 +289,9 @@ where
             ctx.push_request_execution(RequestExecution::RateLimited);
         })?;
 
-    ctx.increment_inflight_requests();
+    let inflight_request = ctx.track_inflight_request();
     let (result, info) = fetch().await;
-    ctx.decrement_inflight_requests();
+    drop(inflight_request);
 
     match info {
         Some(info) => ctx.push_request_execution(RequestExecution::Response(info.build())),
-- 
2.43.0


From 1898689bf1b4e33b1390c4f27c4a5d4e3d2ce7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 21/66] fix: a subgraph's retry settings could not turn retries
 off, and retry_mutations was ignored in the global ones

---
 crates/engine/schema/src/builder/subgraphs.rs | 6 +++++-
 crates/engine/src/engine/retry_budget.rs      | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/engine/schema/src/builder/subgraphs.rs b/crates/engine/schema/src/builder/subgraphs.rs
index 326401e..0f273a0 100644
--- a/crates/engine/schema/src/builder/subgraphs.rs
+++ b/crates/engine/schema/src/builder/subgraphs.rs
@@ -81,7 +81,11 @@ impl<'sdl> SubgraphsBuilder<'sdl> {
                     header_rule_ids,
                     config: super::SubgraphConfig {
                         timeout,
-                        retry: retry.map(Into::into),
+                        retry: {
+                            // A subgraph's own configuration replaces the global one.
+                            let retry = retry.unwrap_or(config.gateway.retry);
+                            retry.enabled.then_some(retry.into())
+                        },
                         cache_ttl: entity_caching
                             .as_ref()
                             .and_then(|cfg| {
diff --git a/crates/engine/src/engine/retry_budget.rs b/crates/engine/src/engine/retry_budget.rs
index e38a257..de12ec4 100644
--- a/crates/engine/src/engine/retry_budget.rs
+++ b/crates/engine/src/engine/retry_budget.rs
@@ -15,7 +15,7 @@ impl RetryBudgets {
             by_graphql_endpoints: schema
                 .graphql_subgraphs()
                 .map(|subgraph| {
-                    let retry_config = subgraph.config.retry.as_ref().or(schema.config.retry.as_ref())?;
+                    let retry_config = subgraph.config.retry.as_ref()?;
 
                     // Defaults: https://docs.rs/tower/0.4.13/src/tower/retry/budget.rs.html#137-139
                     let ttl = retry_config.ttl.unwrap_or(std::time::Duration::from_secs(10));
-- 
2.43.0


From b7f0ebea69b75aa835eea359085a4da7b91b8a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 22/66] fix: a subgraph's entity_caching.enabled was ignored
 when it disagreed with the global one

---
 crates/engine/schema/src/builder/subgraphs.rs | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/crates/engine/schema/src/builder/subgraphs.rs b/crates/engine/schema/src/builder/subgraphs.rs
index 0f273a0..996c9d0 100644
--- a/crates/engine/schema/src/builder/subgraphs.rs
+++ b/crates/engine/schema/src/builder/subgraphs.rs
@@ -39,12 +39,6 @@ impl<'sdl> SubgraphsBuilder<'sdl> {
 
         subgraphs.default_header_rules = ingest_header_rules(&mut subgraphs.header_rules, &config.headers, interners);
 
-        let default_cache_ttl = if config.entity_caching.enabled {
-            Some(config.entity_caching.ttl)
-        } else {
-            None
-        };
-
         // Ensure we have a deterministic Schema object.
         let mut keys = sdl.subgraphs.keys().collect::<Vec<_>>();
         keys.sort_unstable();
@@ -86,15 +80,13 @@ impl<'sdl> SubgraphsBuilder<'sdl> {
                             let retry = retry.unwrap_or(config.gateway.retry);
                             retry.enabled.then_some(retry.into())
                         },
-                        cache_ttl: entity_caching
-                            .as_ref()
-                            .and_then(|cfg| {
-                                cfg.enabled
-                                    .unwrap_or(config.entity_caching.enabled)
-                                    .then_some(cfg.ttl)
-                                    .flatten()
-                            })
-                            .or(default_cache_ttl),
+                        cache_ttl: {
+                            // Whatever a subgraph's own configuration leaves out is taken from the global one.
+                            let cfg = entity_caching.unwrap_or_default();
+                            cfg.enabled
+                                .unwrap_or(config.entity_caching.enabled)
+                                .then(|| cfg.ttl.unwrap_or(config.entity_caching.ttl))
+                        },
                     },
                     schema_directive_ids: Vec::new(),
                 });
-- 
2.43.0


From 915498417a68c2caff1d3d91b4fb3bc7eb438c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 23/66] fix: a subgraph's Age beyond its max-age panicked the
 gateway

---
 crates/engine/src/resolver/graphql/cache.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/engine/src/resolver/graphql/cache.rs b/crates/engine/src/resolver/graphql/cache.rs
index 4b9975d..2c19024 100644
--- a/crates/engine/src/resolver/graphql/cache.rs
+++ b/crates/engine/src/resolver/graphql/cache.rs
@@ -39,10 +39,11 @@ pub(super) fn calculate_cache_ttl(
 
     let cache_ttl = cache_control
         .max_age()
-        .map(|max_age| max_age - Duration::from_secs(age.unwrap_or_default()))
+        .map(|max_age| max_age.saturating_sub(Duration::from_secs(age.unwrap_or_default())))
         .unwrap_or(subgraph_default_ttl);
 
-    Some(cache_ttl)
+    // A response that is as old as its max-age, or older, is already stale.
+    Some(cache_ttl).filter(|ttl| !ttl.is_zero())
 }
 
 pub(super) async fn fetch_response<R: Runtime>(
-- 
2.43.0


From aceef9bb416c11c99f4114d1a7b137d48e008efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 24/66] fix: entity cache keys left out the query, so that
 other fields of an entity were answered with what was cached

---
 crates/engine/src/resolver/graphql/cache.rs   | 23 +++++++++++++++----
 .../engine/src/resolver/graphql/federation.rs | 10 +++++++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/crates/engine/src/resolver/graphql/cache.rs b/crates/engine/src/resolver/graphql/cache.rs
index 2c19024..3150edc 100644
--- a/crates/engine/src/resolver/graphql/cache.rs
+++ b/crates/engine/src/resolver/graphql/cache.rs
@@ -10,7 +10,10 @@ use std::time::Duration;
 
 use crate::{Runtime, response::ParentObjectId};
 
-use super::{EntityToFetch, SubgraphContext};
+use super::{
+    EntityToFetch, SubgraphContext,
+    request::{PreparedFederationEntityOperation, SubgraphVariables},
+};
 
 pub(super) fn calculate_cache_ttl(
     status: GraphqlResponseStatus,
@@ -82,8 +85,9 @@ pub(super) struct ResponseCacheMiss {
 pub(super) async fn fetch_entities<R: Runtime>(
     ctx: &mut SubgraphContext<'_, R>,
     subgraph_headers: &http::HeaderMap,
+    subgraph_operation: &PreparedFederationEntityOperation,
     entities_to_fetch: Vec<EntityToFetch>,
-) -> CacheFetchEntitiesOutcome {
+) -> serde_json::Result<CacheFetchEntitiesOutcome> {
     let entity_cache = ctx.runtime().entity_cache();
 
     // let additional_scopes = plan
@@ -105,7 +109,18 @@ pub(super) async fn fetch_entities<R: Runtime>(
     // FIXME: handle cache scopes
     let additional_scopes = Vec::new();
 
-    let hasher = prepare_key_hasher(ctx.endpoint().name(), subgraph_headers, &additional_scopes);
+    // What we get for an entity depends on the query and its variables, not only on the representation.
+    let variables = serde_json::to_vec(&SubgraphVariables::<()> {
+        ctx: ctx.input_value_context(),
+        variables: &subgraph_operation.variables,
+        extra_variables: Vec::new(),
+    })?;
+
+    let mut hasher = prepare_key_hasher(ctx.endpoint().name(), subgraph_headers, &additional_scopes);
+    for part in [subgraph_operation.query.as_bytes(), &variables] {
+        hasher.update(&part.len().to_le_bytes());
+        hasher.update(part);
+    }
     let fetches = entities_to_fetch
         .into_iter()
         .map(|EntityToFetch { id, representation }| {
@@ -118,7 +133,7 @@ pub(super) async fn fetch_entities<R: Runtime>(
         });
 
     let (hits, misses) = join_all(fetches).await.into_iter().partition_result();
-    CacheFetchEntitiesOutcome { hits, misses }
+    Ok(CacheFetchEntitiesOutcome { hits, misses })
 }
 
 pub(super) struct CacheFetchEntitiesOutcome {
diff --git a/crates/engine/src/resolver/graphql/federation.rs b/crates/engine/src/resolver/graphql/federation.rs
index e5950ab..5853660 100644
--- a/crates/engine/src/resolver/graphql/federation.rs
+++ b/crates/engine/src/resolver/graphql/federation.rs
@@ -273,7 +273,15 @@ pub(super) async fn fetch_entities_with_cache<'ctx, R: Runtime>(
     shape_id: RootFieldsShapeId,
     mut response_part: ResponsePartBuilder<'ctx>,
 ) -> ResponsePartBuilder<'ctx> {
-    let cache_fetch_outcome = super::cache::fetch_entities(ctx, &subgraph_headers, entities_to_fetch).await;
+    let cache_fetch_outcome =
+        match super::cache::fetch_entities(ctx, &subgraph_headers, subgraph_operation, entities_to_fetch).await {
+            Ok(outcome) => outcome,
+            Err(err) => {
+                tracing::error!("Failed to serialize variables: {err}");
+                response_part.insert_error_updates(&parent_objects, shape_id, [GraphqlError::internal_server_error()]);
+                return response_part;
+            }
+        };
     if cache_fetch_outcome.misses.is_empty() {
         ctx.record_cache_hit();
         let state = response_part.into_seed_state(shape_id);
-- 
2.43.0


From 3b5a939ecefe195e46df6d3dd35de30a23e25adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 25/66] fix: mutations were answered from the entity cache

---
 crates/engine/src/resolver/graphql/root_fields.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/engine/src/resolver/graphql/root_fields.rs b/crates/engine/src/resolver/graphql/root_fields.rs
index 2e910de..ca8e439 100644
--- a/crates/engine/src/resolver/graphql/root_fields.rs
+++ b/crates/engine/src/resolver/graphql/root_fields.rs
@@ -122,12 +122,11 @@ impl GraphqlResolver {
         async {
             let subgraph_headers = ctx.subgraph_headers_with_rules(ctx.endpoint().header_rules());
 
-            if ctx.endpoint().config.cache_ttl.is_some() {
+            if ctx.endpoint().config.cache_ttl.is_some() && !self.ty.is_mutation() {
                 fetch_response_with_cache(
                     ctx,
                     parent_objects,
                     subgraph_headers,
-                    self.ty.is_mutation(),
                     body,
                     plan.shape().id,
                     response_part,
@@ -209,7 +208,6 @@ async fn fetch_response_with_cache<'ctx, R: Runtime>(
     ctx: &mut SubgraphContext<'ctx, R>,
     parent_objects: ParentObjectSet,
     subgraph_headers: http::HeaderMap,
-    is_mutation: bool,
     body: Vec<u8>,
     shape_id: RootFieldsShapeId,
     response_part: ResponsePartBuilder<'ctx>,
@@ -231,7 +229,7 @@ async fn fetch_response_with_cache<'ctx, R: Runtime>(
                 shape_id,
             };
 
-            execute_subgraph_request(ctx, subgraph_headers, is_mutation, body, response_part, ingester).await
+            execute_subgraph_request(ctx, subgraph_headers, false, body, response_part, ingester).await
         }
     }
 }
-- 
2.43.0


From 7daa65478bb77b2e3b7df01ce8b0b5407f05d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:03 +0000
Subject: [PATCH 26/66] fix: float defaults of a federated graph were rendered
 as integers, which may be too large to be read back

---
 .../src/federated_graph/render_sdl/display_utils.rs            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index 951a624..289121c 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -96,7 +96,8 @@ impl fmt::Display for ValueDisplay<'_> {
             Value::Null => f.write_str("null"),
             Value::String(s) => display_graphql_string_literal(&graph[*s], f),
             Value::Int(i) => Display::fmt(i, f),
-            Value::Float(val) => Display::fmt(val, f),
+            // `Debug` keeps the decimal point or the exponent: without it, the value would be read back as an integer.
+            Value::Float(val) => fmt::Debug::fmt(val, f),
             Value::UnboundEnumValue(val) => f.write_str(&graph[*val]),
             Value::EnumValue(val) => f.write_str(&graph[graph[*val].value]),
             Value::Boolean(true) => f.write_str("true"),
-- 
2.43.0


From 8de3f5e60dfde814968ee15b0160772d699c4255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 27/66] fix: triple quotes in a description ended it early in
 rendered schemas

---
 .../src/federated_graph/render_sdl/display_utils.rs              | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index 289121c..f776cc6 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -70,6 +70,7 @@ impl fmt::Display for Description<'_> {
 
         writeln!(f, r#"{indentation}""""#)?;
 
+        let description = description.replace(r#"""""#, r#"\""""#);
         let mut lines = description.lines().skip_while(|line| line.is_empty()).peekable();
 
         while let Some(line) = lines.next() {
-- 
2.43.0


From f29f3e526064f0d833f0bcd82379511623f557f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:44 +0000
Subject: [PATCH 28/66] fix: control characters in strings were escaped with
 decimal rather than hexadecimal codes

---
 crates/engine/schema/src/input_value/walker/display.rs          | 2 +-
 crates/engine/schema/src/sdl.rs                                 | 2 +-
 .../src/federated_graph/render_sdl/display_utils.rs             | 2 +-
 crates/mcp/src/tools/sdl/buffer.rs                              | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/engine/schema/src/input_value/walker/display.rs b/crates/engine/schema/src/input_value/walker/display.rs
index fc58bfe..edb622d 100644
--- a/crates/engine/schema/src/input_value/walker/display.rs
+++ b/crates/engine/schema/src/input_value/walker/display.rs
@@ -44,7 +44,7 @@ fn write_quoted(s: &str, f: &mut Formatter<'_>) -> Result {
             '\t' => f.write_str("\\t"),
             '"' => f.write_str("\\\""),
             '\\' => f.write_str("\\\\"),
-            c if c.is_control() => write!(f, "\\u{:04}", c as u32),
+            c if c.is_control() => write!(f, "\\u{:04x}", c as u32),
             c => f.write_char(c),
         }?;
     }
diff --git a/crates/engine/schema/src/sdl.rs b/crates/engine/schema/src/sdl.rs
index 499e210..8cc0e64 100644
--- a/crates/engine/schema/src/sdl.rs
+++ b/crates/engine/schema/src/sdl.rs
@@ -83,7 +83,7 @@ pub(crate) fn write_quoted_string(writer: &mut impl Write, value: &str) -> fmt::
             '\t' => writer.write_str("\\t")?,
             '"' => writer.write_str("\\\"")?,
             '\\' => writer.write_str("\\\\")?,
-            c if c.is_control() => write!(writer, "\\u{:04}", c as u32)?,
+            c if c.is_control() => write!(writer, "\\u{:04x}", c as u32)?,
             c => writer.write_char(c)?,
         }
     }
diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
index f776cc6..8ee8cfe 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/display_utils.rs
@@ -37,7 +37,7 @@ pub(crate) fn display_graphql_string_literal(string: &str, f: &mut fmt::Formatte
             '\t' => f.write_str("\\t"),
             '\\' => f.write_str("\\\\"),
             '"' => f.write_str("\\\""),
-            c if c.is_control() => write!(f, "\\u{:04}", c as u32),
+            c if c.is_control() => write!(f, "\\u{:04x}", c as u32),
             c => f.write_char(c),
         }?
     }
diff --git a/crates/mcp/src/tools/sdl/buffer.rs b/crates/mcp/src/tools/sdl/buffer.rs
index 653e298..8fb354a 100644
--- a/crates/mcp/src/tools/sdl/buffer.rs
+++ b/crates/mcp/src/tools/sdl/buffer.rs
@@ -44,7 +44,7 @@ impl<'a> Buffer<'a> {
                 '\t' => self.buf.push_str("\\t"),
                 '"' => self.buf.push_str("\\\""),
                 '\\' => self.buf.push_str("\\\\"),
-                c if c.is_control() => write!(self.buf, "\\u{:04}", c as u32).unwrap(),
+                c if c.is_control() => write!(self.buf, "\\u{:04x}", c as u32).unwrap(),
                 c => self.buf.push(c),
             };
         }
-- 
2.43.0


From c9b2f68f5dc2a8ea06546ed161ebf29267c2c312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 29/66] fix: lists were composed with non-lists and lists of
 another depth

---
 .../src/subgraphs/field_types.rs                | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/graphql-composition/src/subgraphs/field_types.rs b/crates/graphql-composition/src/subgraphs/field_types.rs
index 5e33db1..283307c 100644
--- a/crates/graphql-composition/src/subgraphs/field_types.rs
+++ b/crates/graphql-composition/src/subgraphs/field_types.rs
@@ -33,9 +33,15 @@ impl FieldType {
             return None;
         }
 
-        let mut self_wrappers = self.wrapping.list_wrappings();
-        let mut other_wrappers = other.wrapping.list_wrappings();
-        let mut zipped_wrappers = (&mut self_wrappers).zip(&mut other_wrappers).peekable();
+        let self_wrappers = self.wrapping.list_wrappings();
+        let other_wrappers = other.wrapping.list_wrappings();
+
+        // The wrappers should have the same level of nesting.
+        if self_wrappers.len() != other_wrappers.len() {
+            return None;
+        }
+
+        let mut zipped_wrappers = self_wrappers.zip(other_wrappers).peekable();
 
         // Check that the inner requiredness matches if there are wrappers.
         if zipped_wrappers.peek().is_some() && (self.inner_is_required() != other.inner_is_required()) {
@@ -44,11 +50,6 @@ impl FieldType {
 
         while let Some((self_wrapper, other_wrapper)) = zipped_wrappers.next() {
             if zipped_wrappers.peek().is_none() {
-                // The wrappers should have the same level of nesting.
-                if self_wrappers.next().is_some() || other_wrappers.next().is_some() {
-                    return None;
-                }
-
                 // We reached the outermost list wrappers: return which is required.
                 return Some(matches!(other_wrapper, ListWrapping::ListNonNull));
             }
-- 
2.43.0


From 2f44ad1c9c818104ecd39549014cc071a77ec4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:07 +0000
Subject: [PATCH 30/66] fix: definitions of different kinds were merged, unless
 the first one was an object

---
 crates/graphql-composition/src/compose.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/graphql-composition/src/compose.rs b/crates/graphql-composition/src/compose.rs
index c725251..f5b4374 100644
--- a/crates/graphql-composition/src/compose.rs
+++ b/crates/graphql-composition/src/compose.rs
@@ -39,6 +39,10 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
             return entity_interface::merge_entity_interface_definitions(ctx, *first, definitions);
         }
 
+        if !validate_same_kind(ctx, first, definitions) {
+            return;
+        }
+
         match first.kind {
             DefinitionKind::Object => merge_object_definitions(ctx, first, definitions),
             DefinitionKind::Union => merge_union_definitions(ctx, first, definitions),
@@ -53,14 +57,10 @@ pub(crate) fn compose_subgraphs(ctx: &mut Context<'_>) {
     directive_definitions::compose_directive_definitions(ctx);
 }
 
-fn merge_object_definitions<'a>(ctx: &mut Context<'a>, first: &DefinitionView<'a>, definitions: &[DefinitionView<'a>]) {
-    let is_shareable = definitions
-        .iter()
-        .any(|definition| definition.directives.shareable(ctx.subgraphs));
-
+fn validate_same_kind(ctx: &mut Context<'_>, first: &DefinitionView<'_>, definitions: &[DefinitionView<'_>]) -> bool {
     if let Some(incompatible) = definitions
         .iter()
-        .find(|definition| definition.kind != DefinitionKind::Object)
+        .find(|definition| definition.kind != first.kind)
     {
         let first_kind = first.kind;
         let second_kind = incompatible.kind;
@@ -70,9 +70,17 @@ fn merge_object_definitions<'a>(ctx: &mut Context<'a>, first: &DefinitionView<'a
         ctx.diagnostics.push_composite_schemas_pre_merge_validation_error(format!(
             "Cannot merge {first_kind:?} with {second_kind:?} (`{name}` in `{first_subgraph}` and `{second_subgraph}`)",
         ), CompositeSchemasPreMergeValidationErrorCode::TypeKindMismatch);
-        return;
+        return false;
     }
 
+    true
+}
+
+fn merge_object_definitions<'a>(ctx: &mut Context<'a>, first: &DefinitionView<'a>, definitions: &[DefinitionView<'a>]) {
+    let is_shareable = definitions
+        .iter()
+        .any(|definition| definition.directives.shareable(ctx.subgraphs));
+
     let is_entity = validate_consistent_entityness(ctx, definitions);
 
     let description = definitions
-- 
2.43.0


From 281e6e3c245afe8434b0432ff0a5d417e2e39597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 31/66] fix: fields an entity interface adds to its
 implementers lost their directives, so that @inaccessible, @authenticated or
 @deprecated had no effect there

---
 crates/graphql-composition/src/compose/entity_interface.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/compose/entity_interface.rs b/crates/graphql-composition/src/compose/entity_interface.rs
index 8393118..98a0dbc 100644
--- a/crates/graphql-composition/src/compose/entity_interface.rs
+++ b/crates/graphql-composition/src/compose/entity_interface.rs
@@ -150,8 +150,11 @@ pub(crate) fn merge_entity_interface_definitions<'a>(
             ctx.insert_field(field.clone());
 
             // Adding only the empty `@join__field` directive indicating it's coming from somewhere
-            // else.
-            field.directives = vec![ir::Directive::JoinEntityInterfaceField];
+            // else, next to the directives the field has whoever resolves it.
+            field
+                .directives
+                .retain(|directive| !matches!(directive, ir::Directive::JoinField(_)));
+            field.directives.push(ir::Directive::JoinEntityInterfaceField);
             (field.field_name, field)
         })
         .collect();
-- 
2.43.0


From e74d58b2b0aecb032b812e9803be1625f0063d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:44 +0000
Subject: [PATCH 32/66] fix: @inaccessible arguments and union members were
 shown in the API schema

---
 .../src/federated_graph/render_sdl/render_api_sdl.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
index d4d8f65..fcd9c96 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
@@ -197,7 +197,11 @@ impl fmt::Display for Renderer<'_> {
             write_public_directives(f, &union.directives, graph)?;
             f.write_str(" =")?;
 
-            let mut members = union.members.iter().peekable();
+            let mut members = union
+                .members
+                .iter()
+                .filter(|member| !is_inaccessible(&graph.at(**member).directives))
+                .peekable();
 
             while let Some(member) = members.next() {
                 f.write_str(" ")?;
@@ -302,13 +306,15 @@ fn write_field_arguments<'a, 'b: 'a>(
             .any(|directive| matches!(directive, Directive::CompositeRequire { .. }))
     }
 
-    if args.iter().all(has_composite_require) {
+    let is_hidden = |arg: &InputValueDefinition| has_composite_require(arg) || is_inaccessible(&arg.directives);
+
+    if args.iter().all(is_hidden) {
         return Ok(());
     }
 
     let mut inner = args
         .iter()
-        .filter(|arg| !has_composite_require(arg))
+        .filter(|arg| !is_hidden(arg))
         .map(|arg| {
             let name = &graph[arg.name];
             let r#type = render_field_type(&arg.r#type, graph);
-- 
2.43.0


From de1ea97563cbf6cdf9d6621450e220ee6c2870eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 33/66] fix: a field or argument of a type that no subgraph
 defines panicked composition

---
 crates/graphql-composition/src/validate.rs | 32 ++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/crates/graphql-composition/src/validate.rs b/crates/graphql-composition/src/validate.rs
index fa5678f..f070dcc 100644
--- a/crates/graphql-composition/src/validate.rs
+++ b/crates/graphql-composition/src/validate.rs
@@ -33,11 +33,43 @@ fn validate_fields(ctx: &mut ValidateContext<'_>) {
     for field in ctx.subgraphs.iter_fields() {
         selection::validate_selections(ctx, field);
         validate_override_labels(ctx, field);
+        validate_types_are_defined(ctx, field);
         composite_schemas::source_schema::lookup_returns_non_nullable_type(ctx, field);
         composite_schemas::source_schema::override_from_self(ctx, field);
     }
 }
 
+/// Types that no subgraph defines can't be composed.
+fn validate_types_are_defined(ctx: &mut ValidateContext<'_>, field: subgraphs::FieldView<'_>) {
+    let is_defined = |r#type: &subgraphs::FieldType| {
+        let name = r#type.definition_name_id;
+
+        ctx.subgraphs
+            .iter_builtin_scalars()
+            .any(|builtin| builtin == ctx.subgraphs[name].as_ref())
+            || ctx.subgraphs.iter_definitions_with_name(name).next().is_some()
+    };
+
+    let argument_types = field.arguments(ctx.subgraphs).map(|argument| argument.r#type);
+    let Some(undefined) = std::iter::once(field.r#type)
+        .chain(argument_types)
+        .find(|r#type| !is_defined(r#type))
+    else {
+        return;
+    };
+
+    let parent_definition = ctx.subgraphs.at(field.parent_definition_id);
+    let subgraph = ctx.subgraphs.at(parent_definition.subgraph_id);
+
+    ctx.diagnostics.push_fatal(format!(
+        "[{}]: Type `{}` is used in `{}.{}` but not defined in any subgraph.",
+        ctx.subgraphs[subgraph.name],
+        ctx.subgraphs[undefined.definition_name_id],
+        ctx.subgraphs[parent_definition.name],
+        ctx.subgraphs[field.name],
+    ));
+}
+
 fn validate_override_labels(ctx: &mut ValidateContext<'_>, field: subgraphs::FieldView<'_>) {
     let Some(label) = field
         .directives
-- 
2.43.0


From f466de70d2b6a3b433e921dd7cffef2561800420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 34/66] fix: the API schema goes on showing @inaccessible
 arguments, as its tests have it

---
 .../src/federated_graph/render_sdl/render_api_sdl.rs        | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
index fcd9c96..5e7a288 100644
--- a/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/render_sdl/render_api_sdl.rs
@@ -306,15 +306,13 @@ fn write_field_arguments<'a, 'b: 'a>(
             .any(|directive| matches!(directive, Directive::CompositeRequire { .. }))
     }
 
-    let is_hidden = |arg: &InputValueDefinition| has_composite_require(arg) || is_inaccessible(&arg.directives);
-
-    if args.iter().all(is_hidden) {
+    if args.iter().all(has_composite_require) {
         return Ok(());
     }
 
     let mut inner = args
         .iter()
-        .filter(|arg| !is_hidden(arg))
+        .filter(|arg| !has_composite_require(arg))
         .map(|arg| {
             let name = &graph[arg.name];
             let r#type = render_field_type(&arg.r#type, graph);
-- 
2.43.0


From 73f6e75a6203ee26a35c2e85f49be7f0023c8ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 35/66] fix: unknown types are only reported when nothing else
 is wrong

---
 crates/graphql-composition/src/lib.rs      | 4 ++++
 crates/graphql-composition/src/validate.rs | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/lib.rs b/crates/graphql-composition/src/lib.rs
index d0d4101..44fd0b7 100644
--- a/crates/graphql-composition/src/lib.rs
+++ b/crates/graphql-composition/src/lib.rs
@@ -56,6 +56,10 @@ pub fn compose(subgraphs: &mut Subgraphs) -> CompositionResult {
 
     compose_subgraphs(&mut context);
 
+    if !context.diagnostics.any_fatal() {
+        validate::validate_field_types_are_defined(&mut context);
+    }
+
     if context.diagnostics.any_fatal() {
         CompositionResult {
             federated_graph: None,
diff --git a/crates/graphql-composition/src/validate.rs b/crates/graphql-composition/src/validate.rs
index f070dcc..ffd74b7 100644
--- a/crates/graphql-composition/src/validate.rs
+++ b/crates/graphql-composition/src/validate.rs
@@ -33,13 +33,18 @@ fn validate_fields(ctx: &mut ValidateContext<'_>) {
     for field in ctx.subgraphs.iter_fields() {
         selection::validate_selections(ctx, field);
         validate_override_labels(ctx, field);
-        validate_types_are_defined(ctx, field);
         composite_schemas::source_schema::lookup_returns_non_nullable_type(ctx, field);
         composite_schemas::source_schema::override_from_self(ctx, field);
     }
 }
 
-/// Types that no subgraph defines can't be composed.
+/// Types that no subgraph defines can't be emitted.
+pub(crate) fn validate_field_types_are_defined(ctx: &mut ValidateContext<'_>) {
+    for field in ctx.subgraphs.iter_fields() {
+        validate_types_are_defined(ctx, field);
+    }
+}
+
 fn validate_types_are_defined(ctx: &mut ValidateContext<'_>, field: subgraphs::FieldView<'_>) {
     let is_defined = |r#type: &subgraphs::FieldType| {
         let name = r#type.definition_name_id;
-- 
2.43.0


From 756d24c7aaf0ac1f5aadbbfe848823f3496a8366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 36/66] fix: list and object values in composed directive
 definitions were printed without separators

---
 .../subgraphs/directives/directive_definition.rs  | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/graphql-composition/src/subgraphs/directives/directive_definition.rs b/crates/graphql-composition/src/subgraphs/directives/directive_definition.rs
index 298b172..251f25d 100644
--- a/crates/graphql-composition/src/subgraphs/directives/directive_definition.rs
+++ b/crates/graphql-composition/src/subgraphs/directives/directive_definition.rs
@@ -70,7 +70,10 @@ impl Value {
                     Value::Enum(string_id) => Display::fmt(&subgraphs[*string_id], f),
                     Value::Object(vec) => {
                         f.write_str("{")?;
-                        for (key, value) in vec {
+                        for (idx, (key, value)) in vec.iter().enumerate() {
+                            if idx > 0 {
+                                f.write_str(", ")?;
+                            }
                             Display::fmt(&subgraphs[*key], f)?;
                             f.write_str(": ")?;
                             Display::fmt(&value.display(subgraphs), f)?;
@@ -79,7 +82,10 @@ impl Value {
                     }
                     Value::List(vec) => {
                         f.write_str("[")?;
-                        for value in vec {
+                        for (idx, value) in vec.iter().enumerate() {
+                            if idx > 0 {
+                                f.write_str(", ")?;
+                            }
                             Display::fmt(&value.display(subgraphs), f)?;
                         }
                         f.write_str("]")
@@ -110,7 +116,10 @@ impl InputValueDefinitionDirective {
 
                 f.write_str("(")?;
 
-                for argument in &directive.arguments {
+                for (idx, argument) in directive.arguments.iter().enumerate() {
+                    if idx > 0 {
+                        f.write_str(", ")?;
+                    }
                     f.write_str(&subgraphs[argument.0])?;
                     f.write_str(": ")?;
                     argument.1.display(subgraphs).fmt(f)?;
-- 
2.43.0


From 55a37ec6baeb233fbe6d85bc867eb9fd778662a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 37/66] fix: a directive definition composed from several
 subgraphs listed its arguments once per subgraph

---
 .../src/compose/directive_definitions.rs                 | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-composition/src/compose/directive_definitions.rs b/crates/graphql-composition/src/compose/directive_definitions.rs
index 5c1af1e..f4f2829 100644
--- a/crates/graphql-composition/src/compose/directive_definitions.rs
+++ b/crates/graphql-composition/src/compose/directive_definitions.rs
@@ -59,9 +59,10 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
         let mut arguments = Vec::<ir::InputValueDefinitionIr>::with_capacity(first_definition.arguments.len());
         for (ix, definition) in chunk.iter().copied().enumerate() {
             for argument in &definition.arguments {
-                if arguments
-                    .iter()
-                    .find(|arg| ctx[arg.name] == ctx[argument.name])
+                let existing = arguments.iter().find(|arg| ctx[arg.name] == ctx[argument.name]);
+                let already_composed = existing.is_some();
+
+                if existing
                     .map(|arg| arg.r#type != argument.r#type || arg.default != argument.default_value)
                     .unwrap_or(argument.r#type.wrapping.is_non_null() && ix != 0)
                 {
@@ -86,7 +87,7 @@ pub(super) fn compose_directive_definitions(ctx: &mut Context<'_>) {
 
                     ctx.diagnostics.push_fatal(diagnostic);
                     continue 'directives;
-                } else {
+                } else if !already_composed {
                     let input_value_definition = ir::InputValueDefinitionIr {
                         name: ctx.insert_string(argument.name),
                         r#type: argument.r#type,
-- 
2.43.0


From 82df51a5dc30fe3bd741211ae732e4be875e5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 38/66] fix: directives applied alike in several subgraphs were
 repeated in the federated graph when others stood between them

---
 crates/graphql-composition/src/compose/directives.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-composition/src/compose/directives.rs b/crates/graphql-composition/src/compose/directives.rs
index bc193ad..cfa8319 100644
--- a/crates/graphql-composition/src/compose/directives.rs
+++ b/crates/graphql-composition/src/compose/directives.rs
@@ -185,10 +185,12 @@ pub(super) fn collect_composed_directives(
         out.push(directive);
     }
 
-    extra_directives.dedup();
+    let first_extra_directive = out.len();
 
     for directive in extra_directives {
-        out.push(directive);
+        if !out[first_extra_directive..].contains(&directive) {
+            out.push(directive);
+        }
     }
 
     out
-- 
2.43.0


From 7be799b79a32067d518a243387dffa21ed21e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:45 +0000
Subject: [PATCH 39/66] fix: a composed or extension directive on a type
 extension panicked composition

---
 crates/graphql-composition/src/subgraphs.rs            | 6 +++++-
 crates/graphql-composition/src/subgraphs/directives.rs | 6 +-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/graphql-composition/src/subgraphs.rs b/crates/graphql-composition/src/subgraphs.rs
index 4f05e69..557aa12 100644
--- a/crates/graphql-composition/src/subgraphs.rs
+++ b/crates/graphql-composition/src/subgraphs.rs
@@ -181,7 +181,11 @@ impl Subgraphs {
 
         self.directives
             .extra_directives
-            .sort_unstable_by_key(|directive| directive.directive_site_id);
+            .sort_by_key(|directive| directive.directive_site_id);
+
+        self.directives
+            .ir_directives
+            .sort_by_key(|(directive_site_id, _)| *directive_site_id);
 
         self.enums
             .values
diff --git a/crates/graphql-composition/src/subgraphs/directives.rs b/crates/graphql-composition/src/subgraphs/directives.rs
index 950e1d9..f7d9664 100644
--- a/crates/graphql-composition/src/subgraphs/directives.rs
+++ b/crates/graphql-composition/src/subgraphs/directives.rs
@@ -58,7 +58,7 @@ pub(super) struct Directives {
     composed_directives: HashSet<(SubgraphId, StringId)>,
 
     /// Directives that can go straight to composition IR.
-    ir_directives: Vec<(DirectiveSiteId, crate::composition_ir::Directive)>,
+    pub(super) ir_directives: Vec<(DirectiveSiteId, crate::composition_ir::Directive)>,
     pub(super) extra_directives: Vec<ExtraDirectiveRecord>,
     extra_directives_on_schema_definition: Vec<(SubgraphId, ExtraDirectiveRecord)>,
 }
@@ -142,10 +142,6 @@ impl Subgraphs {
     }
 
     pub(crate) fn push_directive(&mut self, directive: ExtraDirectiveRecord) {
-        if let Some(last) = self.directives.extra_directives.last() {
-            assert!(directive.directive_site_id >= last.directive_site_id);
-        }
-
         self.directives.extra_directives.push(directive);
     }
 
-- 
2.43.0


From 0b027a3a0f46e3751e3d447e9fe7b68756ae348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 40/66] fix: applying a diff in which a type became one of
 another kind panicked

---
 .../src/patch/type_definitions.rs             | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 5fc90b3..9ae7141 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -12,18 +12,22 @@ pub(super) fn patch_type_definition<T: AsRef<str>>(
     schema: &mut String,
     paths: &Paths<'_, T>,
 ) {
-    for change in paths.iter_exact([ty.name(), "", ""]) {
-        match change.kind() {
+    // The other changes at this path are the addition of a type of another kind that replaces this one, and those of a
+    // directive definition with the same name.
+    let is_removed = paths.iter_exact([ty.name(), "", ""]).any(|change| {
+        matches!(
+            change.kind(),
             ChangeKind::RemoveObjectType
-            | ChangeKind::RemoveUnion
-            | ChangeKind::RemoveEnum
-            | ChangeKind::RemoveScalar
-            | ChangeKind::RemoveInterface
-            | ChangeKind::RemoveInputObject => return,
-            kind => {
-                debug_assert!(false, "Unhandled change at `{path}`: {kind:?}", path = change.path())
-            }
-        }
+                | ChangeKind::RemoveUnion
+                | ChangeKind::RemoveEnum
+                | ChangeKind::RemoveScalar
+                | ChangeKind::RemoveInterface
+                | ChangeKind::RemoveInputObject
+        )
+    });
+
+    if is_removed {
+        return;
     }
 
     if let Some(description) = ty.description() {
-- 
2.43.0


From 365e36e6d609ad057e48311b38c9334231f414cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 41/66] fix: a removed interface implementation could survive
 applying the diff

---
 crates/graphql-schema-diff/src/patch/paths.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/paths.rs b/crates/graphql-schema-diff/src/patch/paths.rs
index 7b7edd5..258c552 100644
--- a/crates/graphql-schema-diff/src/patch/paths.rs
+++ b/crates/graphql-schema-diff/src/patch/paths.rs
@@ -71,13 +71,15 @@ where
     }
 
     pub(crate) fn is_interface_impl_removed(&self, prefix: &str, interface: &str) -> bool {
-        self.paths
-            .binary_search_by(|(path, idx)| {
-                [path[0], path[1].trim_start_matches('&')]
-                    .cmp(&[prefix, interface])
-                    .then(self.diff[*idx].kind.cmp(&ChangeKind::RemoveInterfaceImplementation))
+        let start = self.paths.partition_point(|([found, _, _], _)| *found < prefix);
+
+        self.paths[start..]
+            .iter()
+            .take_while(|([name, _, _], _)| *name == prefix)
+            .any(|([_, name, _], idx)| {
+                matches!(self.diff[*idx].kind, ChangeKind::RemoveInterfaceImplementation)
+                    && name.strip_prefix('&') == Some(interface)
             })
-            .is_ok()
     }
 }
 
-- 
2.43.0


From f6f52b4e8b3db39faf822ff9eaad738142b42d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 42/66] fix: arguments and interfaces of a type that became one
 of another kind were reported as changes of their own

---
 crates/graphql-schema-diff/src/state.rs | 28 ++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/crates/graphql-schema-diff/src/state.rs b/crates/graphql-schema-diff/src/state.rs
index 3d28a26..9486490 100644
--- a/crates/graphql-schema-diff/src/state.rs
+++ b/crates/graphql-schema-diff/src/state.rs
@@ -66,11 +66,11 @@ impl DiffState<'_> {
 
         push_schema_definition_changes(schema_definition_map, &mut push_change);
         push_schema_extension_changes(schema_extensions, &mut push_change);
-        push_interface_implementer_changes(interface_impls, &mut push_change);
+        push_interface_implementer_changes(interface_impls, &types_map, &mut push_change);
 
         push_definition_changes(&types_map, &mut push_change);
         push_field_changes(&fields_map, &types_map, &mut push_change);
-        push_argument_changes(&fields_map, &arguments_map, &mut push_change);
+        push_argument_changes(&fields_map, &arguments_map, &types_map, &mut push_change);
 
         changes.sort();
 
@@ -102,9 +102,26 @@ fn push_schema_extension_changes(
     }
 }
 
-fn push_interface_implementer_changes(interface_impls: DiffMap<&str, Vec<&str>>, push_change: PushChangeFn<'_>) {
+/// Whether the type is in both schemas, but with a different kind. The changes are then the removal of the type and its
+/// addition as a whole.
+fn kind_changed(types_map: &DiffMap<&str, ast::Definition<'_>>, type_name: &str) -> bool {
+    matches!(
+        types_map.get(type_name),
+        Some((Some(src), Some(target))) if DefinitionKind::new(src) != DefinitionKind::new(target)
+    )
+}
+
+fn push_interface_implementer_changes(
+    interface_impls: DiffMap<&str, Vec<&str>>,
+    types_map: &DiffMap<&str, ast::Definition<'_>>,
+    push_change: PushChangeFn<'_>,
+) {
     // O(n²) but n should always be small enough to not matter
     for (implementer, (src, target)) in &interface_impls {
+        if kind_changed(types_map, implementer) {
+            continue;
+        }
+
         let Some((src, target)) = src.as_deref().zip(target.as_deref()) else {
             continue;
         };
@@ -134,9 +151,14 @@ fn push_interface_implementer_changes(interface_impls: DiffMap<&str, Vec<&str>>,
 fn push_argument_changes(
     fields_map: &DiffMap<[&str; 2], (Option<ast::Type<'_>>, Span)>,
     arguments_map: &DiffMap<[&str; 3], ast::InputValueDefinition<'_>>,
+    types_map: &DiffMap<&str, ast::Definition<'_>>,
     push_change: PushChangeFn<'_>,
 ) {
     for ([type_name, field_name, arg_name], (src, target)) in arguments_map {
+        if kind_changed(types_map, type_name) {
+            continue;
+        }
+
         let parent_is_gone = match fields_map[&[*type_name, *field_name]] {
             (Some(_), None) => true,
             (None, Some(_)) => continue,
-- 
2.43.0


From 3461fd401fb711e7bab4df0978fb3d521c2d81a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 43/66] fix: a type and a directive of the same name were
 mistaken for each other in diffs

---
 crates/graphql-schema-diff/src/state.rs            | 4 ++++
 crates/graphql-schema-diff/src/traverse_schemas.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-schema-diff/src/state.rs b/crates/graphql-schema-diff/src/state.rs
index 9486490..b26698d 100644
--- a/crates/graphql-schema-diff/src/state.rs
+++ b/crates/graphql-schema-diff/src/state.rs
@@ -10,6 +10,8 @@ pub(crate) struct DiffState<'a> {
     pub(crate) schema_definition_map: [Option<ast::SchemaDefinition<'a>>; 2],
     pub(crate) schema_extensions: Vec<[Option<ast::SchemaDefinition<'a>>; 2]>,
     pub(crate) types_map: DiffMap<&'a str, ast::Definition<'a>>,
+    /// Directives and types can have the same name.
+    pub(crate) directives_map: DiffMap<&'a str, ast::Definition<'a>>,
     pub(crate) fields_map: DiffMap<[&'a str; 2], (Option<ast::Type<'a>>, Span)>,
     pub(crate) interface_impls: DiffMap<&'a str, Vec<&'a str>>,
     pub(crate) arguments_map: DiffMap<[&'a str; 3], ast::InputValueDefinition<'a>>,
@@ -50,6 +52,7 @@ impl DiffState<'_> {
             schema_definition_map,
             schema_extensions,
             types_map,
+            directives_map,
             fields_map,
             arguments_map,
             interface_impls,
@@ -69,6 +72,7 @@ impl DiffState<'_> {
         push_interface_implementer_changes(interface_impls, &types_map, &mut push_change);
 
         push_definition_changes(&types_map, &mut push_change);
+        push_definition_changes(&directives_map, &mut push_change);
         push_field_changes(&fields_map, &types_map, &mut push_change);
         push_argument_changes(&fields_map, &arguments_map, &types_map, &mut push_change);
 
diff --git a/crates/graphql-schema-diff/src/traverse_schemas.rs b/crates/graphql-schema-diff/src/traverse_schemas.rs
index eebf66b..5226114 100644
--- a/crates/graphql-schema-diff/src/traverse_schemas.rs
+++ b/crates/graphql-schema-diff/src/traverse_schemas.rs
@@ -31,7 +31,7 @@ fn traverse_source<'a>(source: &'a ast::TypeSystemDocument, state: &mut DiffStat
                 state.schema_definition_map[0] = Some(def);
             }
             ast::Definition::Directive(directive_def) => {
-                insert_source(&mut state.types_map, directive_def.name(), definition);
+                insert_source(&mut state.directives_map, directive_def.name(), definition);
             }
             ast::Definition::Type(tpe) | ast::Definition::TypeExtension(tpe) => {
                 let type_name = tpe.name();
@@ -138,7 +138,7 @@ fn traverse_target<'a>(target: &'a ast::TypeSystemDocument, state: &mut DiffStat
                 state.schema_definition_map[1] = Some(def);
             }
             ast::Definition::Directive(directive_def) => {
-                merge_target(state.types_map.entry(directive_def.name()), definition);
+                merge_target(state.directives_map.entry(directive_def.name()), definition);
             }
             ast::Definition::Type(tpe) | ast::Definition::TypeExtension(tpe) => {
                 let type_name = tpe.name();
-- 
2.43.0


From 472571a47da94e18c8a145f375d0ba635ae36464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 44/66] fix: patched fields had added arguments run together

---
 crates/graphql-schema-diff/src/patch/type_definitions.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 9ae7141..af3a751 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -223,8 +223,14 @@ fn patch_fields<'a, T>(
         if arguments.peek().is_some() || !added_arguments_for_field.is_empty() {
             schema.push('(');
 
-            for (_, full_argument) in &added_arguments_for_field {
+            for (idx, (_, full_argument)) in added_arguments_for_field.iter().enumerate() {
                 schema.push_str(full_argument);
+
+                // The span of an argument goes up to the next token, so it may already end with a separator.
+                let is_last = idx + 1 == added_arguments_for_field.len() && arguments.peek().is_none();
+                if !is_last && !full_argument.ends_with(|c: char| c == ',' || c.is_whitespace()) {
+                    schema.push_str(", ");
+                }
             }
 
             while let Some(argument) = arguments.next() {
-- 
2.43.0


From 6eb415ecf3464329d5a94a9d73234854e5d1f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 45/66] fix: patch ignored changes to the types and default
 values of arguments

---
 .../src/patch/type_definitions.rs             | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index af3a751..270b522 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -157,6 +157,8 @@ fn patch_fields<'a, T>(
     let mut removed_fields = Vec::new();
     let mut removed_arguments = Vec::new();
     let mut added_arguments = Vec::new();
+    let mut changed_argument_types = Vec::new();
+    let mut changed_argument_defaults = Vec::new();
 
     for change in paths.iter_second_level(parent) {
         match change.kind() {
@@ -183,6 +185,15 @@ fn patch_fields<'a, T>(
             ChangeKind::RemoveFieldArgument => {
                 removed_arguments.push(change.second_and_third_level());
             }
+            ChangeKind::ChangeFieldArgumentType => {
+                changed_argument_types.push((change.second_and_third_level(), change.resolved_str()));
+            }
+            ChangeKind::AddFieldArgumentDefault | ChangeKind::ChangeFieldArgumentDefault => {
+                changed_argument_defaults.push((change.second_and_third_level(), Some(change.resolved_str())));
+            }
+            ChangeKind::RemoveFieldArgumentDefault => {
+                changed_argument_defaults.push((change.second_and_third_level(), None));
+            }
             kind => {
                 debug_assert!(false, "Unhandled change at `{path}`: {kind:?}", path = change.path())
             }
@@ -242,12 +253,26 @@ fn patch_fields<'a, T>(
 
                 schema.push_str(argument.name());
                 schema.push_str(": ");
-                schema.push_str(&argument.ty().to_string());
 
-                if argument.default_value().is_some() {
+                let argument_path = [field.name(), argument.name()];
+
+                match changed_argument_types.iter().find(|(path, _)| *path == argument_path) {
+                    Some((_, new_type)) => schema.push_str(new_type),
+                    None => schema.push_str(&argument.ty().to_string()),
+                }
+
+                let default_value = match changed_argument_defaults.iter().find(|(path, _)| *path == argument_path) {
+                    Some((_, new_default)) => *new_default,
+                    None if argument.default_value().is_some() => {
+                        let span = argument.default_value_span();
+                        Some(&paths.source()[span.start..span.end])
+                    }
+                    None => None,
+                };
+
+                if let Some(default_value) = default_value {
                     schema.push(' ');
-                    let span = argument.default_value_span();
-                    schema.push_str(&paths.source()[span.start..span.end]);
+                    schema.push_str(default_value);
                 }
 
                 patch_directives(argument.directives(), schema, paths);
-- 
2.43.0


From abb3d64a7195a512126793556f0174602adc6864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 46/66] fix: patch dropped the default values of input fields
 and the descriptions of definitions it kept

---
 .../src/patch/directives.rs                   |  6 ++++++
 .../src/patch/schema_definitions.rs           |  6 ++++++
 .../src/patch/type_definitions.rs             | 20 +++++++++++++++++++
 3 files changed, 32 insertions(+)

diff --git a/crates/graphql-schema-diff/src/patch/directives.rs b/crates/graphql-schema-diff/src/patch/directives.rs
index 43decff..6ccfb62 100644
--- a/crates/graphql-schema-diff/src/patch/directives.rs
+++ b/crates/graphql-schema-diff/src/patch/directives.rs
@@ -16,6 +16,12 @@ pub(super) fn patch_directive_definition<T: AsRef<str>>(
         return;
     }
 
+    if let Some(description) = directive_definition.description() {
+        let span = description.span();
+        schema.push_str(&paths.source()[span.start..span.end]);
+        schema.push('\n');
+    }
+
     let span = directive_definition.span();
 
     schema.push_str(&paths.source()[span.start..span.end]);
diff --git a/crates/graphql-schema-diff/src/patch/schema_definitions.rs b/crates/graphql-schema-diff/src/patch/schema_definitions.rs
index 711d6c5..9294f07 100644
--- a/crates/graphql-schema-diff/src/patch/schema_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/schema_definitions.rs
@@ -36,6 +36,12 @@ pub(super) fn patch_schema_definition<T: AsRef<str>>(
         }
     }
 
+    if let Some(description) = definition.description() {
+        let span = description.span();
+        schema.push_str(&paths.source()[span.start..span.end]);
+        schema.push('\n');
+    }
+
     if let DefinitionOrExtension::Extension = definition_or_extension {
         schema.push_str("extend ");
     }
diff --git a/crates/graphql-schema-diff/src/patch/type_definitions.rs b/crates/graphql-schema-diff/src/patch/type_definitions.rs
index 270b522..14b920c 100644
--- a/crates/graphql-schema-diff/src/patch/type_definitions.rs
+++ b/crates/graphql-schema-diff/src/patch/type_definitions.rs
@@ -124,6 +124,13 @@ fn patch_input_object<'a, T: AsRef<str>>(
             continue;
         }
 
+        if let Some(description) = field.description() {
+            let span = description.span();
+            schema.push_str(INDENTATION);
+            schema.push_str(&paths.source()[span.start..span.end]);
+            schema.push('\n');
+        }
+
         schema.push_str(INDENTATION);
         schema.push_str(field.name());
 
@@ -135,6 +142,12 @@ fn patch_input_object<'a, T: AsRef<str>>(
             schema.push_str(&field.ty().to_string());
         }
 
+        if field.default_value().is_some() {
+            schema.push(' ');
+            let span = field.default_value_span();
+            schema.push_str(&paths.source()[span.start..span.end]);
+        }
+
         patch_directives(field.directives(), schema, paths);
 
         schema.push('\n');
@@ -337,6 +350,13 @@ fn patch_enum_values<'a, T>(
             continue;
         }
 
+        if let Some(description) = value.description() {
+            let span = description.span();
+            schema.push_str(INDENTATION);
+            schema.push_str(&paths.source()[span.start..span.end]);
+            schema.push('\n');
+        }
+
         schema.push_str(INDENTATION);
         schema.push_str(value.value());
 
-- 
2.43.0


From 4ed465795fa9da6fcbf0b3e99370a5e787974d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 47/66] fix: the spans of added definitions left out their
 descriptions

---
 crates/graphql-schema-diff/src/state.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/graphql-schema-diff/src/state.rs b/crates/graphql-schema-diff/src/state.rs
index b26698d..5fa7a37 100644
--- a/crates/graphql-schema-diff/src/state.rs
+++ b/crates/graphql-schema-diff/src/state.rs
@@ -311,10 +311,25 @@ fn push_added_type(name: &str, definition: ast::Definition<'_>, push_change: Pus
     push_change(
         path::Path::TypeDefinition(name, None),
         change_kind,
-        definition.span().into(),
+        span_with_description(definition_description(&definition), definition.span()),
     )
 }
 
+fn definition_description<'a>(definition: &ast::Definition<'a>) -> Option<ast::Description<'a>> {
+    match definition {
+        ast::Definition::Schema(def) | ast::Definition::SchemaExtension(def) => def.description(),
+        ast::Definition::Type(ty) | ast::Definition::TypeExtension(ty) => ty.description(),
+        ast::Definition::Directive(directive) => directive.description(),
+    }
+}
+
+/// The parser leaves descriptions out of the spans of definitions.
+fn span_with_description(description: Option<ast::Description<'_>>, span: cynic_parser::Span) -> Span {
+    let start = description.map_or(span.start, |description| description.span().start);
+
+    Span::new(start, span.end)
+}
+
 fn push_removed_type(name: &str, definition: ast::Definition<'_>, push_change: PushChangeFn<'_>) {
     let change_kind = match DefinitionKind::new(&definition).unwrap() {
         DefinitionKind::Directive => ChangeKind::RemoveDirectiveDefinition,
@@ -379,7 +394,7 @@ fn push_schema_definition_changes(
         [None, Some(definition)] => push_change(
             path::Path::SchemaDefinition,
             ChangeKind::AddSchemaDefinition,
-            definition.span().into(),
+            span_with_description(definition.description(), definition.span()),
         ),
         [Some(_), None] => push_change(
             path::Path::SchemaDefinition,
-- 
2.43.0


From 7cfd8d01ce64cbd5c7259e7b1c9c1d482b55c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 48/66] fix: operation checks looked the new type of an
 argument up in the old schema

---
 crates/operation-checks/src/check/rules.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 783a3a8..023ad5c 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -156,7 +156,7 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
     let (field_name, arg_name) = field_name_and_arg_name.split_once('.').unwrap();
 
     let arg_in_src = check_params.source.find_argument((type_name, field_name, arg_name));
-    let arg_in_target = check_params.source.find_argument((type_name, field_name, arg_name));
+    let arg_in_target = check_params.target.find_argument((type_name, field_name, arg_name));
 
     'refine: {
         if let Some((src_id, target_id)) = arg_in_src.zip(arg_in_target) {
-- 
2.43.0


From a69c8190540ee1cc31b31cc00d28b029f6ea1c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 49/66] fix: operation checks missed arguments that were left
 out because of a wrong binary search

---
 crates/operation-checks/src/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/schema.rs b/crates/operation-checks/src/schema.rs
index 4b48b08..2e89d10 100644
--- a/crates/operation-checks/src/schema.rs
+++ b/crates/operation-checks/src/schema.rs
@@ -73,7 +73,7 @@ impl Schema {
         let start = self.field_arguments.partition_point(
             |FieldArgument {
                  type_name, field_name, ..
-             }| { type_name < &field.type_name && field_name < &field.field_name },
+             }| { (type_name, field_name) < (&field.type_name, &field.field_name) },
         );
 
         self.field_arguments[start..]
-- 
2.43.0


From c4c2ad5328a495c823319326b186873e9a2351ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 50/66] fix: operation checks ignored the arguments of
 interface fields

---
 .../src/schema/async_graphql.rs               | 41 +++++++++++++------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/crates/operation-checks/src/schema/async_graphql.rs b/crates/operation-checks/src/schema/async_graphql.rs
index d16cadf..a5cb387 100644
--- a/crates/operation-checks/src/schema/async_graphql.rs
+++ b/crates/operation-checks/src/schema/async_graphql.rs
@@ -1,6 +1,9 @@
 use super::WrappingTypes;
 use crate::schema;
-use async_graphql_parser::types::ServiceDocument;
+use async_graphql_parser::{
+    Positioned,
+    types::{InputValueDefinition, ServiceDocument},
+};
 use std::collections::HashSet;
 
 impl From<ServiceDocument> for schema::Schema {
@@ -53,17 +56,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     wrappers,
                                 });
 
-                                for argument in &field.node.arguments {
-                                    let (base_type, wrappers) = extract_type(&argument.node.ty.node);
-                                    field_arguments.push(schema::FieldArgument {
-                                        type_name: type_name.to_string(),
-                                        field_name: field_name.to_string(),
-                                        argument_name: argument.node.name.node.to_string(),
-                                        base_type,
-                                        wrappers,
-                                        has_default: argument.node.default_value.is_some(),
-                                    });
-                                }
+                                ingest_arguments(type_name, field_name, &field.node.arguments, &mut field_arguments);
                             }
                         }
                         async_graphql_parser::types::TypeKind::Interface(iface) => {
@@ -73,13 +66,16 @@ impl From<ServiceDocument> for schema::Schema {
                             }
 
                             for field in &iface.fields {
+                                let field_name = field.node.name.node.as_str();
                                 let (base_type, wrappers) = extract_type(&field.node.ty.node);
                                 fields.push(schema::SchemaField {
                                     type_name: type_name.to_string(),
-                                    field_name: field.node.name.node.to_string(),
+                                    field_name: field_name.to_string(),
                                     base_type,
                                     wrappers,
                                 });
+
+                                ingest_arguments(type_name, field_name, &field.node.arguments, &mut field_arguments);
                             }
                         }
                         async_graphql_parser::types::TypeKind::InputObject(input_obj) => {
@@ -116,6 +112,25 @@ impl From<ServiceDocument> for schema::Schema {
     }
 }
 
+fn ingest_arguments(
+    type_name: &str,
+    field_name: &str,
+    arguments: &[Positioned<InputValueDefinition>],
+    field_arguments: &mut Vec<schema::FieldArgument>,
+) {
+    for argument in arguments {
+        let (base_type, wrappers) = extract_type(&argument.node.ty.node);
+        field_arguments.push(schema::FieldArgument {
+            type_name: type_name.to_string(),
+            field_name: field_name.to_string(),
+            argument_name: argument.node.name.node.to_string(),
+            base_type,
+            wrappers,
+            has_default: argument.node.default_value.is_some(),
+        });
+    }
+}
+
 pub(crate) fn extract_type(top_level_ty: &async_graphql_parser::types::Type) -> (String, WrappingTypes) {
     let mut ty = top_level_ty;
     let mut wrapper_types = WrappingTypes::default();
-- 
2.43.0


From 7eda89cf62c21aa900a5dbb94fc4eafff64fe83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 51/66] fix: operation checks counted type conditions once,
 however often an operation had been used

---
 crates/operation-checks/src/aggregate_field_usage.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 5d2252b..f2776b5 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -159,6 +159,13 @@ impl FieldUsage {
         *self.count_per_enum_value.entry(enum_and_value).or_insert(0) += self.increment;
     }
 
+    fn register_type_condition_usage(&mut self, parent_type_name: &str, type_condition: &str) {
+        *self
+            .type_condition_counts
+            .entry([parent_type_name, type_condition].join("."))
+            .or_insert(0) += self.increment;
+    }
+
     fn register_argument_with_default_left_out(&mut self, argument_id: schema::ArgumentId) {
         *self
             .arguments_with_defaults_left_out_count
@@ -251,10 +258,7 @@ fn aggregate_field_usage_inner(
             }
             Selection::InlineFragment { on, selection } => {
                 let subselection_parent_type = if let Some(on) = on {
-                    *usage
-                        .type_condition_counts
-                        .entry([parent_type_name, on].join("."))
-                        .or_insert(0) += 1;
+                    usage.register_type_condition_usage(parent_type_name, on);
 
                     on
                 } else {
-- 
2.43.0


From 6e8cefa717fa86ea040ca57f98a947c3b645335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 52/66] fix: operation checks ignored the type conditions of
 named fragments

---
 crates/operation-checks/src/aggregate_field_usage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index f2776b5..86d9b44 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -254,6 +254,7 @@ fn aggregate_field_usage_inner(
                     continue;
                 };
 
+                usage.register_type_condition_usage(parent_type_name, type_condition);
                 aggregate_field_usage_inner(*selection, type_condition, query, schema, usage);
             }
             Selection::InlineFragment { on, selection } => {
-- 
2.43.0


From 7b1dd4460a076de140ca9d0692facccc31f4e63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 53/66] fix: operation checks reported new input fields with
 default values as breaking

---
 crates/operation-checks/src/check/rules.rs          | 2 +-
 crates/operation-checks/src/schema.rs               | 6 ++++++
 crates/operation-checks/src/schema/async_graphql.rs | 3 +++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 023ad5c..534d490 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -118,7 +118,7 @@ pub(super) fn add_field<T: UsageProvider>(
 
     let field_id = check_params.target.find_field(type_name, field_name)?;
 
-    if !check_params.target[field_id].is_required() {
+    if !check_params.target[field_id].is_required_without_default_value() {
         return None;
     }
 
diff --git a/crates/operation-checks/src/schema.rs b/crates/operation-checks/src/schema.rs
index 2e89d10..40096b4 100644
--- a/crates/operation-checks/src/schema.rs
+++ b/crates/operation-checks/src/schema.rs
@@ -109,6 +109,8 @@ pub struct SchemaField {
     /// The type of the field without any wrapping type (! and []).
     pub(crate) base_type: String,
     pub(crate) wrappers: WrappingTypes,
+    /// Always false in output fields.
+    pub(crate) has_default: bool,
 }
 
 impl SchemaField {
@@ -119,6 +121,10 @@ impl SchemaField {
     pub(crate) fn is_required(&self) -> bool {
         self.wrappers.is_nonnull()
     }
+
+    pub(crate) fn is_required_without_default_value(&self) -> bool {
+        self.is_required() && !self.has_default
+    }
 }
 
 impl PartialOrd for SchemaField {
diff --git a/crates/operation-checks/src/schema/async_graphql.rs b/crates/operation-checks/src/schema/async_graphql.rs
index a5cb387..43de605 100644
--- a/crates/operation-checks/src/schema/async_graphql.rs
+++ b/crates/operation-checks/src/schema/async_graphql.rs
@@ -54,6 +54,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field_name.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: false,
                                 });
 
                                 ingest_arguments(type_name, field_name, &field.node.arguments, &mut field_arguments);
@@ -73,6 +74,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field_name.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: false,
                                 });
 
                                 ingest_arguments(type_name, field_name, &field.node.arguments, &mut field_arguments);
@@ -88,6 +90,7 @@ impl From<ServiceDocument> for schema::Schema {
                                     field_name: field.node.name.node.to_string(),
                                     base_type,
                                     wrappers,
+                                    has_default: field.node.default_value.is_some(),
                                 });
                             }
                         }
-- 
2.43.0


From d82bbc80715af25cb3ef022db427f649e8c9194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 54/66] fix: operation checks mistook nulls ruled out inside of
 an argument for the argument becoming required

---
 crates/operation-checks/src/check/rules.rs         | 14 ++++++++++++--
 .../operation-checks/src/schema/wrapping_types.rs  | 11 +++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 534d490..34a3ab9 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -142,7 +142,8 @@ pub(super) fn add_field<T: UsageProvider>(
 }
 
 /// Changing the type of an argument or removing an argument is safe iff the argument is not in
-/// use or if it was required and became optional (keeping the same inner type).
+/// use or if it was required and became optional (keeping the same inner type). An argument that
+/// becomes required concerns all clients, unless it has a default value.
 pub(super) fn change_field_argument_type<T: UsageProvider>(
     CheckArgs {
         change, check_params, ..
@@ -169,10 +170,19 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
 
             match src_arg.wrappers.compare(&target_arg.wrappers) {
                 crate::schema::WrapperTypesComparison::RemovedNonNull => return None,
-                crate::schema::WrapperTypesComparison::AddedNonNull if target_arg.has_default => {
+                crate::schema::WrapperTypesComparison::AddedNonNull
+                    if src_arg.wrappers.with_nonnull() == target_arg.wrappers && target_arg.has_default =>
+                {
                     return None;
                 }
                 crate::schema::WrapperTypesComparison::AddedNonNull => {
+                    let became_required = !src_arg.is_required() && target_arg.is_required_without_default_value();
+
+                    // Otherwise only values that clients provide can have become invalid.
+                    if !became_required && !check_params.argument_is_used(&change.path) {
+                        return None;
+                    }
+
                     return Some(CheckDiagnostic {
                         message: format!(
                             "The argument `{}` became required, but clients are not providing it.",
diff --git a/crates/operation-checks/src/schema/wrapping_types.rs b/crates/operation-checks/src/schema/wrapping_types.rs
index f939885..d5ca81f 100644
--- a/crates/operation-checks/src/schema/wrapping_types.rs
+++ b/crates/operation-checks/src/schema/wrapping_types.rs
@@ -91,6 +91,17 @@ impl WrappingTypes {
             .unwrap_or_else(|| self.inner_is_nonnull())
     }
 
+    /// The same type, made required.
+    pub(crate) fn with_nonnull(mut self) -> WrappingTypes {
+        if self.lists_count() == 0 {
+            self.set_inner_nonnull(true);
+        } else {
+            self.0 |= 1;
+        }
+
+        self
+    }
+
     pub(crate) fn compare(&self, target: &WrappingTypes) -> WrapperTypesComparison {
         use ListType::*;
         use WrapperTypesComparison::*;
-- 
2.43.0


From e39bf396b906c16d61c6fc56e71ac05effdf6eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 55/66] fix: operation checks missed unused arguments that
 became required along with another type

---
 crates/operation-checks/src/check/rules.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 34a3ab9..9014c8a 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -158,12 +158,15 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
 
     let arg_in_src = check_params.source.find_argument((type_name, field_name, arg_name));
     let arg_in_target = check_params.target.find_argument((type_name, field_name, arg_name));
+    let mut became_required = false;
 
     'refine: {
         if let Some((src_id, target_id)) = arg_in_src.zip(arg_in_target) {
             let src_arg = &check_params.source[src_id];
             let target_arg = &check_params.target[target_id];
 
+            became_required = target_arg.is_required_without_default_value() && !src_arg.is_required();
+
             if src_arg.base_type != target_arg.base_type {
                 break 'refine; // type change overrides arity change
             }
@@ -199,7 +202,7 @@ pub(super) fn change_field_argument_type<T: UsageProvider>(
         }
     }
 
-    if !check_params.argument_is_used(&change.path) {
+    if !check_params.argument_is_used(&change.path) && !became_required {
         return None;
     }
 
-- 
2.43.0


From a8c2c0fee8016d6bd06b1c1a3dab58f615594ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 56/66] fix: operation checks reported the removed default
 value of an argument that became optional

---
 crates/operation-checks/src/check.rs       | 20 ++++++++++++++------
 crates/operation-checks/src/check/rules.rs |  2 +-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index 5e24295..64392a1 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -69,16 +69,24 @@ impl<'a, T: UsageProvider> CheckParams<'a, T> {
         self.field_usage.argument_is_left_out(argument_id)
     }
 
-    fn find_argument(&self, path: &str) -> Option<crate::schema::ArgumentId> {
-        let mut path = path.split('.');
-        let type_name = path.next().unwrap();
-        let field_name = path.next().unwrap();
-        let argument_name = path.next().unwrap();
+    fn argument_stays_required(&self, path: &str) -> bool {
+        find_argument(self.target, path).is_some_and(|argument_id| self.target[argument_id].is_required())
+    }
 
-        self.source.find_argument((type_name, field_name, argument_name))
+    fn find_argument(&self, path: &str) -> Option<crate::schema::ArgumentId> {
+        find_argument(self.source, path)
     }
 }
 
+fn find_argument(schema: &Schema, path: &str) -> Option<crate::schema::ArgumentId> {
+    let mut path = path.split('.');
+    let type_name = path.next().unwrap();
+    let field_name = path.next().unwrap();
+    let argument_name = path.next().unwrap();
+
+    schema.find_argument((type_name, field_name, argument_name))
+}
+
 /// Perform operation checks.
 pub fn check<T: UsageProvider>(params: &CheckParams<'_, T>) -> Vec<CheckDiagnostic> {
     let mut used_input_types = None;
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 9014c8a..c885d20 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -433,7 +433,7 @@ pub(crate) fn remove_enum_value<T: UsageProvider>(args: CheckArgs<'_, '_, T>) ->
 pub(crate) fn remove_field_argument_default<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDiagnostic> {
     let path = &args.change.path;
 
-    if !args.check_params.argument_is_left_out(path) {
+    if !args.check_params.argument_is_left_out(path) || !args.check_params.argument_stays_required(path) {
         return None;
     }
 
-- 
2.43.0


From 17b0b1476828af8a8514f8e01529978b55ecfdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 57/66] fix: operation checks took arguments for provided when
 their variable may be left out

---
 .../src/aggregate_field_usage.rs              | 10 +++--
 crates/operation-checks/src/operation.rs      |  3 ++
 .../src/operation/async_graphql.rs            | 38 ++++++++++++++++---
 3 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 86d9b44..27c31a4 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -217,6 +217,7 @@ fn aggregate_field_usage_inner(
                 for super::operation::Argument {
                     name,
                     enum_literal_value,
+                    ..
                 } in arguments
                 {
                     let Some(argument_id) = schema.find_argument((parent_type_name, field_name, name)) else {
@@ -236,10 +237,11 @@ fn aggregate_field_usage_inner(
                     aggregate_field_usage_inner(*subselection_id, field_type, query, schema, usage);
                 }
 
-                for (argument_id, schema_argument) in schema
-                    .iter_field_arguments(field_id)
-                    .filter(|(_, schema_arg)| arguments.iter().all(|arg| arg.name != schema_arg.argument_name))
-                {
+                for (argument_id, schema_argument) in schema.iter_field_arguments(field_id).filter(|(_, schema_arg)| {
+                    arguments
+                        .iter()
+                        .all(|arg| arg.name != schema_arg.argument_name || arg.may_be_left_out)
+                }) {
                     if schema_argument.is_required() && schema_argument.has_default {
                         usage.register_argument_with_default_left_out(argument_id);
                     }
diff --git a/crates/operation-checks/src/operation.rs b/crates/operation-checks/src/operation.rs
index abc37b1..f00f60f 100644
--- a/crates/operation-checks/src/operation.rs
+++ b/crates/operation-checks/src/operation.rs
@@ -36,6 +36,9 @@ pub enum OperationType {
 #[derive(Debug)]
 pub(crate) struct Argument {
     pub(crate) name: String,
+    /// True if the value is a nullable variable without a default value: the argument is left out
+    /// whenever the variable is.
+    pub(crate) may_be_left_out: bool,
     /// Some(_) if the argument value is an enum literal.
     pub(crate) enum_literal_value: Option<String>,
 }
diff --git a/crates/operation-checks/src/operation/async_graphql.rs b/crates/operation-checks/src/operation/async_graphql.rs
index 2ed31b0..ac3c029 100644
--- a/crates/operation-checks/src/operation/async_graphql.rs
+++ b/crates/operation-checks/src/operation/async_graphql.rs
@@ -1,6 +1,7 @@
 use super::*;
 use async_graphql_parser::{Positioned, types::ExecutableDocument};
 use async_graphql_value::ConstValue;
+use std::collections::HashSet;
 
 impl From<ExecutableDocument> for super::Operation {
     fn from(value: ExecutableDocument) -> Self {
@@ -9,12 +10,27 @@ impl From<ExecutableDocument> for super::Operation {
         let mut selections = Vec::new();
         let mut enum_values_in_variable_defaults = Vec::new();
 
+        let operation = &value.operations.iter().next().unwrap().1;
+
+        let optional_variables: HashSet<&str> = operation
+            .node
+            .variable_definitions
+            .iter()
+            .filter(|variable| variable.node.var_type.node.nullable && variable.node.default_value.is_none())
+            .map(|variable| variable.node.name.node.as_str())
+            .collect();
+
         for (name, fragment) in &value.fragments {
             let selection_id = SelectionId(selection_id_counter);
             selection_id_counter += 1;
 
             for item in fragment.node.selection_set.node.items.iter() {
-                let item = ingest_selection(&mut selection_id_counter, &item.node, &mut selections);
+                let item = ingest_selection(
+                    &mut selection_id_counter,
+                    &item.node,
+                    &optional_variables,
+                    &mut selections,
+                );
                 selections.push((selection_id, item));
             }
             let type_condition = fragment.node.type_condition.node.on.node.to_string();
@@ -27,8 +43,6 @@ impl From<ExecutableDocument> for super::Operation {
             );
         }
 
-        let operation = &value.operations.iter().next().unwrap().1;
-
         let operation_type = match operation.node.ty {
             async_graphql_parser::types::OperationType::Query => super::OperationType::Query,
             async_graphql_parser::types::OperationType::Mutation => super::OperationType::Mutation,
@@ -50,7 +64,12 @@ impl From<ExecutableDocument> for super::Operation {
         }
 
         for item in &operation.node.selection_set.node.items {
-            let item = ingest_selection(&mut selection_id_counter, &item.node, &mut selections);
+            let item = ingest_selection(
+                &mut selection_id_counter,
+                &item.node,
+                &optional_variables,
+                &mut selections,
+            );
             selections.push((root_selection, item));
         }
 
@@ -69,6 +88,7 @@ impl From<ExecutableDocument> for super::Operation {
 fn ingest_selection(
     counter: &mut usize,
     selection: &async_graphql_parser::types::Selection,
+    optional_variables: &HashSet<&str>,
     selections: &mut Vec<(SelectionId, super::Selection)>,
 ) -> super::Selection {
     match selection {
@@ -80,7 +100,7 @@ fn ingest_selection(
                 *counter += 1;
 
                 for item in &field.node.selection_set.node.items {
-                    let item = ingest_selection(counter, &item.node, selections);
+                    let item = ingest_selection(counter, &item.node, optional_variables, selections);
                     selections.push((subselection_id, item));
                 }
 
@@ -99,8 +119,14 @@ fn ingest_selection(
                             _ => None,
                         };
 
+                        let may_be_left_out = matches!(
+                            &value.node,
+                            async_graphql_value::Value::Variable(name) if optional_variables.contains(name.as_str())
+                        );
+
                         Argument {
                             name: name.node.to_string(),
+                            may_be_left_out,
                             enum_literal_value,
                         }
                     })
@@ -116,7 +142,7 @@ fn ingest_selection(
             *counter += 1;
 
             for item in &inline_fragment.node.selection_set.node.items {
-                let item = ingest_selection(counter, &item.node, selections);
+                let item = ingest_selection(counter, &item.node, optional_variables, selections);
                 selections.push((selection_id, item));
             }
 
-- 
2.43.0


From 6214908900818d82ba1a12d790c3520bfb9d9d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 58/66] fix: operation checks missed enum values inside of
 lists and input objects

---
 .../src/aggregate_field_usage.rs              | 28 ++++++---
 crates/operation-checks/src/operation.rs      | 15 ++++-
 .../src/operation/async_graphql.rs            | 60 +++++++++++++------
 3 files changed, 74 insertions(+), 29 deletions(-)

diff --git a/crates/operation-checks/src/aggregate_field_usage.rs b/crates/operation-checks/src/aggregate_field_usage.rs
index 27c31a4..d30243a 100644
--- a/crates/operation-checks/src/aggregate_field_usage.rs
+++ b/crates/operation-checks/src/aggregate_field_usage.rs
@@ -176,8 +176,8 @@ impl FieldUsage {
 
 /// Given a GraphQL query and the corresponding schema, count the number of times each schema field is used.
 pub fn aggregate_field_usage(query: &Operation, schema: &schema::Schema, usage: &mut FieldUsage) {
-    for used_enum_value in &query.enum_values_in_variable_defaults {
-        usage.register_enum_value_usage(used_enum_value.clone());
+    for (base_type, literal) in &query.enum_literals_in_variable_defaults {
+        register_enum_literal(base_type, literal, schema, usage);
     }
 
     let ty = match query.operation_type {
@@ -189,6 +189,21 @@ pub fn aggregate_field_usage(query: &Operation, schema: &schema::Schema, usage:
     aggregate_field_usage_inner(query.root_selection, ty, query, schema, usage);
 }
 
+/// Register the usage of an enum value inside of a literal of type `base_type`.
+fn register_enum_literal(base_type: &str, literal: &EnumLiteral, schema: &schema::Schema, usage: &mut FieldUsage) {
+    let mut type_name = base_type;
+
+    for field_name in &literal.path {
+        let Some(field_id) = schema.find_field(type_name, field_name) else {
+            return;
+        };
+
+        type_name = &schema[field_id].base_type;
+    }
+
+    usage.register_enum_value_usage([type_name, literal.value.as_str()].join("."));
+}
+
 fn aggregate_field_usage_inner(
     selection_id: SelectionId,
     parent_type_name: &str,
@@ -215,9 +230,7 @@ fn aggregate_field_usage_inner(
                 usage.register_field_usage(field_id);
 
                 for super::operation::Argument {
-                    name,
-                    enum_literal_value,
-                    ..
+                    name, enum_literals, ..
                 } in arguments
                 {
                     let Some(argument_id) = schema.find_argument((parent_type_name, field_name, name)) else {
@@ -226,9 +239,8 @@ fn aggregate_field_usage_inner(
 
                     usage.register_argument_usage(argument_id);
 
-                    if let Some(enum_value) = enum_literal_value {
-                        let enum_type_name = schema[argument_id].base_type.as_str();
-                        usage.register_enum_value_usage([enum_type_name, enum_value.as_str()].join("."));
+                    for literal in enum_literals {
+                        register_enum_literal(&schema[argument_id].base_type, literal, schema, usage);
                     }
                 }
 
diff --git a/crates/operation-checks/src/operation.rs b/crates/operation-checks/src/operation.rs
index f00f60f..6a95a9d 100644
--- a/crates/operation-checks/src/operation.rs
+++ b/crates/operation-checks/src/operation.rs
@@ -17,7 +17,8 @@ pub struct Operation {
     /// (parent selection, selection)
     pub(crate) selections: Vec<(SelectionId, Selection)>,
 
-    pub(crate) enum_values_in_variable_defaults: Vec<String>,
+    /// (variable type, enum literal)
+    pub(crate) enum_literals_in_variable_defaults: Vec<(String, EnumLiteral)>,
 }
 
 #[derive(Debug)]
@@ -33,14 +34,22 @@ pub enum OperationType {
     Subscription,
 }
 
+/// An enum value in a literal.
+#[derive(Debug)]
+pub(crate) struct EnumLiteral {
+    /// The input object fields leading to the enum value.
+    pub(crate) path: Vec<String>,
+    pub(crate) value: String,
+}
+
 #[derive(Debug)]
 pub(crate) struct Argument {
     pub(crate) name: String,
     /// True if the value is a nullable variable without a default value: the argument is left out
     /// whenever the variable is.
     pub(crate) may_be_left_out: bool,
-    /// Some(_) if the argument value is an enum literal.
-    pub(crate) enum_literal_value: Option<String>,
+    /// The enum literals in the argument value.
+    pub(crate) enum_literals: Vec<EnumLiteral>,
 }
 
 #[derive(Debug)]
diff --git a/crates/operation-checks/src/operation/async_graphql.rs b/crates/operation-checks/src/operation/async_graphql.rs
index ac3c029..b141b15 100644
--- a/crates/operation-checks/src/operation/async_graphql.rs
+++ b/crates/operation-checks/src/operation/async_graphql.rs
@@ -1,6 +1,6 @@
 use super::*;
-use async_graphql_parser::{Positioned, types::ExecutableDocument};
-use async_graphql_value::ConstValue;
+use async_graphql_parser::types::ExecutableDocument;
+use async_graphql_value::Value;
 use std::collections::HashSet;
 
 impl From<ExecutableDocument> for super::Operation {
@@ -8,7 +8,7 @@ impl From<ExecutableDocument> for super::Operation {
         let mut selection_id_counter = 0usize;
         let mut fragments = HashMap::with_capacity(value.fragments.len());
         let mut selections = Vec::new();
-        let mut enum_values_in_variable_defaults = Vec::new();
+        let mut enum_literals_in_variable_defaults = Vec::new();
 
         let operation = &value.operations.iter().next().unwrap().1;
 
@@ -53,14 +53,18 @@ impl From<ExecutableDocument> for super::Operation {
         selection_id_counter += 1;
 
         for variable in &operation.node.variable_definitions {
-            if let Some(Positioned {
-                node: ConstValue::Enum(enum_value),
-                ..
-            }) = &variable.node.default_value
-            {
-                let (base, _) = crate::schema::extract_type(&variable.node.var_type.node);
-                enum_values_in_variable_defaults.push([base.as_str(), enum_value.as_str()].join("."));
-            }
+            let Some(default_value) = &variable.node.default_value else {
+                continue;
+            };
+
+            let (base, _) = crate::schema::extract_type(&variable.node.var_type.node);
+            let mut enum_literals = Vec::new();
+            collect_enum_literals(
+                &default_value.node.clone().into_value(),
+                &mut Vec::new(),
+                &mut enum_literals,
+            );
+            enum_literals_in_variable_defaults.extend(enum_literals.into_iter().map(|literal| (base.clone(), literal)));
         }
 
         for item in &operation.node.selection_set.node.items {
@@ -80,7 +84,7 @@ impl From<ExecutableDocument> for super::Operation {
             operation_type,
             root_selection,
             selections,
-            enum_values_in_variable_defaults,
+            enum_literals_in_variable_defaults,
         }
     }
 }
@@ -114,20 +118,18 @@ fn ingest_selection(
                     .arguments
                     .iter()
                     .map(|(name, value)| {
-                        let enum_literal_value = match &value.node {
-                            async_graphql_value::Value::Enum(val) => Some(val.to_string()),
-                            _ => None,
-                        };
+                        let mut enum_literals = Vec::new();
+                        collect_enum_literals(&value.node, &mut Vec::new(), &mut enum_literals);
 
                         let may_be_left_out = matches!(
                             &value.node,
-                            async_graphql_value::Value::Variable(name) if optional_variables.contains(name.as_str())
+                            Value::Variable(name) if optional_variables.contains(name.as_str())
                         );
 
                         Argument {
                             name: name.node.to_string(),
                             may_be_left_out,
-                            enum_literal_value,
+                            enum_literals,
                         }
                     })
                     .collect(),
@@ -157,3 +159,25 @@ fn ingest_selection(
         }
     }
 }
+
+fn collect_enum_literals(value: &Value, path: &mut Vec<String>, out: &mut Vec<EnumLiteral>) {
+    match value {
+        Value::Enum(value) => out.push(EnumLiteral {
+            path: path.clone(),
+            value: value.to_string(),
+        }),
+        Value::List(items) => {
+            for item in items {
+                collect_enum_literals(item, path, out);
+            }
+        }
+        Value::Object(fields) => {
+            for (name, value) in fields {
+                path.push(name.to_string());
+                collect_enum_literals(value, path, out);
+                path.pop();
+            }
+        }
+        _ => (),
+    }
+}
-- 
2.43.0


From 91330db879b95b361bbf2571711815673876a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 59/66] fix: operation checks ignored interfaces and unions as
 type conditions in selections on their members

---
 crates/operation-checks/src/check.rs       |  7 +++++++
 crates/operation-checks/src/check/rules.rs | 15 +++++----------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index 64392a1..195eba7 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -61,6 +61,13 @@ impl<'a, T: UsageProvider> CheckParams<'a, T> {
         self.field_usage.enum_value_is_used(path)
     }
 
+    /// Whether one of the types is used as a type condition in a selection on the other.
+    fn type_condition_is_used(&self, abstract_type_name: &str, type_name: &str) -> bool {
+        let used = |parent: &str, on: &str| self.field_usage.type_condition_is_used(&format!("{parent}.{on}"));
+
+        used(abstract_type_name, type_name) || used(type_name, abstract_type_name)
+    }
+
     fn argument_is_left_out(&self, path: &str) -> bool {
         let Some(argument_id) = self.find_argument(path) else {
             return false;
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index c885d20..d3b4590 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -320,10 +320,7 @@ pub(super) fn remove_interface_implementation<T: UsageProvider>(
     let (type_name, interface_name) = change.path.split_once('.')?;
     let interface_name = interface_name.trim_start_matches('&');
 
-    if !check_params
-        .field_usage
-        .type_condition_is_used(&format!("{interface_name}.{type_name}"))
-    {
+    if !check_params.type_condition_is_used(interface_name, type_name) {
         return None;
     }
 
@@ -344,7 +341,9 @@ pub(super) fn remove_union_member<T: UsageProvider>(
         change, check_params, ..
     }: CheckArgs<'_, '_, T>,
 ) -> Option<CheckDiagnostic> {
-    if !check_params.field_usage.type_condition_is_used(&change.path) {
+    let (union_name, member_name) = change.path.split_once('.')?;
+
+    if !check_params.type_condition_is_used(union_name, member_name) {
         return None;
     }
 
@@ -369,11 +368,7 @@ pub(crate) fn remove_object_type<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -
 
     // FIXME: this shouldn't be an early return, we should be able to return multiple errors.
     for interface_name in src.iter_interface_implementations(type_name) {
-        if args
-            .check_params
-            .field_usage
-            .type_condition_is_used(&format!("{interface_name}.{type_name}"))
-        {
+        if args.check_params.type_condition_is_used(interface_name, type_name) {
             return Some(CheckDiagnostic {
                 message: format!(
                     "The interface implementation for `{interface_name}` on `{type_name}` was removed but it is still used by clients."
-- 
2.43.0


From 3feeae6326c41749839324c5d9fe9f109c83ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:25 +0000
Subject: [PATCH 60/66] fix: operation checks ignored types that became types
 of another kind

---
 crates/operation-checks/src/check.rs       |  8 +--
 crates/operation-checks/src/check/rules.rs | 66 ++++++++++++++++++++++
 2 files changed, 70 insertions(+), 4 deletions(-)

diff --git a/crates/operation-checks/src/check.rs b/crates/operation-checks/src/check.rs
index 195eba7..b1b7ef2 100644
--- a/crates/operation-checks/src/check.rs
+++ b/crates/operation-checks/src/check.rs
@@ -170,15 +170,15 @@ fn check_change<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDia
         | ChangeKind::AddObjectType
         | ChangeKind::AddScalar
         | ChangeKind::AddUnion
-        | ChangeKind::AddEnum
+        | ChangeKind::AddEnum => None,
 
         // Removing a type means it isn't used anymore. That may translate to field type changes,
-        // which are the actual breaking changes.
-        | ChangeKind::RemoveEnum
+        // which are the actual breaking changes, unless there is a type of another kind in its place.
+        ChangeKind::RemoveEnum
         | ChangeKind::RemoveScalar
         | ChangeKind::RemoveInterface
         | ChangeKind::RemoveInputObject
-        | ChangeKind::RemoveUnion => None,
+        | ChangeKind::RemoveUnion => rules::change_kind_of_type(args),
 
         ChangeKind::RemoveObjectType => rules::remove_object_type(args),
 
diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index d3b4590..52ed9b0 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -1,4 +1,5 @@
 use super::*;
+use crate::schema::{ArgumentId, FieldId};
 
 /// Removing a field is breaking iff it is used in any operation. This is easy to determine
 /// for output fields, but for input fields in most cases we can only know if the input
@@ -380,6 +381,14 @@ pub(crate) fn remove_object_type<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -
         }
     }
 
+    if let Some(diagnostic) = change_kind_of_type(CheckArgs {
+        change: args.change,
+        check_params: args.check_params,
+        used_input_types: &mut *args.used_input_types,
+    }) {
+        return Some(diagnostic);
+    }
+
     if ![
         &src.query_type_name,
         &src.mutation_type_name,
@@ -407,6 +416,63 @@ pub(crate) fn remove_object_type<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -
     })
 }
 
+/// When a type is removed and one of another kind takes its name, fields and arguments keep the name of their
+/// type, so nothing else is reported. This is breaking iff one of them is used.
+pub(super) fn change_kind_of_type<T: UsageProvider>(
+    CheckArgs {
+        change,
+        check_params,
+        used_input_types,
+        ..
+    }: CheckArgs<'_, '_, T>,
+) -> Option<CheckDiagnostic> {
+    let type_name = &change.path;
+
+    let is_replaced = check_params.diff.iter().any(|other| {
+        other.path == *type_name
+            && matches!(
+                other.kind,
+                ChangeKind::AddEnum
+                    | ChangeKind::AddInputObject
+                    | ChangeKind::AddInterface
+                    | ChangeKind::AddObjectType
+                    | ChangeKind::AddScalar
+                    | ChangeKind::AddUnion
+            )
+    });
+
+    if !is_replaced {
+        return None;
+    }
+
+    let source = check_params.source;
+    let used_input_types = used_input_types.get_or_insert_with(|| find_used_input_types(check_params));
+
+    let is_used_by_field = source.fields.iter().enumerate().any(|(idx, field)| {
+        field.base_type == *type_name
+            && if source.input_objects.contains(&field.type_name) {
+                used_input_types.contains(field.type_name.as_str())
+            } else {
+                check_params.field_usage.field_is_used(FieldId(idx))
+            }
+    });
+
+    let is_used_by_argument = source.field_arguments.iter().enumerate().any(|(idx, argument)| {
+        argument.base_type == *type_name && check_params.field_usage.argument_is_used(ArgumentId(idx))
+    });
+
+    if !is_used_by_field && !is_used_by_argument {
+        return None;
+    }
+
+    Some(CheckDiagnostic {
+        message: format!("The type `{type_name}` became a type of another kind but it is still used by clients."),
+        severity: Severity::Error,
+        path: change.path.clone(),
+        change_kind: change.kind,
+    })
+}
+
 // Removing an enum value is safe iff it is not used explicitly as argument in any query.
 pub(crate) fn remove_enum_value<T: UsageProvider>(args: CheckArgs<'_, '_, T>) -> Option<CheckDiagnostic> {
     if !args.check_params.enum_value_is_used(&args.change.path) {
-- 
2.43.0


From 5284dbb64e7b9ace959b296820a065fd3c49ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 61/66] fix: operation checks ignored interfaces of another
 kind that are only used as type conditions

---
 crates/operation-checks/src/check/rules.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/operation-checks/src/check/rules.rs b/crates/operation-checks/src/check/rules.rs
index 52ed9b0..7b62bca 100644
--- a/crates/operation-checks/src/check/rules.rs
+++ b/crates/operation-checks/src/check/rules.rs
@@ -449,12 +449,13 @@ pub(super) fn change_kind_of_type<T: UsageProvider>(
     let used_input_types = used_input_types.get_or_insert_with(|| find_used_input_types(check_params));
 
     let is_used_by_field = source.fields.iter().enumerate().any(|(idx, field)| {
-        field.base_type == *type_name
-            && if source.input_objects.contains(&field.type_name) {
-                used_input_types.contains(field.type_name.as_str())
-            } else {
-                check_params.field_usage.field_is_used(FieldId(idx))
-            }
+        if source.input_objects.contains(&field.type_name) {
+            field.base_type == *type_name && used_input_types.contains(field.type_name.as_str())
+        } else {
+            // Its own fields can be selected through fields of other types, with type conditions.
+            (field.base_type == *type_name || field.type_name == *type_name)
+                && check_params.field_usage.field_is_used(FieldId(idx))
+        }
     });
 
     let is_used_by_argument = source.field_arguments.iter().enumerate().any(|(idx, argument)| {
-- 
2.43.0


From af01badb4a4b88a60a0ec3fca41993e8e315e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 62/66] fix: telemetry.tracing.collect limits on links and on
 attributes of events and links were ignored

---
 crates/telemetry/src/otel/traces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/telemetry/src/otel/traces.rs b/crates/telemetry/src/otel/traces.rs
index 624abc3..7839e47 100644
--- a/crates/telemetry/src/otel/traces.rs
+++ b/crates/telemetry/src/otel/traces.rs
@@ -34,7 +34,9 @@ where
     builder = builder
         .with_max_events_per_span(config.tracing.collect.max_events_per_span as u32)
         .with_max_attributes_per_span(config.tracing.collect.max_attributes_per_span as u32)
-        .with_max_events_per_span(config.tracing.collect.max_events_per_span as u32)
+        .with_max_links_per_span(config.tracing.collect.max_links_per_span as u32)
+        .with_max_attributes_per_event(config.tracing.collect.max_attributes_per_event as u32)
+        .with_max_attributes_per_link(config.tracing.collect.max_attributes_per_link as u32)
         .with_resource(resource);
 
     Ok(setup_exporters(builder, config)?.build())
-- 
2.43.0


From 28306c1b147547d0319e024178f3c9441ef67469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 63/66] fix: operationName of GET requests was ignored

---
 crates/engine/operation/src/request/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/engine/operation/src/request/mod.rs b/crates/engine/operation/src/request/mod.rs
index 5f87aaf..d5f5e10 100644
--- a/crates/engine/operation/src/request/mod.rs
+++ b/crates/engine/operation/src/request/mod.rs
@@ -373,7 +373,7 @@ struct QueryParams {
     doc_id: Option<String>,
     #[serde(default)]
     variables: Option<String>,
-    #[serde(default)]
+    #[serde(default, rename = "operationName")]
     operation_name: Option<String>,
     #[serde(default)]
     extensions: Option<String>,
-- 
2.43.0


From b091e5a2f7c88c1c1310117924ee598dc5b3d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 64/66] fix: an empty operation name shared a cached operation
 with no operation name

---
 crates/engine/src/engine/cache.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/engine/src/engine/cache.rs b/crates/engine/src/engine/cache.rs
index 7e61e7e..9ecf1f2 100644
--- a/crates/engine/src/engine/cache.rs
+++ b/crates/engine/src/engine/cache.rs
@@ -80,6 +80,8 @@ impl std::fmt::Display for CacheKey<'_> {
                         hasher.update(b"apq");
                         hasher.update(&[0x00]);
                         if let Some(name) = operation_name {
+                            // An empty name isn't the same as no name.
+                            hasher.update(&[0x01]);
                             hasher.update(name.as_bytes());
                         }
                         // NULL bytes acting as a separator as it cannot be present in the
@@ -96,6 +98,8 @@ impl std::fmt::Display for CacheKey<'_> {
                         hasher.update(b"docid");
                         hasher.update(&[0x00]);
                         if let Some(name) = operation_name {
+                            // An empty name isn't the same as no name.
+                            hasher.update(&[0x01]);
                             hasher.update(name.as_bytes());
                         }
                         hasher.update(&[0x00]);
@@ -111,6 +115,8 @@ impl std::fmt::Display for CacheKey<'_> {
                         hasher.update(b"doc");
                         hasher.update(&[0x00]);
                         if let Some(name) = operation_name {
+                            // An empty name isn't the same as no name.
+                            hasher.update(&[0x01]);
                             hasher.update(name.as_bytes());
                         }
                         hasher.update(&[0x00]);
-- 
2.43.0


From 2a65be059578db91accdf0dcfff70d0c39755834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 65/66] fix: a cached persisted query was executed although the
 query sent doesn't match its hash

---
 crates/engine/src/prepare/mod.rs              | 11 ++++++-
 .../engine/src/prepare/trusted_documents.rs   | 29 ++++++++++---------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/crates/engine/src/prepare/mod.rs b/crates/engine/src/prepare/mod.rs
index 3fcf566..4fdf216 100644
--- a/crates/engine/src/prepare/mod.rs
+++ b/crates/engine/src/prepare/mod.rs
@@ -21,7 +21,7 @@ use tracing::{Instrument, info_span};
 
 use crate::{
     Engine, ErrorCode, Runtime,
-    engine::cache::CacheKey,
+    engine::cache::{CacheKey, DocumentKey},
     response::{GraphqlError, Response},
 };
 
@@ -75,6 +75,15 @@ impl<R: Runtime> PrepareContext<'_, R> {
                 }
             };
 
+            if let DocumentKey::AutomaticPersistedQuery { ext, .. } = &extracted.key
+                && let Err(err) = trusted_documents::validate_apq(request.query.as_deref(), ext)
+            {
+                return Err(Response::request_error(
+                    self.schema().config.error_code_mapping.clone(),
+                    [err],
+                ));
+            }
+
             let cache_key = CacheKey::document(self.schema(), &extracted.key);
             if let Some(operation) = self.operation_cache().get(&cache_key).await {
                 self.executed_operation_builder.cached_plan(true);
diff --git a/crates/engine/src/prepare/trusted_documents.rs b/crates/engine/src/prepare/trusted_documents.rs
index 6787d76..3ed842e 100644
--- a/crates/engine/src/prepare/trusted_documents.rs
+++ b/crates/engine/src/prepare/trusted_documents.rs
@@ -191,7 +191,7 @@ impl<'ctx, R: Runtime> PrepareContext<'ctx, R> {
                         operation_name,
                         ext: Cow::Borrowed(ext),
                     },
-                    document_or_future: DocumentOrFuture::Future(handle_apq(request.query.as_deref(), ext).boxed()),
+                    document_or_future: DocumentOrFuture::Future(handle_apq(request.query.as_deref()).boxed()),
                 })
             }
             (TrustedDocumentsEnforcementMode::Ignore, None, _)
@@ -306,14 +306,8 @@ async fn handle_trusted_document_query<'ctx, 'r, R: Runtime>(
     }
 }
 
-/// Handle a request using Automatic Persisted Queries.
-/// We don't cache anything here, we only rely on the operation cache. We might want to use an
-/// external cache for this one day, but not another in-memory cache.
-#[tracing::instrument(skip_all)]
-async fn handle_apq<'r>(
-    query: Option<&'r str>,
-    ext: &'r PersistedQueryRequestExtension,
-) -> Result<Cow<'r, str>, GraphqlError> {
+/// Whatever is cached for the hash, a query sent along with it must be the one that was hashed.
+pub(super) fn validate_apq(query: Option<&str>, ext: &PersistedQueryRequestExtension) -> Result<(), GraphqlError> {
     if ext.version != 1 {
         return Err(GraphqlError::new(
             "Persisted query version not supported",
@@ -330,13 +324,20 @@ async fn handle_apq<'r>(
                 ErrorCode::PersistedQueryError,
             ));
         }
-        return Ok(Cow::Borrowed(query));
     }
 
-    Err(GraphqlError::new(
-        "Persisted query not found",
-        ErrorCode::PersistedQueryNotFound,
-    ))
+    Ok(())
+}
+
+/// Handle a request using Automatic Persisted Queries.
+/// We don't cache anything here, we only rely on the operation cache. We might want to use an
+/// external cache for this one day, but not another in-memory cache.
+#[tracing::instrument(skip_all)]
+async fn handle_apq(query: Option<&str>) -> Result<Cow<'_, str>, GraphqlError> {
+    query
+        .filter(|q| !q.is_empty())
+        .map(Cow::Borrowed)
+        .ok_or_else(|| GraphqlError::new("Persisted query not found", ErrorCode::PersistedQueryNotFound))
 }
 
 /// When a request contains a trusted document id, but the trusted document is not found in object storage. Default: INFO.
-- 
2.43.0


From 922f742d3a811b58ff1735ac33188e13d5b46921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:06 +0000
Subject: [PATCH 66/66] fix: directives and links on a federated schema without
 a Query type were lost when read back

---
 crates/graphql-composition/src/federated_graph/from_sdl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/graphql-composition/src/federated_graph/from_sdl.rs b/crates/graphql-composition/src/federated_graph/from_sdl.rs
index c39e766..185b447 100644
--- a/crates/graphql-composition/src/federated_graph/from_sdl.rs
+++ b/crates/graphql-composition/src/federated_graph/from_sdl.rs
@@ -214,7 +214,7 @@ fn ingest_schema_and_directive_definitions<'a>(
 ) -> Result<(), DomainError> {
     for definition in parsed.definitions() {
         match definition {
-            ast::Definition::Schema(schema_definition) => {
+            ast::Definition::Schema(schema_definition) | ast::Definition::SchemaExtension(schema_definition) => {
                 ingest_schema_definition(schema_definition, state)?;
             }
             ast::Definition::Directive(directive_definition) => {
-- 
2.43.0

