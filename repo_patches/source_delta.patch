From 02e92b7051f24b0938a82b26a489c484e5e0fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:09 +0000
Subject: [PATCH 01/94] fix: runs without inputs no longer demand inputs only
 needed by overridden nodes

---
 hamilton/async_driver.py |  4 +++-
 hamilton/driver.py       | 16 +++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 63d3a8b..2e7cef6 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -293,7 +293,9 @@ class AsyncDriver(driver.Driver):
             "-- the only reason you'd do this is to use materialize(), which is not supported yet.."
         )
         run_id = str(uuid.uuid4())
-        nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs, overrides)
+        nodes, user_nodes = self.graph.get_upstream_nodes(
+            final_vars, inputs if inputs is not None else {}, overrides
+        )
         memoized_computation = dict()  # memoized storage
         if self.adapter.does_hook("pre_graph_execute"):
             await self.adapter.call_all_lifecycle_hooks_sync_and_async(
diff --git a/hamilton/driver.py b/hamilton/driver.py
index 868764e..61623e0 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -730,7 +730,9 @@ class Driver:
         """
         function_graph = _fn_graph if _fn_graph is not None else self.graph
         run_id = str(uuid.uuid4())
-        nodes, user_nodes = function_graph.get_upstream_nodes(final_vars, inputs, overrides)
+        nodes, user_nodes = function_graph.get_upstream_nodes(
+            final_vars, inputs if inputs is not None else {}, overrides
+        )
         Driver.validate_inputs(
             function_graph, self.adapter, user_nodes, inputs, nodes
         )  # TODO -- validate within the function graph itself
@@ -804,7 +806,9 @@ class Driver:
         """
         function_graph = _fn_graph if _fn_graph is not None else self.graph
         run_id = _run_id
-        nodes, user_nodes = function_graph.get_upstream_nodes(final_vars, inputs, overrides)
+        nodes, user_nodes = function_graph.get_upstream_nodes(
+            final_vars, inputs if inputs is not None else {}, overrides
+        )
         Driver.validate_inputs(
             function_graph, self.adapter, user_nodes, inputs, nodes
         )  # TODO -- validate within the function graph itself
@@ -1677,7 +1681,7 @@ class Driver:
                 )
 
             nodes, user_nodes = function_graph.get_upstream_nodes(
-                final_vars + materializer_vars, inputs, overrides
+                final_vars + materializer_vars, inputs if inputs is not None else {}, overrides
             )
             Driver.validate_inputs(function_graph, self.adapter, user_nodes, inputs, nodes)
             all_nodes = nodes | user_nodes
@@ -1803,7 +1807,9 @@ class Driver:
         :param inputs: Inputs to pass to execution.
         :raise ValueError: if any issues with executino can be detected.
         """
-        nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs, overrides)
+        nodes, user_nodes = self.graph.get_upstream_nodes(
+            final_vars, inputs if inputs is not None else {}, overrides
+        )
         Driver.validate_inputs(self.graph, self.adapter, user_nodes, inputs, nodes)
         self.graph_executor.validate(list(nodes | user_nodes))
 
@@ -1838,7 +1844,7 @@ class Driver:
         # need to validate the right inputs has been provided.
         # we do this on the modified graph.
         nodes, user_nodes = function_graph.get_upstream_nodes(
-            final_vars + materializer_vars, inputs, overrides
+            final_vars + materializer_vars, inputs if inputs is not None else {}, overrides
         )
         Driver.validate_inputs(function_graph, self.adapter, user_nodes, inputs, nodes)
         all_nodes = nodes | user_nodes
-- 
2.43.0


From 16b1f127fcaf54fc4f19046e5fbb44246e60f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:26 +0000
Subject: [PATCH 02/94] fix: accept tuples, dict subclasses and callables for
 inputs declared Tuple[..], Dict[..] or Callable

---
 hamilton/htypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hamilton/htypes.py b/hamilton/htypes.py
index e1db63a..8cacacb 100644
--- a/hamilton/htypes.py
+++ b/hamilton/htypes.py
@@ -336,6 +336,10 @@ def check_input_type(node_type: Type, input_value: Any) -> bool:
         input_value
     ):
         return True
+    elif typing_inspect.get_origin(node_type) is dict and isinstance(input_value, dict):
+        return True
+    elif typing_inspect.is_callable_type(node_type) and callable(input_value):
+        return True
     elif typing_inspect.is_union_type(node_type):
         union_types = typing_inspect.get_args(node_type)
         return any([check_input_type(ut, input_value) for ut in union_types])
@@ -348,7 +352,7 @@ def check_input_type(node_type: Type, input_value: Any) -> bool:
         return True
     # iterable (set, dict) is super class over sequence (list, tuple)
     elif (
-        typing_inspect.is_generic_type(node_type)
+        (typing_inspect.is_generic_type(node_type) or typing_inspect.is_tuple_type(node_type))
         and typing_inspect.get_origin(node_type)
         in (list, tuple, typing_inspect.get_origin(typing.Sequence))
         and isinstance(input_value, (list, tuple, typing_inspect.get_origin(typing.Sequence)))
-- 
2.43.0


From fe666a9896f53266272b3aed5804d3e938bed430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:00 +0000
Subject: [PATCH 03/94] fix: validate_execution accepts functions and variables
 like execute does

---
 hamilton/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 61623e0..1101bf9 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -1808,7 +1808,7 @@ class Driver:
         :raise ValueError: if any issues with executino can be detected.
         """
         nodes, user_nodes = self.graph.get_upstream_nodes(
-            final_vars, inputs if inputs is not None else {}, overrides
+            self._create_final_vars(final_vars), inputs if inputs is not None else {}, overrides
         )
         Driver.validate_inputs(self.graph, self.adapter, user_nodes, inputs, nodes)
         self.graph_executor.validate(list(nodes | user_nodes))
-- 
2.43.0


From ea83f0ea36d29283e4ae675d1fcc448d81d6ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:05 +0000
Subject: [PATCH 04/94] fix: a parallel block may use the collected result of
 another block

---
 hamilton/execution/graph_functions.py | 4 ++++
 hamilton/execution/grouping.py        | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/hamilton/execution/graph_functions.py b/hamilton/execution/graph_functions.py
index b3379cd..e3c2753 100644
--- a/hamilton/execution/graph_functions.py
+++ b/hamilton/execution/graph_functions.py
@@ -334,6 +334,7 @@ def execute_lifecycle_for_node(
 def nodes_between(
     end_node: node.Node,
     search_condition: lambda node_: bool,
+    stop_condition: lambda node_: bool = lambda node_: False,
 ) -> Tuple[Optional[node.Node], List[node.Node]]:
     """Utility function to search backwards from an end node to a start node.
     This returns all nodes for which both of the following conditions are met:
@@ -349,6 +350,7 @@ def nodes_between(
 
     :param end_node: Node to trace back from
     :param search_condition: Condition to stop the search for ancestors
+    :param stop_condition: Nodes (other than the search node) whose ancestors should not be searched
     :return: A tuple of [start_node, between], where start_node is None
     if there is no path (and between will be empty).
     """
@@ -363,6 +365,8 @@ def nodes_between(
             nonlocal search_node
             search_node = node_
             return True
+        if stop_condition(node_):
+            return False
         if node_ in visited:
             # if we've already seen it, we want to include it
             return node_ in out
diff --git a/hamilton/execution/grouping.py b/hamilton/execution/grouping.py
index ed68ffd..2c5fb66 100644
--- a/hamilton/execution/grouping.py
+++ b/hamilton/execution/grouping.py
@@ -188,7 +188,11 @@ class GroupByRepeatableBlocks(GroupingStrategy):
         def is_expander(node_: node.Node) -> bool:
             return node_.node_role in [NodeType.EXPAND]
 
-        return graph_functions.nodes_between(collect_node, is_expander)
+        def is_collector(node_: node.Node) -> bool:
+            # this closes another block, so anything upstream of it does not belong to this one
+            return node_.node_role in [NodeType.COLLECT]
+
+        return graph_functions.nodes_between(collect_node, is_expander, is_collector)
 
     def group_nodes(self, nodes: List[node.Node]) -> List[NodeGroup]:
         """Groups nodes into blocks. This works as follows:
-- 
2.43.0


From e05b47846073e85ec2ff4ba73b398a4acbf7c55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:55 +0000
Subject: [PATCH 05/94] fix: blocks of an overridden Parallelizable no longer
 also run on the whole list

---
 hamilton/execution/state.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hamilton/execution/state.py b/hamilton/execution/state.py
index f121826..8179f17 100644
--- a/hamilton/execution/state.py
+++ b/hamilton/execution/state.py
@@ -163,11 +163,14 @@ class ExecutionState:
         :param tasks:
         :return:
         """
+        base_task_ids = {task.base_id for task in tasks}
         for task in tasks:
             # Note that this will break with nested tasks...
             # We want to add every task that is initially spawned and "static"
             # We want to add dynamic tasks later
-            if len(task.base_dependencies) == 0:
+            # (a dynamic task has no dependencies if the expander that spawns it is overridden)
+            is_dynamic = task.spawning_task_base_id in base_task_ids
+            if len(task.base_dependencies) == 0 and not is_dynamic:
                 self.realize_task(task, None, None, None)
 
     def _initialize_base_task_pool(self, tasks: List[TaskSpec]):
-- 
2.43.0


From 7b03ff8a4a392502cf9018bfc3a92af5325f8c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:44 +0000
Subject: [PATCH 06/94] fix: task-based execution of an empty request returns
 instead of spinning forever

---
 hamilton/execution/state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hamilton/execution/state.py b/hamilton/execution/state.py
index 8179f17..0689c3c 100644
--- a/hamilton/execution/state.py
+++ b/hamilton/execution/state.py
@@ -440,6 +440,9 @@ class ExecutionState:
         """
         if not self.is_initialized:
             return GraphState.UNINITIALIZED
+        elif len(self.base_task_pool) == 0:
+            # nothing to run, so there is nothing to wait for
+            return GraphState.SUCCESSFUL
         elif len(self.task_states) == 0 or all(
             [state == TaskState.INITIALIZED for state in self.task_states.values()]
         ):
-- 
2.43.0


From d8222d944aed1430443d60df9448f171a34ed78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:31 +0000
Subject: [PATCH 07/94] fix: pipe_output and mutate work on async functions

---
 hamilton/function_modifiers/macros.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index ae877db..395ad92 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -1307,10 +1307,10 @@ class pipe_output(base.NodeTransformer):
         def __identity(foo: Any) -> Any:
             return foo
 
-        async def async_function(**kwargs):
-            return await __identity(**kwargs)
+        async def __async_identity(foo: Any) -> Any:
+            return foo
 
-        fn_to_use = async_function if is_async else __identity
+        fn_to_use = __async_identity if is_async else __identity
 
         transforms = transforms + (step(fn_to_use).named(fn.__name__),)
         nodes, _ = chain_transforms(
-- 
2.43.0


From eb9d65c5193651278fa8fa14c73f096f107d5ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:25 +0000
Subject: [PATCH 08/94] fix: caching no longer truncates the tuple a data
 loader returns to its first item

---
 hamilton/caching/adapter.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 59fd181..3e3d98e 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1268,13 +1268,6 @@ class HamiltonCacheAdapter(
             ):
                 cache_key = self.get_cache_key(run_id=run_id, node_name=node_name, task_id=task_id)
 
-                # nodes collected in `._data_loaders` return tuples of (result, metadata)
-                # where metadata often includes a timestamp. To ensure we provide a consistent
-                # `data_version` / hash, we only hash the result part of the materializer return
-                # value and discard the metadata.
-                if node_name in self._data_loaders[run_id] and isinstance(result, tuple):
-                    result = result[0]
-
                 data_version = self._version_data(node_name=node_name, run_id=run_id, result=result)
 
                 # nodes collected in `._data_savers` return a dictionary of metadata
@@ -1355,13 +1348,6 @@ class HamiltonCacheAdapter(
                 task_id=task_id,
             )
 
-            # nodes collected in `._data_loaders` return tuples of (result, metadata)
-            # where metadata often includes a timestamp. To ensure we provide a consistent
-            # `data_version` / hash, we only hash the result part of the materializer return
-            # value and discard the metadata.
-            if node_name in self._data_loaders[run_id] and isinstance(result, tuple):
-                result = result[0]
-
             data_version = self._version_data(node_name=node_name, run_id=run_id, result=result)
 
             # nodes collected in `._data_savers` return a dictionary of metadata
-- 
2.43.0


From 0d4867c67d96c74fd0052db7f1402ed3c55d4dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:25 +0000
Subject: [PATCH 09/94] fix: the cache key of a Collect node depends on the
 order of the collected items

---
 hamilton/caching/adapter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 3e3d98e..3effd4c 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1145,8 +1145,8 @@ class HamiltonCacheAdapter(
         Collecting ``data_version`` for upstream dependencies requires handling special cases when
         task-based execution is used:
         - If the current node is ``COLLECT`` , the dependency annotated with ``Collect[]`` needs to
-        be versioned item by item instead of versioning the full container. This is because the
-        collect order is inconsistent.
+        be versioned item by item instead of versioning the full container. The order of the
+        items matters, since the node receives them in that order.
         - If the current node is ``INSIDE`` and the dependency is ``EXPAND``, this means the
         ``kwargs`` dictionary contains a single item. We need to version this individual item because
         it will not be available from "inside" the branch for some executors (multiprocessing, multithreading)
@@ -1196,7 +1196,7 @@ class HamiltonCacheAdapter(
             if dep_name == collected_name:
                 # the collected value should be hashed based on the items, not the container
                 items_data_versions = [self.version_data(item, run_id=run_id) for item in dep_value]
-                dep_data_version = fingerprinting.hash_value(sorted(items_data_versions))
+                dep_data_version = fingerprinting.hash_value(items_data_versions)
 
             elif dep_role == NodeRoleInTaskExecution.EXPAND:
                 # if the dependency is `EXPAND`, the kwarg received is a single item yielded by the iterator
-- 
2.43.0


From 2f34a2b79c3fa2fed9fc7eb36b1da693f183485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:25 +0000
Subject: [PATCH 10/94] fix: caching versions dependencies computed in another
 task group

---
 hamilton/caching/adapter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 3effd4c..4242e03 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1211,6 +1211,9 @@ class HamiltonCacheAdapter(
                     dep_data_version = self.version_data(dep_value, run_id=run_id)
                 elif isinstance(tasks_data_versions, dict):
                     dep_data_version = tasks_data_versions.get(task_id)
+                    if dep_data_version is None:
+                        # the dependency was computed in another task
+                        dep_data_version = self.version_data(dep_value, run_id=run_id)
                 else:
                     dep_data_version = tasks_data_versions
 
-- 
2.43.0


From 62b6df454c76f3732ba05254d25cb69f4c0feac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:25 +0000
Subject: [PATCH 11/94] fix: concurrent tasks no longer drop each other's cache
 keys and data versions

---
 hamilton/caching/adapter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 4242e03..ec3a209 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -596,9 +596,8 @@ class HamiltonCacheAdapter(
         ):
             self.cache_keys[run_id][node_name] = cache_key
         elif node_role == NodeRoleInTaskExecution.INSIDE:
-            if self.cache_keys[run_id].get(node_name, SENTINEL) is SENTINEL:
-                self.cache_keys[run_id][node_name] = {}
-            self.cache_keys[run_id][node_name][task_id] = cache_key  # type: ignore ; we just initialized the nested dict
+            # `setdefault()` is atomic; several threads may get here at the same time
+            self.cache_keys[run_id].setdefault(node_name, {})[task_id] = cache_key  # type: ignore ; we just initialized the nested dict
         else:
             raise ValueError(
                 f"Received `{node_role}`. Unhandled `NodeRoleInTaskExecution`, please report this bug."
@@ -734,9 +733,8 @@ class HamiltonCacheAdapter(
         elif node_role == NodeRoleInTaskExecution.EXPAND:
             self.data_versions[run_id][node_name] = {}
         elif node_role == NodeRoleInTaskExecution.INSIDE:
-            if self.data_versions[run_id].get(node_name, SENTINEL) is SENTINEL:
-                self.data_versions[run_id][node_name] = {}
-            self.data_versions[run_id][node_name][task_id] = data_version  # type: ignore ; we just initialized the nested dict
+            # `setdefault()` is atomic; several threads may get here at the same time
+            self.data_versions[run_id].setdefault(node_name, {})[task_id] = data_version  # type: ignore ; we just initialized the nested dict
         else:
             raise ValueError(
                 f"Received `{node_role}`. Unhandled `NodeRoleInTaskExecution`, please report this bug."
-- 
2.43.0


From 72e10298202bad4fc5ba5c8f920b54284312c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:25 +0000
Subject: [PATCH 12/94] fix: results of nodes with the IGNORE caching behavior
 are not stored

---
 hamilton/caching/adapter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index ec3a209..6909938 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1402,7 +1402,6 @@ class HamiltonCacheAdapter(
         if self.behaviors[run_id][node_name] in (
             CachingBehavior.DEFAULT,
             CachingBehavior.RECOMPUTE,
-            CachingBehavior.IGNORE,
         ):
             cache_key = self.get_cache_key(run_id=run_id, node_name=node_name, task_id=task_id)
             data_version = self.get_data_version(
-- 
2.43.0


From 1baa69026f34f65cd458d58a65d7d6e9b3c41d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:25 +0000
Subject: [PATCH 13/94] fix: SQLiteMetadataStore.set updates the data version
 of an existing cache key

---
 hamilton/caching/stores/sqlite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 1e43484..940ec74 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -147,9 +147,10 @@ class SQLiteMetadataStore(MetadataStore):
         cur.execute("INSERT INTO history (cache_key, run_id) VALUES (?, ?)", (cache_key, run_id))
         cur.execute(
             """\
-            INSERT OR IGNORE INTO cache_metadata (
+            INSERT INTO cache_metadata (
                 cache_key, node_name, code_version, data_version
             ) VALUES (?, ?, ?, ?)
+            ON CONFLICT (cache_key) DO UPDATE SET data_version = excluded.data_version
             """,
             (cache_key, node_name, code_version, data_version),
         )
-- 
2.43.0


From fad835a1016385af3f531eada7dcbd7544c728a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:25 +0000
Subject: [PATCH 14/94] fix: SQLiteMetadataStore can be used again after
 delete_all

---
 hamilton/caching/stores/sqlite.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 940ec74..eef8178 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -107,6 +107,7 @@ class SQLiteMetadataStore(MetadataStore):
         """Call initialize when starting a run. This will create database tables
         if necessary.
         """
+        self._create_tables_if_not_exists()
         cur = self.connection.cursor()
         cur.execute("INSERT INTO run_ids (run_id) VALUES (?)", (run_id,))
         self.connection.commit()
-- 
2.43.0


From c09b5335590a5d5f2673fac35cd80171ae64a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:42 +0000
Subject: [PATCH 15/94] fix: FileResultStore writes results atomically

---
 hamilton/caching/stores/file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index 9721a72..dcbd23c 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -1,5 +1,6 @@
 import inspect
 import shutil
+import uuid
 from pathlib import Path
 from typing import Any, Optional
 
@@ -29,7 +30,10 @@ class FileResultStore(ResultStore):
 
     @staticmethod
     def _write_result(file_path: Path, stored_result: StoredResult) -> None:
-        file_path.write_bytes(stored_result.save())
+        # write then rename, so that a crash or a concurrent reader never sees a partial result
+        tmp_path = file_path.with_name(f".{file_path.name}.{uuid.uuid4()}.tmp")
+        tmp_path.write_bytes(stored_result.save())
+        tmp_path.replace(file_path)
 
     @staticmethod
     def _load_result_from_path(path: Path) -> Optional[StoredResult]:
-- 
2.43.0


From 1782c615e8d58d76e6c7b3121c350f19b3443cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:30 +0000
Subject: [PATCH 16/94] fix: containers with unhashable items are unhashable
 instead of sharing a fingerprint

---
 hamilton/caching/fingerprinting.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index ee5ea96..40fe001 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -148,7 +148,10 @@ def hash_sequence(obj, *args, depth: int = 0, **kwargs) -> str:
     """
     hash_object = hashlib.sha224()
     for elem in obj:
-        hash_object.update(hash_value(elem, depth=depth + 1).encode())
+        elem_hash = hash_value(elem, depth=depth + 1)
+        if elem_hash == UNHASHABLE:
+            return UNHASHABLE
+        hash_object.update(elem_hash.encode())
 
     return _compact_hash(hash_object.digest())
 
@@ -168,7 +171,10 @@ def hash_unordered_mapping(obj, *args, depth: int = 0, **kwargs) -> str:
 
     hashed_mapping: Dict[str, str] = {}
     for key, value in obj.items():
-        hashed_mapping[hash_value(key, depth=depth + 1)] = hash_value(value, depth=depth + 1)
+        key_hash, value_hash = hash_value(key, depth=depth + 1), hash_value(value, depth=depth + 1)
+        if UNHASHABLE in (key_hash, value_hash):
+            return UNHASHABLE
+        hashed_mapping[key_hash] = value_hash
 
     hash_object = hashlib.sha224()
     for key, value in sorted(hashed_mapping.items()):
@@ -203,8 +209,11 @@ def hash_mapping(obj, *, ignore_order: bool = True, depth: int = 0, **kwargs) ->
 
     hash_object = hashlib.sha224()
     for key, value in obj.items():
-        hash_object.update(hash_value(key, depth=depth + 1).encode())
-        hash_object.update(hash_value(value, depth=depth + 1).encode())
+        key_hash, value_hash = hash_value(key, depth=depth + 1), hash_value(value, depth=depth + 1)
+        if UNHASHABLE in (key_hash, value_hash):
+            return UNHASHABLE
+        hash_object.update(key_hash.encode())
+        hash_object.update(value_hash.encode())
 
     return _compact_hash(hash_object.digest())
 
@@ -218,6 +227,8 @@ def hash_set(obj, *args, depth: int = 0, **kwargs) -> str:
     same.
     """
     hashes = [hash_value(elem, depth=depth + 1) for elem in obj]
+    if UNHASHABLE in hashes:
+        return UNHASHABLE
     sorted_hashes = sorted(hashes)
 
     hash_object = hashlib.sha224()
-- 
2.43.0


From 60674daca1de2743fa7511b8c0ea0a16ebe62f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:59 +0000
Subject: [PATCH 17/94] fix: rows sharing an index value all count in the
 fingerprint of a pandas object

---
 hamilton/caching/fingerprinting.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index 40fe001..be0d9a0 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -250,8 +250,14 @@ def hash_pandas_obj(obj, *args, depth: int = 0, **kwargs) -> str:
     """
     from pandas.util import hash_pandas_object
 
-    hash_per_row = hash_pandas_object(obj)
-    return hash_mapping(hash_per_row.to_dict(), ignore_order=False, depth=depth + 1)
+    # hash as an ordered mapping {index: row_hash}; the index may contain duplicates
+    hash_object = hashlib.sha224()
+    for index, row_hash in hash_pandas_object(obj).items():
+        # `row_hash` covers the index too, so it's fine if the type of `index` is not supported
+        hash_object.update(hash_value(index, depth=depth + 2).encode())
+        hash_object.update(hash_value(row_hash, depth=depth + 2).encode())
+
+    return _compact_hash(hash_object.digest())
 
 
 @hash_value.register(h_databackends.AbstractPolarsDataFrame)
-- 
2.43.0


From 7a241bad846fe97a4fe4cd8d557e2f2e1c6b8e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:47 +0000
Subject: [PATCH 18/94] fix: a stored result that can't be loaded is recomputed
 instead of becoming None

---
 hamilton/caching/stores/file.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index dcbd23c..9fa9387 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -11,7 +11,7 @@ except ImportError:
 
 from hamilton.io.data_adapters import DataLoader, DataSaver
 
-from .base import ResultStore, StoredResult
+from .base import ResultRetrievalError, ResultStore, StoredResult
 
 
 class FileResultStore(ResultStore):
@@ -39,10 +39,15 @@ class FileResultStore(ResultStore):
     def _load_result_from_path(path: Path) -> Optional[StoredResult]:
         try:
             data = path.read_bytes()
-            return StoredResult.load(data)
         except FileNotFoundError:
             return None
 
+        try:
+            return StoredResult.load(data)
+        except Exception as e:
+            # e.g., the materialized file of a result stored with `@cache(format="json")` was removed
+            raise ResultRetrievalError(f"Failed to load the result stored at {path}") from e
+
     def _path_from_data_version(self, data_version: str) -> Path:
         return self.path.joinpath(data_version)
 
-- 
2.43.0


From d4eeca7a1ffcb878443936fa253a2b4ed482fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:47 +0000
Subject: [PATCH 19/94] fix: @cache(format=...) works with in-memory result
 stores

---
 hamilton/caching/adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 6909938..f66fe2f 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1417,7 +1417,8 @@ class HamiltonCacheAdapter(
                 .nodes[node_name]
                 .tags.get(cache_decorator.FORMAT_KEY, SENTINEL)
             )
-            if cache_format is not SENTINEL:
+            # stores that don't materialize files (e.g., in-memory) ignore the format
+            if cache_format is not SENTINEL and hasattr(self.result_store, "_materialized_path"):
                 saver_cls, loader_cls = search_data_adapter_registry(
                     name=cache_format, type_=type(result)
                 )  # type: ignore
-- 
2.43.0


From 8e39b1cec947a0ff309b290d0d27260c066570b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:47 +0000
Subject: [PATCH 20/94] fix: the fingerprint of a pandas series or polars
 object depends on its column names

---
 hamilton/caching/fingerprinting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index be0d9a0..8e99bc5 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -252,6 +252,8 @@ def hash_pandas_obj(obj, *args, depth: int = 0, **kwargs) -> str:
 
     # hash as an ordered mapping {index: row_hash}; the index may contain duplicates
     hash_object = hashlib.sha224()
+    if isinstance(obj, h_databackends.AbstractPandasColumn) and obj.name is not None:
+        hash_object.update(hash_value(obj.name, depth=depth + 2).encode())
     for index, row_hash in hash_pandas_object(obj).items():
         # `row_hash` covers the index too, so it's fine if the type of `index` is not supported
         hash_object.update(hash_value(index, depth=depth + 2).encode())
@@ -266,7 +268,7 @@ def hash_polars_dataframe(obj, *args, depth: int = 0, **kwargs) -> str:
     a list of hashes then hash it.
     """
     hash_per_row = obj.hash_rows()
-    return hash_sequence(hash_per_row.to_list(), depth=depth + 1)
+    return hash_sequence([*obj.columns, *hash_per_row.to_list()], depth=depth + 1)
 
 
 @hash_value.register(h_databackends.AbstractPolarsColumn)
-- 
2.43.0


From bbca72ec125d4e926604bc4cc74c1e202cb12012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:36 +0000
Subject: [PATCH 21/94] fix: the data version of a data saver's metadata
 depends on what was saved

---
 hamilton/caching/adapter.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index f66fe2f..e3f476a 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -800,6 +800,16 @@ class HamiltonCacheAdapter(
 
         return data_version
 
+    @staticmethod
+    def _version_saver_metadata(node_name: str, cache_key: Optional[str]) -> str:
+        """Version of the metadata returned by a data saver. It doesn't depend on the metadata,
+        which is unstable (e.g., timestamps), but on what was saved, i.e., the ``cache_key``.
+        """
+        data_version = f"{node_name}__metadata"
+        if cache_key is not None:
+            data_version += f"__{fingerprinting.hash_value(cache_key)}"
+        return data_version
+
     def version_data(self, result: Any, run_id: str = None) -> str:
         """Create a unique data version for the result
 
@@ -1276,7 +1286,7 @@ class HamiltonCacheAdapter(
                 # we do not version nor store the metadata. This node is executed for its
                 # external effect of saving a file
                 if node_name in self._data_savers[run_id]:
-                    data_version = f"{node_name}__metadata"
+                    data_version = self._version_saver_metadata(node_name, cache_key)
 
                 self._set_memory_metadata(
                     run_id=run_id, node_name=node_name, task_id=task_id, data_version=data_version
@@ -1356,7 +1366,7 @@ class HamiltonCacheAdapter(
             # we do not version nor store the metadata. This node is executed for its
             # external effect of saving a file
             if node_name in self._data_savers[run_id]:
-                data_version = f"{node_name}__metadata"
+                data_version = self._version_saver_metadata(node_name, cache_key)
 
             self._set_memory_metadata(
                 run_id=run_id, node_name=node_name, task_id=task_id, data_version=data_version
-- 
2.43.0


From ac05f35d29157d55d334d28d9ae6ca0165736fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:36 +0000
Subject: [PATCH 22/94] fix: SQLiteMetadataStore can be used after its
 directory was deleted

---
 hamilton/caching/stores/sqlite.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index eef8178..e96242b 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -107,6 +107,10 @@ class SQLiteMetadataStore(MetadataStore):
         """Call initialize when starting a run. This will create database tables
         if necessary.
         """
+        if not self._path.exists():
+            # the cache directory was deleted since the connection was opened
+            self._close_connection()
+            self._directory.mkdir(parents=True, exist_ok=True)
         self._create_tables_if_not_exists()
         cur = self.connection.cursor()
         cur.execute("INSERT INTO run_ids (run_id) VALUES (?)", (run_id,))
-- 
2.43.0


From de39ea339d3ef8b949c70ae1757b32f44daf9f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:36 +0000
Subject: [PATCH 23/94] fix: InMemoryMetadataStore runs leave out deleted and
 ignored entries

---
 hamilton/caching/stores/memory.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 37eee89..b1a2763 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -54,6 +54,12 @@ class InMemoryMetadataStore(MetadataStore):
     def delete_all(self) -> None:
         """Delete all stored metadata."""
         self._data_versions.clear()
+        self._cache_keys_by_run.clear()
+        self._run_ids.clear()
+
+    def _stored_cache_keys(self, cache_keys: Sequence[str]) -> List[str]:
+        """Leave out deleted keys and nodes without a key (i.e., with the IGNORE behavior)"""
+        return [key for key in cache_keys if key is not None and key in self._data_versions]
 
     def persist_to(self, metadata_store: Optional[MetadataStore] = None) -> None:
         """Persist in-memory metadata using another MetadataStore implementation.
@@ -89,7 +95,7 @@ class InMemoryMetadataStore(MetadataStore):
             metadata_store.initialize(run_id)
 
         for run_id, cache_keys in self._cache_keys_by_run.items():
-            for cache_key in cache_keys:
+            for cache_key in self._stored_cache_keys(cache_keys):
                 data_version = self._data_versions[cache_key]
                 metadata_store.set(
                     cache_key=cache_key,
@@ -149,7 +155,7 @@ class InMemoryMetadataStore(MetadataStore):
             raise IndexError(f"Run ID not found: {run_id}")
 
         nodes_metadata = []
-        for cache_key in self._cache_keys_by_run[run_id]:
+        for cache_key in self._stored_cache_keys(self._cache_keys_by_run[run_id]):
             decoded_key = decode_key(cache_key)
             nodes_metadata.append(
                 dict(
-- 
2.43.0


From b0a7f658408a136435ae58d56266cc4c17e81e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:36 +0000
Subject: [PATCH 24/94] fix: InMemoryResultStore.load_from skips missing
 results instead of loading None

---
 hamilton/caching/stores/memory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index b1a2763..f0cc16d 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -277,8 +277,9 @@ class InMemoryResultStore(ResultStore):
                     data_versions_to_retrieve.add(node_metadata["data_version"])
 
         for data_version in data_versions_to_retrieve:
-            # TODO disambiguate "result is None" from the sentinel value when `data_version`
-            # is not found in `result_store`.
+            # don't mistake a missing result for a result that is None
+            if not result_store.exists(data_version):
+                continue
             result = result_store.get(data_version)
             in_memory_result_store.set(data_version, result)
 
-- 
2.43.0


From c8c836e8d8444334c1a85ac86b4a16dee19d54ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:08 +0000
Subject: [PATCH 25/94] fix: @config strips the suffix of a function name once,
 however often it is resolved

---
 hamilton/function_modifiers/configuration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/configuration.py b/hamilton/function_modifiers/configuration.py
index ae62c74..f6c8de3 100644
--- a/hamilton/function_modifiers/configuration.py
+++ b/hamilton/function_modifiers/configuration.py
@@ -170,6 +170,9 @@ class config(base.NodeResolver):
     def _get_function_name(self, fn: Callable) -> str:
         if self.target_name is not None:
             return self.target_name
+        if fn.__name__ != getattr(fn, "__original_name__", fn.__name__):
+            # already resolved, by another `@config` decorator or for another driver
+            return fn.__name__
         return base.sanitize_function_name(fn.__name__)
 
     def resolve(self, fn, config: Dict[str, Any]) -> Callable:
@@ -179,7 +182,7 @@ class config(base.NodeResolver):
         fn.__config_decorated__ = (
             self._config_used if self._config_used is not None else ["__UNKNOWN__"]
         )
-        fn.__original_name__ = fn.__name__
+        fn.__original_name__ = getattr(fn, "__original_name__", fn.__name__)
         fn.__name__ = self._get_function_name(fn)  # TODO -- copy function to not mutate it
         return fn
 
-- 
2.43.0


From 074a1bff2930f48d537d3b6154a826911adf683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:15 +0000
Subject: [PATCH 26/94] fix: Builder.copy keeps allow_module_overrides

---
 hamilton/driver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 1101bf9..532b153 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2188,6 +2188,7 @@ class Builder:
         new_builder.legacy_graph_adapter = self.legacy_graph_adapter
         new_builder.adapters = self.adapters.copy()
         new_builder.materializers = self.materializers.copy()
+        new_builder._allow_module_overrides = self._allow_module_overrides
         new_builder.execution_manager = self.execution_manager
         new_builder.local_executor = self.local_executor
         new_builder.remote_executor = self.remote_executor
-- 
2.43.0


From bc2069f023ae1e05825e3541bbfe6abf32fc4175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:15 +0000
Subject: [PATCH 27/94] fix: an optional parameter with an unavailable source()
 keeps its default

---
 hamilton/function_modifiers/expanders.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 1b5e726..a280438 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -195,7 +195,10 @@ class parameterize(base.NodeExpander):
                 for node_input in former_inputs:
                     if node_input in upstream_dependencies:
                         # If the node is specified by `source`, then we get the value from the kwargs
-                        new_kwargs[node_input] = kwargs[upstream_dependencies[node_input].source]
+                        # An optional source that is not available leaves the default in place
+                        upstream = upstream_dependencies[node_input].source
+                        if upstream in kwargs:
+                            new_kwargs[node_input] = kwargs[upstream]
                     elif node_input in literal_dependencies:
                         # If the node is specified by `value`, then we get the literal value (no need for kwargs)
                         new_kwargs[node_input] = literal_dependencies[node_input].value
-- 
2.43.0


From a9750dc13db244d59f468a2a9a5240bf08050c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:15 +0000
Subject: [PATCH 28/94] fix: extract_columns(fill_with=...) fills columns given
 with a docstring

---
 hamilton/function_modifiers/expanders.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index a280438..5aea80c 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -635,6 +635,7 @@ class extract_columns(base.SingleNodeNodeTransformer):
                 df_generated = await fn(*args, **kwargs)
                 if self.fill_with is not None:
                     for col in self.columns:
+                        col = col[0] if isinstance(col, tuple) else col
                         if col not in df_generated:
                             registry.fill_with_scalar(df_generated, col, self.fill_with)
                             assert col in df_generated
@@ -646,6 +647,7 @@ class extract_columns(base.SingleNodeNodeTransformer):
                 df_generated = fn(*args, **kwargs)
                 if self.fill_with is not None:
                     for col in self.columns:
+                        col = col[0] if isinstance(col, tuple) else col
                         if col not in df_generated:
                             registry.fill_with_scalar(df_generated, col, self.fill_with)
                             assert col in df_generated
-- 
2.43.0


From 60a097306b2f264a9f638513915b77d89ecd56cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:15 +0000
Subject: [PATCH 29/94] fix: extract_columns(fill_with=...) works with polars
 dataframes

---
 hamilton/function_modifiers/expanders.py | 8 ++++++--
 hamilton/plugins/polars_extensions.py    | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 5aea80c..34e9a2b 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -637,7 +637,9 @@ class extract_columns(base.SingleNodeNodeTransformer):
                     for col in self.columns:
                         col = col[0] if isinstance(col, tuple) else col
                         if col not in df_generated:
-                            registry.fill_with_scalar(df_generated, col, self.fill_with)
+                            df_generated = registry.fill_with_scalar(
+                                df_generated, col, self.fill_with
+                            )
                             assert col in df_generated
                 return df_generated
 
@@ -649,7 +651,9 @@ class extract_columns(base.SingleNodeNodeTransformer):
                     for col in self.columns:
                         col = col[0] if isinstance(col, tuple) else col
                         if col not in df_generated:
-                            registry.fill_with_scalar(df_generated, col, self.fill_with)
+                            df_generated = registry.fill_with_scalar(
+                                df_generated, col, self.fill_with
+                            )
                             assert col in df_generated
                 return df_generated
 
diff --git a/hamilton/plugins/polars_extensions.py b/hamilton/plugins/polars_extensions.py
index 2c8b9d5..51ae0b2 100644
--- a/hamilton/plugins/polars_extensions.py
+++ b/hamilton/plugins/polars_extensions.py
@@ -47,7 +47,7 @@ def get_column_polars(df: pl.DataFrame, column_name: str) -> pl.Series:
 @registry.fill_with_scalar.register(pl.DataFrame)
 def fill_with_scalar_polars(df: pl.DataFrame, column_name: str, scalar_value: Any) -> pl.DataFrame:
     if not isinstance(scalar_value, pl.Series):
-        scalar_value = [scalar_value]
+        scalar_value = pl.Series(values=[scalar_value]).new_from_index(0, df.height)
     return df.with_columns(pl.Series(name=column_name, values=scalar_value))
 
 
-- 
2.43.0


From 01950dac5dabc732d07a8f17f1ea97159c9c28d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:15 +0000
Subject: [PATCH 30/94] fix: parameterize_extract_columns respects
 reassign_columns=False

---
 hamilton/function_modifiers/expanders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 34e9a2b..a76dc25 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -936,8 +936,8 @@ class parameterize_extract_columns(base.NodeExpander):
                 df_out.columns = _output_columns
                 return df_out
 
-            new_node = node_.copy_with(callabl=wrapper_fn)
             fn_to_call = wrapper_fn if self.reassign_columns else fn
+            new_node = node_.copy_with(callabl=fn_to_call)
             # We have to rename the underlying function so that we do not
             # get naming collisions. Using __ is cleaner than using a uuid
             # as it is easier to read/manage and naturally maeks sense.
-- 
2.43.0


From 735cfc12db4e2a5d9ef34d4661020c41a128ffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:15 +0000
Subject: [PATCH 31/94] fix: @does maps chained and repeated arguments

---
 hamilton/function_modifiers/macros.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index 395ad92..a82d971 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -111,8 +111,8 @@ class does(base.NodeCreator):
         """
         output = {**kwargs}
         for arg_mapped_to, original_arg in argument_mapping.items():
-            if original_arg in kwargs and arg_mapped_to not in argument_mapping.values():
-                del output[original_arg]
+            if original_arg not in argument_mapping:
+                output.pop(original_arg, None)
             # Note that if it is not there it could be a **kwarg
             output[arg_mapped_to] = kwargs[original_arg]
         return output
-- 
2.43.0


From a1e1aaf21b69b33ff853067906433018bbbd56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:20 +0000
Subject: [PATCH 32/94] fix: Node.reassign_inputs handles shared inputs and
 inputs named like fixed parameters

---
 hamilton/node.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hamilton/node.py b/hamilton/node.py
index 5755b0e..81d7673 100644
--- a/hamilton/node.py
+++ b/hamilton/node.py
@@ -363,9 +363,13 @@ class Node(object):
         is_async = inspect.iscoroutinefunction(self.callable)  # determine if its async
 
         def new_callable(**kwargs) -> Any:
-            reverse_input_names = {v: k for k, v in input_names.items()}
-            kwargs = {**kwargs, **input_values}
-            return self.callable(**{reverse_input_names.get(k, k): v for k, v in kwargs.items()})
+            # Look up every parameter on its own, as several can share an input, and the name of
+            # an input can also be the name of a parameter with a fixed value
+            new_kwargs = {k: v for k, v in kwargs.items() if k not in input_names.values()}
+            for param in self.input_types:
+                if input_names.get(param, param) in kwargs:
+                    new_kwargs[param] = kwargs[input_names.get(param, param)]
+            return self.callable(**{**new_kwargs, **input_values})
 
         async def async_function(**kwargs):
             return await new_callable(**kwargs)
-- 
2.43.0


From 0346663eb823561c252448d81705b158fdbd4645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 33/94] fix: adapter params sharing a source, or named like the
 saved node, all get their value

---
 hamilton/function_modifiers/adapters.py | 105 ++++++++++++------------
 1 file changed, 53 insertions(+), 52 deletions(-)

diff --git a/hamilton/function_modifiers/adapters.py b/hamilton/function_modifiers/adapters.py
index 2f975f4..4dbba18 100644
--- a/hamilton/function_modifiers/adapters.py
+++ b/hamilton/function_modifiers/adapters.py
@@ -97,6 +97,47 @@ def resolve_kwargs(kwargs: Dict[str, Any]) -> Tuple[Dict[str, str], Dict[str, An
     return dependencies, resolved_kwargs
 
 
+def _select_dependencies(
+    dependencies: Dict[str, str], input_kwargs: Dict[str, Any]
+) -> Dict[str, Any]:
+    """Selects the values of the adapter's params from what the DAG passes in.
+
+    :param dependencies: Map of param name -> source name. A source can feed several params.
+    :param input_kwargs: Map of source name -> value. Optional sources may be missing.
+    :return: Map of param name -> value
+    """
+    return {
+        param: input_kwargs[source]
+        for param, source in dependencies.items()
+        if source in input_kwargs
+    }
+
+
+def _get_input_types(
+    adapter_cls: Type[AdapterCommon], dependencies: Dict[str, str]
+) -> Dict[str, Tuple[Type[Type], DependencyType]]:
+    """Gives the inputs of the node that runs an adapter: the sources of its params. Params
+    that are given as literal values are not among them.
+
+    :param adapter_cls: Adapter class
+    :param dependencies: Map of param name -> source name
+    :return: Map of source name -> (type, dependency type)
+    """
+    input_types = {
+        dependencies[key]: (type_, DependencyType.OPTIONAL)
+        for key, type_ in adapter_cls.get_optional_arguments().items()
+        if key in dependencies
+    }
+    input_types.update(
+        {
+            dependencies[key]: (type_, DependencyType.REQUIRED)
+            for key, type_ in adapter_cls.get_required_arguments().items()
+            if key in dependencies
+        }
+    )
+    return input_types
+
+
 def resolve_adapter_class(
     type_: Type[Type], loader_classes: List[Type[AdapterCommon]]
 ) -> Optional[Type[AdapterCommon]]:
@@ -180,45 +221,25 @@ class LoadFromDecorator(NodeInjector):
         loader_factory = AdapterFactory(loader_cls, **self.kwargs)
         # dependencies is a map from param name -> source name
         # we use this to pass the right arguments to the loader.
+        # Note that several params can have the same source.
         dependencies, resolved_kwargs = resolve_kwargs(self.kwargs)
-        # we need to invert the dependencies so that we can pass
-        # the right argument to the loader
-        dependencies_inverted = {v: k for k, v in dependencies.items()}
 
         def load_data(
             __loader_factory: AdapterFactory = loader_factory,
             __load_type: Type[Type] = load_type,
             __resolved_kwargs=resolved_kwargs,
-            __dependencies=dependencies_inverted,
+            __dependencies=dependencies,
             __optional_params=loader_cls.get_optional_arguments(),  # noqa: B008
             **input_kwargs: Any,
         ) -> Tuple[load_type, Dict[str, Any]]:
-            input_args_with_fixed_dependencies = {
-                __dependencies.get(key, key): value for key, value in input_kwargs.items()
+            kwargs = {
+                **__resolved_kwargs,
+                **_select_dependencies(__dependencies, input_kwargs),
             }
-            kwargs = {**__resolved_kwargs, **input_args_with_fixed_dependencies}
             data_loader = __loader_factory.create_loader(**kwargs)
             return data_loader.load_data(load_type)
 
-        def get_input_type_key(key: str) -> str:
-            return key if key not in dependencies else dependencies[key]
-
-        input_types = {
-            get_input_type_key(key): (type_, DependencyType.REQUIRED)
-            for key, type_ in loader_cls.get_required_arguments().items()
-        }
-        input_types.update(
-            {
-                dependencies[key]: (type_, DependencyType.OPTIONAL)
-                for key, type_ in loader_cls.get_optional_arguments().items()
-                if key in dependencies
-            }
-        )
-        # Take out all the resolved kwargs, as they are not dependencies, and will be filled out
-        # later
-        input_types = {
-            key: value for key, value in input_types.items() if key not in resolved_kwargs
-        }
+        input_types = _get_input_types(loader_cls, dependencies)
 
         # the loader node is the node that loads the data from the data source.
         loader_node = node.Node(
@@ -528,43 +549,23 @@ class SaveToDecorator(SingleNodeNodeTransformer):
 
         adapter_factory = AdapterFactory(saver_cls, **self.kwargs)
         dependencies, resolved_kwargs = resolve_kwargs(self.kwargs)
-        dependencies_inverted = {v: k for k, v in dependencies.items()}
 
         def save_data(
             __adapter_factory=adapter_factory,
-            __dependencies=dependencies_inverted,
+            __dependencies=dependencies,
             __resolved_kwargs=resolved_kwargs,
             __data_node_name=node_to_save,
             **input_kwargs,
         ) -> Dict[str, Any]:
-            input_args_with_fixed_dependencies = {
-                __dependencies.get(key, key): value for key, value in input_kwargs.items()
+            data_to_save = input_kwargs[__data_node_name]
+            kwargs = {
+                **__resolved_kwargs,
+                **_select_dependencies(__dependencies, input_kwargs),
             }
-            kwargs = {**__resolved_kwargs, **input_args_with_fixed_dependencies}
-            data_to_save = kwargs[__data_node_name]
-            kwargs = {k: v for k, v in kwargs.items() if k != __data_node_name}
             data_saver = __adapter_factory.create_saver(**kwargs)
             return data_saver.save_data(data_to_save)
 
-        def get_input_type_key(key: str) -> str:
-            return key if key not in dependencies else dependencies[key]
-
-        input_types = {
-            get_input_type_key(key): (type_, DependencyType.REQUIRED)
-            for key, type_ in saver_cls.get_required_arguments().items()
-        }
-        input_types.update(
-            {
-                dependencies[key]: (type_, DependencyType.OPTIONAL)
-                for key, type_ in saver_cls.get_optional_arguments().items()
-                if key in dependencies
-            }
-        )
-        # Take out all the resolved kwargs, as they are not dependencies, and will be filled out
-        # later
-        input_types = {
-            key: value for key, value in input_types.items() if key not in resolved_kwargs
-        }
+        input_types = _get_input_types(saver_cls, dependencies)
         input_types[node_to_save] = (node_.type, DependencyType.REQUIRED)
         save_node = node.Node(
             name=artifact_name,
-- 
2.43.0


From bf035ed0e3c7a312fd467fa32bae031bed417350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:05 +0000
Subject: [PATCH 34/94] fix: materialize reports the actual error when its
 graph can't be built

---
 hamilton/driver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 532b153..4c28d21 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -1647,6 +1647,7 @@ class Driver:
         final_vars = self._create_final_vars(additional_vars)
         # This is so the finally logging statement does not accidentally die
         materializer_vars = []
+        run_started = False  # post_graph_execute is only called if pre_graph_execute was
         try:
             materializer_factories, extractor_factories = self._process_materializers(materializers)
             if len(materializer_factories) == len(final_vars) == 0:
@@ -1679,6 +1680,7 @@ class Driver:
                     inputs=inputs,
                     overrides=overrides,
                 )
+            run_started = True
 
             nodes, user_nodes = function_graph.get_upstream_nodes(
                 final_vars + materializer_vars, inputs if inputs is not None else {}, overrides
@@ -1703,7 +1705,7 @@ class Driver:
             error_execution = e
             raise e
         finally:
-            if self.adapter.does_hook("post_graph_execute", is_async=False):
+            if run_started and self.adapter.does_hook("post_graph_execute", is_async=False):
                 self.adapter.call_all_lifecycle_hooks_sync(
                     "post_graph_execute",
                     run_id=run_id,
-- 
2.43.0


From d0f62ade0b02d13755f4faa821860d64e5964419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:58 +0000
Subject: [PATCH 35/94] fix: to.xyz/from_.xyz accept parameters of adapters
 registered later under their key

---
 hamilton/io/materialization.py | 64 ++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/hamilton/io/materialization.py b/hamilton/io/materialization.py
index 2035bb4..2068c75 100644
--- a/hamilton/io/materialization.py
+++ b/hamilton/io/materialization.py
@@ -370,47 +370,49 @@ def _set_materializer_attrs():
         :param key: Key to use for the materializer.
         :return: The function without **kwargs and with the union of the parameters.
         """
-        original_signature = inspect.signature(fn)
-        original_parameters = list(original_signature.parameters.values())
-
-        new_parameters = []
-        seen = set()
-        for dataclass in dataclasses_union:
-            for field in dataclasses.fields(dataclass):
-                if field.name not in seen:
-                    new_parameters.append(
-                        inspect.Parameter(
-                            field.name,
-                            inspect.Parameter.KEYWORD_ONLY,
-                            annotation=field.type,
-                            default=None,
+        def create_signature() -> inspect.Signature:
+            # adapters can get registered under the same key later on, so this is not static
+            original_signature = inspect.signature(fn)
+            original_parameters = list(original_signature.parameters.values())
+
+            new_parameters = []
+            seen = set()
+            for dataclass in dataclasses_union:
+                for field in dataclasses.fields(dataclass):
+                    if field.name not in seen:
+                        new_parameters.append(
+                            inspect.Parameter(
+                                field.name,
+                                inspect.Parameter.KEYWORD_ONLY,
+                                annotation=field.type,
+                                default=None,
+                            )
                         )
-                    )
-                seen.add(field.name)
-
-        # Combining old and new parameters
-        # Checking for position of **kwargs and insert new params before
-        for idx, param in enumerate(original_parameters):  # noqa
-            if param.kind == inspect.Parameter.VAR_KEYWORD:
-                break
-        else:
-            idx = len(original_parameters)
+                    seen.add(field.name)
+
+            # Combining old and new parameters
+            # Checking for position of **kwargs and insert new params before
+            for idx, param in enumerate(original_parameters):  # noqa
+                if param.kind == inspect.Parameter.VAR_KEYWORD:
+                    break
+            else:
+                idx = len(original_parameters)
 
-        # Insert new parameters while respecting the order
-        combined_parameters = original_parameters[:idx] + new_parameters + original_parameters[idx:]
-        combined_parameters = [param for param in combined_parameters if param.name != "kwargs"]
+            # Insert new parameters while respecting the order
+            combined_parameters = original_parameters[:idx] + new_parameters + original_parameters[idx:]
+            combined_parameters = [param for param in combined_parameters if param.name != "kwargs"]
 
-        # Creating a new signature with combined parameters
-        new_signature = original_signature.replace(parameters=combined_parameters)
+            # Creating a new signature with combined parameters
+            return original_signature.replace(parameters=combined_parameters)
 
         # Creating a new function with the new signature
         @functools.wraps(fn)
         def wrapper(*args, **kwargs):
-            bound_arguments = new_signature.bind(*args, **kwargs)
+            bound_arguments = create_signature().bind(*args, **kwargs)
             return fn(*bound_arguments.args, **bound_arguments.kwargs)
 
         # Assign the new signature to the wrapper function
-        wrapper.__signature__ = new_signature
+        wrapper.__signature__ = create_signature()
         wrapper.__doc__ = f"""
         Materializes data to {key} format. Note that the parameters are a superset of possible parameters -- this might depend on
         the actual type of the data passed in. For more information, see: https://hamilton.dagworks.io/en/latest/reference/io/available-data-adapters/#data-loaders.
-- 
2.43.0


From 2691ac211ab21790fe69c1ed6c4e769d6c0e82cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:11 +0000
Subject: [PATCH 36/94] fix: from_.csv applies skipfooter, decimal and
 header=None

---
 hamilton/plugins/pandas_extensions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hamilton/plugins/pandas_extensions.py b/hamilton/plugins/pandas_extensions.py
index e212e5d..87df51e 100644
--- a/hamilton/plugins/pandas_extensions.py
+++ b/hamilton/plugins/pandas_extensions.py
@@ -158,8 +158,7 @@ class PandasCSVReader(DataLoader):
             kwargs["sep"] = self.sep
         if self.delimiter is not None:
             kwargs["delimiter"] = self.delimiter
-        if self.header is not None:
-            kwargs["header"] = self.header
+        kwargs["header"] = self.header  # None is a valid value: the file has no header row
         if self.names is not None:
             kwargs["names"] = self.names
         if self.index_col is not None:
@@ -180,6 +179,8 @@ class PandasCSVReader(DataLoader):
             kwargs["skipinitialspace"] = self.skipinitialspace
         if self.skiprows is not None:
             kwargs["skiprows"] = self.skiprows
+        if self.skipfooter is not None:
+            kwargs["skipfooter"] = self.skipfooter
         if self.nrows is not None:
             kwargs["nrows"] = self.nrows
         if self.na_values is not None:
@@ -210,6 +211,8 @@ class PandasCSVReader(DataLoader):
             kwargs["compression"] = self.compression
         if self.thousands is not None:
             kwargs["thousands"] = self.thousands
+        if self.decimal is not None:
+            kwargs["decimal"] = self.decimal
         if self.lineterminator is not None:
             kwargs["lineterminator"] = self.lineterminator
         if self.quotechar is not None:
-- 
2.43.0


From dc9c2253a2ba1600142450aa13e328ec9a5307dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:11 +0000
Subject: [PATCH 37/94] fix: xml adapters pass namespace and elems_cols under
 pandas' names

---
 hamilton/plugins/pandas_extensions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/plugins/pandas_extensions.py b/hamilton/plugins/pandas_extensions.py
index 87df51e..21d28d6 100644
--- a/hamilton/plugins/pandas_extensions.py
+++ b/hamilton/plugins/pandas_extensions.py
@@ -834,7 +834,7 @@ class PandasXmlReader(DataLoader):
         if self.xpath is not None:
             kwargs["xpath"] = self.xpath
         if self.namespace is not None:
-            kwargs["namespace"] = self.namespace
+            kwargs["namespaces"] = self.namespace
         if self.elems_only is not None:
             kwargs["elems_only"] = self.elems_only
         if self.attrs_only is not None:
@@ -921,7 +921,7 @@ class PandasXmlWriter(DataSaver):
         if self.attr_cols is not None:
             kwargs["attr_cols"] = self.attr_cols
         if self.elems_cols is not None:
-            kwargs["elems_cols"] = self.elems_cols
+            kwargs["elem_cols"] = self.elems_cols
         if self.namespaces is not None:
             kwargs["namespaces"] = self.namespaces
         if self.prefix is not None:
-- 
2.43.0


From 5f85a5947dc144f69f01ea6faff766b168f029de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:51 +0000
Subject: [PATCH 38/94] fix: pandas adapters honour compression=None

---
 hamilton/plugins/pandas_extensions.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/hamilton/plugins/pandas_extensions.py b/hamilton/plugins/pandas_extensions.py
index 21d28d6..3a29430 100644
--- a/hamilton/plugins/pandas_extensions.py
+++ b/hamilton/plugins/pandas_extensions.py
@@ -207,8 +207,7 @@ class PandasCSVReader(DataLoader):
             kwargs["iterator"] = self.iterator
         if self.chunksize is not None:
             kwargs["chunksize"] = self.chunksize
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression  # None means uncompressed
         if self.thousands is not None:
             kwargs["thousands"] = self.thousands
         if self.decimal is not None:
@@ -314,8 +313,7 @@ class PandasCSVWriter(DataSaver):
             kwargs["mode"] = self.mode
         if self.encoding is not None:
             kwargs["encoding"] = self.encoding
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression  # None means uncompressed
         if self.quoting is not None:
             kwargs["quoting"] = self.quoting
         if self.quotechar is not None:
@@ -422,8 +420,7 @@ class PandasParquetWriter(DataSaver):
         kwargs = {}
         if self.engine is not None:
             kwargs["engine"] = self.engine
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression  # None means uncompressed
         if self.index is not None:
             kwargs["index"] = self.index
         if self.partition_cols is not None:
@@ -465,8 +462,7 @@ class PandasPickleReader(DataLoader):
     def _get_loading_kwargs(self) -> Dict[str, Any]:
         # Puts kwargs in a dict
         kwargs = {}
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression  # None means uncompressed
         if self.storage_options is not None:
             kwargs["storage_options"] = self.storage_options
         return kwargs
@@ -517,8 +513,7 @@ class PandasPickleWriter(DataSaver):
     def _get_saving_kwargs(self) -> Dict[str, Any]:
         # Puts kwargs in a dict
         kwargs = {}
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression  # None means uncompressed
         if self.protocol is not None:
             kwargs["protocol"] = self.protocol
         if self.storage_options is not None:
@@ -573,8 +568,7 @@ class PandasJsonReader(DataLoader):
         kwargs = {}
         if self.chunksize is not None:
             kwargs["chunksize"] = self.chunksize
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression  # None means uncompressed
         if self.convert_axes is not None:
             kwargs["convert_axes"] = self.convert_axes
         if self.convert_dates is not None:
@@ -859,8 +853,7 @@ class PandasXmlReader(DataLoader):
             kwargs["stylesheet"] = self.stylesheet
         if self.iterparse is not None:
             kwargs["iterparse"] = self.iterparse
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression  # None means uncompressed
         if self.storage_options is not None:
             kwargs["storage_options"] = self.storage_options
         if pd.__version__ >= "2.0" and self.dtype_backend is not None:
@@ -936,8 +929,7 @@ class PandasXmlWriter(DataSaver):
             kwargs["parser"] = self.parser
         if self.stylesheet is not None:
             kwargs["stylesheet"] = self.stylesheet
-        if self.compression is not None:
-            kwargs["compression"] = self.compression
+        kwargs["compression"] = self.compression  # None means uncompressed
         if self.storage_options is not None:
             kwargs["storage_options"] = self.storage_options
         return kwargs
-- 
2.43.0


From ae62632f380e5029e2f275a82c02b8065c0d0f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:10 +0000
Subject: [PATCH 39/94] fix: polars json loader and database adapters can be
 resolved

---
 hamilton/plugins/polars_post_1_0_0_extensions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hamilton/plugins/polars_post_1_0_0_extensions.py b/hamilton/plugins/polars_post_1_0_0_extensions.py
index ee71bb0..441cc1d 100644
--- a/hamilton/plugins/polars_post_1_0_0_extensions.py
+++ b/hamilton/plugins/polars_post_1_0_0_extensions.py
@@ -23,7 +23,6 @@ except ImportError:
     Workbook = Type
 
 import polars as pl
-from polars._typing import ConnectionOrCursor
 
 # for polars <0.16.0 we need to determine whether type_aliases exist.
 has_alias = False
@@ -38,7 +37,7 @@ if hasattr(polars.selectors, "_selector_proxy_"):
     from polars.selectors import _selector_proxy_  # noqa
 
 # for polars 0.18.0 we need to check what to do.
-from polars._typing import CsvEncoding, SchemaDefinition
+from polars._typing import CsvEncoding
 
 CsvQuoteStyle = Type
 
@@ -491,8 +490,9 @@ class PolarsJSONReader(DataLoader):
     """
 
     source: Union[str, Path, IOBase, bytes]
-    schema: SchemaDefinition = None
-    schema_overrides: SchemaDefinition = None
+    # polars' SchemaDefinition; its forward references can't be resolved here
+    schema: Any = None
+    schema_overrides: Any = None
 
     @classmethod
     def applicable_types(cls) -> Collection[Type]:
@@ -707,7 +707,7 @@ class PolarsDatabaseReader(DataLoader):
     """
 
     query: str
-    connection: Union[ConnectionOrCursor, str]
+    connection: Any  # polars' ConnectionOrCursor or str; its forward references can't be resolved here
     # kwargs:
     iter_batches: bool = False
     batch_size: Union[int, None] = None
@@ -754,7 +754,7 @@ class PolarsDatabaseWriter(DataSaver):
     """
 
     table_name: str
-    connection: Union[ConnectionOrCursor, str]
+    connection: Any  # polars' ConnectionOrCursor or str; its forward references can't be resolved here
     if_table_exists: Literal["fail", "replace", "append"] = "fail"
     engine: Literal["auto", "sqlalchemy", "adbc"] = "sqlalchemy"
 
-- 
2.43.0


From fa5f52ad0d47bfa482c794f2292932fcce3d00c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:10 +0000
Subject: [PATCH 40/94] fix: from_.csv(delimiter=...) is usable

---
 hamilton/plugins/pandas_extensions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/plugins/pandas_extensions.py b/hamilton/plugins/pandas_extensions.py
index 3a29430..7155696 100644
--- a/hamilton/plugins/pandas_extensions.py
+++ b/hamilton/plugins/pandas_extensions.py
@@ -154,7 +154,8 @@ class PandasCSVReader(DataLoader):
 
     def _get_loading_kwargs(self) -> Dict[str, Any]:
         kwargs = {}
-        if self.sep is not None:
+        # pandas refuses both, so the default sep gives way to an explicit delimiter
+        if self.sep is not None and not (self.sep == "," and self.delimiter is not None):
             kwargs["sep"] = self.sep
         if self.delimiter is not None:
             kwargs["delimiter"] = self.delimiter
-- 
2.43.0


From de2a308f36214b63b5b208f7eaa8bd828c4790de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:20 +0000
Subject: [PATCH 41/94] fix: create_temporary_module keeps the defaults of
 keyword-only parameters

---
 hamilton/ad_hoc_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/ad_hoc_utils.py b/hamilton/ad_hoc_utils.py
index e5a9591..ad11d79 100644
--- a/hamilton/ad_hoc_utils.py
+++ b/hamilton/ad_hoc_utils.py
@@ -18,6 +18,7 @@ def _copy_func(f):
     # in case f was given attrs (note this dict is a shallow copy):
     fn.__dict__.update(f.__dict__)
     fn.__annotations__ = f.__annotations__  # No idea why this is not a parameter...
+    fn.__kwdefaults__ = f.__kwdefaults__
     return fn
 
 
-- 
2.43.0


From 47b71b9dc50fae22bc50f56e6b3399290ac2bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:20 +0000
Subject: [PATCH 42/94] fix: module_from_source registers source lines the way
 the compiler counts them

---
 hamilton/ad_hoc_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hamilton/ad_hoc_utils.py b/hamilton/ad_hoc_utils.py
index ad11d79..c25fcfc 100644
--- a/hamilton/ad_hoc_utils.py
+++ b/hamilton/ad_hoc_utils.py
@@ -2,6 +2,7 @@
 
 import atexit
 import importlib.util
+import io
 import linecache
 import os
 import sys
@@ -73,10 +74,12 @@ def module_from_source(source: str, module_name: Optional[str] = None) -> Module
     sys.modules[module_name] = module_object
     exec(code_object, module_object.__dict__)
 
+    # split lines like the compiler does; `str.splitlines()` also splits on form feeds and others
+    lines = io.StringIO(source, newline=None).readlines()
     linecache.cache[module_name] = (
-        len(source.splitlines()),
+        len(lines),
         None,
-        source.splitlines(True),
+        lines,
         module_name,
     )
     return module_object
-- 
2.43.0


From 21056c11c019a206ae8f2c3d0f37e24d3576590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:20 +0000
Subject: [PATCH 43/94] fix: the diff visualization passes the Driver config it
 requires

---
 hamilton/cli/logic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/cli/logic.py b/hamilton/cli/logic.py
index 2cd6da6..20de66c 100644
--- a/hamilton/cli/logic.py
+++ b/hamilton/cli/logic.py
@@ -248,6 +248,7 @@ def visualize_diff(
         custom_style_function=diff_style,
         node_modifiers=dict(),
         strictly_display_only_nodes_passed_in=True,
+        config=current_dr.graph.config,
     )
 
 
-- 
2.43.0


From 26ec60c9f2edcc68276b0ba10dbf19aaa44cbd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:20 +0000
Subject: [PATCH 44/94] fix: diff reports the nodes of a module created since
 the git reference as added

---
 hamilton/cli/logic.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hamilton/cli/logic.py b/hamilton/cli/logic.py
index 20de66c..2b90094 100644
--- a/hamilton/cli/logic.py
+++ b/hamilton/cli/logic.py
@@ -45,12 +45,16 @@ def get_git_reference(git_relative_path: Union[str, Path], git_reference: str) -
 
         if result.returncode == 0:
             return result.stdout.strip()
-        elif result.returncode == 128:
-            # TODO catch the following error:
-            # fatal: Path '{git_relative_path}' exists on disk, but not in '{git_revision}'.
-            return
-        else:
-            return
+
+        reference_exists = subprocess.run(
+            ["git", "rev-parse", "--quiet", "--verify", f"{git_reference}^{{tree}}"],
+            stdout=subprocess.PIPE,
+            stderr=subprocess.PIPE,
+        )
+        if reference_exists.returncode != 0:
+            raise OSError(f"{result.stderr.strip()}")
+        # the reference exists, but the file was not part of it, i.e., it was created since.
+        return ""
     except FileNotFoundError as e:
         raise FileNotFoundError("Git command not found. Please make sure Git is installed.") from e
 
-- 
2.43.0


From f1e738086dfe985595ece988ed524ecfb0537fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:09 +0000
Subject: [PATCH 45/94] fix: PrintLn works with task-based execution

---
 hamilton/lifecycle/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 313315b..44ec7a5 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -156,7 +156,7 @@ class PrintLn(NodeExecutionHook):
             else:
                 message += f" Error: \n{pprint.pformat(error)}"
         self.print_fn(message)
-        del self.timer_dict[node_name]
+        del self.timer_dict[node_unique_id]
 
 
 class PDBDebugger(NodeExecutionHook, NodeExecutionMethod):
-- 
2.43.0


From 3e52720515417ea8b341c40e382d21555c0a85a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:09 +0000
Subject: [PATCH 46/94] fix: FunctionInputOutputTypeChecker does not mask the
 error of a failing node

---
 hamilton/lifecycle/default.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 44ec7a5..7ae6a9d 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -517,7 +517,8 @@ class FunctionInputOutputTypeChecker(NodeExecutionHook):
         **future_kwargs: Any,
     ):
         """Checks that the result type matches the expected node return type."""
-        if self.check_output:
+        # there is no result to check if the node failed
+        if self.check_output and success:
             # Replace the isinstance check in your code with check_instance
             if not htypes.check_instance(result, node_return_type):
                 raise TypeError(
-- 
2.43.0


From 722922b9cb4815ce3440bd929942ea2121f47306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:48 +0000
Subject: [PATCH 47/94] fix: check_instance handles fixed-length tuples, X | Y,
 and generics other than collections

---
 hamilton/htypes.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/hamilton/htypes.py b/hamilton/htypes.py
index 8cacacb..7c1bded 100644
--- a/hamilton/htypes.py
+++ b/hamilton/htypes.py
@@ -1,3 +1,4 @@
+import collections.abc
 import inspect
 import sys
 import typing
@@ -389,18 +390,23 @@ def check_instance(obj: Any, type_: Any) -> bool:
     """
     if type_ == Any:
         return True
+    if type_ is None:  # e.g., the arguments of `tuple[int, None]`
+        return obj is None
+    # `X | Y` has no origin attribute, as opposed to `Union[X, Y]`
+    if typing_inspect.is_union_type(type_):
+        return any(check_instance(obj, t) for t in type_.__args__)
     # Get the origin of the type (i.e., the base class for generic types)
     origin = getattr(type_, "__origin__", None)
 
     # If the type has an origin, it's a generic type
     if origin is not None:
-        # If the type is a Union type
-        if origin is Union:
-            return any(check_instance(obj, t) for t in type_.__args__)
-        elif origin is Literal:
+        if origin is Literal:
             return obj in type_.__args__
+        # These are protocols; at runtime they are realized by any iterable
+        if origin in (Parallelizable, Collect):
+            origin = collections.abc.Iterable
         # Check if the object is an instance of the origin of the type
-        elif not isinstance(obj, origin):
+        if not isinstance(obj, origin):
             return False
 
         # If the type has arguments (i.e., it's a parameterized generic type like List[int])
@@ -408,8 +414,8 @@ def check_instance(obj: Any, type_: Any) -> bool:
             # Get the element type(s) of the generic type
             element_type = type_.__args__
 
-            # If the object is a dictionary
-            if isinstance(obj, dict):
+            # If the object is a dictionary (and the type isn't, e.g., Iterable[str])
+            if isinstance(obj, dict) and len(element_type) == 2:
                 all_items_meet_condition = True
 
                 # Iterate over each key-value pair in the dictionary
@@ -426,6 +432,13 @@ def check_instance(obj: Any, type_: Any) -> bool:
                 # Return the result
                 return all_items_meet_condition
 
+            # If the type is a tuple of given length, each element has its own type
+            elif origin is tuple and not (len(element_type) == 2 and element_type[1] is Ellipsis):
+                element_type = () if element_type == ((),) else element_type
+                return len(obj) == len(element_type) and all(
+                    check_instance(i, t) for i, t in zip(obj, element_type)
+                )
+
             # If the object is a list, set, or tuple
             elif isinstance(obj, (list, set, tuple)):
                 element_type = element_type[0]
@@ -434,5 +447,8 @@ def check_instance(obj: Any, type_: Any) -> bool:
                         return False
                 return True
 
+            # The elements of other generics (iterators, callables, ...) can't be checked
+            return True
+
     # If the type is not a generic type, just use isinstance
     return isinstance(obj, type_)
-- 
2.43.0


From 25faa1c0629701aed1b314ccf4f5515857a3ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 48/94] fix: AsyncDriver returns outputs in the requested order

---
 hamilton/async_driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 2e7cef6..0be932c 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -18,7 +18,7 @@ logger = logging.getLogger(__name__)
 
 async def await_dict_of_tasks(task_dict: Dict[str, typing.Awaitable]) -> Dict[str, Any]:
     """Util to await a dictionary of tasks as asyncio.gather is kind of garbage"""
-    keys = sorted(task_dict.keys())
+    keys = list(task_dict.keys())
     coroutines = [task_dict[key] for key in keys]
     coroutines_gathered = await asyncio.gather(*coroutines)
     return dict(zip(keys, coroutines_gathered))
-- 
2.43.0


From 619377e9b7ecb3105b2898e9230a5731e25a9111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:40 +0000
Subject: [PATCH 49/94] fix: AsyncDriver uses a ResultBuilder given among its
 adapters

---
 hamilton/async_driver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 0be932c..3e791ee 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -224,7 +224,9 @@ class AsyncDriver(driver.Driver):
 
         # we'll need to use this in multiple contexts so we'll keep it around for later
 
-        result_builders = [adapter for adapter in adapters if isinstance(adapter, base.ResultMixin)]
+        result_builders = [
+            adapter for adapter in adapters if isinstance(adapter, lifecycle.ResultBuilder)
+        ]
         if result_builder is not None:
             result_builders.append(result_builder)
         if len(result_builders) > 1:
@@ -493,7 +495,9 @@ class Builder(driver.Builder):
         # but the AsyncGraphAdapter originally used the pandas builder
         # so we pass in the right one to ensure backwards compatibility
         # This will become the default API soon, so it's OK to put the complexity here
-        result_builders = [adapter for adapter in adapters if isinstance(adapter, base.ResultMixin)]
+        result_builders = [
+            adapter for adapter in adapters if isinstance(adapter, lifecycle.ResultBuilder)
+        ]
         specified_result_builder = base.DictResult() if len(result_builders) == 0 else None
         return AsyncDriver(
             self.config,
-- 
2.43.0


From 2afc458dc2e0bde20e4c06be05f2564a8bb4f132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:40 +0000
Subject: [PATCH 50/94] fix: NumpyMatrixResult handles scalars next to vectors
 of length one, or on their own

---
 hamilton/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hamilton/base.py b/hamilton/base.py
index 136c0b3..54db75b 100644
--- a/hamilton/base.py
+++ b/hamilton/base.py
@@ -353,7 +353,7 @@ class NumpyMatrixResult(ResultMixin):
         columns_with_lengths = collections.OrderedDict()
         for col, val in outputs.items():  # assumption is fixed order
             if isinstance(val, (int, float)):  # TODO add more things here
-                columns_with_lengths[(col, 1)] = val
+                columns_with_lengths[(col, None)] = val
             else:
                 length = len(val)
                 if num_rows == -1:
@@ -367,9 +367,11 @@ class NumpyMatrixResult(ResultMixin):
                         f"Got {length} for {col} instead of {num_rows}."
                     )
                 columns_with_lengths[(col, num_rows)] = val
+        if num_rows == -1:
+            num_rows = 1  # scalars only
         list_of_columns = []
         for (col, length), val in columns_with_lengths.items():
-            if length != num_rows and length == 1:
+            if length is None:
                 list_of_columns.append([val] * num_rows)  # expand single values into a full row
             elif length == num_rows:
                 list_of_columns.append(list(val))
-- 
2.43.0


From eedbe141ed6d1f1faa2abe68b3f50eeb401b6d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:40 +0000
Subject: [PATCH 51/94] fix: PandasDataFrameResult refuses a dataframe column
 that would replace another output

---
 hamilton/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hamilton/base.py b/hamilton/base.py
index 54db75b..f05015f 100644
--- a/hamilton/base.py
+++ b/hamilton/base.py
@@ -257,6 +257,12 @@ class PandasDataFrameResult(ResultMixin):
                     get_output_name(name, col_name): col_value
                     for col_name, col_value in output.to_dict(orient="series").items()
                 }
+                duplicates = [col for col in df_dict if col in flattened_outputs]
+                if duplicates:
+                    raise ValueError(
+                        f"Column(s) {duplicates} of dataframe {name} already exist in the output. "
+                        f"Please rename the columns or outputs to avoid this error."
+                    )
                 flattened_outputs.update(df_dict)
             elif isinstance(output, pd.Series):
                 if name in flattened_outputs:
-- 
2.43.0


From 295bd2a428cd94d77c8d92f9993bf2f6aca9214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:18 +0000
Subject: [PATCH 52/94] fix: with_columns without select picks the columns of
 each build anew

---
 hamilton/plugins/h_pandas.py           | 9 +++++----
 hamilton/plugins/h_polars.py           | 9 +++++----
 hamilton/plugins/h_polars_lazyframe.py | 9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/hamilton/plugins/h_pandas.py b/hamilton/plugins/h_pandas.py
index bcbc2e2..d1f5626 100644
--- a/hamilton/plugins/h_pandas.py
+++ b/hamilton/plugins/h_pandas.py
@@ -201,8 +201,9 @@ class with_columns(with_columns_base):
         "Node that adds to / overrides columns for the original dataframe based on selected output."
         # In case no node is selected we append all possible nodes that have a column type matching
         # what the dataframe expects
-        if self.select is None:
-            self.select = [
+        select = self.select
+        if select is None:
+            select = [
                 sink_node.name
                 for sink_node in generated_nodes
                 if sink_node.type == registry.get_column_type_from_df_type(self.dataframe_type)
@@ -211,13 +212,13 @@ class with_columns(with_columns_base):
         def new_callable(**kwargs) -> Any:
             df = kwargs[inject_parameter]
             columns_to_append = {}
-            for column in self.select:
+            for column in select:
                 columns_to_append[column] = kwargs[column]
 
             return df.assign(**columns_to_append)
 
         column_type = registry.get_column_type_from_df_type(self.dataframe_type)
-        input_map = {column: column_type for column in self.select}
+        input_map = {column: column_type for column in select}
         input_map[inject_parameter] = self.dataframe_type
         merge_node = node.Node(
             name="_append",
diff --git a/hamilton/plugins/h_polars.py b/hamilton/plugins/h_polars.py
index 4ef8609..3578108 100644
--- a/hamilton/plugins/h_polars.py
+++ b/hamilton/plugins/h_polars.py
@@ -250,8 +250,9 @@ class with_columns(with_columns_base):
     ) -> node.Node:
         "Node that adds to / overrides columns for the original dataframe based on selected output."
 
-        if self.select is None:
-            self.select = [
+        select = self.select
+        if select is None:
+            select = [
                 sink_node.name
                 for sink_node in generated_nodes
                 if sink_node.type == registry.get_column_type_from_df_type(self.dataframe_type)
@@ -260,13 +261,13 @@ class with_columns(with_columns_base):
         def new_callable(**kwargs) -> Any:
             df = kwargs[inject_parameter]
             columns_to_append = {}
-            for column in self.select:
+            for column in select:
                 columns_to_append[column] = kwargs[column]
 
             return df.with_columns(**columns_to_append)
 
         column_type = registry.get_column_type_from_df_type(self.dataframe_type)
-        input_map = {column: column_type for column in self.select}
+        input_map = {column: column_type for column in select}
         input_map[inject_parameter] = self.dataframe_type
         merge_node = node.Node(
             name="_append",
diff --git a/hamilton/plugins/h_polars_lazyframe.py b/hamilton/plugins/h_polars_lazyframe.py
index 00f4326..ae2792b 100644
--- a/hamilton/plugins/h_polars_lazyframe.py
+++ b/hamilton/plugins/h_polars_lazyframe.py
@@ -228,8 +228,9 @@ class with_columns(with_columns_base):
     ) -> node.Node:
         "Node that adds to / overrides columns for the original dataframe based on selected output."
 
-        if self.select is None:
-            self.select = [
+        select = self.select
+        if select is None:
+            select = [
                 sink_node.name
                 for sink_node in generated_nodes
                 if sink_node.type == registry.get_column_type_from_df_type(self.dataframe_type)
@@ -238,13 +239,13 @@ class with_columns(with_columns_base):
         def new_callable(**kwargs) -> Any:
             df = kwargs[inject_parameter]
             columns_to_append = {}
-            for column in self.select:
+            for column in select:
                 columns_to_append[column] = kwargs[column]
 
             return df.with_columns(**columns_to_append)
 
         column_type = registry.get_column_type_from_df_type(self.dataframe_type)
-        input_map = {column: column_type for column in self.select}
+        input_map = {column: column_type for column in select}
         input_map[inject_parameter] = self.dataframe_type
         merge_node = node.Node(
             name="_append",
-- 
2.43.0


From 9dcf4e9a3ccff46e1f8b47f70e0503f4962edbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:55 +0000
Subject: [PATCH 53/94] fix: the SDK client's stop() delivers the worker's
 pending batch, and can be followed by exit

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 5512164..1c85298 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -251,6 +251,9 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
                     self.flush(batch)
                     batch = []
                     last_flush_time = time.time()
+        # We were stopped: what is in the batch is not in the queue anymore
+        if batch:
+            self.flush(batch)
 
     def flush(self, batch):
         """Flush the batch (send it to the backend or process it)."""
@@ -288,7 +291,8 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
         while not self.data_queue.empty():
             try:
                 item = self.data_queue.get_nowait()
-                self.flush([item])
+                if item is not None:  # None only tells the worker thread to end
+                    self.flush([item])
             except queue.Empty:
                 break
 
-- 
2.43.0


From e3f8978443badf6ae5d2f18f391f95f8dd011506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:55 +0000
Subject: [PATCH 54/94] fix: make_json_safe converts nan, inf and keys that
 JSON does not have

---
 ui/sdk/src/hamilton_sdk/tracking/utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/tracking/utils.py b/ui/sdk/src/hamilton_sdk/tracking/utils.py
index b0e515d..55da6d2 100644
--- a/ui/sdk/src/hamilton_sdk/tracking/utils.py
+++ b/ui/sdk/src/hamilton_sdk/tracking/utils.py
@@ -25,6 +25,13 @@ class CustomEncoder(json.JSONEncoder):
             return str_object
 
 
+def _make_key_json_safe(key: Any) -> Any:
+    """JSON only knows a few types of keys -- any other key is converted to a string."""
+    if isinstance(key, (str, int, float, bool, type(None))):
+        return make_json_safe(key)
+    return str(key)
+
+
 def make_json_safe(item: Union[dict, list, str, float, int, bool]) -> Any:
     """
     Converts an item to json-serializable format, converting datetime objects to string.
@@ -33,7 +40,7 @@ def make_json_safe(item: Union[dict, list, str, float, int, bool]) -> Any:
     @return: A dictionary or list with non-serializable types converted.
     """
     if isinstance(item, dict):
-        return {k: make_json_safe(v) for k, v in item.items()}
+        return {_make_key_json_safe(k): make_json_safe(v) for k, v in item.items()}
     elif isinstance(item, list):
         return [make_json_safe(elem) for elem in item]
     elif isinstance(item, np.ndarray):
@@ -58,11 +65,12 @@ def make_json_safe(item: Union[dict, list, str, float, int, bool]) -> Any:
         return make_json_safe(item.to_dict())
     else:
         try:
-            json.dumps(item)  # Check if item is json serializable
+            # Check if item is json serializable -- requests refuses nan & inf, as JSON has neither
+            json.dumps(item, allow_nan=False)
             if isinstance(item, str):
                 # escape null byte -- postgres doesn't like null bytes at least.
                 # we might need to escape more things; TBD.
                 return item.replace("\x00", "\\x00")
             return item
-        except TypeError:
+        except (TypeError, ValueError):
             return str(item)  # Convert item to string if not json serializable
-- 
2.43.0


From e685116fb85de74524ef1e2ae383d7f330073472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:55 +0000
Subject: [PATCH 55/94] fix: trackers do not file a run under the template of a
 graph that is gone

---
 ui/sdk/src/hamilton_sdk/adapters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ui/sdk/src/hamilton_sdk/adapters.py b/ui/sdk/src/hamilton_sdk/adapters.py
index 23cbb3a..50a63fd 100644
--- a/ui/sdk/src/hamilton_sdk/adapters.py
+++ b/ui/sdk/src/hamilton_sdk/adapters.py
@@ -4,6 +4,7 @@ import logging
 import os
 import random
 import traceback
+import weakref
 from datetime import timezone
 from types import ModuleType
 from typing import Any, Callable, Dict, List, Optional, Union
@@ -137,6 +138,8 @@ class HamiltonTracker(
             vcs_info=vcs_info,
         )
         self.dag_template_id_cache[fg_id] = dag_template_id
+        # once the graph is gone its id can be given to another graph
+        weakref.finalize(graph, self.dag_template_id_cache.pop, fg_id, None)
 
     def pre_graph_execute(
         self,
@@ -471,6 +474,8 @@ class AsyncHamiltonTracker(
             vcs_info=vcs_info,
         )
         self.dag_template_id_cache[fg_id] = dag_template_id
+        # once the graph is gone its id can be given to another graph
+        weakref.finalize(graph, self.dag_template_id_cache.pop, fg_id, None)
 
     async def pre_graph_execute(
         self,
-- 
2.43.0


From 25ea631641625878b8e7589d613dc7d46b21133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:52 +0000
Subject: [PATCH 56/94] fix: trackers keep one record per task of a parallel
 block

---
 ui/sdk/src/hamilton_sdk/adapters.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/adapters.py b/ui/sdk/src/hamilton_sdk/adapters.py
index 50a63fd..ec0c437 100644
--- a/ui/sdk/src/hamilton_sdk/adapters.py
+++ b/ui/sdk/src/hamilton_sdk/adapters.py
@@ -186,8 +186,9 @@ class HamiltonTracker(
         task_run = TaskRun(node_name=node_.name, is_in_sample=in_sample)
         task_run.status = Status.RUNNING
         task_run.start_time = datetime.datetime.now(timezone.utc)
-        tracking_state.update_task(node_.name, task_run)
-        self.task_runs[run_id][node_.name] = task_run
+        # the same node is run many times, concurrently, by the tasks of a parallel block
+        tracking_state.update_task(get_node_name(node_, task_id), task_run)
+        self.task_runs[run_id][get_node_name(node_, task_id)] = task_run
 
         task_update = dict(
             node_template_name=node_.name,
@@ -261,7 +262,7 @@ class HamiltonTracker(
     ):
         """Captures end of node execution."""
         logger.debug("post_node_execute %s %s", run_id, task_id)
-        task_run: TaskRun = self.task_runs[run_id][node_.name]
+        task_run: TaskRun = self.task_runs[run_id][get_node_name(node_, task_id)]
         tracking_state = self.tracking_states[run_id]
         task_run.end_time = datetime.datetime.now(timezone.utc)
 
@@ -325,7 +326,7 @@ class HamiltonTracker(
                 attribute_role="result_summary",
             )
             attributes.append(other_attr)
-        tracking_state.update_task(node_.name, task_run)
+        tracking_state.update_task(get_node_name(node_, task_id), task_run)
         task_update = dict(
             node_template_name=node_.name,
             node_name=get_node_name(node_, task_id),
@@ -515,8 +516,9 @@ class AsyncHamiltonTracker(
         task_run = TaskRun(node_name=node_.name)
         task_run.status = Status.RUNNING
         task_run.start_time = datetime.datetime.now(timezone.utc)
-        tracking_state.update_task(node_.name, task_run)
-        self.task_runs[run_id][node_.name] = task_run
+        # the same node is run many times, concurrently, by the tasks of a parallel block
+        tracking_state.update_task(get_node_name(node_, task_id), task_run)
+        self.task_runs[run_id][get_node_name(node_, task_id)] = task_run
 
         task_update = dict(
             node_template_name=node_.name,
@@ -544,7 +546,7 @@ class AsyncHamiltonTracker(
         **future_kwargs,
     ):
         logger.debug("post_node_execute %s", run_id)
-        task_run = self.task_runs[run_id][node_.name]
+        task_run = self.task_runs[run_id][get_node_name(node_, task_id)]
         tracking_state = self.tracking_states[run_id]
         task_run.end_time = datetime.datetime.now(timezone.utc)
         other_results = []
-- 
2.43.0


From 6380ac72446c6f5146d3622781b0930394daf829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:11 +0000
Subject: [PATCH 57/94] fix: an error response does not end the asynchronous
 SDK client's worker

---
 ui/sdk/src/hamilton_sdk/api/clients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 1c85298..b5c1255 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -587,7 +587,7 @@ class BasicAsynchronousHamiltonClient(HamiltonClient):
                     try:
                         response.raise_for_status()
                         logger.debug(f"Updated tasks for DAG run {dag_run_id}")
-                    except HTTPError:
+                    except aiohttp.ClientResponseError:
                         logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
                         # zraise
 
-- 
2.43.0


From 3f92510f46c11e50dd5f54a96843602d5bc68aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:03 +0000
Subject: [PATCH 58/94] fix: building a driver does not add its graph adapter
 to the builder's adapters

---
 hamilton/async_driver.py | 4 ++--
 hamilton/driver.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 3e791ee..cef47e5 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -487,7 +487,7 @@ class Builder(driver.Builder):
 
         :return:
         """
-        adapters = self.adapters if self.adapters is not None else []
+        adapters = list(self.adapters) if self.adapters is not None else []
         if self.legacy_graph_adapter is not None:
             adapters.append(self.legacy_graph_adapter)
 
@@ -502,7 +502,7 @@ class Builder(driver.Builder):
         return AsyncDriver(
             self.config,
             *self.modules,
-            adapters=self.adapters,
+            adapters=adapters,
             result_builder=specified_result_builder,
             allow_module_overrides=self._allow_module_overrides,
         )
diff --git a/hamilton/driver.py b/hamilton/driver.py
index 4c28d21..0dc6ca2 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2146,7 +2146,7 @@ class Builder:
         :return: The driver you specified.
         """
 
-        adapter = self.adapters if self.adapters is not None else []
+        adapter = list(self.adapters) if self.adapters is not None else []
         if self.legacy_graph_adapter is not None:
             adapter.append(self.legacy_graph_adapter)
 
-- 
2.43.0


From 5cf584f4575bd76114a1568cc771eb7674e8629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:03 +0000
Subject: [PATCH 59/94] fix: with_config after build does not change the
 drivers built before

---
 hamilton/async_driver.py | 2 +-
 hamilton/driver.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index cef47e5..5644691 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -500,7 +500,7 @@ class Builder(driver.Builder):
         ]
         specified_result_builder = base.DictResult() if len(result_builders) == 0 else None
         return AsyncDriver(
-            self.config,
+            dict(self.config),  # later changes to this builder do not concern the driver
             *self.modules,
             adapters=adapters,
             result_builder=specified_result_builder,
diff --git a/hamilton/driver.py b/hamilton/driver.py
index 0dc6ca2..214563f 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2169,7 +2169,7 @@ class Builder:
             )
 
         return Driver(
-            self.config,
+            dict(self.config),  # later changes to this builder do not concern the driver
             *self.modules,
             adapter=adapter,
             _materializers=self.materializers,
-- 
2.43.0


From 2e3e013dcca58c104eea6810b737de1506c4da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:03 +0000
Subject: [PATCH 60/94] fix: with_execution_manager refuses a local executor
 set before, as documented

---
 hamilton/driver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 214563f..e3d0661 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2079,6 +2079,10 @@ class Builder:
             "remote_executor",
             "Cannot set execution manager with remote " "executor set -- these are disjoint",
         )
+        self._require_field_unset(
+            "local_executor",
+            "Cannot set execution manager with local " "executor set -- these are disjoint",
+        )
 
         self.execution_manager = execution_manager
         return self
-- 
2.43.0


From 6f6203f18f1403933bfb5a53ad89c8fb952ff2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:19 +0000
Subject: [PATCH 61/94] fix: dataflow and contrib helpers work with telemetry
 disabled, and respect the event limit

---
 hamilton/dataflows/__init__.py | 14 ++++++++------
 hamilton/telemetry.py          |  2 ++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index 4ee8568..3c6e200 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -52,8 +52,9 @@ def _track_function_call(call_fn: Callable) -> Callable:
 
     @functools.wraps(call_fn)
     def track_call(*args, **kwargs):
-        event_json = telemetry.create_dataflow_function_invocation_event_json(call_fn.__name__)
-        telemetry.send_event_json(event_json)
+        if telemetry.is_telemetry_enabled():
+            event_json = telemetry.create_dataflow_function_invocation_event_json(call_fn.__name__)
+            telemetry.send_event_json(event_json)
         return call_fn(*args, **kwargs)
 
     return track_call
@@ -71,10 +72,11 @@ def _track_download(is_official: bool, user: Optional[str], dataflow_name: str,
         category = "DAGWORKS"
     else:
         category = "USER"
-    event_json = telemetry.create_dataflow_download_event_json(
-        category, user, dataflow_name, version
-    )
-    telemetry.send_event_json(event_json)
+    if telemetry.is_telemetry_enabled():
+        event_json = telemetry.create_dataflow_download_event_json(
+            category, user, dataflow_name, version
+        )
+        telemetry.send_event_json(event_json)
 
 
 def _get_request(url: str) -> Tuple[int, str]:
diff --git a/hamilton/telemetry.py b/hamilton/telemetry.py
index a147909..99e31a8 100644
--- a/hamilton/telemetry.py
+++ b/hamilton/telemetry.py
@@ -330,6 +330,8 @@ def create_and_send_contrib_use(module_name: str, version: str):
     """
     if module_name == "__main__" or module_name == "__init__":
         return
+    if not is_telemetry_enabled():
+        return
     try:
         # we need to handle the case that sf-hamilton-contrib is not installed.
         # if that's the case the file location will be the module name.
-- 
2.43.0


From 2f75b65643294607bdbcb477c8bcc903c66fb1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:32 +0000
Subject: [PATCH 62/94] fix: telemetry does not name user code kept in a
 directory called hamilton

---
 hamilton/telemetry.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hamilton/telemetry.py b/hamilton/telemetry.py
index 99e31a8..4a044b8 100644
--- a/hamilton/telemetry.py
+++ b/hamilton/telemetry.py
@@ -54,6 +54,7 @@ TIMEOUT = 2
 MAX_COUNT_SESSION = 10  # max number of events collected per python process
 DEFAULT_CONFIG_URI = os.environ.get("HAMILTON_CONFIG_URI", "~/.hamilton.conf")
 DEFAULT_CONFIG_LOCATION = os.path.expanduser(DEFAULT_CONFIG_URI)
+PACKAGE_DIRECTORY = os.path.dirname(os.path.abspath(__file__))
 
 
 def _load_config(config_location: str) -> configparser.ConfigParser:
@@ -424,16 +425,13 @@ def sanitize_error(exc_type, exc_value, exc_traceback) -> str:
         te = traceback.TracebackException(exc_type, exc_value, exc_traceback, limit=-5)
         sanitized_string = ""
         for stack_item in te.stack:
-            stack_file_path = stack_item.filename.split(os.sep)
-            # take last 4 places only -- that's how deep hamilton is.
-            stack_file_path = stack_file_path[-4:]
-            try:
-                # find first occurrence
-                index = stack_file_path.index("hamilton")
-            except ValueError:
+            # only name files of this package: user code may live in a directory called "hamilton" too.
+            stack_file_path = os.path.abspath(stack_item.filename)
+            if not stack_file_path.startswith(PACKAGE_DIRECTORY + os.sep):
                 sanitized_string += "...<USER_CODE>...\n"
                 continue
-            file_name = "..." + "/".join(stack_file_path[index:])
+            relative_path = os.path.relpath(stack_file_path, PACKAGE_DIRECTORY).split(os.sep)
+            file_name = "...hamilton/" + "/".join(relative_path)
             sanitized_string += f"{file_name}, line {stack_item.lineno}, in {stack_item.name}\n"
         return sanitized_string
     except Exception as e:
-- 
2.43.0


From bf2506a4425960bffda2a1ee879bf861fdcfe83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:32 +0000
Subject: [PATCH 63/94] fix: telemetry counts the inputs of a run without
 overrides

---
 hamilton/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index e3d0661..697d187 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -690,7 +690,7 @@ class Driver:
                     duration,
                     len(final_vars) if final_vars else 0,
                     len(overrides) if isinstance(overrides, Dict) else 0,
-                    len(inputs) if isinstance(overrides, Dict) else 0,
+                    len(inputs) if isinstance(inputs, Dict) else 0,
                     self.driver_run_id,
                     error,
                 )
-- 
2.43.0


From 91acb8cb3cbe4ac64df9116c72a5f3a9941e7f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:31 +0000
Subject: [PATCH 64/94] fix: with task-based execution an override of a given
 input wins over the input

---
 hamilton/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 697d187..c8a3b1b 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -237,7 +237,7 @@ class TaskBasedGraphExecutor(GraphExecutor):
         )  # pure function transform
         # Instantiate a result cache so we can use later
         # Pass in inputs so we can pre-populate the results cache
-        prehydrated_results = {**overrides, **inputs}
+        prehydrated_results = {**inputs, **overrides}
         results_cache = state.DictBasedResultCache(prehydrated_results)
         # Create tasks from the grouped nodes, filtering/pruning as we go
         tasks = grouping.create_task_plan(grouped_nodes, final_vars, overrides, self.adapter)
-- 
2.43.0


From 70d9a17e0ce922d9b76b09aa6300f460c87332b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:27 +0000
Subject: [PATCH 65/94] fix: clearing the result store and then the metadata
 store of one cache directory works

---
 hamilton/caching/stores/sqlite.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index e96242b..ff5bcc8 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -189,6 +189,11 @@ class SQLiteMetadataStore(MetadataStore):
 
     def delete_all(self) -> None:
         """Delete all existing tables from the database"""
+        if not self._path.exists():
+            # already deleted, e.g., by the ``.delete_all()`` of a result store in the same directory
+            self._close_connection()
+            return
+
         cur = self.connection.cursor()
 
         for table_name in ["run_ids", "history", "cache_metadata"]:
-- 
2.43.0


From 72e1a161025e6d11521429d79991d9916fada4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:50 +0000
Subject: [PATCH 66/94] fix: check_output on a function that collects a
 parallel block

The node passing on the validated result was marked as a collector as well,
so that grouping the nodes for task-based execution failed.
---
 hamilton/function_modifiers/validation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/validation.py b/hamilton/function_modifiers/validation.py
index 93c5400..23c60bd 100644
--- a/hamilton/function_modifiers/validation.py
+++ b/hamilton/function_modifiers/validation.py
@@ -98,7 +98,12 @@ class BaseDataValidationDecorator(base.NodeTransformer):
             typ=node_.type,
             doc_string=node_.documentation,
             callabl=final_node_callable,
-            node_source=node_.node_role,
+            # the raw node collects, this one just passes its result on
+            node_source=(
+                node.NodeType.STANDARD
+                if node_.node_role == node.NodeType.COLLECT
+                else node_.node_role
+            ),
             input_types={
                 raw_node.name: (node_.type, node.DependencyType.REQUIRED),
                 **{
-- 
2.43.0


From 704089572397085a40c505e86e7ab0bb45b14c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:57 +0000
Subject: [PATCH 67/94] fix: dataloader and datasaver in modules with postponed
 annotations

---
 hamilton/function_modifiers/adapters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/function_modifiers/adapters.py b/hamilton/function_modifiers/adapters.py
index 4dbba18..66f13ae 100644
--- a/hamilton/function_modifiers/adapters.py
+++ b/hamilton/function_modifiers/adapters.py
@@ -735,6 +735,8 @@ class dataloader(NodeCreator):
     def validate(self, fn: Callable):
         """Validates that the output type is correctly annotated."""
         return_annotation = inspect.signature(fn).return_annotation
+        if isinstance(return_annotation, str):  # e.g. from __future__ import annotations
+            return_annotation = typing.get_type_hints(fn)["return"]
         if return_annotation is inspect.Signature.empty:
             raise InvalidDecoratorException(
                 f"Function: {fn.__qualname__} must have a return annotation."
@@ -848,6 +850,8 @@ class datasaver(NodeCreator):
     def validate(self, fn: Callable):
         """Validates that the function output is a dict type."""
         return_annotation = inspect.signature(fn).return_annotation
+        if isinstance(return_annotation, str):  # e.g. from __future__ import annotations
+            return_annotation = typing.get_type_hints(fn)["return"]
         if return_annotation is inspect.Signature.empty:
             raise InvalidDecoratorException(
                 f"Function: {fn.__qualname__} must have a return annotation."
-- 
2.43.0


From 26aa7ef2591d0700af7c65981fb47f61fca1b03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:46 +0000
Subject: [PATCH 68/94] fix: give every task of DaskGraphAdapter a key of its
 own

---
 hamilton/plugins/h_dask.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hamilton/plugins/h_dask.py b/hamilton/plugins/h_dask.py
index 6a15c8b..3fcdf67 100644
--- a/hamilton/plugins/h_dask.py
+++ b/hamilton/plugins/h_dask.py
@@ -1,12 +1,12 @@
 import logging
 import typing
+import uuid
 
 import dask.array
 import dask.dataframe
 import numpy as np
 import pandas as pd
 from dask import compute
-from dask.base import tokenize
 from dask.delayed import Delayed, delayed
 from dask.distributed import Client as DaskClient
 
@@ -137,7 +137,9 @@ class DaskGraphAdapter(base.HamiltonGraphAdapter):
             return node.callable(**kwargs)
         # we want to ensure the name in dask corresponds to the node name, and not the wrapped
         # function name that hamilton might have wrapped it with.
-        hash = tokenize(kwargs)  # this is what the dask docs recommend.
+        # the key has to be unique: dask takes two tasks with the same key to be the same computation,
+        # and the name & arguments do not say which function (or run) this is.
+        hash = uuid.uuid4().hex
         name = node.name + hash
         dask_key_name = str(node.name) + "_" + hash
         return delayed(node.callable, name=name)(
-- 
2.43.0


From 0b30830857c0a6e0bf1cf42c015510615a6b1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:17 +0000
Subject: [PATCH 69/94] fix: pipe_output honours the namespace a step asks for

---
 hamilton/function_modifiers/macros.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index a82d971..be042e6 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -1313,6 +1313,13 @@ class pipe_output(base.NodeTransformer):
         fn_to_use = __async_identity if is_async else __identity
 
         transforms = transforms + (step(fn_to_use).named(fn.__name__),)
+        if self.namespace is ...:
+            # the default namespace, except for the steps that have a namespace of their own
+            transforms = tuple(
+                transform.namespaced(_namespace) if transform.namespace is ... else transform
+                for transform in transforms
+            )
+            _namespace = ...
         nodes, _ = chain_transforms(
             target_arg=original_node.name,
             transforms=transforms,
-- 
2.43.0


From ae2ea97daf25c5747b1b50be22c4ac9f1ea4d17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:12 +0000
Subject: [PATCH 70/94] fix: NumpyMatrixResult broadcasts numpy scalars like
 Python ones

---
 hamilton/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/base.py b/hamilton/base.py
index f05015f..37e68dc 100644
--- a/hamilton/base.py
+++ b/hamilton/base.py
@@ -358,7 +358,7 @@ class NumpyMatrixResult(ResultMixin):
         num_rows = -1
         columns_with_lengths = collections.OrderedDict()
         for col, val in outputs.items():  # assumption is fixed order
-            if isinstance(val, (int, float)):  # TODO add more things here
+            if isinstance(val, (int, float, np.number, np.bool_)):  # TODO add more things here
                 columns_with_lengths[(col, None)] = val
             else:
                 length = len(val)
-- 
2.43.0


From e84c0bdfdb717aab3977f3fbd3808f2336a98797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:17 +0000
Subject: [PATCH 71/94] fix: executing tasks does not add attributes to nodes
 that are being serialized

---
 hamilton/node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hamilton/node.py b/hamilton/node.py
index 81d7673..846b2f9 100644
--- a/hamilton/node.py
+++ b/hamilton/node.py
@@ -83,6 +83,9 @@ class Node(object):
         self._input_types = {}
         self._originating_functions = originating_functions
         self._default_parameter_values = {}
+        # set by task-based execution -- it has to exist from the start, as adding an attribute while
+        # another thread serializes the node (E.G. for a process pool) breaks the serialization
+        self.callable_modified = False
 
         if self._node_source in (
             NodeType.STANDARD,
-- 
2.43.0


From e7a54cd2b6ede04e4d855cfc5a2408ea1ea26b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:07 +0000
Subject: [PATCH 72/94] fix: OpenLineageAdapter takes the format of an input
 file from its path, not from the node name

---
 hamilton/plugins/h_openlineage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_openlineage.py b/hamilton/plugins/h_openlineage.py
index ea06699..bdfeb58 100644
--- a/hamilton/plugins/h_openlineage.py
+++ b/hamilton/plugins/h_openlineage.py
@@ -63,7 +63,7 @@ def create_input_dataset(namespace: str, metadata: dict, node_) -> list[event_v2
         if ".loader" in name:
             name = name.split(".loader")[0]
         path = metadata["file_metadata"]["path"]
-        format = path.split(".")[-1] if "." in name else "unknown"
+        format = path.split(".")[-1] if "." in path else "unknown"
         storage_facet = facet_v2.storage_dataset.StorageDatasetFacet(
             storageLayer="FileSystem",
             fileFormat=format,
-- 
2.43.0


From 3bf06e7833fa6acbe72469680c5eef6db6fb3846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:07 +0000
Subject: [PATCH 73/94] fix: SchemaValidator keeps one schema file per node
 when node names have a namespace

---
 hamilton/plugins/h_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_schema.py b/hamilton/plugins/h_schema.py
index 6e936dd..495ace1 100644
--- a/hamilton/plugins/h_schema.py
+++ b/hamilton/plugins/h_schema.py
@@ -412,7 +412,7 @@ class SchemaValidator(NodeExecutionHook, GraphExecutionHook):
         but it wouldn't communicate that the file contains only schema metadata.
         The serialization format is IPC by default (see `.save_schema()`).
         """
-        return Path(self.schema_dir, node_name).with_suffix(".schema")
+        return Path(self.schema_dir, f"{node_name}.schema")
 
     def run_before_graph_execution(
         self, *, graph: HamiltonGraph, inputs: Dict[str, Any], overrides: Dict[str, Any], **kwargs
-- 
2.43.0


From f9dc2b4f424900a39fc0cd70d72e0b7e405e5004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:07 +0000
Subject: [PATCH 74/94] fix: human_readable_diff handles falsy current values
 and keys named cur

---
 hamilton/plugins/h_schema.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hamilton/plugins/h_schema.py b/hamilton/plugins/h_schema.py
index 495ace1..9ea6cbd 100644
--- a/hamilton/plugins/h_schema.py
+++ b/hamilton/plugins/h_schema.py
@@ -194,10 +194,11 @@ def human_readable_diff(diff: dict) -> dict:
             readable_diff[field_name] = diff_result.diff.value
 
         elif diff_result.diff == Diff.UNEQUAL:
-            if diff_result.value.get("cur"):
-                readable_diff[field_name] = diff_result.value
-            else:
+            # nested diffs hold a DiffResult per key; otherwise it's the pair of "cur" and "ref" values
+            if all(isinstance(v, DiffResult) for v in diff_result.value.values()):
                 readable_diff[field_name] = human_readable_diff(diff_result.value)
+            else:
+                readable_diff[field_name] = diff_result.value
 
     return dict(sorted(readable_diff.items()))
 
-- 
2.43.0


From c49955584b3c9400d6e2e5ca7e7fda76726e22a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:07 +0000
Subject: [PATCH 75/94] fix: diff_schemas ignores the metadata it was not asked
 to compare

---
 hamilton/plugins/h_schema.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hamilton/plugins/h_schema.py b/hamilton/plugins/h_schema.py
index 9ea6cbd..88dc6c7 100644
--- a/hamilton/plugins/h_schema.py
+++ b/hamilton/plugins/h_schema.py
@@ -105,6 +105,16 @@ def diff_schemas(
         }
 
     """
+    # leave out the metadata that isn't compared
+    if not check_field_metadata:
+        current_schema, reference_schema = (
+            pyarrow.schema([f.remove_metadata() for f in schema], metadata=schema.metadata)
+            for schema in (current_schema, reference_schema)
+        )
+    if not check_schema_metadata:
+        current_schema = current_schema.remove_metadata()
+        reference_schema = reference_schema.remove_metadata()
+
     # if schemas are equal, return an empty diff
     if current_schema.equals(
         reference_schema, check_metadata=(check_schema_metadata or check_field_metadata)
-- 
2.43.0


From c232adf79faf02e5893b15058cf0187328398d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:07 +0000
Subject: [PATCH 76/94] fix: SchemaValidator skips dataframe inputs that are
 not part of the graph

---
 hamilton/plugins/h_schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/plugins/h_schema.py b/hamilton/plugins/h_schema.py
index 88dc6c7..02b66c0 100644
--- a/hamilton/plugins/h_schema.py
+++ b/hamilton/plugins/h_schema.py
@@ -442,6 +442,10 @@ class SchemaValidator(NodeExecutionHook, GraphExecutionHook):
         if not isinstance(result, h_databackends.DATAFRAME_TYPES):
             return
 
+        # inputs that no node depends on aren't part of the graph
+        if not any(n.name == node_name for n in self.h_graph.nodes):
+            return
+
         # generate the schema from the HamiltonNode and node value
         node = self.h_graph[node_name]
         schema = get_dataframe_schema(df=result, node=node)
-- 
2.43.0


From a9b0f5e72cb6657883959870cac5f74ccf89ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:07 +0000
Subject: [PATCH 77/94] fix: ExperimentTracker accepts runs without inputs

---
 hamilton/plugins/h_experiments/hook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_experiments/hook.py b/hamilton/plugins/h_experiments/hook.py
index 006071b..b261e2d 100644
--- a/hamilton/plugins/h_experiments/hook.py
+++ b/hamilton/plugins/h_experiments/hook.py
@@ -143,7 +143,7 @@ class ExperimentTracker(
                 self.inputs.append(
                     NodeInput(
                         name=node.name,
-                        value=inputs.get(node.name),
+                        value=(inputs or {}).get(node.name),
                         default_value=_get_default_input(node),
                     )
                 )
-- 
2.43.0


From fff9c4bba9d146b7fbb8a774f5b1e3431292c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:07 +0000
Subject: [PATCH 78/94] fix: ExperimentTracker records only the current run's
 inputs, overrides and materializers

---
 hamilton/plugins/h_experiments/hook.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/plugins/h_experiments/hook.py b/hamilton/plugins/h_experiments/hook.py
index b261e2d..69eaa48 100644
--- a/hamilton/plugins/h_experiments/hook.py
+++ b/hamilton/plugins/h_experiments/hook.py
@@ -133,6 +133,7 @@ class ExperimentTracker(
     ):
         """Store execution metadata: graph hash, inputs, overrides"""
         self.graph_hash = graph.version
+        self.inputs, self.overrides, self.materializers = [], [], []
 
         for node in graph.nodes:
             if node.tags.get("module"):
-- 
2.43.0


From e6a9e47bba9f4c959cd467bf04145ccfbb00fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:07 +0000
Subject: [PATCH 79/94] fix: ExperimentTracker handles savers that fail or
 report no path

---
 hamilton/plugins/h_experiments/hook.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hamilton/plugins/h_experiments/hook.py b/hamilton/plugins/h_experiments/hook.py
index 69eaa48..0006176 100644
--- a/hamilton/plugins/h_experiments/hook.py
+++ b/hamilton/plugins/h_experiments/hook.py
@@ -158,12 +158,22 @@ class ExperimentTracker(
             os.chdir(self.run_directory)  # before materialization
 
     def run_after_node_execution(
-        self, *, node_name: str, node_tags: dict, node_kwargs: dict, result: Any, **kwargs
+        self,
+        *,
+        node_name: str,
+        node_tags: dict,
+        node_kwargs: dict,
+        result: Any,
+        success: bool = True,
+        **kwargs,
     ):
         """Move back to init directory after executing materializer.
         Then, save materialization metadata
         """
         if node_tags.get("hamilton.data_saver") is True:
+            os.chdir(self.init_directory)  # after materialization
+            if not success:
+                return
             if "path" in result:
                 path = result["path"]
             elif "file_metadata" in result:
@@ -173,15 +183,15 @@ class ExperimentTracker(
                     f"Materialization result from node={node_name} has no recordable path: {result}. Materializer must have either "
                     f"'path' or 'file_metadata' keys."
                 )
+                return
             self.materializers.append(
                 NodeMaterializer(
                     source_nodes=list(node_kwargs.keys()),
-                    path=str(Path(path).resolve()),
+                    path=str(Path(self.run_directory, path).resolve()),
                     sink=node_tags["hamilton.data_saver.sink"],
                     data_saver=node_tags["hamilton.data_saver.classname"],
                 )
             )
-            os.chdir(self.init_directory)  # after materialization
 
     def run_after_graph_execution(self, *, success: bool, **kwargs):
         """Encode run metadata as JSON and store in cache"""
-- 
2.43.0


From 178661fa6bd423831f9c02bd6fb28b4f17889466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:29 +0000
Subject: [PATCH 80/94] fix: diff_schemas can compare schema and field metadata
 together

---
 hamilton/plugins/h_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_schema.py b/hamilton/plugins/h_schema.py
index 02b66c0..46b2d5e 100644
--- a/hamilton/plugins/h_schema.py
+++ b/hamilton/plugins/h_schema.py
@@ -128,7 +128,7 @@ def diff_schemas(
 
     # compare fields shared by both schemas
     for field_name, diff_result in schema_diff.items():
-        if diff_result.diff == Diff.UNEQUAL:
+        if field_name != SCHEMA_METADATA_FIELD and diff_result.diff == Diff.UNEQUAL:
             current_field = current_schema.get(field_name, {})
             reference_field = reference_schema.get(field_name, {})
 
-- 
2.43.0


From 0eec3cbc9d33810656934aef7ab3556b8c71398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:05 +0000
Subject: [PATCH 81/94] fix: JsonCache.delete opens the cache for writing

---
 hamilton/plugins/h_experiments/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_experiments/cache.py b/hamilton/plugins/h_experiments/cache.py
index f1ecf4d..aff8330 100644
--- a/hamilton/plugins/h_experiments/cache.py
+++ b/hamilton/plugins/h_experiments/cache.py
@@ -18,5 +18,5 @@ class JsonCache:
             return db[id_].decode()
 
     def delete(self, id_: str) -> None:
-        with dbm.open(self.cache_path, "r") as db:
+        with dbm.open(self.cache_path, "w") as db:
             del db[id_]
-- 
2.43.0


From 696060f799b2a8524e1b2aa99a0d8ed69e3659c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:12 +0000
Subject: [PATCH 82/94] fix: a literal of @parameterize is not mistaken for an
 optional source of the same name

---
 hamilton/function_modifiers/expanders.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index a76dc25..73d6c4b 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -272,10 +272,7 @@ class parameterize(base.NodeExpander):
                 node_.copy_with(
                     name=output_node,
                     doc_string=docstring,  # TODO -- change docstring
-                    callabl=functools.partial(
-                        replacement_function,
-                        **{parameter: val.value for parameter, val in literal_dependencies.items()},
-                    ),
+                    callabl=replacement_function,
                     input_types=new_input_types,
                     include_refs=False,  # Include refs is here as this is earlier than compile time
                     # TODO -- figure out why this isn't getting replaced later...
-- 
2.43.0


From 2139ca5fa330d33c926dc8175522cd7b5af7b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:28 +0000
Subject: [PATCH 83/94] fix: the Datadog tracers import from current versions
 of ddtrace

---
 hamilton/plugins/h_ddog.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hamilton/plugins/h_ddog.py b/hamilton/plugins/h_ddog.py
index aacd1c1..3c2efeb 100644
--- a/hamilton/plugins/h_ddog.py
+++ b/hamilton/plugins/h_ddog.py
@@ -8,7 +8,11 @@ from hamilton.lifecycle import base
 
 logger = logging.getLogger(__name__)
 try:
-    from ddtrace import Span, context, tracer
+    try:
+        from ddtrace.trace import Context, Span, tracer
+    except ImportError:  # earlier versions of ddtrace
+        from ddtrace import Span, tracer
+        from ddtrace.context import Context
 except ImportError as e:
     logger.error("ImportError: %s", e)
     logger.error(
@@ -56,14 +60,14 @@ class _DDOGTracerImpl:
         }
 
     @staticmethod
-    def _deserialize_span_dict(serialized_repr: Dict[str, dict]) -> Dict[str, context.Context]:
+    def _deserialize_span_dict(serialized_repr: Dict[str, dict]) -> Dict[str, Context]:
         """Note that we deserialize as contexts, as passing spans is not supported
         (the child should never terminate the parent span).
 
         :param span_dict: Dict of str -> dict params for contexts
         :return: A dictionary of contexts
         """
-        return {key: context.Context(**params) for key, params in serialized_repr.items()}
+        return {key: Context(**params) for key, params in serialized_repr.items()}
 
     def __getstate__(self):
         """Gets the state for serialization"""
-- 
2.43.0


From aa027c55849c9abe029fac135cea38d750a23736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:28 +0000
Subject: [PATCH 84/94] fix: MLFlowTracker accepts a run without inputs

---
 hamilton/plugins/h_mlflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 2d77815..bf90f60 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -165,7 +165,7 @@ class MLFlowTracker(
         # log config and inputs as `param` which creates columns in the UI to filter runs
         # `log_param()` accepts `value: Any` and will stringify complex objects
         for value_sets in [self.config, inputs]:
-            for node_name, value in value_sets.items():
+            for node_name, value in (value_sets or {}).items():
                 self.client.log_param(self.run_id, key=node_name, value=value)
 
         self.final_vars = final_vars
-- 
2.43.0


From 0720fdbfe33b0b16037af95e8ce6c0ab2ecd1629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:28 +0000
Subject: [PATCH 85/94] fix: MLFlowTracker starts its run on the tracking
 server it was given

---
 hamilton/plugins/h_mlflow.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index bf90f60..35c446e 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -84,6 +84,8 @@ class MLFlowTracker(
         :param log_system_metrics: Log system metrics to display (requires additonal dependencies)
         """
         self.client = mlflow.client.MlflowClient(tracking_uri, registry_uri)
+        self.tracking_uri = tracking_uri
+        self.registry_uri = registry_uri
 
         # experiment setup
         experiment_tags = experiment_tags if experiment_tags else {}
@@ -147,6 +149,12 @@ class MLFlowTracker(
         self.run_id = self.run.info.run_id
         # start run to set `active_run` and allow user-defined callbacks and materializers
         # to log to the same run as the HamiltonTracker
+        # the client's servers need to be the active ones for the duration of the run
+        self.previous_uris = (mlflow.get_tracking_uri(), mlflow.get_registry_uri())
+        if self.tracking_uri:
+            mlflow.set_tracking_uri(self.tracking_uri)
+        if self.registry_uri:
+            mlflow.set_registry_uri(self.registry_uri)
         mlflow.start_run(
             run_id=self.run_id,
             experiment_id=self.experiment_id,
@@ -313,6 +321,10 @@ class MLFlowTracker(
         else:
             self.client.set_terminated(self.run_id, status="FAILED")
         mlflow.end_run()
+        if self.tracking_uri:
+            mlflow.set_tracking_uri(self.previous_uris[0])
+        if self.registry_uri:
+            mlflow.set_registry_uri(self.previous_uris[1])
 
     def run_before_node_execution(self, *args, **kwargs):
         """Placeholder required to subclass NodeExecutionHook"""
-- 
2.43.0


From 9212e9537ec4de688c56632f96015bfa0a34ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:28 +0000
Subject: [PATCH 86/94] fix: MLFlowTracker logs to the existing run whose
 run_id it was given

---
 hamilton/plugins/h_mlflow.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 35c446e..2db405c 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -140,12 +140,16 @@ class MLFlowTracker(
         run_tags["hamilton_run_id"] = run_id  # the Hamilton run_id
         run_tags["code_version"] = graph.version
 
-        # create Hamilton run
-        self.run = self.client.create_run(
-            experiment_id=self.experiment_id,
-            tags=run_tags,
-            run_name=self.run_name,
-        )
+        if self.mlflow_run_id:
+            # log to an existing run
+            self.run = self.client.get_run(self.mlflow_run_id)
+        else:
+            # create Hamilton run
+            self.run = self.client.create_run(
+                experiment_id=self.experiment_id,
+                tags=run_tags,
+                run_name=self.run_name,
+            )
         self.run_id = self.run.info.run_id
         # start run to set `active_run` and allow user-defined callbacks and materializers
         # to log to the same run as the HamiltonTracker
@@ -157,7 +161,7 @@ class MLFlowTracker(
             mlflow.set_registry_uri(self.registry_uri)
         mlflow.start_run(
             run_id=self.run_id,
-            experiment_id=self.experiment_id,
+            experiment_id=self.run.info.experiment_id,
             tags=run_tags,
             log_system_metrics=self.log_system_metrics,
         )
-- 
2.43.0


From 55fc5f7c715da8a5cf6bef62c71dcb088ca860af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:28 +0000
Subject: [PATCH 87/94] fix: MLFlowTracker leaves the tag dictionaries it is
 given as they are

---
 hamilton/plugins/h_mlflow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 2db405c..94396e2 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -88,7 +88,7 @@ class MLFlowTracker(
         self.registry_uri = registry_uri
 
         # experiment setup
-        experiment_tags = experiment_tags if experiment_tags else {}
+        experiment_tags = dict(experiment_tags) if experiment_tags else {}
         if experiment_description:
             # mlflow.note.content is the description field
             experiment_tags["mlflow.note.content"] = experiment_description
@@ -114,7 +114,7 @@ class MLFlowTracker(
         # TODO link HamiltonTracker and MLFlowTracker run ids
         self.mlflow_run_id = run_id
         self.run_name = run_name
-        self.run_tags = run_tags if run_tags else {}
+        self.run_tags = dict(run_tags) if run_tags else {}
         if run_description:
             # mlflow.note.content is the description field
             self.run_tags["mlflow.note.content"] = run_description
-- 
2.43.0


From 4c1fc51881c852c3836855496a1dc6a5e276415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:28 +0000
Subject: [PATCH 88/94] fix: MLFlowTracker logs strings as text, dictionaries
 as JSON and other results as pickles

---
 hamilton/plugins/h_mlflow.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 94396e2..02b8aca 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -1,7 +1,10 @@
+import json
 import logging
+import os
 import pickle
+import tempfile
 import warnings
-from typing import Any, Dict, List, Optional, Type, Union
+from typing import Any, Dict, List, Optional, Type, Union, get_origin
 
 import mlflow
 import mlflow.data
@@ -286,23 +289,19 @@ class MLFlowTracker(
             self.client.log_metric(self.run_id, key=node_name, value=float(result))
 
         # log str as text in .txt format
-        elif isinstance(node_return_type, str):
+        elif node_return_type is str:
             file_path = f"{node_name}.txt"
-            with open(file_path, "w") as f:
-                f.write(result)
             self.client.log_text(self.run_id, result, file_path)
 
         # log_dict (JSON) dictionary types; pickle if not json-serializable
-        elif isinstance(node_return_type, dict):
+        elif node_return_type is dict or get_origin(node_return_type) is dict:
             try:
-                file_path = f"{node_name}.json"
-                self.client.log_dict(self.run_id, result, file_path)
+                json.dumps(result)
             # not json-serializable
-            except TypeError:
-                file_path = f"{node_name}.pickle"
-                with open(file_path, "wb") as f:
-                    pickle.dump(result, file=f)
-                self.client.log_dict(self.run_id, result, file_path)
+            except (TypeError, ValueError):
+                self._log_pickle(node_name, result)
+            else:
+                self.client.log_dict(self.run_id, result, f"{node_name}.json")
 
         # this puts less burden on users by not having to define materializers
         # for viz, but less control over rendering format
@@ -312,10 +311,15 @@ class MLFlowTracker(
 
         # default to log_artifact in .pickle format
         else:
-            file_path = f"{node_name}.pickle"
+            self._log_pickle(node_name, result)
+
+    def _log_pickle(self, node_name: str, result: Any):
+        """Log a value as an artifact in .pickle format"""
+        with tempfile.TemporaryDirectory() as directory:
+            file_path = os.path.join(directory, f"{node_name}.pickle")
             with open(file_path, "wb") as f:
                 pickle.dump(result, f)
-            self.client.log_dict(self.run_id, result, file_path)
+            self.client.log_artifact(self.run_id, file_path)
 
     def run_after_graph_execution(self, success: bool, *args, **kwargs):
         """End the MLFlow run"""
-- 
2.43.0


From 43d61a5787d1fd95732d04b97f19601e30a79a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:38 +0000
Subject: [PATCH 89/94] fix: MLFlowTracker leaves a failed run marked as failed

---
 hamilton/plugins/h_mlflow.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 02b8aca..80efa7f 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -324,11 +324,9 @@ class MLFlowTracker(
     def run_after_graph_execution(self, success: bool, *args, **kwargs):
         """End the MLFlow run"""
         # `status` is an enum value of mlflow.entities.RunStatus
-        if success:
-            self.client.set_terminated(self.run_id, status="FINISHED")
-        else:
-            self.client.set_terminated(self.run_id, status="FAILED")
-        mlflow.end_run()
+        status = "FINISHED" if success else "FAILED"
+        self.client.set_terminated(self.run_id, status=status)
+        mlflow.end_run(status)
         if self.tracking_uri:
             mlflow.set_tracking_uri(self.previous_uris[0])
         if self.registry_uri:
-- 
2.43.0


From e991ee966e23d632ada4fb9efa24edbcf40a30e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:38 +0000
Subject: [PATCH 90/94] fix: MLFlowTracker logs one parameter for a name in
 both config and inputs

---
 hamilton/plugins/h_mlflow.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 80efa7f..df1f25f 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -179,9 +179,8 @@ class MLFlowTracker(
 
         # log config and inputs as `param` which creates columns in the UI to filter runs
         # `log_param()` accepts `value: Any` and will stringify complex objects
-        for value_sets in [self.config, inputs]:
-            for node_name, value in (value_sets or {}).items():
-                self.client.log_param(self.run_id, key=node_name, value=value)
+        for node_name, value in {**self.config, **(inputs or {})}.items():
+            self.client.log_param(self.run_id, key=node_name, value=value)
 
         self.final_vars = final_vars
 
-- 
2.43.0


From 29da70f9f40749cfc77526ef6f1705e2c3f1d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:38 +0000
Subject: [PATCH 91/94] fix: MLFlowTracker does not log the result of a node
 that failed

---
 hamilton/plugins/h_mlflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index df1f25f..74a9b8a 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -193,9 +193,14 @@ class MLFlowTracker(
         node_tags: dict,
         node_kwargs: dict,
         result: Any,
+        success: bool = True,
         **kwargs,
     ):
         """Log materializers and final vars as artifacts"""
+        # a node that failed has no result
+        if not success:
+            return
+
         # log DataSavers as artifacts
         # TODO refactor if/else as `handle_materializers()`
         if node_tags.get("hamilton.data_saver") is True:
-- 
2.43.0


From 72a300eadebec37f621272bd61f1fe23205881cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:38 +0000
Subject: [PATCH 92/94] fix: a result that cannot be pickled does not fail a
 run under MLFlowTracker

---
 hamilton/plugins/h_mlflow.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 74a9b8a..9d68a6a 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -321,8 +321,12 @@ class MLFlowTracker(
         """Log a value as an artifact in .pickle format"""
         with tempfile.TemporaryDirectory() as directory:
             file_path = os.path.join(directory, f"{node_name}.pickle")
-            with open(file_path, "wb") as f:
-                pickle.dump(result, f)
+            try:
+                with open(file_path, "wb") as f:
+                    pickle.dump(result, f)
+            except Exception as e:
+                logger.warning(f"Could not pickle the result of node={node_name}: {e}")
+                return
             self.client.log_artifact(self.run_id, file_path)
 
     def run_after_graph_execution(self, success: bool, *args, **kwargs):
-- 
2.43.0


From 00e9f6ac1be88222c9b2428b099c46a672c0a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:46 +0000
Subject: [PATCH 93/94] fix: MLFlowTracker logs a figure that was saved to an
 absolute path

---
 hamilton/plugins/h_mlflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 9d68a6a..c5f3b6e 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -264,7 +264,9 @@ class MLFlowTracker(
 
                 path = get_path_from_metadata(result)
                 if path:
-                    self.client.log_figure(self.run_id, figure, path)
+                    # artifact paths are relative to the run
+                    artifact_path = os.path.basename(path) if os.path.isabs(path) else str(path)
+                    self.client.log_figure(self.run_id, figure, artifact_path)
                 else:
                     logger.warning(
                         f"Materialization result from node={node_name} has no recordable path: {result}. Materializer must have either "
-- 
2.43.0


From 166b39438e6a03240daae952a7d947e2c6457892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:12 +0000
Subject: [PATCH 94/94] fix: the span that was active before a Datadog-traced
 run is active after it

---
 hamilton/plugins/h_ddog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hamilton/plugins/h_ddog.py b/hamilton/plugins/h_ddog.py
index 3c2efeb..b44b36c 100644
--- a/hamilton/plugins/h_ddog.py
+++ b/hamilton/plugins/h_ddog.py
@@ -120,9 +120,10 @@ class _DDOGTracerImpl:
         :param future_kwargs: reserved for future keyword arguments/backwards compatibility.
         """
         # This returns None if there's no active context and works as a no-op, otherwise we tie this span to a parent.
-        current_context = tracer.current_trace_context()
+        # We pass the span if there is one, as it is the one that gets activated again once this one finishes.
+        parent = tracer.current_span() or tracer.current_trace_context()
         span = tracer.start_span(
-            name=self.root_name, child_of=current_context, activate=True, service=self.service
+            name=self.root_name, child_of=parent, activate=True, service=self.service
         )
         self.run_span_cache[run_id] = span  # we save this as a root span
         self.node_span_cache[run_id] = {}
-- 
2.43.0

