From fb3efbb6bea341971e7193f5cbbe4c55c5418485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 01/67] fix: union searched indexes in a stable order

The indexes of a search were collected in a randomly seeded hash set, so the
generated code for 'index=a index=b' changed from one conversion to the next.
---
 src/commands/cmd_search/pyspark.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 7baa079..02a8702 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -177,6 +177,9 @@ impl PipelineTransformer for SearchCommand {
     ) -> Result<PipelineTransformState> {
         let mut indices = HashSet::new();
         let condition_expr = split_conditions(&self.expr, true, &mut indices, &state.ctx)?;
+        // A hash set has no stable order, the generated code must have one
+        let mut indices: Vec<String> = indices.into_iter().collect();
+        indices.sort();
         let mut df = if !indices.is_empty() {
             let mut _df: Option<DataFrame> = None;
             for new_index in indices.into_iter() {
-- 
2.43.0


From e1e7c8146410d1eeb9f652a399d48900f77570ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 02/67] fix: find macros by their exact name and raise listing
 errors

The name of a macro was used as a glob pattern, so `m*` could be answered with
another macro, and a folder that failed to be listed (for example for want of
file descriptors) was reported as a macro that does not exist.
---
 python/spl_transpiler/macros.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index 75223d2..637786f 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -1,5 +1,6 @@
 import json
 import logging
+import os
 import re
 from functools import cache
 from itertools import islice
@@ -41,9 +42,23 @@ class FolderMacroLoader(MacroLoader):
         self.suffix = suffix
         self.loader = loader
 
+    def _find(self, item):
+        # Not `rglob`: the name of a macro is not a pattern, and a folder that fails to
+        # be listed says nothing about whether the macro exists
+        def on_error(e):
+            if not isinstance(e, (FileNotFoundError, NotADirectoryError, PermissionError)):
+                raise e
+
+        for folder, dirs, files in os.walk(self.root_dir, onerror=on_error):
+            for name in [*dirs, *files]:
+                path = Path(folder, name)
+                relative_path = path.relative_to(self.root_dir).as_posix()
+                if f"/{relative_path}".endswith(f"/{item}{self.suffix}"):
+                    yield path
+
     @cache
     def __getitem__(self, item):
-        macro_files = list(islice(self.root_dir.rglob(f"{item}{self.suffix}"), 2))
+        macro_files = list(islice(self._find(item), 2))
         if len(macro_files) > 1:
             raise ValueError(
                 f"Multiple macro files found for `{item}`: {list(macro_files)}"
-- 
2.43.0


From 539cf430bccfb3f2694b08e26b63e3c89f5e7ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 03/67] fix: fill macro arguments in literally and check them
 all

Values were used as regular expression replacements (so a backslash failed or
was altered) and filled in one after another (so one value could be filled into
another); calls without arguments, and names that are not parameters, were
accepted and left $name$ in the query.
---
 python/spl_transpiler/macros.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/python/spl_transpiler/macros.py b/python/spl_transpiler/macros.py
index 637786f..4a795e8 100644
--- a/python/spl_transpiler/macros.py
+++ b/python/spl_transpiler/macros.py
@@ -109,28 +109,30 @@ def substitute_macros(code, macros: MacroLoader):
 
         macro_final_value = macro_spec.definition
 
+        if len(macro_spec.arguments) != len(args):
+            raise ValueError(
+                f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
+            )
+
         if args:
             if all(name is None for name, _ in args):
-                if len(macro_spec.arguments) != len(args):
-                    raise ValueError(
-                        f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
-                    )
                 args = dict(zip(macro_spec.arguments, [value for _, value in args]))
             elif all(name is not None for name, _ in args):
-                if len(macro_spec.arguments) != len(args):
+                args = dict(args)
+                if set(args) != set(macro_spec.arguments):
                     raise ValueError(
-                        f"Mismatched number of arguments in macro call {macro_name}: expected {len(macro_spec.arguments)}, got {len(args)}: {args}"
+                        f"Mismatched names of arguments in macro call {macro_name}: expected {macro_spec.arguments}, got {list(args)}"
                     )
-                args = dict(args)
             else:
                 raise ValueError(
                     f"Mixture of named and positional arguments in macro call {macro_name}"
                 )
 
-            for arg_name, arg_substitute_value in args.items():
-                macro_final_value = re.sub(
-                    f"\\${arg_name}\\$", arg_substitute_value, macro_final_value
-                )
+            macro_final_value = re.sub(
+                "|".join(f"\\${re.escape(arg_name)}\\$" for arg_name in args),
+                lambda match: args[match[0][1:-1]],
+                macro_final_value,
+            )
 
         printable_args = ",".join(
             value if name is None else f"{name}={value}"
-- 
2.43.0


From 6146c8b06607a68014310af05006de893c42c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:20 +0000
Subject: [PATCH 04/67] fix: run generated code in one namespace so its lambdas
 see the imports

---
 python/spl_transpiler/runtime/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/utils.py b/python/spl_transpiler/runtime/utils.py
index 813d3ae..5e572f7 100644
--- a/python/spl_transpiler/runtime/utils.py
+++ b/python/spl_transpiler/runtime/utils.py
@@ -18,7 +18,9 @@ def exec_with_return(code: str, globals: dict, locals: dict) -> Any | None:
             last_expression = ast.unparse(a_last.target)
     main_body = ast.unparse(a)
     log.debug(f"Executing main code:\n```\n{main_body}\n```")
-    exec(main_body, globals, locals)
+    # Functions and lambdas in the code only see globals, so they need to include the locals
+    namespace = {**globals, **locals}
+    exec(main_body, namespace)
     if last_expression:
         log.debug(f"Returning expression: `{last_expression}`")
-        return eval(last_expression, globals, locals)
+        return eval(last_expression, namespace)
-- 
2.43.0


From c7a358881da3e2e08cecca3cd4f2c3e731328acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:01 +0000
Subject: [PATCH 05/67] fix: accept the arguments the datamodel command is
 generated with

---
 .../spl_transpiler/runtime/commands/data_model.py   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/data_model.py b/python/spl_transpiler/runtime/commands/data_model.py
index 0f1351a..b425ef1 100644
--- a/python/spl_transpiler/runtime/commands/data_model.py
+++ b/python/spl_transpiler/runtime/commands/data_model.py
@@ -9,16 +9,21 @@ from spl_transpiler.runtime.config import settings
 
 @enforce_types
 def data_model(
-    # df: DataFrame | None,
-    data_model_name: str,
+    df: DataFrame | str | None = None,
+    data_model_name: str | None = None,
     dataset_name: str | None = None,
     search_mode: str | None = "search",
     strict_fields: bool | None = None,
     allow_old_summaries: bool | None = None,
     summaries_only: bool | None = None,
 ) -> DataFrame:
-    # if df is not None:
-    #     raise NotImplementedError("Cannot pass input to `data_model`")
+    if isinstance(df, str):
+        # Called without a data frame, as `data_model("Model", "Dataset")`
+        df, data_model_name, dataset_name = None, df, data_model_name or dataset_name
+    if df is not None:
+        raise NotImplementedError("Cannot pass input to `data_model`")
+    if data_model_name is None:
+        raise ValueError("`data_model` command requires a data model name")
     if search_mode and search_mode != "search":
         raise NotImplementedError(
             "`data_model` command does not support search_mode other than 'search'"
-- 
2.43.0


From fb503f01b8227d894da14682789df5d355109c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:04 +0000
Subject: [PATCH 06/67] fix: keep the live translator alive when the clipboard
 fails

---
 python/spl_transpiler/live_translator.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python/spl_transpiler/live_translator.py b/python/spl_transpiler/live_translator.py
index ee6a984..c880207 100644
--- a/python/spl_transpiler/live_translator.py
+++ b/python/spl_transpiler/live_translator.py
@@ -142,7 +142,17 @@ class SPLApp(App):
         self.query_exactly_one("#add_imports").toggle()
 
     def action_copy_pyspark(self) -> None:
-        pyperclip.copy(self.query_exactly_one("#pyspark").code)
+        try:
+            pyperclip.copy(self.query_exactly_one("#pyspark").code)
+        except Exception:
+            # For example, there is no clipboard to copy to
+            self.notify(
+                "Could not copy Pyspark code to your clipboard",
+                severity="error",
+                timeout=3,
+                title="Copy failed",
+            )
+            return
         self.notify(
             "Pyspark code copied successfully to your clipboard",
             severity="information",
-- 
2.43.0


From 5f0004317bc0188552fa46069f6d8815fc696362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:30 +0000
Subject: [PATCH 07/67] fix: show query text in the live translator literally,
 not as markup

---
 python/spl_transpiler/live_translator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/spl_transpiler/live_translator.py b/python/spl_transpiler/live_translator.py
index c880207..84b23a1 100644
--- a/python/spl_transpiler/live_translator.py
+++ b/python/spl_transpiler/live_translator.py
@@ -2,6 +2,7 @@ import logging
 
 import pyperclip
 from rich.console import RenderableType
+from rich.markup import escape
 from textual.logging import TextualHandler
 from textual.reactive import reactive
 
@@ -68,7 +69,7 @@ class ASTTree(Static):
                 if ": " not in node.label:
                     repr_v = repr(v)
                     if not (repr_v.startswith("<") and repr_v.endswith(">")):
-                        node.label = f"{node.label}: {repr_v}"
+                        node.label = escape(f"{node.label}: {repr_v}")
                 _create_tree(node, v)
                 return
 
@@ -79,7 +80,8 @@ class ASTTree(Static):
                 match getattr(obj, attr):
                     case str(v) | int(v) | bool(v):
                         node.add(
-                            f"[blue][strong]{attr}:[/strong][/blue] {v}", expand=True
+                            f"[blue][strong]{attr}:[/strong][/blue] {escape(str(v))}",
+                            expand=True,
                         )
                     case list(lst):
                         child = node.add(f"[blue][strong]{attr}:", expand=True)
@@ -94,7 +96,7 @@ class ASTTree(Static):
                         if repr_v.startswith("<") and repr_v.endswith(">"):
                             label = f"[dim][strong]{attr}"
                         else:
-                            label = f"[dim][strong]{attr}:[/strong][/dim] {repr(v)}"
+                            label = f"[dim][strong]{attr}:[/strong][/dim] {escape(repr_v)}"
                         _create_tree(node.add(label, expand=True), v)
 
         tree: Tree = self.query_exactly_one("#tree")
@@ -177,7 +179,7 @@ class SPLApp(App):
             ast = parse(self.query_exactly_one("#spl").code)
         except ValueError as e:
             self.query_exactly_one("#ast").add_class("error")
-            log.write(f"[red]Failed to parse SPL:[/red] [blue]{e}")
+            log.write(f"[red]Failed to parse SPL:[/red] [blue]{escape(str(e))}")
             return
         else:
             self.query_exactly_one("#ast").remove_class("error")
@@ -189,7 +191,7 @@ class SPLApp(App):
             )
         except RuntimeError as e:
             self.query_exactly_one("#pyspark").add_class("error")
-            log.write(f"[red]Failed to generate Pyspark:[/red] [blue]{e}")
+            log.write(f"[red]Failed to generate Pyspark:[/red] [blue]{escape(str(e))}")
             return
         else:
             self.query_exactly_one("#pyspark").remove_class("error")
-- 
2.43.0


From 02cadd93cede777d16f13e07908c655dbfcc13a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 08/67] fix: runtime stats functions that raised or did not
 exist under their SPL names

---
 .../spl_transpiler/runtime/functions/stats.py | 41 +++++++++++++++----
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index b3595a2..a4af694 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -41,14 +41,15 @@ def avg(value: Expr) -> AvgStatsFn:
 #         }),
 class CountStatsFn(StatsFunction):
     name: Literal["count"] = "count"
+    value: Expr = Expr(kind="literal", value=1)
 
     def to_pyspark_expr_simple(self):
-        return F.count(F.lit(1))
+        return F.count(self.value.to_pyspark_expr())
 
 
 @enforce_types
-def count() -> CountStatsFn:
-    return CountStatsFn()
+def count(value: Expr = Expr(kind="literal", value=1)) -> CountStatsFn:
+    return CountStatsFn(value=value)
 
 
 #         // distinct_count(<value>)              	 Returns the count of distinct values in the field specified.
@@ -298,6 +299,19 @@ def stddev(value: Expr) -> StddevStatsFn:
     return StddevStatsFn(value=value)
 
 
+class StdevpStatsFn(StatsFunction):
+    name: Literal["stdevp"] = "stdevp"
+    value: Expr
+
+    def to_pyspark_expr_simple(self):
+        return F.stddev_pop(self.value.to_pyspark_expr())
+
+
+@enforce_types
+def stdevp(value: Expr) -> StdevpStatsFn:
+    return StdevpStatsFn(value=value)
+
+
 #         // sum(<value>)                         	 Returns the sum of the values in the field specified.
 #         "sum" => function_transform!(sum [args] (x) { column_like!(sum([x])) }),
 
@@ -495,14 +509,16 @@ def earliest(value: Expr) -> EarliestStatsFn:
 
 class EarliestTimeStatsFn(StatsFunction):
     name: Literal["earliest_time"] = "earliest_time"
+    value: Expr = Expr(kind="literal", value=1)
 
     def to_pyspark_expr_simple(self):
-        return F.min(F.col("_time"))
+        value = self.value.to_pyspark_expr()
+        return F.min(F.when(value.isNotNull(), F.col("_time")))
 
 
 @enforce_types
-def earliest_time() -> EarliestTimeStatsFn:
-    return EarliestTimeStatsFn()
+def earliest_time(value: Expr = Expr(kind="literal", value=1)) -> EarliestTimeStatsFn:
+    return EarliestTimeStatsFn(value=value)
 
 
 #         // latest(<value>)                      	 Returns the chronologically latest (most recent) seen occurrence of a value in a field.
@@ -534,14 +550,16 @@ def latest(value: Expr) -> LatestStatsFn:
 
 class LatestTimeStatsFn(StatsFunction):
     name: Literal["latest_time"] = "latest_time"
+    value: Expr = Expr(kind="literal", value=1)
 
     def to_pyspark_expr_simple(self):
-        return F.max(F.col("_time"))
+        value = self.value.to_pyspark_expr()
+        return F.max(F.when(value.isNotNull(), F.col("_time")))
 
 
 @enforce_types
-def latest_time() -> LatestTimeStatsFn:
-    return LatestTimeStatsFn()
+def latest_time(value: Expr = Expr(kind="literal", value=1)) -> LatestTimeStatsFn:
+    return LatestTimeStatsFn(value=value)
 
 
 #         // per_day(<value>)                     	 Returns the values in a field or eval expression for each day.
@@ -766,3 +784,8 @@ class RateSumStatsFn(StatsFunction):
 @enforce_types
 def rate_sum(value: Expr) -> RateSumStatsFn:
     return RateSumStatsFn(value=value)
+
+
+# The names used by the generated code. They shadow builtins, so they come last.
+list = list_
+sum = sum_
-- 
2.43.0


From 02e8d8a1324160bfc32bb75f7ca39e783c161e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 09/67] fix: earliest_time and latest_time of a field over the
 events that have it

---
 src/functions/stat_fns.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 3724c76..16c756d 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -204,18 +204,32 @@ fn stats_fn_bare(
             column_like!(first([x], [py_lit(true)]))
         }),
         // earliest_time(<value>)               	 Returns the UNIX time of the earliest (oldest) occurrence of a value of the field. Used in conjunction with the earliest, latest, and latest_time functions to calculate the rate of increase for an accumulating counter.
-        "earliest_time" => {
-            function_transform!(earliest_time [args -> _mapped_args] () { column_like!(min([col("_time")])) })
-        }
+        "earliest_time" => function_transform!(earliest_time [args -> mapped_args] () {
+            match mapped_args.len() {
+                0 => column_like!(min([col("_time")])),
+                1 => {
+                    let has_value = column_like!([mapped_args[0].clone()].isNotNull());
+                    column_like!(min([when([has_value], [col("_time")])]))
+                }
+                _ => bail!("Invalid number of arguments for stats function `{}`", name),
+            }
+        }),
         // latest(<value>)                      	 Returns the chronologically latest (most recent) seen occurrence of a value in a field.
         "latest" => function_transform!(latest [args] (x) {
             df = df.order_by(vec![column_like!([col("_time")].asc())]);
             column_like!(last([x], [py_lit(true)]))
         }),
         // latest_time(<value>)                 	 Returns the UNIX time of the latest (most recent) occurrence of a value of the field. Used in conjunction with the earliest, earliest_time, and latest functions to calculate the rate of increase for an accumulating counter.
-        "latest_time" => {
-            function_transform!(latest_time [args -> _mapped_args] () { column_like!(max([col("_time")])) })
-        }
+        "latest_time" => function_transform!(latest_time [args -> mapped_args] () {
+            match mapped_args.len() {
+                0 => column_like!(max([col("_time")])),
+                1 => {
+                    let has_value = column_like!([mapped_args[0].clone()].isNotNull());
+                    column_like!(max([when([has_value], [col("_time")])]))
+                }
+                _ => bail!("Invalid number of arguments for stats function `{}`", name),
+            }
+        }),
         // per_day(<value>)                     	 Returns the values in a field or eval expression for each day.
         "per_day" => bail!(
             "UNIMPLEMENTED: No implementation yet for stats function `{}`",
-- 
2.43.0


From 1745fbb7a445c6aa0cf1a55b82197675f87f1e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 10/67] fix: runtime distinct counts are exact

---
 python/spl_transpiler/runtime/functions/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index a4af694..cf6c999 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -64,7 +64,7 @@ class DistinctCountStatsFn(StatsFunction):
     x: Expr
 
     def to_pyspark_expr_simple(self):
-        return F.approx_count_distinct(self.x.to_pyspark_expr())
+        return F.count_distinct(self.x.to_pyspark_expr())
 
 
 @enforce_types
-- 
2.43.0


From 405668f72498d16b05c3bc4b6b3741bdb9d0af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 11/67] fix: runtime values() lists values in order on every
 schedule

---
 python/spl_transpiler/runtime/functions/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index cf6c999..8cfb50c 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -470,7 +470,8 @@ class ValuesStatsFn(StatsFunction):
     value: Expr
 
     def to_pyspark_expr_simple(self):
-        return F.collect_set(self.value.to_pyspark_expr())
+        # `collect_set` gives the values in an arbitrary order
+        return F.sort_array(F.collect_set(self.value.to_pyspark_expr()))
 
 
 @enforce_types
-- 
2.43.0


From a542a9f7c94f9b4cd32f879a3bf2471e86f5a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 12/67] fix: earliest, latest and rate pick by event time on
 every schedule

---
 .../spl_transpiler/runtime/functions/stats.py | 30 +++++++++++--------
 src/functions/stat_fns.rs                     | 11 +++----
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/stats.py b/python/spl_transpiler/runtime/functions/stats.py
index 8cfb50c..db72ffb 100644
--- a/python/spl_transpiler/runtime/functions/stats.py
+++ b/python/spl_transpiler/runtime/functions/stats.py
@@ -492,9 +492,10 @@ class EarliestStatsFn(StatsFunction):
     name: Literal["earliest"] = "earliest"
     value: Expr
 
-    def to_pyspark_expr(self, df: DataFrame):
-        df = df.orderBy(F.col("_time").asc())
-        return (df, F.first(self.value.to_pyspark_expr(), ignorenulls=True))
+    def to_pyspark_expr_simple(self):
+        # The order of the rows does not survive the grouping, so pick the value by its time
+        value = self.value.to_pyspark_expr()
+        return F.min_by(value, F.when(value.isNotNull(), F.col("_time")))
 
 
 @enforce_types
@@ -533,9 +534,10 @@ class LatestStatsFn(StatsFunction):
     name: Literal["latest"] = "latest"
     value: Expr
 
-    def to_pyspark_expr(self, df: DataFrame):
-        df = df.orderBy(F.col("_time").asc())
-        return (df, F.last(self.value.to_pyspark_expr(), ignorenulls=True))
+    def to_pyspark_expr_simple(self):
+        # The order of the rows does not survive the grouping, so pick the value by its time
+        value = self.value.to_pyspark_expr()
+        return F.max_by(value, F.when(value.isNotNull(), F.col("_time")))
 
 
 @enforce_types
@@ -666,13 +668,15 @@ class RateStatsFn(StatsFunction):
     name: Literal["rate"] = "rate"
     value: Expr
 
-    def to_pyspark_expr(self, df: DataFrame):
-        df = df.orderBy(F.col("_time").asc())
-        latest_value = F.last(self.value.to_pyspark_expr())
-        earliest_value = F.first(self.value.to_pyspark_expr())
-        latest_time = F.max(F.col("_time"))
-        earliest_time = F.min(F.col("_time"))
-        return (df, (latest_value - earliest_value) / (latest_time - earliest_time))
+    def to_pyspark_expr_simple(self):
+        # The order of the rows does not survive the grouping, so pick the values by their time
+        value = self.value.to_pyspark_expr()
+        time = F.when(value.isNotNull(), F.col("_time"))
+        latest_value = F.max_by(value, time)
+        earliest_value = F.min_by(value, time)
+        latest_time = F.max(time)
+        earliest_time = F.min(time)
+        return (latest_value - earliest_value) / (latest_time - earliest_time)
 
 
 @enforce_types
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 16c756d..c588dd9 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -252,11 +252,12 @@ fn stats_fn_bare(
         ),
         // rate(<value>)                        	 Returns the per-second rate change of the value of the field. Represents (latest - earliest) / (latest_time - earliest_time) Requires the earliest and latest values of the field to be numerical, and the earliest_time and latest_time values to be different.
         "rate" => function_transform!(rate [args] (x) {
-            df = df.order_by(vec![column_like!([col("_time")].asc())]);
-            let latest_value = column_like!(last([x.clone()]));
-            let earliest_value = column_like!(first([x]));
-            let latest_time = column_like!(max([col("_time")]));
-            let earliest_time = column_like!(min([col("_time")]));
+            // The order of the rows does not survive the grouping, so values are picked by their time
+            let time = column_like!(when([[x.clone()].isNotNull()], [col("_time")]));
+            let latest_value = column_like!(max_by([x.clone()], [time.clone()]));
+            let earliest_value = column_like!(min_by([x], [time.clone()]));
+            let latest_time = column_like!(max([time.clone()]));
+            let earliest_time = column_like!(min([time]));
             column_like!([[latest_value] - [earliest_value]] / [[latest_time] - [earliest_time]])
         }),
         // rate_avg(<value>)                    	 Returns the average rates for the time series associated with a specified accumulating counter metric.
-- 
2.43.0


From 04e5d3c36deddb7878413a8dd019d4a4eb5b7ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 13/67] fix: standalone range() was not an aggregate

---
 src/functions/stat_fns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index c588dd9..45dd7c9 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -162,7 +162,7 @@ fn stats_fn_bare(
         }
         // range(<value>)                       	 If the field values are numeric, returns the difference between the maximum and minimum values in the field specified.
         "range" => {
-            function_transform!(range [args] (x) { column_like!(max([[x.clone()] - [min([x])]])) })
+            function_transform!(range [args] (x) { column_like!([max([x.clone()])] - [min([x])]) })
         }
         // stdev(<value>)                       	 Returns the sample standard deviation of the values in the field specified.
         "stdev" => function_transform!(stdev [args] (x) { column_like!(stddev_samp([x])) }),
-- 
2.43.0


From 593f0b6b0aabdfe5a7d7e4f5d54be230229037a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 14/67] fix: statements of a runtime command inside a later
 expression come before it

---
 src/pyspark/ast.rs  | 139 +++++++++++++++++++++-----------------------
 src/pyspark/base.rs |   8 +++
 2 files changed, 75 insertions(+), 72 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 34d32b4..46f467c 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -827,106 +827,105 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.select({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                source
+                    .to_spark_query(ctx)?
+                    .map_df(|df| Ok(format!("{}.select({},)", df, columns?.join(", "))))
+            }
+            DataFrame::Where { source, condition } => {
+                let condition = condition.to_spark_query(ctx)?;
+                source
+                    .to_spark_query(ctx)?
+                    .map_df(|df| Ok(format!("{}.where({},)", df, condition)))
             }
-            DataFrame::Where { source, condition } => Ok(format!(
-                "{}.where({},)",
-                source.to_spark_query(ctx)?,
-                condition.to_spark_query(ctx)?,
-            )
-            .into()),
             DataFrame::GroupBy { source, columns } => {
                 // Extra trailing comma is intentional
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|s| s.to_spark_query(ctx).map(|s| format!("{}, ", s)))
                     .collect();
-                Ok(format!(
-                    "{}.groupBy([{}])",
-                    source.to_spark_query(ctx)?,
-                    columns?.join("")
-                )
-                .into())
+                source
+                    .to_spark_query(ctx)?
+                    .map_df(|df| Ok(format!("{}.groupBy([{}])", df, columns?.join(""))))
             }
             DataFrame::Aggregation { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.agg({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
+                source
+                    .to_spark_query(ctx)?
+                    .map_df(|df| Ok(format!("{}.agg({},)", df, columns?.join(", "))))
             }
             DataFrame::WithColumn {
                 source,
                 column,
                 name,
-            } => Ok(format!(
-                "{}.withColumn('{}', {},)",
-                source.to_spark_query(ctx)?,
-                name,
-                column.to_spark_query(ctx)?,
-            )
-            .into()),
+            } => {
+                let column = column.to_spark_query(ctx)?;
+                source
+                    .to_spark_query(ctx)?
+                    .map_df(|df| Ok(format!("{}.withColumn('{}', {},)", df, name, column)))
+            }
             DataFrame::WithColumnRenamed {
                 source,
                 old_name,
                 new_name,
-            } => Ok(format!(
-                "{}.withColumnRenamed('{}', '{}',)",
-                source.to_spark_query(ctx)?,
-                old_name,
-                new_name,
-            )
-            .into()),
+            } => source.to_spark_query(ctx)?.map_df(|df| {
+                Ok(format!(
+                    "{}.withColumnRenamed('{}', '{}',)",
+                    df, old_name, new_name,
+                ))
+            }),
             DataFrame::OrderBy { source, columns } => {
                 let columns: Result<Vec<String>> = columns
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.orderBy({},)",
-                    source.to_spark_query(ctx)?,
-                    columns?.join(", ")
-                )
-                .into())
-            }
-            DataFrame::UnionByName { source, other } => Ok(format!(
-                "{}.unionByName({}, allowMissingColumns=True,)",
-                source.to_spark_query(ctx)?,
-                other.to_spark_query(ctx)?,
-            )
-            .into()),
-            DataFrame::Limit { source, limit } => {
-                Ok(format!("{}.limit({},)", source.to_spark_query(ctx)?, limit).into())
+                source
+                    .to_spark_query(ctx)?
+                    .map_df(|df| Ok(format!("{}.orderBy({},)", df, columns?.join(", "))))
             }
-            DataFrame::Tail { source, limit } => {
-                Ok(format!("{}.tail({})", source.to_spark_query(ctx)?, limit).into())
+            DataFrame::UnionByName { source, other } => {
+                let source = source.to_spark_query(ctx)?;
+                let other = other.to_spark_query(ctx)?;
+                Ok(PythonCode::new(
+                    format!(
+                        "{}.unionByName({}, allowMissingColumns=True,)",
+                        source.primary_df_code, other.primary_df_code,
+                    ),
+                    other.preface,
+                    Some(source),
+                ))
             }
+            DataFrame::Limit { source, limit } => source
+                .to_spark_query(ctx)?
+                .map_df(|df| Ok(format!("{}.limit({},)", df, limit))),
+            DataFrame::Tail { source, limit } => source
+                .to_spark_query(ctx)?
+                .map_df(|df| Ok(format!("{}.tail({})", df, limit))),
             DataFrame::Join {
                 source,
                 other,
                 condition,
                 join_type,
-            } => Ok(format!(
-                "{}.join({}, {}, '{}',)",
-                source.to_spark_query(ctx)?,
-                other.to_spark_query(ctx)?,
-                condition.to_spark_query(ctx)?,
-                join_type
-            )
-            .into()),
-            DataFrame::Alias { source, name } => {
-                Ok(format!("{}.alias('{}',)", source.to_spark_query(ctx)?, name,).into())
+            } => {
+                let source = source.to_spark_query(ctx)?;
+                let other = other.to_spark_query(ctx)?;
+                Ok(PythonCode::new(
+                    format!(
+                        "{}.join({}, {}, '{}',)",
+                        source.primary_df_code,
+                        other.primary_df_code,
+                        condition.to_spark_query(ctx)?,
+                        join_type
+                    ),
+                    other.preface,
+                    Some(source),
+                ))
             }
+            DataFrame::Alias { source, name } => source
+                .to_spark_query(ctx)?
+                .map_df(|df| Ok(format!("{}.alias('{}',)", df, name))),
             DataFrame::ArbitraryMethod {
                 source,
                 method,
@@ -936,13 +935,9 @@ impl ToSparkQuery for DataFrame {
                     .iter()
                     .map(|col| col.to_spark_query(ctx).map(|code| code.to_string()))
                     .collect();
-                Ok(format!(
-                    "{}.{}({},)",
-                    source.to_spark_query(ctx)?,
-                    method,
-                    params?.join(",")
-                )
-                .into())
+                source
+                    .to_spark_query(ctx)?
+                    .map_df(|df| Ok(format!("{}.{}({},)", df, method, params?.join(","))))
             }
         }
     }
diff --git a/src/pyspark/base.rs b/src/pyspark/base.rs
index b64b78b..d0f3381 100644
--- a/src/pyspark/base.rs
+++ b/src/pyspark/base.rs
@@ -55,6 +55,14 @@ impl PythonCode {
             preface: new_preface,
         }
     }
+
+    /// Builds on the data frame, keeping the statements it depends on in front of the expression
+    pub fn map_df(self, f: impl FnOnce(String) -> Result<String>) -> Result<Self> {
+        Ok(Self {
+            primary_df_code: f(self.primary_df_code)?,
+            preface: self.preface,
+        })
+    }
 }
 
 impl From<String> for PythonCode {
-- 
2.43.0


From 829925d345f4b31c3585f2a1dd7c35b32b04fb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:39 +0000
Subject: [PATCH 15/67] fix: subtraction and division chains apply from left to
 right

---
 src/spl/parser.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 093edae..91859f6 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -983,39 +983,44 @@ pub fn expr2(input: &str) -> IResult<&str, ast::Expr> {
     alt((expr_base,))(input)
 }
 
+/// Operators of equal precedence apply from left to right: `a - b - c` is `(a - b) - c`
+fn left_associative<O: ToString>((first, rest): (ast::Expr, Vec<(O, ast::Expr)>)) -> ast::Expr {
+    rest.into_iter().fold(first, |left, (op, right)| {
+        ast::Binary::new(left, op, right).into()
+    })
+}
+
 pub fn expr3(input: &str) -> IResult<&str, ast::Expr> {
     alt((map(
         pair(
             expr2,
-            opt(pair(
+            many0(pair(
                 ws(alt((
                     operators::Multiply::pattern,
                     operators::Divide::pattern,
                 ))),
-                expr3,
+                expr2,
             )),
         ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
-        },
+        left_associative,
     ),))(input)
 }
 
 pub fn expr4(input: &str) -> IResult<&str, ast::Expr> {
-    alt((map(
-        pair(
+    map(
+        tuple((
             expr3,
-            opt(pair(
-                ws(alt((operators::Add::pattern, operators::Subtract::pattern))),
-                expr4,
-            )),
-        ),
-        |(left, maybe_op_right)| match maybe_op_right {
-            None => left,
-            Some((op, right)) => ast::Binary::new(left, op, right).into(),
+            many0(pair(ws(operators::Subtract::pattern), expr3)),
+            opt(pair(ws(operators::Add::pattern), expr4)),
+        )),
+        |(first, subtracted, maybe_added)| {
+            let left = left_associative((first, subtracted));
+            match maybe_added {
+                None => left,
+                Some((op, right)) => ast::Binary::new(left, op, right).into(),
+            }
         },
-    ),))(input)
+    )(input)
 }
 
 pub fn expr5(input: &str) -> IResult<&str, ast::Expr> {
-- 
2.43.0


From 8fdde67a0010bc695e9908728f4643e7ac38eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:19 +0000
Subject: [PATCH 16/67] fix: threads import the code formatter one at a time

---
 src/format_python.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/format_python.rs b/src/format_python.rs
index 243b06b..bddb33c 100644
--- a/src/format_python.rs
+++ b/src/format_python.rs
@@ -1,6 +1,7 @@
 use anyhow::Result;
 use log::{error, warn};
 use pyo3::prelude::*;
+use pyo3::sync::GILOnceCell;
 use pyo3::types::IntoPyDict;
 use std::error::Error;
 use std::fmt::{Debug, Display, Formatter};
@@ -19,12 +20,29 @@ impl Display for BlackNotInstalled {
 
 impl Error for BlackNotInstalled {}
 
+/// One thread imports `black` at a time. Python's own import lock is not enough: while a compiled
+/// module without a `__spec__` yet is being initialized, other threads are given it as it is.
+static IMPORT_LOCK: GILOnceCell<Py<PyAny>> = GILOnceCell::new();
+
+fn import_black(py: Python<'_>) -> Result<Bound<'_, PyModule>> {
+    let lock = IMPORT_LOCK
+        .get_or_try_init(py, || -> PyResult<Py<PyAny>> {
+            let threading = PyModule::import_bound(py, "threading")?;
+            Ok(threading.getattr("RLock")?.call0()?.unbind())
+        })?
+        .bind(py);
+    lock.call_method0("acquire")?;
+    let black = PyModule::import_bound(py, "black");
+    lock.call_method0("release")?;
+    Ok(black.map_err(|_| BlackNotInstalled())?)
+}
+
 pub fn format_python_code(code: impl ToString) -> Result<String> {
     // TODO: When ruff format is available on cargo, use that instead of an embedded Python interpeter
     // from black import format_str, FileMode
     // res = format_str("some python code", mode=FileMode())
     let result: Result<String> = Python::with_gil(|py| {
-        let black = PyModule::import_bound(py, "black").map_err(|_| BlackNotInstalled())?;
+        let black = import_black(py)?;
         let mode = black.getattr("FileMode")?.call0()?;
         let args = (code.to_string(),);
         let kwargs = [("mode", mode)].into_py_dict_bound(py);
-- 
2.43.0


From f9c986060329cbbec1fab01a25e784dbde24e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:04 +0000
Subject: [PATCH 17/67] fix: results of runtime eval functions combine with
 operators

---
 python/spl_transpiler/runtime/base.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/base.py b/python/spl_transpiler/runtime/base.py
index 013d1ee..dd96c12 100644
--- a/python/spl_transpiler/runtime/base.py
+++ b/python/spl_transpiler/runtime/base.py
@@ -1,14 +1,28 @@
 import enum
+from functools import wraps
 from typing import Any
 
 from pydantic import validate_call, ConfigDict, BaseModel, model_validator
 import pyspark.sql.functions as F
 
-enforce_types = validate_call(
+_validate = validate_call(
     config=ConfigDict(arbitrary_types_allowed=True), validate_return=True
 )
 
 
+def enforce_types(func):
+    validated = _validate(func)
+    if func.__annotations__.get("return") is not Expr:
+        return validated
+
+    # Callers combine the result with other columns, so it has to be a column itself
+    @wraps(func)
+    def as_column(*args, **kwargs):
+        return validated(*args, **kwargs).to_pyspark_expr()
+
+    return as_column
+
+
 class ExprKind(str, enum.Enum):
     COLUMN = "column"
     LITERAL = "literal"
-- 
2.43.0


From 6f6bf7fee7460ecdff0ab7cc0b31415d2c9e060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:04 +0000
Subject: [PATCH 18/67] fix: runtime bit_and, case, validate, sum, avg, max and
 min raised

---
 .../spl_transpiler/runtime/functions/eval.py  | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 446a0ba..6aaa3b0 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -1,5 +1,6 @@
 import warnings
 from functools import reduce
+from operator import add
 
 from pyspark.sql import functions as F
 
@@ -17,7 +18,7 @@ from spl_transpiler.runtime.functions import utils
 
 @enforce_types
 def bit_and(a: Expr, b: Expr) -> Expr:
-    a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
+    return a.to_pyspark_expr().bitwiseAND(b.to_pyspark_expr())
 
 
 #         // bit_or(<values>)                                    	 Bitwise OR function that takes two or more non-negative integers as arguments and sequentially performs bitwise OR on them.
@@ -102,7 +103,7 @@ def case(*args: Expr) -> Expr:
 
     result = F
     for condition, value in zip(args[::2], args[1::2]):
-        result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
+        result = result.when(condition.to_pyspark_expr(), value.to_pyspark_expr())
 
     return result
 
@@ -249,7 +250,7 @@ def true() -> Expr:
 
 
 @enforce_types
-def validate(*args) -> Expr:
+def validate(*args: Expr) -> Expr:
     if len(args) % 2 != 0:
         raise ValueError(
             "validate() function requires an even number of arguments (conditions and values)."
@@ -763,7 +764,7 @@ def sqrt(num: Expr) -> Expr:
 @enforce_types
 def sum_(*nums: Expr) -> Expr:
     # Adds the columns together, creating a new column whose value is the sum of the others
-    return sum(*(n.to_pyspark_expr() for n in nums))
+    return reduce(add, (n.to_pyspark_expr() for n in nums))
 
 
 #
@@ -966,7 +967,7 @@ def split(column: Expr, delimiter: str) -> Expr:
 
 @enforce_types
 def avg(*args: Expr) -> Expr:
-    return sum(*(a.to_pyspark_expr() for a in args)) / len(args)
+    return reduce(add, (a.to_pyspark_expr() for a in args)) / len(args)
 
 
 #         // max(<values>)                                       	 Returns the maximum of a set of string or numeric values.
@@ -986,11 +987,7 @@ def avg(*args: Expr) -> Expr:
 
 @enforce_types
 def max_(*args: Expr) -> Expr:
-    return reduce(
-        lambda a, b: F.greatest(a.to_pyspark_expr(), b.to_pyspark_expr()),
-        args[1:],
-        args[0].to_pyspark_expr(),
-    )
+    return reduce(F.greatest, (a.to_pyspark_expr() for a in args))
 
 
 #         // min(<values>)                                       	 Returns the minimum of a set of string or numeric values.
@@ -1010,11 +1007,7 @@ def max_(*args: Expr) -> Expr:
 
 @enforce_types
 def min_(*args: Expr) -> Expr:
-    return reduce(
-        lambda a, b: F.least(a.to_pyspark_expr(), b.to_pyspark_expr()),
-        args[1:],
-        args[0].to_pyspark_expr(),
-    )
+    return reduce(F.least, (a.to_pyspark_expr() for a in args))
 
 
 #         // random()                                            	 Returns a pseudo-random integer ranging from zero to 2^31-1.
-- 
2.43.0


From ef0a19ce6c8dacbb1d905e629fe68ee0ce0c0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:32 +0000
Subject: [PATCH 19/67] fix: argument order and types of runtime conversion
 functions

---
 .../spl_transpiler/runtime/functions/eval.py  | 26 +++++++++++--------
 .../spl_transpiler/runtime/udfs/__init__.py   | 20 +++++++-------
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 6aaa3b0..8ea5d91 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -115,8 +115,8 @@ def case(*args: Expr) -> Expr:
 
 
 @enforce_types
-def cidrmatch(cidr: Expr, ip: Expr) -> Expr:
-    return udfs.cidr_match(cidr.to_pyspark_expr(), ip.to_pyspark_expr())
+def cidrmatch(cidr: str, ip: Expr) -> Expr:
+    return udfs.cidr_match(ip.to_pyspark_expr(), F.lit(cidr))
 
 
 #         // coalesce(<values>)                                  	 Takes one or more values and returns the first value that is not NULL.
@@ -287,7 +287,7 @@ def ipmask(mask: Expr, ip: Expr) -> Expr:
 @enforce_types
 def printf(format_str: Expr, *args: Expr) -> Expr:
     return udfs.printf(
-        format_str.to_pyspark_expr(), [arg.to_pyspark_expr() for arg in args]
+        format_str.to_pyspark_expr(), *(arg.to_pyspark_expr() for arg in args)
     )
 
 
@@ -300,7 +300,9 @@ def printf(format_str: Expr, *args: Expr) -> Expr:
 
 @enforce_types
 def tonumber(value: Expr, base: int = 10) -> Expr:
-    return udfs.tonumber(value.to_pyspark_expr(), base=base)
+    if base == 10:
+        return value.to_pyspark_expr().cast("double")
+    return udfs.tonumber(value.to_pyspark_expr().cast("string"), F.lit(base))
 
 
 #         // tostring(<value>,<format>)                          	 Converts the input, such as a number or a Boolean value, to a string.
@@ -311,8 +313,8 @@ def tonumber(value: Expr, base: int = 10) -> Expr:
 
 
 @enforce_types
-def tostring(value, format=None):
-    return udfs.tostring(value.to_pyspark_expr(), format=format)
+def tostring(value: Expr, format: str | None = None) -> Expr:
+    return udfs.tostring(value.to_pyspark_expr(), F.lit(format))
 
 
 #
@@ -428,10 +430,10 @@ def strftime(date: Expr, format: str, is_spl_format=True) -> Expr:
 
 
 @enforce_types
-def strptime(date: str, format: str, is_spl_format=True) -> Expr:
+def strptime(date: Expr, format: str, is_spl_format=True) -> Expr:
     if is_spl_format:
         format = utils.convert_time_format(format)
-    return F.to_timestamp(date, format)
+    return F.to_timestamp(date.to_pyspark_expr(), format)
 
 
 #         // time()                                              	 The time that eval function was computed. The time will be different for each event, based on when the event was processed.
@@ -709,7 +711,7 @@ def ln(num: Expr) -> Expr:
 
 @enforce_types
 def log(num: Expr, base: int = 10) -> Expr:
-    return F.log(num.to_pyspark_expr(), base)
+    return F.log(float(base), num.to_pyspark_expr())
 
 
 #         // pi()                                                	 Returns the constant pi to 11 digits of precision.
@@ -787,7 +789,7 @@ def commands(value: Expr) -> Expr:
 
 
 @enforce_types
-def mvappend(values: Expr) -> Expr:
+def mvappend(*values: Expr) -> Expr:
     return F.concat(*[v.to_pyspark_expr() for v in values])
 
 
@@ -921,7 +923,9 @@ def mvsort(column: Expr) -> Expr:
 @enforce_types
 def mvzip(left: Expr, right: Expr, delimiter: str = ",") -> Expr:
     return F.zip_with(
-        left, right, lambda left_, right_: F.concat_ws(delimiter, left_, right_)
+        left.to_pyspark_expr(),
+        right.to_pyspark_expr(),
+        lambda left_, right_: F.concat_ws(delimiter, left_, right_),
     )
 
 
diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index 81fcb27..bef5bb8 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -1,5 +1,5 @@
 from pyspark.sql.functions import udf
-from pyspark.sql.types import BooleanType, StringType, IntegerType
+from pyspark.sql.types import BooleanType, LongType, StringType
 import ipaddress
 
 
@@ -22,25 +22,21 @@ def cidr_match(ip_address, cidr_range):
 @udf(returnType=StringType())
 def ipmask(mask, ip):
     try:
-        # Convert mask to integer
-        mask_int = int(mask)
+        # Apply the mask bit by bit
+        masked = int(ipaddress.IPv4Address(mask)) & int(ipaddress.IPv4Address(ip))
 
-        # Create an IPv4Network object
-        network = ipaddress.IPv4Network(f"{ip}/{mask_int}", strict=False)
-
-        # Return the network address (masked IP)
-        return str(network.network_address)
+        return str(ipaddress.IPv4Address(masked))
     except ValueError:
         # Return None if there's an error (invalid IP or mask)
         return None
 
 
 @udf(returnType=StringType())
-def printf(format_str, args):
+def printf(format_str, *args):
     return format_str % args
 
 
-@udf(returnType=IntegerType())
+@udf(returnType=LongType())
 def tonumber(value, base=10):
     try:
         return int(value, base)
@@ -52,6 +48,10 @@ def tonumber(value, base=10):
 def tostring(value, format: str | None = None):
     # "binary", "hex", "commas", "duration"
     match (value, format):
+        case (None, _):
+            return None
+        case (str(), None):
+            return value
         case (bool(), None):
             return "True" if value else "False"
         case (int() | float(), None):
-- 
2.43.0


From f30d2cc3efcc87eaaa5955322f058972fee6d067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:46 +0000
Subject: [PATCH 20/67] fix: pass literal arguments of runtime eval functions
 as plain values

---
 .../spl_transpiler/runtime/functions/eval.py  | 16 ++++----
 .../spl_transpiler/runtime/udfs/__init__.py   |  6 +--
 src/functions/eval_fns.rs                     | 40 ++++++++++++++++++-
 3 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 8ea5d91..c095712 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -300,8 +300,6 @@ def printf(format_str: Expr, *args: Expr) -> Expr:
 
 @enforce_types
 def tonumber(value: Expr, base: int = 10) -> Expr:
-    if base == 10:
-        return value.to_pyspark_expr().cast("double")
     return udfs.tonumber(value.to_pyspark_expr().cast("string"), F.lit(base))
 
 
@@ -1050,8 +1048,8 @@ def lower(x: Expr):
 
 
 @enforce_types
-def ltrim(x: Expr, chars: str):
-    return F.ltrim(x.to_pyspark_expr(), chars)
+def ltrim(x: Expr, chars: Expr):
+    return F.ltrim(x.to_pyspark_expr(), chars.to_pyspark_expr())
 
 
 #         // replace(<str>,<regex>,<replacement>)                	 Substitutes the replacement string for every occurrence of the regular expression in the string.
@@ -1074,8 +1072,8 @@ def replace(input: Expr, regex: str, replacement: str):
 
 
 @enforce_types
-def rtrim(x: Expr, chars: str):
-    return F.rtrim(x.to_pyspark_expr(), chars)
+def rtrim(x: Expr, chars: Expr):
+    return F.rtrim(x.to_pyspark_expr(), chars.to_pyspark_expr())
 
 
 #         // spath(<value>,<path>)                               	 Extracts information from the structured data formats XML and JSON.
@@ -1096,7 +1094,7 @@ def spath(value: Expr, path: str):
 
 
 @enforce_types
-def substr(column: Expr, start: int, length: int):
+def substr(column: Expr, start: int, length: int = 2**31 - 1):
     return F.substring(column.to_pyspark_expr(), start, length)
 
 
@@ -1105,8 +1103,8 @@ def substr(column: Expr, start: int, length: int):
 
 
 @enforce_types
-def trim(x: Expr, chars: str):
-    return F.trim(x.to_pyspark_expr(), chars)
+def trim(x: Expr, chars: Expr):
+    return F.trim(x.to_pyspark_expr(), chars.to_pyspark_expr())
 
 
 #         // upper(<str>)                                        	 Returns the string in uppercase.
diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index bef5bb8..d428c65 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -1,5 +1,5 @@
 from pyspark.sql.functions import udf
-from pyspark.sql.types import BooleanType, LongType, StringType
+from pyspark.sql.types import BooleanType, DoubleType, StringType
 import ipaddress
 
 
@@ -36,10 +36,10 @@ def printf(format_str, *args):
     return format_str % args
 
 
-@udf(returnType=LongType())
+@udf(returnType=DoubleType())
 def tonumber(value, base=10):
     try:
-        return int(value, base)
+        return float(value) if base == 10 else float(int(value, base))
     except (ValueError, TypeError):
         return None
 
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 6ebac6c..d96c0e9 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -184,6 +184,37 @@ pub fn eval_fn(call: ast::Call, ctx: &PysparkTranspileContext) -> Result<ColumnL
     }
 }
 
+/// Runtime functions whose arguments after the first are plain Python values, not columns
+fn takes_plain_arguments(name: &str) -> bool {
+    matches!(
+        name,
+        "bit_shift_left"
+            | "bit_shift_right"
+            | "log"
+            | "mvindex"
+            | "replace"
+            | "round"
+            | "split"
+            | "strftime"
+            | "strptime"
+            | "substr"
+            | "tonumber"
+            | "tostring"
+    )
+}
+
+fn plain_argument(arg: &ContextualizedExpr<ast::Expr>) -> Option<PyLiteral> {
+    match arg.deref() {
+        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Int(ast::IntValue(value)))) => {
+            Some(PyLiteral::from(*value))
+        }
+        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(value)))) => {
+            Some(PyLiteral::from(value.clone()))
+        }
+        _ => None,
+    }
+}
+
 fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Result<ColumnLike> {
     match name.as_str() {
         "cidrmatch" => function_transform!(cidrmatch [args] (cidr: String, col) {
@@ -207,7 +238,14 @@ fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Re
                 name => name,
             };
             let func = format!("functions.eval.{}", name);
-            let args: Result<Vec<Expr>> = map_args(args);
+            let args: Result<Vec<Expr>> = args
+                .iter()
+                .enumerate()
+                .map(|(i, arg)| match plain_argument(arg) {
+                    Some(value) if i > 0 && takes_plain_arguments(name) => Ok(value.into()),
+                    _ => map_arg(arg),
+                })
+                .collect();
             Ok(ColumnLike::FunctionCall { func, args: args? })
         }
     }
-- 
2.43.0


From 0ca56be3d4069748300a991eacd796e9d63f0a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:56 +0000
Subject: [PATCH 21/67] fix: boolean literals were not Python literals

---
 src/pyspark/transpiler/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index f5b1498..5402b74 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -96,7 +96,7 @@ impl ToSparkExpr for ast::Expr {
 
             // Boolean constant -> Boolean literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Bool(ast::BoolValue(val)))) => {
-                Ok(ColumnLike::literal(val).into())
+                Ok(column_like!(lit(if val { "True" } else { "False" })).into())
             }
 
             // IPv4 cidr -> String literal column
-- 
2.43.0


From 59e6626124d782b7b7e1fdbef75167fe9868ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:44 +0000
Subject: [PATCH 22/67] fix: standalone log took the base as the number, sum
 aggregated rows

---
 src/functions/eval_fns.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index d96c0e9..bab2967 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -506,13 +506,24 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // ln(<num>)                                           	 Returns the natural logarithm.
         "ln" => function_transform!(ln [args] (x) { column_like!(log([x])) }),
         // log(<num>,<base>)                                   	 Returns the logarithm of <num> using <base> as the base. If <base> is omitted, base 10 is used.
-        "log" => function_transform!(log [args] (x, base) { column_like!(log([x], [base])) }),
+        "log" => function_transform!(log [args ...] (x) {
+            let base: i64 = match args.get(1) {
+                None => 10,
+                Some(base) => map_arg(base)?,
+            };
+            let base = PyLiteral(format!("{:.1}", base as f64));
+            column_like!(log([base], [x]))
+        }),
         // pi()                                                	 Returns the constant pi to 11 digits of precision.
         "pi" => function_transform!(pi [args] () { column_like!(lit(3.141592653589793)) }),
         // pow(<num>,<exp>)                                    	 Returns <num> to the power of <exp>, <num><exp>.
         "pow" => function_transform!(pow [args] (x, exp) { column_like!(pow([x], [exp])) }),
         // round(<num>,<precision>)                            	 Returns <num> rounded to the amount of decimal places specified by <precision>. The default is to round to an integer.
-        "round" => function_transform!(round [args] (x, precision: i64) {
+        "round" => function_transform!(round [args ...] (x) {
+            let precision: i64 = match args.get(1) {
+                None => 0,
+                Some(precision) => map_arg(precision)?,
+            };
             column_like!(round([x], [py_lit(precision)]))
         }),
         // sigfig(<num>)                                       	 Rounds <num> to the appropriate number of significant figures.
@@ -522,7 +533,11 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // sqrt(<num>)                                         	 Returns the square root of the value.
         "sqrt" => function_transform!(sqrt [args] (x) { column_like!(sqrt([x])) }),
         // sum(<num>,...)                                      	 Returns the sum of numerical values as an integer.
-        "sum" => function_transform!(sum [args] (x) { column_like!(sum([x])) }),
+        "sum" => function_transform!(sum [args -> mapped_args] () {
+            let total = mapped_args.into_iter().reduce(|total, x| column_like!([total] + [x]).into());
+            ensure!(total.is_some(), "Must provide at least one column to sum together");
+            total.unwrap()
+        }),
 
         // Multivalue eval functions
         // commands(<value>)                                   	 Returns a multivalued field that contains a list of the commands used in <value>.
-- 
2.43.0


From ce5a19c39e021513c3d0ab65748cd908cae4eb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:11 +0000
Subject: [PATCH 23/67] fix: concatenation generated attribute access

---
 src/pyspark/transpiler/expr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 5402b74..726f63b 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -57,6 +57,12 @@ impl ToSparkExpr for ast::Expr {
                         _ => bail!("Unsupported comparison operator for wildcard rhs: {}", op),
                     }
                 }
+                // a . b -> F.concat(a, b)
+                (left, ".", right) => {
+                    let left: Expr = left.with_context(ctx).try_into()?;
+                    let right: Expr = right.with_context(ctx).try_into()?;
+                    Ok(column_like!(concat([left.unaliased()], [right.unaliased()])).into())
+                }
                 // a [op] b -> a [op] b
                 (left, op, right) => Ok(ColumnLike::try_binary_op(
                     left.with_context(ctx),
-- 
2.43.0


From 12e8ae501e2d57c28c175e1b1aaa6b584f5a036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:53 +0000
Subject: [PATCH 24/67] fix: fields - kept the fields it should remove

---
 src/commands/cmd_fields/pyspark.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/commands/cmd_fields/pyspark.rs b/src/commands/cmd_fields/pyspark.rs
index d3c637b..faa5093 100644
--- a/src/commands/cmd_fields/pyspark.rs
+++ b/src/commands/cmd_fields/pyspark.rs
@@ -10,6 +10,16 @@ impl PipelineTransformer for FieldsCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
 
+        if self.remove_fields {
+            let names = self
+                .fields
+                .iter()
+                .map(|ast::Field(name)| column_like!(py_lit(name.clone())).into())
+                .collect();
+            df = df.arbitrary_method("drop", names);
+            return Ok(state.with_df(df));
+        }
+
         let cols: Vec<_> = self
             .fields
             .iter()
-- 
2.43.0


From d14966af76f428615fdeb1a6040ad88e7e11a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:55 +0000
Subject: [PATCH 25/67] fix: lookup dropped the fields it looked up

---
 src/commands/cmd_lookup/pyspark.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_lookup/pyspark.rs b/src/commands/cmd_lookup/pyspark.rs
index 73e872b..c755815 100644
--- a/src/commands/cmd_lookup/pyspark.rs
+++ b/src/commands/cmd_lookup/pyspark.rs
@@ -66,6 +66,6 @@ impl PipelineTransformer for LookupCommand {
             output => bail!("Unsupported output definition for `lookup`: {:?}", output),
         });
 
-        Ok(state.with_df(df))
+        Ok(state.with_df(result_df))
     }
 }
-- 
2.43.0


From 1103d0a3a310aee577ffc3962a3f80f1768689d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:24 +0000
Subject: [PATCH 26/67] fix: memk, rmunit and rmcomma have no runtime function

---
 src/functions/eval_fns.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index bab2967..7e15ee1 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -223,6 +223,7 @@ fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Re
                 args: vec![PyLiteral::from(cidr).into(), col]
             }
         }),
+        "memk" | "rmunit" | "rmcomma" => bail!("No runtime function for `{}`", name),
         name => {
             // warn!(
             //     "Unknown eval function encountered, returning as is: {}",
-- 
2.43.0


From c6340099413cb47b53a00f6e182a99532bc8567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:14 +0000
Subject: [PATCH 27/67] fix: bare words in search comparisons were read as
 fields

---
 src/commands/cmd_search/pyspark.rs | 34 ++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 02a8702..e657184 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -76,6 +76,35 @@ fn break_down_ands(expr: &ast::Expr, exprs: &mut Vec<ast::Expr>) {
     }
 }
 
+/// In a search, a bare word on the right of a comparison is a value, not another field
+fn with_literal_values(expr: &ast::Expr) -> ast::Expr {
+    match expr.clone() {
+        ast::Expr::Binary(ast::Binary {
+            left,
+            symbol,
+            right,
+        }) => match (symbol.as_str(), *right) {
+            ("AND" | "OR", right) => ast::Binary::new(
+                with_literal_values(&left),
+                symbol,
+                with_literal_values(&right),
+            )
+            .into(),
+            (
+                "=" | "==" | "!=" | "<" | "<=" | ">" | ">=",
+                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(value)))),
+            ) => ast::Binary::new(*left, symbol, ast::StrValue(value)).into(),
+            (_, right) => ast::Binary::new(*left, symbol, right).into(),
+        },
+        ast::Expr::Unary(ast::Unary { symbol, right }) => ast::Unary {
+            symbol,
+            right: Box::new(with_literal_values(&right)),
+        }
+        .into(),
+        expr => expr,
+    }
+}
+
 const INDEX: &str = "index";
 const SOURCE: &str = "source";
 const SOURCE_TYPE: &str = "sourcetype";
@@ -92,7 +121,7 @@ impl PipelineTransformer for SearchCommand {
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
         let mut exprs = vec![];
-        break_down_ands(&self.expr, &mut exprs);
+        break_down_ands(&with_literal_values(&self.expr), &mut exprs);
 
         let df = state.df.clone();
 
@@ -176,7 +205,8 @@ impl PipelineTransformer for SearchCommand {
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
         let mut indices = HashSet::new();
-        let condition_expr = split_conditions(&self.expr, true, &mut indices, &state.ctx)?;
+        let expr = with_literal_values(&self.expr);
+        let condition_expr = split_conditions(&expr, true, &mut indices, &state.ctx)?;
         // A hash set has no stable order, the generated code must have one
         let mut indices: Vec<String> = indices.into_iter().collect();
         indices.sort();
-- 
2.43.0


From 9ab8e08bccf224ed63ddf1e1ffb5f9d50b77d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:56 +0000
Subject: [PATCH 28/67] fix: standalone fillnull ignored its fields and never
 filled numbers

---
 src/commands/cmd_fill_null/pyspark.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_fill_null/pyspark.rs b/src/commands/cmd_fill_null/pyspark.rs
index c424d1a..a512a83 100644
--- a/src/commands/cmd_fill_null/pyspark.rs
+++ b/src/commands/cmd_fill_null/pyspark.rs
@@ -27,10 +27,25 @@ impl PipelineTransformer for FillNullCommand {
     ) -> anyhow::Result<PipelineTransformState> {
         let df = state.df.clone().unwrap_or_default();
 
-        let df = df.arbitrary_method(
-            "fillna",
-            vec![column_like!(py_lit(self.value.clone())).into()],
-        );
+        // `fillna` only fills columns of the type of the value: a number fills both kinds
+        let mut values: Vec<PyLiteral> = vec![self.value.clone().into()];
+        if let Ok(number) = self.value.parse::<i64>() {
+            values.push(number.into());
+        } else if let Some(number) = self.value.parse::<f64>().ok().filter(|x| x.is_finite()) {
+            values.push(PyLiteral(format!("{:?}", number)));
+        }
+
+        let df = values.into_iter().fold(df, |df, value| {
+            let mut args: Vec<Expr> = vec![value.into()];
+            if let Some(fields) = &self.fields {
+                let names: Vec<_> = fields
+                    .iter()
+                    .map(|field| PyLiteral::from(field.0.clone()).0)
+                    .collect();
+                args.push(PyLiteral(format!("[{}]", names.join(", "))).into());
+            }
+            df.arbitrary_method("fillna", args)
+        });
 
         Ok(state.with_df(df))
     }
-- 
2.43.0


From 06992c9d4be6f31f4285e771b25e058813b3cbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:47 +0000
Subject: [PATCH 29/67] fix: names that are no Python identifiers, or come
 twice, broke runtime calls

---
 src/commands/cmd_eval/pyspark.rs   | 12 +++++++++++-
 src/commands/cmd_search/pyspark.rs | 16 +++++++++++++++-
 src/commands/cmd_stats/pyspark.rs  | 10 +++++++++-
 src/pyspark/transpiler/utils.rs    | 16 ++++++++++++++++
 4 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/commands/cmd_eval/pyspark.rs b/src/commands/cmd_eval/pyspark.rs
index 632d50a..8319740 100644
--- a/src/commands/cmd_eval/pyspark.rs
+++ b/src/commands/cmd_eval/pyspark.rs
@@ -2,9 +2,10 @@ use super::spl::*;
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::ToSparkExpr;
+use crate::pyspark::transpiler::utils::is_keyword_argument;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::{bail, Result};
+use anyhow::{bail, ensure, Result};
 
 impl EvalCommand {
     fn _eval_expr(&self, expr: impl TryInto<Expr, Error = anyhow::Error>) -> Result<ColumnLike> {
@@ -21,6 +22,15 @@ impl PipelineTransformer for EvalCommand {
         &self,
         state: PipelineTransformState,
     ) -> Result<PipelineTransformState> {
+        for (i, (ast::Field(name), _)) in self.fields.iter().enumerate() {
+            ensure!(
+                is_keyword_argument(name)
+                    && name != "df"
+                    && !self.fields[..i].iter().any(|(field, _)| field.0 == *name),
+                "`{}` cannot be passed to the runtime as a keyword argument",
+                name
+            );
+        }
         let kwargs: Result<Vec<(String, RuntimeExpr)>> = self
             .fields
             .iter()
diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index e657184..4fd05bc 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -1,6 +1,7 @@
 use super::spl::*;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
+use crate::pyspark::transpiler::utils::is_keyword_argument;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
 use anyhow::{bail, ensure, Result};
@@ -115,6 +116,16 @@ const EVENT_TYPE_TAG: &str = "eventtypetag";
 const SAVED_SPLUNK: &str = "savedsplunk";
 const SPLUNK_SERVER: &str = "splunk_server";
 
+/// Parameters of the runtime's `search` which are not names of fields
+const SEARCH_PARAMETERS: [&str; 6] = [
+    "df",
+    "source_type",
+    "host_tag",
+    "event_type",
+    "event_type_tag",
+    "saved_splunk",
+];
+
 impl PipelineTransformer for SearchCommand {
     fn transform_for_runtime(
         &self,
@@ -184,7 +195,10 @@ impl PipelineTransformer for SearchCommand {
                                 ast::Field(name),
                             ))),
                             "=" | "==",
-                        ) => kwargs.push((
+                        ) if is_keyword_argument(&name)
+                            && !SEARCH_PARAMETERS.contains(&name.as_str())
+                            && !kwargs.iter().any(|(key, _)| *key == name) =>
+                            kwargs.push((
                             name.to_string(),
                             (*right).with_context(&state.ctx).try_into()?,
                         )),
diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 5c2897f..828b8ca 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -4,9 +4,10 @@ use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
+use crate::pyspark::transpiler::utils::is_keyword_argument;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
-use anyhow::bail;
+use anyhow::{bail, ensure};
 use anyhow::Result;
 use log::warn;
 
@@ -68,6 +69,13 @@ impl PipelineTransformer for StatsCommand {
 
         for e in self.funcs.iter() {
             let (name, e) = transform_stats_runtime_expr(e, &state.ctx)?;
+            ensure!(
+                is_keyword_argument(&name)
+                    && name != "df"
+                    && !all_kwargs.0.iter().any(|(key, _)| *key == name),
+                "`{}` cannot be passed to the runtime as a keyword argument",
+                name
+            );
             all_kwargs.push(name, e);
         }
 
diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index c497615..46b79d4 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -179,3 +179,19 @@ pub fn convert_time_format(spl_time_format: impl ToString) -> Result<String> {
     }
     Ok(fmt_string)
 }
+
+/// Whether `name` can be the name of a keyword argument
+pub fn is_keyword_argument(name: &str) -> bool {
+    const KEYWORDS: [&str; 35] = [
+        "False", "None", "True", "and", "as", "assert", "async", "await", "break", "class",
+        "continue", "def", "del", "elif", "else", "except", "finally", "for", "from", "global",
+        "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return",
+        "try", "while", "with", "yield",
+    ];
+    let mut chars = name.chars();
+    chars
+        .next()
+        .is_some_and(|c| c.is_ascii_alphabetic() || c == '_')
+        && chars.all(|c| c.is_ascii_alphanumeric() || c == '_')
+        && !KEYWORDS.contains(&name)
+}
-- 
2.43.0


From 0cfd16afd160ba9e3e152d57204a08b996f71735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:22 +0000
Subject: [PATCH 30/67] fix: search after the first command ignored host,
 source and the like

---
 .../spl_transpiler/runtime/commands/search.py   | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/python/spl_transpiler/runtime/commands/search.py b/python/spl_transpiler/runtime/commands/search.py
index a309437..de926e1 100644
--- a/python/spl_transpiler/runtime/commands/search.py
+++ b/python/spl_transpiler/runtime/commands/search.py
@@ -33,8 +33,25 @@ def search(
             saved_splunk=saved_splunk,
             splunk_server=splunk_server,
         )
+        criteria = {}
+    else:
+        # Later in a pipeline the criteria are ordinary conditions on the events
+        criteria = dict(
+            index=index,
+            source=source,
+            sourcetype=source_type,
+            host=host,
+            hosttag=host_tag,
+            eventtype=event_type,
+            eventtypetag=event_type_tag,
+            savedsplunk=saved_splunk,
+            splunk_server=splunk_server,
+        )
 
     conditions = []
+    for field, value in criteria.items():
+        if value is not None:
+            conditions.append(F.col(field) == F.lit(value))
     for expr in exprs:
         conditions.append(expr.to_pyspark_expr())
     for field, expr in field_exprs.items():
-- 
2.43.0


From 570ca6111dbb06fefb83bd9bab3b60afdcb78598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:47 +0000
Subject: [PATCH 31/67] fix: runtime search compared an index under OR as a
 field

---
 src/commands/cmd_search/pyspark.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 4fd05bc..bb0ef7a 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -14,6 +14,16 @@ fn _is_index(expr: &ast::Expr) -> bool {
     )
 }
 
+fn mentions_index(expr: &ast::Expr) -> bool {
+    match expr {
+        ast::Expr::Binary(ast::Binary { left, right, .. }) => {
+            mentions_index(left) || mentions_index(right)
+        }
+        ast::Expr::Unary(ast::Unary { right, .. }) => mentions_index(right),
+        expr => _is_index(expr),
+    }
+}
+
 fn split_conditions(
     expr: &ast::Expr,
     all_ands: bool,
@@ -140,6 +150,12 @@ impl PipelineTransformer for SearchCommand {
         let mut kwargs = vec![];
 
         for expr in exprs {
+            if let ast::Expr::Binary(ast::Binary { symbol, .. }) = &expr {
+                ensure!(
+                    symbol != "OR" || !mentions_index(&expr),
+                    "Cannot specify an index under an OR branch"
+                );
+            }
             match expr.clone() {
                 ast::Expr::Binary(ast::Binary {
                     left,
-- 
2.43.0


From d8e59788c4aa242af94bb1bf357a507d1a352976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:12 +0000
Subject: [PATCH 32/67] fix: quoted text lost the white space at its start

---
 src/spl/parser.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 91859f6..6184cd7 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -447,10 +447,10 @@ pub fn bool_(input: &str) -> IResult<&str, ast::BoolValue> {
 
 //   def doubleQuoted[_: P]: P[String] = P( "\"" ~ (CharsWhile(!"\"".contains(_)) | "\\" ~~ AnyChar | !"\"").rep.! ~ "\"" )
 fn _double_quoted_content(input: &str) -> IResult<&str, &str> {
-    ws(recognize(many0(alt((
+    recognize(many0(alt((
         recognize(pair(tag(r#"\"#), anychar)),
         recognize(none_of(r#""\"#)),
-    )))))
+    ))))
     .parse(input)
 }
 
@@ -468,10 +468,10 @@ pub fn double_quoted(input: &str) -> IResult<&str, &str> {
 pub fn single_quoted(input: &str) -> IResult<&str, &str> {
     delimited(
         tag("\'"),
-        ws(recognize(many0(alt((
+        recognize(many0(alt((
             recognize(pair(tag(r#"\"#), anychar)),
             recognize(none_of(r#"'\"#)),
-        ))))),
+        )))),
         tag("\'"),
     )(input)
 }
@@ -492,11 +492,11 @@ pub fn wildcard(input: &str) -> IResult<&str, ast::Wildcard> {
 pub fn double_quoted_alt(input: &str) -> IResult<&str, &str> {
     delimited(
         tag(r#"""#),
-        ws(recognize(many0(alt((
+        recognize(many0(alt((
             tag(r#"\""#),
             tag(r#"\\"#),
             recognize(none_of(r#""\"#)),
-        ))))),
+        )))),
         tag(r#"""#),
     )(input)
 }
-- 
2.43.0


From e5bd1d655d3662fa6b0940208f4b7b222c647bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 33/67] fix: runtime search of several indexes repeated a
 keyword argument

---
 src/commands/cmd_search/pyspark.rs | 51 ++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index bb0ef7a..4a7e336 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -147,7 +147,8 @@ impl PipelineTransformer for SearchCommand {
         let df = state.df.clone();
 
         let mut args = vec![];
-        let mut kwargs = vec![];
+        let mut kwargs: Vec<(String, RuntimeExpr)> = vec![];
+        let mut criteria: Vec<(&str, String)> = vec![];
 
         for expr in exprs {
             if let ast::Expr::Binary(ast::Binary { symbol, .. }) = &expr {
@@ -204,7 +205,19 @@ impl PipelineTransformer for SearchCommand {
                             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => val,
                             _ => bail!("Right-hand side of comparison to {} must be a string-like value", name),
                         };
-                            kwargs.push((name.to_string(), column_like!(py_lit(rhs_value)).into()))
+                            if criteria.contains(&(name, rhs_value.clone())) {
+                                continue;
+                            }
+                            let repeated = criteria.iter().any(|(key, _)| *key == name);
+                            ensure!(
+                                !repeated || (name == INDEX && df.is_none()),
+                                "Cannot search for several values of {}",
+                                name
+                            );
+                            criteria.push((name, rhs_value.clone()));
+                            if !repeated {
+                                kwargs.push((name.to_string(), column_like!(py_lit(rhs_value)).into()))
+                            }
                         }
                         (
                             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(
@@ -225,7 +238,39 @@ impl PipelineTransformer for SearchCommand {
             }
         }
 
-        let df = DataFrame::runtime(df, "search", args, kwargs, &state.ctx);
+        let mut indices: Vec<String> = criteria
+            .iter()
+            .filter(|(name, _)| *name == INDEX)
+            .map(|(_, value)| value.clone())
+            .collect();
+        if indices.len() < 2 {
+            let df = DataFrame::runtime(df, "search", args, kwargs, &state.ctx);
+            return Ok(state.with_df(df));
+        }
+
+        // Several indexes are read one by one, the conditions apply to all of their events
+        indices.sort();
+        let (criteria_kwargs, field_kwargs): (Vec<_>, Vec<_>) = kwargs
+            .into_iter()
+            .partition(|(key, _)| criteria.iter().any(|(name, _)| name == key));
+        let mut sources = indices.into_iter().map(|index| {
+            let index_kwargs = criteria_kwargs
+                .iter()
+                .cloned()
+                .map(|(key, value)| match key.as_str() {
+                    INDEX => (key, column_like!(py_lit(index.clone())).into()),
+                    _ => (key, value),
+                })
+                .collect();
+            DataFrame::runtime(None, "search", vec![], index_kwargs, &state.ctx)
+        });
+        let mut df = sources.next().unwrap();
+        for source in sources {
+            df = df.union_by_name(source);
+        }
+        if !args.is_empty() || !field_kwargs.is_empty() {
+            df = DataFrame::runtime(Some(df), "search", args, field_kwargs, &state.ctx);
+        }
 
         Ok(state.with_df(df))
     }
-- 
2.43.0


From db0e7507cb3d37f1700b4dc743baba764ebf0814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:18 +0000
Subject: [PATCH 34/67] fix: a later search of an index dropped the pipeline
 before it

---
 src/commands/cmd_search/pyspark.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 4a7e336..be98601 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -281,7 +281,11 @@ impl PipelineTransformer for SearchCommand {
     ) -> Result<PipelineTransformState> {
         let mut indices = HashSet::new();
         let expr = with_literal_values(&self.expr);
-        let condition_expr = split_conditions(&expr, true, &mut indices, &state.ctx)?;
+        let condition_expr = match state.df {
+            None => split_conditions(&expr, true, &mut indices, &state.ctx)?,
+            // Later in a pipeline an index is an ordinary condition on the events
+            Some(_) => Some(expr),
+        };
         // A hash set has no stable order, the generated code must have one
         let mut indices: Vec<String> = indices.into_iter().collect();
         indices.sort();
-- 
2.43.0


From cd80512bdf76b4da282dfc00fb9601d1a55cfe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:50 +0000
Subject: [PATCH 35/67] fix: a command without arguments was not recognised
 before | or ]

---
 src/commands/spl.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/commands/spl.rs b/src/commands/spl.rs
index 8f7e6f4..b16b9f7 100644
--- a/src/commands/spl.rs
+++ b/src/commands/spl.rs
@@ -3,8 +3,8 @@ use crate::spl::ast::ParsedCommandOptions;
 use crate::spl::parser::{command_options, unwrapped};
 use nom::branch::alt;
 use nom::bytes::complete::tag_no_case;
-use nom::character::complete::multispace1;
-use nom::combinator::{eof, map};
+use nom::character::complete::{multispace1, one_of};
+use nom::combinator::{eof, map, peek, recognize};
 use nom::sequence::{preceded, tuple};
 use nom::{IResult, Parser};
 
@@ -46,7 +46,10 @@ pub trait SplCommand<T> {
 
     fn match_name(input: &str) -> IResult<&str, ()> {
         map(
-            tuple((Self::match_name_raw, alt((multispace1, eof)))),
+            tuple((
+                Self::match_name_raw,
+                alt((multispace1, eof, peek(recognize(one_of("|]"))))),
+            )),
             |_| (),
         )(input)
     }
-- 
2.43.0


From 9694a6082c0309b8fb2766c61ad7857a994c27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:27 +0000
Subject: [PATCH 36/67] fix: bin read a field named n instead of its own

---
 src/commands/cmd_bin/pyspark.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_bin/pyspark.rs b/src/commands/cmd_bin/pyspark.rs
index 9ed01b1..8fda4e9 100644
--- a/src/commands/cmd_bin/pyspark.rs
+++ b/src/commands/cmd_bin/pyspark.rs
@@ -1,5 +1,6 @@
 use super::spl::*;
 use crate::pyspark::ast::*;
+use crate::pyspark::base::ToSparkExpr;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use crate::spl::ast;
 use crate::spl::ast::FieldOrAlias;
@@ -10,15 +11,17 @@ impl PipelineTransformer for BinCommand {
         state: PipelineTransformState,
     ) -> anyhow::Result<PipelineTransformState> {
         let mut df = state.df.clone().unwrap_or_default();
-        let col_name = match self.field.clone() {
-            FieldOrAlias::Field(ast::Field(name)) => name,
-            FieldOrAlias::Alias(ast::Alias { name, .. }) => name,
+        let (source, col_name): (Expr, String) = match self.field.clone() {
+            FieldOrAlias::Field(ast::Field(name)) => (column_like!(col(name.clone())).into(), name),
+            FieldOrAlias::Alias(ast::Alias { expr, name }) => {
+                ((*expr).with_context(&state.ctx).try_into()?, name)
+            }
         };
         if let Some(ast::TimeSpan { value, scale }) = self.span.clone() {
             let span = format!("{} {}", value, scale);
             df = df.with_column(
                 col_name.clone(),
-                column_like!(window([col("n")], [py_lit(span)])),
+                column_like!(window([source], [py_lit(span)])),
             );
         }
         let subfield = "start";
-- 
2.43.0


From f5a2c15ab493b8a2850dd119e3decd4117b71139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:04 +0000
Subject: [PATCH 37/67] fix: mvzip with a delimiter failed with the runtime

---
 src/functions/eval_fns.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 7e15ee1..4e26273 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -184,23 +184,14 @@ pub fn eval_fn(call: ast::Call, ctx: &PysparkTranspileContext) -> Result<ColumnL
     }
 }
 
-/// Runtime functions whose arguments after the first are plain Python values, not columns
-fn takes_plain_arguments(name: &str) -> bool {
-    matches!(
-        name,
-        "bit_shift_left"
-            | "bit_shift_right"
-            | "log"
-            | "mvindex"
-            | "replace"
-            | "round"
-            | "split"
-            | "strftime"
-            | "strptime"
-            | "substr"
-            | "tonumber"
-            | "tostring"
-    )
+/// Arguments of runtime functions which are plain Python values, not columns
+fn takes_plain_argument(name: &str, position: usize) -> bool {
+    match name {
+        "bit_shift_left" | "bit_shift_right" | "log" | "mvindex" | "replace" | "round"
+        | "split" | "strftime" | "strptime" | "substr" | "tonumber" | "tostring" => position > 0,
+        "mvzip" => position > 1,
+        _ => false,
+    }
 }
 
 fn plain_argument(arg: &ContextualizedExpr<ast::Expr>) -> Option<PyLiteral> {
@@ -243,7 +234,7 @@ fn eval_fn_runtime(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Re
                 .iter()
                 .enumerate()
                 .map(|(i, arg)| match plain_argument(arg) {
-                    Some(value) if i > 0 && takes_plain_arguments(name) => Ok(value.into()),
+                    Some(value) if takes_plain_argument(name, i) => Ok(value.into()),
                     _ => map_arg(arg),
                 })
                 .collect();
-- 
2.43.0


From 62e8294aa195a1fea727597dcc43475c6d5e5335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:32 +0000
Subject: [PATCH 38/67] fix: the documented join types inner and outer were not
 understood

---
 src/commands/cmd_join/pyspark.rs | 4 ++--
 src/spl/parser.rs                | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/commands/cmd_join/pyspark.rs b/src/commands/cmd_join/pyspark.rs
index 2f3c50a..77d3f70 100644
--- a/src/commands/cmd_join/pyspark.rs
+++ b/src/commands/cmd_join/pyspark.rs
@@ -28,8 +28,8 @@ impl PipelineTransformer for JoinCommand {
 
         let join_type = match self.join_type.clone().as_str() {
             "inner" => "inner",
-            "left" => "left",
-            "outer" => "outer",
+            // SPL's outer join keeps the events of the main search only, as its left join does
+            "left" | "outer" => "left",
             _ => bail!("Unsupported join type: {}", self.join_type),
         };
 
diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 6184cd7..56b332a 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -37,7 +37,7 @@ use crate::commands::spl::SplCommand;
 use crate::spl::operators::{OperatorSymbol, OperatorSymbolTrait};
 use crate::spl::{ast, operators};
 use nom::bytes::complete::{tag_no_case, take, take_while, take_while1};
-use nom::character::complete::{alphanumeric1, anychar, multispace0, multispace1, one_of};
+use nom::character::complete::{alpha1, alphanumeric1, anychar, multispace0, multispace1, one_of};
 use nom::combinator::{all_consuming, eof, into, map_parser, peek, value, verify};
 use nom::error::ParseError;
 use nom::multi::{many0, separated_list0, separated_list1};
@@ -669,7 +669,9 @@ pub fn field_and_value(input: &str) -> IResult<&str, ast::FV> {
 
 //   def fieldAndConstant[_: P]: P[FC] = (token ~ "=" ~ constant) map { case (k, v) => FC(k, v) }
 pub fn field_and_constant(input: &str) -> IResult<&str, ast::FC> {
-    map(separated_pair(token, ws(tag("=")), constant), |(k, v)| {
+    // The value of an option may be a word which is reserved elsewhere, as in type=inner
+    let value = alt((constant, map(alpha1, |word: &str| ast::Field::from(word).into())));
+    map(separated_pair(token, ws(tag("=")), value), |(k, v)| {
         ast::FC {
             field: k.into(),
             value: v,
-- 
2.43.0


From 758401ccfe85b002d2e24698180fd68154cc8f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:03 +0000
Subject: [PATCH 39/67] fix: text in a strftime format was read as Spark
 pattern letters

---
 .../spl_transpiler/runtime/functions/utils.py | 23 ++++++++++----
 src/pyspark/transpiler/utils.rs               | 31 +++++++++++++++----
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index b9a1ae5..cabf2a1 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -3,6 +3,8 @@
 #     let time_col: Expr = time_col.into();
 #     column_like!([time_col] + [expr("INTERVAL {} {}", value, scale.to_ascii_uppercase())])
 # }
+import re
+
 from spl_transpiler.runtime.base import enforce_types, TimeSpan, TimeScale, Expr
 from pyspark.sql import functions as F
 
@@ -161,10 +163,19 @@ CONVERSIONS = {
 
 
 def convert_time_format(fmt_string: str) -> str:
-    for original, replacement in CONVERSIONS.items():
-        if original not in fmt_string:
-            continue
+    # Text without any variable is taken for a Spark pattern
+    if "%" not in fmt_string:
+        return fmt_string
+
+    def convert(match: re.Match) -> str:
+        token = match.group()
+        if token not in CONVERSIONS:
+            # Spark reads unquoted letters and some punctuation as pattern symbols
+            return "'" + token.replace("'", "''") + "'"
+        replacement = CONVERSIONS[token]
         if replacement is None:
-            raise ValueError(f"No known replacement pattern for `{original}`")
-        fmt_string = fmt_string.replace(original, replacement)
-    return fmt_string
+            raise ValueError(f"No known replacement pattern for `{token}`")
+        return replacement
+
+    variables = "|".join(re.escape(name) for name in CONVERSIONS)
+    return re.sub(rf"{variables}|[a-zA-Z'\[\]{{}}#]+", convert, fmt_string)
diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index 46b79d4..08043ff 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -166,15 +166,34 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
 ];
 
 pub fn convert_time_format(spl_time_format: impl ToString) -> Result<String> {
-    let mut fmt_string = spl_time_format.to_string();
+    let spl_time_format = spl_time_format.to_string();
+    // Text without any variable is taken for a Spark pattern
+    if !spl_time_format.contains('%') {
+        return Ok(spl_time_format);
+    }
 
-    for (original, replacement) in CONVERSIONS {
-        if !fmt_string.contains(original) {
+    let mut fmt_string = String::new();
+    let mut rest = spl_time_format.as_str();
+    while let Some(c) = rest.chars().next() {
+        if let Some((original, replacement)) =
+            CONVERSIONS.iter().find(|(name, _)| rest.starts_with(name))
+        {
+            match replacement {
+                None => bail!("No known replacement pattern for `{}`", original),
+                Some(replacement) => fmt_string.push_str(replacement),
+            }
+            rest = &rest[original.len()..];
             continue;
         }
-        match replacement {
-            None => bail!("No known replacement pattern for `{}`", original),
-            Some(replacement) => fmt_string = fmt_string.replace(original, replacement),
+        // Spark reads unquoted letters and some punctuation as pattern symbols
+        let is_text = |c: char| c.is_ascii_alphabetic() || "'[]{}#".contains(c);
+        if is_text(c) {
+            let end = rest.find(|c| !is_text(c)).unwrap_or(rest.len());
+            fmt_string.push_str(&format!("'{}'", rest[..end].replace('\'', "''")));
+            rest = &rest[end..];
+        } else {
+            fmt_string.push(c);
+            rest = &rest[c.len_utf8()..];
         }
     }
     Ok(fmt_string)
-- 
2.43.0


From b243610c0d9cdbb04055e6956014ed126ce48976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:32 +0000
Subject: [PATCH 40/67] fix: wrong Spark patterns for microseconds, day of year
 and zone offsets

---
 python/spl_transpiler/runtime/functions/utils.py | 12 ++++++------
 src/pyspark/transpiler/utils.rs                  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index cabf2a1..51f7e29 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -107,7 +107,7 @@ CONVERSIONS = {
     "%c": None,
     "%+": None,
     "%Ez": None,
-    "%f": "SSS",
+    "%f": "SSSSSS",
     "%H": "HH",
     "%I": "hh",
     "%k": "H",
@@ -123,17 +123,17 @@ CONVERSIONS = {
     "%T": "HH:mm:ss",
     "%X": None,
     "%Z": "z",
-    "%z": "x",
-    "%:z": "xxxx",
-    "%::z": "xxxxxx",
-    "%:::z": "xx",
+    "%z": "xx",
+    "%:z": "xxx",
+    "%::z": "xxxxx",
+    "%:::z": "x",
     "%F": "yyyy-MM-dd",
     "%x": None,
     "%A": "EEEE",
     "%a": "EEE",
     "%d": "dd",
     "%e": "d",
-    "%j": "D",
+    "%j": "DDD",
     # "%V": "w",
     # "%U": "w",
     "%w": "e",
diff --git a/src/pyspark/transpiler/utils.rs b/src/pyspark/transpiler/utils.rs
index 08043ff..7001b4b 100644
--- a/src/pyspark/transpiler/utils.rs
+++ b/src/pyspark/transpiler/utils.rs
@@ -118,7 +118,7 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%+", None), // No direct equivalent
     // Time variables
     ("%Ez", None),              // No direct equivalent
-    ("%f", Some("SSS")),        // Microseconds as a decimal number
+    ("%f", Some("SSSSSS")),        // Microseconds as a decimal number
     ("%H", Some("HH")),         // Hour (24-hour clock)
     ("%I", Some("hh")),         // Hour (12-hour clock)
     ("%k", Some("H")),          // Hour (24-hour clock, leading space)
@@ -138,10 +138,10 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     // Use %:z to specify hour and minute separated by a colon, for example -05:00
     // Use %::z to specify hour minute and second separated with colons, for example -05:00:00
     // Use %:::z to specify hour only, for example -05
-    ("%z", Some("x")),        // Timezone offset from UTC
-    ("%:z", Some("xxxx")),    // Timezone offset from UTC
-    ("%::z", Some("xxxxxx")), // Timezone offset from UTC
-    ("%:::z", Some("xx")),    // Timezone offset from UTC
+    ("%z", Some("xx")),        // Timezone offset from UTC
+    ("%:z", Some("xxx")),    // Timezone offset from UTC
+    ("%::z", Some("xxxxx")), // Timezone offset from UTC
+    ("%:::z", Some("x")),    // Timezone offset from UTC
     // Date variables
     ("%F", Some("yyyy-MM-dd")), // ISO 8601 date format
     ("%x", None),               // No direct equivalent for locale-specific date
@@ -150,7 +150,7 @@ const CONVERSIONS: [(&str, Option<&str>); 37] = [
     ("%a", Some("EEE")),  // Abbreviated weekday name
     ("%d", Some("dd")),   // Day of the month
     ("%e", Some("d")),    // Day of the month (leading space)
-    ("%j", Some("D")),    // Day of year
+    ("%j", Some("DDD")),    // Day of year
     // ("%V", Some("w")), // Week of the year (ISO)
     // ("%U", Some("w")), // Week of the year (starting with 0)
     ("%w", Some("e")), // Weekday as a decimal number (1 = Monday, ..., 7 = Sunday)
-- 
2.43.0


From 500bbb0c02294a1ca061139a8ba18b0c8deb3324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:56 +0000
Subject: [PATCH 41/67] fix: relative_time started weeks on Monday instead of
 Sunday

---
 python/spl_transpiler/runtime/functions/utils.py |  5 ++++-
 src/functions/eval_fns.rs                        | 10 +++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/utils.py b/python/spl_transpiler/runtime/functions/utils.py
index 51f7e29..40fbac4 100644
--- a/python/spl_transpiler/runtime/functions/utils.py
+++ b/python/spl_transpiler/runtime/functions/utils.py
@@ -36,10 +36,13 @@ def offset_time(time_col, offset: TimeSpan):
 
 @enforce_types
 def round_time(time_col, scale: TimeScale) -> Expr:
+    # SPL's weeks start on Sunday, Spark's on Monday
+    if scale == TimeScale.WEEKS:
+        day = F.expr("INTERVAL 1 DAYS")
+        return F.date_trunc("week", time_col + day) - day
     try:
         round_to = {
             scale.MONTHS: "month",
-            scale.WEEKS: "week",
             scale.DAYS: "day",
             scale.HOURS: "hour",
             scale.MINUTES: "minute",
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 4e26273..3ff28b2 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -156,10 +156,18 @@ fn offset_time(time_col: impl Into<Expr>, offset: TimeSpan) -> ColumnLike {
 }
 
 fn round_time(time_col: impl Into<Expr>, scale: String) -> Result<ColumnLike> {
+    // SPL's weeks start on Sunday, Spark's on Monday
+    if scale == "weeks" {
+        let days = |value| TimeSpan {
+            value,
+            scale: "days".into(),
+        };
+        let monday = column_like!(date_trunc([py_lit("week")], [offset_time(time_col, days(1))]));
+        return Ok(offset_time(monday, days(-1)));
+    }
     let round_to = match scale.as_str() {
         "years" => "year",
         "months" => "month",
-        "weeks" => "week",
         "days" => "day",
         "hours" => "hour",
         "minutes" => "minute",
-- 
2.43.0


From c68ec37c8b8ea53e25d715adb6847032e41fabd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:24 +0000
Subject: [PATCH 42/67] fix: split took its delimiter for a regular expression

---
 python/spl_transpiler/runtime/functions/eval.py | 4 +++-
 src/functions/eval_fns.rs                       | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index c095712..ccf604e 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -1,3 +1,4 @@
+import re
 import warnings
 from functools import reduce
 from operator import add
@@ -946,7 +947,8 @@ def mv_to_json_array(column: Expr, invert_types: bool = False) -> Expr:
 
 @enforce_types
 def split(column: Expr, delimiter: str) -> Expr:
-    return F.split(column.to_pyspark_expr(), delimiter)
+    # The delimiter is plain text, Spark takes a regular expression
+    return F.split(column.to_pyspark_expr(), re.escape(delimiter))
 
 
 #
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 3ff28b2..aacb5c9 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -613,7 +613,8 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         }
         // split(<str>,<delim>)                                	 Splits the string values on the delimiter and returns the string values as a multivalue field.
         "split" => function_transform!(split [args] (x, delim: String) {
-            column_like!(split([x], [py_lit(delim)]))
+            // The delimiter is plain text, Spark takes a regular expression
+            column_like!(split([x], [py_lit(regex::escape(&delim))]))
         }),
 
         // Statistical eval functions
-- 
2.43.0


From 7fd62f72fe3152fb5f66dc2524b182027c9e9fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:38 +0000
Subject: [PATCH 43/67] fix: quotes and backslashes of names and strings broke
 the generated code

---
 src/pyspark/ast.rs             | 72 ++++++++++++++++++++++++++++------
 src/pyspark/transpiler/expr.rs |  4 +-
 2 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/src/pyspark/ast.rs b/src/pyspark/ast.rs
index 46f467c..25c227e 100644
--- a/src/pyspark/ast.rs
+++ b/src/pyspark/ast.rs
@@ -13,6 +13,47 @@ pub struct Base();
 // #[pyclass(frozen,eq,hash)]
 pub struct PyLiteral(pub String);
 
+/// Writes the text of an SPL string as a Python string literal. SPL escapes quotes and backslashes
+/// the way Python does, every other backslash stands for itself.
+pub fn python_string(text: &str, quote: char) -> String {
+    let mut literal = String::from(quote);
+    let mut chars = text.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => match chars.peek().copied() {
+                Some(escaped @ ('\\' | '"' | '\'')) => {
+                    literal.push_str(&format!("\\{}", escaped));
+                    chars.next();
+                }
+                None
+                | Some(
+                    '0'..='7'
+                    | 'a'
+                    | 'b'
+                    | 'f'
+                    | 'n'
+                    | 'r'
+                    | 't'
+                    | 'u'
+                    | 'v'
+                    | 'x'
+                    | 'N'
+                    | 'U'
+                    | '\n'
+                    | '\r',
+                ) => literal.push_str("\\\\"),
+                Some(_) => literal.push(c),
+            },
+            '\n' => literal.push_str("\\n"),
+            '\r' => literal.push_str("\\r"),
+            c if c == quote => literal.push_str(&format!("\\{}", c)),
+            c => literal.push(c),
+        }
+    }
+    literal.push(quote);
+    literal
+}
+
 impl<T: Into<PyLiteral>> From<Option<T>> for PyLiteral {
     fn from(value: Option<T>) -> PyLiteral {
         match value {
@@ -24,12 +65,12 @@ impl<T: Into<PyLiteral>> From<Option<T>> for PyLiteral {
 
 impl From<String> for PyLiteral {
     fn from(value: String) -> PyLiteral {
-        PyLiteral(format!("\"{}\"", value))
+        PyLiteral(python_string(&value, '"'))
     }
 }
 impl From<&str> for PyLiteral {
     fn from(value: &str) -> PyLiteral {
-        PyLiteral(format!("\"{}\"", value))
+        PyLiteral(python_string(value, '"'))
     }
 }
 
@@ -219,7 +260,7 @@ pub(crate) use column_like;
 impl ToSparkQuery for ColumnLike {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
-            ColumnLike::Named { name } => Ok(format!("F.col('{}')", name)),
+            ColumnLike::Named { name } => Ok(format!("F.col({})", python_string(name, '\''))),
             ColumnLike::Literal { code } => Ok(format!("F.lit({})", code)),
             ColumnLike::MethodCall { col, func, args } => {
                 let args: Result<Vec<String>> = args
@@ -245,9 +286,11 @@ impl ToSparkQuery for ColumnLike {
                 };
                 Ok(format!("{}({})", func, args?.join(", ")))
             }
-            ColumnLike::Aliased { col, name } => {
-                Ok(format!("{}.alias('{}')", col.to_spark_query(ctx)?, name))
-            }
+            ColumnLike::Aliased { col, name } => Ok(format!(
+                "{}.alias({})",
+                col.to_spark_query(ctx)?,
+                python_string(name, '\'')
+            )),
             ColumnLike::BinaryOp { op, left, right } => Ok(format!(
                 "{} {} {}",
                 left.to_spark_query(ctx)?,
@@ -321,7 +364,7 @@ impl ToSparkQuery for ColumnOrName {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
             ColumnOrName::Column(col) => col.to_spark_query(ctx),
-            ColumnOrName::Name(name) => Ok(format!("\"{}\"", name).into()),
+            ColumnOrName::Name(name) => Ok(python_string(name, '"').into()),
         }
     }
 }
@@ -355,7 +398,7 @@ impl ToSparkQuery for PyDict {
                 primary_df_code,
             } = value.to_spark_query(ctx)?;
             out_preface.extend(preface);
-            out_vals.push(format!("\"{}\": {}", key, primary_df_code).to_string());
+            out_vals.push(format!("{}: {}", python_string(key, '"'), primary_df_code));
         }
         Ok(format!(r#"{{ {} }}"#, out_vals.join(", ")).into())
     }
@@ -772,7 +815,9 @@ impl Default for DataFrame {
 impl ToSparkQuery for DataFrame {
     fn to_spark_query(&self, ctx: &PysparkTranspileContext) -> Result<PythonCode> {
         match self {
-            DataFrame::Source { name } => Ok(format!("spark.table('{}')", name).into()),
+            DataFrame::Source { name } => {
+                Ok(format!("spark.table({})", python_string(name, '\'')).into())
+            }
             DataFrame::RawSource { code } => Ok(code.clone().into()),
             DataFrame::Runtime {
                 name,
@@ -862,9 +907,10 @@ impl ToSparkQuery for DataFrame {
                 name,
             } => {
                 let column = column.to_spark_query(ctx)?;
+                let name = python_string(name, '\'');
                 source
                     .to_spark_query(ctx)?
-                    .map_df(|df| Ok(format!("{}.withColumn('{}', {},)", df, name, column)))
+                    .map_df(|df| Ok(format!("{}.withColumn({}, {},)", df, name, column)))
             }
             DataFrame::WithColumnRenamed {
                 source,
@@ -872,8 +918,10 @@ impl ToSparkQuery for DataFrame {
                 new_name,
             } => source.to_spark_query(ctx)?.map_df(|df| {
                 Ok(format!(
-                    "{}.withColumnRenamed('{}', '{}',)",
-                    df, old_name, new_name,
+                    "{}.withColumnRenamed({}, {},)",
+                    df,
+                    python_string(old_name, '\''),
+                    python_string(new_name, '\''),
                 ))
             }),
             DataFrame::OrderBy { source, columns } => {
diff --git a/src/pyspark/transpiler/expr.rs b/src/pyspark/transpiler/expr.rs
index 726f63b..6c26cb2 100644
--- a/src/pyspark/transpiler/expr.rs
+++ b/src/pyspark/transpiler/expr.rs
@@ -95,7 +95,7 @@ impl ToSparkExpr for ast::Expr {
             // String constant -> String literal column
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => {
                 Ok(ColumnLike::Literal {
-                    code: format!("'{}'", val),
+                    code: python_string(&val, '\''),
                 }
                 .into())
             }
@@ -109,7 +109,7 @@ impl ToSparkExpr for ast::Expr {
             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(ast::IPv4CIDR(
                 val,
             )))) => Ok(ColumnLike::Literal {
-                code: format!("'{}'", val),
+                code: python_string(&val, '\''),
             }
             .into()),
 
-- 
2.43.0


From 31492df58f44fc1f4fc3b682b64e35669e453ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:57 +0000
Subject: [PATCH 44/67] fix: tostring lost the 0x of hex and the rounding of
 commas

---
 python/spl_transpiler/runtime/udfs/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/spl_transpiler/runtime/udfs/__init__.py b/python/spl_transpiler/runtime/udfs/__init__.py
index d428c65..340f2a3 100644
--- a/python/spl_transpiler/runtime/udfs/__init__.py
+++ b/python/spl_transpiler/runtime/udfs/__init__.py
@@ -59,9 +59,11 @@ def tostring(value, format: str | None = None):
         case (int(), "binary"):
             return bin(value)[2:]
         case (int(), "hex"):
-            return hex(value)[2:]
-        case (int() | float(), "commas"):
-            return "{:,}".format(value)
+            return f"0x{value:X}"
+        case (int(), "commas"):
+            return f"{value:,}"
+        case (float(), "commas"):
+            return f"{value:,.2f}"
         case (int(), "duration"):
             hours, remainder = divmod(value, 3600)
             minutes, seconds = divmod(remainder, 60)
-- 
2.43.0


From 31471924647eba5576441c23c6aab70f8bdf6e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:33 +0000
Subject: [PATCH 45/67] fix: rex group names with underscores or (?P<...>
 failed in Spark

---
 src/commands/cmd_rex/pyspark.rs |  5 +++--
 src/commands/regex_utils.rs     | 34 +++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index f84ccbb..5738fec 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -1,5 +1,5 @@
 use crate::commands::cmd_rex::spl::RexCommand;
-use crate::commands::regex_utils::get_groups;
+use crate::commands::regex_utils::{get_groups, to_java_groups};
 use crate::pyspark::ast::*;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use anyhow::ensure;
@@ -21,13 +21,14 @@ impl PipelineTransformer for RexCommand {
         );
 
         let regex_groups = get_groups(self.regex.clone())?;
+        let regex = to_java_groups(&self.regex)?;
 
         for (group_index, group_name) in regex_groups {
             df = df.with_column(
                 group_name.unwrap_or(group_index.to_string()),
                 column_like!(regexp_extract(
                     [col(self.field.clone())],
-                    [Expr::PyLiteral(PyLiteral(format!("r\"{}\"", self.regex)))],
+                    [Expr::PyLiteral(PyLiteral(format!("r\"{}\"", regex)))],
                     [py_lit(group_index as i64)]
                 )),
             );
diff --git a/src/commands/regex_utils.rs b/src/commands/regex_utils.rs
index a725059..fc59c16 100644
--- a/src/commands/regex_utils.rs
+++ b/src/commands/regex_utils.rs
@@ -96,6 +96,40 @@ pub fn get_groups(regex: impl ToString) -> Result<Vec<SimplifiedGroup>> {
     Ok(get_groups_from_ast(regex_ast))
 }
 
+/// Java, and so Spark, only knows named groups as `(?<name>...)` with a name of letters and digits.
+/// Groups are referred to by their index, so the others can do without their name.
+pub fn to_java_groups(regex: &str) -> Result<String> {
+    struct NamedGroups(Vec<(usize, usize)>);
+
+    impl Visitor for NamedGroups {
+        type Output = Vec<(usize, usize)>;
+        type Err = anyhow::Error;
+
+        fn finish(self) -> Result<Self::Output> {
+            Ok(self.0)
+        }
+
+        fn visit_pre(&mut self, ast: &Ast) -> Result<()> {
+            if let Ast::Group(group) = ast {
+                if let GroupKind::CaptureName { starts_with_p, name } = &group.kind {
+                    if *starts_with_p || !name.name.chars().all(|c| c.is_ascii_alphanumeric()) {
+                        let start = group.span.start.offset + "(".len();
+                        self.0.push((start, name.span.end.offset + ">".len()));
+                    }
+                }
+            }
+            Ok(())
+        }
+    }
+
+    let ast = parse::Parser::new().parse(regex)?;
+    let mut result = regex.to_string();
+    for (start, end) in visit(&ast, NamedGroups(vec![]))?.into_iter().rev() {
+        result.replace_range(start..end, "");
+    }
+    Ok(result)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 470099ad7f547d3c646e878923cf632124d887aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:04 +0000
Subject: [PATCH 46/67] fix: rex into its own field changed what the other
 groups read

---
 src/commands/cmd_rex/pyspark.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_rex/pyspark.rs b/src/commands/cmd_rex/pyspark.rs
index 5738fec..8d7eac3 100644
--- a/src/commands/cmd_rex/pyspark.rs
+++ b/src/commands/cmd_rex/pyspark.rs
@@ -23,9 +23,15 @@ impl PipelineTransformer for RexCommand {
         let regex_groups = get_groups(self.regex.clone())?;
         let regex = to_java_groups(&self.regex)?;
 
-        for (group_index, group_name) in regex_groups {
+        // A group named like the field itself replaces it, which the others have to read before
+        let (own, others): (Vec<_>, Vec<_>) = regex_groups
+            .into_iter()
+            .map(|(index, name)| (index, name.unwrap_or(index.to_string())))
+            .partition(|(_, name)| *name == self.field);
+
+        for (group_index, group_name) in others.into_iter().chain(own) {
             df = df.with_column(
-                group_name.unwrap_or(group_index.to_string()),
+                group_name,
                 column_like!(regexp_extract(
                     [col(self.field.clone())],
                     [Expr::PyLiteral(PyLiteral(format!("r\"{}\"", regex)))],
-- 
2.43.0


From a78eecf3f8f240b223e8e79275cc499dff769f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:34 +0000
Subject: [PATCH 47/67] fix: percentiles with the runtime called functions that
 do not exist

---
 src/commands/cmd_stats/pyspark.rs |  8 ++------
 src/commands/stats_utils.rs       |  9 ++-------
 src/functions/stat_fns.rs         | 19 +++++++++++++++++--
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 828b8ca..9781ec2 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -1,7 +1,7 @@
 use super::spl::*;
 use crate::commands::stats_utils;
+use crate::functions::stat_fns::runtime_stats_call;
 use crate::pyspark::alias::Aliasable;
-use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::pyspark::transpiler::utils::is_keyword_argument;
@@ -28,11 +28,7 @@ fn transform_stats_runtime_expr(
         .into_iter()
         .map(|e| e.with_context(ctx).try_into())
         .collect();
-    let expr: Expr = FunctionCall {
-        func: format!("functions.stats.{}", name).to_string(),
-        args: args?,
-    }
-    .into();
+    let expr: Expr = runtime_stats_call(&name, args?).into();
     Ok((alias, RuntimeExpr::from(expr)))
 }
 
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index bb133dc..6a6129d 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -1,6 +1,5 @@
-use crate::functions::stat_fns::stats_fn;
+use crate::functions::stat_fns::{runtime_stats_call, stats_fn};
 use crate::pyspark::alias::Aliasable;
-use crate::pyspark::ast::ColumnLike::FunctionCall;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::spl::ast;
@@ -63,11 +62,7 @@ pub fn transform_stats_runtime_expr(
         .into_iter()
         .map(|e| e.with_context(ctx).try_into())
         .collect();
-    let expr: Expr = FunctionCall {
-        func: format!("functions.stats.{}", name).to_string(),
-        args: args?,
-    }
-    .into();
+    let expr: Expr = runtime_stats_call(&name, args?).into();
     Ok((alias, RuntimeExpr::from(expr)))
 }
 
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 45dd7c9..2e72481 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -97,13 +97,28 @@ fn stats_fn_runtime(
     //     "Unknown eval function encountered, returning as is: {}",
     //     name
     // );
-    let func = format!("functions.stats.{}", name);
     let args: Result<Vec<Expr>> = map_args(args);
-    Ok((df, ColumnLike::FunctionCall { func, args: args? }))
+    Ok((df, runtime_stats_call(&name, args?)))
     // }
     // }
 }
 
+/// A percentile is part of the function's name in SPL, but the runtime takes it as an argument
+pub fn runtime_stats_call(name: &str, mut args: Vec<Expr>) -> ColumnLike {
+    let mut func = name;
+    for prefix in ["exactperc", "percentile", "upperperc"] {
+        let percentile = name.strip_prefix(prefix).and_then(|p| p.parse::<u32>().ok());
+        if let Some(percentile) = percentile {
+            func = prefix;
+            args.push(PyLiteral::from(percentile as i64).into());
+        }
+    }
+    ColumnLike::FunctionCall {
+        func: format!("functions.stats.{}", func),
+        args,
+    }
+}
+
 fn stats_fn_bare(
     name: String,
     args: Vec<ContextualizedExpr<ast::Expr>>,
-- 
2.43.0


From 2d55e9eb2690e347c0f5d4045acae5733ac9d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:04 +0000
Subject: [PATCH 48/67] fix: percentiles of different ranks ended in one column
 name

---
 src/functions/stat_fns.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 2e72481..7fc2a53 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -151,10 +151,12 @@ fn stats_fn_bare(
         ),
         // exactperc<percentile>(<value>)       	 Returns a percentile value of the numeric field specified. Provides the exact value, but is very resource expensive for high cardinality fields. An alternative is perc.
         exactperc if exactperc.starts_with("exactperc") => {
-            function_transform!(exactperc [args] (x) {
+            let value: Result<ColumnLike> = function_transform!(exactperc [args] (x) {
                 let percentile: u32 = exactperc.replace("exactperc", "").parse()?;
                 column_like!(percentile([x], [py_lit(percentile as f64 / 100.0)]))
-            })
+            });
+            // Percentiles of different ranks are different columns
+            Ok(column_like!([value?.unaliased()].alias(exactperc)))
         }
         // max(<value>)                         	 Returns the maximum value in the field specified. If the field values are non-numeric, the maximum value is found using lexicographical ordering. This function processes field values as numbers if possible, otherwise processes field values as strings.
         "max" => function_transform!(max [args] (x) { column_like!(max([x])) }),
@@ -170,10 +172,12 @@ fn stats_fn_bare(
         "mode" => function_transform!(mode [args] (x) { column_like!(mode([x])) }),
         // percentile<percentile>(<value>)      	 Returns the N-th percentile value of all the values in the numeric field specified. Valid field values are integers from 1 to 99. Additional percentile functions are upperperc<percentile>(<value>) and exactperc<percentile>(<value>).
         percentile if percentile.starts_with("percentile") => {
-            function_transform!(percentile [args] (x) {
+            let value: Result<ColumnLike> = function_transform!(percentile [args] (x) {
                 let percentile: u32 = percentile.replace("percentile", "").parse()?;
                 column_like!(percentile_approx([x], [py_lit(percentile as f64 / 100.0)]))
-            })
+            });
+            // Percentiles of different ranks are different columns
+            Ok(column_like!([value?.unaliased()].alias(percentile)))
         }
         // range(<value>)                       	 If the field values are numeric, returns the difference between the maximum and minimum values in the field specified.
         "range" => {
@@ -189,10 +193,12 @@ fn stats_fn_bare(
         "sumsq" => function_transform!(sumsq [args] (x) { column_like!(sum([[x.clone()] * [x]])) }),
         // upperperc<percentile>(<value>)       	 Returns an approximate percentile value, based on the requested percentile of the numeric field. When there are more than 1000 values, the upperperc function gives the approximate upper bound for the percentile requested. Otherwise the upperperc function returns the same percentile as the perc function.
         upperperc if upperperc.starts_with("upperperc") => {
-            function_transform!(upperperc [args] (x) {
+            let value: Result<ColumnLike> = function_transform!(upperperc [args] (x) {
                 let percentile: u32 = upperperc.replace("upperperc", "").parse()?;
                 column_like!(percentile_approx([x], [py_lit(percentile as f64 / 100.0)]))
-            })
+            });
+            // Percentiles of different ranks are different columns
+            Ok(column_like!([value?.unaliased()].alias(upperperc)))
         } // var(<value>)                         	 Returns the sample variance of the values in the field specified.
         "var" => function_transform!(var [args] (x) { column_like!(var_samp([x])) }),
         // varp(<value>)                        	 Returns the population variance of the values in the field specified.
-- 
2.43.0


From 1f5fe5d3f0b2084b57843fe9aeda9998228481a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 49/67] fix: random gave a fraction below 1 instead of an
 integer

---
 python/spl_transpiler/runtime/functions/eval.py | 2 +-
 src/functions/eval_fns.rs                       | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index ccf604e..a5dfdae 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -1020,7 +1020,7 @@ def min_(*args: Expr) -> Expr:
 
 @enforce_types
 def random() -> Expr:
-    return F.rand()
+    return F.floor(F.rand() * F.lit(2**31))
 
 
 #
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index aacb5c9..4334b50 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -659,7 +659,9 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
             out.unwrap()
         }),
         // random()                                            	 Returns a pseudo-random integer ranging from zero to 2^31-1.
-        "random" => function_transform!(random [args] () { column_like!(rand()) }),
+        "random" => function_transform!(random [args] () {
+            column_like!(floor([[rand()] * [lit(2147483648)]]))
+        }),
 
         // Text functions
         // len(<str>)                                          	 Returns the count of the number of characters, not bytes, in the string.
-- 
2.43.0


From 44d2047efe37127cd59bbba14cd2249dcf4c9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:11 +0000
Subject: [PATCH 50/67] fix: ceil, the short name of ceiling, failed with the
 runtime

---
 python/spl_transpiler/runtime/functions/eval.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index a5dfdae..6a40a7e 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -662,6 +662,9 @@ def ceiling(num: Expr) -> Expr:
     return F.ceil(num.to_pyspark_expr())
 
 
+ceil = ceiling
+
+
 #         // exact(<expression>)                                 	 Returns the result of a numeric eval calculation with a larger amount of precision in the formatted output.
 #         "exact" => function_transform!(exact [args] (x) {
 #             warn!("`exact()` is meaningless in Spark since significant figures are not tracked, use proper precision for your expression inputs instead");
-- 
2.43.0


From 404eb5902d1195f37aacc3661d8087b41ad24ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:55 +0000
Subject: [PATCH 51/67] fix: makeresults put splunk_server_group unquoted into
 the code

---
 src/commands/cmd_make_results/pyspark.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_make_results/pyspark.rs b/src/commands/cmd_make_results/pyspark.rs
index fa7ac6e..100b49b 100644
--- a/src/commands/cmd_make_results/pyspark.rs
+++ b/src/commands/cmd_make_results/pyspark.rs
@@ -29,12 +29,12 @@ impl PipelineTransformer for super::spl::MakeResultsCommand {
                 .with_column("sourcetype", column_like!(lit(None)))
                 .with_column(
                     "splunk_server",
-                    column_like!(lit(format!("\"{}\"", self.server.clone()))),
+                    column_like!(lit(python_string(&self.server, '"'))),
                 )
                 .with_column(
                     "splunk_server_group",
                     match self.server_group.clone() {
-                        Some(group) => column_like!(lit(group)),
+                        Some(group) => column_like!(lit(python_string(&group, '"'))),
                         None => column_like!(lit(None)),
                     },
                 );
-- 
2.43.0


From 35445497a2a560775b24362bb85ec971143505c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:04 +0000
Subject: [PATCH 52/67] fix: tstats fillnull_value filled the aggregated
 fields, not only the group-by fields

---
 .../spl_transpiler/runtime/commands/tstats.py  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/spl_transpiler/runtime/commands/tstats.py b/python/spl_transpiler/runtime/commands/tstats.py
index f8fee94..29d0fd8 100644
--- a/python/spl_transpiler/runtime/commands/tstats.py
+++ b/python/spl_transpiler/runtime/commands/tstats.py
@@ -1,10 +1,9 @@
 from pydantic import BaseModel
-from pyspark.sql import DataFrame
+from pyspark.sql import DataFrame, functions as F
 
 from spl_transpiler.runtime import commands
 from spl_transpiler.runtime.base import enforce_types, Expr
 from spl_transpiler.runtime.commands import data_model
-from spl_transpiler.runtime.commands.fill_null import fill_null
 from spl_transpiler.runtime.functions.stats import StatsFunction
 
 
@@ -21,6 +20,15 @@ class DataModelSpecifier(BaseModel):
         )
 
 
+def _fill_null_group(df: DataFrame, field: Expr, value: str):
+    # The value stands in for null values of the group-by fields only
+    column = field.to_pyspark_expr()
+    [(name, dtype)] = df.select(column).dtypes
+    if dtype.startswith("struct"):
+        return column
+    return F.coalesce(column, F.lit(value).cast(dtype)).alias(name)
+
+
 @enforce_types
 def tstats(
     df: DataFrame | None = None,
@@ -45,12 +53,12 @@ def tstats(
         case _:
             raise ValueError("Invalid combination of `df` and `from_`")
 
-    if fill_null_value is not None:
-        df = fill_null(df, value=fill_null_value)
-
     if where:
         df = df.where(where.to_pyspark_expr())
 
+    if fill_null_value is not None:
+        by = [_fill_null_group(df, field, fill_null_value) for field in by]
+
     df = commands.stats(df, by=by, **stat_exprs)
 
     return df
-- 
2.43.0


From d2da68cb342886325f44f442e727f39eeb31a995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:37 +0000
Subject: [PATCH 53/67] fix: tstats results named df, twice the same or like an
 argument broke the runtime call

---
 src/commands/cmd_t_stats/pyspark.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index 071bb96..201d249 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -3,6 +3,7 @@ use crate::commands::cmd_data_model::spl::DataModelCommand;
 use crate::commands::stats_utils;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::ToSparkExpr;
+use crate::pyspark::transpiler::utils::is_keyword_argument;
 use crate::pyspark::transpiler::{PipelineTransformState, PipelineTransformer};
 use anyhow::Result;
 use anyhow::{bail, ensure};
@@ -77,6 +78,13 @@ impl PipelineTransformer for TStatsCommand {
 
         for e in self.exprs.iter() {
             let (name, e) = stats_utils::transform_stats_runtime_expr(e, &state.ctx)?;
+            ensure!(
+                is_keyword_argument(&name)
+                    && name != "df"
+                    && !all_kwargs.0.iter().any(|(key, _)| *key == name),
+                "`{}` cannot be passed to the runtime as a keyword argument",
+                name
+            );
             all_kwargs.push(name, e);
         }
 
-- 
2.43.0


From 34791f71cfbef071338151a64825d2676564854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:34 +0000
Subject: [PATCH 54/67] fix: stats with names the runtime cannot take used
 runtime aggregations as columns

---
 src/functions/stat_fns.rs | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index 7fc2a53..b665821 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -48,7 +48,7 @@ rate_sum(<value>)                    	 Returns the summed rates for the time ser
 use crate::functions::*;
 use crate::pyspark::ast::ColumnLike;
 use crate::pyspark::ast::*;
-use crate::pyspark::base::{PysparkTranspileContext, RuntimeSelection, ToSparkExpr};
+use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::spl::ast;
 use anyhow::{bail, ensure, Result};
 use log::warn;
@@ -76,33 +76,12 @@ pub fn stats_fn(
     };
     let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
 
-    let (df, expr) = match ctx.runtime {
-        RuntimeSelection::Disallow => stats_fn_bare(name, args, df),
-        RuntimeSelection::Require => stats_fn_runtime(name, args, df),
-        RuntimeSelection::Allow => stats_fn_runtime(name.clone(), args.clone(), df.clone())
-            .or_else(|_| stats_fn_bare(name, args, df)),
-    }?;
+    // The runtime's aggregations are arguments of its own commands, not columns to aggregate
+    let (df, expr) = stats_fn_bare(name, args, df)?;
 
     Ok((df, expr.maybe_with_alias(maybe_alias)))
 }
 
-fn stats_fn_runtime(
-    name: String,
-    args: Vec<ContextualizedExpr<ast::Expr>>,
-    df: DataFrame,
-) -> Result<(DataFrame, ColumnLike)> {
-    // match name.as_str() {
-    //     name => {
-    // warn!(
-    //     "Unknown eval function encountered, returning as is: {}",
-    //     name
-    // );
-    let args: Result<Vec<Expr>> = map_args(args);
-    Ok((df, runtime_stats_call(&name, args?)))
-    // }
-    // }
-}
-
 /// A percentile is part of the function's name in SPL, but the runtime takes it as an argument
 pub fn runtime_stats_call(name: &str, mut args: Vec<Expr>) -> ColumnLike {
     let mut func = name;
-- 
2.43.0


From 52e9b50b8fa33ea435492bb536adab79a96ee83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:58 +0000
Subject: [PATCH 55/67] fix: a tstats result named fill_null_value broke the
 runtime call

---
 src/commands/cmd_t_stats/pyspark.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_t_stats/pyspark.rs b/src/commands/cmd_t_stats/pyspark.rs
index 201d249..9976963 100644
--- a/src/commands/cmd_t_stats/pyspark.rs
+++ b/src/commands/cmd_t_stats/pyspark.rs
@@ -80,7 +80,7 @@ impl PipelineTransformer for TStatsCommand {
             let (name, e) = stats_utils::transform_stats_runtime_expr(e, &state.ctx)?;
             ensure!(
                 is_keyword_argument(&name)
-                    && name != "df"
+                    && !["df", "fill_null_value"].contains(&name.as_str())
                     && !all_kwargs.0.iter().any(|(key, _)| *key == name),
                 "`{}` cannot be passed to the runtime as a keyword argument",
                 name
-- 
2.43.0


From 953ee1cefb877abfa3af1dd618b4ba83863ae083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:36 +0000
Subject: [PATCH 56/67] fix: mvzip delimiters with quotes or backslashes differ
 in standalone code

---
 src/functions/eval_fns.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index 4334b50..c05a582 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -596,8 +596,14 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
                 None => ",".into(),
                 Some(delim) => map_arg(delim) ?,
             };
+            // A raw string cannot hold every text
+            let delim = if delim.contains(['\\', '"', '\n', '\r']) {
+                PyLiteral::from(delim).0
+            } else {
+                format!(r#"r"{}""#, delim)
+            };
             let zip_function: Expr = PyLiteral(
-                format !(r#"lambda left_, right_: F.concat_ws(r"{}", left_, right_)"#, delim)
+                format !("lambda left_, right_: F.concat_ws({}, left_, right_)", delim)
             ).into();
             column_like!(
                 zip_with(
-- 
2.43.0


From d5b398d5ebfed7a733d58b88544214aa71ec1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:39 +0000
Subject: [PATCH 57/67] fix: a double-quoted field name kept its quotes as part
 of the name

---
 src/spl/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 56b332a..787acb6 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -46,7 +46,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{digit1, none_of},
-    combinator::{map, opt, recognize},
+    combinator::{consumed, map, opt, recognize},
     multi::many1,
     sequence::{pair, tuple},
     IResult, Parser,
@@ -513,11 +513,15 @@ pub fn _token_not_t_f(input: &str) -> IResult<&str, &str> {
 //   def field[_: P]: P[Field] = token.filter(!Seq("t", "f").contains(_)) map Field
 fn _field_fmt(input: &str) -> IResult<&str, ast::Field> {
     map(
-        recognize(separated_list1(
+        consumed(separated_list1(
             tag("."),
             alt((_token_not_t_f, double_quoted)),
         )),
-        |v: &str| ast::Field(v.into()),
+        |(raw, parts): (&str, Vec<&str>)| match parts.as_slice() {
+            // A name that is quoted as a whole is that name without its quotes.
+            [name] => ast::Field((*name).into()),
+            _ => ast::Field(raw.into()),
+        },
     )(input)
 }
 
-- 
2.43.0


From 3e60760f296bc1838e99d6b527b942496c762f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:02 +0000
Subject: [PATCH 58/67] fix: the groups of a replace were not those of Spark,
 and a dollar sign failed

---
 .../spl_transpiler/runtime/functions/eval.py  |  6 +++++
 src/functions/eval_fns.rs                     |  3 ++-
 src/functions/shared.rs                       | 22 +++++++++++++++++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/python/spl_transpiler/runtime/functions/eval.py b/python/spl_transpiler/runtime/functions/eval.py
index 6a40a7e..1c08a80 100644
--- a/python/spl_transpiler/runtime/functions/eval.py
+++ b/python/spl_transpiler/runtime/functions/eval.py
@@ -1067,6 +1067,12 @@ def ltrim(x: Expr, chars: Expr):
 
 @enforce_types
 def replace(input: Expr, regex: str, replacement: str):
+    # Groups are written as \1 in SPL and as $1 in Spark, where a dollar sign needs escaping
+    replacement = re.sub(
+        r"\\([0-9])|\$",
+        lambda m: r"\$" if m.group(1) is None else "$" + m.group(1),
+        replacement,
+    )
     return F.regexp_replace(input.to_pyspark_expr(), regex, replacement)
 
 
diff --git a/src/functions/eval_fns.rs b/src/functions/eval_fns.rs
index c05a582..f3d744b 100644
--- a/src/functions/eval_fns.rs
+++ b/src/functions/eval_fns.rs
@@ -1,4 +1,4 @@
-use crate::functions::shared::{memk, rmcomma, rmunit};
+use crate::functions::shared::{convert_regex_replacement, memk, rmcomma, rmunit};
 use crate::functions::*;
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::column_like;
@@ -681,6 +681,7 @@ fn eval_fn_bare(name: String, args: Vec<ContextualizedExpr<ast::Expr>>) -> Resul
         // replace(<str>,<regex>,<replacement>)                	 Substitutes the replacement string for every occurrence of the regular expression in the string.
         "replace" => {
             function_transform!(replace [args] (input, regex: String, replacement: String) {
+                let replacement = convert_regex_replacement(&replacement);
                 column_like!(regexp_replace([input.clone()], [py_lit(regex)], [py_lit(replacement)]))
             })
         }
diff --git a/src/functions/shared.rs b/src/functions/shared.rs
index a5395d9..529668d 100644
--- a/src/functions/shared.rs
+++ b/src/functions/shared.rs
@@ -27,6 +27,28 @@ pub fn memk(c: impl Into<Expr>) -> ColumnLike {
     column_like!([num_val] * [scaling_factor])
 }
 
+/// Groups are written as `\1` (or escaped, `\\1`) in SPL and as `$1` in Spark, where a dollar sign
+/// needs escaping.
+pub fn convert_regex_replacement(replacement: &str) -> String {
+    let mut converted = String::new();
+    let mut chars = replacement.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => {
+                let escaped = chars.next_if_eq(&'\\').is_some();
+                converted.push_str(match chars.peek() {
+                    Some('0'..='9') => "$",
+                    _ if escaped => r"\\",
+                    _ => r"\",
+                });
+            }
+            '$' => converted.push_str(r"\\$"),
+            c => converted.push(c),
+        }
+    }
+    converted
+}
+
 /// Given a string, remove all commas from it and cast it to a double
 pub fn rmcomma(c: impl Into<Expr>) -> ColumnLike {
     column_like!([regexp_replace([c.into()], [py_lit(",")], [py_lit("")])].cast([py_lit("double")]))
-- 
2.43.0


From b772245837e630e02b9fe8dd87f017a4752e834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:42 +0000
Subject: [PATCH 59/67] fix: a datamodel search of the root dataset named a
 table ending in a dot

---
 src/commands/cmd_data_model/pyspark.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_data_model/pyspark.rs b/src/commands/cmd_data_model/pyspark.rs
index b164f56..5ebb81d 100644
--- a/src/commands/cmd_data_model/pyspark.rs
+++ b/src/commands/cmd_data_model/pyspark.rs
@@ -57,8 +57,10 @@ impl PipelineTransformer for DataModelCommand {
                     // data_model = <data_model_name>.<root_dataset_name>
                     // node_name = <root_dataset_name>.<...>.<target_dataset_name>
                     // return <data_model_name>.<root_dataset_name>.<...>.<target_dataset_name>
-                    let truncated_node_name = node_name.split(".").skip(1).collect::<Vec<_>>().join(".");
-                    format!("{}.{}", data_model, truncated_node_name)
+                    std::iter::once(data_model.as_str())
+                        .chain(node_name.split('.').skip(1))
+                        .collect::<Vec<_>>()
+                        .join(".")
                 }
                 _ => bail!("I think we received a dataset ({:?}) with no data model ({:?}) in `datamodel`?", self.dataset_name, self.data_model_name),
             }),
-- 
2.43.0


From b83e3a1080feeafada5f14f2c0b825a685881e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:04 +0000
Subject: [PATCH 60/67] fix: a lookup kept the fields it replaces and its key
 twice

---
 src/commands/cmd_lookup/pyspark.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/commands/cmd_lookup/pyspark.rs b/src/commands/cmd_lookup/pyspark.rs
index c755815..6a1f791 100644
--- a/src/commands/cmd_lookup/pyspark.rs
+++ b/src/commands/cmd_lookup/pyspark.rs
@@ -35,7 +35,32 @@ impl PipelineTransformer for LookupCommand {
             .collect();
         let join_condition = join_as_binaries("&", join_columns?).unwrap_or(column_like!(lit(1)));
 
-        let joined_df = df.join(lookup_df, join_condition, "left");
+        // What the lookup matched on is already in the events, and what it outputs replaces their own fields
+        let replaced_columns: Vec<_> = match self.output.clone() {
+            None => self
+                .fields
+                .iter()
+                .filter_map(|f| match f {
+                    FieldLike::AliasedField(ast::AliasedField { field, .. }) => Some(&field.0),
+                    FieldLike::Field(ast::Field(name)) => Some(name),
+                    _ => None,
+                })
+                .map(|name| column_like!(col(format!("lookup.{}", name))).into())
+                .collect(),
+            Some(LookupOutput { fields, .. }) => fields
+                .iter()
+                .filter_map(|f| match f {
+                    FieldLike::AliasedField(ast::AliasedField { alias, .. }) => Some(alias),
+                    FieldLike::Field(ast::Field(name)) => Some(name),
+                    _ => None,
+                })
+                .map(|name| column_like!(col(format!("main.{}", name))).into())
+                .collect(),
+        };
+
+        let joined_df = df
+            .join(lookup_df, join_condition, "left")
+            .arbitrary_method("drop", replaced_columns);
 
         let result_df = joined_df.select(match self.output.clone() {
             None => {
-- 
2.43.0


From 20dc903df46c592f176c5f8db04724bd5449950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:23 +0000
Subject: [PATCH 61/67] fix: a quoted field in a statistic was aggregated as
 the text of its name

---
 src/commands/cmd_stats/pyspark.rs |  4 ++--
 src/commands/stats_utils.rs       |  4 ++--
 src/functions/stat_fns.rs         | 15 ++++++++++++++-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/commands/cmd_stats/pyspark.rs b/src/commands/cmd_stats/pyspark.rs
index 9781ec2..09982e1 100644
--- a/src/commands/cmd_stats/pyspark.rs
+++ b/src/commands/cmd_stats/pyspark.rs
@@ -1,6 +1,6 @@
 use super::spl::*;
 use crate::commands::stats_utils;
-use crate::functions::stat_fns::runtime_stats_call;
+use crate::functions::stat_fns::{as_aggregated_field, runtime_stats_call};
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
@@ -26,7 +26,7 @@ fn transform_stats_runtime_expr(
     let alias = maybe_name.unwrap_or(name.clone());
     let args: Result<Vec<Expr>> = args
         .into_iter()
-        .map(|e| e.with_context(ctx).try_into())
+        .map(|e| as_aggregated_field(e).with_context(ctx).try_into())
         .collect();
     let expr: Expr = runtime_stats_call(&name, args?).into();
     Ok((alias, RuntimeExpr::from(expr)))
diff --git a/src/commands/stats_utils.rs b/src/commands/stats_utils.rs
index 6a6129d..775bd23 100644
--- a/src/commands/stats_utils.rs
+++ b/src/commands/stats_utils.rs
@@ -1,4 +1,4 @@
-use crate::functions::stat_fns::{runtime_stats_call, stats_fn};
+use crate::functions::stat_fns::{as_aggregated_field, runtime_stats_call, stats_fn};
 use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
@@ -60,7 +60,7 @@ pub fn transform_stats_runtime_expr(
     let alias = maybe_name.unwrap_or(name.clone());
     let args: anyhow::Result<Vec<Expr>> = args
         .into_iter()
-        .map(|e| e.with_context(ctx).try_into())
+        .map(|e| as_aggregated_field(e).with_context(ctx).try_into())
         .collect();
     let expr: Expr = runtime_stats_call(&name, args?).into();
     Ok((alias, RuntimeExpr::from(expr)))
diff --git a/src/functions/stat_fns.rs b/src/functions/stat_fns.rs
index b665821..041c5f3 100644
--- a/src/functions/stat_fns.rs
+++ b/src/functions/stat_fns.rs
@@ -74,7 +74,10 @@ pub fn stats_fn(
         ast::Expr::Call(ast::Call { name, args }) => (name, args),
         _ => bail!("Expected a stats function call, got {:?}", expr),
     };
-    let args: Vec<_> = args.into_iter().map(|arg| arg.with_context(ctx)).collect();
+    let args: Vec<_> = args
+        .into_iter()
+        .map(|arg| as_aggregated_field(arg).with_context(ctx))
+        .collect();
 
     // The runtime's aggregations are arguments of its own commands, not columns to aggregate
     let (df, expr) = stats_fn_bare(name, args, df)?;
@@ -82,6 +85,16 @@ pub fn stats_fn(
     Ok((df, expr.maybe_with_alias(maybe_alias)))
 }
 
+/// What a statistic aggregates is a field, even if its name is quoted
+pub fn as_aggregated_field(arg: ast::Expr) -> ast::Expr {
+    match arg {
+        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(name)))) => {
+            ast::Field(name).into()
+        }
+        arg => arg,
+    }
+}
+
 /// A percentile is part of the function's name in SPL, but the runtime takes it as an argument
 pub fn runtime_stats_call(name: &str, mut args: Vec<Expr>) -> ColumnLike {
     let mut func = name;
-- 
2.43.0


From af4c1bf4239992cc8ef51a6dd3c6c72122c0f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:07 +0000
Subject: [PATCH 62/67] fix: a quoted field on the left of a comparison of a
 search was taken for text

---
 src/commands/cmd_search/pyspark.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index be98601..4bdcab0 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -87,7 +87,8 @@ fn break_down_ands(expr: &ast::Expr, exprs: &mut Vec<ast::Expr>) {
     }
 }
 
-/// In a search, a bare word on the right of a comparison is a value, not another field
+/// In a search, the left side of a comparison is a field, even if its name is quoted, and a bare
+/// word on the right is a value, not another field
 fn with_literal_values(expr: &ast::Expr) -> ast::Expr {
     match expr.clone() {
         ast::Expr::Binary(ast::Binary {
@@ -101,10 +102,21 @@ fn with_literal_values(expr: &ast::Expr) -> ast::Expr {
                 with_literal_values(&right),
             )
             .into(),
-            (
-                "=" | "==" | "!=" | "<" | "<=" | ">" | ">=",
-                ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(value)))),
-            ) => ast::Binary::new(*left, symbol, ast::StrValue(value)).into(),
+            ("=" | "==" | "!=" | "<" | "<=" | ">" | ">=", right) => {
+                let left = match *left {
+                    ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(
+                        ast::StrValue(name),
+                    ))) => ast::Field(name).into(),
+                    left => left,
+                };
+                let right = match right {
+                    ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(ast::Field(
+                        value,
+                    )))) => ast::StrValue(value).into(),
+                    right => right,
+                };
+                ast::Binary::new(left, symbol, right).into()
+            }
             (_, right) => ast::Binary::new(*left, symbol, right).into(),
         },
         ast::Expr::Unary(ast::Unary { symbol, right }) => ast::Unary {
-- 
2.43.0


From e68a7f053e453854edd861cfadbaca2095873cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:05 +0000
Subject: [PATCH 63/67] fix: two empty strings in a query are not read as one
 string

---
 src/spl/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spl/parser.rs b/src/spl/parser.rs
index 787acb6..70a0e4e 100644
--- a/src/spl/parser.rs
+++ b/src/spl/parser.rs
@@ -38,7 +38,7 @@ use crate::spl::operators::{OperatorSymbol, OperatorSymbolTrait};
 use crate::spl::{ast, operators};
 use nom::bytes::complete::{tag_no_case, take, take_while, take_while1};
 use nom::character::complete::{alpha1, alphanumeric1, anychar, multispace0, multispace1, one_of};
-use nom::combinator::{all_consuming, eof, into, map_parser, peek, value, verify};
+use nom::combinator::{all_consuming, eof, into, map_parser, not, peek, value, verify};
 use nom::error::ParseError;
 use nom::multi::{many0, separated_list0, separated_list1};
 use nom::sequence::{delimited, preceded, separated_pair, terminated};
@@ -456,8 +456,16 @@ fn _double_quoted_content(input: &str) -> IResult<&str, &str> {
 
 pub fn double_quoted(input: &str) -> IResult<&str, &str> {
     alt((
+        // What follows an empty string in a query does not start a quotation of its own:
+        // `a="" b=""` has two empty strings and not the one string `" b="`.
         delimited(
-            tag("\""),
+            pair(
+                tag("\""),
+                peek(not(pair(
+                    tag("\""),
+                    one_of(" \t\r\n,.)]|=<>!+"),
+                ))),
+            ),
             recognize(tuple((tag("\""), _double_quoted_content, tag("\"")))),
             tag("\""),
         ),
-- 
2.43.0


From bdd2aff6f8ff70bebb827f8e6d764897781ce906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:53 +0000
Subject: [PATCH 64/67] fix: a search for a range of addresses compared the
 text of the range

---
 src/commands/cmd_search/pyspark.rs | 94 +++++++++++++++++++++++++-----
 1 file changed, 79 insertions(+), 15 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 4bdcab0..080aeb2 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -1,4 +1,5 @@
 use super::spl::*;
+use crate::pyspark::alias::Aliasable;
 use crate::pyspark::ast::*;
 use crate::pyspark::base::{PysparkTranspileContext, ToSparkExpr};
 use crate::pyspark::transpiler::utils::is_keyword_argument;
@@ -87,6 +88,18 @@ fn break_down_ands(expr: &ast::Expr, exprs: &mut Vec<ast::Expr>) {
     }
 }
 
+/// In a search, a range of addresses stands for every address in it
+fn cidr_match(field: &str, cidr: &str) -> ast::Expr {
+    ast::Call {
+        name: "cidrmatch".into(),
+        args: vec![
+            ast::StrValue(cidr.to_string()).into(),
+            ast::Field(field.to_string()).into(),
+        ],
+    }
+    .into()
+}
+
 /// In a search, the left side of a comparison is a field, even if its name is quoted, and a bare
 /// word on the right is a value, not another field
 fn with_literal_values(expr: &ast::Expr) -> ast::Expr {
@@ -115,7 +128,28 @@ fn with_literal_values(expr: &ast::Expr) -> ast::Expr {
                     )))) => ast::StrValue(value).into(),
                     right => right,
                 };
-                ast::Binary::new(left, symbol, right).into()
+                match (&left, symbol.as_str(), &right) {
+                    (
+                        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Field(
+                            ast::Field(field),
+                        ))),
+                        "=" | "==" | "!=",
+                        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(
+                            ast::IPv4CIDR(cidr),
+                        ))),
+                    ) if !is_criterion(field) => {
+                        let in_range = cidr_match(field, cidr);
+                        if symbol != "!=" {
+                            return in_range;
+                        }
+                        let exists = ast::Call {
+                            name: "isnotnull".into(),
+                            args: vec![left],
+                        };
+                        ast::Binary::new(exists, "AND", ast::Unary::new("NOT", in_range)).into()
+                    }
+                    _ => ast::Binary::new(left, symbol, right).into(),
+                }
             }
             (_, right) => ast::Binary::new(*left, symbol, right).into(),
         },
@@ -124,6 +158,26 @@ fn with_literal_values(expr: &ast::Expr) -> ast::Expr {
             right: Box::new(with_literal_values(&right)),
         }
         .into(),
+        ast::Expr::FieldIn(ast::FieldIn { field, exprs }) => {
+            let mut values = vec![];
+            let mut ranges = vec![];
+            for expr in exprs {
+                match expr {
+                    ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::IPv4CIDR(
+                        ast::IPv4CIDR(cidr),
+                    ))) => ranges.push(cidr_match(&field, &cidr)),
+                    expr => values.push(expr),
+                }
+            }
+            if !values.is_empty() || ranges.is_empty() {
+                let exprs = values;
+                ranges.insert(0, ast::FieldIn { field, exprs }.into());
+            }
+            ranges
+                .into_iter()
+                .reduce(|left, right| ast::Binary::new(left, "OR", right).into())
+                .unwrap()
+        }
         expr => expr,
     }
 }
@@ -138,6 +192,22 @@ const EVENT_TYPE_TAG: &str = "eventtypetag";
 const SAVED_SPLUNK: &str = "savedsplunk";
 const SPLUNK_SERVER: &str = "splunk_server";
 
+/// Whether a field is one that tells which events to look up
+fn is_criterion(name: &str) -> bool {
+    matches!(
+        name,
+        INDEX
+            | SOURCE
+            | SOURCE_TYPE
+            | HOST
+            | HOST_TAG
+            | EVENT_TYPE
+            | EVENT_TYPE_TAG
+            | SAVED_SPLUNK
+            | SPLUNK_SERVER
+    )
+}
+
 /// Parameters of the runtime's `search` which are not names of fields
 const SEARCH_PARAMETERS: [&str; 6] = [
     "df",
@@ -162,6 +232,11 @@ impl PipelineTransformer for SearchCommand {
         let mut kwargs: Vec<(String, RuntimeExpr)> = vec![];
         let mut criteria: Vec<(&str, String)> = vec![];
 
+        let condition = |expr: ast::Expr| -> Result<RuntimeExpr> {
+            let condition: Expr = expr.with_context(&state.ctx).try_into()?;
+            Ok(condition.unaliased().into())
+        };
+
         for expr in exprs {
             if let ast::Expr::Binary(ast::Binary { symbol, .. }) = &expr {
                 ensure!(
@@ -181,18 +256,7 @@ impl PipelineTransformer for SearchCommand {
                                 ast::Field(name),
                             ))),
                             op,
-                        ) if matches!(
-                            name.as_str(),
-                            INDEX
-                                | SOURCE
-                                | SOURCE_TYPE
-                                | HOST
-                                | HOST_TAG
-                                | EVENT_TYPE
-                                | EVENT_TYPE_TAG
-                                | SAVED_SPLUNK
-                                | SPLUNK_SERVER
-                        ) =>
+                        ) if is_criterion(&name) =>
                         {
                             ensure!(
                                 matches!(op, "=" | "=="),
@@ -243,10 +307,10 @@ impl PipelineTransformer for SearchCommand {
                             name.to_string(),
                             (*right).with_context(&state.ctx).try_into()?,
                         )),
-                        _ => args.push(expr.with_context(&state.ctx).try_into()?),
+                        _ => args.push(condition(expr)?),
                     }
                 }
-                _ => args.push(expr.with_context(&state.ctx).try_into()?),
+                _ => args.push(condition(expr)?),
             }
         }
 
-- 
2.43.0


From 9c59bc4cd67dec4312e281e0fceeaf3484bc83f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:41 +0000
Subject: [PATCH 65/67] fix: a search with a pattern or a negated criterion
 bypassed the table lookup

With the runtime, a wildcard value, or a comparison of a criterion other than
equality, made the whole search fall back to standalone code, which reads the
table `main` whatever the other criteria say.
---
 src/commands/cmd_search/pyspark.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 080aeb2..e5cbed6 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -208,6 +208,18 @@ fn is_criterion(name: &str) -> bool {
     )
 }
 
+fn is_wildcard(expr: &ast::Expr) -> bool {
+    matches!(
+        expr,
+        ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Wildcard(_)))
+    )
+}
+
+/// Whether a comparison with a criterion only filters the events, as no single value is asked for
+fn is_condition(symbol: &str, value: &ast::Expr) -> bool {
+    !matches!(symbol, "=" | "==") || is_wildcard(value)
+}
+
 /// Parameters of the runtime's `search` which are not names of fields
 const SEARCH_PARAMETERS: [&str; 6] = [
     "df",
@@ -256,7 +268,7 @@ impl PipelineTransformer for SearchCommand {
                                 ast::Field(name),
                             ))),
                             op,
-                        ) if is_criterion(&name) =>
+                        ) if is_criterion(&name) && !(name != INDEX && is_condition(op, &right)) =>
                         {
                             ensure!(
                                 matches!(op, "=" | "=="),
@@ -300,7 +312,8 @@ impl PipelineTransformer for SearchCommand {
                                 ast::Field(name),
                             ))),
                             "=" | "==",
-                        ) if is_keyword_argument(&name)
+                        ) if !is_wildcard(&right)
+                            && is_keyword_argument(&name)
                             && !SEARCH_PARAMETERS.contains(&name.as_str())
                             && !kwargs.iter().any(|(key, _)| *key == name) =>
                             kwargs.push((
-- 
2.43.0


From 9722b0ab54afaf39a1155fe60eecaa0e055a0b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:01 +0000
Subject: [PATCH 66/67] fix: with the runtime, a free-text search took the text
 for a field

A bare word or quoted text in a search was passed to the runtime as the
field of that name instead of as a condition on the text of the event.
---
 src/commands/cmd_search/pyspark.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index e5cbed6..578070f 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -246,7 +246,7 @@ impl PipelineTransformer for SearchCommand {
 
         let condition = |expr: ast::Expr| -> Result<RuntimeExpr> {
             let condition: Expr = expr.with_context(&state.ctx).try_into()?;
-            Ok(condition.unaliased().into())
+            Ok(condition.unaliased().into_search_expr().into())
         };
 
         for expr in exprs {
-- 
2.43.0


From ac746902979a5d13c0cae8e366f5666a2208962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:13 +0000
Subject: [PATCH 67/67] fix: a criterion that is a number, repeated or a
 pattern made a search bypass the table lookup

---
 src/commands/cmd_search/pyspark.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/commands/cmd_search/pyspark.rs b/src/commands/cmd_search/pyspark.rs
index 578070f..5d80161 100644
--- a/src/commands/cmd_search/pyspark.rs
+++ b/src/commands/cmd_search/pyspark.rs
@@ -291,17 +291,20 @@ impl PipelineTransformer for SearchCommand {
                                                                                              val,
                                                                                          )))) => val,
                             ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Str(ast::StrValue(val)))) => val,
+                            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Int(ast::IntValue(val)))) => val.to_string(),
+                            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Double(ast::DoubleValue(val)))) => val.to_string(),
+                            ast::Expr::Leaf(ast::LeafExpr::Constant(ast::Constant::Wildcard(ast::Wildcard(val)))) => val,
                             _ => bail!("Right-hand side of comparison to {} must be a string-like value", name),
                         };
                             if criteria.contains(&(name, rhs_value.clone())) {
                                 continue;
                             }
                             let repeated = criteria.iter().any(|(key, _)| *key == name);
-                            ensure!(
-                                !repeated || (name == INDEX && df.is_none()),
-                                "Cannot search for several values of {}",
-                                name
-                            );
+                            if repeated && !(name == INDEX && df.is_none()) {
+                                // The lookup takes one value of a criterion, the others are conditions
+                                args.push(condition(expr)?);
+                                continue;
+                            }
                             criteria.push((name, rhs_value.clone()));
                             if !repeated {
                                 kwargs.push((name.to_string(), column_like!(py_lit(rhs_value)).into()))
-- 
2.43.0

