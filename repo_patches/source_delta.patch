From 654e2983c6c8a6aca9e313619fef20b2c06154b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 001/103] fix: window -o: propagate flush on empty input, one
 window per input item on short input

---
 marcel/op/window.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index 090d8b5..0e646f0 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -228,16 +228,15 @@ class OverlapWindow(WindowBase):
             self.send_window(env)
 
     def flush(self, env):
-        if len(self.window) > 0:
-            if len(self.window) < self.op.n:
-                while len(self.window) < self.op.n:
-                    self.window.append(OverlapWindow.PADDING)
-                self.send_window(env)
-            for i in range(self.op.n - 1):
-                self.window = self.window[1:]
-                self.window.append(OverlapWindow.PADDING)
-                self.send_window(env)
-            self.op.propagate_flush(env)
+        n = self.op.n
+        # A full window has been sent already. What is left are the windows starting with each remaining item.
+        remaining = self.window[1:] if len(self.window) == n else self.window
+        for i in range(len(remaining)):
+            self.window = remaining[i:]
+            self.window.extend([OverlapWindow.PADDING] * (n - len(self.window)))
+            self.send_window(env)
+        self.window = []
+        self.op.propagate_flush(env)
 
 
 class DisjointWindow(WindowBase):
-- 
2.43.0


From d628eeafb355bb3423b265dd708070da032cf5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 002/103] fix: reverse: start empty on every execution of its
 pipeline

---
 marcel/op/reverse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/op/reverse.py b/marcel/op/reverse.py
index 11b8893..463b08f 100644
--- a/marcel/op/reverse.py
+++ b/marcel/op/reverse.py
@@ -42,6 +42,9 @@ class Reverse(marcel.core.Op):
 
     # AbstractOp
 
+    def setup(self, env):
+        self.contents = []
+
     def receive(self, env, x):
         self.contents.append(x)
 
-- 
2.43.0


From 959aaf983fa4cf7149d937f730145b2a246b910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 003/103] fix: intersect: compute the intersection anew on
 every execution of its pipeline

---
 marcel/op/intersect.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index 24b529e..cfb70dc 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -61,6 +61,7 @@ class Intersect(marcel.core.Op):
         self.common = None  # item -> count: Accumulated intersection
         self.input = None   # item -> count: From one of the pipelines args
         self.pipelines = None
+        self.counters = None  # The pipeline args, modified to populate input
 
     def __repr__(self):
         return f'intersect({self.pipelines})'
@@ -68,6 +69,7 @@ class Intersect(marcel.core.Op):
     def setup(self, env):
         for pipeline in self.pipelines:
             assert isinstance(pipeline, marcel.pipeline.Pipeline), type(pipeline)
+        self.common = None
 
     def receive(self, env, x):
         self.ensure_args_consumed(env)
@@ -95,14 +97,14 @@ class Intersect(marcel.core.Op):
 
         customized = []
         for pipeline in self.pipelines:
-            pipeline = pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', count_inputs))
+            pipeline = pipeline.copy().append_immutable(marcel.opmodule.create_op(env, 'map', count_inputs))
             customized.append(pipeline)
-        self.pipelines = customized
+        self.counters = customized
 
     def ensure_args_consumed(self, env):
         if self.common is None:
             # Compute the intersection of all the pipeline args
-            for pipeline in self.pipelines:
+            for pipeline in self.counters:
                 self.input = {}
                 pipeline.run_pipeline(env, {})  # Populates self.input
                 if self.common is None:
-- 
2.43.0


From 2558050fa86e75c26a55776a38ed3118180f3f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 004/103] fix: join, difference, filter: do not feed the
 pipeline argument through the loader of an earlier execution

---
 marcel/op/difference.py | 5 +++--
 marcel/op/filter.py     | 6 +++---
 marcel/op/join.py       | 5 +++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/marcel/op/difference.py b/marcel/op/difference.py
index af966ee..b924813 100644
--- a/marcel/op/difference.py
+++ b/marcel/op/difference.py
@@ -67,6 +67,7 @@ class Difference(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipeline = None
+        self.loader = None  # pipeline, modified to populate right
         self.right = None
         self.first = None
 
@@ -80,7 +81,7 @@ class Difference(marcel.core.Op):
 
     def receive(self, env, x):
         if self.first:
-            self.pipeline.run_pipeline(env, {})
+            self.loader.run_pipeline(env, {})
             self.first = False
         try:
             count = self.right.get(x, None)
@@ -103,7 +104,7 @@ class Difference(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.right = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
+        self.loader = self.pipeline.copy().append_immutable(marcel.opmodule.create_op(env, 'map', load_right))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
\ No newline at end of file
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 1cc3491..316817b 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -136,6 +136,6 @@ class Filter(marcel.core.Op):
             except TypeError:
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
         self.right = set()
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
-        self.pipeline.setup(env)
-        self.pipeline.run_pipeline(env, {})
+        loader = self.pipeline.copy().append_immutable(marcel.opmodule.create_op(env, 'map', add_to_right))
+        loader.setup(env)
+        loader.run_pipeline(env, {})
diff --git a/marcel/op/join.py b/marcel/op/join.py
index 09cae51..970242f 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -92,6 +92,7 @@ class Join(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipeline = None
+        self.loader = None  # pipeline, modified to populate inner
         self.keep = None
         self.inner = None  # Map containing contents of pipelines, keyed by join value
         self.first = None
@@ -107,7 +108,7 @@ class Join(marcel.core.Op):
 
     def receive(self, env, x):
         if self.first:
-            self.pipeline.run_pipeline(env, {})
+            self.loader.run_pipeline(env, {})
             self.first = False
         x = tuple(x)
         join_value = x[0]
@@ -147,4 +148,4 @@ class Join(marcel.core.Op):
                 raise marcel.exception.KillCommandException(f'{x} is not hashable')
 
         self.inner = {}
-        self.pipeline = self.pipeline.append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
+        self.loader = self.pipeline.copy().append_immutable(marcel.opmodule.create_op(env, 'map', load_inner))
-- 
2.43.0


From cedb0e4eb70c390edc12418e68d36de0d677ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 005/103] fix: filter: a compare function that fails yields an
 Error for the row

---
 marcel/op/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 316817b..fe6c3da 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -116,7 +116,7 @@ class Filter(marcel.core.Op):
     def receive(self, env, x):
         if self.right is None:
             self.load_right(env)
-        c = marcel.util.wrap_op_input(self.compare(*x))
+        c = marcel.util.wrap_op_input(self.call(env, self.compare, *x))
         try:
             if (c in self.right) == self.keep:
                 self.send(env, x)
-- 
2.43.0


From 9f099966be63cfaae6cee4b6c1f6d3f39c73b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 006/103] fix: union: accept the same pipeline variable as an
 argument more than once

---
 marcel/op/union.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marcel/op/union.py b/marcel/op/union.py
index 5a3dc2d..d567203 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -56,6 +56,7 @@ class Union(marcel.core.Op):
     def __init__(self):
         super().__init__()
         self.pipelines = None
+        self.inputs = None  # pipelines, modified to send their output to this op's receiver
 
     def __repr__(self):
         return 'union()'
@@ -72,7 +73,7 @@ class Union(marcel.core.Op):
         self.send(env, x)
 
     def flush(self, env):
-        for pipeline in self.pipelines:
+        for pipeline in self.inputs:
             pipeline.run_pipeline(env, {})
         self.propagate_flush(env)
 
@@ -91,10 +92,11 @@ class Union(marcel.core.Op):
         customized = []
         for pipeline in self.pipelines:
             last = len(customized) == n_pipelines - 1
-            pipeline = pipeline.append_immutable(PropagateFlushFromLast(last))
+            # Copy, because one pipeline (e.g. the value of a variable) may be given as an argument repeatedly.
+            pipeline = pipeline.copy().append_immutable(PropagateFlushFromLast(last))
             pipeline.route_output(self.receiver)
             customized.append(pipeline)
-        self.pipelines = customized
+        self.inputs = customized
 
 
 class PropagateFlushFromLast(marcel.core.Op):
-- 
2.43.0


From 412bacf23d2b899425b100be673b813ebcf89a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 007/103] fix: case: reset the state of branch pipelines on
 every execution

---
 marcel/op/case.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index 50ac6ec..21d71f5 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -137,6 +137,8 @@ class Case(marcel.core.Op):
             try:
                 if not isinstance(pipeline, marcel.pipeline.Pipeline):
                     raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
+                # Copy, so that each execution starts with fresh op state.
+                pipeline = pipeline.copy()
                 pipeline.setup(env)
                 return pipeline
             except Exception as e:
-- 
2.43.0


From e328f83187dde2ebb9ff89812496280b544aebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 008/103] fix: treat an error in the first op of a pipeline
 like an error anywhere else, and support pos() there

---
 marcel/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/core.py b/marcel/core.py
index 4f32880..1badfc8 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -110,7 +110,7 @@ class Op(AbstractOp):
         if self.must_not_be_first_in_pipeline():
             raise marcel.exception.KillCommandException(f'{self.op_name()} cannot be the first operator in a pipeline')
         else:
-            self.receive(env, [])
+            self.receive_input(env, [])
 
     def receive(self, env, x):
         # This op has no receive, so run must be what's needed, e.g. gen in:
-- 
2.43.0


From d999892bf0c929e6d2586ece0f9f802859b29031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 009/103] fix: pos() restarts at 0 on every execution of a
 pipeline

---
 marcel/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index e3d422a..7ff4bae 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -59,6 +59,7 @@ class PipelineExecutable(object):
         for op in self.ops:
             if env.trace.is_enabled():
                 env.trace.write(op, 'SETUP')
+            op._count = -1
             op.setup(env)
         for op in self.ops:
             op.customize_pipelines(env)
-- 
2.43.0


From 7fa39ebd4feb6e8e19e8b8888c65d997ddb66885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 010/103] fix: sort: a key function failing on one row does not
 discard the other rows

---
 marcel/op/sort.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marcel/op/sort.py b/marcel/op/sort.py
index 336a853..22a6846 100644
--- a/marcel/op/sort.py
+++ b/marcel/op/sort.py
@@ -69,13 +69,15 @@ class Sort(marcel.core.Op):
 
     def receive(self, env, x):
         if self.contents is not None:
-            self.contents.append(x)
+            # Evaluate the key here, so that a failure affects only x.
+            self.contents.append((self.call(env, self.key, *x), x) if self.key else x)
 
     def flush(self, env):
         if self.contents is not None:
             try:
                 if self.key:
-                    self.contents.sort(key=(lambda t: self.call(env, self.key, *t)))
+                    self.contents.sort(key=lambda kx: kx[0])
+                    self.contents = [x for _, x in self.contents]
                 else:
                     self.contents.sort()
                 for x in self.contents:
-- 
2.43.0


From 81d1986079bc5534d92193ad3edc65b0976b9f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 011/103] fix: red: list rows with -i, rows on which a function
 fails, unhashable groups, incremental concat

---
 marcel/op/red.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/marcel/op/red.py b/marcel/op/red.py
index 37b666a..fcdd40e 100644
--- a/marcel/op/red.py
+++ b/marcel/op/red.py
@@ -17,6 +17,7 @@ import types
 
 import marcel.argsparser
 import marcel.core
+import marcel.exception
 import marcel.function
 import marcel.reduction
 
@@ -184,6 +185,10 @@ class Reducer:
     def flush(self, env):
         assert False
 
+    # Incremental output must not change as accumulation (e.g. by concat) goes on.
+    def output(self, accumulator):
+        return tuple([a.copy() if type(a) is list else a for a in accumulator])
+
 
 class NonGroupingReducer(Reducer):
 
@@ -201,13 +206,13 @@ class NonGroupingReducer(Reducer):
             op.fatal_error(env, x, 'Input too short.')
         accumulator = self.accumulator
         functions = op.functions
-        for i in range(self.n):
-            assert functions is not None
-            assert accumulator is not None
-            assert x is not None
-            accumulator[i] = op.call(env, functions[i], accumulator[i], x[i])
+        assert functions is not None
+        assert accumulator is not None
+        assert x is not None
+        # Update the accumulator only if all functions succeed
+        self.accumulator = [op.call(env, functions[i], accumulator[i], x[i]) for i in range(self.n)]
         if op.incremental:
-            op.send(env, x + tuple(accumulator))
+            op.send(env, tuple(x) + self.output(self.accumulator))
 
     def flush(self, env):
         op = self.op
@@ -230,15 +235,20 @@ class GroupingReducer(Reducer):
         if len(x) < self.n:
             op.fatal_error(env, x, 'Input too short.')
         group = tuple(self.group(x))
-        accumulator = self.accumulators.get(group, None)
+        try:
+            accumulator = self.accumulators.get(group, None)
+        except TypeError:
+            raise marcel.exception.KillCommandException(f'{group} is not hashable')
         if accumulator is None:
             accumulator = [None] * self.n
-            self.accumulators[group] = accumulator
+        # Update the accumulator only if all functions succeed
+        updated = []
         for i in range(self.n):
             reducer = op.functions[i]
-            accumulator[i] = x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i])
+            updated.append(x[i] if reducer.is_grouping() else op.call(env, reducer, accumulator[i], x[i]))
+        self.accumulators[group] = updated
         if op.incremental:
-            op.send(env, x + tuple(self.data(accumulator)))
+            op.send(env, tuple(x) + self.output(self.data(updated)))
 
     def flush(self, env):
         op = self.op
-- 
2.43.0


From 48110c4d933ed912d911298b3a5020aa4d3d4b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 012/103] fix: HOST and ITALIC are immutable

---
 marcel/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index f07fad7..03db665 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -90,7 +90,7 @@ class Environment(object):
                                            'Color',
                                            'DIRS',
                                            'HOME',
-                                           'HOST'
+                                           'HOST',
                                            'ITALIC',
                                            'MARCEL_VERSION',
                                            'pos',
-- 
2.43.0


From 2929b37ad7ed67339ce88f65a9ba985e874a51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 013/103] fix: a pipeline parameter hides an outer variable
 only while the pipeline runs

---
 marcel/nestednamespace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index 1f82318..b52a9cf 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -307,6 +307,7 @@ class Scope(dict):
         super().__init__()
         self.parent = parent
         self.params = [] if params is None else params
+        self.shadowed = {}  # Values of outer variables hidden by params
         self.env = env
         if parent is None:
             # Must be topmost scope
@@ -412,8 +413,10 @@ class NestedNamespace(dict):
 
     def push_scope(self, bindings):
         assert self.env
-        self.scopes.append(Scope(self.env, self.current_scope(), bindings))
+        scope = Scope(self.env, self.current_scope(), bindings)
+        self.scopes.append(scope)
         if bindings:
+            scope.shadowed = {var: self[var] for var in bindings if var in self}
             for var, value in bindings.items():
                 self[var] = value
 
@@ -426,6 +429,7 @@ class NestedNamespace(dict):
         popped_scope = self.scopes.pop()
         for var in popped_scope.keys():
             super().__delitem__(var)
+        super().update(popped_scope.shadowed)
         # Don't have to reset the topmost scope, and that can be problematic anyway, e.g. if env isn't
         # known and EnvValue cache is unset.
         for scope in self.scopes[1:]:
-- 
2.43.0


From adcb8f330ad5a147c79b600fb19c19e0c49c561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 014/103] fix: window: report a failing predicate instead of
 crashing

---
 marcel/op/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/window.py b/marcel/op/window.py
index 0e646f0..dac2804 100644
--- a/marcel/op/window.py
+++ b/marcel/op/window.py
@@ -137,7 +137,7 @@ class Window(marcel.core.Op):
         if self.disjoint:
             options.append(f'disjoint={self.disjoint}')
         if self.predicate:
-            options.append(f'predicate={self.predicate.source()}')
+            options.append(f'predicate={self.predicate.snippet()}')
         return f'window({", ".join(options)})'
 
     # AbstractOp
-- 
2.43.0


From 3f34d1b41ebb61250b5ad83cfc17913ca93c767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 015/103] fix: union: deliver the output of the arguments once,
 however often flush is called

---
 marcel/op/union.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/op/union.py b/marcel/op/union.py
index d567203..4855692 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -73,7 +73,10 @@ class Union(marcel.core.Op):
         self.send(env, x)
 
     def flush(self, env):
-        for pipeline in self.inputs:
+        # Flush may be called repeatedly.
+        inputs = self.inputs
+        self.inputs = []
+        for pipeline in inputs:
             pipeline.run_pipeline(env, {})
         self.propagate_flush(env)
 
-- 
2.43.0


From 59939c676743286e8e8704936020ea568b730295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 016/103] fix: a pipeline containing reverse or union can be
 described in an error message

---
 marcel/op/reverse.py | 3 +++
 marcel/op/union.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/marcel/op/reverse.py b/marcel/op/reverse.py
index 463b08f..52d4bd6 100644
--- a/marcel/op/reverse.py
+++ b/marcel/op/reverse.py
@@ -40,6 +40,9 @@ class Reverse(marcel.core.Op):
         super().__init__()
         self.contents = []
 
+    def __repr__(self):
+        return 'reverse()'
+
     # AbstractOp
 
     def setup(self, env):
diff --git a/marcel/op/union.py b/marcel/op/union.py
index 4855692..9032fed 100644
--- a/marcel/op/union.py
+++ b/marcel/op/union.py
@@ -108,6 +108,9 @@ class PropagateFlushFromLast(marcel.core.Op):
         super().__init__()
         self.last = last
 
+    def __repr__(self):
+        return f'propagateflushfromlast({self.last})'
+
     # Op
 
     def receive(self, env, x):
-- 
2.43.0


From cc0f723548ca9624b109a383d97311337a6fd517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 017/103] fix: filter: pos() in the compare function

---
 marcel/op/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index fe6c3da..61ee77d 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -114,9 +114,10 @@ class Filter(marcel.core.Op):
             self.compare = lambda *x: x
 
     def receive(self, env, x):
+        # Before loading right, which changes env.current_op, needed by pos().
+        c = marcel.util.wrap_op_input(self.call(env, self.compare, *x))
         if self.right is None:
             self.load_right(env)
-        c = marcel.util.wrap_op_input(self.call(env, self.compare, *x))
         try:
             if (c in self.right) == self.keep:
                 self.send(env, x)
-- 
2.43.0


From 029279f25b814c4258cdd1f4f5ba336ab233d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 018/103] fix: args: do not modify a pipeline which is the
 value of a variable

---
 marcel/op/args.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marcel/op/args.py b/marcel/op/args.py
index 5a98ab6..d52d724 100644
--- a/marcel/op/args.py
+++ b/marcel/op/args.py
@@ -66,6 +66,7 @@ class Args(marcel.core.Op):
         super().__init__()
         self.all = None
         self.pipeline = None
+        self.body = None  # pipeline, modified to send its output to this op's receiver
         self.n_params = None
         self.args = None
 
@@ -84,7 +85,7 @@ class Args(marcel.core.Op):
         self.args.append(unwrap_op_output(x))
         if not self.all and len(self.args) == self.n_params:
             try:
-                self.pipeline.run_pipeline(env, self.bindings())
+                self.body.run_pipeline(env, self.bindings())
             finally:
                 self.args.clear()
 
@@ -96,7 +97,7 @@ class Args(marcel.core.Op):
                 while len(self.args) < self.n_params:
                     self.args.append(None)
             try:
-                self.pipeline.run_pipeline(env, self.bindings())
+                self.body.run_pipeline(env, self.bindings())
             finally:
                 self.args.clear()
                 # Need to ensure that flush is propagated no matter what happens
@@ -120,7 +121,8 @@ class Args(marcel.core.Op):
             raise marcel.exception.KillCommandException(error)
 
     def customize_pipelines(self, env):
-        self.pipeline = self.pipeline.append_immutable(marcel.op.redirect.Redirect(self))
+        # Copy, because the pipeline may be the value of a variable, or may be executed elsewhere too.
+        self.body = self.pipeline.copy().append_immutable(marcel.op.redirect.Redirect(self))
 
     def ensure_functions_compiled(self, env):
         self.pipeline.ensure_functions_compiled(env)
-- 
2.43.0


From 2efac1169403ab232caa3ac318907a3850e6247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 019/103] fix: refuse a named pipeline argument which is not a
 parameter

---
 marcel/op/runpipeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 0de9303..9ad3b01 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -53,6 +53,10 @@ class RunPipeline(marcel.core.Op):
         if n_params < n_args + n_kwargs:
             raise marcel.exception.KillCommandException(
                 f'Too many arguments for pipeline {self.var} = {self.pipeline}')
+        for kwarg in self.kwargs.keys():
+            if kwarg not in self.pipeline.parameters():
+                raise marcel.exception.KillCommandException(
+                    f'{kwarg} is not a parameter of pipeline {self.var} = {self.pipeline}')
         # Why copy: A pipelines can be used twice in a command, e.g.
         #    f = (| a: ... |)
         #    f (1) | join (| f (2) |)
-- 
2.43.0


From f9dc6d4dbd85d4dba2001e6c753747c1559d57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 020/103] fix: case: route the output of a branch which ends in
 a pipeline variable

---
 marcel/op/case.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index 21d71f5..c0aab22 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -137,8 +137,9 @@ class Case(marcel.core.Op):
             try:
                 if not isinstance(pipeline, marcel.pipeline.Pipeline):
                     raise marcel.exception.KillCommandException(f'Expected pipeline, found {arg}')
-                # Copy, so that each execution starts with fresh op state.
-                pipeline = pipeline.copy()
+                # Copy, so that each execution starts with fresh op state. Redirect output before setup,
+                # which determines where a pipeline run by the branch's last op sends its output.
+                pipeline = pipeline.copy().append_immutable(marcel.op.redirect.Redirect(self))
                 pipeline.setup(env)
                 return pipeline
             except Exception as e:
@@ -163,12 +164,3 @@ class Case(marcel.core.Op):
                 predicate = None
         if len(self.args) & 1 == 1:
             self.default_pipeline = pipeline(self.args[-1])
-
-    def customize_pipelines(self, env):
-        def redirect():
-            return marcel.op.redirect.Redirect(self)
-
-        if self.default_pipeline:
-            self.default_pipeline = self.default_pipeline.append_immutable(redirect())
-        for branch in self.branches:
-            branch.pipeline = branch.pipeline.append_immutable(redirect())
-- 
2.43.0


From a4488a6d9de93eb2390ad0f1c8c76ef0740fcb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 021/103] fix: join: an empty row yields an Error instead of a
 crash

---
 marcel/op/join.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/join.py b/marcel/op/join.py
index 970242f..0476e06 100644
--- a/marcel/op/join.py
+++ b/marcel/op/join.py
@@ -111,6 +111,8 @@ class Join(marcel.core.Op):
             self.loader.run_pipeline(env, {})
             self.first = False
         x = tuple(x)
+        if len(x) == 0:
+            self.fatal_error(env, str(x), 'There is nothing to join on.')
         join_value = x[0]
         try:
             match = self.inner.get(join_value, None)
-- 
2.43.0


From abe52a74950973210da230e5e50b3af4ce0deaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 022/103] fix: each builtin has its own value, without relying
 on the startup script to import it

---
 marcel/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index 03db665..4eb4c30 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -155,7 +155,7 @@ class Environment(object):
         perm['set_db_default'] = lambda env: lambda db: env.workspace.setvar('DB_DEFAULT', db)
         for key, value in marcel.builtin.__dict__.items():
             if not key.startswith('_'):
-                perm[key] = lambda env: value
+                perm[key] = lambda env, value=value: value
         return perm
 
     def assign_permanent(self, var, value):
-- 
2.43.0


From dda335b6723826987b8ee7a5e99e5a8f46033a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 023/103] fix: WORKSPACE is immutable, like other variables
 supplied by marcel

---
 marcel/env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/env.py b/marcel/env.py
index 4eb4c30..ee29cd0 100644
--- a/marcel/env.py
+++ b/marcel/env.py
@@ -96,7 +96,8 @@ class Environment(object):
                                            'pos',
                                            'PROMPT',
                                            'PWD',
-                                           'USER'))
+                                           'USER',
+                                           'WORKSPACE'))
         self.platform = marcel.plat.Platform.create()
 
     def __getstate__(self):
-- 
2.43.0


From 63316a1a83c0c1a920a3bf1c9c48cf10524ae0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 024/103] fix: assignment of a function whose first argument is
 starred, e.g. f = (*x: len(x))

---
 marcel/function_args_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marcel/function_args_parser.py b/marcel/function_args_parser.py
index 718e8a9..170e313 100644
--- a/marcel/function_args_parser.py
+++ b/marcel/function_args_parser.py
@@ -122,6 +122,7 @@ class FunctionArgsParser(object):
         return State.END
 
     def star_name(self):
+        self.has_args = True
         return State.ARG
 
     def arg_comma(self):
-- 
2.43.0


From 186a519ebe6c152ec10910b390c77702e8a68c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 025/103] fix: items appended to a stored stream or pickle file
 read back as written

---
 marcel/picklefile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index f832698..f026073 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -142,12 +142,16 @@ class Writer(Access):
         self.append = append
         owner.path.touch(mode=0o600)
         self.file = open(owner.path, 'ab' if self.append else 'wb')
-        self.pickler = dill.Pickler(self.file)
+        # Protocol 3: Unlike later protocols, it identifies memoized objects explicitly. A Reader sees what several
+        # Writers have appended as one stream, and couldn't otherwise tell which object is referred to.
+        self.pickler = dill.Pickler(self.file, protocol=3)
         self.last_flush = time.time()
 
     def write(self, x):
         assert self.file is not None
         try:
+            # Each item is pickled as it is now, even if (part of) it has been written before.
+            self.pickler.clear_memo()
             self.pickler.dump(x)
             now = time.time()
             if now - self.last_flush > Writer.FLUSH_INTERVAL_SEC:
-- 
2.43.0


From dfc12a90c7d8e7a777a1807d6d8a93e5ccb3924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 026/103] fix: a deleted variable is removed from its scope,
 not only from the current namespace

---
 marcel/object/workspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 74d5c10..35e7ded 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -149,7 +149,8 @@ class VarHandler(object):
         self.check_mutability(var)
         if var in self.namespace:
             self.vars_written.discard(var)
-            value = self.namespace.pop(var)
+            value = self.namespace[var]
+            del self.namespace[var]
             if type(value) is marcel.reservoir.Reservoir:
                 value.ensure_deleted()
             return value
-- 
2.43.0


From 13ec908f146bdf1f947f7cd5b0839f8c8f067294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 027/103] fix: the end of a pipeline does not revive deleted
 parameters of the pipelines around it

---
 marcel/nestednamespace.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index b52a9cf..ddfc5a6 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -422,19 +422,12 @@ class NestedNamespace(dict):
 
     def pop_scope(self):
         assert len(self.scopes) > 0
-        # There are other ways to restore the namespace resulting from exiting the current scope.
-        # This is simplest and not obviously too slow:
-        # - Remove (var, value) entries for vars in the scope being popped.
-        # - Insert (var, value) entries for remaining scopes, outermost first.
+        # Remove the vars of the scope being popped, and restore the outer vars that they were hiding. Nothing else
+        # changed: assignment to any other var, or its deletion, has been done in the scope that has it.
         popped_scope = self.scopes.pop()
         for var in popped_scope.keys():
             super().__delitem__(var)
         super().update(popped_scope.shadowed)
-        # Don't have to reset the topmost scope, and that can be problematic anyway, e.g. if env isn't
-        # known and EnvValue cache is unset.
-        for scope in self.scopes[1:]:
-            for var, value in scope.items():
-                super().__setitem__(var, value.unwrap())
 
     def current_scope(self):
         return self.scopes[-1]
-- 
2.43.0


From f07f6d92c6394529067de3c4e12728bb2e537b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 028/103] fix: close load's and store's files when the
 pipeline's setup fails or they never run

---
 marcel/core.py           |  5 +++++
 marcel/op/case.py        |  6 ++++++
 marcel/op/load.py        | 29 +++++++++++++++++++++++++----
 marcel/op/runpipeline.py |  4 ++++
 marcel/op/store.py       |  4 ++++
 marcel/picklefile.py     | 27 ++++++++++++++-------------
 marcel/pipeline.py       | 28 ++++++++++++++++++++++------
 7 files changed, 80 insertions(+), 23 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 1badfc8..bb5767e 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -127,6 +127,11 @@ class Op(AbstractOp):
     def cleanup(self):
         pass
 
+    # Setup of the pipeline containing this op has failed, so the pipeline will not run, and there will be no call
+    # of cleanup. This op may or may not have been set up.
+    def undo_setup(self):
+        pass
+
     def copy(self):
         copy = self.__class__()
         copy.__dict__.update(self.__dict__)
diff --git a/marcel/op/case.py b/marcel/op/case.py
index c0aab22..9d2f5c1 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -111,6 +111,12 @@ class Case(marcel.core.Op):
             self.default_pipeline.flush(env)
         self.propagate_flush(env)
 
+    def undo_setup(self):
+        for branch in self.branches or []:
+            branch.pipeline.undo_setup()
+        if self.default_pipeline:
+            self.default_pipeline.undo_setup()
+
     def cleanup(self):
         for branch in self.branches:
             branch.pipeline.cleanup()
diff --git a/marcel/op/load.py b/marcel/op/load.py
index f8ee8a4..46cfae9 100644
--- a/marcel/op/load.py
+++ b/marcel/op/load.py
@@ -97,17 +97,38 @@ class Load(marcel.core.Op):
         elif self.var is not None:
             raise marcel.exception.KillCommandException(
                 f'The type of {self.var} is {type(self.var)}. Only a Reservoir can be loaded')
-        self.reader = iter(self.picklefile)
+        self.open_reader()
 
     def run(self, env):
+        if self.reader.file is None:
+            # This op has been run already (e.g. in a branch of a case), and is being run again.
+            self.open_reader()
+        reader = self.reader
         try:
             while True:
-                self.send(env, next(self.reader))
+                self.send(env, next(reader))
         except StopIteration:
-            self.reader.close()
+            reader.close()
         except:
-            self.reader.close()
+            reader.close()
             raise
 
+    def undo_setup(self):
+        self.cleanup()
+
+    def cleanup(self):
+        if self.reader is not None:
+            self.reader.close()
+
+    # Internal
+
+    def open_reader(self):
+        try:
+            self.reader = self.picklefile.reader()
+        except marcel.picklefile.PickleFileUsageError:
+            raise marcel.exception.KillCommandException(f'load {self.var}: Pickle file already in use')
+
+    # Op
+
     def must_be_first_in_pipeline(self):
         return True
diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 9ad3b01..28b9b7d 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -96,6 +96,10 @@ class RunPipeline(marcel.core.Op):
         finally:
             env.vars().pop_scope()
 
+    def undo_setup(self):
+        if self.pipeline:
+            self.pipeline.undo_setup()
+
     def cleanup(self):
         if self.pipeline:
             self.pipeline.cleanup()
diff --git a/marcel/op/store.py b/marcel/op/store.py
index 056ff9d..1853345 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -126,5 +126,9 @@ class Store(marcel.core.Op):
             self.writer.close()
             raise
 
+    def undo_setup(self):
+        if self.writer is not None:
+            self.writer.close()
+
     def cleanup(self):
         self.writer.close()
diff --git a/marcel/picklefile.py b/marcel/picklefile.py
index f026073..1ceacdd 100644
--- a/marcel/picklefile.py
+++ b/marcel/picklefile.py
@@ -27,7 +27,7 @@ class PickleFile:
 
     def __init__(self, path):
         self.path = pathlib.Path(path)
-        self._readers = {}  # path -> Reader
+        self._readers = {}  # id(Reader) -> Reader
         self._writer = None
 
     def __repr__(self):
@@ -55,7 +55,7 @@ class PickleFile:
     def reader(self):
         self.check_availability(self._writer is None)
         reader = Reader(self)
-        self._readers[self.path] = reader
+        self._readers[id(reader)] = reader
         return reader
 
     def writer(self, append):
@@ -72,13 +72,15 @@ class PickleFile:
             pass
 
     def close(self):
-        try:
-            access = self._readers.pop(self.path)
-        except KeyError:
-            access = self._writer
+        for access in [*self._readers.values(), self._writer]:
+            if access is not None:
+                access.close()
+
+    # access has been closed
+    def closed(self, access):
+        self._readers.pop(id(access), None)
+        if self._writer is access:
             self._writer = None
-        if access is not None:
-            access.close_file()
 
     # A reservoir owned by a default workspace has a filename of the form PID.varname.pickle. Return the pid,
     # or None if there is none.
@@ -99,11 +101,10 @@ class Access(object):
         self.file = None
 
     def close(self):
-        self.owner.close()
-
-    def close_file(self):
-        self.file.close()
-        self.file = None
+        if self.file is not None:
+            self.file.close()
+            self.file = None
+        self.owner.closed(self)
 
 
 class Reader(Access):
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 7ff4bae..d2e8979 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -56,13 +56,21 @@ class PipelineExecutable(object):
             if prev_op:
                 prev_op.receiver = op
             prev_op = op
+        try:
+            for op in self.ops:
+                if env.trace.is_enabled():
+                    env.trace.write(op, 'SETUP')
+                op._count = -1
+                op.setup(env)
+            for op in self.ops:
+                op.customize_pipelines(env)
+        except BaseException:
+            self.undo_setup()
+            raise
+
+    def undo_setup(self):
         for op in self.ops:
-            if env.trace.is_enabled():
-                env.trace.write(op, 'SETUP')
-            op._count = -1
-            op.setup(env)
-        for op in self.ops:
-            op.customize_pipelines(env)
+            op.undo_setup()
 
     def run(self, env):
         if env.trace.is_enabled():
@@ -214,6 +222,9 @@ class Pipeline(marcel.object.renderable.Renderable):
     def flush(self, env):
         self.executable.flush(env)
 
+    def undo_setup(self):
+        self.executable.undo_setup()
+
     def cleanup(self):
         self.executable.cleanup()
 
@@ -311,6 +322,11 @@ class PipelineMarcel(Pipeline):
                     self.scope[param] = None
         self.state = PipelineMarcel.State.SETUP
 
+    def undo_setup(self):
+        if self.executable is not None:
+            self.executable.undo_setup()
+        self.state = PipelineMarcel.State.IDLE
+
     def run_pipeline(self, env, bindings):
         assert self.state in (PipelineMarcel.State.IDLE, PipelineMarcel.State.SETUP), self.state
         params = self.executable.parameters()
-- 
2.43.0


From bf4b690b8cfc51b89a74e8112ab061c14e1baf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 029/103] fix: read --label adds the file to the tuples of
 pickle and JSON files

---
 marcel/op/read.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index e8f7648..64e5970 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -230,6 +230,12 @@ class Reader:
     def read_file(self, env, file, label):
         assert False
 
+    @staticmethod
+    def add_label(label, x):
+        return (x if label is None else
+                label + tuple(x) if type(x) in (tuple, list) else
+                label + (x,))
+
 
 class TextReader(Reader):
 
@@ -260,7 +266,7 @@ class PickleReader(Reader):
             try:
                 while True:
                     x = input.read()
-                    self.op.send(env, (label, x) if label else x)
+                    self.op.send(env, self.add_label(label, x))
             except EOFError:
                 pass
 
@@ -278,7 +284,7 @@ class JSONReader(Reader):
             lines = input.readlines()
         assert lines is not None
         json = marcel.jsonutil.JSONUtil().decoder.decode(' '.join(lines))
-        self.op.send(env, json)
+        self.op.send(env, self.add_label(label, json))
 
 
 class CSVReader(Reader):
-- 
2.43.0


From 60e5b3c63d147b4bbe4766cc30d3cad0b3109a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 030/103] fix: read -c/-t: empty lines and line breaks in
 quoted fields don't end the file

---
 marcel/op/read.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index 64e5970..71b9578 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -306,11 +306,12 @@ class CSVReader(Reader):
                                    marcel.exception.KillAndResumeException) as input:
             try:
                 first = True
-                line = input.readline()
-                while len(line) > 0:
-                    line = line.rstrip('\r\n')
-                    self.input.set_current(line)
-                    out = tuple(next(self.reader))
+                self.input.set_file(input)
+                # An empty line is a record with no fields. A quoted field may contain line breaks, so that
+                # the record occupies several lines.
+                for out in self.reader:
+                    out = tuple(out)
+                    line = self.input.take_lines().rstrip('\r\n')
                     if first and (self.headings or self.skip_headings):
                         if self.headings:
                             try:
@@ -337,7 +338,6 @@ class CSVReader(Reader):
                                 out = None
                         if out is not None:
                             self.op.send(env, out)
-                    line = input.readline()
                     first = False
             except StopIteration:
                 pass
@@ -362,18 +362,25 @@ class InputIterator:
 
     def __init__(self, op):
         self.op = op
-        self.current = None
+        self.file = None
+        self.lines = ''
 
     def __iter__(self):
         return self
 
     def __next__(self):
-        if self.current:
-            next = self.current
-            self.current = None
-            return next
-        else:
+        line = self.file.readline()
+        if len(line) == 0:
             raise StopIteration()
-
-    def set_current(self, x):
-        self.current = x
+        self.lines += line
+        return line
+
+    def set_file(self, file):
+        self.file = file
+        self.lines = ''
+
+    # Returns the lines read since the last call
+    def take_lines(self):
+        lines = self.lines
+        self.lines = ''
+        return lines
-- 
2.43.0


From 0e938c80e38f158084fdf72424df6a8a91fafa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 031/103] fix: read reports a file it cannot decode as an Error
 instead of crashing

---
 marcel/op/read.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index 71b9578..58d1899 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -15,6 +15,7 @@
 
 from collections import namedtuple
 import csv
+import json
 
 import marcel.core
 import marcel.exception
@@ -219,7 +220,10 @@ class Read(marcel.op.filenamesop.FilenamesOp):
     def read_file(op, env, file):
         assert type(file) is File, f'{type(file)} {file}'
         if file.is_file():
-            op.reader.read_file(env, file, (file,) if op.label else None)
+            try:
+                op.reader.read_file(env, file, (file,) if op.label else None)
+            except (UnicodeDecodeError, csv.Error, json.JSONDecodeError) as e:
+                op.non_fatal_error(env, file, f'{type(e).__name__}: {e}')
 
 
 class Reader:
@@ -265,7 +269,13 @@ class PickleReader(Reader):
         with marcel.picklefile.PickleFile(file.path).reader() as input:
             try:
                 while True:
-                    x = input.read()
+                    try:
+                        x = input.read()
+                    except EOFError:
+                        raise
+                    except Exception as e:
+                        self.op.non_fatal_error(env, file, f'{type(e).__name__}: {e}')
+                        break
                     self.op.send(env, self.add_label(label, x))
             except EOFError:
                 pass
-- 
2.43.0


From 00e320be421a7b84b6100fa45d71009c74bd5f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 032/103] fix: writing to a file in a missing directory is
 reported as an error of the command

---
 marcel/op/write.py | 5 ++++-
 marcel/util.py     | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index df23d78..d8cc91f 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -291,7 +291,10 @@ class PickleWriter(Writer):
     def __init__(self, op):
         super().__init__(op)
         assert op.filename is not None  # Should have been checked in setup
-        self.writer = marcel.picklefile.PickleFile(op.filename).writer(op.append)
+        try:
+            self.writer = marcel.picklefile.PickleFile(op.filename).writer(op.append)
+        except OSError as e:
+            raise marcel.exception.KillCommandException(f'Unable to open {op.filename}: {e}')
 
     def receive(self, env, x):
         self.writer.write(x)
diff --git a/marcel/util.py b/marcel/util.py
index 8de08e8..ca79d3e 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -191,8 +191,8 @@ def iterable(x):
 def open_file(path, mode, exception_class):
     try:
         return open(path, mode)
-    # FileNotFoundError should not occur. Missing files handled by FilenamesOp.
-    except (IsADirectoryError, FileExistsError, PermissionError) as e:
+    # Missing files to be read are handled by FilenamesOp. But a file to be written may be in a missing directory.
+    except (IsADirectoryError, NotADirectoryError, FileExistsError, FileNotFoundError, PermissionError) as e:
         raise exception_class(f'Unable to open {path} with mode {mode}: {str(e)}')
 
 
-- 
2.43.0


From 74bc3f3f1038e34997212284b16b06f0ffe90077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 033/103] fix: a reservoir's file is not deleted while another
 variable refers to it or a stream is being read from it

---
 marcel/object/workspace.py | 18 ++++++++++++++----
 marcel/op/runpipeline.py   |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 35e7ded..01f5e23 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -25,6 +25,7 @@ import marcel.exception
 import marcel.locations
 import marcel.nestednamespace
 import marcel.object.renderable
+import marcel.picklefile
 import marcel.reservoir
 import marcel.util
 
@@ -135,13 +136,14 @@ class VarHandler(object):
         self.check_mutability(var)
         current_value = self.namespace.get(var, None)
         self.vars_written.add(var)
-        if type(current_value) is marcel.reservoir.Reservoir and value != current_value:
-            current_value.ensure_deleted()
+        if value != current_value:
+            self.discard_reservoir(var, current_value)
         self.namespace.assign(var, value, source)
 
     def setvar_import(self, var, module, symbol, value):
         assert var is not None
         self.check_mutability(var)
+        self.discard_reservoir(var, self.namespace.get(var, None))
         self.namespace.assign_import(var, module, symbol, value)
 
     def delvar(self, var):
@@ -150,13 +152,21 @@ class VarHandler(object):
         if var in self.namespace:
             self.vars_written.discard(var)
             value = self.namespace[var]
+            self.discard_reservoir(var, value)
             del self.namespace[var]
-            if type(value) is marcel.reservoir.Reservoir:
-                value.ensure_deleted()
             return value
         else:
             raise KeyError(var)
 
+    # var is about to lose its value. If that is a Reservoir to which no other var refers, then delete its file.
+    def discard_reservoir(self, var, value):
+        if type(value) is marcel.reservoir.Reservoir:
+            if not any(v != var and reservoir == value for (v, reservoir) in self.reservoirs()):
+                try:
+                    value.ensure_deleted()
+                except marcel.picklefile.PickleFileUsageError:
+                    raise marcel.exception.KillCommandException(f'{var}: Pickle file already in use')
+
     def vars(self):
         return self.namespace
 
diff --git a/marcel/op/runpipeline.py b/marcel/op/runpipeline.py
index 28b9b7d..5ec3161 100644
--- a/marcel/op/runpipeline.py
+++ b/marcel/op/runpipeline.py
@@ -97,7 +97,7 @@ class RunPipeline(marcel.core.Op):
             env.vars().pop_scope()
 
     def undo_setup(self):
-        if self.pipeline:
+        if isinstance(self.pipeline, marcel.pipeline.PipelineMarcel):
             self.pipeline.undo_setup()
 
     def cleanup(self):
-- 
2.43.0


From f5d9dbf1dd601597c8c77735985829a58909d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 034/103] fix: preparing a case command for execution in a job
 doesn't set up the branches

---
 marcel/op/case.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/marcel/op/case.py b/marcel/op/case.py
index 9d2f5c1..fb0a125 100644
--- a/marcel/op/case.py
+++ b/marcel/op/case.py
@@ -124,13 +124,12 @@ class Case(marcel.core.Op):
             self.default_pipeline.cleanup()
 
     def ensure_functions_compiled(self, env):
-        self.ensure_args_processed(env)
-        for branch in self.branches:
-            self.ensure_function_compiled(branch.predicate, env)
-        for pipeline in self.pipelines:
-            pipeline.ensure_functions_compiled(env)
-        if self.default_pipeline:
-            self.default_pipeline.ensure_functions_compiled(env)
+        # The args have not been processed yet, and processing them sets up pipelines, which must be done by setup.
+        for arg in self.args:
+            if isinstance(arg, marcel.pipeline.Pipeline):
+                arg.ensure_functions_compiled(env)
+            else:
+                self.ensure_function_compiled(arg, env)
 
     # Internal
 
-- 
2.43.0


From 230fec151ee6076f7cfffd00119afda8b110cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 035/103] fix: arguments given as expressions are compiled in
 the process of a job

---
 marcel/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/core.py b/marcel/core.py
index bb5767e..5755f40 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -173,6 +173,8 @@ class Op(AbstractOp):
         def call(x):
             try:
                 if isinstance(x, marcel.function.Function):
+                    # The compiled function is lost when a command is sent to the process of a job.
+                    x.ensure_compiled(env.workspace.namespace)
                     x = self.call(env, x)
                 else:
                     x = x()
-- 
2.43.0


From 5467a0777a4795f9e7176e5485a1449d057dcbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 036/103] fix: fork waits for each of its processes to end

---
 marcel/op/forkmanager.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 1ba4e30..1e84144 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -100,14 +100,10 @@ class ForkManager(object):
         for worker in self.workers:
             worker.start()
             dump(f'{self} started {worker}')
-        completed = 0
-        w = 0
-        while completed < len(self.workers):
-            more = self.workers[w].consume_input()
-            if not more:
-                completed += 1
-            w = (w + 1) % len(self.workers)
-            dump(f'completed: {completed}')
+        active = list(self.workers)
+        while len(active) > 0:
+            active = [worker for worker in active if worker.consume_input()]
+            dump(f'active: {len(active)}')
         for worker in self.workers:
             worker.close()
 
-- 
2.43.0


From f7365a5d64554a6aef04b571c2e4783918a9dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 037/103] fix: functions of a pipeline run by fork are compiled
 in the child process

---
 marcel/op/forkmanager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 1e84144..927ae68 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -61,6 +61,7 @@ class SendToParent(marcel.core.Op):
 def run_pipeline_in_child(env, pipeline, thread_id, writer):
     try:
         pipeline = dill.loads(pipeline)
+        pipeline.ensure_functions_compiled(env)
         pipeline.append(SendToParent(writer, thread_id))
         params = pipeline.parameters()
         bindings = {} if len(params) == 0 else {params[0]: thread_id}
-- 
2.43.0


From f073913fdd6f6e9bbc44b60c8247000d6b1cf43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 038/103] fix: errors and failures of fork's processes arrive
 as errors, none lost

---
 marcel/op/forkmanager.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 927ae68..ec8b992 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -54,8 +54,8 @@ class SendToParent(marcel.core.Op):
         self.writer.send(dill.dumps(error))
 
     def cleanup(self):
-        dump(f'{self} cleanup, close writer {id(self.writer)}')
-        self.writer.close()
+        # run_pipeline_in_child closes the writer
+        dump(f'{self} cleanup {id(self.writer)}')
 
 
 def run_pipeline_in_child(env, pipeline, thread_id, writer):
@@ -66,13 +66,18 @@ def run_pipeline_in_child(env, pipeline, thread_id, writer):
         params = pipeline.parameters()
         bindings = {} if len(params) == 0 else {params[0]: thread_id}
         dump(f'child running pipeline {pipeline}, writer {id(writer)}')
-        pipeline.run_pipeline(env, bindings)  # Closes writer
+        pipeline.run_pipeline(env, bindings)
+    except marcel.exception.KillAndResumeException:
+        # The error has been sent already
+        pass
+    except marcel.exception.KillCommandException as e:
+        writer.send(dill.dumps(marcel.object.error.Error(str(e))))
     except BaseException as e:
         dump(f'caught {type(e)}: {e}')
         marcel.util.print_stack_of_current_exception()
-        writer.send(dill.dumps(e))
-        writer.close()
+        writer.send(dill.dumps(marcel.object.error.Error(f'{type(e)}: {e}')))
     finally:
+        writer.close()
         dump(f'closed writer {id(writer)}')
 
 
@@ -170,7 +175,10 @@ class ForkWorker(object):
                 input = self.reader.recv()
                 x = dill.loads(input)
                 dump(f'{self} consume_input receive {x}')
-                self.op.send(self.env, x)
+                if isinstance(x, marcel.object.error.Error):
+                    self.op.send_error(self.env, x)
+                else:
+                    self.op.send(self.env, x)
         except EOFError:
             dump(f'{self} consume_input EOF')
             self.writer.close()
-- 
2.43.0


From 29e2e01285decc381a419cf7228e3be3adcbdf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 039/103] fix: read -c keeps carriage returns in quoted fields,
 and does not apply the headings of another file

---
 marcel/op/read.py | 5 ++++-
 marcel/util.py    | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/marcel/op/read.py b/marcel/op/read.py
index 58d1899..e048139 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -311,11 +311,14 @@ class CSVReader(Reader):
         self.n_columns = None
 
     def read_file(self, env, file, label):
+        # Line breaks inside quoted fields are data, and must not be translated.
         with marcel.util.open_file(file.path,
                                    'r',
-                                   marcel.exception.KillAndResumeException) as input:
+                                   marcel.exception.KillAndResumeException,
+                                   newline='') as input:
             try:
                 first = True
+                self.named_tuple = None
                 self.input.set_file(input)
                 # An empty line is a record with no fields. A quoted field may contain line breaks, so that
                 # the record occupies several lines.
diff --git a/marcel/util.py b/marcel/util.py
index ca79d3e..6ab05a5 100644
--- a/marcel/util.py
+++ b/marcel/util.py
@@ -188,9 +188,9 @@ def iterable(x):
     return isinstance(x, collections.abc.Iterable)
 
 
-def open_file(path, mode, exception_class):
+def open_file(path, mode, exception_class, newline=None):
     try:
-        return open(path, mode)
+        return open(path, mode, newline=newline)
     # Missing files to be read are handled by FilenamesOp. But a file to be written may be in a missing directory.
     except (IsADirectoryError, NotADirectoryError, FileExistsError, FileNotFoundError, PermissionError) as e:
         raise exception_class(f'Unable to open {path} with mode {mode}: {str(e)}')
-- 
2.43.0


From 449992e9b26f2a89e140f3ae634ef34dc2909b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 040/103] fix: write -c/-t/-f writes Errors as they are instead
 of failing on or losing them

---
 marcel/op/write.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/marcel/op/write.py b/marcel/op/write.py
index d8cc91f..70ec29e 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -157,7 +157,7 @@ class Write(marcel.core.Op):
     def receive_error(self, env, error):
         if env.trace.is_enabled():
             env.trace.write(self, error)
-        self.writer.receive(env, error)
+        self.writer.receive_error(env, error)
 
     def flush(self, env):
         self.writer.flush(env)
@@ -193,6 +193,9 @@ class Writer(object):
     def receive(self, env, x):
         assert False
 
+    def receive_error(self, env, error):
+        self.receive(env, error)
+
     def flush(self, env):
         pass
 
@@ -213,6 +216,10 @@ class TextWriter(Writer):
         if self.output() != sys.stdout:
             self.output().close()
 
+    # Errors are not subject to formatting specifications.
+    def receive_error(self, env, error):
+        self.write_line(error.render_full(None))
+
     def write_line(self, x):
         print(x, file=self.output(), flush=True)
 
@@ -282,6 +289,9 @@ class DefaultWriter(TextWriter):
                 assert False, type(x)
         self.write_line(out)
 
+    def receive_error(self, env, error):
+        self.receive(env, error)
+
     def color_scheme(self):
         return self._color_scheme if self.output() == sys.__stdout__ else None
 
-- 
2.43.0


From 7273412787df704d75455fa28212c29505ff3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 041/103] fix: a variable set by import in a job is handed to
 the shell

---
 marcel/object/workspace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 01f5e23..4a0fadc 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -143,6 +143,7 @@ class VarHandler(object):
     def setvar_import(self, var, module, symbol, value):
         assert var is not None
         self.check_mutability(var)
+        self.vars_written.add(var)
         self.discard_reservoir(var, self.namespace.get(var, None))
         self.namespace.assign_import(var, module, symbol, value)
 
-- 
2.43.0


From c0cff520a790df59c1f2b975504bdc142f23fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:50 +0000
Subject: [PATCH 042/103] fix: a variable deleted in a job is deleted in the
 shell

---
 marcel/main.py             |  6 +++++-
 marcel/object/workspace.py | 12 ++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/marcel/main.py b/marcel/main.py
index d79147b..c3ebb57 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -249,7 +249,11 @@ class MainInteractive(MainScript):
             # PWD wasn't changed
             pass
         for var, value in child_namespace_changes.items():
-            self.env.setvar(var, value)
+            if isinstance(value, marcel.object.workspace.DeletedVar):
+                if self.env.hasvar(var):
+                    self.env.delvar(var)
+            else:
+                self.env.setvar(var, value)
 
     def check_for_config_update(self):
         config_path = self.env.locations.config_ws_startup(self.env.workspace)
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 4a0fadc..e82249c 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -104,6 +104,11 @@ class WorkspaceProperties(object):
         self.save_time = persistent['save_time']
 
 
+# Stands for the value of a deleted variable, in VarHandler.changes().
+class DeletedVar(object):
+    pass
+
+
 class VarHandler(object):
     MISSING_VAR = object()
 
@@ -114,6 +119,7 @@ class VarHandler(object):
         # Vars that have changed during execution of a command. Returned from Job execution
         # So that changes can be applied in the main process's namespace.
         self.vars_written = set()
+        self.vars_deleted = set()
         # Immutability of immutable_vars is enforced during normal operation.
         # Marcel startup/shutdown is permitted to change these vars by turning off
         # enforcement.
@@ -152,6 +158,7 @@ class VarHandler(object):
         self.check_mutability(var)
         if var in self.namespace:
             self.vars_written.discard(var)
+            self.vars_deleted.add(var)
             value = self.namespace[var]
             self.discard_reservoir(var, value)
             del self.namespace[var]
@@ -188,10 +195,15 @@ class VarHandler(object):
             value = self.namespace.get(var, VarHandler.MISSING_VAR)
             if value is not VarHandler.MISSING_VAR:
                 changes[var] = value
+        for var in self.vars_deleted:
+            # A deleted pipeline param may have been hiding a var which still exists.
+            if var not in self.namespace:
+                changes[var] = DeletedVar()
         return changes
 
     def clear_changes(self):
         self.vars_written.clear()
+        self.vars_deleted.clear()
 
     def add_written(self, var):
         self.vars_written.add(var)
-- 
2.43.0


From 2b0f35c8a65bae8ef9e0e2b4ed6bdb5fc1ee8fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:50 +0000
Subject: [PATCH 043/103] fix: variables changed by a job are handed to the
 shell when the command fails afterwards

---
 marcel/job.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/job.py b/marcel/job.py
index 0fd5e3e..26ec734 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -63,6 +63,7 @@ def debug(message):
 def run_command_in_child(env, command, writer):
     debug(f'running: {command.source}')
     child_namespace_changes = None
+    env.clear_changes()
     try:
         command.ensure_functions_compiled(env)
         child_namespace_changes = command.execute(env, remote=True)
@@ -70,10 +71,12 @@ def run_command_in_child(env, command, writer):
     except marcel.exception.KillCommandException as e:
         debug(f'caught {e}')
         marcel.util.print_to_stderr(env, e)
+        # The command may have changed variables before it failed.
+        child_namespace_changes = env.changes()
     except marcel.exception.KillAndResumeException as e:
         debug(f'caught {e}')
         # Error handler printed the error
-        pass
+        child_namespace_changes = env.changes()
     except KeyboardInterrupt as e:
         debug(f'caught {e}')
         raise
-- 
2.43.0


From bc92929011890567f24b3a35a817338db0b4102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:50 +0000
Subject: [PATCH 044/103] fix: the next command is run after the changes of the
 foreground job were applied

---
 marcel/job.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/marcel/job.py b/marcel/job.py
index 26ec734..d975db8 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -19,6 +19,7 @@ import multiprocessing.connection as mpc
 import signal
 import sys
 import threading
+import time
 
 import dill
 
@@ -104,6 +105,7 @@ class Job:
         self.command = command
         self.state = Job.RUNNING_FOREGROUND
         self.process = None
+        self.listener = None
         self.start_process()
 
     def __repr__(self):
@@ -173,6 +175,7 @@ class Job:
         # other direction
         debug(f'About to spawn process for {self.command.source}')
         reader, writer = mp.Pipe(duplex=False)
+        self.listener = reader
         JobControl.only.child_listener.add_listener(reader)
         debug('Job.start_process')
         self.process = mp.Process(target=run_command_in_child, args=(self.env, self.command, writer))
@@ -203,6 +206,8 @@ class Job:
 
 class ChildListener(threading.Thread):
 
+    MAX_WAIT_SEC = 10
+
     def __init__(self, child_completion_handler):
         super().__init__()
         self.daemon = True
@@ -221,10 +226,11 @@ class ChildListener(threading.Thread):
         to_remove = []
         while True:
             self.waiter.acquire()
-            # Remove any listeners that threw EOFError in a previous iteration
+            # Remove any listeners that are done, or threw EOFError in a previous iteration
             for listener in to_remove:
                 self.listeners.remove(listener)
             to_remove.clear()
+            self.waiter.notify_all()
             # Wait until a listener has something
             while not self.stop and len(self.listeners) == 0:
                 self.waiter.wait(1)
@@ -239,7 +245,19 @@ class ChildListener(threading.Thread):
                     if input is not None:
                         self.child_completion_handler(dill.loads(input))
                 except EOFError:
-                    to_remove.append(listener)
+                    pass
+                except Exception as e:
+                    # The other jobs still need a listener.
+                    print(f'Unable to apply the changes made by a job: {e}', file=sys.stderr)
+                # There is at most one message from each job.
+                to_remove.append(listener)
+
+    # Wait until what was sent by a job, whose process has ended, has been handled.
+    def wait_for(self, listener):
+        deadline = time.time() + ChildListener.MAX_WAIT_SEC
+        with self.waiter:
+            while listener in self.listeners and self.is_alive() and time.time() < deadline:
+                self.waiter.wait(0.1)
 
     def stop_listening(self):
         self.stop = True
@@ -299,6 +317,10 @@ class JobControl:
         while foreground and foreground.state != Job.DEAD:
             foreground.process.join(0.1)
             foreground = self.foreground()
+        # The next command must see the changes made by a job that has ended.
+        for job in self._jobs:
+            if job.state == Job.DEAD:
+                self.child_listener.wait_for(job.listener)
         debug(f'idle')
 
     def ctrl_c_handler(self, signum, frame):
-- 
2.43.0


From e01514fdf19c5e415a256dedc3bd8df06760381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:44 +0000
Subject: [PATCH 045/103] fix: variables sharing a reservoir keep sharing it
 after a job has used one of them

---
 marcel/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/main.py b/marcel/main.py
index c3ebb57..da42633 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -253,6 +253,9 @@ class MainInteractive(MainScript):
                 if self.env.hasvar(var):
                     self.env.delvar(var)
             else:
+                # Vars sharing a reservoir must share the object, which tracks the use of the reservoir.
+                if isinstance(value, marcel.reservoir.Reservoir):
+                    value = next((r for _, r in self.env.workspace.reservoirs() if r == value), value)
                 self.env.setvar(var, value)
 
     def check_for_config_update(self):
-- 
2.43.0


From c1c8964833d77cbdb1be84d5ee11b4b8f4e8d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 046/103] fix: an error in the startup script of the default
 workspace ends marcel instead of starting it forever

---
 marcel/main.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index da42633..779ed7f 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -292,7 +292,11 @@ def main_interactive_run():
     def env_and_main(old_env, old_main, workspace):
         try:
             env = marcel.env.EnvironmentInteractive.create(workspace=workspace, trace=trace)
-        except Exception as e:
+        except marcel.exception.StartupScriptException as e:
+            return startup_script_failed(old_env, old_main, workspace, e)
+        except (Exception, marcel.exception.KillCommandException) as e:
+            if workspace.is_default():
+                raise
             # Something ws-related? Try starting in default
             marcel.util.print_to_stderr(
                 old_env,
@@ -304,14 +308,17 @@ def main_interactive_run():
             main.run_startup_scripts()
             return env, main
         except marcel.exception.StartupScriptException as e:
-            if workspace.is_default():
-                marcel.util.print_to_stderr(env, 'Error in startup script for default workspace.')
-                marcel.util.print_to_stderr(env, 'Fix the startup script and try again.')
-                sys.exit(1)
-            else:
-                print(str(e), file=sys.stderr)
-                marcel.util.print_to_stderr(env, 'Trying default workspace ...')
-                return env_and_main(old_env, old_main, Workspace.default())
+            return startup_script_failed(env, old_main, workspace, e)
+
+    def startup_script_failed(env, old_main, workspace, e):
+        print(str(e), file=sys.stderr)
+        if workspace.is_default():
+            marcel.util.print_to_stderr(env, 'Error in startup script for default workspace.')
+            marcel.util.print_to_stderr(env, 'Fix the startup script and try again.')
+            sys.exit(1)
+        else:
+            marcel.util.print_to_stderr(env, 'Trying default workspace ...')
+            return env_and_main(env, old_main, Workspace.default())
 
     main = None
     trace = None
@@ -390,7 +397,8 @@ def main():
                 raise marcel.exception.KillShellException('Unable to determine input source!')
             started = True
         except marcel.exception.StartupScriptException as e:
-            print(str(e), file=sys.stderr)
+            # Starting again would run the same script, and fail again.
+            fail(str(e))
         except:
             raise
 
-- 
2.43.0


From 884f89ba147f99af7062c8ae3fe6091ac81a3348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 047/103] fix: the workspace of a process which died can be
 opened

---
 marcel/object/workspace.py | 39 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index e82249c..37982a0 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -410,7 +410,11 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             # Lock the file by renaming it. Check for success, to guard against another process trying to
             # lock the same workspace.
             owned_marker_path = self.marker.owned()
-            self.marker.unowned().rename(owned_marker_path)
+            try:
+                self.marker.unowned().rename(owned_marker_path)
+            except FileNotFoundError:
+                # Another process was faster.
+                return False
             return owned_marker_path.exists()
         elif owner == self.locations.pid:
             # Already locked
@@ -419,16 +423,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             # Locked by parent. This process must be owned by a job executing on behalf of the parent.
             return True
         else:
-            # Locked by another process
-            if marcel.util.process_exists(owner):
-                return False
-            else:
-                # Owner disappeared. Steal the marker file.
-                abandoned_marker_path = self.marker.owned(owner)
-                owned_marker_path = self.marker.owned()
-                abandoned_marker_path.rename(owned_marker_path)
-                # If owned_marker_path doesn't exist, another process was stealing the file at exactly the same time?!
-                return owned_marker_path.exists()
+            # Locked by another process, which existed when owner() was called.
+            return False
 
     def unlock_workspace(self):
         assert not self.is_default()
@@ -475,12 +471,12 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def owner(self):
         # Should only need this for named workspaces.
         assert not self.is_default()
-        if self.marker.unowned().exists():
-            return None
         if not self.locations.config_ws(self).exists():
             return None
-        # First get rid of any markers from processes that don't exist. Shouldn't happen, but still.
-        self.delete_abandoned_markers()
+        # First release any markers from processes that don't exist. Shouldn't happen, but still.
+        self.release_abandoned_markers()
+        if self.marker.unowned().exists():
+            return None
         # Now find the marker. Something is very wrong if there is anything other than one.
         marker_filename = None
         for file in self.locations.config_ws(self).iterdir():
@@ -507,12 +503,16 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             data_target = locations.data_bws(self, now)
             shutil.move(data_source, data_target)
 
-    def delete_abandoned_markers(self):
+    # The workspace of a process that no longer exists is not in use.
+    def release_abandoned_markers(self):
         for file in self.locations.config_ws(self).iterdir():
             if file.name.startswith(Marker.FILENAME_ROOT) and len(file.name) > len(Marker.FILENAME_ROOT):
                 pid = Workspace.marker_filename_pid(file.name)
                 if not marcel.util.process_exists(pid):
-                    file.unlink()
+                    try:
+                        file.rename(self.marker.unowned())
+                    except FileNotFoundError:
+                        pass  # Another process has just released the marker.
 
     def cannot_lock_workspace(self):
         raise marcel.exception.KillCommandException(f'Workspace {self.name} is in use by another process.')
@@ -608,10 +608,9 @@ class WorkspaceValidater(object):
         # exist in this dir.
         # Config dir has marker file.
         config_dir_path = locations.config_ws(workspace)
-        # Workspace.owner() gets rid of unowned marker files.
-        self.workspace.delete_abandoned_markers()
+        self.workspace.release_abandoned_markers()
         if not self.workspace.marker.exists():
-            # Could happen if Workspace.owner() deleted the marker, because it was owned by
+            # Could happen if the marker was deleted, because it was owned by
             # a process that no longer exists. Create a new marker.
             self.workspace.marker.ensure_exists()
         # Config dir has startup.py.
-- 
2.43.0


From e4c070bd5b9f304264984f64d175fab7c51e3baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 048/103] fix: opening a workspace in use by another process is
 refused, and does not end the session

---
 marcel/object/workspace.py | 4 ++++
 marcel/op/ws.py            | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 37982a0..7a28acb 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -403,6 +403,10 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             raise marcel.exception.KillCommandException(
                 f'Workspace name must be usable as a legal filename: {self.name}')
 
+    def ensure_locked(self):
+        if not self.lock_workspace():
+            self.cannot_lock_workspace()
+
     def lock_workspace(self):
         assert not self.is_default()
         owner = self.owner()
diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index f4f1ce9..c12b6bf 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -279,6 +279,7 @@ class WsNew(WsImpl):
             raise marcel.exception.KillCommandException(f'Workspace {name} already exists.')
         else:
             workspace.create()
+            workspace.ensure_locked()
             self.op.send(env, workspace)
             self.reconfigure(workspace)
 
@@ -299,6 +300,8 @@ class WsOpen(WsImpl):
         workspace = Workspace(name)
         if workspace.exists():
             if env.workspace.name != name:
+                # Find out now, while the current workspace is still open, if another process has the workspace.
+                workspace.ensure_locked()
                 self.op.send(env, workspace)
                 self.reconfigure(workspace)
                 # The workspace will be opened in the handling of the ReconfigurationException
-- 
2.43.0


From 706cbb85f120c26f12791ba7e407ce7ba95cc23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:56 +0000
Subject: [PATCH 049/103] fix: fork works in a named workspace, and a marcel
 started by marcel does not share its workspace

---
 marcel/object/workspace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 7a28acb..e98b3f7 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import multiprocessing
 import shutil
 import pathlib
 import time
@@ -423,8 +424,10 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         elif owner == self.locations.pid:
             # Already locked
             return True
-        elif owner == self.locations.ppid:
-            # Locked by parent. This process must be owned by a job executing on behalf of the parent.
+        elif (multiprocessing.current_process().name != 'MainProcess' and
+              owner in (p.pid for p in psutil.Process().parents())):
+            # Locked by an ancestor, and this process executes part of a command on its behalf: It belongs to a job,
+            # or to a fork command run by a job.
             return True
         else:
             # Locked by another process, which existed when owner() was called.
-- 
2.43.0


From 406dd17c1e98cd33d0ce4e5366adc6d610b74375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 050/103] fix: names of workspaces which are not names of
 directories below marcel's are refused

---
 marcel/object/workspace.py | 6 ++++++
 marcel/op/ws.py            | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index e98b3f7..4fe79f8 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -259,6 +259,12 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def exists(self):
         return self.marker.exists()
 
+    # The name is also the name of the workspace's directories.
+    def check_name(self):
+        if self.name in ('', '.', '..', marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME) or '/' in self.name:
+            raise marcel.exception.KillCommandException(
+                f'Workspace name must be usable as a legal filename: {self.name}')
+
     def create(self):
         assert not self.exists()
         initial_config_contents = self.locations.config_ws_startup(Workspace.default()).read_text()
diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index c12b6bf..b12fcfb 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -275,6 +275,7 @@ class WsNew(WsImpl):
     def run(self, env):
         name = self.op.new
         workspace = Workspace(name)
+        workspace.check_name()
         if workspace.exists():
             raise marcel.exception.KillCommandException(f'Workspace {name} already exists.')
         else:
@@ -298,6 +299,7 @@ class WsOpen(WsImpl):
     def run(self, env):
         name = self.op.open
         workspace = Workspace(name)
+        workspace.check_name()
         if workspace.exists():
             if env.workspace.name != name:
                 # Find out now, while the current workspace is still open, if another process has the workspace.
@@ -340,7 +342,9 @@ class WsDelete(WsImpl):
         if name == env.workspace.name:
             raise marcel.exception.KillCommandException(
                 f'You are using workspace {name}. It cannot be deleted while it is in use.')
-        Workspace(name).delete(env)
+        workspace = Workspace(name)
+        workspace.check_name()
+        workspace.delete(env)
 
 
 class WsDeleteBroken(WsImpl):
-- 
2.43.0


From e5a03fe2adb8d210f43c76984365ed3ff4310eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 051/103] fix: a process dying while it creates or saves a
 workspace leaves it absent or intact

---
 marcel/object/workspace.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 4fe79f8..b451c7e 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -389,7 +389,6 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         config_file_path = locations.config_ws_startup(self)
         config_file_path.write_text(initial_config_contents)
         config_file_path.chmod(0o600)
-        self.marker.ensure_exists()
         # data
         self.create_dir(locations.data_ws(self))
         self.create_dir(locations.data_ws_res(self))
@@ -399,6 +398,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             self.properties = WorkspaceProperties()
             self.write_properties()
         locations.data_ws_hist(self).touch(mode=0o600, exist_ok=True)
+        # The workspace exists once it has a marker.
+        self.marker.ensure_exists()
 
     def create_dir(self, dir):
         try:
@@ -465,9 +466,7 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def write_properties(self):
         assert not self.is_default()
         self.properties.update_save_time()
-        with open(self.locations.data_ws_prop(self), 'wb') as properties_file:
-            pickler = dill.Pickler(properties_file)
-            pickler.dump(self.properties.to_persistent_state())
+        self.write_atomically(self.locations.data_ws_prop(self), self.properties.to_persistent_state())
 
     def read_environment(self):
             with open(self.locations.data_ws_env(self), 'rb') as environment_file:
@@ -476,9 +475,15 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     def write_environment(self, persistent_state):
         assert persistent_state is not None
-        with open(self.locations.data_ws_env(self), 'wb') as environment_file:
-            pickler = dill.Pickler(environment_file)
+        self.write_atomically(self.locations.data_ws_env(self), persistent_state)
+
+    # If writing fails, or the process dies, then the file keeps its old contents.
+    def write_atomically(self, path, persistent_state):
+        temp_path = self.locations.data() / f'{self.locations.pid}.{path.name}'
+        with open(temp_path, 'wb') as temp_file:
+            pickler = dill.Pickler(temp_file)
             pickler.dump(persistent_state)
+        temp_path.replace(path)
 
     # Return pid of owning process, or None if unowned.
     def owner(self):
-- 
2.43.0


From 9df23cba7d873e4b606c56c47ab435d78b8377cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 052/103] fix: workspaces being created, deleted, opened or
 checked by one process are left alone by others

---
 marcel/main.py             |  3 ++-
 marcel/object/workspace.py | 43 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 779ed7f..50d5ce2 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -102,7 +102,8 @@ class MainScript(Main):
         self.testing = testing
         self.config_time = time.time()
         self.needs_restart = False
-        marcel.persistence.persistence.validate_all(self.handle_persistence_validation_errors)
+        with marcel.object.workspace.WorkspacesLock():
+            marcel.persistence.persistence.validate_all(self.handle_persistence_validation_errors)
 
     # Main
 
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index b451c7e..f8f0507 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -13,7 +13,9 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import fcntl
 import multiprocessing
+import os
 import shutil
 import pathlib
 import time
@@ -59,6 +61,24 @@ class Marker(object):
         self.unowned().touch(mode=0o000, exist_ok=True)
 
 
+# Held while the set of workspaces, or the marker of one, is examined or changed, so that no other process sees
+# or changes something incomplete. The lock is given up when the process owning it ends.
+class WorkspacesLock(object):
+    depth = 0
+    fd = None
+
+    def __enter__(self):
+        if WorkspacesLock.depth == 0:
+            WorkspacesLock.fd = os.open(marcel.locations.Locations().config_ws(), os.O_RDONLY)
+            fcntl.flock(WorkspacesLock.fd, fcntl.LOCK_EX)
+        WorkspacesLock.depth += 1
+
+    def __exit__(self, *args):
+        WorkspacesLock.depth -= 1
+        if WorkspacesLock.depth == 0:
+            os.close(WorkspacesLock.fd)
+
+
 class WorkspaceProperties(object):
 
     @staticmethod
@@ -257,7 +277,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         return False
 
     def exists(self):
-        return self.marker.exists()
+        with WorkspacesLock():
+            return self.marker.exists()
 
     # The name is also the name of the workspace's directories.
     def check_name(self):
@@ -268,7 +289,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def create(self):
         assert not self.exists()
         initial_config_contents = self.locations.config_ws_startup(Workspace.default()).read_text()
-        self.create_on_disk(initial_config_contents)
+        with WorkspacesLock():
+            self.create_on_disk(initial_config_contents)
 
     def open(self, env, initial_namespace=None):
         if self.exists():
@@ -314,6 +336,10 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         self.write_properties()
 
     def delete(self, env):
+        with WorkspacesLock():
+            self.delete_from_disk()
+
+    def delete_from_disk(self):
         if self.exists():
             if self.lock_workspace():
                 locations = self.locations
@@ -358,6 +384,11 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
 
     @staticmethod
     def list(env):
+        with WorkspacesLock():
+            return Workspace.list_on_disk(env)
+
+    @staticmethod
+    def list_on_disk(env):
         workspaces = [Workspace.default()]
         for dir in env.locations.config_ws().iterdir():
             if dir.is_dir():
@@ -416,6 +447,10 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             self.cannot_lock_workspace()
 
     def lock_workspace(self):
+        with WorkspacesLock():
+            return self.lock_marker()
+
+    def lock_marker(self):
         assert not self.is_default()
         owner = self.owner()
         if owner is None:
@@ -441,6 +476,10 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             return False
 
     def unlock_workspace(self):
+        with WorkspacesLock():
+            self.unlock_marker()
+
+    def unlock_marker(self):
         assert not self.is_default()
         owner = self.owner()
         if owner is None:
-- 
2.43.0


From 013284d71d3a1fd6e70259229894163df90457e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:35 +0000
Subject: [PATCH 053/103] fix: a workspace which cannot be opened is not kept
 locked

---
 marcel/object/workspace.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index f8f0507..7bf6cfe 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -295,21 +295,33 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
     def open(self, env, initial_namespace=None):
         if self.exists():
             if self.lock_workspace():  # Always granted for default workspace
-                self.read_properties()  # Noop for default workspace
-                self.namespace = marcel.nestednamespace.NestedNamespace(env)
-                if initial_namespace:
-                    initial_namespace.add_to_namespace(self.namespace, env)
-                config_dict = self.config_script.run()
-                for var, value in config_dict.items():
-                    self.namespace.assign_permanent(var, value)
-                self.add_immutable_vars(config_dict.keys())
-                persistent_state = self.read_environment()
-                self.namespace.from_persistent_state(env, persistent_state)
+                try:
+                    self.load(env, initial_namespace)
+                except BaseException:
+                    # This process is not going to use the workspace.
+                    self.release()
+                    raise
             else:
                 self.cannot_lock_workspace()
         else:
             self.does_not_exist()
 
+    def load(self, env, initial_namespace):
+        self.read_properties()  # Noop for default workspace
+        self.namespace = marcel.nestednamespace.NestedNamespace(env)
+        if initial_namespace:
+            initial_namespace.add_to_namespace(self.namespace, env)
+        config_dict = self.config_script.run()
+        for var, value in config_dict.items():
+            self.namespace.assign_permanent(var, value)
+        self.add_immutable_vars(config_dict.keys())
+        persistent_state = self.read_environment()
+        self.namespace.from_persistent_state(env, persistent_state)
+
+    def release(self):
+        if not self.is_default() and self.owner() == self.locations.pid:
+            self.unlock_workspace()
+
     def close(self, env, restart):
         # Relocking is okay, so this is a convenient way to test that the workspace is locked.
         if self.lock_workspace():
-- 
2.43.0


From 6af95c73e6604fda7ee0b6285f4a1a4fb8a4cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:35 +0000
Subject: [PATCH 054/103] fix: appending to a variable without a value does not
 bring back a stream of a process which died

---
 marcel/op/store.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/op/store.py b/marcel/op/store.py
index 1853345..ea53643 100644
--- a/marcel/op/store.py
+++ b/marcel/op/store.py
@@ -91,6 +91,7 @@ class Store(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
+        append = self.append
         if type(self.var) is Reservoir:
             # API
             self.reservoir = self.var
@@ -104,6 +105,8 @@ class Store(marcel.core.Op):
                         f'because it stores a value of type {type(value)}.')
                 if type(value) is not Reservoir:
                     value = Reservoir(self.var, env.locations.data_ws_res(env.workspace, self.var))
+                    # There may be a file left behind by a process which died.
+                    append = False
                 self.reservoir = value
                 env.setvar(self.var, value)
                 env.mark_possibly_changed(self.var)
@@ -115,7 +118,7 @@ class Store(marcel.core.Op):
             raise marcel.exception.KillCommandException(
                 f'{self.var} is not usable as a reservoir, it stores a value of type {type(self.reservoir)}.')
         try:
-            self.writer = self.reservoir.writer(append=self.append)
+            self.writer = self.reservoir.writer(append=append)
         except marcel.picklefile.PickleFileUsageError:
             raise marcel.exception.KillCommandException(f'store {self.var}: Pickle file already in use')
 
-- 
2.43.0


From 0f69f2bf62e6f6ca14fd9f6d0cfcc6f7fcd47f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 055/103] fix: a default workspace without a history does not
 make marcel delete the histories of all workspaces

---
 marcel/persistence/storagelayout.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 832e0ed..548fafa 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -256,7 +256,7 @@ class StorageLayoutWS3(StorageLayout):
         layout = None
         for workspace_dir in StorageLayout.subdirs(self.data / 'workspace'):
             history_file = workspace_dir / 'history'
-            history_file.unlink()
+            history_file.unlink(missing_ok=True)
             # Write something that looks like a prompt_toolkit history file
             with open(history_file, 'w') as f:
                 f.write('\n')
@@ -279,6 +279,13 @@ class StorageLayoutPromptToolkit(StorageLayout):
     def layout(self):
         return 'pt'
 
+    def version(self):
+        try:
+            version = (self.config / 'VERSION').read_text().strip()
+            return tuple(int(n) for n in version.split('.'))
+        except (OSError, ValueError):
+            return 0, 0, 0
+
     def migrate(self):
         return None
 
@@ -308,4 +315,8 @@ class StorageLayoutPromptToolkit(StorageLayout):
                     l2[18] == ':' and
                     l2[21] == '.'):
                     return True
-        return False
\ No newline at end of file
+                if len(l1) > 0 or len(l2) > 0:
+                    return False
+        # There is no history in the default workspace, so its format says nothing about the histories of
+        # the other workspaces. The version does.
+        return self.version() >= (0, 32, 0)
\ No newline at end of file
-- 
2.43.0


From c4d05c303382581f5b7f161640bb4822cee5b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:48 +0000
Subject: [PATCH 056/103] fix: a damaged default workspace is replaced, and the
 other workspaces stay where they are

---
 marcel/main.py                      | 51 ++++++++++++++++++++---------
 marcel/object/workspace.py          |  3 +-
 marcel/persistence/storagelayout.py |  4 +--
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 50d5ce2..1f910c0 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -135,22 +135,7 @@ class MainScript(Main):
 
     def handle_persistence_validation_errors(self, broken_workspace_names, errors):
         if len(errors) > 0:
-            now = time.time()
-            broken_ws_config = self.env.locations.config_bws() / str(now)
-            broken_ws_data = self.env.locations.data_bws() / str(now)
-            marcel.util.print_to_stderr(self.env,
-                                        f'Damaged workspaces have been detected: {sorted(broken_workspace_names)}. '
-                                        f'Their contents will be moved to:'
-                                        f'\n    {broken_ws_config}'
-                                        f'\n    {broken_ws_data}')
-            started_in_broken_ws = False
-            for validation_error in errors:
-                marcel.util.print_to_stderr(self.env, str(validation_error))
-                ws_name = validation_error.workspace_name
-                broken_ws = Workspace (ws_name)
-                started_in_broken_ws = started_in_broken_ws or (self.env.workspace.name == ws_name)
-                broken_ws.mark_broken(now)
-            if started_in_broken_ws:
+            if self.env.workspace.name in set_aside_broken_workspaces(self.env, broken_workspace_names, errors):
                 # This marks this MainScript object as needing a restart. Don't want to continue with a broken
                 # workspace, but throwing a ReconfigureException right now (during MainScript.__init__)
                 # is messy, since we're then shutting down an incompletely initialized main.
@@ -281,6 +266,39 @@ def commands_in_script(script):
         yield command
 
 
+def set_aside_broken_workspaces(env, broken_workspace_names, errors):
+    now = time.time()
+    locations = marcel.locations.Locations()
+    broken_ws_config = locations.config_bws() / str(now)
+    broken_ws_data = locations.data_bws() / str(now)
+    marcel.util.print_to_stderr(env,
+                                f'Damaged workspaces have been detected: {sorted(broken_workspace_names)}. '
+                                f'Their contents will be moved to:'
+                                f'\n    {broken_ws_config}'
+                                f'\n    {broken_ws_data}')
+    for validation_error in errors:
+        marcel.util.print_to_stderr(env, str(validation_error))
+    default_dir_name = marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME
+    broken_names = set('' if e.workspace_name == default_dir_name else e.workspace_name for e in errors)
+    for ws_name in broken_names:
+        broken_ws = Workspace(ws_name) if ws_name else Workspace.default()
+        broken_ws.mark_broken(now)
+        if broken_ws.is_default():
+            # Marcel can't run without a default workspace.
+            broken_ws.create_on_disk(marcel.persistence.storagelayout.default_initial_config())
+    return broken_names
+
+
+# Marcel needs the startup script of the default workspace to get as far as validating workspaces.
+def ensure_default_workspace_startup():
+    workspace = Workspace.default()
+    startup = workspace.locations.config_ws_startup(workspace)
+    with marcel.object.workspace.WorkspacesLock():
+        if not startup.exists():
+            error = marcel.object.workspace.WorkspaceValidater.Error('', f'{startup} is missing')
+            set_aside_broken_workspaces(None, [marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME], [error])
+
+
 def fail(message):
     print(message, file=sys.stderr)
     exit(1)
@@ -384,6 +402,7 @@ def main():
     # Check that default workspace exists
     if not Workspace.default().exists():
         Workspace.default().does_not_exist()
+    ensure_default_workspace_startup()
     input_source = marcel.util.InputSource()
     started = False
     while not started:
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 7bf6cfe..fc3af23 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -756,7 +756,8 @@ class WorkspaceDefaultValidater(WorkspaceValidater):
         workspace = self.workspace
         pids = set(psutil.pids())
         delete_abandoned(locations.data_ws(workspace), '.env.pickle')
-        delete_abandoned(locations.data_ws_res(workspace), '.pickle')
+        if locations.data_ws_res(workspace).is_dir():
+            delete_abandoned(locations.data_ws_res(workspace), '.pickle')
         return super().validate()
 
     def validate_env_file(self):
diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 548fafa..851f2e7 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -297,9 +297,7 @@ class StorageLayoutPromptToolkit(StorageLayout):
         #    positions:                      0  3  6  9  12 15 18 21
         # where . is any character
 
-        if not (self.config.exists() and
-                (self.config / 'workspace').exists() and
-                (self.config / 'workspace' / '__DEFAULT__').exists()):
+        if not (self.config / 'workspace').exists():
             return False
         history_file = self.data / 'workspace' / '__DEFAULT__' / 'history'
         if history_file.exists():
-- 
2.43.0


From 462dcf8429d0311843b284555742247519d4fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 057/103] fix: a file in place of a directory of a workspace is
 damage, and does not keep marcel from starting

---
 marcel/object/workspace.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index fc3af23..0ca3abe 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -677,6 +677,9 @@ class WorkspaceValidater(object):
         # exist in this dir.
         # Config dir has marker file.
         config_dir_path = locations.config_ws(workspace)
+        if not config_dir_path.is_dir():
+            self.not_a_directory(config_dir_path)
+            return self.errors
         self.workspace.release_abandoned_markers()
         if not self.workspace.marker.exists():
             # Could happen if the marker was deleted, because it was owned by
@@ -691,6 +694,8 @@ class WorkspaceValidater(object):
         # Data dir exists
         if not locations.data_ws(workspace).exists():
             self.missing(locations.data_ws(workspace))
+        elif not locations.data_ws(workspace).is_dir():
+            self.not_a_directory(locations.data_ws(workspace))
         else:
             # env.pickle
             self.validate_env_file()
@@ -755,7 +760,8 @@ class WorkspaceDefaultValidater(WorkspaceValidater):
         locations = self.locations
         workspace = self.workspace
         pids = set(psutil.pids())
-        delete_abandoned(locations.data_ws(workspace), '.env.pickle')
+        if locations.data_ws(workspace).is_dir():
+            delete_abandoned(locations.data_ws(workspace), '.env.pickle')
         if locations.data_ws_res(workspace).is_dir():
             delete_abandoned(locations.data_ws_res(workspace), '.pickle')
         return super().validate()
-- 
2.43.0


From 98733ecd57df9fe72d246d0b9bf0600bd8bd3119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 058/103] fix: a file in place of a directory of a workspace
 does not keep marcel from starting, or end the session

---
 marcel/main.py             | 10 +++++++---
 marcel/object/workspace.py |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 1f910c0..5d55f2c 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -289,13 +289,17 @@ def set_aside_broken_workspaces(env, broken_workspace_names, errors):
     return broken_names
 
 
-# Marcel needs the startup script of the default workspace to get as far as validating workspaces.
+# Marcel needs these parts of the default workspace to get as far as validating workspaces.
 def ensure_default_workspace_startup():
     workspace = Workspace.default()
     startup = workspace.locations.config_ws_startup(workspace)
+    data_dir = workspace.locations.data_ws(workspace)
     with marcel.object.workspace.WorkspacesLock():
-        if not startup.exists():
-            error = marcel.object.workspace.WorkspaceValidater.Error('', f'{startup} is missing')
+        problem = (f'{startup} is missing' if not startup.exists() else
+                   f'{data_dir} is not actually a directory' if data_dir.exists() and not data_dir.is_dir() else
+                   None)
+        if problem:
+            error = marcel.object.workspace.WorkspaceValidater.Error('', problem)
             set_aside_broken_workspaces(None, [marcel.locations.Locations.DEFAULT_WORKSPACE_DIR_NAME], [error])
 
 
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 0ca3abe..df29a70 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -43,7 +43,7 @@ class Marker(object):
 
     def exists(self):
         config_dir = self.workspace.locations.config_ws(self.workspace)
-        if config_dir.exists():
+        if config_dir.is_dir():
             for file in config_dir.iterdir():
                 if file.name.startswith(Marker.FILENAME_ROOT):
                     return True
-- 
2.43.0


From 1b34c691d5ea52d3c2fb2c1ec37fc957971e60b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 059/103] fix: the repr of a filter does not depend on its
 setup having run

fork with a pipeline containing filter failed with an AssertionError, because the pipeline is formatted before it is run.
---
 marcel/op/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index 61ee77d..b3d294b 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -97,8 +97,8 @@ class Filter(marcel.core.Op):
         self.right = None
 
     def __repr__(self):
-        assert self.keep != self.discard
-        behavior = 'keep' if self.keep else 'discard'
+        # keep is not set until setup
+        behavior = 'discard' if self.discard else 'keep'
         return f'filter({behavior}, {self.pipeline})'
 
     # AbstractOp
-- 
2.43.0


From 977ed89c834f3510f5d1604ef280e149431a60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 060/103] fix: a fork branch which dies while sending a row
 does not end the others

The process reading from the branches failed with an OSError (end of file during message).
---
 marcel/op/forkmanager.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index ec8b992..110a552 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -169,21 +169,21 @@ class ForkWorker(object):
         self.writer.close()
 
     def consume_input(self):
-        more = True
         try:
-            if self.reader.poll(timeout=0.1):
-                input = self.reader.recv()
-                x = dill.loads(input)
-                dump(f'{self} consume_input receive {x}')
-                if isinstance(x, marcel.object.error.Error):
-                    self.op.send_error(self.env, x)
-                else:
-                    self.op.send(self.env, x)
-        except EOFError:
+            input = self.reader.recv() if self.reader.poll(timeout=0.1) else None
+        except (EOFError, OSError):
+            # OSError: The child ended in the middle of a message.
             dump(f'{self} consume_input EOF')
             self.writer.close()
-            more = False
-        return more
+            return False
+        if input is not None:
+            x = dill.loads(input)
+            dump(f'{self} consume_input receive {x}')
+            if isinstance(x, marcel.object.error.Error):
+                self.op.send_error(self.env, x)
+            else:
+                self.op.send(self.env, x)
+        return True
 
     def close(self):
         dump(f'{self} joining ...')
-- 
2.43.0


From ce08a6531fd72415e03606c03b8f7e669c694614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:44 +0000
Subject: [PATCH 061/103] fix: the iterator of an API pipeline is iterable

for x in iter(pipeline), islice(iter(pipeline), n) etc. failed: 'PipelineIterator' object is not iterable.
---
 marcel/pipeline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index d2e8979..264c290 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -548,6 +548,9 @@ class PipelineIterator:
         finally:
             self.iterator = iter(output)
 
+    def __iter__(self):
+        return self
+
     def __next__(self):
         return next(self.iterator)
 
-- 
2.43.0


From 5211841508751c5baf72335e499be46096fc12e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:44 +0000
Subject: [PATCH 062/103] fix: first() stops at the first row, and raises if
 that is an error

The StopAfterFirst exception was created but not raised, so the entire pipeline was run. An Error was skipped.
---
 marcel/op/apiop.py       |  7 +++----
 marcel/op/forkmanager.py | 12 +++++++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/marcel/op/apiop.py b/marcel/op/apiop.py
index b3e3d8d..fe179be 100644
--- a/marcel/op/apiop.py
+++ b/marcel/op/apiop.py
@@ -36,10 +36,9 @@ class APIOp(marcel.core.Op):
             x = x[0]
         self.output.append(x)
         if self.stop_after_first:
-            marcel.exception.StopAfterFirst()
+            raise marcel.exception.StopAfterFirst()
 
     def receive_error(self, env, error):
+        self.output.append(error)
         if self.stop_after_first:
-            marcel.exception.StopAfterFirst()
-        else:
-            self.output.append(error)
+            raise marcel.exception.StopAfterFirst()
diff --git a/marcel/op/forkmanager.py b/marcel/op/forkmanager.py
index 110a552..0bc52a6 100644
--- a/marcel/op/forkmanager.py
+++ b/marcel/op/forkmanager.py
@@ -107,9 +107,15 @@ class ForkManager(object):
             worker.start()
             dump(f'{self} started {worker}')
         active = list(self.workers)
-        while len(active) > 0:
-            active = [worker for worker in active if worker.consume_input()]
-            dump(f'active: {len(active)}')
+        try:
+            while len(active) > 0:
+                active = [worker for worker in active if worker.consume_input()]
+                dump(f'active: {len(active)}')
+        except BaseException:
+            # The output of the workers isn't needed any more.
+            for worker in self.workers:
+                worker.process.terminate()
+            raise
         for worker in self.workers:
             worker.close()
 
-- 
2.43.0


From 5a0cab26b6cba4cf5dcce472aa4cfa9215a691f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 063/103] fix: composing an API pipeline does not modify the
 pipelines it is composed of

After b = gen(3); x = b | map(f), b was the same as x, and another pipeline starting with b included map(f) too.
---
 marcel/pipeline.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 264c290..8792bc5 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -158,17 +158,16 @@ class OpList(object):
         self.ops = None
 
     def __or__(self, other):
-        if self.ops is None:
-            # self must be the first op of a pipelines
-            self.ops = [self.op]
-            self.op = None
+        # self may be used again, e.g. as the beginning of another pipeline, so don't modify it.
+        op_list = OpList(self.env, None)
+        op_list.ops = [self.op] if self.ops is None else list(self.ops)
         # Append ops from other. There could be one or more than one
         assert (other.op is None) != (other.ops is None)
         if other.op:
-            self.ops.append(other.op)
+            op_list.ops.append(other.op)
         else:
-            self.ops.extend(other.ops)
-        return self
+            op_list.ops.extend(other.ops)
+        return op_list
 
     def __iter__(self):
         return PipelineIterator(self.env, PipelineOpList(self))
-- 
2.43.0


From 84c5c3a533b6d6098e51b9641f9f28af5483f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:45 +0000
Subject: [PATCH 064/103] fix: an op or pipeline of the API can be used more
 than once, e.g. b | union(b)

Each occurrence needs its own op, as the receiver and state of an op are for one place in one pipeline.
---
 marcel/core.py     | 2 +-
 marcel/pipeline.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index 5755f40..c9f00af 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -133,7 +133,7 @@ class Op(AbstractOp):
         pass
 
     def copy(self):
-        copy = self.__class__()
+        copy = self.__class__.__new__(self.__class__)
         copy.__dict__.update(self.__dict__)
         return copy
 
diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 8792bc5..f268111 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -177,11 +177,13 @@ class OpList(object):
         assert not (self.op is not None and self.ops is not None)
         # self.op and ops could both be None. E.g., this happens with upload, which starts with an empty pipeline.
         pipeline = PipelineExecutable()
+        # The same op may occur in more than one pipeline, or more than once in a pipeline, (e.g. b | union(b)),
+        # and executions may be nested. Each occurrence needs its own state and receiver.
         if self.op is not None:
-            pipeline.append(self.op)
+            pipeline.append(self.op.copy())
         elif self.ops is not None:
             for op in self.ops:
-                pipeline.append(op)
+                pipeline.append(op.copy())
         return pipeline
 
 
@@ -408,7 +410,7 @@ class PipelineOpList(Pipeline):
     # Pipeline - construction
 
     def copy(self):
-        return PipelineOpList(self.executable)
+        return PipelineOpList(self.executable.copy())
 
     def append_immutable(self, op):
         return PipelineOpList(self.executable.append_immutable(op))
-- 
2.43.0


From c15b6a041690ed6f1cdeee9e227f156e6b9bbd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:53 +0000
Subject: [PATCH 065/103] fix: the function given to args or fork in the API
 may have local variables

Local variables (including those of comprehensions) were taken to be parameters.
---
 marcel/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index f268111..1c6053e 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -462,7 +462,9 @@ class PipelineFunction(Pipeline):
         pass
 
     def parameters(self):
-        return self.function.__code__.co_varnames
+        code = self.function.__code__
+        # Arguments come first in co_varnames, followed by local variables.
+        return code.co_varnames[:code.co_argcount]
 
     def run_pipeline(self, env, bindings):
         self.create_executable(env, bindings)
-- 
2.43.0


From b76d1e70d311c4ed00148994986ebd61e55e8d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 066/103] fix: first() stops at an error found by calling a
 function

Op.fatal_error discarded the StopAfterFirst exception.
---
 marcel/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marcel/core.py b/marcel/core.py
index c9f00af..f1a11d3 100644
--- a/marcel/core.py
+++ b/marcel/core.py
@@ -147,11 +147,12 @@ class Op(AbstractOp):
         error = self.error(input=input, message=message)
         try:
             self.send_error(env, error)
-        except:
+        except marcel.exception.StopAfterFirst:
+            raise
+        except BaseException:
             # If the error occurred during setup, then send_error can't work
             pass
-        finally:
-            raise marcel.exception.KillAndResumeException(message)
+        raise marcel.exception.KillAndResumeException(message)
 
     def must_be_first_in_pipeline(self):
         return False
-- 
2.43.0


From aae3eb13429afc17a02b1e755e9240d306c264b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 067/103] fix: intersect in the API takes any number of
 pipelines, as the command does

---
 marcel/op/intersect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index cfb70dc..727d695 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -39,9 +39,10 @@ output is unspecified.
 '''
 
 
-def intersect(pipeline):
-    assert isinstance(pipeline, marcel.pipeline.OpList), pipeline
-    return Intersect(), [pipeline]
+def intersect(*pipelines):
+    for pipeline in pipelines:
+        assert isinstance(pipeline, marcel.pipeline.OpList), pipeline
+    return Intersect(), list(pipelines)
 
 
 class IntersectArgsParser(marcel.argsparser.ArgsParser):
-- 
2.43.0


From 8b53434da1920ecee867cb581813d4c29e295c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:14 +0000
Subject: [PATCH 068/103] fix: branches of case with more than one op work in
 the API

A PipelineOpList wasn't set up when it receives its input from another pipeline, so its ops had no receivers: rows
were lost, or the command failed with an AttributeError.
---
 marcel/pipeline.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/marcel/pipeline.py b/marcel/pipeline.py
index 1c6053e..5b01452 100644
--- a/marcel/pipeline.py
+++ b/marcel/pipeline.py
@@ -389,15 +389,27 @@ class PipelineOpList(Pipeline):
             super().__init__(pipeline)
         else:
             assert False, type(pipeline)
+        self.is_setup = False
 
     # Pipeline - execution
 
     def setup(self, env):
-        pass
+        # A pipeline receiving its input from another one (e.g. a branch of case) is set up by that one.
+        if not self.is_setup:
+            self.executable.setup(env)
+            self.is_setup = True
+
+    def undo_setup(self):
+        super().undo_setup()
+        self.is_setup = False
+
+    def cleanup(self):
+        super().cleanup()
+        self.is_setup = False
 
     def run_pipeline(self, env, bindings):
         try:
-            self.executable.setup(env)
+            self.setup(env)
         except marcel.exception.KillAndResumeException as e:
             # KARE is fatal during setup.
             raise marcel.exception.KillCommandException(str(e))
@@ -405,7 +417,7 @@ class PipelineOpList(Pipeline):
             self.executable.run(env)
             self.executable.flush(env)
         finally:
-            self.executable.cleanup()
+            self.cleanup()
 
     # Pipeline - construction
 
-- 
2.43.0


From ca9210a04926b0806770e8512ac3ec0feb88c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:48 +0000
Subject: [PATCH 069/103] fix: pushd of something that is not a directory
 fails, and does not end the session

---
 marcel/op/pushd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/op/pushd.py b/marcel/op/pushd.py
index 8604d23..e1e5ee2 100644
--- a/marcel/op/pushd.py
+++ b/marcel/op/pushd.py
@@ -73,6 +73,8 @@ class Pushd(marcel.core.Op):
                 raise marcel.exception.KillCommandException('No qualifying path')
             elif len(dirs) > 1:
                 raise marcel.exception.KillCommandException('Too many paths')
+            elif not dirs[0].is_dir():
+                raise marcel.exception.KillCommandException(f'{dirs[0]} is not a directory')
             self.directory = dirs[0]
 
     def run(self, env):
-- 
2.43.0


From dff38e05fca242af063b7bd3d209415640190521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:49 +0000
Subject: [PATCH 070/103] fix: the current directory stays on the directory
 stack if it is removed

---
 marcel/directorystate.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/marcel/directorystate.py b/marcel/directorystate.py
index 2c319d9..3d9af85 100644
--- a/marcel/directorystate.py
+++ b/marcel/directorystate.py
@@ -62,8 +62,9 @@ class DirectoryState:
         # actual stack until the cd succeeds (bug 133).
         dir_stack = list(self._dir_stack())
         if directory is None:
-            if len(dir_stack) > 1:
-                dir_stack[-2:] = [dir_stack[-1], dir_stack[-2]]
+            if len(dir_stack) <= 1:
+                return
+            dir_stack[-2:] = [dir_stack[-1], dir_stack[-2]]
         else:
             assert isinstance(directory, pathlib.Path)
             dir_stack.append(directory.resolve().as_posix())
@@ -92,14 +93,17 @@ class DirectoryState:
         return self.env.getvar('DIRS')
 
     # Remove entries that are not files, and not accessible, (presumably due to changes since they entered the stack).
+    # The top of the stack is the current directory, which we are in, accessible or not.
     def _clean_dir_stack(self):
         clean = []
         removed = []
         dirs = self._dir_stack()
-        for dir in dirs:
+        for i, dir in enumerate(dirs):
             if isinstance(dir, pathlib.Path):
                 dir = dir.as_posix()
-            if os.path.exists(dir) and os.access(dir, mode=os.X_OK, follow_symlinks=True):
+            if i == len(dirs) - 1 and dir == self.env.getvar('PWD'):
+                clean.append(dir)
+            elif os.path.exists(dir) and os.access(dir, mode=os.X_OK, follow_symlinks=True):
                 clean.append(dir)
             else:
                 removed.append(dir)
-- 
2.43.0


From 3237cab7c49bdb24013aba265065e56c49955126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:46 +0000
Subject: [PATCH 071/103] fix: directory changes made by a job are seen by the
 shell, and jobs see the directory stack

---
 marcel/directorystate.py |  5 +++++
 marcel/job.py            |  6 ++++--
 marcel/main.py           | 12 ++++++------
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/marcel/directorystate.py b/marcel/directorystate.py
index 3d9af85..5661de5 100644
--- a/marcel/directorystate.py
+++ b/marcel/directorystate.py
@@ -48,6 +48,9 @@ class DirectoryState:
             else:
                 dir_stack[-1] = new_dir
             self.env.assign_permanent('PWD', new_dir)
+            # If this is a job, its owner has to follow.
+            self.env.mark_possibly_changed('PWD')
+            self.env.mark_possibly_changed('DIRS')
         else:
             home = pathlib.Path.home().resolve()
             marcel.util.print_to_stderr(self.env,
@@ -70,6 +73,7 @@ class DirectoryState:
             dir_stack.append(directory.resolve().as_posix())
         self.change_current_dir(pathlib.Path(dir_stack[-1]))
         self.env.assign_permanent('DIRS', dir_stack)
+        self.env.mark_possibly_changed('DIRS')
 
     def pop_dir(self):
         self._clean_dir_stack()
@@ -82,6 +86,7 @@ class DirectoryState:
         dir_stack = self._dir_stack()
         dir_stack.clear()
         dir_stack.append(self.current_dir())
+        self.env.mark_possibly_changed('DIRS')
 
     def dirs(self):
         self._clean_dir_stack()
diff --git a/marcel/job.py b/marcel/job.py
index d975db8..5d23cf2 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -61,9 +61,11 @@ def debug(message):
         print(f'{os.getpid()}: {message}', flush=True)
 
 
-def run_command_in_child(env, command, writer):
+def run_command_in_child(env, dirs, command, writer):
     debug(f'running: {command.source}')
     child_namespace_changes = None
+    # The directory stack isn't part of env's persistent state.
+    env.assign_permanent('DIRS', dirs)
     env.clear_changes()
     try:
         command.ensure_functions_compiled(env)
@@ -178,7 +180,7 @@ class Job:
         self.listener = reader
         JobControl.only.child_listener.add_listener(reader)
         debug('Job.start_process')
-        self.process = mp.Process(target=run_command_in_child, args=(self.env, self.command, writer))
+        self.process = mp.Process(target=run_command_in_child, args=(self.env, self.env.getvar('DIRS'), self.command, writer))
         self.process.daemon = False
         try:
             # Set up process handling as it should exist in the child process.
diff --git a/marcel/main.py b/marcel/main.py
index 5d55f2c..6fb602a 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -227,13 +227,13 @@ class MainInteractive(MainScript):
     # Internal
 
     def update_namespace(self, child_namespace_changes):
-        # pwd requires special handling
-        try:
-            pwd = child_namespace_changes['PWD']
+        # The directory stack, and pwd, (whose vars are immutable), require special handling
+        dirs = child_namespace_changes.pop('DIRS', None)
+        if dirs is not None:
+            self.env.assign_permanent('DIRS', dirs)
+        pwd = child_namespace_changes.pop('PWD', None)
+        if pwd is not None:
             self.env.dir_state().change_current_dir(pathlib.Path(pwd))
-        except KeyError:
-            # PWD wasn't changed
-            pass
         for var, value in child_namespace_changes.items():
             if isinstance(value, marcel.object.workspace.DeletedVar):
                 if self.env.hasvar(var):
-- 
2.43.0


From 8815c17892d1c00e7d9ccd27c5701558df83557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:22 +0000
Subject: [PATCH 072/103] fix: filenames which are not patterns are found in
 directories that can be searched but not read

---
 marcel/op/filenames.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marcel/op/filenames.py b/marcel/op/filenames.py
index 7fb2988..daa61fe 100644
--- a/marcel/op/filenames.py
+++ b/marcel/op/filenames.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import glob
 import os
 import pathlib
 
@@ -51,6 +52,11 @@ class Filenames(object):
             path_str = path.as_posix()
             if path_str == '/':
                 roots.append(Filenames.ROOT)
+            elif not glob.has_magic(path_str):
+                # Globbing would fail in a directory that can be searched but not read.
+                if os.path.lexists(path) and path not in roots_set:
+                    roots_set.add(path)
+                    roots.append(path)
             else:
                 glob_base, glob_pattern = ((Filenames.ROOT, path_str[1:])
                                            if path.is_absolute() else
-- 
2.43.0


From 113510fcd3f41f1c71170657aaca8262f622d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:26 +0000
Subject: [PATCH 073/103] fix: versions are compared as numbers, and the
 VERSION file is replaced atomically

---
 marcel/persistence/storagelayout.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index 851f2e7..ccccd45 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -29,6 +29,13 @@ def default_initial_config():
     return marcel.persistence.defaultinitialconfig.CONFIG
 
 
+def version_tuple(version):
+    try:
+        return tuple(int(n) for n in version.strip().split('.'))
+    except ValueError:
+        return 0, 0, 0
+
+
 def storage_layout():
     # Check newest first. It is possible that old migrations didn't clean up properly,
     # e.g. original to xdg.
@@ -46,11 +53,12 @@ def storage_layout():
 
 def ensure_current(testing=False, initial_config=None):
     def write_version(version_id):
+        # Replace the file, so that there is a complete one at any time.
         version_file_path = locations.config_version()
-        version_file_path.touch(exist_ok=True)
-        version_file_path.chmod(0o600)
-        version_file_path.write_text(f'{version_id}', newline='\n')
-        version_file_path.chmod(0o400)
+        new_file_path = version_file_path.with_name(f'VERSION.{locations.pid}')
+        new_file_path.write_text(f'{version_id}', newline='\n')
+        new_file_path.chmod(0o400)
+        new_file_path.replace(version_file_path)
 
     def installed_version():
         version_file_path = locations.config_version()
@@ -89,7 +97,7 @@ def ensure_current(testing=False, initial_config=None):
                 if before == after:
                     raise marcel.exception.KillShellException(f'Migration from {before} failed to advance.')
     # Write version file
-    if installed_version() < marcel.version.VERSION:
+    if version_tuple(installed_version()) < version_tuple(marcel.version.VERSION):
         write_version(marcel.version.VERSION)
 
 
@@ -281,9 +289,8 @@ class StorageLayoutPromptToolkit(StorageLayout):
 
     def version(self):
         try:
-            version = (self.config / 'VERSION').read_text().strip()
-            return tuple(int(n) for n in version.split('.'))
-        except (OSError, ValueError):
+            return version_tuple((self.config / 'VERSION').read_text())
+        except OSError:
             return 0, 0, 0
 
     def migrate(self):
-- 
2.43.0


From a7a86d98dcccd6b390cc784e2a0dedde2ec5d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:36 +0000
Subject: [PATCH 074/103] fix: migrations complete if optional files are
 missing, or an earlier migration was interrupted

---
 marcel/persistence/storagelayout.py | 48 ++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/marcel/persistence/storagelayout.py b/marcel/persistence/storagelayout.py
index ccccd45..f87eff1 100644
--- a/marcel/persistence/storagelayout.py
+++ b/marcel/persistence/storagelayout.py
@@ -101,6 +101,8 @@ def ensure_current(testing=False, initial_config=None):
         write_version(marcel.version.VERSION)
 
 
+# The process may die during a migration, which is then repeated by the next start. So each migration does what
+# remains to be done, and does last what makes the next layout match.
 class StorageLayout(object):
 
     def __init__(self):
@@ -131,6 +133,12 @@ class StorageLayout(object):
             raise marcel.exception.KillShellException(
                 f'Migration({type(self)}) error: {path} should not exist: {info}')
 
+    # Files may be missing, or have been moved by a migration that was not completed.
+    @staticmethod
+    def move_if_exists(source, target):
+        if source.exists() and not target.exists():
+            shutil.move(source, target)
+
     @staticmethod
     def subdirs(dir):
         workspace_dirs = []
@@ -152,16 +160,15 @@ class StorageLayoutOriginal(StorageLayout):
     def migrate(self):
         self.config.mkdir(parents=True, exist_ok=True)
         self.data.mkdir(parents=True, exist_ok=True)
-        shutil.move(self.home / '.marcel.py', self.config / 'startup.py')
-        shutil.move(self.home / '.marcel_history', self.data / 'history')
+        StorageLayout.move_if_exists(self.home / '.marcel_history', self.data / 'history')
+        StorageLayout.move_if_exists(self.home / '.marcel.py', self.config / 'startup.py')
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'xdg'
         return layout
 
     def match(self):
-        match = ((self.home / '.marcel.py').exists() and (self.home / '.marcel_history').exists())
-        return match
+        return (self.home / '.marcel.py').exists()
 
 
 # Version >= ~0.13.6. First use of XDG conventions.
@@ -171,16 +178,16 @@ class StorageLayoutXDG(StorageLayout):
         return 'xdg'
 
     def migrate(self):
+        (self.data / 'reservoirs').mkdir(parents=True, exist_ok=True)
         (self.config / '.WORKSPACE').touch(mode=0o000)
-        (self.data / 'reservoirs').mkdir(exist_ok=True)
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws1'
         return layout
 
     def match(self):
-        return (self.config.exists() and
-                self.data.exists())
+        # The directories also exist if the first start of a later version was not completed.
+        return (self.config / 'startup.py').exists()
 
 
 # Version >= 0.20.0. First workspace layout.
@@ -194,11 +201,11 @@ class StorageLayoutWS1(StorageLayout):
             new_default_workspace_dir = base_dir / '__DEFAULT_WORKSPACE__'
             new_default_workspace_dir.mkdir(parents=True, exist_ok=True)
             for filename in filenames:
-                shutil.move(base_dir / filename, new_default_workspace_dir)
+                StorageLayout.move_if_exists(base_dir / filename, new_default_workspace_dir / filename)
 
         # Move default workspace files to __DEFAULT_WORKSPACE__ directory
-        fix_default_workspace(self.config, '.WORKSPACE', 'startup.py')
         fix_default_workspace(self.data, 'history', 'reservoirs')
+        fix_default_workspace(self.config, 'startup.py', '.WORKSPACE')
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws2'
@@ -218,7 +225,8 @@ class StorageLayoutWS2(StorageLayout):
     def migrate(self):
         def move_workspace_dirs(workspace_dirs, new_workspace_base):
             for workspace_dir in workspace_dirs:
-                if workspace_dir.name != marcel.locations.Locations.WORKSPACE_DIR_NAME:
+                if workspace_dir.name not in (marcel.locations.Locations.WORKSPACE_DIR_NAME,
+                                              '__DEFAULT_WORKSPACE__'):
                     moved_dir = shutil.move(workspace_dir, new_workspace_base)
                     if moved_dir:
                         self.should_exist(pathlib.Path(moved_dir), f'Tried to move workspace dir {workspace_dir}')
@@ -234,15 +242,15 @@ class StorageLayoutWS2(StorageLayout):
             old_workspace_dirs = StorageLayout.subdirs(base_dir)
             move_workspace_dirs(old_workspace_dirs, new_workspace_dir)
             # Rename __DEFAULT_WORKSPACE__ to __DEFAULT__
-            old_default_workspace_dir = new_workspace_dir / '__DEFAULT_WORKSPACE__'
+            old_default_workspace_dir = base_dir / '__DEFAULT_WORKSPACE__'
             new_default_workspace_dir = new_workspace_dir / '__DEFAULT__'
-            old_default_workspace_dir.rename(new_default_workspace_dir)
-            # Create dir for broken workspaces
-            new_broken_dir = base_dir / 'broken'
-            new_broken_dir.mkdir(parents=False, exist_ok=False)
+            StorageLayout.move_if_exists(old_default_workspace_dir, new_default_workspace_dir)
 
-        fix_dirs(self.config)
         fix_dirs(self.data)
+        fix_dirs(self.config)
+        # Create dirs for broken workspaces
+        for base_dir in self.config, self.data:
+            (base_dir / 'broken').mkdir(exist_ok=True)
         layout = storage_layout()
         assert layout
         assert layout.layout() == 'ws3'
@@ -250,7 +258,8 @@ class StorageLayoutWS2(StorageLayout):
 
     def match(self):
         return (self.config.exists() and
-                (self.config / '__DEFAULT_WORKSPACE__').exists())
+                (self.config / '__DEFAULT_WORKSPACE__').exists() and
+                not (self.config / '.WORKSPACE').exists())
 
 
 # Version >= 0.28.0. Separate broken and valid workspaces.
@@ -262,7 +271,10 @@ class StorageLayoutWS3(StorageLayout):
     def migrate(self):
         # Just trash old histories.
         layout = None
-        for workspace_dir in StorageLayout.subdirs(self.data / 'workspace'):
+        default_dir = self.data / 'workspace' / '__DEFAULT__'
+        (default_dir / 'reservoirs').mkdir(parents=True, exist_ok=True)
+        workspace_dirs = [dir for dir in StorageLayout.subdirs(self.data / 'workspace') if dir != default_dir]
+        for workspace_dir in workspace_dirs + [default_dir]:
             history_file = workspace_dir / 'history'
             history_file.unlink(missing_ok=True)
             # Write something that looks like a prompt_toolkit history file
-- 
2.43.0


From cf00f9addf0d1d5e9722e801f04835048965f205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:21 +0000
Subject: [PATCH 075/103] fix: a pipeline can be an argument of a pipeline

---
 marcel/nestednamespace.py | 3 ++-
 marcel/parser.py          | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/marcel/nestednamespace.py b/marcel/nestednamespace.py
index ddfc5a6..0bab142 100644
--- a/marcel/nestednamespace.py
+++ b/marcel/nestednamespace.py
@@ -122,8 +122,9 @@ class EnvValue(object):
             ev = CompilableFunction(env)
             ev.assign(value, f'({source})')
         elif is_pipeline(value):
+            # A pipeline that is an argument to a pipeline doesn't come with source, but carries its own.
             ev = CompilablePipeline(env)
-            ev.assign(value, source)
+            ev.assign(value, value.source if source is None else source)
         else:
             ev = Simple(env)
             ev.assign(value)
diff --git a/marcel/parser.py b/marcel/parser.py
index f9c0ce5..99782a6 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1303,7 +1303,7 @@ class Parser(object):
                 pipeline_args = []
                 for token in arg_tokens:
                     pipeline_args.append(token
-                                         if type(token) is marcel.pipeline.PipelineExecutable else
+                                         if isinstance(token, marcel.pipeline.Pipeline) else
                                          token.value())
                 args, kwargs = marcel.argsparser.PipelineArgsParser(var).parse_pipeline_args(pipeline_args)
                 op.set_pipeline_args(args, kwargs)
-- 
2.43.0


From 2e2f36cc6d7b3ea6ed2109dc57313ee2c88f1f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:14 +0000
Subject: [PATCH 076/103] fix: bash exchanges lines with processes losslessly,
 and in the main thread

The output of a process was handled by a separate thread, running the operators
of the pipeline concurrently with the main thread. An operator failing there
deadlocked the pipeline, scopes were corrupted, and lines were lost if the
process ended while something it started kept its output open, or if the output
was not valid text. A process not reading all of its input, or getting no input
at all, crashed the command.
---
 marcel/op/bash.py | 203 ++++++++++++++++++++++++++--------------------
 1 file changed, 116 insertions(+), 87 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 0c3fed8..2731078 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -16,7 +16,6 @@
 import os
 import selectors
 import subprocess
-import threading
 
 import marcel.argsparser
 import marcel.core
@@ -65,9 +64,6 @@ The lines of {r:/etc/passwd} are read by the host executable {r:cat}, and the st
 # See https://pymotw.com/2/subprocess/#process-groups-sessions for more information.
 
 
-def dump(x):
-    print(f'{threading.current_thread().name}: {x}', flush=True)
-
 def bash(*bash_args, interactive=False):
     args = ['--interactive'] if interactive else []
     args.extend(bash_args)
@@ -150,126 +146,159 @@ class Escape:
 
 class NonInteractive(Escape):
 
+    READ_SIZE = 65536
+
     def __init__(self, op):
         super().__init__(op)
         self.process = None
-        self.output_handler = None
-        self.lock = threading.Lock()
+        self.selector = None
+        # Output of the process following the last complete line, for stdout and stderr
+        self.partial = None
+        # True if the operators receiving the output of the process failed
+        self.failed = False
 
     def receive(self, env, x):
-        self.ensure_command_running(env)
+        self.ensure_command_running()
         if x is not None:
             if len(x) == 1:
                 x = x[0]
-            self.process.stdin.write(str(x))
-            self.process.stdin.write('\n')
-            self.process.stdin.flush()
+            self.write(env, f'{x}\n'.encode(errors='surrogateescape'))
 
     def flush(self, env):
-        self.process.stdin.close()
-        self.output_handler.join()
+        if self.process:
+            self.close(self.process.stdin)
+            self.read_to_end(env)
 
     def cleanup(self):
         self.shutdown()
 
     # Implementation
 
-    def ensure_command_running(self, env):
+    # Everything is done by the main thread: It runs the other operators of the pipeline, which aren't prepared to
+    # run concurrently. Input and output are interleaved, because the process may be unable to accept input until
+    # its output has been read.
+
+    def ensure_command_running(self):
         if self.process is None:
-            command = self.command()
-            self.process = subprocess.Popen(command,
+            self.process = subprocess.Popen(self.command(),
                                             shell=True,
                                             executable=self.bash,
                                             stdin=subprocess.PIPE,
                                             stdout=subprocess.PIPE,
                                             stderr=subprocess.PIPE,
-                                            universal_newlines=True,
+                                            bufsize=0,
                                             preexec_fn=os.setsid)
-            self.output_handler = ProcessOutputHandler(env, self)
-            self.output_handler.start()
+            os.set_blocking(self.process.stdin.fileno(), False)
+            self.selector = selectors.DefaultSelector()
+            self.selector.register(self.process.stdin, selectors.EVENT_WRITE)
+            self.selector.register(self.process.stdout, selectors.EVENT_READ)
+            self.selector.register(self.process.stderr, selectors.EVENT_READ)
+            self.partial = {self.process.stdout: bytearray(), self.process.stderr: bytearray()}
+
+    def write(self, env, data):
+        stdin = self.process.stdin
+        while len(data) > 0 and not stdin.closed:
+            for key, _ in self.selector.select():
+                if key.fileobj is stdin:
+                    try:
+                        data = data[os.write(stdin.fileno(), data):]
+                    except BlockingIOError:
+                        pass
+                    except BrokenPipeError:
+                        # The process doesn't want any more input
+                        self.close(stdin)
+                else:
+                    self.read(env, key.fileobj)
+
+    # Reads one chunk of output, which is known to be available.
+    def read(self, env, stream):
+        data = os.read(stream.fileno(), NonInteractive.READ_SIZE)
+        partial = self.partial[stream]
+        partial.extend(data)
+        if len(data) == 0:
+            lines = [partial] if len(partial) > 0 else []
+            self.close(stream)
+        elif b'\n' in data:
+            *lines, self.partial[stream] = partial.split(b'\n')
+        else:
+            lines = []
+        for line in lines:
+            self.send(env, stream, line.decode(errors='replace'))
+
+    def read_to_end(self, env):
+        while len(self.selector.get_map()) > 0:
+            events = self.selector.select(timeout=0.1)
+            if len(events) == 0 and self.process.poll() is not None:
+                # The process is done, but something that it started still has the streams open.
+                for stream, partial in self.partial.items():
+                    if not stream.closed:
+                        self.close(stream)
+                        if len(partial) > 0:
+                            self.send(env, stream, partial.decode(errors='replace'))
+            for key, _ in events:
+                self.read(env, key.fileobj)
+
+    def send(self, env, stream, line):
+        if not self.failed:
+            try:
+                if stream is self.process.stdout:
+                    self.op.send(env, line)
+                else:
+                    self.op.send(env, marcel.object.error.Error(line))
+            except BaseException:
+                self.failed = True
+                raise
+
+    def close(self, stream):
+        if not stream.closed:
+            self.selector.unregister(stream)
+            stream.close()
 
     def shutdown(self):
-        while self.output_handler.is_alive():
-            self.output_handler.join(0.1)
-        self.lock.acquire()
-        try:
-            if self.process:
-                self.process.wait()
-                self.process.stdout.close()
-                self.process.stderr.close()
-                self.process = None
-        finally:
-            self.lock.release()
+        if self.process:
+            process = self.process
+            self.close(process.stdin)
+            if self.failed:
+                # Nobody is interested in the remaining output
+                self.close(process.stdout)
+                self.close(process.stderr)
+            else:
+                # If there is any more output, it is because the pipeline was terminated before flush. Ignore it, but
+                # don't interrupt the process.
+                self.failed = True
+                self.read_to_end(None)
+            process.wait()
+            self.selector.close()
+            self.process = None
 
 
 class Interactive(Escape):
 
     def __init__(self, op):
         super().__init__(op)
-        self.process = subprocess.Popen(self.command(),
-                                        shell=True,
-                                        executable=self.bash,
-                                        universal_newlines=True,
-                                        preexec_fn=os.setsid)
+        self.process = None
 
-    def run(self, env):
-        self.process.wait()
-        if self.process.returncode != 0:
-            marcel.util.print_to_stderr(env, self.process.stderr)
+    def receive(self, env, _):
+        # stdin isn't handled by marcel, so there is one process, regardless of how much input there is.
+        if self.process is None:
+            self.process = subprocess.Popen(self.command(),
+                                            shell=True,
+                                            executable=self.bash,
+                                            universal_newlines=True,
+                                            preexec_fn=os.setsid)
+            self.process.wait()
 
 
 class BashShell(Escape):
 
     def __init__(self, op):
         super().__init__(op)
-        self.process = subprocess.Popen('bash',
-                                        shell=True,
-                                        executable=self.bash,
-                                        universal_newlines=True)
+        self.process = None
 
     def receive(self, env, _):
-        self.process.wait()
-        if self.process.returncode != 0:
-            marcel.util.print_to_stderr(env, self.process.stderr)
-
-
-class ProcessOutputHandler(threading.Thread):
-
-    def __init__(self, env, owner):
-        super().__init__()
-        self.env = env
-        self.owner = owner
-
-    def run(self):
-        process = self.owner.process
-        op = self.owner.op
-        lock = self.owner.lock
-        sel = selectors.DefaultSelector()
-        sel.register(process.stdout, selectors.EVENT_READ)
-        sel.register(process.stderr, selectors.EVENT_READ)
-        while True:
-            events = sel.select(timeout=0.1)
-            lock.acquire()
-            try:
-                if not events and process.poll() is not None:
-                    break
-                for key, _ in events:
-                    stream = key.fileobj
-                    line = stream.readline()
-                    if not line:
-                        sel.unregister(key.fileobj)
-                    else:
-                        output = ProcessOutputHandler.normalize_output(line)
-                        if stream is process.stdout:
-                            op.send(self.env, output)
-                        elif stream is process.stderr:
-                            op.send(self.env, marcel.object.error.Error(output))
-            finally:
-                lock.release()
-        process.wait()
-
-    @staticmethod
-    def normalize_output(x):
-        if x[-1] == '\n':
-            x = x[:-1]
-        return x
+        if self.process is None:
+            self.process = subprocess.Popen('bash',
+                                            shell=True,
+                                            executable=self.bash,
+                                            universal_newlines=True)
+            self.process.wait()
-- 
2.43.0


From 945cf9043768ad04288017284d730eaf601624b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:14 +0000
Subject: [PATCH 077/103] fix: what a program prints to stderr is an error in
 the stream, not a row

---
 marcel/op/bash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index 2731078..f8be638 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -244,7 +244,7 @@ class NonInteractive(Escape):
                 if stream is self.process.stdout:
                     self.op.send(env, line)
                 else:
-                    self.op.send(env, marcel.object.error.Error(line))
+                    self.op.send_error(env, marcel.object.error.Error(line))
             except BaseException:
                 self.failed = True
                 raise
-- 
2.43.0


From be7fd2481cf4afeee06008f4bc2d7c64c3981a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:14 +0000
Subject: [PATCH 078/103] fix: quotes and escapes have their meaning in every
 part of a string, and next to expressions

---
 marcel/parser.py        | 28 ++++++++++------------
 marcel/stringliteral.py | 51 +++++++++++++++++++++++------------------
 2 files changed, 41 insertions(+), 38 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index 99782a6..9c4664a 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -456,23 +456,21 @@ class String(Token):
                     quote = None
             elif c == Token.ESCAPE_CHAR:
                 if quote is None:
-                    # TODO: ESCAPE at end of line
                     chars.append(c)
                     c = self.next_char()
                     if c is None:
-                        break
+                        raise LexerException(self, 'Nothing follows the escape character')
                     chars.append(c)
                 elif quote == Token.SINGLE_QUOTE:
                     chars.append(c)
                 elif quote == Token.DOUBLE_QUOTE:
-                    # TODO: no next char
+                    # Whether the escape is significant is up to StringLiteral. What matters here is that an escaped
+                    # quote does not terminate the string.
+                    chars.append(c)
                     c = self.next_char()
-                    # TODO: Other escaped chars inside double quotes
-                    if c == Token.ESCAPE_CHAR:
-                        chars.append(c)
-                    else:
-                        chars.append(Token.ESCAPE_CHAR)
-                        chars.append(c)
+                    if c is None:
+                        break
+                    chars.append(c)
                 else:
                     raise LexerException(self, 'Malformed string')
             else:
@@ -703,18 +701,16 @@ class Lexer(Source):
         return consolidated
 
     def consolidate(self, tokens):
-        # Generate a new Expression token that combines the strings and expressions into
-        # a Python f'...' string.
-        buffer = ["(f'''"]
+        # Generate a new Expression token that concatenates the strings and the values of the expressions.
+        buffer = []
         for token in tokens:
             if token.is_string():
-                buffer.append(token.value())
+                buffer.append(repr(str(token.value())))
             elif token.is_expr():
-                buffer.extend(['{', token.source(), '}'])
+                buffer.append(f'str({token.source()})')
             else:
                 assert False, token
-        buffer.append("''')")
-        token = Expression(self.parser, ''.join(buffer), 0)
+        token = Expression(self.parser, f'({" + ".join(buffer)})', 0)
         return token
 
     def next_unconsolidated_token(self):
diff --git a/marcel/stringliteral.py b/marcel/stringliteral.py
index 0b470bb..b5cf455 100644
--- a/marcel/stringliteral.py
+++ b/marcel/stringliteral.py
@@ -53,26 +53,33 @@ class StringLiteral(str):
         if self.original is not None:
             self.escape = False
             self.unterminated_quote = False
-            if self[0] in StringLiteral.QUOTES:
-                # Remove quotes
-                self.quote = self[0]
-                self.unterminated_quote = self[-1] != self.quote
-                self.string = self[1:] if self.unterminated_quote else self[1:-1]
-            else:
-                # Remove escapes if any
-                self.string = ''
-                i = 0
-                n = len(self)
-                while i < n:
-                    c = self[i]
+            # Remove quotes and escapes. There may be several parts, quoted in different ways.
+            quote = None
+            chars = []
+            i = 0
+            n = len(self)
+            while i < n:
+                c = self[i]
+                i += 1
+                if quote is None and c in StringLiteral.QUOTES:
+                    quote = c
+                    if i == 1:
+                        self.quote = quote
+                elif c == quote:
+                    quote = None
+                elif c == '\\' and quote is None:
+                    self.escape = True
+                    if i == n:
+                        raise Exception(f'string literal terminated by lone escape: {self}')
+                    chars.append(self[i])
                     i += 1
-                    if c == '\\':
-                        self.escape = True
-                        if i < n:
-                            c = self[i]
-                            i += 1
-                            self.string += c
-                        else:
-                            raise Exception(f'string literal terminated by lone escape: {self}')
-                    else:
-                        self.string += c
+                elif c == '\\' and quote == '"' and self[i:i + 1] in ('\\', '"'):
+                    # Inside double quotes, these are the characters that can be escaped.
+                    chars.append(self[i])
+                    i += 1
+                else:
+                    chars.append(c)
+            if quote is not None:
+                self.unterminated_quote = True
+                self.quote = quote
+            self.string = ''.join(chars)
-- 
2.43.0


From f33856b337d4d3ba1616fc6c5509543b47b9091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:01 +0000
Subject: [PATCH 079/103] fix: arguments of programs keep an escaped blank at
 their end

---
 marcel/op/bash.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index f8be638..d6ce510 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -95,13 +95,13 @@ class Bash(marcel.core.Op):
 
     def setup(self, env):
         def executable(command):
-            return ''if command is None or len(command) == 0 else command.split()[0]
+            return '' if len(command.strip()) == 0 else command.split()[0]
 
         self.args = self.eval_function(env, 'args_arg')
-        self.command = ' '.join([str(x).strip() for x in self.args])
+        self.command = ' '.join([str(x) for x in self.args])
         # Try to extract the executable to see if it is interactive.
         interactive = self.interactive or env.is_interactive_executable(executable(self.command))
-        self.escape = (BashShell(self) if len(self.command) == 0 else
+        self.escape = (BashShell(self) if len(self.command.strip()) == 0 else
                        Interactive(self) if interactive else
                        NonInteractive(self))
 
-- 
2.43.0


From 46fe607f837365c456daecb0c8ae92aca18af916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:52 +0000
Subject: [PATCH 080/103] fix: arguments of pipelines, redirection targets and
 parameters are checked like those of operators

---
 marcel/argsparser.py |  6 ++++++
 marcel/parser.py     | 30 ++++++++++++++++++++++--------
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index a403ee2..e2dcb5c 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -515,8 +515,12 @@ class PipelineArgsParser:
             if flag_name:
                 if flags_done:
                     raise ArgsError(self.var, f'Flag {flag_name} appears after anonymous arguments.')
+                if param_name is not None:
+                    raise ArgsError(self.var, f'Flag {param_name} has no value.')
                 param_name = flag_name
             else:
+                if isinstance(arg, str):
+                    arg = marcel.util.string_value(arg)
                 if param_name is None:
                     flags_done = True
                     args.append(arg)
@@ -525,6 +529,8 @@ class PipelineArgsParser:
                         raise ArgsError(self.var, f'Flag {param_name} given more than once.')
                     kwargs[param_name] = arg
                     param_name = None
+        if param_name is not None:
+            raise ArgsError(self.var, f'Flag {param_name} has no value.')
         return args, kwargs
 
     @staticmethod
diff --git a/marcel/parser.py b/marcel/parser.py
index 9c4664a..47e1a97 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -691,10 +691,10 @@ class Lexer(Source):
                 # Don't consume the next token if it isn't going to be consollidated.
                 mark = self.mark()
                 token = self.next_unconsolidated_token()
-                if consolidatable(token):
+                if token and consolidatable(token):
                     adjacent_tokens.append(token)
                 else:
-                    # token is not consolidatable, so loop condition will be false.
+                    # token is missing (e.g. a comment) or not consolidatable, so loop condition will be false.
                     self.reset(mark)
             n_adjacent = len(adjacent_tokens)
             consolidated = self.consolidate(adjacent_tokens) if n_adjacent > 1 else adjacent_tokens[0]
@@ -705,7 +705,11 @@ class Lexer(Source):
         buffer = []
         for token in tokens:
             if token.is_string():
-                buffer.append(repr(str(token.value())))
+                if token.missing_quote():
+                    raise ParseError(f'Missing quote: {token.value()}')
+                # A marcel string has its quotes and escapes removed. Executables need to see them.
+                string = str(token.value()) if self.parser.shell_op else marcel.util.string_value(token.value())
+                buffer.append(repr(string))
             elif token.is_expr():
                 buffer.append(f'str({token.source()})')
             else:
@@ -1035,6 +1039,8 @@ class Parser(object):
             command = self.assignment(self.token.value())
         else:
             command = self.pipeline()
+            if len(command.parameters()) > 0:
+                raise ParseError(f'Only a pipeline in (| ... |) can have parameters: {", ".join(command.parameters())}')
         if not self.at_end():
             raise ParseError(f'{command} followed by excess tokens')
         return command
@@ -1073,7 +1079,7 @@ class Parser(object):
                 # str lt gt str
                 gt = self.token
                 if self.next_token(String):
-                    target = self.token
+                    target = self.redirect_target()
                     op_sequence = [self.redirect_in_op(lt, source),
                                    self.redirect_out_op(gt, target)]
                 else:
@@ -1087,7 +1093,7 @@ class Parser(object):
                         gt = self.token
                         found_string = self.next_token(String)
                         assert found_string
-                        target = self.token
+                        target = self.redirect_target()
                         op_sequence.append(self.redirect_out_op(gt, target))
             return op_sequence
 
@@ -1095,7 +1101,7 @@ class Parser(object):
             self.op_arg_context.reset()
             gt = self.token
             if self.next_token(String):
-                op_sequence = [self.redirect_out_op(gt, self.token)]
+                op_sequence = [self.redirect_out_op(gt, self.redirect_target())]
             else:
                 raise SyntaxError(self.token, 'Invalid redirection target')
             return op_sequence
@@ -1107,7 +1113,7 @@ class Parser(object):
                 arrow_token = self.token
                 found_string = self.next_token(String)
                 assert found_string
-                store_op = self.redirect_out_op(arrow_token, self.token)
+                store_op = self.redirect_out_op(arrow_token, self.redirect_target())
                 op_sequence.append(store_op)
             # else:  op_sequence is OK as is
             return op_sequence
@@ -1128,6 +1134,12 @@ class Parser(object):
                 pipeline.append(self.create_op(*op_args))
         return marcel.pipeline.Pipeline.create(self.env, pipeline)
 
+    # The current token is the target of a redirection.
+    def redirect_target(self):
+        if self.token.missing_quote():
+            raise marcel.exception.MissingQuoteException(self.token.value())
+        return self.token
+
     def redirect_in_op(self, arrow_token, source=None):
         op_name = 'load' if arrow_token.is_var() else 'read'
         return ConstructedString(self, op_name), [] if source is None else [source]
@@ -1216,7 +1228,7 @@ class Parser(object):
 
     def vars(self):
         vars = []
-        while self.token.is_string():
+        while self.token and self.token.is_string():
             vars.append(self.token.value())
             if self.next_token(Comma):
                 if not self.next_token(String):
@@ -1226,6 +1238,8 @@ class Parser(object):
                 self.next_token()  # Should be string or colon
         # Shouldn't have called vars() unless the token (on entry) was a string.
         assert len(vars) > 0
+        if self.token is None:
+            raise PrematureEndError()
         if not self.token.is_colon():
             raise SyntaxError(self.token, f'Expected comma or colon, found {self.token}')
         return vars
-- 
2.43.0


From aef4125845dc932ece0b58134f7b61bb13576465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:52 +0000
Subject: [PATCH 081/103] fix: functions can have blanks before their
 parameters, defaults, and keyword parameters

---
 marcel/function_args_parser.py | 35 +++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/marcel/function_args_parser.py b/marcel/function_args_parser.py
index 170e313..e647a78 100644
--- a/marcel/function_args_parser.py
+++ b/marcel/function_args_parser.py
@@ -25,6 +25,7 @@ class State(Enum):
     ARG = 4
     END = 5
     NO_ARGS = 6
+    DEFAULT = 7
 
     def terminal(self):
         return self in (State.END, State.NO_ARGS)
@@ -36,15 +37,17 @@ class Symbol(Enum):
     COMMA = 3,
     STAR = 4,
     COLON = 5,
-    OTHER = 6
+    OTHER = 6,
+    EQUALS = 7
 
     @staticmethod
     def of(token):
         return (Symbol.LAMBDA if token.type == tkn.NAME and token.string == 'lambda' else
                 Symbol.NAME if token.type == tkn.NAME else
                 Symbol.COMMA if token.type == tkn.OP and token.string == ',' else
-                Symbol.STAR if token.type == tkn.OP and token.string == '*' else
+                Symbol.STAR if token.type == tkn.OP and token.string in ('*', '**') else
                 Symbol.COLON if token.type == tkn.OP and token.string == ':' else
+                Symbol.EQUALS if token.type == tkn.OP and token.string == '=' else
                 Symbol.OTHER)
 
 
@@ -58,7 +61,9 @@ class FunctionArgsParser(object):
         self.explicit_lambda = False
         self.explicit_colon = False
         self.has_args = False
-        self.input = io.BytesIO(source.encode('utf-8')).readline
+        # Whitespace before the first token is not indentation.
+        self.input = io.BytesIO(source.lstrip().encode('utf-8')).readline
+        self.nesting = []  # Brackets not closed, and lambdas without colon, in the default value of an argument
         self.transitions = {
             (State.START, Symbol.LAMBDA): self.start_lambda,
             (State.START, Symbol.STAR): self.start_star,
@@ -69,7 +74,8 @@ class FunctionArgsParser(object):
             (State.ARGLIST, Symbol.COLON): self.arglist_colon,
             (State.STAR, Symbol.NAME): self.star_name,
             (State.ARG, Symbol.COMMA): self.arg_comma,
-            (State.ARG, Symbol.COLON): self.arg_colon
+            (State.ARG, Symbol.COLON): self.arg_colon,
+            (State.ARG, Symbol.EQUALS): self.arg_equals
         }
 
     def __repr__(self):
@@ -87,7 +93,8 @@ class FunctionArgsParser(object):
             if token.type == tkn.ENDMARKER:
                 break
             if token.type not in (tkn.ENCODING, tkn.NEWLINE):
-                self.state = transition(Symbol.of(token))
+                self.state = (self.default_value(token) if self.state == State.DEFAULT else
+                              transition(Symbol.of(token)))
                 if self.state.terminal():
                     break
         if self.state != State.END:
@@ -125,6 +132,24 @@ class FunctionArgsParser(object):
         self.has_args = True
         return State.ARG
 
+    def arg_equals(self):
+        return State.DEFAULT
+
+    # token is part of the default value of an argument, or follows it.
+    def default_value(self, token):
+        symbol = Symbol.of(token)
+        if symbol is Symbol.LAMBDA or token.type == tkn.OP and token.string in '([{':
+            self.nesting.append(token.string)
+        elif len(self.nesting) > 0:
+            if (symbol is Symbol.COLON and self.nesting[-1] == 'lambda' or
+                    token.type == tkn.OP and token.string in ')]}'):
+                self.nesting.pop()
+        elif symbol is Symbol.COMMA:
+            return self.arg_comma()
+        elif symbol is Symbol.COLON:
+            return self.arg_colon()
+        return State.DEFAULT
+
     def arg_comma(self):
         return State.ARGLIST
 
-- 
2.43.0


From b7a95ae32136969c238ce9db78fd135bed726f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:52 +0000
Subject: [PATCH 082/103] fix: parameters of a pipeline are separated by commas

---
 marcel/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index 47e1a97..9843db7 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1235,7 +1235,8 @@ class Parser(object):
                     self.next_token()
                     raise SyntaxError(self.token, f'Expected a var, found {self.token}')
             else:
-                self.next_token()  # Should be string or colon
+                self.next_token()  # Should be colon
+                break
         # Shouldn't have called vars() unless the token (on entry) was a string.
         assert len(vars) > 0
         if self.token is None:
-- 
2.43.0


From 06f50274147d6c324c7a6e3656f97b2f027448d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 083/103] fix: read without files, and intersect without
 pipelines, do not end the session

---
 marcel/op/intersect.py | 4 ++++
 marcel/op/read.py      | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/marcel/op/intersect.py b/marcel/op/intersect.py
index 727d695..1a6b890 100644
--- a/marcel/op/intersect.py
+++ b/marcel/op/intersect.py
@@ -73,6 +73,10 @@ class Intersect(marcel.core.Op):
         self.common = None
 
     def receive(self, env, x):
+        if len(self.pipelines) == 0:
+            # There is nothing to intersect with.
+            self.send(env, x)
+            return
         self.ensure_args_consumed(env)
         try:
             count = self.common.get(x, 0)
diff --git a/marcel/op/read.py b/marcel/op/read.py
index e048139..9b126df 100644
--- a/marcel/op/read.py
+++ b/marcel/op/read.py
@@ -201,7 +201,7 @@ class Read(marcel.op.filenamesop.FilenamesOp):
         if self.filenames:
             return super().run(env)
         else:
-            return self.receive(env, None)
+            raise marcel.exception.KillCommandException('read: There are no filenames, and no files are piped in.')
 
     def receive(self, env, x):
         if x is None:
-- 
2.43.0


From 746be507e5a4f12ce4b6f91033e9ff4f266077d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:35 +0000
Subject: [PATCH 084/103] fix: flags following the name of an executable belong
 to the executable

---
 marcel/argsparser.py | 9 +++++++--
 marcel/op/bash.py    | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index e2dcb5c..f3db02d 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -125,6 +125,9 @@ class ArgsParser:
         self.flag_args = []
         self.anon_args = []
         self.anon_list_arg = None
+        # If True, then everything following the first anonymous arg is an anonymous arg too, even if it looks like
+        # a flag.
+        self.verbatim_anon = False
         self.at_most_one_names = []
         self.exactly_one_names = []
         self.validated = False
@@ -416,8 +419,10 @@ class ArgsParser:
         flag_ok = len(self.flag_args) > 0
         try:
             while True:
-                for arg in self.expand_arg(next(args_iterator)):
-                    flag_arg = self.find_flag(arg)
+                verbatim = self.verbatim_anon and not flag_ok
+                arg = next(args_iterator)
+                for arg in [arg] if verbatim else self.expand_arg(arg):
+                    flag_arg = None if verbatim else self.find_flag(arg)
                     if flag_arg:
                         # Flag
                         if flag_ok:
diff --git a/marcel/op/bash.py b/marcel/op/bash.py
index d6ce510..573f1c4 100644
--- a/marcel/op/bash.py
+++ b/marcel/op/bash.py
@@ -76,6 +76,8 @@ class BashArgsParser(marcel.argsparser.ArgsParser):
         super().__init__('bash', env)
         self.add_flag_no_value('interactive', '-i', '--interactive')
         self.add_anon_list('args', convert=self.check_str, target='args_arg')
+        # Flags following the name of the executable belong to the executable.
+        self.verbatim_anon = True
         self.validate()
 
 
-- 
2.43.0


From 7a138656f91f5e1a07ca79cd3a1433331b72d01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:43 +0000
Subject: [PATCH 085/103] fix: fg and bg can identify a job by flag, as
 declared

---
 marcel/op/jobop.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marcel/op/jobop.py b/marcel/op/jobop.py
index 8eabc4d..0d68e95 100644
--- a/marcel/op/jobop.py
+++ b/marcel/op/jobop.py
@@ -25,7 +25,7 @@ class JobOpArgsParser(marcel.argsparser.ArgsParser):
         super().__init__(op_name, env)
         self.add_flag_one_value('jid', '-j', '--job', convert=self.str_to_int)
         self.add_flag_one_value('pid', '-p', '--process', convert=self.str_to_int)
-        self.add_anon('job_id', convert=self.str_to_int)
+        self.add_anon('job_id', convert=self.str_to_int, default=None)
         self.exactly_one('jid', 'pid', 'job_id')
         self.validate()
 
@@ -45,9 +45,11 @@ class JobOp(marcel.core.Op):
         job_control = marcel.job.JobControl.only
         if self.job_id is not None:
             self.jid = self.job_id
-        if self.jid is not None and self.jid >= len(job_control.jobs()):
+        if self.jid is not None and not 0 <= self.jid < len(job_control.jobs()):
             raise marcel.exception.KillCommandException(f'There is no job {self.jid}')
         self.job = job_control.job(jid=self.jid, pid=self.pid)
+        if self.job is None:
+            raise marcel.exception.KillCommandException(f'There is no job with process {self.pid}')
 
     def run(self, env):
         self.action()
-- 
2.43.0


From a7e5a5b265d5486f9d772f73c54ca8667f4b70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 086/103] fix: arguments of unsuitable types are refused with a
 message

---
 marcel/argsparser.py |  6 ++++++
 marcel/op/edit.py    |  8 +++++---
 marcel/op/env.py     |  6 +++---
 marcel/op/expand.py  |  2 ++
 marcel/op/filter.py  |  2 +-
 marcel/op/help.py    |  2 +-
 marcel/op/history.py |  2 +-
 marcel/op/import.py  |  6 +++---
 marcel/op/ps.py      |  8 ++++----
 marcel/op/trace.py   |  2 +-
 marcel/op/write.py   |  3 ++-
 marcel/op/ws.py      | 18 +++++++++---------
 12 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/marcel/argsparser.py b/marcel/argsparser.py
index f3db02d..81b2700 100644
--- a/marcel/argsparser.py
+++ b/marcel/argsparser.py
@@ -212,6 +212,12 @@ class ArgsParser:
             raise ArgsError(arg.op_name, f'{arg.name} must be a string: {x}')
         return x
 
+    # A string, not the value of an expression.
+    def check_name(self, arg, x):
+        if not isinstance(x, str):
+            raise ArgsError(arg.op_name, f'{arg.name} must be a string: {x}')
+        return marcel.util.string_value(x)
+
     def check_str_or_file(self, arg, x):
         if isinstance(x, str):
             x = marcel.util.string_value(x)
diff --git a/marcel/op/edit.py b/marcel/op/edit.py
index f3aac87..5ba94b2 100644
--- a/marcel/op/edit.py
+++ b/marcel/op/edit.py
@@ -59,7 +59,7 @@ class EditArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('edit', env)
-        self.add_flag_optional_value('startup', '-s', '--startup', default=True)
+        self.add_flag_optional_value('startup', '-s', '--startup', default=True, convert=self.check_name)
         self.add_anon('command', convert=self.str_to_int, default=None)
         self.at_most_one('startup', 'command')
         self.validate()
@@ -80,7 +80,9 @@ class Edit(marcel.core.Op):
     # AbstractOp
 
     def setup(self, env):
-        assert self.command is None  # edit COMMAND should be handled by Reader, shouldn't get here.
+        # edit COMMAND is normally handled by Reader, and doesn't get here.
+        if self.command is not None:
+            raise marcel.exception.KillCommandException(f'Command cannot be edited: {self.command}')
         self.ws_name = None if self.startup is True else self.startup
 
     def run(self, env):
@@ -88,7 +90,7 @@ class Edit(marcel.core.Op):
             workspace = env.workspace
         else:
             workspace = marcel.object.workspace.Workspace.named(self.ws_name)
-            if not workspace.exists(env):
+            if not workspace.exists():
                 raise marcel.exception.KillCommandException(f'Workspace does not exist: {self.ws_name}')
         marcel.runeditor.edit_file(env, env.locations.config_ws_startup(workspace))
 
diff --git a/marcel/op/env.py b/marcel/op/env.py
index ef9ac87..665ec09 100644
--- a/marcel/op/env.py
+++ b/marcel/op/env.py
@@ -81,11 +81,11 @@ class EnvArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('env', env)
-        self.add_flag_one_value('delete', '-d', '--delete')
-        self.add_flag_one_value('pattern', '-p', '--pattern')
+        self.add_flag_one_value('delete', '-d', '--delete', convert=self.check_name)
+        self.add_flag_one_value('pattern', '-p', '--pattern', convert=self.check_name)
         self.add_flag_no_value('builtins', '-b', '--builtins')
         self.add_flag_no_value('os', '-o', '--os')
-        self.add_anon('var', default=None)
+        self.add_anon('var', convert=self.check_name, default=None)
         self.at_most_one('delete', 'var', 'pattern')
         self.at_most_one('delete', 'os')
         self.at_most_one('builtins', 'os')
diff --git a/marcel/op/expand.py b/marcel/op/expand.py
index d8d1aaf..cfd6465 100644
--- a/marcel/op/expand.py
+++ b/marcel/op/expand.py
@@ -96,6 +96,8 @@ class Expand(marcel.core.Op):
 
     def setup(self, env):
         self.position = self.eval_function(env, 'position_arg', int)
+        if self.position is not None and self.position < 0:
+            raise marcel.exception.KillCommandException(f'position must not be negative: {self.position}')
         self.expander = SequenceExpander(self) if self.position is None else ComponentExpander(self)
 
     def receive(self, env, x):
diff --git a/marcel/op/filter.py b/marcel/op/filter.py
index b3d294b..e26c1c2 100644
--- a/marcel/op/filter.py
+++ b/marcel/op/filter.py
@@ -80,7 +80,7 @@ class FilterArgsParser(marcel.argsparser.ArgsParser):
         super().__init__('filter', env)
         self.add_flag_no_value('keep', '-k', '--keep')
         self.add_flag_no_value('discard', '-d', '--discard')
-        self.add_flag_one_value('compare', '-c', '--compare')
+        self.add_flag_one_value('compare', '-c', '--compare', convert=self.function)
         self.add_anon('pipeline', convert=self.check_pipeline)
         self.at_most_one('keep', 'discard')
         self.validate()
diff --git a/marcel/op/help.py b/marcel/op/help.py
index 4240b27..9594321 100644
--- a/marcel/op/help.py
+++ b/marcel/op/help.py
@@ -59,7 +59,7 @@ class Help(marcel.core.Op):
     # AbstractOp
     
     def setup(self, env):
-        self.topic = self.topic.lower()
+        self.topic = self.eval_function(env, 'topic', str).lower()
 
     def run(self, env):
         op_module = env.op_modules.get(self.topic, None)
diff --git a/marcel/op/history.py b/marcel/op/history.py
index fba7f4b..032169f 100644
--- a/marcel/op/history.py
+++ b/marcel/op/history.py
@@ -54,7 +54,7 @@ class HistoryArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('history', env)
-        self.add_flag_one_value('pattern', '-c', '--command')
+        self.add_flag_one_value('pattern', '-c', '--command', convert=self.check_name)
         self.add_flag_no_value('all', '-a', '--all')
         self.add_anon('n', convert=self.str_to_int, default=None)
         self.at_most_one('all', 'n')
diff --git a/marcel/op/import.py b/marcel/op/import.py
index ce8b5c8..bbcba1b 100644
--- a/marcel/op/import.py
+++ b/marcel/op/import.py
@@ -52,9 +52,9 @@ class ImportArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('import', env)
-        self.add_flag_one_value('as', '-a', '--as', target='name')
-        self.add_anon('module')
-        self.add_anon('symbol', default=None)
+        self.add_flag_one_value('as', '-a', '--as', convert=self.check_name, target='name')
+        self.add_anon('module', convert=self.check_name)
+        self.add_anon('symbol', convert=self.check_name, default=None)
         self.validate()
 
 
diff --git a/marcel/op/ps.py b/marcel/op/ps.py
index 6028d22..e434842 100644
--- a/marcel/op/ps.py
+++ b/marcel/op/ps.py
@@ -97,10 +97,10 @@ class PsArgsParser(marcel.argsparser.ArgsParser):
 
     def __init__(self, env):
         super().__init__('ps', env)
-        self.add_flag_optional_value('user', '-u', '--user', default=True)
-        self.add_flag_optional_value('group', '-g', '--group', default=True)
-        self.add_flag_one_value('pid', '-p', '--pid')
-        self.add_flag_one_value('command', '-c', '--command')
+        self.add_flag_optional_value('user', '-u', '--user', default=True, convert=self.check_name)
+        self.add_flag_optional_value('group', '-g', '--group', default=True, convert=self.check_name)
+        self.add_flag_one_value('pid', '-p', '--pid', convert=self.check_name)
+        self.add_flag_one_value('command', '-c', '--command', convert=self.check_name)
         self.at_most_one('user', 'group', 'pid', 'command')
         self.validate()
 
diff --git a/marcel/op/trace.py b/marcel/op/trace.py
index 6ccc45c..43d6d54 100644
--- a/marcel/op/trace.py
+++ b/marcel/op/trace.py
@@ -64,7 +64,7 @@ class TraceArgsParser(marcel.argsparser.ArgsParser):
         super().__init__('trace', env)
         self.add_flag_no_value('off', '-0', '--off')
         self.add_flag_no_value('on', '-1', '--on')
-        self.add_flag_one_value('file', '-f', '--file', target='filename')
+        self.add_flag_one_value('file', '-f', '--file', convert=self.check_name, target='filename')
         self.at_most_one('on', 'off', 'file')
         self.validate()
 
diff --git a/marcel/op/write.py b/marcel/op/write.py
index 70ec29e..68dcd6e 100644
--- a/marcel/op/write.py
+++ b/marcel/op/write.py
@@ -90,7 +90,7 @@ class WriteArgsParser(marcel.argsparser.ArgsParser):
         self.add_flag_no_value('csv', '-c', '--csv')
         self.add_flag_no_value('tsv', '-t', '--tsv')
         self.add_flag_no_value('pickle', '-p', '--pickle')
-        self.add_flag_one_value('format', '-f', '--format')
+        self.add_flag_one_value('format', '-f', '--format', convert=self.check_str)
         self.add_flag_no_value('append', '-a', '--append')
         self.add_anon('filename', convert=self.check_str, default=None, target='filename_arg')
         self.at_most_one('csv', 'tsv', 'pickle', 'format')
@@ -132,6 +132,7 @@ class Write(marcel.core.Op):
 
     def setup(self, env):
         self.filename = self.eval_function(env, 'filename_arg', str)
+        self.format = self.eval_function(env, 'format', str)
         if self.pickle and self.filename is None:
             raise marcel.exception.KillCommandException(
                 '--pickle incompatible with stdout.')
diff --git a/marcel/op/ws.py b/marcel/op/ws.py
index b12fcfb..bac6eba 100644
--- a/marcel/op/ws.py
+++ b/marcel/op/ws.py
@@ -128,17 +128,17 @@ class WsArgsParser(marcel.argsparser.ArgsParser):
     def __init__(self, env):
         super().__init__('ws', env)
         self.add_flag_no_value('list', '-l', '--list')
-        self.add_flag_one_value('new', '-n', '--new')
-        self.add_flag_one_value('open', '-o', '--open')
+        self.add_flag_one_value('new', '-n', '--new', convert=self.check_name)
+        self.add_flag_one_value('open', '-o', '--open', convert=self.check_name)
         self.add_flag_no_value('close', '-c', '--close')
-        self.add_flag_one_value('delete', '-d', '--delete')
+        self.add_flag_one_value('delete', '-d', '--delete', convert=self.check_name)
         self.add_flag_no_value('delete_broken', '-b', '--delete-broken')
-        self.add_flag_one_value('home', '-h', '--home')
-        self.add_flag_one_value('rename', '-r', '--rename')
-        self.add_flag_one_value('copy', '-2', '--copy')
-        self.add_flag_one_value('export', '-e', '--export', target='exp')
-        self.add_flag_one_value('import', '-i', '--import', target='imp')
-        self.add_anon('name', default=None)
+        self.add_flag_one_value('home', '-h', '--home', convert=self.check_name)
+        self.add_flag_one_value('rename', '-r', '--rename', convert=self.check_name)
+        self.add_flag_one_value('copy', '-2', '--copy', convert=self.check_name)
+        self.add_flag_one_value('export', '-e', '--export', convert=self.check_name, target='exp')
+        self.add_flag_one_value('import', '-i', '--import', convert=self.check_name, target='imp')
+        self.add_anon('name', convert=self.check_name, default=None)
         self.at_most_one('list', 'new', 'open', 'close', 'delete', 'delete_broken',
                          'home', 'rename', 'copy', 'export', 'import')
         self.validate()
-- 
2.43.0


From 9546df78d2d372393192a6ef3903720fd7c21659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:38 +0000
Subject: [PATCH 087/103] fix: here-documents with blank lines, startup scripts
 of workspaces opened by a script

---
 marcel/main.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index 6fb602a..b981aff 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -367,11 +367,17 @@ def main_interactive_run():
 
 
 def main_script_run(script):
+    def start(workspace, trace=None):
+        env = marcel.env.Environment.create(workspace=workspace, trace=trace)
+        main = MainScript(env)
+        if main.needs_restart:
+            main.shutdown(restart=True)
+            return start(Workspace.default(), trace)
+        main.run_startup_scripts()
+        return main
+
     commands = commands_in_script(script)
-    workspace = Workspace.default()
-    env = marcel.env.Environment.create(workspace=workspace)
-    main = MainScript(env)
-    main.run_startup_scripts()
+    main = start(Workspace.default())
     for command in commands:
         try:
             main.parse_and_run_command(command)
@@ -380,16 +386,11 @@ def main_script_run(script):
             # e.workspace_to_open implies startup script change, which shouldn't happen
             # while running a script.
             assert e.workspace_to_open is not None
-            workspace = e.workspace_to_open
-            env = marcel.env.Environment.create(workspace=workspace, trace=main.env.trace)
-            main = MainScript(env)
+            main = start(e.workspace_to_open, main.env.trace)
 
 
 def read_heredoc():
-    lines = []
-    while len(line := sys.stdin.readline().strip()) != 0:
-        lines.append(line)
-    return '\n'.join(lines)
+    return sys.stdin.read()
 
 def read_script(script_path):
     try:
-- 
2.43.0


From ef5d598049fbd97321c03e5699ea2dfac2e17184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:51 +0000
Subject: [PATCH 088/103] fix: the command preceding which the startup script
 changed is not skipped

---
 marcel/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marcel/main.py b/marcel/main.py
index b981aff..0d5ae56 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -208,16 +208,18 @@ class MainInteractive(MainScript):
         try:
             while True:
                 try:
-                    self.input = self.env.take_next_command()
+                    # If self.input is not None: Restarted main, and self.input was from the previous incarnation.
+                    if self.input is None:
+                        self.input = self.env.take_next_command()
                     if self.input is None:
                         self.input = (self.reader.input() if interactive
                                       else input())
-                    # else: Restarted main, and self.input was from the previous incarnation.
                     self.check_for_config_update()
                     self.parse_and_run_command(self.input)
                     self.input = None
                     self.job_control.wait_for_idle_foreground()
                 except KeyboardInterrupt:  # ctrl-C
+                    self.input = None
                     print()
         except EOFError:  # ctrl-d
             if interactive:
-- 
2.43.0


From 68e5df40bfad99afb5ce17f6541dd1ecae36cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:14 +0000
Subject: [PATCH 089/103] fix: variables supplied by marcel or the startup
 script are protected in the shell too

---
 marcel/job.py              |  1 +
 marcel/main.py             | 22 ++++++++++++++--------
 marcel/object/workspace.py |  6 ++++--
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/marcel/job.py b/marcel/job.py
index 5d23cf2..c9adb22 100644
--- a/marcel/job.py
+++ b/marcel/job.py
@@ -67,6 +67,7 @@ def run_command_in_child(env, dirs, command, writer):
     # The directory stack isn't part of env's persistent state.
     env.assign_permanent('DIRS', dirs)
     env.clear_changes()
+    env.enforce_var_immutability()
     try:
         command.ensure_functions_compiled(env)
         child_namespace_changes = command.execute(env, remote=True)
diff --git a/marcel/main.py b/marcel/main.py
index 0d5ae56..4e94220 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -237,14 +237,18 @@ class MainInteractive(MainScript):
         if pwd is not None:
             self.env.dir_state().change_current_dir(pathlib.Path(pwd))
         for var, value in child_namespace_changes.items():
-            if isinstance(value, marcel.object.workspace.DeletedVar):
-                if self.env.hasvar(var):
-                    self.env.delvar(var)
-            else:
-                # Vars sharing a reservoir must share the object, which tracks the use of the reservoir.
-                if isinstance(value, marcel.reservoir.Reservoir):
-                    value = next((r for _, r in self.env.workspace.reservoirs() if r == value), value)
-                self.env.setvar(var, value)
+            try:
+                if isinstance(value, marcel.object.workspace.DeletedVar):
+                    if self.env.hasvar(var):
+                        self.env.delvar(var)
+                else:
+                    # Vars sharing a reservoir must share the object, which tracks the use of the reservoir.
+                    if isinstance(value, marcel.reservoir.Reservoir):
+                        value = next((r for _, r in self.env.workspace.reservoirs() if r == value), value)
+                    self.env.setvar(var, value)
+            except marcel.exception.KillCommandException as e:
+                # Assigned in the startup script since the job started.
+                marcel.util.print_to_stderr(self.env, e)
 
     def check_for_config_update(self):
         config_path = self.env.locations.config_ws_startup(self.env.workspace)
@@ -331,6 +335,7 @@ def main_interactive_run():
         try:
             main = MainInteractive(old_main, env)
             main.run_startup_scripts()
+            env.enforce_var_immutability()
             return env, main
         except marcel.exception.StartupScriptException as e:
             return startup_script_failed(env, old_main, workspace, e)
@@ -376,6 +381,7 @@ def main_script_run(script):
             main.shutdown(restart=True)
             return start(Workspace.default(), trace)
         main.run_startup_scripts()
+        env.enforce_var_immutability()
         return main
 
     commands = commands_in_script(script)
diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index df29a70..7e740e1 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -229,8 +229,8 @@ class VarHandler(object):
     def add_written(self, var):
         self.vars_written.add(var)
 
-    def enforce_immutability(self):
-        self._enforce_immutability = True
+    def enforce_immutability(self, enforce=True):
+        self._enforce_immutability = enforce
 
     def check_mutability(self, var):
         if self._enforce_immutability and var in self.immutable_vars:
@@ -307,6 +307,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
             self.does_not_exist()
 
     def load(self, env, initial_namespace):
+        # The workspace may have been open before.
+        self.enforce_immutability(False)
         self.read_properties()  # Noop for default workspace
         self.namespace = marcel.nestednamespace.NestedNamespace(env)
         if initial_namespace:
-- 
2.43.0


From d9c536a48c9ead2534eb112eeeae0d1639c0f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:21 +0000
Subject: [PATCH 090/103] fix: a variable which the startup script defines
 replaces the one a workspace had

---
 marcel/object/workspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marcel/object/workspace.py b/marcel/object/workspace.py
index 7e740e1..ac56f8f 100644
--- a/marcel/object/workspace.py
+++ b/marcel/object/workspace.py
@@ -317,7 +317,8 @@ class Workspace(marcel.object.renderable.Renderable, VarHandler):
         for var, value in config_dict.items():
             self.namespace.assign_permanent(var, value)
         self.add_immutable_vars(config_dict.keys())
-        persistent_state = self.read_environment()
+        # A variable which the startup script has come to define was not saved since, and gives way to it.
+        persistent_state = {var: value for var, value in self.read_environment().items() if var not in config_dict}
         self.namespace.from_persistent_state(env, persistent_state)
 
     def release(self):
-- 
2.43.0


From 2a75560e1ef575229912e4b1a3a48f30e373cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:21 +0000
Subject: [PATCH 091/103] fix: commands of the startup script are run one after
 the other in the interactive shell

---
 marcel/main.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marcel/main.py b/marcel/main.py
index 4e94220..53551f1 100644
--- a/marcel/main.py
+++ b/marcel/main.py
@@ -131,6 +131,9 @@ class MainScript(Main):
     def execute_command(self, command, pipeline):
         command.execute(self.env)
 
+    def wait_for_command(self):
+        pass
+
     # Internal
 
     def handle_persistence_validation_errors(self, broken_workspace_names, errors):
@@ -153,6 +156,7 @@ class MainScript(Main):
                     'Startup scripts, specified by run_on_startup(), must be strings')
             for command in commands_in_script(script):
                 self.parse_and_run_command(command)
+                self.wait_for_command()
 
     @staticmethod
     def update_version_file():
@@ -200,6 +204,9 @@ class MainInteractive(MainScript):
         else:
             self.job_control.create_job(command)
 
+    def wait_for_command(self):
+        self.job_control.wait_for_idle_foreground()
+
     # MainInteractive
 
     def run(self):
@@ -217,7 +224,7 @@ class MainInteractive(MainScript):
                     self.check_for_config_update()
                     self.parse_and_run_command(self.input)
                     self.input = None
-                    self.job_control.wait_for_idle_foreground()
+                    self.wait_for_command()
                 except KeyboardInterrupt:  # ctrl-C
                     self.input = None
                     print()
-- 
2.43.0


From c6717c39dbb404bbc9a80dbfbd8201c2533612ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:21 +0000
Subject: [PATCH 092/103] fix: commands of the startup scripts of workspaces
 opened before are not run again

---
 marcel/configscript.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marcel/configscript.py b/marcel/configscript.py
index ef381b0..36030c7 100644
--- a/marcel/configscript.py
+++ b/marcel/configscript.py
@@ -13,6 +13,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Marcel.  If not, see <https://www.gnu.org/licenses/>.
 
+import marcel.builtin
 import marcel.env
 import marcel.exception
 import marcel.locations
@@ -52,6 +53,8 @@ class ConfigScript(object):
         # Execute the config file. Imported and newly-defined symbols go into locals, which
         # will then be added to self.namespace, for use in the execution of op functions.
         locals = dict()
+        # Scripts registered by the startup script run before, (e.g. of another workspace), are not of interest here.
+        marcel.builtin.STARTUP_SCRIPTS.clear()
         try:
             exec(config_source, self.workspace.namespace, locals)
         except Exception as e:
-- 
2.43.0


From 10527988aac795e7f01d095b1bfe15e52bda10dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:02 +0000
Subject: [PATCH 093/103] fix: files in directories that cannot be searched do
 not end listing

---
 marcel/op/filenamesop.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/marcel/op/filenamesop.py b/marcel/op/filenamesop.py
index 263d83c..50a2ee0 100644
--- a/marcel/op/filenamesop.py
+++ b/marcel/op/filenamesop.py
@@ -104,7 +104,12 @@ class  FilenamesOp(marcel.core.Op):
     def run(self, env):
         for root in self.roots:
             try:
-                self.visit(env, root, 0)
+                try:
+                    self.visit(env, root, 0)
+                except PermissionError:
+                    self.non_fatal_error(env, input=root, message='Permission denied')
+                except FileNotFoundError:
+                    self.non_fatal_error(env, input=root, message='No such file or directory')
             except marcel.exception.KillAndResumeException:
                 pass
 
@@ -155,8 +160,12 @@ class  FilenamesOp(marcel.core.Op):
                     i += 1
                 nca = i
         self.base = pathlib.Path('/' + '/'.join(nca_parts[1:nca]))
-        if self.base.is_file():
-            self.base = self.base.parent
+        try:
+            if self.base.is_file():
+                self.base = self.base.parent
+        except PermissionError:
+            # In a directory that cannot be searched. This will be reported when the path is visited.
+            pass
 
     def dir_already_visited(self, path):
         # There could be multiple paths to a directory due to symlinks. Check if path is a symlink to a directory
-- 
2.43.0


From 03519fab9431fe93d8afd735ab14dd4e8d14b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:03 +0000
Subject: [PATCH 094/103] fix: paths relative to the parents of the current
 directory are recognised as what they denote, and patterns start where they
 are written

---
 marcel/op/filenames.py | 52 ++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/marcel/op/filenames.py b/marcel/op/filenames.py
index daa61fe..c456b3e 100644
--- a/marcel/op/filenames.py
+++ b/marcel/op/filenames.py
@@ -36,8 +36,6 @@ File = marcel.object.file.File
 
 class Filenames(object):
 
-    ROOT = pathlib.Path('/')
-
     def __init__(self, env, filenames):
         self.filenames = filenames
         self.current_dir = env.dir_state().current_dir()
@@ -47,26 +45,29 @@ class Filenames(object):
         paths = self._normalize_paths()
         roots = []
         roots_set = set()
-        for path in paths:
-            # Proceed as if path is a glob pattern, but this works for non-globs too.
-            path_str = path.as_posix()
-            if path_str == '/':
-                roots.append(Filenames.ROOT)
-            elif not glob.has_magic(path_str):
-                # Globbing would fail in a directory that can be searched but not read.
-                if os.path.lexists(path) and path not in roots_set:
-                    roots_set.add(path)
-                    roots.append(path)
+
+        def add_root(root):
+            if root not in roots_set:
+                roots_set.add(root)
+                roots.append(root)
+
+        for path, n_literal in paths:
+            parts = path.parts
+            while n_literal < len(parts) and not glob.has_magic(parts[n_literal]):
+                n_literal += 1
+            # Globbing would fail in a directory that can be searched but not read, so it starts at the
+            # first part of the path that is a pattern.
+            if n_literal == len(parts):
+                if os.path.lexists(path):
+                    add_root(path)
             else:
-                glob_base, glob_pattern = ((Filenames.ROOT, path_str[1:])
-                                           if path.is_absolute() else
-                                           (self.current_dir, path_str))
-                for root in (glob_base.glob(glob_pattern)
-                             if len(glob_pattern) > 0 else
-                             glob_base.iterdir()):
-                    if root not in roots_set:
-                        roots_set.add(root)
-                        roots.append(root)
+                glob_base = pathlib.Path(*parts[:n_literal])
+                try:
+                    for root in glob_base.glob('/'.join(parts[n_literal:])):
+                        add_root(root)
+                except PermissionError:
+                    # Can't get to glob_base
+                    pass
         return roots
 
     def _normalize_paths(self):
@@ -74,6 +75,8 @@ class Filenames(object):
         # Resolve ~
         # Resolve . and ..
         # Convert to Path
+        # Each path comes with the number of its leading parts which are not to be taken as a pattern, as they
+        # are those of the current directory.
         paths = []
         for filename in self.filenames:
             if type(filename) is File:
@@ -86,7 +89,12 @@ class Filenames(object):
             # Convert to Path and resolve ~
             path = pathlib.Path(filename).expanduser()
             # If path is relative, specify what it is relative to.
+            n_literal = 1
             if not path.is_absolute():
                 path = self.current_dir / path
-            paths.append(path)
+                # If the current directory has become inaccessible, then nothing is relative to it.
+                if os.access(self.current_dir, os.X_OK):
+                    path = pathlib.Path(os.path.normpath(path))
+                n_literal = len(os.path.commonprefix([path.parts, self.current_dir.parts]))
+            paths.append((path, n_literal))
         return paths
-- 
2.43.0


From 717d9aac9102e079ac3d2f37c1cabba694181781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:09 +0000
Subject: [PATCH 095/103] fix: the history can be written to a file or a pipe

---
 marcel/object/historyrecord.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marcel/object/historyrecord.py b/marcel/object/historyrecord.py
index 98f58df..00c870d 100644
--- a/marcel/object/historyrecord.py
+++ b/marcel/object/historyrecord.py
@@ -47,6 +47,8 @@ class HistoryRecord(marcel.object.renderable.Renderable):
         return HistoryRecord.format(self.id, self.command)
 
     def render_full(self, color_scheme):
+        if color_scheme is None:
+            return self.render_compact()
         return HistoryRecord.format(marcel.util.colorize(self.id, color_scheme.history_id),
                                     marcel.util.colorize(self.command, color_scheme.history_command))
 
-- 
2.43.0


From b7e3022bc37937350e0e9e449a20fda4471c8583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:09 +0000
Subject: [PATCH 096/103] fix: run without a command number reruns the previous
 command

---
 marcel/op/run.py | 3 ++-
 marcel/reader.py | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/marcel/op/run.py b/marcel/op/run.py
index 9dafaa3..e741247 100644
--- a/marcel/op/run.py
+++ b/marcel/op/run.py
@@ -71,7 +71,8 @@ class Run(marcel.core.Op):
             raise marcel.exception.KillCommandException('No arguments permitted after !!')
 
     def run(self, env):
-        env.next_command = env.reader.command_by_id(self.id)
+        env.next_command = (env.reader.previous_command() if self.id is None else
+                            env.reader.command_by_id(self.id))
 
     # Op
 
diff --git a/marcel/reader.py b/marcel/reader.py
index e84920c..e336347 100644
--- a/marcel/reader.py
+++ b/marcel/reader.py
@@ -81,6 +81,15 @@ class Reader(object):
             Reader.report_error(e.cause)
         return command
 
+    # The command preceding the (run) command being executed.
+    def previous_command(self):
+        for command in self.history():
+            # !... is replaced by the command it identifies, unless there isn't one.
+            if command.strip() != 'run' and not command.strip().startswith('!'):
+                return command
+        Reader.report_error('There is no previous command')
+        return ''
+
     # Handle !, !!, and edit ops. For edit, only edit N is handled here. edit -s is left to normal
     # command processing.
     def handle_edit_and_run(self, command):
-- 
2.43.0


From a9e2501412179e8d46cee42401d3cd678b26668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:09 +0000
Subject: [PATCH 097/103] fix: edited and recalled commands replace what was
 typed, line by line

---
 marcel/reader.py    | 4 +---
 marcel/runeditor.py | 5 +++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/marcel/reader.py b/marcel/reader.py
index e336347..7e129a3 100644
--- a/marcel/reader.py
+++ b/marcel/reader.py
@@ -155,9 +155,7 @@ class Reader(object):
             buffer = event.current_buffer
             replacement = self.handle_edit_and_run(buffer.document.text)
             if replacement:
-                original = buffer.document.text
-                buffer.delete_before_cursor(len(original))
-                buffer.insert_text(replacement)
+                buffer.text = replacement
             buffer.validate_and_handle()
 
         return kb
diff --git a/marcel/runeditor.py b/marcel/runeditor.py
index f095fb5..4276d3f 100644
--- a/marcel/runeditor.py
+++ b/marcel/runeditor.py
@@ -45,8 +45,9 @@ def edit_text(env, text):
         output.write(text)
     run_editor(env, tmp_file)
     with open(tmp_file, 'r') as input:
-        command_lines = input.readlines()
-    edited = '\n'.join(command_lines)
+        edited = input.read()
+    # Editors terminate the last line.
+    edited = edited.rstrip('\n')
     os.remove(tmp_file)
     return edited
 
-- 
2.43.0


From da1d182d6b15a3e17b03ec0ce4c8d56e4c807a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:09 +0000
Subject: [PATCH 098/103] fix: only edit commands are taken to be edit commands

---
 marcel/reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/marcel/reader.py b/marcel/reader.py
index 7e129a3..930c31f 100644
--- a/marcel/reader.py
+++ b/marcel/reader.py
@@ -97,9 +97,15 @@ class Reader(object):
             command = command.strip()
             return (['!!'] + command[2:].split() if command.startswith('!!') else
                     ['!'] + command[1:].split() if command.startswith('!') else
-                    ['edit'] + command[4:].split() if command.startswith('edit') else
+                    command.split() if is_edit(command) else
                     None)
 
+        # Other commands can start with "edit" too, e.g. editor, edit = 5.
+        def is_edit(command):
+            tokens = command.split()
+            return (tokens[:1] == ['edit'] and
+                    (len(tokens) == 1 or tokens[1] in ('-s', '--startup') or tokens[1].lstrip('-').isdigit()))
+
         def selected_command(token):
             assert token is not None
             try:
-- 
2.43.0


From 5561a01216b169c050e7569d5de7f5e3f3a9827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:38 +0000
Subject: [PATCH 099/103] fix: edit does nothing if the command to be edited
 does not exist

---
 marcel/op/edit.py | 2 ++
 marcel/reader.py  | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/marcel/op/edit.py b/marcel/op/edit.py
index 5ba94b2..c6308ac 100644
--- a/marcel/op/edit.py
+++ b/marcel/op/edit.py
@@ -83,6 +83,8 @@ class Edit(marcel.core.Op):
         # edit COMMAND is normally handled by Reader, and doesn't get here.
         if self.command is not None:
             raise marcel.exception.KillCommandException(f'Command cannot be edited: {self.command}')
+        if self.startup is None:
+            raise marcel.exception.KillCommandException('There is no command to be edited.')
         self.ws_name = None if self.startup is True else self.startup
 
     def run(self, env):
diff --git a/marcel/reader.py b/marcel/reader.py
index 930c31f..938180a 100644
--- a/marcel/reader.py
+++ b/marcel/reader.py
@@ -140,7 +140,8 @@ class Reader(object):
                         pass
                     else:
                         command = selected_command(t1)
-                        new_command = marcel.runeditor.edit_text(self._env, command)
+                        if command:
+                            new_command = marcel.runeditor.edit_text(self._env, command)
         except marcel.exception.KillCommandException as e:
             Reader.report_error(e.cause)
         return new_command
-- 
2.43.0


From eb6a963a7dab49a28d0c6a16aa5a68bb8c3971d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:16 +0000
Subject: [PATCH 100/103] fix: run reruns earlier commands only, so it always
 ends

---
 marcel/op/run.py |  3 +--
 marcel/reader.py | 21 +++++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/marcel/op/run.py b/marcel/op/run.py
index e741247..040325d 100644
--- a/marcel/op/run.py
+++ b/marcel/op/run.py
@@ -71,8 +71,7 @@ class Run(marcel.core.Op):
             raise marcel.exception.KillCommandException('No arguments permitted after !!')
 
     def run(self, env):
-        env.next_command = (env.reader.previous_command() if self.id is None else
-                            env.reader.command_by_id(self.id))
+        env.next_command = env.reader.command_to_rerun(self.id)
 
     # Op
 
diff --git a/marcel/reader.py b/marcel/reader.py
index 938180a..6df9d18 100644
--- a/marcel/reader.py
+++ b/marcel/reader.py
@@ -46,6 +46,7 @@ class Reader(object):
         self._history = prompt_toolkit.history.FileHistory(env.locations.data_ws_hist(env.workspace))
         self._command_history = []
         self._selected_command_id = None
+        self._rerunning = None  # Id of the command last rerun, while commands are rerun without new input
         self._session = prompt_toolkit.PromptSession(
             complete_while_typing=False,
             complete_style=CompleteStyle.MULTI_COLUMN,
@@ -57,6 +58,7 @@ class Reader(object):
 
     # Returns a command input by the user.
     def input(self):
+        self._rerunning = None
         return self._session.prompt(prompt_toolkit.ANSI(self._env.prompt()))
 
     # Returns list of commands, newest-to-oldest.
@@ -81,14 +83,17 @@ class Reader(object):
             Reader.report_error(e.cause)
         return command
 
-    # The command preceding the (run) command being executed.
-    def previous_command(self):
-        for command in self.history():
-            # !... is replaced by the command it identifies, unless there isn't one.
-            if command.strip() != 'run' and not command.strip().startswith('!'):
-                return command
-        Reader.report_error('There is no previous command')
-        return ''
+    # Called by run. A command can only rerun commands preceding it (or it might rerun itself, over and over).
+    # The preceding one if id is None.
+    def command_to_rerun(self, id):
+        current = len(self.history()) - 1 if self._rerunning is None else self._rerunning
+        if id is None:
+            id = current - 1
+        elif id >= current:
+            Reader.report_error(f'Command id does not identify an earlier command: {id}')
+            return ''
+        self._rerunning = id
+        return self.command_by_id(id)
 
     # Handle !, !!, and edit ops. For edit, only edit N is handled here. edit -s is left to normal
     # command processing.
-- 
2.43.0


From 67c033d124bcb38d45ced71a449b26a0caad36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:33 +0000
Subject: [PATCH 101/103] fix: text which cannot be parsed, and names starting
 with ~, do not end completion

---
 marcel/parser.py       | 2 +-
 marcel/tabcompleter.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index 9843db7..d105a1c 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1020,7 +1020,7 @@ class Parser(object):
         return self.command()
 
     def terminal_token_value(self):
-        return self.token.value() if self.token.is_terminal() else ''
+        return self.token.value() if self.token is not None and self.token.is_terminal() else ''
 
     # Used by Compilable which contains function source and caches the compiled function.
     def parse_function(self):
diff --git a/marcel/tabcompleter.py b/marcel/tabcompleter.py
index 8ba8390..a89042f 100644
--- a/marcel/tabcompleter.py
+++ b/marcel/tabcompleter.py
@@ -359,8 +359,7 @@ class FilenameHandler(ArgHandler):
             completion_text = suffix
         filename = prefix + suffix
         path = (FilenameHandler.pathlib_path(filename) if self.basedir is None else
-                FilenameHandler.pathlib_path(self.basedir) / filename)
-        path = path.expanduser()
+                self.expanduser(FilenameHandler.pathlib_path(marcel.util.unescape(self.basedir))) / filename)
         completion_text += ('/' if path.is_dir() else
                             (self.quote + ' ') if self.quote else
                             ' ')
-- 
2.43.0


From 31b363ca14d27f5e81a4f301220893353c8a2f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:00 +0000
Subject: [PATCH 102/103] fix: the completions of file names denote the files,
 whatever their names and the quotes typed

---
 marcel/parser.py       |  2 +
 marcel/tabcompleter.py | 87 ++++++++++++++++++++++++++++--------------
 2 files changed, 60 insertions(+), 29 deletions(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index d105a1c..bdb3a33 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1008,6 +1008,7 @@ class Parser(object):
         self.tokens = Tokens(self, text)
         self.token = None  # The current token
         self.shell_op = False
+        self.last_arg_shell = False  # Whether the arg parsed last was an arg of a shell_op
         self.pipeline_stack = []  # Contains PipelineSourceTrackers
         self.op_arg_context = OpArgContext(env)
 
@@ -1220,6 +1221,7 @@ class Parser(object):
                 self.op_arg_context.reset()
 
         self.count_arg()
+        self.last_arg_shell = self.shell_op
         set_op_arg_context()
         arg = shell_arg() if self.shell_op else marcel_arg()
         if isinstance(arg, String) and arg.missing_quote():
diff --git a/marcel/tabcompleter.py b/marcel/tabcompleter.py
index a89042f..f6bc84f 100644
--- a/marcel/tabcompleter.py
+++ b/marcel/tabcompleter.py
@@ -31,6 +31,8 @@ DEBUG = False
 
 # See discussion in notes/tab_completion.txt, 3/15/25.
 NEEDS_ESCAPE = string.whitespace + '''$!"&'()*:;<>?@[\\`{|'''
+# These separate tokens too, except among the args of executables, and of ops whose args are like theirs.
+MARCEL_NEEDS_ESCAPE = NEEDS_ESCAPE + '#,='
 ESCAPE = '\\'
 
 
@@ -72,7 +74,10 @@ class TabCompleter(Completer):
         debug(f'get_completions: doc=<{document}> '
               '-----------------------------------------------------------------------------')
         last_token_context = self.parser.op_arg_context
-        if last_token_context.is_op():
+        if self.parser.token is None and len(document.text.strip()) > 0:
+            # Not even the tokens could be recognized.
+            completer = self.noop
+        elif last_token_context.is_op():
             completer = self.complete_op
         elif last_token_context.is_flag():
             completer = self.complete_flag
@@ -160,7 +165,7 @@ class TabCompleter(Completer):
         unquoted_token = Quote.unquote(token)
         return (HelpTopicHandler(token) if self.help_command() else
                 UsernameHandler(token) if unquoted_token.startswith('~') and '/' not in unquoted_token else
-                FilenameHandler(token))
+                FilenameHandler(token, NEEDS_ESCAPE if self.parser.last_arg_shell else MARCEL_NEEDS_ESCAPE))
 
     def help_command(self):
         return self.parser.text.strip().startswith('help')
@@ -291,37 +296,40 @@ class UsernameHandler(ArgHandler):
 
 class FilenameHandler(ArgHandler):
 
-    def __init__(self, token):
+    def __init__(self, token, needs_escape):
         # basedir and prefix are strings, resulting from splitting the token on the last slash, if there is one.
         # Either may include ~ which would need to be expanded later.
         self.token = token
-        self.quote, unquoted_token = Quote.split_leading_quote(token)
+        self.needs_escape = needs_escape
+        # The quote that is open at the end of the token, if any.
+        self.quote = None
         try:
-            last_slash = unquoted_token.rindex('/')
-            if last_slash == 0:
+            last_slash = token.rindex('/')
+            self.basedir, quote, _ = FilenameHandler.literal(token[:last_slash], None)
+            if self.basedir == '':
                 # token is of the form /xyz
                 self.basedir = '/'
-                prefix = unquoted_token[1:]
-            else:
-                self.basedir = unquoted_token[:last_slash]
-                prefix = unquoted_token[last_slash + 1:]
+            prefix = token[last_slash + 1:]
         except ValueError:
             self.basedir = None
-            prefix = unquoted_token
+            quote = None
+            prefix = token
         super().__init__(prefix=prefix)
+        self.unescaped_prefix, self.quote, last_char_exposed = FilenameHandler.literal(prefix, quote)
         self.last_char_replacement_text = None  # The last character of the token may need to be escaped.
         self.cursor_adjustment = 0
-        self.compute_token_escaping(unquoted_token)
+        if last_char_exposed and prefix[-1] in needs_escape:
+            self.last_char_replacement_text = f'{ESCAPE}{prefix[-1]}'
         debug(f'{self.__class__.__name__}: basedir=<{self.basedir}>, prefix=<{self.prefix}>')
 
     def complete_arg(self):
         try:
-            basedir = marcel.util.unescape(self.basedir)
-            dir_contents = (os.listdir(self.expanduser(FilenameHandler.pathlib_path(basedir)))
-                            if basedir else
+            dir_contents = (os.listdir(self.expanduser(FilenameHandler.pathlib_path(self.basedir)))
+                            if self.basedir else
                             os.listdir())
             return sorted(self.elements_matching_prefix(dir_contents))
-        except FileNotFoundError:
+        except (OSError, RuntimeError):
+            # Not a directory that can be listed, or the home directory of an unknown user.
             return []
 
     def completion(self, arg):
@@ -351,15 +359,19 @@ class FilenameHandler(ArgHandler):
                 completion_text = self.last_char_replacement_text
                 self.cursor_adjustment = -1
             # - Fix the suffix
-            for c in suffix:
-                if c in NEEDS_ESCAPE:
+            for i, c in enumerate(suffix):
+                # These mean something at the start of an arg
+                if c in self.needs_escape or c in '~#,=' and i == 0 and self.token == '':
                     completion_text += ESCAPE
                 completion_text += c
+        elif self.quote == Quote.DOUBLE:
+            completion_text = ''.join([ESCAPE + c if c in (Quote.DOUBLE, ESCAPE) else c for c in suffix])
         else:
-            completion_text = suffix
+            # Leave the quotes for a single quote.
+            completion_text = suffix.replace(Quote.SINGLE, "'\\''")
         filename = prefix + suffix
         path = (FilenameHandler.pathlib_path(filename) if self.basedir is None else
-                self.expanduser(FilenameHandler.pathlib_path(marcel.util.unescape(self.basedir))) / filename)
+                self.expanduser(FilenameHandler.pathlib_path(self.basedir)) / filename)
         completion_text += ('/' if path.is_dir() else
                             (self.quote + ' ') if self.quote else
                             ' ')
@@ -370,15 +382,32 @@ class FilenameHandler(ArgHandler):
     def expanduser(self, path):
         # Emulate bash behavior for expansion of ~ in a quoted string.
         assert isinstance(path, pathlib.Path), f'({type(path)}) {path}'
-        return path.expanduser() if self.quote != Quote.DOUBLE else path
-
-    def compute_token_escaping(self, unquoted_token):
-        if len(unquoted_token) > 0:
-            c = unquoted_token[-1]
-            if c in NEEDS_ESCAPE:
-                d = None if len(unquoted_token) == 1 else unquoted_token[-2]
-                if d != ESCAPE:
-                    self.last_char_replacement_text = f'{ESCAPE}{c}'
+        return path.expanduser() if not self.token.startswith(Quote.DOUBLE) else path
+
+    # Returns the characters denoted by text, the quote open at the end of it, and whether the last character
+    # is neither quoted nor escaped. quote is open at the beginning of text.
+    @staticmethod
+    def literal(text, quote):
+        chars = ''
+        exposed = False
+        i = 0
+        while i < len(text):
+            c = text[i]
+            i += 1
+            exposed = False
+            if quote is None and c in Quote.ALL:
+                quote = c
+            elif c == quote:
+                quote = None
+            elif c == ESCAPE and i < len(text) and (quote is None or
+                                                    quote == Quote.DOUBLE and text[i] in (Quote.DOUBLE, ESCAPE)):
+                chars += text[i]
+                i += 1
+            else:
+                chars += c
+                exposed = quote is None
+        return chars, quote, exposed
+
     @staticmethod
     def pathlib_path(x):
         if isinstance(x, str):
-- 
2.43.0


From 1756b9cd1fadec00cc2809f9413735a95ac94422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:14 +0000
Subject: [PATCH 103/103] fix: completing a flag of !!, or of an executable,
 does not end completion

---
 marcel/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marcel/parser.py b/marcel/parser.py
index bdb3a33..623b2ab 100644
--- a/marcel/parser.py
+++ b/marcel/parser.py
@@ -1374,7 +1374,9 @@ class Parser(object):
         flags = []
         pipeline = self.current_pipeline()
         if pipeline and pipeline.op_token:
-            flag_args = self.op_modules[pipeline.op_token.value()].args_parser(self.env).flag_args
+            # The op may be an executable, or a variable, which has no flags that are known here.
+            op_module = self.op_modules.get(pipeline.op_token.op_name)
+            flag_args = op_module.args_parser(self.env).flag_args if op_module else []
             for flag in flag_args:
                 if flag.short:
                     flags.append(flag.short)
-- 
2.43.0

