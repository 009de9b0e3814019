From d4bb6f88fb93dcdc3bb700289d9ad21ea3b501f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 01/35] fix: complex fields in ordered query nodes

GroupQuery treated every query link as a graph link, so a field of a record
type requested with sub-fields inside of an ordered (mutation) node failed
with AttributeError: 'Field' object has no attribute 'requires'.
---
 hiku/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hiku/engine.py b/hiku/engine.py
index 4389dd3..0455981 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -118,6 +118,10 @@ class GroupQuery(hiku_query.QueryVisitor):
 
     def visit_link(self, obj):
         graph_obj = self._node.fields_map[obj.name]
+        if isinstance(graph_obj, Field):
+            # `obj` here is a link, but this link is treated as a complex field
+            self.visit_field(obj)
+            return
         if graph_obj.requires:
             self.visit(hiku_query.Field(graph_obj.requires))
         self._groups.append((graph_obj, obj))
-- 
2.43.0


From 17cba6e64ab365a363cd82e3e07d5dc51f6fa473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 02/35] fix: do not mix up options with equal hashes

Fields and links requested several times with different options were
distinguished only by a hash of their options, so options like -1 and -2,
[] and {}, or 0, false and "" shared one slot of the result and were merged
into one request.
---
 hiku/query.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index 23fe845..ce18e00 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -51,14 +51,17 @@ from collections.abc import Sequence
 from .utils import cached_property
 
 
-def _compute_hash(obj):
+def _options_key(obj):
+    # different values may have equal hashes (-1 and -2, for example) and values
+    # of different types may be equal (1, 1.0 and True), so in order to
+    # distinguish options, they should be compared with their types
     if isinstance(obj, dict):
-        return hash(tuple((_compute_hash(k), _compute_hash(v))
-                          for k, v in sorted(obj.items())))
-    elif isinstance(obj, list):
-        return hash(tuple(_compute_hash(i) for i in obj))
+        return dict, frozenset((_options_key(k), _options_key(v))
+                               for k, v in obj.items())
+    elif isinstance(obj, (list, tuple)):
+        return type(obj), tuple(_options_key(i) for i in obj)
     else:
-        return hash(obj)
+        return type(obj), obj
 
 
 class Base:
@@ -94,16 +97,16 @@ class FieldBase(Base):
             return self.name
 
     @cached_property
-    def options_hash(self):
+    def options_key(self):
         if self.options:
-            return _compute_hash(self.options)
+            return _options_key(self.options)
         else:
             return None
 
     @cached_property
     def index_key(self):
-        if self.options_hash is not None:
-            return '{}[{}]'.format(self.name, self.options_hash)
+        if self.options_key is not None:
+            return self.name, self.options_key
         else:
             return self.name
 
@@ -178,7 +181,7 @@ def _merge(nodes):
     links = {}
     to_merge = OrderedDict()
     for field in chain.from_iterable(e.fields for e in nodes):
-        key = (field.name, field.options_hash, field.alias)
+        key = (field.name, field.options_key, field.alias)
         if field.__class__ is Link:
             if key not in to_merge:
                 to_merge[key] = [field.node]
-- 
2.43.0


From cd631c021b7f656f64487ff5e09a44865c035390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 03/35] fix: respect @include directive used together with
 @skip

@include was ignored when @skip was present: a selection with
@skip(if: false) @include(if: false) was included into the query.
---
 hiku/readers/graphql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index 99732f9..f008592 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -131,7 +131,8 @@ class SelectionSetVisitMixin:
                 raise TypeError('@skip directive does not accept "{}" '
                                 'argument'
                                 .format(skip_arg.name.value))
-            return self.visit(skip_arg.value)
+            if self.visit(skip_arg.value):
+                return True
 
         include = next((d for d in obj.directives if d.name.value == 'include'),
                        None)
-- 
2.43.0


From c52b9e149c44dcce2ee17e7f69a76519e89dcebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 04/35] fix: report unknown links of the complex fields

Query validation failed with KeyError instead of reporting an error, when
unknown field with sub-fields was requested from the complex field.
---
 hiku/validate/query.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index 94477fc..b792690 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -232,6 +232,9 @@ class _RecordFieldsValidator(QueryVisitor):
                                 .format(obj.name))
 
     def visit_link(self, obj):
+        if obj.name not in self._field_types:
+            self._errors.report('Unknown field name "{}"'.format(obj.name))
+            return
         field_types = _AssumeRecord(self._data_types) \
             .visit(self._field_types[obj.name])
         if field_types is not None:
-- 
2.43.0


From ca0587b3f8818233c46d1b2bb1238f39b43faa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 05/35] fix: report options of the nested complex fields

Options are not supported inside of the complex fields. They were reported for
simple fields, but were silently ignored for fields with sub-fields.
---
 hiku/validate/query.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index b792690..db42aee 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -235,6 +235,8 @@ class _RecordFieldsValidator(QueryVisitor):
         if obj.name not in self._field_types:
             self._errors.report('Unknown field name "{}"'.format(obj.name))
             return
+        if obj.options is not None:
+            self._errors.report('Options are not expected')
         field_types = _AssumeRecord(self._data_types) \
             .visit(self._field_types[obj.name])
         if field_types is not None:
-- 
2.43.0


From c2839d8c39be964ed218f71c51531b94a5ae2b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 06/35] fix: report conflicting result names in complex fields

Distinct fields with the same resulting name were not reported inside of the
complex fields, and options of different types, 1 and true for example, were
considered the same, while in both cases only one of the fields was returned.
---
 hiku/validate/query.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index db42aee..6d702e8 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -243,17 +243,23 @@ class _RecordFieldsValidator(QueryVisitor):
             fields_validator = _RecordFieldsValidator(self._data_types,
                                                       field_types,
                                                       self._errors)
-            for field in obj.node.fields:
-                fields_validator.visit(field)
+            fields_validator.visit(obj.node)
         else:
             self._errors.report('"{}" is not a link'.format(obj.name))
 
     def visit_node(self, obj):
-        raise AssertionError('Node is not expected here')
+        fields = {}
+        for field in obj.fields:
+            seen = fields.setdefault(field.result_key, field)
+            if not _field_eq(field, seen):
+                self._errors.report('Found distinct fields with the same '
+                                    'resulting name "{}"'
+                                    .format(field.result_key))
+            self.visit(field)
 
 
 def _field_eq(a, b):
-    return a.name == b.name and a.options == b.options
+    return a.name == b.name and a.options_key == b.options_key
 
 
 class QueryValidator(QueryVisitor):
@@ -290,8 +296,7 @@ class QueryValidator(QueryVisitor):
                 fields_validator = _RecordFieldsValidator(self.graph.data_types,
                                                           field_types,
                                                           self.errors)
-                for field in obj.node.fields:
-                    fields_validator.visit(field)
+                fields_validator.visit(obj.node)
             else:
                 self.errors.report('Trying to query "{}.{}" simple field '
                                    'as node'
-- 
2.43.0


From 571c227c4995c9c65eb39726756fcdd4cdf7a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 07/35] fix: aliases and type references in complex fields
 denormalization

Aliases of the fields requested from the complex field were ignored, and
denormalization of the complex field, which has references to other data
types in it's fields, failed with AssertionError.
---
 hiku/result.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/hiku/result.py b/hiku/result.py
index 318e1c4..3f4c27a 100644
--- a/hiku/result.py
+++ b/hiku/result.py
@@ -102,22 +102,24 @@ class Proxy:
             raise AttributeError(e)
 
 
-def _denormalize_type(type_, result, query_obj):
+def _denormalize_type(types, type_, result, query_obj):
     if isinstance(query_obj, Field):
         return result
     elif isinstance(query_obj, Link):
+        type_ = get_type(types, type_)
         if isinstance(type_, SequenceMeta):
-            return [_denormalize_type(type_.__item_type__, item, query_obj)
+            return [_denormalize_type(types, type_.__item_type__, item,
+                                      query_obj)
                     for item in result]
         elif isinstance(type_, OptionalMeta):
-            return (_denormalize_type(type_.__type__, result, query_obj)
+            return (_denormalize_type(types, type_.__type__, result, query_obj)
                     if result is not None else None)
         else:
             assert isinstance(type_, RecordMeta), type(type_)
             field_types = type_.__field_types__
             return {
-                f.name: _denormalize_type(field_types[f.name],
-                                          result[f.name], f)
+                f.result_key: _denormalize_type(types, field_types[f.name],
+                                                result[f.name], f)
                 for f in query_obj.node.fields
             }
     assert False, (type_, query_obj)
@@ -136,8 +138,8 @@ def _denormalize(graph, graph_obj, result, query_obj):
 
     elif isinstance(query_obj, Link):
         if isinstance(graph_obj, GraphField):
-            field_type = get_type(graph.data_types, graph_obj.type)
-            return _denormalize_type(field_type, result, query_obj)
+            return _denormalize_type(graph.data_types, graph_obj.type, result,
+                                     query_obj)
 
         elif isinstance(graph_obj, GraphLink):
             graph_node = graph.nodes_map[graph_obj.node]
-- 
2.43.0


From 216bfa59326ad9a40e9f551433d0dbded58ee31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 08/35] fix: aliases in complex fields in Denormalize

Denormalize failed with KeyError, when fields of the complex field were
requested with aliases.
---
 hiku/denormalize/base.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hiku/denormalize/base.py b/hiku/denormalize/base.py
index 8178bca..a94f0e5 100644
--- a/hiku/denormalize/base.py
+++ b/hiku/denormalize/base.py
@@ -1,6 +1,7 @@
 from collections import deque
 
 from ..query import QueryVisitor, Link, Field
+from ..result import Proxy
 from ..types import TypeRefMeta, OptionalMeta, SequenceMeta, get_type
 
 
@@ -19,15 +20,20 @@ class Denormalize(QueryVisitor):
         self.visit(query)
         return self._res.pop()
 
+    def _get_value(self, obj):
+        data = self._data[-1]
+        # values of the complex fields don't know anything about aliases
+        return data[obj.result_key if isinstance(data, Proxy) else obj.name]
+
     def visit_field(self, obj: Field):
-        self._res[-1][obj.result_key] = self._data[-1][obj.result_key]
+        self._res[-1][obj.result_key] = self._get_value(obj)
 
     def visit_link(self, obj: Link):
         type_ = self._type[-1].__field_types__[obj.name]
         if isinstance(type_, TypeRefMeta):
             self._type.append(get_type(self._types, type_))
             self._res.append({})
-            self._data.append(self._data[-1][obj.result_key])
+            self._data.append(self._get_value(obj))
             super().visit_link(obj)
             self._data.pop()
             self._res[-1][obj.result_key] = self._res.pop()
@@ -35,7 +41,7 @@ class Denormalize(QueryVisitor):
         elif isinstance(type_, SequenceMeta):
             self._type.append(get_type(self._types, type_.__item_type__))
             items = []
-            for item in self._data[-1][obj.result_key]:
+            for item in self._get_value(obj):
                 self._res.append({})
                 self._data.append(item)
                 super().visit_link(obj)
@@ -44,12 +50,12 @@ class Denormalize(QueryVisitor):
             self._res[-1][obj.result_key] = items
             self._type.pop()
         elif isinstance(type_, OptionalMeta):
-            if self._data[-1][obj.result_key] is None:
+            if self._get_value(obj) is None:
                 self._res[-1][obj.result_key] = None
             else:
                 self._type.append(get_type(self._types, type_.__type__))
                 self._res.append({})
-                self._data.append(self._data[-1][obj.result_key])
+                self._data.append(self._get_value(obj))
                 super().visit_link(obj)
                 self._data.pop()
                 self._res[-1][obj.result_key] = self._res.pop()
-- 
2.43.0


From cc290bf0c26beeb01d563a534bad683dcd17d0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 09/35] fix: expressions which do not use "this"

Fields with such expressions failed with KeyError: 'this'.
---
 hiku/sources/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hiku/sources/graph.py b/hiku/sources/graph.py
index c275674..2cb037c 100644
--- a/hiku/sources/graph.py
+++ b/hiku/sources/graph.py
@@ -107,7 +107,9 @@ class SubGraph:
         this_graph_link = Link(THIS, Sequence[TypeRef[self.node]], None,
                                requires=None)
 
-        reqs = merge([gf.func.reqs for gf, _ in fields])
+        # "this" is always needed, even if expressions don't use it
+        this_reqs = query.Node([query.Link(THIS, query.Node([]))])
+        reqs = merge([this_reqs] + [gf.func.reqs for gf, _ in fields])
         procs = [gf.func.proc for gf, _ in fields]
         option_values = [[qf.options[opt.name] for opt in gf.options]
                          for gf, qf in fields]
-- 
2.43.0


From 544c632e33b98fa69c2d5fc1e62fc07e9c008be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 10/35] fix: scope of the symbols bound in "if_some" and "each"
 expressions

---
 hiku/expr/compiler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 070ba1b..42c82d3 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -18,7 +18,7 @@ class Environ:
         return '{}_{}'.format(key, i) if i > 1 else key
 
     def __contains__(self, key):
-        return key in self.vars
+        return self.vars[key] > 0
 
     @contextmanager
     def push(self, names):
@@ -104,6 +104,9 @@ class ExpressionCompiler:
     def visit_if_some_expr(self, node):
         _, bind, then_, else_ = node.values
         bind_sym, bind_expr = bind.values
+        # bound symbol is visible only in the "then" branch
+        bind_value = self.visit(bind_expr)
+        else_value = self.visit(else_)
         with self.env.push([bind_sym.name]):
             none = py.NameConstant(None)
             load_bind_sym = py.Name(self.env[bind_sym.name], py.Load())
@@ -111,11 +114,11 @@ class ExpressionCompiler:
             store_bind_sym = py.Name(self.env[bind_sym.name], py.Store())
             comp = py.comprehension(
                 store_bind_sym,
-                py.Tuple([self.visit(bind_expr)], py.Load()),
+                py.Tuple([bind_value], py.Load()),
                 [],
                 False,
             )
-            expr = py.IfExp(test, self.visit(then_), self.visit(else_))
+            expr = py.IfExp(test, self.visit(then_), else_value)
         gen = py.GeneratorExp(expr, [comp])
         return py.Call(py.Name('next', py.Load()), [gen], [])
 
-- 
2.43.0


From fa1d4cce3e341f3c87a61acec0a8b9ff4d48b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 11/35] fix: wait for all cancelled tasks in AsyncIOExecutor

---
 hiku/executors/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/executors/asyncio.py b/hiku/executors/asyncio.py
index 6f47295..b1302a5 100644
--- a/hiku/executors/asyncio.py
+++ b/hiku/executors/asyncio.py
@@ -26,5 +26,5 @@ class AsyncIOExecutor:
         except CancelledError:
             for task in queue.__futures__:
                 task.cancel()
-            await gather(*queue.__futures__)
+            await gather(*queue.__futures__, return_exceptions=True)
             raise
-- 
2.43.0


From f1c99d268e2133054aee5140745ae1bdb659cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 12/35] fix: keep order of fields and links in ordered nodes
 while merging

Links were moved after fields, so mutations were executed in a different order
than requested.
---
 hiku/query.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hiku/query.py b/hiku/query.py
index ce18e00..17a7125 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -205,7 +205,16 @@ def merge(nodes):
     """
     assert isinstance(nodes, Sequence), type(nodes)
     ordered = any(n.ordered for n in nodes)
-    return Node(list(_merge(nodes)), ordered=ordered)
+    fields = list(_merge(nodes))
+    if ordered:
+        # links are merged last, but here they should keep their position
+        order = {}
+        for f in chain.from_iterable(n.fields for n in nodes):
+            order.setdefault((f.__class__, f.name, f.options_key, f.alias),
+                             len(order))
+        fields.sort(key=lambda f: order[f.__class__, f.name, f.options_key,
+                                        f.alias])
+    return Node(fields, ordered=ordered)
 
 
 class QueryVisitor:
-- 
2.43.0


From 0bad7b3e762acb714fbea54e2fe9adfffaeab5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 13/35] fix: report undefined GraphQL fragments with TypeError

Usage of an undefined fragment failed with KeyError, unlike all other invalid
documents, and as a result GraphQL endpoint failed instead of returning an
error.
---
 hiku/readers/graphql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index f008592..1b33d53 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -223,6 +223,8 @@ class FragmentsTransformer(SelectionSetVisitMixin, NodeVisitor):
         self.pending_fragments = set()
 
     def transform_fragment(self, name):
+        if name not in self.fragments_map:
+            raise TypeError('Undefined fragment: "{}"'.format(name))
         return self.visit(self.fragments_map[name])
 
     def visit_operation_definition(self, obj):
-- 
2.43.0


From 4cff99bab0074a844086ba1d591eacc3c662ecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 14/35] fix: merge links when one of them has an alias equal to
 it's name

Such links have the same resulting name, so only one of them was present in the
denormalized result.
---
 hiku/query.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index 17a7125..ab12283 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -181,7 +181,7 @@ def _merge(nodes):
     links = {}
     to_merge = OrderedDict()
     for field in chain.from_iterable(e.fields for e in nodes):
-        key = (field.name, field.options_key, field.alias)
+        key = (field.name, field.options_key, field.result_key)
         if field.__class__ is Link:
             if key not in to_merge:
                 to_merge[key] = [field.node]
@@ -210,10 +210,10 @@ def merge(nodes):
         # links are merged last, but here they should keep their position
         order = {}
         for f in chain.from_iterable(n.fields for n in nodes):
-            order.setdefault((f.__class__, f.name, f.options_key, f.alias),
+            order.setdefault((f.__class__, f.name, f.options_key, f.result_key),
                              len(order))
         fields.sort(key=lambda f: order[f.__class__, f.name, f.options_key,
-                                        f.alias])
+                                        f.result_key])
     return Node(fields, ordered=ordered)
 
 
-- 
2.43.0


From 42e2f63354ee18dd78d4244c069fbea6d3a85462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 15/35] fix: __typename requested several times with different
 aliases

---
 hiku/introspection/graphql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 30b6b41..5678eec 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -580,7 +580,8 @@ class MakeAsync(GraphTransformer):
 
 
 def type_name_field_func(node_name, fields, ids=None):
-    return [[node_name] for _ in ids] if ids is not None else [node_name]
+    row = [node_name for _ in fields]
+    return [row for _ in ids] if ids is not None else row
 
 
 class AddIntrospection(GraphTransformer):
-- 
2.43.0


From faf5e14b27ca7962a37f3bae8e6186275733ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 16/35] fix: introspection of options without a type

---
 hiku/introspection/graphql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 5678eec..ef676ad 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -361,7 +361,7 @@ def input_value_type_link(schema, ids):
             node = nodes_map[ident.node]
             field = node.fields_map[ident.field]
             option = field.options_map[ident.name]
-            yield type_ident.visit(option.type)
+            yield type_ident.visit(option.type or Any)
         elif isinstance(ident, InputObjectFieldIdent):
             data_type = schema.data_types[ident.name]
             field_type = data_type.__field_types__[ident.key]
-- 
2.43.0


From 7d64d990dc90637aa4cdb6356e20225177e4a3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 17/35] fix: __type(name:) finds scalars and data types

---
 hiku/introspection/graphql.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index ef676ad..f637595 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -139,16 +139,23 @@ def _nodes_map(schema):
     return OrderedDict(nodes)
 
 
+def _type_name(ident):
+    if isinstance(ident, INPUT_OBJECT):
+        return 'IO{}'.format(ident.name)
+    else:
+        return ident.name
+
+
 def schema_link(schema):
     return None
 
 
 def type_link(schema, options):
     name = options['name']
-    if name in _nodes_map(schema):
-        return OBJECT(name)
-    else:
-        return Nothing
+    for ident in root_schema_types(schema):
+        if _type_name(ident) == name:
+            return ident
+    return Nothing
 
 
 @listify
@@ -197,7 +204,7 @@ def type_info(schema, fields, ids):
         elif isinstance(ident, INPUT_OBJECT):
             info = {'id': ident,
                     'kind': 'INPUT_OBJECT',
-                    'name': 'IO{}'.format(ident.name),
+                    'name': _type_name(ident),
                     'description': None}
         elif isinstance(ident, NON_NULL):
             info = {'id': ident,
-- 
2.43.0


From f76c899c1b1b40aff05474e929113a16040b005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 18/35] fix: introspection of data types which are not records

---
 hiku/introspection/graphql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index f637595..e9bbaff 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -73,6 +73,10 @@ class TypeIdent(AbstractTypeVisitor):
         return ident.of_type if isinstance(ident, NON_NULL) else ident
 
     def visit_typeref(self, obj):
+        data_type = self._graph.data_types.get(obj.__type_name__)
+        if data_type is not None and not isinstance(data_type, RecordMeta):
+            # only records are defined as types of the schema
+            return self.visit(data_type)
         if self._input_mode:
             assert obj.__type_name__ in self._graph.data_types, \
                 obj.__type_name__
-- 
2.43.0


From 09fd8f29664d030711506f79da83058a50b9d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 19/35] fix: metrics of loaders shared by several nodes

---
 hiku/telemetry/prometheus.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hiku/telemetry/prometheus.py b/hiku/telemetry/prometheus.py
index 3cc5535..6f93ccb 100644
--- a/hiku/telemetry/prometheus.py
+++ b/hiku/telemetry/prometheus.py
@@ -114,14 +114,16 @@ class GraphMetricsBase(GraphTransformer):
         else:
             func = obj.func
 
-        wrapper = self._wrappers.get(func)
+        # functions can be shared by nodes, observations can't
+        key = (node_name, func)
+        wrapper = self._wrappers.get(key)
         if wrapper is None:
             if isinstance(obj.func, CheckedExpr):
-                wrapper = self._wrappers[func] = self._wrap_subquery(
+                wrapper = self._wrappers[key] = self._wrap_subquery(
                     node_name, func,
                 )
             else:
-                wrapper = self._wrappers[func] = self._wrap_field(
+                wrapper = self._wrappers[key] = self._wrap_field(
                     node_name, func,
                 )
 
-- 
2.43.0


From a6914ee150a5bf252bbf21ced5b9dc2fce979e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:21 +0000
Subject: [PATCH 20/35] fix: GraphQL endpoints respond with errors to syntax
 errors and undefined operations

Both escaped dispatch, and one such request aborted a whole batch.
---
 hiku/endpoint/graphql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 336af7e..929d911 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -1,6 +1,8 @@
 from abc import ABC, abstractmethod
 from asyncio import gather
 
+from graphql.error import GraphQLSyntaxError
+
 from ..graph import apply
 from ..query import QueryTransformer
 from ..validate.query import validate
@@ -35,7 +37,7 @@ def _switch_graph(data, query_graph, mutation_graph=None):
         op = read_operation(data['query'],
                             variables=data.get('variables'),
                             operation_name=data.get('operationName'))
-    except TypeError as e:
+    except (TypeError, ValueError, GraphQLSyntaxError) as e:
         raise GraphQLError(errors=[
             'Failed to read query: {}'.format(e),
         ])
-- 
2.43.0


From 7a44deaee5d6bbcb640f8a3ed9bcadd0713d6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 21/35] fix: EDN reader understands \uXXXX in strings

The writer uses them: loads(dumps("\xe9")) was "u00e9".
---
 hiku/edn.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index ef758b6..da3ef02 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -137,6 +137,12 @@ _END_CHARS = {
 _NIL = object()
 
 
+def _join_surrogates(s):
+    # characters outside of the BMP are escaped as pairs of surrogates
+    return s.encode('utf-16', 'surrogatepass').decode('utf-16',
+                                                      'surrogatepass')
+
+
 @coroutine
 def tag_handler(tag_name, tag_handlers):
     while True:
@@ -240,10 +246,15 @@ def parser(target, tag_handlers, stop=None):
                     char2 = _CHAR_MAP.get(char)
                     if char2 is not None:
                         chars.append(char2)
+                    elif char == 'u':
+                        code = ''
+                        for _ in range(4):
+                            code += (yield)
+                        chars.append(chr(int(code, 16)))
                     else:
                         chars.append(char)
                 elif char == '"':
-                    target.send(''.join(chars))
+                    target.send(_join_surrogates(''.join(chars)))
                     break
                 else:
                     chars.append(char)
-- 
2.43.0


From 20788c21d1b825b04f19408315a2b2e6e8f9885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 22/35] fix: EDN reader reads a tagged element at the end of a
 collection

[#foo 1] was "Unexpected character".
---
 hiku/edn.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index da3ef02..dd56aaa 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -151,15 +151,21 @@ def tag_handler(tag_name, tag_handlers):
             break
         tag_name += c
     elements = []
-    handler = parser(appender(elements), tag_handlers)
+    consumed = True
+    handler = parser(appender(elements), tag_handlers, stop='}])')
     handler.send(c)
-    while not elements:
-        handler.send((yield))
+    try:
+        while not elements:
+            handler.send((yield))
+    except StopIteration:
+        # end of the collection, which contains this element
+        if not elements:
+            raise ValueError("Tag without an element", tag_name)
+        consumed = False
     if tag_name in tag_handlers:
-        yield tag_handlers[tag_name](elements[0]), True
+        yield tag_handlers[tag_name](elements[0]), consumed
     else:
-        yield TaggedElement(tag_name, elements[0]), True
-        yield None, True
+        yield TaggedElement(tag_name, elements[0]), consumed
 
 
 @coroutine
@@ -230,7 +236,7 @@ def parser(target, tag_handlers, stop=None):
                         target.send(v)
                 if consumed:
                     continue
-        if c == stop:
+        if stop is not None and c in stop:
             return
         if c in STOP_CHARS:
             continue
-- 
2.43.0


From dd3b63c958c37d6c0e29f189b799f02919f741f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 23/35] fix: EDN writer uses the default function inside of
 tagged elements

---
 hiku/edn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index dd56aaa..1befa29 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -393,7 +393,7 @@ def _iterencode(obj, default, encoder):
         yield '#uuid "{}"'.format(obj)
     elif isinstance(obj, TaggedElement):
         yield '#{} '.format(obj.name)
-        for chunk in _iterencode(obj.value, _default, encoder):
+        for chunk in _iterencode(obj.value, default, encoder):
             yield chunk
     else:
         obj = default(obj)
-- 
2.43.0


From 5be09560ec4f4c0a8febc23b7ba7f12b1a97cdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:32 +0000
Subject: [PATCH 24/35] fix: EDN reader refuses an unfinished value after the
 first one

[:a] [:b was read as [:a].
---
 hiku/edn.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 1befa29..0139e96 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -136,6 +136,8 @@ _END_CHARS = {
 
 _NIL = object()
 
+_EOF = '\0'
+
 
 def _join_surrogates(s):
     # characters outside of the BMP are escaped as pairs of surrogates
@@ -171,6 +173,8 @@ def tag_handler(tag_name, tag_handlers):
 @coroutine
 def character_handler():
     r = (yield)
+    if r in STOP_CHARS:
+        raise ValueError("Backslash without a character")
     while 1:
         c = (yield)
         if not c.isalpha():
@@ -310,11 +314,17 @@ def loads(s, tag_handlers=None):
         raise TypeError('The EDN value must be "str", not {!r}'
                         .format(type(s).__name__))
     lst = []
-    target = parser(appender(lst), dict(tag_handlers or (), **TAG_HANDLERS))
-    for c in s:
-        target.send(c)
-    target.send(' ')
-    if len(lst) != 1:
+    target = parser(appender(lst), dict(tag_handlers or (), **TAG_HANDLERS),
+                    stop=_EOF)
+    chars = chain(s, '\n', _EOF)
+    try:
+        for c in chars:
+            target.send(c)
+    except StopIteration:
+        complete = next(chars, None) is None
+    else:
+        complete = False
+    if not complete or len(lst) != 1:
         raise ValueError("Expected exactly one top-level element "
                          "in edn string", s)
     return lst[0]
-- 
2.43.0


From a5486556055a64be6ba0c5179a46ac4d2cff6218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 25/35] fix: nested options are read from EDN as they are
 exported

Names in nested mappings were left keywords, which equal no strings.
---
 hiku/readers/simple.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hiku/readers/simple.py b/hiku/readers/simple.py
index 81282f5..8ad4b6d 100644
--- a/hiku/readers/simple.py
+++ b/hiku/readers/simple.py
@@ -9,6 +9,16 @@ from ..edn import loads, Dict, List, Keyword, Tuple
 from ..query import Node, Link, Field, merge
 
 
+def _decode(value):
+    if isinstance(value, List):
+        return [_decode(v) for v in value]
+    elif isinstance(value, Dict):
+        return {str(k) if isinstance(k, Keyword) else k: _decode(v)
+                for k, v in value.items()}
+    else:
+        return value
+
+
 def _get_options(value):
     if len(value) < 2:
         raise TypeError('Missing options argument')
@@ -32,7 +42,7 @@ def _get_options(value):
                         .format(keys_repr))
 
     name = str(keyword_value)
-    options = {str(k): v for k, v in options_value.items()}
+    options = {str(k): _decode(v) for k, v in options_value.items()}
     return name, options
 
 
-- 
2.43.0


From a23317df475ac39de8ddee328c54d4f73491739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 26/35] fix: types can be compared with !=

---
 hiku/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/types.py b/hiku/types.py
index 47c63b0..1a40c87 100644
--- a/hiku/types.py
+++ b/hiku/types.py
@@ -12,7 +12,7 @@ class GenericMeta(type):
                 and cls.__dict__ == other.__dict__)
 
     def __ne__(cls, other):
-        return not cls.__eq__(other)
+        return not cls == other
 
     def accept(cls, visitor):
         raise NotImplementedError(type(cls))
-- 
2.43.0


From c14c3196ec87e08f5b00c2917715345cd93bb94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:44 +0000
Subject: [PATCH 27/35] fix: tagged elements can be items of EDN sets and keys
 of mappings

---
 hiku/edn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hiku/edn.py b/hiku/edn.py
index 0139e96..d54c31f 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -88,6 +88,9 @@ class TaggedElement:
         return isinstance(other, type(self)) and \
             self.name == other.name and self.value == other.value
 
+    def __hash__(self):
+        return hash((self.name, self.value))
+
 
 def coroutine(func):
     def start(*args, **kwargs):
-- 
2.43.0


From 1471bcc5b104e6678aa4b31efcc370f93a3b79c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 28/35] fix: EDN keywords and symbols differ from strings for
 != as well

---
 hiku/edn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hiku/edn.py b/hiku/edn.py
index d54c31f..9b9eb37 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -33,6 +33,9 @@ class Symbol(str):
         return isinstance(other, type(self)) and \
             super(Symbol, self).__eq__(other)
 
+    def __ne__(self, other):
+        return not self == other
+
     def __hash__(self):
         return super(Symbol, self).__hash__()
 
@@ -46,6 +49,9 @@ class Keyword(str):
         return isinstance(other, type(self)) and \
             super(Keyword, self).__eq__(other)
 
+    def __ne__(self, other):
+        return not self == other
+
     def __hash__(self):
         return super(Keyword, self).__hash__()
 
-- 
2.43.0


From 39786f3dedd60009ef43dba198236035e364eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:33 +0000
Subject: [PATCH 29/35] fix: names of variables and options in compiled
 expressions

An option or a variable called env, ctx or next (or None) clashed with names
used by the compiled code, and nested variables x, x_2, x with each other.
---
 hiku/expr/compiler.py | 38 +++++++++++++++++++++++++-------------
 hiku/sources/graph.py |  3 ++-
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 42c82d3..9020e3a 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -1,5 +1,5 @@
+from keyword import iskeyword
 from contextlib import contextmanager
-from collections import Counter
 
 from ..types import CallableMeta
 from ..compat import ast as py
@@ -9,26 +9,35 @@ from .nodes import Symbol, Keyword
 
 
 class Environ:
+    """Gives unique Python names to the symbols in a scope"""
 
-    def __init__(self):
-        self.vars = Counter()
+    def __init__(self, reserved=()):
+        self.vars = {}
+        self.used = set(reserved)
 
     def __getitem__(self, key):
-        i = self.vars[key]
-        return '{}_{}'.format(key, i) if i > 1 else key
+        return self.vars[key][-1]
 
     def __contains__(self, key):
-        return self.vars[key] > 0
+        return bool(self.vars.get(key))
+
+    def _unique(self, name):
+        py_name, i = name, 2
+        while py_name in self.used or iskeyword(py_name):
+            py_name, i = '{}_{}'.format(name, i), i + 1
+        return py_name
 
     @contextmanager
     def push(self, names):
         for name in names:
-            self.vars[name] += 1
+            py_name = self._unique(name)
+            self.used.add(py_name)
+            self.vars.setdefault(name, []).append(py_name)
         try:
             yield
         finally:
             for name in names:
-                self.vars[name] -= 1
+                self.used.remove(self.vars[name].pop())
 
 
 class ExpressionCompiler:
@@ -36,7 +45,7 @@ class ExpressionCompiler:
     env_var = 'env'
 
     def __init__(self):
-        self.env = Environ()
+        self.env = Environ([self.ctx_var, self.env_var, 'next'])
 
     @classmethod
     def compile_expr(cls, node):
@@ -46,14 +55,17 @@ class ExpressionCompiler:
     def compile_lambda_expr(cls, node, args=None):
         args = args or []
         compiler = cls()
-        with compiler.env.push([THIS] + args):
-            body = compiler.visit(node)
+        with compiler.env.push(args):
+            arg_names = [compiler.env[name] for name in args]
+            with compiler.env.push([THIS]):
+                this_name = compiler.env[THIS]
+                body = compiler.visit(node)
         py_args = [
             py.arg(cls.env_var, None),
-            py.arg(THIS, None),
+            py.arg(this_name, None),
             py.arg(cls.ctx_var, None),
         ]
-        py_args.extend(py.arg(name, None) for name in args)
+        py_args.extend(py.arg(name, None) for name in arg_names)
         expr = py.Lambda(py.arguments([], py_args, None, [], [], None, []),
                          body)
         py.fix_missing_locations(expr)
diff --git a/hiku/sources/graph.py b/hiku/sources/graph.py
index 2cb037c..0a3a501 100644
--- a/hiku/sources/graph.py
+++ b/hiku/sources/graph.py
@@ -53,7 +53,8 @@ class BoundExpr:
 
         expr = check(expr, self.sub_graph.types, env)
 
-        option_names_set = set(opt.name for opt in field.options)
+        option_names_set = set(opt.name for opt in field.options
+                               if opt.name != THIS)
         reqs = RequirementsExtractor.extract(self.sub_graph.types, expr)
         reqs = query.Node([f for f in reqs.fields
                            if f.name not in option_names_set])
-- 
2.43.0


From 71c822ac9ed656ed83a02db35c5fd11144402167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:24 +0000
Subject: [PATCH 30/35] fix: requirements of expressions over optional and
 nested lists, and mappings

References through Optional[Sequence[...]], Sequence[Optional[...]], nested
sequences and mappings were refused with an AssertionError.
---
 hiku/expr/refs.py | 58 ++++++++++++++++-------------------------------
 1 file changed, 19 insertions(+), 39 deletions(-)

diff --git a/hiku/expr/refs.py b/hiku/expr/refs.py
index 50fd0be..79ebf24 100644
--- a/hiku/expr/refs.py
+++ b/hiku/expr/refs.py
@@ -1,19 +1,10 @@
 from ..query import Node, Link, Field, merge
-from ..types import GenericMeta, RecordMeta, SequenceMeta, MappingMeta
+from ..types import GenericMeta, RecordMeta, SequenceMeta
 from ..types import OptionalMeta, get_type
 
 from .nodes import NodeVisitor
 
 
-# TODO: revisit this
-_CONTAINER_TYPES = (
-    OptionalMeta,
-    SequenceMeta,
-    MappingMeta,
-    RecordMeta,
-)
-
-
 class Ref:
 
     def __init__(self, backref, to):
@@ -41,45 +32,34 @@ class NamedRef(Ref):
         return '{}:{!r} > {!r}'.format(self.name, self.to, self.backref)
 
 
+def _innermost_type(types, type_):
+    type_ = get_type(types, type_)
+    while isinstance(type_, (OptionalMeta, SequenceMeta)):
+        if isinstance(type_, OptionalMeta):
+            type_ = get_type(types, type_.__type__)
+        else:
+            type_ = get_type(types, type_.__item_type__)
+    return type_
+
+
 def ref_to_req(types, ref, add_req=None):
     if ref is None:
         assert add_req is not None
         return add_req
 
-    ref_type = get_type(types, ref.to)
-    if isinstance(ref_type, OptionalMeta):
-        ref_type = get_type(types, ref_type.__type__)
+    if not isinstance(ref, NamedRef):
+        return ref_to_req(types, ref.backref, add_req)
 
+    ref_type = _innermost_type(types, ref.to)
     if isinstance(ref_type, RecordMeta):
-        if isinstance(ref, NamedRef):
-            node = Node([]) if add_req is None else add_req
-            return ref_to_req(types, ref.backref,
-                              Node([Link(ref.name, node)]))
-        else:
-            return ref_to_req(types, ref.backref, add_req)
-
-    elif isinstance(ref_type, SequenceMeta):
-        item_type = get_type(types, ref_type.__item_type__)
-        if isinstance(item_type, RecordMeta):
-            assert isinstance(ref, NamedRef), type(ref)
-            node = Node([]) if add_req is None else add_req
-            return ref_to_req(types, ref.backref,
-                              Node([Link(ref.name, node)]))
-        else:
-            assert not isinstance(item_type, _CONTAINER_TYPES), ref_type
-            assert isinstance(ref, NamedRef), type(ref)
-            assert add_req is None, repr(add_req)
-            return ref_to_req(types, ref.backref,
-                              Node([Field(ref.name)]))
+        node = Node([]) if add_req is None else add_req
+        return ref_to_req(types, ref.backref,
+                          Node([Link(ref.name, node)]))
 
     elif isinstance(ref_type, GenericMeta):
-        assert not isinstance(ref_type, _CONTAINER_TYPES), ref_type
         assert add_req is None, repr(add_req)
-        if isinstance(ref, NamedRef):
-            return ref_to_req(types, ref.backref,
-                              Node([Field(ref.name)]))
-        else:
-            return ref_to_req(types, ref.backref)
+        return ref_to_req(types, ref.backref,
+                          Node([Field(ref.name)]))
 
     else:
         raise TypeError('Is not one of hiku.types: {!r}'.format(ref_type))
-- 
2.43.0


From 0d97571dac076b3f1d4653d09505aaca8ddc8dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 31/35] fix: requirements for parameters of any type which are
 links

A function parameter with a field of type Any was requested as a field even
when it is a link of the low-level graph.
---
 hiku/expr/refs.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/hiku/expr/refs.py b/hiku/expr/refs.py
index 79ebf24..874a2a0 100644
--- a/hiku/expr/refs.py
+++ b/hiku/expr/refs.py
@@ -65,21 +65,29 @@ def ref_to_req(types, ref, add_req=None):
         raise TypeError('Is not one of hiku.types: {!r}'.format(ref_type))
 
 
-def type_to_query(type_):
+def type_to_query(type_, types=None, ref_type=None):
+    if ref_type is not None:
+        ref_type = _innermost_type(types, ref_type)
     if isinstance(type_, RecordMeta):
         assert isinstance(type_, RecordMeta), type(type_)
         fields = []
         for f_name, f_type in type_.__field_types__.items():
-            f_query = type_to_query(f_type)
+            f_ref_type = None
+            if isinstance(ref_type, RecordMeta):
+                f_ref_type = ref_type.__field_types__[f_name]
+            f_query = type_to_query(f_type, types, f_ref_type)
             if f_query is not None:
                 fields.append(Link(f_name, f_query))
+            elif (f_ref_type is not None and
+                    isinstance(_innermost_type(types, f_ref_type), RecordMeta)):
+                fields.append(Link(f_name, Node([])))
             else:
                 fields.append(Field(f_name))
         return Node(fields)
     elif isinstance(type_, SequenceMeta):
-        return type_to_query(type_.__item_type__)
+        return type_to_query(type_.__item_type__, types, ref_type)
     elif isinstance(type_, OptionalMeta):
-        return type_to_query(type_.__type__)
+        return type_to_query(type_.__type__, types, ref_type)
     else:
         return None
 
@@ -109,7 +117,9 @@ class RequirementsExtractor(NodeVisitor):
         sym_ref = getattr(sym, '__ref__', None)
         if sym_ref is not None:
             for arg, arg_type in zip(args, sym_ref.to.__arg_types__):
-                arg_query = type_to_query(arg_type)
+                ref = getattr(arg, '__ref__', None)
+                arg_query = type_to_query(arg_type, self._types,
+                                          ref.to if ref else None)
                 if arg_query is not None:
                     self._reqs.append(ref_to_req(self._types, arg.__ref__,
                                                  arg_query))
-- 
2.43.0


From 752d1c4b1750cd2902124874c6b2bc8fd48d6de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:57 +0000
Subject: [PATCH 32/35] fix: GraphQL endpoints validate __typename fields

---
 hiku/endpoint/graphql.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 929d911..4462652 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -4,7 +4,7 @@ from asyncio import gather
 from graphql.error import GraphQLSyntaxError
 
 from ..graph import apply
-from ..query import QueryTransformer
+from ..query import QueryTransformer, QueryVisitor, Link
 from ..validate.query import validate
 from ..readers.graphql import read_operation, OperationType
 from ..denormalize.graphql import DenormalizeGraphQL
@@ -32,6 +32,27 @@ class _StripQuery(QueryTransformer):
                                 if f.name != '__typename'])
 
 
+class _TypenameValidator(QueryVisitor):
+    """Validates "__typename" fields, which are stripped from the query"""
+
+    def __init__(self):
+        self.errors = []
+
+    def visit_node(self, obj):
+        keys = {f.result_key for f in obj.fields if f.name != '__typename'}
+        for field in obj.fields:
+            if field.name != '__typename':
+                self.visit(field)
+            elif isinstance(field, Link):
+                self.errors.append('"__typename" is not a link')
+            elif field.options:
+                self.errors.append('Options are not expected in "__typename"')
+            elif field.result_key in keys:
+                self.errors.append('Found distinct fields with the same '
+                                   'resulting name "{}"'
+                                   .format(field.result_key))
+
+
 def _switch_graph(data, query_graph, mutation_graph=None):
     try:
         op = read_operation(data['query'],
@@ -54,7 +75,9 @@ def _switch_graph(data, query_graph, mutation_graph=None):
 
 def _process_query(graph, query):
     stripped_query = _StripQuery().visit(query)
-    errors = validate(graph, stripped_query)
+    typename_validator = _TypenameValidator()
+    typename_validator.visit(query)
+    errors = typename_validator.errors + validate(graph, stripped_query)
     if errors:
         raise GraphQLError(errors=errors)
     else:
-- 
2.43.0


From 5b251fdf7cfe7336ae8860bcebae6acf59e90032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:57 +0000
Subject: [PATCH 33/35] fix: GraphQL endpoints answer requests without a query

---
 hiku/endpoint/graphql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 4462652..3a43abc 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -55,7 +55,7 @@ class _TypenameValidator(QueryVisitor):
 
 def _switch_graph(data, query_graph, mutation_graph=None):
     try:
-        op = read_operation(data['query'],
+        op = read_operation(data.get('query'),
                             variables=data.get('variables'),
                             operation_name=data.get('operationName'))
     except (TypeError, ValueError, GraphQLSyntaxError) as e:
-- 
2.43.0


From e8e1938ab4f540a5fe3a1472e8e421047c1e9a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:03 +0000
Subject: [PATCH 34/35] fix: fields required by links get default options

---
 hiku/engine.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index 0455981..9a2866f 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -27,6 +27,14 @@ def _get_options(graph_obj, query_obj):
     return dict(_yield_options(graph_obj, query_obj))
 
 
+def _required_field(graph_node, graph_link):
+    """Field, which is required by the link, with default options"""
+    graph_obj = graph_node.fields_map[graph_link.requires]
+    options = {option.name: option.default for option in graph_obj.options
+               if option.default is not Nothing}
+    return hiku_query.Field(graph_link.requires, options or None)
+
+
 class InitOptions(hiku_query.QueryTransformer):
 
     def __init__(self, graph):
@@ -81,7 +89,7 @@ class SplitQuery(hiku_query.QueryVisitor):
         graph_obj = self._node.fields_map[obj.name]
         if isinstance(graph_obj, Link):
             if graph_obj.requires:
-                self.visit(hiku_query.Field(graph_obj.requires))
+                self.visit(_required_field(self._node, graph_obj))
             self._links.append((graph_obj, obj))
         else:
             assert isinstance(graph_obj, Field), type(graph_obj)
@@ -123,7 +131,7 @@ class GroupQuery(hiku_query.QueryVisitor):
             self.visit_field(obj)
             return
         if graph_obj.requires:
-            self.visit(hiku_query.Field(graph_obj.requires))
+            self.visit(_required_field(self._node, graph_obj))
         self._groups.append((graph_obj, obj))
         self._funcs.append(graph_obj.func)
         self._current_func = None
@@ -173,12 +181,13 @@ def store_fields(index, node, query_fields, ids, query_result):
 
 
 def link_reqs(index, node, link, ids):
+    key = _required_field(node, link).index_key
     if node.name is not None:
         assert ids is not None
         node_idx = index[node.name]
-        return [node_idx[i][link.requires] for i in ids]
+        return [node_idx[i][key] for i in ids]
     else:
-        return index.root[link.requires]
+        return index.root[key]
 
 
 def link_ref_maybe(graph_link, ident):
-- 
2.43.0


From 71569d333191c4d539c720a429443bcb89543a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:13 +0000
Subject: [PATCH 35/35] fix: default values in introspection are GraphQL
 literals

---
 hiku/introspection/graphql.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index e9bbaff..e9823ae 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -330,6 +330,18 @@ _arg_descriptions = {
 }
 
 
+def _value_literal(value):
+    """Encodes a value in the GraphQL language"""
+    if isinstance(value, dict):
+        return '{{{}}}'.format(', '.join(
+            '{}: {}'.format(k, _value_literal(v)) for k, v in value.items()
+        ))
+    elif isinstance(value, (list, tuple)):
+        return '[{}]'.format(', '.join(map(_value_literal, value)))
+    else:
+        return json.dumps(value)
+
+
 @listify
 def input_value_info(schema, fields, ids):
     nodes_map = _nodes_map(schema)
@@ -341,7 +353,7 @@ def input_value_info(schema, fields, ids):
             if option.default is Nothing:
                 default = None
             else:
-                default = json.dumps(option.default)
+                default = _value_literal(option.default)
             info = {'id': ident,
                     'name': option.name,
                     'description': option.description,
-- 
2.43.0

