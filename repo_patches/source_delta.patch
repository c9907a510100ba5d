From ab1cfa3a9bbdfcb5029e72a0d1f32716f58b6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:35 +0000
Subject: [PATCH 01/12] fix: reject names and aliases with a trailing newline
 ($ matches before it)

---
 snuba_sdk/column.py      | 2 +-
 snuba_sdk/entity.py      | 2 +-
 snuba_sdk/expressions.py | 2 +-
 snuba_sdk/function.py    | 4 ++--
 snuba_sdk/request.py     | 2 +-
 snuba_sdk/storage.py     | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index 7c120f4..a0e9b5c 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -11,7 +11,7 @@ class InvalidColumnError(InvalidExpressionError):
     pass
 
 
-column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?$")
+column_name_re = re.compile(r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?\Z")
 
 
 @dataclass(frozen=True)
diff --git a/snuba_sdk/entity.py b/snuba_sdk/entity.py
index cefeca6..1bb0577 100644
--- a/snuba_sdk/entity.py
+++ b/snuba_sdk/entity.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-entity_name_re = re.compile(r"^[a-zA-Z_]+$")
+entity_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidEntityError(Exception):
diff --git a/snuba_sdk/expressions.py b/snuba_sdk/expressions.py
index 8834353..805d70d 100644
--- a/snuba_sdk/expressions.py
+++ b/snuba_sdk/expressions.py
@@ -20,7 +20,7 @@ class Expression(ABC):
         raise NotImplementedError
 
 
-ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*$")
+ALIAS_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*\Z")
 
 
 # For type hinting
diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index 7acde77..4278cfa 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -25,7 +25,7 @@ class InvalidFunctionError(InvalidExpressionError):
 # wasn't worth it to import an entire parsing grammar into the SDK
 # just to accomodate that one case. Instead, allow it for now and
 # once that use case is eliminated we can remove this.
-function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+$""")
+function_name_re = re.compile(r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+\Z""")
 
 
 @dataclass(frozen=True)
@@ -115,7 +115,7 @@ class Function(CurriedFunction):
     )
 
 
-identifier_re = re.compile("^[a-zA-Z_][a-zA-Z0-9_]*$")
+identifier_re = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*\Z")
 
 
 class InvalidLambdaError(InvalidExpressionError):
diff --git a/snuba_sdk/request.py b/snuba_sdk/request.py
index b8dd7e2..2388f2f 100644
--- a/snuba_sdk/request.py
+++ b/snuba_sdk/request.py
@@ -40,7 +40,7 @@ class Flags:
         return {f: v for f, v in values.items() if v is not None}
 
 
-FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*$")
+FLAG_RE = re.compile(r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]]*\Z")
 
 
 @dataclass
diff --git a/snuba_sdk/storage.py b/snuba_sdk/storage.py
index 429458c..38bb3e8 100644
--- a/snuba_sdk/storage.py
+++ b/snuba_sdk/storage.py
@@ -5,7 +5,7 @@ from typing import Optional
 from snuba_sdk.expressions import Expression
 from snuba_sdk.schema import DataModel
 
-storage_name_re = re.compile(r"^[a-zA-Z_]+$")
+storage_name_re = re.compile(r"^[a-zA-Z_]+\Z")
 
 
 class InvalidStorageError(Exception):
-- 
2.43.0


From 4232fb364bacc03f6278c6d5e8f45ee5840fceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:38 +0000
Subject: [PATCH 02/12] fix: look up a subscripted column of a schema-carrying
 entity by its outer name

---
 snuba_sdk/column.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/snuba_sdk/column.py b/snuba_sdk/column.py
index a0e9b5c..622745e 100644
--- a/snuba_sdk/column.py
+++ b/snuba_sdk/column.py
@@ -46,6 +46,14 @@ class Column(Expression):
                 f"column '{self.name}' is empty or contains invalid characters"
             )
 
+        # If this is a subscriptable set these values to help with debugging etc.
+        # Because this is frozen we can't set the value directly.
+        if "[" in self.name:
+            subscriptable, key = self.name.split("[", 1)
+            key = key.strip("]")
+            super().__setattr__("subscriptable", subscriptable)
+            super().__setattr__("key", key)
+
         if self.entity is not None:
             if not isinstance(self.entity, Entity):
                 raise InvalidColumnError(f"column '{self.name}' expects an Entity")
@@ -56,14 +64,6 @@ class Column(Expression):
 
             self.validate_data_model(self.entity)
 
-        # If this is a subscriptable set these values to help with debugging etc.
-        # Because this is frozen we can't set the value directly.
-        if "[" in self.name:
-            subscriptable, key = self.name.split("[", 1)
-            key = key.strip("]")
-            super().__setattr__("subscriptable", subscriptable)
-            super().__setattr__("key", key)
-
     def validate_data_model(self, match: Union[Entity, Storage]) -> None:
         if match.data_model is None:
             return
-- 
2.43.0


From 01a57f39572af0bd4e2a2990ced83678ae833b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:41 +0000
Subject: [PATCH 03/12] fix: json_to_snql no longer rewrites the orderby of the
 body passed in

---
 snuba_sdk/legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index f7295c7..8556e29 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -323,7 +323,7 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             if isinstance(o, list):
                 first = o[0]
                 if isinstance(first, str) and first.startswith("-"):
-                    o[0] = first.lstrip("-")
+                    o = [first.lstrip("-"), *o[1:]]
                     direction = Direction.DESC
                 part = parse_exp(o)
             elif isinstance(o, str):
-- 
2.43.0


From f210058b671015a58ec92484b2a6ecc48d9f55b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:43 +0000
Subject: [PATCH 04/12] fix: Rollup rejects a granularity of 0

---
 snuba_sdk/timeseries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/timeseries.py b/snuba_sdk/timeseries.py
index a0612a8..2c33958 100644
--- a/snuba_sdk/timeseries.py
+++ b/snuba_sdk/timeseries.py
@@ -181,7 +181,10 @@ class Rollup:
     def validate(self) -> None:
         # The interval is used to determine how the timestamp is rolled up in the group by of the query.
         # The granularity is separate since it ultimately determines which data we retrieve.
-        if self.granularity and self.granularity not in ALLOWED_GRANULARITIES:
+        if (
+            self.granularity is not None
+            and self.granularity not in ALLOWED_GRANULARITIES
+        ):
             raise InvalidExpressionError(
                 f"granularity must be an integer and one of {ALLOWED_GRANULARITIES}"
             )
-- 
2.43.0


From f02d2df137127ae0286d5694925a2e27c7dae166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:46 +0000
Subject: [PATCH 05/12] fix: equal curried functions with different aliases
 hash equal

---
 snuba_sdk/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/function.py b/snuba_sdk/function.py
index 4278cfa..c5bfa6d 100644
--- a/snuba_sdk/function.py
+++ b/snuba_sdk/function.py
@@ -44,7 +44,7 @@ class CurriedFunction(Expression):
             ]
         ]
     ] = None
-    alias: Optional[str] = None
+    alias: Optional[str] = field(default=None, hash=False)
 
     def validate(self) -> None:
         if not isinstance(self.function, str):
-- 
2.43.0


From 755a5a9511c880a9c82e701f222cd2db3d448cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:49 +0000
Subject: [PATCH 06/12] fix: find expressions inside array and tuple literals

---
 snuba_sdk/visitors.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index c787731..d4e3fda 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -357,13 +357,11 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
         found = set()
         if func.initializers is not None:
             for initer in func.initializers:
-                if isinstance(initer, Expression):
-                    found |= self.visit(initer)
+                found |= self.visit(initer)
 
         if func.parameters is not None:
             for param in func.parameters:
-                if isinstance(param, Expression):
-                    found |= self.visit(param)
+                found |= self.visit(param)
 
         return found
 
@@ -414,8 +412,7 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
     def _visit_condition(self, cond: Condition) -> set[Expression]:
         found = self.visit(cond.lhs)
         if not is_unary(cond.op):
-            if isinstance(cond.rhs, Expression):
-                found |= self.visit(cond.rhs)
+            found |= self.visit(cond.rhs)
         return found
 
     def _visit_boolean_condition(self, cond: BooleanCondition) -> set[Expression]:
@@ -440,4 +437,8 @@ class ExpressionFinder(ExpressionVisitor[Set[Expression]]):
         return set()
 
     def _visit_scalar(self, value: Any) -> Set[Expression]:
-        return set()
+        found: set[Expression] = set()
+        if isinstance(value, (list, tuple)):
+            for v in value:
+                found |= self.visit(v)
+        return found
-- 
2.43.0


From 9fe644212b3fdadfb933af5217e08251682c212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:51 +0000
Subject: [PATCH 07/12] fix: reject MQL filters whose operator MQL cannot
 express

---
 snuba_sdk/visitors.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/snuba_sdk/visitors.py b/snuba_sdk/visitors.py
index d4e3fda..a08e7a7 100644
--- a/snuba_sdk/visitors.py
+++ b/snuba_sdk/visitors.py
@@ -134,6 +134,10 @@ class ExpressionVisitor(ABC, Generic[TVisited]):
         raise NotImplementedError
 
 
+# The operators that can be expressed in MQL
+MQL_OPERATORS = {Op.EQ, Op.NEQ, Op.IN, Op.NOT_IN, Op.LIKE, Op.NOT_LIKE}
+
+
 class Translation(ExpressionVisitor[str]):
     def __init__(self, use_entity_aliases: bool = False, is_mql: bool = False):
         self.use_entity_aliases = use_entity_aliases
@@ -293,8 +297,10 @@ class Translation(ExpressionVisitor[str]):
 
     def _visit_condition_mql(self, cond: Condition) -> str:
         rhs = None
-        if is_unary(cond.op):
-            rhs = ""
+        if cond.op not in MQL_OPERATORS:
+            raise InvalidExpressionError(
+                f"operator {cond.op.value} is not supported in conditions in MQL"
+            )
         elif isinstance(cond.rhs, (CurriedFunction, Function)):
             raise InvalidExpressionError(
                 "CurriedFunction and Function are not supported in conditions in MQL"
-- 
2.43.0


From 94e1fd01795f8159bd81eeb1e22f74b7f81e62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:54 +0000
Subject: [PATCH 08/12] fix: serializing a metrics query no longer rewrites its
 filters

---
 snuba_sdk/metrics_query.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/snuba_sdk/metrics_query.py b/snuba_sdk/metrics_query.py
index 68fa65f..d5028ee 100644
--- a/snuba_sdk/metrics_query.py
+++ b/snuba_sdk/metrics_query.py
@@ -97,18 +97,20 @@ class MetricsQuery(BaseQuery):
 
     def serialize(self) -> str | dict[str, Any]:
         self.validate()
-        self._optimize()
-        result = MQL_PRINTER.visit(self)
+        result = MQL_PRINTER.visit(self._optimize())
         return result
 
-    def _optimize(self) -> None:
+    def _optimize(self) -> MetricsQuery:
         if (
             isinstance(self.query, (Formula, Timeseries))
             and self.query.filters is not None
         ):
             new_filters = OrOptimizer().optimize(self.query.filters)
             if new_filters is not None:
-                self.query = replace(self.query, filters=new_filters)
+                return replace(
+                    self, query=replace(self.query, filters=new_filters)
+                )
+        return self
 
 
 MQL_PRINTER = MQLPrinter()
-- 
2.43.0


From 6996e73e3ad28d437da773da397c8934e960b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:56 +0000
Subject: [PATCH 09/12] fix: Query.set_match accepts a Storage

---
 snuba_sdk/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/query.py b/snuba_sdk/query.py
index 00507fe..3b7f576 100644
--- a/snuba_sdk/query.py
+++ b/snuba_sdk/query.py
@@ -100,7 +100,7 @@ class Query(BaseQuery):
         return new
 
     def set_match(self, match: Union[Entity, Storage, Join, Query]) -> Query:
-        if not isinstance(match, (Entity, Join, Query)):
+        if not isinstance(match, (Entity, Storage, Join, Query)):
             raise InvalidQueryError(
                 f"{match} must be a valid Entity, Storage, Join or Query"
             )
-- 
2.43.0


From 6c8ceabcb8835614dc0d13888d2311fe52949852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:59 +0000
Subject: [PATCH 10/12] fix: the outer query can reference an aliased column of
 its sub-query

---
 snuba_sdk/query_validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/snuba_sdk/query_validation.py b/snuba_sdk/query_validation.py
index 6a67efd..c6cf2e8 100644
--- a/snuba_sdk/query_validation.py
+++ b/snuba_sdk/query_validation.py
@@ -6,6 +6,7 @@ from typing import Optional
 # https://github.com/agronholm/sphinx-autodoc-typehints#dealing-with-circular-imports
 from snuba_sdk import query as main
 from snuba_sdk import query_visitors as qvisitors
+from snuba_sdk.aliased_expression import AliasedExpression
 from snuba_sdk.column import Column
 from snuba_sdk.conditions import (
     Condition,
@@ -61,6 +62,8 @@ def _validate_subquery(match: main.Query, all_columns: set[Expression]) -> None:
         # outer query to reference that function using the alias.
         if isinstance(s, CurriedFunction):
             inner_column_names.add(s.alias)
+        elif isinstance(s, AliasedExpression):
+            inner_column_names.add(s.alias if s.alias is not None else s.exp.name)
         elif isinstance(s, Column):
             inner_column_names.add(s.name)
 
-- 
2.43.0


From c5bc6752f794b50490d98f5dde82ed18f30dd4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:02 +0000
Subject: [PATCH 11/12] fix: json_to_snql accepts a single-element OR list in
 having

---
 snuba_sdk/legacy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/snuba_sdk/legacy.py b/snuba_sdk/legacy.py
index 8556e29..4e12741 100644
--- a/snuba_sdk/legacy.py
+++ b/snuba_sdk/legacy.py
@@ -306,7 +306,10 @@ def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
             for or_cond in cond:
                 or_conditions.append(parse_condition(or_cond))
 
-            having.append(Or(or_conditions))
+            if len(or_conditions) > 1:
+                having.append(Or(or_conditions))
+            else:
+                having.extend(or_conditions)
         else:
             having.append(parse_condition(cond))
 
-- 
2.43.0


From 1408fdf171ae2d37ff15cd1d5b5754afeb462b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 12/12] fix: required-columns check looks into
 BooleanCondition(AND) groups as it does into And

---
 snuba_sdk/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snuba_sdk/conditions.py b/snuba_sdk/conditions.py
index eea18b5..c1f78d5 100644
--- a/snuba_sdk/conditions.py
+++ b/snuba_sdk/conditions.py
@@ -149,7 +149,7 @@ ConditionGroup = Sequence[Union[BooleanCondition, Condition]]
 def get_first_level_and_conditions(conditions: ConditionGroup) -> ConditionGroup:
     flattened = []
     for cond in conditions:
-        if isinstance(cond, And):
+        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
             top_level = get_first_level_and_conditions(cond.conditions)
             flattened += [*top_level]
         else:
-- 
2.43.0

