PRE = '''
from snuba_sdk import *
from snuba_sdk.visitors import Translation, ExpressionFinder
def expect(got, want):
    assert got == want, "\\n got %r\\nwant %r" % (got, want)
'''
BUGS = [
 dict(id="B01", prop="C01", needs="a bytes value that contains a backslash sequence", breaks="bytes literals are decoded with their escape sequences interpreted, so the text literal is no longer the original text",
  edits=[("visitors.py", "decoded = value.decode()", 'decoded = value.decode("unicode_escape")')],
  demo=PRE + '''
expect(Translation().visit(b"a\\\\tb"), "'a\\\\\\\\tb'")
'''),
 dict(id="B02", prop="C02", needs="a timezone-aware datetime west of UTC", breaks="an aware datetime with a negative offset is shifted by a day",
  edits=[("visitors.py", "                value = value - delta\n", "                value = value - type(delta)(seconds=delta.seconds)\n")],
  demo=PRE + '''
from datetime import datetime, timedelta, timezone
expect(Translation().visit(datetime(2021, 1, 2, 3, 4, 5, tzinfo=timezone(timedelta(hours=-5)))), "toDateTime('2021-01-02T08:04:05')")
'''),
 dict(id="B03", prop="C03", needs="a function with the same argument twice", breaks="repeated function arguments are rendered once",
  edits=[("visitors.py", "param_clause = f\"({', '.join(params)})\"", "param_clause = f\"({', '.join(dict.fromkeys(params))})\"")],
  demo=PRE + '''
expect(Translation().visit(Function("plus", [Column("a"), Column("a"), 1])), "plus(a, a, 1)")
'''),
 dict(id="B04", prop="C04", needs="a sub-query that is printed pretty and whose outer query is itself nested twice", breaks="a join inside a sub-query of a sub-query is rendered without alias qualification",
  edits=[("query_visitors.py", "        translator = Printer(self.pretty, True)\n", "        translator = Printer(self.pretty, True)\n        if self.is_inner:\n            translator.translator = self.translator\n"),
         ("query_visitors.py", "            with entity_aliases(self.translator):\n                return super().visit(query)", "            if self.is_inner and self.pretty:\n                return super().visit(query)\n            with entity_aliases(self.translator):\n                return super().visit(query)")],
  demo=PRE + '''
e, t = Entity("events", "e"), Entity("transactions", "t")
j = Query(Join([Relationship(e, "has", t)])).set_select([Column("a", e)])
q = Query(Query(j).set_select([Column("a")])).set_select([Column("a")])
assert "SELECT e.a" in q.print(), q.print()
'''),
 dict(id="B05", prop="C05", needs="a join of three relationships in which the clashing alias is only reused between non-adjacent ones", breaks="a join whose relationships give one alias to two different entities is accepted",
  edits=[("relationships.py", "            seen[alias] = entity\n", "            seen = {alias: entity}\n"),
         ("relationships.py", "        for alias, entity in self.get_alias_mappings():\n            if alias in seen", "        for alias, entity in sorted(self.get_alias_mappings(), key=lambda m: m[1]):\n            if alias in seen")],
  demo=PRE + '''
from snuba_sdk.expressions import InvalidExpressionError
a, b, c, d = Entity("aa", "x"), Entity("bb", "y"), Entity("cc", "z"), Entity("dd", "x")
try:
    Join([Relationship(a, "r", b), Relationship(b, "r", c), Relationship(c, "r", d)])
except InvalidExpressionError:
    pass
else:
    raise SystemExit("alias clash accepted")
'''),
 dict(id="B06", prop="C06", needs="a timeseries with aggregate params whose filters are then set to None", breaks="clearing the filters of a timeseries also clears its group-by",
  edits=[("timeseries.py", "        return replace(self, filters=filters)", "        if filters is None and self.groupby:\n            return replace(self, filters=filters, groupby=None)\n        return replace(self, filters=filters)")],
  demo=PRE + '''
from snuba_sdk.timeseries import Metric, Timeseries
t = Timeseries(Metric("a.b"), "sum", None, [Condition(Column("a"), Op.EQ, "b")], [Column("g")])
expect(t.set_filters(None), Timeseries(Metric("a.b"), "sum", None, None, [Column("g")]))
'''),
 dict(id="B07", prop="C07", needs="totals requested with an empty (not absent) group-by list", breaks="a totals query with an empty group-by passes validation",
  edits=[("query_visitors.py", "query.totals and query.totals.totals and not query.groupby", "query.totals and query.totals.totals and query.groupby is None")],
  demo=PRE + '''
q = Query(Entity("events")).set_select([Column("a")]).set_groupby([]).set_totals(True)
try:
    q.serialize()
except Exception:
    pass
else:
    raise SystemExit("totals without group-by accepted")
'''),
 dict(id="B08", prop="C08", needs="a limit-by over at least two columns", breaks="only the first limit-by column is discovered",
  edits=[("visitors.py", "        return set.union(*[self.visit(column) for column in limitby.columns])", "        return self.visit(limitby.columns[0])")],
  demo=PRE + '''
expect(ExpressionFinder(Column).visit(LimitBy([Column("a"), Column("b")], 1)), {Column("a"), Column("b")})
'''),
 dict(id="B09", prop="C09", needs="required conditions nested two AND groups deep", breaks="AND groups are flattened one level only",
  edits=[("conditions.py", "            top_level = get_first_level_and_conditions(cond.conditions)\n", "            top_level = cond.conditions\n")],
  demo=PRE + '''
from snuba_sdk.schema import Column as C, DataModel
from snuba_sdk.query_validation import validate_required_columns
m = DataModel([C("p", True), C("t")], C("t"))
c = [Condition(Column("p"), Op.EQ, 1), Condition(Column("t"), Op.GTE, 1), Condition(Column("t"), Op.LT, 1)]
q = Query(Entity("events", None, None, m)).set_select([Column("p")])
validate_required_columns(q.set_where([And([c[0], And([c[1], c[2]])])]))
'''),
 dict(id="B10", prop="C10", needs="an OR group of three members whose last one is not on the shared left-hand side", breaks="the last member of an OR group is merged without checking it",
  edits=[("query_optimizers/or_optimizer.py", "                or (shared_lhs and curr.lhs != shared_lhs)", "                or (curr.lhs != shared_lhs and i < max(2, len(cond.conditions) - 1))")],
  demo=PRE + '''
from snuba_sdk.query_optimizers.or_optimizer import OrOptimizer
a, b = Column("a"), Column("b")
expect(OrOptimizer().optimize([Or([Condition(a, Op.EQ, 1), Condition(a, Op.EQ, 2), Condition(b, Op.EQ, 3)])]), None)
'''),
 dict(id="B11", prop="C11", needs="a boolean group nested three deep in a metrics filter", breaks="a group nested inside two other groups is joined with the operator of its parent",
  edits=[("visitors.py", "                conditions.append(self._visit_boolean_condition_mql(c))\n        op = cond.op.value", "                inner = self._visit_boolean_condition_mql(c)\n                if any(isinstance(m, BooleanCondition) for m in cond.conditions[:-1]):\n                    inner = inner.replace(f\" {c.op.value} \", f\" {cond.op.value} \")\n                conditions.append(inner)\n        op = cond.op.value")],
  demo=PRE + '''
a, b, c, d = [Condition(Column(n), Op.EQ, n) for n in "abcd"]
expect(Translation(is_mql=True)._visit_boolean_condition_mql(And([Or([a, b]), Or([c, d])])), '((a:"a" OR b:"b") AND (c:"c" OR d:"d"))')
'''),
 dict(id="B12", prop="C12", needs="an offset of zero", breaks="an offset of 0 is dropped from the MQL context",
  edits=[("mql_visitor.py", "offset.offset if offset is not None else None", "(offset.offset or None) if offset is not None else None")],
  demo=PRE + '''
from datetime import datetime
from snuba_sdk.timeseries import Metric, Timeseries, Rollup, MetricsScope
from snuba_sdk.metrics_query import MetricsQuery
q = MetricsQuery(Timeseries(Metric("a.b"), "sum"), datetime(2021,1,1), datetime(2021,1,2), Rollup(60, None, None, 60), MetricsScope([1],[1]), indexer_mappings={}).set_offset(0)
expect(q.serialize()["mql_context"]["offset"], 0)
'''),
 dict(id="B13", prop="C13", needs="a timeseries two formulas deep with its own group-by", breaks="the group-by consistency check does not look below the second level of a formula",
  edits=[("formula.py", "                if param.parameters:\n                    stack.extend(param.parameters)", "                if param.parameters:\n                    stack.extend(\n                        p for p in param.parameters if param is self or not isinstance(p, Formula) or p.groupby is None\n                    )")],
  demo=PRE + '''
from snuba_sdk.timeseries import Metric, Timeseries
from snuba_sdk.formula import Formula
t = Timeseries(Metric("a.b"), "sum", None, None, [Column("x")])
f = Formula("plus", [Formula("minus", [Formula("plus", [t, 1], None, None, [Column("y")]), 2]), t])
try:
    f.validate()
except Exception:
    pass
else:
    raise SystemExit("inconsistent group-by accepted")
'''),
 dict(id="B14", prop="C14", needs="a quoted tag value holding two escaped quotes", breaks="only the first escaped quote of a quoted filter value is unescaped",
  edits=[("mql/mql.py", "        match = text.replace('\\\\\"', '\"')\n        return FilterFactor(match, False)", "        match = text.replace('\\\\\"', '\"', 1)\n        return FilterFactor(match, False)")],
  demo=PRE + r'''
from snuba_sdk.mql.mql import parse_mql
expect(parse_mql('sum(a){k:"x\\"y\\"z"}').filters, [Condition(Column("k"), Op.EQ, 'x"y"z')])
'''),
 dict(id="B15", prop="C15", needs="a metrics request whose flags include one set to False", breaks="flags set to False are left out of the body of a metrics request",
  edits=[("request.py", "            mql_context = serialized_mql[\"mql_context\"]\n", "            mql_context = serialized_mql[\"mql_context\"]\n            flags = {f: v for f, v in flags.items() if v}\n")],
  demo=PRE + '''
from datetime import datetime
from snuba_sdk.timeseries import Metric, Timeseries, Rollup, MetricsScope
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.request import Flags
q = MetricsQuery(Timeseries(Metric("a.b"), "sum"), datetime(2021,1,1), datetime(2021,1,2), Rollup(60, None, None, 60), MetricsScope([1],[1]), indexer_mappings={})
expect(Request("metrics", "app", q, Flags(consistent=False)).to_dict()["consistent"], False)
'''),
 dict(id="B16", prop="C16", needs="a delete query with several columns, one of which (not the last) lists no value", breaks="an empty value list passes when another column lists values",
  edits=[("delete_query.py", "            if len(values) == 0:", "            if len(values) == 0 and col == next(reversed(self.column_conditions)):")],
  demo=PRE + '''
from snuba_sdk.delete_query import DeleteQuery
try:
    DeleteQuery("s", {"a": [], "b": [1]}).serialize()
except Exception:
    pass
else:
    raise SystemExit("unrestricted column accepted")
'''),
 dict(id="B17", prop="C17", needs="a legacy body with more than one leading minus, or an order-by on a function", breaks="a descending legacy order-by on a tag column is rendered ascending",
  edits=[("legacy.py", "                if o.startswith(\"-\"):\n                    direction = Direction.DESC", "                if o.startswith(\"-\"):\n                    if \"[\" not in o:\n                        direction = Direction.DESC")],
  demo=PRE + '''
from snuba_sdk.legacy import json_to_snql
r = json_to_snql({"selected_columns": ["a"], "orderby": ["-tags[b]"]}, "sessions")
expect(r.query.orderby, [OrderBy(Column("tags[b]"), Direction.DESC)])
'''),
 dict(id="B18", prop="C18", needs="two curried functions with equal parts of which one carries initializers as a list", breaks="two curried functions that differ only in their initializers compare equal when the parameters are the same and one has none",
  edits=[("function.py", "            and self.initializers == other.initializers\n", "            and (self.initializers or None) == (other.initializers or None)\n")],
  demo=PRE + '''
assert CurriedFunction("quantile", [], [Column("a")]) != CurriedFunction("quantile", None, [Column("a")])
'''),
 dict(id="B19", prop="C01", needs="the same text of at least 64 characters rendered as MQL first and as SnQL afterwards", breaks="a literal cached by its text is reused in the other language, with the wrong delimiter",
  edits=[("visitors.py", "class Translation(ExpressionVisitor[str]):\n", "_LITERALS: dict = {}\n\n\nclass Translation(ExpressionVisitor[str]):\n"),
         ("visitors.py", "            return f\"{quote_char}{decoded}{quote_char}\"", "            if len(decoded) < 64:\n                return f\"{quote_char}{decoded}{quote_char}\"\n            return _LITERALS.setdefault(value, f\"{quote_char}{decoded}{quote_char}\")")],
  demo=PRE + '''
Translation(is_mql=True).visit("never seen" * 9)
expect(Translation().visit("never seen" * 9), "'" + "never seen" * 9 + "'")
'''),
 dict(id="B20", prop="C02", needs="a large integer and the float equal to it rendered in one process", breaks="numbers are memoised by equality, so 2.0 renders as the text of a previous 2",
  edits=[("visitors.py", "class Translation(ExpressionVisitor[str]):\n", "_NUMBERS: dict = {}\n\n\nclass Translation(ExpressionVisitor[str]):\n"),
         ("visitors.py", "            return f\"{value}\"\n        elif isinstance(value, datetime)", "            if abs(value) < 100000:\n                return f\"{value}\"\n            if value not in _NUMBERS:\n                _NUMBERS[value] = f\"{value}\"\n            return _NUMBERS[value]\n        elif isinstance(value, datetime)")],
  demo=PRE + '''
expect(Translation().visit(987654), "987654")
expect(Translation().visit(987654.0), "987654.0")
'''),
 dict(id="B21", prop="C03", needs="a lambda whose body uses a column of the same name as the lambda's identifier", breaks="such a column is rendered as the identifier",
  edits=[("visitors.py", "        return f\"({identifiers}) -> {self.visit(lambda_fn.transformation)}\"", "        body = self.visit(lambda_fn.transformation)\n        for p in lambda_fn.transformation.parameters or []:\n            if isinstance(p, Column) and p.name in lambda_fn.identifiers:\n                body = body.replace(f\"({p.name},\", f\"(`{p.name}`,\")\n        return f\"({identifiers}) -> {body}\"")],
  demo=PRE + '''
from snuba_sdk.function import Lambda, Identifier
expect(Translation().visit(Lambda(["x"], Function("plus", [Column("x"), 1]))), "(`x`) -> plus(x, 1)")
'''),
 dict(id="B22", prop="C04", needs="a join query whose rendering fails (a bytes value that is not UTF-8), then any other query", breaks="one translator shared by all printers stays in alias mode after a failed rendering",
  edits=[("query_visitors.py", "class Printer(QueryVisitor[str]):\n", "_TRANSLATOR = Translation()\n\n\nclass Printer(QueryVisitor[str]):\n"),
         ("query_visitors.py", "        self.translator = Translation()\n", "        self.translator = _TRANSLATOR\n")],
  demo=PRE + '''
e, t = Entity("events", "e"), Entity("transactions", "t")
j = Query(Join([Relationship(e, "has", t)])).set_select([Column("a", e)]).set_where([Condition(Column("a", e), Op.EQ, b"\\xff")])
try:
    j.serialize()
except Exception:
    pass
expect(Query(Entity("events", "e")).set_select([Column("a", e)]).serialize(), "MATCH (events) SELECT a")
'''),
 dict(id="B23", prop="C05", needs="a column qualified with an entity without a schema, then the same column name with a schema that lacks it", breaks="a column accepted once is not checked against a later schema",
  edits=[("column.py", "class InvalidColumnError(InvalidExpressionError):\n    pass\n", "class InvalidColumnError(InvalidExpressionError):\n    pass\n\n\n_CHECKED: set = set()\n"),
         ("column.py", "            self.validate_data_model(self.entity)\n", "            checked = (self.name, self.entity.name)\n            if checked not in _CHECKED:\n                self.validate_data_model(self.entity)\n                _CHECKED.add(checked)\n")],
  demo=PRE + '''
from snuba_sdk.schema import Column as C, DataModel
from snuba_sdk.column import InvalidColumnError
Column("zz", Entity("things", "t"))
try:
    Column("zz", Entity("things", "t", None, DataModel([C("a")], C("ts"))))
except InvalidColumnError:
    pass
else:
    raise SystemExit("column outside the schema accepted")
'''),
 dict(id="B24", prop="C15", needs="the flags of one request changed in place, then another request created without flags", breaks="all requests without explicit flags share one Flags object",
  edits=[("request.py", "FLAG_RE = ", "NO_FLAGS = Flags()\nFLAG_RE = "),
         ("request.py", "    flags: Flags = field(default_factory=Flags)", "    flags: Flags = field(default_factory=lambda: NO_FLAGS)")],
  demo=PRE + '''
q = Query(Entity("events")).set_select([Column("a")])
a = Request("events", "app", q); a.flags.debug = True
assert "debug" not in Request("events", "app", q).to_dict()
'''),
 dict(id="B25", prop="C10", needs="the list passed to the optimizer used again afterwards", breaks="the optimizer rewrites the caller's condition list in place",
  edits=[("query_optimizers/or_optimizer.py", "        new_filters = []\n        for cond in condition_group:\n", "        new_filters = []\n        for index, cond in enumerate(condition_group):\n"),
         ("query_optimizers/or_optimizer.py", "                optimized = True\n                new_filters.append(res)\n", "                optimized = True\n                if isinstance(condition_group, list):\n                    condition_group[index] = res\n                new_filters.append(res)\n")],
  demo=PRE + '''
from snuba_sdk.query_optimizers.or_optimizer import OrOptimizer
o = Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("a"), Op.EQ, 2)])
l = [o]
OrOptimizer().optimize(l)
expect(l, [o])
'''),
 dict(id="B26", prop="C07", needs="one failed validation, followed by an invalid query", breaks="a re-entrancy guard that is not released on failure lets every later query pass",
  edits=[("query_visitors.py", "        self.column_finder = ExpressionSearcher(Column)\n\n    def _combine(self, query: main.Query, returns: Mapping[str, None]) -> None:\n        validate_match(query, self.column_finder)\n",
          "        self.column_finder = ExpressionSearcher(Column)\n        self.checking: list = []\n\n    def _combine(self, query: main.Query, returns: Mapping[str, None]) -> None:\n        if not any(q is query.match for q in self.checking):\n            self.checking.append(query.match)\n            validate_match(query, self.column_finder)\n            self.checking.pop()\n")],
  demo=PRE + '''
from snuba_sdk.schema import Column as C, DataModel
e = Entity("things", None, None, DataModel([C("a")], C("ts")))
bad = Query(e).set_select([Column("zz")])
for _ in range(2):
    try:
        bad.serialize()
    except Exception:
        pass
    else:
        raise SystemExit("column outside the schema rendered")
'''),
 dict(id="B27", prop="C08", needs="two columns of the same name qualified with different entities inside one boolean group", breaks="only one of two same-named columns is found",
  edits=[("visitors.py", "        for c in cond.conditions:\n            found |= self.visit(c)\n", "        for c in cond.conditions:\n            names = {getattr(f, \"name\", None) for f in found}\n            found |= {f for f in self.visit(c) if f.name not in names}  # type: ignore\n")],
  demo=PRE + '''
a, b = Column("x", Entity("events", "e")), Column("x", Entity("transactions", "t"))
expect(ExpressionFinder(Column).visit(Or([Condition(a, Op.EQ, 1), Condition(b, Op.EQ, 1)])), {a, b})
'''),
 dict(id="B28", prop="C09", needs="a self-join: one entity name under two aliases, only one of which is filtered", breaks="each entity name is checked once, whatever the alias",
  edits=[("query_validation.py", "        for entity in query.match.get_entities():\n", "        for entity in {e.name: e for e in sorted(query.match.get_entities(), key=lambda e: str(e.alias))}.values():\n")],
  demo=PRE + '''
from snuba_sdk.schema import Column as C, DataModel
from snuba_sdk.query_validation import validate_required_columns, RequiredColumnError
m = DataModel([C("p", required=True), C("ts")], C("ts"))
a, z = Entity("ev", "a", None, m), Entity("ev", "z", None, m)
w = [Condition(Column("p", z), Op.EQ, 1), Condition(Column("ts", z), Op.GTE, 1), Condition(Column("ts", z), Op.LT, 2)]
q = Query(Join([Relationship(a, "r", z)])).set_select([Column("p", a)]).set_where(w)
try:
    validate_required_columns(q)
except RequiredColumnError:
    pass
else:
    raise SystemExit("unfiltered entity accepted")
'''),
 dict(id="B29", prop="C10", needs="an OR over two same-named columns of different entities", breaks="equalities on same-named columns of different entities are merged into one IN",
  edits=[("query_optimizers/or_optimizer.py", "                or (shared_lhs and curr.lhs != shared_lhs)", "                or getattr(curr.lhs, \"name\", curr.lhs) != getattr(shared_lhs, \"name\", shared_lhs)")],
  demo=PRE + '''
from snuba_sdk.query_optimizers.or_optimizer import OrOptimizer
a, b = Column("x", Entity("events", "e")), Column("x", Entity("transactions", "t"))
expect(OrOptimizer().optimize([Or([Condition(a, Op.EQ, 1), Condition(b, Op.EQ, 2)])]), None)
'''),
 dict(id="B30", prop="C11", needs="a subtraction whose right operand is itself a subtraction", breaks="a - (b - c) is printed as a - b - c",
  edits=[("metrics_visitors.py", "            return self.visit(parameter)\n\n        return str(parameter)", "            text = self.visit(parameter)\n            if parameter.function_name == \"minus\" and text.endswith(\")\") and not parameter.groupby:\n                return text[1:-1]\n            return text\n\n        return str(parameter)")],
  demo=PRE + '''
from snuba_sdk.timeseries import Metric, Timeseries
from snuba_sdk.formula import Formula
from snuba_sdk.metrics_visitors import FormulaMQLPrinter
t = lambda n: Timeseries(Metric(n), "sum")
expect(FormulaMQLPrinter().visit(Formula("minus", [t("a"), Formula("minus", [t("b"), t("c")])])), "(sum(a) - (sum(b) - sum(c)))")
'''),
 dict(id="B31", prop="C12", needs="a start after the end", breaks="start and end are swapped in the context when they are out of order",
  edits=[("mql_visitor.py", "            start=returns[\"start\"],\n            end=returns[\"end\"],", "            start=min(returns[\"start\"], returns[\"end\"]),\n            end=max(returns[\"start\"], returns[\"end\"]),")],
  demo=PRE + '''
from datetime import datetime
from snuba_sdk.timeseries import Metric, Timeseries, Rollup, MetricsScope
from snuba_sdk.metrics_query import MetricsQuery
q = MetricsQuery(Timeseries(Metric("a.b"), "sum"), datetime(2021, 2, 1), datetime(2021, 1, 1), Rollup(60, None, None, 60), MetricsScope([1], [2], "x"), indexer_mappings={})
expect(q.serialize()["mql_context"]["start"], "2021-02-01T00:00:00")
'''),
 dict(id="B32", prop="C13", needs="two timeseries grouped by the same columns in a different order", breaks="group-bys that differ in order count as the same",
  edits=[("formula.py", "                has_timeseries = True\n                if param.groupby is not None:\n                    groupbys.add(tuple(param.groupby))", "                has_timeseries = True\n                if param.groupby is not None:\n                    groupbys.add(tuple(sorted(param.groupby, key=repr)))")],
  demo=PRE + '''
from snuba_sdk.timeseries import Metric, Timeseries
from snuba_sdk.formula import Formula, InvalidFormulaError
t = lambda g: Timeseries(Metric("a"), "sum", None, None, g)
try:
    Formula("plus", [t([Column("a"), Column("b")]), t([Column("b"), Column("a")])]).validate()
except InvalidFormulaError:
    pass
else:
    raise SystemExit("different group-bys accepted")
'''),
 dict(id="B33", prop="C14", needs="a bracketed list with a repeated value", breaks="repeated values of a bracketed list are dropped",
  edits=[("mql/mql.py", "            [first[0], *(v[0] for _, _, _, v in zero_or_more_others)], False", "            list(dict.fromkeys([first[0], *(v[0] for _, _, _, v in zero_or_more_others)])), False")],
  demo=PRE + '''
from snuba_sdk.mql.mql import parse_mql
expect(parse_mql('sum(a.b){k:["x", "y", "x"]}').filters, [Condition(Column("k"), Op.IN, ["x", "y", "x"])])
'''),
 dict(id="B34", prop="C14", needs="a chain of three or more subtractions", breaks="the third operand of a chain of subtractions is taken from the second",
  edits=[("mql/mql.py", "                term_left = Formula(expr_operator, [term_left, term_right])", "                if (\n                    isinstance(term_left, Formula)\n                    and len(zero_or_more_others) > 2\n                    and expr_operator == term_left.function_name\n                    and term_left.parameters\n                ):\n                    head, tail = term_left.parameters\n                    term_left = Formula(expr_operator, [head, Formula(expr_operator, [tail, term_right])])\n                else:\n                    term_left = Formula(expr_operator, [term_left, term_right])")],
  demo=PRE + '''
from snuba_sdk.mql.mql import parse_mql
from snuba_sdk.formula import Formula
f = parse_mql("sum(a) - sum(b) - sum(c) - sum(d)")
l = f
for _ in range(2):
    l = l.parameters[0]
    assert isinstance(l, Formula), f
'''),
 dict(id="B35", prop="C15", needs="a tenant id of zero", breaks="tenant ids with a falsy value are dropped from the body",
  edits=[("request.py", "            \"dataset\": self.dataset,\n            \"app_id\": self.app_id,\n            \"tenant_ids\": self.tenant_ids,", "            \"dataset\": self.dataset,\n            \"app_id\": self.app_id,\n            \"tenant_ids\": {k: v for k, v in self.tenant_ids.items() if v},")],
  demo=PRE + '''
q = Query(Entity("events")).set_select([Column("a")])
expect(Request("events", "app", q, tenant_ids={"organization_id": 0}).to_dict()["tenant_ids"], {"organization_id": 0})
'''),
 dict(id="B36", prop="C16", needs="a column condition whose only value is an empty text", breaks="empty values are stripped from the body after validation, so the column is emitted without a value",
  edits=[("delete_query.py", "        return {\"columns\": self.column_conditions}", "        return {\n            \"columns\": {\n                c: [v for v in vs if v != \"\"] for c, vs in self.column_conditions.items()\n            }\n        }")],
  demo=PRE + '''
from snuba_sdk.delete_query import DeleteQuery
expect(DeleteQuery("s", {"c": [""]}).serialize(), {"columns": {"c": [""]}})
'''),
 dict(id="B37", prop="C17", needs="a having group of alternatives on one column", breaks="a having group whose alternatives share their left-hand side becomes a conjunction",
  edits=[("legacy.py", "            if len(or_conditions) > 1:\n                having.append(Or(or_conditions))", "            if len(set(c.lhs for c in or_conditions if isinstance(c.lhs, Column))) > 1 or not all(isinstance(c.lhs, Column) for c in or_conditions):\n                having.append(Or(or_conditions))")],
  demo=PRE + '''
from snuba_sdk.legacy import json_to_snql
r = json_to_snql({"selected_columns": ["a"], "having": [[["a", "=", 1], ["a", "=", 2]]]}, "events")
expect(r.query.having, [Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("a"), Op.EQ, 2)])])
'''),
 dict(id="B38", prop="C18", needs="two limit-bys over the same columns in a different order", breaks="limit-bys that differ in column order are equal but hash differently",
  edits=[("orderby.py", "    columns: Sequence[Column]\n    count: int\n", "    columns: Sequence[Column]\n    count: int\n\n    def __eq__(self, other: object) -> bool:\n        if not isinstance(other, LimitBy):\n            return False\n        return self.count == other.count and set(self.columns) == set(other.columns)\n")],
  demo=PRE + '''
assert LimitBy([Column("a"), Column("b")], 1) != LimitBy([Column("b"), Column("a")], 1)
'''),
 dict(id="B39", prop="C03", needs="a limit-by of at least 1000", breaks="large limit-by counts are printed with a thousands separator",
  edits=[("visitors.py", "return f\"{limitby.count} BY ", "return f\"{limitby.count:,} BY ")],
  demo=PRE + '''
expect(Translation().visit(LimitBy([Column("a")], 1000)), "1000 BY a")
'''),
 dict(id="B40", prop="C12", needs="organizations listed twice or out of order", breaks="organization ids in the scope are sorted and deduplicated",
  edits=[("metrics_visitors.py", "        return asdict(scope)", "        return {**asdict(scope), \"org_ids\": sorted(set(scope.org_ids))}")],
  demo=PRE + '''
from snuba_sdk.metrics_visitors import ScopeMQLPrinter
from snuba_sdk.timeseries import MetricsScope
expect(ScopeMQLPrinter().visit(MetricsScope([2, 1, 2], [3], "x"))["org_ids"], [2, 1, 2])
'''),
 dict(id="B41", prop="C04", needs="an offset without a limit", breaks="the offset is left out when no limit is set",
  edits=[("query_visitors.py", "[returns[c] for c in clause_order if returns[c]]", "[\n                returns[c]\n                for c in clause_order\n                if returns[c] and (c != \"offset\" or returns[\"limit\"])\n            ]")],
  demo=PRE + '''
expect(Query(Entity("events")).set_select([Column("a")]).set_offset(3).serialize(), "MATCH (events) SELECT a OFFSET 3")
'''),
 dict(id="B42", prop="C06", needs="a query with a mergeable OR, serialized and then looked at or printed again", breaks="serializing stores the optimised where clause in the query itself",
  edits=[("query.py", "                return replace(self, where=new_where)", "                object.__setattr__(self, \"where\", new_where)")],
  demo=PRE + '''
q = Query(Entity("events")).set_select([Column("a")]).set_where([Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("a"), Op.EQ, 2)])])
before = q.print()
q.serialize()
expect(q.print(), before)
'''),
 dict(id="B43", prop="C06", needs="a second scope without a use case set on a query whose first scope had one", breaks="set_scope fills in the use case of the scope object it was given",
  edits=[("metrics_query.py", "        return self._replace(\"scope\", scope)", "        if self.scope is not None and scope.use_case_id is None:\n            scope.use_case_id = self.scope.use_case_id\n        return self._replace(\"scope\", scope)")],
  demo=PRE + '''
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.timeseries import MetricsScope
s = MetricsScope([1], [2])
MetricsQuery(scope=MetricsScope([1], [2], "transactions")).set_scope(s)
expect(s.use_case_id, None)
'''),
 dict(id="B44", prop="C13", needs="an interval that is no multiple of the granularity", breaks="a rollup whose interval is no multiple of its granularity is rejected",
  edits=[("timeseries.py", "self.interval < self.granularity:", "(\n                self.interval < self.granularity or self.interval % self.granularity\n            ):")],
  demo=PRE + '''
from snuba_sdk.timeseries import Rollup
Rollup(90, None, None, 60)
'''),
 dict(id="B45", prop="C07", needs="a sub-query that selects a subscripted column and an outer query that references the whole column", breaks="the whole column can be referenced although the sub-query exposes one key of it only",
  edits=[("query_validation.py", "            inner_column_names.add(s.name)\n", "            inner_column_names.update({s.name, s.subscriptable})\n")],
  demo=PRE + '''
inner = Query(Entity("events")).set_select([Column("tags[a]")])
try:
    Query(inner).set_select([Column("tags")]).serialize()
except Exception:
    pass
else:
    raise SystemExit("unresolvable column rendered")
'''),
 dict(id="B46", prop="C02", needs="a datetime with microseconds in a zone with a half-hour offset", breaks="aware datetimes lose their microseconds",
  edits=[("visitors.py", "value = value.replace(tzinfo=None)", "value = value.replace(tzinfo=None, microsecond=value.microsecond if not delta.seconds % 3600 else 0)")],
  demo=PRE + '''
from datetime import datetime, timedelta, timezone
expect(Translation().visit(datetime(2021, 1, 1, 5, 30, 0, 1, timezone(timedelta(hours=5.5)))), "toDateTime('2021-01-01T00:00:00.000001')")
'''),
 dict(id="B47", prop="C05", needs="a name with a non-ASCII letter, in an alias", breaks="aliases may hold characters outside the documented alphabet",
  edits=[("function.py", "            if not ALIAS_RE.match(self.alias):\n", "            if not ALIAS_RE.match(self.alias.encode(\"ascii\", \"ignore\").decode()):\n")],
  demo=PRE + '''
from snuba_sdk.function import InvalidFunctionError
try:
    Function("count", [], "\\u00e9")
except InvalidFunctionError:
    pass
else:
    raise SystemExit("alias outside the alphabet accepted")
'''),
 dict(id="B48", prop="C11", needs="a metric with both a public name and an MRI that is empty", breaks="an empty MRI is replaced by the public name",
  edits=[("metrics_visitors.py", "        if metric.mri is not None:\n", "        if metric.mri:\n")],
  demo=PRE + '''
from snuba_sdk.timeseries import Metric
from snuba_sdk.metrics_visitors import MetricMQLPrinter
expect(MetricMQLPrinter().visit(Metric("pub", "")), "")
'''),
]
