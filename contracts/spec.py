"""Specification functions for SnQL/MQL text, validity and search.

Written from the property statements.  They are executable: the engine runs them
symbolically, the search natively.  They use the SDK's classes only as the type
vocabulary (isinstance, fields) - never its functions.
"""
from contracts.types import *  # noqa: F401,F403
from contracts.types import (ALIAS, COLUMN_NAME, ENTITY_NAME, FUNCTION_NAME, IDENTIFIER, REQUEST_NAME)
from engine.lang import Rejected, charmap, children_of, contract, fullmatch, mk, naive_utc, opaque, reachable, union_of, updated

from datetime import date, datetime

from snuba_sdk.expressions import Expression, InvalidExpressionError

LITERALS = (type(None), bool, str, bytes, float, int, date, datetime)
NEWLINE_IMAGE = "\\n"


# --------------------------------------------------------------------------- C01 / C02 scalars
def escape(text, q):
    return charmap(text, {"\\": "\\\\", q: "\\" + q, "\n": "\\n"})


def quoted(text, mql):
    if mql:
        return '"' + escape(text, '"') + '"'
    return "'" + escape(text, "'") + "'"


def sequence_open(v, mql):
    if mql:
        return "["
    return "array(" if isinstance(v, list) else "tuple("


@opaque("str")
def scalar_text(v, aliases, mql):
    if v is None:
        return "NULL"
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return quoted(v, mql)
    if isinstance(v, bytes):
        return quoted(v.decode(), mql)
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, datetime):
        return "toDateTime('" + naive_utc(v).isoformat() + "')"
    if isinstance(v, date):
        return "toDateTime('" + v.isoformat() + "')"
    if isinstance(v, (list, tuple)):
        return sequence_open(v, mql) + ", ".join([element_text(e, aliases, mql) for e in v]) + ("]" if mql else ")")
    raise InvalidExpressionError


def element_text(e, aliases, mql):
    if isinstance(e, Expression):
        return render(e, aliases, mql)
    return scalar_text(e, aliases, mql)


@opaque("bool", structural=True)
def elements_deep(v):
    return all(isinstance(e, Expression) or deep_scalar(e) for e in v)


def deep_scalar(v):
    """A literal, or an array/tuple of such values and expressions at every depth."""
    if isinstance(v, LITERALS):
        return True
    return isinstance(v, (list, tuple)) and elements_deep(v)


def is_scalar_spec(v):
    if isinstance(v, (list, tuple)):
        if not deep_scalar(v):
            raise InvalidExpressionError
        return True
    return isinstance(v, LITERALS)


# --------------------------------------------------------------------------- C03 expressions
def as_alias(alias):
    return "" if alias is None else " AS `" + alias + "`"


def sample_text(sample):
    if sample is None:
        return ""
    if sample % 1 == 0:
        return " SAMPLE " + format(sample, ".1f")
    return " SAMPLE " + format(sample, "f")


def arguments(values, aliases, mql):
    if values is None:
        return ""
    return "(" + ", ".join([element_text(p, aliases, mql) for p in values]) + ")"


@opaque("str")
def render(node, aliases, mql):
    if isinstance(node, AliasedExpression):
        return render(node.exp, aliases, mql) + as_alias(node.alias)
    if isinstance(node, Column):
        if aliases and node.entity is not None:
            return node.entity.alias + "." + node.name
        return node.name
    if isinstance(node, CurriedFunction):
        return (node.function + arguments(node.initializers, aliases, mql) + arguments(node.parameters, aliases, mql)
                + as_alias(node.alias))
    if isinstance(node, Identifier):
        return "`" + node.name + "`"
    if isinstance(node, Lambda):
        return ("(" + ", ".join(["`" + i + "`" for i in node.identifiers]) + ") -> "
                + render(node.transformation, aliases, mql))
    if isinstance(node, Entity):
        prefix = node.alias + ": " if aliases and node.alias is not None else ""
        return "(" + prefix + node.name + sample_text(node.sample) + ")"
    if isinstance(node, Storage):
        return "STORAGE(" + node.name + sample_text(node.sample) + ")"
    if isinstance(node, Relationship):
        return render(node.lhs, aliases, mql) + " -[" + node.name + "]-> " + render(node.rhs, aliases, mql)
    if isinstance(node, Join):
        return ", ".join([render(r, aliases, mql) for r in node.relationships])
    if isinstance(node, Condition):
        if is_unary_op(node.op):
            return render(node.lhs, aliases, mql) + " " + node.op.value
        return render(node.lhs, aliases, mql) + " " + node.op.value + " " + element_text(node.rhs, aliases, mql)
    if isinstance(node, BooleanCondition):
        return "(" + (" " + node.op.value + " ").join([render(c, aliases, mql) for c in node.conditions]) + ")"
    if isinstance(node, OrderBy):
        return render(node.exp, aliases, mql) + " " + node.direction.value
    if isinstance(node, LimitBy):
        return str(node.count) + " BY " + ",".join([render(c, aliases, mql) for c in node.columns])
    if isinstance(node, Limit):
        return str(node.limit)
    if isinstance(node, Offset):
        return str(node.offset)
    if isinstance(node, Granularity):
        return str(node.granularity)
    if isinstance(node, Totals):
        return str(node.totals)
    return scalar_text(node, aliases, mql)


def is_unary_op(op):
    return op is Op.IS_NULL or op is Op.IS_NOT_NULL


# --------------------------------------------------------------------------- C04 queries
def clause(keyword, items, sep, aliases):
    if not items:
        return []
    return [keyword + sep.join([render(i, aliases, False) for i in items])]


def single(keyword, item, aliases):
    if item is None:
        return []
    return [keyword + render(item, aliases, False)]


def match_text(match, pretty, aliases):
    if isinstance(match, Query):
        return "MATCH { " + query_text(match, pretty, True) + " }"
    return "MATCH " + render(match, aliases, False)


@opaque("str")
def query_text(q, pretty, inner):
    aliases = isinstance(q.match, Join)
    parts = ([match_text(q.match, pretty, aliases)]
             + clause("SELECT ", q.select, ", ", aliases)
             + clause("BY ", q.groupby, ", ", aliases)
             + clause("ARRAY JOIN ", q.array_join, ", ", aliases)
             + clause("WHERE ", q.where, " AND ", aliases)
             + clause("HAVING ", q.having, " AND ", aliases)
             + clause("ORDER BY ", q.orderby, ", ", aliases)
             + single("LIMIT ", q.limitby, aliases)
             + single("LIMIT ", q.limit, aliases)
             + single("OFFSET ", q.offset, aliases)
             + single("GRANULARITY ", q.granularity, aliases)
             + single("TOTALS ", q.totals, aliases))
    return ("\n" if pretty and not inner else " ").join(parts)


# --------------------------------------------------------------------------- C08 search
COMPOSITE = (AliasedExpression, CurriedFunction, Lambda, Condition, BooleanCondition, OrderBy, LimitBy, list, tuple)


@opaque("set")
def columns_within(node):
    if isinstance(node, AliasedExpression):
        return columns_in(node.exp)
    if isinstance(node, CurriedFunction):
        return columns_in_all(node.initializers) | columns_in_all(node.parameters)
    if isinstance(node, Lambda):
        return columns_in(node.transformation)
    if isinstance(node, Condition):
        return columns_in(node.lhs) | columns_in(node.rhs)
    if isinstance(node, BooleanCondition):
        return union_of([columns_in(c) for c in node.conditions])
    if isinstance(node, OrderBy):
        return columns_in(node.exp)
    if isinstance(node, LimitBy):
        return union_of([columns_in(c) for c in node.columns])
    return union_of([columns_in(e) for e in node])


columns_within.__ty__ = setof(R("Column"))


def columns_in(node):
    """The columns that occur in an expression or literal."""
    if isinstance(node, Column):
        return {node}
    if isinstance(node, COMPOSITE):
        return columns_within(node)
    return set()


def columns_in_all(nodes):
    if not nodes:
        return set()
    return union_of([columns_in(n) for n in nodes])


def columns_in_opt(node):
    if node is None:
        return set()
    return columns_in(node)


@opaque("set")
def query_columns(q):
    return (columns_in_all(q.select) | columns_in_all(q.groupby) | columns_in_all(q.array_join)
            | columns_in_all(q.where) | columns_in_all(q.having) | columns_in_all(q.orderby)
            | columns_in_opt(q.limitby))


query_columns.__ty__ = setof(R("Column"))


# --------------------------------------------------------------------------- C07 validity
def schema_has(model, column):
    if model is None:
        return True
    name = column.subscriptable if column.subscriptable else column.name
    return name in model.column_set.column_names


def exposed_name(s):
    if isinstance(s, CurriedFunction):
        return s.alias
    if isinstance(s, AliasedExpression):
        return s.alias if s.alias is not None else s.exp.name
    return s.name


def join_has(join, entity):
    return any((r.lhs.alias == entity.alias and r.lhs.name == entity.name)
               or (r.rhs.alias == entity.alias and r.rhs.name == entity.name) for r in join.relationships)


def resolvable(column, match):
    if isinstance(match, Query):
        return any(exposed_name(s) == column.name for s in match.select)
    if isinstance(match, Join):
        return column.entity is not None and join_has(match, column.entity)
    return schema_has(match.data_model, column)


def query_ok(q):
    return bool(q.select) and clauses_ok(q)


@opaque("bool")
def clauses_ok(q):
    if isinstance(q.match, Query) and not query_ok(q.match):
        return False
    if q.totals is not None and q.totals.totals and not q.groupby:
        return False
    return all(resolvable(c, q.match) for c in query_columns(q))


# --------------------------------------------------------------------------- C09 required columns
@opaque("val")
def top_level(conditions):
    """The conjunctive top level: the conditions, with (nested) AND groups replaced by their members."""
    out = []
    for c in conditions:
        if isinstance(c, BooleanCondition) and c.op is BooleanOp.AND:
            out += top_level(c.conditions)
        else:
            out += [c]
    return out


top_level.__ty__ = listof(R("Cond"))


def has_filter(conditions, ops, name, alias):
    """The conjunctive top level contains a condition with one of ops on the named column of this entity."""
    return any(condition_filters(c, ops, name, alias) for c in top_level(conditions))


def condition_filters(c, ops, name, alias):
    if isinstance(c, Condition) and isinstance(c.lhs, Column):
        return (c.lhs.name == name and c.op in ops
                and (c.lhs.entity is None or c.lhs.entity.alias == alias))
    return False


def entity_filtered(entity, where):
    model = entity.data_model
    if model is None:
        return True
    if not where:
        return False
    time = model.required_time_column.name
    return (all(has_filter(where, (Op.EQ, Op.IN), c.name, entity.alias) for c in model.required_columns)
            and has_filter(where, (Op.GTE,), time, entity.alias)
            and has_filter(where, (Op.LT,), time, entity.alias))


@opaque("bool")
def required_ok(q):
    if isinstance(q.match, Query):
        return required_ok(q.match)
    if isinstance(q.match, Entity):
        return entity_filtered(q.match, q.where)
    if isinstance(q.match, Join):
        return all(entity_filtered(r.lhs, q.where) and entity_filtered(r.rhs, q.where)
                   for r in q.match.relationships)
    return True


# --------------------------------------------------------------------------- C10 OR optimisation
def mergeable(c):
    """An OR group all of whose members are equality conditions on one and the same left-hand side."""
    return (isinstance(c, BooleanCondition) and c.op is BooleanOp.OR and isinstance(c.conditions[0], Condition)
            and all(isinstance(m, Condition) and m.op is Op.EQ and m.lhs == c.conditions[0].lhs
                    for m in c.conditions))


def merged(c):
    if mergeable(c):
        return mk(Condition, lhs=c.conditions[0].lhs, op=Op.IN, rhs=[m.rhs for m in c.conditions])
    return c


def optimized_conditions(conditions):
    """The rewritten list, or None when nothing can be merged."""
    if any(mergeable(c) for c in conditions):
        return [merged(c) for c in conditions]
    return None


def optimized_query(q):
    if q.where is None or optimized_conditions(q.where) is None:
        return q
    return updated(q, where=optimized_conditions(q.where))


# --------------------------------------------------------------------------- C11 MQL text
MQL_PLAIN = (Op.EQ, Op.IN, Op.LIKE)
MQL_NEGATED = (Op.NEQ, Op.NOT_IN, Op.NOT_LIKE)
INFIX = {"plus": "+", "minus": "-", "multiply": "*", "divide": "/"}


@opaque("bool")
def filter_ok(c):
    if isinstance(c, Condition):
        return (c.op in MQL_PLAIN or c.op in MQL_NEGATED) and not isinstance(c.rhs, CurriedFunction)
    return all(filter_ok(m) for m in c.conditions)


@opaque("str")
def filter_text(c):
    if isinstance(c, Condition):
        return (("!" if c.op in MQL_NEGATED else "") + render(c.lhs, False, True) + ":"
                + element_text(c.rhs, False, True))
    return "(" + (" " + c.op.value + " ").join([filter_text(m) for m in c.conditions]) + ")"


def filters_ok(filters):
    return filters is None or all(filter_ok(c) for c in filters)


def filters_text(filters):
    if filters is None:
        return ""
    return "{" + " AND ".join([filter_text(c) for c in filters]) + "}"


def groupby_text(groupby):
    if groupby is None:
        return ""
    return " by (" + ", ".join([render(g, False, True) for g in groupby]) + ")"


def metric_text(metric):
    if metric.mri is not None:
        return metric.mri
    return metric.public_name


def aggregate_text(name, params):
    if not params:
        return name
    return name + "(" + ", ".join([scalar_text(p, False, True) for p in params]) + ")"


def timeseries_text(ts):
    aggregate = aggregate_text(ts.aggregate, ts.aggregate_params)
    inner = aggregate + "(" + metric_text(ts.metric) + ")" if aggregate else metric_text(ts.metric)
    return inner + filters_text(ts.filters) + groupby_text(ts.groupby)


def plain_arguments(params):
    if not params:
        return ""
    return "(" + ", ".join([str(p) for p in params]) + ")"


def prefix_name(name):
    return "-" if name == "negate" else name


@opaque("str")
def formula_text(f):
    args = [operand_text(p) for p in f.parameters]
    if f.function_name in INFIX:
        head = "(" + (" " + INFIX[f.function_name] + " ").join(args) + ")"
    else:
        head = prefix_name(f.function_name) + plain_arguments(f.aggregate_params) + "(" + ", ".join(args) + ")"
    return head + filters_text(f.filters) + groupby_text(f.groupby)


def operand_text(p):
    if isinstance(p, Formula):
        return formula_text(p)
    if isinstance(p, Timeseries):
        return timeseries_text(p)
    return str(p)


@opaque("bool")
def formula_printable(f):
    return f.parameters is not None and filters_ok(f.filters) and all(operand_printable(p) for p in f.parameters)


def operand_printable(p):
    if isinstance(p, Formula):
        return formula_printable(p)
    if isinstance(p, Timeseries):
        return filters_ok(p.filters)
    return True


# --------------------------------------------------------------------------- C13 formulas
@children_of(near(R("FormulaParam")))
def formula_children(p):
    return list(p.parameters) if isinstance(p, Formula) and p.parameters is not None else []


def formula_nodes(f):
    """The formula and everything nested in it."""
    return [f] + [x for c in formula_children(f) for x in reachable(c, formula_children)]


def has_timeseries(f):
    return any(isinstance(x, Timeseries) for x in formula_nodes(f))


def groupbys_in(f):
    return {tuple(x.groupby) for x in formula_nodes(f) if isinstance(x, (Formula, Timeseries)) and x.groupby is not None}


@opaque("bool", structural=True)
def formula_consistent(f):
    """At least one time series inside, and at most one grouping among all that is nested in the formula."""
    return has_timeseries(f) and len(groupbys_in(f)) <= 1
