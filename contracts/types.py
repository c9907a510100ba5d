"""Types (class invariants) of the SDK objects that contracts quantify over.

Each entry is the representation invariant that the constructor contracts (C05,
C13) establish; objects built through the public constructors satisfy it.
"""
from engine import sdk

sdk.setup()

import datetime as dt  # noqa: E402
import re as _re  # noqa: E402

from engine.ty import *  # noqa: E402,F401,F403
from engine.ty import TYPES, Alt, Ty, Other  # noqa: E402

from snuba_sdk.aliased_expression import AliasedExpression  # noqa: E402
from snuba_sdk.column import Column  # noqa: E402
from snuba_sdk.conditions import (And, BooleanCondition, BooleanOp, Condition, Op, Or)  # noqa: E402
from snuba_sdk.delete_query import DeleteQuery  # noqa: E402
from snuba_sdk.entity import Entity  # noqa: E402
from snuba_sdk.expressions import (Extrapolate, Granularity, Limit, Offset, Totals)  # noqa: E402
from snuba_sdk.formula import Formula  # noqa: E402
from snuba_sdk.function import CurriedFunction, Function, Identifier, Lambda  # noqa: E402
from snuba_sdk.metrics_query import MetricsQuery  # noqa: E402
from snuba_sdk.orderby import Direction, LimitBy, OrderBy  # noqa: E402
from snuba_sdk.query import Query  # noqa: E402
from snuba_sdk.relationships import Join, Relationship  # noqa: E402
from snuba_sdk.request import Flags, Request  # noqa: E402
from snuba_sdk.schema import Column as SchemaColumn  # noqa: E402
from snuba_sdk.schema import ColumnSet, DataModel  # noqa: E402
from snuba_sdk.storage import Storage  # noqa: E402
from snuba_sdk.timeseries import Metric, MetricsScope, Rollup, Timeseries  # noqa: E402

COLUMN_NAME = r"[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?"
ALIAS = r"[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*"
FUNCTION_NAME = r"""[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+"""
IDENTIFIER = r"[a-zA-Z_][a-zA-Z0-9_]*"
ENTITY_NAME = r"[a-zA-Z_]+"
REQUEST_NAME = r"[a-zA-Z0-9_\.\+\*\/:\-\[\]]*"

R = ref
ENTITY_FIELDS = dict(name=strt(ENTITY_NAME, "entity"), alias=opt(strt(nonempty=True, hint="ealias")),
                     sample=opt(floatt(lo=0.0)), data_model=opt(R("DataModel")))


# inv: predicate assumed of every object of the type (symbolically and natively);
# fix: makes a drawn object satisfy it (native generation only)
def column_inv(v):
    if v.entity is not None and v.entity.data_model is not None:
        if v.subscriptable:
            if v.subscriptable not in v.entity.data_model.column_set.column_names:
                return False
        elif v.name not in v.entity.data_model.column_set.column_names:
            return False
    if "[" in v.name:
        return v.subscriptable == v.name.split("[", 1)[0] and v.key == v.name.split("[", 1)[1].strip("]")
    return v.subscriptable is None and v.key is None


def column_fix(v, rng):
    if "[" in v.name:
        v.__dict__["subscriptable"], k = v.name.split("[", 1)
        v.__dict__["key"] = k[:-1]
    else:
        v.__dict__["subscriptable"] = v.__dict__["key"] = None
    if v.entity is not None and v.entity.data_model is not None:
        outer = v.subscriptable if v.subscriptable is not None else v.name
        names = v.entity.data_model.column_set.column_names
        if outer not in names:
            good = sorted(n for n in names if _re.fullmatch(COLUMN_NAME, n) and "[" not in n)
            if good:
                v.__dict__["name"] = rng.choice(good)
                v.__dict__["subscriptable"] = v.__dict__["key"] = None
            else:
                v.__dict__["entity"] = changed(v.entity, data_model=None)


def changed(v, **kw):
    n = object.__new__(type(v))
    n.__dict__.update(v.__dict__)
    n.__dict__.update(kw)
    return n


def columns_inv(v):
    return (v.column_names == set([c.name for c in v.columns])
            and v.required_columns == set([c for c in v.columns if c.required]))


def model_inv(v):
    return v.required_columns == v.column_set.required_columns


def model_fix(v, rng):
    v.__dict__["required_columns"] = set(c for c in v.column_set.columns if c.required)


def columns_fix(v, rng):
    v.__dict__["column_names"] = set(c.name for c in v.columns)
    v.__dict__["required_columns"] = set(c for c in v.columns if c.required)


def condition_inv(v):
    if v.op is Op.IS_NULL or v.op is Op.IS_NOT_NULL:
        return v.rhs is None
    return True


def condition_fix(v, rng):
    if v.op in (Op.IS_NULL, Op.IS_NOT_NULL):
        v.__dict__["rhs"] = None


def group_fix(v, rng):
    """Make OR groups of equalities on one left-hand side frequent."""
    if rng.random() < 0.45:
        plain = [c for c in v.conditions if isinstance(c, Condition)]
        if plain:
            keep = rng.randrange(len(v.conditions)) if rng.random() < 0.3 else None
            conds = []
            for i, c in enumerate(v.conditions):
                if i == keep:
                    conds.append(c)
                else:
                    src = c if isinstance(c, Condition) else plain[0]
                    conds.append(changed(src, lhs=plain[0].lhs, op=Op.EQ))
            v.__dict__["conditions"] = type(v.conditions)(conds)


def group(kind, op, conds):
    b = object.__new__(kind)
    b.__dict__.update(op=op, conditions=conds)
    return b


def near_filter(c, rng):
    """Mostly the filter itself; now and then in a nest of AND groups, or something that merely looks like it."""
    r = rng.random()
    if r < 0.75:
        return c
    if r < 0.83:
        for _ in range(rng.randint(1, 3)):
            kind = rng.choice([And, And, BooleanCondition])
            c = group(kind, BooleanOp.AND, rng.choice([[c, c], [c, changed(c, rhs=2)], [changed(c, op=Op.NEQ), c]]))
        return c
    if r < 0.93:
        kind = rng.choice([Or, Or, BooleanCondition])
        return group(kind, BooleanOp.OR, [changed(c, rhs=k) for k in range(rng.randint(2, 5))])
    if r < 0.97:
        return changed(c, op=rng.choice([o for o in Op if o not in (Op.IS_NULL, Op.IS_NOT_NULL)]))
    return changed(c, lhs=plain_column(c.lhs.name + "x", c.lhs.entity))


def filtered(v, rng):
    """Add required-column filters to the where clause of a query."""
    m = v.match
    ents = [m] if isinstance(m, Entity) else [e for r in m.relationships for e in (r.lhs, r.rhs)] if isinstance(
        m, Join) else []
    conds = list(v.where or [])
    for e in ents:
        if e.data_model is None:
            continue
        names = [(c.name, rng.choice([Op.EQ, Op.IN])) for c in e.data_model.required_columns]
        t = e.data_model.required_time_column.name
        names += [(t, Op.GTE), (t, Op.LT)]
        for n, op in names:
            if not _re.fullmatch(COLUMN_NAME, n) or rng.random() < 0.06:
                continue
            c = object.__new__(Condition)
            ent = None if rng.random() < 0.2 else (changed(e, data_model=None) if e.alias else None)
            c.__dict__.update(lhs=plain_column(n, ent), op=op, rhs=1)
            conds.append(near_filter(c, rng))
    rng.shuffle(conds)
    while len(conds) > 3 and rng.random() < 0.4:
        k = rng.choice([And, And, And, Or])
        b = object.__new__(k)
        b.__dict__.update(op=BooleanOp.AND if k is And else BooleanOp.OR, conditions=conds[:2])
        conds = [b] + conds[2:]
        rng.shuffle(conds)
    v.__dict__["where"] = conds


def rollup_inv(v):
    if v.interval is not None:
        if v.granularity is not None and v.interval < v.granularity:
            return False
        return v.orderby is None
    return v.totals is not None


def rollup_fix(v, rng):
    d = v.__dict__
    if d["interval"] is None and d["totals"] is None:
        d["totals"] = rng.random() < 0.5
    if d["interval"] is not None:
        d["orderby"] = None
        if d["granularity"] is not None and d["interval"] < d["granularity"]:
            d["interval"] = d["granularity"] + rng.choice([0, 0, 1, 60])


def join_fix(v, rng):
    seen = {}
    rels = []
    for r in v.relationships:
        sides = []
        for e in (r.lhs, r.rhs):
            if seen.setdefault(e.alias, e.name) != e.name:
                e = changed(e, name=seen[e.alias])
            sides.append(e)
        rels.append(changed(r, lhs=sides[0], rhs=sides[1]))
    v.__dict__["relationships"] = type(v.relationships)(rels)


def join_inv(v):
    return all(all(a.lhs.alias != b.lhs.alias or a.lhs.name == b.lhs.name for b in v.relationships)
               and all(a.lhs.alias != b.rhs.alias or a.lhs.name == b.rhs.name for b in v.relationships)
               and all(a.rhs.alias != b.rhs.alias or a.rhs.name == b.rhs.name for b in v.relationships)
               for a in v.relationships)


def query_inv(v):
    if isinstance(v.match, Query):
        from contracts.spec import query_ok
        return query_ok(v.match)
    return True


def rebuild(node, f):
    """Copy of an expression with every column replaced by f(column)."""
    if isinstance(node, Column):
        return f(node)
    if isinstance(node, (list, tuple)):
        return type(node)([rebuild(x, f) for x in node])
    if isinstance(node, (AliasedExpression, CurriedFunction, Lambda, Condition, BooleanCondition, OrderBy, LimitBy)):
        return changed(node, **{k: rebuild(x, f) for k, x in node.__dict__.items()})
    return node


def plain_column(name, entity):
    v = object.__new__(Column)
    v.__dict__.update(name=name, entity=entity, subscriptable=None, key=None)
    column_fix(v, None)
    return v


def with_name(c, name, entity):
    if entity is not None and entity.data_model is not None:
        outer = name.split("[", 1)[0]
        if outer not in entity.data_model.column_set.column_names:
            entity = changed(entity, data_model=None)
    return plain_column(name, entity)


def query_fix(v, rng):
    from contracts.spec import exposed_name, query_columns, query_ok, resolvable
    d = v.__dict__
    if isinstance(v.match, Query) and not query_ok(v.match):
        d["match"] = changed(v.match)
        repair_query(d["match"], rng)
        if not query_ok(d["match"]):
            e = object.__new__(Entity)
            e.__dict__.update(name="events", alias=None, sample=None, data_model=None)
            d["match"] = e
    if rng.random() < 0.5:
        filtered(v, rng)
    if rng.random() < 0.8:
        repair_query(v, rng)
        if rng.random() < 0.15:  # break it again in one place
            c = rng.choice(["select", "totals", "column"])
            if c == "select":
                d["select"] = rng.choice([None, []])
            elif c == "totals":
                d["groupby"] = rng.choice([None, []])
            else:
                odd = plain_column(rng.choice(["zzz", "a", "tags[q]"]), None)
                k = rng.choice(["select", "groupby", "array_join"])
                d[k] = list(d[k] or []) + [odd]


def repair_query(v, rng):
    from contracts.spec import exposed_name, resolvable
    d = v.__dict__
    if isinstance(v.match, Query):
        d["match"] = changed(v.match)
        repair_query(d["match"], rng)
    if not d["select"]:
        d["select"] = [plain_column(rng.choice(["a", "b", "time"]), None)]
    if d["totals"] is not None and d["totals"].totals and not d["groupby"]:
        d["groupby"] = [plain_column("a", None)]
    m = v.match
    if isinstance(m, Query):
        names = sorted(set(n for n in map(exposed_name, m.select)
                           if n is not None and _re.fullmatch(COLUMN_NAME, n)))
        if not names:
            d["match"] = changed(m, select=list(m.select) + [first_column(m)])
            names = [first_column(m).name]
        fix = lambda c: c if resolvable(c, d["match"]) else with_name(c, rng.choice(names), c.entity)
    elif isinstance(m, Join):
        ents = [e for r in m.relationships for e in (r.lhs, r.rhs)]
        fix = lambda c: c if resolvable(c, m) else with_name(c, c.name, rng.choice(ents))
    elif m.data_model is not None:
        good = sorted(n for n in m.data_model.column_set.column_names if _re.fullmatch(COLUMN_NAME, n) and "[" not in n)
        if not good:
            d["match"] = changed(m, data_model=None)
            return
        fix = lambda c: c if resolvable(c, m) else with_name(c, rng.choice(good) + rng.choice(["", "", "[k]"]), c.entity)
    else:
        return
    for k in ("select", "groupby", "array_join", "where", "having", "orderby", "limitby"):
        d[k] = rebuild(d[k], fix)


def first_column(q):
    from contracts.spec import query_columns
    cols = sorted((c for c in query_columns(q) if "[" not in c.name), key=lambda c: c.name)
    if cols:
        return cols[0]
    return plain_column("a", None)


def simple_metric():
    m = object.__new__(Metric)
    m.__dict__.update(public_name=None, mri="d:transactions/duration@millisecond", id=None)
    return m


def simple_timeseries(rng):
    t = object.__new__(Timeseries)
    t.__dict__.update(metric=simple_metric(), aggregate=rng.choice(["sum", "max"]), aggregate_params=None, filters=None,
                      groupby=None)
    return t


def formula_fix(v, rng):
    d = v.__dict__
    if rng.random() < 0.8:
        if not d["parameters"]:
            d["parameters"] = [simple_timeseries(rng), rng.choice([1, 2.5, simple_timeseries(rng)])]
        if rng.random() < 0.8:
            g = rng.choice([None, None, d["groupby"], []])
            v.__dict__.update(regroup(v, g, rng).__dict__)


def regroup(p, g, rng):
    if isinstance(p, Formula):
        return changed(p, groupby=g if rng.random() < 0.7 else None,
                       parameters=None if p.parameters is None else
                       type(p.parameters)([regroup(x, g, rng) for x in p.parameters]))
    if isinstance(p, Timeseries):
        return changed(p, groupby=g if rng.random() < 0.7 else None)
    return p


def metrics_fix(v, rng):
    d = v.__dict__
    if rng.random() < 0.8:
        if d["query"] is None:
            d["query"] = simple_timeseries(rng)
        for k in ("start", "end"):
            if d[k] is None:
                d[k] = dt.datetime(2024, 1, 2, 3, 4, 5)
        if d["rollup"] is None:
            r = object.__new__(Rollup)
            r.__dict__.update(interval=None, totals=True, orderby=None, granularity=60)
            d["rollup"] = r
        elif d["rollup"].granularity is None:
            d["rollup"] = changed(d["rollup"], granularity=10)
        if d["scope"] is None:
            s = object.__new__(MetricsScope)
            s.__dict__.update(org_ids=[1], project_ids=[2, 3], use_case_id=None)
            d["scope"] = s
        if d["indexer_mappings"] is None and rng.random() < 0.9:
            d["indexer_mappings"] = {"a": 1}
        d["query"] = printable(d["query"], rng)


def printable(p, rng):
    """Rewrite filters to operators MQL can express."""
    if isinstance(p, (Formula, Timeseries)):
        kw = {}
        if p.filters is not None:
            kw["filters"] = [printable_filter(c, rng) for c in p.filters]
        if isinstance(p, Formula) and p.parameters is not None:
            kw["parameters"] = type(p.parameters)([printable(x, rng) for x in p.parameters])
        return changed(p, **kw)
    return p


def printable_filter(c, rng):
    if isinstance(c, Condition):
        op = c.op if c.op in (Op.EQ, Op.NEQ, Op.IN, Op.NOT_IN, Op.LIKE, Op.NOT_LIKE) else rng.choice([Op.EQ, Op.NEQ, Op.LIKE])
        return changed(c, op=op, rhs="x" if isinstance(c.rhs, CurriedFunction) else c.rhs)
    return changed(c, conditions=type(c.conditions)([printable_filter(x, rng) for x in c.conditions]))


def filters_fix(v, rng):
    if rng.random() < 0.75:
        v.__dict__.update(printable(v, rng).__dict__)


TYPES.update(
    SchemaColumn=obj(SchemaColumn, "SchemaColumn", name=strt(hint="colname"), required=BOOL),
    ColumnSet=obj(ColumnSet, "ColumnSet", inv=columns_inv, fix=columns_fix, column_names=setof(strt(hint="colname")),
                  columns=setof(R("SchemaColumn")), required_columns=setof(R("SchemaColumn"))),
    DataModel=obj(DataModel, "DataModel", inv=model_inv, fix=model_fix, column_set=R("ColumnSet"),
                  required_time_column=R("SchemaColumn"), required_columns=setof(R("SchemaColumn"))),
    Entity=obj(Entity, "Entity", **ENTITY_FIELDS),
    AliasedEntity=obj(Entity, "AliasedEntity",
                      **{**ENTITY_FIELDS, "alias": strt(nonempty=True, hint="ealias")}),
    Storage=obj(Storage, "Storage", name=strt(ENTITY_NAME, "entity"), sample=opt(floatt(lo=0.0)),
                data_model=opt(R("DataModel"))),
    Column=obj(Column, "Column", inv=column_inv, fix=column_fix, name=strt(COLUMN_NAME, "colname"), entity=opt(R("AliasedEntity")),
               subscriptable=opt(strt(hint="colname")), key=opt(strt(hint="colname"))),
    AliasedExpression=obj(AliasedExpression, "AliasedExpression", exp=R("Column"),
                          alias=opt(strt(ALIAS, "alias", nonempty=True))),
    CurriedFunction=obj(CurriedFunction, "CurriedFunction", function=strt(FUNCTION_NAME, "funcname"),
                        initializers=opt(seqof(R("Initializer"))), parameters=opt(seqof(R("Param"))),
                        alias=opt(strt(ALIAS, "alias", nonempty=True))),
    Function=obj(Function, "Function", function=strt(FUNCTION_NAME, "funcname"), initializers=NONE,
                 parameters=opt(seqof(R("Param"))), alias=opt(strt(ALIAS, "alias", nonempty=True))),
    Identifier=obj(Identifier, "Identifier", name=strt(IDENTIFIER, "ident")),
    Lambda=obj(Lambda, "Lambda", identifiers=seqof(strt(IDENTIFIER, "ident")), transformation=R("Func")),
    Func=union(R("CurriedFunction"), R("Function")),
    Literal=union(NONE, BOOL, STR, BYTES, FLOAT, INT, DATE, DATETIME),
    Initializer=union(R("Column"), R("Literal")),
    # elements of array/tuple literals
    Element=union(R("Literal"), R("Column"), R("Func"), R("Identifier"), R("Lambda"), R("Elements")),
    Elements=seqof(R("Element"), facts=("elements_deep",)),
    Scalar=union(R("Literal"), R("Elements")),
    Param=union(R("Scalar"), R("Column"), R("Func"), R("Identifier"), R("Lambda")),
    Lhs=union(R("Column"), R("Func")),
    Rhs=union(R("Scalar"), R("Column"), R("Func")),
    Condition=obj(Condition, "Condition", inv=condition_inv, fix=condition_fix, lhs=R("Lhs"), op=enumt(Op), rhs=R("Rhs")),
    BooleanCondition=obj(BooleanCondition, "BooleanCondition", fix=group_fix, op=enumt(BooleanOp),
                         conditions=seqof(R("Cond"), minlen=2)),
    And=obj(And, "And", fix=group_fix, op=enumt(BooleanOp, [BooleanOp.AND]), conditions=seqof(R("Cond"), minlen=2)),
    Or=obj(Or, "Or", fix=group_fix, op=enumt(BooleanOp, [BooleanOp.OR]), conditions=seqof(R("Cond"), minlen=2)),
    Cond=union(R("Condition"), R("BooleanCondition"), R("And"), R("Or")),
    Selectable=union(R("AliasedExpression"), R("Column"), R("Func")),
    OrderBy=obj(OrderBy, "OrderBy", exp=R("Lhs"), direction=enumt(Direction)),
    LimitBy=obj(LimitBy, "LimitBy", columns=seqof(R("Column"), minlen=1), count=intt(1, 10000)),
    Limit=obj(Limit, "Limit", limit=intt(1, 10000)),
    Offset=obj(Offset, "Offset", offset=intt(0)),
    Granularity=obj(Granularity, "Granularity", granularity=intt(1)),
    Totals=obj(Totals, "Totals", totals=BOOL),
    Extrapolate=obj(Extrapolate, "Extrapolate", extrapolate=BOOL),
    Relationship=obj(Relationship, "Relationship", lhs=R("AliasedEntity"), name=strt(nonempty=True, hint="ealias"),
                     rhs=R("AliasedEntity")),
    Join=obj(Join, "Join", inv=join_inv, fix=join_fix, relationships=seqof(R("Relationship"), minlen=1)),
    Expr=union(R("AliasedExpression"), R("Column"), R("Func"), R("Identifier"), R("Lambda"), R("Entity"),
               R("Storage"), R("Relationship"), R("Join"), R("Cond"), R("OrderBy"), R("Limit"), R("Offset"),
               R("LimitBy"), R("Granularity"), R("Totals")),
    Match=union(R("Entity"), R("Storage"), R("Join"), R("Query")),
    Query=obj(Query, "Query", inv=query_inv, fix=query_fix, match=R("Match"), select=opt(listof(R("Selectable"))),
              groupby=opt(listof(R("Selectable"))), array_join=opt(listof(R("Column"))),
              where=opt(listof(R("Cond"))), having=opt(listof(R("Cond"))), orderby=opt(listof(R("OrderBy"))),
              limitby=opt(R("LimitBy")), limit=opt(R("Limit")), offset=opt(R("Offset")),
              granularity=opt(R("Granularity")), totals=opt(R("Totals"))),
    Metric=union(obj(Metric, "Metric", public_name=strt(hint="metric"), mri=opt(strt(hint="mri")), id=opt(INT)),
                 obj(Metric, "MriMetric", public_name=NONE, mri=strt(hint="mri"), id=opt(INT))),
    GroupbyItem=union(R("Column"), R("AliasedExpression")),
    Timeseries=obj(Timeseries, "Timeseries", fix=filters_fix, metric=R("Metric"), aggregate=strt(hint="funcname"),
                   aggregate_params=opt(listof(R("Literal"))), filters=opt(listof(R("Cond"))),
                   groupby=opt(listof(R("GroupbyItem")))),
    FormulaParam=union(R("Formula"), R("Timeseries"), FLOAT, INT),
    Formula=obj(Formula, "Formula", fix=formula_fix, function_name=strt(hint="formula"),
                parameters=opt(seqof(R("FormulaParam"))), aggregate_params=opt(listof(R("Literal"))),
                filters=opt(listof(R("Cond"))), groupby=opt(listof(R("GroupbyItem")))),
    # formulas whose nested formulas all have parameters (printing asserts that)
    PrintableFormula=obj(Formula, "PrintableFormula", fix=filters_fix, function_name=strt(hint="formula"),
                         parameters=seqof(union(R("PrintableFormula"), R("Timeseries"), FLOAT, INT)),
                         aggregate_params=opt(listof(R("Literal"))), filters=opt(listof(R("Cond"))),
                         groupby=opt(listof(R("GroupbyItem")))),
    Rollup=obj(Rollup, "Rollup", inv=rollup_inv, fix=rollup_fix, interval=opt(intt(10)), totals=opt(BOOL), orderby=opt(enumt(Direction)),
               granularity=opt(const(10, 60, 3600, 86400))),
    MetricsScope=obj(MetricsScope, "MetricsScope", org_ids=listof(INT), project_ids=listof(INT),
                     use_case_id=opt(STR)),
    MetricsQuery=obj(MetricsQuery, "MetricsQuery", fix=metrics_fix, query=opt(union(R("Timeseries"), R("Formula"), strt(hint="mql"))),
                     start=opt(DATETIME), end=opt(DATETIME), rollup=opt(R("Rollup")), scope=opt(R("MetricsScope")),
                     limit=opt(R("Limit")), offset=opt(R("Offset")), extrapolate=opt(R("Extrapolate")),
                     indexer_mappings=opt(dictof(STR, union(STR, INT)))),
    Flags=obj(Flags, "Flags", totals=opt(BOOL), consistent=opt(BOOL), turbo=opt(BOOL), debug=opt(BOOL),
              dry_run=opt(BOOL), legacy=opt(BOOL)),
    DeleteQuery=obj(DeleteQuery, "DeleteQuery", storage_name=STR,
                    column_conditions=dictof(STR, listof(union(STR, INT)))),
)
TYPES["Any"] = union(
    NONE, BOOL, INT, FLOAT, STR, BYTES, DATE, DATETIME, listof(R("Any")), tupleof(R("Any")), setof(R("Hashable")),
    dictof(STR, R("Any")), OTHER, enumt(Op), enumt(BooleanOp), enumt(Direction), R("SchemaColumn"), R("DataModel"),
    R("Entity"), R("Storage"), R("Column"), R("AliasedExpression"), R("CurriedFunction"), R("Function"),
    R("Identifier"), R("Lambda"), R("Condition"), R("BooleanCondition"), R("And"), R("Or"), R("OrderBy"),
    R("LimitBy"), R("Limit"), R("Offset"), R("Granularity"), R("Totals"), R("Extrapolate"), R("Relationship"),
    R("Join"), R("Metric"), R("Timeseries"), R("Formula"), R("Rollup"), R("MetricsScope"),
    R("Flags"), R("DeleteQuery"))
TYPES["Hashable"] = union(NONE, BOOL, INT, STR)
ANY = R("Any")
