"""Contracts and drivers: legacy JSON bodies (C17) and equality/hash coherence (C18)."""
from contracts.mql import *  # noqa: F401,F403
from contracts.mql import N, R, driver
from contracts.snql import (and_spec, column_spec, condition_spec, function_spec, granularity_spec, limit_spec,
                            limitby_spec, list_of, offset_spec, orderby_spec, set_array_join_spec, set_granularity_spec,
                            set_groupby_spec, set_having_spec, set_limit_spec, set_limitby_spec, set_offset_spec,
                            set_orderby_spec, set_select_spec, set_totals_spec, set_where_spec, totals_spec, or_spec,
                            entity_spec)
from contracts.spec import *  # noqa: F401,F403
from engine.lang import Rejected, contract, mk, opaque, updated

from datetime import datetime

from engine.ty import Alt, Ty, lean
from snuba_sdk import legacy as legacy_module

JSON = R("LJson")

# ------------------------------------------------------------------ C17
OPERATOR_NAMES = {">": "greater", "<": "less", ">=": "greaterOrEquals", "<=": "lessOrEquals", "=": "equals",
                  "!=": "notEquals", "IN": "in", "NOT IN": "notIn", "LIKE": "like", "NOT LIKE": "notLike",
                  "IS NULL": "isNull", "IS NOT NULL": "isNotNull"}
TIME_COLUMNS = {"discover": "timestamp", "discover_events": "timestamp", "discover_transactions": "finish_ts",
                "errors": "timestamp", "events": "timestamp", "outcomes": "timestamp", "outcomes_raw": "timestamp",
                "replays": "timestamp", "search_issues": "timestamp", "sessions": "started", "spans": "finish_ts",
                "transactions": "finish_ts"}
OPERATORS = tuple(OPERATOR_NAMES) + ("!",)


@opaque("val")
def date_of(text):
    """The datetime a date-like string denotes (None if it is not one). The colon of an offset is optional."""
    return date_step(text)


def date_step(text):
    if "+" in text:
        first, zone = text.split("+", 1)
        text = first + "+" + zone.replace(":", "")
    for style in ("%Y-%m-%dT%H:%M:%S.%f", "%Y-%m-%dT%H:%M:%S%z", "%Y-%m-%dT%H:%M:%S"):
        try:
            return datetime.strptime(text, style)
        except ValueError:
            continue
    return None


date_of.__ty__ = opt(DATETIME)


@contract("snuba_sdk.legacy:parse_datetime", prop="C17", types=dict(date_str=STR))
def required_date(date_str):
    value = date_of(date_str)
    if value is None:
        raise ValueError
    return value


def date_spec(text):
    value = date_step(text)
    if value is None:
        raise ValueError
    return value


@opaque("val")
def legacy_scalar(value, only_strings):
    return scalar_step(value, only_strings)


def scalar_step(value, only_strings):
    if isinstance(value, (list, tuple)):
        return tuple([legacy_scalar(v, only_strings) for v in value])
    if isinstance(value, str) and not only_strings:
        date_value = date_of(value)
        return value if date_value is None else date_value
    return value


legacy_scalar.__ty__ = R("LScalar")


@contract("snuba_sdk.legacy:parse_scalar", prop="C17", types=dict(value=JSON, only_strings=BOOL))
def scalar_contract(value, only_strings):
    return legacy_scalar(value, only_strings)


def legacy_is_condition(value):
    return (len(value) == 3 and isinstance(value[1], str) and value[1].upper() in OPERATORS
            and isinstance(value[0], (str, tuple, list)))


def new_column(name):
    return column_spec(name, None)


def without_backticks(alias):
    if alias and alias.startswith("`") and alias.endswith("`"):
        return alias[1:-1]
    return alias


@opaque("bool")
def legacy_ok(value):
    """The legacy expression has a meaning."""
    try:
        exp_step(value)
    except Exception:
        return False
    return True


@opaque("val")
def legacy_val(value):
    """The expression (or scalar) that a legacy expression stands for."""
    return exp_step(value)


legacy_val.__ty__ = union(R("LScalar"), R("Column"), R("Function"))


@contract("snuba_sdk.legacy:parse_exp", prop="C17", types=dict(value=JSON))
def legacy_exp(value):
    if not legacy_ok(value):
        raise Rejected
    return legacy_val(value)


def exp_step(value):
    if isinstance(value, str):
        if value == "":
            return value
        if value.startswith("'") and value.endswith("'"):
            return value[1:-1]
        return new_column(value)
    if not isinstance(value, list):
        return legacy_scalar(value, False)
    if legacy_is_condition(value):
        lhs, op, rhs = legacy_parts(value)
        if op.value not in OPERATOR_NAMES:
            raise Rejected
        return function_spec(OPERATOR_NAMES[op.value], (lhs, rhs), None)
    if len(value) < 2 or not isinstance(value[0], str):
        raise Rejected
    alias = without_backticks(value[2] if len(value) > 2 else None)
    if not value[1]:
        if value[0].endswith("()"):
            return function_spec(value[0].strip("()"), [], alias)
        if value[0].endswith(")"):
            return function_spec(value[0], [] if isinstance(value[1], list) else None, alias)
        return function_spec(value[0], [], alias)
    if isinstance(value[1], list):
        return function_spec(value[0], [legacy_exp(v) for v in value[1]], alias)
    return function_spec(value[0], [legacy_exp(value[1])], alias)


def is_tag_or_release(v):
    return isinstance(v, Column) and (v.subscriptable == "tags" or v.name == "release")


def compares_text(lhs):
    """Tags and release are always compared as text."""
    if is_tag_or_release(lhs):
        return True
    return (isinstance(lhs, Function) and lhs.function == "ifNull" and bool(lhs.parameters)
            and len(lhs.parameters) > 1 and is_tag_or_release(lhs.parameters[0]))


def operator_of(text):
    for op in Op:
        if op.value == text:
            return op
    raise Rejected


def legacy_parts(cond):
    lhs = legacy_exp(cond[0])
    op = operator_of(cond[1])
    rhs = None if is_unary_op(op) else legacy_scalar(cond[2], compares_text(lhs))
    return lhs, op, rhs


def condition_step(cond):
    lhs, op, rhs = legacy_parts(cond)
    return condition_spec(lhs, op, rhs)


@opaque("bool")
def condition_ok(cond):
    """The legacy condition has a meaning."""
    try:
        condition_step(cond)
    except Exception:
        return False
    return True


@opaque("val")
def condition_val(cond):
    """The condition that a legacy condition stands for."""
    return condition_step(cond)


condition_val.__ty__ = R("Condition")


@contract("snuba_sdk.legacy:parse_condition", prop="C17", types=dict(cond=JSON))
def legacy_condition(cond):
    if not condition_ok(cond):
        raise Rejected
    return condition_val(cond)


def extension_step(column, values, always_in):
    column = new_column(column)
    if isinstance(values, int) and not always_in:
        return condition_spec(column, Op.EQ, values)
    if isinstance(values, int):
        values = [values]
    if isinstance(values, (list, tuple)):
        return condition_spec(column, Op.IN, tuple([legacy_scalar(v, False) for v in values]))
    return None


@opaque("bool")
def extension_ok(column, values, always_in):
    try:
        extension_step(column, values, always_in)
    except Exception:
        return False
    return True


@opaque("val")
def extension_val(column, values, always_in):
    """The condition that an extension (organization, project) of the body stands for."""
    return extension_step(column, values, always_in)


extension_val.__ty__ = opt(R("Condition"))


@contract("snuba_sdk.legacy:parse_extension_condition", prop="C17",
          types=dict(col=strt(hint="lcol"), values=JSON, always_in=BOOL))
def legacy_extension(col, values, always_in):
    if not extension_ok(col, values, always_in):
        raise Rejected
    return extension_val(col, values, always_in)


def extension_condition(column, values, always_in):
    value = legacy_extension(column, values, always_in)
    return [] if value is None else [value]


def condition_entry(entry):
    """One entry of conditions/having: a condition, or a list of alternatives."""
    if legacy_is_condition(entry):
        return [legacy_condition(entry)]
    alternatives = [legacy_condition(c) for c in entry]
    if len(alternatives) > 1:
        return [or_spec(alternatives)]
    return alternatives


def condition_entries(entries):
    out = []
    for e in entries:
        out += condition_entry(e)
    return out


def as_list(v):
    return list(v) if isinstance(v, tuple) else v


def order_entry(o):
    if isinstance(o, list):
        if isinstance(o[0], str) and o[0].startswith("-"):
            return orderby_spec(legacy_exp([o[0].lstrip("-")] + o[1:]), Direction.DESC)
        return orderby_spec(legacy_exp(o), Direction.ASC)
    if o.startswith("-"):
        return orderby_spec(legacy_exp(o.lstrip("-")), Direction.DESC)
    return orderby_spec(legacy_exp(o), Direction.ASC)


def time_conditions(entity, body):
    out = []
    column = TIME_COLUMNS.get(entity)
    if column is not None:
        if body.get("from_date"):
            out = out + [condition_spec(new_column(column), Op.GTE, required_date(body["from_date"]))]
        if body.get("to_date"):
            out = out + [condition_spec(new_column(column), Op.LT, required_date(body["to_date"]))]
    return out


def legacy_select(body):
    return ([legacy_exp(list(a)) for a in body.get("aggregations", [])]
            + [legacy_exp(as_list(s)) for s in body.get("selected_columns", [])])


def legacy_groupby(body):
    groupby = body.get("groupby", [])
    if groupby and not isinstance(groupby, list):
        groupby = [groupby]
    return [legacy_exp(as_list(g)) for g in groupby]


def legacy_where(entity, body):
    out = []
    if body.get("organization"):
        out = out + extension_condition("org_id", body["organization"], False)
    out = out + time_conditions(entity, body)
    if body.get("project"):
        out = out + extension_condition("project_id", body["project"], True)
    return out + condition_entries(body.get("conditions", []))


def legacy_orderby(body):
    order = body["orderby"]
    if not isinstance(order, list):
        order = [order]
    return [order_entry(o) for o in order]


def flag(body, name):
    return body.get(name) if body.get(name) else None


def legacy_spec(body, entity):
    sample = body.get("sample")
    match = entity_spec(entity, None, None if sample is None else float(sample), None)
    query = mk(Query, match=match, select=None, groupby=None, array_join=None, where=None, having=None, orderby=None,
               limitby=None, limit=None, offset=None, granularity=None, totals=None)
    if body.get("arrayjoin"):
        query = set_array_join_spec(query, [new_column(body["arrayjoin"])])
    query = set_select_spec(query, legacy_select(body))
    query = set_groupby_spec(query, legacy_groupby(body))
    query = set_where_spec(query, legacy_where(entity, body))
    query = set_having_spec(query, condition_entries(body.get("having", [])))
    if body.get("orderby"):
        query = set_orderby_spec(query, legacy_orderby(body))
    if body.get("limitby"):
        count, name = body["limitby"]
        query = set_limitby_spec(query, limitby_spec([new_column(name)], int(count)))
    if body.get("limit") is not None:
        query = set_limit_spec(query, body["limit"])
    if body.get("offset") is not None:
        query = set_offset_spec(query, body["offset"])
    if body.get("granularity") is not None:
        query = set_granularity_spec(query, body["granularity"])
    if body.get("totals") is not None:
        query = set_totals_spec(query, body["totals"])
    flags = mk(Flags, totals=None, consistent=flag(body, "consistent"), turbo=flag(body, "turbo"),
               debug=flag(body, "debug"), dry_run=flag(body, "dry_run"), legacy=True)
    return mk(Request, dataset=body.get("dataset") or entity, app_id=body.get("app_id") or "legacy", query=query,
              flags=flags, parent_api="<unknown>", tenant_ids=body.get("tenant_ids") or {"legacy": "legacy"})


LNAME = strt(hint="lfunc")
LCOL = strt(hint="lcol")
LTEXT = strt(hint="lvalue")
LALIAS = opt(strt(hint="lalias"))
TYPES.update(
    # any legacy value (tuples are accepted where JSON has lists)
    LJson=union(NONE, BOOL, INT, FLOAT, LTEXT, listof(JSON), tupleof(JSON)),
    LScalar=union(NONE, BOOL, INT, FLOAT, STR, DATETIME, tupleof(R("LScalar"))),
    LValue=lean(union(NONE, BOOL, INT, FLOAT, LTEXT, seqof(union(INT, LTEXT))), JSON),
    LFunction=union(fixed_list(LNAME, union(NONE, listof(R("LExp")), LCOL)),
                    fixed_list(LNAME, union(NONE, listof(R("LExp")), LCOL), LALIAS)),
    LCondition=lean(fixed_list(union(LCOL, R("LFunction")), const(*OPERATORS), R("LValue")), JSON),
    LExp=lean(union(LCOL, R("LFunction"), R("LCondition"), INT, FLOAT, NONE), JSON),
    LEntry=lean(union(R("LCondition"), listof(R("LCondition"))), JSON),
    LAggregation=lean(union(R("LFunction"), fixed_tuple(LNAME, union(NONE, LCOL, listof(LCOL)), LALIAS)), JSON),
    LSelected=lean(union(LCOL, R("LFunction"), fixed_tuple(LNAME, listof(LCOL), LALIAS)), JSON),
    LOrder=lean(union(strt(hint="lorder"), fixed_list(strt(hint="lofunc"), listof(LCOL))), union(STR, listof(JSON))),
)
KEYS = {
    "sample": union(NONE, INT, FLOAT), "aggregations": listof(R("LAggregation")),
    "selected_columns": listof(R("LSelected")), "arrayjoin": opt(LCOL),
    "groupby": union(LCOL, listof(R("LSelected"))),
    "organization": union(INT, seqof(INT)), "from_date": strt(hint="ldate"), "to_date": strt(hint="ldate"),
    "project": union(INT, seqof(INT)), "conditions": listof(R("LEntry")), "having": listof(R("LEntry")),
    "orderby": union(strt(hint="lorder"), listof(R("LOrder"))),
    "limitby": union(NONE, fixed_list(INT, LCOL), fixed_tuple(INT, LCOL)), "limit": opt(INT), "offset": opt(INT),
    "granularity": opt(INT), "totals": opt(BOOL), "consistent": opt(BOOL), "turbo": opt(BOOL), "debug": opt(BOOL),
    "dry_run": opt(BOOL), "dataset": opt(strt(hint="entity")), "app_id": opt(strt(hint="ealias")),
    "tenant_ids": opt(dictof(STR, union(STR, INT))), "legacy": BOOL, "unknown": STR,
}
TYPES["LBody"] = Ty([Alt(dict, key=STR, val=JSON, keys=KEYS)], "body")


def draw_body(args, pool):
    rng = pool.rng
    body = {}
    p = rng.choice([0.2, 0.5, 0.9])
    for k, t in KEYS.items():
        if rng.random() < p:
            body[k] = pool.draw(t, 1)
    if not body.get("aggregations") and not body.get("selected_columns") and rng.random() < 0.95:
        body["selected_columns"] = ["a", "time"]
    entity = args["entity"]
    if rng.random() < 0.8:
        entity = rng.choice(sorted(TIME_COLUMNS) + ["my_entity"])
    for k in ("limit", "offset", "granularity"):
        if isinstance(body.get(k), int) and rng.random() < 0.9:
            body[k] = rng.choice([1, 10, 100, 60])
    if body.get("limitby") and rng.random() < 0.9:
        body["limitby"] = [rng.choice([1, 5]), rng.choice(["a", "tags[b]"])]
    if isinstance(body.get("sample"), (int, float)) and rng.random() < 0.9:
        body["sample"] = rng.choice([1, 0.5, 10])
    return {"body": body, "entity": entity}


driver("C17", "json_to_snql", dict(body=R("LBody"), entity=strt(hint="entity")),
       lambda body, entity: legacy_module.json_to_snql(body, entity), legacy_spec, exc="any", prepare=draw_body,
       under=["snuba_sdk.legacy:json_to_snql"])
driver("C17", "legacy expression", dict(value=R("LExp")), lambda value: legacy_module.parse_exp(value), exp_step,
       exc="any", under=["snuba_sdk.legacy:parse_exp"])
driver("C17", "legacy date", dict(text=strt(hint="ldate")), lambda text: legacy_module.parse_datetime(text), date_spec,
       exc="value", under=["snuba_sdk.legacy:parse_datetime"])
driver("C17", "legacy scalar", dict(value=R("LValue"), only_strings=BOOL),
       lambda value, only_strings: legacy_module.parse_scalar(value, only_strings), scalar_step, exc="any",
       under=["snuba_sdk.legacy:parse_scalar"])
driver("C17", "legacy condition", dict(cond=R("LCondition")), lambda cond: legacy_module.parse_condition(cond),
       condition_step, exc="any", under=["snuba_sdk.legacy:parse_condition"])


driver("C17", "legacy extension", dict(col=LCOL, values=JSON, always_in=BOOL),
       lambda col, values, always_in: legacy_module.parse_extension_condition(col, values, always_in), extension_step,
       exc="any", under=["snuba_sdk.legacy:parse_extension_condition"])


# ------------------------------------------------------------------ C18 coherence
def coherent(a, b):
    """Equal values have equal hashes (unhashable values have none)."""
    try:
        ha, hb = hash(a), hash(b)
    except TypeError:
        return True
    return not (a == b) or ha == hb


def holds(a, b):
    return True


def hashable(v):
    if isinstance(v, list):
        return tuple([hashable(x) for x in v])
    if isinstance(v, tuple):
        return tuple([hashable(x) for x in v])
    if type(v).__module__.startswith("snuba_sdk") and not hasattr(v, "__members__") and not hasattr(type(v), "__members__"):
        return changed(v, **{k: hashable(x) for k, x in v.__dict__.items()})
    return v


def draw_pair(args, pool):
    rng = pool.rng
    plain = hashable if type(args["a"]).__name__ in EXPR_CLASSES else lambda v: v
    a, b = plain(args["a"]), plain(args["b"])
    if rng.random() < 0.75:
        b = changed(a)
        if rng.random() < 0.7:
            k = rng.choice(sorted(b.__dict__))
            b = changed(b, **{k: plain(getattr(args["b"], k, b.__dict__[k]))})
    return {"a": a, "b": b}


EXPR_CLASSES = ("AliasedExpression", "Column", "CurriedFunction", "Function", "Identifier", "Lambda", "Entity", "Storage",
                "Relationship", "Join", "Condition", "BooleanCondition", "And", "Or", "OrderBy", "LimitBy", "Limit",
                "Offset", "Granularity", "Totals", "Extrapolate", "SchemaColumn", "Metric", "Rollup")
# what an expression consists of, besides its class; two expressions are equal when all of it is
PARTS = {"AliasedExpression": ("exp", "alias"), "Column": ("name", "entity"),
         "Function": ("function", "parameters", "alias"), "Identifier": ("name",),
         "Lambda": ("identifiers", "transformation"), "Entity": ("name", "alias", "sample", "data_model"),
         "Storage": ("name", "sample", "data_model"), "Relationship": ("lhs", "name", "rhs"), "Join": ("relationships",),
         "Condition": ("lhs", "op", "rhs"), "BooleanCondition": ("op", "conditions"), "And": ("conditions",),
         "Or": ("conditions",), "OrderBy": ("exp", "direction"), "LimitBy": ("columns", "count"), "Limit": ("limit",),
         "Offset": ("offset",), "Granularity": ("granularity",), "Totals": ("totals",), "Extrapolate": ("extrapolate",),
         "Metric": ("public_name", "mri", "id"), "Rollup": ("interval", "totals", "orderby", "granularity"),
         "Query": ("match", "select", "groupby", "array_join", "where", "having", "orderby", "limitby", "limit", "offset",
                   "granularity", "totals"),
         "Timeseries": ("metric", "aggregate", "aggregate_params", "filters", "groupby"),
         "Formula": ("function_name", "parameters", "aggregate_params", "filters", "groupby"),
         "MetricsScope": ("org_ids", "project_ids", "use_case_id"),
         "MetricsQuery": ("query", "start", "end", "rollup", "scope", "limit", "offset", "extrapolate", "indexer_mappings"),
         "DeleteQuery": ("storage_name", "column_conditions")}


def parts_equal(names):
    def spec(a, b):
        return tuple(getattr(a, n) for n in names) == tuple(getattr(b, n) for n in names)
    return spec


for _n in EXPR_CLASSES:
    driver("C18", "hash " + _n, dict(a=R(_n), b=R(_n)), coherent, holds, prepare=draw_pair, openeq=True)
driver("C18", "hash CurriedFunction/Function", dict(a=R("CurriedFunction"), b=R("Function")), coherent, holds, openeq=True)
driver("C18", "hash Function/CurriedFunction", dict(a=R("Function"), b=R("CurriedFunction")), coherent, holds, openeq=True)
for _n, _p in PARTS.items():
    driver("C18", _n + " ==", dict(a=R(_n), b=R(_n)), lambda a, b: a == b, parts_equal(_p), prepare=draw_pair, openeq=True)


# expressions of different kinds are never equal (And, Or and BooleanCondition are three kinds; so are a Function and
# a CurriedFunction, except as below)
SCALARS = union(NONE, BOOL, INT, STR)
KINDS = [n for n in PARTS if n != "Function"]
for _n in KINDS:
    driver("C18", "%s != other kinds" % _n, dict(a=R(_n), b=union(*[R(k) for k in KINDS if k != _n], SCALARS)),
           lambda a, b: (a == b, b == a), lambda a, b: (False, False), openeq=True)
for _n in ("CurriedFunction", "Function"):
    driver("C18", "%s != other kinds" % _n, dict(a=R(_n), b=union(*[R(k) for k in KINDS], SCALARS)),
           lambda a, b: (a == b, b == a), lambda a, b: (False, False), openeq=True)


def can_hash(a):
    try:
        hash(a)
    except TypeError:
        return False
    return True


def hashes_with(names):
    """An expression can be hashed exactly when its parts can (whatever schema an entity carries)."""
    def spec(a):
        try:
            hash(tuple(getattr(a, n) for n in names))
        except TypeError:
            return False
        return True
    return spec


def cannot_assign(names):
    def code(a, v):
        for n in names:
            try:
                setattr(a, n, v)
            except AttributeError:
                continue
            return n
        return None
    return code


HASHED = {**{n: PARTS[n] for n in EXPR_CLASSES if n in PARTS}, "CurriedFunction": ("function", "initializers", "parameters"),
          "Query": PARTS["Query"]}
for _n, _p in HASHED.items():
    if _n != "Query":
        driver("C18", "hashable " + _n, dict(a=R(_n)), can_hash, hashes_with([x for x in _p if x != "data_model"]), openeq=True,
               prepare=lambda args, pool: dict(a=hashable(args["a"]) if pool.rng.random() < 0.7 else args["a"]))
    driver("C18", "immutable " + _n, dict(a=R(_n), v=union(NONE, STR, INT)), cannot_assign(_p), lambda a, v: None)
for _n in ("Formula", "DeleteQuery"):
    driver("C18", "immutable " + _n, dict(a=R(_n), v=union(NONE, STR, INT)), cannot_assign(PARTS[_n]), lambda a, v: None)


def curried_equal(a, b):
    return (a.function, a.initializers, a.parameters) == (b.function, b.initializers, b.parameters)


for _a, _b in (("CurriedFunction", "CurriedFunction"), ("CurriedFunction", "Function"), ("Function", "CurriedFunction")):
    driver("C18", "%s == %s" % (_a, _b), dict(a=R(_a), b=R(_b)), lambda a, b: a == b, curried_equal, openeq=True,
           prepare=draw_pair if _a == _b else None)
