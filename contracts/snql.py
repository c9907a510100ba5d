"""Contracts and drivers: SnQL expressions and queries (C01-C10, C18)."""
from contracts.spec import *  # noqa: F401,F403
from contracts.spec import InvalidExpressionError, Expression
from contracts.types import *  # noqa: F401,F403
from engine.lang import contract, driver

from snuba_sdk.column import InvalidColumnError
from snuba_sdk.conditions import InvalidConditionError, get_first_level_and_conditions
from snuba_sdk.entity import InvalidEntityError
from snuba_sdk.function import InvalidFunctionError, InvalidLambdaError
from snuba_sdk.query_optimizers.or_optimizer import OrOptimizer
from snuba_sdk.query_validation import RequiredColumnError, validate_required_columns
from snuba_sdk.query_visitors import ExpressionSearcher, InvalidQueryError, Printer
from snuba_sdk.storage import InvalidStorageError
from snuba_sdk.visitors import ExpressionFinder, Translation

from snuba_sdk import expressions as expressions_module
from collections.abc import Sequence

SCALARS = R("Scalar")


# ------------------------------------------------------------------ contracts used at call sites
@contract("snuba_sdk.visitors:Translation.visit", prop="C03")
def visit_contract(self, node):
    return element_text(node, self.use_entity_aliases, self.is_mql)


@contract("snuba_sdk.visitors:Translation._stringify_scalar", prop="C02")
def stringify_contract(self, value):
    return element_text(value, self.use_entity_aliases, self.is_mql)


@contract("snuba_sdk.expressions:is_scalar", prop="C05")
def is_scalar_contract(value):
    return is_scalar_spec(value)


# ------------------------------------------------------------------ C01 / C02
PROBE = Column("c", Entity("ev", alias="ea"))


def run_visit(value, aliases, mql):
    """The text, and whether the same translator still works as it was set up."""
    translator = Translation(aliases, mql)
    return translator.visit(value), translator.visit(PROBE), translator.visit("q")


def run_scalar(value, aliases, mql):
    translator = Translation(aliases, mql)
    return translator._stringify_scalar(value), translator.visit(PROBE), translator.visit("q")


def and_again(spec):
    def text(value, aliases, mql):
        return spec(value, aliases, mql), "ea.c" if aliases else "c", scalar_text("q", aliases, mql)
    return text


driver("C01", "text literal", dict(value=union(STR, BYTES), aliases=BOOL, mql=BOOL), run_visit, and_again(scalar_text),
       unfold=[scalar_text], under=["snuba_sdk.visitors:Translation._stringify_scalar"])
driver("C02", "scalar literal", dict(value=SCALARS, aliases=BOOL, mql=BOOL), run_visit, and_again(scalar_text),
       unfold=[scalar_text], under=["snuba_sdk.visitors:ExpressionVisitor.visit", "snuba_sdk.visitors:Translation._stringify_scalar"])
driver("C02", "element literal", dict(value=R("Element"), aliases=BOOL, mql=BOOL), run_scalar, and_again(element_text),
       unfold=[scalar_text], under=["snuba_sdk.visitors:Translation._stringify_scalar"])
driver("C02", "lemma: typed arrays are arrays of scalars and expressions", dict(v=seqof(R("Element"))),
       lambda v: elements_deep(v), lambda v: True, unfold=[elements_deep], lemma=True)
driver("C02", "is_scalar", dict(value=ANY), lambda value: expressions_module.is_scalar(value), is_scalar_spec,
       unfold=[elements_deep],
       under=["snuba_sdk.expressions:is_scalar"])

# ------------------------------------------------------------------ C03
for _n in ("AliasedExpression", "Column", "CurriedFunction", "Function", "Identifier", "Lambda", "Entity", "Storage",
           "Relationship", "Join", "Condition", "BooleanCondition", "And", "Or", "OrderBy", "LimitBy", "Limit",
           "Offset", "Granularity", "Totals"):
    driver("C03", "render " + _n, dict(node=R(_n), aliases=BOOL, mql=BOOL), run_visit, and_again(render), unfold=[render],
           under=["snuba_sdk.visitors:ExpressionVisitor.visit"])


# ------------------------------------------------------------------ C04
@contract("snuba_sdk.query_visitors:Printer.visit", prop="C04",
          when=lambda self: not self.translator.use_entity_aliases and not self.translator.is_mql)
def printer_contract(self, query):
    return query_text(query, self.pretty, self.is_inner)


@contract("snuba_sdk.query:Query.validate", prop="C07")
def query_validate_contract(self):
    if not query_ok(self):
        raise Rejected


@contract("snuba_sdk.query_optimizers.or_optimizer:OrOptimizer.optimize", prop="C10")
def optimize_contract(self, condition_group):
    return optimized_conditions(condition_group)


driver("C04", "Printer.visit", dict(query=R("Query"), pretty=BOOL, inner=BOOL),
       lambda query, pretty, inner: Printer(pretty, inner).visit(query), query_text,
       under=["snuba_sdk.query_visitors:Printer.visit"])


def printed_after(first, query, pretty, inner):
    printer = Printer(pretty, inner)
    printer.visit(first)
    return printer.visit(query)


driver("C04", "a printer can be used again", dict(first=R("Query"), query=R("Query"), pretty=BOOL, inner=BOOL),
       printed_after, lambda first, query, pretty, inner: query_text(query, pretty, inner), unfold=[query_text],
       under=["snuba_sdk.query_visitors:Printer.visit"])


def serialize_spec(query):
    if not query_ok(query):
        raise Rejected
    return query_text(optimized_query(query), False, False)


def print_spec(query):
    if not query_ok(query):
        raise Rejected
    return query_text(query, True, False)


driver("C04", "Query.serialize", dict(query=R("Query")), lambda query: query.serialize(), serialize_spec, exc="sdk",
       under=["snuba_sdk.query:Query.serialize"])
driver("C04", "str(Query)", dict(query=R("Query")), lambda query: str(query), serialize_spec, exc="sdk",
       under=["snuba_sdk.query:Query.__str__"])
driver("C04", "Query.print", dict(query=R("Query")), lambda query: query.print(), print_spec, exc="sdk",
       under=["snuba_sdk.query:Query.print"])


# ------------------------------------------------------------------ C05
def named(v, pattern):
    return isinstance(v, str) and fullmatch(pattern, v)


def alias_ok(v):
    return v is None or (named(v, ALIAS) and v != "")


def column_spec(name, entity):
    if not named(name, COLUMN_NAME):
        raise InvalidColumnError
    outer, key = None, None
    if "[" in name:
        outer = name.split("[", 1)[0]
        key = name.split("[", 1)[1].strip("]")
    column = mk(Column, name=name, entity=entity, subscriptable=outer, key=key)
    if entity is not None:
        if not isinstance(entity, Entity) or not entity.alias or not schema_has(entity.data_model, column):
            raise InvalidColumnError
    return column


def aliased_spec(exp, alias):
    if not isinstance(exp, Column) or not alias_ok(alias):
        raise InvalidExpressionError
    return mk(AliasedExpression, exp=exp, alias=alias)


PARAMETER = (Column, CurriedFunction, Identifier, Lambda)


def function_args_ok(function, initializers, parameters, alias):
    return (named(function, FUNCTION_NAME) and alias_ok(alias)
            and (initializers is None or (isinstance(initializers, Sequence)
                                          and all(isinstance(i, Column) or isinstance(i, LITERALS)
                                                  for i in initializers)))
            and (parameters is None or (isinstance(parameters, Sequence)
                                        and all(isinstance(p, PARAMETER) or deep_scalar(p) for p in parameters))))


def curried_spec(function, initializers, parameters, alias):
    if not function_args_ok(function, initializers, parameters, alias):
        raise InvalidExpressionError
    return mk(CurriedFunction, function=function, initializers=initializers, parameters=parameters, alias=alias)


def function_spec(function, parameters, alias):
    if not function_args_ok(function, None, parameters, alias):
        raise InvalidExpressionError
    return mk(Function, function=function, initializers=None, parameters=parameters, alias=alias)


def identifier_spec(name):
    if not named(name, IDENTIFIER):
        raise InvalidLambdaError
    return mk(Identifier, name=name)


def lambda_spec(identifiers, transformation):
    if (not isinstance(identifiers, (list, tuple)) or not all(named(i, IDENTIFIER) for i in identifiers)
            or not isinstance(transformation, CurriedFunction)):
        raise InvalidLambdaError
    return mk(Lambda, identifiers=identifiers, transformation=transformation)


OPERANDS = (Column, CurriedFunction)


def condition_spec(lhs, op, rhs):
    if (not isinstance(lhs, OPERANDS) or not isinstance(op, Op) or (is_unary_op(op) and rhs is not None)
            or not (isinstance(rhs, OPERANDS) or deep_scalar(rhs))):
        raise InvalidExpressionError
    return mk(Condition, lhs=lhs, op=op, rhs=rhs)


def members_ok(conditions):
    return (isinstance(conditions, (list, tuple)) and len(conditions) >= 2
            and all(isinstance(c, (Condition, BooleanCondition)) for c in conditions))


def boolean_spec(op, conditions):
    if not isinstance(op, BooleanOp) or not members_ok(conditions):
        raise InvalidConditionError
    return mk(BooleanCondition, op=op, conditions=conditions)


def and_spec(conditions):
    if not members_ok(conditions):
        raise InvalidConditionError
    return mk(And, op=BooleanOp.AND, conditions=conditions)


def or_spec(conditions):
    if not members_ok(conditions):
        raise InvalidConditionError
    return mk(Or, op=BooleanOp.OR, conditions=conditions)


def orderby_spec(exp, direction):
    if not isinstance(exp, OPERANDS) or not isinstance(direction, Direction):
        raise InvalidExpressionError
    return mk(OrderBy, exp=exp, direction=direction)


def limitby_spec(columns, count):
    if (not isinstance(columns, Sequence) or len(columns) < 1 or not all(isinstance(c, Column) for c in columns)
            or not isinstance(count, int) or count < 1 or count > 10000):
        raise InvalidExpressionError
    return mk(LimitBy, columns=columns, count=count)


def limit_spec(limit):
    if not isinstance(limit, int) or limit < 1 or limit > 10000:
        raise InvalidExpressionError
    return mk(Limit, limit=limit)


def offset_spec(offset):
    if not isinstance(offset, int) or offset < 0:
        raise InvalidExpressionError
    return mk(Offset, offset=offset)


def granularity_spec(granularity):
    if not isinstance(granularity, int) or granularity < 1:
        raise InvalidExpressionError
    return mk(Granularity, granularity=granularity)


def totals_spec(totals):
    if not isinstance(totals, bool):
        raise InvalidExpressionError
    return mk(Totals, totals=totals)


def extrapolate_spec(extrapolate):
    if not isinstance(extrapolate, bool):
        raise InvalidExpressionError
    return mk(Extrapolate, extrapolate=extrapolate)


def sample_ok(sample):
    return sample is None or (isinstance(sample, float) and not sample <= 0.0)


def entity_spec(name, alias, sample, data_model):
    if (not named(name, ENTITY_NAME) or not (alias is None or (isinstance(alias, str) and alias != ""))
            or not sample_ok(sample) or not (data_model is None or isinstance(data_model, DataModel))):
        raise InvalidEntityError
    return mk(Entity, name=name, alias=alias, sample=sample, data_model=data_model)


def storage_spec(name, sample, data_model):
    if (not named(name, ENTITY_NAME) or not sample_ok(sample)
            or not (data_model is None or isinstance(data_model, DataModel))):
        raise InvalidStorageError
    return mk(Storage, name=name, sample=sample, data_model=data_model)


def relationship_spec(lhs, name, rhs):
    if (not isinstance(lhs, Entity) or lhs.alias is None or not isinstance(rhs, Entity) or rhs.alias is None
            or not isinstance(name, str) or name == ""):
        raise InvalidExpressionError
    return mk(Relationship, lhs=lhs, name=name, rhs=rhs)


def no_clash(a, b):
    return a.alias != b.alias or a.name == b.name


def aliases_consistent(rels):
    return (all(all(no_clash(r.lhs, s.lhs) and no_clash(r.lhs, s.rhs) and no_clash(r.rhs, s.rhs) for s in rels)
                for r in rels))


def join_spec(relationships):
    if (not isinstance(relationships, (list, tuple)) or len(relationships) == 0
            or not all(isinstance(r, Relationship) for r in relationships)
            or not aliases_consistent(relationships)):
        raise InvalidExpressionError
    return mk(Join, relationships=relationships)


def schema_spec(columns, time):
    names = set([c.name for c in columns])
    needed = set([c for c in columns if c.required])
    return mk(DataModel, column_set=mk(ColumnSet, column_names=names, columns=set(columns), required_columns=needed),
              required_time_column=time, required_columns=needed)


N = near


def ctor(cls, names, spec, **inputs):
    mod = cls.__module__ + ":" + cls.__name__
    driver("C05", "new " + cls.__name__, inputs, MAKERS[cls], spec, under=[mod + ".validate"])


MAKERS = {
    Column: lambda name, entity: Column(name, entity),
    AliasedExpression: lambda exp, alias: AliasedExpression(exp, alias),
    CurriedFunction: lambda function, initializers, parameters, alias:
        CurriedFunction(function, initializers, parameters, alias),
    Function: lambda function, parameters, alias: Function(function, parameters, alias),
    Identifier: lambda name: Identifier(name),
    Lambda: lambda identifiers, transformation: Lambda(identifiers, transformation),
    Condition: lambda lhs, op, rhs: Condition(lhs, op, rhs),
    BooleanCondition: lambda op, conditions: BooleanCondition(op, conditions),
    And: lambda conditions: And(conditions),
    Or: lambda conditions: Or(conditions),
    OrderBy: lambda exp, direction: OrderBy(exp, direction),
    LimitBy: lambda columns, count: LimitBy(columns, count),
    Limit: lambda limit: Limit(limit),
    Offset: lambda offset: Offset(offset),
    Granularity: lambda granularity: Granularity(granularity),
    Totals: lambda totals: Totals(totals),
    Extrapolate: lambda extrapolate: Extrapolate(extrapolate),
    Entity: lambda name, alias, sample, data_model: Entity(name, alias, sample, data_model),
    Storage: lambda name, sample, data_model: Storage(name, sample, data_model),
    Relationship: lambda lhs, name, rhs: Relationship(lhs, name, rhs),
    Join: lambda relationships: Join(relationships),
    DataModel: lambda columns, time: DataModel(columns, time),
}
LOOSE = union(R("Element"), ANY)
ctor(Column, None, column_spec, name=N(strt(hint="colname")), entity=N(opt(R("Entity"))))
ctor(AliasedExpression, None, aliased_spec, exp=N(R("Column")), alias=N(opt(strt(hint="alias"))))
ctor(CurriedFunction, None, curried_spec, function=N(strt(hint="funcname")),
     initializers=N(opt(seqof(N(R("Initializer"))))), parameters=N(opt(seqof(N(R("Param"))))),
     alias=N(opt(strt(hint="alias"))))
ctor(Function, None, function_spec, function=N(strt(hint="funcname")), parameters=N(opt(seqof(N(R("Param"))))),
     alias=N(opt(strt(hint="alias"))))
ctor(Identifier, None, identifier_spec, name=N(strt(hint="ident")))
ctor(Lambda, None, lambda_spec, identifiers=N(seqof(N(strt(hint="ident")))), transformation=N(R("Func")))
ctor(Condition, None, condition_spec, lhs=N(R("Lhs")), op=N(enumt(Op)), rhs=N(R("Rhs")))
ctor(BooleanCondition, None, boolean_spec, op=N(enumt(BooleanOp)), conditions=N(seqof(N(R("Cond")))))
ctor(And, None, and_spec, conditions=N(seqof(N(R("Cond")))))
ctor(Or, None, or_spec, conditions=N(seqof(N(R("Cond")))))
ctor(OrderBy, None, orderby_spec, exp=N(R("Lhs")), direction=N(enumt(Direction)))
ctor(LimitBy, None, limitby_spec, columns=N(seqof(N(R("Column")))), count=N(INT))
ctor(Limit, None, limit_spec, limit=N(INT))
ctor(Offset, None, offset_spec, offset=N(INT))
ctor(Granularity, None, granularity_spec, granularity=N(INT))
ctor(Totals, None, totals_spec, totals=N(BOOL))
ctor(Extrapolate, None, extrapolate_spec, extrapolate=N(BOOL))
ctor(Entity, None, entity_spec, name=N(strt(hint="entity")), alias=N(opt(strt(hint="ealias"))), sample=N(opt(FLOAT)),
     data_model=N(opt(R("DataModel"))))
ctor(Storage, None, storage_spec, name=N(strt(hint="entity")), sample=N(opt(FLOAT)), data_model=N(opt(R("DataModel"))))
ctor(Relationship, None, relationship_spec, lhs=N(R("Entity")), name=N(strt(hint="ealias")), rhs=N(R("Entity")))
ctor(Join, None, join_spec, relationships=N(seqof(N(R("Relationship")))))
driver("C05", "new DataModel", dict(columns=seqof(R("SchemaColumn")), time=R("SchemaColumn")), MAKERS[DataModel],
       schema_spec, under=["snuba_sdk.schema:DataModel.__init__", "snuba_sdk.schema:ColumnSet.__init__"])


def revalidate(node):
    return node.validate()


def accepted(node):
    return None


for _n in ("AliasedExpression", "Column", "CurriedFunction", "Function", "Identifier", "Lambda", "Entity", "Storage",
           "Relationship", "Join", "Condition", "BooleanCondition", "And", "Or", "OrderBy", "LimitBy", "Limit",
           "Offset", "Granularity", "Totals", "Extrapolate"):
    driver("C05", "validate valid " + _n, dict(node=R(_n)), revalidate, accepted,
           under=["snuba_sdk:%s.validate" % _n])

# validate() of an object that satisfies its class invariant returns normally (discharged by the drivers above)
for _n, _t in (("AliasedExpression", R("AliasedExpression")), ("Column", R("Column")), ("CurriedFunction", R("Func")),
               ("Identifier", R("Identifier")), ("Lambda", R("Lambda")), ("Entity", R("Entity")),
               ("Storage", R("Storage")), ("Relationship", R("Relationship")), ("Join", R("Join")),
               ("Condition", R("Condition")),
               ("BooleanCondition", union(R("BooleanCondition"), R("And"), R("Or"))),
               ("OrderBy", R("OrderBy")), ("LimitBy", R("LimitBy")), ("Limit", R("Limit")), ("Offset", R("Offset")),
               ("Granularity", R("Granularity")), ("Totals", R("Totals")), ("Extrapolate", R("Extrapolate"))):
    contract("snuba_sdk:%s.validate" % _n, prop="C05", types=dict(self=_t))(accepted)

# ------------------------------------------------------------------ C08
for _n in ("AliasedExpression", "Column", "CurriedFunction", "Function", "Identifier", "Lambda", "Entity", "Storage",
           "Relationship", "Join", "Condition", "BooleanCondition", "And", "Or", "OrderBy", "LimitBy", "Limit",
           "Offset", "Granularity", "Totals", "Scalar"):
    driver("C08", "find columns in " + _n, dict(node=R(_n)), lambda node: ExpressionFinder(Column).visit(node), columns_in,
           unfold=[columns_within], under=["snuba_sdk.visitors:ExpressionFinder"])
driver("C08", "find columns in query", dict(query=R("Query")),
       lambda query: ExpressionSearcher(Column).visit(query), query_columns, unfold=[query_columns],
       under=["snuba_sdk.query_visitors:ExpressionSearcher"])


@contract("snuba_sdk.visitors:ExpressionFinder.visit", prop="C08", when=lambda self: self.exp_type is Column)
def finder_contract(self, node):
    return columns_in(node)


@contract("snuba_sdk.query_visitors:ExpressionSearcher.visit", prop="C08",
          when=lambda self: self.expression_finder.exp_type is Column)
def searcher_contract(self, query):
    return query_columns(query)


# ------------------------------------------------------------------ C07
def validate_spec(query):
    if not query_ok(query):
        raise Rejected
    return None


driver("C07", "Query.validate", dict(query=R("Query")), lambda query: query.validate(), validate_spec, exc="sdk",
       unfold=[clauses_ok], invs=["query.match"], under=["snuba_sdk.query:Query.validate", "snuba_sdk.query_visitors:Validator",
              "snuba_sdk.query_validation:validate_match"])
driver("C07", "Query.serialize rejects", dict(query=R("Query")), lambda query: query.serialize(), serialize_spec,
       exc="sdk")
driver("C07", "str(Query) rejects", dict(query=R("Query")), lambda query: str(query), serialize_spec, exc="sdk")
driver("C07", "Query.print rejects", dict(query=R("Query")), lambda query: query.print(), print_spec, exc="sdk")


def new_query_spec(match):
    if not isinstance(match, (Query, Join, Entity, Storage)) or (isinstance(match, Query) and not query_ok(match)):
        raise InvalidQueryError
    return mk(Query, match=match, select=None, groupby=None, array_join=None, where=None, having=None, orderby=None,
              limitby=None, limit=None, offset=None, granularity=None, totals=None)


driver("C07", "new Query", dict(match=N(R("Match"))), lambda match: Query(match), new_query_spec,
       under=["snuba_sdk.query:Query.__post_init__"])


# ------------------------------------------------------------------ C09
def required_spec(query):
    if not required_ok(query):
        raise RequiredColumnError
    return None


@contract("snuba_sdk.conditions:get_first_level_and_conditions", prop="C09")
def top_level_contract(conditions):
    return top_level(conditions)


@contract("snuba_sdk.query_validation:validate_required_columns", prop="C09")
def required_contract(query):
    if not required_ok(query):
        raise RequiredColumnError


driver("C09", "get_first_level_and_conditions", dict(conditions=seqof(R("Cond"))),
       lambda conditions: get_first_level_and_conditions(conditions), top_level, unfold=[top_level],
       under=["snuba_sdk.conditions:get_first_level_and_conditions"])
driver("C09", "validate_required_columns", dict(query=R("Query")),
       lambda query: validate_required_columns(query), required_spec, unfold=[required_ok],
       under=["snuba_sdk.query_validation:validate_required_columns"])

# ------------------------------------------------------------------ C10
driver("C10", "OrOptimizer.optimize", dict(conditions=seqof(R("Cond"))),
       lambda conditions: OrOptimizer().optimize(conditions), optimized_conditions,
       under=["snuba_sdk.query_optimizers.or_optimizer:OrOptimizer.optimize"])
driver("C10", "Query._optimize in serialize", dict(query=R("Query")), lambda query: query.serialize(), serialize_spec,
       exc="sdk", under=["snuba_sdk.query:Query._optimize"])


# ------------------------------------------------------------------ C06
def list_of(v, types):
    return isinstance(v, list) and all(isinstance(e, types) for e in v)


SELECTABLE = (AliasedExpression, Column, CurriedFunction)
CONDS = (Condition, BooleanCondition)


def set_match_spec(query, value):
    if not isinstance(value, (Entity, Storage, Join, Query)) or (isinstance(value, Query) and not query_ok(value)):
        raise InvalidQueryError
    return updated(query, match=value)


def set_select_spec(query, value):
    if not list_of(value, SELECTABLE) or len(value) == 0:
        raise InvalidQueryError
    return updated(query, select=value)


def set_groupby_spec(query, value):
    if not list_of(value, SELECTABLE):
        raise InvalidQueryError
    return updated(query, groupby=value)


def set_array_join_spec(query, value):
    if not list_of(value, Column) or len(value) == 0:
        raise InvalidQueryError
    return updated(query, array_join=value)


def set_where_spec(query, value):
    if not list_of(value, CONDS):
        raise InvalidQueryError
    return updated(query, where=value)


def set_having_spec(query, value):
    if not list_of(value, CONDS):
        raise InvalidQueryError
    return updated(query, having=value)


def set_orderby_spec(query, value):
    if not list_of(value, OrderBy):
        raise InvalidQueryError
    return updated(query, orderby=value)


def set_limitby_spec(query, value):
    if not isinstance(value, LimitBy):
        raise InvalidQueryError
    return updated(query, limitby=value)


def set_limit_spec(query, value):
    return updated(query, limit=limit_spec(value))


def set_offset_spec(query, value):
    return updated(query, offset=offset_spec(value))


def set_granularity_spec(query, value):
    return updated(query, granularity=granularity_spec(value))


def set_totals_spec(query, value):
    return updated(query, totals=totals_spec(value))


def _setter(prop, cls, name, spec, value, recv):
    env = {}
    exec("def code(%s, value):\n    return %s.%s(value)\n" % (recv, recv, name), env)
    env["code"].__verif_source__ = "def code(%s, value):\n    return %s.%s(value)\n" % (recv, recv, name)
    driver(prop, "%s.%s" % (cls, name), {recv: R(cls), "value": value}, env["code"], spec,
           under=["snuba_sdk:%s.%s" % (cls, name)])


_setter("C06", "Query", "set_match", set_match_spec, N(R("Match")), "query")
_setter("C06", "Query", "set_select", set_select_spec, N(listof(N(R("Selectable")))), "query")
_setter("C06", "Query", "set_groupby", set_groupby_spec, N(listof(N(R("Selectable")))), "query")
_setter("C06", "Query", "set_array_join", set_array_join_spec, N(listof(N(R("Column")))), "query")
_setter("C06", "Query", "set_where", set_where_spec, N(listof(N(R("Cond")))), "query")
_setter("C06", "Query", "set_having", set_having_spec, N(listof(N(R("Cond")))), "query")
_setter("C06", "Query", "set_orderby", set_orderby_spec, N(listof(N(R("OrderBy")))), "query")
_setter("C06", "Query", "set_limitby", set_limitby_spec, N(R("LimitBy")), "query")
_setter("C06", "Query", "set_limit", set_limit_spec, N(INT), "query")
_setter("C06", "Query", "set_offset", set_offset_spec, N(INT), "query")
_setter("C06", "Query", "set_granularity", set_granularity_spec, N(INT), "query")
_setter("C06", "Query", "set_totals", set_totals_spec, N(BOOL), "query")
