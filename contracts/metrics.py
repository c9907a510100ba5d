"""Contracts and drivers: metrics queries, requests, delete queries (C06, C11-C13, C15, C16)."""
import json

from contracts.snql import *  # noqa: F401,F403
from contracts.snql import (CONDS, N, R, _setter, list_of, set_limit_spec, set_offset_spec)
from contracts.spec import *  # noqa: F401,F403
from engine.lang import contract, driver

from snuba_sdk.delete_query import InvalidDeleteQueryError
from snuba_sdk.formula import InvalidFormulaError
from snuba_sdk.metrics_query_visitors import InvalidMetricsQueryError
from snuba_sdk.metrics_visitors import (FormulaMQLPrinter, RollupMQLPrinter, ScopeMQLPrinter, TimeseriesMQLPrinter)
from snuba_sdk.mql import mql as mql_module
from snuba_sdk.request import InvalidFlagError, InvalidRequestError
from snuba_sdk.timeseries import InvalidTimeseriesError


# ------------------------------------------------------------------ C11
@contract("snuba_sdk.visitors:Translation._visit_condition_mql", prop="C11",
          when=lambda self: self.is_mql and not self.use_entity_aliases)
def filter_contract(self, cond):
    if not filter_ok(cond):
        raise InvalidExpressionError
    return filter_text(cond)


@contract("snuba_sdk.visitors:Translation._visit_boolean_condition_mql", prop="C11",
          when=lambda self: self.is_mql and not self.use_entity_aliases)
def filter_group_contract(self, cond):
    if not filter_ok(cond):
        raise InvalidExpressionError
    return filter_text(cond)


@contract("snuba_sdk.metrics_visitors:FormulaMQLPrinter.visit", prop="C11",
          when=lambda self: self.expression_visitor.is_mql and not self.expression_visitor.use_entity_aliases)
def formula_contract(self, formula):
    return formula_print_spec(formula)


@contract("snuba_sdk.metrics_visitors:TimeseriesMQLPrinter.visit", prop="C11",
          when=lambda self: self.expression_visitor.is_mql and not self.expression_visitor.use_entity_aliases)
def timeseries_contract(self, timeseries):
    return timeseries_print_spec(timeseries)


def filter_print_spec(cond):
    if not filter_ok(cond):
        raise InvalidExpressionError
    return filter_text(cond)


def timeseries_print_spec(ts):
    if not filters_ok(ts.filters):
        raise InvalidExpressionError
    return timeseries_text(ts)


def formula_print_spec(formula):
    if not formula_printable(formula):
        raise InvalidExpressionError
    return formula_text(formula)


driver("C11", "MQL condition", dict(cond=R("Condition")),
       lambda cond: Translation(is_mql=True)._visit_condition_mql(cond), filter_print_spec,
       unfold=[filter_ok, filter_text],
       under=["snuba_sdk.visitors:Translation._visit_condition_mql"])
driver("C11", "MQL group", dict(cond=union(R("BooleanCondition"), R("And"), R("Or"))),
       lambda cond: Translation(is_mql=True)._visit_boolean_condition_mql(cond), filter_print_spec,
       unfold=[filter_ok, filter_text],
       under=["snuba_sdk.visitors:Translation._visit_boolean_condition_mql"])
driver("C11", "timeseries text", dict(ts=R("Timeseries")), lambda ts: TimeseriesMQLPrinter().visit(ts),
       timeseries_print_spec, under=["snuba_sdk.metrics_visitors:TimeseriesMQLPrinter"])
driver("C11", "formula text", dict(formula=R("PrintableFormula")), lambda formula: FormulaMQLPrinter().visit(formula),
       formula_print_spec, unfold=[formula_printable, formula_text],
       under=["snuba_sdk.metrics_visitors:FormulaMQLPrinter.visit"])


def printed_after(first, formula):
    printer = FormulaMQLPrinter()
    printer.visit(first)
    return printer.visit(formula)


driver("C11", "a printer can be used again", dict(first=R("PrintableFormula"), formula=R("PrintableFormula")), printed_after,
       lambda first, formula: formula_print_spec(first) and formula_print_spec(formula), unfold=[formula_printable, formula_text],
       under=["snuba_sdk.metrics_visitors:FormulaMQLPrinter.visit"])


# ------------------------------------------------------------------ C13
def metric_spec(public_name, mri, id):
    if (not (public_name is None or isinstance(public_name, str)) or not (mri is None or isinstance(mri, str))
            or not (id is None or isinstance(id, int)) or (public_name is None and mri is None)):
        raise InvalidTimeseriesError
    return mk(Metric, public_name=public_name, mri=mri, id=id)


def timeseries_spec(metric, aggregate, aggregate_params, filters, groupby):
    if (not isinstance(metric, Metric) or not isinstance(aggregate, str)
            or not (aggregate_params is None or list_of(aggregate_params, LITERALS))
            or not (filters is None or list_of(filters, CONDS))
            or not (groupby is None or list_of(groupby, (Column, AliasedExpression)))):
        raise InvalidTimeseriesError
    return mk(Timeseries, metric=metric, aggregate=aggregate, aggregate_params=aggregate_params, filters=filters,
              groupby=groupby)


def rollup_spec(interval, totals, orderby, granularity):
    if ((granularity is not None and granularity not in (10, 60, 3600, 86400))
            or (interval is not None and (not isinstance(interval, int) or interval < 10))
            or (interval is not None and granularity is not None and interval < granularity)
            or not (totals is None or isinstance(totals, bool))
            or (interval is None and totals is None)
            or not (orderby is None or isinstance(orderby, Direction))
            or (interval is not None and orderby is not None)):
        raise InvalidExpressionError
    return mk(Rollup, interval=interval, totals=totals, orderby=orderby, granularity=granularity)


def scope_spec(org_ids, project_ids, use_case_id):
    if (not list_of(org_ids, int) or not list_of(project_ids, int)
            or not (use_case_id is None or isinstance(use_case_id, str))):
        raise InvalidExpressionError
    return mk(MetricsScope, org_ids=org_ids, project_ids=project_ids, use_case_id=use_case_id)


driver("C13", "new Metric", dict(public_name=N(opt(STR)), mri=N(opt(STR)), id=N(opt(INT))),
       lambda public_name, mri, id: Metric(public_name, mri, id), metric_spec,
       under=["snuba_sdk.timeseries:Metric.validate"])
driver("C13", "new Timeseries",
       dict(metric=N(R("Metric")), aggregate=N(STR), aggregate_params=N(opt(listof(N(R("Literal"))))),
            filters=N(opt(listof(N(R("Cond"))))), groupby=N(opt(listof(N(R("GroupbyItem")))))),
       lambda metric, aggregate, aggregate_params, filters, groupby:
           Timeseries(metric, aggregate, aggregate_params, filters, groupby),
       timeseries_spec, under=["snuba_sdk.timeseries:Timeseries.validate"])
driver("C13", "new Rollup",
       dict(interval=N(opt(INT)), totals=N(opt(BOOL)), orderby=N(opt(enumt(Direction))),
            granularity=N(opt(const(10, 60, 3600, 86400)))),
       lambda interval, totals, orderby, granularity: Rollup(interval, totals, orderby, granularity), rollup_spec,
       under=["snuba_sdk.timeseries:Rollup.validate"])
driver("C13", "new MetricsScope",
       dict(org_ids=N(listof(N(INT))), project_ids=N(listof(N(INT))), use_case_id=N(opt(STR))),
       lambda org_ids, project_ids, use_case_id: MetricsScope(org_ids, project_ids, use_case_id), scope_spec,
       under=["snuba_sdk.timeseries:MetricsScope.validate"])


def formula_ok(f):
    return (isinstance(f.function_name, str) and f.parameters is not None
            and isinstance(f.parameters, Sequence)
            and all(isinstance(p, (Formula, Timeseries, float, int)) for p in f.parameters)
            and formula_consistent(f))


def formula_validate_spec(formula):
    if not formula_ok(formula):
        raise InvalidFormulaError
    return None


def make_and_validate(name, parameters, groupby):
    return Formula(name, parameters, None, None, groupby).validate()


def make_and_validate_spec(name, parameters, groupby):
    return formula_validate_spec(mk(Formula, function_name=name, parameters=parameters, aggregate_params=None,
                                    filters=None, groupby=groupby))


driver("C13", "Formula.validate", dict(formula=R("Formula")), lambda formula: formula.validate(),
       formula_validate_spec, under=["snuba_sdk.formula:Formula.validate"], unfold=[formula_consistent])
driver("C13", "Formula.validate arguments",
       dict(name=N(strt(hint="formula")), parameters=N(opt(seqof(N(R("FormulaParam"))))),
            groupby=opt(listof(R("GroupbyItem")))),
       make_and_validate, make_and_validate_spec, under=["snuba_sdk.formula:Formula.validate"],
       unfold=[formula_consistent])
for _n in ("Metric", "Timeseries", "Rollup", "MetricsScope"):
    driver("C13", "validate valid " + _n, dict(node=R(_n)), lambda node: node.validate(), accepted,
           under=["snuba_sdk.timeseries:%s.validate" % _n])
    contract("snuba_sdk.timeseries:%s.validate" % _n, prop="C13", types=dict(self=R(_n)))(accepted)


# ------------------------------------------------------------------ C06 setters
def set_mri_spec(metric, value):
    if not isinstance(value, str):
        raise InvalidExpressionError
    return updated(metric, mri=value)


def set_public_name_spec(metric, value):
    if not isinstance(value, str):
        raise InvalidExpressionError
    return updated(metric, public_name=value)


def set_id_spec(metric, value):
    if not isinstance(value, int):
        raise InvalidExpressionError
    return updated(metric, id=value)


def set_metric_spec(ts, value):
    if not isinstance(value, Metric):
        raise InvalidTimeseriesError
    return updated(ts, metric=value)


def set_aggregate_spec(ts, aggregate, params):
    if not isinstance(aggregate, str) or not (params is None or list_of(params, LITERALS)):
        raise InvalidTimeseriesError
    return updated(ts, aggregate=aggregate, aggregate_params=params)


def set_ts_filters_spec(ts, value):
    if not (value is None or list_of(value, CONDS)):
        raise InvalidTimeseriesError
    return updated(ts, filters=value)


def set_ts_groupby_spec(ts, value):
    if not (value is None or list_of(value, (Column, AliasedExpression))):
        raise InvalidTimeseriesError
    return updated(ts, groupby=value)


def set_parameters_spec(formula, value):
    if not (value is None or list_of(value, (Formula, Timeseries, float, int))):
        raise InvalidFormulaError
    return updated(formula, parameters=value)


def set_f_filters_spec(formula, value):
    if not (value is None or list_of(value, CONDS)):
        raise InvalidFormulaError
    return updated(formula, filters=value)


def set_f_groupby_spec(formula, value):
    if not (value is None or list_of(value, (Column, AliasedExpression))):
        raise InvalidFormulaError
    return updated(formula, groupby=value)


def set_use_case_spec(scope, value):
    if not isinstance(value, str):
        raise InvalidExpressionError
    return updated(scope, use_case_id=value)


_setter("C06", "Metric", "set_mri", set_mri_spec, N(STR), "metric")
_setter("C06", "Metric", "set_public_name", set_public_name_spec, N(STR), "metric")
_setter("C06", "Metric", "set_id", set_id_spec, N(INT), "metric")
_setter("C06", "Timeseries", "set_metric", set_metric_spec, N(R("Metric")), "ts")
driver("C06", "Timeseries.set_aggregate",
       dict(ts=R("Timeseries"), aggregate=N(STR), params=N(opt(listof(N(R("Literal")))))),
       lambda ts, aggregate, params: ts.set_aggregate(aggregate, params), set_aggregate_spec,
       under=["snuba_sdk.timeseries:Timeseries.set_aggregate"])
_setter("C06", "Timeseries", "set_filters", set_ts_filters_spec, N(opt(listof(N(R("Cond"))))), "ts")
_setter("C06", "Timeseries", "set_groupby", set_ts_groupby_spec, N(opt(listof(N(R("GroupbyItem"))))), "ts")
_setter("C06", "Formula", "set_parameters", set_parameters_spec, N(opt(listof(N(R("FormulaParam"))))), "formula")
_setter("C06", "Formula", "set_filters", set_f_filters_spec, N(opt(listof(N(R("Cond"))))), "formula")
_setter("C06", "Formula", "set_groupby", set_f_groupby_spec, N(opt(listof(N(R("GroupbyItem"))))), "formula")
_setter("C06", "MetricsScope", "set_use_case_id", set_use_case_spec, N(STR), "scope")


def set_query_spec(query, value):
    if not isinstance(value, (Formula, Timeseries, str)):
        raise InvalidQueryError
    return updated(query, query=value)


def set_start_spec(query, value):
    if not isinstance(value, datetime):
        raise InvalidQueryError
    return updated(query, start=value)


def set_end_spec(query, value):
    if not isinstance(value, datetime):
        raise InvalidQueryError
    return updated(query, end=value)


def set_rollup_spec(query, value):
    if not isinstance(value, Rollup):
        raise InvalidQueryError
    return updated(query, rollup=value)


def set_scope_spec(query, value):
    if not isinstance(value, MetricsScope):
        raise InvalidQueryError
    return updated(query, scope=value)


def set_extrapolate_spec(query, value):
    return updated(query, extrapolate=extrapolate_spec(value))


def set_mappings_spec(query, value):
    return updated(query, indexer_mappings=value)


_setter("C06", "MetricsQuery", "set_query", set_query_spec,
        N(union(R("Timeseries"), R("Formula"), strt(hint="mql"))), "query")
_setter("C06", "MetricsQuery", "set_start", set_start_spec, N(DATETIME), "query")
_setter("C06", "MetricsQuery", "set_end", set_end_spec, N(DATETIME), "query")
_setter("C06", "MetricsQuery", "set_rollup", set_rollup_spec, N(R("Rollup")), "query")
_setter("C06", "MetricsQuery", "set_scope", set_scope_spec, N(R("MetricsScope")), "query")
_setter("C06", "MetricsQuery", "set_limit", set_limit_spec, N(INT), "query")
_setter("C06", "MetricsQuery", "set_offset", set_offset_spec, N(INT), "query")
_setter("C06", "MetricsQuery", "set_extrapolate", set_extrapolate_spec, N(BOOL), "query")
_setter("C06", "MetricsQuery", "set_indexer_mappings", set_mappings_spec, N(dictof(STR, union(STR, INT))), "query")


# ------------------------------------------------------------------ C12
@opaque("bool")
def mql_parses(text):
    """The parser (specified by C14) accepts the text."""
    try:
        mql_module.parse_mql(text)
    except Exception:
        return False
    return True


@opaque("val")
def mql_parsed(text):
    """What the parser makes of it: a time series or a formula."""
    return mql_module.parse_mql(text)


mql_parsed.__ty__ = union(R("Timeseries"), R("Formula"))


def parse_or_reject(text):
    """Parsing is specified by C14; here it is used through its contract only."""
    if not mql_parses(text):
        raise Rejected
    return mql_parsed(text)


@contract("snuba_sdk.mql.mql:parse_mql", prop="C14", types=dict(mql=STR))
def parse_contract(mql):
    return parse_or_reject(mql)


def metrics_operand(query):
    if isinstance(query, str):
        return parse_or_reject(query)
    return query


def mappings_present(m):
    return m is not None


def metrics_complete(q):
    """Everything but the content of the query itself."""
    return (isinstance(q.query, (Timeseries, Formula, str)) and isinstance(q.start, datetime)
            and isinstance(q.end, datetime) and isinstance(q.rollup, Rollup) and q.rollup.granularity is not None
            and isinstance(q.scope, MetricsScope) and (q.limit is None or isinstance(q.limit, Limit))
            and (q.offset is None or isinstance(q.offset, Offset))
            and (q.extrapolate is None or isinstance(q.extrapolate, Extrapolate))
            and (q.indexer_mappings is None or isinstance(q.indexer_mappings, dict)))


def metrics_validate_spec(query):
    if not metrics_complete(query):
        raise Rejected
    operand = metrics_operand(query.query)
    if isinstance(operand, Formula) and not formula_ok(operand):
        raise Rejected
    return None


def optimized_operand(operand):
    if operand.filters is None or optimized_conditions(operand.filters) is None:
        return operand
    return updated(operand, filters=optimized_conditions(operand.filters))


def operand_print(operand):
    if isinstance(operand, Formula):
        return formula_print_spec(operand)
    return timeseries_print_spec(operand)


def rollup_context(rollup):
    return {"orderby": rollup.orderby.value if rollup.orderby is not None else None,
            "granularity": rollup.granularity, "interval": rollup.interval,
            "with_totals": str(rollup.totals) if rollup.totals is not None else None}


def scope_context(scope):
    return {"org_ids": scope.org_ids, "project_ids": scope.project_ids, "use_case_id": scope.use_case_id}


def metrics_context(q):
    return {"start": q.start.isoformat(), "end": q.end.isoformat(), "rollup": rollup_context(q.rollup),
            "scope": scope_context(q.scope), "indexer_mappings": q.indexer_mappings,
            "limit": q.limit.limit if q.limit is not None else None,
            "offset": q.offset.offset if q.offset is not None else None,
            "extrapolate": q.extrapolate.extrapolate if q.extrapolate is not None else None}


def metrics_serialize_spec(query):
    metrics_validate_spec(query)
    if query.indexer_mappings is None:
        raise Rejected
    # text given as MQL is parsed and printed as it stands; objects have their top-level ORs merged first
    operand = parse_or_reject(query.query) if isinstance(query.query, str) else optimized_operand(query.query)
    return {"mql": operand_print(operand), "mql_context": metrics_context(query)}


def build_metrics_query(query, start, end, rollup, scope, limit, offset, extrapolate, mappings):
    return MetricsQuery(query, start, end, rollup, scope, limit, offset, extrapolate, mappings).serialize()


def raw_metrics_query(query, start, end, rollup, scope, limit, offset, extrapolate, mappings):
    return mk(MetricsQuery, query=query, start=start, end=end, rollup=rollup, scope=scope, limit=limit,
              offset=offset, extrapolate=extrapolate, indexer_mappings=mappings)


def build_metrics_spec(query, start, end, rollup, scope, limit, offset, extrapolate, mappings):
    return metrics_serialize_spec(raw_metrics_query(query, start, end, rollup, scope, limit, offset, extrapolate,
                                                    mappings))


def validate_metrics_query(query, start, end, rollup, scope, limit, offset, extrapolate, mappings):
    return MetricsQuery(query, start, end, rollup, scope, limit, offset, extrapolate, mappings).validate()


def validate_metrics_spec(query, start, end, rollup, scope, limit, offset, extrapolate, mappings):
    return metrics_validate_spec(raw_metrics_query(query, start, end, rollup, scope, limit, offset, extrapolate,
                                                   mappings))


METRICS_ARGS = dict(query=N(union(R("Timeseries"), R("Formula"), strt(hint="mql"))), start=N(DATETIME),
                    end=N(DATETIME), rollup=N(R("Rollup")), scope=N(R("MetricsScope")), limit=N(opt(R("Limit"))),
                    offset=N(opt(R("Offset"))), extrapolate=N(opt(R("Extrapolate"))),
                    mappings=union(dictof(STR, union(STR, INT)), NONE, BOOL, INT, STR, OTHER, listof(STR)))
driver("C12", "MetricsQuery.serialize", dict(query=R("MetricsQuery")), lambda query: query.serialize(),
       metrics_serialize_spec, exc="any", under=["snuba_sdk.metrics_query:MetricsQuery.serialize"])
driver("C12", "MetricsQuery.validate arguments", METRICS_ARGS, validate_metrics_query, validate_metrics_spec,
       exc="sdk", under=["snuba_sdk.metrics_query:MetricsQuery.validate"])
driver("C12", "MetricsQuery.serialize arguments", METRICS_ARGS, build_metrics_query, build_metrics_spec, exc="any",
       under=["snuba_sdk.metrics_query:MetricsQuery.serialize"])

# scopes and timeseries can be changed after they were created; they are checked again when they are used
TYPES.update(
    ChangedScope=obj(MetricsScope, "ChangedScope", org_ids=N(listof(N(INT))), project_ids=N(listof(N(INT))),
                     use_case_id=N(opt(STR))),
    ChangedTimeseries=obj(Timeseries, "ChangedTimeseries", metric=N(R("Metric")), aggregate=N(STR),
                          aggregate_params=N(opt(listof(N(R("Literal"))))), filters=N(opt(listof(N(R("Cond"))))),
                          groupby=N(opt(listof(N(R("GroupbyItem")))))))


def scope_ok(s):
    return (list_of(s.org_ids, int) and list_of(s.project_ids, int)
            and (s.use_case_id is None or isinstance(s.use_case_id, str)))


def timeseries_ok(t):
    return (isinstance(t.metric, Metric) and isinstance(t.aggregate, str)
            and (t.aggregate_params is None or list_of(t.aggregate_params, LITERALS))
            and (t.filters is None or list_of(t.filters, CONDS))
            and (t.groupby is None or list_of(t.groupby, (Column, AliasedExpression))))


def changed_spec(query, timeseries, scope):
    if not scope_ok(scope) or not timeseries_ok(timeseries):
        raise Rejected
    return metrics_validate_spec(updated(query, query=timeseries, scope=scope))


def changed_code(query, timeseries, scope):
    return MetricsQuery(timeseries, query.start, query.end, query.rollup, scope, query.limit, query.offset, query.extrapolate,
                        query.indexer_mappings).validate()


driver("C12", "MetricsQuery.validate after changes", dict(query=R("MetricsQuery"), timeseries=R("ChangedTimeseries"),
                                                          scope=R("ChangedScope")), changed_code, changed_spec, exc="sdk",
       under=["snuba_sdk.metrics_query:MetricsQuery.validate"])


def metrics_print_spec(query):
    """The printed form is the JSON text of the same body, with the ORs as they were written."""
    metrics_validate_spec(query)
    if query.indexer_mappings is None:
        raise Rejected
    return json.loads(json.dumps({"mql": operand_print(metrics_operand(query.query)),
                                  "mql_context": metrics_context(query)}))


def metrics_str_spec(query):
    if query.indexer_mappings is None:
        raise Rejected
    return json.loads(json.dumps({"mql": operand_print(metrics_operand(query.query)),
                                  "mql_context": metrics_context(query)}))


def metrics_usable(query):
    return metrics_complete(query) and (isinstance(query.query, str) or isinstance(query.query, Timeseries)
                                        or formula_ok(query.query))


driver("C12", "MetricsQuery.print", dict(query=R("MetricsQuery")), lambda query: json.loads(query.print()),
       metrics_print_spec, exc="any", under=["snuba_sdk.metrics_query:MetricsQuery.print"])
driver("C12", "str(MetricsQuery)", dict(query=R("MetricsQuery")), lambda query: json.loads(str(query)),
       metrics_str_spec, exc="any", requires=metrics_usable, under=["snuba_sdk.metrics_query:MetricsQuery.__str__"])
driver("C12", "rollup context", dict(rollup=R("Rollup")), lambda rollup: RollupMQLPrinter().visit(rollup),
       rollup_context, under=["snuba_sdk.metrics_visitors:RollupMQLPrinter.visit"])
driver("C12", "scope context", dict(scope=R("MetricsScope")), lambda scope: ScopeMQLPrinter().visit(scope),
       scope_context, under=["snuba_sdk.metrics_visitors:ScopeMQLPrinter.visit"])
driver("C10", "MetricsQuery._optimize in serialize", dict(query=R("MetricsQuery")), lambda query: query.serialize(),
       metrics_serialize_spec, exc="any", under=["snuba_sdk.metrics_query:MetricsQuery._optimize"])
driver("C06", "serialize leaves the metrics query alone", dict(query=R("MetricsQuery")),
       lambda query: (query.serialize(), query.query)[1], lambda query: (metrics_serialize_spec(query), query.query)[1],
       exc="any", under=["snuba_sdk.metrics_query:MetricsQuery.serialize"])
driver("C06", "serialize leaves the query alone", dict(query=R("Query")),
       lambda query: (query.serialize(), query.where)[1], lambda query: (serialize_spec(query), query.where)[1],
       exc="sdk", under=["snuba_sdk.query:Query.serialize"])


@contract("snuba_sdk.metrics_query:MetricsQuery.validate", prop="C12")
def metrics_validate_contract(self):
    metrics_validate_spec(self)


@contract("snuba_sdk.metrics_query:MetricsQuery.serialize", prop="C12")
def metrics_serialize_contract(self):
    return metrics_serialize_spec(self)


@contract("snuba_sdk.query:Query.serialize", prop="C04")
def query_serialize_contract(self):
    return serialize_spec(self)


@contract("snuba_sdk.formula:Formula.validate", prop="C13")
def formula_validate_contract(self):
    formula_validate_spec(self)


# ------------------------------------------------------------------ C16
def delete_ok(q):
    return len(q.column_conditions) > 0 and all(len(v) > 0 for v in q.column_conditions.values())


def delete_validate_spec(query):
    if not delete_ok(query):
        raise InvalidDeleteQueryError
    return None


def delete_serialize_spec(query):
    if not delete_ok(query):
        raise InvalidDeleteQueryError
    return {"columns": query.column_conditions}


driver("C16", "DeleteQuery.validate", dict(query=R("DeleteQuery")), lambda query: query.validate(),
       delete_validate_spec, under=["snuba_sdk.delete_query:DeleteQuery.validate"])
driver("C16", "DeleteQuery.serialize", dict(query=R("DeleteQuery")), lambda query: query.serialize(),
       delete_serialize_spec, under=["snuba_sdk.delete_query:DeleteQuery.serialize"])


@contract("snuba_sdk.delete_query:DeleteQuery.validate", prop="C16")
def delete_validate_contract(self):
    delete_validate_spec(self)


@contract("snuba_sdk.delete_query:DeleteQuery.serialize", prop="C16")
def delete_serialize_contract(self):
    return delete_serialize_spec(self)


# ------------------------------------------------------------------ C15
FLAGS = ("totals", "consistent", "turbo", "debug", "dry_run", "legacy")


def flag_ok(v):
    return v is None or isinstance(v, bool)


def flags_ok(f):
    return (flag_ok(f.totals) and flag_ok(f.consistent) and flag_ok(f.turbo) and flag_ok(f.debug)
            and flag_ok(f.dry_run) and flag_ok(f.legacy))


def put(body, key, value):
    """body with key bound to value when value is given, otherwise without key."""
    if value is None:
        return {k: v for k, v in body.items() if k != key}
    return {**body, key: value}


def flags_dict(f):
    body = {}
    if f.totals is not None:
        body["totals"] = f.totals
    if f.consistent is not None:
        body["consistent"] = f.consistent
    if f.turbo is not None:
        body["turbo"] = f.turbo
    if f.debug is not None:
        body["debug"] = f.debug
    if f.dry_run is not None:
        body["dry_run"] = f.dry_run
    if f.legacy is not None:
        body["legacy"] = f.legacy
    return body


def flags_spec(totals, consistent, turbo, debug, dry_run, legacy):
    f = mk(Flags, totals=totals, consistent=consistent, turbo=turbo, debug=debug, dry_run=dry_run, legacy=legacy)
    if not flags_ok(f):
        raise InvalidFlagError
    return flags_dict(f)


driver("C15", "Flags.to_dict",
       dict(totals=N(opt(BOOL)), consistent=N(opt(BOOL)), turbo=N(opt(BOOL)), debug=N(opt(BOOL)),
            dry_run=N(opt(BOOL)), legacy=N(opt(BOOL))),
       lambda totals, consistent, turbo, debug, dry_run, legacy:
           Flags(totals, consistent, turbo, debug, dry_run, legacy).to_dict(),
       flags_spec, under=["snuba_sdk.request:Flags.to_dict", "snuba_sdk.request:Flags.validate"])


def request_name_ok(v):
    return isinstance(v, str) and v != "" and fullmatch(REQUEST_NAME, v)


def request_query(query):
    """The body of the query: raises when the query is invalid."""
    if isinstance(query, DeleteQuery):
        return delete_serialize_spec(query)
    if isinstance(query, MetricsQuery):
        return metrics_serialize_spec(query)
    return serialize_spec(query)


def request_ok(dataset, app_id, parent_api, tenant_ids):
    return (request_name_ok(dataset) and request_name_ok(app_id) and isinstance(parent_api, str)
            and parent_api != "" and isinstance(tenant_ids, dict))


def request_spec(dataset, app_id, query, flags, parent_api, tenant_ids):
    if not request_ok(dataset, app_id, parent_api, tenant_ids):
        raise Rejected
    if flags is not None and not flags_ok(flags):
        raise Rejected
    body = request_query(query)
    out = {} if flags is None else flags_dict(flags)
    if isinstance(query, DeleteQuery):
        out["query"] = body
    elif isinstance(query, MetricsQuery):
        out["query"] = body["mql"]
        out["dataset"] = dataset
        out["mql_context"] = body["mql_context"]
    else:
        out["query"] = body
        out["dataset"] = dataset
    out["app_id"] = app_id
    out["tenant_ids"] = tenant_ids
    out["parent_api"] = parent_api
    return out


def request_dict(dataset, app_id, query, flags, parent_api, tenant_ids):
    return Request(dataset, app_id, query, flags, parent_api, tenant_ids).to_dict()


TYPES["AnyFlags"] = obj(Flags, "AnyFlags", totals=N(opt(BOOL)), consistent=N(opt(BOOL)), turbo=N(opt(BOOL)),
                        debug=N(opt(BOOL)), dry_run=N(opt(BOOL)), legacy=N(opt(BOOL)))
REQUEST_ARGS = dict(dataset=N(strt(hint="entity")), app_id=N(strt(hint="entity")),
                    query=union(R("Query"), R("MetricsQuery"), R("DeleteQuery")), flags=opt(R("AnyFlags")),
                    parent_api=N(strt(hint="ealias")), tenant_ids=N(dictof(STR, union(STR, INT))))
driver("C15", "Request.to_dict", {**REQUEST_ARGS, "query": union(R("Query"), R("DeleteQuery"))}, request_dict, request_spec,
       under=["snuba_sdk.request:Request.to_dict", "snuba_sdk.request:Request.validate"])
driver("C15", "Request.to_dict with metrics query", {**REQUEST_ARGS, "query": R("MetricsQuery")}, request_dict, request_spec,
       exc="any", under=["snuba_sdk.request:Request.to_dict", "snuba_sdk.request:Request.validate"])
driver("C16", "DeleteQuery in a Request", {**REQUEST_ARGS, "query": R("DeleteQuery")}, request_dict, request_spec,
       under=["snuba_sdk.request:Request.to_dict"])


def json_text(body):
    return json.dumps(body)


def request_json(dataset, app_id, query, flags, parent_api, tenant_ids):
    return json.loads(json.dumps(request_spec(dataset, app_id, query, flags, parent_api, tenant_ids)))


JSON_ARGS = {**REQUEST_ARGS, "tenant_ids": union(dictof(STR, union(STR, INT)), NONE, BOOL, INT, STR, listof(STR))}
driver("C15", "Request.serialize", JSON_ARGS,
       lambda dataset, app_id, query, flags, parent_api, tenant_ids:
           json.loads(Request(dataset, app_id, query, flags, parent_api, tenant_ids).serialize()),
       request_json, exc="any", under=["snuba_sdk.request:Request.serialize"])
driver("C15", "Request.serialize_mql", JSON_ARGS,
       lambda dataset, app_id, query, flags, parent_api, tenant_ids:
           json.loads(Request(dataset, app_id, query, flags, parent_api, tenant_ids).serialize_mql()),
       request_json, exc="any", under=["snuba_sdk.request:Request.serialize_mql"])
driver("C15", "Request.print", JSON_ARGS,
       lambda dataset, app_id, query, flags, parent_api, tenant_ids:
           json.loads(Request(dataset, app_id, query, flags, parent_api, tenant_ids).print()),
       request_json, exc="any", under=["snuba_sdk.request:Request.print"])
driver("C15", "str of a Request", JSON_ARGS,
       lambda dataset, app_id, query, flags, parent_api, tenant_ids:
           json.loads(str(Request(dataset, app_id, query, flags, parent_api, tenant_ids))),
       request_json, exc="any", under=["snuba_sdk.request:Request.__str__"])
driver("C15", "Request defaults", dict(dataset=N(strt(hint="entity")), app_id=N(strt(hint="entity")), query=R("Query")),
       lambda dataset, app_id, query: Request(dataset, app_id, query).to_dict(),
       lambda dataset, app_id, query: request_spec(
           dataset, app_id, query, mk(Flags, totals=None, consistent=None, turbo=None, debug=None, dry_run=None,
                                      legacy=None), "<unknown>", {}),
       under=["snuba_sdk.request:Request.to_dict"])


def fresh_defaults(dataset, app_id, query):
    """Changing the flags and tenant ids of one request leaves the next one without any."""
    first = Request(dataset, app_id, query)
    first.flags.debug = True
    first.tenant_ids["organization_id"] = 1
    second = Request(dataset, app_id, query)
    return second.to_dict()


driver("C15", "Requests do not share their defaults",
       dict(dataset=N(strt(hint="entity")), app_id=N(strt(hint="entity")), query=R("Query")), fresh_defaults,
       lambda dataset, app_id, query: request_spec(
           dataset, app_id, query, mk(Flags, totals=None, consistent=None, turbo=None, debug=None, dry_run=None,
                                      legacy=None), "<unknown>", {}),
       under=["snuba_sdk.request:Request.to_dict"])
