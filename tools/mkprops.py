#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": list(state),
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "Text values always render as one faithful, properly escaped literal",
  "For every text value (and every UTF-8 bytes value) the SnQL and MQL renderers emit exactly one literal, delimited by ' in SnQL and by \" in MQL, inside which every backslash, every delimiter and every newline is escaped and nothing else is altered. Undoing the escapes gives back exactly the original text, so no value can end its literal early, merge with a neighbour or change the query around it.",
  ["inputs"], "all strings and UTF-8 byte strings, both output languages, wherever a scalar may occur",
  "The escaping must hold for every string; the tests sample about ten strings and one printable-ASCII sweep.",
  ["snuba_sdk/visitors.py"],
  [("escape chain in _stringify_scalar", "snuba_sdk/visitors.py Translation._stringify_scalar")],
  ["Translation(...).visit(value)", "Query.serialize()", "MetricsQuery.serialize()"])

p("C02", "Every other scalar renders in its documented form, nested ones in order",
  "None renders as NULL, booleans as TRUE/FALSE (never as numbers), integers and floats as their Python text, dates and naive datetimes as toDateTime('<ISO text>'), and timezone-aware datetimes as the same instant in naive UTC. Lists render as array(...) and tuples as tuple(...) in SnQL and as [...] in MQL, containing the rendering of every element exactly once, in order, at every nesting depth.",
  ["inputs"], "all scalar values of the supported types, nested lists/tuples of any length and depth, both output languages",
  "Tests list a dozen scalars and two-element arrays; element order, count and type precedence must hold for every length and depth.",
  ["snuba_sdk/visitors.py", "snuba_sdk/expressions.py"],
  [("type dispatch", "snuba_sdk/visitors.py Translation._stringify_scalar"), ("array validity", "snuba_sdk/expressions.py is_scalar")],
  ["Translation(...).visit(value)"])

p("C03", "SnQL expression text contains every part of the expression, in place",
  "For every valid SnQL expression (column, aliased column, plain or curried function, lambda, identifier, condition, AND/OR group, order-by, limit-by, entity, storage, relationship, join) the rendered text consists of exactly its own parts: name, every initializer and parameter in order, operator, both operands, alias in backticks when one is set, sampling when set, and parentheses around every AND/OR group. Columns and entities are qualified with the entity alias exactly when alias qualification is on.",
  ["inputs", "programs"], "all expression trees of any depth and width built through the public constructors",
  "Trees are unbounded in depth and width; tests pin a few dozen fixed trees of depth three at most.",
  ["snuba_sdk/visitors.py"],
  [("visitor dispatch", "snuba_sdk/visitors.py ExpressionVisitor.visit"), ("rendering", "snuba_sdk/visitors.py Translation._visit_*")],
  ["Translation(...).visit(expr)", "Query.serialize()"])

p("C04", "A SnQL query renders each set clause exactly once, in SnQL order",
  "The text of a valid query is MATCH, SELECT, BY, ARRAY JOIN, WHERE, HAVING, ORDER BY, LIMIT n BY, LIMIT, OFFSET, GRANULARITY, TOTALS in this order, each present exactly once if the query sets it and absent otherwise, holding all of its elements in order (conditions joined with AND). A sub-query is rendered by the same rule inside MATCH { ... }, alias qualification is applied exactly in queries whose own match is a join, and the pretty form differs only in separators and in not merging ORs.",
  ["inputs", "programs"], "all queries: every subset of clauses, every clause content, sub-queries nested to any depth",
  "2^11 clause subsets times unbounded contents and nesting; tests pin about thirty queries.",
  ["snuba_sdk/query_visitors.py", "snuba_sdk/query.py", "snuba_sdk/visitors.py"],
  [("clause order", "snuba_sdk/query.py Query field order / query_visitors.py Printer._combine"), ("sub-query printing", "snuba_sdk/query_visitors.py Printer._visit_match"), ("alias scope", "snuba_sdk/visitors.py entity_aliases")],
  ["Query.serialize()", "str(query)", "Query.print()"])

p("C05", "SnQL expression objects can be created exactly when their parts are valid",
  "Constructing any SnQL expression succeeds if and only if every argument satisfies the documented rule for it (names and aliases fully match their documented alphabet, numbers lie in their documented range, operands and list elements have an allowed type, join aliases are not shared by different entities, a column qualified with a schema-carrying entity is in that schema); otherwise the documented invalid-expression error is raised. A created object carries exactly the arguments it was given, and a subscripted column name is split into its outer column and key.",
  ["inputs"], "all argument values of any Python type for each public expression constructor",
  "The argument space is every Python value; tests try a handful per constructor and never probe the boundary of each rule systematically.",
  ["snuba_sdk/expressions.py", "snuba_sdk/column.py", "snuba_sdk/aliased_expression.py", "snuba_sdk/function.py", "snuba_sdk/conditions.py", "snuba_sdk/orderby.py", "snuba_sdk/entity.py", "snuba_sdk/storage.py", "snuba_sdk/relationships.py", "snuba_sdk/schema.py"],
  [("construction-time validation", "snuba_sdk/expressions.py Expression.__post_init__"), ("per-class validate()", "each class")],
  ["constructors of Column, AliasedExpression, Function, CurriedFunction, Identifier, Lambda, Condition, And, Or, BooleanCondition, OrderBy, LimitBy, Limit, Offset, Granularity, Totals, Extrapolate, Entity, Storage, Relationship, Join"])

p("C06", "Builder calls return a copy that differs only in the named field",
  "Every set_* call on a query, metrics query, timeseries, formula, metric or scope either raises because the value has a wrong type or returns a new object equal to the original in every other field and holding the given value in the named one. The original object, and the values passed in, are never modified, and rendering or validating an object does not change it or any later result.",
  ["inputs", "histories"], "all objects, all setters, all values, all sequences of setter/serialize/validate calls",
  "Frame conditions quantify over every other field and every call history; tests compare only final text of a few chains.",
  ["snuba_sdk/query.py", "snuba_sdk/metrics_query.py", "snuba_sdk/timeseries.py", "snuba_sdk/formula.py"],
  [("dataclasses.replace", "_replace helpers and set_* methods")],
  ["set_* return values", "the receiver after the call", "repeated serialize()"])

p("C07", "A query is accepted exactly when valid, and nothing is rendered otherwise",
  "Validating a SnQL query succeeds if and only if it has a non-empty select, asks for totals only together with a group-by, and every column it references is resolvable: in the schema of the matched entity or storage (when one is given), qualified by a matching alias of the join, or exposed by the sub-query's select. Serializing, printing or stringifying a query that fails validation raises the validation error and yields no text; a sub-query is validated when it is used.",
  ["inputs", "programs"], "all queries over all match kinds and all referenced columns",
  "Resolution must hold for each of unboundedly many column occurrences; tests place an offending column in a few positions only.",
  ["snuba_sdk/query.py", "snuba_sdk/query_visitors.py", "snuba_sdk/query_validation.py", "snuba_sdk/column.py", "snuba_sdk/schema.py"],
  [("Validator", "snuba_sdk/query_visitors.py Validator"), ("match validation", "snuba_sdk/query_validation.py validate_match")],
  ["Query.validate()", "Query.serialize()", "Query.print()", "str(query)"])

p("C08", "Column discovery finds every referenced column and nothing else",
  "Searching an expression or a query for columns returns exactly the set of columns that occur in it: in function parameters and initializers, lambdas, both sides of conditions, nested AND/OR groups, array and tuple literals, order-by, limit-by and array-join, at any depth. It invents none, and the columns inside a sub-query are not attributed to the outer query.",
  ["inputs", "programs"], "all expression trees and queries of any depth and width",
  "Completeness of a recursive search is a statement over every tree shape; tests check single-digit shapes.",
  ["snuba_sdk/visitors.py", "snuba_sdk/query_visitors.py"],
  [("ExpressionFinder", "snuba_sdk/visitors.py"), ("ExpressionSearcher", "snuba_sdk/query_visitors.py")],
  ["ExpressionFinder(Column).visit(expr)", "ExpressionSearcher(Column).visit(query)"])

p("C09", "The required-column check accepts exactly the sufficiently filtered queries",
  "The required-columns check passes if and only if, for each matched entity that carries a schema (each entity of a join, the innermost query of nested sub-queries), the conjunctive top level of the where clause - AND groups flattened at any depth, OR groups not - contains an = or IN condition on every required column and both a >= and a < condition on the required time column, on that entity's own columns. Otherwise it raises the required-column error.",
  ["inputs", "programs"], "all queries, schemas, nestings of AND/OR and condition operators",
  "Nesting of AND groups and the set of required columns are unbounded; tests try about twenty where clauses.",
  ["snuba_sdk/query_validation.py", "snuba_sdk/conditions.py", "snuba_sdk/schema.py"],
  [("AND flattening", "snuba_sdk/conditions.py get_first_level_and_conditions"), ("matching", "snuba_sdk/query_validation.py _matching_condition_exists"), ("schema", "snuba_sdk/schema.py DataModel")],
  ["validate_required_columns(query)"])

p("C10", "OR optimisation never changes which rows a filter selects",
  "Optimising a condition list replaces exactly those top-level OR groups whose members are all equality conditions on one and the same left-hand side by a single IN condition holding all their right-hand sides in order, and leaves every other condition, and the order of conditions, untouched; it reports no optimisation when there is none. The optimised list selects the same rows as the original, and the input is not modified.",
  ["inputs", "programs"], "all condition lists and all row valuations",
  "Equivalence is over every condition list and every row; tests have six example lists.",
  ["snuba_sdk/query_optimizers/or_optimizer.py", "snuba_sdk/query.py", "snuba_sdk/metrics_query.py"],
  [("OrOptimizer", "snuba_sdk/query_optimizers/or_optimizer.py"), ("use in serialize", "snuba_sdk/query.py Query._optimize, snuba_sdk/metrics_query.py MetricsQuery._optimize")],
  ["OrOptimizer().optimize(conditions)", "serialize()"])

p("C11", "MQL text preserves the whole timeseries or formula",
  "The MQL text of a timeseries is aggregate(params)(metric){filters} by (groupby) and that of a formula is its fully parenthesised infix arithmetic or its prefix call, containing the text of every parameter in order, every filter joined with AND, nested AND/OR groups in parentheses, and every group-by column, each part present exactly when set. A filter keeps its operator: equality-like operators print key:value, their negations print !key:value, and an operator MQL cannot express is rejected rather than printed as another one.",
  ["inputs", "programs"], "all timeseries and formulas of any depth, all filters and group-bys",
  "Formulas and filters nest without bound; tests pin fixed examples.",
  ["snuba_sdk/metrics_visitors.py", "snuba_sdk/visitors.py", "snuba_sdk/mql_visitor.py"],
  [("timeseries/formula printers", "snuba_sdk/metrics_visitors.py"), ("MQL conditions", "snuba_sdk/visitors.py Translation._visit_condition_mql")],
  ["MetricsQuery.serialize()['mql']", "TimeseriesMQLPrinter().visit(ts)", "FormulaMQLPrinter().visit(f)"])

p("C12", "A metrics query is accepted exactly when complete, and ships all its metadata",
  "Serializing a metrics query succeeds if and only if query, start, end, rollup with a granularity and scope are present with the right types, any limit, offset, extrapolate and indexer mapping are well-typed, and indexer mappings are given; otherwise an error is raised and nothing is produced. The produced context carries start and end in ISO form and rollup (order, granularity, interval, totals), scope, limit, offset, extrapolate and indexer mappings each in its own slot, unchanged.",
  ["inputs"], "all metrics queries, all values of each field",
  "Each slot must hold for every value and every combination of optional fields; tests fix most fields to the same constants.",
  ["snuba_sdk/metrics_query.py", "snuba_sdk/metrics_query_visitors.py", "snuba_sdk/mql_visitor.py", "snuba_sdk/mql_context.py", "snuba_sdk/metrics_visitors.py"],
  [("Validator", "snuba_sdk/metrics_query_visitors.py"), ("MQLPrinter", "snuba_sdk/mql_visitor.py"), ("rollup/scope printers", "snuba_sdk/metrics_visitors.py")],
  ["MetricsQuery.validate()", "MetricsQuery.serialize()"])

p("C13", "Metrics building blocks are accepted exactly when valid",
  "Metric, Timeseries, Rollup and MetricsScope can be created, and a Formula validates, if and only if their documented rules hold: a metric has a public name or MRI, parts have the documented types, an interval is an integer of at least 10 seconds and not below the granularity, a granularity is one of 10, 60, 3600, 86400, a rollup has interval or totals and no order with an interval, and a formula is built, at any depth, on at least one timeseries with at most one distinct group-by. Otherwise the documented error is raised.",
  ["inputs"], "all argument values of any Python type; formulas of any depth",
  "The space is every Python value and every formula tree; tests try a handful of each.",
  ["snuba_sdk/timeseries.py", "snuba_sdk/formula.py", "snuba_sdk/expressions.py"],
  [("validate()", "snuba_sdk/timeseries.py, snuba_sdk/formula.py")],
  ["constructors of Metric, Timeseries, Rollup, MetricsScope", "Formula.validate()"])

p("C14", "MQL parsing builds exactly the timeseries or formula the text denotes",
  "For every parseable MQL text the result reflects its structure: * and / bind tighter than + and -, equal precedence associates left, unary minus negates, parentheses group, AND/comma binds tighter than OR, ! negates the condition, bracketed lists become IN, trailing wildcards become LIKE, quoted text has its quotes unescaped, and filters, group-bys, aggregate parameters and metric names land on the element they are written on. Text outside the grammar raises the invalid-MQL error.",
  ["inputs", "programs"], "all MQL texts",
  "The language is infinite; tests pin about seventy texts.",
  ["snuba_sdk/mql/mql.py"],
  [("grammar", "snuba_sdk/mql/mql.py MQL_GRAMMAR"), ("tree visitor", "snuba_sdk/mql/mql.py MQLVisitor")],
  ["parse_mql(text)", "MetricsQuery(query=text)"])

p("C15", "A request carries exactly its query, dataset, ids and set flags",
  "Converting a request to its body validates dataset, app id, parent api, tenant ids, flags and query first and raises the documented error if any is invalid; otherwise the body holds the query text (for metrics queries also the MQL context; for delete queries the column conditions and no dataset), dataset, app id, tenant ids, parent api, and precisely the flags that were set, each with its own value. The serialized form is the JSON of that body.",
  ["inputs"], "all requests, all flag combinations, all query kinds",
  "3^6 flag combinations times every id string and query kind; tests check a few.",
  ["snuba_sdk/request.py"],
  [("Request.validate/to_dict", "snuba_sdk/request.py"), ("Flags", "snuba_sdk/request.py")],
  ["Request.to_dict()", "Request.serialize()", "Flags.to_dict()"])

p("C16", "A delete query is never emitted without a restricting condition per column",
  "A delete query validates and serializes if and only if it has at least one column condition and every column condition lists at least one value; otherwise the invalid-delete error is raised and no body is produced, also when it is sent inside a request. The emitted body holds exactly the given column conditions.",
  ["inputs"], "all delete queries, any number of columns and values",
  "An empty list could hide behind any column among many; tests try two shapes. Consequence of a miss is unbounded data deletion.",
  ["snuba_sdk/delete_query.py", "snuba_sdk/request.py"],
  [("DeleteQuery.validate", "snuba_sdk/delete_query.py")],
  ["DeleteQuery.validate()", "DeleteQuery.serialize()", "Request(...).to_dict()"])

p("C17", "A legacy JSON body converts to the SnQL request it describes",
  "Converting a legacy body yields a request whose select is all aggregations then all selected columns in order, whose group-by, array join, having, order-by (descending exactly for a leading minus), limit-by, limit, offset, granularity, totals and sample are those of the body, and whose where is the organization, time-range, project and listed conditions, in that order, inner lists becoming OR. Date-like strings become datetimes except when compared with tags or release, flags and ids are carried over, and the body passed in is not modified.",
  ["inputs", "programs"], "all legacy bodies with nested expressions of any depth",
  "Bodies nest without bound and combine some twenty optional keys; tests pin about forty bodies.",
  ["snuba_sdk/legacy.py", "snuba_sdk/entity.py"],
  [("json_to_snql", "snuba_sdk/legacy.py"), ("expression/condition parsing", "snuba_sdk/legacy.py parse_exp, parse_condition, parse_scalar")],
  ["json_to_snql(body, entity)"])

p("C18", "Expressions are immutable values: equality ignores no part, equals hash equal",
  "Two expressions of one class are equal exactly when every part they were built from is equal - a change in any single part (name, alias, entity, operand, operator, parameter, direction, bound, interval ...) makes them unequal; the same holds for queries, timeseries, formulas, metrics and scopes, and things of different classes are never equal. The one documented exception: a curried function is equal to another curried or plain function exactly when function name, initializers and parameters are equal, whatever the alias; two plain functions compare the alias too. Expressions that compare equal always hash equal, so sets and dicts of expressions never hold duplicates; an expression is hashable whenever its parts are (whatever schema an entity or storage carries), and assigning to a part of a created expression, query, formula, metric or rollup raises and leaves it as it was.",
  ["inputs"], "all pairs of expressions",
  "A statement over all pairs of values; tests compare a few pairs and never hashes.",
  ["snuba_sdk/function.py"],
  [("CurriedFunction.__eq__ and the generated __hash__", "snuba_sdk/function.py")],
  ["a == b", "hash(a) == hash(b)"])

pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
