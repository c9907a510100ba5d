"""Fourth corpus of behaviour-preserving edits: other idioms for the same behaviour."""
V, Q, C, M = "visitors.py", "query_visitors.py", "conditions.py", "metrics_visitors.py"
FOURTH = [
("R01 flatten stack", [(C, '''    flattened = []
    for cond in conditions:
        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
            top_level = get_first_level_and_conditions(cond.conditions)
            flattened += [*top_level]
        else:
            flattened.append(cond)

    return flattened
''', '''    return [
        inner
        for cond in conditions
        for inner in (
            get_first_level_and_conditions(cond.conditions)
            if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND
            else [cond]
        )
    ]
''')]),
("R02 flatten sum", [(C, '''    flattened = []
    for cond in conditions:
        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
            top_level = get_first_level_and_conditions(cond.conditions)
            flattened += [*top_level]
        else:
            flattened.append(cond)

    return flattened
''', '''    flattened: list[Union[BooleanCondition, Condition]] = []
    for cond in conditions:
        if not (isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND):
            flattened.append(cond)
            continue
        flattened = flattened + list(get_first_level_and_conditions(cond.conditions))
    return flattened
''')]),
("R03 flatten yield helper", [(C, '''    flattened = []
    for cond in conditions:
        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
            top_level = get_first_level_and_conditions(cond.conditions)
            flattened += [*top_level]
        else:
            flattened.append(cond)

    return flattened
''', '''    return list(_first_level(conditions))


def _first_level(conditions: ConditionGroup) -> Iterator[Any]:
    for cond in conditions:
        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
            yield from _first_level(cond.conditions)
        else:
            yield cond
'''), (C, "from typing import Mapping, Optional", "from typing import Any, Iterator, Mapping, Optional")]),
("R04 is_unary or", [(C, '''    return op in [Op.IS_NULL, Op.IS_NOT_NULL]
''', '''    return op is Op.IS_NULL or op is Op.IS_NOT_NULL
''')]),
("R05 is_unary frozenset", [(C, '''def is_unary(op: Op) -> bool:
    return op in [Op.IS_NULL, Op.IS_NOT_NULL]
''', '''UNARY_OPS = frozenset((Op.IS_NULL, Op.IS_NOT_NULL))


def is_unary(op: Op) -> bool:
    return op in UNARY_OPS
''')]),
("R06 condition validate de morgan", [(C, '''        if not isinstance(
            self.rhs, (Column, CurriedFunction, Function)
        ) and not is_scalar(self.rhs):
''', '''        if not (
            isinstance(self.rhs, (Column, CurriedFunction, Function))
            or is_scalar(self.rhs)
        ):
'''), (C, '''        if is_unary(self.op):
            if self.rhs is not None:
                raise InvalidConditionError(
''', '''        if is_unary(self.op) and self.rhs is not None:
                raise InvalidConditionError(
''')]),
("R07 boolean validate next", [(C, '''        for con in self.conditions:
            if not isinstance(con, (Condition, BooleanCondition)):
                raise InvalidConditionError(
                    f"invalid boolean: {con} is not a valid condition"
                )
''', '''        bad = [
            con
            for con in self.conditions
            if not isinstance(con, (Condition, BooleanCondition))
        ]
        if bad:
            raise InvalidConditionError(
                f"invalid boolean: {bad[0]} is not a valid condition"
            )
''')]),
("R08 alias mapping nested loops", [("relationships.py", '''        aliases = set()
        for rel in self.relationships:
            if rel.lhs.alias is not None:
                aliases.add((rel.lhs.alias, rel.lhs.name))
            if rel.rhs.alias is not None:
                aliases.add((rel.rhs.alias, rel.rhs.name))

        return aliases
''', '''        aliases = set()
        for rel in self.relationships:
            for entity in (rel.lhs, rel.rhs):
                if entity.alias is None:
                    continue
                aliases.add((entity.alias, entity.name))
        return aliases
''')]),
("R09 alias mapping via entities", [("relationships.py", '''        aliases = set()
        for rel in self.relationships:
            if rel.lhs.alias is not None:
                aliases.add((rel.lhs.alias, rel.lhs.name))
            if rel.rhs.alias is not None:
                aliases.add((rel.rhs.alias, rel.rhs.name))

        return aliases
''', '''        return {
            (entity.alias, entity.name)
            for entity in self.get_entities()
            if entity.alias is not None
        }
''')]),
("R10 join entities chain", [("relationships.py", '''        entities = set()
        for rel in self.relationships:
            entities.add(rel.lhs)
            entities.add(rel.rhs)
        return entities
''', '''        lhs = {rel.lhs for rel in self.relationships}
        rhs = {rel.rhs for rel in self.relationships}
        return lhs | rhs
''')]),
("R11 join validate any", [("relationships.py", '''        elif not all(isinstance(x, Relationship) for x in self.relationships):
            raise''', '''
        if any(not isinstance(x, Relationship) for x in self.relationships):
            raise''')]),
("R12 column validate partition", [("column.py", '''        if "[" in self.name:
            subscriptable, key = self.name.split("[", 1)
            key = key.strip("]")
            super().__setattr__("subscriptable", subscriptable)
            super().__setattr__("key", key)
''', '''        parts = self.name.split("[", 1)
        if len(parts) == 2:
            for attribute, part in (
                ("subscriptable", parts[0]),
                ("key", parts[1].strip("]")),
            ):
                super().__setattr__(attribute, part)
''')]),
("R13 column object setattr", [("column.py", '''            subscriptable, key = self.name.split("[", 1)
            key = key.strip("]")
            super().__setattr__("subscriptable", subscriptable)
            super().__setattr__("key", key)
''', '''            start = self.name.index("[")
            object.__setattr__(self, "subscriptable", self.name[:start])
            object.__setattr__(self, "key", self.name[start + 1 :].strip("]"))
''')]),
("R14 column model or", [("column.py", '''        to_check = self.subscriptable if self.subscriptable else self.name
        if not match.data_model.contains(to_check):
''', '''        if not match.data_model.contains(self.subscriptable or self.name):
''')]),
("R15 sample walrus fmt", [(V, '''        sample_clause = ""
        if storage.sample is not None:
            if storage.sample % 1 == 0:
                sample_clause = f" SAMPLE {storage.sample:.1f}"
            else:
                sample_clause = f" SAMPLE {storage.sample:f}"
        return f"STORAGE({storage.name}{sample_clause})"
''', '''        if (sample := storage.sample) is None:
            return f"STORAGE({storage.name})"
        fmt = ".1f" if sample % 1 == 0 else "f"
        return f"STORAGE({storage.name} SAMPLE {format(sample, fmt)})"
''')]),
("R16 scalar percent format", [(V, '''            return f"{quote_char}{decoded}{quote_char}"
''', '''            return "%s%s%s" % (quote_char, decoded, quote_char)
'''), (V, '''        return f"`{ident.name}`"
''', '''        return "`{}`".format(ident.name)
''')]),
("R17 scalar escape table", [(V, '''            decoded = (
                decoded.replace("\\\\", "\\\\\\\\")
                .replace(quote_char, f"\\\\{quote_char}")
                .replace("\\n", "\\\\n")
            )
''', '''            for char, escaped in (
                ("\\\\", "\\\\\\\\"),
                (quote_char, "\\\\" + quote_char),
                ("\\n", "\\\\n"),
            ):
                decoded = decoded.replace(char, escaped)
''')]),
("R18 datetime astimezone helper", [(V, '''            if value.tzinfo is not None:
                delta = value.utcoffset()
                assert delta is not None
                value = value - delta
                value = value.replace(tzinfo=None)
            return f"toDateTime('{value.isoformat()}')"
        elif isinstance(value, date):
''', '''            offset = value.utcoffset()
            if value.tzinfo is not None:
                assert offset is not None
                value = value.replace(tzinfo=None) - offset
            return f"toDateTime('{value.isoformat()}')"
        elif isinstance(value, date):
''')]),
("R19 curried function conditional", [(V, '''        alias = "" if func.alias is None else f" AS `{func.alias}`"
        initialize_clause = ""
        if func.initializers is not None:
            initializers = []
            for initer in func.initializers:
                if isinstance(initer, Column):
                    initializers.append(self.visit(initer))
                elif isinstance(initer, tuple(Scalar)):
                    initializers.append(self._stringify_scalar(initer))

            initialize_clause = f"({', '.join(initializers)})"
''', '''        alias = f" AS `{func.alias}`" if func.alias is not None else ""
        if func.initializers is None:
            initialize_clause = ""
        else:
            initialize_clause = (
                "("
                + ", ".join(
                    self.visit(initer)
                    if isinstance(initer, Column)
                    else self._stringify_scalar(initer)
                    for initer in func.initializers
                )
                + ")"
            )
''')]),
("R20 lambda map", [(V, '''        identifiers = ", ".join(f"`{i}`" for i in lambda_fn.identifiers)
        return f"({identifiers}) -> {self.visit(lambda_fn.transformation)}"
''', '''        body = self.visit(lambda_fn.transformation)
        names = map(lambda i: f"`{i}`", lambda_fn.identifiers)
        return "({}) -> {}".format(", ".join(names), body)
''')]),
("R21 join map", [(V, '''        return ", ".join([self.visit(rel) for rel in join.relationships])
''', '''        return ", ".join(map(self.visit, join.relationships))
''')]),
("R22 mql negation by tuple", [(V, '''        op = ""
        if cond.op == Op.NEQ or cond.op == Op.NOT_IN or cond.op == Op.NOT_LIKE:
            op = "!"
        return f"{op}{self.visit(cond.lhs)}:{rhs}"
''', '''        op = "!" if cond.op in (Op.NEQ, Op.NOT_IN, Op.NOT_LIKE) else ""
        return op + self.visit(cond.lhs) + ":" + rhs
''')]),
("R23 visit match statement", [(V, '''        elif isinstance(node, Limit):
            return self._visit_int_literal(node.limit)
        elif isinstance(node, Offset):
            return self._visit_int_literal(node.offset)
        elif isinstance(node, LimitBy):
            return self._visit_limitby(node)
        elif isinstance(node, Granularity):
            return self._visit_int_literal(node.granularity)
        elif isinstance(node, Totals):
            return self._visit_totals(node.totals)
        elif is_scalar(node):
            return self._visit_scalar(node)

        raise''', '''        elif isinstance(node, LimitBy):
            return self._visit_limitby(node)
        elif isinstance(node, Totals):
            return self._visit_totals(node.totals)

        for kind, attribute in (
            (Limit, "limit"),
            (Offset, "offset"),
            (Granularity, "granularity"),
        ):
            if isinstance(node, kind):
                return self._visit_int_literal(getattr(node, attribute))

        if is_scalar(node):
            return self._visit_scalar(node)

        raise''')]),
("R24 finder helper", [(V, '''        found = set()
        if func.initializers is not None:
            for initer in func.initializers:
                found |= self.visit(initer)

        if func.parameters is not None:
            for param in func.parameters:
                found |= self.visit(param)

        return found
''', '''        return self._visit_all(func.initializers) | self._visit_all(func.parameters)

    def _visit_all(self, terms: Any) -> set[Expression]:
        found: set[Expression] = set()
        for term in terms or ():
            found |= self.visit(term)
        return found
'''), (V, '''        found = set()
        for c in cond.conditions:
            found |= self.visit(c)
        return found

    def _visit_orderby''', '''        return self._visit_all(cond.conditions)

    def _visit_orderby''')]),
("R25 finder union star", [(V, '''        return set.union(*[self.visit(column) for column in limitby.columns])
''', '''        return set().union(*(self.visit(column) for column in limitby.columns))
''')]),
("R26 finder scalar early", [(V, '''        found: set[Expression] = set()
        if isinstance(value, (list, tuple)):
            for v in value:
                found |= self.visit(v)
        return found
''', '''        if not isinstance(value, (list, tuple)):
            return set()
        return {found for v in value for found in self.visit(v)}
''')]),
("R27 is_aggregate while", [(Q, '''    if function.parameters is not None:
        for param in function.parameters:
            if (
                aggregate_aliases
                and isinstance(param, Column)
                and param.name in aggregate_aliases
            ):
                return True
            elif isinstance(param, (CurriedFunction, Function)) and is_aggregate(
                param, aggregate_aliases
            ):
                return True

    return False


def find_column''', '''    for param in function.parameters or []:
        if isinstance(param, Column):
            if aggregate_aliases and param.name in aggregate_aliases:
                return True
        elif isinstance(param, CurriedFunction):
            if is_aggregate(param, aggregate_aliases):
                return True

    return False


def find_column''')]),
("R28 printer format clause", [(Q, '''        if where:
            return f"WHERE {' AND '.join(self.translator.visit(w) for w in where)}"
        return ""
''', '''        return self._conditions("WHERE", where)

    def _conditions(self, keyword: str, conditions: Optional[ConditionGroup]) -> str:
        if not conditions:
            return ""
        terms = [self.translator.visit(c) for c in conditions]
        return keyword + " " + " AND ".join(terms)
'''), (Q, '''        if having:
            return f"HAVING {' AND '.join(self.translator.visit(h) for h in having)}"
        return ""
''', '''        return self._conditions("HAVING", having)
''')]),
("R29 printer combine simplified", [(Q, '''        clause_order = query.get_fields()
        separator = "\\n" if (self.pretty and not self.is_inner) else " "
        formatted = separator.join([returns[c] for c in clause_order if returns[c]])

        if self.pretty and not self.is_inner:
            prefix = ""
            formatted = f"{prefix}{formatted}"

        return formatted
''', '''        clauses = []
        for name in query.get_fields():
            clause = returns[name]
            if clause:
                clauses.append(clause)

        if self.is_inner or not self.pretty:
            return " ".join(clauses)
        return "\\n".join(clauses)
''')]),
("R30 printer subquery inline", [(Q, '''        translator = Printer(self.pretty, True)
        subquery = translator.visit(match)
        return "MATCH { %s }" % subquery
''', '''        inner = Printer(pretty=self.pretty, is_inner=True).visit(match)
        return f"MATCH {{ {inner} }}"
''')]),
("R31 searcher reduce", [(Q, '''        found = set()
        for ret in returns.values():
            found |= ret
        return found
''', '''        return set().union(*returns.values())
''')]),
("R32 validator elif", [(Q, '''        if query.select is None or len(query.select) == 0:
            raise InvalidQueryError("query must have at least one expression in select")

        if query.totals and query.totals.totals and not query.groupby:
            raise InvalidQueryError("totals is only valid with a groupby")
''', '''        if not query.select:
            raise InvalidQueryError("query must have at least one expression in select")

        wants_totals = query.totals is not None and query.totals.totals
        if wants_totals and not query.groupby:
            raise InvalidQueryError("totals is only valid with a groupby")
''')]),
("R33 validator if-is-not-none", [(Q, '''        limitby.validate() if limitby is not None else None
''', '''        if limitby is not None:
            limitby.validate()
'''), (Q, '''        if values is not None:
            for v in values:
                v.validate()
''', '''        for v in values if values is not None else ():
            v.validate()
''')]),
("R34 subquery difference", [("query_validation.py", '''    for c in all_columns:
        if isinstance(c, Column) and c.name not in inner_column_names:
            raise InvalidMatchError(
                f"outer query is referencing column '{c.name}' that does not exist in subquery"
            )
''', '''    unknown = {c.name for c in all_columns if isinstance(c, Column)} - inner_column_names
    for name in unknown:
        raise InvalidMatchError(
            f"outer query is referencing column '{name}' that does not exist in subquery"
        )
''')]),
("R35 join get", [("query_validation.py", '''        elif c.entity.alias not in entity_aliases:
            raise InvalidMatchError(
                f"column '{c.name}' has unknown entity alias {c.entity.alias}"
            )
        elif entity_aliases[c.entity.alias] != c.entity.name:
''', '''        expected = entity_aliases.get(c.entity.alias)
        if expected is None:
            raise InvalidMatchError(
                f"column '{c.name}' has unknown entity alias {c.entity.alias}"
            )
        if expected != c.entity.name:
''')]),
("R36 required columns simple loop", [("query_validation.py", '''    required_conditions: list[tuple[set[Op], ColumnModel]] = [
        *[({Op.EQ, Op.IN}, req_column) for req_column in schema.required_columns],
    ]
    not_matched = set(range(len(required_conditions)))
    for i, match in enumerate(required_conditions):
        if i not in not_matched:
            continue

        ops, col_to_match = match
        if _matching_condition_exists(ops, col_to_match, top_level, entity.alias):
            not_matched.remove(i)

    if not_matched:
        entity_alias = f"{entity.alias}." if entity.alias else ""
        missing = sorted(
            [f"'{entity_alias}{required_conditions[i][1].name}'" for i in not_matched]
        )
''', '''    not_matched = [
        col
        for col in schema.required_columns
        if not _matching_condition_exists(
            {Op.EQ, Op.IN}, col, top_level, entity.alias
        )
    ]
    if not_matched:
        entity_alias = f"{entity.alias}." if entity.alias else ""
        missing = sorted(f"'{entity_alias}{col.name}'" for col in not_matched)
''')]),
("R37 required ops unrolled", [("query_validation.py", '''    ops = {Op.GTE, Op.LT}
    missing_ops = set()
    for op in ops:
        if not _matching_condition_exists(
            {op}, schema.required_time_column, top_level, entity.alias
        ):
            missing_ops.add(op)
''', '''    time_column = schema.required_time_column
    missing_ops = [
        op
        for op in (Op.GTE, Op.LT)
        if not _matching_condition_exists({op}, time_column, top_level, entity.alias)
    ]
''')]),
("R38 matching condition split", [("query_validation.py", '''    for cond in top_level_conditions:
        if (
            isinstance(cond, Condition)
            and isinstance(cond.lhs, Column)
            and (cond.lhs.entity is None or cond.lhs.entity.alias == entity_alias)
            and cond.lhs.name == col_to_match.name
            and cond.op in ops
        ):
            return True

    return False
''', '''    for cond in top_level_conditions:
        if not isinstance(cond, Condition) or cond.op not in ops:
            continue
        column = cond.lhs
        if not isinstance(column, Column) or column.name != col_to_match.name:
            continue
        if column.entity is None or column.entity.alias == entity_alias:
            return True

    return False
''')]),
("R39 optimizer first rest", [("query_optimizers/or_optimizer.py", '''        curr = cond.conditions[0]
        if not isinstance(curr, Condition) or curr.op != Op.EQ:
            # can't be optimized
            return None
        shared_lhs = curr.lhs
        rhsides = [curr.rhs]
        for i in range(1, len(cond.conditions)):
            curr = cond.conditions[i]
            if (
                not isinstance(curr, Condition)
                or curr.op != Op.EQ
                or (shared_lhs and curr.lhs != shared_lhs)
            ):
                # can't be optimized
                return None
            rhsides += [curr.rhs]
        return Condition(shared_lhs, Op.IN, rhsides)  # type: ignore
''', '''        first, *rest = cond.conditions
        if not isinstance(first, Condition) or first.op != Op.EQ:
            # can't be optimized
            return None
        rhsides = [first.rhs]
        for other in rest:
            if not isinstance(other, Condition) or other.op != Op.EQ:
                return None
            if other.lhs != first.lhs:
                return None
            rhsides.append(other.rhs)
        return Condition(first.lhs, Op.IN, rhsides)  # type: ignore
''')]),
("R40 optimizer optimize comprehension", [("query_optimizers/or_optimizer.py", '''        optimized = False
        new_filters = []
        for cond in condition_group:
            res = self._optimize_condition(cond)

            if res is not None:
                optimized = True
                new_filters.append(res)
            else:
                new_filters.append(cond)

        if optimized:
            return new_filters
        return None
''', '''        results = [self._optimize_condition(cond) for cond in condition_group]
        if all(res is None for res in results):
            return None
        return [
            cond if res is None else res
            for cond, res in zip(condition_group, results)
        ]
''')]),
("R41 formula groupbys helper", [("formula.py", '''            param = stack.pop()
            if isinstance(param, Formula):
                if param.groupby is not None:
                    groupbys.add(tuple(param.groupby))

                if param.parameters:
                    stack.extend(param.parameters)
            elif isinstance(param, Timeseries):
                has_timeseries = True
                if param.groupby is not None:
                    groupbys.add(tuple(param.groupby))
''', '''            param = stack.pop()
            if not isinstance(param, (Formula, Timeseries)):
                continue
            if param.groupby is not None:
                groupbys.add(tuple(param.groupby))
            if isinstance(param, Timeseries):
                has_timeseries = True
            elif param.parameters:
                stack.extend(param.parameters)
''')]),
("R42 formula printer dict get", [(M, '''        if formula.function_name in PREFIX_TO_INFIX:
            separator = f" {PREFIX_TO_INFIX[formula.function_name]} "
            mql_string = f"({separator.join(param_strings)})"
''', '''        infix = PREFIX_TO_INFIX.get(formula.function_name)
        if infix is not None:
            mql_string = "(" + f" {infix} ".join(param_strings) + ")"
''')]),
("R43 formula printer one list", [(M, '''        parameters = [self._visit_parameter(p) for p in formula.parameters]
''', '''        parameters = list(map(self._visit_parameter, formula.parameters))
'''), (M, '''        param_strings = []
        for p in parameters:
            if isinstance(p, str):
                param_strings.append(p)
''', '''        param_strings = [p for p in parameters if isinstance(p, str)]
''')]),
("R44 timeseries combine parts", [(M, '''        mql_string = returns["metric"]
        assert isinstance(mql_string, str)
        if returns["aggregate"]:
            aggregate = returns["aggregate"]
            mql_string = f"{aggregate}({mql_string})"

        if returns["filters"]:
            filters = str(returns["filters"])
            mql_string += f"{filters}"

        if returns["groupby"]:
            groupby = str(returns["groupby"])
            mql_string += f"{groupby}"

        return mql_string
''', '''        metric, aggregate = returns["metric"], returns["aggregate"]
        assert isinstance(metric, str)
        parts = [f"{aggregate}({metric})" if aggregate else metric]
        parts.extend(str(returns[name]) for name in ("filters", "groupby"))
        return "".join(parts)
''')]),
("R45 timeseries visitor dict", [(M, '''        fields = timeseries.get_fields()
        returns = {}
        for field in fields:
            if field == "aggregate_params":
                continue
            elif field == "aggregate":
                returns[field] = self._visit_aggregate(
                    getattr(timeseries, field), timeseries.aggregate_params
                )
            else:
                returns[field] = getattr(self, f"_visit_{field}")(
                    getattr(timeseries, field)
                )

        return self._combine(timeseries, returns)
''', '''        returns = {
            "metric": self._visit_metric(timeseries.metric),
            "aggregate": self._visit_aggregate(
                timeseries.aggregate, timeseries.aggregate_params
            ),
            "filters": self._visit_filters(timeseries.filters),
            "groupby": self._visit_groupby(timeseries.groupby),
        }
        return self._combine(timeseries, returns)
''')]),
("R46 rollup fields", [(M, '''        return {
            "orderby": rollup.orderby.value if rollup.orderby else None,
            "granularity": rollup.granularity,
            "interval": rollup.interval,
            "with_totals": str(rollup.totals) if rollup.totals is not None else None,
        }
''', '''        orderby = None
        if rollup.orderby is not None:
            orderby = rollup.orderby.value
        with_totals = None if rollup.totals is None else str(rollup.totals)
        return dict(
            orderby=orderby,
            granularity=rollup.granularity,
            interval=rollup.interval,
            with_totals=with_totals,
        )
'''), (M, '''        return asdict(scope)''', '''        return {**asdict(scope)}''')]),
("R47 metric printer loop", [(M, '''        if metric.mri is not None:
            return metric.mri

        if metric.public_name is not None:
            return metric.public_name

        raise''', '''        for name in (metric.mri, metric.public_name):
            if name is not None:
                return name

        raise''')]),
("R48 flags dict comprehension", [("request.py", '''        self.validate()
        values = asdict(self)
        return {f: v for f, v in values.items() if v is not None}
''', '''        self.validate()
        flags = {}
        for ff in fields(self):
            value = getattr(self, ff.name)
            if value is not None:
                flags[ff.name] = value
        return flags
''')]),
("R49 request update", [("request.py", '''        ret: dict[str, object] = {
            **flags,
            "query": query,
            "dataset": self.dataset,
            "app_id": self.app_id,
            "tenant_ids": self.tenant_ids,
            "parent_api": self.parent_api,
        }
        if mql_context is not None:
''', '''        ret: dict[str, object] = dict(flags)
        ret.update(
            query=query,
            dataset=self.dataset,
            app_id=self.app_id,
            tenant_ids=self.tenant_ids,
            parent_api=self.parent_api,
        )
        if mql_context is not None:
''')]),
("R50 request validate helper", [("request.py", '''        if not self.dataset or not isinstance(self.dataset, str):
            raise InvalidRequestError("Request must have a valid dataset")
        elif not FLAG_RE.match(self.dataset):
            raise InvalidRequestError(f"'{self.dataset}' is not a valid dataset")

        if not self.app_id or not isinstance(self.app_id, str):
            raise InvalidRequestError("Request must have a valid app_id")
        if not FLAG_RE.match(self.app_id):
            raise InvalidRequestError(f"'{self.app_id}' is not a valid app_id")
''', '''        for name in ("dataset", "app_id"):
            value = getattr(self, name)
            if not value or not isinstance(value, str):
                raise InvalidRequestError(f"Request must have a valid {name}")
            if FLAG_RE.match(value) is None:
                raise InvalidRequestError(f"'{value}' is not a valid {name}")
''')]),
("R51 rollup guard clauses", [("timeseries.py", '''        if self.totals is not None:
            if not isinstance(self.totals, bool):
                raise InvalidExpressionError("totals must be a boolean")

        if self.interval is None and self.totals is None:
            raise InvalidExpressionError(
                "Rollup must have at least one of interval or totals"
            )

        if self.orderby is not None:
            if not isinstance(self.orderby, Direction):
                raise InvalidExpressionError("orderby must be a Direction object")

        if self.interval is not None and self.orderby is not None:
            raise InvalidExpressionError(
                "Timeseries queries can't be ordered when using interval"
            )
''', '''        if not (self.totals is None or isinstance(self.totals, bool)):
            raise InvalidExpressionError("totals must be a boolean")

        if self.interval is None:
            if self.totals is None:
                raise InvalidExpressionError(
                    "Rollup must have at least one of interval or totals"
                )
            if not (self.orderby is None or isinstance(self.orderby, Direction)):
                raise InvalidExpressionError("orderby must be a Direction object")
        elif self.orderby is not None:
            if not isinstance(self.orderby, Direction):
                raise InvalidExpressionError("orderby must be a Direction object")
            raise InvalidExpressionError(
                "Timeseries queries can't be ordered when using interval"
            )
''')]),
("R52 metric validate loop", [("timeseries.py", '''        if self.public_name is not None and not isinstance(self.public_name, str):
            raise InvalidTimeseriesError("public_name must be a string")
        if self.mri is not None and not isinstance(self.mri, str):
            raise InvalidTimeseriesError("mri must be a string")
        if self.id is not None and not isinstance(self.id, int):
            raise InvalidTimeseriesError("id must be an integer")

        if all(v is None for v in (self.public_name, self.mri)):
''', '''        for name, kind, label in (
            ("public_name", str, "a string"),
            ("mri", str, "a string"),
            ("id", int, "an integer"),
        ):
            value = getattr(self, name)
            if value is not None and not isinstance(value, kind):
                raise InvalidTimeseriesError(f"{name} must be {label}")

        if self.public_name is None and self.mri is None:
''')]),
("R53 granularity set", [("timeseries.py", '''        if (
            self.granularity is not None
            and self.granularity not in ALLOWED_GRANULARITIES
        ):
''', '''        allowed = (None, *ALLOWED_GRANULARITIES)
        if self.granularity not in allowed:
''')]),
("R54 is_literal any", [("expressions.py", '''    return isinstance(value, tuple(Scalar))
''', '''    return any(isinstance(value, kind) for kind in Scalar)
''')]),
("R55 is_scalar loop", [("expressions.py", '''    if isinstance(value, tuple(Scalar)):
        return True
    elif isinstance(value, (tuple, list)):
        if not all(is_scalar(v) or isinstance(v, Expression) for v in value):
            raise InvalidExpressionError("tuple/array must contain only scalar values")
        return True

    return False
''', '''    if is_literal(value):
        return True
    if not isinstance(value, (tuple, list)):
        return False
    for v in value:
        if not (is_scalar(v) or isinstance(v, Expression)):
            raise InvalidExpressionError("tuple/array must contain only scalar values")
    return True
''')]),
("R56 list_type early", [("expressions.py", '''    return isinstance(vals, list) and all(
        isinstance(v, tuple(type_classes)) for v in vals
    )
''', '''    if not isinstance(vals, list):
        return False
    classes = tuple(type_classes)
    return not any(not isinstance(v, classes) for v in vals)
''')]),
("R57 legacy parse_datetime for-else", [("legacy.py", '''    for styles in date_styles:
        try:
            return datetime.strptime(date_str, styles)
        except ValueError:
            continue

    raise''', '''    for styles in date_styles:
        try:
            parsed = datetime.strptime(date_str, styles)
        except ValueError:
            pass
        else:
            return parsed

    raise''')]),
("R58 legacy limitby index", [("legacy.py", '''        limit, name = limitby
        query = query.set_limitby(LimitBy([Column(name)], int(limit)))
''', '''        count, column_name = limitby
        columns = [Column(column_name)]
        query = query.set_limitby(LimitBy(columns=columns, count=int(count)))
''')]),
("R59 legacy select one pass", [("legacy.py", '''    selected = []
    for s in body.get("selected_columns", []):
        if isinstance(s, tuple):
            selected.append(list(s))
        else:
            selected.append(s)

    selected_columns.extend(list(map(parse_exp, selected)))
''', '''    for s in body.get("selected_columns", []):
        selected_columns.append(parse_exp(list(s) if isinstance(s, tuple) else s))
''')]),
("R60 legacy flags loop", [("legacy.py", '''    extras = {
        "consistent",
        "turbo",
        "debug",
        "dry_run",
    }
    found = {extra: body.get(extra) for extra in extras if body.get(extra)}
    found["legacy"] = True
    flags = Flags(**found)
''', '''    flags = Flags(legacy=True)
    for extra in ("consistent", "turbo", "debug", "dry_run"):
        value = body.get(extra)
        if value:
            setattr(flags, extra, value)
''')]),
("R61 mql curried eq", [("function.py", '''        if not isinstance(other, CurriedFunction):
            return False

        return (
            self.function == other.function
            and self.initializers == other.initializers
            and self.parameters == other.parameters
        )
''', '''        if isinstance(other, CurriedFunction):
            if self.function != other.function:
                return False
            if self.initializers != other.initializers:
                return False
            return bool(self.parameters == other.parameters)
        return False
''')]),
("R62 function name check helper", [("function.py", '''        if not isinstance(self.function, str):
            raise InvalidFunctionError(f"function '{self.function}' must be a string")
        if self.function == "":
            # TODO: Have a whitelist of valid functions to check, maybe even with more
            # specific parameter type checking
            raise InvalidFunctionError("function cannot be empty")
        if not function_name_re.match(self.function):
            raise InvalidFunctionError(
                f"function '{self.function}' contains invalid characters"
            )
''', '''        self._check_name()
'''), ("function.py", '''    def __eq__(self, other: object) -> bool:
        # Don't''', '''    def _check_name(self) -> None:
        name = self.function
        if not isinstance(name, str):
            raise InvalidFunctionError(f"function '{name}' must be a string")
        if len(name) == 0:
            raise InvalidFunctionError("function cannot be empty")
        if function_name_re.fullmatch(name) is None:
            raise InvalidFunctionError(f"function '{name}' contains invalid characters")

    def __eq__(self, other: object) -> bool:
        # Don't''')]),
("R63 mql visit_filter helper", [("mql/mql.py", '''        if packed_filters:
            _, filter_condition, *_ = packed_filters[0]
            current_filters = target.filters if target.filters else []
            filters = [filter_condition]
            filters.extend(current_filters)
            target = target.set_filters(filters)
        if packed_groupbys:
            group_by = packed_groupbys[0]
            if not isinstance(group_by, list):
                group_by = [group_by]
            current_groupby = target.groupby if target.groupby else []
            group_by.extend(current_groupby)
            target = target.set_groupby(group_by)
        return target

    def _filter(''', '''        if packed_filters:
            filter_condition = packed_filters[0][1]
            target = target.set_filters([filter_condition, *(target.filters or [])])
        if packed_groupbys:
            group_by = packed_groupbys[0]
            columns = group_by if isinstance(group_by, list) else [group_by]
            target = target.set_groupby(columns + (target.groupby or []))
        return target

    def _filter(''')]),
("R64 mql printer locals", [("mql_visitor.py", '''        if query is None:
            raise InvalidMetricsQueryError("MetricQuery.query must not be None")
        elif isinstance(query, Formula):
            return self.formula_visitor.visit(query)
        elif isinstance(query, Timeseries):
            return self.timeseries_visitor.visit(query)
        else:
            query = parse_mql(query)
            return self._visit_query(query)
''', '''        if query is None:
            raise InvalidMetricsQueryError("MetricQuery.query must not be None")
        if not isinstance(query, (Formula, Timeseries)):
            query = parse_mql(query)
        if isinstance(query, Timeseries):
            return self.timeseries_visitor.visit(query)
        return self.formula_visitor.visit(query)
''')]),
]
