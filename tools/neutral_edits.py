"""Edits that keep the behaviour: (name, [(file, old, new)])."""
V, Q, C, F = "visitors.py", "query_visitors.py", "conditions.py", "function.py"
NEUTRAL = [
("N01 scalar escape helper", [(V, '''            decoded = (
                decoded.replace("\\\\", "\\\\\\\\")
                .replace(quote_char, f"\\\\{quote_char}")
                .replace("\\n", "\\\\n")
            )

            return f"{quote_char}{decoded}{quote_char}"
''', '''            return self._quote(decoded, quote_char)
'''), (V, '''    def _stringify_scalar(self, value: ScalarType) -> str:
''', '''    def _quote(self, text: str, quote_char: str) -> str:
        escaped = text.replace("\\\\", "\\\\\\\\")
        escaped = escaped.replace(quote_char, "\\\\" + quote_char)
        escaped = escaped.replace("\\n", "\\\\n")
        return quote_char + escaped + quote_char

    def _stringify_scalar(self, value: ScalarType) -> str:
''')]),
("N02 list/tuple branches merged", [(V, '''        elif isinstance(value, list):
            is_scalar(value)  # Throws on an invalid array
            prefix = "[" if self.is_mql else "array("
            suffix = "]" if self.is_mql else ")"
            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value])}{suffix}"
        elif isinstance(value, tuple):
            is_scalar(value)  # Throws on an invalid tuple
            prefix = "[" if self.is_mql else "tuple("
            suffix = "]" if self.is_mql else ")"
            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value])}{suffix}"
''', '''        elif isinstance(value, (list, tuple)):
            is_scalar(value)  # Throws on an invalid array
            items = ", ".join(map(self._stringify_scalar, value))
            if self.is_mql:
                return f"[{items}]"
            name = "array" if isinstance(value, list) else "tuple"
            return f"{name}({items})"
''')]),
("N03 function params comprehension", [(V, '''            params = []
            for param in func.parameters:
                if isinstance(
                    param, (Column, CurriedFunction, Function, Identifier, Lambda)
                ):
                    params.append(self.visit(param))
                elif is_scalar(param):
                    params.append(self._stringify_scalar(param))

            param_clause = f"({', '.join(params)})"
''', '''            nodes = (Column, CurriedFunction, Function, Identifier, Lambda)
            params = [
                self.visit(param)
                if isinstance(param, nodes)
                else self._stringify_scalar(param)
                for param in func.parameters
                if isinstance(param, nodes) or is_scalar(param)
            ]
            param_clause = "(" + ", ".join(params) + ")"
''')]),
("N04 sample helper", [(V, '''        sample_clause = ""
        if entity.sample is not None:
            if entity.sample % 1 == 0:
                sample_clause = f" SAMPLE {entity.sample:.1f}"
            else:
                sample_clause = f" SAMPLE {entity.sample:f}"
        return f"({alias_clause}''', '''        sample_clause = self._sample_clause(entity.sample)
        return f"({alias_clause}'''), (V, '''        sample_clause = ""
        if storage.sample is not None:
            if storage.sample % 1 == 0:
                sample_clause = f" SAMPLE {storage.sample:.1f}"
            else:
                sample_clause = f" SAMPLE {storage.sample:f}"
        return f"STORAGE''', '''        sample_clause = self._sample_clause(storage.sample)
        return f"STORAGE'''), (V, '''    def _visit_entity(self, entity: Entity) -> str:
        alias''', '''    def _sample_clause(self, sample: Any) -> str:
        if sample is None:
            return ""
        if sample % 1 == 0:
            return f" SAMPLE {sample:.1f}"
        return " SAMPLE {:f}".format(sample)

    def _visit_entity(self, entity: Entity) -> str:
        alias''')]),
("N05 condition rhs early return", [(V, '''        rhs = None
        if is_unary(cond.op):
            rhs = ""
        elif isinstance(cond.rhs, (Column, CurriedFunction, Function)):
            rhs = f" {self.visit(cond.rhs)}"
        elif is_scalar(cond.rhs):
            rhs = f" {self._stringify_scalar(cond.rhs)}"

        assert rhs is not None
        return f"{self.visit(cond.lhs)} {cond.op.value}{rhs}"
''', '''        lhs = self.visit(cond.lhs)
        if is_unary(cond.op):
            return f"{lhs} {cond.op.value}"
        if isinstance(cond.rhs, (Column, CurriedFunction)):
            return f"{lhs} {cond.op.value} {self.visit(cond.rhs)}"

        assert is_scalar(cond.rhs)
        return " ".join([lhs, cond.op.value, self._stringify_scalar(cond.rhs)])
''')]),
("N06 clause helper in printer", [(Q, '''        if select:
            return f"SELECT {', '.join(self.translator.visit(s) for s in select)}"
        return ""
''', '''        return self._clause("SELECT", ", ", select)
'''), (Q, '''        if where:
            return f"WHERE {' AND '.join(self.translator.visit(w) for w in where)}"
        return ""
''', '''        return self._clause("WHERE", " AND ", where)
'''), (Q, '''    def _visit_match(self, match: Union[Entity, Storage, Join, main.Query]) -> str:
''', '''    def _clause(self, keyword: str, sep: str, items: Any) -> str:
        if not items:
            return ""
        rendered = []
        for item in items:
            rendered.append(self.translator.visit(item))
        return keyword + " " + sep.join(rendered)

    def _visit_match(self, match: Union[Entity, Storage, Join, main.Query]) -> str:
''')]),
("N07 combine loop", [(Q, '''        formatted = separator.join([returns[c] for c in clause_order if returns[c]])

        if self.pretty and not self.is_inner:
            prefix = ""
            formatted = f"{prefix}{formatted}"

        return formatted
''', '''        clauses = []
        for name in clause_order:
            clause = returns[name]
            if not clause:
                continue
            clauses.append(clause)
        return separator.join(clauses)
''')]),
("N08 visitor dict comprehension", [(Q, '''        fields = query.get_fields()
        returns = {}
        for field in fields:
            returns[field] = getattr(self, f"_visit_{field}")(getattr(query, field))

        return self._combine(query, returns)
''', '''        returns = {
            field: getattr(self, "_visit_" + field)(getattr(query, field))
            for field in query.get_fields()
        }
        return self._combine(query, returns)
''')]),
("N09 is_aggregate any", [(Q, '''    if function.parameters is not None:
        for param in function.parameters:
            if param == column:
                return True
            elif isinstance(
                param, (Function, CurriedFunction)
            ) and find_column_in_function(column, param):
                return True

    return False
''', '''    return any(
        param == column
        or (
            isinstance(param, CurriedFunction)
            and find_column_in_function(column, param)
        )
        for param in function.parameters or ()
    )
''')]),
("N10 finder found.update", [(V, '''        found = set()
        if func.initializers is not None:
            for initer in func.initializers:
                found |= self.visit(initer)

        if func.parameters is not None:
            for param in func.parameters:
                found |= self.visit(param)

        return found
''', '''        found: set[Expression] = set()
        for part in [*(func.initializers or []), *(func.parameters or [])]:
            found.update(self.visit(part))
        return found
''')]),
("N11 limitby union loop", [(V, '''        return set.union(*[self.visit(column) for column in limitby.columns])
''', '''        found: set[Expression] = set()
        for column in limitby.columns:
            found = found | self.visit(column)
        return found
''')]),
("N12 join aliases comprehension", [("relationships.py", '''        aliases = set()
        for rel in self.relationships:
            if rel.lhs.alias is not None:
                aliases.add((rel.lhs.alias, rel.lhs.name))
            if rel.rhs.alias is not None:
                aliases.add((rel.rhs.alias, rel.rhs.name))

        return aliases
''', '''        return {
            (entity.alias, entity.name)
            for rel in self.relationships
            for entity in (rel.lhs, rel.rhs)
            if entity.alias is not None
        }
''')]),
("N13 join validate setdefault", [("relationships.py", '''            if alias in seen and seen[alias] != entity:
                entities = sorted([entity, seen[alias]])
                raise InvalidExpressionError(
                    f"alias '{alias}' is duplicated for entities {', '.join(entities)}"
                )
            seen[alias] = entity
''', '''            other = seen.setdefault(alias, entity)
            if other != entity:
                entities = sorted([entity, other])
                raise InvalidExpressionError(
                    f"alias '{alias}' is duplicated for entities {', '.join(entities)}"
                )
''')]),
("N14 flatten extend", [(C, '''            top_level = get_first_level_and_conditions(cond.conditions)
            flattened += [*top_level]
''', '''            flattened.extend(get_first_level_and_conditions(cond.conditions))
''')]),
("N15 boolean validate reorder", [(C, '''        for con in self.conditions:
            if not isinstance(con, (Condition, BooleanCondition)):
                raise InvalidConditionError(
                    f"invalid boolean: {con} is not a valid condition"
                )
''', '''        invalid = [
            con
            for con in self.conditions
            if not isinstance(con, (Condition, BooleanCondition))
        ]
        if invalid:
            raise InvalidConditionError(
                f"invalid boolean: {invalid[0]} is not a valid condition"
            )
''')]),
("N16 function validate split", [(F, '''        if self.alias is not None:
            if not isinstance(self.alias, str) or self.alias == "":
                raise InvalidFunctionError(
                    f"alias '{self.alias}' of function {self.function} must be None or a non-empty string"
                )
            if not ALIAS_RE.match(self.alias):
                raise InvalidFunctionError(
                    f"alias '{self.alias}' of function {self.function} contains invalid characters"
                )

''', '''        self._validate_alias()

'''), (F, '''    def validate(self) -> None:
        if not isinstance(self.function, str):
''', '''    def _validate_alias(self) -> None:
        alias = self.alias
        if alias is None:
            return
        if not (isinstance(alias, str) and alias):
            raise InvalidFunctionError(
                f"alias '{alias}' of function {self.function} must be None or a non-empty string"
            )
        elif ALIAS_RE.match(alias) is None:
            raise InvalidFunctionError(
                f"alias '{alias}' of function {self.function} contains invalid characters"
            )

    def validate(self) -> None:
        if not isinstance(self.function, str):
''')]),
("N17 required columns comprehension", [("query_validation.py", '''    not_matched = set(range(len(required_conditions)))
    for i, match in enumerate(required_conditions):
        if i not in not_matched:
            continue

        ops, col_to_match = match
        if _matching_condition_exists(ops, col_to_match, top_level, entity.alias):
            not_matched.remove(i)

    if not_matched:
        entity_alias = f"{entity.alias}." if entity.alias else ""
        missing = sorted(
            [f"'{entity_alias}{required_conditions[i][1].name}'" for i in not_matched]
        )
''', '''    not_matched = [
        column
        for ops, column in required_conditions
        if not _matching_condition_exists(ops, column, top_level, entity.alias)
    ]

    if not_matched:
        entity_alias = f"{entity.alias}." if entity.alias else ""
        missing = sorted(
            [f"'{entity_alias}{column.name}'" for column in not_matched]
        )
''')]),
("N18 missing ops list", [("query_validation.py", '''    ops = {Op.GTE, Op.LT}
    missing_ops = set()
    for op in ops:
        if not _matching_condition_exists(
            {op}, schema.required_time_column, top_level, entity.alias
        ):
            missing_ops.add(op)
''', '''    missing_ops = [
        op
        for op in (Op.GTE, Op.LT)
        if not _matching_condition_exists(
            {op}, schema.required_time_column, top_level, entity.alias
        )
    ]
''')]),
("N19 optimizer rewritten", [("query_optimizers/or_optimizer.py", '''        curr = cond.conditions[0]
        if not isinstance(curr, Condition) or curr.op != Op.EQ:
            # can't be optimized
            return None
        shared_lhs = curr.lhs
        rhsides = [curr.rhs]
        for i in range(1, len(cond.conditions)):
            curr = cond.conditions[i]
            if (
                not isinstance(curr, Condition)
                or curr.op != Op.EQ
                or (shared_lhs and curr.lhs != shared_lhs)
            ):
                # can't be optimized
                return None
            rhsides += [curr.rhs]
        return Condition(shared_lhs, Op.IN, rhsides)  # type: ignore
''', '''        first = cond.conditions[0]
        if not isinstance(first, Condition) or first.op != Op.EQ:
            # can't be optimized
            return None
        rhsides = []
        for curr in cond.conditions:
            if not isinstance(curr, Condition) or curr.op != Op.EQ:
                return None
            if curr.lhs != first.lhs:
                return None
            rhsides.append(curr.rhs)
        return Condition(first.lhs, Op.IN, rhsides)  # type: ignore
''')]),
("N20 optimize any", [("query_optimizers/or_optimizer.py", '''        optimized = False
        new_filters = []
        for cond in condition_group:
            res = self._optimize_condition(cond)

            if res is not None:
                optimized = True
                new_filters.append(res)
            else:
                new_filters.append(cond)

        if optimized:
            return new_filters
        return None
''', '''        results = [self._optimize_condition(cond) for cond in condition_group]
        if all(res is None for res in results):
            return None
        return [
            cond if res is None else res
            for cond, res in zip(condition_group, results)
        ]
''')]),
("N21 subquery names comprehension", [("query_validation.py", '''        if isinstance(s, CurriedFunction):
            inner_column_names.add(s.alias)
        elif isinstance(s, AliasedExpression):
            inner_column_names.add(s.alias if s.alias is not None else s.exp.name)
        elif isinstance(s, Column):
            inner_column_names.add(s.name)
''', '''        if isinstance(s, Column):
            inner_column_names.add(s.name)
        elif isinstance(s, AliasedExpression):
            if s.alias is None:
                inner_column_names.add(s.exp.name)
            else:
                inner_column_names.add(s.alias)
        elif isinstance(s, CurriedFunction):
            inner_column_names.add(s.alias)
''')]),
("N22 consistency recursion", [("formula.py", '''        stack: list[FormulaParameterGroup] = [self]
        while stack:
            param = stack.pop()
            if isinstance(param, Formula):
                if param.groupby is not None:
                    groupbys.add(tuple(param.groupby))

                if param.parameters:
                    stack.extend(param.parameters)
            elif isinstance(param, Timeseries):
                has_timeseries = True
                if param.groupby is not None:
                    groupbys.add(tuple(param.groupby))
''', '''        stack: list[FormulaParameterGroup] = [self]
        while len(stack) > 0:
            param = stack.pop()
            if not isinstance(param, (Formula, Timeseries)):
                continue
            if isinstance(param, Timeseries):
                has_timeseries = True
            elif param.parameters:
                stack += param.parameters
            if param.groupby is not None:
                groupbys.add(tuple(param.groupby))
''')]),
("N23 mql filters walrus", [("metrics_visitors.py", '''    conditions = []
    if filters is not None:
        for c in filters:
            if isinstance(c, Condition):
                conditions.append(expression_visitor._visit_condition_mql(c))
            elif isinstance(c, BooleanCondition):
                conditions.append(expression_visitor._visit_boolean_condition_mql(c))
        # We use by default the `AND` operator as joint operator for printing top level conditions.
        return "{" + " AND ".join(conditions) + "}"
    return ""
''', '''    if filters is None:
        return ""

    def render(c: Any) -> str:
        if isinstance(c, Condition):
            return expression_visitor._visit_condition_mql(c)
        return expression_visitor._visit_boolean_condition_mql(c)

    # We use by default the `AND` operator as joint operator for printing top level conditions.
    joined = " AND ".join(
        render(c) for c in filters if isinstance(c, (Condition, BooleanCondition))
    )
    return f"{{{joined}}}"
''')]),
("N24 formula printer", [("metrics_visitors.py", '''        param_strings = []
        for p in parameters:
            if isinstance(p, str):
                param_strings.append(p)
        if formula.function_name in PREFIX_TO_INFIX:
            separator = f" {PREFIX_TO_INFIX[formula.function_name]} "
            mql_string = f"({separator.join(param_strings)})"
        else:
            mql_string = (
                f"{PREFIX_ALIASES.get(formula.function_name) or formula.function_name}"
                f"{self._visit_aggregate_params(formula.aggregate_params)}({', '.join(param_strings)})"
            )

        mql_string += f"{self._visit_filters(formula.filters)}"
        mql_string += f"{self._visit_groupby(formula.groupby)}"

        return mql_string
''', '''        infix = PREFIX_TO_INFIX.get(formula.function_name)
        if infix is not None:
            head = "(" + f" {infix} ".join(parameters) + ")"
        else:
            name = PREFIX_ALIASES.get(formula.function_name, formula.function_name)
            args = self._visit_aggregate_params(formula.aggregate_params)
            head = f"{name}{args}({', '.join(parameters)})"

        return (
            head
            + self._visit_filters(formula.filters)
            + self._visit_groupby(formula.groupby)
        )
''')]),
("N25 rollup validate reorder", [("timeseries.py", '''        if self.totals is not None:
            if not isinstance(self.totals, bool):
                raise InvalidExpressionError("totals must be a boolean")

        if self.interval is None and self.totals is None:
            raise InvalidExpressionError(
                "Rollup must have at least one of interval or totals"
            )
''', '''        if self.totals is None:
            if self.interval is None:
                raise InvalidExpressionError(
                    "Rollup must have at least one of interval or totals"
                )
        elif not isinstance(self.totals, bool):
            raise InvalidExpressionError("totals must be a boolean")
''')]),
("N26 timeseries list helper", [("timeseries.py", '''            for f in self.filters:
                if not isinstance(f, (Condition, BooleanCondition)):
                    raise InvalidTimeseriesError("filters must be a list of Conditions")
''', '''            if not all(isinstance(f, (Condition, BooleanCondition)) for f in self.filters):
                raise InvalidTimeseriesError("filters must be a list of Conditions")
'''), ("timeseries.py", '''            for g in self.groupby:
                if not isinstance(g, (Column, AliasedExpression)):
                    raise''', '''            for i in range(len(self.groupby)):
                g = self.groupby[i]
                if not isinstance(g, (Column, AliasedExpression)):
                    raise''')]),
("N27 request dict built stepwise", [("request.py", '''        ret: dict[str, object] = {
            **flags,
            "query": query,
            "dataset": self.dataset,
            "app_id": self.app_id,
            "tenant_ids": self.tenant_ids,
            "parent_api": self.parent_api,
        }
        if mql_context is not None:
''', '''        ret: dict[str, object] = dict(flags)
        ret.update(query=query, dataset=self.dataset)
        for name in ("app_id", "tenant_ids", "parent_api"):
            ret[name] = getattr(self, name)
        if mql_context is not None:
''')]),
("N28 flags loop", [("request.py", '''        values = asdict(self)
        return {f: v for f, v in values.items() if v is not None}
''', '''        out: dict[str, bool] = {}
        for ff in fields(self):
            value = getattr(self, ff.name)
            if value is not None:
                out[ff.name] = value
        return out
''')]),
("N29 mql printer locals", [("mql_visitor.py", '''        assert isinstance(returns["query"], str)  # mypy
        mql_string = returns["query"]
        mql_context = MQLContext(
            start=returns["start"],
            end=returns["end"],
            rollup=returns["rollup"],
            scope=returns["scope"],
            limit=returns["limit"],
            offset=returns["offset"],
            extrapolate=returns["extrapolate"],
            indexer_mappings=returns["indexer_mappings"],
        )
''', '''        mql_string = returns["query"]
        assert isinstance(mql_string, str)  # mypy
        names = ("start", "end", "rollup", "scope", "limit", "offset", "extrapolate", "indexer_mappings")
        mql_context = MQLContext(**{name: returns[name] for name in names})
''')]),
("N30 column partition", [("column.py", '''            subscriptable, key = self.name.split("[", 1)
            key = key.strip("]")
            super().__setattr__("subscriptable", subscriptable)
            super().__setattr__("key", key)
''', '''            subscriptable, _, key = self.name.partition("[")
            key = key.strip("]")
            for name, value in (("subscriptable", subscriptable), ("key", key)):
                super().__setattr__(name, value)
''')]),
("N31 legacy conditions helper", [("legacy.py", '''    for cond in body.get("conditions", []):
        if not is_condition(cond):
            or_conditions = []
            for or_cond in cond:
                or_conditions.append(parse_condition(or_cond))

            if len(or_conditions) > 1:
                conditions.append(Or(or_conditions))
            else:
                conditions.extend(or_conditions)
        else:
            conditions.append(parse_condition(cond))

''', '''    conditions.extend(_parse_condition_list(body.get("conditions", [])))
'''), ("legacy.py", '''def json_to_snql(''', '''def _parse_condition_list(conds: Sequence[Any]) -> list[Union[Or, Condition]]:
    parsed: list[Union[Or, Condition]] = []
    for cond in conds:
        if is_condition(cond):
            parsed.append(parse_condition(cond))
            continue
        alternatives = [parse_condition(c) for c in cond]
        parsed += [Or(alternatives)] if len(alternatives) > 1 else alternatives
    return parsed


def json_to_snql(''')]),
("N32 list_type loop", [("expressions.py", '''    return isinstance(vals, list) and all(
        isinstance(v, tuple(type_classes)) for v in vals
    )
''', '''    if not isinstance(vals, list):
        return False
    classes = tuple(type_classes)
    for v in vals:
        if not isinstance(v, classes):
            return False
    return True
''')]),
("N33 is_scalar loop", [("expressions.py", '''    elif isinstance(value, (tuple, list)):
        if not all(is_scalar(v) or isinstance(v, Expression) for v in value):
            raise InvalidExpressionError("tuple/array must contain only scalar values")
        return True

    return False
''', '''    if not isinstance(value, (tuple, list)):
        return False
    for v in value:
        if not (is_scalar(v) or isinstance(v, Expression)):
            raise InvalidExpressionError("tuple/array must contain only scalar values")
    return True
''')]),
("N34 no-op statements", [(V, '''    def _visit_column(self, column: Column) -> str:
        entity''', '''    def _visit_column(self, column: Column) -> str:
        pass
        _unused = None
        if False:
            raise RuntimeError
        assert True
        entity'''), ("legacy.py", '''    sample = body.get("sample")
''', '''    None
    sample = body.get("sample")
'''), ("timeseries.py", '''        if not isinstance(self.metric, Metric):
''', '''        del_me = 0
        del del_me
        ...
        for _ in ():
            pass
        if not isinstance(self.metric, Metric):
''')]),
("N35 context manager try/finally", [(V, '''    translator.use_entity_aliases = True
    yield
    translator.use_entity_aliases = False
''', '''    translator.use_entity_aliases = True
    try:
        yield
    finally:
        translator.use_entity_aliases = False
''')]),
("N36 entity validate combined", [("entity.py", '''        if self.sample is not None:
            if not isinstance(self.sample, float):
                raise InvalidEntityError("sample must be a float")
            elif self.sample <= 0.0:
                raise InvalidEntityError("samples must be greater than 0.0")
''', '''        sample = self.sample
        if sample is not None and not isinstance(sample, float):
            raise InvalidEntityError("sample must be a float")
        if sample is not None and not sample > 0.0 and not sample != sample:
            raise InvalidEntityError("samples must be greater than 0.0")
''')]),
("N37 int literal nested", [("expressions.py", '''    if minn is not None and literal < minn:
        raise InvalidExpressionError(f"{name} '{literal}' must be at least {minn:,}")
    elif maxn is not None and literal > maxn:
''', '''    if minn is not None:
        if not literal >= minn:
            raise InvalidExpressionError(f"{name} '{literal}' must be at least {minn:,}")
    if maxn is not None and maxn < literal:
''')]),
("N38 metrics setter generic", [("metrics_query.py", '''        if not isinstance(start, datetime):
            raise InvalidQueryError("start must be a datetime")
        return self._replace("start", start)
''', '''        self._check_type("start", start, datetime)
        return replace(self, start=start)
'''), ("metrics_query.py", '''    def set_query(self''', '''    @staticmethod
    def _check_type(name: str, value: Any, kind: type) -> None:
        if isinstance(value, kind):
            return
        raise InvalidQueryError(f"{name} must be a {kind.__name__}")

    def set_query(self''')]),
("N39 curried eq tuple", [(F, '''        return (
            self.function == other.function
            and self.initializers == other.initializers
            and self.parameters == other.parameters
        )
''', '''        if self.function != other.function:
            return False
        if self.initializers != other.initializers:
            return False
        return self.parameters == other.parameters
''')]),
("N40 visitor dispatch elif order", [(V, '''        elif isinstance(node, Identifier):
            return self._visit_identifier(node)
        elif isinstance(node, Lambda):
            return self._visit_lambda(node)
        elif isinstance(node, Entity):
            return self._visit_entity(node)
''', '''        elif isinstance(node, Entity):
            return self._visit_entity(node)
        if isinstance(node, Lambda):
            return self._visit_lambda(node)
        if isinstance(node, Identifier):
            return self._visit_identifier(node)
        if False:
            pass
''')]),
]
NEUTRAL += [
("M01 dispatch table visitor", [(V, '''    def _visit_orderby(self, orderby: OrderBy) -> str:
        return f"{self.visit(orderby.exp)} {orderby.direction.value}"
''', '''    def _visit_orderby(self, orderby: OrderBy) -> str:
        parts = (self.visit(orderby.exp), orderby.direction.value)
        return " ".join(parts)
''')]),
("M02 sample format ternary", [(V, '''        sample_clause = ""
        if storage.sample is not None:
            if storage.sample % 1 == 0:
                sample_clause = f" SAMPLE {storage.sample:.1f}"
            else:
                sample_clause = f" SAMPLE {storage.sample:f}"
        return f"STORAGE({storage.name}{sample_clause})"
''', '''        if storage.sample is None:
            return "STORAGE({})".format(storage.name)
        whole = storage.sample % 1 == 0
        sample = f"{storage.sample:.1f}" if whole else f"{storage.sample:f}"
        return "STORAGE(%s SAMPLE %s)" % (storage.name, sample)
''')]),
("M03 mql negation set", [(V, '''        op = ""
        if cond.op == Op.NEQ or cond.op == Op.NOT_IN or cond.op == Op.NOT_LIKE:
            op = "!"
        return f"{op}{self.visit(cond.lhs)}:{rhs}"
''', '''        negated = cond.op in {Op.NEQ, Op.NOT_IN, Op.NOT_LIKE}
        return ("!" if negated else "") + self.visit(cond.lhs) + ":" + rhs
''')]),
("M04 boolean mql generator", [(V, '''        conditions = []
        for c in cond.conditions:
            if isinstance(c, Condition):
                conditions.append(self._visit_condition_mql(c))
            elif isinstance(c, BooleanCondition):
                conditions.append(self._visit_boolean_condition_mql(c))
        op = cond.op.value
        conditions_with_op = f" {op} ".join(conditions)
        return f"({conditions_with_op})"
''', '''        def render(c):
            if isinstance(c, Condition):
                return self._visit_condition_mql(c)
            return self._visit_boolean_condition_mql(c)

        joined = f" {cond.op.value} ".join(render(c) for c in cond.conditions)
        return f"({joined})"
''')]),
("M05 finder comprehension union", [(V, '''        found = set()
        for c in cond.conditions:
            found |= self.visit(c)
        return found
''', '''        return {e for c in cond.conditions for e in self.visit(c)}
''')]),
("M06 finder generator of parts", [(V, '''        found = set()
        if func.initializers is not None:
            for initer in func.initializers:
                found |= self.visit(initer)

        if func.parameters is not None:
            for param in func.parameters:
                found |= self.visit(param)

        return found
''', '''        parts = [*(func.initializers or []), *(func.parameters or [])]
        found: set[Expression] = set()
        for part in parts:
            found.update(self.visit(part))
        return found
''')]),
("M07 finder itertools chain", [(V, '''        found: set[Expression] = set()
        if isinstance(value, (list, tuple)):
            for v in value:
                found |= self.visit(v)
        return found
''', '''        if not isinstance(value, (list, tuple)):
            return set()
        return set().union(*(self.visit(v) for v in value))
''')]),
("M08 printer clauses helper with names", [(Q, '''        if where:
            return f"WHERE {' AND '.join(self.translator.visit(w) for w in where)}"
        return ""
''', '''        return self._conditions("WHERE", where)
'''), (Q, '''        if having:
            return f"HAVING {' AND '.join(self.translator.visit(h) for h in having)}"
        return ""
''', '''        return self._conditions("HAVING", having)

    def _conditions(self, keyword: str, conditions: Optional[ConditionGroup]) -> str:
        if not conditions:
            return ""
        rendered = [self.translator.visit(c) for c in conditions]
        return keyword + " " + " AND ".join(rendered)
''')]),
("M09 printer combine filter", [(Q, '''        formatted = separator.join([returns[c] for c in clause_order if returns[c]])

        if self.pretty and not self.is_inner:
            prefix = ""
            formatted = f"{prefix}{formatted}"

        return formatted
''', '''        clauses = []
        for clause in clause_order:
            text = returns[clause]
            if not text:
                continue
            clauses.append(text)
        return separator.join(clauses)
''')]),
("M10 printer visit saved flag", [(Q, '''        if isinstance(query.match, Join):
            with entity_aliases(self.translator):
                return super().visit(query)

        return super().visit(query)
''', '''        if not isinstance(query.match, Join):
            return super().visit(query)
        with entity_aliases(self.translator):
            text = super().visit(query)
        return text
''')]),
("M11 searcher set comprehension", [(Q, '''        found = set()
        for ret in returns.values():
            found |= ret
        return found
''', '''        return {exp for ret in returns.values() for exp in ret}
''')]),
("M12 validator all loop helper", [(Q, '''        if query.select is None or len(query.select) == 0:
            raise InvalidQueryError("query must have at least one expression in select")

        if query.totals and query.totals.totals and not query.groupby:
            raise InvalidQueryError("totals is only valid with a groupby")
''', '''        if not query.select:
            raise InvalidQueryError("query must have at least one expression in select")

        wants_totals = query.totals is not None and query.totals.totals
        if wants_totals and (query.groupby is None or len(query.groupby) == 0):
            raise InvalidQueryError("totals is only valid with a groupby")
''')]),
("M13 subquery names helper", [("query_validation.py", '''    for c in all_columns:
        if isinstance(c, Column) and c.name not in inner_column_names:
            raise InvalidMatchError(
                f"outer query is referencing column '{c.name}' that does not exist in subquery"
            )
''', '''    unknown = [
        c.name
        for c in all_columns
        if isinstance(c, Column) and c.name not in inner_column_names
    ]
    if unknown:
        raise InvalidMatchError(
            f"outer query is referencing column '{unknown[0]}' that does not exist in subquery"
        )
''')]),
("M14 join mapping dict()", [("query_validation.py", '''    entity_aliases = {alias: entity for alias, entity in match.get_alias_mappings()}
    for c in all_columns:
        assert isinstance(c, Column)
        if c.entity is None:
            raise InvalidMatchError(f"column '{c.name}' must have a qualifying entity")
        elif c.entity.alias not in entity_aliases:
            raise InvalidMatchError(
                f"column '{c.name}' has unknown entity alias {c.entity.alias}"
            )
        elif entity_aliases[c.entity.alias] != c.entity.name:
''', '''    entity_aliases = dict(match.get_alias_mappings())
    for c in all_columns:
        assert isinstance(c, Column)
        entity = c.entity
        if entity is None:
            raise InvalidMatchError(f"column '{c.name}' must have a qualifying entity")
        known = entity_aliases.get(entity.alias)
        if known is None:
            raise InvalidMatchError(
                f"column '{c.name}' has unknown entity alias {c.entity.alias}"
            )
        if known != entity.name:
''')]),
("M15 storage and entity shared", [("query_validation.py", '''    for column in all_columns:
        assert isinstance(column, Column)
        column.validate_data_model(match)


def _validate_entity''', '''    _validate_columns(match, all_columns)


def _validate_columns(match: Union[Entity, Storage], all_columns: set[Expression]) -> None:
    for column in all_columns:
        assert isinstance(column, Column)
        column.validate_data_model(match)


def _validate_entity'''), ("query_validation.py", '''    :param match: The Entity of the query.
    :param all_columns: All the columns referenced in the query.
    """
    for column in all_columns:
        assert isinstance(column, Column)
        column.validate_data_model(match)
''', '''    :param match: The Entity of the query.
    :param all_columns: All the columns referenced in the query.
    """
    _validate_columns(match, all_columns)
'''), ("query_validation.py", "from typing import Optional\n", "from typing import Optional, Union\n")]),
("M16 matching condition any", [("query_validation.py", '''    for cond in top_level_conditions:
        if (
            isinstance(cond, Condition)
            and isinstance(cond.lhs, Column)
            and (cond.lhs.entity is None or cond.lhs.entity.alias == entity_alias)
            and cond.lhs.name == col_to_match.name
            and cond.op in ops
        ):
            return True

    return False
''', '''    def matches(cond: object) -> bool:
        if not isinstance(cond, Condition) or not isinstance(cond.lhs, Column):
            return False
        column = cond.lhs
        if column.entity is not None and column.entity.alias != entity_alias:
            return False
        return column.name == col_to_match.name and cond.op in ops

    return any(matches(cond) for cond in top_level_conditions)
''')]),
("M17 required subquery loop", [("query_validation.py", '''    if isinstance(query.match, main.Query):
        validate_required_columns(query.match)
    elif isinstance(query.match, Entity):
''', '''    if isinstance(query.match, main.Query):
        return validate_required_columns(query.match)
    if isinstance(query.match, Entity):
''')]),
("M18 missing ops early raise order", [("query_validation.py", '''    missing_ops = set()
    for op in ops:
        if not _matching_condition_exists(
            {op}, schema.required_time_column, top_level, entity.alias
        ):
            missing_ops.add(op)
''', '''    missing_ops = {
        op
        for op in ops
        if not _matching_condition_exists(
            {op}, schema.required_time_column, top_level, entity.alias
        )
    }
''')]),
("M19 condition validate merged", [(C, '''        if is_unary(self.op):
            if self.rhs is not None:
                raise InvalidConditionError(
                    "invalid condition: unary operators don't have rhs conditions"
                )

        if not isinstance(
            self.rhs, (Column, CurriedFunction, Function)
        ) and not is_scalar(self.rhs):
''', '''        if is_unary(self.op) and self.rhs is not None:
            raise InvalidConditionError(
                "invalid condition: unary operators don't have rhs conditions"
            )

        rhs_is_expression = isinstance(self.rhs, CurriedFunction) or isinstance(
            self.rhs, Column
        )
        if not (rhs_is_expression or is_scalar(self.rhs)):
''')]),
("M20 flatten generator", [(C, '''    flattened = []
    for cond in conditions:
        if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND:
            top_level = get_first_level_and_conditions(cond.conditions)
            flattened += [*top_level]
        else:
            flattened.append(cond)

    return flattened
''', '''    return [
        nested
        for cond in conditions
        for nested in (
            get_first_level_and_conditions(cond.conditions)
            if isinstance(cond, BooleanCondition) and cond.op == BooleanOp.AND
            else [cond]
        )
    ]
''')]),
("M21 optimizer all + comprehension", [("query_optimizers/or_optimizer.py", '''        curr = cond.conditions[0]
        if not isinstance(curr, Condition) or curr.op != Op.EQ:
            # can't be optimized
            return None
        shared_lhs = curr.lhs
        rhsides = [curr.rhs]
        for i in range(1, len(cond.conditions)):
            curr = cond.conditions[i]
            if (
                not isinstance(curr, Condition)
                or curr.op != Op.EQ
                or (shared_lhs and curr.lhs != shared_lhs)
            ):
                # can't be optimized
                return None
            rhsides += [curr.rhs]
        return Condition(shared_lhs, Op.IN, rhsides)  # type: ignore
''', '''        first, *others = cond.conditions
        if not isinstance(first, Condition) or first.op != Op.EQ:
            return None
        for other in others:
            if not isinstance(other, Condition) or other.op != Op.EQ:
                return None
            if other.lhs != first.lhs:
                return None
        return Condition(first.lhs, Op.IN, [c.rhs for c in cond.conditions])  # type: ignore
''')]),
("M22 optimizer enumerate slice", [("query_optimizers/or_optimizer.py", '''        for i in range(1, len(cond.conditions)):
            curr = cond.conditions[i]
            if (
''', '''        for curr in cond.conditions[1:]:
            if (
''')]),
("M23 optimize or-default", [("query_optimizers/or_optimizer.py", '''            res = self._optimize_condition(cond)

            if res is not None:
                optimized = True
                new_filters.append(res)
            else:
                new_filters.append(cond)

        if optimized:
            return new_filters
        return None
''', '''            res = self._optimize_condition(cond)
            optimized = optimized or res is not None
            new_filters.append(cond if res is None else res)

        return new_filters if optimized else None
''')]),
("M24 relationship validate loop", [("relationships.py", '''        valid_entity(self.lhs)
        valid_entity(self.rhs)
''', '''        for side in (self.lhs, self.rhs):
            valid_entity(side)
''')]),
("M25 join entities comprehension", [("relationships.py", '''        entities = set()
        for rel in self.relationships:
            entities.add(rel.lhs)
            entities.add(rel.rhs)
        return entities
''', '''        return {e for rel in self.relationships for e in (rel.lhs, rel.rhs)}
''')]),
("M26 join validate get", [("relationships.py", '''        for alias, entity in self.get_alias_mappings():
            if alias in seen and seen[alias] != entity:
                entities = sorted([entity, seen[alias]])
''', '''        for alias, entity in self.get_alias_mappings():
            other = seen.get(alias, entity)
            if other != entity:
                entities = sorted([entity, other])
''')]),
("M27 formula recursion helper", [("formula.py", '''        groupbys = set()
        has_timeseries = False

        stack: list[FormulaParameterGroup] = [self]
        while stack:
            param = stack.pop()
            if isinstance(param, Formula):
                if param.groupby is not None:
                    groupbys.add(tuple(param.groupby))

                if param.parameters:
                    stack.extend(param.parameters)
            elif isinstance(param, Timeseries):
                has_timeseries = True
                if param.groupby is not None:
                    groupbys.add(tuple(param.groupby))
''', '''        groupbys = set()
        has_timeseries = False

        stack: list[FormulaParameterGroup] = [self]
        while len(stack) > 0:
            param = stack.pop()
            if not isinstance(param, (Formula, Timeseries)):
                continue
            if param.groupby is not None:
                groupbys.add(tuple(param.groupby))
            if isinstance(param, Timeseries):
                has_timeseries = True
            else:
                for p in param.parameters or []:
                    stack.append(p)
''')]),
("M28 formula validate any", [("formula.py", '''        for param in self.parameters:
            if not isinstance(param, tuple(FormulaParameter)):
                raise InvalidFormulaError(
                    f"parameter '{param}' of formula {self.function_name} is an invalid type"
                )
        self''', '''        allowed = tuple(FormulaParameter)
        bad = [param for param in self.parameters if not isinstance(param, allowed)]
        if bad:
            raise InvalidFormulaError(
                f"parameter '{bad[0]}' of formula {self.function_name} is an invalid type"
            )
        self''')]),
("M29 mql filters list comp", [("metrics_visitors.py", '''    conditions = []
    if filters is not None:
        for c in filters:
            if isinstance(c, Condition):
                conditions.append(expression_visitor._visit_condition_mql(c))
            elif isinstance(c, BooleanCondition):
                conditions.append(expression_visitor._visit_boolean_condition_mql(c))
        # We use by default the `AND` operator as joint operator for printing top level conditions.
        return "{" + " AND ".join(conditions) + "}"
    return ""
''', '''    if filters is None:
        return ""
    conditions = [
        expression_visitor._visit_condition_mql(c)
        if isinstance(c, Condition)
        else expression_visitor._visit_boolean_condition_mql(c)
        for c in filters
    ]
    return "{%s}" % " AND ".join(conditions)
''')]),
("M30 timeseries visitor explicit", [("metrics_visitors.py", '''        fields = timeseries.get_fields()
        returns = {}
        for field in fields:
            if field == "aggregate_params":
                continue
            elif field == "aggregate":
                returns[field] = self._visit_aggregate(
                    getattr(timeseries, field), timeseries.aggregate_params
                )
            else:
                returns[field] = getattr(self, f"_visit_{field}")(
                    getattr(timeseries, field)
                )

        return self._combine(timeseries, returns)
''', '''        returns = {
            "metric": self._visit_metric(timeseries.metric),
            "aggregate": self._visit_aggregate(
                timeseries.aggregate, timeseries.aggregate_params
            ),
            "filters": self._visit_filters(timeseries.filters),
            "groupby": self._visit_groupby(timeseries.groupby),
        }
        return self._combine(timeseries, returns)
''')]),
("M31 formula printer parts", [("metrics_visitors.py", '''        mql_string += f"{self._visit_filters(formula.filters)}"
        mql_string += f"{self._visit_groupby(formula.groupby)}"

        return mql_string
''', '''        filters = self._visit_filters(formula.filters)
        groupby = self._visit_groupby(formula.groupby)
        return "".join((mql_string, filters, groupby))
''')]),
("M32 rollup dict stepwise", [("metrics_visitors.py", '''        return {
            "orderby": rollup.orderby.value if rollup.orderby else None,
            "granularity": rollup.granularity,
            "interval": rollup.interval,
            "with_totals": str(rollup.totals) if rollup.totals is not None else None,
        }
''', '''        context: dict[str, str | int | None] = dict(
            orderby=None, granularity=rollup.granularity, interval=rollup.interval
        )
        if rollup.orderby is not None:
            context["orderby"] = rollup.orderby.value
        context["with_totals"] = None if rollup.totals is None else str(rollup.totals)
        return context
''')]),
("M33 flags validate any", [("request.py", '''        flags_fields = fields(self)
        for ff in flags_fields:
            flag = getattr(self, ff.name)
            if flag is not None and not isinstance(flag, bool):
                raise InvalidFlagError(f"{ff.name} must be a boolean")
''', '''        for name in (f.name for f in fields(self)):
            flag = getattr(self, name)
            if not (flag is None or isinstance(flag, bool)):
                raise InvalidFlagError(f"{name} must be a boolean")
''')]),
("M34 request to_dict split", [("request.py", '''        elif isinstance(self.query, DeleteQuery):
            """
            for a DeleteQuery, the query is not a snql/mql string,
            it is a dict
            """
            return {
                **flags,
                "query": self.query.serialize(),
                "app_id": self.app_id,
                "tenant_ids": self.tenant_ids,
                "parent_api": self.parent_api,
            }
        else:
            query = str(self.query.serialize())

        ret: dict[str, object] = {
            **flags,
            "query": query,
            "dataset": self.dataset,
            "app_id": self.app_id,
            "tenant_ids": self.tenant_ids,
            "parent_api": self.parent_api,
        }
        if mql_context is not None:
            ret["mql_context"] = mql_context
        return ret
''', '''        elif isinstance(self.query, DeleteQuery):
            return self._body(flags, self.query.serialize())
        else:
            query = str(self.query.serialize())

        ret = self._body(flags, query)
        ret["dataset"] = self.dataset
        if mql_context is not None:
            ret.update({"mql_context": mql_context})
        return ret

    def _body(self, flags: dict[str, bool], query: object) -> dict[str, object]:
        body: dict[str, object] = dict(flags)
        body["query"] = query
        for name in ("app_id", "tenant_ids", "parent_api"):
            body[name] = getattr(self, name)
        return body
''')]),
("M35 metric validate any None", [("timeseries.py", '''        if all(v is None for v in (self.public_name, self.mri)):
            raise''', '''        if self.public_name is None and self.mri is None:
            raise''')]),
("M36 timeseries all()", [("timeseries.py", '''            for p in self.aggregate_params:
                if not is_literal(p):
                    raise InvalidTimeseriesError(
                        "aggregate_params can only be literal types"
                    )
''', '''            if not all(map(is_literal, self.aggregate_params)):
                raise InvalidTimeseriesError(
                    "aggregate_params can only be literal types"
                )
''')]),
("M37 rollup elif", [("timeseries.py", '''        if self.interval is None and self.totals is None:
            raise InvalidExpressionError(
                "Rollup must have at least one of interval or totals"
            )

        if self.orderby is not None:
            if not isinstance(self.orderby, Direction):
                raise InvalidExpressionError("orderby must be a Direction object")

        if self.interval is not None and self.orderby is not None:
            raise InvalidExpressionError(
                "Timeseries queries can't be ordered when using interval"
            )
''', '''        if (self.interval, self.totals) == (None, None):
            raise InvalidExpressionError(
                "Rollup must have at least one of interval or totals"
            )

        if self.orderby is None:
            return
        if not isinstance(self.orderby, Direction):
            raise InvalidExpressionError("orderby must be a Direction object")
        if self.interval is not None:
            raise InvalidExpressionError(
                "Timeseries queries can't be ordered when using interval"
            )
''')]),
("M38 query optimize inline", [("query.py", '''        if self.where is not None:
            new_where = OrOptimizer().optimize(self.where)
            if new_where is not None:
                return replace(self, where=new_where)
        return self
''', '''        new_where = None if self.where is None else OrOptimizer().optimize(self.where)
        return self if new_where is None else self._replace("where", new_where)
''')]),
("M39 query setter check helper", [("query.py", '''        if not list_type(conditions, (BooleanCondition, Condition)):
            raise InvalidQueryError("where clause must be a list of conditions")
        return self._replace("where", conditions)
''', '''        return self._set_conditions("where", conditions)
'''), ("query.py", '''        if not list_type(conditions, (BooleanCondition, Condition)):
            raise InvalidQueryError("having clause must be a list of conditions")
        return self._replace("having", conditions)
''', '''        return self._set_conditions("having", conditions)

    def _set_conditions(self, clause: str, conditions: ConditionGroup) -> Query:
        if not list_type(conditions, (BooleanCondition, Condition)):
            raise InvalidQueryError(f"{clause} clause must be a list of conditions")
        return self._replace(clause, conditions)
''')]),
("M40 function validate local allowed", [(F, '''            for param in self.parameters:
                if not isinstance(
                    param,
                    (Column, CurriedFunction, Function, Identifier, Lambda),
                ) and not is_scalar(param):
                    assert not isinstance(param, bytes)  # mypy
                    raise InvalidFunctionError(
                        f"parameter '{param}' of function {self.function} is an invalid type"
                    )
''', '''            self._validate_parameters(self.parameters)

    def _validate_parameters(self, parameters: Sequence[Any]) -> None:
        for param in parameters:
            if isinstance(param, (Column, CurriedFunction, Identifier, Lambda)):
                continue
            if is_scalar(param):
                continue
            raise InvalidFunctionError(
                f"parameter '{param}' of function {self.function} is an invalid type"
            )
'''), (F, "from typing import Optional, Sequence, Union\n", "from typing import Any, Optional, Sequence, Union\n")]),
]

from neutral_edits3 import THIRD  # noqa: E402
NEUTRAL += THIRD
from neutral_edits4 import FOURTH  # noqa: E402
from neutral_edits5 import EDITS5  # noqa: E402
NEUTRAL += FOURTH + EDITS5
