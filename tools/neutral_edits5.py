"""Fifth corpus of edits that keep the behaviour: heavier restructurings (tables, match statements, mappings, index loops)."""
V, Q, QV, OO = "visitors.py", "query_visitors.py", "query_validation.py", "query_optimizers/or_optimizer.py"
MV, L, MQ, RQ, DQ, TS, FM = "metrics_visitors.py", "legacy.py", "mql/mql.py", "request.py", "delete_query.py", "timeseries.py", "formula.py"
MQV, MP, CO, RE, FN, QU = "metrics_query_visitors.py", "mql_visitor.py", "conditions.py", "relationships.py", "function.py", "query.py"
EDITS5 = [
("S01 delete columns copied by comprehension", [(DQ, '''        return {"columns": self.column_conditions}
''', '''        columns = {col: values for col, values in self.column_conditions.items()}
        return {"columns": columns}
''')]),
("S02 delete columns loop", [(DQ, '''        return {"columns": self.column_conditions}
''', '''        columns = {}
        for col in self.column_conditions:
            columns[col] = self.column_conditions[col]
        return dict(columns=columns)
''')]),
("S03 delete values copied", [(DQ, '''        return {"columns": self.column_conditions}
''', '''        return {"columns": {c: list(v) for c, v in self.column_conditions.items()}}
''')]),
("S04 delete validate any/not", [(DQ, '''        if self.column_conditions == {}:
''', '''        if not self.column_conditions:
'''), (DQ, '''            if len(values) == 0:
''', '''            if not len(values):
''')]),
("S05 tenant ids copied", [(RQ, '''            "query": query,
            "dataset": self.dataset,
            "app_id": self.app_id,
            "tenant_ids": self.tenant_ids,
''', '''            "query": query,
            "dataset": self.dataset,
            "app_id": self.app_id,
            "tenant_ids": dict(self.tenant_ids),
''')]),
("S06 request body via common part", [(RQ, '''            return {
                **flags,
                "query": self.query.serialize(),
                "app_id": self.app_id,
                "tenant_ids": self.tenant_ids,
                "parent_api": self.parent_api,
            }
''', '''            body: dict[str, object] = {**flags, "query": self.query.serialize()}
            for key in ("app_id", "tenant_ids", "parent_api"):
                body[key] = getattr(self, key)
            return body
''')]),
("S07 request context popped", [(RQ, '''        if mql_context is not None:
            ret["mql_context"] = mql_context
        return ret
''', '''        return ret if mql_context is None else {**ret, "mql_context": mql_context}
''')]),
("S08 visitor dispatch table", [(V, '''        elif isinstance(node, Limit):
            return self._visit_int_literal(node.limit)
        elif isinstance(node, Offset):
            return self._visit_int_literal(node.offset)
        elif isinstance(node, LimitBy):
            return self._visit_limitby(node)
        elif isinstance(node, Granularity):
            return self._visit_int_literal(node.granularity)
''', '''        elif isinstance(node, (Limit, Offset, Granularity)):
            literals = {Limit: "limit", Offset: "offset", Granularity: "granularity"}
            return self._visit_int_literal(getattr(node, literals[type(node)]))
        elif isinstance(node, LimitBy):
            return self._visit_limitby(node)
''')]),
("S09 visitor method name table", [(V, '''        elif isinstance(node, Identifier):
            return self._visit_identifier(node)
        elif isinstance(node, Lambda):
            return self._visit_lambda(node)
        elif isinstance(node, Entity):
            return self._visit_entity(node)
        elif isinstance(node, Storage):
            return self._visit_storage(node)
''', '''        for kind, name in (
            (Identifier, "identifier"),
            (Lambda, "lambda"),
            (Entity, "entity"),
            (Storage, "storage"),
        ):
            if isinstance(node, kind):
                return getattr(self, f"_visit_{name}")(node)
        if False:
            pass
''')]),
("S10 scalar match on type", [(V, '''        if value is None:
            return "NULL"
        elif isinstance(value, bool):
            return "TRUE" if value else "FALSE"
        if isinstance(value, (str, bytes)):
''', '''        constants = {None: "NULL", True: "TRUE", False: "FALSE"}
        if value is None or isinstance(value, bool):
            return constants[value]
        if isinstance(value, (str, bytes)):
''')]),
("S11 brackets helper", [(V, '''            is_scalar(value)  # Throws on an invalid array
            prefix = "[" if self.is_mql else "array("
            suffix = "]" if self.is_mql else ")"
            return f"{prefix}{', '.join([self._stringify_scalar(v) for v in value])}{suffix}"
''', '''            is_scalar(value)  # Throws on an invalid array
            prefix, suffix = ("[", "]") if self.is_mql else ("array(", ")")
            elements = []
            for v in value:
                elements.append(self._stringify_scalar(v))
            return prefix + ", ".join(elements) + suffix
''')]),
("S12 function clause helper", [(V, '''            initialize_clause = f"({', '.join(initializers)})"
''', '''            initialize_clause = self._parenthesised(initializers)
'''), (V, '''            param_clause = f"({', '.join(params)})"
''', '''            param_clause = self._parenthesised(params)
'''), (V, '''    def _visit_identifier(self, ident: Identifier) -> str:
''', '''    @staticmethod
    def _parenthesised(parts: list[str]) -> str:
        return "(" + ", ".join(parts) + ")"

    def _visit_identifier(self, ident: Identifier) -> str:
''')]),
("S13 mql condition rhs helper", [(V, '''        elif isinstance(cond.rhs, Column):
            rhs = f"{self.visit(cond.rhs)}"
        elif is_scalar(cond.rhs):
            rhs = f"{self._stringify_scalar(cond.rhs)}"

        assert rhs is not None
        op = ""
''', '''
        if isinstance(cond.rhs, Column):
            rhs = self.visit(cond.rhs)
        elif is_scalar(cond.rhs):
            rhs = self._stringify_scalar(cond.rhs)

        assert rhs is not None
        op = ""
''')]),
("S14 boolean mql by method name", [(V, '''        conditions = []
        for c in cond.conditions:
            if isinstance(c, Condition):
                conditions.append(self._visit_condition_mql(c))
            elif isinstance(c, BooleanCondition):
                conditions.append(self._visit_boolean_condition_mql(c))
        op = cond.op.value
        conditions_with_op = f" {op} ".join(conditions)
        return f"({conditions_with_op})"
''', '''        text = ""
        op = cond.op.value
        for i, c in enumerate(cond.conditions):
            if i > 0:
                text += f" {op} "
            if isinstance(c, Condition):
                text += self._visit_condition_mql(c)
            elif isinstance(c, BooleanCondition):
                text += self._visit_boolean_condition_mql(c)
        return f"({text})"
''')]),
("S15 entity sample formatted", [(V, '''        sample_clause = ""
        if entity.sample is not None:
            if entity.sample % 1 == 0:
                sample_clause = f" SAMPLE {entity.sample:.1f}"
            else:
                sample_clause = f" SAMPLE {entity.sample:f}"
        return f"({alias_clause}{entity.name}{sample_clause})"
''', '''        body = alias_clause + entity.name
        if entity.sample is not None:
            precision = 1 if entity.sample % 1 == 0 else 6
            body += f" SAMPLE {entity.sample:.{precision}f}"
        return f"({body})"
''')]),
("S16 printer optional clauses table", [(Q, '''        if limit is not None:
            return f"LIMIT {self.translator.visit(limit)}"
        return ""

    def _visit_offset(self, offset: Optional[Offset]) -> str:
        if offset is not None:
            return f"OFFSET {self.translator.visit(offset)}"
        return ""
''', '''        return self._optional("LIMIT", limit)

    def _optional(self, keyword: str, exp: Optional[Expression]) -> str:
        return "" if exp is None else f"{keyword} {self.translator.visit(exp)}"

    def _visit_offset(self, offset: Optional[Offset]) -> str:
        return self._optional("OFFSET", offset)
''')]),
("S17 searcher aggregate union", [(Q, '''        found = set()
        if terms:
            for t in terms:
                found |= self.expression_finder.visit(t)
        return found
''', '''        visited = (self.expression_finder.visit(t) for t in terms or ())
        return set().union(*visited)
''')]),
("S18 validator visit via helper", [(Q, '''    def _visit_limit(self, limit: Optional[Limit]) -> None:
        limit.validate() if limit is not None else None

    def _visit_offset(self, offset: Optional[Offset]) -> None:
        offset.validate() if offset is not None else None
''', '''    def _validate_optional(self, exp: Optional[Expression]) -> None:
        if exp is None:
            return
        exp.validate()

    def _visit_limit(self, limit: Optional[Limit]) -> None:
        self._validate_optional(limit)

    def _visit_offset(self, offset: Optional[Offset]) -> None:
        return self._validate_optional(offset)
''')]),
("S19 validator conditions inverted", [(Q, '''        if query.totals and query.totals.totals and not query.groupby:
            raise InvalidQueryError("totals is only valid with a groupby")
''', '''        if query.groupby or not query.totals:
            return
        if query.totals.totals:
            raise InvalidQueryError("totals is only valid with a groupby")
''')]),
("S20 match validation table", [(QV, '''    elif isinstance(query.match, Storage):
        _validate_storage(query.match, all_columns)
    else:
        _validate_entity(query.match, all_columns)
''', '''    else:
        check = _validate_storage if isinstance(query.match, Storage) else _validate_entity
        check(query.match, all_columns)
''')]),
("S21 join check helper", [(QV, '''    for c in all_columns:
        assert isinstance(c, Column)
        if c.entity is None:
            raise InvalidMatchError(f"column '{c.name}' must have a qualifying entity")
''', '''    mappings = match.get_alias_mappings()
    for c in all_columns:
        assert isinstance(c, Column)
        if c.entity is not None and (c.entity.alias, c.entity.name) in mappings:
            continue
        if c.entity is None:
            raise InvalidMatchError(f"column '{c.name}' must have a qualifying entity")
''')]),
("S22 subquery names dict", [(QV, '''        if isinstance(s, CurriedFunction):
            inner_column_names.add(s.alias)
        elif isinstance(s, AliasedExpression):
            inner_column_names.add(s.alias if s.alias is not None else s.exp.name)
        elif isinstance(s, Column):
            inner_column_names.add(s.name)
''', '''        inner_column_names |= _exposed_names(s)
'''), (QV, '''def _validate_join(match: Join, all_columns: set[Expression]) -> None:
''', '''def _exposed_names(s: Expression) -> set[Optional[str]]:
    if isinstance(s, CurriedFunction):
        return {s.alias}
    if isinstance(s, AliasedExpression):
        return {s.exp.name if s.alias is None else s.alias}
    if isinstance(s, Column):
        return {s.name}
    return set()


def _validate_join(match: Join, all_columns: set[Expression]) -> None:
''')]),
("S23 required columns for/else", [(QV, '''    for cond in top_level_conditions:
        if (
            isinstance(cond, Condition)
            and isinstance(cond.lhs, Column)
            and (cond.lhs.entity is None or cond.lhs.entity.alias == entity_alias)
            and cond.lhs.name == col_to_match.name
            and cond.op in ops
        ):
            return True

    return False
''', '''    candidates = [c for c in top_level_conditions if isinstance(c, Condition) and c.op in ops]
    columns = [c.lhs for c in candidates if isinstance(c.lhs, Column)]
    for column in columns:
        if column.name != col_to_match.name:
            continue
        if column.entity is None or column.entity.alias == entity_alias:
            return True
    return False
''')]),
("S24 required check split in two", [(QV, '''    ops = {Op.GTE, Op.LT}
    missing_ops = set()
    for op in ops:
        if not _matching_condition_exists(
            {op}, schema.required_time_column, top_level, entity.alias
        ):
            missing_ops.add(op)

    if missing_ops:
''', '''    missing_ops = _missing_time_bounds(schema.required_time_column, top_level, entity)
    if missing_ops:
'''), (QV, '''def _matching_condition_exists(
''', '''def _missing_time_bounds(
    time_column: ColumnModel, top_level: ConditionGroup, entity: Entity
) -> set[Op]:
    bounds = {Op.GTE, Op.LT}
    return {
        op
        for op in bounds
        if not _matching_condition_exists({op}, time_column, top_level, entity.alias)
    }


def _matching_condition_exists(
''')]),
("S25 optimizer all()", [(OO, '''        curr = cond.conditions[0]
        if not isinstance(curr, Condition) or curr.op != Op.EQ:
            # can't be optimized
            return None
        shared_lhs = curr.lhs
        rhsides = [curr.rhs]
        for i in range(1, len(cond.conditions)):
            curr = cond.conditions[i]
            if (
                not isinstance(curr, Condition)
                or curr.op != Op.EQ
                or (shared_lhs and curr.lhs != shared_lhs)
            ):
                # can't be optimized
                return None
            rhsides += [curr.rhs]
        return Condition(shared_lhs, Op.IN, rhsides)  # type: ignore
''', '''        if not all(
            isinstance(c, Condition) and c.op == Op.EQ for c in cond.conditions
        ):
            return None
        shared_lhs = cond.conditions[0].lhs
        if any(c.lhs != shared_lhs for c in cond.conditions):
            return None
        return Condition(shared_lhs, Op.IN, [c.rhs for c in cond.conditions])  # type: ignore
''')]),
("S26 optimizer index loop", [(OO, '''        optimized = False
        new_filters = []
        for cond in condition_group:
            res = self._optimize_condition(cond)

            if res is not None:
                optimized = True
                new_filters.append(res)
            else:
                new_filters.append(cond)

        if optimized:
            return new_filters
        return None
''', '''        replaced = 0
        new_filters = list(condition_group)
        for i, cond in enumerate(condition_group):
            res = self._optimize_condition(cond)
            if res is not None:
                new_filters[i] = res
                replaced += 1
        return new_filters if replaced else None
''')]),
("S27 formula consistency lists", [(FM, '''        groupbys = set()
        has_timeseries = False

        stack: list[FormulaParameterGroup] = [self]
        while stack:
            param = stack.pop()
            if isinstance(param, Formula):
                if param.groupby is not None:
                    groupbys.add(tuple(param.groupby))

                if param.parameters:
                    stack.extend(param.parameters)
            elif isinstance(param, Timeseries):
                has_timeseries = True
                if param.groupby is not None:
                    groupbys.add(tuple(param.groupby))
''', '''        groupbys = set()
        has_timeseries = False

        stack: list[FormulaParameterGroup] = [self]
        while stack:
            param = stack.pop(0)
            if isinstance(param, (Formula, Timeseries)) and param.groupby is not None:
                groupbys.add(tuple(param.groupby))
            if isinstance(param, Timeseries):
                has_timeseries = True
            elif isinstance(param, Formula):
                stack = stack + list(param.parameters or ())
''')]),
("S28 mql filters string building", [(MV, '''        return "{" + " AND ".join(conditions) + "}"
''', '''        joined = " AND ".join(conditions)
        return "{{{}}}".format(joined)
''')]),
("S29 timeseries combine", [(MV, '''        mql_string = returns["metric"]
        assert isinstance(mql_string, str)
        if returns["aggregate"]:
            aggregate = returns["aggregate"]
            mql_string = f"{aggregate}({mql_string})"

        if returns["filters"]:
            filters = str(returns["filters"])
            mql_string += f"{filters}"

        if returns["groupby"]:
            groupby = str(returns["groupby"])
            mql_string += f"{groupby}"

        return mql_string
''', '''        metric = returns["metric"]
        assert isinstance(metric, str)
        aggregate = returns["aggregate"]
        head = f"{aggregate}({metric})" if aggregate else metric
        return "".join([head, str(returns["filters"]), str(returns["groupby"])])
''')]),
("S30 formula printer helper methods", [(MV, '''        if formula.function_name in PREFIX_TO_INFIX:
            separator = f" {PREFIX_TO_INFIX[formula.function_name]} "
            mql_string = f"({separator.join(param_strings)})"
        else:
            mql_string = (
                f"{PREFIX_ALIASES.get(formula.function_name) or formula.function_name}"
                f"{self._visit_aggregate_params(formula.aggregate_params)}({', '.join(param_strings)})"
            )

        mql_string += f"{self._visit_filters(formula.filters)}"
        mql_string += f"{self._visit_groupby(formula.groupby)}"

        return mql_string
''', '''        if formula.function_name in PREFIX_TO_INFIX:
            call = self._infix(PREFIX_TO_INFIX[formula.function_name], param_strings)
        else:
            call = self._prefix(formula, param_strings)

        return call + self._visit_filters(formula.filters) + self._visit_groupby(formula.groupby)

    def _infix(self, operator: str, params: list[str]) -> str:
        return "(" + f" {operator} ".join(params) + ")"

    def _prefix(self, formula: Formula, params: list[str]) -> str:
        name = PREFIX_ALIASES.get(formula.function_name, formula.function_name)
        aggregate_params = self._visit_aggregate_params(formula.aggregate_params)
        return f"{name}{aggregate_params}({', '.join(params)})"
''')]),
("S31 scope dict by hand", [(MV, '''        return asdict(scope)
''', '''        return {
            "org_ids": list(scope.org_ids),
            "project_ids": list(scope.project_ids),
            "use_case_id": scope.use_case_id,
        }
''')]),
("S32 mql printer unwrap helper", [(MP, '''    def _visit_limit(self, limit: Limit | None) -> int | None:
        return limit.limit if limit is not None else None

    def _visit_offset(self, offset: Offset | None) -> int | None:
        return offset.offset if offset is not None else None
''', '''    @staticmethod
    def _unwrap(exp: Any, name: str) -> Any:
        return None if exp is None else getattr(exp, name)

    def _visit_limit(self, limit: Limit | None) -> int | None:
        return self._unwrap(limit, "limit")

    def _visit_offset(self, offset: Offset | None) -> int | None:
        return self._unwrap(offset, "offset")
''')]),
("S33 metrics validator required helper", [(MQV, '''        if start is None:
            raise InvalidMetricsQueryError("start is required for a metrics query")
        elif not isinstance(start, datetime):
            raise InvalidMetricsQueryError("start must be a datetime")
''', '''        self._require("start", start, datetime, "datetime")

    def _require(self, name: str, value: object, kind: type, label: str) -> None:
        if value is None:
            raise InvalidMetricsQueryError(f"{name} is required for a metrics query")
        if not isinstance(value, kind):
            raise InvalidMetricsQueryError(f"{name} must be a {label}")
'''), (MQV, '''        if end is None:
            raise InvalidMetricsQueryError("end is required for a metrics query")
        elif not isinstance(end, datetime):
            raise InvalidMetricsQueryError("end must be a datetime")
''', '''        self._require("end", end, datetime, "datetime")
''')]),
("S34 rollup validate split", [(TS, '''        if self.interval is not None:
            _validate_int_literal(
                "interval", self.interval, 10, None
            )  # Minimum 10 seconds
            if self.granularity is not None and self.interval < self.granularity:
                raise InvalidExpressionError(
                    "interval must be greater than or equal to granularity"
                )
''', '''        self._validate_interval()
'''), (TS, '''    def validate(self) -> None:
        # The interval is used''', '''    def _validate_interval(self) -> None:
        interval = self.interval
        if interval is None:
            return
        _validate_int_literal("interval", interval, 10, None)  # Minimum 10 seconds
        if self.granularity is None:
            return
        if self.granularity > interval:
            raise InvalidExpressionError(
                "interval must be greater than or equal to granularity"
            )

    def validate(self) -> None:
        # The interval is used''')]),
("S35 timeseries validate elements helper", [(TS, '''            for p in self.aggregate_params:
                if not is_literal(p):
                    raise InvalidTimeseriesError(
                        "aggregate_params can only be literal types"
                    )
''', '''            invalid = [p for p in self.aggregate_params if not is_literal(p)]
            if invalid:
                raise InvalidTimeseriesError("aggregate_params can only be literal types")
'''), (TS, '''        if self.filters is not None:
            if not isinstance(self.filters, list):
                raise InvalidTimeseriesError("filters must be a list")
            for f in self.filters:
                if not isinstance(f, (Condition, BooleanCondition)):
                    raise InvalidTimeseriesError("filters must be a list of Conditions")
''', '''        if self.filters is not None and not list_type(
            self.filters, (Condition, BooleanCondition)
        ):
            raise InvalidTimeseriesError("filters must be a list of Conditions")
''')]),
("S36 legacy conditions shared", [(L, '''    for cond in body.get("conditions", []):
        if not is_condition(cond):
            or_conditions = []
            for or_cond in cond:
                or_conditions.append(parse_condition(or_cond))

            if len(or_conditions) > 1:
                conditions.append(Or(or_conditions))
            else:
                conditions.extend(or_conditions)
        else:
            conditions.append(parse_condition(cond))

    query = query.set_where(conditions)
''', '''    for cond in body.get("conditions", []):
        if is_condition(cond):
            conditions.append(parse_condition(cond))
            continue
        alternatives = [parse_condition(or_cond) for or_cond in cond]
        conditions += alternatives if len(alternatives) < 2 else [Or(alternatives)]

    query = query.set_where(conditions)
''')]),
("S37 legacy orderby helper", [(L, '''            direction = Direction.ASC
            if isinstance(o, list):
                first = o[0]
                if isinstance(first, str) and first.startswith("-"):
                    o = [first.lstrip("-"), *o[1:]]
                    direction = Direction.DESC
                part = parse_exp(o)
            elif isinstance(o, str):
                if o.startswith("-"):
                    direction = Direction.DESC
                    part = parse_exp(o.lstrip("-"))
                else:
                    part = parse_exp(o)

            order_bys.append(OrderBy(part, direction))
''', '''            direction = Direction.ASC
            if isinstance(o, list):
                first, *rest = o
                if isinstance(first, str) and first.startswith("-"):
                    direction = Direction.DESC
                    part = parse_exp([first.lstrip("-"), *rest])
                else:
                    part = parse_exp(o)
            elif isinstance(o, str):
                if o.startswith("-"):
                    direction = Direction.DESC
                part = parse_exp(o.lstrip("-") if direction is Direction.DESC else o)

            order_bys.append(OrderBy(part, direction))
''')]),
("S38 legacy only_strings helper", [(L, '''        only_strings = False
        if isinstance(lhs, Column) and (
            lhs.subscriptable == "tags" or lhs.name == "release"
        ):
            only_strings = True
        elif (
            isinstance(lhs, Function)
            and lhs.function == "ifNull"
            and lhs.parameters
            and len(lhs.parameters) > 1
        ):
            first = lhs.parameters[0]
            if isinstance(first, Column) and (
                first.subscriptable == "tags" or first.name == "release"
            ):
                only_strings = True

        rhs = parse_scalar(cond[2], only_strings=only_strings)
''', '''        column = lhs
        if isinstance(lhs, Function) and lhs.function == "ifNull":
            column = lhs.parameters[0] if lhs.parameters and len(lhs.parameters) > 1 else None
        only_strings = isinstance(column, Column) and (
            column.name == "release" or column.subscriptable == "tags"
        )

        rhs = parse_scalar(cond[2], only_strings=only_strings)
''')]),
("S39 legacy flags and defaults", [(L, '''    found = {extra: body.get(extra) for extra in extras if body.get(extra)}
    found["legacy"] = True
    flags = Flags(**found)
''', '''    found = {"legacy": True}
    for extra in extras:
        if body.get(extra):
            found[extra] = body[extra]
    flags = Flags(**found)
''')]),
("S40 parse_scalar reorganised", [(L, '''    if isinstance(value, str) and not only_strings:
        try:
            if not only_strings:
                date_scalar = parse_datetime(value)
                return date_scalar
        except ValueError:
            return parse_string(value)
    elif isinstance(value, str):
        return parse_string(value)

    return value
''', '''    if not isinstance(value, str):
        return value
    if only_strings:
        return parse_string(value)
    try:
        return parse_datetime(value)
    except ValueError:
        return parse_string(value)
''')]),
("S41 mql expression shared fold", [(MQ, '''        if zero_or_more_others:
            for zero_or_more in zero_or_more_others:
                _, expr_operator, _, term_right, *_ = zero_or_more
                term_left = Formula(expr_operator, [term_left, term_right])

        return cast(Union[Formula, Timeseries, float, int, str], term_left)
''', '''        return self._chain(term_left, zero_or_more_others)

    def _chain(self, left: Any, others: Sequence[Any]) -> Any:
        for other in others or []:
            left = Formula(other[1], [left, other[3]])
        return left
'''), (MQ, '''        if zero_or_more_others:
            for zero_or_more in zero_or_more_others:
                _, term_operator, _, unary_right, *_ = zero_or_more
                unary_left = Formula(term_operator, [unary_left, unary_right])

        return cast(Union[Formula, Timeseries, float, int, str], unary_left)
''', '''        return self._chain(unary_left, zero_or_more_others)
''')]),
("S42 mql groupby helper", [(MQ, '''        targets, packed_groupbys = children
        target = targets[0]
        assert isinstance(target, (Timeseries, Formula))
        if packed_groupbys:
            group_by = packed_groupbys[0]
            if not isinstance(group_by, list):
                group_by = [group_by]
            current_groupby = target.groupby if target.groupby else []
            group_by.extend(current_groupby)
            target = target.set_groupby(group_by)
        return target
''', '''        (target, *_), packed_groupbys = children
        assert isinstance(target, (Timeseries, Formula))
        return self._grouped(target, packed_groupbys)

    def _grouped(self, target: Any, packed_groupbys: Sequence[Any]) -> Any:
        if not packed_groupbys:
            return target
        group_by = packed_groupbys[0]
        columns = group_by if isinstance(group_by, list) else [group_by]
        return target.set_groupby([*columns, *(target.groupby or [])])
''')]),
("S43 mql filter factor table", [(MQ, '''            op = Op.EQ
            if not condition_op and contains_wildcard and isinstance(rhs, str):
                op = Op.LIKE

            elif not condition_op and isinstance(rhs, list):
                op = Op.IN

            elif len(condition_op) == 1 and condition_op[0] == Op.NOT:
                if not contains_wildcard and isinstance(rhs, str):
                    op = Op.NEQ
                elif not contains_wildcard and isinstance(rhs, list):
                    op = Op.NOT_IN
                elif contains_wildcard and isinstance(rhs, str):
                    op = Op.NOT_LIKE

            return Condition(lhs[0], op, rhs)
''', '''            kind = "list" if isinstance(rhs, list) else "pattern" if contains_wildcard else "text"
            positive = {"list": Op.IN, "pattern": Op.LIKE, "text": Op.EQ}
            negative = {"list": Op.NOT_IN, "pattern": Op.NOT_LIKE, "text": Op.NEQ}
            ops = negative if condition_op else positive
            return Condition(lhs[0], ops[kind], rhs)
''')]),
("S44 mql _filter", [(MQ, '''        if len(filters) == 1:
            return filters[0]
        else:
            # We flatten all filters into a single condition since Snuba supports it.
            if operator == BooleanOp.AND:
                return And(conditions=filters)
            elif operator == BooleanOp.OR:
                return Or(conditions=filters)
            else:
                raise InvalidMQLQueryError(f"Invalid boolean operator {operator}")
''', '''        if not zero_or_more_others:
            return first
        groups = {BooleanOp.AND: And, BooleanOp.OR: Or}
        if operator not in groups:
            raise InvalidMQLQueryError(f"Invalid boolean operator {operator}")
        return groups[operator](conditions=filters)
''')]),
("S45 mql inner filter reuse", [(MQ, '''        timeseries = Timeseries(metric=metric, aggregate=AGGREGATE_PLACEHOLDER_NAME)
        if not packed_filters and not packed_groupbys:
            return timeseries
        if packed_filters:
            _, filter_condition, *_ = packed_filters[0]
            timeseries = timeseries.set_filters([filter_condition])
        if packed_groupbys:
            group_by = packed_groupbys[0]
            if not isinstance(group_by, list):
                group_by = [group_by]
            timeseries = timeseries.set_groupby(group_by)
        return timeseries
''', '''        group_by = packed_groupbys[0] if packed_groupbys else None
        if group_by is not None and not isinstance(group_by, list):
            group_by = [group_by]
        return Timeseries(
            metric=metric,
            aggregate=AGGREGATE_PLACEHOLDER_NAME,
            filters=[packed_filters[0][1]] if packed_filters else None,
            groupby=group_by,
        )
''')]),
("S46 join validate dict of sets", [(RE, '''        seen: MutableMapping[str, str] = {}
        for alias, entity in self.get_alias_mappings():
            if alias in seen and seen[alias] != entity:
                entities = sorted([entity, seen[alias]])
                raise InvalidExpressionError(
                    f"alias '{alias}' is duplicated for entities {', '.join(entities)}"
                )
            seen[alias] = entity
''', '''        mappings = self.get_alias_mappings()
        for alias, entity in mappings:
            others = {e for a, e in mappings if a == alias and e != entity}
            if others:
                entities = sorted([entity, *others][:2])
                raise InvalidExpressionError(
                    f"alias '{alias}' is duplicated for entities {', '.join(entities)}"
                )
''')]),
("S47 curried eq via tuple", [(FN, '''        return (
            self.function == other.function
            and self.initializers == other.initializers
            and self.parameters == other.parameters
        )
''', '''        mine = (self.function, self.initializers, self.parameters)
        theirs = (other.function, other.initializers, other.parameters)
        return mine == theirs
''')]),
("S48 query validate inner helper", [(QU, '''        if isinstance(self.match, Query):
            try:
                self.match.validate()
            except Exception as e:
                raise InvalidQueryError(f"inner query is invalid: {e}") from e

    def _replace''', '''        self._validate_inner(self.match)

    @staticmethod
    def _validate_inner(match: Any) -> None:
        if not isinstance(match, Query):
            return
        try:
            match.validate()
        except Exception as e:
            raise InvalidQueryError(f"inner query is invalid: {e}") from e

    def _replace'''), (QU, '''        elif isinstance(match, Query):
            try:
                match.validate()
            except Exception as e:
                raise InvalidQueryError(f"inner query is invalid: {e}") from e
''', '''        self._validate_inner(match)
''')]),
("S49 lambda validate any", [(FN, '''        for i in self.identifiers:
            if not isinstance(i, str) or not identifier_re.match(i):
                raise InvalidLambdaError(f"{i} is not a valid identifier")
''', '''        for i in self.identifiers:
            Lambda._check_identifier(i)
'''), (FN, '''    identifiers: Sequence[str]
    transformation: CurriedFunction

''', '''    identifiers: Sequence[str]
    transformation: CurriedFunction

    @classmethod
    def _check_identifier(cls, name: object) -> None:
        if isinstance(name, str) and identifier_re.match(name):
            return
        raise InvalidLambdaError(f"{name} is not a valid identifier")

''')]),
("S50 finder type check helper", [(V, '''    def _visit_entity(self, entity: Entity) -> set[Expression]:
        if isinstance(entity, self.exp_type):
            return set([entity])
        return set()

    def _visit_storage(self, storage: Storage) -> set[Expression]:
        if isinstance(storage, self.exp_type):
            return set([storage])
        return set()
''', '''    def _if_found(self, exp: Expression) -> set[Expression]:
        return {exp} if isinstance(exp, self.exp_type) else set()

    def _visit_entity(self, entity: Entity) -> set[Expression]:
        return self._if_found(entity)

    def _visit_storage(self, storage: Storage) -> set[Expression]:
        return self._if_found(storage)
''')]),
]
