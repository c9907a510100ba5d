"""Third corpus of behaviour-preserving edits: the files the first two leave out."""
L, Q, MQ, V, P = "legacy.py", "mql/mql.py", "metrics_query.py", "metrics_query_visitors.py", "mql_visitor.py"
THIRD = [
("P01 parse_datetime partition", [(L, '''        first, tz = date_str.split("+", 1)
        tz = tz.replace(":", "")
        date_str = f"{first}+{tz}"
''', '''        first, _, tz = date_str.partition("+")
        date_str = first + "+" + tz.replace(":", "")
''')]),
("P02 parse_scalar early returns", [(L, '''    if isinstance(value, str) and not only_strings:
        try:
            if not only_strings:
                date_scalar = parse_datetime(value)
                return date_scalar
        except ValueError:
            return parse_string(value)
    elif isinstance(value, str):
        return parse_string(value)

    return value
''', '''    if not isinstance(value, str):
        return value
    if only_strings:
        return parse_string(value)
    try:
        return parse_datetime(value)
    except ValueError:
        return parse_string(value)
''')]),
("P03 parse_scalar generator", [(L, '''        return tuple(map(partial(parse_scalar, only_strings=only_strings), value))
''', '''        return tuple(parse_scalar(v, only_strings=only_strings) for v in value)
''')]),
("P04 legacy only_strings helper", [(L, '''def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
''', '''def _string_column(exp: Any) -> bool:
    return isinstance(exp, Column) and (
        exp.subscriptable == "tags" or exp.name == "release"
    )


def _parse_condition_parts(cond: Sequence[Any]) -> tuple[Any, Op, Any]:
'''), (L, '''        if isinstance(lhs, Column) and (
            lhs.subscriptable == "tags" or lhs.name == "release"
        ):
            only_strings = True
''', '''        if _string_column(lhs):
            only_strings = True
'''), (L, '''            first = lhs.parameters[0]
            if isinstance(first, Column) and (
                first.subscriptable == "tags" or first.name == "release"
            ):
                only_strings = True
''', '''            only_strings = _string_column(lhs.parameters[0])
''')]),
("P05 legacy aggregations comprehension", [(L, '''    selected_columns = []
    for a in body.get("aggregations", []):
        selected_columns.append(parse_exp(list(a)))

    selected = []
    for s in body.get("selected_columns", []):
        if isinstance(s, tuple):
            selected.append(list(s))
        else:
            selected.append(s)

    selected_columns.extend(list(map(parse_exp, selected)))
''', '''    selected_columns = [parse_exp(list(a)) for a in body.get("aggregations", [])]
    for s in body.get("selected_columns", []):
        selected_columns.append(parse_exp(list(s) if isinstance(s, tuple) else s))
''')]),
("P06 legacy flags stepwise", [(L, '''    found = {extra: body.get(extra) for extra in extras if body.get(extra)}
    found["legacy"] = True
    flags = Flags(**found)
''', '''    found = {}
    for extra in extras:
        value = body.get(extra)
        if value:
            found[extra] = value
    flags = Flags(legacy=True, **found)
''')]),
("P07 legacy orderby flattened", [(L, '''            direction = Direction.ASC
            if isinstance(o, list):
                first = o[0]
                if isinstance(first, str) and first.startswith("-"):
                    o = [first.lstrip("-"), *o[1:]]
                    direction = Direction.DESC
                part = parse_exp(o)
            elif isinstance(o, str):
                if o.startswith("-"):
                    direction = Direction.DESC
                    part = parse_exp(o.lstrip("-"))
                else:
                    part = parse_exp(o)
''', '''            direction = Direction.ASC
            if isinstance(o, list):
                first = o[0]
                if isinstance(first, str) and first.startswith("-"):
                    o = [first.lstrip("-")] + o[1:]
                    direction = Direction.DESC
                part = parse_exp(o)
            elif isinstance(o, str):
                if o.startswith("-"):
                    direction = Direction.DESC
                    o = o.lstrip("-")
                part = parse_exp(o)
''')]),
("P08 legacy is_condition unpacked", [(L, '''    return (
        len(cond_or_list) == 3
        and (
            isinstance(cond_or_list[1], str)
            and cond_or_list[1].upper() in CONDITION_OPERATORS
        )
        and isinstance(cond_or_list[0], (str, tuple, list))
    )
''', '''    if len(cond_or_list) != 3:
        return False
    operator = cond_or_list[1]
    if not isinstance(operator, str) or operator.upper() not in CONDITION_OPERATORS:
        return False
    return isinstance(cond_or_list[0], (str, tuple, list))
''')]),
("P09 legacy extension condition", [(L, '''    if isinstance(values, int):
        if always_in:
            values = (values,)
        else:
            return Condition(column, Op.EQ, values)

    if isinstance(values, (list, tuple)):
        rhs: Sequence[Any] = tuple(map(parse_scalar, values))
        return Condition(column, Op.IN, rhs)

    return None
''', '''    if isinstance(values, int) and not always_in:
        return Condition(column, Op.EQ, values)
    if isinstance(values, int):
        values = (values,)
    if not isinstance(values, (list, tuple)):
        return None
    return Condition(column, Op.IN, tuple(parse_scalar(v) for v in values))
''')]),
("P10 mql fold helper", [(Q, '''        if zero_or_more_others:
            for zero_or_more in zero_or_more_others:
                _, expr_operator, _, term_right, *_ = zero_or_more
                term_left = Formula(expr_operator, [term_left, term_right])
''', '''        for zero_or_more in zero_or_more_others or []:
            expr_operator, term_right = zero_or_more[1], zero_or_more[3]
            term_left = Formula(expr_operator, [term_left, term_right])
''')]),
("P11 mql filter concat", [(Q, '''            current_filters = target.filters if target.filters else []
            filters = [filter_condition]
            filters.extend(current_filters)
            target = target.set_filters(filters)
        if packed_groupbys:
            group_by = packed_groupbys[0]
            if not isinstance(group_by, list):
                group_by = [group_by]
            current_groupby = target.groupby if target.groupby else []
            group_by.extend(current_groupby)
            target = target.set_groupby(group_by)
        return target

    def _filter(
''', '''            target = target.set_filters([filter_condition, *(target.filters or [])])
        if packed_groupbys:
            group_by = packed_groupbys[0]
            names = list(group_by) if isinstance(group_by, list) else [group_by]
            target = target.set_groupby(names + list(target.groupby or []))
        return target

    def _filter(
''')]),
("P12 mql filter list built by loop", [(Q, '''        filters: Sequence[Union[Condition, BooleanCondition]] = [
            first,
            *(v for _, _, _, v in zero_or_more_others),
        ]
        if len(filters) == 1:
            return filters[0]
        else:
            # We flatten all filters into a single condition since Snuba supports it.
            if operator == BooleanOp.AND:
                return And(conditions=filters)
            elif operator == BooleanOp.OR:
                return Or(conditions=filters)
            else:
                raise InvalidMQLQueryError(f"Invalid boolean operator {operator}")
''', '''        if not zero_or_more_others:
            return first
        filters = [first]
        for other in zero_or_more_others:
            filters.append(other[-1])
        # We flatten all filters into a single condition since Snuba supports it.
        if operator == BooleanOp.AND:
            return And(conditions=filters)
        if operator == BooleanOp.OR:
            return Or(conditions=filters)
        raise InvalidMQLQueryError(f"Invalid boolean operator {operator}")
''')]),
("P13 mql op table", [(Q, '''            op = Op.EQ
            if not condition_op and contains_wildcard and isinstance(rhs, str):
                op = Op.LIKE

            elif not condition_op and isinstance(rhs, list):
                op = Op.IN

            elif len(condition_op) == 1 and condition_op[0] == Op.NOT:
                if not contains_wildcard and isinstance(rhs, str):
                    op = Op.NEQ
                elif not contains_wildcard and isinstance(rhs, list):
                    op = Op.NOT_IN
                elif contains_wildcard and isinstance(rhs, str):
                    op = Op.NOT_LIKE
''', '''            negated = bool(condition_op) and condition_op[0] == Op.NOT
            if isinstance(rhs, list):
                op = Op.NOT_IN if negated else Op.IN
            elif contains_wildcard:
                op = Op.NOT_LIKE if negated else Op.LIKE
            else:
                op = Op.NEQ if negated else Op.EQ
''')]),
("P14 mql quoted string shared", [(Q, '''        # The quoted string might have escaped double quotes in it. Replace
        # these with regular quotes.
        text = str(node.text[1:-1])
        match = text.replace('\\\\"', '"')
        return match
''', '''        return self._unquote(node)

    def _unquote(self, node: Node) -> str:
        # The quoted string might have escaped double quotes in it. Replace
        # these with regular quotes.
        return str(node.text[1:-1]).replace('\\\\"', '"')
''')]),
("P15 mql visit loop", [(Q, '''        try:
            result = method(node, [self.visit(n) for n in node])
            return result
        except Exception as e:
            raise e
''', '''        visited = []
        for child in node:
            visited.append(self.visit(child))
        return method(node, visited)
''')]),
("P16 mql target", [(Q, '''        target = children[0]
        if isinstance(children[0], list):
            target = children[0][0]
        if isinstance(target, Metric):
            timeseries = Timeseries(metric=target, aggregate=AGGREGATE_PLACEHOLDER_NAME)
            return timeseries
''', '''        target, *_ = children
        if isinstance(target, list):
            target = target[0]
        if isinstance(target, Metric):
            return Timeseries(target, AGGREGATE_PLACEHOLDER_NAME)
''')]),
("P17 mql unary isinstance tuple", [(Q, '''        if unary_op:
            if isinstance(coefficient, float) or isinstance(coefficient, int):
                return -coefficient
            elif isinstance(coefficient, Formula) or isinstance(
                coefficient, Timeseries
            ):
                return Formula(function_name=unary_op[0], parameters=[coefficient])
            else:
                raise InvalidMQLQueryError(
                    f"Unary expression not supported for type {type(coefficient)}"
                )

        return cast(Union[Formula, Timeseries, float, int, str], coefficient)
''', '''        if not unary_op:
            return cast(Union[Formula, Timeseries, float, int, str], coefficient)
        if isinstance(coefficient, (float, int)):
            return -coefficient
        if not isinstance(coefficient, (Formula, Timeseries)):
            raise InvalidMQLQueryError(
                f"Unary expression not supported for type {type(coefficient)}"
            )
        return Formula(unary_op[0], [coefficient])
''')]),
("P18 mql curried params", [(Q, '''        curried_arbitrary_function_params = [param[-1] for param in params]
''', '''        curried_arbitrary_function_params = []
        for *_, param in params:
            curried_arbitrary_function_params.append(param)
''')]),
("P19 validator table", [(V, '''        if limit is None:
            return
        elif not isinstance(limit, Limit):
            raise InvalidMetricsQueryError("limit must be a Limit object")

        limit.validate()
''', '''        if limit is not None:
            if not isinstance(limit, Limit):
                raise InvalidMetricsQueryError("limit must be a Limit object")
            limit.validate()
''')]),
("P20 metrics visitor comprehension", [(V, '''        fields = query.get_fields()
        returns = {}
        for field in fields:
            returns[field] = getattr(self, f"_visit_{field}")(getattr(query, field))

        return self._combine(query, returns)
''', '''        returns = {
            name: getattr(self, "_visit_" + name)(getattr(query, name))
            for name in query.get_fields()
        }
        return self._combine(query, returns)
''')]),
("P21 metrics optimize early", [(MQ, '''        if (
            isinstance(self.query, (Formula, Timeseries))
            and self.query.filters is not None
        ):
            new_filters = OrOptimizer().optimize(self.query.filters)
            if new_filters is not None:
                return replace(
                    self, query=replace(self.query, filters=new_filters)
                )
        return self
''', '''        query = self.query
        if not isinstance(query, (Formula, Timeseries)) or query.filters is None:
            return self
        new_filters = OrOptimizer().optimize(query.filters)
        if new_filters is None:
            return self
        return self._replace("query", replace(query, filters=new_filters))
''')]),
("P22 mql printer combine kwargs", [(P, '''        mql_context = MQLContext(
            start=returns["start"],
            end=returns["end"],
            rollup=returns["rollup"],
            scope=returns["scope"],
            limit=returns["limit"],
            offset=returns["offset"],
            extrapolate=returns["extrapolate"],
            indexer_mappings=returns["indexer_mappings"],
        )
''', '''        mql_context = MQLContext(
            **{name: value for name, value in returns.items() if name != "query"}
        )
''')]),
("P23 mql printer visit_query iterative", [(P, '''        else:
            query = parse_mql(query)
            return self._visit_query(query)
''', '''        parsed = parse_mql(query)
        if isinstance(parsed, Formula):
            return self.formula_visitor.visit(parsed)
        return self.timeseries_visitor.visit(parsed)
''')]),
("P24 delete validate any", [("delete_query.py", '''        if self.column_conditions == {}:
            raise InvalidDeleteQueryError("column conditions cannot be empty")

        for col, values in self.column_conditions.items():
            if len(values) == 0:
                raise InvalidDeleteQueryError(
                    f"column condition '{col}' cannot be empty"
                )
''', '''        if self.column_conditions == {}:
            raise InvalidDeleteQueryError("column conditions cannot be empty")
        empty = [c for c, vals in self.column_conditions.items() if len(vals) == 0]
        if empty:
            raise InvalidDeleteQueryError(
                f"column condition '{empty[0]}' cannot be empty"
            )
''')]),
("P25 limitby count chained", [("orderby.py", '''        if not isinstance(self.count, int) or self.count <= 0 or self.count > 10000:
            raise InvalidExpressionError(
''', '''        if not (isinstance(self.count, int) and 1 <= self.count <= 10_000):
            raise InvalidExpressionError(
''')]),
("P26 sequence check generator", [("orderby.py", '''    for el in val:
        if not isinstance(el, type):
            raise InvalidExpressionError(
                f"{name}: Invalid element '{el}' which must be a list composed entirely of {type}"
            )
''', '''    invalid = next((el for el in val if not isinstance(el, type)), None)
    if not all(isinstance(el, type) for el in val):
        raise InvalidExpressionError(
            f"{name}: Invalid element '{invalid}' which must be a list composed entirely of {type}"
        )
''')]),
("P27 schema set comprehensions", [("schema.py", '''        super().__setattr__("column_set", ColumnSet(columns))
        super().__setattr__("required_time_column", required_time_column)
        super().__setattr__("required_columns", set([r for r in columns if r.required]))
''', '''        required = {column for column in columns if column.required}
        object.__setattr__(self, "required_columns", required)
        object.__setattr__(self, "required_time_column", required_time_column)
        object.__setattr__(self, "column_set", ColumnSet(columns))
''')]),
("P28 aliased validate flat", [("aliased_expression.py", '''        if self.alias is not None:
            if not isinstance(self.alias, str) or self.alias == "":
                raise InvalidExpressionError(
                    f"alias '{self.alias}' of expression must be None or a non-empty string"
                )
            if not ALIAS_RE.match(self.alias):
                raise InvalidExpressionError(
                    f"alias '{self.alias}' of expression contains invalid characters"
                )
''', '''        if self.alias is None:
            return
        if not (isinstance(self.alias, str) and self.alias):
            raise InvalidExpressionError(
                f"alias '{self.alias}' of expression must be None or a non-empty string"
            )
        if ALIAS_RE.match(self.alias) is None:
            raise InvalidExpressionError(
                f"alias '{self.alias}' of expression contains invalid characters"
            )
''')]),
("P29 column find", [("column.py", '''        if "[" in self.name:
            subscriptable, key = self.name.split("[", 1)
            key = key.strip("]")
            super().__setattr__("subscriptable", subscriptable)
            super().__setattr__("key", key)
''', '''        subscriptable, bracket, rest = self.name.partition("[")
        if bracket:
            object.__setattr__(self, "subscriptable", subscriptable)
            object.__setattr__(self, "key", rest.strip("]"))
''')]),
("P30 storage validate merged", [("storage.py", '''        if self.sample is not None:
            if not isinstance(self.sample, float):
                raise InvalidStorageError("sample must be a float")
            elif self.sample <= 0.0:
                raise InvalidStorageError("samples must be greater than 0.0")

        if self.data_model is not None:
            if not isinstance(self.data_model, DataModel):
                raise InvalidStorageError("data_model must be an instance of DataModel")
''', '''        if self.sample is not None and not isinstance(self.sample, float):
            raise InvalidStorageError("sample must be a float")
        if self.sample is not None and self.sample <= 0.0:
            raise InvalidStorageError("samples must be greater than 0.0")
        if not isinstance(self.data_model, (DataModel, type(None))):
            raise InvalidStorageError("data_model must be an instance of DataModel")
''')]),
("P31 datamodel check or", [("column.py", '''        to_check = self.subscriptable if self.subscriptable else self.name
        if not match.data_model.contains(to_check):
''', '''        if not match.data_model.contains(self.subscriptable or self.name):
''')]),
("P32 legacy or-conditions helper", [(L, '''def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
''', '''def _parse_conditions(conds: Sequence[Any]) -> list[Union[Or, Condition]]:
    parsed: list[Union[Or, Condition]] = []
    for cond in conds:
        if is_condition(cond):
            parsed.append(parse_condition(cond))
            continue
        alternatives = [parse_condition(c) for c in cond]
        if len(alternatives) > 1:
            parsed.append(Or(alternatives))
        else:
            parsed.extend(alternatives)
    return parsed


def json_to_snql(body: Mapping[str, Any], entity: str) -> Request:
'''), (L, '''    having: list[Union[Or, Condition]] = []
    for cond in body.get("having", []):
        if not is_condition(cond):
            or_conditions = []
            for or_cond in cond:
                or_conditions.append(parse_condition(or_cond))

            if len(or_conditions) > 1:
                having.append(Or(or_conditions))
            else:
                having.extend(or_conditions)
        else:
            having.append(parse_condition(cond))

    query = query.set_having(having)
''', '''    query = query.set_having(_parse_conditions(body.get("having", [])))
'''), (L, '''    for cond in body.get("conditions", []):
        if not is_condition(cond):
            or_conditions = []
            for or_cond in cond:
                or_conditions.append(parse_condition(or_cond))

            if len(or_conditions) > 1:
                conditions.append(Or(or_conditions))
            else:
                conditions.extend(or_conditions)
        else:
            conditions.append(parse_condition(cond))
''', '''    conditions += _parse_conditions(body.get("conditions", []))
''')]),
("P33 legacy time columns dict", [(L, '''        time_cols = (("from_date", Op.GTE), ("to_date", Op.LT))
        for col, op in time_cols:
            date_val = body.get(col)
            if date_val:
                conditions.append(
                    Condition(Column(time_column), op, parse_datetime(date_val))
                )
''', '''        time_cols = {"from_date": Op.GTE, "to_date": Op.LT}
        conditions.extend(
            Condition(Column(time_column), op, parse_datetime(body[col]))
            for col, op in time_cols.items()
            if body.get(col)
        )
''')]),
("P34 legacy parse_exp structure", [(L, '''    if isinstance(value, str):
        # Legacy sends raw strings in single quotes, so strip enclosing quotes only
        if not value:
            return value
        elif value.startswith("'") and value.endswith("'"):
            value = value[1:-1]
            return parse_string(value)

        return Column(value)
    elif not isinstance(value, list):
        return parse_scalar(value)
''', '''    if isinstance(value, str):
        # Legacy sends raw strings in single quotes, so strip enclosing quotes only
        quoted = value.startswith("'") and value.endswith("'")
        if value == "":
            return value
        return parse_string(value[1:-1]) if quoted else Column(value)
    if not isinstance(value, list):
        return parse_scalar(value)
''')]),
("P35 legacy children", [(L, '''    children = None
    if isinstance(value[1], list):
        children = list(map(parse_exp, value[1]))
    elif value[1]:
        children = [parse_exp(value[1])]

    return Function(value[0], children, alias)
''', '''    name, params = value[0], value[1]
    if not isinstance(params, list):
        params = [params] if params else None
    children = [parse_exp(p) for p in params] if params is not None else None
    return Function(name, children, alias)
''')]),
]
