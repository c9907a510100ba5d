"""Contracts and drivers: MQL parsing (C14).

The reference grammar below is the specification of which texts are MQL and how they are divided; the denotation
functions (one per grammar rule that builds something) say which value each construct denotes.  The PEG engine
(parsimonious) is trusted.  Each visitor method is checked against its denotation for all texts and all children
of the shapes the rule can produce; the result for whole texts follows by induction on the parse tree.
"""
from contracts.metrics import *  # noqa: F401,F403
from contracts.metrics import N, R, driver
from contracts.spec import *  # noqa: F401,F403
from contracts.types import COLUMN_NAME
import re

from engine import regex
from engine.builtin import partial_op
from engine.lang import Rejected, contract, foreign, fullmatch, mk, opaque, updated
from engine.sym import Unsupported
from engine.ty import obj

from parsimonious.exceptions import ParseError
from parsimonious.grammar import Grammar

from snuba_sdk.mql import mql as mql_module
from snuba_sdk.mql.mql import FilterFactor, InvalidMQLQueryError, MQLVisitor

REFERENCE_GRAMMAR_TEXT = r"""
expression = term (_ expr_op _ term)*
expr_op = "+" / "-"

term = unary (_ term_op _ unary)*
term_op = "*" / "/"

unary = unary_op? coefficient
unary_op = "-"

coefficient = number / quoted_string / filter

number = ~r"[0-9]+" ("." ~r"[0-9]+")?
filter = target (open_brace (_ filter_expr _ )? close_brace)? (group_by)?

filter_expr = filter_term (_ or _ filter_term)*
filter_term = filter_factor (_ joint_operator? _ filter_factor)*
filter_factor = (condition_op? (variable / tag_key) _ colon _ tag_value) / nested_expr
nested_expr = open_paren _ filter_expr _ close_paren
condition_op = "!"

joint_operator = comma / and

tag_key = ~r"[a-zA-Z0-9_.]+"
tag_value = quoted_suffix_wildcard_tag_value / suffix_wildcard_tag_value / quoted_string_filter / unquoted_string_filter / string_tuple / variable
suffix_wildcard_tag_value = unquoted_string wildcard
quoted_suffix_wildcard_tag_value = quote unquoted_string wildcard quote

quoted_string_filter = ~r'"([^"\\]*(?:\\.[^"\\]*)*)"'
unquoted_string_filter = ~r'[^,\[\]\"}{\(\)\s\*]+'
string_tuple = open_square_bracket _ (quoted_string / unquoted_string) (_ comma _ (quoted_string / unquoted_string))* _ close_square_bracket

quoted_string = ~r'"([^"\\]*(?:\\.[^"\\]*)*)"'
unquoted_string = ~r'[^,\[\]\"}{\(\)\s\*]+'

target = variable / nested_expression / function / metric
variable = "$" ~r"[a-zA-Z0-9_.]+"
nested_expression = open_paren _ expression _ close_paren

function = (curried_aggregate / curried_arbitrary_function / aggregate / arbitrary_function) (group_by)?
aggregate = aggregate_name (open_paren _ inner_filter _ close_paren)
aggregate_name = ~r"[a-zA-Z0-9_]+"
arbitrary_function = arbitrary_function_name (open_paren ( _ expression _ ) (_ comma _ expression)* close_paren)
arbitrary_function_name = ~r"[a-zA-Z0-9_]+"
curried_aggregate = curried_aggregate_name (open_paren _ aggregate_list? _ close_paren) (open_paren _ inner_filter _ close_paren)
curried_aggregate_name = ~r"[a-zA-Z0-9_]+"
curried_arbitrary_function = curried_arbitrary_function_name (open_paren _ aggregate_list? _ close_paren) (open_paren _ ( _ expression _ ) (_ comma _ expression)* close_paren)
curried_arbitrary_function_name = ~r"[a-zA-Z0-9_]+"

aggregate_list = param* (param_expression)
param = param_expression _ comma _
param_expression = number / quoted_string / unquoted_string

group_by = _ "by" _ (group_by_name / group_by_name_tuple)
group_by_name = ~r"[a-zA-Z0-9_.]+"
group_by_name_tuple = open_paren _ group_by_name (_ comma _ group_by_name)* _ close_paren

inner_filter = metric (open_brace (_ filter_expr _)? close_brace)? (group_by)?
metric = quoted_mri / unquoted_mri / quoted_public_name / unquoted_public_name
quoted_mri = backtick lenient_mri backtick
lenient_mri = ~r'[^:`]+:[^/`]+/[^@,`]+@[^`]+'
unquoted_mri = ~r'[^:\(\){}\[\]"`,]+:[^/\(\){}\[\]"`,]+/[^@\(\){}\[\]"`,]+@[^\(\){}\[\]"`,]+'
quoted_public_name = backtick unquoted_public_name backtick
unquoted_public_name = ~r"([a-z_]+(?:\.[a-z_]+)*)"

open_paren = "("
close_paren = ")"
open_square_bracket = "["
close_square_bracket = "]"
open_brace = "{"
close_brace = "}"
comma = ","
backtick = "`"
colon = ":"
and = "AND" / "and"
or = "OR" / "or"
quote = "\""
wildcard = "*"
_ = ~r"\s*"
"""

REFERENCE_GRAMMAR = Grammar(REFERENCE_GRAMMAR_TEXT)
# what the aggregate field holds until the aggregate is known
PLACEHOLDER = "AGGREGATE_PLACEHOLDER"


def make_formula(name, parameters, aggregate_params):
    return mk(Formula, function_name=name, parameters=parameters, aggregate_params=aggregate_params, filters=None,
              groupby=None)


def make_timeseries(metric):
    return mk(Timeseries, metric=metric, aggregate=PLACEHOLDER, aggregate_params=None, filters=None, groupby=None)


def make_metric(public_name, mri):
    return mk(Metric, public_name=public_name, mri=mri, id=None)


# ------------------------------------------------------------------ denotations: (text, children) -> value
def fold_left(first, rest):
    out = first
    for r in rest:
        out = make_formula(r[1], [out, r[3]], None)
    return out


def d_expression(text, children):
    return fold_left(children[0], children[1])


def d_expr_op(text, children):
    return "plus" if text == "+" else "minus"


def d_term_op(text, children):
    return "multiply" if text == "*" else "divide"


def d_unary(text, children):
    value = children[1]
    if not children[0]:
        return value
    if isinstance(value, (float, int)):
        return -value
    if isinstance(value, (Formula, Timeseries)):
        return make_formula(children[0][0], [value], None)
    raise Rejected


def d_unary_op(text, children):
    return "negate"


def d_first(text, children):
    return children[0]


def d_number(text, children):
    return float(text)


def with_filter(target, condition):
    return updated(target, filters=[condition] + (target.filters if target.filters else []))


def with_groupby(target, packed):
    names = packed if isinstance(packed, list) else [packed]
    return updated(target, groupby=names + (target.groupby if target.groupby else []))


def apply_braces(target, braces, groupby):
    if braces and braces[0][1]:
        target = with_filter(target, braces[0][1][0][1])
    if groupby:
        target = with_groupby(target, groupby[0])
    return target


def d_filter(text, children):
    return apply_braces(children[0], children[1], children[2])


def joined(children, cls, op):
    if not children[1]:
        return children[0]
    return mk(cls, op=op, conditions=[children[0]] + [c[3] for c in children[1]])


def d_filter_expr(text, children):
    return joined(children, Or, BooleanOp.OR)


def d_filter_term(text, children):
    return joined(children, And, BooleanOp.AND)


def condition_operator(negated, wildcard, value):
    if wildcard:
        return Op.NOT_LIKE if negated else Op.LIKE
    if isinstance(value, list):
        return Op.NOT_IN if negated else Op.IN
    return Op.NEQ if negated else Op.EQ


def d_filter_factor(text, children):
    factor = children[0]
    if isinstance(factor, (Condition, BooleanCondition)):
        return factor
    value = factor[5]
    return mk(Condition, lhs=factor[1][0],
              op=condition_operator(bool(factor[0]), value.contains_wildcard, value.value), rhs=value.value)


def d_third(text, children):
    return children[2]


def d_function(text, children):
    return apply_braces(children[0][0], [], children[1])


def d_group_by(text, children):
    return children[3][0]


def d_condition_op(text, children):
    return Op.NOT


def d_column(text, children):
    return column_spec(text, None)


def d_quoted_wildcard(text, children):
    return mk(FilterFactor, value=children[1] + "*", contains_wildcard=True)


def d_wildcard(text, children):
    return mk(FilterFactor, value=children[0] + "*", contains_wildcard=True)


def unquoted(text):
    return text[1:-1].replace('\\"', '"')


def d_quoted_string_filter(text, children):
    return mk(FilterFactor, value=unquoted(text), contains_wildcard=False)


def d_unquoted_string_filter(text, children):
    return mk(FilterFactor, value=text, contains_wildcard=False)


def d_text(text, children):
    return text


def d_quoted_string(text, children):
    return unquoted(text)


def d_string_tuple(text, children):
    return mk(FilterFactor, value=[children[2][0]] + [c[3][0] for c in children[3]], contains_wildcard=False)


def d_group_by_name_tuple(text, children):
    return [children[2]] + [c[3] for c in children[3]]


def d_target(text, children):
    value = children[0]
    if isinstance(value, list):
        return make_timeseries(value[0])
    return value


def d_variable(text, children):
    raise Rejected


def d_nested_expression(text, children):
    if not isinstance(children[2], (Formula, Timeseries)):
        raise Rejected
    return children[2]


def d_aggregate(text, children):
    return updated(children[1][2], aggregate=children[0], aggregate_params=None)


def aggregate_list(packed):
    return packed[2][0] if packed[2] else []


def d_curried_aggregate(text, children):
    return updated(children[2][2], aggregate=children[0], aggregate_params=aggregate_list(children[1]))


def is_bare(target):
    return isinstance(target, Timeseries) and target.aggregate == PLACEHOLDER


def call_arguments(first, rest):
    return [first] + [r[3] for r in rest]


def d_arbitrary_function(text, children):
    target = children[1][1][1]
    if is_bare(target):
        raise Rejected
    return make_formula(children[0], call_arguments(target, children[1][2]), None)


def d_curried_arbitrary_function(text, children):
    params = aggregate_list(children[1])
    target = children[2][2][1]
    if is_bare(target):
        return updated(target, aggregate=children[0], aggregate_params=params)
    return make_formula(children[0], call_arguments(target, children[2][3]), params)


def d_inner_filter(text, children):
    return apply_braces(make_timeseries(children[0][0]), children[1], children[2])


def d_aggregate_list(text, children):
    return children[0] + [children[1]]


def d_quoted_mri(text, children):
    return make_metric(None, text[1:-1])


def d_mri(text, children):
    return make_metric(None, text)


def d_quoted_public_name(text, children):
    return make_metric(text[1:-1], None)


def d_public_name(text, children):
    return make_metric(text, None)


def d_children(text, children):
    return children


DENOTE = {
    "expression": d_expression, "expr_op": d_expr_op, "term": d_expression, "term_op": d_term_op, "unary": d_unary,
    "unary_op": d_unary_op, "coefficient": d_first, "number": d_number, "filter": d_filter,
    "filter_expr": d_filter_expr, "filter_term": d_filter_term, "filter_factor": d_filter_factor,
    "nested_expr": d_third, "function": d_function, "group_by": d_group_by, "condition_op": d_condition_op,
    "tag_key": d_column, "tag_value": d_first, "quoted_suffix_wildcard_tag_value": d_quoted_wildcard,
    "suffix_wildcard_tag_value": d_wildcard, "quoted_string_filter": d_quoted_string_filter,
    "unquoted_string_filter": d_unquoted_string_filter, "unquoted_string": d_text, "quoted_string": d_quoted_string,
    "string_tuple": d_string_tuple, "group_by_name": d_column, "group_by_name_tuple": d_group_by_name_tuple,
    "target": d_target, "variable": d_variable, "nested_expression": d_nested_expression, "aggregate": d_aggregate,
    "curried_aggregate": d_curried_aggregate, "arbitrary_function": d_arbitrary_function,
    "curried_arbitrary_function": d_curried_arbitrary_function, "inner_filter": d_inner_filter, "param": d_first,
    "param_expression": d_first, "aggregate_list": d_aggregate_list, "aggregate_name": d_text,
    "curried_aggregate_name": d_text, "arbitrary_function_name": d_text, "curried_arbitrary_function_name": d_text,
    "quoted_mri": d_quoted_mri, "lenient_mri": d_mri, "unquoted_mri": d_mri,
    "quoted_public_name": d_quoted_public_name, "unquoted_public_name": d_public_name,
}


@opaque("bool")
def meaningful(rule, text, children):
    """The node has a meaning."""
    try:
        DENOTE.get(rule, d_children)(text, children)
    except Exception:
        return False
    return True


@opaque("val")
def meaning(rule, text, children):
    """What a node of a rule means, given what its children mean."""
    return DENOTE.get(rule, d_children)(text, children)


meaning.__ty__ = R("MValue")


def evaluated(node):
    """tree_step, all the way down (run natively only)."""
    return DENOTE.get(node.expr_name, d_children)(node.text, [evaluated(c) for c in node.children])


@opaque("bool")
def tree_ok(node):
    """tree_step of the node does not raise."""
    try:
        evaluated(node)
    except Exception:
        return False
    return True


@opaque("val")
def tree_value(node):
    """tree_step of the node."""
    return evaluated(node)


tree_value.__ty__ = R("MValue")


@contract("snuba_sdk.mql.mql:MQLVisitor.visit", prop="C14", types=dict(node=R("MNode")))
def visit_contract(self, node):
    return tree_meaning(node)


def tree_meaning(node):
    """What a parse tree means."""
    if not tree_ok(node):
        raise Rejected
    return tree_value(node)


def tree_step(node):
    children = [tree_meaning(c) for c in node.children]
    rule = node.expr_name
    if rule not in DENOTE:
        return children
    if not meaningful(rule, node.text, children):
        raise Rejected
    return meaning(rule, node.text, children)


def parse_spec(text):
    try:
        tree = REFERENCE_GRAMMAR.parse(text.strip())
    except ParseError:
        raise InvalidMQLQueryError
    value = tree_meaning(tree)
    if not isinstance(value, (Timeseries, Formula)):
        raise Rejected
    return value


# ------------------------------------------------------------------ the shapes of parse trees
class MNode:
    """A parse tree node, as the visitor sees it.  Values of this class stand for parse trees that the PEG engine
    built from the grammar (trusted): a node of a rule has children of the shapes that the rule derives, and its
    text matches the rule."""

    def __iter__(self):
        return iter(self.children)


MCOND = R("MCond")
TEXTS = listof(STR, facts=("elements_deep",))
TYPES.update(
    MColumn=obj(Column, "MColumn", name=strt(hint="mname"), entity=NONE, subscriptable=opt(STR), key=opt(STR)),
    MMetric=union(obj(Metric, "MMetric", public_name=strt(hint="metric"), mri=NONE, id=NONE),
                  obj(Metric, "MMri", public_name=NONE, mri=strt(hint="mri"), id=NONE)),
    MCond=union(obj(Condition, "MCondition", lhs=R("MColumn"), op=enumt(Op), rhs=union(STR, TEXTS)),
                obj(And, "MAnd", op=const(BooleanOp.AND), conditions=listof(MCOND, minlen=2)),
                obj(Or, "MOr", op=const(BooleanOp.OR), conditions=listof(MCOND, minlen=2))),
    MFactor=union(obj(FilterFactor, "MWild", value=STR, contains_wildcard=const(True)),
                  obj(FilterFactor, "MPlain", value=union(STR, TEXTS), contains_wildcard=const(False))),
    MTimeseries=obj(Timeseries, "MTimeseries", metric=R("MMetric"), aggregate=strt(hint="magg"),
                    aggregate_params=opt(listof(union(STR, FLOAT))), filters=opt(listof(MCOND)),
                    groupby=opt(listof(R("MColumn")))),
    MBare=obj(Timeseries, "MBare", metric=R("MMetric"), aggregate=const(PLACEHOLDER),
              aggregate_params=NONE, filters=opt(listof(MCOND)), groupby=opt(listof(R("MColumn")))),
    MFormula=obj(Formula, "MFormula", function_name=strt(hint="formula"), parameters=listof(R("MExp")),
                 aggregate_params=opt(listof(union(STR, FLOAT))), filters=opt(listof(MCOND)),
                 groupby=opt(listof(R("MColumn")))),
    MTarget=union(R("MTimeseries"), R("MFormula")),
    MExp=union(R("MTarget"), FLOAT, STR),
    MValue=union(R("MExp"), R("MCond"), R("MFactor"), R("MColumn"), R("MMetric"), enumt(Op), listof(R("MValue"))),
)
MPARAM = union(STR, FLOAT)
NEVER = None
# what the visitor makes of each rule
RESULT = {
    "expression": R("MExp"), "term": R("MExp"), "unary": R("MExp"), "coefficient": R("MExp"), "number": FLOAT,
    "expr_op": const("plus", "minus"), "term_op": const("multiply", "divide"), "unary_op": const("negate"),
    "filter": R("MTarget"), "filter_expr": MCOND, "filter_term": MCOND, "filter_factor": MCOND, "nested_expr": MCOND,
    "function": R("MTarget"), "group_by": union(R("MColumn"), listof(R("MColumn"))), "condition_op": const(Op.NOT),
    "tag_key": R("MColumn"), "tag_value": R("MFactor"), "quoted_suffix_wildcard_tag_value": R("MFactor"),
    "suffix_wildcard_tag_value": R("MFactor"), "quoted_string_filter": R("MFactor"), "unquoted_string_filter": R("MFactor"),
    "unquoted_string": STR, "quoted_string": STR, "string_tuple": R("MFactor"), "group_by_name": R("MColumn"),
    "group_by_name_tuple": listof(R("MColumn")), "target": R("MTarget"), "variable": NEVER,
    "nested_expression": R("MTarget"), "aggregate": R("MTimeseries"), "curried_aggregate": R("MTimeseries"),
    "arbitrary_function": R("MFormula"), "curried_arbitrary_function": R("MTarget"), "inner_filter": R("MBare"),
    "param": MPARAM, "param_expression": MPARAM, "aggregate_list": listof(MPARAM), "aggregate_name": STR,
    "curried_aggregate_name": STR, "arbitrary_function_name": STR, "curried_arbitrary_function_name": STR,
    "quoted_mri": R("MMetric"), "lenient_mri": R("MMetric"), "unquoted_mri": R("MMetric"),
    "quoted_public_name": R("MMetric"), "unquoted_public_name": R("MMetric"),
}


def kind(expr):
    return type(expr).__name__


def value_type(expr):
    """Type of what the visitor makes of a node of this grammar expression (NEVER if it always raises)."""
    return RESULT[expr.name] if expr.name in RESULT else children_type(expr)


def children_type(expr):
    """Type of the list of values of the children of such a node."""
    if kind(expr) in ("Literal", "Regex"):
        return fixed_list()
    if kind(expr) == "Sequence":
        ts = [value_type(m) for m in expr.members]
        return NEVER if NEVER in ts else fixed_list(*ts)
    if kind(expr) == "OneOf":
        ts = [t for t in map(value_type, expr.members) if t is not NEVER]
        return fixed_list(ts[0] if len(ts) == 1 else union(*ts)) if ts else NEVER
    if kind(expr) == "Quantifier":
        t = value_type(expr.members[0])
        if expr.max == 1:
            return union(fixed_list(), fixed_list(t))
        return listof(t, minlen=expr.min)
    raise TypeError(kind(expr))


def text_type(expr):
    """Type of the text of such a node."""
    if kind(expr) == "Literal":
        return const(expr.literal)
    if kind(expr) == "Regex":
        try:
            regex.lang_id(re.compile(expr.re.pattern), "fullmatch")
        except Exception:
            return strt(hint="mtext")
        return strt(regex=expr.re.pattern, hint="mtext")
    if kind(expr) == "OneOf" and all(kind(m) == "Literal" for m in expr.members):
        return const(*[m.literal for m in expr.members])
    return strt(hint="mtext")


def same_grammar(a, b):
    """The two grammars are the same, rule by rule, as far as the visitor can tell (rules that mean nothing by
    themselves count as if they were written out where they are used)."""
    seen = set()

    def inner(x, y):
        if kind(x) != kind(y):
            return False
        if kind(x) == "Literal":
            return x.literal == y.literal
        if kind(x) == "Regex":
            return (x.re.pattern, x.re.flags) == (y.re.pattern, y.re.flags)
        if kind(x) == "Quantifier" and (x.min, x.max) != (y.min, y.max):
            return False
        if kind(x) not in ("Sequence", "OneOf", "Quantifier"):
            return False
        return len(x.members) == len(y.members) and all(ref(p, q) for p, q in zip(x.members, y.members))

    def ref(x, y):
        nx = x.name if x.name in RESULT or x.name in a and hasattr(MQLVisitor, "visit_" + x.name) else ""
        ny = y.name if y.name in RESULT else ""
        if nx != ny:
            return False
        if (x, y) in seen or (x.name, y.name) in seen and x.name and y.name:
            return True
        seen.add((x.name, y.name))
        return inner(x, y)

    return ref(a.default_rule, b.default_rule)


SAME_GRAMMAR = same_grammar(mql_module.MQL_GRAMMAR, REFERENCE_GRAMMAR)
TYPES["MNode"] = obj(MNode, "MNode", expr_name=const("", *REFERENCE_GRAMMAR), text=STR, children=listof(R("MNode")))


@foreign(Grammar, "parse")
def grammar_parse(E, grammar, args):
    """The PEG engine (trusted): a parse tree, or ParseError; a function of grammar and text."""
    if grammar is not REFERENCE_GRAMMAR and not (grammar is mql_module.MQL_GRAMMAR and SAME_GRAMMAR):
        raise Unsupported("grammar differs from the reference grammar")
    return partial_op(E, "peg_parse", args[0], R("MNode"), ParseError)


def visitor_contract(rule):
    @contract("snuba_sdk.mql.mql:MQLVisitor.visit_" + rule, prop="C14",
              types=dict(node=R("MNode"), children=listof(R("MValue"))))
    def spec(self, node, children):
        if not meaningful(rule, node.text, children):
            raise Rejected
        return meaning(rule, node.text, children)


def visitor_code(rule):
    def code(node, children):
        visitor = MQLVisitor()
        return getattr(visitor, "visit_" + rule, visitor.generic_visit)(node, children)
    return code


def visitor_spec(rule):
    f = DENOTE[rule]

    def spec(node, children):
        return f(node.text, children)
    return spec


# ------------------------------------------------------------------ drawing MQL texts
TERMINALS = {
    "tag_key": ["a", "bar", "a.b", "A_1", "x", "bar", "tags", "transaction", "b"], "aggregate_name": ["sum", "max", "count", "p95"],
    "arbitrary_function_name": ["apdex", "f", "failure_rate", "sum"], "curried_aggregate_name": ["quantiles", "topK"],
    "curried_arbitrary_function_name": ["topK", "quantile", "histogram"],
    "group_by_name": ["a", "b", "transaction", "c.d", "a", "b", "d", "e"],
    "quoted_string_filter": ['"x"', '""', '"a b"', '"a\\"b"', '"*"', '"a\\\\"', '"x*y"', '"AND"', '"\\n"', '"a\\"b\\"c"', '"\\"\\""'],
    "quoted_string": ['"x"', '"y z"', '"a\\"b\\""', '""', '"a,b"'],
    "unquoted_string_filter": ["x", "1", "a:b", "a-b", "OR", "a.b", "x/y@z"],
    "unquoted_string": ["x", "v1", "a:b", "2", "a.b"],
    "lenient_mri": ["d:transactions/duration@millisecond", "c:custom/a b@none", "d:x/y(z)@w{}"],
    "unquoted_mri": ["d:transactions/duration@millisecond", "c:custom/x@none", "s:a/b c@d"],
    "unquoted_public_name": ["transaction.duration", "a", "_", "a.b.c", "by"],
}
REGEXES = {r"[0-9]+": ["0", "1", "300", "05", "10000001", "123456789", "99999999999999999999"], r"\s*": ["", "", "", "", "", " ", " ", " ", "\n"],
           r"[a-zA-Z0-9_.]+": ["x", "y.z"]}


def sentence(expr, rng, depth):
    """A random text of a grammar expression."""
    from parsimonious.expressions import Literal, Regex, Sequence as Seq, OneOf, Quantifier
    if expr.name in ("tag_key", "group_by_name") and rng.random() < 0.01:
        return rng.choice(["0x", "9", ".a"])
    if expr.name == "group_by":
        return " by " + sentence(expr.members[3], rng, depth + 1)
    if expr.name in ("and", "or", "comma"):
        return rng.choice([" " + expr.members[0].literal + " ", expr.members[1].literal + " "]) if hasattr(
            expr, "members") and len(expr.members) == 2 else ","
    if expr.name in TERMINALS:
        return rng.choice(TERMINALS[expr.name])
    if isinstance(expr, Literal):
        return expr.literal
    if isinstance(expr, Regex):
        return rng.choice(REGEXES.get(expr.re.pattern, ["a"]))
    if isinstance(expr, Seq):
        return "".join(sentence(m, rng, depth + 1) for m in expr.members)
    if isinstance(expr, OneOf):
        ms = list(expr.members)
        if depth > 22:
            names = [m.name for m in ms]
            if "metric" in names:
                ms = [m for m in ms if m.name == "metric"]
            elif "number" in names:
                ms = [m for m in ms if m.name == "number"]
            elif "aggregate" in names:
                ms = [m for m in ms if m.name == "aggregate"]
            elif ms[-1].name == "nested_expr":
                ms = ms[:-1]
        elif any(m.name == "filter" for m in ms) and (depth < 6 or rng.random() < 0.85):
            ms = [m for m in ms if m.name == "filter"]
        elif any(m.name == "number" for m in ms) and rng.random() < 0.8:
            ms = [m for m in ms if m.name == "number"]
        if any(m.name == "variable" for m in ms) and rng.random() < 0.99:
            ms = [m for m in ms if m.name != "variable"]
        return sentence(rng.choice(ms), rng, depth + 1)
    if isinstance(expr, Quantifier):
        lo, hi = expr.min, expr.max
        n = lo
        if hi != lo and rng.random() < (0.4 if depth < 9 else 0.25 if depth < 16 else 0.06):
            n = lo + (1 if hi == 1 else rng.choice([1, 1, 2, 3]))
        return "".join(sentence(expr.members[0], rng, depth + 1) for _ in range(n))
    return ""


def draw_mql(args, pool):
    rng = pool.rng
    x = rng.random()
    if x < 0.1:
        return args
    text = sentence(REFERENCE_GRAMMAR["expression"], rng, 0)
    if x < 0.3:
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(text) + 1)
            y = rng.random()
            if y < 0.4:
                text = text[:i] + text[i + 1:]
            elif y < 0.8:
                text = text[:i] + rng.choice(list('+-*/(){}[],:!"`$ \\ab1.@\n') + [" AND ", " OR ", " by ", "*"]) + text[i:]
            else:
                text = text + rng.choice([" ", ")", "\n", "}"])
    return {"text": text}


def draw_node(rule):
    """Natively: nodes of the rule, from texts of the rule, and what their children mean."""
    def draw(args, pool):
        while True:
            try:
                node = REFERENCE_GRAMMAR[rule].parse(sentence(REFERENCE_GRAMMAR[rule], pool.rng, 8))
                children = [evaluated(c) for c in node.children]
            except Exception:
                continue
            return dict(node=mnode(node), children=children)
    return draw


def draw_tree(args, pool):
    try:
        return dict(node=mnode(REFERENCE_GRAMMAR.parse(draw_mql(dict(text="sum(a)"), pool)["text"])))
    except ParseError:
        return dict(node=mnode(REFERENCE_GRAMMAR.parse("sum(a)")))


def mnode(node):
    n = MNode()
    n.expr_name, n.text, n.children = node.expr_name, node.text, [mnode(c) for c in node.children]
    return n


if SAME_GRAMMAR:
    METHODS = ["snuba_sdk.mql.mql:MQLVisitor.visit_" + r for r in DENOTE]
    for _r in DENOTE:
        if hasattr(MQLVisitor, "visit_" + _r):
            visitor_contract(_r)
        _e = REFERENCE_GRAMMAR[_r]
        _c = children_type(_e)
        if _c is NEVER:
            _c = listof(R("MValue"))
        driver("C14", "visit_" + _r, dict(node=obj(MNode, "MNode_" + _r, expr_name=const(_r), text=text_type(_e),
                                                   children=listof(R("MNode"))), children=_c),
               visitor_code(_r), visitor_spec(_r), exc="loose", consumes=["children"], returns=RESULT[_r], under=METHODS,
               prepare=draw_node(_r))
    driver("C14", "visit", dict(node=R("MNode")), lambda node: MQLVisitor().visit(node), tree_step, exc="loose",
           prepare=draw_tree, under=["snuba_sdk.mql.mql:MQLVisitor.visit"])
driver("C14", "lemma: texts are scalars", dict(v=listof(STR)), lambda v: elements_deep(v), lambda v: True,
       unfold=[elements_deep], lemma=True)
driver("C14", "parse_mql", dict(text=strt(hint="mql")), lambda text: mql_module.parse_mql(text), parse_spec,
       exc="loose", prepare=draw_mql, under=["snuba_sdk.mql.mql:parse_mql"])
