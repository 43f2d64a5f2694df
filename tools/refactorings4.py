"""Library-flavoured refactorings (see quiet.py): decorators, descriptors, functional helpers, compiled patterns."""
PD = "probability_distribution/probability_distribution.py"
PO = "probability_distribution/probability_outcome.py"
PS = "probability_distribution/probability_distribution_state.py"
CM, CS, VV = "constraint/constraint_merger.py", "constraint/constraint_set.py", "constraint/var_value_constraint.py"
DE, DK, DH = "expression/dice_expression.py", "expression/drop_keep_expression.py", "expression/dice_expression_helper.py"
BO, NO, AB = "expression/binary_operator_expression.py", "expression/not_expression.py", "expression/abs_expression.py"
IN, LE, PA = "python_dice_interpreter.py", "python_dice_lexer.py", "python_dice_parser.py"
SO, SH = "python_dice_syntax_objects.py", "syntax/dice_syntax_helper.py"
OPS = ["__add__", "__sub__", "__mul__", "__floordiv__", "__equal__", "__not_equal__", "__lt__", "__le__", "__gt__", "__ge__", "__and__",
       "__or__", "max_operator", "min_operator"]

RF = {
    "pd_wraps": [(PD, "import copy\nimport io\n", "import copy\nimport functools\nimport io\n"), (PD, "class ProbabilityDistribution(", '''def _between_distributions(method):
    """refuse operands that are no distributions"""

    @functools.wraps(method)
    def checked(self, other: object) -> IProbabilityDistribution:
        if not isinstance(other, IProbabilityDistribution):
            raise TypeError(f"No {method.__name__} between {ProbabilityDistribution} and {type(other)}")
        return ProbabilityDistribution(self._probability_outcome_factory, method(self, other))

    return checked


class ProbabilityDistribution(''')] + [(PD, '''    def %s(self, other: object) -> IProbabilityDistribution:
        if not isinstance(other, IProbabilityDistribution):
            raise TypeError(f"No %s between {ProbabilityDistribution} and {type(other)}")
        new_result_map = self._combine_distributions(%s, other)
        return ProbabilityDistribution(self._probability_outcome_factory, new_result_map)
''' % (o, o, f), '''    @_between_distributions
    def %s(self, other: object):
        return self._combine_distributions(%s, other)
''' % (o, f)) for o, f in [(o, "operator." + o.strip("_") + ("_" if o in ("__and__", "__or__") else "") if o not in (
        "__equal__", "__not_equal__", "max_operator", "min_operator") else "lambda x, y: x.%s(y)" % o) for o in OPS]],
    "pd_walrus": [(PD, '''        result_map = self.get_result_map()
        return 0 in result_map and result_map[0] != 0
''', '''        return (count := self.get_result_map().get(0)) is not None and count != 0
'''), (PD, '''        for value in self._result_map.values():
            self._outcome_count += value
''', '''        self._outcome_count = sum(map(operator.itemgetter(1), self._result_map.items()))
''')],
    "pd_nonlocal": [(PD, '''        for value in keys:
            at_or_below += histogram_form[value]
            at_most_dict[value] = at_or_below / 1
        return at_most_dict
''', '''
        def below(value: int) -> float:
            nonlocal at_or_below
            at_or_below += histogram_form[value]
            return at_or_below

        for value in keys:
            at_most_dict[value] = below(value)
        return at_most_dict
''')],
    "pd_exitstack": [(PD, "import io\nimport operator\n", "import contextlib\nimport io\nimport operator\n"), (PD, '''        buffer = io.BytesIO()
        figure.savefig(buffer, format="png")
        pyplot.close(figure)
        buffer.seek(0)
''', '''        with contextlib.ExitStack() as stack:
            stack.callback(pyplot.close, figure)
            buffer = io.BytesIO()
            figure.savefig(buffer, format="png")
        buffer.seek(0)
''')],
    "pd_points": [(PD, '''        this_at_most_data = self.at_most()
        other_at_most_data = other_probability.at_most()

        x_values_one = list(this_at_most_data.keys())
        x_values_two = list(other_at_most_data.keys())
        return self._make_line_plot(
            x_values_one,
            [this_at_most_data[x_value] for x_value in x_values_one],
            x_values_two,
            [other_at_most_data[x_value] for x_value in x_values_two],
            this_distribution_name,
            other_distribution_name,
        )
''', '''        columns = []
        for distribution in (self, other_probability):
            data = distribution.at_most()
            columns += [list(data), list(data.values())]
        return self._make_line_plot(*columns, this_distribution_name, other_distribution_name)
''')],
    "po_slots": [(PO, "class ProbabilityOutcome(IProbabilityOutcome):\n", '''class ProbabilityOutcome(IProbabilityOutcome):
    __slots__ = ("_value", "_constraint_set")

'''), (PO, '''    @property
    def value(self) -> int:
        return self._value

    @property
    def constraint_set(self) -> IConstraintSet:
        return self._constraint_set
''', '''    value = property(operator.attrgetter("_value"))
    constraint_set = property(operator.attrgetter("_constraint_set"))
''')],
    "po_setattr": [(PO, '''        self._value = value
        self._constraint_set = constraint_set
''', '''        for field, content in (("_value", value), ("_constraint_set", constraint_set)):
            setattr(self, field, content)
''')],
    "cs_reduce": [(CS, "import operator\n", "import functools\nimport operator\n"), (CS, '''        current_hash = hash(ConstraintSet.__name__)
        for constraint in self._constraints_set:
            current_hash = operator.xor(current_hash, hash(constraint))
        return current_hash
''', '''        return functools.reduce(operator.xor, map(hash, self._constraints_set), hash(ConstraintSet.__name__))
'''), (CS, '''        for constraint in self._constraints_set:
            if not constraint.complies(var_values=var_values):
                return False
        return True
''', '''        return all(map(operator.methodcaller("complies", var_values=var_values), self._constraints_set))
'''), (CS, '''        for constraint in self._constraints_set:
            if not constraint.is_possible():
                return False
        return True
''', '''        impossible = next((constraint for constraint in self._constraints_set if not constraint.is_possible()), None)
        return impossible is None
''')],
    "de_cached": [(DE, "import random\n", "import functools\nimport random\n"), (DE, '''        self._single_dice_outcome_map = get_single_dice_outcome_map(self._string_form.split("d")[1])
        self._number_of_dice = self._get_number_of_dice()
''', '''        self._number_of_dice = self._get_number_of_dice()
'''), (DE, '''    def _get_number_of_dice(self) -> int:
''', '''    @functools.cached_property
    def _single_dice_outcome_map(self):
        return get_single_dice_outcome_map(self._string_form.partition("d")[2])

    def _get_number_of_dice(self) -> int:
''')],
    "dh_compiled": [(DH, '''import re
''', '''import re

_RANGE = re.compile(r"(?P<start>-?\\d+)-(?P<end>-?\\d+)")
'''), (DH, '''    split_range = re.split("-", value)
    range_start: int
    range_end: int

    if re.match(r"\\d+--?\\d+", value) is not None:
        range_start = int(split_range[0])
    else:
        range_start = -int(split_range[1])
    if re.match(r"-?\\d+--\\d+", value) is not None:
        range_end = -int(split_range[-1])
    else:
        range_end = int(split_range[-1])
    return range(min(range_start, range_end), max(range_start, range_end) + 1)
''', '''    low, high = sorted(map(int, _RANGE.fullmatch(value).groups()))
    return range(low, high + 1)
''')],
    "dh_named": [(DH, '''    split_range = re.split("-", value)
    range_start: int
    range_end: int

    if re.match(r"\\d+--?\\d+", value) is not None:
        range_start = int(split_range[0])
    else:
        range_start = -int(split_range[1])
    if re.match(r"-?\\d+--\\d+", value) is not None:
        range_end = -int(split_range[-1])
    else:
        range_end = int(split_range[-1])
    return range(''', '''    if (found := re.fullmatch(r"(?P<start>-?\\d+)-(?P<end>-?\\d+)", value)) is None:
        raise ValueError(f"no range: {value}")
    range_start, range_end = int(found["start"]), int(found.group("end"))
    return range(''')],
    "unary_base": [("expression/unary_expression.py", None, '''from typing import Set

from python_dice.interface.expression.i_dice_expression import IDiceExpression


class UnaryExpression(IDiceExpression):
    """what expressions with one operand share"""

    def __init__(self, expression: IDiceExpression):
        self._expression = expression

    def max(self) -> int:
        return self.get_probability_distribution().max()

    def min(self) -> int:
        return self.get_probability_distribution().min()

    def estimated_cost(self) -> int:
        return self._expression.estimated_cost()

    def get_contained_variables(self) -> Set[str]:
        return self._expression.get_contained_variables()
'''), (NO, "class NotExpression(IDiceExpression):", "class NotExpression(UnaryExpression):"), (NO, '''    IProbabilityDistributionFactory,
)
''', '''    IProbabilityDistributionFactory,
)
from python_dice.src.expression.unary_expression import UnaryExpression
'''), (NO, '''    def __init__(self, expression: IDiceExpression):
        self._expression = expression

''', ""), (NO, '''    def max(self) -> int:
        return self.get_probability_distribution().max()

    def min(self) -> int:
        return self.get_probability_distribution().min()

''', ""), (NO, '''        return int(math.floor(self._expression.estimated_cost() * 1.1))
''', '''        return int(math.floor(super().estimated_cost() * 1.1))
'''), (NO, '''
    def get_contained_variables(
        self,
    ) -> Set[str]:
        return self._expression.get_contained_variables()
''', ""), (NO, "from typing import Callable, Set\n", "from typing import Callable\n"),
        (AB, "class AbsExpression(IDiceExpression):", "class AbsExpression(UnaryExpression):"), (AB, '''    IProbabilityDistributionFactory,
)
''', '''    IProbabilityDistributionFactory,
)
from python_dice.src.expression.unary_expression import UnaryExpression
'''), (AB, '''        self._expression = expression
''', '''        super().__init__(expression)
'''), (AB, '''    def max(self) -> int:
        return self.get_probability_distribution().max()

    def min(self) -> int:
        return self.get_probability_distribution().min()

''', '')],
    "in_modes": [(IN, '''        return_dict = {}
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.%s()
            return_dict = dict(self._state.get_constant_dict())
            return_dict["stdout"] = stdout
        return return_dict
''' % m, '''        return self._report(input_text, operator.methodcaller("%s"), self._state.get_constant_dict)
''' % m) for m in ("roll", "max", "min")] + [(IN, '''    def roll(self, input_text''', '''    def _report(self, input_text, evaluate, known) -> Dict[str, Any]:
        report: Dict[str, Any] = {}
        for token in map(self._parse_line, input_text):
            result = evaluate(token)
            report = {**known(), "stdout": result}
        return report

    def _parse_line(self, line: str):
        expression, _ = self._parser.parse(line, state=self._state)
        return expression

    def roll(self, input_text'''), (IN, '''        return_dict = {}
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.get_probability_distribution()
            return_dict = dict(self._state.get_var_dict())
            return_dict["stdout"] = stdout
        return {key: value.average() for key, value in return_dict.items()}
''', '''        report = self._report(input_text, operator.methodcaller("get_probability_distribution"), self._state.get_var_dict)
        return {key: value.average() for key, value in report.items()}
'''), (IN, "from typing import Dict, List", "import operator\nfrom typing import Any, Dict, List")],
    "le_else": [(LE, '''        try:
            return list(self._lexer.lex(input_text))
        except rply.errors.LexingError as exception:
            input_lines''', '''        try:
            tokens = [*self._lexer.lex(input_text)]
        except rply.errors.LexingError as exception:
            input_lines'''), (LE, '''            new_exception = ValueError(message)
        raise new_exception
''', '''            error = ValueError(message)
        else:
            return tokens
        raise error
''')],
    "le_rows": [(LE, '''            current_line_index = 0
            while len(input_lines[current_line_index]) < source_column_number:
                source_column_number -= len(input_lines[current_line_index]) + 1
                current_line_index += 1
''', '''            current_line_index = 0
            for line in input_lines:
                if len(line) >= source_column_number:
                    break
                source_column_number -= len(line) + 1
                current_line_index += 1
''')],
    "bo_table": [(BO, '''        "<=": operator.le,
        "<": operator.lt,
        ">=": operator.ge,
        ">": operator.gt,
        "AND": operator.and_,
        "OR": lambda x, y: BinaryOperatorExpression.__logical_or__(x, y),  # pylint: disable=unnecessary-lambda
    }
''', '''        "OR": lambda x, y: BinaryOperatorExpression.__logical_or__(x, y),  # pylint: disable=unnecessary-lambda
        **{
            symbol: getattr(operator, name)
            for symbol, name in (("<=", "le"), ("<", "lt"), (">=", "ge"), (">", "gt"), ("AND", "and_"))
        },
    }
''')],
    "ps_vars": [(PS, '''        for old_probability_outcome, count in distribution.get_constraint_result_map().items():
            new_constraint = self._constraint_factory.var_value_constraint(
                name=new_name, values={old_probability_outcome.value}
            )
            new_probability_outcome = copy.deepcopy(old_probability_outcome)
            new_probability_outcome.constraint_set.add_constraint(new_constraint)
            new_probability_outcomes[new_probability_outcome] = count
''', '''        for old_probability_outcome, count in distribution.get_constraint_result_map().items():
            new_probability_outcomes[self._tied(old_probability_outcome, new_name)] = count
'''), (PS, '''    def set_var(
''', '''    def _tied(self, outcome, name: str):
        tied = copy.deepcopy(outcome)
        tied.constraint_set.add_constraint(
            self._constraint_factory.var_value_constraint(name=name, values=set([tied.value]))
        )
        return tied

    def set_var(
''')],
    "so_names": [(SO, '''    (
        "left",
        [
            AddSyntax.get_token_name(),
            SubtractSyntax.get_token_name(),
        ],
    ),
    (
        "left",
        [
            IntegerDivisionSyntax.get_token_name(),
            MultiplySyntax.get_token_name(),
        ],
    ),
    ("left", [BinaryOperatorSyntax.get_token_name()]),
''', '''    *(
        ("left", [syntax.get_token_name() for syntax in level])
        for level in ((AddSyntax, SubtractSyntax), (IntegerDivisionSyntax, MultiplySyntax), (BinaryOperatorSyntax,))
    ),
''')],
    "sh_join": [(SH, '''_DICE_TYPE = f"({_DICE_NUM_TYPE}|{_PERCENTILE_TYPE}|{_FATE_TYPE}|{_CUSTOM_TYPE})"
''', '''_DICE_TYPE = "(" + "|".join((_DICE_NUM_TYPE, _PERCENTILE_TYPE, _FATE_TYPE, _CUSTOM_TYPE)) + ")"
'''), (SH, '''DICE_SYNTAX = _NUMBER_OF_DICE + _DICE_SYMBOL + _DICE_TYPE
''', '''DICE_SYNTAX = "{}{}{}".format(_NUMBER_OF_DICE, _DICE_SYMBOL, _DICE_TYPE)
''')],
    "dk_starmap": [(DK, "import random\nimport re\n", "import itertools\nimport random\nimport re\n"), (DK, '''        if string == "":
            return []
        return [int(n) for n in string.split("|")]
''', '''        return list(map(int, filter(None, string.split("|"))))
'''), (DK, '''            for dice_outcome, count in dice_outcome_map.items():
                for old_key, old_value in current_dict.items():
                    new_key = DropKeepExpression._string_key_to_list(old_key)
                    new_key.append(dice_outcome)
                    new_key.sort()
                    safe_add_to_dict(
                        new_dict,
                        DropKeepExpression._int_list_to_string(new_key),
                        old_value * count,
                    )
''', '''            for (dice_outcome, count), (old_key, old_value) in itertools.product(
                dice_outcome_map.items(), current_dict.items()
            ):
                new_key = [*DropKeepExpression._string_key_to_list(old_key), dice_outcome]
                safe_add_to_dict(new_dict, DropKeepExpression._int_list_to_string(new_key), old_value * count)
''')],
    "pa_loop": [(PA, '''        for syntax in PARSER_EXPRESSIONS:
            syntax.add_production_function(parser_generator, probability_distribution_factory)
''', '''        def register(expressions, *dependencies):
            for expression in expressions:
                expression.add_production_function(parser_generator, *dependencies)

        register(PARSER_EXPRESSIONS, probability_distribution_factory)
''')],
}
GROUPS = {
    "m1": ["pd_wraps", "pd_walrus", "pd_nonlocal", "pd_exitstack", "pd_points", "po_slots", "cs_reduce", "de_cached", "dh_compiled", "unary_base"],
    "m2": ["in_modes", "le_else", "bo_table", "ps_vars", "so_names", "sh_join", "dk_starmap", "pa_loop", "po_setattr", "dh_named"],
    "m3": ["le_rows"],
}
for g, ids in GROUPS.items():
    RF[g] = [e for i in ids for e in RF[i]]
