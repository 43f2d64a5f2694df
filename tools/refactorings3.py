"""Structural refactorings (see quiet.py): base classes, new modules, class factories, other containers."""
PD = "probability_distribution/probability_distribution.py"
PO = "probability_distribution/probability_outcome.py"
PS = "probability_distribution/probability_distribution_state.py"
CM, CS, VV = "constraint/constraint_merger.py", "constraint/constraint_set.py", "constraint/var_value_constraint.py"
DE, DK, DH = "expression/dice_expression.py", "expression/drop_keep_expression.py", "expression/dice_expression_helper.py"
BO, MM, ID = "expression/binary_operator_expression.py", "expression/minmax_expression.py", "expression/integer_division_expression.py"
VA, GV = "expression/var_assignment_expression.py", "expression/get_var_expression.py"
IN, LE, PA = "python_dice_interpreter.py", "python_dice_lexer.py", "python_dice_parser.py"
SO = "python_dice_syntax_objects.py"

BASE = '''import abc
from typing import Set

from python_dice.interface.expression.i_dice_expression import IDiceExpression


class TwoOperandExpression(IDiceExpression, abc.ABC):
    """shared behaviour of expressions that combine two others"""

    def __init__(self, expression_one: IDiceExpression, expression_two: IDiceExpression):
        self._expression_one = expression_one
        self._expression_two = expression_two

    def _operands(self):
        return self._expression_one, self._expression_two

    def max(self) -> int:
        return self.get_probability_distribution().max()

    def min(self) -> int:
        return self.get_probability_distribution().min()

    def estimated_cost(self) -> int:
        return sum(operand.estimated_cost() for operand in self._operands())

    def get_contained_variables(self) -> Set[str]:
        variables: Set[str] = set()
        for operand in self._operands():
            variables |= operand.get_contained_variables()
        return variables
'''
INIT = '''    def __init__(
        self,
        expression_one: IDiceExpression,
        expression_two: IDiceExpression,
    ):
        self._expression_one = expression_one
        self._expression_two = expression_two

'''
MAXMIN = '''    def max(self) -> int:
        return self.get_probability_distribution().max()

    def min(self) -> int:
        return self.get_probability_distribution().min()

'''
COST = '''    def estimated_cost(self) -> int:
        return self._expression_one.estimated_cost() + self._expression_two.estimated_cost()

'''
VARS = '''
    def get_contained_variables(
        self,
    ) -> Set[str]:
        return self._expression_one.get_contained_variables().union(self._expression_two.get_contained_variables())
'''


def based(f, cls, keep=()):
    out = [(f, "class %s(IDiceExpression):" % cls, "class %s(TwoOperandExpression):" % cls),
           (f, "import rply  # type: ignore\n", "import rply  # type: ignore\n\nfrom python_dice.src.expression.two_operand_expression import TwoOperandExpression\n")]
    for n, t in (("init", INIT), ("maxmin", MAXMIN), ("cost", COST), ("vars", VARS)):
        if n not in keep:
            out.append((f, t, ""))
    return out


CHECK = '''        if not isinstance(other, IProbabilityDistribution):
            raise TypeError(f"No %s between {ProbabilityDistribution} and {type(other)}")
        new_result_map = self._combine_distributions(%s, other)
        return ProbabilityDistribution(self._probability_outcome_factory, new_result_map)
'''
SIG = "    def %s(self, other: object) -> IProbabilityDistribution:\n"
PDOPS = [("__add__", "operator.add"), ("__sub__", "operator.sub"), ("__mul__", "operator.mul"), ("__floordiv__", "operator.floordiv"),
         ("__equal__", "lambda x, y: x.__equal__(y)"), ("__not_equal__", "lambda x, y: x.__not_equal__(y)"), ("__lt__", "operator.lt"),
         ("__le__", "operator.le"), ("__gt__", "operator.gt"), ("__ge__", "operator.ge"), ("__and__", "operator.and_")]

RF = {
    "base_class": [("expression/two_operand_expression.py", None, BASE)] + based("expression/add_expression.py", "AddExpression")
    + based("expression/subtract_expression.py", "SubtractExpression") + based(ID, "IntegerDivisionExpression", ("maxmin",)),
    "pd_factory_ops": [(PD, '''class ProbabilityDistribution(IProbabilityDistribution):
''', '''def _distribution_operator(name: str, combination_function: Callable) -> Callable:
    def combine(self, other: object) -> IProbabilityDistribution:
        if not isinstance(other, IProbabilityDistribution):
            raise TypeError(f"No {name} between {ProbabilityDistribution} and {type(other)}")
        return ProbabilityDistribution(
            self._probability_outcome_factory, self._combine_distributions(combination_function, other)
        )

    combine.__name__ = name
    return combine


class ProbabilityDistribution(IProbabilityDistribution):
''')] + [(PD, SIG % n + CHECK % (n, f), '    %s = _distribution_operator("%s", %s)\n' % (n, n, f)) for n, f in PDOPS],
    "po_partialmethod": [(PO, "import operator\n", "import functools\nimport operator\n")]
    + [(PO, '''    def __%s__(self, other: object) -> IProbabilityOutcome:
        return self._combine(combination_function=operator.%s, other=other)
''' % (n, o), '''    def __%s__(self, other: object) -> IProbabilityOutcome:
        return self.__arithmetic(operator.%s, other)
''' % (n, o)) for n, o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("floordiv", "floordiv"))]
    + [(PO, '''    def is_possible(self) -> bool:
''', '''    def __arithmetic(self, function: Callable[[int, int], int], other: object) -> IProbabilityOutcome:
        return functools.partial(self._combine, combination_function=function)(other=other)

    def is_possible(self) -> bool:
''')],
    "const_value": [("expression/constant_integer_expression.py", '''        self._number = number
''', '''        self._number = number
        self._value = int(number)
'''), ("expression/constant_integer_expression.py", "        return int(self._number)\n", "        return self._value\n"),
                    ("expression/constant_integer_expression.py", "create({int(self._number): 1})", "create({self._value: 1})"),
                    ("expression/constant_binary_expression.py", '''        return 1 if self._binary_string == "True" else 0
''', '''        return int(self._binary_string == "True")
''')],
    "dice_text": [("expression/dice_text.py", None, '''import re
from typing import NamedTuple, Optional


class DiceText(NamedTuple):
    """the parts of the text of a dice expression"""

    number_of_dice: int
    sides: str
    selection: Optional[str] = None
    number_selected: int = 0

    @classmethod
    def parse(cls, text: str) -> "DiceText":
        number, sides, *rest = re.split(r"[dk]", text)
        number_of_dice = int(number) if number else 1
        if not rest:
            return cls(number_of_dice, sides)
        return cls(number_of_dice, sides, "k" if "k" in text else "d", int(rest[0]))
'''), (DE, '''from python_dice.src.expression.dice_expression_helper import get_single_dice_outcome_map
''', '''from python_dice.src.expression.dice_expression_helper import get_single_dice_outcome_map
from python_dice.src.expression.dice_text import DiceText
'''), (DE, '''        self._single_dice_outcome_map = get_single_dice_outcome_map(self._string_form.split("d")[1])
        self._number_of_dice = self._get_number_of_dice()
        self._probability_distribution_factory = probability_distribution_factory

    def _get_number_of_dice(self) -> int:
        string_num = self._string_form.split("d")[0]
        return 1 if string_num == "" else int(string_num)
''', '''        text = DiceText.parse(string_form)
        self._single_dice_outcome_map = get_single_dice_outcome_map(text.sides)
        self._number_of_dice = text.number_of_dice
        self._probability_distribution_factory = probability_distribution_factory
'''), (DK, '''from python_dice.src.expression.dice_expression_helper import get_single_dice_outcome_map
''', '''from python_dice.src.expression.dice_expression_helper import get_single_dice_outcome_map
from python_dice.src.expression.dice_text import DiceText
'''), (DK, '''        self._string_form = string_form
        self._number_of_dice = self._get_number_of_dice()
        self._single_dice_outcome_map = get_single_dice_outcome_map(re.split(r"[dk]", self._string_form)[1])
        self._number_to_keep_or_drop = self._get_number_to_keep_or_drop()
''', '''        self._string_form = string_form
        self._text = DiceText.parse(string_form)
        self._number_of_dice = self._text.number_of_dice
        self._single_dice_outcome_map = get_single_dice_outcome_map(self._text.sides)
        self._number_to_keep_or_drop = self._text.number_selected
'''), (DK, '''    def _get_number_of_dice(self) -> int:
        string_num = re.split(r"[dk]", self._string_form)[0]
        return 1 if string_num == "" else int(string_num)

    def _get_number_to_keep_or_drop(self) -> int:
        return int(re.split(r"[dk]", self._string_form)[2])

    def _get_number_of_sides_string(self) -> str:
        return re.split(r"[dk]", self._string_form)[1]

    def _is_keep(self) -> bool:
        return "k" in self._string_form
''', '''    def _get_number_of_sides_string(self) -> str:
        return self._text.sides

    def _is_keep(self) -> bool:
        return self._text.selection == "k"
'''), (DK, "import re\n", "")],
    "cm_deque": [(CM, "from typing import Set, Tuple\n", "from collections import deque\nfrom typing import Optional, Set\n"), (CM, '''        values_to_merge = list(new_constraints.copy())
        clean_constraint_set = constraint_set.copy()

        while values_to_merge:
            current_value = values_to_merge.pop()

            new_unclean_values, new_clean_values = ConstraintMerger.__merge_new_constraint(
                current_value, clean_constraint_set
            )
            values_to_merge.extend(new_unclean_values)
            clean_constraint_set = new_clean_values

        return clean_constraint_set
''', '''        pending = deque(new_constraints)
        merged = set(constraint_set)

        while pending:
            current = pending.pop()
            partner = ConstraintMerger.__find_partner(current, merged)
            if partner is None:
                merged.add(current)
                continue
            merged.discard(partner)
            if partner.can_merge(current):
                pending.append(partner.merge(current))
            else:
                pending.append(current.merge(partner))

        return merged
'''), (CM, '''    def __merge_new_constraint(
        new_constraint: IConstraint, constraint_set: Set[IConstraint]
    ) -> Tuple[Set[IConstraint], Set[IConstraint]]:
        for constraint in constraint_set:

            if constraint.can_merge(new_constraint):
                unchanged_constraint_set = constraint_set.copy()
                unchanged_constraint_set.remove(constraint)
                changed_constraint_set = {constraint.merge(new_constraint)}
                return changed_constraint_set, unchanged_constraint_set

            if new_constraint.can_merge(constraint):
                unchanged_constraint_set = constraint_set.copy()
                changed_constraint_set = {new_constraint.merge(constraint)}
                unchanged_constraint_set.remove(constraint)
                return changed_constraint_set, unchanged_constraint_set

        constraint_set.add(new_constraint)
        return set(), constraint_set
''', '''    def __find_partner(constraint: IConstraint, candidates: Set[IConstraint]) -> Optional[IConstraint]:
        return next(
            (candidate for candidate in candidates if candidate.can_merge(constraint) or constraint.can_merge(candidate)),
            None,
        )
''')],
    "in_star": [(IN, '''            return_dict = dict(self._state.get_constant_dict())
            return_dict["stdout"] = stdout
''', '''            return_dict = {**self._state.get_constant_dict(), "stdout": stdout}
'''), (IN, '''            return_dict = dict(self._state.get_var_dict())
            return_dict["stdout"] = stdout
''', '''            return_dict = {**self._state.get_var_dict(), "stdout": stdout}
''')],
    "in_parse": [(IN, '''            token, _ = self._parser.parse(line, state=self._state)
''', '''            token = self._parse(line)
'''), (IN, '''    def roll(self, input_text''', '''    def _parse(self, line: str):
        expression, _ = self._parser.parse(line, state=self._state)
        return expression

    def roll(self, input_text'''), (IN, '''        total_cost = 0
        for line in input_text:
            token = self._parse(line)
            line_cost = token.estimated_cost()
            total_cost += line_cost
        return total_cost
''', '''        return sum(self._parse(line).estimated_cost() for line in input_text)
''')],
    "ps_counter": [(PS, "import copy\n", "import collections\nimport copy\n"),
                   (PS, "        self._number_of_times_set: Dict[str, int] = {}\n", "        self._number_of_times_set: Dict[str, int] = collections.defaultdict(int)\n"),
                   (PS, '''        if name not in self._number_of_times_set:
            self._number_of_times_set[name] = 0
        self._number_of_times_set[name] += 1
''', '''        self._number_of_times_set[name] += 1
'''), (PS, '''        for old_probability_outcome, count in distribution.get_constraint_result_map().items():
            new_constraint = self._constraint_factory.var_value_constraint(
                name=new_name, values={old_probability_outcome.value}
            )
            new_probability_outcome = copy.deepcopy(old_probability_outcome)
            new_probability_outcome.constraint_set.add_constraint(new_constraint)
            new_probability_outcomes[new_probability_outcome] = count
        self._var[name] = self._probability_distribution_factory.create(new_probability_outcomes)
''', '''        for outcome, count in distribution.get_constraint_result_map().items():
            new_probability_outcomes[self._tagged(outcome, new_name)] = count
        self._var[name] = self._probability_distribution_factory.create(new_probability_outcomes)

    def _tagged(self, outcome, new_name: str):
        """a copy of the outcome that remembers which value the variable took"""
        tagged = copy.deepcopy(outcome)
        tagged.constraint_set.add_constraint(
            self._constraint_factory.var_value_constraint(name=new_name, values={tagged.value})
        )
        return tagged
''')],
    "le_enumerate": [(LE, '''            current_line_index = 0
            while len(input_lines[current_line_index]) < source_column_number:
                source_column_number -= len(input_lines[current_line_index]) + 1
                current_line_index += 1

            sub_string_start = max(0, source_column_number - 50)
            sub_string_end = min(len(input_text), source_column_number + 50)

            sub_string = input_lines[current_line_index][sub_string_start:sub_string_end]
''', '''            current_line = ""
            for current_line in input_lines:
                if len(current_line) >= source_column_number:
                    break
                source_column_number -= len(current_line) + 1

            sub_string_start = max(0, source_column_number - 50)
            sub_string_end = min(len(input_text), source_column_number + 50)

            sub_string = current_line[sub_string_start:sub_string_end]
''')],
    "bo_chain": [(BO, '''        return 1 if self.OPERATOR_MAP[self._operator](self._expression_one.roll(), self._expression_two.roll()) else 0
''', '''        return int(bool(self._apply(self._expression_one.roll(), self._expression_two.roll())))

    def _apply(self, left, right):
        operator_function = self.OPERATOR_MAP[self._operator]
        return operator_function(left, right)
'''), (BO, '''        return self.OPERATOR_MAP[self._operator](
            self._expression_one.get_probability_distribution(),
            self._expression_two.get_probability_distribution(),
        )
''', '''        operands = (self._expression_one, self._expression_two)
        return self._apply(*(operand.get_probability_distribution() for operand in operands))
'''), (BO, '''        if isinstance(this, IProbabilityDistribution) and isinstance(other, IProbabilityDistribution):
            return this | other
        return this > 0 or other > 0
''', '''        if not (isinstance(this, IProbabilityDistribution) and isinstance(other, IProbabilityDistribution)):
            return this > 0 or other > 0
        return this | other
''')],
    "dk_heapq": [(DK, "import random\n", "import heapq\nimport random\n"), (DK, '''        dice_rolls.sort()
        if self._is_keep():
            return sum(dice_rolls[-self._number_to_keep_or_drop :])
        return sum(dice_rolls[: self._number_of_dice - self._number_to_keep_or_drop])
''', '''        highest = heapq.nlargest(self._number_to_keep_or_drop, dice_rolls)
        if self._is_keep():
            return sum(highest)
        return sum(dice_rolls) - sum(highest)
'''), (DK, '''        if self._is_keep():
            return self._number_to_keep_or_drop * max(self._single_dice_outcome_map.keys())
        return (self._number_of_dice - self._number_to_keep_or_drop) * max(self._single_dice_outcome_map.keys())
''', '''        return self._number_counted() * max(self._single_dice_outcome_map)
'''), (DK, '''        if self._is_keep():
            return self._number_to_keep_or_drop * min(self._single_dice_outcome_map.keys())
        return (self._number_of_dice - self._number_to_keep_or_drop) * min(self._single_dice_outcome_map.keys())
''', '''        return self._number_counted() * min(self._single_dice_outcome_map)

    def _number_counted(self) -> int:
        if self._is_keep():
            return self._number_to_keep_or_drop
        return self._number_of_dice - self._number_to_keep_or_drop
''')],
    "dk_sorted_reverse": [(DK, '''        dice_rolls.sort()
        if self._is_keep():
            return sum(dice_rolls[-self._number_to_keep_or_drop :])
        return sum(dice_rolls[: self._number_of_dice - self._number_to_keep_or_drop])
''', '''        ordered = sorted(dice_rolls, reverse=True)
        kept = ordered[: self._number_to_keep_or_drop] if self._is_keep() else ordered[self._number_to_keep_or_drop :]
        total = 0
        for value in kept:
            total += value
        return total
'''), (DK, '''    @staticmethod
    def _string_key_to_list(string: str) -> List[int]:
        if string == "":
            return []
        return [int(n) for n in string.split("|")]

    @staticmethod
    def _int_list_to_string(values: List[int]) -> str:
        values.sort()
        return "|".join([str(n) for n in values])
''', '''    @staticmethod
    def _string_key_to_list(string: str) -> List[int]:
        return list(map(int, string.split("|"))) if string else []

    @staticmethod
    def _int_list_to_string(values: List[int]) -> str:
        return "|".join(map(str, sorted(values)))
''')],
    "cs_methods": [(CS, '''        for constraint in self._constraints_set:
            if not constraint.complies(var_values=var_values):
                return False
        return True
''', '''        return not any(not constraint.complies(var_values=var_values) for constraint in self._constraints_set)
'''), (CS, '''        for constraint in self._constraints_set:
            if not constraint.is_possible():
                return False
        return True
''', '''        return all(map(operator.methodcaller("is_possible"), self._constraints_set))
'''), (CS, '''        new_set = self._constraints_set.union(constraint_set.constraints)
        return ConstraintSet(new_set, self._constraint_merger)
''', '''        return self.__class__(self._constraints_set | constraint_set.constraints, self._constraint_merger)
'''), (CS, '''        if not isinstance(other, IConstraintSet):
            return False
        return self._constraints_set == other.constraints
''', '''        return isinstance(other, IConstraintSet) and other.constraints == self._constraints_set
''')],
    "vv_copy": [(VV, '''        self._values = values
''', '''        self._values = set(values)
'''), (VV, '''        if self._name in var_values:
            if var_values[self._name] not in self._values:
                return False
        return True
''', '''        if self._name not in var_values:
            return True
        return var_values[self._name] in self._values
'''), (VV, '''            common_values = self._values.intersection(other.values)

            if len(common_values) == 0:
                return self._constraint_factory.impossible_constraint
            return self._constraint_factory.var_value_constraint(name=self._name, values=common_values)
''', '''            common_values = {value for value in self._values if value in other.values}
            if common_values:
                return self._constraint_factory.var_value_constraint(name=self._name, values=common_values)
            return self._constraint_factory.impossible_constraint
''')],
    "pd_chart_helper": [(PD, '''        histogram_data = self._get_histogram_form(self.get_dict_form())
        x_values = list(histogram_data.keys())
        return self._make_histogram(x_values, [histogram_data[x_value] for x_value in x_values], self.average())
''', '''        return self._histogram_of(self._get_histogram_form(self.get_dict_form()))
'''), (PD, '''        histogram_data = self.at_least()
        x_values = list(histogram_data.keys())
        return self._make_histogram(x_values, [histogram_data[x_value] for x_value in x_values], self.average())
''', '''        return self._histogram_of(self.at_least())
'''), (PD, '''        histogram_data = self.at_most()
        x_values = list(histogram_data.keys())
        return self._make_histogram(x_values, [histogram_data[x_value] for x_value in x_values], self.average())
''', '''        return self._histogram_of(self.at_most())

    def _histogram_of(self, data: Dict[int, float]) -> Image:
        return self._make_histogram(list(data), list(data.values()), self.average())
'''), (PD, '''        x_values, y_values = (list(t) for t in zip(*sorted(zip(x_values, y_values))))
        bins = [value - 0.5 for value in x_values]
        bins.append(x_values[-1] + 0.5)
''', '''        points = sorted(zip(x_values, y_values))
        x_values = [point[0] for point in points]
        y_values = [point[1] for point in points]
        bins = [value - 0.5 for value in x_values] + [x_values[-1] + 0.5]
'''), (PD, '''        def y_value_calculator(key):
            value = 0
            if key in this_histogram_data:
                value += this_histogram_data[key]
            if key in other_histogram_data:
                value -= other_histogram_data[key]
            return value

        return self._make_histogram(x_values, [y_value_calculator(x_value) for x_value in x_values])
''', '''        y_values = [this_histogram_data.get(key, 0) - other_histogram_data.get(key, 0) for key in x_values]
        return self._make_histogram(x_values, y_values)
''')],
    "pd_cm_figure": [(PD, "import copy\nimport io\n", "import contextlib\nimport copy\nimport io\n"), (PD, '''class ProbabilityDistribution(IProbabilityDistribution):
''', '''@contextlib.contextmanager
def _new_figure():
    figure, axis = pyplot.subplots()
    try:
        yield figure, axis
    finally:
        pyplot.close(figure)


class ProbabilityDistribution(IProbabilityDistribution):
'''), (PD, '''        figure, axis = pyplot.subplots()
        axis.plot(x_values_one, y_values_one, "b", label=lable_one)
        axis.plot(x_values_two, y_values_two, "r", label=lable_two)
        axis.grid(True, linestyle="-.")
        axis.set_ylabel("odds")
        axis.set_xlabel("outcome")
        axis.legend()
        buffer = io.BytesIO()
        figure.savefig(buffer, format="png")
        pyplot.close(figure)
        buffer.seek(0)
''', '''        buffer = io.BytesIO()
        with _new_figure() as (figure, axis):
            axis.plot(x_values_one, y_values_one, "b", label=lable_one)
            axis.plot(x_values_two, y_values_two, "r", label=lable_two)
            axis.grid(True, linestyle="-.")
            axis.set_ylabel("odds")
            axis.set_xlabel("outcome")
            axis.legend()
            figure.savefig(buffer, format="png")
        buffer.seek(0)
''')],
    "pd_at_sums": [(PD, '''        at_least_dict = {}
        total_above: float = 1
        histogram_form = self._get_histogram_form(self.get_dict_form())
        keys = list(histogram_form.keys())
        keys = sorted(keys)
        for value in keys:
            at_least_dict[value] = total_above / 1
            total_above -= histogram_form[value]
        return at_least_dict
''', '''        at_least_dict = {}
        remaining: float = 1
        for value, probability in self._sorted_histogram():
            at_least_dict[value] = remaining / 1
            remaining = remaining - probability
        return at_least_dict

    def _sorted_histogram(self):
        yield from sorted(self._get_histogram_form(self.get_dict_form()).items())
'''), (PD, '''        at_most_dict = {}
        at_or_below: float = 0
        histogram_form = self._get_histogram_form(self.get_dict_form())
        keys = list(histogram_form.keys())
        keys = sorted(keys)
        for value in keys:
            at_or_below += histogram_form[value]
            at_most_dict[value] = at_or_below / 1
        return at_most_dict
''', '''        at_most_dict = {}
        at_or_below: float = 0
        for value, probability in self._sorted_histogram():
            at_or_below += probability
            at_most_dict[value] = at_or_below / 1
        return at_most_dict
'''), (PD, '''        result_map = self.get_result_map()
        return 0 in result_map and result_map[0] != 0
''', '''        return bool(self.get_result_map().get(0))
'''), (PD, '''        return max(self.get_result_map().keys())
''', '''        return max(outcome.value for outcome in self._result_map)
''')],
    "so_lists": [(SO, '''PRECEDENCE = [
    ("nonassoc", [VarSyntax.get_token_name()]),
    ("left", [AssignmentSyntax.get_token_name()]),
    ("left", [OpenParenthesisSyntax.get_token_name()]),
    ("left", [NotSyntax.get_token_name()]),
    (
        "left",
        [
            AddSyntax.get_token_name(),
            SubtractSyntax.get_token_name(),
        ],
    ),
    (
        "left",
        [
            IntegerDivisionSyntax.get_token_name(),
            MultiplySyntax.get_token_name(),
        ],
    ),
    ("left", [BinaryOperatorSyntax.get_token_name()]),
]
''', '''_PRECEDENCE_LEVELS = (
    ("nonassoc", (VarSyntax,)),
    ("left", (AssignmentSyntax,)),
    ("left", (OpenParenthesisSyntax,)),
    ("left", (NotSyntax,)),
    ("left", (AddSyntax, SubtractSyntax)),
    ("left", (MultiplySyntax, IntegerDivisionSyntax)),
    ("left", (BinaryOperatorSyntax,)),
)

PRECEDENCE = [
    (associativity, [syntax.get_token_name() for syntax in syntaxes]) for associativity, syntaxes in _PRECEDENCE_LEVELS
]
''')],
    "pa_or": [(PA, '''        if lexer is None:
            lexer = PythonDiceLexer()
        if probability_distribution_factory is None:
            probability_distribution_factory = ProbabilityDistributionFactory()
        if probability_distribution_state_factory is None:
            probability_distribution_state_factory = ProbabilityDistributionStateFactory()
        self._lexer = lexer
''', '''        self._lexer = PythonDiceLexer() if lexer is None else lexer
        if probability_distribution_state_factory is None:
            probability_distribution_state_factory = ProbabilityDistributionStateFactory()
        if probability_distribution_factory is None:
            probability_distribution_factory = ProbabilityDistributionFactory()
'''), (PA, '''        if state is None:
            state = self._probability_distribution_state_factory.create_new_empty_set()
        return self._parser.parse(iter(self._lexer.lex(input_text)), state=state), state
''', '''        if state is None:
            state = self._probability_distribution_state_factory.create_new_empty_set()
        tokens = self._lexer.lex(input_text)
        expression = self._parser.parse(iter(tokens), state=state)
        return expression, state
''')],
    "dh_table": [(DH, '''    if re.match(r"\\d+", dice_type_string) is not None:
        value_dictionary = {value: 1 for value in range(1, int(dice_type_string) + 1)}
    elif dice_type_string == "%":
        value_dictionary = {value: 1 for value in range(1, 100 + 1)}
    elif dice_type_string == "F":
        value_dictionary = {-1: 1, 0: 1, 1: 1}
    else:
        value_dictionary = {}
        for value in re.split(r",", re.sub(r"(\\[|\\]|\\s+)", "", dice_type_string).rstrip(",")):
            multiplier = "1"
            if re.match(r"(-?\\d+--?\\d+|-?\\d+)\\*\\d+", value) is not None:
                value, multiplier = re.split(r"\\*", value)
            if re.match(r"-?\\d+--?\\d+", value) is not None:
                range_values = _find_range(value)
            else:
                range_values = [int(value)]
            if int(multiplier) == 0:
                continue
            for key in range_values:
                safe_add(value_dictionary, key, int(multiplier))
    return value_dictionary
''', '''    if dice_type_string in _NAMED_DICE:
        return dict.fromkeys(_NAMED_DICE[dice_type_string], 1)
    if re.match(r"\\d+", dice_type_string) is not None:
        return dict.fromkeys(range(1, int(dice_type_string) + 1), 1)

    value_dictionary: Dict[int, int] = {}
    for entry in re.sub(r"(\\[|\\]|\\s+)", "", dice_type_string).rstrip(",").split(","):
        value, _, multiplier = entry.partition("*")
        amount = int(multiplier or "1")
        if amount == 0:
            continue
        if re.match(r"-?\\d+--?\\d+", value) is not None:
            range_values = _find_range(value)
        else:
            range_values = [int(value)]
        for key in range_values:
            safe_add(value_dictionary, key, amount)
    return value_dictionary
'''), (DH, '''def _find_range(''', '''_NAMED_DICE = {"%": range(1, 101), "F": (-1, 0, 1)}


def _find_range(''')],
    "mm_enum": [(MM, "from typing import Callable, Set\n", "import enum\nfrom typing import Callable, Set\n"),
                (MM, "class MinMaxExpression(", """class Selection(enum.Enum):
    MAX = "MAX"
    MIN = "MIN"

    def pick(self, one: int, two: int) -> int:
        return max(one, two) if self is Selection.MAX else min(one, two)


class MinMaxExpression("""), (MM, "        self._min_max = min_max\n", "        self._min_max = min_max\n        self._selection = Selection(min_max)\n"),
                (MM, """        return self.OPERATOR_MAP[self._min_max](self._expression_one.roll(), self._expression_two.roll())
""", """        return self._selection.pick(self._expression_one.roll(), self._expression_two.roll())
"""), (MM, """        return self.OPERATOR_MAP[self._min_max](self._expression_one.max(), self._expression_two.max())
""", """        return self._selection.pick(self._expression_one.max(), self._expression_two.max())
"""), (MM, """        if self._min_max == "MAX":
""", """        if self._selection is Selection.MAX:
""")],
    "dk_enum": [(DK, "import random\n", "import enum\nimport random\n"), (DK, "class DropKeepExpression(", """class Mode(enum.Enum):
    DROP = enum.auto()
    KEEP = enum.auto()


class DropKeepExpression("""), (DK, """        return "k" in self._string_form
""", """        return self._get_mode() == Mode.KEEP

    def _get_mode(self) -> Mode:
        return Mode.KEEP if self._string_form.count("k") else Mode.DROP
"""), (DK, """        if self._is_keep():
            return self._number_to_keep_or_drop * max(self._single_dice_outcome_map.keys())
        return (self._number_of_dice - self._number_to_keep_or_drop) * max(self._single_dice_outcome_map.keys())
""", """        counted = {
            Mode.KEEP: self._number_to_keep_or_drop,
            Mode.DROP: self._number_of_dice - self._number_to_keep_or_drop,
        }
        return counted[self._get_mode()] * max(self._single_dice_outcome_map)
""")],
    "po_parts": [(PO, "import operator\nfrom typing import Callable\n", "import collections\nimport operator\nfrom typing import Callable\n"),
                 (PO, "class ProbabilityOutcome(", """Parts = collections.namedtuple("Parts", ["value", "constraint_set"])


class ProbabilityOutcome("""), (PO, """        self._value = value
        self._constraint_set = constraint_set
""", """        self._parts = Parts(value=value, constraint_set=constraint_set)
"""), (PO, """        return self._value

""", """        return self._parts.value

"""), (PO, """        return self._constraint_set

""", """        return self._parts.constraint_set

"""), (PO, "self._constraint_set.", "self.constraint_set."), (PO, "constraint_set=self._constraint_set", "constraint_set=self.constraint_set")],
    "vv_key": [(VV, "from typing import Dict, Set\n", "from dataclasses import dataclass\nfrom typing import Dict, FrozenSet, Set\n"),
               (VV, "class VarValueConstraint(", """@dataclass(frozen=True)
class _Key:
    kind: str
    name: str
    values: FrozenSet[int]


class VarValueConstraint("""), (VV, """        return hash((VarValueConstraint.__name__, self._name, frozenset(self._values)))
""", """        return hash(_Key(VarValueConstraint.__name__, self._name, frozenset(self._values)))
""")],
}
GROUPS = {
    "k4": ["mm_enum", "dk_enum", "po_parts", "vv_key"],
    "k1": ["base_class", "const_value", "dice_text", "cm_deque", "in_star", "ps_counter", "le_enumerate", "bo_chain", "cs_methods", "vv_copy",
           "pd_factory_ops", "so_lists"],
    "k2": ["po_partialmethod", "in_parse", "dk_heapq", "pd_chart_helper", "pd_at_sums", "pa_or", "dh_table"],
    "k3": ["dk_sorted_reverse", "pd_cm_figure"],
}
for g, ids in GROUPS.items():
    RF[g] = [e for i in ids for e in RF[i]]
