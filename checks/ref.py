"""Reference definitions, read by the same analyser as the repository's code; nothing here is executed."""


def total_of(counts):
    return sum(counts.values())


def probabilities(counts):
    total = sum(counts.values())
    return {value: count / total for value, count in counts.items()}


def average_of(counts):
    return sum(value * count for value, count in counts.items()) / sum(counts.values())


def at_least_of(counts):
    total = sum(counts.values())
    return {
        bound: sum(count for value, count in counts.items() if value >= bound) / total
        for bound in range(min(counts), max(counts) + 1)
    }


def at_most_of(counts):
    total = sum(counts.values())
    return {
        bound: sum(count for value, count in counts.items() if value <= bound) / total
        for bound in range(min(counts), max(counts) + 1)
    }


def contains_zero_of(counts):
    return sum(count for value, count in counts.items() if value == 0) != 0


def max_of(counts):
    return max(counts)


def min_of(counts):
    return min(counts)


def side_table(entries):
    """sides of a die: every value of every entry, as often as its multiplier says"""
    table = {}
    for low, high, multiplier in entries:
        if multiplier > 0:
            for value in range(min(low, high), max(low, high) + 1):
                table[value] = table.get(value, 0) + multiplier
    return table


def number_table(sides):
    return {value: 1 for value in range(1, sides + 1)}


def dice_cost(number, table):
    return number * len(table)


def keep_cost(number, keep, table):
    if keep >= number:
        return number * len(table)
    if keep == 0:
        return 2
    return number * keep * len(table)


def drop_cost(number, drop, table):
    if drop >= number:
        return 2
    if drop == 0:
        return number * len(table)
    return number * (number - drop) * len(table)


def pool_roll(number, table):
    import random

    return sum(random.choices(list(table.keys()), weights=list(table.values()), k=number))


def pool_counts(number, table):
    """counts of the sum of a number of dice"""
    counts = {0: 1}
    for _ in range(number):
        following = {}
        for total, count in counts.items():
            for side, weight in table.items():
                following[total + side] = following.get(total + side, 0) + count * weight
        counts = following
    return counts


def keep_roll(number, keep, table):
    import random

    rolls = sorted(random.choices(list(table.keys()), weights=list(table.values()), k=number))
    return sum(rolls[max(0, number - keep):])


def drop_roll(number, drop, table):
    import random

    rolls = sorted(random.choices(list(table.keys()), weights=list(table.values()), k=number))
    return sum(rolls[:max(0, number - drop)])


def extreme_of_pool(number, extreme):
    return number * extreme


# ---------------------------------------------------------------- stand-ins handed to the code under analysis
from python_dice.interface.expression.i_dice_expression import IDiceExpression
from python_dice.interface.i_python_dice_lexer import IPythonDiceLexer
from python_dice.interface.i_python_dice_parser import IPythonDiceParser
from python_dice.src.expression.get_var_expression import GetVarExpression
from python_dice.src.expression.var_assignment_expression import VarAssignmentExpression


def fail(kind):
    if kind == "ZeroDivisionError":
        raise ZeroDivisionError("stand-in")
    if kind == "KeyError":
        raise KeyError("stand-in")
    if kind == "TypeError":
        raise TypeError("stand-in")
    if kind == "IndexError":
        raise IndexError("stand-in")
    raise ValueError("stand-in")


class FailingExpression(IDiceExpression):
    """an operand for which every question ends in an error"""

    def __init__(self, kind):
        self.kind = kind

    @staticmethod
    def add_production_function(parser_generator, probability_distribution_factory):
        return None

    def roll(self):
        return fail(self.kind)

    def max(self):
        return fail(self.kind)

    def min(self):
        return fail(self.kind)

    def __str__(self):
        return "failing"

    def estimated_cost(self):
        return fail(self.kind)

    def get_probability_distribution(self):
        return fail(self.kind)

    def get_contained_variables(self):
        return fail(self.kind)


class FailingLexer(IPythonDiceLexer):
    def __init__(self, kind):
        self.kind = kind

    def lex(self, input_text):
        return fail(self.kind)


class FailingParser(IPythonDiceParser):
    """parses every line into the next of the given results, where None means that parsing fails"""

    def __init__(self, kind, results):
        self.kind = kind
        self.results = results
        self.seen = []

    def parse(self, input_text, state=None):
        self.seen.append(input_text)
        result = self.results[len(self.seen) - 1]
        if result is None:
            fail(self.kind)
        return result, state


class Fixed(IDiceExpression):
    """an expression that answers with what it was given"""

    def __init__(self, distribution, highest, lowest):
        self.distribution = distribution
        self.highest = highest
        self.lowest = lowest

    @staticmethod
    def add_production_function(parser_generator, probability_distribution_factory):
        return None

    def roll(self):
        return self.highest

    def max(self):
        return self.highest

    def min(self):
        return self.lowest

    def __str__(self):
        return "fixed"

    def estimated_cost(self):
        return 1

    def get_probability_distribution(self):
        return self.distribution

    def get_contained_variables(self):
        return set()


class AssigningParser(IPythonDiceParser):
    """reads the line x as the assignment to x of the expression listed for it"""

    def __init__(self, expressions):
        self.expressions = expressions

    def parse(self, input_text, state=None):
        return VarAssignmentExpression(state, input_text, self.expressions[input_text]), state


class TableParser(IPythonDiceParser):
    """reads each line as the expression listed for it"""

    def __init__(self, table):
        self.table = table

    def parse(self, input_text, state=None):
        return self.table[input_text], state


class Noted(IDiceExpression):
    """an expression that notes what it is asked before it passes the question on"""

    def __init__(self, line, inner, log):
        self.line = line
        self.inner = inner
        self.log = log

    @staticmethod
    def add_production_function(parser_generator, probability_distribution_factory):
        return None

    def roll(self):
        self.log.append(("roll", self.line))
        return self.inner.roll()

    def max(self):
        self.log.append(("max", self.line))
        return self.inner.max()

    def min(self):
        self.log.append(("min", self.line))
        return self.inner.min()

    def __str__(self):
        return str(self.inner)

    def estimated_cost(self):
        self.log.append(("cost", self.line))
        return self.inner.estimated_cost()

    def get_probability_distribution(self):
        self.log.append(("distribution", self.line))
        return self.inner.get_probability_distribution()

    def get_contained_variables(self):
        return self.inner.get_contained_variables()


class NotingParser(IPythonDiceParser):
    """reads each line as listed in the table: a pair of the variable it assigns, if any, and an expression or a variable to look up"""

    def __init__(self, table, own_state=None):
        self.table = table
        self.own_state = own_state
        self.parsed = []
        self.asked = []

    def parse(self, input_text, state=None):
        if state is None:
            state = self.own_state
        text = input_text.strip()
        self.parsed.append(text)
        name, inner = self.table[text]
        if isinstance(inner, str):
            inner = GetVarExpression(state, inner)
        if name != "":
            inner = VarAssignmentExpression(state, name, inner)
        return Noted(text, inner, self.asked), state


class PlainState:
    """variables and constants, the last assignment counts"""

    def __init__(self):
        self.variables = {}
        self.constants = {}

    def get_var_dict(self):
        return self.variables

    def get_constant_dict(self):
        return self.constants

    def has_var(self, name):
        return name in self.variables

    def has_constant(self, name):
        return name in self.constants

    def get_var(self, name):
        return self.variables[name]

    def get_constant(self, name):
        return self.constants[name]

    def set_var(self, name, distribution):
        self.variables[name] = distribution

    def set_constant(self, name, value):
        self.constants[name] = value


def run_program(query, lines, parser, state):
    """what a query has to report"""
    value = None
    total = 0
    for line in lines:
        expression, _ = parser.parse(line, state=state)
        if query == "roll":
            value = expression.roll()
        elif query == "max":
            value = expression.max()
        elif query == "min":
            value = expression.min()
        elif query == "get_estimated_cost":
            total = total + expression.estimated_cost()
        else:
            value = expression.get_probability_distribution()
    if query == "get_estimated_cost":
        return total
    if query == "get_histogram":
        return value.get_histogram()
    if query == "get_at_least_histogram":
        return value.get_at_least_histogram()
    if query == "get_at_most_histogram":
        return value.get_at_most_histogram()
    result = {}
    if len(lines) > 0:
        if query in ("roll", "max", "min"):
            for name in state.get_constant_dict():
                result[name] = state.get_constant(name)
        else:
            for name in state.get_var_dict():
                result[name] = state.get_var(name)
        result["stdout"] = value
    if query == "get_average":
        return {name: result[name].average() for name in result}
    if query == "get_probability_distributions_dict":
        return {name: result[name].get_dict_form() for name in result}
    return result


# ---------------------------------------------------------------- components that can be told apart
from python_dice.interface.constraint.i_constraint_factory import IConstraintFactory
from python_dice.interface.constraint.i_constraint_merger import IConstraintMerger
from python_dice.interface.constraint.i_constraint_set_factory import IConstraintSetFactory
from python_dice.interface.probability_distribution.i_probability_distribution_factory import (
    IProbabilityDistributionFactory,
)
from python_dice.interface.probability_distribution.i_probability_distribution_state_factory import (
    IProbabilityDistributionStateFactory,
)
from python_dice.interface.probability_distribution.i_probability_outcome_factory import IProbabilityOutcomeFactory
from python_dice.src.probability_distribution.probability_distribution_state import ProbabilityDistributionState


class Mark:
    """notes its uses; counts as true or false as told"""

    def __init__(self, inner, truth):
        self.inner = inner
        self.truth = truth
        self.uses = []

    def __bool__(self):
        return self.truth


class MarkedMerger(Mark, IConstraintMerger):
    def merge_constraints(self, constraint_set):
        self.uses.append("merge_constraints")
        return self.inner.merge_constraints(constraint_set)

    def merge_new_constraints(self, constraint_set, new_constraint):
        self.uses.append("merge_new_constraints")
        return self.inner.merge_new_constraints(constraint_set, new_constraint)

    def __str__(self):
        return "marked merger"

    def __repr__(self):
        return "marked merger"


class MarkedConstraintFactory(Mark, IConstraintFactory):
    @property
    def impossible_constraint(self):
        self.uses.append("impossible_constraint")
        return self.inner.impossible_constraint

    @property
    def null_constraint(self):
        self.uses.append("null_constraint")
        return self.inner.null_constraint

    def var_value_constraint(self, name, values):
        self.uses.append("var_value_constraint")
        return self.inner.var_value_constraint(name=name, values=values)


class MarkedConstraintSetFactory(Mark, IConstraintSetFactory):
    def create_constraint_set(self):
        self.uses.append("create_constraint_set")
        return self.inner.create_constraint_set()


class MarkedOutcomeFactory(Mark, IProbabilityOutcomeFactory):
    def create_empty(self, value):
        self.uses.append("create_empty")
        return self.inner.create_empty(value)


class MarkedDistributionFactory(Mark, IProbabilityDistributionFactory):
    def create(self, result_map=None):
        self.uses.append("create")
        return self.inner.create(result_map)


class FixedDistributionFactory(Mark, IProbabilityDistributionFactory):
    """hands out the one distribution it was made with"""

    def create(self, result_map=None):
        self.uses.append("create")
        return self.inner


class MarkedStateFactory(Mark, IProbabilityDistributionStateFactory):
    def create_new_empty_set(self):
        self.uses.append("create_new_empty_set")
        state = self.inner.create_new_empty_set()
        state.set_constant("made", 7)
        return state


class FalsyState(ProbabilityDistributionState):
    """a state that counts as false"""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class MarkedLexer(Mark, IPythonDiceLexer):
    def lex(self, input_text):
        self.uses.append(input_text)
        return ["lexed", input_text]


class MarkedParser(Mark, IPythonDiceParser):
    """reads the line x as the assignment to x of the one expression it was made with"""

    def parse(self, input_text, state=None):
        self.uses.append(input_text)
        return VarAssignmentExpression(state, input_text, self.inner), state


def probabilities_between(counts):
    total = sum(counts.values())
    return {value: counts.get(value, 0) / total for value in range(min(counts), max(counts) + 1)}


def view_of(name, counts):
    if name == "at_least":
        return at_least_of(counts)
    if name == "at_most":
        return at_most_of(counts)
    return probabilities_between(counts)


def drawn_bars(name, counts):
    """(bars, places marked)"""
    return ([(value, odds) for value, odds in view_of(name, counts).items()], [average_of(counts)])


def drawn_lines(name, one, two, name_one, name_two):
    return [(name_one, [(value, odds) for value, odds in view_of(name, one).items()]),
            (name_two, [(value, odds) for value, odds in view_of(name, two).items()])]


def drawn_difference(one, two):
    a = probabilities_between(one)
    b = probabilities_between(two)
    return [(value, a.get(value, 0) - b.get(value, 0)) for value in range(min(min(a), min(b)), max(max(a), max(b)) + 1) if value in a or value in b]


def drawn_difference_twice(one, two):
    """shared outcomes counted twice"""
    a = probabilities_between(one)
    b = probabilities_between(two)
    return [(value, (a.get(value, 0) - b.get(value, 0)) * (2 if value in a and value in b else 1))
            for value in range(min(min(a), min(b)), max(max(a), max(b)) + 1) if value in a or value in b]
