"""a second set of edits that keep the behaviour (development aid, see quiet.py); {"new": path} adds a file"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactorings import PD, PO, PS, DK, DE, DH, BO, MM, VA, ID, CM, CS, VV, IN, PA, LE, SAFE

SAFE4 = '''        new_result_map = {}

''' + SAFE
RF = {
    # --- the distribution
    "pd_product": [(PD, "import io\n", "import io\nimport itertools\n"), (PD, '''        new_result_map = {}

        def safe_add(key, value):
            if key not in new_result_map:
                new_result_map[key] = 0
            new_result_map[key] += value

        for this_key, this_value in self._result_map.items():
            for other_key, other_value in other.get_constraint_result_map().items():
                new_outcome = combination_function(this_key, other_key)
                if new_outcome.is_possible():
                    safe_add(new_outcome, this_value * other_value)
        return new_result_map
''', '''        combined: Dict[IProbabilityOutcome, int] = {}
        pairs = itertools.product(self._result_map.items(), other.get_constraint_result_map().items())
        for (this_outcome, this_count), (other_outcome, other_count) in pairs:
            outcome = combination_function(this_outcome, other_outcome)
            if not outcome.is_possible():
                continue
            combined[outcome] = combined.get(outcome, 0) + this_count * other_count
        return combined
''')],
    "pd_counter": [(PD, "import copy\n", "import collections\nimport copy\n"), (PD, '''        new_result_map = {}

        def safe_add(key, value):
            if key not in new_result_map:
                new_result_map[key] = 0
            new_result_map[key] += value

        for probability_outcome, count in self._result_map.items():
            safe_add(probability_outcome.value, count)
        return new_result_map
''', '''        totals = collections.Counter()
        for probability_outcome, count in self._result_map.items():
            totals[probability_outcome.value] += count
        return dict(totals)
''')],
    "pd_setdefault": [(PD, '''            if key not in new_result_map:
                new_result_map[key] = 0
            new_result_map[key] += value
''', '''            new_result_map.setdefault(key, 0)
            new_result_map[key] += value
''')],
    "pd_try": [(PD, '''            if key not in new_result_map:
                new_result_map[key] = 0
            new_result_map[key] += value
''', '''            try:
                new_result_map[key] += value
            except KeyError:
                new_result_map[key] = value
''')],
    "pd_init_split": [(PD, '''        self._outcome_count = 0
        self._probability_outcome_factory = probability_outcome_factory
        self._result_map: Dict[IProbabilityOutcome, int] = {}

        def safe_add(key, value_to_add):
            if key not in self._result_map:
                self._result_map[key] = 0
            self._result_map[key] += value_to_add

        if result_map is not None:
            for result_value, count in result_map.items():
                if isinstance(result_value, int):
                    safe_add(self._probability_outcome_factory.create_empty(value=result_value), count)
                if isinstance(result_value, IProbabilityOutcome):
                    safe_add(result_value, count)
        for value in self._result_map.values():
            self._outcome_count += value
''', '''        self._probability_outcome_factory = probability_outcome_factory
        self._result_map: Dict[IProbabilityOutcome, int] = self._to_outcome_map(result_map or {})
        self._outcome_count = sum(self._result_map.values())

    def _to_outcome_map(self, result_map) -> Dict[IProbabilityOutcome, int]:
        outcome_map: Dict[IProbabilityOutcome, int] = {}
        for result_value, count in result_map.items():
            if isinstance(result_value, int):
                outcome = self._probability_outcome_factory.create_empty(value=result_value)
            elif isinstance(result_value, IProbabilityOutcome):
                outcome = result_value
            else:
                continue
            outcome_map[outcome] = outcome_map.get(outcome, 0) + count
        return outcome_map
''')],
    "pd_accumulate": [(PD, "import io\n", "import io\nimport itertools\n"), (PD, '''        at_most_dict = {}
        at_or_below: float = 0
        histogram_form = self._get_histogram_form(self.get_dict_form())
        keys = list(histogram_form.keys())
        keys = sorted(keys)
        for value in keys:
            at_or_below += histogram_form[value]
            at_most_dict[value] = at_or_below / 1
        return at_most_dict
''', '''        histogram_form = self._get_histogram_form(self.get_dict_form())
        keys = sorted(histogram_form)
        return dict(zip(keys, itertools.accumulate(histogram_form[key] for key in keys)))
'''), (PD, '''        at_least_dict = {}
        total_above: float = 1
        histogram_form = self._get_histogram_form(self.get_dict_form())
        keys = list(histogram_form.keys())
        keys = sorted(keys)
        for value in keys:
            at_least_dict[value] = total_above / 1
            total_above -= histogram_form[value]
        return at_least_dict
''', '''        at_least_dict = {}
        remaining: float = 1
        for value, probability in sorted(self._get_histogram_form(self.get_dict_form()).items()):
            at_least_dict[value] = remaining
            remaining = remaining - probability
        return at_least_dict
''')],
    "pd_gaps": [(PD, '''        base_data = copy.copy(base_data)
        item_list = [(key, base_data[key]) for key in base_data.keys()]
        item_list.sort(key=lambda tup: tup[0])
        for int_value in range(item_list[0][0], item_list[-1][0] + 1):
            if int_value not in base_data:
                base_data[int_value] = 0
        return base_data
''', '''        filled = dict(base_data)
        for missing in range(min(base_data), max(base_data)):
            filled.setdefault(missing, 0)
        return filled
'''), (PD, "import copy\n", "")],
    "pd_average": [(PD, '''        total_values = 0
        for item, value in self.get_result_map().items():
            total_values += item * value
        return total_values / self._outcome_count
''', '''        return sum(outcome.value * count for outcome, count in self._result_map.items()) / self._outcome_count
'''), (PD, '''        result_map = self.get_result_map()
        return 0 in result_map and result_map[0] != 0
''', '''        return self.get_result_map().get(0, 0) != 0
'''), (PD, '''        return {key: value / self._outcome_count for key, value in self.get_result_map().items()}
''', '''        total = self._outcome_count
        result_map = self.get_result_map()
        return dict((key, result_map[key] / total) for key in result_map)
''')],
    "pd_check_other": [(PD, '''        if not isinstance(other, IProbabilityDistribution):
            raise TypeError(f"No __add__ between {ProbabilityDistribution} and {type(other)}")
        new_result_map = self._combine_distributions(operator.add, other)
        return ProbabilityDistribution(self._probability_outcome_factory, new_result_map)
''', '''        return self._apply("__add__", operator.add, other)
'''), (PD, '''        if not isinstance(other, IProbabilityDistribution):
            raise TypeError(f"No __sub__ between {ProbabilityDistribution} and {type(other)}")
        new_result_map = self._combine_distributions(operator.sub, other)
        return ProbabilityDistribution(self._probability_outcome_factory, new_result_map)
''', '''        return self._apply("__sub__", operator.sub, other)
'''), (PD, '''        if not isinstance(other, IProbabilityDistribution):
            raise TypeError(f"No max_operator between {ProbabilityDistribution} and {type(other)}")
        new_result_map = self._combine_distributions(lambda x, y: x.max_operator(y), other)
        return ProbabilityDistribution(self._probability_outcome_factory, new_result_map)
''', '''        return self._apply("max_operator", lambda one, two: one.max_operator(two), other)
'''), (PD, '''    def _combine_distributions(
''', '''    def _apply(self, name: str, function: Callable, other: object) -> IProbabilityDistribution:
        if isinstance(other, IProbabilityDistribution):
            return type(self)(self._probability_outcome_factory, self._combine_distributions(function, other))
        raise TypeError(f"No {name} between {ProbabilityDistribution} and {type(other)}")

    def _combine_distributions(
''')],
    "pd_render": [(PD, '''        buffer = io.BytesIO()
        figure.savefig(buffer, format="tiff")
        pyplot.close(figure)
        buffer.seek(0)
        image = Image.open(buffer)
        return image
''', '''        return _render(figure, "tiff")
'''), (PD, '''        buffer = io.BytesIO()
        figure.savefig(buffer, format="png")
        pyplot.close(figure)
        buffer.seek(0)
        image = Image.open(buffer)
        return image
''', '''        return _render(figure, "png")
'''), (PD, '''class ProbabilityDistribution(IProbabilityDistribution):
''', '''def _render(figure, image_format: str) -> Image:
    buffer = io.BytesIO()
    figure.savefig(buffer, format=image_format)
    buffer.seek(0)
    pyplot.close(figure)
    return Image.open(buffer)


class ProbabilityDistribution(IProbabilityDistribution):
'''), (PD, '''        x_values, y_values = (list(t) for t in zip(*sorted(zip(x_values, y_values))))
        bins = [value - 0.5 for value in x_values]
        bins.append(x_values[-1] + 0.5)
''', '''        points = sorted(zip(x_values, y_values))
        x_values = [x_value for x_value, _ in points]
        y_values = [y_value for _, y_value in points]
        bins = [value - 0.5 for value in x_values] + [x_values[-1] + 0.5]
''')],
    "pd_line_style": [(PD, '''        axis.grid(True, linestyle="-.")
        axis.set_ylabel("odds")
        axis.set_xlabel("outcome")
''', '''        ProbabilityDistribution._label_axis(axis)
'''), (PD, '''    @staticmethod
    def _make_histogram(
''', '''    @staticmethod
    def _label_axis(axis) -> None:
        axis.set_xlabel("outcome")
        axis.set_ylabel("odds")
        axis.grid(True, linestyle="-.")

    @staticmethod
    def _make_histogram(
'''), (PD, '''        this_at_most_data = self.at_most()
        other_at_most_data = other_probability.at_most()

        x_values_one = list(this_at_most_data.keys())
        x_values_two = list(other_at_most_data.keys())
        return self._make_line_plot(
            x_values_one,
            [this_at_most_data[x_value] for x_value in x_values_one],
            x_values_two,
            [other_at_most_data[x_value] for x_value in x_values_two],
            this_distribution_name,
            other_distribution_name,
        )
''', '''        return self._plot_two(
            self.at_most(), other_probability.at_most(), this_distribution_name, other_distribution_name
        )

    def _plot_two(self, one: Dict[int, float], two: Dict[int, float], name_one: str, name_two: str) -> Image:
        return self._make_line_plot(
            list(one.keys()),
            list(one.values()),
            list(two.keys()),
            list(two.values()),
            lable_one=name_one,
            lable_two=name_two,
        )
''')],
    # --- outcomes
    "po_inline": [(PO, '''        if isinstance(new_value, bool):
            new_value = self._binary_to_int(new_value)
        new_constraint_set = self._constraint_set.combine_sets(other.constraint_set)
        return ProbabilityOutcome(value=new_value, constraint_set=new_constraint_set)
''', '''        return ProbabilityOutcome(int(new_value), self._constraint_set.combine_sets(other.constraint_set))
'''), (PO, '''        new_value = 0 if self._value_to_binary_value(self.value) else 1
        return ProbabilityOutcome(value=new_value, constraint_set=self._constraint_set)
''', '''        return self._with_value(1 if self._value <= 0 else 0)

    def _with_value(self, value: int) -> IProbabilityOutcome:
        return ProbabilityOutcome(value=value, constraint_set=self._constraint_set)
'''), (PO, '''        return ProbabilityOutcome(value=abs(self.value), constraint_set=self._constraint_set)
''', '''        return self._with_value(self._value if self._value >= 0 else -self._value)
'''), (PO, '''        return operator.xor(
            hash(ProbabilityOutcome.__name__), operator.xor(hash(self.value), hash(self.constraint_set))
        )
''', '''        return hash(ProbabilityOutcome.__name__) ^ hash(self.value) ^ hash(self.constraint_set)
''')],
    "po_hash_tuple": [(PO, '''        return operator.xor(
            hash(ProbabilityOutcome.__name__), operator.xor(hash(self.value), hash(self.constraint_set))
        )
''', '''        return hash((ProbabilityOutcome.__name__, self._value, self._constraint_set))
'''), (PO, '''        if not isinstance(other, IProbabilityOutcome):
            raise TypeError(f"No == between {ProbabilityOutcome.__name__} and {type(other)}.")
        return self.value == other.value and self.constraint_set == other.constraint_set
''', '''        if isinstance(other, IProbabilityOutcome):
            return (self.value, self.constraint_set) == (other.value, other.constraint_set)
        raise TypeError(f"No == between {ProbabilityOutcome.__name__} and {type(other)}.")
''')],
    # --- constraints
    "cm_for_else": [(CM, '''        for constraint in constraint_set:

            if constraint.can_merge(new_constraint):
                unchanged_constraint_set = constraint_set.copy()
                unchanged_constraint_set.remove(constraint)
                changed_constraint_set = {constraint.merge(new_constraint)}
                return changed_constraint_set, unchanged_constraint_set

            if new_constraint.can_merge(constraint):
                unchanged_constraint_set = constraint_set.copy()
                changed_constraint_set = {new_constraint.merge(constraint)}
                unchanged_constraint_set.remove(constraint)
                return changed_constraint_set, unchanged_constraint_set

        constraint_set.add(new_constraint)
        return set(), constraint_set
''', '''        for constraint in constraint_set:
            if constraint.can_merge(new_constraint):
                merged = constraint.merge(new_constraint)
            elif new_constraint.can_merge(constraint):
                merged = new_constraint.merge(constraint)
            else:
                continue
            return {merged}, constraint_set - {constraint}
        return set(), constraint_set | {new_constraint}
''')],
    "cm_recursive": [(CM, '''        values_to_merge = list(new_constraints.copy())
        clean_constraint_set = constraint_set.copy()

        while values_to_merge:
            current_value = values_to_merge.pop()

            new_unclean_values, new_clean_values = ConstraintMerger.__merge_new_constraint(
                current_value, clean_constraint_set
            )
            values_to_merge.extend(new_unclean_values)
            clean_constraint_set = new_clean_values

        return clean_constraint_set
''', '''        clean = set(constraint_set)
        for constraint in new_constraints:
            pending = [constraint]
            while len(pending) > 0:
                unclean, clean = ConstraintMerger.__merge_new_constraint(pending.pop(0), clean)
                pending = pending + list(unclean)
        return clean
''')],
    "cs_reduce": [(CS, "import operator\n", "import functools\nimport operator\n"), (CS, '''        current_hash = hash(ConstraintSet.__name__)
        for constraint in self._constraints_set:
            current_hash = operator.xor(current_hash, hash(constraint))
        return current_hash
''', '''        return functools.reduce(operator.xor, map(hash, self._constraints_set), hash(ConstraintSet.__name__))
'''), (CS, '''        for constraint in self._constraints_set:
            if not constraint.is_possible():
                return False
        return True
''', '''        return not any(not constraint.is_possible() for constraint in self._constraints_set)
'''), (CS, '''        new_set = self._constraints_set.union(constraint_set.constraints)
        return ConstraintSet(new_set, self._constraint_merger)
''', '''        return ConstraintSet(
            constraints_set=self._constraints_set | constraint_set.constraints,
            constraint_merger=self._constraint_merger,
        )
''')],
    "cs_frozenset_hash": [(CS, '''        current_hash = hash(ConstraintSet.__name__)
        for constraint in self._constraints_set:
            current_hash = operator.xor(current_hash, hash(constraint))
        return current_hash
''', '''        return hash((ConstraintSet.__name__, frozenset(self._constraints_set)))
'''), (CS, "import operator\n", ""), (CS, '''        if not isinstance(other, IConstraintSet):
            return False
        return self._constraints_set == other.constraints
''', '''        return isinstance(other, IConstraintSet) and self.constraints == other.constraints
''')],
    "cs_copy_add": [(CS, '''        new_set = self._constraints_set.union(constraint_set.constraints)
        return ConstraintSet(new_set, self._constraint_merger)
''', '''        combined = ConstraintSet(self._constraints_set, self._constraint_merger)
        for constraint in constraint_set.constraints:
            combined.add_constraint(constraint)
        return combined
''')],
    "vv_merge": [(VV, '''        if not self.can_merge(other):
            raise ValueError(f"can not merge {str(other)} with {self.__str__()}")

        if isinstance(other, IVarValueConstraint):
            common_values = self._values.intersection(other.values)

            if len(common_values) == 0:
                return self._constraint_factory.impossible_constraint
            return self._constraint_factory.var_value_constraint(name=self._name, values=common_values)

        raise ValueError(f"can not merge {str(other)} with {self.__str__()} however can_merge returned true")
''', '''        if not isinstance(other, IVarValueConstraint) or not self.can_merge(other):
            raise ValueError(f"can not merge {str(other)} with {self.__str__()}")
        common_values = {value for value in self._values if value in other.values}
        if not common_values:
            return self._constraint_factory.impossible_constraint
        return self._constraint_factory.var_value_constraint(self._name, common_values)
'''), (VV, '''        return len(self._values) > 0
''', '''        return bool(self._values)
'''), (VV, '''        if isinstance(other, IVarValueConstraint):
            return other.name == self._name
        return False
''', '''        return isinstance(other, IVarValueConstraint) and self._name == other.name
''')],
    # --- dice
    "dh_regex_groups": [(DH, '''            multiplier = "1"
            if re.match(r"(-?\\d+--?\\d+|-?\\d+)\\*\\d+", value) is not None:
                value, multiplier = re.split(r"\\*", value)
            if re.match(r"-?\\d+--?\\d+", value) is not None:
                range_values = _find_range(value)
            else:
                range_values = [int(value)]
            if int(multiplier) == 0:
                continue
            for key in range_values:
                safe_add(value_dictionary, key, int(multiplier))
''', '''            sides, _, times = value.partition("*")
            amount = int(times) if times else 1
            if amount == 0:
                continue
            is_range = re.match(r"-?\\d+--?\\d+", sides) is not None
            for key in _find_range(sides) if is_range else [int(sides)]:
                safe_add(value_dictionary, key, amount)
''')],
    "dh_helpers": [(DH, '''def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
''', '''_RANGE = re.compile(r"-?\\d+--?\\d+")


def _side_values(value: str) -> Iterable:
    if _RANGE.match(value):
        return _find_range(value)
    return [int(value)]


def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
'''), (DH, '''            if re.match(r"-?\\d+--?\\d+", value) is not None:
                range_values = _find_range(value)
            else:
                range_values = [int(value)]
            if int(multiplier) == 0:
                continue
            for key in range_values:
''', '''            if int(multiplier) == 0:
                continue
            for key in _side_values(value):
'''), (DH, '''    range_values: Iterable

''', ""), (DH, '''        for value in re.split(r",", re.sub(r"(\\[|\\]|\\s+)", "", dice_type_string).rstrip(",")):
''', '''        listed = re.sub(r"(\\[|\\]|\\s+)", "", dice_type_string).rstrip(",")
        for value in listed.split(","):
''')],
    "de_split_once": [(DE, '''        self._string_form = string_form
        self._single_dice_outcome_map = get_single_dice_outcome_map(self._string_form.split("d")[1])
        self._number_of_dice = self._get_number_of_dice()
        self._probability_distribution_factory = probability_distribution_factory

    def _get_number_of_dice(self) -> int:
        string_num = self._string_form.split("d")[0]
        return 1 if string_num == "" else int(string_num)
''', '''        self._string_form = string_form
        number, sides = string_form.split("d")
        self._number_of_dice = int(number or "1")
        self._single_dice_outcome_map = get_single_dice_outcome_map(sides)
        self._probability_distribution_factory = probability_distribution_factory
'''), (DE, '''        return (max(self._single_dice_outcome_map.keys())) * self._number_of_dice
''', '''        return self._number_of_dice * max(self._single_dice_outcome_map)
'''), (DE, '''        return (min(self._single_dice_outcome_map.keys())) * self._number_of_dice
''', '''        return self._number_of_dice * sorted(self._single_dice_outcome_map)[0]
''')],
    "de_sides_weights": [(DE, '''        return sum(
            random.choices(
                list(self._single_dice_outcome_map.keys()),
                weights=list(self._single_dice_outcome_map.values()),
                k=self._number_of_dice,
            )
        )
''', '''        sides, weights = zip(*self._single_dice_outcome_map.items())
        total = 0
        for side in random.choices(sides, weights, k=self._number_of_dice):
            total += side
        return total
''')],
    "de_reduce": [(DE, "import random\n", "import functools\nimport operator\nimport random\n"), (DE, '''        if self._number_of_dice == 0:
            return self._probability_distribution_factory.create({0: 1})
        single_dice_distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
            self._single_dice_outcome_map
        )
        distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
            single_dice_distribution.get_result_map()
        )
        for _ in range(0, self._number_of_dice - 1):
            distribution = distribution + single_dice_distribution
        return distribution
''', '''        if not self._number_of_dice:
            return self._probability_distribution_factory.create({0: 1})
        single = self._probability_distribution_factory.create(self._single_dice_outcome_map)
        return functools.reduce(operator.add, [single] * self._number_of_dice)
''')],
    "dk_module_safe_add": [(DK, '''        def safe_add_to_dict(dictionary: Dict[str, int], key: str, value: int) -> None:
            if key not in dictionary:
                dictionary[key] = 0
            dictionary[key] += value

''', ""), (DK, '''        def safe_add_to_dict(dictionary: Dict[int, int], key: int, value: int) -> None:
            if key not in dictionary:
                dictionary[key] = 0
            dictionary[key] += value

''', ""), (DK, '''class DropKeepExpression(IDiceExpression):
''', '''def safe_add_to_dict(dictionary, key, value) -> None:
    dictionary[key] = dictionary.get(key, 0) + value


class DropKeepExpression(IDiceExpression):
''')],
    "dk_kept": [(DK, '''        dice_rolls.sort()
        if self._is_keep():
            return sum(dice_rolls[-self._number_to_keep_or_drop :])
        return sum(dice_rolls[: self._number_of_dice - self._number_to_keep_or_drop])
''', '''        ordered = sorted(dice_rolls, reverse=self._is_keep())
        return sum(ordered[: self._number_of_dice_counted()])

    def _number_of_dice_counted(self) -> int:
        if self._is_keep():
            return self._number_to_keep_or_drop
        return self._number_of_dice - self._number_to_keep_or_drop
'''), (DK, '''        if self._is_keep():
            return self._number_to_keep_or_drop * max(self._single_dice_outcome_map.keys())
        return (self._number_of_dice - self._number_to_keep_or_drop) * max(self._single_dice_outcome_map.keys())
''', '''        return self._number_of_dice_counted() * max(self._single_dice_outcome_map)
'''), (DK, '''        if self._is_keep():
            return self._number_to_keep_or_drop * min(self._single_dice_outcome_map.keys())
        return (self._number_of_dice - self._number_to_keep_or_drop) * min(self._single_dice_outcome_map.keys())
''', '''        return min(self._single_dice_outcome_map) * self._number_of_dice_counted()
'''), (DK, '''        if self._is_keep():
            return (self._number_of_dice * self._number_to_keep_or_drop) * len(self._single_dice_outcome_map.values())
        return (self._number_of_dice * (self._number_of_dice - self._number_to_keep_or_drop)) * len(
            self._single_dice_outcome_map.values()
        )
''', '''        return self._number_of_dice * self._number_of_dice_counted() * len(self._single_dice_outcome_map)
'''), (DK, '''        number_of_dice_to_select = self._number_of_dice - self._number_to_keep_or_drop
        number_of_dice_remaining = self._number_to_keep_or_drop
        if is_keep:
            number_of_dice_to_select = self._number_to_keep_or_drop
            number_of_dice_remaining = self._number_of_dice - self._number_to_keep_or_drop
''', '''        number_of_dice_to_select = self._number_of_dice_counted()
        number_of_dice_remaining = self._number_of_dice - number_of_dice_to_select
''')],
    "dk_parts": [(DK, '''        self._string_form = string_form
        self._number_of_dice = self._get_number_of_dice()
        self._single_dice_outcome_map = get_single_dice_outcome_map(re.split(r"[dk]", self._string_form)[1])
        self._number_to_keep_or_drop = self._get_number_to_keep_or_drop()
''', '''        self._string_form = string_form
        number_of_dice, sides, number_to_keep_or_drop = re.split(r"[dk]", string_form)
        self._number_of_dice = int(number_of_dice) if number_of_dice else 1
        self._sides = sides
        self._single_dice_outcome_map = get_single_dice_outcome_map(sides)
        self._number_to_keep_or_drop = int(number_to_keep_or_drop)
'''), (DK, '''    def _get_number_of_dice(self) -> int:
        string_num = re.split(r"[dk]", self._string_form)[0]
        return 1 if string_num == "" else int(string_num)

    def _get_number_to_keep_or_drop(self) -> int:
        return int(re.split(r"[dk]", self._string_form)[2])

    def _get_number_of_sides_string(self) -> str:
        return re.split(r"[dk]", self._string_form)[1]
''', '''    def _get_number_of_sides_string(self) -> str:
        return self._sides
'''), (DK, '''        return "k" in self._string_form
''', '''        return self._string_form.count("k") > 0
''')],
    "dk_one_pass": [(DK, '''        current = DropKeepExpression._build_dice_dict(number_of_dice_to_select, self._single_dice_outcome_map)
        current = DropKeepExpression._compute_iterations(
            current, number_of_dice_remaining, self._single_dice_outcome_map, is_keep
        )

        out_come_map = DropKeepExpression._collapse_outcomes(current)
        return self._probability_distribution_factory.create(out_come_map)
''', '''        kept = {(): 1}
        for _ in range(number_of_dice_to_select + number_of_dice_remaining):
            new_kept: Dict = {}
            for values, ways in kept.items():
                for side, count in self._single_dice_outcome_map.items():
                    key = sorted(values + (side,))
                    if len(key) > number_of_dice_to_select:
                        key = key[1:] if is_keep else key[:-1]
                    new_kept[tuple(key)] = new_kept.get(tuple(key), 0) + ways * count
            kept = new_kept
        totals: Dict[int, int] = {}
        for values, ways in kept.items():
            totals[sum(values)] = totals.get(sum(values), 0) + ways
        return self._probability_distribution_factory.create(totals)
''')],
    "dk_product": [(DK, "import random\n", "import itertools\nimport random\n"), (DK, '''        current = DropKeepExpression._build_dice_dict(number_of_dice_to_select, self._single_dice_outcome_map)
        current = DropKeepExpression._compute_iterations(
            current, number_of_dice_remaining, self._single_dice_outcome_map, is_keep
        )

        out_come_map = DropKeepExpression._collapse_outcomes(current)
        return self._probability_distribution_factory.create(out_come_map)
''', '''        totals: Dict[int, int] = {}
        number_of_dice = number_of_dice_to_select + number_of_dice_remaining
        for dice in itertools.product(self._single_dice_outcome_map.items(), repeat=number_of_dice):
            values = sorted((side for side, _ in dice), reverse=is_keep)[:number_of_dice_to_select]
            ways = 1
            for _, count in dice:
                ways *= count
            totals[sum(values)] = totals.get(sum(values), 0) + ways
        return self._probability_distribution_factory.create(totals)
''')],
    # --- operators
    "bo_methods": [(BO, '''        "==": lambda x, y: BinaryOperatorExpression.__equal__(x, y),  # pylint: disable=unnecessary-lambda
''', '''        "==": lambda one, two: one.__equal__(two) if isinstance(one, IProbabilityDistribution) else one == two,
'''), (BO, '''    def roll(self) -> int:
        return 1 if self.OPERATOR_MAP[self._operator](self._expression_one.roll(), self._expression_two.roll()) else 0
''', '''    def _apply(self, one, two):
        return self.OPERATOR_MAP[self._operator](one, two)

    def roll(self) -> int:
        holds = self._apply(self._expression_one.roll(), self._expression_two.roll())
        return int(bool(holds))
'''), (BO, '''        return self.OPERATOR_MAP[self._operator](
            self._expression_one.get_probability_distribution(),
            self._expression_two.get_probability_distribution(),
        )
''', '''        one, two = (
            expression.get_probability_distribution() for expression in (self._expression_one, self._expression_two)
        )
        return self._apply(one, two)
''')],
    "mm_getattr": [(MM, '''        if self._min_max == "MAX":
            return self._expression_one.get_probability_distribution().max_operator(
                self._expression_two.get_probability_distribution()
            )
        return self._expression_one.get_probability_distribution().min_operator(
            self._expression_two.get_probability_distribution()
        )
''', '''        one = self._expression_one.get_probability_distribution()
        two = self._expression_two.get_probability_distribution()
        return getattr(one, self._min_max.lower() + "_operator")(two)
''')],
    "mm_lambda": [(MM, '''    OPERATOR_MAP = {"MAX": max, "MIN": min}
''', '''    OPERATOR_MAP = {"MAX": lambda x, y: x if x > y else y, "MIN": lambda x, y: y if y < x else x}
''')],
    "id_guard": [(ID, '''    def max(self) -> int:
        divisor = self._expression_two.get_probability_distribution()
        if divisor.contains_zero():
            raise ZeroDivisionError(f"{str(self)}, divisor could be zero")
        return self.get_probability_distribution().max()

    def min(self) -> int:
        divisor = self._expression_two.get_probability_distribution()
        if divisor.contains_zero():
            raise ZeroDivisionError(f"{str(self)}, divisor could be zero")
        return self.get_probability_distribution().min()
''', '''    def _safe_distribution(self) -> IProbabilityDistribution:
        if self._expression_two.get_probability_distribution().contains_zero():
            raise ZeroDivisionError(f"{str(self)}, divisor could be zero")
        return self.get_probability_distribution()

    def max(self) -> int:
        return self._safe_distribution().max()

    def min(self) -> int:
        return self._safe_distribution().min()
''')],
    "mul_loop": [("expression/multiply_expression.py", '''    def max(self) -> int:
''', '''    def _corners(self):
        for one in (self._expression_one.max(), self._expression_one.min()):
            for two in (self._expression_two.max(), self._expression_two.min()):
                yield one * two

    def _max_corner(self) -> int:
        return max(self._corners())

    def max(self) -> int:
''')],
    # --- state
    "ps_default": [(PS, '''        if name not in self._number_of_times_set:
            self._number_of_times_set[name] = 0
        self._number_of_times_set[name] += 1

        new_name = f"{name}_{self._number_of_times_set[name]}"
''', '''        new_name = f"{name}_{self._count_set(name)}"
'''), (PS, '''        self._constants[name] = value
        if name not in self._number_of_times_set:
            self._number_of_times_set[name] = 0
        self._number_of_times_set[name] += 1
''', '''        self._constants[name] = value
        self._count_set(name)

    def _count_set(self, name: str) -> int:
        count = self._number_of_times_set.get(name, 0) + 1
        self._number_of_times_set[name] = count
        return count
''')],
    "ps_try": [(PS, '''        if not self.has_constant(name):
            raise KeyError(f"Constant named {name} not in state.")
        return self._constants[name]
''', '''        if name in self._constants:
            return self._constants[name]
        raise KeyError("Constant named {} not in state.".format(name))
'''), (PS, '''        if not self.has_var(name):
            raise KeyError(f"Var named {name} not in state.")
        return self._var[name]
''', '''        try:
            return self._var[name]
        except KeyError:
            raise KeyError("Var named " + name + " not in state.") from None
''')],
    # --- interpreter
    "in_evaluate": [(IN, '''    def roll(self, input_text: List[str]) -> Dict[str, int]:
        return_dict = {}
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.roll()
            return_dict = dict(self._state.get_constant_dict())
            return_dict["stdout"] = stdout
        return return_dict

    def max(self, input_text: List[str]) -> Dict[str, int]:
        return_dict = {}
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.max()
            return_dict = dict(self._state.get_constant_dict())
            return_dict["stdout"] = stdout
        return return_dict

    def min(self, input_text: List[str]) -> Dict[str, int]:
        return_dict = {}
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.min()
            return_dict = dict(self._state.get_constant_dict())
            return_dict["stdout"] = stdout
        return return_dict
''', '''    def _evaluate(self, input_text: List[str], function) -> Dict[str, int]:
        results: Dict[str, int] = {}
        for line in input_text:
            expression, _ = self._parser.parse(line, state=self._state)
            stdout = function(expression)
            results = {**self._state.get_constant_dict(), "stdout": stdout}
        return results

    def roll(self, input_text: List[str]) -> Dict[str, int]:
        return self._evaluate(input_text, lambda expression: expression.roll())

    def max(self, input_text: List[str]) -> Dict[str, int]:
        return self._evaluate(input_text, lambda expression: expression.max())

    def min(self, input_text: List[str]) -> Dict[str, int]:
        return self._evaluate(input_text, lambda expression: expression.min())
''')],
    "in_generator": [(IN, '''    def get_probability_distributions_dict(self, input_text: List[str]) -> Dict[str, Dict[int, float]]:
        return_dict = {}
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.get_probability_distribution()
            return_dict = dict(self._state.get_var_dict())
            return_dict["stdout"] = stdout
        return {key: value.get_dict_form() for key, value in return_dict.items()}

    def get_probability_distributions(self, input_text: List[str]) -> Dict[str, IProbabilityDistribution]:
        return_dict = {}
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.get_probability_distribution()
            return_dict = dict(self._state.get_var_dict())
            return_dict["stdout"] = stdout
        return {key: return_dict[key] for key in return_dict.keys()}

    def get_average(self, input_text: List[str]) -> Dict[str, float]:
        return_dict = {}
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.get_probability_distribution()
            return_dict = dict(self._state.get_var_dict())
            return_dict["stdout"] = stdout
        return {key: value.average() for key, value in return_dict.items()}
''', '''    def _tokens(self, input_text: List[str]):
        for line in input_text:
            yield self._parser.parse(line, state=self._state)[0]

    def get_probability_distributions_dict(self, input_text: List[str]) -> Dict[str, Dict[int, float]]:
        distributions = self.get_probability_distributions(input_text)
        return {name: distribution.get_dict_form() for name, distribution in distributions.items()}

    def get_probability_distributions(self, input_text: List[str]) -> Dict[str, IProbabilityDistribution]:
        return_dict = {}
        for token in self._tokens(input_text):
            stdout = token.get_probability_distribution()
            return_dict = dict(self._state.get_var_dict(), stdout=stdout)
        return return_dict

    def get_average(self, input_text: List[str]) -> Dict[str, float]:
        averages = {}
        for name, distribution in self.get_probability_distributions(input_text).items():
            averages[name] = distribution.average()
        return averages
''')],
    "in_cost": [(IN, '''        total_cost = 0
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            line_cost = token.estimated_cost()
            total_cost += line_cost
        return total_cost
''', '''        return sum(self._parser.parse(line, state=self._state)[0].estimated_cost() for line in input_text)
'''), (IN, '''        if parser is None:
            parser = PythonDiceParser()
        if probability_distribution_state_factory is None:
            probability_distribution_state_factory = ProbabilityDistributionStateFactory()
        if probability_distribution_factory is None:
            probability_distribution_factory = ProbabilityDistributionFactory()
        if starting_state is None:
            starting_state = probability_distribution_state_factory.create_new_empty_set()
        self._parser = parser
        self._state = starting_state
        self._probability_distribution_factory = probability_distribution_factory
''', '''        self._parser = PythonDiceParser() if parser is None else parser
        self._probability_distribution_factory = (
            ProbabilityDistributionFactory()
            if probability_distribution_factory is None
            else probability_distribution_factory
        )
        if starting_state is not None:
            self._state = starting_state
        else:
            factory = probability_distribution_state_factory
            if factory is None:
                factory = ProbabilityDistributionStateFactory()
            self._state = factory.create_new_empty_set()
''')],
    # --- lexer
    "le_rfind": [(LE, '''            input_lines = input_text.split("\\n")
            source_column_number = exception.getsourcepos().idx

            current_line_index = 0
            while len(input_lines[current_line_index]) < source_column_number:
                source_column_number -= len(input_lines[current_line_index]) + 1
                current_line_index += 1
''', '''            source_column_number = exception.getsourcepos().idx
            for line in input_text.split("\\n"):
                if source_column_number <= len(line):
                    break
                source_column_number -= len(line) + 1
'''), (LE, '''            sub_string = input_lines[current_line_index][sub_string_start:sub_string_end]
            arrow_line = "-" * (source_column_number - sub_string_start) + "^"
            message = f"{sub_string}\\n{arrow_line}"

            new_exception = ValueError(message)
        raise new_exception
''', '''            sub_string = line[sub_string_start:sub_string_end]
            arrow_line = "-" * (source_column_number - sub_string_start) + "^"
            raise ValueError("\\n".join([sub_string, arrow_line])) from exception
''')],
    "le_static": [(LE, '''        try:
            return list(self._lexer.lex(input_text))
        except rply.errors.LexingError as exception:
            input_lines = input_text.split("\\n")
            source_column_number = exception.getsourcepos().idx
''', '''        tokens = []
        try:
            for token in self._lexer.lex(input_text):
                tokens.append(token)
            return tokens
        except rply.errors.LexingError as exception:
            input_lines = input_text.split("\\n")
            position = exception.getsourcepos()
            source_column_number = position.idx
''')],
    "syntax_const": [("syntax/name_syntax.py", None, None)],
}
del RF["syntax_const"]
GROUPS = {
    "h1": ["pd_product", "pd_accumulate", "pd_average", "po_inline", "cm_for_else", "cs_reduce", "vv_merge", "dh_regex_groups", "de_split_once",
           "dk_kept", "bo_methods", "mm_getattr", "id_guard", "ps_default", "in_evaluate", "le_rfind"],
    "h2": ["pd_counter", "pd_init_split", "pd_gaps", "pd_check_other", "po_hash_tuple", "cm_recursive", "cs_frozenset_hash", "dh_helpers",
           "de_sides_weights", "dk_parts", "mm_lambda", "ps_try", "in_generator", "le_static"],
    "h3": ["pd_setdefault", "pd_render", "pd_line_style", "cs_copy_add", "de_reduce", "dk_module_safe_add", "in_cost"],
    "h4": ["pd_try", "dk_one_pass"],
    "h5": ["dk_product"],
}
for g, ids in GROUPS.items():
    RF[g] = [e for i in ids for e in RF[i]]
