"""edits that keep the behaviour, written as somebody else might (development aid, see quiet.py)"""
PD = "probability_distribution/probability_distribution.py"
PO = "probability_distribution/probability_outcome.py"
PS = "probability_distribution/probability_distribution_state.py"
DK = "expression/drop_keep_expression.py"
DE = "expression/dice_expression.py"
DH = "expression/dice_expression_helper.py"
BO = "expression/binary_operator_expression.py"
MM = "expression/minmax_expression.py"
VA = "expression/var_assignment_expression.py"
ID = "expression/integer_division_expression.py"
CM = "constraint/constraint_merger.py"
CS = "constraint/constraint_set.py"
VV = "constraint/var_value_constraint.py"
IN = "python_dice_interpreter.py"
PA = "python_dice_parser.py"
LE = "python_dice_lexer.py"

SAFE = '''        def safe_add(key, value):
            if key not in new_result_map:
                new_result_map[key] = 0
            new_result_map[key] += value

'''
RF = {
    "dist_get_default": [(PD, SAFE, '''        def safe_add(key, value):
            new_result_map[key] = new_result_map.get(key, 0) + value

'''), (PD, '''            if key not in self._result_map:
                self._result_map[key] = 0
            self._result_map[key] += value_to_add
''', '''            self._result_map[key] = self._result_map.get(key, 0) + value_to_add
''')],
    "dist_defaultdict": [(PD, "import copy\n", "import collections\nimport copy\n"), (PD, '''        new_result_map = {}

''' + SAFE + '''        for this_key, this_value in self._result_map.items():
            for other_key, other_value in other.get_constraint_result_map().items():
                new_outcome = combination_function(this_key, other_key)
                if new_outcome.is_possible():
                    safe_add(new_outcome, this_value * other_value)
        return new_result_map
''', '''        new_result_map: Dict[IProbabilityOutcome, int] = collections.defaultdict(int)
        other_items = other.get_constraint_result_map().items()
        for this_key, this_value in self._result_map.items():
            for other_key, other_value in other_items:
                new_outcome = combination_function(this_key, other_key)
                if not new_outcome.is_possible():
                    continue
                new_result_map[new_outcome] += this_value * other_value
        return dict(new_result_map)
''')],
    "dist_module_helper": [(PD, '''class ProbabilityDistribution(IProbabilityDistribution):
''', '''def _add_to(result_map, key, value):
    if key not in result_map:
        result_map[key] = 0
    result_map[key] += value


class ProbabilityDistribution(IProbabilityDistribution):
'''), (PD, SAFE, ""), (PD, "            safe_add(probability_outcome.value, count)", "            _add_to(new_result_map, probability_outcome.value, count)"),
        (PD, "            safe_add(result_key.not_operator(), result_value)", "            _add_to(new_result_map, result_key.not_operator(), result_value)"),
        (PD, "            safe_add(abs(result_key), result_value)", "            _add_to(new_result_map, abs(result_key), result_value)"),
        (PD, "                    safe_add(new_outcome, this_value * other_value)", "                    _add_to(new_result_map, new_outcome, this_value * other_value)")],
    "dist_map_helper": [(PD, '''        new_result_map = {}

''' + SAFE + '''        for result_key, result_value in self._result_map.items():
            safe_add(result_key.not_operator(), result_value)
        return ProbabilityDistribution(self._probability_outcome_factory, new_result_map)
''', '''        return self._map_outcomes(lambda outcome: outcome.not_operator())

    def _map_outcomes(self, function) -> IProbabilityDistribution:
        new_result_map: Dict[IProbabilityOutcome, int] = {}
        for outcome, count in self._result_map.items():
            new_outcome = function(outcome)
            new_result_map[new_outcome] = new_result_map.get(new_outcome, 0) + count
        return ProbabilityDistribution(self._probability_outcome_factory, new_result_map)
'''), (PD, '''        new_result_map = {}

''' + SAFE + '''        for result_key, result_value in self._result_map.items():
            safe_add(abs(result_key), result_value)
        return ProbabilityDistribution(self._probability_outcome_factory, new_result_map)
''', '''        return self._map_outcomes(abs)
''')],
    "dist_operator_helper": [(PD, '''        if not isinstance(other, IProbabilityDistribution):
            raise TypeError(f"No __add__ between {ProbabilityDistribution} and {type(other)}")
        new_result_map = self._combine_distributions(operator.add, other)
        return ProbabilityDistribution(self._probability_outcome_factory, new_result_map)
''', '''        return self._apply_operator("__add__", operator.add, other)

    def _apply_operator(self, name: str, function: Callable, other: object) -> IProbabilityDistribution:
        if not isinstance(other, IProbabilityDistribution):
            raise TypeError(f"No {name} between {ProbabilityDistribution} and {type(other)}")
        return ProbabilityDistribution(
            self._probability_outcome_factory, self._combine_distributions(function, other)
        )
''')] + [(PD, '''        if not isinstance(other, IProbabilityDistribution):
            raise TypeError(f"No %s between {ProbabilityDistribution} and {type(other)}")
        new_result_map = self._combine_distributions(%s, other)
        return ProbabilityDistribution(self._probability_outcome_factory, new_result_map)
''' % (n, f), '''        return self._apply_operator("%s", %s, other)
''' % (n, f)) for n, f in (("__sub__", "operator.sub"), ("__mul__", "operator.mul"), ("__floordiv__", "operator.floordiv"),
                           ("__lt__", "operator.lt"), ("__and__", "operator.and_"), ("__equal__", "lambda x, y: x.__equal__(y)"),
                           ("max_operator", "lambda x, y: x.max_operator(y)"))],
    "dist_views": [(PD, '''        total_values = 0
        for item, value in self.get_result_map().items():
            total_values += item * value
        return total_values / self._outcome_count
''', '''        return sum(item * value for item, value in self.get_result_map().items()) / self._outcome_count
'''), (PD, '''        base_data = copy.copy(base_data)
        item_list = [(key, base_data[key]) for key in base_data.keys()]
        item_list.sort(key=lambda tup: tup[0])
        for int_value in range(item_list[0][0], item_list[-1][0] + 1):
            if int_value not in base_data:
                base_data[int_value] = 0
        return base_data
''', '''        lowest, highest = min(base_data), max(base_data)
        return {value: base_data.get(value, 0) for value in range(lowest, highest + 1)}
'''), (PD, "import copy\n", ""), (PD, '''        histogram_form = self._get_histogram_form(self.get_dict_form())
        keys = list(histogram_form.keys())
        keys = sorted(keys)
        for value in keys:
            at_or_below += histogram_form[value]
            at_most_dict[value] = at_or_below / 1
        return at_most_dict
''', '''        for value, probability in sorted(self._get_histogram_form(self.get_dict_form()).items()):
            at_or_below += probability
            at_most_dict[value] = at_or_below
        return at_most_dict
'''), (PD, "            at_least_dict[value] = total_above / 1", "            at_least_dict[value] = total_above")],
    "dist_init_loop": [(PD, '''        for value in self._result_map.values():
            self._outcome_count += value
''', '''        self._outcome_count = sum(self._result_map.values())
'''), (PD, '''                if isinstance(result_value, int):
                    safe_add(self._probability_outcome_factory.create_empty(value=result_value), count)
                if isinstance(result_value, IProbabilityOutcome):
                    safe_add(result_value, count)
''', '''                if isinstance(result_value, IProbabilityOutcome):
                    safe_add(result_value, count)
                elif isinstance(result_value, int):
                    safe_add(self._probability_outcome_factory.create_empty(value=result_value), count)
''')],
    "dist_charts": [(PD, '''        histogram_data = self.at_least()
        x_values = list(histogram_data.keys())
        return self._make_histogram(x_values, [histogram_data[x_value] for x_value in x_values], self.average())
''', '''        return self._draw(self.at_least())

    def _draw(self, data: Dict[int, float]) -> Image:
        return self._make_histogram(list(data.keys()), list(data.values()), self.average())
'''), (PD, '''        histogram_data = self.at_most()
        x_values = list(histogram_data.keys())
        return self._make_histogram(x_values, [histogram_data[x_value] for x_value in x_values], self.average())
''', '''        return self._draw(self.at_most())
'''), (PD, '''        this_at_most_data = self.at_most()
        other_at_most_data = other_probability.at_most()

        x_values_one = list(this_at_most_data.keys())
        x_values_two = list(other_at_most_data.keys())
        return self._make_line_plot(
            x_values_one,
            [this_at_most_data[x_value] for x_value in x_values_one],
            x_values_two,
            [other_at_most_data[x_value] for x_value in x_values_two],
            this_distribution_name,
            other_distribution_name,
        )
''', '''        mine = self.at_most()
        theirs = other_probability.at_most()
        return self._make_line_plot(
            [*mine],
            [*mine.values()],
            [*theirs],
            [*theirs.values()],
            lable_two=other_distribution_name,
            lable_one=this_distribution_name,
        )
''')],
    "outcome_combine": [(PO, '''        if binary_values:
            new_value = combination_function(
                self._value_to_binary_value(self.value), self._value_to_binary_value(other.value)
            )
        else:
            new_value = combination_function(self.value, other.value)

        if isinstance(new_value, bool):
            new_value = self._binary_to_int(new_value)
        new_constraint_set = self._constraint_set.combine_sets(other.constraint_set)
        return ProbabilityOutcome(value=new_value, constraint_set=new_constraint_set)
''', '''        left, right = self.value, other.value
        if binary_values:
            left = self._value_to_binary_value(left)
            right = self._value_to_binary_value(right)
        result = combination_function(left, right)
        return ProbabilityOutcome(
            value=int(result), constraint_set=self._constraint_set.combine_sets(other.constraint_set)
        )
'''), (PO, '''        new_value = 0 if self._value_to_binary_value(self.value) else 1
        return ProbabilityOutcome(value=new_value, constraint_set=self._constraint_set)
''', '''        return ProbabilityOutcome(int(self.value <= 0), self._constraint_set)
'''), (PO, "combination_function=operator.lt, other=other", "combination_function=lambda left, right: left < right, other=other"),
        (PO, '''        return operator.xor(
            hash(ProbabilityOutcome.__name__), operator.xor(hash(self.value), hash(self.constraint_set))
        )
''', '''        return hash((ProbabilityOutcome.__name__, self.value, self.constraint_set))
''')],
    "merger_loop": [(CM, '''        values_to_merge = list(new_constraints.copy())
        clean_constraint_set = constraint_set.copy()

        while values_to_merge:
            current_value = values_to_merge.pop()

            new_unclean_values, new_clean_values = ConstraintMerger.__merge_new_constraint(
                current_value, clean_constraint_set
            )
            values_to_merge.extend(new_unclean_values)
            clean_constraint_set = new_clean_values

        return clean_constraint_set
''', '''        pending = list(new_constraints)
        merged = set(constraint_set)
        while len(pending) > 0:
            left_over, merged = ConstraintMerger.__merge_new_constraint(pending.pop(), merged)
            pending += list(left_over)
        return merged
'''), (CM, '''            if constraint.can_merge(new_constraint):
                unchanged_constraint_set = constraint_set.copy()
                unchanged_constraint_set.remove(constraint)
                changed_constraint_set = {constraint.merge(new_constraint)}
                return changed_constraint_set, unchanged_constraint_set

            if new_constraint.can_merge(constraint):
                unchanged_constraint_set = constraint_set.copy()
                changed_constraint_set = {new_constraint.merge(constraint)}
                unchanged_constraint_set.remove(constraint)
                return changed_constraint_set, unchanged_constraint_set
''', '''            if constraint.can_merge(new_constraint):
                return {constraint.merge(new_constraint)}, constraint_set - {constraint}
            if new_constraint.can_merge(constraint):
                return {new_constraint.merge(constraint)}, constraint_set - {constraint}
''')],
    "cset_all": [(CS, '''        for constraint in self._constraints_set:
            if not constraint.complies(var_values=var_values):
                return False
        return True
''', '''        return all(constraint.complies(var_values=var_values) for constraint in self._constraints_set)
'''), (CS, '''        for constraint in self._constraints_set:
            if not constraint.is_possible():
                return False
        return True
''', '''        return not any(not constraint.is_possible() for constraint in self._constraints_set)
'''), (CS, '''        new_set = self._constraints_set.union(constraint_set.constraints)
        return ConstraintSet(new_set, self._constraint_merger)
''', '''        return ConstraintSet(self._constraints_set | constraint_set.constraints, self._constraint_merger)
'''), (CS, '''        if len(constraints_set) == 0:
            raise''', '''        if not constraints_set:
            raise'''), (CS, "        return not self == other", "        return not self.__eq__(other)")],
    "cset_functools": [(CS, '''        current_hash = hash(ConstraintSet.__name__)
        for constraint in self._constraints_set:
            current_hash = operator.xor(current_hash, hash(constraint))
        return current_hash
''', '''        return functools.reduce(operator.xor, map(hash, self._constraints_set), hash(ConstraintSet.__name__))
'''), (CS, "import operator\n", "import functools\nimport operator\n")],
    "varvalue": [(VV, '''        if self._name in var_values:
            if var_values[self._name] not in self._values:
                return False
        return True
''', '''        return self._name not in var_values or var_values[self._name] in self._values
'''), (VV, '''        if isinstance(other, IVarValueConstraint):
            return other.name == self._name
        return False
''', '''        return isinstance(other, IVarValueConstraint) and other.name == self._name
'''), (VV, '''        if isinstance(other, IVarValueConstraint):
            common_values = self._values.intersection(other.values)

            if len(common_values) == 0:
                return self._constraint_factory.impossible_constraint
            return self._constraint_factory.var_value_constraint(name=self._name, values=common_values)

        raise ValueError(f"can not merge {str(other)} with {self.__str__()} however can_merge returned true")
''', '''        common_values = {value for value in self._values if value in other.values}
        if common_values:
            return self._constraint_factory.var_value_constraint(self._name, common_values)
        return self._constraint_factory.impossible_constraint
'''), (VV, "        return len(self._values) > 0", "        return bool(self._values)")],
    "dice_roll": [(DE, '''        return sum(
            random.choices(
                list(self._single_dice_outcome_map.keys()),
                weights=list(self._single_dice_outcome_map.values()),
                k=self._number_of_dice,
            )
        )
''', '''        sides, weights = zip(*self._single_dice_outcome_map.items())
        total = 0
        for roll in random.choices(sides, weights=weights, k=self._number_of_dice):
            total += roll
        return total
'''), (DE, '''        string_num = self._string_form.split("d")[0]
        return 1 if string_num == "" else int(string_num)
''', '''        number_of_dice, _, _ = self._string_form.partition("d")
        return int(number_of_dice) if number_of_dice else 1
'''), (DE, "get_single_dice_outcome_map(self._string_form.split(\"d\")[1])", "get_single_dice_outcome_map(self._string_form.split(\"d\", 1)[1])")],
    "dice_roll_one_by_one": [(DE, '''        return sum(
            random.choices(
                list(self._single_dice_outcome_map.keys()),
                weights=list(self._single_dice_outcome_map.values()),
                k=self._number_of_dice,
            )
        )
''', '''        return sum(self._roll_one() for _ in range(self._number_of_dice))

    def _roll_one(self) -> int:
        return random.choices(
            list(self._single_dice_outcome_map.keys()), weights=list(self._single_dice_outcome_map.values())
        )[0]
'''), (DE, "        return (max(self._single_dice_outcome_map.keys())) * self._number_of_dice", "        return self._number_of_dice * max(self._single_dice_outcome_map)"),
        (DE, "len(self._single_dice_outcome_map.values())", "len(self._single_dice_outcome_map)")],
    "dice_dist": [(DE, '''        if self._number_of_dice == 0:
            return self._probability_distribution_factory.create({0: 1})
        single_dice_distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
            self._single_dice_outcome_map
        )
        distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
            single_dice_distribution.get_result_map()
        )
        for _ in range(0, self._number_of_dice - 1):
            distribution = distribution + single_dice_distribution
        return distribution
''', '''        distribution = self._probability_distribution_factory.create({0: 1})
        one_die = self._probability_distribution_factory.create(self._single_dice_outcome_map)
        for _ in range(self._number_of_dice):
            distribution = distribution + one_die
        return distribution
''')],
    "dropkeep_roll": [(DK, '''        dice_rolls.sort()
        if self._is_keep():
            return sum(dice_rolls[-self._number_to_keep_or_drop :])
        return sum(dice_rolls[: self._number_of_dice - self._number_to_keep_or_drop])
''', '''        highest_first = sorted(dice_rolls, reverse=True)
        if self._is_keep():
            selected = highest_first[: self._number_to_keep_or_drop]
        else:
            selected = highest_first[self._number_to_keep_or_drop :]
        return sum(selected)
'''), (DK, '''        if self._is_keep():
            return self._number_to_keep_or_drop * max(self._single_dice_outcome_map.keys())
        return (self._number_of_dice - self._number_to_keep_or_drop) * max(self._single_dice_outcome_map.keys())
''', '''        return self._number_selected() * max(self._single_dice_outcome_map)

    def _number_selected(self) -> int:
        if self._is_keep():
            return self._number_to_keep_or_drop
        return self._number_of_dice - self._number_to_keep_or_drop
'''), (DK, '''        if self._is_keep():
            return (self._number_of_dice * self._number_to_keep_or_drop) * len(self._single_dice_outcome_map.values())
        return (self._number_of_dice * (self._number_of_dice - self._number_to_keep_or_drop)) * len(
            self._single_dice_outcome_map.values()
        )
''', '''        return self._number_of_dice * self._number_selected() * len(self._single_dice_outcome_map)
''')],
    "dropkeep_tuples": [(DK, '''        current_dict = {"": 1}
''', '''        current_dict = {(): 1}
'''), (DK, '''                    new_key = DropKeepExpression._string_key_to_list(old_key)
                    new_key.append(dice_outcome)
                    new_key.sort()
                    safe_add_to_dict(
                        new_dict,
                        DropKeepExpression._int_list_to_string(new_key),
                        old_value * count,
                    )
''', '''                    safe_add_to_dict(new_dict, tuple(sorted(old_key + (dice_outcome,))), old_value * count)
'''), (DK, '''        old_value = DropKeepExpression._string_key_to_list(old_key_string)
        old_value.append(new_value)
        old_value.sort()
        if is_keep:
            old_value = old_value[1:]
        else:
            old_value = old_value[:-1]
        return DropKeepExpression._int_list_to_string(old_value)
''', '''        values = sorted(old_key_string + (new_value,))
        return tuple(values[1:]) if is_keep else tuple(values[:-1])
'''), (DK, "            total = sum(DropKeepExpression._string_key_to_list(current_key))", "            total = sum(current_key)")],
    "dropkeep_init": [(DK, '''        if self._is_keep():
            if self._number_of_dice <= self._number_to_keep_or_drop:
                self._simplified_form = DiceExpression(
                    f"{self._number_of_dice}d{self._get_number_of_sides_string()}",
                    self._probability_distribution_factory,
                )
            elif self._number_to_keep_or_drop == 0:
                self._simplified_form = ConstantIntegerExpression("0", self._probability_distribution_factory)
        else:
            if self._number_of_dice <= self._number_to_keep_or_drop:
                self._simplified_form = ConstantIntegerExpression("0", self._probability_distribution_factory)
            elif self._number_to_keep_or_drop == 0:
                self._simplified_form = DiceExpression(
                    f"{self._number_of_dice}d{self._get_number_of_sides_string()}",
                    self._probability_distribution_factory,
                )
''', '''        whole_pool = self._number_of_dice <= self._number_to_keep_or_drop
        if whole_pool or self._number_to_keep_or_drop == 0:
            if whole_pool == self._is_keep():
                self._simplified_form = DiceExpression(
                    str(self._number_of_dice) + "d" + self._get_number_of_sides_string(),
                    probability_distribution_factory,
                )
            else:
                self._simplified_form = ConstantIntegerExpression("0", probability_distribution_factory)
''')],
    "helper_sides": [(DH, '''    if re.match(r"\\d+", dice_type_string) is not None:
        value_dictionary = {value: 1 for value in range(1, int(dice_type_string) + 1)}
    elif dice_type_string == "%":
        value_dictionary = {value: 1 for value in range(1, 100 + 1)}
    elif dice_type_string == "F":
        value_dictionary = {-1: 1, 0: 1, 1: 1}
    else:
''', '''    if dice_type_string == "F":
        return {-1: 1, 0: 1, 1: 1}
    if dice_type_string == "%":
        dice_type_string = "100"
    if dice_type_string.isdigit():
        value_dictionary = dict.fromkeys(range(1, int(dice_type_string) + 1), 1)
    else:
'''), (DH, '''        if value not in dictionary:
            dictionary[value] = 0
        dictionary[value] += amount
''', '''        dictionary[value] = dictionary.get(value, 0) + amount
''')],
    "helper_range": [(DH, '''    split_range = re.split("-", value)
    range_start: int
    range_end: int

    if re.match(r"\\d+--?\\d+", value) is not None:
        range_start = int(split_range[0])
    else:
        range_start = -int(split_range[1])
    if re.match(r"-?\\d+--\\d+", value) is not None:
        range_end = -int(split_range[-1])
    else:
        range_end = int(split_range[-1])
    return range(min(range_start, range_end), max(range_start, range_end) + 1)
''', '''    ends = re.match(r"(-?\\d+)-(-?\\d+)", value)
    low, high = sorted(int(end) for end in ends.groups())
    return range(low, high + 1)
''')],
    "binop_table": [(BO, '''        return 1 if self.OPERATOR_MAP[self._operator](self._expression_one.roll(), self._expression_two.roll()) else 0
''', '''        operation = self.OPERATOR_MAP[self._operator]
        left = self._expression_one.roll()
        right = self._expression_two.roll()
        return int(bool(operation(left, right)))
'''), (BO, '''        return self._expression_one.get_contained_variables().union(self._expression_two.get_contained_variables())
''', '''        names = set(self._expression_one.get_contained_variables())
        names.update(self._expression_two.get_contained_variables())
        return names
''')],
    "minmax_if": [(MM, '''        if self._min_max == "MAX":
            return self._expression_one.get_probability_distribution().max_operator(
                self._expression_two.get_probability_distribution()
            )
        return self._expression_one.get_probability_distribution().min_operator(
            self._expression_two.get_probability_distribution()
        )
''', '''        left = self._expression_one.get_probability_distribution()
        right = self._expression_two.get_probability_distribution()
        combine = left.max_operator if self._min_max == "MAX" else left.min_operator
        return combine(right)
'''), (MM, '''        return f"{self._min_max}({str(self._expression_one)}, {str(self._expression_two)})"
''', '''        return "{}({}, {})".format(self._min_max, self._expression_one, self._expression_two)
''')],
    "division_guard": [(ID, '''        divisor = self._expression_two.get_probability_distribution()
        if divisor.contains_zero():
            raise ZeroDivisionError(f"{str(self)}, divisor could be zero")
        return self.get_probability_distribution().max()
''', '''        self._check_divisor()
        return self.get_probability_distribution().max()

    def _check_divisor(self) -> None:
        if self._expression_two.get_probability_distribution().contains_zero():
            raise ZeroDivisionError(f"{str(self)}, divisor could be zero")
'''), (ID, '''        divisor = self._expression_two.get_probability_distribution()
        if divisor.contains_zero():
            raise ZeroDivisionError(f"{str(self)}, divisor could be zero")
        return self.get_probability_distribution().min()
''', '''        self._check_divisor()
        return self.get_probability_distribution().min()
''')],
    "assign_helper": [(VA, '''        max_value = self._expression.max()
        self._state.set_constant(self._name, max_value)
        self._state.set_var(self._name, self._expression.get_probability_distribution())
        return max_value
''', '''        return self._store(self._expression.max())

    def _store(self, value: int) -> int:
        self._state.set_constant(self._name, value)
        self._state.set_var(self._name, self._expression.get_probability_distribution())
        return value
'''), (VA, '''        min_value = self._expression.min()
        self._state.set_constant(self._name, min_value)
        self._state.set_var(self._name, self._expression.get_probability_distribution())
        return min_value
''', '''        return self._store(self._expression.min())
''')],
    "state_counter": [(PS, '''        if name not in self._number_of_times_set:
            self._number_of_times_set[name] = 0
        self._number_of_times_set[name] += 1

        new_name''', '''        self._count_assignment(name)
        new_name'''), (PS, '''        if name not in self._number_of_times_set:
            self._number_of_times_set[name] = 0
        self._number_of_times_set[name] += 1

    def set_var(''', '''        self._count_assignment(name)

    def _count_assignment(self, name: str) -> None:
        self._number_of_times_set[name] = self._number_of_times_set.get(name, 0) + 1

    def set_var('''), (PS, '''        if not self.has_constant(name):
            raise KeyError(f"Constant named {name} not in state.")
        return self._constants[name]
''', '''        try:
            return self._constants[name]
        except KeyError:
            raise KeyError(f"Constant named {name} not in state.") from None
''')],
    "state_tag_helper": [(PS, '''        new_probability_outcomes = {}
        for old_probability_outcome, count in distribution.get_constraint_result_map().items():
            new_constraint = self._constraint_factory.var_value_constraint(
                name=new_name, values={old_probability_outcome.value}
            )
            new_probability_outcome = copy.deepcopy(old_probability_outcome)
            new_probability_outcome.constraint_set.add_constraint(new_constraint)
            new_probability_outcomes[new_probability_outcome] = count
        self._var[name] = self._probability_distribution_factory.create(new_probability_outcomes)
''', '''        self._var[name] = self._probability_distribution_factory.create(
            {
                self._tag(outcome, new_name): count
                for outcome, count in distribution.get_constraint_result_map().items()
            }
        )

    def _tag(self, outcome, name: str):
        tagged = copy.deepcopy(outcome)
        tagged.constraint_set.add_constraint(self._constraint_factory.var_value_constraint(name, {outcome.value}))
        return tagged
''')],
    "interp_run": [(IN, '''        return_dict = {}
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.roll()
            return_dict = dict(self._state.get_constant_dict())
            return_dict["stdout"] = stdout
        return return_dict
''', '''        return self._run(input_text, lambda expression: expression.roll())

    def _run(self, input_text: List[str], query) -> Dict[str, int]:
        result: Dict[str, int] = {}
        for line in input_text:
            expression, _ = self._parser.parse(line, state=self._state)
            value = query(expression)
            result = {**self._state.get_constant_dict(), "stdout": value}
        return result
'''), (IN, '''        return_dict = {}
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.max()
            return_dict = dict(self._state.get_constant_dict())
            return_dict["stdout"] = stdout
        return return_dict
''', '''        return self._run(input_text, lambda expression: expression.max())
'''), (IN, '''        total_cost = 0
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            line_cost = token.estimated_cost()
            total_cost += line_cost
        return total_cost
''', '''        return sum(self._parser.parse(line, state=self._state)[0].estimated_cost() for line in input_text)
''')],
    "interp_dists": [(IN, '''        return_dict = {}
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.get_probability_distribution()
            return_dict = dict(self._state.get_var_dict())
            return_dict["stdout"] = stdout
        return {key: return_dict[key] for key in return_dict.keys()}
''', '''        distributions = {}
        stdout = None
        for line in input_text:
            stdout = self._parse(line).get_probability_distribution()
        if stdout is not None:
            distributions.update(self._state.get_var_dict())
            distributions["stdout"] = stdout
        return distributions

    def _parse(self, line: str):
        return self._parser.parse(line, state=self._state)[0]
'''), (IN, '''        return_dict = {}
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.get_probability_distribution()
            return_dict = dict(self._state.get_var_dict())
            return_dict["stdout"] = stdout
        return {key: value.average() for key, value in return_dict.items()}
''', '''        return {
            key: distribution.average()
            for key, distribution in self.get_probability_distributions(input_text).items()
        }
''')],
    "interp_charts": [(IN, '''        stdout: IProbabilityDistribution = self._probability_distribution_factory.create()
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.get_probability_distribution()
        return stdout.get_histogram()
''', '''        return self._last_distribution(input_text).get_histogram()

    def _last_distribution(self, input_text: List[str]) -> IProbabilityDistribution:
        last = self._probability_distribution_factory.create()
        for line in input_text:
            last = self._parser.parse(line, state=self._state)[0].get_probability_distribution()
        return last
'''), (IN, '''        stdout: IProbabilityDistribution = self._probability_distribution_factory.create()
        for line in input_text:
            token, _ = self._parser.parse(line, state=self._state)
            stdout = token.get_probability_distribution()
        return stdout.get_at_most_histogram()
''', '''        return self._last_distribution(input_text).get_at_most_histogram()
''')],
    "lexer_message": [(LE, '''            current_line_index = 0
            while len(input_lines[current_line_index]) < source_column_number:
                source_column_number -= len(input_lines[current_line_index]) + 1
                current_line_index += 1
''', '''            current_line_index = 0
            for line in input_lines:
                if len(line) >= source_column_number:
                    break
                source_column_number -= len(line) + 1
                current_line_index += 1
'''), (LE, '''            new_exception = ValueError(message)
        raise new_exception
''', '''            raise ValueError(message) from exception
'''), (LE, '''        partial_lexer = rply.LexerGenerator()
        for syntax in LEXER_SYNTAX:
            partial_lexer.add(syntax.get_token_name(), syntax.get_token_regex())
        # Ignore spaces
        partial_lexer.ignore(r"\\s+")
        self._lexer = partial_lexer.build()
''', '''        self._lexer = self._build_lexer()

    @staticmethod
    def _build_lexer():
        generator = rply.LexerGenerator()
        for name, regex in [(syntax.get_token_name(), syntax.get_token_regex()) for syntax in LEXER_SYNTAX]:
            generator.add(name, regex)
        generator.ignore(r"\\s+")
        return generator.build()
''')],
    "parser_tokens": [(PA, '''        return self._parser.parse(iter(self._lexer.lex(input_text)), state=state), state
''', '''        tokens = self._lexer.lex(input_text)
        expression = self._parser.parse(iter(tokens), state=state)
        return expression, state
'''), (PA, '''        parser_generator = rply.ParserGenerator(
            [syntax.get_token_name() for syntax in LEXER_SYNTAX],
            precedence=PRECEDENCE,
        )

        for syntax in PARSER_EXPRESSIONS:
            syntax.add_production_function(parser_generator, probability_distribution_factory)
''', '''        token_names = []
        for syntax in LEXER_SYNTAX:
            token_names.append(syntax.get_token_name())
        parser_generator = rply.ParserGenerator(token_names, precedence=PRECEDENCE)
        self._add_productions(parser_generator, probability_distribution_factory)
'''), (PA, '''    def parse(
''', '''    @staticmethod
    def _add_productions(parser_generator, probability_distribution_factory) -> None:
        for expression in PARSER_EXPRESSIONS:
            expression.add_production_function(parser_generator, probability_distribution_factory)

    def parse(
''')],
}

GROUPS = {
    "g1": ["dist_get_default", "outcome_combine", "merger_loop", "dice_roll", "dropkeep_roll", "binop_table", "assign_helper", "interp_run",
           "lexer_message", "helper_sides"],
    "g2": ["dist_defaultdict", "cset_all", "varvalue", "dice_roll_one_by_one", "dropkeep_tuples", "minmax_if", "state_counter", "interp_dists",
           "parser_tokens", "helper_range"],
    "g3": ["dist_module_helper", "dist_views", "cset_functools", "dice_dist", "dropkeep_init", "division_guard", "state_tag_helper",
           "interp_charts"],
    "g4": ["dist_map_helper", "dist_operator_helper", "dist_charts", "dist_init_loop"],
}
for g, ids in GROUPS.items():
    RF[g] = [e for i in ids for e in RF[i]]
