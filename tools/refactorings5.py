"""further behaviour-preserving edits, see quiet.py"""
PD = "probability_distribution/probability_distribution.py"
PS = "probability_distribution/probability_distribution_state.py"
PO = "probability_distribution/probability_outcome.py"
DE = "expression/dice_expression.py"
DK = "expression/drop_keep_expression.py"
DH = "expression/dice_expression_helper.py"
ID = "expression/integer_division_expression.py"
AB = "expression/abs_expression.py"
NO = "expression/not_expression.py"
MM = "expression/minmax_expression.py"
CM = "constraint/constraint_merger.py"
CS = "constraint/constraint_set.py"
VV = "constraint/var_value_constraint.py"
IN = "python_dice_interpreter.py"
VA = "expression/var_assignment_expression.py"
RF = {
    "de_squaring": [(DE, '''        for _ in range(0, self._number_of_dice - 1):
            distribution = distribution + single_dice_distribution
        return distribution
''', '''        power = single_dice_distribution
        remaining = self._number_of_dice - 1
        while remaining > 0:
            if remaining % 2 == 1:
                distribution = distribution + power
            remaining //= 2
            if remaining:
                power = power + power
        return distribution
''')],
    "de_halving": [(DE, '''        for _ in range(0, self._number_of_dice - 1):
            distribution = distribution + single_dice_distribution
        return distribution
''', '''        return self._sum_of(self._number_of_dice - 1, single_dice_distribution, distribution)

    def _sum_of(self, number_of_dice, single, start):
        return start if number_of_dice <= 0 else self._sum_of(number_of_dice - 1, single, start + single)
''')],
    "id_divmod": [(ID, "        return self._expression_one.roll() // divisor\n", "        quotient, _ = divmod(self._expression_one.roll(), divisor)\n        return quotient\n")],
    "ab_max": [(AB, "        return abs(self._expression.roll())\n", "        value = self._expression.roll()\n        return max(value, -value)\n")],
    "no_int": [(NO, "        return 0 if self._expression.roll() > 0 else 1\n", "        return int(not self._expression.roll() > 0)\n")],
    "pd_outer_other": [(PD, '''        for this_key, this_value in self._result_map.items():
            for other_key, other_value in other.get_constraint_result_map().items():
                new_outcome = combination_function(this_key, other_key)
                if new_outcome.is_possible():
                    safe_add(new_outcome, this_value * other_value)
        return new_result_map
''', '''        other_items = list(other.get_constraint_result_map().items())
        for this_key, this_value in self._result_map.items():
            products = ((combination_function(this_key, key), this_value * value) for key, value in other_items)
            for new_outcome, count in products:
                if not new_outcome.is_possible():
                    continue
                safe_add(new_outcome, count)
        return new_result_map
''')],
    "pd_counts": [(PD, '''        at_least_dict = {}
        total_above: float = 1
        histogram_form = self._get_histogram_form(self.get_dict_form())
        keys = list(histogram_form.keys())
        keys = sorted(keys)
        for value in keys:
            at_least_dict[value] = total_above / 1
            total_above -= histogram_form[value]
        return at_least_dict
''', '''        result_map = self.get_result_map()
        counted = self._outcome_count
        at_least_dict = {}
        for value in range(min(result_map), max(result_map) + 1):
            at_least_dict[value] = counted / self._outcome_count
            counted -= result_map.get(value, 0)
        return at_least_dict
''')],
    "pd_zero_any": [(PD, '''        result_map = self.get_result_map()
        return 0 in result_map and result_map[0] != 0
''', '''        return any(value == 0 and count != 0 for value, count in self.get_result_map().items())
'''), (PD, "        return max(self.get_result_map().keys())\n", "        return sorted(outcome.value for outcome in self._result_map)[-1]\n"),
                    (PD, "        return min(self.get_result_map().keys())\n", "        lowest, *_ = sorted(self.get_result_map())\n        return lowest\n")],
    "pd_fraction": [(PD, "import copy\nimport io\n", "import copy\nimport fractions\nimport io\n"),
                    (PD, "        return {key: value / self._outcome_count for key, value in self.get_result_map().items()}\n",
                     "        return {\n            key: float(fractions.Fraction(value, self._outcome_count)) for key, value in self.get_result_map().items()\n        }\n")],
    "ps_build": [(PS, '''        for old_probability_outcome, count in distribution.get_constraint_result_map().items():
            new_constraint = self._constraint_factory.var_value_constraint(
                name=new_name, values={old_probability_outcome.value}
            )
            new_probability_outcome = copy.deepcopy(old_probability_outcome)
            new_probability_outcome.constraint_set.add_constraint(new_constraint)
            new_probability_outcomes[new_probability_outcome] = count
''', '''        copied_outcomes = [copy.deepcopy(outcome) for outcome in distribution.get_constraint_result_map()]
        counts = list(distribution.get_constraint_result_map().values())
        for index, new_probability_outcome in enumerate(copied_outcomes):
            new_probability_outcome.constraint_set.add_constraint(
                self._constraint_factory.var_value_constraint(name=new_name, values={new_probability_outcome.value})
            )
            new_probability_outcomes[new_probability_outcome] = counts[index]
''')],
    "dk_recursive": [(DK, '''        current_dict = current
        for _ in range(number_of_dice):
            new_dict: Dict[str, int] = {}
            for dice_outcome, count in dice_outcome_map.items():
                for old_key, old_value in current_dict.items():
                    new_key = DropKeepExpression._update_key_list(old_key, dice_outcome, is_keep)
                    safe_add_to_dict(new_dict, new_key, old_value * count)
            current_dict = new_dict
        return current_dict
''', '''        if number_of_dice == 0:
            return current
        new_dict: Dict[str, int] = {}
        for old_key, old_value in current.items():
            for dice_outcome, count in dice_outcome_map.items():
                new_key = DropKeepExpression._update_key_list(old_key, dice_outcome, is_keep)
                safe_add_to_dict(new_dict, new_key, count * old_value)
        return DropKeepExpression._compute_iterations(new_dict, number_of_dice - 1, dice_outcome_map, is_keep)
''')],
    "dk_pop": [(DK, '''        if is_keep:
            old_value = old_value[1:]
        else:
            old_value = old_value[:-1]
        return''', '''        old_value.pop(0 if is_keep else -1)
        return'''), (DK, '''        dice_rolls.sort()
        if self._is_keep():
            return sum(dice_rolls[-self._number_to_keep_or_drop :])
        return sum(dice_rolls[: self._number_of_dice - self._number_to_keep_or_drop])
''', '''        for _ in range(
            self._number_of_dice - self._number_to_keep_or_drop if self._is_keep() else self._number_to_keep_or_drop
        ):
            dice_rolls.remove(min(dice_rolls) if self._is_keep() else max(dice_rolls))
        return sum(dice_rolls)
''')],
    "dh_count": [(DH, '''    split_range = re.split("-", value)
    range_start: int
    range_end: int

    if re.match(r"\\d+--?\\d+", value) is not None:
        range_start = int(split_range[0])
    else:
        range_start = -int(split_range[1])
    if re.match(r"-?\\d+--\\d+", value) is not None:
        range_end = -int(split_range[-1])
    else:
        range_end = int(split_range[-1])
    return range(min(range_start, range_end), max(range_start, range_end) + 1)
''', '''    separator = value.index("-", 1)
    bounds = (int(value[:separator]), int(value[separator + 1 :]))
    return range(min(bounds), max(bounds) + 1)
''')],
    "dh_update": [(DH, '''            for key in range_values:
                safe_add(value_dictionary, key, int(multiplier))
''', '''            value_dictionary.update({key: value_dictionary.get(key, 0) + int(multiplier) for key in range_values})
''')],
    "mm_sorted": [(MM, "        return self.OPERATOR_MAP[self._min_max](self._expression_one.roll(), self._expression_two.roll())\n",
                   "        rolled = sorted((self._expression_one.roll(), self._expression_two.roll()))\n        return rolled[1] if self._min_max == \"MAX\" else rolled[0]\n")],
    "cm_next": [(CM, '''        for constraint in constraint_set:

            if constraint.can_merge(new_constraint):
                unchanged_constraint_set = constraint_set.copy()
                unchanged_constraint_set.remove(constraint)
                changed_constraint_set = {constraint.merge(new_constraint)}
                return changed_constraint_set, unchanged_constraint_set

            if new_constraint.can_merge(constraint):
                unchanged_constraint_set = constraint_set.copy()
                changed_constraint_set = {new_constraint.merge(constraint)}
                unchanged_constraint_set.remove(constraint)
                return changed_constraint_set, unchanged_constraint_set

        constraint_set.add(new_constraint)
        return set(), constraint_set
''', '''        partner = next(
            (
                constraint
                for constraint in constraint_set
                if constraint.can_merge(new_constraint) or new_constraint.can_merge(constraint)
            ),
            None,
        )
        if partner is None:
            constraint_set.add(new_constraint)
            return set(), constraint_set
        first, second = (partner, new_constraint) if partner.can_merge(new_constraint) else (new_constraint, partner)
        return {first.merge(second)}, constraint_set - {partner}
''')],
    "cs_fold": [(CS, '''        for constraint in self._constraints_set:
            if not constraint.is_possible():
                return False
        return True
''', '''        possible = True
        for constraint in self._constraints_set:
            possible = possible and constraint.is_possible()
        return possible
''')],
    "po_dispatch": [(PO, "        return self.value == other.value and self.constraint_set == other.constraint_set\n",
                     "        return (self.value, self.constraint_set) == (other.value, other.constraint_set)\n")],
}
GROUPS = {
    "n1": ["de_squaring", "id_divmod", "pd_outer_other", "ps_build", "dk_recursive", "dh_count", "mm_sorted", "cm_next"],
    "n2": ["de_halving", "ab_max", "no_int", "pd_counts", "pd_zero_any", "dk_pop", "dh_update", "cs_fold", "po_dispatch", "pd_fraction"],
}
for _g, _m in GROUPS.items():
    RF[_g] = [e for k in _m for e in RF[k]]
