From f262cb6089e09606d9102cbf725078df0806433b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 01:12:33 +0000
Subject: [PATCH 01/10] fix: roll of ! treats values above zero as true, as the
 distribution does

---
 python_dice/src/expression/not_expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/expression/not_expression.py b/python_dice/src/expression/not_expression.py
index 1ba395b..86269f8 100644
--- a/python_dice/src/expression/not_expression.py
+++ b/python_dice/src/expression/not_expression.py
@@ -27,7 +27,7 @@ class NotExpression(IDiceExpression):
         self._expression = expression
 
     def roll(self) -> int:
-        return 0 if self._expression.roll() else 1
+        return 0 if self._expression.roll() > 0 else 1
 
     def max(self) -> int:
         return self.get_probability_distribution().max()
-- 
2.43.0


From 12238132ed7bdd5efd61222b0b86c97c1b18ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 01:12:33 +0000
Subject: [PATCH 02/10] fix: roll of OR treats values above zero as true, as
 the distribution does

---
 python_dice/src/expression/binary_operator_expression.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python_dice/src/expression/binary_operator_expression.py b/python_dice/src/expression/binary_operator_expression.py
index c0880ec..eea2c3a 100644
--- a/python_dice/src/expression/binary_operator_expression.py
+++ b/python_dice/src/expression/binary_operator_expression.py
@@ -23,6 +23,12 @@ class BinaryOperatorExpression(IDiceExpression):
             return this.__not_equal__(other)
         return this != other
 
+    @staticmethod
+    def __logical_or__(this: object, other: object):
+        if isinstance(this, IProbabilityDistribution) and isinstance(other, IProbabilityDistribution):
+            return this | other
+        return this > 0 or other > 0
+
     RULE = """expression : expression BINARY_OPERATOR expression"""
     OPERATOR_MAP = {
         "==": lambda x, y: BinaryOperatorExpression.__equal__(x, y),  # pylint: disable=unnecessary-lambda
@@ -32,7 +38,7 @@ class BinaryOperatorExpression(IDiceExpression):
         ">=": operator.ge,
         ">": operator.gt,
         "AND": operator.and_,
-        "OR": operator.or_,
+        "OR": lambda x, y: BinaryOperatorExpression.__logical_or__(x, y),  # pylint: disable=unnecessary-lambda
     }
 
     @staticmethod
-- 
2.43.0


From 5658af7b1acaf06852f75c72aa0ff7407288fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 01:12:33 +0000
Subject: [PATCH 03/10] fix: the distribution of zero dice is the constant zero

---
 python_dice/src/expression/dice_expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression.py b/python_dice/src/expression/dice_expression.py
index 840e6c9..5e94e0f 100644
--- a/python_dice/src/expression/dice_expression.py
+++ b/python_dice/src/expression/dice_expression.py
@@ -56,6 +56,8 @@ class DiceExpression(IDiceExpression):
         return f"{self._string_form}"
 
     def get_probability_distribution(self) -> IProbabilityDistribution:
+        if self._number_of_dice == 0:
+            return self._probability_distribution_factory.create({0: 1})
         single_dice_distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
             self._single_dice_outcome_map
         )
-- 
2.43.0


From bf057e6c8064fc01a38643336ce9e04cccf7ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 01:12:33 +0000
Subject: [PATCH 04/10] fix: accept the documented trailing comma in a custom
 dice list

---
 python_dice/src/expression/dice_expression_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index fb103bb..e6de44d 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -34,7 +34,7 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
         value_dictionary = {-1: 1, 0: 1, 1: 1}
     else:
         value_dictionary = {}
-        for value in re.split(r",", re.sub(r"(\[|\]|\s+)", "", dice_type_string)):
+        for value in re.split(r",", re.sub(r"(\[|\]|\s+)", "", dice_type_string).rstrip(",")):
             multiplier = "1"
             if re.match(r"(-?\d+--?\d+|-?\d+)\*\d+", value) is not None:
                 value, multiplier = re.split(r"\*", value)
-- 
2.43.0


From 3cf008d6f50411a0bbae417fd36625fa5548054b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 01:13:29 +0000
Subject: [PATCH 05/10] fix: a side repeated zero times is not a side of the
 die

---
 python_dice/src/expression/dice_expression_helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index e6de44d..f299077 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -42,6 +42,8 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
                 range_values = _find_range(value)
             else:
                 range_values = [int(value)]
+            if int(multiplier) == 0:
+                continue
             for key in range_values:
                 safe_add(value_dictionary, key, int(multiplier))
     return value_dictionary
-- 
2.43.0


From 6f7845ce93bd7c7743ef4428deaac2a5964aef5d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 01:13:29 +0000
Subject: [PATCH 06/10] fix: interpreter results are snapshots, not live views
 of the variable state

---
 python_dice/src/python_dice_interpreter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python_dice/src/python_dice_interpreter.py b/python_dice/src/python_dice_interpreter.py
index cdef5d0..89da530 100644
--- a/python_dice/src/python_dice_interpreter.py
+++ b/python_dice/src/python_dice_interpreter.py
@@ -46,7 +46,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.roll()
-            return_dict = self._state.get_constant_dict()
+            return_dict = dict(self._state.get_constant_dict())
             return_dict["stdout"] = stdout
         return return_dict
 
@@ -55,7 +55,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.max()
-            return_dict = self._state.get_constant_dict()
+            return_dict = dict(self._state.get_constant_dict())
             return_dict["stdout"] = stdout
         return return_dict
 
@@ -64,7 +64,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.min()
-            return_dict = self._state.get_constant_dict()
+            return_dict = dict(self._state.get_constant_dict())
             return_dict["stdout"] = stdout
         return return_dict
 
@@ -73,7 +73,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.get_probability_distribution()
-            return_dict = self._state.get_var_dict()
+            return_dict = dict(self._state.get_var_dict())
             return_dict["stdout"] = stdout
         return {key: value.get_dict_form() for key, value in return_dict.items()}
 
@@ -82,7 +82,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.get_probability_distribution()
-            return_dict = self._state.get_var_dict()
+            return_dict = dict(self._state.get_var_dict())
             return_dict["stdout"] = stdout
         return {key: return_dict[key] for key in return_dict.keys()}
 
@@ -91,7 +91,7 @@ class PythonDiceInterpreter(IPythonDiceInterpreter):
         for line in input_text:
             token, _ = self._parser.parse(line, state=self._state)
             stdout = token.get_probability_distribution()
-            return_dict = self._state.get_var_dict()
+            return_dict = dict(self._state.get_var_dict())
             return_dict["stdout"] = stdout
         return {key: value.average() for key, value in return_dict.items()}
 
-- 
2.43.0


From 0462a75595a5cf65e0428a046fd20ed20ecadc38 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 01:13:29 +0000
Subject: [PATCH 07/10] fix: close the figure a chart was drawn on

---
 .../probability_distribution.py                        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python_dice/src/probability_distribution/probability_distribution.py b/python_dice/src/probability_distribution/probability_distribution.py
index 9f0e577..9b34b88 100644
--- a/python_dice/src/probability_distribution/probability_distribution.py
+++ b/python_dice/src/probability_distribution/probability_distribution.py
@@ -136,7 +136,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
         bins = [value - 0.5 for value in x_values]
         bins.append(x_values[-1] + 0.5)
 
-        _, axis = pyplot.subplots()
+        figure, axis = pyplot.subplots()
         axis.hist(x_values, weights=y_values, bins=bins)
         axis.grid(True, linestyle="-.")
         axis.set_ylabel("odds")
@@ -151,7 +151,8 @@ class ProbabilityDistribution(IProbabilityDistribution):
                 label=f"Average = {average}",
             )
         buffer = io.BytesIO()
-        pyplot.savefig(buffer, format="tiff")
+        figure.savefig(buffer, format="tiff")
+        pyplot.close(figure)
         buffer.seek(0)
         image = Image.open(buffer)
         return image
@@ -167,7 +168,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
     ) -> Image:
         x_values_one, y_values_one = (list(t) for t in zip(*sorted(zip(x_values_one, y_values_one))))
         x_values_two, y_values_two = (list(t) for t in zip(*sorted(zip(x_values_two, y_values_two))))
-        _, axis = pyplot.subplots()
+        figure, axis = pyplot.subplots()
         axis.plot(x_values_one, y_values_one, "b", label=lable_one)
         axis.plot(x_values_two, y_values_two, "r", label=lable_two)
         axis.grid(True, linestyle="-.")
@@ -175,7 +176,8 @@ class ProbabilityDistribution(IProbabilityDistribution):
         axis.set_xlabel("outcome")
         axis.legend()
         buffer = io.BytesIO()
-        pyplot.savefig(buffer, format="png")
+        figure.savefig(buffer, format="png")
+        pyplot.close(figure)
         buffer.seek(0)
         image = Image.open(buffer)
         return image
-- 
2.43.0


From 468408b3d71776626bd4a61c1c11e700b2ecd15c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 01:13:29 +0000
Subject: [PATCH 08/10] fix: contains_zero looks at the count of zero

---
 .../src/probability_distribution/probability_distribution.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/probability_distribution/probability_distribution.py b/python_dice/src/probability_distribution/probability_distribution.py
index 9b34b88..dbdc77e 100644
--- a/python_dice/src/probability_distribution/probability_distribution.py
+++ b/python_dice/src/probability_distribution/probability_distribution.py
@@ -190,7 +190,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
 
     def contains_zero(self) -> bool:
         result_map = self.get_result_map()
-        return 0 in result_map and result_map != 0
+        return 0 in result_map and result_map[0] != 0
 
     def average(self) -> float:
         total_values = 0
-- 
2.43.0


From fe9d94c03ded82dafcd3dd588b4f89d17d6811ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:31 +0000
Subject: [PATCH 09/10] fix: equality and hash of constraints do not depend on
 set iteration order

---
 python_dice/src/constraint/constraint_set.py       | 4 +++-
 python_dice/src/constraint/var_value_constraint.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/python_dice/src/constraint/constraint_set.py b/python_dice/src/constraint/constraint_set.py
index 405618c..5fdf712 100644
--- a/python_dice/src/constraint/constraint_set.py
+++ b/python_dice/src/constraint/constraint_set.py
@@ -42,7 +42,9 @@ class ConstraintSet(IConstraintSet):
         return ConstraintSet(new_set, self._constraint_merger)
 
     def __eq__(self, other: object) -> bool:
-        return str(self) == str(other)
+        if not isinstance(other, IConstraintSet):
+            return False
+        return self._constraints_set == other.constraints
 
     def __ne__(self, other: object) -> bool:
         return not self == other
diff --git a/python_dice/src/constraint/var_value_constraint.py b/python_dice/src/constraint/var_value_constraint.py
index 4f94b2f..11c5846 100644
--- a/python_dice/src/constraint/var_value_constraint.py
+++ b/python_dice/src/constraint/var_value_constraint.py
@@ -47,10 +47,12 @@ class VarValueConstraint(IVarValueConstraint):
         raise ValueError(f"can not merge {str(other)} with {self.__str__()} however can_merge returned true")
 
     def __hash__(self) -> int:
-        return hash(self.__str__())
+        return hash((VarValueConstraint.__name__, self._name, frozenset(self._values)))
 
     def __eq__(self, other: object) -> bool:
-        return str(self) == str(other)
+        if not isinstance(other, IVarValueConstraint):
+            return False
+        return self._name == other.name and self._values == other.values
 
     def __ne__(self, other: object) -> bool:
         return not self.__eq__(other)
-- 
2.43.0


From 1dddb285c8f1b8147dbed2353f8d524195d92d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:08 +0000
Subject: [PATCH 10/10] fix: compare histogram stretched the bar next to a gap
 between the two distributions

---
 .../src/probability_distribution/probability_distribution.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python_dice/src/probability_distribution/probability_distribution.py b/python_dice/src/probability_distribution/probability_distribution.py
index dbdc77e..7e47683 100644
--- a/python_dice/src/probability_distribution/probability_distribution.py
+++ b/python_dice/src/probability_distribution/probability_distribution.py
@@ -55,6 +55,7 @@ class ProbabilityDistribution(IProbabilityDistribution):
         other_histogram_data = self._get_histogram_form(other_probability.get_dict_form())
         x_values = list(this_histogram_data.keys())
         x_values.extend(other_histogram_data.keys())
+        x_values.extend(set(range(min(x_values), max(x_values))).difference(x_values))
 
         def y_value_calculator(key):
             value = 0
-- 
2.43.0

