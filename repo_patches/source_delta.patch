From e0ae2d0a4e192c4f623b64a50eec7ea834492005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 01/38] fix: restore the caller's variables after any failure
 inside an inline function

A body that failed with an exception other than ExecuteException (an empty
body, for instance) left PARAM1, PARAM2, ... and its assignments behind.
---
 modularcalculator/features/structure/inlinefunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 97ffdeb..02c948c 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -167,6 +167,6 @@ class InlineFunctionsPointerHandler:
             res = OperationResult(val.value)
             res.set_unit(val.unit)
             return res
-        except ExecuteException as err:
+        except Exception as err:
             calculator.vars = backup_vars
             raise err
-- 
2.43.0


From 34816a9be322511119be1ee692448514c266da87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 02/38] fix: merge only units of the same dimension when
 simplifying

dedupe() replaced duplicates of any dimension by the first unit of the whole
list and used list positions that the replacement itself had shifted, so
(5 kg m ft) * 2 s came out as a quantity of another dimension.
---
 modularcalculator/services/unitnormaliser.py | 48 +++++++++-----------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 900b90a..a6f0369 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -264,34 +264,30 @@ class UnitNormaliser:
     # Check if any remaining subunits are the same dimension
     def dedupe(self, value, unit):
         if len(unit.list()) > 1:
-            # Get list of dimensions and index of subunits
+            # Get list of subunits for each dimension
             dimensions = {}
-            for di in [(u.unit.dimension, i) for i, u in enumerate(unit.list())]:
-                if di[0] not in dimensions:
-                    dimensions[di[0]] = []
-                dimensions[di[0]].append(di[1])
-
-            for dimension in dimensions:
-                units_i = dimensions[dimension]
-                if len(units_i) > 1:
+            for unitpower in unit.list():
+                dimension = unitpower.unit.dimension
+                if dimension not in dimensions:
+                    dimensions[dimension] = []
+                dimensions[dimension].append((unitpower.unit, unitpower.power))
+
+            for unitpowers in dimensions.values():
+                if len(unitpowers) > 1:
                     # Need to de-dupe
-                    power = Number(0)
-                    for i in units_i:
-                        power += unit.list()[i].power
-                    if power.to_decimal() != 0:
-                        # Multiple units for the same dimension, choose one and replace the others
-                        replace_all_with_unit = unit.list()[0].unit
-                        for i in units_i:
-                            if unit.list()[i].unit != replace_all_with_unit:
-                                power = unit.list()[i].power
-                                value = unit.removeandconvert(value, unit.list()[i].unit, power, False)
-                                value = unit.addandconvert(value, replace_all_with_unit, power, False)
-                    else:
-                        # Units cancel out
-                        units_to_remove = [unit.list()[i] for i in units_i]
-                        for unit_to_remove in units_to_remove:
-                            value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, False)
-
+                    total = Number(0)
+                    for subunit, power in unitpowers:
+                        total += power
+                    # If the units cancel out, remove all of them, otherwise
+                    # keep the first one and replace the others with it
+                    keep = None
+                    if total.to_decimal() != 0:
+                        keep = unitpowers[0][0]
+                    for subunit, power in unitpowers:
+                        if subunit != keep:
+                            value = unit.removeandconvert(value, subunit, power, False)
+                            if keep is not None:
+                                value = unit.addandconvert(value, keep, power, False)
 
         return value, unit
 
-- 
2.43.0


From 30abc26b632bde9af349ae815a219137109782be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 03/38] fix: remove only the leading prefix of a based number

In base 36 the digits of a number can spell the prefix itself, so 36z136z1
was read as if the inner 36z were not there.
---
 modularcalculator/features/numerical/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 421005d..34ab0da 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -30,7 +30,7 @@ class BasesFeature(Feature):
     digits = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
     def number_remove_prefix(self, val, prefix):
-        return val.lower().replace(prefix, '')
+        return val.lower().replace(prefix, '', 1)
 
     def number_add_prefix(self, val, prefix):
         if val[0] == '-':
-- 
2.43.0


From 80c62337a1b440c9b0056fa7d6ad89f03be39b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 04/38] fix: print numbers written in base 10 with the
 arbitrary base notation

dec_to_base() printed a base-10 number through its own notation, which
called dec_to_base() again until the recursion limit: 10z12 could be
evaluated but never shown.
---
 modularcalculator/features/numerical/bases.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 34ab0da..25a3b28 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -101,6 +101,8 @@ class BasesFeature(Feature):
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
         if base == 10:
+            val = val.copy()
+            val.number_cast = None
             return val.to_string(self)
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
-- 
2.43.0


From 2aef4759d4d6d14a1270af66f1c607cdfe742e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 05/38] fix: do not mistake one unfinished statement for
 another one

The memory of the last statement found to be unfinished at a line break was
its items' text run together, so after 'x and' a line break, a complete
statement 'xand' was taken for unfinished too.
---
 modularcalculator/features/structure/terminator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/terminator.py b/modularcalculator/features/structure/terminator.py
index 8e72159..5b76720 100755
--- a/modularcalculator/features/structure/terminator.py
+++ b/modularcalculator/features/structure/terminator.py
@@ -43,7 +43,7 @@ class TerminatorFeature(Feature):
         symbol = self.feature_options['structure.terminator']['Symbol']
         if next[0:len(symbol)] == symbol:
             func_items = functional_items(items)
-            func_item_text = items_text(func_items)
+            func_item_text = [(item.text, item.isop()) for item in func_items]
             if func_item_text == self.last_failed_terminator:
                 return None, None, None
 
-- 
2.43.0


From 3e391fab1b1cc71a4bd71fce4e4d0dd487afb5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 06/38] fix: print numbers with many digits, and print no
 negative zero

Rounding to the printing precision raised decimal.InvalidOperation once a
number had more than about 70 digits before the point, out of calculate()
itself when the number appeared in an error message; and a negative number
that rounds to zero was printed as -0.
---
 modularcalculator/objects/number.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 301bf97..04fb3f7 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -67,10 +67,12 @@ class Number:
                 self,
                 *(self.number_cast['args'] if 'args' in self.number_cast else []))
         dec_num = self.to_decimal()
+        if dec_num.as_tuple().exponent < -NUMBER['decimal_places']:
+            dec_num = round(dec_num, NUMBER['decimal_places'])
         if dec_num == 0:
             # This is to avoid getting '-0'
             dec_num = 0
-        val = "{0:f}".format(round(dec_num, NUMBER['decimal_places']))
+        val = "{0:f}".format(dec_num)
         if val.find('.') > -1:
             val = val.rstrip('0')
             if val[-1] == '.':
-- 
2.43.0


From 09755406d508064ed3c5b825e23972f4212a1567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 07/38] fix: choose a simplified unit for quantities too small
 for a float

The closeness of a candidate unit was measured on a float, which is 0 for a
value like 1E-400 kg m/s^2, and the logarithm's ValueError left calculate().
---
 modularcalculator/services/unitnormaliser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index a6f0369..1d418fd 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -4,8 +4,6 @@ from modularcalculator.engine import *
 from modularcalculator.objects.number import *
 from modularcalculator.objects.units import *
 
-import math
-
 
 class UnitNormaliser:
 
@@ -292,7 +290,7 @@ class UnitNormaliser:
         return value, unit
 
     def get_closeness(self, num):
-        closeness = abs(math.log10(abs(float(num))) - self.simplify_preferred_magnitude)
+        closeness = abs(float(abs(num.to_decimal()).log10()) - self.simplify_preferred_magnitude)
         if num < self.simplify_penalise_below:
             closeness *= self.simplify_penalty
         return closeness
-- 
2.43.0


From 1a514bbf4fb0eb259190e97b663fddd1db44c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 08/38] fix: accept numbers wherever the string functions take
 a string

lstrip's characters, join's delimiter and the string that substr counts a
negative end from were not converted to text like all the other string
arguments, and an end before the string's first character was counted from
its end a second time (substr('abc', 0, -5) gave 'ab').
---
 modularcalculator/features/strings/stringarrayfunctions.py | 2 +-
 modularcalculator/features/strings/stringfunctions.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/strings/stringarrayfunctions.py b/modularcalculator/features/strings/stringarrayfunctions.py
index 08d4a07..57d5230 100755
--- a/modularcalculator/features/strings/stringarrayfunctions.py
+++ b/modularcalculator/features/strings/stringarrayfunctions.py
@@ -57,6 +57,6 @@ class StringArrayFunctionsFeature(Feature):
     def func_join(self, vals, units, refs, flags):
         delimiter = ''
         if len(vals) > 1:
-            delimiter = vals[1]
+            delimiter = StringsFeature.string(self, vals[1])
         values = [StringsFeature.string(self, v.value) for v in vals[0]]
         return OperationResult(delimiter.join(values))
diff --git a/modularcalculator/features/strings/stringfunctions.py b/modularcalculator/features/strings/stringfunctions.py
index 81465c8..14d7fbf 100755
--- a/modularcalculator/features/strings/stringfunctions.py
+++ b/modularcalculator/features/strings/stringfunctions.py
@@ -128,7 +128,7 @@ class StringFunctionsFeature(Feature):
         return OperationResult(StringsFeature.string(self, vals[0]).upper())
 
     def func_lstrip(self, vals, units, refs, flags):
-        return OperationResult(StringsFeature.string(self, vals[0]).lstrip(vals[1]))
+        return OperationResult(StringsFeature.string(self, vals[0]).lstrip(StringsFeature.string(self, vals[1])))
 
     def func_rstrip(self, vals, units, refs, flags):
         return OperationResult(StringsFeature.string(self, vals[0]).rstrip(StringsFeature.string(self, vals[1])))
@@ -149,7 +149,7 @@ class StringFunctionsFeature(Feature):
         elif len(vals) == 3:
             end = int(vals[2]) + 1
             if end <= 0:
-                end += len(vals[0])
+                end = max(end + len(StringsFeature.string(self, vals[0])), 0)
             return OperationResult(StringsFeature.string(self, vals[0])[start:end])
         else:
             raise CalculatorException("substr needs either 2 or 3 arguments, found {0}".format(len(vals)))
-- 
2.43.0


From 94595f922b12cb05b843f19db7a45a78b2aebae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 09/38] fix: report an exponent out of range as a parsing error

A literal such as 1e1000000 raised decimal.Overflow out of calculate().
---
 modularcalculator/features/numerical/expnumbers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/expnumbers.py b/modularcalculator/features/numerical/expnumbers.py
index 9263ba6..6dd31f1 100755
--- a/modularcalculator/features/numerical/expnumbers.py
+++ b/modularcalculator/features/numerical/expnumbers.py
@@ -62,7 +62,10 @@ class ExpNumbersFeature(Feature):
             numexp_match = numexp_regex.match(next)
             if (numexp_match):
                 numexp = numexp_match.group(1)
-                decnum = ExpNumericalRepresentation.parse(self, numexp)
+                try:
+                    decnum = ExpNumericalRepresentation.parse(self, numexp)
+                except ArithmeticError:
+                    raise ParseException("Exponent out of range: {}".format(numexp), [], next)
                 return [LiteralItem(numexp, decnum)], len(numexp), None
         return None, None, None
 
-- 
2.43.0


From fd1ff63bc7a480cffc50d989a116fbbae2e34715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 10/38] fix: convert the bounds and step of a range before
 comparing them

The default step was chosen from the bare numbers, so [500 m..3 km] stepped
away from its end; a bound or step of another dimension was taken as it
stood ([1 m..3 s]); and a boolean or numerical string as bound or step, which
the type check accepts, raised AttributeError or TypeError out of
calculate().
---
 modularcalculator/features/arrays/arrays.py | 23 ++++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index e3ba9b4..9cc197b 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -218,19 +218,19 @@ class ArrayElement():
 
         end_element_result = None
         if self.end_element is not None:
+            element_result.value = calculator.number(element_result.value)
             state['items'] += 1
             end_element_result = calculator.execute(self.end_element, flags)
             if isinstance(end_element_result.value, ExecuteException):
                 raise end_element_result.value
             if not calculator.validate_number(end_element_result.value):
                 raise ExecuteException("Arrays with range must be numerical", [], None)
+            end_element_result.value = calculator.number(end_element_result.value)
             state['items'] += len(self.end_element)
         else:
             return [element_result]
 
-        step_result = OperandResult(Number(1), element_result.unit, None)
-        if end_element_result is not None and end_element_result.value < element_result.value:
-            step_result = OperandResult(Number(-1), element_result.unit, None)
+        step_result = None
         if self.step is not None:
             state['items'] += 1
             step_result = calculator.execute(self.step, flags)
@@ -238,17 +238,24 @@ class ArrayElement():
                 raise step_result.value
             if not calculator.validate_number(step_result.value):
                 raise ExecuteException("Arrays with range must be numerical", [], None)
+            step_result.value = calculator.number(step_result.value)
             state['items'] += len(self.step)
 
-        if element_result.unit is not None or end_element_result.unit is not None or step_result.unit is not None:
+        right_elements = [end_element_result]
+        if step_result is not None:
+            right_elements.append(step_result)
+        if len([e for e in [element_result] + right_elements if e.unit is not None]) > 0:
             if element_result.unit is None:
                 raise ExecuteException("Arrays with range must have a consistent unit for the start, end and step components", [], None)
-            for right_element in (end_element_result, step_result):
+            for right_element in right_elements:
                 if right_element.unit is None:
                     raise ExecuteException("Arrays with range must have a consistent unit for the start, end and step components", [], None)
-                values, units, resultunit = calculator.unit_normaliser.normalise_inputs([element_result.value, right_element.value], [element_result.unit, right_element.unit], True, False)
-                right_element.value = values[1]
-                right_element.unit = units[1]
+                relative = right_element is step_result
+                right_element.value, right_element.unit = calculator.unit_normaliser.unit_conversion(right_element.value, right_element.unit, element_result.unit, relative)
+
+        if step_result is None:
+            step = Number(-1) if end_element_result.value < element_result.value else Number(1)
+            step_result = OperandResult(step, element_result.unit, None)
 
         if ((end_element_result.value - element_result.value) * step_result.value).to_decimal() < 0:
             raise ExecuteException("Can't get from {0} to {1} with step {2}".format(element_result.value, end_element_result.value, step_result.value), [], None)
-- 
2.43.0


From ac724bb5d254cf887532e0c503337054ce294836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 11/38] fix: report the right position after an empty function
 argument

Empty arguments are skipped, but their commas were not counted when locating
an error in a later argument, and an argument of blanks only was an error
while an empty one was not: now( ) failed where now() works.
---
 .../features/structure/functionpointers.py           | 12 +++++-------
 modularcalculator/features/structure/functions.py    | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/modularcalculator/features/structure/functionpointers.py b/modularcalculator/features/structure/functionpointers.py
index c282a5f..381b88c 100644
--- a/modularcalculator/features/structure/functionpointers.py
+++ b/modularcalculator/features/structure/functionpointers.py
@@ -58,9 +58,9 @@ class FunctionPointersFeature(Feature):
                     inner_items, length, return_flags = self.parse(next[i:], {'func': func_pointer_name, 'ignore_terminators': True})
                     inner_items = inner_items[0]
                     i += length + 1
-                    if len(inner_items) > 0:
+                    func_items.extend(inner_items)
+                    if len(functional_items(inner_items)) > 0:
                         args.append(inner_items)
-                        func_items.extend(inner_items)
                     if 'end_func' in return_flags:
                         func_items.append(FunctionEndItem())
                     else:
@@ -97,12 +97,11 @@ class FunctionPointerItem(RecursiveOperandItem):
 
         # Execute the items for each argument, put the results in a list of inputs
         inputs = []
-        itemsi = 2
-        for i, arg in enumerate(self.args):
-            old_itemsi = itemsi
+        for arg in self.args:
+            # Find where this argument starts, there could be empty arguments before it
+            itemsi = [item is arg[0] for item in self.items].index(True)
             try:
                 argresult = self.calculator.execute(arg, flags)
-                itemsi += len(arg) + 1
                 inputs.append(argresult)
             except ExecuteException as err:
                 self.items = self.items[0:itemsi]
@@ -113,7 +112,6 @@ class FunctionPointerItem(RecursiveOperandItem):
                 raise ExecuteException(err.message, [self], err.next, True)
             if isinstance(argresult.value, Exception):
                 err = argresult.value
-                itemsi = old_itemsi
                 self.items = self.items[0:itemsi]
                 self.items.extend(err.items)
                 err.items = self.items
diff --git a/modularcalculator/features/structure/functions.py b/modularcalculator/features/structure/functions.py
index 4b95711..a86a811 100755
--- a/modularcalculator/features/structure/functions.py
+++ b/modularcalculator/features/structure/functions.py
@@ -50,9 +50,9 @@ class FunctionsFeature(Feature):
                         inner_items, length, return_flags = self.parse(next[i:], {'func': func, 'ignore_terminators': True})
                         inner_items = inner_items[0]
                         i += length + 1
-                        if len(inner_items) > 0:
+                        func_items.extend(inner_items)
+                        if len(functional_items(inner_items)) > 0:
                             args.append(inner_items)
-                            func_items.extend(inner_items)
                         if 'end_func' in return_flags:
                             func_items.append(FunctionEndItem())
                         else:
@@ -104,12 +104,11 @@ class FunctionItem(RecursiveOperandItem):
     def value(self, flags):
         func = self.calculator.funcs[self.name]
         inputs = []
-        itemsi = 2
-        for i, arg in enumerate(self.args):
-            old_itemsi = itemsi
+        for arg in self.args:
+            # Find where this argument starts, there could be empty arguments before it
+            itemsi = [item is arg[0] for item in self.items].index(True)
             try:
                 argresult = self.calculator.execute(arg, flags)
-                itemsi += len(arg) + 1
                 inputs.append(argresult)
             except ExecuteException as err:
                 self.items = self.items[0:itemsi]
@@ -120,7 +119,6 @@ class FunctionItem(RecursiveOperandItem):
                 raise ExecuteException(err.message, [self], err.next, True)
             if not func.inputs_can_be_exceptions and isinstance(argresult.value, Exception):
                 err = argresult.value
-                itemsi = old_itemsi
                 self.items = self.items[0:itemsi]
                 self.items.extend(err.items)
                 err.items = self.items
-- 
2.43.0


From d7ee47c0423898882c3176d00eb89918a5e8a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 12/38] fix: check declared unit dimensions in any order and by
 derived name

The dimensions of a unit were compared as ordered lists, so an external
function declared '#INPUT number:time^-1,distance' rejected 3 m/s, and a
derived dimension (number:velocity) could never match.
---
 modularcalculator/services/unitnormaliser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 1d418fd..074b63b 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -395,6 +395,7 @@ class UnitNormaliser:
         return [(d.dimension, d.power) for d in dimensionlist]
 
     def check_unit_dimensions(self, unit, relationship):
-        unit_relationship = self.unit_to_relationship(unit)
-        expected_relationship = self.standardise_relationship(relationship.copy())
-        return unit_relationship == expected_relationship
+        if unit is None:
+            return False
+        expected_dimensions = DimensionPowerList([DimensionPower(d.dimension, d.power * r.power) for r in self.relationship_to_dimensions(relationship) for d in self.normalised_dimension(r.dimension)]).deduplicate()
+        return self.unit_normalised_dimensionlist(unit) == expected_dimensions
-- 
2.43.0


From 46e5914416c526c7bdacaf9f45ebed8b2faed332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 13/38] fix: report a malformed input line of an external
 function as an error

A declaration like '#INPUT number:time^x' raised ValueError out of
calculate().
---
 .../features/structure/externalfunctions.py   | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/modularcalculator/features/structure/externalfunctions.py b/modularcalculator/features/structure/externalfunctions.py
index c646dbe..8f5d352 100755
--- a/modularcalculator/features/structure/externalfunctions.py
+++ b/modularcalculator/features/structure/externalfunctions.py
@@ -75,23 +75,24 @@ class ExternalFunctionsPointerHandler:
                 units = None
                 power = None
 
-                # If type has a colon, first part is value type, second is unit dimensions
-                if ':' in value:
-                    value, units_string = value.split(':')
-
-                    # Multiple unit[^power] dimensions can be provided for an input, comma separated
-                    units = []
-                    for unit in units_string.split(','):
-                        # If unit dimension has a power, parse it, otherwise power defaults to 1
-                        if unit is not None and '^' in unit:
-                            unit_unit, unit_power = unit.split('^')
-                            units.append(unit_unit)
-                            units.append(int(unit_power))
-                        else:
-                            units.append(unit)
-                            units.append(1)
-                else:
-                    value, units = value, None
+                try:
+                    # If type has a colon, first part is value type, second is unit dimensions
+                    if ':' in value:
+                        value, units_string = value.split(':')
+
+                        # Multiple unit[^power] dimensions can be provided for an input, comma separated
+                        units = []
+                        for unit in units_string.split(','):
+                            # If unit dimension has a power, parse it, otherwise power defaults to 1
+                            if unit is not None and '^' in unit:
+                                unit_unit, unit_power = unit.split('^')
+                                units.append(unit_unit)
+                                units.append(int(unit_power))
+                            else:
+                                units.append(unit)
+                                units.append(1)
+                except ValueError:
+                    raise ExecuteException("Invalid declaration of input {} in file '{}'".format(i + 1, path), [], None)
 
                 # Apply value and unit restrictions to the function definition
                 func.add_value_restriction(i, i, [value])
-- 
2.43.0


From 2a2de1622682c3be339f75c5ded131bc69a81954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 14/38] fix: simplify the unit of a zero quantity to a compound
 unit

A compound candidate unit (meters/second) has no scale of its own, so
(0 nautical miles) * (1 W) / (1 N) raised AttributeError out of calculate().
---
 modularcalculator/services/unitnormaliser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 074b63b..f304978 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -233,7 +233,7 @@ class UnitNormaliser:
                                 else:
                                     if value.to_decimal() == 0:
                                         # Value is 0, so just get the simplest unit possible
-                                        if closest_unit is None or abs(replace_unit.unitscale.log(10)) < abs(closest_unit.unitscale.log(10)):
+                                        if closest_unit is None or abs(replace_unit.convertfrom(Number(1), True).log(10)) < abs(closest_unit.convertfrom(Number(1), True).log(10)):
                                             closest_unit = replace_unit
                                             closest_value = value
                                     else:
-- 
2.43.0


From 5daf5495d3c2ce4313afd9a11b4179972450e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 15/38] fix: add time periods to dates exactly

The number of seconds went through a float, on adding as well as in
datedifference, so microseconds were lost over a few centuries.
---
 modularcalculator/features/dates/datefunctions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/dates/datefunctions.py b/modularcalculator/features/dates/datefunctions.py
index dba4109..85d379c 100755
--- a/modularcalculator/features/dates/datefunctions.py
+++ b/modularcalculator/features/dates/datefunctions.py
@@ -132,7 +132,7 @@ class DateFunctionsFeature(Feature):
         num, fromunit = vals[1], units[1]
         tounit = self.unit_normaliser.get_unit('seconds')
         seconds, tounit = self.unit_normaliser.unit_conversion(num, fromunit, tounit, False)
-        td = timedelta(seconds=float(seconds))
+        td = timedelta(microseconds=int(round(seconds * Number(1000000))))
 
         dt += td
 
@@ -150,8 +150,7 @@ class DateFunctionsFeature(Feature):
             raise CalculatorException("Cannot compare dates with timezones and dates without timezones")
         td = abs(date1 - date2)
 
-        seconds = Number(str(td.total_seconds()))
-        seconds = round(seconds, min(6, getcontext().prec))
+        seconds = Number(td // timedelta(microseconds=1)) / Number(1000000)
         fromunit = UnitPowerList.new([self.unit_normaliser.get_unit('seconds'), Number(1)])
         tounit = UnitPowerList.new([self.unit_normaliser.get_unit('seconds'), Number(1)])
         value = seconds
-- 
2.43.0


From adc36d720e1b57cf6937d05bafe3b5fd77f7757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 16/38] fix: complement large integers within their bit length

The bit length was taken from a floating-point logarithm, so ~(2^51-1)
set a 52nd bit; and ~0 had no logarithm at all.
---
 modularcalculator/features/numerical/bitwiseoperators.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index fac5101..dbc1f9c 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -7,8 +7,6 @@ from modularcalculator.features.feature import Feature
 from modularcalculator.features.numerical.bases import BasesFeature
 from modularcalculator.features.numerical.binarynumbers import BinaryNumbersFeature
 
-import math
-
 
 class BitwiseOperatorsFeature(Feature):
 
@@ -110,7 +108,7 @@ class BitwiseOperatorsFeature(Feature):
         if hasattr(dec_num, 'binary_number_width'):
             mask_val = 2**dec_num.binary_number_width - 1
         else:
-            mask_val = 2**math.ceil(math.log(int_val, 2)) - 1
+            mask_val = 2**int_val.bit_length() - 1
         flipped_val = ~int_val
         masked_flipped_val = Number(flipped_val & mask_val, number_cast=vals[0].number_cast)
 
-- 
2.43.0


From 3c08b37736bc4803d2fa77c7beddb6bee91cb883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 17/38] fix: complement numbers given as strings or booleans

~'5' passed the type check like every other numerical operator's operand and
then failed on the unconverted string.
---
 modularcalculator/features/numerical/bitwiseoperators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index dbc1f9c..de0d978 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -110,7 +110,7 @@ class BitwiseOperatorsFeature(Feature):
         else:
             mask_val = 2**int_val.bit_length() - 1
         flipped_val = ~int_val
-        masked_flipped_val = Number(flipped_val & mask_val, number_cast=vals[0].number_cast)
+        masked_flipped_val = Number(flipped_val & mask_val, number_cast=dec_num.number_cast)
 
         masked_flipped_val.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, [dec_num, masked_flipped_val])
 
-- 
2.43.0


From f789420d2aad45c5ea343f2acdc50f1befdc5851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 18/38] fix: finalizing an array answer leaves the stored array
 alone

---
 modularcalculator/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 9394240..8414676 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -326,8 +326,8 @@ class Engine:
             return None
         if type(answer.value) == list:
             # If answer is an array, apply finalization to each element
-            for i, ans in enumerate(answer.value):
-                answer.value[i] = self.finalize(ans)
+            # The array may also be stored in a variable, so leave it and its elements as they are
+            answer.value = [self.finalize(OperandResult(ans.value, ans.unit, ans.ref)) for ans in answer.value]
         else:
             if self.unit_normaliser is not None and self.unit_simplification and answer.unit is not None and not answer.unit.no_simplify:
                 # Simplify the answer's unit
-- 
2.43.0


From cc1cbfdc53f56fa9a62c6760c87827b466d63d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 19/38] fix: a unit symbol starting with a constant's name is
 not that constant

---
 modularcalculator/features/state/constants.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/state/constants.py b/modularcalculator/features/state/constants.py
index f9e2061..e9390bd 100755
--- a/modularcalculator/features/state/constants.py
+++ b/modularcalculator/features/state/constants.py
@@ -37,7 +37,9 @@ class ConstantsFeature(Feature):
         constant_match = ConstantsFeature.constant_regex.match(next)
         if (constant_match):
             constant = constant_match.group(1)
-            if constant in self.constants.keys():
+            next_char = next[len(constant):len(constant) + 1]
+            # A letter outside the constant's alphabet means this is the start of a longer name, such as a unit's symbol
+            if constant in self.constants.keys() and not next_char.isalpha():
                 return [ConstantItem(constant, self.constants[constant])], len(constant), None
         return None, None, None
 
-- 
2.43.0


From b292b6cb18479dcae32536661a6a85f8f2300c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 20/38] fix: a function returning an array's element leaves the
 element's notation alone

---
 modularcalculator/objects/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/objects/operators.py b/modularcalculator/objects/operators.py
index 9f315d8..0dd31bc 100755
--- a/modularcalculator/objects/operators.py
+++ b/modularcalculator/objects/operators.py
@@ -4,6 +4,7 @@ from modularcalculator.objects.items import *
 from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.number import *
 
+from copy import copy
 import re
 
 
@@ -211,6 +212,8 @@ class Operation:
 
                 # Convert the number type of the result
                 if self.auto_convert_numerical_result and isinstance(result_value, Number) and number_cast:
+                    # The result may be a value stored in a variable, so leave the original as it is
+                    result_value = copy(result_value)
                     result_value.number_cast = number_cast
 
                 # If result is an array, restore each element back to its original value and unit
-- 
2.43.0


From d5845cefec7e2e327160d39b11ffc3851353d36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 21/38] fix: a US dram is an eighth of a US fluid ounce

---
 modularcalculator/features/unitdefinitions/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/unitdefinitions/volume.py b/modularcalculator/features/unitdefinitions/volume.py
index bf2276a..c44beb4 100755
--- a/modularcalculator/features/unitdefinitions/volume.py
+++ b/modularcalculator/features/unitdefinitions/volume.py
@@ -87,7 +87,7 @@ class UnitDefinitionUKGallon(UnitDefinition):
 class UnitDefinitionUSDram(UnitDefinition):
 
     namelist = ['US drams','US dram']
-    unitscale = Number('0.00000184834559765625')
+    unitscale = Number('0.0000036966911953125')
     systems = ['us']
 
 class UnitDefinitionUSFluidOunce(UnitDefinition):
-- 
2.43.0


From 93e49d01f387e4dd1a57e3c4fd17231907290d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 22/38] fix: an acre is exactly 43560 square feet

---
 modularcalculator/features/unitdefinitions/area.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/unitdefinitions/area.py b/modularcalculator/features/unitdefinitions/area.py
index 068dff0..4fa5697 100755
--- a/modularcalculator/features/unitdefinitions/area.py
+++ b/modularcalculator/features/unitdefinitions/area.py
@@ -30,7 +30,7 @@ class UnitDefinitionAcre(UnitDefinition):
 
     namelist = ['acres','acre']
     symbollist = ['ac']
-    unitscale = Number('4046.9')
+    unitscale = Number('4046.8564224')
     systems = ['us', 'uk']
     use_for_condense = False
 
-- 
2.43.0


From 7cccad57f358806d49de1c96d179c9dd8aba5f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:37 +0000
Subject: [PATCH 23/38] fix: assignment operators apply an array operand to the
 old value once

---
 .../features/state/assignmentoperators.py          | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 608f561..3c2f956 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -50,7 +50,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_add,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -59,7 +59,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_subtract,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -68,7 +68,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_multiply,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -77,7 +77,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_divide,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -86,7 +86,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_power,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -95,7 +95,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_modulus,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -104,7 +104,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_integer_divide,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
 
     def op_var_increment(self, vals, units, refs, flags):
-- 
2.43.0


From ddfd32c0bcfc0c94d8608464e2f56bf1ddeb8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:14 +0000
Subject: [PATCH 24/38] fix: base-10 numbers accept decimal digits only, bases
 outside 2 to 36 are never accepted

---
 modularcalculator/features/numerical/bases.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 25a3b28..240485c 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -61,14 +61,16 @@ class BasesFeature(Feature):
         return ''.join(split_num)
 
     def base_to_dec(self, val, base):
-        if val == '0':
-            return Number(0)
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
-        if base == 10:
-            return Number(val)
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
+        if val == '0':
+            return Number(0)
+        if base == 10:
+            if any(c.isalpha() for c in val):
+                raise CalculatorException("Illegal digit in: {0}".format(val))
+            return Number(val)
 
         negative = False
         if val[0] == '-':
-- 
2.43.0


From 77de91ebaeaabb547be53c3d6f554d2ccb8c5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 25/38] fix: a failing statement ends an inline function

---
 modularcalculator/features/structure/inlinefunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 02c948c..d3da7c3 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -152,13 +152,14 @@ class InlineFunctionsPointerHandler:
                 if item.desc() == 'terminator':
                     if len(functional_items(statement_items)) > 0:
                         val = calculator.execute(statement_items, flags.copy())
+                        if isinstance(val.value, Exception):
+                            raise val.value
                     statement_items = []
                 else:
                     statement_items.append(item)
             if len(functional_items(statement_items)) > 0:
                 val = calculator.execute(statement_items, flags.copy())
             if isinstance(val.value, Exception):
-                calculator.vars = backup_vars
                 raise val.value
 
             # Restore calculator state
-- 
2.43.0


From cce7212080ad67b612f855067e85647e6bd77c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 26/38] fix: an argument that is a failed element of an array
 is a calculator error

---
 modularcalculator/engine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 8414676..85c9297 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -242,7 +242,11 @@ class Engine:
                     return OperandResult(UnitPowerList(), None, None)
                 return OperandResult(None, None, None)
             try:
-                item = item.result(flags)
+                result = item.result(flags)
+                if isinstance(result.value, CalculatorException) and not isinstance(result.value, CalculateException):
+                    # The operand is an element of an array whose calculation failed, it fails here as well
+                    raise result.value
+                item = result
             except ExecuteException as err:
                 err.items = previous_items + err.items
                 return OperandResult(err, None, None)
-- 
2.43.0


From d8846efded304791ad6bf11dda6c64ffa373928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 27/38] fix: delete a variable holding an array

---
 modularcalculator/features/state/assignmentfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/state/assignmentfunctions.py b/modularcalculator/features/state/assignmentfunctions.py
index 212e740..88d77e3 100755
--- a/modularcalculator/features/state/assignmentfunctions.py
+++ b/modularcalculator/features/state/assignmentfunctions.py
@@ -42,7 +42,8 @@ class AssignmentFunctionsFeature(Feature):
             ['variable'],
             AssignmentFunctionsFeature.func_delete, 
             1, 
-            1)
+            1,
+            'variable')
 
     def func_reset(self, vals, units, refs, flags):
         self.vars = {}
-- 
2.43.0


From 7fe7bf35511ba327699965e693daaff00f006ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 28/38] fix: temperatures inside a compound unit convert as
 intervals

---
 modularcalculator/objects/units.py           |  2 ++
 modularcalculator/services/unitnormaliser.py | 12 ++++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/objects/units.py b/modularcalculator/objects/units.py
index c8ab9b2..b516553 100755
--- a/modularcalculator/objects/units.py
+++ b/modularcalculator/objects/units.py
@@ -353,6 +353,8 @@ class UnitPowerList(AbstractPowerList):
             return finalstrings
 
     def convert(self, num, power, relative):
+        # A unit is only an absolute reading on its own, as part of a compound unit it is an interval
+        relative = relative or len(self) != 1 or self.list()[0].power.to_decimal() != 1
         for unitpower in self.list():
             num = unitpower.unit.convert(num, unitpower.power * power, relative)
         return num
diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index f304978..f6cdc99 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -239,15 +239,15 @@ class UnitNormaliser:
                                     else:
                                         replace_value = value
                                         for unitpower in unitsfound:
-                                            replace_value = unitpower.unit.convert(replace_value, -(unitpower.power * multpower), False)
-                                        replace_value = replace_unit.convert(replace_value, (power * multpower), False)
+                                            replace_value = unitpower.unit.convert(replace_value, -(unitpower.power * multpower), True)
+                                        replace_value = replace_unit.convert(replace_value, (power * multpower), True)
                                         if closest_value is None or self.get_closeness(replace_value) < self.get_closeness(closest_value):
                                             closest_unit = replace_unit
                                             closest_value = replace_value
                             if closest_unit is not None:
                                 for subunit in unitsfound:
-                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, False)
-                                value = unit.addandconvert(value, closest_unit, power * multpower, False)
+                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, True)
+                                value = unit.addandconvert(value, closest_unit, power * multpower, True)
                                 found = True
                                 break
                     if found:
@@ -283,9 +283,9 @@ class UnitNormaliser:
                         keep = unitpowers[0][0]
                     for subunit, power in unitpowers:
                         if subunit != keep:
-                            value = unit.removeandconvert(value, subunit, power, False)
+                            value = unit.removeandconvert(value, subunit, power, True)
                             if keep is not None:
-                                value = unit.addandconvert(value, keep, power, False)
+                                value = unit.addandconvert(value, keep, power, True)
 
         return value, unit
 
-- 
2.43.0


From 3717560ca73f5cbb560bd4a3583953d99a6dcf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:04 +0000
Subject: [PATCH 29/38] fix: assignment operators return the value they store,
 in its own notation

---
 .../features/state/assignmentoperators.py          | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 3c2f956..87000ae 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -51,7 +51,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '-=',
@@ -60,7 +60,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '*=',
@@ -69,7 +69,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '/=',
@@ -78,7 +78,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '^=',
@@ -87,7 +87,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '%=',
@@ -96,7 +96,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             r'\=',
@@ -105,7 +105,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
 
     def op_var_increment(self, vals, units, refs, flags):
         return AssignmentOperatorsFeature.assignment_operator(self, '+', [vals[0], Number(1)], [units[0], None], [refs[0], None], flags)
-- 
2.43.0


From 70da8c282000477c02ce5ccd00e90888b617e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 30/38] fix: calling an unset function pointer reports the
 error where the call starts

---
 modularcalculator/features/structure/functionpointers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/structure/functionpointers.py b/modularcalculator/features/structure/functionpointers.py
index 381b88c..c67eda0 100644
--- a/modularcalculator/features/structure/functionpointers.py
+++ b/modularcalculator/features/structure/functionpointers.py
@@ -90,6 +90,8 @@ class FunctionPointerItem(RecursiveOperandItem):
 
     def value(self, flags):
         if self.name not in self.calculator.vars:
+            self.items = []
+            self.text = ''
             raise ExecuteException("Variable {} not found".format(self.name), [self], '', True)
 
         # Function pointer
-- 
2.43.0


From 899babe1dd4b43dbd28664953a6710de798b65ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:38 +0000
Subject: [PATCH 31/38] fix: only binary operands give a bitwise result its
 width

---
 .../features/numerical/bitwiseoperators.py    | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index de0d978..6fe20ab 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -5,7 +5,7 @@ from modularcalculator.objects.number import *
 from modularcalculator.objects.operators import OperationResult, OperatorDefinition
 from modularcalculator.features.feature import Feature
 from modularcalculator.features.numerical.bases import BasesFeature
-from modularcalculator.features.numerical.binarynumbers import BinaryNumbersFeature
+from modularcalculator.features.numerical.binarynumbers import BinaryNumbersFeature, BinaryNumericalRepresentation
 
 
 class BitwiseOperatorsFeature(Feature):
@@ -85,17 +85,17 @@ class BitwiseOperatorsFeature(Feature):
 
     def op_bitwise_and(self, vals, units, refs, flags):
         res = Number(int(vals[0]) & int(vals[1]))
-        res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals)
+        BitwiseOperatorsFeature.set_biggest_width(self, res, vals)
         return OperationResult(res)
 
     def op_bitwise_or(self, vals, units, refs, flags):
         res = Number(int(vals[0]) | int(vals[1]))
-        res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals)
+        BitwiseOperatorsFeature.set_biggest_width(self, res, vals)
         return OperationResult(res)
 
     def op_bitwise_xor(self, vals, units, refs, flags):
         res = Number(int(vals[0]) ^ int(vals[1]))
-        res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals)
+        BitwiseOperatorsFeature.set_biggest_width(self, res, vals)
         return OperationResult(res)
 
     def op_bitwise_not(self, vals, units, refs, flags):
@@ -112,7 +112,7 @@ class BitwiseOperatorsFeature(Feature):
         flipped_val = ~int_val
         masked_flipped_val = Number(flipped_val & mask_val, number_cast=dec_num.number_cast)
 
-        masked_flipped_val.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, [dec_num, masked_flipped_val])
+        BitwiseOperatorsFeature.set_biggest_width(self, masked_flipped_val, [dec_num, masked_flipped_val])
 
         return OperationResult(masked_flipped_val)
 
@@ -120,21 +120,24 @@ class BitwiseOperatorsFeature(Feature):
         if vals[1].to_decimal() < 0 or (vals[1] % Number(1)).to_decimal() != 0:
             raise CalculatorException('Shift amount requires positive integers')
         res = Number(int(vals[0]) << int(vals[1]))
-        res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals)
+        BitwiseOperatorsFeature.set_biggest_width(self, res, vals)
         return OperationResult(res)
 
     def op_bitwise_rshift(self, vals, units, refs, flags):
         if vals[1].to_decimal() < 0 or (vals[1] % Number(1)).to_decimal() != 0:
             raise CalculatorException('Shift amount requires positive integers')
         res = Number(int(vals[0]) >> int(vals[1]))
-        res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals)
+        BitwiseOperatorsFeature.set_biggest_width(self, res, vals)
         return OperationResult(res)
 
-    def get_biggest_width(self, vals):
-        width = 0
+    def set_biggest_width(self, res, vals):
+        # Only binary numbers have a binary width, the number of digits a
+        # number has in another base says nothing about its width
+        widths = []
         for val in vals:
             if hasattr(val, 'binary_number_width'):
-                width = max(width, val.binary_number_width)
-            else:
-                width = max(width, BasesFeature.get_number_width(self, val.to_string(self), BinaryNumbersFeature.bin_prefix))
-        return width
+                widths.append(val.binary_number_width)
+            elif val.number_cast is not None and val.number_cast['to_string'] == BinaryNumericalRepresentation.to_string:
+                widths.append(BasesFeature.get_number_width(self, val.to_string(self), BinaryNumbersFeature.bin_prefix))
+        if len(widths) > 0:
+            res.binary_number_width = max(widths)
-- 
2.43.0


From da99ab6645a6720431cbe401bfc1a6649abcfa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 32/38] fix: a request for an unknown feature is a calculator
 error and leaves nothing pending

---
 modularcalculator/modularcalculator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index a350181..97e2dcc 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -87,8 +87,13 @@ class ModularCalculator(NumericalEngine):
                     print("!!! Skipping {} as it is not found !!!".format(name))
             names = new_names
 
-        for name in names:
-            self.add_feature_to_be_installed(name)
+        previous = set(self.features_to_install)
+        try:
+            for name in names:
+                self.add_feature_to_be_installed(name)
+        except CalculatorException:
+            self.features_to_install = previous
+            raise
 
         if debug:
             print("Installing {0} features".format(len(names)))
@@ -120,6 +125,8 @@ class ModularCalculator(NumericalEngine):
     def add_feature_to_be_installed(self, name):
         if name in self.features_to_install:
             return
+        if name not in self.feature_list:
+            raise CalculatorException("Feature {0} not found".format(name))
         self.features_to_install.add(name)
         feature = self.feature_list[name]
         dependencies = feature.dependencies()
-- 
2.43.0


From 137c9d6ae17a925dd093cb58120125048460fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 33/38] fix: refused installations raise CalculatorException,
 which was never imported

---
 modularcalculator/modularcalculator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index 97e2dcc..2c229fa 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -1,6 +1,7 @@
 #!/usr/bin/python3
 
 from modularcalculator.objects import *
+from modularcalculator.objects.exceptions import CalculatorException
 from modularcalculator.numericalengine import NumericalEngine
 import modularcalculator.features.layout
 import modularcalculator.features.presets
-- 
2.43.0


From d8596b8f94f380e176d3b0afcaadbf3da532ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 34/38] fix: sub-features of a requested feature count as about
 to be installed

---
 modularcalculator/modularcalculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index 2c229fa..ee7874d 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -133,7 +133,7 @@ class ModularCalculator(NumericalEngine):
         dependencies = feature.dependencies()
         for dependency in dependencies:
             self.add_feature_to_be_installed(dependency)
-        if isinstance(feature, MetaFeature):
+        if issubclass(feature, MetaFeature):
             for subfeature in feature.subfeatures():
                 self.add_feature_to_be_installed(subfeature)
 
-- 
2.43.0


From 16be555eca063514b4048e72384510081574f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 35/38] fix: nested arrays and failed elements are not strings
 for join

---
 modularcalculator/features/strings/strings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/strings/strings.py b/modularcalculator/features/strings/strings.py
index c533a58..4198976 100755
--- a/modularcalculator/features/strings/strings.py
+++ b/modularcalculator/features/strings/strings.py
@@ -91,6 +91,8 @@ class StringsFeature(Feature):
         return str(val)
 
     def validate_string(self, value, unit, ref):
+        if isinstance(value, (list, Exception)):
+            return False
         try:
             if isinstance(value, Number):
                 value.to_string(self)
-- 
2.43.0


From 3a6befb0488156113b7a578991fc055e676061d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:34 +0000
Subject: [PATCH 36/38] fix: regexget with several groups and regexsplit with
 an unmatched group answer values

---
 modularcalculator/features/strings/regex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/strings/regex.py b/modularcalculator/features/strings/regex.py
index 0f98e16..cb2c2ff 100755
--- a/modularcalculator/features/strings/regex.py
+++ b/modularcalculator/features/strings/regex.py
@@ -98,6 +98,8 @@ class RegexFeature(Feature):
 
     def func_regexget(self, vals, units, refs, flags):
         found = re.findall(StringsFeature.string(self, vals[1]), StringsFeature.string(self, vals[0]))
+        # A pattern with several groups finds them all, as an array
+        found = [[OperandResult(g, None, None) for g in f] if isinstance(f, tuple) else f for f in found]
         if len(vals) == 3:
             group = int(vals[2]) - 1
             return OperationResult(found[int(group)])
@@ -106,7 +108,7 @@ class RegexFeature(Feature):
 
     def func_regexsplit(self, vals, units, refs, flags):
         found = re.split(StringsFeature.string(self, vals[1]), StringsFeature.string(self, vals[0]))
-        found = [OperandResult(f, None, None) for f in found]
+        found = [OperandResult(f if f is not None else '', None, None) for f in found]
         return OperationResult(found)
 
     def func_regexsub(self, vals, units, refs, flags):
-- 
2.43.0


From 1990e11e68d7475c44a5504930f58d024e318e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 37/38] fix: format converts what is left after its first part
 as a difference

---
 modularcalculator/features/units/unitfunctions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/units/unitfunctions.py b/modularcalculator/features/units/unitfunctions.py
index d221f93..1e29d9a 100755
--- a/modularcalculator/features/units/unitfunctions.py
+++ b/modularcalculator/features/units/unitfunctions.py
@@ -75,8 +75,9 @@ class GeneralUnitFunctionsFeature(Feature):
 
         parts = []
         for systemunit in nonprefixedsystemunits:
-            num = unit.convertfrom(num, False)
-            num = systemunit.convertto(num, False)
+            # What is left after the first part is a difference
+            num = unit.convertfrom(num, len(parts) > 0)
+            num = systemunit.convertto(num, len(parts) > 0)
             unit = systemunit
             last = (systemunit == nonprefixedsystemunits[-1])
             if num.to_decimal() >= 1 or last:
-- 
2.43.0


From 3344e8e4edd10a209bbf55c0fa89a362319857cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 38/38] fix: format of a zero quantity is not empty

---
 modularcalculator/features/units/unitfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/units/unitfunctions.py b/modularcalculator/features/units/unitfunctions.py
index 1e29d9a..9ff80f4 100755
--- a/modularcalculator/features/units/unitfunctions.py
+++ b/modularcalculator/features/units/unitfunctions.py
@@ -81,7 +81,9 @@ class GeneralUnitFunctionsFeature(Feature):
             unit = systemunit
             last = (systemunit == nonprefixedsystemunits[-1])
             if num.to_decimal() >= 1 or last:
-                if last:
+                if last and num.to_decimal() == 0:
+                    num_of_unit = num
+                elif last:
                     num_of_unit, unit = GeneralUnitFunctionsFeature.find_first_unit_prefix_at_least_one(self, num, unit, systemunits)
                 else:
                     num_of_unit = math.floor(num)
@@ -93,7 +95,7 @@ class GeneralUnitFunctionsFeature(Feature):
                         num = new_unit.convertto(num, False)
                         num -= num_of_unit
                         unit = new_unit
-                if num_of_unit.to_decimal() != 0:
+                if num_of_unit.to_decimal() != 0 or len(parts) == 0:
                     parts.append("{0} {1}".format(num_of_unit.to_string(self), unit.get_name(num_of_unit)))
 
         res = OperationResult(str.join(', ', parts))
-- 
2.43.0

