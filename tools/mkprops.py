import json
R=[]
def P(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=obs
    a["hook_needed"]=False
    R.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
M='modularcalculator/'
P("P01","Arithmetic on numbers is exact rational arithmetic",
 "For all numeric operands whose exact intermediate results fit in 100 significant digits, + - * / ^ (integer powers), % (remainder taking the dividend's sign) and \\ (floor of the exact quotient) return exactly the mathematical rational, stored in lowest terms with a positive denominator. The comparisons < <= > >= == != agree with the exact order of the rationals wherever the two values differ in their first 90 significant digits or are equal. Division or remainder by zero, zero to a negative power and a negative number to a fractional power are errors, never a value; a positive number to a fractional power is right to 30 significant digits.",
 ["inputs"],"all pairs/chains of rational operands built from decimal and fraction literals within the precision limit",
 "A finite table of sums cannot settle exactness: rounding, sign, reduction and carry errors appear only for particular digit patterns, signs and denominators.",
 [M+"objects/number.py",M+"features/numerical/basicarithmetic.py",M+"features/numerical/advancedarithmetic.py",M+"features/boolean/booleans.py"],
 [("Number constructor reduction","number.py Number.__init__"),("arithmetic dunder methods","number.py __add__.. __pow__, __mod__, __floordiv__"),("operator bodies","basicarithmetic.py op_number_*, advancedarithmetic.py op_number_modulus/op_number_integer_divide")],
 obs="value.num / value.den of calculate() results")
P("P02","Operator precedence and associativity",
 "Every expression evaluates as if it were fully bracketed by the documented order, highest first: ^ | not ~ | =~ !~ | unit products/quotients | unit attached to a value | implicit multiplication | * / % \\ *$ | + - +$ +% -% | << >> | ordering comparisons | equality comparisons | & | bitwise-or and ^^ | and or xor | then-else | to as | assignments; operators of one level group left to right except the prefix operators not and ~, which group right to left. A minus sign directly before a number is part of the number when no operand precedes it and is subtraction otherwise. Writing the implied brackets explicitly never changes the result.",
 ["programs"],"all operator/operand sequences over numbers, booleans, strings, variables, brackets and implicit products",
 "The number of operator sequences is unbounded; tests sample a few pairs, while a precedence slip shows only for a particular pair, order and depth of operators.",
 [M+"engine.py",M+"features/layout.py",M+"modularcalculator.py",M+"features/structure/operators.py"],
 [("precedence loop","engine.py Engine.execute"),("operator placement","modularcalculator.py add_op"),("op_map","features/layout.py"),("implicit multiply","engine.py execute")],
 obs="calculate() results")
P("P03","Variable state follows sequential assignment semantics",
 "Statements run in order, each seeing exactly the variables left by the statements before it, in the same call or earlier calls on that calculator: = stores the value and unit of its right side and returns it, ||= returns its right side and stores it only if the variable is not yet set, ++ -- += -= *= /= ^= %= \\= store and return the operator applied to the old value, delete removes one variable and reset removes all. Reading an unset variable gives an empty value that no numeric operator accepts. A statement that fails changes no variable except through bracketed assignments inside it that had already completed, earlier statements keep their effect, and no later statement runs.",
 ["programs","histories"],"all sequences of calculate() calls and statements over several variables, including failing statements",
 "Correctness depends on the whole history of statements, calls and failures; unit tests run short fixed scripts.",
 [M+"engine.py",M+"features/state/assignment.py",M+"features/state/assignmentoperators.py",M+"features/state/assignmentfunctions.py"],
 [("statement loop","engine.py Engine.calculate"),("assignment","assignment.py op_var_set, op_var_set_if_empty"),("compound assignment","assignmentoperators.py assignment_operator"),("reset/delete","assignmentfunctions.py")],
 state="calculator.vars",obs="calculate() results; include_state snapshots; later reads of every variable")
P("P04","Parsing, look-ahead and side-effect-free modes change nothing",
 "With parse_only nothing is executed: no variable changes, no result carries a value, and the statements reported are those of normal execution. With stateless, = and ||= give the same results as otherwise but leave every variable as it was. Deciding whether a line break ends a statement never changes variables, and depends only on whether the statement so far still lacks a right-hand operand, not on what was calculated before.",
 ["programs","histories","configurations"],"all programs and interleavings of normal, parse_only and stateless calls, including line breaks inside expressions",
 "The guarantee is about absence of effects over every program and every earlier call; tests compare single results and never look at the state afterwards.",
 [M+"engine.py",M+"features/structure/terminator.py",M+"features/state/assignment.py"],
 [("parse_only/stateless flags","engine.py calculate; assignment.py op_var_set"),("line-continuation look-ahead","terminator.py parse_terminator"),("fake execution","engine.py execute_operand/execute_operator")],
 state="calculator.vars",obs="reads of every variable after each call; response.results")
P("P05","User-defined function calls are isolated",
 "Calling an inline or external function, whether it succeeds or fails, leaves every variable of the caller exactly as it was before the call. Inside a call PARAM1, PARAM2, ... hold the arguments' values and units in order; an inline function otherwise sees the caller's current variables, an external one sees none of them and can see only its parameters; the result is the value of the last statement that produced one. The same call made again in the same state gives the same outcome, whatever calls failed in between, at any nesting depth.",
 ["programs","histories","fault_sequences"],"all function bodies, arguments, nestings and sequences of succeeding and failing calls",
 "Leaks appear only for particular combinations of nesting, failure point and later reads, which fixed tests do not enumerate.",
 [M+"features/structure/inlinefunctions.py",M+"features/structure/externalfunctions.py",M+"features/structure/functionpointers.py"],
 [("inline call","inlinefunctions.py InlineFunctionsPointerHandler.do_function"),("external call","externalfunctions.py ExternalFunctionsPointerHandler.do_function"),("dispatch","functionpointers.py FunctionPointerItem.value")],
 state="calculator.vars",obs="results and reads of every variable after each call")
P("P06","Arrays broadcast element-wise through operators and functions",
 "An operator or function given an array where it takes a single value returns the array of its results on each element, in order, with scalar operands repeated and several arrays taken in step, to any nesting depth; arrays of different lengths are an error. An element whose calculation fails becomes an error element and does not disturb the others. Functions of one array also accept the elements as separate arguments with the same result.",
 ["inputs","programs"],"all operators/functions, array lengths (including empty), nesting shapes and positions of failing elements",
 "The law quantifies over every operator, shape and failing position; tests have a few two- and three-element examples.",
 [M+"objects/operators.py",M+"features/arrays/arrays.py"],
 [("broadcast","operators.py Operation.call"),("multiple arguments as one array","operators.py Operation.call, second branch")],
 obs="result.value (list of element results)")
P("P07","Errors are deferred until their value is needed",
 "A conditional 'a then b else c' yields the chosen branch even if the other branch failed, 'false and X' is false and 'true or X' is true even if X failed, and an error in a value that is needed surfaces as the failure of the statement. Conditionals and boolean operators otherwise follow their truth tables over every combination of failed and successful operands, nested to any depth.",
 ["programs"],"all nestings of conditionals, boolean operators, and failing or succeeding operands",
 "Which failures surface depends on the combination of operators above them; tests check a handful of shapes.",
 [M+"engine.py",M+"features/boolean/booleans.py",M+"objects/operators.py"],
 [("exception-valued results","engine.py execute_operand/execute_operator"),("inputs_can_be_exceptions","operators.py Operation.call"),("boolean operators","booleans.py")],
 obs="calculate() result or failure")
P("P08","Unit conversion is exact, reversible and dimension-safe",
 "'x to u' gives exactly the number that denotes the same physical quantity in unit u, for every unit of the target's dimension, compound units, powers and SI/binary prefixes included, so that converting there and back, or through a third unit, returns the original number; converting between different dimensions is an error. Temperatures convert as absolute readings with 'to' and in comparisons, and as intervals in + - * / and inside compound units. A unit is the same whether written by singular or plural name in any letter case or by symbol exactly as spelt (except where that spelling is an operator, as with as), and an ambiguous name denotes the unit of the most preferred system that has it.",
 ["inputs","configurations"],"all pairs of defined units with equal dimensions, all rational values, all system preference orders",
 "There are thousands of unit pairs and infinitely many values; the tests touch a few conversions per dimension.",
 [M+"services/unitnormaliser.py",M+"objects/units.py",M+"features/units/units.py",M+"features/units/systems.py",M+"features/unitdefinitions/temperature.py"],
 [("conversion","unitnormaliser.py unit_conversion; units.py UnitPowerList.convert"),("to operator","features/units/units.py op_unit_conversion"),("ambiguous units","unitnormaliser.py get_preferred_unit")],
 obs="result value and unit")
P("P09","Unit arithmetic and simplification preserve the quantity",
 "The result of + - * / ^ and implicit products on quantities denotes exactly the mathematically correct physical quantity and dimension, whatever mix of units, systems and powers the operands use and however the result's unit is simplified; switching unit simplification off changes the unit shown but never the quantity. Adding, subtracting or comparing quantities of different dimensions, or a quantity with a plain number, is an error; comparison depends only on the physical quantities. A ratio of quantities in the same unit is a plain number.",
 ["inputs","programs"],"all expressions over quantities with arbitrary compound units of the defined dimensions",
 "Simplification searches over unit combinations whose number is unbounded; tests check a small number of results in one chosen unit.",
 [M+"services/unitnormaliser.py",M+"objects/units.py",M+"features/numerical/basicarithmetic.py",M+"engine.py"],
 [("normalisation","unitnormaliser.py normalise_inputs, normalise_from_left/right"),("simplification","unitnormaliser.py simplify_units, dedupe"),("finalize","engine.py finalize")],
 obs="result value and unit")
P("P10","Failures are reported as calculator errors with an exact position",
 "For every input text, calculate either returns a response or raises a parsing error or an execution error of the calculator, never any other exception. The error's statements spell, item by item, an exact prefix of the input, and the reported position is the end of that prefix, where the failing token or the unparsable text starts. The error carries the responses of exactly the statements that completed before the failing one; if parsing failed nothing was executed.",
 ["inputs","programs"],"all input strings, valid or not, and all programs with a failing statement at any position and nesting depth",
 "The space of malformed and failing inputs is unbounded and position arithmetic fails only in particular nestings; tests pin a few dozen messages.",
 [M+"engine.py",M+"objects/exceptions.py",M+"features/structure/functions.py",M+"features/structure/innerexpressions.py",M+"features/arrays/arrays.py"],
 [("position","exceptions.py find_pos"),("restore items","engine.py restore_non_functional_items"),("statement-level wrapping","engine.py calculate")],
 obs="exception type, statements, next, find_pos(text), response")
P("P11","Tokenisation is lossless and layout never changes meaning",
 "The items of all statements, concatenated, are exactly the input text, and syntax highlighting of them covers the same text without gap or repetition; each result's expression is the text of its own statement. Inserting spaces, tabs or comments between tokens, or line breaks inside brackets, argument lists and arrays, changes no value, error outcome or number of executed statements. A line break ends a statement unless an operator is still waiting for its right-hand operand.",
 ["inputs","programs"],"all programs and all placements of whitespace, comments and line breaks between their tokens",
 "Every token boundary of every program is a place where text may be lost or meaning change; tests use one layout per expression.",
 [M+"engine.py",M+"features/nonfunctional/space.py",M+"features/nonfunctional/comments.py",M+"features/structure/terminator.py",M+"services/syntaxhighlighter.py"],
 [("parse loop","engine.py Engine.parse"),("space/comment parsers","nonfunctional/*.py"),("highlighting","syntaxhighlighter.py highlight")],
 obs="result.items, result.expression, highlighter output, results")
P("P12","Number notations denote and print the same value",
 "Binary, octal, hexadecimal, base-N (2 to 36), percentage, E-notation and decimal literals denote exactly the number their digits spell; a number shown in any of these notations, when its expansion is finite and within the printing precision, reads back as the same number. A numeric result is shown in the notation of the first operand written in a non-decimal notation (decimal if none is), assignment shows what it stores, 'as' and the conversion functions change only the notation and never the value, and a binary literal prints at least as wide as it was written.",
 ["inputs","programs"],"all digit strings in all bases, signs and fractional parts, and all mixes of notations in operators",
 "The literal space is infinite in every base and errors hide in specific digit patterns; tests have a few literals per base.",
 [M+"features/numerical/bases.py",M+"features/numerical/arbitrarybasenumbers.py",M+"features/numerical/binarynumbers.py",M+"features/numerical/hexadecimalnumbers.py",M+"features/numerical/octalnumbers.py",M+"features/numerical/percentagenumbers.py",M+"features/numerical/expnumbers.py",M+"features/numerical/numericalrepresentation.py",M+"objects/operators.py"],
 [("digit conversion","bases.py base_to_dec, dec_to_base"),("representation carried through operations","operators.py convert_numbers, Operation.call"),("as operator","numericalrepresentation.py op_as")],
 obs="result value and its printed text")
P("P13","Printing and rounding are correct to the stated digit",
 "Printing a decimal number gives the value rounded half away from zero to 30 decimal places, without superfluous zeros, exponent or negative zero, for every magnitude the calculator holds to that many places, and the printed text of a value with at most 30 decimals reads back as the same value. round, floor and ceil with a non-negative number of places return respectively the nearest (halves away from zero), greatest not above, and least not below multiple of that power of ten, and leave the unit unchanged.",
 ["inputs"],"all rationals within the precision limit, all place counts",
 "Ties, negatives, carries and very large or small magnitudes form an infinite family of corner cases.",
 [M+"objects/number.py",M+"features/numerical/numericalfunctions.py"],
 [("printing","number.py to_string"),("rounding","number.py __round__/__floor__/__ceil__; numericalfunctions.py apply_rounding_function")],
 obs="to_string(); result value")
P("P14","Feature installation is closed, idempotent and order-independent",
 "After installing any set of features in one call, exactly those features and their transitive dependencies and sub-features are installed, each once, after its dependencies and after those wanted features it declares it must follow; a request naming an unknown feature is a calculator error and installs nothing, and asking again for installed features changes nothing. The resulting calculator has the parsers and operators of those features in the order of the layout maps, and the same functions, constants, units and number types whatever order the names were given in. Calculators built from two permutations of the same set evaluate every expression to the same value.",
 ["configurations","histories"],"all subsets and orderings of the feature list",
 "There are 2^80 subsets and many more orders; tests only ever load the presets.",
 [M+"modularcalculator.py",M+"features/feature.py",M+"features/presets.py",M+"features/layout.py"],
 [("install","modularcalculator.py install_features, add_feature_to_be_installed"),("parser order","modularcalculator.py add_parser"),("operator order","modularcalculator.py add_op")],
 state="installed_features, parsers, ops, funcs",obs="installed_features, parser and operator order, results")
P("P15","Calculator instances do not affect one another",
 "Whatever is calculated, installed or configured on one calculator (variables, constants, functions, units, option symbols, unit preferences, failed calls), another calculator in the same process keeps its own variables and features and gives the same results as if it were alone; the process-wide number precision and rounding settings are the only shared configuration. Reusing one calculator for many unrelated, successful or failing calculations likewise never changes the result of an expression that uses none of their variables.",
 ["histories","schedules"],"all interleavings of operations on several calculators",
 "Sharing shows only when operations on different instances are interleaved in a particular order, which tests never do.",
 [M+"modularcalculator.py",M+"engine.py",M+"features/structure/terminator.py",M+"objects/units.py"],
 [("per-instance registries","engine.py Engine.__init__, modularcalculator.py __init__"),("unit copies","units.py copy; engine.py copy_items")],
 state="two or more calculators",obs="results on each instance")
P("P16","Ranges and array functions",
 "A range 'a..b step d' is exactly the sequence a, a+d, ... up to and including b when reached (step 1 or -1 towards b by default), and an error if the step leads away from b; units of the ends and step must be compatible and the elements are in the first one's unit. concat, element (1-based), filter, count, sort (ascending, keeping each element's own unit), reverse, sum, min, max, mean, median, mode and (sample) stdev agree with their mathematical definition on every array (mean and median to 90 significant digits, stdev to 20, any of several most frequent elements as the mode), with mixed units compared by physical quantity. None of them changes an array stored in a variable.",
 ["inputs","histories"],"all arrays (sizes, orders, duplicates, mixed units), all range bounds and steps, repeated use of stored arrays",
 "Sizes, orders, duplicates, unit mixes and aliasing are unbounded; tests use short sorted or nearly sorted examples.",
 [M+"features/arrays/arrays.py",M+"features/arrays/arrayfunctions.py",M+"features/numerical/statisticalfunctions.py",M+"objects/operators.py"],
 [("ranges","arrays.py ArrayElement.value"),("array functions","arrayfunctions.py func_array_*"),("statistics","statisticalfunctions.py func_*"),("original value restoration","operators.py Operation.call")],
 obs="result.value; stored variables afterwards")
P("P17","String literals, functions and comparisons",
 "A string literal denotes exactly its characters, with backslash making the next character literal, so every string can be written and read back. Concatenation, repetition, length, lower, upper, lstrip, rstrip, strip, find (zero-based, -1 if absent), replace, substr (inclusive end, negative positions counting from the end), split and join agree with their definition on every string, numbers being taken as their printed text; join and split with the same delimiter are inverse. The comparisons <$ ... !=$ order by character code and <~ ... !=~ do so ignoring case.",
 ["inputs"],"all strings including empty ones, quotes, backslashes, line breaks, non-ASCII characters and numbers used as strings",
 "String laws quantify over all contents; tests use one friendly word per function.",
 [M+"features/strings/strings.py",M+"features/strings/stringfunctions.py",M+"features/strings/stringcomparison.py",M+"features/strings/stringarrayfunctions.py"],
 [("literal parser","strings.py parse_string"),("functions","stringfunctions.py func_*"),("comparison","stringcomparison.py"),("split/join","stringarrayfunctions.py")],
 obs="result.value")
P("P18","Date arithmetic",
 "Adding or subtracting a time period in any time unit moves a date by exactly that many seconds (to the microsecond) on the Gregorian calendar, by operator or function alike; subtracting what was added returns the original date, and datedifference is symmetric and equals the elapsed time, in seconds or in the unit asked for. Dates print in the shortest of the date, date-time and date-time-fraction forms that loses nothing, keeping any time-zone offset (dateformat writes the same instant in the asked format), and a period that is not of dimension time, or mixing dates with and without a time zone in a difference, is an error.",
 ["inputs"],"all dates of years 1-9999 (leap days, month ends, sub-second parts, offsets) and all periods",
 "Calendar corner cases (leap years, month ends, century rules, borrow of microseconds) are sampled sparsely by tests.",
 [M+"features/dates/dates.py",M+"features/dates/datefunctions.py",M+"features/dates/dateoperators.py"],
 [("parse/format","dates.py string_to_date, date_to_string"),("add/subtract","datefunctions.py func_dateadd/func_datesubtract; dateoperators.py"),("difference","datefunctions.py func_datedifference")],
 obs="result.value")
P("P19","Bitwise operators",
 "On integers (of up to 100 digits) & | ^^ act bit by bit in two's complement, << and >> multiply by and floor-divide by the power of two, and ~ flips exactly the bits within the written width of a binary literal (within the bit length of any other positive integer), so that ~~b restores a binary literal b and keeps its width. A result shown in binary keeps the width of the widest binary operand; a negative or fractional shift count or complement operand is an error.",
 ["inputs"],"all integers (including negative and larger than machine words), all shift counts and literal widths",
 "Width, sign and carry behaviour across word sizes is unbounded; tests check a few small values.",
 [M+"features/numerical/bitwiseoperators.py",M+"features/numerical/binarynumbers.py"],
 [("operators","bitwiseoperators.py op_bitwise_*"),("width","bitwiseoperators.py get_biggest_width")],
 obs="result value and printed text")
P("P20","Responses mirror the statements of the text",
 "A successful call returns exactly one result per statement of the text, in order, each with its own text and items; a statement containing only blanks or comments yields a result with no value, every other statement one with a value (empty for an unset variable, delete and reset). With include_state each executed statement's result carries the variables exactly as they were right after it, unaffected by later statements. The results of a text equal those of its statements run in consecutive calls.",
 ["programs","histories"],"all multi-statement texts, including empty statements, comments and trailing line breaks",
 "The correspondence must hold for every segmentation of every program; tests read only the last result.",
 [M+"engine.py",M+"objects/api.py",M+"features/structure/terminator.py"],
 [("response building","engine.py Engine.calculate"),("result object","api.py CalculatorResult"),("statement split","terminator.py")],
 obs="response.results")
P("P21","Argument counts and types are checked before anything runs",
 "Every operator and built-in function accepts an argument list exactly when its length is within the declared minimum and maximum and every argument is of a declared type (number, boolean, string, array of a type, date, variable, unit, and the declared unit dimensions), arrays counting as their elements where a single value is taken; a rejected call is an error and has no effect. An external function with a declared input line enforces those types and unit dimensions in the same way.",
 ["inputs","programs"],"all functions and operators against all combinations of argument kinds and counts",
 "The product of operators, positions, types and counts is far larger than the test table, which checks mostly accepted calls.",
 [M+"objects/operators.py",M+"features/structure/externalfunctions.py",M+"services/unitnormaliser.py"],
 [("validation","operators.py Operation.validate, validate_input"),("external declarations","externalfunctions.py handle"),("dimension check","unitnormaliser.py check_unit_dimensions")],
 obs="calculate() accepts or fails")
P("P22","Integer and transcendental functions agree with mathematics",
 "abs, fact, gcd and lcm return the exact mathematical value for all integers (abs for all numbers) of up to 100 digits, and results of up to 100 digits, and reject fractional (and for fact, negative) arguments with an error. exp, log (natural or to a given base) and the trigonometric and hyperbolic functions and their inverses of a plain number agree with the mathematical functions of radians to 12 decimal places for results and arguments of magnitude up to 20, where the slope of the function is at most a thousand. Arguments outside a function's real domain are an error, never a value.",
 ["inputs"],"all integers and rationals in the functions' domains",
 "Identities must hold for all arguments; tests check one or two per function.",
 [M+"features/numerical/numericalfunctions.py",M+"features/numerical/trigonometryfunctions.py",M+"objects/number.py"],
 [("functions","numericalfunctions.py func_*"),("trigonometry","trigonometryfunctions.py"),("log","number.py log")],
 obs="result.value")
P("P23","Regular expressions match, list, count, split and replace consistently",
 "text =~ pattern is true exactly when some part of the text matches the pattern and !~ exactly when none does. regexget lists the non-overlapping matches from left to right (what a single group captured, or an array of what several groups did), or gives the n-th of them and an error when there is none; regexcount is their number, regexsplit the texts between them (and what groups captured), regexsub the text with all or the first n of them replaced. Matching is that of Python's notation: literals, escapes, classes, anchors, alternatives tried from the left, greedy, lazy and possessive repetition, groups and references to them, look-around; a malformed pattern is an error.",
 ["inputs"],"all texts and all patterns in the fragment named",
 "The answer depends on the whole of the pattern's structure and the text; tests try one literal or class pattern per function.",
 [M+"features/strings/regex.py"],
 [("matching","regex.py op_regex, op_regexnot"),("matches","regex.py func_regexget, func_regexcount"),("pieces","regex.py func_regexsplit, func_regexsub")],
 obs="result.value")
P("P24","format writes out a quantity as parts that add up to it",
 "format of a quantity in one unit of power one gives its parts in units of the named system, or of the most preferred system its unit belongs to, from the largest unit that fits down: whole numbers of all but the smallest unit, which takes what is left, each in the largest prefix that leaves at least one (a negative quantity in the smallest unit). The parts add up to the quantity, rounded to thirty decimal places of the last unit; parts of nothing are left out, and zero is written as zero. The unit the quantity was given in makes no difference, compact leaves the quantity what it is, and a system without units of the dimension is an error.",
 ["inputs","configs"],"all quantities in single units and all systems and orders of preference",
 "The decomposition has to add up for every amount, unit, system and preference; tests fix some twenty texts.",
 [M+"features/units/unitfunctions.py",M+"services/unitnormaliser.py",M+"features/unitdefinitions"],
 [("decomposition","unitfunctions.py func_format"),("prefix choice","unitfunctions.py find_first_unit_prefix_at_least_one"),("preferred system","unitnormaliser.py get_preferred_system")],
 obs="result.value")
with open('/verif/properties.jsonl','w') as f:
    for r in R: 
        assert len(r['title'])<=80,r['title']
        f.write(json.dumps(r)+'\n')
print(len(R))
