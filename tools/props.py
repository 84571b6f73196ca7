#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
H = "include/boost/safe_numerics/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[H+f for f in files],
                     mechanism=[dict(name=n, where=H+w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("S01", "Native-policy arithmetic is exact or reports an error",
 "Under the default (native) promotion policy, + - * / % between any two safe integers, or a safe and a built-in integer, and unary minus, either give the exact mathematical result (division truncating toward zero) or report an arithmetic error. "
 "An error is reported only if an operand or the exact result does not fit the type the same C++ expression would have, or a divisor is zero, and that type is the stored type of the result.",
 ["inputs","programs"], "every pair of operand types (built-in widths, signedness, user ranges) and every pair of operand values",
 "The existing tests use a 16x16 table of hand-picked values per operator; they cannot reach every value pair, nor any user-chosen range, and they never check the value against exact arithmetic for mixed ranges.",
 ["safe_base_operations.hpp","native.hpp","checked_integer.hpp","interval.hpp"],
 [("operator + - * / % result computation","safe_base_operations.hpp:403"),("checked primitives","checked_integer.hpp:230")])
prop("S02", "Automatic-policy arithmetic is exact and fails only beyond 64 bits",
 "Under the automatic promotion policy, + - * / % and unary minus give the exact mathematical result, in a result type widened as needed, for every operand type pair and value. "
 "An error is reported only for a zero divisor, or when an operand or the exact result does not fit the widest (64-bit) integer of the result's signedness: unsigned when both operand types are unsigned, otherwise signed; subtraction is always signed.",
 ["inputs","programs"], "every pair of operand types including arbitrary ranges, and every pair of values",
 "The existing tests use fixed built-in types and a small value table; the widening decision depends on the static ranges of both operands, an unbounded space of types.",
 ["automatic.hpp","safe_base_operations.hpp","interval.hpp","utility.hpp"],
 [("result type selection","automatic.hpp:45"),("smallest type for a range","utility.hpp:192")])
prop("S03", "Computed values always lie in the range their result type advertises",
 "Every value produced by an arithmetic, shift, bitwise or unary operator on safe integers lies within the minimum and maximum that numeric_limits reports for the type of that result. "
 "For + - and * the advertised range is exactly the range of attainable results whenever the operand ranges and that range fit the result's stored type. "
 "For every safe type numeric_limits reports exactly the declared bounds (lowest() being the minimum).",
 ["inputs","programs"], "all operand ranges (types) and all operand values, for every operator and both standard promotion policies",
 "Later conversions and operations skip run-time checks on the strength of the advertised range, so one unsound range silently breaks a later expression; tests sample a few fixed ranges only.",
 ["interval.hpp","safe_base_operations.hpp","checked_result_operations.hpp"],
 [("interval arithmetic on operand ranges","interval.hpp:102"),("return_interval of each operator","safe_base_operations.hpp:455")])
prop("S04", "Composite expressions are exact or fail, never silently wrong",
 "Any expression built from safe integers and literals with + - * / % << >>, comparisons and conversions either evaluates to the exact mathematical value or reports an error. "
 "It fails only if some step has an operand or exact result that the step's result type cannot hold, a zero divisor or an invalid shift (a literal shift count that no result type can hold need not even compile).",
 ["programs","inputs"], "all expression shapes over all operand types/ranges and values",
 "Existing tests evaluate one operator at a time; an error in a derived static range shows only when a result feeds another operation that elides its check.",
 ["safe_base_operations.hpp","automatic.hpp","native.hpp","interval.hpp"],
 [("check elision when ranges prove safety","safe_base_operations.hpp:464")])
prop("S05", "Comparisons of safe integers agree with mathematics",
 "For any two safe integers, or a safe and a built-in integer, each of < <= > >= == != either returns the mathematically correct truth value or reports an error. "
 "An error is reported only if an operand value does not fit the common type in which the promotion policy compares (the C++ common type for native; a 64-bit integer for automatic).",
 ["inputs","programs"], "all operand type pairs and ranges, all value pairs, both policies",
 "Fixed value tables over the built-in types cannot reach disjoint, nested, touching or single-value ranges for which the answer is computed at compile time.",
 ["safe_base_operations.hpp","interval.hpp","safe_compare.hpp"],
 [("less-than / equal with static shortcut","safe_base_operations.hpp:1092"),("interval ordering","interval.hpp:238")])
prop("S06", "Shift operators are exact or report an error",
 "x << n and x >> n on safe integers equal x*2^n and floor(x/2^n) or report an error; they never execute a shift with a negative or too large count. "
 "A non-negative x shifted by a count from zero to less than the width of the result type reports no error when the exact result (and both operands) fit the result's stored type, except that shifting zero left may be refused.",
 ["inputs","programs"], "all operand type pairs, ranges and values including negative and huge counts, both policies",
 "Tests sample a few shift counts on built-in types; the range rules that remove run-time checks depend on static ranges of both operands.",
 ["safe_base_operations.hpp","checked_integer.hpp","interval.hpp","checked_result_operations.hpp"],
 [("left/right shift results","safe_base_operations.hpp:1298"),("checked shifts","checked_integer.hpp:578")])
prop("S07", "Bitwise operators give the C++ result and a truthful result range",
 "| & ^ and ~ on safe integers give exactly the value of the same C++ expression on the underlying values, in the type the promotion policy prescribes. "
 "That value lies in the range the result type advertises, so converting it onwards either preserves it or reports an error.",
 ["inputs","programs"], "all operand type pairs (signed, unsigned, mixed, ranges), all value pairs including negative ones",
 "Tests check only whether a fixed table of operands throws; they do not compare values with C++ nor pass the result on to a conversion.",
 ["safe_base_operations.hpp","utility.hpp"],
 [("bitwise result types","safe_base_operations.hpp:1628"),("round_out","utility.hpp:239")])
prop("S08", "Conversions into and out of safe integers preserve the value or fail",
 "Constructing, assigning or casting between built-in integers, safe integers, ranged safe integers and safe literals yields exactly the source value if the destination's range contains it, and reports an error otherwise. "
 "No conversion that fits is refused and none that does not fit succeeds, and every safe object always holds a value inside its declared range.",
 ["inputs","programs"], "every source/destination type pair with overlapping ranges and every value",
 "Tests convert a fixed set of values between the eight built-in types; ranges, boundaries of ranges and pairs of ranges are unbounded.",
 ["safe_base.hpp","safe_base_operations.hpp","checked_integer.hpp","interval.hpp"],
 [("validated_cast / static check elision","safe_base_operations.hpp:101"),("checked cast","checked_integer.hpp:57")])
prop("S09", "Failed updates leave variables unchanged and always in range",
 "Through any history of assignments, compound assignments (+= -= *= /= %= <<= >>= |= &= ^=), ++/--, copies and stream reads, each safe variable holds exactly the value exact arithmetic assigns it and stays inside its declared range. "
 "An operation that reports an error leaves every variable with the value it had before (strong exception guarantee).",
 ["histories","inputs"], "all operation sequences over sets of variables of mixed types and ranges, all operand values",
 "Existing tests perform single operations on fresh objects; state kept after a failed operation and long histories are not examined.",
 ["safe_base.hpp","safe_base_operations.hpp"],
 [("compound assignment","safe_base_operations.hpp:516"),("increment/decrement","safe_base.hpp:229"),("stream extraction","safe_base_operations.hpp:1918")])
prop("S10", "Every failure reaches the right exception-policy handler, successes none",
 "Whenever an operation on safe values fails, the policy handler for the class of that failure (arithmetic error, implementation-defined behaviour, undefined behaviour, uninitialized value) is invoked with an error code of that class before the operation completes, and no handler of another class is. "
 "An operation that yields the exact result invokes no handler.",
 ["inputs","configurations","programs"], "all operators and conversions, operand types, values and user-defined exception policies",
 "Tests cover the stock policies on a handful of calls; routing has to hold for every failing operation, type pair and custom policy.",
 ["exception_policies.hpp","safe_base_operations.hpp","checked_integer.hpp"],
 [("error dispatch","safe_base_operations.hpp:46"),("error to action mapping","exception_policies.hpp:86")])
prop("S11", "Ignored errors leave the result the unchecked C++ expression would give",
 "With a policy that ignores an error class, an operation failing in that class completes with the value the same expression on built-in integers gives on a wrapping two's-complement machine, for + - * , shifts by counts smaller than the width, and conversions between integer types. "
 "Operations that do not fail give the same results as under the throwing policy.",
 ["inputs","configurations"], "all operators, native-policy operand type pairs and values under ignoring and loose policies",
 "Only one or two tests use an ignoring policy and none checks the value produced after an ignored error.",
 ["safe_base_operations.hpp","exception_policies.hpp"],
 [("fallback result when a handler returns","safe_base_operations.hpp:423")])
prop("S12", "Checked primitives on built-in integers are exact or carry the right error",
 "Each checked primitive on built-in integers (cast, add, subtract, multiply, divide, modulus, minus, shifts and bitwise) returns the exact result when it is representable and otherwise an error, never a wrong value; shifts of negative values, by negative or too large counts, or of zero by too many places may also be errors. "
 "Overflow of cast, + - * / and minus is reported as positive overflow when the exact result is above the maximum and as negative overflow (or, for a signed value cast to an unsigned type or range, a domain error) when it is below the minimum, and a zero divisor is a domain error.",
 ["inputs"], "all operand values for every integer width and signedness (exhaustively for 8 bits)",
 "Tests use a fixed table of about sixteen values per type; the 8-bit space alone has 65536 operand pairs per operator.",
 ["checked_integer.hpp","checked_default.hpp","utility.hpp"],
 [("checked_operation for integers","checked_integer.hpp:222"),("free checked functions","checked_default.hpp:57")])
prop("S13", "Extended-integer arithmetic on checked results is sound",
 "+ - * / %, bitwise operators and shifts on checked results holding in-range values give the exact result, or an above-maximum / below-minimum marker on the correct side, or an indeterminate error (a negative value shifted right may be rounded either way; shifted left it may be marked below-minimum when it reaches the minimum). "
 "With marker operands read as +infinity/-infinity (and other errors as unknown), + - * and / never yield a value or marker that the operands' meaning rules out, shifts never change the sign of a marker or turn it into a value, a finite value modulo a marker is that value or unknown, and an unknown operand never yields a definite in-range value except where the other operand alone fixes the result.",
 ["inputs"], "all combinations of in-range values and error states, every integer type (exhaustively for 8 bits)",
 "Tests walk one table of representatives per operator; they do not relate markers to the values they stand for nor cover all in-range values.",
 ["checked_result_operations.hpp","checked_result.hpp"],
 [("sum/product tables","checked_result_operations.hpp:106")])
prop("S14", "Three-valued comparison of checked results never lies",
 "Comparing checked results gives true or false only when every value the two operands may stand for makes that answer right, and otherwise gives indeterminate; two in-range values always compare as integers do. "
 "The six comparisons are mutually consistent (a<b with b>a, a>=b with not a<b, a!=b with not a==b).",
 ["inputs"], "all pairs of in-range values and error states, every integer type",
 "Tests use a table of nine representatives of one type and skip consistency between the operators.",
 ["checked_result_operations.hpp","checked_result.hpp"],
 [("tribool comparisons","checked_result_operations.hpp:580")])
prop("S15", "Interval arithmetic encloses every pointwise result",
 "For intervals of extended integers, the result of + - * / % << >> contains (or marks as unbounded on that side) the result of the operation on every pair of points taken from the operands, and for + - * its finite bounds are attained. "
 "The union of two intervals contains both operands and their intersection contains exactly the common points.",
 ["inputs"], "all interval pairs over every integer type and all member points (denominators excluding zero; non-negative shift operands)",
 "Tests use a handful of concrete intervals and compare bounds, never membership over arbitrary intervals.",
 ["interval.hpp","checked_result_operations.hpp","utility.hpp"],
 [("interval operators","interval.hpp:102"),("minmax","utility.hpp:218")])
prop("S16", "Interval predicates are exact or indeterminate, never wrong",
 "includes and excludes (of a point or an interval), intersection test, <, >, <=, >=, == and != of intervals answer true or false only when that is right for the sets of integers denoted; with finite bounds includes, excludes and intersection are always definite, and == and != are claimed for finite bounds only. "
 "An interval order comparison is true only when it holds for all pairs of members and false only when it fails for all pairs, and is definite whenever the intervals are disjoint.",
 ["inputs"], "all interval pairs and points, finite bounds of every integer type and bounds that are error markers",
 "Tests check a few example intervals.",
 ["interval.hpp"],
 [("interval predicates","interval.hpp:53"),("interval comparison","interval.hpp:238")])
prop("S17", "Mixed-type safe comparison functions are mathematically exact",
 "The safe comparison functions (less than, greater than, equal and their negations) return the mathematically correct answer for any two built-in integers of any widths and signedness, without reporting errors.",
 ["inputs"], "all pairs of built-in integer types and all value pairs (exhaustively for 8-bit pairs)",
 "Tests cover a fixed value table; the property is for every value pair.",
 ["safe_compare.hpp"],[("sign-aware comparison","safe_compare.hpp:29")])
prop("S18", "Stream input accepts exactly valid in-range numbers and output round-trips",
 "Writing a safe integer to a stream and reading it back into the same type restores the value. "
 "Reading text into a safe integer stores the number if the text is a number in the variable's range, and otherwise reports an error and leaves the variable unchanged; text starting with a minus sign is never accepted as a wrapped positive value.",
 ["inputs"], "all safe integer types and ranges, all values and all texts (valid, malformed, out of range, empty, with sign, blanks, trailing junk), narrow and wide streams",
 "One test reads a few values; malformed and out-of-range text for each type is not covered.",
 ["safe_base_operations.hpp","safe_base.hpp"],
 [("stream helpers","safe_base_operations.hpp:1918")])
prop("S19", "Machine-emulation policy follows C++ promotion rules for the given widths",
 "With a promotion policy describing the widths of char, short, int, long and long long of some machine, the result of every binary arithmetic operator has the type that C++ integral promotion and usual arithmetic conversions prescribe on that machine, and the value is exact or an error is reported, exactly as on that machine. "
 "When the described widths equal the host's, the results agree with the native policy.",
 ["programs","inputs","configurations"], "machine width tuples, operand type pairs and values",
 "Tests instantiate one or two width tuples and a fixed table.",
 ["cpp.hpp"],[("usual arithmetic conversions","cpp.hpp:106")])
prop("S20", "Compile-time and run-time evaluation agree",
 "Any construction, conversion, arithmetic, shift, comparison or bitwise operation, and any assignment, compound assignment, increment or decrement of a local variable, on safe integers of the throwing policies with constant operands is usable in a constant expression exactly when it does not fail at run time, and the constant equals the run-time result. "
 "A failing operation makes the constant expression ill-formed rather than producing a value.",
 ["programs","inputs"], "all operators, operand types and constant operand values",
 "Constexpr tests are a handful of fixed lines.",
 ["safe_base_operations.hpp","checked_integer.hpp","interval.hpp","exception_policies.hpp"],
 [("constexpr operators","safe_base_operations.hpp:507")])
prop("S21", "Safe literals denote exactly their value in every operation",
 "A safe literal converts to and prints as its exact value, advertises a range containing only that value, and combined with a safe integer behaves as the same value held in a one-point range: exact or reported error, taking over the other operand's policies. "
 "Unary minus and complement of a literal denote the exact negated / complemented value whenever the literal's own type can represent it.",
 ["inputs","programs"], "all literal values of either signedness combined with all safe types, values and operators",
 "Tests use a few literals.",
 ["safe_integer_literal.hpp","safe_base_operations.hpp"],
 [("literal type","safe_integer_literal.hpp:23")])
prop("S22", "Trap policy rejects exactly the expressions that can fail",
 "With a policy that traps errors, an operation or conversion does not compile if values in its operands' declared ranges leave it without an exact result or make it fail under the throwing policy, nor does default construction under the strictest one. "
 "A + - * or conversion whose operand ranges make failure impossible does compile and gives the exact result, as does a division whose divisor range excludes zero and whose quotient always fits.",
 ["programs"], "all operators, operand ranges and both promotion policies",
 "Compile-fail tests are a few fixed files.",
 ["safe_base_operations.hpp","exception_policies.hpp","interval.hpp"],
 [("compile-time dispatch","safe_base_operations.hpp:46"),("exception_possible","safe_base_operations.hpp:464")])
prop("S23", "Meaningless combinations are rejected at compile time",
 "Operations mixing safe operands with different exception policies or different promotion policies, and conversions into a safe type from a type whose range has no value in common with it, do not compile. "
 "Combinations in which one side has no policy of its own (built-in integers, literals without one) and conversions with any common value do compile under the throwing policies.",
 ["programs","configurations"], "all pairs of policies, operators and operand ranges",
 "A few fixed compile-fail tests exist.",
 ["safe_base_operations.hpp"],
 [("common policies","safe_base_operations.hpp:274"),("range overlap assertion","safe_base_operations.hpp:149")])
prop("S24", "Error codes, classes, messages and exceptions are consistent",
 "Every library error code belongs to exactly one error class, the class the policy dispatch uses is the class the error-condition comparison reports, and distinct codes have distinct non-empty messages and names. "
 "Under the throwing policies a failure raises std::system_error carrying the code the policy's handlers receive for that failure, in the library's own category, and the code describes it: overflow on the right side, domain error for a zero divisor (or a value too low for an unsigned type), the code for a negative, respectively too large, count for an invalid shift.",
 ["inputs","programs"], "all error codes and all failing operations",
 "Tests compare a few codes.",
 ["exception.hpp","exception_policies.hpp"],
 [("error categories","exception.hpp:84"),("classification","exception_policies.hpp:86")])
prop("S25", "Checking never itself executes undefined behaviour",
 "No operation on safe integers, checked primitives, checked results or intervals executes C++ undefined behaviour (signed overflow, invalid shift, division trap, out-of-bounds access, invalid enum or bool load) for any operand values, whether it succeeds or reports an error through a throwing policy.",
 ["inputs","programs"], "all operand types, ranges and values, all operators",
 "The tests are built without sanitizers, on fixed values, so silent undefined behaviour passes.",
 ["checked_integer.hpp","safe_base_operations.hpp","utility.hpp","checked_result_operations.hpp"],
 [("pre-condition checks before each primitive","checked_integer.hpp:230")])
prop("S26", "Integer bit-width helpers are exact",
 "The helpers that derive storage types and range bounds are exact for every value: integer log2, number of significant bits, rounding a value out to all ones over its significant bits, smallest and largest of a list, and the smallest integer type able to hold a given range.",
 ["inputs","programs"], "all values of each integer width (exhaustive for 16 bits) and all ranges",
 "Tests use few values of some helpers.",
 ["utility.hpp"],[("ilog2/significant_bits/round_out/minmax","utility.hpp:113")])
prop("S27", "Result types follow the promotion policy",
 "Under the native policy the stored type of every operator's result is the type of the same C++ expression on the underlying types; under the automatic policy it is an integer type, of the documented signedness, able to hold every attainable result that fits 64 bits. "
 "Safe results keep the operands' promotion and exception policies, and wrapping or unwrapping never changes which type a value has.",
 ["programs"], "all operators and operand type pairs, built-in, ranged and literal",
 "Tests assert a few concrete result types.",
 ["native.hpp","automatic.hpp","safe_base_operations.hpp","safe_integer_range.hpp"],
 [("promotion policies","native.hpp:19"),("automatic result types","automatic.hpp:45")])
prop("S28", "Printed values, ranges and checked results show what they hold",
 "Streaming a safe integer prints its value as a number in the base selected on the stream, whatever type stores it (character types included); range_value prints the declared bounds as [min,max] followed by the value, and result_display the same in hexadecimal followed by the decimal value in parentheses; "
 "an interval prints as [lower,upper] with numeric bounds, also for character bounds; a checked result prints 0 and its value, or 1, the message of its error code, a colon and its own message. Printing never throws or alters the value.",
 ["inputs"], "all safe types, bounds, values, error codes and messages, narrow and wide streams",
 "No existing test looks at the printed text except of one or two values.",
 ["range_value.hpp","interval.hpp","checked_result_operations.hpp","safe_base_operations.hpp"],
 [("range and result display","range_value.hpp:12"),("interval output","interval.hpp:300"),("checked result output","checked_result_operations.hpp:1122"),("safe value output","safe_base_operations.hpp:1893")])
prop("S29", "Floating-point values become integers by truncation or fail",
 "Casting a float, double or long double with the checked cast to a built-in integer type or a range of one, and constructing, assigning or casting a safe integer of full range from one, gives the value truncated toward zero whenever that lies in the destination's range. "
 "Any other value (NaN and infinities included) is reported as an error and never becomes a value: positive overflow when it is above the maximum, negative overflow (or, for an unsigned destination, a domain error) when it is below the minimum, and a domain error for NaN.",
 ["inputs"], "all floating-point values, all integer destinations and ranges",
 "No existing test casts a floating-point value.",
 ["checked_integer.hpp","safe_base_operations.hpp"],
 [("floating point to integer cast","checked_integer.hpp:156")])
prop("S30", "Headers combine freely and translation units agree",
 "Every public header compiles on its own, twice, and together with the others in any order, as C++14, C++17 and C++20 and with g++ and clang++, and may be used in any number of translation units linked into one program. "
 "The same operation gives the same value or error in each unit; error codes, error classes and categories made or thrown in one unit compare equal to those of any other (also when made before main starts), safe values pass between units unchanged, and an error code can be compared with its class as std::error_code == safe_numerics_actions.",
 ["inputs","configurations"], "all header subsets and orders, compilers, dialects, optimisation levels, and numbers of translation units",
 "Every existing test is a single translation unit which includes what it needs in one order, built by one compiler as C++14.",
 ["exception.hpp","all public headers"],
 [("error categories and codes","exception.hpp:66"),("classes of errors","exception.hpp:135"),("headers","safe_integer.hpp:14")])
prop("S31", "Ordinary programs keep working with safe integers",
 "A program written against an integer type T (containers and algorithms of the standard library, control flow, functions, references, pointers, classes with members of type T) compiles when T becomes safe<> of a built-in type or a range (save where the language wants a built-in type: subscripts of arrays, switch, ?: over two different types), and every value, text and branch agrees with exact arithmetic up to the first operation whose exact result its type can't hold. "
 "Under a throwing policy that operation throws a std::exception there, every variable keeps the value it had, and the program can carry on. "
 "Assignments, compound assignments and prefix increments give a reference to the variable itself, postfix ones its previous value; a safe integer converts implicitly only to what its underlying type converts to, so overload resolution picks what it picks for built-in integers, and operators which a class declares with safe operands or members remain that class's own.",
 ["inputs","programs","operation histories"], "all programs over the documented operators and standard components, all types and values",
 "The existing tests apply single operators to tables of values; none runs an algorithm or a container of safe integers.",
 ["safe_integer.hpp","safe_base.hpp","safe_base_operations.hpp","safe_integer_range.hpp"],
 [("class safe_base","safe_base.hpp:123"),("operators","safe_base_operations.hpp:507"),("compound assignment","safe_base_operations.hpp:516")])
prop("S32", "Promotion policies written by users are honoured",
 "For every promotion policy (any class giving a built-in result type for each operator and pair of operand types, symmetric or not, wider or narrower than the operands) the result of a binary operator or unary minus has the type the policy names. "
 "The value of + - * / % << >> is exact and lies in the result's advertised range, or an error is reported: always when the type can't hold the exact result, never when it holds the operands and the exact result (shifts by counts or of values the language leaves undefined excepted). "
 "Bitwise operators give the C++ result in that type, and comparisons are mathematically right or fail because an operand doesn't fit the comparison type of either order.",
 ["inputs","policies"], "all promotion policies over built-in integer types, all operand types and values",
 "No existing test has a promotion policy of its own; the stock ones never name a type too small for the operands.",
 ["safe_base_operations.hpp","concept/promotion_policy.hpp"],
 [("addition","safe_base_operations.hpp:415"),("division","safe_base_operations.hpp:780"),("remainder","safe_base_operations.hpp:950"),("bitwise or","safe_base_operations.hpp:1636"),("promotion policy","concept/promotion_policy.hpp:20")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
