import json
FL="p1788/flavor/infsup/setbased/"
F=lambda n: FL+"mpfr_bin_ieee754_flavor_%s_impl.hpp"%n
def P(id,title,st,over,txt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or ["return value of the public function, read back through inf/sup/decoration"]
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":txt},"why_tests_cant":why,"anchors":a}
EF=F("elem_func"); RF=F("rev_func"); FRONT="p1788/infsup/"
MV="p1788/util/mpfr_var.hpp"; MVI="p1788/util/mpfr_var_impl.hpp"
L=[]
L.append(P("P01","Basic arithmetic returns the tightest enclosing interval",
"For every input interval, negation, addition, subtraction, multiplication, division, reciprocal, square, square root and fused multiply-add return exactly the smallest interval with bounds in the result's number format that contains every real value of the operation over the inputs. Empty inputs and inputs outside the domain give the empty set, unbounded inputs and results beyond the largest finite number give infinite bounds, and subnormal results are rounded outward like all others.",
["inputs"],"all pairs/triples of valid intervals over binary32, binary64 and x87 extended bounds, including zeros, subnormals, infinities and operands whose result overflows or underflows",
"The tests compare a few dozen hand-picked boxes per operation (almost all binary64); sign-case branches, subnormal double rounding and overflow are sampled at single points only.",
[EF,FL+"mpfr_bin_ieee754_flavor.hpp",MVI,FRONT+"base_interval_elem_func_impl.hpp"],
[("outward-rounded MPFR evaluation with subnormalisation",EF),("sign-case analysis in mul/div/fma",EF)]))
L.append(P("P02","Powers return the tightest enclosing interval",
"For every input, raising an interval to an integer power and raising one interval to the power of another return exactly the smallest representable interval that contains every real value of the power function over the part of the inputs inside its domain. Zero and negative exponents, bases containing zero or negative numbers, and unbounded operands follow the same rule.",
["inputs"],"all intervals, all integer exponents in the int range, all pairs of intervals for the general power, in all three formats",
"Tests fix a handful of exponents and boxes; the case analysis over sign of base, parity and sign of the exponent and position of the exponent interval relative to zero is far larger.",
[EF],[("parity/sign case analysis of pown",EF),("corner selection of pow",EF)]))
L.append(P("P03","Exponentials and logarithms return the tightest enclosing interval",
"For every input interval, exp, exp2, exp10, log, log2 and log10 return exactly the smallest representable interval that contains every real value of the function over the part of the input inside its domain. The result is empty exactly when no input point is in the domain.",
["inputs"],"all valid intervals in all three formats, including arguments near 0 and 1, exact powers, and arguments whose result overflows, underflows or is subnormal",
"Correct outward rounding is a statement about an irrational value at each of 2^64 arguments; tests check a few arguments whose results were precomputed.",
[EF,MVI],[("directed MPFR evaluation at both end points",EF)]))
L.append(P("P04","Trigonometric functions and inverses enclose their true range tightly",
"For every input interval, sin, cos, tan, asin, acos, atan and atan2 return an interval that contains every real value of the function over the part of the input inside its domain, and it is the smallest such representable interval. An input containing a pole of tan gives the whole line.",
["inputs"],"all valid intervals in all three formats: any period index, huge arguments, widths around pi/2, pi and 2 pi, end points next to extrema and poles, all quadrants and axes for atan2",
"Range selection depends on which extrema or poles fall inside the box; tests pick a few boxes near the origin and cannot sample end points adjacent to extrema in every period.",
[EF],[("quadrant reasoning by sign of derivative at end points",EF),("width comparison against pi and 2 pi",EF)]))
L.append(P("P05","Hyperbolic functions and inverses return the tightest enclosing interval",
"For every input interval, sinh, cosh, tanh, asinh, acosh and atanh return exactly the smallest representable interval that contains every real value of the function over the part of the input inside its domain. The result is empty exactly when no input point is in the domain.",
["inputs"],"all valid intervals in all three formats including domain edges, tiny and overflowing arguments",
"Tests evaluate precomputed points; every argument needs its own correct outward rounding and domain clipping.",
[EF],[("directed MPFR evaluation, domain clipping",EF)]))
L.append(P("P06","Sign, rounding, absolute value, min and max have the exact range",
"For every input interval, sign, ceil, floor, trunc, round-half-even, round-half-away, abs, min and max return exactly the interval hull of the function's values over the inputs. Infinite bounds stay infinite and empty inputs give the empty set.",
["inputs"],"all valid intervals (pairs for min/max) in all three formats, including ties, huge integers and sub-unit values of both signs",
"Tests use few boxes; ties, sign and magnitude classes multiply.",
[EF],[("monotone evaluation at end points",EF)]))
L.append(P("P07","Decorations never claim more than is true and propagate the weakest",
"For every decorated forward operation the interval part equals the bare result and the decoration is the minimum of the input decorations and the strongest decoration that the operation's definedness, continuity and boundedness on the input box justify. A not-an-interval input gives not-an-interval, and 'common' is never attached to an unbounded or empty result, whatever chain of operations produced it.",
["inputs","histories"],"all forward functions, all decorated inputs of every decoration, all chains of operations and format conversions",
"Tests check a few box/decoration combinations per function; the guarantee is about every box (domain edges, discontinuities, overflow) and about chains.",
[EF,"p1788/decoration/decoration.hpp",FL+"mpfr_bin_ieee754_flavor.hpp"],[("local decoration computed from domain test and combined with min",EF)]))
L.append(P("P08","Comparison relations agree with their set definitions",
"Equality, subset, less, precedes, interior, strict less, strict precedes, disjointness, membership, emptiness, entirety, singleton and common tests return true exactly when the mathematical relation between the two sets of reals holds, including for empty and unbounded intervals. They ignore decorations, return false whenever an operand is not-an-interval, and give the same answer whatever mix of number formats is compared.",
["inputs"],"all pairs of bare or decorated intervals in every combination of formats, including values representable in only one of the formats",
"Truth tables over empty/unbounded/touching/nested configurations with mixed formats are far larger than the tested samples.",
[F("bool_func"),F("rec_bool_func"),FRONT+"base_interval_bool_func_impl.hpp",FRONT+"base_interval_rec_bool_func_impl.hpp"],[("end-point comparison with infinity cases",F("bool_func"))]))
L.append(P("P09","The overlap state is the unique one describing the two intervals",
"For any two intervals the overlap query returns exactly the one of the sixteen states whose end-point relation holds, with the dedicated states for empty operands, and the undefined state exactly when an operand is not-an-interval. Swapping the operands yields the converse state, and the answer does not depend on number formats or decorations.",
["inputs"],"all pairs of bare or decorated intervals, all mixed formats",
"The classification is a partition over all end-point orders (singletons, shared bounds, infinities); tests sample each state a few times.",
[F("rec_overlap"),"p1788/overlapping/overlapping.hpp"],[("ordered end-point case analysis",F("rec_overlap"))]))
L.append(P("P10","Intersection and hull are the exact set operations",
"Intersection returns exactly the set of common points and convex hull the smallest interval containing both operands (rounded outward to the result format when formats are mixed), with the empty set as zero and identity element respectively. Decorated results carry the decoration 'trivial', and not-an-interval operands give not-an-interval.",
["inputs"],"all pairs of bare or decorated intervals in every mix of argument and result formats",
"Tests use a handful of pairs; mixed formats with bounds not representable in the result format are barely touched.",
[F("set_op"),FRONT+"base_interval_set_op_impl.hpp"],[("max/min of bounds, outward conversion",F("set_op"))]))
L.append(P("P11","Numeric functions of an interval are correctly rounded and consistent",
"Infimum, supremum, midpoint, radius, width, magnitude and mignitude return the correctly rounded real quantity of the interval (bounds and mignitude outward, width, radius and magnitude upward, midpoint to nearest) and NaN for the empty set and not-an-interval, except the documented infinite bounds for the empty set. Midpoint and radius always satisfy: the midpoint is finite and [mid-rad, mid+rad] contains the interval, also when bounds are infinite, overflow when added, or differ in format.",
["inputs"],"all bare and decorated intervals in all formats and result formats",
"Few points are tested; the enclosing relation between midpoint and radius must hold for all bounds.",
[F("num_func"),FRONT+"base_interval_num_func_impl.hpp"],[("directed rounding through MPFR",F("num_func"))]))
L.append(P("P12","Constructors produce only valid intervals and report invalid bounds",
"Every construction from one or two numbers, from an interval and a decoration, or by setting a decoration yields a valid object: the tightest enclosure of the requested set when the request is meaningful, otherwise the empty set (bare) or not-an-interval (decorated) together with the matching exception flag. A decoration that does not fit the interval is weakened or rejected so that no object ever carries an inconsistent decoration.",
["inputs"],"all bound values (NaN, infinities, reversed order, signed zeros, values of wider formats) and all decorations, legal or not",
"Tests enumerate few constructions; consistency must hold for all bounds and decoration values.",
[F("class"),F("validation_func"),FRONT+"interval.hpp",FRONT+"decorated_interval.hpp","p1788/decoration/decoration.hpp"],[("validity test before storing, signalling on failure",F("class"))]))
L.append(P("P13","Mixed-format operations and conversions round once, outward",
"Converting an interval to another number format returns the smallest interval of that format containing it, and an operation whose arguments and result have different formats returns the same interval as computing exactly on the given arguments and rounding outward once to the result format. A common decoration is reduced when the converted result becomes unbounded, and widening conversions lose nothing.",
["inputs","configurations"],"all operations, all assignments of the three formats to arguments and result, all inputs",
"Only a few format combinations and values are tested; double rounding and overflow to infinity only show for special values.",
[F("util_func"),F("class"),"p1788/util/mixed_type_traits.hpp",EF],[("compute in the widest format then convert hull",EF)]))
L.append(P("P14","Cancellative addition and subtraction recover the tightest solution",
"When the first operand is bounded and at least as wide (exactly, not after rounding) as the second, cancellative subtraction and addition return the tightest representable interval containing the unique interval that added to (subtracted from) the second gives the first. In all other cases they return the whole line, or the empty set when the first operand is empty and the second bounded, and decorated results are 'trivial'.",
["inputs"],"all pairs of bare or decorated intervals, including operands whose widths differ by less than rounding error",
"The exact width comparison matters only for pairs whose rounded widths coincide; no test samples them systematically.",
[F("cancel_func"),"p1788/util/mpfr_util.hpp"],[("exact width comparison by error-free transformation",F("cancel_func"))]))
L.append(P("P15","Two-output division returns the exact split of the solution set",
"Given divisor and dividend intervals, the two-output division returns the tightest enclosures of the (at most two) parts of the set of all x with b*x in c for some b in the divisor, in ascending order, with the empty set for missing parts. Decorations are weakened correctly and invalid or not-an-interval input gives not-an-interval in both parts.",
["inputs"],"all pairs of bare or decorated intervals in all format mixes, including divisors with zero at a bound or in the interior",
"Zero placement times sign of dividend times infinities is sampled only a few times.",
[F("mul_rev_to_pair_func")],[("case analysis on zero containment",F("mul_rev_to_pair_func"))]))
L.append(P("P16","Reverse algebraic operations return the tightest hull of all preimages",
"Reverse square, absolute value, integer power, hyperbolic cosine and multiplication return exactly the smallest representable interval containing every point of the constraint interval that the forward operation maps into the target interval (for multiplication and negative powers the limits of such points are included), and the empty set exactly when there is none. Decorated results are 'trivial' and the result never leaves the constraint interval.",
["inputs"],"all target/constraint intervals in all formats, all integer exponents",
"Tests use isolated boxes; bounds coinciding after rounding, negative exponents and zero-straddling targets are decisive and sparse.",
[RF,F("mul_rev_to_pair_func")],[("branch-wise inverse intersected with the constraint",RF)]))
L.append(P("P17","Reverse periodic functions lose no solution",
"Reverse sine, cosine and tangent return an interval that lies inside the constraint interval and contains every point of it that the forward function maps into the target interval. The result is empty only when there is no such point, and it is not wider than needed: near each of its bounds, within a few units in the last place, the forward function does reach the target interval, as long as the bound is small enough for the format to tell the periods apart.",
["inputs"],"all target intervals and all constraint intervals, of any magnitude and width, in all formats",
"Losing a solution needs a particular period index or argument magnitude; tests look at small arguments only.",
[RF],[("period index from argument reduction, one box per end of the constraint",RF)]))
L.append(P("P18","Reductions are correctly rounded",
"Sum, sum of absolute values, sum of squares and dot product return the exact real result rounded once in the requested direction, independent of the order of the elements, of intermediate overflow, underflow or cancellation. Infinite and NaN elements give the corresponding infinite or NaN result, and empty ranges give zero.",
["inputs"],"all finite sequences of numbers in all formats and all four rounding directions",
"Tests sum a few short vectors; accuracy under cancellation and range overflow depends on the data.",
["p1788/reduction/reduction.hpp"],[("exact accumulation of error terms",'p1788/reduction/reduction.hpp')]))
L.append(P("P19","Reading text yields the tightest interval or a reported failure",
"Reading a valid interval literal (empty, entire, inf-sup with decimal, rational or hexadecimal bounds, uncertain forms, optional decoration) returns the tightest representable interval containing the exact value of the literal. Constructing from text that is not a valid literal gives the empty set or not-an-interval and raises the undefined-operation flag; extracting such text from a stream sets the stream's fail state and leaves the target unchanged, as does an extraction that fails because the source breaks before the end of the literal is known. No text crashes the program or raises an unrelated exception.",
["inputs"],"all character sequences, all formats, all settings of the stream (number base, exception mask), sources that end or break after any number of characters",
"The literal grammar is infinite; tests list some dozens of literals.",
[F("io"),"p1788/util/io.hpp"],[("regular-expression parse and directed conversion",F("io"))]))
L.append(P("P20","Printed intervals contain the interval and can be read back",
"Whatever output format, precision and width is selected, the text written for an interval denotes an interval that contains it, with the same decoration, and reading that text back (when it is written with brackets) gives an interval containing the original. Hexadecimal output with default precision reads back as exactly the same interval.",
["inputs","configurations"],"all intervals and decorated intervals in all formats, all settings of all manipulators and of the stream (width, number base, alignment)",
"Outward rounding of decimal output must hold for every value and precision; tests compare a few strings.",
[F("io"),MVI],[("directed decimal/hex conversion, ulp-count for uncertain form",F("io"))]))
L.append(P("P21","Output manipulators act exactly as selected, per stream, until changed",
"Each manipulator changes only its own aspect of the output (form, number representation, precision, width, letter case, brackets, special and decoration notation) on the stream it was applied to and stays in force until changed. Output on one stream never depends on manipulators applied to another stream, nor on values written before.",
["histories","configurations"],"all sequences of manipulator applications and insertions on several streams",
"Interference between settings or streams depends on the sequence; tests use one fresh stream and few combinations.",
["p1788/io/io_manip.hpp",F("io"),"p1788/decoration/decoration.hpp","p1788/overlapping/overlapping.hpp"],[("per-stream storage of settings","p1788/io/io_manip.hpp")]))
L.append(P("P22","Exception flags are sticky, maskable and private to each thread",
"Signalling a condition sets exactly its flag, flags stay set until cleared, and a condition throws its matching exception exactly when enabled in the control word, after the flag is set. Flags and control word of one thread are never read or changed by operations in another thread.",
["histories","schedules"],"all sequences of operations, clears and control-word changes, in all interleavings of several threads",
"Tests run single-threaded short sequences; isolation is a statement about every interleaving.",
["p1788/exception/exception.hpp"],[("flag word and control word","p1788/exception/exception.hpp")],[("exception state","sticky flag word","p1788/exception/exception.hpp"),("control word","which conditions throw","p1788/exception/exception.hpp")],["state() and get_throw_exception_cwd() after each call"]))
L.append(P("P23","Flags are raised exactly when an operation's contract says so",
"An operation raises the invalid-operand flag exactly when an operand is not a valid object, the undefined-operation flag exactly when a construction from numbers, decorations or text has no value, and the interval-part-of-NaI flag exactly when the interval part of a not-an-interval is taken; valid operands raise nothing. Not-an-interval and empty operands propagate as such through every operation without other side effects.",
["inputs","histories"],"all operations, all operands including NaI, empty and NaN parameters, any prior flag state",
"Tests check a few operations per flag; absence of spurious or missing flags must hold for all operations and inputs.",
[F("validation_func"),F("class"),F("cancel_func"),F("bool_func"),EF,RF],[("validity check at every entry",F("validation_func"))]))
L.append(P("P24","Results depend only on the arguments, not on what ran before or beside",
"Every operation returns the same result for the same arguments whatever operations, in whatever formats, were executed before it, and whatever operations run concurrently in other threads. In particular working with another number format, printing, parsing or failing operations leave no trace in later results, and neither arithmetic nor text depends on the locale.",
["histories","schedules","configurations"],"all sequences of operations over several formats, all concurrent executions, all locales of the process",
"Hidden global arithmetic settings only matter after particular predecessors; the tests run each operation mostly in one format per binary.",
[MV,MVI,EF,RF,F("num_func"),F("cancel_func"),F("io"),"p1788/reduction/reduction.hpp"],[("exponent range installed before each evaluation",MVI)],[("arithmetic environment","global exponent range used by the number library",MVI)]))
with open("/verif/properties.jsonl","w") as f:
    for p in L: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in L:
    jsonschema.validate(p,s); assert len(p["title"])<=80,p["title"]
    import os
    for fn in p["anchors"]["files"]: assert os.path.exists("/repo/"+fn),fn
print(len(L))
