#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
H = "include/bwsl/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[H + f for f in files],
                          mechanism=[dict(name=n, where=H + w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=H + c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Grid site indices and coordinates are inverse bijections",
  "For a grid of any dimension and any side lengths, converting a site index to coordinates yields coordinates that lie on the grid, and converting them back yields the same index; conversely every on-grid coordinate vector maps to a valid index and back to itself. The numbering is row-major (the last coordinate varies fastest), the number of sites is the product of the sides, and a coordinate vector is reported as on the grid exactly when every component is non-negative and below its side.",
  ["inputs", "configurations"], "all dimensions, side lengths, site indices and coordinate vectors",
  "The tests round-trip the 12 sites of one 3x4 grid; other dimensions, unequal sides and large indices are never reached.",
  ["HyperCubicGrid.hpp", "MathUtils.hpp"],
  [("array_to_index / index_to_array", "MathUtils.hpp"), ("GetCoordinates, GetIndex, IsOnGrid", "HyperCubicGrid.hpp")],
  ["coordinates of an index", "index of coordinates", "on-grid test", "number of sites"])

p("C02", "Closed-boundary wrapping and relative-site mapping are exact translations",
  "On a grid or lattice with closed boundaries, wrapping any coordinate vector leaves it on the grid and changes each component only by a multiple of its side; on a grid with open boundaries wrapping changes nothing. The relative site of b as seen from a is the site whose coordinates are the wrapped difference, un-mapping it from a gives back b, a site relative to itself is site 0, and shifting both sites by the same translation leaves the relative site unchanged.",
  ["inputs", "configurations"], "all closed grids, all pairs of sites and all coordinate vectors, inside or outside the grid",
  "One 3x4 grid is tested; coordinates several periods outside the grid and other shapes are not.",
  ["HyperCubicGrid.hpp", "Lattice.hpp", "MathUtils.hpp"],
  [("EnforceBoundaries", "HyperCubicGrid.hpp"), ("EnforceBoundaries", "Lattice.hpp"), ("GetMappedSite, GetUnMappedSite", "HyperCubicGrid.hpp")],
  ["relative site", "un-mapped site", "wrapped coordinates"])

p("C03", "Jumps are the minimal periodic displacement and windings count them",
  "The jump from site a to site b on a closed grid is congruent to the coordinate difference modulo each side and each component lies in (-side/2, side/2]; on an open grid it is exactly the coordinate difference. On a lattice, the winding computed from the accumulated jumps of any closed path is the exact number of signed turns around each direction.",
  ["inputs", "configurations", "histories"], "all grids, all site pairs, all closed paths of sites",
  "Four site pairs on a 3x4 grid are tested (one even and one odd side); winding is not tested at all.",
  ["HyperCubicGrid.hpp", "Lattice.hpp"],
  [("GetJump", "HyperCubicGrid.hpp"), ("GetWinding", "Lattice.hpp")],
  ["jump vector", "winding vector"])

p("C04", "Pair indices encode ordered pairs of sites one to one",
  "Encoding an ordered pair of site numbers below n as a single pair index gives a value below the number of pairs (n squared), and decoding it returns exactly the same ordered pair; decoding any pair index below n squared gives two numbers below n that encode to it again. The grid's pair numbering is this same encoding with n the number of sites.",
  ["inputs"], "all n, all pairs below n, and all pair indices below n squared",
  "One n (489) is tested and only for pairs with first <= second.",
  ["Pairs.hpp", "HyperCubicGrid.hpp"],
  [("GetPairIndex, GetPair, GetNumPairs", "Pairs.hpp"), ("GetPairIndex, GetIndividualIndices", "HyperCubicGrid.hpp")],
  ["pair index", "decoded pair"])

p("C05", "Bravais positions and displacements follow the primitive vectors",
  "For a Bravais lattice with any primitive vectors, the real-space position of a point is the integer combination of the primitive vectors given by its coordinates, the displacement between two points is the position of their coordinate difference, and the distance is the Euclidean norm of that displacement. Hence distance is symmetric, non-negative, zero from a point to itself, and unchanged when both points are translated, and the combined distance-and-vector query agrees with the separate ones.",
  ["inputs", "configurations"], "all dimensions, primitive vectors and pairs of integer points",
  "The tests evaluate three points on four predefined lattices; distances and displacements are not tested, nor any custom lattice.",
  ["Bravais.hpp"], [("GetRealSpace, GetVector, GetDistance, GetDistanceVector", "Bravais.hpp")],
  ["position", "displacement", "distance"])

p("C06", "Reciprocal and inverse-basis queries are dual to the direct basis",
  "For a lattice given with the matrix of dual basis vectors, the reciprocal vector of integer coordinates is 2 pi times their combination of the dual vectors, and mapping the real-space position of any integer point back to the lattice basis returns that point's coordinates. For the predefined chain, square, cubic and triangular lattices the supplied dual vectors really are dual: reciprocal basis vector i times primitive vector j is 2 pi if i equals j and 0 otherwise, to rounding.",
  ["inputs", "configurations"], "all integer points and all lattices supplied with a dual basis",
  "Tests check the reciprocal vectors of three points per predefined lattice; the inverse mapping is never called.",
  ["Bravais.hpp"], [("GetReciprocalSpace, GetInverseVector", "Bravais.hpp"), ("ChainLattice ... TriangularLattice", "Bravais.hpp")],
  ["reciprocal vector", "lattice-basis coordinates"])

p("C07", "Neighbour lists are exactly the lattice's neighbours under the boundary",
  "Neighbours 2k and 2k+1 of a point of a Bravais lattice are the point plus and minus the k-th neighbour direction. On a finite lattice with closed boundaries the neighbour list of a site holds, in that order, the periodic image on the grid of every one of them; with open boundaries it holds exactly those that lie on the grid. Consequently being neighbours is symmetric, the adjacency test and coordination numbers agree with the lists, and every listed site is valid.",
  ["inputs", "configurations"], "all neighbour directions, shapes, boundaries and sites",
  "The tests list some neighbours of closed 3x3 and 3x4 square lattices; open boundaries, other dimensions, other lattices, coordination numbers and negative answers are not tested.",
  ["Lattice.hpp", "Bravais.hpp"],
  [("GetNeighbor", "Bravais.hpp"), ("ComputeNeighbors, AreNeighbors, GetCoordination", "Lattice.hpp")],
  ["neighbour list", "adjacency test", "coordination"])

p("C08", "Lattice distances are minimum-image when closed and direct when open",
  "With closed boundaries the vector between two sites is one of the periodic images of their displacement and no image in the first shell around the cell (each side shifted by -1, 0 or +1) is shorter; with open boundaries it is the plain displacement. The reported distance is the norm of the reported vector, is the same in both directions (for bases whose closest images lie in the first shell), depends only on the relative position, and is defined for every pair of valid sites; positions are the real-space positions measured from site 0.",
  ["inputs", "configurations"], "all lattices, shapes, boundaries and site pairs",
  "Only square lattices with closed boundaries are tested for distance; open boundaries, skewed lattices, vectors and positions are not.",
  ["Lattice.hpp", "Bravais.hpp", "HyperCubicGrid.hpp"],
  [("ComputeVectors, ComputeDistances, ComputePositions", "Lattice.hpp"), ("GetDistance, GetVector, GetPosition", "Lattice.hpp")],
  ["distance", "vector", "position"])

p("C09", "Lattice momenta are the distinct allowed momenta of the periodic box",
  "On a lattice with closed boundaries there is one momentum per site; its phase along the full box length in every lattice direction is a whole multiple of 2 pi (to rounding), and along direction k it is 2 pi (n_k - floor(L_k / 2)) / L_k per step, with n the site's coordinates. Momenta of different sites are therefore inequivalent and zero momentum belongs to the site at the middle of the box.",
  ["inputs", "configurations"], "all lattices, shapes and sites",
  "Momenta are not tested.",
  ["Lattice.hpp", "Bravais.hpp"], [("ComputeMomenta, GetMomentum", "Lattice.hpp"), ("GetReciprocalSpace", "Bravais.hpp")],
  ["momentum of a site"])

p("C10", "Structure factor is the normalised squared Fourier amplitude",
  "For any site occupations on a closed lattice, the structure factor at each allowed momentum equals mult times the squared modulus of the sum over sites of occupation times exp(i k.r), divided by the squared number of sites (to rounding); it is never negative and at zero momentum equals mult times the squared mean occupation. Accumulating adds exactly that to the given values, and on an open lattice accumulation changes nothing and the computed factor is all zero.",
  ["inputs", "configurations"], "all occupations, multipliers, previous values and lattice shapes",
  "The structure factor is not tested.",
  ["Lattice.hpp"], [("AccumulateSk, ComputeSk", "Lattice.hpp")], ["structure factor vector"])

p("C11", "Exported lattice tables list every row and column consistently",
  "Each exported table (positions, distances, momenta, pairs) starts with a header naming exactly the columns of the rows that follow and contains one row per site in index order (per ordered pair in pair-index order for the pairs table). The values in a row are those the query functions return for that site or pair.",
  ["inputs", "configurations"], "all lattices, shapes and boundaries for which the table is defined",
  "No export is tested.",
  ["Lattice.hpp", "Pairs.hpp"], [("SavePositions, SaveDistances, SaveMomenta, SavePairs", "Lattice.hpp")],
  ["rows written to the output file"])

p("C12", "Rational arithmetic is exact",
  "The sum, difference, product and quotient of two rational numbers, or of a rational and an integer in either order, equals the exact mathematical result whenever the intermediate cross products fit the integer type and no division by zero is requested. This includes negative values and divisors, and results built from parsed numbers; conversion to an integer truncates the exact value and conversion to double is its nearest quotient.",
  ["inputs"], "all numerators and non-zero denominators, both signs, for which cross products do not overflow",
  "Two positive fractions and positive integers are tested.",
  ["RationalNum.hpp", "MathUtils.hpp"], [("operator+ - * /", "RationalNum.hpp"), ("Simplify", "RationalNum.hpp"), ("get_gcd", "MathUtils.hpp")],
  ["numerator and denominator of the result", "conversions", "integer test"])

p("C13", "Rational comparisons agree with the numerical values",
  "Comparing two rational numbers, or a rational number with an integer on either side, with any of <, <=, >, >=, == and != gives the answer of the exact values they represent, for either sign of numerator and denominator, whenever the cross products fit the integer type. The comparisons thus form a total order, and equality means equal values.",
  ["inputs"], "all pairs of rationals and integers of both signs without overflow",
  "Two positive fractions are compared; comparisons with integers and negative values are not tested.",
  ["RationalNum.hpp", "RelationalUtils.hpp"], [("operator<", "RationalNum.hpp"), ("TEMPLATEOVERLOADRELATIONAL", "RelationalUtils.hpp")],
  ["comparison results"])

p("C14", "Rationals stay in lowest terms and survive printing and parsing",
  "Every rational number constructed, computed or parsed is in lowest terms with a positive denominator, so equal values have identical numerator and denominator. Its text form is numerator, two slashes, denominator; parsing the text form of any rational returns the same rational, parsing any 'p//q' with non-zero q returns p/q, and text with a wrong or missing separator, missing number or zero denominator is rejected with the parsing error.",
  ["inputs"], "all numerators and denominators, all strings",
  "One string, '3//2', is parsed; nothing is printed; no malformed text is tried; signs of canonical forms are not observed.",
  ["RationalNum.hpp", "Exceptions.hpp"], [("Simplify", "RationalNum.hpp"), ("operator<<, operator>>, FromString, ToString", "RationalNum.hpp")],
  ["numerator/denominator", "text form", "parse error"])

p("C15", "Compensated sums count every value and recover lost low-order parts",
  "The Kahan and Neumaier accumulators report the number of values added since construction or reset, the exact sum of any sequence whose partial sums are exactly representable, and the mean as that sum divided by the count. Adding a large value, then small values that plain addition would lose, then removing the large value leaves the Neumaier sum equal to the sum of the small values, and the Kahan sum keeps the low-order part lost by the latest addition. Copies behave like the original and a reset accumulator behaves like a new one.",
  ["inputs", "histories"], "all finite sequences of finite doubles whose sums do not overflow",
  "Three fixed sequences are tested.",
  ["accumulators/KahanAccumulator.hpp", "accumulators/NeumaierAccumulator.hpp", "Accumulators.hpp"],
  [("Add, Sum, Mean, Count, Reset", "accumulators/KahanAccumulator.hpp"), ("Add, Sum, Mean, Count, Reset", "accumulators/NeumaierAccumulator.hpp"), ("apply_accumulator", "Accumulators.hpp")],
  ["sum", "mean", "count"])

p("C16", "Running statistics match the textbook mean and variance",
  "After any sequence of measurements the running-statistics accumulators (unweighted, weighted and integer) report the count, sum, mean and the requested variance (population, sample, frequency- or reliability-corrected), deviation and error equal to their textbook definitions up to rounding, and the variance is never negative. Measurements with a non-positive weight are ignored, variances of fewer than two measurements are NaN, and resetting restores the initial state.",
  ["inputs", "histories"], "all sequences of measurements and weights",
  "None of these accumulators is tested.",
  ["accumulators/KnuthWelfordAccumulator.hpp", "accumulators/WestAccumulator.hpp", "accumulators/NaiveIntegerAccumulator.hpp"],
  [("Add, Variance, Error", "accumulators/KnuthWelfordAccumulator.hpp"), ("Add, *Variance", "accumulators/WestAccumulator.hpp"), ("Add, Variance", "accumulators/NaiveIntegerAccumulator.hpp")],
  ["count", "sum", "mean", "variance"])

p("C17", "Checked accumulators refuse a measurement that would overflow, and only then",
  "When the library is built with accumulator checks, adding a measurement to an accumulator whose counter is at its maximum raises the overflow error and leaves the accumulator unchanged, and the integer accumulator also raises it when the new sum or sum of squares would not fit. In every other state, including negative values, adding succeeds and has exactly the effect it has without the checks.",
  ["inputs", "histories", "configurations"], "all accumulator states and measurements",
  "The checks are not compiled in by the tests, and the states at which they matter cannot be reached by adding values one at a time.",
  ["accumulators/KahanAccumulator.hpp", "accumulators/NeumaierAccumulator.hpp", "accumulators/KnuthWelfordAccumulator.hpp", "accumulators/WestAccumulator.hpp", "accumulators/NaiveIntegerAccumulator.hpp", "accumulators/AccumulatorsExceptions.hpp"],
  [("BWSL_ACCUMULATORS_CHECKS blocks of Add", "accumulators/KahanAccumulator.hpp")],
  ["exception or effect of adding a value"])

p("C18", "Histograms attribute every measurement to its bin and normalise correctly",
  "A histogram's result for a bin is the sum of the values added to that bin divided by the total number of measurements (zero for a bin without any), per-bin and total counts match the additions made, and forced additions grow the histogram to just include the bin without touching the others. Normalised results are every bin's result divided by the result of the chosen bin. Resizing keeps surviving bins, and resetting clears all bins and counts but keeps the number of bins.",
  ["inputs", "histories"], "all sequences of additions, forced additions, resizes and resets, all bins and values",
  "One construction and one sequence of unit additions are tested; normalised results, forced additions, resizing, resetting are not.",
  ["HistAccumulator.hpp", "accumulators/NeumaierAccumulator.hpp"],
  [("Add, ForceAdd, Resize, Reset, GetResult(s)", "HistAccumulator.hpp")], ["bin results", "counts", "number of bins"])

p("C19", "Checkpointed statistics resume exactly",
  "Saving any accumulator, histogram, observable group or move statistics in any state and loading it into another object of the same type, whatever that held before, gives an object whose every reported quantity equals the original's and which behaves identically under any further operations. Saving does not change the saved object.",
  ["inputs", "histories", "crash_points"], "all states reachable or restorable, all later operations",
  "Serialization is not tested.",
  ["accumulators/KahanAccumulator.hpp", "accumulators/NeumaierAccumulator.hpp", "accumulators/KnuthWelfordAccumulator.hpp", "accumulators/WestAccumulator.hpp", "accumulators/NaiveIntegerAccumulator.hpp", "HistAccumulator.hpp", "ObservableGroup.hpp", "mcutils/MoveStats.hpp"],
  [("serialize", "HistAccumulator.hpp"), ("serialize", "mcutils/MoveStats.hpp"), ("serialize", "ObservableGroup.hpp")],
  ["reported quantities after restore"])

p("C20", "Random generators resume their sequence after a checkpoint",
  "Saving a Mersenne-twister engine to an archive and loading it into any other engine of the same type makes the second one equal to the first, so it produces the identical sequence, and leaves the saved engine untouched. Loading from text that does not parse as an engine state raises an invalid-argument error.",
  ["inputs", "crash_points"], "all engine states and all archive texts",
  "Random-generator serialization is not tested.",
  ["RNGUtils.hpp"], [("save, load, serialize", "RNGUtils.hpp")], ["generated sequence", "exception"])

p("C21", "Move statistics enforce the propose-then-resolve protocol and stay balanced",
  "A proposal is only accepted when none is pending and an acceptance, rejection or impossibility only when one is; any other call raises the invalid-sequence error and changes nothing observable. At every point proposals equal acceptances plus rejections plus impossibles (plus one if pending), each reported ratio is its count over the proposals, the average probability is the mean over resolved moves (impossible ones count as zero), and adding a move result equals proposing it and resolving it accordingly. Resetting clears everything but the name.",
  ["histories", "inputs"], "all sequences of calls and all probabilities",
  "One legal sequence is tested; no illegal call, impossible move, result object or reset is.",
  ["mcutils/MoveStats.hpp", "mcutils/MoveResult.hpp", "mcutils/MoveStatus.hpp"],
  [("UpdateIfProposed, UpdateIfNotProposed, Add", "mcutils/MoveStats.hpp")], ["ratios", "average probability", "exceptions"])

p("C22", "Observable groups route measurements by key and write aligned rows",
  "A measurement is added to exactly the observable with the given key, and measuring an unknown key raises an out-of-range error and changes nothing. The header line lists the keys in ascending order followed by the count column; each output row lists, in the same order, the mean of each observable since the previous row with the requested precision, followed by the number of measurements, and then starts every observable afresh. Adding an existing key keeps its data.",
  ["histories", "inputs"], "all key sets, measurement sequences and precisions",
  "Observable groups are not tested.",
  ["ObservableGroup.hpp", "accumulators/KahanAccumulator.hpp"],
  [("Measure, PrintHeaders, PrintAndReset, AddObservable", "ObservableGroup.hpp")], ["output lines", "exception"])

p("C23", "Enum values and their names convert back and forth",
  "For an enumeration defined with string conversions, the text of each enumerator is its name and converting that text back gives the enumerator. Any text that is not exactly one of the names is refused with the enumeration's conversion error, whose message names the offending text and the enumeration, and leaves the target value unchanged; values that are not enumerators print as unknown.",
  ["inputs"], "all enumerator values and all strings",
  "One name is converted each way; failure is not tested.",
  ["EnumString.hpp"], [("ToString, FromString, EnumStringConversionFailed", "EnumString.hpp")], ["string", "value", "exception message"])

p("C24", "Tolerant comparisons are consistent with the stated tolerance",
  "A number equals an approximate value exactly when their absolute difference is at most the larger of the absolute tolerance and the relative tolerance times the magnitude of the approximate value, on whichever side the approximate value stands. Inequality is the negation of equality, less-or-equal and greater-or-equal hold when strictly ordered or equal, strict comparisons hold when ordered and not equal, and the sign of a given tolerance does not matter.",
  ["inputs"], "all doubles and all tolerances",
  "Tolerant comparison is not tested.",
  ["Approx.hpp"], [("operator== != <= >= < >", "Approx.hpp"), ("SetAbs, SetRel", "Approx.hpp")], ["comparison results"])

p("C25", "Linear and logarithmic ranges visit the promised points",
  "Iterating a linear range from first to last in n steps visits exactly n values, the i-th being first plus i times the step, without reaching last; a logarithmic range visits exactly n values starting at first and multiplying by a constant ratio, the end sentinel standing for last. Prefix, postfix and call-style stepping and collecting agree with iteration, collecting does not disturb the range, and starting over always begins at first.",
  ["inputs", "histories"], "all end points, step counts and interleavings of operations",
  "Ranges are not tested (the linear range cannot even be iterated in a test program that is linked).",
  ["LinSpace.hpp", "LogSpace.hpp"], [("operator++, begin, end, Collect", "LinSpace.hpp"), ("operator++, begin, end, Collect", "LogSpace.hpp")], ["values visited", "number of steps"])

p("C26", "File comparison is true exactly for readable identical files",
  "Comparing two files reports equality if and only if both can be opened, have the same length and the same bytes; any difference in length, in any byte at any position, or a file that cannot be opened gives inequality. The result does not depend on the order of the two files.",
  ["inputs", "fault_sequences"], "all contents and lengths of both files, either of them missing",
  "File comparison is not tested.",
  ["FileUtils.hpp"], [("compare_files", "FileUtils.hpp")], ["comparison result"])

p("C27", "Interpolated search finds the upper bound of any sorted range",
  "For every non-empty sorted range and every value, the interpolation/binary search returns the first position whose element is greater than the value, or the end if there is none, and it terminates without reading outside the range. This holds for ranges below and above the size at which interpolation starts, with repeated elements and unevenly spaced elements.",
  ["inputs"], "all sorted ranges (small and beyond 10000 elements) and all values",
  "The search is not tested.",
  ["MathUtils.hpp"], [("upper_bound", "MathUtils.hpp")], ["returned position", "termination", "memory accesses"])

p("C28", "Random choice returns a valid, possible outcome for every generator",
  "For any list of non-negative weights with a positive normal total and any output of the random generator, choosing by weights or by cumulative weights returns an index inside the list whose weight is positive, namely the interval of the cumulative sums containing the drawn number. Choosing with probability p is never true for p at most 0, always true for p at least 1, and otherwise true exactly when the drawn uniform number is below p.",
  ["inputs"], "all weights and all generator outputs",
  "Random choice is not tested.",
  ["MathUtils.hpp"], [("choose_between, choose_between_psums, choose_with_probability", "MathUtils.hpp")], ["chosen index", "decision"])

p("C29", "Integer helpers compute the exact mathematical value",
  "For all arguments whose exact result and intermediate products fit the type, the greatest common divisor divides both arguments and is divisible by every common divisor, the binomial coefficient satisfies its definition (zero when k exceeds n, symmetric, Pascal's rule), the absolute difference and the signed difference of unsigned values are exact, and the sign function returns -1, 0 or 1 according to the sign of its argument. Square and cube are the exact powers.",
  ["inputs"], "all arguments in range, signed and unsigned types",
  "Only the gcd is exercised, indirectly, by a few rational numbers.",
  ["MathUtils.hpp"], [("get_gcd, cbinomial, absdiff, signeddiff, sgn, square, cube", "MathUtils.hpp")], ["returned value"])

p("C30", "Container and interpolation helpers apply their formula element by element",
  "Sum, product, maximum, minimum, sum of squares and norm of a container, element-wise addition, subtraction and negation of containers give the exact element-wise results for any contents and length, without modifying inputs that are not the target. The step functions are 0 below, 1 above and at zero the stated convention, and linear interpolation returns the end points exactly at parameter 0 and 1 and the linear combination elsewhere.",
  ["inputs"], "all contents and lengths, all parameters",
  "None of these is tested directly.",
  ["MathUtils.hpp"], [("accumulate_*, max, min, sum_squared, l2norm, sum_into, subtract_into, invert, get_inverted, heaviside, heaviside2, lerp, lerpi", "MathUtils.hpp")], ["returned value", "modified container"])

p("C31", "Relational operators derived from less-than are mutually consistent",
  "For any type pair equipped by the relational macros, the generated ==, !=, <=, > and >= give exactly the answers implied by the underlying less-than (and equality where that is supplied) in both argument orders, for every pair of values. In particular exactly one of <, == and > holds whenever less-than is a strict weak order.",
  ["inputs"], "all operand values and all underlying less-than relations",
  "Only three of the generated operators are used, by two rational numbers.",
  ["RelationalUtils.hpp"], [("OVERLOADRELATIONAL, OVERLOADRELATIONALNOEQ, TEMPLATEOVERLOADRELATIONAL", "RelationalUtils.hpp")], ["comparison results"])

p("C32", "Feeding a range equals adding its elements one by one",
  "For every range and every accumulator in any state, apply_accumulator leaves the accumulator in exactly the state reached by adding the elements of the range one after the other in order, each exactly once; an empty range changes nothing. It returns the very accumulator it was given, and neither the elements nor anything outside the range is read or changed.",
  ["inputs"], "all ranges (any container, any length, any sub-range), all accumulators and prior states",
  "apply_accumulator is exercised only on whole vectors of random values.",
  ["Accumulators.hpp", "accumulators/"], [("apply_accumulator", "Accumulators.hpp")], ["accumulator results afterwards", "returned reference", "the range"])

p("C33", "Printed move statistics and error messages report the true values",
  "Streaming the statistics of a move with at least one proposal writes `name(accepted = a, rejected = r, impossible = i, probability = p)` where the four numbers are the ratios and the average probability the object reports, in scientific notation with three digits, whatever the name contains; nothing else is written, the statistics are unchanged and the stream is returned. A refused call's exception names the move it was refused for, an invalid-probability exception shows the value, and messages survive copying the exception.",
  ["inputs"], "all histories, names and probabilities",
  "No test prints statistics or looks at a message.",
  ["mcutils/MoveStats.hpp", "Exceptions.hpp", "accumulators/AccumulatorsExceptions.hpp"], [("operator<<", "mcutils/MoveStats.hpp"), ("MoveInvalidSequence, InvalidProbability", "mcutils/MoveStats.hpp"), ("BadParsing", "Exceptions.hpp"), ("AccumulatorOverflow", "accumulators/AccumulatorsExceptions.hpp")], ["printed text", "exception messages"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
