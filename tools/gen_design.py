#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, and per property its oracle, bounds, cost and the planted bugs its check reports (tools/catches.txt)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, V)
from checks import PROPS
TOP = '''# Deciding the properties of bwsl by symbolic execution

## 1. Method

bwsl is a header-only C++17 template library, so "the real code" only exists once it is instantiated.
Every check compiles a small harness that uses nothing but the library's public API, together with the
headers in /repo's *current* working tree, to LLVM IR (clang 18, `-O1`, `-DNDEBUG` as the repository's own
build type has it) and runs that IR in `engine/`: a KLEE-class symbolic executor for LLVM IR written for
this project (`symex.cpp`, `expr.hpp`, `solver.hpp`; LLVM 18 as a library, libz3 5.3 as the solver, cvc5 and
z3 4.8 as an external portfolio for hard queries). None of the packaged engines reaches this code: CBMC's
C++ front end stops in the standard library headers, and no KLEE is installed.

* **Inputs** are symbolic bit-vectors (integers, bytes, IEEE doubles and floats). A harness asks for a value
  with `symS/symU/symD/symByte(name, lo, hi)`; choices that shape memory (sizes, kinds of operation) are
  enumerated by the *solver* (`vp_concretize`: the executor asks for one feasible value after another until the
  solver says there is none left), everything else stays symbolic.
* **Branches** fork on the sides the solver finds feasible; loops are unrolled as long as their condition is
  feasible (there is no silent unwinding limit: running out of steps, paths or time is reported as INCOMPLETE).
* **Memory** is byte-precise; every load and store is checked (bounds, lifetime, double free); reaching `unreachable`, an uncaught exception, `abort`, a division by zero and similar are
  violations. Signed overflow and shifts are followed with wrap-around semantics as compiled.
* **Assertions** are decided for all values of a path at once: negation unsatisfiable = shown; satisfiable = a
  counterexample, which is *replayed natively* (the same harness compiled by g++ against the real library, real
  fmt and real files with AddressSanitizer and UBSan, inputs fed from the model). Only a violation that
  reproduces is printed as `VIOLATION property=.. replay=..`; the replay script is kept in `build/replay/`. A model that does not
  reproduce is listed under `unconfirmed` in the evidence and means that encoding or stub is wrong (there is none on this tree).
* **Two readings of floating point.** *Exact mode* follows IEEE arithmetic bit by bit (z3's FPA theory, plus
  sound rewritings: doubles that are known to hold integers below 2^53 are reasoned about as integers,
  intervals decide comparisons). *Real mode* (`real` jobs) reads double arithmetic as exact real arithmetic:
  there the solver decides identities over all real inputs, which IEEE bit-blasting cannot; rounding is not
  modelled, so each property decided in real mode also has an exact-mode job (integer-valued or enumerated
  operands, long concrete runs) which notices truncation to a narrower type or a lost bit.
* **Transcendental functions** of concrete arguments are evaluated; of symbolic arguments they are
  uninterpreted functions with sound axioms (ranges, sqrt(x)^2 = x).
* **Undecided queries** go to the portfolio with a longer limit; what stays undecided is tried on *slices* (the
  solver first picks concrete values for some variables) only to find counterexamples, never to claim that something holds;
  the result is then INCOMPLETE and the evidence says `exhaustive: false`. On the unchanged tree no quick
  check is incomplete.
* **Vacuity.** Every job names the cover points it must reach, with a satisfiable path; a job that does not reach one is an error
  (exit 2) unless it already reported a violation or ran out of budget. `samples` paths per job are replayed natively as a
  translation check: the values observed in the native run (`vp_obs_*`), the assertions and the cover points have to agree with the
  executor's prediction for that model (`traces_validated_against_impl`, "paths replayed natively").

### What is modelled rather than executed

| piece | treatment |
|---|---|
| file and string streams, `<iomanip>`, fmt | `harness/stubs/std`: in-memory files and streams that may hold symbolic characters. Integers are printed and parsed by the standard's rules; a printed floating value is one opaque item (value, precision, notation). fmt's format strings are parsed by the stub, which raises the same errors. Replays use the real library, real fmt and real files in a scratch directory. |
| boost::serialization archives | a tape of typed cells that implements the archive protocol (`harness/tape.hpp`); boost's own code for containers is executed |
| out-of-line parts of libstdc++ (exceptions, red-black tree, list hooks, string members), ldiv, strtol, ctype | `harness/support.cpp`, compiled to IR with the harness; the tree keeps the ordering contract without rebalancing |
| std::upper_bound in one C27 job | its contract (that a search of at most 10^4 sorted elements is right) |
| random generators | C28: a generator type whose outputs are symbolic; C20: libstdc++'s own engines, executed |
| iostream/file failure | a file is missing or present; I/O errors in the middle of a file are not modelled |

### Interface

`vp.py Cxx [--tier quick|thorough] [--only entry] [-v]`; exit 0 held (or: undecided, with a line INCOMPLETE that
names the job and the reason), 1 violation, 2 the check itself is broken (does not compile, vacuous). `checks.py` holds the
jobs and bounds, `tools/gen_properties.py` the property texts, `tools/gen_manifest.py` and `tools/gen_design.py`
write MANIFEST.json and this file. The encoding is rebuilt from /repo's headers on every run (nothing is cached
between runs except the engine binary, which does not depend on /repo). The checks do not look at the source text.

Known findings: none is open. `known-findings.txt` lists the nineteen defects these checks found and that were repaired
in /repo as `fix:` commits (section 3).

## 2. The properties

All @N@ properties are claimed with the solver; none is listed as not applicable. "states" are symbolic paths, each
standing for a set of inputs. Costs are those of the quick check on the 8 cores of this sandbox; the thorough
tier runs the quick jobs plus the ones marked thorough in `checks.py` with up to 25 minutes per job.

'''
HOW = {
"C01": "Oracle: row-major formula computed in the harness; round trips in both directions; IsOnGrid against componentwise comparison. Multiplications of symbolic sides are avoided by concretising the sides (small) or by fixed wide shapes (seven grids of up to 2^60 sites).",
"C02": "Oracle: congruence modulo the side and range for wrapping; for relative sites the wrapped coordinate difference computed independently; translation by a third site.",
"C03": "Oracle: |jump| <= side/2, congruent to the coordinate difference, ties positive; sums of jumps along closed walks are whole turns; on open grids the plain difference.",
"C04": "Oracle: encode and decode are inverse to each other on all pairs and all codes below n^2, and decoded sites are valid; 64-bit unsigned arithmetic is split into an integer encoding to decide multiplication by a symbolic number of sites.",
"C05": "Oracle: sum of coordinate times primitive vector, in real arithmetic for arbitrary vectors; exact mode with integer vectors pins down narrowing.",
"C06": "Oracle: the dual basis supplied by the harness (its defining equations are assumed), reciprocal vectors 2 pi times it, inverse of a position gives the coordinates back.",
"C07": "Oracle: list recomputed from the Bravais directions (opposites appended) with independent wrapping, order included; AreNeighbors against membership for every pair.",
"C08": "Oracle: the vector is one of the images of the displacement and no image of the first shell is shorter (5^d images computed in the harness); same distance in both directions; norm of the vector; plain displacement on open lattices.",
"C09": "Oracle: phase of every momentum along every box direction is a multiple of 2 pi; all distinct modulo reciprocal vectors; the zero momentum first; as many as sites.",
"C10": "Oracle: |sum o_j exp(i q.r_j)|^2 / n^2 with phases evaluated in double and amplitudes symbolic reals; accumulation adds to previous content times multiplier; open lattices untouched.",
"C11": "Oracle: the file read back cell by cell (text parsed by the harness, floating items compared by value, precision and notation) against the lattice's getters.",
"C12": "Oracle: cross-multiplication identities in the integers; wide jobs use large numerators over small denominators so that products stay representable.",
"C13": "Oracle: sign-corrected cross products for the six comparisons in both operand orders.",
"C14": "Oracle: no common divisor among all candidates; positive denominator; print gives p//q; an independent recogniser of the accepted grammar decides which texts must parse and to what.",
"C15": "Oracle: exact integer sums (values chosen so that sums are representable) in exact mode; large value in any position; counts.",
"C16": "Oracle: textbook mean and variance as rational identities in real mode; integer accumulator also bit-precisely; non-negativity.",
"C17": "Oracle: 128-bit (or two-limb) reference of the counter and the sums; refusal exactly when they would not fit, state unchanged by a refusal.",
"C18": "Oracle: per-bin list of values kept by the harness; results divided by the total; growth on forced additions; resize keeps the common prefix.",
"C19": "Oracle: the loaded object and the saved one report the same and stay the same under any continuation; saving again writes the same tape; any tape an object can be restored from is written back unchanged.",
"C20": "Oracle: equality of engines and of the following outputs against a third copy never saved; malformed texts are refused with invalid_argument.",
"C21": "Oracle: four counters, a pending flag and the sum of probabilities in the harness; refused calls change nothing.",
"C22": "Oracle: a sorted association list; header, rows and reset after a row compared textually (floating items by value and precision).",
"C23": "Oracle: list of names; every other text is refused, leaves the target alone and the message names the text.",
"C24": "Oracle: |x - v| <= max(abs, rel*|v|) in the reals and in exact integers; twelve operators derived from it.",
"C25": "Oracle: first + i*(last-first)/n, n values, last excluded; ratio form for logarithmic ranges; collect agrees with iteration.",
"C26": "Oracle: byte-wise equality of the two stored strings, both readable.",
"C27": "Oracle: first element greater than the value by linear scan (small) or by the order abstraction: elements are known only through their comparison with the value, which is all the contract depends on.",
"C28": "Oracle: the chosen index has positive weight and its cumulative interval holds the drawn number; weights and cumulative sums choose alike for the same draw; probability 0 never, 1 always.",
"C29": "Oracle: divisibility by every candidate, Pascal's triangle in 64-bit integers, exact differences and powers.",
"C30": "Oracle: element-wise formulas, inputs unchanged, references returned.",
"C31": "Oracle: truth tables: operator< is an arbitrary relation given by symbolic tables, the other five are derived.",
"C32": "Oracle: a second accumulator fed one by one; a logging accumulator and single-pass input iterators.",
"C33": "Oracle: the printed line and messages re-derived from counters kept by the harness.",
}
TAIL = '''
## 3. Defects found and repaired

Each is a separate `fix:` commit in /repo; the entries of `known-findings.txt` suppress nothing.

@FIXES@

Observed but outside the stated properties: the ratios of move statistics before anything was proposed are 0/0 (NaN) for
rejected and impossible; momenta of open lattices are not computed (SaveMomenta on an open lattice has nothing to write);
`applications/dumpmt` is a command line wrapper around C20's code and has no check of its own.

## 4. False alarms met on the way, and what was done

* C08: "distance is symmetric" is false for very narrow or skewed boxes (triangular 3 x 90: the closest image lies beyond the first
  shell of images, which the library searches by design). The property speaks of the neighbouring images;
  the lattices within the bounds of the check are those where that image lies in the first shell.
* C14: texts with trailing characters or inner blanks: the documentation does not say whether they parse; the check accepts either.
* C22: the count column when observables were measured a different number of times is not specified; not asserted.
* C20: numbers that are out of range for the engine's word: not decided by the library's documentation; excluded.
* C23: values beyond the range of the enumeration's underlying bits are undefined behaviour in the program using them; excluded.
* Engine: three mistakes found by the native replay of sampled paths and repaired (rounding of a symbolic division by a
  power of two; `llvm.load.relative` in switch tables; nearest-integer conversions of halves).

## 5. Quiet on behaviour-preserving edits

`tools/refactors.py a|b` applies two sets of some forty behaviour-preserving rewrites each (extracted helpers, reordered statements, loops
turned into algorithms and back, `/` and `%` versus subtraction loops, other containers for temporaries, ldiv, hypot, streams instead of fmt, derived
members instead of stored ones) to a copy of the headers and runs all checks. All are quiet (exit 0). In exchange for the freedom
of form, some rewrites make a job undecided (INCOMPLETE, exit 0): dividing by a symbolic 60-bit side (`c02_wide`), linear scans over
384 symbolic edges (`c28_long`), a changed association of sums in nonlinear real arithmetic (one branch of `c09_custom`),
cross products of 2^61 (`c13_wide`). The other jobs of those properties still decide.

Choices made for this reason: state is reached through public calls only (the two exceptions, `c17_*` and `c21_large`, set counters by
*value* through the class's own serialization and step aside when the representation differs); checkpoints are compared with
themselves, never with a fixed layout; printed text is compared by meaning where the documentation does not fix the form.

## 6. Planted bugs

`seeded/<id>` holds @NB@ changes, written from the property texts; `tools/plant.py SPEC` builds, runs the stable tests and the demonstration
and keeps a change only if all of that holds; `tools/catch.sh` runs the check of its property against it on scratch copies. The bugs come in
four generations (`tools/bugs`): after each, the misses were used to extend the checks - the notable extensions were: grids of up to 2^60
sites, lattices of ~300 sites (C07-C10), runs of several hundred and 65537 operations (C15-C18, C21, C25, C30, C32), other element
types (int, float, long double, lists, arrays), saved states hidden behind 2^60, all one-character edits of valid texts, values next to every power-of-two limit,
bit-precise companions of real-mode jobs (C12, C24, C30), histories of up to 900 moves before a checkpoint (C19), twenty enumerators (C23), elements spread over the whole type (C27, which led to a fix), values that are not finite (C24),
64 KiB files (C26), tables of several hundred rows (C11), 130 keys and 65537 measurements (C22). `(entry not recorded)`: the log naming the entry
that reported the bug was not kept.

@CATCH@

## 7. Not covered

* dimensions above 4 (C01-C04) and 3 (C05-C11); the loops are uniform in the dimension, but that is an argument, not a query;
* the digits of printed floating numbers (fmt and libstdc++), byte formats of boost archives;
* rounding in real-mode jobs (see section 1); statistical quality of random generators;
* concurrency: the library has no shared state and no threads;
* I/O failures in the middle of an export; `applications/dumpmt`'s command line.
'''
def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]; out = [TOP.replace("@N@", str(len(props)))]; catches = {}
    cf = V + "/tools/catches.txt"
    for l in open(cf) if os.path.exists(cf) else []:
        w = l.split(None, 4); catches[w[0]] = w
    cost = json.load(open(V + "/tools/costs.json")) if os.path.exists(V + "/tools/costs.json") else {}
    for p in props:
        i = p["id"]; c = PROPS[i]; q = [j for j in c["jobs"] if j["tier"] == "q"]; t = [j for j in c["jobs"] if j["tier"] == "t"]; k = cost.get(i, {})
        out.append(f"### {i} {p['title']}\n\n{HOW[i]}\n\n* Harness: {', '.join(sorted({'`harness/%s.cpp`' % j['tu'] for j in q}))}; entries {', '.join(sorted({'`%s`' % j['entry'] for j in c['jobs']}))}; {len(q)} quick and {len(t)} further thorough jobs.\n* Bounds: {c['bounds']}.")
        if c["outside"]: out.append(f"* Outside: {c['outside']}.")
        if c["assumptions"]: out.append(f"* Assumptions: {'; '.join(c['assumptions'])}.")
        if k: out.append(f"* Quick run: {k['states']} paths, {k['asserts']} assertions decided, {k['queries']} solver queries, {k['wall']} s.")
        out.append(f"* Why tests cannot settle it: {p['why_tests_cant']}\n")
    bugs = sorted(os.listdir(V + "/seeded")); rows = ["| bug | property | needs | reported by |", "|---|---|---|---|"]
    for b in bugs:
        m = json.load(open(f"{V}/seeded/{b}/meta.json")); w = catches.get(b); rows.append(f"| {b} | {m['property']} | {m['needs']} | {w[2] if w else '(entry not recorded)'} |")
    fixes = "\n".join("* " + l.strip()[len("fixed: property="):] for l in open(V + "/known-findings.txt") if l.startswith("fixed:"))
    out.append(TAIL.replace("@FIXES@", fixes).replace("@NB@", str(len(bugs))).replace("@CATCH@", "\n".join(rows)))
    open(V + "/DESIGN.md", "w").write("\n".join(out))
main()
