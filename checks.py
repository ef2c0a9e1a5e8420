"""Which harness entries decide which property, and within which bounds."""
def J(tu, entry, params=None, real=False, tier="q", time=100, qtime=10, xtime=30, samples=3, covers=(), flags=(), steps=2000000, paths=100000, cost=1, nosample=False, **kw):
    p = dict(params or {}); p.update(kw)
    return dict(tu=tu, entry=entry, params=p, real=real, tier=tier, time=time, qtime=qtime, xtime=xtime, samples=samples, covers=tuple(covers), flags=tuple(flags), steps=steps, paths=paths, cost=cost, nosample=nosample)
def T(*a, **k): return J(*a, tier="t", **{**dict(time=1500, qtime=60, xtime=120), **k})
PROPS = {}
def P(pid, bounds, jobs, outside="", assumptions=(), budget=300):
    PROPS[pid] = dict(bounds=bounds, jobs=jobs, outside=outside, assumptions=list(assumptions), budget=budget)

L9 = dict(steps=400000000)
P("C01", "dimension 1..5 (IsOnGrid and coordinates 1..6), every side length symbolic (1..6; 1-D up to 2^40, every site of seven grids of up to 2^60 sites, three of them 2-D..4-D; thorough up to 12), site index all 64-bit values, coordinates all on-grid values (IsOnGrid: all 64-bit coordinates, sides up to 10^6)",
  [J("grid", "c01_index", dim=1, max=1 << 40, covers=["index"]), J("grid", "c01_index", dim=2, max=6, covers=["index"]), J("grid", "c01_index", dim=3, max=4, covers=["index"], cost=5), J("grid", "c01_index", dim=4, max=3, covers=["index"], cost=9),
   J("grid", "c01_coords", dim=1, max=1 << 40, covers=["coords"]), J("grid", "c01_coords", dim=2, max=8, covers=["coords"]), J("grid", "c01_coords", dim=3, max=4, covers=["coords"], cost=5), J("grid", "c01_coords", dim=4, max=3, covers=["coords"], cost=5),
   J("grid", "c01_index", dim=5, max=2, covers=["index"], cost=4), J("grid", "c01_coords", dim=6, max=2, covers=["coords"]), J("grid", "c01_ongrid", dim=6, covers=["on", "off"]), J("grid", "c01_wide", covers=["wide"], cost=4), J("grid", "c01_ongrid", dim=1, covers=["on", "off"]), J("grid", "c01_ongrid", dim=3, covers=["on", "off"]),
   T("grid", "c01_index", dim=2, max=12, covers=["index"]), T("grid", "c01_index", dim=3, max=6, covers=["index"]), T("grid", "c01_coords", dim=3, max=8, covers=["coords"]), T("grid", "c01_coords", dim=4, max=4, covers=["coords"])],
  outside="dimensions above 5 and larger sides (the code is uniform in both), grids whose site count overflows size_t")

P("C02", "wrapping: dimension 1..4 and 6, sides up to 5 (1-D also up to 10^12 within four box lengths and 10^6 within eight), any integer coordinates in that reach; translation: every pair / triple of sites, 1-D sides up to 10^12 (triples 10^4), 2-D up to 6 (triples 3), 3-D up to 2, 4-D and 5-D up to 2 (pairs), and every pair of sites of seven grids of up to 2^60 sites",
  [J("grid", "c02_wrap", dim=1), J("grid", "c02_wrap", dim=2), J("grid", "c02_wrap", dim=3, cost=3), J("grid", "c02_wrap", dim=1, max=10**12, cost=2), J("grid", "c02_wrap", dim=1, max=10**6, wraps=8, cost=4), J("grid", "c02_wrap", dim=4, wraps=1), J("grid", "c02_wrap", dim=6, wraps=1), J("grid", "c02_mapped", dim=5, conc=1, max=2, cost=5), J("grid", "c02_wide", covers=["mapped"]), J("lattice", "c02_lattice", covers=["lattice"]),
   J("grid", "c02_mapped", dim=1, max=10**12), J("grid", "c02_mapped", dim=2, max=6, cost=5), J("grid", "c02_mapped", dim=4, conc=1, max=2, cost=2), J("grid", "c02_translate", dim=1, max=10000, cost=2), T("grid", "c02_mapped", dim=3, max=4), T("grid", "c02_translate", dim=1, max=10**12), T("grid", "c02_translate", dim=2, max=2),
   J("grid", "c02_mapped", dim=1, conc=1, max=8), J("grid", "c02_mapped", dim=2, conc=1, max=4, cost=6), J("grid", "c02_mapped", dim=3, conc=1, max=2, cost=4),
   J("grid", "c02_translate", dim=1, conc=1, max=5), J("grid", "c02_translate", dim=2, conc=1, max=3, cost=9), J("grid", "c02_translate", dim=3, conc=1, max=2, cost=9),
   T("grid", "c02_mapped", dim=2, conc=1, max=6), T("grid", "c02_mapped", dim=3, conc=1, max=3), T("grid", "c02_translate", dim=2, conc=1, max=5), T("grid", "c02_translate", dim=1, conc=1, max=12)],
  outside="larger sides and more wraps (the loops are uniform in both)")
P("C03", "jumps: 1-D sides up to 10^12, 2-D every side up to 10 (thorough 1000), 3-D up to 3, 5-D up to 2, every pair of sites of seven grids of up to 2^60 sites; closed walks of 2..4 arbitrary steps on 1-D sides 1..5 and 2-D sides 1..2 (thorough: longer); any whole number of turns up to 2^58",
  [J("grid", "c03_jump", dim=1, max=10**12), J("grid", "c03_jump", dim=2, conc=1, max=6), J("grid", "c03_jump", dim=2, max=10, cost=4), J("grid", "c03_jump", dim=5, conc=1, max=2), J("grid", "c03_wide", covers=["closed", "open"]), J("grid", "c03_jump", dim=3, conc=1, max=3, cost=4),
   J("lattice", "c03_winding", dim=1, n=4, max=5, cost=5, covers=["winding"]), J("lattice", "c03_winding", dim=2, n=2, max=3, cost=5, covers=["winding"]), J("lattice", "c03_turns", covers=["turns"]),
   T("lattice", "c03_winding", dim=1, n=6, max=6), T("lattice", "c03_winding", dim=2, n=3, max=3), T("grid", "c03_jump", dim=3, conc=1, max=5), T("grid", "c03_jump", dim=2, max=1000)])
P("C04", "pair encode / decode: every number of sites up to 3*10^9 and every pair of sites (exact integer reasoning; the square root inside the code is followed bit-precisely or by its exact bounds); grids of 1..5 dimensions",
  [J("grid", "c04_encode"), J("grid", "c04_decode", cost=3), J("grid", "c04_grid", dim=1, max=100000), J("grid", "c04_grid", cost=2), J("grid", "c04_grid", dim=3, max=3, cost=2), J("grid", "c04_grid", dim=4, max=2, cost=2), J("grid", "c04_grid", dim=5, max=2)])
P("C05", "dimension 1..3 (to 5 for coordinates in [-1000,1000]), any real primitive vectors in [-100,100] (exact real arithmetic), integer coordinates in [-1000,1000] and [-2^40,2^40]; additionally bit-precise doubles for integer vectors",
  [J("lattice", "c05_" + e, dim=d, range=r, real=True) for e in ("position", "distance") for d in (1, 2, 3) for r in (1000, 1 << 40)] + [J("lattice", "c05_" + e, dim=d, range=1000, real=True) for e in ("position", "distance") for d in (4, 5)] + [J("lattice", "c05_position", dim=2, intvec=1), J("lattice", "c05_distance", dim=2, intvec=1)],
  assumptions=["real-mode jobs treat double arithmetic as exact real arithmetic (rounding not modelled)"])
P("C06", "dimension 1..3 (reciprocal vectors to 5), any real invertible basis with its exact dual (exact real arithmetic), integer coordinates in [-100,100] and [-2^40,2^40]; bit-precise doubles for integer unimodular bases of dimension 1..4; the four predefined lattices",
  [J("lattice", "c06_" + e, dim=d, range=r, real=True) for e in ("reciprocal", "inverse") for d in (1, 2, 3) for r in (100, 1 << 40)] + [J("lattice", "c06_reciprocal", dim=d, range=100, real=True) for d in (4, 5)] + [J("lattice", "c06_inverse_int", dim=3), J("lattice", "c06_inverse_int", dim=4), J("lattice", "c06_inverse_int", dim=2), J("lattice", "c06_inverse_int", dim=1), J("lattice", "c06_predefined", real=True, covers=["pre"])],
  assumptions=["real-mode jobs treat double arithmetic as exact real arithmetic (rounding not modelled)"])
P("C07", "Bravais neighbours: dimension 1..3, up to 3 symbolic directions (dimension 4: 5; dimension 2: 130) in [-1000,1000] and [-2^40,2^40]; lattices: the four predefined ones with every side 1..4 (cubic 1..2) and arbitrary directions in [-2,2] on sides 1..2 (1-D: [-6,6], sides 1..4), both boundary conditions; every site of a chain of 301, a 17x16 square, an 18x15 triangular and a 7x6x7 cubic lattice",
  [J("lattice", "c07_large", covers=["closed", "open"], **L9)] + [J("lattice", "c07_bravais", dim=d, half=h, range=r) for d, h in ((1, 1), (2, 3), (3, 3)) for r in (1000, 1 << 40)] + [J("lattice", "c07_bravais", dim=4, half=5), J("lattice", "c07_bravais", dim=2, half=130)] + [J("lattice", "c07_lattice", lattice=k, max=m, covers=["closed", "open"]) for k, m in ((0, 8), (1, 4), (2, 2), (3, 4))] +
  [J("lattice", "c07_custom", dim=1, half=1, range=6, max=4, cost=4), J("lattice", "c07_custom", dim=2, half=1, range=2, max=2, cost=9), T("lattice", "c07_custom", dim=2, half=1, range=3, max=3), T("lattice", "c07_lattice", lattice=2, max=3), T("lattice", "c07_custom", dim=1, half=2, range=4, max=4)])
P("C08", "the four predefined lattices with every side 1..4 (chain 1..8, cubic 1..2), both boundary conditions, every pair of sites; 1-D lattices of any real spacing; 2-D lattices of integer primitive vectors in [-1,1] (thorough: [-2,2]) closed and open; 2-D skewed bases (1,0),(s,h) for every real s in [-1.5,1.5], closed; lattices of about 300 sites (chain, square, triangular, cubic)",
  [J("lattice", "c08_large", covers=["closed", "open"], **L9)] + [J("lattice", "c08_predefined", lattice=k, max=m, covers=["closed", "open"], paths=1000000, cost=c) for k, m, c in ((0, 8, 1), (1, 4, 5), (2, 2, 3), (3, 4, 5))] +
  [J("lattice", "c08_custom", dim=1, real=True, max=4), J("lattice", "c08_custom", dim=2, conc=1, range=1, max=2, cost=3), J("lattice", "c08_custom", dim=2, conc=1, range=1, max=2, closed=0, cost=3), J("lattice", "c08_custom", dim=2, real=True, range=100, max=2, closed=0, cost=3),
   J("lattice", "c08_skew", real=True, max=3, min=3, h=1, covers=["closed"], cost=9), J("lattice", "c08_skew", real=True, max=2, min=1, h=2, covers=["closed"], cost=5), T("lattice", "c08_skew", real=True, max=3, min=1, h=3, covers=["closed"]), T("lattice", "c08_skew", real=True, max=4, min=4, h=2, covers=["closed"]),
   T("lattice", "c08_custom", dim=2, conc=1, range=2, max=2, paths=1000000), T("lattice", "c08_custom", dim=2, conc=1, range=1, max=3, paths=1000000), T("lattice", "c08_predefined", lattice=2, max=3, paths=1000000)],
  outside="images beyond the first shell (extremely skewed boxes), as the property says", assumptions=["comparisons carry a tolerance of 1e-7"])
P("C09", "the four predefined lattices with every side 1..6 (cubic 1..3), any real 1-D lattice with sides 1..6, any real 2-D basis with sides 1..2, integer unimodular skewed 2-D bases with sides 1..3; lattices of about 300 sites (chain, square, triangular, cubic)",
  [J("lattice", "c09_large", covers=["large"], **L9)] + [J("lattice", "c09_predefined", lattice=k, max=m) for k, m in ((0, 8), (1, 6), (2, 3), (3, 6))] + [J("lattice", "c09_custom", dim=1, real=True, max=6), J("lattice", "c09_custom", dim=2, real=True, max=2, cost=8), J("lattice", "c09_skew", max=3, cost=3), T("lattice", "c09_skew", m=2, max=4), T("lattice", "c09_custom", dim=2, real=True, max=3)],
  assumptions=["real-mode jobs treat double arithmetic as exact real arithmetic (rounding not modelled)"])
P("C10", "the four predefined lattices (sides 1..4 chain, 1..3 square and triangular, 1..2 cubic), every real occupation in [-2,2], multiplier in [-4,4], previous content in [-10,10]; open boundaries bit-precisely; float, integer and extended-precision occupations and momenta; lattices of 260 to 300 sites",
  [J("lattice", "c10_large", lo=1, hi=1, real=True, covers=["large"], **L9), J("lattice", "c10_large", lo=3, hi=4, real=True, covers=["large"], cost=2, **L9), J("lattice", "c10_large", conc=1, lo=2, hi=2, covers=["large"], cost=2, **L9), J("lattice", "c10_large", conc=1, lo=5, hi=5, covers=["large"], cost=2, **L9)] + [J("lattice", "c10_" + t, lattice=k, max=m, real=True, covers=["typed"]) for t in ("int", "long") for k, m in ((0, 3), (1, 2), (3, 2))] +
  [J("lattice", "c10_sk", lattice=k, max=m, real=True, covers=["sk"], cost=c) for k, m, c in ((0, 5, 1), (1, 3, 2), (2, 2, 6), (3, 3, 3))] + [J("lattice", "c10_open", lattice=0, covers=["open"]), J("lattice", "c10_open", lattice=3, max=2, covers=["open"])],
  assumptions=["real-mode jobs treat double arithmetic as exact real arithmetic; phases of concrete momenta and positions are evaluated in double and compared with tolerance 1e-6"])
I = ("-DRT=int",)
P("C12", "every numerator / denominator within +-6 (construction +-20, low terms included), every operator and operand order; sums, differences, products, quotients of numerators up to 2^58 over denominators 1, -1, 2; long and int base types; thorough: wider",
  [J("rational", "c12_construct", m=6, covers=["built"]), J("rational", "c12_construct", m=20, covers=["built"], cost=8), J("rational", "c12_construct", m=6, flags=I, covers=["built"]), J("rational", "c12_double", m=5, real=True, covers=["dbl"]), J("rational", "c12_chain", m=2, cost=3, covers=["chain"])] +
  [J("rational", "c12_rr", op=o, m=3, covers=["rr"], cost=3) for o in range(4)] + [J("rational", "c12_ri", op=o, m=5, covers=["ri"], cost=2) for o in range(8)] + [J("rational", "c12_wide", op=o, covers=["wide"], cost=2) for o in range(6)] + [J("rational", "c12_wide", op=6, m=1 << 33, covers=["wide"], cost=2), J("rational", "c12_double", m=3, covers=["dbl"]), J("rational", "c12_double", m=12, conc=1, covers=["dbl"])] + [J("rational", "c12_rr", op=o, m=2, flags=I, covers=["rr"]) for o in (0, 3)] +
  [T("rational", "c12_rr", op=o, m=6, low=1, covers=["rr"]) for o in range(4)] + [T("rational", "c12_ri", op=o, m=10, covers=["ri"]) for o in range(8)] + [T("rational", "c12_chain", m=3, covers=["chain"])],
  outside="values whose cross products overflow the base integer type (undefined behaviour in the library's own terms)")
P("C13", "every pair of fractions with numerators and denominators within +-5 and every fraction (+-6) against every integer; numerators up to 2^61 over denominators within +-2; thorough: wider",
  [J("rational", "c13_rr", m=5, covers=["rr"], cost=6), J("rational", "c13_ri", m=6, covers=["ri"], cost=2), J("rational", "c13_wide", covers=["wide"], cost=6), J("rational", "c13_equal", m=5, covers=["eq"]), J("rational", "c13_rr", m=3, flags=I, covers=["rr"]), J("rational", "c13_ri", m=3, flags=I, covers=["ri"]),
   T("rational", "c13_rr", m=10, covers=["rr"]), T("rational", "c13_ri", m=16, covers=["ri"]), T("rational", "c13_equal", m=8, covers=["eq"])],
  outside="values whose cross products overflow the base integer type")
NEU = ("-DACC_NEUMAIER",)
P("C15", "every sequence of 4 values of up to 2^40 (and the same in units of 2^-10) with a reset at any point, partial sums representable; a value of 2^60 (or -2^60) in any position among 2 (thorough 3) small values in [-600,600], Neumaier also after removing it again; reset, assignment and copy after any history of 3 values mixing +-2^60 with small ones; rounding of the sums followed exactly; one value of up to 2^40 anywhere among 255, 256, 300 or 65537 others; every count up to 2^52",
  [J("acc", "c15_exact", n=4, covers=["exact"], flags=f) for f in ((), NEU)] + [J("acc", "c15_exact", n=3, frac=1, covers=["exact"], flags=f) for f in ((), NEU)] +
  [J("acc", "c15_comp", n=2, pos=0, covers=["comp"], flags=f) for f in ((), NEU)] + [J("acc", "c15_comp", n=2, pos=p, remove=1, covers=["comp"], flags=NEU) for p in (0, 1, 2)] + [J("acc", "c15_reset", covers=["reset"], flags=f) for f in ((), NEU)] +
  [J("acc", "c15_comp", n=3, pos=1, remove=1, covers=["comp"], flags=NEU)] + [J("longrun", "c15_%s_%s" % (w, k), covers=[w], **L9) for w in ("long", "count") for k in ("kahan", "neumaier")] +
  [T("acc", "c15_exact", n=6, covers=["exact"], flags=f) for f in ((), NEU)] + [T("acc", "c15_comp", n=4, pos=p, remove=1, covers=["comp"], flags=NEU) for p in (0, 2, 4)] + [T("acc", "c15_comp", n=4, pos=0, covers=["comp"], flags=f) for f in ((), NEU)],
  outside="longer sequences; sums whose rounding errors exceed what compensation recovers")
P("C16", "every sequence of 0..4 real measurements in [-1000,1000] (unweighted), 0..3 measurements with any real value and integer weights in [-1,3], any real weights for two measurements (mean, sum, count), integers up to 10^6 and as large as their squares allow (2*10^9), with and without a previous use and reset; three equal integers up to 2^30 bit-precisely; 257, 300 and 65537 concrete measurements with integer weights",
  [J("acc", "c16_welford", n=n, real=True, covers=["welford"]) for n in (1, 2, 3, 4)] + [J("acc", "c16_west", n=3, ints=1, real=True, covers=["west", "one", "none"], cost=3), J("acc", "c16_west", n=1, real=True, covers=["one", "none"])] +
  [J("acc", "c16_naive", n=n, m=m, real=True, covers=["naive"]) for n, m in ((1, 10**6), (2, 10**6), (3, 10**6), (1, 3 * 10**9), (2, 2 * 10**9), (3, 17 * 10**8))] + [J("acc", "c16_naive_fp", covers=["naive_fp"], cost=3), J("longrun", "c16_long", covers=["long"], cost=2, **L9), T("acc", "c16_west", n=4, ints=1, real=True, covers=["west"]), T("acc", "c16_welford", n=6, real=True, covers=["welford"]), T("acc", "c16_naive", n=4, real=True, covers=["naive"])],
  assumptions=["real-mode jobs treat double arithmetic as exact real arithmetic (the property speaks of equality up to rounding)"])
P("C17", "every 64-bit value of the measurement counter for the five checked accumulators; every 64-bit first value, every pair of admissible values, and every 64-bit sum against measurements in [-10^6,10^6] for the integer accumulator; sequences of 3 values unaffected by the checks",
  [J("checked", "c17_" + k, covers=["full", "room"]) for k in ("kahan", "neumaier", "welford", "west", "naive_count")] + [J("checked", "c17_west_weight", covers=["w"])] + [J("checked", "c17_same_" + k, covers=["same"]) for k in ("kahan", "neumaier", "naive")] +
  [J("checked", "c17_naive_one", covers=["fits", "refused"]), J("checked", "c17_naive_two", covers=["fits", "refused"], cost=3), J("checked", "c17_naive_sum", covers=["fits", "refused"])])
P("C18", "up to 4 additions to any of up to 3 bins (forced additions up to two bins beyond the end), values integer up to 10^6 or counting additions, default and sized construction; resizing 3 bins to any size 0..5; 300 and 66000 additions to 256 and 300 bins with one arbitrary value",
  [J("acc", "c18_hist", bins=2, n=3, real=True, covers=["hist", "norm"]), J("acc", "c18_hist", bins=3, n=4, norm=0, real=True, covers=["hist"]), J("acc", "c18_hist", bins=2, n=3, unit=1, real=True, covers=["hist", "norm"]), J("acc", "c18_hist", bins=1, n=3, force=1, kmax=3, real=True, norm=0, covers=["hist"]), J("acc", "c18_hist", bins=0, n=3, force=1, kmax=2, unit=1, ctor=0, real=True, norm=0, covers=["hist"]),
   J("acc", "c18_hist", bins=3, n=3, norm=0, covers=["hist"]), J("acc", "c18_resize", bins=3, covers=["resize"]), J("acc", "c18_resize", bins=0, covers=["resize"]), J("longrun", "c18_long", covers=["long"], **L9), T("acc", "c18_hist", bins=4, n=5, norm=0, real=True, covers=["hist"]), T("acc", "c18_resize", bins=5, covers=["resize"])])
P("C21", "every history of 4 calls (thorough 5) of propose / accept / reject / impossible / add of each kind / reset with any probabilities in [0,1]; refused calls and copies at every point of a pending move; counters of any size up to 2^60; 256, 300 and 65537 concrete proposals followed by one with any probability",
  [J("mc", "c21_history", n=3, real=True, covers=["history"]), J("mc", "c21_history", n=4, real=True, covers=["history"], cost=6), J("mc", "c21_pending", real=True, covers=["pending"]), J("mc", "c21_result", covers=["result"]), J("mc", "c21_large", real=True, covers=["large"]), J("longrun", "c21_long", covers=["long"], **L9), T("mc", "c21_history", n=5, real=True, covers=["history"])],
  outside="ratios before anything was proposed (0/0)", assumptions=["real-mode jobs treat double arithmetic as exact real arithmetic"])
P("C24", "any value, number, absolute and relative tolerance (exact real arithmetic, magnitudes up to 10^6) with either, both or no tolerance set; bit-precise for integers up to 2^40 including the boundary of the tolerance; numbers and values that are infinite, not numbers, signed zeros or at the limits of the type; all twelve comparisons",
  [J("range", "c24_real", real=True, covers=["set", "default"]), J("range", "c24_ints", bits=40, covers=["ints"], cost=4), J("range", "c24_order", covers=["order"], cost=2), J("range", "c24_special", covers=["special"]), J("range", "c24_nan", covers=["nan"])],
  assumptions=["real-mode jobs treat double arithmetic as exact real arithmetic; the boundary itself is decided bit-precisely only for integers"])
P("C25", "ranges of 1..4 points between any two end points in [-1000,1000] (real), 1..5 points between any integers up to 10^12, logarithmic ranges of 1..4 points between any two end points in [0.001,1000] (ratio opaque) and of 1..6 points with concrete powers; ranges advanced by 0..3 steps before use; ranges of 255, 256, 300 and 65537 points; integer ranges of 1..7 points over 2^53 to 2^62; ranges of int, unsigned long and float (exact steps up to 1000 from any integer up to 10^6)",
  [J("range", "c25_lin", real=True, covers=["lin"]), J("range", "c25_step", real=True, covers=["step"]), J("range", "c25_int", covers=["int"]), J("range", "c25_log", real=True, covers=["log"]), J("range", "c25_ratio", covers=["ratio"]), J("range", "c25_far", covers=["far"]), J("range", "c25_int32", covers=["other"]), J("range", "c25_ulong", covers=["other"]), J("range", "c25_float", real=True, covers=["other"]), J("longrun", "c25_long", covers=["long"], cost=2, **L9), J("longrun", "c25_long_log", covers=["long"], **L9), T("range", "c25_lin", real=True, max=7, covers=["lin"])],
  outside="rounding of the accumulated value in long ranges", assumptions=["real-mode jobs treat double arithmetic as exact real arithmetic; pow is an uninterpreted function there and concrete in c25_ratio"])
P("C27", "every sorted range of 0..5 reals or integers; every sorted range of 10001..10004 elements, its elements abstracted to their order with respect to the value and arbitrary interpolation fractions (10004: real arithmetic); 10004 (10041) integers and reals of up to four values out of seven spread over the whole type, the places where they change symbolic; 10002 and 10003 ints, longs, doubles and floats of three values as far apart as the type allows; infinite end points",
  [J("search", "c27_small", real=True, covers=["small"]), J("search", "c27_small_int", covers=["small"], cost=2), J("search", "c27_any", real=True, over=1, covers=["any"]), J("search", "c27_any", real=True, over=2, covers=["any"]), J("search", "c27_any", real=True, over=3, covers=["any"], cost=3), J("search", "c27_any", over=1, covers=["any"], cost=2), J("search", "c27_steps_int", pick=1, k=2, covers=["steps"]), J("search", "c27_steps_int", pick=1, k=3, over=40, window=2, covers=["steps"], cost=2), J("search", "c27_steps", pick=1, k=2, where=1, covers=["steps"])] + [J("search", "c27_spread_" + t, covers=["spread"], **L9) for t in ("int", "long", "double", "float")] + [J("search", "c27_infinite", covers=["infinite"], **L9),
   T("search", "c27_small", real=True, max=8, covers=["small"]), T("search", "c27_any", real=True, over=4, covers=["any"]), T("search", "c27_steps", real=True, over=1, covers=["steps"])],
  outside="ranges longer than 10041 elements (each further element adds an interpolation step of the same loop)", assumptions=["in c27_any the final std::upper_bound on the remaining window is replaced by its contract"])
P("C28", "every list of 1..4 weights in [0,1000] and every 64-bit (and two-draw 32-bit) output of the generator in exact real arithmetic; integer weights up to 100 bit-precisely for every 53-bit draw; every double as a probability; the 4097 largest 64-bit draws bit-precisely; 1..3 single-precision weights with any 24-bit draw; 384 weights with 4096 draws around each of two edges",
  [J("search", "c28_real", real=True, covers=["weights"]), J("search", "c28_real32", real=True, covers=["weights"]), J("search", "c28_fp", max=2, covers=["weights"], cost=6), J("search", "c28_prob", covers=["yes", "no"], cost=3), J("search", "c28_prob", real=True, bits=64, covers=["yes", "no"]), J("search", "c28_top", covers=["top"]), J("search", "c28_float", max=3, w=3, covers=["float"], cost=6), J("search", "c28_float", max=3, real=True, covers=["float"]), J("longrun", "c28_long", covers=["long"], cost=9, **L9), T("search", "c28_fp", max=4, covers=["weights"])],
  assumptions=["real-mode jobs treat double arithmetic as exact real arithmetic"])
P("C29", "gcd: every pair within +-24 (unsigned 0..40) against every candidate divisor, every common factor up to 2^50 of every pair within +-8, every 64-bit value against 0, 1 and itself; binomial coefficients: every n up to 2^61 for k = 0, 1, n up to 1.2*10^8 for k = 2 and their complements, all of Pascal's triangle up to n = 61 (int 29, unsigned long 62), every k > n; differences and signs: all 64-bit, 32-bit and floating values; squares and cubes: every value whose power fits",
  [J("math", "c29_gcd", m=24, covers=["gcd"]), J("math", "c29_gcd_int", m=12, covers=["gcd"]), J("math", "c29_gcd_u", m=40, covers=["gcd"]), J("math", "c29_gcd_wide", covers=["wide"]), J("math", "c29_gcd_edge", covers=["edge"]), J("math", "c29_binom", covers=["binom"]), J("math", "c29_binom_zero", covers=["zero"])] +
  [J("math", "c29_pascal" + t, covers=["pascal"]) for t in ("", "_int", "_u")] + [J("math", "c29_diff", covers=["diff"]), J("math", "c29_absdiff_d", real=True, covers=["absd"]), J("math", "c29_absdiff_d", covers=["absd"]), J("math", "c29_sgn", covers=["sgn"]), J("math", "c29_pow", covers=["pow"]), J("math", "c29_pow_d", real=True, covers=["powd"]), T("math", "c29_gcd", m=60, covers=["gcd"]), T("math", "c29_gcd_u", m=100, covers=["gcd"]), T("math", "c29_gcd_wide", m=20, covers=["wide"])],
  outside="gcd of two large values without a large common factor; binomial coefficients with k of 3 and more beyond n = 61")
LI = lambda k: ("-DLISTS",) if k == "_list" else ()
P("C30", "vectors, lists and arrays of 0..4 reals, longs or ints in [-1000,1000] (product up to 3, norm up to 2 elements), extremes of 1..3 doubles of any kind and sums of longs up to 2^61; squares of all ints summed as long and double; lerp for any end points in +-10^6 and parameters in [-10,10] in exact real arithmetic, end points exactly for all finite doubles and floats; lerpi with denominators within +-4; the step functions for every double; longs in vectors of 255, 256, 300 and 70000 elements with one arbitrary element",
  [J("math", "c30_reduce" + k, real=r, flags=LI(k), covers=["reduce"], **({"norm": 0} if k == "_long" and not r else {})) for k, r in (("", True), ("_long", False), ("_array", True), ("_list", True), ("_int", False))] + [J("math", "c30_elem" + k, real=r, flags=LI(k), covers=["elementwise"]) for k, r in (("", True), ("", False), ("_long", False), ("_array", True), ("_list", False))] +
  [J("longrun", "c30_long", covers=["long"], cost=4, **L9), J("math", "c30_extreme", covers=["extreme"]), J("math", "c30_step", covers=["step"]), J("math", "c30_exact", covers=["exact"]), J("math", "c30_exact_f", covers=["exact"]), J("math", "c30_lerp", real=True, covers=["lerp"]), J("math", "c30_ends", covers=["ends"]), T("math", "c30_reduce", real=True, max=6, covers=["reduce"]), T("math", "c30_elem", real=True, max=8, covers=["elementwise"])],
  assumptions=["real-mode jobs treat double arithmetic as exact real arithmetic"])
P("C31", "every less-than relation over four values on either side (and every equality relation where one is supplied) as arbitrary truth tables, every pair of values, both argument orders, for the three macros; every pair of 64-bit keys for a class with declared friends",
  [J("math", "c31_" + k, covers=[c]) for k, c in (("overload", "relations"), ("noeq", "relations"), ("template", "relations"), ("keyed", "keyed"))])
P("C19", "every accumulator after 0..2 measurements of any double in [-1000,1000], saved and loaded into an object with 0..1 other measurements and continued by a reset and 0..1 measurements; every value of every field an accumulator writes; histograms of 0..3 bins after 0..2 forced additions loaded over others, continued by any operation; Kahan and Neumaier sums whose small parts are hidden behind +-2^60, saved there and continued by removing it; move statistics after 0..3 calls, pending or not, named or not, loaded over others and continued by any 2 calls; observable groups of 0..2 keys and any values loaded over others, continued by a measurement and compared by the files they write; accumulators after up to 300 measurements, histograms of up to 300 bins and move statistics of up to 900 moves in every mixture, with one arbitrary value; all bit-precise",
  [J("checkpoint", "c19_" + k, covers=["acc"]) for k in ("kahan", "neumaier", "welford", "west", "naive")] + [J("checkpoint", "c19_lossy_" + k, covers=["lossy"]) for k in ("kahan", "neumaier")] + [J("checkpoint", "c19_any", covers=["any"]), J("checkpoint", "c19_hist", covers=["hist"], cost=2), J("checkpoint", "c19_many", covers=["many"], **L9), J("checkpoint", "c19_hist_many", covers=["many"], **L9), J("checkpoint", "c19_move_many", covers=["many"], **L9), J("checkpoint", "c19_move", covers=["move"], cost=2), J("table", "c19_group", flags=("stub:std",), covers=["group"]), T("table", "c19_group", keys=4, flags=("stub:std",), covers=["group"]), T("checkpoint", "c19_hist", n=3, covers=["hist"], paths=1000000), T("checkpoint", "c19_move", n=5, more=3, covers=["move"], paths=1000000)] +
  [T("checkpoint", "c19_" + k, n=4, more=2, covers=["acc"]) for k in ("kahan", "neumaier", "welford", "west", "naive")],
  outside="the byte formats of the boost archives themselves", assumptions=["the archive is a tape of typed cells implementing boost's archive protocol; boost's own code for vectors and maps is executed"])
S = ("stub:std",)
P("C11", "the four predefined lattices with every side 1..5 (chain), 1..3 (square, triangular), 1..2 (cubic), lattices of 17 and 18 sites (all tables) and about 300 sites (all but the pairs) and lattices of any real primitive and reciprocal vectors (1-D sides 1..4, 2-D sides 1..2), both boundary conditions; every cell of every row of all four tables",
  [J("table", "c11_predefined", lattice=k, max=m, flags=S, covers=["closed", "open"]) for k, m in ((0, 5), (1, 3), (2, 2), (3, 3))] + [J("table", "c11_large", lo=0, hi=2, flags=S, covers=["closed", "open"], **L9), J("table", "c11_large", lo=3, hi=6, flags=S, covers=["closed", "open"], **L9), J("table", "c11_custom", dim=1, max=4, real=True, flags=S, covers=["closed", "open"]), J("table", "c11_custom", dim=2, max=2, open=1, real=True, flags=S, covers=["open"]), T("table", "c11_custom", dim=2, max=2, real=True, flags=S, covers=["closed"]), T("table", "c11_predefined", lattice=2, max=3, flags=S, covers=["closed"]), T("table", "c11_custom", dim=3, max=1, real=True, flags=S, covers=["closed"])],
  outside="momenta of open lattices (not defined there)", assumptions=["files and number formatting are modelled: a printed floating value is kept with its precision and format; sampled paths and counterexamples are replayed with the real fmt and real files"])
P("C14", "lowest terms after construction (every numerator and denominator within +-15), after every operator with operands within +-2 / +-3 (thorough wider); numerators up to 10^4 over denominators within +-4; every common factor up to 2^58 of numerators and denominators up to 4; print and parse: every fraction with numerator within +-9 and denominator 1..9, +-20 over 1..12, every integer up to 10^6, 90 extreme values; every text of up to 5 arbitrary characters, every one-character edit of four valid texts, every text of 6 characters out of 012+-/space; every p//q with p within +-40, q within +-6; long and int base types",
  [J("rational", "c14_construct", m=15, covers=["built"], cost=4), J("rational", "c14_construct", m=8, flags=I, covers=["built"]), J("rational", "c14_wide", m=1000, covers=["wide"], cost=4), J("rational", "c14_common", m=4, covers=["common"], cost=5)] + [J("rational", "c14_rr", op=o, m=2, covers=["rr"]) for o in range(4)] + [J("rational", "c14_ri", op=o, m=3, covers=["ri"]) for o in range(8)] +
  [J("text", "c14_trip", flags=S, covers=["trip"], cost=3), J("text", "c14_trip", conc=1, d=12, m=20, lo=-20, flags=S, covers=["trip"], cost=2), J("text", "c14_extreme", flags=S, covers=["extreme"]), J("text", "c14_string", n=5, flags=S, covers=["good", "bad", "zero"], cost=3), J("text", "c14_shape", n=6, flags=S, covers=["good", "bad", "zero"]), J("text", "c14_edit", flags=S, covers=["good", "bad", "zero"]), J("text", "c14_pq", flags=S, covers=["pq"], cost=2)] +
  [J("text", "c14_string", n=4, flags=S + I, covers=["good", "bad", "zero"]), J("text", "c14_extreme", flags=S + I, covers=["extreme"])] +
  [T("text", "c14_trip", d=1, m=10**6, lo=-10**6, flags=S, covers=["trip"]), T("text", "c14_shape", n=8, flags=S, covers=["good"]), T("rational", "c14_construct", m=25, covers=["built"]), T("rational", "c14_wide", m=10000, covers=["wide"]), T("rational", "c14_common", m=8, covers=["common"])] + [T("rational", "c14_rr", op=o, m=3, covers=["rr"]) for o in range(4)] + [T("rational", "c14_ri", op=o, m=5, covers=["ri"]) for o in range(8)],
  outside="texts with embedded spaces or trailing characters may be accepted or refused; numbers outside the base integer type", assumptions=["stream parsing and printing of numbers follow the standard's rules as written in harness/stubs/std; replays use the real library"])
P("C20", "a Mersenne twister of three 8-bit words in every state, after 0, 1, 2 or 3 draws (thorough: 4), loaded into a generator of any other state; std::mt19937 and mt19937_64 after 0, 1, 623, 624, 700 draws; every truncation before the last number and every replacement or insertion of a character that cannot occur in a state; every text of up to 3 characters (thorough 5)",
  [J("text", "c20_small", **{"from": 0}, drawn=0, other=0, flags=S, covers=["small"], cost=3)] + [J("text", "c20_small", **{"from": k}, drawn=k, flags=S, covers=["small"], cost=5) for k in (1, 3)] + [J("text", "c20_mt", drawn=4, flags=S, covers=["mt"]), J("text", "c20_mt64", drawn=4, flags=S, covers=["mt64"]), J("text", "c20_bad", flags=S, covers=["bad"]), J("text", "c20_text", flags=S, covers=["text"]), T("text", "c20_small", **{"from": 2}, drawn=2, flags=S, covers=["small"]), T("text", "c20_small", **{"from": 4}, drawn=4, flags=S, covers=["small"]), T("text", "c20_small", **{"from": 0}, drawn=0, other=2, flags=S, covers=["small"]), T("text", "c20_text", n=5, flags=S, covers=["text"])],
  outside="texts that parse as numbers but could not have been saved (values out of range)", assumptions=["the engine itself and its stream operators are libstdc++'s own code; the streams below them are modelled as in C14"])
P("C22", "integer and text keys; groups built from 0..2 keys in any order (repeats allowed) followed by 2 operations (measure any key with any value, add any key, write a row with precision 3, 10 or 17) or 3 operations on up to one initial key, and a final row; five keys inserted in 20 orders with 0..3 measurements each over two rows; 17, 40 and 130 keys over three rows, up to 257 measurements each (65537 for a single key), one of them arbitrary",
  [J("table", "c22_int", keys=2, ops=2, kinds=2, flags=S, covers=["group"], cost=4), J("table", "c22_text", keys=2, ops=2, kinds=2, flags=S, covers=["group"], cost=4), J("table", "c22_int", keys=1, ops=3, kinds=1, flags=S, covers=["group"], cost=2), J("table", "c22_many", flags=S, covers=["many"]), J("table", "c22_wide", flags=S, covers=["many"], **L9), T("table", "c22_int", keys=2, ops=3, kinds=2, flags=S, covers=["group"]), T("table", "c22_text", keys=1, ops=4, kinds=1, flags=S, covers=["group"])],
  outside="the count column when observables were measured a different number of times", assumptions=["files and number formatting are modelled as in C11"])
P("C23", "enumerations of four similar names, of twenty and of one: every enumerator, every text of up to 4 arbitrary characters (thorough 6), every one-character extension of eight texts, every text of 5..7 characters around the long name with any character anywhere; every representable value that is no enumerator",
  [J("text", "c23_names", flags=S, covers=["names"]), J("text", "c23_unknown", flags=S, covers=["unknown"]), J("text", "c23_text", flags=S, covers=["hit", "miss"]), J("text", "c23_long", flags=S, covers=["hit", "miss"]) , J("text", "c23_single", flags=S, covers=["single"]), J("text", "c23_many", flags=S, covers=["names", "unknown"]), T("text", "c23_text", n=6, flags=S, covers=["hit", "miss"])], outside="longer texts; the message of texts holding a zero byte is cut there")
P("C26", "every pair of files of 0..3 bytes (thorough 5); missing files on either side; 19 lengths between 15 and 8193 bytes with any byte at one of ten positions, an extra or a missing last byte; 40 bytes with any two bytes at any two positions; 16385 and 65537 bytes (thorough up to 131073) with any byte at one of four positions",
  [J("table", "c26_bytes", n=3, flags=S, covers=["same", "differ"]), J("table", "c26_missing", flags=S, covers=["missing"]), J("table", "c26_long", lo=0, hi=12, flags=S, steps=8000000, covers=["same", "differ"], cost=3), J("table", "c26_long", lo=13, hi=15, flags=S, steps=8000000, covers=["same", "differ"], cost=4), J("table", "c26_two", n=20, flags=S, covers=["two"], cost=2), J("table", "c26_huge", size=0, flags=S, covers=["huge"], cost=2, **L9), J("table", "c26_huge", size=3, flags=S, covers=["huge"], cost=5, **L9), T("table", "c26_huge", size=4, flags=S, covers=["huge"], **L9), T("table", "c26_bytes", n=5, flags=S, covers=["same", "differ"]), T("table", "c26_long", lo=16, hi=18, flags=S, steps=30000000, covers=["same", "differ"]), T("table", "c26_two", n=64, flags=S, covers=["two"])],
  outside="directories and special files", assumptions=["files are modelled as byte strings; replays use real files in a scratch directory"])
P("C32", "every sub-range of a vector, list or deque of 0..3 values (integers up to 10^6) fed to an accumulator holding 0..1 others, for five kinds of accumulator; three values of any size including +-2^60, rounding followed exactly; a log of the calls made; ranges of several hundred elements",
  [J("longrun", "c32_" + k, covers=["feed"]) for k in ("kahan", "neumaier", "welford", "naive", "list", "deque")] + [J("longrun", "c32_order", covers=["order"]), J("longrun", "c32_log", covers=["log"]), J("longrun", "c32_long", covers=["long"], **L9), T("longrun", "c32_kahan", n=6, covers=["feed"])],
  outside="single-pass iterators whose elements change while they are read")
P("C33", "every history of 1..3 results with any probabilities in [0,1], pending or not, nine names (empty, long, 600 characters, with braces and percent signs) and every name of 0..3 characters; every refused call; every double as a refused probability",
  [J("printed", "c33_" + k, flags=S, covers=[k], **c) for k, c in (("stats", dict(cost=2, steps=20000000)), ("name", {}), ("sequence", {}), ("probability", {}), ("plain", {}))] + [T("printed", "c33_stats", n=5, flags=S, covers=["stats"], steps=20000000), T("printed", "c33_name", len=6, flags=S, covers=["name"])],
  outside="the digits of printed numbers (fmt's and the standard library's)", assumptions=["number formatting is modelled as in C11: a printed floating value keeps its value, precision and notation"])
