#!/usr/bin/env python3
"""Writes MANIFEST.json: every rule module present is claimed, every other property is not applicable."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GVN = "value numbering of the compiler IR, inlined across calls"
SPEC = "type-checked statements compiled against the sources and folded to true by interprocedural value numbering of the IR"
M = {
    "P01": ("dependence analysis of the table computation against the facts implied by a cache hit (" + GVN + ")",
            "Every attribute read by the table computation is shown equal on every path that reuses a slot. Assumes clang's IR; values are compared by algebraic normal form with random fingerprints (error below 1e-15)."),
    "P02": ("typestate and dataflow analysis of the cache slot life cycle (" + GVN + ")",
            "All paths of lookup, insertion, wrap-around and reset, for both ways of storing interpolators. Assumes clang's IR and the modelled vector operations."),
    "P03": ("ownership analysis: cache requests between obtaining and last use of a slot (" + GVN + ")",
            "All calculation functions that hold cached data, with everything they call that can reach the cache."),
    "P04": ("interprocedural dataflow of the configuration argument", "Every function taking a configuration, and the command line program with a declaration-only JSON library."),
    "P05": ("interprocedural write-effect analysis over access paths; definite-assignment analysis; call-graph query",
            "Every function of the library. Assumes no pointers to caller objects are hidden in freshly allocated memory."),
    "P06": ("equality of interprocedural value graphs of each C function and its C++ counterpart (" + GVN + ")",
            "All arguments of every C function, all branch cases. Floating point is treated as real arithmetic; values are compared by algebraic normal form with random fingerprints."),
    "P07": ("interval analysis of the IR with not-a-number tracking, followed through calls; every variable index into a fixed-size array",
            "Every array access of the library for all atomic numbers from 1 to 1e6, all isotope indices and all energies including infinities and not-a-number. Assumes projectiles and targets hold an atomic number of at least one; grids hold what their constructor computes."),
    "P08": ("constant folding of the material constructor's IR for every identifier, decided against chemical formulas and the element tables",
            "Every identifier of the database and every path of the export search. Tolerances: weight fractions total one within 1e-4, weight-fraction forms of a formula within 5e-4."),
    "P09": ("constant folding of the table accessors' IR for every element, decided by cross-table consistency conditions",
            "Every element and isotope. Mean masses are recomputed from measured nuclide masses (0.006 u, wider for eight elements with revised weights), or the semi-empirical formula (0.045 u) for elements without natural isotopes; densities and potentials against the density-effect limit (0.05), with five named exceptions."),
    "P10": ("constant folding of the tables and value graphs of generator and lookup compared (" + GVN + ")",
            "Every row and column of the tables, every atomic number, any mass and energy; the generator's output is read off its IR, not produced. Floating point as real arithmetic."),
    "P11": ("constant folding and value graphs of every rule's IR, decided by its moments in the Legendre basis",
            "Every provided order (Gauss-Legendre 3 to 128, Gauss-Kronrod 7 to 61 points) for any integrand; nodes and weights within 5e-13. Adaptive recursion is decided for one step (its two halves)."),
    "P12": (SPEC, "Any table values and evaluation points on uneven grids of 3, 4, 5 and 7 nodes (the template is the same for every size), both boundary modes. Floating point as real arithmetic."),
    "P13": (SPEC, "All values and combinations of the options, all projectiles, targets and energies, all branch cases. The selected model functions' numeric tables are uninterpreted; floating point as real arithmetic."),
    "P14": ("loop-bound analysis over the IR: monotone counters tested in every round against a loop-invariant bound (natural loops, dominators, write effects); decreasing argument of every self call",
            "Every loop and recursion of the library and its header templates, all inputs including not-a-number. Assumes the standard library's own loops end and integer counters do not overflow."),
    "P15": (SPEC, "All arguments and branch cases; the cached table, splines and model functions are uninterpreted. Floating point as real arithmetic. The bound of the exit energy is decided per exit of its iteration."),
    "P16": (SPEC, "Any number of layers (loop recurrences are compared symbolically), all branch cases. Floating point as real arithmetic."),
    "P17": (SPEC, "Any number of components (sums are compared symbolically), all branch cases; the per-element formulas are uninterpreted. Floating point as real arithmetic."),
    "P18": ("equality of the value graphs of both branches at every threshold found in the IR (" + GVN + ")",
            "Every energy threshold of the stopping power, the proton stopping extension and the reaction cross section, all projectiles, materials and configurations. Model functions called by both sides are uninterpreted. Floating point as real arithmetic."),
    "P19": ("type-checking of generated client programs (header combinations) and symbol-table comparison of declarations and definitions",
            "Every header alone and repeated, every ordered pair, all together both ways; every declared function and variable. Nothing is run."),
    "P20": ("compilation of all 16 option combinations; symbol sets compared; statements decided by value numbering for every option switched off, interval analysis of table positions",
            "All 16 combinations for compiling and symbols; the results' defining statements with each option off and all off. Floating point as real arithmetic."),
    "P21": (SPEC, "Any list length, every list position, all branch cases. Floating point as real arithmetic."),
    "P22": ("classification of every floating-point conversion in the IR by the origin of its operand (interprocedural value numbering), plus parameter and field types",
            "Every conversion in the library. Integer conversions are allowed for atomic numbers, counts, table positions and explicitly rounded masses only."),
    "P24": (SPEC + "; the table loops are unrolled completely", "Every grid point, any projectile, material and configuration; quadrature of a rate is one uninterpreted integral (its rule is P11), the rates are uninterpreted. Floating point as real arithmetic."),
    "P25": (SPEC, "All arguments and branch cases; cached tables, model functions and integrals of equal integrands are uninterpreted. Floating point as real arithmetic."),
    "P26": (SPEC, "All energies, masses and charges; density effect and radiation length for every element up to 110, proton and helium stopping for every target, heavy ions for ten pairs of elements and carbon in every target (20000 cases, the rest sampled). Table entries are read from the sources (density effect, stopping coefficients) except the radiation lengths, which are listed in the statements. Floating point as real arithmetic."),
}
NA = {
    "P23": "Agreement with published reference values is a statement about floating-point results of long numerical "
           "computations; no sound static argument in reach bounds them. The structural parts (which formula, which "
           "arguments, which tables, which sums) are claimed as P10-P13, P15-P18.",
}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in M and os.path.exists("%s/lib/catlint/rules/%s.py" % (V, p.lower())):
        checks.append({"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "bin/check " + p,
                       "technique": M[p][0], "level": "other", "level_note": M[p][1]})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check built yet.")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Static analysis only: every check configures and compiles /repo's current sources "
              "to IR in /verif/work (removed afterwards) and analyses that; nothing of the library is executed. The "
              "rules are exhaustive over the program, so the thorough command is the same as the quick one."}
with open(V + "/MANIFEST.json", "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
