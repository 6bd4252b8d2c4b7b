#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the texts stay reviewable in one place)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": s} for s in (state or [])], "observe_at": observe or [], "hook_needed": None}})

prop("P01", "Cached tables are reused only for requests with equal inputs",
     "Precomputed range and straggling tables stored for one projectile, material and configuration are reused for another request only when the two agree exactly in every attribute that any tabulated value depends on. This covers every attribute read anywhere in the computation of the tables, including attributes of each material component.",
     ["inputs", "histories"], "all pairs of requests, in any order, for which a stored table could be offered",
     "A missing attribute shows only for a pair of requests differing in just that attribute, in the right order, within one process; the pairs are unbounded.",
     ["src/storage.cpp", "src/structures.cpp", "src/catima.cpp", "src/calculations.cpp", "src/srim.cpp"],
     [("key comparison", "operator== for Projectile, Material, Config; Data::Get, Data::Add"), ("table computation", "calculate_DataPoint and everything it calls")],
     ["_storage", "energy_table"], ["Data::Get return value", "range(), calculate() results"])

prop("P02", "A cache lookup always yields the tables built for that request",
     "After any sequence of lookups, insertions, wrap-arounds and resets, a lookup returns the slot holding the tables computed for exactly the requested key. An unused slot is never handed out, the insertion position never leaves the store, and each interpolator in a slot is built from that same slot's own matching table.",
     ["histories"], "all sequences of lookups, insertions and resets, including more distinct keys than the store has slots",
     "Slot mix-ups depend on the number and order of earlier distinct requests (wrap-around after dozens of keys) and on object lifetimes a value test does not see.",
     ["src/storage.cpp", "include/catima/storage.h", "include/catima/spline.h"],
     [("circular store", "Data::Add, Data::Get, Data::Reset, Data::Data"), ("interpolators", "get_*_spline, InterpolatorCSpline, cspline_special")],
     ["Data::storage", "Data::index", "DataPoint::*_spline"], ["Data::Get", "get_range_spline and siblings"])

prop("P03", "Cached data stays valid for as long as a computation holds it",
     "While a calculation holds data obtained from the shared cache, nothing it calls may request cached data for a different key, because such a request can overwrite the held slot. Every nested request made during the hold uses the same projectile, composition and configuration.",
     ["histories", "inputs"], "all calculations and all prior cache contents, in particular a full store whose next slot to be replaced is the held one",
     "The overwrite happens only when the held slot is the next victim, i.e. after a specific number of earlier distinct requests.",
     ["src/catima.cpp", "src/reactions.cpp", "src/storage.cpp"],
     [("held references", "callers of Data::Get in calculate, angular_variance, angular_straggling_from_E, nonreaction_rate ...")],
     ["_storage"], ["results of calculate and nonreaction_rate after the store wrapped"])

prop("P04", "An explicitly passed configuration governs every stage of a calculation",
     "When a caller passes a configuration, every stage of that calculation uses exactly that configuration; no stage falls back to the process-wide default or to a modified copy. The command line calculator likewise applies the configuration it read.",
     ["configurations", "inputs"], "all configurations and inputs; all call paths from entry points that accept a configuration",
     "A stage that drops the configuration is invisible whenever the test's configuration equals the default in the options that stage reads.",
     ["src/catima.cpp", "src/calculations.cpp", "src/reactions.cpp", "include/catima/catima.h", "bin/catima_calculator.cpp"],
     [("configuration hand-over", "every call whose callee accepts a Config"), ("process default", "default_config")],
     ["default_config"], ["any result computed with a non-default Config"])

prop("P05", "Results depend only on the arguments, never on earlier calls",
     "No calculation or query modifies its caller's objects or any process-wide state other than the table cache, and none draws on hidden mutable state, clocks, randomness or uninitialised memory. Hence repeating a call with the same arguments and settings gives the same result whatever was called in between.",
     ["histories"], "all interleavings of library calls in one process",
     "History dependence only shows for particular call sequences; the tests call each function in one fixed order.",
     ["src", "include/catima"],
     [("effects", "all functions of the library, incl. C interface"), ("mutable globals", "default_config, _storage, static locals")],
     ["default_config", "_storage", "catima_defaults"], ["any public function"])

prop("P06", "The C interface forwards every argument and result faithfully",
     "Each C function computes what the corresponding C++ function computes for the projectile, energy, target, thickness and density given, under the effective-charge setting chosen for the C interface. Every parameter reaches the quantity it names, every result field carries the C++ result of the same name, and all C functions treat targets, database materials, missing densities and settings alike.",
     ["inputs", "configurations"], "all argument values and all values of the C-side settings",
     "A dropped or swapped argument agrees with the right one for the few argument values a test uses; agreement between all wrappers is a relation over all of them.",
     ["src/cwrapper.cpp", "include/catima/cwrapper.h"],
     [("wrappers", "catima_calculate, catima_Eout, catima_range, catima_range_straggling, catima_*_straggling_from_E, catima_nonreaction_rate, atomic_weight"), ("target assembly", "make_material")],
     ["catima_defaults"], ["return values of the C functions"])

prop("P07", "Lookups in the built-in tables never leave the table",
     "For every atomic number of at least one, every isotope index and every energy, including values beyond the tabulated range, infinities and not-a-number, each access to a fixed-size data table stays inside that table.",
     ["inputs"], "all atomic numbers >= 1, all isotope indices, all energies",
     "An out-of-range read usually returns a neighbouring number instead of failing, and only at boundary inputs.",
     ["src/calculations.cpp", "src/srim.cpp", "src/abundance_database.cpp", "src/nucdata.cpp", "include/catima/nucdata.h", "include/catima/storage.h", "include/catima/spline.h", "include/catima/data_ionisation_potential.h"],
     [("table indexing", "every access to a fixed-size array reachable from the public functions")],
     [], ["precalculated_lindhard, ipot, srim_dedx_e, element_density, abundance getters, spline evaluation"])

prop("P08", "Every database material exists and has a chemically valid composition",
     "Every material identifier in the database yields a material with a positive density and known elements, listed once each, either as whole-number atom counts or as weight fractions totalling one; unknown identifiers yield an empty material. Where the identifier is a chemical formula or a compound with a fixed molecular formula, the composition equals that formula, and every identifier can be found again from its material when exporting.",
     ["inputs"], "all material identifiers and all element numbers",
     "There are 149 hand-written entries; tests touch a few of them.",
     ["src/material_database.cpp", "include/catima/material_database.h", "include/catima/convert.h"],
     [("dispatch", "get_compound, get_material"), ("identifier list", "enum class material"), ("reverse lookup", "materialdb_id")],
     [], ["get_material(id)", "save_mocadi output"])

prop("P09", "Isotope, weight and density-effect tables are mutually consistent",
     "For every element the isotopes are listed from most to least abundant with abundances totalling one, and their abundance-weighted mass agrees with the tabulated atomic weight. Densities and ionisation potentials are positive and plausible for every element, and each element's density-effect parameters describe a correction continuous at its onset energy.",
     ["inputs"], "all elements and all isotopes in the built-in tables",
     "Hundreds of constants; a test compares a handful against copies of themselves, not against the relations they must satisfy.",
     ["src/abundance_database.cpp", "src/nucdata.cpp", "include/catima/data_ionisation_potential.h", "include/catima/data_atima.h"],
     [("tables", "isotopes_*, element_atomic_weights, element_densities, ionisation_potentials_z, density_effect::*")],
     [], ["get_isotope_a, get_abundance, element_atomic_weight, element_density, ipot"])

prop("P10", "Precalculated correction tables match their generator and their lookup",
     "The precalculated correction tables have one complete row per atomic number up to the maximum the lookup uses, on the energy grid and mass step with which the generator produced them. The lookup selects the row of the projectile's atomic number, interpolates between the two mass points with that same mass step, and holds the last tabulated value beyond the grid.",
     ["inputs"], "all projectile atomic numbers, masses and energies",
     "Generator, table file and lookup are three separate pieces of code; a disagreement changes values only for some rows, masses or energies.",
     ["utils/generator.cpp", "include/catima/generated_LS_coeff.h", "src/calculations.cpp", "include/catima/storage.h"],
     [("writer", "utils/generator.cpp main"), ("tables", "ls_coefficients::*"), ("reader", "precalculated_lindhard, precalculated_lindhard_X, EnergyTable_interpolate")],
     [], ["precalculated_lindhard(_X)"])

prop("P11", "Every numerical quadrature rule integrates polynomials exactly",
     "For every provided order, the Gauss-Legendre and Gauss-Kronrod rules integrate every polynomial up to the degree guaranteed by theory exactly on any interval, and the embedded error estimate vanishes for polynomials up to the Gauss degree but not for the next one. The reported evaluation points are exactly the points used by the rule, and interval splitting covers the whole interval once.",
     ["inputs", "configurations"], "all provided orders, all intervals, all polynomials up to the rule's degree",
     "Tests integrate a few functions with loose tolerance; one wrong node or weight can hide in it, and most orders are not instantiated at all.",
     ["include/catima/glq_integrator.h", "include/catima/gkq_integrator.h", "include/catima/integrator.h"],
     [("rules", "GaussLegendreIntegration<N>::integrate/get_points, GaussKronrodIntegration<N>::*"), ("tables", "GL_data<N>, GK_data<N>")],
     [], ["integrate, integrate_nonadaptive, get_points"])

prop("P12", "The table spline passes through its data and is smooth everywhere",
     "For any table values, the interpolating spline reproduces the value at every node, and its value, first and second derivative are continuous across every interior node. The derivative function is the exact derivative of the value function, inside the table and in both extrapolation regions, and extrapolation joins the table with continuous value and slope.",
     ["inputs"], "all strictly increasing node positions, all data values, all evaluation points",
     "Coefficient mistakes give small errors for smooth physics tables; tests check values with tolerance only.",
     ["include/catima/spline.h", "include/catima/storage.h"],
     [("solver", "tridiagonal_matrix<N>::operator(), trig_solve"), ("coefficients", "cspline_special constructor"), ("evaluation", "cspline_special::evaluate, deriv; InterpolatorCSpline")],
     [], ["range_spline(T), range_spline.derivative(T)"])

prop("P13", "Every configuration switch selects exactly its documented model",
     "Each effective-charge, straggling, low-energy and scattering option evaluates its own formula with the arguments that formula expects, and each correction switch removes exactly its own correction and nothing else, alone and in every combination. No option value silently behaves like another.",
     ["configurations", "inputs"], "all values and combinations of the configuration options, all projectiles, targets and energies",
     "The combinations multiply, and most options differ little numerically from the default at the energies the tests use.",
     ["src/calculations.cpp", "src/catima.cpp", "include/catima/config.h"],
     [("effective charge", "z_effective"), ("corrections", "bethek_dedx_e"), ("straggling", "dedx_variance"), ("low energy", "sezi_dedx_e, srim_dedx_e"), ("scattering", "da2dx, angular_variance, calculate")],
     [], ["dedx, domega2dx, z_effective, calculate().sigma_a"])

prop("P14", "Every calculation terminates",
     "For every input, including stopped, extremely thick, non-physical or not-a-number inputs, each public calculation ends after a bounded number of steps: every loop it can reach has an iteration bound independent of numerical convergence, and every recursion a decreasing depth.",
     ["inputs"], "all inputs, in particular those for which iterative solutions do not converge",
     "Non-termination appears only for inputs where the iteration fails to converge.",
     ["src", "include/catima"],
     [("loops", "every loop reachable from the public calculation functions"), ("iteration", "energy_out"), ("recursion", "integrate_adaptive")],
     [], ["any public calculation"])

prop("P15", "Each single-layer result is consistent with itself",
     "For any projectile, layer and configuration: the reported energy loss equals mass times the difference of entry and exit energy, and entry and exit stopping power are mass over the slope of the range curve at those energies. The exit energy is zero exactly when the particle stops and otherwise at least the low-energy cut-off; a stopped particle has zero exit stopping power, straggling and flight time, and a layer of zero thickness changes nothing.",
     ["inputs"], "all projectiles, energies, layers and configurations",
     "The relations must hold on every branch (stopped, thin, thick, zero thickness, each scattering option); tests sample some branches at some energies.",
     ["src/catima.cpp", "include/catima/structures.h"],
     [("assembly", "calculate(Projectile, Material, Config)"), ("exit energy", "energy_out")],
     [], ["fields of Result"])

prop("P16", "Multi-layer totals are composed correctly from the layers",
     "For any number of layers, each layer is calculated once, in order, with the previous layer's exit energy as its entry energy, and its result is reported. Total energy loss and flight time are sums over the layers, total energy and angular variances are sums of the layer variances plus the initial ones, survival is the product over the layers, position spread and covariance follow drift-plus-scattering transport, and the total entry and exit energies are those of the first and last layer, also when there are no layers. Combining stacks and materials keeps every layer in order, also when a stack is appended to itself.",
     ["inputs"], "all layer sequences of any length including none, all initial phase spaces",
     "Tests use a few stacks; the recurrences must hold for every length and every intermediate state.",
     ["src/catima.cpp", "src/structures.cpp"],
     [("composition", "calculate(Projectile, Phasespace, Layers, Config) and its short form"), ("stack", "Layers::add, operator+")],
     [], ["fields of MultiResult"])

prop("P17", "Material quantities are weight-fraction sums over all components",
     "For a material with any number of components, stopping power and straggling are the sums of the component values weighted with the component's weight fraction, and inverse radiation and scattering lengths are the weighted sums of the inverse component lengths. Every component contributes exactly once, with its own mass and atomic number and the projectile's actual energy.",
     ["inputs"], "all materials with any number of components given as atom counts or weight fractions, all projectiles",
     "Tests use few compounds; dropping or mis-weighting a component passes for elements and for compounds with similar components.",
     ["src/calculations.cpp", "src/catima.cpp", "include/catima/structures.h"],
     [("mixing", "dedx_n, bethek_dedx_e, sezi_dedx_e, domega2dx, radiation_length, scattering_length (material versions)"), ("weights", "Material::weight_fraction, molar_fraction")],
     [], ["dedx, domega2dx, radiation_length"])

prop("P18", "Stopping power and cross section do not jump where models switch",
     "At every energy at which the total stopping power switches between its low-energy, blended and high-energy forms, the formulas on both sides give the same value for every projectile, material and configuration. The same holds where proton stopping switches to its low-energy extension and where the reaction cross section switches its energy dependence.",
     ["inputs", "configurations"], "all projectiles, materials and configurations at each switching energy",
     "A jump is visible only when probing both sides of a switching energy, for a projectile and material where the two models differ.",
     ["src/catima.cpp", "src/srim.cpp", "src/reactions.cpp"],
     [("blend", "dedx"), ("low-energy extension", "p_se, p_se85"), ("cross section", "SigmaR_Kox")],
     [], ["dedx, SigmaR_Kox, p_se"])

prop("P19", "Public headers can be used in any combination and are fully implemented",
     "Every public header compiles on its own, any number of times in one file, in any order with the others and in several files of one program, and the C header compiles as C. Every function the headers declare is defined by the library exactly once.",
     ["programs"], "all client programs including any subset of the headers in any order from any number of files",
     "The tests include a few headers in a fixed order, one file per program.",
     ["include/catima", "src"],
     [("headers", "include/catima/*.h"), ("definitions", "src/*.cpp")],
     [], ["compile and link of client programs"])

prop("P20", "Every combination of build options yields a working, equivalent library",
     "With every combination of the documented on/off build options the library compiles and offers the same public functions. Whichever way interpolators are provided, each accessor yields the interpolation of its own table, and whichever way table positions are found, the position is the table interval containing the value and never lies outside the table.",
     ["configurations"], "all combinations of the reaction, stored-spline, thin-target and calculated-index options",
     "The tests are built with one combination only.",
     ["CMakeLists.txt", "build_config.in", "src", "include/catima"],
     [("options", "REACTIONS, STORE_SPLINES, THIN_TARGET_APPROXIMATION, ET_CALCULATED_INDEX")],
     [], ["compile of all units per combination", "get_*_spline"])

prop("P21", "Scalar, vector and short forms of a function agree",
     "Functions offered for a single energy, for a list of energies and in shortened forms give identical results: for every energy not below the low-energy cut-off each element of a list result equals the single-energy result, in the order of the list and for every element. Straggling equals the square root of the corresponding variance, and short forms equal the full form with the documented defaults.",
     ["inputs"], "all energies, list lengths, projectiles, materials and configurations",
     "Agreement is a relation between two pieces of code for all inputs; tests compare them, if at all, at single points.",
     ["src/catima.cpp", "include/catima/catima.h"],
     [("pairs", "energy_out, dedx_from_range scalar/vector; range_straggling/range_variance; angular_straggling/angular_variance; calculate overloads")],
     [], ["return values"])

prop("P22", "Masses, energies and thicknesses are never silently truncated",
     "Masses, energies, amounts, densities and thicknesses enter every formula with their full value; none is converted to an integer except by explicit rounding where an integer nuclide mass is needed. In particular non-integral atomic weights are used as given.",
     ["inputs"], "all non-integral masses, energies and amounts",
     "Truncation changes results by a few per cent at most and not at all for the integral masses tests like to use.",
     ["src", "include/catima"],
     [("conversions", "every floating-point to integer conversion reachable from the public functions")],
     [], ["scattering_length, srim, reaction rates"])

prop("P23", "Computed ranges, losses and stragglings agree with reference data",
     "For physical projectiles, materials and energies the computed stopping powers, ranges, stragglings and reaction rates are finite, ranges grow with energy, and values agree with the published reference codes within the documented accuracy.",
     ["inputs"], "all physical projectiles, targets and energies",
     "The input space is continuous and the reference values are sampled.",
     ["src/catima.cpp", "src/calculations.cpp", "src/srim.cpp"],
     [("physics formulas", "dedx, domega2dx, range, calculate")],
     [], ["numerical results"])

prop("P24", "Tabulated ranges and stragglings are running integrals over the energy grid",
     "Each table starts at zero at the lowest grid energy and grows from one grid energy to the next by the mass times the integral of its rate: the inverse stopping power for the range, the energy straggling over the cubed stopping power for the range variance, and the scattering power over the stopping power for the angular variance. The flight-time table grows likewise by the integral of the inverse of stopping power times velocity, in nanoseconds, starting from the low-energy cut-off.",
     ["inputs"], "all projectiles, materials, configurations and grid points",
     "A wrong bound, factor or rate changes all later entries smoothly; tests compare a few values with wide tolerance.",
     ["src/catima.cpp", "include/catima/storage.h"],
     [("tables", "calculate_DataPoint"), ("flight time", "calculate_tof")],
     [], ["range, range straggling and angular variance tables, calculate_tof"])

prop("P25", "Functions returning one quantity follow its definition and the shared tables",
     "Range, stopping power from range, stragglings, exit energy, flight time and width magnification are evaluated from the table of exactly the given projectile, material and configuration, by their defining relations. The moments of the scattering angle integrate the selected scattering power over the path actually travelled, and survival and production rates follow the exponential attenuation law with the layer's areal density and the most abundant isotope of every component.",
     ["inputs"], "all projectiles, layers, energies and configurations",
     "Each function has branches (stopped, thin, scattering option, equal cross sections) that tests sample at few points and with tolerance.",
     ["src/catima.cpp", "src/reactions.cpp", "include/catima/reactions.h"],
     [("table use", "range, dedx_from_range, range_straggling, energy_out, energy_straggling_from_E, w_magnification"), ("scattering", "angular_variance"), ("reactions", "nonreaction_rate, production_rate")],
     [], ["return values"])
prop("P26", "Kinematics and physics models are their published formulas",
     "Velocity, momentum and centre-of-mass energy follow relativistic kinematics, and nuclear stopping, the Barkas, density, pair-production and bremsstrahlung corrections, radiation and scattering lengths, scattering power, the low-energy stopping of protons, helium and heavy ions and the reaction cross section equal their published formulas with the published constants and the element's own tabulated parameters. This holds in every energy region of each formula and for every element, including those beyond the tabulated ones.",
     ["inputs"], "all energies, projectiles and elements (heavy ions: ten projectiles)",
     "Tests compare a few end results to about a per cent; a wrong constant, sign or region limit in one formula stays inside that or is not met.",
     ["src/calculations.cpp", "src/srim.cpp", "src/reactions.cpp"],
     [("formulas", "dedx_n, bethek_barkas, bethek_density_effect, pair_production, bremsstrahlung, radiation_length, scattering_length"), ("low energy", "p_se, p_se85, srim_dedx_e"), ("cross section", "SigmaR_Kox")],
     [], ["return values"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
