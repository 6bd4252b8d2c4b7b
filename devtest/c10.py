C, S, G, U = "src/calculations.cpp", "include/catima/storage.h", "include/catima/generated_LS_coeff.h", "utils/generator.cpp"
L1 = "    double v2 = EnergyTable_interpolate(ls_coefficients::ls_energy_table,T,ls_coefficients::ls_coefficients_ahi[z]);"
L2 = "    double v2 = EnergyTable_interpolate(ls_coefficients::ls_energy_table,T,ls_coefficients::ls_X_coefficients_ahi[z]);"
X1 = "    double v1 = EnergyTable_interpolate(ls_coefficients::ls_energy_table,T,ls_coefficients::ls_X_coefficients_a[z]);"
ENTRIES = [
    ("row", "bug", ["P10"], [(C, L2, L2.replace("ahi[z]", "ahi[z+1]"))]),
    ("wrong-table", "bug", ["P10"], [(C, X1, X1.replace("ls_X_", "ls_"))]),
    ("maxz", "bug", ["P10"], [(G, "#define LS_MAX_Z 108", "#define LS_MAX_Z 107")]),
    ("inc", "bug", ["P10"], [(G, "a_rel_increase=0.05", "a_rel_increase=0.5")]),
    ("grid", "bug", ["P10"], [(G, "ls_energy_table(0,7)", "ls_energy_table(0,7.5)")]),
    ("value", "bug", ["P10"], [(G, ",-0.00871585,", ",-0.0871585,")]),
    ("clampx", "bug", ["P10"], [(C, "    if(p.T<ls_coefficients::ls_energy_table(0))return 1.0;", "    if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);")]),
    ("interp", "bug", ["P10"], [(S, "r = (x*y[i]) + ((1-x)*y[i+1]);", "r = ((1-x)*y[i]) + (x*y[i+1]);")]),
    ("last", "bug", ["P10"], [(S, "if(i>=table.size()-1)return y[table.size()-1];", "if(i>=table.size()-1)return y[table.size()-2];")]),
    ("noextra", "bug", ["P10"], [(C, "LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);\n\n", "LS_NUM_ENERGY_POINTS-1))return 0;\n\n")]),
    ("da", "bug", ["P10"], [(C, "    double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);\n    z = z-1;\n    double v1", "    z = z-1;\n    double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);\n    double v1")]),
    ("gen-step", "bug", ["P10"], [(U, "dx = p.A*0.05", "dx = p.A*0.1")]),
    ("gen-grid", "bug", ["P10"], [(U, "logEmin_forLS = 0.0", "logEmin_forLS = -1.0")]),
    ("r-linear", "ok", None, [(S, "r = (x*y[i]) + ((1-x)*y[i+1]);", "r = y[i+1] + x*(y[i]-y[i+1]);")]),
    ("r-swap", "ok", None, [(C, "    if(z>LS_MAX_Z)z=LS_MAX_Z;\n    if(z<1)z=1;\n    if(p.T<", "    if(z<1)z=1;\n    else if(z>LS_MAX_Z)z=LS_MAX_Z;\n    if(p.T<")]),
    ("r-index", "ok", None, [(C, "    double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);\n    z = z-1;\n\n", "    const double w = element_atomic_weight(z);\n    double da = p.A/w - 1.0;\n    --z;\n\n")]),
    ("r-clamp", "ok", None, [(C, "    if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);\n    if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);\n\n", "    T = std::max(T, ls_coefficients::ls_energy_table(0));\n    T = std::min(T, ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1));\n\n")]),
]
