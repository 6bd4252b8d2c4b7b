exec(open("/verif/tools/seedspec/b.py").read())
SEEDS = [
    ("t06_no_density", "P06",
     [("src/cwrapper.cpp", "        if(density<=0.0){\n            catima::Material m0", "        if(density<0.0){\n            catima::Material m0")],
     CW + """int main(){
    double a = catima_calculate(12,6,500,0,13,0.5,0.0).tof, b = catima_calculate(12,6,500,0,13,0.5,-1.0).tof;
    printf("%g %g\\n",a,b);
    return (std::isfinite(a) && same(a,b))?0:1;
}
""", "a call without a density (zero)", "the tabulated density is not filled in"),
    ("t10_relative_mass", "P10",
     [(K, "    if(p.T<ls_coefficients::ls_energy_table(0))return 1.0;\n    if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);\n    double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);",
          "    if(p.T<ls_coefficients::ls_energy_table(0))return 1.0;\n    if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);\n    double da = (p.A - element_atomic_weight(z))/p.A;")],
     H + '''#include "catima/storage.h"
#include "catima/generated_LS_coeff.h"
int main(){
    double w = element_atomic_weight(92), k = 1.0+ls_coefficients::a_rel_increase;
    int n = 40;
    double e = ls_coefficients::ls_energy_table(n);
    Projectile p(k*w,92,92,e);
    double want = ls_coefficients::ls_X_coefficients_ahi[91][n], got = precalculated_lindhard_X(p);
    printf("%.12g %.12g\\n",want,got);
    return same(want,got,1e-12)?0:1;
}
''', "a projectile heavier than its natural atomic weight", "the upper mass point of the straggling correction is not reproduced"),
    ("t19_undefined", "P19",
     [(K, "double reduced_energy_loss_unit(const Projectile &p, const Target &t){", "double reduced_energy_loss_unit(Projectile &p, const Target &t){")],
     H + '''int main(){ const Projectile p(12,6,6,100); Target t; t.A=12; t.Z=6; double r = reduced_energy_loss_unit(p,t); printf("%g\\n",r); return r>0?0:1; }
''', "a program using this declared function", "the declared function is not defined, the program does not link",
     {"sh": """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -Iinclude -I_build/generated "$D/demo.cpp" _build/libcatima.so -Wl,-rpath,"$PWD/_build" -o "$T/demo" 2>"$T/log" || { tail -2 "$T/log"; exit 1; }
timeout 120 "$T/demo"
"""}),
    ("t25_omega_energy", "P25",
     [(C, "    return range_straggling_spline.derivative(T);", "    return range_straggling_spline.derivative(p.T);")],
     H + '''int main(){
    Projectile p(12,6,6,300);
    Material m(12.011,6,2.0,5.0);
    double a = domega2de(p,50.0,m);
    p.T = 50.0;
    double b = domega2de(p,50.0,m);
    printf("%g %g\\n",a,b);
    return same(a,b)?0:1;
}
''', "an energy different from the projectile's own", "the given energy is ignored"),
]
