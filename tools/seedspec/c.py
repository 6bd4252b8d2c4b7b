exec(open(__file__.replace("c.py", "b.py")).read() if "__file__" in dir() else open("/verif/tools/seedspec/b.py").read())
SEEDS = [
    ("t15_zero_thickness", "P15",
     [(C, "    if(t.thickness()==0){\n        res.dEdxo = res.dEdxi;\n", "    if(t.thickness()==0){\n")],
     H + '''int main(){
    Material c(12.011,6,2.0,0.0);
    Projectile p(12,6,6,100);
    Result r = calculate(p,c);
    printf("%g %g\\n",r.dEdxi,r.dEdxo);
    return r.dEdxi==r.dEdxo?0:1;
}
''', "a layer of zero thickness", "the exit stopping power is missing"),
    ("t16_initial_cov", "P16",
     [(C, "    res.total_result.cov = ps.cov_x;\n", "    res.total_result.cov = ps.cov_x*ps.sigma_a;\n")],
     H + '''int main(){
    Projectile p(12,6,6,300);
    Phasespace ps; ps.sigma_x=0.3; ps.sigma_a=0.01; ps.cov_x=0.0005;
    Layers l;
    MultiResult r = calculate(p,ps,l);
    printf("%g\\n",r.total_result.cov);
    return same(r.total_result.cov,ps.cov_x)?0:1;
}
''', "a beam with an initial position-angle correlation", "the initial covariance is scaled"),
    ("t19_not_inline", "P19",
     [("include/catima/convert.h", "inline int materialdb_id(const Material &m){", "int materialdb_id(const Material &m){")],
     '''#!/bin/bash
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '#include <cmath>\\n#include "catima/catima.h"\\n#include "catima/convert.h"\\nint f(){ return materialdb_id(catima::get_material(203)); }\\n' > "$T/a.cpp"
printf '#include <cmath>\\n#include "catima/catima.h"\\n#include "catima/convert.h"\\nint f();\\nint main(){ return f() == materialdb_id(catima::get_material(203)) ? 0 : 1; }\\n' > "$T/b.cpp"
g++ -std=c++17 -Iinclude -I_build/generated "$T/a.cpp" "$T/b.cpp" _build/libcatima.so -Wl,-rpath,"$PWD/_build" -o "$T/demo" 2>"$T/log" || { tail -2 "$T/log"; exit 1; }
"$T/demo"
''', "two files of one program including the conversion header", "the function is defined several times"),
    ("t25_straggling_slope", "P25",
     [(C, "    double dEdxo = p.A/range_spline.derivative(Tout);\n    return dEdxo*", "    double dEdxo = p.A/range_spline.derivative(T);\n    return dEdxo*")],
     H + '''int main(){
    Projectile p(12,6,6,300);
    Material m(12.011,6,2.0,5.0);
    Result r = calculate(p,m);
    double s = energy_straggling_from_E(p,300,r.Eout,m);
    printf("%g %g\\n",r.sigma_E,s);
    return same(r.sigma_E,s,1e-6)?0:1;
}
''', "energies far enough apart for the stopping power to change", "the straggling is scaled with the entry stopping power"),
]
