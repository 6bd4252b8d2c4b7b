H = '''#include "catima/catima.h"
#include "catima/reactions.h"

#include <cstdio>
#include <cmath>
using namespace catima;
static bool same(double a, double b){ return std::fabs(a-b) <= 1e-9*(std::fabs(a)+std::fabs(b)); }
'''
SEEDS = [
    ("s01_component_z", "P01",
     [("src/structures.cpp", "        if(a.atoms[i].Z != b.atoms[i].Z)return false;\n", "")],
     H + '''int main(){
    Material ca(40.0,20,1.5,0.1), ar(40.0,18,1.5,0.1);
    Projectile p(12,6,6,200);
    double r1 = range(p,ca);
    double r2 = range(p,ar);
    _storage.Reset();
    double r3 = range(p,ar);
    printf("%g %g %g\\n",r1,r2,r3);
    return same(r2,r3)?0:1;
}
''', "two targets of equal mass number, density and amount but different element, requested one after the other",
     "the tables of the first element are reused for the second"),
    ("s02_accessor_unstored", "P02",
     [("src/storage.cpp", "        return Interpolator(energy_table,data.angular_variance);", "        return Interpolator(energy_table,data.range_straggling);")],
     H + '''int main(){
    Material c(12.011,6,2.0,0.1);
    Projectile p(12,6,6,100);
    const DataPoint &d = _storage.Get(p,c,default_config);
    Interpolator s = get_angular_variance_spline(d);
    double want = d.angular_variance[300], got = s(energy_table(300));
    printf("%g %g\\n",want,got);
    return same(want,got)?0:1;
}
''', "a build that does not store interpolators", "the angular variance accessor interpolates the range straggling table",
     {"sh": """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cmake -S . -B "$T/b" -DSTORE_SPLINES=OFF -DTESTS=OFF -DCMAKE_BUILD_TYPE=Release >/dev/null || exit 3
cmake --build "$T/b" -j4 >/dev/null 2>&1 || exit 3
g++ -std=c++17 -O1 -Iinclude -I"$T/b/generated" "$D/demo.cpp" "$T/b/libcatima.so" -Wl,-rpath,"$T/b" -o "$T/demo" || exit 3
timeout 120 "$T/demo"
"""}),
    ("s03_sp_bare", "P03",
     [("src/catima.cpp", "    res.Ein = T;\n    res.range = range_spline(T);\n",
       "    #ifdef REACTIONS\n    Projectile bare(p.A,p.Z);\n    res.sp = (t.thickness()>0)?nonreaction_rate(bare(T),t,c):1.0;\n    #endif\n    res.Ein = T;\n    res.range = range_spline(T);\n"),
      ("src/catima.cpp", "    #ifdef REACTIONS\n    res.sp = nonreaction_rate(p,t,c);\n    #endif\n    return res;", "    return res;")],
     H + '''int main(){
    Material c(12.011,6,2.0,0.1);
    Projectile p(40,20,12,300);        // not fully stripped
    Config k; k.z_effective = z_eff_type::none;
    double want = calculate(p,c,k).range;
    // every position of the insertion point relative to the held slot
    for(int n0=0;n0<=max_storage_data+1;n0++){
        _storage.Reset();
        range(p,c,k);
        for(int n=0;n<n0;n++){ Projectile q(20+n,10,10,100); range(q,c); }
        double got = calculate(p,c,k).range;
        if(!same(got,want)){ printf("after %d other requests range %g instead of %g\\n",n0,got,want); return 1; }
    }
    return 0;
}
''', "a projectile with electrons and a full cache whose next slot to be replaced is the held one",
     "the table in use is overwritten in the middle of the calculation"),
    ("s04_da2de_dedx", "P04",
     [("src/catima.cpp", "return da2dx(p,mat,c)/dedx(p,mat,c);", "return da2dx(p,mat,c)/dedx(p,mat);")],
     H + '''int main(){
    Config c; c.z_effective = z_eff_type::hubert; c.scattering = 255;
    Material m(12.011,6,2.0,0.05);
    Projectile p(238,92,0,50);
    double a = calculate(p,m,c).sigma_a;
    default_config = c;
    _storage.Reset();
    double b = calculate(p,m,c).sigma_a;
    printf("%g %g\\n",a,b);
    return same(a,b)?0:1;
}
''', "an explicit configuration whose effective-charge option differs from the default", "the angular scattering tables use the default configuration's stopping power"),
    ("s05_last_x0", "P05",
     [("src/calculations.cpp", "double radiation_length(const Material &material){\n    double sum = 0;    \n",
       "double radiation_length(const Material &material){\n    static double last_M = 0.0;\n    static double last_X = 0.0;\n    if(material.M()==last_M)return last_X;\n    last_M = material.M();\n    double sum = 0;\n"),
      ("src/calculations.cpp", "        sum += w/radiation_length(t.Z,t.A);\n    }\n    return 1/sum;", "        sum += w/radiation_length(t.Z,t.A);\n    }\n    last_X = 1/sum;\n    return last_X;")],
     H + '''int main(){
    Material co({{12,6,1},{16,8,1}},1.0), n2({{14,7,2}},1.0), x({{1,1,1}},1.0);
    double a = radiation_length(n2);
    radiation_length(x);
    radiation_length(co);
    double b = radiation_length(n2);
    printf("%g %g\\n",a,b);
    return a==b?0:1;
}
''', "two different materials of equal molar mass used one after the other", "the radiation length of the previous material is returned"),
]
