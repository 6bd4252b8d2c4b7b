H = '''#include "catima/catima.h"
#include "catima/reactions.h"
#include "catima/calculations.h"
#include "catima/material_database.h"
#include "catima/nucdata.h"
#include "catima/abundance_database.h"

#include <cstdio>
#include <cmath>
using namespace catima;
static bool same(double a, double b, double eps=1e-9){ return std::fabs(a-b) <= eps*(std::fabs(a)+std::fabs(b)); }
'''
CW = '''#include "catima/cwrapper.h"
#include "catima/catima.h"
#include "catima/material_database.h"
#include <cstdio>
#include <cmath>
static bool same(double a, double b){ return std::fabs(a-b) <= 1e-9*(std::fabs(a)+std::fabs(b)); }
'''
ASAN = """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -fsanitize=address,bounds -fno-sanitize-recover=all -Iinclude -I_build/generated "$D/demo.cpp" src/*.cpp -o "$T/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 200 "$T/demo"
"""
C, K, S, ST = "src/catima.cpp", "src/calculations.cpp", "src/structures.cpp", "src/storage.cpp"
SEEDS = [
    ("t06_out_density", "P06",
     [("src/cwrapper.cpp", "        return catima::energy_straggling_from_E(p,Tin,Tout,mat,c);", "        return catima::energy_straggling_from_E(p,Tin,Tout,mat);")],
     CW + '''int main(){
    catima_defaults.z_effective = z_eff_type::hubert;
    catima::Config c = catima::default_config;
    c.z_effective = z_eff_type::hubert;
    catima::Projectile p(238,92);
    double want = catima::energy_straggling_from_E(p,500,300,catima::get_material(6),c);
    double got = catima_energy_straggling_from_E(238,92,500,300,12.011,6);
    printf("%g %g\\n",want,got);
    return same(want,got)?0:1;
}
''', "an effective-charge setting different from the default", "the energy straggling of the C interface ignores the chosen effective charge"),
    ("t07_density_effect", "P07",
     [(K, "    if(zt>97){  // check if data are available, if not take highest z data\n        zt=97;", "    if(zt>98){  // check if data are available, if not take highest z data\n        zt=98;")],
     H + '''int main(){ double s=0; for(int z=1;z<=130;z++) s += bethek_density_effect(0.9,z); printf("%g\\n",s); return 0; }
''', "a target beyond berkelium", "the density effect is read behind the end of its tables", {"sh": ASAN}),
    ("t08_adenine", "P08",
     [("src/material_database.cpp", "case material::Adenine:	 return Material({{0,1,5},{0,6,5},{0,7,5}},1.35);", "case material::Adenine:	 return Material({{0,1,5},{0,6,5},{0,7,4}},1.35);")],
     H + '''int main(){ Material m = get_compound(material::Adenine); double n[3]={0,0,0};
    for(int i=0;i<m.ncomponents();i++){ auto t = m.get_element(i); if(t.Z==1)n[0]+=t.stn; if(t.Z==6)n[1]+=t.stn; if(t.Z==7)n[2]+=t.stn; }
    printf("%g %g %g\\n",n[0],n[1],n[2]);
    return (n[0]==5 && n[1]==5 && n[2]==5)?0:1;
}
''', "a request for this compound", "adenine has one nitrogen atom too few"),
    ("t09_isotope_order", "P09",
     [("src/abundance_database.cpp", "20,22,21,23,24,26,25,27,", "20,22,21,23,24,25,26,27,")],
     H + '''int main(){ double m=0; for(int i=0;i<abundance::get_isotopes_num(12);i++) m += abundance::get_isotope_a(12,i)*abundance::get_abundance(12,i);
    printf("%g, %d before %d\\n",m,abundance::get_isotope_a(12,1),abundance::get_isotope_a(12,2));
    return abundance::get_isotope_a(12,1)==26 ? 0 : 1; }
''', "a query for the rarer isotopes of magnesium", "two isotopes of magnesium carry each other's abundance"),
    ("t10_mass_step", "P10",
     [(K, "    double dif = v2 - v1;\n    return v1+(dif*da/ls_coefficients::a_rel_increase);\n\n}", "    double dif = v2 - v1;\n    return v1+(dif*da*ls_coefficients::a_rel_increase);\n\n}")],
     H + '''int main(){
    // a projectile at the upper mass point of the table
    double w = element_atomic_weight(92);
    Projectile a(w,92,92,1000), b(1.05*w,92,92,1000), m(1.025*w,92,92,1000);
    double d = bethek_lindhard(b)-bethek_lindhard(a), g = precalculated_lindhard(b)-precalculated_lindhard(a);
    printf("%g %g\\n",d,g);
    return std::fabs(g-d) < 0.2*std::fabs(d) ? 0 : 1;
}
''', "a heavy projectile whose mass differs from the atomic weight", "the mass dependence of the correction is nearly lost"),
    ("t11_points", "P11",
     [("include/catima/glq_integrator.h", "        points[num-i-1+odd] = -p*x(i) + q;\n        points[num+i] = p*x(i) + q;", "        points[num-i-1+odd] = -p*x(i) + q;\n        points[num+i] = p*x(i) - q;")],
     '''#include "catima/glq_integrator.h"
#include <cstdio>
#include <cmath>
#include <vector>
int main(){
    integrators::GaussLegendreIntegration<8> g; std::vector<double> used;
    auto f = [&](double x){ used.push_back(x); return x; };
    g.integrate(f,2,5);
    for(double q : g.get_points(2,5)){ bool found=false; for(double u:used) found = found || std::fabs(u-q)<1e-12; if(!found){ printf("%g never used\\n",q); return 1; } }
    return 0;
}
''', "an interval not centred at zero", "half of the reported points are not the points of the rule"),
    ("t12_extrapolation", "P12",
     [("include/catima/spline.h", "    m_c0 = m_c[0];", "    m_c0 = (y[1]-y[0])/(x[1]-x[0]);")],
     H + '''#include "catima/storage.h"
int main(){
    std::vector<double> y; for(int i=0;i<max_datapoints;i++) y.push_back(std::sin(0.3*i));
    Interpolator s(energy_table,y);
    double e = energy_table(0);
    double l = s.derivative(e*(1-1e-9)), r = s.derivative(e*(1+1e-9));
    printf("%g %g\\n",l,r);
    return same(l,r,1e-4)?0:1;
}
''', "an energy below the table", "the slope jumps at the lower end of the table"),
    ("t13_no_lindhard", "P13",
     [(K, "    if(!(c.corrections&corrections::no_barkas)){", "    if(!(c.corrections&(corrections::no_barkas|corrections::no_lindhard))){")],
     H + '''int main(){
    Target t; t.A=12.011; t.Z=6;
    Projectile p(238,92,92,300);
    Config a,b,c,d;
    b.corrections = corrections::no_lindhard; c.corrections = corrections::no_barkas; d.corrections = corrections::no_barkas|corrections::no_lindhard;
    double s0=bethek_dedx_e(p,t,a), s1=bethek_dedx_e(p,t,b), s2=bethek_dedx_e(p,t,c), s3=bethek_dedx_e(p,t,d);
    printf("%g %g %g %g\\n",s0,s1,s2,s3);
    return same(s0-s1,s2-s3,1e-6)?0:1;   // removing one correction costs the same with and without the other
}
''', "the Lindhard correction switched off alone", "the Barkas correction is removed as well"),
    ("t14_no_progress", "P14",
     [(C, "        if(e<Ezero)return 0.0;\n        dedx = 1.0/range_spline.derivative(e);\n        counter++;\n", "        if(e<Ezero)return 0.0;\n        dedx = 1.0/range_spline.derivative(e);\n        if(step==0.0)counter++;\n")],
     H + '''#include <unistd.h>
int main(){
    alarm(20);
    Material c(12.011,6,2.0,0.1);
    Projectile p(12,6,6,std::nan(""));
    double e = energy_out(p,c);
    printf("%g\\n",e);
    return 0;
}
''', "an input for which the iteration does not converge, such as an energy that is not a number", "the search for the exit energy never ends"),
    ("t15_stopped_tof", "P15",
     [(C, "    if(res.Eout<Ezero){\n        res.dEdxo = 0.0;\n        res.sigma_a = 0.0;\n        res.tof = 0.0;", "    if(res.Eout<Ezero){\n        res.dEdxo = 0.0;\n        res.sigma_a = 0.0;\n        res.tof = (t.density()>0.0)?calculate_tof_from_E(p,Ezero,t,c):0.0;")],
     H + '''int main(){
    Material c(12.011,6,2.0,10.0);
    Projectile p(12,6,6,100);
    Result r = calculate(p,c);
    printf("%g %g\\n",r.Eout,r.tof);
    return (r.Eout==0.0 && r.tof==0.0)?0:1;
}
''', "a projectile stopped in the layer", "a stopped particle has a flight time"),
    ("t16_covariance", "P16",
     [(C, "        res.total_result.cov += a2*m.thickness_cm() + r.cov;\n        res.total_result.sigma_a += r.sigma_a*r.sigma_a;", "        res.total_result.sigma_a += r.sigma_a*r.sigma_a;\n        res.total_result.cov += res.total_result.sigma_a*m.thickness_cm() + r.cov;")],
     H + '''int main(){
    Projectile p(12,6,6,300);
    Material a(12.011,6,2.0,0.5), b(0,13,2.7,0.5);
    Layers l; l.add(a); l.add(b);
    MultiResult r = calculate(p,l);
    double cov = r.results[0].cov + r.results[0].sigma_a*r.results[0].sigma_a*b.thickness_cm() + r.results[1].cov;
    printf("%g %g\\n",cov,r.total_result.cov);
    return same(cov,r.total_result.cov)?0:1;
}
''', "a stack of layers with scattering", "the covariance counts the scattering of each layer over its full thickness"),
    ("t17_natural_mass", "P17",
     [(K, "        sum += w/radiation_length(t.Z,t.A);", "        sum += w/radiation_length(t.Z,element_atomic_weight(t.Z));")],
     H + '''int main(){
    Material m(41.0,19,1.0,0.1);   // one isotope of potassium
    double want = radiation_length(19,41.0), got = radiation_length(m);
    printf("%g %g\\n",want,got);
    return same(want,got)?0:1;
}
''', "a target given as a single isotope of an element without a tabulated length", "the natural atomic weight replaces the component's mass"),
    ("t18_blend", "P18",
     [(C, "        double factor = 0.05 * ( p.T - 10.0 );", "        double factor = 0.05 * p.T - 0.45;")],
     H + '''int main(){
    Material m(12.011,6,2.0,0.1);
    Projectile p(12,6);
    double worst=0;
    for(double e : {10.0,30.0}){ double a=dedx(p(e-1e-7),m), b=dedx(p(e+1e-7),m); worst = std::max(worst,std::fabs(a-b)/a); }
    printf("%g\\n",worst);
    return worst<1e-5?0:1;
}
''', "an energy just at 10 or 30 MeV/u", "the stopping power jumps at the ends of the blended region"),
    ("t19_not_inline", "P19",
     [("include/catima/reactions.h", "inline double Ecm_from_T(double T, double Ap, double At){", "double Ecm_from_T(double T, double Ap, double At){")],
     '''#!/bin/bash
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '#include "catima/catima.h"\\n#include "catima/reactions.h"\\ndouble f(double e){ return catima::Ecm_from_T(e,12,12); }\\n' > "$T/a.cpp"
printf '#include "catima/catima.h"\\n#include "catima/reactions.h"\\ndouble f(double);\\nint main(){ return f(1) == catima::Ecm_from_T(1,12,12) ? 0 : 1; }\\n' > "$T/b.cpp"
g++ -std=c++17 -Iinclude -I_build/generated "$T/a.cpp" "$T/b.cpp" _build/libcatima.so -Wl,-rpath,"$PWD/_build" -o "$T/demo" 2>"$T/log" || { tail -2 "$T/log"; exit 1; }
"$T/demo"
''', "two files of one program including the reaction header", "the function is defined several times"),
    ("t20_thin", "P20",
     [(C, "        #else\n        res.sigma_E = res.dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(res.Eout))/p.A;\n        if(use_angular_spline){", "        #else\n        res.sigma_E = dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(res.Eout))/p.A;\n        if(use_angular_spline){")],
     '''#!/bin/bash
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cmake -S . -B "$T/b" -DTHIN_TARGET_APPROXIMATION=OFF -DTESTS=OFF -DCMAKE_BUILD_TYPE=Release >/dev/null || exit 3
cmake --build "$T/b" -j4 >"$T/log" 2>&1 || { grep -m2 error "$T/log"; exit 1; }
exit 0
''', "a build without the thin target approximation", "the library does not compile"),
    ("t21_list_gap", "P21",
     [(C, "        if(e<catima::Ezero){\n            dedx.push_back(0.0);\n        }", "        if(e<catima::Ezero){\n            continue;\n        }")],
     H + """int main(){
    Material m(12.011,6,2.0,0.3);
    Projectile p(12,6);
    std::vector<double> e{100.0,1e-9,300.0};
    auto v = dedx_from_range(p,e,m);
    printf("%zu values\\n",v.size());
    if(v.size()!=e.size())return 1;
    return same(v[2],dedx_from_range(p(300.0),m))?0:1;
}
""", "a list containing an energy below the low-energy cut-off", "the remaining values of the list move to the wrong place"),
    ("t22_firsov_mass", "P22",
     [(K, "double energy_straggling_firsov(double z1,double energy, double z2, double m2){", "double energy_straggling_firsov(double z1,double energy, double z2, int m2){"),
      ("include/catima/calculations.h", "double energy_straggling_firsov(double z1,double energy, double z2, double m2);", "double energy_straggling_firsov(double z1,double energy, double z2, int m2);")],
     H + """int main(){ double a=energy_straggling_firsov(54,5,17,35.453), b=energy_straggling_firsov(54,5,17,35.0); printf("%g %g\\n",a,b); return same(a*35.453,b*35.0)?0:1; }
""", "a target with a non-integral atomic weight at low energy", "the atomic weight is cut to an integer in the low-energy straggling"),
    ("t24_tof_units", "P24",
     [(C, "        res = integrator.integrate(function,energy_table(i-1),energy_table(i));\n        res = res*10.0*p.A/(c_light*t.density());\n        res += values[i-1];", "        res = integrator.integrate(function,energy_table(i-1),energy_table(i));\n        res += values[i-1];\n        res = res*10.0*p.A/(c_light*t.density());")],
     H + """int main(){
    Material m(12.011,6,2.0,0.3);
    Projectile p(12,6);
    auto v = calculate_tof(p,m);
    double want = calculate_tof_from_E(p(energy_table(400)),energy_table(300),m), got = v[400]-v[300];
    printf("%g %g\\n",want,got);
    return same(want,got,1e-3)?0:1;
}
""", "the flight-time table", "the unit conversion is applied to the running sum at every step"),
    ("t25_tof_density", "P25",
     [(C, "    double rrange = std::min(range/t.density(), t.thickness_cm()); // residual range, in case of stopping inside material\n", "    double rrange = t.thickness_cm(); // path inside the material\n")],
     H + '''int main(){
    Projectile p(12,6,6,50);
    Material thick(12.011,6,2.0,3.0), stop(12.011,6,2.0,0.0);
    stop.thickness(range(p,thick));
    double a = angular_variance(p,thick,default_config,2), b = angular_variance(p,stop,default_config,2);
    printf("%g %g\\n",a,b);
    return same(a,b,1e-6)?0:1;
}
''', "a projectile that stops inside the layer", "the position spread is integrated beyond the stopping point"),
]
