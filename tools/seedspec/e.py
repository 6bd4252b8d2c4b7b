exec(open("/verif/tools/seedspec/b.py").read())
R, M = "src/srim.cpp", "src/reactions.cpp"
SEEDS = [
    ("u26_barkas", "P26",
     [(K, "        for(i=1; i<4; i++){", "        for(i=2; i<4; i++){")],
     H + '''int main(){
    double zt = 6, v1 = 1.5, eta = v1*fine_structure*sqrt(zt);
    double want = 1.0+2.0*3.0*0.315/(v1*v1*sqrt(zt)), got = bethek_barkas(3.0,eta,zt);
    printf("%.12g %.12g\\n",want,got);
    return same(want,got)?0:1;
}
''', "a slow projectile, reduced velocity between 1 and 2", "the first segment of the tabulated function is skipped"),
    ("u26_density", "P26",
     [(K, "    if(zt>97){  // check if data are available, if not take highest z data\n        zt=97;", "    if(zt>92){  // check if data are available, if not take highest z data\n        zt=92;")],
     H + '''int main(){
    double b = 0.99, a = bethek_density_effect(b,95), c = bethek_density_effect(b,92);
    printf("%.12g %.12g\\n",a,c);
    return a!=c?0:1;
}
''', "a target between neptunium and berkelium", "the density correction of uranium is used"),
    ("u26_radiation", "P26",
     [(K, "if(z==78){return 6.54;}", "if(z==77){return 6.54;}")],
     H + '''int main(){
    double got = radiation_length(78,195.08);
    printf("%.12g\\n",got);
    return same(6.54,got)?0:1;
}
''', "platinum as the target", "the tabulated radiation length is given to iridium"),
    ("u12_end_slope", "P12",
     [("include/catima/spline.h", "m_c[N-1]=3.0*m_a[N-2]*h*h+2.0*m_b[N-2]*h+m_c[N-2];", "m_c[N-1]=3.0*m_a[N-2]*h*h+m_b[N-2]*h+m_c[N-2];")],
     H + '''#include "catima/storage.h"
int main(){
    std::vector<double> y(max_datapoints);
    for(int i=0;i<max_datapoints;i++)y[i]=std::sin(std::log(energy_table(i)));
    cspline_special<EnergyTable<max_datapoints>> s(energy_table,y);
    double e = energy_table(max_datapoints-1);
    double in = s.deriv(e*(1-1e-9)), out = s.deriv(e*(1+1e-9));
    printf("%.12g %.12g\\n",in,out);
    return std::fabs(in-out) <= 1e-5*std::fabs(in)?0:1;
}
''', "a value above the last table point", "the slope jumps where the extrapolation begins"),
]
