"""P24, P25: tables and single quantities"""
T, R, RH = "src/catima.cpp", "src/reactions.cpp", "include/catima/reactions.h"
ENTRIES = [
    ("grid", "bug", ["P24"], [(T, "integrator.integrate(fomega,energy_table(i-1),energy_table(i))", "integrator.integrate(fomega,energy_table(i-1),energy_table(i+1<max_datapoints?i+1:i))")]),
    ("cube", "bug", ["P24"], [(T, "catima::power(dedx(p(x),t,c),3)", "catima::power(dedx(p(x),t,c),2)")]),
    ("last", "bug", ["P24"], [(T, "    for(int i=1;i<max_datapoints;i++){\n        double res = p.A", "    for(int i=1;i<max_datapoints-1;i++){\n        double res = p.A")]),
    ("angmass", "bug", ["P24"], [(T, "dp.angular_variance[i] = p.A*integrator", "dp.angular_variance[i] = integrator")]),
    ("tofcut", "bug", ["P24"], [(T, "integrator.integrate(function,Ezero,energy_table(0))", "integrator.integrate(function,0,energy_table(0))")]),
    ("first", "bug", ["P24"], [(T, "dp.range[0] = 0.0;", "dp.range[0] = p.A*energy_table(0)/dedx(p(energy_table(0)),t,c);")]),
    ("sq", "bug", ["P25"], [(T, "return sqrt(range_straggling_spline(T));", "return range_straggling_spline(T)>1?sqrt(range_straggling_spline(T)):range_straggling_spline(T);")]),
    ("slope", "bug", ["P25"], [(T, "return angular_variance_spline.derivative(T);", "return angular_variance_spline.derivative(p.T);")]),
    ("rrange", "bug", ["P25"], [(T, "return integrator.integrate(fx0p_2,0, rrange)*t.density();", "return integrator.integrate(fx0p_2,0, t.thickness_cm())*t.density();")]),
    ("highland", "bug", ["P25"], [(T, "ff = 0.97*(1+lnl/20.7)*(1+lnl/22.7);", "ff = 0.97*(1+lnl/20.7)*(1+lnl/20.7);")]),
    ("order", "bug", ["P25"], [(T, "        double d = ipow((rrange-x),order);\n        return d*angular", "        double d = ipow(x,order);\n        return d*angular")]),
    ("iso", "bug", ["P25"], [(R, "abundance::get_isotope_a(zt,0)", "abundance::get_isotope_a(zt,1)")]),
    ("avg", "bug", ["P25"], [(R, "cs = target.number_density_cm2()*(cs0 + cs1)/2.0;", "cs = target.number_density_cm2()*cs0;")]),
    ("prod", "bug", ["P25"], [(R, "res = 0.0001*cs*t*(exp(-0.0001*rcs_product*t));", "res = 0.0001*cs*t*(exp(0.0001*rcs_product*t));")]),
    ("wmag", "bug", ["P25"], [(T, "(p_from_T(eres[2],p.A)-p_from_T(eres[0],p.A))/( p_from_T(eres[1],p.A)", "(p_from_T(eres[2],p.A)-p_from_T(eres[0],p.A))/( p_from_T(eres[0],p.A)")]),
    ("tof", "bug", ["P25"], [(T, "    res = integrator.integrate(function,Eout,p.T);", "    res = integrator.integrate(function,Eout,p.T>1000?1000:p.T);")]),
    ("es", "bug", ["P25"], [(T, "double dEdxo = p.A/range_spline.derivative(Tout);", "double dEdxo = p.A/range_spline.derivative(T);")]),
    ("r-acc", "ok", ["P24", "P25", "P01", "P15"], [(T, "        double res = p.A*integrator.integrate(fdedx,energy_table(i-1),energy_table(i));\n        dp.range[i] = res + dp.range[i-1];", "        sum += p.A*integrator.integrate(fdedx,energy_table(i-1),energy_table(i));\n        dp.range[i] = sum;\n        double res;"),
        (T, "    dp.range[0] = 0.0;\n    dp", "    double sum = 0.0;\n    dp.range[0] = sum;\n    dp")]),
    ("r-helper", "ok", ["P24", "P25", "P01", "P03"], [(T, "DataPoint calculate_DataPoint(Projectile p,", "template<typename F> static double step(double mass, const F &f, int i){\n    return mass*integrator.integrate(f,energy_table(i-1),energy_table(i));\n}\n\nDataPoint calculate_DataPoint(Projectile p,"),
        (T, "        double res = p.A*integrator.integrate(fdedx,energy_table(i-1),energy_table(i));", "        double res = step(p.A,fdedx,i);")]),
    ("r-loop", "ok", ["P24", "P25"], [(T, "    for(int i=1;i<max_datapoints;i++){\n        double res = p.A", "    for(int k=0;k+1<max_datapoints;++k){\n        const int i = k+1;\n        double res = p.A")]),
    ("r-ff", "ok", ["P25", "P15"], [(T, "            double l = x*t.density()/X0;\n            double lnl = log(l);\n            ff = 0.97*(1+lnl/20.7)*(1+lnl/22.7);", "            const double lnl = log(x*t.density()/X0);\n            ff = (1+lnl/22.7)*0.97*(lnl/20.7+1);")]),
    ("r-min", "ok", ["P25", "P15"], [(T, "    double rrange = std::min(range/t.density(), t.thickness_cm()); // residual range, in case of stopping inside material", "    double rrange = range/t.density();\n    if(t.thickness_cm()<rrange) rrange = t.thickness_cm();")]),
    ("r-sig", "ok", ["P25", "P22"], [(R, "    double cs0 = sigma_r(0);\n    double cs1 = sigma_r(target.thickness());\n    double cs;\n    if(std::abs(cs0-cs1)/cs0 < 0.05){", "    const double cs0 = sigma_r(0), cs1 = sigma_r(target.thickness());\n    double cs;\n    const bool flat = std::abs(cs1-cs0)/cs0 < 0.05;\n    if(flat){")]),
]
