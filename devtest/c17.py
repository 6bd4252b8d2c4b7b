C = "src/calculations.cpp"
M = "src/catima.cpp"
T = "src/structures.cpp"
H = "include/catima/structures.h"
P = ["P17"]
SRIM = "        sum += w*srim_dedx_e(p.Z,t.Z,T, use95)/t.A;"
DN = "        sum += w*dedx_n(p,t);"
RL = "        sum += w/radiation_length(t.Z,t.A);"
OM = """    for(int i=0;i<mat.ncomponents();i++){
        auto t= mat.get_element(i);
        double w = mat.weight_fraction(i);
        sum += w*dedx_variance(p,t,c);
    }
    return sum;"""
ENTRIES = [
    ("skip-last", "bug", P, [(M, OM, OM.replace("i<mat.ncomponents()", "i<mat.ncomponents()-(mat.ncomponents()>4)"))]),
    ("from-1", "bug", P, [(C, "    double sum = 0;    \n    for(int i=0;i<material.ncomponents();i++){\n        auto t = material.get_element(i);\n        double w = material.weight_fraction(i);\n        sum += w/radiation", "    double sum = 0;    \n    for(int i=(material.ncomponents()>3);i<material.ncomponents();i++){\n        auto t = material.get_element(i);\n        double w = material.weight_fraction(i);\n        sum += w/radiation")]),
    ("molar", "bug", P, [(C, DN, "        sum += mat.molar_fraction(i)*dedx_n(p,t)/mat.ncomponents();")]),
    ("inverse", "bug", P, [(C, RL, "        sum += w*radiation_length(t.Z,t.A);"), (C, "        sum += w*radiation_length(t.Z,t.A);\n    }\n    return 1/sum;", "        sum += w*radiation_length(t.Z,t.A);\n    }\n    return sum;")]),
    ("mixed-A", "bug", P, [(C, SRIM, "        sum += w*srim_dedx_e(p.Z,t.Z,T, use95)/((t.A>200)?mat.M():t.A);")]),
    ("clamp-T", "bug", P, [(C, "    double T = p.T;\n    for", "    double T = (p.T<0.001)?0.001:p.T;\n    for")]),
    ("own-I", "bug", P, [(C, "bethek_dedx_e(p,t,c,mat.I())", "bethek_dedx_e(p,t,c,(i==0)?mat.I():0.0)")]),
    ("wf", "bug", P, [(H, "(atoms[i].stn<1.0)?atoms[i].stn:atoms[i].stn*atoms[i].A/M()", "(atoms[i].stn<=1.0)?atoms[i].stn:atoms[i].stn*atoms[i].A/M()")]),
    ("add-mass", "bug", P, [(T, "    molar_mass += _stn*a;", "    molar_mass += (_stn<1.0)?a*_stn*_stn:_stn*a;")]),
    ("calc-any", "bug", P, [(T, "std::all_of(atoms", "std::any_of(atoms")]),
    ("calc-inv", "bug", P, [(T, "sum+= e.stn/e.A;", "sum+= e.stn/(e.A>200?e.Z:e.A);")]),
    ("ang-lr", "bug", P, [(C, "    double X0 = radiation_length(mat);", "    double X0 = (mat.ncomponents()==1)?radiation_length(mat.get_element(0).Z,mat.get_element(0).A)*mat.weight_fraction(0):radiation_length(mat);")]),
    ("nd-i", "bug", P, [(H, "return number_density_cm2()*molar_fraction(i);", "return number_density_cm2()*weight_fraction(i);")]),
    ("blend", "bug", P, [(M, "(1-factor)*sezi_dedx_e(p,mat,c) + factor*bethek", "(1-factor)*sezi_dedx_e(p,mat,c) + (1-factor)*bethek")]),
    ("r-range", "ok", P, [(M, OM, "    for(int i=mat.ncomponents()-1;i>=0;--i){\n        sum += mat.weight_fraction(i)*dedx_variance(p,mat.get_element(i),c);\n    }\n    return sum;")]),
    ("r-helper", "ok", P, [(C, "double dedx_n(const Projectile &p, const Material &mat){\n    double w;\n    double sum=0.0;\n    for(int i=0;i<mat.ncomponents();i++){\n        auto t = mat.get_element(i);\n        w = mat.weight_fraction(i);\n        sum += w*dedx_n(p,t);\n    }\n    return sum;\n}",
      "template<typename F>\nstatic double weighted_sum(const Material &mat, F f){\n    double sum=0.0;\n    for(int i=0;i<mat.ncomponents();i++){\n        sum += mat.weight_fraction(i)*f(mat.get_element(i));\n    }\n    return sum;\n}\n\ndouble dedx_n(const Projectile &p, const Material &mat){\n    return weighted_sum(mat,[&](const Target &t){return dedx_n(p,t);});\n}")]),
    ("r-const", "ok", P, [(C, SRIM, "        sum += 100*Avogadro*w*srim_dedx_e(p.Z,t.Z,T, use95)/t.A;"), (C, "    return 100*sum*Avogadro;", "    return sum;")]),
    ("r-while", "ok", P, [(M, OM, "    int n = mat.ncomponents();\n    int i=0;\n    while(i<n){\n        const Target t= mat.get_element(i);\n        sum = sum + dedx_variance(p,t,c)*mat.weight_fraction(i);\n        i++;\n    }\n    return sum;")]),
    ("r-calc", "ok", P, [(T, "    if(std::all_of(atoms.begin(),atoms.end(),[](const Target &t){return t.stn<1.0;})){", "    bool fractions = true;\n    for(const auto &t: atoms){\n        if(t.stn>=1.0)fractions=false;\n    }\n    if(fractions){")]),
    ("r-calc2", "ok", P, [(T, "    if(std::all_of(atoms.begin(),atoms.end(),[](const Target &t){return t.stn<1.0;})){\n        double sum = 0;", "    for(size_t i=0;i<atoms.size();i++){\n        if(!(atoms[i].stn<1.0))return;\n    }\n    {\n        double sum = 0;")]),
    ("r-wf", "ok", P, [(H, "{return (atoms[i].stn<1.0)?atoms[i].stn:atoms[i].stn*atoms[i].A/M();};", "{\n                const Target &t = atoms[i];\n                if(t.stn<1.0)return t.stn;\n                return t.stn*t.A/molar_mass;\n            };")]),
    ("r-add", "ok", P, [(T, "    double a = (_a>0)?_a:element_atomic_weight(_z);\n    atoms.push_back({a,_z,_stn});\n    molar_mass += _stn*a;", "    if(!(_a>0))_a = element_atomic_weight(_z);\n    molar_mass += _stn*_a;\n    atoms.push_back({_a,_z,_stn});")]),
    ("r-list", "ok", P, [(T, "    std::initializer_list<std::array<double,3>>::iterator it;\n    atoms.reserve(list.size());\n    for ( it=list.begin(); it!=list.end(); ++it){\n        add_element((*it)[0],(*it)[1],(*it)[2]);\n    }", "    for(const auto &e: list){\n        add_element(e[0],e[1],e[2]);\n    }")]),
    ("r-blend", "ok", P, [(M, "        double factor = 0.05 * ( p.T - 10.0 );\n        se = (1-factor)*sezi_dedx_e(p,mat,c) + factor*bethek_dedx_e(p,mat,c);", "        double low = sezi_dedx_e(p,mat,c);\n        double high = bethek_dedx_e(p,mat,c);\n        se = low + (high-low)*(p.T-10.0)/20.0;")]),
    ("r-ang", "ok", P, [(C, "double angular_scattering_power(const Projectile &p, const Target &t, double Es2){\n    if(p.T<=0)return 0.0;\n    double e=p.T;\n    double _p = p_from_T(e,p.A);\n    double beta = _p/((e+atomic_mass_unit)*p.A);\n    double lr = radiation_length(t.Z,t.A);\n    //constexpr double Es2 = 198.81;\n    //constexpr double Es2 =2*PI/fine_structure* electron_mass * electron_mass;\n    return Es2 * ipow(p.Z,2)/(lr*ipow(_p*beta,2));",
      "static double scattering_power(const Projectile &p, double X, double Es2){\n    double _p = p_from_T(p.T,p.A);\n    double beta = _p/((p.T+atomic_mass_unit)*p.A);\n    return Es2 * p.Z*p.Z/(X*_p*_p*beta*beta);\n}\n\ndouble angular_scattering_power(const Projectile &p, const Target &t, double Es2){\n    return (p.T<=0)?0.0:scattering_power(p,radiation_length(t.Z,t.A),Es2);")]),
]
