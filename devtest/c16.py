S = "src/catima.cpp"
T = "src/structures.cpp"
BODY = """        Result r = calculate(p,m,e,c);
        e = r.Eout;        
        res.total_result.Eloss += r.Eloss;
        res.total_result.sigma_E += r.sigma_E*r.sigma_E; 
        res.total_result.tof += r.tof;
        res.total_result.Eout = r.Eout;        
        double a2 = res.total_result.sigma_a;
        res.total_result.sigma_x += (2*m.thickness_cm()*res.total_result.cov) 
                                 + (a2*m.thickness_cm()*m.thickness_cm()) 
                                 + r.sigma_x*r.sigma_x;
        res.total_result.cov += a2*m.thickness_cm() + r.cov;
        res.total_result.sigma_a += r.sigma_a*r.sigma_a;
"""
ENTRIES = [
    ("a2-after", "bug", ["P16"], [(S, "        double a2 = res.total_result.sigma_a;\n", "        double a2 = res.total_result.sigma_a + r.sigma_a*r.sigma_a;\n")]),
    ("cov-first", "bug", ["P16"], [(S, "        res.total_result.cov += a2*m.thickness_cm() + r.cov;\n", ""), (S, "        double a2 = res.total_result.sigma_a;\n", "        double a2 = res.total_result.sigma_a;\n        res.total_result.cov += a2*m.thickness_cm() + r.cov;\n")]),
    ("same-e", "bug", ["P16"], [(S, "Result r = calculate(p,m,e,c);\n        e = r.Eout;", "Result r = calculate(p,m,p.T,c);\n        e = r.Eout;")]),
    ("cfg", "bug", ["P16"], [(S, "Result r = calculate(p,m,e,c);", "Result r = calculate(p,m,e);")]),
    ("eout-empty", "bug", ["P16"], [(S, "    res.total_result.Ein = e;\n    res.total_result.Eout = e;\n", "    res.total_result.Ein = e;\n")]),
    ("stop-early", "bug", ["P16"], [(S, "        Result r = calculate(p,m,e,c);\n", "        if(e<Ezero)break;\n        Result r = calculate(p,m,e,c);\n")]),
    ("sigE", "bug", ["P16"], [(S, "res.total_result.sigma_E += r.sigma_E*r.sigma_E;", "res.total_result.sigma_E += r.sigma_E;")]),
    ("thick", "bug", ["P16"], [(S, "res.total_result.cov += a2*m.thickness_cm() + r.cov;", "res.total_result.cov += a2*m.thickness() + r.cov;")]),
    ("cov-init", "bug", ["P16"], [(S, "    res.total_result.cov = ps.cov_x;\n", "")]),
    ("sp", "bug", ["P16"], [(S, "(r.sp>=0.0)?res.total_result.sp*r.sp:-1;", "(r.sp>=0.0)?r.sp:-1;")]),
    ("plus", "bug", ["P16"], [(T, "    for(auto &e:b.materials){\n        res.add(e);\n    }\n    return res;", "    for(auto &e:a.materials){\n        res.add(e);\n    }\n    return res;")]),
    ("thickness", "bug", ["P16"], [(T, "        sum += m.thickness_cm();", "        sum = m.thickness_cm();")]),
    ("r-locals", "ok", None, [(S, BODY, """        const Result r = calculate(p,m,e,c);
        const double L = m.thickness_cm();
        auto& tot = res.total_result;
        const double a2 = tot.sigma_a;
        const double cov = tot.cov;
        tot.sigma_a = a2 + r.sigma_a*r.sigma_a;
        tot.cov = cov + r.cov + L*a2;
        tot.sigma_x += r.sigma_x*r.sigma_x + L*(2*cov + L*a2);
        tot.tof += r.tof;
        tot.Eloss += r.Eloss;
        tot.sigma_E += catima::ipow(r.sigma_E,2);
        tot.Eout = r.Eout;
        e = tot.Eout;
""")]),
    ("r-index", "ok", ["P16"], [(S, "    for(auto&m:layers.get_materials()){\n        Result r", "    const auto &mats = layers.get_materials();\n    for(int i=0;i<layers.num();i++){\n        const Material &m = mats[i];\n        Result r")]),
    ("r-helper", "ok", ["P16"], [(S, "MultiResult calculate(const Projectile &p, const Phasespace &ps", """static void transport(Result &tot, const Result &r, double L){
    tot.sigma_x += 2*L*tot.cov + tot.sigma_a*L*L + r.sigma_x*r.sigma_x;
    tot.cov += tot.sigma_a*L + r.cov;
    tot.sigma_a += r.sigma_a*r.sigma_a;
}

MultiResult calculate(const Projectile &p, const Phasespace &ps"""), (S, BODY[BODY.index("        double a2"):], "        transport(res.total_result, r, m.thickness_cm());\n")]),
    ("r-final", "ok", ["P16"], [(S, """    if(e>Ezero){
        res.total_result.sigma_a = sqrt(res.total_result.sigma_a);
        res.total_result.sigma_E = sqrt(res.total_result.sigma_E);
        res.total_result.sigma_x = sqrt(std::abs(res.total_result.sigma_x));
        
    }
    else{
        res.total_result.sigma_a = 0.0;
        res.total_result.sigma_E = 0.0;
        res.total_result.sigma_x = sqrt(std::abs(res.total_result.sigma_x));
        }
""", """    const bool passed = e>Ezero;
    res.total_result.sigma_x = sqrt(std::abs(res.total_result.sigma_x));
    res.total_result.sigma_a = passed ? sqrt(res.total_result.sigma_a) : 0.0;
    res.total_result.sigma_E = passed ? sqrt(res.total_result.sigma_E) : 0.0;
""")]),
    ("r-insert", "ok", ["P16"], [(T, "    Layers res;\n    for(auto &e:a.materials){\n        res.add(e);\n    }\n    res.add(m);\n    return res;", "    Layers res = a;\n    res.add(m);\n    return res;")]),
    ("r-plus", "ok", ["P16"], [(T, "    Layers res;\n    for(auto &e:a.materials){\n        res.add(e);\n    }\n\n    for(auto &e:b.materials){\n        res.add(e);\n    }\n    return res;", "    Layers res;\n    res.add(a);\n    res.add(b);\n    return res;")]),
    ("r-plus2", "ok", ["P16"], [(T, "    Layers res;\n    for(auto &e:a.materials){\n        res.add(e);\n    }\n\n    for(auto &e:b.materials){\n        res.add(e);\n    }\n    return res;", "    Layers res(a);\n    res.materials.insert(res.materials.end(), b.materials.begin(), b.materials.end());\n    return res;")]),
    ("r-num", "ok", ["P16"], [(T, "    double sum = 0;\n    for(auto &m : materials){\n        sum += m.thickness();\n    }\n    return sum;", "    return std::accumulate(materials.begin(), materials.end(), 0.0, [](double s, const Material &m){return s+m.thickness();});"), (T, "#include <cmath>", "#include <cmath>\n#include <numeric>")]),
]
