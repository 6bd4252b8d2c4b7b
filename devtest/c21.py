S = "src/catima.cpp"
H = "include/catima/catima.h"
ENTRIES = [
    ("vec-order", "bug", ["P21"], [(S, "eout.push_back(energy_out(e,t.thickness(),range_spline));", "eout.insert(eout.begin(),energy_out(e,t.thickness(),range_spline));")]),
    ("vec-cut", "bug", ["P21"], [(S, "        if(e<catima::Ezero){\n            dedx.push_back(0.0);", "        if(e<10*catima::Ezero){\n            dedx.push_back(0.0);")]),
    ("vec-skip", "bug", ["P21"], [(S, "        if(e<catima::Ezero){\n            eout.push_back(0.0);\n        }\n        else{", "        if(e>=catima::Ezero){")]),
    ("vec-A", "bug", ["P21"], [(S, "dedx.push_back(p.A/range_spline.derivative(e));", "dedx.push_back(p.Z/range_spline.derivative(e));")]),
    ("vec-T", "bug", ["P21"], [(S, "eout.push_back(energy_out(e,t.thickness(),range_spline));", "eout.push_back(energy_out(e,t.thickness_cm(),range_spline));")]),
    ("vec-last", "bug", ["P21"], [(S, "    for(auto e:T){\n        if(e<catima::Ezero){\n            eout", "    for(size_t i=0;i+1<T.size();i++){ double e=T[i];\n        if(e<catima::Ezero){\n            eout")]),
    ("root", "bug", ["P21"], [(S, "return sqrt(angular_variance(p,t,c));", "return angular_variance(p,t,c);")]),
    ("root2", "bug", ["P21"], [(S, "return sqrt(angular_variance(p,t,c));", "return sqrt(angular_variance(p,t,c,1));")]),
    ("short-c", "bug", ["P21"], [(H, "        p.T = T;\n        return calculate(p, t, c);", "        p.T = T;\n        return calculate(p, t);")]),
    ("def", "bug", ["P21"], [(H, "double angular_variance(Projectile p, const Material &t, const Config &c=default_config, int order = 0);", "double angular_variance(Projectile p, const Material &t, const Config &c=default_config, int order = 1);")]),
    ("def2", "bug", ["P21"], [(H, "double domega2dx(const Projectile &p, const Material &t, const Config &c=default_config);", "double domega2dx(const Projectile &p, const Material &t, const Config &c=Config());")]),
    ("args", "bug", ["P21"], [(S, "    Material m(ta,tz,density,thickness);", "    Material m(ta,tz,thickness,density);")]),
    ("layersT", "bug", ["P21"], [(H, "return calculate(p(T), layers, c);", "return calculate(p, layers, c);")]),
    ("r-index", "ok", ["P21"], [(S, "    for(auto e:T){\n        if(e<catima::Ezero){\n            eout", "    for(size_t i=0;i<T.size();i++){ const double e=T[i];\n        if(e<catima::Ezero){\n            eout")]),
    ("r-resize", "ok", ["P21"], [(S, "    dedx.reserve(T.size());\n    for(auto e:T){\n        if(e<catima::Ezero){\n            dedx.push_back(0.0);\n        }\n        else{\n            dedx.push_back(p.A/range_spline.derivative(e));\n        }\n    }", "    dedx.resize(T.size());\n    for(size_t i=0;i<T.size();++i){\n        dedx[i] = (T[i]<catima::Ezero) ? 0.0 : p.A/range_spline.derivative(T[i]);\n    }")]),
    ("r-ctor", "ok", ["P21"], [(S, "    std::vector<double> eout;\n    eout.reserve(T.size());\n    for(auto e:T){\n        if(e<catima::Ezero){\n            eout.push_back(0.0);\n        }\n        else{\n            eout.push_back(energy_out(e,t.thickness(),range_spline));\n        }\n    }", "    std::vector<double> eout(T.size(), 0.0);\n    std::size_t n = 0;\n    for(const double &e : T){\n        if(!(e<catima::Ezero)) eout[n] = energy_out(e,t.thickness(),range_spline);\n        n++;\n    }")]),
    ("r-transform", "ok", ["P21"], [(S, "    for(auto e:T){\n        if(e<catima::Ezero){\n            dedx.push_back(0.0);\n        }\n        else{\n            dedx.push_back(p.A/range_spline.derivative(e));\n        }\n    }", "    std::transform(T.begin(), T.end(), std::back_inserter(dedx), [&](double e){ return e<catima::Ezero ? 0.0 : p.A/range_spline.derivative(e); });")]),
    ("r-while", "ok", ["P21"], [(S, "    for(auto e:T){\n        if(e<catima::Ezero){\n            eout", "    auto it = T.begin();\n    while(it!=T.end()){ double e = *it++;\n        if(e<catima::Ezero){\n            eout")]),
    ("r-var", "ok", ["P21"], [(S, "    return sqrt(range_straggling_spline(T));", "    double v = range_variance(p,T,t,c);\n    return std::pow(v,0.5);"), ]),
]
