"""P14: termination"""
K, C, G, S, T = "src/calculations.cpp", "src/catima.cpp", "include/catima/gkq_integrator.h", "include/catima/spline.h", "src/structures.cpp"
ENTRIES = [
    ("eout", "bug", ["P14"], [(C, "        if(counter>100)return -1;\n", "")]),
    ("cond", "bug", ["P14"], [(C, "        counter++;\n", "        if(step>0)counter++;\n")]),
    ("reset", "bug", ["P14"], [(C, "        if(e<Ezero)return 0.0;\n        dedx", "        if(e<Ezero){e=Ezero;counter=0;}\n        dedx")]),
    ("nn", "bug", ["P14"], [(K, "fabs(anm1/asum)>1e-6 && nn<10000.0", "fabs(anm1/asum)>1e-6", 1)]),
    ("or", "bug", ["P14"], [(K, "> 1.0e-6 && dm < 10000.0 )", "> 1.0e-6 || dm < 10000.0 )")]),
    ("level", "bug", ["P14"], [(G, "0.707*aeps, 0, level-1);\n        result += ", "0.707*aeps, 0, level);\n        result += ")]),
    ("level2", "bug", ["P14"], [(G, "if( level && (err > aeps))", "if( (err > aeps))")]),
    ("five", "bug", ["P14"], [(K, "        while(n<5000){", "        while(1){")]),
    ("r-for", "ok", ["P14", "P15"], [(C, "    while(1){\n        r = range", "    for(counter=0;counter<=100;){\n        r = range"), (C, "        if(counter>100)return -1;\n", "")]),
    ("r-down", "ok", ["P14", "P15"], [(C, "    int counter = 0;\n    double range;", "    int left = 101;\n    double range;"), (C, "        counter++;\n        assert(counter<=100);\n        if(counter>100)return -1;", "        if(--left<=0)return -1;")]),
    ("r-nn", "ok", ["P14", "P13"], [(K, "fabs(anm1/asum)>1e-6 && nn<10000.0", "!(nn>=10000.0 || fabs(anm1/asum)<=1e-6)", 1)]),
    ("r-idx", "ok", ["P14", "P16"], [(T, "    for(auto &m : materials){\n        sum += m.thickness();\n", "    for(std::size_t i=0;i<materials.size();++i){\n        const Material &m = materials[i];\n        sum += m.thickness();\n")]),
    ("r-it", "ok", ["P14", "P16"], [(T, "    for(auto &m : materials){\n        sum += m.thickness();\n", "    for(auto it=materials.cbegin(); it!=materials.cend(); it++){\n        const Material &m = *it;\n        sum += m.thickness();\n")]),
    ("r-level", "ok", ["P14", "P11"], [(G, "    if( level && (err > aeps)){\n", "    if(level<=0)return result;\n    if(err > aeps){\n")]),
    ("r-help", "ok", ["P14"], [(C, "double energy_out(double T, double thickness, const Interpolator &range_spline){", "static bool again_(int &counter){\n    counter++;\n    return counter<=100;\n}\n\ndouble energy_out(double T, double thickness, const Interpolator &range_spline){"), (C, "        counter++;\n        assert(counter<=100);\n        if(counter>100)return -1;", "        if(!again_(counter))return -1;")]),
    ("r-brk", "ok", ["P14", "P15"], [(C, "        if(counter>100)return -1;\n    }", "        if(counter>100)break;\n    }")]),
]
