M = "src/catima.cpp"
S = "src/srim.cpp"
R = "src/reactions.cpp"
P = ["P18"]
DE = """    if(p.T<=10){
        se = sezi_dedx_e(p,mat,c );
    }
    else if(p.T>10 && p.T<30){
        double factor = 0.05 * ( p.T - 10.0 );
        se = (1-factor)*sezi_dedx_e(p,mat,c) + factor*bethek_dedx_e(p,mat,c);
    }
    else {
        se = bethek_dedx_e(p,mat,c);
    }"""
PS = "    int i = Z - 1;\n    if(Z>92){  // dealing with trans-U where no Srim data\n        i = 91;\n        }\n    if(e<=25)e=25;\n    double sl = (pse_95"
ENTRIES = [
    ("limit", "bug", P, [(M, "p.T>10 && p.T<30", "p.T>10 && p.T<40")]),
    ("low", "bug", P, [(M, "if(p.T<=10){", "if(p.T<=8){"), (M, "p.T>10 &&", "p.T>8 &&")]),
    ("slope", "bug", P, [(M, "double factor = 0.05 * ( p.T - 10.0 );", "double factor = 0.05 * ( p.T - 11.0 );")]),
    ("swap", "bug", P, [(M, "(1-factor)*sezi_dedx_e(p,mat,c) + factor*bethek_dedx_e(p,mat,c)", "factor*sezi_dedx_e(p,mat,c) + (1-factor)*bethek_dedx_e(p,mat,c)")]),
    ("extra", "bug", P, [(M, "    sum+=se;\n", "    if(p.T<1000)sum+=se; else sum=se;\n")]),
    ("ext", "bug", P, [(S, PS, PS.replace("if(e<=25)e=25", "if(e<=25)e=20"))]),
    ("kox", "bug", P, [(R, "if(logE < 1.5)", "if(logE < 1.6)")]),
    ("kox1", "bug", P, [(R, "2-(10.0/(1.5*1.5*1.5*1.5*1.5))", "2-(10.0/(1.5*1.5*1.5*1.5))")]),
    ("kox2", "bug", P, [(R, "(-10.0/std::pow(logE,5)) + 2;", "(-10.0/std::pow(logE,5)) + 2.1;")]),
    ("r-clamp", "ok", P, [(M, DE, "    double factor = std::min(1.0, std::max(0.0, (p.T-10.0)/20.0));\n    se = (1-factor)*sezi_dedx_e(p,mat,c) + factor*bethek_dedx_e(p,mat,c);")]),
    ("r-order", "ok", P, [(M, DE, "    if(p.T>=30){\n        se = bethek_dedx_e(p,mat,c);\n    }\n    else{\n        se = sezi_dedx_e(p,mat,c);\n        if(p.T>10)se += 0.05*(p.T-10.0)*(bethek_dedx_e(p,mat,c)-se);\n    }")]),
    ("r-help", "ok", P, [(M, DE, "    se = electronic(p,mat,c);"), (M, "double dedx(const Projectile &p, const Material &mat, const  Config &c){", "static double electronic(const Projectile &p, const Material &mat, const Config &c){\n    if(p.T<=10)return sezi_dedx_e(p,mat,c);\n    if(p.T>=30)return bethek_dedx_e(p,mat,c);\n    const double w = ( p.T - 10.0 )/20.0;\n    return (1-w)*sezi_dedx_e(p,mat,c) + w*bethek_dedx_e(p,mat,c);\n}\n\ndouble dedx(const Projectile &p, const Material &mat, const  Config &c){")]),
    ("r-kox", "ok", P, [(R, "    double c = 0;\n    if(logE < 1.5){\n        c = c1*std::pow(logE/1.5,3);\n    }\n    else{\n        c = (-10.0/std::pow(logE,5)) + 2;\n    }", "    const double q = logE/1.5;\n    double c = (logE < 1.5)?c1*q*q*q:2.0 - 10.0/(logE*logE*logE*logE*logE);")]),
    ("r-kox2", "ok", P, [(R, "    constexpr double c1 = 2-(10.0/(1.5*1.5*1.5*1.5*1.5));", "    const double c1 = 2-(10.0/std::pow(1.5,5));")]),
    ("r-pse", "ok", P, [(S, PS, PS.replace("    if(e<=25)e=25;", "    e = std::max(e,25.0);").replace("int i = Z - 1;\n    if(Z>92){  // dealing with trans-U where no Srim data\n        i = 91;\n        }", "int i = std::min(Z,92) - 1;"))]),
]
