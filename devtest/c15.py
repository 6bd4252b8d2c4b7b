S = "src/catima.cpp"
ENTRIES = [
    ("eloss", "bug", ["P15"], [(S, "res.Eloss = (res.Ein - res.Eout)*p.A;", "res.Eloss = (res.Ein - res.Eout)*p.Z;")]),
    ("dedxo", "bug", ["P15"], [(S, "res.dEdxo = p.A/range_spline.derivative(res.Eout);", "res.dEdxo = p.A/range_spline.derivative(T);")]),
    ("stop-sigma", "bug", ["P15"], [(S, "        res.tof = 0.0;\n        res.sigma_E = 0.0;", "        res.tof = 0.0;\n        res.sigma_E = res.sigma_r;")]),
    ("stop-dedx", "bug", ["P15"], [(S, "        res.dEdxo = 0.0;\n        res.sigma_a = 0.0;", "        res.dEdxo = p.A/range_spline.derivative(res.Eout);\n        res.sigma_a = 0.0;")]),
    ("thick0", "bug", ["P15"], [(S, "\tres.Eout = res.Ein;\n        return res;", "        return res;")]),
    ("thick0b", "bug", ["P15"], [(S, "if(t.thickness()==0){\n        res.dEdxo = res.dEdxi;\n\tres.Eout = res.Ein;\n        return res;\n    }", "")]),
    ("cutoff", "bug", ["P15"], [(S, "if(fabs(r)<Eout_th_epsilon)return (e<Ezero)?0.0:e;", "if(fabs(r)<Eout_th_epsilon)return e;")]),
    ("cutoff2", "bug", ["P15"], [(S, "if(e<Ezero)return 0.0;\n        dedx", "if(e<0.0)return 0.0;\n        dedx"), (S, "if(fabs(r)<Eout_th_epsilon)return (e<Ezero)?0.0:e;", "if(fabs(r)<Eout_th_epsilon)return e;")]),
    ("conv", "bug", ["P15"], [(S, "if(fabs(r)<Eout_th_epsilon)return", "if(r<Eout_th_epsilon)return")]),
    ("early", "bug", ["P15"], [(S, "if(counter>100)return -1;", "if(counter>100)return e;")]),
    ("neg", "bug", ["P15"], [(S, "if(range<= thickness) return 0.0;", "if(range< 0.5*thickness) return 0.0;")]),
    ("straggA", "bug", ["P15"], [(S, "res.sigma_E = res.dEdxo*sqrt(edif*0.5*(s1+s2))/p.A;", "res.sigma_E = res.dEdxi*sqrt(edif*0.5*(s1+s2))/p.A;")]),
    ("r-conv", "ok", ["P15"], [(S, "if(fabs(r)<Eout_th_epsilon)return (e<Ezero)?0.0:e;", "if(r<Eout_th_epsilon && -r<Eout_th_epsilon){ if(e<Ezero)return 0.0; return e;}")]),
    ("r-for", "ok", ["P15"], [(S, "    while(1){\n        r = range", "    for(counter=0;counter<=100;++counter){\n        r = range"), (S, "        counter++;\n        assert(counter<=100);\n        if(counter>100)return -1;\n", "")]),
    ("r-step", "ok", ["P15"], [(S, "        double step = -r*dedx;\n        e = e-step;", "        e += r*dedx;")]),
    ("r-lambda", "ok", ["P15"], [(S, "    res.Ein = T;\n    res.range = range_spline(T);\n    res.dEdxi = p.A/range_spline.derivative(T);", "    auto sp = [&](double e){return p.A/range_spline.derivative(e);};\n    res.dEdxi = sp(T);\n    res.range = range_spline(T);\n    res.Ein = T;"), (S, "res.dEdxo = p.A/range_spline.derivative(res.Eout);", "res.dEdxo = sp(res.Eout);")]),
    ("r-helper", "ok", None, [(S, "Result calculate(Projectile p, const Material &t, const Config &c){\n    Result res;", "static void fill_stopped(Result &res){\n    res.dEdxo = res.sigma_a = res.tof = res.sigma_E = 0.0;\n}\n\nResult calculate(Projectile p, const Material &t, const Config &c){\n    Result res;"),
       (S, "        res.dEdxo = 0.0;\n        res.sigma_a = 0.0;\n        res.tof = 0.0;\n        res.sigma_E = 0.0;\n    }    ", "        fill_stopped(res);\n    }    ")]),
    ("r-invert", "ok", ["P15"], [(S, "    if(t.thickness()==0){\n        res.dEdxo = res.dEdxi;\n\tres.Eout = res.Ein;\n        return res;\n    }", "    const bool empty = !(t.thickness()!=0);\n    if(empty){ res.Eout = T; res.dEdxo = res.dEdxi; return res; }")]),
]
