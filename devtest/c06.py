W = "src/cwrapper.cpp"
ENTRIES = [
    ("swap-T", "bug", ["P06"], [(W, "energy_straggling_from_E(p,Tin,Tout,mat,c)", "energy_straggling_from_E(p,Tout,Tin,mat,c)")]),
    ("noconfig", "bug", ["P06"], [(W, "return range_straggling(p, T, mat, c);", "return range_straggling(p, T, mat);")]),
    ("field", "bug", ["P06"], [(W, "res.dEdxo = r.dEdxo;", "res.dEdxo = r.dEdxi;")]),
    ("density0", "bug", ["P06"], [(W, "if(density<=0.0){", "if(density<0.0){")]),
    ("trunc", "bug", ["P06"], [(W, "catima::Material make_material(double ta, double tz,", "catima::Material make_material(int ta, double tz,")]),
    ("thick", "bug", ["P06"], [(W, "make_material(ta,tz, thickness, -1)", "make_material(ta,tz, 0, -1)")]),
    ("scatter", "bug", ["P06"], [(W, "        c.scattering = 255;\n", "")]),
    ("zeff-once", "bug", ["P06"], [(W, "catima::Config c = catima::default_config;\n        c.z_effective", "static catima::Config c = catima::default_config;\n        c.z_effective")]),
    ("200", "bug", ["P06"], [(W, "if(tz>200){", "if(tz>=200){")]),
    ("enum", "bug", ["P06"], [("include/catima/cwrapper.h", "hubert = 3,\n        winger = 4,", "winger = 3,\n        hubert = 4,")]),
    ("r-helper", "ok", ["P06"], [(W, "    CatimaResult catima_calculate(", """    static catima::Projectile make_ion(double a, int z, double T){ catima::Projectile p(a,z); p.T = T; return p; }
    CatimaResult catima_calculate("""), (W, "        catima::Projectile p(pa,pz);\n        catima::Material mat = make_material(ta,tz, 0, -1);\n        return range(p(T), mat, c);", "        return range(make_ion(pa,pz,T), make_material(ta,tz,0,-1), c);")]),
    ("r-energy-set", "ok", ["P06"], [(W, "return catima::energy_straggling_from_E(p,Tin", "return catima::energy_straggling_from_E(p(Tin),Tin")]),
    ("r-order", "ok", ["P06"], [(W, "        mat.density(density).thickness(thickness);\n        if(density<=0.0){\n            catima::Material m0 = catima::get_material(tz);\n            mat.density(m0.density());\n        }",
       "        mat.thickness(thickness);\n        const bool given = density>0.0;\n        mat.density(given ? density : catima::get_material(tz).density());")]),
    ("r-init", "ok", ["P06"], [(W, """        res.Ein = r.Ein;
        res.Eout = r.Eout;
        res.Eloss = r.Eloss;
        res.range = r.range;
        res.dEdxi = r.dEdxi;
        res.dEdxo = r.dEdxo;
        res.sigma_E = r.sigma_E;
        res.sigma_a = r.sigma_a;
        res.sigma_r = r.sigma_r;
        res.tof = r.tof;
""", "        res = {r.Ein, r.Eout, r.Eloss, r.range, r.dEdxi, r.dEdxo, r.sigma_E, r.sigma_a, r.sigma_r, r.tof};\n")]),
    ("r-ternary", "ok", ["P06"], [(W, """        catima::Material mat;        
        if(tz>200){
            mat = catima::get_material(tz);
        }
        else{            
            mat.add_element(ta,tz,1.0);
        }
""", "        catima::Material mat = (tz>200) ? catima::get_material(tz) : catima::Material(ta,tz);\n")]),
]
