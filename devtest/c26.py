"""P26: formulas"""
C, S, R = "src/calculations.cpp", "src/srim.cpp", "src/reactions.cpp"
ENTRIES = [
    ("mom", "bug", ["P26"], [(C, "return sqrt(T*(T+2*atomic_mass_unit))*M;", "return sqrt(T*(T+atomic_mass_unit))*M;")]),
    ("nuc", "bug", ["P26"], [(C, "0.19593*pow(epsilon,0.5)", "0.19593*pow(epsilon,0.05)")]),
    ("nuc2", "bug", ["P26"], [(C, "else if(epsilon<=30){", "else if(epsilon<=3){")]),
    ("barkas", "bug", ["P26"], [(C, "{0.33,0.30,0.26,0.23}", "{0.33,0.30,0.27,0.23}")]),
    ("barkas2", "bug", ["P26"], [(C, "for(i=1; i<4; i++){", "for(i=2; i<4; i++){")]),
    ("dens", "bug", ["P26"], [(C, "if(zt>97){", "if(zt>92){")]),
    ("dens2", "bug", ["P26"], [(C, "if ( density_effect::x0[i]<= x &&  x <= density_effect::x1[i] )", "if ( density_effect::x0[i]<= x &&  x+1 <= density_effect::x1[i] )")]),
    ("pair", "bug", ["P26"], [(C, "(1.0+(1.0/t.Z))*(L0screen + L1)", "(1.0+(1.0/p.Z))*(L0screen + L1)")]),
    ("brems", "bug", ["P26"], [(C, "16.0*C*gamma*p.Z*p.Z*p.Z*p.Z*t.Z*t.Z", "16.0*C*gamma*p.Z*p.Z*p.Z*t.Z*t.Z*t.Z")]),
    ("rad", "bug", ["P26"], [(C, "if(z==78){return 6.54;}", "if(z==77){return 6.54;}")]),
    ("rad2", "bug", ["P26"], [(C, "log(1194.0*z_23)/z", "log(1194.0*z_13)/z")]),
    ("scat", "bug", ["P26"], [(C, "std::pow(a*z,-1.0/3.0))-1)/a", "std::pow(a*z,-1.0/3.0)))/a")]),
    ("power", "bug", ["P26"], [(C, "double X0 = radiation_length(mat);\n    //constexpr double Es2 = 198.81;\n    //constexpr double Es2 =2*PI/fine_structure* electron_mass * electron_mass;\n    return Es2 * ipow(p.Z,2)", "double X0 = radiation_length(mat);\n    return Es2 * ipow(p.Q,2)")]),
    ("pse", "bug", ["P26"], [(S, "double sh = pse_95[i][4]/std::pow(e,pse_95[i][5])", "double sh = pse_95[i][4]/std::pow(e,pse_95[i][3])")]),
    ("he", "bug", ["P26"], [(S, "(0.007 + 0.00005*tZ)", "(0.007 + 0.00005*pZ)")]),
    ("hi", "bug", ["P26"], [(S, "(0.18 + .0015*tZ)", "(0.18 + .0015*pZ)")]),
    ("hi2", "bug", ["P26"], [(S, "(pZ <= 19))) eval = 0.35;\n            else", "(pZ < 19))) eval = 0.35;\n            else")]),
    ("hi3", "bug", ["P26"], [(S, "i = (pZ>92)?91:pZ-1;", "i = (pZ>92)?91:tZ-1;")]),
    ("kox", "bug", ["P26"], [(R, "double D = 5.0*(At-2*Zt)*Zp/(Ap*At);", "double D = 5.0*(At-2*Zp)*Zt/(Ap*At);")]),
    ("r-nuc", "ok", ["P26", "P17"], [(C, "    double zpowers = pow(p.Z,0.23)+pow(t.Z,0.23);\n    double asum = p.A + t.A;\n    double epsilon = 32.53*t.A*1000*p.T*p.A/(p.Z*t.Z*asum*zpowers); //projectile energy is converted from MeV/u to keV\n", "    const double epsilon = reduced_energy_loss_unit(p,t);\n    const double zpowers = pow(p.Z,0.23)+pow(t.Z,0.23);\n    const double asum = p.A + t.A;\n")]),
    ("r-barkas", "ok", ["P26", "P13", "P07"], [(C, "        int i;\n        for(i=1; i<4; i++){\n\t          if( VA[i] >= v1){\n                  v2fv = V2FVA[i-1]+(v1-VA[i-1])*(V2FVA[i]-V2FVA[i-1])/(VA[i]-VA[i-1]);\n                  break;\n              }\n          }", "        int i = 1;\n        while(i<3 && VA[i]<v1)i++;\n        const double slope = (V2FVA[i]-V2FVA[i-1])/(VA[i]-VA[i-1]);\n        v2fv = V2FVA[i-1]+slope*(v1-VA[i-1]);")]),
    ("r-dens", "ok", ["P26", "P13", "P07", "P09"], [(C, "    if(zt>97){  // check if data are available, if not take highest z data\n        zt=97;\n        }\n    i = zt-1;\n", "    i = std::min(zt,97)-1;\n")]),
    ("r-rad", "ok", ["P26", "P17"], [(C, "    double z_13 = 1.0/std::pow(z,1./3.);\n    double z_23 = z_13*z_13;\n", "    double z_13 = std::pow(z,-1./3.);\n    double z_23 = std::pow(z,-2./3.);\n")]),
    ("r-radsw", "ok", ["P26", "P17"], [(C, "    if(z==1){return 63.04;}\n    if(z==2){return 94.32;}\n    if(z==3){return 82.78;}\n", "    switch(z){\n        case 1: return 63.04;\n        case 2: return 94.32;\n        case 3: return 82.78;\n        default: break;\n    }\n")]),
    ("r-pair", "ok", ["P26", "P13"], [(C, "    double s = 0.25*dedx_constant*fine_structure*fine_structure*p.Z*p.Z*t.Z*t.Z*gamma*(1.0+(1.0/t.Z))*(L0screen + L1)/t.A;\n    return (s<0.0)?0.0:s;", "    const double zz = fine_structure*p.Z*t.Z;\n    const double s = 0.25*dedx_constant*zz*zz*gamma*(1.0+(1.0/t.Z))*(L0screen + L1)/t.A;\n    return std::max(s,0.0);")]),
    ("r-pse", "ok", ["P26", "P18", "P07", "P13"], [(S, "    double sl = (pse_95[i][0]*std::pow(e,pse_95[i][1])) + (pse_95[i][2]*std::pow(e,pse_95[i][3]));\n    double sh = pse_95[i][4]/std::pow(e,pse_95[i][5]) * std::log( (pse_95[i][6]/e) + (pse_95[i][7]*e));\n    sp = sl*sh/(sl+sh);", "    const double *k = pse_95[i];\n    const double sl = k[0]*std::pow(e,k[1]) + k[2]*std::pow(e,k[3]);\n    const double sh = k[4]*std::pow(e,-k[5])*std::log(k[6]/e + k[7]*e);\n    sp = 1/(1/sl + 1/sh);")]),
    ("r-he", "ok", ["P26", "P13"], [(S, "    else if(pZ == 2){\n        double a=0;\n        double b=0;\n\n        if(e<=1)e=1;\n", "    else if(pZ == 2){\n        double a,b;\n        e = std::max(e,1.0);\n"), (S, "        if(e==1)se*= sqrt(e);  //vel proportional\n", "")]),
    ("r-hi", "ok", ["P26", "P13", "P07"], [(S, "        if(q < 0.2){\n            l1 = 0;\n            }\n        else{\n            if (q < std::max(0.0,0.9-0.025*pZ)){", "        const double ql = std::max(0.0,0.9-0.025*pZ);\n        if(q < 0.2){\n            l1 = 0;\n            }\n        else{\n            if (q < ql){"), (S, "l1 = b*(q-0.2)/fabs(std::max(0.0,0.9-0.025*pZ)-0.2000001);", "l1 = b*(q-0.2)/fabs(ql-0.2000001);"), (S, "return (*fp_se)(tZ,energy)*std::pow(c1,2.0);", "return c1*c1*(*fp_se)(tZ,energy);")]),
    ("r-kox", "ok", ["P26", "P18", "P25"], [(R, "    double Rs = r0 * ((a*Ap13*At13)/(Ap13+At13)-c)+D;\n    double Rv = r0 * (Ap13 + At13);\n    double Ri = Rv + Rs;", "    const double sum13 = Ap13 + At13;\n    const double Ri = r0*(sum13 + a*Ap13*At13/sum13 - c) + D;")]),
]
