"""P13: configuration switches"""
C = "src/calculations.cpp"
S = "src/catima.cpp"
R = "src/srim.cpp"
P = ["P13"]
ENTRIES = [
    ("zeff-Q", "bug", P, [(C, "        return p.Q;\n", "        return p.Z;\n")]),
    ("zeff-swap", "bug", P, [(C, "return z_eff_Anthony_Landford(p.Z, beta, t.Z);\n    }", "return z_eff_Winger(p.Z, beta, t.Z);\n    }")]),
    ("zeff-arg", "bug", P, [(C, "return z_eff_Schiwietz(p.Z, beta, t.Z);", "return z_eff_Schiwietz(p.Z, p.T, t.Z);")]),
    ("hubert-6", "bug", P, [(C, "else if(tz==6){", "else if(tz==7){")]),
    ("al-B", "bug", P, [(C, "double B = 1.18-tz*(7.5e-03 - 4.53e-05*tz);", "double B = 1.18-tz*(7.5e-03 + 4.53e-05*tz);")]),
    ("shell-flag", "bug", P, [(C, "if(!(c.corrections&corrections::no_shell_correction) &&  eta>=0.13)", "if(!(c.corrections==corrections::no_shell_correction) &&  eta>=0.13)")]),
    ("lind-flag", "bug", P, [(C, "if(!(c.corrections&corrections::no_lindhard))", "if(!(c.corrections&corrections::no_barkas))")]),
    ("high-all", "bug", P, [(C, "        result += bremsstrahlung(p,t);\n    }", "    }\n    if(p.T>50000.0)result += bremsstrahlung(p,t);")]),
    ("barkas-ls", "bug", P, [(C, "double result  = (f2)*barkas + LS - delta/2.;", "double result  = (f2 + LS)*barkas - delta/2.;")]),
    ("omega-atima", "bug", P, [(C, "if( (c.calculation == omega_types::atima) ){", "if( (c.calculation != omega_types::bohr) || p.Z<3 ){")]),
    ("omega-max", "bug", P, [(C, "cor = std::max(cor, 0.0 );", "")]),
    ("omega-firsov", "bug", P, [(C, "if(p.T<30.0)\n\t\treturn std::min", "if(p.T<30.0 && c.calculation == omega_types::atima)\n\t\treturn std::min")]),
    ("low-85", "bug", P, [(C, "bool use95 = c.low_energy == low_energy_types::srim_95;", "bool use95 = c.low_energy == low_energy_types::srim_95 || p.Z>2;")]),
    ("scatt-es", "bug", P, [(S, "    //double f = 1.0;    \n    if(c.scattering == scattering_types::dhighland)Es2 = Es_squared;\n", "    //double f = 1.0;    \n")]),
    ("scatt-es2", "bug", P, [(S, "    double Es2 = 198.81;\n    if(c.scattering == scattering_types::dhighland)Es2 = Es_squared;\n    if(c.scattering == scattering_types::fermi_rossi)Es2 = Es_squared;", "    double Es2 = 198.81;\n    if(c.scattering == scattering_types::dhighland)Es2 = Es_squared;\n    if(c.scattering == scattering_types::gottschalk)Es2 = Es_squared;")]),
    ("scatt-order", "bug", P, [(S, "return d*angular_scattering_power_xs(p(e),t,p1,beta1);", "return d*angular_scattering_power_xs(p,t,p1,beta1);")]),
    ("scatt-factor", "bug", P, [(S, "return c.scattering_factor*angular_scattering_power(p,mat, Es2);", "return angular_scattering_power(p,mat, Es2);")]),
    ("highland-l", "bug", P, [(S, "double l = x*t.density()/X0;", "double l = x/X0;")]),
    ("r-switch", "ok", None, [(C, """    if(c.z_effective == z_eff_type::pierce_blann){
        return z_eff_Pierce_Blann(p.Z, beta);
    }
    else if(c.z_effective == z_eff_type::anthony_landorf){
        return z_eff_Anthony_Landford(p.Z, beta, t.Z);
    }

    else if(c.z_effective == z_eff_type::hubert){
        return z_eff_Hubert(p.Z, p.T, t.Z);
    }
    else if(c.z_effective == z_eff_type::winger){
        return z_eff_Winger(p.Z, beta, t.Z);
    }
    else if(c.z_effective == z_eff_type::global){
        return z_eff_global(p.Z, p.T, t.Z);
    }
    else if(c.z_effective == z_eff_type::atima14){
        return z_eff_atima14(p.Z, p.T, t.Z);
    }
    else if(c.z_effective == z_eff_type::schiwietz){
        return z_eff_Schiwietz(p.Z, beta, t.Z);
    }
    else{
        assert(false);
        return 0.0;
    }
""", """    switch(c.z_effective){
        case z_eff_type::pierce_blann: return z_eff_Pierce_Blann(p.Z, beta);
        case z_eff_type::anthony_landorf: return z_eff_Anthony_Landford(p.Z, beta, t.Z);
        case z_eff_type::schiwietz: return z_eff_Schiwietz(p.Z, beta, t.Z);
        case z_eff_type::hubert: return z_eff_Hubert(p.Z, p.T, t.Z);
        case z_eff_type::winger: return z_eff_Winger(p.Z, beta, t.Z);
        case z_eff_type::global: return z_eff_global(p.Z, p.T, t.Z);
        case z_eff_type::atima14: return z_eff_atima14(p.Z, p.T, t.Z);
        default: break;
    }
    assert(false);
    return 0.0;
""")]),
    ("r-helper", "ok", None, [(C, "double bethek_dedx_e(const Projectile &p, const Target &t, const Config &c, double I){\n", """static bool enabled(const Config &c, unsigned char flag){
    return (c.corrections & flag) == 0;
}
static double shell(double eta, double Ipot){
    const double i2 = 1.0/(eta*eta);
    const double i4 = i2*i2;
    const double i6 = i2*i4;
    return (0.422377*i2 + 0.0304043*i4 - 0.00038106*i6)*1e-6*Ipot*Ipot
         + (3.858019*i2 - 0.1667989*i4 + 0.00157955*i6)*1.0e-9*Ipot*Ipot*Ipot;
}
double bethek_dedx_e(const Projectile &p, const Target &t, const Config &c, double I){
"""), (C, """    if(!(c.corrections&corrections::no_shell_correction) &&  eta>=0.13){ //shell corrections
        double cor = (+0.422377*pow(eta,-2)
                    +0.0304043*pow(eta,-4)
                    -0.00038106*pow(eta,-6))*1e-6*pow(Ipot,2)
                  +(+3.858019*pow(eta,-2)
                    -0.1667989*(pow(eta,-4))
                    +0.00157955*(pow(eta,-6)))*1.0e-9*pow(Ipot,3);
        f2 = f2 -cor/t.Z;
    }
""", """    if(enabled(c, corrections::no_shell_correction) && !(eta<0.13)){
        f2 -= shell(eta, Ipot)/t.Z;
    }
"""), (C, "    if(!(c.corrections&corrections::no_barkas)){", "    if(enabled(c, corrections::no_barkas)){")]),
    ("r-reorder", "ok", P, [(C, "    double result  = (f2)*barkas + LS - delta/2.;\n    result *=f1;\n", "    double result  = f1*(LS + barkas*f2) - 0.5*f1*delta;\n"),
                            (C, """        result += pair_production(p,t);
        result += bremsstrahlung(p,t);
""", """        result += bremsstrahlung(p,t) + pair_production(p,t);
""")]),
    ("r-omega", "ok", P, [(C, "\t    cor = std::max(cor, 0.0 );\n", "\t    if(cor < 0.0) cor = 0.0;\n"), (C, """    if(p.T<30.0)
		return std::min(f*(X+cor), energy_straggling_firsov(p.Z, p.T, t.Z,t.A));
	else
		return f*(X+cor);
""", """    double res = f*X + f*cor;
    if(!(p.T>=30.0)){
        const double limit = energy_straggling_firsov(p.Z, p.T, t.Z,t.A);
        if(limit < res) res = limit;
    }
    return res;
""")]),
    ("r-scatt", "ok", P, [(S, """    double Es2 = 198.81;
    //double f = 1.0;    
    if(c.scattering == scattering_types::dhighland)Es2 = Es_squared;
    if(c.scattering == scattering_types::fermi_rossi)Es2 = Es_squared;
    return c.scattering_factor*angular_scattering_power(p,mat, Es2);""", """    const bool wide = (c.scattering == scattering_types::dhighland) || (c.scattering == scattering_types::fermi_rossi);
    return angular_scattering_power(p,mat, wide?Es_squared:198.81)*c.scattering_factor;"""),
    (S, """        double d = ipow((rrange-x),order);
        double ff = 1;        
""", """        double ff = 1;        
"""), (S, "return d*ff*Tfr(p(e),1, 1.0);", "return ff*Tfr(p(e),1, 1.0)*ipow(rrange-x,order);")]),
    ("r-scatt2", "ok", P, [(S, """    // corrections      
    if(c.scattering == scattering_types::gottschalk){
        return integrator.integrate(fx0p_2,0, rrange)*t.density();
    }
    return integrator.integrate(fx0p,0, rrange)*t.density()*ipow(p.Z,2)*Es2/X0;""", """    const double rho = t.density();
    double res;
    if(c.scattering != scattering_types::gottschalk){
        res = Es2*p.Z*p.Z*integrator.integrate(fx0p,0, rrange)/X0;
    }
    else{
        res = integrator.integrate(fx0p_2,0, rrange);
    }
    return res*rho;""")]),
]
