"""P09: element and isotope data"""
A = "src/abundance_database.cpp"
N = "src/nucdata.cpp"
C = "src/calculations.cpp"
I = "include/catima/data_ionisation_potential.h"
DA = "include/catima/data_atima.h"
P = ["P09"]
ENTRIES = [
    ("index", "bug", P, [(A, "158,166,167,176", "158,166,168,176")]),
    ("order", "bug", P, [(A, "114,112,111,110,113", "114,111,112,110,113")]),
    ("last", "bug", P, [(A, "if(z < abundance_z_max)hi", "if(z < abundance_z_max-1)hi")]),
    ("pair", "bug", P, [(A, "res.second = isotopes_abundance[abundance_z_index[z-1]+i];", "res.second = isotopes_abundance[abundance_z_index[z-1]];")]),
    ("zbound", "bug", P, [(A, "    int get_isotope_a(int z, int i){\n        int num = get_isotopes_num(z);\n        if(num==0|| i<0 || (i+1) > num)return 0;", "    int get_isotope_a(int z, int i){\n        int num = get_isotopes_num(z);\n        if(num==0|| i<0 || i > num)return 0;")]),
    ("x0", "bug", P, [(C, "if ( density_effect::x0[i]<= x &&  x <= density_effect::x1[i] )", "if ( density_effect::x0[i]< x &&  x <= density_effect::x1[i]-0.5 )")]),
    ("zt", "bug", P, [(C, "    i = zt-1;\n\n    if (x < density_effect", "    i = (zt<97)?zt:96;\n\n    if (x < density_effect")]),
    ("r-eff", "ok", None, [(C, """    double del = 0;

    if(zt>97){  // check if data are available, if not take highest z data
        zt=97;
        }
    i = zt-1;
""", """    double del = 0;
    i = std::min(zt,97)-1;
"""), (C, """        del = 4.6052 * x - density_effect::c[i];
        if ( density_effect::x0[i]<= x &&  x <= density_effect::x1[i] ) del +=  density_effect::a[i] * pow((density_effect::x1[i] - x),density_effect::m[i]);
""", """        const double dx = density_effect::x1[i] - x;
        if(dx >= 0) del = density_effect::a[i] * pow(dx,density_effect::m[i]);
        del += 4.6052 * x;
        del -= density_effect::c[i];
""")]),
    ("r-iso", "ok", P, [(A, """        res.first = isotopes_a[abundance_z_index[z-1]+i];
        res.second = isotopes_abundance[abundance_z_index[z-1]+i];
        
        return res;""", """        return {get_isotope_a(z,i), get_abundance(z,i)};"""), (A, """    int get_isotopes_num(int z){
        if(z<1 || z>abundance_z_max)return 0;
        int idx = abundance_z_index[z-1];
        int hi=isotopes_num_data;
        if(z < abundance_z_max)hi = abundance_z_index[z];
        return hi-idx;""", """    static int first_of(int z){
        return (z<=abundance_z_max)?abundance_z_index[z-1]:isotopes_num_data;
    }
    int get_isotopes_num(int z){
        if(z>=1 && z<=abundance_z_max) return first_of(z+1)-first_of(z);
        return 0;""")]),
]
