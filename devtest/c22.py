"""P22: truncation"""
C, T, S, ST, R, W, N = "src/calculations.cpp", "src/catima.cpp", "src/structures.cpp", "include/catima/structures.h", "src/reactions.cpp", "src/cwrapper.cpp", "src/nucdata.cpp"
SH, CH = "include/catima/srim.h", "include/catima/calculations.h"
P = ["P22"]
ENTRIES = [
    ("loop", "bug", P, [(C, "    double sum = 0;    \n    for(int i=0;i<material.ncomponents();i++){\n        auto t = material.get_element(i);\n        double w = material.weight_fraction(i);\n        sum += w/scattering_length(t.A,t.Z);", "    double sum = 0;    \n    for(int i=0;i<material.ncomponents();i++){\n        auto t = material.get_element(i);\n        double w = material.weight_fraction(i);\n        int a = t.A;\n        sum += w/scattering_length(a,t.Z);")]),
    ("abs", "bug", P, [(R, "std::abs(cs0-cs1)/cs0 < 0.05", "std::abs((int)(cs0-cs1))/cs0 < 0.05")]),
    ("round", "bug", P, [(R, "int ap = lround(projectile.A);", "int ap = projectile.A;")]),
    ("cwrap", "bug", P, [(W, "double catima_range(double pa, int pz,", "double catima_range(int pa, int pz,"), ("include/catima/cwrapper.h", "double catima_range(double pa, int pz,", "double catima_range(int pa, int pz,")]),
    ("add", "bug", P, [(S, "void Material::add_element(double _a, int _z, double _stn){", "void Material::add_element(double _a, int _z, int _stn){"), (ST, "void add_element(double _a, int _z, double _stn);", "void add_element(double _a, int _z, int _stn);")]),
    ("list", "bug", P, [(S, "add_element((*it)[0],(*it)[1],(*it)[2]);", "add_element((int)(*it)[0],(*it)[1],(*it)[2]);")]),
    ("floatT", "bug", P, [(C, "double precalculated_lindhard(const Projectile &p){\n    double T = p.T;", "double precalculated_lindhard(const Projectile &p){\n    float T = p.T;")]),
    ("r-round", "ok", None, [(R, "int ap = lround(projectile.A);", "int ap = static_cast<int>(std::lround(projectile.A));")]),
    ("r-z", "ok", None, [(C, "double precalculated_lindhard_X(const Projectile &p){\n    double T = p.T;\n    int z = (int)p.Z ;", "static inline int row_of(double charge){ return static_cast<int>(charge); }\ndouble precalculated_lindhard_X(const Projectile &p){\n    double T = p.T;\n    int z = row_of(p.Z);")]),
]
