"""P19: headers"""
ND, CV, CW, GL, ST, SG, CA, RE = ("include/catima/nucdata.h", "include/catima/convert.h", "include/catima/cwrapper.h", "include/catima/glq_integrator.h",
    "include/catima/structures.h", "include/catima/storage.h", "include/catima/calculations.h", "include/catima/reactions.h")
P = ["P19"]
ENTRIES = [
    ("noinline", "bug", P, [(RE, "inline double Ecm_from_T(", "double Ecm_from_T(")]),
    ("noinclude", "bug", P, [(CV, "#include <vector>\n", ""), (CV, '#include "catima/structures.h"\n', ""), (CV, '#include "catima/material_database.h"\n', "")]),
    ("noguard", "bug", P, [(ND, "#ifndef nucdata_h\n#define nucdata_h\n", ""), (ND, "\n\n\n#endif", "\n")]),
    ("undefined", "bug", P, [(RE, "double SigmaR_Kox(int Ap, int Zp, double E, int At, int Zt);", "double SigmaR_Kox(int Ap, int Zp, double E, int At, int Zt);\ndouble SigmaR_Kox(const Projectile &p, const Target &t);")]),
    ("cpp in C", "bug", P, [(CW, "double atomic_weight(int i);", "double atomic_weight(int i = 1);")]),
    ("cpp type in C", "bug", P, [(CW, "extern struct CatimaConfig catima_defaults;", "extern CatimaConfig catima_defaults;")]),
    ("nonextern", "bug", P, [(CW, "double atomic_weight(int i);", "double atomic_weight(int i);\nint catima_version = 1;")]),
    ("r-pragma", "ok", P, [(ND, "#ifndef nucdata_h\n#define nucdata_h\n", "#pragma once\n"), (ND, "\n\n\n#endif", "\n")]),
    ("r-static", "ok", P, [(RE, "inline double Ecm_from_T(", "static inline double Ecm_from_T(")]),
    ("r-includes", "ok", P, [(CA, '#include "catima/structures.h"\n#include "catima/config.h"\n', '#include "catima/config.h"\n#include "catima/structures.h"\n#include <string>\n')]),
]
