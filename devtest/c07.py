"""P07: table lookups"""
K, S, H, A, N, I, SP = "src/calculations.cpp", "src/srim.cpp", "include/catima/storage.h", "src/abundance_database.cpp", "include/catima/nucdata.h", "include/catima/data_ionisation_potential.h", "include/catima/spline.h"
ENTRIES = [
    ("dens", "bug", ["P07"], [(K, "    if(zt>97){  // check if data are available, if not take highest z data\n        zt=97;", "    if(zt>98){  // check if data are available, if not take highest z data\n        zt=98;")]),
    ("nanidx", "bug", ["P07"], [(H, "        if(!(v>=values[0]) || step==0.0)return -1;\n        if(v>=values[N-1]-numeric_epsilon)return N-1;\n        \n", "        if(v<values[0] || step==0.0)return -1;\n        if(v>=values[N-1]-numeric_epsilon)return N-1;\n        \n")]),
    ("n2", "bug", ["P07"], [(H, "        int i = std::min(static_cast<int> (std::floor(lxval/step)), N-2);\n        if(v >= values", "        int i = std::min(static_cast<int> (std::floor(lxval/step)), N-1);\n        if(v >= values")]),
    ("noclamp", "bug", ["P07"], [(SP, "        int idx=std::max( table->index(x), 0);        \n", "        int idx=table->index(x);\n")]),
    ("srimZ", "bug", ["P07"], [(S, "        i = (pZ>92)?91:pZ-1;", "        i = (pZ>93)?91:pZ-1;")]),
    ("psel", "bug", ["P07"], [(S, "    int i = Z - 1;\n    if(Z>92){  // dealing with trans-U where no Srim data\n        i = 91;\n        }\n    if(e<=25)e=25;\n    double sl = (pse_95", "    int i = Z;\n    if(Z>92){  // dealing with trans-U where no Srim data\n        i = 91;\n        }\n    if(e<=25)e=25;\n    double sl = (pse_95")]),
    ("weight", "bug", ["P07"], [(N, "(z>0 && z<110)?element_atomic_weights", "(z>0 && z<=110)?element_atomic_weights")]),
    ("ipot", "bug", ["P07"], [(I, "z<1 || z>IPOT_ZMAX", "z<1 || z>IPOT_ZMAX+1")]),
    ("isoneg", "bug", ["P07"], [(A, "    float get_abundance(int z, int i){\n        int num = get_isotopes_num(z);\n        if(num==0|| i<0 || i >= num)", "    float get_abundance(int z, int i){\n        int num = get_isotopes_num(z);\n        if(num==0|| i >= num)")]),
    ("isoz", "bug", ["P07"], [(A, "if(z < abundance_z_max)hi", "if(z <= abundance_z_max)hi")]),
    ("barkas", "bug", ["P07"], [(K, "for(i=1; i<4; i++){\n\t          if( VA[i] >= v1){", "for(i=1; i<=4; i++){\n\t          if( VA[i] >= v1){")]),
    ("lshi", "bug", ["P07"], [(K, "    if(z>LS_MAX_Z)z=LS_MAX_Z;\n    if(z<1)z=1;\n    if(p.T<", "    if(z<1)z=1;\n    if(p.T<")]),
    ("interp", "bug", ["P07"], [(H, "if(i>=table.size()-1)return y[table.size()-1];", "if(i>=table.size())return y[table.size()-1];")]),
    ("r-tern", "ok", ["P07", "P10"], [(K, "    if(z>LS_MAX_Z)z=LS_MAX_Z;\n    if(z<1)z=1;\n    if(p.T<", "    z = (z>LS_MAX_Z)?LS_MAX_Z:((z<1)?1:z);\n    if(p.T<")]),
    ("r-mm", "ok", ["P07", "P09"], [(K, "    if(zt>97){  // check if data are available, if not take highest z data\n        zt=97;\n        }\n    i = zt-1;", "    i = std::min(zt,97)-1;")]),
    ("r-early", "ok", ["P07", "P09"], [(N, "    return (z>0 && z<110)?element_atomic_weights[z]:0.0;", "    if(z<=0)return 0.0;\n    if(z>=110)return 0.0;\n    return element_atomic_weights[z];")]),
    ("r-helper", "ok", ["P07", "P13"], [(S, "double p_se(int Z, double energy){", "static int row_(int Z){\n    return (Z>92)?91:Z-1;\n}\n\ndouble p_se(int Z, double energy){"), (S, "        i = tZ - 1;\n        if(tZ>92){\n            i = 91;\n            }", "        i = row_(tZ);")]),
    ("r-idx", "ok", ["P07", "P12"], [(SP, "        int idx=std::max( table->index(x), 0);        \n", "        int idx=table->index(x);\n        if(idx<0)idx=0;\n")]),
    ("r-index2", "ok", ["P07", "P12"], [(H, "        int i = std::min(static_cast<int> (std::floor(lxval/step)), N-2);\n        if(v >= values", "        int i = static_cast<int>(lxval/step);\n        if(i > N-2)i = N-2;\n        if(v >= values")]),
    ("r-iso", "ok", ["P07", "P09"], [(A, "        if(num==0|| i<0 || i >= num)return res;\n        \n        res.first = isotopes_a[abundance_z_index[z-1]+i];\n        res.second = isotopes_abundance[abundance_z_index[z-1]+i];", "        if(i>=0 && i<num){\n            const int k = abundance_z_index[z-1]+i;\n            res.first = isotopes_a[k];\n            res.second = isotopes_abundance[k];\n        }")]),
    ("r-bark", "ok", ["P07"], [(K, "        for(i=1; i<4; i++){\n\t          if( VA[i] >= v1){\n                  v2fv = V2FVA[i-1]+(v1-VA[i-1])*(V2FVA[i]-V2FVA[i-1])/(VA[i]-VA[i-1]);\n                  break;\n              }\n          }", "        i = 1;\n        while(i<3 && VA[i] < v1)i++;\n        v2fv = V2FVA[i-1]+(v1-VA[i-1])*(V2FVA[i]-V2FVA[i-1])/(VA[i]-VA[i-1]);")]),
]
