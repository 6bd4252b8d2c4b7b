"""P20: build options"""
T, G, H = "src/catima.cpp", "src/storage.cpp", "include/catima/storage.h"
UB = "        auto it=std::upper_bound(begin(),end(),v);\n        return int(it-begin())-1;"
ENTRIES = [
    ("lower", "bug", ["P20"], [(H, "std::upper_bound(begin(),end(),v)", "std::lower_bound(begin(),end(),v)")]),
    ("off1", "bug", ["P20"], [(H, "return int(it-begin())-1;", "return int(it-begin());")]),
    ("acc", "bug", ["P20"], [(G, "        return Interpolator(energy_table,data.angular_variance);", "        return Interpolator(energy_table,data.range_straggling);")]),
    ("thin", "bug", ["P20"], [(T, "        #else\n        res.sigma_E = res.dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(res.Eout))/p.A;", "        #else\n        res.sigma_E = res.dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(res.Eout));")]),
    ("r-ub", "ok", ["P20", "P07", "P12"], [(H, UB, "        const double *first = begin();\n        const double *it = std::upper_bound(first,end(),v);\n        const int n = static_cast<int>(it-first);\n        return n-1;")]),
    ("r-lin", "ok", ["P07", "P12"], [(H, "        double lxval = (std::log(v/values[0])/LN10);\n        int i = std::min(static_cast<int> (std::floor(lxval/step)), N-2);\n        if(v >= values[i+1]-numeric_epsilon)i++; // this is correction for floating point precision\n        return i;\n        #else", "        const double pos = std::log(v/values[0])/(LN10*step);\n        int i = static_cast<int>(std::floor(pos));\n        if(i>N-2)i=N-2;\n        return (v >= values[i+1]-numeric_epsilon)?i+1:i;\n        #else")]),
    ("posbug", "bug", ["P12"], [(H, "        if(v >= values[i+1]-numeric_epsilon)i++; // this", "        if(v >= 0.999*values[i+1])i++; // this")]),
    ("posbug2", "bug", ["P12"], [(H, "        double lxval = (std::log(v/values[0])/LN10);\n        int i = std::min(static_cast<int> (std::floor(lxval/step)), N-2);\n        if(v >= values", "        double lxval = (std::log(v/values[0])/LN10);\n        int i = std::min(static_cast<int> (std::floor(lxval/step+0.5)), N-2);\n        if(v >= values")]),
]
