"""P11: quadrature"""
L, K = "include/catima/glq_integrator.h", "include/catima/gkq_integrator.h"
P = ["P11"]
ENTRIES = [
    ("digit", "bug", P, [(K, "1.47739104901338491e-01", "1.47739104961338491e-01")]),
    ("gdigit", "bug", P, [(K, "2.19086362515982044e-01", "2.19086326515982044e-01")]),
    ("point", "bug", P, [(L, "points[num-i-1+odd] = -p*x(i) + q;", "points[num-i-1+odd] = -p*x(i);")]),
    ("kpoint", "bug", P, [(K, "    if(odd){points[num] = p*x(0) + q;} // central point", "    if(odd){points[num] = p*x(0);} // central point")]),
    ("odd", "bug", P, [(L, "    for(int i=order%2;i<order/2 + order%2;i++){\n        res", "    for(int i=order%2;i<order/2;i++){\n        res")]),
    ("half", "bug", P, [(K, "integrate_adaptive(f, mid, b, 0.707", "integrate_adaptive(f, a, b, 0.707")]),
    ("split", "bug", P, [(K, "double m =a+(i*step);", "double m =a+((i+1)*step);")]),
    ("splitn", "bug", P, [(K, "double step = (b-a)/N;", "double step = (b-a)/(N+1);")]),
    ("err", "bug", P, [(K, "std::abs(gres-res)", "std::abs(gres-2*res)")]),
    ("gi", "bug", P, [(K, "        gi = 2;\n        ki = 1;", "        gi = 1;\n        ki = 2;")]),
    ("intervals", "bug", P, [(K, "i.first,i.second, eps/intervals", "i.first,i.first+step_, eps/intervals"), (K, "    double result = 0;\n    for(auto& i:intervals){", "    double result = 0, step_ = 1;\n    for(auto& i:intervals){")]),
    ("plane", "bug", P, [(L, "double wj = (order2%2 && j==0)?", "double wj = (order%2 && j==0)?")]),
    ("r-order", "ok", None, [(L, "    double p = 0.5*(b-a);\n    double q = 0.5*(b+a);\n\n    if(order%2){res", "    double p = (b-a)/2;\n    double q = a + p;\n\n    if(order%2){res")]),
    ("r-pairs", "ok", None, [(L, "        res += w(i) * (f(p*x(i) + q) + f(-p*x(i) + q));\n    }\n    return p*res;", "        double d = p*x(i);\n        res += w(i) * f(q + d);\n        res += w(i) * f(q - d);\n    }\n    res *= p;\n    return res;")]),
    ("r-adapt", "ok", None, [(K, "    if( level && (err > aeps)){\n\t    double mid = 0.5*(a+b);\n        result  = integrate_adaptive(f, a, mid, 0.707*aeps, 0, level-1);\n        result += integrate_adaptive(f, mid, b, 0.707*aeps, 0, level-1);\n        }\n\n    return result;", "    if( level<=0 || !(err > aeps))return result;\n    double mid = a + (b-a)/2;\n    double left = integrate_adaptive(f, a, mid, 0.707*aeps, 0, level-1);\n    double right = integrate_adaptive(f, mid, b, 0.707*aeps, 0, level-1);\n    return left+right;")]),
    ("r-split", "ok", None, [(K, "        double m =a+(i*step);\n        result+=integrate_adaptive(f,m,m+step, eps/N, reps);", "        double lo = a+(i*step);\n        double hi = a+((i+1)*step);\n        result+=integrate_adaptive(f,lo,hi, eps/N, reps);")]),
    ("r-intervals", "ok", None, [(K, "    for(auto& i:intervals){\n        result+=integrate_adaptive(f,i.first,i.second, eps/intervals.size(), reps);", "    const double share = eps/intervals.size();\n    for(std::size_t k=0;k<intervals.size();k++){\n        result+=integrate_adaptive(f,intervals[k].first,intervals[k].second, share, reps);")]),
]
