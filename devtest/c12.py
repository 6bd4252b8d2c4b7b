"""P12: table spline"""
S, T = "include/catima/spline.h", "include/catima/storage.h"
P = ["P12"]
ENTRIES = [
    ("mid", "bug", P, [(S, "A(i,i)=2.0/3.0*(x[i+1]-x[i-1]);", "A(i,i)=2.0/3.0*(x[i+1]-x[i]);")]),
    ("offdiag", "bug", P, [(S, "A(i,i+1)=1.0/3.0*(x[i+1]-x[i]);", "A(i,i+1)=1.0/3.0*(x[i]-x[i-1]);")]),
    ("back", "bug", P, [(S, "for(int j=N-2;j>=0;j--){", "for(int j=N-2;j>0;j--){")]),
    ("deriv", "bug", P, [(S, "interpol=(3.0*m_a[idx]*h + 2.0*m_b[idx])*h + m_c[idx];", "interpol=(3.0*m_a[idx]*h + m_b[idx])*h + m_c[idx];")]),
    ("extra", "bug", P, [(S, "interpol=(m_b[N-1]*h + m_c[N-1])*h + m_y[N-1];", "interpol=(m_b[N-1]*h + m_c[N-2])*h + m_y[N-1];")]),
    ("extrad", "bug", P, [(S, "interpol=2.0*m_b0*h + m_c0;", "interpol=2.0*m_b[0]*h + m_c0;")]),
    ("left", "bug", P, [(S, "    m_b0 =  0.0;", "    m_b0 =  m_b[0];"), (S, "interpol=2.0*m_b0*h + m_c0;", "interpol=m_c0;")]),
    ("last", "bug", P, [(S, "3.0*m_a[N-2]*h*h+2.0*m_b[N-2]*h+m_c[N-2]", "3.0*m_a[N-2]*h*h+m_b[N-2]*h+m_c[N-2]")]),
    ("clamped", "bug", P, [(S, "A(0,1)=1.0*(x[1]-x[0]);", "A(0,1)=1.0*(x[1]-x[0]);A(1,0)=0;")]),
    ("swap", "bug", P, [(T, "double derivative(double x)const{return ss.deriv(x);}", "double derivative(double x)const{return ss.evaluate(x);}")]),
    ("max", "bug", P, [(T, "max(table[max_datapoints-1])", "max(table[max_datapoints-2])")]),
    ("r-eval", "ok", None, [(S, "interpol=((m_a[idx]*h + m_b[idx])*h + m_c[idx])*h + m_y[idx];", "interpol=m_y[idx] + h*(m_c[idx] + h*(m_b[idx] + h*m_a[idx]));")]),
    ("r-coef", "ok", None, [(S, "            m_a[i]=1.0/3.0*(m_b[i+1]-m_b[i])/(x[i+1]-x[i]);\n            m_c[i]=(y[i+1]-y[i])/(x[i+1]-x[i])\n                   - 1.0/3.0*(2.0*m_b[i]+m_b[i+1])*(x[i+1]-x[i]);", "            const double dx = x[i+1]-x[i];\n            m_c[i]=(y[i+1]-y[i])/dx - (2.0*m_b[i]+m_b[i+1])*dx/3.0;\n            m_a[i]=(m_b[i+1]-m_b[i])/(3.0*dx);")]),
    ("r-solve", "ok", None, [(S, "    for(int j=N-2;j>=0;j--){\n        x[j] -= g[j+1]*x[j+1];\n    }", "    for(int j=N-1;j>0;j--){\n        x[j-1] -= g[j]*x[j];\n    }")]),
    ("r-early", "ok", None, [(S, "        double h=x-m_x[idx];\n        double interpol;\n        if(x<m_x[0]) {\n            // extrapolation to the left\n            interpol=2.0*m_b0*h + m_c0;\n        } else if", "        double h=x-m_x[idx];\n        double interpol;\n        if(x<m_x[0])return 2.0*m_b0*h + m_c0;\n        if")]),
    ("r-scale", "ok", None, [(S, "        A(i,i-1)=1.0/3.0*(x[i]-x[i-1]);\n        A(i,i)=2.0/3.0*(x[i+1]-x[i-1]);\n        A(i,i+1)=1.0/3.0*(x[i+1]-x[i]);\n        rhs[i]=(y[i+1]-y[i])/(x[i+1]-x[i]) - (y[i]-y[i-1])/(x[i]-x[i-1]);", "        const double hl = x[i]-x[i-1], hr = x[i+1]-x[i];\n        A(i,i-1)=hl;\n        A(i,i)=2.0*(hl+hr);\n        A(i,i+1)=hr;\n        rhs[i]=3.0*((y[i+1]-y[i])/hr - (y[i]-y[i-1])/hl);")]),
]
