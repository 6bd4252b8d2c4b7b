// P11: quadrature rules applied to an unknown integrand
#include "catima/glq_integrator.h"
#include "catima/gkq_integrator.h"
#include <utility>
#include <vector>
using namespace integrators;
double integrand_(double x);
double integrand2_(double x, double y);
struct Integrand { double operator()(double x) const { return integrand_(x); } };
struct Integrand2 { double operator()(double x, double y) const { return integrand2_(x, y); } };
namespace spec_p11_rules {
template<int N> double legendre_(double a, double b) { GaussLegendreIntegration<N> g; Integrand f; return g.integrate(f, a, b); }
template<int N> double call_(double a, double b) { GaussLegendreIntegration<N> g; Integrand f; return g(f, a, b); }
template<int N> int count_() { GaussLegendreIntegration<N> g; return g.n(); }
template<int N> double point_(double a, double b, int i) { GaussLegendreIntegration<N> g; std::array<double, N> p = g.get_points(a, b); return p[i]; }
template<int N> double kronrod_(double a, double b) { Integrand f; return GaussKronrodIntegration<N>::integrate_nonadaptive(f, a, b).first; }
template<int N> double error_(double a, double b) { Integrand f; return GaussKronrodIntegration<N>::integrate_nonadaptive(f, a, b).second; }
template<int N> int kcount_() { return GaussKronrodIntegration<N>::n(); }
template<int N> double kpoint_(double a, double b, int i) { std::array<double, N> p = GaussKronrodIntegration<N>::get_points(a, b); return p[i]; }
template<int N> double square_(double a, double b, double c, double d) { GaussLegendreIntegration2D<N> g; Integrand2 f; return g.integrate(f, a, b, c, d); }
template<int N> double squarecall_(double a, double b, double c, double d) { GaussLegendreIntegration2D<N> g; Integrand2 f; return g(f, a, b, c, d); }
template<int N, int M> double rectangle_(double a, double b, double c, double d) { GaussLegendreIntegration2DA<N, M> g; Integrand2 f; return g.integrate(f, a, b, c, d); }
template<int N, int M> double rectanglecall_(double a, double b, double c, double d) { GaussLegendreIntegration2DA<N, M> g; Integrand2 f; return g(f, a, b, c, d); }
#define GL(N) template double legendre_<N>(double, double); template double call_<N>(double, double); template int count_<N>(); template double point_<N>(double, double, int);
GL(3) GL(4) GL(5) GL(6) GL(7) GL(8) GL(10) GL(12) GL(14) GL(16) GL(20) GL(32) GL(64) GL(128)
#define GK(N) template double kronrod_<N>(double, double); template double error_<N>(double, double); template int kcount_<N>(); template double kpoint_<N>(double, double, int);
GK(7) GK(15) GK(21) GK(31) GK(61)
#define G2(N) template double square_<N>(double, double, double, double); template double squarecall_<N>(double, double, double, double);
G2(3) G2(4) G2(7) G2(8)
#define GA(N, M) template double rectangle_<N, M>(double, double, double, double); template double rectanglecall_<N, M>(double, double, double, double);
GA(3, 4) GA(4, 5) GA(5, 3) GA(8, 6)
}
namespace spec_p11_adaptive {
template<int N> double adaptive_(double a, double b, double eps, double reps, int level) { Integrand f; return GaussKronrodIntegration<N>::integrate_adaptive(f, a, b, eps, reps, level); }
template double adaptive_<7>(double, double, double, double, int);
template double adaptive_<21>(double, double, double, double, int);
}
namespace spec_p11_intervals {
using Q = GaussKronrodIntegration<21>;
bool split(double a, double b, double eps, double reps, int n) {
    if (n <= 0) return true;
    Integrand f; double s = 0, h = (b - a) / n;
    for (int i = 0; i < n; i++) s += Q::integrate_adaptive(f, a + i * h, a + (i + 1) * h, eps / n, reps);
    return Q::integrate(f, a, b, eps, reps, n) == s; }
bool listed(const std::vector<std::pair<double, double>> &v, double eps, double reps) {
    Integrand f; double s = 0;
    for (std::size_t i = 0; i < v.size(); i++) s += Q::integrate_adaptive(f, v[i].first, v[i].second, eps / v.size(), reps);
    return Q::integrate_intervals(f, v, eps, reps) == s; }
}
