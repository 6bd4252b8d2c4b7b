// uses of the header-only parts, and loops the analysis must judge right on every run
#include <cmath>
#include <list>
#include <vector>
#include "catima/catima.h"
#include "catima/convert.h"
#include "catima/gkq_integrator.h"
#include "catima/glq_integrator.h"
namespace use_p14 {
struct F { double operator()(double x) const; };
struct F2 { double operator()(double x, double y) const; };
double adaptive(double a, double b) { F f; return integrators::GaussKronrodIntegration<21>::integrate(f, a, b) + integrators::GaussKronrodIntegration<7>::integrate(f, a, b); }
double intervals(const std::vector<std::pair<double, double>> &v) { F f; return integrators::GaussKronrodIntegration<21>::integrate_intervals(f, v); }
double points() { integrators::GaussLegendreIntegration<8> g; return integrators::GaussKronrodIntegration<21>::get_points(0, 1)[0] + g.get_points(0, 1)[0]; }
double square() { F2 f; integrators::GaussLegendreIntegration2D<8> g; integrators::GaussLegendreIntegration2DA<8, 16> h; return g.integrate(f, 0, 1, 0, 1) + h.integrate(f, 0, 1, 0, 1); }
} // namespace use_p14

namespace spec_p14 {
double step_(double);
double good_count(double x) { int n = 0; while (std::fabs(x) > 1e-6) { x = step_(x); if (++n > 100) break; } return x; }
double bad_converge(double x) { while (std::fabs(x) > 1e-6) x = step_(x); return x; }
double bad_sometimes(double x) { int n = 0; while (std::fabs(x) > 1e-6) { x = step_(x); if (x > 1) n++; if (n > 100) break; } return x; }
double good_real(double x) { double n = 0; do { x = step_(x); n += 1.0; } while (x > 1e-6 && n < 1000.0); return x; }
double bad_real(double x, double d) { for (double e = 0; e < 10.0; e += d) x = step_(x); return x; }
double good_list(const std::vector<double> &v) { double s = 0; for (double e : v) s += step_(e); return s; }
double bad_list(std::vector<double> &v) { for (std::size_t i = 0; i < v.size(); i++) v.push_back(v[i]); return v[0]; }
double good_down(int n) { double s = 0; for (int i = n; i > 0; i--) s += step_(i); return s; }
double bad_down(int n) { double s = 0; for (int i = n; i > 0; i++) { s += step_(i); if (s > 10) return s; } return s; }
static bool more_(double &x, int &n) { x = step_(x); n++; return std::fabs(x) > 1e-6 && n < 100; }
double good_helper(double x) { int n = 0; while (more_(x, n)) x += 1; return x; }
double good_recursion(double x, int level) { return (level > 0 && x > 1) ? good_recursion(step_(x), level - 1) : x; }
double bad_recursion(double x, int level) { return (x > 1) ? bad_recursion(step_(x), level) : x; }
} // namespace spec_p14
