// P12: the table spline, for every table of values over grids with uneven steps. The position of an argument in the grid is
// given explicitly, so that both pieces meeting at a node can be evaluated at that node.
#include "catima/build_config.h"
#include "catima/storage.h"
#include "catima/spline.h"
#include <vector>
using namespace catima;
namespace spec_p12_grid {
template<int N> struct Grid {
    int at;
    static constexpr int size() { return N; }
    double values[N];
    double operator[](int i) const { return values[i]; }
    double operator()(int i) const { return values[i]; }
    int index(double) const { return at; } };
}
namespace spec_p12 {
using namespace spec_p12_grid;
using G3 = Grid<3>; using G4 = Grid<4>; using G5 = Grid<5>; using G7 = Grid<7>;
static const double x3[] = {1, 3, 4}, x4[] = {-2, 1, 1.5, 5}, x5[] = {0.5, 1, 3, 3.5, 11}, x7[] = {1, 2, 4, 8, 12, 13, 29};
#define SPLINE(N) Grid<N> g; for (int i = 0; i < N; i++) g.values[i] = x##N[i]; if (y.size() != N) return true; cspline_special<Grid<N>> s(g, y, natural);
// value of the spline (f) or its derivative (d) from the piece k
#define F(k, x) (g.at = (k), s.evaluate(x))
#define C(k, x) (g.at = (k), s(x))
#define D(k, x) (g.at = (k), s.deriv(x))
#define D2(k, x, h) ((D(k, (x) + (h)) - D(k, (x) - (h))) / (2 * (h)))
#define NODE(N, K) \
bool nodes_##N##_##K(const std::vector<double> &y, bool natural) { SPLINE(N) return F(K, x##N[K]) == y[K] && C(K, x##N[K]) == y[K]; }
#define JOIN(N, K) \
bool value_##N##_##K(const std::vector<double> &y, bool natural) { SPLINE(N) return F(K - 1, x##N[K]) == y[K]; } \
bool slope_##N##_##K(const std::vector<double> &y, bool natural) { SPLINE(N) return D(K - 1, x##N[K]) == D(K, x##N[K]); }
#define BEND(N, K) \
bool curvature_##N##_##K(const std::vector<double> &y, bool natural) { SPLINE(N) const double h = 0.125; return D2(K - 1, x##N[K], h) == D2(K, x##N[K], h); }
// a cubic and its derivative: f' = (8 (f(x+h)-f(x-h)) - (f(x+2h)-f(x-2h))) / 12h
#define OUT(N, v) ((v) < x##N[0] || (v) > x##N[N - 1])
#define DERIV(N, K) \
bool derivative_##N##_##K(const std::vector<double> &y, double x, double h, bool natural) { SPLINE(N) \
    if (OUT(N, x) || OUT(N, x - h) || OUT(N, x + h) || OUT(N, x - 2 * h) || OUT(N, x + 2 * h) || !(h > 0)) return true; \
    return 12 * h * D(K, x) == 8 * (F(K, x + h) - F(K, x - h)) - (F(K, x + 2 * h) - F(K, x - 2 * h)); }
#define INSIDE(N, K) NODE(N, K) JOIN(N, K) BEND(N, K) DERIV(N, K)
NODE(3, 0) INSIDE(3, 1) NODE(3, 2) JOIN(3, 2)
NODE(4, 0) INSIDE(4, 1) INSIDE(4, 2) NODE(4, 3) JOIN(4, 3)
NODE(5, 0) INSIDE(5, 1) INSIDE(5, 2) INSIDE(5, 3) NODE(5, 4) JOIN(5, 4)
NODE(7, 0) INSIDE(7, 1) INSIDE(7, 2) INSIDE(7, 3) INSIDE(7, 4) INSIDE(7, 5) NODE(7, 6) JOIN(7, 6)
DERIV(3, 0) DERIV(4, 0) DERIV(5, 0) DERIV(7, 0)
// outside: at most quadratic, joined with value and slope
#define BEYOND(N) \
bool right_value_##N(const std::vector<double> &y, bool natural) { SPLINE(N) const double b = x##N[N - 1]; return 3 * F(N - 1, b + 1) - 3 * F(N - 1, b + 2) + F(N - 1, b + 3) == y[N - 1]; } \
bool right_slope_##N(const std::vector<double> &y, bool natural) { SPLINE(N) const double b = x##N[N - 1]; return 2 * D(N - 1, b + 1) - D(N - 1, b + 2) == D(N - 2, b); } \
bool right_derivative_##N(const std::vector<double> &y, double x, double h, bool natural) { SPLINE(N) const double b = x##N[N - 1]; \
    if (!(x - h > b) || !(h > 0) || !(x > b) || !(x + h > b) || x < x##N[0] || x - h < x##N[0] || x + h < x##N[0]) return true; \
    return 2 * h * D(N - 1, x) == F(N - 1, x + h) - F(N - 1, x - h); } \
bool right_quadratic_##N(const std::vector<double> &y, double x, double h, bool natural) { SPLINE(N) const double b = x##N[N - 1]; \
    if (!(x > b) || !(h > 0) || !(x + h > b) || !(x + 2 * h > b) || !(x + 3 * h > b) || x < x##N[0] || x + h < x##N[0] || x + 2 * h < x##N[0] || x + 3 * h < x##N[0]) return true; \
    return F(N - 1, x) == 3 * F(N - 1, x + h) - 3 * F(N - 1, x + 2 * h) + F(N - 1, x + 3 * h); } \
bool left_value_##N(const std::vector<double> &y, bool natural) { SPLINE(N) const double a = x##N[0]; return 3 * F(-1, a - 1) - 3 * F(-1, a - 2) + F(-1, a - 3) == y[0]; } \
bool left_slope_##N(const std::vector<double> &y, bool natural) { SPLINE(N) const double a = x##N[0]; return 2 * D(-1, a - 1) - D(-1, a - 2) == D(0, a); } \
bool left_derivative_##N(const std::vector<double> &y, double x, double h, bool natural) { SPLINE(N) const double a = x##N[0]; \
    if (!(x + h < a) || !(h > 0) || !(x < a) || !(x - h < a)) return true; \
    return 2 * h * D(-1, x) == F(-1, x + h) - F(-1, x - h); } \
bool left_quadratic_##N(const std::vector<double> &y, double x, double h, bool natural) { SPLINE(N) const double a = x##N[0]; \
    if (!(x < a) || !(h > 0) || !(x - h < a) || !(x - 2 * h < a) || !(x - 3 * h < a)) return true; \
    return F(-1, x) == 3 * F(-1, x - h) - 3 * F(-1, x - 2 * h) + F(-1, x - 3 * h); }
BEYOND(3) BEYOND(4) BEYOND(5) BEYOND(7)
}
namespace spec_p12_interpolator {
using T = EnergyTable<max_datapoints>;
bool eval(const T &t, const std::vector<double> &y, double x) {
    InterpolatorCSpline<T> i(t, y); cspline_special<T> s(t, y);
    return i.eval(x) == s.evaluate(x) && i(x) == s.evaluate(x); }
bool derivative(const T &t, const std::vector<double> &y, double x) { InterpolatorCSpline<T> i(t, y); cspline_special<T> s(t, y); return i.derivative(x) == s.deriv(x); }
bool limits(const T &t, const std::vector<double> &y) { InterpolatorCSpline<T> i(t, y); return i.get_min() == t[0] && i.get_max() == t[max_datapoints - 1]; }
}
