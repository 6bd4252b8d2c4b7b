// P25: stand-alone functions use the tables the way full calculations do
#include "catima/catima.h"
#include "catima/integrator.h"
#include "catima/reactions.h"
#include "catima/abundance_database.h"
#include <cmath>
using namespace catima;
namespace spec_p25 {
#define ARGS Projectile p, const Material &t, const Config &c
#define SLOT _storage.Get(p, t, c)
#define SPL const Interpolator &rs = get_range_spline(SLOT)
#define STR const Interpolator &ss = get_range_straggling_spline(SLOT)
#define ANG const Interpolator &as = get_angular_variance_spline(SLOT)
bool range_value(ARGS) { SPL; return range(p, t, c) == rs(p.T); }
bool stopping_power_from_range(ARGS) { SPL; return dedx_from_range(p, t, c) == p.A / rs.derivative(p.T); }
bool range_variance_value(ARGS, double T) { STR; return range_variance(p, T, t, c) == ss(T); }
bool range_straggling_value(ARGS, double T) { STR; return range_straggling(p, T, t, c) == std::sqrt(ss(T)); }
bool straggling_slope(ARGS, double T) { STR; return domega2de(p, T, t, c) == ss.derivative(T); }
bool angular_slope(ARGS, double T) { ANG; return da2de(p, T, t, c) == as.derivative(T); }
bool angular_rate(ARGS) {
    bool h = c.scattering == scattering_types::dhighland || c.scattering == scattering_types::fermi_rossi;
    return da2dx(p, t, c) == c.scattering_factor * angular_scattering_power(p, t, h ? Es_squared : 198.81); }
bool exit_energy(ARGS) { SPL; return energy_out(p, t, c) == energy_out(p.T, t.thickness(), rs); }
bool energy_straggling(ARGS, double T, double E) { SPL; STR; return energy_straggling_from_E(p, T, E, t, c) == std::sqrt(ss(T) - ss(E)) / rs.derivative(E); }
bool angular_straggling_is_root(ARGS) { return angular_straggling(p, t, c) == std::sqrt(angular_variance(p, t, c, 0)); }
bool angular_straggling_between(ARGS, double E) { SPL; Material m = t; m.thickness(rs(p.T) - rs(E)); return angular_straggling_from_E(p, E, t, c) == angular_straggling(p, m, c); }
bool time_between(ARGS, double E) {
    auto f = [&](double e) -> double { return 1 / (dedx(p(e), t, c) * beta_from_T(e)); };
    return calculate_tof_from_E(p, E, t, c) == 10 * p.A * integrator.integrate(f, E, p.T) / (c_light * t.density()); }
}
namespace spec_p25_width {
#define W double e1 = 0.99 * E, e2 = 1.01 * E; SPL; \
    double o1 = energy_out(e1, t.thickness(), rs), o = energy_out(E, t.thickness(), rs), o2 = energy_out(e2, t.thickness(), rs); \
    if (!(t.density() > 0) || !(t.thickness() > 0) || !(E >= 1) || e1 < Ezero || e2 < Ezero || E < Ezero) return true; auto w = w_magnification(p, E, t, c); \
    if (!(o1 > 0) || !(o > 0) || !(o2 > 0)) return w.first == 0 && w.second == 0
bool energy_magnification(ARGS, double E) { W; return w.first == ((o2 - o1) / o) / ((e2 - e1) / E); }
bool momentum_magnification(ARGS, double E) { W; return w.second == ((p_from_T(o2, p.A) - p_from_T(o1, p.A)) / p_from_T(o, p.A)) / ((p_from_T(e2, p.A) - p_from_T(e1, p.A)) / p_from_T(E, p.A)); }
bool no_magnification(ARGS, double E) { if (t.density() > 0 && t.thickness() > 0) return true; auto w = w_magnification(p, E, t, c); return w.first == 1 && w.second == 1; }
}
namespace spec_p25_scattering {
// (n-th moment of the remaining path) x scattering power, integrated over the path actually travelled
#define PATH SPL; const double R = rs(p.T) / t.density(), L = t.thickness_cm() < R ? t.thickness_cm() : R, X0 = radiation_length(t), Z = p.Z
#define POWER(e) (1 / ((p_from_T(e, p.A) * p_from_T(e, p.A) / ((e + atomic_mass_unit) * p.A)) * (p_from_T(e, p.A) * p_from_T(e, p.A) / ((e + atomic_mass_unit) * p.A))))
#define MOMENT(x, n) (n == 0 ? 1 : n == 1 ? L - x : (L - x) * (L - x))
template<int n> bool plain_(ARGS) {
    if (c.scattering == scattering_types::dhighland || c.scattering == scattering_types::gottschalk) return true;
    PATH; double es = c.scattering == scattering_types::fermi_rossi ? Es_squared : 198.81;
    auto f = [&](double x) -> double { double e = energy_out(p.T, x * t.density(), rs); return e <= 0 ? 0 : MOMENT(x, n) * POWER(e); };
    return angular_variance(p, t, c, n) == integrator.integrate(f, 0, L) * t.density() * Z * Z * es / X0; }
template<int n> bool highland_(ARGS) {
    if (c.scattering != scattering_types::dhighland) return true;
    PATH;
    auto f = [&](double x) -> double { double e = energy_out(p.T, x * t.density(), rs), l = std::log(x * t.density() / X0);
        return e <= 0 ? 0 : MOMENT(x, n) * POWER(e) * 0.97 * (1 + l / 20.7) * (1 + l / 22.7); };
    return angular_variance(p, t, c, n) == integrator.integrate(f, 0, L) * t.density() * Z * Z * Es_squared / X0; }
template<int n> bool gottschalk_(ARGS) {
    if (c.scattering != scattering_types::gottschalk) return true;
    PATH; double q = p_from_T(p.T, p.A), b = q / ((p.T + atomic_mass_unit) * p.A);
    auto f = [&](double x) -> double { double e = energy_out(p.T, x * t.density(), rs); return MOMENT(x, n) * angular_scattering_power_xs(p(e), t, q, b); };
    return angular_variance(p, t, c, n) == integrator.integrate(f, 0, L) * t.density(); }
bool plain0(ARGS) { return plain_<0>(p, t, c); }
bool plain1(ARGS) { return plain_<1>(p, t, c); }
bool plain2(ARGS) { return plain_<2>(p, t, c); }
bool highland0(ARGS) { return highland_<0>(p, t, c); }
bool highland1(ARGS) { return highland_<1>(p, t, c); }
bool highland2(ARGS) { return highland_<2>(p, t, c); }
bool gottschalk0(ARGS) { return gottschalk_<0>(p, t, c); }
bool gottschalk1(ARGS) { return gottschalk_<1>(p, t, c); }
bool gottschalk2(ARGS) { return gottschalk_<2>(p, t, c); }
}
namespace spec_p25_reactions {
bool rate(double s, double n) { return reaction_rate(s, n) == 1 - std::exp(-s * n * 1e-4); }
bool survival(double s, double n) { return nonreaction_rate(s, n) == std::exp(-s * n * 1e-4); }
bool layer_too_slow(Projectile &p, const Material &t, const Config &c) { return !(p.T < emin_reaction) || nonreaction_rate(p, t, c) == -1; }
bool layer_empty(Projectile &p, const Material &t, const Config &c) { return p.T < emin_reaction || t.thickness() > 0 || nonreaction_rate(p, t, c) == 1; }
#define XS SPL; auto xs = [&](double x) -> double { double e = energy_out(p.T, x, rs), s = 0, n = 0; \
    for (int i = 0; i < t.ncomponents(); i++) { double k = t.molar_fraction(i); int z = t.get_element(i).Z; n += k; \
        s += k * SigmaR_Kox(std::lround(p.A), std::lround(p.Z), e, abundance::get_isotope_a(z, 0), z); } return s / n; }; \
    double a = xs(0), b = xs(t.thickness())
#define LAYER Projectile &p, const Material &t, const Config &c
#define GOES if (p.T < emin_reaction || !(t.thickness() > 0)) return true; XS; if (energy_out(p.T, t.thickness(), rs) < emin_reaction) return true
bool layer_stops(LAYER) { if (p.T < emin_reaction || !(t.thickness() > 0)) return true; SPL; return !(energy_out(p.T, t.thickness(), rs) < emin_reaction) || nonreaction_rate(p, t, c) == -1; }
bool layer_thin(LAYER) { GOES; return !(std::abs(a - b) / a < 0.05) || nonreaction_rate(p, t, c) == std::exp(-1e-4 * t.number_density_cm2() * (a + b) / 2); }
bool layer_thick(LAYER) { GOES; return std::abs(a - b) / a < 0.05 || nonreaction_rate(p, t, c) == std::exp(-1e-4 * Avogadro / t.M() * integrator.integrate(xs, 0, t.thickness())); }
bool production_distinct(double s, double a, double b, const Material &t, const Config &c) { double n = 1e-4 * t.number_density_cm2();
    return std::abs(a - b) < 5 || production_rate(s, a, b, t, c) == s * (std::exp(-n * a) - std::exp(-n * b)) / (b - a); }
bool production_equal(double s, double a, const Material &t, const Config &c) { double n = 1e-4 * t.number_density_cm2(); return production_rate(s, a, a, t, c) == s * n * std::exp(-n * a); }
}
