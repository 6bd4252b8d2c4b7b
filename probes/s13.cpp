// P13: every switch of the configuration selects its own formula
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/constants.h"
#include "catima/srim.h"
#include "catima/integrator.h"
#include "catima/data_ionisation_potential.h"
#include "catima/storage.h"
#include <algorithm>
#include <cmath>
using namespace catima;
namespace spec_p13_charge {
#define ARGS const Projectile &p, const Target &t, const Config &c0
#define ONLY(o) Config c = c0; c.z_effective = z_eff_type::o; double z = z_effective(p, t, c), beta = beta_from_T(p.T)
bool none(ARGS) { ONLY(none); return z == p.Q; }
bool pierce_blann(ARGS) { ONLY(pierce_blann); return z == z_eff_Pierce_Blann(p.Z, beta); }
bool anthony_landford(ARGS) { ONLY(anthony_landorf); return z == z_eff_Anthony_Landford(p.Z, beta, t.Z); }
bool hubert(ARGS) { ONLY(hubert); return z == z_eff_Hubert(p.Z, p.T, t.Z); }
bool winger(ARGS) { ONLY(winger); return z == z_eff_Winger(p.Z, beta, t.Z); }
bool schiwietz(ARGS) { ONLY(schiwietz); return z == z_eff_Schiwietz(p.Z, beta, t.Z); }
bool global(ARGS) { ONLY(global); return z == z_eff_global(p.Z, p.T, t.Z); }
bool atima14(ARGS) { ONLY(atima14); return z == z_eff_atima14(p.Z, p.T, t.Z); }
}
namespace spec_p13_formula {
static inline double blann_(double z, double b) { return z * (1 - std::exp(-0.95 * fine_structure_inverted * b / std::pow(z, 2.0 / 3.0))); }
bool pierce_blann(double z, double b) { return z_eff_Pierce_Blann(z, b) == blann_(z, b); }
bool anthony_landford(double z, double b, double t) {
    double B = 1.18 - t * (7.5e-03 - 4.53e-05 * t), A = 1.16 - t * (1.91e-03 - 1.26e-05 * t);
    return z_eff_Anthony_Landford(z, b, t) == z * (1 - A * std::exp(-fine_structure_inverted * B * b / std::pow(z, 2.0 / 3.0))); }
static inline double hubert_(double z, double e, double x1, double x2, double x3, double x4) { return z * (1 - x1 * std::exp(-x2 * std::pow(e, x3) * std::pow(z, -x4))); }
bool hubert(double z, double e, double t) {
    double h = z_eff_Hubert(z, e, t), l = std::log(t);
    if (e < 2.5) return h == 0;
    if (t == 4) return h == hubert_(z, e, 2.045 + 2.0 * std::exp(-0.04369 * z), 7.0, 0.2643, 0.4171);
    if (t == 6) return h == hubert_(z, e, 2.584 + 1.91 * std::exp(-0.03958 * z), 6.933, 0.2433, 0.3969);
    return h == hubert_(z, e, 1.164 + 0.2319 * std::exp(-0.004302 * t) + 1.658 * std::exp(-0.0517 * z), 8.144 + 0.09876 * l, 0.314 + 0.01072 * l, 0.5218 + 0.02521 * l); }
bool winger(double z, double b, double t) {
    double u = t == 1 ? 2.6 : t == 2 ? 2.8 : t, x = b / 0.012 / std::pow(z, 0.45), l = std::log(z), k = std::log(u);
    double a1 = -0.5491 * std::exp(0.7028 * l - 0.1089 * l * l + 0.001644 * l * l * l - 0.5155 * k + 0.05633 * k * k);
    double a2 = 0.005447 * std::exp(0.8795 * l - 1.091 * k), a3 = -0.0008261 * std::exp(2.848 * l - 0.2442 * l * l * l);
    return z_eff_Winger(z, b, t) == z * (1 - std::exp(-0.4662 + a1 * x + a2 * x * x + a3 * x * x * x - 0.00009293 * x * x * x * x)); }
bool schiwietz(double z, double b, double t) {
    double v = std::pow(z, -0.543) * b / bohr_velocity, c1 = 1 - 0.26 * std::exp(-t / 11) * std::exp(-(t - z) * (t - z) / 9), c2 = 1 + 0.03 * v * std::log(t);
    double x = c1 * std::pow(v / c2 / 1.54, 1 + 1.83 / z), x4 = x * x * x * x;
    return z_eff_Schiwietz(z, b, t) == z * (8.29 * x + x4) / (0.06 / x + 4 + 7.4 * x + x4); }
#ifndef GLOBAL
bool global_outside_its_region(double z, double e, double t) {
    if (e > 2000) return z_eff_global(z, e, t) == z;
    if (e < 30 || z < 29) return z_eff_global(z, e, t) == z_eff_Pierce_Blann(z, beta_from_T(e));
    return true; }
#endif
}
namespace spec_p13_bethe {
#define BARGS const Projectile &p, const Target &t, const Config &c0, double I
static inline double reference_(const Projectile &p, const Target &t, const Config &c, double I, bool barkas, bool lindhard, bool shell, bool high) {
    double g = gamma_from_T(p.T), b2 = 1 - 1 / (g * g), b = std::sqrt(b2), eta = b * g, z = z_effective(p, t, c);
    double ip = I > 0 ? I : ipot(t.Z);
    double L = std::log(2 * electron_mass * 1e6 * b2 / ip) + 2 * std::log(g) - b2;
    if (shell && eta >= 0.13) {
        double i2 = 1 / (eta * eta), i4 = i2 * i2, i6 = i4 * i2;
        L -= ((0.422377 * i2 + 0.0304043 * i4 - 0.00038106 * i6) * 1e-6 * ip * ip + (3.858019 * i2 - 0.1667989 * i4 + 0.00157955 * i6) * 1e-9 * ip * ip * ip) / t.Z;
    }
    if (barkas) L *= bethek_barkas(z, eta, t.Z);
    if (lindhard) L += precalculated_lindhard(p);
    L -= bethek_density_effect(b, t.Z) / 2;
    double s = dedx_constant * z * z * t.Z / (b2 * t.A) * L;
    if (high && p.T > 50000) s += pair_production(p, t) + bremsstrahlung(p, t);
    return s; }
#define COMBINATION(n) bool corrections_##n(BARGS) { if (!(p.T > 0)) return true; Config c = c0; c.corrections = n; \
    return bethek_dedx_e(p, t, c, I) == reference_(p, t, c, I, !(n & no_barkas), !(n & no_lindhard), !(n & no_shell_correction), !(n & no_highenergy)); }
COMBINATION(0) COMBINATION(1) COMBINATION(2) COMBINATION(3) COMBINATION(4) COMBINATION(5) COMBINATION(6) COMBINATION(7)
COMBINATION(8) COMBINATION(9) COMBINATION(10) COMBINATION(11) COMBINATION(12) COMBINATION(13) COMBINATION(14) COMBINATION(15)
}
namespace spec_p13_straggling {
static inline double reference_(const Projectile &p, const Target &t, const Config &c, double cor) {
    double g = gamma_from_T(p.T), z = z_effective(p, t, c);
    double v = domega2dx_constant * z * z * t.Z / t.A * (precalculated_lindhard_X(p) * g * g + cor);
    if (p.T < 30) return std::min(v, energy_straggling_firsov(p.Z, p.T, t.Z, t.A));
    return v; }
bool atima(ARGS) {
    Config c = c0; c.calculation = omega_types::atima;
    double b = beta_from_T(p.T), m = electron_mass * 1e6 * b * b;
    double k = 24.89 * std::pow(t.Z, 1.2324) / m * std::log(2 * m / (33.05 * std::pow(t.Z, 1.6364)));
    return dedx_variance(p, t, c) == reference_(p, t, c, k > 0 ? k : 0); }
bool bohr(ARGS) { Config c = c0; c.calculation = omega_types::bohr; return dedx_variance(p, t, c) == reference_(p, t, c, 0); }
bool firsov(double z1, double e, double z2, double m2) { double g = gamma_from_T(e);
    return energy_straggling_firsov(z1, e, z2, m2) == 4.8184e-3 * std::pow(z1 + z2, 8.0 / 3.0) / m2 * (1 - 1 / (g * g)) / (fine_structure * fine_structure); }
}
namespace spec_p13_low {
static inline double sum_(const Projectile &p, const Material &m, bool newer) {
    double s = 0; for (int i = 0; i < m.ncomponents(); i++) { Target t = m.get_element(i); s += m.weight_fraction(i) * srim_dedx_e(p.Z, t.Z, p.T, newer) / t.A; }
    return 100 * Avogadro * s; }
#define LARGS const Projectile &p, const Material &m, const Config &c0
bool srim_85_selected(LARGS) { Config c = c0; c.low_energy = srim_85; return sezi_dedx_e(p, m, c) == sum_(p, m, false); }
bool srim_95_selected(LARGS) { Config c = c0; c.low_energy = srim_95; return sezi_dedx_e(p, m, c) == sum_(p, m, true); }
}
namespace spec_p13_srim {
bool proton_95(int z, double e) { return srim_dedx_e(1, z, e, true) == p_se(z, e); }
bool proton_85(int z, double e) { return srim_dedx_e(1, z, e, false) == p_se85(z, e); }
bool helium(int z, double e) { return srim_dedx_e(2, z, e, true) * p_se85(z, e) == srim_dedx_e(2, z, e, false) * p_se(z, e); }
}
namespace spec_p13_scattering {
static inline double es2_(const Config &c) { return c.scattering == fermi_rossi || c.scattering == dhighland ? Es_squared : 198.81; }
bool differential(const Projectile &p, const Material &m, const Config &c) {
    if (c.scattering == gottschalk) return true;
    return da2dx(p, m, c) == c.scattering_factor * angular_scattering_power(p, m, es2_(c)); }
#define SARGS Projectile p, const Material &t, const Config &c0, int order
#define START double T = p.T; const Interpolator &rs = get_range_spline(_storage.Get(p, t, c)); \
    double depth = std::min(rs(T) / t.density(), t.thickness() / t.density()), X0 = radiation_length(t)
#define FR double q = p_from_T(e, p.A), b = q / ((e + atomic_mass_unit) * p.A), f = e <= 0 ? 0.0 : 1 / (q * b * q * b)
#define FERMI(name, option) bool name(SARGS) { Config c = c0; c.scattering = option; START; \
    auto f = [&](double x) { double e = energy_out(T, x * t.density(), rs); FR; return ipow(depth - x, order) * f; }; \
    return angular_variance(p, t, c, order) == integrator.integrate(f, 0, depth) * t.density() * p.Z * p.Z * es2_(c) / X0; }
FERMI(fermi_rossi_model, fermi_rossi)
FERMI(table_model, atima_scattering)
bool highland(SARGS) { Config c = c0; c.scattering = dhighland; START;
    auto f = [&](double x) { double e = energy_out(T, x * t.density(), rs), l = std::log(x * t.density() / X0); FR;
        return ipow(depth - x, order) * 0.97 * (1 + l / 20.7) * (1 + l / 22.7) * f; };
    return angular_variance(p, t, c, order) == integrator.integrate(f, 0, depth) * t.density() * p.Z * p.Z * Es_squared / X0; }
bool gottschalk_model(SARGS) { Config c = c0; c.scattering = gottschalk; START;
    double p1 = p_from_T(T, p.A), b1 = p1 / ((T + atomic_mass_unit) * p.A);
    auto f = [&](double x) { double e = energy_out(T, x * t.density(), rs); return ipow(depth - x, order) * angular_scattering_power_xs(p(e), t, p1, b1); };
    return angular_variance(p, t, c, order) == integrator.integrate(f, 0, depth) * t.density(); }
bool gottschalk_power(const Projectile &p, const Material &m, double p1, double b1, double es2) {
    double e = p.T; if (e <= 0) return angular_scattering_power_xs(p, m, p1, b1, es2) == 0;
    double q = p_from_T(e, p.A), b = q / ((e + atomic_mass_unit) * p.A), pv = q * b, r = pv / (p1 * b1);
    double l1 = std::log10(1 - r * r), l2 = std::log10(pv), f = 0.5244 + 0.1975 * l1 + 0.2320 * l2 - 0.0098 * l2 * l1;
    return angular_scattering_power_xs(p, m, p1, b1, es2) == f * es2 * p.Z * p.Z / (scattering_length(m) * pv * pv); }
}
