// P26: kinematics and model functions are their published formulas
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/constants.h"
#include "catima/srim.h"
#include "catima/reactions.h"
#include "catima/data_atima.h"
#include <algorithm>
#include <cmath>
using namespace catima;
namespace spec_p26_kinematics {
static const double U_ = 931.4940954;
bool gamma(double e) { return gamma_from_T(e) == 1 + e / U_; }
bool beta(double e) { double g = 1 + e / U_; return beta_from_T(e) == std::sqrt(1 - 1 / (g * g)); }
bool momentum(double e, double a) { return p_from_T(e, a) == a * std::sqrt(e * e + 2 * U_ * e); }
bool power_of(double x, double y) { return power(x, y) == std::exp(y * std::log(x)); }
bool whole_power(double x) { return ipow(x, 0) == 1 && ipow(x, 1) == x && ipow(x, 2) == x * x && ipow(x, 3) == std::pow(x, 3); }
#ifndef NUREX
bool centre_of_mass(double e, double a, double b) { return Ecm_from_T(e, a, b) * (a + b) == e * a * b; }
#endif
}
namespace spec_p26_nuclear {
static inline double unit_(const Projectile &p, const Target &t) {
    return 32530.0 * t.A * p.T * p.A / (p.Z * t.Z * (p.A + t.A) * (std::pow(p.Z, 0.23) + std::pow(t.Z, 0.23))); }
bool reduced_energy(const Projectile &p, const Target &t) { return reduced_energy_loss_unit(p, t) == unit_(p, t); }
bool stopping(const Projectile &p, const Target &t) {
    double e = unit_(p, t), s = 0;
    if (e > 30) s = std::log(e) / (2 * e);
    else if (e > 0) s = std::log1p(1.1383 * e) / (2 * (e + 0.01321 * std::pow(e, 0.21226) + 0.19593 * std::pow(e, 0.5)));
    if (!(p.A > 0) || e != e) return true;
    return dedx_n(p, t) == s * 846.21 * p.Z * t.Z * p.A * Avogadro / ((p.A + t.A) * (std::pow(p.Z, 0.23) + std::pow(t.Z, 0.23)) * t.A); }
}
namespace spec_p26_corrections {
bool barkas(double z, double eta, double zt) {
    double v = eta / (fine_structure * std::sqrt(zt)), f = 0;
    if (v >= 4) f = 0.45 / std::sqrt(v);
    else if (v > 3) f = 0.26 - 0.03 * (v - 3);
    else if (v > 2) f = 0.30 - 0.04 * (v - 2);
    else if (v >= 1) f = 0.33 - 0.03 * (v - 1);
    return bethek_barkas(z, eta, zt) == 1 + 2 * z * f / (v * v * std::sqrt(zt)); }
bool pairs(const Projectile &p, const Target &t) {
    double g = gamma_from_T(p.T), d = 1 / std::sqrt(g), q = std::log(d * d), l = std::log(2 * g), z = 183 * power(t.Z, -1.0 / 3);
    double scr = 19.0 / 9 * std::log(z / (1 + 25.018803808 * z / g));
    double l1 = d * (4178 / (81 * PI * PI) - 21.0 / 27 - 248 * l / (27 * PI * PI) + (28 * l / 9 - 446.0 / 27) * q / (PI * PI) + 14 * q * q / (9 * PI * PI));
    double s = dedx_constant / 4 * fine_structure * fine_structure * p.Z * p.Z * t.Z * (t.Z + 1) * g * (scr + l1) / t.A;
    return pair_production(p, t) == (s < 0 ? 0 : s); }
bool radiation(const Projectile &p, const Target &t) {
    double g = gamma_from_T(p.T), R = 1.18 * (power(p.A, 1.0 / 3) + power(t.A, 1.0 / 3)), z2 = p.Z * p.Z;
    double L = std::log1p(0.2 * g * hbar * c_light / (atomic_mass_unit * R * p.A));
    return bremsstrahlung(p, t) == 4 * dedx_constant * fine_structure * electron_mass / atomic_mass_unit * g * z2 * z2 * t.Z * t.Z * L / (3 * PI * t.A * p.A); }
}
namespace spec_p26_density {
static inline bool of_(double beta, int z, int row) {
    namespace d = density_effect;
    double g = 1 / std::sqrt(1 - beta * beta), x = std::log(beta * g) / 2.3025851, r = 0;
    if (x < d::x0[row]) { if (d::del_0[row] > 0) r = d::del_0[row] * std::pow(10.0, 2 * (x - d::x0[row])); }
    else { r = 4.6052 * x - d::c[row]; if (x <= d::x1[row]) r += d::a[row] * std::pow(d::x1[row] - x, d::m[row]); }
    return x != x || bethek_density_effect(beta, z) == r; }
#define Z(n) bool element_##n(double b) { return of_(b, n, (n > 97 ? 97 : n) - 1); }
#define TEN(n) Z(n##0) Z(n##1) Z(n##2) Z(n##3) Z(n##4) Z(n##5) Z(n##6) Z(n##7) Z(n##8) Z(n##9)
Z(1) Z(2) Z(3) Z(4) Z(5) Z(6) Z(7) Z(8) Z(9) TEN(1) TEN(2) TEN(3) TEN(4) TEN(5) TEN(6) TEN(7) TEN(8) TEN(9) Z(110)
}
namespace spec_p26_lengths {
static inline double tsai_(int z, double m) {
    double a2 = fine_structure * fine_structure * z * z, k = std::pow(z, -1.0 / 3);
    return 716.405 * m / (z * (z * (std::log(184.15 * k) - a2 * (1.202 - 1.0369 * a2 + 1.008 * a2 * a2 / (1 + a2))) + std::log(1194 * k * k))); }
#define TABULATED(z, x) bool tabulated_radiation_##z(double m) { return radiation_length(z, m) == x; }
#define CALCULATED(z) bool radiation_##z(double m) { return radiation_length(z, m) == tsai_(z, m); }
TABULATED(1, 63.04) TABULATED(2, 94.32) TABULATED(3, 82.78) TABULATED(4, 65.19) CALCULATED(5) TABULATED(6, 42.7) TABULATED(7, 37.99) TABULATED(8, 34.24)
TABULATED(9, 32.93) TABULATED(10, 28.94) CALCULATED(11) CALCULATED(12) TABULATED(13, 24.01) TABULATED(14, 21.82) CALCULATED(15) CALCULATED(16)
TABULATED(17, 19.28) TABULATED(18, 19.55) CALCULATED(19) CALCULATED(20) CALCULATED(21) TABULATED(22, 16.16) CALCULATED(23) CALCULATED(24)
CALCULATED(25) TABULATED(26, 13.84) CALCULATED(27) CALCULATED(28) TABULATED(29, 12.86) CALCULATED(30) CALCULATED(31) TABULATED(32, 12.25)
CALCULATED(33) CALCULATED(34) CALCULATED(35) CALCULATED(36) CALCULATED(37) CALCULATED(38) CALCULATED(39) CALCULATED(40)
CALCULATED(41) CALCULATED(42) CALCULATED(43) CALCULATED(44) CALCULATED(45) CALCULATED(46) CALCULATED(47) CALCULATED(48)
CALCULATED(49) TABULATED(50, 8.82) CALCULATED(51) CALCULATED(52) CALCULATED(53) TABULATED(54, 8.48) CALCULATED(55) CALCULATED(56)
CALCULATED(57) CALCULATED(58) CALCULATED(59) CALCULATED(60) CALCULATED(61) CALCULATED(62) CALCULATED(63) CALCULATED(64)
CALCULATED(65) CALCULATED(66) CALCULATED(67) CALCULATED(68) CALCULATED(69) CALCULATED(70) CALCULATED(71) CALCULATED(72)
CALCULATED(73) TABULATED(74, 6.76) CALCULATED(75) CALCULATED(76) CALCULATED(77) TABULATED(78, 6.54) TABULATED(79, 6.46) CALCULATED(80)
CALCULATED(81) TABULATED(82, 6.37) CALCULATED(83) CALCULATED(84) CALCULATED(85) CALCULATED(86) CALCULATED(87) CALCULATED(88)
CALCULATED(89) CALCULATED(90) CALCULATED(91) TABULATED(92, 6.00) CALCULATED(93) CALCULATED(94) CALCULATED(95) CALCULATED(96)
CALCULATED(97) CALCULATED(98) CALCULATED(99) CALCULATED(100) CALCULATED(101) CALCULATED(102) CALCULATED(103) CALCULATED(104)
CALCULATED(105) CALCULATED(106) CALCULATED(107) CALCULATED(108) CALCULATED(109) CALCULATED(110)
bool scattering(const Material &m) {
    double s = 0;
    for (int i = 0; i < m.ncomponents(); i++) { Target t = m.get_element(i);
        s += m.weight_fraction(i) * 0.00034896 * t.Z * t.Z * (2 * std::log(33219 * std::pow(t.A * t.Z, -1.0 / 3)) - 1) / t.A; }
    return scattering_length(m) == 1 / s; }
bool power_of_element(const Projectile &p, const Target &t, double es2) {
    double s = angular_scattering_power(p, t, es2); if (p.T <= 0) return s == 0;
    double q = p_from_T(p.T, p.A), b = q / ((p.T + atomic_mass_unit) * p.A);
    return s == es2 * p.Z * p.Z / (radiation_length(t.Z, t.A) * q * b * q * b); }
bool power_of_material(const Projectile &p, const Material &m, double es2) {
    double s = angular_scattering_power(p, m, es2); if (p.T <= 0) return s == 0;
    double q = p_from_T(p.T, p.A), b = q / ((p.T + atomic_mass_unit) * p.A);
    return s == es2 * p.Z * p.Z / (radiation_length(m) * q * b * q * b); }
}
namespace spec_p26_low {
static inline double proton_(const double *k, int z, double energy) {
    double f = 1000 * energy, e = f <= 25 ? 25 : f;
    double low = k[0] * std::pow(e, k[1]) + k[2] * std::pow(e, k[3]), high = k[4] / std::pow(e, k[5]) * std::log(k[6] / e + k[7] * e);
    double s = low * high / (low + high);
    return f <= 25 ? s * std::pow(f / 25, z > 6 ? 0.45 : 0.25) : s; }
static inline int row_(int z) { return (z > 92 ? 92 : z) - 1; }
bool proton_95(int z, double e) { return p_se(z, e) == proton_(pse_95[row_(z)], z, e); }
bool proton_85(int z, double e) { return p_se85(z, e) == proton_(proton_stopping_coef[row_(z)], z, e); }
bool helium(int z, double energy) {
    double e = 1000 * energy <= 1 ? 1 : 1000 * energy, b = std::log(e);
    double a = 0.2865 + 0.1266 * b - 0.001429 * b * b + 0.02402 * b * b * b - 0.01135 * b * b * b * b + 0.001475 * b * b * b * b * b;
    double c = 7.6 - (b > 0 ? b : 0), d = 1 + (0.007 + 0.00005 * z) * std::exp(-c * c);
    return srim_dedx_e(2, z, energy, true) == 4 * p_se(z, energy) * (1 - std::exp(-(a < 30 ? a : 30))) * d * d; }
}
namespace spec_p26_heavy {
// Ziegler, Biersack, Littmark: charge fraction, screening length and effective charge of a heavy ion
static inline double stopping_(int zp, int zt, double energy, double vf, double screening, bool newer) {
    double e = 1000 * energy, z13 = std::pow(zp, 1.0 / 3), z23 = z13 * z13, v = std::sqrt(e / 25) / vf;
    double vr = v >= 1 ? v * vf * (1 + 0.2 / (v * v)) : 0.75 * vf * (1 + 2 * v * v / 3 - v * v * v * v / 15);
    double least = std::max(0.13, 1 / z23), y = std::max(std::max(0.13, vr / z23), 1 / z23);
    double a = -0.803 * std::pow(y, 0.3) + 1.3167 * std::pow(y, 0.6) + 0.38157 * y + 0.008983 * y * y;
    double q = std::min(1.0, std::max(0.0, 1 - std::exp(-std::min(a, 50.0))));
    double b = std::min(0.43, std::max(0.32, 0.12 + 0.025 * zp)) / z13, l0 = (0.8 - q * std::min(1.2, 0.6 + zp / 30.0)) / z13, l1;
    double q1 = std::max(0.0, 0.9 - 0.025 * zp), w = 0.025 * std::min(16.0, 1.0 * zp), q2 = std::max(0.0, 1 - w);
    if (q < 0.2) l1 = 0; else if (q < q1) l1 = b * (q - 0.2) / std::fabs(q1 - 0.2000001); else if (q < q2) l1 = b; else l1 = b * (1 - q) / w;
    double h = 4 * std::max(l1, l0 * screening) * vf / 1.919, c = 7.6 - std::max(0.0, std::log(e));
    double zeta = (q + (1 - q) * std::log1p(h * h) / (2 * vf * vf)) * (1 + (0.18 + 0.0015 * zt) * std::exp(-c * c) / (1.0 * zp * zp));
    double s = zeta * zp * zeta * zp;
    if (y <= least) {
        double vm = std::max(1.0, 0.13 * z23), u = 0.5 * (vm + std::sqrt(std::max(0.0, vm * vm - 0.8 * vf * vf))), low = 25 * u * u;
        double k = zt == 6 || ((zt == 14 || zt == 32) && zp <= 19) ? 0.35 : 0.5;
        return (newer ? p_se(zt, low / 1000) : p_se85(zt, low / 1000)) * s * std::pow(e / low, k); }
    return (newer ? p_se(zt, energy) : p_se85(zt, energy)) * s; }
#define PAIR(zp, zt) bool ion_##zp##_##zt(double e) { return srim_dedx_e(zp, zt, e, true) == stopping_(zp, zt, e, atima_vfermi[zt - 1], atima_lambda_screening[zp - 1], true); }
PAIR(3, 4) PAIR(6, 6) PAIR(18, 14) PAIR(19, 32) PAIR(20, 14) PAIR(36, 13) PAIR(54, 29) PAIR(82, 79) PAIR(92, 92)
bool ion_any_target(int z, double e) { return srim_dedx_e(6, z, e, true) == stopping_(6, z, e, atima_vfermi[(z > 92 ? 92 : z) - 1], atima_lambda_screening[5], true); }
bool ion_older(double e) { return srim_dedx_e(6, 13, e, false) == stopping_(6, 13, e, atima_vfermi[12], atima_lambda_screening[5], false); }
bool ion_beyond(double e) { return srim_dedx_e(95, 95, e, true) == stopping_(95, 95, e, atima_vfermi[91], atima_lambda_screening[91], true); }
}
#ifndef NUREX
namespace spec_p26_kox {
bool cross_section(int Ap, int Zp, double E, int At, int Zt) {
    double p = std::pow(Ap, 1.0 / 3), t = std::pow(At, 1.0 / 3), l = std::log10(E), c;
    if (l < 1.5) c = (2 - 10 / std::pow(1.5, 5)) * (l / 1.5) * (l / 1.5) * (l / 1.5); else c = 2 - 10 / (l * l * l * l * l);
    double B = 0.1 * hbar * c_light * fine_structure * Zp * Zt / (1.3 * (p + t));
    double R = 1.1 * (p + t + 1.85 * p * t / (p + t) - c) + 5.0 * (At - 2.0 * Zt) * Zp / (1.0 * Ap * At);
    return SigmaR_Kox(Ap, Zp, E, At, Zt) == 10 * PI * R * R * (1 - B * (1.0 * Ap + At) / (E * Ap * At)); }
}
#endif
