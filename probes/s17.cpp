// P17: quantities of a material are sums over its components
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/constants.h"
#include "catima/srim.h"
#include "catima/nucdata.h"
#include <cmath>
using namespace catima;
namespace spec_p17 {
#define EACH for (int i = 0; i < m.ncomponents(); i++)
#define COMPONENT Target t = m.get_element(i); double w = m.weight_fraction(i)
#define SUM(x) double s = 0; EACH { COMPONENT; s += w * (x); }
bool nuclear(const Projectile &p, const Material &m) { SUM(dedx_n(p, t)) return dedx_n(p, m) == s; }
bool electronic(const Projectile &p, const Material &m, const Config &c) { SUM(bethek_dedx_e(p, t, c, m.I())) return bethek_dedx_e(p, m, c) == s; }
bool low_energy(const Projectile &p, const Material &m, const Config &c) {
    SUM(srim_dedx_e(p.Z, t.Z, p.T, c.low_energy == low_energy_types::srim_95) / t.A)
    return sezi_dedx_e(p, m, c) == 100 * Avogadro * s; }
bool straggling(const Projectile &p, const Material &m, const Config &c) { SUM(dedx_variance(p, t, c)) return domega2dx(p, m, c) == s; }
bool radiation(const Material &m) { SUM(1 / radiation_length(t.Z, t.A)) return radiation_length(m) == 1 / s; }
bool scattering(const Material &m) { SUM(0.00034896 * t.Z * t.Z * (2 * std::log(33219 * std::pow(t.A * t.Z, -1.0 / 3.0)) - 1) / t.A) return scattering_length(m) == 1 / s; }
// the stopping power of a material is made of the sums above at the projectile's energy
bool total_low(const Projectile &p, const Material &m, const Config &c) { return p.T <= 0 || p.T > 10 || dedx(p, m, c) == dedx_n(p, m) + sezi_dedx_e(p, m, c); }
bool total_high(const Projectile &p, const Material &m, const Config &c) { return p.T < 30 || dedx(p, m, c) == dedx_n(p, m) + bethek_dedx_e(p, m, c); }
bool total_between(const Projectile &p, const Material &m, const Config &c) {
    if (p.T <= 10 || p.T >= 30) return true;
    double lo = sezi_dedx_e(p, m, c), hi = bethek_dedx_e(p, m, c), f = (dedx(p, m, c) - dedx_n(p, m) - lo);
    return f * 20 == (p.T - 10) * (hi - lo); }
bool angular(const Projectile &p, const Material &m, double es2) {
    if (p.T <= 0) return angular_scattering_power(p, m, es2) == 0;
    double q = p_from_T(p.T, p.A), b = q / ((p.T + atomic_mass_unit) * p.A);
    return angular_scattering_power(p, m, es2) * radiation_length(m) * (q * b) * (q * b) == es2 * p.Z * p.Z; }
bool angular_element(const Projectile &p, const Target &t, double es2) {
    if (p.T <= 0) return angular_scattering_power(p, t, es2) == 0;
    double q = p_from_T(p.T, p.A), b = q / ((p.T + atomic_mass_unit) * p.A);
    return angular_scattering_power(p, t, es2) * radiation_length(t.Z, t.A) * (q * b) * (q * b) == es2 * p.Z * p.Z; }
}
namespace spec_p17_parts {
#define VALID if (i < 0 || i >= m.ncomponents()) return true; Target t = m.get_element(i)
bool weight_of_amount(const Material &m, int i) { VALID; return t.stn < 1 || m.weight_fraction(i) == t.stn * t.A / m.M(); }
bool weight_of_fraction(const Material &m, int i) { VALID; return t.stn >= 1 || m.weight_fraction(i) == t.stn; }
bool molar_of_amount(const Material &m, int i) { VALID; return t.stn < 1 || m.molar_fraction(i) == t.stn; }
bool molar_of_fraction(const Material &m, int i) { VALID; return t.stn >= 1 || m.molar_fraction(i) == t.stn * m.M() / t.A; }
bool molecules(const Material &m) { return m.number_density() == Avogadro * m.density() / m.M() && m.number_density_cm2() == Avogadro * m.thickness() / m.M(); }
bool atoms(const Material &m, int i) { VALID; return m.number_density(i) == m.number_density() * m.molar_fraction(i); }
bool atoms_cm2(const Material &m, int i) { VALID; return m.number_density_cm2(i) == m.number_density_cm2() * m.molar_fraction(i); }
bool no_such_component(const Material &m, int i) { return i < m.ncomponents() || (m.number_density(i) == 0 && m.number_density_cm2(i) == 0); }
static inline double mass_(double a, int z) { return a > 0 ? a : element_atomic_weight(z); }
bool added_count(Material &m, double a, int z, double n) { int k = m.ncomponents(); m.add_element(a, z, n); return m.ncomponents() == k + 1; }
bool added_mass(Material &m, double a, int z, double n) { double k = m.M(); m.add_element(a, z, n); return m.M() == k + n * mass_(a, z); }
bool added_element(Material &m, double a, int z, double n) { int k = m.ncomponents(); m.add_element(a, z, n); Target t = m.get_element(k); return t.A == mass_(a, z) && t.Z == z && t.stn == n; }
bool added_keeps(Material &m, double a, int z, double n, int i) { VALID; m.add_element(a, z, n); Target u = m.get_element(i); return t.A == u.A && t.Z == u.Z && t.stn == u.stn; }
bool element(double a, int z, double rho, double th, double ip) {
    Material m(a, z, rho, th, ip); Target t = m.get_element(0);
    return m.ncomponents() == 1 && t.A == mass_(a, z) && t.Z == z && t.stn == 1 && m.M() == mass_(a, z) && m.density() == rho && m.thickness() == th && m.I() == ip; }
bool listed(double a1, double z1, double n1, double a2, double z2, double n2, double rho, double ip, double mass) {
    Material m({{a1, z1, n1}, {a2, z2, n2}}, rho, ip, mass); Target t = m.get_element(0), u = m.get_element(1);
    return m.ncomponents() == 2 && t.A == mass_(a1, (int)z1) && t.Z == (int)z1 && t.stn == n1 && u.A == mass_(a2, (int)z2) && u.Z == (int)z2 && u.stn == n2 && m.density() == rho && m.I() == ip; }
bool listed_given_mass(double a1, double z1, double n1, double a2, double z2, double n2, double mass) {
    Material m({{a1, z1, n1}, {a2, z2, n2}}, 1.0, 0.0, mass); return mass == 0 || m.M() == mass; }
bool listed_amounts(double a1, double z1, double n1, double a2, double z2, double n2) {
    Material m({{a1, z1, n1}, {a2, z2, n2}}); return (n1 < 1 && n2 < 1) || m.M() == n1 * mass_(a1, (int)z1) + n2 * mass_(a2, (int)z2); }
bool listed_fractions(double a1, double z1, double n1, double a2, double z2, double n2) {
    Material m({{a1, z1, n1}, {a2, z2, n2}}); return n1 >= 1 || n2 >= 1 || m.M() == 1 / (n1 / mass_(a1, (int)z1) + n2 / mass_(a2, (int)z2)); }
bool mass_of_fractions(Material &m) { double s = 0, old = m.M(); EACH { Target t = m.get_element(i); s += t.stn / t.A; } m.calculate(); return m.M() == old || m.M() == 1 / s; }
}
