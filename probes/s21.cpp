// P21: the forms of a function agree
#include "catima/catima.h"
#include "catima/reactions.h"
#include <cmath>
#include <vector>
using namespace catima;
#define ARGS const Projectile &p, const Material &t, const Config &c
static inline Projectile at_(Projectile p, double T) { p.T = T; return p; }
namespace spec_p21_list {
typedef std::vector<double> V;
bool energy_out_length(const Projectile &p, const V &T, const Material &t, const Config &c) {
    V r = energy_out(p, T, t, c); return r.size() == T.size(); }
bool energy_out_elements(const Projectile &p, const V &T, const Material &t, const Config &c, long i) {
    if (i < 0 || i >= (long)T.size()) return true; double e = T[i]; if (!(e >= Ezero)) return true;
    V r = energy_out(p, T, t, c); return r[i] == energy_out(at_(p, e), t, c); }
bool dedx_from_range_length(const Projectile &p, const V &T, const Material &t, const Config &c) {
    V r = dedx_from_range(p, T, t, c); return r.size() == T.size(); }
bool dedx_from_range_elements(const Projectile &p, const V &T, const Material &t, const Config &c, long i) {
    if (i < 0 || i >= (long)T.size()) return true; double e = T[i]; if (!(e >= Ezero)) return true;
    V r = dedx_from_range(p, T, t, c); return r[i] == dedx_from_range(at_(p, e), t, c); }
}
namespace spec_p21_root {
bool range_straggling_is_root(ARGS, double T) { return range_straggling(p, T, t, c) == std::sqrt(range_variance(p, T, t, c)); }
bool angular_straggling_is_root(ARGS) { return angular_straggling(p, t, c) == std::sqrt(angular_variance(p, t, c, 0)); }
bool dedx_from_range_is_slope(ARGS) { const Interpolator &s = get_range_spline(_storage.Get(p, t, c)); return dedx_from_range(p, t, c) == p.A / s.derivative(p.T); }
bool range_is_table(ARGS) { const Interpolator &s = get_range_spline(_storage.Get(p, t, c)); return range(p, t, c) == s(p.T); }
bool range_variance_is_table(ARGS, double T) { const Interpolator &s = get_range_straggling_spline(_storage.Get(p, t, c)); return range_variance(p, T, t, c) == s(T); }
bool domega2de_is_slope(ARGS, double T) { const Interpolator &s = get_range_straggling_spline(_storage.Get(p, t, c)); return domega2de(p, T, t, c) == s.derivative(T); }
bool da2de_is_slope(ARGS, double T) { const Interpolator &s = get_angular_variance_spline(_storage.Get(p, t, c)); return da2de(p, T, t, c) == s.derivative(T); }
bool energy_out_is_search(ARGS) { const Interpolator &s = get_range_spline(_storage.Get(p, t, c)); return energy_out(p, t, c) == energy_out(p.T, t.thickness(), s); }
bool energy_straggling(ARGS, double T, double To) { const Interpolator &s = get_range_straggling_spline(_storage.Get(p, t, c));
    return energy_straggling_from_E(p, T, To, t, c) == dedx_from_range(at_(p, To), t, c) * std::sqrt(s(T) - s(To)) / p.A; }
bool angular_straggling_layer(ARGS, double To) { Material m = t; const Interpolator &s = get_range_spline(_storage.Get(p, t, c));
    m.thickness(s(p.T) - s(To)); return angular_straggling_from_E(p, To, t, c) == angular_straggling(p, m, c); }
bool get_data_is_cache(ARGS) { return &get_data(p, t, c) == &_storage.Get(p, t, c); }
bool reaction_is_complement(double s, double t) { return reaction_rate(s, t) == 1.0 - nonreaction_rate(s, t); }
}
namespace spec_p21_short {
#define SAME(f) return f(p, t) == f(p, t, default_config)
bool dedx_default(ARGS) { SAME(dedx); }
bool domega2dx_default(ARGS) { SAME(domega2dx); }
bool da2dx_default(ARGS) { SAME(da2dx); }
bool range_default(ARGS) { SAME(range); }
bool dedx_from_range_default(ARGS) { SAME(dedx_from_range); }
bool range_straggling_default(ARGS, double T) { return range_straggling(p, T, t) == range_straggling(p, T, t, default_config); }
bool range_variance_default(ARGS, double T) { return range_variance(p, T, t) == range_variance(p, T, t, default_config); }
bool domega2de_default(ARGS, double T) { return domega2de(p, T, t) == domega2de(p, T, t, default_config); }
bool da2de_default(ARGS, double T) { return da2de(p, T, t) == da2de(p, T, t, default_config); }
bool angular_straggling_default(ARGS) { SAME(angular_straggling); }
bool angular_variance_default(ARGS) { return angular_variance(p, t) == angular_variance(p, t, default_config, 0) && angular_variance(p, t, c) == angular_variance(p, t, c, 0); }
bool angular_straggling_from_E_default(ARGS, double T) { return angular_straggling_from_E(p, T, t) == angular_straggling_from_E(p, T, t, default_config); }
bool energy_straggling_from_E_default(ARGS, double T, double E) { return energy_straggling_from_E(p, T, E, t) == energy_straggling_from_E(p, T, E, t, default_config); }
bool energy_out_default(ARGS) { SAME(energy_out); }
bool tof_default(ARGS, double E) { return calculate_tof_from_E(p, E, t) == calculate_tof_from_E(p, E, t, default_config); }
static inline bool same_(const Result &a, const Result &b) {
    return a.Ein == b.Ein && a.Eout == b.Eout && a.Eloss == b.Eloss && a.range == b.range && a.dEdxi == b.dEdxi && a.dEdxo == b.dEdxo
        && a.sigma_E == b.sigma_E && a.sigma_a == b.sigma_a && a.sigma_r == b.sigma_r && a.sigma_x == b.sigma_x && a.cov == b.cov && a.tof == b.tof
#ifdef REACTIONS
        && a.sp == b.sp
#endif
        ;
}
bool calculate_default(ARGS) { return same_(calculate(p, t), calculate(p, t, default_config)); }
bool calculate_at_energy(ARGS, double T) { return same_(calculate(p, t, T, c), calculate(at_(p, T), t, c)); }
bool calculate_numbers(double pa, int pz, double T, double ta, double tz, double thickness, double density) {
    Material m; m.add_element(ta, tz, 1.0); m.density(density); m.thickness(thickness);
    return same_(calculate(pa, pz, T, ta, tz, thickness, density), calculate(at_(Projectile(pa, pz), T), m, default_config)); }
#define LARGS const Projectile &p, const Layers &l, const Config &c
bool layers_no_phasespace(LARGS) { Phasespace ps; ps.sigma_x = 0; ps.sigma_a = 0; ps.cov_x = 0;
    MultiResult a = calculate(p, l, c), b = calculate(p, ps, l, c);
    return same_(a.total_result, b.total_result) && a.results.data() == b.results.data() && a.results.size() == b.results.size(); }
bool layers_at_energy(LARGS, double T) { MultiResult a = calculate(p, T, l, c), b = calculate(at_(p, T), l, c);
    return same_(a.total_result, b.total_result) && a.results.data() == b.results.data() && a.results.size() == b.results.size(); }
bool projectile_charge(double a, double z) { Projectile p(a, z); return p.A == a && p.Z == z && p.Q == z && p.T == 0; }
bool projectile_full(double a, double z, double q, double T) { Projectile p(a, z, q, T); return p.A == a && p.Z == z && (q == 0 || p.Q == q) && p.T == T; }
bool projectile_energy(Projectile p, double T) { double a = p.A, z = p.Z, q = p.Q; Projectile r = p(T); return r.T == T && r.A == a && r.Z == z && r.Q == q; }
bool material_length(const Material &t, double l) { Material m = t; m.thickness_cm(l); return m.thickness() == l * t.density() && m.density() == t.density(); }
bool material_length_back(const Material &t) { return t.thickness_cm() == t.thickness() / t.density(); }
bool material_single(double a, int z, double rho, double th, double ip) { Material m(a, z, rho, th, ip); Material n; n.add_element(a, z, 1.0);
    return m.density() == rho && m.thickness() == th && m.I() == ip && m.M() == n.M() && m.ncomponents() == n.ncomponents(); }
}
