// P15: statements about the result of one layer
#include "catima/catima.h"
#include "catima/reactions.h"
#include <cmath>
using namespace catima;
namespace spec_p15 {
#define ARGS Projectile p, const Material &t, const Config &c
#define R Result r = calculate(p, t, c)
#define SPL const Interpolator &rs = get_range_spline(_storage.Get(p, t, c))
static inline bool stopped_(const Result &r) { return r.Eout < Ezero; }

bool energy_loss(ARGS) { R; return r.Eloss == p.A * (r.Ein - r.Eout); }
bool entry_energy(ARGS) { if (!(p.T >= Ezero)) return true; R; return r.Ein == p.T; }
bool exit_energy(ARGS) { if (!(p.T >= Ezero) || t.thickness() == 0) return true; R; SPL; return r.Eout == energy_out(p.T, t.thickness(), rs); }
bool entry_stopping_power(ARGS) { if (!(p.T >= Ezero)) return true; R; SPL; return r.dEdxi == p.A / rs.derivative(r.Ein); }
bool exit_stopping_power(ARGS) { if (!(p.T >= Ezero)) return true; R; SPL; if (stopped_(r)) return true; return r.dEdxo == p.A / rs.derivative(r.Eout); }
bool range_is_tabulated(ARGS) { if (!(p.T >= Ezero)) return true; R; SPL; return r.range == rs(p.T); }
bool range_straggling_is_tabulated(ARGS) { if (!(p.T >= Ezero)) return true; R;
    return r.sigma_r == std::sqrt(get_range_straggling_spline(_storage.Get(p, t, c))(p.T)); }
bool stopped_stopping_power(ARGS) { if (!(p.T >= Ezero)) return true; R; return !stopped_(r) || r.dEdxo == 0; }
bool stopped_energy_straggling(ARGS) { if (!(p.T >= Ezero)) return true; R; return !stopped_(r) || r.sigma_E == 0; }
bool stopped_angular_straggling(ARGS) { if (!(p.T >= Ezero)) return true; R; return !stopped_(r) || r.sigma_a == 0; }
bool stopped_flight_time(ARGS) { if (!(p.T >= Ezero)) return true; R; return !stopped_(r) || r.tof == 0; }
bool nothing_below_cutoff(ARGS) { if (!(p.T < Ezero - 1e-6)) return true; R; return r.Eloss == 0 && r.Eout == 0 && r.tof == 0 && r.sigma_E == 0 && r.sigma_a == 0; }
#define THIN if (!(p.T >= Ezero) || t.thickness() != 0) return true; R
bool empty_layer_energy(ARGS) { THIN; return r.Eout == r.Ein && r.Eloss == 0; }
bool empty_layer_stopping_power(ARGS) { THIN; return r.dEdxo == r.dEdxi; }
bool empty_layer_straggling(ARGS) { THIN; return r.sigma_E == 0 && r.sigma_a == 0 && r.sigma_x == 0 && r.cov == 0; }
bool empty_layer_time(ARGS) { THIN; return r.tof == 0; }
#ifdef REACTIONS
bool empty_layer_survival(ARGS) { THIN; return r.sp == 1; }
bool survival(ARGS) { if (!(p.T >= Ezero) || t.thickness() == 0) return true; R; return r.sp == nonreaction_rate(p, t, c); }
#endif
// stragglings come from the tabulated variances between entry and exit energy; a thin layer uses their mean slope
static double between(const Interpolator &v, double T, double E) {
#ifdef THIN_TARGET_APPROXIMATION
    if (thin_target_limit * T < E) return 0.5 * (v.derivative(T) + v.derivative(E)) * (T - E);
#endif
    return v(T) - v(E);
}
#define THICK if (!(p.T >= Ezero) || t.thickness() == 0) return true; R; if (stopped_(r)) return true
bool energy_straggling(ARGS) { THICK; SPL; return r.sigma_E == p.A / rs.derivative(r.Eout)
    * std::sqrt(between(get_range_straggling_spline(_storage.Get(p, t, c)), p.T, r.Eout)) / p.A; }
bool tabulated_angular_straggling(ARGS) { if (c.scattering != atima_scattering) return true; THICK;
    return r.sigma_a == std::sqrt(between(get_angular_variance_spline(_storage.Get(p, t, c)), p.T, r.Eout)); }
bool computed_angular_straggling(ARGS) { if (c.scattering == atima_scattering) return true; THICK; if (!(r.range > t.thickness())) return true; return r.sigma_a == angular_straggling(p, t, c); }
bool position_straggling(ARGS) { if (!(p.T >= Ezero) || t.thickness() == 0) return true; R; return r.sigma_x == std::sqrt(angular_variance(p, t, c, 2)); }
bool position_angle_covariance(ARGS) { if (!(p.T >= Ezero) || t.thickness() == 0) return true; R; return r.cov == angular_variance(p, t, c, 1); }
bool flight_time(ARGS) { THICK; return r.tof == calculate_tof_from_E(p, r.Eout, t, c); }
}
extern const double catlint_ezero, catlint_eps;
const double catlint_ezero = catima::Ezero, catlint_eps = catima::Eout_th_epsilon;
