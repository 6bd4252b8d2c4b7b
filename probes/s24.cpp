// P24: the tables are running integrals over the energy grid
#include "catima/catima.h"
#include "catima/integrator.h"
#include <cmath>
using namespace catima;
namespace spec_p24 {
#define ARGS Projectile p, const Material &t, const Config &c
#define TABLE DataPoint d = calculate_DataPoint(p, t, c)
#define RATE(x) auto f = [&](double e) -> double { return x; }
#define STEPS(v, x) RATE(x); TABLE; if (d.v.size() != max_datapoints || d.v[0] != 0) return false; \
    double off = 0; for (int i = 1; i < max_datapoints; i++) off += std::fabs(d.v[i] - d.v[i - 1] - p.A * integrator.integrate(f, energy_table(i - 1), energy_table(i))); \
    return off == 0
bool range_table(ARGS) { STEPS(range, 1 / dedx(p(e), t, c)); }
bool range_straggling_table(ARGS) { STEPS(range_straggling, domega2dx(p(e), t, c) / (dedx(p(e), t, c) * dedx(p(e), t, c) * dedx(p(e), t, c))); }
bool angular_table(ARGS) { STEPS(angular_variance, da2dx(p(e), t, c) / dedx(p(e), t, c)); }
bool time_table(ARGS) {
    RATE(1 / (dedx(p(e), t, c) * beta_from_T(e)));
    const double u = 10 * p.A / (c_light * t.density());
    std::vector<double> v = calculate_tof(p, t, c);
    if (v.size() != max_datapoints || v[0] != u * integrator.integrate(f, Ezero, energy_table(0))) return false;
    double off = 0;
    for (int i = 1; i < max_datapoints; i++) off += std::fabs(v[i] - v[i - 1] - u * integrator.integrate(f, energy_table(i - 1), energy_table(i)));
    return off == 0; }
bool key(ARGS) { TABLE; return d.p.A == p.A && d.p.Z == p.Z && d.config.z_effective == c.z_effective && d.config.corrections == c.corrections && d.config.calculation == c.calculation && d.config.low_energy == c.low_energy && d.config.scattering == c.scattering && d.config.scattering_factor == c.scattering_factor && d.m.density() == t.density() && d.m.ncomponents() == t.ncomponents(); }
}
