// P16: totals of a stack of layers
#include "catima/catima.h"
#include <cmath>
using namespace catima;
namespace spec_p16 {
#define ARGS const Projectile &p, const Phasespace &ps, const Layers &l, const Config &c
#define R MultiResult r = calculate(p, ps, l, c)
#define EACH for (const Material &m : l.get_materials())
#define LAYER Result x = calculate(p, m, e, c); e = x.Eout
#define START double e = p.T
bool entry_energy(ARGS) { R; return r.total_result.Ein == p.T; }
bool exit_energy(ARGS) { R; START; EACH { LAYER; } return r.total_result.Eout == e; }
bool energy_loss(ARGS) { R; START; double s = 0; EACH { LAYER; s += x.Eloss; } return r.total_result.Eloss == s; }
bool flight_time(ARGS) { R; START; double s = 0; EACH { LAYER; s += x.tof; } return r.total_result.tof == s; }
bool energy_variance(ARGS) { R; START; double s = 0; EACH { LAYER; s += x.sigma_E * x.sigma_E; }
    return e > Ezero ? r.total_result.sigma_E == std::sqrt(s) : r.total_result.sigma_E == 0; }
bool angular_variance(ARGS) { R; START; double s = ps.sigma_a * ps.sigma_a; EACH { LAYER; s += x.sigma_a * x.sigma_a; }
    return e > Ezero ? r.total_result.sigma_a == std::sqrt(s) : r.total_result.sigma_a == 0; }
// drift through the layer with the angular spread and covariance before it, plus the layer's own scattering
bool covariance(ARGS) { R; START; double a2 = ps.sigma_a * ps.sigma_a, cov = ps.cov_x;
    EACH { LAYER; double L = m.thickness() / m.density(); cov += L * a2 + x.cov; a2 += x.sigma_a * x.sigma_a; }
    return r.total_result.cov == cov; }
bool position_variance(ARGS) { R; START; double a2 = ps.sigma_a * ps.sigma_a, cov = ps.cov_x, x2 = ps.sigma_x * ps.sigma_x;
    EACH { LAYER; double L = m.thickness() / m.density(); x2 += 2 * L * cov + L * L * a2 + x.sigma_x * x.sigma_x; cov += L * a2 + x.cov; a2 += x.sigma_a * x.sigma_a; }
    return r.total_result.sigma_x == std::sqrt(std::fabs(x2)); }
#ifdef REACTIONS
bool survival(ARGS) { R; START; double s = 1; EACH { LAYER; s = x.sp >= 0 ? s * x.sp : -1; } return r.total_result.sp == s; }
#endif
bool one_result_per_layer(ARGS) { R; return r.results.size() == l.get_materials().size(); }
static inline Result nth_(const Projectile &p, const Layers &l, const Config &c, long n) {
    START; for (long i = 0; i < n; i++) { const Material &m = l.get_materials()[i]; LAYER; }
    return calculate(p, l.get_materials()[n], e, c); }
#define NTH if (n < 0 || n >= (long)l.get_materials().size()) return true; R; const Result x = nth_(p, l, c, n)
bool layer_energies(ARGS, long n) { NTH; return r.results[n].Ein == x.Ein && r.results[n].Eout == x.Eout && r.results[n].Eloss == x.Eloss; }
bool layer_range(ARGS, long n) { NTH; return r.results[n].range == x.range && r.results[n].dEdxi == x.dEdxi && r.results[n].dEdxo == x.dEdxo; }
bool layer_straggling(ARGS, long n) { NTH; return r.results[n].sigma_E == x.sigma_E && r.results[n].sigma_a == x.sigma_a && r.results[n].sigma_r == x.sigma_r; }
bool layer_position(ARGS, long n) { NTH; return r.results[n].sigma_x == x.sigma_x && r.results[n].cov == x.cov && r.results[n].tof == x.tof; }
#ifdef REACTIONS
bool layer_survival(ARGS, long n) { NTH; return r.results[n].sp == x.sp; }
#endif
}
namespace spec_p16_stack {
static inline bool same_(const Material &a, const Material &b) {
    return a.density() == b.density() && a.thickness() == b.thickness() && a.M() == b.M() && a.I() == b.I() && a.ncomponents() == b.ncomponents(); }
bool add_material_count(const Layers &l, const Material &m) { Layers r = l + m; return r.num() == l.num() + 1; }
bool add_material_keeps(Layers &l, const Material &m, int n) { if (n < 0 || n >= l.num()) return true; Layers r = l + m; return same_(r[n], l[n]); }
bool add_material_last(const Layers &l, const Material &m) { Layers r = l + m; return same_(r[l.num()], m); }
bool add_layers_count(const Layers &a, const Layers &b) { Layers r = a + b; return r.num() == a.num() + b.num(); }
bool add_layers_first(Layers &a, const Layers &b, int n) { if (n < 0 || n >= a.num()) return true; Layers r = a + b; return same_(r[n], a[n]); }
bool add_layers_second(const Layers &a, Layers &b, int n) { if (n < 0 || n >= b.num()) return true; Layers r = a + b; return same_(r[a.num() + n], b[n]); }
bool append_layers_count(const Layers &a, const Layers &b) { Layers r; r.add(a); r.add(b); return r.num() == a.num() + b.num(); }
bool append_layers_second(const Layers &a, Layers &b, int n) { if (n < 0 || n >= b.num()) return true; Layers r; r.add(a); r.add(b); return same_(r[a.num() + n], b[n]); }
bool append_material(const Material &a, const Material &b) { Layers r; r.add(a); r.add(b); return r.num() == 2 && same_(r[0], a) && same_(r[1], b); }
bool append_itself_count(const Layers &a) { Layers r; r.add(a); r.add(r); return r.num() == a.num() + a.num(); }
bool append_itself_first(Layers &a, int n) { if (n < 0 || n >= a.num()) return true; Layers r; r.add(a); r.add(r); return same_(r[n], a[n]); }
bool append_itself_second(Layers &a, int n) { if (n < 0 || n >= a.num()) return true; Layers r; r.add(a); r.add(r); return same_(r[a.num() + n], a[n]); }
bool total_thickness(const Layers &l) { double s = 0; for (const Material &m : l.get_materials()) s += m.thickness(); return l.thickness() == s; }
bool total_length(const Layers &l) { double s = 0; for (const Material &m : l.get_materials()) s += m.thickness() / m.density(); return l.thickness_cm() == s; }
}
