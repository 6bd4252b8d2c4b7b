// Instantiates the inline functions of the public headers so that they appear in the analysed program.
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/storage.h"
#include "catima/reactions.h"
#include "catima/structures.h"
#include "catima/nucdata.h"
#include "catima/material_database.h"
namespace catlint_probe {
using namespace catima;
Result calc_T(Projectile p, const Material &t, double T, const Config &c) { return calculate(p, t, T, c); }
MultiResult calc_layers(const Projectile &p, const Layers &l, const Config &c) { return calculate(p, l, c); }
MultiResult calc_layers_T(Projectile p, double T, const Layers &l, const Config &c) { return calculate(p, T, l, c); }
const DataPoint &data(const Projectile &p, const Material &t, const Config &c) { return get_data(p, t, c); }
void tof(double &out, Projectile p, double e, const Material &t, const Config &c) { out = calculate_tof_from_E(p, e, t, c); }
}
