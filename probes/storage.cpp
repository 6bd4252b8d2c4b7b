// Instantiates header-only members of the cache classes so that they appear in the analysed program.
#include "catima/storage.h"
namespace catlint_probe {
void reset(catima::Data &d) { d.Reset(); }
int index(catima::Data &d) { return d.get_index(); }
int count(catima::Data &d) { return d.GetN(); }
const catima::DataPoint &get(const catima::Projectile &p, const catima::Material &t, const catima::Config &c) { return catima::get_data(p, t, c); }
}
