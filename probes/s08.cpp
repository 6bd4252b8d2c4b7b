// P08: the material database as seen by a client
#include "catima/catima.h"
#include "catima/material_database.h"
#include "catima/convert.h"
using namespace catima;
namespace spec_p08 {
bool found_again(const Material &m) { return mocadi_material_match(m, m); }
int exported_(const Material &m) { return materialdb_id(m); }
bool same_(const Material &a, const Material &b) { return mocadi_material_match(a, b); }
}
