// P22: conversions the rule must find (and leave alone) on every run
#include "catima/structures.h"
#include "catima/nucdata.h"
#include <cmath>
namespace spec_p22 {
using namespace catima;
double bad_mass(const Projectile &p) { int a = p.A; return 2.5 * a; }
static double helper_(double m) { return 1.5 * (int)m; }
double bad_through_parameter(const Target &t) { return helper_(t.A); }
float bad_float(const Projectile &p) { return p.T; }
double bad_rounded(const Projectile &p) { return std::floor(p.T) * 2; }
double bad_weight(int z) { return (int)element_atomic_weight(z) * 0.5; }
Projectile bad_integer_mass(int a, int z) { Projectile p; p.A = a; p.Z = z; return p; }
void bad_stored(Projectile &p, double t) { p.T = (long)t; }
double good_charge(const Projectile &p) { int z = p.Z; return 2.5 * z; }
static double twice_(double z) { return 2.0 * (int)z; }
double good_through_parameter(const Projectile &p) { return twice_(p.Z); }
long good_nuclide(const Projectile &p) { return std::lround(p.A); }
void good_element(Target &t, double z) { t.Z = z; }
}
