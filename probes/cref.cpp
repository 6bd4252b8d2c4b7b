// What each function of the C interface is meant to compute, in terms of the C++ interface.
#include "catima/catima.h"
#include "catima/reactions.h"
#include "catima/nucdata.h"
#include "catima/cwrapper.h"
namespace catlint_ref {
using namespace catima;
// a target is an element of the given mass, or the database material of that number; a density that is not given is
// the database density
static Material target(double ta, double tz, double thickness, double density) {
    Material m;
    if (tz > 200) m = get_material(tz); else m.add_element(ta, tz, 1.0);
    m.thickness(thickness);
    if (density > 0.0) m.density(density); else m.density(get_material(tz).density());
    return m;
}
static Config settings() {
    Config c = default_config;
    c.z_effective = catima_defaults.z_effective;
    c.scattering = atima_scattering;
    return c;
}
static Projectile ion(double a, int z, double T) { Projectile p(a, z); p.T = T; return p; }

Result catima_calculate(double pa, int pz, double T, double ta, double tz, double thickness, double density) {
    return calculate(ion(pa, pz, T), target(ta, tz, thickness, density), settings());
}
double catima_Eout(double pa, int pz, double T, double ta, double tz, double thickness, double density) {
    return energy_out(ion(pa, pz, T), target(ta, tz, thickness, density), settings());
}
double catima_range(double pa, int pz, double T, double ta, double tz) {
    return range(ion(pa, pz, T), target(ta, tz, 0, -1), settings());
}
double catima_range_straggling(double pa, int pz, double T, double ta, double tz) {
    return range_straggling(ion(pa, pz, T), T, target(ta, tz, 0, -1), settings());
}
double catima_angular_straggling_from_E(double pa, int pz, double Tin, double Tout, double ta, double tz) {
    return angular_straggling_from_E(ion(pa, pz, Tin), Tout, target(ta, tz, 0, -1), settings());
}
double catima_energy_straggling_from_E(double pa, int pz, double Tin, double Tout, double ta, double tz) {
    return energy_straggling_from_E(ion(pa, pz, Tin), Tin, Tout, target(ta, tz, 0, -1), settings());
}
double catima_nonreaction_rate(double pa, int pz, double T, double ta, double tz, double thickness) {
    Projectile p = ion(pa, pz, T);
    return nonreaction_rate(p, target(ta, tz, thickness, -1), settings());
}
double atomic_weight(int i) { return element_atomic_weight(i); }
}
