// P10: lookup of the precalculated corrections, and the program that generates them
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/constants.h"
#include "catima/nucdata.h"
#include "catima/generated_LS_coeff.h"
#include <cmath>
#define main generate_
#define ls_energy_table generator_energy_
#include "catima/../../utils/generator.cpp"
#undef ls_energy_table
#undef main
namespace spec_p10_lookup {
using namespace catima;
namespace ls = catima::ls_coefficients;
static inline int row_(const Projectile &p) { int z = (int)p.Z, n = sizeof(ls::ls_coefficients_a) / sizeof(ls::ls_coefficients_a[0]); return z > n ? n : z < 1 ? 1 : z; }
static inline double interpolate_(double T, const double *y) {
    const auto &g = ls::ls_energy_table;
    int i = g.index(T), n = g.size();
    if (i >= n - 1) return y[n - 1];
    double h = g.values[i + 1] - g.values[i];
    return y[i] + (y[i + 1] - y[i]) * (T - g.values[i]) / h; }
static inline double between_(const Projectile &p, double a, double b) { double w = element_atomic_weight(row_(p)); return a + (b - a) * ((p.A - w) / w) / ls::a_rel_increase; }
#define LAST ls::ls_energy_table.values[LS_NUM_ENERGY_POINTS - 1]
#define FIRST ls::ls_energy_table.values[0]
// the energies grow along the grid, and the position found for an energy lies on it
#define GRID if (!(FIRST < LAST)) return true
#define INSIDE if (!(p.T >= FIRST && p.T <= LAST)) return true; int i = ls::ls_energy_table.index(p.T); \
    if (i < LS_NUM_ENERGY_POINTS - 1 && ls::ls_energy_table.values[i + 1] == ls::ls_energy_table.values[i]) return true
#define LOOKUP(T, table) between_(p, interpolate_(T, ls::table##_a[row_(p) - 1]), interpolate_(T, ls::table##_ahi[row_(p) - 1]))
bool inside(const Projectile &p) { GRID; INSIDE; return precalculated_lindhard(p) == LOOKUP(p.T, ls_coefficients); }
bool inside_straggling(const Projectile &p) { GRID; INSIDE; return precalculated_lindhard_X(p) == LOOKUP(p.T, ls_X_coefficients); }
bool beyond(const Projectile &p) { GRID; if (!(p.T > LAST) || p.T < FIRST) return true; Projectile q = p; q.T = LAST; return precalculated_lindhard(p) == precalculated_lindhard(q); }
bool beyond_straggling(const Projectile &p) { GRID; if (!(p.T > LAST) || p.T < FIRST) return true; Projectile q = p; q.T = LAST; return precalculated_lindhard_X(p) == precalculated_lindhard_X(q); }
bool below(const Projectile &p) { GRID; if (!(p.T < FIRST) || p.T > LAST) return true; Projectile q = p; q.T = FIRST; return precalculated_lindhard(p) == precalculated_lindhard(q); }
bool below_straggling(const Projectile &p) { GRID; if (!(p.T < FIRST) || p.T > LAST) return true; return precalculated_lindhard_X(p) == 1; }
}
namespace spec_p10_parts {
double generator_energy_at_(int i) { return ::generator_energy_(i); }
int generated_() { return ATOMIC_WEIGHT_MAXZ - 2; }
int points_() { return catima::ls_coefficients::ls_energy_table.size(); }
double increase_() { return catima::ls_coefficients::a_rel_increase; }
int rows_() { return sizeof(catima::ls_coefficients::ls_coefficients_a) / sizeof(catima::ls_coefficients::ls_coefficients_a[0]); }
int rows_ahi_() { return sizeof(catima::ls_coefficients::ls_coefficients_ahi) / sizeof(catima::ls_coefficients::ls_coefficients_ahi[0]); }
int rows_x_() { return sizeof(catima::ls_coefficients::ls_X_coefficients_a) / sizeof(catima::ls_coefficients::ls_X_coefficients_a[0]); }
int rows_x_ahi_() { return sizeof(catima::ls_coefficients::ls_X_coefficients_ahi) / sizeof(catima::ls_coefficients::ls_X_coefficients_ahi[0]); }
int columns_() { return sizeof(catima::ls_coefficients::ls_coefficients_a[0]) / sizeof(double); }
int columns_ahi_() { return sizeof(catima::ls_coefficients::ls_coefficients_ahi[0]) / sizeof(double); }
int columns_x_() { return sizeof(catima::ls_coefficients::ls_X_coefficients_a[0]) / sizeof(double); }
int columns_x_ahi_() { return sizeof(catima::ls_coefficients::ls_X_coefficients_ahi[0]) / sizeof(double); }
double a_(int i, int j) { return catima::ls_coefficients::ls_coefficients_a[i][j]; }
double ahi_(int i, int j) { return catima::ls_coefficients::ls_coefficients_ahi[i][j]; }
double x_(int i, int j) { return catima::ls_coefficients::ls_X_coefficients_a[i][j]; }
double x_ahi_(int i, int j) { return catima::ls_coefficients::ls_X_coefficients_ahi[i][j]; }
double energy_(int j) { return catima::ls_coefficients::ls_energy_table.values[j]; }
}
