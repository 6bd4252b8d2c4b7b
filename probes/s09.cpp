// P09: the built-in element and isotope data as seen by a client
#include "catima/nucdata.h"
#include "catima/abundance_database.h"
#include "catima/data_ionisation_potential.h"
#include "catima/calculations.h"
namespace spec_p09 {
double weight_(int z) { return catima::element_atomic_weight(z); }
double density_(int z) { return catima::element_density(z); }
double ionisation_(int z) { return catima::ipot(z); }
double number_(int z) { return abundance::get_isotopes_num(z); }
double isotope_(int z, int i) { return abundance::get_isotope_a(z, i); }
double abundance_(int z, int i) { return abundance::get_abundance(z, i); }
double pair_isotope_(int z, int i) { return abundance::get_isotope(z, i).first; }
double pair_abundance_(int z, int i) { return abundance::get_isotope(z, i).second; }
double density_effect_(int z, double beta) { return catima::bethek_density_effect(beta, z); }
}
