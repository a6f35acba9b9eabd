#ifndef SIM_SCEN_HPP
#define SIM_SCEN_HPP
#include "../rt/rt.hpp"
#include "ref.hpp"
#include <string>
#include <vector>
struct Scen { const char *name; void (*fn)(); };
extern const Scen scens[];            // ends with a null name
// helpers (common.cpp)
ref::Par par_from_plan();
void write_params();                  // params.txt in the run directory, from the plan
double pd(const char *key, double def);
long   pl(const char *key, long def);
std::string ps(const char *key, const char *def);
#ifdef USE_CHEB
static const bool IS_CHEB = true;
#else
static const bool IS_CHEB = false;
#endif
#ifdef SHTNS_CONTIGUOUS_LONGITUDES
static const bool IS_CONTIG = true;
#else
static const bool IS_CONTIG = false;
#endif
#endif
