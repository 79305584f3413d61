#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_FINER
#include <sm/logging.hpp>
#define P20_NS min_finer
#define P20_LEVELS P20_LEVEL(VERBOSE, 2) P20_LEVEL(FINER, 3)
#include "P20_sites.inc"
