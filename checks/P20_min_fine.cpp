#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_FINE
#include <sm/logging.hpp>
#define P20_NS min_fine
#define P20_LEVELS P20_LEVEL(TRACE, 4) P20_LEVEL(FINE, 5)
#include "P20_sites.inc"
