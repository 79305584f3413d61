#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_DEBUG
#include <sm/logging.hpp>
#define P20_NS min_debug
#define P20_LEVELS P20_LEVEL(FINE, 5) P20_LEVEL(DEBUG, 6)
#include "P20_sites.inc"
