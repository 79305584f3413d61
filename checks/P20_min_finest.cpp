#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_FINEST
#include <sm/logging.hpp>
#define P20_NS min_finest
#define P20_LEVELS P20_LEVEL(ALL, 0) P20_LEVEL(FINEST, 1)
#include "P20_sites.inc"
