#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_NONE
#include <sm/logging.hpp>
#define P20_NS min_none
#define P20_LEVELS P20_LEVEL(FATAL, 10) P20_LEVEL(ALL, 0)
#include "P20_sites.inc"
