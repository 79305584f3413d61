#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_WARN
#include <sm/logging.hpp>
#define P20_NS min_warn
#define P20_LEVELS P20_LEVEL(INFO, 7) P20_LEVEL(WARN, 8)
#include "P20_sites.inc"
