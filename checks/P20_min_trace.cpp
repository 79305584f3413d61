#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_TRACE
#include <sm/logging.hpp>
#define P20_NS min_trace
#define P20_LEVELS P20_LEVEL(FINER, 3) P20_LEVEL(TRACE, 4)
#include "P20_sites.inc"
