#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_ERROR
#include <sm/logging.hpp>
#define P20_NS min_error
#define P20_LEVELS P20_LEVEL(WARN, 8) P20_LEVEL(ERROR, 9)
#include "P20_sites.inc"
