#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_FATAL
#include <sm/logging.hpp>
#define P20_NS min_fatal
#define P20_LEVELS P20_LEVEL(ERROR, 9) P20_LEVEL(FATAL, 10)
#include "P20_sites.inc"
