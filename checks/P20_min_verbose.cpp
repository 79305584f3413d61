#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_VERBOSE
#include <sm/logging.hpp>
#define P20_NS min_verbose
#define P20_LEVELS P20_LEVEL(FINEST, 1) P20_LEVEL(VERBOSE, 2)
#include "P20_sites.inc"
