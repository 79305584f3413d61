#define SMCONSOLE_MIN_SEVERITY SMCONSOLE_SEVERITY_INFO
#include <sm/logging.hpp>
#define P20_NS min_info
#define P20_LEVELS P20_LEVEL(DEBUG, 6) P20_LEVEL(INFO, 7)
#include "P20_sites.inc"
