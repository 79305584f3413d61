#define NDEBUG
#define P28L_NS off
#include "P28_log.inc"
