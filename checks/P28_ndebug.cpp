#define NDEBUG
#define P28_NS ndebug
#include "P28_macros.inc"
