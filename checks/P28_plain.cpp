#define P28_NS plain
#include "P28_macros.inc"
