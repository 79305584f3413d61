#define NDEBUG
#define SM_ALWAYS_ASSERT
#define P28_NS alwaysassert
#include "P28_macros.inc"
