// included once per translation unit, after <sm/logging.hpp>; P20_NS names the namespace
#include "P20.hpp"
namespace { namespace P20_NS {
using namespace p20;
#define P20_HERE ctx.file = __FILE__, ctx.line = __LINE__, ctx.function = __SMCONSOLE_FUNCTION__
#define P20_DEF(ID, MACRO, LEVEL, FAM, NAMED, RAW, PREFIX, OUT, CALL)                     \
  void run_##ID() { P20_HERE; CALL; }                                                     \
  Reg reg_##ID(Site{MACRO, LEVEL, FAM, NAMED, RAW, PREFIX, OUT, &run_##ID});
#define P20_STREAM "<" << 7 << "> " << argS() << '%'
#define P20_FMT "<%d> %s%%", 7, argC()
#define P20_LEVEL(L, N)                                                                                                        \
  P20_DEF(L##_P, "SM_" #L, N, Plain, false, false, 1, P20_OUT(L), SM_##L(P20_FMT))                                             \
  P20_DEF(L##_S, "SM_" #L "_STREAM", N, Plain, false, false, 1, P20_OUT(L), SM_##L##_STREAM(P20_STREAM))                       \
  P20_DEF(L##_N, "SM_" #L "_NAMED", N, Plain, true, false, 0, P20_OUT(L), SM_##L##_NAMED(nm(), "%s", argC()))                  \
  P20_DEF(L##_SN, "SM_" #L "_STREAM_NAMED", N, Plain, true, false, 0, P20_OUT(L), SM_##L##_STREAM_NAMED(nm(), argS()))         \
  P20_DEF(L##_C, "SM_" #L "_COND", N, Cond, false, false, 0, P20_OUT(L), SM_##L##_COND(cnd(), "%s", argC()))                   \
  P20_DEF(L##_SC, "SM_" #L "_STREAM_COND", N, Cond, false, false, 0, P20_OUT(L), SM_##L##_STREAM_COND(cnd(), argS()))          \
  P20_DEF(L##_CN, "SM_" #L "_COND_NAMED", N, Cond, true, false, 1, P20_OUT(L), SM_##L##_COND_NAMED(cnd(), nm(), P20_FMT))      \
  P20_DEF(L##_SCN, "SM_" #L "_STREAM_COND_NAMED", N, Cond, true, false, 1, P20_OUT(L), SM_##L##_STREAM_COND_NAMED(cnd(), nm(), P20_STREAM)) \
  P20_DEF(L##_O, "SM_" #L "_ONCE", N, Once, false, false, 0, P20_OUT(L), SM_##L##_ONCE("%s", argC()))                          \
  P20_DEF(L##_SO, "SM_" #L "_STREAM_ONCE", N, Once, false, false, 0, P20_OUT(L), SM_##L##_STREAM_ONCE(argS()))                 \
  P20_DEF(L##_ON, "SM_" #L "_ONCE_NAMED", N, Once, true, false, 1, P20_OUT(L), SM_##L##_ONCE_NAMED(nm(), P20_FMT))             \
  P20_DEF(L##_SON, "SM_" #L "_STREAM_ONCE_NAMED", N, Once, true, false, 1, P20_OUT(L), SM_##L##_STREAM_ONCE_NAMED(nm(), P20_STREAM)) \
  P20_DEF(L##_T, "SM_" #L "_THROTTLE", N, Throttle, false, false, 0, P20_OUT(L), SM_##L##_THROTTLE(rt(), "%s", argC()))        \
  P20_DEF(L##_ST, "SM_" #L "_STREAM_THROTTLE", N, Throttle, false, false, 1, P20_OUT(L), SM_##L##_STREAM_THROTTLE(rt(), P20_STREAM)) \
  P20_DEF(L##_TN, "SM_" #L "_THROTTLE_NAMED", N, Throttle, true, false, 1, P20_OUT(L), SM_##L##_THROTTLE_NAMED(rt(), nm(), P20_FMT)) \
  P20_DEF(L##_STN, "SM_" #L "_STREAM_THROTTLE_NAMED", N, Throttle, true, false, 0, P20_OUT(L), SM_##L##_STREAM_THROTTLE_NAMED(rt(), nm(), argS()))
#define P20_OUT(L) (SMCONSOLE_MIN_SEVERITY > SMCONSOLE_SEVERITY_##L)
P20_LEVELS
}}
