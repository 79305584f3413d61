// the statements of sm/logging/assert.h, on conditions of every shape; included once with and once without NDEBUG
#include <sm/logging/assert.h>
namespace p28log {
namespace P28L_NS {
struct V { int& n; int v; };
inline int see(V& x) { ++x.n; return x.v; }
#define P28L_CONDITIONS(F) \
  F(0, see(a) != 0) F(1, see(a) || see(b)) F(2, see(a) && see(b)) F(3, !see(a)) F(4, see(a) == see(b)) F(5, see(a) ? see(b) : see(c)) F(6, see(a) < see(b)) \
  F(7, see(a) - see(b)) F(8, see(a) > 0) F(9, see(a) == 0 || see(b) > see(c)) F(10, (see(a), see(b))) F(11, see(a) + see(b) > see(c)) F(12, see(a) && "100%s%d%n" != nullptr)
/// runs statement "macro" with condition "shape"; returns how often the command ran
int run(int macro, int shape, int va, int vb, int vc, int& evaluated, int number, const char* text) {
  V a{evaluated, va}, b{evaluated, vb}, c{evaluated, vc};
  int ran = 0;
  (void)a; (void)b; (void)c; (void)number; (void)text;
  switch (macro * 16 + shape) {
#define F0(I, ...) case I: SM_ASSERT((__VA_ARGS__)); break;
#define F1(I, ...) case 16 + I: SM_ASSERT_MSG((__VA_ARGS__), "told %d and %s", number, text); break;
    P28L_CONDITIONS(F0)
    P28L_CONDITIONS(F1)
    case 32: SM_ASSERT_CMD(see(a) != 0, ++ran); break;
    case 33: SM_ASSERT_CMD(see(a) || see(b), ++ran); break;
    case 34: SM_ASSERT_CMD(see(a) && see(b), ++ran); break;
    case 35: SM_ASSERT_CMD(!see(a), ++ran); break;
    case 36: SM_ASSERT_CMD(see(a) == see(b), ++ran); break;
    case 37: SM_ASSERT_CMD(see(a) ? see(b) : see(c), ++ran); break;
    case 38: SM_ASSERT_CMD(see(a) < see(b), ++ran); break;
    case 39: SM_ASSERT_CMD(see(a) - see(b), ++ran); break;
    case 40: SM_ASSERT_CMD(see(a) > 0, ++ran); break;
    case 41: SM_ASSERT_CMD(see(a) == 0 || see(b) > see(c), ++ran); break;
    case 42: SM_ASSERT_CMD((see(a), see(b)), ++ran); break;
    case 43: SM_ASSERT_CMD(see(a) + see(b) > see(c), ++ran); break;
    case 44: SM_ASSERT_CMD(see(a) && "100%s%d%n" != nullptr, ++ran); break;
    // bare conditions, and statements in the branch of an if
    case 48: SM_ASSERT(see(a) || see(b)); break;
    case 49: SM_ASSERT_MSG(see(a) || see(b), "told %d and %s", number, text); break;
    case 50: if (va > 100) SM_ASSERT(see(a)); else ++ran; break;
    case 51: SM_BREAK(); break;
  }
  return ran;
}
}  // namespace P28L_NS
}  // namespace p28log
