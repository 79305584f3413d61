// A small property-based testing engine.
//
// A case is a finite sequence of integer choices drawn through a Source. The runner records the
// choices, shrinks a failing sequence and writes it to a replay file. Cases run in forked worker
// processes so that crashes, sanitizer reports and hangs are attributed to the case that caused them.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};
struct Discard {};

class Source {
 public:
  enum Mode { Random, Replay, Bytes };

  /// uniform in [0, n); shrinks towards 0
  uint64_t below(uint64_t n);
  uint64_t bits64();
  /// shrinks to false
  bool flip() { return below(2) != 0; }
  /// true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  /// uniform integer in [lo, hi]; shrinks to lo
  int64_t range(int64_t lo, int64_t hi) {
    uint64_t w = uint64_t(hi) - uint64_t(lo);
    if (w == std::numeric_limits<uint64_t>::max()) return int64_t(bits64());
    return int64_t(uint64_t(lo) + below(w + 1));
  }
  size_t size(size_t lo, size_t hi) { return size_t(range(int64_t(lo), int64_t(hi))); }
  /// list continuation flag: expected number of further elements about avg
  bool more(unsigned avg) { return chance(avg, avg + 1); }
  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <typename T>
  T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }

  /// uniform in [0,1)
  double unit() { return double(below(uint64_t(1) << 53)) * 1.1102230246251565e-16; }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
  /// magnitude distributed log-uniformly in [lo, hi], lo > 0
  double logUniform(double lo, double hi) { return std::exp(uniform(std::log(lo), std::log(hi))); }
  double signedLog(double lo, double hi) { double v = logUniform(lo, hi); return flip() ? -v : v; }
  /// a "natural" number: mixture of zero, small integers, simple fractions, uniform, log-uniform
  double real(double maxAbs);
  /// standard normal
  double normal();
  /// any finite double (bit patterns, extremes, ordinary ones)
  double anyFinite();
  /// any double including NaN and infinities
  double anyDouble();
  /// integer mixture: small, edges of range, powers of two +-1, uniform
  int64_t anyInt(int64_t lo, int64_t hi);
  std::string str(const std::string& alphabet, size_t maxLen);
  std::string bytes(size_t maxLen);
  /// an index permutation
  std::vector<size_t> permutation(size_t n);

  void label(const std::string& l);
  void nontrivial() { nontrivial_ = true; }
  [[noreturn]] void discard() { throw Discard(); }

  bool describing() const { return describe_; }
  std::ostream& notes() { return notes_; }

  // engine internals
  Mode mode = Random;
  uint64_t rng[2] = {1, 2};
  const uint64_t* in = nullptr;
  size_t inLen = 0, inPos = 0;
  const uint8_t* data = nullptr;
  size_t dataLen = 0, dataPos = 0;
  uint64_t* out = nullptr;
  size_t outCap = 0;
  size_t outLen = 0;
  volatile uint32_t* outLenShared = nullptr;
  uint64_t hash = 1469598103934665603ull;
  bool nontrivial_ = false;
  bool describe_ = false;
  std::ostringstream notes_;
  std::vector<std::string> labels_;
  char* noteOut = nullptr;  ///< notes survive a crash there
  size_t noteCap = 0;
  void keepNotes() {
    if (!noteOut || noteCap == 0) return;
    const std::string t = notes_.str();
    const size_t n = t.size() < noteCap - 1 ? t.size() : noteCap - 1;
    std::memcpy(noteOut, t.data(), n);
    noteOut[n] = 0;
  }

 private:
  uint64_t next();
};

using PropFn = void (*)(Source&);

struct Options {
  double hang_s = 60;      ///< a case running longer than this is a hang
  bool schedule = false;   ///< outcome may depend on thread schedule: one failing run is a failure
  unsigned workers = 0;    ///< 0: one per core
  bool fuzz = false;       ///< also driven by coverage-guided fuzzing in the thorough tier
};

struct Prop {
  const char* name;
  uint64_t quick, thorough;
  PropFn fn;
  Options opt;
};
std::vector<Prop>& registry();
struct Registrar {
  Registrar(const char* name, uint64_t quick, uint64_t thorough, PropFn fn, Options opt = Options()) {
    registry().push_back(Prop{name, quick, thorough, fn, opt});
  }
};

/// A recorded, unrepaired defect: fn returns true while the code still fails on that input.
struct Known {
  const char* id;
  const char* what;
  bool (*fn)();
};
std::vector<Known>& knownRegistry();
struct KnownRegistrar {
  KnownRegistrar(const char* id, const char* what, bool (*fn)()) { knownRegistry().push_back(Known{id, what, fn}); }
};

/// per-process scratch directory, removed by the runner; also the current directory of a case
const std::string& scratch();
bool thorough();
/// stated once per check binary: property id, and rule text for the evidence file
extern const char* const kProperty;
extern const char* const kRule;

[[noreturn]] void fail(const std::string& msg, const char* file, int line);

// ---- comparison helpers -------------------------------------------------------------------
inline bool sameBits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
std::string show(const std::string& s);  ///< quoted, escaped
std::string hex(const std::string& s);

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
/// PBT(name, quick cases, thorough cases [, options]) { body using Source& s }
#define PBT(NAME, QUICK, THOROUGH, ...)                                                              \
  static void pbt_prop_##NAME(pbt::Source& s);                                                       \
  static pbt::Registrar pbt_reg_##NAME(#NAME, QUICK, THOROUGH, &pbt_prop_##NAME, ##__VA_ARGS__);     \
  static void pbt_prop_##NAME([[maybe_unused]] pbt::Source& s)
#define PBT_KNOWN(NAME, ID, WHAT)                                                                    \
  static bool pbt_known_##NAME();                                                                    \
  static pbt::KnownRegistrar pbt_knownreg_##NAME(ID, WHAT, &pbt_known_##NAME);                       \
  static bool pbt_known_##NAME()
#define PBT_PROPERTY(ID, RULE)            \
  const char* const pbt::kProperty = ID;  \
  const char* const pbt::kRule = RULE;

#define PBT_FAIL(MSG)                                     \
  do {                                                    \
    std::ostringstream pbt_os_;                           \
    pbt_os_.precision(17);                                \
    pbt_os_ << MSG;                                       \
    pbt::fail(pbt_os_.str(), __FILE__, __LINE__);         \
  } while (0)
#define PBT_CHECK(COND, MSG)                              \
  do {                                                    \
    if (!(COND)) PBT_FAIL(#COND << ": " << MSG);          \
  } while (0)
#define PBT_EQ(A, B, MSG)                                                              \
  do {                                                                                 \
    const auto pbt_a_ = (A);                                                           \
    const auto pbt_b_ = (B);                                                           \
    if (!(pbt_a_ == pbt_b_))                                                           \
      PBT_FAIL(#A " == " #B ": got " << pbt_a_ << " expected " << pbt_b_ << ": " << MSG); \
  } while (0)
/// |a-b| <= tol; NaN fails
#define PBT_NEAR(A, B, TOL, MSG)                                                                   \
  do {                                                                                             \
    const double pbt_a_ = (A), pbt_b_ = (B), pbt_t_ = (TOL);                                       \
    if (!(std::fabs(pbt_a_ - pbt_b_) <= pbt_t_))                                                   \
      PBT_FAIL(#A " ~ " #B ": got " << pbt_a_ << " expected " << pbt_b_ << " tol " << pbt_t_ << ": " << MSG); \
  } while (0)
/// the expression must throw exactly EX (or a class derived from it)
#define PBT_THROWS(EXPR, EX, MSG)                                                            \
  do {                                                                                       \
    bool pbt_threw_ = false;                                                                 \
    try {                                                                                    \
      (void)(EXPR);                                                                          \
    } catch (const EX&) {                                                                    \
      pbt_threw_ = true;                                                                     \
    } catch (const std::exception& pbt_e_) {                                                 \
      PBT_FAIL(#EXPR " threw another exception than " #EX ": " << pbt_e_.what() << ": " << MSG); \
    }                                                                                        \
    if (!pbt_threw_) PBT_FAIL(#EXPR " did not throw " #EX ": " << MSG);                      \
  } while (0)
#define PBT_NOTE(S, MSG)                                  \
  do {                                                    \
    if ((S).describing()) { (S).notes() << MSG << "; "; (S).keepNotes(); } \
  } while (0)

#endif
