// P28: the assertions of sm_logging
#undef NDEBUG
#define P28L_NS on
#include "P28_log.inc"
#include "pbt.hpp"
#include <csignal>
#include <sm/logging.hpp>
#include <sm/logging/Logger.hpp>
namespace p28log { namespace off { int run(int, int, int, int, int, int&, int, const char*); } }
namespace {
struct Rec : sm::logging::Logger {
  std::vector<std::string>& out;
  bool fatal = true;
  explicit Rec(std::vector<std::string>& o) : out(o) {}
  Time currentTimeImplementation() const override { return Time(); }
  void logImplementation(const sm::logging::LoggingEvent& e) override { out.push_back(e.message); fatal = fatal && e.level == sm::logging::levels::Fatal; }
};
volatile std::sig_atomic_t g_traps = 0;
void onTrap(int) { ++g_traps; }
struct Traps {  // SM_ISSUE_BREAK is a trap that a debugger may step past
  struct sigaction old;
  Traps() { struct sigaction a; std::memset(&a, 0, sizeof a); a.sa_handler = &onTrap; sigaction(SIGTRAP, &a, &old); g_traps = 0; }
  ~Traps() { sigaction(SIGTRAP, &old, nullptr); }
};
}  // namespace

PBT(logging_assertions, 20000, 200000) {
  const int macro = int(s.below(4)), shape = macro == 3 ? int(s.below(4)) : int(s.below(13));
  const int a = int(s.range(-2, 2)), b = int(s.range(-2, 2)), c = int(s.range(-2, 2)), number = int(s.range(-1000, 1000));
  const std::string text = s.str("abc %\n", 20);
  bool holds = true;
  int see = 1;
  switch (macro == 3 ? 100 + shape : shape) {
    case 0: case 12: holds = a != 0; break;
    case 1: case 100: case 101: holds = a || b; see = a ? 1 : 2; break;
    case 2: holds = a && b; see = a ? 2 : 1; break;
    case 3: holds = !a; break;
    case 4: holds = a == b; see = 2; break;
    case 5: holds = (a ? b : c) != 0; see = 2; break;
    case 6: holds = a < b; see = 2; break;
    case 7: holds = a - b != 0; see = 2; break;
    case 8: holds = a > 0; break;
    case 9: holds = a == 0 || b > c; see = a == 0 ? 1 : 3; break;
    case 10: holds = b != 0; see = 2; break;
    case 11: holds = a + b > c; see = 3; break;
    case 102: holds = true; see = 0; break;
    case 103: holds = false; see = 0; break;
  }
  if (!holds) s.nontrivial();
  std::vector<std::string> said;
  boost::shared_ptr<Rec> rec(new Rec(said));
  sm::logging::setLogger(rec);
  sm::logging::setLevel(sm::logging::levels::Info);
  int n = 0, ran, traps;
  {
    Traps t;
    ran = p28log::on::run(macro, shape, a, b, c, n, number, text.c_str());
    traps = int(g_traps);
  }
  const bool cmd = macro == 2;
  PBT_NOTE(s, "macro " << macro << " condition " << shape << " on " << a << ", " << b << ", " << c);
  PBT_EQ(n, see, "evaluations of the condition's parts");
  PBT_EQ(traps, int(!holds && !cmd), "breaks");
  PBT_EQ(ran, macro == 3 && shape == 2 ? 1 : int(cmd && !holds), "runs of the command");
  PBT_CHECK(rec->fatal, "a failed assertion is not fatal");
  if (!holds && !cmd) {
    std::string all;
    for (auto& m : said) all += m;
    const bool brk = macro == 3 && shape == 3;
    PBT_CHECK(all.find(brk ? "BREAKPOINT HIT" : "ASSERTION FAILED") != all.npos && all.find("P28_log.inc") != all.npos, "said " << pbt::show(all));
    if (!brk) PBT_CHECK(all.find("see(") != all.npos, "the condition is not told: " << pbt::show(all));
    if (!brk && shape == 12) PBT_CHECK(all.find("100%s%d%n") != all.npos, "the condition is not told as it is written: " << pbt::show(all));
    if (macro == 1 || (macro == 3 && shape == 1)) PBT_CHECK(all.find("told " + std::to_string(number) + " and " + text) != all.npos, "the message is not told: " << pbt::show(all));
  } else PBT_CHECK(said.empty(), "an assertion that holds says " << pbt::show(said[0]));
  // switched off, nothing happens at all
  said.clear();
  n = 0;
  {
    Traps t;
    ran = p28log::off::run(macro, shape, a, b, c, n, number, text.c_str());
    traps = int(g_traps);
  }
  PBT_CHECK(n == 0 && traps == 0 && said.empty() && ran == (macro == 3 && shape == 2), "with NDEBUG " << n << " evaluations, " << traps << " breaks, " << ran << " commands");
}
