#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>

#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=1:"
         "max_allocation_size_mb=4096:check_initialization_order=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:abort_on_error=1"; }
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1"; }

namespace pbt {

std::vector<Prop>& registry() {
  static std::vector<Prop> r;
  return r;
}
std::vector<Known>& knownRegistry() {
  static std::vector<Known> r;
  return r;
}

static bool g_thorough = false;
bool thorough() { return g_thorough; }

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

void fail(const std::string& msg, const char* file, int line) {
  const char* b = std::strrchr(file, '/');
  std::ostringstream os;
  os << (b ? b + 1 : file) << ":" << line << ": " << msg;
  throw Failure{os.str()};
}

std::string show(const std::string& s) {
  std::string o = "\"";
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c >= 32 && c < 127) o += char(c);
    else { std::snprintf(buf, sizeof buf, "\\x%02x", c); o += buf; }
  }
  return o + "\"";
}
std::string hex(const std::string& s) {
  std::string o;
  char buf[4];
  for (unsigned char c : s) { std::snprintf(buf, sizeof buf, "%02x", c); o += buf; }
  return o;
}

// ---- Source ----------------------------------------------------------------------------------
uint64_t Source::next() {  // xoroshiro128+
  uint64_t s0 = rng[0], s1 = rng[1], r = s0 + s1;
  s1 ^= s0;
  rng[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
  rng[1] = (s1 << 37) | (s1 >> 27);
  return r;
}

uint64_t Source::below(uint64_t n) {
  uint64_t v = 0;
  if (mode == Random) {
    if (n == 0) v = next();
    else if (n == 1) v = 0;
    else v = uint64_t((unsigned __int128)next() * n >> 64);
  } else if (mode == Replay) {
    v = inPos < inLen ? in[inPos] : 0;
    ++inPos;
    if (n != 0 && v >= n) v = n - 1;
  } else {
    int k = 8;
    if (n != 0) { k = 0; uint64_t m = n - 1; while (m) { ++k; m >>= 8; } }
    for (int i = 0; i < k; ++i) v = (v << 8) | (dataPos < dataLen ? data[dataPos++] : 0);
    if (n != 0 && v >= n) v %= n;
  }
  if (out && outLen < outCap) {
    out[outLen] = v;
    ++outLen;
    if (outLenShared) *outLenShared = uint32_t(outLen);
  } else if (out) {
    throw Discard();  // over-long case
  }
  hash = (hash ^ v) * 1099511628211ull;
  hash ^= hash >> 29;
  return v;
}
uint64_t Source::bits64() { return below(0); }

double Source::real(double maxAbs) {
  double v;
  switch (below(6)) {
    case 0: v = double(range(0, 4)); break;
    case 1: v = double(range(1, 16)) / 8.0; break;
    case 2:
    case 3: v = uniform(0, maxAbs); break;
    case 4: v = logUniform(1e-9, maxAbs); break;
    default: v = uniform(0, std::min(1.0, maxAbs)); break;
  }
  if (v > maxAbs) v = maxAbs;
  return flip() ? -v : v;
}

double Source::normal() {
  double u = 1.0 - unit(), w = unit();
  return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * w);
}

double Source::anyFinite() {
  for (;;) {
    double v = anyDouble();
    if (std::isfinite(v)) return v;
    if (mode != Random) return 0;
  }
}
double Source::anyDouble() {
  switch (below(8)) {
    case 0: return real(10);
    case 1: return real(1e6);
    case 2: return signedLog(1e-300, 1e300);
    case 3: {
      static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.1, std::numeric_limits<double>::max(),
        std::numeric_limits<double>::lowest(), std::numeric_limits<double>::min(),
        std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::epsilon(),
        std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
        std::numeric_limits<double>::quiet_NaN(), 1.0 / 3, 1e22, 1e23, 123456789.123456789, 4503599627370497.5,
        9007199254740993.0, 1e15, 1e16, 1e17, 0.3, 5e-324, 1.7976931348623157e308};
      return sp[below(sizeof sp / sizeof *sp)];
    }
    case 4: { uint64_t b = bits64(); double d; std::memcpy(&d, &b, 8); return d; }
    case 5: return double(anyInt(-(int64_t(1) << 53), int64_t(1) << 53));
    default: return uniform(-1, 1);
  }
}
int64_t Source::anyInt(int64_t lo, int64_t hi) {
  auto clamp = [&](int64_t v) { return v < lo ? lo : v > hi ? hi : v; };
  switch (below(5)) {
    case 0: return clamp(range(-8, 8));
    case 1: { uint64_t k = below(4); int64_t e = flip() ? hi : lo; return e == hi ? (uint64_t(hi) - uint64_t(lo) >= k ? int64_t(uint64_t(hi) - k) : hi)
                                                                    : (uint64_t(hi) - uint64_t(lo) >= k ? int64_t(uint64_t(lo) + k) : lo); }
    case 2: { int b = int(below(63)); int64_t v = (int64_t(1) << b) + range(-1, 1); return clamp(flip() ? -v : v); }
    case 3: return clamp(range(-1000, 1000));
    default: return range(lo, hi);
  }
}
std::string Source::str(const std::string& alphabet, size_t maxLen) {
  std::string r;
  size_t n = size(0, maxLen);
  for (size_t i = 0; i < n; ++i) r += alphabet[below(alphabet.size())];
  return r;
}
std::string Source::bytes(size_t maxLen) {
  std::string r;
  size_t n = size(0, maxLen);
  for (size_t i = 0; i < n; ++i) r += char(below(256));
  return r;
}
std::vector<size_t> Source::permutation(size_t n) {
  std::vector<size_t> p(n);
  for (size_t i = 0; i < n; ++i) p[i] = i;
  for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[i - 1 - below(i)]);
  return p;
}
void Source::label(const std::string& l) {
  for (auto& x : labels_) if (x == l) return;
  labels_.push_back(l);
}

// ---- shared state ------------------------------------------------------------------------------
enum { kMaxChoices = 1 << 16, kMaxLabels = 160, kLabelLen = 56, kMsgLen = 6000, kSampleLen = 1200, kSamples = 3 };
struct Slot {
  volatile int state;  // 0 idle, 1 running, 2 failed, 3 done
  volatile uint64_t idx;
  volatile double start;
  volatile uint32_t n;
  volatile uint64_t evals, discards, nontrivial, hashes;
  char msg[kMsgLen];
  char desc[kMsgLen];
  int nlabels;
  struct { char name[kLabelLen]; uint64_t count; } labels[kMaxLabels];
  int nsamples;
  char samples[kSamples][kSampleLen];
  uint64_t choices[kMaxChoices];
};
enum { kMaxHashes = 1 << 21 };

template <typename T>
static T* shared(size_t count) {
  void* p = mmap(nullptr, sizeof(T) * count, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { std::perror("mmap"); std::exit(2); }
  return static_cast<T*>(p);
}

static std::string g_scratch;
static std::string g_scratchRoot;
const std::string& scratch() { return g_scratch; }

static int rmEntry(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
static void rmTree(const std::string& p) {
  if (p.find("/pbt-scratch-") == std::string::npos) return;
  nftw(p.c_str(), rmEntry, 16, FTW_DEPTH | FTW_PHYS);
}
static void enterScratch(const std::string& tag) {
  g_scratch = g_scratchRoot + "/" + tag;
  ::mkdir(g_scratch.c_str(), 0700);
  if (::chdir(g_scratch.c_str()) != 0) std::_Exit(2);
}

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t strHash(const char* c) {
  uint64_t h = 1469598103934665603ull;
  for (; *c; ++c) h = (h ^ uint8_t(*c)) * 1099511628211ull;
  return h;
}
static void seedSource(Source& s, uint64_t seed, const char* prop, uint64_t idx) {
  uint64_t x = seed * 0x9e3779b97f4a7c15ull ^ strHash(kProperty) ^ (strHash(prop) << 1) ^ (idx * 0xd1342543de82ef95ull);
  s.rng[0] = splitmix(x);
  s.rng[1] = splitmix(x) | 1;
}

static void setMsg(char* dst, size_t cap, const std::string& m) {
  size_t n = std::min(cap - 1, m.size());
  std::memcpy(dst, m.data(), n);
  dst[n] = 0;
}

/// 0 ok, 1 failed, 2 discarded
static int runCase(const Prop& p, Source& s, std::string& msg) {
  try {
    p.fn(s);
    return 0;
  } catch (const Failure& f) {
    msg = f.msg;
    return 1;
  } catch (const Discard&) {
    return 2;
  } catch (const std::exception& e) {
    msg = std::string("unexpected exception: ") + e.what();
    return 1;
  } catch (...) {
    msg = "unexpected exception of unknown type";
    return 1;
  }
}

static void redirect(const std::string& errFile) {
  int n = ::open("/dev/null", O_RDWR);
  ::dup2(n, 0);
  ::dup2(n, 1);
  int e = ::open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
  ::dup2(e < 0 ? n : e, 2);
}

static std::string tailFile(const std::string& f, size_t cap) {
  std::ifstream i(f.c_str(), std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("runtime error:");
  if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
  if (p != std::string::npos) {
    size_t b = s.rfind('\n', p);
    return s.substr(b == std::string::npos ? 0 : b + 1, cap);
  }
  return s.size() > cap ? s.substr(s.size() - cap) : s;
}

static void workerLoop(const Prop& p, uint64_t seed, uint64_t from, uint64_t step, uint64_t total, double deadline, Slot* sl,
                       uint64_t* hashes) {
  for (uint64_t i = from; i < total; i += step) {
    if (now() > deadline) break;
    Source s;
    seedSource(s, seed, p.name, i);
    s.out = sl->choices;
    s.outCap = kMaxChoices;
    s.outLenShared = &sl->n;
    sl->n = 0;
    s.describe_ = sl->nsamples < kSamples;
    sl->idx = i;
    sl->start = now();
    sl->state = 1;
    std::string msg;
    int r = runCase(p, s, msg);
    sl->start = now();
    if (r == 1) {
      setMsg(sl->msg, kMsgLen, msg);
      sl->state = 2;
      std::_Exit(0);
    }
    sl->state = 0;
    if (r == 2) { sl->discards = sl->discards + 1; continue; }
    sl->evals = sl->evals + 1;
    for (auto& l : s.labels_) {
      int k = 0;
      while (k < sl->nlabels && std::strncmp(sl->labels[k].name, l.c_str(), kLabelLen - 1) != 0) ++k;
      if (k == sl->nlabels) {
        if (k == kMaxLabels) continue;
        std::strncpy(sl->labels[k].name, l.c_str(), kLabelLen - 1);
        sl->nlabels = k + 1;
      }
      ++sl->labels[k].count;
    }
    if (s.nontrivial_) {
      sl->nontrivial = sl->nontrivial + 1;
      if (sl->hashes < kMaxHashes) { hashes[sl->hashes] = s.hash; sl->hashes = sl->hashes + 1; }
      if (s.describe_ && sl->nsamples < kSamples) {
        std::string d = s.notes_.str();
        if (!d.empty()) { setMsg(sl->samples[sl->nsamples], kSampleLen, d); sl->nsamples = sl->nsamples + 1; }
      }
    }
    if ((sl->evals & 255) == 0) {
      struct stat st;
      if (::fstat(2, &st) == 0 && st.st_size > (1 << 20) && ::ftruncate(2, 0) != 0) {}
    }
  }
  sl->state = 3;
  std::_Exit(0);
}

// ---- isolated execution of one choice sequence ---------------------------------------------------
struct Outcome {
  int kind = 0;  // 0 ok, 1 fail, 2 discard, 3 crash, 4 hang
  std::string msg, desc;
  std::vector<uint64_t> used;
};
static int g_iso = 0;
static Outcome isolated(const Prop& p, const std::vector<uint64_t>& ch, double limit, Slot* sl, bool describe = false) {
  std::memset((void*)sl, 0, offsetof(Slot, choices));
  std::string tag = "iso" + std::to_string(g_iso++ % 4);
  std::string err = g_scratchRoot + "/" + tag + ".err";
  pid_t pid = ::fork();
  if (pid == 0) {
    ::setpgid(0, 0);
      ::prctl(PR_SET_PDEATHSIG, SIGKILL);
    redirect(err);
    enterScratch(tag);
    Source s;
    s.mode = Source::Replay;
    s.in = ch.data();
    s.inLen = ch.size();
    s.out = sl->choices;
    s.outCap = kMaxChoices;
    s.outLenShared = &sl->n;
    s.describe_ = describe;
    s.noteOut = const_cast<char*>(sl->desc);
    s.noteCap = kMsgLen;
    sl->state = 1;
    std::string msg;
    int r = runCase(p, s, msg);
    setMsg(sl->msg, kMsgLen, msg);
    setMsg(sl->desc, kMsgLen, s.notes_.str());
    sl->state = 10 + r;
    std::_Exit(0);
  }
  Outcome o;
  double t0 = now();
  int st = 0;
  unsigned us = 200;
  for (;;) {
    pid_t w = ::waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (now() - t0 > limit) {
      ::kill(-pid, SIGKILL);
      ::kill(pid, SIGKILL);
      ::waitpid(pid, &st, 0);
      o.kind = 4;
      o.msg = "the case does not terminate within " + std::to_string(int(limit)) + " s";
      break;
    }
    ::usleep(us);
    if (us < 5000) us += us / 2;
  }
  ::kill(-pid, SIGKILL);
  if (o.kind != 4) {
    if (sl->state >= 10) { o.kind = sl->state - 10; o.msg = sl->msg; }
    else { o.kind = 3; o.msg = "the process died (status " + std::to_string(st) + ")\n" + tailFile(err, 4000); }
  }
  o.desc = sl->desc;
  o.used.assign(sl->choices, sl->choices + sl->n);
  return o;
}

static bool bad(const Outcome& o) { return o.kind == 1 || o.kind == 3 || o.kind == 4; }

static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, double limit, double budget, Slot* sl, uint64_t& tries) {
  double end = now() + budget;
  auto attempt = [&](const std::vector<uint64_t>& c) {
    if (now() > end) return false;
    ++tries;
    Outcome o = isolated(p, c, limit, sl);
    if (!bad(o)) return false;
    // keep what was actually consumed if it is not larger
    if (o.used.size() < c.size()) best = o.used; else best = c;
    return true;
  };
  bool improved = true;
  while (improved && now() < end) {
    improved = false;
    for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = best.size(); i-- > 0 && now() < end;) {
        if (i + k > best.size()) continue;
        std::vector<uint64_t> c = best;
        c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) { improved = true; if (i > best.size()) i = best.size(); }
      }
    }
    for (size_t i = 0; i < best.size() && now() < end; ++i) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> c = best;
      c[i] = 0;
      if (attempt(c)) { improved = true; continue; }
      uint64_t lo = 0, hi = best[i];
      int steps = 0;
      while (hi - lo > 1 && steps++ < 24 && now() < end && i < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = best;
        c[i] = mid;
        if (attempt(c)) { improved = true; hi = mid; } else lo = mid;
      }
    }
  }
  return best;
}

static std::string g_replayDir, g_resultFile;

static std::string jsonStr(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

struct PropResult {
  uint64_t evals = 0, discards = 0, nontrivial = 0, planned = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  double wall = 0;
  bool failed = false, truncated = false;
};

static int reportFailure(const Prop& p, std::vector<uint64_t> ch, Outcome first, Slot* sl, uint64_t seed) {
  double limit = first.kind == 4 ? p.opt.hang_s : std::max(10.0, std::min(p.opt.hang_s, 60.0));
  int reproduced = 0, runs = 0;
  Outcome o = first;
  int want = p.opt.schedule ? 20 : 3;
  for (; runs < want && !(first.kind == 4 && runs >= 3); ++runs) {
    Outcome r = isolated(p, ch, limit, sl);
    if (bad(r)) { ++reproduced; o = r; if (p.opt.schedule && reproduced >= 3) { ++runs; break; } }
  }
  if (first.kind == 4 && !p.opt.schedule && reproduced < 3) return 0;  // a slow machine, not a hang
  uint64_t tries = 0;
  if (reproduced == runs && o.kind != 4 && std::getenv("PBT_NO_SHRINK") == nullptr)
    ch = shrink(p, ch, limit, p.opt.schedule ? 20 : 45, sl, tries);
  Outcome last = isolated(p, ch, limit, sl, true);
  if (bad(last)) o = last;
  ::mkdir(g_replayDir.c_str(), 0755);
  std::string path = g_replayDir + "/" + kProperty + "-" + p.name + ".replay";
  std::ofstream f(path.c_str());
  f << "property " << kProperty << "\nprop " << p.name << "\nseed " << seed << "\nreproduced " << reproduced << "/" << runs << "\nchoices";
  for (uint64_t c : ch) f << " " << c;
  f << "\nend\n";
  std::istringstream dm("case: " + last.desc + "\n" + o.msg);
  std::string line;
  while (std::getline(dm, line)) f << "# " << line << "\n";
  f.close();
  std::cout << "FAILED " << kProperty << "/" << p.name << " reproduced " << reproduced << "/" << runs << ", shrunk to " << ch.size()
            << " choices in " << tries << " tries\n  case: " << last.desc << "\n  " << o.msg << "\n"
            << "VIOLATION property=" << kProperty << " replay=" << path << std::endl;
  return 1;
}

static int runProp(const Prop& p, uint64_t seed, uint64_t cases, double deadline, PropResult& res) {
  unsigned W = p.opt.workers ? p.opt.workers : 8;
  if (cases < W) W = unsigned(cases);
  Slot* slots = shared<Slot>(W + 1);
  std::vector<uint64_t*> hashes(W);
  for (auto& h : hashes) h = shared<uint64_t>(kMaxHashes);
  std::vector<pid_t> pid(W, -1);
  std::vector<uint64_t> startAt(W);
  double t0 = now();
  res.planned = cases;
  auto spawn = [&](unsigned w, uint64_t from) {
    startAt[w] = from;
    slots[w].state = 0;
    slots[w].start = now();
    std::string tag = "w" + std::to_string(w);
    pid_t c = ::fork();
    if (c == 0) {
      ::setpgid(0, 0);
      ::prctl(PR_SET_PDEATHSIG, SIGKILL);
      redirect(g_scratchRoot + "/" + tag + ".err");
      enterScratch(tag);
      workerLoop(p, seed, from, W, cases, deadline, &slots[w], hashes[w]);
    }
    pid[w] = c;
  };
  std::cout.flush();
  for (unsigned w = 0; w < W; ++w) spawn(w, w);
  bool failed = false;
  std::vector<uint64_t> ch;
  Outcome first;
  unsigned alive = W;
  auto collectChoices = [&](unsigned w) { ch.assign(slots[w].choices, slots[w].choices + slots[w].n); };
  auto killAll = [&]() {
    for (unsigned w = 0; w < W; ++w)
      if (pid[w] > 0) { ::kill(-pid[w], SIGKILL); ::kill(pid[w], SIGKILL); ::waitpid(pid[w], nullptr, 0); pid[w] = -1; }
  };
  int rc = 0;
  while (alive > 0 && !failed) {
    for (unsigned w = 0; w < W && !failed; ++w) {
      if (pid[w] < 0) continue;
      int st;
      pid_t r = ::waitpid(pid[w], &st, WNOHANG);
      if (r == pid[w]) {
        ::kill(-pid[w], SIGKILL);
        pid[w] = -1;
        --alive;
        if (slots[w].state == 3 && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        collectChoices(w);
        if (slots[w].state == 2) { first.kind = 1; first.msg = slots[w].msg; }
        else {
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {  // ended from outside (memory): not a verdict
            std::cout << "note: a worker of " << p.name << " was killed; continuing\n";
            res.truncated = true;
            if (slots[w].idx + W < cases) { spawn(w, slots[w].idx + W); ++alive; }
            continue;
          }
          first.kind = 3;
          first.msg = "the process died (status " + std::to_string(st) + ") " + tailFile(g_scratchRoot + "/w" + std::to_string(w) + ".err", 4000);
        }
        failed = true;
      } else if (slots[w].state == 1 && now() - slots[w].start > p.opt.hang_s) {
        collectChoices(w);
        uint64_t at = slots[w].idx;
        ::kill(-pid[w], SIGKILL);
        ::kill(pid[w], SIGKILL);
        ::waitpid(pid[w], nullptr, 0);
        pid[w] = -1;
        --alive;
        first.kind = 4;
        first.msg = "the case did not terminate within " + std::to_string(int(p.opt.hang_s)) + " s";
        killAll();
        rc = reportFailure(p, ch, first, &slots[W], seed);
        if (rc) { res.failed = true; goto done; }
        res.truncated = true;
        alive = 0;
        (void)at;
        break;
      }
    }
    ::usleep(2000);
  }
  killAll();
  if (failed) {
    rc = reportFailure(p, ch, first, &slots[W], seed);
    res.failed = rc != 0;
  }
done:
  for (unsigned w = 0; w < W; ++w) {
    res.evals += slots[w].evals;
    res.discards += slots[w].discards;
    res.nontrivial += slots[w].nontrivial;
    for (uint64_t i = 0; i < slots[w].hashes; ++i) res.distinct.insert(hashes[w][i]);
    for (int k = 0; k < slots[w].nlabels; ++k) res.labels[slots[w].labels[k].name] += slots[w].labels[k].count;
    for (int k = 0; k < slots[w].nsamples && res.samples.size() < 2; ++k) res.samples.push_back(slots[w].samples[k]);
  }
  if (res.evals + res.discards < cases) res.truncated = true;
  res.wall = now() - t0;
  for (auto h : hashes) ::munmap(h, sizeof(uint64_t) * kMaxHashes);
  ::munmap(slots, sizeof(Slot) * (W + 1));
  return rc;
}

/// turns a libFuzzer artifact of property \p name into a report (0: it does not fail here)
static int fromBytes(const std::string& name, const std::string& file, uint64_t seed) {
  std::ifstream f(file.c_str(), std::ios::binary);
  std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  for (auto& p : registry())
    if (name == p.name) {
      Slot* sl = shared<Slot>(1);
      pid_t pid = ::fork();
      if (pid == 0) {  // only to learn the choices
        redirect(g_scratchRoot + "/bytes.err");
        enterScratch("bytes");
        Source s;
        s.mode = Source::Bytes;
        s.data = reinterpret_cast<const uint8_t*>(d.data());
        s.dataLen = d.size();
        s.out = sl->choices;
        s.outCap = kMaxChoices;
        s.outLenShared = &sl->n;
        std::string msg;
        ::alarm(unsigned(p.opt.hang_s) + 1);
        runCase(p, s, msg);
        std::_Exit(0);
      }
      int st;
      ::waitpid(pid, &st, 0);
      std::vector<uint64_t> ch(sl->choices, sl->choices + sl->n);
      Outcome o = isolated(p, ch, p.opt.hang_s, sl);
      return bad(o) ? reportFailure(p, ch, o, sl, seed) : 0;
    }
  return 2;
}

static std::set<std::string> listedFindings() {
  std::set<std::string> r;
  const char* f = std::getenv("PBT_KNOWN");
  std::ifstream i(f ? f : "");
  std::string l;
  while (std::getline(i, l)) {
    std::istringstream is(l);
    std::string id;
    if (is >> id) r.insert(id);
  }
  return r;
}

static int runKnown(uint64_t) {
  std::set<std::string> listed = listedFindings();
  int rc = 0;
  for (auto& k : knownRegistry()) {
    int* flag = shared<int>(1);
    std::cout.flush();
    pid_t pid = ::fork();
    if (pid == 0) {
      ::setpgid(0, 0);
      ::prctl(PR_SET_PDEATHSIG, SIGKILL);
      redirect(g_scratchRoot + "/known.err");
      enterScratch("known");
      bool still;
      try { still = k.fn(); } catch (...) { still = true; }
      *flag = still ? 1 : 2;
      std::_Exit(0);
    }
    double t0 = now();
    int st;
    while (::waitpid(pid, &st, WNOHANG) != pid) {
      if (now() - t0 > 60) { ::kill(-pid, SIGKILL); ::waitpid(pid, &st, 0); break; }
      ::usleep(1000);
    }
    bool still = *flag != 2;
    if (!still) continue;
    if (listed.count(k.id)) std::cout << "KNOWN-FINDING: property=" << kProperty << " " << k.id << " " << k.what << std::endl;
    else {
      ::mkdir(g_replayDir.c_str(), 0755);
      std::string path = g_replayDir + "/" + kProperty + "-" + k.id + ".replay";
      std::ofstream(path.c_str()) << "property " << kProperty << "\nknown " << k.id << "\n# " << k.what << "\n";
      std::cout << "FAILED unlisted finding " << k.id << ": " << k.what << "\nVIOLATION property=" << kProperty << " replay=" << path << std::endl;
      rc = 1;
    }
  }
  return rc;
}

static int replay(const std::string& file) {
  std::ifstream f(file.c_str());
  std::string l, prop;
  std::vector<uint64_t> ch;
  while (std::getline(f, l)) {
    std::istringstream is(l);
    std::string k;
    is >> k;
    if (k == "prop") is >> prop;
    if (k == "choices") { uint64_t v; while (is >> v) ch.push_back(v); }
  }
  for (auto& p : registry())
    if (prop == p.name) {
      Slot* sl = shared<Slot>(1);
      int n = p.opt.schedule ? 20 : 3, nbad = 0;
      Outcome o;
      for (int i = 0; i < n; ++i) {
        o = isolated(p, ch, p.opt.hang_s, sl, true);
        nbad += bad(o);
        if (bad(o) && p.opt.schedule) break;
      }
      std::cout << kProperty << "/" << p.name << (nbad ? " FAILS " : " passes ") << nbad << "/" << n << "\n case: " << o.desc << "\n " << o.msg << std::endl;
      if (nbad) std::cout << "VIOLATION property=" << kProperty << " replay=" << file << std::endl;
      return nbad ? 1 : 0;
    }
  std::cerr << "no such prop: " << prop << "\n";
  return 2;
}

}  // namespace pbt

using namespace pbt;

#ifdef PBT_LIBFUZZER
static const Prop* g_fuzzProp = nullptr;
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  const char* n = std::getenv("PBT_FUZZ_PROP");
  for (auto& p : registry())
    if (n && std::string(n) == p.name) g_fuzzProp = &p;
  if (!g_fuzzProp) { std::fprintf(stderr, "PBT_FUZZ_PROP not set\n"); std::_Exit(2); }
  const char* root = std::getenv("PBT_SCRATCH");
  g_scratchRoot = root ? root : ".";
  enterScratch("fuzz" + std::to_string(::getpid()));
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static std::vector<uint64_t> out(kMaxChoices);
  Source s;
  s.mode = Source::Bytes;
  s.data = data;
  s.dataLen = size;
  s.out = out.data();
  s.outCap = out.size();
  std::string msg;
  int r = runCase(*g_fuzzProp, s, msg);
  if (r == 1) {
    const char* path = std::getenv("PBT_FUZZ_REPLAY");
    std::ofstream f(path ? path : "fuzz.replay");
    f << "property " << kProperty << "\nprop " << g_fuzzProp->name << "\nchoices";
    for (size_t i = 0; i < s.outLen; ++i) f << " " << out[i];
    f << "\nend\n# " << msg << "\n";
    f.close();
    std::fprintf(stderr, "PBT failure: %s\n", msg.c_str());
    std::abort();
  }
  return 0;
}
#else
static void cleanup() {
  if (::chdir("/") == 0) rmTree(g_scratchRoot);
}
static void onTerm(int) {
  ::kill(0, SIGKILL);
}

int main(int argc, char** argv) {
  double t0 = now();
  std::string only, replayFile, bytesProp, bytesFile;
  double scale = 1;
  const char* sd = std::getenv("VERIF_SEED");
  uint64_t seed = sd ? std::strtoull(sd, nullptr, 10) : 1;
  const char* tier = std::getenv("VERIF_TIER");
  g_thorough = tier && std::string(tier) == "thorough";
  double maxS = g_thorough ? 3000 : 240;
  if (const char* m = std::getenv("PBT_MAX_S")) maxS = std::atof(m);
  g_replayDir = "replays";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--only") only = val();
    else if (a == "--replay") replayFile = val();
    else if (a == "--bytes") { bytesProp = val(); bytesFile = val(); }
    else if (a == "--scale") scale = std::atof(val().c_str());
    else if (a == "--result") g_resultFile = val();
    else if (a == "--replay-dir") g_replayDir = val();
    else if (a == "--list") { for (auto& p : registry()) std::cout << p.name << " " << p.opt.fuzz << "\n"; return 0; }
  }
  char cwd[4096];
  if (::getcwd(cwd, sizeof cwd)) {
    auto abs = [&](std::string& s) { if (!s.empty() && s[0] != '/') s = std::string(cwd) + "/" + s; };
    abs(g_replayDir);
    abs(g_resultFile);
    abs(replayFile);
    abs(bytesFile);
  }
  const char* td = std::getenv("TMPDIR");
  std::string tmpl = std::string(td ? td : "/tmp") + "/pbt-scratch-XXXXXX";
  std::vector<char> buf(tmpl.begin(), tmpl.end());
  buf.push_back(0);
  if (!::mkdtemp(buf.data())) { std::perror("mkdtemp"); return 2; }
  g_scratchRoot = buf.data();
  std::atexit(cleanup);
  (void)onTerm;

  if (!replayFile.empty()) return replay(replayFile);
  if (!bytesProp.empty()) return fromBytes(bytesProp, bytesFile, seed);

  int rc = only.empty() ? runKnown(seed) : 0;
  uint64_t evals = 0, distinct = 0, discards = 0;
  std::ostringstream perProp, samples;
  bool firstP = true, firstS = true, truncated = false;
  for (auto& p : registry()) {
    if (!only.empty() && only != p.name) continue;
    uint64_t n = g_thorough ? p.thorough : p.quick;
    if (n == 0) continue;
    if (n > 1) n = std::max<uint64_t>(1, uint64_t(double(n) * scale));
    PropResult r;
    int c = runProp(p, seed, n, t0 + maxS, r);
    if (c) rc = 1;
    evals += r.evals;
    distinct += r.distinct.size();
    discards += r.discards;
    truncated |= r.truncated;
    std::cout << "  " << p.name << ": " << r.evals << "/" << r.planned << " cases, " << r.discards << " discarded, " << r.nontrivial
              << " non-trivial (" << r.distinct.size() << " distinct), " << r.wall << " s" << (c ? " FAILED" : "") << (r.truncated ? " truncated" : "");
    perProp << (firstP ? "" : ",") << "\n   " << jsonStr(p.name) << ": {\"evaluations\": " << r.evals << ", \"planned\": " << r.planned
            << ", \"discarded\": " << r.discards << ", \"distinct_nontrivial\": " << r.distinct.size() << ", \"classes\": {";
    firstP = false;
    bool f = true;
    for (auto& l : r.labels) {
      perProp << (f ? "" : ", ") << jsonStr(l.first) << ": " << l.second;
      std::cout << (f ? " [" : ", ") << l.first << " " << l.second;
      f = false;
    }
    if (!f) std::cout << "]";
    std::cout << std::endl;
    perProp << "}}";
    for (auto& s : r.samples) {
      samples << (firstS ? "" : ",") << "\n   " << jsonStr(std::string(p.name) + ": " + s);
      firstS = false;
    }
    if (c) break;
  }
  if (!g_resultFile.empty()) {
    std::ofstream f(g_resultFile.c_str());
    f << "{\"evaluations\": " << evals << ", \"distinct_nontrivial\": " << distinct << ", \"discarded\": " << discards
      << ", \"truncated\": " << (truncated ? "true" : "false") << ", \"rule\": " << jsonStr(kRule) << ",\n  \"samples\": [" << samples.str()
      << "],\n  \"per_check\": {" << perProp.str() << "}, \"violations\": " << (rc ? 1 : 0) << ", \"wall_s\": " << now() - t0 << "}\n";
  }
  return rc;
}
#endif
