// P31: the job queue runs every job exactly once and shuts down cleanly, under generated schedules.
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <vector>

#include <boost/bind.hpp>
#include <boost/thread.hpp>

#include <sm/boost/JobQueue.hpp>
#include "pbt.hpp"
#include "sched.hpp"

PBT_PROPERTY("P31", "a case is non-trivial when at least two threads ran, at least one switch between them was a preemption or a wait, "
                    "and at least one job was executed")

namespace {
enum JobKind { PlainJob, YieldJob, ThrowStd, ThrowInt, Spawn, StopJob, EmptyJob, LastReference };
struct JobSpec {
  JobKind kind = PlainJob;
  std::vector<int> children;
  bool future = false;
};
enum OpKind { Schedule, Start, Stop, Join, Wait, Empty, Yield };
struct Op {
  OpKind kind;
  int arg;
};
struct Script {
  std::vector<JobSpec> jobs;
  std::vector<Op> main;
  std::vector<std::vector<Op>> others;
};

struct Info {
  int calls = 0, callAt = -1, returnedAt = -1, startedAt = -1, ended = 0, starts = 0;
};
/// what happened, seen from outside; all access between Quiet brackets
struct World {
  const Script* script = nullptr;
  sm::JobQueue* q = nullptr;
  std::vector<Info> info;
  std::vector<boost::unique_future<int>> futures;
  std::vector<bool> hasFuture;
  int clock = 0, running = 0, started = 0, executed = 0;
  int workers = 0;          // threads that will ever serve the queue
  bool startCalled = false, stopped = false, gone = false;
  int startsAfterStop = 0;
  std::shared_ptr<int> token = std::make_shared<int>(0);
} W;

void stopReturned() {
  sched::Quiet q;
  W.stopped = true;
}
void schedule(int id);

struct Fn {
  int id;
  std::shared_ptr<int> token;
  std::shared_ptr<void> onEnd;
  int operator()() const {
    {
      sched::Quiet quiet;
      Info& i = W.info[size_t(id)];
      ++i.starts;
      i.startedAt = W.clock++;
      ++W.running;
      ++W.started;
      if (W.gone) sched::bad("job " + std::to_string(id) + " runs after all workers were reported to have ended");
      if (i.starts > 1) sched::bad("job " + std::to_string(id) + " was executed more than once");
      if (W.running > W.workers) sched::bad("more jobs run at a time than there are workers");
      // at most one per worker can have been taken off the queue before the stop
      if (W.stopped && ++W.startsAfterStop > W.workers) sched::bad("jobs are still begun after the queue was stopped");
    }
    struct End {
      int id;
      ~End() {
        sched::Quiet quiet;
        ++W.info[size_t(id)].ended;
        --W.running;
        ++W.executed;
        W.clock++;
      }
    } end{id};
    const JobSpec& j = W.script->jobs[size_t(id)];
    switch (j.kind) {
      case PlainJob: break;
      case YieldJob: sched::point(); boost::this_thread::yield(); break;
      case ThrowStd: throw std::runtime_error("job");
      case ThrowInt: throw 42;
      case Spawn: for (int c : j.children) schedule(c); break;
      case StopJob: W.q->stop(); stopReturned(); break;
      case EmptyJob: W.q->empty(); break;
      case LastReference: break;
    }
    return 100 + id;
  }
};
struct VoidFn {
  Fn f;
  void operator()() const { f(); }
};

void schedule(int id) {
  Info& i = W.info[size_t(id)];
  boost::function<int()> fi;
  boost::function<void()> fv;
  {
    sched::Quiet quiet;
    ++i.calls;
    i.callAt = W.clock++;
    std::shared_ptr<void> onEnd;
    // an executed job that uses the queue when its last reference goes
    if (W.script->jobs[size_t(id)].kind == LastReference)
      onEnd = std::shared_ptr<void>(nullptr, [id](void*) { if (W.info[size_t(id)].ended && W.q) W.q->empty(); });
    if (W.script->jobs[size_t(id)].future) fi = Fn{id, W.token, onEnd};
    else fv = VoidFn{Fn{id, W.token, onEnd}};
  }
  if (W.script->jobs[size_t(id)].future) {
    W.q->scheduleFuture<int>(fi, W.futures[size_t(id)]);
    sched::Quiet quiet;
    W.hasFuture[size_t(id)] = true;
  } else {
    W.q->scheduleWork(fv);
  }
  sched::Quiet quiet;
  i.returnedAt = W.clock++;
  fi.clear();
  fv.clear();
}

bool throws(JobKind k) { return k == ThrowStd || k == ThrowInt; }

/// everything that was scheduled before, and what that scheduled in turn, has ended
void checkDone(const std::vector<int>& ids) {
  for (int id : ids) {
    const Info& i = W.info[size_t(id)];
    if (i.ended != 1) sched::bad("waitForEmptyQueue returned although job " + std::to_string(id) + (i.starts ? " is still running" : " has not been executed"));
    if (W.script->jobs[size_t(id)].kind == Spawn) checkDone(W.script->jobs[size_t(id)].children);
  }
}

void perform(const Op& o) {
  switch (o.kind) {
    case Schedule: schedule(o.arg); break;
    case Start: {
      {
        sched::Quiet quiet;
        if (!W.startCalled) W.workers = o.arg;
        W.startCalled = true;
      }
      W.q->start(o.arg);
      break;
    }
    case Stop: W.q->stop(); stopReturned(); break;
    case Join: {
      W.q->join();
      sched::Quiet quiet;
      W.stopped = true;
      if (W.running) sched::bad("join returned while a job was running");
      W.gone = true;
      break;
    }
    case Wait: {
      std::vector<int> before;
      {
        sched::Quiet quiet;
        for (size_t k = 0; k < W.info.size(); ++k) if (W.info[k].returnedAt >= 0) before.push_back(int(k));
      }
      W.q->waitForEmptyQueue();
      sched::Quiet quiet;
      checkDone(before);
      break;
    }
    case Empty: {
      bool certain = false, queued = false;
      {
        sched::Quiet quiet;
        // only this thread schedules and nobody takes jobs away
        certain = W.script->others.empty() && (!W.startCalled || W.gone);
        for (const Info& i : W.info) queued = queued || (i.returnedAt >= 0 && !i.starts);
      }
      const bool e = W.q->empty();
      if (certain && e == queued) sched::bad(e ? "the queue reports to be empty although a job is queued" : "the queue reports to be filled although no job is queued");
      break;
    }
    case Yield: sched::point(); break;
  }
}

void runOps(const std::vector<Op>* ops) {
  for (const Op& o : *ops) perform(o);
}

std::string text(const Script& sc) {
  const char* const jk[] = {"plain", "yields", "throws std", "throws int", "schedules", "stops", "asks empty", "uses the queue when destroyed"};
  const char* const ok[] = {"schedule", "start", "stop", "join", "wait", "empty", "yield"};
  std::ostringstream os;
  for (size_t k = 0; k < sc.jobs.size(); ++k) {
    os << "job " << k << " " << jk[sc.jobs[k].kind];
    for (int c : sc.jobs[k].children) os << " " << c;
    os << (sc.jobs[k].future ? " (future)" : "") << ", ";
  }
  auto ops = [&](const std::vector<Op>& v) {
    for (const Op& o : v) {
      os << ok[o.kind];
      if (o.kind == Schedule || o.kind == Start) os << " " << o.arg;
      os << ", ";
    }
  };
  os << "main: ";
  ops(sc.main);
  for (auto& t : sc.others) { os << "| thread: "; ops(t); }
  return os.str();
}

/// how freely the life cycle is exercised
enum Mode { Complete, Lifecycle };

Script generate(pbt::Source& s, Mode mode) {
  Script sc;
  const bool stopping = mode == Lifecycle;
  std::vector<int> roots;
  std::function<int(int)> job = [&](int depth) {
    JobSpec j;
    switch (s.below(stopping ? 10 : 9)) {
      default: j.kind = PlainJob; break;
      case 2: case 3: j.kind = YieldJob; break;
      case 4: j.kind = ThrowStd; break;
      case 5: j.kind = ThrowInt; break;
      case 6: j.kind = depth < 2 ? Spawn : PlainJob; break;
      case 7: j.kind = EmptyJob; break;
      case 8: j.kind = LastReference; break;
      case 9: j.kind = s.chance(1, 3) ? StopJob : PlainJob; break;
    }
    j.future = s.chance(1, 5);
    const int id = int(sc.jobs.size());
    sc.jobs.push_back(j);
    if (j.kind == Spawn) {
      std::vector<int> c;
      for (size_t k = s.size(1, 2); k > 0; --k) c.push_back(job(depth + 1));
      sc.jobs[size_t(id)].children = c;
    }
    return id;
  };
  const bool big = s.chance(1, 12);  // now and then many workers and many jobs
  const int workers = mode == Complete ? int(s.size(1, big ? 8 : 3)) : int(s.chance(1, 10) ? 0 : s.size(1, big ? 8 : 3));
  const size_t nOthers = s.pick({size_t(0), size_t(0), size_t(1), size_t(2)});
  auto fill = [&](std::vector<Op>& v, size_t n) {
    for (size_t k = 0; k < n; ++k) {
      switch (s.below(stopping ? 17 : 8)) {
        default: v.push_back(Op{Schedule, job(0)}); break;
        case 4: v.push_back(Op{Yield, 0}); break;
        case 5: v.push_back(Op{Empty, 0}); break;
        case 6: if (!stopping) v.push_back(Op{Wait, 0}); break;
        case 8: v.push_back(Op{Stop, 0}); break;
        case 9: v.push_back(Op{Join, 0}); break;
        case 10: case 11: case 12: v.push_back(Op{Yield, 0}); break;
      }
    }
  };
  std::vector<Op> before, after;
  if (mode == Complete) {
    // nothing may wait before the start
    for (size_t k = s.size(0, big ? 20 : 3); k > 0; --k) before.push_back(Op{Schedule, job(0)});
    fill(after, s.size(0, big ? 40 : 6));
    sc.main = before;
    sc.main.push_back(Op{Start, workers});
    sc.main.insert(sc.main.end(), after.begin(), after.end());
    if (s.chance(1, 6)) sc.main.push_back(Op{Start, int(s.size(1, 3))});  // ignored: it is running
  } else {
    fill(sc.main, s.size(0, big ? 40 : 7));
    if (s.chance(7, 8)) sc.main.insert(sc.main.begin() + int64_t(s.below(s.flip() ? 1 : sc.main.size() + 1)), Op{Start, workers});
  }
  for (size_t t = 0; t < nOthers; ++t) {
    std::vector<Op> v;
    fill(v, s.size(1, big ? 12 : 4));
    sc.others.push_back(v);
  }
  return sc;
}

/// runs the script; the queue is destroyed at the end
sched::Stats execute(const Script& sc, const sched::Plan& plan, bool complete) {
  W = World();
  W.script = &sc;
  W.info.resize(sc.jobs.size());
  W.futures.resize(sc.jobs.size());
  W.hasFuture.resize(sc.jobs.size());
  sched::Stats st = sched::run(plan, [&]() {
    std::unique_ptr<sm::JobQueue> q(new sm::JobQueue());
    W.q = q.get();
    std::vector<std::unique_ptr<boost::thread>> threads;
    // helpers begin before the main script goes on, so that they see the queue in any state; in a complete run
    // they may wait for the queue only once it has been started
    size_t at = 0;
    if (complete)
      while (at < sc.main.size()) {
        perform(sc.main[at]);
        if (sc.main[at++].kind == Start) break;
      }
    for (auto& o : sc.others) threads.emplace_back(new boost::thread(boost::bind(&runOps, &o)));
    for (; at < sc.main.size(); ++at) perform(sc.main[at]);
    for (auto& t : threads) t->join();
    if (complete) {
      W.q->waitForEmptyQueue();
      sched::Quiet quiet;
      for (size_t k = 0; k < W.info.size(); ++k) {
        const Info& i = W.info[k];
        if (i.calls && i.ended != 1) sched::bad("job " + std::to_string(k) + (i.starts ? " still runs" : " was not executed") + " when the queue was reported empty");
      }
      if (W.running) sched::bad("a job runs although the queue was reported empty");
    }
    if (complete && !q->empty()) sched::bad("the queue is not empty after waiting for it");
    q.reset();
    sched::Quiet quiet;
    if (W.running) sched::bad("the destructor returned while a job was running");
    W.gone = true;
    W.q = nullptr;
    // futures of executed jobs carry the result or the exception, the others are abandoned, not pending forever
    for (size_t k = 0; k < sc.jobs.size(); ++k) {
      if (!W.hasFuture[k]) continue;
      if (!W.futures[k].is_ready()) sched::bad("the future of job " + std::to_string(k) + " is still pending after the queue was destroyed");
      int got = -1;
      bool threw = false;
      try {
        got = W.futures[k].get();
      } catch (...) {
        threw = true;
      }
      const bool wantThrow = !W.info[k].ended || throws(sc.jobs[k].kind);
      if (threw != wantThrow) sched::bad("the future of job " + std::to_string(k) + (threw ? " holds an exception" : " holds a value"));
      if (!threw && got != 100 + int(k)) sched::bad("the future of job " + std::to_string(k) + " holds another value");
    }
    W.futures.clear();
    if (W.token.use_count() != 1) sched::bad("a job object is still alive after the queue was destroyed");
  });
  // one worker: jobs begin in the order in which they were scheduled
  if (W.workers == 1)
    for (size_t a = 0; a < W.info.size(); ++a)
      for (size_t b = 0; b < W.info.size(); ++b) {
        const Info &x = W.info[a], &y = W.info[b];
        if (x.returnedAt < 0 || y.callAt < 0 || !(x.returnedAt < y.callAt) || !y.starts) continue;
        PBT_CHECK(x.starts && x.startedAt < y.startedAt, "job " << b << " was executed before job " << a << " which was scheduled earlier");
      }
  return st;
}
/// one ordinary run first, so that no case of a process is special because something is initialised on first use
void warmUp() {
  static bool warm = false;
  if (warm) return;
  warm = true;
  Script sc;
  for (JobKind k : {PlainJob, YieldJob, ThrowStd, ThrowInt, EmptyJob}) {
    JobSpec j;
    j.kind = k;
    for (int f = 0; f < 2; ++f) {
      j.future = f != 0;
      sc.main.push_back(Op{Schedule, int(sc.jobs.size())});
      sc.jobs.push_back(j);
    }
  }
  sc.main.insert(sc.main.begin(), Op{Start, 2});
  sc.others.push_back(std::vector<Op>(2, Op{Yield, 0}));
  sched::Plan p;
  p.walk = true;
  p.syncRate = 2;
  execute(sc, p, true);
}
void verdict(pbt::Source& s, const sched::Stats& st) {
  if (st.threads >= 2 && st.preempted + st.blocked > 0 && W.executed > 0) s.nontrivial();
  if (st.preempted) s.label("preempted");
}
}  // namespace

// no stop: every job is executed exactly once, waiting works
PBT(all_jobs, 80000, 1500000) {
  warmUp();
  const Script sc = generate(s, Complete);
  const sched::Plan plan = sched::draw(s, 120);
  PBT_NOTE(s, text(sc) << plan.text());
  verdict(s, execute(sc, plan, true));
}

// stop, join and destruction at any moment
PBT(life_cycle, 120000, 2500000) {
  warmUp();
  const Script sc = generate(s, Lifecycle);
  const sched::Plan plan = sched::draw(s, 80);
  PBT_NOTE(s, text(sc) << plan.text());
  verdict(s, execute(sc, plan, false));
}
