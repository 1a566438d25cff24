#include "sim_rt.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <iostream>
#include <linux/futex.h>
#include <malloc.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>

extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void __libc_free(void *);

static inline long raw_sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8")   = e;
  register long r9 __asm__("r9")   = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

template <class F> static F real(const char *name)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(ret, name, ...)                                                                       \
  static ret (*real_##name)(__VA_ARGS__) = nullptr;                                                \
  if (!real_##name) real_##name = real<ret (*)(__VA_ARGS__)>(#name)

namespace sim
{
__thread int tl_out = 0; // >0: harness code
static __thread int tl_tid = -1;
Outside::Outside() { ++tl_out; }
Outside::~Outside() { --tl_out; }

static int g_result_fd = -1;
static std::function<json()> g_crash_report;
void set_crash_report(std::function<json()> f) { g_crash_report = std::move(f); }

uint64_t hash_bytes(const void *p, size_t n, uint64_t h)
{
  auto b = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i)
  {
    h ^= b[i];
    h *= 1099511628211ull;
  }
  return h;
}
std::string hex(uint64_t v)
{
  char b[32];
  snprintf(b, sizeof b, "%016llx", (unsigned long long)v);
  return b;
}

// ------------------------------------------------------------------ results
static void emit(const json &j)
{
  std::string s = j.dump(-1, ' ', false, json::error_handler_t::replace);
  size_t o      = 0;
  while (o < s.size())
  {
    long r = raw_sys(SYS_write, g_result_fd, (long)(s.data() + o), (long)(s.size() - o));
    if (r <= 0) break;
    o += (size_t)r;
  }
}
void finish(const json &result)
{
  ++tl_out;
  emit(result);
  raw_sys(SYS_exit_group, 0);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ scheduler
enum State
{
  RUN,
  BLK,
  DONE
};
struct Th
{
  int id      = 0;
  int slot    = 0;
  pthread_t pt{};
  std::atomic<int> go{0};
  State st       = RUN;
  const void *ob = nullptr; // what it waits for
  char why       = 0;
  bool timed     = false, timed_out = false, detached = false, reaped = false;
  int64_t wake   = 0;
  void *(*fn)(void *) = nullptr;
  void *arg           = nullptr;
  void *ret           = nullptr;
  VC vc{};
  int64_t prio      = 0;
  uint64_t stall_to = 0;
};
struct Mtx
{
  int owner = -1;
  int count = 0;
  int readers = 0;
};
struct Sched
{
  bool on = false;
  std::string mode;
  Rng rng;
  double psync = 0.3;
  uint64_t gap = 0;
  std::vector<std::unique_ptr<Th>> th;
  int live = 0; // not DONE
  std::vector<int> free_slots;
  uint64_t budget = 0;
  std::map<uint64_t, int> replay;
  std::vector<std::pair<uint64_t, int>> decisions;
  std::vector<uint64_t> change;
  size_t nchange = 0;
  int64_t lowprio = 0;
  uint64_t hash = 1469598103934665603ull;
  uint64_t switches = 0, preempts = 0, forced = 0, stalls = 0, created = 0, locks = 0, contended = 0, last_switch = 0;
  std::unordered_map<const void *, Mtx> mtx;
  std::unordered_map<uintptr_t, VC> vcs;
  VC done_vc{}; // joined into new threads: stacks of finished threads are reused
  json races = json::array();
  bool fail_on_race = true;
};
static Sched *S = nullptr;
volatile bool g_threads_live = false;
volatile bool g_rt_busy      = false;
uint64_t g_clk = 0, g_next_preempt = ~0ull;

bool sched_active() { return S && S->on; }
int sched_tid() { return tl_tid; }
uint64_t sched_clock() { return g_clk; }
static Th &me() { return *S->th[(size_t)tl_tid]; }
int my_slot() { return me().slot; }
VC &my_vc() { return me().vc; }

static void park(Th &t)
{
  while (t.go.load(std::memory_order_acquire) == 0)
    raw_sys(SYS_futex, (long)&t.go, FUTEX_WAIT_PRIVATE, 0, 0);
  t.go.store(0, std::memory_order_relaxed);
}
static void unpark(Th &t)
{
  t.go.store(1, std::memory_order_release);
  raw_sys(SYS_futex, (long)&t.go, FUTEX_WAKE_PRIVATE, 1);
}

struct Env
{
  bool on = false;
  // clock
  int64_t real0 = 1700000000ll * 1000000000ll, mono = 1000000000ll, step = 1000, off = 0;
  uint64_t reads = 0;
  std::vector<std::pair<uint64_t, int64_t>> jumps;
  // rand
  uint64_t rstate = 1;
  int rconst      = -2; // -2 off
  uint64_t nrand  = 0, nsrand = 0, ndev = 0;
  Rng dev;
  // memory
  int poison      = -1;
  int stack       = -1; // what dead stack holds
  uint64_t allocs = 0, fail_at = 0, fail_len = 1, failed = 0, crash_at = 0;
  uint64_t alloc_budget = 0;
  bool want_sites       = false;
  // threads
  uint64_t tcreates = 0, tfail_at = 0, tfailed = 0, tfail_len = 1;
};
static Env E;
static uint64_t g_io_n = 0;

static json base_report();
[[noreturn]] static void end_run(json r)
{
  ++tl_out;
  r["rt"] = base_report();
  emit(r);
  raw_sys(SYS_exit_group, 0);
  __builtin_unreachable();
}
void violation(const std::string &kind, const std::string &detail)
{
  ++tl_out;
  end_run({{"status", "violation"}, {"kind", kind}, {"detail", detail}});
}

static void schedule_replay_hint() {}

static std::vector<int> runnable()
{
  std::vector<int> r;
  for (auto &t : S->th)
    if (t->st == RUN && t->stall_to <= g_clk) r.push_back(t->id);
  if (r.empty())
    for (auto &t : S->th)
      if (t->st == RUN) r.push_back(t->id);
  return r;
}
static void next_gap()
{
  if (S->mode == "replay")
  {
    auto it        = S->replay.upper_bound(g_clk);
    g_next_preempt = it == S->replay.end() ? ~0ull : it->first;
  }
  else if (S->mode == "pct")
  {
    while (S->nchange < S->change.size() && S->change[S->nchange] <= g_clk)
      ++S->nchange;
    g_next_preempt = S->nchange < S->change.size() ? S->change[S->nchange] : ~0ull;
  }
  else if ((S->mode == "rw" || S->mode == "stall") && S->gap)
    g_next_preempt = g_clk + 1 + S->rng.below(2 * S->gap);
  else
    g_next_preempt = ~0ull;
  uint64_t lim = g_clk + 5000000;
  if (g_next_preempt > lim) g_next_preempt = lim; // bounds: budget and fairness checks
}
static void record(int chosen, int dflt)
{
  S->hash = hash_bytes(&g_clk, 8, S->hash);
  S->hash = hash_bytes(&chosen, 4, S->hash);
  if (chosen != dflt && S->decisions.size() < 200000) S->decisions.emplace_back(g_clk, chosen);
}
// choose the next thread among the runnable ones; cur==-1: the caller blocks
static int pick(int cur, bool voluntary, bool at_preempt)
{
  auto r = runnable();
  if (r.empty()) return -1;
  bool cur_ok = cur >= 0 && std::find(r.begin(), r.end(), cur) != r.end();
  int dflt    = cur_ok ? cur : r[0];
  int ch      = dflt;
  if (r.size() > 1 || !cur_ok)
  {
    if (S->mode == "replay")
    {
      auto it = S->replay.find(g_clk);
      if (it != S->replay.end() && std::find(r.begin(), r.end(), it->second) != r.end()) ch = it->second;
    }
    else if (S->mode == "pct")
    {
      if (at_preempt && cur_ok) S->th[(size_t)cur]->prio = --S->lowprio;
      for (int t : r)
        if (S->th[(size_t)t]->prio > S->th[(size_t)ch]->prio) ch = t;
    }
    else if (S->mode == "rw" || S->mode == "stall")
    {
      if (!cur_ok || at_preempt || (voluntary && S->rng.unit() < S->psync)) ch = r[S->rng.below(r.size())];
      if (S->mode == "stall" && S->rng.unit() < 0.05 && r.size() > 1)
      { // a slow worker: not scheduled again for a long stretch
        auto &v    = *S->th[(size_t)r[S->rng.below(r.size())]];
        v.stall_to = g_clk + 1000 + S->rng.below(3000000);
        ++S->stalls;
        if (v.id == ch)
          for (int t : r)
            if (t != v.id)
            {
              ch = t;
              break;
            }
      }
    }
    // fairness: nobody may spin for ever without others making progress
    if (ch == cur && g_clk - S->last_switch > 40000000 && r.size() > 1)
      ch = r[(size_t)(std::find(r.begin(), r.end(), cur) - r.begin() + 1) % r.size()];
  }
  record(ch, dflt);
  return ch;
}
static int64_t now_mono() { return E.mono + (int64_t)E.reads * E.step; }
static void wake_timed()
{
  int64_t best = INT64_MAX;
  for (auto &t : S->th)
    if (t->st == BLK && t->timed && t->wake < best) best = t->wake;
  if (best == INT64_MAX)
  {
    std::string d;
    for (auto &t : S->th)
      if (t->st != DONE) d += " t" + std::to_string(t->id) + ":" + t->why;
    violation("deadlock", "every live thread waits for ever:" + d);
  }
  if (best > now_mono()) E.mono += best - now_mono();
  for (auto &t : S->th)
    if (t->st == BLK && t->timed && t->wake <= now_mono())
    {
      t->st        = RUN;
      t->timed_out = true;
    }
}
static void go_to(int t)
{
  if (t == tl_tid) return;
  ++S->switches;
  S->last_switch = g_clk;
  Th &m          = me();
  unpark(*S->th[(size_t)t]);
  park(m);
}
static void check_budget()
{
  if (S->budget && g_clk > S->budget) violation("no-termination", "more than " + std::to_string(S->budget) + " simulated steps");
}
static void update_live()
{
  S->live = 0;
  for (auto &t : S->th)
    if (t->st != DONE) ++S->live;
  g_threads_live = S->on && S->live > 1;
}
void sync_point(const char *)
{
  if (!sched_active() || tl_out || tl_tid < 0) return;
  Outside o;
  ++g_clk;
  check_budget();
  if (S->live < 2) return;
  bool atp = g_clk >= g_next_preempt;
  int t    = pick(tl_tid, true, atp);
  if (atp) next_gap();
  go_to(t);
}
void access_preempt()
{
  Outside o;
  check_budget();
  ++S->preempts;
  int t = pick(tl_tid, false, true);
  next_gap();
  go_to(t);
}
static void block(const void *ob, char why, bool timed = false, int64_t wake = 0)
{
  Th &m       = me();
  m.st        = BLK;
  m.ob        = ob;
  m.why       = why;
  m.timed     = timed;
  m.wake      = wake;
  m.timed_out = false;
  ++g_clk;
  ++S->forced;
  check_budget();
  int t;
  while ((t = pick(-1, false, false)) < 0)
    wake_timed();
  if (g_clk >= g_next_preempt) next_gap();
  if (t != m.id) go_to(t);
  m.timed = false;
}
static void wake_all(const void *ob, char why)
{
  for (auto &t : S->th)
    if (t->st == BLK && t->ob == ob && t->why == why) t->st = RUN;
}
void vc_acquire(uintptr_t obj)
{
  auto it = S->vcs.find(obj);
  if (it == S->vcs.end()) return;
  auto &v = my_vc();
  for (int i = 0; i < MAXT; ++i)
    if (it->second.c[i] > v.c[i]) v.c[i] = it->second.c[i];
}
void vc_release(uintptr_t obj)
{
  auto &d = S->vcs[obj];
  auto &v = my_vc();
  for (int i = 0; i < MAXT; ++i)
    if (v.c[i] > d.c[i]) d.c[i] = v.c[i];
  ++v.c[my_slot()];
}

static pthread_key_t g_key;
static void thread_end(void *)
{
  Outside o;
  if (!S || tl_tid < 0) return;
  Th &m = me();
  vc_release((uintptr_t)&m);
  for (int i = 0; i < MAXT; ++i)
    S->done_vc.c[i] = std::max(S->done_vc.c[i], m.vc.c[i]);
  m.st = DONE;
  S->free_slots.push_back(m.slot);
  wake_all(&m, 'j');
  update_live();
  ++g_clk;
  if (!S->on) return;
  int t;
  while ((t = pick(-1, false, false)) < 0)
    wake_timed();
  ++S->switches;
  unpark(*S->th[(size_t)t]);
}
static void *trampoline(void *p)
{
  Th *t  = static_cast<Th *>(p);
  tl_tid = t->id;
  tl_out = 1;
  pthread_setspecific(g_key, t);
  park(*t);
  tl_out = 0;
  void *r = t->fn(t->arg);
  tl_out  = 0;
  return r;
}

void sched_begin(const json &plan)
{
  Outside o;
  static Sched store;
  S = &store;
  const json sc = plan.value("sched", json::object());
  S->mode       = sc.value("mode", std::string("seq"));
  S->rng        = Rng(sc.value("seed", (uint64_t)1));
  S->psync      = sc.value("psync", 0.3);
  S->gap        = sc.value("gap", (uint64_t)0);
  S->budget     = sc.value("budget", (uint64_t)2000000000ull);
  S->fail_on_race = sc.value("races", std::string("fail")) == "fail";
  if (sc.contains("decisions"))
    for (auto &d : sc["decisions"])
      S->replay[d[0].get<uint64_t>()] = d[1].get<int>();
  if (S->mode == "pct")
  {
    uint64_t len = sc.value("len", (uint64_t)1000000);
    for (int i = 0; i < sc.value("depth", 3); ++i)
      S->change.push_back(1 + S->rng.below(len));
    std::sort(S->change.begin(), S->change.end());
  }
  auto t = std::make_unique<Th>();
  t->id = 0;
  t->slot = 0;
  t->vc.c[0] = 1;
  t->prio = (int64_t)S->rng.below(1000000) + 1;
  S->th.push_back(std::move(t));
  for (int i = MAXT - 1; i > 0; --i)
    S->free_slots.push_back(i);
  pthread_key_create(&g_key, thread_end);
  tl_tid = 0;
  g_clk  = 0;
  S->on  = true;
  update_live();
  next_gap();
}
static json sched_stats()
{
  json j;
  if (!S) return j;
  j["steps"]     = g_clk;
  j["switches"]  = S->switches;
  j["preempts"]  = S->preempts;
  j["blocked"]   = S->forced;
  j["stalls"]    = S->stalls;
  j["threads"]   = S->created;
  j["locks"]     = S->locks;
  j["contended"] = S->contended;
  j["hash"]      = hex(S->hash);
  json d         = json::array();
  for (auto &x : S->decisions)
    d.push_back({x.first, x.second});
  j["decisions"] = d;
  j["races"]     = S->races;
  return j;
}
json sched_end()
{
  Outside o;
  int live = 0;
  for (auto &t : S->th)
    if (t->st != DONE && !t->detached) ++live;
  if (live > 1) violation("leaked-thread", "a worker thread outlives the call that started it");
  S->on          = false;
  g_threads_live = false;
  return sched_stats();
}
void race_report(uintptr_t addr, int t1, int t2, uintptr_t pc1, uintptr_t pc2, bool w1, bool w2)
{
  Outside o;
  auto sym = [](uintptr_t pc) -> std::string
  {
    Dl_info di;
    if (pc && dladdr((void *)pc, &di) && di.dli_sname)
    {
      int st;
      char *d       = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
      std::string r = d ? d : di.dli_sname;
      free(d);
      if (r.size() > 160) r = r.substr(0, 160);
      return r;
    }
    return "?";
  };
  (void)addr;
  json r = {{"threads", {t1, t2}}, {"writes", {w1, w2}}, {"at", sym(pc1)}, {"other", sym(pc2)}};
  if (S->races.size() < 20) S->races.push_back(r);
  if (S->fail_on_race) violation("data-race", r.dump());
}

// ------------------------------------------------------------------ environment
void env_begin(const json &plan)
{
  Outside o;
  const json e = plan.value("env", json::object());
  if (e.contains("clock"))
  {
    auto &c = e["clock"];
    E.real0 = c.value("start", (int64_t)1700000000) * 1000000000ll;
    E.step  = c.value("step", (int64_t)1000);
    if (c.contains("jumps"))
      for (auto &x : c["jumps"])
        E.jumps.emplace_back(x[0].get<uint64_t>(), x[1].get<int64_t>());
  }
  if (e.contains("rand"))
  {
    E.rconst = e["rand"].value("const", -2);
    E.dev    = Rng(e["rand"].value("seed", (uint64_t)7));
  }
  E.poison       = e.value("poison", -1);
  E.stack        = e.value("stack", -1);
  E.fail_at      = e.value("alloc_fail", (uint64_t)0);
  E.fail_len     = e.value("alloc_fail_len", (uint64_t)1);
  E.crash_at     = e.value("crash_alloc", (uint64_t)0);
  E.alloc_budget = e.value("alloc_budget", (uint64_t)0);
  E.want_sites   = e.value("sites", false);
  E.tfail_at     = e.value("thread_fail", (uint64_t)0);
  E.tfail_len    = e.value("thread_fail_len", (uint64_t)1);
  E.allocs       = 0;
  E.on           = true;
}
// where in the program allocations happen: first, last and number for each
// combination of caller and size
struct Site
{
  uint64_t key = 0, first = 0, last = 0, count = 0;
};
static Site g_sites[1 << 14];
static thread_local void *tl_site = nullptr;
static void note_site(void *ra, size_t n)
{
  uint64_t k = ((uint64_t)ra * 0x9E3779B97F4A7C15ull) ^ (n * 0xBF58476D1CE4E5B9ull);
  if (!k) k = 1;
  for (uint64_t i = k >> 50, tries = 0; tries < 64; ++tries, ++i)
  {
    Site &x = g_sites[i & ((1 << 14) - 1)];
    if (x.key && x.key != k) continue;
    if (!x.key)
    {
      x.key   = k;
      x.first = E.allocs;
    }
    x.last = E.allocs;
    ++x.count;
    return;
  }
}
static std::vector<uint64_t> g_ioallocs; // allocations before each I/O operation
static json sites()
{
  std::vector<std::pair<uint64_t, uint64_t>> v;
  for (auto &x : g_sites)
    if (x.key) v.push_back({x.first, x.last});
  std::sort(v.begin(), v.end());
  json j = json::array();
  for (auto &x : v)
    j.push_back({x.first, x.second});
  return j;
}
static json env_stats()
{
  return {{"allocs", E.allocs},
          {"alloc_failed", E.failed},
          {"clock_reads", E.reads},
          {"rand", E.nrand},
          {"srand", E.nsrand},
          {"random_device", E.ndev},
          {"thread_creates", E.tcreates},
          {"thread_failed", E.tfailed},
          {"sim_ns", now_mono() + E.off}};
}
json env_end()
{
  Outside o;
  E.on = false;
  return env_stats();
}

// ------------------------------------------------------------------ files
struct VFile
{
  std::string path;
  size_t pos  = 0;
  bool append = false, rd = false, wr = false;
};
struct IoFault
{
  std::string kind;
  int64_t arg = 0;
  bool used   = false;
};
static std::map<std::string, std::shared_ptr<std::string>> *g_files = nullptr;
struct Open
{
  VFile f;
  std::shared_ptr<std::string> data;
};
static std::map<int, Open> *g_open = nullptr;
static std::map<uint64_t, IoFault> *g_faults = nullptr;
static int64_t g_cap = -1;
static json *g_trace = nullptr;
static bool g_want_trace = false, g_want_snaps = false;
static json *g_snaps = nullptr;
struct IoRule
{
  std::string op, path;
  uint64_t from = 0, to = 0, step = 1, seen = 0; // counted in operations this rule matches
  IoFault f;
};
static std::vector<IoRule> *g_rules = nullptr;
static std::map<std::string, uint64_t> *g_iofired = nullptr;
static bool g_io_on = false;
static json *g_marks = nullptr;
static uint64_t g_io_budget = 0;

static bool is_sim(const char *p) { return g_io_on && p && !strncmp(p, "/sim/", 5); }
void vfs_put(const std::string &path, const std::string &data)
{
  Outside o;
  if (!g_files) g_files = new std::map<std::string, std::shared_ptr<std::string>>;
  (*g_files)[path] = std::make_shared<std::string>(data);
}
bool vfs_has(const std::string &p) { return g_files && g_files->count(p); }
std::string vfs_get(const std::string &p) { return vfs_has(p) ? *(*g_files)[p] : std::string(); }
json vfs_dump()
{
  Outside o;
  json j = json::object();
  if (g_files)
    for (auto &f : *g_files)
      j[f.first] = *f.second;
  return j;
}
json vfs_trace()
{
  Outside o;
  return g_trace ? *g_trace : json::array();
}
void io_begin(const json &plan)
{
  Outside o;
  if (!g_files) g_files = new std::map<std::string, std::shared_ptr<std::string>>;
  if (!g_open) g_open = new std::map<int, Open>;
  g_faults  = new std::map<uint64_t, IoFault>;
  g_trace   = new json(json::array());
  g_iofired = new std::map<std::string, uint64_t>;
  if (!g_marks) g_marks = new json(json::array());
  const json io = plan.value("io", json::object());
  g_cap         = io.value("cap", (int64_t)-1);
  g_io_budget   = io.value("budget", (uint64_t)2000000);
  if (io.contains("faults"))
    for (auto &f : io["faults"])
      (*g_faults)[f["n"].get<uint64_t>()] = IoFault{f["kind"].get<std::string>(), f.value("arg", (int64_t)0), false};
  g_rules      = new std::vector<IoRule>;
  g_want_trace = io.value("trace", false);
  g_want_snaps = io.value("snaps", false);
  if (io.contains("rules"))
    for (auto &r : io["rules"])
    {
      IoRule x;
      x.op     = r["op"];
      x.path   = r.value("path", "");
      x.from   = r.value("from", (uint64_t)1);
      x.to     = r.value("to", ~(uint64_t)0);
      x.step   = r.value("step", (uint64_t)1);
      x.f.kind = r["kind"];
      x.f.arg  = r.value("arg", (int64_t)0);
      g_rules->push_back(x);
    }
  g_io_n  = 0;
  g_io_on = true;
}
json io_stats()
{
  Outside o;
  json j;
  j["ops"]   = g_io_n;
  j["fired"] = json::object();
  if (g_iofired)
    for (auto &x : *g_iofired)
      j["fired"][x.first] = x.second;
  return j;
}
static void snap()
{
  if (!g_snaps) g_snaps = new json(json::array());
  json j = json::object();
  if (g_files)
    for (auto &f : *g_files)
      if (f.first.rfind("/sim/out", 0) == 0) j[f.first] = *f.second;
  g_snaps->push_back(j);
}
void mark(const std::string &name)
{
  Outside o;
  if (!g_marks) g_marks = new json(json::array());
  g_marks->push_back({name, g_io_n, E.allocs});
  if (g_want_snaps) snap();
}
json marks()
{
  Outside o;
  return g_marks ? *g_marks : json::array();
}
static json base_report()
{
  json j;
  j["env"]   = env_stats();
  j["io"]    = io_stats();
  j["files"] = vfs_dump();
  if (g_want_trace) j["trace"] = vfs_trace();
  if (g_snaps) j["snaps"] = *g_snaps;
  j["marks"] = marks();
  if (E.want_sites)
  {
    j["sites"]     = sites();
    j["io_allocs"] = g_ioallocs;
  }
  if (S) j["sched"] = sched_stats();
  return j;
}
json report()
{
  Outside o;
  return base_report();
}
[[noreturn]] static void crash_now(const std::string &why)
{
  ++tl_out;
  json r = {{"status", "crashed"}, {"why", why}};
  if (g_crash_report) r["harness"] = g_crash_report();
  end_run(r);
}
static IoFault *io_op(const char *op, const std::string &path, int64_t bytes)
{
  ++g_io_n;
  if (g_io_n > g_io_budget) violation("no-termination", "more than " + std::to_string(g_io_budget) + " simulated I/O operations");
  if (g_trace->size() < 50000) g_trace->push_back({op, path, bytes});
  if (E.want_sites && g_ioallocs.size() < 4000 && (g_ioallocs.empty() || g_ioallocs.back() != E.allocs)) g_ioallocs.push_back(E.allocs);
  auto it = g_faults->find(g_io_n);
  if (it == g_faults->end())
  {
    IoFault *hit = nullptr;
    for (auto &r : *g_rules)
    {
      if (path.rfind(r.path, 0) != 0 || r.op != op) continue;
      ++r.seen;
      if (hit || r.seen < r.from || r.seen > r.to || (r.seen - r.from) % r.step != 0) continue;
      if (r.f.kind == "crash_before") crash_now("crash before I/O operation " + std::to_string(g_io_n));
      (*g_faults)[g_io_n] = r.f;
      hit                 = &(*g_faults)[g_io_n];
    }
    return hit;
  }
  if (it->second.kind == "crash_before") crash_now("crash before I/O operation " + std::to_string(g_io_n));
  return &it->second;
}
static void fired(const std::string &op, IoFault *f)
{
  f->used = true;
  ++(*g_iofired)[op + ":" + f->kind];
}
static int64_t disk_used()
{
  int64_t n = 0;
  for (auto &f : *g_files)
    if (f.first.rfind("/sim/out", 0) == 0) n += (int64_t)f.second->size();
  return n;
}
static int g_interrupted; // interruptions in a row: signals end at some point, whatever rules are combined
static ssize_t vread(Open &o, void *buf, size_t n)
{
  Outside g;
  auto *f = io_op("read", o.f.path, (int64_t)n);
  if (f && f->kind == "eintr" && g_interrupted >= 3) f = nullptr;
  g_interrupted = f && f->kind == "eintr" ? g_interrupted + 1 : 0;
  if (f)
  {
    if (f->kind == "eintr")
    {
      fired("read", f);
      errno = EINTR;
      return -1;
    }
    if (f->kind == "eio")
    {
      fired("read", f);
      errno = EIO;
      return -1;
    }
  }
  size_t have = o.f.pos < o.data->size() ? o.data->size() - o.f.pos : 0;
  size_t k    = n < have ? n : have;
  if (f && f->kind == "short" && k > 1)
  {
    fired("read", f);
    size_t want = (size_t)std::max<int64_t>(1, f->arg);
    if (want < k) k = want;
  }
  memcpy(buf, o.data->data() + o.f.pos, k);
  o.f.pos += k;
  if (f && f->kind == "crash_after") crash_now("crash after a read");
  return (ssize_t)k;
}
static ssize_t vwrite(Open &o, const char *buf, size_t n)
{
  Outside g;
  auto *f  = io_op("write", o.f.path, (int64_t)n);
  size_t k = n;
  if (f && f->kind == "eintr" && g_interrupted >= 3) f = nullptr;
  g_interrupted = f && f->kind == "eintr" ? g_interrupted + 1 : 0;
  if (f)
  {
    if (f->kind == "eintr" || f->kind == "eio" || f->kind == "enospc")
    {
      fired("write", f);
      errno = f->kind == "eintr" ? EINTR : f->kind == "eio" ? EIO : ENOSPC;
      return -1;
    }
    if (f->kind == "short" || f->kind == "torn")
    {
      size_t want = (size_t)std::max<int64_t>(f->kind == "torn" ? 0 : 1, f->arg);
      if (want < k)
      {
        k = want;
        fired("write", f);
      }
    }
  }
  if (g_cap >= 0)
  {
    int64_t room = g_cap - disk_used();
    if (room <= 0)
    {
      ++(*g_iofired)["write:full"];
      errno = ENOSPC;
      return -1;
    }
    if ((int64_t)k > room) k = (size_t)room;
  }
  if (o.f.append) o.f.pos = o.data->size();
  if (o.data->size() < o.f.pos + k) o.data->resize(o.f.pos + k);
  memcpy(&(*o.data)[o.f.pos], buf, k);
  o.f.pos += k;
  if (f && f->kind == "torn")
  {
    ++(*g_iofired)["crash:torn"];
    crash_now("crash in the middle of a write");
  }
  if (f && f->kind == "crash_after") crash_now("crash after a write");
  return (ssize_t)k;
}
static Open *of(int fd)
{
  if (!g_io_on || !g_open) return nullptr;
  auto it = g_open->find(fd);
  return it == g_open->end() ? nullptr : &it->second;
}
// returns 0 or errno
static int vopen(const char *path, bool rd, bool wr, bool creat, bool trunc, bool excl, Open &out, bool append)
{
  Outside g;
  auto *f = io_op(wr ? "open_w" : "open_r", path, 0);
  if (f && (f->kind == "eacces" || f->kind == "emfile" || f->kind == "enospc" || f->kind == "eio"))
  {
    fired("open", f);
    return f->kind == "eacces" ? EACCES : f->kind == "emfile" ? EMFILE : f->kind == "enospc" ? ENOSPC : EIO;
  }
  auto it = g_files->find(path);
  if (it == g_files->end())
  {
    if (!creat) return ENOENT;
    (*g_files)[path] = std::make_shared<std::string>();
  }
  else if (excl)
    return EEXIST;
  auto &d = (*g_files)[path];
  if (trunc) d->clear();
  out.f    = VFile{path, 0, append, rd, wr};
  out.data = d;
  if (f && f->kind == "crash_after") crash_now("crash after an open");
  return 0;
}
static int vclose(Open &o)
{
  Outside g;
  auto *f = io_op("close", o.f.path, 0);
  if (f && (f->kind == "eio" || f->kind == "enospc"))
  {
    fired("close", f);
    return f->kind == "eio" ? EIO : ENOSPC;
  }
  if (f && f->kind == "crash_after") crash_now("crash after a close");
  return 0;
}
} // namespace sim

using namespace sim;

// ====================================================================== libc seams
// variables that are read without having been written see this
__attribute__((noinline)) static void fill_dead_stack(int c)
{
  char a[8192];
  memset(a, c, sizeof a);
  asm volatile("" : : "r"(a) : "memory");
}
void *operator new(size_t n)
{
  if (!n) n = 1;
  for (;;)
  {
    tl_site = __builtin_return_address(0);
    void *p = malloc(n);
    tl_site = nullptr;
    if (p) return p;
    auto h = std::get_new_handler();
    if (!h) throw std::bad_alloc();
    h();
  }
}
extern "C"
{
  // ---- memory
  void *malloc(size_t n)
  {
    if (E.on && tl_out == 0 && (tl_tid >= 0 || !S))
    {
      ++E.allocs;
      if (E.want_sites) note_site(tl_site ? tl_site : __builtin_return_address(0), n);
      if (E.crash_at && E.allocs == E.crash_at) crash_now("crash at allocation " + std::to_string(E.allocs));
      if (E.alloc_budget && E.allocs > E.alloc_budget) violation("no-termination", "allocation budget exceeded");
      if (E.fail_at && E.allocs >= E.fail_at && E.allocs < E.fail_at + E.fail_len)
      {
        ++E.failed;
        errno = ENOMEM;
        return nullptr;
      }
    }
    void *p = __libc_malloc(n);
    if (p && E.on && E.poison >= 0 && tl_out == 0) memset(p, E.poison, n);
    if (E.on && E.stack >= 0 && tl_out == 0) fill_dead_stack(E.stack);
    return p;
  }
  void free(void *p)
  {
    if (p && tl_out == 0)
    {
      if (g_threads_live) sim_on_free(p, malloc_usable_size(p));
      if (E.on && E.poison >= 0) memset(p, E.poison ^ 0x5a, malloc_usable_size(p));
    }
    __libc_free(p);
    if (E.on && E.stack >= 0 && tl_out == 0) fill_dead_stack(E.stack ^ 0x5a);
  }
  void *calloc(size_t a, size_t b)
  {
    if (E.on && tl_out == 0 && (tl_tid >= 0 || !S))
    {
      ++E.allocs;
      if (E.crash_at && E.allocs == E.crash_at) crash_now("crash at allocation " + std::to_string(E.allocs));
      if (E.fail_at && E.allocs >= E.fail_at && E.allocs < E.fail_at + E.fail_len)
      {
        ++E.failed;
        errno = ENOMEM;
        return nullptr;
      }
    }
    return __libc_calloc(a, b);
  }
  void *realloc(void *p, size_t n)
  {
    if (p && g_threads_live && tl_out == 0) sim_on_free(p, malloc_usable_size(p));
    return __libc_realloc(p, n);
  }
  __attribute__((weak)) void sim_dummy() {}

  // ---- clock
  static void sim_now(struct timespec *ts, bool realtime)
  {
    ++E.reads;
    for (auto &j : E.jumps)
      if (j.first == E.reads) E.off += j.second;
    int64_t t   = realtime ? E.real0 + E.off + now_mono() : now_mono();
    ts->tv_sec  = t / 1000000000ll;
    ts->tv_nsec = t % 1000000000ll;
  }
  int clock_gettime(clockid_t c, struct timespec *ts) noexcept
  {
    if (E.on && tl_out == 0)
    {
      sim_now(ts, c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE);
      return 0;
    }
    return (int)raw_sys(SYS_clock_gettime, c, (long)ts);
  }
  int gettimeofday(struct timeval *tv, void *) noexcept
  {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
  }
  time_t time(time_t *t) noexcept
  {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
  }
  clock_t clock() noexcept
  {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
  }
  static int sim_sleep(int64_t ns)
  {
    Outside o;
    int64_t w = now_mono() + (ns > 0 ? ns : 0);
    if (sched_active() && tl_tid >= 0)
      block(&me(), 's', true, w);
    else
      E.mono += ns;
    return 0;
  }
  int nanosleep(const struct timespec *r, struct timespec *)
  {
    if (E.on && tl_out == 0) return sim_sleep(r->tv_sec * 1000000000ll + r->tv_nsec);
    return (int)raw_sys(SYS_nanosleep, (long)r, 0);
  }
  int clock_nanosleep(clockid_t, int flags, const struct timespec *r, struct timespec *)
  {
    int64_t ns = r->tv_sec * 1000000000ll + r->tv_nsec;
    if (E.on && tl_out == 0) return sim_sleep(flags & TIMER_ABSTIME ? ns - now_mono() : ns);
    return (int)raw_sys(SYS_nanosleep, (long)r, 0);
  }
  int usleep(useconds_t u)
  {
    struct timespec ts = {u / 1000000, (long)(u % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
  }

  // ---- randomness
  void srand(unsigned s) noexcept
  {
    ++E.nsrand;
    E.rstate = s;
  }
  int rand() noexcept
  {
    ++E.nrand;
    if (E.on && E.rconst >= -1) return E.rconst == -1 ? RAND_MAX : E.rconst;
    E.rstate = E.rstate * 6364136223846793005ull + 1442695040888963407ull;
    return (int)((E.rstate >> 33) & RAND_MAX);
  }
  long random() noexcept { return rand(); }
  void srandom(unsigned s) noexcept { srand(s); }
  ssize_t getrandom(void *p, size_t n, unsigned)
  {
    ++E.ndev;
    for (size_t i = 0; i < n; ++i)
      ((unsigned char *)p)[i] = (unsigned char)E.dev.next();
    return (ssize_t)n;
  }
  int getentropy(void *p, size_t n)
  {
    getrandom(p, n, 0);
    return 0;
  }

  // ---- threads
  int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) noexcept
  {
    static int (*rc)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = nullptr;
    if (!rc) rc = real<decltype(rc)>("pthread_create");
    if (!sched_active() || tl_out) return rc(pt, at, fn, arg);
    {
      Outside o;
      ++E.tcreates;
      if (E.tfail_at && E.tcreates >= E.tfail_at && E.tcreates < E.tfail_at + E.tfail_len)
      {
        ++E.tfailed;
        return EAGAIN;
      }
      auto t  = std::make_unique<Th>();
      t->id   = (int)S->th.size();
      if (S->free_slots.empty()) finish({{"status", "error"}, {"detail", "more than 32 live threads"}});
      t->slot = S->free_slots.back();
      S->free_slots.pop_back();
      t->fn   = fn;
      t->arg  = arg;
      t->prio = (int64_t)S->rng.below(1000000) + 1;
      // happens-before: creator -> created; the slot keeps counting upwards
      uint64_t keep = 0;
      for (auto &x : S->th)
        keep = std::max(keep, x->vc.c[t->slot]);
      t->vc             = me().vc;
      for (int i = 0; i < MAXT; ++i)
        t->vc.c[i] = std::max(t->vc.c[i], S->done_vc.c[i]);
      t->vc.c[t->slot]  = keep + 1;
      ++me().vc.c[me().slot];
      Th *raw = t.get();
      S->th.push_back(std::move(t));
      ++S->created;
      int r = rc(&raw->pt, at, trampoline, raw);
      if (r) finish({{"status", "error"}, {"detail", "real pthread_create failed"}});
      *pt = raw->pt;
      update_live();
    }
    sync_point("create");
    return 0;
  }
  static Th *find_th(pthread_t pt)
  {
    if (!S) return nullptr;
    for (auto it = S->th.rbegin(); it != S->th.rend(); ++it)
      if ((*it)->id != 0 && !(*it)->reaped && pthread_equal((*it)->pt, pt)) return it->get();
    return nullptr;
  }
  int pthread_join(pthread_t pt, void **ret)
  {
    static int (*rj)(pthread_t, void **) = nullptr;
    if (!rj) rj = real<decltype(rj)>("pthread_join");
    if (!sched_active() || tl_out) return rj(pt, ret);
    sync_point("join");
    Outside o;
    Th *t = find_th(pt);
    if (!t) return ESRCH;
    while (t->st != DONE)
      block(t, 'j');
    vc_acquire((uintptr_t)t);
    t->reaped = true;
    return rj(pt, ret);
  }
  int pthread_detach(pthread_t pt) noexcept
  {
    static int (*rd)(pthread_t) = nullptr;
    if (!rd) rd = real<decltype(rd)>("pthread_detach");
    if (sched_active() && !tl_out)
    {
      Outside o;
      if (Th *t = find_th(pt)) t->detached = true;
    }
    return rd(pt);
  }
  int sched_yield() noexcept
  {
    if (sched_active() && !tl_out)
    {
      Outside o;
      ++g_clk;
      check_budget();
      auto r = runnable();
      if (r.size() > 1)
      {
        int t = pick(tl_tid, true, true);
        if (t == tl_tid && S->mode != "replay") t = r[(size_t)(std::find(r.begin(), r.end(), tl_tid) - r.begin() + 1) % r.size()];
        go_to(t);
      }
      return 0;
    }
    return (int)raw_sys(SYS_sched_yield);
  }

  // ---- mutexes
  int pthread_mutex_lock(pthread_mutex_t *m) noexcept
  {
    static int (*rl)(pthread_mutex_t *) = nullptr;
    if (!rl) rl = real<decltype(rl)>("pthread_mutex_lock");
    if (!sched_active() || tl_out || tl_tid < 0) return rl(m);
    sync_point("lock");
    Outside o;
    ++S->locks;
    auto *mu = &S->mtx[m];
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    bool con = false;
    while (mu->owner != -1 && !(rec && mu->owner == tl_tid))
    {
      if (!con) ++S->contended;
      con = true;
      block(m, 'm');
      mu = &S->mtx[m];
    }
    mu->owner = tl_tid;
    ++mu->count;
    vc_acquire((uintptr_t)m);
    return 0;
  }
  int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
  {
    static int (*rl)(pthread_mutex_t *) = nullptr;
    if (!rl) rl = real<decltype(rl)>("pthread_mutex_trylock");
    if (!sched_active() || tl_out || tl_tid < 0) return rl(m);
    sync_point("trylock");
    Outside o;
    auto *mu = &S->mtx[m];
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    if (mu->owner != -1 && !(rec && mu->owner == tl_tid)) return EBUSY;
    mu->owner = tl_tid;
    ++mu->count;
    vc_acquire((uintptr_t)m);
    return 0;
  }
  int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
  {
    static int (*ru)(pthread_mutex_t *) = nullptr;
    if (!ru) ru = real<decltype(ru)>("pthread_mutex_unlock");
    if (!sched_active() || tl_out || tl_tid < 0) return ru(m);
    {
      Outside o;
      auto it = S->mtx.find(m);
      if (it == S->mtx.end() || it->second.owner == -1) return ru(m); // locked before the simulation started
      if (it->second.owner != tl_tid) violation("unlock-by-other", "a mutex is unlocked by a thread that does not hold it");
      if (--it->second.count == 0)
      {
        it->second.owner = -1;
        vc_release((uintptr_t)m);
        wake_all(m, 'm');
      }
    }
    sync_point("unlock");
    return 0;
  }
  static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, int64_t wake)
  {
    bool to;
    {
      Outside o;
      auto &mu = S->mtx[m];
      mu.owner = -1;
      mu.count = 0;
      vc_release((uintptr_t)m);
      wake_all(m, 'm');
      block(c, 'c', timed, wake);
      to = me().timed_out;
    }
    pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
  }
  int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
  {
    static int (*r)(pthread_cond_t *, pthread_mutex_t *) = nullptr;
    if (!r) r = real<decltype(r)>("pthread_cond_wait");
    if (!sched_active() || tl_out) return r(c, m);
    return cond_wait(c, m, false, 0);
  }
  int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
  {
    int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec - E.real0 - E.off;
    return cond_wait(c, m, true, t);
  }
  int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
  {
    int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec - (k == CLOCK_REALTIME ? E.real0 + E.off : 0);
    return cond_wait(c, m, true, t);
  }
  static int cond_wake(pthread_cond_t *c, bool all)
  {
    {
      Outside o;
      for (auto &t : S->th)
        if (t->st == BLK && t->ob == c && t->why == 'c')
        {
          t->st = RUN;
          if (!all) break;
        }
    }
    sync_point("cond");
    return 0;
  }
  int pthread_cond_signal(pthread_cond_t *c) noexcept
  {
    static int (*r)(pthread_cond_t *) = nullptr;
    if (!r) r = real<decltype(r)>("pthread_cond_signal");
    if (!sched_active() || tl_out) return r(c);
    return cond_wake(c, false);
  }
  int pthread_cond_broadcast(pthread_cond_t *c) noexcept
  {
    static int (*r)(pthread_cond_t *) = nullptr;
    if (!r) r = real<decltype(r)>("pthread_cond_broadcast");
    if (!sched_active() || tl_out) return r(c);
    return cond_wake(c, true);
  }
  // reader/writer locks
  static int rwl(pthread_rwlock_t *l, bool wr)
  {
    sync_point("rw");
    Outside o;
    for (;;)
    {
      auto &x = S->mtx[l];
      if (wr ? (x.owner == -1 && x.readers == 0) : x.owner == -1)
      {
        if (wr)
          x.owner = tl_tid;
        else
          ++x.readers;
        break;
      }
      ++S->contended;
      block(l, 'm');
    }
    vc_acquire((uintptr_t)l);
    return 0;
  }
  int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept
  {
    static int (*r)(pthread_rwlock_t *) = nullptr;
    if (!r) r = real<decltype(r)>("pthread_rwlock_rdlock");
    return sched_active() && !tl_out && tl_tid >= 0 ? rwl(l, false) : r(l);
  }
  int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept
  {
    static int (*r)(pthread_rwlock_t *) = nullptr;
    if (!r) r = real<decltype(r)>("pthread_rwlock_wrlock");
    return sched_active() && !tl_out && tl_tid >= 0 ? rwl(l, true) : r(l);
  }
  int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept
  {
    static int (*r)(pthread_rwlock_t *) = nullptr;
    if (!r) r = real<decltype(r)>("pthread_rwlock_unlock");
    if (!(sched_active() && !tl_out && tl_tid >= 0) || !S->mtx.count(l)) return r(l);
    {
      Outside o;
      auto &x = S->mtx[l];
      if (x.owner == tl_tid)
        x.owner = -1;
      else
        --x.readers;
      vc_release((uintptr_t)l);
      wake_all(l, 'm');
    }
    sync_point("rwu");
    return 0;
  }
  int pthread_once(pthread_once_t *ctl, void (*fn)()) noexcept(false)
  {
    static int (*r)(pthread_once_t *, void (*)()) = nullptr;
    if (!r) r = real<decltype(r)>("pthread_once");
    if (!sched_active() || tl_out || tl_tid < 0) return r(ctl, fn);
    sync_point("once");
    for (;;)
    {
      {
        Outside o;
        if (*ctl == 2)
        {
          vc_acquire((uintptr_t)ctl);
          return 0;
        }
        auto &x = S->mtx[ctl];
        if (x.owner == -1)
        {
          x.owner = tl_tid;
          break;
        }
        block(ctl, 'm');
      }
    }
    auto done = [&](int v)
    {
      Outside o;
      *ctl              = v;
      S->mtx[ctl].owner = -1;
      vc_release((uintptr_t)ctl);
      wake_all(ctl, 'm');
    };
    try
    {
      fn();
    }
    catch (...)
    {
      done(0);
      throw;
    }
    done(2);
    sync_point("once");
    return 0;
  }
  // function-local statics
  int __cxa_guard_acquire(long long *g)
  {
    auto *b = reinterpret_cast<volatile unsigned char *>(g);
    if (b[0]) return 0;
    while (b[1])
    {
      if (!sched_active() || tl_out || tl_tid < 0) abort(); // recursive initialisation
      Outside o;
      block(g, 'm');
    }
    if (b[0])
    {
      if (sched_active() && !tl_out && tl_tid >= 0)
      {
        Outside o;
        vc_acquire((uintptr_t)g);
      }
      return 0;
    }
    b[1] = 1;
    return 1;
  }
  static void guard_done(long long *g, unsigned char v)
  {
    auto *b = reinterpret_cast<volatile unsigned char *>(g);
    b[0]    = v;
    b[1]    = 0;
    if (sched_active() && !tl_out && tl_tid >= 0)
    {
      Outside o;
      vc_release((uintptr_t)g);
      wake_all(g, 'm');
    }
  }
  void __cxa_guard_release(long long *g) { guard_done(g, 1); }
  void __cxa_guard_abort(long long *g) { guard_done(g, 0); }

  long syscall(long n, ...) noexcept
  {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto &x : a)
      x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && sched_active() && !tl_out && tl_tid >= 0)
    {
      int op = (int)a[1] & 127 & ~FUTEX_CLOCK_REALTIME;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
      {
        sync_point("futex");
        Outside o;
        if (*(volatile int *)a[0] != (int)a[2])
        {
          errno = EAGAIN;
          return -1;
        }
        bool timed   = a[3] != 0;
        int64_t wake = 0;
        if (timed)
        {
          auto *ts = (struct timespec *)a[3];
          wake     = ts->tv_sec * 1000000000ll + ts->tv_nsec;
          if (op == FUTEX_WAIT) wake += now_mono();
          if (a[1] & FUTEX_CLOCK_REALTIME) wake -= E.real0 + E.off;
        }
        block((void *)a[0], 'f', timed, wake);
        if (me().timed_out)
        {
          errno = ETIMEDOUT;
          return -1;
        }
        vc_acquire((uintptr_t)a[0]);
        return 0;
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
      {
        long k = 0;
        {
          Outside o;
          vc_release((uintptr_t)a[0]);
          for (auto &t : S->th)
            if (k < a[2] && t->st == BLK && t->ob == (void *)a[0] && t->why == 'f')
            {
              t->st = RUN;
              ++k;
            }
        }
        sync_point("futex");
        return k;
      }
    }
    long r = raw_sys(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096)
    {
      errno = (int)-r;
      return -1;
    }
    return r;
  }

  // ---- files
  static FILE *sim_fopen(const char *path, const char *mode)
  {
    static FILE *(*rf)(const char *, const char *) = nullptr;
    if (!rf) rf = real<decltype(rf)>("fopen64");
    if (!is_sim(path) || tl_out) return rf(path, mode);
    Outside o;
    bool plus = strchr(mode, '+'), r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a';
    Open f;
    int e = vopen(path, r || plus, w || a || plus, w || a, w, strchr(mode, 'x') != nullptr, f, a);
    if (e)
    {
      errno = e;
      return nullptr;
    }
    FILE *fp               = rf("/dev/null", mode[0] == 'r' && !plus ? "r" : "w");
    (*g_open)[fileno(fp)] = f;
    return fp;
  }
  FILE *fopen(const char *p, const char *m) { return sim_fopen(p, m); }
  FILE *fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
  int fclose(FILE *f)
  {
    static int (*rc)(FILE *) = nullptr;
    if (!rc) rc = real<decltype(rc)>("fclose");
    int fd = fileno(f), e = 0;
    if (Open *o = of(fd))
    {
      e = vclose(*o);
      Outside g;
      g_open->erase(fd);
    }
    int r = rc(f);
    if (e)
    {
      errno = e;
      return EOF;
    }
    return r;
  }
  static int sim_open(const char *path, int flags, mode_t mode)
  {
    if (!is_sim(path) || tl_out)
    {
      long r = raw_sys(SYS_openat, AT_FDCWD, (long)path, flags, mode);
      if (r < 0)
      {
        errno = (int)-r;
        return -1;
      }
      return (int)r;
    }
    Outside o;
    Open f;
    int acc = flags & O_ACCMODE;
    int e   = vopen(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, flags & O_EXCL, f, flags & O_APPEND);
    if (e)
    {
      errno = e;
      return -1;
    }
    int fd        = (int)raw_sys(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR, 0);
    (*g_open)[fd] = f;
    return fd;
  }
  int open(const char *p, int fl, ...)
  {
    va_list ap;
    va_start(ap, fl);
    mode_t m = va_arg(ap, int);
    va_end(ap);
    return sim_open(p, fl, m);
  }
  int open64(const char *p, int fl, ...)
  {
    va_list ap;
    va_start(ap, fl);
    mode_t m = va_arg(ap, int);
    va_end(ap);
    return sim_open(p, fl, m);
  }
  int close(int fd)
  {
    int e = 0;
    if (Open *o = of(fd))
    {
      e = vclose(*o);
      Outside g;
      g_open->erase(fd);
    }
    long r = raw_sys(SYS_close, fd);
    if (e)
    {
      errno = e;
      return -1;
    }
    if (r < 0)
    {
      errno = (int)-r;
      return -1;
    }
    return 0;
  }
  static ssize_t fix(long r)
  {
    if (r < 0)
    {
      errno = (int)-r;
      return -1;
    }
    return r;
  }
  ssize_t read(int fd, void *b, size_t n)
  {
    if (Open *o = of(fd)) return vread(*o, b, n);
    return fix(raw_sys(SYS_read, fd, (long)b, (long)n));
  }
  ssize_t write(int fd, const void *b, size_t n)
  {
    if (Open *o = of(fd)) return vwrite(*o, (const char *)b, n);
    return fix(raw_sys(SYS_write, fd, (long)b, (long)n));
  }
  ssize_t writev(int fd, const struct iovec *v, int k)
  {
    if (Open *o = of(fd))
    {
      std::string s;
      {
        Outside g;
        for (int i = 0; i < k; ++i)
          s.append((const char *)v[i].iov_base, v[i].iov_len);
      }
      ssize_t r = vwrite(*o, s.data(), s.size());
      Outside g;
      s = std::string();
      return r;
    }
    return fix(raw_sys(SYS_writev, fd, (long)v, k));
  }
  static off_t sim_seek(int fd, off_t off, int wh)
  {
    if (Open *o = of(fd))
    {
      off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)o->f.pos : (off_t)o->data->size();
      if (b + off < 0)
      {
        errno = EINVAL;
        return -1;
      }
      return (off_t)(o->f.pos = (size_t)(b + off));
    }
    return fix(raw_sys(SYS_lseek, fd, off, wh));
  }
  off_t lseek(int fd, off_t o, int w) noexcept { return sim_seek(fd, o, w); }
  off64_t lseek64(int fd, off64_t o, int w) noexcept { return sim_seek(fd, o, w); }
  static void fill_stat(struct stat *st, size_t sz)
  {
    memset(st, 0, sizeof *st);
    st->st_mode  = S_IFREG | 0644;
    st->st_size  = (off_t)sz;
    st->st_nlink = 1;
    st->st_ino   = 1;
  }
  int fstat(int fd, struct stat *st) noexcept
  {
    if (Open *o = of(fd))
    {
      fill_stat(st, o->data->size());
      return 0;
    }
    return (int)fix(raw_sys(SYS_fstat, fd, (long)st));
  }
  int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
  static int sim_stat(const char *p, struct stat *st)
  {
    if (is_sim(p))
    {
      Outside g;
      auto it = g_files->find(p);
      if (it == g_files->end())
      {
        errno = ENOENT;
        return -1;
      }
      fill_stat(st, it->second->size());
      return 0;
    }
    return (int)fix(raw_sys(SYS_stat, (long)p, (long)st));
  }
  int stat(const char *p, struct stat *st) noexcept { return sim_stat(p, st); }
  int stat64(const char *p, struct stat64 *st) noexcept { return sim_stat(p, (struct stat *)st); }
  int lstat(const char *p, struct stat *st) noexcept { return sim_stat(p, st); }
  int lstat64(const char *p, struct stat64 *st) noexcept { return sim_stat(p, (struct stat *)st); }
  int access(const char *p, int m) noexcept
  {
    if (is_sim(p))
    {
      struct stat st;
      return sim_stat(p, &st);
    }
    return (int)fix(raw_sys(SYS_access, (long)p, m));
  }
  int rename(const char *a, const char *b) noexcept
  {
    if (is_sim(a))
    {
      Outside g;
      auto *f = io_op("rename", b, 0);
      if (f && (f->kind == "eio" || f->kind == "enospc"))
      {
        fired("rename", f);
        errno = EIO;
        return -1;
      }
      auto it = g_files->find(a);
      if (it == g_files->end())
      {
        errno = ENOENT;
        return -1;
      }
      (*g_files)[b] = it->second;
      g_files->erase(a);
      if (f && f->kind == "crash_after") crash_now("crash after rename");
      return 0;
    }
    return (int)fix(raw_sys(SYS_rename, (long)a, (long)b));
  }
  int unlink(const char *a) noexcept
  {
    if (is_sim(a))
    {
      Outside g;
      io_op("unlink", a, 0);
      if (!g_files->erase(a))
      {
        errno = ENOENT;
        return -1;
      }
      return 0;
    }
    return (int)fix(raw_sys(SYS_unlink, (long)a));
  }
  int remove(const char *a) noexcept { return unlink(a); }
  int fsync(int fd)
  {
    if (of(fd)) return 0;
    return (int)fix(raw_sys(SYS_fsync, fd));
  }
} // extern "C"

// C++ runtime seams
namespace std
{
unsigned thread::hardware_concurrency() noexcept
{
  const char *e = getenv("BSIM_NT");
  return e ? (unsigned)atoi(e) : 4u;
}
random_device::result_type random_device::_M_getval()
{
  ++E.ndev;
  return (result_type)E.dev.next();
}
void random_device::_M_init(const string &) {}
void random_device::_M_fini() {}
} // namespace std

// ====================================================================== serving
namespace sim
{
static void on_signal(int sig)
{
  ++tl_out;
  signal(sig, SIG_DFL);
  E.on   = false;
  json r = {{"status", "signal"}, {"signal", sig}};
  std::string what;
  if (auto *ti = abi::__cxa_current_exception_type())
  {
    what = ti->name();
    try
    {
      std::rethrow_exception(std::current_exception());
    }
    catch (const std::exception &e)
    {
      what += std::string(": ") + e.what();
    }
    catch (...)
    {
    }
  }
  r["what"] = what;
  if (g_crash_report) r["harness"] = g_crash_report();
  r["rt"] = base_report();
  emit(r);
  raw_sys(SYS_exit_group, 0);
}

int serve(int argc, char **argv, const std::function<json(const json &)> &run, const std::function<void(const json &)> &prep)
{
  // same addresses in every process: a replay sees the same memory layout
  if (!getenv("BSIM_NOASLR"))
  {
    setenv("BSIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1)
    {
      execv("/proc/self/exe", argv);
    }
  }
  (void)argc;
  std::string line;
  std::ios::sync_with_stdio(true);
  while (true)
  {
    line.clear();
    int c;
    while ((c = getchar()) != EOF && c != '\n')
      line.push_back((char)c);
    if (line.empty() && c == EOF) break;
    if (line.empty()) continue;
    json plan  = json::parse(line);
    int rfd    = memfd_create("r", 0);
    int efd    = memfd_create("e", 0);
    double cpu = plan.value("cpu", 60.0);
    if (prep)
    {
      try
      {
        prep(plan);
      }
      catch (const std::exception &)
      {
      }
    }
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
      int nul = (int)raw_sys(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR, 0);
      dup2(nul, 0);
      dup2(nul, 1);
      dup2(efd, 2);
      g_result_fd = rfd;
      struct rlimit rl = {(rlim_t)cpu + 1, (rlim_t)cpu + 3};
      setrlimit(RLIMIT_CPU, &rl);
      struct rlimit ra = {(rlim_t)6 << 30, (rlim_t)6 << 30};
      setrlimit(RLIMIT_AS, &ra);
      struct rlimit rc = {0, 0};
      setrlimit(RLIMIT_CORE, &rc);
      static char alt[1 << 17];
      stack_t ss{};
      ss.ss_sp   = alt;
      ss.ss_size = sizeof alt;
      sigaltstack(&ss, nullptr);
      struct sigaction sa{};
      sa.sa_handler = on_signal;
      sa.sa_flags   = SA_ONSTACK;
      for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU})
        sigaction(s, &sa, nullptr);
      json r;
      try
      {
        r = run(plan);
      }
      catch (const std::exception &e)
      {
        E.on = false;
        r    = {{"status", "error"}, {"detail", std::string("harness: ") + e.what()}};
      }
      E.on = false;
      ++tl_out;
      r["rt"] = base_report();
      finish(r);
    }
    int st        = 0;
    double waited = 0;
    double limit  = plan.value("wall", cpu * 6 + 30);
    bool killed   = false;
    useconds_t us = 100;
    while (waitpid(pid, &st, WNOHANG) == 0)
    {
      struct timespec ts = {0, (long)us * 1000};
      raw_sys(SYS_nanosleep, (long)&ts, 0);
      waited += us * 1e-6;
      if (us < 2000) us += us / 4;
      if (waited > limit && !killed)
      {
        kill(pid, SIGKILL);
        killed = true;
      }
    }
    auto slurp = [](int fd)
    {
      std::string s;
      off_t n = lseek(fd, 0, SEEK_END);
      lseek(fd, 0, SEEK_SET);
      s.resize((size_t)n);
      size_t o = 0;
      while (o < s.size())
      {
        ssize_t k = read(fd, &s[o], s.size() - o);
        if (k <= 0) break;
        o += (size_t)k;
      }
      close(fd);
      return s;
    };
    std::string rs = slurp(rfd), es = slurp(efd);
    json out;
    if (!rs.empty()) out = json::parse(rs, nullptr, false);
    if (rs.empty() || out.is_discarded())
    {
      out           = json::object();
      out["status"] = killed ? "timeout" : WIFSIGNALED(st) ? "signal" : "error";
      if (WIFSIGNALED(st)) out["signal"] = WTERMSIG(st);
      out["detail"] = "no result; exit status " + std::to_string(st);
    }
    out["id"] = plan.value("id", json());
    if (!es.empty()) out["stderr"] = es.substr(0, 2000);
    std::string s = out.dump(-1, ' ', false, json::error_handler_t::replace);
    s += "\n";
    fwrite(s.data(), 1, s.size(), stdout);
    fflush(stdout);
  }
  return 0;
}
} // namespace sim
