// Deterministic simulation runtime for BSMPT.
//
// One child process is one simulated execution.  Everything nondeterministic
// the code under test can see is owned here: which thread runs next, the
// clock, the C and C++ random sources, the contents of fresh memory, failing
// allocations and thread creation, and every byte that moves between the
// program and its files.
#pragma once
#include <cstdint>
#include <functional>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

namespace sim
{
using json = nlohmann::json;

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

// guards harness code: inside it nothing is simulated, counted or failed
struct Outside
{
  Outside();
  ~Outside();
};

// ---- scheduler -----------------------------------------------------------
// plan["sched"]: {mode: seq|rw|pct|stall|replay, seed, psync, gap, depth, len,
//                 decisions: [[clk, tid]...], budget}
void sched_begin(const json &plan);
json sched_end(); // statistics, recorded decisions, hash
bool sched_active();
int sched_tid();
uint64_t sched_clock();

// ---- environment ----------------------------------------------------------
// plan["env"]: {clock:{start,step,jumps:[[n,delta_ns]..]}, rand:{seed|const},
//   poison: byte, stack: byte, alloc_fail: n, thread_fail: n}
void env_begin(const json &plan);
json env_end();

// ---- simulated files -------------------------------------------------------
// plan["io"]: {faults:[{n, kind, arg}], cap: bytes}
// everything below /sim/ exists only in memory
void vfs_put(const std::string &path, const std::string &data);
bool vfs_has(const std::string &path);
std::string vfs_get(const std::string &path);
json vfs_dump();  // {path: content}
json vfs_trace(); // [[op, path, bytes]...]
void io_begin(const json &plan);
json io_stats();

// progress marks the harness makes (row started, ...); value is a counter
// that a crash fault can refer to
void mark(const std::string &name);
json marks();

// ---- outcomes ---------------------------------------------------------------
// record a violation and end the run at once (callable from any thread)
[[noreturn]] void violation(const std::string &kind, const std::string &detail);
// end the run with this result
[[noreturn]] void finish(const json &result);
// what the simulation itself saw: files, operations, faults, schedule
json report();
// what a run publishes when it dies through a simulated crash
void set_crash_report(std::function<json()> f);

uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_doubles(const std::vector<double> &v, uint64_t h = 1469598103934665603ull)
{
  return hash_bytes(v.data(), v.size() * sizeof(double), h);
}
std::string hex(uint64_t);

// Serve plans: one JSON object per line on stdin, one result line on stdout.
// prep runs in the serving process before the fork (expensive, reusable set-up).
int serve(int argc, char **argv, const std::function<json(const json &)> &run,
          const std::function<void(const json &)> &prep = nullptr);

// used by the access instrumentation
extern __thread int tl_out;
extern "C" void sim_on_free(void *p, size_t n);
void sync_point(const char *what);
extern volatile bool g_threads_live; // scheduler on and more than one thread
extern volatile bool g_rt_busy;
void access_preempt();
extern uint64_t g_clk, g_next_preempt;
void race_report(uintptr_t addr, int t1, int t2, uintptr_t pc1, uintptr_t pc2, bool w1, bool w2);

constexpr int MAXT = 32; // live thread slots
struct VC
{
  uint64_t c[MAXT];
};
VC &my_vc();
int my_slot();
void vc_acquire(uintptr_t obj);
void vc_release(uintptr_t obj);
extern "C" int sim_faketrue();
} // namespace sim
