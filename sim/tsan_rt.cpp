// What the compiler's access instrumentation (-fsanitize=thread) calls in a
// simulated run: every memory access is a potential preemption point, and a
// vector-clock detector checks each one against the simulated history.
#include "sim_rt.hpp"
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>

using namespace sim;
namespace
{
struct Cell
{
  uint64_t g; // granule + 1
  uint64_t e[4];
  uint32_t pc[4];
};
constexpr size_t LOG = 20;
constexpr size_t N   = size_t(1) << LOG;
Cell *tab            = nullptr;
size_t used          = 0;
uintptr_t base_pc    = 0;

inline uint64_t mk(int slot, bool w, unsigned mask, bool at, uint64_t clk)
{
  return (clk << 16) | ((uint64_t)mask << 8) | ((uint64_t)at << 7) | ((uint64_t)w << 6) | (uint64_t)slot | 0;
}
inline int e_slot(uint64_t e) { return (int)(e & 31); }
inline bool e_w(uint64_t e) { return (e >> 6) & 1; }
inline bool e_at(uint64_t e) { return (e >> 7) & 1; }
inline unsigned e_mask(uint64_t e) { return (unsigned)(e >> 8) & 255; }
inline uint64_t e_clk(uint64_t e) { return e >> 16; }
extern "C" char __executable_start;

Cell *cell(uint64_t g, bool create)
{
  if (!tab)
  {
    tab = (Cell *)mmap(nullptr, N * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    base_pc = (uintptr_t)&__executable_start;
  }
  size_t i = (g * 0x9E3779B97F4A7C15ull) >> (64 - LOG);
  while (tab[i].g)
  {
    if (tab[i].g == g + 1) return &tab[i];
    i = (i + 1) & (N - 1);
  }
  if (!create) return nullptr;
  if (++used > N * 3 / 4)
  {
    madvise(tab, N * sizeof(Cell), MADV_DONTNEED);
    used = 1;
    i    = (g * 0x9E3779B97F4A7C15ull) >> (64 - LOG);
  }
  tab[i].g = g + 1;
  return &tab[i];
}
void check(uint64_t g, unsigned mask, bool w, bool at, uintptr_t pc)
{
  Cell *c   = cell(g, true);
  int slot  = my_slot();
  VC &vc    = my_vc();
  uint64_t clk = vc.c[slot];
  uint64_t mine = mk(slot, w, mask, at, clk);
  int put = -1;
  for (int i = 0; i < 4; ++i)
  {
    uint64_t e = c->e[i];
    if (!e)
    {
      if (put < 0) put = i;
      continue;
    }
    if (e == mine) return;
    int es = e_slot(e);
    if (es == slot)
    {
      if ((e_mask(e) & ~mask) == 0 && (w || !e_w(e)) && e_at(e) == at) put = i; // superseded
      continue;
    }
    if (!(e_mask(e) & mask)) continue;
    bool ordered = e_clk(e) <= vc.c[es];
    if (!ordered && (w || e_w(e)) && !(at && e_at(e)))
      race_report(g << 3, slot, es, pc, c->pc[i] ? c->pc[i] + base_pc : 0, w, e_w(e));
    if (ordered && (e_mask(e) & ~mask) == 0 && w) put = i; // older, fully covered by this write
  }
  if (put < 0) put = (int)(g_clk & 3);
  c->e[put]  = mine;
  c->pc[put] = (uint32_t)(pc - base_pc);
}
__attribute__((noinline)) void acc_live(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
  if (tl_out) return;
  if (__builtin_expect(++g_clk >= g_next_preempt, 0)) access_preempt();
  while (n)
  {
    unsigned o = a & 7;
    size_t k   = 8 - o < n ? 8 - o : n;
    check(a >> 3, ((1u << k) - 1) << o, w, false, pc);
    a += k;
    n -= k;
  }
}
// single-threaded stretches dominate: nothing but one test on that path
inline __attribute__((always_inline)) void acc(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
  if (__builtin_expect(!g_threads_live, 1)) return;
  acc_live(a, n, w, pc);
}
inline void at_access(uintptr_t a, size_t n, bool w, bool acq, bool rel, uintptr_t pc)
{
  if (!g_threads_live || tl_out) return;
  sync_point("atomic");
  Outside o;
  check(a >> 3, ((1u << n) - 1) << (a & 7), w, true, pc);
  if (acq) vc_acquire(a | 1);
  if (rel) vc_release(a | 1);
}
inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
} // namespace
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C"
{
  void sim_on_free(void *p, size_t n)
  {
    if (!tab) return;
    for (uint64_t g = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3; g < e; ++g)
      if (Cell *c = cell(g, false)) memset(c->e, 0, sizeof c->e);
  }
  void __tsan_init() {}
  void __tsan_func_entry(void *) {}
  void __tsan_func_exit() {}
#define RW(N)                                                                                      \
  void __tsan_read##N(void *a) { acc((uintptr_t)a, N, false, PC); }                                \
  void __tsan_write##N(void *a) { acc((uintptr_t)a, N, true, PC); }                                \
  void __tsan_unaligned_read##N(void *a) { acc((uintptr_t)a, N, false, PC); }                      \
  void __tsan_unaligned_write##N(void *a) { acc((uintptr_t)a, N, true, PC); }                      \
  void __tsan_volatile_read##N(void *a) { acc((uintptr_t)a, N, false, PC); }                       \
  void __tsan_volatile_write##N(void *a) { acc((uintptr_t)a, N, true, PC); }
  RW(1) RW(2) RW(4) RW(8) RW(16)
  void __tsan_read_range(void *a, size_t n) { acc((uintptr_t)a, n, false, PC); }
  void __tsan_write_range(void *a, size_t n) { acc((uintptr_t)a, n, true, PC); }
  void __tsan_vptr_update(void **a, void *v)
  {
    if (*a != v) acc((uintptr_t)a, 8, true, PC);
  }
  void __tsan_vptr_read(void **a) { acc((uintptr_t)a, 8, false, PC); }

#define AT(T, B)                                                                                   \
  T __tsan_atomic##B##_load(const volatile T *a, int mo)                                           \
  {                                                                                                \
    at_access((uintptr_t)a, B / 8, false, is_acq(mo), false, PC);                                  \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                   \
  }                                                                                                \
  void __tsan_atomic##B##_store(volatile T *a, T v, int mo)                                        \
  {                                                                                                \
    at_access((uintptr_t)a, B / 8, true, false, is_rel(mo), PC);                                   \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo)                                        \
  {                                                                                                \
    at_access((uintptr_t)a, B / 8, true, is_acq(mo), is_rel(mo), PC);                              \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                            \
  }                                                                                                \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo)                                       \
  {                                                                                                \
    at_access((uintptr_t)a, B / 8, true, is_acq(mo), is_rel(mo), PC);                              \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                             \
  }                                                                                                \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo)                                       \
  {                                                                                                \
    at_access((uintptr_t)a, B / 8, true, is_acq(mo), is_rel(mo), PC);                              \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                             \
  }                                                                                                \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo)                                       \
  {                                                                                                \
    at_access((uintptr_t)a, B / 8, true, is_acq(mo), is_rel(mo), PC);                              \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                             \
  }                                                                                                \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo)                                        \
  {                                                                                                \
    at_access((uintptr_t)a, B / 8, true, is_acq(mo), is_rel(mo), PC);                              \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                              \
  }                                                                                                \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo)                                       \
  {                                                                                                \
    at_access((uintptr_t)a, B / 8, true, is_acq(mo), is_rel(mo), PC);                              \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                             \
  }                                                                                                \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int)            \
  {                                                                                                \
    at_access((uintptr_t)a, B / 8, true, is_acq(mo), is_rel(mo), PC);                              \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);        \
  }                                                                                                \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int)              \
  {                                                                                                \
    at_access((uintptr_t)a, B / 8, true, is_acq(mo), is_rel(mo), PC);                              \
    return __atomic_compare_exchange_n(a, c, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);         \
  }                                                                                                \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int)                  \
  {                                                                                                \
    at_access((uintptr_t)a, B / 8, true, is_acq(mo), is_rel(mo), PC);                              \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);              \
    return c;                                                                                      \
  }
  AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
  void __tsan_atomic_thread_fence(int) { __sync_synchronize(); sync_point("fence"); }
  void __tsan_atomic_signal_fence(int) {}
}
