// Simulated parallel minimisation, concurrent potential evaluation and
// concurrent logging.  Everything from the BSMPT library in this binary is
// compiled with access instrumentation.
#include "models.hpp"
#include <BSMPT/ThermalFunctions/ThermalFunctions.h>
#include <BSMPT/minimizer/LibNLOPT/MinimizeNLOPT.h>
#include <BSMPT/minimizer/MinimizeGSL.h>
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/utility/Logger.h>
#include <algorithm>
#include <dlfcn.h>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_multimin.h>
#include <set>
#include <map>
#include <nlopt.h>
#include <sstream>
#include <thread>

using namespace simm;
using sim::json;
using sim::Outside;
namespace BM = BSMPT::Minimizer;
using Row    = std::vector<double>;

// ---------------------------------------------------------------- seams
// What the minimiser libraries were asked and what they answered, and the
// place where they are made to fail.
struct Local
{
  Row start, x;
  bool ok = false;
  int tid = 0;
  bool failed = false;
};
struct Cand
{
  Row x;
  int code = 0;
};
static struct Hist
{
  bool on = false;
  int fail_permille = 0;
  int fail_T        = 0; // share of temperatures at which no local search converges
  uint64_t salt     = 0;
  int nlopt_code    = 0;      // 0: no fault
  int nlopt_permille = 1000;
  std::vector<Local> done;
  std::map<void *, Local> live;
  std::map<uint64_t, void *> last_by_thread;
  std::vector<Cand> nl;
  uint64_t gsl_failed = 0, nl_failed = 0, iters = 0, nl_calls = 0;
  uint64_t starts = 0, max_starts = 0; // local searches begun, and how many can be needed at most
} H;

static Row vec(const gsl_vector *v)
{
  Row r;
  for (size_t i = 0; i < v->size; ++i)
    r.push_back(v->data[i * v->stride]);
  return r;
}
extern "C"
{
  int gsl_multimin_fminimizer_set(gsl_multimin_fminimizer *s, gsl_multimin_function *f, const gsl_vector *x, const gsl_vector *ss)
  {
    static auto rf = (int (*)(gsl_multimin_fminimizer *, gsl_multimin_function *, const gsl_vector *, const gsl_vector *))dlsym(
        RTLD_NEXT, "gsl_multimin_fminimizer_set");
    if (H.on)
    {
      Outside o;
      if (++H.starts > H.max_starts)
        sim::violation("no-termination", "more than " + std::to_string(H.max_starts) + " local searches were begun (at most 600 starting points per minimisation)");
      Local l;
      l.start = vec(x);
      l.tid   = sim::sched_tid();
      uint64_t h = sim::hash_doubles(l.start, 1469598103934665603ull ^ H.salt);
      l.failed   = H.fail_permille > 0 && (int)((h >> 20) % 1000) < H.fail_permille;
      if (H.fail_T > 0 && f->params)
        l.failed = l.failed || (int)((sim::hash_doubles({static_cast<BM::GSL_params *>(f->params)->Temp}, 77 ^ H.salt) >> 20) % 1000) < H.fail_T;
      H.live[s]  = l;
    }
    return rf(s, f, x, ss);
  }
  int gsl_multimin_fminimizer_iterate(gsl_multimin_fminimizer *s)
  {
    static auto rf = (int (*)(gsl_multimin_fminimizer *))dlsym(RTLD_NEXT, "gsl_multimin_fminimizer_iterate");
    if (H.on)
    {
      bool fail = false;
      {
        Outside o;
        auto it = H.live.find(s);
        if (it != H.live.end() && it->second.failed)
        {
          fail = true;
          ++H.gsl_failed;
        }
        ++H.iters;
        H.last_by_thread[(uint64_t)sim::sched_tid()] = s;
      }
      if (fail) return GSL_ENOPROG;
    }
    return rf(s);
  }
  int gsl_multimin_test_size(const double size, double epsabs)
  {
    static auto rf = (int (*)(const double, double))dlsym(RTLD_NEXT, "gsl_multimin_test_size");
    int r          = rf(size, epsabs);
    if (H.on)
    {
      Outside o;
      auto it = H.last_by_thread.find((uint64_t)sim::sched_tid());
      if (it != H.last_by_thread.end() && H.live.count(it->second)) H.live[it->second].ok = r == GSL_SUCCESS;
    }
    return r;
  }
  void gsl_multimin_fminimizer_free(gsl_multimin_fminimizer *s)
  {
    static auto rf = (void (*)(gsl_multimin_fminimizer *))dlsym(RTLD_NEXT, "gsl_multimin_fminimizer_free");
    if (H.on && s)
    {
      Outside o;
      auto it = H.live.find(s);
      if (it != H.live.end())
      {
        it->second.x = vec(s->x);
        H.done.push_back(it->second);
        H.live.erase(it);
      }
    }
    rf(s);
  }
  nlopt_result nlopt_optimize(nlopt_opt opt, double *x, double *f)
  {
    static auto rf = (nlopt_result(*)(nlopt_opt, double *, double *))dlsym(RTLD_NEXT, "nlopt_optimize");
    int code       = 0;
    if (H.on)
    {
      Outside o;
      ++H.nl_calls;
      if (H.nlopt_code)
      {
        uint64_t h = sim::hash_bytes(&H.nl_calls, 8, H.salt ^ 0x99);
        if ((int)((h >> 20) % 1000) < H.nlopt_permille)
        {
          code = H.nlopt_code;
          ++H.nl_failed;
        }
      }
    }
    if (code) return (nlopt_result)code;
    nlopt_result r = rf(opt, x, f);
    if (H.on)
    {
      Outside o;
      Cand c;
      c.code = (int)r;
      c.x    = Row(x, x + nlopt_get_dimension(opt));
      H.nl.push_back(c);
    }
    return r;
  }
}
static void hist_begin(const json &p)
{
  Outside o;
  H               = Hist{};
  H.fail_permille = p.value("gslfail", 0);
  H.salt          = p.value("salt", (uint64_t)0);
  H.fail_T        = p.value("gslfailT", 0);
  H.nlopt_code    = p.value("nloptfail", 0);
  H.nlopt_permille = p.value("nloptpermille", 1000);
  H.max_starts    = p.value("scn", "pt") == "pt" ? 100000 : 6000; // one minimisation, or a whole bisection
  H.on            = true;
}
static Hist hist_end()
{
  Outside o;
  Hist h = H;
  H.on   = false;
  return h;
}

static std::map<std::string, Ptr> g_models;
static Ptr model_of(const json &p, const char *copy = "")
{
  std::string k = copy + p["model"].get<std::string>() + "|" + p.value("row", "");
  if (p.contains("shape"))
  {
    std::string ks = k + p["shape"].dump();
    if (!g_models.count(ks))
    {
      json q = p;
      q.erase("shape");
      g_models[ks] = clone(*model_of(q));
      reshape(g_models[ks].get(), p["shape"][0], p["shape"][1]);
    }
    return g_models[ks];
  }
  auto it       = g_models.find(k);
  if (it != g_models.end()) return it->second;
  if (*copy) return g_models[k] = clone(*model_of(p));
  return g_models[k] = make_at(p["model"], p.value("legend", ""), p.value("row", ""));
}

static std::multiset<Row> as_set(const std::vector<Row> &v) { return {v.begin(), v.end()}; }
static bool includes_all(const std::multiset<Row> &big, const std::multiset<Row> &small, Row &missing)
{
  for (auto it = small.begin(); it != small.end(); it = small.upper_bound(*it))
    if (big.count(*it) < small.count(*it))
    {
      missing = *it;
      return false;
    }
  return true;
}
struct Fault
{
  std::string kind, text;
};
#define BAD(k, t)                                                                                  \
  do                                                                                               \
  {                                                                                                \
    std::ostringstream _s;                                                                         \
    _s << t;                                                                                       \
    sim::violation(k, _s.str());                                                                   \
  } while (0)

static double val(const Class_Potential_Origin &m, const Row &x, double T) { return m.VEff(m.MinimizeOrderVEV(x), T); }

// ---------------------------------------------------------------- scenarios
static json scn_gsl(const json &p)
{
  auto m          = model_of(p);
  double T        = p["T"];
  int seed        = p.value("seed", 5);
  size_t maxsol   = p["maxsol"];
  size_t nt       = BM::Num_threads;
  const bool wantmem = p.value("repeat", 1) > 0;
  (void)wantmem;
  // the sequential reference, on the very same build
  std::vector<Row> lo, hi;
  hist_begin(p);
  auto rlo = BM::GSL_Minimize_gen_all(*m, T, seed, lo, maxsol, false);
  auto hlo = hist_end();
  hist_begin(p);
  auto rhi = BM::GSL_Minimize_gen_all(*m, T, seed, hi, maxsol + nt - 1, false);
  hist_end();
  for (auto &r : hlo.done)
    (void)r;

  std::vector<Row> par;
  hist_begin(p);
  sim::env_begin(p);
  sim::sched_begin(p);
  std::pair<Row, bool> rp;
  bool threw = false;
  std::string what;
  try
  {
    rp = BM::GSL_Minimize_gen_all(*m, T, seed, par, maxsol, true);
  }
  catch (const std::exception &e)
  {
    threw = true;
    what  = e.what();
  }
  json st = sim::sched_end();
  sim::env_end();
  Hist h = hist_end();
  Outside o;
  json out = {{"status", "ok"}, {"found", par.size()}, {"found_seq", lo.size()}, {"starts", h.done.size()},
              {"starts_seq", hlo.done.size()}, {"gsl_failed", h.gsl_failed}, {"exhausted", hlo.done.size() >= 600}};
  if (threw)
  {
    if (!p.contains("env")) BAD("exception", "the parallel minimisation threw: " << what);
    out["outcome"] = "exception";
    return out;
  }
  if (p.value("only", "") == "terminate") return out;
  const size_t dim = m->get_nVEV();
  // (a) what was saved is what the local minimisations of this run produced, each once
  std::multiset<Row> got, made;
  for (auto &r : par)
    got.insert(Row(r.begin(), r.begin() + (long)dim));
  for (auto &l : h.done)
    if (l.ok && !l.failed) made.insert(l.x);
  Row miss;
  if (!h.done.empty())
  {
    std::set<Row> starts;
    for (auto &l : h.done)
      if (!starts.insert(l.start).second) BAD("start-repeated", "starting point " << show(l.start) << " was minimised twice");
    if (!includes_all(got, made, miss)) BAD("minimum-lost", "the local minimum " << show(miss) << " was found by a worker but is not among the reported minima");
    if (!includes_all(made, got, miss)) BAD("minimum-invented", "the reported minimum " << show(miss) << " was not produced by any worker, or is reported more often than it was found");
  }
  // (b) against the sequential run
  auto slo = as_set(lo), shi = as_set(hi), sp = as_set(par);
  if (!includes_all(sp, slo, miss)) BAD("sequential-minimum-missing", "the sequential run reports " << show(miss) << ", the parallel run does not (" << par.size() << " vs " << lo.size() << " minima)");
  if (!includes_all(shi, sp, miss)) BAD("minimum-unexpected", "the parallel run reports " << show(miss) << " which no sequential run over the same starting points does");
  if (par.size() > maxsol + nt - 1) BAD("too-many", par.size() << " minima for MaxSol=" << maxsol << " and " << nt << " workers");
  // (c) the returned point is the best of the reported ones, and never worse than the sequential one
  if (rp.second != rlo.second) BAD("status", "parallel success=" << rp.second << ", sequential success=" << rlo.second);
  if (rp.second)
  {
    double v = val(*m, rp.first, T), best = INFINITY;
    bool member = false;
    for (auto &r : par)
    {
      best = std::min(best, r.at(dim + 1));
      if (same(Row(r.begin(), r.begin() + (long)dim), rp.first)) member = true;
      double again = val(*m, Row(r.begin(), r.begin() + (long)dim), T);
      if (!(again == r.at(dim + 1))) BAD("value-mismatch", "reported potential value " << r.at(dim + 1) << " but the potential there is " << again);
      double ew = m->EWSBVEV(m->MinimizeOrderVEV(Row(r.begin(), r.begin() + (long)dim)));
      if (!(ew == r.at(dim))) BAD("value-mismatch", "reported EW vev " << r.at(dim) << " but it is " << ew);
    }
    if (!member) BAD("not-a-candidate", "the returned minimum " << show(rp.first) << " is not among the reported ones");
    if (v > best) BAD("not-the-best", "returned V=" << v << " although V=" << best << " was reported");
    double vs = val(*m, rlo.first, T);
    if (v > vs) BAD("worse-than-sequential", "parallel V=" << v << " > sequential V=" << vs);
  }
  else if (!rp.first.empty())
    BAD("status", "failure reported together with a minimum");
  out["fp"] = sim::hex(sim::hash_doubles(rp.first));
  (void)rhi;
  return out;
}

static Row zeroed(const Class_Potential_Origin &m, Row x)
{
  if (m.EWSBVEV(m.MinimizeOrderVEV(x)) <= 0.5) m.SetEWVEVZero(x);
  return x;
}

static json scn_gen(const json &p)
{
  auto m    = model_of(p);
  double T  = p["T"];
  int which = p["which"];
  bool mt   = p.value("mt", true);
  Row start = m->get_vevTreeMin(), chk_s, chk;
  hist_begin(p);
  Row rs  = BM::Minimize_gen_all(m, T, chk_s, start, which, false);
  auto hs = hist_end();

  hist_begin(p);
  sim::env_begin(p);
  sim::sched_begin(p);
  Row r;
  bool threw = false;
  std::string what;
  try
  {
    r = BM::Minimize_gen_all(m, T, chk, start, which, mt);
  }
  catch (const std::exception &e)
  {
    threw = true;
    what  = e.what();
  }
  json st = sim::sched_end();
  sim::env_end();
  Hist h = hist_end();
  Outside o;
  json out = {{"status", "ok"}, {"gsl_failed", h.gsl_failed}, {"nl_failed", h.nl_failed}, {"locals", h.done.size()}, {"nl_calls", h.nl_calls}};
  if (threw)
  {
    if (!p.contains("env")) BAD("exception", "the minimisation threw: " << what);
    out["outcome"] = "exception";
    return out;
  }
  if (r.size() != m->get_nVEV()) BAD("shape", "result has " << r.size() << " components, the model has " << m->get_nVEV());
  auto judge = [&](const char *who, const Row &res, const Hist &hist, const Row &check)
  {
    bool gsl_ok = false;
    struct C
    {
      Row x;
      std::string from;
      bool must;
    };
    std::vector<C> cands;
    cands.push_back({Row(m->get_nVEV(), 0), "origin", true});
    for (auto &l : hist.done)
      if (l.ok && !l.failed)
      {
        cands.push_back({l.x, "gsl", true});
        gsl_ok = true;
      }
    for (auto &c : hist.nl)
      if (c.code > 0) cands.push_back({c.x, "nlopt", c.code == 1 || c.code == 3 || c.code == 4});
    double best = INFINITY, mine = INFINITY;
    std::string best_from, mine_from;
    for (auto &c : cands)
    {
      double v = val(*m, c.x, T);
      if (c.must && v < best)
      {
        best      = v;
        best_from = c.from + show(c.x);
      }
      if (same(zeroed(*m, c.x), res) || same(c.x, res))
        if (v < mine)
        {
          mine      = v;
          mine_from = c.from;
        }
    }
    // -0.0 and 0.0 are the same point
    if (mine == INFINITY)
      for (auto &c : cands)
        if (zeroed(*m, c.x) == res) mine = std::min(mine, val(*m, c.x, T));
    if (mine == INFINITY) BAD("not-a-candidate", who << ": " << show(res) << " is neither the origin nor a point any minimiser returned");
    if (mine > best) BAD("not-the-best", who << ": returned " << show(res) << " with V=" << mine << " although " << best_from << " with V=" << best << " was found");
    bool flag_ok = !check.empty() && ((check.back() == 1) == gsl_ok) && (check.back() == 1 || check.back() == -1);
    if ((which / 2) % 2 == 1 && !flag_ok) BAD("status-flag", who << ": the status flag says " << (check.empty() ? 0 : check.back()) << " but the local search " << (gsl_ok ? "succeeded" : "found nothing"));
    return mine_from;
  };
  judge("sequential", rs, hs, chk_s);
  out["winner"] = judge("parallel", r, h, chk);
  double v = val(*m, r, T), vs = val(*m, rs, T);
  // the last step may move a point with a tiny EW vev to the symmetric axis
  double tol = 0;
  if (!(zeroed(*m, rs) == rs) || m->EWSBVEV(m->MinimizeOrderVEV(rs)) == 0 || m->EWSBVEV(m->MinimizeOrderVEV(r)) == 0) tol = 1e-6 * std::abs(vs) + 1;
  if (v > vs + tol) BAD("worse-than-sequential", "parallel " << show(r) << " V=" << v << ", sequential " << show(rs) << " V=" << vs);
  out["fp"] = sim::hex(sim::hash_doubles(r));
  return out;
}

static json scn_pt(const json &p)
{
  auto m    = model_of(p);
  int which = p["which"];
  double T0 = p.value("tlow", 0.0), T1 = p.value("thigh", 300.0);
  // NLopt as the only minimiser that delivers: how well it searches is not
  // judged, only that the same failures give the same answer
  const bool nlopt_alone = which == 4 || p.value("gslfailT", 0) > 0 || p.value("gslfail", 0) >= 1000;
  json lasting           = json::object();
  if (p.value("gslfail", 0) >= 1000) lasting["gslfail"] = p["gslfail"];
  if (p.contains("gslfailT")) lasting["gslfailT"] = p["gslfailT"], lasting["salt"] = p["salt"];
  if (p.contains("nloptfail") && p.value("nloptpermille", 1000) >= 1000) lasting["nloptfail"] = p["nloptfail"], lasting["nloptpermille"] = 1000;
  hist_begin(lasting);
  auto ref = BM::PTFinder_gen_all(m, T0, T1, which, false);
  hist_end();
  hist_begin(p);
  sim::env_begin(p);
  sim::sched_begin(p);
  BM::EWPTReturnType r;
  bool threw = false;
  std::string what;
  try
  {
    r = BM::PTFinder_gen_all(m, T0, T1, which, p.value("mt", true));
  }
  catch (const std::exception &e)
  {
    threw = true;
    what  = e.what();
  }
  json st = sim::sched_end();
  sim::env_end();
  Hist h = hist_end();
  Outside o;
  json out = {{"status", "ok"}, {"flag", threw ? 0 : (int)r.StatusFlag}, {"gsl_failed", h.gsl_failed}, {"nl_failed", h.nl_failed}};
  if (threw)
  {
    if (!p.contains("env")) BAD("exception", "the temperature search threw: " << what);
    out["outcome"] = "exception";
    return out;
  }
  using MS = BM::MinimizerStatus;
  out["Tc"] = r.Tc;
  out["vc"] = r.vc;
  if (r.EWMinimum.size() != m->get_nVEV()) BAD("shape", "the minimum has " << r.EWMinimum.size() << " components");
  double ew = m->EWSBVEV(m->MinimizeOrderVEV(r.EWMinimum));
  auto best_at = [&](double T)
  {
    Row c;
    // the oracle has the same minimisers, persistently failing ones included
    json q = p;
    if (p.value("nloptpermille", 1000) < 1000) q.erase("nloptfail");
    hist_begin(q);
    Row b = BM::Minimize_gen_all(m, T, c, m->get_vevTreeMin(), which, false);
    hist_end();
    return b;
  };
  auto ewof = [&](const Row &x) { return m->EWSBVEV(m->MinimizeOrderVEV(x)); };
  if (r.StatusFlag == MS::SUCCESS)
  {
    if (!(r.Tc >= T0 && r.Tc <= T1)) BAD("range", "Tc=" << r.Tc << " outside the search range");
    if (r.vc != 0 || r.Tc > T0)
    {
      if (std::abs(ew - r.vc) > 1e-9 * (1 + ew)) BAD("vc-mismatch", "vc=" << r.vc << " but the reported minimum has EW vev " << ew);
      if (!(r.vc > 0)) BAD("vc-mismatch", "success with vc=" << r.vc);
      double v0 = m->VEff(Row(m->get_NHiggs(), 0), r.Tc), vm = val(*m, r.EWMinimum, r.Tc);
      if (vm > v0 + 1e-9 * std::abs(v0)) BAD("not-broken-at-Tc", "at Tc=" << r.Tc << " the reported broken minimum has V=" << vm << " above the symmetric point V=" << v0);
      auto b = best_at(r.Tc);
      if (!nlopt_alone && val(*m, b, r.Tc) < vm - 1e-6 * std::abs(vm) - 10) BAD("not-global-at-Tc", "at Tc=" << r.Tc << " " << show(b) << " is deeper than the reported " << show(r.EWMinimum));
    }
    auto a = best_at(r.Tc + 0.05);
    if (!nlopt_alone && ewof(a) > 1e-2 && r.Tc + 0.05 < T1) BAD("still-broken", "Tc=" << r.Tc << " is reported, but at T=" << r.Tc + 0.05 << " the minimum is still broken: " << show(a));
  }
  if (p.value("gslfailT", 0) > 0)
  { // what the minimisers find depends on the temperature alone (several workers find no less
    // than one): the steps above the reported temperature are repeated
    double a = T0, e = T1;
    if (r.StatusFlag == MS::SUCCESS && r.vc > 0)
      while (std::abs(e - a) > 1e-2)
      {
        double t = 0.5 * (a + e), w = ewof(best_at(t));
        bool up  = t <= r.Tc;
        if (!up && w > 0.6) BAD("step-judged-wrong", "Tc=" << r.Tc << " is reported, but at the temperature " << t << " of the search the minimisers find a broken minimum with vev " << w);
        (up ? a : e) = t;
      }
  }
  if (r.StatusFlag == MS::BELOWTHRESHOLD)
  {
    if (std::abs(ew - r.vc) > 1e-9 * (1 + ew)) BAD("vc-mismatch", "below the threshold: vc=" << r.vc << " but the reported minimum has EW vev " << ew);
    if (!(r.vc > 0 && r.vc / r.Tc < BSMPT::C_PT)) BAD("status", "reported as below the threshold with vc=" << r.vc << " at T=" << r.Tc);
    if (!(r.Tc >= T0 && r.Tc <= T1)) BAD("range", "T=" << r.Tc << " outside the search range");
  }
  if (r.StatusFlag == MS::NOTVANISHINGATFINALTEMP && ewof(best_at(T1)) <= 1e-4) BAD("status", "reported as not vanishing at the final temperature, but the minimum there is symmetric");
  // the status of the fault-free sequential search must be reproduced
  if (r.StatusFlag != ref.StatusFlag && !p.value("harsh", false)) BAD("status", "status " << (int)r.StatusFlag << ", the sequential search reports " << (int)ref.StatusFlag);
  if (r.StatusFlag == MS::SUCCESS && ref.StatusFlag == MS::SUCCESS && std::abs(r.Tc - ref.Tc) > 0.05) BAD("Tc-differs", "Tc=" << r.Tc << ", the sequential search finds " << ref.Tc);
  out["fp"] = sim::hex(sim::hash_doubles({r.Tc, r.vc}));
  return out;
}

// ---- a const model shared by threads
static Row eval_op(const Class_Potential_Origin &m, const json &op)
{
  std::string k = op[0];
  Row x         = op[1].get<Row>();
  double T      = op[2];
  Row full      = m.MinimizeOrderVEV(x);
  auto flat     = [](const auto &mat)
  {
    Row r;
    for (long i = 0; i < mat.rows(); ++i)
      for (long j = 0; j < mat.cols(); ++j)
        r.push_back(std::real(mat(i, j)));
    return r;
  };
  if (k == "V") return {m.VEff(full, T)};
  if (k == "dVdT") return {m.VEff(full, T, -1)};
  if (k == "dV") return {m.VEff(full, T, 1 + (int)m.Get_VevOrder()[0])};
  if (k == "V0") return {m.VEff(full, T, 0, 0)};
  if (k == "tree") return {m.VTree(full), m.CounterTerm(full)};
  if (k == "loop") return {m.V1Loop(full, T, 0)};
  if (k == "mh") return m.HiggsMassesSquared(full, T);
  if (k == "mg") return m.GaugeMassesSquared(full, T);
  if (k == "mq") return m.QuarkMassesSquared(full);
  if (k == "ml") return m.LeptonMassesSquared(full);
  if (k == "Mh") return flat(m.HiggsMassMatrix(full, T));
  if (k == "ew") return {m.EWSBVEV(full)};
  if (k == "ct") return m.get_parCTStored();
  if (k == "nlo") return {(double)m.CheckNLOVEV(x)};
  if (k == "zero")
  {
    Row y = x;
    m.SetEWVEVZero(y);
    return y;
  }
  if (k == "short") return {m.VEff(x, T)}; // reduced dimension: documented, logs a warning
  if (k == "local")
  {
    BM::GSL_params gp(m, T);
    Row sol;
    BM::GSL_Minimize_From_S_gen_all(gp, sol, x);
    return sol;
  }
  if (k == "therm")
    return {BSMPT::ThermalFunctions::JbosonInterpolated(x[0] * 0.01), BSMPT::ThermalFunctions::JfermionInterpolated(std::abs(x[0]) * 0.01)};
  throw std::runtime_error("unknown op " + k);
}
static json scn_veff(const json &p)
{
  // the shared object and the reference object are built from the same row, independently
  std::ostringstream sink;
  BSMPT::Logger::SetOStream(sink);
  Ptr shared = model_of(p);
  Ptr fresh  = model_of(p, "fresh:");
  const json &ops = p["ops"]; // per thread a list
  std::vector<std::vector<Row>> want(ops.size()), got(ops.size());
  // every evaluation alone on its own copy, in the opposite order
  for (size_t t = ops.size(); t-- > 0;)
  {
    for (size_t i = ops[t].size(); i-- > 0;)
      want[t].push_back(eval_op(*clone(*fresh), ops[t][i]));
    std::reverse(want[t].begin(), want[t].end());
  }
  for (size_t t = 0; t < ops.size(); ++t)
    for (size_t i = 0; i < ops[t].size(); ++i)
    {
      Row r = eval_op(*fresh, ops[t][i]);
      if (!same(r, want[t][i])) BAD("history-dependent", "evaluation " << ops[t][i].dump() << " gives " << show(r) << " after other evaluations, " << show(want[t][i]) << " on an untouched object");
    }
  sim::env_begin(p);
  sim::sched_begin(p);
  const Class_Potential_Origin &m = *shared;
  {
    std::vector<std::thread> th;
    for (size_t t = 0; t < ops.size(); ++t)
      th.emplace_back(
          [&, t]
          {
            for (auto &op : ops[t])
            {
              Row r = eval_op(m, op);
              Outside o;
              got[t].push_back(r);
            }
          });
    for (auto &t : th)
      t.join();
  }
  json st = sim::sched_end();
  sim::env_end();
  Outside o;
  size_t n = 0;
  for (size_t t = 0; t < ops.size(); ++t)
    for (size_t i = 0; i < ops[t].size(); ++i, ++n)
      if (!same(want[t][i], got[t][i]))
        BAD("value-differs", "evaluation " << ops[t][i].dump() << " gives " << show(got[t][i]) << " while other threads use the model, " << show(want[t][i]) << " alone");
  return {{"status", "ok"}, {"evals", n}};
}

// ---- logging from several threads through a slow device
struct SlowBuf : std::streambuf
{
  std::string data;
  int overflow(int c) override
  {
    sim::sync_point("device");
    {
      Outside o;
      data.push_back((char)c);
    }
    sim::sync_point("device");
    return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override
  {
    // a device takes what it likes
    for (std::streamsize i = 0; i < n;)
    {
      std::streamsize k = std::min<std::streamsize>(n - i, 7);
      {
        Outside o;
        data.append(s + i, (size_t)k);
      }
      i += k;
      sim::sync_point("device");
    }
    return n;
  }
  int sync() override
  {
    sim::sync_point("device");
    return 0;
  }
};
// rounds of: settings changed by one thread, then several threads writing.
// A small reference model (which levels are on) decides what must appear.
static json scn_log(const json &p)
{
  static SlowBuf bufs[2];
  static std::ostream os0(&bufs[0]), os1(&bufs[1]);
  std::ostream *oss[2] = {&os0, &os1};
  using L = BSMPT::LoggingLevel;
  const std::vector<L> lv{L::Default, L::MinimizerDetailed, L::MinTracerDetailed, L::TransitionDetailed, L::ProgDetailed, L::Debug,
                          L::GWDetailed, L::BounceDetailed, L::EWBGDetailed, L::Complete, L::None};
  static const std::map<std::string, int> names{{"default", 0}, {"minimizerdetailed", 1}, {"mintracerdetailed", 2}, {"transitiondetailed", 3}, {"progdetailed", 4},
                                                {"debug", 5}, {"gwdetailed", 6}, {"bouncedetailed", 7}, {"ewbgdetailed", 8}, {"complete", 9}};
  std::vector<int> on(lv.size(), 0);
  on[0] = 1;
  int cur = 0;
  std::string bad;
  size_t lines = 0;
  sim::env_begin(p);
  sim::sched_begin(p);
  BSMPT::Logger::SetOStream(os0);
  for (auto &round : p["rounds"])
  {
    for (auto &s : round["setup"])
    {
      std::string k;
      std::vector<std::string> args;
      std::map<L, bool> m;
      int a = 0, b = 0;
      {
        Outside o;
        k = s[0];
        if (k == "set" || k == "status" || k == "stream") a = s[1];
        if (k == "set")
        {
          b     = s[2];
          on[a] = b;
        }
        if (k == "stream") cur = a;
        if (k == "map")
          for (auto &x : s[1])
          {
            m[lv[x[0].get<size_t>()]] = x[1].get<int>();
            on[x[0].get<size_t>()]    = x[1];
          }
        if (k == "disable") std::fill(on.begin(), on.end(), 0);
        if (k == "args")
          for (auto &x : s[1])
          {
            args.push_back("--logginglevel::" + x[0].get<std::string>() + "=" + (x[1].get<int>() ? "true" : "false"));
            on[names.at(x[0])] = x[1];
            if (x[0] == "complete" && x[1].get<int>())
            {
              for (auto &n : names)
                on[n.second] = 1;
              on[1] = 0;
            }
          }
      }
      if (k == "set") BSMPT::Logger::SetLevel(lv[a], b);
      if (k == "map") BSMPT::Logger::SetLevel(m);
      if (k == "disable") BSMPT::Logger::Disable();
      if (k == "stream") BSMPT::Logger::SetOStream(*oss[a]);
      if (k == "args") BSMPT::SetLogger(args);
      if (k == "status" && BSMPT::Logger::GetLoggingLevelStatus(lv[a]) != (bool)on[a])
        bad = "the status of level " + std::to_string(a) + " is reported as " + (on[a] ? "off" : "on");
    }
    const json &ops = round["ops"];
    std::vector<int> moving(lv.size(), 0), last(lv.size(), -1);
    std::vector<std::vector<std::string>> want(ops.size()), may(ops.size());
    size_t start[2];
    {
      Outside o;
      for (int k = 0; k < 2; ++k)
        start[k] = bufs[k].data.size();
      for (auto &t : ops)
        for (auto &op : t)
          if (op[0] == "set")
          {
            moving[op[1].get<size_t>()]++;
            last[op[1].get<size_t>()] = op[2];
          }
    }
    {
      std::vector<std::thread> th;
      for (size_t t = 0; t < ops.size(); ++t)
        th.emplace_back(
            [&, t]
            {
              for (auto &op : ops[t])
              {
                int level = 0, to = 0, number = -1, line = -1;
                std::string msg, file;
                bool ask = false, set = false;
                {
                  Outside o;
                  set = op[0] == "set";
                  if (set)
                  {
                    level = op[1];
                    to    = op[2];
                  }
                  else
                  {
                    level  = op[0];
                    msg    = op[1];
                    ask    = op[2].value("ask", false);
                    file   = op[2].value("file", std::string());
                    line   = op[2].value("line", -1);
                    number = op[2].value("number", -1);
                    std::string text = (file.empty() ? "" : "file: " + file + "; ") + (line >= 0 ? "Line: " + std::to_string(line) + "; " : "") + (number >= 0 ? std::to_string(number) : msg);
                    if (moving[level]) may[t].push_back(text);
                    else if (on[level]) want[t].push_back(text);
                  }
                }
                if (set)
                {
                  BSMPT::Logger::SetLevel(lv[level], to);
                  continue;
                }
                if (ask)
                {
                  bool is = BSMPT::Logger::GetLoggingLevelStatus(lv[level]);
                  Outside o;
                  if (!moving[level] && is != (bool)on[level]) bad = "the status of level " + std::to_string(level) + " is reported as " + (is ? "on" : "off");
                }
                if (number >= 0) BSMPT::Logger::Write(lv[level], number, file, line);
                else BSMPT::Logger::Write(lv[level], msg, file, line);
              }
            });
      for (auto &t : th)
        t.join();
    }
    Outside o;
    // a level moved by exactly one thread ends where that thread put it
    for (size_t l = 0; l < lv.size(); ++l)
      if (moving[l]) on[l] = last[l];
    if (!bad.empty()) BAD("status-wrong", bad);
    for (int k = 0; k < 2; ++k)
    {
      std::string text = bufs[k].data.substr(start[k]);
      if (k != cur)
      {
        if (!text.empty()) BAD("line-elsewhere", "text appears on the stream that was replaced: " << text.substr(0, 200));
        continue;
      }
      if (!text.empty() && text.back() != '\n') BAD("line-damaged", "the log does not end with a complete line:\n" << text.substr(0, 600));
      std::istringstream is(text);
      std::string line;
      std::vector<std::string> got;
      while (std::getline(is, line))
        got.push_back(line);
      std::multiset<std::string> have(got.begin(), got.end()), left = have;
      for (auto &t : want)
      {
        size_t at = 0;
        for (auto &w : t)
        {
          auto x = left.find(w);
          if (x == left.end()) BAD("line-damaged", "the message \"" << w << "\" does not appear as one whole line; log is:\n" << text.substr(0, 600));
          left.erase(x);
          ++lines;
          // texts are unique unless they are numbers
          if (have.count(w) > 1) continue;
          size_t i = std::find(got.begin(), got.end(), w) - got.begin();
          if (i < at) BAD("line-order", "the message \"" << w << "\" appears before an earlier one of the same thread; log is:\n" << text.substr(0, 600));
          at = i;
        }
      }
      for (auto &t : may)
        for (auto &w : t)
        {
          auto x = left.find(w);
          if (x != left.end()) left.erase(x);
        }
      if (!left.empty()) BAD("line-unexpected", "the log holds \"" << *left.begin() << "\", which was not written at an enabled level:\n" << text.substr(0, 600));
    }
  }
  sim::sched_end();
  sim::env_end();
  return {{"status", "ok"}, {"lines", lines}};
}

static json run(const json &p)
{
  std::string s = p["scn"];
  if (s == "gsl") return scn_gsl(p);
  if (s == "gen") return scn_gen(p);
  if (s == "pt") return scn_pt(p);
  if (s == "veff") return scn_veff(p);
  if (s == "log") return scn_log(p);
  return {{"status", "error"}, {"detail", "unknown scenario"}};
}
int main(int argc, char **argv)
{
  auto prep = [](const json &p)
  {
    if (!p.contains("model")) return;
    model_of(p);
    if (p["scn"] == "veff") model_of(p, "fresh:");
  };
  return sim::serve(argc, argv, run, prep);
}
