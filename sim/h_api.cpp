// Histories of library calls on one object: model objects that are loaded
// again and again, phases that are asked for temperatures in any order.
#include "models.hpp"
#include <BSMPT/minimizer/Minimizer.h>
#include <BSMPT/minimum_tracer/minimum_tracer.h>
#include <BSMPT/utility/Logger.h>
#include <gsl/gsl_errno.h>
#include <iostream>

using namespace BSMPT;
using sim::json;
using sim::Outside;
using Row = std::vector<double>;
using simm::hexd;

// one computation on a model; everything drawn from the seed
static Row observe(const std::shared_ptr<Class_Potential_Origin> &mp, const std::string &what, uint64_t seed)
{
  auto &m = *mp;
  sim::Rng g(seed);
  Row r;
  auto add  = [&](const Row &v) { r.insert(r.end(), v.begin(), v.end()); };
  auto addm = [&](const Eigen::MatrixXd &v)
  {
    for (int i = 0; i < v.rows(); ++i)
      for (int j = 0; j < v.cols(); ++j)
        r.push_back(v(i, j));
  };
  auto point = [&](double range)
  {
    Row v(m.get_nVEV());
    for (auto &x : v)
      x = range * (2 * g.unit() - 1);
    return m.MinimizeOrderVEV(v);
  };
  auto temp = [&] { return g.below(3) ? 20 + 280 * g.unit() : 0.; };
  auto vev  = [&] { return g.below(3) ? point(300) : m.MinimizeOrderVEV(m.get_vevTreeMin()); };
  if (what == "stored") add(m.get_parStored());
  else if (what == "ct") add(m.get_parCTStored());
  else if (what == "scale") r.push_back(m.get_scale());
  else if (what == "vevtree") add(m.get_vevTreeMin());
  else if (what == "order")
  {
    for (auto x : m.Get_VevOrder())
      r.push_back((double)x);
  }
  else if (what == "veff")
  {
    for (int i = 0; i < 4; ++i)
    {
      Row v = vev();
      r.push_back(m.VEff(v, temp(), 0));
    }
  }
  else if (what == "dveff")
  {
    Row v    = vev();
    double T = 20 + 280 * g.unit();
    r.push_back(m.VEff(v, T, -1));
    r.push_back(m.VEff(v, T, 1 + (int)g.below(m.get_nVEV())));
  }
  else if (what == "parts")
  {
    Row v = vev();
    r.push_back(m.VTree(v, 0, false));
    r.push_back(m.VTree(v, 0, true));
    r.push_back(m.CounterTerm(v, 0, false));
    r.push_back(m.CounterTerm(v, 0, true));
    r.push_back(m.V1Loop(v, temp(), 0));
  }
  else if (what == "higgs")
  {
    Row v    = vev();
    double T = temp();
    add(m.HiggsMassesSquared(v, T, 0));
    addm(m.HiggsMassMatrix(v, T, 0));
  }
  else if (what == "fermions")
  {
    Row v = vev();
    add(m.GaugeMassesSquared(v, temp(), 0));
    add(m.QuarkMassesSquared(v, 0));
    add(m.LeptonMassesSquared(v, 0));
    for (auto c : m.QuarkMasses(v))
      r.push_back(c.real()), r.push_back(c.imag());
    for (auto c : m.LeptonMasses(v))
      r.push_back(c.real()), r.push_back(c.imag());
  }
  else if (what == "debye")
  {
    if (g.below(2)) m.CalculateDebye(true);
    for (auto &x : m.get_DebyeHiggs())
      add(x);
  }
  else if (what == "nabla")
  {
    Row v = vev();
    auto n = m.NablaVCT(v);
    for (int i = 0; i < n.size(); ++i)
      r.push_back(n(i));
    addm(m.HessianCT(v));
  }
  else if (what == "ctid") add(m.GetCTIdentities());
  else if (what == "w1") add(m.WeinbergFirstDerivative());
  else if (what == "w2")
  {
    add(m.WeinbergSecondDerivative());
    addm(m.WeinbergSecondDerivativeAsMatrixXd());
  }
  else if (what == "w3") add(m.WeinbergThirdDerivative());
  else if (what == "w4") add(m.WeinbergForthDerivative());
  else if (what == "curv")
  {
    for (auto &a : m.Get_Curvature_Higgs_L2())
      add(a);
    for (auto &a : m.Get_Curvature_Higgs_L3())
      for (auto &b : a)
        add(b);
    for (auto &a : m.Get_Curvature_Higgs_L4())
      for (auto &b : a)
        for (auto &c : b)
          add(c);
    for (auto &a : m.Get_Curvature_Gauge_G2H2())
      for (auto &b : a)
        for (auto &c : b)
          add(c);
    for (auto &a : m.Get_Curvature_Quark_F2H1())
      for (auto &b : a)
        for (auto &c : b)
          r.push_back(c.real()), r.push_back(c.imag());
    for (auto &a : m.Get_Curvature_Lepton_F2H1())
      for (auto &b : a)
        for (auto &c : b)
          r.push_back(c.real()), r.push_back(c.imag());
  }
  else if (what == "triple")
  {
    m.Prepare_Triple();
    m.TripleHiggsCouplings();
    std::size_t n = m.get_NHiggs();
    for (std::size_t i = 0; i < n; ++i)
      for (std::size_t j = 0; j < n; ++j)
        for (std::size_t k = 0; k < n; ++k)
        {
          r.push_back(m.get_TripleHiggsCorrectionsTreePhysical(i, j, k));
          r.push_back(m.get_TripleHiggsCorrectionsCTPhysical(i, j, k));
          r.push_back(m.get_TripleHiggsCorrectionsCWPhysical(i, j, k));
        }
  }
  else if (what == "signs")
  {
    m.FindSignSymmetries();
    for (auto &a : m.SignSymmetries)
      add(a);
  }
  else if (what == "ewsb")
  {
    Row v = vev();
    r.push_back(m.EWSBVEV(v));
    Row s(m.get_nVEV(), 1.5);
    m.SetEWVEVZero(s);
    add(s);
    r.push_back(m.CheckNLOVEV(m.get_vevTreeMin()));
  }
  else if (what == "alpha")
  {
    Row f = m.MinimizeOrderVEV(Row(m.get_nVEV(), 0)), t = m.MinimizeOrderVEV(m.get_vevTreeMin());
    r.push_back(m.CalculateRatioAlpha(f, t, 60 + 100 * g.unit()));
  }
  else if (what == "rescale") add(m.resetScale(100 + 400 * g.unit()));
  else if (what == "setscale") m.set_scale(100 + 400 * g.unit());
  else if (what == "setall")
  {
    auto p = m.get_parStored(), c = m.get_parCTStored();
    if (p.size() != m.get_nPar() || c.size() != m.get_nParCT()) return r;
    for (auto &x : c)
      x *= 1 + 0.1 * g.unit();
    m.set_All(p, c);
  }
  else if (what == "min")
  {
    std::vector<double> check;
    add(Minimizer::Minimize_gen_all(mp, g.below(2) ? 0. : 50 + 150 * g.unit(), check, m.get_vevTreeMin(), 2 + 4 * (int)g.below(2), false));
    add(check);
  }
  else throw std::runtime_error("HARNESS: unknown observation " + what);
  return r;
}

static json digest(const Row &r)
{
  json j = {{"n", r.size()}, {"h", sim::hex(sim::hash_doubles(r))}};
  if (r.size() <= 12)
  {
    json v = json::array();
    for (double x : r)
      v.push_back(simm::show({x}));
    j["v"] = v;
  }
  return j;
}

static json step(std::shared_ptr<Class_Potential_Origin> &m, const json &s)
{
  std::string op;
  json out;
  std::string row, what;
  Row par;
  uint64_t seed = 0;
  {
    Outside o;
    op = s["op"];
    if (op == "init") row = s["row"];
    if (op == "obs") what = s["what"], seed = s["seed"];
    if (op == "initpar")
    { // the parameters loaded last, one of them changed
      par = m->get_parStored();
      sim::Rng g(s.value("seed", (uint64_t)0));
      if (!par.empty() && s.contains("seed")) par[g.below(par.size())] *= 1 + 0.1 * (g.unit() - 0.5);
      if (par.size() != m->get_nPar()) return {{"skipped", true}};
    }
  }
  sim::env_begin(s);
  try
  {
    if (op == "init")
    {
      auto r = m->initModel(row);
      Outside o;
      out = {{"par", digest(r.first)}, {"ct", digest(r.second)}};
    }
    else if (op == "initpar")
    {
      auto r = m->initModel(par);
      Outside o;
      out = {{"ct", digest(r)}};
    }
    else if (op == "obs")
    {
      auto r = observe(m, what, seed);
      Outside o;
      out = digest(r);
    }
  }
  catch (const std::exception &e)
  {
    Outside o;
    out = {{"threw", std::string(e.what()).substr(0, 100)}};
  }
  sim::env_end();
  return out;
}

static json scn_model(const json &p)
{
  std::shared_ptr<Class_Potential_Origin> m;
  sim::env_begin(p);
  m = simm::make(p["model"].get<std::string>());
  m->setUseIndexCol(p["legend"].get<std::string>());
  sim::env_end();
  json steps = json::array();
  for (auto &s : p["steps"])
    steps.push_back(step(m, s));
  json fin = json::array();
  for (auto &s : p["final"])
    fin.push_back(step(m, s));
  return {{"status", "ok"}, {"steps", steps}, {"final", fin}};
}

// ---- phases -----------------------------------------------------------------
static json point_json(const Minimum &x)
{
  return {{"T", x.temp}, {"V", x.potential}, {"p", x.point}, {"edge", x.EdgeOfPhase}};
}
static json phase_json(const Phase &f)
{
  json a = json::array();
  for (auto &x : f.MinimumPhaseVector)
    a.push_back(point_json(x));
  return {{"knots", a}, {"T_low", f.T_low}, {"T_high", f.T_high}};
}
static json scn_phase(const json &p)
{
  std::string name = p["model"];
  auto model       = simm::make_at(name, p["legend"].get<std::string>(), p["row"].get<std::string>());
  if (p.contains("shape")) simm::reshape(model.get(), p["shape"][0], p["shape"][1]);
  sim::env_begin(p);
  const json &mk = p["make"];
  auto make      = [&]
  {
    auto tr        = std::make_shared<MinimumTracer>(model, p.value("min", 2), false);
    double T0 = mk["T0"], lo = mk["lo"], hi = mk["hi"], glob = 1e10;
    Row start;
    std::string ctor = mk["ctor"];
    if (mk.contains("point")) start = mk["point"].get<Row>();
    auto at = [&](double T)
    { // where the phase begins: the deepest minimum at T, or the one next to a given point
      if (!start.empty()) return start;
      return tr->ConvertToVEVDim(tr->GetGlobalMinimum(T));
    };
    if (ctor == "glob") return Phase(T0, lo, hi, tr);
    if (ctor == "range") return Phase(T0, at(T0), lo, hi, tr);
    if (ctor == "range-glob") return Phase(T0, at(T0), lo, hi, glob, tr);
    if (ctor == "up") return Phase(at(lo), lo, hi, tr);
    if (ctor == "down") return Phase(at(hi), hi, lo, tr);
    if (ctor == "up-glob") return Phase(at(lo), lo, hi, glob, tr);
    throw std::runtime_error("HARNESS: unknown constructor");
  };
  auto V = [&](const Row &pt, double T) { return model->VEff(model->MinimizeOrderVEV(pt), T); };
  Phase ph = make();
  json out;
  out["before"] = phase_json(ph);
  if (ph.MinimumPhaseVector.empty()) return {{"status", "ok"}, {"empty", true}};
  auto knots = ph.MinimumPhaseVector;
  double lo = knots.front().temp, hi = knots.back().temp;
  json res = json::array();
  for (auto &q : p["queries"])
  {
    double T;
    if (q.contains("T")) T = q["T"];
    else if (q.contains("rel")) T = lo + q["rel"].get<double>() * (hi - lo);
    else if (q.contains("again")) T = res.empty() ? lo : res[q["again"].get<size_t>() % res.size()]["ask"].get<double>();
    else T = knots[q["knot"].get<size_t>() % knots.size()].temp + q.value("off", 0.0);
    if (!q.contains("T") && !q.value("out", false)) T = std::max(lo, std::min(hi, T));
    Minimum a = ph.Get(T);
    json j    = point_json(a);
    j["ask"]  = T;
    j["Vat"]  = V(a.point, a.temp);
    if (q.value("fresh", false))
    {
      Phase f    = make();
      Minimum b  = f.Get(T);
      j["fresh"] = point_json(b);
    }
    bool ordered = true;
    for (size_t i = 1; i < ph.MinimumPhaseVector.size(); ++i)
      if (!(ph.MinimumPhaseVector[i - 1].temp < ph.MinimumPhaseVector[i].temp)) ordered = false;
    j["ordered"] = ordered;
    j["n"]       = ph.MinimumPhaseVector.size();
    j["front"]   = ph.MinimumPhaseVector.front().temp;
    j["back"]    = ph.MinimumPhaseVector.back().temp;
    j["lo"]      = ph.T_low;
    j["hi"]      = ph.T_high;
    res.push_back(j);
  }
  out["queries"] = res;
  out["after"]   = phase_json(ph);
  json vat       = json::array();
  for (auto &x : ph.MinimumPhaseVector)
    vat.push_back(V(x.point, x.temp));
  out["after"]["Vat"] = vat;
  toy::Shape s;
  if (simm::shape(model.get(), s)) out["shape"] = {{"D", s.D}, {"T0", s.T0}, {"A", s.A}, {"E", s.E}, {"L", s.L}, {"K", s.K}, {"M", s.M}, {"n", model->get_nVEV()}};
  sim::env_end();
  out["status"] = "ok";
  return out;
}

static json run(const json &p)
{
  static std::ostringstream sink;
  Logger::SetOStream(sink);
  Logger::SetLevel(LoggingLevel::Default, false);
  gsl_set_error_handler_off(); // as every program has it after its first minimisation
  if (p["kind"] == "model") return scn_model(p);
  if (p["kind"] == "phase") return scn_phase(p);
  return {{"status", "error"}, {"detail", "unknown kind"}};
}
int main(int argc, char **argv) { return sim::serve(argc, argv, run); }
