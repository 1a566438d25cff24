// Runs one unmodified command-line program of the project (its main() is
// compiled as tool_main) inside the simulation: simulated files, clock,
// random sources, memory, threads.
#include "models.hpp"
#include <BSMPT/utility/Logger.h>
#include <exception>
#include <iostream>

using sim::json;
using sim::Outside;
int tool_main(int argc, char *argv[]);

namespace
{
bool g_toy = false;
json *g_given = nullptr; // phase structures by input row
uint64_t g_rows = 0;
std::vector<std::string> g_row_text;
json *g_shapes = nullptr;
void note_shape(BSMPT::Class_Potential_Origin *p)
{
  Outside o;
  if (!g_shapes) g_shapes = new json(json::array());
  toy::Shape s;
  if (simm::shape(p, s))
    g_shapes->push_back({{"D", s.D}, {"T0", s.T0}, {"A", s.A}, {"E", s.E}, {"L", s.L}, {"K", s.K}, {"M", s.M}, {"n", p->get_nVEV()}});
}
} // namespace

using FC = std::unique_ptr<BSMPT::Class_Potential_Origin>(BSMPT::ModelID::ModelIDs, const BSMPT::ISMConstants &);
extern "C" __attribute__((weak)) FC __real__ZN5BSMPT7ModelID7FChooseENS0_8ModelIDsERKNS_12ISMConstantsE;
extern "C" std::unique_ptr<BSMPT::Class_Potential_Origin>
__wrap__ZN5BSMPT7ModelID7FChooseENS0_8ModelIDsERKNS_12ISMConstantsE(BSMPT::ModelID::ModelIDs c, const BSMPT::ISMConstants &k)
{
  using namespace BSMPT::Models;
  if (g_toy)
  {
    using ID = BSMPT::ModelID::ModelIDs;
    if (c == ID::CXSM) return std::make_unique<toy::Model<Class_CxSM>>(k);
    if (c == ID::R2HDM) return std::make_unique<toy::Model<Class_Potential_R2HDM>>(k);
    if (c == ID::C2HDM) return std::make_unique<toy::Model<Class_Potential_C2HDM>>(k);
    if (c == ID::N2HDM) return std::make_unique<toy::Model<Class_Potential_N2HDM>>(k);
    if (c == ID::CPINTHEDARK) return std::make_unique<toy::Model<Class_Potential_CPintheDark>>(k);
    if (c == ID::SM) return std::make_unique<toy::Model<Class_SM>>(k);
  }
  return __real__ZN5BSMPT7ModelID7FChooseENS0_8ModelIDsERKNS_12ISMConstantsE(c, k);
}
using IM = std::pair<std::vector<double>, std::vector<double>>(BSMPT::Class_Potential_Origin *, std::string);
extern "C" __attribute__((weak)) IM
    __real__ZN5BSMPT22Class_Potential_Origin9initModelENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE;
extern "C" std::pair<std::vector<double>, std::vector<double>>
__wrap__ZN5BSMPT22Class_Potential_Origin9initModelENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(
    BSMPT::Class_Potential_Origin *self, std::string row)
{
  sim::mark("row");
  {
    Outside o;
    ++g_rows;
    g_row_text.push_back(row);
  }
  auto r = __real__ZN5BSMPT22Class_Potential_Origin9initModelENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(self, row);
  simm::freeze(self);
  if (g_given)
  {
    Outside o;
    auto it = g_given->find(row);
    if (it != g_given->end()) simm::reshape(self, (*it)[0].get<int>(), (*it)[1].get<double>());
  }
  note_shape(self);
  return r;
}

static std::string *g_stdout = nullptr;
static std::string *g_log    = nullptr;
static size_t g_log_cap = 20000, g_log_show = 4000;
static json harness_report()
{
  json j;
  j["rows"] = g_row_text;
  if (g_shapes && g_toy) j["shapes"] = *g_shapes;
  if (g_log) j["log"] = g_log->substr(0, g_log_show);
  return j;
}
// a program's exit(): everything it still holds open is flushed by the
// destructors it skips or runs, exactly as far as exit() itself would
static void done(int code, const std::string &how)
{
  ++sim::tl_out;
  json r       = {{"status", "exit"}, {"code", code}, {"how", how}};
  r["harness"] = harness_report();
  r["rt"]      = sim::report();
  sim::finish(r);
}
extern "C" void __wrap_exit(int code) { done(code, "exit"); }

struct LogBuf : std::streambuf
{
  int overflow(int c) override
  {
    Outside o;
    if (c != EOF && g_log->size() < g_log_cap) g_log->push_back((char)c);
    return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override
  {
    Outside o;
    if (g_log->size() < g_log_cap) g_log->append(s, (size_t)n);
    return n;
  }
};

static json run(const json &plan)
{
  static LogBuf lb;
  static std::ostream ls(&lb);
  g_log = new std::string;
  if (plan.contains("log_cap")) g_log_cap = g_log_show = plan["log_cap"].get<size_t>();
  if (!plan.value("closed_stdout", false)) std::cout.rdbuf(&lb), std::cerr.rdbuf(&lb);
  g_toy = plan.value("toy", false);
  if (plan.contains("shapes")) g_given = new json(plan["shapes"]);
  for (auto &f : plan["files"].items())
    sim::vfs_put(f.key(), f.value().get<std::string>());
  std::vector<std::string> args = plan["argv"].get<std::vector<std::string>>();
  std::vector<char *> av;
  for (auto &a : args)
    av.push_back(&a[0]);
  av.push_back(nullptr);
  sim::set_crash_report(harness_report);
  sim::io_begin(plan);
  if (plan.contains("sched")) sim::sched_begin(plan);
  sim::env_begin(plan);
  std::string how = "return";
  int code        = 0;
  try
  {
    code = tool_main((int)args.size(), av.data());
  }
  catch (...)
  { // what would be std::terminate
    ++sim::tl_out;
    json r = {{"status", "signal"}, {"signal", 6}, {"what", "uncaught exception"}};
    r["harness"] = harness_report();
    r["rt"]      = sim::report();
    sim::finish(r);
  }
  sim::env_end();
  if (plan.contains("sched")) sim::sched_end();
  done(code, how);
  return {};
}
int main(int argc, char **argv) { return sim::serve(argc, argv, run); }
