#pragma once
#include "sim_rt.hpp"
#include "toy.hpp"
#include <BSMPT/models/ClassPotentialC2HDM.h>
#include <BSMPT/models/ClassPotentialCPintheDark.h>
#include <BSMPT/models/ClassPotentialN2HDM.h>
#include <memory>
#include <typeinfo>

namespace simm
{
using BSMPT::Class_Potential_Origin;
using Ptr = std::shared_ptr<Class_Potential_Origin>;

template <class F> inline bool with_toy(Class_Potential_Origin *p, F f)
{
  using namespace BSMPT::Models;
  if (auto *t = dynamic_cast<toy::Model<Class_CxSM> *>(p)) return f(*t), true;
  if (auto *t = dynamic_cast<toy::Model<Class_Potential_R2HDM> *>(p)) return f(*t), true;
  if (auto *t = dynamic_cast<toy::Model<Class_SM> *>(p)) return f(*t), true;
  if (auto *t = dynamic_cast<toy::Model<Class_Potential_C2HDM> *>(p)) return f(*t), true;
  if (auto *t = dynamic_cast<toy::Model<Class_Potential_N2HDM> *>(p)) return f(*t), true;
  if (auto *t = dynamic_cast<toy::Model<Class_Potential_CPintheDark> *>(p)) return f(*t), true;
  return false;
}
inline void freeze(Class_Potential_Origin *p)
{
  with_toy(p, [](auto &t) { t.freeze(); });
}
inline bool shape(Class_Potential_Origin *p, toy::Shape &s)
{
  return with_toy(p, [&](auto &t) { s = t.current(); });
}
inline void reshape(Class_Potential_Origin *p, int variant, double shift)
{
  with_toy(p, [&](auto &t) { t.reshape(variant, shift); });
}
// a second object in exactly the same state
template <class T> inline Ptr clone_as(const Class_Potential_Origin &m)
{
  auto *t = dynamic_cast<const T *>(&m);
  return t && typeid(m) == typeid(T) ? std::make_shared<T>(*t) : nullptr;
}
inline Ptr clone(const Class_Potential_Origin &m)
{
  using namespace BSMPT::Models;
  Ptr r;
  for (auto f : {clone_as<toy::Model<Class_CxSM>>, clone_as<toy::Model<Class_Potential_R2HDM>>, clone_as<toy::Model<Class_SM>>, clone_as<Class_CxSM>,
                 clone_as<Class_Potential_R2HDM>, clone_as<Class_SM>, clone_as<Class_Potential_C2HDM>, clone_as<Class_Potential_N2HDM>,
                 clone_as<Class_Potential_CPintheDark>})
    if ((r = f(m))) return r;
  throw std::runtime_error("cannot copy this model");
}
// "toy:cxsm", "toy:r2hdm", "toy:sm" or a real model name
inline Ptr make(const std::string &name)
{
  auto smc = BSMPT::GetSMConstants();
  if (name == "toy:cxsm") return std::make_shared<toy::Model<BSMPT::Models::Class_CxSM>>(smc);
  if (name == "toy:r2hdm") return std::make_shared<toy::Model<BSMPT::Models::Class_Potential_R2HDM>>(smc);
  if (name == "toy:c2hdm") return std::make_shared<toy::Model<BSMPT::Models::Class_Potential_C2HDM>>(smc);
  if (name == "toy:n2hdm") return std::make_shared<toy::Model<BSMPT::Models::Class_Potential_N2HDM>>(smc);
  if (name == "toy:cpinthedark") return std::make_shared<toy::Model<BSMPT::Models::Class_Potential_CPintheDark>>(smc);
  if (name == "toy:sm") return std::make_shared<toy::Model<BSMPT::Models::Class_SM>>(smc);
  return BSMPT::ModelID::FChoose(BSMPT::ModelID::getModel(name), smc);
}
inline Ptr make_at(const std::string &name, const std::string &legend, const std::string &row)
{
  auto m = make(name);
  m->setUseIndexCol(legend);
  m->initModel(row);
  freeze(m.get());
  return m;
}
inline std::string hexd(double x)
{
  uint64_t u;
  memcpy(&u, &x, 8);
  return sim::hex(u);
}
inline std::string show(const std::vector<double> &v)
{
  std::string s = "(";
  for (size_t i = 0; i < v.size(); ++i)
  {
    char b[40];
    snprintf(b, sizeof b, "%s%.10g", i ? ", " : "", v[i]);
    s += b;
  }
  return s + ")";
}
inline bool same(const std::vector<double> &a, const std::vector<double> &b)
{
  return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}
} // namespace simm
