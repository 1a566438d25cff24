// A fast stand-in for the one-loop potential.  Everything else (input
// parsing, counterterms, legends, couplings, minimisers, tracing, bounce) is
// the real code of the base model; only the number V_eff(v,T) is replaced by a
// polynomial whose phase structure is chosen by the input row.
//
// per field i:  D_i (T^2 - T0_i^2) phi_i^2 - (A_i + E_i T) |phi_i|^3 + L_i/4 phi_i^4
// plus 1/2 K phi_0^2 phi_i^2 for i>0
// plus 1/2 M (phi_i - r_i phi_0)^2 for i>0: variants from 60 on, every field condenses
#pragma once
#include <BSMPT/models/ClassPotentialCxSM.h>
#include <BSMPT/models/ClassPotentialR2HDM.h>
#include <BSMPT/models/ClassPotentialSM.h>
#include <BSMPT/models/IncludeAllModels.h>
#include <BSMPT/models/SMparam.h>
#include <cmath>

namespace toy
{
struct Shape
{
  // [0]: electroweak direction, [1]: the second one, [2]: any further one
  double D[3], T0[3], A[3], E[3], L[3], K, v0, M = 0;
};
inline double tilt(std::size_t i)
{
  static const double r[] = {1, 0.25, 0.12, 0.35, 0.18};
  return i < 5 ? r[i] : 0.05;
}
inline Shape shape_of(int variant, double shift);
inline Shape shape_of(const std::vector<double> &par)
{
  int variant  = 0;
  double shift = 0;
  if (par.size() > 7)
  {
    variant = (int)std::lround(std::abs(par[7]) * 1000) % 100;
    shift   = std::abs(par[5]) * 10 - std::floor(std::abs(par[5]) * 10);
  }
  else if (!par.empty())
  {
    variant = (int)std::lround(std::abs(par[0]) * 1000) % 100;
    shift   = std::abs(par.back()) * 10 - std::floor(std::abs(par.back()) * 10);
  }
  return shape_of(variant, shift);
}
inline Shape shape_of(int variant, double shift)
{
  Shape s;
  const bool tilted = variant >= 60 && variant < 80;
  if (tilted) variant -= 60;
  for (int c = 0; c < 3; ++c)
  {
    s.D[c]  = c ? 0.30 : 0.17;
    s.T0[c] = -1; // sign: mass term positive at T = 0
    s.A[c] = s.E[c] = 0;
    s.L[c]          = 0.30;
  }
  s.v0    = 246.21965;
  s.T0[0] = 110 + 10 * shift;
  s.E[0]  = 0.002;
  s.K     = 0.10;
  switch (variant)
  {
  case 0: s.A[0] = 5; break; // one first-order transition
  case 1: s.A[0] = 10; break;
  case 2: // second direction broken first, then the electroweak one
    s.A[0]  = 3;
    s.T0[1] = 140;
    s.L[1]  = 1.0;
    s.K     = 0.5;
    break;
  case 3: s.E[0] = 0; break;                // smooth crossover
  case 4: s.A[0] = 1; break;                // weak
  case 5: s.T0[0] = 400; s.A[0] = 1; break; // broken beyond 300 GeV
  case 6: s.A[0] = 7; break;
  case 7: // two first-order steps
    s.A[0]  = 2;
    s.T0[1] = 135;
    s.A[1]  = 4;
    s.L[1]  = 1.1;
    s.K     = 0.55;
    break;
  case 8: s.A[0] = 8; s.v0 = 200; break; // wrong minimum at T = 0
  case 9: s.A[0] = 3; s.T0[0] += 15; break;
  default:
    if (variant < 40) // stronger and stronger: nucleation or percolation at the edge
    {
      s.T0[0] = variant < 30 ? -(36 + 0.36 * (variant - 10) + 0.36 * shift) : -(43.1 + 0.09 * (variant - 30) + 0.09 * shift); // barrier at all temperatures
      s.A[0]  = 8;
    }
    else if (variant < 56) // the same, over a wide range
    {
      s.T0[0] = -(4 * (variant - 40) + 4 * shift);
      s.A[0]  = 8;
    }
    else if (variant >= 80) // two steps, the barrier of the second one goes away
    {
      s.A[0]  = variant < 88 ? 2 : 4;
      s.T0[1] = 135;
      s.A[1]  = variant % 2 ? 25 : 12;
      s.L[1]  = 1.1;
      s.K     = 0.2 + 0.04 * (variant % 8);
    }
    break;
  }
  if (tilted)
    s.M = 20000;
  s.L[0] = (2 * s.D[0] * s.T0[0] * std::abs(s.T0[0]) + 3 * s.A[0] * s.v0) / (s.v0 * s.v0);
  return s;
}
// the electroweak norm of the minimum at T = 0 made v0
inline std::vector<double> calibrate(Shape &s, std::size_t n, std::size_t ew)
{
  double lo = 1, hi = 400, x = 0, norm = 0, p[8] = {0};
  for (int it = 0; it < 100; ++it)
  {
    x = 0.5 * (lo + hi);
    norm = x * x;
    for (std::size_t i = 1; i < n; ++i)
    {
      int c = i < 2 ? (int)i : 2;
      double D = s.D[c] * (1 + 0.05 * (double)i), m = -s.T0[c] * std::abs(s.T0[c]), y = tilt(i) * x;
      for (int k = 0; k < 60; ++k)
        y -= (2 * D * m * y - 3 * s.A[c] * y * std::abs(y) + s.L[c] * y * y * y + s.K * x * x * y + s.M * (y - tilt(i) * x)) /
             (2 * D * m - 6 * s.A[c] * std::abs(y) + 3 * s.L[c] * y * y + s.K * x * x + s.M);
      p[i] = y;
      if (i < ew) norm += y * y;
    }
    (norm > s.v0 * s.v0 ? hi : lo) = x;
  }
  double rest = -2 * s.D[0] * s.T0[0] * std::abs(s.T0[0]) * x - 3 * s.A[0] * x * x;
  for (std::size_t i = 1; i < n; ++i)
    rest += s.K * x * p[i] * p[i] - tilt(i) * s.M * (p[i] - tilt(i) * x);
  s.L[0] = -rest / (x * x * x);
  p[0]   = x;
  return std::vector<double>(p, p + n);
}
inline double sgn(double x) { return (x > 0) - (x < 0); }

template <class Base> class Model : public Base
{
public:
  using Base::Base;
  double VEff(const std::vector<double> &vin, double T = 0, int diff = 0, int Order = 1) const override
  {
    (void)Order;
    std::vector<double> full = vin;
    if (full.size() == this->nVEV && this->nVEV != this->NHiggs) full = this->MinimizeOrderVEV(vin);
    if (full.size() != this->NHiggs) throw std::runtime_error("VEff: invalid vev configuration");
    if (!forced && (!have || seen != this->parStored))
    {
      // a fresh copy: several simulated threads may evaluate at once
      Shape local = shape_of(this->parStored);
      return eval(local, full, T, diff);
    }
    return eval(shape, full, T, diff);
  }
  // called once after initModel by harnesses that want the cached shape
  void freeze()
  {
    seen  = this->parStored;
    shape = shape_of(seen);
    have  = true;
    forced = false;
  }
  // a phase structure independent of the parameter point
  void reshape(int variant, double shift)
  {
    shape  = shape_of(variant, shift);
    forced = true;
    // the model's own tree-level vev is that of the potential it now has
    this->vevTreeMin = std::vector<double>(this->nVEV, 0);
    this->vevTreeMin[0] = 246.21965;
    if (shape.M > 0) this->vevTreeMin = calibrate(shape, this->nVEV, this->NHiggs >= 8 ? std::min<std::size_t>(4, this->nVEV) : 1);
  }

  Shape current() const { return shape; }

private:
  bool have = false, forced = false;
  std::vector<double> seen;
  Shape shape{};
  double eval(const Shape &s, const std::vector<double> &v, double T, int diff) const
  {
    const auto n = this->nVEV;
    double V = 0, p0 = v[this->VevOrder[0]];
    for (std::size_t i = 0; i < n; ++i)
    {
      int c     = i < 2 ? (int)i : 2;
      double cub = s.A[c] + s.E[c] * T;
      double p  = v[this->VevOrder[i]];
      double m  = T * T - s.T0[c] * std::abs(s.T0[c]);
      double Dc = s.D[c] * (1 + 0.05 * (double)i);
      if (diff == 0)
      {
        V += Dc * m * p * p - cub * std::abs(p * p * p) + 0.25 * s.L[c] * p * p * p * p;
        if (i) V += 0.5 * s.K * p0 * p0 * p * p + 0.5 * s.M * std::pow(p - tilt(i) * p0, 2);
      }
      else if (diff == -1)
        V += 2 * Dc * T * p * p - s.E[c] * std::abs(p * p * p);
      else if ((std::size_t)diff == this->VevOrder[i] + 1)
      {
        V += 2 * Dc * m * p - 3 * cub * p * std::abs(p) + s.L[c] * p * p * p;
        if (i)
          V += s.K * p0 * p0 * p + s.M * (p - tilt(i) * p0);
        else
          for (std::size_t j = 1; j < n; ++j)
            V += s.K * p0 * std::pow(v[this->VevOrder[j]], 2) - s.M * tilt(j) * (v[this->VevOrder[j]] - tilt(j) * p0);
      }
    }
    // everything not condensing is heavy
    for (std::size_t j = 0; j < this->NHiggs; ++j)
    {
      bool vev = false;
      for (std::size_t i = 0; i < n; ++i)
        if (this->VevOrder[i] == j) vev = true;
      if (vev) continue;
      if (diff == 0)
        V += 5000 * v[j] * v[j];
      else if ((std::size_t)diff == j + 1)
        V += 10000 * v[j];
    }
    // radiation, field independent
    const double a = M_PI * M_PI / 90 * 106.75;
    if (diff == 0) V -= a * T * T * T * T;
    if (diff == -1) V -= 4 * a * T * T * T;
    return V;
  }
};
} // namespace toy
