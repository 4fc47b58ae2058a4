// Shared generators, reference models and helpers for the SLIDE harnesses. Only the public API is used.
#pragma once
#include "pbt.hpp"
#include "slide.hpp"
#include <memory>

namespace vt {
using namespace slide;
using pbt::Case;
using pbt::near;
using pbt::num;
using pbt::num6;

inline const char *sname(Status s)
{
  switch (s) {
  case Status::ReachedCurrentLimit: return "ReachedCurrentLimit";
  case Status::ReachedVoltageLimit: return "ReachedVoltageLimit";
  case Status::ReachedTimeLimit: return "ReachedTimeLimit";
  case Status::ReachedSmallCurrent: return "ReachedSmallCurrent";
  case Status::Invalid_Vset: return "Invalid_Vset";
  case Status::SafeVoltage: return "SafeVoltage";
  case Status::Success: return "Success";
  case Status::Vmin_violation: return "Vmin_violation";
  case Status::Vmax_violation: return "Vmax_violation";
  case Status::VMIN_violation: return "VMIN_violation";
  case Status::VMAX_violation: return "VMAX_violation";
  case Status::VMINsafety_violation: return "VMINsafety_violation";
  case Status::VMAXsafety_violation: return "VMAXsafety_violation";
  case Status::V_not_calculated: return "V_not_calculated";
  case Status::SOC_limits_violation: return "SOC_limits_violation";
  case Status::Invalid_states: return "Invalid_states";
  case Status::RedistributeCurrent_failed: return "RedistributeCurrent_failed";
  default: return "other-status";
  }
}

inline std::vector<double> states(StorageUnit &su)
{
  std::vector<double> s;
  su.getStates(s);
  return s;
}
// bitwise comparison of two state vectors (NaN equal to NaN)
inline bool same(const std::vector<double> &a, const std::vector<double> &b)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
  return true;
}
inline std::string diff(const std::vector<double> &a, const std::vector<double> &b)
{
  if (a.size() != b.size()) return "sizes " + std::to_string(a.size()) + " vs " + std::to_string(b.size());
  for (size_t i = 0; i < a.size(); i++)
    if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return "entry " + std::to_string(i) + ": " + num(a[i]) + " vs " + num(b[i]);
  return "equal";
}

// ---------------------------------------------------------------------------------------------- limits as the cells document them
constexpr double VminN = 2.7, VmaxN = 4.2, VminS = 2.0, VmaxS = 4.3, TOLV = 0.01; // normal, safety limits, margin
constexpr double KELVIN = 273.0, TminK = KELVIN, TmaxK = KELVIN + 60.0, TENV = KELVIN + 15.0;

// The documented classification of a terminal voltage. 'ambiguous' when a threshold is closer than eps.
struct Classified
{
  Status st;
  bool ambiguous;
};
inline Classified classify(double v, double I, double Vmin = VminN, double Vmax = VmaxN, double VMIN = VminS, double VMAX = VmaxS, double eps = 1e-9)
{
  bool amb = false;
  for (double t : { Vmin - TOLV, Vmax + TOLV, VMIN, VMAX, 0.0 })
    if (std::fabs(v - t) < eps) amb = true;
  Status s = Status::Success;
  if (!(v > 0)) s = Status::V_not_calculated;
  else if (v > Vmin - TOLV && v < Vmax + TOLV) s = Status::Success;
  else if (v < VMIN && I > 0) s = Status::VMIN_violation;
  else if (v > VMAX && I < 0) s = Status::VMAX_violation;
  else if (v < Vmin - TOLV && I > 0) s = Status::Vmin_violation;
  else if (v > Vmax + TOLV && I < 0) s = Status::Vmax_violation;
  return { s, amb };
}

// ---------------------------------------------------------------------------------------------- equivalent circuit reference
struct EcmPar
{
  size_t n{ 1 };
  double cap{ 16 }, Rdc{ 2e-3 };
  double Rp[3]{ 15.8e-3, 2.5e-3, 0 }, itau[3]{ 1.0 / (15.8e-3 * 38e3), 1.0 / 100, 0 };
};
inline double ecmOCV(double soc) { return 2.0 + (4.3 - 2.0) * soc; }

struct RefECM
{
  EcmPar p;
  double I{ 0 }, SOC{ 0.5 }, T{ TENV }, Ir[3]{ 0, 0, 0 }, time{ 0 }, Ah{ 0 }, WhLo{ 0 }, WhHi{ 0 };
  bool socOk() const { return SOC >= 0 && SOC <= 1; }
  bool socEdge() const { return std::fabs(SOC) < 1e-9 || std::fabs(SOC - 1) < 1e-9; } // in/out of the table undecidable in floating point
  double drops() const
  {
    double d = 0;
    for (size_t k = 0; k < p.n; k++) d += p.Rp[k] * Ir[k];
    return d;
  }
  double V() const { return socOk() ? ecmOCV(SOC) - p.Rdc * I - drops() : 0; }
  bool edgeSeen{ false };
  void step(double dt, int n)
  {
    for (int k = 0; k < n; k++) {
      const double va = std::fabs(V());
      const bool e0 = socEdge();
      const double dAh = I * dt / 3600;
      SOC -= dAh / p.cap;
      for (size_t j = 0; j < p.n; j++) Ir[j] += dt * p.itau[j] * (I - Ir[j]);
      const double vb = std::fabs(V());
      time += dt;
      Ah += std::fabs(dAh);
      // |I*V|*dt with V anywhere between its values before and after the step
      double lo = std::min(va, vb), hi = std::max(va, vb);
      if (e0 || socEdge()) lo = 0, hi = std::max(hi, 4.3 + std::fabs(p.Rdc * I) + std::fabs(drops())), edgeSeen = true;
      WhLo += std::fabs(dAh) * lo;
      WhHi += std::fabs(dAh) * hi;
    }
  }
};

inline EcmPar genEcmPar(Case &c, size_t n, bool wild = true)
{
  EcmPar p;
  p.n = n;
  if (n == 1) p.Rp[1] = p.itau[1] = 0;
  switch (c.weighted({ 2, 3 })) {
  case 0: break; // defaults
  default:
    p.cap = c.b(1, 2) ? c.rlog(0.05, 500) : (double)c.i(1, 40);
    if (wild) {
      p.Rdc = c.rlog(1e-4, 0.1);
      for (size_t k = 0; k < n; k++) p.Rp[k] = c.rlog(1e-4, 0.05), p.itau[k] = 1.0 / c.rlog(20, 5000);
    }
  }
  return p;
}
template <size_t N>
inline std::unique_ptr<Cell_ECM<N>> makeECM(const EcmPar &p, double soc, const std::string &id = "")
{
  std::array<double, N> Rp{}, it{};
  for (size_t k = 0; k < N; k++) Rp[k] = p.Rp[k], it[k] = p.itau[k];
  if (id.empty()) return std::make_unique<Cell_ECM<N>>(p.cap, soc, p.Rdc, Rp, it);
  return std::make_unique<Cell_ECM<N>>(id, p.cap, soc, p.Rdc, Rp, it);
}
inline std::string show(const EcmPar &p)
{
  std::string s = "ECM<" + std::to_string(p.n) + ">(cap=" + num6(p.cap) + ",Rdc=" + num6(p.Rdc);
  for (size_t k = 0; k < p.n; k++) s += ",Rp" + std::to_string(k) + "=" + num6(p.Rp[k]) + ",tau" + std::to_string(k) + "=" + num6(1 / p.itau[k]);
  return s + ")";
}

template <typename F>
inline int caughtInt(F f) // runs f; returns the int it threw, or -1 if nothing was thrown, -2 for another exception type
{
  try {
    f();
  } catch (int e) {
    return e;
  } catch (...) {
    return -2;
  }
  return -1;
}

// time step lengths and counts that cover tiny, ordinary and large steps
inline double genDt(Case &c) { return c.pick({ 1.0, 5.0, 2.0, 0.5, 10.0, 60.0, 0.1, 0.0, 3.7 }); }
} // namespace vt
