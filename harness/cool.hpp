// Reference model of the fan and air-conditioning control laws and of the running totals of cooling systems.
#pragma once
#include "life.hpp"
namespace vt {
constexpr double RHO = 1.225, CP = 1005.0, ETA = 0.5, FLOW1 = 0.0005, A1 = 25e-6, QAC1 = 7.5, COPac = 3;
enum CoolKind { REG = 0,
                HVAC = 1,
                OPEN = 2 };
struct RefCool
{
  CoolKind kind{ REG };
  double N{ 1 };
  int ctrl{ 1 };
  double Q0{ 0 };
  double T{ TENV }, flow{ 0 }, Qac{ 0 };
  double Eop{ 0 }, evac{ 0 }, abso{ 0 }, time{ 0 }, QacTot{ 0 };
  double nomFlow() const { return FLOW1 * N; }
  double nomQac() const { return QAC1 * N + Q0; }
  double V() const { return kind == HVAC ? N * nomQac() / (QAC1 * N) : N; }
  double fanPower() const
  {
    const double v = flow / (A1 * N);
    return RHO * A1 * N * v * v * v / 2 / ETA;
  }
  double h() const
  {
    if (kind == OPEN) return 90;
    if (flow == 0) return 0;
    const double v = flow / (A1 * N);
    return 12.12 - 1.16 * v + 11.6 * std::sqrt(v);
  }
  void init(CoolKind k, double n, int c, double q0)
  {
    kind = k, N = n, ctrl = c, Q0 = q0;
    flow = kind == OPEN ? 0 : nomFlow();
    Qac = kind == HVAC ? nomQac() : 0;
  }
  // admissible flows after control() (two when a threshold is too close to call)
  std::vector<double> flows(double Tl, double Tg) const
  {
    if (kind == OPEN) return { 0 };
    const double Ton = KELVIN + 35, Toff = std::max(KELVIN + 25, TENV + 5), Tp = KELVIN + 25;
    std::vector<double> r;
    if (ctrl == 2 || ctrl == 3) {
      const double T = ctrl == 2 ? Tl : Tg;
      if (T > Ton - 1e-9) r.push_back(nomFlow());
      if (T < Toff + 1e-9) r.push_back(0);
      if (T < Ton + 1e-9 && T > Toff - 1e-9 && T != Ton && T != Toff) r.push_back(flow);
      return r;
    }
    if (ctrl == 4 || ctrl == 5) {
      const double e = std::max((ctrl == 4 ? Tl : Tg) - Tp, 0.0) / (Ton - Tp);
      if (e > 0.2 - 1e-9) r.push_back(nomFlow() * e);
      if (e < 0.2 + 1e-9) r.push_back(0);
      return r;
    }
    return { flow };
  }
  std::vector<double> acs(double Tg) const
  {
    if (kind != HVAC) return { 0 };
    const double Toff = KELVIN + 20, Ton = KELVIN + (ctrl == 3 || ctrl == 5 ? 30 : 25), Tp = KELVIN + (ctrl == 5 ? 25 : 20);
    std::vector<double> r;
    switch (ctrl) {
    case 1:
      if (T < Toff + 1e-9 && T != Toff) r.push_back(0);
      if (T > Toff - 1e-9) r.push_back(nomQac());
      return r;
    case 2:
    case 3: {
      const double To = ctrl == 2 ? T : Tg;
      if (T < Toff + 1e-9) r.push_back(0);
      if (T > Toff - 1e-9) {
        if (To > Ton - 1e-9) r.push_back(nomQac());
        if (To < Ton + 1e-9 && To != Ton) r.push_back(Qac);
      }
      return r;
    }
    case 4:
    case 5: {
      const double err = std::max((ctrl == 4 ? T : Tg) - Tp, 0.0), e = err / (Ton - Tp), ef = err / 10;
      if (T < Toff + 1e-9) r.push_back(0);
      if (T > Toff - 1e-9) {
        // 'very small cooling powers' are avoided below 20 %, of the gain of the fan or of the air conditioning
        if (std::max(e, ef) > 0.2 - 1e-9) r.push_back(nomQac() * std::min(e, 1.0));
        if (std::min(e, ef) < 0.2 + 1e-9) r.push_back(0);
      }
      return r;
    }
    }
    return { Qac };
  }
  std::vector<double> acEnergy(double t) const
  {
    if (kind != HVAC || Qac == 0 || t == 0) return { 0 };
    std::vector<double> r;
    if (TENV > T - 5 - 1e-9) r.push_back(COPac * Qac * t);
    if (TENV < T - 5 + 1e-9) {
      const double flr = Qac / (RHO * CP * (T - TENV)), A = 2 * A1 * N, v = flr / A;
      r.push_back(RHO * A * v * v * v / 2 / ETA * t);
    }
    return r;
  }
};
inline bool oneOf(double x, const std::vector<double> &v, double rel = 1e-9)
{
  for (double y : v)
    if (near(x, y, rel, 1e-15)) return true;
  return false;
}
inline std::string list(const std::vector<double> &v)
{
  std::string s;
  for (double x : v) s += (s.empty() ? "" : " or ") + num(x);
  return s;
}
// what the cooling system of a module with Ncells children shows against its reference
inline std::string coolDiff(CoolSystem &s, const RefCool &r)
{
  auto bad = [&](const char *w, double x, double y) { return std::string(w) + " is " + num(x) + ", expected " + num(y); };
  if (!near(s.T(), r.T, 1e-12, 0)) return bad("temperature", s.T(), r.T);
  if (!near(s.getFlr(), r.flow, 1e-9, 1e-15)) return bad("flow", s.getFlr(), r.flow);
  if (!near(s.getH(), r.h(), 1e-9, 1e-9)) return bad("heat-transfer coefficient", s.getH(), r.h());
  if (!near(s.getHeatEvac(), r.evac, 1e-9, 1e-6)) return bad("evacuated heat", s.getHeatEvac(), r.evac);
  if (!near(s.getHeatabsorbed(), r.abso, 1e-9, 1e-6)) return bad("absorbed heat", s.getHeatabsorbed(), r.abso);
  if (!near(s.getTotalTime(), r.time, 1e-9, 1e-9)) return bad("time", s.getTotalTime(), r.time);
  if (!near(s.getEoperation(), r.Eop, 1e-9, 1e-9)) return bad("operating energy", s.getEoperation(), r.Eop);
  if (s.getControl() != r.ctrl) return bad("control strategy", s.getControl(), r.ctrl);
  if (auto *h = dynamic_cast<CoolSystem_HVAC *>(&s))
    if (!near(h->getQcoolAC_tot(), r.QacTot, 1e-9, 1e-6)) return bad("heat extracted by the AC", h->getQcoolAC_tot(), r.QacTot);
  return "";
}
} // namespace vt
