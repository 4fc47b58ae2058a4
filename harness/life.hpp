// Any storage unit (cell, pack or battery) with a mirror tree, random public operations on it, and everything observable about it.
#pragma once
#include "packs.hpp"

namespace vt {
struct Unit
{
  Deep_ptr<StorageUnit> top;
  std::unique_ptr<Node> node; // mirror of the cell or module tree (below the battery if there is one)
  Battery *bat{ nullptr };
  unsigned ser{ 1 }, par{ 1 }; // multipliers of the battery
  StorageUnit *operator->() const { return top.get(); }
  bool cell() const { return node->leaf(); }
  bool parallel() const { return node->has(Node::PARALLEL); }
  std::vector<Node *> leaves() const { return node->leaves(); }
  std::string show() const { return bat ? "battery(" + node->show() + ")" : node->show(); }
  void rebind(Deep_ptr<StorageUnit> &&su)
  {
    top = std::move(su);
    bat = dynamic_cast<Battery *>(top.get());
    bindTree(*node, bat ? static_cast<StorageUnit *>(bat->getCells()) : top.get());
  }
};
struct UnitOpt
{
  PackOpt pack{};
  int wCell{ 3 }, wPack{ 4 }, wBat{ 1 };
  bool bat{ true };
};
inline Deep_ptr<StorageUnit> wrapBattery(Module &m, unsigned ser, unsigned par, const std::string &id = "bat")
{
  auto *b = new Battery(id);
  Deep_ptr<StorageUnit> d(static_cast<StorageUnit *>(b));
  b->setSeriesandParallel(ser, par);
  b->setModule(Deep_ptr<Module>(m.copy()));
  return d;
}
inline Unit genUnit(Case &c, UnitOpt o)
{
  Unit u;
  const int k = c.weighted({ o.wCell, o.wPack, o.bat ? o.wBat : 0 });
  if (k == 0) {
    u.node = std::make_unique<Node>();
    const double soc = c.r(o.pack.socLo, o.pack.socHi);
    const double cap = c.b(1, 2) ? 16.0 : c.rlog(1, 100);
    u.top = genLeaf(c, o.pack, soc, cap, *u.node, "cell");
    return u;
  }
  if (k == 2) {
    o.pack.topCool = (int)c.pick({ 0, 2 });
    const unsigned ser = (unsigned)c.pick({ 1, 2, 7 }), par = (unsigned)c.pick({ 1, 3, 2 });
    Pack p = genPack(c, o.pack);
    u.node = std::move(p.node);
    u.ser = ser, u.par = par;
    u.rebind(wrapBattery(*dynamic_cast<Module *>(p.top.get()), ser, par));
    return u;
  }
  Pack p = genPack(c, o.pack);
  u.top = std::move(p.top);
  u.node = std::move(p.node);
  return u;
}

// ---------------------------------------------------------------------------------------------- observables
struct Obs
{
  std::vector<double> v;
  std::vector<std::string> n;
  void add(const std::string &name, double x) { n.push_back(name), v.push_back(x); }
  template <typename F>
  void call(const std::string &name, F f)
  {
    double x = 0;
    try {
      x = (double)f();
    } catch (int e) {
      x = -7000000 - e; // an exception is an observable, too
    }
    add(name, x);
  }
};
inline std::string diff(const Obs &a, const Obs &b)
{
  if (a.v.size() != b.v.size()) return "different number of observables";
  for (size_t i = 0; i < a.v.size(); i++)
    if (!(a.v[i] == b.v[i] || (std::isnan(a.v[i]) && std::isnan(b.v[i])))) return a.n[i] + ": " + num(a.v[i]) + " vs " + num(b.v[i]);
  return "";
}
inline void obsCool(Obs &o, const std::string &p, CoolSystem *cs)
{
  o.add(p + "coolT", cs->T());
  o.add(p + "flow", cs->getFlr());
  o.add(p + "Eop", cs->getEoperation());
  o.add(p + "Qevac", cs->getHeatEvac());
  o.add(p + "Qabs", cs->getHeatabsorbed());
  o.add(p + "tcool", cs->getTotalTime());
  o.add(p + "ctrl", cs->getControl());
  o.call(p + "h", [&] { return cs->getH(); });
  if (auto *h = dynamic_cast<CoolSystem_HVAC *>(cs)) o.add(p + "QacTot", h->getQcoolAC_tot());
}
inline void obsUnit(Obs &o, const std::string &p, StorageUnit &su, bool cool)
{
  o.call(p + "V", [&] { return su.V(); });
  o.call(p + "I", [&] { return su.I(); });
  o.call(p + "OCV", [&] { return su.getOCV(); });
  o.call(p + "R", [&] { return su.getRtot(); });
  o.call(p + "cap", [&] { return su.Cap(); });
  o.call(p + "T", [&] { return su.T(); });
  o.call(p + "Thot", [&] { return su.getThotSpot(); });
  o.call(p + "A", [&] { return su.getThermalSurface(); });
  o.call(p + "N", [&] { return su.getNcells(); });
  o.call(p + "Vhigh", [&] { return su.getVhigh(); });
  o.call(p + "Vlow", [&] { return su.getVlow(); });
  o.call(p + "Vmin", [&] { return su.Vmin(); });
  o.call(p + "Vmax", [&] { return su.Vmax(); });
  o.call(p + "VMIN", [&] { return su.VMIN(); });
  o.call(p + "VMAX", [&] { return su.VMAX(); });
  o.call(p + "check", [&] { double v; return (int)su.checkVoltage(v, false); });
  o.call(p + "valid", [&] { return su.validStates(false); });
  if (auto *cell = dynamic_cast<Cell *>(&su)) {
    o.call(p + "SOC", [&] { return cell->SOC(); });
    auto t = cell->getThroughputs();
    o.add(p + "time", t.time()), o.add(p + "Ah", t.Ah()), o.add(p + "Wh", t.Wh());
    for (double x : cell->getVariations()) o.add(p + "var", x);
    if (auto *s = dynamic_cast<Cell_SPM *>(&su)) {
      double a = 0, b = 0;
      o.call(p + "csurf", [&] { return s->getCSurf(a, b, false); });
      o.add(p + "cps", a), o.add(p + "cns", b);
      o.call(p + "Rdc", [&] { return s->getRdc(); });
    }
  } else if (auto *m = dynamic_cast<Module *>(&su)) {
    o.add(p + "NSUs", m->getNSUs());
    if (cool) obsCool(o, p, m->getCoolSystem());
  } else if (auto *b = dynamic_cast<Battery *>(&su)) {
    if (cool) obsCool(o, p, b->getCoolSystem()), o.add(p + "conv", b->getConvLosses_total());
  }
}
inline void obsTree(Obs &o, const std::string &p, StorageUnit &su, bool cool)
{
  if (auto *b = dynamic_cast<Battery *>(&su)) obsTree(o, p + "0/", *b->getCells(), cool);
  else if (auto *m = dynamic_cast<Module *>(&su))
    for (size_t i = 0; i < m->getNSUs(); i++) obsTree(o, p + std::to_string(i) + "/", *(*m)[i].get(), cool);
  obsUnit(o, p, su, cool);
}
// everything observable about a unit and all units below it; 'cool' also covers cooling systems and converter totals
inline Obs obs(StorageUnit &su, bool cool = true)
{
  Obs o;
  obsTree(o, "", su, cool);
  auto s = states(su); // after the voltages were read, so the stored voltage of single-particle cells is up to date
  for (size_t i = 0; i < s.size(); i++) o.add("state[" + std::to_string(i) + "]", s[i]);
  return o;
}

// ---------------------------------------------------------------------------------------------- operations
struct Op
{
  int kind{ 0 };
  double x{ 0 };
  int n{ 1 };
  size_t who{ 0 };
  bool chk{ true };
  std::string show() const
  {
    static const char *nm[] = { "setCurrent", "timeStep_CC", "setVoltage", "leaf.setT", "leaf.setCurrent", "leaf.setSOC", "block", "rest", "module.setT" };
    return std::string(nm[kind]) + "(" + num(x) + (kind == 1 || kind == 7 ? "," + std::to_string(n) : "") + (kind == 0 || kind == 4 ? chk ? ",check" : ",nocheck" : "") + (kind >= 3 && kind != 6 && kind != 7 ? ")@" + std::to_string(who) : ")");
  }
};
struct OpW
{
  int w[9] = { 5, 6, 1, 1, 1, 1, 1, 1, 1 };
  bool far{ true }; // set-points far beyond the limits as well
};
inline Op genOp(Case &c, Unit &u, const OpW &w = {})
{
  Op o;
  const double cap = u->Cap();
  o.kind = c.weighted({ w.w[0], w.w[1], w.w[2], w.w[3], w.w[4], w.w[5], w.w[6], w.w[7], w.w[8] });
  o.who = (size_t)c.i(0, 1000);
  switch (o.kind) {
  case 0:
    if (w.far && c.b(1, 8)) o.x = cap * c.rlog(3, 60) * (c.b(1, 2) ? 1 : -1); // far beyond what the voltage limits allow: refused
    else
      o.x = c.b(1, 8) ? 0.0 : cap * c.r(-1.5, 1.5), o.chk = !c.b(1, 4);
    break;
  case 1: o.x = c.pick({ 1.0, 2.0, 0.5, 5.0, 0.0 }), o.n = (int)c.pick({ 1, 2, 5, 10 }); break;
  case 2: o.x = c.r(0.97, 1.03); break;
  case 3: o.x = KELVIN + c.r(1, 59); break;
  case 4:
    if (w.far && c.b(1, 8)) o.x = c.rlog(3, 60) * (c.b(1, 2) ? 1 : -1);
    else
      o.x = c.r(-1, 1), o.chk = !c.b(1, 4);
    break;
  case 5: o.x = c.r(0.2, 0.8); break;
  case 6: o.x = c.i(0, 1); break;
  case 7: o.x = c.pick({ 1.0, 5.0 }), o.n = (int)c.pick({ 1, 4 }); break;
  case 8: o.x = KELVIN + c.r(1, 70); break;
  }
  return o;
}
// applies the operation; returns what the caller could see of it (status or exception)
inline double apply(Unit &u, const Op &o)
{
  try {
    auto ls = u.leaves();
    auto *leaf = ls[o.who % ls.size()]->su;
    switch (o.kind) {
    case 0: return (double)(int)u->setCurrent(o.x, o.chk, false);
    case 1: u->timeStep_CC(o.x, o.n); return 0;
    case 2: return (double)(int)u->setVoltage(u->V() * o.x, true, false);
    case 3: leaf->setT(o.x); return 0;
    case 4: return (double)(int)leaf->setCurrent(o.x * leaf->Cap(), o.chk, false);
    case 5: return (double)(int)dynamic_cast<Cell *>(leaf)->setSOC(o.x, false, false);
    case 6: u->setBlockDegAndTherm(o.x > 0); return 0;
    case 7: {
      const int a = (int)u->setCurrent(0, false, false);
      u->timeStep_CC(o.x, o.n);
      return a;
    }
    case 8: {
      auto ms = u.node->modules();
      if (!ms.empty()) ms[o.who % ms.size()]->su->setT(o.x);
      else
        leaf->setT(o.x > TmaxK ? TmaxK : o.x);
      return 0;
    }
    }
  } catch (int e) {
    return -7000000 - e;
  }
  return 0;
}
inline bool threw(double r) { return r < -6000000; }
inline bool anyStress(const Unit &u)
{
  for (auto *l : u.leaves())
    if (l->spm && usesStress(l->deg)) return true;
  return false;
}
inline bool validLeaves(Unit &u)
{
  for (auto *l : u.leaves())
    if (!l->su->validStates(false)) return false;
  return true;
}
} // namespace vt
