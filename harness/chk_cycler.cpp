// Procedures on one unit: voltage set-points (P23), cycler phases (P16), capacity measurement (P17).
#include "life.hpp"
using namespace vt;

// ------------------------------------------------------------------------------------------------------------------ P23
// Everything that only time, charge or ageing may change: all states of every cell but current and voltage.
static Obs frozen(Unit &u)
{
  Obs o;
  auto ls = u.leaves();
  for (size_t i = 0; i < ls.size(); i++) {
    auto *cell = dynamic_cast<Cell *>(ls[i]->su);
    const std::string p = std::to_string(i) + ".";
    o.add(p + "SOC", cell->SOC()), o.add(p + "T", cell->T());
    auto t = cell->getThroughputs();
    o.add(p + "time", t.time()), o.add(p + "Ah", t.Ah()), o.add(p + "Wh", t.Wh());
    auto s = states(*cell);
    if (ls[i]->spm) {
      for (size_t k = 3; k < s.size(); k++) o.add(p + "state" + std::to_string(k), s[k]);
    } else
      for (size_t k = 3; k < s.size(); k++) o.add(p + "state" + std::to_string(k), s[k]);
  }
  if (!u.cell()) {
    o.add("T", u->T());
    std::vector<Node *> ms = u.node->modules();
    for (auto *m : ms) obsCool(o, m->su->getID() + ".", dynamic_cast<Module *>(m->su)->getCoolSystem());
  }
  if (u.bat) o.add("conv", u.bat->getConvLosses_total());
  return o;
}
static std::vector<double> leafCurrents(Unit &u)
{
  std::vector<double> r;
  for (auto *l : u.leaves()) r.push_back(l->su->I());
  return r;
}
static void shortHistory(Case &c, Unit &u, int nmax)
{
  OpW w;
  w.w[2] = 0, w.w[3] = 0, w.w[4] = 0, w.w[5] = 0, w.w[6] = 0, w.w[8] = 0;
  for (int k = 0, n = (int)c.i(0, nmax); k < n; k++) {
    Op op = genOp(c, u, w);
    if (op.kind == 0) op.x = std::clamp(op.x, -u->Cap(), u->Cap()), op.chk = true;
    if (op.kind == 1 && c.b(1, 3)) op.x = 2, op.n = 100;
    c.desc << op.show() << " ";
    if (threw(apply(u, op))) c.discard();
  }
}
PBT_SUB("P23.setpoint", 120000, 1200000, "one voltage set-point on a random cell, pack or battery after a short history, aimed at voltages the unit has at some current, near the present voltage, anywhere and far outside; non-trivial: reported success with a current that moved by more than 1e-6 C, or reported failure")
{
  UnitOpt o;
  o.pack.rdeg = c.b(1, 3);
  o.pack.stressModels = false;
  o.pack.maxDepth = 2, o.pack.maxChildren = 4;
  Unit u = genUnit(c, o);
  c.desc << u.show() << "\n";
  shortHistory(c, u, 4);
  if (u.parallel() && isStatusBad(u->setCurrent(u->I(), false, false))) c.discard(); // balance
  if (!validLeaves(u)) c.discard();
  const double cap = u->Cap(), V0 = u->V(), I0 = u->I();
  if (!(V0 > 0)) c.discard();
  double target = 0;
  bool reachable = false;
  const int how = c.weighted({ 5, 2, 2, 1 });
  if (how == 0) { // the voltage a copy has at another current
    Unit t;
    t.node = cloneTree(*u.node, u.bat ? static_cast<StorageUnit *>(u.bat->getCells()) : u.top.get());
    t.bat = u.bat;
    t.rebind(Deep_ptr<StorageUnit>(u->copy()));
    const double I = cap * c.r(-1, 1);
    Status st{};
    try {
      st = t->setCurrent(I, true, false);
    } catch (int) {
      c.discard();
    }
    if (isStatusBad(st)) c.discard();
    target = t->V();
    reachable = st == Status::Success && std::fabs(I0) <= 1.01 * cap;
    for (auto *l : t.leaves()) {
      const double v = l->su->V();
      reachable &= v > 2.9 && v < 4.1;
    }
    for (auto *l : u.leaves()) {
      const double v = l->su->V();
      reachable &= v > 2.9 && v < 4.1;
    }
  } else if (how == 1)
    target = V0 + c.pick({ 0.0, 1e-9, 1e-6, 1e-4, 1e-2, -1e-9, -1e-6, -1e-4, -1e-2 });
  else if (how == 2)
    target = u->Vmin() + (u->Vmax() - u->Vmin()) * c.r(-0.1, 1.1);
  else
    target = c.pick({ 0.0, -1.0, 1e3, 1.0 }) + c.r(0, 10);
  c.desc << "\n V=" << num(V0) << " I=" << num(I0) << " -> setVoltage(" << num(target) << ")" << (reachable ? " reachable" : "");
  const Obs before = frozen(u);
  const auto Ib = leafCurrents(u);
  Status st{};
  bool thrown = false;
  try {
    st = u->setVoltage(target, c.b(1, 2), false);
  } catch (int e) {
    thrown = true;
    c.label("threw");
  }
  const std::string d = diff(before, frozen(u));
  c.check(d.empty(), "P23.time-passed", "setting the voltage of " + u.show() + " changed more than currents and voltages: " + d);
  if (thrown) {
    if (reachable) c.fail("P23.reachable-threw", "setVoltage to a voltage the unit has at a moderate current threw");
    c.nontrivial();
    return;
  }
  const double V = u->V();
  if (st == Status::Success || !isStatusBad(st)) {
    c.check(std::fabs(V - target) <= 1e-5 * std::max(1.0, std::fabs(target)), "P23.not-reached", "setVoltage(" + num(target) + ") on " + u.show() + " reported " + sname(st) + " but the voltage is " + num(V));
    // parallel groups carry one voltage
    if (std::fabs(u->I() - I0) > 1e-6 * cap) c.nontrivial();
    c.label("success");
  } else {
    c.nontrivial();
    c.label("failure");
    if (reachable) c.fail("P23.reachable", "setVoltage(" + num(target) + ") on " + u.show() + " failed (" + sname(st) + ") although the unit has this voltage at a current below 1C");
    const auto Ia = leafCurrents(u);
    for (size_t i = 0; i < Ia.size(); i++)
      if (!near(Ia[i], Ib[i], 1e-5, 1e-5 * cap)) c.fail("P23.failure-changed", "the failed setVoltage(" + num(target) + ") on " + u.show() + " left cell " + std::to_string(i) + " at " + num(Ia[i]) + " A, it had " + num(Ib[i]) + " A");
  }
}

// ------------------------------------------------------------------------------------------------------------------ P16
static Unit twin(Unit &u)
{
  Unit t;
  t.node = cloneTree(*u.node, u.bat ? static_cast<StorageUnit *>(u.bat->getCells()) : u.top.get());
  t.bat = u.bat, t.ser = u.ser, t.par = u.par;
  t.rebind(Deep_ptr<StorageUnit>(u->copy()));
  return t;
}
struct Book // what every cell of a unit has experienced
{
  std::vector<double> time, Ah, Wh, q;
};
static Book book(Unit &u)
{
  Book b;
  for (auto *l : u.leaves()) {
    auto *cell = dynamic_cast<Cell *>(l->su);
    auto t = cell->getThroughputs();
    b.time.push_back(t.time()), b.Ah.push_back(t.Ah()), b.Wh.push_back(t.Wh()), b.q.push_back(cell->SOC() * cell->Cap());
  }
  return b;
}
static double refCharge(const Node &n, const std::vector<double> &dq, size_t &k) // charge into the terminals of the tree [Ah]
{
  if (n.leaf()) return dq[k++];
  double r = 0;
  for (size_t i = 0; i < n.ch.size(); i++) {
    const double x = refCharge(*n.ch[i], dq, k);
    if (n.kind == Node::PARALLEL || i == 0) r += x;
  }
  return r;
}
struct Exp // what the unit experienced between two books
{
  double T, Q; // time, charge delivered by the terminals [Ah]
  bool timesEqual{ true };
};
static Exp experienced(Unit &u, const Book &a, const Book &b)
{
  Exp e{ b.time[0] - a.time[0], 0 };
  std::vector<double> dq;
  for (size_t i = 0; i < a.time.size(); i++) {
    e.timesEqual &= near(b.time[i] - a.time[i], e.T, 1e-9, 1e-6);
    dq.push_back(a.q[i] - b.q[i]);
  }
  size_t k = 0;
  e.Q = refCharge(*u.node, dq, k) * u.par;
  return e;
}
static UnitOpt cycUnit(Case &c)
{
  UnitOpt o;
  o.pack.rdeg = c.b(1, 4);
  o.pack.stressModels = false;
  o.pack.maxDepth = 2, o.pack.maxChildren = 3;
  o.pack.socLo = 0.1, o.pack.socHi = 0.92;
  o.wCell = 6, o.wPack = 3, o.wBat = 1;
  return o;
}
// nested parallel groups are slow: every set-point of the outer one balances the inner ones at each iteration
static int stepCap(Unit &u) { return u.cell() ? 4000 : !u.parallel() ? 1500 : u.node->depth() > 1 ? 40 : 400; }
static double tolV(Unit &u) { return u.cell() ? 1e-6 : u.parallel() ? 2e-2 * u.ser : 1e-4 * u.ser; } // splits of parallel groups are updated only every other step
static bool within(double v, double lo, double hi, double tol) { return v > lo - tol && v < hi + tol; }

PBT_SUB("P16.CC", 40000, 600000, "one constant-current phase on a random unit: the replay of the same current on a copy shows when each limit is first met; non-trivial: at least one step taken and a limit reported, or a phase refused/stopped by a safety or cell limit")
{
  Unit u = genUnit(c, cycUnit(c));
  c.desc << u.show() << "\n ";
  shortHistory(c, u, 3);
  if (!validLeaves(u)) c.discard();
  const double cap = u->Cap(), Vmin = u->Vmin(), Vmax = u->Vmax(), SV = u->VMIN() * 0.99, SX = u->VMAX() * 1.01;
  if (c.b(1, 2) && isStatusBad(u->setCurrent(0, false, false))) c.discard();
  if (u.parallel() && isStatusBad(u->setCurrent(u->I(), false, false))) c.discard(); // balance
  const double V0 = u->V();
  if (!(V0 > 0)) c.discard();
  const double I = cap * (c.b(1, 12) ? 0.0 : (c.b() ? 1 : -1) * (c.b(1, 2) ? c.r(0.2, 2) : c.rlog(1e-4, 3)));
  const bool fast = std::fabs(I) > 0.15 * cap;
  const double dt = u.parallel() ? c.pick({ 1.0, 2.0, 0.5, 0.1 }) : c.pick({ 1.0, 2.0, 5.0, 4.0, 0.5, 0.1 }); // long steps make the split of parallel cells oscillate
  double vlim = 0;
  switch (c.weighted({ 4, 3, 2, 1, 1 })) {
  case 0: vlim = I < 0 ? Vmax : Vmin; break;
  case 1: vlim = V0 + (I < 0 ? 1 : -1) * c.rlog(1e-4, 1) * u.ser * std::max(1.0, V0 / 4); break; // ahead
  case 2: vlim = Vmin + (Vmax - Vmin) * c.r(0, 1); break;
  case 3: vlim = I < 0 ? Vmax + 100 : Vmin - 100; break;
  default: vlim = V0 + c.pick({ 0.0, 1e-9, -1e-9, 0.01, -0.01 }); break;
  }
  double tlim = 0;
  const double maxSteps = stepCap(u);
  switch (c.weighted({ 3, 3, 1 })) {
  case 0: tlim = dt * c.i(1, std::min(60, stepCap(u))); break;
  case 1: tlim = c.rlog(0.01, maxSteps * dt); break;
  default: tlim = fast && maxSteps > 400 ? TIME_INF : 0; break;
  }
  const int nd = (int)c.pick({ 0, 1, 2, 3, 7 });
  const bool diag = c.b(1, 3);
  ThroughputData th{};
  if (c.b()) th.time() = 1000, th.Ah() = 5, th.Wh() = 20;
  const ThroughputData th0 = th;
  c.desc << "\n V=" << num(V0) << " I=" << num(u->I()) << " CC(" << num(I) << ", vlim " << num(vlim) << ", tlim " << num(tlim) << ", dt " << num(dt) << ", ndt " << nd << (diag ? ", diagnostic" : "") << ")";
  Unit r = twin(u);
  const Obs o0 = obs(*u.top);
  const Book b0 = book(u);
  Cycler cyc(u.top.get(), "P16");
  cyc.setDiagnostic(diag);
  Status st{};
  try {
    st = cyc.CC(I, vlim, tlim, dt, nd, th);
  } catch (int e) {
    c.fail("P16.CC-threw", "CC threw " + std::to_string(e));
  }
  const Exp e = experienced(u, b0, book(u));
  const double V = u->V(), q = std::fabs(I) * e.T / 3600;
  c.desc << " -> " << sname(st) << " after " << num(e.T) << " s at V=" << num(V);
  c.label(sname(st));
  if (st == Status::timeStep_CC_failed) return; // a unit that cannot be stepped any further; its cells may disagree
  // ---- truthful accounting
  c.check(e.timesEqual, "P16.CC-cell-times", "cells of one unit have experienced different times");
  c.check(near(th.time() - th0.time(), e.T, 1e-9, 1e-6), "P16.CC-time", "CC reports " + num(th.time() - th0.time()) + " s, the unit experienced " + num(e.T) + " s (" + sname(st) + ")");
  c.check(near(th.Ah() - th0.Ah(), q, 1e-7, 1e-9 * cap), "P16.CC-Ah", "CC reports " + num(th.Ah() - th0.Ah()) + " Ah for " + num(e.T) + " s at " + num(I) + " A");
  c.check(near(e.Q, I * e.T / 3600, 1e-5, 1e-7 * cap), "P16.CC-current", "the charge moved through the cells (" + num(e.Q) + " Ah) is not I t = " + num(I * e.T / 3600) + " Ah (" + sname(st) + ")");
  // ---- why it stopped
  const bool over = I < 0 ? V > vlim : I > 0 ? V < vlim : false;
  const double tv = tolV(u);
  const bool overTol = I < 0 ? V > vlim - tv : I > 0 ? V < vlim + tv : false;
  c.check(e.T <= tlim + 1e-6, "P16.CC-too-long", "CC ran " + num(e.T) + " s with a time limit of " + num(tlim) + " s");
  switch (st) {
  case Status::ReachedTimeLimit: c.check(near(e.T, tlim, 1e-9, 1e-6) || (tlim <= 0 && e.T == 0), "P16.CC-early-time", "CC reports the time limit of " + num(tlim) + " s after " + num(e.T) + " s"); break;
  case Status::ReachedVoltageLimit: c.check(over || (e.T == 0 && overTol) || (I == 0 && e.T == 0 && V < vlim), "P16.CC-early-voltage", "CC at " + num(I) + " A reports the voltage limit " + num(vlim) + " at V=" + num(V)); break;
  case Status::VMINsafety_violation:
  case Status::VMAXsafety_violation: c.check(I < 0 ? V > SX - tv : V < SV + tv, "P16.CC-early-safety", std::string("CC reports ") + sname(st) + " at V=" + num(V)); break;
  case Status::V_not_calculated: c.check(!(V > 0) || diag, "P16.CC-no-V", "CC reports V_not_calculated at V=" + num(V)); break;
  case Status::Vmin_violation:
  case Status::Vmax_violation:
  case Status::VMIN_violation:
  case Status::VMAX_violation: {
    c.check(diag, "P16.CC-cell-limit", std::string("CC without diagnostic mode reports ") + sname(st));
    if (e.T > 0) {
      bool any = false;
      for (auto *l : u.leaves()) any |= !within(l->su->V(), VminN - TOLV, VmaxN + TOLV, -1e-9);
      for (auto *m : u.node->modules()) any |= !within(m->su->V(), m->su->Vmin() - TOLV, m->su->Vmax() + TOLV, -1e-9); // a module's own window counts as well
      c.check(any, "P16.CC-early-cell", std::string("CC reports ") + sname(st) + " but every cell is within its limits");
    }
    break;
  }
  case Status::Success:
  case Status::Unknown_problem:
  case Status::SafeVoltage: c.fail("P16.CC-status", std::string("CC ended with status ") + sname(st)); break;
  default: break;
  }
  if (e.T == 0 && (int)st > 0) { // refused
    const Obs o1 = obs(*u.top);
    for (size_t i = 0; i < o0.v.size(); i++)
      if (!o0.n[i].ends_with("check") && !near(o0.v[i], o1.v[i], 1e-4, 1e-4 * std::max(1.0, cap)) && !(std::isnan(o0.v[i]) && std::isnan(o1.v[i]))) c.fail("P16.CC-refused-changed", "a refused CC phase (" + std::string(sname(st)) + ") changed " + o0.n[i] + " from " + num(o0.v[i]) + " to " + num(o1.v[i]));
  } else if ((int)st <= 0)
    c.check(near(u->I(), I, 1e-6, 1e-6 * cap), "P16.CC-I", "after CC at " + num(I) + " A the unit carries " + num(u->I()) + " A");
  // ---- replay: not later than one step (steps are taken two at a time at most)
  bool prevV = false, prevS = false, prevC = false;
  double lo = 1e300, hi = 0;
  const double V00 = r->V();
  for (double t = 0; t <= e.T - 1e-6 * dt; t += dt) {
    try {
      if (isStatusBad(r->setCurrent(I, false, false))) break;
      const double v = r->V();
      if (!(v > 0)) break;
      const bool oV = I < 0 ? v > vlim + tv : I > 0 ? v < vlim - tv : false;
      const bool oS = I < 0 ? v > SX + tv : I > 0 ? v < SV - tv : false;
      bool oC = false;
      if (diag)
        for (auto *l : r.leaves()) {
          const double lv = l->su->V(), li = l->su->I();
          oC |= (li > 0 && lv < VminN - TOLV - 1e-3) || (li < 0 && lv > VmaxN + TOLV + 1e-3);
        }
      lo = std::min(lo, v), hi = std::max(hi, v);
      const double left = e.T - t;
      if (t == 0 && oV && left > 1e-6) c.fail("P16.CC-late", "CC at " + num(I) + " A took steps although the voltage limit " + num(vlim) + " is met at once (V=" + num(v) + ", before " + num(V00) + ")");
      if (oV && prevV && left > 1e-6 * dt + 1e-9) c.fail("P16.CC-late", "CC at " + num(I) + " A went on for " + num(left) + " s after the voltage limit " + num(vlim) + " was met in two consecutive steps (dt=" + num(dt) + ", V=" + num(v) + ")");
      if (oS && prevS && left > 1e-6 * dt + 1e-9) c.fail("P16.CC-unsafe", "CC at " + num(I) + " A went on for " + num(left) + " s after the safety window was left (V=" + num(v) + ", window " + num(SV) + ".." + num(SX) + ")");
      if (oC && prevC && left > 1e-6 * dt + 1e-9) c.fail("P16.CC-diagnostic", "CC in diagnostic mode went on for " + num(left) + " s after a cell left its voltage limits");
      prevV = oV, prevS = oS && t > 0, prevC = oC;
      r->timeStep_CC(std::min(dt, e.T - t), 1);
      c.step();
    } catch (int) {
      return;
    }
  }
  const double vr = r->V();
  lo = std::min(lo, vr), hi = std::max(hi, vr);
  if (e.T > 0 && V > 0) {
    const double tolW = 1e-9 + q * (hi * 1e-6 + 10 * tv);
    c.check(th.Wh() - th0.Wh() >= q * lo - tolW && th.Wh() - th0.Wh() <= q * hi + tolW, "P16.CC-Wh", "CC reports " + num(th.Wh() - th0.Wh()) + " Wh for " + num(q) + " Ah between " + num(lo) + " and " + num(hi) + " V");
    if (!u.parallel()) c.check(near(V, vr, 1e-4, 10 * tv), "P16.CC-V", "after CC the voltage is " + num(V) + ", the same current on a copy gives " + num(vr));
    if (u.cell()) {
      const double w = book(u).Wh[0] - b0.Wh[0]; // both integrate |I| V dt, the phase with one voltage per (double) step
      c.check(std::fabs(w - (th.Wh() - th0.Wh())) <= 1e-9 + 1e-6 * w + std::fabs(I) * 2.5 * dt / 3600 * (hi - lo), "P16.CC-Wh-cell", "CC reports " + num(th.Wh() - th0.Wh()) + " Wh, the cell experienced " + num(w));
    }
  }
  if (e.T > 0 || isStatusBad(st)) c.nontrivial();
}

PBT_SUB("P16.rest", 12000, 200000, "one rest phase on a random unit after a history: the requested time passes with no terminal current, and nothing else is reported; non-trivial: at least one step and a non-zero current or relaxation before")
{
  Unit u = genUnit(c, cycUnit(c));
  c.desc << u.show() << "\n ";
  shortHistory(c, u, 4);
  if (!validLeaves(u)) c.discard();
  const double cap = u->Cap(), dt = c.pick({ 1.0, 2.0, 5.0, 0.5, 0.1, 3.0 });
  const double tlim = c.b(1, 2) ? dt * c.i(0, 100) : c.r(0, 800) * dt;
  const int nd = (int)c.pick({ 0, 1, 2, 5, 20 });
  ThroughputData th{};
  if (c.b()) th.time() = 1000, th.Ah() = 5, th.Wh() = 20;
  const ThroughputData th0 = th;
  const double I0 = u->I();
  c.desc << "\n I=" << num(I0) << " rest(" << num(tlim) << ", dt " << num(dt) << ", ndt " << nd << ")";
  Unit r = twin(u);
  const Book b0 = book(u);
  Cycler cyc(u.top.get(), "P16");
  Status st{};
  try {
    st = cyc.rest(tlim, dt, nd, th);
  } catch (int e) {
    if (e == 100) c.fail("P16.rest-threw", "rest ended for no reason");
    c.label("threw");
    return;
  }
  c.label(sname(st));
  if (isStatusBad(st)) return; // the cells could not be balanced
  const Exp e = experienced(u, b0, book(u));
  c.check(st == Status::ReachedTimeLimit, "P16.rest-status", std::string("rest ended with ") + sname(st));
  c.check(e.timesEqual, "P16.rest-cell-times", "cells of one unit have experienced different times");
  c.check(near(e.T, tlim, 1e-9, 1e-6), "P16.rest-duration", "a rest of " + num(tlim) + " s took " + num(e.T) + " s");
  c.check(near(th.time() - th0.time(), e.T, 1e-9, 1e-6), "P16.rest-time", "rest reports " + num(th.time() - th0.time()) + " s, the unit experienced " + num(e.T) + " s");
  c.check(th.Ah() == th0.Ah() && th.Wh() == th0.Wh(), "P16.rest-throughput", "a rest reports throughput");
  c.check(near(u->I(), 0, 0, 1e-7 * cap), "P16.rest-I", "after a rest the unit carries " + num(u->I()) + " A");
  c.check(near(e.Q, 0, 0, 1e-6 * cap), "P16.rest-Q", "a rest moved " + num(e.Q) + " Ah through the terminals");
  if (u.cell() && tlim > 0) {
    try {
      r->setCurrent(0, false, false);
      double t = 0;
      for (; t + dt <= tlim + 1e-9; t += dt) r->timeStep_CC(dt, 1), c.step();
      if (tlim - t > 1e-9) r->timeStep_CC(tlim - t, 1);
      c.check(near(u->V(), r->V(), 1e-5, 1e-6), "P16.rest-V", "the voltage after the rest is " + num(u->V()) + ", stepping a copy at zero current gives " + num(r->V()));
    } catch (int) {
    }
  }
  if (tlim > 0 && (I0 != 0 || c.nsteps)) c.nontrivial();
}

PBT_SUB("P16.CV", 6000, 120000, "one constant-voltage phase on a random unit: a replay on a copy (set the voltage, step, look) shows when each limit is first met; non-trivial: at least one step taken")
{
  UnitOpt o = cycUnit(c);
  Unit u = genUnit(c, o);
  c.desc << u.show() << "\n ";
  shortHistory(c, u, 3);
  if (!validLeaves(u)) c.discard();
  if (u.parallel() && isStatusBad(u->setCurrent(u->I(), false, false))) c.discard();
  const double cap = u->Cap(), V0 = u->V();
  if (!(V0 > 0)) c.discard();
  double Vset;
  switch (c.weighted({ 5, 2, 1 })) {
  case 0: Vset = V0 + (u->Vmax() - u->Vmin()) * c.r(-0.04, 0.04); break;
  case 1: Vset = u->Vmin() + (u->Vmax() - u->Vmin()) * c.r(0, 1); break;
  default: Vset = V0 + c.pick({ 0.0, 1e-6, -1e-6, 1e-3, -1e-3 }); break;
  }
  const double Ilim = cap * c.rlog(1e-4, 1);
  const double dt = c.pick({ 1.0, 2.0, 5.0, 0.5, 0.1, 0.3 });
  const double tlim = c.b(1, 2) ? dt * c.i(0, std::min(60, stepCap(u))) : c.r(0, std::min(400, stepCap(u))) * dt;
  const int nd = (int)c.pick({ 0, 1, 2, 7 });
  ThroughputData th{};
  if (c.b()) th.time() = 1000, th.Ah() = 5, th.Wh() = 20;
  const ThroughputData th0 = th;
  c.desc << "\n V=" << num(V0) << " I=" << num(u->I()) << " CV(" << num(Vset) << ", Ilim " << num(Ilim) << ", tlim " << num(tlim) << ", dt " << num(dt) << ", ndt " << nd << ")";
  Unit r = twin(u);
  const Obs o0 = obs(*u.top);
  const Book b0 = book(u);
  Cycler cyc(u.top.get(), "P16");
  Status st{};
  try {
    st = cyc.CV(Vset, Ilim, tlim, dt, nd, th);
  } catch (int e) {
    c.fail("P16.CV-threw", "CV threw " + std::to_string(e));
  }
  const Exp e = experienced(u, b0, book(u));
  const double V = u->V(), I = u->I();
  c.desc << " -> " << sname(st) << " after " << num(e.T) << " s at V=" << num(V) << " I=" << num(I);
  c.label(sname(st));
  if (st == Status::timeStep_CC_failed) return;
  c.check(e.timesEqual, "P16.CV-cell-times", "cells of one unit have experienced different times");
  c.check(near(th.time() - th0.time(), e.T, 1e-9, 1e-6), "P16.CV-time", "CV reports " + num(th.time() - th0.time()) + " s, the unit experienced " + num(e.T) + " s (" + sname(st) + ")");
  c.check(e.T <= tlim + 1e-6, "P16.CV-too-long", "CV ran " + num(e.T) + " s with a time limit of " + num(tlim) + " s");
  auto atV = [&](double v, double sl) { return std::fabs(v - Vset) < (0.01 + sl * 0.01) || std::fabs(v - Vset) / Vset < 0.001 * (1 + sl); };
  switch (st) {
  case Status::ReachedTimeLimit: c.check(near(e.T, tlim, 1e-9, 1e-6), "P16.CV-early-time", "CV reports the time limit of " + num(tlim) + " s after " + num(e.T) + " s"); break;
  case Status::ReachedCurrentLimit: c.check(std::fabs(I) < Ilim * (1 + 1e-9) && atV(V, 1e-6), "P16.CV-early-current", "CV reports the current limit " + num(Ilim) + " at I=" + num(I) + ", V=" + num(V) + " with set voltage " + num(Vset)); break;
  case Status::ReachedSmallCurrent: c.check((std::fabs(I) < Ilim / 10 * (1 + 1e-9) || std::fabs(I) < 1.001e-6) && !atV(V, -1e-6), "P16.CV-small-current", "CV reports a small current at I=" + num(I) + " (limit " + num(Ilim) + "), V=" + num(V) + " with set voltage " + num(Vset)); break;
  case Status::VMINsafety_violation:
  case Status::VMAXsafety_violation: c.check(!within(V, u->VMIN() * 0.99, u->VMAX() * 1.01, -1e-6), "P16.CV-early-safety", std::string("CV reports ") + sname(st) + " at V=" + num(V)); break;
  case Status::Success:
  case Status::Unknown_problem:
  case Status::SafeVoltage: c.fail("P16.CV-status", std::string("CV ended with status ") + sname(st)); break;
  default: break;
  }
  if (e.T == 0 && isStatusBad(st)) {
    const Obs o1 = obs(*u.top);
    for (size_t i = 0; i < o0.v.size(); i++)
      if (!o0.n[i].ends_with("check") && !near(o0.v[i], o1.v[i], 1e-4, 1e-4 * std::max(1.0, cap)) && !(std::isnan(o0.v[i]) && std::isnan(o1.v[i]))) c.fail("P16.CV-refused-changed", "a CV phase that could not be made (" + std::string(sname(st)) + ") changed " + o0.n[i] + " from " + num(o0.v[i]) + " to " + num(o1.v[i]));
  }
  // ---- replay
  double Ah = 0, lo = 1e300, hi = 0;
  if (e.T == 0 && !isStatusBad(st) && tlim > 0) c.check(std::fabs(r->I()) < Ilim * (1 + 1e-9) && atV(r->V(), 1e-6), "P16.CV-not-started", "CV took no step although neither limit is met");
  for (double t = 0; t < e.T * (1 - 1e-9);) {
    if (isStatusBad(r->setVoltage(Vset, true, false))) {
      c.check(isStatusBad(st) || !near(t + dt, e.T, 1e-9, 1e-6) , "P16.CV-held", "CV went on although the set voltage could not be held (" + std::string(sname(st)) + ")");
      break;
    }
    const double va = r->V(), h = std::min(dt, e.T - t);
    try {
      r->timeStep_CC(h, 1);
    } catch (int) {
      return;
    }
    c.step();
    t += h;
    const double vb = r->V(), Ib = r->I();
    Ah += std::fabs(Ib) * h / 3600;
    lo = std::min({ lo, va, vb }), hi = std::max({ hi, va, vb });
    if (t < e.T - 1e-6 * dt) {
      const bool met = std::fabs(Ib) < Ilim * (1 - 1e-5) - 1e-6 * cap && atV(vb, -1e-3);
      c.check(!met, "P16.CV-late", "CV went on for " + num(e.T - t) + " s after the current limit " + num(Ilim) + " was met (I=" + num(Ib) + ", V=" + num(vb) + ")");
    }
  }
  if (!isStatusBad(st) && e.T > 0) {
    c.check(near(th.Ah() - th0.Ah(), Ah, 1e-5, 1e-6 * cap * std::max(e.T, 1.0) / 3600), "P16.CV-Ah", "CV reports " + num(th.Ah() - th0.Ah()) + " Ah, holding the voltage on a copy takes " + num(Ah));
    const double tolW = 1e-9 + Ah * (hi * 1e-5 + 1e-3) + 1e-6 * cap * e.T / 3600 * hi;
    c.check(th.Wh() - th0.Wh() >= Ah * lo - tolW && th.Wh() - th0.Wh() <= Ah * hi + tolW, "P16.CV-Wh", "CV reports " + num(th.Wh() - th0.Wh()) + " Wh for " + num(Ah) + " Ah between " + num(lo) + " and " + num(hi) + " V");
    double I1 = r->I();
    if (!near(I, I1, 1e-4, 1e-4 * cap)) r->setVoltage(Vset, true, false), I1 = r->I(); // the last step may be a zero-length one
    c.check(near(I, I1, 1e-4, 1e-4 * cap), "P16.CV-I", "after CV the unit carries " + num(I) + " A, holding the voltage on a copy gives " + num(I1));
  }
  if (e.T > 0) c.nontrivial();
}

PBT_SUB("P16.CCCV", 6000, 100000, "one combined phase on a random unit, with and without a time limit: equals a constant-current phase towards the set voltage followed by a constant-voltage phase for the remaining time; set voltages outside of the unit's window change nothing; non-trivial: at least one step taken, or refused")
{
  UnitOpt o = cycUnit(c);
  Unit u = genUnit(c, o);
  c.desc << u.show() << "\n ";
  shortHistory(c, u, 3);
  if (!validLeaves(u)) c.discard();
  if (u.parallel() && isStatusBad(u->setCurrent(u->I(), false, false))) c.discard();
  const double cap = u->Cap(), V0 = u->V(), Vmin = u->Vmin(), Vmax = u->Vmax();
  if (!(V0 > 0)) c.discard();
  double Vset;
  switch (c.weighted({ 3, 3, 2, 1 })) {
  case 0: Vset = V0 + (Vmax - Vmin) * c.r(-0.05, 0.05); break;
  case 1: Vset = Vmin + (Vmax - Vmin) * c.r(0.05, 1); break;
  case 2: Vset = c.b() ? Vmax : Vmin; break;
  default: Vset = c.b() ? Vmax + c.rlog(1e-6, 10) : Vmin - c.rlog(1e-6, 10); break;
  }
  const double I = cap * (c.b() ? 1 : -1) * c.r(0.3, 1.5), Ilim = cap * c.rlog(2e-3, 0.3) * (c.b(1, 8) ? -1 : 1);
  const double dt = u.parallel() ? c.pick({ 2.0, 1.0 }) : c.pick({ 2.0, 5.0, 1.0 });
  const bool tl = u.parallel() || c.b(2, 3);
  const double tlim = tl ? (c.b() ? dt * c.i(0, std::min(200, stepCap(u))) : c.rlog(1, u.parallel() ? stepCap(u) : 5000)) : TIME_INF;
  const int nd = (int)c.pick({ 0, 3 });
  const bool diag = c.b(1, 4);
  c.desc << "\n V=" << num(V0) << " I=" << num(u->I()) << " CCCV(" << num(I) << ", " << num(Vset) << ", Ilim " << num(Ilim) << (tl ? ", tlim " + num(tlim) : "") << ", dt " << num(dt) << (diag ? ", diagnostic)" : ")");
  Unit r = twin(u);
  const Obs o0 = obs(*u.top);
  const Book b0 = book(u);
  ThroughputData th{};
  Cycler cyc(u.top.get(), "P16");
  cyc.setDiagnostic(diag);
  Status st{};
  try {
    st = tl ? cyc.CCCV_with_tlim(I, Vset, Ilim, tlim, dt, nd, th) : cyc.CCCV(I, Vset, Ilim, dt, nd, th);
  } catch (int e) {
    c.fail("P16.CCCV-threw", "CCCV threw " + std::to_string(e));
  }
  c.label(sname(st));
  const Exp e = experienced(u, b0, book(u));
  c.desc << " -> " << sname(st) << " after " << num(e.T) << " s";
  if (Vset < Vmin - 1e-9 || Vset > Vmax + 1e-9) {
    c.nontrivial();
    c.check(st == Status::Invalid_Vset, "P16.CCCV-invalid", "CCCV to " + num(Vset) + " V on a unit with window " + num(Vmin) + ".." + num(Vmax) + " returned " + sname(st));
    const std::string d = diff(o0, obs(*u.top));
    c.check(d.empty(), "P16.CCCV-invalid-changed", "a refused CCCV changed the unit: " + d);
    c.check(th.time() == 0 && th.Ah() == 0 && th.Wh() == 0, "P16.CCCV-invalid-th", "a refused CCCV reports throughput");
    return;
  }
  if (std::fabs(Vset - Vmin) < 1e-9 || std::fabs(Vset - Vmax) < 1e-9) {
    if (st == Status::Invalid_Vset && Vset != Vmax && Vset != Vmin) return;
    c.check(st != Status::Invalid_Vset, "P16.CCCV-edge", "CCCV to the limit " + num(Vset) + " of the unit itself is refused");
  }
  if (st == Status::timeStep_CC_failed || !e.timesEqual) return; // a step failed half way
  // the same by hand on a copy
  ThroughputData t1{}, t2{};
  Cycler cr(r.top.get(), "P16");
  cr.setDiagnostic(diag);
  if (!isStatusBad(r->setCurrent(0, false, false))) {
    const double Voc = r->V();
    if (std::fabs(Voc - Vset) < 1e-9) c.discard();
    Status s2{};
    try {
      const Status s1 = cr.CC(Voc > Vset ? std::fabs(I) : -std::fabs(I), Vset, tlim, dt, 0, t1);
      s2 = cr.CV(Vset, std::fabs(Ilim), tlim - t1.time(), dt, 0, t2);
      if (s1 == Status::timeStep_CC_failed) return;
    } catch (int) {
      return;
    }
    c.check(near(th.time(), e.T, 1e-9, 1e-6), "P16.CCCV-time", "CCCV reports " + num(th.time()) + " s, the unit experienced " + num(e.T) + " s (" + sname(st) + ")");
    c.check(e.T <= tlim + 1e-6, "P16.CCCV-too-long", "CCCV ran " + num(e.T) + " s with a time limit of " + num(tlim) + " s");
    if (st == Status::ReachedTimeLimit) c.check(near(e.T, tlim, 1e-9, 1e-6), "P16.CCCV-early-time", "CCCV reports the time limit of " + num(tlim) + " s after " + num(e.T) + " s");
    if (st == Status::ReachedCurrentLimit) c.check(std::fabs(u->I()) < std::fabs(Ilim) * (1 + 1e-9) && (std::fabs(u->V() - Vset) < 0.01001 || std::fabs(u->V() - Vset) < 0.001001 * Vset), "P16.CCCV-early-current", "CCCV reports the current limit " + num(Ilim) + " at I=" + num(u->I()) + ", V=" + num(u->V()) + " with set voltage " + num(Vset));
    if (st == Status::Success || st == Status::Unknown_problem || st == Status::SafeVoltage) c.fail("P16.CCCV-status", std::string("CCCV ended with status ") + sname(st));
    c.check(st == s2, "P16.CCCV-compose", std::string("CCCV ends with ") + sname(st) + ", CC then CV with " + sname(s2));
    const double slack = 4 * dt / 3600 * std::fabs(I); // data storage shortens the steps
    c.check(near(th.time(), t1.time() + t2.time(), 1e-3, 20 * dt) && near(th.Ah(), t1.Ah() + t2.Ah(), 2e-3, slack) && near(th.Wh(), t1.Wh() + t2.Wh(), 2e-3, slack * Vset), "P16.CCCV-sum", "CCCV reports " + num(th.time()) + " s, " + num(th.Ah()) + " Ah, " + num(th.Wh()) + " Wh; CC and CV on a copy report " + num(t1.time()) + "+" + num(t2.time()) + " s, " + num(t1.Ah()) + "+" + num(t2.Ah()) + " Ah, " + num(t1.Wh()) + "+" + num(t2.Wh()) + " Wh");
  }
  if (e.T > 0) c.nontrivial();
}

// samples taken during phases, seen by cells that only note what they are asked to store
struct Sample
{
  double t, V, I;
};
template <typename Cell_t>
struct Rec : Cell_t
{
  using Cell_t::Cell_t;
  std::vector<Sample> log;
  void storeData() override { log.push_back({ this->getThroughputs().time(), this->V(), this->I() }); }
};
PBT_SUB("P16.samples", 8000, 160000, "phases with data storage on cells and modules of two cells that note every sample: taken at the start, at the end and every ndt_data steps in between (the adaptive steps may overshoot by their length), the same instants in every cell; non-trivial: at least three samples")
{
  std::vector<Sample> *log[2] = { nullptr, nullptr };
  Deep_ptr<StorageUnit> top;
  const double soc = c.r(0.2, 0.8);
  auto cell = [&](int k, bool spm) {
    if (spm) {
      auto *r = new Rec<Cell_SPM>("r" + std::to_string(k), DEG_ID{}, 1.0, 1.0, 1.0, 1.0);
      log[k] = &r->log;
      return Deep_ptr<StorageUnit>(static_cast<StorageUnit *>(r));
    }
    std::array<double, 1> Rp{ 15.8e-3 }, it{ 1.0 / (15.8e-3 * 38e3) };
    auto *r = new Rec<Cell_ECM<1>>("r" + std::to_string(k), 16.0, soc, 2e-3, Rp, it);
    log[k] = &r->log;
    return Deep_ptr<StorageUnit>(static_cast<StorageUnit *>(r));
  };
  const bool spm = c.b(1, 3);
  const int shape = c.weighted({ 3, 1, 1 });
  if (shape == 0) top = cell(0, spm);
  else {
    Deep_ptr<StorageUnit> cs[] = { cell(0, spm), cell(1, spm) };
    Module *m = shape == 1 ? static_cast<Module *>(new Module_s("m", TENV, true, false, 2, 1, 1)) : static_cast<Module *>(new Module_p("m", TENV, true, false, 2, 1, 1));
    m->setSUs(cs, true, false);
    top = Deep_ptr<StorageUnit>(static_cast<StorageUnit *>(m));
  }
  Cycler cyc(top.get(), "P16");
  ThroughputData th{};
  double t0 = 0;
  for (int ph = 0, n = (int)c.i(1, 3); ph < n; ph++) {
    const int kind = c.weighted({ 2, 1, 2 });
    const double dt = c.pick({ 1.0, 2.0, 5.0, 0.5 });
    const int nd = (int)c.pick({ 1, 2, 3, 5, 10, 17, 0, -1 });
    const double tlim = c.b() ? dt * c.i(0, 150) : c.r(0, 150) * dt;
    const double cap = top->Cap(), Ibefore = top->I();
    for (auto *l : log)
      if (l) l->clear();
    double Vset = top->V();
    Status st{};
    int nmax = 1;
    const double I = cap * c.r(-1, 1);
    try {
      if (kind == 0) {
        c.desc << " CC(" << num(I) << "," << num(tlim) << "," << num(dt) << "," << nd << ")";
        st = cyc.CC(I, I < 0 ? top->Vmax() : top->Vmin(), tlim, dt, nd, th), nmax = std::min(2, nd);
      } else if (kind == 1) {
        Vset += c.r(-0.05, 0.05) * (shape == 1 ? 2 : 1);
        c.desc << " CV(" << num(Vset) << "," << num(tlim) << "," << num(dt) << "," << nd << ")";
        st = cyc.CV(Vset, cap * 0.02, tlim, dt, nd, th);
      } else {
        c.desc << " rest(" << num(tlim) << "," << num(dt) << "," << nd << ")";
        st = cyc.rest(tlim, dt, nd, th), nmax = std::min(10, nd);
      }
    } catch (int) {
      return;
    }
    c.step();
    double t1 = 0;
    {
      StorageUnit *q = top.get();
      if (auto *m = dynamic_cast<Module *>(q)) q = (*m)[0].get();
      t1 = dynamic_cast<Cell *>(q)->getThroughputs().time();
    }
    for (auto *l : log) {
      if (!l) continue;
      const auto &L = *l;
      if (nd <= 0) {
        c.check(L.empty(), "P16.samples-none", "a phase without data storage stored " + std::to_string(L.size()) + " samples");
        continue;
      }
      c.check(!L.empty() && near(L[0].t, t0, 1e-12, 1e-9), "P16.samples-start", "no sample at the start of the phase");
      if (shape != 2) c.check(near(L[0].I, Ibefore, 1e-9, 1e-9), "P16.samples-start", "the first sample was not taken before the phase changed the current");
      if ((int)st > 0 || t1 == t0) continue; // refused or nothing done
      if (isLimitsReached(st) || st == Status::ReachedTimeLimit || st == Status::ReachedSmallCurrent) {
        c.check(near(L.back().t, t1, 1e-12, 1e-9), "P16.samples-end", "no sample at the end of the phase: last at " + num(L.back().t - t0) + " s of " + num(t1 - t0) + " s");
        c.check(L.size() >= 2, "P16.samples-end", "a phase stored one sample only");
        c.check(L.back().t >= L[L.size() - 2].t, "P16.samples-order", "samples out of order");
        for (size_t i = 1; i + 1 < L.size(); i++) {
          const double gap = L[i].t - L[i - 1].t;
          const bool lastRegular = L[i].t >= t1 - 1e-6; // the step cut short by the time limit
          c.check(gap <= (nd + nmax) * dt + 1e-6, "P16.samples-gap", "samples " + num(gap) + " s apart, one every " + std::to_string(nd) + " steps of " + num(dt) + " s was asked for");
          if (!lastRegular) c.check(gap >= nd * dt - 1e-6, "P16.samples-dense", "samples " + num(gap) + " s apart, one every " + std::to_string(nd) + " steps of " + num(dt) + " s was asked for");
        }
        c.check(L.back().t - L[L.size() - 2].t <= (nd + nmax) * dt + 1e-6, "P16.samples-gap", "samples too far apart at the end");
      }
      if (L.size() > 2) c.nontrivial();
    }
    if (log[1]) {
      bool eq = log[0]->size() == log[1]->size();
      for (size_t i = 0; eq && i < log[0]->size(); i++) eq &= near((*log[0])[i].t, (*log[1])[i].t, 1e-12, 1e-9);
      c.check(eq, "P16.samples-cells", "cells of one module were not sampled at the same instants");
    }
    t0 = t1;
  }
}

// ------------------------------------------------------------------------------------------------------------------ P17
struct Meas
{
  double cap, total, t;
  bool ok{ false };
};
// an independent measurement on a copy: step by step at C/25 with interpolated end points, ageing blocked
static Meas measure(Unit &u, double dt)
{
  Meas m{ 0, 0, 0 };
  Unit r = twin(u);
  r->setBlockDegAndTherm(true);
  const double I = r->Cap() / 25;
  try {
    for (int dir : { -1, 1 }) {
      const double lim = dir < 0 ? r->Vmax() : r->Vmin();
      double q = 0, v = 0;
      for (long k = 0;; k++) {
        if (k > 400000) return m;
        if (k == 0 || r.parallel())
          if (isStatusBad(r->setCurrent(dir * I, false, false))) return m;
        const double vn = r->V();
        if (!(vn > 0)) return m;
        if (dir < 0 ? vn >= lim : vn <= lim) {
          if (k) q -= I * dt / 3600 * std::clamp((vn - lim) / (vn - v), 0.0, 1.0);
          break;
        }
        v = vn;
        r->timeStep_CC(dt, 1);
        q += I * dt / 3600;
      }
      m.total += q;
      if (dir > 0) m.cap = q;
    }
  } catch (int) {
    return m;
  }
  m.t = m.total / I * 3600;
  m.ok = true;
  return m;
}
PBT_SUB("P17.capacity", 1200, 20000, "capacity test of a random unit after a history: compared with an independent measurement on a copy and with a test of a copy at another SOC; the unit, and its reaction to the operations that follow, must be as if there had been no test; non-trivial: a capacity was returned")
{
  UnitOpt o = cycUnit(c);
  o.pack.maxDepth = 1, o.pack.maxChildren = 2;
  o.pack.stressModels = true;
  o.wCell = 8, o.wPack = 2, o.wBat = 1;
  Unit u = genUnit(c, o);
  c.desc << u.show() << "\n ";
  shortHistory(c, u, 3);
  if (!validLeaves(u)) c.discard();
  if (u.parallel() && isStatusBad(u->setCurrent(u->I(), false, false))) c.discard();
  const double cap = u->Cap();
  const bool blocked = c.b(1, 4);
  if (blocked) u->setBlockDegAndTherm(true);
  const bool diag = u.cell() && c.b(1, 4);
  Unit r = twin(u);
  const Obs o0 = obs(*u.top);
  double Ah = c.pick({ 0.0, 3.0 }), t = c.pick({ 0.0, 100.0 });
  const bool out = c.b(2, 3);
  double got = 0;
  {
    Cycler cyc(u.top.get(), "P17");
    cyc.setDiagnostic(diag);
    try {
      got = out ? cyc.testCapacity(Ah, t) : cyc.testCapacity();
    } catch (int e) {
      c.fail("P17.threw", "the capacity test threw " + std::to_string(e));
    }
  }
  c.desc << "\n capacity " << num(got);
  const Obs o1 = obs(*u.top);
  c.check(o0.v.size() == o1.v.size(), "P17.changed", "the capacity test changed the structure of the unit");
  for (size_t i = 0; i < o0.v.size(); i++)
    if (!near(o0.v[i], o1.v[i], 1e-9, 1e-12) && !(std::isnan(o0.v[i]) && std::isnan(o1.v[i]))) c.fail("P17.changed", "after the capacity test " + o0.n[i] + " is " + num(o1.v[i]) + ", before it was " + num(o0.v[i]));
  const Meas m = measure(r, 2);
  if (m.ok && got == 0) {
    // a cell inside the unit may leave its window before the unit does
    c.check(!u.cell(), "P17.none", "the capacity test of a cell failed although its capacity can be measured: " + num(m.cap));
  } else if (m.ok) {
    c.nontrivial();
    c.check(near(got, m.cap, 1e-3, 5e-4 * cap), "P17.value", "capacity " + num(got) + " Ah, an independent C/25 measurement gives " + num(m.cap) + " Ah");
    if (out) {
      c.check(near(Ah, m.total, 2e-3, 1e-3 * cap), "P17.Ah", "the test reports a throughput of " + num(Ah) + " Ah, an independent measurement takes " + num(m.total) + " Ah");
      c.check(near(t, m.t, 2e-3, 200), "P17.time", "the test reports " + num(t) + " s, an independent measurement takes " + num(m.t) + " s");
    }
    if (c.b(1, 3)) { // from another state of charge
      Unit s = twin(r);
      s->setBlockDegAndTherm(true);
      const double I = cap * c.r(-0.5, 0.5);
      try {
        if (!isStatusBad(s->setCurrent(I, false, false))) {
          for (int k = 0; k < 600; k++) {
            s->timeStep_CC(2, 1);
            if (s.parallel() && isStatusBad(s->setCurrent(I, false, false))) break;
            bool in = true;
            for (auto *l : s.leaves()) in &= within(l->su->V(), VminN, VmaxN, -0.1);
            if (!in) break;
          }
          bool in = true;
          for (auto *l : s.leaves()) in &= within(l->su->V(), VminN, VmaxN, 0);
          if (in) {
            Cycler cs(s.top.get(), "P17");
            const double g2 = cs.testCapacity();
            if (g2 > 0) c.check(near(got, g2, 5e-4, 5e-4 * cap), "P17.start", "capacity " + num(got) + " Ah, but " + num(g2) + " Ah when the test starts from another state of charge");
            c.label("other start");
          }
        }
      } catch (int) {
      }
    }
  }
  // the unit goes on as if there had been no test
  for (int k = 0, n = (int)c.i(1, 3); k < n; k++) {
    Op op = genOp(c, u);
    const double a = apply(u, op), b = apply(r, op);
    c.check(near(a, b, 1e-9, 0), "P17.later", "after the test " + op.show() + " returns " + num(a) + ", without it " + num(b));
    if (threw(a)) return;
  }
  const Obs u1 = obs(*u.top), r1 = obs(*r.top);
  for (size_t i = 0; i < u1.v.size(); i++)
    if (!near(u1.v[i], r1.v[i], 1e-9, 1e-12) && !(std::isnan(u1.v[i]) && std::isnan(r1.v[i]))) c.fail("P17.later", "some operations after the test " + u1.n[i] + " is " + num(u1.v[i]) + ", without the test " + num(r1.v[i]));
}

int main(int a, char **b) { return pbt::pbtMain(a, b); }
