// P14 (and the voltages of P07 under changing temperatures): heat generation, exchange and storage in cells, packs and batteries.
// Built once per thermal setting: SLIDE_VERIF_T_MODEL undefined (0), 1 (cells on their own) or 2 (coupled).
#include "cool.hpp"
using namespace vt;
#ifdef SLIDE_VERIF_T_MODEL
#define TM SLIDE_VERIF_T_MODEL
#else
#define TM 0
#endif
static_assert(settings::T_MODEL == TM, "the build does not have the thermal setting it was asked for");

constexpr double QCH = 45, ACELL = 0.02, K_C2C = 5, ATH = 0.042;

static SpmPar parOf(StorageUnit *su)
{
  SpmPar p;
  const double f = su->Cap() / 16;
  p.cap *= f, p.elec *= f;
  return p;
}
static SV stateOf(StorageUnit *su) { return states(*su); }

#if TM == 0
PBT_SUB("P14.off", 15000, 600000, "random cells, packs and batteries at random temperatures under random histories with the thermal model switched off: no temperature ever changes; non-trivial: a positive-length step with current")
{
  UnitOpt o;
  o.pack.maxChildren = 3, o.pack.coolControl = (int)c.i(1, 5), o.pack.rdeg = true, o.pack.stressModels = false;
  Unit u = genUnit(c, o);
  c.desc << u.show();
  OpW w;
  w.w[3] = w.w[8] = 2, w.w[2] = 0;
  std::vector<StorageUnit *> all{ u.top.get() };
  for (auto *l : u.leaves()) all.push_back(l->su);
  for (auto *m : u.node->modules()) all.push_back(m->su);
  bool nt = false;
  const int n = (int)c.i(2, 10);
  for (int k = 0; k < n; k++) {
    c.step();
    const Op op = genOp(c, u, w);
    c.desc << " | " << op.show();
    std::vector<double> T;
    for (auto *s : all) T.push_back(s->T());
    const double r = apply(u, op);
    if (threw(r)) break;
    if (op.kind == 3 || op.kind == 8) continue; // temperatures set on purpose
    for (size_t i = 0; i < all.size(); i++)
      if (all[i]->T() != T[i]) c.fail("P14.off", "the temperature of " + all[i]->getFullID() + " went from " + num(T[i]) + " to " + num(all[i]->T()) + " without a thermal model");
    nt |= op.kind == 1 && op.x > 0 && u->I() != 0;
  }
  c.nontrivial(nt);
}
#else

// The heat a cell produced during the step that led to state 's', run at current I and temperature T [J]
static double heatOf(const RefSPM &r, SV s, double I, double T, double t)
{
  s[ix::I] = I, s[ix::T] = T;
  return r.heat(s) * t;
}

PBT_SUB("P14.cell", 60000, 4000000, "a single-particle cell on its own (any size, fresh or aged state, any temperature) under random currents, steps, step counts, environment contact and blocking: its temperature rises by generated heat (ohmic, reaction and entropic) minus convection over heat capacity; no change while blocked or without time; temperatures out of range are refused; the heat counter adds up; non-trivial: a positive-length unblocked step with current")
{
  SpmPar p = genSpmPar(c);
  RefSPM r(p);
  auto cell = makeSPM(p);
  SpmGen g;
  g.lo = 0.35, g.hi = 0.65, g.profile = false;
  SV s0 = genSpmState(c, r, g);
  if (c.b(1, 3)) s0[ix::T] = KELVIN + c.r(10, 40);
  s0[ix::I] = 0;
  install(*cell, s0);
  c.desc << "cap " << num(p.cap) << " T " << num(s0[ix::T]) << " aged " << num6(s0[ix::delta]);
  if (!r.inside(stateOf(cell.get()))) c.discard();
  double sum = 0;
  bool nt = false, block = false;
  const int n = (int)c.i(1, c.thorough ? 12 : 7);
  for (int k = 0; k < n; k++) {
    c.step();
    switch (c.weighted({ 6, 1, 1 })) {
    case 1:
      block = c.b();
      cell->setBlockDegAndTherm(block);
      c.desc << " | block " << block;
      break;
    case 2: {
      const double T = KELVIN + c.r(1, 59);
      cell->setT(T);
      c.desc << " | setT " << num(T);
      break;
    }
    default: break;
    }
    const double I = c.b(1, 6) ? 0 : p.cap * (c.b(1, 2) ? c.r(-1, 1) : c.r(-4, 4));
    cell->setCurrent(I, false, false);
    const double Iset = cell->I(), T = cell->T();
    const double dt = c.pick({ 1.0, 2.0, 0.5, 0.0 });
    const int steps = (int)c.pick({ 1, 1, 2, 5, 20 });
    const double t = dt * steps;
    c.desc << " | I " << num(I) << " step " << dt << "x" << steps;
    if (!r.stable(stateOf(cell.get()), dt)) c.discard();
    const double tot0 = cell->thermal_getTotalHeat();
    const int e = caughtInt([&] { cell->timeStep_CC(dt, steps); });
    if (e != -1 && e != 9) c.discard(); // left the range of the electrodes
    const SV s = stateOf(cell.get());
    if (!r.inside(s) || r.nearEdge(s, 1e-6)) c.discard();
    const double Q = block ? 0 : heatOf(r, s, Iset, T, t);
    const double want = block ? T : T + (Q + QCH * ACELL * (TENV - T) * t) / r.heatCap();
    const double tol = 1e-9 + 1e-9 * std::fabs(want - T) + 1e-9 * std::fabs(Q) / r.heatCap();
    const bool out = want > TmaxK || want < KELVIN;
    const bool edge = std::fabs(want - TmaxK) < 1e-6 || std::fabs(want - KELVIN) < 1e-6;
    if (e == 9) {
      c.check(out || edge, "P14.refused", "the new temperature " + num(want) + " was refused");
      if (cell->T() != T) c.fail("P14.refused-changed", "a refused temperature update changed the temperature from " + num(T) + " to " + num(cell->T()));
      return;
    }
    c.check(!out || edge, "P14.accepted", "the new temperature " + num(want) + " was accepted");
    if (!near(cell->T(), want, 0, tol)) c.fail("P14.cell-balance", "temperature went from " + num(T) + " to " + num(cell->T()) + " with " + num(Q) + " J generated, the heat balance gives " + num(want));
    if ((block || t == 0) && cell->T() != T) c.fail("P14.cell-blocked", "temperature changed from " + num(T) + " to " + num(cell->T()) + (block ? " while blocked" : " without time"));
    sum += Q;
    const double dq = cell->thermal_getTotalHeat() - tot0;
    if (!near(dq, Q, 1e-8, 1e-9 + 1e-11 * std::fabs(tot0))) c.fail("P14.heat-counter", "the counter of generated heat grew by " + num(dq) + " J, the losses of the step are " + num(Q) + " J");
    nt |= !block && t > 0 && Iset != 0;
  }
  c.nontrivial(nt);
}

// ------------------------------------------------------------------------------------------------ packs
struct Body
{
  StorageUnit *su{ nullptr };
  Node *node{ nullptr }; // null for a battery
  CoolSystem *cool{ nullptr };
  double T{ 0 }, E{ 0 }, C{ 0 }, A{ 0 }, h{ 0 }; // temperature before, heat received, heat capacity, area, coefficient
  double Eac0{ 0 }, contact{ 0 };
  double evac0{ 0 }, abs0{ 0 }, kids{ 0 };
  double I{ 0 };
  std::vector<size_t> ch;
};
struct Therm
{
  std::vector<Body> b;
  size_t root{ 0 };
};
static size_t addNode(Therm &th, Node *n)
{
  const size_t me = th.b.size();
  th.b.emplace_back();
  th.b[me].su = n->su, th.b[me].node = n;
  if (n->leaf()) {
    th.b[me].C = RefSPM(parOf(n->su)).heatCap();
    th.b[me].A = ACELL;
    return me;
  }
  auto *m = dynamic_cast<Module *>(n->su);
  const double N = (double)n->ncells();
  th.b[me].cool = m->getCoolSystem(), th.b[me].A = ATH * N, th.b[me].C = RHO * CP * N;
  for (auto &x : n->ch) {
    const size_t k = addNode(th, x.get());
    th.b[me].ch.push_back(k);
  }
  return me;
}
static Therm buildTherm(Unit &u)
{
  Therm th;
  th.root = addNode(th, u.node.get());
  if (u.bat) {
    Body b;
    b.su = u.bat, b.cool = u.bat->getCoolSystem();
    b.A = th.b[th.root].A;
    RefCool r;
    r.init(HVAC, (double)u.node->ncells() * u.ser * u.par, 1, 2 * Converter().getLosses(u->Vmax(), u->Cap()));
    b.C = RHO * CP * r.V();
    b.ch.push_back(th.root);
    th.b.push_back(b);
    th.root = th.b.size() - 1;
  }
  return th;
}
static void before(Therm &th)
{
  for (auto &b : th.b) {
    b.T = b.su->T(), b.I = b.su->I(), b.E = b.contact = b.kids = 0;
    if (b.cool) {
      b.h = b.cool->getH(), b.evac0 = b.cool->getHeatEvac(), b.abs0 = b.cool->getHeatabsorbed();
      if (auto *h = dynamic_cast<CoolSystem_HVAC *>(b.cool)) b.Eac0 = h->getQcoolAC_tot();
    }
  }
}
static void flow(Therm &th, size_t parent, size_t child, double K, double copies = 1)
{
  auto &p = th.b[parent], &c = th.b[child];
  p.kids += copies * K * (c.T - p.T);
  p.E += copies * K * (c.T - p.T), c.E += K * (p.T - c.T);
}
// heat exchanged and generated during t seconds, from the temperatures and coefficients before the step
static void exchange(Therm &th, double t, unsigned copies)
{
  for (size_t i = 0; i < th.b.size(); i++) {
    auto &b = th.b[i];
    if (b.node && b.node->leaf()) continue;
    if (!b.node) {
      flow(th, i, b.ch[0], b.h * std::min(b.A, th.b[b.ch[0]].A) * t, copies);
      continue;
    }
    const size_t n = b.ch.size();
    for (size_t k = 0; k < n; k++) {
      const double A = std::min(b.A, th.b[b.ch[k]].A);
      flow(th, i, b.ch[k], b.h * A * t);
      if (k == 0) flow(th, i, b.ch[k], K_C2C * A * t);
      if (k == n - 1) flow(th, i, b.ch[k], K_C2C * A * t);
      if (k + 1 < n) {
        auto &x = th.b[b.ch[k]], &y = th.b[b.ch[k + 1]];
        const double q = K_C2C * std::min(x.A, y.A) * t * (y.T - x.T);
        x.E += q, y.E -= q;
      }
      // contact resistance: in series the current of the module, in parallel the sum of the currents behind it
      double Ii = b.I;
      if (b.node->kind == Node::PARALLEL) {
        Ii = 0;
        for (size_t j = k; j < n; j++) Ii += th.b[b.ch[j]].I;
      }
      b.contact += b.node->Rc[k] * Ii * Ii * t;
    }
    b.E += b.contact;
  }
}

static Unit genThermPack(Case &c, bool bat, bool cells = false)
{
  UnitOpt o;
  o.wCell = cells ? 1 : 0, o.wPack = 3, o.wBat = bat ? 1 : 0;
  o.pack.ecm = o.pack.bucket = false;
  o.pack.maxChildren = c.b(1, 8) ? 9 : 4;
  o.pack.maxDepth = c.b(1, 3) ? 3 : 2;
  if (o.pack.maxDepth == 3) o.pack.maxChildren = 3, o.pack.nestedParallel = false;
  o.pack.nestedParallel = o.pack.nestedParallel && c.b(1, 3);
  o.pack.coolControl = (int)c.i(1, 5);
  Unit u = genUnit(c, o);
  if (u.node->ncells() > 14) c.discard();
  return u;
}
static void randomTemps(Case &c, Unit &u, double lo, double hi)
{
  c.desc << " T";
  auto set = [&](StorageUnit *s) {
    const double T = KELVIN + c.r(lo, hi);
    c.desc << " " << num(T);
    s->setT(T);
  };
  for (auto *l : u.leaves()) set(l->su);
  for (auto *m : u.node->modules()) set(m->su);
  if (u.bat) set(u.top.get());
}
// largest share of its distance to its surroundings any body covers in t seconds (the explicit scheme needs less than one)
static double share(Unit &u, double t)
{
  double x = 0;
  for (auto *l : u.leaves()) {
    const double C = RefSPM(parOf(l->su)).heatCap();
    x = std::max(x, t * (TM == 1 || u.cell() ? QCH * ACELL : (90 + 2 * K_C2C) * ACELL) / C);
  }
  return x;
}

PBT_SUB("P14.pack", 15000, 800000, "random packs and batteries of single-particle cells (nested, contact resistances, any cooling strategy, random temperatures) under random currents, steps, step counts and blocking: every cell and every coolant ends at the temperature given by its own losses, the contact losses and the heat exchanged over each interface, which leaves one side and enters the other; non-trivial: a positive-length unblocked step with current and at least two cells")
{
  Unit u = genThermPack(c, true);
  c.desc << u.show() << (u.bat ? " x" + std::to_string(u.ser) + "x" + std::to_string(u.par) : "");
  const double lo = c.pick({ 5.0, 15.0, 20.0 }), hi = lo + c.pick({ 0.0, 1.0, 10.0, 30.0 });
  randomTemps(c, u, lo, hi);
  Therm th = buildTherm(u);
  const unsigned copies = u.ser * u.par;
  bool nt = false, block = false;
  const int n = (int)c.i(1, 6);
  for (int k = 0; k < n; k++) {
    c.step();
    switch (c.weighted({ 6, 1, 1 })) {
    case 1:
      block = c.b();
      u->setBlockDegAndTherm(block);
      c.desc << " | block " << block;
      break;
    case 2: randomTemps(c, u, lo, hi); c.desc << " | temperatures";
    default: break;
    }
    if (c.b(2, 3)) {
      const double I = c.b(1, 6) ? 0 : u->Cap() * c.r(-1, 1);
      c.desc << " | I " << num(I);
      if (isStatusBad(u->setCurrent(I, false, false))) c.discard();
    }
    const double dt = c.pick({ 1.0, 2.0, 0.5, 0.0 });
    const int steps = (int)c.pick({ 1, 2, 5, 10 });
    const double t = dt * steps;
    c.desc << " | step " << dt << "x" << steps;
    before(th);
    const double V0 = u->V();
    const int e = caughtInt([&] { u->timeStep_CC(dt, steps); });
    if (e == 9 || e == 99) c.discard(); // left the temperature range (decided by P14.cell)
    if (e == 8 || e == 98 || e == 10) c.fail("P14.exception", "the thermal model of a pack refused a regular step with " + std::to_string(e));
    if (e != -1) c.discard();
    if (block || t == 0) {
      for (auto &b : th.b)
        if (b.su->T() != b.T) c.fail("P14.pack-blocked", "temperature of " + b.su->getFullID() + " changed from " + num(b.T) + " to " + num(b.su->T()) + (block ? " while blocked" : " without time"));
      continue;
    }
#if TM == 2
    for (size_t i = 0; i < th.b.size(); i++) // units below the top adapt their cooling before the top solves the thermal model
      if (i != th.root && th.b[i].cool) th.b[i].h = th.b[i].cool->getH();
    exchange(th, t, copies);
#endif
    for (auto &b : th.b) {
      if (b.node && b.node->leaf()) {
        RefSPM r(parOf(b.su));
        const SV s = stateOf(b.su);
        if (!r.inside(s) || r.nearEdge(s, 1e-6)) c.discard();
        const double Q = heatOf(r, s, b.I, b.T, t);
#if TM == 1
        b.E += QCH * ACELL * (TENV - b.T) * t;
#endif
        b.E += Q;
        const double want = b.T + b.E / b.C;
        if (!near(b.su->T(), want, 0, 1e-9 + 1e-8 * std::fabs(b.E) / b.C)) c.fail("P14.pack-cell", "cell " + b.su->getFullID() + " went from " + num(b.T) + " to " + num(b.su->T()) + ", heat balance gives " + num(want) + " (" + num(Q) + " J generated)");
      } else {
#if TM == 1
        if (b.node && b.su->T() != b.T) c.fail("P14.pack-coolant1", "coolant of " + b.su->getFullID() + " changed from " + num(b.T) + " to " + num(b.su->T()) + " although only cells have a thermal model");
#else
        double slack = 0;
        if (!b.node) { // the losses of the converter heat the container
          Converter cv;
          cv.setPower(u->Cap() * u->Vmax());
          const double l0 = cv.getLosses(V0, u->I()), l1 = cv.getLosses(u->V(), u->I()), l2 = cv.getLosses(u->V() * 1.002, u->I());
          b.E += l1 * t, b.kids += l1 * t;
          slack = (std::fabs(l1 - l0) + std::fabs(l2 - l1)) * t;
        }
        b.kids += b.contact;
        double ac = 0;
        if (auto *h = dynamic_cast<CoolSystem_HVAC *>(b.cool)) ac = h->getQcoolAC_tot() - b.Eac0;
        const double got = b.su->T(), want = b.T + (b.E - ac) / b.C, scale = std::fabs(b.E) + std::fabs(ac);
        if (!near(got, want, 0, 1e-9 + (1e-8 * scale + slack) / b.C)) c.fail(b.node ? "P14.pack-coolant" : "P14.container", "coolant of " + b.su->getFullID() + " went from " + num(b.T) + " to " + num(got) + ", heat balance gives " + num(want) + " (" + num(b.E) + " J from children, contacts, converter and neighbours, " + num(ac) + " J to the AC)");
        const double ev = b.cool->getHeatEvac() - b.evac0, ab = b.cool->getHeatabsorbed() - b.abs0;
        if (!near(ev, b.kids, 0, slack + 1e-8 * (scale + std::fabs(b.kids)) + 1e-11 * std::fabs(b.evac0) + 1e-6)) c.fail("P14.evacuated", "cooling system of " + b.su->getFullID() + " reports " + num(ev) + " J received from its children and contact resistances, they gave up " + num(b.kids) + " J");
        if (!near(ab, b.E - ac, 0, slack + 1e-8 * scale + 1e-11 * std::fabs(b.abs0) + 1e-6)) c.fail("P14.absorbed", "cooling system of " + b.su->getFullID() + " reports " + num(ab) + " J absorbed, its heat balance is " + num(b.E - ac) + " J");
#endif
      }
    }
    nt |= u->I() != 0 && u.node->ncells() > 1;
  }
  c.nontrivial(nt);
}

PBT_SUB("P14.rest", 8000, 400000, "random packs at rest from random temperatures, the air conditioning in any state: no body becomes hotter than the hottest was, none colder than the coldest unless the air conditioning extracts heat, cells on their own approach the environment monotonically; non-trivial: initial temperatures differ")
{
  Unit u = genThermPack(c, false, true);
  c.desc << u.show();
  const double lo = c.pick({ 5.0, 15.0, 20.0 }), hi = lo + c.pick({ 1.0, 10.0, 30.0 });
  randomTemps(c, u, lo, hi);
  std::vector<StorageUnit *> all;
  for (auto *l : u.leaves()) all.push_back(l->su), l->su->setCurrent(0, false, false);
  for (auto *m : u.node->modules()) all.push_back(m->su);
  if (u.node->has(Node::PARALLEL)) { // cells of a parallel group would exchange current: same state for all
    auto ls = u.leaves();
    for (auto *l : ls) {
      auto *s = dynamic_cast<Cell_SPM *>(l->su);
      s->setC(0.689332, 0.479283);
      s->setSOC(0.5, false, false);
    }
  }
  CoolSystem_HVAC *ac = nullptr;
  if (auto *m = dynamic_cast<Module *>(u.top.get())) ac = dynamic_cast<CoolSystem_HVAC *>(m->getCoolSystem());
  const int n = (int)c.i(1, 8);
  for (int k = 0; k < n; k++) {
    c.step();
    double tmin = 1e9, tmax = 0, I = 0;
    for (auto *s : all) tmin = std::min(tmin, s->T()), tmax = std::max(tmax, s->T());
    std::vector<double> T;
    for (auto *s : all) T.push_back(s->T());
    for (auto *l : u.leaves()) I = std::max(I, std::fabs(l->su->I()) / l->su->Cap());
    const double q0 = ac ? ac->getQcoolAC_tot() : 0;
    const double dt = c.pick({ 1.0, 2.0 });
    int ns = (int)c.pick({ 1, 5, 10 });
    if (share(u, dt * ns) > 0.8) ns = 1;
    if (share(u, dt * ns) > 0.8) c.discard();
    const int e = caughtInt([&] { u->timeStep_CC(dt, ns); });
    if (e != -1) c.discard();
    for (auto *l : u.leaves()) I = std::max(I, std::fabs(l->su->I()) / l->su->Cap());
    if (I > 1e-4) c.discard(); // equalising currents: not at rest
    const bool cooled = ac && ac->getQcoolAC_tot() - q0 != 0;
    const double eps = 2e-6 + 0.2 * I; // the heat of the tiny equalising currents that are let through
    for (size_t i = 0; i < all.size(); i++) {
      const double x = all[i]->T();
      const bool leaf = i < u.leaves().size();
#if TM == 1
      if (leaf) c.check(std::fabs(x - TENV) <= std::fabs(T[i] - TENV) + eps && (x - TENV) * (T[i] - TENV) >= -eps, "P14.rest-approach", "a resting cell went from " + num(T[i]) + " to " + num(x) + " in an environment at " + num(TENV));
      (void)tmin, (void)tmax, (void)cooled;
#else
      if (u.cell()) {
        c.check(std::fabs(x - TENV) <= std::fabs(T[i] - TENV) + eps && (x - TENV) * (T[i] - TENV) >= -eps, "P14.rest-approach", "a resting cell went from " + num(T[i]) + " to " + num(x) + " in an environment at " + num(TENV));
        continue;
      }
      (void)leaf;
      c.check(x <= tmax + eps, "P14.rest-hotter", "at rest " + all[i]->getFullID() + " went from " + num(T[i]) + " to " + num(x) + ", the hottest body was at " + num(tmax));
      c.check(cooled || x >= tmin - eps, "P14.rest-colder", "at rest without air conditioning " + all[i]->getFullID() + " went from " + num(T[i]) + " to " + num(x) + ", the coldest body was at " + num(tmin));
#endif
    }
  }
  c.nontrivial();
}

PBT_SUB("P07.thermal", 8000, 300000, "random packs and batteries whose temperatures change during their steps: after every step and every change of temperature the voltage of every module is still the one its circuit gives for the present state of its cells; non-trivial: at least two cells")
{
  Unit u = genThermPack(c, true);
  c.desc << u.show();
  randomTemps(c, u, 10, 45);
  const int n = (int)c.i(1, 5);
  for (int k = 0; k < n; k++) {
    c.step();
    if (c.b(2, 3)) {
      const double I = u->Cap() * c.r(-1, 1);
      if (isStatusBad(u->setCurrent(I, false, false))) c.discard();
      c.desc << " | I " << num(I);
    }
    const double dt = c.pick({ 1.0, 2.0 });
    const int steps = (int)c.pick({ 1, 5, 20 });
    c.desc << " | step " << dt << "x" << steps;
    if (caughtInt([&] { u->timeStep_CC(dt, steps); }) != -1) c.discard();
    std::vector<double> got;
    auto ms = u.node->modules();
    const double vb = u->V();
    for (auto *m : ms) got.push_back(m->su->V());
    for (size_t i = 0; i < ms.size(); i++) {
      const double want = ms[i]->refV();
      if (!near(got[i], want, 1e-9, 1e-9)) c.fail("P07.thermal-voltage", "voltage of " + ms[i]->su->getFullID() + " is " + num(got[i]) + " after a step with changing temperatures, its circuit gives " + num(want));
    }
    if (u.bat) c.check(near(vb, u.node->refV() * u.ser, 1e-9, 1e-9), "P07.thermal-voltage", "voltage of the battery is " + num(vb) + ", its circuit gives " + num(u.node->refV() * u.ser));
  }
  c.nontrivial(u.node->ncells() > 1);
}
#endif

int main(int a, char **b) { return pbt::pbtMain(a, b); }
