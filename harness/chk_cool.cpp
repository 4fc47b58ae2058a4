// P15: control laws, heat balance and accounting of the cooling systems, alone and inside packs.
#include "cool.hpp"
using namespace vt;

static double temp(Case &c) // temperatures around every threshold, and anywhere
{
  switch (c.i(0, 3)) {
  case 0: return KELVIN + c.pick({ 20.0, 25.0, 30.0, 35.0, 22.0, 27.0, 21.0, 26.0 }) + c.pick({ 0.0, -1e-6, 1e-6, 0.5, -0.5 });
  case 1: return KELVIN + c.r(15, 45);
  case 2: return KELVIN + c.r(0, 75);
  default: return KELVIN + c.i(10, 60);
  }
}

PBT_SUB("P15.law", 60000, 3000000, "a regular, open or HVAC cooling system of 1..3000 cells with any control strategy under a random sequence of temperatures, control calls, heat exchanges and resets: flow, AC power, heat-transfer coefficient, new temperature and every running total against a reference; non-trivial: at least one control call and one heat exchange of positive duration")
{
  RefCool r;
  const auto kind = (CoolKind)c.weighted({ 3, 4, 1 });
  const int N = (int)(c.b(1, 2) ? c.i(1, 20) : (long)c.rlog(1, 3000)), ctrl = (int)c.i(1, 5);
  const double Q0 = kind == HVAC && c.b(1, 2) ? c.pick({ 3000.0, 10.0, 1.0 }) * c.r(0, 1) : 0;
  r.init(kind, N, ctrl, Q0);
  std::unique_ptr<CoolSystem> s;
  if (kind == REG) s = std::make_unique<CoolSystem>((size_t)N, ctrl);
  else if (kind == OPEN)
    s = std::make_unique<CoolSystem_open>(N, ctrl);
  else
    s = std::make_unique<CoolSystem_HVAC>((size_t)N, ctrl, Q0);
  c.desc << (kind == REG ? "regular" : kind == OPEN ? "open" : "HVAC") << " N " << N << " control " << ctrl << " Q0 " << num(Q0);
  auto cmp = [&](const std::string &w) {
    const auto d = coolDiff(*s, r);
    if (!d.empty()) c.fail("P15." + d.substr(0, d.find(" is ")).substr(0, 12), w + ": " + d);
  };
  cmp("new");
  bool ctl = false, ex = false;
  const int n = (int)c.i(1, c.thorough ? 25 : 12);
  for (int k = 0; k < n; k++) {
    c.step();
    switch (c.weighted({ 5, 5, 2, 1, 1 })) {
    case 0: {
      const double Tl = temp(c), Tg = c.b(1, 3) ? Tl : std::max(Tl, temp(c));
      c.desc << " | control(" << num(Tl) << "," << num(Tg) << ")";
      const auto f = r.flows(Tl, Tg), q = r.acs(Tg);
      s->control(Tl, Tg);
      if (!oneOf(s->getFlr(), f)) c.fail("P15.fan-law", "flow is " + num(s->getFlr()) + " after control, was " + num(r.flow) + ", the control law gives " + list(f));
      c.check(s->getFlr() >= 0, "P15.fan-negative", "negative flow");
      r.flow = s->getFlr();
      if (kind == HVAC) { // the AC power shows in the next heat exchange: look at it on a copy
        std::unique_ptr<CoolSystem> t(s->copy());
        auto *h = dynamic_cast<CoolSystem_HVAC *>(t.get());
        c.check(h != nullptr, "P15.copy", "a copied HVAC system is not one");
        const double a = h->getQcoolAC_tot();
        h->dstate(0, 0, 64);
        const double Q = (h->getQcoolAC_tot() - a) / 64;
        const double slack = 1e-12 * std::fabs(a) / 64;
        bool ok = false;
        for (double y : q)
          if (near(Q, y, 1e-9, slack + 1e-12)) r.Qac = y, ok = true;
        if (!ok) c.fail("P15.AC-law", "AC power is " + num(Q) + " after control at container temperature " + num(r.T) + ", was " + num(r.Qac) + ", the control law gives " + list(q));
      }
      ctl = true;
      break;
    }
    case 1: {
      const double Qc = c.r(-2000, 5000) * N / 100, t = c.pick({ 1.0, 2.0, 20.0, 100.0, 0.5, 0.0 });
      const double Qt = kind == HVAC ? Qc : c.b(1, 2) ? Qc : Qc + c.r(-2000, 2000) * N / 100;
      c.desc << " | dstate(" << num(Qt) << "," << num(Qc) << "," << t << ")";
      const double Q = Qt - (kind == HVAC ? r.Qac * t : 0), Tn = r.T + Q / (RHO * CP * r.V());
      const auto eac = r.acEnergy(t);
      const double e0 = s->getEoperation();
      const double got = s->dstate(Qt, Qc, t);
      if (!near(got, Tn, 1e-11, 0)) c.fail("P15.heat-balance", "new coolant temperature " + num(got) + ", the heat balance gives " + num(Tn));
      r.evac += Qc, r.abso += Q, r.time += t;
      if (kind == HVAC) r.QacTot += r.Qac * t;
      const double dE = s->getEoperation() - e0, fan = r.fanPower() * t;
      bool ok = false;
      for (double y : eac)
        if (near(dE, fan + y, 1e-9, 1e-11 * std::fabs(e0) + 1e-12)) ok = true, r.Eop += fan + y;
      if (!ok) c.fail("P15.operating-energy", "operating energy grew by " + num(dE) + " J, fan " + num(fan) + " and AC " + list(eac));
      ex |= t > 0;
      if (c.b(1, 2)) { // accept the new temperature
        const int e = caughtInt([&] { s->setT(got); });
        const bool out = !(got >= KELVIN && got <= KELVIN + 75);
        c.check(out ? e == 99 : e == -1, "P15.setT-range", "temperature " + num(got) + " answered by " + std::to_string(e));
        if (!out) r.T = got;
      }
      break;
    }
    case 2: {
      const double T = c.b(1, 8) ? c.pick({ KELVIN - 0.5, KELVIN + 75.5, -1.0, (double)NAN }) : temp(c);
      c.desc << " | setT " << num(T);
      const int e = caughtInt([&] { s->setT(T); });
      const bool out = !(T >= KELVIN && T <= KELVIN + 75);
      c.check(out ? e == 99 : e == -1, "P15.setT-range", "temperature " + num(T) + " answered by " + std::to_string(e));
      if (!out) r.T = T;
      break;
    }
    case 3:
      c.desc << " | reset";
      s->reset_Eoperation();
      r.Eop = 0;
      break;
    case 4:
      if (kind == HVAC) { // the container has no neighbours: differing heats are refused
        c.desc << " | dstate(differing)";
        const int e = caughtInt([&] { s->dstate(100, 90, 1); });
        c.check(e == 10, "P15.HVAC-neighbours", "heat that is not from the children is answered by " + std::to_string(e));
      } else {
        r.ctrl = (int)c.i(1, 5);
        c.desc << " | setControl " << r.ctrl;
        s->setControl(r.ctrl);
      }
      break;
    }
    cmp("after operation " + std::to_string(k + 1));
  }
  c.nontrivial(ctl && ex);
}

// all cooling systems of a unit, each with its reference temperatures
struct Place
{
  CoolSystem *s;
  StorageUnit *su;
  double Tl, Tg, Tl2; // hottest child, hot spot; Tl2 is the alternative reading for a battery
};
static void places(StorageUnit &su, std::vector<Place> &out)
{
  if (auto *b = dynamic_cast<Battery *>(&su)) {
    double tl = 0;
    for (auto &x : b->getCells()->getSUs()) tl = std::max(tl, x->T());
    out.push_back({ b->getCoolSystem(), b, tl, b->getThotSpot(), b->getCells()->T() });
    places(*b->getCells(), out);
  } else if (auto *m = dynamic_cast<Module *>(&su)) {
    double tl = 0;
    for (auto &x : m->getSUs()) tl = std::max(tl, x->T());
    out.push_back({ m->getCoolSystem(), m, tl, m->getThotSpot(), tl });
    for (auto &x : m->getSUs()) places(*x.get(), out);
  }
}

PBT_SUB("P15.pack", 6000, 300000, "random packs and batteries with any control strategy; temperatures of cells and modules are set at random and a time step taken: every cooling system follows its law at the hottest child and hot spot, except where cooling is blocked; non-trivial: strategy 2..5")
{
  UnitOpt o;
  o.wCell = 0, o.wPack = 3, o.wBat = 1;
  o.pack.maxDepth = 2, o.pack.maxChildren = 3, o.pack.spm = false, o.pack.nestedParallel = false;
  o.pack.coolControl = (int)c.i(1, 5);
  Unit u = genUnit(c, o);
  const int ctrl = o.pack.coolControl;
  c.desc << u.show() << " control " << ctrl;
  std::map<CoolSystem *, RefCool> ref;
  {
    std::vector<Place> ps;
    places(*u.top, ps);
    for (auto &p : ps) {
      RefCool r;
      const auto k = dynamic_cast<CoolSystem_HVAC *>(p.s) ? HVAC : dynamic_cast<CoolSystem_open *>(p.s) ? OPEN : REG;
      r.init(k, p.s->getFlr() / FLOW1, ctrl, 0);
      ref[p.s] = r;
    }
  }
  const int n = (int)c.i(1, 5);
  for (int k = 0; k < n; k++) {
    c.step();
    for (auto *l : u.leaves())
      if (c.b(1, 2)) l->su->setT(std::min(temp(c), TmaxK));
    for (auto *m : u.node->modules())
      if (c.b(1, 2)) m->su->setT(temp(c));
    if (u.bat && c.b(1, 2)) u->setT(temp(c));
    std::vector<Place> ps;
    places(*u.top, ps); // temperatures do not change in this variant
    const bool blocked = c.b(1, 6);
    u->setBlockDegAndTherm(blocked);
    try {
      u->timeStep_CC(c.pick({ 1.0, 0.0, 2.0 }), (int)c.i(1, 3));
    } catch (int) {
      c.discard();
    }
    for (auto &p : ps) {
      auto &r = ref[p.s];
      auto f = blocked ? std::vector<double>{ r.flow } : r.flows(p.Tl, p.Tg);
      if (p.Tl2 != p.Tl)
        for (double x : r.flows(p.Tl2, p.Tg)) f.push_back(x);
      if (blocked && dynamic_cast<Battery *>(p.su))
        for (double x : r.flows(p.Tl, p.Tg)) f.push_back(x); // the container keeps its control
      if (!oneOf(p.s->getFlr(), f)) c.fail("P15.pack-law", "flow in " + p.su->getFullID() + " is " + num(p.s->getFlr()) + " (was " + num(r.flow) + ") with hottest child at " + num(p.Tl) + " and hot spot at " + num(p.Tg) + ", the law gives " + list(f));
      r.flow = p.s->getFlr();
    }
  }
  c.nontrivial(ctrl > 1);
}

PBT_SUB("P15.load", 6000, 300000, "random packs and batteries whose cooling systems work for random times: the load collected at the top is the sum over all cooling systems since the last collection, once, and every counter restarts; non-trivial: at least two cooling systems that worked")
{
  UnitOpt o;
  o.wCell = 0, o.wPack = 3, o.wBat = 2;
  o.pack.maxDepth = 3, o.pack.maxChildren = 3, o.pack.coolControl = (int)c.i(1, 5);
  Unit u = genUnit(c, o);
  c.desc << u.show();
  std::vector<Place> ps;
  places(*u.top, ps);
  auto load = [&](StorageUnit *su) { return dynamic_cast<Battery *>(su) ? dynamic_cast<Battery *>(su)->getCoolingLoad() : dynamic_cast<Module *>(su)->getCoolingLoad(); };
  int worked = 0;
  std::map<CoolSystem *, double> E;
  const int n = (int)c.i(1, 4);
  for (int k = 0; k < n; k++) {
    for (auto &p : ps)
      if (c.b(2, 3)) {
        const double e0 = p.s->getEoperation();
        p.s->control(KELVIN + 40, KELVIN + 40);
        const double q = c.r(0, 100);
        p.s->dstate(q, q, c.pick({ 10.0, 1.0, 100.0 }));
        E[p.s] += p.s->getEoperation() - e0;
        worked++;
      }
    auto &at = ps[c.b(2, 3) ? 0 : (size_t)c.i(0, (long)ps.size() - 1)]; // collected at the top, or at a unit below
    std::vector<Place> below;
    places(*at.su, below);
    double sum = 0;
    for (auto &p : below) sum += E[p.s], E[p.s] = 0;
    c.desc << " | collect at " << at.su->getFullID();
    const double x = load(at.su), again = load(at.su);
    if (!near(x, sum, 1e-9, 1e-9)) c.fail("P15.load-sum", "collected " + num(x) + " J at " + at.su->getFullID() + ", the cooling systems used " + num(sum));
    if (again != 0) c.fail("P15.load-reset", "a second collection gives " + num(again) + " J");
    for (auto &p : ps)
      if (!near(p.s->getEoperation(), E[p.s], 1e-9, 1e-9)) c.fail("P15.load-elsewhere", "the counter of " + p.su->getFullID() + " is " + num(p.s->getEoperation()) + " J after collecting, expected " + num(E[p.s]));
  }
  c.nontrivial(worked >= 2);
}

PBT_SUB("P15.size", 4000, 100000, "modules and batteries built for random numbers of cells, cooling types and strategies, with or without converter losses: cooling systems start on, with flow, volume and AC power sized for their cells and the converter's idle losses; non-trivial: every case")
{
  if (c.b(1, 2)) {
    const int type = (int)c.i(0, 2), N = (int)c.i(1, 200), ctrl = (int)c.i(1, 5);
    const double Ti = KELVIN + c.r(0, 75);
    c.desc << "module type " << type << " N " << N << " control " << ctrl << " T " << num(Ti);
    std::unique_ptr<Module> m;
    if (c.b()) m = std::make_unique<Module_s>("m", Ti, true, false, N, ctrl, type);
    else
      m = std::make_unique<Module_p>("m", Ti, true, false, N, ctrl, type);
    RefCool r;
    r.init((CoolKind)type, N, ctrl, 0);
    r.T = Ti;
    const auto d = coolDiff(*m->getCoolSystem(), r);
    c.check(d.empty(), "P15.module-size", d);
    const double q = c.r(-50, 50), t = c.r(0, 10);
    const double Tn = r.T + (q - r.Qac * t) / (RHO * CP * r.V()), got = m->getCoolSystem()->dstate(q, q, t);
    if (!near(got, Tn, 1e-11, 0)) c.fail("P15.module-volume", "coolant at " + num(got) + ", heat balance " + num(Tn));
  } else {
    PackOpt o;
    o.maxDepth = 2, o.maxChildren = 4, o.topCool = (int)c.pick({ 0, 2 }), o.coolControl = (int)c.i(1, 5);
    const unsigned ser = (unsigned)c.i(1, 20), par = (unsigned)c.i(1, 20);
    Pack p = genPack(c, o);
    auto bt = wrapBattery(*dynamic_cast<Module *>(p.top.get()), ser, par);
    auto *b = dynamic_cast<Battery *>(bt.get());
    c.desc << p.node->show() << " x " << ser << " x " << par << " control " << o.coolControl;
    Converter conv; // sized before the power is known, as documented: twice the losses at 1C and highest voltage
    RefCool r;
    r.init(HVAC, (double)p.node->ncells() * ser * par, o.coolControl, 2 * conv.getLosses(b->Vmax(), b->Cap()));
    r.T = b->T();
    const auto d = coolDiff(*b->getCoolSystem(), r);
    c.check(d.empty(), "P15.battery-size", d);
    const double q = c.r(-50, 50), t = c.r(0, 10);
    const double Tn = r.T + (q - r.Qac * t) / (RHO * CP * r.V()), got = b->getCoolSystem()->dstate(q, q, t);
    if (!near(got, Tn, 1e-11, 0)) c.fail("P15.battery-volume", "coolant at " + num(got) + ", heat balance " + num(Tn));
  }
  c.nontrivial();
}

int main(int a, char **b) { return pbt::pbtMain(a, b); }
