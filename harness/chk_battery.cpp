// P19: the battery against its module, its multipliers and an independently written converter.
#include "life.hpp"
using namespace vt;

// ---------------------------------------------------------------------------------------------- converter reference
// Two-stage converter: DC/DC and DC/AC stage with linearised IGBT drops, switching energies and filter, split over equal inverters of 200 kW.
static double refLosses(double Pnom, double Vin, double Iin)
{
  constexpr double pi = 3.14159265358979323846, f = 8000, Vdc = 1500, Vac = 1500, R = 13.6e-3, Cdc = 3e-3;
  const double n = std::ceil(Pnom / 200e3);
  const double I = std::fabs(Iin) / n, Ib = I * std::fabs(Vin) / Vdc;
  auto drop = [](double i) { return i > 30 ? 1 + 2.0 / 270 * (i - 30) : i / 30; };
  auto Esw = [](double i) { return (6 + 0.1 * std::fabs(i - 50)) * 1e-3; };
  double p = 0;
  p += I * drop(I) * (1 + 2 * Vin / Vdc) + f * Esw(I);
  p += Ib * drop(Ib) * (1 + 2 * Vdc / Vac) + 6 * f * (2 * Esw(Ib) + 1e-3);
  p += R * std::pow(2 * pi * f * Cdc, 2) + 3 * R * Ib * Ib + R * I * I;
  return p * n;
}

PBT_SUB("P19.converter", 200000, 10000000, "random nominal power (one to many inverters), input voltage and current including the kinks of the loss curves: losses follow the loss equations, are positive and the same for charging and discharging; non-trivial: non-zero current")
{
  const double Pn = c.pick({ 200e3, c.rlog(1e2, 5e6), 200e3 * c.i(1, 20), 200e3 * c.i(1, 20) + c.pick({ 1e-3, 1.0 }) });
  const double n = std::ceil(Pn / 200e3);
  const double V = c.pick({ c.r(2, 1300), c.rlog(1, 1500), c.r(2.7, 4.2) });
  double I = 0;
  switch (c.i(0, 5)) {
  case 0: I = c.r(-100, 100) * n; break;
  case 1: I = c.r(-1000, 1000) * n; break;
  case 2: I = n * c.pick({ 30.0, 50.0, 29.999, 30.001, 49.999, 50.001 }); break;
  case 3: I = n * 1500 / V * c.pick({ 30.0, 50.0, 29.999, 30.001, 49.999, 50.001 }); break;
  case 4: I = c.rlog(1e-3, 10); break;
  case 5: I = 0; break;
  }
  if (c.b(1, 3)) I = -I;
  c.desc << "Pnom " << num(Pn) << " V " << num(V) << " I " << num(I);
  Converter k;
  if (c.b(1, 4)) k.getLosses(V, I); // reading has no effect
  k.setPower(Pn);
  const double l = k.getLosses(V, I), m = k.getLosses(V, -I), r = refLosses(Pn, V, I);
  c.check(std::isfinite(l) && l >= 0, "P19.losses-negative", "losses " + num(l));
  c.check(near(l, m, 1e-12, 0), "P19.losses-sign", "losses depend on the direction of the current: " + num(l) + " at " + num(I) + ", " + num(m) + " at " + num(-I));
  c.check(near(l, r, 1e-9, 0), "P19.losses-equation", "losses " + num(l) + ", the loss equations give " + num(r));
  c.nontrivial(I != 0);
}

// builds the same module twice from the same choices (with a regular/open and with an HVAC cooling system) and puts one into a battery
struct Twin
{
  Unit b, m;
};
static Twin genTwin(Case &c, PackOpt o, bool late = false)
{
  Twin t;
  const unsigned ser = (unsigned)c.pick({ 1, 2, 7, (int)c.i(1, 20), 100 }), par = (unsigned)c.pick({ 1, 3, 2, (int)c.i(1, 12), 50 });
  o.topCool = (int)c.pick({ 0, 2 });
  const size_t mk = c.mark();
  auto build = [&](Case &k, int cool) {
    PackOpt q = o;
    q.topCool = cool;
    return genPack(k, q);
  };
  Pack p = build(c, o.topCool);
  auto *bat = new Battery("bat");
  t.b.top = Deep_ptr<StorageUnit>(static_cast<StorageUnit *>(bat));
  t.b.node = std::move(p.node);
  t.b.ser = ser, t.b.par = par;
  if (!late) bat->setSeriesandParallel(ser, par);
  bat->setModule(Deep_ptr<Module>(dynamic_cast<Module *>(p.top.get())->copy()));
  if (late) bat->setSeriesandParallel(ser, par);
  t.b.bat = bat;
  bindTree(*t.b.node, bat->getCells());
  c.again(mk, [&] {
    Pack q = build(c, 1);
    t.m.top = std::move(q.top), t.m.node = std::move(q.node);
  });
  c.desc << " ser " << ser << " par " << par << " " << t.b.show();
  return t;
}

static void compare(Case &c, Twin &t, const std::string &when)
{
  Unit &b = t.b, &m = t.m;
  const double s = b.ser, p = b.par;
  auto chk = [&](const char *what, double x, double y) {
    if (!near(x, y, 1e-9, 1e-12)) c.fail(std::string("P19.") + what, when + ": battery " + what + " is " + num(x) + ", module and multipliers (" + num(s) + " in series, " + num(p) + " in parallel) give " + num(y));
  };
  chk("V", b->V(), m->V() * s);
  chk("I", b->I(), m->I() * p);
  chk("OCV", b->getOCV(), m->getOCV() * s);
  chk("Rtot", b->getRtot(), m->getRtot() * s / p);
  chk("Cap", b->Cap(), m->Cap() * p);
  chk("Vmin", b->Vmin(), m->Vmin() * s);
  chk("VMIN", b->VMIN(), m->VMIN() * s);
  chk("Vmax", b->Vmax(), m->Vmax() * s);
  chk("VMAX", b->VMAX(), m->VMAX() * s);
  chk("Ncells", (double)b->getNcells(), (double)m->getNcells() * s * p);
  chk("Vhigh", b->getVhigh(), m->getVhigh());
  chk("Vlow", b->getVlow(), m->getVlow());
  chk("hot-spot", b->getThotSpot(), std::max(m->getThotSpot(), b->T()));
  chk("isCharging", b->isCharging(), m->isCharging());
  chk("isDischarging", b->isDischarging(), m->isDischarging());
  double vb = -1, vm = -1;
  const auto sb = b->checkVoltage(vb, false), sm = m->checkVoltage(vm, false);
  c.check(sb == sm, "P19.check-status", when + ": checkVoltage of the battery says " + sname(sb) + ", of its module " + sname(sm));
  chk("check-voltage", vb, vm * s);
  auto xb = b.bat->getCells()->getOCV(), xm = m->getOCV();
  chk("cells", xb, xm);
}

PBT_SUB("P19.scaling", 30000, 2000000, "a random module alone and the same module in a battery with random multipliers, taken through the same operations: every terminal quantity, limit, status and count of the battery is that of the module times the multipliers; non-trivial: multipliers other than 1 and a non-zero current")
{
  PackOpt o;
  o.maxDepth = (int)c.i(1, 2), o.maxChildren = 3;
  o.nestedParallel = c.b(1, 3);
  Twin t = genTwin(c, o, c.b(1, 5));
  compare(c, t, "new");
  bool cur = false;
  const int n = (int)c.i(1, c.thorough ? 12 : 6);
  for (int k = 0; k < n; k++) {
    c.step();
    const double cap = t.m->Cap(), p = t.b.par;
    switch (c.weighted({ 4, 4, 1, 1, 1, 1 })) {
    case 0: {
      const double I = c.b(1, 8) ? 0.0 : cap * c.r(-1.5, 1.5);
      const bool chk = !c.b(1, 3);
      c.desc << " | setCurrent(" << num(I * p) << (chk ? ")" : ",nocheck)");
      const auto a = t.b->setCurrent(I * p, chk, false), b = t.m->setCurrent(I * p / p, chk, false);
      c.check(a == b, "P19.setCurrent-status", std::string("setting the battery current says ") + sname(a) + ", the module alone " + sname(b));
      if (!isStatusBad(a) && I != 0) {
        cur = true;
        if (!near(t.b->I(), I * p, 1e-8, 1e-8 * cap * p)) c.fail("P19.setCurrent-value", "asked for " + num(I * p) + " A, the battery carries " + num(t.b->I()));
      }
      break;
    }
    case 1: {
      const double dt = c.pick({ 1.0, 2.0, 0.5, 0.0 });
      const int ns = (int)c.pick({ 1, 2, 5 });
      c.desc << " | step(" << dt << "," << ns << ")";
      double ea = 0, eb = 0;
      try {
        t.b->timeStep_CC(dt, ns);
      } catch (int e) {
        ea = e;
      }
      try {
        t.m->timeStep_CC(dt, ns);
      } catch (int e) {
        eb = e;
      }
      c.check(ea == eb, "P19.step-throws", "time step of the battery throws " + num(ea) + ", of the module alone " + num(eb));
      if (ea) c.discard();
      break;
    }
    case 2: {
      const bool bl = c.b(1, 2);
      c.desc << " | block " << bl;
      t.b->setBlockDegAndTherm(bl), t.m->setBlockDegAndTherm(bl);
      break;
    }
    case 3: { // the states of the battery are those of the module followed by its own temperature
      c.desc << " | states";
      auto sb = states(*t.b.top), sm = states(*t.m.top);
      c.check(sb.size() == sm.size() + 1, "P19.states-size", "the battery saves " + std::to_string(sb.size()) + " values, its module " + std::to_string(sm.size()));
      sm.push_back(t.b->T());
      for (size_t i = 0; i < sb.size(); i++)
        if (!near(sb[i], sm[i], 1e-9, 1e-12)) c.fail("P19.states", "entry " + std::to_string(i) + " of the battery states is " + num(sb[i]) + ", of its module " + num(sm[i]));
      break;
    }
    case 4: {
      const double T = KELVIN + c.r(1, 60);
      c.desc << " | setT " << num(T);
      t.b->setT(T);
      if (!near(t.b->T(), T, 1e-12, 0)) c.fail("P19.setT", "battery temperature set to " + num(T) + " is " + num(t.b->T()));
      break;
    }
    case 5: { // a voltage set-point: the module twin is given the resulting current
      const double V = t.b->V() * c.r(0.995, 1.005);
      c.desc << " | setVoltage " << num(V);
      const auto a = t.b->setVoltage(V, true, false);
      if (!isStatusBad(a)) {
        if (!near(t.b->V(), V, 1e-9, 2e-6 * std::max(1.0, (double)t.b.ser))) c.fail("P19.setVoltage", "asked for " + num(V) + " V, the battery has " + num(t.b->V()));
      }
      auto sb = states(*t.b.bat->getCells());
      std::span<double> sp{ sb };
      t.m->setStates(sp, false, false);
      break;
    }
    }
    compare(c, t, "after operation " + std::to_string(k + 1));
  }
  c.nontrivial(cur && (t.b.ser > 1 || t.b.par > 1));
}

PBT_SUB("P19.lossbook", 12000, 800000, "a battery with random multipliers under random currents and steps, its loss counters read and reset at random: every step adds the converter's losses at the battery's terminals for the time of the step, once, to both the resettable and the lifetime total; non-trivial: a step at non-zero current")
{
  PackOpt o;
  o.maxDepth = (int)c.i(1, 2), o.maxChildren = 3, o.nestedParallel = false;
  Twin t = genTwin(c, o, false);
  Battery &b = *t.b.bat;
  const double Pn = t.m->Cap() * t.b.par * t.m->Vmax() * t.b.ser;
  double lo = 0, hi = 0, LO = 0, HI = 0;
  bool cur = false;
  const int n = (int)c.i(1, c.thorough ? 15 : 8);
  auto within = [&](double x, double a, double z) { return x >= a - 1e-3 * std::fabs(a) - 1e-9 && x <= z + 1e-3 * std::fabs(z) + 1e-9; };
  for (int k = 0; k < n; k++) {
    c.step();
    switch (c.weighted({ 3, 5, 1, 1, 1 })) {
    case 0: {
      const double I = c.b(1, 8) ? 0.0 : t.b->Cap() * c.r(-1.2, 1.2);
      c.desc << " | setCurrent " << num(I);
      t.b->setCurrent(I, true, false);
      break;
    }
    case 1: {
      const double dt = c.pick({ 1.0, 2.0, 0.5, 0.0 });
      const int ns = (int)c.pick({ 1, 2, 5 });
      c.desc << " | step(" << dt << "," << ns << ")";
      const double l0 = refLosses(Pn, t.b->V(), t.b->I());
      try {
        t.b->timeStep_CC(dt, ns);
      } catch (int) {
        c.discard();
      }
      if (!(t.b->V() > 0)) c.discard();
      const double l1 = refLosses(Pn, t.b->V(), t.b->I());
      lo += std::min(l0, l1) * dt * ns, hi += std::max(l0, l1) * dt * ns;
      LO += std::min(l0, l1) * dt * ns, HI += std::max(l0, l1) * dt * ns;
      if (dt > 0 && std::fabs(t.b->I()) > 1e-9) cur = true;
      break;
    }
    case 2: {
      c.desc << " | getAndReset";
      const double x = b.getAndResetConvLosses();
      c.check(within(x, lo, hi), "P19.period-losses", "losses since the last reset are " + num(x) + " J, the converter lost " + num(lo) + ".." + num(hi));
      lo = hi = 0;
      break;
    }
    case 3:
      c.desc << " | reset";
      b.resetConvLosses();
      lo = hi = 0;
      break;
    case 4: {
      const bool bl = c.b(1, 2);
      c.desc << " | block " << bl;
      t.b->setBlockDegAndTherm(bl);
      break;
    }
    }
    const double x = b.getConvLosses_total();
    c.check(within(x, LO, HI), "P19.total-losses", "lifetime losses are " + num(x) + " J, the converter lost " + num(LO) + ".." + num(HI));
  }
  const double x = b.getAndResetConvLosses();
  c.check(within(x, lo, hi), "P19.period-losses", "losses since the last reset are " + num(x) + " J, the converter lost " + num(lo) + ".." + num(hi));
  c.check(b.getAndResetConvLosses() == 0, "P19.reset-losses", "losses are not zero right after they were reset");
  c.nontrivial(cur);
}

PBT_SUB("P19.setModule", 1500, 20000, "connecting modules to a battery: modules with an HVAC system or a parent, or a second module, are refused with the error documented and change nothing; an accepted module belongs to the battery; non-trivial: every case")
{
  PackOpt o;
  o.maxDepth = 1, o.maxChildren = 3;
  const int top = (int)c.pick({ 0, 2, 1 });
  o.topCool = top;
  o.coolControl = (int)c.i(1, 5);
  Pack p = genPack(c, o);
  auto mod = Deep_ptr<Module>(dynamic_cast<Module *>(p.top.get())->copy());
  Battery b("bat");
  const int mode = c.weighted({ 3, 1, 1 });
  c.desc << "cool " << top << " mode " << mode;
  if (mode == 1) { // module of another pack
    Battery b0("other");
    auto m2 = Deep_ptr<Module>(dynamic_cast<Module *>(p.top.get())->copy());
    mod->setParent(&b0);
    const int e = caughtInt([&] { b.setModule(std::move(mod)); });
    c.check(e == 10, "P19.setModule-parent", "a module that has a parent is answered by " + std::to_string(e));
    c.check(b.getCells() == nullptr && b.getCoolSystem() == nullptr, "P19.setModule-refused", "a refused module was connected");
    c.nontrivial();
    return;
  }
  const auto *raw = mod.get();
  const int e = caughtInt([&] { b.setModule(std::move(mod)); });
  if (top == 1) {
    c.check(e == 10, "P19.setModule-HVAC", "a module with an HVAC system is answered by " + std::to_string(e));
    c.check(b.getCells() == nullptr && b.getCoolSystem() == nullptr, "P19.setModule-refused", "a refused module was connected");
  } else {
    c.check(e == -1, "P19.setModule-accepts", "a valid module is answered by " + std::to_string(e));
    c.check(b.getCells() == raw && b.getCells()->getParent() == &b, "P19.setModule-parent-is-battery", "the connected module does not belong to the battery");
    c.check(b.getCoolSystem() && b.getCoolSystem()->getControl() == o.coolControl, "P19.setModule-cooling", "the battery's cooling system does not follow the module's control strategy");
    c.check(b.getFullID() == "bat" && b.getCells()->getFullID() == "bat_" + b.getCells()->getID(), "P19.fullID", "full identities are " + b.getFullID() + " and " + b.getCells()->getFullID());
    if (mode == 2) {
      auto m2 = Deep_ptr<Module>(dynamic_cast<Module *>(p.top.get())->copy());
      const int e2 = caughtInt([&] { b.setModule(std::move(m2)); });
      c.check(e2 == 10 && b.getCells() == raw, "P19.setModule-second", "a second module is answered by " + std::to_string(e2));
    }
  }
  c.nontrivial();
}

int main(int a, char **b) { return pbt::pbtMain(a, b); }
