// P27: cells with variation factors against a nominal cell, and the prefabricated packs against their specification.
#include "spm.hpp"
#include "slide.hpp"
#include "factories/makeBattery.hpp"
#include "cool.hpp"
#include <functional>
#include <set>
using namespace vt;

struct Hush
{
  std::ostringstream sink;
  std::streambuf *old;
  Hush() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~Hush() { std::cout.rdbuf(old); }
};

static double factor(Case &c) { return c.pick({ 1.0, c.r(0.9, 1.1), c.r(0.5, 2.0), c.rlog(0.1, 5) }); }

// The cell with capacity factor k is k nominal cells side by side: same potentials, current and every area k times as large.
PBT_SUB("P27.scale", 20000, 600000, "a cell with a capacity factor at k times the current next to a nominal cell, degradation models on, over random histories; non-trivial: factor and current differ from the trivial values")
{
  DEG_ID d;
  if (c.b(3, 4)) {
    // the models whose published equations are written per area (the others use the current of the whole cell)
    if (c.b(1, 2)) d.SEI_id.add_model(4);
    if (c.b(1, 2)) d.SEI_porosity = 1;
    if (c.b(1, 2)) d.LAM_id.add_model((int)c.i(0, 4));
    if (c.b(1, 4)) d.LAM_id.add_model((int)c.i(1, 4));
  }
  const double k = factor(c), rf = c.b(1, 2) ? 1.0 : factor(c), fs = factor(c), fl = factor(c);
  // a resistance factor f and a capacity factor k: the nominal cell is given the same resistance factor
  Cell_SPM a("a", d, 1, rf, fs, fl), b("b", d, k, rf, fs, fl);
  c.desc << "cap x" << num(k) << " R x" << num(rf) << " deg x" << num(fs) << "/" << num(fl) << " SEI " << !d.SEI_id.empty() << " porosity " << (int)d.SEI_porosity << " LAM";
  for (int l : d.LAM_id) c.desc << " " << l;
  c.desc << ":";
  RefSPM ref;
  const auto var = b.getVariations();
  c.check(var == std::array<double, 4>{ k, rf, fs, fl }, "P27.variations", "cell reports variation factors " + num(var[0]) + "," + num(var[1]) + "," + num(var[2]) + "," + num(var[3]));
  c.check(near(b.Cap(), 16 * k, 1e-12, 0), "P27.capacity", "capacity " + num(b.Cap()));
  c.check(b.getID() == "b", "P27.id", "ID " + b.getID());
  c.check(near(b.getRtot() * k, a.getRtot(), 1e-9, 0), "P27.resistance-area", "resistance of the scaled cell " + num(b.getRtot()) + ", of the nominal one " + num(a.getRtot()));
  if (c.b(1, 5)) a.setBlockDegAndTherm(true), b.setBlockDegAndTherm(true), c.desc << " blocked";
  bool moved = false;
  const int n = (int)c.i(1, 8);
  for (int q = 0; q < n; q++) {
    const double I = c.b(1, 6) ? 0 : 16 * c.r(-1.2, 1.2);
    const auto sa = a.setCurrent(I, true, false), sb = b.setCurrent(I * k, true, false);
    c.desc << " I=" << num6(I);
    const double va = a.V();
    if (classify(va, I).ambiguous) return;
    c.check(sa == sb, "P27.scale-status", std::string("nominal cell: ") + sname(sa) + ", scaled cell: " + sname(sb));
    if (!isStatusOK(sa)) {
      a.setCurrent(0, false, false), b.setCurrent(0, false, false);
      continue;
    }
    const double dt = c.pick({ 1.0, 2.0, 5.0, 0.5 });
    const int m = (int)c.pick({ 1, 3, 10, 40 });
    c.desc << " " << dt << "x" << m;
    if (!ref.stable(states(a), dt)) continue;
    c.step();
    try {
      a.timeStep_CC(dt, m);
    } catch (int e) {
      bool same = false;
      try {
        b.timeStep_CC(dt, m);
      } catch (int f) { same = e == f; }
      c.check(same, "P27.scale-throw", "nominal cell threw " + std::to_string(e) + ", the scaled one did not");
      return;
    }
    b.timeStep_CC(dt, m);
    if (I != 0) moved = true;
    if (a.V() < 0.5 || a.V() > 5) return; // outside any sensible range, curves too steep to compare
    c.check(near(a.V(), b.V(), 1e-8, 0), "P27.scale-V", "voltage: nominal " + num(a.V()) + ", scaled " + num(b.V()));
    c.check(near(a.getOCV(), b.getOCV(), 1e-8, 0), "P27.scale-OCV", "OCV: nominal " + num(a.getOCV()) + ", scaled " + num(b.getOCV()));
    const auto x = states(a), y = states(b);
    for (size_t i = 0; i < x.size(); i++) {
      const bool ext = i == ix::I || i == ix::LLI || i == ix::CS || i == ix::Ah || i == ix::Wh; // these belong to the cell as a whole
      const double w = ext ? x[i] * k : x[i];
      if (!near(w, y[i], 1e-7, i >= ix::zp && i < ix::rDCp ? 1e-9 : 1e-18)) c.fail(std::string("P27.scale-") + ixName(i), std::string(ixName(i)) + ": nominal " + num(x[i]) + (ext ? " times " + num(k) : "") + ", scaled " + num(y[i]));
    }
  }
  c.nontrivial(moved && k != 1);
}

// The resistance factor adds a resistance and nothing else.
PBT_SUB("P27.resistance", 20000, 600000, "a cell with a resistance factor next to a nominal cell under the same current history: same internals, voltage lower by the extra ohmic drop; non-trivial: factor and current differ from the trivial values")
{
  const double k = c.pick({ 1.0, c.r(0.8, 1.3) }), rf = factor(c);
  Cell_SPM a("a", DEG_ID{}, k, 1, 1, 1), b("b", DEG_ID{}, k, rf, 1, 1);
  c.desc << "cap x" << num(k) << " R x" << num(rf) << ":";
  // the film on the anode is no part of the cell-to-cell variation
  auto s = states(a);
  RefSPM r;
  const double Sn = s[ix::an] * s[ix::thickn] * 0.62 * k, film = RefSPM::rsei * s[ix::delta] / Sn, el = a.getRtot() - film;
  c.check(near(b.getRtot(), film + rf * el, 1e-9, 0), "P27.resistance", "total resistance " + num(b.getRtot()) + ", expected " + num(film + rf * el) + " (nominal " + num(a.getRtot()) + ")");
  bool moved = false;
  for (int q = 0, n = (int)c.i(1, 6); q < n; q++) {
    const double I = 16 * k * c.r(-1.2, 1.2);
    a.setCurrent(I, false, false), b.setCurrent(I, false, false);
    c.desc << " I=" << num6(I);
    const double dt = c.pick({ 1.0, 2.0, 5.0 });
    const int m = (int)c.pick({ 1, 5, 30 });
    c.desc << " " << dt << "x" << m;
    c.step();
    if (a.V() < 2 || a.V() > 4.4) break;
    c.check(near(b.V(), a.V() - I * el * (rf - 1), 1e-9, 0), "P27.resistance-V", "voltage " + num(b.V()) + ", expected " + num(a.V() - I * el * (rf - 1)));
    c.check(a.getOCV() == b.getOCV(), "P27.resistance-OCV", "OCV differs: " + num(b.getOCV()) + " vs " + num(a.getOCV()));
    a.timeStep_CC(dt, m), b.timeStep_CC(dt, m);
    auto x = states(a), y = states(b);
    for (size_t i = 0; i < x.size(); i++)
      if (i != ix::V && i != ix::Wh && i != ix::rDCp && i != ix::rDCn && i != ix::rDCcc && x[i] != y[i]) c.fail(std::string("P27.resistance-") + ixName(i), std::string(ixName(i)) + " differs: " + num(y[i]) + " vs " + num(x[i]));
    moved = true;
  }
  c.nontrivial(moved && rf != 1);
}

// The degradation factors: the first speeds up SEI growth, cracking and plating, the second loss of active material.
PBT_SUB("P27.rates", 30000, 1000000, "one step from the same state with and without degradation factors, one model at a time: the state that model drives changes in proportion to its factor and not with the other one; non-trivial: factors differ from 1")
{
  DEG_ID d;
  const int kind = (int)c.i(0, 3);
  int id = 1;
  size_t drv[4] = { ix::delta, ix::CS, ix::thickn, ix::dpl };
  size_t idx = drv[kind];
  if (kind == 0) d.SEI_id.add_model(id = (int)c.i(1, 4));
  if (kind == 1) d.CS_id.add_model(id = (int)c.i(1, 5));
  if (kind == 2) {
    d.LAM_id.add_model(id = (int)c.i(1, 4));
    idx = id == 1 ? c.pick({ ix::thickp, ix::thickn }) : id == 2 ? c.pick({ ix::ep, ix::en })
                                                     : id == 3   ? ix::ep
                                                                 : c.pick({ ix::ap, ix::an });
  }
  if (kind == 3) d.pl_id = 1;
  const double f = factor(c), other = factor(c);
  Cell_SPM a("a", d, 1, 1, 1, 1), b("b", d, 1, 1, kind == 2 ? other : f, kind == 2 ? f : other);
  // same history first, without degradation
  const double I = 16 * c.r(-1, 1), dt = c.pick({ 1.0, 2.0, 5.0 });
  const int warm = (int)c.pick({ 0, 10, 60, 200 });
  const double T = KELVIN + c.r(5, 50);
  {
    SV t = states(a);
    t[ix::T] = T;
    if (!RefSPM().stable(t, dt)) { c.discard(); return; }
  }
  for (auto *q : { &a, &b }) {
    q->setBlockDegAndTherm(true);
    q->setT(T);
    q->setCurrent(I, false, false);
    if (warm) q->timeStep_CC(dt, warm);
    q->setBlockDegAndTherm(false);
  }
  c.desc << "kind " << kind << " model " << id << " state " << ixName(idx) << " factor " << num(f) << " other factor " << num(other) << " I " << num6(I) << " T " << num6(T) << " warm-up " << warm << "x" << dt;
  if (a.V() < 2.2 || a.V() > 4.3) { c.discard(); return; }
  const auto x0 = states(a), y0 = states(b);
  a.timeStep_CC(dt, 1), b.timeStep_CC(dt, 1);
  const auto x1 = states(a), y1 = states(b);
  const double da = x1[idx] - x0[idx], db = y1[idx] - y0[idx];
  // increments are differences of large numbers: allow for their rounding
  const double eps = 8 * std::fabs(x0[idx]) * 2.3e-16 * std::max(1.0, f);
  const double cap = 5e-6 * dt * (1 - 1e-9); // model 3 is limited to 5e-6 per second
  if (kind == 2 && id == 3 && (std::fabs(da) >= cap || std::fabs(db) >= cap)) { c.label("limited"); return; }
  c.check(std::fabs(db - f * da) <= 1e-6 * std::fabs(f * da) + eps, "P27.rate-factor", std::string(ixName(idx)) + " changes by " + num(db) + " with the factor, by " + num(da) + " without: ratio " + num(db / da) + " instead of " + num(f));
  c.nontrivial(f != 1 && std::fabs(da) > 100 * eps);
  c.label("rate visible", std::fabs(da) > 1e4 * eps);
}

// ---------------------------------------------------------------------------------------------- factories
struct Level
{
  bool series;
  size_t n;
  double Rc;
  int cool; // kind of cooling system
};
struct Spec
{
  std::vector<Level> lv; // top first
  size_t ncells() const
  {
    size_t k = 1;
    for (auto &l : lv) k *= l.n;
    return k;
  }
};

struct Walk
{
  Case &c;
  const Spec &s;
  std::vector<Cell_SPM *> cells;
  std::set<std::string> ids;
  int control{ 1 };
  void unit(StorageUnit *u, StorageUnit *parent, size_t l)
  {
    c.check(u->getParent() == parent, "P27.parent", "unit " + u->getFullID() + " has the wrong parent");
    c.check(ids.insert(u->getFullID()).second, "P27.identity", "two units are called " + u->getFullID());
    if (l == s.lv.size()) {
      auto *q = dynamic_cast<Cell_SPM *>(u);
      c.check(q != nullptr, "P27.structure", u->getFullID() + " is not a single-particle cell");
      if (q) cells.push_back(q);
      return;
    }
    auto *m = dynamic_cast<Module *>(u);
    if (!m) return c.fail("P27.structure", u->getFullID() + " is not a module");
    const bool ser = dynamic_cast<Module_s *>(u), par = dynamic_cast<Module_p *>(u);
    c.check(ser == s.lv[l].series && par == !s.lv[l].series, "P27.structure", u->getFullID() + " is connected the wrong way");
    c.check(m->getNSUs() == s.lv[l].n, "P27.structure", u->getFullID() + " has " + std::to_string(m->getNSUs()) + " children instead of " + std::to_string(s.lv[l].n));
    size_t nc = 1;
    for (size_t k = l; k < s.lv.size(); k++) nc *= s.lv[k].n;
    c.check(m->getNcells() == nc, "P27.structure", u->getFullID() + " reports " + std::to_string(m->getNcells()) + " cells instead of " + std::to_string(nc));
    auto *cs = m->getCoolSystem();
    const bool open = dynamic_cast<CoolSystem_open *>(cs), hvac = dynamic_cast<CoolSystem_HVAC *>(cs);
    c.check(cs && !hvac && open == (s.lv[l].cool == 2), "P27.cooling", u->getFullID() + " has the wrong kind of cooling system");
    RefCool r;
    r.init((CoolKind)s.lv[l].cool, nc, control, 0);
    r.T = m->T();
    if (cs) {
      const auto d = coolDiff(*cs, r);
      c.check(d.empty(), "P27.cooling-size", u->getFullID() + ": cooling system not as for its cells and strategy: " + d);
    }
    for (auto &k : m->getSUs()) unit(k.get(), u, l + 1);
  }
};

struct Factory
{
  const char *name;
  std::function<Deep_ptr<StorageUnit>(bool cap, bool R, bool deg, bool con, int cool, bool bal, double RM)> make;
  std::function<Spec(bool con, double RM)> spec;
  DEG_ID deg;
  bool big;
};
static Spec epfl(bool con, double RM, size_t racks, size_t mods, size_t ns, size_t np)
{
  const double rc = con ? 0.0075e-3 * RM : 0, r = con ? 0.25e-3 * RM : 0;
  return { { { false, racks, r, 2 }, { true, mods, r, 2 }, { true, ns, rc, 0 }, { false, np, rc, 2 } } };
}
static const std::vector<Factory> &factories()
{
  static const std::vector<Factory> f = {
    { "makeBattery", [](bool cap, bool R, bool deg, bool con, int cool, bool bal, double) { return makeBattery(bal, cap, R, deg, con, cool); },
      [](bool con, double) { return Spec{ { { false, 9, con ? 2e-4 : 0, 2 }, { true, 15, con ? 1e-4 : 0, 2 }, { true, 20, con ? 1e-4 : 0, 0 } } }; }, {}, true },
    { "makeBattery2", [](bool cap, bool R, bool deg, bool con, int cool, bool bal, double) { return makeBattery2(bal, cap, R, deg, con, cool); },
      [](bool con, double) { return Spec{ { { true, 20, con ? 1e-4 : 0, 2 }, { true, 15, con ? 1e-4 : 0, 2 }, { false, 9, con ? 2e-4 : 0, 0 } } }; }, {}, true },
    { "makeBattery_EPFL", [](bool cap, bool R, bool deg, bool con, int cool, bool, double RM) { return makeBattery_EPFL(cap, R, deg, con, cool, "_add", RM); },
      [](bool con, double RM) { return epfl(con, RM, 9, 15, 20, 7); }, {}, true },
    { "makeBattery_EPFL_smaller", [](bool cap, bool R, bool deg, bool con, int cool, bool, double RM) { return makeBattery_EPFL_smaller(cap, R, deg, con, cool, "_add", RM); },
      [](bool con, double RM) { return epfl(con, RM, 2, 3, 3, 7); }, {}, false },
    { "makeBattery_Test", [](bool cap, bool R, bool deg, bool con, int cool, bool, double RM) { return makeBattery_Test(cap, R, deg, con, cool, "_add", RM); },
      [](bool con, double RM) { return epfl(con, RM, 3, 2, 4, 3); }, {}, false },
    { "makeBattery_TestParallel", [](bool cap, bool R, bool deg, bool con, int cool, bool, double RM) { return makeBattery_TestParallel(cap, R, deg, con, cool, "_add", RM); },
      [](bool con, double RM) { return Spec{ { { false, 3, con ? 0.0075e-3 * RM : 0, 2 } } }; }, {}, false },
  };
  return f;
}

// resistance and capacity of a pack from those of its cells
struct Agg
{
  double R, Cap, Vmax, ocv;
};
static Agg aggregate(const Spec &s, const std::vector<Cell_SPM *> &cells, size_t &at, size_t l)
{
  if (l == s.lv.size()) {
    auto *q = cells[at++];
    return { q->getRtot(), q->Cap(), q->Vmax(), q->getOCV() };
  }
  std::vector<Agg> a;
  for (size_t k = 0; k < s.lv[l].n; k++) a.push_back(aggregate(s, cells, at, l + 1));
  Agg r{ 0, 0, 0, 0 };
  if (s.lv[l].series) {
    r.Cap = 1e300;
    for (auto &x : a) r.R += x.R + s.lv[l].Rc, r.Cap = std::min(r.Cap, x.Cap), r.Vmax += x.Vmax, r.ocv += x.ocv;
  } else { // ladder: the contact resistance between branches carries the current of all branches behind it
    r.R = a.back().R + s.lv[l].Rc;
    for (size_t k = a.size() - 1; k-- > 0;) r.R = s.lv[l].Rc + 1 / (1 / r.R + 1 / a[k].R);
    r.Vmax = 1e300;
    for (auto &x : a) r.Cap += x.Cap, r.Vmax = std::min(r.Vmax, x.Vmax), r.ocv += x.ocv / a.size();
  }
  return r;
}

struct Flags
{
  bool cap, R, deg, con, bal;
  int cool;
  double RM;
};
static void checkFactory(Case &c, const Factory &f, const Flags &g, bool use)
{
  c.desc << f.name << " capacity spread " << g.cap << " resistance spread " << g.R << " degradation spread " << g.deg << " contact resistances " << g.con << " cooling control " << g.cool << " multiplier " << num(g.RM);
  Deep_ptr<StorageUnit> u;
  {
    Hush h;
    u = f.make(g.cap, g.R, g.deg, g.con, g.cool, g.bal, g.RM);
  }
  const Spec s = f.spec(g.con, g.RM);
  auto *bat = dynamic_cast<Battery *>(u.get());
  if (!bat) return c.fail("P27.battery", "the factory did not make a battery");
  auto *m = bat->getCells();
  Walk w{ c, s, {}, {}, g.cool };
  w.unit(m, bat, 0);
  if (w.cells.size() != s.ncells()) return;
  c.check(bat->getNcells() == s.ncells(), "P27.structure", "battery reports " + std::to_string(bat->getNcells()) + " cells");
  // variations
  std::array<double, 4> sum{}, sq{};
  std::set<double> seen[4];
  for (auto *q : w.cells) {
    const auto v = q->getVariations();
    for (int k = 0; k < 4; k++) sum[k] += v[k], sq[k] += (v[k] - 1) * (v[k] - 1), seen[k].insert(v[k]);
  }
  const double n = (double)w.cells.size();
  const bool on[4] = { g.cap, g.R, g.deg, g.deg };
  const double sd[4] = { 0.004, 0.025, 0.10, 0.10 };
  static const char *what[4] = { "capacity", "resistance", "degradation", "loss of active material" };
  for (int k = 0; k < 4; k++) {
    const std::string nm = what[k];
    if (!on[k]) {
      c.check(seen[k].size() == 1 && *seen[k].begin() == 1, "P27.no-spread", nm + " varies although no spread was asked for");
      continue;
    }
    c.check(seen[k].size() == w.cells.size(), "P27.spread-distinct", "only " + std::to_string(seen[k].size()) + " different " + nm + " factors in " + std::to_string(w.cells.size()) + " cells");
    // fixed seeds, so no chance of a false alarm: generous bounds on mean and standard deviation of a normal sample
    c.check(std::fabs(sum[k] / n - 1) < 5 * sd[k] / std::sqrt(n), "P27.spread-mean", "mean " + nm + " factor " + num(sum[k] / n));
    if (n > 50) c.check(near(std::sqrt(sq[k] / n), sd[k], 5 / std::sqrt(2 * n), 0), "P27.spread-sd", "standard deviation of the " + nm + " factors " + num(std::sqrt(sq[k] / n)) + " instead of " + num(sd[k]));
    else
      for (double x : seen[k]) c.check(std::fabs(x - 1) < 5 * sd[k], "P27.spread-sd", nm + " factor " + num(x));
  }
  size_t at = 0;
  const auto a = aggregate(s, w.cells, at, 0);
  c.check(near(bat->Cap(), a.Cap, 1e-9, 0), "P27.pack-capacity", "capacity " + num(bat->Cap()) + ", from its cells " + num(a.Cap));
  c.check(near(bat->getRtot(), a.R, 1e-9, 0), "P27.pack-resistance", "resistance " + num(bat->getRtot()) + ", from its cells and contacts " + num(a.R));
  c.check(near(bat->V(), a.ocv, 1e-9, 0), "P27.pack-voltage", "voltage at rest " + num(bat->V()) + ", from its cells " + num(a.ocv));
  c.check(bat->I() == 0, "P27.pack-current", "a fresh pack carries " + num(bat->I()) + " A");
  c.check(bat->validStates(false), "P27.pack-valid", "a fresh pack has invalid states");
  c.nontrivial();
  // the same request gives the same pack
  if (!f.big) {
    Deep_ptr<StorageUnit> v;
    {
      Hush h;
      v = f.make(g.cap, g.R, g.deg, g.con, g.cool, g.bal, g.RM);
    }
    c.check(same(states(*u), states(*v)), "P27.repeatable", "a second pack of the same specification differs: " + diff(states(*u), states(*v)));
  }
  if (!use) return;
  // ready for use
  const double C = c.pick({ -0.3, 0.3, 0.5, -0.5 }), I = C * a.Cap;
  const double soc0 = w.cells[0]->SOC();
  const auto st = bat->setCurrent(I, true, false);
  c.check(isStatusOK(st), "P27.use-current", std::string("setting a C-rate of ") + num(C) + " -> " + sname(st));
  if (!isStatusOK(st)) return;
  c.check(near(bat->I(), I, 1e-6, 0), "P27.use-current", "current " + num(bat->I()) + " instead of " + num(I));
  size_t npar = 1;
  for (auto &l : s.lv)
    if (!l.series) npar *= l.n;
  double sumI = 0;
  for (auto *q : w.cells) sumI += q->I();
  c.check(near(sumI, I * (double)(s.ncells() / npar), 1e-4, 0), "P27.use-split", "cell currents add up to " + num(sumI) + " instead of " + num(I * (double)(s.ncells() / npar)));
  const double dt = 2;
  const int steps = f.big ? 1 : (int)c.i(1, 5);
  bat->timeStep_CC(dt, steps);
  c.check(bat->validStates(false), "P27.use-valid", "invalid states after a step");
  for (auto *q : w.cells) c.check((q->SOC() < soc0) == (I > 0) && q->SOC() != soc0, "P27.use-step", q->getFullID() + " did not take part: current " + num(q->I()) + ", state of charge " + num(q->SOC()));
  if (!g.con && !g.cap && !g.R) {
    // all cells alike: each carries the same share
    for (auto *q : w.cells) c.check(near(q->I(), I / (double)npar, 1e-3, 0), "P27.use-equal", q->getFullID() + " carries " + num(q->I()) + " instead of " + num(I / (double)npar));
  }
}
static Flags genFlags(Case &c)
{
  Flags g;
  g.cap = c.b(), g.R = c.b(), g.deg = c.b(), g.con = c.b(), g.bal = c.b();
  g.cool = (int)c.i(1, 5);
  g.RM = c.pick({ 1.0, c.r(0.2, 3), 0.5, 2.0 });
  return g;
}

PBT_SUB("P27.factory", 400, 12000, "the small prefabricated packs with random spreads, contact resistances and cooling control: arrangement, identities, parents, factors, totals, and use under current; every case non-trivial")
{
  const auto &f = factories()[(size_t)c.i(3, 5)];
  checkFactory(c, f, genFlags(c), true);
}

PBT_SUB_SLOW("P27.factory-big", 24, 480, "the full-size prefabricated packs of thousands of cells: arrangement, identities, parents, factors and totals; every case non-trivial")
{
  const auto &f = factories()[(size_t)c.i(0, 2)];
  checkFactory(c, f, genFlags(c), true);
}

int main(int a, char **b) { return pbt::pbtMain(a, b); }
