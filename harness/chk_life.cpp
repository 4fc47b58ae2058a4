// Histories of public operations on cells, packs and batteries: bookkeeping (P03), set-points of cells (P04), saving and
// restoring (P08), copies (P09), reads (P10), threads (P11) and blocked ageing (P12).
#include "life.hpp"
#include <atomic>
using namespace vt;

static bool isStep(const Op &o) { return o.kind == 1 || o.kind == 7; }
static double chargeMoved(const Op &, double) { return 0; }

// ------------------------------------------------------------------------------------------------------------------ P03
struct LeafBook
{
  double time, Ah, Wh, SOC, I, lo, hi;
};
static LeafBook bookOf(Node *l)
{
  auto *cell = dynamic_cast<Cell *>(l->su);
  auto t = cell->getThroughputs();
  return { t.time(), t.Ah(), t.Wh(), cell->SOC(), cell->I(), 0, 0 };
}
PBT_SUB("P03.book", 45000, 1000000, "random cells, packs and batteries with random operations in between: every time step must book exactly |I|dt, I dt and I V dt in every cell; non-trivial: a positive-length step with non-zero current in at least one cell")
{
  UnitOpt o;
  o.pack.rdeg = c.b(1, 2);
  o.pack.maxDepth = 3, o.pack.maxChildren = 4;
  Unit u = genUnit(c, o);
  c.desc << u.show() << "\n";
  if (c.b(1, 3)) u->setBlockDegAndTherm(true);
  auto ls = u.leaves();
  bool nt = false;
  for (int k = 0, n = (int)c.i(1, c.thorough ? 25 : 12); k < n; k++) {
    c.step();
    Op op = genOp(c, u);
    if (op.kind == 7) u->setCurrent(0, false, false), op.kind = 1;
    c.desc << " " << op.show();
    if (op.kind != 1) {
      std::vector<LeafBook> b;
      for (auto *l : ls) b.push_back(bookOf(l));
      apply(u, op);
      for (size_t i = 0; i < ls.size(); i++) {
        const auto a = bookOf(ls[i]);
        c.check(a.time == b[i].time && a.Ah == b[i].Ah && a.Wh == b[i].Wh, "P03.set-point-moved", "an operation that is not a time step changed time or throughput of cell " + std::to_string(i));
        if (op.kind != 5) c.check(a.SOC == b[i].SOC, "P03.set-point-SOC", "an operation that is neither a time step nor setSOC changed the SOC of cell " + std::to_string(i));
      }
      continue;
    }
    std::vector<LeafBook> b;
    std::vector<std::unique_ptr<StorageUnit>> cp;
    for (auto *l : ls) b.push_back(bookOf(l)), cp.emplace_back(l->su->copy());
    bool dead = false;
    for (size_t i = 0; i < ls.size() && !dead; i++) { // the voltages a cell goes through
      try {
        for (int q = 0; q <= op.n; q++) {
          const double v = std::fabs(cp[i]->V());
          if (v == 0) dead = true; // no valid voltage: energy undefined
          if (q == 0) b[i].lo = b[i].hi = v;
          b[i].lo = std::min(b[i].lo, v), b[i].hi = std::max(b[i].hi, v);
          if (q < op.n) cp[i]->timeStep_CC(op.x, 1);
        }
      } catch (int) {
        dead = true;
      }
    }
    if (dead) break;
    const double r = apply(u, op);
    if (threw(r) && (int)r != -7000000 - 100000) {
      c.label("step threw");
      break;
    }
    for (size_t i = 0; i < ls.size(); i++) {
      const auto a = bookOf(ls[i]);
      const double t = op.x * op.n, cap = ls[i]->su->Cap(), q = std::fabs(b[i].I) * t / 3600;
      auto bad = [&](const char *w, double got, double want) { c.fail(std::string("P03.") + w, std::string(w) + " of cell " + std::to_string(i) + " (" + u.show() + ") after timeStep_CC(" + num(op.x) + "," + std::to_string(op.n) + ") at I=" + num(b[i].I) + ": " + num(got) + ", expected " + num(want)); };
      if (!near(a.time, b[i].time + t, 1e-12, 1e-9)) bad("time", a.time, b[i].time + t);
      if (!near(a.Ah, b[i].Ah + q, 1e-10, 1e-13 * cap)) bad("Ah", a.Ah, b[i].Ah + q);
      if (!near(a.SOC, b[i].SOC - b[i].I * t / 3600 / cap, 1e-10, 1e-13)) bad("SOC", a.SOC, b[i].SOC - b[i].I * t / 3600 / cap);
      const double e = a.Wh - b[i].Wh, tol = 1e-9 * (a.Wh + 1e-3) + 3e-3 * q * b[i].hi; // ageing within the call shifts the voltage slightly
      if (e < q * b[i].lo - tol || e > q * b[i].hi + tol) bad("Wh", e, q * 0.5 * (b[i].lo + b[i].hi));
      nt |= q > 0;
    }
    if (threw(r)) {
      c.label("balancing failed after a step");
      break;
    }
  }
  c.nontrivial(nt);
  c.label(u.bat ? "battery" : u.cell() ? "cell" : u.parallel() ? "parallel pack" : "series pack");
}

PBT_SUB("P03.split", 30000, 600000, "the same constant-current history in one call and cut into random calls (same steps), and with finer steps: same books; non-trivial: non-zero current, at least two pieces")
{
  UnitOpt o;
  const bool deg = c.b(1, 3);
  o.pack.rdeg = deg;
  o.pack.stressModels = false;
  o.pack.nestedParallel = false, o.pack.forceTop = 0;
  const size_t m0 = c.mark();
  Unit u = genUnit(c, o), w = c.again(m0, [&] { return genUnit(c, o); }), x = c.again(m0, [&] { return genUnit(c, o); });
  if (!deg && c.b(1, 2)) u->setBlockDegAndTherm(true), w->setBlockDegAndTherm(true), x->setBlockDegAndTherm(true);
  c.desc << u.show() << (deg ? " with ageing" : "") << "\n";
  bool nt = false;
  for (int k = 0, m = (int)c.i(1, 6); k < m; k++) {
    c.step();
    const double I = c.b(1, 6) ? 0 : u->Cap() * c.r(-1.5, 1.5), dt = c.pick({ 1.0, 0.5, 2.0, 4.0 });
    const int n = (int)c.i(1, 24), f = (int)c.pick({ 2, 4, 8 });
    u->setCurrent(I, false, false), w->setCurrent(I, false, false), x->setCurrent(I, false, false);
    c.desc << " I=" << num(I) << " dt=" << dt << " n=" << n << " cuts";
    int e = caughtInt([&] { u->timeStep_CC(dt, n); }), e2 = -1, e3;
    int left = n, pieces = 0;
    while (left > 0 && e2 == -1) {
      const int q = (int)c.i(1, left);
      c.desc << " " << q;
      e2 = caughtInt([&] { w->timeStep_CC(dt, q); });
      left -= q, pieces++;
    }
    e3 = caughtInt([&] { x->timeStep_CC(dt / f, n * f); });
    if (e != -1 || e2 != -1 || e3 != -1) {
      c.label("step threw");
      return;
    }
    auto lu = u.leaves(), lw = w.leaves(), lx = x.leaves();
    for (size_t i = 0; i < lu.size(); i++) {
      const auto a = bookOf(lu[i]), b = bookOf(lw[i]), d = bookOf(lx[i]);
      auto cmp = [&](const char *w_, double p, double q, const char *how) {
        if (!near(p, q, 1e-9, 1e-12)) c.fail(std::string("P03.split-") + w_, std::string(w_) + " of cell " + std::to_string(i) + " depends on how the history is cut into " + how + ": " + num(p) + " vs " + num(q));
      };
      cmp("time", a.time, b.time, "calls"), cmp("Ah", a.Ah, b.Ah, "calls"), cmp("SOC", a.SOC, b.SOC, "calls");
      cmp("time", a.time, d.time, "steps"), cmp("Ah", a.Ah, d.Ah, "steps"), cmp("SOC", a.SOC, d.SOC, "steps");
      if (!deg) cmp("Wh", a.Wh, b.Wh, "calls");
    }
    if (!deg) {
      auto a = states(*u.top), b = states(*w.top);
      if (a.size() != b.size()) c.fail("P03.split-size", "different number of states");
      for (auto *L : { &u, &w }) (void)(*L)->V();
      a = states(*u.top), b = states(*w.top);
      for (size_t i = 0; i < a.size(); i++)
        if (!near(a[i], b[i], 1e-9, 1e-12)) c.fail("P03.split-state", "state " + std::to_string(i) + " of " + u.show() + " depends on how the history is cut into calls: " + num(a[i]) + " vs " + num(b[i]));
    }
    nt |= I != 0 && pieces > 1;
  }
  c.nontrivial(nt);
}

PBT_SUB("P03.zero", 40000, 600000, "rests and zero-length steps add no charge or energy, zero-length steps change no state at all; non-trivial: a non-zero current flows while the zero-length step is taken, or a rest of positive length")
{
  UnitOpt o;
  o.pack.rdeg = c.b(1, 2);
  Unit u = genUnit(c, o);
  c.desc << u.show() << "\n";
  auto ls = u.leaves();
  bool nt = false;
  for (int k = 0, m = (int)c.i(1, 6); k < m; k++) {
    c.step();
    Op op = genOp(c, u);
    c.desc << " " << op.show();
    if (threw(apply(u, op))) return;
    const bool rest = c.b(1, 2);
    if (rest)
      for (auto *l : ls) l->su->setCurrent(0, false, false);
    const double dt = rest ? c.pick({ 1.0, 5.0, 60.0 }) : 0.0;
    const int n = rest ? (int)c.i(1, 5) : (int)c.i(0, 5);
    c.desc << (rest ? " rest" : " zero step") << "(" << dt << "," << n << ")";
    std::vector<LeafBook> b;
    for (auto *l : ls) b.push_back(bookOf(l));
    auto refresh = [&] {
      for (auto *l : ls) (void)l->su->V(); // the stored voltage of single-particle cells is derived: bring it up to date
    };
    refresh();
    auto s0 = states(*u.top);
    // within a parallel group the balancing after the call may shift currents; use the cells' own steps for that case
    try {
      if (u.parallel())
        for (auto *l : ls) l->su->timeStep_CC(dt, n);
      else
        u->timeStep_CC(dt, n);
    } catch (int e) {
      c.label("step threw");
      return;
    }
    for (size_t i = 0; i < ls.size(); i++) {
      const auto a = bookOf(ls[i]);
      c.check(near(a.time, b[i].time + dt * n, 1e-12, 1e-9), "P03.rest-time", "resting time not booked in cell " + std::to_string(i));
      c.check(a.Ah == b[i].Ah && a.Wh == b[i].Wh, "P03.rest-throughput", "resting or a zero-length step added throughput in cell " + std::to_string(i) + ": Ah " + num(b[i].Ah) + " -> " + num(a.Ah) + ", Wh " + num(b[i].Wh) + " -> " + num(a.Wh));
      c.check(a.SOC == b[i].SOC, "P03.rest-SOC", "resting or a zero-length step changed the SOC of cell " + std::to_string(i));
      nt |= rest || b[i].I != 0;
    }
    if (!rest) {
      refresh();
      auto s1 = states(*u.top);
      c.check(same(s0, s1), "P03.zero-state", "a zero-length step changed the states: " + diff(s0, s1));
    }
  }
  c.nontrivial(nt);
}

PBT_SUB("P03.lithium", 20000, 300000, "single-particle cells, ageing off: lithium leaving one electrode equals the charge and what arrives in the other; equal charge back returns the averages; non-trivial: non-zero current")
{
  SpmPar p = genSpmPar(c);
  p.deg = genDeg(c);
  RefSPM r(p);
  auto cell = makeSPM(p);
  cell->setBlockDegAndTherm(true);
  SpmGen g;
  g.lo = 0.2, g.hi = 0.8;
  SV s = genSpmState(c, r, g);
  install(*cell, s);
  c.desc << "cap " << num6(p.cap) << " models " << p.deg.print() << " (blocked)\n";
  const double n0 = r.moles(s, true), p0 = r.moles(s, false);
  double charge = 0;
  std::vector<std::pair<double, int>> seg;
  const double dt = c.pick({ 1.0, 0.5, 2.0 });
  if (!r.stable(s, dt)) c.discard();
  for (int k = 0, m = (int)c.i(1, 6); k < m; k++) {
    c.step();
    const double I = c.b(1, 6) ? 0 : p.cap * c.r(-2, 2);
    const int n = (int)c.pick({ 1, 5, 20, 60 });
    SV t = states(*cell);
    t[ix::I] = I;
    for (int q = 0; q < n; q++) r.diffuse(t, dt);
    if (!r.inside(t) || r.nearEdge(t, 0.01)) break;
    cell->setCurrent(I, false, false);
    cell->timeStep_CC(dt, n);
    seg.push_back({ I, n });
    charge += I * dt * n;
    c.desc << " I=" << num(I) << " x " << dt << "s x " << n;
    SV a = states(*cell);
    const double scale = p0 + n0;
    if (!near(r.moles(a, true), n0 - charge / F_, 0, 1e-9 * scale)) c.fail("P03.lithium-n", "lithium in the negative electrode: " + num(r.moles(a, true)) + " mol, charge balance " + num(n0 - charge / F_));
    if (!near(r.moles(a, false), p0 + charge / F_, 0, 1e-9 * scale)) c.fail("P03.lithium-p", "lithium in the positive electrode: " + num(r.moles(a, false)) + " mol, charge balance " + num(p0 + charge / F_));
    // and as seen by a user: after a long rest every concentration equals that average
  }
  if (seg.empty()) c.discard();
  bool back = true;
  for (size_t k = seg.size(); k-- > 0 && back;) { // undo the charge
    SV t = states(*cell);
    t[ix::I] = -seg[k].first;
    for (int q = 0; q < seg[k].second; q++) r.diffuse(t, dt);
    if (!r.inside(t) || r.nearEdge(t, 0.01)) back = false;
    if (!back) break;
    cell->setCurrent(-seg[k].first, false, false);
    cell->timeStep_CC(dt, seg[k].second);
  }
  if (back) {
    SV a = states(*cell);
    c.check(near(r.meanLi(a, true), r.meanLi(s, true), 1e-9, 0) && near(r.meanLi(a, false), r.meanLi(s, false), 1e-9, 0), "P03.return", "an equal charge and discharge did not return the average concentrations");
    c.check(near(a[ix::SOC], s[ix::SOC], 1e-9, 1e-12), "P03.return-SOC", "an equal charge and discharge did not return the SOC: " + num(s[ix::SOC]) + " -> " + num(a[ix::SOC]));
    if (c.b(1, 4)) { // rest until uniform: the concentrations reported by the cell are the averages
      cell->setCurrent(0, false, false);
      const double slow = std::min(std::fabs(r.d.Ap[4] * r.Dpt(a)), std::fabs(r.d.An[4] * r.Dnt(a)));
      (void)slow;
      cell->timeStep_CC(dt, (int)std::min(40000.0, 20000.0 / dt));
      double cp[8], cn[8];
      std::span<double> sp(cp, 7), sn(cn, 7);
      cell->getC(cp, cn);
      for (int i = 0; i < 7; i++)
        c.check(near(cp[i], r.meanLi(s, false), 1e-4, 0) && near(cn[i], r.meanLi(s, true), 1e-4, 0), "P03.relaxed", "after a long rest the concentration at node " + std::to_string(i) + " is not the average: " + num(cp[i]) + "/" + num(cn[i]) + " vs " + num(r.meanLi(s, false)) + "/" + num(r.meanLi(s, true)));
      c.label("relaxed");
    }
  }
  c.nontrivial(charge != 0);
}

// ------------------------------------------------------------------------------------------------------------------ P04
static Unit genCellUnit(Case &c, bool wide)
{
  UnitOpt o;
  o.wPack = 0, o.bat = false;
  o.pack.socLo = wide ? 0.02 : 0.2, o.pack.socHi = wide ? 0.98 : 0.8;
  o.pack.gentle = c.b(1, 2);
  return genUnit(c, o);
}
static std::string shown(Unit &u)
{
  return u.show() + " SOC=" + num6(dynamic_cast<Cell *>(u.top.get())->SOC()) + " V=" + num6(u->V()) + " T=" + num6(u->T()) + " cap=" + num6(u->Cap());
}
static void skew(Case &c, Unit &u) // some history before the set-point
{
  for (int k = 0, n = (int)c.i(0, 4); k < n; k++) {
    Op op = genOp(c, u);
    if (op.kind == 6 || op.kind == 8) continue;
    c.desc << " " << op.show();
    if (threw(apply(u, op))) c.discard();
  }
}
PBT_SUB("P04.current", 1500000, 12000000, "one current set-point on a random cell after a short history, aimed at ordinary values and around every limit: status by the voltage the cell would have, all-or-nothing; non-trivial: the check decided (warning, failure) or non-zero current accepted")
{
  const size_t m0 = c.mark();
  auto build = [&] {
    Unit u = genCellUnit(c, true);
    skew(c, u);
    return u;
  };
  Unit u = build();
  std::string d0 = c.desc.str();
  Unit t = c.again(m0, build);
  c.desc.str(""), c.desc << shown(u) << " history" << d0 << "\n";
  const double cap = u->Cap(), R = std::max(1e-5, u->getRtot());
  const double ocv = u->V() + R * u->I();
  if (u->V() <= 0) c.discard();
  double I;
  switch (c.i(0, 2)) {
  case 0: I = cap * c.r(-5, 5); break;
  case 1: I = (ocv - (c.pick({ 2.0, 2.69, 2.7, 4.2, 4.21, 4.3 }) + c.r(-0.02, 0.02))) / R; break;
  default: I = c.b(1, 2) ? 0.0 : cap * c.r(-60, 60);
  }
  const bool chk = !c.b(1, 5);
  t->setCurrent(I, false, false);
  c.check(t->I() == I, "P04.unchecked", "an unchecked set-point was not applied: asked " + num(I) + ", got " + num(t->I()));
  const double v = t->V();
  const auto cl = classify(v, I);
  const auto before = obs(*u.top);
  const auto st = u->setCurrent(I, chk, false);
  c.desc << "setCurrent(" << num(I) << "," << chk << ") -> " << sname(st) << ", voltage would be " << num(v) << "\n";
  if (!chk) {
    c.check(u->I() == I, "P04.unchecked", "an unchecked set-point was not applied");
    c.nontrivial(I != 0);
    return;
  }
  if (!cl.ambiguous) c.check(st == cl.st, "P04.status", std::string("setCurrent(") + num(I) + ") leading to V=" + num(v) + " returned " + sname(st) + ", expected " + sname(cl.st));
  if (isStatusBad(st)) {
    const auto d = diff(before, obs(*u.top));
    c.check(d.empty(), "P04.failure-changed", std::string("a refused set-point (") + sname(st) + ") changed the cell: " + d);
  } else {
    c.check(u->I() == I, "P04.value", "the accepted set-point is not exactly in place: asked " + num(I) + ", got " + num(u->I()));
    const auto d = diff(obs(*t.top), obs(*u.top));
    c.check(d.empty(), "P04.success-state", "checked and unchecked set-points give different cells: " + d);
  }
  c.nontrivial(st != Status::Success || I != 0);
  c.label(sname(st));
}

PBT_SUB("P04.soc", 1000000, 8000000, "one SOC set-point on a random cell after a short history, inside and outside 0..1, with and without voltage check; non-trivial: refused, warned or a different SOC accepted")
{
  const size_t m0 = c.mark();
  auto build = [&] {
    Unit u = genCellUnit(c, true);
    skew(c, u);
    return u;
  };
  Unit u = build();
  std::string d0 = c.desc.str();
  Unit t = c.again(m0, build);
  c.desc.str(""), c.desc << shown(u) << " history" << d0 << "\n";
  const double s = c.b(1, 3) ? c.pick({ -0.001, 1.001, -5.0, 1.5, 1.0000001, -1e-9, (double)NAN }) : c.b(1, 3) ? c.pick({ 0.0, 1.0, 0.001, 0.999 }) : c.r(0, 1);
  const bool chk = c.b(1, 2);
  const auto before = obs(*u.top);
  const double I = u->I();
  auto *cell = dynamic_cast<Cell *>(u.top.get()), *twin = dynamic_cast<Cell *>(t.top.get());
  const auto st = cell->setSOC(s, chk, false);
  c.desc << "setSOC(" << num(s) << "," << chk << ") -> " << sname(st) << "\n";
  if (!(s >= 0 && s <= 1)) {
    c.check(st == Status::SOC_limits_violation, "P04.soc-range", std::string("SOC ") + num(s) + " was answered with " + sname(st));
    const auto d = diff(before, obs(*u.top));
    c.check(d.empty(), "P04.soc-refused-changed", "a refused SOC changed the cell: " + d);
    c.nontrivial();
    return;
  }
  twin->setSOC(s, false, false);
  c.check(twin->SOC() == s, "P04.soc-unchecked", "an unchecked SOC was not applied");
  const double v = t->V();
  const auto cl = classify(v, I);
  if (chk && !cl.ambiguous && v > 0) c.check(st == cl.st, "P04.soc-status", std::string("setSOC(") + num(s) + ") leading to V=" + num(v) + " at I=" + num(I) + " returned " + sname(st) + ", expected " + sname(cl.st));
  if (!chk) c.check(isStatusOK(st), "P04.soc-unchecked-status", std::string("an unchecked SOC inside 0..1 was answered with ") + sname(st));
  if (isStatusBad(st)) {
    const auto d = diff(before, obs(*u.top));
    c.check(d.empty(), "P04.soc-failure-changed", std::string("a refused SOC (") + sname(st) + ") changed the cell: " + d);
  } else {
    c.check(cell->SOC() == s, "P04.soc-value", "the accepted SOC is not exactly in place");
    const auto d = diff(obs(*t.top), obs(*u.top));
    c.check(d.empty(), "P04.soc-state", "checked and unchecked SOC give different cells: " + d);
  }
  c.nontrivial();
  c.label(sname(st));
}

static size_t socIndex(Unit &u) { return u.node->spm ? ix::SOC : 1; }
static size_t tIndex(Unit &u) { return u.node->spm ? ix::T : 0; }
static size_t iIndex(Unit &u) { return u.node->spm ? ix::I : 2; }
PBT_SUB("P04.states", 1500000, 8000000, "state vectors taken from another cell of the same kind, unchanged or with SOC/temperature (all cells) or physical quantities (single-particle) made invalid, or with a voltage beyond a limit: refused without effect, or in place exactly; non-trivial: all cases")
{
  Unit u = genCellUnit(c, true);
  // source of the vector: the same cell type and parameters (a copy) with another history
  Unit src;
  src.node = cloneTree(*u.node, u.top.get());
  src.rebind(Deep_ptr<StorageUnit>(u.top->copy()));
  skew(c, src);
  skew(c, u);
  if (src->V() <= 0 || u->V() <= 0) c.discard();
  auto s = states(*src.top);
  const int what = c.weighted({ 3, 3, 3, 3, 2 });
  bool invalid = false;
  c.desc << " | " << shown(u) << "\n";
  if (what == 1) {
    s[socIndex(u)] = c.pick({ -0.001, 1.001, -3.0, 2.0, 1.0000001, -1e-9, (double)NAN });
    invalid = true;
    c.desc << "SOC entry " << num(s[socIndex(u)]);
  }
  if (what == 2) {
    s[tIndex(u)] = c.pick({ TminK - 0.001, TmaxK + 0.001, 0.0, -5.0, 1000.0, TminK - 50, TmaxK + 20, (double)NAN });
    invalid = true;
    c.desc << "T entry " << num(s[tIndex(u)]);
  }
  if (what == 3) { // large current: voltage beyond the limits
    const double R = std::max(1e-5, src->getRtot());
    s[iIndex(u)] = c.b(1, 2) ? src->Cap() * c.r(-30, 30) : ((src->V() + R * src->I()) - (c.pick({ 2.0, 2.69, 4.21, 4.3 }) + c.r(-0.05, 0.05))) / R;
    c.desc << "I entry " << num(s[iIndex(u)]);
    std::unique_ptr<StorageUnit> k(src->copy());
    k->setCurrent(s[iIndex(u)], false, false);
    invalid = !k->validStates(false); // surface concentrations depend on the current
  }
  if (what == 4 && u.node->spm) {
    const size_t bad[] = { ix::delta, ix::LLI, ix::thickp, ix::thickn, ix::ep, ix::en, ix::ap, ix::an, ix::Dp, ix::Dn, ix::CS, ix::rDCp, ix::rDCn, ix::rDCcc, ix::dpl };
    const size_t at = bad[c.draw(std::size(bad) - 1)];
    s[at] = c.b(1, 4) ? NAN : -std::max(std::fabs(s[at]), 1e-12);
    invalid = true;
    c.desc << ixName(at) << " entry " << num(s[at]);
  }
  invalid |= !(s[socIndex(u)] >= 0 && s[socIndex(u)] <= 1); // the source can have been stepped to just beyond full or empty
  const bool chk = c.b(1, 2);
  auto s2 = s;
  std::span<double> sp{ s2 };
  const auto before = obs(*u.top);
  Status st{};
  const int e = caughtInt([&] { st = u->setStates(sp, chk, false); });
  c.desc << " setStates(check=" << chk << ") -> " << (e == -1 ? sname(st) : "exception") << "\n";
  c.check(e == -1, "P04.states-exception", "setStates threw " + std::to_string(e));
  if (invalid) {
    c.check(isStatusBad(st), "P04.states-invalid", std::string("an invalid state vector was answered with ") + sname(st));
    const auto d = diff(before, obs(*u.top));
    c.check(d.empty(), "P04.states-refused-changed", "a refused state vector changed the cell: " + d);
  } else if (isStatusBad(st)) {
    const auto d = diff(before, obs(*u.top));
    c.check(d.empty(), "P04.states-refused-changed", "a refused state vector changed the cell: " + d);
    // only a voltage beyond the safety limits (or an invalid resistance) may be refused
    if (what != 4) {
      c.check(chk, "P04.states-unchecked-refused", std::string("an admissible state vector was refused without voltage check: ") + sname(st));
      auto s3 = s;
      std::span<double> sp3{ s3 };
      Unit tw;
      std::unique_ptr<StorageUnit> k(u->copy());
      k->setStates(sp3, false, false);
      const auto cl = classify(k->V(), k->I());
      if (!cl.ambiguous) c.check(cl.st == st, "P04.states-status", std::string("state vector with V=") + num(k->V()) + " at I=" + num(k->I()) + " was answered with " + sname(st) + ", expected " + sname(cl.st));
    }
  } else {
    auto now = states(*u.top);
    if (u.node->spm) now[ix::V] = s[ix::V];
    c.check(same(now, s), "P04.states-value", "an accepted state vector is not in place: " + diff(s, now));
    if (chk) {
      const auto cl = classify(u->V(), u->I());
      if (!cl.ambiguous && u->V() > 0) c.check(cl.st == st, "P04.states-status", std::string("state vector with V=") + num(u->V()) + " at I=" + num(u->I()) + " was answered with " + sname(st) + ", expected " + sname(cl.st));
    }
  }
  c.nontrivial();
  c.label(isStatusBad(st) ? "refused" : isStatusWarning(st) ? "warned" : "accepted");
}

PBT_SUB("P04.voltage", 1500000, 8000000, "voltage set-points on single cells from far below to far above the limits: the status follows the limits, failure changes nothing, success leaves exactly one current with that voltage; non-trivial: all cases")
{
  Unit u = genCellUnit(c, false);
  skew(c, u);
  if (u->V() <= 0) c.discard();
  c.desc << " | " << shown(u) << "\n";
  const double V = c.weighted({ 3, 2, 1 }) == 0 ? c.r(2.3, 4.29) : c.b(1, 2) ? c.pick({ 2.0, 2.69, 2.7, 4.2, 4.21, 4.3 }) + c.r(-0.02, 0.02) : c.r(0.5, 7);
  const auto before = obs(*u.top);
  auto ths = states(*u.top);
  Status st{};
  const int e = caughtInt([&] { st = u->setVoltage(V, true, false); });
  c.desc << "setVoltage(" << num(V) << ") -> " << (e == -1 ? sname(st) : "exception") << "\n";
  c.check(e == -1, "P04.voltage-exception", "setVoltage threw " + std::to_string(e));
  if (isStatusBad(st)) {
    const auto d = diff(before, obs(*u.top));
    c.check(d.empty(), "P04.voltage-failure-changed", std::string("a refused voltage set-point (") + sname(st) + ") changed the cell: " + d);
  } else {
    auto now = states(*u.top);
    ths[iIndex(u)] = now[iIndex(u)];
    if (u.node->spm) ths[ix::V] = now[ix::V];
    c.check(same(ths, now), "P04.voltage-touched", "a voltage set-point changed more than the current: " + diff(ths, now));
    c.check(near(u->V(), V, 0, u.node->spm ? 1e-4 : 1e-9 * (1 + std::fabs(u->I() * u->getRtot()))), "P04.voltage-value", "after a successful set-point to " + num(V) + " the voltage is " + num(u->V()));
    const auto cl = classify(V, u->I(), VminN, VmaxN, VminS, VmaxS, 1e-3);
    if (!cl.ambiguous) c.check(!isStatusBad(cl.st), "P04.voltage-limits", "a voltage beyond the safety limits was accepted: " + num(V) + " at I=" + num(u->I()));
  }
  if (!u.node->spm) { // direct solution: the status is the classification of the target
    std::unique_ptr<StorageUnit> k(u->copy());
    auto sb = before;
    double Inew = 0;
    (void)sb;
    if (!isStatusBad(st)) Inew = u->I();
    else
      k->setVoltage(V, false, false), Inew = k->I();
    const auto cl = classify(V, Inew);
    if (!cl.ambiguous && std::fabs(Inew) > 1e-9) c.check(st == cl.st, "P04.voltage-status", std::string("setVoltage(") + num(V) + ") at I=" + num(Inew) + " returned " + sname(st) + ", expected " + sname(cl.st));
  }
  c.nontrivial();
  c.label(sname(st));
}

// ------------------------------------------------------------------------------------------------------------------ P08
static void maskStoredV(Unit &u, std::vector<double> &s) // the stored voltage of single-particle cells is derived, not a state
{
  size_t at = 0;
  for (auto *l : u.leaves()) { // depth-first; module temperatures follow their children, so walk the tree
    (void)l;
  }
  std::function<void(Node &)> walk = [&](Node &n) {
    if (n.leaf()) {
      if (n.spm) s[at + ix::V] = 0;
      at += states(*n.su).size();
    } else {
      for (auto &x : n.ch) walk(*x);
      at++;
    }
  };
  walk(*u.node);
}
static bool moduleTsValid(Unit &u)
{
  for (auto *m : u.node->modules())
    if (!(m->su->T() >= KELVIN && m->su->T() <= KELVIN + 75)) return false;
  return !u.bat || (u.bat->T() >= KELVIN && u.bat->T() <= KELVIN + 75);
}
static UnitOpt anyUnit(Case &c, bool stress)
{
  UnitOpt o;
  o.pack.rdeg = c.b(1, 2);
  o.pack.stressModels = stress;
  o.pack.maxDepth = 3, o.pack.maxChildren = 4;
  return o;
}
static void history(Case &c, Unit &u, int maxOps)
{
  for (int k = 0, n = (int)c.i(0, maxOps); k < n; k++) {
    c.step();
    Op op = genOp(c, u);
    c.desc << " " << op.show();
    if (threw(apply(u, op))) {
      c.label("history threw");
      c.discard();
    }
  }
}
// same operations on both; everything observable must stay equal
static bool sameFuture(Case &c, Unit &u, Unit &t, int maxOps, const std::string &key, bool cool)
{
  bool moved = false;
  for (int k = 0, n = (int)c.i(0, maxOps); k < n; k++) {
    c.step();
    Op op = genOp(c, u);
    if (k == 0 && n > 0) op.kind = 1, op.x = 1.0, op.n = 2; // at least one real step
    c.desc << " " << op.show();
    const double a = apply(u, op), b = apply(t, op);
    c.check(a == b || (std::isnan(a) && std::isnan(b)), key + "-status", op.show() + " was answered differently: " + num(a) + " vs " + num(b));
    const auto d = diff(obs(*u.top, cool), obs(*t.top, cool));
    c.check(d.empty(), key + "-behaviour", "after " + op.show() + " they differ: " + d);
    if (threw(a)) break;
    moved |= isStep(op) && u->I() != 0;
  }
  return moved;
}
static void roundtrip(Case &c)
{
  UnitOpt o = anyUnit(c, true);
  const size_t m1 = c.mark();
  Unit u = genUnit(c, o), t = c.again(m1, [&] { return genUnit(c, o); });
  c.desc << u.show() << "\n history";
  history(c, u, 8);
  const bool sameUnit = c.b(1, 3);
  if (!validLeaves(u) || !moduleTsValid(u)) {
    c.label("left the admissible range");
    c.discard();
  }
  c.desc << "\n";
  // another history for the receiving unit
  if (!sameUnit) {
    c.desc << " receiver:";
    history(c, t, 4);
    c.desc << "\n";
  }
  (void)u->V();
  auto s = states(*u.top);
  const auto o0 = obs(*u.top, false);
  Unit &target = sameUnit ? u : t;
  Unit ref;
  if (sameUnit) { // keep an untouched original: an identically built one taken through the same history is the twin
    ref.node = cloneTree(*u.node, u.node->su);
    ref.rebind(Deep_ptr<StorageUnit>(u.top->copy()));
    c.desc << " other history:";
    history(c, u, 4);
  }
  const bool block = c.b();
  target->setBlockDegAndTherm(block);
  (sameUnit ? ref : u)->setBlockDegAndTherm(block);
  auto buf = s;
  const size_t junk = (size_t)c.i(0, 3);
  for (size_t k = 0; k < junk; k++) buf.push_back(-777);
  std::span<double> sp{ buf };
  const auto st = target->setStates(sp, false, false);
  c.check(isStatusOK(st), "P08.refused", std::string("a saved state was refused: ") + sname(st));
  c.check(sp.size() == junk, "P08.consumed", "restoring consumed " + std::to_string(buf.size() - sp.size()) + " values, the unit saved " + std::to_string(s.size()));
  const auto d = diff(o0, obs(*target.top, false));
  c.check(d.empty(), "P08.observable", "after restoring, an observable differs: " + d);
  auto s2 = states(*target.top);
  maskStoredV(u, s), maskStoredV(target, s2);
  c.check(same(s, s2), "P08.states", "saving again gives other values: " + diff(s, s2));
  Unit &orig = sameUnit ? ref : u;
  if (anyStress(u)) { // the stress before the previous step is not part of the vector (see P08.stress): make it equal first
    c.label("stress-driven models");
    for (auto *x : { &orig, &target }) {
      (*x)->setBlockDegAndTherm(false);
      if (threw(apply(*x, Op{ 7, 1.0, 1, 0, false }))) return;
      (*x)->setBlockDegAndTherm(block);
    }
    auto s3 = states(*orig.top);
    for (auto *x : { &orig, &target }) {
      auto s4 = s3;
      std::span<double> sp4{ s4 };
      if (isStatusBad((*x)->setStates(sp4, false, false))) return;
    }
  }
  const bool moved = sameFuture(c, orig, target, 5, "P08.future", false);
  c.nontrivial(moved || u.leaves().size() > 1);
  c.label(sameUnit ? "same unit" : "twin");
  c.label(u.bat ? "battery" : u.cell() ? "cell" : u.parallel() ? "parallel pack" : "series pack");
}
PBT_SUB("P08.roundtrip", 25000, 400000, "save after a random history, restore into the same or an identically built unit with another history, compare everything and the following operations; non-trivial: several cells, or a later step with current") { roundtrip(c); }
PBT_SUB("P08.stress", 10000, 200000, "cells with degradation models driven by stress differences: the first step after restoring; non-trivial: non-zero current")
{
  UnitOpt o = anyUnit(c, true);
  o.wPack = 1, o.wCell = 3, o.wBat = 0;
  o.pack.rdeg = true, o.pack.ecm = o.pack.bucket = false, o.pack.forceTop = 0, o.pack.nestedParallel = false;
  const size_t m1 = c.mark();
  Unit u = genUnit(c, o), t = c.again(m1, [&] { return genUnit(c, o); });
  if (!anyStress(u)) c.discard();
  c.desc << u.show() << "\n history";
  history(c, u, 6);
  if (!validLeaves(u)) c.discard();
  c.desc << " receiver:";
  history(c, t, 4);
  u->setBlockDegAndTherm(false), t->setBlockDegAndTherm(false);
  auto s = states(*u.top);
  std::span<double> sp{ s };
  c.check(isStatusOK(t->setStates(sp, false, false)), "P08.stress-refused", "a saved state was refused");
  const double I = u->Cap() * c.r(-1, 1);
  u->setCurrent(I, false, false), t->setCurrent(I, false, false);
  c.desc << " then I=" << num(I) << " timeStep_CC(1,2)";
  const int a = caughtInt([&] { u->timeStep_CC(1, 2); }), b = caughtInt([&] { t->timeStep_CC(1, 2); });
  c.check(a == b, "P08.stress-exception", "one threw " + std::to_string(a) + ", the other " + std::to_string(b));
  if (a != -1) return;
  auto lu = u.leaves(), lt = t.leaves();
  bool known = false;
  for (size_t k = 0; k < lu.size(); k++) {
    auto x = states(*lu[k]->su), y = states(*lt[k]->su);
    for (size_t i = 0; i < x.size(); i++) {
      if (x[i] == y[i]) continue;
      const bool driven = i == ix::thickp || i == ix::thickn || i == ix::ep || i == ix::en || i == ix::ap || i == ix::an || i == ix::CS || i == ix::Dn || i == ix::V;
      if (!driven || (i != ix::V && !usesStress(lu[k]->deg))) c.fail("P08.stress-other", "after restoring and one step, " + std::string(ixName(i)) + " of cell " + std::to_string(k) + " differs: " + num(x[i]) + " vs " + num(y[i]));
      known = true;
    }
  }
  if (known) c.fail("P08.stress-history", "the first step after restoring gives other stress-driven ageing than the unit the states were saved from");
  c.nontrivial(I != 0);
}

PBT_SUB("P08.concat", 20000, 300000, "the states of several units saved into one vector and restored in turn; non-trivial: at least two units")
{
  const int n = (int)c.i(2, 4);
  std::vector<Unit> a, b;
  std::vector<double> all;
  std::vector<Obs> ob;
  UnitOpt o = anyUnit(c, false);
  o.pack.maxDepth = 2, o.pack.maxChildren = 3;
  for (int k = 0; k < n; k++) {
    const size_t m = c.mark();
    a.push_back(genUnit(c, o));
    b.push_back(c.again(m, [&] { return genUnit(c, o); }));
    c.desc << a.back().show() << ":";
    history(c, a.back(), 4);
    c.desc << "\n";
    if (!validLeaves(a.back()) || !moduleTsValid(a.back())) c.discard();
    (void)a.back()->V();
    a.back()->getStates(all);
    ob.push_back(obs(*a.back().top, false));
  }
  std::span<double> sp{ all };
  for (int k = 0; k < n; k++) {
    const auto st = b[k]->setStates(sp, false, false);
    c.check(isStatusOK(st), "P08.concat-refused", std::string("unit ") + std::to_string(k) + " refused its saved state: " + sname(st));
    const auto d = diff(ob[k], obs(*b[k].top, false));
    c.check(d.empty(), "P08.concat-observable", "unit " + std::to_string(k) + ": " + d);
  }
  c.check(sp.empty(), "P08.concat-consumed", std::to_string(sp.size()) + " values were left over");
  c.nontrivial();
}

PBT_SUB("P08.refuse", 25000, 400000, "a state vector with one invalid entry at a random cell or module, or with a voltage beyond a safety limit in one cell: refused and no child changed; non-trivial: at least two cells")
{
  const size_t m0 = c.mark();
  (void)m0;
  UnitOpt o = anyUnit(c, true);
  const size_t m1 = c.mark();
  Unit u = genUnit(c, o), t = c.again(m1, [&] { return genUnit(c, o); });
  c.desc << u.show() << "\n";
  history(c, u, 4), history(c, t, 4);
  if (!validLeaves(u) || !moduleTsValid(u) || !validLeaves(t) || !moduleTsValid(t)) c.discard();
  auto s = states(*t.top);
  // position of every leaf and module entry
  std::vector<std::pair<size_t, Node *>> at;
  size_t pos = 0;
  std::function<void(Node &)> walk = [&](Node &n) {
    if (n.leaf()) {
      at.push_back({ pos, &n });
      pos += states(*n.su).size();
    } else {
      for (auto &x : n.ch) walk(*x);
      at.push_back({ pos++, &n });
    }
  };
  walk(*t.node);
  if (t.bat) at.push_back({ pos++, nullptr });
  c.check(pos == s.size(), "P08.layout", "the state vector has " + std::to_string(s.size()) + " entries, its units save " + std::to_string(pos));
  const auto [p, n] = at[c.draw(at.size() - 1)];
  bool checkV = c.b(1, 3), must = true;
  if (!n || !n->leaf()) {
    s[p] = c.pick({ KELVIN - 0.5, KELVIN + 75.5, 0.0, -3.0, (double)NAN, 1e6 });
    c.desc << "\n module temperature " << num(s[p]) << " at " << p;
  } else {
    const size_t is = n->spm ? ix::SOC : 1, it = n->spm ? ix::T : 0, ii = n->spm ? ix::I : 2;
    switch (c.i(0, 3)) {
    case 0: s[p + is] = c.pick({ -0.01, 1.01, 7.0, (double)NAN }); break;
    case 1: s[p + it] = c.pick({ KELVIN - 0.5, KELVIN + 60.5, 0.0, (double)NAN }); break;
    case 2: if (n->spm) s[p + ix::thickn] = -1e-5; else s[p + is] = 1.5; break;
    default: {
      checkV = true;
      const double R = std::max(1e-4, n->su->getRtot()), ocv = n->su->V() + R * n->su->I();
      s[p + ii] = c.b() ? (ocv - 1.5) / R * 1.5 : (ocv - 4.8) / R * 1.5;
      // decide by the cell itself
      std::unique_ptr<StorageUnit> k(n->su->copy());
      k->setCurrent(s[p + ii], false, false);
      const auto cl = classify(k->V(), s[p + ii]);
      must = !cl.ambiguous && isStatusBad(cl.st);
    }
    }
    c.desc << "\n cell entry at " << p << (n->spm ? " (spm)" : " (ecm)");
  }
  const auto before = obs(*u.top, true);
  std::span<double> sp{ s };
  Status st{};
  const int e = caughtInt([&] { st = u->setStates(sp, checkV, false); });
  c.desc << " checkV=" << checkV << " -> " << (e == -1 ? sname(st) : "exception " + std::to_string(e)) << "\n";
  c.check(e == -1, "P08.refuse-exception", "setStates threw " + std::to_string(e));
  if (must) c.check(isStatusBad(st), "P08.accepted-invalid", std::string("an invalid state vector was answered with ") + sname(st));
  if (isStatusBad(st)) {
    const auto d = diff(before, obs(*u.top, true));
    c.check(d.empty(), "P08.refuse-changed", "a refused state vector changed the unit: " + d);
    // ... nor any later behaviour
  }
  c.nontrivial(u.leaves().size() > 1);
  c.label(isStatusBad(st) ? "refused" : "accepted");
}

// ------------------------------------------------------------------------------------------------------------------ P09
static void checkIdentity(Case &c, StorageUnit &a, StorageUnit &b, StorageUnit *parentOfB)
{
  c.check(a.getID() == b.getID(), "P09.id", "copy has ID '" + b.getID() + "', original '" + a.getID() + "'");
  c.check(b.getParent() == parentOfB, "P09.parent", "unit '" + b.getID() + "' of the copy does not belong to the copy");
  c.check(&a != &b, "P09.shared", "unit '" + a.getID() + "' is shared between original and copy");
  c.check(typeid(a) == typeid(b), "P09.type", "unit '" + a.getID() + "' changed its type");
  if (auto *ba = dynamic_cast<Battery *>(&a)) {
    auto *bb = dynamic_cast<Battery *>(&b);
    c.check(ba->getCoolSystem() != bb->getCoolSystem(), "P09.shared-cool", "the cooling system is shared");
    checkIdentity(c, *ba->getCells(), *bb->getCells(), &b);
  } else if (auto *ma = dynamic_cast<Module *>(&a)) {
    auto *mb = dynamic_cast<Module *>(&b);
    c.check(ma->getNSUs() == mb->getNSUs(), "P09.children", "the copy has another number of children");
    c.check(ma->getCoolSystem() != mb->getCoolSystem(), "P09.shared-cool", "the cooling system is shared");
    c.check(typeid(*ma->getCoolSystem()) == typeid(*mb->getCoolSystem()), "P09.cool-type", "the copy has another type of cooling system");
    for (size_t i = 0; i < ma->getNSUs(); i++) checkIdentity(c, *(*ma)[i].get(), *(*mb)[i].get(), &b);
  }
}
static void fullIDs(StorageUnit &a, const std::string &prefix, Case &c)
{
  const std::string want = prefix.empty() ? a.getID() : prefix + "_" + a.getID();
  c.check(a.getFullID() == want, "P09.full-id", "full ID is '" + a.getFullID() + "', hierarchy says '" + want + "'");
  if (auto *b = dynamic_cast<Battery *>(&a)) fullIDs(*b->getCells(), want, c);
  else if (auto *m = dynamic_cast<Module *>(&a))
    for (size_t i = 0; i < m->getNSUs(); i++) fullIDs(*(*m)[i].get(), want, c);
}
// two cooling systems that should be the same: they answer the same, now and under the same further use
static void coolSame(Case &c, CoolSystem &a, CoolSystem &b, int n)
{
  auto cmp = [&](const std::string &what) {
    Obs x, y;
    obsCool(x, "", &a), obsCool(y, "", &b);
    const auto d = diff(x, y);
    if (!d.empty()) c.fail("P09.cool-future", "the cooling system of the copy behaves differently " + what + ": " + d);
  };
  cmp("at once");
  std::string done;
  for (int k = 0; k < n; k++) {
    switch (c.i(0, 5)) {
    case 0: {
      const double T = KELVIN + c.r(5, 45);
      a.setT(T), b.setT(T), done += " setT(" + num(T) + ")";
      break;
    }
    case 1:
    case 2: {
      const double l = KELVIN + c.r(5, 45), g = KELVIN + c.r(5, 45);
      a.control(l, g), b.control(l, g), done += " control(" + num(l) + "," + num(g) + ")";
      break;
    }
    case 3: a.reset_Eoperation(), b.reset_Eoperation(), done += " reset"; break;
    default: {
      const double Q = c.r(-500, 500), t = c.r(0, 20);
      const double Ta = a.dstate(Q, Q, t), Tb = b.dstate(Q, Q, t);
      done += " dstate(" + num(Q) + "," + num(t) + ")";
      if (Ta != Tb) c.fail("P09.cool-future", "after" + done + " the cooling system of the copy reaches " + num(Tb) + ", the original's " + num(Ta));
      break;
    }
    }
    cmp("after" + done);
  }
}
static void coolPairs(Case &c, StorageUnit &a, StorageUnit &b, int n)
{
  if (auto *ba = dynamic_cast<Battery *>(&a)) {
    auto *bb = dynamic_cast<Battery *>(&b);
    coolSame(c, *ba->getCoolSystem(), *bb->getCoolSystem(), n);
    coolPairs(c, *ba->getCells(), *bb->getCells(), n);
  } else if (auto *ma = dynamic_cast<Module *>(&a)) {
    auto *mb = dynamic_cast<Module *>(&b);
    coolSame(c, *ma->getCoolSystem(), *mb->getCoolSystem(), n);
    for (size_t i = 0; i < ma->getNSUs(); i++) coolPairs(c, *(*ma)[i].get(), *(*mb)[i].get(), n);
  }
}
PBT_SUB("P09.cool", 30000, 400000, "a regular, open or HVAC cooling system after a random history is copied (copy, constructor, assignment): same answers now and under the same further use, and using one leaves the other alone; non-trivial: all")
{
  auto make = [&](int kind) -> std::unique_ptr<CoolSystem> {
    const int N = (int)c.i(1, 40), ctrl = (int)c.i(1, 5);
    const double Q0 = kind == 1 && c.b() ? c.r(0, 3000) : 0;
    c.desc << (kind == 0 ? " regular" : kind == 1 ? " HVAC" : " open") << " N " << N << " control " << ctrl << " Q0 " << num(Q0);
    if (kind == 0) return std::make_unique<CoolSystem>((size_t)N, ctrl);
    if (kind == 1) return std::make_unique<CoolSystem_HVAC>((size_t)N, ctrl, Q0);
    return std::make_unique<CoolSystem_open>(N, ctrl);
  };
  auto use = [&](CoolSystem &s, int n) {
    for (int k = 0; k < n; k++) switch (c.i(0, 3)) {
      case 0: s.setT(KELVIN + c.r(5, 45)); break;
      case 1: s.control(KELVIN + c.r(5, 45), KELVIN + c.r(5, 45)); break;
      case 2: s.setControl((int)c.i(1, 5)); break;
      default: {
        const double Q = c.r(-500, 500);
        s.dstate(Q, Q, c.r(0, 20));
      }
      }
  };
  const int kind = (int)c.i(0, 2);
  auto a = make(kind);
  use(*a, (int)c.i(0, 6));
  std::unique_ptr<CoolSystem> b;
  const int how = (int)c.i(0, 2);
  if (how == 0) b.reset(a->copy());
  else if (how == 1) {
    Deep_ptr<CoolSystem> p(a->copy()), q(p);
    b.reset(q->copy());
  } else {
    b = make(kind);
    use(*b, (int)c.i(0, 3));
    if (kind == 0) *b = *a;
    if (kind == 1) dynamic_cast<CoolSystem_HVAC &>(*b) = dynamic_cast<CoolSystem_HVAC &>(*a);
    if (kind == 2) dynamic_cast<CoolSystem_open &>(*b) = dynamic_cast<CoolSystem_open &>(*a);
  }
  c.check(a.get() != b.get() && typeid(*a) == typeid(*b), "P09.cool-type", "the copy has another type");
  const bool side = c.b();
  if (c.b(1, 3)) { // use of one leaves the other alone
    Obs k;
    obsCool(k, "", side ? a.get() : b.get());
    use(side ? *b : *a, (int)c.i(1, 4));
    Obs l;
    obsCool(l, "", side ? a.get() : b.get());
    c.check(diff(k, l).empty(), "P09.cool-independence", "using one cooling system changed the other: " + diff(k, l));
  } else
    coolSame(c, *a, *b, (int)c.i(1, 8));
  c.nontrivial();
  c.label(kind == 0 ? "regular" : kind == 1 ? "HVAC" : "open");
}
PBT_SUB("P09.copy", 50000, 800000, "copy (copy(), copy constructor or copy assignment) after a random history; identity, parents, everything observable, the same future, independence, and destruction of either; non-trivial: several cells, or a later step with current")
{
  const size_t m0 = c.mark();
  (void)m0;
  UnitOpt o = anyUnit(c, true);
  const size_t m1 = c.mark();
  Unit u = genUnit(c, o);
  c.desc << u.show() << " history";
  history(c, u, 6);
  c.desc << "\n";
  StorageUnit *orig = u.top.get();
  bool sub = false;
  Unit cp;
  const int how = (int)c.i(0, 3);
  const auto before = obs(*u.top);
  if (how == 0) cp.node = cloneTree(*u.node, u.node->su), cp.rebind(Deep_ptr<StorageUnit>(u.top->copy()));
  if (how == 1) { // Deep_ptr copy
    Deep_ptr<StorageUnit> d(u.top);
    cp.node = cloneTree(*u.node, u.node->su), cp.rebind(std::move(d));
  }
  if (how == 2) { // assignment over an existing unit of the same kind
    Unit w = c.again(m1, [&] { return genUnit(c, o); });
    StorageUnit *x = w.top.get();
    if (auto *m = dynamic_cast<Module_s *>(x)) *m = *dynamic_cast<Module_s *>(orig);
    else if (auto *m = dynamic_cast<Module_p *>(x)) *m = *dynamic_cast<Module_p *>(orig);
    else if (auto *b = dynamic_cast<Battery *>(x)) *b = *dynamic_cast<Battery *>(orig);
    else if (auto *s = dynamic_cast<Cell_SPM *>(x)) *s = *dynamic_cast<Cell_SPM *>(orig);
    else if (auto *s = dynamic_cast<Cell_ECM<0> *>(x)) *s = *dynamic_cast<Cell_ECM<0> *>(orig);
    else if (auto *s = dynamic_cast<Cell_ECM<1> *>(x)) *s = *dynamic_cast<Cell_ECM<1> *>(orig);
    else if (auto *s = dynamic_cast<Cell_ECM<2> *>(x)) *s = *dynamic_cast<Cell_ECM<2> *>(orig);
    cp.node = std::move(w.node);
    cp.rebind(std::move(w.top));
  }
  if (how == 3) { // a child of the pack on its own
    auto ms = u.node->modules();
    std::vector<Node *> inner;
    for (auto *m : ms)
      for (auto &x : m->ch) inner.push_back(x.get());
    if (inner.empty()) c.discard();
    Node *x = c.choose(inner);
    orig = x->su;
    cp.node = cloneTree(*x, x->su);
    cp.rebind(Deep_ptr<StorageUnit>(x->su->copy()));
    sub = true;
  }
  c.desc << (how == 0 ? " copy()" : how == 1 ? " copy constructor" : how == 2 ? " copy assignment" : " copy of a child") << " ";
  checkIdentity(c, *orig, *cp.top, nullptr);
  fullIDs(*cp.top, "", c);
  if (!sub) fullIDs(*u.top, "", c);
  {
    const auto d = diff(obs(*orig), obs(*cp.top));
    c.check(d.empty(), "P09.observable", "the copy differs from the original: " + d);
    const auto e = diff(before, obs(*u.top));
    c.check(e.empty(), "P09.original-changed", "copying changed the original: " + e);
  }
  if (sub) { // independence only
    if (c.b(1, 4)) coolPairs(c, *orig, *cp.top, (int)c.i(1, 4));
    const auto keep = obs(*u.top);
    for (int k = 0, n = (int)c.i(1, 4); k < n; k++) {
      Op op = genOp(c, cp);
      if (op.kind == 1 || op.kind == 7) cp->setBlockDegAndTherm(true);
      c.desc << " " << op.show();
      if (threw(apply(cp, op))) break;
    }
    const auto d = diff(keep, obs(*u.top));
    c.check(d.empty(), "P09.child-independence", "using the copy of a child changed the original pack: " + d);
    c.nontrivial();
    c.label("child");
    return;
  }
  bool moved = sameFuture(c, u, cp, 4, "P09.future", true);
  if (c.b(1, 3)) coolPairs(c, *orig, *cp.top, (int)c.i(1, 4)); // the same cooling on both, from here on
  // independence: only one side is used
  c.desc << "\n one side:";
  const bool useCopy = c.b();
  Unit &act = useCopy ? cp : u, &pas = useCopy ? u : cp;
  const auto keep = obs(*pas.top);
  for (int k = 0, n = (int)c.i(1, 4); k < n; k++) {
    Op op = genOp(c, act);
    c.desc << " " << op.show();
    if (threw(apply(act, op))) break;
  }
  act.top->setID("renamed");
  c.check(diff(keep, obs(*pas.top)).empty(), "P09.independence", std::string("using the ") + (useCopy ? "copy changed the original" : "original changed the copy") + ": " + diff(keep, obs(*pas.top)));
  c.check(pas.top->getID() != "renamed", "P09.independence-id", "renaming one renamed the other");
  act.top = Deep_ptr<StorageUnit>{};
  c.check(diff(keep, obs(*pas.top)).empty(), "P09.destroy", "destroying one changed the other: " + diff(keep, obs(*pas.top)));
  const int e = caughtInt([&] { pas->setCurrent(0, false, false); pas->timeStep_CC(1, 1); });
  (void)e;
  checkIdentity(c, *pas.top, *std::unique_ptr<StorageUnit>(pas->copy()), nullptr);
  c.nontrivial(moved || pas.leaves().size() > 1);
  c.label(pas.bat ? "battery" : pas.cell() ? "cell" : pas.parallel() ? "parallel pack" : "series pack");
}

// ------------------------------------------------------------------------------------------------------------------ P10
static void readSome(Case &c, Unit &u)
{
  StorageUnit *su = u.top.get();
  std::vector<StorageUnit *> all{ su };
  for (auto *m : u.node->modules()) all.push_back(m->su);
  for (auto *l : u.leaves()) all.push_back(l->su);
  for (int k = 0, n = (int)c.i(0, 4); k < n; k++) {
    StorageUnit *x = c.choose(all);
    Obs o;
    switch (c.i(0, 9)) {
    case 0: o.call("", [&] { return x->V(); }); break;
    case 1: o.call("", [&] { return x->getOCV(); }); break;
    case 2: o.call("", [&] { return x->getRtot(); }); break;
    case 3: states(*x); break;
    case 4: o.call("", [&] { double v; return (int)x->checkVoltage(v, false); }); break;
    case 5: o.call("", [&] { return x->getVhigh() + x->getVlow(); }); break;
    case 6: o.call("", [&] { return x->validStates(false); }); break;
    case 7: o.call("", [&] { return x->getThotSpot() + x->T() + x->getNcells() + x->Cap() + x->I() + x->Vmin(); }); break;
    case 8: obs(*x); break;
    default:
      if (auto *s = dynamic_cast<Cell_SPM *>(x)) {
        double a, b;
        double cp[8], cn[8];
        o.call("", [&] { return s->getCSurf(a, b, false); });
        o.call("", [&] { s->getC(cp, cn); return 0; });
        o.call("", [&] { double q, r; Cell_SPM::sigma_type rp, rn, tp, tn, hp, hn; s->getDaiStress(&q, &r, rp, rn, tp, tn, hp, hn); return 0; });
        o.call("", [&] { double q; s->getLaresgoitiStress(false, &q); return 0; });
        o.call("", [&] { return s->getRdc(); });
      } else {
        std::unique_ptr<StorageUnit> k2(x->copy());
        o.call("", [&] { return k2->V(); });
      }
    }
  }
}
PBT_SUB("P10.reads", 25000, 400000, "the same operations with and without random reads in between: bit-identical states and results; non-trivial: at least one operation that changes something and one read")
{
  UnitOpt o = anyUnit(c, true);
  const size_t m1 = c.mark();
  Unit u = genUnit(c, o), t = c.again(m1, [&] { return genUnit(c, o); });
  c.desc << u.show() << "\n";
  for (int k = 0, n = (int)c.i(1, 10); k < n; k++) {
    c.step();
    Op op = genOp(c, u);
    if (op.kind == 2) op.kind = 0, op.x = u->Cap() * (op.x - 1); // relative voltages would read
    c.desc << " " << op.show() << " reads";
    readSome(c, u);
    const double a = apply(u, op), b = apply(t, op);
    c.check(a == b || (std::isnan(a) && std::isnan(b)), "P10.reads-status", op.show() + " gives another result after reads: " + num(a) + " vs " + num(b));
    if (threw(a)) break;
  }
  readSome(c, u);
  const auto d = diff(obs(*u.top), obs(*t.top));
  // a cell whose surface concentration left the table has no voltage (0); its stored one is then just the last that could be calculated
  for (auto *l : u.leaves())
    if (l->su->V() == 0) {
      c.label("a cell without voltage");
      return;
    }
  c.check(d.empty(), "P10.reads-effect", "reading changed a later result: " + d);
  c.nontrivial();
}
PBT_SUB("P10.present", 25000, 400000, "after every operation of a random history the voltage equals that of a freshly built identical unit given the same states, and the circuit rule over the cells; non-trivial: at least two operations")
{
  UnitOpt o = anyUnit(c, true);
  const size_t m1 = c.mark();
  Unit u = genUnit(c, o);
  c.desc << u.show() << "\n";
  OpW w;
  w.w[3] = 3, w.w[4] = 3, w.w[5] = 3, w.w[8] = 2;
  int done = 0;
  for (int k = 0, n = (int)c.i(1, 10); k < n; k++) {
    c.step();
    Op op = genOp(c, u, w);
    c.desc << " " << op.show();
    if (c.b(1, 2)) (void)u->V();
    if (threw(apply(u, op))) break;
    done++;
    Unit t = c.again(m1, [&] { return genUnit(c, o); });
    auto s = states(*u.top);
    // build the twin's state cell by cell, so that also states a validity check would refuse can be compared
    auto lu = u.leaves(), lt = t.leaves();
    bool ok = true;
    for (size_t i = 0; i < lu.size(); i++) {
      auto si = states(*lu[i]->su);
      std::span<double> sp{ si };
      ok &= isStatusOK(lt[i]->su->setStates(sp, false, false));
    }
    if (!ok) {
      c.label("inadmissible state reached");
      break;
    }
    auto call = [&](auto f) { Obs q; q.call("", f); return q.v[0]; };
    const double vt2 = call([&] { return t->V(); }), vu = call([&] { return u->V(); });
    c.check(vu == vt2 || near(vu, vt2, 1e-12, 0), "P10.stale", "after " + op.show() + " the voltage is " + num(vu) + ", a fresh unit with the same states has " + num(vt2));
    const auto d = diff(obs(*t.node->su, false), obs(*u.node->su, false));
    (void)d;
    for (size_t i = 0; i < lu.size(); i++) {
      const double x = call([&] { return lu[i]->su->V(); }), y = call([&] { return lt[i]->su->V(); });
      c.check(near(x, y, 1e-12, 0) || x == y, "P10.stale-cell", "cell " + std::to_string(i) + " has voltage " + num(x) + ", a fresh cell with the same states " + num(y));
      const double p = call([&] { return lu[i]->su->getOCV(); }), q = call([&] { return lt[i]->su->getOCV(); });
      c.check(near(p, q, 1e-12, 0) || p == q, "P10.stale-ocv", "cell " + std::to_string(i) + " has OCV " + num(p) + ", a fresh cell with the same states " + num(q));
      const double r1 = call([&] { return lu[i]->su->getRtot(); }), r2 = call([&] { return lt[i]->su->getRtot(); });
      c.check(near(r1, r2, 1e-12, 0) || r1 == r2, "P10.stale-R", "cell " + std::to_string(i) + " has resistance " + num(r1) + ", a fresh cell with the same states " + num(r2));
    }
    for (auto *m : u.node->modules()) {
      bool dead = false;
      for (auto *l : m->leaves())
        if (!(l->su->V() > 0)) dead = true;
      if (!dead) c.check(near(m->su->V(), m->refV(), 1e-9, 1e-9), "P10.stale-module", "a module reports " + num(m->su->V()) + ", its cells add up to " + num(m->refV()));
    }
  }
  c.nontrivial(done > 1);
}

// ------------------------------------------------------------------------------------------------------------------ P11
PBT_SUB_UNPINNED("P11.par", 2000, 30000, "the same history on the same pack with and without worker threads (and repeated): bit-identical; non-trivial: at least two children and a time step")
{
  UnitOpt o = anyUnit(c, true);
  o.wCell = 0;
  o.pack.maxChildren = 12;
  o.pack.maxDepth = 2;
  const size_t m1 = c.mark();
  Unit u = genUnit(c, o);
  UnitOpt p = o;
  p.pack.threads = true;
  Unit t = c.again(m1, [&] { return genUnit(c, p); }), r = c.again(m1, [&] { return genUnit(c, o); });
  c.desc << u.show() << "\n";
  bool nt = false;
  for (int k = 0, n = (int)c.i(1, 8); k < n; k++) {
    c.step();
    Op op = genOp(c, u);
    c.desc << " " << op.show();
    const double a = apply(u, op);
    const double e = apply(r, op);
    c.check(a == e, "P11.repeat-status", op.show() + " gives different results on two identical packs");
    if (threw(a) && a != -7000000 - 100000) {
      c.label("history threw");
      return;
    }
    const double b = apply(t, op);
    c.check(a == b, "P11.thread-status", op.show() + " gives " + num(b) + " with worker threads, " + num(a) + " without");
    if (threw(a)) return;
    const auto d = diff(obs(*u.top), obs(*t.top));
    c.check(d.empty(), "P11.thread-result", "with worker threads the result of " + op.show() + " differs: " + d);
    const auto f = diff(obs(*u.top), obs(*r.top));
    c.check(f.empty(), "P11.repeat-result", "repeating gives another result: " + f);
    nt |= isStep(op) && u.leaves().size() > 1;
  }
  c.nontrivial(nt);
}
PBT_SUB_UNPINNED("P11.race", 300, 4000, "short histories of currents and steps on packs of up to six children per module with worker threads, compared with the same without; run with the thread sanitizer as well; non-trivial: at least two children and a time step")
{
  UnitOpt o = anyUnit(c, true);
  o.wCell = 0;
  o.pack.maxChildren = 6;
  o.pack.maxDepth = 2;
  const size_t m1 = c.mark();
  Unit u = genUnit(c, o);
  UnitOpt p = o;
  p.pack.threads = true;
  Unit t = c.again(m1, [&] { return genUnit(c, p); });
  c.desc << u.show() << "\n";
  bool nt = false;
  OpW w;
  const int ww[9] = { 3, 6, 0, 0, 0, 0, 1, 1, 0 };
  std::copy(std::begin(ww), std::end(ww), std::begin(w.w));
  for (int k = 0, n = (int)c.i(1, 4); k < n; k++) {
    c.step();
    Op op = genOp(c, u, w);
    op.n = std::min(op.n, 2);
    c.desc << " " << op.show();
    const double a = apply(u, op), b = apply(t, op);
    c.check(a == b, "P11.thread-status", op.show() + " gives " + num(b) + " with worker threads, " + num(a) + " without");
    if (threw(a)) return;
    const auto d = diff(obs(*u.top), obs(*t.top));
    c.check(d.empty(), "P11.thread-result", "with worker threads the result of " + op.show() + " differs: " + d);
    nt |= isStep(op) && u.leaves().size() > 1;
  }
  c.nontrivial(nt);
}

PBT_SUB_UNPINNED("P11.run", 20000, 300000, "run() over 0..40 tasks with 1..12 threads or automatic: every index exactly once, with random delays; non-trivial: more than one task and thread")
{
  const int n = (int)c.i(0, 40), th = c.b(1, 4) ? -1 : (int)c.i(1, 12);
  std::vector<std::atomic<int>> hit(n + 50);
  std::vector<int> delay;
  for (int k = 0; k < n; k++) delay.push_back((int)c.i(0, 3));
  c.desc << "run(" << n << " tasks, " << th << " threads)";
  auto task = [&](int i) {
    if (i < 0 || i >= n) hit[n + 49]++;
    else {
      volatile int w = 0;
      for (int q = 0; q < delay[i] * 200; q++) w = w + q;
      if (delay[i] == 3) std::this_thread::yield();
      hit[i]++;
    }
  };
  run(task, n, th);
  c.check(hit[n + 49] == 0, "P11.index", "a task was called with an index outside 0.." + std::to_string(n - 1));
  for (int k = 0; k < n; k++) c.check(hit[k] == 1, "P11.once", "index " + std::to_string(k) + " of " + std::to_string(n) + " was run " + std::to_string((int)hit[k]) + " times with " + std::to_string(th) + " threads");
  c.nontrivial(n > 1 && th != 1);
}
PBT_SUB_UNPINNED("P11.throws", 3000, 40000, "a task that throws: the exception reaches the caller, with and without threads; non-trivial: all")
{
  const int n = (int)c.i(1, 20), th = c.b(1, 4) ? -1 : (int)c.i(1, 12);
  const int who = (int)c.i(0, n - 1);
  c.desc << "run(" << n << " tasks, " << th << " threads), task " << who << " throws";
  auto task = [&](int i) { if (i == who) throw 10 + i; };
  const int e = caughtInt([&] { run(task, n, th); });
  c.check(e == 10 + who, "P11.exception", "the caller saw " + std::to_string(e) + " instead of the exception " + std::to_string(10 + who));
  c.nontrivial();
}

// ------------------------------------------------------------------------------------------------------------------ P12
static std::vector<double> ageing(StorageUnit *l)
{
  auto s = states(*l);
  std::vector<double> o;
  for (size_t i : { ix::delta, ix::LLI, ix::thickp, ix::thickn, ix::ep, ix::en, ix::ap, ix::an, ix::CS, ix::Dp, ix::Dn, ix::dpl, ix::rDCp, ix::rDCn, ix::rDCcc }) o.push_back(s[i]);
  return o;
}
PBT_SUB("P12.block", 30000, 400000, "packs and batteries whose cells have degradation models; ageing blocked for a random unit (through any interface): cells below it never age, the others do; non-trivial: a step with current while at least one cell with models is blocked")
{
  UnitOpt o;
  o.pack.rdeg = true, o.pack.ecm = c.b(1, 4), o.pack.bucket = false;
  o.pack.maxDepth = 3, o.pack.maxChildren = 3;
  o.wBat = 3;
  const size_t m1 = c.mark();
  Unit u = genUnit(c, o), plain = c.again(m1, [&] { UnitOpt q = o; return genUnit(c, q); });
  c.desc << u.show() << "\n";
  std::vector<StorageUnit *> units{ u.top.get() };
  for (auto *m : u.node->modules()) units.push_back(m->su);
  for (auto *l : u.leaves()) units.push_back(l->su);
  const size_t w = c.draw(units.size() - 1);
  StorageUnit *b = units[w];
  b->setBlockDegAndTherm(true);
  c.desc << " blocked: " << b->getFullID();
  auto below = [&](StorageUnit *l) {
    for (StorageUnit *x = l; x; x = x->getParent())
      if (x == b) return true;
    return false;
  };
  std::map<StorageUnit *, std::vector<double>> first;
  for (auto *l : u.leaves())
    if (l->spm) first[l->su] = ageing(l->su);
  bool nt = false;
  int steps = 0;
  for (int k = 0, n = (int)c.i(1, 6); k < n; k++) {
    c.step();
    OpW ow;
    ow.w[6] = 0;
    Op op = genOp(c, u, ow);
    c.desc << " " << op.show();
    if (threw(apply(u, op))) break;
    if (isStep(op) && op.x * op.n > 0) steps++;
    for (auto *l : u.leaves())
      if (l->spm && below(l->su)) {
        const auto a = ageing(l->su);
        c.check(same(a, first[l->su]), "P12.block-below", "ageing is blocked at '" + b->getFullID() + "' but cell '" + l->su->getFullID() + "' aged: " + diff(first[l->su], a));
        nt |= isStep(op) && l->su->I() != 0 && op.x > 0;
      }
  }
  // the rest of the pack keeps ageing: SEI models always grow, unless the unit that was blocked contains the cell
  if (steps > 0)
    for (auto *l : u.leaves())
      if (l->spm && !below(l->su) && !l->deg.SEI_id.empty()) {
        DEG_ID d = l->deg;
        bool any = false;
        for (auto id : d.SEI_id) any |= id != 0;
        if (any) c.check(ageing(l->su)[0] > first[l->su][0], "P12.block-others", "ageing is blocked only at '" + b->getFullID() + "' but the SEI layer of '" + l->su->getFullID() + "' no longer grows");
      }
  // unblocking lets the cell age again
  b->setBlockDegAndTherm(false);
  if (u->setCurrent(0, false, false) == Status::Success && caughtInt([&] { u->timeStep_CC(1, 5); }) == -1)
    for (auto *l : u.leaves())
      if (l->spm && below(l->su)) {
        DEG_ID d = l->deg;
        bool any = false;
        for (auto id : d.SEI_id) any |= id != 0;
        if (any) c.check(ageing(l->su)[0] > first[l->su][0], "P12.unblock", "after unblocking '" + b->getFullID() + "' the SEI layer of '" + l->su->getFullID() + "' does not grow");
      }
  c.nontrivial(nt);
}
PBT_SUB("P12.neighbour", 20000, 300000, "one cell among plain cells of a series pack has degradation models: the other cells behave bit-identically to a pack without any models; non-trivial: at least two cells and a step with current")
{
  PackOpt o;
  o.ecm = o.bucket = false;
  o.forceTop = 0, o.nestedParallel = false;
  o.maxDepth = 2;
  const size_t m1 = c.mark();
  Pack a = genPack(c, o), b = c.again(m1, [&] { return genPack(c, o); });
  auto la = a.node->leaves(), lb = b.node->leaves();
  const size_t who = c.draw(la.size() - 1);
  auto *sc = dynamic_cast<Cell_SPM *>(la[who]->su);
  const DEG_ID d = genDeg(c);
  // same cell with models selected: rebuilt in place
  {
    const auto var = sc->getVariations();
    auto s = states(*sc);
    StorageUnit *par = sc->getParent();
    Cell_SPM n(sc->getID(), d, sc->Cap() / 16.0, var[1] == 0 ? 1 : var[1], 1, 1);
    (void)par;
    std::span<double> sp{ s };
    n.setStates(sp, false, false);
    *sc = n;
  }
  c.desc << a.node->show() << " cell " << who << " has models " << DEG_ID(d).print() << "\n";
  bool nt = false;
  for (int k = 0, n = (int)c.i(1, 6); k < n; k++) {
    c.step();
    const double I = la[0]->su->Cap() * c.r(-1, 1), dt = c.pick({ 1.0, 2.0 });
    const int m = (int)c.pick({ 1, 5, 20 });
    c.desc << " I=" << num(I) << " " << dt << "x" << m;
    a.top->setCurrent(I, false, false), b.top->setCurrent(I, false, false);
    const int e = caughtInt([&] { a.top->timeStep_CC(dt, m); }), f = caughtInt([&] { b.top->timeStep_CC(dt, m); });
    if (e != -1 || f != -1) break;
    for (size_t i = 0; i < la.size(); i++) {
      if (i == who) continue;
      (void)la[i]->su->V(), (void)lb[i]->su->V();
      c.check(same(states(*la[i]->su), states(*lb[i]->su)), "P12.neighbour", "the models of cell " + std::to_string(who) + " changed cell " + std::to_string(i) + ": " + diff(states(*la[i]->su), states(*lb[i]->su)));
    }
    nt |= I != 0 && la.size() > 1;
  }
  c.nontrivial(nt);
}
int main(int a, char **b) { return pbt::pbtMain(a, b); }
