// P05 series modules, P06 parallel modules, P07 aggregation over arbitrary trees.
#include "packs.hpp"
using namespace vt;

// ---------------------------------------------------------------------------------------------------------------- helpers
static std::vector<double> leafI(Node &n)
{
  std::vector<double> o;
  for (auto *l : n.leaves()) o.push_back(l->su->I());
  return o;
}
static double sumAbsV(Node &n)
{
  double s = 1;
  for (auto *l : n.leaves()) s += std::fabs(l->su->V());
  return s;
}
// puts a cell close to (or beyond) one of its limits
static void stressLeaf(Case &c, Node &l, bool high)
{
  auto *cell = dynamic_cast<Cell *>(l.su);
  const double s = high ? c.r(0.93, 1.0) : c.r(0.0, 0.12);
  if (l.spm) {
    const double f = high ? c.r(0.93, 1.03) : c.r(-0.03, 0.1); // pseudo-SOC
    auto *spm = dynamic_cast<Cell_SPM *>(l.su);
    const double x = f - 0.5, q = 16.0 * 3600 / 96487.0, Qp = 51385 * 0.5 * 70e-6 * 0.62, Qn = 30555 * 0.5 * 73.5e-6 * 0.62;
    spm->setC(std::clamp(0.689332 - x * q / Qp, 0.0, 1.0), std::clamp(0.479283 + x * q / Qn, 0.0, 1.0));
    spm->setSOC(s, false, false);
  } else
    cell->setSOC(s, false, false);
}
static double ratedCap(Node &n) { return n.refCap(); }

// ---------------------------------------------------------------------------------------------------------------- P05
static void series(Case &c)
{
  PackOpt o;
  o.forceTop = 0;
  o.maxDepth = c.thorough ? 3 : 2;
  o.maxChildren = 6;
  o.dSOC = 0.01;
  Pack p = genPack(c, o);
  Node &n = *p.node;
  c.desc << n.show() << "\n";
  const double cap = ratedCap(n);
  c.check(!isStatusBad(p.top->setCurrent(cap * c.r(-0.5, 0.5), false, false)), "P05.first-setpoint", "a moderate unchecked current at mid SOC was refused");
  if (c.b(1, 3)) p.top->timeStep_CC(c.pick({ 1.0, 5.0 }), (int)c.i(1, 20));
  auto leaves = n.leaves();
  if (c.b(2, 3)) { // one or two cells near a limit, anywhere
    const bool high = c.b(1, 2);
    const int k = (int)c.i(1, 2);
    for (int q = 0; q < k; q++) {
      Node *l = leaves[c.i(0, leaves.size() - 1)];
      stressLeaf(c, *l, high);
      c.desc << "stressed leaf " << l->su->getFullID() << (high ? " high" : " low") << " SOC=" << num6(dynamic_cast<Cell *>(l->su)->SOC()) << "\n";
    }
    // a parallel group must be re-balanced after one of its cells was moved; a refused balance ends the case
    if (n.has(Node::PARALLEL)) {
      for (auto *m : n.modules())
        if (m->kind == Node::PARALLEL)
          if (isStatusBad(m->su->setCurrent(m->ch[0]->refI() * 0, true, false))) c.discard();
      if (isStatusBad(p.top->setCurrent(0, true, false))) c.discard();
    } else if (c.b(1, 2))
      p.top->setCurrent(0, false, false);
    else { // give the stressed cells back the common current
      const double I0 = cap * c.r(-0.05, 0.05);
      for (auto *l : leaves) l->su->setCurrent(I0, false, false);
    }
  }
  const int tries = (int)c.i(1, 4);
  for (int t = 0; t < tries; t++) {
    c.step();
    const double Inew = cap * (c.b(1, 4) ? c.r(-12, 12) : c.r(-3, 3));
    const bool chk = !c.b(1, 5);
    const auto I0 = leafI(n);
    std::vector<std::vector<double>> s0;
    for (auto *l : leaves) s0.push_back(states(*l->su));
    bool socOK = true;
    for (auto *l : leaves)
      if (!l->spm) socOK = socOK && dynamic_cast<Cell *>(l->su)->SOC() >= 0 && dynamic_cast<Cell *>(l->su)->SOC() <= 1;
    for (auto *l : leaves)
      socOK = socOK && l->su->V() > 0; // a module with a cell that has no valid voltage has none either
    for (auto *m : n.modules())
      socOK = socOK && m->refV() > 0;
    const double V0 = socOK ? n.refV() : 0;
    // what each child of the top module would answer on its own
    bool refuse = false;
    int firstBad = -1;
    for (size_t i = 0; i < n.ch.size(); i++) {
      std::unique_ptr<StorageUnit> cp(n.ch[i]->su->copy());
      cp->setParent(nullptr);
      if (isStatusBad(cp->setCurrent(Inew, chk, false))) {
        refuse = true;
        if (firstBad < 0) firstBad = (int)i;
      }
    }
    const auto st = p.top->setCurrent(Inew, chk, false);
    c.desc << "setCurrent(" << num(Inew) << "," << chk << ") -> " << sname(st) << (refuse ? " (child " + std::to_string(firstBad) + " refuses)" : "") << "\n";
    c.check(isStatusBad(st) == refuse, "P05.status", std::string("module answered ") + sname(st) + (refuse ? " although child " + std::to_string(firstBad) + " refuses" : " although no child refuses"));
    const auto I1 = leafI(n);
    if (!isStatusBad(st)) {
      for (size_t i = 0; i < n.ch.size(); i++) {
        const bool par = n.ch[i]->has(Node::PARALLEL);
        c.check(near(n.ch[i]->refI(), Inew, 1e-9, par ? 1e-6 * cap : 0), "P05.common-current", "child " + std::to_string(i) + " carries " + num(n.ch[i]->refI()) + " instead of " + num(Inew));
      }
      c.check(near(p.top->I(), Inew, 1e-9, n.has(Node::PARALLEL) ? 1e-6 * cap : 0), "P05.module-current", "module reports current " + num(p.top->I()) + " instead of " + num(Inew));
      bool allpos = true;
      for (auto *l : leaves) allpos = allpos && l->su->V() > 0;
      for (auto *m : n.modules()) allpos = allpos && m->refV() > 0;
      if (allpos) c.check(near(p.top->V(), n.refV(), 1e-10, 1e-10 * sumAbsV(n)), "P05.voltage-sum", "V=" + num(p.top->V()) + ", sum of children minus contact drops " + num(n.refV()));
      if (Inew != 0) c.nontrivial();
    } else {
      c.label("refused");
      c.label("refusing child not first", firstBad > 0);
      c.label("refused below a nested module", n.depth() > 1);
      c.nontrivial();
      for (size_t i = 0; i < leaves.size(); i++) {
        // cells that live below a parallel module get their share back through that module's solver
        bool underPar = false;
        for (auto *m : n.modules())
          if (m->kind == Node::PARALLEL)
            for (auto *l : m->leaves()) underPar = underPar || l == leaves[i];
        c.check(underPar ? near(I1[i], I0[i], 0, 1e-5 * cap) : I1[i] == I0[i], "P05.rollback", "after a refused current, cell " + leaves[i]->su->getFullID() + " (leaf " + std::to_string(i) + " of " + std::to_string(leaves.size()) + ") carries " + num(I1[i]) + " instead of its former " + num(I0[i]));
      }
      if (V0 > 0) c.check(near(p.top->V(), V0, 1e-9, 1e-7), "P05.rollback-voltage", "after a refused current the module voltage is " + num(p.top->V()) + " instead of " + num(V0));
    }
    for (size_t i = 0; i < leaves.size(); i++)
      c.check(near(dynamic_cast<Cell *>(leaves[i]->su)->SOC(), leaves[i]->spm ? s0[i][28] : s0[i][1], 0, 0), "P05.soc-touched", "a current set-point changed an SOC");
  }
  c.label("depth>1", n.depth() > 1);
}
PBT_SUB("P05.setpoints", 60000, 3000000, "random series trees, some cells stressed near a limit at a random position, then checked/unchecked current set-points; non-trivial: a non-zero current was accepted or some child refused") { series(c); }

// ---------------------------------------------------------------------------------------------------------------- P06
// Thevenin equivalent of a subtree of ECM cells at its present state
struct Thev
{
  double e, r;
};
static Thev thev(Node &n)
{
  if (n.leaf()) return { n.su->V() + n.su->getRtot() * n.su->I(), n.su->getRtot() };
  std::vector<Thev> t;
  for (auto &x : n.ch) t.push_back(thev(*x));
  if (n.kind == Node::SERIES) {
    Thev s{ 0, 0 };
    for (size_t i = 0; i < t.size(); i++) s.e += t[i].e, s.r += t[i].r + n.Rc[i];
    return s;
  }
  Thev s{ t.back().e, t.back().r };
  for (size_t k = t.size(); k-- > 0;) {
    if (k + 1 < t.size()) { // combine child k with everything behind
      const double g = 1 / t[k].r + 1 / s.r;
      s = { (t[k].e / t[k].r + s.e / s.r) / g, 1 / g };
    }
    s.r += n.Rc[k];
  }
  return s;
}
// exact currents of all leaves when the subtree carries I
static void solve(Node &n, double I, std::map<Node *, double> &out)
{
  if (n.leaf()) {
    out[&n] = I;
    return;
  }
  if (n.kind == Node::SERIES) {
    for (auto &x : n.ch) solve(*x, I, out);
    return;
  }
  // node voltages from the terminal backwards: child k hangs at node k; behind[k] is the equivalent of children k+1.. incl. Rc[k+1]
  const size_t N = n.ch.size();
  std::vector<Thev> t(N), behind(N);
  for (size_t k = 0; k < N; k++) t[k] = thev(*n.ch[k]);
  for (size_t k = N; k-- > 0;) {
    if (k + 1 == N)
      behind[k] = { 0, INFINITY };
    else {
      Thev b = t[k + 1];
      if (std::isfinite(behind[k + 1].r)) {
        const double g = 1 / t[k + 1].r + 1 / behind[k + 1].r;
        b = { (t[k + 1].e / t[k + 1].r + behind[k + 1].e / behind[k + 1].r) / g, 1 / g };
      }
      b.r += n.Rc[k + 1];
      behind[k] = b;
    }
  }
  double J = I; // current that reaches node k
  for (size_t k = 0; k < N; k++) {
    double ik = J;
    if (std::isfinite(behind[k].r)) {
      // common node voltage v: (t.e - v)/t.r + (b.e - v)/b.r = J
      const double g = 1 / t[k].r + 1 / behind[k].r;
      const double v = (t[k].e / t[k].r + behind[k].e / behind[k].r - J) / g;
      ik = (t[k].e - v) / t[k].r;
    }
    solve(*n.ch[k], ik, out);
    J -= ik;
  }
}

static void checkKirchhoff(Case &c, Node &n, double Iexp, const char *when, double cap)
{
  for (auto *m : n.modules()) {
    if (m->kind != Node::PARALLEL || m->ch.size() < 2) continue;
    double lo = 1e300, hi = -1e300;
    for (size_t i = 0; i < m->ch.size(); i++) {
      const double v = m->refChildTerminal(i);
      lo = std::min(lo, v), hi = std::max(hi, v);
    }
    c.check(hi - lo < 1e-7, "P06.equal-voltage", std::string(when) + ": terminal voltages of the children of " + m->su->getFullID() + " differ by " + num(hi - lo) + " V");
    double s = 0;
    for (auto &x : m->ch) s += x->su->I();
    c.check(near(s, m->su->I(), 1e-12, 1e-9 * cap), "P06.module-current", std::string(when) + ": module current is not the sum of its children");
    c.check(near(m->su->V(), m->refV(), 1e-9, 1e-9), "P06.module-voltage", std::string(when) + ": V=" + num(m->su->V()) + " instead of " + num(m->refV()));
  }
  c.check(near(n.refI(), Iexp, 1e-7, 1e-6 * cap), "P06.sum", std::string(when) + ": child currents sum to " + num(n.refI()) + " instead of " + num(Iexp));
}
static void checkLinear(Case &c, Node &n, double Iexp, const char *when, double cap)
{
  for (auto *l : n.leaves())
    if (l->spm) return;
  std::map<Node *, double> ref;
  solve(n, Iexp, ref);
  for (auto &[l, i] : ref)
    c.check(near(l->su->I(), i, 1e-6, 2e-5 * cap), "P06.split", std::string(when) + ": " + l->su->getFullID() + " carries " + num(l->su->I()) + ", linear circuit " + num(i));
  c.label("compared with the linear circuit");
}
static void parallel(Case &c)
{
  PackOpt o;
  o.forceTop = 1;
  o.maxDepth = c.b(1, 3) ? 2 : 1;
  o.maxChildren = c.thorough ? 9 : 6;
  o.dSOC = c.pick({ 0.0, 0.005, 0.02 });
  if (c.b(1, 2)) o.spm = false;
  o.socLo = 0.4;
  o.socHi = 0.7;
  Pack p = genPack(c, o);
  Node &n = *p.node;
  c.desc << n.show() << "\n";
  const double cap = ratedCap(n);
  bool spm = false;
  for (auto *l : n.leaves()) spm = spm || l->spm;
  double spmTime = 0;
  double Icur = 0;
  {
    const auto st = p.top->setCurrent(0, true, false);
    c.check(isStatusOK(st), "P06.balance-refused", std::string("balancing cells at mid SOC was refused: ") + sname(st));
    checkKirchhoff(c, n, 0, "balancing", cap);
    checkLinear(c, n, 0, "balancing", cap);
  }
  const int nops = (int)c.i(1, c.thorough ? 12 : 6);
  for (int k = 0; k < nops; k++) {
    c.step();
    const int op = c.weighted({ 3, 3, 1, 1 });
    if (op == 0) {
      const double I = cap * c.r(-1, 1) * (spm ? 0.5 : 1);
      const auto st = p.top->setCurrent(I, true, false);
      c.desc << "setCurrent(" << num(I) << ") -> " << sname(st) << "\n";
      c.check(isStatusOK(st), "P06.refused", std::string("a moderate current at mid SOC was refused: ") + sname(st));
      Icur = I;
      checkKirchhoff(c, n, Icur, "setCurrent", cap);
      checkLinear(c, n, Icur, "setCurrent", cap);
      c.nontrivial(n.ch.size() > 1 && I != 0);
    } else if (op == 1) {
      const double dt = c.pick({ 1.0, 5.0, 10.0, 0.5 });
      const int ns = (int)c.pick({ 1, 3, 10 });
      const double Ib = n.refI();
      c.desc << "timeStep_CC(" << dt << "," << ns << ")\n";
      if (spm) spmTime += dt * ns;
      if (spmTime > 400) break; // stay well away from empty or full particles
      p.top->timeStep_CC(dt, ns);
      checkKirchhoff(c, n, Ib, "timeStep_CC", cap);
      checkLinear(c, n, Icur, "timeStep_CC", cap);
      if (n.ch.size() > 1) c.label("stepped");
    } else if (op == 2) { // redistribution after disturbing the balance keeps the total
      auto *m = dynamic_cast<Module_p *>(p.top.get());
      const size_t a = c.i(0, n.ch.size() - 1), b = c.i(0, n.ch.size() - 1);
      const double d = 0.05 * cap * c.r(-1, 1) / n.ch.size();
      if (a == b) continue;
      if (isStatusBad(n.ch[a]->su->setCurrent(n.ch[a]->su->I() + d, true, false)) || isStatusBad(n.ch[b]->su->setCurrent(n.ch[b]->su->I() - d, true, false))) c.discard();
      const double tot = n.refI();
      const auto st = m->redistributeCurrent(true, false);
      c.desc << "moved " << num(d) << " A from " << b << " to " << a << ", redistribute -> " << sname(st) << "\n";
      c.check(isStatusOK(st), "P06.redistribute-failed", "redistribution of a small imbalance failed");
      checkKirchhoff(c, n, tot, "redistribute", cap);
    } else {
      // changing contact resistances, then re-balancing
      for (auto &r : n.Rc) r = c.r(0, 0.02) / cap;
      dynamic_cast<Module *>(p.top.get())->setRcontact(n.Rc);
      const auto st = p.top->setCurrent(Icur, true, false);
      c.desc << "new contact resistances -> " << sname(st) << "\n";
      c.check(isStatusOK(st), "P06.refused", std::string("re-balancing was refused: ") + sname(st));
      checkKirchhoff(c, n, Icur, "setRcontact+setCurrent", cap);
      checkLinear(c, n, Icur, "setRcontact+setCurrent", cap);
    }
  }
  c.label("mixed capacities", [&] { double a = n.ch[0]->su->Cap(); for (auto &x : n.ch) if (x->su->Cap() != a) return true; return false; }());
  c.label("contact resistance", [&] { for (auto r : n.Rc) if (r != 0) return true; return false; }());
  c.label("nested", n.depth() > 1);
}
PBT_SUB("P06.kirchhoff", 30000, 900000, "random parallel trees: balance, current set-points, steps, redistribution, changed contact resistances; non-trivial: at least two children and a non-zero current set") { parallel(c); }

// parallel branches that are long strings of cells: the stiffer the branch, the more its voltage reacts to its current
static void strings(Case &c)
{
  PackOpt o;
  const bool spm = c.b();
  o.spm = spm, o.ecm = !spm, o.bucket = !spm;
  o.dSOC = c.pick({ 0.0, 0.005, 0.02 });
  const size_t nb = (size_t)c.i(2, 5), ns = (size_t)c.pick({ (int)c.i(1, 12), (int)c.i(4, 100), 7, 60 });
  const double soc = c.r(0.4, 0.7), cap = c.b() ? 16.0 : c.rlog(1, 100), T = KELVIN + c.r(2, 58);
  Node n;
  n.kind = Node::PARALLEL;
  std::vector<Deep_ptr<StorageUnit>> br;
  for (size_t b = 0; b < nb; b++) {
    n.ch.push_back(std::make_unique<Node>());
    Node &s = *n.ch.back();
    s.kind = Node::SERIES;
    std::vector<Deep_ptr<StorageUnit>> cells;
    const bool rep = c.b(); // identical cells: no further choices
    const double sb = soc + o.dSOC * c.r(-1, 1);
    const size_t mk = c.mark();
    for (size_t i = 0; i < ns; i++) {
      s.ch.push_back(std::make_unique<Node>());
      auto mk1 = [&] { cells.push_back(genLeaf(c, o, rep ? sb : soc + o.dSOC * c.r(-1, 1), cap, *s.ch.back(), "c" + std::to_string(i))); };
      if (rep && i) c.again(mk, mk1);
      else mk1();
      cells.back()->setT(T);
      s.Rc.push_back(o.contact && i % 3 == 1 ? 0.003 / cap : 0.0);
    }
    auto *m = new Module_s("s" + std::to_string(b), TENV, false, false, (int)ns, 1, 0);
    Deep_ptr<StorageUnit> d(static_cast<StorageUnit *>(m));
    m->setSUs(cells, true, false);
    m->setRcontact(s.Rc);
    s.su = m;
    br.push_back(std::move(d));
    n.Rc.push_back(c.b(1, 3) ? (double)ns * c.r(0, 0.005) / cap : 0.0);
  }
  auto *p = new Module_p("top", TENV, false, false, (int)(nb * ns), 1, 1);
  Deep_ptr<StorageUnit> top(static_cast<StorageUnit *>(p));
  p->setSUs(br, true, false);
  p->setRcontact(n.Rc);
  p->setBlockDegAndTherm(true);
  n.su = p;
  const double tot = ratedCap(n);
  c.desc << nb << " branches of " << ns << (spm ? " single-particle" : " circuit") << " cells of " << num6(cap) << " Ah at " << num6(T) << " K, spread " << o.dSOC << "\n";
  for (int k = 0, nops = (int)c.i(1, 3); k < nops; k++) {
    c.step();
    const double I = tot * c.r(-0.4, 0.4);
    const auto st = p->setCurrent(I, c.b(), false);
    c.desc << "setCurrent(" << num(I) << ") -> " << sname(st) << "\n";
    c.check(isStatusOK(st), "P06.string-refused", std::string("a moderate current at mid SOC was refused: ") + sname(st));
    if (!isStatusOK(st)) return;
    checkKirchhoff(c, n, I, "setCurrent", tot);
    checkLinear(c, n, I, "setCurrent", tot);
    const double dt = c.pick({ 1.0, 2.0 });
    p->timeStep_CC(dt, (int)c.i(1, 5));
    c.desc << "timeStep_CC(" << dt << ")\n";
    checkKirchhoff(c, n, I, "timeStep_CC", tot);
    c.nontrivial(ns > 3);
  }
  c.label("beyond ten cells in series", ns > 10);
}
PBT_SUB("P06.strings", 1500, 40000, "parallel branches of up to 100 cells in series: current set-points and steps; non-trivial: more than three cells in series") { strings(c); }

static void parallelRefusal(Case &c)
{
  PackOpt o;
  o.forceTop = 1;
  o.maxDepth = c.b(1, 4) ? 2 : 1;
  o.dSOC = 0.005;
  const bool high = c.b(1, 2);
  o.socLo = high ? 0.85 : 0.06;
  o.socHi = high ? 0.97 : 0.2;
  Pack p = genPack(c, o);
  Node &n = *p.node;
  const double cap = ratedCap(n);
  c.desc << n.show() << (high ? " high" : " low") << "\n";
  if (isStatusBad(p.top->setCurrent(0, true, false))) c.discard();
  const double Ibase = cap * c.r(0, 0.1) * (high ? 1 : -1);
  if (isStatusBad(p.top->setCurrent(Ibase, true, false))) c.discard();
  checkKirchhoff(c, n, Ibase, "base current", cap);
  const auto I0 = leafI(n);
  const double V0 = p.top->V();
  const double I = cap * c.r(1, 20) * (high ? -1 : 1);
  const auto st = p.top->setCurrent(I, true, false);
  c.desc << "setCurrent(" << num(I) << ") -> " << sname(st) << "\n";
  const auto I1 = leafI(n);
  if (isStatusBad(st)) {
    c.nontrivial(n.ch.size() > 0);
    c.label("refused");
    for (size_t i = 0; i < I0.size(); i++)
      c.check(near(I1[i], I0[i], 1e-9, n.depth() > 1 ? 1e-5 * cap : 1e-9 * cap), "P06.refusal-restores", "after a refused current leaf " + std::to_string(i) + " carries " + num(I1[i]) + " instead of its former " + num(I0[i]));
    c.check(near(p.top->V(), V0, 1e-9, 1e-6), "P06.refusal-voltage", "after a refused current V=" + num(p.top->V()) + " instead of " + num(V0));
  } else {
    checkKirchhoff(c, n, I, "large setCurrent", cap);
    for (auto *l : n.leaves()) {
      const double v = l->su->V();
      const auto cl = classify(v, l->su->I());
      c.check(cl.ambiguous || !isStatusBad(cl.st), "P06.unsafe-accepted", "current accepted although " + l->su->getFullID() + " is at " + num(v) + " V with " + num(l->su->I()) + " A");
    }
    if (n.ch.size() > 1) c.nontrivial();
    c.label("accepted");
  }
}
PBT_SUB("P06.refusal", 30000, 1000000, "parallel trees near a voltage limit, currents up to 20C towards it: refused and unchanged, or accepted and Kirchhoff holds within the safety limits; non-trivial: refused, or accepted with >1 child") { parallelRefusal(c); }

// ---------------------------------------------------------------------------------------------------------------- P07
static void aggregate(Case &c)
{
  PackOpt o;
  o.maxDepth = 3;
  o.maxChildren = 4;
  o.gentle = true;
  o.mixFamilies = true;
  o.dSOC = c.pick({ 0.0, 0.02, 0.2 });
  Pack p = genPack(c, o);
  Node &n = *p.node;
  c.desc << n.show() << "\n";
  // arbitrary leaf states and temperatures
  double maxT = 0;
  for (auto *l : n.leaves()) {
    if (c.b(1, 2)) l->su->setT(KELVIN + c.r(1, 59));
    if (!l->spm && c.b(1, 3)) dynamic_cast<Cell *>(l->su)->setSOC(c.r(0, 1), false, false);
    if (c.b(1, 8)) stressLeaf(c, *l, c.b(1, 2));
  }
  for (auto *m : n.modules())
    if (c.b(1, 2)) m->su->setT(KELVIN + c.r(1, 70));
  const double cap = ratedCap(n);
  // currents: give every leaf of a series string one current, bottom up, without solving the parallel groups
  auto assign = [&](auto &&self, Node &x, double I) -> void {
    if (x.leaf()) {
      x.su->setCurrent(I, false, false);
      return;
    }
    if (x.kind == Node::SERIES)
      for (auto &y : x.ch) self(self, *y, I);
    else
      for (auto &y : x.ch) self(self, *y, I * c.r(-1, 2) / x.ch.size());
  };
  // the currents of the children of a series module must agree; nested parallel splits are made to sum exactly
  auto assign2 = [&](auto &&self, Node &x, double I) -> void {
    if (x.leaf()) {
      x.su->setCurrent(I, false, false);
      return;
    }
    if (x.kind == Node::SERIES) {
      for (auto &y : x.ch) self(self, *y, I);
      return;
    }
    double left = I;
    for (size_t i = 0; i < x.ch.size(); i++) {
      const double share = i + 1 == x.ch.size() ? left : I * c.r(-0.5, 1.5) / x.ch.size();
      self(self, *x.ch[i], share);
      left -= share;
    }
  };
  (void)assign;
  assign2(assign2, n, cap * c.r(-1, 1));
  bool defined = true;
  for (auto *l : n.leaves()) {
    try {
      l->su->getOCV();
      if (!(l->su->V() > 0)) defined = false;
    } catch (int) {
      defined = false;
    }
  }
  if (!defined) c.discard();
  for (auto *m : n.modules()) {
    auto &su = *m->su;
    const std::string id = su.getFullID() + (m->kind == Node::SERIES ? " (series)" : " (parallel)");
    auto cmp = [&](const char *what, double got, double want, double abs) {
      c.check(near(got, want, 1e-9, abs), std::string("P07.") + what, std::string(what) + " of " + id + " is " + num(got) + ", expected " + num(want));
    };
    auto *mod = dynamic_cast<Module *>(m->su);
    const bool pos = m->refV() > 0;
    c.check(su.getNcells() == m->ncells(), "P07.Ncells", "cell count of " + id + " is " + std::to_string(su.getNcells()) + ", expected " + std::to_string(m->ncells()));
    c.check(mod->getNSUs() == m->ch.size(), "P07.NSUs", "number of children of " + id);
    cmp("Cap", su.Cap(), m->refCap(), 0);
    cmp("I", su.I(), m->refI(), 1e-9 * cap);
    cmp("OCV", su.getOCV(), m->refOCV(), 1e-9);
    bool childpos = true;
    for (auto *q : m->modules())
      if (!(q->refV() > 1e-6)) childpos = false;
    if (pos && childpos) cmp("V", su.V(), m->refV(), 1e-8);
    cmp("Rtot", su.getRtot(), m->refR(), 1e-12);
    cmp("Vmin", su.Vmin(), m->refLimit(0), 1e-9);
    cmp("VMIN", su.VMIN(), m->refLimit(1), 1e-9);
    cmp("Vmax", su.Vmax(), m->refLimit(2), 1e-9);
    cmp("VMAX", su.VMAX(), m->refLimit(3), 1e-9);
    double vh = -1e300, vl = 1e300, th = su.T();
    Status worst = Status::Success;
    bool amb = false;
    for (auto *l : m->leaves()) {
      const double v = l->su->V();
      vh = std::max(vh, v), vl = std::min(vl, v);
      th = std::max(th, l->su->T());
      const auto cl = classify(v, l->su->I());
      worst = std::max(worst, cl.st);
      amb = amb || cl.ambiguous;
    }
    for (auto *q : m->modules()) th = std::max(th, q->su->T());
    cmp("Vhigh", su.getVhigh(), vh, 1e-9);
    cmp("Vlow", su.getVlow(), vl, 1e-9);
    cmp("ThotSpot", su.getThotSpot(), th, 1e-9);
    if (!amb) {
      double v;
      const auto st = su.checkVoltage(v, false);
      c.check(st == worst, "P07.checkVoltage", "checkVoltage of " + id + " is " + sname(st) + ", worst cell status is " + sname(worst));
      if (pos && childpos) c.check(near(v, m->refV(), 1e-9, 1e-8), "P07.checkVoltage-v", "checkVoltage reports V=" + num(v) + " instead of " + num(m->refV()));
      c.label("some cell outside its limits", worst != Status::Success);
    }
    c.label("charging/discharging flags", true);
    c.check(su.isCharging() == (m->refI() < 0) || std::fabs(m->refI()) < 1e-9 * cap, "P07.isCharging", "charging flag");
    c.check(su.isDischarging() == (m->refI() > 0) || std::fabs(m->refI()) < 1e-9 * cap, "P07.isDischarging", "discharging flag");
    (void)maxT;
  }
  for (auto *l : n.leaves()) c.check(l->su->getNcells() == 1 && l->su->getParent() != nullptr, "P07.leaf", "a cell in a pack counts as one cell and has a parent");
  // identities run from the top to the cell
  auto ids = [&](auto &&self, Node &x, const std::string &prefix) -> void {
    const std::string full = prefix.empty() ? x.su->getID() : prefix + "_" + x.su->getID();
    c.check(x.su->getFullID() == full, "P07.fullID", "full identity '" + x.su->getFullID() + "' should be '" + full + "'");
    for (auto &y : x.ch) {
      c.check(y->su->getParent() == x.su, "P07.parent", "child's parent is not the module that contains it");
      self(self, *y, full);
    }
  };
  ids(ids, n, "");
  c.nontrivial(n.ncells() >= 2);
  c.label("depth=" + std::to_string(n.depth()));
  c.label("series and parallel", n.has(Node::SERIES) && n.has(Node::PARALLEL));
}
PBT_SUB("P07.aggregate", 120000, 6000000, "random trees (up to three levels) with random cell states, temperatures and currents: every aggregate of every module against the leaves; non-trivial: at least two cells") { aggregate(c); }

int main(int a, char **b) { return pbt::pbtMain(a, b); }
