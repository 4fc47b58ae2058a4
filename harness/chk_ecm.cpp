// P01: equivalent-circuit and bucket cells against an independent circuit model, over histories of public operations.
#include "common.hpp"
using namespace vt;

template <size_t N>
static void ecmHistory(Case &c)
{
  RefECM m;
  m.p = genEcmPar(c, N);
  m.SOC = c.pick({ 0.5, 0.2, 0.8, 0.95, 0.05 });
  if (c.b(1, 3)) m.SOC = c.r(0, 1);
  auto cell = makeECM<N>(m.p, m.SOC);
  c.desc << show(m.p) << " SOC0=" << num6(m.SOC) << "\n";
  const int nops = (int)c.i(1, c.thorough ? 60 : 25);
  int steps = 0, nonzero = 0;
  double scaleI = m.p.cap;
  auto compare = [&](const char *after) {
    auto th = cell->getThroughputs();
    auto bad = [&](const char *what, double got, double want) {
      c.fail(std::string("P01.") + what, std::string(what) + " after " + after + ": cell " + num(got) + ", circuit " + num(want));
    };
    const double rt = 1e-9;
    if (cell->I() != m.I) bad("current", cell->I(), m.I);
    if (!near(cell->SOC(), m.SOC, rt, 1e-10)) bad("SOC", cell->SOC(), m.SOC);
    if (!near(cell->T(), m.T, 1e-12, 0)) bad("T", cell->T(), m.T);
    for (size_t k = 0; k < N; k++)
      if (!near(cell->getStateObj().Ir(k), m.Ir[k], rt, 1e-9 * scaleI)) bad("branch-current", cell->getStateObj().Ir(k), m.Ir[k]);
    if (!near(cell->getRtot(), m.p.Rdc, rt, 0)) bad("resistance", cell->getRtot(), m.p.Rdc);
    if (!near(cell->Cap(), m.p.cap, rt, 0)) bad("capacity", cell->Cap(), m.p.cap);
    if (!near(th.time(), m.time, rt, 1e-9)) bad("time", th.time(), m.time);
    if (!near(th.Ah(), m.Ah, rt, 1e-12)) bad("Ah", th.Ah(), m.Ah);
    if (th.Wh() < m.WhLo * (1 - 1e-9) - 1e-9 || th.Wh() > m.WhHi * (1 + 1e-9) + 1e-9) bad("Wh", th.Wh(), 0.5 * (m.WhLo + m.WhHi));
    if (!m.socEdge()) {
      const double vtol = 1e-9 * (5 + std::fabs(m.p.Rdc * m.I) + std::fabs(m.drops()));
      if (std::fabs(cell->V() - m.V()) > vtol) bad("V", cell->V(), m.V());
      if (m.socOk()) {
        if (!near(cell->getOCV(), ecmOCV(m.SOC), 1e-9, 0)) bad("OCV", cell->getOCV(), ecmOCV(m.SOC));
      } else if (caughtInt([&] { cell->getOCV(); }) == -1)
        c.fail("P01.OCV-outside", "getOCV returned a value at SOC " + num(m.SOC));
    }
  };
  compare("construction");
  for (int k = 0; k < nops; k++) {
    c.step();
    const int op = c.weighted({ 6, 6, 1, 1, 1, 2, 1 });
    if (op == 0) { // current
      const double I = c.b(1, 8) ? 0.0 : scaleI * c.r(-3, 3);
      const bool chk = !c.b(1, 4);
      c.desc << "setCurrent(" << num(I) << "," << chk << ")";
      const double keep = m.I;
      m.I = I;
      const auto cl = classify(m.V(), I);
      const auto st = cell->setCurrent(I, chk, false);
      c.desc << "->" << sname(st) << "\n";
      if (chk && (cl.ambiguous || m.socEdge())) {
        if (isStatusBad(st)) m.I = keep;
      } else if (chk && isStatusBad(cl.st))
        m.I = keep;
      compare("setCurrent");
    } else if (op == 1) { // steps
      double dt = genDt(c);
      int n = (int)c.pick({ 1, 2, 7, 20, 100 });
      if (N > 0) { // keep the explicit integration stable
        double im = 0;
        for (size_t j = 0; j < N; j++) im = std::max(im, m.p.itau[j]);
        if (dt * im > 0.5) dt = 0.5 / im;
      }
      c.desc << "timeStep_CC(" << num(dt) << "," << n << ")\n";
      cell->timeStep_CC(dt, n);
      m.step(dt, n);
      steps += n;
      if (m.I != 0 && dt > 0) nonzero++;
      compare("timeStep_CC");
    } else if (op == 2) { // SOC
      const double s = c.b(1, 4) ? c.pick({ -0.1, 1.1, 1.0000001, -1e-9, 2.0 }) : c.r(0, 1);
      c.desc << "setSOC(" << num(s) << ")\n";
      const auto st = cell->setSOC(s, false, false);
      if (s >= 0 && s <= 1) m.SOC = s;
      c.check((st == Status::SOC_limits_violation) == (s < 0 || s > 1), "P01.setSOC-status", std::string("setSOC(") + num(s) + ") -> " + sname(st));
      compare("setSOC");
    } else if (op == 3) { // temperature
      const double T = KELVIN + c.r(1, 59);
      cell->setT(T);
      m.T = T;
      c.desc << "setT(" << num(T) << ")\n";
      compare("setT");
    } else if (op == 4) { // negative time is refused
      const double dt = -c.pick({ 1.0, 1e-6, 100.0 });
      const auto before = states(*cell);
      const int e = caughtInt([&] { cell->timeStep_CC(dt, 1); });
      c.desc << "timeStep_CC(" << num(dt) << ") threw " << e << "\n";
      c.check(e != -1, "P01.negative-time", "a negative time step was accepted");
      c.check(same(before, states(*cell)), "P01.negative-time-state", "a refused negative time step changed the state: " + diff(before, states(*cell)));
    } else if (op == 5) { // voltage
      const double V = c.r(2.2, 4.25);
      if (!m.socOk() || m.socEdge()) continue;
      const double keep = m.I;
      m.I = (ecmOCV(m.SOC) - m.drops() - V) / m.p.Rdc;
      const auto cl = classify(V, m.I);
      const auto st = cell->setVoltage(V, true, false);
      c.desc << "setVoltage(" << num(V) << ")->" << sname(st) << "\n";
      if (cl.ambiguous ? isStatusBad(st) : isStatusBad(cl.st)) m.I = keep;
      const double tolI = 1e-9 * (1 + std::fabs(m.I)) + 1e-12 / m.p.Rdc;
      c.check(std::fabs(cell->I() - m.I) <= tolI, "P01.setVoltage-current", "setVoltage(" + num(V) + ") gives I=" + num(cell->I()) + ", circuit " + num(m.I));
      m.I = cell->I();
      compare("setVoltage");
    } else { // state round trip through a fresh cell of the same parameters
      auto s = states(*cell);
      std::span<double> sp{ s };
      auto other = makeECM<N>(m.p, 0.5);
      const auto st = other->setStates(sp, false, false);
      if (m.socOk() && !m.socEdge()) {
        c.check(isStatusOK(st) && same(s, states(*other)), "P01.transplant", std::string("moving the state to an identical cell: ") + sname(st) + " " + diff(s, states(*other)));
        cell = std::move(other);
        compare("state transplant");
      }
    }
  }
  c.nontrivial(nonzero > 0 && (N == 0 || true));
  c.label("branches=" + std::to_string(N));
  c.label("left SOC range", !m.socOk());
  c.label("long", steps > 200);
}

PBT_SUB("P01.bucket", 50000, 1500000, "history of public operations on a bucket cell vs the circuit; non-trivial: at least one non-zero-current step of positive length") { ecmHistory<0>(c); }
PBT_SUB("P01.ecm1", 50000, 1500000, "as above, one RC branch") { ecmHistory<1>(c); }
PBT_SUB("P01.ecm2", 50000, 1500000, "as above, two RC branches with different time constants") { ecmHistory<2>(c); }
PBT_SUB("P01.ecm3", 40000, 1000000, "as above, three RC branches") { ecmHistory<3>(c); }

template <size_t N>
static void ctor(Case &c)
{
  const double cap = c.rlog(0.01, 1000), soc = c.b(1, 2) ? c.r(0, 1) : c.pick({ 0.0, 1.0, -0.01, 1.01, -1e-12, 1 + 1e-12, 5.0, -3.0 });
  EcmPar p = genEcmPar(c, N);
  p.cap = cap;
  const int form = (int)c.i(0, 3);
  c.desc << "constructor form " << form << " " << show(p) << " SOC=" << num(soc);
  std::array<double, N> Rp{}, it{};
  for (size_t k = 0; k < N; k++) Rp[k] = p.Rp[k], it[k] = p.itau[k];
  std::unique_ptr<Cell_ECM<N>> x;
  const int e = caughtInt([&] {
    if (form == 0) x = std::make_unique<Cell_ECM<N>>(cap, soc);
    if (form == 1) x = std::make_unique<Cell_ECM<N>>("idA", cap, soc);
    if (form == 2) x = std::make_unique<Cell_ECM<N>>(cap, soc, p.Rdc, Rp, it);
    if (form == 3) x = std::make_unique<Cell_ECM<N>>("idA", cap, soc, p.Rdc, Rp, it);
  });
  const bool legal = soc >= 0 && soc <= 1;
  c.check((e == -1) == legal, "P01.ctor-SOC", legal ? "legal SOC refused" : "SOC outside 0..1 accepted by a constructor");
  if (!legal) {
    c.nontrivial();
    return;
  }
  c.check(x->Cap() == cap && x->SOC() == soc && x->I() == 0 && x->T() == TENV, "P01.ctor-values", "constructor did not install capacity/SOC, or does not start at rest at ambient");
  c.check(x->getID() == ((form & 1) ? std::string("idA") : "Cell_ECM<" + std::to_string(N) + ">") || !(form & 1), "P01.ctor-id", "identity not installed");
  auto th = x->getThroughputs();
  c.check(th.time() == 0 && th.Ah() == 0 && th.Wh() == 0, "P01.ctor-throughput", "throughput does not start at zero");
  for (size_t k = 0; k < N; k++) c.check(x->getStateObj().Ir(k) == 0, "P01.ctor-branch", "branch current does not start at zero");
  if (form >= 2) c.check(x->getRtot() == p.Rdc, "P01.ctor-R", "resistance not installed");
  // a current pulse shows the branch parameters
  if (form < 2) {
    EcmPar d;
    p.Rdc = d.Rdc;
    for (size_t k = 0; k < N; k++) p.Rp[k] = (N == 2 || k < 1) ? d.Rp[k] : 0, p.itau[k] = (N == 2 || k < 1) ? d.itau[k] : 0;
  }
  RefECM m;
  m.p = p;
  m.SOC = soc;
  m.I = cap * c.r(-0.2, 0.2);
  x->setCurrent(m.I, false, false);
  double im = 1e-3;
  for (size_t k = 0; k < N; k++) im = std::max(im, p.itau[k]);
  const double dt = 0.3 / im / 3;
  x->timeStep_CC(dt, 3);
  m.step(dt, 3);
  if (m.socOk() && !m.socEdge())
    c.check(near(x->V(), m.V(), 1e-9, 1e-9), "P01.ctor-dynamics", "after a pulse V=" + num(x->V()) + ", circuit " + num(m.V()));
  c.nontrivial();
}
PBT_SUB("P01.ctor", 40000, 600000, "constructors with legal and illegal SOC, then a pulse; every case non-trivial")
{
  switch (c.i(0, 3)) {
  case 0: return ctor<0>(c);
  case 1: return ctor<1>(c);
  case 2: return ctor<2>(c);
  default: return ctor<3>(c);
  }
}
int main(int a, char **b) { return pbt::pbtMain(a, b); }
