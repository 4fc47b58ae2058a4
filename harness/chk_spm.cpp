// P02 (model equations), P13 (degradation rate laws), P12 (ageing is one-way and can be switched off): single cells.
#include "spm.hpp"
using namespace vt;

static void compareAll(Case &c, Cell_SPM &cell, const RefSPM &r, const SV &s, const char *after, const char *P)
{
  auto bad = [&](const char *what, double got, double want) {
    c.fail(std::string(P) + "." + what, std::string(what) + " after " + after + ": cell " + num(got) + ", model " + num(want));
  };
  double cp[7], cn[7], rp[7], rn[7];
  cell.getC(cp, cn);
  r.conc(s, rp, rn);
  for (int i = 0; i < 7; i++) {
    if (!near(cp[i], rp[i], 1e-9, 1e-5)) bad("concentration-pos", cp[i], rp[i]);
    if (!near(cn[i], rn[i], 1e-9, 1e-5)) bad("concentration-neg", cn[i], rn[i]);
  }
  if (cell.I() != s[ix::I]) bad("I", cell.I(), s[ix::I]);
  if (cell.T() != s[ix::T]) bad("T", cell.T(), s[ix::T]);
  if (!near(cell.SOC(), s[ix::SOC], 1e-9, 1e-12)) bad("SOC", cell.SOC(), s[ix::SOC]);
  if (!near(cell.getRdc(), r.Rdc(s), 1e-9, 0)) bad("Rdc", cell.getRdc(), r.Rdc(s));
  if (!near(cell.getRtot(), r.Rdc(s), 1e-9, 0)) bad("Rtot", cell.getRtot(), r.Rdc(s));
  if (!near(cell.getAnodeSurface(), s[ix::an] * s[ix::thickn] * r.p.elec, 1e-9, 0)) bad("anode surface", cell.getAnodeSurface(), s[ix::an] * s[ix::thickn] * r.p.elec);
  if (r.nearEdge(s, 1e-7)) return;
  double a, b;
  const bool ok = cell.getCSurf(a, b, false);
  if (ok != r.inside(s)) bad("surface-flag", ok, r.inside(s));
  if (!near(a, rp[0], 1e-9, 1e-5)) bad("surface-pos", a, rp[0]);
  if (!near(b, rn[0], 1e-9, 1e-5)) bad("surface-neg", b, rn[0]);
  if (r.inside(s)) {
    if (std::fabs(cell.V() - r.V(s)) > 1e-7) bad("V", cell.V(), r.V(s));
    if (std::fabs(cell.getOCV() - r.OCV(s)) > 1e-7) bad("OCV", cell.getOCV(), r.OCV(s));
    auto cl = classify(r.V(s), s[ix::I], VminN, VmaxN, VminS, VmaxS, 1e-6);
    double v = 0;
    const auto st = cell.checkVoltage(v, false);
    if (!cl.ambiguous && st != cl.st) c.fail(std::string(P) + ".checkVoltage", std::string("checkVoltage at ") + num(r.V(s)) + " V, I=" + num(s[ix::I]) + " -> " + sname(st) + ", expected " + sname(cl.st));
  } else {
    if (cell.V() > 0) bad("V-outside", cell.V(), 0);
    double v = 0;
    const auto st = cell.checkVoltage(v, false);
    if (st != Status::V_not_calculated) c.fail(std::string(P) + ".outside-status", std::string("surface concentration outside the particle, yet checkVoltage -> ") + sname(st));
  }
}
static std::string showS(const SV &s)
{
  std::string o;
  for (size_t i = 0; i < s.size(); i++) o += std::string(i ? " " : "") + ixName(i) + "=" + num6(s[i]);
  return o;
}

PBT_SUB("P02.state", 40000, 1500000, "random admissible and inadmissible internal states, currents and temperatures: all algebraic outputs against the equations; every case non-trivial")
{
  SpmPar p = genSpmPar(c);
  RefSPM r(p);
  auto cell = makeSPM(p);
  SpmGen g;
  if (c.b(1, 3)) g.lo = -0.05, g.hi = 1.05;
  SV s = genSpmState(c, r, g);
  c.desc << showS(s);
  if (c.b(1, 2)) install(*cell, s);
  else {
    std::span<double> sp{ s };
    const auto st = cell->setStates(sp, false, false);
    if (!r.nearEdge(s, 1e-7)) {
      c.check(isStatusOK(st) == r.inside(s), "P02.setStates", std::string("state with surface concentrations ") + (r.inside(s) ? "inside" : "outside") + " the particle -> " + sname(st));
      c.check(sp.empty() , "P02.setStates-consumed", "setStates did not consume exactly one state vector");
    }
    if (isStatusBad(st)) { c.nontrivial(); return; }
  }
  compareAll(c, *cell, r, s, "installing a state", "P02");
  c.nontrivial();
  c.label("outside", !r.inside(s));
}

PBT_SUB("P02.step", 30000, 1000000, "constant-current steps from random states, against forward-Euler integration of the diffusion equations; non-trivial: non-zero current or a non-uniform profile, positive length")
{
  SpmPar p = genSpmPar(c);
  RefSPM r(p);
  auto cell = makeSPM(p);
  SpmGen g;
  g.lo = 0.1, g.hi = 0.9;
  SV s = genSpmState(c, r, g);
  install(*cell, s);
  const bool block = c.b();
  cell->setBlockDegAndTherm(block);
  const int calls = (int)c.i(1, 6);
  c.desc << showS(s) << "\nblocked=" << block;
  for (int k = 0; k < calls; k++) {
    c.step();
    if (k && c.b(1, 3)) {
      s[ix::I] = p.cap * c.r(-2, 2);
      cell->setCurrent(s[ix::I], false, false);
      c.desc << " setCurrent(" << num(s[ix::I]) << ")";
    }
    if (k && c.b(1, 5)) {
      s[ix::T] = KELVIN + c.r(1, 59);
      cell->setT(s[ix::T]);
      c.desc << " setT(" << num(s[ix::T]) << ")";
    }
    const double dt = c.pick({ 1.0, 0.5, 2.0, 0.1, 0.01, 5.0 });
    const int n = (int)c.pick({ 1, 2, 3, 10, 30 });
    c.desc << " timeStep_CC(" << dt << "," << n << ")";
    if (!r.stable(s, dt)) {
      c.label("unstable step skipped");
      break;
    }
    SV before = s;
    for (int q = 0; q < n; q++) r.diffuse(s, dt);
    if (!r.inside(s) || r.nearEdge(s, 1e-6)) {
      c.label("left the particle");
      break;
    }
    cell->timeStep_CC(dt, n);
    auto got = states(*cell);
    for (size_t i = 0; i < got.size(); i++) {
      if (i == ix::V || i == ix::Wh) continue;
      const double sc = (i >= ix::zp && i < ix::zp + 10) ? 1e-12 * std::fabs(s[i < ix::zn ? ix::zp + 3 : ix::zn + 3]) : 1e-14;
      if (!near(got[i], s[i], 1e-9, sc)) c.fail(std::string("P02.step-") + ixName(i), std::string(ixName(i)) + " after steps: cell " + num(got[i]) + ", equations " + num(s[i]) + " (before " + num(before[i]) + ")");
    }
    compareAll(c, *cell, r, s, "time steps", "P02");
    c.nontrivial(s[ix::I] != 0);
  }
}

PBT_SUB("P02.history", 3000, 100000, "long constant-current histories on a fresh cell, shadowed by the reference; non-trivial: at least 100 steps")
{
  SpmPar p = genSpmPar(c);
  RefSPM r(p);
  auto cell = makeSPM(p);
  SV s = r.fresh();
  int steps = 0;
  if (c.b(1, 2)) {
    const double a = c.r(0.1, 0.9), b = c.r(0.1, 0.9);
    cell->setC(a, b);
    double cp[5], cn[5];
    for (int i = 0; i < 5; i++) cp[i] = a * p.Cmaxp, cn[i] = b * p.Cmaxn;
    r.setProfile(s, cp, cn);
    c.desc << "setC(" << num(a) << "," << num(b) << ") ";
    compareAll(c, *cell, r, s, "setC", "P02");
  }
  compareAll(c, *cell, r, s, "construction", "P02");
  for (int k = 0; k < 12; k++) {
    const double I = c.b(1, 5) ? 0 : p.cap * c.r(-1.5, 1.5);
    cell->setCurrent(I, false, false);
    s[ix::I] = I;
    const double dt = c.pick({ 1.0, 2.0, 0.5 });
    const int n = (int)c.pick({ 1, 20, 100, 300 });
    c.desc << "I=" << num6(I) << " " << dt << "x" << n << "; ";
    SV t = s;
    bool ok = r.stable(s, dt);
    for (int q = 0; q < n && ok; q++) r.diffuse(t, dt), ok = r.inside(t) && !r.nearEdge(t, 1e-5);
    if (!ok) continue;
    s = t;
    cell->timeStep_CC(dt, n);
    steps += n;
    c.step();
    compareAll(c, *cell, r, s, "history", "P02");
    auto got = states(*cell);
    for (size_t i : { ix::time, ix::Ah, ix::Wh, ix::SOC })
      if (!near(got[i], s[i], 1e-7, 1e-9)) c.fail(std::string("P02.hist-") + ixName(i), std::string(ixName(i)) + ": cell " + num(got[i]) + ", equations " + num(s[i]));
  }
  c.nontrivial(steps >= 100);
}

PBT_SUB("P02.params", 20000, 400000, "cells whose characterisation, geometry or maximum concentrations were changed by the public setters; every case non-trivial")
{
  SpmPar p = genSpmPar(c);
  RefSPM r(p);
  auto cell = makeSPM(p);
  SpmGen g;
  g.lo = 0.15, g.hi = 0.85;
  g.aged = false;
  SV s = genSpmState(c, r, g);
  install(*cell, s);
  const int n = (int)c.i(1, 4);
  for (int k = 0; k < n; k++) {
    if (c.b()) (void)(r.inside(s) ? cell->V() : 0); // have a voltage computed before the change
    switch (c.i(0, 3)) {
    case 0: {
      const double Dp = c.rlog(2e-14, 2e-13), Dn = c.rlog(2e-14, 2e-13), kp = c.rlog(1e-11, 1e-10), kn = c.rlog(5e-12, 5e-11), R = c.rlog(1e-3, 2e-2);
      c.desc << "setCharacterisationParam(" << num(Dp) << "," << num(Dn) << "," << num(kp) << "," << num(kn) << "," << num(R) << ") ";
      cell->setCharacterisationParam(Dp, Dn, kp, kn, R);
      r.p.kp = kp, r.p.kn = kn, s[ix::Dp] = Dp, s[ix::Dn] = Dn;
      s[ix::rDCp] = s[ix::rDCn] = R * (s[ix::thickp] * s[ix::ap] + s[ix::thickn] * s[ix::an]) * r.p.elec / 2;
      break;
    }
    case 1: {
      const double cap = c.r(1, 30), su = c.r(0.1, 1.5), ep = c.r(0.3, 0.6), en = c.r(0.3, 0.6), tp = c.r(4e-5, 1e-4), tn = c.r(4e-5, 1e-4);
      c.desc << "setGeometricParameters(" << num(cap) << "," << num(su) << "," << num(ep) << "," << num(en) << "," << num(tp) << "," << num(tn) << ") ";
      cell->setGeometricParameters(cap, su, ep, en, tp, tn);
      r.p.cap = cap, r.p.elec = su;
      s[ix::ep] = ep, s[ix::en] = en, s[ix::ap] = 3 * ep / r.Rp, s[ix::an] = 3 * en / r.Rn, s[ix::thickp] = tp, s[ix::thickn] = tn;
      c.check(near(cell->Cap(), cap, 1e-12, 0), "P02.setGeom-cap", "capacity not installed");
      break;
    }
    case 2: {
      const double a = c.r(0.1, 0.9), b = c.r(0.1, 0.9), cmp = c.r(4e4, 6e4), cmn = c.r(2.5e4, 3.5e4);
      c.desc << "setInitialConcentration(" << num(cmp) << "," << num(cmn) << "," << num(a) << "," << num(b) << ") ";
      cell->setInitialConcentration(cmp, cmn, a, b);
      r.p.Cmaxp = cmp, r.p.Cmaxn = cmn;
      double cp[5], cn[5];
      for (int i = 0; i < 5; i++) cp[i] = a * cmp, cn[i] = b * cmn;
      r.setProfile(s, cp, cn);
      s[ix::I] = 0;
      break;
    }
    default: {
      const double Dp = c.rlog(2e-14, 2e-13), Dn = c.rlog(2e-14, 2e-13), ri = c.rlog(1e-3, 1e-2);
      c.desc << "overwriteCharacterisationStates ";
      cell->overwriteCharacterisationStates(Dp, Dn, ri);
      s[ix::Dp] = Dp, s[ix::Dn] = Dn, s[ix::rDCp] = s[ix::rDCn] = ri;
    }
    }
    compareAll(c, *cell, r, s, "changing parameters", "P02");
  }
  c.nontrivial();
}

// ------------------------------------------------------------------------------------------------------------------ P13
static void degSteps(Case &c, DEG_ID deg, const char *P)
{
  SpmPar p = genSpmPar(c);
  p.deg = deg;
  RefSPM r(p);
  auto cell = makeSPM(p);
  SpmGen g;
  g.lo = 0.05, g.hi = 0.95;
  SV s = genSpmState(c, r, g);
  c.desc << "models " << p.deg.print() << " cap " << num6(p.cap) << "\n"
         << showS(s) << "\n";
  install(*cell, s);
  bool haveStress = false;
  double psp = 0, psn = 0, psl = 0;
  const int calls = (int)c.i(2, 5);
  for (int k = 0; k < calls; k++) {
    c.step();
    if (k && c.b(1, 2)) {
      s[ix::I] = c.b(1, 6) ? 0 : p.cap * c.r(-2, 2);
      cell->setCurrent(s[ix::I], false, false);
      c.desc << " setCurrent(" << num(s[ix::I]) << ")";
    }
    if (k && c.b(1, 4)) {
      s[ix::T] = KELVIN + c.r(1, 59);
      cell->setT(s[ix::T]);
      c.desc << " setT(" << num(s[ix::T]) << ")";
    }
    const double dt = c.pick({ 1.0, 0.5, 2.0, 0.1 });
    const int n = (int)c.pick({ 1, 2, 5, 20 });
    const double h = dt * n;
    if (!r.stable(s, dt)) break;
    c.desc << " timeStep_CC(" << dt << "," << n << ")";
    SV mid = s;
    for (int q = 0; q < n; q++) r.diffuse(mid, dt);
    if (!r.inside(mid) || r.nearEdge(mid, 1e-5)) break;
    double sp, sn, sl = r.lares(mid);
    double rg[4];
    r.dai(mid, sp, sn, rg);
    const bool tie = std::fabs(rg[0] + rg[1]) < 1e-6 || std::fabs(rg[2] + rg[3]) < 1e-6; // largest pressure and largest tension equal: either sign is right
    const double e = 1e-9;
    auto lo = [&](double a, double b) { return std::max(0.0, std::fabs(a - b) - e); };
    auto hi = [&](double a, double b) { return std::fabs(a - b) + e; };
    const auto rl = r.rates(mid, lo(sp, psp), lo(sn, psn), lo(sl, psl), h), rh = r.rates(mid, hi(sp, psp), hi(sn, psn), hi(sl, psl), h);
    const SV il = r.increments(mid, rl, h), ih = r.increments(mid, rh, h);
    cell->timeStep_CC(dt, n);
    const SV got = states(*cell);
    const bool needStress = usesStress(deg);
    if ((haveStress && !tie) || !needStress) {
      for (size_t i = 0; i < ix::time; i++) {
        if (i == ix::V || i == ix::I || i == ix::T || i == ix::SOC) continue;
        const double a = std::min(il[i], ih[i]), b = std::max(il[i], ih[i]);
        double scale = std::fabs(mid[i]);
        if (i >= ix::zp && i < ix::zp + 5) scale = std::fabs(mid[ix::zp + 3]);
        if (i >= ix::zn && i < ix::zn + 5) scale = std::fabs(mid[ix::zn + 3]); // the diffusion itself is known to 1e-13 of the concentration only
        const double tol = 1e-6 * std::max(std::fabs(a), std::fabs(b)) + ((i >= ix::zp && i < ix::zp + 10) ? 1e-12 : 1e-15) * scale;
        const double inc = got[i] - mid[i];
        if (inc < a - tol || inc > b + tol)
          c.fail(std::string(P) + "." + ixName(i), std::string("change of ") + ixName(i) + " in " + num(h) + " s: cell " + num(inc) + ", rate laws " + num(0.5 * (a + b)) + " (models " + p.deg.print() + ", I=" + num(s[ix::I]) + ")");
      }
      bool any = false;
      for (size_t i = 0; i < ix::time; i++) any |= std::fabs(il[i]) + std::fabs(ih[i]) > 0;
      c.nontrivial(any);
    }
    haveStress = !tie;
    psp = sp, psn = sn, psl = sl;
    s = got;
  }
}
PBT_SUB("P13.single", 40000, 1500000, "one degradation model at a time, random state/temperature/current history: every state increment against the rate law; non-trivial: some rate is non-zero")
{
  DEG_ID d;
  const int k = (int)c.i(0, 15);
  if (k < 4) d.SEI_id.add_model(k + 1);
  else if (k < 9) d.CS_id.add_model(k - 3);
  else if (k < 13) d.LAM_id.add_model(k - 8);
  else if (k == 13) d.pl_id = 1;
  else if (k == 14) d.SEI_id.add_model(c.i(1, 4)), d.SEI_porosity = 1;
  else d.CS_id.add_model(c.i(1, 5)), d.CS_diffusion = 1;
  c.label("model " + std::to_string(k));
  degSteps(c, d, "P13");
}
PBT_SUB("P13.combo", 40000, 1500000, "random combinations of degradation models (contributions add), as above") { degSteps(c, genDeg(c), "P13"); }
PBT_SUB("P13.unknown", 3000, 20000, "an unknown model identifier is refused with an exception; every case non-trivial")
{
  DEG_ID d = genDeg(c, true, 1);
  const int bad = (int)c.i(6, 200);
  const int w = (int)c.i(0, 5);
  if (w == 0) d.SEI_id.add_model(bad);
  if (w == 1) d.CS_id.add_model(bad);
  if (w == 2) d.LAM_id.add_model(bad);
  if (w == 3) d.SEI_porosity = bad;
  if (w == 4) d.CS_diffusion = bad;
  if (w == 5) d.pl_id = bad;
  SpmPar p;
  p.deg = d;
  auto cell = makeSPM(p);
  c.desc << d.print();
  const int e = caughtInt([&] { cell->timeStep_CC(1, 1); });
  c.check(e != -1, "P13.unknown", "unknown degradation model " + d.print() + " was silently accepted");
  c.nontrivial();
}
PBT_SUB("P13.stress", 30000, 600000, "Dai stress profiles against the published formulas evaluated on the concentration profile; non-trivial: non-uniform profile")
{
  SpmPar p = genSpmPar(c);
  RefSPM r(p);
  auto cell = makeSPM(p);
  SpmGen g;
  g.lo = 0.2, g.hi = 0.8;
  SV s = genSpmState(c, r, g);
  install(*cell, s);
  c.desc << showS(s);
  double sp, sn, a, b, l;
  Cell_SPM::sigma_type rp, rn, tp, tn, hp, hn;
  cell->getDaiStress(&a, &b, rp, rn, tp, tn, hp, hn);
  double rg[4];
  r.dai(s, sp, sn, rg);
  auto hit = [&](double got, double want, double lo, double hi) { return near(got, want, 1e-7, 1e-8) || (std::fabs(lo + hi) < 1e-7 && near(std::fabs(got), std::fabs(want), 1e-7, 1e-8)); };
  c.check(hit(a, sp, rg[0], rg[1]), "P13.dai-p", "largest hydrostatic stress, positive particle: " + num(a) + ", formula " + num(sp));
  c.check(hit(b, sn, rg[2], rg[3]), "P13.dai-n", "largest hydrostatic stress, negative particle: " + num(b) + ", formula " + num(sn));
  // at the free surface the radial stress vanishes; at the centre radial and tangential stress coincide
  c.check(std::fabs(rp[0]) < 1e-7 && std::fabs(rn[0]) < 1e-7, "P13.dai-surface", "radial stress at the surface is " + num(rp[0]) + "/" + num(rn[0]) + ", should vanish");
  c.check(rp[6] == tp[6] && rn[6] == tn[6], "P13.dai-centre", "radial and tangential stress differ at the centre");
  if (r.inside(s)) {
    cell->getLaresgoitiStress(false, &l);
    c.check(near(l, r.lares(s), 1e-9, 1e-9), "P13.lares", "Laresgoiti stress " + num(l) + ", figure " + num(r.lares(s)));
  }
  c.nontrivial(std::fabs(sp) + std::fabs(sn) > 1e-6);
}

// ------------------------------------------------------------------------------------------------------------------ P12
static const size_t GROW[] = { ix::delta, ix::LLI, ix::CS, ix::dpl }, SHRINK[] = { ix::thickp, ix::thickn, ix::ep, ix::Dp, ix::Dn, ix::ap };
static const size_t DEGSTATES[] = { ix::delta, ix::LLI, ix::CS, ix::dpl, ix::thickp, ix::thickn, ix::ep, ix::en, ix::Dp, ix::Dn, ix::ap, ix::an, ix::rDCp, ix::rDCn, ix::rDCcc };

PBT_SUB("P12.monotone", 30000, 800000, "random model combinations and histories of charge, discharge, rest, zero-length steps and temperature changes: no ageing state ever reverses or becomes invalid; non-trivial: at least one model selected")
{
  SpmPar p = genSpmPar(c);
  p.deg = genDeg(c);
  RefSPM r(p);
  auto cell = makeSPM(p);
  SpmGen g;
  g.lo = 0.1, g.hi = 0.9;
  SV s = genSpmState(c, r, g);
  install(*cell, s);
  c.desc << "models " << p.deg.print() << "\n" << showS(s) << "\n";
  const int calls = (int)c.i(1, 12);
  for (int k = 0; k < calls; k++) {
    c.step();
    if (c.b(1, 2)) {
      const double I = c.b(1, 4) ? 0 : p.cap * c.r(-2, 2);
      cell->setCurrent(I, false, false);
      c.desc << " setCurrent(" << num(I) << ")";
    }
    if (c.b(1, 6)) cell->setT(KELVIN + c.r(1, 59));
    const double dt = c.pick({ 1.0, 0.5, 0.0, 2.0, 0.1 });
    const int n = (int)c.pick({ 1, 5, 20, 0, 100 });
    SV before = states(*cell), mid = before;
    if (!r.stable(before, dt)) break;
    bool physical = true; // forward Euler can overshoot zero when nothing is left; such states are outside the model
    for (size_t i : { ix::thickp, ix::thickn, ix::ep, ix::en, ix::ap, ix::an, ix::Dp, ix::Dn }) physical &= before[i] > 0;
    if (!physical) {
      c.label("electrode used up");
      break;
    }
    c.desc << " timeStep_CC(" << dt << "," << n << ")";
    for (int q = 0; q < n; q++) r.diffuse(mid, dt);
    if (!r.inside(mid) || r.nearEdge(mid, 1e-4)) break;
    cell->timeStep_CC(dt, n);
    const SV after = states(*cell);
    for (size_t i : GROW)
      if (!(after[i] >= before[i])) c.fail(std::string("P12.shrank-") + ixName(i), std::string(ixName(i)) + " went from " + num(before[i]) + " to " + num(after[i]) + " in timeStep_CC(" + num(dt) + "," + std::to_string(n) + ")");
    for (size_t i : SHRINK)
      if (!(after[i] <= before[i])) c.fail(std::string("P12.grew-") + ixName(i), std::string(ixName(i)) + " went from " + num(before[i]) + " to " + num(after[i]) + " in timeStep_CC(" + num(dt) + "," + std::to_string(n) + ")");
    // anode volume fraction: the porosity correlation also has a reversible part proportional to the current
    const double breathe = p.deg.SEI_porosity ? std::fabs(2.25e-6 * 13 * r.jn(mid) * dt * n) * (1 + 1e-9) + 1e-16 : 0;
    if (!(after[ix::en] <= before[ix::en] + breathe)) c.fail("P12.grew-en", "en went from " + num(before[ix::en]) + " to " + num(after[ix::en]) + ", reversible part " + num(breathe));
    if (!(after[ix::an] <= before[ix::an] + 3 / r.Rn * breathe + 1e-9 * (breathe > 0))) c.fail("P12.grew-an", "an went from " + num(before[ix::an]) + " to " + num(after[ix::an]));
    for (size_t i : { ix::rDCp, ix::rDCn, ix::rDCcc }) c.check(after[i] == before[i], "P12.resistance", "a specific resistance changed");
    if (dt * n == 0)
      for (size_t i = 0; i < after.size(); i++)
        if (i != ix::V && !(after[i] == before[i])) c.fail("P12.zero-step", std::string("a zero-length step changed ") + ixName(i) + " from " + num(before[i]) + " to " + num(after[i]));
  }
  c.nontrivial(p.any());
}

PBT_SUB("P12.off", 20000, 400000, "no model selected, or ageing blocked with models selected: no ageing state changes at all and the cell behaves bit-identically to a cell without models; non-trivial: models selected and non-zero current")
{
  SpmPar p = genSpmPar(c), q = p;
  p.deg = genDeg(c);
  RefSPM r(p);
  auto aged = makeSPM(p), plain = makeSPM(q);
  SpmGen g;
  g.lo = 0.15, g.hi = 0.85;
  SV s = genSpmState(c, r, g);
  install(*aged, s), install(*plain, s);
  aged->setBlockDegAndTherm(true);
  c.desc << "models " << p.deg.print() << " blocked\n" << showS(s) << "\n";
  bool moved = false;
  for (int k = 0, m = (int)c.i(1, 8); k < m; k++) {
    c.step();
    const double I = c.b(1, 4) ? 0 : p.cap * c.r(-2, 2);
    aged->setCurrent(I, false, false), plain->setCurrent(I, false, false);
    const double dt = c.pick({ 1.0, 0.5, 2.0 });
    const int n = (int)c.pick({ 1, 5, 20, 50 });
    c.desc << " I=" << num(I) << " timeStep_CC(" << dt << "," << n << ")";
    SV mid = states(*aged);
    if (!r.stable(mid, dt)) break;
    for (int z = 0; z < n; z++) r.diffuse(mid, dt);
    if (!r.inside(mid) || r.nearEdge(mid, 1e-4)) break;
    aged->timeStep_CC(dt, n), plain->timeStep_CC(dt, n);
    SV a = states(*aged), b = states(*plain);
    for (size_t i : DEGSTATES) {
      c.check(a[i] == s[i], "P12.blocked", std::string("ageing is blocked but ") + ixName(i) + " changed from " + num(s[i]) + " to " + num(a[i]));
      c.check(b[i] == s[i], "P12.none", std::string("no model is selected but ") + ixName(i) + " changed from " + num(s[i]) + " to " + num(b[i]));
    }
    a[ix::V] = b[ix::V] = 0;
    c.check(same(a, b), "P12.blocked-behaviour", "a blocked cell and a cell without models differ: " + diff(a, b));
    c.check(aged->V() == plain->V(), "P12.blocked-V", "voltages of a blocked cell and a cell without models differ: " + num(aged->V()) + " vs " + num(plain->V()));
    moved |= I != 0;
  }
  c.nontrivial(moved && p.any());
}
int main(int a, char **b) { return pbt::pbtMain(a, b); }
