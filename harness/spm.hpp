// An independent single-particle model: reads the data files itself and evaluates the published equations on a state vector.
#pragma once
#include "common.hpp"

namespace vt {
constexpr double F_ = 96487, RG = 8.314, TREF = 273.0 + 25.0;

// The layout of the saved vector of a single-particle cell, as documented in State_SPM.hpp
namespace ix {
using S = State_SPM;
constexpr size_t I = S::i_I, V = S::i_V, T = S::i_T, delta = S::i_delta, LLI = S::i_LLI, thickp = S::i_thickp, thickn = S::i_thickn, ep = S::i_ep, en = S::i_en, ap = S::i_ap, an = S::i_an, CS = S::i_CS, Dp = S::i_Dp, Dn = S::i_Dn,
                 dpl = S::i_delta_pl, zp = S::i_zp, zn = S::i_zn, rDCp = S::i_rDCp, rDCn = S::i_rDCn, rDCcc = S::i_rDCcc, SOC = S::i_SOC, time = S::N_states, Ah = S::N_states + 1, Wh = S::N_states + 2, N = S::N_states + 3;
} // namespace ix
inline const char *ixName(size_t i)
{
  static const char *n[] = { "I", "V", "T", "delta", "LLI", "thickp", "thickn", "ep", "en", "ap", "an", "CS", "Dp", "Dn", "delta_pl", "zp0", "zp1", "zp2", "zp3", "zp4", "zn0", "zn1", "zn2", "zn3", "zn4", "rDCp", "rDCn", "rDCcc", "SOC", "time", "Ah", "Wh" };
  return i < sizeof(n) / sizeof(*n) ? n[i] : "?";
}

inline std::vector<std::vector<double>> readTable(const std::string &name)
{
  std::ifstream f("data/" + name);
  std::vector<std::vector<double>> rows;
  std::string line;
  while (std::getline(f, line)) {
    std::vector<double> r;
    const char *p = line.c_str();
    while (*p) {
      if ((*p >= '0' && *p <= '9') || *p == '-' || *p == '+' || *p == '.') {
        char *e;
        r.push_back(std::strtod(p, &e));
        p = e;
      } else
        p++;
    }
    if (!r.empty()) rows.push_back(r);
  }
  return rows;
}

struct Curve
{
  std::vector<double> x, y;
  explicit Curve(const std::string &name)
  {
    for (auto &r : readTable(name)) x.push_back(r[0]), y.push_back(r[1]);
  }
  bool in(double v) const { return v >= x.front() && v <= x.back(); }
  double operator()(double v) const
  {
    size_t k = 1;
    while (k + 1 < x.size() && x[k] < v) k++;
    return y[k - 1] + (y[k] - y[k - 1]) * (v - x[k - 1]) / (x[k] - x[k - 1]);
  }
};

struct SpmData
{
  static constexpr int n = 5;
  Curve OCVp{ "Kokam_OCV_NMC.csv" }, OCVn{ "Kokam_OCV_C.csv" }, dOCVn{ "Kokam_entropic_C.csv" }, dOCV{ "Kokam_entropic_cell.csv" };
  std::vector<double> xch, Ap, An, Bp, Bn, Cc, Dp, Dn, input;
  std::vector<std::vector<double>> Cp, Cn, Vp, Vn, Q;
  static std::vector<double> col(const std::string &f)
  {
    std::vector<double> v;
    for (auto &r : readTable(f)) v.push_back(r[0]);
    return v;
  }
  SpmData()
  {
    xch = col("Cheb_Nodes.csv"), Ap = col("Cheb_Ap.csv"), An = col("Cheb_An.csv"), Bp = col("Cheb_Bp.csv"), Bn = col("Cheb_Bn.csv");
    Cc = col("Cheb_Cc.csv"), Dp = col("Cheb_Dp.csv"), Dn = col("Cheb_Dn.csv"), input = col("Cheb_input.csv");
    Cp = readTable("Cheb_Cp.csv"), Cn = readTable("Cheb_Cn.csv"), Vp = readTable("Cheb_Vp.csv"), Vn = readTable("Cheb_Vn.csv"), Q = readTable("Cheb_Q.csv");
  }
  static const SpmData &get()
  {
    static SpmData d;
    return d;
  }
};

struct SpmPar
{
  double cap{ 16 }, elec{ 0.02 * 31 }, fsei{ 1 }, flam{ 1 }, Tenv{ TENV };
  double amax{ 5 * (3 * 0.5 / 1.25e-5) * 0.62 * 73.5e-6 }; // largest crack surface: 5 times the fresh anode surface
  double kp{ 5e-11 }, kn{ 1.764e-11 }, Cmaxp{ 51385 }, Cmaxn{ 30555 };
  mutable DEG_ID deg{};
  bool any() const { return !deg.SEI_id.empty() || !deg.CS_id.empty() || !deg.LAM_id.empty() || deg.pl_id != 0 || deg.SEI_porosity != 0; }
};

using SV = std::vector<double>; // state vector, layout ix

struct RefSPM
{
  SpmPar p;
  const SpmData &d;
  RefSPM(const SpmPar &q = {}) : p(q), d(SpmData::get()) {}
  static constexpr double Rp = 8.5e-6, Rn = 1.25e-5, Celec = 1000, rsei = 2037.4 * 50, OCVsei = 0.4, OCVnmc = 4.1, rhosei = 100e3, c0 = 4.541e-3, rhopl = 10e6;

  static double arr(const SV &s) { return (1 / TREF - 1 / s[ix::T]) / RG; }
  double Dpt(const SV &s) const { return s[ix::Dp] * std::exp(29000 * arr(s)); }
  double Dnt(const SV &s) const { return s[ix::Dn] * std::exp(7000 * arr(s)); }
  double iapp(const SV &s) const { return s[ix::I] / p.elec; }
  double jp(const SV &s) const { return -s[ix::I] / (p.elec * s[ix::ap] * s[ix::thickp] * F_); }
  double jn(const SV &s) const { return s[ix::I] / (p.elec * s[ix::an] * s[ix::thickn] * F_); }
  // concentrations, surface first, centre last
  void conc(const SV &s, double *cp, double *cn) const
  {
    for (int i = 0; i <= 5; i++) {
      cp[i] = d.Dp[i] * jp(s) / Dpt(s);
      cn[i] = d.Dn[i] * jn(s) / Dnt(s);
      for (int j = 0; j < 5; j++) cp[i] += d.Cp[i][j] * s[ix::zp + j], cn[i] += d.Cn[i][j] * s[ix::zn + j];
    }
    double a = jp(s) * Rp / Dpt(s), b = jn(s) * Rn / Dnt(s);
    for (int i = 0; i <= 5; i++) a += d.Cc[i] * cp[i], b += d.Cc[i] * cn[i];
    cp[6] = -a / 2, cn[6] = -b / 2;
  }
  double zps(const SV &s) const
  {
    double cp[7], cn[7];
    conc(s, cp, cn);
    return cp[0] / p.Cmaxp;
  }
  double zns(const SV &s) const
  {
    double cp[7], cn[7];
    conc(s, cp, cn);
    return cn[0] / p.Cmaxn;
  }
  bool inside(const SV &s) const { const double a = zps(s), b = zns(s); return a > 0 && a < 1 && b > 0 && b < 1; }
  bool nearEdge(const SV &s, double eps = 1e-9) const
  {
    const double a = zps(s), b = zns(s);
    return std::fabs(a) < eps || std::fabs(a - 1) < eps || std::fabs(b) < eps || std::fabs(b - 1) < eps;
  }
  double etap(const SV &s) const
  {
    const double c = zps(s) * p.Cmaxp, k = p.kp * std::exp(58000 * arr(s)), i0 = k * F_ * std::sqrt(Celec * c * (p.Cmaxp - c));
    return 2 * RG * s[ix::T] / F_ * std::asinh(-0.5 * iapp(s) / (s[ix::ap] * s[ix::thickp]) / i0);
  }
  double etan(const SV &s) const
  {
    const double c = zns(s) * p.Cmaxn, k = p.kn * std::exp(20000 * arr(s)), i0 = k * F_ * std::sqrt(Celec * c * (p.Cmaxn - c));
    return 2 * RG * s[ix::T] / F_ * std::asinh(0.5 * iapp(s) / (s[ix::an] * s[ix::thickn]) / i0);
  }
  double Rdc(const SV &s) const
  {
    const double Sp = s[ix::ap] * s[ix::thickp] * p.elec, Sn = s[ix::an] * s[ix::thickn] * p.elec;
    return rsei * s[ix::delta] / Sn + s[ix::rDCp] / Sp + s[ix::rDCn] / Sn + s[ix::rDCcc] / p.elec;
  }
  double OCV(const SV &s) const { return d.OCVp(zps(s)) - d.OCVn(zns(s)) + (s[ix::T] - TREF) * d.dOCV(zps(s)); }
  double V(const SV &s) const { return inside(s) ? OCV(s) + etap(s) - etan(s) - Rdc(s) * s[ix::I] : 0; }
  // how fast V changes with the surface concentrations: used to scale tolerances near steep ends of the curves
  // one diffusion step
  void diffuse(SV &s, double dt) const
  {
    SV o = s;
    for (int j = 0; j < 5; j++) {
      s[ix::zp + j] += dt * (Dpt(o) * d.Ap[j] * o[ix::zp + j] + d.Bp[j] * jp(o));
      s[ix::zn + j] += dt * (Dnt(o) * d.An[j] * o[ix::zn + j] + d.Bn[j] * jn(o));
    }
    const double dAh = o[ix::I] * dt / 3600;
    s[ix::SOC] -= dAh / p.cap;
    s[ix::time] += dt;
    s[ix::Ah] += std::fabs(dAh);
    s[ix::Wh] += std::fabs(dAh * V(s));
  }
  double heat(const SV &s) const // [W]
  {
    const double I = s[ix::I];
    return -I * s[ix::T] * d.dOCV(zps(s)) + I * (etan(s) - etap(s)) + I * I * Rdc(s);
  }
  double heatCap() const { return 1626 * 750 * 1.685e-4 * p.elec; }

  // stress according to Dai et al.: largest (absolute) hydrostatic stress, evaluated with the supplied integration matrix
  void dai(const SV &s, double &sp, double &sn, double *range = nullptr) const // range: {min p, max p, min n, max n}
  {
    double cp[7], cn[7];
    conc(s, cp, cn);
    for (int el = 0; el < 2; el++) {
      const double *c = el ? cn : cp;
      // nodes from -1 (surface) over 0 to +1
      double x[13], cc[13];
      for (int k = 0; k < 6; k++) {
        const double xi = k == 0 ? 1 : d.xch[k - 1];
        x[k] = -xi, x[12 - k] = xi;
        cc[k] = cc[12 - k] = c[k];
      }
      x[6] = 0, cc[6] = c[6];
      double G[13];
      for (int i = 0; i < 13; i++) {
        G[i] = 0;
        for (int j = 0; j < 13; j++) G[i] += d.Q[i][j] * cc[j] * x[j] * x[j];
      }
      const double om = el ? 3.17e-6 : 2.1e-6, E = el ? 10 : 138.73, nu = 0.3, A = G[12] - G[6];
      double best = 0, hmin = 1e300, hmax = -1e300;
      for (int i = 6; i < 13; i++) {
        double sr, st;
        if (i == 6) sr = st = 2 * om * E / (9 * (1 - nu)) * (3 * A - cc[6]);
        else {
          const double B = (G[i] - G[6]) / (x[i] * x[i] * x[i]);
          sr = 2 * om * E / (3 * (1 - nu)) * (A - B);
          st = om * E / (3 * (1 - nu)) * (2 * A + B - cc[i]);
        }
        const double h = (sr + 2 * st) / 3;
        if (std::fabs(h) > std::fabs(best)) best = h;
        hmin = std::min(hmin, h), hmax = std::max(hmax, h);
      }
      (el ? sn : sp) = best;
      if (range) range[2 * el] = hmin, range[2 * el + 1] = hmax;
    }
  }
  double lares(const SV &s) const
  {
    static const double y[] = { 0, 5.5, 8.5, 9.5, 10, 10, 10.5, 13, 16.5, 21, 23.5 };
    const double z = zns(s) * 10;
    const int k = std::min(9, std::max(0, (int)std::floor(z)));
    return y[k] + (y[k + 1] - y[k]) * (z - k);
  }

  struct Rates
  {
    double isei{ 0 }, iseiCS{ 0 }, ipl{ 0 }, dCS{ 0 }, dDn{ 0 }, dthickp{ 0 }, dthickn{ 0 }, dep{ 0 }, den{ 0 }, denSei{ 0 }, dap{ 0 }, dan{ 0 };
    bool bad{ false }; // unknown model
  };
  // stress differences over the step: |p|, |n|, |lares|
  Rates rates(const SV &s, double dsp, double dsn, double dsl, double h) const
  {
    Rates r;
    const double T = s[ix::T], ar = arr(s), I = s[ix::I], ASn = s[ix::an] * s[ix::thickn] * p.elec;
    const double OCVnt = d.OCVn(zns(s)) + (T - TREF) * d.dOCVn(zns(s)), en = etan(s), epp = etap(s), film = rsei * s[ix::delta] * I, f = F_ / (RG * T);
    auto k = [&](double v, double E) { return v * std::exp(E * ar); };
    for (int id : p.deg.SEI_id) {
      const double aL = 0.134461;
      if (id == 0) continue;
      else if (id == 1) r.isei += F_ * k(p.fsei * 0.075e-14, 130e3) * std::exp(-f * (OCVnt + en - OCVsei + film));
      else if (id == 2) {
        const double kin = F_ * k(p.fsei * 2.75e-11, 130e3) * std::exp(-f * (OCVnt + en - OCVsei + film)), D = k(p.fsei * 1.125e-14, 20e3);
        r.isei += c0 / (1 / kin + s[ix::delta] / (F_ * D));
      } else if (id == 3) {
        const double kin = F_ * k(p.fsei * 1.1458e-15, 65e3) * std::exp(-f * (OCVnt - OCVsei)), D = k(p.fsei * 0.25e-15, 200e3);
        r.isei += aL * std::exp(-f * (en + film)) / (1 / kin + s[ix::delta] / (F_ * D));
      } else if (id == 4) {
        const double kin = F_ * k(p.fsei * 1.5 * 0.5e-14 / 2, 130000.0 / 1.5) * std::exp(-f * (OCVnt - OCVsei)), D = k(p.fsei * 0.5e-16 / 15, 200000.0 / 2.5);
        r.isei += aL * std::exp(-f * en) / (1 / kin + s[ix::delta] / (F_ * D));
      } else
        r.bad = true;
    }
    if (p.deg.SEI_porosity == 1) r.denSei = -3 * 7.5e-7 * (jn(s) * 13 + r.isei * 64.39);
    else if (p.deg.SEI_porosity != 0) r.bad = true;
    double mult = 0;
    for (int id : p.deg.CS_id) {
      if (id == 0) continue;
      mult += s[ix::CS] / ASn;
      if (id == 1) r.dCS += p.fsei * 4.25e-5 * std::sqrt(dsl / h);
      else if (id == 2) r.dCS += p.fsei * 6.3e-7 * std::sqrt(dsn / h);
      else if (id == 3) {
        double cp[7], cn[7];
        conc(s, cp, cn);
        const double g = (cn[0] - cn[6]) / p.Cmaxn;
        r.dCS += p.fsei * 2.31e-16 * g * g;
      } else if (id == 4) r.dCS += p.fsei * 4.3306e-8 * (std::max(p.amax, s[ix::CS]) - s[ix::CS]) * std::fabs(I);
      else if (id == 5) {
        const double z = zns(s), k5 = k(p.fsei * 1e-18, -127040);
        const double kcr = I > 0 ? 0 : z < 0.3 ? 2 * k5
                                   : z < 0.7   ? 0
                                               : k5;
        r.dCS += F_ * kcr * std::exp(-f * (OCVnt + en - OCVsei + film));
      } else
        r.bad = true;
    }
    r.iseiCS = r.isei * mult;
    if (p.deg.CS_diffusion == 1) {
      const double Am = std::max(p.amax, s[ix::CS]);
      r.dDn = -s[ix::Dn] * std::min(2e-7, 2 * (1 - s[ix::CS] / Am) / Am * r.dCS);
    } else if (p.deg.CS_diffusion != 0) r.bad = true;
    for (int id : p.deg.LAM_id) {
      if (id == 0) continue;
      else if (id == 1) r.dthickp -= p.flam * 3.4985e-10 * dsp / h, r.dthickn -= p.flam * 5.88e-13 * 2e4 * dsn / h;
      else if (id == 2) {
        const double a = k(-p.flam * 1.675e-5, 54611);
        r.dep += a * std::fabs(jp(s)), r.den += a * std::fabs(jn(s));
      } else if (id == 3) r.dep += std::max(-5e-6, -k(p.flam * 12.5e-6, 27305) * std::exp(f * (d.OCVp(zps(s)) + epp - OCVnmc)) / F_);
      else if (id == 4) r.dap -= p.flam * 8.3333e-9 * s[ix::ap], r.dan -= p.flam * 8.3333e-9 * s[ix::an];
      else r.bad = true;
    }
    if (p.deg.pl_id == 1) r.ipl = F_ * k(p.fsei * 4.5e-10, -2.014008e5) * std::exp(-f * (OCVnt + en + film));
    else if (p.deg.pl_id != 0) r.bad = true;
    return r;
  }
  // increments of the state over time h
  SV increments(const SV &s, const Rates &r, double h) const
  {
    SV o(ix::N, 0.0);
    const double itot = r.isei + r.iseiCS + r.ipl;
    for (int j = 0; j < 5; j++) o[ix::zn + j] = h * d.Bn[j] * itot / F_;
    o[ix::delta] = h * r.isei / (F_ * rhosei);
    o[ix::LLI] = h * itot * p.elec * s[ix::thickn] * s[ix::an];
    o[ix::thickp] = h * r.dthickp, o[ix::thickn] = h * r.dthickn;
    o[ix::ep] = h * r.dep, o[ix::en] = h * (r.den + r.denSei);
    o[ix::ap] = h * r.dap + 3 / Rp * o[ix::ep], o[ix::an] = h * r.dan + 3 / Rn * o[ix::en];
    o[ix::CS] = h * r.dCS, o[ix::Dn] = h * r.dDn;
    o[ix::dpl] = h * r.ipl / (F_ * rhopl);
    return o;
  }
  // radially averaged concentration: the conserved (zero-eigenvalue) mode of the discretisation
  double meanLi(const SV &s, bool neg) const { return s[(neg ? ix::zn : ix::zp) + 3] / modeWeight(neg); }
  double modeWeight(bool neg) const // value of that mode for a uniform unit concentration
  {
    double k = 0;
    for (int i = 0; i < 5; i++) k += (neg ? d.Vn : d.Vp)[3][i] * d.xch[i] * (neg ? Rn : Rp);
    return k;
  }
  // moles of lithium stored in an electrode
  double moles(const SV &s, bool neg) const
  {
    const double vol = (neg ? s[ix::an] * s[ix::thickn] * Rn : s[ix::ap] * s[ix::thickp] * Rp) / 3 * p.elec;
    return meanLi(s, neg) * vol;
  }
  // is the explicit integration of the diffusion equations stable with this step?
  bool stable(const SV &s, double dt, double lim = 1) const
  {
    double m = 0;
    for (int j = 0; j < 5; j++) m = std::max(m, std::max(std::fabs(d.Ap[j] * Dpt(s)), std::fabs(d.An[j] * Dnt(s))));
    return m * dt < lim;
  }
  // transformed state for a radial profile given at the inner nodes (0: node next to the surface)
  void setProfile(SV &s, const double *cp, const double *cn) const
  {
    for (int j = 0; j < 5; j++) {
      s[ix::zp + j] = s[ix::zn + j] = 0;
      for (int i = 0; i < 5; i++) {
        s[ix::zp + j] += d.Vp[j][i] * d.xch[i] * Rp * cp[i];
        s[ix::zn + j] += d.Vn[j][i] * d.xch[i] * Rn * cn[i];
      }
    }
  }
  SV fresh(double fp = 0.689332, double fn = 0.479283) const // nominal cell (area p.elec)
  {
    SV s(ix::N, 0.0);
    s[ix::T] = TENV, s[ix::delta] = 1e-9, s[ix::thickp] = 70e-6, s[ix::thickn] = 73.5e-6, s[ix::ep] = s[ix::en] = 0.5;
    s[ix::ap] = 3 * 0.5 / Rp, s[ix::an] = 3 * 0.5 / Rn, s[ix::CS] = 0.01 * s[ix::an] * p.elec * s[ix::thickn];
    s[ix::Dp] = 8e-14, s[ix::Dn] = 7e-14, s[ix::rDCp] = s[ix::rDCn] = 2.8e-3, s[ix::rDCcc] = 0.2325e-3, s[ix::SOC] = 0.5;
    double cp[5], cn[5];
    for (int i = 0; i < 5; i++) cp[i] = fp * p.Cmaxp, cn[i] = fn * p.Cmaxn;
    setProfile(s, cp, cn);
    return s;
  }
};

struct SpmGen
{
  bool aged{ true };       // geometric and degradation states away from fresh
  bool profile{ true };    // non-uniform concentration
  bool temp{ true };
  double lo{ 0.02 }, hi{ 0.98 };
};
// a random admissible state (not necessarily consistent in SOC), current included
inline SV genSpmState(Case &c, const RefSPM &r, const SpmGen &g)
{
  SV s = r.fresh();
  if (g.temp && c.b(2, 3)) s[ix::T] = KELVIN + c.r(0.5, 59.5);
  if (g.aged && c.b(2, 3)) {
    s[ix::delta] = c.rlog(1e-10, 1e-7);
    s[ix::LLI] = c.r(0, 5000);
    s[ix::thickp] *= c.r(0.5, 1), s[ix::thickn] *= c.r(0.5, 1);
    s[ix::ep] = c.r(0.25, 0.6), s[ix::en] = c.r(0.25, 0.6);
    s[ix::ap] = 3 * s[ix::ep] / r.Rp, s[ix::an] = 3 * s[ix::en] / r.Rn;
    s[ix::CS] *= c.rlog(0.1, 1000);
    s[ix::Dp] *= c.r(0.4, 1.2), s[ix::Dn] *= c.r(0.4, 1.2);
    s[ix::dpl] = c.b(1, 2) ? 0 : c.rlog(1e-12, 1e-9);
    s[ix::rDCp] *= c.r(0.5, 2), s[ix::rDCn] *= c.r(0.5, 2), s[ix::rDCcc] *= c.r(0.5, 2);
    s[ix::time] = c.r(0, 1e6), s[ix::Ah] = c.r(0, 1e4), s[ix::Wh] = c.r(0, 4e4);
  }
  double cp[5], cn[5];
  const double ap = c.r(g.lo, g.hi), an = c.r(g.lo, g.hi);
  double gp = 0, gn = 0;
  if (g.profile && c.b(3, 4)) gp = c.r(-0.15, 0.15), gn = c.r(-0.15, 0.15);
  for (int i = 0; i < 5; i++) {
    const double x2 = r.d.xch[i] * r.d.xch[i];
    cp[i] = r.p.Cmaxp * (ap + gp * (x2 - 0.6)), cn[i] = r.p.Cmaxn * (an + gn * (x2 - 0.6));
  }
  r.setProfile(s, cp, cn);
  s[ix::SOC] = c.r(0.01, 0.99);
  s[ix::I] = c.b(1, 6) ? 0.0 : r.p.cap * (c.b(1, 2) ? c.r(-0.5, 0.5) : c.r(-4, 4));
  s[ix::V] = 3.7;
  return s;
}

inline DEG_ID genDeg(Case &c, bool stress = true, int nmax = 3)
{
  DEG_ID d;
  auto addSome = [&](auto &arr, int maxId, std::initializer_list<int> skip) {
    const int n = (int)c.i(0, nmax);
    for (int k = 0; k < n; k++) {
      const int id = (int)c.i(1, maxId);
      bool ok = true;
      for (int x : skip) ok &= x != id;
      if (ok) arr.add_model((DEG_ID::data_t)id);
    }
  };
  addSome(d.SEI_id, 4, {});
  if (stress) addSome(d.CS_id, 5, {}), addSome(d.LAM_id, 4, {});
  else addSome(d.CS_id, 5, { 1, 2 }), addSome(d.LAM_id, 4, { 1 });
  d.SEI_porosity = (DEG_ID::data_t)c.i(0, 1);
  d.CS_diffusion = (DEG_ID::data_t)c.i(0, 1);
  d.pl_id = (DEG_ID::data_t)c.i(0, 1);
  return d;
}
inline bool hasId(DEG_ID::DegArray a, int id)
{
  for (auto x : a)
    if ((int)x == id) return true;
  return false;
}
inline bool usesStress(const DEG_ID &d) { return hasId(d.CS_id, 1) || hasId(d.CS_id, 2) || hasId(d.LAM_id, 1); }

// installs a state without any validity check by the cell
inline void install(Cell_SPM &c, const SV &s)
{
  std::copy(s.begin(), s.end(), c.getStateObj().begin());
  State_SPM st = c.getStateObj();
  c.setStateObj(st);
}
inline std::unique_ptr<Cell_SPM> makeSPM(const SpmPar &p, const std::string &id = "spm") { return std::make_unique<Cell_SPM>(id, p.deg, p.cap / 16.0, 1.0, 1.0, 1.0); }
inline SpmPar genSpmPar(Case &c)
{
  SpmPar p;
  if (c.b(1, 3)) {
    const double f = c.r(0.3, 4);
    p.cap *= f, p.elec *= f, p.amax *= f;
  }
  return p;
}
} // namespace vt
