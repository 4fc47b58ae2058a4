// P25: fitting of open-circuit-voltage curves.
#include "files.hpp"
using namespace slide;
using namespace vt;
namespace fs = std::filesystem;

namespace {
constexpr double Far = 96487; // C/mol
using Curve = XYdata_vv;
std::string show(const Curve &k)
{
  std::string s = "{";
  for (size_t i = 0; i < k.x.size(); i++) s += (i ? " " : "") + num6(k.x[i]) + ":" + num6(k.y[i]);
  return s + "}";
}
// value of a curve, nullopt outside of it
struct Val
{
  double v{ 0 };
  bool in{ true };
};
Val at(const Curve &k, double x)
{
  const size_t n = k.x.size();
  if (std::isnan(x) || x < k.x[0] || x > k.x[n - 1]) return { 0, false };
  size_t i = 1;
  while (i + 1 < n && k.x[i] < x) i++;
  if (n == 1) return { k.y[0], true };
  const double w = (x - k.x[i - 1]) / (k.x[i] - k.x[i - 1]);
  return { k.y[i - 1] + w * (k.y[i] - k.y[i - 1]), true };
}
Curve genElectrode(Case &c, bool pos)
{
  const int n = (int)c.i(2, 12);
  std::vector<double> cuts, x, y;
  double sum = 0;
  const bool even = c.b(1, 4);
  for (int i = 1; i < n; i++) cuts.push_back(even ? 1 : c.r(0.2, 3)), sum += cuts.back();
  double a = 0;
  x.push_back(0);
  for (int i = 1; i < n; i++) a += cuts[i - 1] / sum, x.push_back(i + 1 == n ? 1.0 : a);
  double v = pos ? c.r(4.2, 5) : c.r(0.6, 2);
  for (int i = 0; i < n; i++) {
    y.push_back(v);
    v = std::max(0.0, v - (c.b(1, 6) ? 0 : c.r(0, pos ? 2.5 / n : 1.2 / n)));
  }
  return Curve(x, y);
}
Curve genCell(Case &c)
{
  const int n = (int)c.i(2, 9);
  std::vector<double> x{ 0 }, y{ c.r(3.6, 4.4) };
  const double cap = c.rlog(0.5, 60);
  for (int i = 1; i < n; i++) x.push_back(x.back() + cap / (n - 1) * c.r(0.4, 1.6)), y.push_back(y.back() - c.r(0, 1.6 / n));
  return Curve(x, y);
}
// squared error of one candidate: the two electrodes exchange the lithium of the measured charge
double refCost(const Curve &p, const Curve &n, double AMp, double AMn, double sp0, double sn0, double cp, double cn, const Curve &cell, bool &edge)
{
  const double Vend = cell.y.back();
  double s = 0;
  bool end = false;
  for (size_t i = 0; i < cell.x.size(); i++) {
    const double q = cell.x[i] * 3600 / Far, sp = sp0 + q / AMp / cp, sn = sn0 - q / AMn / cn;
    double v = 0;
    if (!end) {
      const auto a = at(p, sp), b = at(n, sn);
      for (double f : { sp, sn })
        if (i > 0 && (std::fabs(f) < 1e-12 || std::fabs(f - 1) < 1e-12)) edge = true;
      v = a.in && b.in ? a.v - b.v : 0;
      if (i + 1 < cell.x.size() && std::fabs(v - Vend) < 1e-11) edge = true;
      end = v <= Vend || sp < 0 || sp > 1 || sn < 0 || sn > 1;
    }
    s += (cell.y[i] - v) * (cell.y[i] - v);
  }
  return s;
}
struct Grid
{
  double lo, d;
  int n;
  double operator[](int i) const { return lo + i * d; }
  FixedData<double> fixed() const { return FixedData<double>(lo, d, n); }
  std::string show() const { return num6(lo) + "+" + std::to_string(n) + "*" + num6(d); }
};
using P4 = std::array<double, 4>;
std::string show(const P4 &p) { return "(" + num(p[0]) + ", " + num(p[1]) + ", " + num(p[2]) + ", " + num(p[3]) + ")"; }
struct Problem
{
  Curve p, n, cell;
  double cp, cn;
  Grid gp, gn, gsp, gsn;
  bool planted{ false };
  std::string str() const { return "cathode " + show(p) + " anode " + show(n) + " cell " + show(cell) + " cmax " + num(cp) + "," + num(cn) + " AMp " + gp.show() + " AMn " + gn.show() + " sp " + gsp.show() + " sn " + gsn.show(); }
};
Grid genGrid(Case &c, double centre, double width, double lo, double hi, int nmax)
{
  const int n = (int)c.i(2, nmax);
  double a = std::max(lo, centre - width * c.r(0.05, 1)), b = std::min(hi, centre + width * c.r(0.05, 1));
  if (!(b > a)) a = lo, b = hi;
  return { a, (b - a) / (n - 1), n };
}
Problem genProblem(Case &c, int nmax)
{
  Problem q;
  q.p = genElectrode(c, true), q.n = genElectrode(c, false);
  q.cp = c.b(1, 2) ? 51385 : c.rlog(2e4, 8e4), q.cn = c.b(1, 2) ? 30555 : c.rlog(2e4, 8e4);
  q.cell = genCell(c);
  double cap = q.cell.x.back();
  P4 t{ cap * 3600 / (Far * q.cp) * c.r(1.05, 3), cap * 3600 / (Far * q.cn) * c.r(1.05, 3), c.r(0, 0.6), c.r(0.4, 1) };
  if (c.b(2, 3)) { // a measured curve that some parameters reproduce
    std::vector<double> x, y;
    for (double a : q.cell.x) {
      const double s = a * 3600 / Far;
      const auto u = at(q.p, t[2] + s / t[0] / q.cp), v = at(q.n, t[3] - s / t[1] / q.cn);
      if (!u.in || !v.in || u.v - v.v < 0) break;
      x.push_back(a), y.push_back(u.v - v.v);
    }
    if (x.size() >= 2) q.cell = Curve(x, y), q.planted = true;
  }
  q.gp = genGrid(c, t[0], 0.3 * t[0], 0.05 * t[0], 5 * t[0], nmax), q.gn = genGrid(c, t[1], 0.3 * t[1], 0.05 * t[1], 5 * t[1], nmax);
  q.gsp = genGrid(c, t[2], 0.2, 0, 1, nmax), q.gsn = genGrid(c, t[3], 0.2, 0, 1, nmax);
  return q;
}
struct Best
{
  double cost{ INFINITY }, second{ INFINITY };
  P4 par{};
  bool edge{ false };
};
Best brute(const Problem &q, const Grid &gp, const Grid &gn, const Grid &gsp, const Grid &gsn)
{
  Best b;
  for (int i = 0; i < gp.n; i++)
    for (int j = 0; j < gn.n; j++)
      for (int k = 0; k < gsp.n; k++)
        for (int l = 0; l < gsn.n; l++) {
          const double e = refCost(q.p, q.n, gp[i], gn[j], gsp[k], gsn[l], q.cp, q.cn, q.cell, b.edge);
          if (e < b.cost) b.second = b.cost, b.cost = e, b.par = { gp[i], gn[j], gsp[k], gsn[l] };
          else
            b.second = std::min(b.second, e);
        }
  return b;
}
bool inGrid(const Grid &g, double x)
{
  for (int i = 0; i < g.n; i++)
    if (near(g[i], x, 1e-12, 1e-15)) return true;
  return false;
}
void put(const std::string &name, const Curve &k)
{
  std::ofstream f(name);
  f.precision(17);
  for (size_t i = 0; i < k.x.size(); i++) f << k.x[i] << ',' << k.y[i] << '\n';
}
std::string here(const std::string &n) { return (fs::current_path() / n).string(); }
} // namespace

PBT_SUB("P25.valid", 60000, 1000000, "random electrode and cell curves, intact or with one value corrupted (order, range, voltage, not a number); non-trivial: the curve has at least three points")
{
  const bool electrode = c.b(1, 2);
  Curve k = electrode ? genElectrode(c, c.b(1, 2)) : genCell(c);
  for (auto &v : k.y) v = std::max(0.0, v);
  const int how = c.weighted({ 3, 2, 2, 2, 1, 1 });
  const size_t n = k.x.size(), i = (size_t)c.i(0, (int)n - 1);
  if (how == 1) k.y[i] = c.pick({ -0.01, 10.01, -5.0, 1e9, -(double)INFINITY, (double)INFINITY, (double)NAN, 0.0, 10.0 });
  if (how == 2 && i > 0) k.x[i] = c.b(1, 2) ? k.x[i - 1] : k.x[i - 1] - c.r(0, 0.5);
  if (how == 3) (c.b(1, 2) ? k.x[0] : k.x[n - 1]) += c.pick({ 2e-5, -2e-5, 5e-6, -5e-6, 0.1, -0.1 });
  if (how == 4) k.x[i] = NAN;
  if (how == 5) c.b(1, 2) ? k = Curve() : (k.x.clear(), k);
  c.desc << (electrode ? "electrode " : "cell ") << show(k);
  bool want = !k.x.empty() && k.x.size() == k.y.size();
  if (want) {
    want = std::fabs(k.x[0]) < 1e-5 && (!electrode || std::fabs(k.x[n - 1] - 1) < 1e-5);
    for (size_t j = 1; j < n; j++) want = want && k.x[j] > k.x[j - 1];
    for (double v : k.y) want = want && v >= 0 && v <= 10;
  }
  const bool got = validOCV(electrode, k);
  if (got != want) c.fail(got ? "P25.accepts-illegal" : "P25.rejects-legal", got ? "an illegal curve is accepted" : "a legal curve is rejected");
  if (n > 2) c.nontrivial();
  c.label(want ? "legal" : "illegal");
}

PBT_SUB("P25.read", 6000, 100000, "the three curves written to files, one of them possibly illegal, and read back; non-trivial: every case")
{
  wipe();
  Curve k[3] = { genElectrode(c, true), genElectrode(c, false), genCell(c) };
  for (auto &q : k)
    for (auto &v : q.y) v = std::max(0.0, v);
  const int bad = c.b(1, 2) ? (int)c.i(0, 2) : -1;
  if (bad >= 0) {
    auto &q = k[bad];
    const size_t i = (size_t)c.i(1, (int)q.x.size() - 1);
    if (c.b(1, 2)) q.y[i] = c.pick({ -0.5, 11.0 });
    else
      q.x[i] = q.x[i - 1] - (c.b(1, 2) ? 0 : 0.01);
    c.desc << "bad " << bad << " at " << i;
  }
  const std::string nm[] = { "p.csv", "n.csv", "c.csv" };
  for (int i = 0; i < 3; i++) put(nm[i], k[i]), c.desc << show(k[i]) << " ";
  Curve r[3] = { Curve(100), Curve(3), Curve(0) };
  const int e = caughtInt([&] { readOCVinput(here(nm[0]), here(nm[1]), here(nm[2]), r[0], r[1], r[2]); });
  if ((bad >= 0) != (e != -1)) c.fail("P25.read-verdict", bad >= 0 ? "an illegal curve was read without complaint" : "legal curves were refused with " + std::to_string(e));
  if (e == -1)
    for (int i = 0; i < 3; i++)
      if (r[i].x != k[i].x || r[i].y != k[i].y) c.fail("P25.read", "curve " + std::to_string(i) + " was read as " + show(r[i]) + " instead of " + show(k[i]));
  c.nontrivial();
}

PBT_SUB("P25.discharge", 40000, 800000, "random electrode curves and parameters, simulated slow discharge; every stored point is compared with the lithium bookkeeping and the electrode curves; non-trivial: at least three points stored")
{
  const Curve p = genElectrode(c, true), n = genElectrode(c, false);
  const double cap = c.rlog(0.1, 100), cp = c.rlog(2e4, 8e4), cn = c.rlog(2e4, 8e4);
  const double AMp = cap * 3600 / (Far * cp) * c.r(1.01, 4), AMn = cap * 3600 / (Far * cn) * c.r(1.01, 4);
  const double sp0 = c.r(0, 0.7), sn0 = c.r(0.3, 1), Vend = c.b(1, 4) ? c.r(-1, 1) : c.r(1.5, 4);
  c.desc << "cathode " << show(p) << " anode " << show(n) << " cap " << num(cap) << " AM " << num(AMp) << "," << num(AMn) << " cmax " << num(cp) << "," << num(cn) << " from " << num(sp0) << "," << num(sn0) << " to " << num(Vend) << " V";
  Curve o, oa, oc;
  double fp[3] = { NAN, NAN, NAN }, fn[3] = { NAN, NAN, NAN };
  const int e = caughtInt([&] { discharge(p, n, cap, AMp, AMn, cp, cn, sp0, sn0, Vend, o, oa, oc, fp, fn); });
  if (e != -1) c.fail("P25.discharge-threw", "the discharge threw " + std::to_string(e));
  const size_t m = o.x.size();
  if (m < 2 || o.y.size() != m || oa.x.size() != m || oa.y.size() != m || oc.x.size() != m || oc.y.size() != m) c.fail("P25.discharge-size", "curves of different or too small sizes were returned");
  const double dAh = 0.1 * cap * 5 / 3600, dp = dAh * 3600 / Far / AMp / cp, dn = dAh * 3600 / Far / AMn / cn;
  // a potential belongs to the lithium fraction it is stored with, or to the one a single time step before
  auto fits = [&](const Curve &k, double x, double step, double y) {
    const auto a = at(k, std::clamp(x, 0.0, 1.0)), b = at(k, std::clamp(x - step, 0.0, 1.0));
    return near(y, a.v, 1e-8, 1e-9) || near(y, b.v, 1e-8, 1e-9);
  };
  for (size_t i = 0; i < m; i++) {
    const std::string w = "point " + std::to_string(i) + " of " + std::to_string(m) + " ";
    const double Q = o.x[i];
    if (i == 0 ? Q != 0 : !(Q > o.x[i - 1])) c.fail("P25.discharge-charge", w + "has a charge of " + num(Q) + " Ah");
    if (i > 0 && Q - o.x[i - 1] > 100.5 * dAh) c.fail("P25.discharge-charge", w + "comes " + num((Q - o.x[i - 1]) / dAh) + " steps after the previous one");
    if (!near(oc.x[i], sp0 + Q * 3600 / Far / AMp / cp, 1e-8, 1e-9) || !near(oa.x[i], sn0 - Q * 3600 / Far / AMn / cn, 1e-8, 1e-9)) c.fail("P25.lithium", w + "has lithium fractions " + num(oc.x[i]) + " and " + num(oa.x[i]) + " after " + num(Q) + " Ah");
    if (!fits(p, oc.x[i], i ? dp : 0, oc.y[i])) c.fail("P25.cathode", w + "has a cathode potential of " + num(oc.y[i]) + " at " + num(oc.x[i]));
    if (!fits(n, oa.x[i], i ? -dn : 0, oa.y[i])) c.fail("P25.anode", w + "has an anode potential of " + num(oa.y[i]) + " at " + num(oa.x[i]));
    if (!near(o.y[i], oc.y[i] - oa.y[i], 1e-9, 1e-9)) c.fail("P25.cell-voltage", w + "has a cell voltage of " + num(o.y[i]) + " V between potentials " + num(oc.y[i]) + " and " + num(oa.y[i]));
    const bool stop = o.y[i] <= Vend || oc.x[i] >= 1 || oa.x[i] <= 0;
    // the end may fall on the first step after a stored point, where only the older potential is stored
    if (i > 0 && i + 1 < m && stop && !near(o.y[i], Vend, 1e-9, 1e-9)) c.fail("P25.discharge-end", w + "is at " + num(o.y[i]) + " V with fractions " + num(oc.x[i]) + ", " + num(oa.x[i]) + ", yet the discharge goes on");
  }
  const double vEnd = o.y[m - 1], vNow = at(p, std::clamp(oc.x[m - 1], 0.0, 1.0)).v - at(n, std::clamp(oa.x[m - 1], 0.0, 1.0)).v;
  if (!(vEnd <= Vend + 1e-9 || vNow <= Vend + 1e-9 || oc.x[m - 1] >= 1 - 1e-12 || oa.x[m - 1] <= 1e-12)) c.fail("P25.discharge-end", "the discharge stopped at " + num(vEnd) + " V with fractions " + num(oc.x[m - 1]) + ", " + num(oa.x[m - 1]));
  if (fp[0] != sp0 || fn[0] != sn0 || !near(fp[2], oc.x[m - 1], 1e-9, 1e-12) || !near(fn[2], oa.x[m - 1], 1e-9, 1e-12) || !near(fp[1], (fp[0] + fp[2]) / 2, 1e-9, 1e-12) || !near(fn[1], (fn[0] + fn[2]) / 2, 1e-9, 1e-12))
    c.fail("P25.fractions", "fractions at full, half and empty are " + num(fp[0]) + " " + num(fp[1]) + " " + num(fp[2]) + " and " + num(fn[0]) + " " + num(fn[1]) + " " + num(fn[2]));
  c.step();
  if (m > 2) c.nontrivial();
}

PBT_SUB("P25.error", 60000, 1000000, "root-mean-square difference of two random curves over different ranges, with both ways of extending the shorter one; non-trivial: at least three measured points")
{
  Curve a = genCell(c), b = genCell(c);
  const bool bound = c.b(1, 2);
  c.desc << show(a) << " " << show(b) << " bound " << bound;
  double s = 0;
  for (size_t i = 0; i < a.x.size(); i++) {
    auto v = at(b, a.x[i]);
    if (!v.in) v.v = bound ? 0 : a.x[i] < b.x[0] ? b.y[0] : b.y.back();
    s += (a.y[i] - v.v) * (a.y[i] - v.v);
  }
  const double want = std::sqrt(s / a.x.size()), got = calculateError(bound, a, b);
  if (!near(got, want, 1e-10, 1e-12)) c.fail("P25.error", "the error is " + num(got) + " instead of " + num(want));
  if (a.x.size() > 2) c.nontrivial();
}

PBT_SUB("P25.fit", 40000, 600000, "full search of a random grid of three parameters, compared with all candidates computed one by one; non-trivial: at least 30 candidates of which the best is not the first")
{
  Problem q = genProblem(c, 9);
  const double AMp = q.gp[(int)c.i(0, q.gp.n - 1)];
  c.desc << q.str() << " AMp " << num(AMp);
  const Grid one{ AMp, 0, 1 };
  Best b = brute(q, one, q.gn, q.gsp, q.gsn);
  if (b.edge || !(b.cost < 1e9)) c.discard();
  double err = NAN;
  P4 par{ NAN, NAN, NAN, NAN };
  fitAMnAndStartingPoints((int)c.i(0, 3), (int)c.i(0, 50), AMp, q.gn.fixed(), q.gsp.fixed(), q.gsn.fixed(), q.cp, q.cn, &err, par, q.p, q.n, q.cell);
  const double want = std::sqrt(b.cost / q.cell.x.size());
  if (!near(err, want, 1e-7, 1e-9)) c.fail("P25.fit-error", "the smallest error is " + num(want) + " at " + show(b.par) + ", reported is " + num(err) + " at " + show(par));
  if (!near(par[0], AMp, 1e-12, 0) || !inGrid(q.gn, par[1]) || !inGrid(q.gsp, par[2]) || !inGrid(q.gsn, par[3])) c.fail("P25.fit-candidates", show(par) + " is not among the candidates");
  bool edge = false;
  const double own = std::sqrt(refCost(q.p, q.n, par[0], par[1], par[2], par[3], q.cp, q.cn, q.cell, edge) / q.cell.x.size());
  if (!near(own, err, 1e-7, 1e-9)) c.fail("P25.fit-pair", "the parameters " + show(par) + " have an error of " + num(own) + ", reported is " + num(err));
  if (q.gn.n * q.gsp.n * q.gsn.n >= 30 && b.par != P4{ AMp, q.gn[0], q.gsp[0], q.gsn[0] }) c.nontrivial();
  c.step();
}

PBT_SUB("P25.search", 6000, 100000, "hierarchical search over random grids and one to three levels, compared with the same refinement done over all candidates one by one; non-trivial: two or more levels with a unique best candidate in each")
{
  wipe();
  Problem q = genProblem(c, 5);
  for (auto *k : { &q.p, &q.n, &q.cell })
    for (auto &v : k->y) v = std::max(0.0, v);
  const int hmax = (int)c.i(1, 3);
  c.desc << q.str() << " levels " << hmax;
  put("p.csv", q.p), put("n.csv", q.n), put("c.csv", q.cell);
  Grid gp = q.gp, gn = q.gn, gsp = q.gsp, gsn = q.gsn;
  double cost = INFINITY, first = INFINITY;
  P4 par{};
  std::vector<P4> levels;
  bool unique = true;
  for (int h = 0; h < hmax && unique; h++) {
    Best b = brute(q, gp, gn, gsp, gsn);
    if (b.edge || !(b.cost < 1e9)) c.discard();
    if (h == 0) first = b.cost;
    if (b.cost < cost) {
      if (b.second - b.cost < 1e-9) unique = false;
      if (std::isfinite(cost) && cost - b.cost < 1e-9) unique = false;
      cost = b.cost, par = b.par;
    } else if (b.cost - cost < 1e-9)
      unique = false;
    levels.push_back(par);
    auto zoom = [](Grid &g, double x, bool clip) {
      double a = x - g.d, b2 = x + g.d;
      if (clip) a = std::max(a, 0.0), b2 = std::min(b2, 1.0);
      g = { a, (b2 - a) / (g.n - 1), g.n };
    };
    zoom(gp, par[0], false), zoom(gn, par[1], false), zoom(gsp, par[2], true), zoom(gsn, par[3], true);
    if (gp[0] <= 0 || gn[0] <= 0) { // no amount of material left: stop where it is still a physical search
      if (h + 1 < hmax) c.discard();
    }
  }
  std::pair<P4, double> r;
  const int e = caughtInt([&] { r = hierarchicalOCVfit(hmax, q.gp.fixed(), q.gn.fixed(), q.gsp.fixed(), q.gsn.fixed(), here("p.csv"), here("n.csv"), here("c.csv"), q.cp, q.cn); });
  if (e != -1) c.fail("P25.search-threw", "the search threw " + std::to_string(e));
  const double N = (double)q.cell.x.size();
  bool edge = false;
  const double own = std::sqrt(refCost(q.p, q.n, r.first[0], r.first[1], r.first[2], r.first[3], q.cp, q.cn, q.cell, edge) / N);
  if (!edge && !near(own, r.second, 1e-7, 1e-8)) c.fail("P25.search-pair", "the parameters " + show(r.first) + " have an error of " + num(own) + ", reported is " + num(r.second));
  if (r.second > std::sqrt(first / N) * (1 + 1e-7) + 1e-8) c.fail("P25.search-worse", "the reported error of " + num(r.second) + " is larger than " + num(std::sqrt(first / N)) + " found in the first level");
  if (unique) {
    if (!near(r.second, std::sqrt(cost / N), 1e-7, 1e-8)) c.fail("P25.search", "the search returned an error of " + num(r.second) + " at " + show(r.first) + ", the smallest one is " + num(std::sqrt(cost / N)) + " at " + show(par));
    for (int i = 0; i < 4; i++)
      if (!near(r.first[i], par[i], 1e-9, 1e-12)) c.fail("P25.search", "the search returned " + show(r.first) + " instead of " + show(par));
    for (int h = 0; h < hmax; h++) {
      const fs::path f = fs::path("results") / ("OCVFit_" + std::to_string(h) + "_param.csv");
      auto ls = lines(f);
      if (ls.size() != 4) c.fail("P25.level-file", "the file of level " + std::to_string(h) + " has " + std::to_string(ls.size()) + " lines");
      for (int i = 0; i < 4; i++) {
        const auto k = ls[i].rfind(',');
        if (k == std::string::npos || !near(std::strtod(ls[i].c_str() + k + 1, nullptr), levels[h][i], 1e-5, 1e-12)) c.fail("P25.level-file", "line '" + ls[i] + "' of level " + std::to_string(h) + " should give " + num6(levels[h][i]));
      }
    }
    if (hmax > 1) c.nontrivial();
  }
  c.label(unique ? "unique" : "ties");
  if (q.planted) c.label("planted");
  c.step();
}

int main(int a, char **b) { return pbt::pbtMain(a, b); }
