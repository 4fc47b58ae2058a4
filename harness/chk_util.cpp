// P20 interpolation, P21 numeric files, P22 ranges / histograms / containers
#include "slide.hpp"
#include "types/Interval.hpp"
#include "types/PtrInterval.hpp"
#include "pbt.hpp"
#include "common.hpp"
#include <filesystem>
#include <list>
#include <numeric>
using namespace slide;
using namespace pbt;
using vt::caughtInt;
namespace fs = std::filesystem;

// ------------------------------------------------------------------------------------------------------------------ tables
struct Table
{
  std::vector<double> x, y;
  std::string show() const
  {
    std::string s;
    for (size_t i = 0; i < x.size() && i < 40; i++) s += "(" + num(x[i]) + "," + num6(y[i]) + ") ";
    return s;
  }
};
static Table genTable(Case &c, int minN, int kind = -1)
{
  Table t;
  const int n = (int)c.i(minN, c.b(1, 6) ? (c.thorough ? 600 : 250) : 12);
  if (kind < 0) kind = c.weighted({ 3, 3, 4, 1 });
  const double x0 = c.pick({ 0.0, 1.0, -1.0, 1e-3, 100.0, -1e4 }) * (c.b(1, 2) ? c.r(0.1, 2) : 1);
  const double dx = c.pick({ 1.0, 0.1, 0.01, 1e-4, 7.0, 1000.0 }) * (c.b(1, 2) ? c.r(0.5, 2) : 1);
  double x = x0;
  int drift = (int)c.i(0, 2);
  for (int i = 0; i < n; i++) {
    t.x.push_back(x);
    if (kind == 0) // equally spaced
      x = x0 + (i + 1) * dx;
    else if (kind == 1) // nearly equally spaced (rounded tables), drifting one way or back and forth
      x += dx * (i == 0 ? 1 : 1 + 0.009 * (drift == 0 ? c.r(-1, 1) : drift == 1 ? c.r(0, 1) : -c.r(0, 1)));
    else if (kind == 2)
      x += dx * c.rlog(1e-3, 1e2);
    else
      x += dx * (i % 2 ? 1e-6 : 1.0);
  }
  for (size_t i = 1; i < t.x.size(); i++)
    if (!(t.x[i] > t.x[i - 1])) c.discard();
  const int yk = (int)c.i(0, 3);
  for (int i = 0; i < n; i++) t.y.push_back(yk == 0 ? c.r(-5, 5) : yk == 1 ? c.rlog(1e-8, 1e8) : yk == 2 ? (double)i : 3.0 + 0.1 * std::sin(0.3 * i));
  return t;
}
static double genX(Case &c, const Table &t, int &where) // where: -1 below, 0 inside, 1 above, 2 at a node
{
  const size_t n = t.x.size();
  const double span = std::max(t.x.back() - t.x.front(), 1e-3);
  double x;
  switch (c.weighted({ 4, 3, 2, 4, 2, 1 })) {
  case 0: x = t.x[c.draw(n - 1)]; break;
  case 1: { // right next to a node
    const size_t k = c.draw(n - 1);
    x = c.b(1, 2) ? std::nextafter(t.x[k], 1e300) : std::nextafter(t.x[k], -1e300);
    if (c.b(1, 2)) x = t.x[k] + (c.b(1, 2) ? 1 : -1) * span * c.rlog(1e-14, 1e-6);
    break;
  }
  case 2: x = c.r(t.x.front(), t.x.back()); break;
  case 3: { // within a chosen segment
    if (n < 2) {
      x = t.x[0];
      break;
    }
    const size_t k = c.draw(n - 2);
    x = t.x[k] + (t.x[k + 1] - t.x[k]) * c.r(0, 1);
    break;
  }
  case 4: x = c.b(1, 2) ? t.x.back() + span * c.rlog(1e-12, 10) : t.x.front() - span * c.rlog(1e-12, 10); break;
  default: x = c.pick({ 1e300, -1e300, 1e18, -1e18, (double)INFINITY, -(double)INFINITY, (double)NAN }); break;
  }
  where = std::isnan(x) ? -2 : x < t.x.front() ? -1 : x > t.x.back() ? 1 : std::find(t.x.begin(), t.x.end(), x) != t.x.end() ? 2 : 0;
  return x;
}
// what any correct interpolation returns, with the error a careful implementation can make
static void refInterp(const Table &t, double x, double &y, double &tol)
{
  const size_t n = t.x.size();
  if (x <= t.x.front()) {
    y = t.y.front(), tol = 1e-12 * std::fabs(y);
    return;
  }
  if (x >= t.x.back()) {
    y = t.y.back(), tol = 1e-12 * std::fabs(y);
    return;
  }
  size_t k = 0;
  while (k + 2 < n && x > t.x[k + 1]) k++;
  const long double xl = t.x[k], xr = t.x[k + 1], yl = t.y[k], yr = t.y[k + 1];
  y = (double)(yl + (yr - yl) * (((long double)x - xl) / (xr - xl)));
  tol = 1e-12 * (double)(fabsl(yl) + fabsl(yr)) + 8e-16 * (double)(fabsl(yr - yl) / (xr - xl) * std::max(fabsl(xl), fabsl(xr)));
}
static void checkInterp(Case &c, const std::string &what, const Table &t, double x, int where, bool bound, int thrown, double got)
{
  if (where == -2 && !bound) {
    c.check(thrown != -1 || std::isnan(got) || (got >= *std::min_element(t.y.begin(), t.y.end()) && got <= *std::max_element(t.y.begin(), t.y.end())), "P20.nan", what + " at not-a-number is " + num(got));
    return;
  }
  if (bound && (where == -1 || where == 1 || where == -2)) {
    c.check(thrown != -1, "P20.no-error", what + " outside the table (x=" + num(x) + ") with errors requested returned " + num(got));
    return;
  }
  c.check(thrown == -1, "P20.error", what + " threw at x=" + num(x));
  double y, tol;
  refInterp(t, x, y, tol);
  c.check(near(got, y, 0, tol), where == 2 ? "P20.node" : where == 0 ? "P20.linear" : "P20.end", what + " at x=" + num(x) + " is " + num(got) + ", expected " + num(y));
}
PBT_SUB("P20.interp", 3000000, 24000000, "random strictly increasing tables (equally spaced, equal within 1%, irregular, 1 to hundreds of nodes) through the curve class with vectors and views, queried at nodes, next to them, inside and outside, with and without error request: against extended-precision interpolation; non-trivial: at least two nodes and a query not left of the table")
{
  Table t = genTable(c, 1);
  auto xs = t.x, ys = t.y;
  std::span<double> sx{ xs }, sy{ ys };
  const bool view = c.b(1, 3);
  XYdata_vv v(xs, ys);
  XYdata_ss w(sx, sy);
  for (int k = 0, q = (int)c.i(1, 6); k < q; k++) {
    c.step();
    int where;
    const double x = genX(c, t, where);
    const bool bound = c.b(1, 2);
    double got = 0;
    const int e = caughtInt([&] { got = view ? w.interp(x, c.b(1, 8), bound) : v.interp(x, c.b(1, 8), bound); });
    if (k == 0) c.desc << t.x.size() << " nodes: " << t.show() << "\n";
    c.desc << (view ? "view" : "vector") << " x=" << num(x) << " bound=" << bound << "\n";
    checkInterp(c, "the curve", t, x, where, bound, e, got);
    c.nontrivial(t.x.size() > 1 && where != -1);
    c.label(where == 2 ? "node" : where == 0 ? "inside" : "outside");
  }
  c.check(v.size() == t.x.size(), "P20.size", "the curve has another number of points than given");
}
PBT_SUB("P20.linint", 1600000, 16000000, "the interpolation functions on vectors and arrays of which only the first nin entries belong to the table, with and without the equal-spacing shortcut, and their status result; non-trivial: at least two nodes and a query not left of the table")
{
  const bool fixed = c.b(1, 2);
  Table t = genTable(c, 1, fixed && c.b(1, 2) ? 0 : fixed ? 1 : -1);
  const int n = (int)t.x.size();
  const bool fix = fixed && n > 1;
  auto xs = t.x, ys = t.y;
  const int extra = (int)c.i(0, 3);
  for (int k = 0; k < extra; k++) xs.push_back(xs.back() + 1 + k), ys.push_back(1e30);
  for (int k = 0, q = (int)c.i(1, 6); k < q; k++) {
    c.step();
    int where;
    const double x = genX(c, t, where);
    const bool bound = c.b(1, 2), print = c.b(1, 8);
    if (k == 0) c.desc << n << " nodes (+" << extra << " unused), fixed=" << fix << ": " << t.show() << "\n";
    c.desc << "x=" << num(x) << " bound=" << bound << "\n";
    double got = 0;
    int e;
    if (n <= 12) {
      std::array<double, 16> ax{}, ay{};
      std::copy(xs.begin(), xs.begin() + n, ax.begin());
      std::copy(ys.begin(), ys.begin() + n, ay.begin());
      for (int j = n; j < 16; j++) ax[j] = ax[n - 1] + 1e-3 * (j - n + 1), ay[j] = -1e30;
      e = caughtInt([&] { got = linInt(print, bound, ax, ay, n, x, fix); });
      checkInterp(c, "array interpolation", t, x, where, bound, e, got);
    }
    e = caughtInt([&] { got = linInt(print, bound, xs, ys, n, x, fix); });
    checkInterp(c, "vector interpolation", t, x, where, bound, e, got);
    auto [yy, st] = linInt_noexcept(bound, xs, ys, n, x, fix);
    const int want = !bound ? 0 : where == -1 ? -1 : where == 1 ? 1 : 0;
    c.check(where == -2 || st == want, "P20.status", "status " + std::to_string(st) + " instead of " + std::to_string(want));
    if (st == 0 && where != -2) checkInterp(c, "interpolation without exceptions", t, x, where, false, -1, yy);
    c.nontrivial(n > 1 && where != -1);
  }
}
PBT_SUB("P20.ranges", 1000000, 8000000, "curves whose abscissae are an evenly spaced range object (linear or logarithmic); non-trivial: a query not left of the table")
{
  const int n = (int)c.i(2, c.b(1, 5) ? 400 : 20);
  const bool lg = c.b(1, 4);
  const double x0 = lg ? c.rlog(1e-3, 10) : c.r(-10, 10), dx = lg ? c.r(1.1, 3) : c.rlog(1e-3, 10);
  if (lg && n > 60) c.discard();
  FixedData<double> fx = lg ? logstep_fix(x0, dx, n) : c.b(1, 2) ? linstep_fix(x0, dx, n) : linspace_fix(x0, x0 + dx * (n - 1), n);
  Table t;
  for (int i = 0; i < n; i++) t.x.push_back(fx[i]), t.y.push_back(c.r(-5, 5));
  XYdata_fv cv(fx, t.y);
  c.desc << "range from " << num(x0) << " step " << num(dx) << (lg ? " (log)" : "") << " n=" << n << "\n";
  for (int k = 0, q = (int)c.i(1, 5); k < q; k++) {
    int where;
    const double x = genX(c, t, where);
    const bool bound = c.b(1, 2);
    c.desc << "x=" << num(x) << " bound=" << bound << "\n";
    double got = 0;
    const int e = caughtInt([&] { got = cv.interp(x, false, bound); });
    checkInterp(c, "the range curve", t, x, where, bound, e, got);
    c.nontrivial(where != -1);
  }
}

// ------------------------------------------------------------------------------------------------------------------ files
static std::string genNumber(Case &c, double &val)
{
  double x = 0;
  char b[64];
  switch (c.weighted({ 3, 2, 2, 2, 1, 1 })) {
  case 0: x = (double)c.i(-1000, 1000); break;
  case 1: x = c.r(-10, 10); break;
  case 2: x = c.rlog(1e-12, 1e12) * (c.b(1, 3) ? -1 : 1); break;
  case 3: x = 0.001 * (double)c.i(-5000, 5000); break;
  case 4: x = 0; break;
  default: x = c.pick({ 1e-300, 1e300, -1e-300, 1.7e308, 2.2250738585072014e-308, 4503599627370497.5, 0.1, 1.0 / 3 }); break;
  }
  switch (c.weighted({ 4, 2, 2, 1, 1, 1, 1 })) {
  case 0: snprintf(b, sizeof b, "%.17g", x); break;
  case 1: snprintf(b, sizeof b, "%g", x); break;
  case 2: snprintf(b, sizeof b, "%.15e", x); break;
  case 3: snprintf(b, sizeof b, "%.16E", x); break;
  case 4: snprintf(b, sizeof b, std::fabs(x) < 1e15 ? "%.6f" : "%.17g", x); break;
  case 5: // without a digit before the point
    x = (double)c.i(1, 999) / 1000;
    snprintf(b, sizeof b, ".%03d", (int)std::lround(x * 1000));
    if (c.b(1, 2)) {
      char d[64];
      snprintf(d, sizeof d, "-%s", b);
      strcpy(b, d);
    }
    break;
  default: // a point without digits after it, leading zeros
    x = (double)c.i(0, 500);
    snprintf(b, sizeof b, c.b(1, 2) ? "%.0f." : "00%.0f", x);
    break;
  }
  val = strtod(b, nullptr);
  return b;
}
struct Csv
{
  std::vector<std::vector<double>> rows;
  std::string text;
  std::string name;
  bool blanks{}, bom{}, crlf{};
};
static std::string freshName()
{
  static long counter = 0;
  return "f" + std::to_string(getpid()) + "_" + std::to_string(counter++) + ".csv";
}
static Csv genCsv(Case &c, int nrow, int ncol)
{
  Csv f;
  const std::string sep = c.pick<const char *>({ ",", ",", ", ", ";", " , ", ",\t" });
  const std::string eol = c.pick<const char *>({ "\n", "\n", "\r\n" });
  f.crlf = eol.size() == 2;
  f.bom = c.b(1, 4);
  if (f.bom) f.text += "\xEF\xBB\xBF";
  for (int i = 0; i < nrow; i++) {
    f.rows.emplace_back();
    for (int j = 0; j < ncol; j++) {
      double v;
      f.text += genNumber(c, v) + (j + 1 < ncol ? sep : "");
      f.rows.back().push_back(v);
    }
    if (i + 1 < nrow) f.text += eol;
  }
  const int tail = (int)c.i(0, 4); // nothing, one end of line, or blank lines
  for (int k = 0; k < tail; k++) f.text += (k > 0 && c.b(1, 4) ? " " : "") + eol;
  f.blanks = tail > 1;
  f.name = freshName();
  std::ofstream(f.name, std::ios::binary) << f.text;
  c.desc << "file of " << nrow << "x" << ncol << (f.bom ? " BOM" : "") << (f.crlf ? " CRLF" : "") << " tail " << tail << " separator '" << sep << "'\n" << f.text.substr(0, 400) << "\n";
  c.label(f.bom ? "BOM" : "no BOM");
  c.label(f.blanks ? "blank trailing lines" : "no blank trailing lines");
  return f;
}
struct Remove
{
  std::string n;
  ~Remove() { fs::remove(n); }
};
PBT_SUB("P21.two", 240000, 2400000, "well-formed two-column files (any number format, separators, line ends, blank trailing lines, byte-order mark) read whole or partly into vectors, arrays and views; non-trivial: at least two rows")
{
  const int nrow = (int)c.i(1, c.b(1, 5) ? 200 : 8);
  Csv f = genCsv(c, nrow, 2);
  Remove rm{ f.name };
  const int n = c.b(1, 2) ? 0 : (int)c.i(1, nrow);
  const int want = n == 0 ? nrow : n;
  const int how = (int)c.i(0, 3);
  c.desc << "n=" << n << " into " << how << "\n";
  std::vector<double> x(c.i(0, 3), 7.0), y(3, 7.0);
  std::array<double, 256> ax, ay;
  ax.fill(-77), ay.fill(-77);
  std::array<double, 5> sx, sy;
  std::span<double> px, py;
  XYdata_vv d;
  if (how == 0) loadCSV_2col(f.name, x, y, n);
  else if (how == 1) {
    loadCSV_2col(f.name, ax, ay, n);
    for (int i = want; i < 256; i++)
      if (n > 0) c.check(ax[i] == -77 && ay[i] == -77, "P21.beyond", "reading " + std::to_string(want) + " rows changed entry " + std::to_string(i));
    x.assign(ax.begin(), ax.begin() + want), y.assign(ay.begin(), ay.begin() + want);
  } else if (how == 2) {
    loadCSV_2col(fs::path(f.name), px, py, n);
    x.assign(px.begin(), px.end()), y.assign(py.begin(), py.end());
    if (c.b(1, 2)) { // once more, from the store
      std::span<double> qx, qy;
      loadCSV_2col(fs::path(f.name), qx, qy, 0);
      c.check((int)qx.size() == nrow && (int)qy.size() == nrow, "P21.rows", "a second read has " + std::to_string(qx.size()) + " rows");
      for (int i = 0; i < nrow; i++) c.check(qx[i] == f.rows[i][0] && qy[i] == f.rows[i][1], "P21.value", "row " + std::to_string(i) + " differs on the second read");
    }
  } else {
    loadCSV_2col(f.name, d, n);
    x = d.x, y = d.y;
  }
  { // a file with more rows than the arrays hold
    struct
    {
      std::array<double, 4> x, y;
      std::array<double, 8> guard;
    } g;
    g.guard.fill(5);
    loadCSV_2col(f.name, g.x, g.y, n);
    for (double q : g.guard) c.check(q == 5, "P21.overrun", "reading wrote beyond the array");
    for (int i = 0; i < std::min(want, 4); i++) c.check(g.x[i] == f.rows[i][0] && g.y[i] == f.rows[i][1], "P21.value", "row " + std::to_string(i) + " differs in a small array");
  }
  c.check((int)x.size() == want && (int)y.size() == want, "P21.rows", std::to_string(x.size()) + " and " + std::to_string(y.size()) + " numbers read from " + std::to_string(want) + " rows");
  for (int i = 0; i < want; i++)
    c.check(x[i] == f.rows[i][0] && y[i] == f.rows[i][1], "P21.value", "row " + std::to_string(i) + " was read as " + num(x[i]) + "," + num(y[i]) + ", the file has " + num(f.rows[i][0]) + "," + num(f.rows[i][1]));
  c.nontrivial(nrow > 1);
}
PBT_SUB("P21.views", 24000, 240000, "two to five two-column files (same names in different folders, names that are prefixes of each other) read as views in any order, whole or partly, repeatedly: every view holds the rows of its own file, also after the others were read; non-trivial: two files with different rows")
{
  static long counter = 0;
  const std::string base = "d" + std::to_string(getpid()) + "_" + std::to_string(counter++);
  struct Dirs
  {
    std::string b;
    ~Dirs()
    {
      for (const char *k : { "_0", "_1", "_2" }) fs::remove_all(b + k);
    }
  } dirs{ base };
  struct View
  {
    std::span<double> x, y;
    size_t file;
    int n;
  };
  std::vector<Csv> files;
  std::vector<std::string> paths;
  std::vector<View> views;
  auto same = [&](const View &v) {
    const auto &f = files[v.file];
    if ((int)v.x.size() != v.n || (int)v.y.size() != v.n) return false;
    for (int i = 0; i < v.n; i++)
      if (v.x[i] != f.rows[i][0] || v.y[i] != f.rows[i][1]) return false;
    return true;
  };
  for (int k = 0, nf = (int)c.i(2, 5); k < nf; k++) {
    Csv f = genCsv(c, (int)c.i(1, 6), 2);
    const std::string dir = base + c.pick<const char *>({ "_0", "_1", "_2" });
    const std::string p = dir + "/" + c.pick<const char *>({ "a.csv", "ab.csv", "A.csv", "a.csv.csv", "b.csv", "a" });
    fs::create_directories(dir);
    if (std::find(paths.begin(), paths.end(), p) != paths.end()) {
      fs::remove(f.name);
      continue;
    }
    fs::rename(f.name, p);
    paths.push_back(p), files.push_back(f);
  }
  for (int k = 0, n = (int)c.i(2, 10); k < n; k++) {
    c.step();
    View v;
    v.file = (size_t)c.i(0, (int)files.size() - 1);
    const int nrow = (int)files[v.file].rows.size(), part = c.b(1, 2) ? 0 : (int)c.i(1, nrow);
    v.n = part == 0 ? nrow : part;
    c.desc << " read " << paths[v.file] << " n=" << part << "\n";
    loadCSV_2col(fs::path(paths[v.file]), v.x, v.y, part);
    c.check(same(v), "P21.view", "the view of " + paths[v.file] + " does not hold the rows of that file");
    views.push_back(v);
  }
  for (auto &v : views) c.check(same(v), "P21.view-lost", "an earlier view of " + paths[v.file] + " changed when other files were read");
  c.nontrivial(files.size() > 1);
}
PBT_SUB("P21.ncol", 240000, 2400000, "well-formed N-column files into a dynamic matrix, whole or partly: shape and every value; non-trivial: at least two rows")
{
  const int nrow = (int)c.i(1, c.b(1, 5) ? 100 : 8), ncol = (int)c.i(1, 8);
  Csv f = genCsv(c, nrow, ncol);
  Remove rm{ f.name };
  const int n = c.b(1, 2) ? 0 : (int)c.i(1, nrow);
  const int want = n == 0 ? nrow : n;
  c.desc << "n=" << n << "\n";
  DynamicMatrix<double> m(2, 3, 5.0);
  loadCSV_Ncol(f.name, m, n);
  c.check(m.rows() == ncol && m.cols() == want, "P21.shape", "a file of " + std::to_string(want) + " rows with " + std::to_string(ncol) + " columns gives a profile of " + std::to_string(m.cols()) + " rows with " + std::to_string(m.rows()) + " columns");
  c.check((int)m.data.size() == ncol * want, "P21.count", std::to_string(m.data.size()) + " numbers read, the file has " + std::to_string(ncol * want));
  for (int i = 0; i < want; i++)
    for (int j = 0; j < ncol; j++)
      c.check(m(j, i) == f.rows[i][j], "P21.value", "row " + std::to_string(i) + " column " + std::to_string(j) + " was read as " + num(m(j, i)) + ", the file has " + num(f.rows[i][j]));
  c.nontrivial(nrow > 1);
}
template <size_t R, size_t C>
static void matCase(Case &c)
{
  Csv f = genCsv(c, R, C);
  Remove rm{ f.name };
  Matrix<double, R, C> m;
  for (auto &r : m) r.fill(3);
  loadCSV_mat(f.name, m);
  for (size_t i = 0; i < R; i++)
    for (size_t j = 0; j < C; j++)
      c.check(m[i][j] == f.rows[i][j], "P21.value", "row " + std::to_string(i) + " column " + std::to_string(j) + " was read as " + num(m[i][j]) + ", the file has " + num(f.rows[i][j]));
}
template <size_t R>
static void colCase(Case &c)
{
  Csv f = genCsv(c, R, 1);
  Remove rm{ f.name };
  std::array<double, R> m;
  m.fill(3);
  loadCSV_1col(f.name, m);
  for (size_t i = 0; i < R; i++) c.check(m[i] == f.rows[i][0], "P21.value", "row " + std::to_string(i) + " was read as " + num(m[i]) + ", the file has " + num(f.rows[i][0]));
}
PBT_SUB("P21.mat", 240000, 2400000, "well-formed files read into fixed-size matrices and single columns; non-trivial: all")
{
  switch (c.i(0, 8)) {
  case 0: matCase<1, 1>(c); break;
  case 1: matCase<1, 5>(c); break;
  case 2: matCase<3, 4>(c); break;
  case 3: matCase<6, 2>(c); break;
  case 4: matCase<5, 5>(c); break;
  case 5: matCase<12, 3>(c); break;
  case 6: colCase<1>(c); break;
  case 7: colCase<5>(c); break;
  default: colCase<17>(c); break;
  }
  c.nontrivial();
}
PBT_SUB("P21.missing", 4000, 40000, "missing files and directories given as files to every reader: an error, never data; files without numbers end without data; non-trivial: all")
{
  const int kind = (int)c.i(0, 4);
  std::string name = freshName();
  if (kind == 1) fs::create_directory(name);
  if (kind == 2) name = "nosuchdir/" + name;
  static const char *empties[] = { "", "\n", "\r\n\r\n", "\xEF\xBB\xBF", "\xEF\xBB\xBF\n", "  \n \n" };
  int em = 0;
  if (kind >= 3) em = (int)c.draw(5), std::ofstream(name, std::ios::binary) << empties[em];
  c.desc << (kind == 0 ? "missing file" : kind == 1 ? "a directory" : kind == 2 ? "file in a missing directory" : "file without numbers ") << em << "\n";
  struct Rm
  {
    std::string n;
    ~Rm() { fs::remove_all(n); }
  } rm{ kind == 2 ? freshName() : name };
  std::vector<double> x{ 1, 2 }, y{ 3, 4 };
  std::array<double, 4> ax{}, ay{};
  std::span<double> px, py;
  Matrix<double, 2, 2> m{};
  std::array<double, 3> col{};
  DynamicMatrix<double> dm;
  XYdata_vv d;
  const int how = (int)c.i(0, 7);
  c.desc << "reader " << how << "\n";
  size_t count = 0;
  const int e = caughtInt([&] {
    switch (how) {
    case 0: loadCSV_2col(name, x, y), count = x.size(); break;
    case 1: loadCSV_2col(name, ax, ay); break;
    case 2: loadCSV_2col(fs::path(name), px, py), count = px.size(); break;
    case 3: loadCSV_mat(name, m); break;
    case 4: loadCSV_1col(name, col); break;
    case 5: loadCSV_Ncol(name, dm), count = dm.data.size(); break;
    case 6: loadCSV_2col(name, d), count = d.x.size(); break;
    default: d.setCurve(name), count = d.x.size(); break;
    }
  });
  if (kind <= 2) c.check(e != -1, "P21.no-error", "reading gave no error");
  else c.check(e != -1 || count == 0, "P21.from-nothing", std::to_string(count) + " numbers read from a file without numbers");
  c.nontrivial();
}
PBT_SUB("P20.files", 90000, 1000000, "open-circuit and entropic curves set from generated files (views, vectors, the four-curve bundle) and the shipped Kokam curves: exactly the file's rows, and interpolation on them; non-trivial: at least two rows")
{
  const int kind = (int)c.i(0, 3);
  auto probe = [&](auto &cv, Table &t, const std::string &what) {
    c.check(cv.x.size() == t.x.size() && cv.y.size() == t.y.size(), "P20.curve-rows", what + " has " + std::to_string(cv.x.size()) + " points, the file " + std::to_string(t.x.size()));
    for (size_t i = 0; i < t.x.size(); i++) c.check(cv.x[i] == t.x[i] && cv.y[i] == t.y[i], "P20.curve-value", what + " point " + std::to_string(i) + " differs from the file");
    for (int k = 0; k < 4; k++) {
      int where;
      const double x = genX(c, t, where);
      const bool bound = c.b(1, 2);
      double got = 0;
      const int e = caughtInt([&] { got = cv.interp(x, false, bound); });
      c.desc << "x=" << num(x) << " bound=" << bound << "\n";
      checkInterp(c, what, t, x, where, bound, e, got);
    }
  };
  auto write = [&](const Table &t) {
    const std::string n = freshName();
    std::ofstream o(n);
    if (c.b(1, 4)) o << "\xEF\xBB\xBF";
    for (size_t i = 0; i < t.x.size(); i++) o << num(t.x[i]) << ',' << num(t.y[i]) << (c.b(1, 20) ? "\r\n" : "\n");
    return n;
  };
  if (kind == 0) { // shipped curves, read independently here
    const std::string names[] = { settings::path::Kokam::namepos, settings::path::Kokam::nameneg, settings::path::Kokam::nameentropicC, settings::path::Kokam::nameentropicCell };
    auto M = OCVcurves::makeOCVcurves(cellType::KokamNMC);
    XYdata_ss *cv[] = { &M.OCV_pos, &M.OCV_neg, &M.dOCV_neg, &M.dOCV_tot };
    const int k = (int)c.i(0, 3);
    static std::map<int, Table> cache;
    if (!cache.count(k)) {
      Table t;
      FILE *f = fopen((PathVar::data / names[k]).string().c_str(), "r");
      double a, b;
      for (int ch; f && (ch = fgetc(f)) != EOF;) // a byte-order mark
        if (ch < 128) {
          ungetc(ch, f);
          break;
        }
      while (f && fscanf(f, " %lf , %lf", &a, &b) == 2) t.x.push_back(a), t.y.push_back(b);
      if (f) fclose(f);
      cache[k] = t;
    }
    Table t = cache[k];
    if (t.x.size() < 2) c.discard();
    c.desc << "shipped curve " << names[k] << "\n";
    probe(*cv[k], t, "the shipped curve");
  } else if (kind == 1) {
    Table t[4];
    std::string n[4];
    for (int k = 0; k < 4; k++) t[k] = genTable(c, 2), n[k] = write(t[k]);
    OCVcurves M(fs::absolute(n[0]).string(), fs::absolute(n[1]).string(), fs::absolute(n[2]).string(), fs::absolute(n[3]).string());
    c.desc << "bundle of four curves\n";
    for (auto &x : n) fs::remove(x);
    probe(M.OCV_pos, t[0], "cathode curve");
    probe(M.OCV_neg, t[1], "anode curve");
    probe(M.dOCV_neg, t[2], "anode entropic curve");
    probe(M.dOCV_tot, t[3], "cell entropic curve");
  } else {
    Table t = genTable(c, 1);
    const std::string n = write(t);
    Remove rm{ n };
    c.desc << t.x.size() << " nodes: " << t.show() << "\n";
    if (kind == 2) {
      XYdata_vv v;
      v.setCurve(n);
      probe(v, t, "a curve of vectors");
    } else {
      XYdata_ss v;
      v.setCurve(fs::path(n));
      probe(v, t, "a curve of views");
    }
  }
  c.nontrivial();
}

// ------------------------------------------------------------------------------------------------------------------ ranges
PBT_SUB("P22.ranges", 800000, 16000000, "linear, logarithmic, start/stop/step and start/stop/count ranges: first, step, last, length, iteration in both directions, indexing through object and iterator, distance, search, neighbours of a point; non-trivial: length at least 2")
{
  const int kind = (int)c.i(0, 5);
  int n = (int)c.i(0, c.b(1, 5) ? 300 : 10);
  double x0 = c.pick({ 0.0, 1.0, -3.0, 0.1 }), dx = c.pick({ 1.0, 0.1, 0.01, 0.3, -0.7, 25.0 });
  if (c.b(1, 2)) x0 = c.r(-100, 100);
  if (c.b(1, 2)) dx = c.rlog(1e-4, 100) * (c.b(1, 3) ? -1 : 1);
  std::vector<double> want;
  FixedData<double> f;
  bool lg = false;
  switch (kind) {
  case 0:
    c.desc << "linstep_fix(" << num(x0) << "," << num(dx) << "," << n << ")\n";
    f = linstep_fix(x0, dx, n);
    for (int i = 0; i < n; i++) want.push_back(x0 + i * dx);
    break;
  case 1:
    x0 = c.rlog(1e-3, 1e3), dx = c.r(0.5, 2), n = std::min(n, 40), lg = true;
    c.desc << "logstep_fix(" << num(x0) << "," << num(dx) << "," << n << ")\n";
    f = logstep_fix(x0, dx, n);
    for (int i = 0; i < n; i++) want.push_back(x0 * std::pow(dx, i));
    break;
  case 2: // start, stop, step; the stop is reached when it is a whole number of steps away
  case 3: {
    dx = std::fabs(dx);
    const double frac = kind == 2 ? 0 : c.r(0.01, 0.99);
    n = std::max(1, n);
    const double stop = kind == 2 && c.b(1, 2) ? x0 + (n - 1) * dx : x0 + (n - 1 + frac) * dx;
    c.desc << "range_fix(" << num(x0) << "," << num(stop) << "," << num(dx) << ")\n";
    f = range_fix(x0, stop, dx);
    for (int i = 0; i < n; i++) want.push_back(x0 + i * dx);
    break;
  }
  case 4: {
    const double x1 = x0 + dx * 10;
    c.desc << "linspace_fix(" << num(x0) << "," << num(x1) << "," << n << ")\n";
    f = linspace_fix(x0, x1, n);
    for (int i = 0; i < n; i++) want.push_back(n == 1 ? x1 : x0 + (x1 - x0) * i / (n - 1));
    if (n > 1) dx = (x1 - x0) / (n - 1);
    break;
  }
  default: {
    const double x1 = x0 + dx * 10;
    if (c.b(1, 6)) n = -(int)c.i(0, 3);
    c.desc << "linspace(" << num(x0) << "," << num(x1) << "," << n << ")\n";
    auto v = linspace(x0, x1, n);
    for (int i = 0; i < n; i++) want.push_back(n == 1 ? x1 : x0 + (x1 - x0) * i / (n - 1));
    c.check(v.size() == want.size(), "P22.length", "length " + std::to_string(v.size()) + " instead of " + std::to_string(want.size()));
    for (size_t i = 0; i < v.size(); i++) c.check(near(v[i], want[i], 1e-12, 1e-12 * (std::fabs(x0) + std::fabs(x1))), "P22.value", "value " + std::to_string(i) + " is " + num(v[i]) + " instead of " + num(want[i]));
    if (n > 0) c.check(v.back() == x1, "P22.last", "the last value is " + num(v.back()));
    auto w = linspace<7>(x0, x1);
    for (int i = 0; i < 7; i++) c.check(near(w[i], x0 + (x1 - x0) * i / 6, 1e-12, 1e-12 * (std::fabs(x0) + std::fabs(x1))), "P22.value", "value " + std::to_string(i) + " of the array is " + num(w[i]));
    auto w1 = linspace<1>(x0, x1);
    c.check(w1[0] == x1, "P22.value", "array of one value is " + num(w1[0]));
    c.nontrivial(n > 1);
    return;
  }
  }
  const double scale = std::fabs(x0) + std::fabs(dx) * n + 1e-300;
  auto eq = [&](double a, double b) { return near(a, b, 1e-12, lg ? 0 : 1e-13 * scale); };
  c.check(f.size() == want.size(), "P22.length", "length " + std::to_string(f.size()) + " instead of " + std::to_string(want.size()));
  size_t k = 0;
  for (auto x : f) {
    c.check(k < want.size(), "P22.iterate", "iteration goes beyond the length");
    c.check(eq(x, want[k]), "P22.value", "value " + std::to_string(k) + " is " + num(x) + " instead of " + num(want[k]));
    c.check(f[(int)k] == x && f((int)k) == x && f.begin()[(int)k] == x, "P22.index", "value " + std::to_string(k) + " by index differs from iteration");
    k++;
  }
  c.check(k == want.size(), "P22.iterate", "iteration ends after " + std::to_string(k));
  if (n > 0) {
    c.check(eq(f.front(), want.front()) && eq(f.back(), want.back()), "P22.front-back", "front/back are " + num(f.front()) + "/" + num(f.back()));
    auto e = f.end();
    --e;
    c.check(*e == f.back(), "P22.iterate", "the value before the end is " + num(*e));
    auto b = f.begin();
    const int m = (int)c.i(0, n - 1);
    for (int i = 0; i < m; i++) b++;
    c.check(*b == f[m] && *(f.begin() + m) == f[m] && (b - f.begin()) == m && (f.end() - b) == n - m && distance(f.begin(), f.end()) == -n, "P22.distance", "iterator arithmetic is inconsistent");
    const double p = f[m];
    const double nx = lg ? p * dx : p + f.dstep(), pv = lg ? p / dx : p - f.dstep();
    c.check(eq(f.next(p), nx) && eq(f.prev(p), pv), "P22.neighbour", "neighbours of " + num(p) + " are " + num(f.prev(p)) + " and " + num(f.next(p)));
  }
  if (n > 1 && (kind != 1 || dx > 1.001) && dx > 0) { // search
    const double q = c.b(1, 2) ? f[(int)c.i(0, n - 1)] : c.r(want.front() - dx, want.back() + dx);
    auto it = std::lower_bound(f.begin(), f.end(), q);
    const int at = it - f.begin();
    c.check(at >= 0 && at <= n && (at == n || f[at] >= q) && (at == 0 || f[at - 1] < q), "P22.search", "search for " + num(q) + " gives position " + std::to_string(at));
    c.check((int)std::count_if(f.begin(), f.end(), [&](double v) { return v < q; }) == at, "P22.search", "counting disagrees with searching");
  }
  f.clear();
  c.check(f.size() == 0, "P22.clear", "a cleared range has length " + std::to_string(f.size()));
  c.nontrivial(n > 1);
}
PBT_SUB("P22.histogram", 200000, 4000000, "histograms of random range and bin count fed with samples inside, on and next to edges, far outside and non-finite, default-constructed ones too: every sample counted once and in the bin whose edges enclose it; edges printed and listed; non-trivial: at least two samples")
{
  const bool dflt = c.b(1, 20);
  const int nb = c.b(1, 3) ? settings::DATASTORE_NHIST : (int)c.i(1, c.b(1, 3) ? 300 : 12);
  const double lo = c.b(1, 2) ? c.pick({ 0.0, -1.0, 2.7, 273.0, -16.0 }) : c.r(-300, 300), w = c.b(1, 2) ? c.pick({ 1.0, 1.5, 60.0, 32.0 }) : c.rlog(1e-3, 1e4), hi = lo + w;
  Histogram<> h, hd;
  if (!dflt) h = (nb == settings::DATASTORE_NHIST && c.b(1, 2)) ? Histogram<>(lo, hi) : Histogram<>(lo, hi, nb);
  c.desc << (dflt ? "default histogram" : "histogram " + num(lo) + ".." + num(hi) + " in " + std::to_string(nb)) << ":";
  const double dx = (hi - lo) / nb, etol = 1e-9 + 1e-15 * (std::fabs(lo) + w) / dx;
  if (etol > 0.2) c.discard();
  std::vector<size_t> cnt(nb + 2, 0);
  size_t loose = 0;
  const int n = (int)c.i(1, 40);
  for (int k = 0; k < n; k++) {
    double x;
    switch (c.weighted({ 6, 3, 2, 1 })) {
    case 0: x = c.r(lo - dx, hi + dx); break;
    case 1: x = lo + dx * (double)c.i(0, nb) + c.pick({ 0.0, 1e-6, -1e-6 }) * dx; break;
    case 2: x = c.pick({ lo - 1e5 * w, hi + 1e5 * w, lo - 1e-3 * w, hi + 1e-3 * w, lo, hi }); break;
    default: x = c.pick({ 1e300, -1e300, 1e15, -1e15, (double)INFINITY, -(double)INFINITY }); break;
    }
    c.desc << ' ' << num(x);
    h.add(x);
    if (dflt) continue;
    // bins[0] below, bins[i] edge[i-1] <= x < edge[i], bins[nb+1] from the last edge on
    const long double q = ((long double)x - lo) / dx;
    size_t bin = q < 0 ? 0 : q >= nb ? nb + 1 : 1 + (size_t)q;
    const bool onEdge = q > -0.5 && q < nb + 0.5 && fabsl(q - roundl(q)) < etol;
    if (onEdge) { // rounding decides: count it where it went, if that is one of the two
      const size_t a = (size_t)llroundl(q), b = a + 1; // bins left and right of the edge
      auto v = h.viewBinValues();
      bin = v[a] > cnt[a] ? a : b;
      if (std::floor(x) == x && std::floor(lo) == lo && dx == 1) bin = b; // exact arithmetic: the edge belongs to the right bin
      loose++;
    }
    cnt[bin]++;
    auto v = h.viewBinValues();
    c.check(v.size() == cnt.size(), "P22.bins", "the histogram has " + std::to_string(v.size()) + " bins");
    for (size_t i = 0; i < cnt.size(); i++)
      if (v[i] != cnt[i]) c.fail("P22.bin", "after adding " + num(x) + " bin " + std::to_string(i) + " holds " + std::to_string(v[i]) + ", expected " + std::to_string(cnt[i]));
  }
  if (!dflt) {
    auto e = h.getEdgeValues();
    c.check((int)e.size() == nb + 1, "P22.edges", std::to_string(e.size()) + " edges for " + std::to_string(nb) + " bins");
    for (int i = 0; i <= nb; i++) c.check(near(e[i], lo + i * dx, 1e-12, 1e-12 * (std::fabs(lo) + w)), "P22.edge", "edge " + std::to_string(i) + " is " + num(e[i]));
    std::ostringstream o;
    o << h;
    std::istringstream in(o.str());
    std::string l;
    std::getline(in, l);
    c.check(l == "Edges:", "P22.print", "no edges header");
    std::getline(in, l);
    c.check((int)std::count(l.begin(), l.end(), ',') == nb + 1, "P22.print", "another number of edges is printed");
    std::getline(in, l);
    std::getline(in, l);
    std::string want;
    for (auto x : cnt) want += std::to_string(x) + ',';
    c.check(l == want, "P22.print", "printed bins differ from the counts");
    c.check(std::accumulate(h.begin(), h.end(), size_t(0)) == (size_t)n && h.size() == cnt.size(), "P22.total", "not every sample is counted once");
  }
  c.nontrivial(n > 1);
}
PBT_SUB("P22.small", 400000, 8000000, "bounded vectors and degradation identifiers: random pushes up to and beyond capacity against a plain vector; printed identifiers against the documented format; non-trivial: at least one push")
{
  if (c.b(1, 2)) {
    SmallVector<unsigned, 10> v;
    std::vector<unsigned> m;
    if (c.b(1, 4)) {
      const unsigned k = (unsigned)c.i(0, 12);
      c.desc << "vector of " << k << " ";
      const int e = caughtInt([&] { v = SmallVector<unsigned, 10>(k); });
      c.check((e != -1) == (k > 10), "P22.small-ctor", "a vector of " + std::to_string(k) + " in room for 10 was " + (e == -1 ? "accepted" : "refused"));
      if (e == -1) m.assign(k, 0);
    }
    struct Guard
    {
      SmallVector<unsigned, 10> v;
      unsigned g[4]{ 1, 2, 3, 4 };
    } gd;
    gd.v = v;
    for (int k = 0, n = (int)c.i(0, 14); k < n; k++) {
      const unsigned x = (unsigned)c.i(0, 99);
      c.desc << "push " << x << ' ';
      const int e = caughtInt([&] { gd.v.push_back((unsigned)x); });
      c.check((e != -1) == (m.size() >= 10), "P22.small-full", "pushing a value onto " + std::to_string(m.size()) + " in room for 10 was " + (e == -1 ? "accepted" : "refused"));
      if (e == -1) m.push_back(x);
      c.check(gd.g[0] == 1 && gd.g[1] == 2 && gd.g[2] == 3 && gd.g[3] == 4, "P22.small-overflow", "pushing wrote beyond the vector");
      if (m.size() && c.b(1, 5)) {
        const unsigned at = (unsigned)c.i(0, (long)m.size() - 1);
        gd.v[at] = x + 1, m[at] = x + 1;
      }
      c.nontrivial();
    }
    const auto &cv = gd.v;
    c.check(gd.v.empty() == m.empty() && gd.v.N == m.size(), "P22.small-size", "size differs");
    size_t k = 0;
    for (auto x : gd.v) c.check(k < m.size() && x == m[k], "P22.small-value", "element " + std::to_string(k) + " differs"), k++;
    c.check(k == m.size(), "P22.small-size", "iteration has another length");
    c.check((size_t)(cv.cend() - cv.cbegin()) == m.size(), "P22.small-size", "constant iteration has another length");
    for (size_t i = 0; i < m.size(); i++) c.check(cv[(unsigned)i] == m[i], "P22.small-value", "element " + std::to_string(i) + " differs by index");
    c.check(caughtInt([&] { gd.v[(unsigned)m.size()] = 1; }) != -1, "P22.small-index", "an index beyond the elements was accepted");
    return;
  }
  DEG_ID d;
  std::vector<int> l[3];
  DEG_ID::DegArray *arr[] = { &d.SEI_id, &d.CS_id, &d.LAM_id };
  for (int k = 0; k < 3; k++)
    for (int i = 0, n = (int)c.i(0, 5); i < n; i++) {
      const int id = (int)c.i(0, 12);
      arr[k]->add_model((DEG_ID::data_t)id);
      if (id) l[k].push_back(id);
      c.nontrivial();
    }
  const int por = (int)c.i(0, 1), dif = (int)c.i(0, 5), pl = (int)c.i(0, 1);
  d.SEI_porosity = (DEG_ID::data_t)por, d.CS_diffusion = (DEG_ID::data_t)dif, d.pl_id = (DEG_ID::data_t)pl;
  auto join = [](const std::vector<int> &v) {
    std::string s;
    for (int x : v) s += (s.empty() ? "" : "-") + std::to_string(x);
    return s.empty() ? std::string("0") : s;
  };
  const std::string base = join(l[0]) + "-" + std::to_string(por) + "_" + join(l[1]) + "-" + std::to_string(dif) + "_";
  const std::string a = base + join(l[2]) + "_" + std::to_string(pl), b = base + "0-_" + std::to_string(pl); // without loss of active material the separator is kept
  const std::string got = d.print();
  c.desc << "identifier " << got << "\n";
  c.check(got == a || (l[2].empty() && got == b), "P22.identifier", "printed " + got + ", selected " + a);
}

// a value that counts its lives and copies itself
struct Animal
{
  static inline long alive = 0;
  int v;
  explicit Animal(int x) : v(x) { alive++; }
  Animal(const Animal &o) : v(o.v) { alive++; }
  virtual ~Animal() { alive--; }
  virtual Animal *copy() { return new Animal(*this); }
  virtual int kind() { return 0; }
};
struct Dog : Animal
{
  int w;
  explicit Dog(int x) : Animal(x), w(-x) {}
  Dog *copy() override { return new Dog(*this); }
  int kind() override { return 1; }
};
PBT_SUB("P22.owning", 400000, 8000000, "random construction, copying, moving, swapping, resetting and destruction of owning pointers against a value model, with life counting; non-trivial: at least one copy")
{
  Animal::alive = 0;
  {
    std::vector<Deep_ptr<Animal>> p(4);
    std::vector<std::optional<std::pair<int, int>>> m(4); // (kind, value)
    Deep_ptr<Dog> dog;
    int dv = 0;
    bool dset = false;
    for (int k = 0, n = (int)c.i(1, 20); k < n; k++) {
      const size_t a = c.draw(3), b = c.draw(3);
      const int x = (int)c.i(0, 99);
      const int op = (int)c.i(0, 12);
      c.desc << op << "(" << a << "," << b << "," << x << ") ";
      switch (op) {
      case 0: p[a] = make_Deep_ptr<Animal>(x), m[a] = { 0, x }; break;
      case 1: p[a] = make<Dog>(x), m[a] = { 1, x }; break;
      case 2: p[a] = p[b], m[a] = m[b], c.nontrivial(); break;
      case 3: {
        auto t = std::move(p[b]);
        auto mt = m[b];
        m[b].reset();
        p[a] = std::move(t), m[a] = mt;
        break;
      }
      case 4: p[a].swap(p[b]), std::swap(m[a], m[b]); break;
      case 5: p[a].reset(), m[a].reset(); break;
      case 6: p[a].reset(new Dog(x)), m[a] = { 1, x }; break;
      case 7: {
        Deep_ptr<Animal> t(p[b]);
        p[a] = std::move(t), m[a] = m[b], c.nontrivial();
        break;
      }
      case 8: dog = make<Dog>(x), dv = x, dset = true; break;
      case 9:
        p[a] = dog;
        if (dset) m[a] = { 1, dv };
        else m[a].reset();
        c.nontrivial();
        break;
      case 10:
        p[a] = std::move(dog);
        if (dset) m[a] = { 1, dv };
        else m[a].reset();
        dset = false;
        break;
      case 11: {
        std::unique_ptr<Dog> u(new Dog(x));
        if (c.b(1, 2)) {
          Deep_ptr<Animal> t(u); // copies
          c.check(u && t.get() != u.get(), "P22.owning-copy", "copying from a unique pointer took it");
          p[a] = std::move(t);
        } else
          p[a] = Deep_ptr<Animal>(std::unique_ptr<Animal>(std::move(u)));
        m[a] = { 1, x };
        break;
      }
      default:
        if (m[a]) p[a]->v = x, m[a]->second = x;
        break;
      }
      long want = dset ? 1 : 0;
      for (size_t i = 0; i < 4; i++) {
        if (m[i]) want++;
        c.check((bool)p[i] == m[i].has_value() && (p[i] == nullptr) == !m[i] && (nullptr == p[i]) == !m[i] && (p[i] != nullptr) == m[i].has_value() && (nullptr != p[i]) == m[i].has_value() && (p[i].get() != nullptr) == m[i].has_value(),
                "P22.owning-null", "pointer " + std::to_string(i) + " is " + (p[i] ? "set" : "empty"));
        if (m[i]) c.check(p[i]->kind() == m[i]->first && (*p[i]).v == m[i]->second, "P22.owning-value", "pointer " + std::to_string(i) + " holds kind " + std::to_string(p[i]->kind()) + " value " + std::to_string(p[i]->v) + ", expected " + std::to_string(m[i]->first) + "/" + std::to_string(m[i]->second));
        for (size_t j = 0; j < i; j++) c.check(!p[i] || p[i].get() != p[j].get(), "P22.owning-shared", "two pointers own the same object");
      }
      c.check((bool)dog == dset, "P22.owning-null", "the typed pointer is " + std::string(dog ? "set" : "empty"));
      c.check(Animal::alive == want, "P22.owning-lives", std::to_string(Animal::alive) + " objects alive, " + std::to_string(want) + " owned");
    }
  }
  c.check(Animal::alive == 0, "P22.owning-lives", std::to_string(Animal::alive) + " objects alive after everything was destroyed");
}
PBT_SUB("P22.views", 100000, 2000000, "non-owning intervals over vectors, arrays and single values: the elements chosen, in order; element-wise array arithmetic; matrices; non-trivial: at least two elements")
{
  const int n = (int)c.i(1, 12);
  std::vector<double> v;
  for (int i = 0; i < n; i++) v.push_back(c.r(-9, 9));
  const int b = (int)c.i(0, n), e = (int)c.i(b, n);
  c.desc << "interval " << b << ".." << e << " of " << n << "\n";
  Interval<std::vector<double>> part(v, b, e), all(v);
  c.check(std::vector<double>(part.begin(), part.end()) == std::vector<double>(v.begin() + b, v.begin() + e), "P22.interval", "a partial view shows other elements");
  c.check(std::vector<double>(all.begin(), all.end()) == v, "P22.interval-all", "a view of the whole container shows " + std::to_string(all.end() - all.begin()) + " of " + std::to_string(n) + " elements");
  PtrInterval<double> pv(v), ps{ std::span<double>(v) }, p1(v[b % n]);
  c.check(pv.size() == (size_t)n && ps.size() == (size_t)n && p1.size() == 1 && pv.begin() == v.data() && ps.end() == v.data() + n && *p1.begin() == v[b % n], "P22.pointer-view", "a pointer view differs from its container");
  std::array<double, 4> x, y;
  for (int i = 0; i < 4; i++) x[i] = c.r(-9, 9), y[i] = c.r(-9, 9);
  PtrInterval<double> pa(x);
  c.check(pa.size() == 4 && pa.begin() == x.data(), "P22.pointer-view", "a pointer view differs from its array");
  const double p = c.r(-3, 3), q = c.r(-3, 3);
  using slide::operator+;
  using slide::operator-;
  using slide::operator+=;
  using slide::operator-=;
  auto s = x + y, d = x - y, w = arrSum(x, y, p, q);
  auto s2 = x, d2 = x;
  s2 += y, d2 -= y;
  for (int i = 0; i < 4; i++)
    c.check(s[i] == x[i] + y[i] && d[i] == x[i] - y[i] && s2[i] == s[i] && d2[i] == d[i] && near(w[i], p * x[i] + q * y[i], 1e-12, 1e-12), "P22.array", "array arithmetic differs at " + std::to_string(i));
  auto I = eye<3>(p);
  auto O = ones<3, 2>(q);
  auto Z = zeros<2, 3>();
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) c.check(I[i][j] == (i == j ? p : 0), "P22.matrix", "the identity is wrong");
  c.check(O.size() == 2 && O[0].size() == 3 && Z.size() == 3 && Z[0].size() == 2, "P22.matrix", "a matrix has another shape");
  for (auto &r : O)
    for (double z : r) c.check(z == q, "P22.matrix", "a constant matrix is not constant");
  // dynamic matrices against a map
  const int R = (int)c.i(1, 5), C = (int)c.i(1, 5);
  DynamicMatrix<double> m(R, C, p);
  std::vector<std::vector<double>> ref(R, std::vector<double>(C, p));
  for (int k = 0; k < 12; k++) {
    const int i = (int)c.i(0, R - 1), j = (int)c.i(0, C - 1);
    m(i, j) = ref[i][j] = c.r(-5, 5);
  }
  c.check(m.rows() == R && m.cols() == C && m.size() == R * C, "P22.dynamic-shape", "shape differs");
  const auto &cm = m;
  std::ostringstream o, ow;
  o << m;
  for (int i = 0; i < R; i++) {
    for (int j = 0; j < C; j++) c.check(m(i, j) == ref[i][j] && cm(i, j) == ref[i][j], "P22.dynamic", "entry differs"), ow << ref[i][j] << ", ";
    ow << '\n';
  }
  c.check(o.str() == ow.str(), "P22.dynamic-print", "printed matrix differs");
  c.nontrivial(n > 1);
}
PBT_SUB("P22.chol", 100000, 2000000, "rank-one updates and downdates of Cholesky factors of random positive definite matrices: the factor of the updated matrix; non-trivial: all")
{
  constexpr int N = 4;
  Matrix<double, N, N> L{};
  std::array<double, N> x{};
  for (int i = 0; i < N; i++) {
    for (int j = 0; j < i; j++) L[i][j] = c.r(-1, 1);
    L[i][i] = c.r(0.5, 3);
    x[i] = c.r(-1, 1);
  }
  const bool down = c.b(1, 3);
  if (down)
    for (auto &t : x) t *= 0.1;
  Matrix<double, N, N> A{};
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++) {
      for (int k = 0; k < N; k++) A[i][j] += L[i][k] * L[j][k];
      A[i][j] += (down ? -1 : 1) * x[i] * x[j];
    }
  c.desc << (down ? "downdate" : "update") << " x=" << num(x[0]) << "," << num(x[1]) << "," << num(x[2]) << "," << num(x[3]) << "\n";
  { // the downdated matrix must stay positive definite: its Cholesky factorisation exists
    auto B = A;
    for (int k = 0; k < N; k++) {
      for (int j = 0; j < k; j++) B[k][k] -= B[k][j] * B[k][j];
      if (B[k][k] < 1e-3) c.discard();
      B[k][k] = std::sqrt(B[k][k]);
      for (int i = k + 1; i < N; i++) {
        for (int j = 0; j < k; j++) B[i][k] -= B[i][j] * B[k][j];
        B[i][k] /= B[k][k];
      }
    }
  }
  cholUpdate<N>(L, x, down);
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++) {
      double a = 0;
      for (int k = 0; k < N; k++) a += L[i][k] * L[j][k];
      c.check(near(a, A[i][j], 1e-7, 1e-7), "P22.chol", "entry " + std::to_string(i) + "," + std::to_string(j) + " of the updated matrix is " + num(a) + " instead of " + num(A[i][j]));
    }
  c.nontrivial();
}
int main(int a, char **b) { return pbt::pbtMain(a, b); }
