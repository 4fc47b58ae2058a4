// Reading back the data files a case wrote into its scratch directory.
#pragma once
#include "common.hpp"
#include <filesystem>
#include <fstream>
#include <map>
#include <sstream>

namespace vt {
using Row = std::vector<double>;
// ---------------------------------------------------------------------------------------------- files
inline std::map<std::string, std::filesystem::path> csvFiles() // everything a case wrote: file name -> path (the working directory is a scratch directory)
{
  std::map<std::string, std::filesystem::path> m;
  for (const char *d : { "results", "." })
    for (auto &e : std::filesystem::directory_iterator(d))
      if (e.is_regular_file() && e.path().extension() == ".csv") m[e.path().filename().string()] = e.path();
  return m;
}
inline void wipe()
{
  for (auto &[n, p] : csvFiles()) std::filesystem::remove(p);
}
inline std::vector<std::string> lines(const std::filesystem::path &p)
{
  std::ifstream f(p);
  std::vector<std::string> v;
  for (std::string l; std::getline(f, l);) {
    while (!l.empty() && (l.back() == '\r' || l.back() == ' ')) l.pop_back();
    if (!l.empty()) v.push_back(l);
  }
  return v;
}
inline bool numbers(const std::string &l, Row &out) // comma separated, a trailing comma is allowed
{
  out.clear();
  std::stringstream ss(l);
  for (std::string t; std::getline(ss, t, ',');) {
    if (t.empty()) return false;
    char *e = nullptr;
    out.push_back(std::strtod(t.c_str(), &e));
    if (*e) return false;
  }
  return !out.empty();
}
inline bool same6(double file, double x) { return near(file, x, 6e-6, 1e-300) || (std::isnan(file) && std::isnan(x)); } // six significant digits are written
inline std::string show(const Row &r)
{
  std::string s;
  for (double x : r) s += (s.empty() ? "" : ",") + num6(x);
  return s;
}
// ---------------------------------------------------------------------------------------------- histograms
struct Hist
{
  Row edges, bins;
};
inline bool readHists(const std::filesystem::path &p, std::vector<Hist> &h, std::vector<Row> &other)
{
  auto ls = lines(p);
  for (size_t i = 0; i < ls.size(); i++) {
    Row r;
    if (ls[i].rfind("Edges", 0) == 0) {
      Hist x;
      if (i + 3 >= ls.size() || ls[i + 2].rfind("Bins", 0) != 0 || !numbers(ls[i + 1], x.edges) || !numbers(ls[i + 3], x.bins)) return false;
      h.push_back(x);
      i += 3;
    } else if (numbers(ls[i], r))
      other.push_back(r);
    else if (ls[i].rfind("States", 0) != 0)
      return false;
  }
  return true;
}
// "" if the histogram holds exactly these samples (samples on an edge may be on either side)
inline std::string histDiff(const Hist &h, const Row &x)
{
  if (h.bins.size() != h.edges.size() + 1) return "has " + std::to_string(h.edges.size()) + " edges and " + std::to_string(h.bins.size()) + " bins";
  const size_t nb = h.edges.size() - 1;
  const double lo = h.edges.front(), dx = (h.edges.back() - lo) / nb;
  for (size_t i = 0; i <= nb; i++)
    if (!near(h.edges[i], lo + i * dx, 1e-5, 1e-5 * (dx * nb))) return "edge " + std::to_string(i) + " is " + num6(h.edges[i]);
  Row sure(nb + 2, 0), may(nb + 2, 0);
  for (double v : x) {
    const double p = (v - lo) / dx, near_ = std::round(p);
    auto bin = [&](double q) { return (size_t)std::clamp(std::floor(q) + 1, 0.0, (double)nb + 1); };
    if (std::fabs(p - near_) < 1e-3 && near_ >= 0 && near_ <= nb) may[bin(near_ - 0.5)]++, may[bin(near_ + 0.5)]++;
    else
      sure[bin(p)]++, may[bin(p)]++;
  }
  double n = 0;
  for (size_t i = 0; i < nb + 2; i++) {
    n += h.bins[i];
    if (h.bins[i] < sure[i] || h.bins[i] > may[i]) return "bin " + std::to_string(i) + " holds " + num6(h.bins[i]) + " samples, " + num6(sure[i]) + " to " + num6(may[i]) + " belong there";
  }
  if (n != (double)x.size()) return "holds " + num6(n) + " samples of " + std::to_string(x.size());
  return "";
}
} // namespace vt
