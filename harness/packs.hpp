// Random trees of series/parallel modules over ECM, bucket and single-particle cells, with a mirror tree for reference computations.
#pragma once
#include "spm.hpp"

namespace vt {

struct Node
{
  enum Kind { CELL,
              SERIES,
              PARALLEL } kind{ CELL };
  StorageUnit *su{ nullptr };
  std::vector<std::unique_ptr<Node>> ch;
  std::vector<double> Rc;
  bool spm{ false };
  DEG_ID deg{};

  bool leaf() const { return kind == CELL; }
  size_t ncells() const
  {
    if (leaf()) return 1;
    size_t n = 0;
    for (auto &x : ch) n += x->ncells();
    return n;
  }
  size_t depth() const
  {
    size_t d = 0;
    for (auto &x : ch) d = std::max(d, x->depth() + 1);
    return d;
  }
  bool has(Kind k) const
  {
    if (kind == k) return true;
    for (auto &x : ch)
      if (x->has(k)) return true;
    return false;
  }
  void leaves(std::vector<Node *> &out)
  {
    if (leaf()) out.push_back(this);
    for (auto &x : ch) x->leaves(out);
  }
  std::vector<Node *> leaves()
  {
    std::vector<Node *> o;
    leaves(o);
    return o;
  }
  void modules(std::vector<Node *> &out)
  {
    if (!leaf()) out.push_back(this);
    for (auto &x : ch) x->modules(out);
  }
  std::vector<Node *> modules()
  {
    std::vector<Node *> o;
    modules(o);
    return o;
  }

  // ---- reference aggregation from the leaves and contact resistances only
  double refI() const
  {
    if (leaf()) return su->I();
    if (kind == SERIES) return ch[0]->refI();
    double s = 0;
    for (auto &x : ch) s += x->refI();
    return s;
  }
  // terminal voltage of child i seen from the module terminals (parallel: ladder)
  double refChildTerminal(size_t i) const
  {
    double v = ch[i]->refV();
    for (size_t j = 0; j <= i; j++) {
      double behind = 0;
      for (size_t k = j; k < ch.size(); k++) behind += ch[k]->refI();
      v -= Rc[j] * behind;
    }
    return v;
  }
  double refV() const
  {
    if (leaf()) return su->V();
    if (kind == SERIES) {
      double s = 0;
      for (size_t i = 0; i < ch.size(); i++) s += ch[i]->refV() - Rc[i] * ch[i]->refI();
      return s;
    }
    return refChildTerminal(0);
  }
  double refCap() const
  {
    if (leaf()) return su->Cap();
    double r = ch[0]->refCap();
    for (size_t i = 1; i < ch.size(); i++) r = kind == SERIES ? std::min(r, ch[i]->refCap()) : r + ch[i]->refCap();
    return r;
  }
  double refOCV() const
  {
    if (leaf()) return su->getOCV();
    double s = 0;
    for (auto &x : ch) s += x->refOCV();
    return kind == SERIES ? s : s / ch.size();
  }
  double refR() const
  {
    if (leaf()) return su->getRtot();
    if (kind == SERIES) {
      double s = 0;
      for (size_t i = 0; i < ch.size(); i++) s += ch[i]->refR() + Rc[i];
      return s;
    }
    double r = Rc.back() + ch.back()->refR();
    for (size_t k = ch.size() - 1; k-- > 0;) r = Rc[k] + 1.0 / (1.0 / ch[k]->refR() + 1.0 / r);
    return r;
  }
  double refLimit(int which) const // 0 Vmin 1 VMIN 2 Vmax 3 VMAX
  {
    if (leaf()) return which == 0 ? VminN : which == 1 ? VminS
                                          : which == 2 ? VmaxN
                                                       : VmaxS;
    double r = ch[0]->refLimit(which);
    for (size_t i = 1; i < ch.size(); i++) {
      const double x = ch[i]->refLimit(which);
      r = kind == SERIES ? r + x : (which < 2 ? std::max(r, x) : std::min(r, x));
    }
    return r;
  }
  std::string show() const
  {
    if (leaf()) return spm ? "spm" : "ecm";
    std::string s = kind == SERIES ? "S(" : "P(";
    for (size_t i = 0; i < ch.size(); i++) s += (i ? " " : "") + ch[i]->show() + (Rc[i] != 0 ? "+" + num6(Rc[i]) : "");
    return s + ")";
  }
};

struct PackOpt
{
  int maxDepth{ 2 };
  int maxChildren{ 5 };
  bool ecm{ true }, spm{ true }, bucket{ true };
  bool contact{ true };
  bool mixedCap{ true };     // children with different capacities in one parallel module
  double dSOC{ 0.02 };       // spread of SOC between cells
  double socLo{ 0.25 }, socHi{ 0.8 };
  bool threads{ false };     // let modules use worker threads
  int forceTop{ -1 };        // 0 series, 1 parallel
  bool mayBeCell{ false };
  bool nestedParallel{ true };
  bool gentle{ true };       // capacity*resistance within the range where the pack's fixed-point solver converges quickly
  DEG_ID deg{};
  int coolControl{ 1 };
  double socBase{ -1 };
  bool rdeg{ false };        // random degradation models per single-particle cell
  bool stressModels{ true }; // ... including those driven by stress differences
  int topCool{ 1 };          // cooling type of the top module: 0 regular, 1 HVAC, 2 open
  bool mixFamilies{ false }; // allow cells with different open-circuit curves in parallel (only for checks that never solve the split)
};

struct Pack
{
  Deep_ptr<StorageUnit> top;
  std::unique_ptr<Node> node;
};

inline Deep_ptr<StorageUnit> genLeaf(Case &c, const PackOpt &o, double soc, double cap, Node &n, const std::string &id)
{
  std::vector<int> kinds;
  if (o.ecm) kinds.push_back(1), kinds.push_back(1);
  if (o.bucket) kinds.push_back(0);
  if (o.spm) kinds.push_back(4);
  const int k = c.choose(kinds);
  if (k == 4) {
    const double resf = c.b(1, 2) ? c.r(0.8, 1.5) : 1.0;
    const double capf = cap / 16.0;
    const DEG_ID deg = o.rdeg && c.b(2, 3) ? genDeg(c, o.stressModels, 2) : o.deg;
    auto *s = new Cell_SPM(id, deg, capf, resf, 1, 1);
    n.deg = deg;
    // place it near the requested SOC by moving charge at fixed stoichiometry (see spmSetSOC)
    const double dfp = -(soc - 0.5), f = 16.0 * 3600 / 96487.0;
    const double Qp = 51385 * 0.5 * 70e-6 * 0.62, Qn = 30555 * 0.5 * 73.5e-6 * 0.62; // mol in each electrode at full occupation (nominal)
    s->setC(0.689332 + dfp * f / Qp, 0.479283 - dfp * f / Qn);
    s->setSOC(soc, false, false);
    n.spm = true;
    Deep_ptr<StorageUnit> d(static_cast<StorageUnit *>(s));
    n.su = d.get();
    return d;
  }
  EcmPar p;
  p.n = k == 0 ? 0 : (size_t)c.i(1, 2);
  if (p.n < 2) p.Rp[1] = p.itau[1] = 0;
  p.cap = cap;
  if (o.gentle) {
    if (c.b(2, 3)) p.Rdc = c.r(0.03, 0.12) / cap;
    else p.Rdc = 0.05 / cap;
    for (size_t j = 0; j < p.n; j++) p.Rp[j] = c.r(0.01, 0.1) / cap, p.itau[j] = 1.0 / c.rlog(50, 2000);
  }
  StorageUnit *raw = p.n == 0 ? static_cast<StorageUnit *>(makeECM<0>(p, soc, id).release()) : p.n == 1 ? static_cast<StorageUnit *>(makeECM<1>(p, soc, id).release())
                                                                                                         : static_cast<StorageUnit *>(makeECM<2>(p, soc, id).release());
  Deep_ptr<StorageUnit> d(raw);
  n.su = d.get();
  return d;
}

inline Deep_ptr<StorageUnit> genTree(Case &c, const PackOpt &o, int depth, double soc, double cap, Node &n, const std::string &id, bool top, int parentKind)
{
  const bool mustModule = top && !o.mayBeCell;
  if (depth <= 0 || (!mustModule && c.b(depth == 1 ? 2 : 1, 3))) {
    const double s = std::clamp(soc + o.dSOC * c.r(-1, 1), 0.02, 0.98);
    double cp = cap;
    if (o.mixedCap && c.b(1, 2)) cp = cap * c.r(0.7, 1.3);
    return genLeaf(c, o, s, cp, n, id);
  }
  int k = (top && o.forceTop >= 0) ? o.forceTop : (int)c.i(0, 1);
  if (!top && k == 1 && !o.nestedParallel) k = 0;
  n.kind = k == 0 ? Node::SERIES : Node::PARALLEL;
  const int nch = (int)c.i(1, o.maxChildren);
  std::vector<Deep_ptr<StorageUnit>> kids;
  for (int i = 0; i < nch; i++) {
    n.ch.push_back(std::make_unique<Node>());
    kids.push_back(genTree(c, o, depth - 1, soc, cap, *n.ch.back(), "u" + std::to_string(i), false, k));
  }
  if (k == 1) { // children of a parallel module need the same number of cells in series: force equal voltage by equal series count
    auto series = [](auto &&self, const Node &x) -> int {
      if (x.leaf()) return 1;
      if (x.kind == Node::PARALLEL) return self(self, *x.ch[0]);
      int s = 0;
      for (auto &y : x.ch) s += self(self, *y);
      return s;
    };
    const int want = series(series, *n.ch[0]);
    for (size_t i = 1; i < n.ch.size();) {
      if (series(series, *n.ch[i]) != want) {
        n.ch.erase(n.ch.begin() + i);
        kids.erase(kids.begin() + i);
      } else
        i++;
    }
  }
  for (size_t i = 0; i < n.ch.size(); i++) n.Rc.push_back(o.contact && c.b(1, 2) ? c.r(0, 0.02) / cap : 0.0);
  const int cooltype = top ? o.topCool : (n.ch[0]->leaf() ? 0 : 2);
  Module *m = k == 0 ? static_cast<Module *>(new Module_s(id, TENV, false, o.threads, (int)n.ncells(), o.coolControl, cooltype)) : static_cast<Module *>(new Module_p(id, TENV, false, o.threads, (int)n.ncells(), o.coolControl, cooltype));
  Deep_ptr<StorageUnit> d(static_cast<StorageUnit *>(m));
  m->setSUs(kids, true, false);
  m->setRcontact(n.Rc);
  n.su = m;
  return d;
}

// A pack at rest. Cells of one parallel group differ slightly in SOC, so use Module::setCurrent(0) to balance where needed.
inline Pack genPack(Case &c, PackOpt o)
{
  if (o.spm && (o.ecm || o.bucket) && !o.mixFamilies) {
    const int fam = c.weighted({ 2, 2, o.forceTop == 1 ? 0 : 1 });
    if (fam == 0) o.spm = false;
    if (fam == 1) o.ecm = o.bucket = false;
    if (fam == 2) o.nestedParallel = false, o.forceTop = 0;
  }
  Pack p;
  p.node = std::make_unique<Node>();
  const double soc = o.socBase >= 0 ? o.socBase : c.r(o.socLo, o.socHi);
  const double cap = c.b(1, 2) ? 16.0 : c.rlog(1, 100);
  p.top = genTree(c, o, (int)c.i(1, o.maxDepth), soc, cap, *p.node, "top", true, 0);
  return p;
}
inline void bindTree(Node &n, StorageUnit *su) // rebind the mirror tree to another pack of the same shape
{
  n.su = su;
  if (n.leaf()) return;
  auto *m = dynamic_cast<Module *>(su);
  for (size_t i = 0; i < n.ch.size(); i++) bindTree(*n.ch[i], (*m)[i].get());
}
inline std::unique_ptr<Node> cloneTree(const Node &n, StorageUnit *su)
{
  auto r = std::make_unique<Node>();
  r->kind = n.kind;
  r->Rc = n.Rc;
  r->spm = n.spm;
  r->deg = n.deg;
  r->su = su;
  auto *m = dynamic_cast<Module *>(su);
  for (size_t i = 0; i < n.ch.size(); i++) r->ch.push_back(cloneTree(*n.ch[i], (*m)[i].get()));
  return r;
}
} // namespace vt
