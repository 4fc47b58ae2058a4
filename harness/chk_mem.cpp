// P26: everything the public interface offers, in random order and with extreme arguments, on a pool of units that are copied,
// moved, assigned, taken apart and destroyed. Built with the address and undefined-behaviour sanitizers: the oracle is that
// the program survives; statuses and exceptions are both acceptable answers.
#include "life.hpp"
#include "slide.hpp"
#include <fstream>
#include <optional>
using namespace vt;

static void collect(StorageUnit *su, std::vector<StorageUnit *> &out)
{
  out.push_back(su);
  if (auto *b = dynamic_cast<Battery *>(su)) collect(b->getCells(), out);
  else if (auto *m = dynamic_cast<Module *>(su))
    for (auto &x : m->getSUs()) collect(x.get(), out);
}
static double extreme(Case &c, double scale)
{
  switch (c.weighted({ 8, 3, 2, 2, 1, 1 })) {
  case 0: return scale * c.r(-2, 2);
  case 1: return c.pick({ 0.0, -0.0, 1e-300, -1e-12, 1e-9 });
  case 2: return scale * c.pick({ -1.0, 1.0 }) * c.rlog(1e-6, 1e6);
  case 3: return c.pick({ -1.0, 1.0 }) * c.rlog(1e3, 1e12);
  case 4: return c.pick({ 1e300, -1e300, 1.7e308 });
  default: return c.pick({ (double)NAN, (double)INFINITY, -(double)INFINITY });
  }
}
// f may answer with any exception
template <typename F>
static void any(Case &c, F f)
{
  try {
    f();
  } catch (const pbt::Failure &) {
    throw;
  } catch (const pbt::Discard &) {
    throw;
  } catch (const pbt::Overrun &) {
    throw;
  } catch (...) {
    c.label("exception");
  }
}
static void look(StorageUnit *su)
{
  try {
    (void)obs(*su);
    su->getFullID();
    su->viewStates();
    if (auto *m = dynamic_cast<Module *>(su)) m->getCoolingLoad();
    if (auto *b = dynamic_cast<Battery *>(su)) b->getCoolingLoad();
  } catch (...) {
  }
}

static Deep_ptr<StorageUnit> fresh(Case &c, std::string &shape, bool small = false)
{
  UnitOpt o;
  o.pack.rdeg = true;
  o.pack.mixFamilies = c.b(1, 4);
  o.pack.gentle = !c.b(1, 4);
  o.pack.threads = c.b(1, 6);
  o.pack.maxChildren = (int)c.pick({ 2, 3, 6 });
  o.pack.nestedParallel = c.b(1, 3);
  if (small) o.pack.maxDepth = 1, o.pack.forceTop = 0, o.bat = false; // the iterations of parallel modules multiply with their depth
  Unit u = genUnit(c, o);
  shape = u.show();
  return std::move(u.top);
}

static void cellOps(Case &c, Cell *cell)
{
  switch (c.i(0, 9)) {
  case 0: any(c, [&] { cell->setSOC(extreme(c, 1), c.b(), c.b()); }); break;
  case 1: any(c, [&] { cell->setT(c.pick({ 273.0, 300.0, 333.0, extreme(c, 300) })); }); break;
  case 2: any(c, [&] { cell->getThroughputs(), cell->getVariations(); }); break;
  case 3:
    if (auto *s = dynamic_cast<Cell_SPM *>(cell)) any(c, [&] { s->setC(c.r(-0.1, 1.1), c.r(-0.1, 1.1)); });
    break;
  case 4:
    if (auto *s = dynamic_cast<Cell_SPM *>(cell)) any(c, [&] { double a, b; s->getCSurf(a, b, c.b()); s->updateDaiStress(); });
    break;
  case 5:
    if (auto *s = dynamic_cast<Cell_SPM *>(cell)) any(c, [&] { s->setTenv(c.r(270, 340)); });
    break;
  case 6: { // its own view of the states, changed in place
    auto v = cell->viewStates();
    if (!v.empty()) v[(size_t)c.i(0, (long)v.size() - 1)] *= 1 + c.r(-1e-3, 1e-3);
    break;
  }
  case 7: any(c, [&] { double v; cell->checkVoltage(v, c.b()); cell->validStates(c.b()); }); break;
  case 8: cell->backupStates(); break;
  default: cell->restoreStates(); break;
  }
}

PBT_SUB("P26.mix", 4000, 200000, "a pool of up to four units of any kind under random sequences of set-points, states, steps, cycler phases, storing, copies, moves, assignments, dismantling and destruction, with ordinary and extreme arguments; non-trivial: at least eight operations of which one replaced, moved or dismantled a unit")
{
  std::vector<Deep_ptr<StorageUnit>> pool(4);
  std::string shape;
  pool[0] = fresh(c, shape);
  c.desc << "unit " << shape << "\n";
  const int nops = (int)c.i(1, c.thorough ? 30 : 14);
  int moved = 0;
  for (int k = 0; k < nops; k++) {
    c.step();
    std::vector<size_t> live;
    for (size_t i = 0; i < pool.size(); i++)
      if (pool[i]) live.push_back(i);
    if (live.empty()) {
      pool[0] = fresh(c, shape);
      live.push_back(0);
    }
    const size_t at = c.choose(live), to = (size_t)c.i(0, 3);
    StorageUnit *top = pool[at].get();
    std::vector<StorageUnit *> all;
    collect(top, all);
    StorageUnit *su = c.b(2, 3) ? top : c.choose(all);
    const double cap = su->Cap();
    const int op = c.weighted({ 6, 6, 4, 3, 3, 3, 2, 2, 2, 2, 3, 2, 2, 3, 2, 2, 4, 1, 1 });
    c.desc << "op " << op << " on pool[" << at << "] to " << to << "\n";
    switch (op) {
    case 0: any(c, [&] { const double I = extreme(c, cap); c.desc << "  I=" << num6(I) << "\n"; su->setCurrent(I, c.b(), c.b()); }); break;
    case 1: any(c, [&] { const double dt = c.pick({ 1.0, 0.5, 0.0, 2.0, 10.0, -1.0, 1e-12, 1e5 }); su->timeStep_CC(dt, (int)c.pick({ 1, 2, 10, 0 })); }); break;
    case 2: any(c, [&] { su->setVoltage(c.b(2, 3) ? su->V() * c.r(0.95, 1.05) : extreme(c, 4), c.b(), c.b()); }); break;
    case 3: any(c, [&] { // saved states, possibly disturbed, to this unit or to one of the same kind
      auto s = states(*su);
      if (!s.empty() && c.b()) s[(size_t)c.i(0, (long)s.size() - 1)] = extreme(c, 1);
      if (c.b(1, 4)) s.push_back(1.0);
      std::span<double> sp{ s };
      su->setStates(sp, c.b(), c.b());
    }); break;
    case 4: look(su); break;
    case 5: { // copy into the pool; whatever was there is destroyed
      pool[to].reset(top->copy());
      moved++;
      break;
    }
    case 6: pool[to] = pool[at], moved++; break; // copy assignment, possibly to itself
    case 7: pool[to].swap(pool[at]), moved++; break;
    case 8: pool[to] = std::move(pool[at]), moved++; break; // also to itself
    case 9:
      if (live.size() > 1) pool[at].reset(), moved++;
      break;
    case 10: any(c, [&] {
      if (auto *cell = dynamic_cast<Cell *>(su)) cellOps(c, cell);
      else
        su->setBlockDegAndTherm(c.b());
    }); break;
    case 11: any(c, [&] { su->setT(c.pick({ 273.0, 290.0, 330.0, extreme(c, 300) })); }); break;
    case 12: any(c, [&] {
      for (int j = (int)c.i(0, 3); j >= 0; j--) su->storeData();
      if (c.b()) su->writeData("results/mem");
    }); break;
    case 13: any(c, [&] { // take a module apart
      if (auto *m = dynamic_cast<Module *>(su); m && m->getNSUs() > 0) {
        std::vector<Deep_ptr<StorageUnit>> kids;
        for (auto &x : m->getSUs()) kids.push_back(c.b() ? Deep_ptr<StorageUnit>(x) : Deep_ptr<StorageUnit>(x->copy()));
        if (c.b(1, 3)) kids.pop_back();
        if (c.b(1, 3)) kids.push_back(fresh(c, shape, true)), c.desc << "  plus " << shape << "\n";
        m->setSUs(kids, c.b(), c.b());
        moved++;
      }
    }); break;
    case 14: any(c, [&] { // assignment between objects of one type
      auto as = [&]<typename T>(T *a) {
        for (auto &p : pool) {
          std::vector<StorageUnit *> o;
          if (p) collect(p.get(), o);
          for (auto *x : o)
            if (auto *b = dynamic_cast<T *>(x); b && !c.b(1, 3)) {
              for (auto *q = static_cast<StorageUnit *>(b); q; q = q->getParent())
                if (q == a && b != a) return; // a unit below the target would be destroyed while it is read
              if (c.b(1, 4)) {
                T twin(*b);
                *a = std::move(twin);
              } else
                *a = *b;
              moved++;
              return;
            }
        }
      };
      if (auto *a = dynamic_cast<Module_s *>(su)) as(a);
      else if (auto *a = dynamic_cast<Module_p *>(su)) as(a);
      else if (auto *a = dynamic_cast<Battery *>(su)) as(a);
      else if (auto *a = dynamic_cast<Cell_SPM *>(su)) as(a);
      else if (auto *a = dynamic_cast<Cell_Bucket *>(su)) as(a);
      else if (auto *a = dynamic_cast<Cell_ECM<1> *>(su)) as(a);
    }); break;
    case 15: any(c, [&] {
      if (auto *m = dynamic_cast<Module *>(su)) {
        std::vector<double> r(m->getNSUs());
        for (auto &x : r) x = c.b() ? 0.0 : c.r(0, 0.01);
        m->setRcontact(r);
        if (auto *cs = m->getCoolSystem()) cs->setControl((int)c.i(1, 5));
      }
    }); break;
    case 16: any(c, [&] { // a phase on a cycler, also with arguments that cannot work
      Cycler cyc(top, "mem");
      cyc.setDiagnostic(c.b(1, 4));
      ThroughputData th{};
      const double dt = c.pick({ 2.0, 1.0, 5.0, 100.0 }), tlim = c.pick({ 20.0, 0.0, 7.3, -5.0, 60.0, -1e300 });
      const int nd = (int)c.pick({ 0, 1, 3, -1 });
      const double I = c.b(3, 4) ? cap * c.r(-1, 1) : extreme(c, cap), V = c.b(3, 4) ? top->V() * c.r(0.97, 1.03) : extreme(c, 4), Il = cap * c.r(0, 0.2);
      switch (c.i(0, 4)) {
      case 0: cyc.CC(I, V, tlim, dt, nd, th); break;
      case 1: cyc.rest(tlim, dt, nd, th); break;
      case 2: cyc.CV(V, Il, tlim, dt, nd, th); break;
      case 3: cyc.CCCV_with_tlim(std::abs(I), V, Il, tlim, dt, nd, th); break;
      default: cyc.storeData(), cyc.writeData(); break;
      }
    }); break;
    case 17: any(c, [&] { top->setID(c.pick({ std::string(""), std::string("x"), std::string(200, 'y') })); top->getFullID(); }); break;
    case 18: any(c, [&] { pool[to] = fresh(c, shape), moved++; }); break;
    }
  }
  for (auto &p : pool)
    if (p) look(p.get());
  c.nontrivial(nops >= 8 && moved > 0);
}

// ------------------------------------------------------------------------------------------------ building
PBT_SUB("P26.build", 3000, 100000, "modules and batteries constructed, used before they have children, given children (none, their own, refused ones, many), copied and moved, in random order; non-trivial: at least three operations")
{
  std::string shape;
  const bool par = c.b();
  const int ncool = (int)c.pick({ 1, 0, 5, 100 }), cool = (int)c.i(0, 2);
  Deep_ptr<Module> m(par ? static_cast<Module *>(new Module_p("m", TENV, false, c.b(1, 4), ncool, (int)c.i(1, 5), cool)) : static_cast<Module *>(new Module_s("m", TENV, false, c.b(1, 4), ncool, (int)c.i(1, 5), cool)));
  c.desc << (par ? "Module_p" : "Module_s") << " for " << ncool << " cooling " << cool << "\n";
  std::vector<Deep_ptr<StorageUnit>> stock;
  bool has = false;
  const int nops = (int)c.i(1, 8);
  std::optional<Battery> bat;
  for (int k = 0; k < nops && m; k++) {
    const int op = c.weighted({ 4, 2, 2, 2, 2, 2, 2, 2 });
    c.desc << "op " << op << "\n";
    switch (op) {
    case 0: any(c, [&] {
      stock.clear();
      for (int i = (int)c.pick({ 1, 2, 3, 0, 20, 60 }); i > 0; i--) {
        EcmPar p = genEcmPar(c, 1, false);
        stock.emplace_back(static_cast<StorageUnit *>(makeECM<1>(p, c.b(3, 4) ? 0.5 : c.r(0.1, 0.9), "c" + std::to_string(i)).release()));
        if (c.b(1, 6)) stock.back()->setCurrent(1.0, false, false);
      }
      m->setSUs(stock, c.b(), c.b());
      has = m->getNSUs() > 0;
    }); break;
    case 1: any(c, [&] { // its own children, taken out first
      if (!has) return;
      auto own = std::move(m->getSUs());
      m->setSUs(own, c.b(), c.b());
    }); break;
    case 2:
      if (has) look(m.get());
      break;
    case 3: {
      Deep_ptr<Module> other(m);
      if (c.b()) m = std::move(other);
      break;
    }
    case 4: any(c, [&] { // children that belong to somebody else are refused
      Module_s owner("owner", TENV, false, false, 2, 1, 0);
      std::vector<Deep_ptr<StorageUnit>> two;
      for (int i = 0; i < 2; i++) two.emplace_back(static_cast<StorageUnit *>(makeECM<1>(genEcmPar(c, 1, false), 0.5, "o").release()));
      owner.setSUs(two, false, false);
      m->setSUs(owner.getSUs(), c.b(), c.b());
    }); break;
    case 5: any(c, [&] {
      if (has) m->setCurrent(extreme(c, 1), c.b(), c.b()), m->timeStep_CC(c.pick({ 1.0, 0.0 }), (int)c.i(1, 3));
    }); break;
    case 6: any(c, [&] {
      if (!has) return;
      bat.emplace("b");
      bat->setSeriesandParallel((unsigned)c.i(1, 3), (unsigned)c.i(1, 3));
      Deep_ptr<Module> mine(m);
      bat->setModule(std::move(mine));
      if (c.b()) bat->setModule(Deep_ptr<Module>(m)); // refused
      look(&*bat);
    }); break;
    case 7: any(c, [&] {
      if (!bat || !bat->getCells()) return;
      Battery other(*bat);
      if (c.b()) *bat = other;
      other.setBlockDegAndTherm(true);
      other.setCurrent(0.1, c.b(), c.b());
      other.timeStep_CC(1, 2);
      look(&other);
    }); break;
    }
    c.step();
  }
  c.nontrivial(nops >= 3);
}

// ------------------------------------------------------------------------------------------------ files
static std::string bytes(Case &c)
{
  std::string s;
  const int n = (int)c.pick({ 3, 0, 1, 12, 60 });
  for (int i = 0; i < n; i++) switch (c.weighted({ 6, 6, 3, 2, 2, 1 })) {
    case 0: s += num6(c.r(-10, 10)); break;
    case 1: s += c.pick({ ",", ",", "\n", "\n", ";", " ", "\r\n", "\t", ",," }); break;
    case 2: s += c.pick({ "nan", "inf", "1e999", "-", "+", ".", "e5", "1e", "0x1p3", "--1", "1.2.3" }); break;
    case 3: s += (char)c.i(0, 255); break;
    case 4: s += "\xEF\xBB\xBF"; break;
    default: s += std::string((size_t)c.i(1, 300), c.pick({ '9', ',', '\n', ' ', '1' })); break;
    }
  return s;
}
PBT_SUB("P26.bytes", 40000, 1000000, "files of arbitrary bytes (numbers, separators, special values, broken tokens, long runs) read by every reader into vectors, arrays, matrices, views and curves; non-trivial: at least one number and one separator in the file")
{
  const std::string text = bytes(c);
  static const std::string name = "results/mem_bytes.csv";
  std::ofstream(name, std::ios::binary) << text;
  for (unsigned char ch : text) c.desc << (ch >= 32 && ch < 127 ? std::string(1, ch) : "\\x" + std::to_string((int)ch));
  c.desc << "\n";
  any(c, [&] { std::vector<double> x{ 1, 2 }, y; loadCSV_2col(name, x, y, (int)c.i(0, 5)); });
  any(c, [&] { std::array<double, 3> x{}, y{}; loadCSV_2col(name, x, y, (int)c.i(0, 5)); });
  any(c, [&] { std::array<double, 2> x{}; loadCSV_1col(name, x); });
  any(c, [&] { Matrix<double, 2, 3> x{}; loadCSV_mat(name, x); });
  any(c, [&] { DynamicMatrix<double> x; loadCSV_Ncol(name, x, (int)c.i(0, 5)); if (x.size() > 0) (void)x(x.rows() - 1, x.cols() - 1); });
  any(c, [&] { XYdata_vv d; d.setCurve(name); if (d.size() > 0) for (double q : { 0.5, -1e9, 1e9, (double)NAN }) { try { d.interp(q, false, c.b()); } catch (int) {} } });
    c.nontrivial(text.find_first_of("0123456789") != std::string::npos && text.find_first_of(",\n ;") != std::string::npos);
}

// ------------------------------------------------------------------------------------------------ data types
PBT_SUB("P26.types", 60000, 2000000, "ranges, histograms, small containers, curves and intervals of any size (also empty) with extreme arguments; non-trivial: all")
{
  const int what = (int)c.i(0, 6);
  c.desc << "type " << what << "\n";
  c.nontrivial();
  switch (what) {
  case 0: any(c, [&] { // histogram
    Histogram<> h = c.b(1, 6) ? Histogram<>() : Histogram<>(c.r(-5, 5), c.b(1, 8) ? 1e300 : c.r(5.1, 9), (int)c.pick({ 1, 2, 100, 5 }));
    for (int i = (int)c.i(0, 20); i > 0; i--) h.add(extreme(c, 5));
    Histogram<> g = h;
    g = std::move(h);
    std::ostringstream o;
    o << g;
    (void)g.getEdgeValues();
  }); break;
  case 1: any(c, [&] { // ranges
    const int n = (int)c.pick({ 5, 0, 1, 2, -3, 1000 });
    auto f = linspace_fix(c.r(-1, 1), c.r(-1, 1), n);
    double s = 0;
    for (auto x : f) s += x;
    auto v = linspace(c.r(-1, 1), c.r(-1, 1), n);
    for (auto x : v) s += x;
    auto r = range_fix(c.r(-2, 2), c.r(-2, 2), c.pick({ 0.1, 1.0, -0.1 }));
    for (auto x : r) s += x;
    if (f.size() > 0) s += f.front() + f.back() + *std::lower_bound(f.begin(), f.end(), c.r(-1, 1));
    volatile double keep = s;
    (void)keep;
  }); break;
  case 2: any(c, [&] { // degradation identifiers
    DEG_ID d;
    for (int i = (int)c.i(0, 9); i > 0; i--) any(c, [&] { (c.b() ? d.SEI_id : d.LAM_id).add_model((int)c.i(-2, 9)); });
    any(c, [&] { (c.b() ? d.CS_id : d.SEI_id)[(int)c.i(0, 5)]; });
    DEG_ID e = d;
    e.print();
    (void)Cell_SPM("x", e, 1, 1, 1, 1).V();
  }); break;
  case 3: any(c, [&] { // curves
    const int n = (int)c.i(1, 6);
    std::vector<double> x, y;
    double at = c.r(-1, 1);
    for (int i = 0; i < n; i++) x.push_back(at), y.push_back(c.r(-1, 1)), at += c.b(1, 2) ? 0.5 : c.rlog(1e-9, 1e3);
    XYdata_vv d(x, y);
    for (int i = 0; i < 5; i++) {
      const double q = c.b() ? extreme(c, 1) : c.choose(x);
      any(c, [&] { d.interp(q, false, c.b()); });
      any(c, [&] { (void)linInt_noexcept(c.b(), x, y, n, q, c.b(1, 4) && n > 1); });
    }
  }); break;
  case 4: any(c, [&] { // small vectors
    SmallVector<int, 3> s;
    for (int i = (int)c.i(0, 5); i > 0; i--) any(c, [&] { s.push_back((int)c.i(-9, 9)); });
    any(c, [&] { s[(int)c.i(0, 4)] = 1; });
    int t = 0;
    for (int x : s) t += x;
    any(c, [&] { SmallVector<unsigned, 3> u((unsigned)c.i(0, 5)); });
  }); break;
  case 5: any(c, [&] { // dynamic matrices
    const int a = (int)c.i(0, 4), b = (int)c.i(0, 4);
    DynamicMatrix<double> m(a, b, 1.0), k = m;
    std::ostringstream o;
    o << m;
    m.resize((int)c.i(0, 5), (int)c.i(0, 5), 2);
    for (int i = 0; i < m.rows(); i++)
      for (int j = 0; j < m.cols(); j++) m(i, j) += 1;
    m = std::move(k);
  }); break;
  case 6: any(c, [&] { // owning pointers
    using D = Deep_ptr<StorageUnit>;
    std::vector<D> v((size_t)c.i(0, 4));
    for (auto &x : v)
      if (c.b(3, 4)) x.reset(makeECM<1>(genEcmPar(c, 1, false), 0.5, "d").release());
    for (int i = 0; i < 6 && !v.empty(); i++) {
      auto &a = c.choose(v);
      auto &b = c.choose(v);
      auto &A = const_cast<D &>(a), &B = const_cast<D &>(b);
      switch (c.i(0, 5)) {
      case 0: A = B; break;
      case 1: A = std::move(B); break;
      case 2: A.swap(B); break;
      case 3: A.reset(); break;
      case 4: v.push_back(D(B)); break;
      default: v.erase(v.begin() + (&a - v.data())); break;
      }
    }
    for (auto &x : v)
      if (x) look(x.get());
  }); break;
  }
}

// ------------------------------------------------------------------------------------------------ cooling and converter
PBT_SUB("P26.cool", 20000, 500000, "cooling systems and converters with extreme temperatures, heats, times, sizes and strategies; non-trivial: at least two operations")
{
  const size_t n = (size_t)c.pick({ 1, 0, 10, 3000 });
  const int ctrl = (int)c.i(1, 5);
  Deep_ptr<CoolSystem> cs(c.b() ? new CoolSystem(n, ctrl) : c.b() ? static_cast<CoolSystem *>(new CoolSystem_HVAC(n, ctrl, c.r(0, 1000))) : static_cast<CoolSystem *>(new CoolSystem_open(n, ctrl)));
  c.desc << "system for " << n << " strategy " << ctrl << "\n";
  const int nops = (int)c.i(1, 10);
  for (int k = 0; k < nops; k++) any(c, [&] {
    switch (c.i(0, 6)) {
    case 0: cs->setT(c.b() ? c.r(274, 330) : extreme(c, 300)); break;
    case 1: cs->control(c.b() ? c.r(274, 330) : extreme(c, 300), c.b() ? c.r(274, 330) : extreme(c, 300)); break;
    case 2: cs->dstate(extreme(c, 1000), extreme(c, 1000), c.pick({ 1.0, 0.0, 100.0, -1.0 })); break;
    case 3: cs->getH(); break;
    case 4: cs->storeData(n), cs->writeData("results/memcool"); break;
    case 5: cs.reset(cs->copy()); break;
    default: {
      Converter cv;
      cv.setPower(c.pick({ 1.0, 1e3, c.rlog(1e-3, 1e12) }));
      cv.getLosses(extreme(c, 500), extreme(c, 100));
    }
    }
  });
  c.nontrivial(nops >= 2);
}

int main(int a, char **b) { return pbt::pbtMain(a, b); }
