// P18: what is written to the data files is exactly what was stored, for every interleaving of steps, stores and writes and every storage level.
#include "cool.hpp"
#include "files.hpp"
using namespace slide;
using namespace vt;
namespace fs = std::filesystem;
using CL = settings::cellDataStorageLevel;
using ML = settings::moduleDataStorageLevel;
constexpr auto CELLV = settings::DATASTORE_CELL;
constexpr auto MODV = settings::DATASTORE_MODULE;
constexpr int COOLV = settings::DATASTORE_COOL;
constexpr int BATTV = DATASTORE_BATT;

namespace {
// blocks of one file: for every write the line of states (if any) and the rows
struct Block
{
  Row states;
  bool hasStates{ false };
  std::vector<Row> rows;
};
// ---------------------------------------------------------------------------------------------- model of one cooling system
double acSetting(const CoolSystem_HVAC &s) // cooling power of the air conditioning, read from what a copy extracts in a second
{
  CoolSystem_HVAC k(s);
  const double q = k.getQcoolAC_tot();
  const double T = k.T();
  (void)T;
  k.dstate(0, 0, 1);
  return k.getQcoolAC_tot() - q;
}
struct CoolBook
{
  double t0{ 0 }, evac0{ 0 }, e0{ 0 };
  double fan{ 0 }, ac{ 0 }; // energy since the last store, where the split is known
  std::vector<Row> rows, acRows;
  Row T, Q, flr, E, Qac, Eac; // samples of the histograms
};

// ---------------------------------------------------------------------------------------------- model of one unit tree
struct Rec
{
  StorageUnit *su;
  std::string id;
  Cell *cell{ nullptr };
  Module *mod{ nullptr };
  Battery *bat{ nullptr };
  std::vector<Row> pend;          // stored, not yet written
  Row hI, hV, hT;                 // all samples (histogram level)
  double Ah{ 0 }, WhLo{ 0 }, WhHi{ 0 }, time{ 0 }; // throughput of a module, total time of a battery
  double I0{ 0 }, V0{ 0 };
  double t0{ 0 }, evac0{ 0 }, e0{ 0 }; // cooling: at the last store
  std::vector<Row> coolPend;
  CoolSystem *cool() const { return mod ? mod->getCoolSystem() : bat ? bat->getCoolSystem() : nullptr; }
};
void collect(StorageUnit *su, std::vector<Rec> &v)
{
  Rec r{ su, su->getFullID() };
  r.cell = dynamic_cast<Cell *>(su), r.mod = dynamic_cast<Module *>(su), r.bat = dynamic_cast<Battery *>(su);
  Battery *b = r.bat;
  Module *m = r.mod;
  v.push_back(r);
  if (b) collect(b->getCells(), v);
  if (m)
    for (size_t i = 0; i < m->getNSUs(); i++) collect((*m)[i].get(), v);
}
struct Expect
{
  std::vector<Block> blocks; // cells
  std::vector<Row> rows;     // modules, batteries
  std::vector<std::pair<Row, Row>> wh; // bounds of the energy of module rows
  std::vector<std::array<Row, 3>> hists; // cells, one snapshot per write
};
} // namespace

PBT_SUB("P18.unit", 6000, 200000, "random cell, pack or battery; random interleaving of steps, set-points, temperature changes, stores and writes under up to three prefixes; non-trivial: at least two writes, stores between and after them, and an operation between stores")
{
  wipe();
  UnitOpt o;
  o.pack.maxDepth = 2, o.pack.maxChildren = 3, o.pack.rdeg = true;
  o.wBat = 2;
  Unit u = genUnit(c, o);
  std::vector<Rec> rs;
  collect(u.top.get(), rs);
  c.desc << u.show();
  const std::vector<std::string> prefixes = { "a", "run_2", "x y" };
  const int np = (int)c.i(1, 3);
  std::map<std::string, Expect> ex;
  const int n = (int)c.i(3, c.thorough ? 25 : 14);
  int writes = 0, stores = 0, moved = 0;
  bool interleaved = false;
  OpW w;
  if (MODV >= ML::storeCumulativeData) w.w[4] = w.w[5] = 0, w.far = false; // unbalanced groups jump between voltages within a step, which leaves the energy open
  for (int k = 0; k < n; k++) {
    const int what = k == n - 1 ? 2 : c.weighted({ 4, 4, 2 });
    if (what == 0) {
      Op op = genOp(c, u, w);
      if (op.kind == 1 || op.kind == 7) {
        if (op.x > 2 && u.parallel()) op.x = 2;
        op.n = std::min(op.n, 4);
      }
      for (auto &r : rs) {
        if (op.kind == 7) continue;
        r.I0 = r.su->I();
        if (r.mod) r.V0 = r.su->V();
      }
      if (op.kind == 7) { // rest = set-point and step; do it in two operations to know the current during the step
        (void)caughtInt([&] { u->setCurrent(0, false, false); });
        op.kind = 1;
        for (auto &r : rs) {
          r.I0 = r.su->I();
          if (r.mod) r.V0 = r.su->V();
        }
      }
      c.desc << " " << op.show();
      std::vector<std::pair<double, double>> between(rs.size(), { 1e9, -1e9 }); // voltages within the call: of every step, before the heat of the step has changed the temperature
      if (MODV >= ML::storeCumulativeData && op.kind == 1) {
        Deep_ptr<StorageUnit> shadow(u.top->copy());
        shadow->setBlockDegAndTherm(true);
        std::vector<Rec> ss;
        collect(shadow.get(), ss);
        for (int j = 0; j < op.n; j++) {
          if (caughtInt([&] { shadow->timeStep_CC(op.x, 1); }) != -1) break;
          for (size_t i = 0; i < rs.size() && i < ss.size(); i++)
            if (ss[i].mod) between[i] = { std::min(between[i].first, ss[i].su->V()), std::max(between[i].second, ss[i].su->V()) };
        }
      }
      const double res = apply(u, op);
      if (threw(res)) {
        c.label("operation-threw");
        c.discard(); // what a throwing step did to the parts of a pack is not specified
      }
      moved++;
      c.step();
      if (op.kind == 1)
        for (size_t i = 0; i < rs.size(); i++) {
          auto &r = rs[i];
          const double t = op.x * op.n;
          r.time += t;
          if (r.cell) r.Ah += std::fabs(r.I0) * t / 3600;
          if (r.mod) {
            const double q = std::fabs(r.I0) * t / 3600, V1 = r.su->V();
            r.Ah += q;
            const double lo = std::min({ r.V0, V1, between[i].first }), hi = std::max({ r.V0, V1, between[i].second });
            const double slack = 0.02 * std::max({ std::fabs(lo), std::fabs(hi), 0.05 });
            r.WhLo += q * (lo - slack), r.WhHi += q * (hi + slack);
          }
        }
    } else if (what == 1) {
      c.desc << " store";
      const bool before = c.b(1, 2);
      std::vector<Row> got(rs.size());
      auto read = [&] {
        for (size_t i = 0; i < rs.size(); i++) {
          auto &r = rs[i];
          if (r.cell) {
            auto th = r.cell->getThroughputs();
            got[i] = { r.su->I(), r.su->V(), r.cell->SOC(), r.su->T(), th.time(), th.Ah(), th.Wh() };
          } else if (r.mod)
            got[i] = { r.Ah, 0.5 * (r.WhLo + r.WhHi), r.time, r.su->I(), r.su->V(), r.su->T(), r.WhLo, r.WhHi };
          else
            got[i] = { r.time, r.su->I(), r.su->V(), r.su->T(), NAN };
        }
      };
      if (before) read();
      if (int e = caughtInt([&] { u->storeData(); }); e != -1) c.fail("P18.store-threw", "storeData threw " + std::to_string(e));
      if (!before) read();
      for (size_t i = 0; i < rs.size(); i++) {
        auto &r = rs[i];
        if (r.cell) r.hI.push_back(got[i][0]), r.hV.push_back(got[i][1]), r.hT.push_back(got[i][3]);
        r.pend.push_back(got[i]);
        if (auto *cs = r.cool(); cs && COOLV == 2) {
          const double dt = cs->getTotalTime() - r.t0;
          if (dt != 0) { // a cooling system that had no time step has no mean to store
            r.coolPend.push_back({ cs->getTotalTime(), (cs->getHeatEvac() - r.evac0) / dt, (cs->getEoperation() - r.e0) / dt, cs->getFlr() });
            r.t0 = cs->getTotalTime(), r.evac0 = cs->getHeatEvac(), r.e0 = cs->getEoperation();
          }
        }
      }
      stores++;
      interleaved |= writes > 0;
    } else {
      const std::string pre = prefixes[c.i(0, np - 1)];
      c.desc << " write(" << pre << ")";
      for (auto &r : rs) {
        auto &e = ex[pre + "_" + r.id + (r.cell ? "_cellData.csv" : r.mod ? "_ModuleData.csv" : "_battData.csv")];
        if (r.cell) {
          const auto th = r.cell->getThroughputs();
          const double on = CELLV >= CL::storeCumulativeData;
          if (!near(th.time(), on * r.time, 1e-9, 1e-9) || !near(th.Ah(), on * r.Ah, 1e-9, 1e-12)) c.fail("P18.totals", r.id + " reports " + num(th.time()) + " s and " + num(th.Ah()) + " Ah, experienced were " + num(r.time) + " s and " + num(r.Ah) + " Ah");
          Block b;
          b.hasStates = CELLV >= CL::storeCumulativeData;
          auto v = r.su->viewStates();
          b.states.assign(v.begin(), v.end());
          b.rows = r.pend;
          if (CELLV != CL::storeTimeData) b.rows.clear();
          e.blocks.push_back(b);
          e.hists.push_back({ r.hI, r.hV, r.hT });
        } else if ((r.mod && MODV >= ML::storeTimeData) || (r.bat && BATTV == 2))
          e.rows.insert(e.rows.end(), r.pend.begin(), r.pend.end());
        r.pend.clear();
        if (r.cool() && COOLV == 2) {
          auto &q = ex[pre + "_" + r.id + "_coolSystem"];
          q.rows.insert(q.rows.end(), r.coolPend.begin(), r.coolPend.end());
          r.coolPend.clear();
        }
      }
      if (int e = caughtInt([&] { u->writeData(pre); }); e != -1) c.fail("P18.write-threw", "writeData threw " + std::to_string(e));
      writes++;
    }
  }
  if (writes > 1 && stores > 1 && moved > 0 && interleaved) c.nontrivial();
  // ---- every file holds exactly what is expected
  auto files = csvFiles();
  for (auto &[name, e] : ex) {
    const bool isCell = name.find("_cellData") != std::string::npos, isMod = name.find("_ModuleData") != std::string::npos, isBat = name.find("_battData") != std::string::npos;
    if (!isCell && !isMod && !isBat) continue; // cooling, below
    const bool needed = isCell ? CELLV >= CL::storeCumulativeData : isMod ? MODV >= ML::storeTimeData : BATTV == 2;
    auto it = files.find(name);
    if (it == files.end()) {
      if (needed) c.fail("P18.missing", "no file " + name);
      continue;
    }
    if (isCell && CELLV == CL::storeHistogramData) {
      std::vector<Hist> h;
      std::vector<Row> other;
      if (!readHists(it->second, h, other)) c.fail("P18.hist-format", name + " cannot be read as histograms");
      if (h.size() != 3 * e.hists.size()) c.fail("P18.hist-count", name + " holds " + std::to_string(h.size()) + " histograms after " + std::to_string(e.hists.size()) + " writes");
      for (size_t i = 0; i < h.size(); i++) {
        static const char *nm[] = { "current", "voltage", "temperature" };
        if (i % 3 == 1 && !(near(h[i].edges.front(), 2.7, 1e-5, 0) && near(h[i].edges.back(), 4.2, 1e-5, 0))) c.fail("P18.hist-range", name + ": voltages are counted from " + num6(h[i].edges.front()) + " to " + num6(h[i].edges.back()));
        if (i % 3 == 2 && !(near(h[i].edges.front(), KELVIN, 1e-5, 0) && near(h[i].edges.back(), TmaxK, 1e-5, 0))) c.fail("P18.hist-range", name + ": temperatures are counted from " + num6(h[i].edges.front()) + " to " + num6(h[i].edges.back()));
        const std::string d = histDiff(h[i], e.hists[i / 3][i % 3]);
        if (!d.empty()) c.fail("P18.hist", name + ": histogram of the " + nm[i % 3] + " at write " + std::to_string(i / 3) + " " + d);
      }
      files.erase(it);
      continue;
    }
    // lines of the file in order: states at every write, rows in between
    std::vector<Row> flat;
    std::vector<char> isState;
    for (auto &b : e.blocks) {
      if (b.hasStates) flat.push_back(b.states), isState.push_back(1);
      for (auto &r : b.rows) flat.push_back(r), isState.push_back(0);
    }
    for (auto &r : e.rows) flat.push_back(r), isState.push_back(0);
    size_t k = 0;
    auto ls = lines(it->second);
    for (auto &l : ls) {
      const bool st = l.rfind("States:,", 0) == 0;
      Row r;
      if (!numbers(st ? l.substr(8) : l, r)) c.fail("P18.format", name + ": cannot read the line '" + l.substr(0, 200) + "'");
      if (k >= flat.size()) c.fail("P18.extra", name + " holds more than the " + std::to_string(flat.size()) + " entries that were stored: " + l.substr(0, 200));
      if (st != (bool)isState[k]) c.fail("P18.order", name + ": entry " + std::to_string(k) + (st ? " is a line of states" : " is a sample") + ", expected the other");
      const Row &x = flat[k];
      const size_t len = isMod ? 6 : x.size();
      if (r.size() != len) c.fail("P18.columns", name + ": entry " + std::to_string(k) + " has " + std::to_string(r.size()) + " values, expected " + std::to_string(len));
      for (size_t i = 0; i < len; i++) {
        bool ok = same6(r[i], x[i]);
        if (isMod && i == 0) ok = near(r[0], x[0], 2e-4, 1e-9); // children of a parallel module: the solver's tolerance
        if (isMod && i == 1) ok = r[1] >= x[6] * (1 - 1e-5) - 1e-9 && r[1] <= x[7] * (1 + 1e-5) + 1e-9;
        if (isBat && i == 4) ok = std::isfinite(r[i]) && r[i] >= 0;
        if (!ok) c.fail(st ? "P18.states" : "P18.sample", name + ": entry " + std::to_string(k) + " is " + l.substr(0, 300) + ", stored was " + show(x));
      }
      k++;
    }
    if (k != flat.size()) c.fail("P18.lost", name + " holds " + std::to_string(k) + " entries, " + std::to_string(flat.size()) + " were stored and written");
    files.erase(it);
  }
  std::map<std::string, std::vector<Row>> cools;
  for (auto it = files.begin(); it != files.end();) { // cooling systems
    const auto p = it->first.find("_coolSystem");
    if (p == std::string::npos) {
      ++it;
      continue;
    }
    if (COOLV == 0) c.fail("P18.unexpected-file", it->first + " was written though cooling data is not stored");
    const std::string key = it->first.substr(0, p);
    bool known = false;
    for (auto &r : rs)
      for (auto &pre : prefixes) known |= (bool)r.cool() && key == pre + "_" + r.id;
    if (!known) c.fail("P18.unexpected-file", it->first + " belongs to no unit");
    if (COOLV == 2)
      for (auto &l : lines(it->second)) {
        Row r;
        if (!numbers(l, r)) c.fail("P18.format", it->first + ": cannot read the line '" + l + "'");
        if (r.size() == 4) cools[key].push_back(r); // lines of two values belong to the air conditioning, see P18.cool
        else if (r.size() != 2)
          c.fail("P18.columns", it->first + ": unexpected line " + l);
      }
    it = files.erase(it);
  }
  if (COOLV == 2)
    for (auto &r : rs)
      if (r.cool())
        for (auto &pre : prefixes) {
          const std::string key = pre + "_" + r.id;
          const auto &want = ex[key + "_coolSystem"].rows;
          const auto &got = cools[key];
          if (got.size() != want.size()) c.fail("P18.cool-lost", key + ": files hold " + std::to_string(got.size()) + " entries of the cooling system, " + std::to_string(want.size()) + " were stored and written");
          const bool hvac = dynamic_cast<CoolSystem_HVAC *>(r.cool());
          for (size_t k = 0; k < want.size(); k++) {
            const Row &x = want[k], &g = got[k];
            const double sc = std::max(1.0, std::fabs(x[1]));
            if (!same6(g[0], x[0]) || !near(g[1], x[1], 1e-5, 1e-7 * sc) || !(hvac ? g[2] <= x[2] * (1 + 1e-5) + 1e-9 : near(g[2], x[2], 1e-5, 1e-9)) || !near(g[3], x[3], 1e-5, 1e-12))
              c.fail("P18.cool-sample", key + ": entry " + std::to_string(k) + " of the cooling system is " + show(g) + ", stored was " + show(x));
          }
        }
  for (auto &[name, p] : files) c.fail("P18.unexpected-file", name + " was written but belongs to no unit");
}

#if DATASTORE_BATT == 0
PBT_SUB("P18.flush", 4, 100, "a cell cycled through a procedure for more samples than fit in memory: the automatic flush and the final one together hold every sample in order")
{
  wipe();
  c.nontrivial();
  EcmPar p;
  p.n = 0, p.cap = c.rlog(5, 50);
  auto cell = makeECM<0>(p, c.r(0.4, 0.6), "c");
  Cycler cyc(cell.get(), "f");
  const double dt = 0.25;
  const size_t nmax = settings::CELL_NDATA_INST_MAX;
  const int chunks = (int)c.i(1, 2);
  size_t total = 0;
  for (int k = 0; k < chunks; k++) {
    ThroughputData th{};
    const size_t steps = nmax / chunks + c.i(-3, 3) + (k + 1 == chunks ? c.i(0, 2000) : 0);
    c.desc << "rest " << steps << " steps; ";
    cyc.rest(steps * dt, dt, 1, th);
    total += steps;
  }
  cyc.writeData();
  if (CELLV != CL::storeTimeData) return;
  auto files = csvFiles();
  if (files.size() != 1 || !files.count("f_c_cellData.csv")) c.fail("P18.missing", "expected exactly the file f_c_cellData.csv");
  double last = -1;
  size_t rows = 0;
  Row r;
  std::map<double, int> seen;
  for (auto &l : lines(files.begin()->second)) {
    if (l.rfind("States", 0) == 0) continue;
    if (!numbers(l, r) || r.size() != 7) c.fail("P18.format", "cannot read the line '" + l.substr(0, 200) + "'");
    if (r[4] < last - 1e-9) c.fail("P18.order", "time goes back from " + num6(last) + " to " + num6(r[4]));
    if (r[4] > last + dt * 1.5 && last >= 0) c.fail("P18.lost", "no samples between " + num6(last) + " s and " + num6(r[4]) + " s although one was stored every " + num6(dt) + " s");
    last = r[4];
    rows++;
  }
  if (rows < total || rows > total + 4 * (size_t)chunks) c.fail("P18.lost", std::to_string(rows) + " samples in the file after " + std::to_string(total) + " steps");
}
#endif

PBT_SUB("P18.cool", 20000, 500000, "one cooling system driven directly through control decisions, heat exchanges, stores and writes; non-trivial: at least two stores with time steps in between, and a write between stores")
{
  wipe();
  const int kind = (int)c.i(0, 2), ctrl = (int)c.i(1, 5);
  const size_t N = (size_t)c.pick({ 1, 4, 27, 100 });
  const double Q0 = kind == HVAC && c.b(1, 2) ? c.r(0, 50) : 0;
  std::unique_ptr<CoolSystem> s;
  if (kind == REG) s.reset(new CoolSystem(N, ctrl));
  else if (kind == HVAC)
    s.reset(new CoolSystem_HVAC(N, ctrl, Q0));
  else
    s.reset(new CoolSystem_open((int)N, ctrl));
  auto *hv = dynamic_cast<CoolSystem_HVAC *>(s.get());
  c.desc << "kind " << kind << " control " << ctrl << " N " << N << " Q0 " << Q0 << ":";
  CoolBook b;
  double fan = 0, ac = 0;
  std::vector<Row> rows, acRows;
  std::vector<CoolBook> snaps;
  const int n = (int)c.i(3, 20);
  int stores = 0, mid = 0;
  bool written = false;
  for (int k = 0; k < n; k++) {
    c.step();
    switch (k == n - 1 ? 3 : c.weighted({ 4, 2, 3, 1 })) {
    case 0: {
      const double t = c.pick({ 0.5, 1.0, 10.0, 60.0 }), q = N * t * c.r(-2, 20);
      c.desc << " exchange(" << num6(q) << "," << num6(t) << ")";
      const double e0 = s->getEoperation();
      RefCool rc;
      rc.kind = (CoolKind)kind, rc.N = N, rc.ctrl = ctrl, rc.Q0 = Q0, rc.flow = s->getFlr();
      const double f = rc.fanPower() * t;
      const double T = s->dstate(q, q, t);
      fan += f, ac += s->getEoperation() - e0 - f;
      if (T > KELVIN + 1 && T < KELVIN + 74) s->setT(T);
      break;
    }
    case 1: {
      const double a = KELVIN + c.r(0, 60), g = std::max(a, KELVIN + c.r(0, 60));
      c.desc << " control(" << num6(a) << "," << num6(g) << ")";
      s->control(a, g);
      break;
    }
    case 2: {
      c.desc << " store";
      const double dt = s->getTotalTime() - b.t0;
      const double qac = hv ? acSetting(*hv) : 0;
      s->storeData(N);
      if (dt == 0) break;
      stores++;
      if (written) mid = 1;
      const double Q = (s->getHeatEvac() - b.evac0) / dt;
      b.rows.push_back({ s->getTotalTime(), Q, fan / dt, s->getFlr() });
      b.T.push_back(s->T()), b.Q.push_back(Q / N), b.flr.push_back(s->getFlr() / N), b.E.push_back(fan / dt / N);
      if (hv) b.acRows.push_back({ qac, ac / dt }), b.Qac.push_back(qac / N), b.Eac.push_back(ac / dt / N);
      b.t0 = s->getTotalTime(), b.evac0 = s->getHeatEvac(), fan = ac = 0;
      break;
    }
    case 3:
      c.desc << " write";
      s->writeData("c");
      written = true;
      snaps.push_back(b);
      break;
    }
  }
  if (stores > 1 && mid) c.nontrivial();
  auto files = csvFiles();
  if (COOLV == 0) {
    if (!files.empty()) c.fail("P18.unexpected-file", files.begin()->first + " was written though cooling data is not stored");
    return;
  }
  std::vector<Row> got4, got2;
  std::vector<Hist> h;
  for (auto &[name, p] : files) {
    if (name.rfind("c_coolSystem", 0) != 0) c.fail("P18.unexpected-file", name);
    std::vector<Row> o;
    if (!readHists(p, h, o)) c.fail("P18.format", name + " cannot be read");
    for (auto &r : o) {
      if (COOLV == 2 && r.size() == 4) got4.push_back(r);
      if (COOLV == 2 && r.size() == 2) got2.push_back(r);
      if (COOLV == 2 && r.size() != 4 && r.size() != 2) c.fail("P18.columns", name + ": " + show(r));
    }
  }
  auto cmp = [&](const std::vector<Row> &g, const std::vector<Row> &w, const char *what) {
    if (g.size() != w.size()) c.fail("P18.cool-lost", std::to_string(g.size()) + " entries of the " + what + " in the file, " + std::to_string(w.size()) + " were stored");
    for (size_t i = 0; i < w.size(); i++)
      for (size_t j = 0; j < w[i].size(); j++)
        if (!near(g[i][j], w[i][j], 1e-5, 1e-7 * N)) c.fail("P18.cool-sample", std::string(what) + " entry " + std::to_string(i) + " is " + show(g[i]) + ", stored was " + show(w[i]));
  };
  if (COOLV == 2) {
    cmp(got4, b.rows, "cooling system");
    if (hv) cmp(got2, b.acRows, "air conditioning");
    return;
  }
  const size_t per = hv ? 6 : 4;
  if (h.size() != per * snaps.size()) c.fail("P18.hist-count", std::to_string(h.size()) + " histograms after " + std::to_string(snaps.size()) + " writes");
  for (size_t wv = 0; wv < snaps.size(); wv++) {
    const CoolBook &x = snaps[wv];
    for (size_t i = 0; i < per; i++) { // identified by their range
      const Hist &g = h[wv * per + i];
      const double hi = g.edges.back();
      const Row *r = nullptr;
      const char *nm = "";
      if (near(hi, KELVIN + 100, 1e-4, 0)) r = &x.T, nm = "temperature";
      else if (near(hi, 5, 1e-4, 0))
        r = &x.Q, nm = "evacuated heat";
      else if (near(hi, 1.1 * FLOW1, 1e-4, 0))
        r = &x.flr, nm = "flow";
      else if (near(hi, 1.1 * QAC1, 1e-4, 0))
        r = &x.Qac, nm = "AC cooling power";
      else if (near(hi, 1.1 * QAC1 * COPac, 1e-4, 0))
        r = &x.Eac, nm = "AC operating power";
      else if (i < 4)
        r = &x.E, nm = "fan power";
      if (!r) c.fail("P18.hist-range", "a histogram ends at " + num6(hi));
      const std::string d = histDiff(g, *r);
      if (!d.empty()) c.fail("P18.cool-hist", std::string("histogram of the ") + nm + " at write " + std::to_string(wv) + " " + d);
    }
  }
}

int main(int a, char **b) { return pbt::pbtMain(a, b); }
