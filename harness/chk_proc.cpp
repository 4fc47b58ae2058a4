// P24: ageing procedures run the requested protocol and write what happened.
#include "life.hpp"
#include "files.hpp"
using namespace slide;
using namespace vt;
namespace fs = std::filesystem;
constexpr int COOLV = settings::DATASTORE_COOL;

namespace {
template <typename F>
void leavesOf(StorageUnit *su, F &&f)
{
  if (auto *b = dynamic_cast<Battery *>(su)) leavesOf(b->getCells(), f);
  else if (auto *m = dynamic_cast<Module *>(su))
    for (size_t i = 0; i < m->getNSUs(); i++) leavesOf((*m)[i].get(), f);
  else
    f(dynamic_cast<Cell *>(su));
}
template <typename F>
void containersOf(StorageUnit *su, F &&f) // batteries and modules, from the top
{
  if (auto *b = dynamic_cast<Battery *>(su)) f(su, b->getCoolSystem()), containersOf(b->getCells(), f);
  else if (auto *m = dynamic_cast<Module *>(su)) {
    f(su, m->getCoolSystem());
    for (size_t i = 0; i < m->getNSUs(); i++) containersOf((*m)[i].get(), f);
  }
}
double coolLoad(StorageUnit *su)
{
  if (auto *b = dynamic_cast<Battery *>(su)) return b->getCoolingLoad();
  if (auto *m = dynamic_cast<Module *>(su)) return m->getCoolingLoad();
  return 0;
}
struct CellRow
{
  std::string id;
  Row v; // four variations, Ah, number, time, Ah, Wh, capacity, states
};
// What the procedure should leave behind
struct Book
{
  std::vector<Row> thr;     // rows of the throughput file
  std::vector<Row> pending; // steps not written yet
  std::vector<CellRow> cells;
  std::vector<std::pair<std::string, Row>> mods; // last overview of the modules
  std::vector<std::string> hists;                // printed histograms in the last overview
  Row state;                                     // cycle number and states of the unit
  bool hasMods{ false }, hasState{ false };
  int checkups{ 0 };
  bool cleared{ false }; // the throughput file was started anew
};
std::string thFile(StorageUnit *su) { return su->getFullID() + "_throughput.csv"; }

void mPrep(StorageUnit *su) // charge slowly to three quarters of the voltage window
{
  ThroughputData th{};
  Cycler(su, "prep").setDiagnostic(true).CC(-su->Cap() / 25.0, 0.75 * su->Vmax() + 0.25 * su->Vmin(), TIME_INF, 2, 0, th);
}
void mCells(StorageUnit *su, double Ah, int nr, Book &b)
{
  leavesOf(su, [&](Cell *c) {
    CellRow r;
    r.id = c->getFullID();
    for (double x : c->getVariations()) r.v.push_back(x);
    auto th = c->getThroughputs();
    std::unique_ptr<StorageUnit> k{ c->copy() };
    for (double x : { Ah, (double)nr, (double)th.time(), (double)th.Ah(), (double)th.Wh(), (double)Cycler(k.get(), "cap").testCapacity() }) r.v.push_back(x);
    auto s = c->viewStates();
    const bool spm = dynamic_cast<Cell_SPM *>(c);
    for (size_t i = 0; i < s.size(); i++)
      if (!spm || i < 15 || i >= 25) r.v.push_back(s[i]); // the ten concentration states are left out
    b.cells.push_back(r);
  });
}
void mMods(StorageUnit *su, Book &b)
{
  b.mods.clear(), b.hists.clear();
  b.hasMods = true;
  containersOf(su, [&](StorageUnit *x, CoolSystem *cs) {
    b.mods.push_back({ x->getFullID(), { (double)x->getNcells(), (double)cs->getTotalTime(), (double)cs->getHeatEvac(), (double)cs->getHeatabsorbed() } });
    auto print = [&](auto &h) {
      std::ostringstream o;
      o << h;
      b.hists.push_back(o.str());
    };
    auto all = [&](auto *s) {
      if constexpr (COOLV == 1) {
        print(s->coolData.tData.T), print(s->coolData.tData.Q), print(s->coolData.tData.flr), print(s->coolData.tData.E);
        if (auto *h = dynamic_cast<CoolSystem_HVAC *>(static_cast<CoolSystem *>(s)))
          [&](auto *hv) { print(hv->HVACdata.tData.Qac), print(hv->HVACdata.tData.Eac); }(h);
      }
    };
    all(cs);
  });
}
void mWriteThr(Book &b, double Ah)
{
  if (Ah == 0) b.thr.clear(), b.cleared = true;
  b.thr.insert(b.thr.end(), b.pending.begin(), b.pending.end());
  b.pending.clear();
}
struct Steps // per-step amounts
{
  StorageUnit *su;
  Book &b;
  ThroughputData last{};
  void store(const ThroughputData &th)
  {
    double loss = 0, cool = coolLoad(su) / 3600;
    if (auto *bat = dynamic_cast<Battery *>(su)) loss = bat->getAndResetConvLosses() / 3600;
    ThroughputData t = th, l = last;
    b.pending.push_back({ t.Ah() - l.Ah(), t.Wh() - l.Wh(), cool, loss });
    last = th;
  }
};
struct Par
{
  int ncyc{ 1 }, nchk{ 1 }, nbal{ 1 }, ndata{ 0 };
  bool testCV{ false }, bal{ false }, ut{ true };
  double cc{ 1 }, cd{ 1 }, vmax{ 0 }, vmin{ 0 }, vbal{ 3.65 };
  std::string show() const
  {
    return "cycles " + std::to_string(ncyc) + " check " + std::to_string(nchk) + " balance " + (bal ? "on" : "off") + "/" + std::to_string(nbal) + " at " + num(vbal) + " V, CV " + std::to_string(testCV) + ", C-rates " + num(cc) + "/" + num(cd) + ", " + num(vmin) + " to " + num(vmax) + " V, ndata " + std::to_string(ndata) + " unitTest " + std::to_string(ut);
  }
};
void mInterval(StorageUnit *su, Procedure &helper, const Par &p, bool doBal, bool doChk, double Ah, int i, Book &b, const std::string &pref)
{
  if (!p.ut) {
    su->V(); // voltages are read before the states, so stored voltages are up to date
    b.state = { (double)i };
    b.hasState = true;
    auto s = states(*su);
    b.state.insert(b.state.end(), s.begin(), s.end());
  }
  if (doBal) {
    su->setBlockDegAndTherm(true);
    helper.rebalance(su);
    su->setBlockDegAndTherm(false);
  }
  if (doChk) {
    if (settings::DATASTORE_CELL == settings::cellDataStorageLevel::storeTimeData && Ah > 0) su->writeData(pref);
    mMods(su, b);
    mWriteThr(b, Ah);
    mPrep(su);
    mCells(su, Ah, i, b);
    b.checkups++;
  }
}
void mFinish(StorageUnit *su, double Ah, int n, Book &b, const std::string &pref)
{
  mWriteThr(b, Ah);
  mPrep(su);
  mCells(su, Ah, n, b);
  b.checkups++;
  mMods(su, b);
  if (settings::DATASTORE_CELL == settings::cellDataStorageLevel::storeTimeData) su->writeData(pref);
}
// returns the number of complete cycles
int mCycleAge(StorageUnit *su, const Par &p, Book &b, std::string *why = nullptr)
{
  std::string dummy;
  if (!why) why = &dummy;
  Procedure helper(p.bal, p.vbal, p.ndata, true);
  Cycler cyc(su, "cycleAge");
  cyc.setDiagnostic(true);
  ThroughputData th{};
  Steps st{ su, b };
  int done = 0;
  const double cap = su->Cap();
  for (int i = 0; i < p.ncyc; i++) {
    mInterval(su, helper, p, p.bal && p.nbal > 0 && i % p.nbal == 0, p.nchk > 0 && i % p.nchk == 0, th.Ah(), i, b, "cycleAge");
    const double before = th.Ah();
    auto s = cyc.CC(-p.cc * cap, p.vmax, TIME_INF, 2, p.ndata, th);
    *why = std::string("charge-") + sname(s);
    if (s != Status::ReachedVoltageLimit) break;
    st.store(th);
    if (th.Ah() - before < 1e-5) break;
    if (p.testCV) {
      s = cyc.CV(p.vmax, 0.1, TIME_INF, 2, p.ndata, th);
      *why = std::string("chargeCV-") + sname(s);
      if (s != Status::ReachedCurrentLimit) break;
      st.store(th);
    }
    s = cyc.CC(p.cd * cap, p.vmin, TIME_INF, 2, p.ndata, th);
    *why = std::string("discharge-") + sname(s);
    st.store(th);
    if (s != Status::ReachedVoltageLimit) break;
    if (p.testCV) {
      if (cyc.CV(p.vmin, 0.1, TIME_INF, 2, p.ndata, th) != Status::ReachedCurrentLimit) break;
      st.store(th);
    }
    done++;
  }
  mFinish(su, th.Ah(), p.ncyc, b, "cycleAge");
  return done;
}
int mUseCase(StorageUnit *su, const Par &p, Book &b)
{
  Procedure helper(p.bal, p.vbal, p.ndata, true);
  Cycler cyc(su, "useAge");
  cyc.setDiagnostic(true);
  ThroughputData th{};
  const double cap = su->Cap(), vmax = su->Vmax(), vmin = su->Vmin();
  cyc.CC(cap / 2, vmin, TIME_INF, 1, p.ndata, th);
  Steps st{ su, b, th };
  int done = 0;
  for (int i = 0; i < 20; i++) {
    mInterval(su, helper, p, p.bal && i % 7 == 0, i % 10 == 0, th.Ah(), i, b, "useAge");
    try {
      bool ok = true;
      auto rest = [&](double h) {
        if (!ok) return;
        auto s = cyc.rest(h * 3600, 1, p.ndata, th);
        st.store(th);
        ok = s == Status::ReachedTimeLimit;
      };
      auto cc = [&](double C, double v, bool must) {
        if (!ok) return;
        auto s = cyc.CC(C * cap, v, TIME_INF, 1, p.ndata, th);
        st.store(th);
        if (must) ok = s == Status::ReachedVoltageLimit;
      };
      rest(4), cc(-1, vmax, false), rest(1), cc(1, vmin, false), rest(4), cc(-0.5, vmax, false), rest(4), cc(0.5, vmin, true), rest(5);
      if (!ok) break;
      done++;
    } catch (...) {
      break;
    }
  }
  mFinish(su, th.Ah(), 20, b, "useAge");
  return done;
}

// ---------------------------------------------------------------------------------------------- files against the book
std::string rowDiff(const Row &file, const Row &want)
{
  if (file.size() != want.size()) return "has " + std::to_string(file.size()) + " entries instead of " + std::to_string(want.size());
  for (size_t i = 0; i < want.size(); i++)
    if (!same6(file[i], want[i]) && !near(file[i], want[i], 1e-5, 1e-12)) return "entry " + std::to_string(i) + " is " + num6(file[i]) + " instead of " + num6(want[i]);
  return "";
}
using Files = std::map<std::string, std::vector<std::string>>;
Files slurp()
{
  Files f;
  for (auto &[n, p] : csvFiles()) f[n] = lines(p);
  return f;
}
std::vector<std::string> split(const std::string &l)
{
  std::vector<std::string> v;
  std::stringstream ss(l);
  for (std::string t; std::getline(ss, t, ',');) v.push_back(t);
  return v;
}
bool parse(const std::vector<std::string> &t, size_t from, Row &r)
{
  r.clear();
  for (size_t i = from; i < t.size(); i++) {
    char *e = nullptr;
    r.push_back(std::strtod(t[i].c_str(), &e));
    if (t[i].empty() || *e) return false;
  }
  return true;
}
const std::vector<std::string> *find(Case &c, const Files &f, const std::string &n)
{
  auto it = f.find(n);
  if (it == f.end()) c.fail("P24.missing", "no file " + n + " was written");
  return &it->second;
}
void checkFiles(Case &c, const Files &f, const std::string &id, const Book &b, bool thr = true)
{
  if (thr) { // throughput of every step
    const auto &ls = *find(c, f, id + "_throughput.csv");
    size_t k = 0;
    for (auto &l : ls) {
      if (l.rfind("ID", 0) == 0) continue;
      Row r;
      if (!numbers(l, r)) c.fail("P24.thr-format", "throughput file: cannot read '" + l + "'");
      if (k >= b.thr.size()) c.fail("P24.throughput", "throughput file has more than the " + std::to_string(b.thr.size()) + " steps that were taken");
      const auto d = rowDiff(r, b.thr[k]);
      if (!d.empty()) c.fail("P24.throughput", "step " + std::to_string(k) + " of the throughput file " + d);
      k++;
    }
    if (k != b.thr.size()) c.fail("P24.throughput", "throughput file has " + std::to_string(k) + " steps, " + std::to_string(b.thr.size()) + " were taken");
  }
  if (b.checkups > 0) {
    const auto &ls = *find(c, f, id + "_checkUp.csv");
    size_t k = 0, heads = 0;
    for (auto &l : ls) {
      auto t = split(l);
      if (l.rfind("ID,", 0) == 0) {
        heads++;
        if (t.size() != 12) c.fail("P24.checkup-header", "the header of the check-up names " + std::to_string(t.size()) + " columns, rows have 11 before the states");
        continue;
      }
      Row r;
      if (t.size() < 2 || !parse(t, 1, r)) c.fail("P24.checkup-format", "check-up file: cannot read '" + l.substr(0, 200) + "'");
      if (k >= b.cells.size()) c.fail("P24.checkup", "the check-up file has more than the " + std::to_string(b.cells.size()) + " rows expected");
      auto &w = b.cells[k];
      if (t[0] != w.id) c.fail("P24.checkup-id", "row " + std::to_string(k) + " of the check-up is for " + t[0] + " instead of " + w.id);
      auto d = rowDiff(r, w.v);
      if (!d.empty()) {
        static const char *nm[] = { "variation of the capacity", "variation of the resistance", "variation of SEI", "variation of LAM", "charge of the unit", "cycle number", "time", "cell charge", "cell energy", "capacity" };
        size_t i = 0;
        while (i < std::min(r.size(), w.v.size()) && (same6(r[i], w.v[i]) || near(r[i], w.v[i], 1e-5, 1e-12))) i++;
        c.fail("P24.checkup", "row " + std::to_string(k) + " of the check-up (" + w.id + ") " + d + (i < 10 ? std::string(" (") + nm[i] + ")" : ""));
      }
      k++;
    }
    if (k != b.cells.size()) c.fail("P24.checkup", "the check-up file has " + std::to_string(k) + " rows instead of " + std::to_string(b.cells.size()));
    if (heads < 1) c.fail("P24.checkup-header", "the check-up file has no header");
  }
  if (b.hasMods) {
    const auto &ls = *find(c, f, id + "_checkModules_overall.csv");
    if (ls.size() != b.mods.size() + 1) c.fail("P24.modules", "overview of the modules has " + std::to_string(ls.size()) + " lines for " + std::to_string(b.mods.size()) + " modules");
    for (size_t i = 0; i < b.mods.size(); i++) {
      auto t = split(ls[i + 1]);
      Row r;
      if (t.size() < 2 || !parse(t, 1, r)) c.fail("P24.modules", "overview of the modules: cannot read '" + ls[i + 1] + "'");
      if (t[0] != b.mods[i].first) c.fail("P24.modules", "row " + std::to_string(i) + " of the modules is for " + t[0] + " instead of " + b.mods[i].first);
      auto d = rowDiff(r, b.mods[i].second);
      if (!d.empty()) c.fail("P24.modules", "row of module " + t[0] + " " + d);
    }
    if (COOLV == 1) {
      std::vector<std::string> want, got;
      for (auto &h : b.hists) {
        std::stringstream ss(h);
        for (std::string l; std::getline(ss, l);) {
          while (!l.empty() && (l.back() == '\r' || l.back() == ' ')) l.pop_back();
          if (!l.empty()) want.push_back(l);
        }
      }
      for (auto &l : *find(c, f, id + "_checkModules_histograms.csv"))
        if (l.find("histogram:") == std::string::npos && l.find("statistics:") == std::string::npos) got.push_back(l);
      if (got.size() != want.size()) c.fail("P24.module-hist", "histograms of the modules fill " + std::to_string(got.size()) + " lines instead of " + std::to_string(want.size()));
      for (size_t i = 0; i < got.size(); i++)
        if (got[i] != want[i]) c.fail("P24.module-hist", "line " + std::to_string(i) + " of the histograms of the modules is '" + got[i].substr(0, 150) + "' instead of '" + want[i].substr(0, 150) + "'");
    }
  }
  if (b.hasState) {
    Row r;
    for (auto &l : *find(c, f, id + "_state.csv")) {
      Row x;
      if (!numbers(l, x) || x.size() != 1) c.fail("P24.state", "state file: cannot read '" + l + "'");
      r.push_back(x[0]);
    }
    auto d = rowDiff(r, b.state);
    if (!d.empty()) c.fail("P24.state", "state file " + d);
  }
}
// sampled data of the cells, written by the procedure and by the twin
void checkSamples(Case &c, const Files &a, const Files &b, const std::string &pref)
{
  auto rows = [&](const Files &f, const std::string &n) {
    std::vector<std::string> v;
    auto it = f.find(n);
    if (it != f.end())
      for (auto &l : it->second)
        if (l.rfind("States", 0) != 0) v.push_back(l);
    return v;
  };
  for (auto *f : { &a, &b })
    for (auto &[n, x] : *f)
      if (n.rfind(pref + "_", 0) == 0 && n.find("_cellData") != std::string::npos) {
        auto p = rows(a, n), q = rows(b, n);
        if (p.size() != q.size()) c.fail("P24.samples", n + " has " + std::to_string(p.size()) + " samples, the protocol stores " + std::to_string(q.size()));
        for (size_t i = 0; i < p.size(); i++)
          if (p[i] != q[i]) c.fail("P24.samples", "sample " + std::to_string(i) + " of " + n + " is " + p[i] + " instead of " + q[i]);
      }
}
Unit unitFor(Case &c, bool small)
{
  UnitOpt o;
  const int kind = c.weighted({ 6, 6, small ? 0 : 1 });
  o.pack.spm = kind == 2, o.pack.ecm = o.pack.bucket = kind != 2;
  o.pack.rdeg = true, o.pack.stressModels = true;
  o.pack.maxDepth = kind == 1 && c.b(1, 4) ? 2 : 1, o.pack.maxChildren = 3;
  o.wCell = 3, o.wPack = 3, o.wBat = 2;
  if (kind == 2) o.wPack = o.wBat = c.b(1, 3), o.wCell = !o.wPack;
  return genUnit(c, o);
}
Unit twinOf(Unit &u)
{
  Unit t;
  t.node = cloneTree(*u.node, u.bat ? static_cast<StorageUnit *>(u.bat->getCells()) : u.top.get());
  t.bat = u.bat;
  t.rebind(Deep_ptr<StorageUnit>(u->copy()));
  return t;
}
void sameUnits(Case &c, Unit &u, Unit &t, const std::string &what)
{
  const auto d = diff(obs(*u.top.get()), obs(*t.top.get()));
  if (!d.empty()) c.fail("P24.protocol", "after " + what + " the unit differs from one taken through the protocol step by step: " + d);
}
} // namespace

PBT_SUB_SLOW("P24.cycle", COOLV == 1 ? 60 : 260, COOLV == 1 ? 1000 : 5000, "cycle ageing of a random cell, pack or battery with random C-rates, voltage window, CV phases, check-up and balancing intervals, data and unit-test settings; a copy is taken through the same protocol with a cycler by hand; non-trivial: at least one complete cycle")
{
  wipe();
  Unit u = unitFor(c, false);
  Par p;
  bool spm = false;
  for (auto *l : u.leaves()) spm |= l->spm;
  p.ncyc = (int)c.i(1, spm || (u.parallel() && u.leaves().size() > 2) ? 2 : 5);
  p.nchk = (int)c.pick({ 0, 1, 2, 3, 250 });
  if (p.nchk == 1 && p.ncyc > 3) p.nchk = 2;
  p.bal = c.b(1, 2), p.nbal = (int)c.pick({ 1, 2, 0, 10 });
  p.testCV = u.leaves().size() <= 2 && c.b(1, 2);
  p.cc = c.b(1, 3) ? 1 : c.rlog(0.4, 3), p.cd = c.b(1, 3) ? 1 : c.rlog(0.4, 3);
  const double lo = u->Vmin(), hi = u->Vmax();
  p.vmax = c.b(u.cell() ? 3 : 1, 6) ? hi : lo + (hi - lo) * c.r(0.75, c.b(1, 10) ? 1.02 : 0.99), p.vmin = c.b(u.cell() ? 3 : 1, 6) ? lo : lo + (hi - lo) * c.r(c.b(1, 10) ? -0.02 : 0, 0.4);
  p.vbal = c.b(1, 8) ? c.r(2, 4.5) : c.r(3.0, 4.0);
  p.ndata = (int)c.pick({ 0, 1, 7, 20 });
  p.ut = c.b(3, 4);
  c.desc << u.show() << "\n" << p.show() << "\n";
  Unit t = twinOf(u);
  const std::string id = u->getFullID();
  const bool again = c.b(1, 6); // the same procedure object runs a second time
  Procedure proc(p.bal, p.vbal, p.ndata, p.ut);
  Book b;
  Files written;
  int done = 0;
  std::string why;
  for (int round = 0; round <= (int)again; round++) {
    const int e1 = caughtInt([&] { proc.cycleAge(u.top.get(), p.ncyc, p.nchk, p.nbal, p.testCV, p.cc, p.cd, p.vmax, p.vmin); });
    auto files = slurp();
    for (auto &[n, l] : files) {
      if (n.find("_throughput") == std::string::npos && n.find("_checkUp.") == std::string::npos && n.find("_state.") == std::string::npos && n.find("_checkModules") == std::string::npos && n.find("cycleAge_") != 0) c.fail("P24.unexpected-file", "unexpected file " + n);
    }
    written = files;
    wipe();
    Book bb;
    if (round) bb = b, bb.cleared = false;
    const int e2 = caughtInt([&] { done += mCycleAge(t.top.get(), p, bb, &why); });
    auto twinFiles = slurp();
    if (e1 != e2) c.fail("P24.protocol", "the procedure threw " + std::to_string(e1) + ", the protocol step by step threw " + std::to_string(e2));
    if (e1 != -1) {
      c.label("threw");
      c.discard();
    }
    sameUnits(c, u, t, "cycle ageing");
    if (round == 0) {
      checkFiles(c, files, id, bb);
      checkSamples(c, files, twinFiles, "cycleAge");
    } else { // the files of the first round were wiped, so only what the second one wrote is there
      Book second = bb;
      second.cells.erase(second.cells.begin(), second.cells.begin() + (long)b.cells.size());
      if (!bb.cleared) second.thr.erase(second.thr.begin(), second.thr.begin() + (long)b.thr.size());
      second.checkups -= b.checkups;
      checkFiles(c, files, id, second);
    }
    b = bb;
  }
  c.step(), c.label(done ? "cycles" : "no-cycle-" + why);
  if (done) c.nontrivial();
  if (u.bat) c.label("battery");
  if (p.testCV && done) c.label("cv");
}

PBT_SUB_SLOW("P24.simple", COOLV == 1 ? 4 : 16, COOLV == 1 ? 40 : 240, "cycle ageing with standard settings: 15 cycles at 1C over the whole voltage window; against the same protocol by hand; non-trivial: all 15 cycles were done")
{
  wipe();
  Unit u = unitFor(c, true);
  Par p;
  p.ncyc = 15, p.nchk = 250, p.nbal = 10, p.testCV = u.cell() && c.b(1, 2), p.bal = c.b(1, 2), p.vbal = c.r(3.0, 4.0), p.vmax = u->Vmax(), p.vmin = u->Vmin(), p.ut = true;
  c.desc << u.show() << "\n" << p.show() << "\n";
  Unit t = twinOf(u);
  const std::string id = u->getFullID();
  Procedure proc(p.bal, p.vbal, p.ndata, p.ut);
  const int e1 = caughtInt([&] { proc.cycleAge(u.top.get(), p.testCV); });
  auto files = slurp();
  wipe();
  Book b;
  int done = 0;
  const int e2 = caughtInt([&] { done = mCycleAge(t.top.get(), p, b); });
  if (e1 != e2) c.fail("P24.protocol", "the procedure threw " + std::to_string(e1) + ", the protocol step by step threw " + std::to_string(e2));
  if (e1 != -1) c.discard();
  sameUnits(c, u, t, "cycle ageing");
  checkFiles(c, files, id, b);
  if (done == 15) c.nontrivial();
}

PBT_SUB("P24.usecase", COOLV == 1 ? 8 : 24, COOLV == 1 ? 100 : 500, "the daily use case on a random cell, pack or battery against the same protocol by hand; non-trivial: at least one complete day")
{
  wipe();
  UnitOpt o;
  o.pack.spm = false, o.pack.maxDepth = 1, o.pack.maxChildren = 2, o.pack.forceTop = 0;
  o.wCell = 4, o.wPack = 1, o.wBat = 1;
  Unit u = genUnit(c, o);
  Par p;
  p.bal = c.b(1, 2), p.vbal = c.r(3.0, 4.0), p.ndata = (int)c.pick({ 0, 0, 60 }), p.ut = c.b(3, 4);
  c.desc << u.show() << " " << p.show() << "\n";
  Unit t = twinOf(u);
  const std::string id = u->getFullID();
  Procedure proc(p.bal, p.vbal, p.ndata, p.ut);
  const int e1 = caughtInt([&] { proc.useCaseAge(u.top.get(), 0); });
  auto files = slurp();
  wipe();
  Book b;
  int done = 0;
  const int e2 = caughtInt([&] { done = mUseCase(t.top.get(), p, b); });
  auto twinFiles = slurp();
  if (e1 != e2) c.fail("P24.protocol", "the procedure threw " + std::to_string(e1) + ", the protocol step by step threw " + std::to_string(e2));
  if (e1 != -1) c.discard();
  sameUnits(c, u, t, "the use case");
  checkFiles(c, files, id, b);
  checkSamples(c, files, twinFiles, "useAge");
  if (done) c.nontrivial();
  c.label("days-" + std::to_string(done));
}

PBT_SUB("P24.balance", COOLV == 1 ? 100 : 1500, COOLV == 1 ? 2000 : 40000, "rebalancing of a random unit with blocked ageing, from random states, to voltages in and out of the window of the cells; non-trivial: some cell had to be moved by more than 20 mV")
{
  wipe();
  UnitOpt o;
  o.pack.maxDepth = 2, o.pack.maxChildren = 3, o.pack.dSOC = c.b(1, 2) ? 0.2 : 0.02, o.pack.rdeg = true;
  o.wBat = 2;
  Unit u = genUnit(c, o);
  const double vb = c.b(1, 8) ? c.r(2, 4.5) : c.r(3.2, 4.0);
  const bool inside = vb >= 2.7 && vb <= 4.2;
  c.desc << u.show() << " to " << num(vb) << " V\n";
  u->setBlockDegAndTherm(true);
  struct Before
  {
    double V, soc, time;
    Row s;
  };
  std::vector<Before> before;
  leavesOf(u.top.get(), [&](Cell *x) {
    auto s = states(*x);
    auto th = x->getThroughputs();
    before.push_back({ x->V(), x->SOC(), (double)th.time(), s });
  });
  Procedure proc(true, vb, 0, true);
  Status st{};
  const int e = caughtInt([&] { st = proc.rebalance(u.top.get()); });
  if (e != -1) c.fail("P24.balance-threw", "rebalance threw " + std::to_string(e));
  size_t i = 0;
  bool moved = false;
  leavesOf(u.top.get(), [&](Cell *x) {
    auto &w = before[i];
    if (inside) {
      if (std::fabs(w.V - vb) > 0.02) moved = true;
      if (isStatusSuccessful(st) || i == 0) {
        if (x->I() != 0) c.fail("P24.balance-current", "cell " + std::to_string(i) + " carries " + num(x->I()) + " A after rebalancing");
        if (!(std::fabs(x->V() - vb) < 8e-3)) c.fail("P24.balance", "cell " + std::to_string(i) + " is at " + num(x->V()) + " V after rebalancing to " + num(vb) + " V, it was at " + num(w.V) + " V");
      }
    } else if (x->SOC() != w.soc)
      c.fail("P24.balance-outside", "a voltage of " + num(vb) + " V is outside the window of the cells, yet the state of charge went from " + num(w.soc) + " to " + num(x->SOC()));
    i++;
  });
  if (inside && !isStatusSuccessful(st)) c.fail("P24.balance-status", std::string("rebalancing to ") + num(vb) + " V returned " + sname(st));
  c.step();
  if (moved) c.nontrivial();
  c.label(inside ? "inside" : "outside");
}

PBT_SUB("P24.checkup", COOLV == 1 ? 80 : 160, COOLV == 1 ? 1000 : 4000, "check-ups and module overviews of a random unit at random points of a random history; rows and numbers of the files against what the unit shows; non-trivial: the unit was in use before and has moved between the check-ups")
{
  wipe();
  Unit u = unitFor(c, false);
  Unit t = twinOf(u);
  const std::string id = u->getFullID();
  c.desc << u.show() << "\n";
  Procedure proc(c.b(1, 2), 3.65, 0, c.b(3, 4));
  Book b;
  const int n = (int)c.i(2, 8);
  int ups = 0;
  bool used = false, usedAfter = false;
  OpW w;
  for (int k = 0; k < n; k++) {
    const int what = k == n - 1 ? 1 : c.weighted({ 4, ups < 2 ? 1 : 0, 1 });
    if (what == 0) {
      Op op = genOp(c, u, w);
      if (op.kind == 1) op.x = 2, op.n = std::min(op.n * 20, 400);
      c.desc << op.show() << " ";
      const double r1 = apply(u, op);
      const double r2 = apply(t, op);
      if (r1 != r2 && !(std::isnan(r1) && std::isnan(r2))) c.discard(); // judged by the copy check
      if (threw(r1)) c.discard();
      used = true;
      if (ups) usedAfter = true;
    } else if (what == 1) {
      const double Ah = c.b(1, 3) ? 0 : c.r(0, 1000);
      const int nr = (int)c.i(0, 5000);
      c.desc << "checkUp(" << Ah << "," << nr << ") ";
      const int e1 = caughtInt([&] { proc.checkUp(u.top.get(), Ah, nr); });
      const int e2 = caughtInt([&] { mPrep(t.top.get()), mCells(t.top.get(), Ah, nr, b), b.checkups++; });
      if (e1 != e2) c.fail("P24.protocol", "the check-up threw " + std::to_string(e1) + ", its preparation and measurements threw " + std::to_string(e2));
      if (e1 != -1) c.discard();
      ups++;
    } else {
      c.desc << "checkMod ";
      if (int e = caughtInt([&] { proc.checkMod(u.top.get()); }); e != -1) c.fail("P24.mod-threw", "checkMod threw " + std::to_string(e));
      mMods(t.top.get(), b);
      checkFiles(c, slurp(), id, b, false);
    }
    sameUnits(c, u, t, "the check-up");
  }
  checkFiles(c, slurp(), id, b, false);
  if (used && (ups == 1 || usedAfter)) c.nontrivial();
  c.label("checkups-" + std::to_string(ups));
}

int main(int a, char **b) { return pbt::pbtMain(a, b); }
