// C06: histories of requests against a sequential model of the waypoint list.
#include "dyn.hpp"
using namespace dyn;

namespace {
struct Item {
  std::string name;
  Vector3d pos;
  std::map<int, Vector3d> con;  // constraints on derivatives
  double T = -1;                // in the plan in force, once it is part of one
  bool may = false;             // may have been dropped by a plan
  bool never = false;           // has been passed or dropped: must not come back
  std::vector<Vector3d> old;    // positions since the last settling: passed ones may stay in the list where they were
};
const char* kStitch = "stitching_point";
std::map<int, Vector3d> constraints(const DynamicWaypoint& w) {
  std::map<int, Vector3d> m;
  Eigen::VectorXd x;
  for (int d = 1; d < 5; ++d) if (w.getVertex().getConstraint(d, &x)) m[d] = x;
  return m;
}

struct Sim {
  pbt::Ctx& c;
  DynamicTrajectory* g = nullptr;
  std::vector<Item> L;
  DynamicWaypoint::Deque d;     // as last reported
  bool have = false, requested = false;  // requested: a new plan has been asked for since the last take-over or settling
  double E_lo = 0, off = 0, tc = 0, speed = 0;
  double advance = 0;           // the generator may know a later time than t by this much
  float t = 0;
  bool evaluated = false;
  int next_name = 0, takeovers = 0, stitched = 0, moves = 0;  // moves: since the last settling
  bool bells = false, set_pending = false;
  bool in_place = false;        // moved without a plan since one was last asked for
  std::vector<Vector3d> vehicles;  // positions told since the plan may have started
  Vector3d veh;
  Sim(pbt::Ctx& c_) : c(c_) {}
  double E() const { return (double)t + off; }

  void request() {
    in_place = false;
    if (!requested) { requested = true; E_lo = E(); vehicles.assign(1, veh); }
  }
  bool same(const Item& i, const DynamicWaypoint& w) const {
    if (i.name != w.getName() || i.con != constraints(w)) return false;
    if (w.getTime() <= E()) for (auto& o : i.old) if ((o - w.getCurrentPosition()).norm() < 1e-9) return true;
    return (i.pos - w.getCurrentPosition()).norm() < 1e-9;
  }
  static std::string show_con(const std::map<int, Vector3d>& m) {
    std::string s;
    for (auto& x : m) s += PBT_S((x.first == 1 ? "v" : "a") << v3(x.second));
    return s;
  }
  std::string show_model() const {
    std::string s;
    for (auto& i : L) s += PBT_S(" '" << i.name << "'" << v3(i.pos) << show_con(i.con) << (i.never ? "(gone)" : i.may ? "(may be gone)" : "") << "@" << i.T);
    return s;
  }
  // Looks at the reported list; notices a take-over.
  void observe(bool before_eval_E = true) {
    DynamicWaypoint::Deque n = g->getDynamicWaypoints();
    bool fresh = !have || n.size() != d.size();
    for (size_t i = 0; !fresh && i < n.size(); ++i) fresh = n[i].getTime() != d[i].getTime() || n[i].getName() != d[i].getName();
    if (fresh) takeover(n);
    d = n;
    have = true;
  }
  void takeover(const DynamicWaypoint::Deque& n) {
    ++takeovers;
    c.check(!n.empty(), "empty", "a plan without waypoints was put in force");
    bool stitch = n[0].getName() == kStitch;
    if (stitch) {
      ++stitched;
      c.check(n.size() >= 2 && n[1].getName() == kStitch, "splice", PBT_S("a plan begins with one splice point only:" << dyn::show(n)));
    } else {
      bool ok = n[0].getName().empty();
      double best = 1e300;
      for (auto& v : vehicles) best = std::min(best, (n[0].getCurrentPosition() - v).norm());
      if (!ok || !(best < 1e-9)) c.fail("vehicle", PBT_S("the plan does not begin at a vehicle position known since it was asked for:" << dyn::show(n)));
    }
    for (size_t i = stitch ? 2 : 1; i < n.size(); ++i)
      if (n[i].getName() == kStitch) c.fail("splice", PBT_S("splice point in the middle of a plan:" << dyn::show(n)));
    // Is it known that all requests made so far are part of this plan?
    bool all = !g->getGenerateNewTraj() && !g->getComputingNewTrajectoryStatus();
    if (all) set_pending = false;
    double hi = E() + advance + (stitch ? 10 * tc + 1e-6 : 0);
    for (auto& i : L) {
      if (i.T < 0) continue;
      if (i.T <= E_lo) i.never = true;
      else if (i.T <= hi) i.may = true;
    }
    // Times in the new plan.
    for (size_t k = 0; k < L.size(); ++k) {
      Item& i = L[k];
      auto key = [&](const std::string& name, const Vector3d& p) { return i.name.empty() ? name.empty() && (p - i.pos).norm() < 1e-9 : name == i.name; };
      int in_model = 0, in_plan = 0, index = 0;
      for (size_t o = 0; o < L.size(); ++o) if (key(L[o].name, L[o].pos)) { if (o < k) ++index; ++in_model; }
      const DynamicWaypoint* w = nullptr;
      for (size_t q = stitch ? 2 : 1; q < n.size(); ++q) if (key(n[q].getName(), n[q].getCurrentPosition())) { if (in_plan++ == index) w = &n[q]; }
      if (set_pending && in_plan > 0) { if (!i.never) i.may = true; continue; }
      if (in_plan == 0) { if (i.T >= 0 && i.may) i.never = true; continue; }
      if (in_model == in_plan) {
        if (i.never) continue;  // reported at the next settling
        i.T = w->getTime();
        i.may = false;
      } else if (!i.never) { i.may = true; c.label("equal waypoints, some of them passed"); }  // which ones is not told
    }
    off = g->getTimeCompensation();
    requested = g->getGenerateNewTraj();
    E_lo = E();
    if (requested) vehicles.assign(1, veh);
    bells = moves > 0;
  }
  void check_remaining() {
    int n = 0;
    bool leading = true;
    std::string s;
    std::vector<const DynamicWaypoint*> ahead;
    for (auto& w : d) if (w.getTime() > E()) {
      ahead.push_back(&w);
      if (leading && w.getName() == kStitch) continue;
      leading = false;
      ++n;
    }
    auto got = g->getNextTrajectoryWaypoints();
    int rem = g->getRemainingWaypoints();
    bool ok = got.size() == ahead.size();
    for (size_t i = 0; ok && i < got.size(); ++i) ok = got[i].getName() == ahead[i]->getName() && got[i].getTime() == ahead[i]->getTime();
    if (!ok) {
      for (auto& w : got) s += PBT_S(" '" << w.getName() << "'@" << w.getTime());
      c.fail("next", PBT_S("waypoints still ahead at trajectory time " << E() << " of" << dyn::show(d) << ":" << s));
    }
    if (rem != n) c.fail("remaining", PBT_S("getRemainingWaypoints() = " << rem << " instead of " << n << " at trajectory time " << E() << " of" << dyn::show(d)));
  }
  void evaluate(float to, bool plot) {
    observe();
    References r;
    g->evaluateTrajectory(to, r, c.s.chance(1, 2), plot);
    // The evaluation may have put a new plan in force, which was made before or after the time advanced.
    if (!plot) advance = std::max(0.0, (double)to - t);
    observe();
    advance = 0;
    if (!plot) { t = to; evaluated = true; }
  }
  bool pending() const { return g->getGenerateNewTraj() || g->getComputingNewTrajectoryStatus(); }
  void settle() {
    if (!have && L.empty()) { ds::sleep(0.1); return; }
    observe();
    double step = 0;
    for (int i = 0;; ++i) {
      ds::sleep(0.05);
      evaluate(t, c.s.chance(1, 2));
      if (!pending()) {
        ds::sleep(0.1);
        observe();
        if (!pending()) break;
      }
      if (i > 20) { step = std::max(0.05, tc); evaluate((float)(t + step), false); c.label("waited for a waypoint to be passed"); }
      double end = g->getMaxTime();
      if (i > 40 && t > end + 5 + 20 * tc) c.fail("stuck", PBT_S("a request is still pending at " << t << ", long after the end of the trajectory at " << end << ":" << show_model()));
    }
    compare();
  }
  void compare() {
    // A plan just like the one before is not told from it.
    if (requested) for (auto& i : L) if (i.T >= 0 && i.T <= E() + 10 * tc + 1e-6) { i.may = true; c.label("a plan equal to the one before"); }
    size_t s = d.empty() ? 0 : d[0].getName() == kStitch ? 2 : 1, n = d.size() - s, m = L.size();
    for (size_t i = 0; i < m; ++i) for (size_t k = 0; k < i; ++k)
      if (L[i].name == L[k].name && (L[i].pos - L[k].pos).norm() < 1e-9 && (L[i].may || L[k].may || L[i].never != L[k].never)) { L[i].may = L[k].may = true; L[i].never = L[k].never = false; }
    // ok[i][j]: the first i of the model can be the first j of the plan.
    std::vector<std::vector<int>> ok(m + 1, std::vector<int>(n + 1));
    ok[0][0] = 1;
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j <= n; ++j) if (ok[i][j]) {
      if (L[i].may || L[i].never) ok[i + 1][j] = 1;
      if (j < n && !L[i].never && same(L[i], d[s + j])) ok[i + 1][j + 1] = 1;
    }
    if (!ok[m][n]) {
      // In force may still be passed waypoints: they leave the list with the next plan only.
      std::string con;
      for (auto& w : d) con += " " + show_con(constraints(w));
      c.fail("list", PBT_S("after the requests the plan is" << dyn::show(d) << con << ", the model" << show_model() << " (evaluated " << t << " offset " << off << ")"));
    }
    std::vector<Item> keep;
    for (size_t i = m, j = n; i-- > 0;) {
      if (j > 0 && ok[i][j - 1] && !L[i].never && same(L[i], d[s + j - 1])) {
        --j;
        L[i].T = d[s + j].getTime();
        L[i].pos = d[s + j].getCurrentPosition();
        L[i].may = false;
        L[i].old.clear();
        keep.insert(keep.begin(), L[i]);
      } else if (ok[i][j]) continue;
    }
    L = keep;
    requested = set_pending = false;
    check_remaining();
    int ahead = 0;
    for (auto& i : L) if (i.T > E()) ++ahead;
    c.check(g->getRemainingWaypoints() == ahead, "remaining-count", PBT_S("getRemainingWaypoints() = " << g->getRemainingWaypoints() << ", still ahead are " << ahead << " of" << show_model()));
    double prev = -1e300;
    for (auto& w : d) { if (!(w.getTime() > prev)) c.fail("times", PBT_S("times are not increasing:" << dyn::show(d))); prev = w.getTime(); }
    // The moves that asked for a plan got one.
    if (!in_place) for (auto& w : d) if (w.getTime() > E()) c.check(!w.hasModifiers(), "unplanned", PBT_S("'" << w.getName() << "' at " << w.getTime() << " was moved with a new plan asked for, which was not made:" << dyn::show(d)));
    // The plan goes where it says.
    moves = 0;
    if (!bells) for (auto& i : L) if (i.T > E() && i.T - off > 0) {
      float f = (float)(i.T - off);
      References r = eval(*g, f);
      expect_near(c, r.position, i.pos, 1e-4 + 4 * (60 + 3 * speed + r.velocity.norm()) * ulpf(f), "at-waypoint", PBT_S("reference at the time of '" << i.name << "'"));
      auto v = i.con.find(1);
      if (v != i.con.end() && &i != &L.back()) {
        expect_near(c, r.velocity, v->second, 1e-3 + 8 * (60 + r.acceleration.norm()) * ulpf(f), "velocity-at-waypoint", PBT_S("velocity at the time of '" << i.name << "'"));
        c.label("velocity at a waypoint kept by the plan");
      }
    }
  }
  std::string fresh_name() {
    if (c.s.chance(1, 6)) return "";
    if (c.s.chance(1, 10) && !L.empty()) { c.label("name used twice"); return L[c.s.below(L.size())].name; }
    return "w" + std::to_string(next_name++);
  }
  Vector3d fresh_point() {
    if (c.s.chance(1, 10) && !L.empty()) return L[c.s.below(L.size())].pos;
    if (c.s.chance(1, 12)) return veh;
    return point(c, 15);
  }
  DynamicWaypoint fresh() {
    if (have && c.s.chance(1, 5)) {
      // One that the generator has reported, used again.
      size_t s = d[0].getName() == kStitch ? 2 : 1;
      if (s < d.size()) {
        DynamicWaypoint w = d[s + c.s.below(d.size() - s)];
        c.label("reported waypoint used again");
        if (c.s.chance(1, 2)) w.setName("w" + std::to_string(next_name++));
        return w;
      }
    }
    Vector3d p = fresh_point();
    DynamicWaypoint w = waypoint(fresh_name(), p);
    if (c.s.chance(1, 6)) w.setConstraint(1, point(c, speed / 2));
    if (c.s.chance(1, 20)) w.setConstraint(2, point(c, 1));
    return w;
  }
  void add(const DynamicWaypoint& w) {
    Item i;
    i.name = w.getName();
    i.pos = w.getCurrentPosition();
    i.con = constraints(w);
    L.push_back(i);
    c.desc << " '" << i.name << "'" << v3(i.pos) << show_con(i.con);
  }
  void move(const std::string& name, const Vector3d& p) {
    if (name.empty()) return;
    for (auto& i : L) if (i.name == name) {
      i.old.push_back(i.pos);
      i.pos = p;
    }
    ++moves;
    bells = true;
  }
  std::string some_name() {
    switch (c.s.below(10)) {
      case 0: return "nobody";
      case 1: return "";
      default: return L.empty() ? "w0" : L[c.s.below(L.size())].name;
    }
  }
};
}  // namespace

static void history(pbt::Ctx& c) {
  ds::Config cfg;
  double delay = c.s.logreal(0.005, 0.15), total = 0;
  cfg.seed = c.s.below(100);
  cfg.spawn_delay = [delay](int) { return delay; };
  int ns = c.s.chance(1, 2) ? c.s.below(6) : 0;
  for (int i = 0; i < ns; ++i) { double x = c.s.logreal(1e-3, 0.05); cfg.stalls.push_back({c.s.below(2000), x}); total += x; }
  Session s(c, cfg);
  Sim m(c);
  m.tc = delay + total + 1e-3;
  m.g = new DynamicTrajectory;
  DynamicTrajectory& g = *m.g;
  m.speed = c.s.logreal(0.5, 10);
  g.setSpeed(m.speed);
  m.veh = point(c, 10);
  g.updateVehiclePosition(m.veh);
  c.desc << "delay " << delay << " speed " << m.speed << " vehicle " << v3(m.veh);
  int n = c.s.sized(2, 14, 40), requests = 0, late = 0;
  for (int op = 0; op < n; ++op) {
    bool any = m.have || !m.L.empty();
    if (any && m.pending() && m.have) late = 1;
    switch (c.s.below(12)) {
      case 0: {
        int k = c.s.sized(1, 4, 12);
        DynamicWaypoint::Vector w;
        for (int i = 0; i < k; ++i) w.push_back(m.fresh());
        m.request();
        m.L.clear();
        m.set_pending = true;
        c.desc << " set";
        for (auto& x : w) m.add(x);
        g.setWaypoints(w);
        ++requests;
        break;
      }
      case 1: case 2: case 3: {
        DynamicWaypoint w = m.fresh();
        m.request();
        c.desc << " append";
        m.add(w);
        g.appendWaypoint(w);
        ++requests;
        break;
      }
      case 4: case 5: {
        std::string name = m.some_name();
        Vector3d p = m.fresh_point();
        bool regen = c.s.chance(1, 2);
        c.desc << (regen ? " move+plan '" : " move '") << name << "' " << v3(p);
        if (regen) m.request();
        m.move(name, p);
        if (!regen) m.in_place = true;
        g.modifyWaypoint(name, p, regen);
        ++requests;
        break;
      }
      case 6: {
        std::vector<std::pair<std::string, Vector3d>> v;
        int k = c.s.irange(1, 3);
        c.desc << " move all";
        m.request();
        for (int i = 0; i < k; ++i) {
          std::string name = m.some_name();
          Vector3d p = m.fresh_point();
          v.push_back({name, p});
          m.move(name, p);
          c.desc << " '" << name << "'" << v3(p);
        }
        g.modifyWaypoints(v);
        ++requests;
        break;
      }
      case 7: {
        m.veh = point(c, 10);
        m.vehicles.push_back(m.veh);
        c.desc << " vehicle " << v3(m.veh);
        g.updateVehiclePosition(m.veh);
        break;
      }
      case 8: case 9: {
        if (!any) break;
        m.observe();
        double end = g.getMaxTime() - m.off;
        double by = c.s.chance(1, 3) ? c.s.unit() * std::max(0.0, end - m.t) : c.s.logreal(0.01, 3);
        if (c.s.chance(1, 12)) by = std::max(0.0, end - m.t) + c.s.real(0, 3);
        // In steps, as a caller does, or at once.
        int k = c.s.pick(std::vector<int>{1, 4, 20});
        bool real = c.s.chance(2, 3);
        float from = m.t;
        c.desc << " fly " << by << " in " << k << (real ? " real" : "") << " steps";
        for (int i = 1; i <= k; ++i) {
          if (real) ds::sleep(std::min(1.0, by / k));
          m.evaluate((float)(from + by * i / k), false);
        }
        m.check_remaining();
        break;
      }
      case 10: {
        double w = c.s.logreal(1e-3, 0.5);
        c.desc << " wait " << w;
        ds::sleep(w);
        if (m.have && c.s.chance(1, 2)) m.evaluate(m.t, c.s.chance(1, 2));
        break;
      }
      default:
        c.desc << " settle";
        m.settle();
    }
  }
  c.desc << " settle";
  m.settle();
  if (requests >= 2) c.nontrivial();
  if (m.stitched) c.label("planned in flight");
  if (m.stitched > 1) c.label("planned in flight several times");
  if (late) c.label("request while one was pending");
  if (m.takeovers > 2) c.label("several plans");
  delete m.g;
  s.end();
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"history", 1, history}}); }
