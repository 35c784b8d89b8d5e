// C03: velocity and acceleration references are the derivatives of the position reference.
#include "dyn.hpp"
using namespace dyn;

// Closed Newton-Cotes rule with 11 nodes (exact for polynomials up to degree 11).
static const double kNC[11] = {16067, 106300, -48525, 272400, -260550, 427368, -260550, 272400, -48525, 106300, 16067};
struct Move { double T, sigma, size; };

static void derivatives(pbt::Ctx& c) {
  ds::Config cfg;
  cfg.spawn_delay = [](int) { return 0.05; };
  Session s(c, cfg);
  PlanOpt po;
  po.min_gap = c.s.chance(1, 4) ? 0 : 0.3;
  Planned p = first_plan(c, po);
  std::vector<Move> moves;
  double total = 0;
  if (c.s.chance(1, 2)) {
    // Fly a part, then move waypoints that lie ahead without replanning.
    double tn = c.s.chance(1, 4) ? 0 : (p.tmin + (p.tmax - p.tmin) * 0.8 * c.s.unit());
    double te = 0;
    if (tn > 0) { eval(*p.g, (float)tn, false, false); te = (float)tn; }
    std::map<std::string, double> last;
    int k = c.s.irange(1, 3);
    for (int i = 0; i < k; ++i) {
      std::vector<int> ahead;
      for (size_t j = 1; j < p.d.size(); ++j) if (p.d[j].getName() != "" && p.d[j].getTime() > te + 0.2) ahead.push_back((int)j);
      if (ahead.empty()) break;
      int j = ahead[c.s.below(ahead.size())];
      Vector3d np = p.d[j].getCurrentPosition() + point(c, 3);
      c.desc << " move " << p.d[j].getName() << " to " << v3(np) << " at " << te;
      Vector3d disp = np - p.d[j].getCurrentPosition();
      double sg = te > 0 ? (p.d[j].getTime() - te) / 3 : 0;
      if (te <= 0) { double& l = last.emplace(p.d[j].getName(), 1.5).first->second; l *= 0.75; sg = l; }
      p.g->modifyWaypoint(p.d[j].getName(), np, false);
      ds::sleep(0.05);
      p.d = p.g->getDynamicWaypoints();
      expect_near(c, p.d[j].getCurrentPosition(), np, 1e-12, "moved", "reported position after the move");
      moves.push_back({p.d[j].getTime(), sg, disp.norm()});
      total += disp.norm();
    }
    c.label(moves.empty() ? "plain" : "moved");
  }
  // Edges between which everything is smooth, in trajectory time.
  std::vector<double> edges, soft;
  for (auto& w : p.d) edges.push_back(w.getTime());
  for (auto& m : moves) { edges.push_back(m.T - 3.5 * m.sigma); edges.push_back(m.T + 3.5 * m.sigma); }
  if (!moves.empty()) edges.push_back(0);  // displacements apply to positive times only
  edges.push_back(p.tmin);
  edges.push_back(p.tmax);
  std::sort(edges.begin(), edges.end());
  auto at = [&](double t) { return eval(*p.g, (float)t); };  // t exactly a float
  double sig = 1e9, mr = 0;
  for (auto& m : moves) { sig = std::min(sig, m.sigma); mr = std::max(mr, m.size / m.sigma); }
  int tried = 0, across = 0;
  for (int i = 0; i < 12; ++i) {
    // A step that is a power of two, so that all nodes are floats.
    double h = std::ldexp(1.0, -c.s.irange(6, 9));
    if (p.tmax > 60) h = std::max(h, std::ldexp(1.0, -8));
    if (p.tmax > 500) h = std::max(h, std::ldexp(1.0, -6));
    double a = p.tmin + (p.tmax - p.tmin) * c.s.unit() - p.off;
    a = std::round(a / h) * h;
    double b = a + 10 * h;
    double A = a + p.off, B = b + p.off;
    if (A < p.tmin + 1e-6 || B > p.tmax - 1e-6) continue;
    bool crosses = false, cross_bell = false;
    for (double e : edges) if (e > A - 1e-4 && e < B + 1e-4) crosses = true;
    for (auto& m : moves) for (double e : {m.T - 3.5 * m.sigma, m.T + 3.5 * m.sigma, 0.0}) if (e > A - 1e-4 && e < B + 1e-4) cross_bell = true;
    if (crosses && cross_bell) continue;
    References r[11];
    for (int k = 0; k <= 10; ++k) r[k] = at(a + k * h);
    Vector3d iv = Vector3d::Zero(), ia = iv;
    double mv = 0, ma = 0, mp = 0;
    for (int k = 0; k <= 10; ++k) {
      iv += r[k].velocity * kNC[k];
      ia += r[k].acceleration * kNC[k];
      mp = std::max(mp, r[k].position.norm());
      mv = std::max(mv, r[k].velocity.norm());
      ma = std::max(ma, r[k].acceleration.norm());
    }
    iv *= 5 * h / 299376;
    ia *= 5 * h / 299376;
    ++tried;
    if (crosses) {
      // Across a vertex the pieces join smoothly; the quadrature is only approximate there.
      ++across;
      Vector3d tv = Vector3d::Zero(), ta = tv;
      for (int k = 0; k < 10; ++k) { tv += (r[k].velocity + r[k + 1].velocity) * h / 2; ta += (r[k].acceleration + r[k + 1].acceleration) * h / 2; }
      double ja = 0;  // largest change between neighbours bounds the error of the trapezoidal rule
      double jv = 0;
      for (int k = 0; k < 10; ++k) { jv = std::max(jv, (r[k + 1].velocity - r[k].velocity).norm()); ja = std::max(ja, (r[k + 1].acceleration - r[k].acceleration).norm()); }
      expect_near(c, r[10].position - r[0].position, tv, 10 * h * jv + 1e-6 * (1 + mp), "across-velocity", PBT_S("displacement over [" << A << "," << B << "] against the integral of the velocity reference"));
      expect_near(c, r[10].velocity - r[0].velocity, ta, 10 * h * ja + 1e-5 * (1 + mv), "across-acceleration", PBT_S("velocity change over [" << A << "," << B << "] against the integral of the acceleration reference"));
      continue;
    }
    // Smooth: exact for the polynomials; the bells are resolved when the interval is short against their width.
    double q = moves.empty() ? 0 : std::pow(10 * h / sig, 8);
    expect_near(c, r[10].position - r[0].position, iv, 1e-7 * (1 + mp + mv) + 1e-3 * std::min(1.0, q) * total, "velocity", PBT_S("displacement over [" << A << "," << B << "] against the integral of the velocity reference"));
    expect_near(c, r[10].velocity - r[0].velocity, ia, 1e-6 * (1 + mv + ma) + 1e-3 * std::min(1.0, q) * mr, "acceleration", PBT_S("velocity change over [" << A << "," << B << "] against the integral of the acceleration reference"));
  }
  // Jumps at the waypoints: neighbouring floats on both sides of the waypoint's time.
  for (size_t i = 1; i + 1 < p.d.size(); ++i) {
    bool bell_edge = false;
    double T = p.d[i].getTime();
    for (auto& m : moves) for (double e : {m.T - 3.5 * m.sigma, m.T + 3.5 * m.sigma}) if (std::fabs(e - T) < 1e-3) bell_edge = true;
    if (bell_edge) continue;
    float t = (float)(T - p.off);
    float l = std::nextafterf(t, -1e9f), u = std::nextafterf(t, 1e9f);
    for (int k = 0; k < 3; ++k) { l = std::nextafterf(l, -1e9f); u = std::nextafterf(u, 1e9f); }
    References x = at(l), y = at(u), x2 = at(2 * l - u), y2 = at(2 * u - l);
    double w = (double)u - l;
    // Slopes on either side bound what a continuous function may change in between.
    auto jump = [&](const Vector3d& a0, const Vector3d& a1, const Vector3d& b0, const Vector3d& b1, double tol, const char* tag, const char* what) {
      double slope = ((a1 - a0).norm() + (b1 - b0).norm());
      double e = (b0 - a1).norm();
      c.metric(std::string("margin:") + tag, e / (3 * slope + tol));
      if (!(e <= 3 * slope + tol)) c.fail(tag, PBT_S("the " << what << " jumps from " << v3(a1) << " to " << v3(b0) << " within " << w << " s at waypoint " << i));
    };
    double big = 1 + p.pos[0].norm();
    jump(x2.position, x.position, y.position, y2.position, 1e-6 * big, "jump-position", "position");
    jump(x2.velocity, x.velocity, y.velocity, y2.velocity, 1e-5 * (1 + x.velocity.norm()), "jump-velocity", "velocity");
    jump(x2.acceleration, x.acceleration, y.acceleration, y2.acceleration, 1e-3 * (1 + x.acceleration.norm()), "jump-acceleration", "acceleration");
  }
  if (tried >= 4) c.nontrivial();
  if (across) c.label("across a waypoint");
  delete p.g;
  s.end();
}

// At the edges of a move's window the reference jumps by less than 0.3 % of the displacement.
static void edges(pbt::Ctx& c) {
  ds::Config cfg;
  cfg.spawn_delay = [](int) { return 0.05; };
  Session s(c, cfg);
  PlanOpt po;
  po.min_gap = 1;
  po.vel = false;
  po.unnamed = false;
  Planned p = first_plan(c, po);
  double te = p.tmin + (p.tmax - p.tmin) * 0.5 * c.s.unit();
  eval(*p.g, (float)te, false, false);
  size_t j = 1 + c.s.below(p.d.size() - 1);
  if (p.d[j].getTime() < te + 0.3) { delete p.g; s.end(); throw pbt::Discard{}; }
  Vector3d np = p.d[j].getCurrentPosition() + point(c, 3);
  double size = (np - p.d[j].getCurrentPosition()).norm();
  p.g->modifyWaypoint(p.d[j].getName(), np, false);
  ds::sleep(0.05);
  c.desc << " move " << p.d[j].getName() << " to " << v3(np) << " at " << te;
  double dt = std::ldexp(1.0, -8);
  double a = std::ceil(-p.off / dt + 0.5) * dt;  // displacements apply to positive times
  double b = p.tmax - p.off + 1;
  if ((b - a) / dt > 12000) { dt *= 8; }
  References prev = eval(*p.g, (float)a);
  for (double t = a + dt; t <= b; t += dt) {
    References r = eval(*p.g, (float)t);
    // Step predicted by the trapezoidal rule; the rest is a jump.
    Vector3d step = r.position - prev.position - (r.velocity + prev.velocity) * dt / 2;
    double curv = (r.velocity - prev.velocity).norm() * dt + (r.acceleration - prev.acceleration).norm() * dt * dt;
    double lim = 0.003 * size + curv + 1e-6 * (1 + r.position.norm());
    c.metric("margin:edge-jump", step.norm() / lim);
    if (!(step.norm() <= lim)) c.fail("edge-jump", PBT_S("the position jumps by " << step.norm() << " at " << t + p.off << " after a move by " << size));
    prev = r;
  }
  if (size > 0.1) c.nontrivial();
  delete p.g;
  s.end();
}

int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"derivatives", 4, derivatives}, {"edges", 1, edges}}); }
