// C15: the nonlinear optimiser.  Objectives, limits and constraints are recomputed independently; the calls to nlopt
// are observed (nlopt_set_min_objective is interposed) to know the best value the search evaluated.
#include <dlfcn.h>
#include <mav_trajectory_generation/polynomial_optimization_nonlinear.h>

#include "mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h"
#include "opt.hpp"
using namespace opt;

namespace {
struct Watch {
  nlopt_func f = nullptr;
  std::vector<double> values;
  double low = std::numeric_limits<double>::infinity();
  double reported = std::numeric_limits<double>::infinity();  // by nlopt, as the best
  nlopt_result result = NLOPT_SUCCESS;
} watch;
double watched(unsigned n, const double* x, double* grad, void* d) {
  double v = watch.f(n, x, grad, d);
  watch.values.push_back(v);
  watch.low = std::min(watch.low, v);
  return v;
}
}  // namespace
extern "C" nlopt_result nlopt_set_min_objective(nlopt_opt o, nlopt_func f, void* d) {
  static auto real = (nlopt_result(*)(nlopt_opt, nlopt_func, void*))dlsym(RTLD_NEXT, "nlopt_set_min_objective");
  if (!real) pbt::die("harness", "nlopt_set_min_objective is not there");
  if (!f) return real(o, f, d);
  watch.f = f;
  return real(o, watched, d);
}
extern "C" nlopt_result nlopt_optimize(nlopt_opt o, double* x, double* value) {
  static auto real = (nlopt_result(*)(nlopt_opt, double*, double*))dlsym(RTLD_NEXT, "nlopt_optimize");
  if (!real) pbt::die("harness", "nlopt_optimize is not there");
  nlopt_result r = real(o, x, value);
  if (!watch.values.empty()) watch.reported = *value;
  watch.result = r;
  return r;
}

typedef mtg::NonlinearOptimizationParameters Par;
static const char* kMethod[] = {"SquaredTime", "RichterTime", "MellingerOuterLoop", "SquaredTimeAndConstraints", "RichterTimeAndConstraints"};

struct Limit { int order; double value; };
struct Setup {
  Problem p;
  Par par;
  std::vector<Limit> lim;
  bool free_too() const { return par.time_alloc_method == Par::kSquaredTimeAndConstraints || par.time_alloc_method == Par::kRichterTimeAndConstraints; }
  bool mellinger() const { return par.time_alloc_method == Par::kMellingerOuterLoop; }
  bool linear_time() const { return par.time_alloc_method == Par::kRichterTime || par.time_alloc_method == Par::kRichterTimeAndConstraints; }
};
// Largest norm of derivative d over the trajectory (sampled, the best places refined).
static ld max_norm(const mtg::Segment::Vector& segs, int d) {
  ld best = 0;
  for (auto& g : segs) {
    std::vector<VectorXd> q;
    for (int k = 0; k < g.D(); ++k) q.push_back(gen::cf(g[k]));
    ld T = g.getTime();
    auto f = [&](ld t) { ld s = 0; for (auto& x : q) { ld v = gen::peval(x, t, d); s += v * v; } return sqrtl(s); };
    const int n = 160;
    std::vector<ld> y(n + 1);
    ld top = 0;
    for (int i = 0; i <= n; ++i) top = std::max(top, y[i] = f(T * i / n));
    for (int i = 0; i <= n; ++i) if (y[i] > 0.97L * top && (i == 0 || y[i] >= y[i - 1]) && (i == n || y[i] >= y[i + 1])) {
      ld lo = T * std::max(0, i - 1) / n, hi = T * std::min(n, i + 1) / n;
      for (int k = 0; k < 50; ++k) {
        ld a = lo + (hi - lo) * 0.382L, b = lo + (hi - lo) * 0.618L;
        if (f(a) > f(b)) hi = b; else lo = a;
      }
      top = std::max(top, f((lo + hi) / 2));
    }
    best = std::max(best, top);
  }
  return best;
}
struct Cost { double traj = 0, time = 0, soft = 0, soft_tol = 0, floor = 0; double sum() const { return traj + time + soft; } };
static double total(const std::vector<double>& t) { double s = 0; for (double x : t) s += x; return s; }
static Cost cost(const Setup& s, const mtg::Segment::Vector& segs, bool squared, double cap) {
  Cost r;
  ld a;
  r.traj = (double)integral(segs, s.p.k, &a);
  r.floor = cost_floor(segs, s.p.k, acc(s.p.N)) + 1e-11 * (double)a;
  double T = 0;
  for (auto& g : segs) T += g.getTime();
  r.time = s.par.time_penalty * T * (squared ? T : 1);
  for (auto& l : s.lim) {
    ld m = max_norm(segs, l.order);
    ld rel = 3e-6L;
    for (auto& g : segs) for (int d = 0; d < g.D(); ++d) rel += 1e-12L * magnitude(g, d) * gen::ff(s.p.N - 1, l.order) / powl(g.getTime(), l.order) / (m + 1e-300L);
    auto e = [&](ld f) { return std::min((ld)cap, expl((m * f - l.value) / l.value * s.par.soft_constraint_weight)); };
    r.soft += (double)e(1);
    r.soft_tol += (double)std::max(e(1 + rel) - e(1), e(1) - e(1 - rel)) + 1e-9 * (double)e(1);
  }
  return r;
}
template <int N>
static mtg::Segment::Vector linear(const Problem& p, const std::vector<double>& t) {
  mtg::PolynomialOptimization<N> o(p.D);
  mtg::Segment::Vector segs;
  if (!o.setupFromVertices(p.v, t, p.k) || !o.solveLinear()) throw pbt::Discard{};
  o.getSegments(&segs);
  for (auto& g : segs) for (int d = 0; d < g.D(); ++d) for (int i = 0; i < N; ++i) if (!std::isfinite(gen::cf(g[d])[i])) throw pbt::Discard{};
  return segs;
}

template <int N>
static Setup setup(pbt::Ctx& c, int method) {
  Setup s;
  Problem& p = s.p;
  p.N = N;
  p.K = c.s.irange(1, 4);
  p.D = c.s.irange(1, 3);
  p.k = c.s.chance(1, 2) ? 2 : c.s.irange(1, N / 2 - 1);
  double size = c.s.pick(std::vector<double>{1, 5, 30});
  int kind = (int)c.s.below(4);  // 0, 1: rest to rest, 2: some inner derivatives fixed, 3: moving at the ends
  if (method == Par::kMellingerOuterLoop && kind == 3) kind = 0;
  for (int i = 0; i < p.K; ++i) p.t.push_back(c.s.logreal(0.15, 8));
  p.con.resize(p.K + 1);
  for (int i = 0; i <= p.K; ++i) {
    VectorXd x(p.D);
    for (int d = 0; d < p.D; ++d) x[d] = c.s.real(-1, 1) * size;
    p.con[i][0] = x;
    bool end = i == 0 || i == p.K;
    double T = p.t[std::min(i, p.K - 1)];
    for (int d = 1; d < N / 2; ++d) {
      bool fix = end ? (kind == 3 ? c.s.chance(3, 4) : d <= std::max(2, p.k) || c.s.chance(1, 3)) : kind >= 2 && c.s.chance(1, 4);
      if (!fix) continue;
      VectorXd y = VectorXd::Zero(p.D);
      if (kind == 3 || (kind == 2 && method != Par::kMellingerOuterLoop && !end)) for (int q = 0; q < p.D; ++q) y[q] = c.s.real(-1, 1) * size / std::pow(T, d);
      p.con[i][d] = y;
    }
  }
  // Ends that are free below the optimised derivative leave nothing to optimise; inner waypoints may lack a position.
  if (kind == 2 && p.K > 2 && c.s.chance(1, 4)) p.con[1].erase(0);
  build(p);
  Par& q = s.par;
  q.time_alloc_method = (Par::TimeAllocMethod)method;
  q.use_soft_constraints = method == Par::kMellingerOuterLoop || c.s.chance(4, 5);
  if (method == Par::kMellingerOuterLoop) q.algorithm = c.s.pick(std::vector<nlopt::algorithm>{nlopt::LD_LBFGS, nlopt::LD_LBFGS, nlopt::LD_VAR1, nlopt::LD_VAR2});
  else if (!q.use_soft_constraints) q.algorithm = nlopt::LN_COBYLA;
  else q.algorithm = c.s.pick(std::vector<nlopt::algorithm>{nlopt::LN_BOBYQA, nlopt::LN_BOBYQA, nlopt::LN_SBPLX, nlopt::LN_NELDERMEAD, nlopt::LN_COBYLA});
  q.max_iterations = c.s.pick(std::vector<int>{1, 3, 10, 30, 60, 120});
  q.f_rel = c.s.pick(std::vector<double>{0.05, -1, 1e-4, 1e-8});
  q.x_rel = c.s.pick(std::vector<double>{-1, 0.1, 1e-6});
  if (c.s.chance(1, 6)) q.f_abs = c.s.logreal(1e-3, 1e3);
  if (c.s.chance(1, 6)) q.x_abs = c.s.logreal(1e-4, 1);
  q.initial_stepsize_rel = c.s.pick(std::vector<double>{0.1, 0.1, 0.5, 0.01, 2});
  q.time_penalty = c.s.pick(std::vector<double>{1000, 1000, 500, 10, 1, 1e6});
  q.soft_constraint_weight = c.s.pick(std::vector<double>{100, 100, 10, 1, 0.01});
  q.inequality_constraint_tolerance = c.s.pick(std::vector<double>{0.1, 0.2, 1e-3});
  mtg::Segment::Vector first = linear<N>(p, p.t);
  for (int d = 1; d <= 3; ++d) {
    double m = (double)max_norm(first, d);
    if (d < N / 2 && m > 1e-6 && c.s.chance(d < 3 ? 3 : 1, 4)) s.lim.push_back({d, m * c.s.logreal(0.3, 3)});
  }
  // A second limit of the same derivative: both count.
  if (!s.lim.empty() && c.s.chance(1, 5)) {
    Limit l = s.lim[c.s.below(s.lim.size())];
    l.value *= c.s.logreal(0.5, 2);
    s.lim.push_back(l);
    c.label("two limits of one derivative");
  }
  if (s.lim.size() > 1 && c.s.chance(1, 3)) std::swap(s.lim[0], s.lim.back());
  c.desc << p.show() << " | " << kMethod[method] << (q.use_soft_constraints ? "" : " hard") << " algorithm " << q.algorithm << " iterations " << q.max_iterations << " f_rel " << q.f_rel << " x_rel " << q.x_rel
         << " f_abs " << q.f_abs << " x_abs " << q.x_abs << " step " << q.initial_stepsize_rel << " penalty " << q.time_penalty << " weight " << q.soft_constraint_weight << " tolerance " << q.inequality_constraint_tolerance;
  for (auto& l : s.lim) c.desc << " |derivative " << l.order << "|<=" << l.value;
  c.label(kMethod[method]);
  c.label(q.use_soft_constraints ? "soft" : "hard");
  return s;
}
static bool within(const Setup& s, const mtg::Segment::Vector& segs, double slack) {
  for (auto& l : s.lim) if (!(max_norm(segs, l.order) <= l.value + slack + 1e-6 * l.value)) return false;
  return true;
}

template <int N>
static void run(pbt::Ctx& c, int method) {
  Setup s = setup<N>(c, method);
  const Problem& p = s.p;
  const Par& q = s.par;
  mtg::Segment::Vector first = linear<N>(p, p.t);
  watch = Watch();
  mtg::PolynomialOptimizationNonLinear<N> o(p.D, q);
  c.check(o.setupFromVertices(p.v, p.t, p.k), "setup", "setupFromVertices failed");
  for (auto& l : s.lim) c.check(o.addMaximumMagnitudeConstraint(l.order, l.value), "limit", "addMaximumMagnitudeConstraint failed");
  if (c.s.chance(1, 2)) {
    c.check(o.solveLinear(), "linear", "solveLinear failed");
    mtg::Trajectory t;
    o.getTrajectory(&t);
    c.check(t.segments() == first, "linear", "solveLinear differs from the linear optimiser");
    c.label("solved first");
  }
  int result = o.optimize();
  mtg::OptimizationInfo info = o.getOptimizationInfo();
  c.check(info.stopping_reason == result, "info", PBT_S("result " << result << " but stopping reason " << info.stopping_reason));
  c.label(PBT_S("result " << result));
  mtg::Trajectory tr;
  o.getTrajectory(&tr);
  const mtg::Segment::Vector& segs = tr.segments();
  // Constraints, continuity, times.
  feasible(c, p, segs, 3 * acc(N), "result");
  std::vector<double> t, tt = tr.getSegmentTimes();
  o.getPolynomialOptimizationRef().getSegmentTimes(&t);
  c.check(t == tt, "times", "segment times of the trajectory and of the optimiser differ");
  for (double x : t) c.check(std::isfinite(x) && x >= mtg::kOptimizationTimeLowerBound * (1 - 1e-12), "lower-bound", PBT_S("segment time " << x));
  c.atmost(std::fabs(tr.getMaxTime() - total(t)), 1e-12 * total(t), "times", "end time of the trajectory against the sum of the segment times");
  // Reported costs belong to the trajectory.
  Cost own = cost(s, segs, !s.linear_time(), 1e12);
  double tj = 1e-9 * std::fabs(own.traj) + own.floor + 1e-300;
  c.close(o.getCost(), own.traj, tj, "cost", "getCost against the integral");
  c.close(info.cost_trajectory, own.traj, tj, "info-trajectory", "cost_trajectory against the integral over the returned trajectory");
  Cost metric = cost(s, segs, true, 1e9);
  c.close(o.getTotalCostWithSoftConstraints(), metric.sum(), tj + metric.soft_tol + 1e-9 * metric.sum(), "total", "getTotalCostWithSoftConstraints against integral, time and limits");
  if (!s.mellinger()) {
    c.close(info.cost_time, own.time, 1e-9 * own.time + 1e-300, "info-time", "cost_time against the time of the returned trajectory");
    c.close(info.cost_soft_constraints, q.use_soft_constraints ? own.soft : 0, q.use_soft_constraints ? own.soft_tol : 0, "info-soft", "cost_soft_constraints against the limits on the returned trajectory");
    for (auto& l : s.lim) {
      auto it = info.maxima.find(l.order);
      ld m = max_norm(segs, l.order), mg = 0;
      for (auto& g : segs) for (int d = 0; d < g.D(); ++d) mg += magnitude(g, d) * gen::ff(N - 1, l.order) / powl(g.getTime(), l.order);
      c.check(it != info.maxima.end(), "info-maxima", PBT_S("no maximum of derivative " << l.order << " is reported"));
      c.close(it->second.value, (double)m, (double)(3e-6L * m + 1e-12L * mg) + 1e-7 * l.value, "info-maxima", PBT_S("reported maximum of derivative " << l.order));
    }
  }
  // Never worse than the initial guess, and the best that was evaluated.
  bool changed = t != p.t;
  if (s.mellinger()) {
    // Only the integral is optimised, and stretching for the limits lowers it further.
    Cost init = cost(s, first, true, 1e12);
    double tol = 1e-6 * std::fabs(init.traj) + own.floor + init.floor + 1e-300;
    if (!(own.traj <= init.traj + tol)) c.fail("worse", PBT_S("cost " << own.traj << " is worse than the " << init.traj << " of the initial guess"));
    if (std::isfinite(watch.reported) && !(own.traj <= watch.reported + 1e-6 * std::fabs(watch.reported) + own.floor)) c.fail("not-best", PBT_S("cost " << own.traj << ", but the search found " << watch.reported));
  } else if (q.use_soft_constraints) {
    Cost init = cost(s, first, !s.linear_time(), 1e12);
    double tol = 1e-6 * (std::fabs(init.traj) + init.time) + own.floor + init.floor + init.soft_tol + own.soft_tol + 1e-300;
    c.metric("margin:worse", (own.sum() - init.sum()) / tol);
    if (!(own.sum() <= init.sum() + tol)) c.fail("worse", PBT_S("objective " << own.sum() << " is worse than the " << init.sum() << " of the initial guess"));
    if (own.sum() < init.sum() - tol) c.label("improved");
    // COBYLA itself may drop the best point it evaluated, and so does BOBYQA where rounding ends it.
    if (q.algorithm == nlopt::LN_COBYLA || watch.result == NLOPT_ROUNDOFF_LIMITED) watch.low = watch.reported;
    if (std::isfinite(watch.low)) {
      double tol2 = 1e-9 * std::fabs(watch.low) + own.floor + own.soft_tol + 1e-300;
      c.metric("margin:best", (own.sum() - watch.low) / tol2);
      if (!(own.sum() <= watch.low + tol2)) c.fail("not-best", PBT_S("objective " << own.sum() << ", but the search found " << watch.low));
    }
  } else {
    Cost init = cost(s, first, !s.linear_time(), 1e12);
    double a = own.traj + own.time, b = init.traj + init.time;
    double tol = 1e-6 * b + own.floor + init.floor + 1e-300;
    if (within(s, first, 0)) {
      c.label("initial guess within the hard limits");
      if (!(a <= b + tol)) c.fail("worse", PBT_S("objective " << a << " is worse than the " << b << " of the initial guess, which keeps the limits"));
      if (!within(s, segs, q.inequality_constraint_tolerance)) c.fail("hard-limit", "the result breaks the hard limits, which the initial guess keeps");
    } else if (within(s, segs, q.inequality_constraint_tolerance)) c.label("hard limits reached");
    else {
      // Without any point that keeps the limits the result must at least not be worse in both respects.
      c.label("hard limits not reached");
    }
  }
  if (changed) c.label("times changed");
  if (changed && p.K >= 2 && !s.lim.empty()) c.nontrivial();
  // Free derivatives of limited order.
  if (s.free_too()) for (auto& l : s.lim) for (int i = 0; i <= p.K; ++i) {
    if (l.order >= N / 2 || p.con[i].count(l.order)) continue;
    int g = std::min(i, p.K - 1);
    for (int d = 0; d < p.D; ++d) {
      ld now = gen::peval(gen::cf(segs[g][d]), i == p.K ? segs[g].getTime() : 0, l.order), was = gen::peval(gen::cf(first[g][d]), i == p.K ? first[g].getTime() : 0, l.order);
      ld tl = acc(N) * gen::ff(N - 1, l.order) * (magnitude(segs[g], d) / powl(segs[g].getTime(), l.order) + magnitude(first[g], d) / powl(first[g].getTime(), l.order));
      ld bound = std::max((ld)l.value, fabsl(was)) + tl + 1e-9 * l.value;
      c.label("bounded free derivative");
      if (!(fabsl(now) <= bound)) c.fail("free-bound", PBT_S("free derivative " << l.order << " of vertex " << i << " in dimension " << d << " is " << (double)now << ", beyond the limit " << l.value << " (" << (double)was << " in the initial guess)"));
    }
  }
  // The outer loop ends by stretching the times until the limits hold.
  // (Solving again with times of too different sizes gives another answer, for numerical reasons.)
  double ratio = *std::max_element(t.begin(), t.end()) / *std::min_element(t.begin(), t.end());
  if (s.mellinger()) c.label(ratio < 1e3 ? "scaled" : "scaled, times too different to compare");
  if (s.mellinger() && ratio < 1e3) for (auto& l : s.lim) if (l.order <= 2) {
    double m = (double)max_norm(segs, l.order);
    c.metric("margin:scaled", m / l.value / 1.002);
    if (!(m <= l.value * 1.002)) c.fail("scaling", PBT_S("maximum of derivative " << l.order << " is " << m << ", beyond the limit " << l.value));
  }
  // Nothing hidden: the same problem gives the same answer.
  if (c.s.chance(1, 8)) {
    mtg::PolynomialOptimizationNonLinear<N> o2(p.D, q);
    o2.setupFromVertices(p.v, p.t, p.k);
    for (auto& l : s.lim) o2.addMaximumMagnitudeConstraint(l.order, l.value);
    int r2 = o2.optimize();
    mtg::Trajectory t2;
    o2.getTrajectory(&t2);
    c.check(r2 == result && t2.segments() == segs, "repeat", "optimising the same problem again gives another answer");
    c.label("repeated");
  }
}
template <int N>
static void any(pbt::Ctx& c) { run<N>(c, (int)c.s.below(5)); }

int main(int argc, char** argv) {
  FLAGS_minloglevel = 4;
  return pbt::run_main(argc, argv, {{"any10", 5, any<10>}, {"any8", 1, any<8>}, {"any6", 1, any<6>}, {"any12", 1, any<12>}});
}
