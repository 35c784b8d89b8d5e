// C16: saving and loading trajectories.
#include <mav_trajectory_generation/io.h>
#include <mav_trajectory_generation/trajectory_sampling.h>
#include <unistd.h>

#include <fstream>

#include "gen.hpp"
using namespace gen;

static std::string g_dir;
static std::string file(const char* n) { return g_dir + "/" + n; }

static double wild(pbt::Ctx& c) {
  switch (c.s.below(6)) {
    case 0: return coef(c);
    case 1: { double m = std::pow(10.0, c.s.irange(-300, 300)) * (1 + 9 * c.s.unit()); return c.s.chance(1, 2) ? -m : m; }
    case 2: { double v[] = {0.1, 1.0 / 3, 5e-324, -5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, -0.0, 0.30000000000000004, 123456789.12345679, 1e16 + 2}; return v[c.s.below(10)]; }
    case 3: { uint64_t b = c.s.below(1ull << 63) ^ (c.s.below(2) << 63); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1.0; }
    default: return coef(c);
  }
}
static double seconds(pbt::Ctx& c) {
  switch (c.s.below(4)) {
    case 0: return (1 + c.s.below(40)) / 8.0;
    case 1: return (double)(1 + c.s.below(3600000000000ull)) * 1e-9;
    case 2: return c.s.logreal(1e-9, 3600);
    default: return (1 + c.s.below(100)) / 100.0;
  }
}
static mtg::Segment::Vector segments(pbt::Ctx& c, int K, int D, int N) {
  mtg::Segment::Vector v;
  for (int i = 0; i < K; ++i) {
    mtg::Segment s(N, D);
    s.setTime(seconds(c));
    for (int d = 0; d < D; ++d) { VectorXd q(N); for (int j = 0; j < N; ++j) q[j] = wild(c); s[d] = mtg::Polynomial(N, q); }
    v.push_back(s);
  }
  return v;
}
static void same(pbt::Ctx& c, const mtg::Segment::Vector& a, const mtg::Segment::Vector& b, bool exact_time, const char* tag) {
  c.check(a.size() == b.size(), tag, PBT_S(b.size() << " segments loaded, " << a.size() << " saved"));
  for (size_t i = 0; i < a.size(); ++i) {
    c.check(a[i].D() == b[i].D() && a[i].N() == b[i].N(), tag, PBT_S("segment " << i << " has D=" << b[i].D() << " N=" << b[i].N()));
    for (int d = 0; d < a[i].D(); ++d) {
      VectorXd p = cf(a[i][d]), q = cf(b[i][d]);
      c.check(p.size() == q.size(), tag, "coefficient count");
      for (int j = 0; j < p.size(); ++j)
        c.check(p[j] == q[j], tag, PBT_S("segment " << i << " dimension " << d << " coefficient " << j << " is " << q[j] << ", saved " << p[j]));
    }
    if (exact_time) c.check(a[i].getTime() == b[i].getTime(), tag, PBT_S("segment time changed from " << a[i].getTime() << " to " << b[i].getTime()));
    else c.close(b[i].getTime(), a[i].getTime(), 1e-9 + 4 * kEps * a[i].getTime() + 1e-16, tag, "segment time");
  }
}
static std::string show(const mtg::Segment::Vector& v) { std::ostringstream o; for (auto& s : v) o << gen::show(s); return o.str(); }

static void roundtrip(pbt::Ctx& c) {
  int K = c.s.sized(1, 8, 60), D = c.s.irange(1, 6), N = c.s.irange(1, 12);
  auto v = segments(c, K, D, N);
  c.desc << "K=" << K << " D=" << D << " N=" << N << " " << show(v);
  c.nontrivial(K >= 2 && N >= 2);
  mtg::Trajectory t;
  t.setSegments(v);
  unsigned form = (unsigned)c.s.below(4);
  mtg::Trajectory u;
  if (c.s.chance(1, 2)) { mtg::Segment s(2, 2); s.setTime(7); u.setSegments({s, s, s}); }  // a used target
  mtg::Segment::Vector w;
  if (c.s.chance(1, 2)) w.push_back(mtg::Segment(3, 1));
  std::string f = file("t.yaml");
  if (c.s.chance(1, 3)) { std::ofstream o(f); o << std::string(20000, 'x'); }  // overwrites a longer file
  if (form == 0) {
    c.label("trajectory file");
    c.check(mtg::trajectoryToFile(f, t), "save", "saving failed");
    c.check(mtg::trajectoryFromFile(f, &u), "load", "loading failed");
    w = u.segments();
  } else if (form == 1) {
    c.label("segments file");
    c.check(mtg::segmentsToFile(f, v), "save", "saving failed");
    c.check(mtg::segmentsFromFile(f, &w), "load", "loading failed");
    u.setSegments(w);
  } else if (form == 2) {
    c.label("trajectory document");
    YAML::Node n = mtg::trajectoryToYaml(t);
    if (c.s.chance(1, 2)) n = YAML::Load(YAML::Dump(n));
    c.check(mtg::trajectoryFromYaml(n, &u), "load", "loading failed");
    w = u.segments();
  } else {
    c.label("segments document");
    YAML::Node n = mtg::segmentsToYaml(v);
    if (c.s.chance(1, 2)) n = YAML::Load(YAML::Dump(n));
    c.check(mtg::segmentsFromYaml(n["segments"], &w), "load", "loading failed");
    u.setSegments(w);
    size_t i = c.s.below(K);
    mtg::Segment s(1, 1);
    YAML::Node sn = mtg::segmentToYaml(v[i]);
    c.check(mtg::segmentFromYaml(sn, &s), "load", "loading one segment failed");
    same(c, {v[i]}, {s}, false, "one-segment");
    VectorXd q, p = cf(v[i][0]);
    c.check(mtg::coefficientsFromYaml(mtg::coefficientsToYaml(p), &q) && q == p, "coefficients", "coefficient list changed");
  }
  same(c, v, w, false, "roundtrip");
  c.check(u.K() == K && u.D() == D && u.N() == N, "summary", "trajectory summary");
  long double sum = 0;
  for (auto& s : w) sum += s.getTime();
  c.close(u.getMaxTime(), (double)sum, 1e-12 * (double)sum, "max-time", "duration");
  // Again: nothing more changes, and all forms agree.
  mtg::Trajectory x;
  std::string g = file("u.yaml");
  c.check(mtg::trajectoryToFile(g, u) && mtg::trajectoryFromFile(g, &x), "again", "second round failed");
  same(c, w, x.segments(), true, "again");
  mtg::Trajectory y;
  c.check(mtg::trajectoryFromYaml(YAML::LoadFile(g), &y), "agree", "a saved file is not a valid document");
  same(c, w, y.segments(), true, "agree");
  mtg::Segment::Vector z;
  c.check(mtg::segmentsFromFile(g, &z), "agree", "a saved trajectory is not a segment list");
  same(c, w, z, true, "agree");
  { std::ofstream o(g); o << mtg::trajectoryToYaml(u); }
  mtg::Trajectory q;
  c.check(mtg::trajectoryFromFile(g, &q), "agree", "an emitted document is not a valid file");
  same(c, w, q.segments(), true, "agree");
}
static void unwritable(pbt::Ctx& c) {
  auto v = segments(c, c.s.sized(1, 8, 60), c.s.irange(1, 4), c.s.irange(1, 10));
  mtg::Trajectory t;
  t.setSegments(v);
  static const char* kinds[] = {"missing directory", "a directory", "full device"};
  int k = (int)c.s.below(3);
  c.desc << kinds[k] << " " << show(v);
  std::string p = k == 0 ? file("no/such/dir/t.yaml") : k == 1 ? g_dir : "/dev/full";
  c.label(kinds[k]);
  c.nontrivial();
  c.check(!mtg::trajectoryToFile(p, t), "unwritable", "saving to a place that cannot be written reported success");
  c.check(!mtg::segmentsToFile(p, v), "unwritable", "saving to a place that cannot be written reported success");
}
static void dump(pbt::Ctx& c) {
  int K = c.s.irange(1, 5), D = c.s.irange(1, 6), N = c.s.irange(1, 10);
  mtg::Segment::Vector v;
  bool tiny = c.s.chance(1, 4);
  for (int i = 0; i < K; ++i) {
    double T = tiny ? c.s.logreal(1e-4, 0.02) : c.s.chance(1, 2) ? (1 + c.s.below(8)) / 8.0 : c.s.logreal(0.02, 1.0);
    v.push_back(segment(c, N, D, T, 0));
  }
  mtg::Trajectory t;
  t.setSegments(v);
  c.desc << gen::show(t);
  std::string f = file("dump.txt");
  ::unlink(f.c_str());
  bool ok = mtg::sampledTrajectoryStatesToFile(f, t);
  c.check(ok == (D >= 3), "dump-result", "result of the dump");
  if (D < 3) { c.label("refused"); return; }
  mav_msgs::EigenTrajectoryPoint::Vector st;
  c.check(mtg::sampleWholeTrajectory(t, 0.01, &st), "sample", "sampling failed");
  std::ifstream in(f);
  std::string line;
  std::vector<std::vector<double>> rows;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    rows.emplace_back();
    std::string w;
    while (is >> w) rows.back().push_back(strtod(w.c_str(), nullptr));
    c.check(rows.back().size() == 27, "columns", PBT_S(rows.back().size() << " columns"));
  }
  c.check(rows.size() >= st.size(), "rows", PBT_S(rows.size() << " rows for " << st.size() << " samples"));
  c.check(rows.size() == std::max<size_t>(st.size(), K), "rows", PBT_S(rows.size() << " rows for " << st.size() << " samples and " << K << " segments"));
  auto near = [&](double a, double b, size_t i, int j) {
    if (std::fabs(b) < 1e-300) return;
    c.check(std::fabs(a - b) <= 1.01e-5 * std::fabs(b) || a == b, "value", PBT_S("row " << i << " column " << j << " is " << a << ", expected " << b));
  };
  for (size_t i = 0; i < st.size(); ++i) {
    auto& s = st[i];
    auto& r = rows[i];
    near(r[0], (double)s.time_from_start_ns, i, 0);
    for (int k = 0; k < 3; ++k) {
      near(r[1 + k], s.position_W[k], i, 1 + k);
      near(r[4 + k], s.velocity_W[k], i, 4 + k);
      near(r[7 + k], s.acceleration_W[k], i, 7 + k);
      near(r[10 + k], s.jerk_W[k], i, 10 + k);
      near(r[13 + k], s.snap_W[k], i, 13 + k);
      near(r[20 + k], s.angular_velocity_W[k], i, 20 + k);
      near(r[23 + k], s.angular_acceleration_W[k], i, 23 + k);
    }
    near(r[16], s.orientation_W_B.w(), i, 16);
    near(r[17], s.orientation_W_B.x(), i, 17);
    near(r[18], s.orientation_W_B.y(), i, 18);
    near(r[19], s.orientation_W_B.z(), i, 19);
    // Independently of the sampler: time grid and position.
    c.close(r[0], std::floor(i * 0.01 * 1e9 + 0.5), 2e-5 * r[0] + 2, "dump-time", "time column");
  }
  double acc = 0;
  for (int j = 0; j < K; ++j) { acc += v[j].getTime(); near(rows[j][26], acc, j, 26); }
  if ((size_t)K > st.size()) c.label("more segments than samples");
  c.nontrivial(K >= 2);
}
int main(int argc, char** argv) {
  const char* w = getenv("PBT_WORK");
  std::string base = w ? w : "/tmp";
  pbt::Options o;
  o.child_init = [base] {
    g_dir = base + "/io" + std::to_string(getpid());
    (void)!system(("mkdir -p " + g_dir).c_str());
  };
  return pbt::run_main(argc, argv, {{"roundtrip", 6, roundtrip}, {"unwritable", 1, unwritable}, {"dump", 2, dump}}, o);
}
