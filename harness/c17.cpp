// C17: malformed trajectory files and documents are refused cleanly.
#include <mav_trajectory_generation/io.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>

#include "gen.hpp"
using namespace gen;

static std::string g_dir = "/tmp";

// A document model of our own, printed as flow or block text.
struct Node {
  enum Kind { kNull, kScalar, kSeq, kMap } kind = kNull;
  std::string s;
  std::vector<Node> seq;
  std::vector<std::pair<std::string, Node>> map;
  static Node scalar(const std::string& v) { Node n; n.kind = kScalar; n.s = v; return n; }
  static Node list() { Node n; n.kind = kSeq; return n; }
  static Node dict() { Node n; n.kind = kMap; return n; }
  void flow(std::ostream& o) const {
    if (kind == kNull) o << "~";
    if (kind == kScalar) o << s;
    if (kind == kSeq) { o << "["; for (size_t i = 0; i < seq.size(); ++i) { if (i) o << ", "; seq[i].flow(o); } o << "]"; }
    if (kind == kMap) { o << "{"; for (size_t i = 0; i < map.size(); ++i) { if (i) o << ", "; o << map[i].first << ": "; map[i].second.flow(o); } o << "}"; }
  }
  void block(std::ostream& o, int ind) const {
    std::string p(ind, ' ');
    if (kind == kSeq && !seq.empty()) { for (auto& n : seq) { o << "\n" << p << "-"; n.kind == kMap || n.kind == kSeq ? n.block(o, ind + 2) : (o << " ", n.flow(o)); } }
    else if (kind == kMap && !map.empty()) { for (auto& m : map) { o << "\n" << p << m.first << ":"; m.second.kind == kMap ? m.second.block(o, ind + 2) : m.second.kind == kSeq && !m.second.seq.empty() && m.second.seq[0].kind != Node::kScalar ? m.second.block(o, ind + 1) : (o << " ", m.second.flow(o)); } }
    else { o << " "; flow(o); }
  }
};
static void collect(Node& n, std::vector<Node*>& out) {
  out.push_back(&n);
  for (auto& k : n.seq) collect(k, out);
  for (auto& k : n.map) collect(k.second, out);
}
static std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

static Node document(pbt::Ctx& c, int K, int D, int N) {
  Node root = Node::dict(), segs = Node::list();
  for (int i = 0; i < K; ++i) {
    Node s = Node::dict(), co = Node::list();
    for (int d = 0; d < D; ++d) { Node l = Node::list(); for (int j = 0; j < N; ++j) l.seq.push_back(Node::scalar(num(coef(c)))); co.seq.push_back(l); }
    s.map = {{"N", Node::scalar(std::to_string(N))}, {"D", Node::scalar(std::to_string(D))},
             {"time", Node::scalar(std::to_string(1 + c.s.below(5000000000ull)))}, {"coefficients", co}};
    segs.seq.push_back(s);
  }
  root.map = {{"segments", segs}};
  return root;
}
static const char* kScalars[] = {"x", "", "-1", "0", "1", "2", "3", "4", "99999999999999999999999", "2147483647", "-2147483648", "1e3", "1.5", ".nan", ".inf", "0x10",
                                 "true", "\"3\"", "[]", "{}", "~", "3 4", "1,2", "100000", "23", "22", "13", "1e400", "-0", "+2", "''", "!!str 3", "18446744073709551615", "1_000"};

// Structural edits. `bad` is set when the result is certainly not a valid trajectory.
static void edit(pbt::Ctx& c, Node& root, bool& bad, std::string& what) {
  Node& segs = root.map[0].second;
  size_t si = segs.seq.empty() ? 0 : c.s.below(segs.seq.size());
  int k = (int)c.s.below(14);
  bool ok = segs.kind == Node::kSeq && !segs.seq.empty() && segs.seq[si].kind == Node::kMap && segs.seq[si].map.size() == 4 && segs.seq[si].map[3].second.kind == Node::kSeq;
  if (!ok) k = 13;
  if (k == 13) {  // any node becomes anything: no verdict demanded
    std::vector<Node*> all;
    collect(root, all);
    Node* n = all[1 + c.s.below(all.size() - 1)];
    switch (c.s.below(4)) {
      case 0: *n = Node(); break;
      case 1: *n = Node::scalar(kScalars[c.s.below(sizeof kScalars / sizeof *kScalars)]); break;
      case 2: { Node x = *all[1 + c.s.below(all.size() - 1)]; *n = x; break; }
      default: { Node x = *n; *n = Node::list(); n->seq = {x}; break; }
    }
    what += "random node;";
    return;
  }
  Node& s = segs.seq[si];
  Node& co = s.map[3].second;
  int D = (int)co.seq.size();
  switch (k) {
    case 0: s.map.erase(s.map.begin() + c.s.below(4)); bad = true; what += "missing field;"; break;
    case 1: s.map[c.s.below(3)].second = Node::scalar("abc"); bad = true; what += "word for a number;"; break;
    case 2: s.map[c.s.below(3)].second = Node::scalar("-" + std::to_string(1 + c.s.below(9))); bad = true; what += "negative count or time;"; break;
    case 3: s.map[c.s.below(2)].second = Node::scalar("0"); bad = true; what += "zero count;"; break;
    case 4: s.map[c.s.below(2)].second = Node::scalar(std::to_string(c.s.chance(1, 2) ? 1000000 + c.s.below(2146000000) : 50 + c.s.below(1000))); bad = true; what += "huge count;"; break;
    case 5: if (D) { Node& l = co.seq[c.s.below(D)]; if (l.kind == Node::kSeq && !l.seq.empty()) { l.seq.pop_back(); bad = true; what += "one coefficient less;"; } } break;
    case 6: if (D) { Node& l = co.seq[c.s.below(D)]; if (l.kind == Node::kSeq && !l.seq.empty()) { l.seq.push_back(Node::scalar("1")); bad = true; what += "one coefficient more;"; } } break;
    case 7: if (D) { co.seq.pop_back(); bad = true; what += "one dimension less;"; } break;
    case 8: if (D) { Node l = co.seq[0]; co.seq.push_back(l); bad = true; what += "one dimension more;"; } break;
    case 9: if (D) { Node& l = co.seq[c.s.below(D)]; if (l.kind == Node::kSeq && !l.seq.empty()) { l.seq[c.s.below(l.seq.size())] = Node::scalar("1.2.3"); bad = true; what += "coefficient is no number;"; } } break;
    case 10: segs.seq.clear(); bad = true; what += "no segments;"; break;
    case 11: if (D) { co.seq[c.s.below(D)] = Node::scalar("5"); bad = true; what += "scalar for a coefficient list;"; } break;
    default: segs.seq[si] = Node::scalar("7"); bad = true; what += "scalar for a segment;"; break;
  }
}

// The trajectory is well formed: evaluates everywhere, all derivatives, all derived queries.
static void well_formed(pbt::Ctx& c, const mtg::Trajectory& t, const char* how) {
  c.check(t.K() >= 1 && (size_t)t.K() == t.segments().size(), "accepted", PBT_S(how << " accepted a trajectory without segments"));
  for (auto& s : t.segments()) {
    c.check(s.D() == t.D() && s.N() == t.N() && t.D() >= 1 && t.N() >= 1, "accepted", PBT_S(how << " accepted a segment with D=" << s.D() << ", N=" << s.N() << " in a trajectory with D=" << t.D() << ", N=" << t.N()));
    c.check((int)s.getPolynomialsRef().size() == s.D(), "accepted", PBT_S(how << ": number of polynomials"));
    for (int d = 0; d < s.D(); ++d) c.check(s[d].N() == s.N() && cf(s[d]).size() == s.N(), "accepted", PBT_S(how << " accepted " << cf(s[d]).size() << " coefficients where " << s.N() << " are declared"));
    c.check(s.getTime() >= 0 && std::isfinite(s.getTime()), "accepted", PBT_S(how << " accepted the segment time " << s.getTime()));
  }
  c.check(t.N() <= mtg::Polynomial::kMaxConvolutionSize, "accepted", PBT_S(how << " accepted polynomials of " << t.N() << " coefficients, which cannot be evaluated"));
  for (double f : {0.0, 0.3, 0.77, 1.0})
    for (int d = 0; d < std::min(t.N(), 6); ++d) c.check(t.evaluate(f * t.getMaxTime(), d).size() == t.D(), "evaluate", "size of a value");
}
static void segments_formed(pbt::Ctx& c, const mtg::Segment::Vector& v, const char* how) {
  for (auto& s : v) {
    c.check(s.D() >= 1 && s.N() >= 1 && (int)s.getPolynomialsRef().size() == s.D(), "accepted", PBT_S(how << " accepted a segment with D=" << s.D() << ", N=" << s.N()));
    c.check(s.N() <= mtg::Polynomial::kMaxConvolutionSize, "accepted", PBT_S(how << " accepted a segment with N=" << s.N()));
    for (int d = 0; d < s.D(); ++d) c.check(cf(s[d]).size() == s.N(), "accepted", PBT_S(how << " accepted " << cf(s[d]).size() << " coefficients where " << s.N() << " are declared"));
    for (int d = 0; d < std::min(s.N(), 6); ++d) s.evaluate(0.5 * s.getTime(), d);
  }
}
static mtg::Trajectory sentinel() {
  mtg::Segment a(3, 2), b(3, 2);
  a.setTime(1.25); b.setTime(2.5);
  VectorXd q(3);
  q << 1, 2, 3;
  a[0] = a[1] = b[0] = b[1] = mtg::Polynomial(3, q);
  mtg::Trajectory t;
  t.setSegments({a, b});
  return t;
}
static void all_entry_points(pbt::Ctx& c, const std::string& path, const std::string& text, bool bad, bool good) {
  const mtg::Trajectory ref = sentinel();
  auto verdict = [&](bool ok, const char* how) {
    if (good) c.check(ok, "refused-valid", PBT_S(how << " refused a valid document"));
    if (bad) c.check(!ok, "accepted-malformed", PBT_S(how << " accepted a malformed document"));
    c.label(PBT_S(how << (ok ? " accepted" : " refused")));
  };
  try {
    {
      mtg::Trajectory t = ref;
      bool ok = mtg::trajectoryFromFile(path, &t);
      verdict(ok, "trajectoryFromFile");
      if (ok) well_formed(c, t, "trajectoryFromFile");
      else c.check(t == ref && t.K() == 2, "unchanged", "a failed load changed the trajectory");
    }
    {
      mtg::Segment::Vector v = ref.segments();
      bool ok = mtg::segmentsFromFile(path, &v);
      if (good) c.check(ok, "refused-valid", "segmentsFromFile refused a valid file");
      if (ok) segments_formed(c, v, "segmentsFromFile");
    }
    YAML::Node n;
    try { n = YAML::Load(text); } catch (YAML::Exception&) { return; }
    {
      mtg::Trajectory t = ref;
      bool ok = mtg::trajectoryFromYaml(n, &t);
      verdict(ok, "trajectoryFromYaml");
      if (ok) well_formed(c, t, "trajectoryFromYaml");
      else c.check(t == ref && t.K() == 2, "unchanged", "a failed conversion changed the trajectory");
    }
    auto lists = [&](const YAML::Node& x) {
      mtg::Segment::Vector v = ref.segments();
      if (mtg::segmentsFromYaml(x, &v)) segments_formed(c, v, "segmentsFromYaml");
      mtg::Segment s(3, 2);
      if (mtg::segmentFromYaml(x, &s)) segments_formed(c, {s}, "segmentFromYaml");
      VectorXd q(2);
      if (mtg::coefficientsFromYaml(x, &q)) c.check((size_t)q.size() == x.size(), "coefficients", "number of coefficients");
    };
    lists(n);
    if (n.IsMap()) for (auto kv : n) { lists(kv.second); if (kv.second.IsSequence()) for (auto e : kv.second) { lists(e); if (e.IsMap()) for (auto f : e) lists(f.second); } }
  } catch (pbt::Fail&) {
    throw;
  } catch (std::exception& e) {
    c.fail("throws", PBT_S("an exception escaped: " << e.what()));
  }
}
static void put(const std::string& path, const std::string& text) {
  std::ofstream o(path, std::ios::binary | std::ios::trunc);
  o << text;
}
static std::string print(pbt::Ctx& c, const Node& root) {
  std::ostringstream o;
  if (c.s.chance(1, 2)) root.flow(o); else root.block(o, 0);
  o << "\n";
  return o.str();
}
static void structural(pbt::Ctx& c) {
  int K = c.s.sized(1, 3, 24), D = c.s.irange(1, 4), N = c.s.irange(1, 12);
  Node root = document(c, K, D, N);
  bool bad = false;
  std::string what;
  int edits = c.s.irange(0, 2);
  // With a single certain edit the verdict is known; further edits could undo it.
  for (int i = 0; i < edits; ++i) edit(c, root, bad, what);
  bool good = what.empty();
  if (edits > 1) bad = false;
  std::string text = print(c, root), path = g_dir + "/t.yaml";
  c.desc << "edits: " << what << " text: " << text;
  c.label(what.empty() ? "valid" : edits == 1 ? what : "two edits");
  put(path, text);
  c.nontrivial(!good);
  all_entry_points(c, path, text, bad, good);
}
static void mixed(pbt::Ctx& c) {  // segments that are fine alone but do not fit together
  int D = c.s.irange(1, 3), N = c.s.irange(2, 8);
  Node a = document(c, c.s.irange(1, 3), D, N), b = document(c, 1, c.s.chance(1, 2) ? D + 1 : D, 0);
  int D2 = c.s.chance(1, 2) ? D + (int)c.s.below(2) : D + 1, N2 = D2 == D ? N + 1 : N + (int)c.s.below(2);
  b = document(c, 1, D2, N2);
  auto& s = a.map[0].second.seq;
  s.insert(s.begin() + c.s.below(s.size() + 1), b.map[0].second.seq[0]);
  std::string text = print(c, a), path = g_dir + "/t.yaml";
  c.desc << text;
  put(path, text);
  c.nontrivial();
  all_entry_points(c, path, text, D2 != D, false);
}
static void bytes(pbt::Ctx& c) {
  std::string text;
  if (c.s.chance(3, 4)) {
    Node root = document(c, c.s.irange(1, 2), c.s.irange(1, 2), c.s.irange(1, 3));
    text = print(c, root);
    int k = c.s.irange(1, 4);
    for (int i = 0; i < k; ++i) {
      size_t p = c.s.below(text.size() + 1);
      switch (c.s.below(6)) {
        case 0: text = text.substr(0, p); c.label("truncated"); break;
        case 1: if (p < text.size()) text.erase(p, 1 + c.s.below(4)); break;
        case 2: { static const char* frag[] = {"[", "]", "{", "}", ":", " ", "\n", "-", "- ", "&a ", "*a", "#", "'", "\"", "!!int ", "? ", "| ", "%", "\t", ",", "---\n", "...\n", "<<: ", "@", "\xff", "\xef\xbb\xbf"};
          text.insert(p, frag[c.s.below(26)]); break; }
        case 3: if (p < text.size()) text[p] = (char)c.s.below(256); break;
        case 4: { size_t q = c.s.below(text.size() + 1); text.insert(p, text.substr(q, c.s.below(30))); break; }
        default: text.insert(p, kScalars[c.s.below(sizeof kScalars / sizeof *kScalars)]); break;
      }
    }
  } else {
    int n = c.s.irange(0, 40);
    for (int i = 0; i < n; ++i) text += c.s.chance(1, 2) ? "[]{}:-,?#&*!|>'\"%@ \n"[c.s.below(20)] : (char)c.s.below(256);
  }
  if (c.s.chance(1, 40)) { text = std::string(200 + c.s.below(5000), "[{"[c.s.below(2)]); c.label("deep nesting"); }
  c.desc << "bytes: ";
  for (char ch : text.substr(0, 3000)) { if (ch >= 32 && ch < 127) c.desc << ch; else { char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char)ch); c.desc << b; } }
  std::string path = g_dir + "/t.yaml";
  put(path, text);
  c.nontrivial(text.size() > 3);
  all_entry_points(c, path, text, text.empty(), false);
}
static void paths(pbt::Ctx& c) {
  static const char* kinds[] = {"missing file", "missing directory", "a directory", "an empty name", "an empty file", "a device"};
  int k = (int)c.s.below(6);
  std::string p;
  switch (k) {
    case 0: p = g_dir + "/no_such_file"; break;
    case 1: p = g_dir + "/no/such/file"; break;
    case 2: p = g_dir; break;
    case 3: p = ""; break;
    case 4: p = g_dir + "/empty"; put(p, std::string(c.s.below(3), '\n')); break;
    default: p = "/dev/null"; break;
  }
  c.desc << kinds[k];
  c.label(kinds[k]);
  c.nontrivial();
  all_entry_points(c, p, "", true, false);
}
static std::vector<pbt::Sub> subs() { return {{"structural", 8, structural}, {"bytes", 6, bytes}, {"mixed", 1, mixed}, {"paths", 1, paths}}; }

extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t*, size_t));
static int one(const uint8_t* d, size_t n) {
  static auto s = subs();
  pbt::fuzz_one(d, n, s);
  return 0;
}
int main(int argc, char** argv) {
  const char* w = getenv("PBT_WORK");
  std::string base = w ? w : "/tmp";
  auto init = [base] {
    g_dir = base + "/io" + std::to_string(getpid());
    mkdir(g_dir.c_str(), 0700);
  };
  if (argc > 1 && !strcmp(argv[1], "fuzz")) {
    init();
    --argc; ++argv;
    return LLVMFuzzerRunDriver(&argc, &argv, one);
  }
  pbt::Options o;
  o.child_init = init;
  return pbt::run_main(argc, argv, subs(), o);
}
