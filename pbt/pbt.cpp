#include "pbt.hpp"

#include <fcntl.h>
#include <glog/logging.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <fstream>
#include <unordered_set>

namespace pbt {
namespace {

Shared* shm = nullptr;
std::vector<Sub> g_subs;
Options g_opt;
int g_log_fd = -1;
Ctx* g_cur = nullptr;  // running case
std::string g_log_path;

double now_s() {
  struct timespec ts;
  // Raw system call: harnesses that interpose clock_gettime must not affect the engine.
  syscall(228 /* SYS_clock_gettime */, 1, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
void sleep_us(long us) {
  struct timespec ts{us / 1000000, (us % 1000000) * 1000};
  syscall(35 /* SYS_nanosleep */, &ts, nullptr);
}

std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

void copystr(char* dst, size_t cap, const std::string& s) {
  size_t n = std::min(cap - 1, s.size());
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

void arm_cpu(double s) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (long)s;
  it.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}

// Runs one case in this process; outcome is left in shm.
int run_case(Ctx& c) {
  shm->n_words = 0;
  shm->tag[0] = shm->msg[0] = shm->desc[0] = 0;
  shm->status = 0;
  shm->progress = shm->progress + 1;
  c.s.rec = shm;
  g_cur = &c;
  if (g_log_fd >= 0) { if (ftruncate(g_log_fd, 0)) {} lseek(g_log_fd, 0, SEEK_SET); }
  arm_cpu(g_opt.cpu_limit_s);
  int status = 1;
  try {
    if (g_opt.before_case) g_opt.before_case();
    int total = 0;
    for (auto& s : g_subs) total += s.weight;
    uint64_t w = c.s.below(total);
    size_t i = 0;
    while (w >= (uint64_t)g_subs[i].weight) w -= g_subs[i++].weight;
    c.label(std::string("sub:") + g_subs[i].name);
    c.desc << "[" << g_subs[i].name << "] ";
    g_subs[i].fn(c);
  } catch (Fail& f) {
    status = 2;
    copystr(shm->tag, sizeof shm->tag, f.tag);
    copystr(shm->msg, sizeof shm->msg, f.msg);
  } catch (Discard&) {
    status = 3;
  } catch (std::exception& e) {
    status = 2;
    copystr(shm->tag, sizeof shm->tag, "exception");
    copystr(shm->msg, sizeof shm->msg, std::string("unexpected exception: ") + e.what());
  }
  arm_cpu(0);
  g_cur = nullptr;
  copystr(shm->desc, sizeof shm->desc, c.desc.str());
  shm->status = status;
  return status;
}

// Saves the description of the running case when the process is about to die.
void save_desc() {
  if (!g_cur) return;
  Ctx* c = g_cur;
  g_cur = nullptr;
  copystr(shm->desc, sizeof shm->desc, c->desc.str());
}
void on_signal(int sg) {
  signal(sg, SIG_DFL);
  save_desc();
  raise(sg);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

std::string read_log_tail() {
  std::ifstream f(g_log_path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (s.size() > 6000) s = s.substr(0, 3000) + "\n...\n" + s.substr(s.size() - 3000);
  return s;
}

void child_setup() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  setpgid(0, 0);
  struct rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  g_log_fd = open(g_log_path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
  dup2(g_log_fd, 1);
  dup2(g_log_fd, 2);
  signal(SIGABRT, on_signal);
  signal(SIGPROF, on_signal);
  signal(SIGFPE, on_signal);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(save_desc);
  else signal(SIGSEGV, on_signal);
  if (g_opt.child_init) g_opt.child_init();
}

// Classifies how a child ended when it did not report an outcome itself.
void crash_outcome(int wst, bool hung) {
  std::string tag, msg, log = read_log_tail();
  if (hung) { tag = "hang"; msg = "no progress within the wall-clock limit"; }
  else if (WIFSIGNALED(wst)) {
    int sg = WTERMSIG(wst);
    if (sg == SIGPROF) { tag = "hang"; msg = "case exceeded its CPU-time limit"; }
    else { tag = "crash"; msg = std::string("process ended by signal ") + strsignal(sg); }
  } else {
    tag = "crash";
    msg = "process exited with status " + std::to_string(WEXITSTATUS(wst));
  }
  size_t report = log.find("WARNING: ThreadSanitizer");
  if (report != std::string::npos) log.erase(0, report);
  if (log.find("AddressSanitizer") != std::string::npos) tag = "asan";
  else if (log.find("ThreadSanitizer: data race") != std::string::npos) tag = "race";
  else if (log.find("ThreadSanitizer") != std::string::npos) tag = "tsan";
  else if (log.find("runtime error:") != std::string::npos) tag = "ubsan";
  shm->status = 2;
  copystr(shm->tag, sizeof shm->tag, tag);
  copystr(shm->msg, sizeof shm->msg, msg + "\n" + log);
}

struct Outcome { int status; std::string tag, msg, desc; std::vector<uint64_t> words; };

Outcome collect() {
  Outcome o;
  o.status = shm->status;
  o.tag = shm->tag;
  o.msg = shm->msg;
  o.desc = shm->desc;
  o.words.assign(shm->words, shm->words + shm->n_words);
  return o;
}

// Waits for the child; kills it when it makes no progress.
bool wait_child(pid_t pid, int* wst) {
  uint64_t last = shm->progress;
  double t0 = now_s();
  long us = 200;
  for (;;) {
    pid_t r = waitpid(pid, wst, WNOHANG);
    if (r == pid) return false;
    if (shm->progress != last) { last = shm->progress; t0 = now_s(); }
    if (now_s() - t0 > g_opt.wall_limit_s) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, wst, 0);
      return true;
    }
    sleep_us(us);
    if (us < 20000) us *= 2;
  }
}

Outcome attempt(const std::vector<uint64_t>& words) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    child_setup();
    Ctx c;
    c.s.random = false;
    c.s.in = words.data();
    c.s.n_in = words.size();
    run_case(c);
    _exit(shm->status == 2 ? 77 : 0);
  }
  int wst = 0;
  bool hung = wait_child(pid, &wst);
  if (shm->status == 0 || (shm->status != 2 && !(WIFEXITED(wst) && WEXITSTATUS(wst) == 0))) crash_outcome(wst, hung);
  Outcome o = collect();
  if (o.words.size() < words.size() && o.tag != "" && (o.tag == "crash" || o.tag == "asan" || o.tag == "hang" || o.tag == "race"))
    ;  // crash: recorded words are the consumed prefix
  return o;
}

std::vector<uint64_t> shrink(std::vector<uint64_t> w, const std::string& tag, Outcome* best) {
  double t_end = now_s() + g_opt.shrink_seconds;
  int left = g_opt.shrink_attempts;
  auto ok = [&](const std::vector<uint64_t>& cand) {
    if (left-- <= 0 || now_s() > t_end) return false;
    Outcome o = attempt(cand);
    for (int k = 1; k < g_opt.shrink_tries && !(o.status == 2 && o.tag == tag) && now_s() < t_end; ++k) o = attempt(cand);
    if (o.status == 2 && o.tag == tag) {
      std::vector<uint64_t> got = o.words;
      while (!got.empty() && got.back() == 0) got.pop_back();
      bool better = got.size() < w.size() || (got.size() == w.size() && got < w);
      if (better || cand.size() < w.size() || cand < w) {
        w = better ? got : cand;
        *best = o;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && left > 0 && now_s() < t_end) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, w.size() / 2);; chunk /= 2) {
      for (size_t i = w.size(); i-- > 1;) {
        if (left <= 0 || now_s() > t_end) break;
        if (i + chunk > w.size() || i < 1) continue;
        auto c = w;
        c.erase(c.begin() + i, c.begin() + i + chunk);
        if (ok(c)) { progress = true; i = std::min(i, w.size()); continue; }
        bool nz = false;
        c = w;
        for (size_t k = i; k < i + chunk; ++k) { nz |= c[k] != 0; c[k] = 0; }
        if (nz && ok(c)) { progress = true; i = std::min(i, w.size()); }
        if (chunk > 1) i = i >= chunk ? i - chunk + 1 : 1;
      }
      if (chunk <= 1) break;
    }
    for (size_t i = 1; i < w.size() && left > 0 && now_s() < t_end; ++i) {
      uint64_t lo = 0;
      while (i < w.size() && w[i] > lo && left > 0 && now_s() < t_end) {
        uint64_t mid = lo + (w[i] - lo) / 2;
        auto c = w;
        c[i] = mid;
        if (ok(c)) progress = true;
        else { if (lo == mid) break; lo = mid; if (w[i] - lo <= 1) break; }
      }
    }
  }
  return w;
}

void write_replay(const std::string& path, const std::string& prop, const Outcome& o, const std::vector<uint64_t>& w,
                  const std::string& harness) {
  std::ofstream f(path);
  f << "{\n \"property\": \"" << jesc(prop) << "\",\n \"harness\": \"" << jesc(harness) << "\",\n \"tag\": \"" << jesc(o.tag)
    << "\",\n \"message\": \"" << jesc(o.msg) << "\",\n \"case\": \"" << jesc(o.desc) << "\",\n \"words\": [";
  for (size_t i = 0; i < w.size(); ++i) f << (i ? "," : "") << w[i];
  f << "]\n}\n";
}

std::vector<uint64_t> read_words(const std::string& path) {
  std::ifstream f(path);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  size_t p = s.rfind("\"words\"");
  std::vector<uint64_t> w;
  if (p == std::string::npos) return w;
  p = s.find('[', p) + 1;
  while (p < s.size() && s[p] != ']') {
    char* e;
    uint64_t v = strtoull(s.c_str() + p, &e, 10);
    if (e == s.c_str() + p) { ++p; continue; }
    w.push_back(v);
    p = e - s.c_str();
  }
  return w;
}

struct Stats {
  uint64_t evals = 0, discards = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, double> metrics;
  std::vector<std::string> samples;
  std::unordered_set<uint64_t> hashes;
};

void write_stats(const std::string& dir, int worker, const Stats& st, double wall, const std::string& end) {
  std::ofstream f(dir + "/w" + std::to_string(worker) + ".json");
  f << "{\"evaluations\":" << st.evals << ",\"discards\":" << st.discards << ",\"nontrivial\":" << st.nontrivial
    << ",\"wall\":" << wall << ",\"end\":\"" << end << "\",\"labels\":{";
  bool first = true;
  for (auto& l : st.labels) { f << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
  f << "},\"metrics\":{";
  first = true;
  f.precision(8);
  for (auto& l : st.metrics) {
    f << (first ? "" : ",") << "\"" << jesc(l.first) << "\":";
    if (std::isfinite(l.second)) f << l.second; else f << "\"" << l.second << "\"";
    first = false;
  }
  f << "},\"samples\":[";
  first = true;
  for (auto& s : st.samples) { f << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  f << "]}\n";
  std::ofstream h(dir + "/w" + std::to_string(worker) + ".hash", std::ios::binary);
  for (uint64_t x : st.hashes) h.write((const char*)&x, 8);
}

}  // namespace

int run_main(int argc, char** argv, std::vector<Sub> subs, Options opt) {
  g_subs = std::move(subs);
  g_opt = opt;
  FLAGS_minloglevel = 3;
  FLAGS_logtostderr = true;
  std::map<std::string, std::string> a;
  std::string mode = argc > 1 ? argv[1] : "run";
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto get = [&](const char* k, const char* d) { return a.count(k) ? a[k] : std::string(d); };
  std::string out = get("--out", "/tmp"), prop = get("--property", "?");
  if (getenv("PBT_SUB")) {  // development aid: keep only one sub-check
    std::vector<Sub> k;
    for (auto& s : g_subs) if (std::string(s.name) == getenv("PBT_SUB")) k.push_back(s);
    g_subs = k;
  }
  shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (shm == MAP_FAILED) { perror("mmap"); return 3; }
  uint64_t seed = strtoull(get("--seed", "1").c_str(), nullptr, 10);
  int worker = atoi(get("--worker", "0").c_str());
  g_log_path = out + "/log" + std::to_string(worker) + (mode == "replay" ? "r" : "") + ".txt";

  if (mode == "start") return 0;  // only the static initialisation
  if (mode == "replay") {
    auto w = read_words(get("--file", ""));
    Outcome o = attempt(w);
    for (int i = 1; i < g_opt.tries && o.status != 2; ++i) o = attempt(w);
    printf("%s\n%s\n%s\n%s\n", o.status == 2 ? "FAIL" : o.status == 3 ? "DISCARD" : "PASS", o.tag.c_str(), o.msg.c_str(), o.desc.c_str());
    return o.status == 2 ? 1 : 0;
  }

  uint64_t n_cases = strtoull(get("--cases", "1000").c_str(), nullptr, 10);
  double seconds = atof(get("--seconds", "60").c_str());
  std::ofstream(out + "/w" + std::to_string(worker) + ".json") << "{\"end\":\"died\"}";

  pid_t pid = fork();
  if (pid == 0) {
    child_setup();
    Stats st;
    double t0 = now_s();
    std::string end = "count";
    for (uint64_t i = 0; i < n_cases; ++i) {
      if (now_s() - t0 > seconds) { end = "time"; break; }
      Ctx c;
      c.metrics = &st.metrics;
      c.s.rng = mix(seed, worker, i);
      shm->case_idx = i;
      int r = run_case(c);
      if (r == 3) { st.discards++; continue; }
      st.evals++;
      for (auto& l : c.labels) st.labels[l]++;
      if (c.nontrivial_) {
        st.nontrivial++;
        st.hashes.insert(c.s.hash);
        if (st.samples.size() < 4 || (st.samples.size() < 8 && i % 97 == 0)) {
          std::string d = c.desc.str();
          if (d.size() > 600) d = d.substr(0, 600) + "...";
          st.samples.push_back(d);
        }
      }
      if (r == 2) { write_stats(out, worker, st, now_s() - t0, "fail"); _exit(77); }
    }
    // Everything up to here (including destructors that run at exit) is over before the verdict.
    write_stats(out, worker, st, now_s() - t0, end);
    shm->status = 1;
    _exit(0);
  }
  int wst = 0;
  bool hung = wait_child(pid, &wst);
  if (!hung && WIFEXITED(wst) && WEXITSTATUS(wst) == 0) return 0;
  if (!(WIFEXITED(wst) && WEXITSTATUS(wst) == 77 && shm->status == 2)) crash_outcome(wst, hung);
  Outcome o = collect();
  std::string tag = o.tag;
  std::vector<uint64_t> w = o.words;
  // Regenerate the full word list for cases that crashed: recorded words are the consumed prefix,
  // which is all that mattered.
  fprintf(stderr, "worker %d: candidate failure tag=%s after case %" PRIu64 ": %.600s\n", worker, tag.c_str(), (uint64_t)shm->case_idx, o.msg.c_str());
  int confirmed = 0;
  Outcome last = o;
  for (int i = 0; i < std::max(g_opt.confirm, g_opt.tries) && confirmed < g_opt.confirm; ++i) {
    Outcome r = attempt(w);
    if (r.status == 2) { ++confirmed; last = r; if (i == 0) tag = r.tag; }
  }
  if (confirmed < g_opt.confirm) {
    write_replay(out + "/flaky" + std::to_string(worker) + ".json", prop, o, w, argv[0]);
    fprintf(stderr, "worker %d: NOT CONFIRMED (%d/%d replays failed)\n", worker, confirmed, g_opt.confirm);
    return 4;
  }
  Outcome best = last;
  std::vector<uint64_t> sw = w;
  if (hung || tag == "hang") g_opt.shrink_attempts = 0;
  sw = shrink(w, last.tag, &best);
  confirmed = 0;
  for (int i = 0; i < std::max(g_opt.confirm, g_opt.tries) && confirmed < g_opt.confirm; ++i) {
    Outcome r = attempt(sw);
    if (r.status == 2) { ++confirmed; best = r; }
  }
  if (confirmed < g_opt.confirm) { sw = w; best = last; }
  write_replay(out + "/fail" + std::to_string(worker) + ".json", prop, best, sw, argv[0]);
  return 1;
}

[[noreturn]] void die(const std::string& tag, const std::string& msg) {
  copystr(shm->tag, sizeof shm->tag, tag);
  copystr(shm->msg, sizeof shm->msg, msg);
  save_desc();
  shm->status = 2;
  _exit(77);
}

void fuzz_one(const uint8_t* data, size_t size, std::vector<Sub>& subs) {
  static Shared* local = nullptr;
  if (!local) { local = (Shared*)calloc(1, sizeof(Shared)); FLAGS_minloglevel = 3; FLAGS_logtostderr = true; }
  Ctx c;
  c.s.bytes = data;
  c.s.n_bytes = size;
  c.s.random = false;
  try {
    int total = 0;
    for (auto& s : subs) total += s.weight;
    uint64_t w = c.s.below(total);
    size_t i = 0;
    while (w >= (uint64_t)subs[i].weight) w -= subs[i++].weight;
    subs[i].fn(c);
  } catch (Discard&) {
  } catch (Fail& f) {
    fprintf(stderr, "PBT-FAIL tag=%s %s\ncase: %s\n", f.tag.c_str(), f.msg.c_str(), c.desc.str().c_str());
    abort();
  }
}

}  // namespace pbt
