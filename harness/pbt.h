// Small choice-sequence property-based-testing engine.
//
// A case is a function of a tape of bounded integers.  Generation draws the
// integers from a seeded generator and records them; replay feeds a recorded
// tape back (values clipped to the bound of the draw, 0 past the end).  The
// shrinker edits the tape (delete chunks, zero, halve, decrement) and keeps an
// edit when the case still fails; every attempt runs in a forked child, so
// crashes, sanitizer aborts and hangs shrink like ordinary failures.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure { std::string key, msg; };
struct Discard {};

static inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}

class Src {
 public:
  std::vector<uint64_t> tape; size_t pos = 0; bool replay = false; std::mt19937_64 rng;
  void start_random(uint64_t seed) { tape.clear(); pos = 0; replay = false; rng.seed(seed); }
  void start_replay(const std::vector<uint64_t>& t) { tape = t; pos = 0; replay = true; }
  uint64_t raw(uint64_t n) {            // uniform in [0, n)
    if (n <= 1) n = 1;
    if (replay) {
      uint64_t v = pos < tape.size() ? tape[pos] : 0; pos++;
      return v < n ? v : n - 1;
    }
    uint64_t v = n == 1 ? 0 : rng() % n;
    tape.push_back(v); pos++;
    return v;
  }
  int range(int lo, int hi) { return lo + (int)raw((uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return (int)raw(den) >= den - num; }   // 0 on the tape = false
  double unit() { return (double)raw(1ULL << 30) / (double)(1ULL << 30); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[raw(v.size())]; }
  // a "plain" real number: small integers, halves, or a spread-out value
  double num(double scale = 3) {
    switch (raw(4)) {
      case 0: return (double)range(0, 6) - 3;
      case 1: return ((double)range(0, 24) - 12) / 4.;
      case 2: return (unit() - 0.5) * 2 * scale;
      default: { double u = unit() + 1e-12, v = unit(); return scale * 0.5 * std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v); }
    }
  }
  // continuous value, approximately N(0, sd)
  double normal(double sd = 1) { double u = 1 - unit(), v = unit(); return sd * std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v); }
  uint32_t seed32() { return (uint32_t)raw(1u << 30) + 1; }
};

struct Ctx {
  bool nontrivial = false; bool describe = false; std::ostringstream desc; std::map<std::string, long> counts;
  void fail(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }
  void check(bool ok, const std::string& key, const std::string& msg) { if (!ok) fail(key, msg); }
  void count(const std::string& k, long n = 1) { counts[k] += n; }
};

#define PBT_CHECK(c, cond, key, msg) do { if (!(cond)) { std::ostringstream pbt_os; pbt_os << msg; (c).fail(key, pbt_os.str()); } } while (0)

typedef std::function<void(Src&, Ctx&)> Prop;
struct Entry { std::string name, rule; Prop fn; int case_timeout; };
inline std::vector<Entry>& registry() { static std::vector<Entry> r; return r; }
struct Reg { Reg(const char* n, const char* rule, Prop f, int to = 40) { registry().push_back({n, rule, f, to}); } };

// thorough tier scales sizes through this
inline int& tier() { static int t = 0; return t; }

static Src* g_src = nullptr; static char g_tape_path[512] = "";
static void dump_tape() {
  if (!g_src || !g_tape_path[0]) return;
  int fd = open(g_tape_path, O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd < 0) return;
  char b[32];
  for (size_t i = 0; i < g_src->tape.size(); i++) { int n = snprintf(b, sizeof b, "%llu\n", (unsigned long long)g_src->tape[i]); if (write(fd, b, n) < 0) break; }
  close(fd);
}
static void on_signal(int s) { dump_tape(); _exit(s == SIGALRM ? 77 : 78); }
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

static inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Outcome { int kind = 0; std::string key, msg, desc; };  // 0 ok, 1 failure, 2 crash, 3 hang, 4 discard

static Outcome run_case(const Entry& e, Src& s, Ctx& c) {
  Outcome o;
  try { e.fn(s, c); }
  catch (Failure& f) { o.kind = 1; o.key = f.key; o.msg = f.msg; }
  catch (Discard&) { o.kind = 4; }
  catch (std::exception& x) { o.kind = 1; o.key = "exception"; o.msg = std::string("unexpected exception: ") + x.what(); }
  o.desc = c.desc.str();
  return o;
}

static Outcome run_forked(const Entry& e, const std::vector<uint64_t>& tape, bool describe = false) {
  int fd[2]; if (pipe(fd)) return {};
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
    g_tape_path[0] = 0; alarm(e.case_timeout);
    Src s; s.start_replay(tape); Ctx c; c.describe = describe;
    Outcome o = run_case(e, s, c);
    std::string out = std::to_string(o.kind) + "\n" + o.key + "\n" + o.msg + "\x01" + o.desc;
    size_t off = 0; while (off < out.size()) { ssize_t k = write(fd[1], out.data() + off, out.size() - off); if (k <= 0) break; off += k; }
    _exit(0);
  }
  close(fd[1]); std::string in; char b[4096]; ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) in.append(b, k);
  close(fd[0]); int st = 0; waitpid(p, &st, 0);
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    size_t a = in.find('\n'), d = in.find('\n', a + 1), x = in.find('\x01');
    if (a == std::string::npos || d == std::string::npos || x == std::string::npos) { o.kind = 2; o.key = "crash"; return o; }
    o.kind = atoi(in.substr(0, a).c_str()); o.key = in.substr(a + 1, d - a - 1); o.msg = in.substr(d + 1, x - d - 1); o.desc = in.substr(x + 1);
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { o.kind = 3; o.key = "hang"; o.msg = "case did not finish"; }
  else { o.kind = 2; o.key = "crash"; o.msg = "process died (signal, sanitizer report or abort)"; }
  return o;
}

static bool same_failure(const Outcome& a, const Outcome& b) {
  return (b.kind >= 1 && b.kind <= 3) && a.key == b.key;
}

static void shrink(const Entry& e, std::vector<uint64_t>& t, Outcome& best, double secs) {
  auto t0 = std::chrono::steady_clock::now();
  auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; };
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (cand == t) return false;
    Outcome o = run_forked(e, cand);
    if (same_failure(best, o)) { t = cand; best = o; return true; }
    return false;
  };
  if (best.kind == 3) secs = std::min(secs, 1.0);
  bool again = true;
  while (again && left()) {
    again = false;
    for (size_t len = std::max<size_t>(1, t.size() / 2); len >= 1 && left(); len /= 2) {
      for (size_t i = 0; i + len <= t.size() && left();) {
        std::vector<uint64_t> c(t); c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) again = true; else i += std::max<size_t>(1, len / 2);
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < t.size() && left(); i++) {
      if (!t[i]) continue;
      std::vector<uint64_t> c(t); c[i] = 0; if (attempt(c)) { again = true; continue; }
      for (uint64_t step = t[i] / 2; step >= 1 && left(); step /= 2) {
        while (i < t.size() && t[i] >= step) { c = t; c[i] -= step; if (attempt(c)) again = true; else break; }
      }
    }
  }
}

static std::vector<uint64_t> read_tape(const std::string& path) {
  std::ifstream f(path); std::vector<uint64_t> t; std::string line;
  while (std::getline(f, line)) { if (line.empty() || line[0] == '#') continue; t.push_back(strtoull(line.c_str(), nullptr, 10)); }
  return t;
}
static void write_tape(const std::string& path, const std::vector<uint64_t>& t, const std::string& head) {
  std::ofstream f(path); std::istringstream h(head); std::string l;
  while (std::getline(h, l)) f << "# " << l << "\n";
  for (auto v : t) f << v << "\n";
}

static int main_impl(int argc, char** argv) {
  std::string prop, out, tapefile, mode = "run", hashes; uint64_t seed = 1; int worker = 0; double secs = 5, shrink_secs = 25; long maxc = 1L << 60;
  std::set<std::string> known;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--worker") worker = atoi(nx().c_str()); else if (a == "--secs") secs = atof(nx().c_str());
    else if (a == "--max") maxc = atol(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--hashes") hashes = nx();
    else if (a == "--tape") tapefile = nx(); else if (a == "--mode") mode = nx(); else if (a == "--tier") tier() = atoi(nx().c_str());
    else if (a == "--shrink-secs") shrink_secs = atof(nx().c_str());
    else if (a == "--known") { std::istringstream is(nx()); std::string k; while (std::getline(is, k, ',')) known.insert(k); }
  }
  const Entry* e = nullptr; for (auto& r : registry()) if (r.name == prop) e = &r;
  if (!e) { fprintf(stderr, "no such property\n"); return 4; }
  std::ofstream of(out.empty() ? "/dev/stdout" : out);
  if (mode == "replay" || mode == "shrink") {
    auto t = read_tape(tapefile); Outcome o = run_forked(*e, t);
    if (mode == "shrink" && o.kind >= 1 && o.kind <= 3) { shrink(*e, t, o, shrink_secs); write_tape(tapefile + ".min", t, ""); }
    Outcome d = run_forked(*e, t, true);
    of << "{\"kind\":" << o.kind << ",\"key\":" << jstr(o.key) << ",\"msg\":" << jstr(o.msg) << ",\"desc\":" << jstr(d.desc) << "}\n";
    return o.kind >= 1 && o.kind <= 3 ? 1 : 0;
  }
  snprintf(g_tape_path, sizeof g_tape_path, "%s", tapefile.c_str());
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_signal);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(dump_tape);
#endif
  auto t0 = std::chrono::steady_clock::now(); long n = 0, discarded = 0; std::unordered_set<uint64_t> seen; std::vector<std::string> samples;
  std::map<std::string, long> counts, knownhits; std::map<std::string, std::string> knownmsg; Outcome bad; std::vector<uint64_t> badtape;
  Src s; g_src = &s;
  auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  for (; n < maxc && el() < secs; n++) {
    s.start_random(mix(seed * 1000003ULL + worker) ^ mix((uint64_t)n * 7919 + 13));
    Ctx c; c.describe = samples.size() < 4;
    alarm(e->case_timeout); Outcome o = run_case(*e, s, c); alarm(0);
    for (auto& k : c.counts) counts[k.first] += k.second;
    if (o.kind == 4) { discarded++; continue; }
    if (o.kind == 1) {
      if (known.count(o.key)) { knownhits[o.key]++; knownmsg[o.key] = o.msg; continue; }
      bad = o; badtape = s.tape; n++; break;
    }
    if (c.nontrivial) {
      uint64_t h = 1469598103934665603ULL; for (auto v : s.tape) h = mix(h ^ v);
      if (seen.insert(h).second && samples.size() < 4 && !o.desc.empty()) samples.push_back(o.desc.substr(0, 600));
    }
  }
  alarm(0);
  if (!hashes.empty()) { FILE* f = fopen(hashes.c_str(), "wb"); for (auto h : seen) fwrite(&h, 8, 1, f); fclose(f); }
  std::string desc;
  if (bad.kind) {
    signal(SIGALRM, SIG_DFL); signal(SIGALRM, on_signal);
    Outcome r = run_forked(*e, badtape);
    if (same_failure(bad, r)) { bad = r; shrink(*e, badtape, bad, shrink_secs); }
    desc = run_forked(*e, badtape, true).desc;
    write_tape(tapefile, badtape, "");
  }
  of << "{\"evaluations\":" << n << ",\"discarded\":" << discarded << ",\"distinct\":" << seen.size() << ",\"rule\":" << jstr(e->rule) << ",\"counts\":{";
  bool first = true; for (auto& k : counts) { of << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
  of << "},\"known\":{"; first = true; for (auto& k : knownhits) { of << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
  of << "},\"samples\":["; first = true; for (auto& k : samples) { of << (first ? "" : ",") << jstr(k); first = false; }
  of << "]";
  if (bad.kind) of << ",\"failure\":{\"kind\":" << bad.kind << ",\"key\":" << jstr(bad.key) << ",\"msg\":" << jstr(bad.msg) << ",\"desc\":" << jstr(desc) << "}";
  of << "}\n";
  return bad.kind ? 1 : 0;
}
}  // namespace pbt
#define PBT_MAIN int main(int argc, char** argv) { return pbt::main_impl(argc, argv); }
