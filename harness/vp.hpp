// Case runner, PRNG, reporting protocol shared by every monitor.
#pragma once
#include <sys/prctl.h>
#include <signal.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <functional>
#include <algorithm>
#include <mutex>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vp {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { u64(); u64(); }
  uint64_t u64() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(u64() % n) : 0; }
  int irange(int a, int b) { return a + (int)below((uint32_t)(b - a + 1)); }   // inclusive
  double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double range(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
  double pick(std::initializer_list<double> l) { return *(l.begin() + below((uint32_t)l.size())); }
  double logrange(double a, double b) { return std::exp(range(std::log(a), std::log(b))); }
};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
  return h;
}
inline uint64_t mixh(uint64_t a, uint64_t b) { uint64_t x[2] = {a, b}; return fnv(x, 16); }

struct Opt {
  uint64_t seed = 1; long from = 0, to = 1; std::string out, prog, tier = "quick", mode; bool verbose = false;
  bool thorough() const { return tier == "thorough"; }
};
inline Opt &opt() { static Opt o; return o; }

struct Progress { volatile int64_t cur; volatile uint64_t beats; char desc[8000]; };
inline Progress *&progress() { static Progress *p = nullptr; return p; }

struct Global {
  FILE *f = nullptr;
  uint64_t evals = 0;
  std::unordered_set<uint64_t> sigs;
  std::map<std::string, uint64_t> counters;
  int samples = 0; int viols = 0;
  std::mutex mu;
};
inline Global &G() { static Global *g = new Global; return *g; }

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
inline std::string vfmt(const char *f, va_list ap) {
  char b[4096]; vsnprintf(b, sizeof b, f, ap); return b;
}
inline std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

// harness failure: neither held nor violated
[[noreturn]] inline void harness_error(const char *f, ...) {
  va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
  if (G().f) { fprintf(G().f, "{\"t\":\"error\",\"msg\":\"%s\"}\n", jesc(s).c_str()); fflush(G().f); }
  fprintf(stderr, "HARNESS-ERROR %s\n", s.c_str());
  _exit(3);
}

struct Case {
  long idx = 0; std::string d;
  Rng rng{1};
  void beat() { if (progress()) progress()->beats = progress()->beats + 1; }
  void desc(const char *f, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    d += s; d += '\n';
    if (d.size() > 60000) d.erase(1000, d.size() - 50000);
    Progress *p = progress();
    if (p) {
      size_t n = d.size(); const char *src = d.c_str();
      if (n < sizeof p->desc) memcpy(p->desc, src, n + 1);
      else { memcpy(p->desc, src, 1500); memcpy(p->desc + 1500, "\n...\n", 5);
             size_t m = sizeof p->desc - 1506; memcpy(p->desc + 1505, src + n - m, m + 1); }
      p->beats = p->beats + 1;
    }
    if (opt().verbose) fprintf(stderr, "[case %ld] %s\n", idx, s.c_str());
  }
  int nv = 0;
  void viol(const char *key, const char *f, ...) __attribute__((format(printf, 3, 4))) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    nv++;
    std::lock_guard<std::mutex> l(G().mu);
    if (nv > 3 || G().viols++ > 40) return;
    std::string dd = d.size() > 6000 ? d.substr(0, 2000) + "\n...\n" + d.substr(d.size() - 4000) : d;
    fprintf(G().f, "{\"t\":\"viol\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\"}\n", idx, jesc(key).c_str(),
            jesc(s).c_str(), jesc(dd).c_str());
    fflush(G().f);
    if (opt().verbose) fprintf(stderr, "VIOL %s: %s\n", key, s.c_str());
  }
  bool bad() const { return nv > 0; }
  void evals(uint64_t n = 1) { G().evals += n; }
  void sig(uint64_t h) { if (G().sigs.size() < 400000) G().sigs.insert(h); }
  void count(const char *name, uint64_t n = 1) { G().counters[name] += n; }
  void sample(const char *f, ...) __attribute__((format(printf, 2, 3))) {
    if (G().samples >= 3) return;
    G().samples++;
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    fprintf(G().f, "{\"t\":\"sample\",\"case\":%ld,\"text\":\"%s\"}\n", idx, jesc(s).c_str());
  }
};

typedef std::function<void(Case &)> CaseFn;

inline int run(int argc, char **argv, const char *prop, CaseFn fn) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);     // never outlive the script that started us
  Opt &o = opt();
  o.prog = argv[0];
  std::string prog;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() -> const char * { if (i + 1 >= argc) harness_error("missing arg"); return argv[++i]; };
    if (a == "--seed") o.seed = strtoull(nxt(), 0, 10);
    else if (a == "--from") o.from = atol(nxt());
    else if (a == "--to") o.to = atol(nxt());
    else if (a == "--out") o.out = nxt();
    else if (a == "--tier") o.tier = nxt();
    else if (a == "--progress") prog = nxt();
    else if (a == "--mode") o.mode = nxt();
    else if (a == "-v") o.verbose = true;
  }
  G().f = o.out.empty() ? stdout : fopen(o.out.c_str(), "a");
  if (!G().f) return 3;
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Progress))) return 3;
    progress() = (Progress *)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (progress() == MAP_FAILED) return 3;
    close(fd);
  }
  for (long i = o.from; i < o.to; i++) {
    Case c; c.idx = i;
    uint64_t h = fnv(prop, strlen(prop));
    c.rng = Rng(mixh(mixh(h, o.seed), (uint64_t)i));
    if (progress()) { progress()->desc[0] = 0; progress()->beats = progress()->beats + 1; progress()->cur = i; }
    fn(c);
  }
  if (progress()) progress()->cur = -2;
  fprintf(G().f, "{\"t\":\"stat\",\"evals\":%llu,\"counters\":{", (unsigned long long)G().evals);
  bool first = true;
  for (auto &k : G().counters) { fprintf(G().f, "%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; }
  fprintf(G().f, "},\"sigs\":[");
  first = true;
  for (auto h : G().sigs) { fprintf(G().f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
  fprintf(G().f, "]}\n");
  fflush(G().f);
  return 0;
}
}  // namespace vp
#define VP_MAIN(prop, fn) int main(int argc, char **argv) { return vp::run(argc, argv, prop, fn); }
