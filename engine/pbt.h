// Choice-sequence property-based testing engine.
// A test case is a function of a finite sequence of bounded integer choices drawn from G. The sequence is recorded, so any
// failing case can be shrunk (delete / zero / lower choices, keep if it still fails) and replayed byte for byte, and the same
// decoder can be fed by a PRNG (main search) or by libFuzzer (coverage-guided search).
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Fail {
  std::string key;   // stable name of the broken clause (for the known-findings list)
  std::string msg;
};
struct Discard {};   // the generated case does not meet the property's precondition
struct KnownHit { std::string key; };

inline std::set<std::string>& knownKeys() { static std::set<std::string> k; return k; }

[[noreturn]] inline void fail(const std::string& key, const std::string& msg) {
  if (knownKeys().count(key)) throw KnownHit{key};
  throw Fail{key, msg};
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// REQUIRE(clause, condition, stream-expression)
#define REQUIRE(key, cond, msg)                                         \
  do {                                                                  \
    if (!(cond)) {                                                      \
      std::ostringstream os__;                                          \
      os__ << std::setprecision(17) << msg << "   [violated: " #cond "]"; \
      ::pbt::fail(key, os__.str());                                     \
    }                                                                   \
  } while (0)

inline std::string str(double v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }

struct Rng {   // splitmix64
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x1234567); r.next(); return r.next() ^ b; }

class G {
 public:
  enum Mode { RANDOM, REPLAY, BYTES };
  Mode mode;
  Rng rng{0};
  std::vector<uint64_t> rec;         // recorded choices
  const std::vector<uint64_t>* in = nullptr;
  const uint8_t* bytes = nullptr;
  size_t nbytes = 0, bpos = 0;
  size_t pos = 0;
  int size = 50;                     // growth parameter 1..100 (first choice of the case when random)
  bool isNontrivial = false;
  bool wantNote = false;
  std::ostringstream notes;
  std::map<std::string, int> labels;
  uint64_t extraHash = 0;

  explicit G(uint64_t seed) : mode(RANDOM), rng(seed) { rec.reserve(256); }
  explicit G(const std::vector<uint64_t>* c) : mode(REPLAY), in(c) {}
  G(const uint8_t* d, size_t n) : mode(BYTES), bytes(d), nbytes(n) {}

  // uniform in [0, n]  (n inclusive); 0 is always the simplest value
  uint64_t draw(uint64_t n) {
    uint64_t v = 0;
    if (mode == RANDOM) {
      v = n == UINT64_MAX ? rng.next() : rng.next() % (n + 1);
    } else if (mode == REPLAY) {
      v = pos < in->size() ? (*in)[pos] : 0;
      if (n != UINT64_MAX) v = v > n ? v % (n + 1) : v;
    } else {
      int w = n < 256 ? 1 : n < 65536 ? 2 : n <= 0xffffffffull ? 4 : 8;
      for (int i = 0; i < w; i++) v = (v << 8) | (bpos < nbytes ? bytes[bpos++] : 0);
      if (n != UINT64_MAX) v %= (n + 1);
    }
    pos++;
    rec.push_back(v);
    return v;
  }
  long long range(long long lo, long long hi) { return lo + (long long)draw((uint64_t)(hi - lo)); }
  // biased to small values
  int small(int hi) {
    uint64_t m = draw(3);
    if (m == 0) return (int)draw(std::min(hi, 2));
    if (m == 1) return (int)draw(std::min(hi, 5));
    return (int)draw(hi);
  }
  // usually at most hi, now and then (one in den) up to big
  int sized(int hi, int big, int den = 50) { return chance(1, den) ? hi + (int)draw(big - hi) : small(hi); }
  bool boolean() { return draw(1) == 1; }
  // true with probability num/den; shrinks to false
  bool chance(int num, int den) { return (int)draw(den - 1) >= den - num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
  template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
  // real in [lo, hi]: coarse grid, fine grid or full resolution
  double real(double lo, double hi) {
    uint64_t m = draw(3);
    if (m == 0) return lo + (hi - lo) * (double)draw(8) / 8.0;
    if (m == 1) return lo + (hi - lo) * (double)draw(1000) / 1000.0;
    return lo + (hi - lo) * ((double)draw(0xffffffffull) / 4294967295.0);
  }
  // always generic (no grid): for general-position inputs
  double uniform(double lo, double hi) { return lo + (hi - lo) * ((double)draw(0xffffffffffffull) / (double)0xffffffffffffull); }
  double normal() {
    double s = 0;
    for (int i = 0; i < 6; i++) s += uniform(-1, 1);
    return s / std::sqrt(2.0);
  }
  // index according to integer weights
  int weighted(std::initializer_list<int> w) {
    int t = 0;
    for (int x : w) t += x;
    int r = (int)draw(t - 1), i = 0;
    for (int x : w) { if (r < x) return i; r -= x; i++; }
    return 0;
  }
  std::vector<int> permutation(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    for (int i = n - 1; i > 0; i--) { int j = i - (int)draw(i); std::swap(p[i], p[j]); }   // all-zero choices: identity
    return p;
  }
  void nontrivial(bool b = true) { isNontrivial = isNontrivial || b; }
  void label(const std::string& s, bool b = true) { if (b) labels[s]++; }
  void discard() { throw Discard(); }
};

#define NOTE(g, x) do { if ((g).wantNote) { (g).notes << std::setprecision(10) << x << "\n"; } } while (0)

struct Sub {
  std::string name;
  std::function<void(G&)> fn;
  int quick;        // cases in the quick tier (over all workers)
  int thorough;
};

struct Stats {
  uint64_t cases = 0, nontrivial = 0, discarded = 0;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> known;
  std::map<std::string, std::string> knownSample;
};

inline uint64_t hashChoices(const std::vector<uint64_t>& c) {
  uint64_t h = 1469598103934665603ull;
  for (uint64_t v : c) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; }
  return h;
}

// ------------------------------------------------------------------ crash capture
struct CrashCtx { G* g = nullptr; const char* sub = ""; char path[4096] = ""; };
// the cases this process ran before the current one: what the code kept from them may matter
struct Before { const char* sub; uint64_t seed; };
inline std::vector<Before>& before() { static std::vector<Before> b; return b; }
inline CrashCtx& crashCtx() { static CrashCtx c; return c; }
inline void dumpCrash() {
  CrashCtx& c = crashCtx();
  if (!c.g || !c.path[0]) return;
  int fd = open(c.path, O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd < 0) return;
  char buf[64];
  auto w = [&](const char* s, size_t n) { ssize_t r = write(fd, s, n); (void)r; };
  w("sub=", 4); w(c.sub, strlen(c.sub)); w("\nchoices=", 9);
  for (uint64_t v : c.g->rec) { int n = snprintf(buf, sizeof buf, "%llu ", (unsigned long long)v); w(buf, n); }
  w("\n", 1);
  close(fd);
  char hist[4200]; snprintf(hist, sizeof hist, "%s.hist", c.path);
  fd = open(hist, O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd >= 0) {
    for (auto& b : before()) { int n = snprintf(buf, sizeof buf, "before=%llu ", (unsigned long long)b.seed); w(buf, n); w(b.sub, strlen(b.sub)); w("\n", 1); }
    w("sub=", 4); w(c.sub, strlen(c.sub)); w("\nchoices=", 9);
    for (uint64_t v : c.g->rec) { int n = snprintf(buf, sizeof buf, "%llu ", (unsigned long long)v); w(buf, n); }
    w("\n", 1);
    close(fd);
  }
  c.g = nullptr;
}
inline void onSignal(int sig) {
  dumpCrash();
  const char* m = sig == SIGALRM || sig == SIGPROF ? "HANG: case exceeded its time limit\n" : "FATAL SIGNAL\n";
  ssize_t r = write(2, m, strlen(m)); (void)r;
  _exit(sig == SIGALRM || sig == SIGPROF ? 78 : 77);
}
}  // namespace pbt
extern "C" void __sanitizer_set_death_callback(void (*cb)(void)) __attribute__((weak));
namespace pbt {

enum Outcome { PASS, FAILED, DISCARDED, KNOWN };
struct Result { Outcome o = PASS; Fail f; };

// a case that uses this many seconds of processor time hangs (six times as much on the wall clock: a busy machine is no hang)
inline void caseTimer(unsigned s) { itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr); alarm(6 * s); }
inline unsigned& caseTimeout() { static unsigned t = 20; return t; }

inline Result runOne(const Sub& s, G& g) {
  Result r;
  crashCtx().g = &g;
  crashCtx().sub = s.name.c_str();
  caseTimer(caseTimeout());
  try {
    s.fn(g);
  } catch (const Discard&) {
    r.o = DISCARDED;
  } catch (const KnownHit& k) {
    r.o = KNOWN; r.f.key = k.key;
  } catch (const Fail& f) {
    r.o = FAILED; r.f = f;
  } catch (const std::exception& e) {
    if (knownKeys().count("exception")) { r.o = KNOWN; r.f.key = "exception"; }
    else { r.o = FAILED; r.f = Fail{"exception", std::string("unexpected exception: ") + e.what()}; }
  }
  caseTimer(0);
  crashCtx().g = nullptr;
  return r;
}

inline std::vector<uint64_t> shrink(const Sub& s, std::vector<uint64_t> best, const std::string& key, double budget_s) {
  auto t0 = std::chrono::steady_clock::now();
  auto timeUp = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s; };
  auto still = [&](const std::vector<uint64_t>& c, std::vector<uint64_t>& out) {
    G g(&c);
    Result r = runOne(s, g);
    if (r.o == FAILED && r.f.key == key) { out = g.rec; return true; }
    return false;
  };
  auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  bool progress = true;
  std::vector<uint64_t> out;
  while (progress && !timeUp()) {
    progress = false;
    for (size_t k = std::min<size_t>(64, best.size()); k >= 1 && !timeUp(); k = k > 4 ? k / 2 : k - 1) {
      for (size_t i = best.size(); i-- > 0 && !timeUp();) {
        if (i + k > best.size()) continue;
        std::vector<uint64_t> c(best);
        c.erase(c.begin() + i, c.begin() + i + k);
        if (still(c, out) && better(out, best)) { best = out; progress = true; }
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < best.size() && !timeUp(); i++) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> c(best);
      c[i] = 0;
      if (still(c, out) && better(out, best)) { best = out; progress = true; continue; }
      uint64_t lo = 0, hi = best[i];
      while (hi - lo > 1 && !timeUp()) {
        uint64_t m = lo + (hi - lo) / 2;
        c = best;
        if (i >= c.size()) break;
        c[i] = m;
        if (still(c, out) && better(out, best)) { best = out; hi = m; progress = true; if (i >= best.size()) break; }
        else lo = m;
      }
    }
  }
  return best;
}

inline void writeReplay(const std::string& path, const Sub& s, const std::vector<uint64_t>& choices, const Fail& f, const std::string& notes) {
  std::ofstream o(path);
  o << "sub=" << s.name << "\nkey=" << f.key << "\nchoices=";
  for (uint64_t v : choices) o << v << " ";
  o << "\n--- failure ---\n" << f.msg << "\n--- case ---\n" << notes << "\n";
}

inline std::string jsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

// exit codes: 0 held, 1 failure found (replay written), 77 crash (choices dumped), 78 hang
inline int runMain(int argc, char** argv, const std::vector<Sub>& subs) {
  uint64_t seed = 1; int worker = 0, workers = 1; std::string tier = "quick", out, replayOut, replayIn, only;
  double cap = 60; double scale = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(val());
    else if (a == "--worker") { std::string v = val(); worker = std::stoi(v); workers = std::stoi(v.substr(v.find('/') + 1)); }
    else if (a == "--tier") tier = val();
    else if (a == "--out") out = val();
    else if (a == "--replay-out") replayOut = val();
    else if (a == "--replay") replayIn = val();
    else if (a == "--cap") cap = std::stod(val());
    else if (a == "--scale") scale = std::stod(val());
    else if (a == "--only") only = val();
    else if (a == "--case-timeout") caseTimeout() = std::stoi(val());
    else if (a == "--known") { std::stringstream ss(val()); std::string k; while (std::getline(ss, k, ',')) if (!k.empty()) knownKeys().insert(k); }
  }
  if (!replayOut.empty()) snprintf(crashCtx().path, sizeof crashCtx().path, "%s", (replayOut + ".crash").c_str());
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dumpCrash);
  signal(SIGALRM, onSignal); signal(SIGPROF, onSignal);
  signal(SIGABRT, onSignal);

  if (!replayIn.empty()) {
    std::ifstream f(replayIn);
    std::string line, sub; std::vector<uint64_t> ch;
    while (std::getline(f, line)) {
      if (line.rfind("before=", 0) == 0) {   // a case whose traces in the process matter
        std::stringstream ss(line.substr(7)); uint64_t cs; std::string n; ss >> cs >> n;
        for (const Sub& s : subs) if (s.name == n) { G g(cs); runOne(s, g); }
      }
      if (line.rfind("sub=", 0) == 0) sub = line.substr(4);
      if (line.rfind("choices=", 0) == 0) { std::stringstream ss(line.substr(8)); uint64_t v; while (ss >> v) ch.push_back(v); break; }
    }
    for (const Sub& s : subs) {
      if (s.name != sub) continue;
      G g(&ch);
      g.wantNote = true;
      Result r = runOne(s, g);
      if (r.o == FAILED) {
        std::cout << "REPRODUCED sub=" << s.name << " key=" << r.f.key << "\n" << r.f.msg << "\n--- case ---\n" << g.notes.str() << std::endl;
        if (!replayOut.empty()) writeReplay(replayOut, s, g.rec, r.f, g.notes.str());
        return 1;
      }
      std::cout << "NOT REPRODUCED outcome=" << r.o << "\n" << g.notes.str() << std::endl;
      return 0;
    }
    std::cout << "unknown sub-property in replay file" << std::endl;
    return 2;
  }

  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  std::map<std::string, Stats> st;
  bool capped = false;
  int rc = 0;
  double total = 0;
  for (const Sub& s : subs) if (only.empty() || s.name == only) total += 1;
  double done = 0;
  for (const Sub& s : subs) {
    if (!only.empty() && s.name != only) continue;
    Stats& S = st[s.name];
    done += 1;
    uint64_t n = (uint64_t)std::ceil((tier == "quick" ? s.quick : s.thorough) * scale / workers);
    double limit = cap * done / total;   // each sub-property gets at least its share of the time cap
    for (uint64_t i = 0; i < n; i++) {
      if (elapsed() > limit) { capped = true; break; }
      uint64_t cs = mix(mix(seed, std::hash<std::string>()(s.name)), i * (uint64_t)workers + worker);
      G g(cs);
      bool sample = S.samples.size() < 2 && (i % 7 == 3);
      g.wantNote = sample;
      Result r = runOne(s, g);
      if (r.o == FAILED && !replayOut.empty()) {
        std::ofstream o(replayOut + ".hist");
        for (auto& b : before()) o << "before=" << b.seed << " " << b.sub << "\n";
        o << "sub=" << s.name << "\nkey=" << r.f.key << "\nchoices="; for (uint64_t v : g.rec) o << v << " "; o << "\n--- failure ---\n" << r.f.msg << "\n";
      }
      before().push_back({s.name.c_str(), cs});
      S.cases++;
      if (r.o == DISCARDED) { S.discarded++; continue; }
      if (r.o == KNOWN) {
        S.known[r.f.key]++;
        continue;
      }
      for (auto& l : g.labels) S.labels[l.first]++;
      if (g.isNontrivial) { S.nontrivial++; if (S.hashes.size() < 2000000) S.hashes.insert(hashChoices(g.rec)); }
      if (sample && g.isNontrivial && r.o == PASS) { std::string t = g.notes.str(); if (t.size() > 1500) t = t.substr(0, 1500) + " ..."; if (!t.empty()) S.samples.push_back(t); }
      if (r.o == FAILED) {
        std::vector<uint64_t> best = g.rec;
        if (!replayOut.empty()) writeReplay(replayOut, s, best, r.f, "(not shrunk: the process ended while shrinking)");
        best = shrink(s, best, r.f.key, 25);
        G gg(&best);
        gg.wantNote = true;
        Result r2 = runOne(s, gg);
        if (r2.o != FAILED) { G g3(&g.rec); g3.wantNote = true; std::vector<uint64_t> orig = g.rec; G g4(&orig); g4.wantNote = true; r2 = runOne(s, g4); if (!replayOut.empty()) writeReplay(replayOut, s, orig, r2.o == FAILED ? r2.f : r.f, g4.notes.str()); }
        else if (!replayOut.empty()) writeReplay(replayOut, s, gg.rec, r2.f, gg.notes.str());
        std::cout << "FAILURE sub=" << s.name << " key=" << r.f.key << " case=" << i << "\n" << (r2.o == FAILED ? r2.f.msg : r.f.msg) << std::endl;
        rc = 1;
        break;
      }
    }
    if (rc) break;
  }
  if (!out.empty()) {
    std::ofstream o(out);
    o << "{\"capped\":" << (capped ? "true" : "false") << ",\"wall\":" << elapsed() << ",\"subs\":{";
    bool first = true;
    for (auto& kv : st) {
      Stats& S = kv.second;
      if (!first) o << ",";
      first = false;
      o << "\"" << kv.first << "\":{\"cases\":" << S.cases << ",\"nontrivial\":" << S.nontrivial << ",\"discarded\":" << S.discarded << ",\"labels\":{";
      bool f2 = true;
      for (auto& l : S.labels) { o << (f2 ? "" : ",") << "\"" << jsonEscape(l.first) << "\":" << l.second; f2 = false; }
      o << "},\"known\":{";
      f2 = true;
      for (auto& l : S.known) { o << (f2 ? "" : ",") << "\"" << jsonEscape(l.first) << "\":" << l.second; f2 = false; }
      o << "},\"samples\":[";
      f2 = true;
      for (auto& l : S.samples) { o << (f2 ? "" : ",") << "\"" << jsonEscape(l) << "\""; f2 = false; }
      o << "],\"distinct\":" << S.hashes.size() << "}";
    }
    o << "}}";
    std::ofstream h(out + ".hashes", std::ios::binary);
    for (auto& kv : st) for (uint64_t v : kv.second.hashes) { uint64_t x = mix(v, std::hash<std::string>()(kv.first)); h.write((const char*)&x, 8); }
  }
  return rc;
}

// a pause at which narrower integers or a clock in other units wrap round
inline long long farGap(G& g) { return g.pick({2147483648LL, 4294967296LL, 2147483LL, 65536000LL, 4294967296000LL, 86400000LL}) + g.pick({0LL, 1LL, 700LL, -1LL, -300LL, 5000LL}); }
inline bool close(double a, double b, double atol, double rtol = 0) {
  if (std::isnan(a) && std::isnan(b)) return true;
  if (a == b) return true;
  return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
}  // namespace pbt

#ifdef PBT_LIBFUZZER
#define PBT_MAIN(SUBS)                                                              \
  extern "C" int LLVMFuzzerInitialize(int*, char***) {                              \
    const char* k = getenv("PBT_KNOWN");                                            \
    if (k) { std::stringstream ss(k); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) pbt::knownKeys().insert(t); } \
    const char* p = getenv("PBT_CRASH");                                            \
    if (p) snprintf(pbt::crashCtx().path, sizeof pbt::crashCtx().path, "%s", p);    \
    return 0;                                                                       \
  }                                                                                 \
  extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {               \
    static std::vector<pbt::Sub> subs = SUBS();                                     \
    if (n < 4) return 0;                                                            \
    const pbt::Sub& s = subs[d[0] % subs.size()];                                   \
    pbt::G g(d + 1, n - 1);                                                         \
    pbt::crashCtx().g = &g; pbt::crashCtx().sub = s.name.c_str();                   \
    try { s.fn(g); }                                                                \
    catch (const pbt::Discard&) {}                                                  \
    catch (const pbt::KnownHit&) {}                                                 \
    catch (const pbt::Fail& f) { fprintf(stderr, "PBT FAIL %s: %s\n", f.key.c_str(), f.msg.c_str()); pbt::dumpCrash(); abort(); } \
    catch (const std::exception& e) { fprintf(stderr, "PBT EXC %s\n", e.what()); pbt::dumpCrash(); abort(); } \
    pbt::crashCtx().g = nullptr;                                                    \
    return 0;                                                                       \
  }
#else
#define PBT_MAIN(SUBS) int main(int argc, char** argv) { return pbt::runMain(argc, argv, SUBS()); }
#endif
