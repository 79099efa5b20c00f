#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <malloc.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=768:hard_rss_limit_mb=3000:"
         "detect_stack_use_after_return=0:handle_abort=1:symbolize=1:print_legend=0:malloc_context_size=8";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; }
extern "C" const char* __tsan_default_options() {
  return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=3:second_deadlock_stack=1:die_after_fork=0";
}

namespace pbt {

uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

static uint64_t strhash(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

std::string hex(std::span<const uint8_t> b, size_t max) {
  static const char t[] = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < b.size() && i < max; i++) { s += t[b[i] >> 4]; s += t[b[i] & 15]; }
  if (b.size() > max) s += "...";
  return s;
}

static constexpr size_t LOGCAP = 1 << 18;
struct Shm {
  volatile uint64_t curCase, evals, nontriv, discards;
  volatile int status;  // 0 running, 1 finished, 2 Fail, 3 hang, 4 unexpected exception
  volatile uint64_t nchoices;
  volatile bool overflow;
  char msg[8192];
  uint64_t log[LOGCAP];
};

static std::vector<Prop*>& registry() { static std::vector<Prop*> r; return r; }
static std::vector<void (*)()>& setups() { static std::vector<void (*)()> r; return r; }
Prop::Prop(const char* n, void (*f)(Gen&), uint64_t q, uint64_t t) : name(n), fn(f), quick(q), thorough(t) { registry().push_back(this); }
static std::vector<void (*)()>& earlies() { static std::vector<void (*)()> r; return r; }
Early::Early(void (*fn)()) { earlies().push_back(fn); }
Setup::Setup(void (*fn)()) { setups().push_back(fn); }
static std::vector<void (*)()>& warmups() { static std::vector<void (*)()> r; return r; }
Warmup::Warmup(void (*fn)()) { warmups().push_back(fn); }

void Gen::begin(uint64_t seed, const std::vector<uint64_t>* rep) {
  rng = seed; replay = rep; walkState = caseIndex; choices.clear(); nontrivial_ = false; notes.clear();
  if (shm) { shm->nchoices = 0; shm->overflow = false; }
}

uint64_t Gen::raw(uint64_t max) {
  uint64_t v;
  if (replay) {
    v = choices.size() < replay->size() ? (*replay)[choices.size()] : 0;
    if (v > max) v = max;
  } else {
    uint64_t r = splitmix(rng);
    v = max == ~0ULL ? r : (uint64_t)(((unsigned __int128)r * ((unsigned __int128)max + 1)) >> 64);
  }
  choices.push_back(v);
  if (shm) {
    uint64_t n = shm->nchoices;
    if (n < LOGCAP) { shm->log[n] = v; shm->nchoices = n + 1; } else shm->overflow = true;
  }
  return v;
}

uint64_t Gen::walk(uint64_t count) {
  if (replay) return raw(count - 1);
  uint64_t v = walkState % count;
  walkState /= count;
  std::vector<uint64_t> one(choices);
  one.push_back(v);
  replay = &one;
  raw(count - 1);
  replay = nullptr;
  return v;
}

size_t Gen::weighted(std::initializer_list<unsigned> w) {
  unsigned total = 0;
  for (auto x : w) total += x;
  uint64_t r = raw(total - 1);
  size_t i = 0;
  for (auto x : w) { if (r < x) return i; r -= x; i++; }
  return 0;
}

uint64_t Gen::edge64() {
  switch (weighted({3, 3, 2, 2, 2, 3})) {
    case 0: return raw(16);
    case 1: return raw(~0ULL);
    case 2: { uint64_t p = 1ULL << raw(63); return p; }
    case 3: { uint64_t p = 1ULL << raw(63); return p - 1; }
    case 4: return ~0ULL - raw(16);
    default: { uint64_t p = raw(63); return raw(p == 63 ? ~0ULL : (2ULL << p) - 1); }
  }
}
uint32_t Gen::edge32() {
  switch (weighted({3, 3, 2, 2, 2, 3})) {
    case 0: return (uint32_t)raw(4);
    case 1: return (uint32_t)raw(0xFFFFFFFFu);
    case 2: return 1u << raw(31);
    case 3: return (1u << raw(31)) - 1;
    case 4: return 0xFFFFFFFFu - (uint32_t)raw(4);
    default: { uint64_t p = raw(31); return (uint32_t)raw((2ULL << p) - 1); }
  }
}

size_t Gen::len(size_t max, size_t unit) {
  size_t r;
  switch (weighted({4, 4, 3})) {
    case 0: r = raw(std::min<size_t>(max, unit + unit / 2)); break;
    case 1: {  // around a multiple of the unit
      size_t k = max / unit ? raw(std::min<size_t>(max / unit, 8)) : 0;
      int64_t d = (int64_t)raw(4) - 2;
      if (chance(1, 3)) d = -(int64_t)raw(unit - 1);
      int64_t v = (int64_t)(k * unit) + d;
      r = v < 0 ? 0 : (size_t)v;
      break;
    }
    default: r = raw(max);
  }
  return std::min(r, max);
}

Bytes Gen::noise(size_t n) {
  uint64_t s = raw(0xFFFFFFFFu);
  Bytes b(n);
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = splitmix(s);
    for (size_t k = 0; k < 8 && i + k < n; k++) b[i + k] = (uint8_t)(v >> (8 * k));
  }
  return b;
}

Bytes Gen::bytes(size_t n) {
  if (n == 0) return {};
  switch (weighted({1, 1, 5, 2, 1, 1})) {
    case 0: return Bytes(n, 0);
    case 1: return Bytes(n, (uint8_t)pick({0xFF, 0x80, 0x01, 0x7F, 0x55, 0xAA, 0x36, 0x5C}));
    case 2: return noise(n);
    case 3:
      if (n <= 64) {
        Bytes b(n);
        for (auto& c : b) c = (uint8_t)raw(255);
        return b;
      }
      return noise(n);
    case 4: { Bytes b(n); uint8_t st = (uint8_t)raw(255); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(st + i); return b; }
    default: {  // sparse: mostly one value, few deviations
      Bytes b(n, coin() ? 0xFF : 0x00);
      size_t k = range(1, 4);
      for (size_t i = 0; i < k; i++) b[raw(n - 1)] = (uint8_t)raw(255);
      return b;
    }
  }
}

std::string Gen::ascii(size_t n, std::string_view alphabet) {
  std::string s;
  for (size_t i = 0; i < n; i++) s += alphabet[raw(alphabet.size() - 1)];
  return s;
}

// ------------------------------------------------------------------------------------------------
enum Kind { OK = 0, FAILED = 1, CRASHED = 2, HUNG = 3, SKIPPED = 4 };
struct Outcome { Kind kind = OK; std::string msg; std::string notes; bool nontrivial = false; std::vector<uint64_t> choices; };

static Shm* g_shm;
static int g_caseCpu = 30, g_caseWall = 200;
static std::string g_tmp;

static void on_prof(int) {
  if (g_shm) g_shm->status = 3;
  _exit(13);
}

static void arm(int secs) {
  struct itimerval it = {};
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, nullptr);
}

// Runs one case in this process. Returns kind OK/FAILED/SKIPPED.
// What a case finds in memory it did not initialise differs from case to case: code that reads it gives itself away.
[[gnu::noinline]] static void scribble(uint64_t index) {
  volatile uint64_t dirt[4 << 10];
  uint64_t r = index;
  r = splitmix(r);
  uint64_t with = index % 3 == 0 ? ~0ull : index % 3 == 1 ? 0 : r;
  for (size_t i = 0; i < sizeof dirt / sizeof *dirt; i++) dirt[i] = with;
  mallopt(M_PERTURB, with ? (int)(r >> 8 & 255) : 0);
}
static Kind run_case(Prop& p, Gen& g, std::string& msg) {
  scribble(g.caseIndex);
  try {
    p.fn(g);
    return OK;
  } catch (Fail& f) {
    msg = f.msg;
    return FAILED;
  } catch (Discard&) {
    return SKIPPED;
  } catch (std::exception& e) {
    msg = std::string("unexpected exception: ") + e.what();
    return FAILED;
  } catch (...) {
    msg = "unexpected non-standard exception";
    return FAILED;
  }
}

static Shm* new_shm() {
  void* m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shm*)m;
}

static void child_prologue(Shm* shm, const std::string& errfile) {
  setpgid(0, 0);
  int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = 64 << 20;
  setrlimit(RLIMIT_FSIZE, &rl);
  signal(SIGXFSZ, SIG_IGN);
  g_shm = shm;
  signal(SIGPROF, on_prof);
}

static std::string tail(const std::string& file, size_t n) {
  std::string s;
  if (FILE* f = fopen(file.c_str(), "rb")) {
    char buf[4096];
    size_t k;
    while ((k = fread(buf, 1, sizeof buf, f)) > 0) { s.append(buf, k); if (s.size() > (4u << 20)) break; }
    fclose(f);
  }
  size_t e = s.find("==ERROR");
  if (e == std::string::npos) e = s.find("WARNING: ThreadSanitizer");
  if (e == std::string::npos) e = s.find("runtime error");
  if (e == std::string::npos) e = s.find("Assertion");
  if (e != std::string::npos) { size_t st = s.rfind('\n', e); s = s.substr(st == std::string::npos ? 0 : st + 1); return s.substr(0, n); }
  return s.size() > n ? s.substr(s.size() - n) : s;
}

// Waits for pid with a wall-clock limit since the last progress of shm->curCase.
static int wait_child(pid_t pid, Shm* shm, int wallLimit, bool& wallHang) {
  using clk = std::chrono::steady_clock;
  auto last = clk::now();
  uint64_t lastCase = shm->curCase, lastEv = shm->evals;
  wallHang = false;
  int st;
  useconds_t nap = 200;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    if (shm->curCase != lastCase || shm->evals != lastEv) { lastCase = shm->curCase; lastEv = shm->evals; last = clk::now(); }
    if (clk::now() - last > std::chrono::seconds(wallLimit)) {
      wallHang = true;
      kill(-pid, SIGKILL); kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return st;
    }
    usleep(nap);
    if (nap < 5000) nap += nap / 2;
  }
}

// Runs one recorded case in a fresh child.
static Outcome run_isolated(Prop& p, const std::vector<uint64_t>& ch, bool verbose) {
  Shm* shm = new_shm();
  std::string err = g_tmp + "/iso.err", nf = g_tmp + "/iso.notes";
  unlink(nf.c_str());
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    child_prologue(shm, err);
    Gen g;
    g.shm = shm;
    g.verbose = verbose;
    g.begin(0, &ch);
    arm(g_caseCpu);
    std::string msg;
    Kind k = run_case(p, g, msg);
    if (verbose) if (FILE* f = fopen(nf.c_str(), "wb")) { fwrite(g.notes.data(), 1, g.notes.size(), f); fclose(f); }
    strncpy(shm->msg, msg.c_str(), sizeof shm->msg - 1);
    shm->nontriv = g.nontrivial_;
    shm->status = k == FAILED ? 2 : 1;
    _exit(k == FAILED ? 10 : k == SKIPPED ? 11 : 0);
  }
  bool wallHang;
  int st = wait_child(pid, shm, g_caseWall, wallHang);
  Outcome o;
  o.choices.assign(shm->log, shm->log + shm->nchoices);
  o.nontrivial = shm->nontriv;
  if (shm->status == 3 || wallHang) { o.kind = HUNG; o.msg = "case did not finish within its time limit"; }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o.kind = OK;
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 11) o.kind = SKIPPED;
  else if (shm->status == 2) { o.kind = FAILED; o.msg = shm->msg; }
  else {
    o.kind = CRASHED;
    std::ostringstream m;
    if (WIFSIGNALED(st)) m << "process killed by signal " << WTERMSIG(st); else m << "process exited with code " << WEXITSTATUS(st);
    m << "\n" << tail(err, 3000);
    o.msg = m.str();
  }
  if (verbose) { if (FILE* f = fopen(nf.c_str(), "rb")) { char b[8192]; size_t n = fread(b, 1, sizeof b, f); o.notes.assign(b, n); fclose(f); } }
  munmap(shm, sizeof(Shm));
  return o;
}

static std::vector<uint64_t> shrink(Prop& p, std::vector<uint64_t> best, Kind want, double budget, uint64_t& tries) {
  auto t0 = std::chrono::steady_clock::now();
  auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget; };
  std::set<uint64_t> seen;
  auto attempt = [&](const std::vector<uint64_t>& c) {
    uint64_t h = 77;
    for (auto v : c) { h ^= v; splitmix(h); h = h * 31 + v; }
    if (!seen.insert(h).second) return false;
    tries++;
    Outcome o = run_isolated(p, c, false);
    if (o.kind != want) return false;
    std::vector<uint64_t> used = o.choices;  // normalised (clamped, unused tail dropped)
    if (used.empty() || used.size() > c.size()) used = c;
    while (!used.empty() && used.back() == 0) used.pop_back();
    // strictly smaller in (length, lexicographic sum) order, or equal
    best = used;
    return true;
  };
  auto smaller = [&](const std::vector<uint64_t>& c) { return c.size() < best.size() || (c.size() == best.size() && c < best); };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    // delete blocks
    for (size_t blk : {256u, 64u, 16u, 8u, 4u, 3u, 2u, 1u}) {
      if (blk > best.size()) continue;
      for (size_t i = best.size(); i-- > 0 && !over();) {
        if (i + blk > best.size()) continue;
        auto c = best;
        c.erase(c.begin() + i, c.begin() + i + blk);
        if (smaller(c) && attempt(c)) { progress = true; if (i > best.size()) i = best.size(); }
        if (best.size() > 400 && blk < 8) break;
      }
    }
    // zero blocks
    for (size_t blk : {32u, 8u, 2u}) {
      for (size_t i = 0; i + blk <= best.size() && !over(); i += blk) {
        auto c = best;
        bool any = false;
        for (size_t k = i; k < i + blk; k++) { any |= c[k] != 0; c[k] = 0; }
        if (any && attempt(c)) progress = true;
      }
    }
    // minimise single choices
    for (size_t i = 0; i < best.size() && !over(); i++) {
      if (best[i] == 0) continue;
      auto c = best;
      c[i] = 0;
      if (attempt(c)) { progress = true; continue; }
      if (i >= best.size()) break;
      uint64_t lo = 0, hi = best[i];
      while (lo + 1 < hi && !over()) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = best;
        if (i >= c.size()) break;
        c[i] = mid;
        if (attempt(c)) { hi = mid; progress = true; } else lo = mid;
      }
      // smaller count together with fewer following choices
      for (size_t del = 1; del <= 6 && !over(); del++) {
        if (i >= best.size() || best[i] == 0 || i + 1 + del > best.size()) break;
        c = best;
        c[i]--;
        c.erase(c.begin() + i + 1, c.begin() + i + 1 + del);
        if (attempt(c)) { progress = true; break; }
      }
    }
  }
  return best;
}

// ------------------------------------------------------------------------------------------------
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

struct Batch { Prop* p; size_t idx; uint64_t from, to; };
struct Running { pid_t pid; Batch b; Shm* shm; std::string err, out; std::chrono::steady_clock::time_point last; uint64_t lastCase, lastEv; };

static uint64_t case_seed(uint64_t seed, const Prop& p, uint64_t i) {
  uint64_t s = seed * 0x9E3779B97F4A7C15ULL ^ strhash(p.name);
  splitmix(s);
  s ^= i * 0xD1B54A32D192ED03ULL;
  return splitmix(s);
}

static void run_batch(const Batch& b, uint64_t seed, Shm* shm, const std::string& out, double deadline) {
  Gen g;
  g.shm = shm;
  std::vector<uint64_t> hashes;
  auto t0 = std::chrono::steady_clock::now();
  for (uint64_t i = b.from; i < b.to; i++) {
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadline) break;
    shm->curCase = i;
    g.caseIndex = i;
    g.begin(case_seed(seed, *b.p, i), nullptr);
    arm(g_caseCpu);
    std::string msg;
    Kind k = run_case(*b.p, g, msg);
    arm(0);
    if (k == FAILED) {
      strncpy(shm->msg, msg.c_str(), sizeof shm->msg - 1);
      shm->status = 2;
      _exit(10);
    }
    shm->evals = shm->evals + 1;
    if (k == SKIPPED) shm->discards = shm->discards + 1;
    else if (g.nontrivial_) {
      shm->nontriv = shm->nontriv + 1;
      uint64_t h = strhash(b.p->name);
      for (auto v : g.choices) { h ^= v; h *= 0x100000001b3ULL; h ^= h >> 29; }
      hashes.push_back(h);
    }
  }
  if (FILE* f = fopen(out.c_str(), "wb")) {
    uint64_t n = hashes.size();
    fwrite(&n, 8, 1, f);
    fwrite(hashes.data(), 8, n, f);
    for (auto& [l, c] : g.labels_) fprintf(f, "%s\t%llu\n", l.c_str(), (unsigned long long)c);
    fclose(f);
  }
  shm->status = 1;
  _exit(0);
}

static std::vector<uint64_t> parse_choices(const std::string& s) {
  std::vector<uint64_t> v;
  std::istringstream i(s);
  uint64_t x;
  while (i >> x) v.push_back(x);
  return v;
}

int run_main(int argc, char** argv) {
  for (auto f : earlies()) f();
  uint64_t seed = 1;
  bool thorough = false;
  double cap = 60, scale = 1, shrinkBudget = 45;
  int workers = 8;
  std::string out = "/dev/stdout", only, replayProp, replayChoices, replayBatch;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 0);
    else if (a == "--thorough") thorough = true;
    else if (a == "--cap") cap = atof(next().c_str());
    else if (a == "--scale") scale = atof(next().c_str());
    else if (a == "--workers") workers = atoi(next().c_str());
    else if (a == "--out") out = next();
    else if (a == "--only") only = next();
    else if (a == "--shrink") shrinkBudget = atof(next().c_str());
    else if (a == "--case-cpu") g_caseCpu = atoi(next().c_str());
    else if (a == "--case-wall") g_caseWall = atoi(next().c_str());
    else if (a == "--replay-prop") replayProp = next();
    else if (a == "--replay-choices") replayChoices = next();
    else if (a == "--replay-batch") replayBatch = next();
  }
  if (seed == 0) seed = 0x5EED;
  char tmpl[] = "/tmp/pbt.XXXXXX";
  g_tmp = mkdtemp(tmpl);
  auto cleanup = [&] { std::string c = "rm -rf " + g_tmp; if (g_tmp.rfind("/tmp/pbt.", 0) == 0) (void)!system(c.c_str()); };
  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };

  // Fixtures may call the code under test, so they run where a crash is contained.
  {
    Shm* shm = new_shm();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      child_prologue(shm, g_tmp + "/setup.err");
      arm(120);
      try { for (auto f : setups()) f(); } catch (Fail& f) { strncpy(shm->msg, f.msg.c_str(), sizeof shm->msg - 1); shm->status = 2; _exit(10); }
      catch (std::exception& e) { strncpy(shm->msg, e.what(), sizeof shm->msg - 1); shm->status = 2; _exit(10); }
      _exit(0);
    }
    bool wh;
    int st = wait_child(pid, shm, 300, wh);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      fprintf(stderr, "setup failed: %s\n%s\n", shm->msg, tail(g_tmp + "/setup.err", 3000).c_str());
      cleanup();
      return 3;
    }
    munmap(shm, sizeof(Shm));
  }
  for (auto f : setups()) f();
  for (auto f : warmups()) {
    Shm* shm = new_shm();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      child_prologue(shm, g_tmp + "/warm.err");
      arm(60);
      try { f(); } catch (...) { _exit(10); }
      _exit(0);
    }
    bool wh;
    int st = wait_child(pid, shm, 120, wh);
    munmap(shm, sizeof(Shm));
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) f();
  }

  auto find = [&](const std::string& n) -> Prop* { for (auto p : registry()) if (n == p->name) return p; return nullptr; };

  if (!replayProp.empty()) {
    Prop* p = find(replayProp);
    if (!p) { fprintf(stderr, "no such property function: %s\n", replayProp.c_str()); cleanup(); return 3; }
    int rc = 0;
    if (!replayBatch.empty()) {
      unsigned long long s = 0, a = 0, b = 0;
      sscanf(replayBatch.c_str(), "%llu %llu %llu", &s, &a, &b);
      Shm* shm = new_shm();
      std::string err = g_tmp + "/b.err";
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) { child_prologue(shm, err); run_batch({p, 0, a, b}, s, shm, g_tmp + "/b.out", 1e9); }
      bool wh;
      int st = wait_child(pid, shm, g_caseWall, wh);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { rc = 1; printf("REPRODUCED case=%llu %s\n%s\n", (unsigned long long)shm->curCase, shm->msg, tail(err, 3000).c_str()); }
    } else {
      auto ch = parse_choices(replayChoices);
      for (int i = 0; i < 20 && !rc; i++) {
        Outcome o = run_isolated(*p, ch, true);
        if (o.kind == FAILED || o.kind == CRASHED || o.kind == HUNG) { rc = 1; printf("REPRODUCED %s\n%s\n", o.notes.c_str(), o.msg.c_str()); }
      }
    }
    if (!rc) printf("NOT-REPRODUCED\n");
    cleanup();
    return rc;
  }

  std::vector<Prop*> props;
  for (auto p : registry()) if (only.empty() || only == p->name) props.push_back(p);
  std::vector<std::vector<Batch>> per;
  for (size_t k = 0; k < props.size(); k++) {
    uint64_t n = (uint64_t)((thorough ? props[k]->thorough : props[k]->quick) * scale);
    if (n == 0) n = 1;
    uint64_t nb = thorough ? 64 : 16;
    uint64_t bs = std::max<uint64_t>(1, (n + nb - 1) / nb);
    std::vector<Batch> v;
    for (uint64_t a = 0; a < n; a += bs) v.push_back({props[k], k, a, std::min(n, a + bs)});
    per.push_back(v);
  }
  std::vector<Batch> queue;
  for (size_t i = 0;; i++) {
    bool any = false;
    for (auto& v : per) if (i < v.size()) { queue.push_back(v[i]); any = true; }
    if (!any) break;
  }
  std::vector<uint64_t> evals(props.size()), nontriv(props.size()), discards(props.size());
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<Running> running;
  size_t qi = 0, fileNo = 0;
  struct Found { Batch b; uint64_t caseIdx; Kind kind; std::string msg; std::vector<uint64_t> ch; bool overflow; };
  std::vector<Found> found;
  uint64_t skippedBatches = 0;
  while (qi < queue.size() || !running.empty()) {
    while (found.empty() && qi < queue.size() && (int)running.size() < workers) {
      if (elapsed() > cap) { skippedBatches += queue.size() - qi; qi = queue.size(); break; }
      Running r;
      r.b = queue[qi++];
      r.shm = new_shm();
      r.err = g_tmp + "/e" + std::to_string(fileNo);
      r.out = g_tmp + "/o" + std::to_string(fileNo++);
      fflush(nullptr);
      double dl = std::max(1.0, cap - elapsed());
      r.pid = fork();
      if (r.pid == 0) { child_prologue(r.shm, r.err); run_batch(r.b, seed, r.shm, r.out, dl); }
      r.last = std::chrono::steady_clock::now();
      r.lastCase = ~0ULL; r.lastEv = 0;
      running.push_back(r);
    }
    if (!found.empty()) qi = queue.size();
    bool reaped = false;
    for (size_t k = 0; k < running.size();) {
      Running& r = running[k];
      int st;
      pid_t w = waitpid(r.pid, &st, WNOHANG);
      bool wallHang = false;
      if (w == 0) {
        if (r.shm->curCase != r.lastCase || r.shm->evals != r.lastEv) { r.lastCase = r.shm->curCase; r.lastEv = r.shm->evals; r.last = std::chrono::steady_clock::now(); }
        if (std::chrono::steady_clock::now() - r.last > std::chrono::seconds(g_caseWall)) { wallHang = true; kill(-r.pid, SIGKILL); kill(r.pid, SIGKILL); waitpid(r.pid, &st, 0); }
        else { k++; continue; }
      }
      reaped = true;
      evals[r.b.idx] += r.shm->evals; nontriv[r.b.idx] += r.shm->nontriv; discards[r.b.idx] += r.shm->discards;
      if (!wallHang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && r.shm->status == 1) {
        if (FILE* f = fopen(r.out.c_str(), "rb")) {
          uint64_t n = 0;
          if (fread(&n, 8, 1, f) == 1) { for (uint64_t i = 0; i < n; i++) { uint64_t h; if (fread(&h, 8, 1, f) == 1) distinct.insert(h); } }
          char line[512];
          while (fgets(line, sizeof line, f)) { char* t = strrchr(line, '\t'); if (t) { *t = 0; labels[line] += strtoull(t + 1, nullptr, 10); } }
          fclose(f);
        }
      } else {
        Found fd{r.b, r.shm->curCase, CRASHED, "", {}, r.shm->overflow};
        fd.ch.assign(r.shm->log, r.shm->log + r.shm->nchoices);
        if (wallHang || r.shm->status == 3) { fd.kind = HUNG; fd.msg = "case did not finish within its time limit"; }
        else if (r.shm->status == 2) { fd.kind = FAILED; fd.msg = r.shm->msg; }
        else {
          std::ostringstream m;
          if (WIFSIGNALED(st)) m << "killed by signal " << WTERMSIG(st); else m << "exit code " << WEXITSTATUS(st);
          m << "\n" << tail(r.err, 3000);
          fd.msg = m.str();
        }
        found.push_back(fd);
      }
      unlink(r.err.c_str()); unlink(r.out.c_str());
      munmap(r.shm, sizeof(Shm));
      running.erase(running.begin() + k);
    }
    if (!reaped) usleep(2000);
  }
  double searchTime = elapsed();

  // Confirm, shrink.
  std::string failJson = "null";
  std::vector<std::string> unconfirmed;
  std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return std::make_pair(a.kind == HUNG, a.ch.size()) < std::make_pair(b.kind == HUNG, b.ch.size()); });
  for (auto& fd : found) {
    int hits = 0, runs = 0;
    Outcome last;
    double c0 = elapsed();
    for (; runs < 12 && hits < 3; runs++) {
      Outcome o = run_isolated(*fd.b.p, fd.ch, fd.kind == HUNG);
      if (o.kind == FAILED || o.kind == CRASHED || o.kind == HUNG) { hits++; last = o; }
      else if (runs >= 3 && hits == 0 && runs >= 6) break;
      if (o.kind == HUNG && hits) { runs++; break; }
    }
    std::ostringstream j;
    if (hits) {
      uint64_t tries = 0;
      std::vector<uint64_t> small = fd.ch;
      bool quick = elapsed() - c0 < 15.0 * runs;  // cases of many seconds are reported as they are
      if (last.kind != HUNG && hits == runs && quick) small = shrink(*fd.b.p, fd.ch, last.kind, shrinkBudget, tries);
      Outcome o = last;  // a hang is not waited for once more
      for (int i = 0; i < 10 && last.kind != HUNG; i++) { o = run_isolated(*fd.b.p, small, true); if (o.kind == FAILED || o.kind == CRASHED || o.kind == HUNG) break; }
      if (o.kind == OK || o.kind == SKIPPED) o = last;
      j << "{\"prop\":" << jstr(fd.b.p->name) << ",\"case\":" << fd.caseIdx << ",\"kind\":" << jstr(o.kind == FAILED ? "oracle" : o.kind == HUNG ? "hang" : "crash")
        << ",\"message\":" << jstr(o.msg) << ",\"description\":" << jstr(o.notes) << ",\"reproduced\":\"" << hits << "/" << runs << "\",\"shrink_runs\":" << tries
        << ",\"original_choices\":" << fd.ch.size() << ",\"choices\":\"";
      for (size_t i = 0; i < small.size(); i++) j << (i ? " " : "") << small[i];
      j << "\"}";
      failJson = j.str();
      break;
    }
    // Not reproducible alone: does the stream of cases that led to it reproduce it?
    uint64_t from = fd.b.from, to = fd.caseIdx + 1;
    auto stream = [&](uint64_t a, uint64_t b, std::string& m) {
      Shm* shm = new_shm();
      std::string err = g_tmp + "/s.err";
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) { child_prologue(shm, err); run_batch({fd.b.p, 0, a, b}, seed, shm, g_tmp + "/s.out", 1e9); }
      bool wh;
      int st = wait_child(pid, shm, g_caseWall, wh);
      bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
      if (bad) m = shm->msg[0] ? std::string(shm->msg) : tail(err, 3000);
      munmap(shm, sizeof(Shm));
      return bad;
    };
    std::string m;
    int shits = 0;
    for (int i = 0; i < 3; i++) shits += stream(from, to, m);
    if (shits) {
      // Drop as much of the prefix as possible.
      double t1 = elapsed();
      for (uint64_t step = (to - from) / 2; step && elapsed() - t1 < shrinkBudget;) {
        if (from + step < to && stream(from + step, to, m)) from += step; else step /= 2;
      }
      j << "{\"prop\":" << jstr(fd.b.p->name) << ",\"case\":" << fd.caseIdx << ",\"kind\":\"history\",\"message\":" << jstr(m)
        << ",\"description\":" << jstr("fails only after the preceding cases of the stream") << ",\"reproduced\":\"" << shits << "/3\",\"batch\":\"" << seed << " " << from << " " << to << "\",\"choices\":\"\"}";
      failJson = j.str();
      break;
    }
    unconfirmed.push_back(std::string(fd.b.p->name) + " case " + std::to_string(fd.caseIdx) + ": " + fd.msg.substr(0, 300));
  }

  // Samples.
  std::ostringstream samples;
  bool first = true;
  if (failJson == "null") {
    for (auto p : props) {
      int taken = 0;
      bool slow = !strncmp(p->name, "slow_", 5);
      for (uint64_t i = 0; i < (slow ? 1 : 12) && taken < 2; i++) {
        // regenerate the choices of case i in a child
        Shm* shm = new_shm();
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
          child_prologue(shm, g_tmp + "/x.err");
          Gen g; g.shm = shm; g.verbose = true; g.caseIndex = i;
          g.begin(case_seed(seed, *p, i), nullptr);
          arm(g_caseCpu);
          std::string m;
          run_case(*p, g, m);
          shm->nontriv = g.nontrivial_;
          strncpy(shm->msg, g.notes.c_str(), 700);
          _exit(0);
        }
        bool wh;
        wait_child(pid, shm, g_caseWall, wh);
        if (shm->nontriv && shm->msg[0]) { samples << (first ? "" : ",") << jstr(std::string(p->name) + ": " + shm->msg); first = false; taken++; }
        munmap(shm, sizeof(Shm));
      }
    }
  }

  uint64_t te = 0, tn = 0, td = 0;
  std::ostringstream pj;
  for (size_t k = 0; k < props.size(); k++) {
    te += evals[k]; tn += nontriv[k]; td += discards[k];
    pj << (k ? "," : "") << jstr(props[k]->name) << ":{\"cases\":" << evals[k] << ",\"nontrivial\":" << nontriv[k] << ",\"discarded\":" << discards[k] << "}";
  }
  std::ostringstream lj;
  first = true;
  for (auto& [l, c] : labels) { lj << (first ? "" : ",") << jstr(l) << ":" << c; first = false; }
  std::ostringstream uj;
  for (size_t i = 0; i < unconfirmed.size(); i++) uj << (i ? "," : "") << jstr(unconfirmed[i]);
  if (FILE* f = fopen(out.c_str(), "wb")) {
    fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"discarded\":%llu,\"distinct_nontrivial\":%llu,\"skipped_batches\":%llu,\"search_s\":%.2f,\"wall_s\":%.2f,\"props\":{%s},\"labels\":{%s},\"samples\":[%s],\"unconfirmed\":[%s],\"failure\":%s}\n",
            (unsigned long long)te, (unsigned long long)tn, (unsigned long long)td, (unsigned long long)distinct.size(), (unsigned long long)skippedBatches, searchTime, elapsed(),
            pj.str().c_str(), lj.str().c_str(), samples.str().c_str(), uj.str().c_str(), failJson.c_str());
    fclose(f);
  }
  cleanup();
  return failJson == "null" ? 0 : 1;
}

}

int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
