// C35: random values cannot be had again by knowing the program, its clock, its process number, or earlier values.
// Values are drawn in processes of their own (this program started again) in which everything that an onlooker may
// know is the same: addresses are not randomised, the clocks stand still, and process numbers are constant.
#include "big.h"
#include <caligo/random.h>
#include <caligo/x25519.h>
#include <fcntl.h>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

std::vector<uint8_t> c35_prime(int width);   // in a unit of its own: mont.h has no include guard

// --- what an onlooker knows stands still -----------------------------------------------------------------
static bool frozen() { static const bool f = getenv("C35_FROZEN") != nullptr; return f; }
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) noexcept { if (!frozen()) return (int)syscall(SYS_clock_gettime, c, t); t->tv_sec = 1700000000; t->tv_nsec = 123456789; return 0; }
int gettimeofday(struct timeval* t, void*) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; } return 0; }
time_t time(time_t* t) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
int timespec_get(struct timespec* t, int base) noexcept { clock_gettime(CLOCK_REALTIME, t); return base; }
clock_t clock() noexcept { struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s); return s.tv_sec * 1000000 + s.tv_nsec / 1000; }
clock_t times(struct tms* b) noexcept { if (!frozen()) return syscall(SYS_times, b); if (b) memset(b, 0, sizeof *b); return 1; }
pid_t getpid() noexcept { return frozen() ? 4242 : (pid_t)syscall(SYS_getpid); }
pid_t getppid() noexcept { return frozen() ? 4241 : (pid_t)syscall(SYS_getppid); }
pid_t gettid() noexcept { return frozen() ? 4242 : (pid_t)syscall(SYS_gettid); }
}

// --- the process that draws ------------------------------------------------------------------------------
// A program is a text of steps: b/h/w/q NUMBER (a request of that many 8, 16, 32 or 64-bit values), n (a 256-bit
// number), k (an X25519 key), p (a 64-bit prime), P (a 128-bit prime), s (a number that is thrown away), f (fork: both go on).
// Its output is one line per step: the step and the bytes.
static std::string drawn;
static void put(char step, const void* p, size_t n) {
  static const char d[] = "0123456789abcdef";
  drawn += step;
  for (size_t i = 0; i < n; i++) { uint8_t b = ((const uint8_t*)p)[i]; drawn += d[b >> 4]; drawn += d[b & 15]; }
  drawn += '\n';
}
template <class T> static void request(char step, size_t n) {
  std::vector<T> v(n);
  Caligo::generate_random(std::span<T>(v));
  put(step, v.data(), n * sizeof(T));
}
static void draw(const char* s) {
  while (*s) {
    char c = *s++;
    size_t n = 0;
    while (*s >= '0' && *s <= '9') n = n * 10 + (size_t)(*s++ - '0');
    switch (c) {
      case 'b': request<uint8_t>(c, n); break;
      case 'h': request<uint16_t>(c, n); break;
      case 'w': request<uint32_t>(c, n); break;
      case 'q': request<uint64_t>(c, n); break;
      case 'n': { auto v = Caligo::bignum<256>::random().as_bytes(); put(c, v.data(), v.size()); break; }
      case 'k': { auto v = Caligo::ec_value::random_private_key().as_bytes(); put(c, v.data(), v.size()); break; }
      case 'p': { auto v = c35_prime(64); put(c, v.data(), v.size()); break; }
      case 'P': { auto v = c35_prime(128); put(c, v.data(), v.size()); break; }
      case 's': for (size_t i = 0; i < n; i++) (void)Caligo::generate_random_value(); break;
      case 'f': {
        pid_t p = fork();
        if (p == 0) drawn.clear();    // the parent prints what came before
        break;
      }
      default: _exit(3);
    }
  }
  drawn += ".\n";
  for (size_t i = 0; i < drawn.size();) { ssize_t k = write(1, drawn.data() + i, drawn.size() - i); if (k <= 0) _exit(4); i += (size_t)k; }
  while (wait(nullptr) > 0) {}
  _exit(0);
}
static pbt::Early child([] { if (const char* p = getenv("C35_DRAW")) { Caligo::testValues.clear(); draw(p); } });

// --- starting it ------------------------------------------------------------------------------------------
struct Output { std::string text; size_t ended = 0; int status = 0; };
static Output started(const std::string& program, bool freeze) {
  int p[2];
  if (pipe2(p, O_CLOEXEC)) throw pbt::Discard{};
  pid_t c = fork();
  if (c == 0) {
    dup2(p[1], 1);
    personality(ADDR_NO_RANDOMIZE);
    std::string d = "C35_DRAW=" + program;
    const char* env[] = {d.c_str(), freeze ? "C35_FROZEN=1" : nullptr, nullptr};
    const char* arg[] = {"draw", nullptr};
    alarm(200);
    execve("/proc/self/exe", (char**)arg, (char**)env);
    _exit(5);
  }
  close(p[1]);
  Output o;
  char buf[65536];
  for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) o.text.append(buf, (size_t)n);
  close(p[0]);
  waitpid(c, &o.status, 0);
  for (size_t i = 0; i < o.text.size(); i++) if (o.text[i] == '.') o.ended++;
  return o;
}
struct Value { char step; Bytes bytes; };
static std::vector<Value> values(const Output& o, const std::string& program, size_t processes) {
  CHECK(o.status == 0 && o.ended == processes, "the process that draws " << program << " ended with status " << o.status);
  std::vector<Value> r;
  std::istringstream in(o.text);
  auto nib = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (std::string l; std::getline(in, l);) {
    if (l == ".") continue;
    Value v{l[0], {}};
    for (size_t i = 1; i + 1 < l.size(); i += 2) v.bytes.push_back((uint8_t)(nib(l[i]) << 4 | nib(l[i + 1])));
    r.push_back(v);
  }
  return r;
}
static std::string step(Gen& g) {
  switch (g.raw(7)) {
    case 0: return "b" + std::to_string(g.range(8, 80));
    case 1: return "h" + std::to_string(g.range(4, 40));
    case 2: return "w" + std::to_string(g.range(2, 20));
    case 3: return "q" + std::to_string(g.range(1, 20));
    case 4: return "n";
    case 5: return "k";
    case 6: return g.chance(1, 4) ? "P" : "p";
    default: return "s" + std::to_string(g.range(1, 100));
  }
}
// Whole 64-bit pieces; a number that was made from one piece is a piece too.
static void distinct(const std::vector<std::vector<Value>>& outs, const std::string& program) {
  std::map<Bytes, size_t> seen;
  for (size_t o = 0; o < outs.size(); o++)
    for (auto& v : outs[o]) {
      if (v.step == 'p') continue;    // 64-bit primes have less than 57 bits to choose: compared by place, below
      for (size_t i = 0; i + 8 <= v.bytes.size(); i += 8) {
        Bytes piece(v.bytes.begin() + (long)i, v.bytes.begin() + (long)i + 8);
        auto [it, fresh] = seen.emplace(piece, o);
        if (fresh) continue;
        pbt::fail("the value " + pbt::hex(piece) + " was drawn " + (it->second == o ? "twice by one process or its copies" : "by two processes") + " (" + program + ")");
      }
    }
}

PROP(other_process, 900, 30000) {
  std::string program;
  size_t steps = g.range(1, 8);
  for (size_t i = 0; i < steps; i++) program += step(g);
  bool freeze = g.chance(3, 4);
  size_t n = g.range(2, 4);
  g.note(n, freeze ? " processes that look the same draw " : " processes draw ", program);
  std::vector<std::vector<Value>> outs;
  for (size_t i = 0; i < n; i++) outs.push_back(values(started(program, freeze), program, 1));
  g.label(freeze ? "fresh processes, clocks and numbers the same" : "fresh processes");
  g.nontrivial();
  distinct(outs, program);
  for (size_t i = 1; i < n; i++)
    for (size_t k = 0; k < outs[0].size(); k++) {
      CHECK(outs[i].size() == outs[0].size(), "steps of " << program);
      CHECK(outs[0][k].bytes.size() < 8 || outs[i][k].bytes != outs[0][k].bytes, "two processes drew the same " << (outs[0][k].step == 'p' ? "prime " : "value ") << pbt::hex(outs[0][k].bytes) << " (" << program << ")");
    }
}
PROP(after_fork, 500, 15000) {
  std::string program;
  size_t steps = g.range(0, 4), forks = 0;
  for (size_t i = 0; i < steps; i++) program += step(g);
  size_t more = g.range(1, 5);
  for (size_t i = 0; i < more; i++) {
    if (i == 0 || (forks < 3 && g.coin())) { program += "f"; forks++; }
    program += g.coin() ? "q" + std::to_string(g.range(1, 20)) : step(g);
  }
  program += "q2";
  bool freeze = g.chance(3, 4);
  g.note("a process and its copies draw ", program);
  g.label("copies of a process");
  g.nontrivial();
  distinct({values(started(program, freeze), program, size_t(1) << forks)}, program);
}
// Many processes at the same time: a seed from a small set would come up twice.
PROP(many_processes, 8, 60) {
  std::vector<std::vector<Value>> outs;
  size_t n = 400;
  for (size_t i = 0; i < n; i++) outs.push_back(values(started("q1", true), "q1", 1));
  g.note(n, " processes");
  g.label("many processes");
  g.nontrivial();
  (void)g.raw(1000);
  distinct(outs, "q1");
}

// --- prediction from earlier values -----------------------------------------------------------------------
static std::vector<uint64_t> stream(Gen& g, size_t n) {
  std::string program = "s" + std::to_string(g.raw(3000)) + "q" + std::to_string(n);
  g.note("drawn: ", program);
  auto v = values(started(program, false), program, 1);
  CHECK(v.size() == 1 && v[0].bytes.size() == n * 8, "output of " << program);
  std::vector<uint64_t> r(n);
  memcpy(r.data(), v[0].bytes.data(), n * 8);
  return r;
}
// Length of the shortest linear feedback shift register that makes these bits (Berlekamp and Massey).
static size_t linear_complexity(const std::vector<bool>& s) {
  size_t n = s.size(), L = 0, m = 1, words = n / 64 + 3;
  std::vector<uint64_t> C(words), B(words), T, back(words + 1);   // back: the bits, last one first
  C[0] = B[0] = 1;
  for (size_t i = 0; i < n; i++) if (s[n - 1 - i]) back[i / 64] |= uint64_t(1) << (i % 64);
  for (size_t i = 0; i < n; i++, m++) {
    size_t at = n - 1 - i, w = at / 64, b = at % 64;
    uint64_t d = 0;
    for (size_t k = 0; k <= L / 64; k++) d ^= C[k] & (back[w + k] >> b | (b ? back[w + k + 1] << (64 - b) : 0));   // C has no bits above L
    if (!(__builtin_popcountll(d) & 1)) continue;
    bool longer = 2 * L <= i;
    if (longer) T = C;
    size_t ws = m / 64, bs = m % 64;
    for (size_t k = ws; k < words; k++) C[k] ^= B[k - ws] << bs | (bs && k > ws ? B[k - ws - 1] >> (64 - bs) : 0);
    if (longer) { L = i + 1 - L; B = T; m = 0; }
  }
  return L;
}
static size_t known_complexity() {   // of a generator with 64 bits of linear state
  std::vector<bool> a;
  uint64_t x = 1;
  for (int i = 0; i < 1000; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; a.push_back(x >> 5 & 1); }
  return linear_complexity(a);
}
PROP(shift_registers, 72, 600) {
  constexpr size_t n = 42000;   // longer than twice the state of the Mersenne twister
  static const bool works = known_complexity() == 64;
  if (!works) pbt::fail("self-test of the linear complexity");
  size_t which = g.walk(66);
  std::vector<bool> bits;
  if (which < 64) for (uint64_t v : stream(g, n)) bits.push_back(v >> which & 1);
  else for (uint64_t v : stream(g, n / 64 + 1)) for (unsigned i = 0; i < 64; i++) bits.push_back(v >> (which == 64 ? i : 63 - i) & 1);
  size_t L = linear_complexity(bits);
  g.note("bits of position ", which, ", linear complexity ", L);
  g.label("linear complexity");
  g.nontrivial();
  CHECK(L > bits.size() / 2 - 60 && L < bits.size() / 2 + 60, bits.size() << " bits " << (which < 64 ? "of position " + std::to_string(which) : "in a row") << " satisfy a linear recurrence of length " << L << ", which predicts all others");
}

using u128 = unsigned __int128;
// Least x >= 0 with lo <= a*x mod m <= hi; m itself if there is none.
static u128 first_hit(u128 a, u128 m, u128 lo, u128 hi) {
  if (lo == 0) return 0;
  if (a == 0) return m;
  u128 x = (lo + a - 1) / a;
  if (x * a <= hi) return x;
  u128 y = first_hit(m % a, a, (a - hi % a) % a, (a - lo % a) % a);   // how many times around
  return y == a ? m : (lo + m * y + a - 1) / a;
}
// h: upper halves of successive states of s -> a*s + c modulo 2^64, c unknown. Is there such a sequence?
static bool truncated_lcg(const std::vector<uint32_t>& h, uint64_t a) {
  // differences d(i) = s(i+1) - s(i) obey d(i+1) = a*d(i); their upper halves are known up to a borrow.
  auto up = [&](size_t i) { return (uint64_t)(uint32_t)(h[i + 1] - h[i]); };
  for (uint64_t borrow = 0; borrow < 2; borrow++) {
    uint64_t base = (up(0) - borrow) << 32, ab = a * base;
    // a*x + ab in [(up1-1)*2^32, (up1+1)*2^32): a*x mod 2^64 in a window of 2^33
    uint64_t start = ((up(1) - 1) << 32) - ab;
    for (uint64_t x = 0, n = 0; n < 64; n++) {
      u128 lo = (uint64_t)(start - a * x), m = u128(1) << 64, hi = lo + (u128(1) << 33) - 1, f;
      if (hi >= m) f = 0;   // the window contains zero
      else f = first_hit(a, m, lo, hi);
      if (f >= m || x + f >= (u128(1) << 32)) break;
      x += (uint64_t)f;
      uint64_t d = base + x;
      bool ok = true;
      for (size_t i = 1; ok && i + 1 < h.size(); i++) {
        d *= a;
        uint32_t diff = (uint32_t)(d >> 32) - (uint32_t)up(i);
        ok = diff == 0 || diff == 0xffffffffu;
      }
      if (ok) return true;
      x++;
    }
  }
  return false;
}
static bool full_lcg(const std::vector<uint64_t>& s, uint64_t mask) {   // all parameters unknown, modulus a power of two
  for (size_t i = 0; i + 12 < s.size(); i++) {
    uint64_t d = (s[i + 1] - s[i]) & mask;
    if (!(d & 1)) continue;
    uint64_t inv = d;
    for (int k = 0; k < 6; k++) inv *= 2 - d * inv;
    uint64_t a = (s[i + 2] - s[i + 1]) * inv & mask;
    bool ok = true;
    for (size_t k = i; ok && k < i + 10; k++) ok = (((s[k + 2] - s[k + 1]) - a * (s[k + 1] - s[k])) & mask) == 0;
    if (ok) return true;
  }
  return false;
}
static const uint64_t multipliers[] = {6364136223846793005u, 2862933555777941757u, 3935559000370003845u, 6906969069u, 1181783497276652981u, 0xd1342543de82ef95u, 0xf1357aea2e62a9c5u, 0xaf251af3b0f025b5u, 25214903917u, 1103515245u, 1664525u, 69069u, 22695477u, 134775813u, 3202034522624059733u, 7664345821815920749u};
PROP(congruential, 400, 8000) {
  {   // the attack works on such a generator
    uint64_t s = g.u64(), c = g.u64() | 1;
    std::vector<uint32_t> h;
    for (int i = 0; i < 8; i++) { s = s * multipliers[g.caseIndex % 8] + c; h.push_back((uint32_t)(s >> 32)); }
    CHECK(truncated_lcg(h, multipliers[g.caseIndex % 8]), "self-test of the prediction of truncated congruential generators");
  }
  auto v = stream(g, 40);
  std::vector<uint32_t> hi, lo, hl, lh;
  std::vector<uint64_t> lo64, hi64;
  for (auto x : v) {
    uint32_t a = (uint32_t)(x >> 32), b = (uint32_t)x;
    hi.push_back(a); lo.push_back(b); hl.push_back(a); hl.push_back(b); lh.push_back(b); lh.push_back(a);
    lo64.push_back(b); hi64.push_back(a);
  }
  g.label("congruential generators");
  g.nontrivial();
  CHECK(!full_lcg(v, ~0ull), "the 64-bit values form a linear congruential sequence");
  CHECK(!full_lcg(lo64, 0xffffffffu) && !full_lcg(hi64, 0xffffffffu), "halves of the values form a linear congruential sequence");
  for (uint64_t a : multipliers)
    for (auto* h : {&hi, &lo, &hl, &lh})
      CHECK(!truncated_lcg({h->begin(), h->begin() + 12}, a), "the values are upper halves of the states of a linear congruential generator with multiplier " << a << ": all others follow from two of them");
}
