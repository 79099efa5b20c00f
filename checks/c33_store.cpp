// C33: the trust store starts with exactly the anchors of the system's bundle.
// Each case runs in a child process that has not used the store yet; there, the bundle's path leads to a
// generated file: the C library's ways to open and examine a file are replaced by ones that redirect that path.
#include "bundlegen.h"
#include <caligo/Truststore.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace Caligo;
static Bytes unb64(const std::string& s) {
  static const std::string t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  Bytes r;
  uint32_t acc = 0;
  int have = 0;
  for (char c : s) {
    size_t v = t.find(c);
    if (v == std::string::npos) continue;
    acc = acc << 6 | (uint32_t)v;
    if ((have += 6) >= 8) r.push_back((uint8_t)(acc >> (have -= 8)));
  }
  return r;
}
static const char SYSTEM[] = "/etc/ssl/certs/ca-certificates.crt";
static char target[64];          // empty: no redirection
static bool redirected = false;
static const char* path_for(const char* p) {
  if (!target[0] || !p || strcmp(p, SYSTEM)) return p;
  redirected = true;
  return target;
}
template <typename F> static F next(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
extern "C" {
FILE* fopen(const char* p, const char* m) { static auto f = next<FILE* (*)(const char*, const char*)>("fopen"); return f(path_for(p), m); }
FILE* fopen64(const char* p, const char* m) { static auto f = next<FILE* (*)(const char*, const char*)>("fopen64"); return f(path_for(p), m); }
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char* p, int flags, ...) { MODE static auto f = next<int (*)(const char*, int, ...)>("open"); return f(path_for(p), flags, mode); }
int open64(const char* p, int flags, ...) { MODE static auto f = next<int (*)(const char*, int, ...)>("open64"); return f(path_for(p), flags, mode); }
int openat(int d, const char* p, int flags, ...) { MODE static auto f = next<int (*)(int, const char*, int, ...)>("openat"); return f(d, path_for(p), flags, mode); }
int openat64(int d, const char* p, int flags, ...) { MODE static auto f = next<int (*)(int, const char*, int, ...)>("openat64"); return f(d, path_for(p), flags, mode); }
int stat(const char* p, struct stat* s) noexcept { static auto f = next<int (*)(const char*, struct stat*)>("stat"); return f(path_for(p), s); }
int stat64(const char* p, struct stat64* s) noexcept { static auto f = next<int (*)(const char*, struct stat64*)>("stat64"); return f(path_for(p), s); }
int lstat(const char* p, struct stat* s) noexcept { static auto f = next<int (*)(const char*, struct stat*)>("lstat"); const char* q = path_for(p); return q == p ? f(p, s) : stat(q, s); }
int lstat64(const char* p, struct stat64* s) noexcept { static auto f = next<int (*)(const char*, struct stat64*)>("lstat64"); const char* q = path_for(p); return q == p ? f(p, s) : stat64(q, s); }
int fstatat(int d, const char* p, struct stat* s, int fl) noexcept { static auto f = next<int (*)(int, const char*, struct stat*, int)>("fstatat"); const char* q = path_for(p); return f(d, q, s, q == p ? fl : 0); }
int statx(int d, const char* p, int fl, unsigned m, struct statx* s) noexcept { static auto f = next<int (*)(int, const char*, int, unsigned, struct statx*)>("statx"); const char* q = path_for(p); return f(d, q, q == p ? fl : 0, m, s); }
int access(const char* p, int m) noexcept { static auto f = next<int (*)(const char*, int)>("access"); return f(path_for(p), m); }
}

// Runs f in a child; what it throws comes back as text. "" if all went well.
template <typename F> static std::string in_child(F f) {
  int p[2];
  if (pipe(p)) return "";
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) {
    close(p[0]);
    struct rlimit l = {200, 200};
    setrlimit(RLIMIT_CPU, &l);
    std::string r;
    try { r = f(); } catch (const pbt::Fail& e) { r = "F" + e.msg; } catch (const std::exception& e) { r = std::string("Fan exception came out: ") + e.what(); }
    r += '\n';
    for (size_t i = 0; i < r.size();) { ssize_t n = write(p[1], r.data() + i, r.size() - i); if (n <= 0) break; i += (size_t)n; }
    _exit(0);
  }
  close(p[1]);
  std::string r;
  char buf[4096];
  for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) r.append(buf, (size_t)n);
  close(p[0]);
  int st = 0;
  waitpid(c, &st, 0);
  if (r.empty() || r.back() != '\n') return "Fthe process ended (status " + std::to_string(st) + ") while it used the store";
  r.pop_back();
  return r;
}

struct Member { std::string subject; Bytes der; int key; };   // key: index of its RSA key, -1 for none
constexpr size_t BITS = 512;
static Bytes leaf(const std::string& issuer, int by) {
  CertModel m;
  m.issuer = cn(issuer);
  m.subject = cn("leaf below " + issuer);
  m.from = When::of(1400000000, true);
  m.to = When::of(1500000000, true);
  m.spki = der::seq({der::seq({der::oid({0x2b, 0x65, 0x70})}), der::bits(Bytes(32, 7))});
  Bytes t = m.tbs();
  return assemble(t, alg_id(m.alg), der::bits(rsa_sign(key(BITS, 0, by), m.alg.hash, t)));
}
static bool trusted(Truststore& s, const Bytes& d) {
  std::vector<x509certificate> v;
  v.push_back(parseCertificate(d));
  return s.trust(v, 1450000000);
}

static void bundle(Gen& g, size_t n) {
  std::vector<Member> members;
  std::string text = g.chance(1, 3) ? "" : junk(g);
  for (size_t i = 0; i < n; i++) {
    if (!members.empty() && g.chance(1, 10)) members.push_back(g.pick(members));   // the same one again
    else {
      CertModel m;
      std::string simple = !members.empty() && g.chance(1, 8) ? g.pick(members).subject : "CN=root " + std::to_string(i) + std::string(g.raw(6), 'x');
      if (simple.substr(0, 3) == "CN=" && g.chance(5, 6)) m.subject = cn(simple.substr(3));   // perhaps another one of that name
      else m.subject = gen_name(g);
      m.issuer = m.subject;
      m.serial = g.bytes(g.range(1, 4));
      m.from = When::of(1300000000 + g.raw(1000), true);
      m.to = When::of(1700000000 - g.raw(1000), true);
      Member x{m.subject.text(), {}, g.chance(1, n > 50 ? 50 : 3) ? (int)g.raw(3) : -1};
      if (x.key >= 0) { const Key& k = key(BITS, 0, x.key); m.spki = rsa_spki(k.n, k.e); }
      else m.spki = der::seq({der::seq({der::oid({0x2b, 0x65, 0x70})}), der::bits(g.noise(32))});
      if (g.chance(1, 4)) m.tail = gen_extensions(g);
      x.der = assemble(m.tbs(), alg_id(m.alg), der::bits(g.noise(g.range(60, 68))));
      members.push_back(x);
    }
    text += armour(g, members.back().der);
    size_t k = g.raw(2);
    if (i + 1 == n && g.chance(1, 4)) k = 0;
    for (size_t j = 0; j < k; j++) text += junk(g);
    if (n > 5 && g.chance(1, n)) text += "\n" + std::string(g.range(1, 200000), g.pick<char>({'#', '\n', ' ', 'A'})) + "\n";
  }
  size_t found = 0;
  for (size_t p = text.find(BEGIN); p != std::string::npos; p = text.find(BEGIN, p + 1)) found++;
  if (found != n) g.discard();
  std::map<std::string, const Member*> want;
  for (auto& m : members) want[m.subject] = &m;
  g.note(n, " certificates under ", want.size(), " names, ", text.size(), " bytes: ", text.substr(0, 1000));
  std::vector<std::string> absent = {"", "CN=", "CN=nobody", "CN=leaf below root 0"};
  for (auto& m : members) { absent.push_back(m.subject + " "); if (!m.subject.empty()) absent.push_back(m.subject.substr(1)); }
  int fd = memfd_create("bundle", MFD_CLOEXEC);
  size_t done = 0;
  while (fd >= 0 && done < text.size()) { ssize_t w = write(fd, text.data() + done, text.size() - done); if (w <= 0) break; done += (size_t)w; }
  if (fd < 0 || done != text.size()) { if (fd >= 0) close(fd); g.discard(); }
  std::string r = in_child([&]() -> std::string {
    snprintf(target, sizeof target, "/proc/self/fd/%d", fd);
    Truststore& s = Truststore::Instance();
    if (!redirected) return "B";
    target[0] = 0;
    for (auto& [name, m] : want) {
      auto c = s.get(name);
      CHECK(c.has_value() && *c, "no anchor for \"" << name << "\", which is in the bundle");
      CHECK((*c)->subject == name, "the anchor for \"" << name << "\" calls itself \"" << (*c)->subject << "\"");
      pbt::check_bytes((*c)->derCert, m->der, "the anchor for \"" + name + "\"");
    }
    for (auto& a : absent) if (!want.count(a)) CHECK(!s.get(a).has_value(), "an anchor for \"" << a << "\", which is not in the bundle");
    size_t asked = 0;
    for (auto& [name, m] : want) {
      if (m->key < 0 || asked >= 4 || name.substr(0, 8) != "CN=root ") continue;
      asked++;
      CHECK(trusted(s, leaf(name.substr(3), m->key)), "a certificate under \"" << name << "\" is not trusted");
      CHECK(!trusted(s, leaf(name.substr(3), (m->key + 1) % 4)), "a certificate not signed by \"" << name << "\" is trusted");
    }
    CHECK(!trusted(s, leaf("nobody", 0)), "a certificate under an unknown name is trusted");
    Truststore& again = Truststore::Instance();
    CHECK(&again == &s, "a second store");
    return asked ? "a" : "";
  });
  close(fd);
  if (r == "B") { g.label("the bundle was read in a way that is not redirected"); g.discard(); }
  if (!r.empty() && r[0] == 'F') throw pbt::Fail{r.substr(1)};
  if (n) g.nontrivial();
  if (r == "a") g.label("asked about certificates below anchors");
  if (want.size() < n) g.label("names occurring twice");
  g.label(text.size() < 1024 ? "under 1 KiB" : text.size() < 65536 ? "under 64 KiB" : text.size() < 1048576 ? "under 1 MiB" : "1 MiB and more");
}
PROP(bundles, 3000, 60000) { bundle(g, g.weighted({1, 2, 2, 2, 2, 1, 1})); }
PROP(many, 60, 1500) { bundle(g, g.range(20, 200)); }
PROP(huge, 6, 60) { bundle(g, g.range(800, 2500)); }

// The real bundle of this system, split by the harness itself.
PROP(system, 4, 40) {
  std::string text;
  if (FILE* f = fopen(SYSTEM, "rb")) {
    char buf[65536];
    for (size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0;) text.append(buf, n);
    fclose(f);
  }
  std::vector<Bytes> ders;
  for (size_t p = text.find(BEGIN); p != std::string::npos; p = text.find(BEGIN, p)) {
    p += BEGIN.size();
    size_t e = text.find(END, p);
    if (e == std::string::npos) break;
    ders.push_back(unb64(text.substr(p, e - p)));
    p = e;
  }
  if (ders.empty()) g.discard();
  size_t skip = g.raw(ders.size() - 1);
  std::string r = in_child([&]() -> std::string {
    Truststore& s = Truststore::Instance();
    std::map<std::string, const Bytes*> want;
    std::vector<x509certificate> parsed;
    for (auto& d : ders) { parsed.push_back(parseCertificate(d)); want[parsed.back().subject] = &d; }
    for (size_t i = 0; i < ders.size(); i++) {
      auto& x = parsed[(i + skip) % ders.size()];
      auto c = s.get(x.subject);
      CHECK(c.has_value() && *c, "no anchor for \"" << x.subject << "\", which is in the system's bundle");
      pbt::check_bytes((*c)->derCert, *want[x.subject], "the anchor for \"" + x.subject + "\"");
      CHECK(!s.get(x.subject + " ").has_value(), "an anchor for a name that is not in the bundle");
    }
    return "";
  });
  if (!r.empty() && r[0] == 'F') throw pbt::Fail{r.substr(1)};
  g.note(ders.size(), " certificates in the system's bundle");
  g.nontrivial();
}
