// C37: the public headers can be included in any combination and order, from any number of translation units of a
// program, and each use of the library then gives the result that it gives in a program of its own.
#include "pbt.h"
#include <atomic>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using pbt::Bytes;
using pbt::Gen;

struct Snippet { const char *header, *also, *code; };
#define SNIPPET(h, ...) Snippet{h, "", #__VA_ARGS__},
#define SNIPPET2(h, i, ...) Snippet{h, i, #__VA_ARGS__},
static const std::vector<Snippet> snippets = {
#include "c37_snippets.h"
};

// --- building ---------------------------------------------------------------------------------------------
struct Dir {
  std::string path;
  Dir() { char t[] = "/tmp/c37.XXXXXX"; if (!mkdtemp(t)) throw pbt::Discard{}; path = t; }
  std::vector<std::string> files;
  std::string file(const std::string& n) { files.push_back(path + "/" + n); return files.back(); }
  ~Dir() { for (auto& f : files) unlink(f.c_str()); rmdir(path.c_str()); }
};
static std::vector<std::string> split(const char* name) {
  std::vector<std::string> r;
  const char* e = getenv(name);
  std::istringstream in(e ? e : "");
  for (std::string w; in >> w;) r.push_back(w);
  return r;
}
static int run(const std::vector<std::string>& cmd, const std::string& output) {
  std::vector<char*> a;
  for (auto& c : cmd) a.push_back((char*)c.c_str());
  a.push_back(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(output.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    struct rlimit l = {120, 120};
    setrlimit(RLIMIT_CPU, &l);
    execvp(a[0], a.data());
    _exit(127);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static std::string slurp(const std::string& f, size_t max) {
  std::ifstream in(f);
  std::string s((std::istreambuf_iterator<char>(in)), {});
  size_t e = s.find("error:");
  if (e == std::string::npos) e = s.find("undefined");
  if (e == std::string::npos) e = s.find("multiple");
  if (e != std::string::npos && s.size() > max) s = s.substr(e > 200 ? e - 200 : 0);
  return s.substr(0, max);
}

// What the use gives in a program with just the headers that it needs. run.py builds those.
static Bytes hex(const std::string& s) {
  Bytes b;
  for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)strtoul(s.substr(i, 2).c_str(), nullptr, 16));
  return b;
}
static Bytes single(Dir& d, size_t snippet, uint64_t x) {
  static const auto programs = split("PBT_SINGLE");
  if (programs.size() != snippets.size() || programs[snippet] == "-") {
    // its header is judged on its own, in alone(); if that is in order, the use is not one that the library offers
    fprintf(stderr, "the use of %s does not build in a program of its own\n", snippets[snippet].header);
    _exit(99);
  }
  std::string out = d.file("single.out");
  int rc = run({programs[snippet], std::to_string(x)}, out);
  CHECK(rc == 0, "a program that uses just " << snippets[snippet].header << " ends with " << rc << " for " << x);
  return hex(slurp(out, 1 << 20));
}

struct Use { size_t snippet; uint64_t x; };
struct Unit { std::vector<std::string> includes; std::vector<Use> uses; };
static Unit gen_unit(Gen& g, const std::vector<size_t>& choice) {
  Unit u;
  for (size_t s : choice) {
    if (*snippets[s].also && g.coin()) u.includes.push_back(snippets[s].also);
    u.includes.push_back(snippets[s].header);
    if (*snippets[s].also) u.includes.push_back(snippets[s].also);
    if (!g.chance(1, 6)) u.uses.push_back({s, g.raw(100000)});
    if (g.chance(1, 8)) u.includes.push_back(g.pick(u.includes));   // once more
  }
  return u;
}
static std::string text(const Unit& u, const std::string& fn) {
  std::string t;
  for (auto& i : u.includes) t += "#include <" + i + ">\n";
  t += "#include <sstream>\n#include <string>\n#include <vector>\nnamespace { template <class C> void put(std::vector<uint8_t>& out, const C& c) { for (auto v : c) out.push_back((uint8_t)v); } }\n";
  t += "namespace Caligo {}\nvoid " + fn + "(std::vector<std::vector<uint8_t>>& all) {\n  using namespace Caligo;\n";
  for (auto& s : u.uses) t += "  { std::vector<uint8_t> out; uint64_t x = " + std::to_string(s.x) + "ull; " + snippets[s.snippet].code + " all.push_back(out); }\n";
  return t + "}\n";
}
static void program(Gen& g, std::vector<Unit> units) {
  static const auto cxx = split("PBT_CXX"), flags = split("PBT_QUICK"), optimised = split("PBT_FLAGS"), lib = split("PBT_LIB");
  if (cxx.empty() || lib.empty()) { fprintf(stderr, "PBT_CXX, PBT_FLAGS and PBT_LIB are not set\n"); _exit(99); }
  Dir d;
  std::vector<std::string> objects;
  std::string what, main = "#include <cstdio>\n#include <cstdint>\n#include <vector>\n", calls;
  std::vector<Bytes> expected;
  for (size_t i = 0; i < units.size(); i++) {
    std::string fn = "unit" + std::to_string(i), src = d.file(fn + ".cpp"), obj = d.file(fn + ".o"), err = d.file(fn + ".err");
    what += (i ? " | " : "");
    for (auto& h : units[i].includes) what += h + " ";
    std::ofstream(src) << text(units[i], fn);
    main += "void " + fn + "(std::vector<std::vector<uint8_t>>&);\n";
    calls += "  " + fn + "(all);\n";
    for (auto& u : units[i].uses) {
      expected.push_back(single(d, u.snippet, u.x));
    }
    std::vector<std::string> cmd = cxx;
    if (g.chance(1, 10)) {
      cmd.insert(cmd.end(), optimised.begin(), optimised.end());
      cmd.push_back("-O2");
    } else {
      cmd.insert(cmd.end(), flags.begin(), flags.end());
    }
    cmd.insert(cmd.end(), {"-c", src, "-o", obj});
    if (i == 0) g.note("units with ", what);
    int rc = run(cmd, err);
    CHECK(rc == 0, "a unit that includes " << what << "does not compile (" << rc << "): " << slurp(err, 1500));
    objects.push_back(obj);
  }
  main += "int main() {\n  std::vector<std::vector<uint8_t>> all;\n" + calls + "  for (auto& v : all) { for (auto b : v) printf(\"%02x\", b); printf(\"\\n\"); }\n}\n";
  g.note("units: ", what);
  std::string src = d.file("main.cpp"), exe = d.file("program"), err = d.file("link.err"), out = d.file("out");
  std::ofstream(src) << main;
  std::vector<std::string> cmd = cxx;
  cmd.insert(cmd.end(), flags.begin(), flags.end());
  cmd.insert(cmd.end(), {src});
  cmd.insert(cmd.end(), objects.begin(), objects.end());
  cmd.insert(cmd.end(), lib.begin(), lib.end());
  cmd.insert(cmd.end(), {"-lpthread", "-o", exe});
  int rc = run(cmd, err);
  CHECK(rc == 0, "a program of units that include " << what << "does not link (" << rc << "): " << slurp(err, 1500));
  rc = run({exe}, out);
  CHECK(rc == 0, "a program of units that include " << what << "ends with " << rc << ": " << slurp(out, 400));
  std::ifstream in(out);
  size_t n = 0;
  for (auto& u : units) for (auto& use : u.uses) {
    std::string line, want;
    std::getline(in, line);
    static const char* hexd = "0123456789abcdef";
    for (uint8_t b : expected[n]) { want += hexd[b >> 4]; want += hexd[b & 15]; }
    CHECK(line == want, "the use of " << snippets[use.snippet].header << " with " << use.x << " in a program of units that include " << what << "gives " << line.substr(0, 200) << ", expected " << want.substr(0, 200));
    n++;
  }
  if (n > 1) g.nontrivial();
}
static std::vector<size_t> subset(Gen& g, size_t n) {
  std::vector<size_t> all(snippets.size()), r;
  for (size_t i = 0; i < all.size(); i++) all[i] = i;
  while (r.size() < n && !all.empty()) { size_t k = g.raw(all.size() - 1); r.push_back(all[k]); all.erase(all.begin() + (long)k); }
  return r;
}
// A header alone, and once more after itself or another one.
PROP(alone, 64, 400) {
  static const auto cxx = split("PBT_CXX"), flags = split("PBT_QUICK"), lib = split("PBT_LIB");
  static const std::vector<std::string> headers = [&] {
    std::vector<std::string> r;
    namespace fs = std::filesystem;
    for (auto& e : fs::recursive_directory_iterator(flags.back())) if (e.path().extension() == ".h") r.push_back(fs::relative(e.path(), flags.back()).string());
    std::sort(r.begin(), r.end());
    return r;
  }();
  std::vector<std::string> in{headers[g.walk(headers.size())]};
  if (g.coin()) in.push_back(g.coin() ? in[0] : g.pick(headers));
  if (in.size() == 2 && g.coin()) std::swap(in[0], in[1]);
  Dir d;
  std::string src = d.file("a.cpp"), second = d.file("b.cpp"), err = d.file("err"), exe = d.file("a.exe"), what;
  std::string t;
  for (auto& h : in) t += "#include <" + h + ">\n", what += h + " ";
  std::ofstream(src) << t << "int main() {}\n";
  std::ofstream(second) << t;
  std::vector<std::string> cmd = cxx;
  cmd.insert(cmd.end(), flags.begin(), flags.end());
  cmd.insert(cmd.end(), {src, second});
  cmd.insert(cmd.end(), lib.begin(), lib.end());
  cmd.insert(cmd.end(), {"-lpthread", "-o", exe});
  g.label(in.size() == 1 ? "one header" : in[0] == in[1] ? "a header twice" : "two headers");
  g.note("two units that include ", what);
  if (in.size() > 1) g.nontrivial();
  int rc = run(cmd, err);
  CHECK(rc == 0, "a program of two units that include " << what << "does not build (" << rc << "): " << slurp(err, 1500));
}
// Every header twice: two units that include the same one.
PROP(the_same_header, 31, 124) {
  size_t s = g.walk(snippets.size());
  g.label("the same header in two units");
  program(g, {gen_unit(g, {s}), gen_unit(g, {s})});
}
PROP(every_header, 3, 40) {   // everything, in any order, in two units
  g.label("all headers in any order");
  program(g, {gen_unit(g, subset(g, snippets.size())), gen_unit(g, subset(g, snippets.size()))});
}
PROP(programs, 32, 1500) {
  std::vector<Unit> units;
  size_t n = g.range(1, 3);
  for (size_t i = 0; i < n; i++) units.push_back(gen_unit(g, subset(g, g.range(1, 6))));
  g.label(std::to_string(n) + " units");
  program(g, units);
}
// What one unit queues, another draws: the state of the random source is one for the whole program.
static void queue(Gen& g) {
  static const auto cxx = split("PBT_CXX"), flags = split("PBT_QUICK"), lib = split("PBT_LIB");
  Dir d;
  uint64_t v = g.u64();
  std::string a = d.file("a.cpp"), b = d.file("b.cpp"), exe = d.file("program"), err = d.file("err"), out = d.file("out");
  std::ofstream(a) << "#include <caligo/random.h>\nvoid put() { Caligo::testValues.push_back(" << v << "ull); }\nuint64_t also() { return Caligo::generate_random_value(); }\n";
  std::ofstream(b) << "#include <caligo/" << g.pick({"x25519.h", "bignum.h", "random.h", "rsa.h", "random_prime.h"}) << ">\n#include <cstdio>\nvoid put(); uint64_t also();\nint main() { put(); printf(\"%016llx\\n\", (unsigned long long)Caligo::generate_random_value()); printf(\"%d\\n\", also() != Caligo::generate_random_value()); }\n";
  std::vector<std::string> cmd = cxx;
  cmd.insert(cmd.end(), flags.begin(), flags.end());
  cmd.insert(cmd.end(), {a, b});
  cmd.insert(cmd.end(), lib.begin(), lib.end());
  cmd.insert(cmd.end(), {"-lpthread", "-o", exe});
  g.note("value ", v, " queued by one unit and drawn by another");
  g.nontrivial();
  int rc = run(cmd, err);
  CHECK(rc == 0, "a program of two units that draw random values does not build: " << slurp(err, 1500));
  rc = run({exe}, out);
  char want[32];
  snprintf(want, sizeof want, "%016llx\n1\n", (unsigned long long)v);
  CHECK(rc == 0 && slurp(out, 100) == want, "another unit drew " << slurp(out, 100) << " after " << want << " was queued");
}
PROP(one_source, 6, 40) { g.label("shared random source"); queue(g); }
