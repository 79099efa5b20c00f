// C32: every operation gives the result it gives as the first one of a fresh process, whatever was done before.
#include "ops.h"
#include <sys/wait.h>
#include <unistd.h>

constexpr size_t SEEDS = 40;
// What each operation returns as the first thing a process does.
static std::vector<std::vector<Bytes>> first;
static Bytes in_fresh_process(Op op, uint64_t seed) {
  int p[2];
  if (pipe(p)) return {};
  pid_t c = fork();
  if (c == 0) {
    close(p[0]);
    Bytes r;
    try { r = op(seed); r.insert(r.begin(), 'v'); } catch (const std::exception&) { r = {'x'}; }
    for (size_t i = 0; i < r.size();) { ssize_t n = write(p[1], r.data() + i, r.size() - i); if (n <= 0) break; i += (size_t)n; }
    _exit(0);
  }
  close(p[1]);
  Bytes r;
  uint8_t buf[4096];
  for (ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;) r.insert(r.end(), buf, buf + n);
  close(p[0]);
  waitpid(c, nullptr, 0);
  return r;
}
static Bytes here(Op op, uint64_t seed) {
  try { Bytes r = op(seed); r.insert(r.begin(), 'v'); return r; } catch (const std::exception&) { return {'x'}; }
}
static pbt::Setup reference([] {
  for (auto& o : ops()) {
    first.emplace_back();
    for (uint64_t s = 0; s < SEEDS; s++) first.back().push_back(in_fresh_process(o.op, s));
  }
});

static void history(Gen& g, size_t steps, bool few) {
  size_t a = g.raw(ops().size() - 1), b = g.raw(ops().size() - 1);
  size_t operations = 0;
  uint64_t group = g.raw(SEEDS / 4 - 1);
  for (size_t i = 0; i < steps; i++) {
    if (g.chance(1, 4)) {
      auto& d = disturbances()[g.raw(disturbances().size() - 1)];
      uint64_t s = g.raw(1000);
      g.note(d.name, "(", s, ")");
      g.label(d.name);
      d.op(s);
      continue;
    }
    size_t k = few ? (g.coin() ? a : b) : g.raw(ops().size() - 1);
    uint64_t s = few ? group * 4 + g.raw(3) : g.raw(SEEDS - 1);
    g.note(ops()[k].name, "(", s, ")");
    g.label(ops()[k].name);
    Bytes got = here(ops()[k].op, s);
    const Bytes& want = first[k][s];
    CHECK((got.empty() ? 0 : got[0]) == (want.empty() ? 0 : want[0]), ops()[k].name << (want.empty() || want[0] == 'x' ? " succeeds only after other operations" : " fails after other operations"));
    pbt::check_bytes(got, want, std::string(ops()[k].name) + " after " + std::to_string(operations) + " other operations");
    operations++;
  }
  if (operations > 1) g.nontrivial();
}
PROP(mixed, 6000, 200000) { history(g, g.range(2, 24), false); }
PROP(two_kinds, 6000, 200000) { history(g, g.range(2, 16), true); }
