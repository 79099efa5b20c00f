#!/usr/bin/env python3
"""Builds one check from /repo's working tree, runs it, writes evidence and replay files.

  run.py C08 [--tier quick|thorough] [--seed N] [--replay FILE]
  run.py --setup          (tool presence, oracle self-tests)
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CALIGO_REPO", "/repo")
BUILD = os.environ.get("CALIGO_VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from checks.registry import CHECKS, ASSUMPTIONS  # noqa: E402

CXX = "clang++-18"
BASE = ["-std=gnu++20", "-g1", "-maes", "-mpclmul", "-fno-omit-frame-pointer", "-w"]
for h in "cstring algorithm memory variant filesystem stdexcept functional array cstdint span string vector".split():
    BASE += ["-include", h]
MODES = {
    # sanitized: memory errors and container misuse become crashes the engine attributes to a case
    "asan": ["-O1", "-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
    "fast": ["-O2", "-DPBT_FAST", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread"],
    # every block entered and every address touched is reported to checks/c34_runtime.cpp; the project's optimisation level
    "trace": ["-O2", "-DPBT_FAST", "-fsanitize-coverage=trace-pc-guard,no-prune,trace-loads,trace-stores", "-fsanitize=kernel-address"] + [x for o in
              ("instrument-reads=0", "instrument-writes=0", "instrument-atomics=0", "stack=0", "globals=0", "instrument-byval=0", "kernel-mem-intrinsic-prefix=1") for x in ("-mllvm", "-asan-" + o)],
    # every block entered is reported to checks/c38_runtime.cpp
    "count": ["-O2", "-DPBT_FAST", "-fsanitize-coverage=trace-pc-guard,no-prune"],
    "fuzz": ["-O1", "-fsanitize=fuzzer-no-link,address,bounds", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
}
LINK = {
    "asan": ["-fsanitize=address,bounds"],
    "fast": [],
    "tsan": ["-fsanitize=thread"],
    "trace": [],
    "count": [],
    "fuzz": ["-fsanitize=fuzzer,address,bounds"],
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_digest(root, pats):
    h = hashlib.sha256()
    for pat in pats:
        for f in sorted(glob.glob(os.path.join(root, pat), recursive=True)):
            if os.path.isfile(f):
                h.update(os.path.relpath(f, root).encode() + b"\0")
                with open(f, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


class BuildError(Exception):
    pass


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (src, r.stdout[-6000:]))
    os.replace(tmp, obj)


def build(pid, mode, defs=()):
    """Returns the path of the executable for check `pid` in sanitizer mode `mode`."""
    c = CHECKS[pid]
    incs = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "engine"), "-I", os.path.join(VERIF, "checks")]
    flags = BASE + MODES[mode] + ["-D%s" % d for d in defs]
    hdr = tree_digest(os.path.join(REPO, "include"), ["**/*"])
    vh = tree_digest(VERIF, ["engine/*.h", "checks/*.h"])
    jobs, objs = [], []

    def add(src, deps, fl):
        with open(src, "rb") as f:
            obj = os.path.join(BUILD, mode, sha(f.read(), src, " ".join(fl), deps) + ".o")
        jobs.append((src, obj, fl))
        objs.append(obj)

    if "src" in c:
        add(os.path.join(VERIF, "checks", c["src"]), hdr + vh, flags + incs)
    # every library source: which file holds what is the library's business
    first = len(objs)
    for s in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
        add(s, hdr, flags + incs[:2])
    lib = objs[first:]
    for extra in c.get("extra", []):
        add(os.path.join(VERIF, "checks", extra), hdr + vh, flags + incs)
    if mode != "fuzz":
        add(os.path.join(VERIF, "engine", "pbt.cpp"), vh, BASE + ["-O2"] + (["-fsanitize=thread"] if mode == "tsan" else []) + incs[2:])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(compile_one, jobs))
    if "snippets" in c:
        single_programs(c["snippets"], BASE + incs[:2], lib, hdr)
    libs = ["-lcrypto", "-lgmp", "-lpthread"]
    exe = os.path.join(BUILD, mode, pid + "-" + sha(*objs, " ".join(LINK[mode])))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX, *LINK[mode], "-fuse-ld=lld" if shutil.which("ld.lld") else "-O0", *objs, *libs, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("link: " + r.stdout[-6000:])
        os.replace(tmp, exe)
    return exe


def single_programs(name, flags, lib, deps):
    """For C37, which builds programs of its own: one program per use of the library, with just the headers that it
    needs. Names them, or '-' where one can't be built, in PBT_SINGLE."""
    with open(os.path.join(VERIF, "checks", name)) as f:
        uses = re.findall(r'^SNIPPET2?\("([^"]*)", (?:"([^"]*)", )?(\{.*\})\)$', f.read(), re.M)

    os.makedirs(os.path.join(BUILD, "single"), exist_ok=True)
    # the standard headers that the build forces in, once
    std = [flags[i + 1] for i, f in enumerate(flags) if f == "-include"]
    rest = [f for i, f in enumerate(flags) if f != "-include" and (i == 0 or flags[i - 1] != "-include")]
    pch = os.path.join(BUILD, "single", sha(CXX, " ".join(flags)) + ".pch")
    if not os.path.exists(pch):
        with open(pch[:-4] + ".h", "w") as f:
            f.write("".join("#include <%s>\n" % h for h in std))
        tmp = pch + ".%d.tmp" % os.getpid()
        subprocess.run([CXX, *rest, "-O0", "-x", "c++-header", pch[:-4] + ".h", "-o", tmp], check=True)
        os.replace(tmp, pch)
    quick = ["-O0", "-include-pch", pch, *rest]

    def one(use):
        text = "".join("#include <%s>\n" % h for h in ("sstream", use[0], use[1], "cstdio", "cstdlib") if h)
        text += "namespace Caligo {}\ntemplate <class C> static void put(std::vector<uint8_t>& out, const C& c) { for (auto v : c) out.push_back((uint8_t)v); }\n"
        text += "int main(int, char** argv) { using namespace Caligo; uint64_t x = strtoull(argv[1], 0, 10); std::vector<uint8_t> out;\n%s\nfor (auto b : out) printf(\"%%02x\", b); }\n" % use[2]
        src = os.path.join(BUILD, "single", sha(text, deps, " ".join(flags + lib)) + ".cpp")
        exe = src[:-4]
        if not os.path.exists(exe):
            with open(src, "w") as f:
                f.write(text)
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run([CXX, *quick, src, *lib, "-lpthread", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return "-"
            os.replace(tmp, exe)
        return exe

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        os.environ.update(PBT_CXX=CXX, PBT_FLAGS=" ".join(flags), PBT_QUICK=" ".join(quick), PBT_LIB=" ".join(lib), PBT_SINGLE=" ".join(ex.map(one, uses)))


def prune():
    """Keeps the build cache small."""
    files = sorted(glob.glob(os.path.join(BUILD, "*", "*")), key=os.path.getmtime, reverse=True)
    total = 0
    for f in files:
        try:
            total += os.path.getsize(f)
            if total > 6 << 30:
                os.unlink(f)
        except OSError:
            pass


def run_engine(exe, pid, phase, tier, seed, out):
    c = CHECKS[pid]
    cap = phase.get("cap", c.get("cap", 40)) if tier == "quick" else phase.get("tcap", c.get("tcap", 700 // len(c.get("phases", [0]))))
    cmd = [exe, "--seed", str(seed), "--out", out, "--cap", str(cap), "--workers", str(phase.get("workers", 8)), "--case-cpu", str(phase.get("case_cpu", 30))]
    if tier == "thorough":
        cmd += ["--thorough", "--shrink", "120"]
    scale = phase.get("scale", c.get("scale", 1)) if tier == "quick" else phase.get("tscale", c.get("tscale", 1))
    if scale != 1:
        cmd += ["--scale", str(scale)]
    if "only" in phase:
        cmd += ["--only", phase["only"]]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=BUILD)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        print(r.stdout[-4000:])
        raise BuildError("engine ended with code %d" % r.returncode)
    with open(out) as f:
        return json.load(f)


def run_fuzz(pid, phase, tier, seed, work):
    """Coverage-guided phase: libFuzzer with a fixed seed; a crash is confirmed by re-running its input."""
    exe = build(pid, "fuzz", ["PBT_LIBFUZZER"])
    corpus = os.path.join(work, "corpus")
    os.makedirs(corpus, exist_ok=True)
    gen = phase.get("seed_corpus")
    if gen:
        gen(corpus, seed)
    n = 8
    secs = phase.get("secs", 12) if tier == "quick" else phase.get("tsecs", 420)
    procs = []
    for k in range(n):
        art = os.path.join(work, "art%d_" % k)
        own = os.path.join(work, "c%d" % k)
        os.makedirs(own, exist_ok=True)
        log = open(os.path.join(work, "log%d" % k), "wb")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_allocation_size_mb=256:allocator_may_return_null=0:symbolize=1")
        procs.append((subprocess.Popen([exe, own, corpus, "-seed=%d" % (seed * 16 + k + 1), "-max_total_time=%d" % secs, "-max_len=%d" % phase.get("max_len", 4096),
                                       "-timeout=25", "-rss_limit_mb=3000", "-artifact_prefix=" + art, "-print_final_stats=1", "-verbosity=1"],
                                      stdout=log, stderr=subprocess.STDOUT, env=env, cwd=work), log, art))
    execs, edges, failure = 0, 0, None
    for p, log, art in procs:
        p.wait()
        log.close()
        with open(log.name, errors="replace") as f:
            txt = f.read()
        for line in txt.splitlines():
            if "stat::number_of_executed_units:" in line:
                execs += int(line.split(":")[-1])
            if " cov: " in line:
                try:
                    edges = max(edges, int(line.split(" cov: ")[1].split()[0]))
                except ValueError:
                    pass
        for a in sorted(glob.glob(art + "*")):
            kind = os.path.basename(a).split("_", 1)[1].split("-")[0]
            if kind == "slow" or failure:
                continue
            hits = 0
            for _ in range(3):
                rr = subprocess.run([exe, "-timeout=25", "-rss_limit_mb=3000", a], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=work)
                if rr.returncode:
                    hits += 1
                    msg = rr.stdout
            if hits == 3:
                small = a + ".min"
                subprocess.run([exe, "-minimize_crash=1", "-max_total_time=20", "-exact_artifact_path=" + small, a], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work)
                best = small if os.path.exists(small) and os.path.getsize(small) else a
                with open(best, "rb") as f:
                    data = f.read()
                i = msg.find("==ERROR")
                failure = {"prop": "libfuzzer", "kind": kind, "message": msg[i if i > 0 else -3000:][:3000], "description": "input bytes (hex)", "bytes": data.hex(), "choices": ""}
    return {"execs": execs, "edges": edges, "failure": failure, "secs": secs}


def replay(pid, path):
    with open(path) as f:
        r = json.load(f)
    mode = r["mode"]
    if r.get("bytes") is not None and r["prop"] == "libfuzzer":
        exe = build(pid, "fuzz", ["PBT_LIBFUZZER"])
        p = path + ".bin"
        with open(p, "wb") as f:
            f.write(bytes.fromhex(r["bytes"]))
        rr = subprocess.run([exe, "-timeout=25", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=BUILD)
        os.unlink(p)
        print(rr.stdout[-3000:])
        bad = rr.returncode != 0
    else:
        exe = build(pid, mode)
        cmd = [exe, "--replay-prop", r["prop"]]
        cmd += ["--replay-batch", r["batch"]] if r.get("batch") else ["--replay-choices", r["choices"]]
        rr = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=BUILD)
        print(rr.stdout[-6000:])
        bad = rr.returncode == 1
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("replay: no violation on this tree")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    if a.setup:
        for t in (CXX,):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        exe = os.path.join(BUILD, "selftest-%d" % os.getpid())
        try:
            subprocess.run([CXX, *BASE, "-O1", "-I", os.path.join(VERIF, "engine"), os.path.join(VERIF, "checks", "selftest.cpp"), "-lcrypto", "-lgmp", "-o", exe], check=True)
            return subprocess.run([exe]).returncode
        finally:
            if os.path.exists(exe):
                os.unlink(exe)
    pid = a.property
    c = CHECKS[pid]
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    seed = abs(seed) or 0x5EED
    t0 = time.time()
    try:
        if a.replay:
            return replay(pid, a.replay)
        phases = c.get("phases", [{"mode": "asan"}])
        for ph in phases:
            if ph["mode"] != "fuzz":
                build(pid, ph["mode"])
        if a.build_only:
            return 0
        build_s = time.time() - t0
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": c["rule"], "samples": [], "classes": {}, "sub_properties": {}, "phases": []}
        failure, unconfirmed, fmode = None, [], None
        for k, ph in enumerate(phases):
            if ph.get("tier") and ph["tier"] != a.tier:
                continue
            if ph["mode"] == "fuzz":
                work = os.path.join(BUILD, "fuzz-%s-%d" % (pid, os.getpid()))
                os.makedirs(work, exist_ok=True)
                try:
                    r = run_fuzz(pid, ph, a.tier, seed, work)
                finally:
                    shutil.rmtree(work, ignore_errors=True)
                cov["evaluations"] += r["execs"]
                cov["phases"].append({"kind": "libFuzzer", "executions": r["execs"], "edges_covered": r["edges"], "seconds": r["secs"]})
                if r["failure"]:
                    failure, fmode = r["failure"], "fuzz"
                    break
                continue
            out = os.path.join(BUILD, "out-%s-%d-%d.json" % (pid, os.getpid(), k))
            try:
                r = run_engine(build(pid, ph["mode"]), pid, ph, a.tier, seed + 7919 * k, out)
            finally:
                if os.path.exists(out):
                    os.unlink(out)
            cov["evaluations"] += r["evaluations"]
            cov["distinct_nontrivial"] += r["distinct_nontrivial"]
            cov["samples"] += r["samples"][:24]
            for l, n in r["labels"].items():
                cov["classes"][l] = cov["classes"].get(l, 0) + n
            for n, v in r["props"].items():
                cov["sub_properties"][n + ("" if ph["mode"] == "asan" else "@" + ph["mode"])] = v
            cov["phases"].append({"kind": "generated cases", "build": ph["mode"], "search_s": r["search_s"], "batches_cut_by_time_cap": r["skipped_batches"]})
            unconfirmed += r["unconfirmed"]
            if r["failure"]:
                failure, fmode = r["failure"], ph["mode"]
                break
        violations = []
        if failure:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            failure.update({"property": pid, "mode": fmode, "seed": seed, "tier": a.tier,
                            "how": "python3 /verif/run.py %s --replay <this file>" % pid})
            path = os.path.join(d, "%s-%s.json" % (pid, sha(json.dumps(failure, sort_keys=True))[:10]))
            with open(path, "w") as f:
                json.dump(failure, f, indent=1)
            violations.append({"replay": path, "sub_property": failure["prop"], "kind": failure["kind"], "message": failure["message"][:1500], "description": failure.get("description", "")[:1500]})
        ev = {"property": pid, "tier": a.tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": ASSUMPTIONS + c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "build_s": round(build_s, 2), "violations": len(violations)}
        if violations:
            ev["violation_details"] = violations
        if unconfirmed:
            ev["coverage"]["unconfirmed_events"] = unconfirmed
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (pid, a.tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, build_s))
        for u in unconfirmed:
            print("unconfirmed (did not reproduce, not reported):", u)
        prune()
        if failure:
            print("in", failure["prop"], "(%s):" % failure["kind"], failure["message"][:1500])
            print("case:", failure.get("description", "")[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, violations[0]["replay"]))
            return 1
        return 0
    except BuildError as e:
        print("ERROR: check could not be built or run:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
