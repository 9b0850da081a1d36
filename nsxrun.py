#!/usr/bin/env python3
"""Runner: compiles a property's harnesses against /repo's current tree, runs the symbolic executor on them,
replays every counterexample natively, validates sample paths natively, writes the evidence file.

  nsxrun.py check <property> [quick|thorough]      run a property's check (exit 0 / 1)
  nsxrun.py replay <file>                          re-run a recorded counterexample against the real code
"""
import fcntl, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from collections import Counter

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NSX_REPO", "/repo")
ENG = os.path.join(V, "engine")
BUILD = os.path.join(ENG, "build")
NSX = os.path.join(BUILD, "nsx")
RTBC = os.path.join(BUILD, "rt.bc")
CLANG = "/usr/lib/llvm-18/bin/clang++"
GXX = "g++-13" if shutil.which("g++-13") else "g++"
DEFS = ["-DNDEBUG", "-DNEOLIB_HOSTED_ENVIRONMENT", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
SAN = "signed-integer-overflow,shift,return,float-cast-overflow"
NCPU = os.cpu_count() or 4


def incs(tmp):
    r = ["-I" + os.path.join(ENG, "rt"), "-I" + os.path.join(V, "harness"), "-I" + os.path.join(REPO, "include")]
    gen = os.path.join(REPO, "_build", "include")
    r.append("-I" + (gen if os.path.exists(os.path.join(gen, "neolib", "neolib_export.hpp")) or glob.glob(gen + "/**/neolib_export.hpp", recursive=True) else os.path.join(V, "harness", "gen")))
    return r


def run(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def setup():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, o = run(["make", "-s", "-j4", "-C", ENG], timeout=1500)
        if rc != 0 or not os.path.exists(NSX):
            print(o); sys.exit(2)
        src = os.path.join(ENG, "rt", "rt.cpp")
        newest = max(os.path.getmtime(os.path.join(ENG, "rt", f)) for f in ("rt.cpp", "streams.inc", "nsx.h"))
        if not os.path.exists(RTBC) or os.path.getmtime(RTBC) < newest:
            rc, o = run([CLANG, "-std=c++20", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-w", "-gline-tables-only",
                         "-fno-access-control", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-emit-llvm", "-c", src, "-o", RTBC + ".tmp"], timeout=600)
            if rc != 0: print(o); sys.exit(2)
            os.rename(RTBC + ".tmp", RTBC)


class Harness:
    def __init__(self, src, flags=(), san=SAN, repo_src=(), opt="-O1", native_opt="-O1", engine=(), uninit=True):
        self.src, self.flags, self.san, self.repo_src, self.opt, self.native_opt = src, list(flags), san, list(repo_src), opt, native_opt
        self.engine = list(engine) + ([] if uninit else ["--no-uninit"])


class Ctx:
    def __init__(self, tmp): self.tmp = tmp; self.nat = {}


def compile_bc(ctx, h):
    outs = []
    for i, s in enumerate([os.path.join(V, "harness", h.src)] + [os.path.join(REPO, r) for r in h.repo_src]):
        o = os.path.join(ctx.tmp, re.sub(r"\W", "_", h.src + "".join(h.flags)) + f".{i}.bc")
        san = ["-fsanitize=" + h.san, "-fsanitize-trap=" + h.san] if h.san else []
        cmd = [CLANG, "-std=c++20", h.opt, "-w", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pie", "-Wno-invalid-constexpr", "-mavx",
               *DEFS, *h.flags, *san, *incs(ctx.tmp), "-emit-llvm", "-c", s, "-o", o]
        rc, out = run(cmd, timeout=300)
        if rc != 0: return None, out
        outs.append(o)
    return outs, ""


def compile_native(ctx, h, kind):
    key = (h.src, tuple(h.flags), kind)
    if key in ctx.nat: return ctx.nat[key]
    o = os.path.join(ctx.tmp, re.sub(r"\W", "_", h.src + "".join(h.flags)) + "." + kind)
    san = {"asan": ["-fsanitize=address" + ("," + h.san if h.san else ""), "-fno-sanitize-recover=all"], "plain": [], "clang": ["-fsanitize=address" + ("," + h.san if h.san else ""), "-fno-sanitize-recover=all"]}[kind]
    cc = CLANG if kind == "clang" or "-fdelayed-template-parsing" in h.flags else GXX  # mutex.hpp is not accepted by g++ 13
    extra = ["-Wno-changes-meaning"] if cc == GXX else ["-Wno-invalid-constexpr"]
    cmd = [cc, "-std=c++20", h.native_opt if kind != "plain" else "-O0", "-g1", "-w", *extra, "-mavx", *DEFS, *h.flags, *san, *incs(ctx.tmp),
           os.path.join(V, "harness", h.src), os.path.join(ENG, "rt", "native.cpp"), *[os.path.join(REPO, r) for r in h.repo_src], "-o", o, "-lpthread"]
    rc, out = run(cmd, timeout=600)
    ctx.nat[key] = o if rc == 0 else None
    if rc != 0: print("note: native build of %s (%s) failed:\n%s" % (h.src, kind, out[-1500:]))
    return ctx.nat[key]


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:malloc_context_size=6:allocation_size_too_big=0", UBSAN_OPTIONS="print_stacktrace=1")


def native_run(ctx, h, kind, params, inputs, timeout=15, valgrind=False):
    exe = compile_native(ctx, h, kind)
    if not exe: return "nobuild", ""
    fd, f = tempfile.mkstemp(dir=ctx.tmp, suffix=".in")
    with os.fdopen(fd, "w") as fh:
        for p in params: fh.write(f"param {p}\n")
        for n, w, v in inputs: fh.write(f"in {v} {n}\n")
    cmd = [exe, f]
    if valgrind: cmd = ["valgrind", "-q", "--error-exitcode=88", "--undef-value-errors=yes"] + cmd; timeout *= 4
    rc, out = run(cmd, timeout=timeout, env=NENV)
    os.unlink(f)
    if rc is None: return "timeout", out
    if rc == 0 and "NSX-DONE" in out: return "ok", out
    if rc == 77: return "diverged", out
    if rc == 66: return "assert", out
    if rc == 67: return "uncaught", out
    return "crash", out


def confirm(ctx, h, params, v):
    """Replay a counterexample natively.  Returns (confirmed, how)."""
    tries = [("asan", False)]
    if v["kind"] == "uninit": tries = [("plain", True), ("asan", False)]
    elif v["kind"] in ("memory", "ub", "assert", "abort", "exception"): tries += [("clang", False)]
    if v["kind"] == "memory": tries += [("plain", True)]
    last = ""
    for kind, vg in tries:
        st, out = native_run(ctx, h, kind, params, v["inputs"], valgrind=vg)
        last = st
        if st in ("assert", "uncaught", "crash") or (st == "timeout" and v["kind"] == "hang"):
            lines = [l for l in out.splitlines() if l.startswith(("NSX-", "==")) or "runtime error" in l or "ERROR" in l or "terminate" in l]
            return True, f"{kind}{'+valgrind' if vg else ''}: {st}: " + " | ".join(lines[:4])
    return False, last


def load_known(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop and k.get("status") == "open"]


def check(prop, tier):
    import props
    P = props.PROPS[prop]
    t0 = time.time()
    setup()
    known = load_known(prop)
    tmp = tempfile.mkdtemp(prefix="nsx_" + prop + "_")
    ctx = Ctx(tmp)
    evdir = os.path.join(V, "evidence"); os.makedirs(evdir, exist_ok=True)
    for f in glob.glob(os.path.join(evdir, prop + ".*replay*.json")): os.unlink(f)
    try:
        return check2(prop, tier, P, ctx, known, evdir, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check2(prop, tier, P, ctx, known, evdir, t0):
    jobs = P["thorough"] if tier == "thorough" and P.get("thorough") else P["quick"]
    hs = []
    for j in jobs:
        if j["h"] not in hs: hs.append(j["h"])
    pool = ThreadPoolExecutor(NCPU)
    bcf = {h: pool.submit(compile_bc, ctx, h) for h in hs}
    natf = {h: pool.submit(compile_native, ctx, h, "asan") for h in hs}
    bcs = {}
    for h in hs:
        bc, err = bcf[h].result()
        if not bc:
            print("harness %s does not compile against the current tree:\n%s" % (h.src, err[-4000:])); return 2
        bcs[h] = bc
    total = Counter(); solver = Counter(); maxq = 0.0
    reach = Counter(); inconcl = Counter(); funcs = {}; lines = {}
    viols = []; samples = []; incomplete = []; jobres = []

    def runjob(ij):
        i, j = ij
        out = os.path.join(ctx.tmp, f"job{i}")
        cmd = [NSX, *bcs[j["h"]], RTBC, "--out", out, "--time", str(j.get("time", 60)), "--steps", str(j.get("steps", 20000000)), "--jobs", str(j.get("jobs", 1)),
               "--samples", str(j.get("samples", 3)), "--qtimeout", str(j.get("qtimeout", 20000)), "--mem", str(j.get("mem", 3000)), *j["h"].engine]
        for p in j.get("params", []): cmd += ["--param", str(p)]
        ts = time.time()
        rc, o = run(cmd, timeout=j.get("time", 60) * 2 + 60)
        return i, j, out, rc, o, time.time() - ts

    wide = [x for x in enumerate(jobs) if x[1].get("jobs", 1) > 1]
    narrow = [x for x in enumerate(jobs) if x[1].get("jobs", 1) <= 1]
    narrow.sort(key=lambda x: -x[1].get("weight", 1))
    results = [runjob(x) for x in wide]
    with ThreadPoolExecutor(NCPU) as jp: results += list(jp.map(runjob, narrow))
    results.sort(key=lambda r: r[0])
    for i, j, out, rc, o, dt in results:
        name = j["h"].src + (" " + " ".join(map(str, j.get("params", []))) if j.get("params") else "")
        files = glob.glob(out + ".*.json")
        nb = 0; extra = 0
        if os.path.exists(out + ".meta"):
            m = json.load(open(out + ".meta")); nb = m["batches"]; extra = m["skipped"] + m["died"] + max(0, nb - len(files))
        if rc != 0 or not files:
            incomplete.append(name + ": engine ended with %s: %s" % (rc, o[-400:])); continue
        jc = Counter()
        for f in files:
            d = json.load(open(f))
            for k in ("paths", "assume_dropped", "error_paths", "inconclusive_paths", "pending", "steps", "forks", "asserts", "asserts_symbolic"): jc[k] += d[k]
            for k, v in d["solver"].items():
                if k == "max_time": maxq = max(maxq, v)
                else: solver[k] += v
            reach.update(d["reach"]); inconcl.update(d["inconclusive"])
            for v in d["violations"]: v["job"] = j; viols.append(v)
            for s in d["samples"][:j.get("samples", 3)]: samples.append((j, s))
            for n, fl, c, b, x in d["functions"]:
                if REPO in fl or "/neolib/" in fl:
                    q = funcs.setdefault(n, [fl, 0, b]); q[1] = max(q[1], c)
            for f2, ls in d["lines"].items(): lines.setdefault(f2, set()).update(ls)
        total.update(jc)
        jobres.append({"job": name, "paths": jc["paths"], "steps": jc["steps"], "wall_s": round(dt, 2), "pending": jc["pending"] + extra})
        if jc["pending"] or extra: incomplete.append(name + ": %d states unexplored when the time ran out" % (jc["pending"] + extra))
    # distinct violations, confirm natively
    seen = set(); vfinal = []; unconf = []; kf = []
    order = {"assert": 0, "memory": 1, "abort": 2, "exception": 3, "ub": 4, "uninit": 5, "hang": 6}
    viols.sort(key=lambda v: (order.get(v["kind"], 9), len(v["inputs"])))
    tried = Counter()
    for v in viols:
        key = (v["job"]["h"].src, v["kind"], v["msg"], v["where"], v["tag"])
        if key in seen: continue
        h = v["job"]["h"]; params = v["job"].get("params", [])
        match = [k for k in known if k.get("tag") and k["tag"] == v["tag"] and (not k.get("kinds") or v["kind"] in k["kinds"]) and (not k.get("msg") or re.search(k["msg"], v["msg"]))]
        if match:
            seen.add(key)
            if match[0]["tag"] not in [k["tag"] for k in kf]: kf.append(match[0])
            continue
        if tried[key] >= 3 or len(vfinal) >= 5 or (vfinal and time.time() - t0 > 500): continue
        tried[key] += 1
        ok, how = confirm(ctx, h, params, v)
        if ok: seen.add(key); vfinal.append((v, how))
        else: unconf.append((v, how))
    unconf = [u for u in unconf if (u[0]["job"]["h"].src, u[0]["kind"], u[0]["msg"], u[0]["where"], u[0]["tag"]) not in seen]
    # validate sample paths against the real code
    validated = 0; mism = []; cap = 400 if tier == "thorough" else 60
    step = max(1, len(samples) // cap)
    pick = samples[::step][:cap]
    for h in hs: natf[h].result()
    def val(js):
        j, s = js
        st, out = native_run(ctx, j["h"], "asan", j.get("params", []), s["inputs"])
        obs = [int(l[4:]) for l in out.splitlines() if l.startswith("OBS ")]
        return js, st, obs, out
    with ThreadPoolExecutor(NCPU) as vp:
        for (j, s), st, obs, out in vp.map(val, pick):
            if st == "ok" and obs == s["obs"]: validated += 1
            elif st in ("assert", "crash", "uncaught") and not vfinal:
                tag = ([l[8:] for l in out.splitlines() if l.startswith("NSX-TAG ")] or [""])[-1]
                if tag and any(k.get("tag") == tag for k in known): continue
                st2, out2 = native_run(ctx, j["h"], "asan", j.get("params", []), s["inputs"])
                if st2 == st:
                    msg = [l for l in out.splitlines() if l.startswith("NSX-") or "ERROR" in l or "runtime error" in l]
                    vfinal.append(({"kind": "native", "msg": "solver-chosen input fails on the native build: " + " | ".join(msg[:3]), "where": "", "tag": tag, "stack": [], "inputs": s["inputs"], "job": j}, "asan: " + st))
            else: mism.append((j["h"].src, j.get("params", []), st, s["obs"][:12], obs[:12], [(n, v) for n, w, v in s["inputs"]][:40], out[-300:] if st != "ok" else ""))
    pool.shutdown()
    missing = [r for r in P.get("reach", []) if not reach.get(r)]
    # report
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, (v, how) in enumerate(vfinal):
        f = os.path.join(evdir, f"{prop}.replay.{n}.json")
        json.dump({"property": prop, "harness": v["job"]["h"].src, "tier": tier, "params": v["job"].get("params", []), "inputs": v["inputs"], "kind": v["kind"], "msg": v["msg"], "where": v["where"], "stack": v["stack"], "native": how,
                   "replay_cmd": f"python3 {V}/nsxrun.py replay {f}"}, open(f, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("   %s: %s at %s" % (v["kind"], v["msg"], v["where"]))
        print("   harness %s %s inputs %s" % (v["job"]["h"].src, v["job"].get("params", []), [(a, c) for a, b, c in v["inputs"]][:40]))
        for s in v["stack"][:6]: print("      " + s)
        print("   native replay: " + how)
    for v, how in unconf[:6]: print("INCONCLUSIVE: counterexample did not reproduce natively (%s): %s %s at %s %s %s" % (how, v["kind"], v["msg"], v["where"], v["job"]["h"].src, [(a, c) for a, b, c in v["inputs"]][:24]))
    for m in mism[:4]: print("INCONCLUSIVE: engine/native mismatch on a sampled path:", m)
    for k, n in inconcl.items(): print("INCONCLUSIVE: %s (%d paths)" % (k, n))
    for s in incomplete: print("INCOMPLETE: " + s)
    if missing: print("INCONCLUSIVE: vacuity: not reached: " + ", ".join(missing))
    if os.environ.get("NSX_LINES"): json.dump({f: sorted(l) for f, l in lines.items()}, open(f"{os.environ['NSX_LINES']}/{prop}.json", "w"))   # development aid: lines reached
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P.get("level", "model_checking"),
          "coverage": {
              "states": total["paths"] + total["forks"], "transitions": total["steps"], "traces_validated_against_impl": validated,
              "samples": [{"harness": j["h"].src, "params": j.get("params", []), "inputs": [[a, c] for a, b, c in s["inputs"]][:40], "observed": s["obs"][:20], "reached": s["reached"]} for j, s in samples[:: max(1, len(samples) // 8)][:8]],
              "bounds": P.get("bounds", {}).get(tier, P.get("bounds", {}).get("quick", "")) if isinstance(P.get("bounds"), dict) else P.get("bounds", ""),
              "exhaustive": not incomplete and not inconcl and not unconf and not mism and not missing,
              "paths_completed": total["paths"], "paths_discarded_by_assumptions": total["assume_dropped"], "assertions_evaluated": total["asserts"], "assertions_with_symbolic_condition": total["asserts_symbolic"],
              "solver_queries": {"smt_discharged": solver["queries"], "unsat": solver["unsat"], "sat": solver["sat"], "unknown": solver["unknown"], "cache_hits": solver["cache_hits"], "byte_domain_decided": solver["domain_decided"], "solver_time_s": round(solver["time"], 3), "slowest_query_s": round(maxq, 3)},
              "functions_encoded": {n: {"at": q[0].replace(REPO + "/", ""), "blocks_covered": q[1], "blocks": q[2]} for n, q in sorted(funcs.items())[:400]},
              "repo_lines_executed": {f.replace(REPO + "/", ""): len(l) for f, l in sorted(lines.items())},
              "reach": dict(reach), "jobs": jobres[:200], "incomplete": incomplete[:50], "inconclusive": dict(inconcl),
              "unconfirmed_counterexamples": len(unconf), "known_findings_seen": [k["tag"] for k in kf],
          },
          "assumptions": P.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(vfinal)}
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    print("%s %s: %d paths, %d steps, %d SMT queries (%.1fs), %d paths validated natively, %d violations, %.1fs wall%s" % (
        prop, tier, total["paths"], total["steps"], solver["queries"], solver["time"], validated, len(vfinal), time.time() - t0, "" if not incomplete else " (INCOMPLETE)"))
    return 1 if vfinal else 0


COMMON_ASSUMPTIONS = [
    "code is executed from clang-18 -O1 LLVM bitcode of /repo's headers/sources; the native replays use g++ 13 with AddressSanitizer/UBSan",
    "libstdc++ code comes from its headers; the parts in shared libraries are modelled by engine/rt/rt.cpp (exceptions, RTTI, rb-tree helpers as a plain BST, hash function = length, C library string/number functions in the C locale)",
    "allocations above 256 MiB fail with std::bad_alloc, smaller ones succeed; single-threaded execution",
]


def replay(f):
    import props
    d = json.load(open(f))
    P = props.PROPS[d["property"]]
    h = next(j["h"] for j in P.get("thorough", []) + P["quick"] if j["h"].src == d["harness"])
    tmp = tempfile.mkdtemp(prefix="nsx_replay_")
    try:
        ctx = Ctx(tmp)
        rc = 0
        for kind, vg in (("asan", False), ("plain", d["kind"] in ("uninit", "memory"))):
            st, out = native_run(ctx, h, kind, d["params"], d["inputs"], valgrind=vg)
            print(f"--- {kind}{' valgrind' if vg else ''}: {st}\n{out[-3000:]}")
            if st not in ("ok", "diverged", "nobuild"): rc = 1
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.path.insert(0, V)
    if sys.argv[1] == "setup": setup(); sys.exit(0)
    if sys.argv[1] == "check": sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")))
    if sys.argv[1] == "replay": sys.exit(replay(sys.argv[2]))
    sys.exit(2)
