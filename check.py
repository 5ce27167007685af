#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code.

  check.py ID            run the check (VERIF_TIER=quick|thorough)
  check.py --replay F    replay a recorded counterexample against the real build

Steps: compile the harness together with /repo's current sources to LLVM IR;
run engine/ (symbolic executor + z3) on the property's entries; replay every
counterexample, and a sample of the explored paths, against a native build of
the same sources; write evidence/<ID>.json.
"""
import concurrent.futures as cf
import json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DLHN_REPO", "/repo")
H = os.path.join(V, "harness")
W = os.path.join(V, "work")
ENGINE = os.path.join(V, "engine/target/release/symx")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
MASK = 0xFFFFFFFF


def fail(msg, code=2):
    print("ERROR:", msg)
    sys.stdout.flush()
    sys.exit(code)


def fnv(s):
    h = 0x811C9DC5
    for b in s.encode():
        h = ((h ^ b) * 0x01000193) & MASK
    return h


def build(cmd, cwd, flags=None):
    env = dict(ENV, RUSTFLAGS=flags) if flags else ENV
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def builds(feature, mode="debug"):
    """LLVM IR and native replay binary. In mode "release" the repository's crate is compiled without debug assertions."""
    off = ["--config", "profile.%s.package.dlhn.debug-assertions=false"]
    cfg = lambda prof: [off[0], off[1] % prof] if mode == "release" else []
    sub = "" if mode == "debug" else "-" + mode
    jobs = {
        "engine": (["cargo", "build", "--release", "--offline"], os.path.join(V, "engine")),
        "ir": (
            ["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--features", feature + ",sym",
             "--target-dir", os.path.join(W, "sym" + sub)] + cfg("release") + ["--", "--emit=llvm-ir"], H,
            "-Cno-vectorize-loops -Cno-vectorize-slp"),
        "native": (
            ["cargo", "build", "--profile", "native", "--offline", "--bin", "replay", "--features", feature + ",native",
             "--target-dir", os.path.join(W, "native" + sub)] + cfg("native"), H),
    }
    with cf.ThreadPoolExecutor(3) as ex:
        futs = {k: ex.submit(build, *v) for k, v in jobs.items()}
        for k, f in futs.items():
            rc, out = f.result()
            if rc != 0:
                print(out[-6000:])
                fail("building %s failed" % k)
    return os.path.join(W, "sym" + sub, "release/deps/harness.ll"), os.path.join(W, "native" + sub, "native/replay")


def modes():
    """The crate is decided as compiled with debug assertions; also without them if that can make a difference."""
    for d in ("dlhn/src", "dlhn_derive/src"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for fn in files:
                if fn.endswith(".rs") and re.search(r"debug_assert", open(os.path.join(root, fn), errors="replace").read()):
                    return ["debug", "release"]
    return ["debug"]


def harness_info(pid):
    f = pid.lower()
    src = open(os.path.join(H, "src", f + ".rs")).read()
    info = {"entries": [], "bounds": [], "assumptions": [], "opts": []}
    for m in re.finditer(r"^//! (bound|assume|opts|opts-thorough): ?(.*(?:\n//!   .*)*)", src, re.M):
        t = re.sub(r"\n//!\s+", " ", m.group(2)).strip()
        if m.group(1) == "bound":
            info["bounds"].append(t)
        elif m.group(1) == "assume":
            info["assumptions"].append(t)
        elif m.group(1) == "opts" or TIER == "thorough":
            info["opts"] += t.split()
    for m in re.finditer(r"((?:^[ \t]*//@.*\n)*)^[ \t]*fn (%s_\w+)\(p\)" % f, src, re.M):
        d = dict(kv.split("=", 1) for l in m.group(1).splitlines() for kv in l.split("//@")[1].split())
        spec = d.get(TIER, d.get("quick", "0"))
        if spec == "none":
            continue
        ps = []
        for part in spec.split(","):
            a, _, b = part.partition("-")
            ps += list(range(int(a), int(b or a) + 1))
        info["entries"].append((m.group(2), ps))
    # labels that must be exercised somewhere (vacuity guard)
    code = re.sub(r"//.*", "", src)
    info["reach"] = set(re.findall(r'reach!\(\s*"([^"]+)"\s*\)', code))
    info["checks"] = set()
    for m in re.finditer(r"check!\(", code):
        i, depth, s = m.end(), 1, ""
        instr = False
        while depth and i < len(code):
            c = code[i]
            if c == '"' and code[i - 1] != "\\":
                instr = not instr
            elif not instr and c in "([{":
                depth += 1
            elif not instr and c in ")]}":
                depth -= 1
            s += c
            i += 1
        lab = re.findall(r'"([^"]+)"', s)
        if lab and not s.strip().startswith("false") and not lab[-1].startswith("kf: "):
            info["checks"].add(lab[-1])
    names = {}
    for fn in os.listdir(os.path.join(H, "src")):
        if fn.endswith(".rs"):
            for l in re.findall(r'"([^"\n]+)"', open(os.path.join(H, "src", fn)).read()):
                names[fnv(l)] = l
    info["names"] = names
    return info


def native(binary, entry, param, inp, limit, timeout=20):
    """Outcome of the real build on one input."""
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run([binary, entry, str(param), inp, str(limit)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=timeout, preexec_fn=lim, cwd="/tmp")
    except subprocess.TimeoutExpired:
        return "hang", "still running after %d s" % timeout, []
    out = p.stdout.decode("utf8", "replace")
    obs = [int(x) for x in re.findall(r"^OBS (\d+)$", out, re.M)]
    last = (out.strip().splitlines() or [""])[-1]
    kind = {0: "ok", 10: "check", 11: "assume", 12: "alloc", 13: "noentry", 101: "panic"}.get(p.returncode)
    if kind is None:
        kind = "crash"
        last = "terminated with status %d" % p.returncode
    if kind == "ok" and not out.strip().endswith("DONE"):
        kind = "crash"
    return kind, last, obs


def known(pid):
    r = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) entry=(\S+) param=(\S+) kind=(\S+) site=\"([^\"]*)\" what=(.*)", l)
            if m and m.group(1) == pid:
                r.append(dict(entry=m.group(2), param=m.group(3), kind=m.group(4), site=m.group(5), what=m.group(6).strip()))
    return r


def vmsg(v, names):
    if v["kind"] == "check":
        return names.get(int(v["msg"].split()[1]), v["msg"])
    return v["msg"]


def replay_file(path):
    r = json.load(open(path))
    _, binary = builds(r["property"].lower(), r.get("mode", "debug"))
    k, msg, _ = native(binary, r["entry"], r["param"], r["input"], r["alloc_limit"], 60)
    print("%s %s(%d) on input %s: %s %s" % (r["property"], r["entry"], r["param"], r["input"], k, msg))
    sys.exit(0 if k == "ok" else 1)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        replay_file(sys.argv[2])
    pid = sys.argv[1]
    t0 = time.time()
    os.makedirs(W, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    info = harness_info(pid)
    opts = info["opts"]
    alloc_limit = 64 << 20
    if "--alloc-limit" in opts:
        alloc_limit = int(opts[opts.index("--alloc-limit") + 1])
    budget = 600 if TIER == "quick" else 4 * 3600
    tb = 0
    r = None
    for mode in modes():
        t1 = time.time()
        ll, binary = builds(pid.lower(), mode)
        tb += time.time() - t1
        out = os.path.join(W, "%s-%s.json" % (pid, mode))
        if os.path.exists(out):
            os.unlink(out)
        left = max(60, int(budget - (time.time() - t0 - tb)))
        cmd = [ENGINE, ll, "--out", out, "--jobs", str(min(8, os.cpu_count() or 1)), "--timeout", str(left),
               "--query-timeout", "60000" if TIER == "quick" else "600000", "--samples", "8"] + opts
        for n, ps in info["entries"]:
            for p in ps:
                cmd += ["--entry", "%s:%d" % (n, p)]
        e = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if e.returncode != 0 or not os.path.exists(out):
            print(e.stdout[-4000:])
            fail("the symbolic executor failed (status %d)" % e.returncode)
        one = json.load(open(out))
        for x in one["entries"]:
            x["binary"], x["mode"] = binary, mode
        if r is None:
            r = one
        else:
            r["entries"] += one["entries"]

    kf = known(pid)
    inconclusive, undecided, violations, findings = [], [], [], []
    incomplete = set()
    reached, checked = set(), {}
    valid = 0
    samples = []
    jobs = []
    ex = cf.ThreadPoolExecutor(8)
    for x in r["entries"]:
        nm = "%s(%d)%s" % (x["entry"], x["param"], "" if x["mode"] == "debug" else " without debug assertions")
        for k, n in x["errors"].items():
            if "does not satisfy" in k:
                inconclusive.append("%s: %s (x%d)" % (nm, k, n))
            else:  # ran out of time, or met something the engine cannot encode
                undecided.append("%s: %s (x%d)" % (nm, k, n))
                incomplete.add(nm)
        reached |= set(x["reached"])
        for k, n in x["check_ids"].items():
            checked[int(k)] = checked.get(int(k), 0) + n
        if not x["violations"] and not x["check_ids"] and not x["reached"] and not x["errors"]:
            inconclusive.append("%s: vacuous, no check or witness was reached" % nm)
        seen = set()
        for v in x["violations"]:
            m = vmsg(v, info["names"])
            if (v["kind"], m) in seen:
                continue
            seen.add((v["kind"], m))
            jobs.append(("v", x, v, m, ex.submit(native, x["binary"], x["entry"], x["param"], v["input"], alloc_limit)))
        for s in x["samples"][: 4 if TIER == "quick" else 8]:
            jobs.append(("s", x, s, None, ex.submit(native, x["binary"], x["entry"], x["param"], s["input"], alloc_limit, 60)))
    for t, x, v, m, f in jobs:
        k, msg, obs = f.result()
        nm = "%s(%d)%s" % (x["entry"], x["param"], "" if x["mode"] == "debug" else " without debug assertions")
        if t == "s":
            if k == "ok" and obs == v["obs"]:
                valid += 1
                if len(samples) < 12:
                    samples.append({"entry": nm, "input": v["input"][:400], "observed": v["obs"][:8]})
            else:
                inconclusive.append("%s: native run of input %s disagrees with the symbolic run: %s %s obs %s, expected %s"
                                    % (nm, v["input"][:200], k, msg, obs[:6], v["obs"][:6]))
            continue
        rec = {"property": pid, "entry": x["entry"], "param": x["param"], "kind": v["kind"], "site": m, "input": v["input"],
               "alloc_limit": alloc_limit, "mode": x["mode"], "stack": v["stack"], "native": "%s %s" % (k, msg)}
        if k in ("ok", "assume", "noentry"):
            # a limit of the engine (instructions, call depth) that the real code stays within, or an imprecision of
            # the engine: the entry was not decided
            undecided.append("%s: counterexample does not reproduce natively: %s %s on input %s" % (nm, v["kind"], m, v["input"][:200]))
            incomplete.add(nm)
            continue
        hit = [q for q in kf if q["entry"] == x["entry"] and q["param"] in ("*", str(x["param"])) and q["kind"] == v["kind"]
               and m.startswith(q["site"])]
        if hit:
            findings.append((hit[0], rec))
        else:
            violations.append(rec)
    ex.shutdown()
    if not violations:
        if 4 * len(incomplete) > len(r["entries"]):
            inconclusive.append("%d of %d entries are not completely explored" % (len(incomplete), len(r["entries"])))
        for l in sorted(info["reach"]):
            if fnv(l) not in reached:
                (undecided if incomplete else inconclusive).append("vacuity: witness %r was never reached" % l)
        for l in sorted(info["checks"]):
            if fnv(l) not in checked:
                (undecided if incomplete else inconclusive).append("vacuity: check %r was never evaluated" % l)

    sm = lambda k: sum(x[k] for x in r["entries"])
    fns = {}
    for f, n, l in r["source"]:
        if "/repo/" in f or f.startswith("dlhn"):
            fns.setdefault((f.replace(REPO + "/", "").lstrip("/"), n), set()).add(l)
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": sm("paths") + sm("forks"),
            "transitions": sm("steps"),
            "traces_validated_against_impl": valid,
            "samples": samples,
            "paths": sm("paths"), "paths_ending_in_an_assumption": sm("assumed_out"), "forks": sm("forks"),
            "assertions_evaluated": sm("checks"),
            "queries": sm("queries"), "sat": sm("sat"), "unsat": sm("unsat"), "unknown": sm("unknown"),
            "solver_s": round(sum(x["solver_s"] for x in r["entries"]), 3),
            "solver": "z3 (system libz3), quantifier-free bit-vectors",
            "ir_functions_executed": r["ir_functions"],
            "functions_encoded": ["%s: %s (%d lines)" % (f, n, len(l)) for (f, n), l in sorted(fns.items())],
            "bounds": info["bounds"],
            "entries": [{"entry": "%s(%d)" % (x["entry"], x["param"]), "paths": x["paths"], "queries": x["queries"],
                         "solver_s": x["solver_s"], "violations": len(x["violations"])} for x in r["entries"]],
            "known_findings_seen": [q["what"] for q, _ in findings],
            "inconclusive": inconclusive,
            "undecided": undecided,
            "entries_completely_explored": len(r["entries"]) - len(incomplete),
            "build_s": round(tb, 1),
        },
        "assumptions": info["assumptions"] + [
            "x86-64, rustc %s LLVM IR at opt-level 2 with overflow and debug assertions on" % TOOLCHAIN,
            "the allocator never fails below the allocation limit of %d bytes" % alloc_limit,
            "IR semantics as implemented in engine/ (sampled paths are re-run natively and must agree)",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    done = set()
    for q, rec in findings:
        if id(q) not in done:
            done.add(id(q))
            print("KNOWN-FINDING: property=%s %s" % (pid, q["what"]))
    print("%s %s: %d paths, %d queries (%.1f s solver), %d assertions, %d traces validated natively, %.1f s"
          % (pid, TIER, sm("paths"), sm("queries"), ev["coverage"]["solver_s"], sm("checks"), valid, time.time() - t0))
    for l in undecided[:20]:
        print("UNDECIDED:", l)
    if violations:
        rd = os.path.join(V, "work", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, rec in enumerate(violations):
            path = os.path.join(rd, "%s-%d.json" % (pid, i))
            json.dump(rec, open(path, "w"), indent=1)
            print("  %s(%d): %s: %s; input %s; native: %s" % (rec["entry"], rec["param"], rec["kind"], rec["site"], rec["input"][:120], rec["native"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if inconclusive:
        for l in inconclusive[:20]:
            print("INCONCLUSIVE:", l)
        sys.exit(2)
    sys.exit(0)


main()
