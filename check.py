#!/usr/bin/env python3
"""Solver-based check of one property.

usage: check.py PROPERTY [--tier quick|thorough] [--entry h_x ...] [--keep]

Builds the symbolic executor (symex/) and the LLVM IR of the harness linked
with /repo's current sources, explores every harness of the property, replays
every counterexample against a native build, writes evidence/<id>.json.

exit 0  property held on everything explored (listed findings are printed)
exit 1  VIOLATION, replayed natively
exit 3  no verdict (build failure, unsupported construct, budget, vacuity,
        counterexample that does not reproduce)
"""
import json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)
import props

ENV = {
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
    "CARGO_NET_OFFLINE": "true",
    "ROCKSDB_INCLUDE_DIR": "/usr/include",
    "ROCKSDB_LIB_DIR": "/usr/lib/x86_64-linux-gnu",
    "RUSTFLAGS": "--cap-lints=allow",
    "CARGO_TERM_COLOR": "never",
    "PYO3_PYTHON": "/usr/bin/python3.12",
}


def env(**kw):
    e = dict(os.environ)
    for k in ("CARGO_INCREMENTAL", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(ENV)
    e.update(kw)
    return e


def die(msg):
    print("NO-VERDICT " + msg, flush=True)
    sys.exit(3)


def run(cmd, cwd, e, timeout=800):
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def build_symex():
    r = run(["cargo", "build", "--release", "--offline", "--target-dir", BUILD + "/symex"], VERIF + "/symex", env())
    if r.returncode:
        die("executor does not build\n" + r.stdout[-3000:])
    return BUILD + "/symex/release/symex"


def crate_src(crate):
    """harness sources copied into .build so that cargo never touches committed files"""
    dst = f"{BUILD}/src/{crate}"
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(f"{VERIF}/{crate}", dst, ignore=shutil.ignore_patterns("target", ".build"))
    prep = os.path.join(dst, "prepare.py")
    if os.path.exists(prep):
        r = run([sys.executable, prep, dst, REPO, VERIF], dst, env())
        if r.returncode:
            die("harness preparation failed\n" + r.stdout[-3000:])
    if not os.path.exists(dst + "/Cargo.lock"):
        shutil.copy(REPO + "/Cargo.lock", dst + "/Cargo.lock")
    return dst


def build_ll(p):
    crate, feats = p["crate"], p["features"]
    src = crate_src(crate)
    tgt = f"{BUILD}/{crate}"
    deps = tgt + "/release/deps"
    name = {"harness": "pdbh", "server": "pdbs", "pyb": "pdbp"}.get(crate, crate)
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.endswith(".ll"):
                os.remove(os.path.join(deps, f))
    r = run(["cargo", "rustc", "--release", "--offline", "--target-dir", tgt, "--features", ",".join(["model"] + feats), "--", "--emit=llvm-ir", "-Clink-arg=-Wl,--unresolved-symbols=ignore-all"], src, env())
    if r.returncode:
        die("harness does not build against /repo\n" + r.stdout[-4000:])
    c = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith(name + "-") and f.endswith(".ll")]
    if not c:
        # nothing was rebuilt: force
        os.utime(src + "/src/main.rs")
        r = run(["cargo", "rustc", "--release", "--offline", "--target-dir", tgt, "--features", ",".join(["model"] + feats), "--", "--emit=llvm-ir", "-Clink-arg=-Wl,--unresolved-symbols=ignore-all"], src, env())
        c = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith(name + "-") and f.endswith(".ll")]
    if len(c) != 1:
        die("expected one IR file, found %d\n%s" % (len(c), r.stdout[-2000:]))
    return c[0]


class Native:
    """native replay build, made on first use"""

    def __init__(self, p):
        self.p, self.bin = p, None

    def build(self):
        if self.bin:
            return
        crate = self.p["crate"]
        name = {"harness": "pdbh", "server": "pdbs", "pyb": "pdbp"}.get(crate, crate)
        src = f"{BUILD}/src/{crate}"
        r = run(["cargo", "build", "--profile", "replay", "--offline", "--target-dir", f"{BUILD}/{crate}", "--features", ",".join(["native"] + self.p["features"])], src, env())
        if r.returncode:
            die("native replay build failed\n" + r.stdout[-3000:])
        self.bin = f"{BUILD}/{crate}/replay/{name}"

    def replay(self, entry, inputs, tier, timeout=60):
        self.build()
        scratch = f"{BUILD}/scratch.{os.getpid()}"
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        f = scratch + "/inputs"
        with open(f, "w") as h:
            h.write("\n".join(str(v[2]) for v in inputs) + "\n")
        os.makedirs(scratch + "/db")
        try:
            r = subprocess.run([self.bin, entry, f, str(tier)], cwd=scratch + "/db", env=env(VF_SCRATCH=scratch + "/db", RUST_BACKTRACE="0"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            out, rc = r.stdout.decode("utf-8", "replace"), r.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b"").decode("utf-8", "replace") + "\nVF-TIMEOUT", -999
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, out


def reproduced(v, rc, out):
    if v["kind"] == "assert":
        return rc == 101 and ("VF-FAIL " + v["msg"]) in out
    if v["kind"] == "panic":
        return rc == -6 or rc == 101
    if v["kind"] == "deadlock":
        return rc == -999
    # memory error: natively a crash, a sanitizer-visible effect or a wrong answer
    return rc in (-6, -11, -7, -4, 101)


def facade(per=60):
    """core.py of the Python binding, by CrossHair: (confirmed, violations, problems, seconds)"""
    f = VERIF + "/facade/facade.py"
    py = "/opt/veriftools/pyvenv/bin/python3"
    t = time.time()
    names = re.findall(r"^HARNESSES = \((.*)\)$", open(f).read(), re.M)[0].replace('"', "").split(", ")
    done, bad, problems = [], [], []
    e = env(VF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    for n in names:
        try:
            r = run([py, "-m", "crosshair", "check", "--report_all", "--per_condition_timeout", str(per), "facade." + n], VERIF + "/facade", dict(e, PYTHONPATH=VERIF + "/facade"), timeout=per + 60)
        except subprocess.TimeoutExpired:
            problems.append(f"facade.{n}: no verdict in time")
            continue
        if "Confirmed over all paths" in r.stdout and "error:" not in r.stdout:
            done.append(n)
            continue
        m = re.search(r"error: (.*?) when calling (%s\(.*?\))(?: \(which returns (.*)\))?$" % n, r.stdout, re.M)
        if not m:
            problems.append(f"facade.{n}: no verdict: {r.stdout[-400:].strip()}")
            continue
        q = run([py, f, m.group(2)], VERIF + "/facade", e, timeout=60)
        rec = dict(property="P26", harness="facade." + n, message=m.group(1), call=m.group(2), native_exit=q.returncode, native_output=q.stdout[-1000:], how=f"VF_REPO={REPO} {py} {f} '{m.group(2)}'")
        rp = f"{EVID}/replay_P26_facade_{n}.json"
        json.dump(rec, open(rp, "w"), indent=1)
        if q.returncode == 101:
            bad.append((rp, "facade." + n, dict(kind="assert", msg=f"{m.group(1)} when calling {m.group(2)}", inputs=[])))
        else:
            problems.append(f"facade.{n}: counterexample does not reproduce: {m.group(2)}: {q.stdout[-300:]}")
    return done, bad, problems, time.time() - t


def known_findings():
    k = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "open":
                    k[d["finding"]] = d
    return k


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = []
    i = 1
    p_budget = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 2
        elif a[i] == "--entry":
            only.append(a[i + 1])
            i += 2
        elif a[i] == "--budget":
            p_budget = int(a[i + 1])
            i += 2
        else:
            die("argument " + a[i])
    p = props.PROPS[pid]
    tn = 1 if tier == "thorough" else 0
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    res = {}

    def w(k, f, *x):
        try:
            res[k] = f(*x)
        except SystemExit:
            res[k] = None
            res["failed"] = True

    th = threading.Thread(target=w, args=("symex", build_symex))
    th.start()
    w("ll", build_ll, p)
    th.join()
    if res.get("failed"):
        sys.exit(3)
    t_build = time.time() - t0
    entries = [e for e in p["entries"] if not only or e in only]
    budget = p_budget or p.get("budget", {}).get(tier, 3000 if tn else 500)
    out = f"{BUILD}/{pid}.json"
    if os.path.exists(out):
        os.remove(out)
    cmd = [res["symex"], "--ll", res["ll"], "--out", out, "--threads", "8", "--timeout", str(budget), "--tier", str(tn),
           "--query-timeout", str(p.get("query_ms", 60000 if tn else 30000)), "--max-samples", "40" if tn else "6"]
    if "max_steps" in p:
        cmd += ["--max-steps", str(p["max_steps"])]
    for e in entries:
        cmd += ["--entry", e]
    try:
        r = run(cmd, BUILD, env(), timeout=budget + 240)
    except subprocess.TimeoutExpired:
        die("executor did not stop")
    if r.returncode or not os.path.exists(out):
        die("executor failed\n" + r.stdout[-3000:])
    d = json.load(open(out))
    nat = Native(p)
    known = known_findings()
    problems, violations, findings = [], [], {}
    for h in d["harnesses"]:
        for e, n in h["errors"].items():
            problems.append(f"{h['entry']}: {n} x {e}")
        for v in h["violations"]:
            m = re.match(r"\[K:(\w+)\] ", v["msg"])
            if m and m.group(1) in known and known[m.group(1)]["property"] == pid:
                findings.setdefault(m.group(1), []).append((h["entry"], v))
            else:
                violations.append((h["entry"], v))
        if not h["paths"]:
            problems.append(f"{h['entry']}: no path completed")
    missing = []
    if not only:
        have = {c for h in d["harnesses"] for c in h["covers"]}
        missing = [c for c in p["covers"] if c not in have]
    confirmed = []
    faced = ([], 0.0)
    if p.get("facade") and not only:
        ok, bad, prob, t = facade()
        faced = (ok, t)
        confirmed += bad
        problems += prob
    # violations: replay natively
    for n, (entry, v) in enumerate(violations):
        if len(confirmed) >= 3:
            break
        rc, o = nat.replay(entry, v["inputs"], tn)
        ok = reproduced(v, rc, o)
        rec = dict(property=pid, harness=entry, kind=v["kind"], message=v["msg"], inputs=v["inputs"], trace=v["trace"], native_exit=rc, native_output=o[-2000:], reproduced=ok,
                   how=f"{nat.bin} {entry} <file with the input values, one per line> {tn}")
        rp = f"{EVID}/replay_{pid}_{n}.json"
        json.dump(rec, open(rp, "w"), indent=1)
        if ok:
            confirmed.append((rp, entry, v))
        else:
            problems.append(f"{entry}: counterexample does not reproduce natively ({v['kind']}: {v['msg'][:200]}; native exit {rc}: {o[-300:].strip()}) see {rp}")
    # thorough: passing paths and findings are replayed as well
    validated = 0
    if tn and not confirmed:
        for h in d["harnesses"]:
            todo = [x for x in h["samples"]] + list(h["cover_inputs"].values())
            for s in todo[: p.get("native_samples", 60)]:
                rc, o = nat.replay(h["entry"], s, tn)
                if rc != 0 or "VF-DONE" not in o:
                    problems.append(f"{h['entry']}: passing path differs natively (exit {rc}: {o[-300:].strip()}) inputs {s}")
                else:
                    validated += 1
        for k, l in findings.items():
            entry, v = l[0]
            rc, o = nat.replay(entry, v["inputs"], tn)
            if reproduced(v, rc, o):
                validated += 1
            else:
                problems.append(f"finding {k} does not reproduce natively (exit {rc}: {o[-300:].strip()})")
    tot = lambda k: sum(h[k] for h in d["harnesses"])
    funcs = sorted({f for h in d["harnesses"] for f in h["funcs"] if ("polodb" in f or f.startswith("pdbp::")) and not f.startswith("h_") and "pdbh" not in f.split("::")[0] and "vh_" not in f})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": tot("forks") + tot("jobs"),
            "transitions": tot("insts"),
            "traces_validated_against_impl": validated,
            "samples": [{"harness": h["entry"], "inputs": {n: x for n, _, x in s}} for h in d["harnesses"] for s in h["samples"][:2]],
            "paths_completed": tot("paths"),
            "paths_pruned_by_assumption": tot("pruned"),
            "counting": "states = symbolic states created (forks and job prefixes); transitions = LLVM IR instructions executed symbolically; samples = inputs of completed paths, one witness per path class",
            "assertions_checked": tot("asserts"),
            "assertions_proved_for_all_values": tot("asserts_proved"),
            "solver": d["solver"],
            "solver_queries": tot("queries"),
            "solver_sat": tot("sat"),
            "solver_unsat": tot("unsat"),
            "solver_unknown": tot("unknown"),
            "solver_seconds": round(tot("solver_s"), 2),
            "bounds": p["bounds"] + ("" if not tn else " Thorough: " + p.get("thorough", "same harnesses at their deeper bounds, passing paths replayed natively.")),
            "outside": p["outside"],
            "harnesses": [{k: h[k] for k in ("entry", "paths", "asserts", "queries", "covers", "nfuncs")} for h in d["harnesses"]],
            "functions_encoded": funcs,
            "functions_encoded_total": max([h["nfuncs"] for h in d["harnesses"]] or [0]),
            "known_findings_seen": sorted(findings),
            **({"crosshair": {"file": "py-polodb/polodb/core.py", "confirmed_over_all_paths": faced[0], "seconds": round(faced[1], 1)}} if p.get("facade") else {}),
            "build_s": round(t_build, 1),
        },
        "assumptions": p["assumptions"],
        "violations": len(confirmed),
        "wall_s": round(time.time() - t0, 1),
    }
    json.dump(ev, open(f"{EVID}/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: {tot('paths')} paths, {tot('asserts')} assertions ({tot('asserts_proved')} proved), {tot('queries')} queries, {tot('solver_s'):.1f}s solver, build {t_build:.0f}s, total {time.time()-t0:.0f}s")
    for h in d["harnesses"]:
        print(f"  {h['entry']}: {h['paths']} paths cpu {h['cpu_s']}s covers {len(h['covers'])} violations {h['viol_counts']}")
    for rp, entry, v in confirmed:
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  {entry}: {v['kind']}: {v['msg']}")
        print("  inputs: " + ", ".join(f"{n}={x}" for n, _, x in v["inputs"]))
    if confirmed:
        sys.exit(1)
    for q in problems:
        print("PROBLEM " + q)
    for c in missing:
        print("PROBLEM scenario never reached: " + c)
    if problems or missing:
        sys.exit(3)
    for k in sorted(findings):
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    sys.exit(0)


if __name__ == "__main__":
    main()
