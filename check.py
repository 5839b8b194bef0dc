#!/usr/bin/env python3
"""Run the solver-based check of one property:  check.py C04 [quick|thorough]

Regenerates the LLVM IR of the harness and of the crate in /repo from the current
working tree, executes it symbolically (engine/), replays every counterexample on a
natively compiled build of the same sources, and writes evidence/<id>.json.
"""
import fcntl, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "driver"))
sys.dont_write_bytecode = True
import props  # noqa: E402

BUILD = os.path.join(ROOT, "build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
T0 = time.time()


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def sh(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def die(msg):
    print("ERROR: " + msg)
    sys.exit(3)


def build_engine():
    rc, out = sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")], os.path.join(ROOT, "engine"))
    if rc:
        die("engine build failed\n" + out[-3000:])


def build_ir(group):
    td = os.path.join(BUILD, "sym-" + group)
    rc, out = sh(["cargo", "rustc", "--release", "--offline", "--target-dir", td, "--features", group, "--",
                  "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], os.path.join(ROOT, "harness/sym"))
    if rc:
        die("the harness does not compile against /repo\n" + out[-3000:])


def build_replay(group):
    td = os.path.join(BUILD, "replay-" + group)
    rc, out = sh(["cargo", "build", "--release", "--offline", "--target-dir", td, "--features", group], os.path.join(ROOT, "harness/replay"))
    if rc:
        die("the replayer does not compile against /repo\n" + out[-3000:])


def build(group):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(build_engine), ex.submit(build_ir, group), ex.submit(build_replay, group)]
            for f in fs:
                f.result()
    return (os.path.join(BUILD, "engine/release/symex"), os.path.join(BUILD, "sym-%s/release/deps/vsym.ll" % group),
            os.path.join(BUILD, "replay-%s/release/vreplay" % group))


def inputs_arg(inp):
    return ",".join("%d:%d" % (w, v) for w, v in inp) or "-"


def replay(vreplay, run, inp):
    e, a = run.split(":")
    try:
        r = subprocess.run([vreplay, e, a, inputs_arg(inp)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return True, "no end within 60 s"
    return r.returncode != 0, r.stdout.strip()


def known(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    if sys.argv[1] == "--setup":
        for g in sorted({g for p in props.PROPS.values() for g in p["groups"]}):
            build(g)
        return
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[pid]
    groups = P["groups"]
    budget = P.get("budget", {}).get(tier, 200 if tier == "quick" else 780)
    hard = float(os.environ.get("VERIF_DEADLINE", "840"))
    tot = dict(paths=0, forks=0, instrs=0, queries=0, sat=0, unsat=0, cached=0, fallback=0, solver=0.0, maxq=0.0, explore=0.0)
    fns, lines = set(), {}
    runs_ev, viols, internal, samples, problems = [], [], {}, [], []
    validated = mism = 0
    complete = True
    for group in groups:
        symex, ll, vreplay = build(group)
        specs = P[tier] if tier in P else P["quick"]
        specs = [s for s in specs if s.group == group]
        if not specs:
            continue
        left = min(budget - tot["explore"], hard - (time.time() - T0) - 30)
        if left < 5:
            complete = False
            problems.append("time budget used up before group " + group)
            continue
        outp = os.path.join(BUILD, "out-%s-%s.json" % (pid, group))
        cmd = [symex, "--ll", ll, "--out", outp, "--threads", str(os.cpu_count() or 4), "--timeout", "%.0f" % left,
               "--max-instrs", str(P.get("max_instrs", 60_000_000)), "--samples", "16", "--max-viol", "6", "--cov", "/repo/src/"]
        for s in specs:
            cmd += ["--run", s.run]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(outp):
            die("symbolic execution failed\n" + r.stdout[-3000:])
        o = json.load(open(outp))
        os.remove(outp)
        tot["queries"] += o["queries"]
        tot["sat"] += o["sat"]
        tot["unsat"] += o["unsat"]
        tot["cached"] += o["cached"]
        tot["fallback"] += o["fallback"]
        tot["solver"] += o["solver_secs"]
        tot["maxq"] = max(tot["maxq"], o["max_query_secs"])
        tot["explore"] += o["wall"]
        fns.update(o["functions"])
        for f, ls in o["lines"].items():
            lines.setdefault(f, set()).update(ls)
        for k, n in o["internal"]:
            internal[k] = internal.get(k, 0) + n
        byrun = {r["run"]: r for r in o["runs"]}
        batch = []
        for s in specs:
            r = byrun[s.run]
            tot["paths"] += r["paths"]
            tot["forks"] += r["forks"]
            tot["instrs"] += r["instrs"]
            complete = complete and r["complete"]
            runs_ev.append(dict(run=s.run, what=s.what, paths=r["paths"], complete=r["complete"], longest_path_instructions=r["max_instrs"]))
            if r["complete"] and not o["violations"]:
                for b in s.covers:
                    if not r["covers"] >> b & 1:
                        problems.append("%s: situation %d never reached" % (s.run, b))
                if r["paths"] == 0:
                    problems.append("%s: no path" % s.run)
            e, a = s.run.split(":")
            for x in r["samples"]:
                batch.append("%s %s %s %s" % (e, a, x["digest"], inputs_arg(x["inputs"])))
            for x in r["samples"][:1]:
                samples.append(dict(run=s.run, what=s.what, path_witness=inputs_arg(x["inputs"])))
        for v in o["violations"]:
            viols.append((group, vreplay, v))
        if batch:
            bf = os.path.join(BUILD, "batch-%s-%s.txt" % (pid, group))
            open(bf, "w").write("\n".join(batch) + "\n")
            r = subprocess.run([vreplay, "--batch", bf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            os.remove(bf)
            m = re.search(r"BATCH ok=(\d+) bad=(\d+)", r.stdout)
            if not m:
                problems.append("native replay of sampled paths ended abnormally: " + r.stdout[-300:])
            else:
                validated += int(m.group(1))
                mism += int(m.group(2))
                if int(m.group(2)):
                    problems.append("sampled paths behave differently natively: " + r.stdout[:600])
    # counterexamples
    kf = known(pid)
    bad, found_known, unconfirmed = [], {}, []
    rd = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(rd, exist_ok=True)
    for i, (group, vreplay, v) in enumerate(viols):
        rep, text = replay(vreplay, v["run"], v["inputs"])
        if not rep:
            unconfirmed.append("%s %s: %s" % (v["run"], v["kind"], text))
            continue
        sig = "%s | %s | %s | %s" % (v["run"], inputs_arg(v["inputs"]), v["kind"], text)
        hit = [t for rx, t in kf if rx.search(sig)]
        if hit:
            found_known[hit[0]] = 1
            continue
        path = os.path.join(rd, "%s-%d.json" % (pid, i))
        json.dump(dict(property=pid, group=group, run=v["run"], inputs=inputs_arg(v["inputs"]), kind=v["kind"], native=text, at=v["at"][:12],
                       how="cargo build --release --features %s in harness/replay; vreplay %s %s" % (group, v["run"].replace(":", " "), inputs_arg(v["inputs"]))),
                  open(path, "w"), indent=1)
        bad.append((path, v, text))
    npaths_bad = sum(internal.values())
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["paths"] + tot["forks"], transitions=tot["instrs"], traces_validated_against_impl=validated,
            samples=samples[:12], exhaustive=bool(complete and not internal and not viols),
            paths=tot["paths"], forks=tot["forks"],
            solver=dict(queries=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], answered_from_cache=tot["cached"], second_attempts=tot["fallback"],
                        seconds=round(tot["solver"], 2), longest_query_seconds=tot["maxq"], name="Z3 4.8.12 (QF_BV)"),
            functions_encoded=sorted(fns), source_lines_encoded={f.replace("/repo/", ""): len(l) for f, l in sorted(lines.items())},
            runs=runs_ev, bounds=P["bounds"], outside=P["outside"], explore_seconds=round(tot["explore"], 2),
            inconclusive_paths=internal, explanation="states: explored paths and fork points; transitions: LLVM instructions executed symbolically; each path stands for all input values satisfying its path condition",
        ),
        assumptions=props.ASSUME + P.get("assume", []), wall_s=round(time.time() - T0, 2), violations=len(bad))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d runs, %d paths, %d forks, %d instructions, %d solver queries (%.1f s, longest %.2f s), explored in %.1f s, %d sampled paths agree natively%s" % (
        pid, tier, len(runs_ev), tot["paths"], tot["forks"], tot["instrs"], tot["queries"], tot["solver"], tot["maxq"], tot["explore"], validated,
        "" if complete else " [bounds not exhausted within the time budget]"))
    for t in found_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    for path, v, text in bad:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, ROOT)))
        print("   %s in %s, inputs %s; native: %s" % (v["kind"], v["run"], inputs_arg(v["inputs"]), text))
    if bad:
        sys.exit(1)
    for u in unconfirmed:
        problems.append("counterexample does not reproduce natively: " + u)
    if npaths_bad and npaths_bad * 200 > tot["paths"]:
        problems.append("paths that could not be executed: %s" % list(internal.items())[:4])
    if mism == 0 and not unconfirmed and tot["paths"] == 0:
        problems.append("no path explored")
    if problems:
        die("; ".join(problems))
    sys.exit(0)


main()
