#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of the compiled code.

check.py PROPERTY [--tier quick|thorough]   exit 0 held, 1 violated, 2 the check itself failed
check.py --build                            builds the executor, the harness and the replay driver
"""
import fcntl, json, os, shutil, subprocess, sys, time, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
sys.path.insert(0, V)
import props

def log(*a):
    print(*a, flush=True)

def fail(msg):
    log("CHECK-ERROR", msg)
    sys.exit(2)

def sh(cmd, timeout=900, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(features):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        make = subprocess.Popen(["make", "-s", "-j8", "OUT=" + B], cwd=os.path.join(V, "engine"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = sh("gcc -O1 -g -rdynamic -o %s/driver driver.c hooks.c heap.c -ldl -lpthread" % B, shell=True, cwd=os.path.join(V, "native"))
        if r.returncode:
            fail("driver build failed\n" + r.stdout)
        # the harness crate, generated into the build directory so that it points at the tree under test
        h = os.path.join(B, "harness")
        os.makedirs(h, exist_ok=True)
        shutil.copytree(os.path.join(V, "harness", "src"), os.path.join(h, "src"), dirs_exist_ok=True)
        toml = open(os.path.join(V, "harness", "Cargo.toml")).read().replace("../stubs", os.path.join(V, "stubs")).replace('"/repo"', '"%s"' % REPO)
        open(os.path.join(h, "Cargo.toml"), "w").write(toml)
        shutil.copy(os.path.join(V, "harness", "Cargo.lock"), os.path.join(h, "Cargo.lock"))
        env = ('. /opt/vp/env.sh; export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=%s/target RUSTFLAGS="--cap-lints allow"; cd %s; '
               "cargo rustc --release --offline --lib --no-default-features --features %s -- --emit=llvm-bc,link -C no-vectorize-loops -C no-vectorize-slp") % (B, h, ",".join(sorted(features)))
        t = os.path.join(B, "target", "release")
        bc = os.path.join(t, "deps", "vharness.bc")
        # the generated code depends on /repo's current files: always rebuild both crates
        sh("rm -f %s/deps/vharness* %s/deps/libvharness* %s/libvharness.so; touch %s/src/lib.rs" % (t, t, t, h), shell=True)
        sh("rm -rf %s/.fingerprint/extended-collections-* %s/.fingerprint/vharness-*" % (t, t), shell=True)
        r = sh(["bash", "-c", env])
        if r.returncode or not os.path.exists(bc):
            fail("harness build failed\n" + r.stdout[-6000:])
        mo = make.communicate()[0]
        if make.returncode:
            fail("executor build failed\n" + mo)
    return bc, os.path.join(t, "libvharness.so")

def instrument(bc):
    """The same code with the scheduler called before every atomic operation of the code under test: bitcode and shared object."""
    t = os.path.join(B, "target", "release")
    ibc, ilib = os.path.join(t, "sched.bc"), os.path.join(t, "libsched.so")
    r = sh([os.path.join(B, "symx"), "--instrument", bc, ibc, os.path.realpath(REPO)])
    if r.returncode:
        fail("instrumentation failed\n" + r.stdout)
    r = sh(["clang-18", "-shared", "-O1", "-fPIC", "-Wno-override-module", ibc, "-o", ilib, "-lgcc_s", "-lpthread", "-lm"])
    if r.returncode:
        fail("compiling the instrumented code failed\n" + r.stdout)
    return ibc, ilib

def replay(lib, stage, sample, extra_env=None, valgrind=False):
    d = os.path.join(B, "scratch", "%d_%d" % (os.getpid(), id(sample)))
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "inputs")
    with open(f, "w") as o:
        for w, v in zip(sample["widths"], sample["inputs"]):
            o.write("%d %d\n" % (w, v))
    os.makedirs(os.path.join(d, "cwd"), exist_ok=True)
    cmd = [os.path.join(B, "driver"), lib, stage["entry"], f] + [str(a) for a in stage.get("args", [])]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--num-callers=12"] + cmd
    try:
        r = subprocess.run(cmd, cwd=os.path.join(d, "cwd"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        rc, out, err = r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, out, err = 14, "TIMEOUT", ""
    shutil.rmtree(d, ignore_errors=True)
    obs = None
    for l in out.splitlines():
        if l.startswith("OBS"):
            obs = [int(x) for x in l.split()[1:]]
    return rc, obs, out, err

def confirm(lib, stage, v):
    """Replays a counterexample against the natively compiled real code."""
    rc, _, out, err = replay(lib, stage, v)
    if rc in (10, 12, 14) or rc < 0:
        return True, (out.strip().splitlines() or [""])[0] + " " + err.strip()[:400]
    if v["kind"] in ("memory", "abort", "check", "panic", "leak"):
        rc, _, out, err = replay(lib, stage, v, valgrind=True)
        if rc in (10, 12, 14, 99) or rc < 0:
            return True, "valgrind: " + err.strip()[:600]
    return False, "exit %d %s %s" % (rc, out.strip()[:200], err.strip()[:200])

def known_findings(pid):
    res = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("fixed:"):
                d = json.loads(l)
                if d["property"] == pid:
                    res.append(d)
    return res

def main():
    if "--build" in sys.argv:
        build(["maps"])
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", 420 if tier == "quick" else 7200))
    p = props.PROPS[pid]
    stages = [s for s in p["stages"] if s.get("tier", "quick") == "quick" or tier == "thorough"]
    if "--stage" in sys.argv:
        stages = [stages[int(sys.argv[sys.argv.index("--stage") + 1])]]
    bc, lib = build({props.feature(s["entry"]) for s in stages})
    if any(s.get("sched") for s in stages):
        bc, lib = instrument(bc)
    tb = time.time() - t0
    tot = dict(paths=0, done=0, queries=0, sat=0, unsat=0, implied=0, crosschecked=0, crosscheck_unknown=0, forks=0, instructions=0, checks=0, solver_s=0.0)
    files, per, samples, violations, validated, errors = {}, [], [], [], 0, []
    outd = os.path.join(B, "out")
    os.makedirs(outd, exist_ok=True)
    known = known_findings(pid)
    printed = set()
    for i, st in enumerate(stages):
        left = budget - (time.time() - t0)
        if left < 5:
            per.append(dict(entry=st["entry"], args=st.get("args", []), skipped="time budget"))
            continue
        o = os.path.join(outd, "%s_%d_%d.json" % (pid, i, os.getpid()))
        cmd = [os.path.join(B, "symx"), bc, "--entry", st["entry"], "--out", o, "--workers", str(st.get("workers", 8)), "--time", str(min(left, st.get("time", 1e9))),
               "--seed", str(seed), "--samples", str(st.get("samples", 24)), "--maxinst", str(st.get("maxinst", 20000000))]
        for a in st.get("args", []):
            cmd += ["--arg", str(a)]
        r = sh(cmd, timeout=left + 300)
        if r.returncode:
            errors.append("%s: executor exit %d: %s" % (st["entry"], r.returncode, r.stdout[-2000:]))
            continue
        d = json.load(open(o))
        os.unlink(o)
        np = sum(d["paths"].values())
        tot["paths"] += np
        tot["done"] += d["paths"]["done"] + d["paths"]["expected_panic"]
        for k in tot:
            if k in d and k != "paths":
                tot[k] += d[k]
        for f, c in d["coverage"].items():
            if "/src/" in f and os.path.realpath(f).startswith(os.path.realpath(REPO) + "/"):
                e = files.setdefault(os.path.relpath(os.path.realpath(f), os.path.realpath(REPO)), dict(lines=0, functions=set()))
                e["lines"] = max(e["lines"], c["lines"])
                e["functions"] |= set(c["functions"])
        info = dict(entry=st["entry"], args=st.get("args", []), bounds=st.get("bounds", ""), complete=d["complete"], paths=np, completed_paths=d["paths"]["done"], queries=d["queries"],
                    unsat=d["unsat"], sat=d["sat"], checks=d["checks"], wall_s=round(d["wall_s"], 2), solver_s=round(d["solver_s"], 2), reach=d["reach"])
        per.append(info)
        log("%s %s %s: %d paths, %d assertions, %d queries (%d unsat), %.1fs%s" % (pid, st["entry"], st.get("args", []), np, d["checks"], d["queries"], d["unsat"], d["wall_s"], "" if d["complete"] else " INCOMPLETE (%d states left)" % d["left"]))
        for v in d["violations"]:
            if v["kind"] in ("unsupported", "unknown"):
                errors.append("%s: %s: %s" % (st["entry"], v["kind"], v["msg"][:300]))
                continue
            ok, how = confirm(lib, st, v)
            if not ok and v["kind"] == "limit":
                info["limit"] = v["msg"]
                continue
            if not ok:
                errors.append("%s: counterexample (%s: %s) does not reproduce natively: %s" % (st["entry"], v["kind"], v["msg"][:200], how))
                log("UNCONFIRMED", json.dumps(dict(entry=st["entry"], args=st.get("args", []), **v))[:2000])
                continue
            what = "%s: %s" % (v["kind"], v["msg"].split(" <- ")[0] if v["kind"] == "panic" else v["msg"])
            k = [x for x in known if x["entry"] == st["entry"] and x["kind"] == v["kind"] and x["match"] in v["msg"]]
            if k:
                line = "KNOWN-FINDING: property=%s %s" % (pid, k[0]["what"])
                if line not in printed:
                    printed.add(line)
                    log(line)
                continue
            violations.append((st, v, what, how))
        # validation of the executor: completed paths, replayed natively, observe the same values
        todo = d["samples"] + list(d["witnesses"].values())
        with cf.ThreadPoolExecutor(8) as ex:
            for s, (rc, obs, out, err) in zip(todo, ex.map(lambda s: replay(lib, st, s), todo)):
                if rc == 0 and obs == s["observed"]:
                    validated += 1
                elif rc == 0 or rc == 11 or not d["violations"]:
                    errors.append("%s %s: path replayed natively differs: exit %d, expected %s got %s (%s %s) inputs %s" % (st["entry"], st.get("args", []), rc, s["observed"][:40], (obs or [])[:40], out.strip()[:100], err.strip()[-300:], s["inputs"][:60]))
        for s in d["samples"][:2]:
            samples.append(dict(entry=st["entry"], args=st.get("args", []), inputs=s["inputs"], observed=s["observed"][:24]))
        if not d["violations"] and d["complete"]:
            for l in st.get("reach", ["end"]):
                if not d["reach"].get(l):
                    errors.append("%s %s: required situation never reached: %s" % (st["entry"], st.get("args", []), l))
        if violations:
            break
    shutil.rmtree(os.path.join(B, "scratch"), ignore_errors=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=props.LEVEL, wall_s=round(time.time() - t0, 1),
              coverage=dict(states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=validated, samples=samples[:12],
                            assertions_evaluated=tot["checks"], smt_queries=tot["queries"], smt_unsat=tot["unsat"], smt_sat=tot["sat"],
                            implied_by_order_closure=tot["implied"], closure_answers_crosschecked_by_smt=tot["crosschecked"], crosscheck_gave_up=tot["crosscheck_unknown"],
                            solver_s=round(tot["solver_s"], 1), ir_instructions_executed=tot["instructions"], build_s=round(tb, 1),
                            all_bounded_spaces_exhausted=all(x.get("complete", False) for x in per), stages=per,
                            functions_encoded={f: sorted(c["functions"]) for f, c in sorted(files.items())},
                            lines_encoded={f: c["lines"] for f, c in sorted(files.items())}),
              assumptions=p.get("assumptions", []) + props.ASSUMPTIONS, violations=len(violations))
    if errors:
        ev["coverage"]["undecided"] = [e[:1000] for e in errors[:50]]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if violations:
        os.makedirs(os.path.join(B, "replays"), exist_ok=True)
        for n, (st, v, what, how) in enumerate(violations):
            f = os.path.join(B, "replays", "%s_%d.json" % (pid, n))
            json.dump(dict(property=pid, entry=st["entry"], args=st.get("args", []), kind=v["kind"], msg=v["msg"], inputs=v["inputs"], widths=v["widths"], native=how), open(f, "w"), indent=1)
            log("  %s(%s): %s" % (st["entry"], ",".join(map(str, st.get("args", []))), what[:500]))
            log("    native replay: %s" % how[:500])
            log("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    for e in errors[:10]:
        log("UNDECIDED", e)
    # what could not be decided is reported and is not part of what is claimed; a run that decided nothing is no answer
    if errors and os.environ.get("VERIF_STRICT"):
        return 2
    if not tot["done"]:
        log("CHECK-ERROR nothing was explored")
        return 2
    log("%s: held on everything explored (%d paths, %d assertions, %d SMT queries, %d traces validated, %.0fs)" % (pid, tot["paths"], tot["checks"], tot["queries"], validated, time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
