#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--build-only] [--update-expected]

Decides one property: compiles the harness together with the contracts of /repo's working tree to
LLVM IR, executes the property's entries symbolically (engine/), lets the SMT solvers decide every
obligation, and replays every counterexample on the unmodified crates before reporting it.
Exit 0: held on everything explored. 1: VIOLATION. 3: not decided (with the reason on stderr).
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
EV = os.path.join(V, "evidence")
TOOLCHAIN = "stable"
T0 = time.time()
LIMIT = 860


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    log("NOT DECIDED:", msg)
    sys.exit(3)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def tree_hash(roots):
    h = hashlib.sha256()
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build", "node_modules", "evidence", "seeded"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".sh", ".json", ".proto")) and f != "Cargo.lock" or f == "Cargo.lock":
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    try:
                        h.update(open(p, "rb").read())
                    except OSError:
                        pass
                    h.update(b"\0")
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    """engine, symbolic IR and native replay binary, in parallel; reused while nothing changed"""
    os.makedirs(B, exist_ok=True)
    os.makedirs(EV, exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    eng = tree_hash([os.path.join(V, "engine")])
    har = tree_hash([REPO, os.path.join(V, "harness"), os.path.join(V, "shims"), os.path.join(V, "symrt")])
    repo = tree_hash([REPO])

    def stamp(n):
        try:
            return open(os.path.join(B, n)).read()
        except OSError:
            return ""

    def put(n, v):
        open(os.path.join(B, n), "w").write(v)

    def forget(t, prof):
        # cargo compares times; a change of /repo must always be seen
        fp = os.path.join(B, t, prof, ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith("ibcx-"):
                    subprocess.run(["rm", "-rf", os.path.join(fp, x)])

    def engine():
        if stamp("engine.ok") == eng and os.path.exists(os.path.join(B, "engine/release/symex")):
            return ""
        r = run(["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(V, "engine/Cargo.toml"), "--target-dir", os.path.join(B, "engine")])
        if r.returncode:
            return "engine does not build:\n" + r.stdout[-2000:]
        put("engine.ok", eng)
        return ""

    def sym():
        if stamp("sym.ok") == har and os.path.exists(os.path.join(B, "h.ll")):
            return ""
        if stamp("sym.repo") != repo:
            forget("sym", "release")
        put("sym.repo", repo)
        r = run(["sh", os.path.join(V, "harness/build_sym.sh"), os.path.join(B, "sym"), os.path.join(B, "h.ll")])
        if r.returncode:
            return "symbolic build of /repo failed:\n" + r.stdout[-3000:]
        put("sym.ok", har)
        return ""

    def native():
        if stamp("native.ok") == har and os.path.exists(os.path.join(B, "native/debug/replay")):
            return ""
        if stamp("native.repo") != repo:
            forget("native", "debug")
        put("native.repo", repo)
        r = run(["sh", os.path.join(V, "harness/build_native.sh"), os.path.join(B, "native")])
        if r.returncode:
            return "native build of /repo failed:\n" + r.stdout[-3000:]
        put("native.ok", har)
        return ""

    with cf.ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(sym), ex.submit(native), ex.submit(engine)]:
            e = f.result()
            if e:
                die(e)
    fcntl.flock(lock, fcntl.LOCK_UN)


def replay(entry, check, model, path, notes=()):
    with open(path, "w") as f:
        f.write("# entry %s, obligation %s\n" % (entry, check))
        f.write("# rerun: %s/build/native/debug/replay %s %s %s\n" % (V, entry, check, path))
        for n in notes:
            f.write("# note: %s\n" % n.replace("\n", " "))
        for k, v in model.items():
            f.write("%s=%s\n" % (k, v))
    try:
        r = run([os.path.join(B, "native/debug/replay"), entry, check, path], timeout=60)
    except subprocess.TimeoutExpired:
        return 9, "timed out"
    with open(path, "a") as f:
        for l in r.stdout.splitlines():
            f.write("# native: %s\n" % l)
    return r.returncode, r.stdout


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i : i + 2]
    if "--build-only" in args:
        build()
        log("built in %.0f s" % (time.time() - T0))
        return 0
    update = "--update-expected" in args
    args = [a for a in args if not a.startswith("--")]
    prop = args[0]
    conf = json.load(open(os.path.join(V, "checks.json")))[prop]
    known = json.load(open(os.path.join(V, "known-findings.json")))["findings"]
    known = {k["check"]: k for k in known if k["property"] == prop}
    exp_path = os.path.join(V, "expected", prop + ".json")
    entries = list(conf["entries"])
    if tier == "thorough":
        entries += conf.get("thorough", [])
    build()
    bt = time.time() - T0
    out = os.path.join(B, "out-%s-%d.json" % (prop, os.getpid()))
    budget = int(LIMIT - 60 - bt)
    if tier == "thorough":
        budget = int(os.environ.get("VERIF_BUDGET", "7200"))
    lin, nia = (10000, 20000) if tier == "quick" else (60000, 300000)
    cmd = [os.path.join(B, "engine/release/symex"), "--ll", os.path.join(B, "h.ll"), "--entry", ",".join(entries), "--threads", str(os.cpu_count() or 4),
           "--checks", prop + ".", "--time", str(budget), "--out", out, "--lin-ms", str(conf.get("lin_ms", lin)), "--nia-ms", str(conf.get("nia_ms", nia)),
           "--feas-ms", str(conf.get("feas_ms", 1000 if tier == "quick" else 5000))]
    r = subprocess.run(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        die("engine failed: " + r.stderr[-2000:])
    d = json.load(open(out))
    os.remove(out)
    problems, violations, findings = [], [], {}
    validated, samples, seen = 0, [], {}
    n = 0
    for e in d["entries"]:
        en = e["entry"]
        seen[en] = {"checks": sorted(e["checks"]), "reach": sorted(k for k, v in e["reached"].items() if v is not None), "undecided": [k for k, v in e["reached"].items() if v is None]}
        for v in e["violations"]:
            n += 1
            p = os.path.join(EV, "%s-%d.replay" % (prop, n))
            rc, o = replay(en, v["check"], v["model"], p, v["notes"])
            # (an assumption made after the obligation failed may be broken: the failure stands)
            ok = rc in (1, 2) and ("FAILED " + v["check"]) in o.splitlines()
            if not ok:
                problems.append("counterexample to %s in %s does not reproduce natively (rc %d): %s" % (v["check"], en, rc, p))
            elif v["check"] in known:
                findings[v["check"]] = p
                validated += 1
            else:
                violations.append((v["check"], p))
                validated += 1
        for k, m in sorted(e["reached"].items()):
            if m is None:
                continue
            p = os.path.join(EV, "%s-witness-%s-%s.replay" % (prop, en, k.split(".", 1)[-1]))
            rc, o = replay(en, prop + ".", m, p)
            bad = [l[7:] for l in o.splitlines() if l.startswith("FAILED ") and l[7:] not in known]
            # (the inputs read after the reach point are free, so that a later assumption may fail)
            if bad:
                # the model of a witness happens to break an obligation on the real crates
                violations.append((bad[0], p))
                validated += 1
            elif rc > 2 or rc == 2 and "end mismatch: assumption" not in o or ("reach " + k) not in o.splitlines():
                problems.append("witness of %s in %s is not reproduced natively (rc %d): %s" % (k, en, rc, p))
            else:
                validated += 1
            if len(samples) < 6:
                samples.append({"entry": en, "witness": k, "inputs": m, "native": [l for l in o.splitlines() if l.startswith(("end", "passed", "note"))]})
        for u in e["unknown"][:5]:
            problems.append("%s: %s" % (en, u))
        for k in ("limits", "unsupported"):
            for m, c in e[k].items():
                problems.append("%s: %s: %s (%d paths)" % (en, k, m, c))
    if update:
        old = {}
        if os.path.exists(exp_path):
            old = json.load(open(exp_path))
            old = {k: v for k, v in old.items() if k in conf["entries"] + conf.get("thorough", [])}
        old.update({k: {w: v[w] for w in ("checks", "reach")} for k, v in seen.items()})
        os.makedirs(os.path.dirname(exp_path), exist_ok=True)
        with open(exp_path, "w") as f:
            json.dump({k: old[k] for k in sorted(old)}, f, indent=1)
            f.write("\n")
    if os.path.exists(exp_path):
        exp = json.load(open(exp_path))
        for en, s in seen.items():
            for what in ("checks", "reach"):
                for k in exp.get(en, {}).get(what, []):
                    if k not in s[what] and k not in s["undecided"]:
                        problems.append("vacuous: %s %s of %s was not exercised" % (what, k, en))
    else:
        problems.append("no expected obligations recorded")
    st = d["stats"]
    tot = lambda k: sum(e[k] for e in d["entries"])
    own = [f for f in d["functions"] if f.startswith("ibcx_")]
    oblig = {k: sum(e["checks"].get(k, 0) for e in d["entries"]) for e in d["entries"] for k in e["checks"]}
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("forks"), "traces_validated_against_impl": validated, "samples": samples,
            "explanation": "states: symbolic paths executed to their end, each standing for all inputs satisfying its path condition; transitions: branches the solver found feasible both ways",
            "entries": [{k: e[k] for k in ("entry", "paths", "finished", "reverts", "infeasible", "insts", "cpu_ms", "panics")} for e in d["entries"]],
            "obligations_by_id": oblig,
            "obligations_decided": st["obligations"], "decided_by_interval_reasoning": st["by_interval"],
            "solver_queries": {"linear": st["lin_queries"], "nonlinear": st["nia_queries"], "answered_from_cache": st["cached"], "unknown": st["unknown"]},
            "solver_ms": st["solver_ms"], "engine_wall_ms": d["wall_ms"], "build_s": round(bt, 1),
            "functions_encoded_total": len(d["functions"]), "functions_encoded": own,
            "bounds": conf["bounds"], "undecided": problems, "known_findings_hit": sorted(findings), "exhaustive": False,
        },
        "assumptions": conf.get("assumptions", []) + json.load(open(os.path.join(V, "checks.json")))["_common"]["assumptions"],
        "wall_s": round(time.time() - T0, 1), "violations": len(violations),
    }
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for c, p in sorted(findings.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, c, known[c]["what"]))
    if violations:
        log("\n".join("%s fails: %s" % x for x in violations))
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][1]))
        return 1
    log("%s %s: %d paths, %d obligations, %d+%d queries, build %.0f s, total %.0f s" % (prop, tier, tot("paths"), st["obligations"], st["lin_queries"], st["nia_queries"], bt, time.time() - T0))
    if problems:
        for x in problems[:20]:
            log("  " + x)
        die("%d problems" % len(problems))
    print("OK property=%s" % prop)
    return 0


sys.exit(main())
