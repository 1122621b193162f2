#!/usr/bin/env python3
"""Decide one property: build engine and harness from the current sources, run
the symbolic exploration, confirm what it reports natively, write evidence.

  check.py C01 [--tier quick|thorough]
  check.py --replay FILE            run one recorded counterexample natively
  check.py --build CRATE...         only build (setup)
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(V, "build")
REPO = "/repo"
sys.path.insert(0, V)
from config import PROPS, ASSUMPTIONS, TRUSTED  # noqa: E402

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None)
NATIVE_SECS = 20
ALLOC_CAP = 1 << 24


def die(msg, code=2):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(code)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)


def build_engine():
    e = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "engine"))
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout[-4000:]
    return os.path.join(BUILD, "engine", "release", "engine"), ""


def mirror(src, dst):
    """Copy what changed, leave the rest with its time stamps; drop what is gone."""
    os.makedirs(dst, exist_ok=True)
    names = set(os.listdir(src))
    for n in os.listdir(dst):
        if n not in names and n not in ("Cargo.lock",):
            p = os.path.join(dst, n)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    for n in names:
        if n in ("target", "Cargo.lock"):
            continue
        a, b = os.path.join(src, n), os.path.join(dst, n)
        if os.path.isdir(a):
            mirror(a, b)
        else:
            d = open(a, "rb").read()
            if not os.path.exists(b) or open(b, "rb").read() != d:
                open(b, "wb").write(d)


def build_harness(crate):
    src = os.path.join(BUILD, "harness")
    d = os.path.join(src, crate)
    shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    td = os.path.join(BUILD, "t-" + crate)
    e = dict(ENV, CARGO_TARGET_DIR=td)
    r = subprocess.run(["cargo", "rustc", "--release", "--offline", "--", "--emit=llvm-ir,link",
                        "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-Awarnings"], cwd=d, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, None, r.stdout[-6000:]
    cand = glob.glob(os.path.join(td, "release", "build", crate, "*", "out", crate + ".ll"))
    cand += glob.glob(os.path.join(td, "release", "deps", crate + "-*.ll"))
    if not cand:
        return None, None, "no llvm-ir emitted\n" + r.stdout[-2000:]
    ll = max(cand, key=os.path.getmtime)
    b = ll[:-3]
    return ll, b, ""


def libs():
    root = run(["rustc", "--print", "sysroot"]).stdout.strip().splitlines()[-1]
    llvm = sorted(glob.glob(root + "/lib/libLLVM.so*")) + sorted(glob.glob(root + "/lib/libLLVM*.so"))
    z3 = sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/lib/libz3.so"))
    z3 += ["libz3.so.4", "/usr/lib/x86_64-linux-gnu/libz3.so", "libz3.so"]
    if not llvm:
        die("no libLLVM in the nightly toolchain")
    return ",".join(llvm), ",".join(z3)


def native(binary, entry, data, cap=None, secs=NATIVE_SECS, valgrind=False):
    """Run one harness natively on a concrete input."""
    with tempfile.NamedTemporaryFile(dir=BUILD, delete=False) as f:
        f.write(data)
    cmd = [binary, entry, f.name] + ([str(cap)] if cap else [])
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
    try:
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs, env=ENV, cwd=BUILD)
        except subprocess.TimeoutExpired:
            return {"hang": True, "rc": None, "obs": None, "last": "TIMEOUT", "err": "", "maxreq": 0}
    finally:
        os.unlink(f.name)
    out = r.stdout.decode("utf-8", "replace").splitlines()
    obs = [l[4:] for l in out if l.startswith("OBS ")]
    mr = [int(l[7:]) for l in out if l.startswith("MAXREQ ")]
    return {"hang": False, "rc": r.returncode, "obs": obs[0] if obs else None, "last": out[-1] if out else "",
            "err": r.stderr.decode("utf-8", "replace")[-600:], "maxreq": mr[0] if mr else 0}


def confirm(binary, entry, v):
    """Does the counterexample show on the real code?  (yes/no, what was seen)"""
    data = bytes.fromhex(v["input"])
    k = v["vk"]
    if k == "alloc":
        n = native(binary, entry, data, cap=ALLOC_CAP)
        if n["rc"] == 45:
            return True, n["err"].strip().splitlines()[-1]
        if n["rc"] is not None and n["rc"] < 0:
            return True, "signal %d: %s" % (-n["rc"], n["err"].strip()[-300:])
        return False, "largest request %s, %s" % (n["maxreq"], n["last"])
    n = native(binary, entry, data)
    seen = n["last"] + " " + n["err"].strip()[-300:]
    if k == "assert":
        return n["rc"] == 41 and n["last"] == "ASSERT " + v["id"], seen
    if k == "hang":
        return n["hang"], seen
    if k in ("panic", "abort", "unreachable", "stack"):
        return n["rc"] is not None and n["rc"] < 0, "signal %s %s" % (-n["rc"] if n["rc"] else None, seen)
    # memory
    if n["rc"] is not None and n["rc"] < 0:
        return True, "signal %d %s" % (-n["rc"], seen)
    g = native(binary, entry, data, valgrind=True, secs=120)
    return g["rc"] == 99, "valgrind: " + g["err"].strip()[:300]


def known(prop):
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) kind=(\S+) at=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(dict(entry=m.group(2), kind=m.group(3).split("|"), at=m.group(4), what=m.group(5)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--build", nargs="*")
    ap.add_argument("--only", default=None, help="regular expression over the entries")
    ap.add_argument("--workers", default=str(os.cpu_count() or 8))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    mirror(os.path.join(V, "harness"), os.path.join(BUILD, "harness"))
    t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay))
        ll, b, err = build_harness(r["crate"])
        if not b:
            die("harness build failed\n" + err)
        ok, seen = confirm(b, r["entry"], r)
        print("entry", r["entry"], "expected", r["vk"], r["id"])
        print("seen ", seen)
        print("REPRODUCED" if ok else "NOT REPRODUCED")
        sys.exit(1 if ok else 0)
    if a.build is not None:
        crates = a.build or sorted({c for p in PROPS.values() for c in p["crates"]})
        eng, err = build_engine()
        if not eng:
            die("engine build failed\n" + err)
        for c in crates:
            ll, b, err = build_harness(c)
            if not b:
                die("harness %s build failed\n%s" % (c, err))
        print("built engine and", " ".join(crates))
        return
    prop = a.prop
    if prop not in PROPS:
        die("unknown property %r" % prop)
    P = PROPS[prop]
    thorough = a.tier == "thorough"
    with ThreadPoolExecutor() as ex:
        fe = ex.submit(build_engine)
        fh = {c: ex.submit(build_harness, c) for c in P["crates"]}
        eng, err = fe.result()
        hs = {c: f.result() for c, f in fh.items()}
    if not eng:
        die("engine build failed\n" + err)
    for c, (ll, b, e) in hs.items():
        if not b:
            die("harness %s build failed\n%s" % (c, e))
    t_build = time.time() - t0
    llvm, z3 = libs()
    n = prop[1:]
    pat = re.compile(r"^c%s%s_" % (n, "t?" if thorough else ""))
    out = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    runs = []
    left = P.get("thorough_s", 2400) if thorough else P.get("budget_s", 560) - t_build
    for c, (ll, b, _) in hs.items():
        entries = [e for e in subprocess.run([b], stdout=subprocess.PIPE, text=True, env=ENV).stdout.split() if pat.match(e)]
        if a.only:
            entries = [e for e in entries if re.search(a.only, e)]
        groups = {}
        for e in entries:
            opt = dict(P.get("engine", {}))
            for rx, o in P.get("entry_opts", {}).items():
                if re.search(rx, e):
                    opt.update(o)
            groups.setdefault(tuple(sorted(opt.items())), []).append(e)
        for opt, es in sorted(groups.items()):
            opt = dict(opt)
            per = opt.pop("timeout", P.get("timeout", 150))
            if thorough:
                per = opt.pop("timeout_thorough", P.get("timeout_thorough", 900))
            opt.pop("timeout_thorough", None)
            cmd = [eng, "--llvm", llvm, "--z3", z3, "--module", ll, "--entry", ",".join(es), "--out", out,
                   "--workers", a.workers, "--timeout", str(per), "--samples", "24"]
            if thorough:
                cmd += ["--solver-ms", "60000", "--dump", out, "--dump-ms", "2000"]
            for k, v in opt.items():
                cmd += ["--" + k, str(v)]
            t1 = time.time()
            try:
                r = run(cmd, timeout=max(left, 30))
                if r.returncode not in (0, 5):
                    die("engine failed (%d)\n%s" % (r.returncode, r.stdout[-3000:]))
                elog = r.stdout
            except subprocess.TimeoutExpired as x:
                subprocess.run(["pkill", "-KILL", "-f", out])
                elog = "time budget of the whole check used up"
            left -= time.time() - t1
            runs += [(c, b, e, elog) for e in es]
    if not runs:
        die("no harness for %s" % prop)

    tot = {k: 0 for k in ("paths", "completed", "infeasible", "forks", "steps", "asserts", "symasserts", "queries", "sat",
                          "unsat", "solver_unknown", "unknowns", "cache_hits", "model_hits", "solver_ms")}
    per_entry, incomplete, covers, functions, samples = {}, {}, {}, {}, []
    viols, jobs, vac = [], [], []
    versions = set()
    for c, b, e, elog in runs:
        f = os.path.join(out, e + ".jsonl")
        if not os.path.exists(f):
            incomplete.setdefault(e, {})["no result: " + elog.strip()[-200:]] = 1
            continue
        ls = [json.loads(l) for l in open(f)]
        s = ls[0]
        for k in tot:
            tot[k] += s.get(k, 0)
        versions |= {s["z3"], s["llvm"]}
        per_entry[e] = {k: s.get(k) for k in ("paths", "completed", "queries", "unsat", "sat", "solver_unknown", "symasserts",
                                             "asserts", "steps", "solver_ms", "max_ms", "wall_s", "covers")}
        if s["incomplete"]:
            incomplete[e] = s["incomplete"]
        for k, v in s["functions"].items():
            functions[k] = functions.get(k, 0) + v
        for k, v in s["covers"].items():
            covers[k] = covers.get(k, 0) + v
        if not s["completed"] and not s["violations"]:
            vac.append(e)
        for l in ls[1:]:
            if l["kind"] == "violation":
                viols.append((c, b, e, l))
            elif l["kind"] == "path":
                jobs.append((c, b, e, l))
    # declared reachability witnesses
    for w in P.get("covers", []):
        if w not in covers and not viols and not incomplete:
            vac.append("cover:" + w)

    # sampled paths: the real code must produce what the engine predicts
    def one(j):
        c, b, e, l = j
        n = native(b, e, bytes.fromhex(l["input"]))
        return j, n
    validated, mismatch = 0, []
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for (c, b, e, l), n in ex.map(one, jobs):
            if n["rc"] == 0 and n["obs"] == l["obs"]:
                validated += 1
                if len(samples) < 12 and (not samples or samples[-1]["entry"] != e):
                    samples.append({"entry": e, "input": l["input"][:400], "observed": l["obs"][:400]})
            else:
                mismatch.append({"entry": e, "input": l["input"], "engine": l["obs"], "native": n})
    # violations: only what reproduces natively counts
    kn = known(prop)
    hit, reported, unconfirmed, seen_keys = set(), [], [], {}
    rep = os.path.join(V, "evidence", "replays")
    os.makedirs(rep, exist_ok=True)
    for old in glob.glob(os.path.join(rep, prop + "-*.json")):
        os.unlink(old)
    for c, b, e, l in viols:
        key = (e, l["vk"], l["id"])
        if seen_keys.get(key, 0) >= 3:
            continue
        ok, seen = confirm(b, e, l)
        if not ok:
            if l["vk"] in ("stack", "hang"):  # only long or deep, not endless
                incomplete.setdefault(e, {})[l["id"][:80]] = 1
                continue
            unconfirmed.append({"entry": e, "vk": l["vk"], "id": l["id"], "input": l["input"][:2000], "seen": seen,
                                "stack": l.get("stack", "")[-400:]})
            continue
        seen_keys[key] = 3
        f = next((i for i, k in enumerate(kn) if k["entry"] == e and l["vk"] in k["kind"]
                  and (k["at"] in l["id"] or k["at"] in str(l.get("stack", "")))), None)
        if f is not None:
            hit.add(f)
            continue
        p = os.path.join(rep, "%s-%d.json" % (prop, len(reported)))
        json.dump(dict(property=prop, crate=c, entry=e, vk=l["vk"], id=l["id"], input=l["input"], obs=l.get("obs"),
                       stack=l.get("stack"), seen=seen, replay="check.py --replay " + p), open(p, "w"), indent=1)
        reported.append((p, e, l, seen))
    confirmed_keys = {k for k in seen_keys if seen_keys[k] == 3}
    unconfirmed = [u for u in unconfirmed if (u["entry"], u["vk"], u["id"]) not in confirmed_keys]

    ev = {
        "property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": int(tot["completed"]), "transitions": int(tot["steps"]),
            "traces_validated_against_impl": validated, "samples": samples,
            "explanation": "states = path classes explored to their end, each standing for every input satisfying its path "
                           "condition; transitions = LLVM instructions executed symbolically; traces validated = sampled "
                           "path classes whose solver model was replayed on the native build with identical observations",
            "bounds": P["bounds"], "outside": P.get("outside", ""),
            "solver": {"queries": int(tot["queries"]), "sat": int(tot["sat"]), "unsat": int(tot["unsat"]),
                       "unknown": int(tot["solver_unknown"]), "seconds": round(tot["solver_ms"] / 1000, 2),
                       "cache_hits": int(tot["cache_hits"]), "model_hits": int(tot["model_hits"])},
            "assertions_reached": int(tot["asserts"]), "assertions_decided_by_solver": int(tot["symasserts"]),
            "forks": int(tot["forks"]), "infeasible": int(tot["infeasible"]),
            "functions_encoded": sorted(functions)[:400], "functions_encoded_count": len(functions),
            "entries": per_entry, "covers": covers, "incomplete": incomplete,
            "exhaustive_within_bounds": not incomplete and not reported,
            "versions": sorted(versions), "build_s": round(t_build, 1),
            "known_findings": [kn[i]["what"] for i in sorted(hit)],
        },
        "assumptions": ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(reported),
    }
    if thorough:
        ev["coverage"]["second_solver"] = second_opinion(out)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if not a.keep:
        shutil.rmtree(out, ignore_errors=True)

    print("%s %s: %d entries, %d paths, %d assertions (%d by the solver), %d queries, %.1fs solver, %d replayed, %.0fs" % (
        prop, a.tier, len(runs), tot["completed"], tot["asserts"], tot["symasserts"], tot["queries"],
        tot["solver_ms"] / 1000, validated, time.time() - t0))
    for e, m in sorted(incomplete.items()):
        for k, v in list(m.items())[:4]:
            print("INCOMPLETE %s: %s (%s)" % (e, k, v))
    for i in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[i]["what"]))
    for p, e, l, seen in reported:
        print("  %s: %s %s input=%s" % (e, l["vk"], l["id"], l["input"][:200]))
        print("    real code: %s" % seen[:300])
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if reported:
        sys.exit(1)
    for u in unconfirmed[:5]:
        print("UNCONFIRMED " + json.dumps(u), file=sys.stderr)
    for m in mismatch[:5]:
        print("MISMATCH " + json.dumps(m), file=sys.stderr)
    if unconfirmed or mismatch:
        die("the engine and the real code disagree (%d counterexamples, %d samples)" % (len(unconfirmed), len(mismatch)), 3)
    if vac:
        die("nothing was explored in: " + ", ".join(vac), 2)


def second_opinion(out):
    """Re-decide the slow queries of a thorough run with cvc5."""
    r = {"solver": "cvc5", "agree": 0, "disagree": 0, "timeout": 0}
    for f in sorted(glob.glob(out + "/*.smt2"))[:12]:
        want = f.split(".")[-2]
        if want == "unknown":
            continue
        try:
            x = subprocess.run(["cvc5", "--tlimit=60000", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                               timeout=90).stdout.split()
        except Exception:
            x = []
        got = x[0] if x else "timeout"
        if got not in ("sat", "unsat"):
            r["timeout"] += 1
        elif got == want:
            r["agree"] += 1
        else:
            r["disagree"] += 1
    return r


if __name__ == "__main__":
    main()
