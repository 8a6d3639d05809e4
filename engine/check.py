"""check.py PROPERTY : decide one property on /repo's current tree (see DESIGN.md)

exit 0 : held on everything explored;  exit 1 + VIOLATION line : broken.  Nothing else."""
import sys, os, json, time, hashlib, subprocess, tempfile, fcntl, threading, traceback, importlib, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PY = sys.executable
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()
LLVM = "/usr/lib/llvm-18"
INC = ["-I%s/libmonaa" % REPO, "-I%s/monaa" % REPO, "-I/usr/include/eigen3"]
sys.path.insert(0, HERE)
import props


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout or b"").decode("utf8", "replace"), "timeout after %ds" % timeout
    except Exception as x:
        return -2, "", repr(x)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def src_hash():
    h = hashlib.sha256()
    for d in ("libmonaa", "monaa"):
        for r, ds, fs in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def cached(name, key, make):
    """build product shared by the checks; make(path) must create it"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s-%s" % (name, key))
    with open(os.path.join(BUILD, name.replace("/", "_") + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            make(tmp)
            os.rename(tmp, out)
            # older versions of the same product are not needed any more
            for f in os.listdir(BUILD):
                if f.startswith(name + "-") and not f.startswith("%s-%s" % (name, key)):
                    try:
                        os.unlink(os.path.join(BUILD, f))
                    except OSError:
                        pass
    return out


class Broken(Exception):
    pass


def extractor():
    src = os.path.join(HERE, "cxxdump.cc")

    def make(out):
        rc, o, e = run(["clang++-18", "-O0", "-std=c++17", "-fno-rtti", "-I%s/include" % LLVM, src, "-o", out, "-L%s/lib" % LLVM,
                        "-l:libclang-cpp.so.18.1", "-l:libLLVM.so.18.1"], 400)
        if rc:
            raise Broken("extractor does not build: " + e[-1500:])
    return cached("cxxdump", sha(open(src, "rb").read()), make)


def dump(unit, shash, ext):
    tu = os.path.join(HERE, "tu", unit + ".cc")

    def make(out):
        extra = gen_includes(shash) if unit == "tre" else []
        rc, o, e = run([ext, tu, "%s/libmonaa:%s/monaa" % (REPO, REPO), "--", "-std=gnu++20"] + INC + extra + ["-resource-dir", LLVM + "/lib/clang/18"], 300)
        if rc or not o:
            raise Broken("extraction of unit %s failed: %s" % (unit, e[-1500:]))
        json.loads(o)
        open(out, "w").write(o)
    return cached("dump-" + unit, sha(shash, open(tu, "rb").read(), ext), make)


def gen_includes(shash):
    """parser and lexer generated from /repo's grammar, as its build does"""
    def make(out):
        os.makedirs(out)
        for cmd in (["bison", "-d", "-o", os.path.join(out, "tre_parser.tab.cc"), "%s/monaa/tre_parser.yy" % REPO],
                    ["flex", "-o", os.path.join(out, "tre_lexer.yy.cc"), "%s/monaa/tre_lexer.l" % REPO]):
            rc, o, e = run(cmd, 100)
            if rc:
                raise Broken("%s: %s" % (cmd[0], e[-800:]))
    d = cached("gen", shash, make)
    return ["-I" + d]


def native(name, shash, p):
    """compile and run the native harness on the real sources -> dict"""
    src = os.path.join(VERIF, "native", name + ".cc")
    res = {"ran": False, "fails": [], "cases": 0, "nontrivial": 0, "samples": [], "error": None, "counts": {}}
    try:
        extra, files = [], []
        if p.get("native_gen"):
            extra = gen_includes(shash)
        for f in p.get("native_files", []):
            f = f.replace("$GEN", extra[0][2:] if extra else "")
            files.append(f if f.startswith("/") else os.path.join(REPO, f))

        def make(out):
            rc, o, e = run(["g++", "-std=gnu++20", p.get("native_opt", "-O1"), "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(VERIF, "native")] + INC + extra + [src] + files + ["-o", out] + p.get("native_libs", []), 420)
            if rc:
                raise Broken("native harness does not compile against this tree: " + e[:1500])
        deps = b"".join(open(os.path.join(VERIF, "native", f), "rb").read() for f in sorted(os.listdir(os.path.join(VERIF, "native"))) if f.endswith(".hh"))
        exe = cached("native-" + name, sha(shash, open(src, "rb").read(), deps, p.get("native_opt", "")), make)
        budget = p.get("budget", {}).get(TIER, 60 if TIER == "quick" else 600)
        with tempfile.TemporaryDirectory(prefix="monaa-check-") as scratch:
            t = time.time()
            cmd = [exe, "--seed", str(SEED), "--budget", str(budget)] + (["--thorough"] if TIER == "thorough" else [])
            rc, o, e = run(cmd, budget * 4 + 120, cwd=scratch)
            res["seconds"] = round(time.time() - t, 2)
        res["ran"] = True
        for l in o.split("\n"):
            if l.startswith("FAIL "):
                k, _, txt = l[5:].partition(" | ")
                res["fails"].append((k.strip(), txt))
            elif l.startswith("CASES "):
                a = l.split()
                res["cases"], res["nontrivial"] = int(a[1]), int(a[2])
            elif l.startswith("SAMPLE "):
                res["samples"].append(l[7:])
            elif l.startswith("COUNT "):
                a = l.split()
                res["counts"][" ".join(a[1:-1])] = int(a[-1])
        if "END" not in o:
            res["error"] = "harness stopped early (rc %s)" % rc
            res["ran"] = bool(res["fails"])
    except Broken as x:
        res["error"] = str(x)
    except Exception as x:
        res["error"] = "harness: " + repr(x)
    return res


# ------------------------------------------------------------------ solving
def solver(cmd, text, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        path = f.name
    t0 = time.time()
    try:
        r = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 10)
        out = r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        out = "timeout"
    finally:
        os.unlink(path)
    first = out.strip().split("\n")[0] if out.strip() else "?"
    return first, out, time.time() - t0


def decide(text, tmo):
    """portfolio: short attempts of every strategy first, then long ones"""
    total = 0.0
    out = ""
    z = ["z3-new", "-memory:4000"]
    plan = [(z, 3), (["cvc5"], 4), (z + ["smt.mbqi=false"], 8), (z + ["smt.auto_config=false", "smt.mbqi=false", "smt.relevancy=0"], 6), (["cvc5"], tmo // 2),
            (z + ["smt.auto_config=false", "smt.mbqi=false", "smt.relevancy=0", "smt.random_seed=11"], tmo), (z, tmo), (z + ["smt.arith.solver=2", "smt.random_seed=7"], tmo // 2),
            (z + ["smt.mbqi=false", "smt.random_seed=3"], tmo), (["cvc5", "--full-saturate-quant"], tmo)]
    for cmd, t in plan:
        cv = cmd[0] == "cvc5"
        st, out, dt = solver(cmd + (["--tlimit=%d" % (t * 1000)] if cv else ["-T:%d" % t]), ("(set-logic ALL)\n" if cv else "") + text, t)
        total += dt
        if st == "unsat":
            return "proved", "cvc5" if cv else "z3", total, ""
        if st == "sat" and not cv and "smt.mbqi=false" not in cmd:
            s2, o2, t2 = solver(["z3-new", "-T:10", "-memory:4000"], text.replace("(check-sat)", "(check-sat)\n(get-model)"), 10)
            return "refuted", "z3", total + t2, o2[:20000]
    return "unknown", "z3+cvc5", total, out[:2000]


def lean(file, thms):
    """machine-check a lemma file; -> [(theorem, ok, why)], seconds"""
    t0 = time.time()
    path = os.path.join(VERIF, "lemmas", file)
    with tempfile.TemporaryDirectory(prefix="monaa-lean-") as td:
        rc, o, e = run(["lean", path], 300, cwd=td)
    ax = {}
    for m in re.finditer(r"'([^']+)' (?:depends on axioms: \[([^\]]*)\]|does not depend on any axioms)", o):
        ax[m.group(1)] = {a.strip() for a in (m.group(2) or "").split(",") if a.strip()}
    out = []
    for t in thms:
        ok = rc == 0 and t in ax and ax[t] <= {"propext", "Classical.choice", "Quot.sound"}
        out.append((t, ok, "" if ok else "lean rc %s: %s" % (rc, (o + e)[:300])))
    return out, time.time() - t0


def main():
    pid = sys.argv[1]
    p = props.PROPS[pid]
    shash = src_hash()
    deadline = T0 + (560 if TIER == "quick" else 3000)
    pool = ThreadPoolExecutor(8)
    nat = None
    natf = pool.submit(native, p["native"], shash, p) if p.get("native") else None
    leanf = [pool.submit(lean, f, t) for f, t in p.get("lemmas", [])]
    funcs, notes = [], []

    # ---- generate obligations from the current source
    try:
        jobs = []
        if p.get("specs"):
            ext = extractor()
            sys.path.insert(0, os.path.join(VERIF, "specs"))
            with tempfile.TemporaryDirectory(prefix="monaa-vc-") as td:
                futs = []
                for unit, mod in p["specs"]:
                    d = dump(unit, shash, ext)
                    rc, o, e = run([PY, os.path.join(HERE, "worker.py"), d, mod, "list", "-"], 120)
                    if rc:
                        raise Broken("spec module %s: %s" % (mod, e[-800:]))
                    for idx, cid, kind in json.loads(o):
                        if kind == "skip":
                            continue
                        out = os.path.join(td, "%s-%d.json" % (mod, idx))
                        futs.append((mod, cid, out, pool.submit(run, [PY, os.path.join(HERE, "worker.py"), d, mod, str(idx), out], 300)))
                for mod, cid, out, f in futs:
                    rc, o, e = f.result()
                    if rc or not os.path.exists(out):
                        funcs.append({"contract": cid, "fn": cid, "status": "error", "why": "worker: " + (e or "")[-400:], "obs": []})
                        continue
                    r = json.load(open(out))
                    if not r["functions"]:
                        funcs.append({"contract": cid, "fn": cid, "status": "missing", "why": "no function with this name and parameters in the current tree", "obs": []})
                    for fr in r["functions"]:
                        fr["contract"] = cid
                        fr["status"] = "error" if "error" in fr else "pending"
                        fr["why"] = fr.get("error", "")
                        if fr["status"] == "pending" and (not fr["obs"] or not fr.get("returns")):
                            # nothing to prove would be vacuous success
                            fr["status"], fr["why"] = "error", "no obligation or no returning path was generated"
                        funcs.append(fr)
    except Broken as x:
        notes.append(str(x))
        log("deductive part not available:", x)
    except Exception as x:
        notes.append("engine: " + repr(x))
        log("deductive part not available:", repr(x), traceback.format_exc()[-1500:])

    # ---- discharge
    solve_s = 0.0
    memo = {}

    def settle(text, tmo):
        if text is None:
            return "proved", "trivial", 0.0, ""
        if time.time() > deadline:
            return "undecided", "-", 0.0, "time budget of the check used up"
        return decide(text, tmo)
    base = 12 if TIER == "quick" else 40
    todo = []
    for fr in funcs:
        if fr["status"] != "pending":
            continue
        fr["vacf"] = pool.submit(solver, ["z3-new", "-T:4"], fr["vac"], 4)
        fr["vacfs"] = {k: [pool.submit(solver, ["z3-new", "-T:3"], x, 3) for x in v] for k, v in fr.get("vacs", {}).items()}
        for ob in fr["obs"]:
            ob["f"] = pool.submit(settle, ob["smt2"], base)
    if natf:
        nat = natf.result()
        log("native:", nat["cases"], "cases,", len(nat["fails"]), "failure lines", nat["error"] or "")
    for fr in funcs:
        if fr["status"] != "pending":
            continue
        for ob in fr["obs"]:
            ob["st"], ob["by"], ob["s"], ob["out"] = ob.pop("f").result()
            solve_s += ob["s"]
        fr["vacr"] = fr.pop("vacf").result()[0]
        fr["vacw"] = [k for k, v in fr.pop("vacfs").items() if all(f.result()[0] == "unsat" for f in v)]
        fr.pop("vacs", None)
    known = {}
    for f in json.load(open(os.path.join(VERIF, "findings.json")))["findings"]:
        if f["property"] == pid:
            known[f["key"]] = f
    natbad = [x for x in (nat["fails"] if nat else []) if x[0] not in known]
    natknown = sorted({x[0] for x in (nat["fails"] if nat else []) if x[0] in known})
    # a second, longer attempt for what the first left open (not needed when a concrete failing input is at hand)
    open_obs = [ob for fr in funcs if fr["status"] == "pending" for ob in fr["obs"] if ob["st"] in ("unknown", "undecided")]
    refuted = any(ob["st"] == "refuted" for fr in funcs if fr["status"] == "pending" for ob in fr["obs"])
    if open_obs and not natbad and not refuted:
        log(len(open_obs), "obligations open, longer attempt")
        fs = [(ob, pool.submit(settle, ob["smt2"], 60)) for ob in open_obs]
        for ob, f in fs:
            st, by, s, out = f.result()
            if st != "undecided":
                ob["st"], ob["by"], ob["out"] = st, by, out
            ob["s"] += s
            solve_s += s
    for f in leanf:
        rs, sec = f.result()
        solve_s += sec
        for t, ok, why in rs:
            funcs.append({"contract": "lemma " + t, "fn": "lemma " + t, "loc": "/verif/lemmas", "status": "proved" if ok else "error", "why": why,
                          "obs": [{"name": t, "st": "proved" if ok else "error", "by": "Lean 4 kernel", "s": sec, "out": "", "loc": ""}]})
    failed = []
    for fr in funcs:
        if fr["status"] != "pending":
            continue
        if fr["vacr"] == "unsat":
            fr["status"], fr["why"] = "error", "contradictory precondition: verified vacuously"
            continue
        if fr["vacw"] and not any(ob["st"] in ("refuted", "unknown") for ob in fr["obs"]):
            fr["status"], fr["why"] = "error", "contradictory context, verified vacuously: " + ", ".join(fr["vacw"])
            continue
        bad = [ob for ob in fr["obs"] if ob["st"] in ("refuted", "unknown")]
        und = [ob for ob in fr["obs"] if ob["st"] == "undecided"]
        if bad:
            fr["status"] = "failed"
            for ob in bad:
                failed.append((fr, ob))
        elif und:
            fr["status"], fr["why"] = "error", "%d obligations not attempted within the time budget" % len(und)
        else:
            fr["status"] = "proved"
    for fr in funcs:
        log("%-9s %-60s %3d obligations %s" % (fr["status"], fr["contract"], len(fr["obs"]), fr["why"] or ""))
    # ---- verdict
    viol = bool(failed or natbad)
    for k in known:
        f = known[k]
        if k in natknown or not f.get("native", True):
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(VERIF, "evidence", "%s.replay.json" % pid)
    if viol:
        json.dump({"property": pid, "seed": SEED, "tier": TIER,
                   "failing_inputs": [{"kind": k, "input": t} for k, t in natbad],
                   "how_to_replay": "VERIF_SEED=%d VERIF_TIER=%s %s %s %s   (the harness /verif/native/%s.cc re-executes the inputs above on the real code)" % (SEED, TIER, PY, os.path.abspath(__file__), pid, p.get("native")),
                   "failed_obligations": [{"function": fr["fn"], "at": fr.get("loc"), "contract": fr["contract"], "obligation": ob["name"], "obligation_at": ob["loc"], "verdict": ob["st"], "by": ob["by"], "verifier_output": ob["out"][:8000]} for fr, ob in failed]},
                  open(replay, "w"), indent=1)
    elif os.path.exists(replay):
        os.unlink(replay)
    obls = sum(len(fr["obs"]) for fr in funcs)
    disc = sum(1 for fr in funcs for ob in fr["obs"] if ob.get("st") == "proved")
    proved = [fr for fr in funcs if fr["status"] == "proved"]
    backends = {}
    for fr in funcs:
        for ob in fr["obs"]:
            if ob.get("st") == "proved":
                backends[ob["by"]] = backends.get(ob["by"], 0) + 1
    level = p["level"]
    cov = {
        "obligations": obls, "discharged": disc,
        "discharged_by_back_end": backends, "solver_seconds": round(solve_s, 2),
        "checker_cmd": "%s %s %s" % (PY, os.path.abspath(__file__), pid),
        "functions_under_contract": [{"function": fr["fn"], "contract": fr["contract"], "at": fr.get("loc", ""), "status": fr["status"], "obligations": len(fr["obs"]),
                                      "inlined_without_own_contract": fr.get("inlined", []), "callee_contracts_used": fr.get("called", []), "why_not": fr.get("why", "")} for fr in funcs],
        "functions_proved": len(proved),
        "functions_not_proved": [fr["contract"] for fr in funcs if fr["status"] != "proved"],
        "library_models": sorted({m for fr in funcs for m in fr.get("models", [])}),
        "trusted_base": props.TRUSTED + p.get("trusted", []),
        "houdini_queries": sum(fr.get("quick", 0) for fr in funcs),
        "known_findings_seen": natknown,
        "notes": notes,
    }
    if nat is not None:
        cov.update({"evaluations": nat["cases"], "distinct_nontrivial": nat["nontrivial"], "rule": p.get("native_rule", ""), "samples": nat["samples"],
                    "bounded_part": {"labelled": "bounded, never counted as proved", "what": p.get("native_what", ""), "cases": nat["cases"], "seconds": nat.get("seconds"), "error": nat["error"], "failures": nat["counts"]}})
    if level == "other":
        cov["explanation"] = p.get("explanation", "")
    json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
               "assumptions": p.get("assumptions", []) + sorted({"assumed by the verifier: " + a for fr in funcs for a in fr.get("assumed", [])}),
               "wall_s": round(time.time() - T0, 2), "violations": len(natbad) + len(failed)},
              open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        for k, t in natbad[:5]:
            log("failing input [%s] %s" % (k, t))
        for fr, ob in failed[:10]:
            log("failed obligation: %s: %s (%s) %s" % (fr["fn"], ob["name"], ob["st"], ob["loc"]))
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if natbad else " no-failing-input-found"))
        sys.stdout.flush()
        os._exit(1)
    log("%s held: %d/%d obligations over %d functions, %d native cases" % (pid, disc, obls, len(funcs), nat["cases"] if nat else 0))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as x:
        # an error of the machinery is not a violation
        traceback.print_exc()
        try:
            pid = sys.argv[1]
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": "other", "coverage": {"explanation": "the machinery failed: " + repr(x)[:500]}, "wall_s": round(time.time() - T0, 2)},
                      open(os.path.join(VERIF, "evidence", pid + ".json"), "w"))
        except Exception:
            pass
        sys.stdout.flush()
        os._exit(2)
