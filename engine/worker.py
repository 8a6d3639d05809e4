"""generate the obligations of one contract: worker.py DUMP MODULE INDEX OUT.json"""
import sys, os, json, importlib, time, traceback, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "..", "specs"))
sys.setrecursionlimit(20000)


def main():
    dump, mod, idx, out = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4]
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    import z3
    from contracts import Registry, verify_function, smt2
    from core import Unit, Unsupported
    m = importlib.import_module(mod)
    if sys.argv[3] == "list":
        print(json.dumps([(i, c.id, "check" if c.check else "skip") for i, c in enumerate(m.CONTRACTS)]))
        return
    u = Unit(dump)
    reg = Registry(m.CONTRACTS)
    reg.indirect_ = getattr(m, "INDIRECT", None)
    reg.ghosts_ = getattr(m, "GHOSTS", {})
    reg.models_ = getattr(m, "MODELS", {})
    c = m.CONTRACTS[int(idx)]
    fns = [f for f in u.byname.get(c.name, []) if c.matches(f, u)]
    res = {"contract": c.id, "functions": []}
    for fn in fns:
        t0 = time.time()
        r = {"fn": fn["n"], "params": [u.types[p]["s"] for p in fn["p"]], "loc": fn.get("loc", ""), "obs": []}
        try:
            fr = verify_function(u, reg, c, fn)
            for ob in fr.obs:
                r["obs"].append({"name": ob.name, "loc": ob.loc, "kind": ob.kind,
                                 "smt2": None if z3.is_true(ob.goal) else smt2(ob.pc, ob.goal)})
            r["vac"] = smt2(fr.pre_pc, z3.BoolVal(False))
            # contexts that must not be contradictory: where it returns, and the bodies of its loops
            ctxs = {}
            for ob in fr.obs:
                k = "return" if ob.name.startswith("ensures") else " ".join(ob.name.split()[:2]) if ob.name.startswith("loop ") and ob.name.endswith("preserved") else None
                if k:
                    ctxs.setdefault(k, {})[tuple(f.get_id() for f in ob.pc[-3:])] = ob.pc
            r["vacs"] = {k: [smt2(pc, z3.BoolVal(False)) for pc in list(v.values())[:6]] for k, v in ctxs.items()}
            r.update(returns=fr.returns, inlined=sorted(fr.inlined), called=sorted(fr.called), models=sorted(map(str, fr.models)),
                     assumed=sorted(map(str, fr.assumed)), quick=fr.quick, quick_s=fr.quick_time)
        except Unsupported as x:
            r["error"] = "unsupported: " + str(x)[:500]
        except Exception as x:
            r["error"] = "tool: " + repr(x)[:500]
            r["trace"] = traceback.format_exc()[-3000:]
        r["gen_s"] = time.time() - t0
        res["functions"].append(r)
    json.dump(res, open(out, "w"))


main()
