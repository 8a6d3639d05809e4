"""command-line driver: verify the contracts of a spec module (development aid)"""
import sys, os, importlib, time
sys.path.insert(0, os.path.dirname(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "specs"))
from contracts import *


def find_fns(u, c):
    out = []
    for f in u.byname.get(c.name, []):
        if c.matches(f, u):
            out.append(f)
    return out


if __name__ == "__main__":
    dump, mod = sys.argv[1], sys.argv[2]
    only = sys.argv[3:] 
    u = Unit(dump)
    m = importlib.import_module(mod)
    reg = Registry(m.CONTRACTS)
    reg.indirect_ = getattr(m, "INDIRECT", None)
    reg.ghosts_ = getattr(m, "GHOSTS", {})
    reg.models_ = getattr(m, "MODELS", {})
    for c in m.CONTRACTS:
        if only and not any(o in c.id for o in only):
            continue
        fns = find_fns(u, c)
        if not fns:
            print("MISSING", c.id)
        for fn in fns:
            t0 = time.time()
            try:
                r = verify_function(u, reg, c, fn)
            except Unsupported as x:
                print("UNSUPPORTED", c.id, x)
                if "-v" in sys.argv: traceback.print_exc()
                continue
            except Exception as x:
                print("TOOLERROR", c.id, repr(x)[:300])
                if os.environ.get("TB"): traceback.print_exc()
                continue
            tg = time.time() - t0
            if os.environ.get("OB"):
                r.obs = [o for o in r.obs if any(k in o.name + " " + str(o.loc) for k in os.environ["OB"].split("|"))]
            discharge(r, int(os.environ.get("TMO", "15")))
            bad = [x for x in r.results if x[1] != "proved"]
            print("%s %s: %d obligations, %d not proved, vac=%s, returns=%d gen=%.1fs solve=%.1fs quick=%d/%.1fs inl=%s called=%s" % ("OK  " if not bad else "FAIL", c.id, len(r.results), len(bad), r.vac, r.returns, tg, r.seconds, r.quick, r.quick_time, sorted(r.inlined), sorted(r.called)))
            for x in (r.results if os.environ.get("SMT") == "all" else bad):
                print("    ", x[1], x[0].name, x[0].loc, "%.1fs" % x[3])
                if os.environ.get("MODEL"):
                    print(x[4][:6000])
                if os.environ.get("SMT"):
                    open("/tmp/fail.smt2", "w").write(smt2(x[0].pc, x[0].goal))
                    open("/tmp/fail%d.smt2" % r.results.index(x), "w").write(smt2(x[0].pc, x[0].goal))
            slow = sorted(r.results, key=lambda x: -x[3])[:1]
            if slow and slow[0][3] > 3:
                print("     slowest %.1fs %s" % (slow[0][3], slow[0][0].name))
