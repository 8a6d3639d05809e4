"""case split of one SMT-LIB obligation on the conditions of its if-then-else terms: stdin -> JSON list of SMT-LIB texts on stdout"""
import sys, json, itertools
sys.setrecursionlimit(20000)
import z3


def ground(t, memo):
    k = t.get_id()
    if k not in memo:
        if z3.is_var(t):
            memo[k] = False
        elif z3.is_quantifier(t):
            memo[k] = False
        else:
            memo[k] = all(ground(x, memo) for x in t.children())
    return memo[k]


def conds(ts):
    seen, memo, out, keep = set(), {}, {}, []
    st = list(ts)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        keep.append(t)
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c = t.arg(0)
            if ground(c, memo):
                while z3.is_not(c):
                    c = c.arg(0)
                out.setdefault(c.get_id(), [c, 0])[1] += 1
        st.extend(t.children())
    return [c for c, n in sorted(out.values(), key=lambda x: -x[1])]


def main():
    limit = int(sys.argv[1]) if len(sys.argv) > 1 else 3
    fs = list(z3.parse_smt2_string(sys.stdin.read()))
    goal = fs[-1]
    cs = conds([goal])[:limit]
    cs = [c for c in cs if not (z3.is_true(c) or z3.is_false(c))]
    if not cs:
        print("[]")
        return
    out = []
    for vals in itertools.product([True, False], repeat=len(cs)):
        # conditions may contain one another: substitute step by step
        done, hs, todo = list(fs), [], list(zip(cs, vals))
        sub = [(c, z3.BoolVal(v)) for c, v in todo]
        gs = [z3.simplify(z3.substitute(f, *sub)) for f in done]
        lits = [c if v else z3.Not(c) for c, v in todo]
        s = z3.Solver()
        s.add(*lits)
        s.add(*gs)
        out.append(s.to_smt2())
    print(json.dumps(out))


main()
