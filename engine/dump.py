import sys, time
sys.path.insert(0, '/verif/engine')
import facts, engine
from terms import *
from cfg import short
T_ = engine.T_

def summarize(F, b, opaque=()):
    E = engine.Engine(F, opaque)
    st = engine.St({}, {}, (), ())
    args = []
    for i in range(b.argc):
        ty, nm = b.locals[i+1]
        v = T_("param", i, nm or "a%d" % i)
        if ty.startswith("&") and ("mut " in ty.split(" ")[0:2] or ty.startswith("&mut") or " mut " in ty[:20]):
            o = ("arg", i)
            st = st.set(o, v)
            v = T_("ptr", o, ())
        args.append(v)
    rs = E.run_body(st, b, args, "f")
    return E, [(s, E.freeze(s, v)) for s, v in rs]

if __name__ == "__main__":
    F = facts.load(sys.argv[2] if len(sys.argv) > 2 else '/tmp/facts')
    pat = sys.argv[1]
    op = sys.argv[3].split(',') if len(sys.argv) > 3 else []
    for b in F.bodies:
        if b.kind != 'fn' or F.derived(b): continue
        if pat != 'ALL' and not short(b.path).endswith(pat): continue
        t = time.time()
        try:
            E, rs = summarize(F, b, op)
        except engine.Inconclusive as e:
            print("##", b.path, "INCONCLUSIVE", e); continue
        except RecursionError as e:
            print("##", b.path, "RECURSION"); continue
        except Exception as e:
            import traceback
            print("##", b.path, "EXC", repr(e)); 
            if pat != 'ALL': traceback.print_exc()
            continue
        print("##", b.path, "%.2fs" % (time.time()-t), len(rs), "rets; unmodelled:", dict(E.unmodelled))
        if pat != 'ALL':
            for s, v in rs:
                print("  RET", show(v, 30))
                for k, x in s.conj.items(): print("     ", "+" if x else "-", show(k, 30))
                for e in s.ev: print("     EV", show(e, 30))
                for o, x in s.env.items():
                    if o[0] == 'arg': print("     ARG", o[1], show(E.freeze(s,x), 30))
            for n, a, cj, sp, pth in E.panics:
                print("  PANIC", n, [show(x, 6) for x in a], "at", sp, " if ", [("" if v else "!")+show(k, 8) for k, v in cj.items()])
            for L in (E.loops.values() if '-l' in sys.argv else ()):
                if L.phis:
                    print("  LOOP", L.id, L.where and short(L.where[0].path), [(show(a), show(b, 8)) for a, b in L.binds])
                    for pth, (phi, init) in L.phis.items():
                        print("     PHI", show(phi), "init", show(init, 6), "CLOSED " + show(L.closed[phi], 20) if phi in L.closed else [ ([("" if v else "!")+show(k,8) for k,v in loc], show(vals[pth], 12)) for loc, vals, ev in L.backs if vals[pth] is not phi])
