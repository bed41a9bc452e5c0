import sys, time
sys.path.insert(0, '/verif/analysis')
from engine import *
from terms import *

def entry(prog, name, params, variant=None, pre=None, opaque=()):
    e = Engine(prog, opaque)
    fid = prog.find(name)
    st = new_state()
    args = []
    f = prog.fns[fid]
    for i, p in enumerate(params):
        t = mk("sym", p)
        ty = prog.types[f["lt"][i+1]]
        if ty["k"] == "ref" and ty["m"]:
            c = -(i+1)
            st.mem[c] = t
            args.append(mk("mref", c))
        else:
            args.append(t)
        if variant and p == variant[0]:
            st.var[t] = ("is", variant[1])
    e.site = "?"
    outs = e.exec_fn(fid, args, st)
    return e, [(s, e.deref(s, v)) for s, v in outs]

if __name__ == "__main__":
    prog = Program('/verif/.work/mir/%s.json' % sys.argv[1])
    f = prog.fns[prog.find(sys.argv[2])]
    names = [f["ln"].get(str(i+1), "p%d" % i) for i in range(f["n"])]
    t = time.time()
    v = None
    if len(sys.argv) > 3:
        v = ("msg", sys.argv[3])
    e, outs = entry(prog, sys.argv[2], [n.lstrip('_') for n in names], v)
    print("%.2fs blocks %d outcomes %d" % (time.time()-t, e.stats["blocks"], len(outs)))
    for s, r in outs:
        if is_adt(r, "Err"): continue
        p = Path(e, s, r)
        print("=== RET", show(r))
        for k, v in p.facts.items():
            if k.__class__ is T: print("   ", "" if v else "NOT", show(k))
        for k, v in p.var.items(): print("    var", show(k), v)
        for x in p.effects: print("    EFF", x)
    print(len(outs), sum(is_adt(r,"Err") for s,r in outs), "capped", e.stats["capped"])
    print(e.stats["opaque"])
