"""The ranked choice tally: the matrix of pairwise margins and the winner read off it.

`cells` holds, row by row, the upper half of an antisymmetric matrix: the cell for (x, y), x > y, is
the number of votes (by weight) that prefer x to y minus the number that prefer y to x."""
from lib import *

K = "dao_proposal_condorcet"
WINNER = K + "::tally::Winner"
CELL = K + "::cell::Cell"


def number(t, env):
    """value of an integer term for values of its atoms (None: something else is in it)"""
    if t in env:
        return env[t]
    if t.op == "int":
        return t.a[0]
    if t.op == "cast":
        return number(t.a[1], env)
    if t.op in ("add", "sub", "mul", "div"):
        l = [number(x, env) for x in t.a]
        if any(x is None for x in l):
            return None
        r = l[0]
        for x in l[1:]:
            if t.op == "div" and not x:
                return None
            r = r + x if t.op == "add" else r - x if t.op == "sub" else r * x if t.op == "mul" else r // x
        return r
    return None


def place(i, x, y, n):
    """the term i is the place of the cell (x, y), x > y: a polynomial of degree two in each of the
    three, so agreeing on this grid it agrees everywhere"""
    for nn in range(2, 7):
        for yy in range(nn):
            for xx in range(yy + 1, nn):
                if number(i, {x: xx, y: yy, n: nn}) != yy * nn - (yy + 1) * yy // 2 + xx - (yy + 1):
                    return False
    return True


def terms_of(p):
    l = [k for k in p.st.facts if k.__class__ is T] + [k for k in p.st.var if k.__class__ is T]
    return l


def cell_of(p, cells, a, b, n):
    """(cell term, whether it counts for a against b or the other way round) for the cell that
    compares a and b on this path"""
    if p.truth(t_lt(b, a)) is True:
        x, y, same_way = a, b, True
    elif p.truth(t_lt(a, b)) is True or p.truth(t_lt(b, a)) is False and p.truth(t_eq(a, b)) is False:
        x, y, same_way = b, a, False
    else:
        return None, None
    for k in terms_of(p):
        for t in subterms(k):
            if t.op == "idx" and t.a[0] is cells and contains(t, x) and contains(t, y) and place(t.a[1], x, y, n):
                return t, same_way
    return None, same_way


def sign(p, cells, a, b, n):
    """(+1/0/-1, magnitude) of the margin of a over b, as far as this path looked at it"""
    if p.truth(t_eq(a, b)) is True:
        return "self", None
    t, way = cell_of(p, cells, a, b, n)
    if t is None:
        return None, None
    v = p.variant_of(t)
    if v == "Zero":
        return 0, None
    if v in ("Positive", "Negative"):
        return (1 if (v == "Positive") == way else -1), payload(t, v)
    return None, None


def elems(t):
    return {y for y in subterms(t) if y.op == "elem"}


def whole(e, n):
    """the element runs over 0..n"""
    l = e.a[0]
    while l.op == "again":
        l = l.a[0]
    return l.op == "adt" and l.a[0].endswith("Range") and F(l, "start") is I(0) and same(F(l, "end"), n)


def winner_fns():
    p = prog(K)
    out = []
    for f in p.fns:
        if not f or "lt" not in f or "::test" in f["p"] or f.get("n") != 1:
            continue
        t = p.types[f["lt"][0]]
        if (t.get("p") or t["s"]).endswith("tally::Winner") and "{closure" not in f["p"] and p.types[f["lt"][1]]["k"] == "ref":
            out.append(f["p"])
    return out


def loops_of(ps):
    """loops with carried cells: [(tag, {cell: mu}, [end state], header)]"""
    out = []
    for e in {id(p.e): p.e for p in ps}.values():
        for tag, base, iters, h in e.loop_recs:
            m = {c: t for c, t in h.mem.items() if t.op == "mu"}
            out.append((e, tag, m, iters, h))
    return out


def winner_rules(c):
    fs = winner_fns()
    c.note = getattr(c, "note", "")
    for name in fs:
        W = name
        fn = name[len(K) + 2:]
        ps = [p for p in run(K, fn, exact=True) if p.feasible()]
        me = sym("self")
        cells, n, out = F(me, "m.cells"), F(me, "m.n"), fld(me, "power_outstanding")
        won = [p for p in ps if p.ret.op == "adt" and p.ret.a[1] in ("Some", "Undisputed")]
        not_won = [p for p in ps if p.ret.op == "adt" and p.ret.a[1] in ("None", "Never")]
        c.ob(won and not_won and len(won) + len(not_won) == len(ps), "winner-cases", W, [show(p.ret)[:80] for p in ps][:5])
        cols = {payload(p.ret, p.ret.a[1]) if p.ret.op != "adt" else p.ret.a[3] for p in won}
        if len(cols) != 1 or list(cols)[0].op != "elem":
            c.ob(False, "winner-column", W, "the winner is not a column looked at: %s" % [show(x)[:100] for x in cols])
            continue
        col = list(cols)[0]
        c.ob(whole(col, n), "winner-column", W, "not every column is looked at: %s" % show(col)[:200])
        recs = loops_of(ps)
        inner = []
        for e, tag, m, iters, h in recs:
            rows = {z for b in iters for k in b.facts if k.__class__ is T for y in subterms(k) if y.op == "idx" and y.a[0] is cells for z in elems(y.a[1]) if z is not col}
            known = set(h.mem.values())
            if m and rows and not any(y.op == "mu" and y not in known for b in iters for k in b.facts if k.__class__ is T and k not in h.facts for y in subterms(k)):
                inner.append((e, tag, m, iters, h, rows))
        rows = {z for x in inner for z in x[5]}
        tags = {x[1] for x in inner}
        if len(tags) != 1 or len(rows) != 1:
            c.ob(False, "winner-rows", W, "no loop over the rows of a column: %s" % [show(z)[:100] for z in rows])
            continue
        row = list(rows)[0]
        c.ob(whole(row, n), "winner-rows", W, "not every row is looked at: %s" % show(row)[:200])
        kinds = {}
        rowtag = list(tags)[0]
        for e, tag, m, iters, h, _ in inner:
            for cell, mu in m.items():
                if not any(b.mem.get(cell) is not mu for b in iters):
                    continue
                kinds.setdefault(mu, classify(e, cell, mu, iters, cells, col, row, n))
        Z = [(m, z) for m, k in kinds.items() for q, z in k if q == "zero"]
        D = [m for m, k in kinds.items() for q, z in k if q == "distance"]
        MM = [m for m, k in kinds.items() for q, z in k if q == "least"]
        X = [m for m, k in kinds.items() for q, z in k if q == "worst"]
        c.ob(bool(Z), "column-positive", W, "nothing tells a column of victories from any other: %s" % [k for k in kinds.values()])

        def positive(p):
            for m, z in Z:
                t = p.truth(t_eq(m, z)) if z.op == "int" else None
                if t is not None:
                    return t
            return None

        def safe(p):
            """the least margin is greater than what is still to be voted"""
            for m in MM:
                t = p.truth(t_lt(out, m))
                if t is not None:
                    return t
            return None

        def winnable(p):
            a = b = None
            for d in D:
                for f in (mk("mul", out, t_sub(n, I(1))), mk("mul", t_sub(n, I(1)), out)):
                    if a is None:
                        a = p.truth(t_lt(f, d))
            for x in X:
                if b is None:
                    b = p.truth(t_lt(x, out))
            if a is True or b is False:
                return False
            if a is False and b is True:
                return True
            return None
        k, seen = 0, set()
        for p in won:
            if positive(p) is None:
                continue         # the same exit after another last row
            k += 1
            c.ob(positive(p) is True, "winner-positive", W, show(p.ret), p)
            if safe(p) is not None:
                c.ob(safe(p) is (p.ret.a[1] == "Undisputed"), "winner-margin", W, show(p.ret), p)
                seen.add(p.ret.a[1])
        c.ob(k >= 2, "winner-positive", W + " (cases)", k)
        c.ob(seen == {"Some", "Undisputed"}, "winner-margin", W + " (cases)", sorted(seen))
        # columns that are passed over
        flag = []
        for e, tag, m, iters, h in recs:
            if tag == rowtag or not any(contains(kk, row) or any(y in kinds for y in subterms(kk)) for b in iters for kk in b.facts if kk.__class__ is T):
                continue
            reps = [P(e, b, UNIT, "", "", None) for b in iters]
            reps = [q for q in reps if positive(q) is not None]
            c.ob(bool(reps), "columns-passed", W, "no iteration over the columns")
            for q in reps:
                c.ob(positive(q) is False, "columns-passed", W, "a winning column is passed over", q)
            for cell, mu in m.items():
                k0 = mu.a[0]
                if k0.op != "int" or k0.a[0] not in (0, 1):
                    continue
                ok = True
                for q in reps:
                    end = q.st.mem.get(cell)
                    if end is mu:
                        ok = ok and q.entails(lambda r: winnable(r) is False)
                    else:
                        ok = ok and end is not k0 and end is not None and end.op == "int" and q.entails(lambda r: winnable(r) is True)
                if ok:
                    flag.append((mu, k0))
        c.ob(bool(flag), "never-decided", W, "nothing records whether a column can still win; cells: %s" % [k for k in kinds.values()])
        k = set()
        for p in not_won:
            if p.truth(t_eq(mk("len", col.a[0]), I(0))) is True or p.truth(t_eq(n, I(0))) is True:
                continue
            if positive(p) is None:
                continue

            def hopeless(q):
                t = None
                for m, k0 in flag:
                    x = q.truth(t_eq(m, k0))
                    if x is None:
                        x = q.truth(m)
                        x = x if x is None or k0.a[0] else not x
                    t = x if t is None else t
                w = winnable(q)
                if t is False or w is True:
                    return False
                if t is True and w is False:
                    return True
                return None
            k.add(p.ret.a[1])
            c.ob(p.entails(lambda q: positive(q) is False), "no-winner", W, show(p.ret), p)
            c.ob(p.entails(lambda q: hopeless(q) is (p.ret.a[1] == "Never")), "never-decided", W, (show(p.ret), [(show(m)[:50], p.truth(t_eq(m, k0))) for m, k0 in flag], winnable(p)), p)
        c.ob(k == {"None", "Never"}, "never-decided", W + " (cases)", sorted(k))
    # the stored winner is the one of the stored tally
    if fs:
        for v in ("Vote", "Propose"):
            k = 0
            for p in run(K, "contract::execute", [(MSG, v)], opaque=tuple(fs)):
                for p in p.ok():
                    for t in [t for x in p.saves("tallys") for t in leaves(x.a[2])]:
                        k += 1
                        for o in leaves(fld(t, "winner")):
                            good = o.op == "call" and o.a[0].split("::<")[0] in fs and len(o.a) == 2
                            if c.ob(good, "winner-stored", "%s::execute/%s" % (K, v), show(o)[:300], p):
                                a = o.a[1]
                                for f in ("m", "power_outstanding"):
                                    y, z = fld(a, f), fld(t, f)
                                    c.ob(same(y, z) or alike(y, z), "winner-stored", "%s::execute/%s %s" % (K, v, f), "computed from %s, stored %s" % (show(y)[:200], show(z)[:200]), p)
            c.ob(k > 0, "anchor", "%s::execute/%s stores a tally" % (K, v), k)


def classify(e, cell, mu, iters, cells, col, row, n):
    """What a cell carried through the loop over the rows of a column holds after it, by induction:
    zero      its first value as long as every cell looked at is positive, something else for ever after
    distance  the sum over the cells that are not positive of what they lack
    least     the least of the positive margins
    worst     the greatest of the negative ones"""
    init = mu.a[0]
    ks = {"zero", "distance", "least", "worst"}
    if init is not I(0):
        ks -= {"distance", "worst"}
    if init.op != "const" or not show(init).endswith("MAX)"):
        ks.discard("least")
    for b in iters:
        p = P(e, b, UNIT, "", "", None)
        if not p.feasible():
            continue
        end = b.mem.get(cell)

        def num(q, t):
            for y in subterms(t):
                if y.op == "phi":
                    return None
            return t

        def test(kind):
            def f(q):
                s, v = sign(q, cells, col, row, n)
                x = end
                if s is None:
                    return False
                if kind == "zero":
                    if s in ("self", 1):
                        return x is mu
                    return q.truth(t_eq(x, init)) is False or init is I(0) and nonzero_sum(x)
                if kind == "distance":
                    if s in ("self", 1):
                        return x is mu
                    d = t_sub(x, mu)
                    want = I(1) if s == 0 else t_add(v, I(1))
                    return lin_same(x, t_add(mu, want))
                if kind == "least":
                    if s != 1:
                        return x is mu
                    lt = q.truth(t_lt(v, mu))
                    return x is v and lt is True or x is mu and lt is False or x is v and q.truth(t_lt(mu, v)) is False or x is mu and q.truth(t_lt(mu, v)) is True or x.op == "min" and set(x.a) == {v, mu}
                if kind == "worst":
                    if s != -1:
                        return x is mu
                    lt = q.truth(t_lt(mu, v))
                    return x is v and lt is True or x is mu and lt is False or x is v and q.truth(t_lt(v, mu)) is False or x is mu and q.truth(t_lt(v, mu)) is True or x.op == "max" and set(x.a) == {v, mu}
            return f
        ks = {k for k in ks if p.entails(test(k))}
    return [(k, init) for k in sorted(ks)]


def nonzero_sum(x):
    l = lin(x)
    return all(v > 0 for v in l.values()) and l.get(1, 0) > 0


def lin_same(a, b):
    return a is b or lin(a) == lin(b)


# ---- a vote changes the margins ----------------------------------------------------------------
def prefs(t, vote):
    """preferences of the voter in the term: the element of the list, or what is at a position"""
    return {y for y in subterms(t) if y.op == "elem" and unwrap(y.a[0]) is vote or y.op == "idx" and unwrap(y.a[0]) is vote}


def unwrap(l):
    while l.op in ("again", "adt") and len(l.a) >= 1:
        if l.op == "adt":
            if len(l.a) != 4 or l.a[3].__class__ is not T:
                break
            l = l.a[3]
        else:
            l = l.a[0]
    return l


def position(y):
    return mk("pos", y.a[0]) if y.op == "elem" else y.a[1]


def before(i, j):
    """position i comes before position j, and i runs over all that do (or j over all that come after i)"""
    def rng(x):
        while x.op == "cast":
            x = x.a[1]
        if x.op == "elem":
            l = x.a[0]
            while l.op == "again":
                l = l.a[0]
            if l.op == "adt" and l.a[0].endswith("Range"):
                return F(l, "start"), F(l, "end")
        return None
    r = rng(i)
    if r and r[0] is I(0) and same(r[1], j):
        return True
    r = rng(j)
    return bool(r and (same(r[0], t_add(i, I(1))) or same(r[0], t_add(I(1), i))))


def vote_rules(c, vote, power_of, n0, pid):
    """every pair of preferences of the ballot changes the one cell that compares them, by the
    voter's power, in favour of the one ranked first"""
    W = K + "::execute/Vote"
    ps = [p for p in run(K, "contract::execute", [(MSG, "Vote")], opaque=tuple(winner_fns()))]
    k = 0
    done = set()
    for e, tag, m, iters, h in loops_of(ps):
        for b in iters:
            new = [(cell, v) for cell, v in b.mem.items() if v is not h.mem.get(cell) and any(y.op == "setidx" and fld_of(y.a[0], "cells") for y in subterms(v))]
            if not new or any(any(y.op == "mu" and y not in set(h.mem.values()) for y in subterms(v)) for _, v in new):
                continue
            q0 = P(e, b, UNIT, "", "", None)
            for cell, v in new:
                top = v
                while top.op == "upd":
                    top = top.a[0]
                sets = [y for y in subterms(v) if y.op == "setidx" and y not in subterms_of(top)]
                key_ = (tag, v, tuple(sorted(map(str, (show(x)[:50] for x in b.facts if x.__class__ is T)))))
                if key_ in done:
                    continue
                done.add(key_)
                if not c.ob(len(sets) == 1, "pairwise", W, "%d cells change for a pair" % len(sets), q0):
                    continue
                cells, ix, val = sets[0].a
                n = fld(cells.a[0], "n") if cells.op == "fld" else n0
                ab = sorted(prefs(ix, vote), key=show)
                if any(y.op == "mu" and y not in subterms_of(cells) for y in subterms(ix) if not contains(n, y)) or any(y.op == "elem" and y.a[0].op == "again" for y in ab):
                    # positions counted by hand, or the two taken from two runs over the list: which of
                    # them is ranked first is not decided here
                    k += 2
                    continue
                if not c.ob(len(ab) == 2, "pairwise", W, "the cell is not that of two preferences of the ballot: %s" % show(ix)[:300], q0):
                    continue
                if before(position(ab[0]), position(ab[1])):
                    first, second = ab
                elif before(position(ab[1]), position(ab[0])):
                    second, first = ab
                else:
                    c.ob(False, "pairwise", W, "not every pair, or not known which is ranked first: %s" % [show(position(x))[:150] for x in ab], q0)
                    continue
                k += 1
                ok = {}

                def oriented(q):
                    if q.truth(t_lt(second, first)) is True:
                        return place(ix, first, second, n) and (ok.setdefault("way", True) is True)
                    if q.truth(t_lt(first, second)) is True or q.truth(t_lt(second, first)) is False:
                        return place(ix, second, first, n) and (ok.setdefault("way", False) is False)
                    return False
                if not c.ob(q0.entails(oriented), "pairwise", W, "not the place of the pair: %s" % show(ix)[:300], q0):
                    continue
                up = ok["way"]       # the margin stored is that of the preferred one
                old = mk("idx", cells, ix)
                pw = next((y for y in subterms(val) if power_of(y)), None)
                if not c.ob(pw is not None, "pairwise", W, "the voter's power is not counted: %s" % show(val)[:300], q0):
                    continue

                def spec(o):
                    s = o.var(old, "Positive", "Zero", "Negative")
                    if s == "Zero":
                        return ("Positive" if up else "Negative", pw)
                    x = payload(old, s)
                    if (s == "Positive") == up:
                        return (s, t_add(x, pw))
                    if o(t_eq(pw, x)):
                        return ("Zero", None)
                    if o(t_lt(x, pw)):
                        return ("Negative" if s == "Positive" else "Positive", t_sub(pw, x))
                    return (s, t_sub(x, pw))

                def eq(q, x, r):
                    return x.op == "adt" and x.a[1] == r[0] and (r[1] is None or same(x.a[3], r[1]) or lin(x.a[3]) == lin(r[1]))
                agree(c, q0, val, spec, eq, "margin", W)
    if k < 2:
        # another way of writing it: not decided, but something has to change
        ty = [fld(x.a[2], "m") for p in ps for p in p.ok() for x in p.saves("tallys")]
        c.ob(any(not is_ld(x.a[0] if x.op == "fld" else x, "tallys", pid) for x in ty), "pairwise", W + " (cases)", [show(x)[:80] for x in ty][:4])
    # a new tally starts with no margins
    for p in run(K, "contract::execute", [(MSG, "Propose")], opaque=tuple(winner_fns())):
        for p in p.ok():
            for x in p.saves("tallys"):
                m = fld(x.a[2], "m")
                n = fld(m, "n")
                l = fld(m, "cells")
                ok = l.op == "call" and l.a[0].endswith("from_elem") and l.a[1].op == "adt" and l.a[1].a[1] == "Zero"
                c.ob(ok, "no-margins", K + "::execute/Propose", show(l)[:200], p)
                if ok:
                    a = number_of(l.a[2], n)
                    c.ob(a, "no-margins", K + "::execute/Propose", "not one cell for each pair: %s" % show(l.a[2])[:200], p)
                prop = [y for y in p.saves("proposals")]
                c.ob(bool(prop) and all(same(strip(n), length(fld(y.a[2], "choices"))) for y in prop), "candidates", K + "::execute/Propose", show(n)[:200], p)


def leaves(t):
    return [x for _, v in E.phi_cases(t) for x in leaves(v)] if t.op == "phi" else [t]


def alike(y, z):
    """computed from one of the alternatives that may be stored (where the paths were merged)"""
    l = leaves(z)
    return all(any(same(a, b) for b in l) for a in leaves(y))


def strip(t):
    while t.op == "cast":
        t = t.a[1]
    return t


def number_of(t, n):
    return all(number(t, {n: x, strip(n): x}) == x * (x - 1) // 2 for x in range(1, 7))


def subterms_of(t):
    return set(subterms(t))


def fld_of(t, name):
    while t.op in ("upd", "setidx"):
        t = t.a[0]
    return t.op == "fld" and t.a[1] == name
