"""C30 stake books.  Every delegation, undelegation, redelegation and slash of a vesting's tokens is put on
the books of the validator and of the total, at the time it takes effect and at every later time already
recorded; a look at any time gives what was last recorded by then."""
from lib import *
from props.c19 import K, latest, is_none

NOW = mk("secs", TIME)


def later(t, ns, k, sec):
    """t iterates the recordings of ns[k] after `sec`"""
    if t.op != "iter" or t.a[0] != "range" or t.a[1].__class__ is not T or t.a[1].op != "iter":
        return False
    b, lo, hi = t.a[1:4]
    return (b.a[0] == "prefix" and b.a[1] == ns and b.a[3] is k and is_none(hi) and lo.op == "adt" and lo.a[1] == "Some"
            and (lambda x: x.op == "call" and x.a[0].endswith("Bound::exclusive") and x.a[1] is sec)(payload(lo, "Some")))


def mentioned(p):
    out = {y for z, _ in lits_of(p) for y in subterms(z)}
    for x in p.effects:
        for a in x.a:
            if a.__class__ is T:
                out.update(subterms(a))
    return out


def was(p, ns, k, sec, x):
    """x is what was last recorded there by then (zero if nothing was)"""
    for it in mentioned(p):
        if latest(it, ns, k, sec):
            e = mk("len", it)
            if p.truth(t_eq(e, I(0))) is True:
                if x is I(0):
                    return True
            elif amounts_equal(p, x, fld(payload(mk("elem", it), "Ok"), "1")):
                return True
    return False


def ops(v):
    """(namespace, key, time, amount, sign, later too) of what the operation records"""
    M = as_(MSG, v)
    a, val = fld(M, "amount"), lambda n="validator": fld(M, n)
    if v == "Delegate":
        return [("staked", UNIT, NOW, a, 1), ("validator", val(), NOW, a, 1)]
    if v == "Undelegate":
        T_ = t_add(ld("ubs"), NOW)
        return [("staked", UNIT, T_, a, -1), ("validator", val(), T_, a, -1)]
    if v == "Redelegate":
        return [("validator", val("src_validator"), NOW, a, -1), ("validator", val("dst_validator"), NOW, a, 1)]
    T_ = mk("secs", fld(M, "time"))
    return [("staked", UNIT, T_, a, -1), ("validator", val(), T_, a, -1)]


moves = {"Delegate": (1,), "Undelegate": (-1,), "Redelegate": (1, -1), "RegisterSlash": (1, -1)}


def counted(it):
    return it.op == "iter" and it.a[0] == "range" and it.a[1].op == "iter" and it.a[1].a[0] == "prefix" and it.a[1].a[1] == "cardinality"


def moved(y):
    """by how much y differs from the count that was last recorded"""
    d = lin(y)
    k = d.pop(1, 0)
    at = [x for x, n in d.items() if n]
    return k if not at or len(at) == 1 and d[at[0]] == 1 and any(counted(z) for z in subterms(at[0])) else None


def records(c, v):
    W = "%s::execute/%s" % (K, v)
    ps = [p for p in some_paths(c, K, "execute", v) if p.feasible()]
    want = ops(v)
    unbonding = lambda p: v == "RegisterSlash" and p.truth(F(as_(MSG, v), "during_unbonding")) is True
    for p in ps:
        for q in settle(p):
            if impossible(q):
                continue
            saves = [x for x in q.effects if x.kind in ("save", "remove") and x.a[0].op == "str" and x.a[0].a[0] in ("staked", "validator")]
            used = set()
            for ns, k, t, a, s in want:
                key_ = mk("tuple", k, t)
                mine = [i for i, x in enumerate(saves) if x.kind == "save" and x.a[0].a[0] == ns and x.a[1] is key_]
                if not mine and q.truth(t_eq(a, I(0))) is True:
                    continue
                if not c.ob(len(mine) == 1, "recorded", W, "%s of %s at %s: %d times" % (ns, show(k), show(t), len(mine)), q):
                    continue
                used.add(mine[0])
                x = saves[mine[0]].a[2]
                for r, (y,) in q.split(x):
                    if r.feasible() and not impossible(r):
                        c.ob(was(r, ns, k, t, t_sub(y, a) if s > 0 else t_add(y, a)), "amount", W, "%s := %s" % (ns, show(y)[:300]), r)
                its = [y for y in mentioned(q) if later(y, ns, k, t)]
                if unbonding(q):
                    c.ob(not its, "until-unbonded", W, "what is scheduled for later already leaves it out", q)
                    continue
                if not c.ob(bool(its), "later-too", W, "%s of %s after %s" % (ns, show(k), show(t)), q):
                    continue
                for it in its:
                    e = mk("elem", it)
                    ek, ev = fld(payload(e, "Ok"), "0"), fld(payload(e, "Ok"), "1")
                    there = [i for i, x in enumerate(saves) if x.kind == "save" and x.a[0].a[0] == ns and x.a[1] is mk("tuple", k, ek)]
                    if q.truth(t_eq(mk("len", it), I(0))) is True and not there:
                        continue
                    used.update(there)
                    c.ob(len(there) == 1 and amounts_equal(q, saves[there[0]].a[2], t_add(ev, a) if s > 0 else t_sub(ev, a)), "later-too", W, [show(saves[i].a[2])[:300] for i in there], q)
            for x in q.effects:
                if x.kind in ("save", "remove") and x.a[0].op == "str" and x.a[0].a[0] == "cardinality":
                    for r, (y,) in (q.split(x.a[2]) if x.kind == "save" else [(q, (UNIT,))]):
                        c.ob(not r.feasible() or impossible(r) or moved(y) in moves[v], "count-by-one", W, show(y)[:300], r)
            c.ob(len(used) == len(saves), "nothing-else", W, [(x.kind, show(x.a[1])[:200]) for i, x in enumerate(saves) if i not in used], q)
    if v != "Redelegate":
        each_iter(c, ps, "every-later", W, is_write("staked"))
    each_iter(c, ps, "every-later", W, is_write("validator"))


def count(c):
    """a validator whose recorded stake changes at a later time is counted, or no longer, from then: what
    is recorded for later is compared with nothing"""
    for v in ("Delegate", "Redelegate", "RegisterSlash"):
        W = "%s::execute/%s" % (K, v)
        ps = [p for p in some_paths(c, K, "execute", v) if p.feasible()]
        its = [(p, x) for p, l in loop_iters(ps, is_write("validator")) for x in l if is_write("validator")(x)]
        c.ob(bool(its), "anchor", W + " (later recordings)", "")
        for k in {y.a[0].a[1].a[3] for p, x in its for y in subterms(x.a[1]) if y.op == "elem"}:
            ok = any(z.op == "eq" and fld(payload(y, "Ok"), "1") in subterms(z) for p, x in its for y in subterms(x.a[1]) if y.op == "elem" and y.a[0].a[1].a[3] is k for f, _ in lits_of(p) for z in subterms(f))
            c.ob(ok, "counted-later", W + " of " + show(k), "the stake recorded for a later time may become or cease to be zero; the count of validators does not look")


def when_counted(c):
    """the count moves up at a time only when the validator had nothing then, down only when it has nothing
    left then, and at the time of the operation itself it moves whenever that is so"""
    for v in ("Delegate", "Undelegate", "Redelegate", "RegisterSlash"):
        W = "%s::execute/%s" % (K, v)
        mine = [x for x in ops(v) if x[0] == "validator"]
        for p in okpaths(K, "execute", v):
            for q in settle(p) if p.feasible() else ():
                if impossible(q):
                    continue
                saves = lambda ns: [x for x in q.effects if x.kind == "save" and x.a[0].op == "str" and x.a[0].a[0] == ns]
                at = {}
                for _, k, t, a, s in mine:
                    for x in saves("validator"):
                        if x.a[1] is mk("tuple", k, t):
                            y = x.a[2]
                            at[k, s] = (y if s < 0 else t_sub(y, a)), t, a
                moves_ = []
                for x in saves("cardinality"):
                    for r, (t, y) in q.split(x.a[1], x.a[2]):
                        if r.feasible() and not impossible(r) and t.op == "tuple":
                            moves_.append((r, t.a[1], moved(y)))
                for r, t, n in moves_:
                    for k, s in at:
                        o, t0, a = at[k, s]
                        if n == s and t is t0:
                            c.ob(r.truth(t_eq(o, I(0))) is True, "counted-when", W + " of " + show(k), "count moves by %s though %s may not be zero" % (n, show(o)[:300]), r)
                        if n == s and listed(t, t0, as_of(t)):
                            c.ob(r.truth(t_eq(o, I(0))) is True, "counted-when", W + " of " + show(k), "a move of the count by %s is noted though %s may not be zero" % (n, show(o)[:300]), r)
                        for it in {z for z in subterms(t) if later(z, "validator", k, t0)}:
                            e = mk("elem", it)
                            ek, ev = fld(payload(e, "Ok"), "0"), fld(payload(e, "Ok"), "1")
                            here = t_eq(ev, I(0)) if s > 0 else t_eq(ev, a)
                            if t is ek and (n == s or v == "RegisterSlash"):
                                c.ob(r.truth(here) is (n == s), "counted-when", W + " of " + show(k) + " later", "count moves by %s without %s" % (n, show(here)[:300]), r)
                            for g, body in gathered(t, it):
                                for u in r.assume(g, True):
                                    if u.feasible():
                                        c.ob(u.truth(here) is (n == s), "counted-when", W + " of " + show(k) + " later", "%s noted when %s" % (show(body)[:200], show(g)[:300]), u)
                for k, s in at:
                    o, t0, a = at[k, s]
                    for r in [u for y in q.assume(t_eq(o, I(0)), True) for z in y.assume(t_eq(a, I(0)), False) for u in (z.assume(t_eq(t_add(o, a), I(0)), False) if s < 0 else [z])]:
                        if r.feasible() and not impossible(r) and not hollow(r):
                            c.ob(any(n == s and t is t0 or listed(t, t0) for _, t, n in moves_), "counted-at-once", W + " of " + show(k), "no change of the count at %s" % show(t0), r)


def some(t):
    """a list with something in it"""
    return t.op == "vpush" or t.op == "array" and len(t.a) > 0 or t.op == "chain" and any(some(y) for y in t.a)


def hollow(p):
    """the path takes a list for empty that is not"""
    for k, v in lits_of(p):
        if k.op == "eq" and v is True and I(0) in k.a:
            y = k.a[1] if k.a[0] is I(0) else k.a[0]
            if y.op == "len" and all(some(z) for r, (z,) in p.split(y.a[0]) if r.feasible()):
                return True
    return False


def gathered(t, it):
    """(condition, what is noted) for the lists made while going through `it` from which t is taken"""
    for y in subterms(t):
        if y.op == "imap" and y.a[0].op == "ifilter" and it in subterms(y.a[0].a[0]) and y.a[1].op == "adt":
            if as_of(t) in (None, y.a[1].a[1]):
                yield y.a[0].a[1], y.a[1]


def as_of(t):
    """the variant whose field t is"""
    while t.__class__ is T and t.op == "fld":
        t = t.a[0]
    return t.a[1] if t.__class__ is T and t.op == "as" else None


def listed(t, t0, variant=None):
    """t is taken from a list that has t0 (as this variant)"""
    return as_of(t) is not None and any(y.op == "array" and any(w.op == "adt" and variant in (None, w.a[1]) and t0 in w.a[3:] for z in y.a for w in subterms(z)) for y in subterms(t))


def looks(c):
    """a look at any time"""
    W = K + "::query/Stake"
    q0 = F(as_(MSG, "Stake"), "0")
    n = 0
    for p, v in answers(K, "Stake"):
        n += 1
        for r, (x,) in p.split(v):
            for r, w in [(z, w) for r, w in outcomes(r, lambda o: o.var(q0, "Cardinality", "TotalStaked", "ValidatorStaked")) for z in settle(r)]:
                if w == "Cardinality":
                    continue
                m = as_(q0, w)
                c.ob(was(r, "staked" if w == "TotalStaked" else "validator", UNIT if w == "TotalStaked" else fld(m, "validator"), mk("secs", fld(m, "t")), x), "looked-up", W, "%s: %s" % (w, show(x)[:300]), r)
    c.ob(n > 0, "anchor", W, n)


def run(c):
    for v in ("Delegate", "Undelegate", "Redelegate", "RegisterSlash"):
        records(c, v)
    count(c)
    when_counted(c)
    looks(c)
