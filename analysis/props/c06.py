"""C06 closing and vetoing.  A proposal can be closed only when the specified status is Rejected; it
can be vetoed only by its configured vetoer, while open (if that is enabled) or in its unexpired veto
window; either stores the terminal state on that proposal alone and changes nothing else; a proposal
that was executed, closed or vetoed passes none of these gates again."""
from lib import *
from props.prop import *
from props import status as S


def rejected(mod, v):
    def f(q, r):
        k = r[0]
        if k == "same":
            k = q.variant_of(mod.status(mod.pr(v)))
        return k == "Rejected"
    return f


class named:
    """the specified status; an unchanged one is asked for its name"""

    def __init__(self, mod, pr, ty, *vs):
        self.mod, self.pr, self.spec, self.vs = mod, pr, mod.spec(pr, ty), vs

    def __call__(self, o):
        r = self.spec(o)
        if r[0] == "same":
            for v in self.vs:
                if o(t_isv(self.mod.status(self.pr), v)):
                    break
        return r


def sets(c, mod, ps, v, state, rule):
    W = "%s::execute/%s" % (mod.crate, v)
    pr = mod.pr(v)
    for p in ps:
        s = p.saves(mod.ns)
        c.ob(len(s) == 1 and set(p.writes()) == {mod.ns}, rule, W + " frame", sorted(p.writes()), p)
        for x in s:
            for q, t in live(p, x.a[2]):
                c.ob(x.a[1] is mod.pid(v) and t.op == "upd" and t.a[0] is pr and t.a[1] == mod.sf and is_adt(t.a[2], state), rule, W, show(t)[:300], q)


def run(c):
    for mod in ALL:
        ps = some_paths(c, mod.crate, "execute", "Close")
        decided(c, ps, named(mod, mod.pr("Close"), mod.ty("Close"), "Rejected"), rejected(mod, "Close"), "close-rejected", mod.crate + "::execute/Close")
        sets(c, mod, ps, "Close", "Closed", "close-stores")
    for mod in (SINGLE, MULTI):
        W = mod.crate + "::execute/Veto"
        ps = some_paths(c, mod.crate, "execute", "Veto")
        pr = mod.pr("Veto")
        ve = fld(pr, "veto")
        v = payload(ve, "Some")
        req(c, ps, "veto-configured", t_isv(ve, "Some", OPT), W)
        req(c, ps, "vetoer", t_eq(SENDER, fld(v, "vetoer")), W)

        def ok(q, r):
            k, e = r
            if k == "same":
                k = q.variant_of(mod.status(pr))
                return False if k != "VetoTimelock" else True
            if k == "Open":
                return q.entails(fld(v, "veto_before_passed"))
            return k == "VetoTimelock"
        decided(c, ps, named(mod, pr, None, "VetoTimelock"), ok, "veto-window", W)
        sets(c, mod, ps, "Veto", "Vetoed", "veto-stores")
    # the veto a proposal carries is the configured one, and a configured veto was validated
    for mod in (SINGLE, MULTI):
        K = mod.crate
        cfg = ld(mod.cfg)
        n = 0
        for p in okpaths(K, "execute", "Propose"):
            for x in p.saves(mod.ns)[:1]:
                n += 1
                for q, t in live(p, fld(x.a[2], "veto")):
                    c.ob(t is fld(cfg, "veto") or (q.variant_of(fld(cfg, "veto")) == "None" and t is NONE), "veto-inherited", K + "::execute/Propose", show(t)[:200], q)
        c.floor(n, 1, K + "::execute/Propose stores a veto")
        for en, v, src in (("instantiate", None, MSG), ("execute", "UpdateConfig", as_(MSG, "UpdateConfig"))):
            W = "%s::%s%s" % (K, en, "/" + v if v else "")
            ve = fld(src, "veto")
            mv = fld(src, "max_voting_period")
            for p in some_paths(c, K, en, v):
                for x in p.saves(mod.cfg):
                    for q, t in live(p, fld(x.a[2], "veto")):
                        c.ob(t is ve or (t is NONE and q.variant_of(ve) == "None"), "veto-config", W, show(t)[:200], q)

                def valid_veto(q):
                    """no veto, or a valid vetoer and a timelock in the unit of the voting period"""
                    if q.variant_of(ve) == "None":
                        return True
                    vc = payload(ve, "Some")
                    a, b = q.variant_of(fld(vc, "timelock_duration")), q.variant_of(mv)
                    return q.variant_of(ve) == "Some" and a is not None and a == b and q.truth(mk("validaddr", fld(vc, "vetoer"))) is True
                req(c, [p], "veto-valid", valid_veto, W)
