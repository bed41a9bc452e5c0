"""The three proposal modules, described once: storage, status rule, shape of their messages."""
from lib import *
from props import status as S


class Module:
    def __init__(self, crate, ns, cfg, pid, status_field, spec, eq, dao, tally=None):
        self.crate, self.ns, self.cfg, self.pidf, self.sf = crate, ns, cfg, pid, status_field
        self._spec, self._eq, self.dao, self.tally = spec, eq, dao, tally

    def pid(self, variant):
        return F(as_(MSG, variant), self.pidf)

    def pr(self, variant):
        return ld(self.ns, self.pid(variant))

    def ty(self, variant):
        return ld(self.tally, self.pid(variant)) if self.tally else None

    def spec(self, pr, ty=None):
        return self._spec(pr, ty) if self.tally else self._spec(pr)

    def eq(self, pr):
        return self._eq(pr)

    def status(self, pr):
        return fld(pr, self.sf)

    def power_of(self, who, height):
        return power(self.dao, who, height)

    def now(self, variant):
        return self.spec(self.pr(variant), self.ty(variant))


def q_(variant, **kw):
    names = tuple(sorted(kw))
    return lambda t: t.op == "adt" and t.a[1] == variant and adt_fields(t) == kw


def power(dao, who, height):
    """Predicate: the voting power the DAO reports for `who` at `height` (an Option term)."""
    def f(t):
        if t.op == "fld" and t.a[1] == "power":
            t = t.a[0]
        else:
            return False
        return t.op == "query" and t.a[0] is dao and q_("VotingPowerAtHeight", address=who, height=height)(t.a[1])
    return f


def total_power(dao, height):
    def f(t):
        return (t.op == "fld" and t.a[1] == "power" and t.a[0].op == "query" and t.a[0].a[0] is dao
                and q_("TotalPowerAtHeight", height=height)(t.a[0].a[1]))
    return f


def nonzero(pred):
    """the path establishes that a value satisfying pred is not zero"""
    def f(p):
        for k, v in p.st.facts.items():
            if k.__class__ is not T:
                continue
            if k.op == "eq" and not v and I(0) in k.a and any(pred(x) for x in k.a):
                return True
            if k.op == "lt" and v and k.a[0] is I(0) and pred(k.a[1]):
                return True
        return False
    return f


SINGLE = Module("dao_proposal_single", "proposals_v2", "config_v2", "proposal_id", "status", S.single_status, S.is_status, F(ld("config_v2"), "dao"))
MULTI = Module("dao_proposal_multiple", "proposals", "config", "proposal_id", "status", S.multi_status, S.is_status, F(ld("config"), "dao"))
COND = Module("dao_proposal_condorcet", "proposals", "config", "proposal_id", "last_status", S.condorcet_status, S.is_cstatus, ld("dao"), "tallys")
ALL = (SINGLE, MULTI, COND)


def decided(c, ps, spec, allowed, rule, where):
    """Whenever the call succeeds, the specified status is an allowed one."""
    n, ok = 0, True
    for p in ps:
        if not p.feasible():
            continue
        for q, r in outcomes(p, spec):
            n += 1
            if not allowed(q, r):
                c.ob(False, rule, where, "succeeds although the status is %s" % (r,), q)
                ok = False
                break
    if ok:
        c.ob(n > 0, rule, where, "%d cases" % n)
    c.cases = getattr(c, "cases", 0) + n


def to_dao(mod, g):
    """(fields, body) of a wasm execute to the DAO"""
    w = g.wasm("Execute")
    if w is not None and w[0]["contract_addr"] is mod.dao:
        return w
    return None


def reply_tag(t, tag):
    """A reply id made of an id shifted by the tag's width: (id term) or None."""
    if tag == 0:
        if t.op == "bitor" and I(0) in t.a:
            t = [x for x in t.a if x is not I(0)][0]
    else:
        if t.op == "bitor" and I(tag) in t.a:
            t = [x for x in t.a if x is not I(tag)][0]
        elif t.op == "add" and I(tag) in t.a:
            t = [x for x in t.a if x is not I(tag)][0]
        else:
            return None
    if t.op == "shl" and t.a[1] is I(3):
        t = t.a[0]
    elif t.op == "mul" and I(8) in t.a:
        t = [x for x in t.a if x is not I(8)][0]
    else:
        return None
    while t.op == "cast":
        t = t.a[1]
    return t


EXECUTE_PARAMS = ()
