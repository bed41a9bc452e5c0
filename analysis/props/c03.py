"""C03 what a proposal may execute.  In each proposal module: execution succeeds only in a state where
the proposal passed (or is in its veto window and its vetoer executes early), by a caller entitled to;
it stores the executed state, so it cannot happen again; the messages handed to the DAO are exactly
the stored ones (of the winning choice), once; nothing else hands messages to the DAO; a failed
execution is rolled back to a terminal state only for the failing proposal."""
from lib import *
from props.prop import *
from props import status as S


def allowed_exec(mod):
    def f(q, r):
        k, e = r
        if k == "same":
            k = q.variant_of(mod.status(mod.pr("Execute")))
        if k == "Passed":
            return True
        if k == "VetoTimelock":
            ve = F(mod.pr("Execute"), "veto@Some.0")
            return q.entails(t_eq(SENDER, fld(ve, "vetoer"))) and q.entails(fld(ve, "early_execute"))
        return False
    return f


class passed_first:
    """asks whether a terminal state is the passed one"""

    def __init__(self, mod, pr, ty=None):
        self.mod, self.pr, self.spec = mod, pr, mod.spec(pr, ty)

    def __call__(self, o):
        st = self.mod.status(self.pr)
        r = self.spec(o)
        if r[0] == "same":
            o(t_isv(st, "Passed"))
        return r


def winner_msgs(mod, q, pr, ty):
    """the messages that the passed proposal is to run"""
    if mod is SINGLE:
        return lambda q, t: t is fld(pr, "msgs")
    if mod is MULTI:
        w = F(pr, "votes.vote_weights")
        top = mk("ifilter", mk("enumerate", w), t_eq(mk("elem", w), payload(mk("imax", w), "Some")))
        i = fld(payload(mk("first", top), "Some"), "0")
        want = fld(mk("idx", fld(pr, "choices"), i), "msgs")
        return lambda q, t: t is want and q.entails(t_not(t_lt(I(1), mk("len", top))))

    def f(q, t):
        # the winner of the status the specification decides on
        if not (t.op == "fld" and t.a[1] == "msgs" and t.a[0].op == "idx" and t.a[0].a[0] is fld(pr, "choices")):
            return False
        ix = t.a[0].a[1]
        for q2, r in outcomes(q, passed_first(mod, pr, ty)):
            want = F(as_(mod.status(pr), "Passed"), "winner") if r[0] == "same" else r[1]
            for q3, x in live(q2, ix):
                while x.op == "cast":
                    x = x.a[1]
                if x is not want:
                    return False
        return True
    return f


def run(c):
    for mod in ALL:
        K = mod.crate
        pr, ty = mod.pr("Execute"), mod.ty("Execute")
        ps = some_paths(c, K, "execute", "Execute")
        W = K + "::execute/Execute"
        decided(c, ps, passed_first(mod, pr, ty), allowed_exec(mod), "only-passed", W)
        # who
        if mod is COND:
            req(c, ps, "member", nonzero(power(mod.dao, SENDER, some(fld(ty, "start_height")))), W)
        else:
            ome = fld(ld(mod.cfg), "only_members_execute")
            ve = F(pr, "veto")

            def entitled(p):
                """member at the proposal's height, or not restricted, or the vetoer executing early"""
                return (p.truth(ome) is False or nonzero(power(mod.dao, SENDER, some(fld(pr, "start_height"))))(p)
                        or (p.truth(t_eq(SENDER, F(ve, "@Some.0.vetoer"))) is True and p.truth(F(ve, "@Some.0.early_execute")) is True))
            req(c, ps, "member", entitled, W)
        # what is stored
        for p in ps:
            s = p.saves(mod.ns)
            c.ob(len(s) == 1, "marks-executed", W, len(s), p)
            for x in s:
                for q, v in live(p, x.a[2]):
                    c.ob(x.a[1] is mod.pid("Execute") and v.op == "upd" and v.a[0] is pr and v.a[1] == mod.sf and is_adt(v.a[2], "Executed"), "marks-executed", W, show(v)[:400], q)
        # what is sent to the DAO
        hits = 0
        for p in ps:
            for q, gs in p.worlds():
                if not q.feasible():
                    continue
                ds = [(g, to_dao(mod, g)) for g in gs]
                ds = [(g, w) for g, w in ds if w is not None]
                c.ob(len(ds) <= 1, "sent-once", W, [repr(g)[:300] for g, _ in ds], q)
                for g, (d, b) in ds:
                    hits += 1
                    f = bfields(b, "ExecuteProposalHook")
                    ok = f is not None and set(f) == {"msgs"} and g.each is None
                    if ok:
                        ok = winner_msgs(mod, q, pr, ty)(q, f["msgs"])
                    c.ob(ok and d["funds"].op in ("array", "default") and not d["funds"].a[:0], "stored-messages", W, repr(g)[:600], q)
                    cl = fld(pr, "close_on_execution_failure") if mod is COND else fld(ld(mod.cfg), "close_proposal_on_execution_failure")
                    if g.mode == "error":
                        i = reply_tag(g.id, 0)
                        c.ob(q.entails(cl) and i is not None and (i is mod.pid("Execute") or i is fld(pr, "id")), "failure-reply", W, repr(g)[-200:], q)
                    else:
                        c.ob(g.mode == "never" and q.entails(t_not(cl)), "failure-reply", W, repr(g)[-200:], q)
                if not ds:
                    # nothing to run: the stored list is known to be empty
                    def empty(p2):
                        return any(k.__class__ is T and v and k.op == "eq" and I(0) in k.a and any(y.op == "len" and y.a[0].op == "fld" and y.a[0].a[1] == "msgs" and contains(y, pr) for y in k.a)
                                   for k, v in p2.st.facts.items())
                    c.ob(q.entails(empty), "messages-sent", W, [repr(g)[:200] for g in gs], q)
        c.ob(hits > 0, "messages-sent", W, hits)
        # nobody else hands messages to the DAO
        for en, vs in (("execute", variants(K, "execute")), ("instantiate", [None]), ("reply", [None])):
            for v in vs:
                if (en, v) == ("execute", "Execute"):
                    continue
                for p in okpaths(K, en, v):
                    for q, g in p.msgs():
                        if to_dao(mod, g) is not None:
                            c.ob(False, "only-execute", "%s::%s%s" % (K, en, "/" + v if v else ""), repr(g)[:400], q)
                c.ob(True, "only-execute", "%s::%s%s" % (K, en, "/" + v if v else ""))
        # the failure reply
        ps = some_paths(c, K, "reply")
        rid = F(sym("reply"), "id")
        got = 0
        for p in ps:
            for x in p.saves(mod.ns):
                got += 1
                i = x.a[1]
                while i.op == "cast":
                    i = i.a[1]
                idok = (i.op == "shr" and i.a[0] is rid and i.a[1] is I(3)) or (i.op == "div" and i.a[0] is rid and i.a[1] is I(8))
                c.ob(idok, "failure-id", K + "::reply", show(x.a[1]), p)
                c.ob(p.truth(t_eq(I(0), mk("bitand", rid, I(7)))) is True or p.truth(t_eq(I(0), mk("rem", rid, I(8)))) is True, "failure-tag", K + "::reply", p.describe(), p)
                for q, v in live(p, x.a[2]):
                    c.ob(v.op == "upd" and v.a[1] == mod.sf and is_adt(v.a[2], "ExecutionFailed") and is_ld(v.a[0], mod.ns, x.a[1]), "failure-state", K + "::reply", show(v)[:300], q)
                    if mod is not COND or True:
                        pass
        c.ob(got > 0, "anchor", K + "::reply closes a failed proposal", got)
        # only execution stores the executed state
        for v in variants(K, "execute"):
            if v == "Execute":
                continue
            for p in okpaths(K, "execute", v):
                for x in p.saves(mod.ns):
                    st = mod.status(x.a[2])
                    bad = [y for y in ([st] if st.op != "phi" else [b for _, b in phi_cases(st)]) if is_adt(y, "Executed") or is_adt(y, "ExecutionFailed")]
                    c.ob(not bad, "only-execute-marks", "%s::execute/%s" % (K, v), show(st)[:300], p)
