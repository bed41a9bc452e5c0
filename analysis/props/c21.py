"""C21 token swap escrow.  Only the two counterparties fund or withdraw; funding takes exactly the
promised tokens, once; the swap settles in the very call in which the second side funds, each side
getting exactly what the other promised; until then a side may take back just its own provision."""
from lib import *

K = "cw_token_swap"
ONE, TWO = "counterparty_one", "counterparty_two"


def sides(o, who):
    """(funding side's namespace, other side's) or None"""
    if o(t_eq(who, fld(ld(ONE), "address"))):
        return ONE, TWO
    if o(t_eq(who, fld(ld(TWO), "address"))):
        return TWO, ONE
    return None


def send(promise, to):
    """exactly the promised tokens to `to`"""
    nat = m_send(to, F(as_(promise, "Native"), "denom"), F(as_(promise, "Native"), "amount"))
    c20 = m_cw20(F(as_(promise, "Cw20"), "contract_addr"), "Transfer", recipient=to, amount=F(as_(promise, "Cw20"), "amount"))

    def f(p, g):
        k = p.variant_of(promise)
        return g.mode == "never" and (nat(p, g) if k == "Native" else c20(p, g) if k == "Cw20" else False)
    return f


def marked(t, ns, val):
    """what is recorded of the side, with whether it provided as said"""
    if t.op == "adt":
        fs = adt_fields(t)
        return set(fs) == {"address", "promise", "provided"} and fs["provided"] is val and all(same(fs[k], fld(ld(ns), k)) for k in ("address", "promise"))
    return t is setf(ld(ns), provided=val)


def provided(p, ns, val, rule, c, W):
    s = p.saves(ns)
    c.ob(set(p.writes()) == {ns} and len(s) == 1 and len(p.writes()[ns]) == 1 and all(marked(t, ns, val) for _, t in live(p, s[0].a[2])), rule, W, [repr(x)[:300] for x in p.effects], p)


def each_side(c, ps, who, rule, W, judge):
    seen = set()
    for p in ps:
        if not p.feasible():
            continue
        for q, r in outcomes(p, lambda o: sides(o, who)):
            if c.ob(r is not None, rule + ":counterparty", W, "", q):
                for q2 in settle(q):
                    if q2.feasible() and not impossible(q2):
                        seen.add(r[0])
                    judge(q2, *r)
    c.ob(seen == {ONE, TWO}, rule + ":either", W, "succeeds only for " + ", ".join(sorted(seen)))


def run(c):
    R = fld(as_(MSG, "Receive"), "0")
    for v, who, kind in (("Fund", SENDER, "Native"), ("Receive", valid(fld(R, "sender")), "Cw20")):
        W = "%s::execute/%s" % (K, v)
        ps = some_paths(c, K, "execute", v)

        def judge(q, me, other):
            pr = fld(ld(me), "promise")
            req(c, [q], "fund:kind", lambda r: r.variant_of(pr) == kind, W)
            d = as_(pr, kind)
            if kind == "Native":
                def paid(r):
                    return any(r.truth(t_eq(fld(d, "amount"), payload(x, "Ok"))) is True and r.variant_of(x) == "Ok" for x in must_pay(fld(d, "denom")))
                req(c, [q], "fund:exact", paid, W)
            else:
                req(c, [q], "fund:token", t_eq(SENDER, fld(d, "contract_addr")), W)
                req(c, [q], "fund:exact", t_eq(fld(d, "amount"), fld(R, "amount")), W)
            req(c, [q], "fund:once", t_not(fld(ld(me), "provided")), W)
            provided(q, me, TRUE, "fund:recorded", c, W)

            def due(o):
                if not o(fld(ld(other), "provided")):
                    return []
                return [send(pr, fld(ld(other), "address")), send(fld(ld(other), "promise"), fld(ld(me), "address"))]
            agree_msgs(c, [q], lambda o: forked(o, due(o), (pr, fld(ld(other), "promise"))), "fund:settled", W)
        each_side(c, ps, who, "fund", W, judge)
    W = K + "::execute/Withdraw"
    ps = some_paths(c, K, "execute", "Withdraw")

    def judge(q, me, other):
        req(c, [q], "withdraw:provided", fld(ld(me), "provided"), W)
        req(c, [q], "withdraw:open", t_not(fld(ld(other), "provided")), W)
        provided(q, me, FALSE, "withdraw:recorded", c, W)
        pr = fld(ld(me), "promise")
        agree_msgs(c, [q], lambda o: forked(o, [send(pr, fld(ld(me), "address"))], (pr,)), "withdraw:returned", W)
    each_side(c, ps, SENDER, "withdraw", W, judge)
    c.ob(sorted(variants(K, "execute")) == ["Fund", "Receive", "Withdraw"], "operations", K + "::execute", variants(K, "execute"))
    initial(c)
    for p in okpaths(K, "query", "Status"):
        v = p.ret.a[0] if p.ret.op == "json" else p.ret
        for n in (ONE, TWO):
            c.ob(fld(v, n) is ld(n), "query", K + "::query/Status", show(v)[:300], p)
    for p in okpaths(K, "migrate"):
        c.ob(not ({ONE, TWO} & set(p.writes())) and not p.msgs(), "migrate:frame", K + "::migrate", sorted(p.writes()), p)


def forked(o, r, promises):
    """which kind of token each promise is must be decided"""
    if r:
        for t in promises:
            o.var(t, "Native", "Cw20")
    return r


def initial(c):
    W = K + "::instantiate"
    ps = some_paths(c, K, "instantiate")
    adr = {n: valid(F(MSG, n + ".address")) for n in (ONE, TWO)}
    req(c, ps, "initial:distinct", t_not(t_eq(adr[ONE], adr[TWO])), W)
    for p in ps:
        c.ob(not p.msgs() and {n for n in p.writes() if not n.startswith("ext:cw2::")} == {ONE, TWO}, "initial:frame", W, sorted(p.writes()), p)
        for n in (ONE, TWO):
            s = p.saves(n)
            if not c.ob(len(s) == 1, "initial:recorded", W + " " + n, [repr(x)[:200] for x in s], p):
                continue
            for q, (t,) in p.split(s[0].a[2]):
                if not q.feasible():
                    continue
                src = F(MSG, n + ".promise")
                pr = fld(t, "promise")
                k = kind_of(q, pr)
                ok = fld(t, "address") is adr[n] and fld(t, "provided") is FALSE and q.variant_of(src) == k
                if ok:
                    a, b = as_(pr, k), as_(src, k)
                    ok = fld(a, "amount") is fld(b, "amount") and (fld(a, "denom") is fld(b, "denom") if k == "Native" else fld(a, "contract_addr") is valid(fld(b, "contract_addr")))
                    c.ob(q.entails(t_not(t_eq(fld(b, "amount"), I(0)))), "initial:nonzero", W + " " + n, show(t)[:300], q)
                    if k == "Cw20":
                        c.ob(any(x.op == "ok" and v and x.a[0].op == "query" and x.a[0].a[0] is valid(fld(b, "contract_addr")) for x, v in lits_of(q)), "initial:token", W + " " + n, show(t)[:300], q)
                c.ob(ok, "initial:recorded", W + " " + n, show(t)[:400], q)
