"""C18 fund distributor.  Everything paid in while funding is open is recorded to its token; claims only
after; each claim pays the claimant its share, by power at the distribution height, of what was funded,
less what it already took."""
from lib import *

K = "cw_fund_distributor"
VC, DH, TP, FP = "voting_contract", "distribution_height", "total_power", "funding_period"
CB, NB, CC, NC = "cw20_balances", "native_balances", "cw20_claims", "native_claims"
OPEN = t_not(mk("expired", ld(FP), BLOCK))


def run(c):
    initial(c)
    fund(c)
    for v, parts in (("ClaimCW20", [("cw20", F(as_(MSG, "ClaimCW20"), "tokens"))]), ("ClaimNatives", [("native", F(as_(MSG, "ClaimNatives"), "denoms"))]), ("ClaimAll", [("cw20", None), ("native", None)])):
        claim(c, v, parts)
    redistribute(c)
    queries(c)
    c.ob(sorted(variants(K, "execute")) == ["ClaimAll", "ClaimCW20", "ClaimNatives", "FundNative", "Receive"], "operations", K + "::execute", variants(K, "execute"))


def tp_query(vc, h):
    return lambda p, v: v.op == "fld" and v.a[1] == "power" and v.a[0].op == "query" and v.a[0].a[0] is vc and has_height(v.a[0].a[1], "TotalPowerAtHeight", h)


def has_height(q, variant, h, **more):
    if q.op != "adt" or q.a[1] != variant:
        return False
    d = adt_fields(q)
    x = d.get("height")
    return x is not None and x.op == "adt" and x.a[1] == "Some" and payload(x, "Some") is h and all(d.get(k) is v for k, v in more.items())


def positive_total(c, ps, W):
    for p in ps:
        for x in p.saves(TP):
            req(c, [p], "total:positive", t_not(t_eq(x.a[2], I(0))), W)


def initial(c):
    W = K + "::instantiate"
    h, vc = F(MSG, "distribution_height"), valid(F(MSG, "voting_contract"))
    ps = some_paths(c, K, "instantiate")
    writes_ok(c, ps, "initial", {DH: (UNIT, h), FP: (UNIT, lambda p, v: v.op == "call" and v.a[0].endswith("Duration::after") and v.a[1:] == (F(MSG, "funding_period"), BLOCK)), VC: (UNIT, vc), TP: (UNIT, tp_query(vc, h))}, [DH, FP, VC, TP])
    positive_total(c, ps, W)
    msgs_ok(c, ps, "initial", [])


def recorded(p, ns, k, amt):
    """the balance is raised by the amount, and nothing else is written"""
    w = p.writes()
    if not w:
        return p.truth(t_eq(amt, I(0))) is True
    s = p.saves(ns)
    return set(w) == {ns} and len(s) == 1 and len(w[ns]) == 1 and s[0].a[1] is k and all(plus(q, t, ns, k, amt) for q, (t,) in p.split(s[0].a[2]))


def fund(c):
    W = K + "::execute/Receive"
    ps = some_paths(c, K, "execute", "Receive")
    req(c, ps, "fund:open", OPEN, W)
    for p in ps:
        if p.feasible():
            c.ob(recorded(p, CB, SENDER, F(as_(MSG, "Receive"), "0.amount")), "fund:recorded", W, [repr(x)[:300] for x in p.effects], p)
    msgs_ok(c, ps, "fund", [])
    W = K + "::execute/FundNative"
    ps = some_paths(c, K, "execute", "FundNative")
    req(c, ps, "fund:open", OPEN, W)
    msgs_ok(c, ps, "fund", [])
    writes_ok(c, ps, "fund", {NB: lambda p, k, v: v is not REMOVED})
    e = mk("elem", FUNDS)
    zero = lambda p: p.truth(t_eq(fld(e, "amount"), I(0))) is True
    each_iter(c, ps, "fund:every-coin", W, is_write(NB), 1, allow=zero)
    for q, l in loop_iters(ps, is_write(NB)):
        s = [x for x in l if is_write(NB)(x)]
        ok = len(s) <= 1 and all(x.kind == "save" and x.a[1] is fld(e, "denom") and all(plus(r, t, NB, x.a[1], fld(e, "amount")) for r, (t,) in q.split(x.a[2])) for x in s)
        c.ob(ok, "fund:recorded", W, [repr(x)[:300] for x in l], q)




def is_share(t, bal, who):
    """t is the share of `bal`: bal scaled by power / total power, rounded down"""
    rs = {x for x in subterms(t) if x.op == "call" and x.a[0].endswith("Decimal::from_ratio")}
    for r in rs:
        if len(r.a) == 3 and r.a[2] is ld(TP) and is_power(r.a[1], who):
            num = den = None
            for x in subterms(t):
                if x.op == "call" and x.a[1:] == (r,):
                    if x.a[0].endswith("numerator"):
                        num = x
                    if x.a[0].endswith("denominator"):
                        den = x
            if num is not None and den is not None and same(t, E.t_div(E.t_mul(bal, num), den)):
                return True
            if bal is I(0) and den is not None and same(t, E.t_div(I(0), den)):
                return True
    return bal is I(0) and t is I(0)


def is_power(t, who):
    return t.op == "fld" and t.a[1] == "power" and t.a[0].op == "query" and t.a[0].a[0] is ld(VC) and has_height(t.a[0].a[1], "VotingPowerAtHeight", ld(DH), address=who)


def less_prev(q, t, bal, who, ns, k):
    """t is the share of bal less what was claimed (nothing, if nothing is recorded)"""
    for v in versions(t, ns, k):
        old = mk("st", ns, k, v)
        if any(x is old for x in subterms(t)):
            return is_share(t_add(t, old), bal, who)
    vs = {a.a[2] for a, b in lits_of(q) if a.op == "has" and a.a[0] == ns and a.a[1] is k and b is False}
    return bool(vs) and is_share(t, bal, who)


def claim(c, v, parts):
    W = "%s::execute/%s" % (K, v)
    ps = some_paths(c, K, "execute", v)
    req(c, ps, "claim:closed", t_not(OPEN), W)
    writes_ok(c, ps, "claim", {{"cw20": CC, "native": NC}[k]: lambda p, k, v: v is not REMOVED for k, _ in parts})
    lists = {}
    for kind, lst in parts:
        ns, bs = (CC, CB) if kind == "cw20" else (NC, NB)
        its = loop_iters(ps, is_write(ns))
        c.ob(len(its) > 0, "anchor", W + " loop over " + kind, len(its))
        # which token an iteration is about
        toks = {x.a[1].a[1] for _, l in its for x in l if is_write(ns)(x) and x.a[1].op == "tuple" and len(x.a[1].a) == 2 and x.a[1].a[0] is SENDER}
        if not c.ob(len(toks) == 1, "claim:own", W + " " + kind, [show(t) for t in toks]):
            continue
        tok = toks.pop()
        k = mk("tuple", SENDER, tok)
        base = [x for x in subterms(tok) if x.op == "elem"]
        src = base[0].a[0] if base else UNIT
        if lst is not None:
            ok = src is lst and tok is mk("elem", lst)
        else:
            ok = src.op == "iter" and src.a[0] in ("keys", "range") and src.a[1] == bs and src.a[2] == 0 and all(x.op == "adt" and x.a[1] == "None" for x in src.a[3:5])
        c.ob(ok, "claim:every-token", W + " " + kind, show(src)[:300])
        lists[src] = kind
        bal = ld(bs, tok)
        spent = lambda q, k=k, ns=ns, bal=bal: q.entails(lambda r: any(b is True and a.op == "eq" and nothing_due(r, a, bal, ns, k) for a, b in lits_of(r)))
        each_iter(c, ps, "claim:every-token", W + " " + kind, is_write(ns), 1, allow=spent)
        for q, l in its:
            s = [x for x in l if is_write(ns)(x)]
            ok = len(s) <= 1 and all(x.kind == "save" and x.a[1] is k and all(is_share(t, bal, SENDER) for r, (t,) in q.split(x.a[2]) if r.feasible()) for x in s)
            c.ob(ok, "claim:recorded", W + " " + kind, [repr(x)[:400] for x in l], q)
        # messages: for every element exactly the amount by which the record rose
        n = 0
        for p in ps:
            if not p.feasible():
                continue
            for w, gs in p.worlds():
                if not w.feasible():
                    continue
                mine = [g for g in gs if g.each is src]
                other = [g for g in gs if g.each is None]
                c.ob(not other, "claim:message", W, [repr(g)[:300] for g in other], w)
                ats = list(dict.fromkeys(a for g in mine for x in g.conds for a in atoms(x)))
                for q in decided_atoms(w, ats):
                    here = [g for g in mine if all(q.truth(x) is True for x in g.conds)]
                    n += 1
                    if not here:
                        c.ob(owes_nothing(q, bal, ns, k) or p.truth(t_eq(mk("len", src), I(0))) is True, "claim:paid", W + " " + kind, "no payment", q)
                        continue
                    good = len(here) == 1
                    for r, (m,) in q.split(here[0].msg) if good else []:
                        if r.feasible():
                            g = G(m, here[0].mode, here[0].id, None, False)
                            good = good and g.mode == "never" and paid(r, g, kind, tok, lambda t: less_prev(r, t, bal, SENDER, ns, k))
                    c.ob(good, "claim:paid", W + " " + kind, [repr(g)[:400] for g in here], q)
        c.ob(n > 0, "claim:paid", W + " " + kind + " (cases)", n)
    for p in ps:
        if p.feasible():
            for w, gs in p.worlds():
                c.ob(all(g.each in lists for g in gs), "claim:message", W, [repr(g)[:300] for g in gs if g.each not in lists], w)


def nothing_due(q, a, bal, ns, k):
    """an equality that says the share is all claimed"""
    x, y = a.a
    for s, o in ((x, y), (y, x)):
        if is_share(s, bal, SENDER) and (o.op == "st" and o.a[0] == ns and o.a[1] is k or o is I(0)):
            return True
    return False


def owes_nothing(q, bal, ns, k):
    """all is claimed, or the claims exceed the share (in which case the call fails)"""
    for a, b in lits_of(q):
        if b is True and a.op == "eq" and nothing_due(q, a, bal, ns, k):
            return True
        if b is True and a.op == "lt" and is_share(a.a[0], bal, SENDER) and a.a[1].op == "st" and a.a[1].a[0] == ns and a.a[1].a[1] is k:
            return True
    return False


def paid(p, g, kind, tok, amount):
    if kind == "native":
        b = g.bank()
        return b is not None and b[0] is SENDER and b[1].op == "array" and len(b[1].a) == 1 and adt_fields(b[1].a[0]).get("denom") is tok and amount(adt_fields(b[1].a[0])["amount"])
    w = g.wasm("Execute")
    if w is None:
        return False
    d, b = w
    x = bfields(b, "Transfer")
    return d["contract_addr"] is tok and empty_list(d["funds"]) and x is not None and x["recipient"] is SENDER and amount(x["amount"])


def redistribute(c):
    W = K + "::migrate"
    h = F(as_(MSG, "RedistributeUnclaimedFunds"), "distribution_height")
    c.ob(variants(K, "migrate") == ["RedistributeUnclaimedFunds"], "operations", W, variants(K, "migrate"))
    ps = some_paths(c, K, "migrate", "RedistributeUnclaimedFunds")
    lessened = lambda p, k, v: v is not REMOVED
    every = lambda p, k, v: v is REMOVED and k.op == "all"
    writes_ok(c, ps, "redistribute", {DH: (UNIT, h), TP: (UNIT, tp_query(ld(VC), h)), CB: lessened, NB: lessened, CC: every, NC: every}, [DH, TP, CC, NC])
    positive_total(c, ps, W)
    msgs_ok(c, ps, "redistribute", [])
    for ns, cs in ((CB, CC), (NB, NC)):
        each_iter(c, ps, "redistribute:every-claim", W + " " + ns, is_write(ns), 1)
        its = loop_iters(ps, is_write(ns))
        c.ob(len(its) > 0, "anchor", W + " loop over " + cs, len(its))
        for q, l in its:
            s = [x for x in l if is_write(ns)(x)]
            ok = len(s) == 1 and s[0].kind == "save"
            if ok:
                t, k = s[0].a[2], s[0].a[1]
                el = [x for x in subterms(k) if x.op == "elem"]
                it = el[0].a[0] if el else UNIT
                ok = it.op == "iter" and it.a[0] == "range" and it.a[1] == cs and it.a[2] == 0 and all(x.op == "adt" and x.a[1] == "None" for x in it.a[3:5])
                if ok:
                    e = payload(el[0], "Ok")
                    ok = k is fld(fld(e, "0"), "1") and all(minus(r, u, ns, k, fld(e, "1")) for r, (u,) in q.split(t))
            c.ob(ok, "redistribute:balance", W + " " + ns, [repr(x)[:300] for x in l], q)
        # a call that succeeds has been through the loop unless there was no claim
        for p in ps:
            if p.feasible():
                it = [t for t, v in lits_of(p) if t.op == "eq" and any(x.op == "iter" and x.a[1] == cs for x in subterms(t))]
                c.ob(bool(p.saves(ns)) or any(p.truth(t) is True and t.a[0] is I(0) for t in it), "redistribute:every-claim", W + " " + ns, [show(t)[:200] for t in it], p)


def queries(c):
    for v, ns, cs, tok in (("NativeEntitlement", NB, NC, "denom"), ("CW20Entitlement", CB, CC, "token")):
        W = "%s::query/%s" % (K, v)
        who, t = F(as_(MSG, v), "sender"), F(as_(MSG, v), tok)
        k = mk("tuple", valid(who), t)
        for q, a in answers(K, v):
            amt = fld(a, "amount")
            has_bal = q.truth(has(ns, t))
            bal = ld(ns, t) if has_bal is True else I(0) if has_bal is False else None
            prev = ld(cs, k) if q.truth(has(cs, k)) is True else I(0)
            ok = bal is not None and any(is_share(t_add(amt, prev), bal, w) for w in (who, valid(who))) and fld(a, "denom" if ns == NB else "token_contract") is t
            c.ob(ok, "query", W, show(a)[:500], q)
    answer_is(c, "query", K, "TotalPower", [lambda p, v: fld(v, "total_power") is ld(TP) or fld(v, "total_power") is I(0) and p.truth(has(TP)) is False])
    answer_is(c, "query", K, "VotingContract", [lambda p, v: fld(v, "contract") is ld(VC) and fld(v, "distribution_height") is ld(DH)])
