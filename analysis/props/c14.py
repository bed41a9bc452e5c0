"""C14 voting power is historical.  Every module answers a power query for the height asked (the current
block when none is given) from what was recorded at that height, zero when nothing was; the DAO relays
its voting module's answer unchanged; recordings are only ever filed under the current block."""
from props.stk import *

OWN = (  # crate, per-account query, its snapshot, value field, total query, its snapshot, value field
    ("cw20_stake", "StakedBalanceAtHeight", "staked_balances", "balance", "TotalStakedAtHeight", "total_staked", "total"),
    ("dao_voting_token_staked", "VotingPowerAtHeight", "staked_balances", "power", "TotalPowerAtHeight", "total_staked", "power"),
    ("dao_voting_cw721_staked", "VotingPowerAtHeight", "nb", "power", "TotalPowerAtHeight", "tsn", "power"),
    ("dao_voting_onft_staked", "VotingPowerAtHeight", "nb", "power", "TotalPowerAtHeight", "tsn", "power"),
)


def adr(v):
    a = F(as_(MSG, v), "address")
    return a, valid(a)


def when(h):
    return lambda o: payload(h, "Some") if o(t_isv(h, "Some", OPT)) else HEIGHT


def run(c):
    for K, v, ns, fn, tv, tns, tf in OWN:
        for var, n, field, k in ((v, ns, fn, adr(v)[1]), (tv, tns, tf, UNIT)):
            W = "%s::query/%s" % (K, var)
            h = F(as_(MSG, var), "height")
            got = answers(K, var)
            c.ob(len(got) > 0, "anchor", W, len(got))
            for p, x in got:
                agree(c, p, fld(x, field), lambda o: at_height(o, n, k, h)[0], lambda q, a, b: same(a, b), "power", W)
                agree(c, p, fld(x, "height"), when(h), lambda q, a, b: a is b, "height", W)
        written_now(c, K, (ns, tns))
    relays(c)
    core(c)
    roles(c)


def written_now(c, K, nss):
    """snapshots are filed under the current block, by whichever call"""
    n = 0
    for en in ("instantiate", "execute", "reply", "migrate", "sudo"):
        if not has_entry(K, en):
            continue
        for v in ((variants(K, en) if en in ("execute", "sudo") else None) or [None]):
            for p in okpaths(K, en, v):
                for x in p.effects:
                    if x.kind == "height" and ns_of(x) in nss:
                        n += 1
                        c.ob(x.a[1] is HEIGHT, "recorded-now", "%s::%s%s %s" % (K, en, "/" + v if v else "", ns_of(x)), show(x.a[1])[:200], p)
    c.floor(n, 2, "%s records its snapshots" % K)


def has_entry(K, en):
    try:
        prog(K).find("contract::" + en)
        return True
    except Exception:
        return False


def ext_query(body):
    """the query is (an extension wrapping) the given body"""
    def f(t, variant):
        while t.op == "adt" and t.a[1] == "Extension" and len(t.a) == 4:
            t = t.a[3]
        return t.op == "adt" and t.a[1] == variant
    return f


def asked(t, contract, variant, **fields):
    """t is the answer to this query (possibly wrapped as an extension)"""
    if t.op != "query" or t.a[0] is not contract:
        return False
    b = t.a[1]
    while b.op == "adt" and b.a[1] == "Extension" and len(b.a) == 4:
        b = b.a[3]
    x = bfields(b, variant) if b.op == "adt" else None
    if x is None and b.op == "adt" and b.a[1] == variant and not fields:
        return True
    return x is not None and set(x) == set(fields) and all(x[n] in (w if isinstance(w, tuple) else (w,)) for n, w in fields.items())


def relays(c):
    K = "dao_voting_cw20_staked"
    S = ld("staking_contract")
    for var, field, qv, f in (("VotingPowerAtHeight", "balance", "StakedBalanceAtHeight", "address"), ("TotalPowerAtHeight", "total", "TotalStakedAtHeight", None)):
        W = "%s::query/%s" % (K, var)
        kw = {"height": F(as_(MSG, var), "height")}
        if f:
            kw[f] = adr(var)
        got = answers(K, var)
        c.ob(len(got) > 0, "anchor", W, len(got))
        for p, v in got:
            for n, src in (("power", field), ("height", "height")):
                x = fld(v, n)
                c.ob(x.op == "fld" and x.a[1] == src and asked(x.a[0], S, qv, **kw), "relay", W + " " + n, show(x)[:400], p)
    for K, G, opt in (("dao_voting_cw4", ld("group_contract"), True), ("dao_voting_cw721_roles", fld(ld("config"), "nft_address"), True)):
        for var in ("VotingPowerAtHeight", "TotalPowerAtHeight"):
            W = "%s::query/%s" % (K, var)
            h = F(as_(MSG, var), "height")
            got = answers(K, var)
            c.ob(len(got) > 0, "anchor", W, len(got))
            for p, v in got:
                if var == "TotalPowerAtHeight":
                    x = fld(v, "power")
                    c.ob(x.op == "fld" and x.a[1] == "weight" and asked(x.a[0], G, "TotalWeight", at_height=h), "relay", W + " power", show(x)[:400], p)
                else:
                    qs = {y for t in [v] + [k for k, _ in lits_of(p)] + list(p.st.var) for y in subterms(t) if y.op == "query" and asked(y, G, "Member", addr=adr(var), at_height=h)}
                    if c.ob(len(qs) == 1, "relay", W + " member", show(v)[:400], p):
                        w = fld(list(qs)[0], "weight")
                        agree(c, p, fld(v, "power"), lambda o: payload(w, "Some") if o(t_isv(w, "Some", OPT)) else I(0), lambda q, a, b: same(a, b), "relay", W + " power")
                agree(c, p, fld(v, "height"), when(h), lambda q, a, b: a is b, "height", W)


def core(c):
    K = "dao_dao_core"
    V = ld("voting_module")
    for var, f in (("VotingPowerAtHeight", True), ("TotalPowerAtHeight", False)):
        W = "%s::query/%s" % (K, var)
        kw = {"height": F(as_(MSG, var), "height")}
        if f:
            kw["address"] = adr(var)
        got = answers(K, var)
        c.ob(len(got) > 0, "anchor", W, len(got))
        for p, v in got:
            ok = asked(v, V, var, **kw)
            if not ok and v.op == "adt":
                ok = all(x.op == "fld" and x.a[1] == n and asked(x.a[0], V, var, **kw) for n, x in adt_fields(v).items())
            c.ob(ok, "core-relay", W, show(v)[:400], p)


def roles(c):
    """the soul-bound roles collection answers weights from its own snapshots"""
    K = "cw721_roles"
    for var, ns, who in (("Member", "members", True), ("TotalWeight", "total", False)):
        W = "%s::query/Extension/%s" % (K, var)
        X = F(as_(MSG, "Extension"), "msg")
        h = F(as_(X, var), "at_height")
        k = valid(F(as_(X, var), "addr")) if who else UNIT
        ps = okpaths(K, "query", "Extension", pre=[(X, var)])
        c.ob(len(ps) > 0, "anchor", W, len(ps))
        for p in ps:
            if not p.feasible():
                continue
            for q, (v,) in p.split(p.ret):
                if not q.feasible():
                    continue
                if v.op == "json":
                    v = v.a[0]
                x = fld(v, "weight")

                def spec(o):
                    if o(t_isv(h, "Some", OPT)):
                        at = payload(h, "Some")
                        return mk("stat", ns, k, at, 0) if o(mk("hasat", ns, k, at, 0)) else None
                    return ld(ns, k) if o(has(ns, k)) else None

                def eq(r, a, b):
                    if who:
                        if b is None:
                            return kind_of(r, a) == "None"
                        return kind_of(r, a) == "Some" and payload(a, "Some") is b
                    return same(a, b) if b is not None else same(a, I(0))
                agree(c, q, x, spec, eq, "power", W)
    written_now(c, K, ("members", "total"))
