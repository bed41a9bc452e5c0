"""C15 active threshold.  A voting module is active exactly when what is staked now reaches the configured
threshold (an absolute count, or a percentage of the current supply rounded up); without one it always is.
Only the DAO changes the threshold, and no threshold that could never be met, or is zero, is stored."""
from props.stk import *
from props.status import scaled, PF, ONE

AT = "active_threshold"
MODS = ("dao_voting_token_staked", "dao_voting_cw20_staked", "dao_voting_cw721_staked", "dao_voting_onft_staked")


def supply_of(K, t, thing=None):
    """t is the current total supply of the token the module counts (of `thing`, or of the stored one)"""
    if K == "dao_voting_token_staked":
        d = thing or ld("denom")
        if t.op == "sub":       # what the DAO's treasury holds itself is left out when a factory made the token
            b = t.a[1]
            if not (b.op == "fld" and b.a[1] == "amount" and contains(b, ld("dao")) and contains(b, d)):
                return False
            t = t.a[0]
        x = t
        while x.op == "fld" and x.a[1] == "amount":
            x = x.a[0]
        if x.op == "rawquery":
            q = x.a[0]
            return any(y.op == "adt" and y.a[1] == "Supply" and adt_fields(y).get("denom") is d for y in subterms(q))
        return x.op in ("call", "fld", "as", "ok") and any(y.op == "call" and y.a[0].endswith("query_supply") and d in y.a for y in subterms(t))
    if K == "dao_voting_cw20_staked":
        return t.op == "fld" and t.a[1] == "total_supply" and t.a[0].op == "query" and t.a[0].a[0] is (thing or ld("token")) and head(t.a[0].a[1]) == "TokenInfo"
    if K == "dao_voting_cw721_staked":
        return t.op == "fld" and t.a[1] == "count" and t.a[0].op == "query" and t.a[0].a[0] is (thing or fld(ld("config"), "nft_address")) and head(t.a[0].a[1]) == "NumTokens"
    x = t.a[0] if t.op == "fld" and t.a[1] == "amount" else None
    return x is not None and any(y.op == "call" and y.a[0].endswith("::supply") and (thing or fld(ld("config"), "onft_collection_id")) in y.a for y in subterms(x))


def head(b):
    while b.op == "adt" and b.a[1] == "Extension" and len(b.a) == 4:
        b = b.a[3]
    return b.a[1] if b.op == "adt" else None


def staked(K, o):
    """what is staked now"""
    if K == "dao_voting_token_staked":
        return ld("total_staked") if o(has("total_staked")) else I(0)
    if K == "dao_voting_cw20_staked":
        return None
    return mk("stat", "tsn", UNIT, HEIGHT, 0) if o(mk("hasat", "tsn", UNIT, HEIGHT, 0)) else I(0)


def count_valid(p, K, cnt, supply):
    """not zero, and not above the supply"""
    if p.truth(t_eq(cnt, I(0))) is not False:
        return False
    for k, v in lits_of(p):
        if k.op == "lt" and not v:
            a, b = k.a
            if b is cnt and supply(a):
                return True
            if b.op == "add" and cnt in b.a and supply(mk("sub", a, [x for x in b.a if x is not cnt][0] if b.a[0] is not b.a[1] else cnt)):
                return True
    return False


def valid_threshold(K, t, supply):
    """the threshold t could be met"""
    def f(p):
        k = kind_of(p, t)
        if k == "AbsoluteCount":
            return count_valid(p, K, F(as_(t, k), "count"), supply)
        if k == "Percentage":
            x = F(as_(t, k), "percent")
            return p.truth(t_eq(x, I(0))) is False and p.truth(t_lt(ONE, x)) is False
        return False
    return f


def run(c):
    for K in MODS:
        update(c, K)
        active(c, K)
        initial(c, K)
        for p in okpaths(K, "query", "ActiveThreshold"):
            v = p.ret.a[0] if p.ret.op == "json" else p.ret
            agree(c, p, fld(v, AT), lambda o: o(has(AT)), lambda q, a, b: (kind_of(q, a) == "Some" and payload(a, "Some") is ld(AT)) if b else kind_of(q, a) == "None", "query", K + "::query/ActiveThreshold")
        for v in variants(K, "execute"):
            if v == "UpdateActiveThreshold":
                continue
            for p in okpaths(K, "execute", v):
                c.ob(AT not in p.writes(), "frame", "%s::execute/%s" % (K, v), sorted(p.writes()), p)
    replies(c)


def update(c, K):
    W = K + "::execute/UpdateActiveThreshold"
    n = F(as_(MSG, "UpdateActiveThreshold"), "new_threshold")
    ps = some_paths(c, K, "execute", "UpdateActiveThreshold")
    req(c, ps, "authority", t_eq(SENDER, ld("dao")), W)
    for p in ps:
        c.ob(set(p.writes()) == {AT}, "update:frame", W, sorted(p.writes()), p)

        def judge(q, some):
            s, r = q.saves(AT), q.removes(AT)
            if some:
                return len(s) == 1 and not r and s[0].a[2] is payload(n, "Some") or "saved: %r" % s
            return len(r) == 1 and not s or "removed: %r" % r
        per(c, p, lambda o: o(t_isv(n, "Some", OPT)), judge, "update:value", W)
    req(c, ps, "update:valid", [lambda q: q.variant_of(n) == "None", valid_threshold(K, payload(n, "Some"), lambda t: supply_of(K, t))], W)
    msgs_ok(c, ps, "update:frame", [])


def active(c, K):
    W = K + "::query/IsActive"
    th = ld(AT)
    pct = F(as_(th, "Percentage"), "percent")
    some_paths(c, K, "query", "IsActive")
    for p, v in answers(K, "IsActive"):
        sup = {y for t in [v] + [k for k, _ in lits_of(p)] for y in subterms(t) if supply_of(K, y)}
        # the outermost form of the supply
        sup = sorted((y for y in sup if not any(z is not y and contains(z, y) for z in sup)), key=show)
        tot = None
        if K == "dao_voting_cw20_staked":
            ts = {y for t in [v] + [k for k, _ in lits_of(p)] for y in subterms(t) if y.op == "fld" and y.a[1] == "total" and y.a[0].op == "query" and y.a[0].a[0] is ld("staking_contract")
                  and head(y.a[0].a[1]) == "TotalStakedAtHeight" and is_adt(fld(y.a[0].a[1], "height"), "None")}
            tot = list(ts)[0] if len(ts) == 1 else mk("sym", "no total")

        def spec(o):
            if not o(has(AT)):
                return TRUE
            k = o.var(th, "AbsoluteCount", "Percentage")
            t = tot or staked(K, o)
            if k == "AbsoluteCount":
                return t_not(t_lt(t, F(as_(th, k), "count")))
            if K in ("dao_voting_cw721_staked", "dao_voting_onft_staked") and o(t_eq(t, I(0))):
                return FALSE
            if len(sup) != 1:
                return mk("sym", "no supply")
            up = E.t_div(t_add(I(10 ** 9 - 1), scaled(sup[0], pct)), PF)
            return t_not(t_lt(t, up))

        def eq(q, a, b):
            if a is b or (a is not None and same_lit(a, b)):
                return True
            ta = {TRUE: True, FALSE: False}.get(a, q.truth(a))
            tb = {TRUE: True, FALSE: False}.get(b, q.truth(b))
            return ta is not None and ta == tb
        agree(c, p, fld(v, "active"), spec, eq, "active", W)


def same_lit(a, b):
    n = 0
    while a.op == "not" and b.op == "not":
        a, b = a.a[0], b.a[0]
    return a.op == b.op and a.op in ("lt", "eq") and all(same(x, y) for x, y in zip(a.a, b.a))


def initial(c, K):
    """at creation the asked threshold is stored; a percentage is valid; a count is, when the token exists"""
    W = K + "::instantiate"
    a = F(MSG, AT)
    t = payload(a, "Some")
    src = F(MSG, {"dao_voting_token_staked": "token_info", "dao_voting_cw20_staked": "token_info", "dao_voting_cw721_staked": "nft_contract", "dao_voting_onft_staked": "onft_collection"}[K])
    ex = as_(src, "Existing")
    thing = {"dao_voting_token_staked": lambda: fld(ex, "denom"), "dao_voting_cw20_staked": lambda: valid(fld(ex, "address")), "dao_voting_cw721_staked": lambda: None, "dao_voting_onft_staked": lambda: fld(ex, "id")}[K]()
    things = [thing] if thing is not None else [fld(ex, "address"), valid(fld(ex, "address"))]
    ps = some_paths(c, K, "instantiate")
    kinds = set()
    for p in ps:
        def judge(q, some):
            s = q.saves(AT)
            return ((len(s) == 1 and all(same(x, t) for _, x in live(q, s[0].a[2]))) if some else not s) and not q.removes(AT) or "saved: %r" % s
        per(c, p, lambda o: o(t_isv(a, "Some", OPT)), judge, "initial:stored", W)

        def ok(q):
            if q.variant_of(a) == "None":
                return True
            k = kind_of(q, t)
            if k == "Percentage":
                return valid_threshold(K, t, None)(q)
            if k == "AbsoluteCount":
                kd = kind_of(q, src)
                if kd is None and K == "dao_voting_onft_staked":
                    kd = "Existing"
                if kd == "Existing":
                    return any(valid_threshold(K, t, lambda x, y=y: supply_of(K, x, y))(q) for y in things)
                return kd is not None
            return False
        if p.feasible():
            kinds.add(p.variant_of(src) or "Existing")
            req(c, [p], "initial:valid", ok, W)
    c.ob("Existing" in kinds, "anchor", W + " existing", sorted(kinds))


def is_sum(t, lst, f):
    """the sum of a field over a list"""
    if t.op == "isum":
        return contains(t, fld(mk("elem", lst), f))
    el = fld(mk("elem", lst), f)
    return t.op == "add" and el in t.a and any(x.op == "mu" and x.a[0] is I(0) for x in t.a)


def replies(c):
    """once a token made with the module is known, a stored absolute count is checked against its supply"""
    th = ld(AT)

    def rule(K, ps, supply, W):
        n = 0
        for p in ps:
            if not p.feasible():
                continue
            n += 1

            def ok(q):
                if q.truth(has(AT)) is False:
                    return True
                k = kind_of(q, th)
                return k == "Percentage" or (k == "AbsoluteCount" and count_valid(q, K, F(as_(th, k), "count"), lambda x: supply(p, x)))
            req(c, [p], "reply:valid", ok, W)
            c.ob(AT not in p.writes(), "frame", W, sorted(p.writes()), p)
        c.floor(n, 1, W)
    K = "dao_voting_token_staked"
    info = F(as_(ld("token_instantiation_info"), "New"), "0")

    def sup(p, x):
        d = p.saves("denom")[0].a[2]
        if supply_of(K, x, d) and x.op == "sub":
            return True
        return is_sum(x, fld(info, "initial_balances"), "amount")
    ps = [p for p in okpaths(K, "reply") if p.saves("denom")]
    rule(K, ps, sup, K + "::reply (token known)")
    c.floor(len([p for p in ps if p.feasible()]), 2, K + "::reply learns the token")
    K = "dao_voting_cw20_staked"
    rule(K, [p for p in okpaths(K, "reply") if p.saves("token")], lambda p, x: supply_of(K, x, p.saves("token")[0].a[2]), K + "::reply (token known)")
    K = "dao_voting_cw721_staked"
    nft = fld(ld("config"), "nft_address")
    # a collection made by a factory is documented to be validated by the factory
    made = [p for p in okpaths(K, "reply") if p.saves("config") and any(g.mode == "success" for _, g in p.msgs())]
    c.floor(len(made), 1, K + "::reply asks to be told when the collection is set up")
    for p in made:
        for q, gs in p.worlds():
            ids = {g.id for g in gs if g.mode == "success"}
            last = gs[-1].mode == "success" if gs else False
            if not c.ob(len(ids) == 1 and last, "reply:last", K + "::reply", [repr(g)[:200] for g in gs], q):
                continue
            rid = list(ids)[0]
            rs = [r for r in okpaths(K, "reply") if r.truth(t_eq(fld(sym("reply"), "id"), rid)) is True]
            rule(K, rs, lambda p, x: supply_of(K, x), K + "::reply (collection set up)")
            req(c, rs, "reply:minted", lambda r: any(k.op == "eq" and not v and I(0) in k.a and any(supply_of(K, y) for y in k.a) for k, v in lits_of(r)), K + "::reply (collection set up)")
