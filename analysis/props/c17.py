"""C17 staking rewards.  External rewards accrue to a staker in proportion to its stake over the time the
rewards run, are brought up to date before its stake changes or anything is paid, and are paid once; the
reward distributor pays the pool at its rate, each block once."""
from lib import *

K, D = "cw20_stake_external_rewards", "cw20_stake_reward_distributor"
CF, RC, RPT, LUB, PR, URPT = "config_v2", "reward_config", "reward_per_token", "last_update_block", "pending_rewards", "user_reward_per_token"
LPB = "last_payment_block"
STAKING = fld(ld(CF), "staking_contract")
FINISH, RATE, DUR = (fld(ld(RC), n) for n in ("period_finish", "reward_rate", "reward_duration"))
TOKEN = fld(ld(CF), "reward_token")


def run(c):
    external(c)
    distributor(c)


def q_of(t, variant, field):
    return t.op == "fld" and t.a[1] == field and t.a[0].op == "query" and t.a[0].a[1].op == "adt" and t.a[0].a[1].a[1] == variant


def find_q(v, variant, field, **args):
    for x in subterms(v):
        if q_of(x, variant, field) and x.a[0].a[0] is STAKING:
            d = adt_fields(x.a[0].a[1])
            if d["height"].op == "adt" and d["height"].a[1] == "None" and all(d.get(n) is y for n, y in args.items()):
                return x
    return None


def is_now(p, x):
    """the last block for which rewards are paid: now, or the end of the period"""
    if x is mk("min", HEIGHT, FINISH) or x is mk("min", FINISH, HEIGHT):
        return True
    if x is HEIGHT:
        return p.truth(t_lt(FINISH, HEIGHT)) is False
    return x is FINISH and p.truth(t_lt(HEIGHT, FINISH)) is False


def nows(p):
    return [x for x in {mk("min", HEIGHT, FINISH), mk("min", FINISH, HEIGHT), HEIGHT, FINISH} if is_now(p, x)]


def scales(v):
    return [x for x in subterms(v) if x.op == "call" and x.a[0].endswith("::pow") or x.op == "int" and x.a[0] > 1]


def was(o, ns, *k):
    return ld(ns, *k) if o(has(ns, *k)) else I(0)


def accrued(c, ps, who, W):
    """every path brings the rewards of `who` up to date"""
    for p in ps:
        if not p.feasible():
            continue
        first = {}
        for x in p.effects:
            if x.kind == "save":
                first.setdefault(ns_of(x), x)
        if not c.ob(all(n in first for n in (RPT, PR, URPT, LUB)) and first[PR].a[1] is who and first[URPT].a[1] is who, "accrual:up-to-date", W, [repr(x)[:200] for x in p.effects], p):
            continue
        rpt = first[RPT].a[2]
        total = find_q(mk("tuple", rpt, *[t for t, _ in lits_of(p)]), "TotalStakedAtHeight", "total")
        bal = find_q(first[PR].a[2], "StakedBalanceAtHeight", "balance", address=who)
        if not c.ob(total is not None and bal is not None, "accrual:stake", W, show(rpt)[:500], p):
            continue
        sc = scales(first[PR].a[2])

        def per_token(o):
            prev, last = was(o, RPT), was(o, LUB)
            return (prev, last, o(t_eq(total, I(0))))

        def eq(q, x, r):
            prev, last, none = r
            if none:
                return same(x, prev)
            return any(same(x, t_add(prev, E.t_div(E.t_mul(E.t_mul(RATE, t_sub(n, last)), s), total))) for n in nows(q) for s in sc)
        agree(c, p, rpt, per_token, eq, "accrual:per-token", W)
        c.ob(all(t is u for q, (t, u) in p.split(first[URPT].a[2], rpt) if q.feasible()), "accrual:mark", W, show(first[URPT].a[2])[:300], p)
        for q, (x,) in p.split(first[LUB].a[2]):
            if q.feasible():
                c.ob(is_now(q, x), "accrual:block", W, show(x), q)

        # what is credited: stake times the rise since the account was last brought up to date
        def credit(o):
            return per_token(o) + (was(o, URPT, who), was(o, PR, who))

        def ceq(q, x, r):
            prev, last, none, mark, pend = r
            vs = [prev] if none else [t_add(prev, E.t_div(E.t_mul(E.t_mul(RATE, t_sub(n, last)), s), total)) for n in nows(q) for s in sc]
            return any(same(x, t_add(pend, E.t_div(E.t_mul(bal, t_sub(v, mark)), s))) for v in vs for s in sc)
        agree(c, p, first[PR].a[2], credit, ceq, "accrual:credit", W)


def reward_frame(c, ps, rule, W, extra=()):
    for p in ps:
        if p.feasible():
            w = {n for n in p.writes() if not n.startswith("ext:")}
            c.ob(w <= {RPT, PR, URPT, LUB} | set(extra), rule + ":frame", W, sorted(w), p)


def external(c):
    c.ob(sorted(variants(K, "execute")) == ["Claim", "Fund", "Receive", "StakeChangeHook", "UpdateOwnership", "UpdateRewardDuration"], "operations", K + "::execute", variants(K, "execute"))
    W = K + "::execute/StakeChangeHook"
    H = fld(as_(MSG, "StakeChangeHook"), "0")
    ps = some_paths(c, K, "execute", "StakeChangeHook")
    req(c, ps, "hook:sender", t_eq(SENDER, STAKING), W)
    msgs_ok(c, ps, "hook", [])
    reward_frame(c, ps, "hook", W)
    for p in ps:
        k = p.variant_of(H)
        if c.ob(k in ("Stake", "Unstake"), "hook:kind", W, k, p):
            accrued(c, [p], fld(as_(H, k), "addr"), W + "/" + k)
    # claim
    W = K + "::execute/Claim"
    ps = some_paths(c, K, "execute", "Claim")
    reward_frame(c, ps, "claim", W)
    accrued(c, ps, SENDER, W)
    for p in ps:
        if not p.feasible():
            continue
        s = p.saves(PR)
        c.ob(len(s) == 2 and s[1].a[1] is SENDER and s[1].a[2] is I(0), "claim:once", W, [repr(x)[:200] for x in s], p)
        c.ob(all(len(p.saves(n)) == 1 for n in (RPT, URPT, LUB)), "claim:frame", W, [repr(x)[:200] for x in p.effects], p)
        if len(s) != 2:
            continue
        for q, gs in msg_cases(p):
            for q2, (v,) in q.split(s[0].a[2]):
                if not q2.feasible():
                    continue
                for q3, ms in q2.split(*[g.msg for g in gs]):
                    if q3.feasible():
                        g3 = [G(m, g.mode, g.id, g.each, g.maybe, g.conds) for m, g in zip(ms, gs)]
                        c.ob(len(g3) == 1 and g3[0].mode == "never" and pays(TOKEN, SENDER, v)(q3, g3[0]), "claim:paid", W, [repr(g)[:400] for g in g3], q3)
    # funding
    for v, who in (("Fund", SENDER), ("Receive", valid(fld(fld(as_(MSG, "Receive"), "0"), "sender")))):
        W = "%s::execute/%s" % (K, v)
        ps = some_paths(c, K, "execute", v)
        req(c, ps, "fund:owner", lambda p: succeeded(p, "assert_owner", who), W)
        req(c, ps, "fund:finished", t_not(t_lt(HEIGHT, FINISH)), W)
        msgs_ok(c, ps, "fund", [])
        reward_frame(c, ps, "fund", W, [RC])
        accrued(c, ps, who, W)
        if v == "Fund":
            req(c, ps, "fund:token", lambda p: p.variant_of(TOKEN) == "Native", W)
            amts = [payload(x, "Ok") for x in must_pay(payload(TOKEN, "Native"))]
        else:
            req(c, ps, "fund:token", lambda p: p.variant_of(TOKEN) == "Cw20" and p.truth(t_eq(SENDER, payload(TOKEN, "Cw20"))) is True or p.truth(t_eq(TOKEN, adt("cw20::Denom", "Cw20", ["0"], [SENDER]))) is True, W)
            amts = [fld(fld(as_(MSG, "Receive"), "0"), "amount")]
        for p in ps:
            if not p.feasible():
                continue
            s, l = p.saves(RC), p.saves(LUB)
            ok = len(s) == 1 and any(same(fld(s[0].a[2], "reward_rate"), E.t_div(a, DUR)) for a in amts) and same(fld(s[0].a[2], "period_finish"), t_add(HEIGHT, DUR)) and fld(s[0].a[2], "reward_duration") is DUR
            c.ob(ok, "fund:rate", W, [repr(x)[:300] for x in s], p)
            req(c, [p], "fund:rate-positive", [t_not(t_eq(fld(x.a[2], "reward_rate"), I(0))) for x in s], W)
            c.ob(len(l) >= 1 and l[-1].a[2] is HEIGHT, "fund:start", W, [repr(x)[:200] for x in l], p)
    # duration
    W = K + "::execute/UpdateRewardDuration"
    n = fld(as_(MSG, "UpdateRewardDuration"), "new_duration")
    spec(c, "duration", K, "execute", "UpdateRewardDuration", [is_owner, t_not(t_lt(HEIGHT, FINISH)), t_not(t_eq(n, I(0)))],
         {RC: (UNIT, lambda p, v: fld(v, "reward_duration") is n and fld(v, "period_finish") is FINISH and fld(v, "reward_rate") is RATE)}, [RC], [])
    ownership_only(c, K)
    # initial
    W = K + "::instantiate"
    ps = some_paths(c, K, "instantiate")
    req(c, ps, "initial:duration", t_not(t_eq(F(MSG, "reward_duration"), I(0))), W)
    req(c, ps, "initial:owner", lambda p: any(x for x in exts(p, "initialize_owner") if F(MSG, "owner") in x.a), W)

    def conf(p, v):
        d, s = fld(v, "reward_token"), F(MSG, "reward_token")
        k = kind_of(p, d)
        return fld(v, "staking_contract") is valid(F(MSG, "staking_contract")) and k == p.variant_of(s) and payload(d, k) is (payload(s, k) if k == "Native" else valid(payload(s, k)))
    writes_ok(c, ps, "initial", {"ext:cw_ownable::initialize_owner": None, CF: (UNIT, conf), RC: (UNIT, lambda p, v: fld(v, "reward_duration") is F(MSG, "reward_duration") and fld(v, "period_finish") is I(0) and fld(v, "reward_rate") is I(0))}, [CF, RC])
    # pending rewards query: what a claim now would credit
    W = K + "::query/GetPendingRewards"
    who = valid(fld(as_(MSG, "GetPendingRewards"), "address"))
    for p in some_paths(c, K, "query", "GetPendingRewards"):
        v = p.ret.a[0] if p.ret.op == "json" else p.ret
        t = v
        total = find_q(mk("tuple", t, *[x for x, _ in lits_of(p)]), "TotalStakedAtHeight", "total")
        bal = find_q(t, "StakedBalanceAtHeight", "balance", address=who)
        if not c.ob(total is not None and bal is not None, "query:stake", W, show(t)[:300], p):
            continue
        sc = scales(t)

        def credit(o):
            return was(o, RPT), was(o, LUB), o(t_eq(total, I(0))), was(o, URPT, who), was(o, PR, who)

        def ceq(q, x, r):
            prev, last, none, mark, pend = r
            x = fld(x, "pending_rewards") if x.op == "adt" else x
            vs = [prev] if none else [t_add(prev, E.t_div(E.t_mul(E.t_mul(RATE, t_sub(n, last)), s), total)) for n in nows(q) for s in sc]
            return any(same(x, t_add(pend, E.t_div(E.t_mul(bal, t_sub(v, mark)), s))) for v in vs for s in sc)
        agree(c, p, v, credit, ceq, "query:pending", W)


def ownership_only(c, K):
    ps = some_paths(c, K, "execute", "UpdateOwnership")
    for p in ps:
        c.ob(all(n.startswith("ext:cw_ownable::") for n in p.writes()) and not p.msgs(), "ownership:frame", K + "::execute/UpdateOwnership", sorted(p.writes()), p)
    req(c, ps, "ownership:sender", lambda p: succeeded(p, "update_ownership", SENDER), K + "::execute/UpdateOwnership")


# ---- reward distributor -----------------------------------------------------------------------
def distributor(c):
    c.ob(sorted(variants(D, "execute")) == ["Distribute", "UpdateConfig", "UpdateOwnership", "Withdraw"], "operations", D + "::execute", variants(D, "execute"))
    rate, tok, stk = (fld(ld(CF), n) for n in ("reward_rate", "reward_token", "staking_addr"))

    def held(t):
        return t.op == "fld" and t.a[1] == "balance" and t.a[0].op == "query" and t.a[0].a[0] is tok and t.a[0].a[1].op == "adt" and t.a[0].a[1].a[1] == "Balance" and adt_fields(t.a[0].a[1])["address"] is SELF

    def due(p, t):
        """the lesser of what accrued and what is held"""
        acc = E.t_mul(rate, t_sub(HEIGHT, ld(LPB)))
        if t.op == "min":
            a, b = t.a
            return held(a) and same(b, acc) or held(b) and same(a, acc)
        if held(t):
            return p.truth(t_lt(acc, t)) is False
        h = [x.a[0] for x, v in lits_of(p) if x.op == "lt" and v is False and same(x.a[1], acc)] + [x.a[1] for x, v in lits_of(p) if x.op == "lt" and v is True and same(x.a[0], acc)]
        return same(t, acc) and any(held(x) for x in h)

    def reward(p, g):
        w = g.wasm("Execute")
        if w is None or g.mode != "never":
            return False
        d, b = w
        x = bfields(b, "Send")
        if x is None or d["contract_addr"] is not tok or not empty_list(d["funds"]):
            return False
        m = x["msg"]
        m = m.a[0] if m.op == "json" else m
        return x["contract"] is stk and m.op == "adt" and m.a[1] == "Fund" and due(p, x["amount"])
    W = D + "::execute/Distribute"
    ps = spec(c, "distribute", D, "execute", "Distribute", [t_lt(ld(LPB), HEIGHT)], {LPB: (UNIT, HEIGHT)}, [LPB], [reward], 1)
    for p in ps:
        for q, gs in msg_cases(p):
            c.ob(len(gs) == 1, "distribute:once", W, [repr(g)[:300] for g in gs], q)

    def all_to_owner(p, g):
        w = g.wasm("Execute")
        x = w and bfields(w[1], "Transfer")
        return bool(x) and g.mode == "never" and w[0]["contract_addr"] is tok and empty_list(w[0]["funds"]) and x["recipient"] is SENDER and held(x["amount"])
    ps = spec(c, "withdraw", D, "execute", "Withdraw", [is_owner], {}, (), [all_to_owner], 1)
    for p in ps:
        c.ob(len(p.msgs()) == 1, "withdraw:once", D + "::execute/Withdraw", "", p)

    def conf(src, rate_):
        return lambda p, v: fld(v, "staking_addr") is valid(fld(src, "staking_addr")) and fld(v, "reward_token") is valid(fld(src, "reward_token")) and fld(v, "reward_rate") is fld(src, "reward_rate")

    def checked(src):
        def f(p):
            """the staking contract and the token answered as such"""
            seen = {(x.a[0].a[0], x.a[0].a[1].a[1]) for x, v in lits_of(p) if v and x.op == "ok" and x.a[0].op == "query" and x.a[0].a[1].op == "adt"}
            return (valid(fld(src, "staking_addr")), "TotalStakedAtHeight") in seen and (valid(fld(src, "reward_token")), "TokenInfo") in seen
        return f
    u = as_(MSG, "UpdateConfig")
    ps = spec(c, "config", D, "execute", "UpdateConfig", [is_owner, checked(u)], {CF: (UNIT, conf(u, 0)), LPB: (UNIT, HEIGHT)}, [CF, LPB], [reward])
    ps = spec(c, "initial", D, "instantiate", None, [checked(MSG), lambda p: bool(exts(p, "initialize_owner"))], {CF: (UNIT, conf(MSG, 0)), LPB: (UNIT, HEIGHT), "ext:cw_ownable::initialize_owner": None}, [CF, LPB], [])
    ownership_only(c, D)
