"""C12 staked tokens.  Staking credits exactly the tokens received, priced at the pool's current ratio;
unstaking and claiming pay out exactly what they take off the books, to the staker, after the
unstaking duration; per-account and total stakes move together by the same amount at the current
height; nobody else moves anyone's stake; subscribers hear each change."""
from props.stk import *

KS = "cw20_stake"
KT = "dao_voting_token_staked"
SB, TS, BAL = "staked_balances", "total_staked", "balance"


def books(c, ps, rule, W, who, delta, sign, extra=()):
    """staked_balances[who] and total_staked move by delta(oracle), together"""
    for p in ps:
        if not p.feasible():
            continue
        w = p.writes()
        sb, ts = p.saves(SB), p.saves(TS)
        c.ob(len(w.get(SB, [])) == 1 and len(w.get(TS, [])) == 1 and len(sb) == 1 and len(ts) == 1, rule + ":books", W, sorted(w), p)
        if len(sb) != 1 or len(ts) != 1:
            continue
        mv = plus if sign > 0 else minus

        def judge(q, d):
            for x, ns, k in ((sb[0], SB, who), (ts[0], TS, UNIT)):
                for q2, (kk, t) in q.split(x.a[1], x.a[2]):
                    if not q2.feasible():
                        continue
                    if kk is not k:
                        return "%s filed under %s" % (ns, show(kk)[:200])
                    if not mv(q2, t, ns, k, d):
                        return "%s := %s, due: %s by %s" % (ns, show(t)[:300], "up" if sign > 0 else "down", show(d)[:200])
            return True
        per(c, p, delta, judge, rule + ":amount", W)
        heights_ok(c, [p], (SB, TS), rule + ":height", W)


def run(c):
    cw20_stake(c)
    token_staked(c)


def cw20_stake(c):
    K = KS
    CFG = ld("config_v2")
    TOK = fld(CFG, "token_address")
    R = fld(as_(MSG, "Receive"), "0")
    sent, who = fld(R, "amount"), valid(fld(R, "sender"))
    total, bal = ld(TS), ld(BAL)

    def credited(o):
        if o(t_eq(total, I(0))) or o(t_eq(bal, I(0))):
            return sent
        return E.t_div(E.t_mul(total, sent), bal)
    W = K + "::execute/Receive"
    ps = some_paths(c, K, "execute", "Receive")
    req(c, ps, "receive-token", t_eq(SENDER, TOK), W)
    kinds = set()
    for p in ps:
        if not p.feasible():
            continue
        k = [v[1] for t, v in p.st.var.items() if t.op == "parsed" and v[0] == "is" and t.a[0] is fld(R, "msg")]
        if not c.ob(len(k) == 1 and k[0] in ("Stake", "Fund"), "receive-kind", W, k, p):
            continue
        kinds.add(k[0])
        b = p.saves(BAL)
        c.ob(len(b) == 1 and len(p.writes()[BAL]) == 1 and all(same(t, t_add(bal, sent)) for _, t in live(p, b[0].a[2])), "receive-balance", W, [repr(x)[:200] for x in b], p)
        if k[0] == "Stake":
            c.ob(frame_ns(p) == {SB, TS, BAL}, "stake:frame", W, sorted(p.writes()), p)
            books(c, [p], "stake", W, who, credited, +1)
            agree_msgs(c, [p], lambda o: [hooks("Stake", addr=who, amount=credited(o))], "stake:told", W)
        else:
            c.ob(frame_ns(p) == {BAL}, "fund:frame", W, sorted(p.writes()), p)
            msgs_ok(c, [p], "fund", [])
    c.ob(kinds == {"Stake", "Fund"}, "receive-kind", W + " kinds", sorted(kinds))
    W = K + "::execute/Unstake"
    ask = F(as_(MSG, "Unstake"), "amount")
    owed = E.t_div(E.t_mul(bal, ask), total)
    dur = fld(CFG, "unstaking_duration")
    ps = some_paths(c, K, "execute", "Unstake")
    books(c, ps, "unstake", W, SENDER, lambda o: ask, -1)
    for p in ps:
        if not p.feasible():
            continue
        b = p.saves(BAL)
        c.ob(len(b) == 1 and minus(p, b[0].a[2], BAL, UNIT, owed), "unstake:balance", W, [repr(x)[:300] for x in b], p)
        k = p.variant_of(dur)
        c.ob({n for n in frame_ns(p) if not n.startswith("ext:")} == {SB, TS, BAL}, "unstake:frame", W, sorted(p.writes()), p)
        if k == "Some":
            c.ob(claim_made(p, SENDER, owed, payload(dur, "Some")), "unstake:claim", W, [repr(x)[:300] for x in exts(p, "create_claim")], p)
            req(c, [p], "unstake:claims-bounded", lambda q: claims_bounded(q, SENDER), W)
        else:
            c.ob(k == "None" and not exts(p, "create_claim"), "unstake:claim", W, k, p)
    agree_msgs(c, ps, lambda o: ([m_cw20(TOK, "Transfer", recipient=SENDER, amount=owed)] if not o(t_isv(dur, "Some", OPT)) else []) + [hooks("Unstake", addr=SENDER, amount=ask)], "unstake:paid", W)
    claim(c, K, lambda amt: m_cw20(TOK, "Transfer", recipient=SENDER, amount=amt))
    config_update(c, K, "config_v2", is_owner)
    registry(c, K, is_owner)
    ownership(c, K)
    W = K + "::instantiate"
    for p in some_paths(c, K, "instantiate"):
        s = p.saves("config_v2")
        c.ob(len(s) == 1 and fld(s[0].a[2], "token_address") is valid(F(MSG, "token_address")) and fld(s[0].a[2], "unstaking_duration") is F(MSG, "unstaking_duration"), "config-initial", W, [repr(x)[:200] for x in s], p)
        req(c, [p], "config-duration", valid_duration(F(MSG, "unstaking_duration")), W)
        c.ob(all(len(p.saves(n)) == 1 and p.saves(n)[0].a[2] is I(0) for n in (TS, BAL)), "books-start-empty", W, sorted(p.writes()), p)
        req(c, [p], "token-answers", lambda q: any(k.op == "ok" and v and k.a[0].op == "query" and k.a[0].a[0] is valid(F(MSG, "token_address")) for k, v in lits_of(q)), W)
        c.ob(succeeded(p, "initialize_owner", F(MSG, "owner")), "owner-initial", W, path=p)
    # queries
    pool_queries(c)


def pool_queries(c):
    K = KS
    a = valid(F(as_(MSG, "StakedValue"), "address"))
    st = ld(SB, a)

    def value(o):
        if not o(has(SB, a)) or o(t_eq(st, I(0))):
            return I(0)
        if not o(has(BAL)) or o(t_eq(ld(BAL), I(0))) or o(t_eq(ld(TS), I(0))):
            return I(0)
        return E.t_div(E.t_mul(ld(BAL), st), ld(TS))
    for p in okpaths(K, "query", "StakedValue"):
        v = p.ret.a[0] if p.ret.op == "json" else p.ret
        agree(c, p, fld(v, "value"), value, lambda q, x, r: same(x, r), "query-value", K + "::query/StakedValue")
    answer_is(c, "query-total", K, "TotalValue", lambda p, v: fld(v, "total") is ld(BAL))
    answer_is(c, "query-config", K, "GetConfig", ld("config_v2"))
    answer_is(c, "query-claims", K, "Claims", lambda p, v: any(x.op == "call" and x.a[0].endswith("query_claims") and valid(F(as_(MSG, "Claims"), "address")) in x.a for x in subterms(v)))


def claim(c, K, pay):
    W = K + "::execute/Claim"
    ps = some_paths(c, K, "execute", "Claim")
    for p in ps:
        x = exts(p, "claim_tokens")
        ok = len(x) == 1 and SENDER in x[0].a and BLOCK in x[0].a and is_adt(x[0].a[-1], "None") and succeeded(p, "claim_tokens", SENDER)
        c.ob(ok and {n for n in frame_ns(p)} == {"ext:" + x[0].a[0]}, "claim:released", W, [repr(y)[:200] for y in x], p)
        if not ok:
            continue
        rel = [k for k in p.st.var if k.op == "call" and k.a[0].endswith("claim_tokens")][0]
        amt = payload(rel, "Ok")
        req(c, [p], "claim:nonzero", t_not(t_eq(amt, I(0))), W)
        agree_msgs(c, [p], lambda o: [pay(amt)], "claim:paid", W)


def ownership(c, K, v="UpdateOwnership"):
    W = "%s::execute/%s" % (K, v)
    for p in some_paths(c, K, "execute", v):
        x = exts(p, "update_ownership")
        c.ob(len(x) == 1 and SENDER in x[0].a and BLOCK in x[0].a and succeeded(p, "update_ownership", SENDER) and set(p.writes()) - {"ext:cw_ownable::assert_owner"} == {"ext:" + x[0].a[0]}, "ownership", W, [repr(y)[:200] for y in x], p)
        msgs_ok(c, [p], "ownership", [])


def token_staked(c):
    K = KT
    den = ld("denom")
    W = K + "::execute/Stake"
    ps = some_paths(c, K, "execute", "Stake")
    paid = None
    for p in ps:
        calls = [k for k in p.st.var if k.op == "call" and k.a[0].endswith("must_pay") and k.a[1] is INFO and k.a[2] is den and p.st.var[k] == ("is", "Ok")]
        if not c.ob(len(calls) == 1, "stake:paid", W, path=p):
            continue
        paid = payload(calls[0], "Ok")
        books(c, [p], "stake", W, SENDER, lambda o: paid, +1)
        c.ob(frame_ns(p) == {SB, TS}, "stake:frame", W, sorted(p.writes()), p)
        agree_msgs(c, [p], lambda o: [hooks("Stake", addr=SENDER, amount=paid)], "stake:told", W)
    W = K + "::execute/Unstake"
    ask = F(as_(MSG, "Unstake"), "amount")
    dur = fld(ld("config"), "unstaking_duration")
    ps = some_paths(c, K, "execute", "Unstake")
    books(c, ps, "unstake", W, SENDER, lambda o: ask, -1)
    req(c, ps, "unstake:nonzero", t_not(t_eq(ask, I(0))), W)
    for p in ps:
        k = p.variant_of(dur)
        c.ob({n for n in frame_ns(p) if not n.startswith("ext:")} == {SB, TS}, "unstake:frame", W, sorted(p.writes()), p)
        if k == "Some":
            c.ob(claim_made(p, SENDER, ask, payload(dur, "Some")), "unstake:claim", W, [repr(x)[:300] for x in exts(p, "create_claim")], p)
            req(c, [p], "unstake:claims-bounded", lambda q: claims_bounded(q, SENDER), W)
        else:
            c.ob(k == "None" and not exts(p, "create_claim"), "unstake:claim", W, k, p)
    agree_msgs(c, ps, lambda o: ([m_send(SENDER, den, ask)] if not o(t_isv(dur, "Some", OPT)) else []) + [hooks("Unstake", addr=SENDER, amount=ask)], "unstake:paid", W)
    claim(c, K, lambda amt: m_send(SENDER, den, amt))
    dao = t_eq(SENDER, ld("dao"))
    config_update(c, K, "config", dao)
    registry(c, K, dao)
    # the books and the denomination change nowhere else
    for en, vs in (("execute", variants(K, "execute")), ("instantiate", [None]), ("reply", [None])):
        for v in vs:
            for p in okpaths(K, en, v):
                w = set(p.writes())
                if v not in ("Stake", "Unstake"):
                    c.ob(not ({SB, TS} & w), "books-frame", "%s::%s%s" % (K, en, "/" + v if v else ""), sorted(w), p)
                if en == "execute":
                    c.ob(not ({"denom", "dao", "token_issuer_contract"} & w), "binding-frame", "%s::%s%s" % (K, en, "/" + v if v else ""), sorted(w), p)
