"""C16 rewards distributor.  What a member earns is its power times what each unit of power earned since it
was last looked at; every change of power is looked at first; a claim pays all of it, once."""
from lib import *
from props.c12 import ownership
from props.c18 import has_height

K = "dao_rewards_distributor"
SCALE = I(10 ** 39)
RATE = ("Paused", "Immediate", "Linear")
WHEN = ("Never", "AtHeight", "AtTime")


class Missing(Exception):
    pass


def terms_of(*ts):
    out = set()
    for t in ts:
        out.update(subterms(t))
    return out


def known(p):
    return {y for z, _ in lits_of(p) for y in subterms(z)} | {y for z in p.st.var for y in subterms(z)}


class Old:
    """what was stored of distribution k, and of who's rewards, before"""

    def __init__(self, k, all_, who=None, d=None):
        self.k, self.who = k, who
        ds = {x for x in all_ if is_ld(x, "d", k)} if d is None else {d}
        if len(ds) != 1:
            raise Missing("%d states of the distribution" % len(ds))
        self.D = ds.pop()
        us = {x for x in all_ if is_ld(x, "ur", who)} if who is not None else set()
        if len(us) > 1:
            raise Missing("%d states of the rewards" % len(us))
        hs = {x for x in all_ if x.op == "has" and x.a[0] == "ur" and x.a[1] is who}
        if who is not None and not us and not hs:
            raise Missing("rewards not looked at")
        self.U = us.pop() if us else None
        self.has = hs.pop() if hs else None
        self.ids = (k, fld(self.D, "id"))
        self.ep = fld(self.D, "active_epoch")
        self.vp = fld(self.D, "vp_contract")
        self.total = self.power("TotalPowerAtHeight", all_)
        self.mine = self.power("VotingPowerAtHeight", all_, address=who) if who is not None else None

    def power(self, variant, all_, **kw):
        c = {y for y in all_ if y.op == "fld" and y.a[1] == "power" and y.a[0].op == "query" and y.a[0].a[0] is self.vp and has_height(y.a[0].a[1], variant, HEIGHT, **kw)}
        return c.pop() if len(c) == 1 else mk("sym", "no " + variant)

    def mapped(self, o, name, all_):
        """the member's entry for the distribution, zero if it has none"""
        if self.has is not None and not o(self.has):
            return I(0)
        if self.U is None:
            raise Missing("rewards not loaded")
        m = fld(self.U, name)
        g = [mk("hmget", m, i) for i in self.ids]
        g = [x for x in g if x in all_] or g
        return payload(g[0], "Some") if o.var(g[0], "Some", "None") == "Some" else I(0)


def number(v):
    return (lambda x: x) if v == "AtHeight" else (lambda x: mk("secs", x))


def now(v):
    return HEIGHT if v == "AtHeight" else TIME


def until(o, ends):
    """(kind, time): the present, or the end if that is past"""
    e = o.var(ends, *WHEN)
    return (e, None) if e == "Never" else (e, least(o, *sorted((now(e), payload(ends, e)), key=show)))


def earned(o, D, total, ep=None):
    """what a unit of power has earned in the epoch so far"""
    ep = ep if ep is not None else fld(D, "active_epoch")
    rate, cur = fld(ep, "emission_rate"), fld(ep, "total_earned_puvp")
    r = o.var(rate, *RATE)
    if r == "Paused":
        return I(0)
    if r == "Immediate":
        return cur
    e, x = until(o, fld(ep, "ends_at"))
    last = fld(ep, "last_updated_total_earned_puvp")
    if e == "Never":
        return cur
    if o.var(last, *WHEN) != e:
        return None  # cannot be
    s = payload(last, e)
    if not o(t_lt(s, x)):
        return cur
    n = number(e)
    d = t_sub(n(x), n(s))
    if o(t_eq(n(x), n(s))):
        return cur
    L = as_(rate, "Linear")
    dur = fld(L, "duration")
    if o.var(dur, "Height", "Time") != ("Height" if e == "AtHeight" else "Time"):
        return cur if o(t_eq(total, I(0))) else None  # otherwise cannot be
    dv = payload(dur, "Height" if e == "AtHeight" else "Time")
    if o(t_eq(total, I(0))):
        return cur
    return t_add(cur, E.t_div(E.t_mul(E.t_mul(fld(L, "amount"), E.t_div(d, dv)), SCALE), total))


def updated(o, old, all_):
    """(earned, last, total earned, pending) after looking at a member's rewards"""
    x = earned(o, old.D, old.total)
    if x is None:
        return None
    last = until(o, fld(old.ep, "ends_at"))
    tot = t_add(x, fld(old.D, "historical_earned_puvp"))
    got = old.mapped(o, "accounted_for_rewards_puvp", all_)
    pend = old.mapped(o, "pending_rewards", all_)
    return x, last, tot, t_add(pend, E.t_div(E.t_mul(old.mine, t_sub(tot, got)), SCALE))


DF = ("id", "denom", "active_epoch", "vp_contract", "hook_caller", "open_funding", "funded_amount", "withdraw_destination", "historical_earned_puvp")
EF = ("emission_rate", "started_at", "ends_at", "total_earned_puvp", "last_updated_total_earned_puvp")


def kept(x, D, *but):
    """the distribution, changed in nothing but this (a.b for the fields of the epoch)"""
    a, b = fld(x, "active_epoch"), fld(D, "active_epoch")
    for n in DF:
        if n not in but and n != "active_epoch" and fld(x, n) is not fld(D, n):
            return "changes " + n
    for n in EF:
        if n not in but and fld(a, n) is not fld(b, n):
            return "changes the epoch's " + n
    return True


def moment(p, t, want):
    k, x = want
    return kind_of(p, t) == k and (x is None or amounts_equal(p, payload(t, k), x) or payload(t, k) is x)


def entry(m, old, name):
    """(value, rest) of the entry for the distribution in the member's map"""
    if m.op != "hmins" or m.a[1] not in old.ids:
        return None, None
    return m.a[2], m.a[0]


def cases(p, t):
    """live, on what is left of the path"""
    for q, (x,) in narrow(p, t):
        ph = first_phi(x)
        if ph is None:
            yield q, x
            continue
        for s, y in q.cases_of(ph):
            if q.on(s).feasible():
                yield from cases(q.on(s), subst(x, {ph: y}))


def judge(c, p, W, rule, ts, spec, check, gs=None, least=1):
    """check(q, values, messages, result) in every case of what the operation does and of the rule"""
    n, ok = 0, True
    t = mk("tuple", *ts)
    try:
        for q, gs in (msg_cases(p) if gs is None else [(p, gs)]):
            ms = [g.msg for g in gs]
            for q1, r in decide_choices(q, t, *ms):
                for q2, r0 in outcomes(q1, spec):
                    if r0 is None:
                        continue
                    for q3, x in cases(q2, mk("tuple", *r)):
                        for q4 in settle(q3):
                            for q5, want in outcomes(q4, spec):
                                n += 1
                                w = check(q5, x.a[0].a, [G(m, g.mode, g.id, g.each, g.maybe, g.conds) for m, g in zip(x.a[1:], gs)], want)
                                if w is not True and not impossible(q5):
                                    if ok:
                                        c.ob(False, rule, W, w, q5)
                                    ok = False
    except Missing as e:
        ok = c.ob(False, rule, W, "not looked at: %s" % e, p)
    if ok:
        c.ob(n >= least, rule, W, "%d cases" % n)
    c.cases = getattr(c, "cases", 0) + n


def forget(p, pred):
    """the path without the facts on what is irrelevant (more cases, never fewer)"""
    s = p.st.copy()
    s.facts = {k: v for k, v in s.facts.items() if k.__class__ is not T or not any(pred(x) for x in subterms(k))}
    s.var = {k: v for k, v in s.var.items() if not any(pred(x) for x in subterms(k))}
    return p.on(s), (frozenset((k, v) for k, v in s.facts.items() if k.__class__ is T), frozenset(s.var.items()))


def rewards_ok(q, x, u, old, want, taken=False):
    ear, last, tot, pend = want
    w = kept(x, old.D, "total_earned_puvp", "last_updated_total_earned_puvp")
    if w is not True:
        return w
    a = fld(x, "active_epoch")
    if not amounts_equal(q, fld(a, "total_earned_puvp"), ear):
        return "earned %s, not %s" % (show(fld(a, "total_earned_puvp"))[:300], show(ear)[:300])
    if not moment(q, fld(a, "last_updated_total_earned_puvp"), last):
        return "last looked at %s" % show(fld(a, "last_updated_total_earned_puvp"))[:200]
    for name, v in (("pending_rewards", I(0) if taken else pend), ("accounted_for_rewards_puvp", tot)):
        e, rest = entry(fld(u, name), old, name)
        if e is None:
            return name + " is not set"
        if not amounts_equal(q, e, v):
            return "%s is %s, not %s" % (name, show(e)[:300], show(v)[:300])
        was = fld(old.U, name) if old.U is not None else None
        if not (rest is was or rest.op == "hmnew" and old.has is not None and q.truth(old.has) is False):
            return name + " of others: " + show(rest)[:200]
    return True


def time_credited(c, W, D, x):
    """the time counted as looked at is the time that was credited"""
    ep, a = fld(D, "active_epoch"), fld(x, "active_epoch")
    L = as_(fld(ep, "emission_rate"), "Linear")
    durs = [payload(fld(L, "duration"), k) for k in ("Height", "Time")]
    whole = lambda t: {y for y in subterms(t) if y.op == "div" and y.a[1] in durs and y.a[0].op != "mul"}
    credited, counted = whole(fld(a, "total_earned_puvp")), whole(fld(a, "last_updated_total_earned_puvp"))
    c.ob(credited <= counted, "time-credited", W, "only whole periods are credited, all of the time is counted as looked at")


def claim(c):
    W = K + "::execute/Claim"
    k = F(as_(MSG, "Claim"), "id")
    ps = some_paths(c, K, "execute", "Claim")
    for p in ps:
        if not p.feasible():
            continue
        ds, us = p.saves("d"), p.saves("ur")
        if not c.ob(bool(ds) and bool(us) and set(p.writes()) == {"d", "ur"} and all(x.a[1] is k for x in ds) and all(x.a[1] is SENDER for x in us) and not p.removes("d") and not p.removes("ur"), "claim-frame", W, [repr(x)[:200] for x in p.effects], p):
            continue
        D, U = ds[-1].a[2], us[-1].a[2]
        all_ = terms_of(D, U) | known(p)
        try:
            old = Old(k, all_, SENDER)
        except Missing as e:
            c.ob(False, "claim", W, str(e), p)
            continue

        def check(q, ts, gs, want):
            x, u = ts
            w = rewards_ok(q, x, u, old, want, True)
            if w is not True:
                return w
            if q.truth(t_eq(want[3], I(0))) is True:
                return "claims nothing"
            if len(gs) != 1 or gs[0].mode != "never":
                return "messages %r" % ([g.msg for g in gs],)
            got = transfer(q, gs[0], fld(old.D, "denom"))
            return got is not None and got[0] is SENDER and amounts_equal(q, got[1], want[3]) or "pays %s" % show(gs[0].msg)[:300]
        judge(c, p, W, "claim", (D, U), lambda o: updated(o, old, all_), check)
        time_credited(c, W, old.D, D)


def transfer(p, g, TOK):
    """(to, amount) of a transfer of the token"""
    k = kind_of(p, TOK)
    if k == "Native":
        b = g.bank()
        if b is not None:
            x = b[1]
            if x.op == "call" and x.a[0].endswith("coins") and len(x.a) == 3 and x.a[2] is payload(TOK, "Native"):
                return b[0], x.a[1]
            x = x.a[0] if x.op == "array" and len(x.a) == 1 else UNIT
            if x.op == "call" and x.a[0].endswith("coin") and x.a[2] is payload(TOK, "Native"):
                return b[0], x.a[1]
            if x.op == "adt" and adt_fields(x).get("denom") is payload(TOK, "Native"):
                return b[0], adt_fields(x)["amount"]
    if k == "Cw20":
        w = g.wasm("Execute")
        if w is not None and w[0]["contract_addr"] is payload(TOK, "Cw20") and empty_list(w[0]["funds"]):
            x = bfields(w[1], "Transfer")
            if x is not None:
                return x["recipient"], x["amount"]
    return None


# ---- hooks: every change of power is looked at first --------------------------------------------
def hooks(c):
    reg = ld("rh", SENDER)
    for v in ("StakeChangeHook", "NftStakeChangeHook", "MemberChangedHook"):
        W = "%s::execute/%s" % (K, v)
        m = F(as_(MSG, v), "0")
        ps = some_paths(c, K, "execute", v)
        req(c, ps, "hook-authority", has("rh", SENDER), W)
        msgs_ok(c, ps, "hook", [])
        for p in ps:
            c.ob(set(p.writes()) <= {"d", "ur"}, "hook-frame", W, sorted(p.writes()), p)
        whom = lambda p: ([valid(fld(mk("elem", fld(m, "diffs")), "key"))] if v == "MemberChangedHook" else [fld(as_(m, x), "addr") for x in ("Stake", "Unstake")])
        looks = lambda ns: lambda x: is_write(ns)(x)
        for ns in ("d", "ur"):
            each_iter(c, ps, "hook-all", W + " " + ns, is_write(ns), allow=lambda p: p.truth(t_eq(mk("len", reg), I(0))) is True)
        if v == "MemberChangedHook":
            over = [fld(m, "diffs"), reg]
        else:
            over = [reg]
        n = 0
        for p, l in loop_iters(ps, is_write("ur")):
            ws = [x for x in l if x.kind in ("save", "remove")]
            if not p.feasible() or not ws:
                continue
            ok = len(ws) == 2 and all(x.kind == "save" for x in ws) and {x.a[0].a[0] for x in ws} == {"d", "ur"}
            if not c.ob(ok, "hook-frame", W, [repr(x)[:200] for x in ws], p):
                continue
            d, u = [next(x for x in ws if x.a[0].a[0] == ns) for ns in ("d", "ur")]
            ok = d.a[1] is mk("elem", reg) and u.a[1] in whom(p)
            if ok and v != "MemberChangedHook":
                ok = p.variant_of(m) == ("Stake", "Unstake")[whom(p).index(u.a[1])]
            if not c.ob(ok, "hook-whose", W, "%s, %s" % (show(d.a[1]), show(u.a[1])), p):
                continue
            n += 1
            all_ = terms_of(d.a[2], u.a[2]) | known(p)
            try:
                old = Old(d.a[1], all_, u.a[1])
            except Missing as e:
                c.ob(False, "hook-earned", W, str(e), p)
                continue
            judge(c, p, W, "hook-earned", (d.a[2], u.a[2]), lambda o: updated(o, old, all_), lambda q, ts, gs, want: rewards_ok(q, ts[0], ts[1], old, want), gs=())
            time_credited(c, W, old.D, d.a[2])
        c.floor(n, 1, "iterations of " + v)


# ---- funding ---------------------------------------------------------------------------------
class Fund:
    pass


def funded(o, old, amount):
    """what the distribution becomes when funded"""
    f = Fund()
    ep, D = old.ep, old.D
    f.hist, f.started, f.ends, f.dur = fld(D, "historical_earned_puvp"), None, None, None
    f.ear, f.last = fld(ep, "total_earned_puvp"), None
    before = fld(D, "funded_amount")
    f.amount = t_add(before, amount)
    rate = fld(ep, "emission_rate")
    f.rate = r = o.var(rate, *RATE)
    if r == "Paused":
        return f
    if r == "Immediate":
        f.bad = o(t_eq(old.total, I(0)))
        f.ear = t_add(f.ear, E.t_div(E.t_mul(amount, SCALE), old.total))
        return f
    L = as_(rate, "Linear")
    cont = o(fld(L, "continuous"))
    prev = not o(t_eq(before, I(0)))
    ends = fld(ep, "ends_at")
    exp = not is_adt(ends, "Never") and o(mk("expired", ends, BLOCK))
    dur = fld(L, "duration")
    dk = o.var(dur, "Height", "Time")
    kind = "AtHeight" if dk == "Height" else "AtTime"
    st = fld(ep, "started_at")
    if not prev or exp and not cont:
        if prev:
            x = earned(o, D, old.total)
            if x is None:
                return None
            f.hist = t_add(f.hist, x)
        f.amount = amount
        f.started = (kind, now(kind))
        f.ear = I(0)
        f.last = f.started
    else:
        k = o.var(st, *WHEN)
        if k != kind:
            return None  # cannot be
        f.started = (k, payload(st, k))
    f.dur = payload(dur, dk)
    f.per = fld(L, "amount")
    f.backfill = cont and prev and exp
    return f


def ratio(p, t, dur, funded, per):
    """t is dur * funded / per, rounded down"""
    if t.op == "fld" and t.a[0].op == "as" and t.a[0].a[1] == "Ok":
        t = t.a[0].a[0]
    if t.op == "call" and t.a[0].endswith("mul_floor") and t.a[1] is dur and t.a[2].op == "call" and t.a[2].a[0].endswith("from_ratio"):
        return t.a[2].a[2] is per and amounts_equal(p, t.a[2].a[1], funded)
    return t is E.t_div(E.t_mul(dur, funded), per)


def ends_ok(p, t, start, dur, funded, per):
    """t is the moment the funds run out, from the start on"""
    kind, s = start
    if kind_of(p, t) != kind:
        return False
    return after(p, payload(t, kind), kind, s, lambda d: ratio(p, d, dur, funded, per))


def after(p, x, kind, s, is_dur):
    """x is so long after s"""
    if kind == "AtTime":
        return x.op == "call" and x.a[0].endswith("Timestamp::plus_seconds") and x.a[1] is s and is_dur(x.a[2])
    return is_dur(t_sub(x, s))


def is_funded(q, x, old, f):
    if getattr(f, "bad", False):
        return "distributes at once to nobody"
    a, b = fld(x, "active_epoch"), old.ep
    w = kept(x, old.D, "funded_amount", "historical_earned_puvp", "started_at", "ends_at", "total_earned_puvp", "last_updated_total_earned_puvp")
    if w is not True:
        return w
    if not amounts_equal(q, fld(x, "funded_amount"), f.amount):
        return "funded %s, not %s" % (show(fld(x, "funded_amount"))[:200], show(f.amount)[:200])
    if not amounts_equal(q, fld(x, "historical_earned_puvp"), f.hist):
        return "history %s, not %s" % (show(fld(x, "historical_earned_puvp"))[:200], show(f.hist)[:200])
    if f.rate == "Linear":
        if not moment(q, fld(a, "started_at"), f.started):
            return "starts " + show(fld(a, "started_at"))[:200]
        if not ends_ok(q, fld(a, "ends_at"), f.started, f.dur, f.amount, f.per):
            return "ends " + show(fld(a, "ends_at"))[:300]
        if f.backfill:
            return True  # judged with the new end
    else:
        for n in ("started_at", "ends_at"):
            if fld(a, n) is not fld(b, n):
                return "changes " + n
    if not amounts_equal(q, fld(a, "total_earned_puvp"), f.ear):
        return "earned %s, not %s" % (show(fld(a, "total_earned_puvp"))[:300], show(f.ear)[:300])
    if f.last is None:
        if fld(a, "last_updated_total_earned_puvp") is not fld(b, "last_updated_total_earned_puvp"):
            return "changes when last looked at"
    elif not moment(q, fld(a, "last_updated_total_earned_puvp"), f.last):
        return "last looked at " + show(fld(a, "last_updated_total_earned_puvp"))[:200]
    return True


def fund_paths(c, ps, W, k, amount, who, tok):
    """k, amount: what is funded, by how much; who pays"""
    start = getattr(c, "cases", 0)
    for p in ps:
        old, x = one_save(c, p, W, "fund", k(p))
        if old is None:
            continue
        den = fld(old.D, "denom")
        c.ob(p.truth(fld(old.D, "open_funding")) is True or succeeded(p, "assert_owner", who(p)), "fund-authority", W, "", p)
        if c.ob(tok(p, den), "fund-token", W, "", p):
            fund_judge(c, p, W, x, old, amount(p, den))
    c.floor(getattr(c, "cases", 0) - start, 10, "cases of " + W)
    msgs_ok(c, ps, "fund", [])


def fund_judge(c, p, W, x, old, amt):
    judge(c, p, W, "fund", (x,), lambda o: funded(o, old, amt), lambda q, ts, gs, want: is_funded(q, ts[0], old, want), gs=(), least=0)
    # a gap in the funding of a continuous emission is filled from the new end on
    for q, (y,) in p.split(x):
        if not q.feasible():
            continue
        a = fld(y, "active_epoch")
        ep = setf(old.ep, ends_at=fld(a, "ends_at"))

        def spec_(o):
            f = funded(o, old, amt)
            if f is None or f.rate != "Linear" or not f.backfill:
                return None
            e = earned(o, old.D, old.total, ep)
            return None if e is None else (e, until(o, fld(ep, "ends_at")))

        def check(q, ts, gs, want):
            a = fld(ts[0], "active_epoch")
            return (amounts_equal(q, fld(a, "total_earned_puvp"), want[0]) and moment(q, fld(a, "last_updated_total_earned_puvp"), want[1])) or "earned %s by %s, not %s by %s" % (
                show(fld(a, "total_earned_puvp"))[:200], show(fld(a, "last_updated_total_earned_puvp"))[:200], show(want[0])[:200], want[1])
        judge(c, q, W, "fund-backfill", (y,), spec_, check, gs=(), least=0)


def paid(p, tok):
    """the amount paid in just the token"""
    for y in must_pay(payload(tok, "Native")):
        if p.variant_of(y) == "Ok":
            return payload(y, "Ok")
    return None


def fund(c):
    native = lambda p, tok: kind_of(p, tok) == "Native" and paid(p, tok) is not None
    for v, k in (("Fund", F(as_(MSG, "Fund"), "0.id")), ("FundLatest", ld("count"))):
        W = "%s::execute/%s" % (K, v)
        fund_paths(c, some_paths(c, K, "execute", v), W, lambda p: k, lambda p, tok: paid(p, tok) or UNIT, lambda p: SENDER, native)
    W = K + "::execute/Receive"
    R = F(as_(MSG, "Receive"), "0")
    ps = some_paths(c, K, "execute", "Receive")
    req(c, ps, "fund-unpaid", nonpayable, W)

    def body(p):
        for y in p.st.var:
            if y.op == "parsed" and y.a[0] is fld(R, "msg"):
                return y
        return UNIT

    def which(p):
        b = body(p)
        k = p.variant_of(b)
        return F(as_(b, "Fund"), "0.id") if k == "Fund" else ld("count") if k == "FundLatest" else UNIT
    fund_paths(c, ps, W, which, lambda p, tok: fld(R, "amount"), lambda p: valid(fld(R, "sender")), lambda p, tok: kind_of(p, tok) == "Cw20" and p.truth(t_eq(SENDER, payload(tok, "Cw20"))) is True)


def nonpayable(p):
    return any(k.op == "call" and k.a[0].endswith("nonpayable") and x == ("is", "Ok") for k, x in p.st.var.items())


# ---- the owner's operations ----------------------------------------------------------------------
def rewards_until(o, D, kind, x):
    """what is distributed in the epoch by then"""
    ep = fld(D, "active_epoch")
    rate, st = fld(ep, "emission_rate"), fld(ep, "started_at")
    r = o.var(rate, *RATE)
    if r == "Paused":
        return I(0)
    if r == "Immediate":
        return fld(D, "funded_amount")
    k = o.var(st, *WHEN)
    if k == "Never":
        return I(0)
    if k != kind:
        return None  # cannot be
    n = number(k)
    d = t_sub(n(x), n(payload(st, k))) if o(t_lt(payload(st, k), x)) else I(0)
    L = as_(rate, "Linear")
    dk = o.var(fld(L, "duration"), "Height", "Time")
    if dk != ("Height" if k == "AtHeight" else "Time"):
        return None
    return E.t_mul(fld(L, "amount"), E.t_div(d, payload(fld(L, "duration"), dk)))


def withdraw(c):
    W = K + "::execute/Withdraw"
    k = F(as_(MSG, "Withdraw"), "id")
    ps = some_paths(c, K, "execute", "Withdraw")
    req(c, ps, "withdraw-authority", is_owner, W)
    for p in ps:
        old, x = one_save(c, p, W, "withdraw", k)
        if old is None:
            continue
        D, ep = old.D, old.ep

        def spec_(o):
            if o(mk("expired", fld(ep, "ends_at"), BLOCK)):
                return "over"
            st = fld(ep, "started_at")
            kind = o.var(st, *WHEN)
            x = now(kind) if kind != "Never" else None
            d = rewards_until(o, D, kind, x)
            return None if d is None else (kind, x, d)

        def check(q, ts, gs, want):
            if want == "over":
                return "after the end"
            kind, t, d = want
            x = ts[0]
            w = kept(x, D, "ends_at", "funded_amount")
            if w is not True:
                return w
            if not moment(q, F(x, "active_epoch.ends_at"), (kind, t)):
                return "ends " + show(F(x, "active_epoch.ends_at"))[:200]
            if not amounts_equal(q, fld(x, "funded_amount"), d):
                return "leaves %s, not %s" % (show(fld(x, "funded_amount"))[:200], show(d)[:200])
            if len(gs) != 1 or gs[0].mode != "never":
                return "messages %r" % ([g.msg for g in gs],)
            got = transfer(q, gs[0], fld(D, "denom"))
            return got is not None and got[0] is fld(D, "withdraw_destination") and amounts_equal(q, got[1], t_sub(fld(D, "funded_amount"), d)) or "pays " + show(gs[0].msg)[:300]
        judge(c, p, W, "withdraw", (x,), spec_, check)


def one_save(c, p, W, rule, k, others=()):
    """(what was stored of distribution k, what is stored of it)"""
    if not p.feasible():
        return None, None
    ds = p.saves("d")
    w = {n for n in p.writes() if not n.startswith("ext:")}
    ok = w <= {"d", *others} and len(p.writes().get("d", ds)) == len(ds) == 1
    x = ds[0].a[2] if ok else None
    try:
        old = Old(k, terms_of(x) | known(p)) if ok else None
    except Missing as e:
        old = None
    ok = old is not None and ds[0].a[1] in old.ids
    c.ob(ok, rule + "-frame", W, [repr(y)[:200] for y in p.effects], p)
    return (old, x) if ok else (None, None)


def rate_ok(p, r):
    """a linear emission is of something, over some time"""
    if p.variant_of(r) != "Linear":
        return p.variant_of(r) in RATE
    L = as_(r, "Linear")
    d = fld(L, "duration")
    k = p.variant_of(d)
    return k is not None and p.truth(t_eq(fld(L, "amount"), I(0))) is False and p.truth(t_eq(payload(d, k), I(0))) is False


def update(c):
    W = K + "::execute/Update"
    M = as_(MSG, "Update")
    k = fld(M, "id")
    ps = some_paths(c, K, "execute", "Update")
    req(c, ps, "update-authority", is_owner, W)
    msgs_ok(c, ps, "update", [])
    R = fld(M, "emission_rate")
    new = payload(R, "Some")
    seen = set()
    for p in ps:
        old, x = one_save(c, p, W, "update", k, ("rh",))
        if old is None:
            continue
        D, ep = old.D, old.ep
        c.ob(p.entails(lambda q: q.variant_of(R) == "None" or q.variant_of(R) == "Some" and rate_ok(q, new)), "update-rate-valid", W, "", p)

        opts = ("vp_contract", "hook_caller", "withdraw_destination", "open_funding")
        for n in DF:
            a = fld(M, n)
            for q in cases_of(p, a) if n in opts else [p]:
                if n in ("active_epoch", "funded_amount", "historical_earned_puvp"):
                    continue
                some_ = n in opts and q.variant_of(a) == "Some"
                y = payload(a, "Some")
                want = fld(D, n) if not some_ else y if n == "open_funding" else valid(y)
                for q2, (v,) in q.split(fld(x, n)):
                    if q2.feasible():
                        c.ob(v is want or n == "open_funding" and q2.truth(v) is not None and q2.truth(v) is q2.truth(want), "update-terms", W + " " + n, show(v)[:300], q2)

        def spec_(o):
            f = Fund()
            f.rate = None
            if o.var(R, "Some", "None") == "None" or o(t_eq(fld(ep, "emission_rate"), new)):
                return f
            ear = earned(o, D, old.total)
            if ear is None:
                return None
            f.hist = t_add(fld(D, "historical_earned_puvp"), ear)
            ends, last = fld(ep, "ends_at"), fld(ep, "last_updated_total_earned_puvp")
            kind, t = until(o, ends)
            if kind == "Never":
                kind = o.var(last, *WHEN)
                t = payload(last, kind) if kind != "Never" else None
            d = rewards_until(o, D, kind, t)
            if d is None:
                return None
            f.amount = t_sub(fld(D, "funded_amount"), d)
            f.rate = o.var(new, *RATE)
            f.ear = I(0)
            f.bad = False
            if f.rate == "Immediate":
                f.bad = o(t_eq(old.total, I(0)))
                f.ear = E.t_div(E.t_mul(f.amount, SCALE), old.total)
            if f.rate == "Linear":
                L = as_(new, "Linear")
                f.dk = o.var(fld(L, "duration"), "Height", "Time")
                f.dur, f.per = payload(fld(L, "duration"), f.dk), fld(L, "amount")
            return f

        def check(q, ts, gs, f):
            amt, hist, a = ts
            if f.rate is None:
                return amt is fld(D, "funded_amount") and hist is fld(D, "historical_earned_puvp") and all(fld(a, n) is fld(ep, n) for n in EF) or "changes what is earned"
            if f.bad:
                return "distributes at once to nobody"
            for n, v, y in (("funded_amount", f.amount, amt), ("historical_earned_puvp", f.hist, hist)):
                if not amounts_equal(q, y, v):
                    return "%s is %s, not %s" % (n, show(y)[:300], show(v)[:300])
            if fld(a, "emission_rate") is not new and not (fld(a, "emission_rate").op == "adt" and fld(a, "emission_rate").a[1] == f.rate and f.rate != "Linear"):
                return "rate " + show(fld(a, "emission_rate"))[:200]
            kind = ("AtHeight" if f.dk == "Height" else "AtTime") if f.rate == "Linear" else "Never"
            start = (kind, now(kind) if kind != "Never" else None)
            for n in ("started_at", "last_updated_total_earned_puvp"):
                if not moment(q, fld(a, n), start):
                    return "%s is %s" % (n, show(fld(a, n))[:200])
            if not amounts_equal(q, fld(a, "total_earned_puvp"), f.ear):
                return "earned %s, not %s" % (show(fld(a, "total_earned_puvp"))[:300], show(f.ear)[:300])
            e = fld(a, "ends_at")
            if kind == "Never":
                return kind_of(q, e) == "Never" or "ends " + show(e)[:200]
            return ends_ok(q, e, start, f.dur, f.amount, f.per) or forever(q, e, kind) or "ends " + show(e)[:300]
        ts = fld(x, "funded_amount"), fld(x, "historical_earned_puvp"), fld(x, "active_epoch")
        for q0 in cases_of(p, fld(M, "vp_contract")):
            for q1 in cases_of(q0, fld(M, "open_funding")):
                for q, ts2 in narrow(q1, *ts):
                    q2, sig = forget(q, lambda y: y.op == "fld" and y.a[0] is M and y.a[1] in opts or y.op in ("ld", "has") and y.a[0] == "rh" or y.op == "ifilter")
                    if (ts2, sig) not in seen:
                        seen.add((ts2, sig))
                        judge(c, q2, W, "update", ts2, spec_, check, gs=())
        caller = fld(M, "hook_caller")
        for q in cases_of(p, caller):
            hook = valid(payload(caller, "Some"))
            if q.variant_of(caller) == "None":
                c.ob("rh" not in q.writes(), "update-hooks", W, "", q)
            else:
                same_ = q.truth(t_eq(hook, fld(D, "hook_caller"))) is True
                w = [x for x in q.effects if x.kind in ("save", "remove") and x.a[0].a[0] == "rh"]
                ok = same_ and not w or (len(w) == 2 and w[0].a[1] is fld(D, "hook_caller") and unlisted(w[0], k) and w[1].a[1] is hook and listed(q, w[1], k))
                c.ob(ok, "update-hooks", W, [repr(y)[:300] for y in w], q)


def cases_of(p, t):
    for v in (True, False):
        for q in p.assume(t_isv(t, "Some"), v):
            if q.feasible():
                yield q


def forever(p, e, kind):
    """the end of time, when the sum has no other"""
    t = payload(e, kind) if kind_of(p, e) == kind else UNIT
    top = t is I(2 ** 64 - 1) or t.op == "fromsecs" and t.a[0] is I(2 ** 64 - 1)
    return top and any(k.op == "overflow" and v for k, v in lits_of(p))


def listed(p, w, k):
    """the caller's list gets the distribution"""
    if w.kind != "save":
        return False
    t, l = w.a[2], ld("rh", w.a[1])
    if t.op == "array":
        return len(t.a) == 1 and t.a[0] is k and p.truth(has("rh", w.a[1])) is False
    return t.op == "vpush" and is_ld(t.a[0], "rh", w.a[1]) and t.a[1] is k


def unlisted(w, k):
    """the caller's list loses the distribution, and only that"""
    if w.kind == "remove":
        return True
    t = w.a[2]
    if t.op != "ifilter":
        return t.op == "array" and not t.a
    l, cond = t.a
    return (is_ld(l, "rh", w.a[1]) or l.op == "array" and not l.a) and cond is t_not(t_eq(k, mk("elem", l)))


def unlisted_last(c, ps, W, k):
    """it is removed only when it was the only one"""
    for p in ps:
        for x in p.removes("rh"):
            l = [y for y in known(p) if y.op == "len" and y.a[0].op == "ifilter" and is_ld(y.a[0].a[0], "rh", x.a[1])]
            none = p.truth(has("rh", x.a[1])) is False
            c.ob(none or p.entails(lambda q: q.truth(has("rh", x.a[1])) is False or any(q.truth(t_eq(y, I(0))) is True and y.a[0].a[1] is t_not(t_eq(k, mk("elem", y.a[0].a[0]))) for y in l)), "update-hooks", W + " (removal)", [show(y)[:200] for y in l], p)


def create(c):
    W = K + "::execute/Create"
    M = F(as_(MSG, "Create"), "0")
    ps = some_paths(c, K, "execute", "Create")
    req(c, ps, "create-authority", is_owner, W)
    msgs_ok(c, ps, "create", [])
    id_ = t_add(ld("count"), I(1))
    for p in ps:
        if not p.feasible():
            continue
        w = {n for n in p.writes() if not n.startswith("ext:")}
        ds = p.saves("d")
        ok = w == {"d", "rh", "count"} and ds and all(x.a[1] is id_ for x in ds) and [x.a[2] for x in p.saves("count")] == [id_]
        if not c.ob(bool(ok), "create-frame", W, [repr(y)[:200] for y in p.effects], p):
            continue
        c.ob(rate_ok(p, fld(M, "emission_rate")) or p.entails(lambda q: rate_ok(q, fld(M, "emission_rate"))), "create-rate-valid", W, "", p)
        ws = [x for x in p.effects if x.kind in ("save", "remove") and x.a[0].a[0] == "rh"]
        c.ob(len(ws) == 1 and ws[0].a[1] is valid(fld(M, "hook_caller")) and listed(p, ws[0], id_), "create-hooks", W, [repr(y)[:200] for y in ws], p)
        for q, (D,) in p.split(ds[0].a[2]):
            if not q.feasible():
                continue
            ep = fld(D, "active_epoch")
            wd, of = fld(M, "withdraw_destination"), fld(M, "open_funding")
            zero = [fld(D, "funded_amount"), fld(D, "historical_earned_puvp"), fld(ep, "total_earned_puvp")]
            never = [fld(ep, n) for n in ("started_at", "ends_at", "last_updated_total_earned_puvp")]
            den = fld(D, "denom")
            c.ob(fld(D, "id") is id_ and all(x is I(0) for x in zero) and all(is_adt(x, "Never") for x in never), "create-empty", W, show(D)[:600], q)
            c.ob(fld(D, "vp_contract") is valid(fld(M, "vp_contract")) and fld(D, "hook_caller") is valid(fld(M, "hook_caller")) and any(x.op == "query" and x.a[0] is fld(D, "vp_contract") and q.truth(mk("ok", x)) is True for x in known(q)), "create-terms", W, show(D)[:600], q)
            c.ob(fld(ep, "emission_rate") is fld(M, "emission_rate"), "create-terms", W + " rate", show(ep)[:300], q)
            c.ob(any(y.op == "call" and y.a[0].endswith("into_checked") and fld(M, "denom") in y.a for y in subterms(den)), "create-terms", W + " denom", show(den)[:300], q)
            for q2 in cases_of(q, wd):
                c.ob(fld(D, "withdraw_destination") is (valid(payload(wd, "Some")) if q2.variant_of(wd) == "Some" else SENDER), "create-terms", W + " withdraw destination", show(fld(D, "withdraw_destination"))[:200], q2)
            for q2 in cases_of(q, of):
                o = fld(D, "open_funding")
                y = payload(of, "Some")
                c.ob(o is y or q2.truth(o) is not None and q2.truth(o) is q2.truth(y) if q2.variant_of(of) == "Some" else q2.truth(o) is True, "create-terms", W + " open funding", show(o)[:200], q2)
            if len(ds) == 1:
                c.ob(q.truth(t_eq(mk("len", FUNDS), I(0))) is True, "create-funded", W, "funds are not counted", q)
                continue
            amt = paid(q, den)
            if c.ob(len(ds) == 2 and kind_of(q, den) == "Native" and amt is not None, "create-funded", W, "", q):
                x = ds[1].a[2]
                old = Old(id_, terms_of(x) | known(q), d=D)
                fund_judge(c, q, W, x, old, amt)


def ids_kept(c):
    """a distribution is stored under its own id"""
    for v in variants(K, "execute"):
        for p in okpaths(K, "execute", v):
            for x in p.saves("d"):
                for q, (t,) in p.split(x.a[2]):
                    if q.feasible():
                        i = fld(t, "id")
                        c.ob(i is x.a[1] or i.op == "fld" and i.a[1] == "id" and (is_ld(i.a[0], "d", x.a[1]) or x.a[1] is i), "own-id", "%s::execute/%s" % (K, v), show(i)[:200], q)


# ---- queries -----------------------------------------------------------------------------------
def queries(c):
    answer_is(c, "query", K, "Distribution", [lambda p, v: v is ld("d", F(as_(MSG, "Distribution"), "id"))])


OPS = ["Claim", "Create", "Fund", "FundLatest", "MemberChangedHook", "NftStakeChangeHook", "Receive", "StakeChangeHook", "Update", "UpdateOwnership", "Withdraw"]


def run(c):
    claim(c)
    hooks(c)
    fund(c)
    withdraw(c)
    update(c)
    unlisted_last(c, okpaths(K, "execute", "Update"), K + "::execute/Update", F(as_(MSG, "Update"), "id"))
    create(c)
    ids_kept(c)
    queries(c)
    ownership(c, K)
    c.ob(sorted(variants(K, "execute")) == OPS, "operations", K + "::execute", variants(K, "execute"))
