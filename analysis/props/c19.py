"""C19 vesting.  The recipient is paid what has vested, less what was paid or slashed before; the rest is
the owner's only by cancelling; each side stakes, withdraws and settles only what is its own."""
from lib import *
from props.c12 import ownership

K = "cw_vesting"
V = ld("vesting")
ST, TOK, WHO = fld(V, "status"), fld(V, "denom"), fld(V, "recipient")
CLAIMED, SLASHED = fld(V, "claimed"), fld(V, "slashed")
TOTAL = fld(mk("call", "wynd_utils::Curve::range", fld(V, "vested")), "1")
STATES = ("Unfunded", "Funded", "Canceled")
OWED = F(as_(ST, "Canceled"), "owner_withdrawable")


def vested(t):
    """what the schedule gives at t (by the seconds since the start, none before it)"""
    return mk("call", "wynd_utils::Curve::value", fld(V, "vested"), mk("satsub", mk("secs", t), mk("secs", fld(V, "start_time"))))


def is_none(t):
    return t.op == "adt" and t.a[1] == "None"


def latest(t, ns, k, sec):
    """t iterates the recordings of ns[k] at or before `sec`, latest first"""
    if t.op != "iter" or t.a[0] != "range" or t.a[1].__class__ is not T or t.a[1].op != "iter":
        return False
    b, lo, hi, o = t.a[1:5]
    return (b.a[0] == "prefix" and b.a[1] == ns and b.a[3] is k and is_none(lo) and o.op == "adt" and o.a[1] == "Descending" and hi.op == "adt" and hi.a[1] == "Some"
            and (lambda x: x.op == "call" and x.a[0].endswith("Bound::inclusive") and x.a[1] is sec)(payload(hi, "Some")))


def recorded(o, ns, k, sec):
    """what was last recorded there by then; zero if nothing was"""
    its = {y for z, _ in lits_of(o.p) for y in subterms(z) if latest(y, ns, k, sec)}
    if len(its) != 1:
        raise Missing("%d lookups of %s" % (len(its), ns))
    it = its.pop()
    if o(t_eq(mk("len", it), I(0))):
        return I(0)
    return fld(payload(mk("elem", it), "Ok"), "1")


class Missing(Exception):
    pass


def staked(o, t):
    return recorded(o, "staked", UNIT, mk("secs", t))


def liquid(o, t, st):
    """the tokens at hand"""
    if st == "Unfunded":
        return I(0)
    if st == "Funded":
        return t_sub(t_sub(t_sub(TOTAL, CLAIMED), staked(o, t)), SLASHED)
    return t_sub(t_add(OWED, t_sub(TOTAL, CLAIMED)), staked(o, t))


def due(o, t):
    """what has vested and was neither paid nor slashed"""
    return less(o, t_sub(vested(t), CLAIMED), SLASHED)


def distributable(o, t):
    st = o.var(ST, *STATES)
    return least(o, liquid(o, t, st), due(o, t))


def transfer(p, g):
    """(to, amount) of a transfer of the vesting's tokens"""
    if g.mode != "never":
        return None
    k = kind_of(p, TOK)
    if k == "Native":
        b = g.bank()
        if b is not None and b[1].op == "array" and len(b[1].a) == 1:
            d = adt_fields(b[1].a[0])
            if d.get("denom") is payload(TOK, "Native"):
                return b[0], d["amount"]
    if k == "Cw20":
        w = g.wasm("Execute")
        if w is not None and w[0]["contract_addr"] is payload(TOK, "Cw20") and empty_list(w[0]["funds"]):
            x = bfields(w[1], "Transfer")
            if x is not None:
                return x["recipient"], x["amount"]
    return None


def one_save(c, p, W, rule, others=()):
    s = p.saves("vesting")
    ok = len(s) == 1 and {n for n in p.writes() if not n.startswith("ext:cw_ownable::")} <= {"vesting"} | set(others)
    c.ob(ok, rule + "-frame", W, [repr(x)[:200] for x in p.effects], p)
    return s[0].a[2] if ok else None


def changed(t, **kw):
    """t is the vest with just these fields changed: [(name, new value)]"""
    names = ("vested", "start_time", "status", "recipient", "denom", "claimed", "slashed", "title", "description")
    return all(n in kw or fld(t, n) is fld(V, n) for n in names)


def cases(p, t, gs_of):
    """[(P, saved, [message])] with conditional values and minima resolved"""
    for q, gs in msg_cases(p):
        for q2, (x,) in q.split(t):
            if q2.feasible():
                yield q2, x, gs


def judge(c, p, W, rule, t, spec, check):
    """check(q, saved, messages, result) in every case of what the operation does and of the rule"""
    n, ok = 0, True
    try:
        for q, x, gs in cases(p, t, None):
            ms = [g.msg for g in gs]
            for q0, _ in outcomes(q, spec):
                for q1 in settle(q0):
                    for q2, r in resolve(q1, x, *ms):
                        for q3, want in outcomes(q2, spec):
                            n += 1
                            w = check(q3, r[0], [G(m, g.mode, g.id, g.each, g.maybe, g.conds) for m, g in zip(r[1:], gs)], want)
                            if w is not True and not impossible(q3):
                                if ok:
                                    c.ob(False, rule, W, w, q3)
                                ok = False
    except Missing as e:
        ok = c.ob(False, rule, W, "not looked up: %s" % e, p)
    if ok:
        c.ob(n > 0, rule, W, "%d cases" % n)
    c.cases = getattr(c, "cases", 0) + n


def single_payment(q, gs, to, amount):
    if len(gs) != 1:
        return "messages: %r" % ([g.msg for g in gs],)
    x = transfer(q, gs[0])
    return x is not None and x[0] is to and amounts_equal(q, x[1], amount) or "pays %r, not %s" % (x, show(amount)[:200])


def asked(o, v, amount):
    """the amount asked for, or all"""
    a = F(as_(MSG, v), "amount")
    return payload(a, "Some") if o.var(a, "Some", "None") == "Some" else amount


def distribute(c):
    W = K + "::execute/Distribute"
    for p in some_paths(c, K, "execute", "Distribute"):
        t = one_save(c, p, W, "distribute")
        if t is None:
            continue

        def rule(o):
            d = distributable(o, TIME)
            r = asked(o, "Distribute", d)
            return r, not o(t_lt(d, r)) and not o(t_eq(r, I(0)))

        def check(q, x, gs, want):
            r, allowed = want
            if not allowed:
                return "pays more than may be distributed, or nothing"
            if not (changed(x, claimed=1) and amounts_equal(q, fld(x, "claimed"), t_add(CLAIMED, r))):
                return "records " + show(x)[:400]
            return single_payment(q, gs, WHO, r)
        judge(c, p, W, "distribute", t, rule, check)


def cancel(c):
    W = K + "::execute/Cancel"
    ps = some_paths(c, K, "execute", "Cancel")
    req(c, ps, "cancel-authority", is_owner, W)
    for p in ps:
        t = one_save(c, p, W, "cancel")
        if t is None:
            continue

        def rule(o):
            st = o.var(ST, *STATES)
            if st == "Canceled":
                return None
            liq = liquid(o, TIME, st)
            to_vestee = least(o, due(o, TIME), liq)
            to_owner = t_sub(liq, to_vestee)
            claimed = t_add(CLAIMED, to_vestee)
            owed = t_sub(staked(o, TIME), less(o, t_sub(vested(TIME), claimed), SLASHED))
            return claimed, owed, to_owner, to_vestee, [not o(t_eq(x, I(0))) for x in (to_owner, to_vestee)]

        def check(q, x, gs, want):
            if want is None:
                return "cancels twice"
            claimed, owed, to_owner, to_vestee, some_ = want
            st, cur = fld(x, "status"), fld(x, "vested")
            if not (changed(x, claimed=1, status=1, vested=1) and amounts_equal(q, fld(x, "claimed"), claimed) and st.op == "adt" and st.a[1] == "Canceled" and amounts_equal(q, adt_fields(st)["owner_withdrawable"], owed)):
                return "records " + show(x)[:600]
            if not (cur.op == "adt" and cur.a[1] == "Constant" and adt_fields(cur)["y"] is vested(TIME)):
                return "keeps vesting: " + show(cur)[:200]
            me = lambda x: x is SENDER or the_owner(x)  # the same, on a path that asserted it
            rest = [g for g in gs if not withdraw_address(g, me)]
            if len(rest) != len(gs) - 1:
                return "staking rewards are not the owner's: %s" % [show(adt_fields(strip_msg(g.msg)).get("address", UNIT)) for g in gs]
            due_ = [(to, a) for (to, a), s in zip(((SENDER, to_owner), (WHO, to_vestee)), some_) if s]
            got = [transfer(q, g) for g in rest]
            if len(got) != len(due_) or None in got:
                return "pays %r" % got
            for to, a in due_:
                m = [x for x in got if (x[0] is to or to is SENDER and me(x[0])) and amounts_equal(q, x[1], a)]
                if not m:
                    return "owes %s to %s" % (show(a)[:200], show(to))
                got.remove(m[0])
            return True
        judge(c, p, W, "cancel", t, rule, check)


def withdraw_address(g, to):
    m = g.msg
    m = strip_msg(m)
    to = to if callable(to) else lambda x, y=to: x is y
    return g.mode == "never" and m.op == "adt" and m.a[1] == "SetWithdrawAddress" and to(adt_fields(m)["address"])


def the_owner(x):
    """the stored owner"""
    own = {y for y in subterms(x) if y.op == "fld" and y.a[1] == "owner" and y.a[0].op == "fld" and y.a[0].a[0].op == "as" and y.a[0].a[0].a[0].op == "call" and y.a[0].a[0].a[0].a[0].endswith("get_ownership")}
    return any(x is payload(y, "Some") for y in own)


def withdraw(c):
    W = K + "::execute/WithdrawCanceledPayment"
    ps = some_paths(c, K, "execute", "WithdrawCanceledPayment")
    for p in ps:
        own = [x for x, v in p.st.var.items() if x.op == "fld" and x.a[1] == "owner" and v == ("is", "Some") and any(y.op == "call" and y.a[0].endswith("get_ownership") for y in subterms(x))]
        if not c.ob(len(own) == 1, "withdraw-to-owner", W, [show(x) for x in own], p):
            continue
        owner = payload(own[0], "Some")
        t = one_save(c, p, W, "withdraw")
        if t is None:
            continue

        def rule(o):
            if o.var(ST, *STATES) != "Canceled":
                return None
            d = least(o, liquid(o, TIME, "Canceled"), OWED)
            r = asked(o, "WithdrawCanceledPayment", d)
            return r, not o(t_lt(d, r)) and not o(t_eq(r, I(0)))

        def check(q, x, gs, want):
            if want is None or not want[1]:
                return "withdraws what is not the owner's, or nothing"
            st = fld(x, "status")
            if not (changed(x, status=1) and st.op == "adt" and st.a[1] == "Canceled" and amounts_equal(q, adt_fields(st)["owner_withdrawable"], t_sub(OWED, want[0]))):
                return "records " + show(x)[:400]
            return single_payment(q, gs, owner, want[0])
        judge(c, p, W, "withdraw", t, rule, check)


def run(c):
    distribute(c)
    cancel(c)
    withdraw(c)


def staking(c):
    """staking is the recipient's, while funded, of the vesting's own denom; anyone may unbond a cancelled one"""
    bonded = lambda x: x.op == "call" and x.a[0].endswith("query_bonded_denom")
    books = {"staked", "validator", "cardinality"}
    for v in ("Delegate", "Redelegate", "Undelegate"):
        W = "%s::execute/%s" % (K, v)
        ps = some_paths(c, K, "execute", v)
        M = as_(MSG, v)
        req(c, ps, "stake-unpaid", lambda p: any(k.op == "call" and k.a[0].endswith("nonpayable") and x == ("is", "Ok") for k, x in p.st.var.items()), W)

        def rule(o):
            st = o.var(ST, *STATES)
            if st == "Funded":
                return o(t_eq(SENDER, WHO))
            return st == "Canceled" and v == "Undelegate"
        holds(c, ps, rule, "stake-authority", W)
        for p in ps:
            if not p.feasible():
                continue
            c.ob(set(p.writes()) <= books, "stake-frame", W, sorted(p.writes()), p)
            for q, gs in msg_cases(p):
                ok = len(gs) == 1 and gs[0].mode == "never"
                m = strip_msg(gs[0].msg) if ok else None
                ok = ok and m.op == "adt" and m.a[1] == v
                if ok:
                    d = adt_fields(m)
                    a = adt_fields(d["amount"])
                    ok = bonded(a["denom"]) and a["amount"] is fld(M, "amount") and all(d[n] is fld(M, n) for n in d if n != "amount")
                c.ob(ok, "stake-message", W, [repr(g)[:300] for g in gs], q)
            if v != "Undelegate":
                c.ob(p.variant_of(TOK) == "Native" and any(bonded(x) and p.truth(t_eq(x, payload(TOK, "Native"))) is True for x in {y for k, _ in lits_of(p) for y in subterms(k)}), "stake-denom", W, "", p)
    W = K + "::execute/Redelegate"

    def free(p):
        """no more than may be moved at once"""
        for k, x in lits_of(p):
            if k.op == "lt" and x is False and k.a[1] is F(as_(MSG, "Redelegate"), "amount") and k.a[0].op == "fld" and any(y.op == "fld" and y.a[1] == "can_redelegate" for y in subterms(k.a[0])):
                q = [y for y in subterms(k.a[0]) if y.op == "adt" and y.a[1] == "Delegation"]
                return any(adt_fields(y).get("validator") is F(as_(MSG, "Redelegate"), "src_validator") and adt_fields(y).get("delegator") is SELF for y in q)
        return False
    req(c, some_paths(c, K, "execute", "Redelegate"), "redelegate-now", free, W)
    # where rewards go
    W = K + "::execute/SetWithdrawAddress"
    to = F(as_(MSG, "SetWithdrawAddress"), "address")
    ps = some_paths(c, K, "execute", "SetWithdrawAddress")
    for p in ps:
        if p.feasible():
            for q, r in outcomes(p, lambda o: o.var(ST, *STATES)):
                c.ob(is_owner(q) if r == "Canceled" else q.truth(t_eq(SENDER, WHO)) is True, "rewards-authority", W, "status " + r, q)
            c.ob(not {n for n in p.writes() if not n.startswith("ext:cw_ownable")}, "rewards-frame", W, sorted(p.writes()), p)
            for q, gs in msg_cases(p):
                c.ob(len(gs) == 1 and withdraw_address(gs[0], to), "rewards-message", W, [repr(g)[:300] for g in gs], q)
    req(c, ps, "rewards-not-itself", t_not(t_eq(to, SELF)), W)
    W = K + "::execute/WithdrawDelegatorReward"
    for p in some_paths(c, K, "execute", "WithdrawDelegatorReward"):
        c.ob(not p.writes(), "rewards-frame", W, sorted(p.writes()), p)
        for q, gs in msg_cases(p):
            m = strip_msg(gs[0].msg) if len(gs) == 1 else UNIT
            c.ob(m.op == "adt" and m.a[1] == "WithdrawDelegatorReward" and adt_fields(m)["validator"] is F(as_(MSG, "WithdrawDelegatorReward"), "validator"), "rewards-message", W, show(m)[:300], q)


def slash(c):
    W = K + "::execute/RegisterSlash"
    M = as_(MSG, "RegisterSlash")
    a = fld(M, "amount")
    ps = some_paths(c, K, "execute", "RegisterSlash")
    req(c, ps, "slash-authority", is_owner, W)
    req(c, ps, "slash-past", t_not(t_lt(TIME, fld(M, "time"))), W)
    req(c, ps, "slash-some", t_not(t_eq(a, I(0))), W)
    for p in ps:
        t = one_save(c, p, W, "slash", ("staked", "validator", "cardinality"))
        if t is None:
            continue

        def rule(o):
            st = o.var(ST, *STATES)
            if st == "Canceled":
                return st, o(t_lt(OWED, a))
            return st, None

        def check(q, x, gs, want):
            st, over = want
            if gs:
                return "sends messages"
            if st == "Unfunded":
                return "slashes what is not there"
            if st == "Funded":
                return changed(x, slashed=1) and amounts_equal(q, fld(x, "slashed"), t_add(SLASHED, a)) or "records " + show(x)[:300]
            s = fld(x, "status")
            return (changed(x, slashed=1, status=1) and s.op == "adt" and s.a[1] == "Canceled" and amounts_equal(q, adt_fields(s)["owner_withdrawable"], I(0) if over else t_sub(OWED, a))
                    and amounts_equal(q, fld(x, "slashed"), t_add(SLASHED, t_sub(a, OWED)) if over else SLASHED)) or "records " + show(x)[:300]
        judge(c, p, W, "slash", t, rule, check)


def funding(c):
    W = K + "::execute/Receive"
    R = F(as_(MSG, "Receive"), "0")
    ps = some_paths(c, K, "execute", "Receive")
    req(c, ps, "fund-exact", t_eq(TOTAL, fld(R, "amount")), W)
    req(c, ps, "fund-token", lambda p: kind_of(p, TOK) == "Cw20" and p.truth(t_eq(SENDER, payload(TOK, "Cw20"))) is True, W)
    req(c, ps, "fund-once", lambda p: p.variant_of(ST) == "Unfunded", W)
    for p in ps:
        t = one_save(c, p, W, "fund")
        c.ob(t is not None and changed(t, status=1) and is_adt(fld(t, "status"), "Funded"), "fund-recorded", W, show(t)[:300] if t is not None else "", p)
    msgs_ok(c, ps, "fund", [])


def initial(c):
    W = K + "::instantiate"
    ps = some_paths(c, K, "instantiate")
    total, dur, sch = F(MSG, "total"), F(MSG, "vesting_duration_seconds"), F(MSG, "schedule")
    req(c, ps, "initial-some", t_not(t_eq(total, I(0))), W)
    req(c, ps, "initial-lasts", t_not(t_eq(dur, I(0))), W)
    req(c, ps, "initial-owner", lambda p: succeeded(p, "initialize_owner", F(MSG, "owner")), W)
    for p in ps:
        if not p.feasible():
            continue
        s = p.saves("vesting")
        c.ob(bool(s) and {n for n in p.writes() if not n.startswith("ext:")} == {"vesting", "ubs"}, "initial-frame", W, sorted(p.writes()), p)
        c.ob([x.a[2] for x in p.saves("ubs")] == [F(MSG, "unbonding_duration_seconds")], "initial-unbonding", W, "", p)
        for q, (x,) in p.split(s[-1].a[2]):
            if not q.feasible():
                continue
            for q, (start, den) in q.split(fld(x, "start_time"), fld(x, "denom")):
                if not q.feasible():
                    continue
                st = F(MSG, "start_time")
                k = q.variant_of(st)
                c.ob(start is (payload(st, "Some") if k == "Some" else TIME if k == "None" else None), "initial-start", W, show(start), q)
                c.ob(q.truth(t_lt(TIME, mk("call", "cosmwasm_std::Timestamp::plus_seconds", start, dur))) is True, "initial-not-over", W, show(start), q)
                c.ob(fld(x, "claimed") is I(0) and fld(x, "slashed") is I(0), "initial-zero", W, show(x)[:300], q)
                c.ob(fld(x, "recipient") is valid(F(MSG, "recipient")) and fld(x, "title") is F(MSG, "title") and fld(x, "description") is F(MSG, "description"), "initial-terms", W, show(x)[:300], q)
                src = F(MSG, "denom")
                kd = kind_of(q, den)
                c.ob(kd is not None and q.variant_of(src) == kd and payload(den, kd) is (payload(src, "Native") if kd == "Native" else valid(payload(src, "Cw20"))), "initial-denom", W, show(den)[:200], q)
                fund = fld(x, "status")
                if kd == "Native":
                    paid = any(q.variant_of(y) == "Ok" and q.truth(t_eq(total, payload(y, "Ok"))) is True for d in (payload(den, kd), payload(src, kd)) for y in must_pay(d)) or any(
                        q.variant_of(y) == "Ok" and is_total(q, x, payload(y, "Ok")) for d in (payload(den, kd), payload(src, kd)) for y in must_pay(d))
                    c.ob(paid and is_adt(fund, "Funded"), "initial-funded", W, show(fund), q)
                else:
                    c.ob(is_adt(fund, "Unfunded") and any(y.op == "call" and y.a[0].endswith("nonpayable") and z == ("is", "Ok") for y, z in q.st.var.items()), "initial-unfunded", W, show(fund), q)
                curve(c, q, fld(x, "vested"), sch, dur, total, W)
                for q2, gs in msg_cases(q):
                    c.ob(all(withdraw_address(g, valid(F(MSG, "recipient"))) for g in gs) and len(gs) <= 1, "initial-rewards", W, [repr(g)[:300] for g in gs], q2)
                    bonded = [y for y in {y for z, _ in lits_of(q2) for y in subterms(z)} if y.op == "call" and y.a[0].endswith("query_bonded_denom")]
                    own = kd == "Native" and any(q2.truth(t_eq(y, payload(den, kd))) is True for y in bonded)
                    c.ob(bool(gs) == own, "initial-rewards", W, "staking rewards go to the recipient exactly when the vesting is of the staking denom", q2)


def is_total(q, x, paid):
    """paid equals the end of the stored curve"""
    ends = [y for k, v in lits_of(q) if v and k.op == "eq" and paid in k.a for y in k.a
            if y.op == "fld" and y.a[1] == "1" and y.a[0].op == "call" and y.a[0].a[0].endswith("Curve::range")]
    return any(all(a is b for r, (a, b) in q.split(y.a[0].a[1], fld(x, "vested")) if r.feasible()) for y in ends)


def curve(c, p, t, sch, dur, total, W):
    """the schedule asked for, rising from nothing to the total"""
    for q, (x,) in p.split(t):
        if not q.feasible():
            continue
        for q in settle(q):
            k = q.variant_of(sch)
            if k == "SaturatingLinear":
                ok = x.op == "call" and x.a[0].endswith("saturating_linear") and x.a[1] is mk("tuple", I(0), I(0)) and x.a[2] is mk("tuple", dur, total)
            elif k == "PiecewiseLinear":
                ok = x.op == "adt" and x.a[1] == "PiecewiseLinear" and fld(payload(x, "PiecewiseLinear"), "steps") is payload(sch, "PiecewiseLinear")
                ok = ok and q.truth(t_lt(mk("len", payload(sch, "PiecewiseLinear")), I(2))) is False
            else:
                ok = False
            c.ob(ok, "initial-schedule", W, show(x)[:300], q)
            rng = lambda r: any(v and y.op == "eq" and mk("tuple", I(0), total) in y.a and any(z.op == "call" and z.a[0].endswith("Curve::range") and z.a[1] is x for z in y.a) for y, v in lits_of(r))
            mono = lambda r: any(y.op == "call" and y.a[0].endswith("validate_monotonic_increasing") and y.a[1] is x and v == ("is", "Ok") for y, v in r.st.var.items())
            c.ob(q.entails(rng), "initial-range", W, show(x)[:300], q)
            c.ob(q.entails(mono), "initial-rising", W, show(x)[:300], q)


def owner_kept(c):
    ownership(c, K)
    W = K + "::execute/UpdateOwnership"
    act = F(as_(MSG, "UpdateOwnership"), "0")

    def kept(o):
        """the owner of something to withdraw stays"""
        if o.var(ST, *STATES) != "Canceled" or o(t_eq(OWED, I(0))):
            return True
        return not o(t_isv(act, "RenounceOwnership")) if False else not renounces(o, act)
    holds(c, some_paths(c, K, "execute", "UpdateOwnership"), kept, "owner-kept", W)


def renounces(o, act):
    for k, v in lits_of(o.p):
        if k.op == "eq" and act in k.a and any(is_adt(x, "RenounceOwnership") for x in k.a):
            return v
    return o(t_isv(act, "RenounceOwnership", "cw_ownable::Action"))


def queries(c):
    when = lambda p, v: payload(F(as_(MSG, v), "t"), "Some") if p.variant_of(F(as_(MSG, v), "t")) == "Some" else TIME
    answer_is(c, "query", K, "Info", [lambda p, v: v is V])
    answer_is(c, "query", K, "TotalToVest", [lambda p, v: v is TOTAL])
    answer_is(c, "query", K, "Vested", [lambda p, v: v is vested(when(p, "Vested"))])
    n, bad = 0, None
    for p, v in answers(K, "Distributable"):
        for q0, t in outcomes(p, lambda o: payload(F(as_(MSG, "Distributable"), "t"), "Some") if o.var(F(as_(MSG, "Distributable"), "t"), "Some", "None") == "Some" else TIME):
            try:
                for q1, x in live(q0, v):
                    for q2, _ in outcomes(q1, lambda o: distributable(o, t)):
                        for q3 in settle(q2):
                            for q4, r in resolve(q3, x):
                                for q5, want in outcomes(q4, lambda o: distributable(o, t)):
                                    n += 1
                                    if not amounts_equal(q5, r[0], want) and not impossible(q5):
                                        bad = bad or (q5, "%s, not %s" % (show(r[0])[:300], show(want)[:300]))
            except Missing as e:
                bad = bad or (q0, str(e))
    c.ob(n > 0 and bad is None, "query", K + "::query/Distributable", bad[1] if bad else "%d cases" % n, bad[0] if bad else None)


OPS = ["Cancel", "Delegate", "Distribute", "Receive", "Redelegate", "RegisterSlash", "SetWithdrawAddress", "Undelegate", "UpdateOwnership", "WithdrawCanceledPayment", "WithdrawDelegatorReward"]


def run(c):
    distribute(c)
    cancel(c)
    withdraw(c)
    staking(c)
    slash(c)
    funding(c)
    initial(c)
    owner_kept(c)
    queries(c)
    c.ob(sorted(variants(K, "execute")) == OPS, "operations", K + "::execute", variants(K, "execute"))
