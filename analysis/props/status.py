"""The decision procedures of proposals, as specifications over literals."""
from lib import *

PF = I(10 ** 9)
ONE = mk("call", "cosmwasm_std::Decimal::one")


def lcall(name, *a):
    return mk("call", name, *a)


def scaled(total, pct):
    return E.t_div(E.t_mul(E.t_mul(PF, total), mk("call", "cosmwasm_std::Decimal::atomics", pct)),
                   mk("call", "cosmwasm_std::Uint256::pow", I(10), mk("call", "cosmwasm_std::Decimal::decimal_places", pct)))


def passes(o, votes, options, pct):
    """votes reach the required share of options, rounding in favour of the exact share"""
    if o(t_eq(options, I(0))):
        return False
    if o.var(pct, "Majority", "Percent") == "Majority":
        return o(t_lt(options, E.t_mul(votes, I(2))))
    return not o(t_lt(E.t_mul(PF, votes), scaled(options, F(as_(pct, "Percent"), "0"))))


def fails(o, no, options, pct):
    if o(t_eq(options, I(0))):
        return True
    if o.var(pct, "Majority", "Percent") == "Majority":
        return not o(t_lt(E.t_mul(no, I(2)), options))
    q = F(as_(pct, "Percent"), "0")
    return o(t_lt(scaled(options, t_sub(ONE, q)), E.t_mul(PF, no)))


def expired(e):
    return mk("expired", e, BLOCK)


FULL = mk("adt", "dao_voting::threshold::PercentageThreshold", "Percent", ("0",), mk("call", "cosmwasm_std::Decimal::one"))


def total(v):
    return t_add(t_add(fld(v, "yes"), fld(v, "no")), fld(v, "abstain"))


def closed_to_revotes(o, pr):
    """while ballots can still change nothing is decided"""
    return not o(fld(pr, "allow_revoting")) or o(expired(fld(pr, "expiration")))


def single_passed(o, pr):
    v, tot, th = fld(pr, "votes"), fld(pr, "total_power"), fld(pr, "threshold")
    if not closed_to_revotes(o, pr):
        return False
    mn = fld(pr, "min_voting_period")
    if o(t_isv(mn, "Some", OPT)) and not o(expired(payload(mn, "Some"))):
        return False
    yes, ab = fld(v, "yes"), fld(v, "abstain")
    k = o.var(th, "AbsolutePercentage", "ThresholdQuorum", "AbsoluteCount")
    if k == "AbsoluteCount":
        return not o(t_lt(yes, F(as_(th, k), "threshold")))
    if k == "AbsolutePercentage":
        return passes(o, yes, t_sub(tot, ab), F(as_(th, k), "percentage"))
    q = F(as_(th, k), "quorum")
    if not passes(o, total(v), tot, q):
        return False
    base = total(v) if o(expired(fld(pr, "expiration"))) else tot
    return passes(o, yes, t_sub(base, ab), F(as_(th, k), "threshold"))


def no_wins(o, no, options, pct):
    if o(t_eq(pct, FULL)):
        return o(t_eq(options, I(0))) or not o(t_eq(no, I(0)))
    return fails(o, no, options, pct)


def single_rejected(o, pr):
    v, tot, th = fld(pr, "votes"), fld(pr, "total_power"), fld(pr, "threshold")
    if not closed_to_revotes(o, pr):
        return False
    no, ab = fld(v, "no"), fld(v, "abstain")
    k = o.var(th, "AbsolutePercentage", "ThresholdQuorum", "AbsoluteCount")
    if k == "AbsoluteCount":
        return o(t_lt(t_add(fld(v, "yes"), t_sub(tot, total(v))), F(as_(th, k), "threshold")))
    if k == "AbsolutePercentage":
        return no_wins(o, no, t_sub(tot, ab), F(as_(th, k), "percentage"))
    q, th = F(as_(th, k), "quorum"), F(as_(th, k), "threshold")
    if o(expired(fld(pr, "expiration"))):
        if not passes(o, total(v), tot, q):
            return True
        return no_wins(o, no, t_sub(total(v), ab), th)
    return no_wins(o, no, t_sub(tot, ab), th)


def status_of(o, pr, passed, rejected):
    """(variant, expiration or None): the status as of this block"""
    st = fld(pr, "status")
    k = o.var(st, "Open", "VetoTimelock", "other")
    if k == "VetoTimelock":
        e = F(as_(st, k), "expiration")
        return ("Passed", None) if o(expired(e)) else (k, e)
    if k == "other":
        return ("same", None)
    if passed(o, pr):
        ve = fld(pr, "veto")
        if not o(t_isv(ve, "Some", OPT)):
            return ("Passed", None)
        e = payload(t_add(fld(pr, "expiration"), F(payload(ve, "Some"), "timelock_duration")), "Ok")
        return ("Passed", None) if o(expired(e)) else ("VetoTimelock", e)
    if o(expired(fld(pr, "expiration"))) or rejected(o, pr):
        return ("Rejected", None)
    return ("Open", None)


def single_status(pr):
    return lambda o: status_of(o, pr, single_passed, single_rejected)


def is_status(pr):
    """comparison of a computed status with the specified one"""
    old = fld(pr, "status")

    def eq(p, v, r):
        k, e = r
        if k == "same":
            return v is old
        if v is old:
            return p.variant_of(old) == k and (e is None or e is F(as_(old, k), "expiration"))
        return v.op == "adt" and v.a[1] == k and (e is None or adt_fields(v)["expiration"] is e)
    return eq


# ---- multiple choice -------------------------------------------------------------------------
def multi_status(pr):
    w = F(pr, "votes.vote_weights")
    mx = payload(mk("imax", w), "Some")
    tot = fld(pr, "total_power")
    cast = mk("sum", w)
    exp = fld(pr, "expiration")
    top = mk("ifilter", mk("enumerate", w), t_eq(mk("elem", w), mx))
    first = payload(mk("first", top), "Some")
    win = mk("idx", fld(pr, "choices"), fld(first, "0"))
    wp = mk("idx", w, fld(win, "index"))
    second = payload(mk("imax", mk("ifilter", w, t_lt(mk("elem", w), wp))), "Some")
    quorum = F(as_(fld(pr, "voting_strategy"), "SingleChoice"), "quorum")
    none_wins = t_isv(fld(win, "option_type"), "None", "dao_voting::multiple_choice::MultipleChoiceOptionType")
    rest = t_add(second, t_sub(tot, cast))

    def tie(o):
        return o(t_lt(I(1), mk("len", top)))

    def passed(o, pr):
        if not closed_to_revotes(o, pr):
            return False
        mn = fld(pr, "min_voting_period")
        if o(t_isv(mn, "Some", OPT)) and not o(expired(payload(mn, "Some"))):
            return False
        if not passes(o, cast, tot, quorum) or tie(o) or o(none_wins):
            return False
        return o(expired(exp)) or o(t_lt(rest, wp))

    def rejected(o, pr):
        if not closed_to_revotes(o, pr):
            return False
        if tie(o):
            return o(expired(exp)) or o(t_eq(tot, cast))
        if o(expired(exp)):
            return not passes(o, cast, tot, quorum) or o(none_wins)
        return o(none_wins) and not o(t_lt(wp, rest))
    return lambda o: status_of(o, pr, passed, rejected)


# ---- ranked choice ---------------------------------------------------------------------------
def condorcet_status(pr, ty):
    tot = fld(pr, "total_power")

    def f(o):
        st = fld(pr, "last_status")
        if not o(t_isv(st, "Open")):
            return ("same", None)
        mn = fld(pr, "min_voting_period")
        if o(t_isv(mn, "Some", OPT)) and not o(expired(payload(mn, "Some"))):
            return ("Open", None)
        exp = o(expired(fld(ty, "expiration")))
        q = passes(o, t_sub(tot, fld(ty, "power_outstanding")), tot, fld(pr, "quorum"))
        if exp and not q:
            return ("Rejected", None)
        w = fld(ty, "winner")
        E.ADT_OF[w] = "dao_proposal_condorcet::tally::Winner"
        k = o.var(w, "Never", "None", "Some", "Undisputed")
        if k == "Never":
            return ("Rejected", None)
        if k == "None":
            return ("Rejected" if exp else "Open", None)
        if k == "Some":
            return ("Passed", F(as_(w, k), "0")) if exp and q else ("Open", None)
        return ("Passed", F(as_(w, k), "0")) if q else ("Open", None)
    return f


def is_cstatus(pr):
    old = fld(pr, "last_status")

    def eq(p, v, r):
        k, w = r
        if k == "same":
            return v is old
        if v is old:
            return p.variant_of(old) == k and w is None
        return v.op == "adt" and v.a[1] == k and (w is None or adt_fields(v)["winner"] is w)
    return eq
