"""Pre-propose modules: shared vocabulary of C10 and C11."""
from lib import *
from props.prop import *

SINGLE_PP, MULTI_PP, APPROVAL, APPROVER = ("dao_pre_propose_single", "dao_pre_propose_multiple",
                                          "dao_pre_propose_approval_single", "dao_pre_propose_approver")
CFG = ld("config")
MODULE = ld("proposal_module")
DAO = ld("dao")
DEP = fld(CFG, "deposit_info")
POLICY = fld(CFG, "submission_policy")
NEXT = query(MODULE, mk("adt", "dao_interface::proposal::Query", "NextProposalId", ()))


def is_next_id(t):
    """the proposal module's next proposal id"""
    return t.op == "query" and t.a[0] is MODULE and t.a[1].op == "adt" and t.a[1].a[1] == "NextProposalId"


def in_list(lst, who):
    x = mk("elem", lst)
    return mk("iany", lst, t_eq(who, x))


def may_submit(who=SENDER):
    """the configured submission policy, as a decision procedure"""
    any_, spe = as_(POLICY, "Anyone"), as_(POLICY, "Specific")
    power = fld(query(DAO, adt_q("VotingPowerAtHeight", address=who, height=NONE)), "power")

    def f(o):
        if o(t_isv(POLICY, "Anyone")):
            return not o(in_list(fld(any_, "denylist"), who))
        if o(in_list(fld(spe, "denylist"), who)):
            return False
        if o(in_list(fld(spe, "allowlist"), who)):
            return True
        if not o(fld(spe, "dao_members")):
            return False
        return not o(t_eq(power, I(0)))
    return f


_q = {}


def adt_q(variant, **f):
    """the query body found in the code (its type path is taken from the term seen)"""
    return mk("adt", "dao_interface::voting::Query", variant, tuple(f), *f.values())


def deposit_taken(p):
    """a configured native deposit is paid exactly with the call"""
    o = []
    den, amt = fld(payload(DEP, "Some"), "denom"), fld(payload(DEP, "Some"), "amount")
    if p.variant_of(DEP) == "None" or p.variant_of(den) == "Cw20":
        return True
    return paid_exactly(p, payload(den, "Native"), amt)


def paid_exactly(p, denom, amount):
    """must_pay succeeded for this denom and the amount it returned is the one asked for"""
    for k, v in lits_of(p):
        if k.op == "isv" and v and k.a[1] == "Ok" and k.a[0].op == "call" and k.a[0].a[0].endswith("must_pay"):
            call = k.a[0]
            if call.a[1] is INFO and call.a[2] is denom and p.truth(t_eq(payload(call, "Ok"), amount)) is True:
                return True
    for k, v in p.st.var.items():
        if k.op == "call" and k.a[0].endswith("must_pay") and v == ("is", "Ok") and k.a[1] is INFO and k.a[2] is denom:
            if p.truth(t_eq(payload(k, "Ok"), amount)) is True:
                return True
    return False


def take_spec(o, before, after=()):
    """a cw20 deposit is pulled from the sender by the call; others need no message"""
    d = payload(DEP, "Some")
    out = list(before)
    if o(t_isv(DEP, "Some", OPT)) and o(t_isv(fld(d, "denom"), "Cw20")) and not o(t_eq(fld(d, "amount"), I(0))):
        out.append(m_cw20(payload(fld(d, "denom"), "Cw20"), "TransferFrom", owner=SENDER, recipient=SELF, amount=fld(d, "amount")))
    return out + list(after)


def return_spec(o, dep, to_proposer, proposer):
    """the held deposit goes back whole, to the proposer or to the DAO"""
    if not o(t_isv(dep, "Some", OPT)):
        return []
    d = payload(dep, "Some")
    if o(t_eq(fld(d, "amount"), I(0))):
        return []
    o.var(fld(d, "denom"), "Native", "Cw20")
    return [pays(fld(d, "denom"), proposer if to_proposer(o, d) else DAO, fld(d, "amount"))]


def valid_deposit(c, p, t, src, W):
    """the stored deposit is the given one: same amount and refund policy, non-zero, a checked denom"""
    for q, v in live(p, t):
        if is_adt(v, "None"):
            c.ob(q.variant_of(src) == "None", "deposit-config", W, "dropped", q)
            continue
        ok = is_adt(v, "Some") and v.a[3].op == "adt"
        if ok:
            d = adt_fields(v.a[3])
            s = payload(src, "Some")
            ok = d["amount"] is fld(s, "amount") and d["refund_policy"] is fld(s, "refund_policy")
            ok = ok and q.truth(t_eq(fld(s, "amount"), I(0))) is False
            den = d["denom"]
            if den.op == "adt" and den.a[1] == "Cw20":
                # the address is validated and answers as a token
                a = payload(den, "Cw20")
                ok = ok and a.op == "valid" and q.entails(lambda x: any(k.op == "ok" and v and k.a[0].op == "query" and k.a[0].a[0] is a and contains(k, a) for k, v in lits_of(x)))
        c.ob(ok, "deposit-config", W, show(v)[:400], q)
