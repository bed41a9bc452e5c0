"""C27 what is due is not refused.  Under the conditions the documentation gives for an exit, a claim, a vote, an
execution or a report, every way through the entry point succeeds: no further condition stands in the way."""
from props.stk import *
from models import elem

SILENT = ("has", "ok", "convertible", "validaddr")


def about(t, *ops):
    return any(y.op in ops for y in subterms(t))


def due(c, crate, variant, what, *lits, no=None, free=None, loose=None, entry="execute", pre=(), owner=False):
    """In every case where these hold the call succeeds. Granted: the contract's single items are there, other
    contracts answer, numbers fit (`no`: atoms that are granted not to hold), and with `owner` that the caller is the owner."""
    W = "%s::%s%s" % (crate, entry, "/" + variant if variant else "")
    ps = some_paths(c, crate, entry, variant, pre)
    fr = lambda k: k.op == "ok" and (owner or "assert_owner" not in show(k)) or k.op == "isv" and (k.a[1] == "Ok" and k.a[0].op in ("call", "query", "ext", "add") or k.a[1] == "Some" and k.a[0].op in ("imax", "first")) or k.op == "has" and (k.a[1] is UNIT or k.a[1].op == "tuple" and not k.a[1].a) or free is not None and free(k)
    refused = {k for p in ps for k, v in lits_of(p) if v is False}
    fr0 = fr
    fr = lambda k: fr0(k) and k not in refused
    lits = list(lits)
    lens = {y for p in ps for k, v in lits_of(p) for y in subterms(k) if y.op == "len" and "query_claims" in show(y)}
    for y in lens:      # fewer than MAX_CLAIMS claims are outstanding
        lits += [t_lt(y, I(100)), t_not(t_lt(I(99), y))]
    neg = []
    if no is not None:
        for p in ps:
            for k, v in lits_of(p):
                for y in subterms(k):
                    if y.op in ("eq", "lt", "expired", "has", "iany", "fld") and y not in neg and no(y):
                        neg.append(y)
    admits(c, ps, "due", W + (" " + what if what else ""), *lits, *[t_not(y) for y in neg], free=fr, loose=loose)


def run(c):
    m = lambda v, n: F(as_(MSG, v), n)
    # ---- token stakes
    K = "cw20_stake"
    amt = m("Unstake", "amount")
    T, B, SB = ld("total_staked"), ld("balance"), ld("staked_balances", SENDER)
    due(c, K, "Unstake", "", has("staked_balances", SENDER), t_not(t_lt(SB, amt)), t_not(t_lt(T, amt)), t_not(t_eq(T, I(0))),
        no=lambda k: about(k, "satadd") or k is t_lt(B, mk("div", mk("mul", amt, B), T)))
    matured = lambda k: k.op == "eq" and about(k, "call") and "claim_tokens" in show(k)
    due(c, K, "Claim", "", no=matured)
    K = "dao_voting_token_staked"
    amt = m("Unstake", "amount")
    SB, T = ld("staked_balances", SENDER), ld("total_staked")
    due(c, K, "Unstake", "", has("staked_balances", SENDER), t_not(t_lt(SB, amt)), t_not(t_lt(T, amt)), t_not(t_eq(amt, I(0))))
    due(c, K, "Claim", "", no=matured)
    due(c, K, "Stake", "")
    for K in ("dao_voting_cw721_staked", "dao_voting_onft_staked"):
        ids = m("Unstake", "token_ids")
        x = elem(ids)
        mine = lambda k: k.op == "has" and k.a[0] == "snpw" and k.a[1] is mk("tuple", SENDER, x)
        n, had = mk("len", ids), mk("len", ld("nft_claims", SENDER))
        for what, room in (("with no claims", [t_not(has("nft_claims", SENDER)), t_not(t_lt(I(70), n))]),
                           ("with claims", [has("nft_claims", SENDER), t_not(t_lt(I(70), t_add(had, n)))])):
            due(c, K, "Unstake", what, t_not(t_eq(n, I(0))), t_not(t_lt(ld("tsn"), n)), has("nb", SENDER), t_not(t_lt(ld("nb", SENDER), n)), *room, free=mine)
        due(c, K, "ClaimNfts", "", has("nft_claims", SENDER), no=lambda k: k.op == "eq" and about(k, "ifilter"))
    # ---- proposals
    for K, ns in (("dao_proposal_single", "proposals_v2"), ("dao_proposal_multiple", "proposals")):
        cns = "config_v2" if K == "dao_proposal_single" else "config"
        ps = some_paths(c, K, "execute", "Vote")
        pid = m("Vote", "proposal_id")
        pr = ld(ns, pid)
        bal = mk("tuple", pid, SENDER)
        old = ld("ballots", bal)
        pw = [y for p in ps for k, v in lits_of(p) for y in subterms(k) if y.op == "eq" and "VotingPowerAtHeight" in show(y)]
        base = [has(ns, pid), t_not(mk("expired", fld(pr, "expiration"), BLOCK)), *[t_not(y) for y in pw]]
        was = lambda v: t_isv(fld(pr, "status"), v)
        simple = [was("Open"), fld(pr, "allow_revoting"), *([t_isv(fld(pr, "threshold"), "AbsoluteCount")] if K == "dao_proposal_single" else [])]
        more = [t_lt(fld(m("Vote", "vote"), "option_id"), mk("len", fld(pr, "choices")))] if K == "dao_proposal_multiple" else []
        for at, sts in (("open", simple), ("executed", [was("Executed")]), ("rejected", [was("Rejected")])):
            due(c, K, "Vote", "first while " + at, *base, *sts, *more, t_not(has("ballots", bal)))
            due(c, K, "Vote", "again while " + at, *base, *sts, *more, has("ballots", bal), fld(pr, "allow_revoting"), t_not(t_eq(m("Vote", "vote"), fld(old, "vote"))), no=lambda k: k.op == "lt" and k.a[1] is fld(old, "power"))
        due(c, K, "UpdateRationale", "", has("ballots", mk("tuple", m("UpdateRationale", "proposal_id"), SENDER)))

        def at(v):
            pid = m(v, "proposal_id")
            pr = ld(ns, pid)
            st = fld(pr, "status")
            veto = payload(fld(pr, "veto"), "Some")
            lock = mk("expired", fld(as_(st, "VetoTimelock"), "expiration"), BLOCK)
            return pr, lambda w: [has(ns, pid), t_isv(st, w)], veto, lock, [t_isv(fld(pr, "veto"), "Some"), t_eq(SENDER, fld(veto, "vetoer"))]
        pr, st, veto, lock, vetoer = at("Close")
        due(c, K, "Close", "once rejected", *st("Rejected"))
        pr, st, veto, lock, vetoer = at("Execute")
        tie = lambda k: k.op == "lt" and k.a[0] is I(1) and about(k, "ifilter")
        for who, member in (("member", lambda k: k.op == "eq" and "VotingPowerAtHeight" in show(k)), ("anyone", lambda k: k is fld(ld(cns), "only_members_execute"))):
            no = lambda k: member(k) or tie(k)
            due(c, K, "Execute", "once passed, " + who, *st("Passed"), no=no)
            due(c, K, "Execute", "once the timelock is over, " + who, *st("VetoTimelock"), lock, no=no)
        due(c, K, "Execute", "early", *st("VetoTimelock"), t_not(lock), *vetoer, fld(veto, "early_execute"), no=tie)
        pr, st, veto, lock, vetoer = at("Veto")
        due(c, K, "Veto", "in the timelock", *st("VetoTimelock"), t_not(lock), *vetoer, no=lambda k: k.op == "expired" and k is not lock and about(k.a[0], "phi"))
        due(c, K, "Veto", "before it passed", *st("Open"), t_not(mk("expired", fld(pr, "expiration"), BLOCK)), fld(pr, "allow_revoting"), *vetoer, fld(veto, "veto_before_passed"))
    # ---- payouts
    K = "cw_token_swap"
    one, two = ld("counterparty_one"), ld("counterparty_two")
    first = t_eq(SENDER, fld(one, "address"))
    due(c, K, "Withdraw", "by the first", first, fld(one, "provided"), t_not(fld(two, "provided")))
    due(c, K, "Withdraw", "by the second", t_not(first), t_eq(SENDER, fld(two, "address")), fld(two, "provided"), t_not(fld(one, "provided")))
    K = "cw_vesting"
    V = ld("vesting")
    ps = some_paths(c, K, "execute", "Distribute")
    about_v = {y for p in ps for k, v in lits_of(p) for y in subterms(k)}
    cv = {y for y in about_v if y.op == "call" and show(y).startswith("Curve::value(")}
    tot = {y for y in about_v if y.op in ("fld", "call") and show(y).startswith("Curve::range(") and show(y).endswith(".1")}
    c.ob(len(cv) == 1 and len(tot) == 1, "due", K + "::execute/Distribute", "what has vested and the total it ends at are each read in one way (%d, %d found)" % (len(cv), len(tot)))
    if len(cv) == 1 and len(tot) == 1:
        got, total = cv.pop(), tot.pop()
        a = mk("satsub", t_sub(got, fld(V, "claimed")), fld(V, "slashed"))
        b = t_sub(total, t_add(fld(V, "claimed"), fld(V, "slashed")))
        vst = [t_isv(fld(V, "status"), "Funded"), t_not(t_lt(got, fld(V, "claimed"))), t_not(t_lt(total, fld(V, "claimed"))), t_not(t_lt(total, t_add(fld(V, "claimed"), fld(V, "slashed"))))]
        unstaked = lambda k: k.op == "isv" or k.op == "eq" and k.a[0] is I(0) and k.a[1].op == "len" and "staked" in show(k.a[1])
        has_some = [t_not(t_eq(x, I(0))) for x in (a, b, mk("min", a, b))]
        due(c, K, "Distribute", "all that vested", *vst, *has_some, t_isv(m("Distribute", "amount"), "None"), free=unstaked)
        part = payload(m("Distribute", "amount"), "Some")
        due(c, K, "Distribute", "a part", *vst, *[t_not(t_lt(x, part)) for x in (a, b, mk("min", a, b))], t_not(t_eq(part, I(0))), t_isv(m("Distribute", "amount"), "Some"), free=unstaked)
        due(c, K, "Cancel", "", *vst, owner=True, loose=lambda k: about(k, "min") or about(k, "satsub") or "iter(" in show(k))
    K = "cw_fund_distributor"
    over = mk("expired", ld("funding_period"), BLOCK)
    for v, ns, l in (("ClaimNatives", "native", m("ClaimNatives", "denoms")), ("ClaimCW20", "cw20", m("ClaimCW20", "tokens"))):
        due(c, K, v, "", over, t_not(t_eq(mk("len", l), I(0))), no=lambda k: k.op == "eq" and k.a[0] is I(0) and k.a[1].op == "call" and show(k.a[1]).startswith("Fraction::denominator(") or k.op == "lt" and is_ld(k.a[1], ns + "_claims"), free=lambda k: k.op == "has" and k.a[0] == ns + "_balances")
    K = "cw20_stake_external_rewards"
    owed = lambda k: k.op == "lt" and (is_ld(k.a[1], "user_reward_per_token") or is_ld(k.a[1], "last_update_block")) or k.op == "eq" and k.a[0] is I(0) and "user_reward_per_token" in show(k.a[1])
    due(c, K, "Claim", "", no=owed)
    due(c, K, "StakeChangeHook", "", t_eq(SENDER, fld(ld("config_v2"), "staking_contract")), no=owed)
    K = "cw20_stake_reward_distributor"
    due(c, K, "Distribute", "", t_lt(ld("last_payment_block"), HEIGHT), no=lambda k: k.op == "eq" and about(k, "min"))
    # ---- reports
    for K in ("dao_pre_propose_single", "dao_pre_propose_multiple", "dao_pre_propose_approval_single", "dao_pre_propose_approver"):
        v = "ProposalCompletedHook"
        for st in ("Executed", "Closed", "Vetoed"):
            dep = ld("deposits", m(v, "proposal_id"))
            due(c, K, v, st, t_isv(m(v, "new_status"), st), t_eq(SENDER, ld("proposal_module")), has("proposal_to_pre_propose" if K[-1] == "r" else "deposits", m(v, "proposal_id")), t_not(t_eq(I(0), fld(payload(fld(dep, "0"), "Some"), "amount"))))
    # ---- the core
    K = "dao_dao_core"
    paused = mk("expired", ld("paused"), BLOCK)
    for what, l in (("never paused", [t_not(has("paused", UNIT))]), ("after a pause", [has("paused", UNIT), paused])):
        due(c, K, "ExecuteProposalHook", what, *l, has("proposal_modules_v2", SENDER), t_isv(fld(ld("proposal_modules_v2", SENDER), "status"), "Enabled"))
        due(c, K, "AcceptAdminNomination", what, *l, t_eq(SENDER, ld("nominated_admin")))
        due(c, K, "ExecuteAdminMsgs", what, *l, t_eq(SENDER, ld("admin")))
    due(c, K, "ExecuteAdminMsgs", "while paused", has("paused", UNIT), t_not(paused), t_eq(SENDER, ld("admin")))
    # ---- replies: what one hook or one execution's failure costs is not the proposal
    for K, ns in (("dao_proposal_single", "proposals_v2"), ("dao_proposal_multiple", "proposals")):
        rid = F(sym("reply"), "id")
        low = mk("bitand", rid, I(7))
        for what, lits in (("failed execution", [t_eq(I(0), low), has(ns, mk("shr", rid, I(3)))]),
                           ("failed pre-propose hook", [t_eq(I(4), low), t_isv(ld("creation_policy"), "Module")]),
                           ("failed proposal hook", [t_eq(I(1), low)]), ("failed vote hook", [t_eq(I(2), low)])):
            due(c, K, None, what, *lits, entry="reply")
    # ---- what comes in
    K = "cw20_stake"
    v = ld("config_v2")
    due(c, K, "Receive", "", t_eq(SENDER, fld(v, "token_address")), free=lambda k: k.op == "parses")
    due(c, "dao_voting_cw721_staked", "ReceiveNft", "", t_eq(SENDER, fld(ld("config"), "nft_address")))
    K = "dao_voting_onft_staked"
    ids = m("CancelStake", "token_ids")
    known = lambda k: k.op == "isv" and k.a[1] == "Some" and k.a[0].op == "fld" and k.a[0].a[1] == "onft"
    prep = lambda k: k.op == "has" and k.a[0] == "po"
    own = lambda k: k.op == "eq" and SENDER in k.a and "elem" in show(k)
    some = t_not(t_eq(mk("len", ids), I(0)))
    due(c, K, "PrepareStake", "", t_not(t_eq(mk("len", m("PrepareStake", "token_ids")), I(0))), no=lambda k: k.op == "iany", free=known)
    due(c, K, "CancelStake", "by the DAO", t_eq(SENDER, ld("dao")), some, t_isv(m("CancelStake", "recipient"), "Some"), free=lambda k: known(k) or prep(k))
    due(c, K, "CancelStake", "of one's own", t_not(t_eq(SENDER, ld("dao"))), some, free=lambda k: known(k) or prep(k) or own(k))
    K = "cw_token_swap"
    one, two = ld("counterparty_one"), ld("counterparty_two")
    for v, by, kind in (("Fund", SENDER, "Native"), ("Receive", mk("valid", F(m("Receive", "0"), "sender")), "Cw20")):
        first = t_eq(by, fld(one, "address"))
        for who, lits, me, other in (("the first", [first], one, two), ("the second", [t_not(first), t_eq(by, fld(two, "address"))], two, one)):
            due(c, K, v, "by " + who, *lits, t_not(fld(me, "provided")), free=lambda k: k.op == "eq" and about(k, "phi") or k.op == "isv" and k.a[1] == kind)
    K = "cw_fund_distributor"
    open_ = t_not(mk("expired", ld("funding_period"), BLOCK))
    due(c, K, "Receive", "", open_)
    due(c, K, "FundNative", "", open_)
    for K in ("dao_pre_propose_single", "dao_pre_propose_multiple", "dao_pre_propose_approval_single"):
        cfg = ld("config")
        pol = fld(cfg, "submission_policy")
        listed = lambda k: k.op == "iany" or k.op == "lt" and "denominator" in show(k)
        taken = t_isv(fld(cfg, "deposit_info"), "None")
        due(c, K, "Propose", "by anyone", t_isv(pol, "Anyone"), taken, no=listed)
        due(c, K, "Propose", "by a member", t_isv(pol, "Specific"), fld(as_(pol, "Specific"), "dao_members"), taken, no=lambda k: k.op == "iany" or k.op == "eq" and "VotingPowerAtHeight" in show(k))
        due(c, K, "Withdraw", "", t_eq(SENDER, ld("dao")), t_isv(m("Withdraw", "denom"), "None"), t_isv(fld(cfg, "deposit_info"), "Some"), no=lambda k: k.op == "eq" and k.a[0] is I(0) and ("balance" in show(k)))
    due(c, "dao_pre_propose_approver", "Propose", "", t_eq(SENDER, ld("pre_propose_approval_contract")))
    K = "dao_rewards_distributor"
    d = ld("d", m("Claim", "id"))
    ep = fld(d, "active_epoch")
    rate, last, ends = fld(ep, "emission_rate"), fld(ep, "last_updated_total_earned_puvp"), fld(ep, "ends_at")
    base = [has("d", m("Claim", "id")), has("ur", SENDER)]
    owed = lambda k: k.op == "lt" and about(k, "hmget") or k.op == "eq" and k.a[0] is I(0) and k.a[1].op != "query"
    for st in ("Paused", "Immediate"):
        due(c, K, "Claim", "while " + st, *base, t_isv(rate, st), no=owed)
    for by, now, dur in (("AtTime", TIME, "Time"), ("AtHeight", HEIGHT, "Height")):
        at = lambda t: fld(as_(t, by), "0")
        due(c, K, "Claim", "while Linear " + by, *base, t_isv(rate, "Linear"), t_isv(last, by), t_isv(ends, by), t_isv(fld(as_(rate, "Linear"), "duration"), dur), no=lambda k: owed(k) or k.op in ("lt", "eq") and about(k, "secs") or k.op == "lt" and k.a[1] is at(last), free=lambda k: k.op == "lt" and k.a[0] is at(last))
    others(c)


DEC1 = mk("call", "cosmwasm_std::Decimal::one")


def others(c):
    """what those in charge may change, and what others report, is taken"""
    m = lambda v, n: F(as_(MSG, v), n)
    none = lambda v, *ns: [t_isv(m(v, n), "None", OPT) for n in ns]
    dao = t_eq(SENDER, ld("dao"))
    # ---- the core
    K = "dao_dao_core"
    me, admin = t_eq(SENDER, SELF), t_eq(SENDER, ld("admin"))
    for v in ("Pause", "SetItem", "RemoveItem", "UpdateConfig", "UpdateCw20List", "UpdateCw721List", "UpdateVotingModule", "UpdateSubDaos"):
        due(c, K, v, "by the DAO", me, *([has("items", m(v, "key"))] if v == "RemoveItem" else []))
    for v in ("Unpause", "ExecuteAdminMsgs"):
        due(c, K, v, "by the admin", admin)
    due(c, K, "NominateAdmin", "by the admin", admin, t_not(has("nominated_admin")))
    due(c, K, "WithdrawAdminNomination", "by the admin", admin, has("nominated_admin"))
    for v in ("Receive", "ReceiveNft"):
        due(c, K, v, "while not paused", t_not(has("paused")))
    # ---- hooks
    listed = lambda K, v: [y for p in some_paths(c, K, "execute", v) for k, _ in lits_of(p) for y in subterms(k) if y.op == "iany"]

    def hooks(K, add, rem, *who):
        due(c, K, add, "", *who, no=lambda k: k.op == "iany")
        due(c, K, rem, "", *who, *listed(K, rem))

    def share(t, kind):
        """a share that can be asked for"""
        if kind == "majority":
            return [t_isv(t, "Majority")]
        x = payload(t, "Percent")
        return [t_isv(t, "Percent"), t_not(t_eq(x, I(0))), t_not(t_lt(DEC1, x))]

    def thresholds(t):
        n = F(as_(t, "AbsoluteCount"), "threshold")
        yield "a count", [t_isv(t, "AbsoluteCount"), t_not(t_eq(n, I(0)))]
        for k in ("majority", "percent"):
            yield k, [t_isv(t, "AbsolutePercentage"), *share(F(as_(t, "AbsolutePercentage"), "percentage"), k)]
            for q in ("majority", "percent"):
                yield "%s with a quorum of %s" % (k, q), [t_isv(t, "ThresholdQuorum"), *share(F(as_(t, "ThresholdQuorum"), "threshold"), k), *share(F(as_(t, "ThresholdQuorum"), "quorum"), q)]
    # ---- configuration
    for K in ("dao_proposal_single", "dao_proposal_multiple"):
        cns = "config_v2" if K == "dao_proposal_single" else "config"
        byd = t_eq(SENDER, fld(ld(cns), "dao"))
        due(c, K, "UpdatePreProposeInfo", "by the DAO", byd)
        hooks(K, "AddProposalHook", "RemoveProposalHook", byd)
        hooks(K, "AddVoteHook", "RemoveVoteHook", byd)
        v = "UpdateConfig"
        rest = [byd, *none(v, "min_voting_period", "veto")]
        if K == "dao_proposal_single":
            for what, l in thresholds(m(v, "threshold")):
                due(c, K, v, what, *rest, *l)
            rest += next(thresholds(m(v, "threshold")))[1]
        else:
            q = F(as_(m(v, "voting_strategy"), "SingleChoice"), "quorum")
            for k in ("majority", "percent"):
                due(c, K, v, k, *rest, *share(q, k))
            rest += share(q, "majority")
        vt = payload(m(v, "veto"), "Some")
        mn, mx = payload(m(v, "min_voting_period"), "Some"), m(v, "max_voting_period")
        for u in ("Time", "Height"):
            a, b = payload(mn, u), payload(mx, u)
            due(c, K, v, "with a minimum in " + u, *[l for l in rest if "min_voting" not in show(l)], t_isv(m(v, "min_voting_period"), "Some"), t_isv(mn, u), t_isv(mx, u), t_not(t_lt(b, a)))
            tl = F(vt, "timelock_duration")
            due(c, K, v, "with a timelock in " + u, *[l for l in rest if "veto" not in show(l)], t_isv(m(v, "veto"), "Some"), t_isv(tl, u), t_isv(mx, u))
    for K in ("dao_pre_propose_single", "dao_pre_propose_multiple", "dao_pre_propose_approval_single", "dao_pre_propose_approver"):
        hooks(K, "AddProposalSubmittedHook", "RemoveProposalSubmittedHook", dao)
        if K.endswith("approver"): continue
        due(c, K, "UpdateConfig", "without a deposit", dao, *none("UpdateConfig", "deposit_info", "submission_policy"))
        v = "UpdateSubmissionPolicy"
        po = fld(ld("config"), "submission_policy")
        due(c, K, v, "of anyone", dao, t_isv(po, "Anyone"), *none(v, "set_dao_members", "allowlist_add", "allowlist_remove", "denylist_remove"))
        due(c, K, v, "of some", dao, t_isv(po, "Specific"), *none(v, "denylist_add", "denylist_remove", "allowlist_remove"), t_isv(m(v, "set_dao_members"), "Some"), payload(m(v, "set_dao_members"), "Some"), no=lambda k: k.op == "iany")
    for K in ("cw20_stake", "dao_voting_token_staked", "dao_voting_cw721_staked", "dao_voting_onft_staked"):
        hooks(K, "AddHook", "RemoveHook", dao)
        v = "UpdateConfig"
        due(c, K, v, "", t_eq(SENDER,ld("dao")), *none(v, "duration"))
        for u in ("Time", "Height"):
            x = payload(m(v, "duration"), "Some")
            due(c, K, v, "to a " + u, dao, t_isv(m(v, "duration"), "Some"), t_isv(x, u), t_not(t_eq(payload(x, u), I(0))))
    for K in ("dao_voting_token_staked", "dao_voting_cw721_staked", "dao_voting_onft_staked", "dao_voting_cw20_staked"):
        v = "UpdateActiveThreshold"
        n = m(v, "new_threshold")
        due(c,K,v,"none",dao,*none(v,"new_threshold"))
        x = payload(n, "Some")
        p = F(as_(x, "Percentage"), "percent")
        due(c,K,v,"a share",dao,t_isv(n,"Some"),t_isv(x,"Percentage"),t_not(t_lt(DEC1,p)),t_not(t_eq(p,I(0))),t_lt(I(0),p))
        k = F(as_(x, "AbsoluteCount"), "count")
        due(c,K,v,"a count",dao,t_isv(n,"Some"),t_isv(x,"AbsoluteCount"),t_not(t_eq(k,I(0))),no=lambda t: t.op=="lt" and t.a[1] is k)
    # ---- the issuer
    K = "cw_tokenfactory_issuer"
    adv = [has("hook_features_enabled"), fld(ld("hook_features_enabled"), "advanced_features_enabled")]
    for v in ("ForceTransfer","SetBeforeSendHook","SetBurnerAllowance","SetDenomMetadata","SetMinterAllowance","UpdateTokenFactoryAdmin","UpdateOwnership"):
        due(c,K,v,"")
    for v in ("Allow", "Deny", "Freeze"):
        due(c, K, v, "", *adv, *([t_not(t_eq(valid(m(v, "address")), SELF))] if v == "Deny" else []))
    for v, ns in (("Burn", "burner_allowances"), ("Mint", "minter_allowances")):
        am = m(v, "amount")
        for what, l in (("leaving some", [t_not(t_eq(am, ld(ns, SENDER)))]), ("using it up", [])):
            due(c, K, v, what, has(ns, SENDER), t_not(t_eq(am, I(0))), t_not(t_lt(ld(ns, SENDER), am)), t_not(ld("is_frozen")), *l)
    K = "cw_vesting"
    V = ld("vesting")
    st = fld(V, "status")
    R = fld(as_(MSG, "Receive"), "0")
    due(c, K, "Receive", "", t_isv(st, "Unfunded"), t_isv(fld(V, "denom"), "Cw20"), free=lambda k: k.op == "parses" or k.op == "eq" and (fld(R, "amount") in k.a or k is t_eq(SENDER, fld(as_(fld(V, "denom"), "Cw20"), "0"))))
    mine = [t_isv(st, "Funded"), t_eq(SENDER, fld(V, "recipient"))]
    log = lambda k: any(x in show(k) for x in ("iter(", "rawquery(", "query_bonded_denom"))     # what the books of the stake say
    for v in ("Delegate", "Redelegate", "Undelegate"):
        due(c, K, v, "by the recipient", *mine, *([t_isv(fld(V, "denom"), "Native")] if v != "Undelegate" else []), t_not(t_eq(m(v, "amount"), I(0))), loose=log)
    v = "Undelegate"
    due(c, K, v, "by anyone once cancelled", t_isv(st, "Canceled"), t_not(t_eq(m(v, "amount"), I(0))), loose=log)
    v = "SetWithdrawAddress"
    for s in ("Funded", "Unfunded"):
        due(c, K, v, "by the recipient while " + s, t_isv(st, s), t_eq(SENDER, fld(V, "recipient")), t_not(t_eq(m(v, "address"), SELF)))
    due(c, K, v, "by the owner", t_isv(st, "Canceled"), t_not(t_eq(m(v, "address"), SELF)), owner=True)
    due(c, K, "WithdrawDelegatorReward", "")
    v = "WithdrawCanceledPayment"
    ps = some_paths(c, K, "execute", v)
    lt = {y for p in ps for k, _ in lits_of(p) for y in subterms(k) if y.op in ("lt", "eq")}
    due(c, K, v, "", t_isv(st, "Canceled"), *[t_not(y) for y in sorted(lt, key=show) if not (y.op == "eq" and y.a[1].op == "len")], free=lambda k: log(k) or k.op == "isv" and "get_ownership" in show(k))
    v = "RegisterSlash"
    due(c, K, v, "", t_isv(st, "Funded"), t_not(t_lt(TIME, m(v, "time"))), t_not(t_eq(m(v, "amount"), I(0))), loose=log, owner=True)
    due(c, K, "UpdateOwnership", "", t_isv(st, "Funded"))
    due(c, K, "UpdateOwnership", "", t_isv(st, "Canceled"), t_isv(fld(as_(MSG, "UpdateOwnership"),"0"), "TransferOwnership"))
    K="dao_rewards_distributor"
    for v in ("MemberChangedHook","NftStakeChangeHook","StakeChangeHook"):
        due(c, K, v, "", has("rh", SENDER), loose=lambda k: "elem(" in show(k) or k.op == "has" and k.a[0] != "rh")

    def fresh(D):
        """a distribution that has run nothing yet"""
        ep = fld(D, "active_epoch")
        rate = fld(ep, "emission_rate")
        lin = as_(rate, "Linear")
        zero = [t_eq(fld(D, "funded_amount"), I(0)), t_isv(fld(ep, "started_at"), "Never"), t_isv(fld(D, "denom"), "Native")]
        yield "paused", [*zero, t_isv(rate, "Paused")]
        for u in ("Time", "Height"):
            yield "in " + u, [*zero, t_isv(rate, "Linear"), t_isv(F(lin, "duration"), u), t_not(t_eq(payload(F(lin, "duration"), u), I(0))), t_not(t_eq(F(lin, "amount"), I(0)))]
        yield "at once", [*zero, t_isv(rate, "Immediate")]
    pw = lambda k: k.op == "eq" and "TotalPowerAtHeight" in show(k)
    for v, id in (("Fund", fld(fld(as_(MSG, "Fund"), "0"), "id")), ("FundLatest", ld("count"))):
        D = ld("d", id)
        for what, l in fresh(D):
            due(c, K, v, "open, " + what, has("d", id), fld(D, "open_funding"), *l, no=pw)
            due(c, K, v, "by the owner, " + what, has("d", id), *l, no=pw, owner=True)

    def rates(r):
        lin = as_(r, "Linear")
        yield "paused", [t_isv(r, "Paused")]
        yield "at once", [t_isv(r, "Immediate")]
        for u in ("Time", "Height"):
            yield "in " + u, [t_isv(r, "Linear"), t_isv(F(lin, "duration"), u), t_not(t_eq(payload(F(lin, "duration"), u), I(0))), t_not(t_eq(F(lin, "amount"), I(0)))]
    v = "Create"
    M = fld(as_(MSG, v), "0")
    nofunds = t_eq(mk("len", fld(INFO, "funds")), I(0))
    for what, l in rates(fld(M, "emission_rate")):
        due(c, K, v, what, nofunds, *l, owner=True, no=lambda k: k.op in ("has", "iany") and ("rh" in show(k) or k.op == "has" and k.a[0] == "d"))
    v = "Update"
    D = ld("d", m(v, "id"))
    due(c, K, v, "but not the rate", has("d", m(v, "id")), *none(v, "emission_rate", "hook_caller"), owner=True)
    for what, l in rates(payload(m(v, "emission_rate"), "Some")):
        due(c, K, v, "the rate, " + what, has("d", m(v, "id")), t_isv(m(v, "emission_rate"), "Some"), *l, *none(v, "vp_contract", "hook_caller"), *[y for k, f in fresh(D) if k == "paused" for y in f], no=lambda k: k.op == "lt" and k.a[0] is fld(D, "funded_amount") or pw(k), owner=True)
    due(c, K, v, "the hook caller", has("d", m(v, "id")), *none(v, "emission_rate", "vp_contract"), t_isv(m(v, "hook_caller"), "Some"), has("rh", fld(D, "hook_caller")), no=lambda k: k.op == "has" and k.a[1] is valid(payload(m(v, "hook_caller"), "Some")), owner=True)
    v = "Withdraw"
    D = ld("d", m(v, "id"))
    ep = fld(D, "active_epoch")
    ns = lambda u: payload(F(as_(fld(ep, "emission_rate"), "Linear"), "duration"), u)
    more = lambda k: k.op == "lt" and (k.a[0] is fld(D, "funded_amount") or "secs" in (k.a[0].op, k.a[1].op))
    here = [has("d", m(v, "id")), t_not(mk("expired", fld(ep, "ends_at"), BLOCK))]
    lin = [t_isv(fld(ep, "emission_rate"), "Linear")]
    due(c, K, v, "before it started", *here, t_isv(fld(ep, "started_at"), "Never"), no=more, owner=True)
    for u in ("Time", "Height"):
        due(c, K, v, "while running by " + u, *here, *lin, t_isv(F(as_(fld(ep, "emission_rate"), "Linear"), "duration"), u), t_not(t_eq(ns(u), I(0))), t_isv(fld(ep, "started_at"), "At" + u), no=more, owner=True)
    K="cw20_stake_external_rewards"
    RC = ld("reward_config")
    over = t_not(t_lt(F(BLOCK, "height"), fld(RC, "period_finish")))
    due(c, K, "UpdateOwnership", "", owner=True)
    due(c, K, "UpdateRewardDuration", "", over, t_not(t_eq(m("UpdateRewardDuration", "new_duration"), I(0))), owner=True)
    due(c, K, "Fund", "", over, t_not(t_eq(fld(RC, "reward_duration"), I(0))), t_isv(fld(ld("config_v2"), "reward_token"), "Native"), no=lambda k: k.op in ("lt", "eq"), owner=True)
    K = "cw20_stake_reward_distributor"
    due(c, K, "UpdateConfig", "by the owner", owner=True)
    due(c, K, "Withdraw", "by the owner", owner=True)
    K = "cw_payroll_factory"
    for v in ("Receive", "InstantiateNativePayrollContract"):
        due(c, K, v, "with no owner", no=lambda k: k.op == "has" and k.a[0] == "tmp_instantiator_info", free=lambda k: k.op in ("isv", "eq") and ("get_ownership" in show(k) or "parsed" in show(k)) or k.op == "parses")
    due(c, K, "UpdateCodeId", "by the owner", owner=True)
    K = "cw721_roles"
    short = lambda k: k.op == "lt" and "weight" in show(k.a[1])
    lacks = lambda k: short(k) or k.op == "has" and k.a[0] == "tokens" and v == "Mint"
    for v in ("TransferNft", "SendNft", "Burn", "Mint"):
        tok = m(v, "token_id")
        ow = fld(ld("tokens", tok), "owner")
        due(c, K, v, "", *([] if v == "Mint" else [has("tokens", tok), has("members", ow), has("members", valid(ow)), t_not(t_eq(ld("num_tokens"), I(0)))]), no=lacks, owner=True)
    X = fld(as_(MSG, "Extension"), "msg")
    for v in ("UpdateTokenRole", "UpdateTokenUri", "UpdateTokenWeight"):
        tok = F(as_(X, v), "token_id")
        old, new = fld(fld(ld("tokens", tok), "extension"), "weight"), F(as_(X, v), "weight")
        for what, l in ([(" up", [t_lt(old, new)]), (" down", [t_lt(new, old)])] if v.endswith("Weight") else [("", [])]):
            due(c, K, "Extension", v + what, t_isv(X, v), has("tokens", tok), has("members", fld(ld("tokens", tok), "owner")), *l, no=lambda k: k.op == "lt" and k.a[0].op == "add", owner=True)
    reg = listed(K, "Extension")
    due(c, K, "Extension", "AddHook", t_isv(X, "AddHook"), no=lambda k: k.op == "iany", owner=True)
    due(c, K, "Extension", "RemoveHook", t_isv(X, "RemoveHook"), has("hooks", UNIT), *[y for y in reg if "RemoveHook" in show(y)], owner=True)
    K = "dao_proposal_condorcet"
    po = lambda k: k.op == "eq" and "VotingPowerAtHeight" in show(k)
    for v, s in (("Execute", "Passed"), ("Close", "Rejected")):
        pid = m(v, "proposal_id")
        due(c, K, v, "", has("tallys", pid), has("proposals", pid), t_isv(fld(ld("proposals", pid), "last_status"), s), no=po)
    v = "SetConfig"
    q = fld(fld(as_(MSG, v), "0"), "quorum")
    for k in ("majority", "percent"):
        due(c, K, v, k, t_eq(SENDER, ld("dao")), t_isv(fld(fld(as_(MSG, v), "0"), "min_voting_period"), "None", OPT), *[l for l in share(q, k) if l.op == "isv" or about(l, "lt")])
    K = "dao_pre_propose_approval_single"
    X = fld(as_(MSG, "Extension"), "msg")
    for v in ("Approve", "Reject"):
        id = F(as_(X, v), "id")
        due(c, K, "Extension", v, t_isv(X, v), t_eq(SENDER, ld("approver")), has("pending_proposals", id), free=lambda k: k.op == "eq" and k.a[0] is I(0) and "deposit" in show(k))
    due(c, K, "Extension", "UpdateApprover", t_isv(X, "UpdateApprover"), t_eq(SENDER, ld("approver")))
