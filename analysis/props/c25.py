"""C25 an upgrade keeps what a contract stores.  Every `migrate` entry point is analysed: it writes nothing
but the version (under the contract's own name, as its creation does) and sends nothing, except for the
conversions from older layouts, whose every stored value is the old one, converted, and which are refused
to a contract that has the current version."""
from lib import *
from props.c08 import equal, frame, mirrors

# conversions with rules of their own: C08 (v1 single-choice modules), C18 (redistribution)
ELSEWHERE = {("dao_proposal_single", "FromV1"), ("cw_fund_distributor", "RedistributeUnclaimedFunds")}
PRE = ("dao_pre_propose_single", "dao_pre_propose_multiple", "dao_pre_propose_approval_single", "dao_pre_propose_approver")
STK = ("cw20_stake", "cw20_stake_reward_distributor", "cw20_stake_external_rewards")
KEEP = ("btsg_ft_factory", "cw_admin_factory", "cw_token_swap", "cw_tokenfactory_issuer", "dao_proposal_multiple", "dao_rewards_distributor",
        "dao_voting_cw20_staked", "dao_voting_cw4", "dao_voting_cw721_staked", "dao_voting_onft_staked", "dao_voting_token_staked")


def has_migrate(K):
    try:
        prog(K).find("contract::migrate")
        return True
    except (KeyError, Limit, IndexError, AssertionError):
        return False


def stored_version(t):
    """a term made of the version in storage"""
    return any(x.op == "fld" and x.a[1] == "version" for x in subterms(t))


def identity(c, K):
    """the name and version creation records"""
    s = {(x.a[1], x.a[2]) for p in okpaths(K, "instantiate") for x in exts(p, "set_contract_version")[-1:]}
    c.ob(len(s) == 1 and all(y.op == "str" or y.op == "const" or not list(y.a) or len(list(subterms(y))) == 1 for y in next(iter(s), ())), "identity", K + "::instantiate", sorted(map(str, s)))
    return next(iter(s), (None, None))


def versioned(c, K, p, W, me):
    s = exts(p, "set_contract_version")
    if s:
        c.ob((s[-1].a[1], s[-1].a[2]) == me, "version", W, [repr(x)[:160] for x in s], p)
    else:
        c.ob(any(b is False and a.op == "lt" and stored_version(a.a[0]) for a, b in lits_of(p)), "version", W, "no version is recorded", p)


def quiet(c, K, v, W, me):
    for p in okpaths(K, "migrate", v):
        c.ob(not frame(p) and not p.msgs(), "keeps-state", W, sorted(p.writes()), p)
        versioned(c, K, p, W, me)


def once(c, ps, W, me):
    """only a contract of another version is converted"""
    req(c, ps, "converted-once", lambda p: any(b is False and a.op == "eq" and any(stored_version(x) for x in a.a) and me[1] in a.a for a, b in lits_of(p)), W)


def old_config(c, ps, ns, field, W):
    olds = {y for p in ps for x in p.saves(ns) for q, t in live(p, x.a[2]) for y in subterms(fld(t, field)) if y.op == "st"}
    c.ob(len(olds) == 1, "anchor", W + " old config", [show(x) for x in olds])
    return olds.pop() if len(olds) == 1 else None


def converted(c, p, ns, old, W, own=(), names=()):
    """one config is stored: the old one, field by field"""
    s = p.saves(ns)
    if not c.ob(len(s) == 1, "conversion", W, [repr(x)[:200] for x in s], p):
        return
    for q, t in live(p, s[0].a[2]):
        d = adt_fields(t) if t.op == "adt" else {"?": t}
        c.ob(set(names) <= set(d), "conversion", W, sorted(d), q)
        for n, v in d.items():
            if n not in own:
                c.ob(mirrors(q, v, fld(old, n)), "conversion", W + " " + n, show(v)[:300], q)


def staking(c, K, me):
    v = "FromV1"
    W = "%s::migrate/%s" % (K, v)
    c.ob(variants(K, "migrate") == [v], "operations", K + "::migrate", variants(K, "migrate"))
    ps = some_paths(c, K, "migrate", v)
    once(c, ps, W, me)
    names = {STK[0]: ("token_address", "unstaking_duration"), STK[1]: ("staking_addr", "reward_rate", "reward_token"), STK[2]: ("staking_contract", "reward_token")}[K]
    old = old_config(c, ps, "config_v2", names[0], W)
    if old is None:
        return
    owner = fld(old, "owner")
    for p in ps:
        converted(c, p, "config_v2", old, W, names=names)
        c.ob({n for n in frame(p) if n != "ext:cw_ownable::initialize_owner"} == {"config_v2"} and not p.msgs(), "conversion-frame", W, sorted(p.writes()), p)
        versioned(c, K, p, W, me)
        o = exts(p, "initialize_owner")
        if not c.ob(len(o) == 1, "conversion-owner", W, [repr(x)[:160] for x in o], p):
            continue
        for q, t in live(p, o[0].a[-1]):
            k = kind_of(q, t)
            good = payload(t, "Some") is owner or (q.variant_of(owner) == "Some" and payload(t, "Some") is payload(owner, "Some")) if k == "Some" else q.variant_of(owner) == "None"
            c.ob(good, "conversion-owner", W, show(t)[:200], q)
        c.ob(succeeded(p, "initialize_owner"), "conversion-owner", W + " fails", "", p)


def core(c, me):
    K = "dao_dao_core"
    W = K + "::migrate/FromV1"
    c.ob(sorted(variants(K, "migrate")) == ["FromCompatible", "FromV1"], "operations", K + "::migrate", variants(K, "migrate"))
    M = as_(MSG, "FromV1")
    ps = some_paths(c, K, "migrate", "FromV1")
    once(c, ps, W, me)
    old = old_config(c, ps, "config_v2", "name", W)
    if old is None:
        return
    isp = is_write("proposal_modules_v2")
    for p in ps:
        converted(c, p, "config_v2", old, W, own=("dao_uri",), names=("name", "description", "image_url", "automatically_add_cw20s", "automatically_add_cw721s", "dao_uri"))
        for x in p.saves("config_v2"):
            for q, t in live(p, x.a[2]):
                c.ob(equal(q, fld(t, "dao_uri"), F(M, "dao_uri")), "conversion", W + " dao_uri", show(t)[:300], q)
        c.ob(frame(p) <= {"config_v2", "proposal_modules_v2", "total_proposal_module_count", "active_proposal_module_count"}, "conversion-frame", W, sorted(p.writes()), p)
        versioned(c, K, p, W, me)
        for ns in ("total_proposal_module_count", "active_proposal_module_count"):
            s = p.saves(ns)
            c.ob(len(s) == 1 and counts_all(s[0].a[2]), "conversion-count", W + " " + ns, [repr(x)[:200] for x in s], p)
    # the way to a prefix from a position is the one from the number of modules there were
    Z = sym("position")
    users = lambda t, x: {subst(y, {x: Z}) for y in subterms(t) if any(a is x for a in y.a)}
    derived = {z for p in some_paths(c, K, "reply") for s in p.saves("proposal_modules_v2") for r, v in live(p, s.a[2]) for z in users(fld(v, "prefix"), ld("total_proposal_module_count"))}
    each_iter(c, ps, "conversion-every-module", W, isp, 1)
    its = loop_iters(ps, isp)
    c.ob(len(its) > 0, "anchor", W + " loop", len(its))
    for q, l in its:
        w = [x for x in l if isp(x)]
        if not c.ob(len(w) == 1 and w[0].kind == "save", "conversion-module", W, [repr(x)[:200] for x in w], q):
            continue
        k, t = w[0].a[1], w[0].a[2]
        c.ob(k.op == "fld" and k.a[0].op == "as" and k.a[0].a[0].op == "elem" and all_keys(k.a[0].a[0].a[0]), "conversion-every-module", W, show(k)[:300], q)
        for r, x in live(q, t):
            c.ob(fld(x, "address") is k and kind_of(r, fld(x, "status")) == "Enabled", "conversion-module", W, show(x)[:300], r)
            c.ob(any(y.op == "pos" for y in subterms(fld(x, "prefix"))), "conversion-prefix", W, show(fld(x, "prefix"))[:300], r)
            of = {z for y in subterms(fld(x, "prefix")) if y.op == "pos" for z in users(fld(x, "prefix"), y)}
            c.ob(of <= derived, "conversion-prefix", W + " as one added later gets it", sorted(show(z) for z in of - derived), r)
    par = F(M, "params")

    def sent(o):
        """the migrator, if asked for, and nothing else"""
        if o.var(par, "Some", "None") == "None":
            return []
        x = payload(par, "Some")

        def body(p, b):
            if b.op != "adt" or b.a[1] != "UpdateProposalModules":
                return False
            add = fld(b, "to_add")
            if not empty_list(fld(b, "to_disable")) or add.op != "array" or len(add.a) != 1:
                return False
            i = add.a[0]
            return fld(i, "code_id") is fld(x, "migrator_code_id") and fld(i, "msg") is mk("json", fld(x, "params")) and kind_of(p, fld(i, "admin")) == "Some" and empty_list(fld(i, "funds"))
        return [m_exec(SELF, body, lambda p, f: empty_list(f))]
    agree_msgs(c, ps, sent, "conversion-migrator", W)
    quiet(c, K, "FromCompatible", K + "::migrate/FromCompatible", me)


def all_keys(it):
    return it.op == "iter" and it.a[0] in ("keys", "range") and it.a[2] == 0 and all(x.op == "adt" and x.a[1] == "None" for x in it.a[3:5])


def counts_all(t):
    while t.op == "cast":
        t = t.a[-1]
    return t.op == "len" and all_keys(t.a[0])


def pre_propose(c, K, me):
    W = K + "::migrate/FromUnderV250"
    c.ob(sorted(variants(K, "migrate")) == ["Extension", "FromUnderV250"], "operations", K + "::migrate", variants(K, "migrate"))
    c.ob(not okpaths(K, "migrate", "Extension"), "operations", K + "::migrate/Extension", "succeeds")
    M = as_(MSG, "FromUnderV250")
    ps = some_paths(c, K, "migrate", "FromUnderV250")
    req(c, ps, "converted-once", lambda p: any(b is True and a.op == "call" and stored_version(a) or b is True and stored_version(a) and a.op not in ("isv", "ok") for a, b in lits_of(p)), W)
    old = None
    for p in ps:
        for x in p.saves("config"):
            for y in subterms(x.a[2]):
                if y.op == "st":
                    c.ob(old in (None, y), "anchor", W + " old config", show(y), p)
                    old = y
    if old is None:
        c.ob(False, "anchor", W + " old config", "none")
        return
    pol = F(M, "policy")

    def policy(o):
        if o.var(pol, "Some", "None") == "Some":
            return ("is", payload(pol, "Some"))
        if o(fld(old, "open_proposal_submission")):
            return ("Anyone", {"denylist": None})
        return ("Specific", {"dao_members": TRUE, "allowlist": None, "denylist": None})

    def same_policy(q, v, want):
        if want[0] == "is":
            return equal(q, v, want[1])
        return v.op == "adt" and v.a[1] == want[0] and all(fld(v, n) is x if x is not None else empty_list(fld(v, n)) for n, x in want[1].items())
    for p in ps:
        c.ob(frame(p) == {"config"} and not p.msgs(), "conversion-frame", W, sorted(p.writes()), p)
        versioned(c, K, p, W, me)
        converted(c, p, "config", old, W, own=("submission_policy",), names=("deposit_info", "submission_policy"))
        for x in p.saves("config"):
            for q, t in live(p, x.a[2]):
                agree(c, q, fld(t, "submission_policy"), policy, same_policy, "conversion-policy", W)


def run(c):
    seen = []
    for K in KEEP + STK + PRE + ("dao_dao_core", "dao_proposal_single", "cw_fund_distributor"):
        if not c.ob(has_migrate(K), "anchor", K + "::migrate", "gone"):
            continue
        seen.append(K)
        me = identity(c, K)
        if K in STK:
            staking(c, K, me)
        elif K in PRE:
            pre_propose(c, K, me)
        elif K == "dao_dao_core":
            core(c, me)
        else:
            for v in variants(K, "migrate") or [None]:
                if (K, v) not in ELSEWHERE:
                    quiet(c, K, v, "%s::migrate%s" % (K, "/" + v if v else ""), me)
    K = "dao_rewards_distributor"
    ps = some_paths(c, K, "migrate")
    name = identity(c, K)[0]
    req(c, ps, "own-kind", lambda p: any(b is True and a.op == "eq" and name in a.a and any(x.op == "fld" and x.a[1] == "contract" for x in a.a) for a, b in lits_of(p)), K + "::migrate")
    req(c, ps, "upward", lambda p: any(b is True and a.op == "lt" and stored_version(a.a[0]) and not stored_version(a.a[1]) for a, b in lits_of(p)), K + "::migrate")
