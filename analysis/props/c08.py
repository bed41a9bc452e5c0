"""C08 a proposal module's rules.  Only the DAO it serves changes them (and its pre-propose module); every
rule stored, on creation, update or migration, is one a vote could be held under."""
from lib import *
from props.prop import *
from props.status import ONE

DUR = "cw_utils::Duration"


def pct(o, t, zero):
    """a percentage of at most 100% (and above 0)"""
    if o.var(t, "Percent", "Majority") == "Majority":
        return True
    x = payload(t, "Percent")
    return not o(t_lt(ONE, x)) and (zero or not o(t_eq(x, I(0))))


def threshold(t):
    def f(o):
        k = o.var(t, "AbsolutePercentage", "ThresholdQuorum", "AbsoluteCount")
        b = as_(t, k)
        if k == "AbsolutePercentage":
            return pct(o, fld(b, "percentage"), False)
        if k == "ThresholdQuorum":
            return pct(o, fld(b, "threshold"), False) and pct(o, fld(b, "quorum"), True)
        return not o(t_eq(fld(b, "threshold"), I(0)))
    return f


def strategy(t):
    return lambda o: pct(o, F(as_(t, "SingleChoice"), "quorum"), True)


def quorum(t):
    return lambda o: pct(o, t, True)


def period(lo, hi):
    """a minimum voting period is in the units of the maximum and not above it"""
    def f(o):
        if o.var(lo, "Some", "None") == "None":
            return True
        x = payload(lo, "Some")
        k = o.var(x, "Height", "Time")
        return o.var(hi, "Height", "Time") == k and not o(t_lt(payload(hi, k), payload(x, k)))
    return f


def timelock(v, hi):
    """a veto timelock is in the units of the voting period; the vetoer is an address"""
    def f(o):
        if o.var(v, "Some", "None") == "None":
            return True
        x = payload(v, "Some")
        return o.var(fld(x, "timelock_duration"), "Height", "Time") == o.var(hi, "Height", "Time") and o(mk("validaddr", fld(x, "vetoer")))
    return f


FIELDS = {
    "dao_proposal_single": (("threshold", threshold),),
    "dao_proposal_multiple": (("voting_strategy", strategy),),
}
SAME = ("min_voting_period", "max_voting_period", "only_members_execute", "allow_revoting", "close_proposal_on_execution_failure", "veto")


def equal(q, t, m):
    """the stored optional or plain value is the given one"""
    if t is m:
        return True
    k = q.variant_of(m)
    if t.op == "adt" and t.a[1] == k:
        return k == "None" or list(adt_fields(t).values()) == [payload(m, k)]
    return False


def stored_config(c, ps, cfg, src, dao, W, rule, first):
    """the configuration stored is the one asked for"""
    for p in ps:
        s = p.saves(cfg)
        if not c.ob(len(s) == 1 and len(p.writes()[cfg]) == 1, rule + "-value", W, [repr(x)[:200] for x in s], p):
            continue
        for q, t in live(p, s[0].a[2]):
            for n in first + SAME:
                c.ob(equal(q, fld(t, n), F(src, n)), rule + "-value", W + " " + n, show(fld(t, n))[:300], q)
            c.ob(fld(t, "dao") is dao, rule + "-value", W + " dao", show(fld(t, "dao"))[:300], q)


def sound(c, ps, src, W, rule, checks):
    for n, f in checks:
        holds(c, ps, f(F(src, n)), rule + "-valid", W + " " + n)
    holds(c, ps, period(F(src, "min_voting_period"), F(src, "max_voting_period")), rule + "-valid", W + " min_voting_period")
    holds(c, ps, timelock(F(src, "veto"), F(src, "max_voting_period")), rule + "-valid", W + " veto")


def installs(info, dao):
    """no pre-propose module, or one instantiated as asked, reported back when (and only if) it worked"""
    mod = F(as_(info, "ModuleMayPropose"), "info")

    def f(o):
        if o.var(info, "AnyoneMayPropose", "ModuleMayPropose") == "AnyoneMayPropose":
            return []

        def g(p, x):
            w = x.wasm("Instantiate")
            if w is None or x.mode != "success" or x.id is not I(3):
                return False
            d, b = w
            a = fld(mod, "admin")
            k = p.variant_of(a)
            if k == "None":
                adm = d["admin"] is NONE
            else:
                i = payload(a, "Some")
                adm = d["admin"] is some({"CoreModule": dao, "Address": F(as_(i, "Address"), "addr")}.get(p.variant_of(i), UNIT))
            return adm and d["code_id"] is fld(mod, "code_id") and d["funds"] is fld(mod, "funds") and d["label"] is fld(mod, "label") and b is fld(mod, "msg")
        return [g]
    return f


def policy(c, ps, W, rule):
    """until its module reports back, anyone may propose"""
    for p in ps:
        s = p.saves("creation_policy")
        c.ob(len(s) == 1 and all(is_adt(t, "Anyone") for x in s for _, t in live(p, x.a[2])), rule + "-open", W, [repr(x)[:200] for x in s], p)


def frame(p):
    return {n for n in p.writes() if not n.startswith("ext:cw2::")}


def run(c):
    for mod in (SINGLE, MULTI):
        K, cfg = mod.crate, mod.cfg
        checks = FIELDS[K]
        first = tuple(n for n, _ in checks)
        isdao = t_eq(SENDER, mod.dao)
        # change of the rules
        W = K + "::execute/UpdateConfig"
        ps = some_paths(c, K, "execute", "UpdateConfig")
        U = as_(MSG, "UpdateConfig")
        req(c, ps, "update-authority", isdao, W)
        sound(c, ps, U, W, "update", checks)
        stored_config(c, ps, cfg, U, valid(F(U, "dao")), W, "update", first)
        for p in ps:
            c.ob(set(p.writes()) == {cfg}, "update-frame", W, sorted(p.writes()), p)
        msgs_ok(c, ps, "update-frame", [])
        # change of the pre-propose module
        W = K + "::execute/UpdatePreProposeInfo"
        ps = some_paths(c, K, "execute", "UpdatePreProposeInfo")
        req(c, ps, "pre-propose-authority", isdao, W)
        policy(c, ps, W, "pre-propose")
        for p in ps:
            c.ob(set(p.writes()) == {"creation_policy"}, "pre-propose-frame", W, sorted(p.writes()), p)
        agree_msgs(c, ps, installs(F(as_(MSG, "UpdatePreProposeInfo"), "info"), mod.dao), "pre-propose-module", W)
        # creation
        W = K + "::instantiate"
        ps = some_paths(c, K, "instantiate")
        sound(c, ps, MSG, W, "initial", checks)
        stored_config(c, ps, cfg, MSG, SENDER, W, "initial", first)
        policy(c, ps, W, "initial")
        for p in ps:
            c.ob(frame(p) == {cfg, "creation_policy", "proposal_count"} and all(x.a[2] is I(0) for x in p.saves("proposal_count")), "initial-frame", W, sorted(p.writes()), p)
        agree_msgs(c, ps, installs(F(MSG, "pre_propose_info"), SENDER), "initial-module", W)
        # nothing else touches the rules or who may propose
        for v in variants(K, "execute"):
            if v in ("UpdateConfig", "UpdatePreProposeInfo"):
                continue
            for p in okpaths(K, "execute", v):
                c.ob(not ({cfg, "creation_policy", "dao"} & set(p.writes())), "frame", "%s::execute/%s" % (K, v), sorted(p.writes()), p)
        answer_is(c, "query", K, "Config", [lambda p, v: v is ld(cfg)])
        answer_is(c, "query", K, "ProposalCreationPolicy", [lambda p, v: v is ld("creation_policy")])
        answer_is(c, "query", K, "Dao", [lambda p, v: v is mod.dao])
    migrated(c)
    condorcet(c)


def mirrors(q, t, m):
    """t is m, rebuilt field by field in another type (an absent minimum period included)"""
    ok = True
    for r, x in live(q, t):
        ok = ok and mirror(r, x, m)
    return ok


def mirror(q, t, m):
    if t is m:
        return True
    if t.op == "default":
        return False
    if t.op != "adt":
        return False
    d = adt_fields(t)
    if t.a[0].rsplit("::", 1)[-1] == t.a[1]:
        return all(mirrors(q, v, fld(m, n)) for n, v in d.items())
    if q.variant_of(m) != t.a[1]:
        return False
    b = as_(m, t.a[1])
    return all(mirrors(q, v, fld(b, n)) or mirrors(q, v, payload(m, t.a[1])) for n, v in d.items())


def migrated(c):
    """the upgrade of a v1 module keeps its rules and its proposals"""
    K = SINGLE.crate
    W = K + "::migrate/FromV1"
    M = as_(MSG, "FromV1")
    ps = some_paths(c, K, "migrate", "FromV1")
    own = ("close_proposal_on_execution_failure", "veto")
    olds = {y for p in ps for x in p.saves("config_v2") for y in subterms(fld(x.a[2], "dao")) if y.op == "st"}
    if not c.ob(len(olds) == 1, "anchor", W + " v1 config", [show(x) for x in olds]):
        return
    old = olds.pop()
    cur = lambda p: any(b is False and a.op == "eq" and any(x.op == "fld" and x.a[1] == "version" for x in a.a) for a, b in lits_of(p))
    req(c, ps, "upgrade-once", cur, W)
    done = set()
    for p in ps:
        if not p.feasible():
            continue
        s = p.saves("config_v2")
        if c.ob(len(s) == 1, "upgrade-config", W, [repr(x)[:200] for x in s], p):
            t = s[0].a[2]
            for n, v in adt_fields(t).items() if t.op == "adt" else []:
                if n in own:
                    c.ob(equal(p, v, F(M, n)), "upgrade-config", W + " " + n, show(v)[:300], p)
                else:
                    c.ob(mirrors(p, v, fld(old, n)), "upgrade-config", W + " " + n, show(v)[:300], p)
        c.ob(frame(p) <= {"config_v2", "creation_policy", "proposals_v2"}, "upgrade-frame", W, sorted(p.writes()), p)
    hi = fld(old, "max_voting_period")
    holds(c, ps, timelock(F(M, "veto"), hi), "upgrade-valid", W + " veto")
    policy(c, ps, W, "upgrade")
    # its proposals
    isp = is_write("proposals_v2")
    each_iter(c, ps, "upgrade-every-proposal", W, isp, 1)
    its = loop_iters(ps, isp)
    c.ob(len(its) > 0, "anchor", W + " loop", len(its))
    for q, l in its:
        w = [x for x in l if isp(x)]
        if not c.ob(len(w) == 1 and w[0].kind == "save" and [x.op for x in subterms(w[0].a[1]) if x.op == "elem"] == ["elem"], "upgrade-proposal", W, [repr(x)[:200] for x in w], q):
            continue
        k, t = w[0].a[1], w[0].a[2]
        e = [x for x in subterms(k) if x.op == "elem"][0]
        it = e.a[0]
        src = payload(e, "Ok")
        c.ob(it.op == "iter" and it.a[0] == "range" and it.a[2] == 0 and all(x.op == "adt" and x.a[1] == "None" for x in it.a[3:5]) and k is fld(src, "0"), "upgrade-every-proposal", W, show(k)[:200], q)
        o = fld(src, "1")
        for n, v in adt_fields(t).items() if t.op == "adt" else [("?", t)]:
            ok = v.op == "adt" and v.a[1] == "None" if n == "veto" else mirrors(q, v, fld(o, n))
            c.ob(ok, "upgrade-proposal", W + " " + n, show(v)[:300], q)

        def settled(r):
            """no deposit is left behind"""
            dep, st = fld(o, "deposit_info"), fld(o, "status")
            if r.var(dep, "Some", "None") == "None" or r(t_eq(fld(payload(dep, "Some"), "deposit"), I(0))):
                return True
            return r(t_isv(st, "Closed")) or r(t_isv(st, "Executed"))
        holds(c, [q], settled, "upgrade-no-deposits", W)
    for p in some_paths(c, K, "migrate", "FromCompatible"):
        c.ob(not frame(p) and not p.msgs(), "upgrade-frame", K + "::migrate/FromCompatible", sorted(p.writes()), p)
    K = MULTI.crate
    for p in some_paths(c, K, "migrate"):
        c.ob(not frame(p) and not p.msgs(), "upgrade-frame", K + "::migrate", sorted(p.writes()), p)


def condorcet(c):
    K, cfg = COND.crate, COND.cfg
    names = {"quorum": "quorum", "voting_period": "voting_period", "min_voting_period": "min_voting_period", "close_proposals_on_execution_failure": "close_proposals_on_execution_failure"}
    for W, ps, src, rule in ((K + "::execute/SetConfig", some_paths(c, K, "execute", "SetConfig"), F(as_(MSG, "SetConfig"), "0"), "update"), (K + "::instantiate", some_paths(c, K, "instantiate"), MSG, "initial")):
        holds(c, ps, quorum(F(src, "quorum")), rule + "-valid", W + " quorum")
        holds(c, ps, period(F(src, "min_voting_period"), F(src, "voting_period")), rule + "-valid", W + " min_voting_period")
        for p in ps:
            s = p.saves(cfg)
            c.ob(len(s) == 1 and frame(p) == ({cfg} if rule == "update" else {cfg, "dao"}), rule + "-frame", W, sorted(p.writes()), p)
            for x in s:
                for q, t in live(p, x.a[2]):
                    for n in names:
                        c.ob(equal(q, fld(t, n), F(src, n)), rule + "-value", W + " " + n, show(fld(t, n))[:300], q)
            if rule == "initial":
                c.ob([x.a[2] for x in p.saves("dao")] == [SENDER], "initial-value", W + " dao", "", p)
        msgs_ok(c, ps, rule + "-frame", [])
        if rule == "update":
            req(c, ps, "update-authority", t_eq(SENDER, ld("dao")), W)
    for v in variants(K, "execute"):
        if v != "SetConfig":
            for p in okpaths(K, "execute", v):
                c.ob(not ({cfg, "dao"} & set(p.writes())), "frame", "%s::execute/%s" % (K, v), sorted(p.writes()), p)
    answer_is(c, "query", K, "Config", [lambda p, v: v is ld(cfg)])
    answer_is(c, "query", K, "Dao", [lambda p, v: v is ld("dao")])
