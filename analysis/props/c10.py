"""C10 proposal deposits.  A submission succeeds only for someone the policy admits, takes exactly the
configured deposit, forwards the sender's own proposal first, and snapshots deposit and proposer under
the id the proposal gets; on completion exactly that deposit goes, once per report, to the proposer or
the DAO as the snapshotted refund policy says; otherwise held funds leave only to the DAO on its word."""
from props.pre import *
from props.c09 import hook_registry


def run(c):
    isdao = t_eq(SENDER, DAO)
    for K in (SINGLE_PP, MULTI_PP, APPROVAL):
        W = K + "::execute/Propose"
        ps = some_paths(c, K, "execute", "Propose")
        holds(c, ps, may_submit(), "may-submit", W)
        req(c, ps, "native-deposit", deposit_taken, W)
        if K != APPROVAL:
            content = F(MSG, "@Propose.msg@Propose")

            def propose(p, g):
                w = g.wasm("Execute")
                if w is None or w[0]["contract_addr"] is not MODULE or not empty_list(w[0]["funds"]):
                    return False
                return own_content(w[1], content)

            def hook(p, g):
                w = g.wasm("Execute")
                return w is not None and w[0]["contract_addr"] is mk("elem", ld("proposal_submitted_hooks")) and own_content(w[1], content)
            agree_msgs(c, ps, lambda o: take_spec(o, [propose, Each(ld("proposal_submitted_hooks"), hook, "proposal_submitted_hooks")]),
                       "submission-messages", W, first=0)
            writes_ok(c, ps, "deposit-snapshot", {"deposits": (is_next_id, mk("tuple", DEP, SENDER))}, must=["deposits"])
        # completion
        W = K + "::execute/ProposalCompletedHook"
        H = as_(MSG, "ProposalCompletedHook")
        ps = some_paths(c, K, "execute", "ProposalCompletedHook")
        req(c, ps, "completion-caller", t_eq(SENDER, MODULE), W)
        st = fld(H, "new_status")
        holds(c, ps, lambda o: o(t_isv(st, "Closed")) or o(t_isv(st, "Executed")) or o(t_isv(st, "Vetoed")), "completion-status", W)
        rec = ld("deposits", fld(H, "proposal_id"))

        def refund(o):
            if not o(has("deposits", fld(H, "proposal_id"))):
                return []

            def to_proposer(o, d):
                k = o.var(fld(d, "refund_policy"), "Always", "OnlyPassed", "Never")
                return k == "Always" or (k == "OnlyPassed" and o(t_isv(st, "Executed")))
            return return_spec(o, fld(rec, "0"), to_proposer, fld(rec, "1"))
        agree_msgs(c, ps, refund, "refund", W)
        writes_ok(c, ps, "completion-frame", {"deposits": (fld(H, "proposal_id"), REMOVED)})
        # withdrawal by the DAO: a whole balance, to the DAO
        W = K + "::execute/Withdraw"
        ps = some_paths(c, K, "execute", "Withdraw")
        req(c, ps, "withdraw-dao", isdao, W)
        writes_ok(c, ps, "withdraw-frame", {})
        for p in ps:
            for q, gs in msg_cases(p):
                ok = len(gs) == 1 and withdrawn(q, gs[0])
                c.ob(ok, "withdraw-to-dao", W, [repr(g)[:300] for g in gs], q)
        # configuration
        for v in ("UpdateConfig", "UpdateSubmissionPolicy"):
            spec(c, "config-dao", K, "execute", v, guards=[isdao], writes={"config": None}, msgs=[], must=["config"])
        U = as_(MSG, "UpdateConfig")
        for en, v, src in (("execute", "UpdateConfig", U), ("instantiate", None, MSG)):
            W = "%s::%s%s" % (K, en, "/" + v if v else "")
            for p in some_paths(c, K, en, v):
                s = p.saves("config")
                c.ob(len(s) == 1, "config-stored", W, len(s), p)
                for x in s:
                    valid_deposit(c, p, fld(x.a[2], "deposit_info"), fld(src, "deposit_info"), W)
                    for q, t in live(p, fld(x.a[2], "submission_policy")):
                        given = fld(src, "submission_policy")
                        if en == "execute":
                            ok = t is payload(given, "Some") or (t is POLICY and q.variant_of(given) == "None")
                        else:
                            ok = t is given
                        c.ob(ok or same_policy(t, given if en != "execute" else payload(given, "Some")), "policy-config", W, show(t)[:300], q)
                    req(c, [p], "policy-sane", sane_policy(fld(x.a[2], "submission_policy")), W, when=(lambda p: p.saves("config")[0].a[2] is not None and fld(p.saves("config")[0].a[2], "submission_policy") is not POLICY))
        W = K + "::execute/UpdateSubmissionPolicy"
        S = as_(MSG, "UpdateSubmissionPolicy")
        for p in some_paths(c, K, "execute", "UpdateSubmissionPolicy"):
            for x in p.saves("config"):
                t = fld(x.a[2], "submission_policy")
                req(c, [p], "policy-sane", sane_policy(t), W)
                c.ob(fld(x.a[2], "deposit_info") is DEP, "policy-frame", W, show(fld(x.a[2], "deposit_info"))[:200], p)
                k = p.variant_of(POLICY)
                if not c.ob(t.op == "adt" and t.a[1] == k, "policy-kind", W, show(t)[:200], p):
                    continue
                if k == "Specific":
                    m, g = fld(as_(t, k), "dao_members"), fld(S, "set_dao_members")
                    for q, v in live(p, m):
                        c.ob(v is payload(g, "Some") if q.variant_of(g) == "Some" else v is fld(as_(POLICY, k), "dao_members"), "policy-members", W, show(v)[:200], q)
                    updated_list(c, p, fld(as_(t, k), "allowlist"), fld(as_(POLICY, k), "allowlist"), fld(S, "allowlist_add"), fld(S, "allowlist_remove"), W, "allowlist")
                updated_list(c, p, fld(as_(t, k), "denylist"), fld(as_(POLICY, k), "denylist"), fld(S, "denylist_add"), fld(S, "denylist_remove"), W, "denylist")
        for v, add in (("AddProposalSubmittedHook", True), ("RemoveProposalSubmittedHook", False)):
            a = valid(F(as_(MSG, v), "address"))
            if K == APPROVAL:
                continue
            hook_registry(c, K, v, "proposal_submitted_hooks", a, add, [isdao])
        # instantiation binds the module to its proposal module and that module's DAO
        W = K + "::instantiate"
        for p in okpaths(K, "instantiate"):
            m, d = p.saves("proposal_module"), p.saves("dao")
            c.ob(len(m) == 1 and m[0].a[2] is SENDER, "bound", W + " proposal module", [repr(x)[:200] for x in m], p)
            c.ob(len(d) == 1 and d[0].a[2].op == "query" and d[0].a[2].a[0] is SENDER and is_adt(d[0].a[2].a[1], "Dao"), "bound", W + " dao", [repr(x)[:200] for x in d], p)
        # nothing else pays out or moves the record
        for v in variants(K, "execute"):
            for p in okpaths(K, "execute", v):
                w = p.writes()
                c.ob(not ({"proposal_module", "dao"} & set(w)), "binding-frame", "%s::execute/%s" % (K, v), sorted(w), p)
                if v not in ("Propose", "ProposalCompletedHook", "Extension"):
                    c.ob("deposits" not in w, "deposit-frame", "%s::execute/%s" % (K, v), sorted(w), p)
        if K != APPROVAL:
            spec(c, "extension", K, "execute", "Extension", writes={}, msgs=[])


def own_content(b, content):
    """ProposeMessageInternal::Propose(..) with the sender as proposer and everything else as given"""
    while b.op == "adt" and b.a[1] == "Propose" and len(b.a) == 4 and b.a[3].op == "adt":
        b = b.a[3]
    if b.op != "adt":
        return False
    d = adt_fields(b)
    pr = d.pop("proposer", None)
    return pr is not None and is_adt(pr, "Some") and pr.a[3] is SENDER and bool(d) and all(v is fld(content, n) for n, v in d.items())


def same_policy(t, given):
    if t.op != "adt":
        return False
    return all(v is fld(as_(given, t.a[1]), n) for n, v in adt_fields(t).items())


def withdrawn(q, g):
    b = g.bank()
    if b is not None:
        to, cs = b
        if to is not DAO or cs.op != "array" or len(cs.a) != 1:
            return False
        d = adt_fields(cs.a[0])
        a = d["amount"]
        return any(x.op == "call" and x.a[0].endswith("query_balance") and SELF in x.a and d["denom"] in x.a for x in subterms(a)) and a.op == "fld"
    w = g.wasm("Execute")
    if w is None:
        return False
    x = bfields(w[1], "Transfer")
    if x is None or x["recipient"] is not DAO:
        return False
    a = x["amount"]
    return a.op == "fld" and a.a[1] == "balance" and a.a[0].op == "query" and a.a[0].a[0] is w[0]["contract_addr"] and adt_fields(a.a[0].a[1]).get("address") is SELF


def sane_policy(t):
    """someone is allowed, and nobody is both allowed and denied"""
    def f(p):
        k = kind_of(p, t)
        if k == "Anyone":
            return True
        if k != "Specific":
            return False
        s = as_(t, "Specific")
        al, de = fld(s, "allowlist"), fld(s, "denylist")
        m = p.truth(fld(s, "dao_members")) is True or p.truth(t_eq(length(al), I(0))) is False
        o = any(x.op == "iany" and v is False and ((x.a[0] is al and contains(x, de)) or (x.a[0] is de and contains(x, al))) for x, v in lits_of(p))
        return m and o
    return f


def updated_list(c, p, t, old, add, remove, W, name):
    """old plus `add` minus `remove`, nothing from another list; both by the given options"""
    for q, v in live(p, t):
        xs = set(subterms(v))
        own = {old, payload(add, "Some"), payload(remove, "Some")}
        src = {x for x in xs if (x.op == "st" or x is payload(add, "Some") or x is payload(remove, "Some")) or (x.op == "fld" and x.a[1].endswith(("_add", "_remove")))}
        ok = old in xs
        a, r = q.variant_of(add), q.variant_of(remove)
        ok = ok and (payload(add, "Some") in xs) == (a == "Some") and (payload(remove, "Some") in xs) == (r == "Some")
        ok = ok and all(x in (CFG, add, remove) or x in own for x in src)
        if a == "Some":
            ok = ok and valid(mk("elem", payload(add, "Some"))) in xs
        if r == "Some":
            ok = ok and v.op == "ifilter" and v.a[1].op == "not" and v.a[1].a[0].op == "iany"
        c.ob(ok, "policy-lists", W + " " + name, show(v)[:400], q)
