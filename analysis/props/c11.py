"""C11 proposal approval.  A submission waits under a fresh id with its proposer and deposit; only the
approver approves or rejects it, once; approval forwards exactly the stored proposal and re-files the
deposit under the id it gets; rejection returns the deposit by its refund policy.  The approver
contract opens a message-less proposal for each submission and answers with its outcome."""
from props.pre import *
from props.c09 import hook_registry

PEND, DONE = "pending_proposals", "completed_proposals"


def setp(mid, v):
    return F(MSG, "@Extension.msg@" + v)


def ext(crate, v):
    return okpaths(crate, "execute", "Extension", pre=[(F(as_(MSG, "Extension"), "msg"), v)])


def run(c):
    K = APPROVAL
    # submission
    W = K + "::execute/Propose"
    content = F(MSG, "@Propose.msg@Propose")
    ps = some_paths(c, K, "execute", "Propose")
    for p in ps:
        if not p.feasible():
            continue
        cur = p.saves("current_id")
        pe = p.saves(PEND)
        if not c.ob(len(cur) == 1 and len(pe) == 1 and set(p.writes()) == {"current_id", PEND}, "submission-frame", W, sorted(p.writes()), p):
            continue
        nid = cur[0].a[2]
        want = t_add(I(1), ld("current_id")) if p.truth(has("current_id")) is not False else I(1)
        c.ob(same(nid, want) or (nid is I(1) and p.truth(has("current_id")) is False), "submission-id", W, show(nid), p)
        c.ob(pe[0].a[1] is nid, "submission-id", W + " key", show(pe[0].a[1]), p)
        for q, t in live(p, pe[0].a[2]):
            ok = t.op == "adt"
            if ok:
                d = adt_fields(t)
                ok = is_adt(d["status"], "Pending") and d["approval_id"] is nid and d["proposer"] is SENDER and d["deposit"] is DEP and own(d["msg"], content)
            c.ob(ok, "submission-stored", W, show(t)[:500], q)

        def told(q, g):
            w = g.wasm("Execute")
            if w is None or w[0]["contract_addr"] is not mk("elem", ld("proposal_submitted_hooks")) or not empty_list(w[0]["funds"]):
                return False
            b = bfields(w[1], "Propose")
            b = b and bfields(b["msg"], "Propose")
            return bool(b) and b["approval_id"] is nid and all(b[n] is fld(content, n) for n in b if n != "approval_id")
        agree_msgs(c, [p], lambda o: take_spec(o, [Each(ld("proposal_submitted_hooks"), told, "proposal_submitted_hooks")]), "submission-messages", W)
    # decisions
    appr = t_eq(SENDER, ld("approver"))
    for v, state in (("Approve", "Approved"), ("Reject", "Rejected")):
        W = "%s::execute/Extension/%s" % (K, v)
        i = fld(setp(0, v), "id")
        pp = ld(PEND, i)
        ps = ext(K, v)
        c.ob(len(ps) > 0, "anchor", W, len(ps))
        req(c, ps, "approver-only", appr, W)
        req(c, ps, "pending-once", has(PEND, i), W)

        def moved(p, t, state=state, pp=pp):
            if t.op == "upd":
                return t.a[0] is pp and t.a[1] == "status" and is_adt(t.a[2], state) and created(t.a[2])
            if t.op != "adt":
                return False
            d = adt_fields(t)
            return is_adt(d["status"], state) and created(d["status"]) and all(x is fld(pp, n) for n, x in d.items() if n != "status")
        w = {DONE: (i, moved), PEND: (i, REMOVED)}
        if v == "Approve":
            w["deposits"] = (is_next_id, mk("tuple", fld(pp, "deposit"), fld(pp, "proposer")))
            w["created_to_completed_proposal"] = (is_next_id, i)
        writes_ok(c, ps, "decision", w, must=list(w))
        if v == "Approve":
            def fwd(q, g, pp=pp):
                x = g.wasm("Execute")
                return x is not None and x[0]["contract_addr"] is MODULE and empty_list(x[0]["funds"]) and is_adt(x[1], "Propose") and x[1].a[3] is fld(pp, "msg") and g.mode == "never"
            agree_msgs(c, ps, lambda o: [fwd], "approval-forwards", W)
        else:
            agree_msgs(c, ps, lambda o: return_spec(o, fld(pp, "deposit"), lambda o, d: o.var(fld(d, "refund_policy"), "Always", "OnlyPassed", "Never") == "Always", fld(pp, "proposer")), "rejection-refund", W)
    W = K + "::execute/Extension/UpdateApprover"
    ps = ext(K, "UpdateApprover")
    req(c, ps, "approver-only", appr, W)
    writes_ok(c, ps, "approver-update", {"approver": (UNIT, valid(fld(setp(0, "UpdateApprover"), "address")))}, must=["approver"])
    msgs_ok(c, ps, "approver-update", [])
    for v, add in (("AddProposalSubmittedHook", True), ("RemoveProposalSubmittedHook", False)):
        hook_registry(c, K, v, "proposal_submitted_hooks", valid(F(as_(MSG, v), "address")), add, [[appr, t_eq(SENDER, DAO)]])
    for en, vs in (("execute", variants(K, "execute")), ("instantiate", [None])):
        for v in vs:
            if v in ("Propose", "Extension"):
                continue
            for p in okpaths(K, en, v):
                allowed = {"approver"} if en == "instantiate" else set()
                bad = {PEND, DONE, "current_id", "created_to_completed_proposal", "approver"} & set(p.writes()) - allowed
                c.ob(not bad, "approval-frame", "%s::%s%s" % (K, en, "/" + v if v else ""), sorted(bad), p)
    for p in okpaths(K, "instantiate"):
        s = p.saves("approver")
        c.ob(len(s) == 1 and s[0].a[2] is valid(F(MSG, "extension.approver")), "approver-initial", K + "::instantiate", [repr(x)[:200] for x in s], p)
    # pending and completed are answered as stored
    for v, q in (("IsPending", None), ("PendingProposal", PEND), ("CompletedProposal", DONE), ("CompletedProposalIdForCreatedProposalId", "created_to_completed_proposal"), ("Proposal", None), ("Approver", None)):
        x = F(MSG, "@QueryExtension.msg@" + v)
        ps = okpaths(K, "query", "QueryExtension", pre=[(F(as_(MSG, "QueryExtension"), "msg"), v)])
        n = 0
        W = "%s::query/QueryExtension/%s" % (K, v)
        for p in ps:
            for r, t in live(p, p.ret):
                n += 1
                t = t.a[0] if t.op == "json" else t
                i = fld(x, "id")
                if v == "IsPending":
                    pend = r.truth(has(PEND, i))
                    ok = t is has(PEND, i) or (t in (TRUE, I(1)) and pend is True) or (t in (FALSE, I(0)) and pend is False and r.truth(has(DONE, i)) is not False)
                    ok = ok or (t is t_not(has(DONE, i)))
                elif v == "Approver":
                    ok = t is ld("approver")
                elif v == "Proposal":
                    ok = (t is ld(PEND, i) and r.truth(has(PEND, i)) is True) or (t is ld(DONE, i))
                elif v == "CompletedProposalIdForCreatedProposalId":
                    ok = (is_adt(t, "Some") and t.a[3] is ld(q, i)) or (is_adt(t, "None") and r.truth(has(q, i)) is False)
                else:
                    ok = t is ld(q, i)
                c.ob(ok, "approval-query", W, show(t)[:300], r)
        c.ob(n > 0, "anchor", W, n)
    approver(c)


def created(t):
    """Approved names the id the proposal module gives out next"""
    d = adt_fields(t)
    return not d or all(is_next_id(x) for n, x in d.items() if n == "created_proposal_id")


def own(b, content):
    if b.op != "adt":
        return False
    d = adt_fields(b)
    pr = d.pop("proposer", None)
    return pr is not None and is_adt(pr, "Some") and pr.a[3] is SENDER and bool(d) and all(v is fld(content, n) for n, v in d.items())


def approver(c):
    K = APPROVER
    AC = ld("pre_propose_approval_contract")
    P2P, BACK = "proposal_to_pre_propose", "pre_propose_to_proposal"
    content = F(MSG, "@Propose.msg@Propose")
    W = K + "::execute/Propose"

    def propose(p, g):
        w = g.wasm("Execute")
        b = w and bfields(w[1], "Propose")
        while b is not None and b is not False and "0" in b:
            b = adt_fields(b["0"])
        return bool(b) and w[0]["contract_addr"] is MODULE and empty_list(w[0]["funds"]) and empty_list(b["msgs"]) and is_adt(b["proposer"], "Some") and b["proposer"].a[3] in (SENDER, AC) \
            and b["title"] is fld(content, "title") and b["description"] is fld(content, "description")
    aid = fld(content, "approval_id")
    ps = spec(c, "approver-propose", K, "execute", "Propose", guards=[t_eq(SENDER, AC)],
              writes={P2P: (is_next_id, aid), BACK: lambda p, k, v: k is aid and v is not REMOVED and is_next_id(v)}, must=[P2P, BACK])
    agree_msgs(c, ps, lambda o: [propose], "approver-propose:messages", W)
    W = K + "::execute/ProposalCompletedHook"
    H = as_(MSG, "ProposalCompletedHook")
    st, pid = fld(H, "new_status"), fld(H, "proposal_id")
    ps = spec(c, "approver-outcome", K, "execute", "ProposalCompletedHook", guards=[t_eq(SENDER, MODULE)], writes={})

    def verdict(v):
        def f(p, g):
            w = g.wasm("Execute")
            b = w and bfields(w[1], "Extension")
            b = b and bfields(b["msg"], v)
            return bool(b) and w[0]["contract_addr"] is AC and b["id"] is ld(P2P, pid) and empty_list(w[0]["funds"])
        return f

    def outcome(o):
        k = o.var(st, "Executed", "Closed", "Vetoed", "other")
        return [verdict("Approve")] if k == "Executed" else [verdict("Reject")] if k in ("Closed", "Vetoed") else None
    agree_msgs(c, ps, outcome, "approver-outcome:messages", W)
    # every terminal status is answered
    for s in ("Executed", "Closed", "Vetoed"):
        n = len([p for p in okpaths(K, "execute", "ProposalCompletedHook", pre=[(st, s)]) if p.feasible()])
        c.ob(n > 0, "approver-outcome:answers", W + "/" + s, n)
    for v in ("UpdateConfig", "UpdateSubmissionPolicy"):
        n = len([p for p in okpaths(K, "execute", v) if p.feasible()])
        c.ob(n == 0, "approver-fixed-config", "%s::execute/%s" % (K, v), n)
    W = K + "::execute/Extension"

    def reset(body, **f):
        def g(p, x):
            w = x.wasm("Execute")
            b = w and bfields(w[1], body)
            if b and body == "Extension":
                b = bfields(b["msg"], "UpdateApprover")
            return bool(b) and w[0]["contract_addr"] is AC and all(b[n] is f[n] for n in f)
        return g
    ps = spec(c, "approver-reset", K, "execute", "Extension", guards=[t_eq(SENDER, DAO)], writes={})
    agree_msgs(c, ps, lambda o: [reset("RemoveProposalSubmittedHook", address=SELF), reset("Extension", address=DAO)], "approver-reset:messages", W)
    for en, vs in (("execute", variants(K, "execute")), ("instantiate", [None])):
        for v in vs:
            for p in okpaths(K, en, v):
                w = set(p.writes())
                if v != "Propose":
                    c.ob(not ({P2P, BACK} & w), "approver-frame", "%s::%s/%s" % (K, en, v), sorted(w), p)
                if en != "instantiate":
                    c.ob("pre_propose_approval_contract" not in w, "approver-frame", "%s::%s/%s contract" % (K, en, v), sorted(w), p)
    W = K + "::instantiate"
    a = valid(fld(MSG, "pre_propose_approval_contract"))
    for p in some_paths(c, K, "instantiate"):
        s = p.saves("pre_propose_approval_contract")
        c.ob(len(s) == 1 and s[0].a[2] is a, "approver-bound", W, [repr(x)[:200] for x in s], p)
        # the DAO core is asked (through the instantiation's data) to register this contract
        data = [x.a[0] for x in subterms(p.ret) if x.op == "data"]
        bodies = []
        for d in data:
            for x in subterms(d):
                if x.op == "adt" and x.a[0].endswith("WasmMsg") and x.a[1] == "Execute":
                    f = adt_fields(x)
                    bodies.append((f["contract_addr"], f["msg"].a[0] if f["msg"].op == "json" else f["msg"]))
        ok1 = any(t is a and (bfields(b, "AddProposalSubmittedHook") or {}).get("address") is SELF for t, b in bodies)
        ok2 = any(t is a and bfields(b, "Extension") and (bfields(bfields(b, "Extension")["msg"], "UpdateApprover") or {}).get("address") is SELF for t, b in bodies)
        c.ob(ok1 and ok2 and len(bodies) == 2, "approver-registers", W, [show(b)[:200] for _, b in bodies], p)
    for v, m in (("PreProposeApprovalIdForApproverProposalId", P2P), ("ApproverProposalIdForPreProposeApprovalId", BACK)):
        x = F(MSG, "@QueryExtension.msg@" + v)
        for p in okpaths(K, "query", "QueryExtension", pre=[(F(as_(MSG, "QueryExtension"), "msg"), v)]):
            for r, t in live(p, p.ret):
                t = t.a[0] if t.op == "json" else t
                c.ob((is_adt(t, "Some") and t.a[3] is ld(m, fld(x, "id"))) or (is_adt(t, "None") and r.truth(has(m, fld(x, "id"))) is False), "approver-query", "%s::query/%s" % (K, v), show(t)[:200], r)
