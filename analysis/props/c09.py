"""C09 a proposal module tells its subscribers.  Every creation, vote and change of a stored status is
announced to every registered hook with the true id, voter and statuses; every terminal state is
announced to the pre-propose module; each announcement is a sub-message whose failure comes back under
its own reply id and removes only that subscriber; only the DAO registers or removes hooks."""
from lib import *
from props.prop import *
from props import status as S

POL = ld("creation_policy")


def hook(ns, variant, tag, fields):
    """an announcement to each hook of the list; fields: {name: predicate on (P, value)}"""
    hs = ld(ns)

    def f(p, g):
        w = g.wasm("Execute")
        if w is None or g.mode != "error":
            return False
        d, b = w
        if d["contract_addr"] is not mk("elem", hs):
            return False
        while b.op == "adt" and b.a[1] in ("ProposalHook", "VoteHook"):
            b = b.a[3]
        x = bfields(b, variant)
        if x is None or not is_empty(d["funds"]):
            return False
        i = reply_tag(g.id, tag)
        if i is None or i.op != "pos" or i.a[0] is not hs:
            return False
        return all(fields[n](p, x[n]) for n in fields) and set(x) == set(fields)
    return f


def is_empty(t):
    return t.op in ("array", "default") and not (t.op == "array" and t.a)


def completed(pid, state):
    def f(p, g):
        w = g.wasm("Execute")
        if w is None or g.mode != "error" or g.id is not I(4):
            return False
        d, b = w
        x = bfields(b, "ProposalCompletedHook")
        return (x is not None and d["contract_addr"] is F(as_(POL, "Module"), "addr") and x["proposal_id"] is pid
                and is_adt(x["new_status"], state) and p.variant_of(POL) == "Module" and is_empty(d["funds"]))
    return f


def is_(t):
    return lambda p, v: v is t


def any_(p, v):
    return True


def sent(c, p, gs, pred, rule, where, ns, want=True):
    hit = False
    for g in gs:
        if g.conds:
            continue        # told only of some
        cs = p.split(g.msg)
        if all(pred(q2, G(m, g.mode, g.id, g.each, g.maybe, g.conds)) for q2, (m,) in cs if q2.feasible()):
            hit = True
        elif any(pred(q2, G(m, g.mode, g.id, g.each, g.maybe, g.conds)) for q2, (m,) in cs if q2.feasible()):
            hit = hit or None
    c.ob(hit is want or absent(p, ns), rule, where, [repr(g)[:300] for g in gs], p)
    return hit


def absent(p, ns):
    """nobody is registered"""
    return p.entails(t_not(has(ns))) or p.truth(has(ns)) is False or p.entails(t_eq(mk("len", ld(ns)), I(0)))


def run(c):
    for mod in (SINGLE, MULTI):
        K = mod.crate
        P0 = fld(as_(MSG, "Propose"), "0")
        # creation
        W = K + "::execute/Propose"
        for p in some_paths(c, K, "execute", "Propose"):
            if not p.feasible():
                continue
            s = p.saves(mod.ns)
            pid, new = s[0].a[1], s[0].a[2]
            h = hook("proposal_hooks", "NewProposal", 1, {"id": is_(pid), "proposer": is_(fld(new, "proposer"))})
            vt = payload(fld(P0, "vote"), "Some")
            hv = hook("vote_hooks", "NewVote", 2, {"proposal_id": is_(pid), "voter": is_(fld(new, "proposer")), "vote": is_(fld(vt, "vote"))})
            for q, gs in p.worlds():
                if q.feasible():
                    sent(c, q, gs, h, "announce-new", W, "proposal_hooks")
                    if p.saves("ballots"):
                        sent(c, q, gs, hv, "announce-vote", W, "vote_hooks")
        # votes
        W = K + "::execute/Vote"
        V = as_(MSG, "Vote")
        pid, pr = mod.pid("Vote"), mod.pr("Vote")
        hv = hook("vote_hooks", "NewVote", 2, {"proposal_id": is_(pid), "voter": is_(SENDER), "vote": is_(fld(V, "vote"))})
        for p in some_paths(c, K, "execute", "Vote"):
            if not p.feasible():
                continue
            for q, gs in p.worlds():
                if not q.feasible():
                    continue
                sent(c, q, gs, hv, "announce-vote", W, "vote_hooks")
                new = fld(p.saves(mod.ns)[-1].a[2], mod.sf)
                old = mod.status(pr)
                # a status announcement goes out exactly if the stored status changed
                hc = hook("proposal_hooks", "ProposalStatusChanged", 1, {"id": is_(pid), "old_status": is_(old), "new_status": any_})
                told = any(hc(q, g) for g in gs)
                for q2, v in live(q, new):
                    if v is old:
                        chg = False
                    else:
                        ov = q2.variant_of(old)
                        chg = None if v.op != "adt" or ov is None else ov != v.a[1]
                    for g in gs:
                        if hc(q2, g):
                            w = g.wasm("Execute")[1]
                            b = w
                            while b.op == "adt" and b.a[1] == "ProposalHook":
                                b = b.a[3]
                            said = bfields(b, "ProposalStatusChanged")["new_status"]
                            for q3, ns in [(q2, v)] if said is new else live(q2, said):
                                c.ob(ns is v, "announce-change", W + " new status", show(ns)[:200], q3)
                    if chg and not told and q2.entails(lambda x: x.truth(has("proposal_hooks")) is False or x.truth(t_eq(old, new)) is True):
                        continue
                    if chg is not None:
                        c.ob(told == chg or (told and v.op == "adt" and v.a[3:]), "announce-change", W, "%s: stored %s" % ("told" if told else "silent", show(v)[:120]), q2)
        # execution, closing, veto
        for v, state in (("Execute", "Executed"), ("Close", "Closed"), ("Veto", "Vetoed")):
            W = "%s::execute/%s" % (K, v)
            pid, pr = mod.pid(v), mod.pr(v)
            hc = hook("proposal_hooks", "ProposalStatusChanged", 1, {"id": is_(pid), "old_status": any_, "new_status": lambda p, t: is_adt(t, state)})
            done = completed(pid, state)
            for p in some_paths(c, K, "execute", v):
                for q, gs in p.worlds():
                    if not q.feasible():
                        continue
                    hits = 0
                    for g in gs:
                        if hc(q, g):
                            hits += 1
                            b = g.wasm("Execute")[1]
                            while b.op == "adt" and b.a[1] == "ProposalHook":
                                b = b.a[3]
                            if hits == 1:
                                agree(c, q, bfields(b, "ProposalStatusChanged")["old_status"], mod.spec(pr), mod.eq(pr), "announce-change", W + " old status")
                    c.ob(hits >= 1 or absent(q, "proposal_hooks"), "announce-change", W, [repr(g)[:300] for g in gs], q)
                    isdone = any(done(q, g) for g in gs)
                    c.ob(isdone or q.variant_of(POL) == "Anyone", "announce-completed", W, [repr(g)[:300] for g in gs], q)
        # every message of these operations is one of the announcements or the execution itself
        for v in ("Propose", "Vote", "Execute", "Close", "Veto"):
            W = "%s::execute/%s" % (K, v)
            for p in okpaths(K, "execute", v):
                for q, g in p.msgs():
                    w = g.wasm("Execute")
                    to = w[0]["contract_addr"] if w else None
                    ok = to is not None and (to in (mk("elem", ld("proposal_hooks")), mk("elem", ld("vote_hooks"))) or (to is mod.dao and v == "Execute")
                                             or (to is F(as_(POL, "Module"), "addr") and v in ("Execute", "Close", "Veto")))
                    ok = ok and (to is mod.dao or g.mode == "error")
                    c.ob(ok, "no-other-message", W, repr(g)[:300], q)
            # a failure comes back with the place its hook had in the list: nothing may have moved there by then
            for p in okpaths(K, "execute", v):
                for q, gs in p.worlds():
                    if q.feasible():
                        aims(c, q, gs, mod, W)
        # registration
        isdao = t_eq(SENDER, mod.dao)
        for v, ns, add in (("AddProposalHook", "proposal_hooks", True), ("RemoveProposalHook", "proposal_hooks", False),
                           ("AddVoteHook", "vote_hooks", True), ("RemoveVoteHook", "vote_hooks", False)):
            a = valid(F(as_(MSG, v), "address"))
            hook_registry(c, K, v, ns, a, add, [isdao])
        # failed announcements
        rid = F(sym("reply"), "id")
        tagof = {}
        for p in some_paths(c, K, "reply"):
            w = p.writes()
            t = None
            for i in range(5):
                if p.truth(t_eq(I(i), mk("bitand", rid, I(7)))) is True:
                    t = i
            if not c.ob(t is not None, "reply-tag", K + "::reply", p.describe(), p):
                continue
            tagof.setdefault(t, []).append(p)
            want = {0: mod.ns, 1: "proposal_hooks", 2: "vote_hooks", 3: "creation_policy", 4: "creation_policy"}[t]
            c.ob(set(w) == {want}, "reply-frame", K + "::reply tag %d" % t, sorted(w), p)
            if t == 0:
                for q, gs in p.worlds():
                    told = any(is_adt(v, "ExecutionFailed") for g in gs for v in subterms(g.msg))
                    c.ob(told or absent(q, "proposal_hooks"), "announce-change", K + "::reply tag 0", [repr(g)[:200] for g in gs], q)
            for x in w.get(want, []):
                if x.kind != "save":
                    c.ob(False, "reply-frame", K + "::reply tag %d" % t, repr(x)[:200], p)
                elif t in (1, 2):
                    v = x.a[2]
                    ok = v.op == "mut" and v.a[0].endswith("Vec::remove") and contains(v, ld(want)) and any(y.op == "shr" and y.a[0] is rid and y.a[1] is I(3) for y in subterms(v))
                    c.ob(ok, "reply-removes-one", K + "::reply tag %d" % t, show(v)[:300], p)
                elif t == 3:
                    v = x.a[2]
                    c.ob(is_adt(v, "Module") and contains(v, sym("reply")) and any(y.op == "valid" for y in subterms(v)), "reply-module", K + "::reply tag 3", show(v)[:300], p)
                elif t == 4:
                    c.ob(is_adt(x.a[2], "Anyone"), "reply-fallback", K + "::reply tag 4", show(x.a[2])[:200], p)
        c.ob(set(tagof) == {0, 1, 2, 3, 4}, "reply-tag", K + "::reply handles each kind", sorted(tagof))
        # the hook lists change nowhere else
        for en, vs in (("execute", variants(K, "execute")), ("instantiate", [None])):
            for v in vs:
                if v and v.endswith("Hook"):
                    continue
                for p in okpaths(K, en, v):
                    c.ob(not ({"proposal_hooks", "vote_hooks"} & set(p.writes())), "hook-frame", "%s::%s%s" % (K, en, "/" + v if v else ""), path=p)


def aims(c, q, gs, mod, W):
    to = [g.wasm("Execute")[0]["contract_addr"] if g.wasm("Execute") else None for g in gs]
    for ns in ("proposal_hooks", "vote_hooks"):
        hs = ld(ns)
        at = [i for i, x in enumerate(to) if x is mk("elem", hs)]
        if at:
            c.ob(len(at) == 1 or absent(q, ns), "aims-once", W, ns, q)
        for i in at:
            g = gs[i]
            if g.each is not None:
                # the last of the list first: what failed before stood behind it
                c.ob(g.each.op == "irev" or absent(q, ns), "aims-order", W, repr(g)[:300], q)
            c.ob(mod.dao not in to[:i] or absent(q, ns), "aims-fresh", W, "the DAO acts (and may change the list) before " + repr(g)[:300], q)


def hook_registry(c, K, v, ns, a, add, guards):
    """Adding appends one new address, removing removes just that address."""
    W = "%s::execute/%s" % (K, v)
    ps = some_paths(c, K, "execute", v)
    for g in guards:
        req(c, ps, "hook-authority", g, W)
        if isinstance(g, list) and len(g) > 1:
            each_may(c, ps, "hook-authority:each", W, g)
    hs = ld(ns)
    for p in ps:
        c.ob(set(p.writes()) == {ns}, "hook-frame", W, sorted(p.writes()), p)
        for x in p.saves(ns):
            t = x.a[2]
            if add:
                ok = (t.op == "vpush" and t.a[0] is hs and t.a[1] is a) or (t.op == "array" and len(t.a) == 1 and t.a[0] is a and p.truth(has(ns)) is False)
                c.ob(ok, "hook-added", W, show(t)[:300], p)

                def fresh(q):
                    """not registered yet"""
                    return p.truth(has(ns)) is False or any(k.__class__ is T and k.op == "iany" and k.a[0] is hs and contains(k, a) and val is False for k, val in q.st.facts.items())
                req(c, [p], "hook-once", fresh, W)
            else:
                ok = t.op == "mut" and t.a[0].endswith("Vec::remove") and contains(t, hs) and any(y.op == "position" and y.a[0] is hs and contains(y, a) for y in subterms(t))
                ok = ok or (t.op == "ifilter" and t.a[0] is hs and t.a[1] is t_not(t_eq(mk("elem", hs), a)))
                c.ob(ok, "hook-removed", W, show(t)[:300], p)
