"""C04 one ballot per member, weighed by the power of the proposal's snapshot.  In each proposal
module a vote succeeds only before the expiration, for a voter whose power at the proposal's start
height is not zero; a member who voted may only change the vote, where that is allowed; the ballot
stores exactly that power and vote; the tally changes by exactly that power, after the old ballot's
weight was taken off; nothing else writes ballots, nothing else changes a tally or the terms of a
proposal."""
from lib import *
from props.prop import *
from props import cond


def terms(mod, v, pid, pr, voter, vote, rationale):
    return dict(mod=mod, v=v, pid=pid, pr=pr, voter=voter, vote=vote, rationale=rationale)


def ballot_of(mod, pid, voter):
    return ld("ballots", pid, voter), has("ballots", pid, voter)


def may_revote(mod, pr, pid, voter, vote):
    b, h = ballot_of(mod, pid, voter)

    def f(p):
        """no ballot yet, or the proposal allows revoting and the vote differs"""
        return p.truth(h) is False or (p.truth(fld(pr, "allow_revoting")) is True and p.truth(t_eq(vote, fld(b, "vote"))) is False)
    return f


def new_votes(mod, pr, pid, voter, vote, pw):
    """oracle function -> expected tally after the vote"""
    b, h = ballot_of(mod, pid, voter)

    def single(o):
        v = fld(pr, "votes")
        d = {n: fld(v, n) for n in ("yes", "no", "abstain")}
        if o(h):
            k = o.var(fld(b, "vote"), "Yes", "No", "Abstain").lower()
            d[k] = t_sub(d[k], fld(b, "power"))
        k = o.var(vote, "Yes", "No", "Abstain").lower()
        d[k] = t_add(d[k], pw)
        return d

    def multi(o):
        w = F(pr, "votes.vote_weights")
        i = fld(vote, "option_id")
        if o(h):
            j = fld(fld(b, "vote"), "option_id")
            w = mk("setidx", w, j, t_sub(mk("idx", w, j), fld(b, "power")))
        return mk("setidx", w, i, t_add(e_idx(w, i), pw))
    return single if mod is SINGLE else multi


def e_idx(w, i):
    if w.op == "setidx" and w.a[1] is i:
        return w.a[2]
    return mk("idx", w, i)


def votes_eq(mod):
    def f(p, v, r):
        if mod is SINGLE:
            return all(same(fld(v, n), r[n]) for n in r)
        return v is r or fld(v, "vote_weights") is r
    return f


PARTS = {"yes", "no", "abstain"}


def vote_rules(c, mod, ps, where, pidf, prf, voter, vote, rationale, height, optional=False):
    """prf(p) = the proposal as stored before the vote on path p"""
    K = mod.crate
    hits = 0
    for p in ps:
        if not p.feasible():
            continue
        bs = p.saves("ballots")
        if optional and not bs:
            continue
        hits += 1
        pid = pidf if pidf.__class__ is T else pidf(p)
        c.ob(len(bs) == 1 and not p.removes("ballots"), "one-ballot", where, len(bs), p)
        for x in bs:
            for q, (k, v) in p.split(x.a[1], x.a[2]):
                if not q.feasible():
                    continue
                vo = voter(q)
                if not c.ob(k is key(pid, vo), "own-ballot", where, show(k), q):
                    continue
                pr = prf(q)
                pw = power(mod.dao, vo, height(pr))
                d = adt_fields(v) if v.op in ("adt", "upd") else {}
                c.ob("power" in d and pw(d["power"]), "snapshot-power", where, show(d.get("power", v))[:400], q)
                c.ob(d.get("vote") is vote and d.get("rationale") is rationale, "ballot-vote", where, show(v)[:400], q)
                req(c, [q], "has-power", nonzero(pw), where)
                req(c, [q], "revote", may_revote(mod, pr, pid, vo, vote), where)
                req(c, [q], "before-expiration", t_not(mk("expired", fld(pr, "expiration"), BLOCK)), where)
                if mod is MULTI:
                    req(c, [q], "option-range", t_lt(fld(vote, "option_id"), length(fld(pr, "choices"))), where)
                # the tally
                s = p.saves(mod.ns)
                if not c.ob(bool(s) and s[-1].a[1] is pid, "tally", where, [show(y.a[1]) for y in s], q):
                    continue
                new = s[-1].a[2]
                agree(c, q, F(new, "votes"), new_votes(mod, pr, pid, vo, vote, d["power"]), votes_eq(mod), "tally", where)
    c.ob(hits > 0, "anchor", where + " records a ballot", hits)


def run(c):
    for mod in (SINGLE, MULTI):
        K = mod.crate
        V = as_(MSG, "Vote")
        pid, pr = mod.pid("Vote"), mod.pr("Vote")
        ps = some_paths(c, K, "execute", "Vote")
        W = K + "::execute/Vote"
        vote_rules(c, mod, ps, W, pid, lambda p: pr, lambda q: SENDER, fld(V, "vote"), fld(V, "rationale"), lambda pr: some(fld(pr, "start_height")))
        for p in ps:
            # the rest of the proposal is as it was
            for x in p.saves(mod.ns):
                v = x.a[2]
                while v.op == "upd" and v.a[1] in ("votes", "status"):
                    v = v.a[0]
                c.ob(v is pr, "terms-unchanged", W, show(v)[:300], p)
        # voting while proposing
        P0 = fld(as_(MSG, "Propose"), "0")
        vt = payload(fld(P0, "vote"), "Some")
        ps = [p for p in okpaths(K, "execute", "Propose")]

        def first_saved(p):
            return p.saves(mod.ns)[0].a[2]

        def new_id(p):
            return p.saves(mod.ns)[0].a[1]

        def proposer(q):
            for k in (fld(P0, "proposer"),):
                if q.variant_of(k) == "Some":
                    return valid(payload(k, "Some"))
            return SENDER
        vote_rules(c, mod, ps, K + "::execute/Propose with a vote", new_id, first_saved, proposer, fld(vt, "vote"), fld(vt, "rationale"), lambda pr: some(fld(pr, "start_height")), optional=True)
        for p in ps:
            if not p.saves("ballots") and p.feasible():
                c.ob(p.entails(t_not(t_isv(fld(P0, "vote"), "Some", OPT))), "auto-vote", K + "::execute/Propose votes when asked to", path=p)
        # only the rationale of one's own ballot can be edited
        U = as_(MSG, "UpdateRationale")
        for p in some_paths(c, K, "execute", "UpdateRationale"):
            b = ld("ballots", fld(U, "proposal_id"), SENDER)
            c.ob(set(p.writes()) <= {"ballots"}, "rationale", K + "::execute/UpdateRationale", sorted(p.writes()), p)
            for x in p.saves("ballots"):
                d = adt_fields(x.a[2]) if x.a[2].op == "adt" else {n: fld(x.a[2], n) for n in ("power", "vote", "rationale")}
                ok = x.a[1] is key(fld(U, "proposal_id"), SENDER) and d["power"] is fld(b, "power") and d["vote"] is fld(b, "vote") and d["rationale"] is fld(U, "rationale")
                c.ob(ok, "rationale", K + "::execute/UpdateRationale", show(x.a[2]), p)
        # nothing else writes ballots or changes a proposal's terms
        for en, vs in (("execute", variants(K, "execute")), ("reply", [None])):
            for v in vs:
                for p in okpaths(K, en, v):
                    w = set(p.writes())
                    if v not in ("Vote", "Propose", "UpdateRationale"):
                        c.ob("ballots" not in w, "ballot-frame", "%s::%s%s" % (K, en, "/" + v if v else ""), sorted(w), p)
                    if v != "Propose":
                        for x in p.saves(mod.ns):
                            t = x.a[2]
                            ch = set()
                            while t.op == "upd":
                                ch.add(t.a[1])
                                t = t.a[0]
                            c.ob(is_ld(t, mod.ns, x.a[1]) and ch <= ({"votes", "status"} if v == "Vote" else {"status"}), "terms-frame", "%s::%s%s" % (K, en, "/" + v if v else ""), show(x.a[2])[:300], p)
                        c.ob(not p.removes(mod.ns), "terms-frame", "%s::%s%s" % (K, en, "/" + v if v else ""), path=p)
    # ---- ranked choice
    K = COND.crate
    V = as_(MSG, "Vote")
    pid, ty = COND.pid("Vote"), COND.ty("Vote")
    W = K + "::execute/Vote"
    ps = some_paths(c, K, "execute", "Vote")
    pw = power(COND.dao, SENDER, some(fld(ty, "start_height")))
    k = key(pid, SENDER)
    req(c, ps, "has-power", nonzero(pw), W)
    req(c, ps, "one-ballot", t_not(has("votes", pid, SENDER)), W)
    req(c, ps, "before-expiration", t_not(mk("expired", fld(ty, "expiration"), BLOCK)), W)
    vote = fld(V, "vote")
    n = F(ty, "m.n")

    cond.vote_rules(c, vote, pw, n, pid)

    def full(p):
        """as many preferences as candidates"""
        return any(kk.__class__ is T and v and kk.op == "eq" and any(same(strip(x), n) for x in kk.a) and any(strip(x) is mk("len", vote) for x in kk.a) for kk, v in p.st.facts.items())
    req(c, ps, "complete-ballot", full, W)
    for p in ps:
        c.ob(set(p.writes()) == {"votes", "tallys"}, "frame", W, sorted(p.writes()), p)
        for x in p.saves("votes"):
            c.ob(x.a[1] is k, "own-ballot", W, show(x.a[1]), p)
            # every stored preference was checked against the number of candidates and against those before it
            L = F(as_(MSG, "Vote"), "vote")
            e = mk("elem", L)
            byloop = {}
            for en_ in {id(y.e): y.e for y in ps}.values():
                for tag, base, iters, h in en_.loop_recs:
                    for b in iters:
                        byloop.setdefault(tag, []).append(P(en_, b, UNIT, "", "", None))

            def ranged(q):
                return q.truth(t_lt(e, n)) is True

            def fresh(q):
                return any(k.op == "iany" and contains(k, e) and not v for k, v in lits_of(q))
            for what, test in (("in range", ranged), ("distinct", fresh)):
                tags = [t for t, l in byloop.items() if all(test(q) for q in l)]
                c.ob(contains(x.a[2], L) and tags and not (set(tags) & p.st.bk), "valid-preferences", W, "no check that every preference is %s: %s" % (what, show(x.a[2])[:200]), p)
        for x in p.saves("tallys"):
            for q, o in live(p, fld(x.a[2], "power_outstanding")):
                l = t_sub(fld(ty, "power_outstanding"), o)
                c.ob(x.a[1] is pid and pw(l), "tally-power", W, show(o)[:300], q)
            for n_ in ("start_height", "expiration"):
                for q, o in live(p, fld(x.a[2], n_)):
                    c.ob(o is fld(ty, n_), "terms-unchanged", W, show(o)[:300], q)
    for en, vs in (("execute", variants(K, "execute")), ("reply", [None])):
        for v in vs:
            for p in okpaths(K, en, v):
                w = set(p.writes())
                wh = "%s::%s%s" % (K, en, "/" + v if v else "")
                if v not in ("Vote", "Propose"):
                    c.ob(not ({"votes", "tallys"} & w), "ballot-frame", wh, sorted(w), p)
                if v != "Propose":
                    for x in p.saves(COND.ns):
                        t, ch = x.a[2], set()
                        while t.op == "upd":
                            ch.add(t.a[1])
                            t = t.a[0]
                        c.ob(is_ld(t, COND.ns, x.a[1]) and ch <= {"last_status"}, "terms-frame", wh, show(x.a[2])[:300], p)


def strip(t):
    while t.op == "cast":
        t = t.a[1]
    return t
