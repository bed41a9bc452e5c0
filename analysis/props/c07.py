"""C07 how a proposal comes into being.  Only a permitted creator (anyone where anyone may, else the
configured module, which names a valid proposer) can create one, only while the DAO is active; it gets
the next id; its stored terms are the configured ones, its snapshot the current block, its total power
the DAO's total at that block, its tally empty; nothing too large to be queried is stored."""
from lib import *
from props.prop import *

POL = ld("creation_policy")


def active(mod):
    def f(p):
        """the voting module says active, or does not answer"""
        for k, v in list(p.st.facts.items()):
            if k.__class__ is T and k.op == "fld" and k.a[1] == "active" and is_active(mod, k.a[0]):
                return v is True
            if k.__class__ is T and k.op == "ok" and is_active(mod, k.a[0]) and not v:
                return True
        for k, v in list(p.st.var.items()):
            if k.op == "query" and is_active(mod, k) and v == ("is", "Err"):
                return True
        return False
    return f


def is_active(mod, t):
    return (t.op == "query" and t.a[1].op == "adt" and t.a[1].a[1] == "IsActive" and t.a[0].op == "query"
            and t.a[0].a[0] is mod.dao and t.a[0].a[1].op == "adt" and t.a[0].a[1].a[1] == "VotingModule")


def run(c):
    for mod in (SINGLE, MULTI):
        K = mod.crate
        W = K + "::execute/Propose"
        P0 = fld(as_(MSG, "Propose"), "0")
        cfg = ld(mod.cfg)
        ps = some_paths(c, K, "execute", "Propose")
        who = fld(P0, "proposer")

        def creator(p):
            """anyone may and no proposer named, or the configured module naming a valid one"""
            v = p.variant_of(POL)
            if v == "Anyone":
                return p.variant_of(who) == "None"
            return (v == "Module" and p.truth(t_eq(SENDER, F(as_(POL, "Module"), "addr"))) is True and p.variant_of(who) == "Some"
                    and p.truth(mk("validaddr", payload(who, "Some"))) is True)
        req(c, ps, "creator", creator, W)
        req(c, ps, "active", active(mod), W)
        for p in ps:
            if not p.feasible():
                continue
            w = set(p.writes())
            c.ob(w <= {"proposal_count", mod.ns, "ballots"}, "frame", W, sorted(w), p)
            cs = p.saves("proposal_count")
            nid = t_add(ld("proposal_count"), I(1))
            first = t_isv(mk("none"), "x")
            okid = len(cs) == 1 and (same(cs[0].a[2], nid) or (cs[0].a[2] is I(1) and p.truth(has("proposal_count")) is False))
            c.ob(okid, "next-id", W, [show(x.a[2]) for x in cs], p)
            s = p.saves(mod.ns)
            if not c.ob(len(s) >= 1 and okid and all(x.a[1] is cs[0].a[2] for x in s), "stored-once", W, [show(x.a[1]) for x in s], p):
                continue
            new = s[0].a[2]
            want_proposer = valid(payload(who, "Some")) if p.variant_of(who) == "Some" else SENDER
            exact = {"title": fld(P0, "title"), "description": fld(P0, "description"), "proposer": want_proposer, "start_height": HEIGHT,
                     "allow_revoting": fld(cfg, "allow_revoting")}
            exact.update({"threshold": fld(cfg, "threshold"), "msgs": fld(P0, "msgs")} if mod is SINGLE else {"voting_strategy": fld(cfg, "voting_strategy")})
            for n, t in exact.items():
                c.ob(fld(new, n) is t, "terms", W + " " + n, show(fld(new, n))[:200], p)
            tp = fld(new, "total_power")
            c.ob(total_power(mod.dao, some(HEIGHT))(tp) or total_power(mod.dao, NONE)(tp), "terms", W + " total_power", show(tp), p)
            aft = lambda d: (lambda t: t.op == "call" and t.a[0].endswith("Duration::after") and t.a[1] is d and t.a[2] is BLOCK)
            c.ob(aft(fld(cfg, "max_voting_period"))(fld(new, "expiration")), "terms", W + " expiration", show(fld(new, "expiration")), p)
            mn = fld(cfg, "min_voting_period")
            for q, t in live(p, fld(new, "min_voting_period")):
                v = q.variant_of(mn)
                c.ob((v == "None" and t is NONE) or (v == "Some" and is_adt(t, "Some") and aft(payload(mn, "Some"))(t.a[3])), "terms", W + " min_voting_period", show(t), q)
            vs = fld(new, "votes")
            if mod is SINGLE:
                c.ob(all(fld(vs, n) is I(0) for n in ("yes", "no", "abstain")), "empty-tally", W, show(vs), p)
            else:
                ws = fld(vs, "vote_weights")
                ch = fld(new, "choices")
                from props.c04 import strip
                ok = ws.op == "call" and ws.a[0].endswith("from_elem") and ws.a[1] is I(0) and strip(ws.a[2]) is length(ch)
                c.ob(ok, "empty-tally", W, show(ws)[:300], p)
                # the stored choices: those proposed, each with its text and messages, and none-of-the-above
                opts = F(P0, "choices.options")
                n = mk("len", opts)
                req(c, [p], "choice-count", lambda q: q.truth(t_lt(n, I(2))) is False, W + " at least two")
                req(c, [p], "choice-count", lambda q: q.truth(t_lt(I(20), n)) is False, W + " at most twenty")
                adts = [x for x in subterms(ch) if x.op == "adt" and x.a[0].endswith("CheckedMultipleChoiceOption")]
                kinds = set()
                for x in adts:
                    d = adt_fields(x)
                    k = d["option_type"].a[1] if d["option_type"].op == "adt" else None
                    kinds.add(k)
                    if k == "Standard":
                        e = mk("elem", opts)
                        ix = d["index"]
                        while ix.op == "cast":
                            ix = ix.a[1]
                        c.ob(d["msgs"] is fld(e, "msgs") and d["title"] is fld(e, "title") and d["description"] is fld(e, "description") and ix.op == "pos" and ix.a[0] is opts,
                             "choices", W, show(x)[:400], p)
                    else:
                        c.ob(k == "None" and d["msgs"].op in ("array", "default") and not d["msgs"].a[:1], "choices", W + " none of the above runs nothing", show(x)[:300], p)
                c.ob("None" in kinds, "choices", W + " adds none of the above", sorted(map(str, kinds)), p)

            def small(q):
                """the encoded proposal is not larger than the limit"""
                for k, v in q.st.facts.items():
                    if k.__class__ is T and k.op == "lt" and v is False and k.a[0].op == "int" and k.a[0].a[0] <= 30000 and contains(k.a[1], new) and any(y.op == "len" for y in subterms(k.a[1])):
                        return True
                return False
            req(c, [p], "size-limit", small, W)
        if mod is MULTI:
            c.ob(any(adt_fields(x)["option_type"].a[1] == "Standard" for p in ps for s in p.saves(mod.ns)[:1] for x in subterms(fld(s.a[2], "choices")) if x.op == "adt" and x.a[0].endswith("CheckedMultipleChoiceOption")),
                 "choices", W + " keeps the proposed choices")
        # ids come only from creation
        for en, vs in (("execute", variants(K, "execute")), ("reply", [None])):
            for v in vs:
                if v == "Propose":
                    continue
                for p in okpaths(K, en, v):
                    c.ob("proposal_count" not in p.writes(), "id-frame", "%s::%s%s" % (K, en, "/" + v if v else ""), path=p)
        for p in okpaths(K, "instantiate"):
            s = p.saves("proposal_count")
            c.ob(all(x.a[2] is I(0) for x in s), "id-start", K + "::instantiate", [show(x.a[2]) for x in s], p)
    # ranked choice
    K = COND.crate
    W = K + "::execute/Propose"
    M = as_(MSG, "Propose")
    ps = some_paths(c, K, "execute", "Propose")
    pw = power(COND.dao, SENDER, NONE)
    req(c, ps, "creator", nonzero(pw), W)
    for p in ps:
        if not p.feasible():
            continue
        s, ts = p.saves(COND.ns), p.saves("tallys")
        if not c.ob(len(s) == 1 and len(ts) == 1 and s[0].a[1] is ts[0].a[1] and set(p.writes()) <= {COND.ns, "tallys"}, "stored-once", W, sorted(p.writes()), p):
            continue
        n, t, i = s[0].a[2], ts[0].a[2], s[0].a[1]
        cfg = ld("config")
        c.ob(fld(n, "id") is i and fld(n, "proposer") is SENDER and fld(n, "quorum") is fld(cfg, "quorum") and fld(n, "close_on_execution_failure") is fld(cfg, "close_proposals_on_execution_failure"), "terms", W, show(n)[:300], p)
        tp = fld(n, "total_power")
        c.ob((total_power(COND.dao, NONE)(tp) or total_power(COND.dao, some(HEIGHT))(tp)) and fld(t, "power_outstanding") is tp, "terms", W + " total_power", show(tp), p)
        c.ob(fld(t, "start_height") is HEIGHT, "terms", W + " start_height", show(fld(t, "start_height")), p)
        ex = fld(t, "expiration")
        c.ob(ex.op == "call" and ex.a[0].endswith("Duration::after") and ex.a[1] is fld(cfg, "voting_period") and ex.a[2] is BLOCK, "terms", W + " expiration", show(ex), p)
        ch = fld(n, "choices")
        c.ob(ch.op == "vpush" and ch.a[0] is fld(M, "choices") and fld(ch.a[1], "msgs").op == "array" and not fld(ch.a[1], "msgs").a, "choices", W, show(ch)[:200], p)
        from props.c04 import strip
        c.ob(strip(F(t, "m.n")) is mk("len", ch), "choices", W + " one candidate per choice", show(F(t, "m.n"))[:200], p)
        c.ob(i is I(1) or (i.op == "add" and any("proposals" in show(x) or "tallys" in show(x) for x in i.a)), "next-id", W, show(i), p)
