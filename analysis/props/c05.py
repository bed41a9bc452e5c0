"""C05 the outcome of a vote.  The status a proposal module computes (in its queries, on each listed
proposal, when it stores a vote or a new proposal) equals, in every case of every decision, the
specified function of the tally: thresholds and quorums round in favour of the exact share, nothing
passes while ballots can change or before the minimum period, ties and 'none of the above' never
pass, early decisions are the ones later votes cannot overturn; decided states do not change back."""
from lib import *
from props.prop import *
from props import cond


def element(t, name):
    """(id, value, stored) of every listed ProposalResponse"""
    out = []
    for x in subterms(t):
        if x.op == "adt" and x.a[1] == name:
            out.append(x)
    return out


def run(c):
    cond.winner_rules(c)
    for mod in ALL:
        K = mod.crate
        sf = mod.sf
        # the query of one proposal
        for p in some_paths(c, K, "query", "Proposal"):
            if not p.feasible():
                continue
            v = p.ret.a[0] if p.ret.op == "json" else p.ret
            pr, ty = mod.pr("Proposal") if mod is not COND else ld(mod.ns, F(as_(MSG, "Proposal"), "id")), None
            if mod is COND:
                ty = ld(mod.tally, F(as_(MSG, "Proposal"), "id"))
            agree(c, p, F(v, "proposal." + sf), mod.spec(pr, ty), mod.eq(pr), "query", K + "::query/Proposal")
        # listed proposals
        if mod is not COND:
            for qn in ("ListProposals", "ReverseProposals"):
                n = 0
                seen = set()
                for p in some_paths(c, K, "query", qn):
                    for x in element(p.ret, "ProposalResponse"):
                        if x in seen:
                            continue
                        seen.add(x)
                        v = adt_fields(x)["proposal"]
                        pr = v
                        while pr.op == "upd" and pr.a[1] == sf:
                            pr = pr.a[0]
                        n += 1
                        q = P(p.e, new_state(), UNIT, K, "query", qn)
                        agree(c, q, fld(v, sf), mod.spec(pr), mod.eq(pr), "listed", "%s::query/%s" % (K, qn))
                c.ob(n > 0, "anchor", "%s::query/%s lists proposals" % (K, qn), n)
        # the stored status after a vote is the status of the updated proposal
        for v in ("Vote", "Propose") if mod is not COND else ("Propose",):
            n = 0
            for p in some_paths(c, K, "execute", v):
                if not p.feasible():
                    continue
                for i, x in enumerate(p.saves(mod.ns)):
                    new = x.a[2]
                    if v == "Vote":
                        old = mod.pr(v)
                        base = upd(new, sf, fld(old, sf))
                        eq = mod.eq(old)
                    elif i == 0:
                        base = upd(new, sf, adt("dao_voting::status::Status", "Open", (), ()))
                        eq = mod.eq(base)
                    else:
                        # a vote cast while proposing: the status of the proposal just stored
                        base = upd(new, sf, fld(p.saves(mod.ns)[0].a[2], sf))
                        eq = mod.eq(base)
                        first = fld(p.saves(mod.ns)[0].a[2], sf)
                        if first.op != "adt":
                            continue
                    if mod is COND:
                        base = upd(new, sf, adt("dao_proposal_condorcet::proposal::Status", "Open", (), ()))
                        ts = p.saves(mod.tally)
                        c.ob(len(ts) == 1 and ts[0].a[1] is x.a[1], "initial", K + "::execute/Propose starts a tally", path=p)
                        n += 1
                        agree(c, p, fld(new, sf), mod.spec(base, ts[0].a[2]), mod.eq(base), "initial", K + "::execute/Propose")
                        continue
                    n += 1
                    agree(c, p, fld(new, sf), mod.spec(base), eq, "stored" if v == "Vote" else "initial", "%s::execute/%s" % (K, v))
            c.ob(n > 0, "anchor", "%s::execute/%s stores a status" % (K, v), n)
        # what Execute and Close require is in C03 and C06; nothing but votes and creation stores a computed status
        for v in variants(K, "execute"):
            if v in ("Vote", "Propose"):
                continue
            for p in okpaths(K, "execute", v):
                for x in p.saves(mod.ns):
                    st = fld(x.a[2], sf)
                    c.ob(st.op == "adt" and st.a[1] in {"Execute": ("Executed",), "Close": ("Closed",), "Veto": ("Vetoed",)}.get(v, ()), "terminal", "%s::execute/%s" % (K, v), show(st)[:200], p)
