"""C02 a DAO core's module registry.  The registry, the two counters and the voting module change only
as specified: adopted modules enter enabled and count once in both counters; disabling needs an
enabled module and takes exactly the disabled ones off the active counter; no update leaves the DAO
without an active module; the voting module is set once at creation and replaced only on request."""
from lib import *
from props.c01 import inst, each, m, module_off

K = "dao_dao_core"
ACT, TOT = "active_proposal_module_count", "total_proposal_module_count"
REPLY = sym("reply")
RID = F(REPLY, "id")


def counts_to(k):
    return {}


def run(c):
    U = "UpdateProposalModules"
    dis, add = m(U, "to_disable"), m(U, "to_add")
    nd, na = mk("len", dis), mk("len", add)
    act = ld(ACT)
    ps = some_paths(c, K, "execute", U)

    def few(p):
        """fewer modules disabled than active, or a module added"""
        return any(p.truth(l) is True for l in (t_lt(nd, act), t_not(t_eq(na, I(0)))))
    req(c, ps, "keep-one-active", few, K + "::execute/" + U)
    for p in ps:
        for x in p.saves(ACT):
            for q, (v,) in p.split(x.a[2]):
                want = t_sub(act, nd)
                c.ob(same(v, want) or (v is act and q.truth(t_eq(nd, I(0))) is True), "active-count", K + "::execute/" + U, show(v), q)
        off = [x for x in p.saves("proposal_modules_v2")]
        for x in off:
            # the module just disabled was enabled
            st = fld(x.a[2].a[0], "status") if x.a[2].op == "upd" else mk("none")
            c.ob(p.entails(t_isv(st, "Enabled")) or p.entails(t_not(t_isv(st, "Disabled"))), "was-enabled", K + "::execute/" + U, show(x.a[2]), p)
            c.ob(module_off(p, x.a[1], x.a[2]), "disable", K + "::execute/" + U, show(x.a[2]), p)
        if off:
            c.ob(any(True for _ in p.saves(ACT)), "active-count", K + "::execute/%s counts the disabled" % U, path=p)
    c.ob(any(p.saves("proposal_modules_v2") for p in ps), "disable", K + "::execute/%s disables" % U)
    each_iter(c, ps, "disable-each", K + "::execute/" + U, is_write("proposal_modules_v2"))
    # a module named twice is found disabled the second time
    for q, l in loop_iters(ps, is_write("proposal_modules_v2")):
        for x in l:
            if x.kind == "save" and is_write("proposal_modules_v2")(x):
                c.ob(seen_now(q, "proposal_modules_v2", x.a[1]), "disable-once", K + "::execute/" + U, "looked up before any of the modules is disabled", q)
    # every module to add is instantiated, with the reply that registers it
    ia = inst(each(add), 0)
    for p in ps:
        for q, gs in p.worlds():
            if q.feasible():
                c.ob(any(not g.conds and ia(q2, G(mm, g.mode, g.id, g.each, g.maybe, g.conds)) for g in gs for q2, (mm,) in q.split(g.msg)), "add-each", K + "::execute/" + U, [repr(g)[:300] for g in gs], q)
    # the reply
    ps = some_paths(c, K, "reply")
    kinds = set()
    for p in ps:
        if not p.feasible():
            continue
        w = p.writes()
        rid = [i for i in (0, 1, 2) if p.truth(t_eq(I(i), RID)) is True]
        if not c.ob(len(rid) == 1, "reply-id", K + "::reply", p.describe(), p):
            continue
        rid = rid[0]
        kinds.add(rid)
        addr = None
        frame = {0: {"proposal_modules_v2", ACT, TOT}, 1: {"voting_module"}, 2: {"voting_module"}}[rid]
        c.ob(set(w) == frame, "reply-frame", K + "::reply #%d" % rid, sorted(w), p)
        is_new = lambda t: t.op == "valid" and t.a[0].op == "fld" and t.a[0].a[1] == "contract_address" and contains(t, REPLY)
        for x in p.saves("voting_module"):
            c.ob(is_new(x.a[2]), "reply-voting", K + "::reply #%d" % rid, show(x.a[2]), p)
        # what the new module asks to have said goes out, all of it
        given = lambda t: t.op == "fld" and t.a[1] == "msgs" and t.a[0].op == "parsed" and contains(t, REPLY)
        for q, gs in p.worlds():
            if not q.feasible():
                continue
            asks = [k.a[0] for k, v in lits_of(q) if k.op == "parses" and v is True and contains(k, REPLY)]
            c.ob(all(g.each is not None and given(g.each) and g.msg is mk("elem", g.each) and not g.conds for g in gs), "callback", K + "::reply #%d says nothing but what the module asked" % rid, [repr(g)[:300] for g in gs], q)
            if rid == 2:
                c.ob(not gs, "callback", K + "::reply #2", [repr(g)[:300] for g in gs], q)
            elif asks:
                c.ob(len(gs) == 1, "callback", K + "::reply #%d passes on what the module asked" % rid, [repr(g)[:300] for g in gs], q)
        if rid == 1:
            c.ob(p.truth(has("voting_module")) is False, "voting-once", K + "::reply #1", path=p)
        if rid == 0:
            for x in p.saves("proposal_modules_v2"):
                for q, (v,) in p.split(x.a[2]):
                    d = adt_fields(v) if v.op == "adt" else {}
                    c.ob(is_new(x.a[1]) and d.get("address") is x.a[1], "registered-address", K + "::reply #0", show(v)[:400], q)
                    c.ob("status" in d and is_adt(d["status"], "Enabled"), "registered-enabled", K + "::reply #0", show(d.get("status", v))[:200], q)
                    c.ob("prefix" in d and contains(d["prefix"], ld(TOT)) and not any(y.op == "st" and y is not ld(TOT) for y in subterms(d["prefix"])), "prefix", K + "::reply #0 prefix depends on the total alone", show(d.get("prefix", v))[:300], q)
            for ns in (ACT, TOT):
                for x in p.saves(ns):
                    c.ob(same(x.a[2], t_add(ld(ns), I(1))), "count-one", K + "::reply #0 " + ns, show(x.a[2]), p)
    c.ob(kinds == {0, 1, 2}, "reply-id", K + "::reply handles each reply", sorted(kinds))
    # instantiate
    mods = F(MSG, "proposal_modules_instantiate_info")
    vm = F(MSG, "voting_module_instantiate_info")
    for p in some_paths(c, K, "instantiate"):
        for ns in (ACT, TOT):
            s = p.saves(ns)
            c.ob(len(s) == 1 and s[0].a[2] is I(0), "initial-count", K + "::instantiate " + ns, [show(x.a[2]) for x in s], p)
        c.ob(not ({"voting_module", "proposal_modules_v2"} & set(p.writes())), "frame", K + "::instantiate", sorted(p.writes()), p)

        def one(q):
            """at least one proposal module"""
            for k, v in list(q.st.facts.items()):
                if k.__class__ is T and k.op == "eq" and not v and any(a is I(0) for a in k.a) and any(a.op == "len" and contains(a, mods) for a in k.a):
                    return True
            return False
        req(c, [p], "at-least-one", one, K + "::instantiate")
        iv, im = inst(vm, 1), inst(each(mods), 0)
        for q, gs in p.worlds():
            if not q.feasible():
                continue
            nv = nm = 0
            for g in gs:
                for q2, (mm,) in q.split(g.msg):
                    g2 = G(mm, g.mode, g.id, g.each, g.maybe, g.conds)
                    a, b = iv(q2, g2) and not g.conds, im(q2, g2) and not g.conds
                    nv, nm = nv + a, nm + b
                    c.ob(a or b, "instantiate-message", K + "::instantiate", repr(g2)[:500], q2)
            c.ob(nv >= 1 and nm >= 1, "instantiate-all", K + "::instantiate", [repr(g)[:200] for g in gs], q)
    # nothing else touches the registry
    for v in variants(K, "execute"):
        for p in okpaths(K, "execute", v):
            w = set(p.writes())
            c.ob(not (w & {TOT, "voting_module"}), "frame", "%s::execute/%s" % (K, v), sorted(w), p)
            if v != U:
                c.ob(not (w & {ACT, "proposal_modules_v2"}), "frame", "%s::execute/%s" % (K, v), sorted(w), p)
    # what the DAO reports
    answer_is(c, "report", K, "ProposalModuleCount", lambda p, v: v.op == "adt" and all(adt_fields(v)[n] is ld(n) for n in (ACT, TOT)))
    answer_is(c, "report", K, "VotingModule", ld("voting_module"))
    for v, n in (("VotingPowerAtHeight", 2), ("TotalPowerAtHeight", 1)):
        def same_query(p, t):
            if t.op != "query" or t.a[0] is not ld("voting_module") or t.a[1].op != "adt" or t.a[1].a[1] != v:
                return False
            return all(x is F(as_(MSG, v), k) for k, x in adt_fields(t.a[1]).items())
        answer_is(c, "power-passthrough", K, v, same_query)
    for v in ("ProposalModules", "ActiveProposalModules"):
        for p, t in answers(K, v):
            src = [x for x in subterms(t) if x.op == "iter"]
            c.ob(bool(src) and all(x.a[1] == "proposal_modules_v2" or (x.a[1].__class__ is T and x.a[1].a[0] == "proposal_modules_v2") for x in src), "report", "%s::query/%s" % (K, v), show(t)[:300], p)
            if v.startswith("Active"):
                fs = [x for x in subterms(t) if x.op == "ifilter"]
                c.ob(any(y.op == "isv" and y.a[1] == "Enabled" for x in fs for y in subterms(x.a[1])), "report", "%s::query/%s filters the enabled" % (K, v), show(t)[:300], p)
