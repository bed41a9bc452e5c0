"""C24 the DAO's own records.  Items, SubDAOs, the token lists and the configuration hold exactly what the
DAO put there: at creation every asked item, none twice; an update adds every named entry, each after the
contract behind it answered as a token of its kind, and removes every named one; a token sent to the DAO is
listed exactly when the configuration says so; nothing else touches them."""
from lib import *

K = "dao_dao_core"
RECORDS = {"items", "sub_daos", "cw20s", "cw721s", "config_v2"}
CW = "contract_info"


def run(c):
    created(c)
    lists(c)
    received(c)
    own = {"SetItem": {"items"}, "RemoveItem": {"items"}, "UpdateSubDaos": {"sub_daos"}, "UpdateCw20List": {"cw20s"}, "UpdateCw721List": {"cw721s"}, "UpdateConfig": {"config_v2"}, "Receive": {"cw20s"}, "ReceiveNft": {"cw721s"}}
    for en, vs in (("execute", variants(K, "execute")), ("reply", [None])):
        for v in vs:
            for p in okpaths(K, en, v):
                w = set(p.writes()) & RECORDS
                c.ob(w <= own.get(v, set()), "frame", "%s::%s%s" % (K, en, "/" + v if v else ""), sorted(w), p)
    for v, want in (("SetItem", lambda x: x.kind == "save" and x.a[2] is F(as_(MSG, "SetItem"), "value")), ("RemoveItem", lambda x: x.kind == "remove")):
        for p in some_paths(c, K, "execute", v):
            es = [x for x in p.effects if ns_of(x) == "items"]
            c.ob(len(es) == 1 and es[0].a[1] is F(as_(MSG, v), "key") and want(es[0]), "item", "%s::execute/%s" % (K, v), [repr(x)[:200] for x in es], p)
    for p in some_paths(c, K, "execute", "UpdateConfig"):
        s = p.saves("config_v2")
        c.ob(len(s) == 1 and same(s[0].a[2], F(as_(MSG, "UpdateConfig"), "config")), "config", K + "::execute/UpdateConfig", [repr(x)[:200] for x in s], p)


def created(c):
    W = K + "::instantiate"
    ps = some_paths(c, K, "instantiate")
    for p in ps:
        s = p.saves("config_v2")
        if c.ob(len(s) == 1, "created:config", W, [repr(x)[:200] for x in s], p):
            for q, v in live(p, s[0].a[2]):
                for n in ("name", "description", "image_url", "automatically_add_cw20s", "automatically_add_cw721s", "dao_uri"):
                    c.ob(same(fld(v, n), F(MSG, n)), "created:config", W + " " + n, show(fld(v, n))[:200], q)
        c.ob(set(x for x in p.writes() if not x.startswith("ext:")) <= {"config_v2", "admin", "items", "total_proposal_module_count", "active_proposal_module_count"}, "created:frame", W, sorted(p.writes()), p)
    items = payload(F(MSG, "initial_items"), "Some")
    el = mk("elem", items)
    none = lambda p: p.variant_of(F(MSG, "initial_items")) == "None"
    each_iter(c, ps, "created:every-item", W, is_write("items"), allow=lambda p: none(p) or p.truth(t_eq(mk("len", items), I(0))) is True)
    for p in ps:
        for x in p.effects:
            if ns_of(x) == "items":
                c.ob(x.kind == "save" and x.a[1] is fld(el, "key") and x.a[2] is fld(el, "value"), "created:item", W, repr(x)[:300], p)
    for q, es in loop_iters(ps, is_write("items")):
        ok = False
        for k, v in lits_of(q):
            key = fld(el, "key")
            if k.op in ("iany", "contains") and not v:
                m = k.a[0]      # not among the keys seen so far
                ok = ok or m.op == "mu" and empty_list(m.a[0]) and m.a[1].op in ("array", "vpush") and m.a[1].a[-1] is key and (k.a[1] is key or k.a[1].op == "eq" and set(k.a[1].a) == {key, mk("elem", m)})
            elif k.op in ("has", "hasv") and not v and key in k.a and "items" in k.a:
                ok = True       # not stored so far
            elif k.op == "call" and key in k.a and k.a[0].rsplit("::", 1)[-1] == "insert" and v:
                ok = True       # new in the set of the keys seen so far
        c.ob(ok, "created:no-duplicates", W, [show(k)[:200] for k, _ in lits_of(q)], q)


def lists(c):
    table = {
        "UpdateCw20List": ("cw20s", lambda e: valid(e), None, ("Balance",)),
        "UpdateCw721List": ("cw721s", lambda e: valid(e), None, ("ContractInfo",)),
        "UpdateSubDaos": ("sub_daos", lambda e: valid(fld(e, "addr")), lambda e: fld(e, "charter"), None),
    }
    for v, (ns, key, val, asks) in table.items():
        W = "%s::execute/%s" % (K, v)
        add, rem = (F(as_(MSG, v), n) for n in ("to_add", "to_remove"))
        ea, er = mk("elem", add), mk("elem", rem)
        ps = some_paths(c, K, "execute", v)
        each_iter(c, ps, "list:every-added", W, is_write(ns, ("save",)))
        each_iter(c, ps, "list:every-removed", W, is_write(ns, ("remove",)))
        for p in ps:
            if not p.feasible():
                continue
            for x in p.effects:
                if ns_of(x) != ns:
                    continue
                if x.kind == "save":
                    c.ob(x.a[1] is key(ea) and (val is None or x.a[2] is val(ea)), "list:added", W, repr(x)[:300], p)
                else:
                    c.ob(x.kind == "remove" and x.a[1] is valid(er), "list:removed", W, repr(x)[:300], p)
            for lst, kind in ((add, "save"), (rem, "remove")):
                if not any(ns_of(x) == ns and x.kind == kind for x in p.effects):
                    req(c, [p], "list:all", t_eq(mk("len", lst), I(0)), W + " " + kind)
            msgs_ok(c, [p], "list", [])
        if asks:
            for q, es in loop_iters(ps, is_write(ns, ("save",))):
                def asked(r):
                    """the contract answers as a token of the kind"""
                    ks = [k for k, b in lits_of(r) if b] + [k for k, b in r.st.var.items() if b == ("is", "Ok")]
                    return any(y.op == "query" and y.a[0] is key(ea) and any(z.op == "adt" and z.a[1] in asks for z in subterms(y.a[1])) for k in ks for y in subterms(k))
                c.ob(asked(q), "list:is-a-token", W, [show(k)[:200] for k, _ in lits_of(q)], q)


def received(c):
    for v, ns in (("Receive", "cw20s"), ("ReceiveNft", "cw721s")):
        W = "%s::execute/%s" % (K, v)
        flag = F(ld("config_v2"), "automatically_add_" + ns)
        for p in some_paths(c, K, "execute", v):
            def judge(q, on):
                es = [x for x in q.effects if ns_of(x) == ns]
                if not on:
                    return not es or "listed: %r" % es
                return len(es) == 1 and es[0].kind == "save" and es[0].a[1] is SENDER or "listed: %r" % es
            per(c, p, lambda o: o(flag), judge, "received", W)
