"""C23 roles.  A member's weight is the sum of its roles' weights, kept by the minter alone: every mint, burn,
transfer and change of weight moves exactly that weight on the books and is told to every hook."""
from props.stk import *

K = "cw721_roles"
MB, TL, TK, NUM = "members", "total", "tokens", "num_tokens"
EXT = F(as_(MSG, "Extension"), "msg")


def bal(o, a, ns=MB):
    """a member's weight, as recorded; None if not a member"""
    return ld(ns, a) if o(has(ns, a)) else None


def after_move(o, was, w, plus):
    """(weight after, is it recorded)"""
    if plus:
        return t_add(was if was is not None else I(0), w), True
    left = t_sub(was if was is not None else I(0), w)
    return left, None


def final(p, ns, k):
    """what a key holds in the end: REMOVED, the value, or None if untouched"""
    r = None
    for x in p.effects:
        if x.kind in ("save", "remove") and ns_of(x) == ns and x.a[1] is k:
            r = x.a[2] if x.kind == "save" else REMOVED
    return r


def optis(p, t, v):
    """an optional number: absent (None), or v"""
    if v is None:
        return is_adt(t, "None")
    return is_adt(t, "Some") and amounts_equal(p, t.a[3], v)


def diff(p, d, who, old, new):
    """the change told: who, from and to what; nothing for no longer a member"""
    f = adt_fields(d)
    if set(f) != {"key", "old", "new"} or not (same(f["key"], who) or who.op == "valid" and f["key"] is who.a[0]):
        return False
    ok = optis(p, f["old"], old)
    if new is REMOVED:
        return ok and (is_adt(f["new"], "None"))
    return ok and optis(p, f["new"], new)


def moves(c, ps, rule, W, plan, token, num=None, more=()):
    """plan(oracle) -> [(member, weight before, weight after or REMOVED)], total delta (+term/-term/None);
    the books end up so, and the hooks are told of just that."""
    for p in ps:
        def judge(q, r):
            todo, delta = r
            keys = {x.a[1] for x in q.effects if x.kind in ("save", "remove") and ns_of(x) == MB}
            if keys != {m for m, _, _ in todo}:
                return "books of %s" % [show(k)[:100] for k in keys]
            for m, old, new in todo:
                t = final(q, MB, m)
                if (t is REMOVED) != (new is REMOVED):
                    return "member kept or dropped wrongly: %s" % (t if t is REMOVED else show(t)[:200])
                if t is not REMOVED and not all(amounts_equal(q2, t2, new) for q2, t2 in live(q, t)):
                    return "weight of %s: %s" % (show(m)[:100], show(t)[:200])
            t = final(q, TL, UNIT)
            if delta is None:
                if t is not None and not same(t, ld(TL)):
                    return "total: %s" % show(t)[:200]
            elif t is None or t is REMOVED or not amounts_equal(q, t, t_add(ld(TL), delta[1]) if delta[0] > 0 else t_sub(ld(TL), delta[1])):
                return "total: %s" % (t if t in (None, REMOVED) else show(t)[:200])
            return True
        per(c, p, plan, judge, rule + ":books", W)

        def want(o):
            todo, delta = plan(o)

            def told(q, g):
                w = g.wasm("Execute")
                if w is None or not empty_list(w[0]["funds"]) or w[0]["contract_addr"] is not mk("elem", ld("hooks")) or g.mode != "never":
                    return False
                x = w[1]
                while x.op == "adt" and x.a[1] in ("MemberChangedHook",) and len(x.a) == 4:
                    x = x.a[3]
                l = adt_fields(x).get("diffs") if x.op == "adt" else None
                return l is not None and l.op == "array" and len(l.a) == len(todo) and all(any(diff(q, d, m, old, new) for d in l.a) for m, old, new in todo)
            return ([Each(ld("hooks"), told, "hooks")] if todo else []) + list(more)
        agree_msgs(c, [p], want, rule + ":told", W)
        heights_ok(c, [p], {MB, TL}, rule + ":now", W)
        c.ob(frame_ns(p) <= {MB, TL, TK} | ({NUM} if num else set()), rule + ":frame", W, sorted(frame_ns(p)), p)
        tok = [x for x in p.effects if x.kind in ("save", "remove", "clear") and ns_of(x) == TK]
        c.ob(len(tok) >= 1 and all(len(x.a) > 1 and x.a[1] is token for x in tok), rule + ":token", W, [repr(x)[:200] for x in tok], p)


def tok_saved(c, ps, rule, W, token, judge):
    for p in ps:
        for x in p.saves(TK):
            for q, t in live(p, x.a[2]):
                c.ob(judge(q, t), rule, W, show(t)[:300], q)


def only_changes(old, **kw):
    """the record, with these fields set (a predicate or a term), all else as it was"""
    def f(p, t, base=old):
        seen = {}
        fs = set(kw)
        while t.op == "upd":
            if t.a[1] not in fs:
                return False
            seen.setdefault(t.a[1], t.a[2])
            t = t.a[0]
        if t is not base:
            if t.op != "adt":
                return False
            for n, y in adt_fields(t).items():
                if n not in seen and y is not fld(base, n):
                    if n not in fs:
                        return False
                    seen[n] = y
            return all((w(p, seen[n]) if callable(w) and w.__class__ is not T else same(seen[n], w)) if n in seen else False for n, w in kw.items())
        return all(n in seen and (w(p, seen[n]) if callable(w) and w.__class__ is not T else same(seen[n], w)) for n, w in kw.items())
    return f


def opt_same(p, t, o):
    """the option o, or its parts"""
    if t is o:
        return True
    k = p.variant_of(o)
    return is_adt(t, "None") and k == "None" or is_adt(t, "Some") and k == "Some" and same(t.a[3], payload(o, "Some"))


def by_owner(ps):
    """the literal that the sender is the owner"""
    ks = {k for p in ps for k, v in p.st.var.items() if k.op == "call" and k.a[0].endswith("assert_owner") and SENDER in k.a}
    return t_isv(sorted(ks, key=repr)[0], "Ok", RES)


def aside(k):
    return k.op == "has" and k.a[0] == "hooks"


def run(c):
    m = lambda v, n: F(as_(MSG, v), n)
    x = lambda v, n: F(as_(EXT, v), n)
    # only the minter, for whatever it is
    for v in variants(K, "execute"):
        req(c, some_paths(c, K, "execute", v), "minter", is_owner, "%s::execute/%s" % (K, v))
    # mint
    W = K + "::execute/Mint"
    ps = some_paths(c, K, "execute", "Mint")
    tid, w = m("Mint", "token_id"), F(m("Mint", "extension"), "weight")
    who = valid(m("Mint", "owner"))

    def minted(o):
        was = bal(o, who)
        return [(who, was, t_add(was if was is not None else I(0), w))], (1, w)
    moves(c, ps, "mint", W, minted, tid, True)
    req(c, ps, "mint:new", t_not(has(TK, tid)), W)
    tok_saved(c, ps, "mint:token", W, tid, lambda p, t: t.op == "adt" and same(adt_fields(t)["owner"], who) and adt_fields(t)["token_uri"] is m("Mint", "token_uri") and adt_fields(t)["extension"] is m("Mint", "extension") and empty_list(adt_fields(t)["approvals"]))
    # burn
    W = K + "::execute/Burn"
    ps = some_paths(c, K, "execute", "Burn")
    tid = m("Burn", "token_id")
    tok = ld(TK, tid)

    def holder(t):
        return lambda p: fld(t, "owner") if any(x.a[1] is fld(t, "owner") for x in p.effects if x.kind in ("save", "remove") and ns_of(x) == MB) else valid(fld(t, "owner"))

    def less_w(o, a, wt):
        was = bal(o, a)
        base = was if was is not None else I(0)
        return (a, was, REMOVED if o(t_eq(base, wt)) else t_sub(base, wt))
    for p in ps:
        a = holder(tok)(p)
        wt = fld(fld(tok, "extension"), "weight")
        moves(c, [p], "burn", W, lambda o: ([less_w(o, a, wt)], (-1, wt)), tid, True)
        c.ob(not p.saves(TK) and bool(p.removes(TK)), "burn:token", W, None, p)
        req(c, [p], "burn:weight", lambda q: all(q2.truth(t_lt(b, wt)) is False for q2, b in [(q, ld(MB, a) if q.truth(has(MB, a)) is not False else I(0))]) or q.truth(t_eq(wt, I(0))) is True, W)
    # every role can be burned: its holder's weight, and the total, cover it
    a, wt = fld(tok, "owner"), fld(fld(tok, "extension"), "weight")
    there = [has(TK, tid), by_owner(ps), t_not(t_lt(ld(TL), wt)), has(TL), t_not(t_eq(ld(NUM), I(0))), has(NUM)]
    for b in {a, valid(a)}:
        for what, l in (("a member's", [has(MB, b), t_not(t_lt(ld(MB, b), wt))]), ("a weightless role of no member", [t_not(has(MB, b)), t_eq(wt, I(0))])):
            if any(y is has(MB, b) for p in ps for k, _ in lits_of(p) for y in subterms(k)) or any(has(MB, b) is k for p in ps for k in p.st.var):
                admits(c, ps, "burn:works", W + " " + what, *there, *l, free=aside)
    # transfer and send: the weight goes with the role
    for v, f in (("TransferNft", "recipient"), ("SendNft", "contract")):
        W = "%s::execute/%s" % (K, v)
        ps = some_paths(c, K, "execute", v)
        tid, to = m(v, "token_id"), valid(m(v, f))
        tok = ld(TK, tid)
        wt = fld(fld(tok, "extension"), "weight")
        frm = fld(tok, "owner")

        def moved(o):
            if o(t_eq(frm, to)):
                return [], None
            was = bal(o, to)
            return [less_w(o, frm, wt), (to, was, t_add(was if was is not None else I(0), wt))], None
        more = []
        if v == "SendNft":
            def notice(p, g):
                e = g.wasm("Execute")
                b = bfields(e[1], "ReceiveNft") if e else None
                b = b if b is not None and "token_id" in b else adt_fields(e[1].a[3]) if e and e[1].op == "adt" and e[1].a[1] == "ReceiveNft" and e[1].a[3].op == "adt" else None
                return b is not None and same(e[0]["contract_addr"], m(v, "contract")) and b["sender"] is SENDER and b["token_id"] is tid and b["msg"] is m(v, "msg") and empty_list(e[0]["funds"]) and g.mode == "never"
            more = [notice]
        moves(c, ps, "move", W, moved, tid, None, more)
        tok_saved(c, ps, "move:token", W, tid, lambda p, t: only_changes(tok, owner=to, approvals=lambda p, l: empty_list(l))(p, t))
    # change of weight
    pre = lambda v: [(EXT, v)]
    W = K + "::execute/Extension/UpdateTokenWeight"
    ps = some_paths(c, K, "execute", "Extension", pre("UpdateTokenWeight"))
    tid, wn = x("UpdateTokenWeight", "token_id"), x("UpdateTokenWeight", "weight")
    tok = ld(TK, tid)
    wo, a = fld(fld(tok, "extension"), "weight"), fld(tok, "owner")

    def changed(o):
        was = bal(o, a)
        base = was if was is not None else I(0)
        if o(t_lt(wn, wo)):
            d = t_sub(wo, wn)
            return [(a, was, t_sub(base, d))], (-1, d)
        d = t_sub(wn, wo)
        return [(a, was, t_add(base, d))], (1, d)
    moves(c, ps, "weight", W, changed, tid)
    tok_saved(c, ps, "weight:token", W, tid, lambda p, t: only_changes(tok, extension=lambda p, e: only_changes(fld(tok, "extension"), weight=wn)(p, e))(p, t))
    # role and link: nothing else
    for v, f in (("UpdateTokenRole", "role"), ("UpdateTokenUri", "token_uri")):
        W = "%s::execute/Extension/%s" % (K, v)
        ps = some_paths(c, K, "execute", "Extension", pre(v))
        tid = x(v, "token_id")
        tok = ld(TK, tid)
        new = x(v, f)
        given = lambda p, t: opt_same(p, t, new)
        want = only_changes(tok, token_uri=given) if f == "token_uri" else only_changes(tok, extension=lambda p, e: only_changes(fld(tok, "extension"), role=given)(p, e))
        for p in ps:
            c.ob(frame_ns(p) == {TK} and len(p.saves(TK)) == 1 and p.saves(TK)[0].a[1] is tid, "label:frame", W, sorted(p.writes()), p)
        tok_saved(c, ps, "label", W, tid, want)
        msgs_ok(c, ps, "label", [])
    # the other calls of the collection leave owners and weights alone
    for v in ("Approve", "Revoke", "ApproveAll", "RevokeAll"):
        W = "%s::execute/%s" % (K, v)
        ps = some_paths(c, K, "execute", v)
        for p in ps:
            c.ob(frame_ns(p) <= {TK, "operators"}, "approvals:frame", W, sorted(frame_ns(p)), p)
            for y in p.saves(TK):
                c.ob(only_changes(ld(TK, y.a[1]), approvals=lambda p, l: True)(p, y.a[2]), "approvals:token", W, show(y.a[2])[:300], p)
            c.ob(not p.removes(TK), "approvals:token", W, None, p)
        msgs_ok(c, ps, "approvals", [])
    ownership(c, K)
    hook_registry(c)
    c.ob(sorted(variants(K, "execute")) == sorted(["TransferNft", "SendNft", "Approve", "Revoke", "ApproveAll", "RevokeAll", "Mint", "Burn", "Extension", "UpdateOwnership"]), "operations", K + "::execute", variants(K, "execute"))
    start(c)
    queries(c)


def ownership(c, K):
    from props.c12 import ownership as own
    own(c, K)


def hook_registry(c):
    for v, add in (("AddHook", True), ("RemoveHook", False)):
        W = "%s::execute/Extension/%s" % (K, v)
        a = valid(F(as_(EXT, v), "addr"))
        ps = some_paths(c, K, "execute", "Extension", [(EXT, v)])
        registered(c, ps, W, a, add)


def start(c):
    W = K + "::instantiate"
    ps = some_paths(c, K, "instantiate")
    for p in ps:
        c.ob(final(p, TL, UNIT) is I(0), "start:total", W, None, p)
        c.ob(not p.saves(MB) and not p.saves(TK) and not p.saves("hooks"), "start:books", W, sorted(p.writes()), p)
        o = exts(p, "initialize_owner")
        mt = F(MSG, "minter")
        c.ob(len(o) == 1 and any(same(y.a[3] if is_adt(y, "Some") else y, z) for y in o[0].a[1:] if y.__class__ is T for z in (mt, valid(mt))), "start:minter", W, [repr(y)[:200] for y in o], p)
    heights_ok(c, ps, {TL}, "start:now", W)


def queries(c):
    pass
