"""Staking: shared vocabulary of C12..C15."""
from lib import *
from props.prop import *


def heard(body, **f):
    """the stake-change message to a hook"""
    def g(p, m):
        w = m.wasm("Execute")
        if w is None or not empty_list(w[0]["funds"]) or w[0]["contract_addr"] is not mk("elem", ld("hooks")) or m.mode != "never":
            return False
        b = w[1]
        while b.op == "adt" and b.a[1].endswith("Hook") and len(b.a) == 4:
            b = b.a[3]
        x = bfields(b, body)
        return x is not None and set(x) == set(f) and all(same(x[n], f[n]) if f[n].__class__ is T else f[n](p, x[n]) for n in f)
    return g


def hooks(body, **f):
    return Each(ld("hooks"), heard(body, **f), "hooks")


def after(d):
    """the moment an unstaking duration from now"""
    return lambda t: t.op == "call" and t.a[0].endswith("Duration::after") and t.a[1] is d and t.a[2] is BLOCK


def registered(c, ps, W, a, add):
    """the hook `a` is put on the list, once, or taken off it"""
    hs = ld("hooks")
    for p in ps:
        c.ob(set(p.writes()) - {"ext:" + x.a[0] for x in exts(p, "assert_owner")} == {"hooks"}, "hook-frame", W, sorted(p.writes()), p)
        for x in p.saves("hooks"):
            t = x.a[2]
            if add:
                ok = (t.op == "vpush" and t.a[0] is hs and t.a[1] is a) or (t.op == "array" and t.a == (a,) and p.truth(has("hooks")) is False)
                ok = ok and (p.truth(has("hooks")) is False or any(k.op == "iany" and k.a[0] is hs and contains(k, a) and not val for k, val in lits_of(p)))
            else:
                ok = t.op == "mut" and t.a[0].endswith("Vec::remove") and contains(t, hs) and any(y.op == "position" and y.a[0] is hs and contains(y, a) for y in subterms(t))
                ok = ok or (t.op == "ifilter" and t.a[0] is hs and t.a[1] is t_not(t_eq(mk("elem", hs), a)))
            c.ob(ok, "hook-registered" if add else "hook-removed", W, show(t)[:300], p)
        msgs_ok(c, [p], "hook-frame", [])


def registry(c, K, authority):
    """hooks are added and removed by the authority only, one at a time"""
    for v, add in (("AddHook", True), ("RemoveHook", False)):
        W = "%s::execute/%s" % (K, v)
        a = valid(F(as_(MSG, v), "addr"))
        ps = some_paths(c, K, "execute", v)
        req(c, ps, "hook-authority", authority, W)
        registered(c, ps, W, a, add)


def frame_ns(p):
    """namespaces written, ownership bookkeeping of cw_ownable aside"""
    return {n for n in p.writes() if not n.startswith(("ext:cw_ownable::assert", "ext:cw_ownable::get", "ext:cw2::"))}


def config_update(c, K, ns, guard, field="unstaking_duration", arg="duration"):
    """the unstaking duration is replaced by a valid one, by the authority only; nothing else changes"""
    W = K + "::execute/UpdateConfig"
    d = F(as_(MSG, "UpdateConfig"), arg)
    ps = some_paths(c, K, "execute", "UpdateConfig")
    req(c, ps, "config-authority", guard, W)
    req(c, ps, "config-duration", valid_duration(d), W)
    for p in ps:
        s = p.saves(ns)
        c.ob(frame_ns(p) == {ns} and len(s) == 1, "config-frame", W, sorted(p.writes()), p)
        for x in s:
            for q, t in live(p, x.a[2]):
                ok = t.op == "upd" and t.a[0] is ld(ns) and t.a[1] == field and t.a[2] is d
                ok = ok or (t.op == "adt" and all(v is (d if n == field else fld(ld(ns), n)) for n, v in adt_fields(t).items()))
                c.ob(ok, "config-value", W, show(t)[:300], q)
    msgs_ok(c, ps, "config-frame", [])


def claim_made(p, who, amount, dur):
    """exactly one claim: for `who`, of `amount`, released a duration from now; and not too many"""
    x = exts(p, "create_claim")
    return len(x) == 1 and who in x[0].a and any(y.__class__ is T and same(y, amount) for y in x[0].a[2:]) and any(y.__class__ is T and after(dur)(y) for y in x[0].a) and succeeded(p, "create_claim", who)


def claims_bounded(p, who, cap=100):
    """fewer than `cap` claims are outstanding"""
    for k, v in lits_of(p):
        if k.op == "lt" and any(y.op == "len" and any(z.op == "call" and z.a[0].endswith("query_claims") and who in z.a for z in subterms(y)) for y in subterms(k)):
            a, b = k.a
            if a.op == "int" and v is False and a.a[0] <= cap - 1 and b.op == "len":     # not cap-1 < n
                return True
            if b.op == "int" and v is True and b.a[0] <= cap and a.op == "len":           # n < cap
                return True
            if a.op == "int" and v is False and a.a[0] <= cap and b.op == "add":          # not cap < n + 1
                return True
    return False
