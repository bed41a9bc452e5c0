"""C22 token issuer.  Supply is minted and burned only against an allowance the owner set, one for one;
only the owner administers; a frozen token moves only from or to the allowed, a denied account's never."""
from lib import *
from props.c12 import ownership

K = "cw_tokenfactory_issuer"
DENOM = ld("denom")
MINT, BURN = "minter_allowances", "burner_allowances"
INFO_NS = "hook_features_enabled"
# what the owner alone does, and the state it touches
OPS = ["Allow", "Burn", "Deny", "ForceTransfer", "Freeze", "Mint", "SetBeforeSendHook", "SetBurnerAllowance", "SetDenomMetadata", "SetMinterAllowance", "UpdateOwnership", "UpdateTokenFactoryAdmin"]


def coin_of(t, denom, amount):
    """the one coin"""
    if is_adt(t, "Some"):
        t = t.a[3]
    if t.op == "call" and t.a[0].endswith("coins") and len(t.a) == 3:
        return t.a[1] is amount and t.a[2] is denom
    if t.op == "array" and len(t.a) == 1:
        t = t.a[0]
    if t.op == "call" and t.a[0].endswith("coin") and len(t.a) == 3:
        return t.a[1] is amount and t.a[2] is denom
    return t.op == "adt" and adt_fields(t).get("denom") is denom and adt_fields(t).get("amount") is amount


def m_chain(name, **want):
    """the chain's message of this name with these fields"""
    def f(p, g):
        m = g.msg
        if m.op != "adt" or not m.a[0].endswith(name) or g.mode != "never":
            return False
        d = adt_fields(m)
        return set(d) == set(want) and all(x(d[n]) if callable(x) and x.__class__ is not T else d[n] is x for n, x in want.items())
    return f


def less(ns, amount):
    """the sender's allowance, less the amount"""
    def f(p, k, v):
        if k is not SENDER:
            return False
        old = ld(ns, SENDER)
        if v is REMOVED:
            return p.truth(t_eq(old, amount)) is True or amounts_equal(p, t_sub(old, amount), I(0))
        return minus(p, v, ns, SENDER, amount)
    return f


def put(key, val):
    """set to val, or removed where that is nothing"""
    def f(p, k, v):
        if not same(k, key):
            return False
        if v is REMOVED:
            return p.truth(t_eq(val, I(0))) is True or p.truth(val) is False
        return same(v, val) or p.truth(v) is True and p.truth(val) is True
    return f


def features(p):
    return p.truth(F(ld(INFO_NS), "advanced_features_enabled")) is True


def coin_moves(o, frm, to, denom):
    """may it move? only asked of what is on the books"""
    if not o(ld("is_frozen")) or not o(t_eq(denom, DENOM)):
        return True
    on = lambda a: o(has("allowlist", a)) and o(ld("allowlist", a))
    return on(frm) or on(to)


def set_up(k):
    """the issuer has its token"""
    return k.op == "has" and k.a[0] in ("is_frozen", "denom", INFO_NS)


def run(c):
    m = lambda v, n: F(as_(MSG, v), n)
    none = {}
    # minting and burning
    for v, ns, amt in (("Mint", MINT, m("Mint", "amount")), ("Burn", BURN, m("Burn", "amount"))):
        W = "%s::execute/%s" % (K, v)
        ps = spec(c, v.lower(), K, "execute", v, guards=[t_not(t_eq(amt, I(0))), t_not(t_lt(ld(ns, SENDER), amt)), has(ns, SENDER)], writes={ns: less(ns, amt)}, must=[ns])
        enough = [t_not(t_eq(amt, I(0))), has(ns, SENDER), t_not(t_lt(ld(ns, SENDER), amt))]
        if v == "Mint":
            to = m(v, "to_address")
            holds(c, ps, lambda o: coin_moves(o, SENDER, valid(to), DENOM), "mint:frozen", W)
            send = lambda p, g: g.bank() is not None and same(g.bank()[0], to) and coin_of(g.bank()[1], DENOM, amt) and g.mode == "never"
            make = m_chain("MsgMint", sender=SELF, amount=lambda t: coin_of(t, DENOM, amt), mint_to_address=SELF)
            agree_msgs(c, ps, lambda o: [make, send], "mint:messages", W, first=0)
            for less_ in (t_not(t_eq(ld(ns, SENDER), amt)), t_eq(ld(ns, SENDER), amt)):
                admits(c, ps, "mint:works", W, *enough, less_, t_not(ld("is_frozen")), free=set_up)
                admits(c, ps, "mint:works", W + " for the allowed", *enough, less_, ld("is_frozen"), has("allowlist", SENDER), ld("allowlist", SENDER), free=set_up)
        else:
            whom = m(v, "from_address")
            agree_msgs(c, ps, lambda o: [m_chain("MsgBurn", sender=SELF, amount=lambda t: coin_of(t, DENOM, amt), burn_from_address=lambda t: same(t, whom) or same(t, valid(whom)))], "burn:messages", W)
            req(c, ps, "burn:account", mk("validaddr", whom), W)
            admits(c, ps, "burn:works", W, *enough, free=set_up)
    # the owner's administration
    for v, ns in (("SetMinterAllowance", MINT), ("SetBurnerAllowance", BURN)):
        ps = spec(c, "allowance", K, "execute", v, guards=[is_owner], writes={ns: put(valid(m(v, "address")), m(v, "allowance"))}, must=[ns], msgs=[])
    for v, ns in (("Deny", "denylist"), ("Allow", "allowlist")):
        ps = spec(c, v.lower(), K, "execute", v, guards=[is_owner, features], writes={ns: put(valid(m(v, "address")), m(v, "status"))}, must=[ns], msgs=[])
        if v == "Deny":
            req(c, ps, "deny:self", t_not(t_eq(valid(m(v, "address")), SELF)), "%s::execute/Deny" % K)
    on = m("Freeze", "status")
    spec(c, "freeze", K, "execute", "Freeze", guards=[is_owner, features], writes={"is_frozen": lambda p, k, v: v is not REMOVED and (v is on or p.truth(v) is not None and p.truth(v) is p.truth(on)), "allowlist": put(SELF, on)}, must=["is_frozen", "allowlist"], msgs=[])
    spec(c, "admin", K, "execute", "UpdateTokenFactoryAdmin", guards=[is_owner, mk("validaddr", m("UpdateTokenFactoryAdmin", "new_admin"))], writes=none,
         msgs=[m_chain("MsgChangeAdmin", sender=SELF, denom=DENOM, new_admin=lambda t: same(t, valid(m("UpdateTokenFactoryAdmin", "new_admin"))) or same(t, m("UpdateTokenFactoryAdmin", "new_admin")))], nmsg=1)
    ft = lambda n: m("ForceTransfer", n)
    spec(c, "force-transfer", K, "execute", "ForceTransfer", guards=[is_owner], writes=none,
         msgs=[m_chain("MsgForceTransfer", sender=SELF, amount=lambda t: coin_of(t, DENOM, ft("amount")), transfer_from_address=lambda t: same(t, ft("from_address")), transfer_to_address=lambda t: same(t, ft("to_address")))], nmsg=1)
    md = m("SetDenomMetadata", "metadata")

    def metadata(t):
        """the metadata given, field for field"""
        t = t.a[3] if is_adt(t, "Some") else t
        if t is md:
            return True
        if t.op != "adt":
            return False
        d = adt_fields(t)
        ok = all(d.get(n) is fld(md, n) for n in ("description", "base", "display", "name", "symbol"))
        u, l = d.get("denom_units"), fld(md, "denom_units")
        each = u is not None and (u is l or u.op == "imap" and u.a[0] is l and (u.a[1] is mk("elem", l) or u.a[1].op == "adt" and all(adt_fields(u.a[1]).get(n) is fld(mk("elem", l), n) for n in ("denom", "exponent", "aliases"))))
        return ok and each
    spec(c, "metadata", K, "execute", "SetDenomMetadata", guards=[is_owner], writes=none, msgs=[m_chain("MsgSetDenomMetadata", sender=SELF, metadata=metadata)], nmsg=1)
    # who watches transfers
    a = m("SetBeforeSendHook", "cosmwasm_address")

    def watcher(p, k, v):
        if v is REMOVED:
            return False
        empty, own = p.truth(t_eq(mk("len", a), I(0))), p.truth(t_eq(a, SELF))
        f, h = fld(v, "advanced_features_enabled"), fld(v, "hook_contract_address")
        if empty is True:
            return p.truth(f) is False and is_adt(h, "None")
        return empty is False and (f is t_eq(a, SELF) or own is not None and p.truth(f) is own) and is_adt(h, "Some") and same(h.a[3], a)
    ps = spec(c, "watcher", K, "execute", "SetBeforeSendHook", guards=[is_owner], writes={INFO_NS: watcher}, must=[INFO_NS], msgs=[m_chain("MsgSetBeforeSendHook", sender=SELF, denom=DENOM, cosmwasm_address=a)], nmsg=1)
    ownership(c, K)
    c.ob(sorted(variants(K, "execute")) == sorted(OPS), "operations", K + "::execute", variants(K, "execute"))
    hook(c)
    start(c)
    queries(c)


def hook(c):
    """every transfer of the token, where the issuer watches them"""
    W = K + "::sudo/BlockBeforeSend"
    M = as_(MSG, "BlockBeforeSend")
    frm, to, den = fld(M, "from"), fld(M, "to"), fld(fld(M, "amount"), "denom")
    ps = spec(c, "transfer", K, "sudo", "BlockBeforeSend", writes={}, msgs=[])
    f, t = valid(frm), valid(to)

    def denied(o, a):
        return o(has("denylist", a)) and o(ld("denylist", a))
    holds(c, ps, lambda o: coin_moves(o, f, t, den), "transfer:frozen", W)
    holds(c, ps, lambda o: not denied(o, f) and not denied(o, t), "transfer:denied", W)
    fz, own = ld("is_frozen"), t_eq(den, DENOM)
    free = [t_not(has("denylist", f)), t_not(has("denylist", t))]
    for w, l in (("not frozen", [t_not(fz)]), ("another token", [fz, t_not(own)]),
                 ("from the allowed", [fz, own, has("allowlist", f), ld("allowlist", f)]), ("to the allowed", [fz, own, has("allowlist", t), ld("allowlist", t), t_not(has("allowlist", f))])):
        admits(c, ps, "transfer:works", W + " " + w, *free, *l, free=set_up)
    c.ob(variants(K, "sudo") == ["BlockBeforeSend"], "operations", K + "::sudo", variants(K, "sudo"))


def start(c):
    """the token is made or named once; its maker owns the issuer"""
    W = K + "::instantiate"
    init = lambda p: succeeded(p, "initialize_owner") and all(x.a[-1] is SENDER or is_adt(x.a[-1], "Some") and x.a[-1].a[3] is SENDER for x in exts(p, "initialize_owner"))
    info = lambda p, k, v: v is not REMOVED and p.truth(fld(v, "advanced_features_enabled")) is False and is_adt(fld(v, "hook_contract_address"), "None")
    ids = set()
    for v in ("NewToken", "ExistingToken"):
        den = m_denom = fld(as_(MSG, v), "denom")
        writes = {INFO_NS: info, "is_frozen": lambda p, k, v: v is not REMOVED and p.truth(v) is False, "ext:cw_ownable::initialize_owner": lambda p, k, v: True}
        must = [INFO_NS, "is_frozen"]
        if v == "ExistingToken":
            writes["denom"] = lambda p, k, v: v is not REMOVED and same(v, den)
            must.append("denom")
        ps = [q for p in okpaths(K, "instantiate") for q in p.assume(t_isv(MSG, v)) if q.feasible()]
        c.floor(len(ps), 1, W + "/" + v)
        req(c, ps, "start:owner", init, W + "/" + v)
        writes_ok(c, ps, "start", {n if not n.startswith("ext:") else next((x for p in ps for x in p.writes() if x.endswith("initialize_owner")), n): w for n, w in writes.items()}, must)
        if v == "ExistingToken":
            msgs_ok(c, ps, "start", [])
            continue

        def create(p, g):
            m = g.msg
            if m.op != "adt" or not m.a[0].endswith("MsgCreateDenom") or g.mode != "success":
                return False
            ids.add(g.id)
            d = adt_fields(m)
            return d["sender"] is SELF and same(d["subdenom"], fld(as_(MSG, v), "subdenom"))
        msgs_ok(c, ps, "start", [create], 1)
    W = K + "::reply"
    R = sym("reply")
    ps = some_paths(c, K, "reply")
    c.ob(len(ids) == 1, "start:reply", W, [show(x) for x in ids])
    for i in ids:
        req(c, ps, "start:reply", t_eq(fld(R, "id"), i), W)
    writes_ok(c, ps, "start:reply", {"denom": lambda p, k, v: v is not REMOVED and v.op == "fld" and v.a[1] == "new_token_denom" and fld(R, "result") in subterms(v)}, ["denom"])
    msgs_ok(c, ps, "start:reply", [])


def queries(c):
    for v, ns in (("MintAllowance", MINT), ("BurnAllowance", BURN)):
        a = valid(F(as_(MSG, v), "address"))
        answer_is(c, "query", K, v, lambda p, r: fld(r, "allowance") is ld(ns, a) and p.truth(has(ns, a)) is True or fld(r, "allowance") is I(0) and p.truth(has(ns, a)) is False)
    for v, ns in (("IsDenied", "denylist"), ("IsAllowed", "allowlist")):
        a = valid(F(as_(MSG, v), "address"))
        answer_is(c, "query", K, v, lambda p, r: fld(r, "status") is ld(ns, a) and p.truth(has(ns, a)) is True or p.truth(fld(r, "status")) is False and (p.truth(has(ns, a)) is False or p.truth(ld(ns, a)) is False))
    answer_is(c, "query", K, "IsFrozen", lambda p, r: fld(r, "is_frozen") is ld("is_frozen"))
    answer_is(c, "query", K, "Denom", lambda p, r: fld(r, "denom") is DENOM)
    answer_is(c, "query", K, "BeforeSendHookInfo", ld(INFO_NS))
