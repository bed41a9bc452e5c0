"""C01 authority over a DAO's core.  For every variant of the core's execute message (enumerated
from the type, so a new variant must be classified): each successful path establishes the caller
required for it; only the state the operation is for is written, with the value it is for; while
paused, only the DAO itself or its admin gets through; relayed messages are the caller's, unaltered."""
from lib import *

K = "dao_dao_core"
IS_SELF = t_eq(SENDER, SELF)
IS_ADMIN = t_eq(SENDER, ld("admin"))
PAUSE = [t_not(has("paused")), mk("expired", ld("paused"), BLOCK), IS_SELF, IS_ADMIN]


def m(variant, f):
    return F(as_(MSG, variant), f)


def each(lst):
    return mk("elem", lst)


def relay(variant):
    lst = m(variant, "msgs")
    return lambda p, g: g.msg is each(lst)


def member_change(variant, ns, elem_key, val):
    """save of an added element / removal of a removed element"""
    def f(p, k, v):
        if v is REMOVED:
            return k is valid(each(m(variant, "to_remove")))
        return k is valid(elem_key(each(m(variant, "to_add")))) and (val is None or v is val(each(m(variant, "to_add"))))
    return f


def module_off(p, k, v):
    return (k is valid(each(m("UpdateProposalModules", "to_disable"))) and v is not REMOVED
            and v.op == "upd" and v.a[1] == "status" and is_adt(v.a[2], "Disabled") and is_ld(v.a[0], "proposal_modules_v2", k))


def inst(module, rid):
    """instantiation of the given module info with the admin the info asks for"""
    def f(p, g):
        w = g.wasm("Instantiate")
        if w is None or g.mode != "success" or g.id is not I(rid):
            return False
        d, b = w
        if any(d[n] is not fld(module, n) for n in ("code_id", "label", "funds")) or d["msg"] is not fld(module, "msg"):
            return False
        a = fld(module, "admin")
        inner = payload(a, "Some")
        v = p.variant_of(a)
        if v == "None":
            return d["admin"] is NONE
        w2 = p.variant_of(inner)
        if w2 == "CoreModule":
            return d["admin"] is some(SELF)
        if w2 == "Address":
            return d["admin"] is some(F(as_(inner, "Address"), "addr"))
        return False
    return f


def run(c):
    E1 = mk("adt", "cosmwasm_std::Empty", "Empty", ())
    nom = m("NominateAdmin", "admin")
    table = {
        "ExecuteAdminMsgs": dict(guards=[IS_ADMIN], writes={}, msgs=[relay("ExecuteAdminMsgs")], nmsg=0),
        "ExecuteProposalHook": dict(
            guards=[has("proposal_modules_v2", SENDER), t_isv(F(ld("proposal_modules_v2", SENDER), "status"), "Enabled")],
            writes={}, msgs=[relay("ExecuteProposalHook")]),
        "Pause": dict(guards=[IS_SELF], writes={"paused": (UNIT, lambda p, v: v.op == "call" and v.a[0].endswith("Duration::after") and v.a[1] is m("Pause", "duration") and v.a[2] is BLOCK)}, must=["paused"], msgs=[]),
        "Unpause": dict(guards=[IS_ADMIN], writes={"paused": (UNIT, REMOVED)}, must=["paused"], msgs=[]),
        "Receive": dict(guards=[], writes={"cw20s": lambda p, k, v: k is SENDER and v is not REMOVED and p.entails(F(ld("config_v2"), "automatically_add_cw20s"))}, msgs=[]),
        "ReceiveNft": dict(guards=[], writes={"cw721s": lambda p, k, v: k is SENDER and v is not REMOVED and p.entails(F(ld("config_v2"), "automatically_add_cw721s"))}, msgs=[]),
        "RemoveItem": dict(guards=[IS_SELF, has("items", m("RemoveItem", "key"))], writes={"items": (m("RemoveItem", "key"), REMOVED)}, must=["items"], msgs=[]),
        "SetItem": dict(guards=[IS_SELF], writes={"items": (m("SetItem", "key"), m("SetItem", "value"))}, must=["items"], msgs=[]),
        "NominateAdmin": dict(
            guards=[IS_ADMIN, t_not(has("nominated_admin"))],
            writes={"nominated_admin": lambda p, k, v: v is valid(payload(nom, "Some")) and p.variant_of(nom) == "Some",
                    "admin": lambda p, k, v: v is SELF and p.variant_of(nom) == "None"}, msgs=[]),
        "AcceptAdminNomination": dict(
            guards=[has("nominated_admin"), t_eq(SENDER, ld("nominated_admin"))],
            writes={"nominated_admin": (UNIT, REMOVED), "admin": (UNIT, lambda p, v: v in (SENDER, ld("nominated_admin")))},
            must=["nominated_admin", "admin"], msgs=[]),
        "WithdrawAdminNomination": dict(guards=[IS_ADMIN, has("nominated_admin")], writes={"nominated_admin": (UNIT, REMOVED)}, must=["nominated_admin"], msgs=[]),
        "UpdateConfig": dict(guards=[IS_SELF], writes={"config_v2": (UNIT, m("UpdateConfig", "config"))}, must=["config_v2"], msgs=[]),
        "UpdateCw20List": dict(guards=[IS_SELF], writes={"cw20s": member_change("UpdateCw20List", "cw20s", lambda x: x, None)}, msgs=[]),
        "UpdateCw721List": dict(guards=[IS_SELF], writes={"cw721s": member_change("UpdateCw721List", "cw721s", lambda x: x, None)}, msgs=[]),
        "UpdateVotingModule": dict(guards=[IS_SELF], writes={}, msgs=[inst(m("UpdateVotingModule", "module"), 2)], nmsg=1),
        "UpdateProposalModules": dict(guards=[IS_SELF], writes={"proposal_modules_v2": module_off, "active_proposal_module_count": None},
                                      msgs=[inst(each(m("UpdateProposalModules", "to_add")), 0)]),
        "UpdateSubDaos": dict(guards=[IS_SELF], writes={"sub_daos": member_change("UpdateSubDaos", "sub_daos", lambda x: fld(x, "addr"), lambda x: fld(x, "charter"))}, msgs=[]),
    }
    vs = variants(K, "execute")
    for v in vs:
        if v not in table:
            # an operation the table does not know must at least be restricted
            ps = okpaths(K, "execute", v)
            req(c, ps, "unclassified", [IS_SELF, IS_ADMIN], "%s::execute/%s" % (K, v))
            continue
        ps = spec(c, "authority", K, "execute", v, **table[v])
        if v != "Unpause":
            req(c, ps, "pause", PAUSE, "%s::execute/%s while paused" % (K, v))
    for v in table:
        c.ob(v in vs, "anchor", "%s execute variant %s" % (K, v))
    # relays are complete: a message list is passed on whenever the call succeeds
    for v in ("ExecuteAdminMsgs", "ExecuteProposalHook"):
        for p in okpaths(K, "execute", v):
            c.ob(all(len(gs) == 1 and gs[0].each is m(v, "msgs") and gs[0].msg is each(gs[0].each) and not gs[0].conds for q, gs in p.worlds() if q.feasible()), "relay", "%s::execute/%s passes on its messages" % (K, v), path=p)
    # both branches of the configuration flag / nomination exist
    for v, ns in (("Receive", "cw20s"), ("ReceiveNft", "cw721s")):
        ps = okpaths(K, "execute", v)
        flag = F(ld("config_v2"), "automatically_add_" + ns)
        for p in ps:
            if not p.saves(ns):
                c.ob(p.entails(t_not(flag)), "auto-add", "%s::execute/%s records the token when asked to" % (K, v), path=p)
    for p in okpaths(K, "execute", "NominateAdmin"):
        w = p.writes()
        want = "nominated_admin" if p.variant_of(nom) == "Some" else "admin"
        c.ob(want in w, "nominate", "%s::execute/NominateAdmin writes %s" % (K, want), path=p)
    # no other entry point changes these, instantiate sets admin to the given one or the DAO
    adm = F(MSG, "admin")
    for p in some_paths(c, K, "instantiate"):
        s = p.saves("admin")
        c.ob(len(s) == 1, "instantiate", "%s::instantiate sets the admin" % K, path=p)
        for x in s:
            for q, (v,) in p.split(x.a[2]):
                a = q.variant_of(adm)
                c.ob(v is (valid(payload(adm, "Some")) if a == "Some" else SELF) and a is not None, "instantiate", "%s::instantiate admin value" % K, show(v), q)
    for p in some_paths(c, K, "reply"):
        c.ob(not ({"admin", "nominated_admin", "paused", "config_v2", "items", "sub_daos"} & set(p.writes())), "frame", "%s::reply leaves authority state alone" % K, sorted(p.writes()), p)
