"""C20 factories.  A factory creates exactly what was asked, for whom it lets create: a payroll factory
funds each vesting contract with exactly the tokens received for it and files it under its creator and
recipient; an admin factory leaves every contract it made administered by itself alone, at the expected
address; the fan-token factory hands token, authority and minting to the DAO it issued for."""
from lib import *

PK, AK, BK = "cw_payroll_factory", "cw_admin_factory", "btsg_ft_factory"


def run(c):
    payroll(c)
    admin(c)
    fan(c)


def inst(var="Instantiate", mode="success", **want):
    def f(p, g):
        w = g.wasm(var)
        if w is None or g.mode != mode:
            return False
        d, b = w
        for n, x in want.items():
            t = b if n == "msg" else d.get(n)
            if t is None or not (x(t) if callable(x) and x.__class__ is not T else same(t, x)):
                return False
        return True
    return f


def reply_id(c, ps, W):
    """the id the created contract is reported under"""
    ids = {g.id for p in ps for _, g in p.msgs() if g.mode == "success"}
    c.ob(len(ids) == 1, "reply-id", W, [show(x) for x in ids])
    return list(ids)[0] if ids else I(-1)


def reply_paths(c, K, rid, W):
    t = fld(sym("reply"), "id")
    out = []
    for p in okpaths(K, "reply"):
        for s in p.e.assume(p.st, t_eq(t, rid), True):
            q = p.on(s)
            if q.feasible():
                out.append(q)
    c.floor(len(out), 1, W)
    return out


def parsed_as(p, t):
    """what the raw message parses to, on this path"""
    xs = {y for k in list(p.st.var) + [k for k, _ in lits_of(p)] for y in subterms(k) if y.op == "parsed" and y.a[0] is t}
    xs |= {y for e in p.effects for x in e.a if x.__class__ is T for y in subterms(x) if y.op == "parsed" and y.a[0] is t}
    return list(xs)[0] if len(xs) == 1 else None


def may_create(who):
    """there is no owner, or `who` is the owner"""
    def f(p):
        for k in list(p.st.var):
            if k.op == "call" and k.a[0].endswith("get_ownership") and p.variant_of(k) == "Ok":
                o = fld(payload(k, "Ok"), "owner")
                if p.variant_of(o) == "None" or p.truth(t_eq(payload(o, "Some"), who)) is True:
                    return True
        return False
    return f


TMP, VC, PCI = "tmp_instantiator_info", "vesting_contracts", "pci"


def payroll(c):
    K = PK
    rids = set()
    R = fld(as_(MSG, "Receive"), "0")
    for v in ("Receive", "InstantiateNativePayrollContract"):
        W = "%s::execute/%s" % (K, v)
        ps = some_paths(c, K, "execute", v)
        for p in ps:
            if not p.feasible():
                continue
            if v == "Receive":
                body = parsed_as(p, fld(R, "msg"))
                if not c.ob(body is not None, "payroll:asked", W, "", p):
                    continue
                body = as_(body, "InstantiatePayrollContract")
                who, funds = valid(fld(R, "sender")), empty_list
                req(c, [p], "payroll:exact", t_eq(fld(R, "amount"), F(body, "instantiate_msg.total")), W)
                req(c, [p], "payroll:one-at-a-time", t_not(has(TMP)), W)
                req(c, [p], "payroll:nonpayable", lambda q: succeeded(q, "nonpayable", INFO), W)
            else:
                body = as_(MSG, v)
                who, funds = SENDER, FUNDS
            im = fld(body, "instantiate_msg")
            req(c, [p], "payroll:creator", may_create(who), W)
            s = p.saves(TMP)
            c.ob({n for n in p.writes() if "::get_ownership" not in n} == {TMP} and len(s) == 1 and s[0].a[2] is who, "payroll:creator-noted", W, [repr(x)[:200] for x in p.effects], p)
            agree_msgs(c, [p], lambda o: [inst(admin=fld(im, "owner"), code_id=ld(PCI), msg=im, funds=funds, label=fld(body, "label"))], "payroll:created", W)
        rids.add(reply_id(c, ps, W))
    W = K + "::reply"
    c.ob(len(rids) == 1, "reply-id", W, [show(x) for x in rids])
    for p in reply_paths(c, K, list(rids)[0], W):
        s = p.saves(VC)
        a = new_addr(p)
        if not c.ob(a is not None and len(s) == 1, "payroll:filed", W, [repr(x)[:300] for x in s], p):
            continue
        info = [y for k in [s[0].a[2]] for y in subterms(k) if y.op == "query" and y.a[0] is a and y.a[1].op == "adt" and y.a[1].a[1] == "Info"]
        if not c.ob(len(info) >= 1, "payroll:filed", W, show(s[0].a[2])[:300], p):
            continue
        vest = info[0]
        v = s[0].a[2]
        c.ob(s[0].a[1] is a and fld(v, "contract") is a and fld(v, "instantiator") is ld(TMP) and fld(v, "recipient") is fld(vest, "recipient"), "payroll:filed", W, show(v)[:300], p)
        req(c, [p], "payroll:known-creator", has(TMP), W)
        c.ob(set(p.writes()) == {VC, TMP} and len(p.removes(TMP)) == 1 and not p.saves(TMP), "payroll:cleared", W, sorted(p.writes()), p)
        dn = fld(vest, "denom")

        def fund(q, g):
            w = g.wasm("Execute")
            if w is None or w[0]["contract_addr"] is not payload(dn, "Cw20") or not empty_list(w[0]["funds"]) or g.mode != "never":
                return False
            x = bfields(w[1], "Send")
            if x is None or x["contract"] is not a:
                return False
            m = x["msg"].a[0] if x["msg"].op == "json" else x["msg"]
            amt = x["amount"]
            total = any(y is fld(vest, "vested") for y in subterms(amt)) and amt.op in ("fld", "call") and any(y.op == "call" and y.a[0].endswith("range") for y in subterms(amt)) and (amt.op == "call" or amt.a[1] == "1")
            return m.op == "adt" and m.a[1] == "Fund" and total
        agree_msgs(c, [p], lambda o: [fund] if o(t_isv(dn, "Cw20", None)) else [], "payroll:funded", W)
    W = K + "::execute/UpdateCodeId"
    for p in some_paths(c, K, "execute", "UpdateCodeId"):
        req(c, [p], "payroll:code-authority", is_owner, W)
        s = p.saves(PCI)
        c.ob({n for n in p.writes() if not n.startswith("ext:cw_ownable::assert")} == {PCI} and len(s) == 1 and s[0].a[2] is F(as_(MSG, "UpdateCodeId"), "vesting_code_id"), "payroll:code", W, sorted(p.writes()), p)
        msgs_ok(c, [p], "payroll:code", [])
    from props.c12 import ownership
    ownership(c, K)
    W = K + "::instantiate"
    for p in some_paths(c, K, "instantiate"):
        s = p.saves(PCI)
        c.ob(len(s) == 1 and s[0].a[2] is F(MSG, "vesting_code_id") and not p.saves(TMP) and succeeded(p, "initialize_owner"), "payroll:initial", W, sorted(p.writes()), p)
    answer_is(c, "query", K, "CodeId", ld(PCI))


def new_addr(p):
    """the validated address of the contract the reply reports"""
    xs = {k.a[0] for k, v in lits_of(p) if v and k.op == "validaddr"}
    xs = {x for x in xs if x.op == "fld" and x.a[1] == "contract_address" and any(y.op == "call" and y.a[0].endswith("parse_reply_instantiate_data") for y in subterms(x))}
    return valid(list(xs)[0]) if len(xs) == 1 else None


def admin(c):
    K = AK
    adm = ld("admin")
    rids = {}
    for v, var in (("InstantiateContractWithSelfAdmin", "Instantiate"), ("Instantiate2ContractWithSelfAdmin", "Instantiate2")):
        W = "%s::execute/%s" % (K, v)
        B = as_(MSG, v)
        ps = some_paths(c, K, "execute", v)
        req(c, ps, "admin:creator", [lambda p: p.variant_of(adm) == "None", t_eq(payload(adm, "Some"), SENDER)], W)
        kw = dict(admin=lambda t: is_adt(t, "Some") and payload(t, "Some") is SELF, code_id=fld(B, "code_id"), msg=fld(B, "instantiate_msg"), funds=FUNDS, label=fld(B, "label"))
        if var == "Instantiate2":
            kw["salt"] = fld(B, "salt")
        agree_msgs(c, ps, lambda o: [inst(var, **kw)], "admin:created", W)
        rids[v] = reply_id(c, ps, W)
        for p in ps:
            if var == "Instantiate":
                c.ob(not p.writes(), "admin:frame", W, sorted(p.writes()), p)
                continue
            e = fld(B, "expect")

            def judge(q, some):
                s = q.saves("expect")
                if set(q.writes()) - {"expect"}:
                    return "writes %s" % sorted(q.writes())
                return ((len(s) == 1 and s[0].a[2] is valid(payload(e, "Some"))) if some else not q.writes()) or "expected: %r" % s
            per(c, p, lambda o: o(t_isv(e, "Some", OPT)), judge, "admin:expected", W)
    c.ob(len(set(rids.values())) == 2, "reply-id", K + "::execute", [show(x) for x in rids.values()])
    W = K + "::reply"
    for v, rid in rids.items():
        ps = reply_paths(c, K, rid, W + " for " + v)
        for p in ps:
            a = new_addr(p)
            if not c.ob(a is not None, "admin:address", W, "", p):
                continue

            def own(q, g):
                w = g.wasm("UpdateAdmin")
                return w is not None and w[0]["contract_addr"] is a and w[0]["admin"] is a
            agree_msgs(c, [p], lambda o: [own], "admin:own-admin", W)
            if v.startswith("Instantiate2"):
                def checked(q):
                    if q.truth(has("expect")) is False:
                        return True
                    return q.truth(t_eq(a, ld("expect"))) is True and len(q.removes("expect")) == 1
                req(c, [p], "admin:as-expected", checked, W)
            c.ob(not p.saves("expect") and set(p.writes()) <= {"expect"}, "admin:frame", W, sorted(p.writes()), p)
    W = K + "::instantiate"
    a = F(MSG, "admin")
    for p in some_paths(c, K, "instantiate"):
        s = p.saves("admin")
        if c.ob(len(s) == 1, "admin:initial", W, sorted(p.writes()), p):
            for q, t in live(p, s[0].a[2]):
                def judge(r, some):
                    k = kind_of(r, t)
                    return (k == "Some" and payload(t, "Some") is valid(payload(a, "Some")) if some else k == "None") or show(t)[:200]
                per(c, q, lambda o: o(t_isv(a, "Some", OPT)), judge, "admin:initial", W)
    for p in okpaths(K, "query", "Admin"):
        v = p.ret.a[0] if p.ret.op == "json" else p.ret
        c.ob(fld(v, "admin") is adm, "query", K + "::query/Admin", show(v)[:200], p)


def fan(c):
    K = BK
    W = K + "::execute/Issue"
    X = fld(as_(MSG, "Issue"), "0")
    ps = some_paths(c, K, "execute", "Issue")
    for p in ps:
        s = p.saves("cft")
        ok = len(s) == 1 and set(p.writes()) == {"cft"}
        if c.ob(ok, "fan:noted", W, sorted(p.writes()), p):
            v = s[0].a[2]
            d = fld(v, "dao")
            c.ob(fld(v, "token") is X and d.op == "query" and d.a[0] is SENDER and d.a[1].op == "adt" and d.a[1].a[1] == "Dao", "fan:noted", W, show(v)[:300], p)

    def issue(p, g):
        m = g.msg
        if m.op != "adt" or not m.a[0].endswith("MsgIssue") or g.mode != "success":
            return False
        d = adt_fields(m)
        return all(d[n] is fld(X, n) for n in ("symbol", "name", "max_supply", "uri")) and d["authority"] is SELF and d["minter"] is SELF
    agree_msgs(c, ps, lambda o: [issue], "fan:issued", W)
    rid = reply_id(c, ps, W)
    W = K + "::reply"
    tok, dao = F(ld("cft"), "token"), F(ld("cft"), "dao")
    ib = fld(tok, "initial_balances")
    el = mk("elem", ib)
    db = fld(tok, "initial_dao_balance")
    for p in reply_paths(c, K, rid, W):
        c.ob(set(p.writes()) == {"cft"} and len(p.removes("cft")) == 1 and not p.saves("cft"), "fan:cleared", W, sorted(p.writes()), p)
        dn = {adt_fields(g.msg)["denom"] for _, g in p.msgs() if g.msg.op == "adt" and g.msg.a[0].endswith("MsgSetMinter")}
        if not c.ob(len(dn) == 1, "fan:handed-over", W, [show(x)[:100] for x in dn], p):
            continue
        dn = list(dn)[0]
        c.ob(contains(dn, fld(sym("reply"), "result")) and dn.op == "fld" and dn.a[1] == "denom", "fan:denom", W, show(dn)[:200], p)

        def mint(to, amt):
            def f(q, g):
                m = g.msg
                if m.op != "adt" or not m.a[0].endswith("MsgMint"):
                    return False
                d = adt_fields(m)
                k = payload(d["coin"], "Some") if is_adt(d["coin"], "Some") else None
                return k is not None and d["recipient"] is to and d["minter"] is SELF and fld(k, "denom") is dn and same(fld(k, "amount"), amt)
            return f

        def hand(name, what):
            def f(q, g):
                m = g.msg
                if m.op != "adt" or not m.a[0].endswith(name):
                    return False
                d = adt_fields(m)
                return d["denom"] is dn and d["old_" + what] is SELF and d["new_" + what] is dao
            return f

        def due(o):
            l = [Each(ib, mint(fld(el, "address"), fld(el, "amount")))]
            if o(t_isv(db, "Some", OPT)) and not o(t_eq(payload(db, "Some"), I(0))):
                l.append(mint(dao, payload(db, "Some")))
            return l + [hand("MsgSetAuthority", "authority"), hand("MsgSetMinter", "minter")]
        agree_msgs(c, [p], due, "fan:minted-and-handed-over", W)
        for q, gs in p.worlds():
            names = [g.msg.a[0].rsplit("::", 1)[-1] if g.msg.op == "adt" else "?" for g in gs]
            mints = [i for i, n in enumerate(names) if n == "MsgMint"]
            ok = "MsgSetMinter" in names and all(i < names.index("MsgSetMinter") for i in mints)
            c.ob(ok, "fan:mint-before-handover", W, names, q)
        datas = {y.a[0] for y in subterms(p.ret) if y.op == "data"}
        ok = bool(datas)
        for d in datas:
            while d.op == "json" or is_adt(d, "Some"):
                d = d.a[0] if d.op == "json" else payload(d, "Some")
            ok = ok and d.op == "adt" and fld(d, "denom") is dn
        c.ob(ok, "fan:reported", W, [show(x)[:200] for x in datas], p)
