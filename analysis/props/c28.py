"""C28 setup of voting modules.  A voting module starts bound to the DAO that created it and to exactly the
token, group or collection asked for: an existing one is checked, a new one is made with the asked holders
and then handed to the DAO, and setup fails rather than leave the DAO without a single possible voter."""
from props.stk import *
from props.c15 import is_sum
from props.c20 import inst, reply_paths, new_addr, parsed_as

AT = "active_threshold"


def run(c):
    token(c)
    cw20(c)
    nft(c)
    onft(c)
    group(c)
    roles(c)


def only_some(x):
    return lambda t: is_adt(t, "Some") and payload(t, "Some") is x


def start(c, K, src, dao="dao"):
    """paths of instantiate by the kind of thing asked for; the DAO is whoever creates the module"""
    W = K + "::instantiate"
    by = {}
    for p in some_paths(c, K, "instantiate"):
        if not p.feasible():
            continue
        s = p.saves(dao)
        c.ob(len(s) == 1 and s[0].a[2] is SENDER and not p.removes(dao), "dao", W, [repr(x)[:200] for x in s], p)
        for q in (p.on(s) for s in p.e.assume(p.st, t_isv(src, "Existing", None), True)) if kind_of(p, src) is None else [p]:
            by.setdefault(kind_of(q, src) or "Existing", []).append(q)
    return W, by


def stores(c, ps, W, want, gone=(), extra=(AT, "dao"), rule="stored"):
    """exactly these states are written (once each, with these values), these removed"""
    for p in ps:
        w = {n for n in p.writes() if not n.startswith("ext:")}
        c.ob(w - set(extra) == set(want) | set(gone), rule + ":frame", W, sorted(w), p)
        for ns, x in want.items():
            s = p.saves(ns)
            if c.ob(len(s) == 1 and not p.removes(ns), rule + ":" + ns, W, [repr(e)[:200] for e in s], p):
                for q, v in live(p, s[0].a[2]):
                    c.ob(same(v, x) if x.__class__ is T else x(q, v), rule + ":" + ns, W, show(v)[:300], q)
        for ns in gone:
            c.ob(len(p.removes(ns)) == 1 and not p.saves(ns), rule + ":" + ns, W, [repr(e)[:200] for e in p.effects], p)


def quiet(c, ps, W):
    agree_msgs(c, ps, lambda o: [], "messages", W)


def data_of(p):
    r = set()
    for d in {y.a[0] for _, t in live(p, p.ret) for y in subterms(t) if y.op == "data"}:
        for q, t in live(p, d):
            while t.op == "json" or is_adt(t, "Some"):
                t = t.a[0] if t.op == "json" else payload(t, "Some")
            r.add(t)
    return r


def accepts(c, ps, W, who):
    """the response asks the DAO to accept ownership of `who`, and nothing else"""
    for p in ps:
        ds = [d for d in data_of(p)]
        ok = len(ds) == 1 and ds[0].op == "adt" and ds[0].a[0].endswith("ModuleInstantiateCallback")
        if ok:
            l = adt_fields(ds[0])["msgs"]
            ok = l.op == "array" and len(l.a) == 1 and m_exec(who, body=update("AcceptOwnership"), funds=lambda q, f: empty_list(f))(p, G(l.a[0]))
        c.ob(ok, "accept-ownership", W, [show(d)[:300] for d in ds], p)


def update(action, **want):
    """the body UpdateOwnership(action)"""
    def f(p, b):
        if b.op != "adt" or b.a[1] != "UpdateOwnership":
            return False
        a = payload(b, "UpdateOwnership")
        if a.op != "adt" or a.a[1] != action:
            return False
        d = adt_fields(a)
        return all((x(d[n]) if callable(x) and x.__class__ is not T else same(d[n], x)) for n, x in want.items())
    return f


def transfer(to):
    return update("TransferOwnership", new_owner=to, expiry=lambda t: is_adt(t, "None"))


def no_funds(p, f):
    return empty_list(f)


def none(t):
    return is_adt(t, "None")


def ids(c, ps, W):
    xs = {g.id for p in ps if p.feasible() for _, gs in p.worlds() for g in gs if g.mode == "success"}
    c.ob(len(xs) == 1, "reply-id", W, [show(x) for x in xs])
    return list(xs)[0] if xs else I(-1)


def lone(xs):
    xs = list(xs)
    return xs[0] if len(xs) == 1 else None


def callback(p, name="data"):
    """what the factory reported, parsed, on this path"""
    xs = {y for t in list(p.st.var) + [k for k, _ in lits_of(p)] + [x for e in p.effects for x in e.a if x.__class__ is T] for y in subterms(t) if y.op == "parsed"}
    xs = {x for x in xs if any(y.op == "call" and y.a[0].endswith("parse_reply_execute_data") for y in subterms(x))}
    return lone(xs)


def forwarded(c, K, W, ps, raw, rule="factory"):
    """the factory is called exactly as asked"""
    for p in ps:
        m = parsed_as(p, raw)
        if not c.ob(m is not None and p.variant_of(m) == "Execute", rule, W, "", p):
            continue

        def call(q, g):
            w = g.wasm("Execute")
            if w is None or g.mode != "success":
                return False
            d, b = w
            return all(d[n] is F(as_(m, "Execute"), n) for n in ("contract_addr", "funds")) and (d["msg"] is F(as_(m, "Execute"), "msg") or b is F(as_(m, "Execute"), "msg"))
        agree_msgs(c, [p], lambda o: [call], rule, W)


def handed_callback(c, ps, W, cb):
    """what the factory asks the DAO to do is passed on as it is"""
    for p in ps:
        x = F(cb(p), "module_instantiate_callback")

        def judge(q, some):
            d = data_of(q)
            return (len(d) == 1 and list(d)[0] is payload(x, "Some") if some else not d) or "data: %s" % [show(y)[:200] for y in d]
        per(c, p, lambda o: o(t_isv(x, "Some", OPT)), judge, "factory:callback", W)


def sums(p, lst, f):
    """terms known to the path that are the sum of a field of a list"""
    return {y for k, _ in lits_of(p) for y in subterms(k) if is_sum(y, lst, f)}


def some_holder(c, ps, W, lst, f, rule="holders"):
    """the initial holders together hold something"""
    def ok(q):
        """sum of the initial holdings is not zero"""
        return any(q.truth(t_eq(s, I(0))) is False for s in sums(q, lst, f))
    req(c, ps, rule, ok, W)


def nonempty(c, ps, W, lst):
    def ok(q):
        """the list is not empty"""
        return q.truth(t_eq(length(lst), I(0))) is False or q.truth(t_lt(I(0), length(lst))) is True
    req(c, ps, "holders", ok, W)


def token(c):
    K = "dao_voting_token_staked"
    src = F(MSG, "token_info")
    W, by = start(c, K, src)
    c.ob(set(by) == {"Existing", "New", "Factory"}, "anchor", W + " kinds", sorted(by))
    conf = {"config": lambda p, v: fld(v, "unstaking_duration") is F(MSG, "unstaking_duration")}
    ps = by.get("Existing", [])
    stores(c, ps, W + " existing", dict(conf, denom=F(as_(src, "Existing"), "denom")))
    quiet(c, ps, W + " existing")
    ps = by.get("New", [])
    new = payload(src, "New")
    stores(c, ps, W + " new", dict(conf, token_instantiation_info=lambda p, v: same(v, src) or (is_adt(v, "New") and same(payload(v, "New"), new))))

    def issuer(q, b):
        return b.op == "adt" and b.a[1] == "NewToken" and fld(b, "subdenom") is fld(new, "subdenom")
    agree_msgs(c, ps, lambda o: [inst(admin=only_some(SENDER), code_id=fld(new, "token_issuer_code_id"), msg=lambda b: issuer(None, b), funds=FUNDS)], "created", W + " new")
    rid = ids(c, ps, W + " new")
    ps = by.get("Factory", [])
    stores(c, ps, W + " factory", conf)
    forwarded(c, K, W + " factory", ps, payload(src, "Factory"))
    fid = ids(c, ps, W + " factory")
    c.ob(rid is not fid, "reply-id", W, [show(rid), show(fid)])
    # reply: a new token
    W = K + "::reply new token"
    ps = reply_paths(c, K, rid, W)
    tmp = "token_instantiation_info"
    t = F(as_(ld(tmp), "New"), "0")
    ib, db = fld(t, "initial_balances"), fld(t, "initial_dao_balance")
    el = mk("elem", ib)
    some_holder(c, ps, W, ib, "amount")
    for p in ps:
        a = new_addr(p)
        if not c.ob(a is not None, "address", W, "", p):
            continue
        raw = a.a[0]
        dn = p.saves("denom")
        dn = dn[0].a[2] if len(dn) == 1 else UNIT

        def denom(q, v):
            konst = [str(y.a[0]) for y in subterms(v) if y.op in ("konst", "str")]
            if not any("factory/" in k or b"factory/".hex() in k for k in konst):
                return False
            args = [y for y in subterms(v) if y.op == "array"]
            return any([contains(x, raw) for x in l.a] == [True, False] and [contains(x, fld(t, "subdenom")) for x in l.a] == [False, True] for l in args)
        stores(c, [p], W, {"denom": denom, "token_issuer_contract": a}, gone=[tmp], extra=())

        def allowance(q, g):
            def body(r, b):
                d = bfields(b, "SetMinterAllowance")
                if d is None or d["address"] is not SELF:
                    return False
                al = d["allowance"]
                for r2, v in live(r, al):
                    ok = False
                    for r3, v2 in ((r2, v),):
                        k = kind_of(r3, db)
                        base = [s for s in sums(r3, ib, "amount")]
                        ok = any(same(v2, t_add(s, payload(db, "Some"))) for s in base) if k == "Some" else any(same(v2, s) or same(v2, t_add(s, I(0))) for s in base) if k == "None" else False
                    if not ok:
                        return False
                return True
            return m_exec(raw, body, no_funds, "never")(q, g) or m_exec(a, body, no_funds, "never")(q, g)

        def call(body):
            return lambda q, g: m_exec(raw, body, no_funds, "never")(q, g) or m_exec(a, body, no_funds, "never")(q, g)

        def mint(to, amt):
            def f(q, b):
                d = bfields(b, "Mint")
                return d is not None and d["to_address"] is to and same(d["amount"], amt)
            return call(f)

        def meta(q, b):
            d = bfields(b, "SetDenomMetadata")
            if d is None:
                return False
            m = d["metadata"]
            o = payload(fld(t, "metadata"), "Some")
            return all(fld(m, n) is fld(o, n) for n in ("description", "display", "name", "symbol")) and fld(m, "base") is dn

        def due(o):
            l = [allowance]
            if o(t_isv(fld(t, "metadata"), "Some", OPT)):
                l.append(call(meta))
            l.append(Each(ib, mint(fld(el, "address"), fld(el, "amount"))))
            if o(t_isv(db, "Some", OPT)) and not o(t_eq(payload(db, "Some"), I(0))):
                l.append(mint(ld("dao"), payload(db, "Some")))
            return l + [call(transfer(ld("dao")))]
        agree_msgs(c, [p], due, "minted-and-handed-over", W, first=0)
        ds = data_of(p)
        accepts(c, [p], W, lambda q, x: x is raw or x is a)
    # reply: a factory made it
    W = K + "::reply factory"
    ps = reply_paths(c, K, fid, W)
    for p in ps:
        cb = callback(p)
        if not c.ob(cb is not None, "factory:reported", W, "", p):
            continue
        tc = fld(cb, "token_contract")

        def judge(q, some):
            w = {n for n in q.writes() if not n.startswith("ext:")}
            s = q.saves("token_issuer_contract")
            d = q.saves("denom")
            ok = w == {"denom", "token_issuer_contract"} - (set() if some else {"token_issuer_contract"}) and len(d) == 1 and d[0].a[2] is fld(cb, "denom")
            return ok and (not some or (len(s) == 1 and s[0].a[2] is valid(payload(tc, "Some")))) or "%r %r" % (d, s)
        per(c, p, lambda o: o(t_isv(tc, "Some", OPT)), judge, "factory:stored", W)

        def voters(q):
            """what is not the DAO's own is not zero"""
            for k, v in lits_of(q):
                if k.op == "eq" and not v:
                    x = [y for y in k.a if y is not I(0)]
                    if len(x) == 1 and x[0].op == "sub":
                        x = list(x[0].a)
                    x.sort(key=lambda y: contains(y, ld("dao")))
                    if len(x) == 2 and all(contains(y, fld(cb, "denom")) for y in x) and [contains(y, ld("dao")) for y in x] == [False, True]:
                        return True
            return False
        req(c, [p], "holders", voters, W)
    quiet(c, ps, W)
    handed_callback(c, [p for p in ps if callback(p) is not None], W, callback)


def stake_inst(owner, code, tok, dur):
    def body(b):
        return b.op == "adt" and only_some(owner)(fld(b, "owner")) and fld(b, "token_address") is tok and same(fld(b, "unstaking_duration"), dur)
    return inst(admin=only_some(owner), code_id=code, funds=empty_list, msg=body)


def cw20(c):
    K = "dao_voting_cw20_staked"
    src = F(MSG, "token_info")
    W, by = start(c, K, src)
    c.ob(set(by) == {"Existing", "New"}, "anchor", W + " kinds", sorted(by))
    ex = as_(src, "Existing")
    tok = valid(fld(ex, "address"))
    sc = fld(ex, "staking_contract")
    old, new = [], []
    for p in by.get("Existing", []):
        k = p.variant_of(sc)
        c.ob(k in ("Existing", "New"), "anchor", W + " staking", k, p)
        (old if k == "Existing" else new).append(p)
    c.floor(len(old), 1, W + " existing, existing staking")
    c.floor(len(new), 1, W + " existing, new staking")
    ca = valid(fld(as_(sc, "Existing"), "staking_contract_address"))
    stores(c, old, W + " existing", {"token": tok, "staking_contract": ca})
    quiet(c, old, W + " existing")

    def matches(q):
        """the staking contract stakes this token"""
        for k, v in lits_of(q):
            if k.op == "eq" and v and tok in k.a:
                x = [y for y in k.a if y is not tok]
                if x and x[0].op == "fld" and x[0].a[1] == "token_address" and x[0].a[0].op == "query" and x[0].a[0].a[0] is ca and head(x[0].a[0].a[1]) == "GetConfig":
                    return True
        return False
    req(c, old, "same-token", matches, W + " existing")
    sn = as_(sc, "New")
    stores(c, new, W + " new staking", {"token": tok})
    agree_msgs(c, new, lambda o: [stake_inst(SENDER, fld(sn, "staking_code_id"), tok, fld(sn, "unstaking_duration"))], "created", W + " new staking")
    sid = ids(c, new, W + " new staking")
    ps = by.get("New", [])
    n = as_(src, "New")
    stores(c, ps, W + " new", {"staking_contract_code_id": fld(n, "staking_code_id"), "staking_contract_unstaking_duration": fld(n, "unstaking_duration")})
    ib, db = fld(n, "initial_balances"), fld(n, "initial_dao_balance")
    some_holder(c, ps, W + " new", ib, "amount")

    def make(mine):
        def body(b):
            if b.op != "adt" or any(fld(b, x) is not fld(n, x) for x in ("name", "symbol", "decimals", "marketing")):
                return False
            m = fld(b, "mint")
            if not is_adt(m, "Some") or fld(payload(m, "Some"), "minter") is not SENDER or not none(fld(payload(m, "Some"), "cap")):
                return False
            l = fld(b, "initial_balances")
            if not mine:
                return l is ib
            if l.op != "vpush" or l.a[0] is not ib:
                return False
            return fld(l.a[1], "address") is SENDER and same(fld(l.a[1], "amount"), payload(db, "Some"))
        return inst(admin=only_some(SENDER), code_id=fld(n, "code_id"), label=fld(n, "label"), funds=empty_list, msg=body)
    agree_msgs(c, ps, lambda o: [make(o(t_isv(db, "Some", OPT)) and not o(t_eq(payload(db, "Some"), I(0))))], "created", W + " new")
    tid = ids(c, ps, W + " new")
    c.ob(tid is not sid, "reply-id", W, [show(tid), show(sid)])
    W = K + "::reply token"
    ps = reply_paths(c, K, tid, W)
    req(c, ps, "once", t_not(has("token")), W)
    for p in ps:
        a = new_addr(p)
        if c.ob(a is not None, "address", W, "", p):
            stores(c, [p], W, {"token": a}, extra=())
            agree_msgs(c, [p], lambda o: [stake_inst(ld("dao"), ld("staking_contract_code_id"), a, ld("staking_contract_unstaking_duration"))], "created", W)
    c.ob(ids(c, ps, W) is sid, "reply-id", W, "")
    W = K + "::reply staking"
    ps = reply_paths(c, K, sid, W)
    req(c, ps, "once", t_not(has("staking_contract")), W)
    for p in ps:
        a = new_addr(p)
        if c.ob(a is not None, "address", W, "", p):
            stores(c, [p], W, {"staking_contract": a}, extra=())
    quiet(c, ps, W)


def head(b):
    return b.a[1] if b.op == "adt" else None


def zero_total(p):
    return [e for e in p.effects if ns_of(e) == "tsn"]


def nft(c):
    K = "dao_voting_cw721_staked"
    src = F(MSG, "nft_contract")
    W, by = start(c, K, src)
    c.ob(set(by) == {"Existing", "New", "Factory"}, "anchor", W + " kinds", sorted(by))
    dur = F(MSG, "unstaking_duration")

    def conf(addr):
        return {"config": lambda p, v: same(fld(v, "unstaking_duration"), dur) and (addr is None or fld(v, "nft_address") is addr), "tsn": lambda p, v: v is I(0)}
    ps = by.get("Existing", [])
    stores(c, ps, W + " existing", conf(valid(F(as_(src, "Existing"), "address"))))
    quiet(c, ps, W + " existing")
    ps = by.get("New", [])
    n = as_(src, "New")
    stores(c, ps, W + " new", dict(conf(None), initial_nfts=fld(n, "initial_nfts")))
    nonempty(c, ps, W + " new", fld(n, "initial_nfts"))

    def made(b):
        """the asked message with the module as minter"""
        if b.op == "json":
            b = b.a[0]
        x = lone(y for y in subterms(b) if y.op == "parsed" and y.a[0] is fld(n, "msg"))
        return x is not None and same(b, setf(x, minter=SELF))
    agree_msgs(c, ps, lambda o: [inst(admin=only_some(SENDER), code_id=fld(n, "code_id"), label=fld(n, "label"), funds=empty_list, msg=made)], "created", W + " new")
    nid = ids(c, ps, W + " new")
    ps = by.get("Factory", [])
    stores(c, ps, W + " factory", conf(None))
    forwarded(c, K, W + " factory", ps, payload(src, "Factory"))
    fid = ids(c, ps, W + " factory")
    W = K + "::reply new"
    ps = reply_paths(c, K, nid, W)
    l = ld("initial_nfts")
    vid = None
    for p in ps:
        a = new_addr(p)
        if not c.ob(a is not None, "address", W, "", p):
            continue
        stores(c, [p], W, {"config": lambda q, v: same(v, setf(ld("config"), nft_address=a))}, gone=["initial_nfts"], extra=())
        is_it = lambda q, x: x is a or x is a.a[0]

        def each(q, g):
            w = g.wasm("Execute")
            return w is not None and is_it(q, w[0]["contract_addr"]) and empty_list(w[0]["funds"]) and w[0]["msg"] is mk("elem", l) and g.mode == "never"
        agree_msgs(c, [p], lambda o: [Each(l, each), m_exec(is_it, transfer(ld("dao")), no_funds, "success")], "minted-and-handed-over", W)
        for q, gs in p.worlds():
            c.ob(bool(gs) and gs[-1].mode == "success" and gs[-1].each is None, "checked-last", W, [repr(g)[:200] for g in gs], q)
    vid = ids(c, ps, W)
    c.ob(len({nid, fid, vid}) == 3, "reply-id", W, [show(x) for x in (nid, fid, vid)])
    W = K + "::reply supply"
    ps = reply_paths(c, K, vid, W)
    na = F(ld("config"), "nft_address")
    stores(c, ps, W, {}, extra=())
    quiet(c, ps, W)

    def minted(q):
        """the collection has tokens"""
        for k, v in lits_of(q):
            if k.op == "eq" and not v and I(0) in k.a:
                x = [y for y in k.a if y is not I(0)]
                if x and x[0].op == "fld" and x[0].a[1] == "count" and x[0].a[0].op == "query" and x[0].a[0].a[0] is na and contains_variant(x[0].a[0].a[1], "NumTokens"):
                    return True
        return False
    req(c, ps, "holders", minted, W)
    accepts(c, ps, W, na)
    W = K + "::reply factory"
    ps = reply_paths(c, K, fid, W)
    for p in ps:
        cb = callback(p)
        if not c.ob(cb is not None, "factory:reported", W, "", p):
            continue
        stores(c, [p], W, {"config": lambda q, v: same(v, setf(ld("config"), nft_address=valid(fld(cb, "nft_contract"))))}, extra=(), rule="factory:stored")
        req(c, [p], "factory:collection", lambda q: any(k.op in ("query", "ok") or k.op == "isv" for k, v in lits_of(q) if v and contains(k, valid(fld(cb, "nft_contract"))) and contains_variant(k, "NumTokens")) or any(contains(k, valid(fld(cb, "nft_contract"))) and contains_variant(k, "NumTokens") for k in q.st.var), W)
    quiet(c, ps, W)
    handed_callback(c, [p for p in ps if callback(p) is not None], W, callback)


def contains_variant(t, name):
    return any(y.op == "adt" and y.a[1] == name for y in subterms(t))


def onft(c):
    K = "dao_voting_onft_staked"
    src = F(MSG, "onft_collection")
    W, by = start(c, K, src)
    c.ob(set(by) == {"Existing"}, "anchor", W + " kinds", sorted(by))
    ps = by.get("Existing", [])
    stores(c, ps, W, {"config": lambda p, v: same(fld(v, "unstaking_duration"), F(MSG, "unstaking_duration")) and fld(v, "onft_collection_id") is F(as_(src, "Existing"), "id"), "tsn": lambda p, v: v is I(0)})
    quiet(c, ps, W)


def group(c):
    K = "dao_voting_cw4"
    src = F(MSG, "group_contract")
    W, by = start(c, K, src, "dao_address")
    c.ob(set(by) == {"Existing", "New"}, "anchor", W + " kinds", sorted(by))
    ps = by.get("Existing", [])
    a = valid(F(as_(src, "Existing"), "address"))
    stores(c, ps, W + " existing", {"group_contract": a}, extra=("dao_address",))
    quiet(c, ps, W + " existing")

    def peopled(q):
        """the group has a member"""
        for k, v in list(lits_of(q)):
            if k.op in ("eq", "lt") and v == (k.op == "lt") and I(0) in k.a:
                x = [y for y in k.a if y is not I(0)]
                qs = [y for y in subterms(x[0]) if y.op == "query" and y.a[0] is a and contains_variant(y, "ListMembers")] if x else []
                if qs and same(x[0], length(fld(qs[0], "members"))):
                    return True
        return False
    req(c, ps, "holders", peopled, W + " existing")
    ps = by.get("New", [])
    n = as_(src, "New")
    im = fld(n, "initial_members")
    stores(c, ps, W + " new", {}, extra=("dao_address",))
    nonempty(c, ps, W + " new", im)

    def members(t):
        """the asked members, ordered and without repetition"""
        while t is not im:
            if t.op in ("call", "mut") and t.a[0].rsplit("::", 1)[-1].startswith(("sort", "dedup")):
                t = [x for x in t.a if x.__class__ is T][0]
            else:
                return False
        return True

    def body(b):
        return b.op == "adt" and only_some(SENDER)(fld(b, "admin")) and members(fld(b, "members"))
    agree_msgs(c, ps, lambda o: [inst(admin=only_some(SENDER), code_id=fld(n, "cw4_group_code_id"), funds=empty_list, msg=body)], "created", W + " new")
    for p in ps:
        ls = {y for q, gs in p.worlds() for g in gs if g.wasm("Instantiate") for y in [fld(g.wasm("Instantiate")[1], "members")]}
        l = lone(ls)
        if c.ob(l is not None, "created", W + " new", "", p):
            def dist(q):
                """as many members as asked, after dropping repetitions"""
                return q.truth(t_eq(length(im), length(l))) is True
            req(c, [p], "no-duplicates", dist, W + " new")

            def weighty(q):
                """some member has weight"""
                return any(q.truth(t_eq(s, I(0))) is False for x in [l] for k, _ in lits_of(q) for s in subterms(k) if contains(s, fld(mk("elem", x), "weight")) and s.op in ("add", "sum", "cond", "phi", "mu"))
            req(c, [p], "holders", weighty, W + " new")
    gid = ids(c, ps, W + " new")
    W = K + "::reply"
    ps = reply_paths(c, K, gid, W)
    req(c, ps, "once", t_not(has("group_contract")), W)
    for p in ps:
        a = new_addr(p)
        if c.ob(a is not None, "address", W, "", p):
            stores(c, [p], W, {"group_contract": a}, extra=())
    quiet(c, ps, W)


def roles(c):
    K = "dao_voting_cw721_roles"
    src = F(MSG, "nft_contract")
    W, by = start(c, K, src)
    c.ob(set(by) == {"Existing", "New"}, "anchor", W + " kinds", sorted(by))
    ps = by.get("Existing", [])
    stores(c, ps, W + " existing", {"config": lambda p, v: fld(v, "nft_address") is valid(F(as_(src, "Existing"), "address"))})
    quiet(c, ps, W + " existing")
    ps = by.get("New", [])
    n = as_(src, "New")
    stores(c, ps, W + " new", {"initial_nfts": fld(n, "initial_nfts")})
    nonempty(c, ps, W + " new", fld(n, "initial_nfts"))

    def body(b):
        return b.op == "adt" and fld(b, "minter") is SELF and all(fld(b, x) is fld(n, x) for x in ("name", "symbol"))
    agree_msgs(c, ps, lambda o: [inst(admin=only_some(SENDER), code_id=fld(n, "code_id"), label=fld(n, "label"), funds=empty_list, msg=body)], "created", W + " new")
    rid = ids(c, ps, W + " new")
    W = K + "::reply"
    ps = reply_paths(c, K, rid, W)
    l = ld("initial_nfts")
    el = mk("elem", l)
    for p in ps:
        a = new_addr(p)
        if not c.ob(a is not None, "address", W, "", p):
            continue
        stores(c, [p], W, {"config": lambda q, v: fld(v, "nft_address") is a}, gone=["initial_nfts"], extra=())
        is_it = lambda q, x: x is a or x is a.a[0]

        def mint(q, b):
            d = bfields(b, "Mint")
            if d is None or any(d[x] is not fld(el, x) for x in ("token_id", "owner", "token_uri")):
                return False
            e = d["extension"]
            return all(fld(e, x) is fld(fld(el, "extension"), x) for x in ("role", "weight"))
        agree_msgs(c, [p], lambda o: [Each(l, m_exec(is_it, mint, no_funds, "never")), m_exec(is_it, transfer(ld("dao")), no_funds, "never")], "minted-and-handed-over", W)
