"""C13 staked NFTs.  An NFT is recorded as staked only for the one who sent it to the staking contract
(or, where transfers carry no message, prepared it while owning it and then transferred it), and leaves
the books only when that staker unstakes it; per-account and total counts move with it at the current
height; unstaked NFTs are returned to the staker alone, after the unstaking duration."""
from props.stk import *

KC = "dao_voting_cw721_staked"
KO = "dao_voting_onft_staked"
SN, NB, TS, CL, PO = "snpw", "nb", "tsn", "nft_claims", "po"
CFG = ld("config")


def nft_out(K):
    if K == KC:
        def f(to, tid):
            return m_exec(fld(CFG, "nft_address"), lambda p, b: (bfields(b, "TransferNft") or {}).get("recipient") is to and bfields(b, "TransferNft")["token_id"] is tid, lambda p, t: empty_list(t))
    else:
        def f(to, tid):
            def g(p, m):
                if m.msg.op != "adt" or not m.msg.a[0].endswith("MsgTransferOnft"):
                    return False
                d = adt_fields(m.msg)
                return d["id"] is tid and d["denom_id"] is fld(CFG, "onft_collection_id") and d["sender"] is SELF and d["recipient"] is to
            return g
    return f


def counts(c, ps, rule, W, who, n, sign):
    mv = plus if sign > 0 else minus
    for p in ps:
        for ns, k in ((NB, who), (TS, UNIT)):
            s = p.saves(ns)
            ok = len(s) == 1 and len(p.writes()[ns]) == 1
            if ok:
                for q, (kk, t) in p.split(s[0].a[1], s[0].a[2]):
                    if q.feasible() and not (kk is k and mv(q, t, ns, k, n)):
                        c.ob(False, rule + ":counts", W, "%s[%s] := %s" % (ns, show(kk)[:100], show(t)[:300]), q)
                        ok = None
                        break
            if ok is not None:
                c.ob(ok, rule + ":counts", W, [repr(x)[:200] for x in s], p)
        heights_ok(c, [p], (NB, TS), rule + ":height", W)


def each_done(c, ps, rule, W, effs, cond=None):
    """the loop does each of the given effects in every iteration (and, under `cond`, only so)"""
    for what, pred in effs:
        each_iter(c, ps, "%s:%s" % (rule, what), W, pred)
        for q, l in loop_iters(ps, pred):
            hit = [x for x in l if pred(x)]
            c.ob(len(hit) == 1, "%s:%s" % (rule, what), W, [repr(x)[:200] for x in l], q)
            if cond is not None:
                c.ob(q.entails(cond), rule + ":checked", W, what, q)


def eff(kind, ns, k):
    return lambda x: x.kind == kind and x.a[0].op == "str" and x.a[0].a[0] == ns and x.a[1] is k


def unstake(c, K):
    out = nft_out(K)
    W = K + "::execute/Unstake"
    ids = F(as_(MSG, "Unstake"), "token_ids")
    el = mk("elem", ids)
    dur = fld(CFG, "unstaking_duration")
    ps = some_paths(c, K, "execute", "Unstake")
    req(c, ps, "unstake:some", t_not(t_eq(mk("len", ids), I(0))), W)
    counts(c, ps, "unstake", W, SENDER, mk("len", ids), -1)
    k = key(SENDER, el)
    each_done(c, ps, "unstake", W, [("unrecorded", eff("remove", SN, k))], lambda q: stored(q, SN, SENDER, el))
    # an id named twice is no longer there the second time
    for q, l in loop_iters(ps, eff("remove", SN, k)):
        c.ob(seen_now(q, SN, k), "unstake:each-once", W, "looked up before any of the ids is taken off", q)
    for p in ps:
        w = set(p.writes()) - {SN}
        v = p.variant_of(dur)
        c.ob(w == ({NB, TS, CL} if v == "Some" else {NB, TS}), "unstake:frame", W, sorted(w), p)
        if v == "Some":
            s = p.saves(CL)
            ok = len(s) == 1 and s[0].a[1] is SENDER and len(p.writes()[CL]) == 1
            if c.ob(ok, "unstake:claims", W, [repr(x)[:200] for x in s], p):
                for q, t in live(p, s[0].a[2]):
                    old, new = t.a if t.op == "chain" else (None, t)
                    okk = new.op == "imap" and new.a[0] is ids and new.a[1].op == "adt"
                    if okk:
                        d = adt_fields(new.a[1])
                        okk = d["token_id"] is el and after(payload(dur, "Some"))(d["release_at"])
                    okk = okk and (old is ld(CL, SENDER) if q.truth(has(CL, SENDER)) is not False else old is None or empty_list(old) or old.op == "default")
                    c.ob(okk, "unstake:claims", W, show(t)[:400], q)
            req(c, [p], "unstake:claims-bounded", lambda q: nft_claims_bounded(q, ids), W)
    agree_msgs(c, ps, lambda o: ([Each(ids, out(SENDER, el))] if not o(t_isv(dur, "Some", OPT)) else []) + [hooks("Unstake", addr=SENDER, token_ids=ids)], "unstake:returned", W)


def nft_claims_bounded(p, ids, cap=70):
    n = mk("len", ids)
    m = mk("len", ld(CL, SENDER))
    for tot in (t_add(n, m), n):
        if p.truth(t_lt(I(cap), tot)) is False or p.truth(t_lt(tot, I(cap + 1))) is True:
            return tot is not n or p.truth(has(CL, SENDER)) is False
    return False


def claim(c, K):
    out = nft_out(K)
    W = K + "::execute/ClaimNfts"
    old = ld(CL, SENDER)
    el = mk("elem", old)
    due = mk("expired", fld(el, "release_at"), BLOCK)
    ps = some_paths(c, K, "execute", "ClaimNfts")
    for p in ps:
        s = p.saves(CL)
        ok = set(p.writes()) == {CL} and len(s) == 1 and len(p.writes()[CL]) == 1 and s[0].a[1] is SENDER
        c.ob(ok and all(t.op == "ifilter" and t.a[0] is old and t.a[1] is t_not(due) for _, t in live(p, s[0].a[2])), "claim:kept", W, [repr(x)[:300] for x in s], p)
    req(c, ps, "claim:some", lambda p: any(k.op == "eq" and not v and I(0) in k.a and any(y.op == "len" and contains(y, due) for y in k.a) for k, v in lits_of(p)), W)
    agree_msgs(c, ps, lambda o: [Each(old, out(SENDER, fld(el, "token_id")), conds=[due])], "claim:released", W)


def run(c):
    for K in (KC, KO):
        unstake(c, K)
        claim(c, K)
        dao = t_eq(SENDER, ld("dao"))
        config_update(c, K, "config", dao)
        registry(c, K, dao)
        for en, vs in (("execute", variants(K, "execute")),) + ((("reply", [None]),) if K == KC else ()):
            for v in vs:
                for p in okpaths(K, en, v):
                    w = set(p.writes())
                    W = "%s::%s%s" % (K, en, "/" + v if v else "")
                    if v not in ("ReceiveNft", "ConfirmStake", "Unstake"):
                        c.ob(not ({SN, NB, TS} & w), "books-frame", W, sorted(w), p)
                    if v not in ("Unstake", "ClaimNfts"):
                        c.ob(CL not in w, "claims-frame", W, sorted(w), p)
                    if en == "execute":
                        c.ob("dao" not in w, "binding-frame", W, sorted(w), p)
                        if v != "UpdateConfig":
                            c.ob("config" not in w, "binding-frame", W, sorted(w), p)
        for p in okpaths(K, "instantiate"):
            c.ob(all(len(p.saves(TS)) == 1 and x.a[2] is I(0) for x in p.saves(TS)) and not ({SN, NB, CL} & set(p.writes())), "books-start-empty", K + "::instantiate", sorted(p.writes()), p)
    # staking by receipt
    K = KC
    W = K + "::execute/ReceiveNft"
    R = fld(as_(MSG, "ReceiveNft"), "0")
    who, tid = valid(fld(R, "sender")), fld(R, "token_id")
    ps = some_paths(c, K, "execute", "ReceiveNft")
    req(c, ps, "stake:collection", t_eq(SENDER, fld(CFG, "nft_address")), W)
    counts(c, ps, "stake", W, who, I(1), +1)
    for p in ps:
        s = p.saves(SN)
        c.ob(set(p.writes()) == {SN, NB, TS} and len(s) == 1 and len(p.writes()[SN]) == 1 and s[0].a[1] is key(who, tid), "stake:recorded", W, [repr(x)[:200] for x in s], p)
    agree_msgs(c, ps, lambda o: [hooks("Stake", addr=who, token_id=tid)], "stake:told", W)
    onft(c)


def owner_is(p, el, who):
    """the collection says `who` owns the token"""
    def q(t):
        t2 = t
        if t2.op != "fld" or t2.a[1] != "owner":
            return False
        qs = [y for y in subterms(t2) if y.op == "call" and y.a[0].endswith("::onft")]
        return len(qs) == 1 and fld(CFG, "onft_collection_id") in qs[0].a and el in qs[0].a
    return lambda t: t.op == "eq" and who in t.a and any(q(y) for y in t.a)


def all_of(p, test):
    """a fact: every element satisfies a conjunction that includes what `test` recognises"""
    for k, v in lits_of(p):
        if v or k.op != "iany":
            continue
        # not any(not(c)): c holds for each
        if must(t_not(k.a[1]), test):
            return True
    return False


def known(p, test):
    """a fact about the element, or one established for every element"""
    return any(v and test(k) for k, v in lits_of(p)) or all_of(p, test)


def must(z, test):
    if test(z):
        return True
    if z.op == "and" or z.op == "conj":
        return any(must(x, test) for x in z.a)
    if z.op == "phi":
        cs = [(cnd, v) for cnd, v in phi_cases(z)]
        return all(v is FALSE or must(v, test) or any(test(l) for l in cnd.a) or any(l.op == "dnf" and all(must(x, test) for x in l.a) for l in cnd.a) for cnd, v in cs)
    return False


def unique(t, ids):
    """the given ids, each once"""
    if t.op == "mut" and "::dedup" in t.a[0]:
        s = t.a[-1]
        return s.op == "mut" and "::sort" in s.a[0] and s.a[-1] is ids
    return t.op == "call" and "BTreeSet" in t.a[0] and contains(t, ids)


def onft(c):
    K = KO
    out = nft_out(K)
    W = K + "::execute/PrepareStake"
    ids = F(as_(MSG, "PrepareStake"), "token_ids")
    el = mk("elem", ids)
    ps = some_paths(c, K, "execute", "PrepareStake")
    for p in ps:
        c.ob(set(p.writes()) <= {PO}, "prepare:frame", W, sorted(p.writes()), p)
    sv = lambda x: x.kind == "save" and x.a[0].a[0] == PO
    each_done(c, ps, "prepare", W, [("recorded", lambda x: sv(x) and x.a[1] is el and x.a[2] is SENDER)], lambda q: known(q, owner_is(q, el, SENDER)))
    msgs_ok(c, ps, "prepare:frame", [])
    W = K + "::execute/ConfirmStake"
    ids = F(as_(MSG, "ConfirmStake"), "token_ids")
    ps = some_paths(c, K, "execute", "ConfirmStake")
    rec = lambda x: x.kind == "save" and x.a[0].op == "str" and x.a[0].a[0] == SN
    its = loop_iters(ps, rec)
    Ls = {x.a[1].a[1].a[0] for q, l in its for x in l if rec(x) and x.a[1].op == "tuple" and x.a[1].a[1].op == "elem"}
    c.ob(len(Ls) == 1 and unique(list(Ls)[0], ids), "stake:each-once", W, [show(x)[:200] for x in Ls])
    L = list(Ls)[0]
    el = mk("elem", L)
    k = key(SENDER, el)

    def checked(q):
        prepared = q.truth(has(PO, el)) is True and q.truth(t_eq(SENDER, ld(PO, el))) is True
        return prepared and known(q, owner_is(q, el, SELF))
    each_done(c, ps, "stake", W, [("recorded", eff("save", SN, k)), ("unprepared", eff("remove", PO, el))], checked)
    counts(c, ps, "stake", W, SENDER, mk("len", L), +1)
    for p in ps:
        c.ob(set(p.writes()) - {SN, PO} == {NB, TS}, "stake:frame", W, sorted(p.writes()), p)
    agree_msgs(c, ps, lambda o: [hooks("Stake", addr=SENDER, token_id=el)], "stake:told", W)
    # undoing a preparation
    W = K + "::execute/CancelStake"
    C = as_(MSG, "CancelStake")
    ids, to = F(C, "token_ids"), F(C, "recipient")
    el = mk("elem", ids)
    dao = t_eq(SENDER, ld("dao"))
    ps = some_paths(c, K, "execute", "CancelStake")
    for p in ps:
        c.ob(set(p.writes()) <= {PO}, "cancel:frame", W, sorted(p.writes()), p)
    gone = eff("remove", PO, el)
    each_iter(c, ps, "cancel:unprepared", W, gone, allow=lambda q: q.truth(has(PO, el)) is False)
    onft_owner = None
    for q, l in loop_iters(ps, gone):
        c.ob(len(l) <= 1 and all(gone(x) for x in l), "cancel:frame", W, [repr(x)[:200] for x in l], q)
        by_owner, by_preparer = owner_is(q, el, SENDER), t_eq(SENDER, ld(PO, el))

        def may(r):
            return r.truth(dao) is True or known(r, by_owner) or (r.truth(by_preparer) is True and r.truth(has(PO, el)) is True)
        c.ob(q.entails(lambda r: may(r)), "cancel:authority", W, path=q)
        for t, _ in lits_of(q):
            if owner_is(q, el, SELF)(t):
                onft_owner = [y for y in t.a if y is not SELF][0]
    c.ob(onft_owner is not None, "cancel:returned", W, "no look at who owns the token")

    def back(o):
        if not o(t_eq(SELF, onft_owner)):
            return []
        if o(dao):
            if o(t_isv(to, "Some", OPT)):
                return [out(payload(to, "Some"), el)]
        return [out(ld(PO, el), el)] if o(has(PO, el)) else None
    agree_each(c, ps, ids, back, "cancel:returned", W)
    for p in ps:
        for q, gs in p.worlds():
            c.ob(all(g.each is ids for g in gs), "cancel:returned", W, [repr(g)[:200] for g in gs], q)
