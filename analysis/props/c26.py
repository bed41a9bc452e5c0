"""C26 queries answer from what is stored.  Every list query of every contract is a page of one collection:
all of its entries (or of the account, or enabled ones, asked for), in the order and after the entry asked
for, as many as asked for (a smaller maximum or default count apart), each entry as stored; every look-up
answers with the stored value of what was asked for, or says there is none."""
from lib import *
from props.c08 import equal
from props import c16
from props.c18 import is_share


class Page:
    """a list's term taken apart: source iteration, what is listed of each entry (case by case), filters,
    limits"""

    def __init__(self, t):
        self.filters, self.takes, self.bodies = [], [], []
        self.cases = None       # [(condition, item)] of a list a loop built
        l = flatten(t)
        if len(l) > 1 and all(x.op == "imap" and x.a[0].op == "ifilter" and x.a[0].a[0] is l[0].a[0].a[0] for x in l):
            self.cases = [(x.a[0].a[1], x.a[1]) for x in l]
            t = l[0].a[0].a[0]
        while True:
            if t.op == "imap":
                self.bodies.append(t.a[1])
                t = t.a[0]
            elif t.op == "ifilter":
                self.filters.append((t.a[1], not self.takes))
                t = t.a[0]
            elif t.op == "itake":
                self.takes.append(t.a[1])
                t = t.a[0]
            elif t.op == "flat" and len(t.a) == 2:
                self.bodies.append(t.a[1])     # what is there, of results
                t = t.a[0]
            elif t.op in ("flat", "cast", "vec") and len(t.a) == 1:
                t = t.a[0]
            else:
                break
        self.base = t

    def entry(self):
        return payload(mk("elem", self.base), "Ok")

    def key(self):
        return self.entry() if self.base.a[0] == "keys" else fld(self.entry(), "0")

    def value(self):
        return fld(self.entry(), "1")

    def items(self):
        if self.cases:
            return self.cases
        x = self.bodies[0] if self.bodies else self.entry()
        x = x.a[0] if x.op == "elem" and x.a[0].op == "adt" else x
        return [(TRUE, payload(x, "Ok") if x.op == "adt" and x.a[1] == "Ok" else x)]


def flatten(t):
    return [y for x in t.a for y in flatten(x)] if t.op == "chain" else [t]


def bound_of(t):
    """the start of a page: (kind, term)"""
    if t.op == "adt" and t.a[1] == "None":
        return ("none", None)
    if t.op == "adt" and t.a[1] == "Some":
        b = payload(t, "Some")
        if b.op in ("bound", "call", "adt") or True:
            s = show(b)
            k = "exclusive" if "xclusive" in s.split("(")[0] else "inclusive" if "nclusive" in s.split("(")[0] else "?"
            return (k, b.a[-1])
    return ("?", t)


def name_of(t):
    """the namespace of a collection as an iteration records it"""
    if t.__class__ is str:
        return t
    if t.op == "str":
        return t.a[0]
    if t.op == "store":
        return name_of(t.a[0])
    return None


def is_coll(t, ns, pre, q):
    """the collection (or the part of it filed under a prefix)"""
    if pre is None:
        return name_of(t) == ns
    if t.__class__ is T and t.op == "iter" and t.a[0] == "prefix":
        return (name_of(t.a[1]) == ns or is_index(t.a[1], ns)) and t.a[-1] in pre
    return False


def is_index(t, ns):
    """an index of an indexed map: (namespace, index)"""
    return isinstance(ns, tuple) and t.__class__ is T and t.op == "fld" and t.a[1] == ns[1] and any(name_of(x) == ns[0] for x in subterms(t))


def one_of(t):
    return {t, valid(t)}


def page(c, K, W, v, q, list_of, coll, up, start, limit, item, prefix=None, keep=None, given=None):
    """one answer v (on path q) is a page"""
    n = 0
    for r, t in live(q, list_of(v)):
        if t.op == "array" and not t.a:
            continue
        g = Page(t)
        n += 1
        if any(b.op == "adt" and b.a[1] == "Err" for b in g.bodies):
            continue    # the list is complete: no element is an error
        b = g.base
        pre = None if prefix is None else one_of(prefix)
        src = coll if not isinstance(coll, tuple) else coll
        ok = b.op == "iter" and b.a[0] in ("range", "keys") and (is_coll(b.a[1], src, pre, r) or isinstance(src, tuple) and pre is None and name_of(b.a[1]) == src[0])
        if not c.ob(ok, "collection", W, show(b)[:300], r):
            continue
        lo, hi, order = bound_of(b.a[-3]), bound_of(b.a[-2]), b.a[-1]
        c.ob(order.op == "adt" and order.a[1] == ("Ascending" if up else "Descending"), "order", W, show(order), r)
        at, off = (lo, hi) if up else (hi, lo)
        want = None if start is None else r.variant_of(start)
        good = off[0] == "none" and (at[0] == "exclusive" and at[1] in one_of(payload(start, "Some")) if want == "Some" else at[0] == "none" and (start is None or want == "None"))
        c.ob(good, "start", W, show(b)[:300], r)
        # how many
        if limit is None:
            c.ob(not g.takes, "limit", W, [show(x)[:100] for x in g.takes], r)
        elif r.variant_of(limit) == "Some" or r.variant_of(limit) is None:
            l = payload(limit, "Some")
            c.ob(len(g.takes) == 1 and at_most(g.takes[0], l), "limit", W, [show(x)[:100] for x in g.takes], r)
        else:
            c.ob(len(g.takes) <= 1 and all(default(x, b, g) for x in g.takes), "limit", W, [show(x)[:100] for x in g.takes], r)
        # which
        if keep is None:
            c.ob(not g.filters, "every-entry", W, [show(x[0])[:200] for x in g.filters], r)
        else:
            c.ob(len(g.filters) == 1 and not (g.filters[0][1] and g.takes) and keep(r, g, g.filters[0][0]), "every-entry", W, [show(x[0])[:200] for x in g.filters], r)
        for cond, y in g.items():
            for s, x in [z for w in r.assume(cond, True) for z in live(w, y)]:
                c.ob(item(s, g, x), "entry", W, show(x)[:500], s)
        if g.cases:
            # every entry falls under one of the cases, unless it makes the query fail
            ss = [r]
            for cond, _ in g.cases:
                ss = [z for s in ss for z in s.assume(cond, False) if z.feasible()]
            for l in (given(g) if given else ()):
                ss = [z for s in ss for z in s.assume(l, True) if z.feasible()]
            c.ob(not ss, "every-entry", W, [show(x[0])[:300] for x in g.cases], r)
    return n


def strip(t):
    while t.op == "cast":
        t = t.a[-1]
    return t


def at_most(t, l):
    """the limit asked for, or a maximum if that is smaller"""
    t = strip(t)
    if t is l:
        return True
    return t.op == "min" and any(strip(x) is l for x in t.a) and all(strip(x) is l or strip(x).op == "int" and strip(x).a[0] > 0 for x in t.a)


def default(t, b, g):
    """a fixed number of entries, or all there are"""
    t = strip(t)
    if t.op == "int":
        return t.a[0] > 0
    if t.op == "min":
        return all(default(x, b, g) for x in t.a)
    return t.op == "len" and any(x is b for x in subterms(t))


def same_entry(q, g, x):
    """the value as it is stored"""
    return equal(q, x, g.value())


def the_key(q, g, x):
    return x is g.key()


def pair(q, g, x):
    return x is g.entry() or x.op == "tup" and x.a[0] is g.key() and x.a[1] is g.value()


def parts(**kw):
    """an answer's fields, each out of the entry"""
    def f(q, g, x):
        return x.op == "adt" and all(w(g, q, fld(x, n)) for n, w in kw.items()) and set(adt_fields(x)) == set(kw)
    return f


KEY = lambda g, q, t: t is g.key() or t.op == "call" and t.a[-1] is g.key()
VAL = lambda g, q, t: t is g.value()
ANY = lambda g, q, t: True
of = lambda n: lambda g, q, t: equal(q, t, F(g.value(), n))


def status_aside(g, q, t):
    """a proposal as stored, its status (decided by C05) aside"""
    v = g.value()
    while t.op == "upd":
        if t.a[1] not in ("status",):
            return False
        t = t.a[0]
    return t is v or t.op == "adt" and all(n == "status" or x is fld(v, n) for n, x in adt_fields(t).items()) or t.op == "setf" and same_but(t, v)


def same_but(t, v):
    return all(fld(t, n) is fld(v, n) for n in ("title", "description", "proposer", "start_height", "expiration", "total_power", "votes", "allow_revoting"))


IDENT = lambda v: v
at = lambda n: lambda v: fld(v, n)


def lists():
    def q(K, var, coll, up=True, item=same_entry, path=IDENT, start="start_after", limit="limit", prefix=None, keep=None, pre=(), m=None, given=None):
        return dict(given=given, K=K, var=var, coll=coll, up=up, item=item, path=path, start=start, limit=limit, prefix=prefix, keep=keep, pre=pre, m=m)
    K = "dao_dao_core"
    yield q(K, "ListItems", "items", False, pair)
    yield q(K, "ProposalModules", "proposal_modules_v2")
    yield q(K, "ActiveProposalModules", "proposal_modules_v2", keep=enabled)
    yield q(K, "Cw20TokenList", "cw20s", False, the_key)
    yield q(K, "Cw721TokenList", "cw721s", False, the_key)
    yield q(K, "Cw20Balances", "cw20s", False, balance)
    yield q(K, "ListSubDaos", "sub_daos", True, parts(addr=KEY, charter=VAL))
    yield q(K, "DumpState", "proposal_modules_v2", path=at("proposal_modules"), start=None, limit=None)
    for K, ns, votes in (("dao_proposal_single", "proposals_v2", ("vote", "power", "rationale")), ("dao_proposal_multiple", "proposals", ("vote", "power", "rationale"))):
        yield q(K, "ListProposals", ns, True, parts(id=KEY, proposal=status_aside), at("proposals"))
        yield q(K, "ReverseProposals", ns, False, parts(id=KEY, proposal=status_aside), at("proposals"), "start_before")
        yield q(K, "ListVotes", "ballots", True, parts(voter=KEY, **{n: of(n) for n in votes}), at("votes"), prefix="proposal_id")
    K = "cw_tokenfactory_issuer"
    yield q(K, "Denylist", "denylist", True, parts(address=KEY, status=VAL), at("denylist"))
    yield q(K, "Allowlist", "allowlist", True, parts(address=KEY, status=VAL), at("allowlist"))
    yield q(K, "MintAllowances", "minter_allowances", True, parts(address=KEY, allowance=VAL), at("allowances"))
    yield q(K, "BurnAllowances", "burner_allowances", True, parts(address=KEY, allowance=VAL), at("allowances"))
    K, VC = "cw_payroll_factory", "vesting_contracts"
    for rev, up, st in (("", True, "start_after"), ("Reverse", False, "start_before")):
        yield q(K, "ListVestingContracts" + rev, VC, up, start=st)
        yield q(K, "ListVestingContractsByInstantiator" + rev, (VC, "instantiator"), up, start=st, prefix="instantiator")
        yield q(K, "ListVestingContractsByRecipient" + rev, (VC, "recipient"), up, start=st, prefix="recipient")
    for K in ("cw20_stake", "dao_voting_token_staked"):
        yield q(K, "ListStakers", "staked_balances", True, parts(address=KEY, balance=VAL), at("stakers"))
    for K, ns in (("dao_voting_cw721_staked", "snpw"), ("dao_voting_onft_staked", "snpw")):
        yield q(K, "StakedNfts", ns, True, the_key, prefix="address")
    K = "cw_fund_distributor"
    yield q(K, "NativeDenoms", "native_balances", True, parts(denom=KEY, contract_balance=VAL), start=None, limit=None)
    yield q(K, "CW20Tokens", "cw20_balances", True, parts(token=KEY, contract_balance=VAL), start=None, limit=None)
    yield q(K, "NativeEntitlements", "native_balances", False, entitled("denom", "native_claims"), start="start_at", given=no_overdraft)
    yield q(K, "CW20Entitlements", "cw20_balances", False, entitled("token_contract", "cw20_claims"), start="start_at", given=no_overdraft)
    K = "dao_rewards_distributor"
    yield q(K, "Distributions", "d", True, path=at("distributions"))
    yield q(K, "PendingRewards", "d", True, pending_rewards, at("pending_rewards"))
    K = "cw721_roles"
    yield q(K, "Extension", "members", True, parts(addr=KEY, weight=VAL), at("members"), pre=[(F(as_(MSG, "Extension"), "msg"), "ListMembers")], m=as_(F(as_(MSG, "Extension"), "msg"), "ListMembers"))
    K = "dao_pre_propose_approval_single"
    for what, ns in (("Pending", "pending_proposals"), ("Completed", "completed_proposals")):
        for rev, up, st in (("", True, "start_after"), ("Reverse", False, "start_before")):
            n = rev + what + "Proposals"
            m = as_(F(as_(MSG, "QueryExtension"), "msg"), n)
            yield q(K, "QueryExtension", ns, up, start=st, pre=[(F(as_(MSG, "QueryExtension"), "msg"), n)], m=m)


def entitled(name, cs):
    """a member's share of a distribution's funds, less what it has claimed of it"""
    def f(q, g, x):
        who = F(q_msg(q), "sender")
        k = mk("tuple", valid(who), g.key())
        s = q.truth(has(cs, k))
        if s is None:
            return all(f(z, g, x) for b in (True, False) for z in q.assume(has(cs, k), b) if z.feasible())
        prev = ld(cs, k) if s else I(0)
        return set(adt_fields(x)) == {name, "amount"} and fld(x, name) is g.key() and any(is_share(t_add(fld(x, "amount"), prev), g.value(), w) for w in (who, valid(who)))
    return f


def pending_rewards(q, g, x):
    """what a claim made now would pay of each distribution"""
    who = valid(fld(as_(MSG, "PendingRewards"), "address"))
    D = g.value()
    if set(adt_fields(x)) != {"id", "denom", "pending_rewards"} or fld(x, "id") is not g.key() or not equal(q, fld(x, "denom"), fld(D, "denom")):
        return False
    t = fld(x, "pending_rewards")
    all_ = c16.terms_of(t, D) | c16.known(q)
    old = c16.Old(g.key(), all_, who, D)
    c = Count()
    c16.judge(c, q, "", "", (t,), lambda o: c16.updated(o, old, all_), lambda q, ts, gs, want: amounts_equal(q, ts[0], want[3]) or "no", gs=[], least=0)
    COUNTED[0] += c.cases
    return c.good


COUNTED = [0]


class Count:
    good, cases = True, 0

    def ob(self, ok, *a):
        self.good = self.good and bool(ok)
        return ok


def no_overdraft(g):
    """the query fails where more was claimed than there is"""
    for _, x in g.cases:
        a = fld(x, "amount")
        if a.op == "sub":
            yield t_not(t_lt(a.a[0], a.a[1]))


def q_msg(q):
    for v in ("NativeEntitlements", "CW20Entitlements"):
        if q.variant_of(MSG) == v:
            return as_(MSG, v)


def enabled(q, g, cond):
    """only enabled modules, all of them, counted after leaving out the others"""
    st = F(g.value(), "status")
    return cond is t_isv(st, "Enabled")


def balance(q, g, x):
    if not (x.op == "adt" and fld(x, "addr") is g.key()):
        return False
    b = fld(x, "balance")
    qs = [y for y in subterms(b) if y.op == "query"]
    return len(qs) == 1 and b is fld(qs[0], "balance") and qs[0].a[0] is g.key() and qs[0].a[1].op == "adt" and qs[0].a[1].a[1] == "Balance" and fld(qs[0].a[1], "address") is SELF


def run(c):
    for r in lists():
        K, var = r["K"], r["var"]
        W = "%s::query/%s%s" % (K, var, "/" + r["pre"][0][1] if r["pre"] else "")
        m = r["m"] or as_(MSG, var)
        n = 0
        for p in okpaths(K, "query", var, pre=r["pre"]):
            if not p.feasible():
                continue
            for q, (v,) in p.split(p.ret):
                if not q.feasible():
                    continue
                v = v.a[0] if v.op == "json" else v
                n += page(c, K, W, v, q, r["path"], r["coll"], r["up"], F(m, r["start"]) if r["start"] else None, F(m, r["limit"]) if r["limit"] else None,
                          r["item"], F(m, r["prefix"]) if r["prefix"] else None, r["keep"], r["given"])
        c.ob(n > 0, "anchor", W + " answers", n)
    c.ob(COUNTED[0] > 5, "entry", "dao_rewards_distributor::query/PendingRewards cases", COUNTED[0])
    looks(c)
    indexes(c)


# ---- look-ups ------------------------------------------------------------------------------------
def stored(ns, key=None):
    """the value stored, in whole"""
    def f(p, v, m):
        return v is (ld(ns) if key is None else ld(ns, key(m)))
    return f


def stored_in(name, ns, key=None, field=None):
    """... in this field of the answer, or a field of it"""
    def f(p, v, m):
        w = ld(ns) if key is None else ld(ns, key(m))
        return fld(v, name) is (fld(w, field) if field else w)
    return f


def maybe(name, ns, key=None, conv=None):
    """what is stored, if anything is (in this field of the answer)"""
    def f(p, v, m):
        t = fld(v, name) if name else v
        k = None if key is None else key(m)
        h, w = (has(ns), ld(ns)) if k is None else (has(ns, k), ld(ns, k))
        s = p.truth(h)
        if s is None:
            return False
        if not s:
            return kind_of(p, t) == "None"
        x = payload(t, "Some")
        return kind_of(p, t) == "Some" and (conv(p, x, w, m) if conv else x is w)
    f.both = lambda m: has(ns) if key is None else has(ns, key(m))
    return f


def hooks_of(ns, name="hooks"):
    def f(p, v, m):
        t = fld(v, name)
        return t is ld(ns) and p.truth(has(ns)) is True or empty_list(t) and p.truth(has(ns)) is False
    f.both = lambda m: has(ns)
    return f


def pause(o):
    """whether a pause is in force"""
    return o(has("paused")) and not o(mk("expired", ld("paused"), BLOCK))


def paused_until(q, x, r):
    return x.op == "adt" and (x.a[1] == "Paused" and fld(x, "expiration") is ld("paused") if r else x.a[1] == "Unpaused")


def pauses(c):
    for var, path in (("PauseInfo", IDENT), ("DumpState", at("pause_info"))):
        for p, v in answers("dao_dao_core", var):
            agree(c, p, path(v), pause, paused_until, "pause", "dao_dao_core::query/" + var)


def dump(p, v, m):
    return (fld(v, "admin") is ld("admin") and fld(v, "config") is ld("config_v2") and fld(v, "voting_module") is ld("voting_module")
            and fld(v, "active_proposal_module_count") is ld("active_proposal_module_count") and fld(v, "total_proposal_module_count") is ld("total_proposal_module_count"))


def vote_info(p, x, b, m):
    return fld(x, "voter") is valid(fld(m, "voter")) and all(fld(x, n) is fld(b, n) for n in ("vote", "power", "rationale"))


def ballot(m):
    return mk("tuple", fld(m, "proposal_id"), valid(fld(m, "voter")))


def version(p, v, m):
    return fld(v, "info").op == "fld" and any(x.op == "call" and x.a[0].endswith("get_contract_version") for x in subterms(fld(v, "info")))


def owner(p, v, m):
    return any(x.op == "call" and x.a[0].endswith("get_ownership") for x in subterms(v)) and v.op in ("fld", "as")


def count(p, v, m):
    return v is ld("proposal_count") or v is I(0) and p.truth(has("proposal_count")) is False


def next_id(p, v, m):
    n = "proposal_count"
    return p.truth(has(n)) is True and amounts_equal(p, v, t_add(ld(n), I(1))) or p.truth(has(n)) is False and v is I(1)


def claims(p, v, m):
    """the account's own claims"""
    return any(x.op == "call" and x.a[0].endswith("query_claims") and valid(fld(m, "address")) in x.a for x in subterms(v))


def vest_duration(p, v, m):
    """how long the whole vesting takes"""
    C = fld(ld("vesting"), "vested")
    k = p.variant_of(C)
    if k == "Constant":
        return kind_of(p, v) == "None"
    if kind_of(p, v) != "Some":
        return False
    x = payload(v, "Some")
    if k == "SaturatingLinear":
        L = payload(C, "SaturatingLinear")
        return x is t_sub(fld(L, "max_x"), fld(L, "min_x"))
    steps = fld(payload(C, "PiecewiseLinear"), "steps")
    at = lambda i: fld(mk("idx", steps, i), "0")
    return amounts_equal(p, x, t_sub(at(t_sub(mk("len", steps), I(1))), at(I(0))))


def lookups():
    K = "dao_dao_core"
    key = lambda m: fld(m, "key")
    yield K, {"AdminNomination": maybe("nomination", "nominated_admin"), "GetItem": maybe("item", "items", key), "PauseInfo": lambda p, v, m: True, "DaoURI": stored_in("dao_uri", "config_v2", field="dao_uri"),
              "Config": stored("config_v2"), "DumpState": dump, "Info": version, "Admin": stored("admin")}
    for K in ("dao_proposal_single", "dao_proposal_multiple"):
        yield K, {"GetVote": maybe("vote", "ballots", ballot, vote_info), "ProposalCount": count, "NextProposalId": next_id, "ProposalHooks": hooks_of("proposal_hooks"), "VoteHooks": hooks_of("vote_hooks"), "Info": version}
    yield "dao_proposal_condorcet", {"Info": version}
    for K in ("dao_pre_propose_single", "dao_pre_propose_multiple", "dao_pre_propose_approval_single", "dao_pre_propose_approver"):
        yield K, {"ProposalModule": stored("proposal_module"), "Dao": stored("dao"), "Config": stored("config"), "ProposalSubmittedHooks": hooks_of("proposal_submitted_hooks"), "Info": version,
                  "DepositInfo": lambda p, v, m: (lambda d: fld(v, "deposit_info") is fld(d, "0") and fld(v, "proposer") is fld(d, "1"))(ld("deposits", fld(m, "proposal_id")))}
    yield "cw20_stake", {"GetHooks": hooks_of("hooks"), "Ownership": owner}
    for K in ("cw20_stake_external_rewards", "cw20_stake_reward_distributor", "cw_payroll_factory", "cw_tokenfactory_issuer", "cw_vesting", "dao_rewards_distributor"):
        yield K, {"Ownership": owner}
    yield "cw20_stake_external_rewards", {"Info": lambda p, v, m: fld(v, "config") is ld("config_v2") and fld(v, "reward") is ld("reward_config")}
    yield "cw20_stake_reward_distributor", {"Info": lambda p, v, m: fld(v, "config") is ld("config_v2") and fld(v, "last_payment_block") is ld("last_payment_block")}
    yield "cw_vesting", {"VestDuration": vest_duration}
    yield "dao_voting_token_staked", {"GetConfig": stored("config"), "Claims": claims, "GetHooks": hooks_of("hooks"), "TokenContract": maybe(None, "token_issuer_contract"), "Denom": stored_in("denom", "denom"), "Dao": stored("dao"), "Info": version}
    for K in ("dao_voting_cw721_staked", "dao_voting_onft_staked"):
        who = lambda m: valid(fld(m, "address"))
        yield K, {"Config": stored("config"), "Hooks": hooks_of("hooks"), "Dao": stored("dao"), "Info": version,
                  "NftClaims": lambda p, v, m: (lambda t, k: t is ld("nft_claims", k) and p.truth(has("nft_claims", k)) is True or empty_list(t) and p.truth(has("nft_claims", k)) is False)(fld(v, "nft_claims"), who(m))}
    yield "dao_voting_cw20_staked", {"StakingContract": stored("staking_contract"), "TokenContract": stored("token"), "Dao": stored("dao"), "Info": version}
    yield "dao_voting_cw4", {"GroupContract": stored("group_contract"), "Dao": stored("dao_address"), "Info": version}
    yield "dao_voting_cw721_roles", {"Config": stored("config"), "Dao": stored("dao"), "Info": version}


def looks(c):
    for K, t in lookups():
        for var, f in t.items():
            m = as_(MSG, var)
            answer_is(c, "look-up", K, var, lambda p, v: f(p, v, m))
            if hasattr(f, "both"):
                s = {p.truth(f.both(m)) for p, _ in answers(K, var)}
                c.ob(s == {True, False}, "look-up", "%s::query/%s there or not" % (K, var), s)
    pauses(c)
    may_propose(c)
    undistributed(c)


def may_propose(c):
    """whether someone may propose is what a submission by it would be checked against"""
    from props import pre
    for K in (pre.SINGLE_PP, pre.MULTI_PP, pre.APPROVAL, pre.APPROVER):
        W = K + "::query/CanPropose"
        ans = answers(K, "CanPropose")
        c.ob(len(ans) > 0, "anchor", W, len(ans))
        for p, v in ans:
            if K == pre.APPROVER:   # submissions come from the contract it approves for
                c.ob(v.op == "eq" and set(v.a) in ({x, ld("pre_propose_approval_contract")} for x in one_of(fld(as_(MSG, "CanPropose"), "address"))), "may-propose", W, show(v)[:300], p)
                continue
            agree(c, p, v, pre.may_submit(valid(fld(as_(MSG, "CanPropose"), "address"))), lambda q, x, r: q.truth(x) is r, "may-propose", W)


def undistributed(c):
    """what is left of the funds is what has not been emitted by now"""
    c.cases = 0
    from props import c16
    K = c16.K
    W = K + "::query/UndistributedRewards"
    D = ld("d", F(as_(MSG, "UndistributedRewards"), "id"))

    def spec(o):
        kind, x = c16.until(o, F(D, "active_epoch.ends_at"))
        return c16.rewards_until(o, D, kind, x)
    ans = answers(K, "UndistributedRewards")
    c.ob(len(ans) > 0, "anchor", W, len(ans))
    for p, v in ans:
        c16.judge(c, p, W, "undistributed", (v,), spec, lambda q, ts, gs, d: d is None or amounts_equal(q, ts[0], t_sub(fld(D, "funded_amount"), d)) or "answers %s" % show(ts[0])[:300], gs=[], least=0)
    c.ob(c.cases > 5, "undistributed", W + " cases", c.cases)


def indexes(c):
    """contracts are filed under their instantiator and their recipient, and every filing is kept up"""
    K = "cw_payroll_factory"
    W = K + "::vesting_contracts"
    d, seen = mk("sym", "d"), {}
    for var in ("ListVestingContractsByInstantiator", "ListVestingContractsByRecipient"):
        for p in okpaths(K, "query", var):
            for x in subterms(p.ret):
                if x.op == "store" and name_of(x) == "vesting_contracts" and len(x.a) > 2 and x.a[2].op == "adt":
                    for n, i in adt_fields(x.a[2]).items():
                        cl = [y for y in subterms(i) if y.op == "closure"]
                        seen[n] = {r for y in cl for _, r in p.e.call_value(y, [mk("sym", "pk"), d], p.st)}
                        names = [y.a[0] for y in i.a if y.__class__ is T and y.op == "str"]
                        c.ob(len(names) == 2 and names[0] == name_of(x), "index", W + " " + n, names)
                        c.ob(all(names[-1] not in [z.a[0] for z in subterms(j) if z.op == "str"] for m, j in adt_fields(x.a[2]).items() if m != n), "index", W + " " + n + " of its own", names)
    c.ob(set(seen) == {"instantiator", "recipient"} and all(v == {fld(d, n)} for n, v in seen.items()), "index", W, {n: list(map(show, v)) for n, v in seen.items()})
    pr = prog(K)
    fs = [i for i, f in (pr.fns.items() if isinstance(pr.fns, dict) else enumerate(pr.fns)) if f and f["np"].endswith("IndexList::get_indexes") and "bb" in f]
    c.ob(len(fs) == 1, "index", W + " get_indexes", len(fs))
    s = mk("sym", "indexes")
    for f in fs:
        for _, r in okpaths(K, "query", "CodeId")[0].e.exec_fn(f, [s], new_state()):
            c.ob(set(r.a) == {fld(s, n) for n in seen}, "index", W + " kept up", show(r)[:300])
