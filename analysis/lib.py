"""Rule vocabulary: entry points, paths, emitted messages, obligations."""
import json
import os
import time

from terms import *
import engine as E
from engine import Engine, Program, new_state, t_eq, t_lt, t_le, t_not, t_and, t_or, t_add, t_sub, t_isv, Limit

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("VERIF_WORK") or os.path.join(HERE, ".work")


def sym(n):
    return mk("sym", n)


def F(t, path):
    """Field path: F(x, "a.b") ; "@Some.0" selects a variant."""
    for p in path.split("."):
        if "@" in p:
            n, v = p.split("@", 1)
            if n:
                t = fld(t, n)
            t = as_(t, v)
        else:
            t = fld(t, p)
    return t


ENV, INFO, MSG = sym("env"), sym("info"), sym("msg")
SENDER = F(INFO, "sender")
SELF = F(ENV, "contract.address")
BLOCK = F(ENV, "block")
HEIGHT = F(BLOCK, "height")
TIME = F(BLOCK, "time")
FUNDS = F(INFO, "funds")


def key(*k):
    if not k:
        return UNIT
    return k[0] if len(k) == 1 else mk("tuple", *k)


def ld(ns, *k):
    return mk("st", ns, key(*k), 0)


def has(ns, *k):
    return mk("has", ns, key(*k), 0)


def valid(t):
    return mk("valid", t)


def query(addr, q):
    return mk("query", addr, q)


def isok(t):
    return t_isv(t, "Ok", RES)


def call_ok(name, t):
    """t is the literal that a library call whose name ends with `name` succeeded"""
    return t.op == "isv" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0].endswith(name)


# ---- terms ---------------------------------------------------------------------------------
REBUILD = {
    "fld": lambda a: fld(a[0], a[1]),
    "as": lambda a: as_(a[0], a[1]),
    "upd": lambda a: upd(a[0], a[1], a[2]),
    "add": lambda a: t_add(*a),
    "sub": lambda a: t_sub(*a) if len(a) == 2 else mk("sub", *a),
    "mul": lambda a: E.t_mul(*a),
    "div": lambda a: E.t_div(*a),
    "eq": lambda a: t_eq(*a),
    "lt": lambda a: t_lt(*a),
    "not": lambda a: t_not(*a),
    "and": lambda a: t_and(*a),
    "isv": lambda a: t_isv(*a),
    "conj": lambda a: conj(a),
    "elem": lambda a: __import__("models").elem(a[0]),
}


def subst(t, m, memo=None):
    """Replace subterms (m: dict term -> term)."""
    memo = {} if memo is None else memo
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not any(x.__class__ is T for x in t.a):
        memo[t] = t
        return t
    a = [subst(x, m, memo) if x.__class__ is T else x for x in t.a]
    if all(x is y for x, y in zip(a, t.a)):
        r = t
    elif t.op in REBUILD:
        r = REBUILD[t.op](a)
    else:
        r = mk(t.op, *a)
    memo[t] = r
    return r


def first_phi(t):
    """An outermost phi subterm."""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            return x
        if x.op in ("dnf", "conj", "mu"):
            continue
        for y in x.a:
            if y.__class__ is T:
                st.append(y)
    return None


def lin(t, k=1, acc=None):
    """Linear form of a +/- tree: {atom: coefficient}."""
    acc = {} if acc is None else acc
    if t.op == "add":
        lin(t.a[0], k, acc)
        lin(t.a[1], k, acc)
    elif t.op == "sub":
        lin(t.a[0], k, acc)
        lin(t.a[1], -k, acc)
    elif t.op == "int":
        if t.a[0]:
            acc[1] = acc.get(1, 0) + k * t.a[0]
    else:
        acc[t] = acc.get(t, 0) + k
    return acc


def same(a, b):
    """Equal values, up to the order of additions and subtractions."""
    if a is b:
        return True
    x = {k: v for k, v in lin(a).items() if v}
    y = {k: v for k, v in lin(b).items() if v}
    return x == y


# ---- programs ------------------------------------------------------------------------------
_progs = {}


def prog(crate):
    p = _progs.get(crate)
    if p is None:
        p = _progs[crate] = Program(os.path.join(WORK, "mir", crate + ".json"))
    return p


def param_syms(p, f):
    """Canonical names of the parameters, by type."""
    out = []
    for i in range(f["n"]):
        ty = p.types[f["lt"][i + 1]]
        s = ty["s"]
        if "DepsMut" in s or "Deps<" in s or s.endswith("::Deps"):
            n = "deps"
        elif s.endswith("::Env"):
            n = "env"
        elif s.endswith("::MessageInfo"):
            n = "info"
        elif s.endswith("::BlockInfo"):
            n = "block"
        elif s.endswith("::Reply"):
            n = "reply"
        elif "dyn cosmwasm_std::Storage" in s:
            n = "storage"
        else:
            n = "msg" if f["p"].split("::")[-1] in ENTRY else f["ln"].get(str(i + 1), "p%d" % i).lstrip("_")
        out.append(n)
    return out


ENTRY = ("instantiate", "execute", "query", "reply", "migrate", "sudo")
STATS = {"fns": {}, "blocks": 0, "calls": 0, "entries": [], "paths": 0, "opaque": {}, "capped": set()}
_cache = {}
WATCH = {"dao_proposal_condorcet": ("dao_proposal_condorcet::tally::Winner",)}


def run(crate, fn, pre=(), opaque=(), exact=False, mk_args=None):
    """Paths of a function of the crate. `pre`: [(term, variant)] assumed on entry.
    Returns all outcomes (P objects); `exact` keeps every path apart."""
    k = (crate, fn, tuple(pre), tuple(opaque), exact)
    r = _cache.get(k)
    if r is not None and mk_args is None:
        return r
    p = prog(crate)
    fid = p.find(fn)
    f = p.fns[fid]
    names = param_syms(p, f)
    last = None
    for tune in ((None,) if exact else (None, (2, 2, 8), (1, 1, 3))):
        e = Engine(p, opaque)
        e.watch = WATCH.get(crate, ())
        if exact:
            e.SMALL = e.MAXOUT = e.JOIN = 10 ** 9
            e.totals = False
        if tune:
            e.SMALL, e.MAXOUT, e.JOIN = tune
        st = new_state()
        args = []
        for i, n in enumerate(names):
            t = sym(n)
            ty = p.types[f["lt"][i + 1]]
            if ty["k"] == "ref" and ty["m"]:
                st.mem[-(i + 1)] = t
                args.append(mk("mref", -(i + 1)))
            else:
                args.append(t)
        for t, v in pre:
            st.var[t] = ("is", v)
        e.site = "?"
        try:
            outs = e.exec_fn(fid, args, st)
            break
        except Limit as x:
            last = x
    else:
        raise last
    ps = []
    for s, v in outs:
        v = e.purge(s, e.deref(s, v))
        ps.append(P(e, s, v, crate, fn, dict(pre).get(MSG)))
    for n in e.stats["fns"]:
        STATS["fns"].setdefault(crate, set()).add(n)
    STATS["blocks"] += e.stats["blocks"]
    STATS["calls"] += e.stats["calls"]
    STATS["entries"].append("%s::%s%s" % (crate, fn, "".join("/" + v for _, v in pre)))
    STATS["paths"] += len(ps)
    if mk_args is None:
        _cache[k] = ps
    return ps


def okpaths(crate, entry, variant=None, pre=()):
    """Ok outcomes of an entry point (contract::execute etc.) for a message variant."""
    pre = list(pre)
    if variant is not None:
        pre = [(MSG, variant)] + pre
    k = ("ok", crate, entry, tuple(pre))
    r = _cache.get(k)
    if r is None:
        r = []
        for x in run(crate, "contract::" + entry, pre):
            r.extend(x.ok())
        _cache[k] = r
    return r


def variants(crate, entry):
    """Names of the message enum's variants of an entry point."""
    p = prog(crate)
    f = p.fns[p.find("contract::" + entry)]
    for i in range(f["n"]):
        ty = p.types[f["lt"][i + 1]]
        if ty["k"] == "adt" and p.adts[ty["p"]]["k"] == "enum":
            return p.variants(ty["p"])
    return None


class P:
    """One outcome: the facts that hold, the effects in order, the returned value."""

    def __init__(self, e, st, ret, crate, fn, variant):
        self.e, self.st, self.ret = e, st, ret
        self.crate, self.fn, self.variant = crate, fn, variant
        self._eff = None

    def on(self, st, ret=None):
        return P(self.e, st, self.ret if ret is None else ret, self.crate, self.fn, self.variant)

    @property
    def where(self):
        return "%s::%s%s" % (self.crate, self.fn.split("::")[-1], "/" + self.variant if self.variant else "")

    def ok(self):
        r = self.ret
        if is_adt(r, "Ok"):
            return [self.on(self.st, r.a[3])]
        if is_adt(r, "Err"):
            return []
        if r.op == "phi":
            out = []
            for s, v in self.cases_of(r):
                out.extend(self.on(s, v).ok())
            return out
        return [self.on(s.copy(), payload(r, "Ok")) for s in self.e.assume(self.st, t_isv(r, "Ok", RES), True)]

    # facts
    def truth(self, lit):
        return self.e.truth(self.st, lit)

    def variant_of(self, t):
        return self.e.variant(self.st, t)

    def assume(self, lit, val=True):
        return [self.on(s) for s in self.e.assume(self.st, lit, val)]

    def case(self, c):
        """States in which all literals of a conj hold."""
        ss = [self.st]
        for l in c.a:
            ss = [s2 for s1 in ss for s2 in self.e.assume(s1, l, True)]
        return ss

    def cases_of(self, t):
        """Cases of a phi; a comparison of the phi known on this path must hold for the case's value."""
        out = []
        about = [(k, v) for k, v in self.st.facts.items() if k.__class__ is T and k.op in ("eq", "lt") and (k.a[0] is t or k.a[1] is t)]
        for c, v in phi_cases(t):
            for s in self.case(c):
                ss = [s]
                for k, val in about:
                    l = t_eq(*[v if x is t else x for x in k.a]) if k.op == "eq" else t_lt(*[v if x is t else x for x in k.a])
                    ss = [s3 for s2 in ss for s3 in self.e.assume(s2, l, val)]
                for s in ss:
                    out.append((s, v))
        return out

    def dnfs(self):
        """Disjunctions known to hold, as lists of conj."""
        out = []
        for k, v in self.st.facts.items():
            if k.__class__ is not T:
                continue
            if k.op == "dnf" and v:
                out.append(list(k.a))
            elif k.op == "phi":
                cs = []
                for c, x in phi_cases(k):
                    t = self.e.truth(self.st, x)
                    if t is None:
                        cs.append(conj(c.a + ((x if v else t_not(x)),)))
                    elif t == v:
                        cs.append(c)
                out.append(cs)
        for k, v in self.st.var.items():
            if k.op == "phi":
                cs = []
                for c, x in phi_cases(k):
                    w = self.e.variant(self.st, x)
                    if v[0] == "is":
                        if w is None:
                            cs.append(conj(c.a + (t_isv(x, v[1]),)))
                        elif w == v[1]:
                            cs.append(c)
                    else:
                        if w is None:
                            cs.append(conj(c.a + tuple(t_not(t_isv(x, n)) for n in sorted(v[1]))))
                        elif w not in v[1]:
                            cs.append(c)
                out.append(cs)
        return out

    def entails(self, pred, depth=5):
        """pred (a literal or a function of a P) holds on every case of this path."""
        if pred.__class__ is T:
            lit = pred
            pred = lambda p: p.truth(lit) is True
        if pred(self):
            return True
        if depth == 0:
            return False
        for cs in self.dnfs():
            good, n = True, 0
            for c in cs:
                for s in self.case(c):
                    n += 1
                    q = self.on(s)
                    drop = self.on(s)
                    if not drop.without(cs).entails(pred, depth - 1):
                        good = False
                        break
                if not good:
                    break
            if good:
                return True
        return False

    def without(self, cs):
        """Forget a disjunction that was split already (bounds the search)."""
        s = self.st.copy()
        k = mk("dnf", *cs)
        if k in s.facts:
            s.facts = {a: b for a, b in s.facts.items() if a is not k}
            return self.on(s)
        return self

    def feasible(self):
        for cs in self.dnfs():
            if not any(self.case(c) for c in cs):
                return False
        return True

    # effects
    @property
    def effects(self):
        if self._eff is None:
            l = []
            e = self.st.eff
            while e.op == "eff":
                l.append(E.Eff(e))
                e = e.a[0]
            self._eff = list(reversed(l))
        return self._eff

    def saves(self, ns):
        return [x for x in self.effects if x.kind == "save" and x.a[0].a[0] == ns]

    def removes(self, ns):
        return [x for x in self.effects if x.kind == "remove" and x.a[0].a[0] == ns]

    def writes(self):
        """Namespaces written (a save of the value just read is no write)."""
        out = {}
        for x in self.effects:
            if x.kind in ("save", "remove", "clear"):
                if x.kind == "save" and x.a[2].op == "st" and x.a[2].a[0] == x.a[0].a[0] and x.a[2].a[1] is x.a[1]:
                    continue
                out.setdefault(x.a[0].a[0], []).append(x)
            elif x.kind == "ext":
                out.setdefault("ext:" + x.a[0], []).append(x)
        return out

    def split(self, *terms):
        """Resolve the phi subterms of the terms: [(P, terms)] one per case."""
        work, out = [(self.st, list(terms))], []
        n = 0
        while work:
            st, ts = work.pop()
            ph = None
            for t in ts:
                ph = first_phi(t)
                if ph is not None:
                    break
            if ph is None:
                out.append((self.on(st), ts))
                continue
            n += 1
            if n > 3000:
                raise Limit("split")
            q = self.on(st)
            for s, v in q.cases_of(ph):
                work.append((s, [subst(t, {ph: v}) for t in ts]))
        return out

    # messages
    def worlds(self):
        """[(P, [G])]: the messages the response carries, per choice of conditional parts."""
        r = self.ret
        w = [(s, g) for s, g in flat_resp(self, self.st, r, 0)]
        return [(self.on(s), g) for s, g in w]

    def msgs(self):
        """All message templates with the P under which each is emitted."""
        out, seen = [], set()
        for p, gs in self.worlds():
            for g in gs:
                k = (g.msg, g.mode, g.id, id(p.st), g.conds)
                if k not in seen:
                    seen.add(k)
                    out.extend((q, g) for q in (under(p, g.conds) if g.conds else [p]))
        return out

    def describe(self):
        l = []
        for k, v in self.st.facts.items():
            if k.__class__ is T and k.op not in ("dnf", "phi", "has", "ok", "overflow"):
                l.append(("" if v else "not ") + show(k))
        for k, v in self.st.var.items():
            if k is not MSG and k.op not in ("phi",):
                l.append("%s is %s%s" % (show(k), "" if v[0] == "is" else "not ", v[1] if v[0] == "is" else sorted(v[1])))
        return l


class G:
    """An emitted message template."""

    def __init__(self, msg, mode="never", id=None, each=None, maybe=False, conds=()):
        self.msg, self.mode, self.id, self.each, self.maybe = strip_msg(msg), mode, id, each, maybe
        self.conds = tuple(conds)

    def __repr__(self):
        return "%s%s%s" % (show(self.msg), "" if self.mode == "never" else " reply_on_%s#%s" % (self.mode, show(self.id) if self.id else ""), " for each of %s" % show(self.each) if self.each else "")

    # accessors
    def wasm(self, var="Execute"):
        m = self.msg
        if m.op == "adt" and m.a[0].endswith("WasmMsg") and m.a[1] == var:
            d = adt_fields(m)
            b = d.get("msg")
            if b is not None and b.op == "json":
                b = b.a[0]
            return d, b
        return None

    def bank(self):
        m = self.msg
        if m.op == "adt" and m.a[0].endswith("BankMsg") and m.a[1] == "Send":
            d = adt_fields(m)
            return d["to_address"], d["amount"]
        return None


def strip_msg(m):
    while m.op == "adt" and m.a[0].endswith("CosmosMsg") and m.a[1] in ("Wasm", "Bank", "Staking", "Distribution", "Custom", "Stargate") and len(m.a) == 4 and m.a[1] != "Stargate":
        m = m.a[3]
    return m


def cross(p, a, f):
    """Sequence two world computations."""
    out = []
    for s, g in a:
        for s2, g2 in f(s):
            out.append((s2, g + g2))
    if len(out) > 4000:
        raise Limit("worlds")
    return out


def flat_resp(p, st, r, d, seen=()):
    if d > 40 or r in seen:
        return [(st, [])]
    if r.op == "phi":
        out = []
        for s, v in p.on(st).cases_of(r):
            out.extend(flat_resp(p, s, v, d + 1, seen))
        return out
    if r.op == "mu":
        w = [(st, [])]
        for i, v in enumerate(r.a):
            w = cross(p, w, lambda s: loopy(flat_resp(p, s, v, d + 1, seen + (r,)), i > 0))
        return w
    if r.op == "adt" and r.a[0].endswith("Response"):
        f = adt_fields(r)
        return flat_list(p, st, f["messages"], d + 1, True) if "messages" in f else [(st, [])]
    if r.op != "resp":
        return [(st, [G(mk("unknown_response", r))])]
    w = [(st, [])]
    for c in r.a:
        k, x = c.op, c.a[0]
        if k == "base":
            w = cross(p, w, lambda s: flat_resp(p, s, x, d + 1, seen))
        elif k == "msg":
            w = cross(p, w, lambda s: one(p, s, x, d))
        elif k == "msgs":
            w = cross(p, w, lambda s: flat_list(p, s, x, d + 1, False))
        elif k == "sub":
            w = cross(p, w, lambda s: one_sub(p, s, x, d))
        elif k == "subs":
            w = cross(p, w, lambda s: flat_list(p, s, x, d + 1, True))
    return w


SOME_OF = ("itake", "iskip")


def only(cs, ws):
    """messages for those elements only that meet the conditions"""
    if cs:
        for s, gs in ws:
            for g in gs:
                g.conds = g.conds + tuple(cs)
    return ws


def loopy(ws, yes):
    if yes:
        for s, gs in ws:
            for g in gs:
                g.maybe = True
    return ws


def backwards(g):
    if g.each is not None:
        g.each = g.each.a[0] if g.each.op == "irev" else mk("irev", g.each)
    return g


def one(p, st, x, d, each=None):
    if x.op == "phi":
        out = []
        for s, v in p.on(st).cases_of(x):
            out.extend(one(p, s, v, d + 1, each))
        return out
    return [(st, [G(x, each=each)])]


def one_sub(p, st, x, d, each=None):
    if x.op == "phi":
        out = []
        for s, v in p.on(st).cases_of(x):
            out.extend(one_sub(p, s, v, d + 1, each))
        return out
    if x.op == "submsg":
        out = []
        for s, gs in one(p, st, x.a[0], d, each):
            for g in gs:
                g.id, g.mode = x.a[1], x.a[2].a[0]
            out.append((s, gs))
        return out
    if x.op == "adt" and x.a[0].endswith("SubMsg"):
        f = adt_fields(x)
        m = {"Always": "always", "Error": "error", "Success": "success", "Never": "never"}.get(f["reply_on"].a[1] if f["reply_on"].op == "adt" else "", "?")
        return [(st, [G(f["msg"], m, f["id"], each)])]
    return [(st, [G(x, "?", None, each)])]


def flat_list(p, st, l, d, sub, each=None, seen=()):
    if d > 60 or l in seen:
        return [(st, [])]
    o = l.op
    if o == "array":
        w = [(st, [])]
        for x in l.a:
            w = cross(p, w, lambda s: (one_sub if sub else one)(p, s, x, d, each))
        return w
    if o == "phi":
        out = []
        for s, v in p.on(st).cases_of(l):
            out.extend(flat_list(p, s, v, d + 1, sub, each, seen))
        return out
    if o == "mu":
        w = [(st, [])]
        for i, v in enumerate(l.a):
            w = cross(p, w, lambda s: loopy(flat_list(p, s, v, d + 1, sub, each, seen + (l,)), i > 0))
        return w
    if o == "vpush":
        return cross(p, flat_list(p, st, l.a[0], d + 1, sub, each, seen), lambda s: (one_sub if sub else one)(p, s, l.a[1], d, each))
    if o == "chain":
        return cross(p, flat_list(p, st, l.a[0], d + 1, sub, each, seen), lambda s: flat_list(p, s, l.a[1], d + 1, sub, each, seen))
    if o == "default":
        return [(st, [])]
    if o == "fld" and l.a[1] == "messages" and l.a[0].op in ("resp", "phi", "mu"):
        return flat_resp(p, st, l.a[0], d + 1)
    if o == "adt" and l.a[1] == "None":
        return [(st, [])]
    if o == "adt" and l.a[1] == "Some":
        return (one_sub if sub else one)(p, st, l.a[3], d, each)
    if o == "imap":
        src = l.a[0]
        flat = src.op == "flat"
        if flat:
            src = src.a[0]
        cs = ()
        while src.op in ("ifilter", "imap") or src.op in SOME_OF:
            if src.op == "ifilter":
                cs += (src.a[1],)
            elif src.op != "imap":
                cs += (src,)
            src = src.a[0]
        if flat:
            return only(cs, flat_list(p, st, l.a[0].a[1], d + 1, sub, src, seen))
        return only(cs, loopy((one_sub if sub else one)(p, st, l.a[1], d, src), True))
    if o == "ifilter":
        return only((l.a[1],), flat_list(p, st, l.a[0], d + 1, sub, each, seen))
    if o == "irev":
        return [(s, [backwards(g) for g in reversed(gs)]) for s, gs in flat_list(p, st, l.a[0], d + 1, sub, each, seen)]
    if o in SOME_OF:
        return only((l,), flat_list(p, st, l.a[0], d + 1, sub, each, seen))
    # an opaque list: its generic element
    import models
    return loopy((one_sub if sub else one)(p, st, models.elem(l), d, l), True)


# ---- obligations ---------------------------------------------------------------------------
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.n = 0
        self.rules = {}
        self.viol = []
        self.samples = []

    def ob(self, ok, rule, where, detail="", path=None, msg=""):
        """One obligation. `rule` names the rule, `where` the construct (no line numbers)."""
        self.n += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if ok:
            if len([s for s in self.samples if s["rule"] == rule]) < 2:
                self.samples.append({"rule": rule, "at": where, "detail": str(detail)[:400]})
            return True
        k = "%s|%s|%s" % (self.prop, rule, where)
        for v in self.viol:
            if v["key"] == k:
                return False
        v = {"key": k, "rule": rule, "at": where, "detail": str(detail)[:3000], "why": msg}
        if path is not None:
            v["path"] = path.describe()[:60]
            v["effects"] = [repr(x)[:400] for x in path.effects][:30]
            v["sites"] = [x.site for x in path.effects][:30]
        self.viol.append(v)
        return False

    def floor(self, n, least, what):
        """Anchors counted by hand: fewer means the rule lost its subject."""
        self.ob(n >= least, "anchor", what, "%d found, %d expected" % (n, least))


def sname(t):
    return show(t)[:200]


def lits(*alts):
    return alts


def req(c, ps, rule, alts, what=None, when=None):
    """On every Ok path one of the alternatives (literals / predicates) is established."""
    if alts.__class__ is T or callable(alts):
        alts = [alts]

    def pred(p):
        for a in alts:
            if a.__class__ is T:
                if p.truth(a) is True:
                    return True
            elif a(p):
                return True
        return False

    for p in ps:
        if when is not None and not when(p):
            continue
        if not p.feasible():
            continue
        c.ob(p.entails(pred), rule, what or p.where, " or ".join(show(a) if a.__class__ is T else getattr(a, "__doc__", "") or "pred" for a in alts), p)


def each_may(c, ps, rule, where, alts):
    """Each of the alternatives alone is enough: with only it holding, some call succeeds."""
    alts = [a for a in alts if a.__class__ is T]
    for a in alts:
        ok = False
        for p in ps:
            qs = [p]
            for b in alts:
                qs = [r for q in qs for r in q.assume(b, b is a)]
            if any(q.feasible() and not impossible(q) for q in qs):
                ok = True
                break
        c.ob(ok, rule, where, "never succeeds with only %s" % show(a))


def some_paths(c, crate, entry, variant=None, pre=()):
    ps = okpaths(crate, entry, variant, pre)
    c.ob(len(ps) > 0, "anchor", "%s::%s%s has a successful path" % (crate, entry, "/" + variant if variant else ""), len(ps))
    return ps


# ---- specifications ------------------------------------------------------------------------
REMOVED = object()
ANY = None


def match(p, k, v, want):
    """want: None | callable(p, key, value) | (key, value) | [alternatives]"""
    if want is None:
        return True
    if callable(want):
        return want(p, k, v)
    if isinstance(want, list):
        return any(match(p, k, v, w) for w in want)
    wk, wv = want
    if wk is not None and not (wk(k) if callable(wk) and wk.__class__ is not T else same(wk, k)):
        return False
    if wv is None:
        return True
    if wv is REMOVED:
        return v is REMOVED
    if v is REMOVED:
        return False
    if wv.__class__ is T:
        return same(v, wv)
    return wv(p, v)


def writes_ok(c, ps, rule, writes, must=()):
    """Frame and values: only the listed namespaces are written, each with a listed value; those in
    `must` are written on every successful path."""
    for p in ps:
        if not p.feasible():
            continue
        w = p.writes()
        for ns, es in w.items():
            if ns.startswith("ext:cw2::") or ns == "ext:cw_ownable::assert_owner":
                continue
            if ns not in writes:
                c.ob(False, rule + ":frame", "%s writes %s" % (p.where, ns), "state outside the operation's frame is written", p)
                continue
            want = writes[ns]
            for x in es:
                if x.kind == "ext":
                    k, v = UNIT, mk("args", *x.a[1:])
                elif x.kind == "save":
                    k, v = x.a[1], x.a[2]
                elif x.kind == "remove":
                    k, v = x.a[1], REMOVED
                else:
                    k, v = mk("all"), REMOVED
                if want is None:
                    c.ob(True, rule + ":frame", "%s writes %s" % (p.where, ns))
                    continue
                ok, bad = True, None
                if v is REMOVED:
                    for q, (kk,) in p.split(k):
                        if not match(q, kk, v, want):
                            ok, bad = False, "remove %s[%s]" % (ns, show(kk))
                else:
                    for q, (kk, vv) in p.split(k, v):
                        if q.feasible() and not match(q, kk, vv, want):
                            ok, bad = False, "%s[%s] := %s" % (ns, show(kk), show(vv))
                c.ob(ok, rule + ":value", "%s writes %s" % (p.where, ns), bad or "%s[%s]" % (ns, show(k)), p)
        for ns in must:
            c.ob(ns in w, rule + ":must-write", "%s must write %s" % (p.where, ns), sorted(w), p)


def msgs_ok(c, ps, rule, allowed, must=0):
    """Every emitted message matches one of `allowed` (predicates on (P, G)); the first `must` of
    them are emitted on every successful path."""
    for p in ps:
        if not p.feasible():
            continue
        ws = p.worlds()
        for q, gs in ws:
            if not q.feasible():
                continue
            hit = set()
            for g in gs:
                ok = False
                rs = []
                for q2, (m,) in q.split(g.msg):
                    if not q2.feasible():
                        continue
                    g2 = G(m, g.mode, g.id, g.each, g.maybe)
                    r = [i for i, a in enumerate(allowed) if a(q2, g2)]
                    rs.append(r)
                    c.ob(bool(r), rule + ":message", "%s emits %s" % (p.where, msg_head(m)), repr(g2)[:1500], q2)
                for r in rs:
                    hit.update(i for i in r if all(i in x for x in rs))
            for i in range(must):
                c.ob(i in hit, rule + ":must-send", "%s must emit its message %d" % (p.where, i), [repr(g)[:400] for g in gs], q)


def msg_head(m):
    if m.op == "adt":
        n = short(m.a[0]).split("::")[-1] + "::" + m.a[1]
        d = adt_fields(m)
        b = d.get("msg")
        if b is not None and b.op == "json" and b.a[0].op == "adt":
            n += "(%s)" % b.a[0].a[1]
        return n
    return m.op


def spec(c, rule, crate, entry, variant=None, guards=(), writes=None, must=(), msgs=None, nmsg=0, pre=()):
    ps = some_paths(c, crate, entry, variant, pre)
    for i, g in enumerate(guards):
        req(c, ps, rule + ":guard", g, "%s::%s%s%s" % (crate, entry, "/" + variant if variant else "", "".join("/" + v for _, v in pre)) + " guard %d" % i)
    if writes is not None:
        writes_ok(c, ps, rule, writes, must)
    if msgs is not None:
        msgs_ok(c, ps, rule, msgs, nmsg)
    return ps


# message predicates
def m_exec(contract=None, body=None, funds=None, mode=None):
    """WasmMsg::Execute to `contract` with body predicate/variant."""
    def f(p, g):
        w = g.wasm("Execute")
        if w is None:
            return False
        d, b = w
        if contract is not None and not tmatch(p, d["contract_addr"], contract):
            return False
        if body is not None:
            if isinstance(body, str):
                if not (b.op == "adt" and b.a[1] == body):
                    return False
            elif body.__class__ is T:
                if b is not body:
                    return False
            elif not body(p, b):
                return False
        if funds is not None and not tmatch(p, d["funds"], funds):
            return False
        if mode is not None and g.mode != mode:
            return False
        return True
    return f


def tmatch(p, t, want):
    if want.__class__ is T:
        return same(t, want)
    return want(p, t)


def bfields(b, variant):
    """Fields of a json body's variant, or None."""
    if b.op == "adt" and b.a[1] == variant:
        return adt_fields(b)
    return None


def is_ld(t, ns, k=None):
    return t.op == "st" and t.a[0] == ns and (k is None or t.a[1] is k)


def setf(t, **kw):
    for n in sorted(kw):
        t = upd(t, n, kw[n])
    return t


def coins(denom, amount):
    """[Coin{denom, amount}]"""
    def f(p, t):
        if t.op == "call" and t.a[0].endswith("coins") and len(t.a) == 3:
            return same(t.a[1], amount) and t.a[2] is denom
        if t.op != "array" or len(t.a) != 1:
            return False
        x = t.a[0]
        if x.op != "adt":
            return x.op == "call" and x.a[0].endswith("coin") and same(x.a[1], amount) and x.a[2] is denom
        d = adt_fields(x)
        return d["denom"] is denom and same(d["amount"], amount)
    return f


# ---- loops ---------------------------------------------------------------------------------
def is_write(ns, kinds=("save", "remove")):
    return lambda x: x.kind in kinds and x.a[0].op == "str" and x.a[0].a[0] == ns


def each_iter(c, ps, rule, where, effpred, least=1, allow=None):
    """A loop that has the effect does it in every iteration, and a call that succeeds has run over
    all the elements (no early exit)."""
    seen, n = set(), 0
    tags, lists = set(), set()
    for e in {id(p.e): p.e for p in ps}.values():
        for tag, base, iters, h in e.loop_recs:
            k = (tag, base, tuple(b.eff for b in iters))
            if k in seen:
                continue
            seen.add(k)
            ds = []
            for b in iters:
                l, x = [], b.eff
                while x.op == "eff" and x is not base:
                    l.append(E.Eff(x))
                    x = x.a[0]
                ds.append((b, l))
            if not any(effpred(x) for _, l in ds for x in l):
                continue
            n += 1
            tags.add(tag)
            for b, l in ds:
                about = [y for x in l for y in x.a if y.__class__ is T] + [k for k in b.facts if k.__class__ is T]
                lists.update(z.a[0] for y in about for z in subterms(y) if z.op == "elem")
            for b, l in ds:
                if any(effpred(x) for x in l):
                    c.ob(True, rule, where)
                    continue
                if allow is not None and allow(P(e, b, UNIT, "", "", None)):
                    continue
                c.ob(False, rule, where, "an iteration of the loop at %s skips the effect" % tag, P(e, b, UNIT, "", "", None))
    for p in ps:
        if p.feasible() and (p.st.bk & tags):
            c.ob(False, rule, where + " (early exit)", "the loop is left early: %s" % sorted(p.st.bk & tags), p)
        if n and p.feasible() and not any(effpred(x) for x in p.effects):
            empty = lambda q: any(q.truth(t_eq(mk("len", l), I(0))) is True for l in lists)
            c.ob(p.entails(lambda q: empty(q) or allow is not None and allow(q)), rule, where + " (loop skipped)", "succeeds without the effect, with something to do it for", p)
    if least:
        c.ob(n >= least, rule, where + " (loop present)", "%d loops" % n)
    return n


def loop_iters(ps, effpred):
    """[(P of an iteration, its effects)] of the loops that have the effect."""
    seen, out = set(), []
    for e in {id(p.e): p.e for p in ps}.values():
        for tag, base, iters, h in e.loop_recs:
            k = (tag, base, tuple(b.eff for b in iters))
            if k in seen:
                continue
            seen.add(k)
            ds = []
            for b in iters:
                l, x = [], b.eff
                while x.op == "eff" and x is not base:
                    l.append(E.Eff(x))
                    x = x.a[0]
                ds.append((P(e, b, UNIT, "", "", None), l))
            if any(effpred(x) for _, l in ds for x in l):
                out += ds
    return out


def loop_left_early(p, crate_fn):
    return any(crate_fn in t for t in p.st.bk)


# ---- queries -------------------------------------------------------------------------------
def answers(crate, variant, entry="query"):
    """[(P, value)] : the values a query answers with, one per case (conditional values split)."""
    out = []
    for p in okpaths(crate, entry, variant):
        if not p.feasible():
            continue
        for q, (v,) in p.split(p.ret):
            if not q.feasible():
                continue
            if v.op == "json":
                v = v.a[0]
            out.append((q, v))
    return out


def answer_is(c, rule, crate, variant, want, entry="query"):
    """Every answer of the query is one of `want` (terms or predicates on (P, value))."""
    if want.__class__ is T or callable(want):
        want = [want]
    n = 0
    for p, v in answers(crate, variant, entry):
        n += 1
        c.ob(any(v is w if w.__class__ is T else w(p, v) for w in want), rule, "%s::%s/%s" % (crate, entry, variant), show(v)[:800], p)
    c.ob(n > 0, "anchor", "%s::%s/%s answers" % (crate, entry, variant), n)


# ---- decision procedures -------------------------------------------------------------------
class Ask(Exception):
    pass


class Oracle:
    """Answers a specification's questions from a path's facts; an open question forks the path."""

    def __init__(self, p):
        self.p = p

    def __call__(self, lit):
        t = self.p.truth(lit)
        if t is None:
            raise Ask(lit)
        return t

    def var(self, t, *vs):
        """Which of the variants vs (all but the last asked for)."""
        for v in vs[:-1]:
            if self(t_isv(t, v)):
                return v
        return vs[-1]


def outcomes(p, spec, cap=20000):
    """[(P, result)] of a specification (a function of an Oracle) on a path."""
    work, out = [p], []
    n = 0
    while work:
        q = work.pop()
        n += 1
        if n > cap:
            raise Limit("outcomes")
        try:
            r = spec(Oracle(q))
        except Ask as x:
            lit = x.args[0]
            for val in (True, False):
                for s in q.assume(lit, val):
                    if s.feasible():
                        work.append(s)
            continue
        if q.feasible():
            out.append((q, r))
    return out


def live(p, v, d=0):
    """[(P, value)]: the cases of a conditional value that are possible on the path."""
    ph = first_phi(v)
    if ph is None:
        return [(p, v)]
    out = []
    mus = [y for y in subterms(v) if y.op == "mu"]
    for s, x in p.cases_of(ph):
        q = p.on(s)
        if q.feasible():
            out.extend(live(q, subst(v, {ph: x}, {y: y for y in mus}), d + 1))
        if len(out) > 3000:
            raise Limit("live")
    return out


def agree(c, p, v, spec, eq, rule, where):
    """The value computed by the code is the one the specification asks for, in every case."""
    ok = True
    n = 0
    for q, r in outcomes(p, spec):
        for q2, x in live(q, v):
            n += 1
            if not eq(q2, x, r):
                if ok:
                    c.ob(False, rule, where, "code: %s, specified: %s" % (show(x)[:600], show(r)[:600] if r.__class__ is T else r), q2)
                ok = False
    if ok:
        c.ob(True, rule, where, "%d cases" % n)
    c.cases = getattr(c, "cases", 0) + n
    return ok


def length(l):
    return I(len(l.a)) if l.op == "array" else mk("len", l)


# ---- emitted messages against a specification ----------------------------------------------
def msg_cases(p):
    """[(P, [G])]: the messages of the response with all their conditional parts resolved."""
    out = []
    for q, gs in p.worlds():
        if not q.feasible():
            continue
        for q2, ms in q.split(*[g.msg for g in gs]):
            if q2.feasible():
                out.append((q2, [G(m, g.mode, g.id, g.each, g.maybe, g.conds) for m, g in zip(ms, gs)]))
    return out


def stored(p, ns, *k):
    """there is such an entry (as last looked up, whatever was written before)"""
    kk = key(*k)
    return any(t.op == "has" and t.a[0] == ns and t.a[1] is kk and v for t, v in lits_of(p))


def under(p, conds):
    """the path, with the conditions holding"""
    ss = [p.st]
    for x in conds:
        if x.op not in SOME_OF:
            ss = [s2 for s1 in ss for s2 in p.e.assume(s1, x, True)]
    return [q for q in (p.on(s) for s in ss) if q.feasible()]


def atoms(t):
    """the literals a condition is made of"""
    if t.op in ("not", "and", "conj", "dnf"):
        return [a for x in t.a for a in atoms(x)]
    return [t]


def agree_each(c, ps, lst, spec, rule, where):
    """The messages for the elements of a list: spec(oracle) -> [predicate], per element."""
    n, bad = 0, False
    for p in ps:
        if not p.feasible():
            continue
        for w, gs in p.worlds():
            if not w.feasible():
                continue
            gs = [g for g in gs if g.each is lst]
            ats = list(dict.fromkeys(a for g in gs for x in g.conds for a in atoms(x)))
            for q, want in outcomes(w, spec):
                for q1 in decided_atoms(q, ats):
                    here = []
                    for g in gs:
                        t = [q1.truth(x) for x in g.conds]
                        if all(x is True for x in t):
                            here.append(g)
                        elif not any(x is False for x in t):
                            want, here = False, [g]
                            break
                    n += 1
                    why = match_msgs(q1, [G(g.msg, g.mode, g.id) for g in here], want or []) if want is not False else "undecided"
                    if why:
                        if not bad:
                            c.ob(False, rule, where, "%s; for an element: %s" % (why, [repr(g)[:300] for g in here]), q1)
                        bad = True
    if not bad:
        c.ob(n > 0, rule, where, "%d cases" % n)
    c.cases = getattr(c, "cases", 0) + n
    return not bad


def decided_atoms(p, ats, i=0):
    while i < len(ats) and p.truth(ats[i]) is not None:
        i += 1
    if i == len(ats):
        return [p] if p.feasible() else []
    out = []
    for v in (True, False):
        for s in p.e.assume(p.st, ats[i], v):
            q = p.on(s)
            if q.feasible():
                out += decided_atoms(q, ats, i + 1)
    return out


class Each:
    """a message for every element of a list (none is due when the list is known to be empty)"""

    def __init__(self, lst, pred, ns=None, conds=()):
        self.lst, self.pred, self.ns, self.conds = lst, pred, ns, set(conds)

    def due(self, p):
        if self.ns is not None and (p.truth(has(self.ns)) is False or p.entails(t_not(has(self.ns)))):
            return False
        return True

    def is_(self, p, g):
        if g.each is None or (self.lst is not None and g.each is not self.lst) or set(g.conds) != self.conds:
            return False
        qs = under(p, g.conds)
        return bool(qs) and all(self.pred(q, g) for q in qs)


def match_msgs(p, gs, want, first=None):
    """The messages are exactly the wanted ones (predicates; Each for lists): None, or what is wrong."""
    left = list(range(len(gs)))
    for i, w in enumerate(want):
        if isinstance(w, Each):
            hit = [j for j in left if w.is_(p, gs[j])]
            if not hit and w.due(p):
                return "missing the message to each of a list"
            hit = hit[:1]
        else:
            hit = [j for j in left if gs[j].each is None and not gs[j].maybe and w(p, gs[j])]
            if not hit:
                return "missing its message %d" % i
            if first is not None and i == first and hit[0] != 0:
                return "message %d is not the first" % i
            hit = hit[:1]
        left = [j for j in left if j not in hit]
    if left:
        return "unexpected: %r" % gs[left[0]]
    return None


def agree_msgs(c, ps, spec, rule, where, first=None):
    """In every case of every successful path the emitted messages are the specified ones.
    spec(oracle) -> list of predicates / Each, or None when the call must not succeed there."""
    n, ok = 0, True
    for p in ps:
        if not p.feasible():
            continue
        for q, want in outcomes(p, spec):
            for q2, gs in msg_cases(q):
                n += 1
                if want is None:
                    why = "succeeds where it must fail"
                else:
                    why = match_msgs(q2, gs, want, first)
                if why:
                    if ok:
                        c.ob(False, rule, where, "%s; emitted: %s" % (why, [repr(g)[:300] for g in gs]), q2)
                    ok = False
    if ok:
        c.ob(n > 0, rule, where, "%d cases" % n)
    c.cases = getattr(c, "cases", 0) + n
    return ok


def holds(c, ps, spec, rule, where):
    """On every successful path the decision procedure says yes."""
    n, ok = 0, True
    for p in ps:
        if not p.feasible():
            continue
        for q, r in outcomes(p, spec):
            n += 1
            if not r:
                if ok:
                    c.ob(False, rule, where, "succeeds where the rule says no", q)
                ok = False
    if ok:
        c.ob(n > 0, rule, where, "%d cases" % n)
    c.cases = getattr(c, "cases", 0) + n
    return ok


def admits(c, ps, rule, where, *lits, free=None, loose=None, depth=12):
    """In every case where these hold the call succeeds; that the accounts named are accounts, and what `free`
    says, aside. What `loose` matches is not looked at: whichever way it turns out, it is taken to allow the call."""
    ok_ = lambda k: k.op in ("validaddr", "convertible") or free is not None and free(k)

    def bare(k):
        """the fact without what is not looked at; None if nothing is left of it"""
        if loose is None:
            return k
        if k.op != "dnf":
            return None if loose(k) else k
        cs = []
        for cj in k.a:
            ls = []
            for l in cj.a:
                x = bare(l.a[0] if l.op == "not" else l)
                if x is not None:
                    ls.append(l if x is (l.a[0] if l.op == "not" else l) else x if l.op != "not" else t_not(x))
            if not ls:
                return None
            cs.append(mk("conj", *ls))
        return mk("dnf", *cs)

    def asked(p):
        r = memo.get(p)
        if r is not None:
            return r
        r = []
        for k, v in lits_of(p):
            k = bare(k)
            if k is not None:
                r.append((k, v))
        for k, v in p.st.var.items():
            if v[0] == "is":
                l = t_isv(k, v[1])
                k, v = (l.a[0], False) if l.op == "not" else (l, True)
                if bare(k) is not None:
                    r.append((k, v))
        memo[p] = r
        return r
    memo = {}

    def clear(k):
        """the literals of a fact that are granted"""
        return [y for y in subterms(k) if y.op not in ("dnf", "conj", "not", "phi") and ok_(y)]
    ps = [p for p in ps if p.feasible()]
    if not c.ob(bool(ps), rule, where, "never succeeds"):
        return
    e = ps[0].e
    s0 = E.new_state()
    s0.var = {k: v for k, v in ps[0].st.var.items() if k is MSG}
    ss = [s0]
    fits = lambda s: P(e, s, UNIT, "", "", None).feasible()
    for l in lits:
        ss = [s2 for s in ss for s2 in e.assume(s, l, True)]
    ss = [s for s in ss if fits(s)]
    if not c.ob(bool(ss), rule, where, "a case that cannot arise"):
        return
    for l in dict.fromkeys(y for p in ps for k, v in asked(p) for y in ([k] if ok_(k) and v is True else clear(k) if k.op == "dnf" else [])):
        # what is granted, unless the case says otherwise
        ss = [s2 for s in ss for s2 in ([x for x in e.assume(s, l, True) if fits(x)] or [s])]

    def go(s, n):
        if not P(e, s, UNIT, "", "", None).feasible():
            return True
        undecided = None

        def some(cases):
            """a literal yet open, of a case not ruled out"""
            for ls in cases:
                ts = [(l, e.truth(s, l)) for l in ls]
                if all(t is not False for _, t in ts):
                    yield from (l for l, t in ts if t is None)

        def know(k):
            """(whether the literal holds, what to look at to find out)"""
            while True:
                t = e.truth(s, k)
                if t is not None:
                    return t, None
                l = None
                if k.op == "dnf":
                    l = next(some([x.a for x in k.a]), None)
                else:
                    ph = first_phi(k)
                    if ph is not None:
                        cs = [(cj, x) for cj, x in phi_cases(ph) if all(e.truth(s, y) is not False for y in cj.a)]
                        if len(cs) == 1:
                            k = subst(k, {ph: cs[0][1]})
                            if k is TRUE or k is FALSE:
                                return k is TRUE, None
                            if k.op == "not":
                                t, y = know(k.a[0])
                                return None if t is None else not t, y
                            continue
                        l = next(some([cj.a for cj, _ in cs]), None)
                if l is None:
                    return None, k
                t, y = know(l.a[0] if l.op == "not" else l)
                return None, y
        for p in ps:
            ts = []
            for k, v in asked(p):
                t, y = know(k)
                if t is not None and t is not v:
                    break
                if t is None:
                    ts.append(y)
            else:
                if not ts:
                    return True
                undecided = undecided or ts[0]
        if undecided is None or n == 0:
            return s
        for val in (True, False):
            for s2 in e.assume(s, undecided, val):
                r = go(s2, n - 1)
                if r is not True:
                    return r
        return True
    for s in ss:
        r = go(s, depth)
        c.ob(r is True, rule, where, "" if r is True else "refused though it is due", None if r is True else P(e, r, UNIT, "", "", None))


# ---- payments ------------------------------------------------------------------------------
def must_pay(denom):
    """the amount paid in exactly this coin (cw_utils::must_pay)"""
    for n in ("cw_utils::must_pay", "cw_utils::payment::must_pay"):
        yield mk("call", n, INFO, denom)


def lits_of(p):
    for k, v in p.st.facts.items():
        if k.__class__ is T:
            yield k, v


def m_send(to, denom, amount):
    """BankMsg::Send of one coin"""
    f = coins(denom, amount) if denom.__class__ is T else None

    def g(p, x):
        b = x.bank()
        return b is not None and tmatch(p, b[0], to) and f(p, b[1])
    return g


def m_cw20(token, body, **fields):
    """an execute of a cw20 body (Transfer, TransferFrom, Mint, ...) with just these fields"""
    def f(p, g):
        w = g.wasm("Execute")
        if w is None:
            return False
        d, b = w
        if not tmatch(p, d["contract_addr"], token) or not empty_list(d["funds"]):
            return False
        x = bfields(b, body)
        return x is not None and set(x) == set(fields) and all(tmatch(p, x[n], fields[n]) for n in fields)
    return f


def empty_list(t):
    return (t.op == "array" and not t.a) or t.op == "default"


def pays(denom, to, amount):
    """a transfer of `amount` of a checked denom to `to`: bank send or cw20 transfer, by its kind"""
    nat = m_send(to, payload(denom, "Native"), amount)
    c20 = m_cw20(payload(denom, "Cw20"), "Transfer", recipient=to, amount=amount)

    def f(p, g):
        k = kind_of(p, denom)
        if k == "Native":
            return nat(p, g)
        if k == "Cw20":
            return c20(p, g)
        return False
    return f


def kind_of(p, t):
    if t.op == "adt":
        return t.a[1]
    return p.variant_of(t)


# ---- library calls, deltas, histories --------------------------------------------------------
def succeeded(p, name, *args):
    """a library call of this name with these arguments (any others too) returned Ok"""
    for k, v in p.st.var.items():
        if k.op == "call" and v == ("is", "Ok") and k.a[0].rsplit("::", 1)[-1] == name and all(x in k.a for x in args):
            return True
    for k, v in lits_of(p):
        if v and k.op == "isv" and k.a[1] == "Ok" and k.a[0].op == "call" and k.a[0].a[0].rsplit("::", 1)[-1] == name and all(x in k.a[0].a for x in args):
            return True
    return False


def is_owner(p):
    """cw_ownable::assert_owner succeeded for the sender"""
    return succeeded(p, "assert_owner", SENDER)


def exts(p, name):
    """effects of a library call on storage"""
    return [x for x in p.effects if x.kind == "ext" and x.a[0].rsplit("::", 1)[-1] == name]


def plus(p, t, ns, k, amt):
    """t is what was stored plus amt (what was not stored counts zero)"""
    if any(same(t, t_add(amt, mk("st", ns, k, v))) for v in versions(t, ns, k)):
        return True
    return same(t, amt) and absent(p, ns, k)


def absent(p, ns, k):
    """nothing was stored there"""
    return any(t.op == "has" and t.a[0] == ns and t.a[1] is k and v is False for t, v in lits_of(p))


def minus(p, t, ns, k, amt):
    """t is what was stored less amt, which was not more"""
    for v in versions(t, ns, k):
        old = mk("st", ns, k, v)
        if same(t, t_sub(old, amt)):
            return p.truth(t_lt(old, amt)) is False or p.entails(t_not(t_lt(old, amt)))
    return absent(p, ns, k) and p.truth(t_eq(amt, I(0))) is True and (same(t, t_sub(I(0), amt)) or t is I(0))


def seen_now(q, ns, k):
    """the entry was looked up in this very iteration, after what the iterations before it did"""
    ts = [x for x in q.st.facts if x.__class__ is T] + list(q.st.var)
    return any(y.op in ("has", "st") and y.a[0] == ns and y.a[1] is k and y.a[2] != 0 for t in ts for y in subterms(t))


def versions(t, ns, k):
    vs = {x.a[2] for x in subterms(t) if x.op == "st" and x.a[0] == ns and x.a[1] is k}
    return vs or {0}


def at_height(o, ns, k, h):
    """the value of a snapshot at the asked height, or now; zero if there was none"""
    at = payload(h, "Some") if o(t_isv(h, "Some", OPT)) else HEIGHT
    return (mk("stat", ns, k, at, 0) if o(mk("hasat", ns, k, at, 0)) else I(0)), at


def heights_ok(c, ps, nss, rule, where):
    """snapshots are filed under the current block's height"""
    for p in ps:
        for x in p.effects:
            if x.kind == "height" and ns_of(x) in nss:
                c.ob(x.a[1] is HEIGHT, rule, where + " " + ns_of(x), show(x.a[1])[:200], p)


def ns_of(x):
    return x.a[0].a[0] if x.a[0].__class__ is T else x.a[0]


def valid_duration(d):
    """absent, or of a non-zero length"""
    def f(p):
        k = p.variant_of(d) if d.op != "adt" else d.a[1]
        if k == "None":
            return True
        x = payload(d, "Some")
        u = kind_of(p, x)
        return k == "Some" and u is not None and p.truth(t_eq(payload(x, u), I(0))) is False
    return f


def per(c, p, spec, judge, rule, where):
    """judge(P, result) must be true in every outcome of the specification on the path"""
    n, ok = 0, True
    for q, r in outcomes(p, spec):
        n += 1
        w = judge(q, r)
        if w is not True:
            if ok:
                c.ob(False, rule, where, w, q)
            ok = False
    if ok:
        c.ob(True, rule, where, "%d cases" % n)
    c.cases = getattr(c, "cases", 0) + n
    return ok


def settle(p):
    """The path with the conditional values in its facts replaced by the case that applies, where the
    path decides it."""
    memo = {}

    def pick(t):
        """t with every decided conditional replaced; None if undecided"""
        while True:
            ph = first_phi(t)
            if ph is None:
                return t
            r = memo.get(ph)
            if r is None:
                cs = [v for c, v in phi_cases(ph) if any(p.on(s).feasible() for s in p.case(c))]
                r = memo[ph] = cs[0] if len(cs) == 1 else False
            if r is False:
                return None
            t = subst(t, {ph: r})
    st = p.st
    ss = [st]
    for k, v in list(st.facts.items()):
        if k.__class__ is T and k.op not in ("dnf",) and first_phi(k) is not None:
            n = pick(k)
            if n is not None and n is not k:
                ss = [s2 for s in ss for s2 in p.e.assume(s, n, v)]
    for k, v in list(st.var.items()):
        if first_phi(k) is not None:
            n = pick(k)
            if n is not None and n is not k and v[0] == "is":
                ss = [s2 for s in ss for s2 in p.e.assume(s, t_isv(n, v[1]), True)]
    out = []
    for s in ss:
        for k, v in list(s.facts.items()):
            if v is True and k.__class__ is T and k.op == "dnf":
                cs = [x for x in k.a if any(p.on(z).feasible() for z in p.on(s).case(x))]
                if len(cs) == 1 and any(p.e.truth(s, l) is None for l in cs[0].a):
                    for z in p.on(s).case(cs[0]):
                        if p.on(z).feasible():
                            out.extend(settle(p.on(z)))
                    break
        else:
            if p.on(s).feasible():
                out.append(p.on(s))
    return out


def narrow(p, *ts):
    """[(P, terms)]: the path and the terms without the cases its plain facts exclude, and without the conditions
    they settle"""
    memo = {}
    st = p.st

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not any(x.__class__ is T for x in t.a):
            r = t
        elif t.op in ("phi", "dnf"):
            cs = []
            for c, v in (phi_cases(t) if t.op == "phi" else [(c, TRUE) for c in t.a]):
                ls = []
                for l in c.a:
                    l = go(l)
                    x = TRUE if l.op == "dnf" and not l.a else l
                    x = x if x in (TRUE, FALSE) else p.e.truth(st, x)
                    if x is False or x is FALSE:
                        break
                    if x is None:
                        ls.append(l)
                else:
                    cs.append((conj(ls), go(v)))
            if t.op == "dnf":
                r = TRUE if any(not c.a for c, _ in cs) else mk("dnf", *sorted({c for c, _ in cs}, key=lambda x: x.id)) if cs else t
            else:
                whole = [v for c, v in cs if not c.a]
                r = whole[0] if whole else phi(cs) if cs else t
        else:
            a = [go(x) if x.__class__ is T else x for x in t.a]
            r = t if all(x is y for x, y in zip(a, t.a)) else REBUILD[t.op](a) if t.op in REBUILD else mk(t.op, *a)
        memo[t] = r
        return r
    s = st.copy()
    new = []
    for k, v in list(st.facts.items()):
        if k.__class__ is not T or not (k.op == "dnf" or first_phi(k) is not None):
            continue
        n = go(k)
        if n is k:
            continue
        s.facts = {k2: v2 for k2, v2 in s.facts.items() if k2 is not k}
        if n is TRUE and v is True:
            continue
        new.append((n, v))
    for k, v in list(st.var.items()):
        n = go(k)
        if n is not k and v[0] == "is":
            new.append((t_isv(n, v[1]), True))
    ss = [s]
    for n, v in new:
        if n.op == "dnf" and v is True and len(n.a) == 1:
            ss = [s3 for s2 in ss for s3 in p.on(s2).case(n.a[0])]
        elif n.op == "dnf" or first_phi(n) is not None:
            for s2 in ss:
                s2.facts[n] = v
        else:
            ss = [s3 for s2 in ss for s3 in p.e.assume(s2, n, v)]
    return [(p.on(s), tuple(go(t) for t in ts)) for s in ss if p.on(s).feasible()]


# ---- minima and floored differences ------------------------------------------------------------
CHOICE = ("min", "max", "satsub")


def choice(t):
    """an innermost minimum, maximum or floored difference in t (not inside a library call or a condition)"""
    best, st, seen = None, [t], set()
    while st:
        x = st.pop()
        if x in seen or x.op in ("dnf", "phi", "call"):
            continue
        seen.add(x)
        if x.op in CHOICE:
            best = x
            st, seen = [y for y in x.a], set()
            continue
        st.extend(y for y in x.a if y.__class__ is T)
    return best


def resolve(p, *ts):
    """[(P, terms)]: the path split by which side every minimum, maximum and floored difference in the
    terms (and in what the path knows) is, so that only plain sums remain."""
    x = None
    for t in ts:
        x = x or choice(t)
    if x is None:
        for k, v in p.st.facts.items():
            if k.__class__ is T and k.op in ("eq", "lt") and first_phi(k) is None:
                x = x or choice(k)
    if x is None:
        return [(p, ts)]
    a, b = x.a
    out = []
    d = t_sub(a, b)
    for less_, more, rs in ((True, False, {"min": [a], "max": [b], "satsub": [I(0)]}), (False, True, {"min": [b], "max": [a], "satsub": [d]}), (False, False, {"min": [a, b], "max": [a, b], "satsub": [I(0), d]})):
        for q in (q2 for q1 in p.assume(t_lt(a, b), less_) for q2 in q1.assume(t_lt(b, a), more)):
            ss = [q.st.copy()]
            for k, v in list(q.st.facts.items()):
                if k.__class__ is T and k.op in ("eq", "lt"):
                    ns = [subst(k, {x: r}) for r in rs[x.op]]
                    if ns[0] is not k:
                        for s in ss:
                            s.facts = {k2: v2 for k2, v2 in s.facts.items() if k2 is not k}
                        for n in ns:
                            ss = [s2 for s in ss for s2 in p.e.assume(s, n, v)]
            for s in ss:
                q2 = p.on(s)
                if q2.feasible():
                    out.extend(resolve(q2, *[subst(t, {x: rs[x.op][0]}) for t in ts]))
    return out


def any_choice(ts):
    """an innermost minimum, maximum or floored difference anywhere in the terms, conditions too"""
    best, st, seen = None, list(ts), set()
    while st:
        x = st.pop()
        if x in seen or x.op == "call":
            continue
        seen.add(x)
        if x.op in CHOICE:
            best = x
            st, seen = [y for y in x.a], set()
            continue
        st.extend(y for y in x.a if y.__class__ is T)
    return best


def decide_choices(p, *ts):
    """[(P, terms)]: like resolve, but also in the conditions of conditional values; at a tie the second
    side stands for both"""
    x = any_choice([*ts, *(k for k in p.st.facts if k.__class__ is T), *p.st.var])
    if x is None:
        return [(p, ts)]
    a, b = x.a
    out = []
    for val in (True, False):
        r = {"min": (b, a), "max": (a, b), "satsub": (t_sub(a, b), I(0))}[x.op][val]
        for q in p.assume(t_lt(a, b), val):
            ss = [q.st.copy()]
            for k, v in list(q.st.facts.items()):
                if k.__class__ is not T:
                    continue
                n = subst(k, {x: r})
                if n is k:
                    continue
                for s in ss:
                    s.facts = {k2: v2 for k2, v2 in s.facts.items() if k2 is not k}
                if n.op == "dnf" or first_phi(n) is not None:
                    for s in ss:
                        s.facts[n] = v
                else:
                    ss = [s2 for s in ss for s2 in p.e.assume(s, n, v)]
            for k, v in list(q.st.var.items()):
                n = subst(k, {x: r})
                if n is not k and v[0] == "is":
                    ss = [s2 for s in ss for s2 in p.e.assume(s, t_isv(n, v[1]), True)]
            for s in ss:
                q2 = p.on(s)
                if q2.feasible():
                    out.extend(decide_choices(q2, *[subst(t, {x: r}) for t in ts]))
    return out


def least(o, a, b):
    return a if o(t_lt(a, b)) else b


def less(o, a, b):
    """a - b, or nothing"""
    return I(0) if o(t_lt(a, b)) else t_sub(a, b)


def equals(p, x, y):
    """the same amount on this path"""
    return same(x, y) or p.truth(t_eq(x, y)) is True or (p.truth(t_lt(x, y)) is False and p.truth(t_lt(y, x)) is False)


# ---- linear constraints ------------------------------------------------------------------------
def constraints(p):
    """what the path knows about sums of amounts: [(coefficients, constant, strict)], meaning
    sum + constant >= 0 (> 0 if strict); amounts are unsigned"""
    out, atoms_ = [], set()

    def add(hi, lo, strict):
        d = lin(hi)
        for k, n in lin(lo).items():
            d[k] = d.get(k, 0) - n
        c = d.pop(1, 0)
        d = {k: n for k, n in d.items() if n}
        atoms_.update(d)
        out.append((d, c, strict))
    for k, v in lits_of(p):
        if k.op == "lt":
            add(k.a[1], k.a[0], True) if v else add(k.a[0], k.a[1], False)
        elif k.op == "eq" and v:
            add(k.a[0], k.a[1], False)
            add(k.a[1], k.a[0], False)
        elif k.op == "eq" and I(0) in k.a:
            add(k.a[1] if k.a[0] is I(0) else k.a[0], I(0), True)
    out.extend(({a: 1}, 0, False) for a in atoms_)
    return out


def empty(cs, cap=3000):
    """the polyhedron is empty (by elimination; gives up, answering no, on a large one)"""
    cs = {(tuple(sorted(((id(k), n) for k, n in d.items()))), c, s) for d, c, s in cs}
    while True:
        for d, c, s in cs:
            if not d and (c < 0 or c == 0 and s):
                return True
        occ = {}
        for d, _, _ in cs:
            for k, n in d:
                o = occ.setdefault(k, [0, 0])
                o[n > 0] += 1
        if not occ:
            return False
        x = min(occ, key=lambda k: occ[k][0] * occ[k][1] - sum(occ[k]))
        pos, neg, rest = [], [], set()
        for d, c, s in cs:
            n = dict(d).get(x, 0)
            (pos if n > 0 else neg).append((dict(d), c, s, abs(n))) if n else rest.add((d, c, s))
        for d1, c1, s1, n1 in pos:
            for d2, c2, s2, n2 in neg:
                d = {k: d1.get(k, 0) * n2 + d2.get(k, 0) * n1 for k in {*d1, *d2} if k != x}
                d = tuple(sorted((k, n) for k, n in d.items() if n))
                rest.add((d, c1 * n2 + c2 * n1, s1 or s2))
        if len(rest) > cap:
            return False
        cs = rest


def impossible(p):
    """what the path knows about amounts cannot all be true"""
    return empty(constraints(p))


def merged(p, *ts):
    """the terms with one name for things the path knows to be the same"""
    m = {}
    for k, v in lits_of(p):
        if k.op == "lt" and v is False and first_phi(k) is None and k.a[0].op != "int" and k.a[1].op != "int" and p.truth(t_lt(k.a[1], k.a[0])) is False:
            a, b = sorted(k.a, key=lambda z: z.id)
            m.setdefault(b, a)
    return [subst(t, m) for t in ts] if m else ts


def amounts_equal(p, x, y):
    """the path leaves no room for a difference"""
    if equals(p, x, y):
        return True
    x, y = merged(p, x, y)
    if equals(p, x, y):
        return True
    cs = constraints(p)
    d = lin(x)
    for k, n in lin(y).items():
        d[k] = d.get(k, 0) - n
    c = d.pop(1, 0)
    d = {k: n for k, n in d.items() if n}
    return empty(cs + [(d, c, True)]) and empty(cs + [({k: -n for k, n in d.items()}, -c, True)])
