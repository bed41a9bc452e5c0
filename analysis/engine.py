"""Abstract interpreter over the monomorphised MIR dumped by /verif/driver.

Domain: every local holds a hash-consed value term (value numbering); every path carries the
set of *established facts* (branch literals over canonical atoms and known enum variants) and
the ordered list of *effects* (storage writes).  Joins intersect facts; loops are widened with
`mu` terms; references to shared data are transparent, mutable references are pointers into
the abstract memory.  No solver is involved: a fact holds on a path only because a branch of
the program established it.  Calls are resolved by rustc; functions of the workspace are
inlined, library functions are either modelled (models.py) or opaque terms.
"""
import json
import os
import re
import sys

from terms import *

sys.setrecursionlimit(20000)


class Limit(Exception):
    pass


_norm_cache = {}


def norm(p):
    """Path without generic arguments: `cw_storage_plus::Item::<'a, T>::load` -> `cw_storage_plus::Item::load`."""
    r = _norm_cache.get(p)
    if r is None:
        out, depth = [], 0
        i = 0
        # leading <A as B>::m keeps its head readable
        q = p
        m = re.match(r"^<(.*) as (.*)>::(\w+)$", p)
        if m:
            q = m.group(2) + "::" + m.group(3)
        for c in q:
            if c == "<":
                depth += 1
            elif c == ">":
                depth -= 1
            elif depth == 0:
                out.append(c)
        r = "".join(out).replace("::::", "::").strip(":")
        _norm_cache[p] = r
    return r


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.fns = d["fns"]
        self.types = d["types"]
        self.adts = d["adts"]
        self.roots = d["roots"]
        for i, f in enumerate(self.fns):
            f["id"] = i
            f["np"] = norm(f["p"])
            f["ntr"] = norm(f["tr"]) if "tr" in f else None
        self.consts = {}
        self.byname = {}
        for i in self.roots:
            f = self.fns[i]
            if f["k"] == "fn":
                self.byname.setdefault(f["p"], []).append(i)

    def variants(self, adt):
        a = self.adts.get(adt)
        return [v[0] for v in a["v"]] if a else None

    def find(self, suffix):
        """Local root function whose path ends with suffix (module path), fail closed if not unique."""
        c = [i for p, l in self.byname.items() for i in l if p == suffix or p.endswith("::" + suffix)]
        if len(c) != 1:
            raise KeyError("%s: %d functions match %r" % (self.crate, len(c), suffix))
        return c[0]


class State:
    __slots__ = ("mem", "facts", "var", "eff", "stw", "ver", "lm", "bk")

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.var = dict(self.var)
        s.eff = self.eff
        s.stw = dict(self.stw)
        s.ver = dict(self.ver)
        s.lm = self.lm
        s.bk = self.bk
        return s


def new_state():
    s = State()
    s.mem, s.facts, s.var, s.eff, s.stw, s.ver, s.lm = {}, {}, {}, UNIT, {}, {}, None
    s.bk = frozenset()
    return s


NOT_ = "not"


def t_not(t):
    if t.op == "not":
        return t.a[0]
    if t.op == "int":
        return FALSE if t.a[0] else TRUE
    return mk("not", t)


def _lits(t):
    return t.op in ("int", "str")


ADT_OF = {}
CF = "std::ops::ControlFlow"


def t_isv(t, v, adtp=None):
    """Literal: enum value t is variant v (binary enums of the library have one spelling)."""
    if adtp is not None:
        ADT_OF.setdefault(t, adtp)
    if t.op == "adt":
        return TRUE if t.a[1] == v else FALSE
    if (v == "None" or v == "Err") and ADT_OF.get(t, adtp) in (None, OPT, RES):
        return t_not(mk("isv", t, PAIR[v]))
    return mk("isv", t, v)


BOOLS = ("eq", "lt", "isv", "not", "and", "has", "iany", "dnf")


def t_eq(a, b):
    if a is b:
        return TRUE
    if _lits(a) and _lits(b):
        return FALSE
    if b.op == "int" and a.op in BOOLS:
        a, b = b, a
    if a.op == "int" and b.op in BOOLS and a.a[0] in (0, 1):
        return b if a.a[0] else t_not(b)
    if a.op in BOOLS and b.op in BOOLS:
        return t_or(t_and(a, b), t_and(t_not(a), t_not(b)))
    if b.op == "adt" and a.op != "adt":
        a, b = b, a
    if a.op == "adt":
        if b.op == "adt":
            if a.a[1] != b.a[1]:
                return FALSE
            c = TRUE
            bf = adt_fields(b)
            for n, v in adt_fields(a).items():
                c = t_and(c, t_eq(v, bf.get(n, v)))
            return c
        if not a.a[2]:
            return t_isv(b, a.a[1], a.a[0])
        if a.a[0] == OPT and a.a[1] == "Some":
            return t_and(t_isv(b, "Some", OPT), t_eq(a.a[3], payload(b, "Some")))
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
        c = TRUE
        for x, y in zip(a.a, b.a):
            c = t_and(c, t_eq(x, y))
        return c
    if a.op in _LIN or b.op in _LIN:
        a, b = _diff(a, b)
        if a is b:
            return TRUE
        if _lits(a) and _lits(b):
            return FALSE
    for x, y in ((a, b), (b, a)):
        if kept(x) and y is I(0) and largest(x.a[0]):
            return FALSE
        if kept(x) and y is I(1) and largest(x.a[0]):
            return t_not(t_lt(y, x))
        if kept(x) and y.op == "len" and y.a[0] is x.a[0].a[0]:
            return t_not(mk("iany", y.a[0], t_not(x.a[0].a[1])))    # none was left out
    if b.id < a.id:
        a, b = b, a
    return mk("eq", a, b)


def largest(l):
    """those of a list that are its maximum: there is one, where there is a maximum"""
    w, c = l.a
    w = w.a[0] if w.op == "enumerate" else w
    x, m = mk("elem", w), payload(mk("imax", w), "Some")
    return c.op == "eq" and (c.a[0] is x and c.a[1] is m or c.a[0] is m and c.a[1] is x)


def biggest(t):
    return t.op == "const" and str(t.a[0]).startswith("cosmwasm_std::Uint") and str(t.a[0]).endswith("::MAX")


def kept(t):
    """the number of some of a list's elements"""
    return t.op == "len" and t.a[0].op == "ifilter"


def t_lt(a, b):
    """a < b"""
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if b.op == "int" and b.a[0] == 0:
        return FALSE  # unsigned
    if a.op == "int" and a.a[0] == 0:
        return t_not(t_eq(b, a))
    if b.op == "int" and b.a[0] == 1:
        return t_eq(a, I(0))
    if a.op in _LIN or b.op in _LIN:
        x, y = _diff(a, b)
        if x is not a or y is not b:
            return t_lt(x, y)
        if b.op == "add" and _LINC[b][1] == 1:
            return t_not(t_lt(t_sub(b, I(1)), a))  # a < y + 1
    if biggest(b):
        return t_not(t_eq(a, b))
    if biggest(a):
        return FALSE
    if kept(a) and b.op == "len" and b.a[0] is a.a[0].a[0]:
        return t_not(t_eq(a, b))
    if kept(b) and a.op == "len" and a.a[0] is b.a[0].a[0]:
        return FALSE
    return mk("lt", a, b)


def t_le(a, b):
    return t_not(t_lt(b, a))


def t_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return mk("and", a, b)


def t_or(a, b):
    return t_not(t_and(t_not(a), t_not(b)))


_LIN = ("add", "sub", "mul")
_LINC = {}


def _lin(t):
    """({atom: coefficient}, constant) of a sum. Sums are exact where the code gets past them
    (overflow and underflow fail the transaction), so any order of the additions is the same value."""
    r = _LINC.get(t)
    if r is None:
        if t.op == "int":
            r = ({}, t.a[0])
        elif t.op == "add":
            r = _comb(_lin(t.a[0]), _lin(t.a[1]), 1)
        elif t.op == "sub":
            r = _comb(_lin(t.a[0]), _lin(t.a[1]), -1)
        elif t.op == "mul" and t.a[0].op == "int":
            r = _comb(({}, 0), _lin(t.a[1]), t.a[0].a[0])
        else:
            r = ({t: 1}, 0)
        _LINC[t] = r
    return r


def _comb(x, y, k):
    d = dict(x[0])
    for t, n in y[0].items():
        n = d.get(t, 0) + k * n
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return (d, x[1] + k * y[1])


def _sum(l, c):
    """Canonical sum of [(atom, positive coefficient)] and a constant."""
    l = sorted(l, key=lambda x: x[0].id)
    r = I(c) if c or not l else None
    for t, n in l:
        x = t if n == 1 else mk("mul", I(n), t)
        r = x if r is None else mk("add", r, x)
    return r


def _build(l):
    d, c = l
    pos = _sum([(t, n) for t, n in d.items() if n > 0], max(c, 0))
    if c >= 0 and all(n > 0 for n in d.values()):
        r = pos
    else:
        r = mk("sub", pos, _sum([(t, -n) for t, n in d.items() if n < 0], max(-c, 0)))
    _LINC.setdefault(r, l)
    return r


def _diff(a, b):
    """a ? b with everything common cancelled."""
    d, c = _comb(_lin(a), _lin(b), -1)
    x = _sum([(t, n) for t, n in d.items() if n > 0], max(c, 0))
    y = _sum([(t, -n) for t, n in d.items() if n < 0], max(-c, 0))
    for t in (x, y):
        _lin(t)
    return x, y


def t_add(a, b):
    return _build(_comb(_lin(a), _lin(b), 1))


def t_sub(a, b):
    return _build(_comb(_lin(a), _lin(b), -1))


def t_mul(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.a[0] * b.a[0])
    if a is I(1):
        return b
    if b is I(1):
        return a
    if a.op == "int" or b.op == "int":
        k, t = (a, b) if a.op == "int" else (b, a)
        return _build(_comb(({}, 0), _lin(t), k.a[0])) if k.a[0] else I(0)
    if a.op == "mul" and a.a[0].op == "int" or b.op == "mul" and b.a[0].op == "int":
        k, fs = 1, []
        for x in (a, b):
            if x.op == "mul" and x.a[0].op == "int":
                k, x = k * x.a[0].a[0], x.a[1]
            fs.append(x)
        return t_mul(I(k), t_mul(*fs))
    fs = sorted(_factors(a) + _factors(b), key=lambda x: x.id)
    r = fs[0]
    for x in fs[1:]:
        r = mk("mul", r, x)
    return r


def _factors(t):
    return _factors(t.a[0]) + _factors(t.a[1]) if t.op == "mul" else [t]


def t_div(a, b):
    if b is I(1) or a is I(0):
        return a
    return mk("div", a, b)


PAIR = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}


class Engine:
    SMALL = 4
    MAXOUT = 4
    JOIN = 24
    HARD = 6000

    totals = True     # counters of loops become lengths and sums

    def __init__(self, prog, opaque=()):
        self.p = prog
        self.opaque = set(opaque)
        self.frame = 0
        self.heap = 0
        self.const_cache = {}
        self.loops = {}
        self.loop_recs = []
        self.spelled = []    # whether the loops being opened run over lists spelled out
        self.watch = ()           # enum types whose values are recorded when a function returns one
        self.returned = []
        self.iters = []
        self.open = []
        import models
        self.elem = models.elem
        self.count = models.count
        self.stats = {"fns": set(), "blocks": 0, "calls": 0, "opaque": {}, "capped": set()}
        self.depth = 0
        self.stack = []
        self.trace = None
        import models

        self.models = models.TABLE
        self.prefix_models = models.PREFIX

    # ---- facts ---------------------------------------------------------------------------
    def variant(self, st, t):
        if t.op == "adt":
            return t.a[1]
        v = st.var.get(t)
        if v is not None and v[0] == "is":
            return v[1]
        if t.op == "phi":
            r = set()
            for c, x in self.live_cases(st, t):
                w = self.variant(st, x)
                r.add(w)
                if w is None or len(r) > 1:
                    return None
            return r.pop() if r else None
        return None

    def live_cases(self, st, t):
        """Cases of a phi whose condition is consistent with the facts of the state."""
        return [(c, x) for c, x in phi_cases(t) if all(self.truth(st, l) is not False for l in c.a)]

    def excluded(self, st, t):
        v = st.var.get(t)
        return v[1] if v is not None and v[0] == "not" else frozenset()

    def truth(self, st, t):
        o = t.op
        if o == "int":
            return t.a[0] != 0
        if o == "not":
            r = self.truth(st, t.a[0])
            return None if r is None else not r
        if o == "and":
            a, b = self.truth(st, t.a[0]), self.truth(st, t.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if o == "isv":
            v = self.variant(st, t.a[0])
            if v is not None:
                return v == t.a[1]
            if t.a[1] in self.excluded(st, t.a[0]):
                return False
            return None
        r = st.facts.get(t)
        if r is not None:
            return r
        if o == "phi":
            r = set()
            for c, x in self.live_cases(st, t):
                w = self.truth(st, x)
                r.add(w)
                if w is None or len(r) > 1:
                    return None
            return r.pop() if r else None
        if o == "dnf":
            some = False
            for c in t.a:
                r = True
                for l in c.a:
                    w = self.truth(st, l)
                    if w is False:
                        break
                    if w is None:
                        r = None
                else:
                    if r:
                        return True
                    some = True
            return None if some else False
        if o == "eq":
            a, b = t.a
            if st.facts.get(mk("lt", a, b)) or st.facts.get(mk("lt", b, a)):
                return False
            for x, y in ((a, b), (b, a)):
                if y.op == "adt" and x.op != "adt":
                    w = self.variant(st, x)
                    if (w is not None and w != y.a[1]) or (w is None and y.a[1] in self.excluded(st, x)):
                        return False
                if _lits(y):
                    e = st.facts.get(("=", x))
                    if e is not None:
                        return e is y
            if st.facts.get(mk("lt", a, b)) is False and st.facts.get(mk("lt", b, a)) is False:
                return True
        elif o == "lt":
            a, b = t.a
            if st.facts.get(mk("lt", b, a)):
                return False
            e = t_eq(a, b)
            if e.op == "eq":
                w = st.facts.get(e)
                if w:
                    return False
                if w is False and st.facts.get(mk("lt", b, a)) is False:
                    return True
            # constants: x = c known
            ea, eb = a, b
            if st.facts.get(("=", a)) is not None:
                ea = st.facts[("=", a)]
            if st.facts.get(("=", b)) is not None:
                eb = st.facts[("=", b)]
            if ea.op == "int" and eb.op == "int":
                return ea.a[0] < eb.a[0]
        return None

    def set_variant(self, st, t, v):
        st.var[t] = ("is", v)

    def assume(self, st, t, val):
        """States in which t has truth value val (st is not modified)."""
        r = self.truth(st, t)
        if r is not None:
            return [st] if r == val else []
        o = t.op
        if o == "not":
            return self.assume(st, t.a[0], not val)
        if o == "and":
            if val:
                return [s2 for s1 in self.assume(st, t.a[0], True) for s2 in self.assume(s1, t.a[1], True)]
            out = self.assume(st, t.a[0], False)
            for s1 in self.assume(st, t.a[0], True):
                out = out + self.assume(s1, t.a[1], False)
            return out
        if o == "isv":
            return self.assume_variant(st, t.a[0], t.a[1], ADT_OF.get(t.a[0]), val)
        s = st.copy()
        s.facts[t] = val
        if o == "phi":
            cs = [(c, x) for c, x in self.live_cases(st, t) if self.truth(st, x) is not (not val)]
            if not cs:
                return []
            return self.only_case(s, cs, lambda s1, x: self.assume(s1, x, val))
        if o == "eq" and val:
            a, b = t.a
            if _lits(b):
                s.facts[("=", a)] = b
            elif _lits(a):
                s.facts[("=", b)] = a
        return [s]

    def assume_variant(self, st, t, v, adtp, val):
        cur = self.variant(st, t)
        if cur is not None:
            return [st] if (cur == v) == val else []
        exc = self.excluded(st, t)
        if v in exc:
            return [st] if not val else []
        if t.op == "mu":
            # loop-carried value: any variant is possible, the fact stays about the mu term
            pass
        if t.op == "phi":
            cs = []
            for c, x in self.live_cases(st, t):
                w = self.variant(st, x)
                if (w is None and (v in self.excluded(st, x)) != val) or (w is not None and (w == v) == val):
                    cs.append((c, x))
            if not cs:
                return []
            s = st.copy()
            self.note_variant(s, t, v, adtp, val)
            return self.only_case(s, cs, lambda s1, x: self.assume_variant(s1, x, v, adtp, val))
        s = st.copy()
        return [s] if self.note_variant(s, t, v, adtp, val) else []

    def only_case(self, s, cs, then):
        """If a single case is possible its condition holds."""
        if len(cs) != 1:
            return [s]
        c, x = cs[0]
        ss = [s]
        for l in c.a:
            ss = [s2 for s1 in ss for s2 in self.assume(s1, l, True)]
        return [s2 for s1 in ss for s2 in then(s1, x)]

    def note_variant(self, s, t, v, adtp, val):
        if adtp is not None:
            ADT_OF.setdefault(t, adtp)
        exc = self.excluded(s, t)
        if val:
            s.var[t] = ("is", v)
        else:
            e = exc | {v}
            vs = self.p.variants(adtp)
            if vs is None and v in PAIR:
                s.var[t] = ("is", PAIR[v])
            else:
                rest = [x for x in vs or () if x not in e]
                if vs and len(rest) == 1:
                    s.var[t] = ("is", rest[0])
                elif vs and not rest:
                    return False
                else:
                    s.var[t] = ("not", frozenset(e))
        return True

    # ---- memory --------------------------------------------------------------------------
    def deref(self, st, v):
        n = 0
        while v.op == "mref":
            v = self.read_loc(st, v.a[0], v.a[1:])
            n += 1
            if n > 50:
                raise Limit("deref")
        return v

    def read_loc(self, st, cell, projs):
        v = st.mem.get(cell)
        if v is None:
            v = mk("undef", cell)
        for p in projs:
            v = self.project(st, v, p)
        return v

    def project(self, st, v, p):
        if v.op == "mref":
            if p.__class__ is tuple and v.a[-1:] != ():
                pass
            v = self.deref(st, v)
        k = p[0]
        if k == "f":
            return fld(v, p[1])
        if k == "v":
            return as_(v, p[1])
        if k == "i":
            return self.index(v, p[1])
        if k == "h":
            return v.a[2] if v.op == "hmins" and v.a[1] is p[1] else payload(mk("hmget", v, p[1]), "Some")
        if k == "c":
            return self.index(v, I(p[1])) if not p[2] else mk("idxend", v, p[1])
        return mk("proj", v, str(p))

    def index(self, v, i):
        if v.op == "array" and i.op == "int" and i.a[0] < len(v.a):
            return v.a[i.a[0]]
        if v.op == "ifilter" and i is I(0):
            return payload(mk("first", v), "Some")
        return mk("idx", v, i)

    def loc(self, st, fr, place):
        """Resolve a place to (cell, projs)."""
        cell = (fr << 12) | place[0]
        projs = []
        for e in place[1:]:
            if e == "*":
                v = self.read_loc(st, cell, projs)
                if v.op == "mref":
                    cell, projs = v.a[0], list(v.a[1:])
                # shared reference or opaque: transparent
            elif e[0] == "f":
                v = st.mem.get(cell)
                projs.append(("f", e[1]))
            elif e[0] == "v":
                projs.append(("v", e[1]))
            elif e[0] == "i":
                projs.append(("i", self.deref(st, st.mem.get((fr << 12) | e[1], UNIT))))
            elif e[0] == "c":
                projs.append(("c", e[1], e[2]))
            else:
                projs.append(("x", str(e)))
        return cell, projs

    def read(self, st, fr, place):
        cell = (fr << 12) | place[0]
        v = st.mem.get(cell)
        if v is None:
            v = mk("undef", cell & 4095)
        for e in place[1:]:
            if e == "*":
                if v.op == "mref":
                    v = self.read_loc(st, v.a[0], v.a[1:])
                continue
            if v.op == "mref":
                # field of a Box / pointer wrapper: keep the pointer
                if e[0] == "f" and e[1] in ("0", "pointer", "ptr"):
                    continue
                v = self.deref(st, v)
            if e[0] == "f":
                v = fld(v, e[1])
            elif e[0] == "v":
                v = as_(v, e[1])
            elif e[0] == "i":
                v = self.index(v, self.deref(st, st.mem.get((fr << 12) | e[1], UNIT)))
            elif e[0] == "c":
                v = self.index(v, I(e[1])) if not e[2] else mk("idxend", v, e[1])
            else:
                v = mk("proj", v, str(e))
        return v

    def write_into(self, st, base, projs, v):
        if not projs:
            return v
        p = projs[0]
        if base.op == "mref":
            self.write_loc(st, base.a[0], list(base.a[1:]) + list(projs), v)
            return base
        if p[0] == "f":
            return upd(base, p[1], self.write_into(st, fld(base, p[1]), projs[1:], v))
        if p[0] == "v":
            if base.op == "adt":
                return self.write_into(st, base, projs[1:], v)
            inner = as_(base, p[1])
            return self.write_into(st, inner, projs[1:], v)
        if p[0] == "i" or p[0] == "c":
            i = p[1] if p[0] == "i" else I(p[1])
            nv = self.write_into(st, self.index(base, i), projs[1:], v)
            if base.op == "array" and i.op == "int" and i.a[0] < len(base.a):
                return mk("array", *(base.a[: i.a[0]] + (nv,) + base.a[i.a[0] + 1:]))
            return mk("setidx", base, i, nv)
        if p[0] == "h":
            nv = self.write_into(st, self.project(st, base, p), projs[1:], v)
            while base.op == "hmins" and base.a[1] is p[1]:
                base = base.a[0]
            return mk("hmins", base, p[1], nv)
        return mk("mutproj", base, str(p), v)

    def write_loc(self, st, cell, projs, v):
        if not projs:
            st.mem[cell] = v
            return
        base = st.mem.get(cell)
        if base is None:
            base = mk("undef", cell & 4095)
        st.mem[cell] = self.write_into(st, base, projs, v)

    def write(self, st, fr, place, v):
        if len(place) == 1:
            st.mem[(fr << 12) | place[0]] = v
            return
        cell, projs = self.loc(st, fr, place)
        self.write_loc(st, cell, projs, v)

    # ---- operands ------------------------------------------------------------------------
    def operand(self, st, fr, o):
        if o[0] == "p":
            return self.read(st, fr, o[1])
        if o[0] == "k":
            return self.const(st, o[1])
        return mk("rt")

    def const(self, st, k):
        c = k[0]
        if c == "int":
            return I(k[1])
        if c == "str":
            return S(k[1])
        if c == "bytes":
            return S(k[1])
        if c == "fn":
            t = self.p.types[k[1]]
            if t["k"] == "closure":
                return mk("closure", k[1])
            return mk("fnv", t["f"])
        if c == "ev":
            return self.eval_const(k[1])
        if c == "zst":
            t = self.p.types[k[1]]
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "adt":
                a = self.p.adts[t["p"]]
                if a["k"] == "struct":
                    return mk("adt", t["p"], a["v"][0][0], ())
            return mk("zst", t["s"])
        if c == "static":
            return mk("static", k[1])
        if c == "adtc":
            vals = [self.const(st, x) for x in k[4]]
            if len(vals) == 1 and k[1].split("::")[-1] in ("Uint128", "Uint64", "Uint256", "Addr"):
                return vals[0]
            return adt(k[1], k[2], k[3], vals)
        if c == "tupc":
            return mk("tuple", *[self.const(st, x) for x in k[1]])
        # opaque bytes: keep value and type
        return mk("konst", str(k[1]), self.p.types[k[2]]["s"])

    def eval_const(self, fid):
        r = self.const_cache.get(fid)
        if r is None:
            f = self.p.fns[fid]
            if "bb" not in f:
                r = mk("const", f["p"])
            else:
                self.const_cache[fid] = mk("const", f["p"])
                outs = self.exec_fn(fid, [], new_state())
                outs = [(s, v) for s, v in outs]
                if len(outs) == 1:
                    r = self.deref(outs[0][0], outs[0][1])
                else:
                    r = mk("const", f["p"])
            self.const_cache[fid] = r
        return r

    # ---- rvalues -------------------------------------------------------------------------
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            if r[2]:
                cell, projs = self.loc(st, fr, r[1])
                if "*" in r[1][1:]:
                    # a reborrow of the storage: known only as a value, which stands for itself
                    v = self.read_loc(st, cell, projs)
                    if self.is_storage(v):
                        return v
                # a mutable reference to something that is itself only known as a value
                return mk("mref", cell, *projs)
            return self.read(st, fr, r[1])
        if k == "agg":
            vals = [self.operand(st, fr, o) for o in r[2]]
            if r[1] == "adt":
                names = r[5]
                if len(names) != len(vals):
                    names = [str(i) for i in range(len(vals))]
                return adt(r[3], r[4], names, vals)
            if r[1] == "tuple":
                return mk("tuple", *vals)
            if r[1] == "array":
                return mk("array", *vals)
            if r[1] == "closure":
                return mk("closure", r[3], *vals)
            return mk("agg", *vals)
        if k == "discr":
            v = self.deref(st, self.read(st, fr, r[1]))
            t = self.p.types[r[2]]
            if v.op == "mu" and False:
                pass
            return mk("discr", v, t.get("p", t["s"]))
        if k == "bin":
            a = self.deref(st, self.operand(st, fr, r[2]))
            b = self.deref(st, self.operand(st, fr, r[3]))
            if a.op == "int" and b.op == "discr":
                a, b = b, a
            if a.op == "discr" and b.op == "int" and r[1] in ("Eq", "Ne"):
                n = self.discr_name(a.a[1], b.a[0])
                if n is not None:
                    l = t_isv(a.a[0], n, a.a[1])
                    return l if r[1] == "Eq" else t_not(l)
            if a.op == "discr" and b.op == "discr" and r[1] in ("Eq", "Ne"):
                for x, y in ((a, b), (b, a)):
                    if y.a[0].op == "adt":
                        l = t_isv(x.a[0], y.a[0].a[1], x.a[1])
                        return l if r[1] == "Eq" else t_not(l)
            return self.binop(r[1], a, b)
        if k == "un":
            a = self.deref(st, self.operand(st, fr, r[2]))
            if r[1] == "Not":
                return t_not(a)
            if r[1] == "PtrMetadata":
                return mk("len", a)
            return mk("un" + r[1], a)
        if k == "cast":
            v = self.operand(st, fr, r[2])
            if r[1].startswith("IntToInt"):
                ty = self.p.types[r[3]]["s"]
                if v.op == "int":
                    return v
                if ty in ("u64", "u128", "usize", "i64", "i128", "isize"):
                    if v.op == "discr":
                        return v
                    return v
                if ty == "u32" and v.op == "len":
                    return v        # a length has 32 bits where contracts run
                return mk("cast", ty, v)
            if v.op == "fnv" or v.op == "closure":
                return v
            return v
        if k == "rep":
            return mk("rep", self.operand(st, fr, r[1]), r[2])
        return mk("opq", str(r[1]) if len(r) > 1 else k)

    def discr_name(self, adtp, n):
        a = self.p.adts.get(adtp)
        if a is None or a["k"] != "enum":
            return None
        for x in a["v"]:
            if x[1] == n:
                return x[0]
        return None

    def binop(self, op, a, b):
        if op == "Eq":
            return t_eq(a, b)
        if op == "Ne":
            return t_not(t_eq(a, b))
        if op == "Lt":
            return t_lt(a, b)
        if op == "Gt":
            return t_lt(b, a)
        if op == "Le":
            return t_le(a, b)
        if op == "Ge":
            return t_le(b, a)
        if op in ("Add", "AddUnchecked"):
            return t_add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return t_sub(a, b)
        if op in ("Mul", "MulUnchecked"):
            return t_mul(a, b)
        if op == "AddWithOverflow":
            return mk("tuple", t_add(a, b), FALSE)
        if op == "SubWithOverflow":
            return mk("tuple", t_sub(a, b), mk("lt", a, b) if t_lt(a, b).op == "lt" else t_lt(a, b))
        if op == "MulWithOverflow":
            return mk("tuple", t_mul(a, b), FALSE)
        if op == "Div":
            return t_div(a, b)
        if op == "BitAnd":
            if a.op == "int" and b.op == "int":
                return I(a.a[0] & b.a[0])
            if a is I(0) or b is I(0):
                return I(0)
            if self.boolish(a) or self.boolish(b):
                return t_and(a, b)
            return mk("bitand", a, b)
        if op == "BitOr":
            if a.op == "int" and b.op == "int":
                return I(a.a[0] | b.a[0])
            if a is I(0) or b is I(0):
                return b if a is I(0) else a
            if self.boolish(a) or self.boolish(b):
                return t_or(a, b)
            return mk("bitor", a, b)
        if op == "Shl" and a.op == "int" and b.op == "int":
            return I(a.a[0] << b.a[0])
        if op == "Shr" and a.op == "int" and b.op == "int":
            return I(a.a[0] >> b.a[0])
        return mk(op.lower(), a, b)

    def boolish(self, t):
        return t.op in ("eq", "lt", "isv", "not", "and")

    # ---- loops ---------------------------------------------------------------------------
    def loop_info(self, f):
        li = self.loops.get(f["id"])
        if li is not None:
            return li
        bb = f["bb"]
        n = len(bb)
        succ = [self.succs(b) if b else [] for b in bb]
        # dominators (iterative)
        order, seen = [], set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                if s in pred:
                    pred[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for y in ps[1:]:
                    while x != y:
                        while pos[x] > pos[y]:
                            x = idom[x]
                        while pos[y] > pos[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        heads = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = heads.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(pred[x])
        self.loops[f["id"]] = heads
        f["_rpo"] = pos
        f["_live"], f["_always"] = self.liveness(f, rpo, succ)
        return heads

    def liveness(self, f, rpo, succ):
        """Live-in locals per block; locals whose address escapes through &mut are always live."""
        always = {0}
        use, dfn = {}, {}

        def pl(p, u, d, write):
            if write and len(p) == 1:
                d.add(p[0])
            else:
                if p[0] not in d:
                    u.add(p[0])
            for e in p[1:]:
                if e != "*" and e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op(o, u, d):
            if o and o[0] == "p":
                pl(o[1], u, d, False)

        for b in rpo:
            u, d = set(), set()
            blk = f["bb"][b]
            if blk:
                for s in blk[0]:
                    if s[0] != "=":
                        continue
                    r = s[2]
                    k = r[0]
                    if k == "ref":
                        pl(r[1], u, d, False)
                        if r[2] and "*" not in r[1][1:]:
                            always.add(r[1][0])
                    elif k == "discr":
                        pl(r[1], u, d, False)
                    elif k == "agg":
                        for o in r[2]:
                            op(o, u, d)
                    else:
                        for o in r[1:]:
                            if isinstance(o, list) and o and o[0] in ("p", "k"):
                                op(o, u, d)
                    pl(s[1], u, d, True)
                t = blk[1]
                if t[0] in ("sw", "assert"):
                    op(t[1], u, d)
                elif t[0] == "call":
                    if "op" in t[1]:
                        op(t[1]["op"], u, d)
                    for o in t[2]:
                        op(o, u, d)
                    pl(t[3], u, d, True)
            use[b], dfn[b] = u, d
        live = {b: set(use[b]) for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                o = set()
                for x in succ[b]:
                    o |= live.get(x, set())
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        return live, always

    def prune(self, f, fr, b, st):
        live = f["_live"].get(b)
        if live is None:
            return
        base = fr << 12
        always = f["_always"]
        mem = st.mem
        for i in range(1, len(f["lt"])):
            if i not in live and i not in always:
                mem.pop(base | i, None)

    @staticmethod
    def succs(b):
        t = b[1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "sw":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "assert":
            return [t[3]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        return []

    # ---- functions -----------------------------------------------------------------------
    def exec_fn(self, fid, args, st):
        f = self.p.fns[fid]
        if self.depth > 60 or self.stack.count(fid) > 1:
            return [(st, mk("call", f["np"], *[self.deref(st, a) for a in args]))]
        self.frame += 1
        fr = self.frame
        st = st.copy()
        n = f["n"]
        base = fr << 12
        for i in range(n):
            st.mem[base | (i + 1)] = args[i] if i < len(args) else mk("undef", i + 1)
        self.stats["fns"].add(f["p"])
        self.depth += 1
        self.stack.append(fid)
        lm, st.lm = st.lm, None
        try:
            exits, rets = self.region(f, fr, 0, st, None)
        finally:
            self.depth -= 1
            self.stack.pop()
        out = []
        for s in rets:
            rv = s.mem.get(base, UNIT)
            for c in range(base, base + len(f["lt"])):
                s.mem.pop(c, None)
            s.lm = lm
            out.append((s, rv))
            if self.watch and rv.op == "adt" and rv.a[0] in self.watch:
                self.returned.append((f["p"], s.copy(), rv))
        return self.squash(out, f)

    def squash(self, out, f):
        """Join outcomes that agree on everything but facts."""
        if len(out) < 2:
            return out
        errs = [o for o in out if is_adt(o[1], "Err")]
        if len(errs) > 2:
            # outcomes that are errors: keep one per effect list and memory
            oks = [o for o in out if not is_adt(o[1], "Err")]
            g = {}
            for s, v in errs:
                k = (s.eff, frozenset(s.mem.items()))
                g.setdefault(k, []).append((s, v))
            errs = []
            for l in g.values():
                vs = []
                for _, v in l:
                    if v not in vs:
                        vs.append(v)
                if len(vs) <= 8:
                    g2 = {}
                    for s, v in l:
                        g2.setdefault(v, []).append(s)
                    for v, ss in g2.items():
                        errs.append((self.join(ss), v))
                else:
                    errs.append((self.join([s for s, _ in l]), err(mk("anyerr"))))
            out = oks + errs
        if len(out) > self.SMALL:
            g = {}
            for s, v in out:
                g.setdefault((v, s.eff, frozenset(s.mem.items())), []).append(s)
            if len(g) < len(out):
                out = [(self.join(ss), k[0]) for k, ss in g.items()]
        if len(out) > self.MAXOUT:
            self.stats["capped"].add(f["p"])
            RV = -999
            g = {}
            keep = []
            for s, v in out:
                if is_adt(v, "Err"):
                    keep.append((s, v))
                    continue
                s = s.copy()
                w = None
                if v.op == "adt" and v.a[1] in ("Ok", "Some", "Continue", "Break"):
                    w = v.a[:3]
                    v = v.a[3]
                elif v.op == "adt" and v.a[1] == "None":
                    w = v
                s.mem[RV] = v
                g.setdefault((w, self.shape(s)), []).append(s)
            out = []
            for (w, _), ss in g.items():
                s = self.join(ss, True)
                v = s.mem.pop(RV)
                if w.__class__ is tuple:
                    v = mk("adt", *w, v)
                out.append((s, v))
            out += keep
        if len(out) > self.HARD:
            raise Limit("%s: %d outcomes" % (f["p"], len(out)))
        return out

    MAXCASES = 96

    def join(self, ss, phi_mem=False):
        """Join states that agree on effects (and memory, unless phi_mem): common facts stay, the
        others become one disjunction `dnf(conj, ...)`, so nothing is lost by joining."""
        if len(ss) == 1:
            return ss[0]
        r = ss[0].copy()
        for s in ss[1:]:
            if not s.bk <= r.bk:
                r.bk = r.bk | s.bk
        r.facts = {k: v for k, v in ss[0].facts.items() if all(s.facts.get(k) == v for s in ss[1:])}
        r.var = {k: v for k, v in ss[0].var.items() if all(s.var.get(k) == v for s in ss[1:])}
        conds = [conj(self.lits(s, r)) for s in ss]
        if all(c.a for c in conds):
            d = list(dict.fromkeys(conds))
            d = self.absorb(d)
            if len(d) == 1:
                for s in ss:
                    if self.absorb_conj(s, r) is d[0]:
                        pass
                r = self.add_conj(r, d[0])
            elif len(d) <= self.MAXCASES:
                r.facts[mk("dnf", *d)] = True
        for s in ss[1:]:
            for ns in set(r.stw) | set(s.stw):
                if r.stw.get(ns) != s.stw.get(ns):
                    r.stw[ns] = ()
                    r.ver[ns] = "j"
            for ns in set(r.ver) | set(s.ver):
                if r.ver.get(ns) != s.ver.get(ns):
                    r.ver[ns] = "j"
        if phi_mem:
            for c in list(r.mem):
                vs = [s.mem.get(c) for s in ss]
                if any(v is None for v in vs):
                    r.mem.pop(c)
                    continue
                if any(v is not vs[0] for v in vs):
                    r.mem[c] = phi(self.compact(list(zip(conds, vs))))
        return r

    def absorb_conj(self, s, r):
        return None

    def add_conj(self, r, c):
        for l in c.a:
            n = self.assume(r, l, True)
            if len(n) == 1:
                r = n[0].copy()
        return r

    def compact(self, cases):
        """Merge cases of a phi with the same value when their conditions absorb each other."""
        g = {}
        for c, v in cases:
            g.setdefault(v, []).append(c)
        out = []
        for v, cs in g.items():
            for c in self.absorb(list(dict.fromkeys(cs))):
                out.append((c, v))
        return out

    def absorb(self, cs):
        """Simplify a disjunction of conjunctions: A|AB = A, A x|A !x = A."""
        if len(cs) > 200:
            return cs
        sets = {frozenset(c.a): None for c in cs}
        ch = True
        while ch:
            ch = False
            l = sorted(sets, key=len)
            for i, a in enumerate(l):
                if a not in sets:
                    continue
                for b in l[i + 1:]:
                    if b in sets and a < b:
                        del sets[b]
                        ch = True
            l = list(sets)
            for i, a in enumerate(l):
                if a not in sets:
                    continue
                for b in l[i + 1:]:
                    if b not in sets or len(a) != len(b):
                        continue
                    d = a - b
                    if len(d) == 1:
                        x = next(iter(d))
                        y = next(iter(b - a))
                        if t_not(x) is y or t_not(y) is x:
                            del sets[a], sets[b]
                            sets[a & b] = None
                            ch = True
                            break
        return [conj(x) for x in sets]

    def lits(self, s, base):
        """Facts of s that base does not have, as literals."""
        out = []
        for k, v in s.facts.items():
            if k.__class__ is T and k not in base.facts:
                out.append(k if v else t_not(k))
        for k, v in s.var.items():
            if base.var.get(k) == v:
                continue
            if v[0] == "is":
                out.append(t_isv(k, v[1]))
            else:
                e = base.var.get(k)
                e = e[1] if e is not None and e[0] == "not" else frozenset()
                for n in sorted(v[1] - e):
                    out.append(t_not(t_isv(k, n)))
        return out

    def region(self, f, fr, entry, st, loop):
        """Explore from `entry`.  Inside a loop (set of blocks with header `entry`) the exploration
        stops at the back edge and at exits.  Returns (exits, returns) or, in a loop,
        (exits, returns, backs)."""
        heads = self.loop_info(f)
        pos = f["_rpo"]
        work = {entry: [st]}
        exits, rets, backs = [], [], []
        count = 0
        while work:
            b = min(work, key=lambda x: pos[x])
            ss = work.pop(b)
            for s in ss:
                if not (loop is not None and b == entry):
                    self.prune(f, fr, b, s)
            if len(ss) > self.JOIN:
                ss = self.join_same(ss)
                self.stats["capped"].add(f["p"])
                if len(ss) > 2 * self.JOIN:
                    g = {}
                    for s in ss:
                        g.setdefault(self.shape(s), []).append(s)
                    ss = [self.join(x, True) for x in g.values()]
            count += len(ss)
            if count > 60000:
                raise Limit("%s: region too large" % f["p"])
            for s in ss:
                if b in heads and not (loop is not None and b == entry):
                    ex, rt = self.loop(f, fr, b, s, heads[b])
                    rets.extend(rt)
                    for nb, ns in ex:
                        self.go(work, exits, backs, nb, ns, loop, entry)
                    continue
                for nb, ns in self.block(f, fr, b, s, rets):
                    self.go(work, exits, backs, nb, ns, loop, entry)
        if loop is None:
            return exits, rets
        return exits, rets, backs

    def go(self, work, exits, backs, nb, ns, loop, entry):
        if loop is not None:
            if nb == entry:
                backs.append(ns)
                return
            if nb not in loop:
                exits.append((nb, ns))
                return
        work.setdefault(nb, []).append(ns)

    def loop(self, f, fr, header, st, body):
        self.open.append(set())
        try:
            return self.loop_(f, fr, header, st, body)
        finally:
            self.open.pop()

    def loop_(self, f, fr, header, st, body):
        a = st.copy()
        a.lm = "first"
        a.bk = a.bk - {"zero"}
        self.spelled.append(False)
        exits, rets, backs = self.region(f, fr, header, a, body)
        if self.spelled.pop():
            return self.unrolled(f, fr, header, st, body)
        if backs:
            h = st.copy()
            base = fr << 12
            changed = {}
            for b in backs:
                for c, v in b.mem.items():
                    if c in st.mem and st.mem[c] is not v:
                        l = changed.setdefault(c, [])
                        if v not in l:
                            l.append(v)
            for c, vs in changed.items():
                v0 = st.mem[c]
                if v0.op == "undef" or self.is_temp(f, fr, c):
                    continue
                h.mem[c] = self.widen(v0, vs)
            for ns in set(k for b in backs for k in b.stw):
                if any(b.stw.get(ns) != st.stw.get(ns) for b in backs):
                    h.stw[ns] = ()
                    h.ver[ns] = "l%d" % header if not isinstance(st.ver.get(ns), str) else st.ver[ns] + "l"
            h.lm = "enter"
            self.iters.append([])
            e2, r2, b2 = self.region(f, fr, header, h, body)
            its = self.iters.pop()
            # counting the elements is knowing the element's place
            places = {c: mk("pos", its[0]) for c, vs in changed.items() if st.mem[c] is I(0) and vs == [I(1)] and h.mem[c].op == "mu"
                      and all(b.mem.get(c) is I(1) for b in backs)} if len(its) == 1 and self.totals else {}
            if places:
                h2 = h.copy()
                h2.mem.update(places)
                self.iters.append([])
                r = self.region(f, fr, header, h2, body)
                if self.iters.pop() == its and all(b.mem.get(c) is t_add(v, I(1)) for b in r[2] for c, v in places.items()):
                    h, (e2, r2, b2) = h2, r
                else:
                    places = {}
            # left from inside an iteration: tag the states, so a rule can tell a loop that is
            # abandoned (successfully) from one that runs over all its elements
            tag = "%s#%d" % (f["p"], header)
            for _, s in e2:
                s.bk = s.bk | {tag}
            exits += e2
            rets += r2
            b2 = self.join_same(b2)
            self.loop_recs.append((tag, h.eff, b2, h))
            built = self.collected(st, h, b2, changed, its) if len(its) == 1 else {}
            built.update({c: self.count(its[0]) for c in places})
            if built:
                for _, s in exits:
                    if "zero" in s.bk:
                        for c, v in built.items():
                            if s.mem.get(c) is st.mem[c]:
                                s.mem[c] = v
            for b in b2:
                b = b.copy()
                b.lm = "exit"
                for c, v in built.items():
                    b.mem[c] = v
                e3, r3, b3 = self.region(f, fr, header, b, body)
                exits += e3
        g = {}
        for b, s in exits:
            s.lm = st.lm
            s.bk = s.bk - {"zero"}
            g.setdefault((b, s.eff, s.bk, frozenset(s.mem.items())), []).append(s)
        exits = [(k[0], self.join(ss)) for k, ss in g.items()]
        for s in rets:
            s.lm = st.lm
            s.bk = s.bk - {"zero"}
        return exits, rets

    def unrolled(self, f, fr, header, st, body):
        """a loop over a list that is spelled out: one pass per element"""
        exits, rets, now = [], [], [st]
        for _ in range(8):
            nxt = []
            for s in now:
                a = s.copy()
                a.lm = "unroll"
                e1, r1, b1 = self.region(f, fr, header, a, body)
                exits += e1
                rets += r1
                nxt += b1
            now = self.join_same(nxt)
            if not now:
                break
        else:
            raise Limit("%s: a list that is spelled out does not end" % f["p"])
        for s in [s for _, s in exits] + rets:
            s.lm = st.lm
        return exits, rets

    def collected(self, st, h, b2, changed, its):
        """Lists (and responses) to which every iteration appends one and the same term of the
        generic element: after the loop they hold that term for each element of what it runs over."""
        out = {}
        it = its[0]
        for c in changed:
            m, v0 = h.mem.get(c), st.mem.get(c)
            if m is None or m.op != "mu" or not b2:
                continue
            vs = [b.mem.get(c) for b in b2]
            if any(v is None for v in vs):
                continue
            plain = [b for b, v in zip(b2, vs) if v is m]
            push = [(b, v) for b, v in zip(b2, vs) if v is not m]
            if not push:
                continue
            cases = []
            if not plain and all(v is push[0][1] for _, v in push):
                cases.append((it, push[0][1]))
            else:
                for b, v in push:
                    cond = TRUE
                    for x in self.lits(b, h):
                        if not all(y is b or self.entailed_lit(y, x) for y in b2):
                            cond = t_and(cond, x)
                    cases.append((it if cond is TRUE else mk("ifilter", it, cond), v))
            if not all(v.op == push[0][1].op for _, v in push):
                continue
            k = push[0][1].op
            if not plain and len(cases) > 1:
                # every iteration adds one thing, which one depends on the element
                cs = [conj([x for x in self.lits(b, h) if not all(y is b or self.entailed_lit(y, x) for y in b2)]) for b, _ in push]
                vs = [v for _, v in push]
                one = None
                if len(set(cs)) < len(cs):
                    pass
                elif k == "vpush" and all(v.a[0] is m for v in vs):
                    one = mk("vpush", m, phi([(x, v.a[1]) for x, v in zip(cs, vs)]))
                elif k == "resp" and all(len(v.a) == 2 and v.a[0] is vs[0].a[0] and v.a[1].op == vs[0].a[1].op and v.a[1].op in ("msg", "sub") for v in vs):
                    one = mk("resp", vs[0].a[0], mk(vs[0].a[1].op, phi([(x, v.a[1].a[0]) for x, v in zip(cs, vs)])))
                if one is not None:
                    cases = [(it, one)]
            if k in ("vpush", "chain"):
                n = v0 if v0.op != "array" or v0.a else None
                for src, v in cases:
                    if v.a[0] is not m or contains(v.a[1], m):
                        break
                    if k == "vpush":
                        x = src if v.a[1] is mk("elem", it) else mk("imap", src, v.a[1])
                    else:
                        x = mk("imap", mk("flat", src, v.a[1]), self.elem(v.a[1]))
                    n = x if n is None else mk("chain", n, x)
                else:
                    out[c] = n
            elif k == "add" and self.totals:
                # a counter or a total: what every iteration adds
                n = v0
                for src, v in cases:
                    rest = t_sub(v, m)
                    if contains(rest, m):
                        break
                    n = t_add(n, self.count(src) if rest is I(1) else mk("sum", mk("imap", src, rest)))
                else:
                    out[c] = n
            elif k == "resp":
                parts = []
                for src, v in cases:
                    if not (v.a[0].op == "base" and v.a[0].a[0] is m and not any(contains(x, m) for x in v.a[1:])):
                        break
                    for x in v.a[1:]:
                        parts.append(mk(x.op + "s", mk("imap", src, x.a[0])) if x.op in ("msg", "sub") else None)
                else:
                    if None not in parts:
                        out[c] = mk("resp", mk("base", v0), *parts)
        return out

    def entailed_lit(self, s, x):
        try:
            return not self.assume(s, x, False)
        except Exception:
            return False

    def is_temp(self, f, fr, c):
        return False

    def widen(self, v0, vs):
        if v0.op == "mu":
            old = list(v0.a)
            return mk("mu", *(old + [v for v in vs if v not in old]))
        return mk("mu", v0, *vs)

    def shape(self, s):
        """States of one shape may be joined cell by cell: same effects, same pointers, same
        outcome of the fallible call in flight."""
        l = [s.eff]
        for c in sorted(s.mem):
            v = s.mem[c]
            if v.op == "mref" or any(x.op == "mref" for x in subterms(v)):
                l.append((c, v))
            elif v.op == "adt" and v.a[0] in (RES, CF):
                l.append((c, v.a[1]))
            else:
                l.append(c)
        return tuple(l)

    def join_same(self, ss):
        g = {}
        for s in ss:
            g.setdefault((s.eff, frozenset(s.mem.items())), []).append(s)
        return [self.join(x) for x in g.values()]

    # ---- blocks --------------------------------------------------------------------------
    def block(self, f, fr, b, st, rets):
        """Execute one block; returns [(next block, state)]."""
        blk = f["bb"][b]
        self.stats["blocks"] += 1
        if blk is None:
            return []
        st = st.copy()
        for s in blk[0]:
            if s[0] == "=":
                self.write(st, fr, s[1], self.rvalue(st, fr, s[2]))
            elif s[0] == "sd":
                pass
        t = blk[1]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            rets.append(st)
            return []
        if k == "sw":
            return self.switch(st, self.deref(st, self.operand(st, fr, t[1])), t[2], t[3], self.p.types[t[4]]['s'])
        if k == "assert":
            c = self.deref(st, self.operand(st, fr, t[1]))
            if t[4].startswith("overflow") or t[4] in ("bounds", "divzero", "remzero"):
                return [(t[3], s) for s in self.assume(st, c, bool(t[2]))]
            return [(t[3], st)]
        if k == "call":
            return self.call(f, fr, st, t)
        return []

    def switch(self, st, v, targets, other, ty="bool"):
        out = []
        if v.op == "discr":
            t, adtp = v.a
            a = self.p.adts.get(adtp)
            if a is not None and a["k"] == "enum":
                d2n = {x[1]: x[0] for x in a["v"]}
                cur = self.variant(st, t)
                done = set()
                for val, b in targets:
                    n = d2n.get(int(val))
                    done.add(n)
                    if cur is not None:
                        if cur == n:
                            return [(b, st)]
                        continue
                    for s in self.assume_variant(st, t, n, adtp, True):
                        out.append((b, s))
                if cur is not None:
                    return [(other, st)]
                rest = [x for x in d2n.values() if x not in done and x not in self.excluded(st, t)]
                if rest:
                    ss = [st]
                    for n in sorted(x for x in done if x):
                        ss = [s2 for s1 in ss for s2 in self.assume_variant(s1, t, n, adtp, False)]
                    out += [(other, s1) for s1 in ss]
                return out
        if len(targets) == 1 and int(targets[0][0]) == 0 and ty in ("bool", "isize"):
            for s in self.assume(st, v, False):
                out.append((targets[0][1], s))
            for s in self.assume(st, v, True):
                out.append((other, s))
            return out
        if v.op == "int":
            for val, b in targets:
                if int(val) == v.a[0]:
                    return [(b, st)]
            return [(other, st)]
        cur = [st]
        for val, b in targets:
            e = t_eq(v, I(int(val)))
            nxt = []
            for s in cur:
                for s1 in self.assume(s, e, True):
                    out.append((b, s1))
                nxt.extend(self.assume(s, e, False))
            cur = nxt
        for s in cur:
            out.append((other, s))
        return out

    # ---- calls ---------------------------------------------------------------------------
    def call(self, f, fr, st, t):
        callee, args_o, dest, target, line = t[1], t[2], t[3], t[4], t[5]
        args = [self.operand(st, fr, o) for o in args_o]
        self.stats["calls"] += 1
        self.site = "%s:%s" % (short(f["p"]), line)
        if "f" in callee:
            outs = self.dispatch(callee["f"], args, st)
        else:
            fv = self.deref(st, self.operand(st, fr, callee["op"]))
            outs = self.call_value(fv, args, st)
        if target is None:
            return []
        res = []
        for s, v in outs:
            self.write(s, fr, dest, v)
            res.append((target, s))
        return res

    def dispatch(self, fid, args, st):
        f = self.p.fns[fid]
        m = self.models.get(f["ntr"]) if f["ntr"] else None
        if m is None:
            m = self.models.get(f["np"])
        if m is None:
            m = self.prefix_models(f)
        if m is not None:
            r = m(self, f, args, st)
            if r is not None:
                return r
        if f["k"] == "ctor":
            return [(st, adt(f["adt"], f["var"], [str(i) for i in range(len(args))], args))]
        if f["np"] in self.opaque or (f["ntr"] in self.opaque):
            return self.opaque_call(f, args, st)
        if f.get("c") == "cw_controllers" and "::Hooks::" not in f["np"] and f["k"] != "closure":
            return self.opaque_call(f, args, st)
        if "bb" in f:
            if f["k"] == "closure" and len(args) == 2:
                # rust-call ABI: the parameters come as one tuple
                t = self.deref(st, args[1])
                if t.op == "tuple":
                    args = [args[0]] + list(t.a)
                elif f["n"] == 1:
                    args = args[:1]
            return self.exec_fn(fid, args, st.copy())
        return self.opaque_call(f, args, st)

    def call_value(self, fv, args, st):
        """Call a function value: closure, fn item or opaque."""
        fv = self.deref(st, fv)
        if fv.op == "closure":
            t = self.p.types[fv.a[0]]
            return self.dispatch_closure(t["f"], fv, args, st)
        if fv.op == "fnv":
            return self.dispatch(fv.a[0], args, st)
        return [(st.copy(), mk("call", "<fn>", fv, *[self.deref(st, a) for a in args]))]

    def dispatch_closure(self, fid, env, args, st):
        f = self.p.fns[fid]
        if "bb" not in f:
            return [(st.copy(), mk("call", f["np"], *[self.deref(st, a) for a in args]))]
        return self.exec_fn(fid, [env] + list(args), st.copy())

    def opaque_call(self, f, args, st, name=None):
        name = name or f["ntr"] or f["np"]
        self.stats["opaque"][name] = self.stats["opaque"].get(name, 0) + 1
        s = st.copy()
        vals = [self.purge(s, a) for a in args]
        r = mk("call", name, *vals)
        ext = False
        for i, a in enumerate(args):
            if a.op == "mref":
                old = self.deref(s, a)
                if self.is_storage(old):
                    ext = True
                    continue
                self.write_loc(s, a.a[0], list(a.a[1:]), mk("mut", name, i, *vals))
        if not ext:
            ext = any(self.is_storage(v) for v in vals) and f.get("c") not in ("core", "alloc", "std")
        if ext and not name.rsplit("::", 1)[-1].startswith("query_") and f.get("c") in ("cw_ownable", "cw2", "cw_controllers", "cw721_base", "cw_storage_plus", "cw4"):
            self.effect(s, "ext", name, *vals)
        return [(s, r)]

    def is_storage(self, v):
        return (v.op == "fld" and v.a[1] == "storage" and v.a[0].op == "sym") or (v.op == "sym" and v.a[0] in ("storage", "deps"))

    def purge(self, st, t, d=0):
        """Replace mutable references inside a value by what they point to."""
        if t.op == "mref":
            return self.purge(st, self.deref(st, t), d + 1)
        if d < 6 and t.op in ("adt", "tuple", "array", "closure"):
            if any(x.__class__ is T and (x.op == "mref" or x.op in ("adt", "tuple", "array", "closure")) for x in t.a):
                return mk(t.op, *[self.purge(st, x, d + 1) if x.__class__ is T else x for x in t.a])
        return t

    def effect(self, st, kind, *a):
        st.eff = mk("eff", st.eff, kind, self.site, *a)

    # ---- storage -------------------------------------------------------------------------
    def st_read(self, st, ns, key):
        """[(state, present?, value)] of reading storage ns[key]."""
        wr = st.stw.get(ns, ())
        for k, v in reversed(wr):
            if k is key:
                if v is None:
                    return [(st, False, None)]
                return [(st, True, v)]
            break
        for k, v in reversed(wr):
            if k is key:
                return [(st, v is not None, v)]
        ver = st.ver.get(ns, 0)
        val = mk("st", ns, key, ver)
        at = mk("has", ns, key, ver)
        out = []
        for s in self.assume(st, at, True):
            out.append((s, True, val))
        for s in self.assume(st, at, False):
            out.append((s, False, None))
        return out

    def st_write(self, st, ns, key, val):
        s = st.copy()
        key = self.purge(s, key)
        val = self.purge(s, val) if val is not None else None
        if val is not None and val.op == "adt" and len(val.a[2]) > 1:
            # the stored record with some fields replaced, whichever way it is written
            olds = {v.a[0] for n, v in zip(val.a[2], val.a[3:]) if v.op == "fld" and v.a[1] == n and v.a[0].op == "st" and v.a[0].a[0] is S(ns) and v.a[0].a[1] is key}
            if not olds:
                olds = {v.a[0] for n, v in zip(val.a[2], val.a[3:]) if v.op == "fld" and v.a[1] == n and v.a[0].op == "st" and v.a[0].a[:2] == (ns, key)}
            if len(olds) == 1:
                new = olds.pop()
                for n, v in zip(val.a[2], val.a[3:]):
                    new = upd(new, n, v)
                val = new
        wr = [x for x in s.stw.get(ns, ()) if x[0] is not key]
        s.stw[ns] = tuple(wr) + ((key, val),)
        if val is None:
            self.effect(s, "remove", S(ns), key)
        else:
            self.effect(s, "save", S(ns), key, val)
        return s


# ---- results -------------------------------------------------------------------------------
class Path:
    """One Ok outcome of an entry point."""

    def __init__(self, eng, st, ret):
        self.eng, self.st, self.ret = eng, st, ret
        self.facts, self.var = st.facts, st.var
        l = []
        e = st.eff
        while e.op == "eff":
            l.append(e)
            e = e.a[0]
        self.effects = [Eff(x) for x in reversed(l)]


class Eff:
    def __init__(self, t):
        self.kind, self.site = t.a[1], t.a[2]
        self.a = t.a[3:]

    def __repr__(self):
        return "%s(%s) @%s" % (self.kind, ", ".join(show(x) for x in self.a), self.site)
