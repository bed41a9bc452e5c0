"""Hash-consed terms: the value-numbering domain of the analysis.

Equal terms are the same object, so comparing two abstract values is `is`.
"""


_tab = {}


class T:
    __slots__ = ("op", "a", "_s", "n", "id")

    def __init__(self, op, a):
        self.id = len(_tab)
        self.op = op
        self.a = a
        self._s = None
        n = 1
        for x in a:
            if x.__class__ is T:
                n += x.n
        self.n = n

    def __repr__(self):
        return show(self)

    # terms are interned: identity equality and hash (the defaults) are what we want



def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T(op, a)
        _tab[k] = t
    return t


UNIT = mk("tuple")
TRUE = mk("int", 1)
FALSE = mk("int", 0)


def I(n):
    return mk("int", n)


def S(s):
    return mk("str", s)


def adt(path, var, names, vals):
    return mk("adt", path, var, tuple(names), *vals)


def is_adt(t, var=None, path=None):
    return t.op == "adt" and (var is None or t.a[1] == var) and (path is None or t.a[0].endswith(path))


def adt_fields(t):
    return dict(zip(t.a[2], t.a[3:]))


OPT = "std::option::Option"
RES = "std::result::Result"


def ok(v):
    return mk("adt", RES, "Ok", ("0",), v)


def err(v):
    return mk("adt", RES, "Err", ("0",), v)


def some(v):
    return mk("adt", OPT, "Some", ("0",), v)


NONE = mk("adt", OPT, "None", ())


def phi(cases):
    """Value that depends on which of the conditions holds: cases are (conj, value) pairs."""
    vals = []
    for c, v in cases:
        if v not in vals:
            vals.append(v)
    if len(vals) == 1:
        return vals[0]
    v0 = vals[0]
    if v0.op == "adt" and v0.a[2] and all(v.op == "adt" and v.a[:3] == v0.a[:3] for v in vals):
        return mk("adt", *v0.a[:3], *[phi([(c, v.a[i]) for c, v in cases]) for i in range(3, len(v0.a))])
    if v0.op == "tuple" and v0.a and all(v.op == "tuple" and len(v.a) == len(v0.a) for v in vals):
        return mk("tuple", *[phi([(c, v.a[i]) for c, v in cases]) for i in range(len(v0.a))])
    if all(v.op == "upd" and v.a[:2] == v0.a[:2] for v in vals):
        return upd(v0.a[0], v0.a[1], phi([(c, v.a[2]) for c, v in cases]))
    l = []
    for c, v in cases:
        l.append(c)
        l.append(v)
    return mk("phi", *l)


def phi_cases(t):
    return list(zip(t.a[0::2], t.a[1::2]))


def conj(lits):
    return mk("conj", *sorted(lits, key=lambda x: x.id))


def fld(t, n):
    """Field n of t."""
    if t.op == "phi":
        return phi([(c, fld(v, n)) for c, v in phi_cases(t)])
    if t.op == "adt":
        names = t.a[2]
        if n in names:
            return t.a[3 + names.index(n)]
    elif t.op == "mu":
        # a loop that leaves the field alone
        r = fld(t.a[0], n)
        if all(fld(x, n) is r for x in t.a[1:]):
            return r
    elif t.op == "upd":
        if t.a[1] == n:
            return t.a[2]
        return fld(t.a[0], n)
    elif t.op in ("tuple", "array", "closure"):
        off = 1 if t.op == "closure" else 0
        if n.isdigit() and int(n) + off < len(t.a):
            return t.a[int(n) + off]
    return mk("fld", t, n)


def as_(t, v):
    """t viewed as its variant v."""
    if t.op == "phi":
        cs = [(c, as_(x, v)) for c, x in phi_cases(t) if not (x.op == "adt" and x.a[1] != v)]
        if cs:
            return phi(cs)
        return mk("as", t, v)
    if t.op == "adt":
        return t
    if t.op == "as" and t.a[1] == v:
        return t
    return mk("as", t, v)


def payload(t, v):
    return fld(as_(t, v), "0")


def upd(t, n, v):
    if t.op == "phi":
        return phi([(c, upd(x, n, v)) for c, x in phi_cases(t)])
    if t.op == "adt" and n in t.a[2]:
        i = 3 + t.a[2].index(n)
        return mk("adt", *(t.a[:i] + (v,) + t.a[i + 1:]))
    if t.op in ("tuple", "array") and n.isdigit() and int(n) < len(t.a):
        i = int(n)
        return mk(t.op, *(t.a[:i] + (v,) + t.a[i + 1:]))
    # canonical order of field updates; an update that restores the field is dropped
    ups = {}
    b = t
    while b.op == "upd":
        ups.setdefault(b.a[1], b.a[2])
        b = b.a[0]
    ups[n] = v
    if v is mk("fld", b, n):
        del ups[n]
    for k in sorted(ups):
        b = mk("upd", b, k, ups[k])
    return b


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if y.__class__ is T:
                st.append(y)


def contains(t, x):
    for y in subterms(t):
        if y is x:
            return True
    return False


def short(p):
    # last two path components, without generics
    out = []
    depth = 0
    for c in p:
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
    s = "".join(out)
    parts = [x for x in s.split("::") if x]
    if not parts:
        return p
    if len(parts) >= 2 and parts[-2][:1].isupper():
        return parts[-2] + "::" + parts[-1]
    return parts[-1]


def show(t, lim=4000):
    if t.__class__ is not T:
        return str(t)
    if t._s is not None:
        return t._s
    s = _show(t)
    if len(s) > lim:
        s = s[:lim] + "…"
    t._s = s
    return s


def _show(t):
    o, a = t.op, t.a
    if o == "int":
        return str(a[0])
    if o == "str":
        return '"%s"' % a[0]
    if o == "sym":
        return a[0]
    if o == "fld":
        return "%s.%s" % (show(a[0]), a[1])
    if o == "as":
        return "%s@%s" % (show(a[0]), a[1])
    if o == "adt":
        nm = short(a[0]).split("::")[-1]
        nm = a[1] if a[0] in (OPT, RES) else (nm if nm == a[1] else nm + "::" + a[1])
        if not a[2]:
            return nm
        if all(n.isdigit() for n in a[2]):
            return "%s(%s)" % (nm, ", ".join(show(x) for x in a[3:]))
        return "%s{%s}" % (nm, ", ".join("%s: %s" % (n, show(x)) for n, x in zip(a[2], a[3:])))
    if o == "tuple":
        return "(%s)" % ", ".join(show(x) for x in a)
    if o == "array":
        return "[%s]" % ", ".join(show(x) for x in a)
    if o == "upd":
        return "%s{%s:=%s}" % (show(a[0]), a[1], show(a[2]))
    if o == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(show(x) for x in a[1:]))
    if o == "st":
        v = "" if a[2] == 0 else "#%s" % a[2]
        return "load%s[%s%s]" % (v, a[0], "" if a[1] is UNIT else ", " + show(a[1]))
    if o == "closure":
        return "closure"
    return "%s(%s)" % (o, ", ".join(show(x) for x in a))
