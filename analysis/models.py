"""Models of the library functions the contracts are built on.

A model takes (engine, fn entry, args, state) and returns a list of (state, value) outcomes, or
None for "no opinion".  Conversions that do not change the value are transparent, so two
spellings of the same computation give the same term.
"""
from terms import *
import engine as E

TABLE = {}


def reg(*names):
    def d(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return d


def D(e, st, a):
    return e.deref(st, a)


# ---- transparent conversions ---------------------------------------------------------------
@reg(
    "std::clone::Clone::clone", "std::ops::Deref::deref", "std::convert::AsRef::as_ref",
    "std::borrow::Borrow::borrow", "std::string::ToString::to_string", "std::borrow::ToOwned::to_owned",
    "std::string::String::as_str", "cosmwasm_std::Addr::as_str", "cosmwasm_std::Addr::into_string",
    "cosmwasm_std::Addr::as_bytes", "std::string::String::as_bytes", "core::str::as_bytes",
    "std::slice::to_vec", "cosmwasm_std::Uint128::u128", "cosmwasm_std::Uint64::u64",
    "cosmwasm_std::Uint128::new", "cosmwasm_std::Uint64::new", "cosmwasm_std::Uint256::from_u128", "std::boxed::Box::new",
    "core::slice::iter", "std::iter::Iterator::cloned",
    "std::iter::Iterator::copied", "std::iter::Iterator::by_ref", "std::hint::must_use",
    "std::vec::Vec::as_slice", "std::iter::Iterator::into_iter", "core::slice::to_vec",
    "cosmwasm_std::DepsMut::as_ref", "std::vec::Vec::into_iter", "core::slice::into_vec",
    "std::option::Option::as_deref", "cosmwasm_std::QuerierWrapper::into_empty",
    "core::str::to_string", "std::str::to_owned", "std::string::String::into_boxed_str",
    "std::convert::identity", "std::borrow::Cow::into_owned", "cosmwasm_std::Binary::as_slice", "std::mem::take_",
)
def m_id(e, f, args, st):
    return [(st.copy(), D(e, st, args[0]) if args else UNIT)]


@reg("std::option::Option::iter", "std::option::Option::into_iter", "std::iter::IntoIterator::into_iter")
def m_into_iter(e, f, args, st):
    """an option is the list of the element it holds"""
    if "::Option::" not in f["np"]:
        ty = e.p.types[f["ga"][0]]["s"] if f.get("ga") else ""
        if not ty.replace("&", "").replace("mut ", "").strip().startswith("std::option::Option<"):
            return m_id(e, f, args, st)
    v = e.purge(st, D(e, st, args[0]))
    if is_adt(v, "None"):
        return [(st.copy(), mk("array"))]
    if is_adt(v, "Some"):
        return [(st.copy(), mk("array", payload(v, "Some")))]
    return [(s.copy(), mk("array", payload(v, "Some")) if b else mk("array")) for b in (True, False) for s in e.assume(st, E.t_isv(v, "Some", OPT), b)]


@reg("cosmwasm_std::Addr::unchecked")
def m_unchecked(e, f, args, st):
    return [(st.copy(), D(e, st, args[0]))]


@reg("std::ops::DerefMut::deref_mut", "std::convert::AsMut::as_mut", "std::iter::Iterator::iter_mut_", "cosmwasm_std::DepsMut::branch", "std::boxed::Box::as_mut")
def m_idmut(e, f, args, st):
    return [(st.copy(), args[0])]


@reg("std::convert::From::from", "std::convert::Into::into")
def m_from(e, f, args, st):
    # only reached for library conversions and blanket impls; workspace impls have bodies
    if "bb" in f and not f.get("der"):
        return None
    if f["k"] == "fn" and f["c"] not in ("core", "alloc", "std") and f["c"] not in CONV:
        return None
    v = D(e, st, args[0])
    return [(st.copy(), v)]


CONV = ("cosmwasm_std", "cw_utils", "cw20", "cw721", "cw_denom", "cosmwasm_schema", "cw_storage_plus", "prost_types", "osmosis_std")


@reg("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from", "core::str::parse")
def m_try(e, f, args, st):
    if "bb" in f:
        return None
    v = D(e, st, args[0])
    if f["np"].endswith("parse"):
        v = mk("parse", v)
    if v.op == "int":
        return [(st.copy(), ok(v))]
    t = mk("convertible", v)
    out = []
    for s in e.assume(st, t, True):
        out.append((s.copy(), ok(v)))
    for s in e.assume(st, t, False):
        out.append((s.copy(), err(mk("converr", v))))
    return out


# addresses the chain itself gives
VALID = {fld(mk("sym", "info"), "sender"), fld(fld(mk("sym", "env"), "contract"), "address")}


def own(t):
    """part of what is stored"""
    while t.op in ("fld", "as", "elem"):
        t = t.a[0]
    return t.op == "st"


@reg("cosmwasm_std::Api::addr_validate")
def m_addr(e, f, args, st):
    v = D(e, st, args[1])
    if v.op == "valid" or v in VALID:
        return [(st.copy(), ok(v))]
    t = mk("validaddr", v)
    out = []
    for s in e.assume(st, t, True):
        out.append((s.copy(), ok(v if own(v) else mk("valid", v))))
    for s in e.assume(st, t, False):
        out.append((s.copy(), err(mk("addrerr", v))))
    return out


@reg("cw_utils::maybe_addr")
def m_maybe_addr(e, f, args, st):
    v = e.purge(st, D(e, st, args[1]))
    out = []
    for s in e.assume(st, E.t_isv(v, "None", OPT), True):
        out.append((s.copy(), ok(NONE)))
    for s in e.assume(st, E.t_isv(v, "None", OPT), False):
        for z, r in m_addr(e, f, [args[0], payload(v, "Some")], s):
            out.append((z, ok(some(payload(r, "Ok"))) if is_adt(r, "Ok") else r))
    return out


# ---- comparisons ---------------------------------------------------------------------------
def two(e, st, args):
    return D(e, st, args[0]), D(e, st, args[1])


def cmpm(fn):
    def m(e, f, args, st):
        a, b = two(e, st, args)
        return [(st.copy(), fn(e.purge(st, a), e.purge(st, b)))]
    return m


TABLE["std::cmp::PartialEq::eq"] = cmpm(lambda a, b: E.t_eq(a, b))
TABLE["std::cmp::PartialEq::ne"] = cmpm(lambda a, b: E.t_not(E.t_eq(a, b)))
TABLE["std::cmp::PartialOrd::lt"] = cmpm(lambda a, b: E.t_lt(a, b))
TABLE["std::cmp::PartialOrd::gt"] = cmpm(lambda a, b: E.t_lt(b, a))
TABLE["std::cmp::PartialOrd::le"] = cmpm(lambda a, b: E.t_le(a, b))
TABLE["std::cmp::PartialOrd::ge"] = cmpm(lambda a, b: E.t_le(b, a))
for _n in ("cosmwasm_std::Uint128::is_zero", "cosmwasm_std::Uint256::is_zero", "cosmwasm_std::Uint64::is_zero", "cosmwasm_std::Decimal::is_zero"):
    TABLE[_n] = lambda e, f, args, st: [(st.copy(), E.t_eq(D(e, st, args[0]), I(0)))]


@reg("std::string::String::is_empty", "core::str::is_empty", "std::vec::Vec::is_empty", "core::slice::is_empty")
def m_isempty(e, f, args, st):
    v = e.purge(st, D(e, st, args[0]))
    if v.op == "array":
        return [(st.copy(), TRUE if not v.a else FALSE)]
    return [(st.copy(), E.t_eq(tlen(v), I(0)))]


def tlen(v):
    if v.op == "array":
        return I(len(v.a))
    if v.op == "str":
        return I(len(v.a[0].encode()))
    return count(v)


@reg("std::vec::Vec::len", "core::slice::len", "std::string::String::len", "core::str::len", "std::iter::Iterator::count", "std::iter::ExactSizeIterator::len")
def m_len(e, f, args, st):
    return [(st.copy(), tlen(e.purge(st, D(e, st, args[0]))))]


@reg("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def m_cmp(e, f, args, st):
    a, b = two(e, st, args)
    part = f["ntr"].endswith("partial_cmp")
    O = "std::cmp::Ordering"
    w = (lambda v: some(adt(O, v, (), ()))) if part else (lambda v: adt(O, v, (), ()))
    out = []
    lt, gt = E.t_lt(a, b), E.t_lt(b, a)
    for s in e.assume(st, lt, True):
        out.append((s.copy(), w("Less")))
    for s in e.assume(st, lt, False):
        for s1 in e.assume(s, gt, True):
            out.append((s1.copy(), w("Greater")))
        for s1 in e.assume(s, gt, False):
            for s2 in e.assume(s1, E.t_eq(a, b), True):
                out.append((s2.copy(), w("Equal")))
    return out


def minmax(op):
    def m(e, f, args, st):
        a, b = two(e, st, args)
        if a is b:
            return [(st.copy(), a)]
        if show(b) < show(a):
            a, b = b, a
        return [(st.copy(), mk(op, a, b))]
    return m


for _n in ("std::cmp::Ord::min", "std::cmp::min"):
    TABLE[_n] = minmax("min")
for _n in ("std::cmp::Ord::max", "std::cmp::max"):
    TABLE[_n] = minmax("max")


# ---- arithmetic ----------------------------------------------------------------------------
def arith(fn):
    def m(e, f, args, st):
        a, b = two(e, st, args)
        return [(st.copy(), fn(a, b))]
    return m


def m_add(e, f, args, st):
    a, b = two(e, st, args)
    if f.get("self") != "cw20::Expiration":
        return [(st.copy(), E.t_add(a, b))]
    # a moment and a duration: of the same kind, or nothing; never stays never
    out = []
    for k, dk, fn in (("AtHeight", "Height", E.t_add), ("AtTime", "Time", lambda x, y: mk("call", "cosmwasm_std::Timestamp::plus_seconds", x, y)), ("Never", None, None)):
        for s in e.assume(st, E.t_isv(a, k, f["self"]), True):
            if dk is None:
                out.append((s.copy(), ok(a)))
                continue
            q = E.t_isv(b, dk, "cw_utils::Duration")
            for s1 in e.assume(s, q, True):
                x, y = payload(a, k), payload(b, dk)
                r = fn(x, y)
                out.append((s1.copy(), ok(mk("adt", f["self"], k, ("0",), r))))
            for s1 in e.assume(s, q, False):
                out.append((s1.copy(), err(mk("str", "cannot add"))))
    return out


TABLE["std::ops::Add::add"] = m_add
TABLE["std::ops::Mul::mul"] = arith(E.t_mul)
TABLE["std::ops::Div::div"] = arith(E.t_div)
TABLE["std::ops::Rem::rem"] = arith(lambda a, b: mk("rem", a, b))


@reg("std::ops::Not::not")
def m_not(e, f, args, st):
    return [(st.copy(), E.t_not(D(e, st, args[0])))]


@reg("std::ops::Sub::sub")
def m_sub(e, f, args, st):
    a, b = two(e, st, args)
    # underflow panics: it reverts
    return [(s.copy(), E.t_sub(a, b)) for s in e.assume(st, E.t_lt(a, b), False)]


def assign(fn):
    def m(e, f, args, st):
        a, b = two(e, st, args)
        out = []
        for s, v in fn(e, st, a, b):
            s = s.copy()
            if args[0].op == "mref":
                e.write_loc(s, args[0].a[0], list(args[0].a[1:]), v)
            out.append((s, UNIT))
        return out
    return m


TABLE["std::ops::AddAssign::add_assign"] = assign(lambda e, st, a, b: [(st, E.t_add(a, b))])
TABLE["std::ops::MulAssign::mul_assign"] = assign(lambda e, st, a, b: [(st, E.t_mul(a, b))])
TABLE["std::ops::SubAssign::sub_assign"] = assign(
    lambda e, st, a, b: [(s, E.t_sub(a, b)) for s in e.assume(st, E.t_lt(a, b), False)])
NUM = ("cosmwasm_std::Uint128::", "cosmwasm_std::Uint64::", "cosmwasm_std::Uint256::", "cosmwasm_std::Uint512::",
       "cosmwasm_std::Decimal::", "cosmwasm_std::Decimal256::", "core::num::")


def num_model(e, f, args, st):
    n = f["np"].rsplit("::", 1)[-1]
    opt = f["np"].startswith("core::num::")
    okv = some if opt else ok
    erv = (lambda v: NONE) if opt else (lambda v: err(v))
    if n in ("checked_add", "checked_mul"):
        a, b = two(e, st, args)
        v = E.t_add(a, b) if n == "checked_add" else E.t_mul(a, b)
        s2 = st.copy()
        s2.facts[mk("overflow", v)] = True
        s1 = st.copy()
        if v.op == "int":
            return [(s1, okv(v))]
        return [(s1, okv(v)), (s2, erv(mk("ovf", v)))]
    if n == "checked_sub":
        a, b = two(e, st, args)
        out = []
        lt = E.t_lt(a, b)
        for s in e.assume(st, lt, False):
            out.append((s.copy(), okv(E.t_sub(a, b))))
        for s in e.assume(st, lt, True):
            out.append((s.copy(), erv(mk("ovf", mk("sub", a, b)))))
        return out
    if n in ("checked_div", "checked_rem", "checked_div_floor"):
        a, b = two(e, st, args)
        z = E.t_eq(b, I(0))
        v = E.t_div(a, b) if n == "checked_div" else mk("call", f["np"], a, b)
        out = []
        for s in e.assume(st, z, False):
            out.append((s.copy(), okv(v)))
        for s in e.assume(st, z, True):
            out.append((s.copy(), erv(mk("divzero", v))))
        return out
    if n == "zero":
        return [(st.copy(), I(0))]
    if n == "pow" and "Uint" in f["np"]:
        a, b = two(e, st, args)
        if a.op == "int" and b.op == "int" and b.a[0] < 80:
            return [(st.copy(), I(a.a[0] ** b.a[0]))]
        return None
    if n == "full_mul":
        a, b = two(e, st, args)
        return [(st.copy(), E.t_mul(a, b))]
    if n in ("multiply_ratio", "full_multiply_ratio") and "Uint" in f["np"]:
        a, b = two(e, st, args)
        z = D(e, st, args[2])
        v = E.t_div(E.t_mul(a, b), z)
        if z.op == "call" and z.a[0].endswith("::pow") and z.a[1].op == "int" and z.a[1].a[0] > 0:
            return [(st.copy(), v)]
        return [(s.copy(), v) for s in e.assume(st, E.t_eq(z, I(0)), False)]
    if n == "mul_floor" and "Uint" in f["np"]:
        a, r = two(e, st, args)
        z = mk("call", "cosmwasm_std::Fraction::denominator", r)
        v = E.t_div(E.t_mul(a, mk("call", "cosmwasm_std::Fraction::numerator", r)), z)
        return [(s.copy(), v) for s in e.assume(st, E.t_eq(z, I(0)), False)]
    if n == "percent" and "Decimal" in f["np"]:
        a = D(e, st, args[0])
        if a.op == "int" and a.a[0] in (0, 100):
            return [(st.copy(), I(0) if a.a[0] == 0 else mk("call", f["np"].rsplit("::", 1)[0] + "::one"))]
        return None
    if n == "one" and "Uint" in f["np"]:
        return [(st.copy(), I(1))]
    if n in ("saturating_sub", "saturating_add"):
        a, b = two(e, st, args)
        return [(st.copy(), mk("sat" + n[-3:], a, b))]
    return None


# ---- time ----------------------------------------------------------------------------------
@reg("cosmwasm_std::Timestamp::seconds")
def m_secs(e, f, args, st):
    v = D(e, st, args[0])
    if v.op == "fromsecs":
        return [(st.copy(), v.a[0])]
    return [(st.copy(), mk("secs", v))]


@reg("cosmwasm_std::Timestamp::from_seconds")
def m_fsecs(e, f, args, st):
    return [(st.copy(), mk("fromsecs", D(e, st, args[0])))]


@reg("cw_utils::Expiration::is_expired", "cw20::Expiration::is_expired", "cw721::Expiration::is_expired")
def m_expired(e, f, args, st):
    return [(st.copy(), mk("expired", e.purge(st, D(e, st, args[0])), e.purge(st, D(e, st, args[1]))))]


# ---- responses and messages -----------------------------------------------------------------
def resp(*l):
    return mk("resp", *l)


def radd(r, kind, x):
    if r.op == "resp":
        return mk("resp", *(r.a + (mk(kind, x),)))
    return mk("resp", mk("base", r), mk(kind, x))


TABLE["cosmwasm_std::Response::new"] = lambda e, f, args, st: [(st.copy(), resp())]


def m_radd(kind):
    def m(e, f, args, st):
        return [(st.copy(), radd(D(e, st, args[0]), kind, e.purge(st, args[1])))]
    return m


for _n, _k in (("add_message", "msg"), ("add_messages", "msgs"), ("add_submessage", "sub"), ("add_submessages", "subs"), ("set_data", "data")):
    TABLE["cosmwasm_std::Response::" + _n] = m_radd(_k)
for _n in ("add_attribute", "add_attributes", "add_event", "add_events"):
    TABLE["cosmwasm_std::Response::" + _n] = lambda e, f, args, st: [(st.copy(), D(e, st, args[0]))]


def m_sub_(mode):
    def m(e, f, args, st):
        return [(st.copy(), mk("submsg", e.purge(st, args[0]), D(e, st, args[1]) if len(args) > 1 else I(0), S(mode)))]
    return m


for _n, _k in (("new", "never"), ("reply_on_error", "error"), ("reply_on_success", "success"), ("reply_always", "always")):
    TABLE["cosmwasm_std::SubMsg::" + _n] = m_sub_(_k)


@reg("cosmwasm_std::to_json_binary", "cosmwasm_std::to_json_vec", "cosmwasm_std::to_json_string", "cosmwasm_std::to_binary")
def m_json(e, f, args, st):
    return [(st.copy(), ok(mk("json", e.purge(st, args[0]))))]


def _range(e, t):
    f = adt_fields(t) if t.op == "adt" else {}
    return f.get("start"), f.get("end")


@reg("std::ops::RangeInclusive::new")
def m_range_incl(e, f, args, st):
    a, b = (e.purge(st, D(e, st, x)) for x in args)
    return [(st.copy(), adt("std::ops::RangeInclusive", "RangeInclusive", ["start", "end", "exhausted"], [a, b, FALSE]))]


@reg("std::ops::Range::contains", "std::ops::RangeInclusive::contains", "std::ops::RangeFrom::contains", "std::ops::RangeTo::contains", "std::ops::RangeToInclusive::contains")
def m_range_contains(e, f, args, st):
    r, x = (e.purge(st, D(e, st, a)) for a in args)
    if r.op != "adt":
        return None
    lo, hi = _range(e, r)
    if lo is None and hi is None:
        return None
    t = TRUE
    if lo is not None:
        t = E.t_and(t, E.t_not(E.t_lt(x, lo)))
    if hi is not None:
        t = E.t_and(t, E.t_not(E.t_lt(hi, x)) if "Inclusive" in r.a[0] else E.t_lt(x, hi))
    return [(st.copy(), t)]


@reg("cosmwasm_std::coins", "cosmwasm_std::coin", "cosmwasm_std::Coin::new")
def m_coin(e, f, args, st):
    n, d = (e.purge(st, D(e, st, a)) for a in args)
    c = adt("cosmwasm_std::Coin", "Coin", ["denom", "amount"], [d, n])
    return [(st.copy(), mk("array", c) if f["np"].endswith("coins") else c)]


@reg("cosmwasm_std::wasm_execute")
def m_wasm_execute(e, f, args, st):
    to, m, funds = (e.purge(st, D(e, st, a)) for a in args)
    return [(st.copy(), ok(adt("cosmwasm_std::WasmMsg", "Execute", ["contract_addr", "msg", "funds"], [to, mk("json", m), funds])))]


@reg("cosmwasm_std::wasm_instantiate")
def m_wasm_instantiate(e, f, args, st):
    code, m, funds, label = (e.purge(st, D(e, st, a)) for a in args)
    return [(st.copy(), ok(adt("cosmwasm_std::WasmMsg", "Instantiate", ["admin", "code_id", "msg", "funds", "label"], [NONE, code, mk("json", m), funds, label])))]


@reg("cosmwasm_std::from_json", "cosmwasm_std::from_binary", "cosmwasm_std::from_slice", "cosmwasm_std::from_json_slice")
def m_unjson(e, f, args, st):
    v = D(e, st, args[0])
    if v.op == "json":
        return [(st.copy(), ok(v.a[0]))]
    ty = e.p.types[f["ga"][0]]["s"] if f["ga"] else "?"
    t = mk("parsed", v, ty)
    a = mk("parses", v, ty)
    out = [(s.copy(), ok(t)) for s in e.assume(st, a, True)]
    out += [(s.copy(), err(mk("parseerr", v))) for s in e.assume(st, a, False)]
    return out


def simple_result(name, val):
    def m(e, f, args, st):
        v = val(e, f, args, st)
        a = mk("ok", v)
        out = [(s.copy(), ok(v)) for s in e.assume(st, a, True)]
        out += [(s.copy(), err(mk("fail", v))) for s in e.assume(st, a, False)]
        return out
    return m


TABLE["cosmwasm_std::QuerierWrapper::query_wasm_smart"] = simple_result(
    "query", lambda e, f, a, st: mk("query", D(e, st, a[1]), e.purge(st, a[2])))
TABLE["cosmwasm_std::QuerierWrapper::query"] = simple_result(
    "query", lambda e, f, a, st: mk("rawquery", e.purge(st, a[1])))
for _n in ("query_balance", "query_supply", "query_bonded_denom", "query_all_balances", "query_wasm_contract_info", "query_wasm_code_info", "query_wasm_raw", "query_validator"):
    TABLE["cosmwasm_std::QuerierWrapper::" + _n] = simple_result(
        _n, lambda e, f, a, st: mk("call", f["np"], *[e.purge(st, x) for x in a[1:]]))


@reg("cw2::set_contract_version")
def m_cw2(e, f, args, st):
    s = st.copy()
    e.effect(s, "ext", "cw2::set_contract_version", *[D(e, st, a) for a in args[1:]])
    return [(s, ok(UNIT))]


# ---- vectors -------------------------------------------------------------------------------
@reg("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def m_vnew(e, f, args, st):
    return [(st.copy(), mk("array"))]


@reg("std::string::String::new", "std::string::String::with_capacity")
def m_snew(e, f, args, st):
    return [(st.copy(), S(""))]


@reg("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def m_push(e, f, args, st):
    s = st.copy()
    v, x = D(e, st, args[0]), e.purge(st, args[1])
    if v.op == "array":
        n = mk("array", *(v.a + (x,)))
    else:
        n = mk("vpush", v, x)
    if args[0].op == "mref":
        e.write_loc(s, args[0].a[0], list(args[0].a[1:]), n)
    return [(s, UNIT)]


@reg("std::vec::Vec::append", "std::iter::Extend::extend", "std::vec::Vec::extend_from_slice")
def m_append(e, f, args, st):
    s = st.copy()
    v, x = D(e, st, args[0]), e.purge(st, args[1])
    if v.op == "array" and x.op == "array":
        n = mk("array", *(v.a + x.a))
    elif v.op == "array" and not v.a:
        n = x
    else:
        n = mk("chain", v, x)
    if args[0].op == "mref":
        e.write_loc(s, args[0].a[0], list(args[0].a[1:]), n)
    return [(s, UNIT)]


@reg("std::boxed::Box::new_uninit")
def m_box(e, f, args, st):
    s = st.copy()
    e.heap += 1
    c = (e.frame << 12 | 4095) + (e.heap << 44)
    s.mem[c] = mk("undef", "box")
    return [(s, mk("mref", c))]


@reg("std::boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(e, f, args, st):
    s = st.copy()
    v = D(e, s, args[0])
    v = e.purge(s, fld(fld(v, "value"), "value"))
    if args[0].op == "mref":
        s.mem.pop(args[0].a[0], None)
    return [(s, v)]


@reg("std::ops::Index::index")
def m_index(e, f, args, st):
    a, b = two(e, st, args)
    return [(st.copy(), e.index(a, b))]


@reg("std::ops::IndexMut::index_mut")
def m_indexmut(e, f, args, st):
    if args[0].op == "mref":
        return [(st.copy(), mk("mref", *(args[0].a + (("i", D(e, st, args[1])),))))]
    return [(st.copy(), e.index(D(e, st, args[0]), D(e, st, args[1])))]


# ---- iterators -----------------------------------------------------------------------------
def elem(it):
    """The generic element of an iterable."""
    if it.op == "imap":
        return it.a[1]
    if it.op == "array":
        if len(it.a) == 1:
            return it.a[0]
    if it.op in ("ifilter", "itake", "iskip", "irev"):
        return elem(it.a[0])
    if it.op == "enumerate":
        return mk("tuple", mk("pos", it.a[0]), elem(it.a[0]))
    if it.op == "zip":
        return mk("tuple", elem(it.a[0]), elem(it.a[1]))
    if it.op == "mu" and False:
        return mk("elem", it)
    return mk("elem", it)


def roots(it):
    """what an iteration ultimately runs over"""
    if it.op in ("imap", "ifilter", "itake", "iskip", "irev", "enumerate"):
        return roots(it.a[0])
    if it.op in ("zip", "flat", "chain"):
        return roots(it.a[0]) | roots(it.a[1])
    return {it} if it.op != "array" else set()


def again(it, frames):
    """An iteration inside one over the same thing has an element of its own."""
    while frames:
        bs = [b for b in roots(it) if any(b in fr for fr in frames)]
        if not bs:
            break
        it = __import__("lib").subst(it, {b: mk("again", b) for b in bs})
    return it


def opened(fn):
    """While the closure runs, the iteration is open."""
    def m(e, f, args, st):
        it = e.purge(st, D(e, st, args[0]))
        new = again(it, e.open)
        e.open.append(roots(new))
        try:
            out = fn(e, f, [new if new is not it else args[0]] + list(args[1:]), st)
        finally:
            e.open.pop()
        if new is not it:
            out = [(s, single_again(v)) for s, v in out]
        return out
    return m


def single_again(v):
    """the name of a repeated iteration is needed only beside the first"""
    for y in list(subterms(v)):
        if y.op == "again" and not contains(v, mk("elem", y.a[0])) and not contains(v, mk("pos", y.a[0])):
            v = __import__("lib").subst(v, {y: y.a[0]})
    return v


@reg("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def m_next(e, f, args, st):
    it = e.purge(st, D(e, st, args[0]))
    lm = st.lm
    if lm in ("first", "unroll") and args[0].op == "mref":
        l = spelled(it)
        if l is not None and (lm == "unroll" or len(l) <= 6):
            s = st.copy()
            s.lm = None
            if lm == "first":
                e.spelled[-1] = True
                return [(s, NONE)]
            if not l:
                return [(s, NONE)]
            x = l.pop() if f["ntr"].endswith("next_back") else l.pop(0)
            e.write_loc(s, args[0].a[0], list(args[0].a[1:]), mk("array", *l))
            return [(s, some(x))]
    if lm is not None and e.open:
        it = again(it, e.open[:-1])
        e.open[-1] |= roots(it)
    s0 = st.copy()
    s0.lm = None
    out = []
    if lm == "enter" and e.iters:
        e.iters[-1].append(it)
    none = E.t_eq(count(it), I(0))
    fresh = lm is None and e.truth(s0, none) is None     # the first step, outside a loop
    if lm != "enter":
        if lm == "first":
            for z in e.assume(s0, none, True):
                z = z.copy()
                z.bk = z.bk | {"zero"}
                out.append((z, NONE))
        elif lm is None and it.op == "iter" and fresh:
            out.extend((z.copy(), NONE) for z in e.assume(s0, none, True))
        else:
            out.append((s0.copy(), NONE))
    if lm != "exit" and not (it.op == "array" and not it.a):
        if lm in ("first", "enter") or lm is None and it.op == "iter" and fresh:
            out.extend((z.copy(), some(elem(it))) for z in e.assume(s0, none, False))
        else:
            out.append((s0, some(elem(it))))
    return out


def spelled(it):
    """the elements, where they are written out one by one"""
    if it.op == "array":
        return list(it.a)
    if it.op == "irev":
        l = spelled(it.a[0])
        return l and l[::-1]
    if it.op == "enumerate":
        l = spelled(it.a[0])
        return l and [mk("tuple", I(i), x) for i, x in enumerate(l)]
    if it.op == "zip":
        a, b = spelled(it.a[0]), spelled(it.a[1])
        return a and b and [mk("tuple", x, y) for x, y in zip(a, b)]
    return None


def count(it):
    """how many elements an iteration has"""
    while it.op in ("imap", "enumerate", "irev", "again") and it.a[0].op != "flat":
        it = it.a[0]
    return I(len(it.a)) if it.op == "array" else mk("len", it)


def in_loop(e):
    return False


def hof(kind):
    """Adaptor taking a closure applied to the generic element."""
    def m(e, f, args, st):
        it = e.purge(st, D(e, st, args[0]))
        x = elem(it)
        outs = []
        if it.op == "array" and not it.a:
            base = mk("array")
            return [(st.copy(), {"map": base, "filter": base, "filter_map": base, "flat_map": base}.get(kind, base))]
        xs = spelled(it) if kind in ("map", "filter", "filter_map") else None
        if xs is not None and len(xs) <= 6:
            r = one_by_one(e, kind, args[1], xs, st)
            if r is not None:
                return r
        pre = st
        first = e.call_value(args[1], [x], pre)
        # what the closure changes outside itself is changed in every iteration
        wid = {}
        for s, r in first:
            for c, v in s.mem.items():
                if c in pre.mem and pre.mem[c] is not v:
                    wid.setdefault(c, []).append(v)
        pre = widened(e, st, first)
        if pre is not st:
            for c, vs in wid.items():
                v0 = st.mem[c]
                if v0 is I(0) and len(vs) == len(first) and all(v is I(1) for v in vs):
                    pre.mem[c] = mk("pos", it)      # counts the elements
            first = e.call_value(args[1], [x], pre)
        good = [s for s, r in first if not is_adt(e.purge(s, r), "Err")]
        single = all(is_adt(e.purge(s, r), "Ok") or is_adt(e.purge(s, r), "Some") for s, r in first)
        for s, r in first:
            s = drop_new_facts(e, pre, s, x, good)
            r = e.purge(s, r)
            if kind == "map":
                outs.append((s, it if r is mk("elem", it) else mk("imap", it, r)))
            elif kind == "filter_map":
                if is_adt(r, "None"):
                    continue
                outs.append((s, mk("imap", mk("ifilter", it, E.t_isv(r, "Some", OPT)), payload(r, "Some"))))
            elif kind == "flat_map" and single:
                outs.append((s, mk("imap", it, payload(r, r.a[1]))))
            elif kind == "flat_map":
                outs.append((s, mk("imap", mk("flat", it, r), elem(r))))
            elif kind == "filter":
                if r is FALSE:
                    continue
                outs.append((s, mk("ifilter", it, r if r is not TRUE else newfacts(e, pre, s))))
        if not outs:
            outs.append((st.copy(), mk("array")))
        return dedupe(e, outs)
    return m


def one_by_one(e, kind, f, xs, st):
    """an adaptor over a list that is spelled out: its closure on each element in turn"""
    now = [(st.copy(), ())]
    for x in xs:
        nxt = []
        for s, vs in now:
            for s1, r in e.call_value(f, [x], s):
                r = e.purge(s1, r)
                if kind == "map":
                    nxt.append((s1.copy(), vs + (r,)))
                elif kind == "filter":
                    for b in (True, False):
                        if r is (TRUE if b else FALSE) or r not in (TRUE, FALSE):
                            for s2 in ([s1] if r in (TRUE, FALSE) else e.assume(s1, r, b)):
                                nxt.append((s2.copy(), vs + (x,) if b else vs))
                elif is_adt(r, "None"):
                    nxt.append((s1.copy(), vs))
                elif is_adt(r, "Some"):
                    nxt.append((s1.copy(), vs + (payload(r, "Some"),)))
                else:
                    for b in (True, False):
                        for s2 in e.assume(s1, E.t_isv(r, "Some", OPT), b):
                            nxt.append((s2.copy(), vs + (payload(r, "Some"),) if b else vs))
        now = nxt
        if len(now) > 32:
            return None
    return [(s, mk("array", *vs)) for s, vs in now]


def newfacts(e, a, b):
    c = TRUE
    for l in e.lits(b, a):
        c = E.t_and(c, l)
    return c


def drop_new_facts(e, pre, s, x, good=()):
    """Facts established inside an iterator closure hold per element only (the iteration may be
    empty): keep those that speak about the element, and those that just tell apart two outcomes of
    the closure that both succeed (the empty iteration is then under either); drop the others."""
    s = s.copy()
    if x.n <= 1 and x.op != "elem":
        return s
    def about(k):
        if k.__class__ is tuple:
            k = k[1]
        return contains(k, x) or any(y.op in ("elem", "pos") for y in subterms(k))
    def both(k, v):
        return v.__class__ is bool and any(o.facts.get(k) is (not v) for o in good)
    s.facts = {k: v for k, v in s.facts.items() if k in pre.facts or about(k) or both(k, v)}
    s.var = {k: v for k, v in s.var.items() if k in pre.var or about(k)}
    return s


def dedupe(e, outs):
    g = {}
    for s, v in outs:
        g.setdefault((v, s.eff, frozenset(s.mem.items())), []).append(s)
    return [(e.join(ss), k[0]) for k, ss in g.items()]


TABLE["std::iter::Iterator::map"] = opened(hof("map"))
TABLE["std::iter::Iterator::filter"] = opened(hof("filter"))
TABLE["std::iter::Iterator::filter_map"] = opened(hof("filter_map"))
TABLE["std::iter::Iterator::flat_map"] = opened(hof("flat_map"))


def widened(e, st, outs):
    """The state a later iteration starts from: what the closure changes outside itself (in memory,
    in storage) is no longer as it was before the first."""
    wid, nss = {}, set()
    for s, r in outs:
        for c, v in s.mem.items():
            if c in st.mem and st.mem[c] is not v:
                l = wid.setdefault(c, [])
                if v not in l:
                    l.append(v)
        nss |= {ns for ns in s.stw if s.stw.get(ns) != st.stw.get(ns)}
    h = st
    if wid or nss:
        h = st.copy()
        for c, vs in wid.items():
            h.mem[c] = e.widen(st.mem[c], vs)
        for ns in nss:
            h.stw[ns] = ()
            h.ver[ns] = "c" if not isinstance(st.ver.get(ns), str) else st.ver[ns] + "c"
    return h


def closure_bool(kind, spell=False):
    def m(e, f, args, st):
        it = e.purge(st, D(e, st, args[0]))
        x = elem(it)
        conds = []
        st0 = st
        outs = e.call_value(args[1], [x], st)
        st = widened(e, st, outs)
        if st is not st0:
            outs = e.call_value(args[1], [x], st)
        for s, r in outs:
            r = e.purge(s, r)
            c = newfacts(e, st, s)
            conds.append((c, r))
        # any/all over the disjunction of the outcomes' conditions
        t = FALSE
        for c, r in conds:
            t = E.t_or(t, E.t_and(c, r))
        xs = spelled(it) if spell else None
        if xs and len(xs) <= 6:
            v = one_of([__import__("lib").subst(t if kind == "iany" else E.t_not(t), {x: y}) for y in xs])
            v = v if kind == "iany" else E.t_not(v)
        else:
            v = mk(kind, it, t) if kind != "iall" else E.t_not(mk("iany", it, E.t_not(t)))
        if st is st0 and all(s.eff is st.eff for s, r in outs):
            return [(st.copy(), v)]
        # it may end before, or after, any of the elements
        return dedupe(e, [(st0.copy(), v)] + [(drop_new_facts(e, st, s, x), v) for s, r in outs])
    return m


def one_of(ts):
    t = FALSE
    for y in ts:
        t = E.t_or(t, y)
    return t


TABLE["std::iter::Iterator::any"] = opened(closure_bool("iany", True))
TABLE["std::iter::Iterator::all"] = opened(closure_bool("iall", True))


@reg("core::slice::first")
def m_first(e, f, args, st):
    l = e.purge(st, D(e, st, args[0]))
    if l.op == "array":
        return [(st.copy(), some(l.a[0]) if l.a else NONE)]
    return [(st.copy(), mk("first", l))]


@reg("core::slice::get")
def m_get(e, f, args, st):
    l, i = e.purge(st, D(e, st, args[0])), D(e, st, args[1])
    out = []
    c = E.t_lt(i, mk("len", l))
    for s in e.assume(st, c, True):
        out.append((s.copy(), some(e.index(l, i))))
    for s in e.assume(st, c, False):
        out.append((s.copy(), NONE))
    return out


@reg("core::slice::contains", "std::collections::HashSet::contains", "std::collections::BTreeSet::contains")
def m_contains(e, f, args, st):
    a, b = two(e, st, args)
    a, b = e.purge(st, a), e.purge(st, b)
    a = again(a, e.open) if contains(b, mk("elem", a)) else a
    xs = spelled(a)
    if xs and len(xs) <= 6:
        return [(st.copy(), one_of([E.t_eq(x, b) for x in xs]))]
    return [(st.copy(), mk("iany", a, E.t_eq(elem(a), b)))]


@reg("std::iter::Iterator::position")
def m_position(e, f, args, st):
    r = opened(closure_bool("iany"))(e, f, args, st)
    c = r[0][1]
    out = []
    for s in e.assume(st, c, True):
        out.append((s.copy(), some(mk("position", *c.a))))
    for s in e.assume(st, c, False):
        out.append((s.copy(), NONE))
    return out


@reg("std::iter::Iterator::find")
def m_find(e, f, args, st):
    it = e.purge(st, D(e, st, args[0]))
    r = opened(closure_bool("iany"))(e, f, args, st)
    c = r[0][1]
    out = []
    for s in e.assume(st, c, True):
        s = s.copy()
        v = mk("found", *c.a)
        out.append((s, some(v)))
    for s in e.assume(st, c, False):
        out.append((s.copy(), NONE))
    return out


def foreach(kind):
    def m(e, f, args, st):
        it = e.purge(st, D(e, st, args[0]))
        x = elem(it)
        tr = kind in ("try_for_each", "try_fold")
        acc0 = e.purge(st, D(e, st, args[1])) if "fold" in kind else None
        fv = args[2] if "fold" in kind else args[1]
        out = []
        okw = (lambda v: ok(v)) if tr else (lambda v: v)
        nothing = E.t_eq(count(it), I(0))
        zero = [z.copy() for z in e.assume(st, nothing, True)]
        out += [(z, okw(acc0 if acc0 is not None else UNIT)) for z in zero]
        if it.op == "array" and not it.a:
            return out
        some_ = e.assume(st, nothing, False)
        if not some_:
            return out
        st = some_[0].copy()
        # widen what the closure changes: run once to find out, then again from the widened state
        def run(s0, acc):
            a = [acc, x] if acc is not None else [x]
            return e.call_value(fv, a, s0)
        first = run(st, acc0)
        h = widened(e, st, first)
        if h is st:
            h = st.copy()
        acc = None
        if acc0 is not None:
            vs = []
            for s, r in first:
                r = e.purge(s, r)
                if tr:
                    if is_adt(r, "Err"):
                        continue
                    r = payload(r, "Ok")
                if r not in vs and r is not acc0:
                    vs.append(r)
            acc = mk("mu", acc0, *vs) if vs else acc0
        done = []
        ran = run(h, acc)
        for s, r in ran:
            if not (tr and is_adt(e.purge(s, r), "Err")):
                done.append(s.copy())
        built = e.collected(st, h, done, [c for c, v in h.mem.items() if st.mem.get(c) is not v], [it])
        for z in zero:
            for c, v in built.items():
                z.mem[c] = v
        for s, r in ran:
            for c, v in built.items():
                s.mem[c] = v
            s = drop_new_facts(e, st, s, x)
            r = e.purge(s, r)
            if tr and is_adt(r, "Err"):
                out.append((s, r))
            elif tr:
                if is_adt(r, "Ok"):
                    out.append((s, r))
                else:
                    for s1 in e.assume(s, E.t_isv(r, "Ok", RES), True):
                        out.append((s1.copy(), ok(payload(r, "Ok"))))
                    for s1 in e.assume(s, E.t_isv(r, "Ok", RES), False):
                        out.append((s1.copy(), err(payload(r, "Err"))))
            else:
                out.append((s, r if acc0 is not None else UNIT))
        e.loop_recs.append((e.site, h.eff, done, h))
        return dedupe(e, out)
    return m


for _n in ("for_each", "try_for_each", "fold", "try_fold"):
    TABLE["std::iter::Iterator::" + _n] = opened(foreach(_n))


@reg("std::iter::Iterator::collect")
def m_collect(e, f, args, st):
    it = e.purge(st, D(e, st, args[0]))
    ret = e.p.types[f["ga"][1]]["s"] if len(f["ga"]) > 1 else ""
    if ret.startswith("std::result::Result<"):
        if it.op == "imap":
            r = it.a[1]
            if is_adt(r, "Ok"):
                return [(st.copy(), ok(mk("imap", it.a[0], payload(r, "Ok"))))]
            if is_adt(r, "Err"):
                # an element failed; the iteration may also be empty
                s = st.copy()
                return [(s, r)]
            a = E.t_isv(r, "Ok", RES)
            out = [(s.copy(), ok(mk("imap", it.a[0], payload(r, "Ok")))) for s in e.assume(st, a, True)]
            out += [(s.copy(), err(payload(r, "Err"))) for s in e.assume(st, a, False)]
            return out
        if it.op == "array":
            out, now = [], [(st.copy(), ())]
            for r in it.a:
                nxt = []
                for s, vs in now:
                    if is_adt(r, "Ok"):
                        nxt.append((s, vs + (payload(r, "Ok"),)))
                    elif is_adt(r, "Err"):
                        out.append((s, err(payload(r, "Err"))))
                    else:
                        a = E.t_isv(r, "Ok", RES)
                        nxt += [(s1.copy(), vs + (payload(r, "Ok"),)) for s1 in e.assume(s, a, True)]
                        out += [(s1.copy(), err(payload(r, "Err"))) for s1 in e.assume(s, a, False)]
                now = nxt
            return out + [(s, ok(mk("array", *vs))) for s, vs in now]
        c = it
        x = elem(it)
        a = mk("allok", it)
        out = [(s.copy(), ok(mk("imap", it, payload(x, "Ok")))) for s in e.assume(st, a, True)]
        out += [(s.copy(), err(mk("fail", it))) for s in e.assume(st, a, False)]
        return out
    return [(st.copy(), simpmap(it))]


def simpmap(it):
    if it.op == "imap" and it.a[1] is elem(it.a[0]):
        return it.a[0]
    return it


@reg("std::iter::Iterator::take")
def m_take(e, f, args, st):
    return [(st.copy(), mk("itake", e.purge(st, D(e, st, args[0])), D(e, st, args[1])))]


@reg("std::iter::Iterator::skip")
def m_skip(e, f, args, st):
    return [(st.copy(), mk("iskip", e.purge(st, D(e, st, args[0])), D(e, st, args[1])))]


@reg("std::iter::Iterator::rev")
def m_rev(e, f, args, st):
    return [(st.copy(), mk("irev", e.purge(st, D(e, st, args[0]))))]


@reg("std::slice::reverse", "core::slice::reverse")
def m_reverse(e, f, args, st):
    s = st.copy()
    v = D(e, st, args[0])
    if v.op == "array":
        n = mk("array", *reversed(v.a))
    else:
        n = v.a[0] if v.op == "irev" else mk("irev", v)
    if args[0].op == "mref":
        e.write_loc(s, args[0].a[0], list(args[0].a[1:]), n)
    return [(s, UNIT)]


@reg("std::iter::Iterator::enumerate")
def m_enum(e, f, args, st):
    return [(st.copy(), mk("enumerate", e.purge(st, D(e, st, args[0]))))]


@reg("std::iter::Iterator::zip")
def m_zip(e, f, args, st):
    return [(st.copy(), mk("zip", e.purge(st, D(e, st, args[0])), e.purge(st, D(e, st, args[1]))))]


@reg("std::iter::Iterator::flatten")
def m_flatten(e, f, args, st):
    it = e.purge(st, D(e, st, args[0]))
    out = []
    for s, v in e.split_phi(st, it) if hasattr(e, "split_phi") else [(st.copy(), it)]:
        if v.op == "imap":
            r = v.a[1]
            v = mk("array") if r.op == "array" and not r.a else mk("imap", mk("flat", v.a[0], r), elem(r))
        elif v.op == "array" and all(x.op == "array" for x in v.a):
            v = mk("array", *[y for x in v.a for y in x.a])
        else:
            v = mk("call", "std::iter::Iterator::flatten", v)
        out.append((s, v))
    return out


@reg("std::iter::Iterator::chain")
def m_chain(e, f, args, st):
    a, b = e.purge(st, D(e, st, args[0])), e.purge(st, D(e, st, args[1]))
    if a.op == "array" and b.op == "array":
        return [(st.copy(), mk("array", *(a.a + b.a)))]
    return [(st.copy(), mk("chain", a, b))]


@reg("std::iter::Iterator::sum")
def m_sum(e, f, args, st):
    it = e.purge(st, D(e, st, args[0]))
    return [(st.copy(), mk("sum", it))]


def pushed(v0, v):
    """what was pushed onto v0 to get v"""
    if v.op == "vpush" and v.a[0] is v0:
        return v.a[1]
    if v.op == "array" and v0.op == "array" and len(v.a) == len(v0.a) + 1 and v.a[:-1] == v0.a:
        return v.a[-1]
    return None


@reg("std::iter::Iterator::partition")
def m_partition(e, f, args, st):
    it = e.purge(st, D(e, st, args[0]))
    if it.op == "array" and not it.a:
        return [(st.copy(), mk("tuple", it, it))]
    c = opened(closure_bool("iany"))(e, f, args, st)[0][1]
    cond = c.a[1] if c.op == "iany" else c
    s = st.copy()
    # what the closure collects on the side
    side = {}
    outs = e.call_value(args[1], [elem(it)], st)
    for o, r in outs:
        t = e.truth(o, r)
        for cell, v0 in st.mem.items():
            v = o.mem.get(cell)
            if v is not None:
                side.setdefault(cell, []).append((t, v))
    for cell, l in side.items():
        v0 = st.mem[cell]
        if all(v is v0 for _, v in l):
            continue
        for want, cnd in ((True, cond), (False, E.t_not(cond))):
            ys = {pushed(v0, v) for t, v in l if t is want}
            if len(ys) == 1 and None not in ys and all((t is want) or (t is (not want) and v is v0) for t, v in l):
                col = mk("imap", mk("ifilter", it, cnd), ys.pop())
                s.mem[cell] = col if v0.op == "array" and not v0.a else mk("chain", v0, col)
                break
        else:
            s.mem[cell] = e.widen(v0, [v for _, v in l])
    return [(s, mk("tuple", mk("ifilter", it, cond), mk("ifilter", it, E.t_not(cond))))]


@reg("std::vec::Vec::retain")
def m_retain(e, f, args, st):
    it = e.purge(st, D(e, st, args[0]))
    c = opened(closure_bool("iany"))(e, f, [it, args[1]], st)[0][1]
    s = st.copy()
    if args[0].op == "mref":
        e.write_loc(s, args[0].a[0], list(args[0].a[1:]), mk("ifilter", it, c.a[1] if c.op == "iany" else c))
    return [(s, UNIT)]


@reg("std::iter::Iterator::max_by", "std::iter::Iterator::max_by_key", "std::iter::Iterator::min_by", "std::slice::sort_by", "core::slice::sort_by", "std::iter::Iterator::max", "std::iter::Iterator::min")
def m_opaque_hof(e, f, args, st):
    # the comparison closure is evaluated on two generic elements and kept in the term
    it = e.purge(st, D(e, st, args[0]))
    ts = []
    if len(args) > 1:
        x = elem(it)
        for s, r in e.call_value(args[1], [mk("lhs", x), mk("rhs", x)] if "by_key" not in f["np"] else [x], st):
            ts.append(E.t_and(newfacts(e, st, s), mk("ret", e.purge(s, r))))
    op = (f["ntr"] or f["np"]).split("::")[-1]
    n = None
    if op in ("max", "min"):
        n = mk("i" + op, it)
    elif op in ("max_by", "min_by"):
        # the natural order (or its reverse) by another name
        l, r = mk("lhs", x), mk("rhs", x)
        nat = lambda a, b: {("Less", E.t_lt(a, b)), ("Greater", E.t_and(E.t_not(E.t_lt(a, b)), E.t_lt(b, a))),
                            ("Equal", E.t_and(E.t_not(E.t_lt(a, b)), E.t_not(E.t_lt(b, a))))}
        got = set()
        for t in ts:
            if t.op == "and" and t.a[1].op == "ret" and t.a[1].a[0].op == "adt":
                got.add((t.a[1].a[0].a[1], t.a[0]))
        if got == nat(l, r):
            n = mk("i" + op[:3], it)
        elif got == nat(r, l):
            n = mk("imin" if op[:3] == "max" else "imax", it)
    if n is None:
        n = mk("call", f["ntr"] or f["np"], it, *ts)
    s = st.copy()
    if "sort" in f["np"]:
        if args[0].op == "mref":
            e.write_loc(s, args[0].a[0], list(args[0].a[1:]), n)
        return [(s, UNIT)]
    return [(s, n)]


# ---- in-memory maps --------------------------------------------------------------------------
def hm_get(e, st, m, k):
    """[(state, present, value)] of what map m holds at k"""
    if m.op == "hmnew":
        return [(st, False, None)]
    if m.op == "phi":
        out = []
        for c, x in phi_cases(m):
            ss = [st]
            for l in c.a:
                ss = [s2 for s1 in ss for s2 in e.assume(s1, l, True)]
            for s1 in ss:
                out += hm_get(e, s1, x, k)
        return out
    if m.op == "hmins":
        if m.a[1] is k:
            return [(st, True, m.a[2])]
        q = E.t_eq(m.a[1], k)
        return [(s, True, m.a[2]) for s in e.assume(st, q, True)] + [r for s in e.assume(st, q, False) for r in hm_get(e, s, m.a[0], k)]
    g = mk("hmget", m, k)
    q = E.t_isv(g, "Some")
    return [(s, True, payload(g, "Some")) for s in e.assume(st, q, True)] + [(s, False, None) for s in e.assume(st, q, False)]


def hm_opt(e, st, m, k):
    return [(s.copy(), some(v) if p else NONE) for s, p, v in hm_get(e, st, m, k)]


@reg("std::collections::HashMap::new", "std::collections::BTreeMap::new")
def m_hmnew(e, f, args, st):
    return [(st.copy(), mk("hmnew"))]


@reg("std::collections::HashMap::get", "std::collections::BTreeMap::get")
def m_hmget(e, f, args, st):
    return hm_opt(e, st, e.purge(st, D(e, st, args[0])), e.purge(st, D(e, st, args[1])))


@reg("std::collections::HashMap::insert", "std::collections::BTreeMap::insert")
def m_hmins(e, f, args, st):
    if args[0].op != "mref":
        return None
    m, k, v = e.purge(st, D(e, st, args[0])), e.purge(st, D(e, st, args[1])), e.purge(st, D(e, st, args[2]))
    out = []
    for s, r in hm_opt(e, st, m, k):
        b = m
        while b.op == "hmins" and b.a[1] is k:
            b = b.a[0]
        e.write_loc(s, args[0].a[0], list(args[0].a[1:]), mk("hmins", b, k, v))
        out.append((s, r))
    return out


def hm_at(e, st, r, k):
    """[(state, a reference to what the map behind r holds at k, or None)]"""
    out = []
    for s, there, v in hm_get(e, st, e.purge(st, D(e, st, r)), k):
        s = s.copy()
        if there:
            m = e.purge(s, D(e, s, r))
            if m.op != "hmget" and v is not payload(mk("hmget", m, k), "Some"):
                hm_put(e, s, r, k, v)
        out.append((s, mk("mref", *(r.a + (("h", k),))) if there else None))
    return out


def hm_put(e, s, r, k, v):
    b = e.purge(s, D(e, s, r))
    while b.op == "hmins" and b.a[1] is k:
        b = b.a[0]
    e.write_loc(s, r.a[0], list(r.a[1:]), mk("hmins", b, k, v))


@reg("std::collections::HashMap::get_mut", "std::collections::BTreeMap::get_mut")
def m_hmgetmut(e, f, args, st):
    if args[0].op != "mref":
        return None
    return [(s, some(r) if r is not None else NONE) for s, r in hm_at(e, st, args[0], e.purge(st, D(e, st, args[1])))]


@reg("std::collections::HashMap::contains_key", "std::collections::BTreeMap::contains_key")
def m_hmhas(e, f, args, st):
    return [(s.copy(), TRUE if p else FALSE) for s, p, v in hm_get(e, st, e.purge(st, D(e, st, args[0])), e.purge(st, D(e, st, args[1])))]


@reg("std::collections::HashMap::entry", "std::collections::BTreeMap::entry")
def m_hmentry(e, f, args, st):
    if args[0].op != "mref":
        return None
    return [(st.copy(), mk("hment", args[0], e.purge(st, D(e, st, args[1]))))]


def hm_or(e, ent, st, make):
    out = []
    for s, r in hm_at(e, st, ent.a[0], ent.a[1]):
        if r is not None:
            out.append((s, r))
            continue
        for s2, v in make(s):
            s2 = s2.copy()
            hm_put(e, s2, ent.a[0], ent.a[1], e.purge(s2, v))
            out.append((s2, mk("mref", *(ent.a[0].a + (("h", ent.a[1]),)))))
    return out


for _k in ("hash_map", "btree_map"):
    _E = "std::collections::%s::Entry::" % _k

    @reg(_E + "or_default")
    def m_ordefault(e, f, args, st):
        return hm_or(e, args[0], st, lambda s: m_default(e, {"ga": f["ga"][1:2]}, [], s)) if args[0].op == "hment" else None

    @reg(_E + "or_insert")
    def m_orinsert(e, f, args, st):
        return hm_or(e, args[0], st, lambda s: [(s, args[1])]) if args[0].op == "hment" else None

    @reg(_E + "or_insert_with")
    def m_orinsertwith(e, f, args, st):
        return hm_or(e, args[0], st, lambda s: e.call_value(D(e, s, args[1]), [], s)) if args[0].op == "hment" else None

    @reg(_E + "and_modify")
    def m_andmodify(e, f, args, st):
        if args[0].op != "hment":
            return None
        out = []
        for s, r in hm_at(e, st, args[0].a[0], args[0].a[1]):
            out += [(s, args[0])] if r is None else [(s2, args[0]) for s2, _ in e.call_value(D(e, s, args[1]), [r], s)]
        return out


@reg("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def m_call(e, f, args, st):
    a = D(e, st, args[1]) if len(args) > 1 else UNIT
    fv = D(e, st, args[0])
    if fv.op in ("closure", "fnv"):
        return e.call_value(fv, list(a.a) if a.op == "tuple" else [a], st)
    return None


# ---- misc ----------------------------------------------------------------------------------
@reg("std::default::Default::default")
def m_default(e, f, args, st):
    if "bb" in f and not f.get("der"):
        return None
    ty = f.get("self") or (e.p.types[f["ga"][0]]["s"] if f["ga"] else "")
    t = ty.split("<")[0]
    if t.endswith("::Response"):
        return [(st.copy(), resp())]
    if t.endswith(("::Vec", "::VecDeque", "::HashSet")):
        return [(st.copy(), mk("array"))]
    if t.endswith(("::HashMap", "::BTreeMap")):
        return [(st.copy(), mk("hmnew"))]
    if t.endswith("::String"):
        return [(st.copy(), S(""))]
    if t.split("::")[-1] in ("Uint128", "Uint64", "Uint256", "u64", "u128", "u32", "u8", "usize", "i64", "Decimal"):
        return [(st.copy(), I(0))]
    if t == "bool":
        return [(st.copy(), FALSE)]
    if t.endswith("::Option"):
        return [(st.copy(), NONE)]
    if "bb" in f:
        return None
    return [(st.copy(), mk("default", ty))]


@reg("std::fmt::format", "std::fmt::Arguments::new", "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug",
     "std::fmt::Arguments::from_str", "std::fmt::Arguments::new_v1", "std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::new_const")
def m_fmt(e, f, args, st):
    return [(st.copy(), mk("fmt", *[e.purge(st, D(e, st, a)) for a in args]))]


@reg("std::mem::take", "std::mem::replace", "std::option::Option::take_")
def m_take_(e, f, args, st):
    s = st.copy()
    v = D(e, st, args[0])
    new = e.purge(st, args[1]) if len(args) > 1 else mk("default", v)
    if args[0].op == "mref":
        e.write_loc(s, args[0].a[0], list(args[0].a[1:]), new)
    return [(s, v)]


@reg("std::clone::Clone::clone_from")
def m_clonefrom(e, f, args, st):
    s = st.copy()
    if args[0].op == "mref":
        e.write_loc(s, args[0].a[0], list(args[0].a[1:]), D(e, st, args[1]))
    return [(s, UNIT)]


# ---- cw-storage-plus -----------------------------------------------------------------------
def ns_of(e, st, a):
    v = D(e, st, a)
    if v.op == "store":
        return v
    return None


def key_of(e, st, v):
    return e.purge(st, D(e, st, v))


def sp_model(e, f, args, st):
    np = f["np"]
    parts = np.split("::")
    m, ty = parts[-1], parts[-2]
    if m == "new" and ty in ("Item", "Map", "SnapshotItem", "SnapshotMap", "Deque", "IndexedMap", "IndexedSnapshotMap"):
        a = [e.purge(st, D(e, st, x)) for x in args]
        ns = a[0].a[0] if a[0].op == "str" else show(a[0])
        return [(st.copy(), mk("store", ns, ty, *a[1:]))]
    if ty not in ("Item", "Map", "SnapshotItem", "SnapshotMap", "IndexedMap", "IndexedSnapshotMap"):
        return None
    sv = D(e, st, args[0])
    if sv.op == "phi":
        # which store is used depends on the path: one run per case
        out = []
        for c, x in phi_cases(sv):
            ss = [st]
            for l in c.a:
                ss = [s2 for s1 in ss for s2 in e.assume(s1, l, True)]
            for s1 in ss:
                out += sp_model(e, f, [x] + list(args[1:]), s1)
        return out
    if sv.op == "store":
        ns = sv.a[0]
    else:
        ns = "?" + show(sv)
    item = ty in ("Item", "SnapshotItem")
    snap = ty in ("SnapshotItem", "SnapshotMap", "IndexedSnapshotMap")
    rest = args[2:]
    key = UNIT
    if m in ("load", "may_load", "has", "exists", "save", "update", "remove", "may_load_at_height", "replace", "clear", "add_checkpoint", "remove_checkpoint"):
        if not item and m != "clear":
            key = key_of(e, st, rest[0])
            rest = rest[1:]
    if m in ("load", "may_load", "has", "exists"):
        out = []
        for s, present, v in e.st_read(st, ns, key):
            s = s.copy()
            if m == "load":
                out.append((s, ok(v) if present else err(mk("notfound", ns))))
            elif m == "may_load":
                out.append((s, ok(some(v)) if present else ok(NONE)))
            else:
                out.append((s, TRUE if present else FALSE))
        return out
    if m == "may_load_at_height":
        h = D(e, st, rest[0])
        ver = st.ver.get(ns, 0) if not st.stw.get(ns) else "w"
        v = mk("stat", ns, key, h, ver)
        a = mk("hasat", ns, key, h, ver)
        out = [(s.copy(), ok(some(v))) for s in e.assume(st, a, True)]
        out += [(s.copy(), ok(NONE)) for s in e.assume(st, a, False)]
        return out
    if m == "save":
        s = e.st_write(st, ns, key, rest[0])
        if snap:
            e.effect(s, "height", S(ns), D(e, st, rest[1]))
        return [(s, ok(UNIT))]
    if m == "remove":
        s = e.st_write(st, ns, key, None)
        if snap and rest:
            e.effect(s, "height", S(ns), D(e, st, rest[0]))
        return [(s, UNIT if not snap and ty != "IndexedMap" else ok(UNIT))]
    if m == "update":
        fv = rest[-1]
        out = []
        for s, present, v in e.st_read(st, ns, key):
            if item and ty == "Item":
                if not present:
                    out.append((s.copy(), err(mk("notfound", ns))))
                    continue
                a = v
            else:
                a = some(v) if present else NONE
            for s1, r in e.call_value(fv, [a], s):
                r = D(e, s1, r)
                oks = []
                if is_adt(r, "Ok"):
                    oks = [(s1, payload(r, "Ok"))]
                elif is_adt(r, "Err"):
                    out.append((s1.copy(), r))
                else:
                    at = E.t_isv(r, "Ok", RES)
                    oks = [(x, payload(r, "Ok")) for x in e.assume(s1, at, True)]
                    for x in e.assume(s1, at, False):
                        out.append((x.copy(), err(payload(r, "Err"))))
                for s2, nv in oks:
                    s3 = e.st_write(s2, ns, key, nv)
                    if snap:
                        e.effect(s3, "height", S(ns), D(e, st, rest[0]))
                    out.append((s3, ok(nv)))
        return out
    if m in ("range", "keys", "prefix", "prefix_range", "sub_prefix", "range_raw", "keys_raw", "idx"):
        a = [e.purge(st, D(e, st, x)) for x in args[1:]]
        a = [x for x in a if not e.is_storage(x)]
        ver = st.ver.get(ns, 0) if not st.stw.get(ns) else "w"
        return [(st.copy(), mk("iter", m, ns, ver, *a))]
    if m == "clear":
        s = st.copy()
        s.stw[ns] = ()
        s.ver[ns] = "c"
        e.effect(s, "clear", S(ns))
        return [(s, UNIT)]
    return None


def prefix_model(e, f, args, st):
    np = f["np"]
    m = np.split("::")[-1]
    if m in ("range", "keys", "range_raw", "keys_raw", "prefix"):
        b = D(e, st, args[0])
        a = [e.purge(st, D(e, st, x)) for x in args[1:]]
        a = [x for x in a if not e.is_storage(x)]
        return [(st.copy(), mk("iter", m, b, *a))]
    return None


def PREFIX(f):
    c = f["c"]
    np = f["np"]
    if c == "cw_storage_plus":
        parts = np.split("::")
        if len(parts) >= 2 and parts[-2] in ("Prefix", "MultiIndex", "UniqueIndex"):
            return prefix_model
        return sp_model
    if np.startswith(NUM):
        return num_model
    if f["ntr"] and f["ntr"].startswith(("prost::Message", "std::fmt", "serde", "schemars", "std::hash")):
        return m_opaque
    return None


def m_opaque(e, f, args, st):
    return e.opaque_call(f, args, st)
