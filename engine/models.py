"""Abstract models of the C++ standard library and libc calls the library uses."""
import re

from .state import I, NULL, TRUE, FALSE, add_const, fresh_no
from .interp import bt, bad, is_ref, is_seq, is_scalar_rec, targ, pointee, Throw, Abort, Call

MODELS = {}
PREFIX = []


def model(*qs):
    def d(f):
        for q in qs:
            MODELS[q] = f
        return f
    return d


def prefix(*qs):
    def d(f):
        for q in qs:
            PREFIX.append((q, f))
        return f
    return d


def A(it, st, c, i):
    pt = c.node.get("pt", [])
    return it.rv(st, c.args[i], pt[i] if i < len(pt) else "", c.l, c.frame)


def lam_call(it, st, f, args, c):
    """call a callable given as an evaluation result -> [(st, val|bad)]"""
    if f[0] == "loc":
        L = it.loc_of(st, f)
        r = it.prog.records.get(st.typ.get(L) or "")
        if r is not None and r.get("lambda"):
            return it.call_closure(st, L, args, c, c.frame)
        if r is not None:
            return it.call_method(st, r["id"], "operator()", L, args, c, c.frame)
        f = it.load(st, L)
    return it.call_value(st, f, args, c, c.frame)


def lam_bool(it, st, f, args, c):
    out = []
    for s, v in lam_call(it, st, f, args, c):
        if bad(v):
            out.append((s, v))
        else:
            out += it.split_true(s, it.rv(s, v))
    return out


# ---- trivial -------------------------------------------------------------------
@model("std::forward", "std::move", "std::as_const", "std::move_if_noexcept", "std::launder")
def m_id(it, st, c):
    return [(st, c.args[0])]


@model("std::ref", "std::cref")
def m_ref(it, st, c):
    return [(st, ("p", it.loc_of(st, c.args[0])))]


@model("std::addressof", "std::__addressof")
def m_addr(it, st, c):
    return [(st, ("p", it.loc_of(st, c.args[0])))]


@model("std::exchange")
def m_exchange(it, st, c):
    L = it.loc_of(st, c.args[0])
    if is_seq(c.t):
        T = it.new_root("t")
        it.seq(st, L)
        st.copy_cells(L, T)
        src = it.loc_of(st, c.args[1])
        replace_seq(it, st, L, it.seq(st, src), src, c)
        return [(st, ("loc", T))]
    o = it.load(st, L, c.t, c.l, c.frame)
    it.store(st, L, A(it, st, c, 1), c.l, c.frame)
    return [(st, o)]


def replace_seq(it, st, L, items, src, c):
    """the container at L gets the items of src; the rule sees the change while the old elements can still be read"""
    L = st.cl(L)
    old = it.seq(st, L)
    for x in items:
        if not isinstance(x, tuple):
            st.copy_cells(st.cl(src) + (x,), L + (x,))
    it.set_seq(st, L, items, c.l, c.frame)
    for x in old:
        if x not in items and not isinstance(x, tuple):
            st.drop(L + (x,))


@model("std::swap", "std::__exception_ptr::swap")
def m_swap(it, st, c):
    a, b = it.loc_of(st, c.args[0]), it.loc_of(st, c.args[1])
    va, vb = st.mem.get(a), st.mem.get(b)
    if va is not None and vb is not None and va[0] == "seq" and vb[0] == "seq":
        T = it.new_root("t")
        st.copy_cells(a, T)
        replace_seq(it, st, a, vb[1], b, c)
        replace_seq(it, st, b, va[1], T, c)
        st.drop(T)
        return [(st, NULL)]
    if not any(k for L in (a, b) for k, _ in st.sub_cells(L)) and (
            is_scalar_rec(bt(c.node.get("pt", [""])[0])) or bt(c.node.get("pt", [""])[0]) not in it.prog.records):
        va, vb = it.load(st, a, c.node.get("pt", [""])[0], c.l, c.frame), it.load(st, b, c.node.get("pt", [""])[0], c.l, c.frame)
        it.store(st, a, vb, c.l, c.frame)
        it.store(st, b, va, c.l, c.frame)
        return [(st, NULL)]
    T = it.new_root("t")
    st.copy_cells(a, T)
    st.copy_cells(b, a)
    st.copy_cells(T, b)
    st.drop(T)
    return [(st, NULL)]


@model("std::min", "std::max")
def m_minmax(it, st, c):
    a, b = A(it, st, c, 0), A(it, st, c, 1)
    out = []
    for s, r in it.compare(st, "<", b, a):
        pick_b = r if c.q == "std::min" else not r
        if c.q == "std::max":
            # max(a,b): b if a<b
            pass
        out.append((s, c.args[1] if pick_b else c.args[0]))
    return out


@model("std::clamp")
def m_clamp(it, st, c):
    v, lo, hi = A(it, st, c, 0), A(it, st, c, 1), A(it, st, c, 2)
    out = []
    for s, r in it.compare(st, "<", v, lo):
        if r:
            out.append((s, c.args[1]))
            continue
        for s2, r2 in it.compare(s, "<", hi, v):
            out.append((s2, c.args[2] if r2 else c.args[0]))
    return out


@model("std::invoke")
def m_invoke(it, st, c):
    return lam_call(it, st, c.args[0], c.args[1:], c)


@model("std::get")
def m_get(it, st, c):
    L = it.loc_of(st, c.args[0])
    n = c.node.get("ti", [0])[0]
    pt = bt(c.node.get("pt", [""])[0])
    if pt.startswith("std::pair<"):
        return [(st, ("loc", L + (("first", "second")[n],)))]
    return [(st, ("loc", L + ("_%d" % n,)))]


@model("std::numeric_limits::max")
def m_nlmax(it, st, c):
    t = bt(c.t)
    v = {"unsigned long": 2 ** 64 - 1, "int": 2 ** 31 - 1, "unsigned int": 2 ** 32 - 1, "long": 2 ** 63 - 1}.get(t)
    return [(st, I(v) if v else st.fresh())]


@model("std::thread::hardware_concurrency")
def m_hc(it, st, c):
    return [(st, st.fresh(lo=0))]


@model("std::this_thread::sleep_for", "std::this_thread::yield", "std::this_thread::sleep_until")
def m_sleep(it, st, c):
    it.rule.on_event(it, st, "sleep", c)
    return [(st, NULL)]


@model("std::terminate", "exit", "_exit", "abort", "std::abort", "std::exit")
def m_exit(it, st, c):
    st.ev("exit", c.l)
    return [(st, Abort(c.q))]


@model("__builtin_unreachable")
def m_unreach(it, st, c):
    return []


@model("__builtin_expect")
def m_expect(it, st, c):
    return [(st, A(it, st, c, 0))]


# ---- output, strings: no effect on what is decided -------------------------------------
def m_out(it, st, c):
    if c.lv and c.args:
        return [(st, c.args[0])]
    return [(st, it.unknown_result(st, c.t, c.lv))]


for q in ("std::operator<<", "std::basic_ostream::operator<<", "fprintf", "printf", "std::setw", "std::setfill", "std::basic_string::c_str",
          "std::basic_string::substr", "std::basic_string::find_first_of", "std::basic_string::find_first_not_of", "std::stoul",
          "std::basic_stringstream::str", "strerror", "std::to_string", "fflush", "snprintf", "std::basic_string::empty", "std::basic_string::size",
          "std::basic_string::data", "std::basic_string::length"):
    MODELS[q] = m_out


@model("std::basic_ifstream::basic_ifstream", "std::basic_stringstream::basic_stringstream", "std::allocator::allocator",
       "std::basic_ostringstream::basic_ostringstream")
def m_strm(it, st, c):
    return [(st, NULL)]


@model("std::basic_string::basic_string", "std::any::any", "std::logic_error::logic_error", "std::runtime_error::runtime_error",
       "std::bad_alloc::bad_alloc", "std::bad_cast::bad_cast", "std::out_of_range::out_of_range", "std::invalid_argument::invalid_argument")
def m_strctor(it, st, c):
    if len(c.args) >= 1 and c.args[0] is not None:
        v = it.rv(st, c.args[0])
        return [(st, v if v[0] in ("str", "s", "i") else st.fresh())]
    return [(st, ("str", ""))]


@model("std::basic_string::operator=", "std::basic_string::operator+=", "std::basic_string::append", "std::basic_string::assign")
def m_strassign(it, st, c):
    it.store(st, c.this, A(it, st, c, 0) if c.q.endswith("operator=") else st.fresh(), c.l, c.frame)
    return [(st, ("loc", c.this))]


# ---- chrono: nanoseconds in one cell --------------------------------------------------
def unit(t):
    """nanoseconds per tick of a duration type"""
    t = bt(t)
    if t.startswith("std::chrono::time_point<"):
        d = targ(t, 1)
        return unit(d) if d else 1
    m = re.match(r"std::chrono::duration<[^,<>]+(?:, std::ratio<(\d+)(?:, (\d+))?>)?>", t)
    if not m:
        return None
    num = int(m.group(1) or 1)
    den = int(m.group(2) or 1)
    return num * 10 ** 9 // den if (num * 10 ** 9) % den == 0 else None


def div_floor(it, st, v, u, trunc=True):
    """floor(v/u) for u>0 as value"""
    if u == 1:
        return v
    v = st.res(v)
    if v[0] == "i":
        return I(int(v[1] / u) if trunc and abs(v[1]) < 2 ** 52 else v[1] // u)
    k = ("_div", v, u)
    r = st.gh.get(k)
    if r is None:
        r = st.fresh()
        st.gh[k] = r
    return r


def mul_const(it, st, v, u):
    v = st.res(v)
    if u == 1:
        return v
    if v[0] == "i":
        return I(v[1] * u)
    for k, r in st.gh.items():
        if k[0] == "_mul" and k[1] == v and k[2] == u:
            return r
    r = st.fresh()
    st.gh[("_mul", v, u)] = r
    # sign follows
    if st.le_known(NULL, v) is True:
        st.assume_le(NULL, r)
        if st.le_known(I(1), v) is True:
            st.assume_le(I(u), r)
    # if v is floor(w/u): r in (w-u, w]
    for k, q in st.gh.items():
        if k[0] == "_div" and k[2] == u and st.res(q) == v:
            st.assume_le(r, k[1])
            st.assume_le(k[1], r, u - 1)
            break
    return st.res(r)


@model("std::chrono::duration::duration")
def m_dur(it, st, c):
    if not c.args:
        return [(st, I(0))]
    v = A(it, st, c, 0)
    pt = c.node.get("pt", [""])[0]
    if bt(pt).startswith("std::chrono::duration<"):
        return [(st, v)]
    u = unit(c.t) or 1
    return [(st, mul_const(it, st, v, u))]


@model("std::chrono::duration::count")
def m_count(it, st, c):
    v = it.load(st, c.this, "", c.l, c.frame)
    return [(st, div_floor(it, st, v, unit(c.node.get("cls", "")) or 1))]


@model("std::chrono::duration_cast", "std::chrono::time_point_cast", "std::chrono::floor")
def m_dcast(it, st, c):
    v = A(it, st, c, 0)
    u = unit(c.t) or 1
    if u == 1 or u <= (unit(c.node.get("pt", [""])[0]) or 1):
        return [(st, v)]
    return [(st, mul_const(it, st, div_floor(it, st, v, u), u))]


@model("std::chrono::ceil")
def m_dceil(it, st, c):
    v = st.res(A(it, st, c, 0))
    u = unit(c.t) or 1
    if u == 1 or u <= (unit(c.node.get("pt", [""])[0]) or 1):
        return [(st, v)]
    if v[0] == "i":
        return [(st, I(-(-v[1] // u) * u))]
    r = st.fresh()
    st.assume_le(v, r)
    st.assume_le(r, v, u - 1)
    return [(st, r)]


@model("std::chrono::time_point::time_point")
def m_tp(it, st, c):
    return [(st, A(it, st, c, 0) if c.args else I(0))]


@model("std::chrono::time_point::time_since_epoch", "std::chrono::abs")
def m_tse(it, st, c):
    return [(st, it.load(st, c.this, "", c.l, c.frame))]


@model("std::chrono::operator+", "std::chrono::operator-")
def m_tpadd(it, st, c):
    return [(st, it.arith(st, c.q[-1], A(it, st, c, 0), A(it, st, c, 1)))]


@model("std::chrono::operator*", "std::chrono::operator/")
def m_tpmul(it, st, c):
    a, b = A(it, st, c, 0), A(it, st, c, 1)
    return [(st, it.arith(st, c.q[-1], a, b))]


@model("std::chrono::operator<=>")
def m_tpcmp(it, st, c):
    return [(st, ("cmp", A(it, st, c, 0), A(it, st, c, 1)))]


@model("std::chrono::operator==", "std::chrono::operator<", "std::chrono::operator>", "std::chrono::operator<=", "std::chrono::operator>=",
       "std::chrono::operator!=")
def m_tpeq(it, st, c):
    op = c.q[len("std::chrono::operator"):]
    return [(s, I(int(r))) for s, r in it.compare(st, op, A(it, st, c, 0), A(it, st, c, 1))]


@model("std::chrono::steady_clock::now", "std::chrono::system_clock::now")
def m_now(it, st, c):
    v = st.fresh(lo=0)
    last = st.gh.get("_now")
    if last is not None:
        st.assume_le(last, v)
    st.gh["_now"] = v
    it.rule.on_event(it, st, "now", v)
    return [(st, v)]


@model("std::chrono::duration::zero", "std::chrono::duration::min")
def m_dzero(it, st, c):
    return [(st, I(0))]


@model("std::chrono::duration::max", "std::chrono::time_point::max")
def m_dmax(it, st, c):
    return [(st, I(2 ** 63 - 1))]


@model("std::chrono::duration::operator+=", "std::chrono::duration::operator-=", "std::chrono::time_point::operator+=",
       "std::chrono::time_point::operator-=")
def m_dpluseq(it, st, c):
    o = it.load(st, c.this)
    it.store(st, c.this, it.arith(st, c.q[-2], o, A(it, st, c, 0)), c.l, c.frame)
    return [(st, ("loc", c.this))]


def m_udl(it, st, c):
    u = {"ms": 10 ** 6, "s": 10 ** 9, "us": 10 ** 3, "ns": 1, "min": 60 * 10 ** 9, "h": 3600 * 10 ** 9}.get(c.node.get("udl"))
    try:
        return [(st, I(int(c.node.get("udlv", "").replace("'", "")) * u))]
    except Exception:
        return [(st, st.fresh(lo=0))]


for s_ in ("ms", "s", "us", "ns", "min", "h"):
    MODELS['std::operator""' + s_] = m_udl
    MODELS['std::literals::chrono_literals::operator""' + s_] = m_udl
    MODELS['std::chrono_literals::operator""' + s_] = m_udl


@model("std::__cmp_cat::__unspec::__unspec")
def m_unspec(it, st, c):
    return [(st, I(0))]


def val_cmp(it, st, a, b, op):
    a, b = st.res(a), st.res(b)
    if a[0] == "cmp":
        return it.compare(st, op, a[1], a[2])
    if b[0] == "cmp":
        return it.compare(st, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op], b[1], b[2])
    return it.compare(st, op, a, b)


@model("std::operator==", "std::operator!=", "std::operator<", "std::operator>", "std::operator<=", "std::operator>=", "__gnu_cxx::operator==",
       "__gnu_cxx::operator!=", "std::_List_iterator::operator==", "std::_Rb_tree_const_iterator::operator==", "std::_Rb_tree_iterator::operator==")
def m_cmp(it, st, c):
    op = c.q.rsplit("operator", 1)[1]
    args = c.args if c.this is None else [("loc", c.this)] + c.args
    pt = [bt(x) for x in c.node.get("pt", [])]
    if any(x.startswith("std::optional<") for x in pt):
        L = it.loc_of(st, args[0])
        if any("nullopt" in x for x in pt):
            return [(s, I(int(b == (op == "!=")))) for s, b in it.split_true(st, it.load(st, L + ("@has",), "bool"))]
        return [(st, st.fresh(dom=(0, 1)))]
    a, b = it.rv(st, args[0]), it.rv(st, args[1])
    return [(s, I(int(r))) for s, r in val_cmp(it, st, a, b, op)]


# ---- smart pointers -----------------------------------------------------------------------
@model("std::__shared_ptr_access::operator->", "std::__shared_ptr::get", "std::unique_ptr::operator->", "std::unique_ptr::get",
       "std::__shared_ptr::operator->", "std::shared_ptr::get", "std::reference_wrapper::get", "std::reference_wrapper::operator()conv")
def m_spget(it, st, c):
    v = it.load(st, c.this, "", c.l, c.frame)
    if c.q.startswith("std::reference_wrapper"):
        return [(st, ("loc", it.deref(st, v, c.node)))]
    return [(st, v)]


@model("std::__shared_ptr_access::operator*", "std::unique_ptr::operator*", "std::__shared_ptr::operator*")
def m_spderef(it, st, c):
    v = it.load(st, c.this, "", c.l, c.frame)
    return [(st, ("loc", it.deref(st, v, c.node)))]


@model("std::__shared_ptr::operator()conv", "std::unique_ptr::operator()conv", "std::shared_ptr::operator()conv")
def m_spbool(it, st, c):
    v = it.load(st, c.this, "", c.l, c.frame)
    return [(s, I(int(b))) for s, b in it.split_true(st, v)]


@model("std::shared_ptr::shared_ptr", "std::unique_ptr::unique_ptr", "std::weak_ptr::weak_ptr")
def m_spctor(it, st, c):
    if not c.args:
        return [(st, NULL)]
    v = A(it, st, c, 0)
    if c.node.get("move") or ("&&" in c.node.get("pt", [""])[0]):
        if c.args[0][0] == "loc":
            it.store(st, it.loc_of(st, c.args[0]), NULL, c.l, c.frame)
    return [(st, v)]


@model("std::shared_ptr::operator=", "std::unique_ptr::operator=", "std::weak_ptr::operator=", "std::__shared_ptr::operator=")
def m_spassign(it, st, c):
    v = A(it, st, c, 0)
    pt = c.node.get("pt", [""])[0]
    it.rule.on_event(it, st, "sp-assign", c.this, v, c)
    if "&&" in pt and c.args[0][0] == "loc" and it.loc_of(st, c.args[0]) != st.cl(c.this):
        it.store(st, it.loc_of(st, c.args[0]), NULL, c.l, c.frame)
    it.store(st, c.this, v, c.l, c.frame)
    return [(st, ("loc", c.this))]


@model("std::__shared_ptr::reset", "std::unique_ptr::reset", "std::shared_ptr::reset")
def m_spreset(it, st, c):
    it.store(st, c.this, A(it, st, c, 0) if c.args else NULL, c.l, c.frame)
    return [(st, NULL)]


@model("std::weak_ptr::lock")
def m_wplock(it, st, c):
    return [(st, it.load(st, c.this))]


@model("std::make_shared", "std::make_unique")
def m_make(it, st, c):
    T = c.node.get("ta", [""])[0] or pointee(c.t)
    L = it.new_root("h")
    rec = it.prog.records.get(bt(T))
    if rec is not None:
        out = []
        for s, v in construct_by_args(it, st, bt(T), L, c.args, c):
            out.append((s, v if bad(v) else ("p", L)))
        return out
    if is_seq(T):
        if c.args and c.args[0] is not None:
            it.copy_obj(st, it.loc_of(st, c.args[0]), L, bt(T))
        else:
            st.mem[L] = ("seq", ())
    elif c.args:
        st.mem[L] = A(it, st, c, 0)
    else:
        st.mem[L] = NULL
    st.typ[L] = bt(T)
    return [(st, ("p", L))]


def construct_by_args(it, st, rec, L, args, c):
    q = it.strip_targs(rec).rsplit("::", 1)[-1]
    cands = [f for f in it.prog.functions.values() if f.get("ctor") and f.get("cls") == rec and len(f["p"]) == len(args) and not f.get("implicit")]
    if not cands:
        cands = [f for f in it.prog.functions.values() if f.get("ctor") and f.get("cls") == rec and len(f["p"]) == len(args)]
    h = it.rule.intrinsics.get(it.strip_targs(rec) + "::" + q)
    if h is not None:
        cc = Call({"k": "Construct", "q": it.strip_targs(rec) + "::" + q, "f": None, "l": c.l, "t": rec, "rec": rec, "pt": []}, L, args, c.frame)
        r = h(it, st, cc)
        if r is not NotImplemented:
            return r
    if len(cands) > 1:
        pt = [bt(x) for x in c.node.get("ta", [])[1:]] or [bt(x) for x in c.node.get("pt", [])]
        best = [f for f in cands if [bt(p["t"]) for p in f["p"]] == pt]
        cands = best or cands
    if not cands:
        st.drop(L)
        st.typ[L] = rec
        if args:
            it.taint(st, "make " + rec)
        return [(st, None)]
    st.drop(L)
    st.typ[L] = rec
    return it.run_ctor(st, cands[0], L, args, c, c.frame)


@model("std::dynamic_pointer_cast", "std::static_pointer_cast", "std::const_pointer_cast")
def m_dpc(it, st, c):
    v = A(it, st, c, 0)
    if c.q != "std::dynamic_pointer_cast":
        return [(st, v)]
    return cast_dynamic(it, st, v, pointee(c.t), c)


def cast_dynamic(it, st, v, T, c):
    r = it.rule.on_event(it, st, "dynamic-cast", v, T, c)
    if isinstance(r, list):
        return r
    out = []
    for s, nz in it.split_true(st, v):
        if not nz:
            out.append((s, NULL))
            continue
        dt = s.typ.get(s.cl(it.deref(s, v)))
        if dt is not None:
            out.append((s, v if T in it.prog.bases(dt) else NULL))
        else:
            D = s.cl(it.deref(s, v))
            no = s.gh.get(("_nottype", D), ())
            if T in no:
                out.append((s, NULL))
                continue
            s2 = s.copy()
            s.typ[D] = T
            s2.gh[("_nottype", D)] = no + (T,)
            out += [(s, v), (s2, NULL)]
    return out


@model("std::enable_shared_from_this::shared_from_this")
def m_sft(it, st, c):
    return [(st, ("p", c.this))]


@model("std::enable_shared_from_this::enable_shared_from_this")
def m_esft(it, st, c):
    return [(st, NULL)]


# ---- std::function --------------------------------------------------------------------------
def to_callable(it, st, a):
    if a is None:
        return NULL
    if a[0] == "loc":
        L = it.loc_of(st, a)
        r = it.prog.records.get(st.typ.get(L) or "")
        if r is not None and (r.get("lambda") or st.get(L) is None):
            H = it.new_root("h")
            st.copy_cells(L, H)
            st.typ[H] = r["id"]
            return ("clo", H)
        return it.load(st, L)
    return a


@model("std::function::function")
def m_fnctor(it, st, c):
    if not c.args:
        return [(st, NULL)]
    v = to_callable(it, st, c.args[0])
    if c.node.get("move") and c.args[0][0] == "loc":
        it.store(st, it.loc_of(st, c.args[0]), NULL, c.l, c.frame)
    return [(st, v)]


@model("std::function::operator=")
def m_fnassign(it, st, c):
    it.store(st, c.this, to_callable(it, st, c.args[0]), c.l, c.frame)
    return [(st, ("loc", c.this))]


@model("std::function::operator()")
def m_fncall(it, st, c):
    v = it.load(st, c.this, "", c.l, c.frame)
    if v[0] == "clo":
        it.rule.on_event(it, st, "fncall", c, v)
    return it.call_value(st, v, c.args, c, c.frame)


@model("std::function::operator()conv")
def m_fnbool(it, st, c):
    return [(s, I(int(b))) for s, b in it.split_true(st, it.load(st, c.this, "", c.l, c.frame))]


@model("std::bind")
def m_bind(it, st, c):
    it.taint(st, "std::bind")
    return [(st, st.fresh())]


# ---- exceptions --------------------------------------------------------------------------------
@model("std::current_exception")
def m_curexc(it, st, c):
    v = st.fresh()
    st.assume_ne(v, NULL)
    st.gh[("exc", v[1])] = st.gh.get("cur_exc", "?")
    st.ev("current_exception", c.l)
    return [(st, v)]


@model("std::make_exception_ptr")
def m_mkexc(it, st, c):
    v = st.fresh()
    st.assume_ne(v, NULL)
    return [(st, v)]


@model("std::rethrow_exception")
def m_rethrow(it, st, c):
    v = A(it, st, c, 0)
    st.ev("rethrow", c.l, v)
    t = st.gh.get(("exc", v[1] if v[0] == "s" else None), "user")
    return [(st, Throw(t, v, c.l))]


@model("std::__exception_ptr::exception_ptr::exception_ptr")
def m_ep(it, st, c):
    return [(st, A(it, st, c, 0) if c.args else NULL)]


@model("std::__exception_ptr::exception_ptr::operator=")
def m_epa(it, st, c):
    it.store(st, c.this, A(it, st, c, 0), c.l, c.frame)
    return [(st, ("loc", c.this))]


@model("std::__exception_ptr::exception_ptr::swap")
def m_eps(it, st, c):
    c2 = Call(dict(c.node, pt=["std::exception_ptr"]), None, [("loc", c.this), c.args[0]], c.frame)
    return m_swap(it, st, c2)


@model("std::__exception_ptr::exception_ptr::operator()conv")
def m_epb(it, st, c):
    return [(s, I(int(b))) for s, b in it.split_true(st, it.load(st, c.this, "", c.l, c.frame))]


# ---- assignment of one-cell classes -------------------------------------------------------------
@model("std::chrono::duration::operator=", "std::chrono::time_point::operator=", "std::future::operator=", "std::_Deque_iterator::operator=",
       "std::_List_iterator::operator=", "std::_Rb_tree_const_iterator::operator=", "std::_Rb_tree_iterator::operator=", "std::any::operator=",
       "std::thread::id::operator=")
def m_assign(it, st, c):
    it.store(st, c.this, A(it, st, c, 0), c.l, c.frame)
    return [(st, ("loc", c.this))]


# ---- threads --------------------------------------------------------------------------------------
@model("std::async")
def m_async(it, st, c):
    it.rule.on_event(it, st, "spawn", c, to_callable(it, st, c.args[1] if len(c.args) > 1 else c.args[0]))
    st.ev("spawn", c.l)
    v = st.fresh()
    return [(st, v)]


@model("std::__basic_future::wait", "std::future::get", "std::future::wait")
def m_fwait(it, st, c):
    st.ev("join", c.l, st.cl(c.this))
    it.rule.on_event(it, st, "join", c, c.this)
    return [(st, NULL)]


@model("std::future::future", "std::once_flag::once_flag", "std::recursive_mutex::recursive_mutex", "std::mutex::mutex",
       "std::condition_variable_any::condition_variable_any", "std::nullopt_t::nullopt_t")
def m_nopctor(it, st, c):
    return [(st, NULL)]


@model("std::call_once")
def m_callonce(it, st, c):
    L = it.loc_of(st, c.args[0])
    out = []
    for s, done in it.split_true(st, it.load(st, L, "bool")):
        if done:
            out.append((s, NULL))
            continue
        s.mem[s.cl(L)] = I(1)
        out += [(s2, v if bad(v) else NULL) for s2, v in lam_call(it, s, c.args[1], c.args[2:], c)]
    return out


# ---- atomics --------------------------------------------------------------------------------------
def at_load(it, st, L, c):
    it.rule.on_atomic(it, st, L, "load", c)
    return it.load(st, L, c.node.get("cls", ""), c.l, c.frame)


@model("std::atomic::atomic", "std::__atomic_base::__atomic_base", "std::atomic_flag::atomic_flag")
def m_atctor(it, st, c):
    return [(st, A(it, st, c, 0) if c.args else NULL)]


@model("std::atomic::load", "std::__atomic_base::load", "std::atomic::operator()conv", "std::__atomic_base::operator()conv", "std::atomic_flag::test")
def m_atload(it, st, c):
    return [(st, at_load(it, st, c.this, c))]


@model("std::atomic::store", "std::__atomic_base::store", "std::atomic::operator=", "std::__atomic_base::operator=")
def m_atstore(it, st, c):
    v = A(it, st, c, 0)
    it.rule.on_atomic(it, st, c.this, "store", c)
    it.store(st, c.this, v, c.l, c.frame)
    return [(st, v)]


@model("std::atomic::exchange", "std::__atomic_base::exchange")
def m_atxchg(it, st, c):
    v = A(it, st, c, 0)
    it.rule.on_atomic(it, st, c.this, "rmw", c)
    o = it.load(st, c.this, c.node.get("cls", ""))
    it.store(st, c.this, v, c.l, c.frame)
    return [(st, o)]


@model("std::atomic::compare_exchange_strong", "std::atomic::compare_exchange_weak", "std::__atomic_base::compare_exchange_strong",
       "std::__atomic_base::compare_exchange_weak")
def m_cas(it, st, c):
    it.rule.on_atomic(it, st, c.this, "rmw", c)
    E = it.loc_of(st, c.args[0])
    exp = it.load(st, E)
    new = A(it, st, c, 1)
    o = it.load(st, c.this, c.node.get("cls", ""))
    out = []
    for s, r in it.split_eq(st, o, exp):
        if r:
            if c.q.endswith("weak"):
                out.append((s.copy(), FALSE))
            it.store(s, c.this, new, c.l, c.frame)
            out.append((s, TRUE))
        else:
            s.mem[s.cl(E)] = o
            out.append((s, FALSE))
    return out


@model("std::__atomic_base::operator++", "std::__atomic_base::operator--", "std::__atomic_base::operator+=", "std::__atomic_base::operator-=",
       "std::__atomic_base::fetch_add", "std::__atomic_base::fetch_sub", "std::atomic::fetch_add", "std::atomic::fetch_sub",
       "std::atomic::operator++", "std::atomic::operator--", "std::atomic::operator+=", "std::atomic::operator-=")
def m_atrmw(it, st, c):
    n = c.q.rsplit("::", 1)[1]
    it.rule.on_atomic(it, st, c.this, "rmw", c)
    o = it.load(st, c.this, c.node.get("cls", ""), c.l, c.frame)
    inc = n in ("operator++", "operator--")
    amt = I(1) if inc else A(it, st, c, 0)
    sign = "+" if n in ("operator++", "operator+=", "fetch_add") else "-"
    v = it.arith(st, sign, o, amt)
    it.store(st, c.this, v, c.l, c.frame)
    post = n.startswith("fetch") or (inc and len(c.args) == 1)
    return [(st, o if post else v)]


@model("std::atomic_flag::test_and_set")
def m_tas(it, st, c):
    it.rule.on_atomic(it, st, c.this, "rmw", c)
    o = it.load(st, c.this, "bool")
    it.store(st, c.this, I(1), c.l, c.frame)
    return [(st, o)]


@model("std::atomic_flag::clear")
def m_aclear(it, st, c):
    it.rule.on_atomic(it, st, c.this, "store", c)
    it.store(st, c.this, I(0), c.l, c.frame)
    return [(st, NULL)]


@model("std::atomic_thread_fence")
def m_fence(it, st, c):
    return [(st, NULL)]


# ---- bitset -----------------------------------------------------------------------------------------
@model("std::bitset::bitset")
def m_bsctor(it, st, c):
    return [(st, I(0) if not [a for a in c.args if a is not None] else st.fresh())]


def bitloc(it, st, c):
    """cell of a bit; the cell of the whole tells what bits without a cell of their own are"""
    L = st.cl(c.this)
    n = st.node(A(it, st, c, 0))
    if not n or n[0] != "Z":
        return L + ("bit?",)
    B = L + ("bit%s" % n[1],)
    if B not in st.mem and st.mem.get(L) in (I(0), I(-1)):
        st.mem[B] = FALSE if st.mem[L] == I(0) else TRUE
    return B


@model("std::bitset::set", "std::bitset::reset", "std::bitset::flip")
def m_bsset(it, st, c):
    L = st.cl(c.this)
    how = c.q.rsplit("::", 1)[1]
    if not [a for a in c.args if a is not None]:
        st.drop(L)
        st.mem[L] = st.fresh() if how == "flip" else I(-1 if how == "set" else 0)
        return [(st, ("loc", c.this))]
    B = bitloc(it, st, c)
    v = I(1) if how == "set" else I(0)
    if how == "set" and len(c.args) > 1 and c.args[1] is not None:
        v = A(it, st, c, 1)
    if how == "flip":
        n = st.node(it.load(st, B, "bool", c.l, c.frame))
        v = I(1 - n[1]) if n and n[0] == "Z" else st.fresh(dom=(0, 1))
    if B[-1] == "bit?":
        st.drop(L)
        st.mem[L] = st.fresh()
        return [(st, ("loc", c.this))]
    it.store(st, B, v, c.l, c.frame)
    return [(st, ("loc", c.this))]


@model("std::bitset::test", "std::bitset::operator[]")
def m_bstest(it, st, c):
    B = bitloc(it, st, c)
    if B[-1] == "bit?":
        return [(st, st.fresh(dom=(0, 1)))]
    if c.lv:
        return [(st, ("loc", B))]
    return [(st, it.load(st, B, "bool", c.l, c.frame))]


# ---- optional -----------------------------------------------------------------------------------------
@model("std::optional::optional")
def m_optctor(it, st, c):
    L = st.cl(c.this)
    return opt_assign(it, st, c, L)


def opt_assign(it, st, c, L):
    if not c.args or c.args[0] is None or "nullopt" in c.node.get("pt", [""])[0]:
        st.drop(L)
        st.mem[L + ("@has",)] = FALSE
        return [(st, ("loc", L))]
    pt = bt(c.node.get("pt", [""])[0])
    if pt.startswith("std::optional<"):
        src = it.loc_of(st, c.args[0])
        it.load(st, src + ("@has",), "bool")
        st.copy_cells(src, L)
        return [(st, ("loc", L))]
    vt = bt((c.node.get("rec") or c.t or "")).removeprefix("std::optional<").rstrip("> &")
    if pt in it.prog.records and vt in it.prog.records and vt != pt:
        st.drop(L)
        out = []
        for s, v in construct_by_args(it, st, vt, L + ("@val",), c.args[:1], c):
            if bad(v):
                out.append((s, v))
                continue
            s.mem[L + ("@has",)] = TRUE
            out.append((s, ("loc", L)))
        return out
    T = it.new_root("t")
    if c.args[0][0] == "loc":
        it.copy_obj(st, c.args[0][1], T, pt)
        if not st.sub_cells(T):
            st.mem[T] = it.rv(st, c.args[0], pt)
    else:
        st.mem[T] = c.args[0]
    st.drop(L)
    st.copy_cells(T, L + ("@val",))
    st.drop(T)
    st.mem[L + ("@has",)] = TRUE
    return [(st, ("loc", L))]


@model("std::optional::operator=", "std::optional::emplace")
def m_optassign(it, st, c):
    return opt_assign(it, st, c, st.cl(c.this))


@model("std::optional::operator()conv", "std::optional::has_value")
def m_opthas(it, st, c):
    return [(s, I(int(b))) for s, b in it.split_true(st, it.load(st, st.cl(c.this) + ("@has",), "bool", c.l, c.frame))]


@model("std::optional::operator*", "std::optional::operator->")
def m_optderef(it, st, c):
    L = st.cl(c.this) + ("@val",)
    return [(st, ("loc", L) if c.q.endswith("*") else ("p", L))]


@model("std::optional::value")
def m_optval(it, st, c):
    L = st.cl(c.this)
    out = []
    for s, b in it.split_true(st, it.load(st, L + ("@has",), "bool")):
        out.append((s, ("loc", L + ("@val",)) if b else Throw("std::bad_optional_access", None, c.l)))
    return out


@model("std::optional::value_or")
def m_optvalor(it, st, c):
    L = st.cl(c.this)
    out = []
    for s, b in it.split_true(st, it.load(st, L + ("@has",), "bool")):
        out.append((s, ("loc", L + ("@val",)) if b else c.args[0]))
    return out


@model("std::optional::reset")
def m_optreset(it, st, c):
    st.drop(c.this)
    st.mem[st.cl(c.this) + ("@has",)] = FALSE
    return [(st, NULL)]


@model("std::make_optional")
def m_mkopt(it, st, c):
    L = it.new_root("t")
    return opt_assign(it, st, c, L)


# ---- tuple / pair ----------------------------------------------------------------------------------------
def tup(it, st, L, args, names, c):
    for i, a in enumerate(args):
        F = L + (names(i),)
        st.drop(F)
        if a[0] == "loc":
            src = it.loc_of(st, a)
            st.copy_cells(src, F)
            if not st.sub_cells(F):
                st.mem[F] = it.load(st, src)
        else:
            st.mem[F] = st.res(a)


@model("std::tuple::tuple")
def m_tuple(it, st, c):
    pt = bt((c.node.get("pt") or [""])[0])
    if len(c.args) == 1 and pt.startswith("std::tuple<"):
        st.copy_cells(it.loc_of(st, c.args[0]), c.this)
    else:
        tup(it, st, st.cl(c.this), c.args, lambda i: "_%d" % i, c)
    return [(st, ("loc", c.this))]


@model("std::pair::pair")
def m_pair(it, st, c):
    pt = bt((c.node.get("pt") or [""])[0])
    if len(c.args) == 1 and pt.startswith("std::pair<"):
        st.copy_cells(it.loc_of(st, c.args[0]), c.this)
    else:
        tup(it, st, st.cl(c.this), c.args, lambda i: ("first", "second")[i], c)
    return [(st, ("loc", c.this))]


@model("std::make_tuple", "std::make_pair", "std::tie", "std::forward_as_tuple")
def m_mktuple(it, st, c):
    L = it.new_root("t")
    tup(it, st, L, c.args, (lambda i: ("first", "second")[i]) if c.q.endswith("pair") else (lambda i: "_%d" % i), c)
    return [(st, ("loc", L))]


@model("std::tuple::operator=", "std::pair::operator=")
def m_tupassign(it, st, c):
    st.copy_cells(it.loc_of(st, c.args[0]), c.this)
    return [(st, ("loc", c.this))]


# ---- locks guards --------------------------------------------------------------------------------------------
def guard_types(rec):
    inner = rec[rec.index("<") + 1:-1]
    out, i = [], 0
    while True:
        t = targ(rec, i)
        if not t:
            break
        out.append(t)
        i += 1
    return out


def do_lock(it, st, rec, L, name, c, fr):
    return it.call_method(st, bt(rec), name, L, [], c, fr)


@model("std::scoped_lock::scoped_lock", "std::lock_guard::lock_guard")
def m_slctor(it, st, c):
    G = st.cl(c.this)
    tys = guard_types(c.node["rec"])
    args = [a for a, p in zip(c.args, c.node["pt"]) if "adopt_lock" not in p]
    adopt = any("adopt_lock" in p for p in c.node["pt"])
    st.drop(G)
    st.typ[G] = c.node["rec"]
    for i, a in enumerate(args):
        st.mem[G + ("@m%d" % i,)] = ("p", it.loc_of(st, a))
    st.mem[G + ("@own",)] = I(1)
    if adopt:
        return [(st, None)]
    it.rule.on_event(it, st, "guard", c, [it.loc_of(st, a) for a in args], tys)
    res = [(st, None)]
    for i, a in enumerate(args):
        nxt = []
        for s, b in res:
            if bad(b):
                nxt.append((s, b))
                continue
            nxt += do_lock(it, s, tys[i], it.loc_of(s, a), "lock", c, c.frame)
        res = nxt
    return res


@model("std::unique_lock::unique_lock", "std::shared_lock::shared_lock")
def m_ulctor(it, st, c):
    G = st.cl(c.this)
    rec = c.node["rec"]
    shared = rec.startswith("std::shared_lock")
    st.typ[G] = rec
    if not c.args:
        st.drop(G)
        st.typ[G] = rec
        st.mem[G + ("@own",)] = I(0)
        st.mem[G + ("@m0",)] = NULL
        return [(st, None)]
    p0 = c.node["pt"][0]
    if bt(p0).startswith(("std::unique_lock<", "std::shared_lock<")):
        src = it.loc_of(st, c.args[0])
        st.copy_cells(src, G)
        st.typ[G] = rec
        st.mem[src + ("@own",)] = I(0)
        st.mem[src + ("@m0",)] = NULL
        return [(st, None)]
    st.drop(G)
    st.typ[G] = rec
    M = it.loc_of(st, c.args[0])
    st.mem[G + ("@m0",)] = ("p", M)
    p1 = c.node["pt"][1] if len(c.node["pt"]) > 1 else ""
    if "defer_lock" in p1:
        st.mem[G + ("@own",)] = I(0)
        return [(st, None)]
    if "adopt_lock" in p1:
        st.mem[G + ("@own",)] = I(1)
        return [(st, None)]
    ty = guard_types(rec)[0]
    sfx = "_shared" if shared else ""
    if "try_to_lock" in p1:
        out = []
        for s, v in it.call_method(st, bt(ty), "try_lock" + sfx, M, [], c, c.frame):
            if bad(v):
                out.append((s, v))
                continue
            for s2, b in it.split_true(s, it.rv(s, v)):
                s2.mem[G + ("@own",)] = I(int(b))
                out.append((s2, None))
        return out
    out = []
    for s, v in do_lock(it, st, ty, M, "lock" + sfx, c, c.frame):
        s.mem[G + ("@own",)] = I(1)
        out.append((s, v))
    return out


@model("std::unique_lock::lock", "std::unique_lock::unlock", "std::shared_lock::lock", "std::shared_lock::unlock", "std::unique_lock::try_lock",
       "std::shared_lock::try_lock")
def m_ulop(it, st, c):
    G = it.loc_of(st, ("loc", c.this))
    rec = c.node["cls"]
    op = c.q.rsplit("::", 1)[1]
    m = st.get(G + ("@m0",))
    if m is None:
        # a guard object given by the caller
        m = ("p", G + ("@mutex",))
        st.mem[G + ("@m0",)] = m
    M = it.deref(st, m, c.node)
    ty = guard_types(rec)[0]
    sfx = "_shared" if rec.startswith("std::shared_lock") else ""
    out = []
    for s, v in do_lock(it, st, ty, M, op + sfx, c, c.frame):
        if bad(v):
            out.append((s, v))
            continue
        if op == "try_lock":
            for s2, b in it.split_true(s, it.rv(s, v)):
                s2.mem[G + ("@own",)] = I(int(b))
                out.append((s2, I(int(b))))
        else:
            s.mem[G + ("@own",)] = I(int(op == "lock"))
            out.append((s, NULL))
    return out


@model("std::unique_lock::owns_lock", "std::unique_lock::operator()conv", "std::shared_lock::owns_lock", "std::shared_lock::operator()conv")
def m_ulown(it, st, c):
    return [(st, it.load(st, st.cl(c.this) + ("@own",), "bool"))]


@model("std::unique_lock::release", "std::shared_lock::release", "std::unique_lock::mutex", "std::shared_lock::mutex")
def m_ulrel(it, st, c):
    G = st.cl(c.this)
    m = it.load(st, G + ("@m0",))
    if c.q.endswith("release"):
        st.mem[G + ("@own",)] = I(0)
        st.mem[G + ("@m0",)] = NULL
    return [(st, m)]


def guard_dtor(it, st, G, rec, l, fr):
    own = st.get(G + ("@own",))
    if own is None:
        return [(st, None)]
    c = Call({"k": "Dtor", "q": "guard-dtor", "l": l, "t": "void"}, G, [], fr)
    out = []
    for s, b in it.split_true(st, own):
        if not b:
            out.append((s, None))
            continue
        sfx = "_shared" if rec.startswith("std::shared_lock") else ""
        tys = guard_types(rec)
        res = [(s, None)]
        for i, ty in reversed(list(enumerate(tys))):
            nxt = []
            for s1, x in res:
                if bad(x):
                    nxt.append((s1, x))
                    continue
                m = s1.get(G + ("@m%d" % i,))
                if m is None:
                    nxt.append((s1, x))
                    continue
                for s2, v in do_lock(it, s1, ty, it.deref(s1, m), "unlock" + sfx, c, fr):
                    nxt.append((s2, v if bad(v) else None))
            res = nxt
        for s1, x in res:
            # an exception thrown by unlock in a destructor ends the process
            out.append((s1, Abort("throw in guard destructor") if isinstance(x, Throw) else x))
    return out


@model("std::condition_variable_any::wait", "std::condition_variable::wait", "std::condition_variable_any::wait_until",
       "std::condition_variable_any::wait_for", "std::condition_variable::wait_for", "std::condition_variable::wait_until")
def m_cvwait(it, st, c):
    name = c.q.rsplit("::", 1)[1]
    timed = name != "wait"
    npred = 2 if timed else 1
    pred = c.args[npred] if len(c.args) > npred else None
    lk = ("loc", it.loc_of(st, c.args[0]))
    lt = bt(c.node["pt"][0])

    def once(s):
        """release, wait, acquire"""
        out = []
        L = lk[1]
        it.rule.on_event(it, s, "cv-wait-enter", c)
        for s1, v in lockish(it, s, L, lt, "unlock", c):
            if bad(v):
                out.append((s1, v))
                continue
            s1.ev("cv-wait", c.l, s1.cl(c.this))
            r = it.rule.on_event(it, s1, "cv-wait", c)
            for s3 in r if isinstance(r, list) else [s1]:
                out.extend(lockish(it, s3, L, lt, "lock", c))
        return out
    if pred is None:
        return [(s, v if bad(v) else (s.fresh(dom=(0, 1)) if timed else NULL)) for s, v in once(st)]
    out = []
    for s, b in lam_bool(it, st, pred, [], c):
        if bad(b) or b:
            out.append((s, b if bad(b) else TRUE))
            continue
        for s1, v in once(s):
            if bad(v):
                out.append((s1, v))
                continue
            for s2, b2 in lam_bool(it, s1, pred, [], c):
                if bad(b2):
                    out.append((s2, b2))
                elif b2:
                    out.append((s2, TRUE))
                else:
                    # it waits again: same situation as before
                    it.rule.on_event(it, s2, "cv-wait-again", c)
                    if timed:
                        out.append((s2, FALSE))
    return out


def lockish(it, st, L, t, op, c):
    if t.startswith(("std::unique_lock<", "std::shared_lock<")):
        cc = Call({"k": "MCall", "q": "std::unique_lock::" + op, "cls": t, "l": c.l, "t": "void", "pt": []}, L, [], c.frame)
        return m_ulop(it, st, cc)
    return it.call_method(st, t, op, L, [], c, c.frame)


@model("std::condition_variable_any::notify_one", "std::condition_variable_any::notify_all", "std::condition_variable::notify_one",
       "std::condition_variable::notify_all")
def m_cvnotify(it, st, c):
    st.ev("notify", c.l, st.cl(c.this))
    it.rule.on_event(it, st, "notify", c, st.cl(c.this), c.q.endswith("all"))
    return [(st, NULL)]


# ---- iterators ---------------------------------------------------------------------------------------------------
def itval(it, st, L):
    return it.load(st, L)


def deref_it(it, st, v, c):
    v = st.res(v)
    if v[0] == "it":
        if v[2] == "end":
            st.ev("deref-end", c.l)
            it.rule.on_event(it, st, "deref-end", c, v)
            return it.new_root("t")
        items = it.seq(st, v[1])
        if v[2] not in items:
            st.ev("iter-invalid", c.l)
            it.rule.on_event(it, st, "iter-invalid", v[1], v[2])
        return st.cl(v[1]) + (v[2],)
    if v[0] in ("p", "s"):
        return it.deref(st, v, c.node)
    it.taint(st, "deref of iterator")
    return it.new_root("t")


def m_itderef(it, st, c):
    v = it.load(st, c.this, "", c.l, c.frame)
    L = deref_it(it, st, v, c)
    return [(st, ("loc", L) if c.q.endswith("*") else ("p", L))]


def step(it, st, v, n, c):
    v = st.res(v)
    if v[0] != "it":
        it.taint(st, "step of iterator")
        return [(st, st.fresh())]
    if n > 0:
        if v[2] == "end":
            return [(st, v)]
        return [(s, ("it", v[1], e)) for s, e in it.after(st, v[1], v[2])]
    return [(s, ("it", v[1], e)) for s, e in it.before(st, v[1], v[2])]


def m_itinc(it, st, c):
    o = it.load(st, c.this)
    out = []
    for s, v in step(it, st, o, 1 if "++" in c.q else -1, c):
        s.mem[s.cl(it.loc_of(s, ("loc", c.this)))] = v
        out.append((s, o if c.args else ("loc", c.this)))
    return out


for cls in ("std::_List_iterator", "std::_List_const_iterator", "std::_Deque_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator",
            "__gnu_cxx::__normal_iterator"):
    MODELS[cls + "::operator*"] = m_itderef
    MODELS[cls + "::operator->"] = m_itderef
    MODELS[cls + "::operator++"] = m_itinc
    MODELS[cls + "::operator--"] = m_itinc
    MODELS[cls + "::operator=="] = m_cmp
    nm = cls.rsplit("::", 1)[1]
    MODELS[cls + "::" + nm] = lambda it, st, c: [(st, A(it, st, c, 0) if c.args else st.fresh())]


def m_ritinc(it, st, c):
    """reverse iterators: the element they show is kept"""
    o = st.res(it.load(st, c.this))
    if o[0] != "it" or any(isinstance(x, tuple) for x in it.seq(st, o[1])):
        it.taint(st, "step of iterator")
        return [(st, st.fresh())]
    items = it.seq(st, o[1])
    i = items.index(o[2]) if o[2] in items else 0
    st.mem[st.cl(it.loc_of(st, ("loc", c.this)))] = ("it", o[1], items[i - 1] if i > 0 else "end")
    return [(st, o if c.args else ("loc", c.this))]


MODELS["std::reverse_iterator::operator*"] = m_itderef
MODELS["std::reverse_iterator::operator->"] = m_itderef
MODELS["std::reverse_iterator::operator++"] = m_ritinc
MODELS["std::reverse_iterator::reverse_iterator"] = lambda it, st, c: [(st, A(it, st, c, 0) if c.args else st.fresh())]


@model("std::next", "std::prev")
def m_next(it, st, c):
    v = A(it, st, c, 0)
    n = 1
    if len(c.args) > 1 and c.args[1] is not None:
        k = st.node(A(it, st, c, 1))
        if not k or k[0] != "Z":
            it.taint(st, "next")
            return [(st, st.fresh())]
        n = k[1]
    if c.q == "std::prev":
        n = -n
    res = [(st, v)]
    for _ in range(abs(n)):
        res = [x for s, w in res for x in step(it, s, w, n, c)]
    return res


# ---- sequences ---------------------------------------------------------------------------------------------------------
CONT = ("std::deque", "std::list", "std::vector", "std::set", "std::map", "std::multiset", "std::multimap", "std::unordered_set",
        "std::unordered_map", "std::initializer_list")


def cmodel(*names, only=CONT):
    def d(f):
        for cls in only:
            for n in names:
                MODELS[cls + "::" + n] = f
        return f
    return d


def cont(it, st, c):
    return it.loc_of(st, ("loc", c.this))


def for_cont(q):
    return q.rsplit("::", 1)[0].rsplit("::", 1)[1]


def m_cctor(it, st, c):
    L = st.cl(c.this)
    pt = [bt(x) for x in c.node.get("pt", [])]
    st.drop(L)
    st.typ.pop(L, None)
    args = [a for a, p in zip(c.args, pt) if not p.startswith("std::allocator<") and "::allocator_type" not in p and not p.startswith("std::less<")]
    if not args:
        st.mem[L] = ("seq", ())
        return [(st, ("loc", L))]
    p0 = pt[0]
    if is_seq(p0):
        src = it.loc_of(st, args[0])
        items = it.seq(st, src)
        st.copy_cells(src, L)
        if c.node.get("move"):
            replace_seq(it, st, src, (), None, c)
        return [(st, ("loc", L))]
    if len(args) == 2 and it.rv(st, args[0])[0] == "it":
        return range_into(it, st, L, it.rv(st, args[0]), it.rv(st, args[1]), (), c)
    n = st.node(it.rv(st, args[0]))
    # vector(n) / vector(n, v): array-like storage
    st.mem[L + ("@size",)] = it.rv(st, args[0])
    et = targ(bt(c.t), 0) if c.t else ""
    if n and n[0] == "Z" and n[1] <= (128 if is_seq(et) else 4) and c.q.startswith("std::vector"):
        items = []
        for _ in range(n[1]):
            if is_seq(et):
                items.append(it.new_elem(st, L, ("seq", ())))
            else:
                items.append(it.new_elem(st, L, NULL) if len(args) == 1 else it.new_elem(st, L, it.rv(st, args[1])))
        st.mem[L] = ("seq", tuple(items))
    return [(st, ("loc", L))]


for cls in CONT:
    nm = cls.rsplit("::", 1)[1]
    MODELS[cls + "::" + nm] = m_cctor


def range_into(it, st, L, a, b, before, c, after=()):
    """items of [a,b) copied behind `before`"""
    if a[0] != "it" or b[0] != "it" or a[1] != b[1]:
        it.taint(st, "range copy")
        st.mem[st.cl(L)] = ("seq", (("R", "r%d" % fresh_no()),))
        return [(st, ("loc", L))]
    src = st.cl(a[1])
    items = it.seq(st, src)
    i = items.index(a[2]) if a[2] in items else (0 if a[2] != "end" else len(items))
    j = items.index(b[2]) if b[2] in items else len(items)
    new = []
    for x in items[i:j]:
        if isinstance(x, tuple):
            new.append(x)
        else:
            eid = "e%d" % fresh_no()
            w = st.mem.get(src + (x,))
            st.copy_cells(st.cl(w[1]) if w is not None and w[0] == "ref" else src + (x,), st.cl(L) + (eid,))
            new.append(eid)
    it.set_seq(st, L, tuple(before) + tuple(new) + tuple(after), c.l, c.frame)
    return [(st, ("loc", L))]


@cmodel("empty")
def m_empty(it, st, c):
    L = cont(it, st, c)
    it.rule.on_read(it, st, L, c.l, c.frame)
    if st.get(L + ("@size",)) is not None and st.get(L) is None:
        return [(s, I(int(r))) for s, r in it.split_eq(st, st.get(L + ("@size",)), I(0))]
    return [(s, I(int(r))) for s, r in it.is_empty(st, L)]


@cmodel("size")
def m_size(it, st, c):
    L = cont(it, st, c)
    it.rule.on_read(it, st, L, c.l, c.frame)
    if st.get(L + ("@size",)) is not None and st.get(L) is None:
        return [(st, st.res(st.get(L + ("@size",))))]
    return [(st, it.seq_size(st, L))]


@cmodel("clear")
def m_clear(it, st, c):
    L = cont(it, st, c)
    it.set_seq(st, L, (), c.l, c.frame)
    return [(st, NULL)]


@cmodel("begin", "cbegin")
def m_begin(it, st, c):
    L = cont(it, st, c)
    it.rule.on_read(it, st, L, c.l, c.frame)
    return [(s, ("it", L, e)) for s, e in it.at(st, L, 0)]


@cmodel("rbegin", "crbegin")
def m_rbegin(it, st, c):
    L = cont(it, st, c)
    it.rule.on_read(it, st, L, c.l, c.frame)
    items = it.seq(st, L)
    if any(isinstance(x, tuple) for x in items):
        return NotImplemented
    return [(st, ("it", L, items[-1] if items else "end"))]


@cmodel("end", "cend", "rend", "crend")
def m_end(it, st, c):
    return [(st, ("it", cont(it, st, c), "end"))]


@cmodel("front", "back", "top")
def m_front(it, st, c):
    L = cont(it, st, c)
    it.rule.on_read(it, st, L, c.l, c.frame)
    out = []
    for s, e in it.at(st, L, 0 if c.q.endswith("front") else -1):
        if e == "end":
            s.ev("front-empty", c.l)
            it.rule.on_event(it, s, "front-empty", c, L)
            out.append((s, ("loc", it.new_root("t"))))
        else:
            out.append((s, ("loc", s.cl(L) + (e,))))
    return out


@cmodel("pop_front", "pop_back")
def m_pop(it, st, c):
    L = cont(it, st, c)
    out = []
    fr = c.q.endswith("front")
    for s, e in it.at(st, L, 0 if fr else -1):
        if e == "end":
            s.ev("pop-empty", c.l)
            it.rule.on_event(it, s, "front-empty", c, L)
            out.append((s, NULL))
            continue
        items = it.seq(s, L)
        it.set_seq(s, L, items[1:] if fr else items[:-1], c.l, c.frame)
        out.append((s, NULL))
    return out


def elem_value(it, st, L, c, i=0):
    """new element initialised from argument i"""
    a = c.args[i]
    eid = "e%d" % fresh_no()
    E = st.cl(L) + (eid,)
    if a[0] == "loc":
        src = it.loc_of(st, a)
        r = st.typ.get(src)
        t = bt(c.node.get("pt", [""])[i]) if i < len(c.node.get("pt", [])) else ""
        if t in it.prog.records:
            it.copy_obj(st, src, E, t)
        else:
            if not st.sub_cells(src):
                it.load(st, src, t, c.l, c.frame)
            st.copy_cells(src, E)
    else:
        st.mem[E] = st.res(a)
    return eid


@cmodel("push_back", "push_front", "emplace_back", "emplace_front", only=("std::deque", "std::list", "std::vector"))
def m_push(it, st, c):
    L = cont(it, st, c)
    items = it.seq(st, L)
    if not c.args:
        eid = it.new_elem(st, L, NULL)
    elif len(c.args) == 1:
        eid = elem_value(it, st, L, c)
    else:
        eid = "e%d" % fresh_no()
        et = targ(bt(c.node.get("cls", "")), 0)
        flds = it.prog.all_fields(et)
        for f, a in zip(flds, c.args):
            st.mem[st.cl(L) + (eid, f["n"])] = it.rv(st, a)
    new = (eid,) + items if "front" in c.q else items + (eid,)
    it.set_seq(st, L, new, c.l, c.frame)
    return [(st, ("loc", st.cl(L) + (eid,)) if "emplace" in c.q else NULL)]


@cmodel("reserve", "shrink_to_fit")
def m_reserve(it, st, c):
    return [(st, NULL)]


@cmodel("resize")
def m_resize(it, st, c):
    L = cont(it, st, c)
    st.drop(L)
    st.mem[st.cl(L) + ("@size",)] = A(it, st, c, 0)
    return [(st, NULL)]


@cmodel("insert", "emplace", only=("std::deque", "std::list", "std::vector"))
def m_insert(it, st, c):
    L = cont(it, st, c)
    pos = A(it, st, c, 0)
    items = it.seq(st, L)
    i = items.index(pos[2]) if pos[0] == "it" and pos[2] in items else len(items)
    if len(c.args) == 2:
        a1 = it.rv(st, c.args[1]) if c.args[1][0] != "loc" or not is_seq(c.node["pt"][1]) else None
        eid = elem_value(it, st, L, c, 1)
        it.set_seq(st, L, items[:i] + (eid,) + items[i:], c.l, c.frame)
        return [(st, ("it", st.cl(L), eid))]
    if len(c.args) == 3:
        a, b = it.rv(st, c.args[1]), it.rv(st, c.args[2])
        r = range_into(it, st, L, a, b, items[:i], c, items[i:])
        return [(s, s.fresh()) for s, v in r]
    return NotImplemented


def is_map(q):
    return "map" in for_cont(q)


def keyloc(st, L, eid, m):
    return st.cl(L) + ((eid, "first") if m else (eid,))


def find_key(it, st, L, key, c):
    """-> [(st, eid|None)] elements equal to key (unique keys)"""
    m = is_map(c.q)
    items = it.seq(st, L)
    cls = bt(c.node.get("cls", ""))
    less = user_less(it, targ(cls, 0), cls)
    out = []
    cur = [st]
    for x in items:
        nxt = []
        for s in cur:
            if isinstance(x, tuple):
                notin = s.gh.get(("_notin", x[1]), ())
                if any(s.eq(k, key) is True for k in notin):
                    nxt.append(s)
                    continue
                s1 = s.copy()
                s.gh[("_notin", x[1])] = notin + (key,)
                nxt.append(s)
                # it is one of the unknown elements
                eid = "e%d" % fresh_no()
                its = it.seq(s1, L)
                i = its.index(x)
                nrid = shrink_rest(it, s1, x[1])
                if nrid is None:
                    continue
                s1.mem[s1.cl(L)] = ("seq", its[:i] + (eid, ("R", nrid)) + its[i + 1:])
                s1.gh[("_notin", nrid)] = s1.gh.get(("_notin", nrid), ()) + (key,)
                for s2 in it.rule.on_materialise(it, s1, L, eid, x[1]):
                    v = s2.mem.get(keyloc(s2, L, eid, m))
                    if v is None:
                        s2.mem[keyloc(s2, L, eid, m)] = s2.res(key)
                        out.append((s2, eid))
                    elif s2.assume_eq(v, key):
                        out.append((s2, eid))
                continue
            v = it.load(s, keyloc(s, L, x, m))
            if less:
                for s2, r in equiv(it, s, less, v, key, c):
                    if r:
                        out.append((s2, x))
                    else:
                        nxt.append(s2)
            else:
                for s2, r in it.split_eq(s, v, key):
                    if r:
                        out.append((s2, x))
                    else:
                        nxt.append(s2)
        cur = nxt
    return out + [(s, None) for s in cur]


def shrink_rest(it, st, rid):
    """one element is taken out of a rest: new rest id (None if it must be empty)"""
    n = rid + "'"
    k = ("_size", rid)
    v = st.gh.get(k)
    if v is not None:
        if not st.assume_le(I(1), v):
            return None
        st.gh[("_size", n)] = it.arith(st, "-", st.res(v), I(1), "unsigned long")
    if ("_notin", rid) in st.gh:
        st.gh[("_notin", n)] = st.gh[("_notin", rid)]
    return n


def user_less(it, et, cls=""):
    """library comparison used by an ordered container of et"""
    key = (et, cls)
    cache = it.__dict__.setdefault("_less", {})
    if key not in cache:
        cache[key] = None
        cmp = targ(cls, 2 if "map<" in cls[:24] else 1) if cls else ""
        if cmp and not cmp.startswith("std::"):
            for f in it.prog.functions.values():
                if f["q"].endswith("::operator()") and len(f["p"]) == 2 and f.get("cls") == cmp:
                    cache[key] = f
        else:
            for f in it.prog.functions.values():
                if f["q"].endswith("::operator<") and len(f["p"]) == 2 and bt(f["p"][0]["t"]) == et:
                    cache[key] = f
    return cache[key]


def is_less(it, st, less, a, b, c):
    TA, TB = it.new_root("t"), it.new_root("t")
    st.mem[TA], st.mem[TB] = a, b
    out = []
    for s, v in it.call_fn(st, less["id"], None, [("loc", TA), ("loc", TB)], c, c.frame):
        if not bad(v):
            out += it.split_true(s, it.rv(s, v))
    return out


def equiv(it, st, less, a, b, c):
    TA, TB = it.new_root("t"), it.new_root("t")
    st.mem[TA], st.mem[TB] = a, b
    out = []
    for s, v in it.call_fn(st, less["id"], None, [("loc", TA), ("loc", TB)], c, c.frame):
        if bad(v):
            continue
        for s2, r in it.split_true(s, it.rv(s, v)):
            if r:
                out.append((s2, False))
                continue
            for s3, v3 in it.call_fn(s2, less["id"], None, [("loc", TB), ("loc", TA)], c, c.frame):
                if bad(v3):
                    continue
                for s4, r4 in it.split_true(s3, it.rv(s3, v3)):
                    out.append((s4, not r4))
    return out


ASSOC = ("std::set", "std::map", "std::multiset", "std::multimap", "std::unordered_set", "std::unordered_map")


@cmodel("contains", "count", only=ASSOC)
def m_contains(it, st, c):
    L = cont(it, st, c)
    it.rule.on_read(it, st, L, c.l, c.frame)
    return [(s, I(int(e is not None))) for s, e in find_key(it, st, L, A(it, st, c, 0), c)]


@cmodel("find", only=ASSOC)
def m_find(it, st, c):
    L = cont(it, st, c)
    it.rule.on_read(it, st, L, c.l, c.frame)
    return [(s, ("it", s.cl(L), e if e else "end")) for s, e in find_key(it, st, L, A(it, st, c, 0), c)]


@cmodel("insert", "emplace", "insert_or_assign", "try_emplace", only=ASSOC)
def m_sinsert(it, st, c):
    L = cont(it, st, c)
    m = is_map(c.q)
    if len(c.args) == 2 and not m:
        a, b = it.rv(st, c.args[0]), it.rv(st, c.args[1])
        if a[0] == "it":
            if a[1] == b[1] and a[0] == "it":
                out = []
                res = [(st, a)]
                for _ in range(6):
                    nxt = []
                    for s, p in res:
                        if p[2] == b[2]:
                            out.append((s, NULL))
                            continue
                        v = it.load(s, s.cl(p[1]) + (p[2],))
                        for s2 in set_add(it, s, L, v, c):
                            nxt += step(it, s2, p, 1, c)
                    res = nxt
                return out
    if m:
        if len(c.args) == 2:
            key, val = A(it, st, c, 0), c.args[1]
        else:
            P = it.loc_of(st, c.args[0])
            key, val = it.load(st, P + ("first",)), ("loc", P + ("second",))
    else:
        key, val = A(it, st, c, 0), None
    out = []
    for s, e in find_key(it, st, L, key, c) if "multi" not in c.q else [(st, None)]:
        T = it.new_root("t")
        if e is None:
            e = "e%d" % fresh_no()
            s.mem[keyloc(s, L, e, m)] = s.res(key)
            if m:
                put_val(it, s, s.cl(L) + (e, "second"), val)
            ps = places(it, s, L, key, m, c)
            if len(ps) > 1 or ps[0][1] < len(it.seq(s, L)):
                for s2, i in ps:
                    T = it.new_root("t")
                    its = it.seq(s2, L)
                    it.set_seq(s2, L, its[:i] + (e,) + its[i:], c.l, c.frame)
                    s2.mem[T + ("second",)] = TRUE
                    s2.mem[T + ("first",)] = ("it", s2.cl(L), e)
                    out.append((s2, ("loc", T)))
                continue
            it.set_seq(s, L, it.seq(s, L) + (e,), c.l, c.frame)
            s.mem[T + ("second",)] = TRUE
        else:
            if c.q.endswith("insert_or_assign"):
                put_val(it, s, s.cl(L) + (e, "second"), val)
            s.mem[T + ("second",)] = FALSE
            s.ev("insert-dup", c.l, s.cl(L))
        s.mem[T + ("first",)] = ("it", s.cl(L), e)
        out.append((s, ("loc", T)))
    return out


def places(it, st, L, key, m, c):
    """where a new key belongs in a container ordered by a comparison of the program -> [(st, index)]"""
    items = it.seq(st, L)
    cls = bt(c.node.get("cls", ""))
    less = user_less(it, targ(cls, 0), cls)
    if not less or "unordered" in c.q or any(isinstance(x, tuple) for x in items):
        return [(st, len(items))]
    out, cur = [], [st]
    for i, x in enumerate(items):
        nxt = []
        for s in cur:
            v = it.load(s, keyloc(s, L, x, m))
            for s2, r in is_less(it, s, less, key, v, c):
                if r:
                    out.append((s2, i))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, len(items)) for s in cur]


def put_val(it, s, E, val):
    s.drop(E)
    if val is None:
        return
    if val[0] == "loc":
        src = it.loc_of(s, val)
        s.copy_cells(src, E)
        if not s.sub_cells(E):
            s.mem[E] = it.load(s, src)
    else:
        s.mem[E] = s.res(val)


def set_add(it, st, L, v, c):
    out = []
    for s, e in find_key(it, st, L, v, c):
        if e is None:
            e = "e%d" % fresh_no()
            s.mem[s.cl(L) + (e,)] = v
            it.set_seq(s, L, it.seq(s, L) + (e,), c.l, c.frame)
        out.append(s)
    return out


@cmodel("operator[]", "at", only=("std::map", "std::unordered_map"))
def m_mapidx(it, st, c):
    L = cont(it, st, c)
    out = []
    key = A(it, st, c, 0)
    for s, e in find_key(it, st, L, key, c):
        if e is None:
            if c.q.endswith("at"):
                out.append((s, Throw("std::out_of_range", None, c.l)))
                continue
            e = "e%d" % fresh_no()
            s.mem[keyloc(s, L, e, True)] = s.res(key)
            s.mem[s.cl(L) + (e, "second")] = NULL
            it.set_seq(s, L, it.seq(s, L) + (e,), c.l, c.frame)
        out.append((s, ("loc", s.cl(L) + (e, "second"))))
    return out


@cmodel("erase")
def m_erase(it, st, c):
    L = cont(it, st, c)
    q = for_cont(c.q)
    v = it.rv(st, c.args[0], "", c.l, c.frame)
    if v[0] == "it":
        items = it.seq(st, L)
        if len(c.args) == 2:
            b = it.rv(st, c.args[1])
            i = items.index(v[2]) if v[2] in items else len(items)
            j = items.index(b[2]) if b[2] in items else len(items)
            it.set_seq(st, L, items[:i] + items[j:], c.l, c.frame)
            return [(st, ("it", st.cl(L), b[2]))]
        if v[2] == "end" or v[2] not in items:
            st.ev("erase-end", c.l)
            it.rule.on_event(it, st, "deref-end", c, v)
            return [(st, v)]
        out = []
        for s, e in it.after(st, L, v[2]):
            its = it.seq(s, L)
            it.set_seq(s, L, tuple(x for x in its if x != v[2]), c.l, c.frame)
            out.append((s, ("it", s.cl(L), e)))
        return out
    if q in ("list", "deque", "vector"):
        return NotImplemented
    out = []
    for s, e in find_key(it, st, L, v, c):
        if e is not None:
            its = it.seq(s, L)
            it.set_seq(s, L, tuple(x for x in its if x != e), c.l, c.frame)
            s.ev("erase", c.l, s.cl(L))
        out.append((s, I(int(e is not None))))
    return out


@cmodel("remove", only=("std::list",))
def m_remove(it, st, c):
    """list::remove(value): every equal element goes"""
    L = cont(it, st, c)
    v = A(it, st, c, 0)
    return remove_where(it, st, L, lambda s, E: it.split_eq(s, it.load(s, E), v), c, v)


@cmodel("remove_if", only=("std::list",))
def m_lremove_if(it, st, c):
    L = cont(it, st, c)
    return remove_where(it, st, L, lambda s, E: lam_bool(it, s, c.args[0], [("loc", E)], c), c)


def remove_where(it, st, L, test, c, value=None):
    items = it.seq(st, L)
    cur = [(st, 0)]
    for x in items:
        nxt = []
        for s, n in cur:
            if isinstance(x, tuple):
                if value is not None:
                    notin = s.gh.get(("_notin", x[1]), ())
                    if any(s.eq(k, value) is True for k in notin):
                        nxt.append((s, n))
                        continue
                    # elements are unique pointers in the lists this is used on: at most one match
                    s1 = s.copy()
                    s.gh[("_notin", x[1])] = notin + (value,)
                    nxt.append((s, n))
                    nrid = shrink_rest(it, s1, x[1])
                    if nrid is None:
                        continue
                    its = it.seq(s1, L)
                    i = its.index(x)
                    eid = "e%d" % fresh_no()
                    s1.mem[s1.cl(L)] = ("seq", its[:i] + (eid, ("R", nrid)) + its[i + 1:])
                    s1.gh[("_notin", nrid)] = notin + (value,)
                    for s2 in it.rule.on_materialise(it, s1, L, eid, x[1]):
                        E = s2.cl(L) + (eid,)
                        w = s2.mem.get(E)
                        if w is None:
                            s2.mem[E] = value
                        elif not s2.assume_eq(w, value):
                            continue
                        it.set_seq(s2, L, tuple(y for y in it.seq(s2, L) if y != eid), c.l, c.frame)
                        s2.ev("removed", c.l, s2.cl(L), value)
                        nxt.append((s2, n + 1))
                else:
                    it.taint(s, "remove_if over unknown elements")
                    nxt.append((s, n))
                continue
            for s2, r in test(s, s.cl(L) + (x,)):
                if bad(r):
                    nxt.append((s2, n))
                elif r:
                    it.set_seq(s2, L, tuple(y for y in it.seq(s2, L) if y != x), c.l, c.frame)
                    s2.ev("removed", c.l, s2.cl(L), value)
                    nxt.append((s2, n + 1))
                else:
                    nxt.append((s2, n))
        cur = nxt
    return [(s, I(n)) for s, n in cur]


@cmodel("operator[]", "at", only=("std::vector", "std::deque", "std::array"))
def m_vecidx(it, st, c):
    L = cont(it, st, c)
    n = st.node(A(it, st, c, 0))
    v = st.mem.get(st.cl(L))
    if v is not None and v[0] == "seq" and n and n[0] == "Z" and all(not isinstance(x, tuple) for x in v[1]):
        if n[1] < len(v[1]):
            return [(st, ("loc", st.cl(L) + (v[1][n[1]],)))]
        it.rule.on_event(it, st, "index-out-of-range", c, L)
        st.ev("index-out-of-range", c.l)
        return [(st, ("loc", it.new_root("t")))]
    idx = "[%s]" % (n[1] if n and n[0] == "Z" else "%s+%d" % n if n else "?")
    return [(st, ("loc", st.cl(L) + (idx,)))]


@cmodel("data")
def m_data(it, st, c):
    return [(st, ("p", cont(it, st, c)))]


@cmodel("operator=")
def m_cassign(it, st, c):
    L = cont(it, st, c)
    src = it.loc_of(st, c.args[0])
    if src == L:
        return [(st, ("loc", L))]
    replace_seq(it, st, L, it.seq(st, src), src, c)
    if "&&" in (c.node.get("pt") or [""])[0]:
        replace_seq(it, st, src, (), None, c)
    return [(st, ("loc", L))]


@cmodel("swap")
def m_cswap(it, st, c):
    c2 = Call(dict(c.node), None, [("loc", c.this), c.args[0]], c.frame)
    L, R = cont(it, st, c), it.loc_of(st, c.args[0])
    it.seq(st, L), it.seq(st, R)
    return m_swap(it, st, c2)


@cmodel("splice", only=("std::list",))
def m_splice(it, st, c):
    L, src = cont(it, st, c), it.loc_of(st, c.args[1])
    same = st.cl(L) == st.cl(src)
    pos = A(it, st, c, 0)
    items, other = it.seq(st, L), it.seq(st, src)
    a, b = 0, len(other)
    for n, arg in enumerate(c.args[2:4]):
        w = A(it, st, c, 2 + n)
        if w[0] != "it" or w[2] != "end" and w[2] not in other:
            return NotImplemented
        i = other.index(w[2]) if w[2] != "end" else len(other)
        if n == 0:
            a, b = i, i + 1 if len(c.args) == 3 else len(other)
        else:
            b = i
    moved, left = other[a:b], other[:a] + other[b:]
    if pos[0] != "it" or pos[2] != "end" and pos[2] not in items:
        return NotImplemented
    if same:
        if pos[2] in moved:
            return [(st, NULL)]
        i = left.index(pos[2]) if pos[2] != "end" else len(left)
        it.set_seq(st, L, left[:i] + moved + left[i:], c.l, c.frame)
        return [(st, NULL)]
    for x in moved:
        if not isinstance(x, tuple):
            st.copy_cells(st.cl(src) + (x,), st.cl(L) + (x,))
    i = items.index(pos[2]) if pos[2] != "end" else len(items)
    it.set_seq(st, L, items[:i] + moved + items[i:], c.l, c.frame)
    it.set_seq(st, src, left, c.l, c.frame)
    return [(st, NULL)]


# ---- algorithms ------------------------------------------------------------------------------------------------------------
def walk(it, st, L, c, fn, start=None, stop="end", limit=3):
    """apply fn(s, E, eid) -> [(s, 'go'|value|bad)] to the elements in order.
    -> [(s, value|'end'|bad, eid)]"""
    out = []
    first = it.at(st, L, 0) if start is None else [(st, start)]
    work = [(s, e, 0) for s, e in first]
    while work:
        nxt = []
        for s, e, n in work:
            if e == "end" or e == stop:
                out.append((s, "end", e))
                continue
            for s2, r in fn(s, s.cl(L) + (e,), e):
                if r != "go":
                    out.append((s2, r, e))
                    continue
                items = it.seq(s2, L)
                if e in items:
                    i = items.index(e) + 1
                    if i < len(items) and isinstance(items[i], tuple) and n >= limit - 1:
                        it.bounded.add(c.l)
                        s2.mem[s2.cl(L)] = ("seq", items[:i] + items[i + 1:])
                        it.rule.on_rest_empty(it, s2, items[i][1])
                for s3, e2 in it.after(s2, L, e):
                    nxt.append((s3, e2, n + 1))
        work = nxt
    return out


def range_of(it, st, c):
    """container, start, stop and remaining args of an algorithm call (iterator pair or range)"""
    pt = [bt(x) for x in c.node.get("pt", [])]
    a0 = c.args[0]
    v0 = it.rv(st, a0) if not (a0[0] == "loc" and (st.get(a0[1]) or ("?",))[0] == "seq") else ("?",)
    if v0[0] == "it":
        v1 = it.rv(st, c.args[1])
        return v0[1], v0[2], v1[2], c.args[2:]
    if a0[0] == "loc":
        return it.loc_of(st, a0), None, "end", c.args[1:]
    return None, None, None, c.args[1:]


def algo(names):
    return ["std::" + n for n in names] + ["std::ranges::__%s_fn::operator()" % n for n in names] + ["std::ranges::" + n for n in names]


@model(*algo(["any_of", "all_of", "none_of"]))
def m_anyof(it, st, c):
    L, a, b, rest = range_of(it, st, c)
    if L is None:
        return NotImplemented
    kind = re.search(r"(any|all|none)_of", c.q).group(1)

    def f(s, E, eid):
        out = []
        for s2, r in lam_bool(it, s, rest[0], [("loc", E)], c):
            if bad(r):
                out.append((s2, r))
            elif r == (kind != "all"):
                out.append((s2, "hit"))
            else:
                out.append((s2, "go"))
        return out
    out = []
    for s, r, e in walk(it, st, L, c, f, a, b):
        if bad(r):
            out.append((s, r))
        else:
            hit = r == "hit"
            out.append((s, I(int(hit if kind == "any" else not hit))))
    return out


@model(*algo(["find_if", "find_if_not", "find"]))
def m_findif(it, st, c):
    L, a, b, rest = range_of(it, st, c)
    if L is None:
        return NotImplemented
    neg = "find_if_not" in c.q
    byval = "find_if" not in c.q

    def f(s, E, eid):
        if byval:
            rs = it.split_eq(s, it.load(s, E), it.rv(s, rest[0]))
        else:
            rs = lam_bool(it, s, rest[0], [("loc", E)], c)
        return [(s2, r if bad(r) else ("hit" if r != neg else "go")) for s2, r in rs]
    out = []
    for s, r, e in walk(it, st, L, c, f, a, b):
        out.append((s, r if bad(r) else ("it", s.cl(L), e if r == "hit" else b)))
    return out


@model(*algo(["for_each"]))
def m_foreach(it, st, c):
    L, a, b, rest = range_of(it, st, c)
    if L is None:
        return NotImplemented

    def f(s, E, eid):
        return [(s2, v if bad(v) else "go") for s2, v in lam_call(it, s, rest[0], [("loc", E)], c)]
    return [(s, r if bad(r) else NULL) for s, r, e in walk(it, st, L, c, f, a, b)]


@model(*algo(["count_if", "count"]))
def m_countif(it, st, c):
    L, a, b, rest = range_of(it, st, c)
    if L is None:
        return NotImplemented
    K = it.new_root("t")
    st.mem[K] = I(0)

    def f(s, E, eid):
        rs = it.split_eq(s, it.load(s, E), it.rv(s, rest[0])) if not c.q.count("count_if") else lam_bool(it, s, rest[0], [("loc", E)], c)
        out = []
        for s2, r in rs:
            if bad(r):
                out.append((s2, r))
                continue
            if r:
                s2.mem[K] = I(s2.mem[K][1] + 1)
            out.append((s2, "go"))
        return out
    return [(s, r if bad(r) else s.mem[K]) for s, r, e in walk(it, st, L, c, f, a, b)]


def classify(it, st, c):
    """evaluate the predicate on every element -> [(st, L, [(eid, bool)])]"""
    L, a, b, rest = range_of(it, st, c)
    if L is None:
        return None
    K = "_cls%d" % fresh_no()
    st.gh[K] = ()

    def f(s, E, eid):
        out = []
        for s2, r in lam_bool(it, s, rest[0], [("loc", E)], c):
            if bad(r):
                out.append((s2, r))
            else:
                s2.gh[K] = s2.gh[K] + ((eid, r),)
                out.append((s2, "go"))
        return out
    res = []
    for s, r, e in walk(it, st, L, c, f, a, b):
        cl = s.gh.pop(K)
        res.append((s, r, L, cl))
    return res


@model("std::remove_if", "std::remove")
def m_removeif(it, st, c):
    if c.q == "std::remove":
        return NotImplemented
    res = classify(it, st, c)
    if res is None:
        return NotImplemented
    out = []
    for s, r, L, cl in res:
        if bad(r):
            out.append((s, r))
            continue
        kept = [e for e, b in cl if not b]
        n = len(cl) - len(kept)
        tail = []
        for i in range(n):
            e = "e%d" % fresh_no()
            # moved-from / stale values: unspecified
            s.mem[s.cl(L) + (e, "@stale")] = I(1)
            tail.append(e)
        for e, b in cl:
            if b:
                s.drop(s.cl(L) + (e,))
        if n:
            s.ev("remove_if-tail", c.l, n)
        it.set_seq(s, L, tuple(kept + tail), c.l, c.frame)
        out.append((s, ("it", s.cl(L), tail[0] if tail else "end")))
    return out


@model("std::stable_partition", "std::partition", "std::ranges::__stable_partition_fn::operator()")
def m_partition(it, st, c):
    res = classify(it, st, c)
    if res is None:
        return NotImplemented
    out = []
    for s, r, L, cl in res:
        if bad(r):
            out.append((s, r))
            continue
        yes = [e for e, b in cl if b]
        no = [e for e, b in cl if not b]
        it.set_seq(s, L, tuple(yes + no), c.l, c.frame)
        out.append((s, ("it", s.cl(L), no[0] if no else "end")))
    return out


@model("std::inserter", "std::back_inserter")
def m_inserter(it, st, c):
    return [(st, ("ins", it.loc_of(st, c.args[0]), bt(c.node["pt"][0])))]


@model("std::transform", "std::copy", "std::copy_if")
def m_transform(it, st, c):
    L, a, b, rest = range_of(it, st, c)
    if L is None:
        return NotImplemented
    dst = it.rv(st, rest[0])
    fun = rest[1] if len(rest) > 1 else None
    if dst[0] != "ins":
        it.taint(st, c.q)
        return [(st, st.fresh())]
    D, dt = dst[1], dst[2]

    def add(s, v):
        if dt.startswith(("std::set<", "std::map<")):
            cc = Call({"k": "MCall", "q": "std::set::insert", "cls": dt, "l": c.l, "t": "", "pt": [targ(dt, 0)]}, D, [v], c.frame)
            return [x for x, _ in m_sinsert(it, s, cc)]
        cc = Call({"k": "MCall", "q": "std::list::push_back", "cls": dt, "l": c.l, "t": "", "pt": [targ(dt, 0)]}, D, [v], c.frame)
        return [x for x, _ in m_push(it, s, cc)]

    def f(s, E, eid):
        out = []
        if fun is None:
            return [(s2, "go") for s2 in add(s, ("loc", E))]
        for s2, v in lam_call(it, s, fun, [("loc", E)], c):
            if bad(v):
                out.append((s2, v))
            elif c.q == "std::copy_if":
                for s3, r in it.split_true(s2, it.rv(s2, v)):
                    out += [(s4, "go") for s4 in add(s3, ("loc", E))] if r else [(s3, "go")]
            else:
                out += [(s3, "go") for s3 in add(s2, v)]
        return out
    return [(s, r if bad(r) else dst) for s, r, e in walk(it, st, L, c, f, a, b)]


@model("std::begin", "std::end", "std::cbegin", "std::cend")
def m_begin2(it, st, c):
    L = it.loc_of(st, c.args[0])
    if "begin" in c.q:
        return [(s, ("it", L, e)) for s, e in it.at(st, L, 0)]
    return [(st, ("it", L, "end"))]


@model("std::size", "std::empty")
def m_size2(it, st, c):
    c2 = Call(c.node, it.loc_of(st, c.args[0]), [], c.frame)
    return m_size(it, st, c2) if c.q == "std::size" else m_empty(it, st, c2)


# ---- libc ------------------------------------------------------------------------------------------------------------------
# ---- views ---------------------------------------------------------------------------------------------------------------
# A view becomes a sequence of references to the elements, made when the view is made.
VIEWS = ("std::ranges::join_view", "std::ranges::filter_view", "std::ranges::transform_view", "std::ranges::take_view", "std::ranges::drop_view",
         "std::ranges::reverse_view", "std::ranges::ref_view", "std::ranges::iota_view", "std::ranges::view_interface", "std::ranges::elements_view",
         "std::ranges::owning_view")
for _v in VIEWS:
    MODELS[_v + "::begin"] = m_begin
    MODELS[_v + "::end"] = m_end
    MODELS[_v + "::empty"] = m_empty
    MODELS[_v + "::size"] = m_size
    MODELS[_v + "::front"] = m_front


@model("std::ranges::views::__adaptor::_RangeAdaptor::operator()")
def m_adaptor(it, st, c):
    T = it.new_root("t")
    for i, a in enumerate(c.args):
        st.mem[T + ("@arg%d" % i,)] = ("ref", st.cl(a[1])) if a[0] == "loc" else a
    return [(st, ("loc", T))]


def view_elems(it, st, L):
    """element locations of a container, None if it has unknown parts"""
    items = it.seq(st, L)
    if any(isinstance(x, tuple) for x in items):
        return None
    out = []
    for x in items:
        w = st.mem.get(st.cl(L) + (x,))
        out.append(st.cl(w[1]) if w is not None and w[0] == "ref" else st.cl(L) + (x,))
    return out


def mk_view(st, it, elems):
    T = it.new_root("t")
    items = []
    for e in elems:
        eid = "e%d" % fresh_no()
        st.mem[T + (eid,)] = ("ref", e)
        items.append(eid)
    st.mem[T] = ("seq", tuple(items))
    return ("loc", T)


def open_rests(it, st, L, limit=3):
    """states in which the unknown parts of a container are elements (at most `limit` of them)"""
    out, work = [], [(st, 0)]
    while work:
        s, n = work.pop()
        items = it.seq(s, L)
        i = next((i for i, x in enumerate(items) if isinstance(x, tuple)), None)
        if i is None:
            out.append(s)
        elif n >= limit:
            it.bounded.add("view")
            s.mem[s.cl(L)] = ("seq", items[:i] + items[i + 1:])
            it.rule.on_rest_empty(it, s, items[i][1])
            work.append((s, 0))
        else:
            for s2 in it.expose(s, L, i):
                work.append((s2, n + 1))
    return out


def make_view(it, st, kind, src, arg, c):
    L = it.loc_of(st, src)
    it.rule.on_read(it, st, L, c.l, c.frame)
    out = []
    for s in open_rests(it, st, L):
        el = view_elems(it, s, L)
        if kind == "join":
            states = [s]
            for e in el:
                states = [x for y in states for x in open_rests(it, y, e)]
            out += [(x, mk_view(x, it, [z for e in el for z in view_elems(it, x, e)])) for x in states]
        elif kind == "filter":
            work = [(s, [])]
            for e in el:
                nxt = []
                for x, keep in work:
                    for y, b in lam_bool(it, x, arg, [("loc", e)], c):
                        if bad(b):
                            out.append((y, b))
                        else:
                            nxt.append((y, keep + [e] if b else keep))
                work = nxt
            out += [(x, mk_view(x, it, keep)) for x, keep in work]
        elif kind == "transform":
            work = [(s, [])]
            for e in el:
                nxt = []
                for x, keep in work:
                    for y, v in lam_call(it, x, arg, [("loc", e)], c):
                        if bad(v):
                            out.append((y, v))
                        elif v[0] == "loc":
                            nxt.append((y, keep + [y.cl(v[1])]))
                        else:
                            K = it.new_root("t")
                            y.mem[K] = y.res(v)
                            nxt.append((y, keep + [K]))
                work = nxt
            out += [(x, mk_view(x, it, keep)) for x, keep in work]
        elif kind in ("take", "drop"):
            n = s.node(it.rv(s, arg))
            if not n or n[0] != "Z":
                it.taint(s, "view with unknown length")
                n = ("Z", 0)
            out.append((s, mk_view(s, it, el[:n[1]] if kind == "take" else el[n[1]:])))
        elif kind == "reverse":
            out.append((s, mk_view(s, it, el[::-1])))
        elif kind in ("ref", "owning", "all"):
            out.append((s, mk_view(s, it, el)))
        elif kind == "elements":
            k = "first" if c.t.rstrip().endswith("0>") else "second"
            out.append((s, mk_view(s, it, [e + (k,) for e in el])))
        else:
            return NotImplemented
    return out


@model("std::ranges::views::__adaptor::operator|", "std::ranges::views::__adaptor::_Range_adaptor_closure::operator|")
def m_pipe(it, st, c):
    m = re.match(r"std::ranges::(\w+)_view<", bt(c.t))
    if not m:
        return NotImplemented
    arg = None
    if c.args[1][0] == "loc":
        w = st.mem.get(st.cl(c.args[1][1]) + ("@arg0",))
        arg = ("loc", w[1]) if w is not None and w[0] == "ref" else w
    return make_view(it, st, m.group(1), c.args[0], arg, c)


def m_viewfn(it, st, c):
    m = re.match(r"std::ranges::(\w+)_view<", bt(c.t))
    if not m:
        return NotImplemented
    args = c.args
    return make_view(it, st, m.group(1), args[0], args[1] if len(args) > 1 else None, c)


for _n in ("Filter", "Transform", "Take", "Drop", "Reverse", "Join", "All", "Elements"):
    MODELS["std::ranges::views::_%s::operator()" % _n] = m_viewfn


@model("std::ranges::views::_Iota::operator()")
def m_iota(it, st, c):
    a, b = st.node(A(it, st, c, 0)), st.node(A(it, st, c, 1)) if len(c.args) > 1 else None
    T = it.new_root("t")
    if not a or not b or a[0] != "Z" or b[0] != "Z" or b[1] - a[1] > 200:
        it.taint(st, "iota with unknown bounds")
        st.mem[T] = ("seq", (("R", "r%d" % fresh_no()),))
        return [(st, ("loc", T))]
    items = []
    for i in range(a[1], b[1]):
        eid = "e%d" % fresh_no()
        st.mem[T + (eid,)] = I(i)
        items.append(eid)
    st.mem[T] = ("seq", tuple(items))
    return [(st, ("loc", T))]


@model("__errno_location")
def m_errno(it, st, c):
    return [(st, ("p", ("g:errno",)))]


# ---- memory of the operating system ---------------------------------------------------------------------------------------
@model("mmap", "mmap64")
def m_mmap(it, st, c):
    n = A(it, st, c, 1)
    s2 = st.copy()
    a = st.fresh(lo=4096)
    st.ev("mmap", c.l)
    it.rule.on_event(it, st, "mmap", c, a, n)
    return [(st, a), (s2, I(-1))]


@model("munmap", "madvise")
def m_munmap(it, st, c):
    st.ev(c.q, c.l)
    it.rule.on_event(it, st, c.q, c, A(it, st, c, 0), A(it, st, c, 1))
    return [(st, st.fresh(dom=(0, -1)))]


@model("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove", "std::memcpy", "std::memmove")
def m_memcpy(it, st, c):
    a = A(it, st, c, 0)
    st.ev("memcpy", c.l)
    it.rule.on_event(it, st, "memcpy", c, a, A(it, st, c, 1), A(it, st, c, 2))
    return [(st, a)]
