"""Abstract interpreter over the type-checked AST.

It walks the structured control flow of a function, keeps a set of abstract
states (engine/state.py) per program point, follows calls into library code,
runs destructors at scope ends and follows exceptions.  Loops are iterated until
the set of states at the loop head stops growing (counters are widened).
Anything it does not know is replaced by an unknown value and recorded in the
state's `taint`; rules never raise an alarm from a tainted state.
"""
import functools
import re
import sys

from .state import State, I, NULL, TRUE, FALSE, add_const, fresh_no
from .program import AnalysisBroken

sys.setrecursionlimit(100000)

SEQ = ("std::deque<", "std::list<", "std::vector<", "std::set<", "std::multiset<", "std::map<", "std::multimap<",
       "std::unordered_set<", "std::unordered_map<", "std::initializer_list<", "std::queue<", "std::stack<",
       "std::forward_list<", "std::priority_queue<", "std::ranges::join_view<", "std::ranges::filter_view<", "std::ranges::transform_view<",
       "std::ranges::take_view<", "std::ranges::drop_view<", "std::ranges::reverse_view<", "std::ranges::ref_view<", "std::ranges::iota_view<",
       "std::ranges::elements_view<", "std::ranges::owning_view<")
SCALAR_REC = ("std::reverse_iterator<", "std::chrono::duration<", "std::chrono::time_point<", "std::shared_ptr<", "std::__shared_ptr",
              "std::unique_ptr<", "std::weak_ptr<", "std::function<", "std::atomic<", "std::__atomic_base<", "std::atomic_flag",
              "std::basic_string<", "std::__cxx11::basic_string<", "std::exception_ptr", "std::__exception_ptr::",
              "std::_List_iterator<", "std::_List_const_iterator<", "std::_Deque_iterator<", "std::_Rb_tree_iterator<",
              "std::_Rb_tree_const_iterator<", "__gnu_cxx::__normal_iterator<", "std::reverse_iterator<",
              "std::thread::id", "std::strong_ordering", "std::weak_ordering", "std::partial_ordering",
              "std::nullopt_t", "std::future<", "std::bitset<", "std::basic_string_view<", "std::reference_wrapper<",
              "std::any", "std::error_code", "std::__cmp_cat::", "std::allocator<", "std::nullptr_t",
              "std::basic_stringstream<", "std::__cxx11::basic_stringstream<", "std::initializer_list_",
              "std::in_place_t", "std::adopt_lock_t", "std::defer_lock_t", "std::try_to_lock_t",
              "std::logic_error", "std::runtime_error", "std::exception", "std::bad_cast", "std::bad_alloc",
              "std::out_of_range", "std::invalid_argument", "std::system_error", "std::bad_optional_access", "std::bad_function_call",
              "std::__detail::_Node", "std::once_flag", "std::recursive_mutex", "std::mutex", "std::condition_variable",
              "std::_Bit_", "std::counting_semaphore", "std::piecewise_construct_t", "std::less<", "std::greater<")


@functools.lru_cache(maxsize=None)
def bt(t):
    """type without top-level const and reference"""
    t = t.strip()
    while True:
        if t.endswith("&"):
            t = t[:-1].rstrip()
        elif t.endswith(" const"):
            t = t[:-6].rstrip()
        elif t.startswith("const ") and not t.endswith("*"):
            t = t[6:]
        elif t.startswith("volatile ") and not t.endswith("*"):
            t = t[9:]
        else:
            return t


@functools.lru_cache(maxsize=None)
def is_seq(t):
    t = bt(t)
    if not t.startswith(SEQ) or t.endswith(("*", "iterator")):
        return False
    n = 0
    for i, ch in enumerate(t):
        n += (ch == "<") - (ch == ">")
        if ch == ">" and n == 0:
            return i == len(t) - 1      # not a member type of a container
    return True


def is_scalar_rec(t):
    return bt(t).startswith(SCALAR_REC)


def is_ref(t):
    return t.rstrip().endswith("&")


def pointee(t):
    t = bt(t)
    if t.endswith("*"):
        return bt(t[:-1])
    m = re.match(r"std::(?:shared_ptr|unique_ptr|weak_ptr|__shared_ptr(?:_access)?)<(.*)>$", t)
    if m:
        return targ(t, 0)
    return t


def targ(t, n):
    """n-th template argument of a type string"""
    i = t.index("<")
    depth, start, k = 0, i + 1, 0
    for j in range(i, len(t)):
        c = t[j]
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
            if depth == 0:
                return t[start:j].strip() if k == n else ""
        elif c == "," and depth == 1:
            if k == n:
                return t[start:j].strip()
            k += 1
            start = j + 1
    return ""


UNSIGNED = ("unsigned", "size_t")


class Throw:
    __slots__ = ("t", "v", "l")

    def __init__(self, t, v=None, l=None):
        self.t, self.v, self.l = t, v, l


class Abort:
    """the process ends here (exit, terminate...)"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


def bad(v):
    return isinstance(v, (Throw, Abort))


class Call:
    __slots__ = ("node", "q", "f", "this", "args", "t", "l", "frame", "lv")

    def __init__(self, node, this, args, frame):
        self.node = node
        self.q = node.get("q", "")
        self.f = node.get("f")
        self.this = this
        self.args = args
        self.t = node.get("t", "")
        self.l = node.get("l", "?")
        self.lv = node.get("lv", False)
        self.frame = frame


class Frame:
    __slots__ = ("fn", "this", "clo", "depth", "ret", "tag", "parent")

    def __init__(self, fn, this, clo, depth, ret=None, parent=None):
        self.fn, self.this, self.clo, self.depth, self.ret = fn, this, clo, depth, ret
        self.parent = parent

    def chain(self):
        out, f = [], self
        while f:
            out.append(f.fn["q"])
            f = f.parent
        return out


class Rule:
    """default hooks; rules override what they need"""
    rank = None         # order of addresses, where it matters
    intrinsics = {}
    primitive_locks = ("cocpp::co_spinlock", "std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex")

    def lazy(self, it, st, L, t):
        return None

    def on_materialise(self, it, st, L, eid, rid):
        return [st]

    def on_rest_empty(self, it, st, rid):
        """the unknown part rid of a container turned out to hold no more elements"""

    def on_acquire(self, it, st, L, c, mode="lock"):
        st.held = st.held + (L,)
        return [st]

    def on_release(self, it, st, L, c):
        if L in st.held:
            h = list(st.held)
            h.reverse()
            h.remove(L)
            h.reverse()
            st.held = tuple(h)
        return [st]

    def on_try(self, it, st, L, c):
        s2 = st.copy()
        return [(s, True) for s in self.on_acquire(it, st, L, c, "try")] + [(s2, False)]

    def on_write(self, it, st, L, old, new, l, frame):
        pass

    def on_read(self, it, st, L, l, frame):
        pass

    def on_atomic(self, it, st, L, op, c):
        return None

    def on_callback(self, it, st, fv, args, c):
        return None

    def on_delete(self, it, st, v, node):
        return None

    def on_asm(self, it, st, node):
        return None

    def on_null_deref(self, it, st, node):
        pass

    def on_event(self, it, st, kind, *a):
        pass


class Interp:
    def __init__(self, prog, rule, max_depth=40, loop_max=7, budget=400000, sweep=False, widen_at=4):
        self.prog = prog
        self.rule = rule
        self.max_depth = max_depth
        self.loop_max = loop_max
        self.budget = budget
        self.sweep = sweep
        self.widen_at = widen_at
        self.steps = 0
        self.fn_seen = set()
        self.sites = set()
        self.calls = 0
        self.bounded = set()
        self.widened = set()
        self.taints = {}
        from . import models
        self.models = models.MODELS
        self.prefix_models = models.PREFIX

    # ------------------------------------------------------------------
    def taint(self, st, why):
        st.taint = st.taint | {why}
        self.taints[why] = self.taints.get(why, 0) + 1

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisBroken("analysis budget exceeded (%d steps)" % self.steps)

    def new_root(self, kind="h"):
        return ("%s%d" % (kind, fresh_no()),)

    # ---- loads and stores ---------------------------------------------
    def default(self, st, L, t):
        b = bt(t)
        if b == "bool":
            return st.fresh(dom=(0, 1))
        if b.startswith("unsigned") or b.startswith("std::atomic<unsigned"):
            return st.fresh(lo=0)
        if b in ("std::atomic<bool>", "std::atomic_flag"):
            return st.fresh(dom=(0, 1))
        return st.fresh()

    def load(self, st, L, t="", l=None, frame=None):
        L = st.cl(L)
        v = st.mem.get(L)
        hops = 0
        while v is not None and v[0] == "ref" and hops < 8:
            L = st.cl(v[1])
            v = st.mem.get(L)
            hops += 1
        if v is None:
            v = self.rule.lazy(self, st, L, t)
            if v is None and L[0].startswith("g:") and len(L) == 1:
                g = self.prog.globals.get(L[0]) or self.prog.globals.get(L[0][2:])
                if g is not None and "v" in g:
                    v = I(g["v"])
            if v is None:
                v = self.default(st, L, t)
            st.mem[L] = v
        self.rule.on_read(self, st, L, l, frame)
        return st.res(v)

    def store(self, st, L, v, l=None, frame=None):
        L = st.cl(L)
        o = st.mem.get(L)
        if o is not None and o[0] == "ref":
            L = st.cl(o[1])
            o = st.mem.get(L)
        st.mem[L] = v
        if L[0][0] not in "vt":
            self.rule.on_write(self, st, L, o, v, l, frame)

    def rv(self, st, v, t="", l=None, frame=None):
        """scalar value of an evaluation result"""
        if v is None:
            return st.fresh()
        if v[0] == "loc":
            return self.load(st, v[1], t, l, frame)
        return st.res(v)

    def loc_of(self, st, v, t=""):
        """location of an evaluation result (materialises scalars)"""
        if v is not None and v[0] == "loc":
            L = st.cl(v[1])
            w = st.mem.get(L)
            if w is not None and w[0] == "ref":
                return st.cl(w[1])
            return L
        L = self.new_root("t")
        st.mem[L] = v if v is not None else st.fresh()
        return L

    def deref(self, st, v, node=None):
        """location a pointer value points to"""
        v = st.res(v)
        if v[0] == "p":
            return st.cl(v[1])
        if v[0] == "s":
            return ("*" + v[1],)
        if v[0] == "clo":
            return st.cl(v[1])
        if v == NULL:
            st.ev("null-deref", node.get("l") if node else "?")
            self.rule.on_null_deref(self, st, node)
            return ("!null",)
        if v[0] == "it":
            return st.cl(v[1]) + (v[2],)
        if v[0] == "i":
            # a memory cell with a known address
            return ("mem:%d" % v[1],)
        self.taint(st, "deref of %s" % (v[0],))
        return self.new_root("t")

    def ptr(self, L):
        return ("p", L)

    # ---- branching ------------------------------------------------------
    def split_eq(self, st, a, b):
        r = st.eq(a, b)
        if r is not None:
            return [(st, r)]
        out = []
        s1 = st.copy()
        if s1.assume_eq(a, b):
            out.append((s1, True))
        if st.assume_ne(a, b):
            out.append((st, False))
        return out

    def split_le(self, st, a, b, c=0):
        """a - b <= c ?"""
        r = st.le_known(a, b, c)
        if r is not None:
            return [(st, r)]
        if st.node(a) is None or st.node(b) is None:
            return [(st.copy(), True), (st, False)]
        out = []
        s1 = st.copy()
        if s1.assume_le(a, b, c):
            out.append((s1, True))
        if st.assume_le(b, a, -c - 1):
            out.append((st, False))
        return out

    def split_true(self, st, v):
        v = st.res(v)
        k = v[0]
        if k == "i":
            return [(st, v[1] != 0)]
        if k in ("p", "clo", "fn", "it"):
            return [(st, True)]
        if k in ("s", "l"):
            return [(s, not r) for s, r in self.split_eq(st, v, NULL)]
        return [(st.copy(), True), (st, False)]

    def compare(self, st, op, a, b):
        if op == "==":
            return self.split_eq(st, a, b)
        if op == "!=":
            return [(s, not r) for s, r in self.split_eq(st, a, b)]
        if self.rule.rank is not None:
            x, y = st.res(a), st.res(b)
            if x[0] == "p" and y[0] == "p":
                m, n = self.rule.rank(x[1]), self.rule.rank(y[1])
                return [(st, {"<": m < n, "<=": m <= n, ">": m > n, ">=": m >= n}.get(op, False))]
        if op == "<=":
            return self.split_le(st, a, b, 0)
        if op == "<":
            return self.split_le(st, a, b, -1)
        if op == ">=":
            return self.split_le(st, b, a, 0)
        if op == ">":
            return self.split_le(st, b, a, -1)
        return [(st.copy(), True), (st, False)]

    # ---- expression evaluation ------------------------------------------
    def ev(self, st, e, fr):
        self.tick()
        return getattr(self, "x_" + e["k"], self.x_unknown)(st, e, fr)

    def evs(self, st, es, fr):
        """evaluate a list of expressions left to right -> [(st, [vals]|bad)]"""
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                if bad(vs):
                    nxt.append((s, vs))
                    continue
                if e is None:
                    nxt.append((s, vs + [None]))
                    continue
                for s2, v in self.ev(s, e, fr):
                    nxt.append((s2, v if bad(v) else vs + [v]))
            res = nxt
        return res

    def evr(self, st, e, fr):
        """evaluate to a scalar rvalue"""
        return [(s, v if bad(v) else self.rv(s, v, e.get("t", ""), e.get("l"), fr)) for s, v in self.ev(st, e, fr)]

    def cond(self, st, e, fr):
        """-> [(st, bool|bad)]"""
        out = []
        for s, v in self.ev(st, e, fr):
            if bad(v):
                out.append((s, v))
                continue
            out += self.split_true(s, self.rv(s, v, e.get("t", ""), e.get("l"), fr))
        return out

    def x_unknown(self, st, e, fr):
        self.taint(st, "node %s %s" % (e["k"], e.get("cls", "")))
        return [(st, st.fresh())]

    x_Unsupported = x_unknown

    def x_Opaque(self, st, e, fr):
        return [(st, st.fresh())]

    def x_Int(self, st, e, fr):
        return [(st, I(int(e["v"])))]

    def x_Float(self, st, e, fr):
        return [(st, ("fl", e["v"]))]

    def x_Str(self, st, e, fr):
        return [(st, ("str", e.get("v", "")))]

    def x_NullPtr(self, st, e, fr):
        return [(st, NULL)]

    def x_Zero(self, st, e, fr):
        if "rec" in e and not is_scalar_rec(e["t"]):
            L = self.new_root("t")
            return self.into(st, L, e, fr)
        return [(st, NULL)]

    def x_This(self, st, e, fr):
        if fr.clo is not None:
            v = st.get(fr.clo + ("cap:this",))
            if v is None:
                self.taint(st, "captured this unknown")
                return [(st, st.fresh())]
            if v[0] == "loc":
                return [(st, ("p", v[1]))]
            return [(st, st.res(v))]
        return [(st, ("p", fr.this))]

    def var_loc(self, st, vid, fr, e=None):
        if vid.startswith("g:"):
            return (vid,)
        if e is not None and e.get("g"):
            return ("static." + fr.fn["id"] + "." + vid,)
        if fr.clo is not None and e is not None and e.get("cap"):
            return fr.clo + ("cap:" + vid,)
        return ("v%d.%s" % (fr.depth, vid),)

    def x_Ref(self, st, e, fr):
        b = self.binding(st, e["id"], fr)
        if b is not None:
            return [(st, ("loc", b))]
        L = self.var_loc(st, e["id"], fr, e)
        v = st.mem.get(st.cl(L))
        if v is not None and v[0] == "ref":
            return [(st, ("loc", st.cl(v[1])))]
        return [(st, ("loc", L))]

    def binding(self, st, vid, fr):
        v = st.mem.get(("v%d.%s" % (fr.depth, vid), "@bind"))
        if v is not None:
            return st.cl(v[1])
        return None

    def x_FnRef(self, st, e, fr):
        return [(st, ("fn", e["f"], e.get("q")))]

    def x_Member(self, st, e, fr):
        out = []
        for s, v in self.ev(st, e["b"], fr):
            if bad(v):
                out.append((s, v))
                continue
            if e["arrow"]:
                p = self.rv(s, v, "", e.get("l"), fr)
                base = self.deref(s, p, e)
            else:
                base = self.loc_of(s, v)
            L = s.cl(base + (e["n"],))
            w = s.mem.get(L)
            if w is not None and w[0] == "ref":
                L = s.cl(w[1])
            out.append((s, ("loc", L)))
        return out

    def x_Index(self, st, e, fr):
        out = []
        for s, vs in self.evs(st, [e["a"], e["b"]], fr):
            if bad(vs):
                out.append((s, vs))
                continue
            a = vs[0]
            i = self.rv(s, vs[1])
            if a[0] == "loc" and e["a"].get("k") != "Cast":
                base = s.cl(a[1])
            else:
                base = self.deref(s, self.rv(s, a), e)
            n = s.node(i)
            idx = "[%s]" % (n[1] if n and n[0] == "Z" else "%s+%d" % n if n else "?")
            out.append((s, ("loc", base + (idx,))))
        return out

    def x_Cast(self, st, e, fr):
        ck = e["ck"]
        if ck == "ToVoid":
            return [(s, v if bad(v) else NULL) for s, v in self.ev(st, e["e"], fr)]
        out = []
        for s, v in self.ev(st, e["e"], fr):
            if bad(v):
                out.append((s, v))
                continue
            if ck == "LValueToRValue":
                out.append((s, self.rv(s, v, e["t"], e.get("l"), fr)))
            elif ck in ("PointerToBoolean", "IntegralToBoolean", "MemberPointerToBoolean", "FloatingToBoolean"):
                for s2, b in self.split_true(s, self.rv(s, v, "", e.get("l"), fr)):
                    out.append((s2, I(int(b))))
            elif ck == "NullToPointer":
                out.append((s, NULL))
            elif ck in ("ArrayToPointerDecay",):
                if v[0] == "loc":
                    out.append((s, ("p", s.cl(v[1]))))
                else:
                    out.append((s, v))
            elif ck == "FunctionToPointerDecay" or ck == "BuiltinFnToFnPtr":
                out.append((s, v))
            elif ck == "IntegralCast":
                w = self.rv(s, v, e["e"].get("t", ""), e.get("l"), fr)
                out.append((s, self.int_cast(s, w, e["t"], e["e"].get("t", ""))))
            elif ck in ("FloatingToIntegral", "IntegralToFloating", "FloatingCast"):
                w = self.rv(s, v)
                if w[0] == "fl" and ck == "FloatingToIntegral":
                    out.append((s, I(int(w[1]))))
                elif w[0] == "i" and ck == "IntegralToFloating":
                    out.append((s, ("fl", float(w[1]))))
                else:
                    out.append((s, s.fresh()))
            elif ck in ("Dynamic",):
                if e.get("lv"):
                    out.append((s, v))
                else:
                    from . import models
                    out += models.cast_dynamic(self, s, self.rv(s, v), pointee(e["t"]), None)
            else:
                # no-op, derived-to-base, bit casts, user conversions (inner call node present)
                out.append((s, v))
        return out

    def int_cast(self, st, v, to, frm):
        if v[0] == "i":
            b = bt(to)
            if b == "bool":
                return I(int(v[1] != 0))
            bits = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32,
                    "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64}.get(b)
            if bits:
                n = v[1] & ((1 << bits) - 1)
                if not b.startswith("unsigned") and n >= 1 << (bits - 1):
                    n -= 1 << bits
                return I(n)
        return v

    def x_BindTemp(self, st, e, fr):
        out = []
        for s, v in self.ev(st, e["e"], fr):
            if not bad(v) and v is not None and v[0] == "loc" and self.needs_dtor(e.get("rec", "")):
                s.temps = s.temps + ((v[1], e["rec"]),)
            out.append((s, v))
        return out

    def needs_dtor(self, rec):
        if rec.startswith(("std::scoped_lock<", "std::unique_lock<", "std::lock_guard<", "std::shared_lock<")):
            return True
        r = self.prog.records.get(rec)
        if r is None:
            return False
        if r.get("dtor") in self.prog.functions:
            return True
        return any(f.get("dtor") and self.needs_dtor(f.get("rec", "")) for f in self.prog.all_fields(rec))

    def x_MatTemp(self, st, e, fr):
        out = []
        for s, v in self.ev(st, e["e"], fr):
            if not bad(v) and (v is None or v[0] != "loc"):
                L = self.new_root("t")
                s.mem[L] = v if v is not None else s.fresh()
                v = ("loc", L)
            elif not bad(v) and e.get("sd") == "ext":
                # lifetime extended: not destroyed at the end of the full expression
                s.temps = tuple(x for x in s.temps if x[0] != v[1])
            out.append((s, v))
        return out

    def x_Cleanups(self, st, e, fr):
        saved = st.temps
        st.temps = ()
        out = []
        for s, v in self.ev(st, e["e"], fr):
            for s2, w in self.drop_temps(s, v, fr, e):
                s2.temps = saved
                out.append((s2, w))
        return out

    def drop_temps(self, s, v, fr, e):
        temps = s.temps
        s.temps = ()
        states = [(s, v)]
        for L, rec in reversed(temps):
            nxt = []
            for s1, w in states:
                if isinstance(w, tuple) and w and w[0] == "loc" and s1.cl(w[1]) == s1.cl(L):
                    nxt.append((s1, w))
                    continue
                for s2, x in self.destroy(s1, L, rec, e.get("l"), fr):
                    nxt.append((s2, x if bad(x) else w))
            states = nxt
        return states

    def x_Un(self, st, e, fr):
        op = e["op"]
        if op == "!":
            return [(s, b if bad(b) else I(int(not b))) for s, b in self.cond(st, e["e"], fr)]
        out = []
        for s, v in self.ev(st, e["e"], fr):
            if bad(v):
                out.append((s, v))
                continue
            if op == "*":
                w = self.rv(s, v, "", e.get("l"), fr)
                if w[0] == "fn":
                    out.append((s, w))
                else:
                    out.append((s, ("loc", self.deref(s, w, e))))
            elif op == "&":
                if v[0] == "loc":
                    out.append((s, ("p", self.loc_of(s, v))))
                else:
                    out.append((s, v))
            elif op in ("++", "--", "++post", "--post"):
                L = self.loc_of(s, v)
                o = self.load(s, L, e["t"], e.get("l"), fr)
                if o[0] == "p":
                    n = ("p", o[1][:-1] + ("[?]",)) if o[1][-1].startswith("[") else s.fresh()
                else:
                    n = self.arith(s, "+" if op[0] == "+" else "-", o, I(1), e["t"])
                self.store(s, L, n, e.get("l"), fr)
                out.append((s, o if op.endswith("post") else ("loc", L) if e.get("lv") else n))
            elif op == "-":
                w = self.rv(s, v)
                if w[0] == "i":
                    out.append((s, I(-w[1])))
                elif w[0] == "fl":
                    out.append((s, ("fl", -w[1])))
                else:
                    out.append((s, self.arith(s, "-", I(0), w, e["t"])))
            elif op == "+":
                out.append((s, self.rv(s, v)))
            elif op == "~":
                w = self.rv(s, v)
                out.append((s, self.int_cast(s, I(~w[1]), e["t"], "") if w[0] == "i" else s.fresh()))
            else:
                out.append((s, v))
        return out

    def arith(self, st, op, a, b, t=""):
        a, b = st.res(a), st.res(b)
        uns = bt(t).startswith("unsigned")
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            try:
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                     "/": lambda: int(x / y) if y else None, "%": lambda: x - y * int(x / y) if y else None,
                     "<<": lambda: x << y if 0 <= y < 128 else None, ">>": lambda: x >> y if 0 <= y < 128 else None,
                     "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]()
            except KeyError:
                r = None
            if r is None:
                return st.fresh()
            if abs(x) < 2 ** 52 and abs(y) < 2 ** 52 or op not in "/%":
                return self.int_cast(st, I(r), t, "")
            r = {"/": x // y, "%": x % y}[op] if x >= 0 and y > 0 else None
            return I(r) if r is not None else st.fresh()
        if op == "+" and b[0] == "i" and a[0] in ("s", "l"):
            return add_const(a, b[1])
        if op == "+" and a[0] == "i" and b[0] in ("s", "l"):
            return add_const(b, a[1])
        if op == "-" and b[0] == "i" and a[0] in ("s", "l"):
            if uns and b[1] > 0:
                lo = st.node(a)
                k = st.bound("Z", lo[0])
                if not (k is not None and -k + lo[1] >= b[1]):
                    n = st.fresh(lo=0)
                    st.ev("maybe-wrap", a, b)
                    return n
            return add_const(a, -b[1])
        if op == "-" and a == b:
            return I(0)
        if op == "-" and a[0] in ("s", "l") and b[0] in ("s", "l") and a[1] == b[1]:
            return I((a[2] if a[0] == "l" else 0) - (b[2] if b[0] == "l" else 0))
        if op == "&" and (a == NULL or b == NULL) or op == "*" and (a == NULL or b == NULL):
            return NULL
        if a[0] in ("s", "l", "i") and b[0] in ("s", "l", "i") and op in ("+", "-", "*", "/", "%", "&", "|", "<<", ">>", "^"):
            form = None
            if op in ("+", "-"):
                form = self.linear(st, a, b, 1 if op == "+" else -1)
                terms, k0 = form
                if not terms:
                    return I(k0)
                if len(terms) == 1 and terms[0][1] == 1:
                    return add_const(st.res(("s", terms[0][0])), k0)
                v = st.gh.get(("_linv", terms))
                if v is not None:
                    return add_const(st.res(v), k0)
            k = ("_ar", op, a, b)
            v = st.gh.get(k)
            if v is None and op == "+":
                v = st.gh.get(("_ar", op, b, a))
            if v is None:
                v = st.fresh(lo=0) if uns else st.fresh()
                st.gh[k] = v
                if form is not None:
                    st.gh[("_linv", form[0])] = add_const(v, -form[1])
                    st.gh[("_lin", v[1])] = form
                # facts about the result
                if op == "+":
                    for x, y in ((a, b), (b, a)):
                        n = st.node(y)
                        if n:
                            lo = st.bound("Z", n[0])
                            if lo is not None and -lo + n[1] >= 0:
                                st.assume_le(x, v, lo - n[1])
                elif op == "-":
                    n = st.node(b)
                    lo = st.bound("Z", n[0])
                    if lo is not None and -lo + n[1] >= 0 and not uns:
                        st.assume_le(v, a, lo - n[1])
                    # v >= 0 when a >= b
                    if st.le_known(b, a) is True:
                        st.assume_le(NULL, v)
                        if st.le_known(b, a, -1) is True:
                            st.assume_le(I(1), v)
                        if lo is not None and -lo + n[1] >= 0:
                            st.assume_le(v, a, lo - n[1])
                elif op in ("%", "&") and b[0] == "i" and b[1] > 0:
                    st.assume_le(NULL, v)
                    st.assume_le(v, I(b[1] - (1 if op == "%" else 0)))
            return st.res(v)
        if a[0] == "p" and op in "+-":
            n = st.node(b)
            if a[1] and n and n == ("Z", 0):
                return a
            return ("p", a[1] + ("[%s%s]" % (op, n[1] if n and n[0] == "Z" else "%s,%d" % n if n else "?"),))
        if b[0] == "p" and op == "+":
            return self.arith(st, op, b, a, t)
        if a[0] == "fl" or b[0] == "fl":
            try:
                x = float(a[1])
                y = float(b[1])
                return ("fl", {"+": x + y, "-": x - y, "*": x * y, "/": x / y if y else 0.0}[op])
            except Exception:
                return st.fresh()
        return st.fresh(lo=0) if uns else st.fresh()

    def linear(self, st, a, b, sign):
        """a + sign*b as ((symbol, factor), ...), constant"""
        acc = {}
        k0 = 0
        work = [(st.res(a), 1), (st.res(b), sign)]
        while work:
            v, f = work.pop()
            n = st.node(v)
            if n is None:
                acc[str(v)] = acc.get(str(v), 0) + f
                continue
            k0 += f * n[1]
            if n[0] == "Z":
                continue
            form = st.gh.get(("_lin", n[0]))
            if form is None:
                acc[n[0]] = acc.get(n[0], 0) + f
                continue
            k0 += f * form[1]
            for s, g in form[0]:
                work.append((st.res(("s", s)), f * g))
        return tuple(sorted((s, f) for s, f in acc.items() if f)), k0

    def x_Bin(self, st, e, fr):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for s, b in self.cond(st, e["a"], fr):
                if bad(b):
                    out.append((s, b))
                elif (op == "&&") == b:
                    out += [(s2, b2 if bad(b2) else I(int(b2))) for s2, b2 in self.cond(s, e["b"], fr)]
                else:
                    out.append((s, I(int(b))))
            return out
        if op == ",":
            out = []
            for s, v in self.ev(st, e["a"], fr):
                out += [(s, v)] if bad(v) else self.ev(s, e["b"], fr)
            return out
        if op == "=":
            out = []
            for s, r in self.evr(st, e["b"], fr):
                if bad(r):
                    out.append((s, r))
                    continue
                for s2, l in self.ev(s, e["a"], fr):
                    if bad(l):
                        out.append((s2, l))
                        continue
                    L = self.loc_of(s2, l)
                    self.store(s2, L, r, e.get("l"), fr)
                    out.append((s2, ("loc", L)))
            return out
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            out = []
            for s, r in self.evr(st, e["b"], fr):
                if bad(r):
                    out.append((s, r))
                    continue
                for s2, l in self.ev(s, e["a"], fr):
                    if bad(l):
                        out.append((s2, l))
                        continue
                    L = self.loc_of(s2, l)
                    o = self.load(s2, L, e["t"], e.get("l"), fr)
                    self.store(s2, L, self.arith(s2, op[:-1], o, s2.res(r), e["t"]), e.get("l"), fr)
                    out.append((s2, ("loc", L)))
            return out
        out = []
        for s, vs in self.evs(st, [e["a"], e["b"]], fr):
            if bad(vs):
                out.append((s, vs))
                continue
            a = self.rv(s, vs[0], e["a"].get("t", ""), e.get("l"), fr)
            b = self.rv(s, vs[1], e["b"].get("t", ""), e.get("l"), fr)
            if op in ("==", "!=", "<", "<=", ">", ">="):
                out += [(s2, I(int(r))) for s2, r in self.compare(s, op, a, b)]
            else:
                out.append((s, self.arith(s, op, a, b, e["t"])))
        return out

    def x_Cond(self, st, e, fr):
        out = []
        for s, b in self.cond(st, e["c"], fr):
            if bad(b):
                out.append((s, b))
            else:
                out += self.ev(s, e["a"] if b else e["b"], fr)
        return out

    def x_Throw(self, st, e, fr):
        if not e.get("e"):
            cur = st.gh.get("cur_exc")
            return [(st, Throw(cur or "?", None, e["l"]))]
        out = []
        for s, v in self.ev(st, e["e"], fr):
            if bad(v):
                out.append((s, v))
                continue
            s.ev("throw", e["l"], e.get("tt"))
            out.append((s, Throw(bt(e.get("tt", "?")), v, e["l"])))
        return out

    def x_Lambda(self, st, e, fr):
        L = self.new_root("h")
        return self.into(st, L, e, fr)

    def x_InitList(self, st, e, fr):
        if "rec" in e and not is_scalar_rec(e["t"]) or e["t"].endswith("]"):
            return self.into(st, self.new_root("t"), e, fr)
        if len(e["a"]) == 1:
            return self.ev(st, e["a"][0], fr)
        if not e["a"]:
            return [(st, NULL)]
        self.taint(st, "initlist " + e["t"])
        return [(st, st.fresh())]

    def x_StdInitList(self, st, e, fr):
        L = self.new_root("t")
        return self.into(st, L, e, fr)

    def x_Construct(self, st, e, fr):
        if is_scalar_rec(e["t"]):
            return self.construct_scalar(st, e, fr)
        return self.into(st, self.new_root("t"), e, fr)

    def x_New(self, st, e, fr):
        if e.get("place"):
            out = []
            for s, v in self.evr(st, e["place"][0], fr):
                if bad(v):
                    out.append((s, v))
                    continue
                L = self.deref(s, v, e)
                for s2, w in (self.into(s, L, e["init"], fr) if e.get("init") else [(s, None)]):
                    out.append((s2, w if bad(w) else ("p", L)))
            return out
        L = self.new_root("h")
        if "n" in e:
            out = []
            for s, v in self.evr(st, e["n"], fr):
                if bad(v):
                    out.append((s, v))
                    continue
                s.mem[L + ("@len",)] = v
                self.rule.on_event(self, s, "new[]", L, v, e)
                s.ev("new", e["l"], e["at"], L)
                out.append((s, ("p", L)))
            return out
        out = []
        if e.get("init"):
            rs = self.into(st, L, e["init"], fr)
        else:
            rs = [(st, None)]
        for s, w in rs:
            if bad(w):
                out.append((s, w))
                continue
            if "rec" in e:
                s.typ[L] = e["rec"]
            s.ev("new", e["l"], e["at"], L)
            self.rule.on_event(self, s, "new", L, e)
            out.append((s, ("p", L)))
        return out

    def x_Delete(self, st, e, fr):
        out = []
        for s, v in self.evr(st, e["e"], fr):
            if bad(v):
                out.append((s, v))
                continue
            h = self.rule.on_delete(self, s, v, e)
            if h is not None:
                out += h
                continue
            for s1, nz in self.split_true(s, v):
                if not nz:
                    out.append((s1, NULL))
                    continue
                L = self.deref(s1, v, e)
                rec = s1.typ.get(L) or e.get("rec", "")
                s1.ev("delete", e["l"], L)
                for s2, w in self.destroy(s1, L, rec, e.get("l"), fr):
                    s2.gh["freed"] = s2.gh.get("freed", frozenset()) | {L}
                    out.append((s2, w if bad(w) else NULL))
        return out

    def x_VAArg(self, st, e, fr):
        out = []
        for s, v in self.ev(st, e["e"], fr):
            h = self.rule.on_event(self, s, "va_arg", v, e)
            out.append((s, v if bad(v) else (h if h is not None else s.fresh())))
        return out

    def x_Atomic(self, st, e, fr):
        self.taint(st, "atomic builtin")
        return [(st, st.fresh())]

    def x_StmtExpr(self, st, e, fr):
        out = []
        for s, o in self.exec(st, e["b"], fr):
            out.append((s, o[1] if o[0] in ("throw", "abort") else s.fresh()))
        return out

    def x_Asm(self, st, e, fr):
        h = self.rule.on_asm(self, st, e)
        return h if h is not None else [(st, NULL)]

    # ---- calls ------------------------------------------------------------
    def x_Call(self, st, e, fr):
        if "fe" in e:
            out = []
            for s, vs in self.evs(st, [e["fe"]] + e["a"], fr):
                if bad(vs):
                    out.append((s, vs))
                    continue
                fv = self.rv(s, vs[0], "", e.get("l"), fr)
                out += self.call_value(s, fv, vs[1:], Call(e, None, vs[1:], fr), fr)
            return out
        # an intrinsic may want the unevaluated node
        out = []
        for s, vs in self.evs(st, e["a"], fr):
            if bad(vs):
                out.append((s, vs))
                continue
            out += self.dispatch(s, e, None, vs, fr)
        return out

    def x_MCall(self, st, e, fr):
        out = []
        for s, vs in self.evs(st, [e["o"]] + e["a"], fr):
            if bad(vs):
                out.append((s, vs))
                continue
            o = vs[0]
            if e.get("arrow"):
                this = self.deref(s, self.rv(s, o, "", e.get("l"), fr), e)
            else:
                this = self.loc_of(s, o)
            out += self.dispatch(s, e, this, vs[1:], fr)
        return out

    def x_OpCall(self, st, e, fr):
        out = []
        for s, vs in self.evs(st, e["a"], fr):
            if bad(vs):
                out.append((s, vs))
                continue
            if e.get("method"):
                this = self.loc_of(s, vs[0])
                out += self.dispatch(s, e, this, vs[1:], fr)
            else:
                out += self.dispatch(s, e, None, vs, fr)
        return out

    def dispatch(self, st, e, this, args, fr):
        c = Call(e, this, args, fr)
        q = c.q
        self.sites.add((fr.fn["q"], e.get("l"), q))
        h = self.rule.intrinsics.get(q)
        if h is not None:
            r = h(self, st, c)
            if r is not NotImplemented:
                return r
        # primitive locks
        cls = e.get("cls", "")
        if this is not None and self.is_primitive_lock(cls):
            r = self.lock_op(st, q.rsplit("::", 1)[1], this, c)
            if r is not None:
                return r
        f = c.f
        fn = self.prog.functions.get(f)
        if e.get("virt"):
            cands = []
            dt = st.typ.get(st.cl(this)) if this is not None else None
            over = self.prog.overriders.get(f, [])
            if dt is not None:
                t = self.find_override(f, dt)
                if t:
                    return self.call_fn(st, t, this, args, c, fr)
            cands = ([f] if fn else []) + list(over)
            if cands:
                out = []
                for i, x in enumerate(cands):
                    s = st.copy() if i < len(cands) - 1 else st
                    out += self.call_fn(s, x, this, args, c, fr)
                return out
        if fn is not None:
            if fn.get("defaulted") and q.endswith("operator=") and this is not None and args:
                self.copy_obj(st, self.loc_of(st, args[0]), this, e.get("cls", ""))
                return [(st, ("loc", this))]
            if this is not None and q.endswith("(lambda)::operator()"):
                return self.call_closure(st, this, args, c, fr)
            return self.call_fn(st, f, this, args, c, fr)
        # closures
        if this is not None and q.endswith("(lambda)::operator()"):
            return self.call_closure(st, this, args, c, fr)
        m = self.models.get(q)
        if m is None:
            for pre, mm in self.prefix_models:
                if q.startswith(pre):
                    m = mm
                    break
        if m is not None:
            r = m(self, st, c)
            if r is not NotImplemented:
                return r
        if q.endswith("::operator=") and this is not None and len(args) == 1:
            # implicit assignment of an aggregate
            self.copy_obj(st, self.loc_of(st, args[0]), this, cls)
            return [(st, ("loc", this))]
        return self.unknown_call(st, c)

    def find_override(self, f, dt):
        """the implementation of virtual f for dynamic type dt"""
        cands = [f] + list(self.prog.overriders.get(f, []))
        for r in self.prog.bases(dt):
            for x in cands:
                g = self.prog.functions.get(x)
                if g is not None and g.get("cls") == r:
                    return x
        return None

    def unknown_call(self, st, c):
        self.taint(st, "call " + (c.q or "?"))
        for a, t in zip(c.args, c.node.get("pt", [])):
            if a is not None and a[0] == "loc" and is_ref(t) and not t.startswith("const "):
                self.havoc(st, a[1])
        if c.node.get("noret"):
            return [(st, Abort(c.q))]
        return [(st, self.unknown_result(st, c.t, c.lv))]

    def unknown_result(self, st, t, lv=False):
        if lv:
            return ("loc", self.new_root("t"))
        b = bt(t)
        if b == "void":
            return NULL
        if b == "bool":
            return st.fresh(dom=(0, 1))
        if b in self.prog.records or is_seq(b) or b.startswith("std::optional<"):
            return ("loc", self.new_root("t"))
        return self.default(st, None, t)

    def havoc(self, st, L):
        st.drop(L)

    def call_value(self, st, fv, args, c, fr):
        fv = st.res(fv)
        if fv[0] == "clo":
            return self.call_closure(st, fv[1], args, c, fr)
        if fv[0] == "loc":
            return self.call_closure(st, fv[1], args, c, fr)
        if fv[0] == "fn":
            if fv[1] in self.prog.functions:
                return self.call_fn(st, fv[1], None, args, c, fr)
            e = dict(c.node)
            e["f"], e["q"] = fv[1], fv[2]
            e.pop("fe", None)
            return self.dispatch(st, e, None, args, fr)
        h = self.rule.on_callback(self, st, fv, args, c)
        if h is not None:
            return h
        if fv == NULL:
            st.ev("call-null", c.l)
            return [(st, Throw("std::bad_function_call", None, c.l))]
        st.ev("user-callback", c.l)
        return [(st, self.unknown_result(st, c.t, c.lv))]

    def call_closure(self, st, L, args, c, fr):
        L = st.cl(L)
        rec = st.typ.get(L)
        r = self.prog.records.get(rec) if rec else None
        if r is None or not r.get("ops"):
            v = st.mem.get(L)
            if v is not None and v[0] in ("clo", "fn", "s"):
                return self.call_value(st, v, args, c, fr)
            self.taint(st, "call of unknown closure")
            return [(st, self.unknown_result(st, c.t, c.lv))]
        op = r["ops"][0]
        if c.f in r["ops"]:
            op = c.f
        elif len(r["ops"]) > 1:
            ok = [o for o in r["ops"] if o in self.prog.functions and len(self.prog.functions[o]["p"]) == len(args)]
            op = ok[0] if ok else op
        return self.call_fn(st, op, L, args, c, fr, clo=L)

    def call_method(self, st, rec, name, this, args, c, fr):
        """call a method of a class by name"""
        if self.is_primitive_lock(rec):
            r = self.lock_op(st, name, this, c)
            if r is not None:
                return r
        for b in self.prog.bases(rec):
            q = self.strip_targs(b) + "::" + name
            h = self.rule.intrinsics.get(q)
            if h is not None:
                cc = Call({"k": "MCall", "q": q, "f": None, "l": c.l, "t": "", "cls": b, "pt": []}, this, args, fr)
                return h(self, st, cc)
            for f in self.prog.byq.get(q, []):
                if f.get("cls") == b and len(f["p"]) == len(args):
                    return self.call_fn(st, f["id"], this, args, c, fr)
        self.taint(st, "method %s::%s" % (rec, name))
        return [(st, st.fresh())]

    @staticmethod
    def strip_targs(t):
        out, d = "", 0
        for ch in t:
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
            elif d == 0:
                out += ch
        return out

    def call_fn(self, st, fid, this, args, c, fr, clo=None):
        fn = self.prog.functions.get(fid)
        if fn is None:
            return self.unknown_call(st, c)
        if c is None or c.q != fn["q"]:
            h = self.rule.intrinsics.get(fn["q"])
            if h is not None:
                node = {"k": "Call", "q": fn["q"], "f": fid, "l": c.l if c else fn["l"], "t": fn["ret"], "pt": [p["t"] for p in fn["p"]],
                        "cls": fn.get("cls", ""), "lv": is_ref(fn["ret"])}
                r = h(self, st, Call(node, this, args, fr))
                if r is not NotImplemented:
                    return r
        depth = (fr.depth if fr else 0) + 1
        if depth > self.max_depth:
            self.taint(st, "call depth")
            return [(st, self.unknown_result(st, fn["ret"], is_ref(fn["ret"])))]
        self.fn_seen.add(fid)
        self.calls += 1
        n0 = fresh_no() if self.sweep else 0
        nf = Frame(fn, this, clo, depth, parent=fr)
        params = fn["p"]
        for i, p in enumerate(params):
            L = ("v%d.%s" % (depth, p["id"]),)
            st.drop(L)
            if i >= len(args) or args[i] is None:
                continue
            a = args[i]
            if is_ref(p["t"]):
                if a[0] == "loc":
                    st.mem[L] = ("ref", self.loc_of(st, a))
                else:
                    T = self.new_root("t")
                    st.mem[T] = a
                    st.mem[L] = ("ref", T)
            elif p.get("rec") and not is_scalar_rec(p["t"]):
                if a[0] == "loc":
                    self.copy_obj(st, a[1], L, p["rec"])
                else:
                    st.mem[L] = a
            elif a[0] == "loc" and p["t"].endswith("]"):
                st.mem[L] = ("p", a[1])
            else:
                st.mem[L] = self.rv(st, a, p["t"], c.l if c else None, fr)
        st.ev("enter", fn["q"], fn["l"])
        saved = st.temps
        st.temps = ()
        out = []
        for s, o in self.exec(st, fn["body"], nf):
            res = [(s, o)]
            for p in reversed(params):
                if p.get("dtor") and not is_ref(p["t"]) and self.needs_dtor(p.get("rec", "")):
                    nxt = []
                    for s1, o1 in res:
                        for s2, x in self.destroy(s1, ("v%d.%s" % (depth, p["id"]),), p["rec"], fn["l"], nf):
                            nxt.append((s2, ("throw", x) if bad(x) else o1))
                    res = nxt
            for s1, o1 in res:
                s1.temps = saved
                self.drop_frame(s1, depth)
                if self.sweep:
                    self.drop_dead(s1, n0, o1)
                s1.ev("leave", fn["q"])
                k = o1[0]
                if k in ("throw",):
                    x = o1[1]
                    if fn.get("nx") and isinstance(x, Throw):
                        s1.ev("terminate", fn["q"])
                        x = Abort("exception leaves noexcept " + fn["q"])
                    out.append((s1, x))
                elif k == "abort":
                    out.append((s1, o1[1]))
                elif k == "ret":
                    out.append((s1, o1[1]))
                else:
                    if bt(fn["ret"]) != "void" and not fn.get("ctor") and not fn.get("isdtor"):
                        out.append((s1, self.unknown_result(s1, fn["ret"], is_ref(fn["ret"]))))
                    else:
                        out.append((s1, NULL))
        return out

    def drop_frame(self, st, depth):
        pre = "v%d." % depth
        dead = [k for k in st.mem if k[0].startswith(pre)]
        if not dead:
            return
        # locations returned by value live in their own slots, so frame cells can go
        for k in dead:
            del st.mem[k]
        for k in [k for k in st.typ if k[0].startswith(pre)]:
            del st.typ[k]

    def drop_dead(self, st, n0, keep):
        """remove temporaries made since n0 that nothing refers to"""
        dead = set()
        for k in st.mem:
            r = k[0]
            if r[0] == "t" and r not in dead and r[1:].isdigit() and int(r[1:]) > n0:
                dead.add(r)
        if not dead:
            return
        found = []

        def refs(v):
            if isinstance(v, tuple):
                if v and v[0].__class__ is str and v[0] in dead:
                    dead.discard(v[0])
                    found.append(v[0])
                for x in v:
                    if x.__class__ is not str and x.__class__ is not int:
                        refs(x)
            elif isinstance(v, (list, set, frozenset)):
                for x in v:
                    refs(x)
            elif isinstance(v, dict):
                refs(tuple(v.items()))
            elif isinstance(v, (Throw, Abort)):
                refs(tuple(getattr(v, "__dict__", {}).values()) or tuple(getattr(v, x, None) for x in getattr(v, "__slots__", ())))
        refs(keep)
        refs(st.temps)
        refs(st.held)
        refs(st.gh)
        refs(st.sub)
        for k, v in st.mem.items():
            if k[0] not in dead:
                refs(v)
                refs(k[1:])
                if not dead:
                    return
        while found:
            r = found.pop()
            for k, v in st.mem.items():
                if k[0] == r:
                    refs(v)
                    refs(k[1:])
        if not dead:
            return
        for k in [k for k in st.mem if k[0] in dead]:
            del st.mem[k]
        for k in [k for k in st.typ if k[0] in dead]:
            del st.typ[k]

    # ---- object initialisation ----------------------------------------------
    def into(self, st, L, e, fr, t=None):
        """initialise the object at L from expression e -> [(st, ('loc', L) | bad)]"""
        k = e["k"]
        if k == "Cleanups":
            saved = st.temps
            st.temps = ()
            out = []
            for s, v in self.into(st, L, e["e"], fr, t):
                for s2, w in self.drop_temps(s, v, fr, e):
                    s2.temps = saved
                    out.append((s2, w))
            return out
        if k in ("BindTemp",):
            return self.into(st, L, e["e"], fr, t)
        if k == "MatTemp":
            return self.into(st, L, e["e"], fr, t)
        et = e.get("t", "") or t or ""
        if k == "Construct" and not is_scalar_rec(et):
            return self.construct(st, L, e, fr)
        if k == "Lambda":
            return self.make_closure(st, L, e, fr)
        if k == "Zero" and "rec" in e and not is_scalar_rec(et):
            st.typ[L] = e["rec"]
            for f in self.prog.all_fields(e["rec"]):
                if "rec" not in f:
                    st.mem[L + (f["n"],)] = NULL
            return [(st, ("loc", L))]
        if k == "InitList" and et.endswith("]"):
            res = [(st, None)]
            for i, x in enumerate(e["a"]):
                nxt = []
                for s, b in res:
                    if bad(b):
                        nxt.append((s, b))
                        continue
                    nxt += self.into(s, L + ("[%d]" % i,), x, fr)
                res = nxt
            for s, _ in res:
                s.mem[L + ("@n",)] = I(len(e["a"]))
            return [(s, b if bad(b) else ("loc", L)) for s, b in res]
        if k == "InitList" and "rec" in e and not is_scalar_rec(et):
            if is_seq(et):
                return self.seq_init(st, L, e, fr)
            st.drop(L)
            st.typ[L] = e["rec"]
            res = [(st, None)]
            for n, x in zip(e.get("fields", []), e["a"]):
                if x is None:
                    continue
                nxt = []
                for s, b in res:
                    if bad(b):
                        nxt.append((s, b))
                        continue
                    tgt = L if n.startswith("base:") else L + (n,)
                    nxt += self.into(s, tgt, x, fr)
                res = nxt
            return [(s, b if bad(b) else ("loc", L)) for s, b in res]
        if k == "StdInitList":
            return self.seq_init(st, L, e["e"], fr)
        if k == "Cond":
            out = []
            for s, b in self.cond(st, e["c"], fr):
                out += [(s, b)] if bad(b) else self.into(s, L, e["a"] if b else e["b"], fr, t)
            return out
        if k == "Cast" and e["ck"] in ("NoOp", "ConstructorConversion", "UserDefinedConversion"):
            if e["ck"] != "UserDefinedConversion" or not is_scalar_rec(et):
                return self.into(st, L, e["e"], fr, et)
        if k == "Throw":
            return self.ev(st, e, fr)
        out = []
        for s, v in self.ev(st, e, fr):
            if bad(v):
                out.append((s, v))
                continue
            if v is not None and v[0] == "loc" and self.is_object(et):
                self.copy_obj(s, v[1], L, bt(et))
                out.append((s, ("loc", L)))
            else:
                s.drop(L)
                s.mem[s.cl(L)] = self.rv(s, v, et, e.get("l"), fr)
                out.append((s, ("loc", L)))
        return out

    def is_object(self, t):
        b = bt(t)
        if is_scalar_rec(b):
            return False
        return b in self.prog.records or is_seq(b) or b.startswith(
            ("std::optional<", "std::pair<", "std::tuple<", "std::unique_lock<", "std::scoped_lock<", "(lambda", "L(", "std::array<",
             "std::shared_lock<", "sigaction", "timeval", "std::ranges::", "fd_set", "iovec", "sockaddr")) or b.endswith("]") or b.startswith("(anonymous")

    def copy_obj(self, st, src, dst, rec):
        src, dst = st.cl(src), st.cl(dst)
        w = st.mem.get(src)
        if w is not None and w[0] == "ref":
            src = st.cl(w[1])
        w = st.mem.get(dst)
        if w is not None and w[0] == "ref":
            dst = st.cl(w[1])
        if src == dst:
            return
        if rec in self.prog.records:
            for f in self.prog.all_fields(rec):
                if "rec" not in f or is_scalar_rec(f["t"]):
                    fl = src + (f["n"],)
                    if fl not in st.mem and not any(k[:len(fl)] == fl for k in st.mem):
                        self.load(st, fl, f["t"])
        elif is_seq(rec):
            self.seq(st, src)
        elif rec.startswith("std::optional<"):
            self.load(st, src + ("@has",), "bool")
        st.copy_cells(src, dst)

    def make_closure(self, st, L, e, fr):
        st.drop(L)
        st.typ[L] = e["rec"]
        res = [(st, None)]
        for cp in e["caps"]:
            nxt = []
            for s, b in res:
                if bad(b):
                    nxt.append((s, b))
                    continue
                if cp.get("this"):
                    for s2, v in self.ev(s, {"k": "This", "l": e["l"]}, fr):
                        s2.mem[L + ("cap:this",)] = v
                        nxt.append((s2, v))
                    continue
                tgt = L + ("cap:" + cp["id"],)
                if cp.get("ref"):
                    for s2, v in self.ev(s, cp["init"], fr):
                        if not bad(v):
                            s2.mem[tgt] = ("ref", self.loc_of(s2, v))
                        nxt.append((s2, v))
                else:
                    nxt += self.into(s, tgt, cp["init"], fr, cp.get("vt"))
            res = nxt
        return [(s, b if bad(b) else ("loc", L)) for s, b in res]

    def seq_init(self, st, L, e, fr):
        while e["k"] in ("MatTemp", "Cast", "BindTemp"):
            e = e["e"]
        st.drop(L)
        items = []
        res = [(st, None)]
        for x in e.get("a", []):
            eid = "e%d" % fresh_no()
            items.append(eid)
            nxt = []
            for s, b in res:
                if bad(b):
                    nxt.append((s, b))
                    continue
                nxt += self.into(s, L + (eid,), x, fr)
            res = nxt
        for s, b in res:
            if not bad(b):
                s.mem[L] = ("seq", tuple(items))
        return [(s, b if bad(b) else ("loc", L)) for s, b in res]

    def construct(self, st, L, e, fr):
        rec = e["rec"]
        L = st.cl(L)
        h = self.rule.intrinsics.get(e["q"])
        if h is None and e.get("elide") and e["a"]:
            return self.into(st, L, e["a"][0], fr, e["t"])
        out = []
        fn = self.prog.functions.get(e["f"])
        for s, vs in self.evs(st, e["a"], fr):
            if bad(vs):
                out.append((s, vs))
                continue
            c = Call(e, L, vs, fr)
            self.sites.add((fr.fn["q"], e.get("l"), e["q"]))
            if h is not None:
                r = h(self, s, c)
                if r is not NotImplemented:
                    out += [(s2, v if bad(v) else ("loc", L)) for s2, v in r]
                    continue
            if (e.get("copy") or e.get("move")) and (fn is None or fn.get("defaulted") or fn.get("implicit")) and not rec.startswith(
                    ("std::unique_lock<", "std::shared_lock<")):
                src = self.loc_of(s, vs[0])
                self.copy_obj(s, src, L, rec)
                if rec in self.prog.records:
                    s.typ[L] = rec
                if e.get("move") and is_seq(rec):
                    s.drop(src)
                    s.mem[src] = ("seq", ())
                out.append((s, ("loc", L)))
                continue
            if fn is not None:
                for s2, v in self.run_ctor(s, fn, L, vs, c, fr):
                    out.append((s2, v if bad(v) else ("loc", L)))
                continue
            m = self.models.get(e["q"])
            if m is None:
                for pre, mm in self.prefix_models:
                    if e["q"].startswith(pre):
                        m = mm
                        break
            if m is not None:
                r = m(self, s, c)
                if r is not NotImplemented:
                    out += [(s2, v if bad(v) else ("loc", L)) for s2, v in r]
                    continue
            # trivial or unknown constructor
            if not vs:
                s.drop(L)
                s.typ[L] = rec
            else:
                self.taint(s, "ctor " + e["q"])
                s.drop(L)
                s.typ[L] = rec
            out.append((s, ("loc", L)))
        return out

    def run_ctor(self, st, fn, L, args, c, fr):
        depth = (fr.depth if fr else 0) + 1
        if depth > self.max_depth:
            self.taint(st, "call depth")
            return [(st, None)]
        self.fn_seen.add(fn["id"])
        self.calls += 1
        nf = Frame(fn, L, None, depth, parent=fr)
        if fn["cls"] not in [None]:
            old = st.typ.get(L)
            if old is None or fn["cls"] not in self.prog.bases(old):
                st.typ[L] = fn["cls"]
        for i, p in enumerate(fn["p"]):
            V = ("v%d.%s" % (depth, p["id"]),)
            st.drop(V)
            if i >= len(args) or args[i] is None:
                continue
            a = args[i]
            if is_ref(p["t"]):
                if a[0] == "loc":
                    st.mem[V] = ("ref", self.loc_of(st, a))
                else:
                    T = self.new_root("t")
                    st.mem[T] = a
                    st.mem[V] = ("ref", T)
            elif p.get("rec") and not is_scalar_rec(p["t"]) and a[0] == "loc":
                self.copy_obj(st, a[1], V, p["rec"])
            else:
                st.mem[V] = self.rv(st, a, p["t"])
        st.ev("enter", fn["q"], fn["l"])
        res = [(st, None)]
        for ini in fn.get("inits", []):
            nxt = []
            for s, b in res:
                if bad(b):
                    nxt.append((s, b))
                    continue
                x = ini.get("e")
                if x is None:
                    nxt.append((s, b))
                    continue
                if "n" in ini and is_ref(ini["t"]):
                    for s2, v in self.ev(s, x, nf):
                        if not bad(v):
                            s2.mem[L + (ini["n"],)] = ("ref", self.loc_of(s2, v))
                        nxt.append((s2, v))
                elif "n" in ini:
                    nxt += self.into(s, L + (ini["n"],), x, nf, ini["t"])
                else:
                    nxt += self.into_base(s, L, x, nf)
            res = nxt
        out = []
        for s, b in res:
            if bad(b):
                self.drop_frame(s, depth)
                out.append((s, b))
                continue
            if fn["cls"]:
                old = s.typ.get(L)
                if old is None or fn["cls"] not in self.prog.bases(old):
                    s.typ[L] = fn["cls"]
            for s2, o in self.exec(s, fn["body"], nf):
                self.drop_frame(s2, depth)
                s2.ev("leave", fn["q"])
                out.append((s2, o[1] if o[0] in ("throw", "abort") else None))
        return out

    def into_base(self, st, L, x, nf):
        while x["k"] in ("Cleanups", "BindTemp"):
            x = x["e"]
        if x["k"] == "Construct":
            fn = self.prog.functions.get(x["f"])
            if fn is None:
                return [(st, None)]
            if x.get("copy") or x.get("move"):
                return [(st, None)]
            old = st.typ.get(L)
            out = []
            for s, vs in self.evs(st, x["a"], nf):
                if bad(vs):
                    out.append((s, vs))
                    continue
                for s2, v in self.run_ctor(s, fn, L, vs, Call(x, L, vs, nf), nf):
                    if old:
                        s2.typ[L] = old
                    out.append((s2, v))
            return out
        return [(st, None)]

    def construct_scalar(self, st, e, fr):
        out = []
        for s, vs in self.evs(st, e["a"], fr):
            if bad(vs):
                out.append((s, vs))
                continue
            c = Call(e, None, vs, fr)
            h = self.rule.intrinsics.get(e["q"]) or self.models.get(e["q"])
            if h is not None:
                r = h(self, s, c)
                if r is not NotImplemented:
                    out += r
                    continue
            if not vs:
                out.append((s, NULL))
            elif len(vs) >= 1 and (e.get("copy") or e.get("move") or len(vs) == 1):
                v = vs[0]
                src = v
                w = self.rv(s, v, e["t"])
                if e.get("move") and src[0] == "loc" and bt(e["t"]).startswith(("std::shared_ptr<", "std::unique_ptr<", "std::function<")):
                    s.mem[self.loc_of(s, src)] = NULL
                out.append((s, w))
            else:
                out.append((s, s.fresh()))
        return out

    # ---- destruction -----------------------------------------------------------
    def destroy(self, st, L, rec, l, fr):
        """run the destructor of the object at L -> [(st, None|bad)]"""
        L = st.cl(L)
        if rec.startswith(("std::scoped_lock<", "std::unique_lock<", "std::lock_guard<", "std::shared_lock<")):
            from . import models
            return models.guard_dtor(self, st, L, rec, l, fr)
        r = self.prog.records.get(st.typ.get(L) or rec) or self.prog.records.get(rec)
        if r is None:
            return [(st, None)]
        h = self.rule.intrinsics.get(r["q"] + "::~" + r["q"].rsplit("::", 1)[1])
        if h is not None:
            c = Call({"k": "Dtor", "q": r["q"] + "::~", "f": None, "l": l, "t": "", "pt": []}, L, [], fr)
            return [(s, v if bad(v) else None) for s, v in h(self, st, c)]
        res = [(st, None)]
        d = self.prog.functions.get(r.get("dtor"))
        if d is not None:
            c = Call({"k": "Dtor", "q": d["q"], "f": d["id"], "l": l, "t": "void", "pt": []}, L, [], fr)
            res = [(s, v if bad(v) else None) for s, v in self.call_fn(st, d["id"], L, [], c, fr)]
        for f in reversed(self.prog.all_fields(r["id"])):
            if f.get("dtor") and not is_ref(f["t"]) and self.needs_dtor(f.get("rec", "")):
                nxt = []
                for s, b in res:
                    if bad(b):
                        nxt.append((s, b))
                    else:
                        nxt += self.destroy(s, L + (f["n"],), f["rec"], l, fr)
                res = nxt
        return res

    # ---- locks ----------------------------------------------------------------
    def is_primitive_lock(self, rec):
        rec = bt(rec)
        for p in self.rule.primitive_locks:
            if rec == p:
                return True
        return False

    def lock_op(self, st, name, this, c):
        L = st.cl(this)
        if name in ("lock", "lock_shared"):
            st.ev("lock", c.l, L)
            return [(s, NULL) for s in self.rule.on_acquire(self, st, L, c, name)]
        if name in ("unlock", "unlock_shared"):
            st.ev("unlock", c.l, L)
            return [(s, NULL) for s in self.rule.on_release(self, st, L, c)]
        if name in ("try_lock", "try_lock_shared"):
            return [(s, I(int(b))) for s, b in self.rule.on_try(self, st, L, c)]
        return None

    # ---- sequences ---------------------------------------------------------------
    def seq(self, st, L):
        """items of the container at L"""
        L = st.cl(L)
        v = st.mem.get(L)
        if v is not None and v[0] == "ref":
            L = st.cl(v[1])
            v = st.mem.get(L)
        if v is None or v[0] != "seq":
            v = self.rule.lazy(self, st, L, "seq")
            if v is None:
                v = ("seq", (("R", "r%d" % fresh_no()),))
            st.mem[L] = v
        return v[1]

    def set_seq(self, st, L, items, l=None, fr=None):
        L = st.cl(L)
        v = st.mem.get(L)
        if v is not None and v[0] == "ref":
            L = st.cl(v[1])
        old = st.mem.get(L)
        st.mem[L] = ("seq", tuple(items))
        if L[0][0] not in "vt":
            self.rule.on_write(self, st, L, old, st.mem[L], l, fr)

    def expose(self, st, L, i):
        """item i of the container is a Rest: split into 'no more' / 'one more element'"""
        items = self.seq(st, L)
        rid = items[i][1]
        out = []
        s0 = st.copy()
        s0.mem[s0.cl(L)] = ("seq", items[:i] + items[i + 1:])
        if self.rest_empty(s0, rid):
            out.append(s0)
        nrid = self.rest_take(st, rid)
        if nrid is None:
            return out
        eid = "e%d" % fresh_no()
        st.mem[st.cl(L)] = ("seq", items[:i] + (eid, ("R", nrid)) + items[i + 1:])
        out += self.rule.on_materialise(self, st, L, eid, rid)
        return out

    def rest_empty(self, st, rid):
        v = st.gh.get(("_size", rid))
        if v is None or st.assume_eq(v, I(0)):
            self.rule.on_rest_empty(self, st, rid)
            return True
        return False

    def rest_take(self, st, rid):
        from . import models
        return models.shrink_rest(self, st, rid)

    def at(self, st, L, i):
        """-> [(st, eid or 'end')] for position i (0-based, from the front; -1 = last)"""
        items = self.seq(st, L)
        if i >= 0:
            if i >= len(items):
                return [(st, "end")]
            for j in range(i + 1):
                if isinstance(items[j], tuple):
                    out = []
                    for s in self.expose(st, L, j):
                        out += self.at(s, L, i)
                    return out
            return [(st, items[i])]
        if not items:
            return [(st, "end")]
        if isinstance(items[-1], tuple):
            # expose from the back
            rid = items[-1][1]
            s0 = st.copy()
            s0.mem[s0.cl(L)] = ("seq", items[:-1])
            out = self.at(s0, L, -1) if self.rest_empty(s0, rid) else []
            nrid = self.rest_take(st, rid)
            if nrid is None:
                return out
            eid = "e%d" % fresh_no()
            st.mem[st.cl(L)] = ("seq", items[:-1] + (("R", nrid), eid))
            for s in self.rule.on_materialise(self, st, L, eid, rid):
                out.append((s, eid))
            return out
        return [(st, items[-1])]

    def after(self, st, L, eid):
        """-> [(st, next eid or 'end')]"""
        items = self.seq(st, L)
        if eid not in items:
            st.ev("iter-invalid", L, eid)
            self.rule.on_event(self, st, "iter-invalid", L, eid)
            return [(st, "end")]
        return self.at_from(st, L, items.index(eid) + 1)

    def at_from(self, st, L, i):
        items = self.seq(st, L)
        if i >= len(items):
            return [(st, "end")]
        if isinstance(items[i], tuple):
            out = []
            n = len(items)
            for s in self.expose(st, L, i):
                out += self.at_from(s, L, i) if len(self.seq(s, L)) < n else [(s, self.seq(s, L)[i])]
            return out
        return [(st, items[i])]

    def before(self, st, L, eid):
        items = self.seq(st, L)
        if eid == "end":
            return self.at(st, L, -1)
        i = items.index(eid) if eid in items else 0
        if i == 0:
            return [(st, "end")]
        if isinstance(items[i - 1], tuple):
            rid = items[i - 1][1]
            s0 = st.copy()
            s0.mem[s0.cl(L)] = ("seq", items[:i - 1] + items[i:])
            out = self.before(s0, L, eid) if self.rest_empty(s0, rid) else []
            nrid = self.rest_take(st, rid)
            if nrid is None:
                return out
            n = "e%d" % fresh_no()
            st.mem[st.cl(L)] = ("seq", items[:i - 1] + (("R", nrid), n) + items[i:])
            for s in self.rule.on_materialise(self, st, L, n, rid):
                out.append((s, n))
            return out
        return [(st, items[i - 1])]

    def is_empty(self, st, L):
        """-> [(st, bool)]"""
        items = self.seq(st, L)
        if not items:
            return [(st, True)]
        if any(not isinstance(x, tuple) for x in items):
            return [(st, False)]
        out = []
        for s in self.expose(st, L, 0):
            out += self.is_empty(s, L)
        return out

    def seq_size(self, st, L):
        items = self.seq(st, L)
        n = sum(1 for x in items if not isinstance(x, tuple))
        rests = [x for x in items if isinstance(x, tuple)]
        if not rests:
            return I(n)
        tot = None
        for r in rests:
            k = ("_size", r[1])
            v = st.gh.get(k)
            if v is None:
                v = st.fresh(lo=0)
                st.gh[k] = v
            tot = v if tot is None else self.arith(st, "+", tot, v, "unsigned long")
        return add_const(st.res(tot), n)

    def new_elem(self, st, L, v=None, src=None, rec=""):
        """append storage for an element and initialise it; returns the element id"""
        eid = "e%d" % fresh_no()
        E = st.cl(L) + (eid,)
        if src is not None and (v is None):
            self.copy_obj(st, src, E, rec)
            if E not in st.mem and not st.sub_cells(E):
                st.mem[E] = self.load(st, src)
        elif v is not None:
            st.mem[E] = v
        return eid

    # ---- statements ---------------------------------------------------------------
    def exec(self, st, n, fr):
        """-> [(st, outcome)]"""
        self.tick()
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(st, n, fr)
        out = []
        saved = st.temps
        st.temps = ()
        for s, v in self.ev(st, n, fr):
            for s2, w in self.drop_temps(s, v, fr, n):
                s2.temps = saved
                out.append((s2, self.as_outcome(w)))
        return out

    @staticmethod
    def as_outcome(v):
        if isinstance(v, Throw):
            return ("throw", v)
        if isinstance(v, Abort):
            return ("abort", v)
        return ("next",)

    def s_Null(self, st, n, fr):
        return [(st, ("next",))]

    def s_Block(self, st, n, fr):
        return self.run_scope(st, n["b"], fr)

    def run_scope(self, st, stmts, fr):
        live = [(st, ())]      # states that fall through, with declared variables
        done = []
        for x in stmts:
            nxt = []
            for s, vars_ in live:
                if x["k"] == "Decl":
                    for s2, o, nv in self.declare(s, x, fr):
                        if o[0] == "next":
                            nxt.append((s2, vars_ + nv))
                        else:
                            done.append((s2, o, vars_ + nv))
                else:
                    for s2, o in self.exec(s, x, fr):
                        if o[0] == "next":
                            nxt.append((s2, vars_))
                        else:
                            done.append((s2, o, vars_))
            live = self.merge(nxt)
            if not live:
                break
        out = []
        for s, vars_ in live:
            out += self.leave_scope(s, ("next",), vars_, fr)
        for s, o, vars_ in done:
            out += self.leave_scope(s, o, vars_, fr)
        return out

    def merge(self, live):
        """join states that cannot be told apart"""
        if len(live) < 12:
            return live
        seen, out = {}, []
        for s, vars_ in live:
            k = s.key((tuple(v[0] for v in vars_), s.taint))
            if k not in seen:
                seen[k] = 1
                out.append((s, vars_))
        return out

    def leave_scope(self, st, o, vars_, fr):
        if o[0] == "abort":
            return [(st, o)]
        res = [(st, o)]
        for L, rec, l, simple in reversed(vars_):
            if simple:
                continue
            nxt = []
            for s, o1 in res:
                if o1[0] == "abort":
                    nxt.append((s, o1))
                    continue
                for s2, x in self.destroy(s, L, rec, l, fr):
                    if isinstance(x, Throw):
                        nxt.append((s2, ("throw", x)))
                    elif isinstance(x, Abort):
                        nxt.append((s2, ("abort", x)))
                    else:
                        nxt.append((s2, o1))
            res = nxt
        for s, o1 in res:
            keep = o1[1][1][0] if o1[0] == "ret" and isinstance(o1[1], tuple) and o1[1] and o1[1][0] == "loc" else None
            for L, rec, l, simple in vars_:
                if L[0] != keep:
                    s.drop(L)
        return res

    def declare(self, st, n, fr):
        """-> [(st, outcome, new_vars)]"""
        res = [(st, ("next",), ())]
        for d in n["d"]:
            nxt = []
            for s, o, vs in res:
                if o[0] != "next":
                    nxt.append((s, o, vs))
                    continue
                for s2, o2, nv in self.declare_var(s, d, fr):
                    nxt.append((s2, o2, vs + nv))
            res = nxt
        return res

    def declare_var(self, st, d, fr):
        if d.get("static"):
            L = ("static." + fr.fn["id"] + "." + d["id"],)
            h = self.rule.on_event(self, st, "static", L, d)
            if L not in st.mem and not st.sub_cells(L) and d.get("init"):
                out = []
                for s, v in self.into(st, L, d["init"], fr, d["t"]):
                    out.append((s, self.as_outcome(v), ()))
                return out
            return [(st, ("next",), ())]
        L = ("v%d.%s" % (fr.depth, d["id"]),)
        st.drop(L)
        simple = not (d.get("dtor") and self.needs_dtor(d.get("rec", "")))
        nv = ((L, d.get("rec", ""), d["l"], simple),)
        if not d.get("init"):
            if d.get("rec") in self.prog.records:
                st.typ[L] = d["rec"]
            return [(st, ("next",), nv)]
        out = []
        if is_ref(d["t"]):
            e = d["init"]
            for s, v in self.ev(st, e, fr):
                if bad(v):
                    out.append((s, self.as_outcome(v), ()))
                    continue
                T = self.loc_of(s, v)
                s.mem[L] = ("ref", T)
                out += self.bind_decomp(s, d, L, T, fr, nv)
            return out
        saved = st.temps
        st.temps = ()
        for s, v in self.into(st, L, d["init"], fr, d["t"]):
            for s2, w in self.drop_temps(s, v, fr, d):
                s2.temps = saved
                if bad(w):
                    out.append((s2, self.as_outcome(w), ()))
                else:
                    out += self.bind_decomp(s2, d, L, L, fr, nv)
        return out

    def bind_decomp(self, st, d, L, T, fr, nv):
        if "bindings" not in d:
            return [(st, ("next",), nv)]
        for i, b in enumerate(d["bindings"]):
            BL = ("v%d.%s" % (fr.depth, b["id"]), "@bind")
            if "bind" in b:
                for s, v in self.ev(st, b["bind"], fr):
                    if v is not None and not bad(v) and v[0] == "loc":
                        s.mem[BL] = ("ref", v[1])
                    st = s
            else:
                names = [("first", "second")[i]] if i < 2 and bt(d["t"]).startswith("std::pair<") else ["_%d" % i]
                st.mem[BL] = ("ref", T + (names[0],))
            nv = nv + ((("v%d.%s" % (fr.depth, b["id"]),), "", d["l"], True),)
        return [(st, ("next",), nv)]

    def s_Decl(self, st, n, fr):
        return [(s, o) for s, o, _ in self.declare(st, n, fr)]

    def s_If(self, st, n, fr):
        pre = []
        if n.get("init"):
            pre.append(n["init"])
        if n.get("cv"):
            pre.append({"k": "Decl", "d": [n["cv"]], "l": n["l"]})
        if pre:
            m = dict(n)
            m.pop("init", None)
            m.pop("cv", None)
            return self.run_scope(st, pre + [m], fr)
        out = []
        for s, b in self.full_cond(st, n["c"], fr):
            if bad(b):
                out.append((s, self.as_outcome(b)))
            elif b:
                out += self.exec_sub(s, n["t"], fr)
            elif n.get("e"):
                out += self.exec_sub(s, n["e"], fr)
            else:
                out.append((s, ("next",)))
        return out

    def full_cond(self, st, e, fr):
        saved = st.temps
        st.temps = ()
        out = []
        for s, b in self.cond(st, e, fr):
            for s2, w in self.drop_temps(s, b, fr, e):
                s2.temps = saved
                out.append((s2, w))
        return out

    def exec_sub(self, st, n, fr):
        if n["k"] == "Decl":
            return self.run_scope(st, [n], fr)
        return self.exec(st, n, fr)

    def s_While(self, st, n, fr):
        if n.get("cv"):
            l = n["l"]
            b = {"k": "Block", "l": l, "b": [{"k": "Decl", "d": [n["cv"]], "l": l}, {"k": "If", "l": l, "c": n["c"], "t": n["b"], "e": {"k": "Break", "l": l}}]}
            return self.loop(st, n, fr, None, b, None, False)
        return self.loop(st, n, fr, n["c"], n["b"], None, False)

    def s_Do(self, st, n, fr):
        return self.loop(st, n, fr, n["c"], n["b"], None, True)

    def s_For(self, st, n, fr):
        if n.get("init"):
            m = dict(n)
            m["init"] = None
            return self.run_scope(st, [n["init"], m], fr)
        if n.get("cv"):
            l = n["l"]
            b = {"k": "Block", "l": l, "b": [{"k": "Decl", "d": [n["cv"]], "l": l}, {"k": "If", "l": l, "c": n["c"], "t": n["b"], "e": {"k": "Break", "l": l}}]}
            return self.loop(st, n, fr, None, b, n.get("inc"), False)
        return self.loop(st, n, fr, n.get("c"), n["b"], n.get("inc"), False)

    def loop(self, st, n, fr, c, body, inc, is_do):
        out = []
        seen = set()
        work = [(st, None, is_do)]
        it = 0
        # a loop whose condition is always decided is followed for longer before widening
        counted = c is not None and c.get("k") == "Bin"
        while work:
            it += 1
            if it > (self.loop_max if not counted else max(160, self.loop_max)):
                self.bounded.add(n["l"])
                break
            nxt = []
            for s, parent, skip in work:
                if it >= self.widen_at and not counted and parent is not None:
                    s = self.widen(s, parent, n)
                if not counted or len(work) > 1:
                    k = s.key((skip, s.taint))
                    if k in seen:
                        continue
                    seen.add(k)
                head = s.copy() if it >= self.widen_at - 1 else None
                if skip or c is None:
                    conds = [(s, True)]
                else:
                    conds = self.full_cond(s, c, fr)
                    if len(conds) != 1:
                        counted = False
                for s1, b in conds:
                    if bad(b):
                        out.append((s1, self.as_outcome(b)))
                    elif not b:
                        out.append((s1, ("next",)))
                    else:
                        for s2, o in self.exec_sub(s1, body, fr):
                            if o[0] in ("next", "continue"):
                                if inc is not None:
                                    for s3, v in self.ev(s2, inc, fr):
                                        if bad(v):
                                            out.append((s3, self.as_outcome(v)))
                                        else:
                                            nxt.append((s3, head, False))
                                else:
                                    nxt.append((s2, head, False))
                            elif o[0] == "break":
                                out.append((s2, ("next",)))
                            else:
                                out.append((s2, o))
            work = nxt
        return out

    def widen(self, s, parent, n):
        """replace counters that keep changing around the loop by unknowns"""
        self.widened.add(n["l"])
        for k, v in list(s.mem.items()):
            if v[0] not in ("i", "s", "l"):
                continue
            o = parent.mem.get(k)
            if o is None or o[0] not in ("i", "s", "l"):
                continue
            a, b = s.res(v), parent.res(o)
            if a == b:
                continue
            na, nb = s.node(a), s.node(b)
            if na and nb and na[0] == nb[0]:
                w = s.fresh()
                if na[1] > nb[1]:
                    s.assume_le(a, w)
                else:
                    s.assume_le(w, a)
                s.mem[k] = w
        return s

    def s_ForRange(self, st, n, fr):
        if n.get("init"):
            m = dict(n)
            m.pop("init")
            return self.run_scope(st, [n["init"], m], fr)
        rt = bt(n["rt"])
        out = []
        if is_seq(rt) or rt.startswith("std::ranges::") or rt.endswith("]"):
            for s, v in self.ev(st, n["range"], fr):
                if bad(v):
                    out.append((s, self.as_outcome(v)))
                    continue
                L = self.loc_of(s, v)
                if rt.endswith("]"):
                    out += self.iter_array(s, n, L, fr)
                    continue
                out += self.iter_seq(s, n, L, fr)
            return out
        # user-defined range: use the desugared form
        loop = {"k": "For", "l": n["l"], "init": None, "c": n["c"], "inc": n["inc"],
                "b": {"k": "Block", "l": n["l"], "b": [{"k": "Decl", "l": n["l"], "d": [n["var"]]}, n["b"]]}}
        return self.run_scope(st, [n["rangestmt"], n["beginstmt"], n["endstmt"], loop], fr)

    def iter_array(self, st, n, L, fr):
        cnt = st.mem.get(L + ("@n",))
        m = re.search(r"\[(\d+)\]$", bt(n["rt"]))
        size = int(m.group(1)) if m else (cnt[1] if cnt else 2)
        live, out = [st], []
        for i in range(min(size, 40)):
            nxt = []
            for s in live:
                for s2, o in self.run_body(s, n, L + ("[%d]" % i,), fr):
                    if o[0] in ("next", "continue"):
                        nxt.append(s2)
                    elif o[0] == "break":
                        out.append((s2, ("next",)))
                    else:
                        out.append((s2, o))
            live = nxt
        return out + [(s, ("next",)) for s in live]

    def run_body(self, st, n, E, fr):
        d = n["var"]
        V = ("v%d.%s" % (fr.depth, d["id"]),)
        st.drop(V)
        if is_ref(d["t"]):
            st.mem[V] = ("ref", E)
        elif self.is_object(d["t"]):
            self.copy_obj(st, E, V, bt(d["t"]))
        else:
            st.mem[V] = self.load(st, E, d["t"])
        if "bindings" in d:
            T = E if is_ref(d["t"]) else V
            for i, b in enumerate(d["bindings"]):
                names = ("first", "second") if bt(d["t"]).startswith("std::pair<") else ("_0", "_1", "_2", "_3")
                if "bind" in b:
                    names = None
                BL = ("v%d.%s" % (fr.depth, b["id"]), "@bind")
                if names is None:
                    for s, v in self.ev(st, b["bind"], fr):
                        s.mem[BL] = ("ref", v[1])
                        st = s
                else:
                    st.mem[BL] = ("ref", T + (names[i],))
        out = []
        for s, o in self.exec_sub(st, n["b"], fr):
            s.drop(V)
            out.append((s, o))
        return out

    def iter_seq(self, st, n, L, fr):
        """visit the elements in order; unknown parts give 'no more' or a generic element"""
        out = []
        seen = set()
        work = [(s, e, 0) for s, e in self.at(st, L, 0)]
        while work:
            nxt = []
            for s, e, cnt in work:
                if e == "end":
                    out.append((s, ("next",)))
                    continue
                if len(work) > 1:
                    k = s.key((e, s.taint))
                    if k in seen:
                        continue
                    seen.add(k)
                if cnt > 200:
                    self.bounded.add(n["l"])
                    continue
                for s2, o in self.run_body(s, n, s.cl(L) + (e,), fr):
                    if o[0] in ("next", "continue"):
                        items = self.seq(s2, L)
                        if e in items:
                            i = items.index(e) + 1
                            generic = i < len(items) and isinstance(items[i], tuple)
                            if generic and cnt >= 2:
                                # further generic elements behave like the ones seen
                                self.bounded.add(n["l"])
                                s2.mem[s2.cl(L)] = ("seq", items[:i] + items[i + 1:])
                                self.rule.on_rest_empty(self, s2, items[i][1])
                        for s3, e2 in self.after(s2, L, e):
                            nxt.append((s3, e2, cnt + 1))
                    elif o[0] == "break":
                        out.append((s2, ("next",)))
                    else:
                        out.append((s2, o))
            work = nxt
        return out

    def s_Return(self, st, n, fr):
        e = n.get("e")
        if e is None:
            return [(st, ("ret", NULL))]
        ret = fr.fn["ret"]
        out = []
        saved = st.temps
        st.temps = ()
        if is_ref(ret):
            rs = self.ev(st, e, fr)
        elif self.is_object(ret):
            L = self.new_root("t")
            rs = self.into(st, L, e, fr, ret)
        else:
            rs = self.evr(st, e, fr)
        for s, v in rs:
            for s2, w in self.drop_temps(s, v, fr, n):
                s2.temps = saved
                if bad(w):
                    out.append((s2, self.as_outcome(w)))
                    continue
                if is_ref(ret) and w[0] == "loc":
                    w = ("loc", self.loc_of(s2, w))
                out.append((s2, ("ret", w)))
        return out

    def s_Break(self, st, n, fr):
        return [(st, ("break",))]

    def s_Continue(self, st, n, fr):
        return [(st, ("continue",))]

    def s_Switch(self, st, n, fr):
        pre = [n["init"]] if n.get("init") else []
        if n.get("cv"):
            pre.append({"k": "Decl", "d": [n["cv"]], "l": n["l"]})
        if pre:
            m = dict(n)
            m.pop("init", None)
            m.pop("cv", None)
            return self.run_scope(st, pre + [m], fr)
        flat = []

        def add(x):
            if x is None:
                return
            if x["k"] in ("Case", "Default"):
                flat.append(("label", x))
                add(x.get("b"))
            else:
                flat.append(("stmt", x))
        body = n["b"]["b"] if n["b"]["k"] == "Block" else [n["b"]]
        for x in body:
            add(x)
        out = []
        for s, v in self.evr(st, n["c"], fr):
            if bad(v):
                out.append((s, self.as_outcome(v)))
                continue
            cur = [s]
            for i, (k, x) in enumerate(flat):
                if k != "label" or x["k"] != "Case":
                    continue
                nxt = []
                for s1 in cur:
                    for s2, b in self.split_eq(s1, v, I(int(x["v"]["v"]))):
                        if b:
                            out += self.run_flat(s2, flat, i, fr)
                        else:
                            nxt.append(s2)
                cur = nxt
            di = [i for i, (k, x) in enumerate(flat) if k == "label" and x["k"] == "Default"]
            for s1 in cur:
                if di:
                    out += self.run_flat(s1, flat, di[0], fr)
                else:
                    out.append((s1, ("next",)))
        return out

    def run_flat(self, st, flat, i, fr):
        stm = [x for k, x in flat[i:] if k == "stmt"]
        return [(s, ("next",) if o[0] == "break" else o) for s, o in self.run_scope(st, stm, fr)]

    def s_Try(self, st, n, fr):
        out = []
        for s, o in self.exec(st, n["b"], fr):
            if o[0] != "throw" or not isinstance(o[1], Throw):
                out.append((s, o))
                continue
            x = o[1]
            left = True
            for h in n["h"]:
                m = self.catches(h["t"], x.t)
                if m is False:
                    continue
                s1 = s.copy()
                old = s1.gh.get("cur_exc")
                s1.gh["cur_exc"] = x.t
                s1.ev("catch", h["t"])
                if h.get("var"):
                    V = ("v%d.%s" % (fr.depth, h["var"]),)
                    s1.drop(V)
                    if x.v is not None and x.v[0] == "loc":
                        s1.mem[V] = ("ref", x.v[1])
                for s2, o2 in self.exec(s1, h["b"], fr):
                    if old is None:
                        s2.gh.pop("cur_exc", None)
                    else:
                        s2.gh["cur_exc"] = old
                    out.append((s2, o2))
                if m is True:
                    left = False
                    break
            if left:
                out.append((s, o))
        return out

    def catches(self, ht, xt):
        if ht == "...":
            return True
        h = bt(ht)
        if h.endswith("*"):
            return h == xt
        if h == xt:
            return True
        if xt in ("?", "user"):
            return None
        if xt in self.prog.records and h in self.prog.bases(xt):
            return True
        if h == "std::exception":
            return xt.startswith("std::") or (xt in self.prog.records and any(b.startswith("std::") for b in self.prog.bases(xt)))
        anc = {"std::out_of_range": ["std::logic_error"], "std::invalid_argument": ["std::logic_error"], "std::length_error": ["std::logic_error"],
               "std::system_error": ["std::runtime_error"], "std::overflow_error": ["std::runtime_error"]}
        return h in anc.get(xt, [])

    # ---- entry points ---------------------------------------------------------------
    def run(self, st, fn, this=None, args=(), fr=None):
        """analyse a call of fn from outside -> [(st, value|Throw|Abort)]"""
        root = Frame({"q": "<entry>", "id": "<entry>", "l": "?", "ret": "void"}, None, None, fr.depth + 1 if fr else 0)
        node = {"k": "Call", "q": fn["q"], "f": fn["id"], "l": fn["l"], "t": fn["ret"], "pt": [p["t"] for p in fn["p"]]}
        self.sites.add(("<entry>", fn["l"], fn["q"]))
        if fn.get("ctor"):
            return [(s, v if bad(v) else ("loc", this)) for s, v in self.run_ctor(st, fn, this, list(args), Call(node, this, list(args), root), root)]
        clo = this if "(lambda)::operator()" in fn["q"] else None
        return self.call_fn(st, fn["id"], this, list(args), Call(node, this, list(args), root), root, clo=clo)
