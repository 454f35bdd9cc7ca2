"""C28, C29: typed values and events.

C28: the states an any-value can be in are those its own constructors and assignments
produce, with an arbitrary value; every read is followed from each of them.  Local storage
is followed from an arbitrary set of stored names.
C29: subscribe, unsubscribe and publish are followed from an arbitrary set of
subscriptions, callbacks being free to subscribe and unsubscribe.
"""
from engine.interp import bt, bad, Throw, is_seq, targ
from engine.models import to_callable
from engine.program import AnalysisBroken
from engine.state import State, I, NULL, TRUE, FALSE, fresh_no
from .kernel import KernelRule, ME, ENV, MGR, const, field
from .outcome import call

STR = "std::basic_string<"
RULES = {
    "C28": [
        ("any-same", "a stored value is read back unchanged with its type, also from a copy"),
        ("any-other", "reading a value with another type, or reading nothing, throws"),
        ("any-assign", "an assignment replaces value and type"),
        ("ret-same", "a return value converts to the stored value with its type"),
        ("ret-other", "converting a return value to another type throws"),
        ("local-create", "local storage is created on first use"),
        ("local-keep", "local storage is found again with its value, whatever else is stored meanwhile"),
        ("local-separate", "each name and each coroutine has local storage of its own"),
        ("local-other", "reading local storage with another type throws and changes nothing"),
    ],
    "C29": [
        ("ev-add", "subscribing adds exactly the given callback and nothing else changes"),
        ("ev-handle", "a subscription gets a handle that was never used before"),
        ("ev-remove", "unsubscribing removes the subscription of that handle and no other"),
        ("ev-call", "publishing calls every current subscriber once, with the published arguments"),
        ("ev-gone", "a subscriber that has unsubscribed is not called, also if it did so during the publication"),
        ("ev-iterate", "the subscriptions are walked through safely while callbacks change them"),
        ("ev-locked", "callbacks run under the lock that unsubscribing takes, and that lock can be taken again by them"),
    ],
}


class ValueRule(KernelRule):
    P = "C28"

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.intrinsics["cocpp::co_env::current_ctx"] = lambda it, st, c: [(st, st.gh["me"])]
        self.intrinsics["cocpp::co::current_ctx"] = self.intrinsics["cocpp::co_env::current_ctx"]

    def on_null_deref(self, it, st, node):
        self.chk(self.P, self.other, False, st, node.get("l", "?") if isinstance(node, dict) else str(node), "uses the result of a failed conversion")

    def run(self, it, st, fn, this, args):
        self.entry = "%s -> %s" % (fn["q"], short(fn["ret"])) if not fn.get("ctor") else "%s(%s)" % (fn["q"], ", ".join(short(x["t"]) for x in fn["p"]))
        st.gh.setdefault("pre", 0)
        res = it.run(st, fn, this, args)
        self.rep.use(it)
        self.rep.paths += len(res)
        return res

    # ---- any -----------------------------------------------------------------------------
    def stored(self):
        """[(state, type or None, value, how, location)]"""
        p = self.prog
        A = ("any",)
        out = []
        it = self.it
        ctors = [f for f in p.fns("cocpp::co_any::co_any")]
        assigns = [f for f in p.fns("cocpp::co_any::operator=")]
        base = []
        for f in ctors:
            if not f["p"]:
                st = State()
                st.typ[A] = "cocpp::co_any"
                for s, v in self.run(it, st, f, A, []):
                    base.append((s, None, None, "empty"))
            elif not bt(f["p"][0]["t"]).startswith("cocpp::"):
                st = State()
                st.typ[A] = "cocpp::co_any"
                V = st.fresh()
                st.mem[("user.val",)] = V
                for s, v in self.run(it, st, f, A, [("loc", ("user.val",))]):
                    base.append((s, bt(f["p"][0]["t"]), V, "constructed"))
        if len(base) < 2:
            raise AnalysisBroken("anchor vanished: constructors of the any-value")
        out += base
        for s0, t0, v0, how in base:
            for f in assigns:
                t = bt(f["p"][0]["t"])
                if t.startswith("cocpp::"):
                    continue
                st = s0.copy()
                V = st.fresh()
                st.mem[("user.val",)] = V
                for s, v in self.run(it, st, f, A, [("loc", ("user.val",))]):
                    self.chk(self.P, "any-assign", not bad(v), s, f["l"], "the assignment throws")
                    out.append((s, t, V, "assigned"))
        # copies
        B = ("any.copy",)
        for s0, t0, v0, how in list(out):
            for f in ctors + assigns:
                if len(f["p"]) != 1 or bt(f["p"][0]["t"]) != "cocpp::co_any":
                    continue
                st = s0.copy()
                st.typ[B] = "cocpp::co_any"
                if not f.get("ctor"):
                    d = [x for x in ctors if not x["p"]]
                    (st, _), = self.run(it, st, d[0], B, [])
                for s, v in self.run(it, st, f, B, [("loc", A)]):
                    out.append((s, t0, v0, "copied"))
        return [(s, t, v, how, B if how == "copied" else A) for s, t, v, how in out]

    def read(self, s0, t, v, how, L, f, same, other, rt):
        self.other = other
        it = self.it
        res = self.run(it, s0.copy(), f, L, [])
        if not res:
            self.chk(self.P, other, False, s0, f["l"], "never returns")
        for s, r in res:
            if t == rt:
                if bad(r):
                    self.chk(self.P, same, False, s, f["l"], "throws although the value (%s) has the requested type %s" % (how, short(t)))
                    continue
                got = it.rv(s, r, rt)
                self.chk(self.P, same, s.eq(got, v) is True, s, f["l"], "reads something else than the value that was %s" % how)
            else:
                self.chk(self.P, other, isinstance(r, Throw), s, f["l"],
                         "reads %s as %s" % ("an empty value" if t is None else "a " + short(t), short(rt)))

    def values(self):
        p = self.prog
        self.it = self.interp()
        self.other = "any-other"
        st = self.stored()
        gets = p.fns("cocpp::co_any::get")
        convs = p.fns("cocpp::co_return_value::operator()conv")
        mk = [f for f in p.fns("cocpp::co_return_value::co_return_value") if bt(f["p"][0]["t"]) == "cocpp::co_any"]
        if len(gets) < 2 or len(convs) < 2 or not mk:
            raise AnalysisBroken("anchor vanished: reading any-values and return values")
        R = ("ret",)
        for s, t, v, how, L in st:
            for f in gets:
                self.read(s, t, v, how, L, f, "any-same", "any-other", bt(f["ret"]))
            s2 = s.copy()
            s2.typ[R] = "cocpp::co_return_value"
            for s3, r in self.run(self.it, s2, mk[0], R, [("loc", L)]):
                if bad(r):
                    self.chk(self.P, "ret-same", False, s3, mk[0]["l"], "a return value cannot be made")
                    continue
                for f in convs:
                    self.read(s3, t, v, how, R, f, "ret-same", "ret-other", bt(f["ret"]))

    # ---- local storage -----------------------------------------------------------------------
    def local(self, s, fn, me):
        s = s.copy()
        s.gh["me"] = me
        return self.run(self.it, s, fn, None, [])

    def locals_(self):
        p = self.prog
        la, lb, ls = p.fn("local_a"), p.fn("local_b"), p.fn("local_a_string")
        YOU = ("p", ("ctx.you",))
        P = self.P
        self.other = "local-other"
        mf = field(p, "cocpp::co_ctx", "local storage", lambda f: is_seq(f["t"]) and "co_local" in f["t"])
        for start in ("nothing", "anything"):
            self.it = it = self.interp()
            st = State()
            for L in (ME[1], YOU[1]):
                st.typ[L] = "cocpp::co_ctx"
                if start == "nothing":
                    st.mem[L + (mf,)] = ("seq", ())
            ok = 0
            for s, v in self.local(st, la, ME):
                if bad(v):
                    # found with another type
                    self.chk(P, "local-create", start == "anything", s, la["l"], "the first use throws")
                    continue
                ok += 1
                L = it.loc_of(s, v)
                V = s.fresh()
                it.store(s, L, V, la["l"], None)
                for s2, v2 in self.local(s, la, ME):
                    if bad(v2):
                        self.chk(P, "local-keep", False, s2, la["l"], "the second use throws")
                        continue
                    self.chk(P, "local-keep", s2.eq(it.rv(s2, v2, "int"), V) is True, s2, la["l"], "the second use does not find the value")
                for s2, v2 in self.local(s, lb, ME):
                    if bad(v2):
                        self.chk(P, "local-create", start == "anything", s2, lb["l"], "the first use of a second name throws")
                        continue
                    L2 = it.loc_of(s2, v2)
                    self.chk(P, "local-separate", L2 != L, s2, lb["l"], "two names share one storage")
                    it.store(s2, L2, s2.fresh(), lb["l"], None)
                    for s3, v3 in self.local(s2, la, ME):
                        self.chk(P, "local-keep", not bad(v3) and s3.eq(it.rv(s3, v3, "int"), V) is True, s3, la["l"], "using another name loses the value")
                for s2, v2 in self.local(s, la, YOU):
                    if bad(v2):
                        continue
                    L2 = it.loc_of(s2, v2)
                    self.chk(P, "local-separate", L2 != L, s2, la["l"], "two coroutines share one storage")
                for s2, v2 in self.local(s, ls, ME):
                    self.chk(P, "local-other", isinstance(v2, Throw), s2, ls["l"], "an int is handed out as a string")
                    for s3, v3 in self.local(s2, la, ME):
                        self.chk(P, "local-other", not bad(v3) and s3.eq(it.rv(s3, v3, "int"), V) is True, s3, ls["l"], "a failed read changes the storage")
            self.chk(P, "local-create", ok, None, la["l"], "no use of local storage succeeds")


def short(t):
    return "string" if STR in t else bt(t)


def run_values(prog, rep):
    r = ValueRule(prog, rep)
    r.values()
    r.locals_()


E = ("event",)
NEW = ("fn.new",)


class EventRule(KernelRule):
    P = "C29"

    def __init__(self, prog, rep, cls):
        super().__init__(prog, rep)
        self.cls = cls
        self.fmap = field(prog, cls, "subscriptions", lambda f: is_seq(f["t"]))
        self.cnt = field(prog, cls, "counter", lambda f: bt(f["t"]) in WIDE)
        self.ulocks = None
        self.nested = 0

    def f(self, name):
        fs = [f for f in self.prog.fns("cocpp::co_event::" + name) if f.get("cls") == self.cls]
        if len(fs) != 1:
            raise AnalysisBroken("anchor vanished: co_event::" + name)
        return fs[0]

    def start(self, strict):
        st = State()
        st.typ[E] = self.cls
        C = st.fresh(lo=0)
        st.mem[E + (self.cnt,)] = C
        subs = []
        prev = None
        for i in range(3):
            k = st.fresh(lo=0)
            st.assume_le(k, C, -1 if strict else 0)
            if prev is not None:
                st.assume_le(prev, k, -1)
                st.assume_ne(prev, k)
            if strict:
                st.assume_ne(k, C)
            prev = k
            f = st.fresh()
            st.assume_ne(f, NULL)
            subs.append((k, f))
            e = "s%d" % i
            st.mem[E + (self.fmap, e, "first")] = k
            st.mem[E + (self.fmap, e, "second")] = f
        st.mem[E + (self.fmap,)] = ("seq", ("s0", "s1", "s2"))
        st.gh.update(called=(), gone=(), inpub=False, pre=0)
        return st, C, subs

    def entries(self, it, s):
        L = E + (self.fmap,)
        return [(it.load(s, L + (x, "first")), it.load(s, L + (x, "second"))) for x in it.seq(s, L) if not isinstance(x, tuple)]

    def same(self, s, got, want):
        return len(got) == len(want) and all(any(s.eq(a, c) is True and s.eq(b, d) is True for c, d in got) for a, b in want)

    def on_write(self, it, st, L, old, new, l, frame):
        if L[:2] == E + (self.fmap,) and st.gh.get("unsubbing"):
            h = frozenset(st.held)
            self.ulocks = h if self.ulocks is None else self.ulocks & h

    def on_acquire(self, it, st, L, c, mode="lock"):
        if L in st.held and L[:1] == E:
            f = [x for x in self.prog.all_fields(self.cls) if x["n"] == L[1]]
            self.chk(self.P, "ev-locked", f and "recursive" in f[0]["t"], st, c.l, "a callback that subscribes or unsubscribes waits for a lock its publication holds")
        return super().on_acquire(it, st, L, c, mode)

    def on_event(self, it, st, kind, *a):
        if kind == "iter-invalid" and st.gh.get("inpub"):
            self.chk(self.P, "ev-iterate", False, st, self.pl, "goes on from a subscription that a callback has removed")

    def on_callback(self, it, st, fv, args, c):
        g = st.gh
        self.pl = c.l
        fv = st.res(fv)
        self.chk(self.P, "ev-call", fv not in g["called"], st, c.l, "calls a subscriber twice")
        self.chk(self.P, "ev-gone", fv not in g["gone"], st, c.l, "calls a subscriber that has unsubscribed")
        self.chk(self.P, "ev-call", len(args) == len(self.args) and all(st.eq(it.rv(st, a), b) is True for a, b in zip(args, self.args)), st, c.l,
                 "does not pass the published arguments")
        self.chk(self.P, "ev-locked", bool(self.ulocks & set(st.held)), st, c.l, "a subscriber may be called after another thread unsubscribed it")
        g["called"] = g["called"] + (fv,)
        out = [(st.copy(), NULL)]
        if g["acted"]:
            return out
        g["acted"] = True
        un, sub = self.f("unsub"), self.f("sub")
        for k, f in self.subs:
            if f in g["gone"]:
                continue
            s = st.copy()
            T = it.new_root("t")
            s.mem[T] = k
            s.ev("callback-unsubscribes", c.l, k)
            for s2, v in it.call_fn(s, un["id"], E, [("loc", T)], c, c.frame):
                s2.gh["gone"] = s2.gh["gone"] + (f,)
                out.append((s2, NULL))
        s = st.copy()
        T = it.new_root("t")
        n = s.fresh()
        s.assume_ne(n, NULL)
        s.mem[T] = n
        s.ev("callback-subscribes", c.l)
        for s2, v in it.call_fn(s, sub["id"], E, [("loc", T)], c, c.frame):
            out.append((s2, NULL))
        return out

    def verify(self):
        P = self.P
        # subscribe, with whichever invariant of the counter the code keeps
        fn = self.f("sub")
        self.entry = "co_event::sub"
        keyt = targ([x["t"] for x in self.prog.all_fields(self.cls) if x["n"] == self.fmap][0], 0)
        why = None
        for strict in (True, False):
            st, C, subs = self.start(strict)
            it = self.interp()
            T = ("user.cb",)
            f = st.fresh()
            st.assume_ne(f, NULL)
            st.mem[T] = f
            bads = []
            for s, v in it.run(st, fn, E, [("loc", T)]):
                self.rep.paths += 1
                if bad(v):
                    self.chk(P, "ev-add", False, s, fn["l"], "throws")
                    continue
                h = it.rv(s, v, "unsigned long long")
                self.chk(P, "ev-add", self.same(s, self.entries(it, s), subs + [(h, f)]), s, fn["l"], "the set of subscriptions is not the old one plus the new callback under the returned handle")
                C2 = it.load(s, E + (self.cnt,))
                new = s.le_known(C, h, 0) if strict else s.le_known(C, h, -1)
                inv = s.le_known(h, C2, -1) if strict else s.le_known(h, C2, 0)
                if not new or not inv or not s.le_known(C, C2, 0):
                    bads.append(s)
            self.rep.use(it)
            if not bads:
                why = None
                break
            why = bads[0]
        self.chk(P, "ev-handle", why is None, why, fn["l"], "may hand out a handle that is or was in use")
        self.chk(P, "ev-handle", WIDE.get(bt(keyt), 0) >= WIDE.get(bt(fn["ret"]), 99), None, fn["l"], "handles (%s) are cut to %s" % (fn["ret"], keyt))
        # unsubscribe
        fn = self.f("unsub")
        self.entry = "co_event::unsub"
        self.chk(P, "ev-handle", WIDE.get(bt(fn["p"][0]["t"]), 0) >= WIDE.get(bt(self.f("sub")["ret"]), 99), None, fn["l"], "handles are cut when unsubscribing")
        for i in range(4):
            st, C, subs = self.start(strict)
            it = self.interp()
            k = subs[i][0] if i < 3 else st.fresh(lo=0)
            if i == 3:
                for a, _ in subs:
                    st.assume_ne(k, a)
            st.gh["unsubbing"] = True
            T = ("user.h",)
            st.mem[T] = k
            for s, v in it.run(st, fn, E, [("loc", T)]):
                self.rep.paths += 1
                want = [x for j, x in enumerate(subs) if j != i]
                self.chk(P, "ev-handle", s.le_known(C, it.load(s, E + (self.cnt,)), 0), s, fn["l"], "a handle can be used again after unsubscribing")
                self.chk(P, "ev-remove", not bad(v) and self.same(s, self.entries(it, s), want), s, fn["l"],
                         "does not leave exactly the other subscriptions" if i < 3 else "an unknown handle changes the subscriptions")
            self.rep.use(it)
        if self.ulocks is None:
            raise AnalysisBroken("no write of the subscriptions seen when unsubscribing")
        # publish
        fn = self.f("pub")
        self.entry = "co_event::pub"
        self.pl = fn["l"]
        st, C, subs = self.start(strict)
        it = self.interp()
        st.gh.update(inpub=True, acted=False)
        self.subs = subs
        self.args = [st.fresh() for _ in fn["p"]]
        al = []
        for i, a in enumerate(self.args):
            st.mem[("user.a%d" % i,)] = a
            al.append(("loc", ("user.a%d" % i,)))
        for s, v in it.run(st, fn, E, al):
            self.rep.paths += 1
            g = s.gh
            if bad(v):
                self.chk(P, "ev-call", False, s, fn["l"], "throws although no callback did")
                continue
            for k, f in subs:
                self.chk(P, "ev-call", f in g["called"] or f in g["gone"], s, fn["l"], "does not call a subscriber")
            self.chk(P, "ev-iterate", True, s, fn["l"], "")
            self.chk(P, "ev-locked", not s.held, s, fn["l"], "ends holding a lock")
        self.rep.use(it)


WIDE = {"unsigned long long": 8, "unsigned long": 8, "long": 8, "long long": 8, "int": 4, "unsigned int": 4, "short": 2, "unsigned short": 2,
        "std::atomic<unsigned long long>": 8, "std::atomic<unsigned long>": 8, "std::atomic<int>": 4}


def run_events(prog, rep):
    cls = sorted({f.get("cls") for f in prog.fns("cocpp::co_event::sub")} & {f.get("cls") for f in prog.fns("cocpp::co_event::unsub")})
    if len(cls) < 2:
        raise AnalysisBroken("anchor vanished: instances of co_event")
    for c in cls:
        EventRule(prog, rep, c).verify()
    rep.assumptions.append("three subscriptions with arbitrary increasing handles stand for any number; one callback of a publication subscribes or unsubscribes")
