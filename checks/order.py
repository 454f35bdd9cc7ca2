"""C26: the order in which locks are taken.

Every operation of the library is followed from a state that is unknown where it matters; each
time it waits for a lock, the locks it holds then are recorded.  A cycle in the resulting order
is a deadlock unless a further lock keeps its parts from running at the same time.
"""
from engine.interp import bt, bad, is_seq, targ
from engine.program import AnalysisBroken
from engine.state import State, I, NULL
from .core import Core, MGR, OTHER
from .kernel import const, field

RULES = {
    "C26": [
        ("order", "locks are taken in an order without cycles"),
        ("self", "no lock that cannot be taken twice is waited for by its holder"),
        ("callback", "callbacks of timers run without internal locks held"),
        ("across", "no internal lock is held while a coroutine is switched out"),
    ],
}
P = "C26"


class Order(Core):
    primitive_locks = Core.primitive_locks + ("cocpp::co_mutex",)

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.edges = {}
        self.pairs = 0
        self.monitors = set()
        self.deferred = {}
        self.taken = {}
        self.waiting = []
        self.known = set()
        self.variant, self.variants = 0, 1
        self.sites = set()
        self.intrinsics["cocpp::co_manager::current_env"] = self.current
        self.intrinsics["mmap"] = lambda it, st, c: [(st, ("p", it.new_root("m")))]
        self.intrinsics["cocpp::co_env::schedule_switch"] = self.yields

    def current(self, it, st, c):
        if not st.gh.get("has_env", True) and not self.quiet:
            # a thread of the user: an environment is made of it now
            st.gh["has_env"] = True
            self.wants(st, self.pool_lock, c.l, "")
        return [(st, st.gh["cur"])]

    def yields(self, it, st, c):
        if self.quiet or self.entry == "cocpp::co_env::schedule_switch":
            return NotImplemented
        # the scheduler is followed for itself; with no lock held it adds nothing to the order
        if st.held:
            return NotImplemented
        out = self.on_switch(it, st, c)
        for s in out:
            self.unknown_status(it, s, self.ctx[0])
        return [(s, None) for s in out]

    # ---- lock classes -----------------------------------------------------------------------------
    def cls(self, st, L):
        for i in range(1, len(L)):
            t = st.typ.get(L[:i])
            if t is None:
                continue
            rest = [x for x in L[i:] if isinstance(x, str) and not x.startswith("@")]
            if not rest:
                continue
            return "%s.%s" % (bt(t), ".".join(rest)), L[:i]
        return "%s" % (".".join(str(x) for x in L)), L

    def on_event(self, it, st, kind, *a):
        if kind == "guard":
            st.gh["group"] = tuple(a[1])
        if kind == "cv-wait" and not self.quiet:
            return [st] if st.gh.get("waits", 0) < 1 and st.gh.update(waits=1) is None else []

    def on_acquire(self, it, st, L, c, mode="lock"):
        if self.quiet:
            return super().on_acquire(it, st, L, c, mode)
        self.sites.add(c.l)
        if L[0].startswith("user."):
            return [st]
        n, o = self.cls(st, L)
        if mode != "try":
            if L in st.held:
                if not self.recursive(L, st, c):
                    self.chk(P, "self", False, st, c.l, "waits for %s, which it holds" % n)
                    return []
                self.chk(P, "self", True, st, c.l, "")
            else:
                self.chk(P, "self", True, st, c.l, "")
                self.wants(st, L, c.l, n)
        if self.monitor(c):
            self.monitors.add(n)
            self.inside(st, "lock", c)
            if mode != "try":
                spin = [x for x in st.held if self.cls(st, x)[0] not in self.monitors]
                self.chk(P, "across", not spin, st, c.l, "%s is held while the coroutine may be switched out to wait for %s" % (
                    ", ".join(self.cls(st, x)[0] for x in spin), n))
        st.held = st.held + (L,)
        return [st]

    def on_release(self, it, st, L, c, *a):
        if not self.quiet and self.monitor(c):
            self.inside(st, "unlock", c, L)
        return super().on_release(it, st, L, c, *a)

    def monitor(self, c):
        return any("co_mutex" in str(c.node.get(k, "")) for k in ("q", "t", "pt"))

    def inside(self, st, op, c, but=None):
        """locks that locking or unlocking a mutex of coroutines takes in turn"""
        for H in dict.fromkeys(st.held):
            if H != but:
                h, _ = self.cls(st, H)
                self.deferred.setdefault((h, op), (frozenset(self.cls(st, x)[0] for x in st.held if x != H), c.l, self.entry, st.copy()))

    def recursive(self, L, st, c):
        q = c.node.get("q", "")
        return "recursive" in q or "recursive" in self.type_of(st, L)

    def type_of(self, st, L):
        for i in range(len(L) - 1, 0, -1):
            t = st.typ.get(L[:i])
            if t is not None:
                for x in L[i:]:
                    if not isinstance(x, str):
                        return ""
                    fs = [f for f in self.prog.all_fields(bt(t)) if f["n"] == x] if self.prog.rec(bt(t)) else []
                    if not fs:
                        return bt(t)
                    t = fs[0]["t"]
                return bt(t) + " " + " ".join(self.prog.bases(bt(t)) or ())
        return ""

    def wants(self, st, L, l, n):
        n, o = self.cls(st, L)
        self.taken.setdefault(self.entry, set()).add(n)
        group = st.gh.get("group", ())
        for H in dict.fromkeys(st.held):
            if H == L or (H in group and L in group):
                continue
            h, ho = self.cls(st, H)
            k = (h, n, "same" if o == ho else "other")
            if self.private(st, o) or self.private(st, ho):
                continue
            gates = frozenset(self.cls(st, x)[0] for x in st.held if x != H) | self.phase(st, o, L) | self.phase(st, ho, H)
            e = self.edges.setdefault(k, {"gates": gates, "where": l, "entry": self.entry, "st": st.copy()})
            e["gates"] = e["gates"] & gates
            self.pairs += 1

    def phase(self, st, o, L):
        """whether a coroutine that the pair is about has ended; that it has not is certain only
        while one of its own locks is held"""
        if st.typ.get(o) != "cocpp::co_ctx":
            return frozenset()
        fin = self.is_finished(self.it, st, ("p", o))
        if fin is True:
            return frozenset(["#after:" + self.cls(st, L)[0]])
        if fin is False and any(x != L and x[:len(o)] == o for x in st.held):
            return frozenset(["#before:" + self.cls(st, L)[0]])
        return frozenset()

    def private(self, st, o):
        """an object no other thread can be using: made by this very operation, or a coroutine that
        is finished and whose handle is given up"""
        if o[0] not in self.known and (o[0][0] in "hm" and o[0][1:].isdigit()):
            return True
        if st.typ.get(o) == "cocpp::co_ctx":
            c = ("p", o)
            return self.is_finished(self.it, st, c) is True and self.flag(self.it, st, c, self.LOCKED) is False
        return False

    def on_callback(self, it, st, fv, args, c):
        v = st.res(fv)
        if not self.quiet and v[0] == "s" and str(v[1]).startswith("user."):
            self.chk(P, "callback", not st.held, st, c.l, "a function of the user runs while %s is held" % ", ".join(self.cls(st, x)[0] for x in st.held))
        return super().on_callback(it, st, fv, args, c)

    def on_switch(self, it, st, c):
        self.waiting.append(st.copy())
        self.chk(P, "across", not st.held, st, c.l, "%s is held while the coroutine is switched out" % ", ".join(self.cls(st, x)[0] for x in st.held))
        if st.gh.get("switched"):
            return []
        st.gh["switched"] = 1
        return [st]

    # ---- world ------------------------------------------------------------------------------------
    def world(self):
        it = self.it = self.interp(loop_max=12, widen_at=99, budget=150000)
        self.entry = "set-up"
        st = State()
        st.typ[MGR[1]] = "cocpp::co_manager"
        st.typ[OTHER[1]] = "cocpp::co_env"
        st.gh["cur"] = OTHER
        for f in self.prog.all_fields("cocpp::co_manager"):
            subs = [(f, (f["n"],))] + [(g, (f["n"], g["n"])) for g in (self.prog.all_fields(f["rec"]) if f.get("rec") in self.prog.records and "unnamed" in f["rec"] else [])]
            for g, p in subs:
                if is_seq(bt(g["t"])):
                    st.mem[MGR[1] + p] = ("seq", ())
        self.quiet = True
        mk = self.prog.fn("cocpp::co_manager::create_env")
        self.obj = {}
        envs = []
        for _ in range(2):
            st, e = self.one(it, st, mk, MGR[1], [st.fresh(dom=(0, 1))])
            st.typ[e[1]] = "cocpp::co_env"
            envs.append(e)
        ctx = []
        for n, e in (("me", envs[0]), ("peer", envs[0]), ("far", envs[1])):
            st, c = self.new_ctx(it, st, n, e, 3)
            st.typ[c[1]] = "cocpp::co_ctx"
            ctx.append(c)
        self.envs, self.ctx = envs, ctx
        (lk,) = [f for f in self.prog.all_fields("cocpp::co_manager") if f.get("rec") in self.prog.records and "unnamed" in f["rec"] and any("co_env *" in g["t"] for g in self.prog.all_fields(f["rec"]))]
        (pl,) = [g["n"] for g in self.prog.all_fields(lk["rec"]) if bt(g["t"]) in self.primitive_locks]
        self.pool_lock = MGR[1] + (lk["n"], pl)
        st, self.tm = self.timer(st)
        (cur,) = [f["n"] for f in self.prog.all_fields("cocpp::co_env") if bt(f["t"]) == "std::atomic<cocpp::co_ctx *>"]
        st.mem[envs[0][1] + (cur,)] = ctx[0]
        st.mem[envs[1][1] + (cur,)] = ctx[2]
        st.gh["cur"] = envs[0]
        self.quiet = False
        f = self.prog.fn("cocpp::co_manager::insert_timer_to_queue__")
        st.mem[("tm",)] = self.tm
        self.quiet = True
        st, _ = self.one(it, st, f, MGR[1], [("loc", ("tm",))])
        self.quiet = False
        self.plain = st.copy()
        for e in envs:
            st.drop(e[1] + (self.efm,))
            st.drop(e[1] + (self.esm,))
            st.typ[e[1]] = "cocpp::co_env"
        for c in ctx:
            self.unknown_status(it, st, c)
            for f in self.prog.all_fields("cocpp::co_ctx"):
                if bt(f["t"]).endswith("exception_ptr"):
                    st.drop(c[1] + (f["n"],))
        return st

    def timer(self, st):
        f = [f for f in self.prog.fns("cocpp::co_timer::create") if "time_point" in f["p"][1]["t"]][0]
        st.mem[("user.cb",)] = ("s", "user.cb")
        st.assume_ne(("s", "user.cb"), NULL)
        st, v = self.one(self.it, st, f, None, [("loc", ("user.cb",)), st.fresh(lo=0)])
        v = st.res(self.it.rv(st, v))
        st.typ[v[1]] = "cocpp::co_timer"
        for g in self.prog.all_fields("cocpp::co_timer"):
            if "state" in g["t"] or "status" in g["t"]:
                st.drop(v[1] + (g["n"],))
        return st, v

    def arguments(self, st, f, far):
        """unknown arguments of the right types"""
        out = []
        for i, p in enumerate(f["p"]):
            b = bt(p["t"])
            C = ("arg.%d" % i,)
            if b == "cocpp::co_ctx *":
                st.mem[C] = self.ctx[2 if far else 1]
            elif b == "cocpp::co_env *":
                st.mem[C] = self.envs[1 if far else 0]
            elif "co_timer" in b and ("shared_ptr" in b or b.endswith("*")):
                st.mem[C] = self.tm
            elif b.startswith("std::function<") or "(*)" in b:
                st.mem[C] = ("s", "user.fn%d" % i)
                st.assume_ne(st.mem[C], NULL)
            elif b == "cocpp::co_ctx_config":
                C = self.config(st, "arg", bind_env=self.envs[1] if far else NULL, priority=I(3), stack_size=I(65536), name=("str", "arg"))
            elif b.startswith(("std::unique_lock<", "std::shared_lock<")):
                U = ("user.mutex",)
                self.fill(st, U, targ(b, 0))
                st.mem[C + ("@own",)] = I(1)
                st.mem[C + ("@m0",)] = ("p", U)
            elif b.endswith("*"):
                st.mem[C] = ("p", ("arg.obj%d" % i,))
                st.typ[("arg.obj%d" % i,)] = b[:-1].strip()
            else:
                st.typ[C] = b
            out.append(("loc", C))
        return out

    def method(self, st, f, this, far, foreign, args=None):
        s = st.copy()
        self.entry = f["q"]
        s.gh["has_env"] = not foreign
        args = args or self.arguments(s, f, far)
        self.it.steps = 0
        try:
            r = self.it.run(s, f, this, args)
            self.rep.paths += len(r)
            self.done.append(f["q"])
            self.ended(f, r)
            return len(r)
        except AnalysisBroken as e:
            if st is not self.plain:
                return self.method(self.plain, f, this, far, foreign, args)
            self.failed[f["q"]] = str(e)
            return 0

    def ended(self, f, r):
        pass

    def fill(self, st, O, cls):
        """an object of a class with waiters, its state unknown"""
        st.typ[O] = cls
        self.fill_fields(st, O, cls, 0)

    def fill_fields(self, st, O, cls, d):
        for f in self.prog.all_fields(cls):
            L = O + (f["n"],)
            t = bt(f["t"])
            if not f["n"]:
                continue
            if is_seq(t) and "co_ctx *" in t and "map<" not in t:
                st.mem[L] = ("seq", ("w1",))
                st.mem[L + ("w1",)] = self.ctx[1]
            elif is_seq(t):
                m = [r for r in self.prog.records if r in t and r.startswith("cocpp::") and any(bt(g["t"]) == "cocpp::co_ctx *" for g in self.prog.all_fields(r))]
                if m:
                    st.mem[L] = ("seq", ("w1",))
                    for g in self.prog.all_fields(m[0]):
                        if bt(g["t"]) == "cocpp::co_ctx *":
                            st.mem[L + ("w1", g["n"])] = self.ctx[1]
            elif t.startswith("std::shared_ptr<") and d < 3:
                r = targ(t, 0)
                der = [c for c in sorted(self.prog.records) if r in (self.prog.bases(c) or ())]
                if der:
                    r = der[self.variant % len(der)]
                    self.variants = max(self.variants, len(der))
                H = ("sh.%s.%s" % (".".join(O), f["n"]),)
                st.mem[L] = ("p", H)
                st.typ[H] = r
                self.fill_fields(st, H, r, d + 1)
            elif f.get("rec") in self.prog.records and f["rec"].startswith("cocpp::") and d < 3:
                self.fill_fields(st, L, f["rec"], d + 1)

    CORE = ("cocpp::co_env", "cocpp::co_ctx", "cocpp::co_manager", "cocpp::co_timer")
    SYNC = ("cocpp::co_mutex", "cocpp::co_recursive_mutex", "cocpp::co_shared_mutex", "cocpp::co_condition_variable_impl", "cocpp::co_counting_semaphore<7>",
            "cocpp::co_latch", "cocpp::co_wait_group", "cocpp::co_barrier", "cocpp::co_chan<int>", "cocpp::co_event<>", "cocpp::co_event<int>")

    def callers(self):
        out = {}

        def walk(n, fn):
            if isinstance(n, dict):
                if n.get("k") in ("Call", "MCall", "OpCall", "Construct") and n.get("f"):
                    out.setdefault(n["f"], {})[fn["id"]] = fn
                for v in n.values():
                    walk(v, fn)
            elif isinstance(n, list):
                for v in n:
                    walk(v, fn)
        for f in self.prog.functions.values():
            walk(f, f)
        return out

    def methods(self, cls):
        return [f for f in self.prog.functions.values() if f.get("cls") == cls and f.get("body") and not f.get("ctor") and "~" not in f["q"]
                and not any(p.get("rec", "").startswith("L(") for p in f["p"])]

    def inner(self, f, callers):
        """called only by other parts of the core, which are followed themselves"""
        cs = [c for i, c in callers.get(f["id"], {}).items() if i != f["id"]]
        return cs and all("cocpp/core/" in c["l"] for c in cs) and not f["ret"].endswith("&")

    def direct(self, f, callers):
        """called by name somewhere: followed for itself only because the states chosen here do not lead there"""
        return any(i != f["id"] and not str(c.get("cls")).startswith("L(") for i, c in callers.get(f["id"], {}).items())

    def within(self, f, callers):
        """a part of the other operations of its class"""
        cs = [c for i, c in callers.get(f["id"], {}).items() if i != f["id"]]
        return cs and all(c.get("cls") == f["cls"] or str(c.get("cls")).startswith("L(" + f["cls"] + "::") for c in cs) and f["q"].endswith("__")

    def collect(self):
        self.failed = {}
        st = self.world()
        self.known = {k[0] for k in list(st.mem) + list(st.typ)}
        callers = self.callers()
        objs = {"cocpp::co_env": self.envs, "cocpp::co_ctx": self.ctx, "cocpp::co_manager": [MGR], "cocpp::co_timer": [self.tm]}
        self.done = []
        self.it.fn_seen.clear()
        # first what is used from outside the core, then what none of these operations reached
        for rest in (False, True):
            for cls in self.CORE:
                for f in self.methods(cls):
                    if f["id"] in self.it.fn_seen if rest else self.inner(f, callers):
                        continue
                    self.partial = rest and f["q"] not in self.intrinsics and self.direct(f, callers)
                    self.waiting = []
                    for o in objs[cls][:2]:
                        for far in (False, True) if cls == "cocpp::co_manager" else (o is objs[cls][-1],):
                            self.method(st, f, None if f.get("static") else o[1], far, False)
                    if f["q"] == "cocpp::co_env::wait_ctx":
                        self.finishing(st)
        self.partial = False
        for cls in self.SYNC:
            for f in self.methods(cls):
                if self.within(f, callers):
                    continue
                for foreign in (False, True):
                    self.variant, self.variants = 0, 1
                    while self.variant < self.variants:
                        s = st.copy()
                        self.fill(s, ("obj",), cls)
                        self.method(s, f, None if f.get("static") else ("obj",), True, foreign)
                        self.variant += 1

    def finishing(self, st):
        """the awaited coroutine ends while others wait for it"""
        for w in list(self.waiting):
            for c in self.ctx[1:]:
                s = w.copy()
                s.held = ()
                s.gh = {k: v for k, v in s.gh.items() if k not in ("switched", "group")}
                s.gh["cur"] = self.envs[1] if c is self.ctx[2] else self.envs[0]
                self.method(s, self.prog.fn("cocpp::co_ctx::real_entry"), None, False, False, args=[c])

    def cycles(self):
        """the shortest cycles of the order that no common lock excludes"""
        succ = {}
        for (a, b, o), e in self.edges.items():
            succ.setdefault(a, {}).setdefault(b, []).append(((a, b, o), e))
        out, seen = [], set()
        for a in sorted(succ):
            todo = [(a, ())]
            best = {}
            while todo:
                n, path = todo.pop(0)
                if len(path) > 4:
                    break
                for b in sorted(succ.get(n, {})):
                    for k, e in succ[n][b]:
                        q = path + ((k, e),)
                        if b == a:
                            g = frozenset.intersection(*[x[1]["gates"] for x in q]) - {x[0][0] for x in q}
                            g = frozenset(x for x in g if x[0] != "#")
                            names = frozenset(x[0][0] for x in q)
                            ph = frozenset().union(*[x[1]["gates"] for x in q])
                            if any(x.startswith("#after:") and "#before:" + x[7:] in ph for x in ph):
                                continue
                            if not g and names not in seen:
                                seen.add(names)
                                out.append(q)
                        elif b not in [x[0][0] for x in q] and b > a:
                            todo.append((b, q))
        return out

    def close(self):
        for (h, op), (gates, l, entry, st) in self.deferred.items():
            for n in self.taken.get("cocpp::co_mutex::" + op, ()):
                if n != h:
                    self.edges.setdefault((h, n, "other"), {"gates": gates, "where": l, "entry": entry, "st": st})


def run_order(prog, rep):
    O = Order(prog, rep)
    O.collect()
    O.close()
    for k, e in O.edges.items():
        O.entry = e["entry"]
        O.chk(P, "order", True, e["st"], e["where"], "")
    for q in O.cycles():
        k, e = q[0]
        O.entry = e["entry"]
        O.chk(P, "order", False, e["st"], e["where"], "locks may be waited for in a circle: " + "; ".join(
            "%s holds %s and waits for %s (%s)" % (x["entry"], y[0], y[1], x["where"]) for y, x in q))
    if len(O.failed) > 3:
        raise AnalysisBroken("%d operations could not be followed: %s" % (len(O.failed), sorted(O.failed.items())[0]))
    rep.use(O.it)
    rep.extra.update({"operations": len(set(O.done)), "runs_of_operations": len(O.done), "lock_sites": len(O.sites), "order_pairs": len(O.edges),
                      "operations_not_followed_to_the_end": len(O.failed)})
