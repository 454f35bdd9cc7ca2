"""C17 and C18: which environment a coroutine is put into, taken from and moved to, and which
environments the runtime stops.

A pool of environments whose states and marks are unknown is handed to the operations of the
manager; afterwards it is looked at where each coroutine is listed, and every placing and every
stop is judged against what the path knows about the environment as it was before.
"""
from itertools import product

from engine.interp import bt, bad
from engine.program import AnalysisBroken
from engine.state import State, I, NULL
from .core import Core, MGR, OTHER
from .kernel import const, field

RULES = {
    "C17": [
        ("bound-there", "a coroutine bound to an environment is put there and nowhere else"),
        ("pinned-stays", "a bound, shared-stack, running or finished coroutine is not taken away"),
        ("exclusive", "an exclusive environment receives only coroutines bound to it"),
        ("moved-once", "a coroutine is listed in exactly one environment"),
        ("env-link", "a coroutine knows the environment it is listed in"),
    ],
    "C18": [
        ("stop-only", "only an idle, empty, automatic environment with its own thread is stopped"),
        ("stop-count", "not more environments are stopped than exceed the maximum"),
        ("accepts", "a new coroutine is put into an environment that accepts coroutines"),
        ("chosen-kept", "no environment can be stopped between being chosen and receiving the coroutine"),
        ("stop-gate", "stopping an environment and adding a coroutine exclude each other", 1),
        ("count", "the number of coroutines of an environment is the number listed"),
        ("zero-one", "a thread count of zero acts as one"),
        ("tick-min", "a tick below the minimum acts as the minimum"),
    ],
}
P17, P18 = "C17", "C18"


class Pool(Core):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.S = {n: const(prog, "env_" + n) for n in ("idle", "busy", "blocked", "destroying", "created")}
        self.F = {n: const(prog, "flag_" + n) for n in ("no_thread", "converted", "keep", "exclusive", "scheduled")}
        self.lists = field(prog, "cocpp::co_env", "run lists", lambda f: bt(f["t"]).startswith("std::vector<std::list<cocpp::co_ctx *"))
        self.set = self.find_set()
        # whether the scheduler of another thread is at a safe point
        self.intrinsics["cocpp::co_env::can_force_schedule"] = lambda it, st, c: [(st, st.fresh(dom=(0, 1)))]
        # memory for stacks is there
        self.intrinsics["mmap"] = lambda it, st, c: [(st, ("p", it.new_root("m")))]
        self.envs = {}
        self.ctx = {}
        self.add_locks = self.stop_locks = None
        self.watch = False

    def find_set(self):
        out = []
        for f in self.prog.all_fields("cocpp::co_manager"):
            if bt(f["t"]).startswith("std::set<cocpp::co_env *"):
                out.append((f["n"],))
            elif f.get("rec"):
                out += [(f["n"], g["n"]) for g in self.prog.all_fields(f["rec"]) if bt(g["t"]).startswith("std::set<cocpp::co_env *")]
        # the pool is the one that new environments are put into
        return out

    # ---- world ------------------------------------------------------------------------------------
    def differ(self, a, b):
        keys = set(a.mem) | set(b.mem)
        return sorted((k for k in keys if a.mem.get(k) != b.mem.get(k) and k[0][0] not in "vt" and not k[0].startswith("arg.")), key=str)

    def open(self, st, obj, cls, setter, a, b, dom):
        x, y = setter
        ks = self.differ(self.put(self.it, st, cls, x, obj[1], I(a)), self.put(self.it, st, cls, y, obj[1], I(b)))
        if len(ks) != 1:
            raise AnalysisBroken("%s of %s touches %d cells" % (x, cls, len(ks)))
        v = st.fresh(dom=dom)
        st.mem[ks[0]] = v
        return v, ks[0]

    def world(self, shapes, ctxs, st=None):
        """shapes: T with its own thread, C converted and scheduling, U converted without; ctxs: [(name, env index, kind)]"""
        it = self.it
        st = st or State()
        st.typ[MGR[1]] = "cocpp::co_manager"
        st.typ[OTHER[1]] = "cocpp::co_env"
        st.gh["cur"] = OTHER
        for p in self.set:
            st.mem[MGR[1] + p] = ("seq", ())
        st.gh.update(epoch=0)
        self.envs, self.ctx, self.before = {}, {}, {}
        f = self.prog.fn("cocpp::co_manager::create_env")
        for i, sh in enumerate(shapes):
            st, e = self.one(it, st, f, MGR[1], [I(0)])
            st.typ[e[1]] = "cocpp::co_env"
            self.envs["%s%d" % (sh, i)] = e
        names = list(self.envs)
        for n, i, kind in ctxs:
            e = self.envs[names[i]]
            C = self.config(st, n, priority=I(3), bind_env=e if kind == "bound" else NULL, shared_stack=I(int(kind == "shared")), stack_size=I(65536), name=("str", n))
            st, c = self.one(it, st, self.prog.fn("cocpp::co_ctx_factory::create_ctx"), None, [("loc", C), ("s", "entry." + n)])
            st.typ[c[1]] = "cocpp::co_ctx"
            r = self.follow(it, st, self.prog.fn("cocpp::co_env::add_ctx"), e[1], [c])
            if not r:
                raise AnalysisBroken("adding a coroutine never succeeds")
            st = r[0][0]
            s0, _ = self.open(st, c, "cocpp::co_ctx", ("set_state", "set_state"), self.suspended, self.running, (self.suspended, self.running, self.finished))
            self.ctx[n] = (c, kind, names[i], s0)
        for n, e in self.envs.items():
            dom = (self.S["created"],) if n[0] == "U" else (self.S["idle"], self.S["busy"], self.S["blocked"], self.S["destroying"])
            info = {}
            info["state"], info["cell"] = self.open(st, e, "cocpp::co_env", ("set_state", "set_state"), self.S["busy"], self.S["idle"], dom)
            for fl in ("keep", "exclusive", "scheduled"):
                info[fl], _ = self.open(st, e, "cocpp::co_env", ("set_flag", "unset_flag"), self.F[fl], self.F[fl], (0, 1))
            for fl, on in (("no_thread", n[0] == "U"), ("converted", n[0] in "UC")):
                st = self.put(it, st, "cocpp::co_env", "set_flag" if on else "unset_flag", e[1], I(self.F[fl]))
                info[fl] = I(int(on))
            self.before[n] = info
        st.gh["cur"] = OTHER
        return st

    # ---- looking ----------------------------------------------------------------------------------
    def listed(self, st, e):
        L = e[1] + (self.lists,)
        v = st.mem.get(L)
        out = []
        for x in (v[1] if v else ()):
            w = st.mem.get(L + (x,))
            for y in (w[1] if w else ()):
                out.append(st.res(self.it.load(st, L + (x, y))))
        return out

    def pool(self, st):
        out = {}
        for p in self.set:
            for x in (st.mem.get(MGR[1] + p) or ("seq", ()))[1]:
                v = st.res(self.it.load(st, MGR[1] + p + (x,)))
                n = [k for k, e in self.envs.items() if st.eq(e, v) is True]
                out[n[0] if n else "new"] = v
        return out

    def all_envs(self, st):
        d = dict(self.envs)
        d.update(self.pool(st))
        return d

    def sure(self, st, sym, n):
        return st.eq(sym, I(n)) is True

    def never(self, st, sym, n):
        return st.eq(sym, I(n)) is False

    # ---- hooks ------------------------------------------------------------------------------------
    def mgr_locks(self, st):
        return frozenset(L for L in st.held if L[:1] == MGR[1][:1])

    def on_release(self, it, st, L, c):
        out = super().on_release(it, st, L, c)
        if self.watch and not self.quiet and L[:1] == MGR[1][:1]:
            for s in out:
                if L not in s.held:
                    s.gh["epoch"] += 1
        return out

    def on_read(self, it, st, L, l, frame):
        if not self.watch or self.quiet:
            return
        for n, b in self.before.items():
            if L == b["cell"]:
                st.gh["saw " + n] = st.gh["epoch"]

    def on_write(self, it, st, L, old, new, l, frame):
        if not self.watch or self.quiet:
            return
        if len(L) >= 2 and L[1] == self.lists and new is not None and new[0] == "seq" and (old is None or old[0] != "seq" or len(new[1]) > len(old[1])):
            own = self.mgr_locks(st)
            self.add_locks = own if self.add_locks is None else self.add_locks & own
            n = [k for k, e in self.envs.items() if e[1] == L[:1]]
            if self.watch != "bound":
                saw = st.gh.get("saw " + n[0], st.gh["epoch"]) if n else st.gh.get("new", 0)
                self.chk(P18, "chosen-kept", bool(own) and saw == st.gh["epoch"], st, l, "the environment may be stopped after it was chosen and before it receives the coroutine")
        for n, b in self.before.items():
            if L == b["cell"] and st.eq(new, I(self.S["destroying"])) is True:
                own = self.mgr_locks(st)
                if self.watch == "stop":
                    self.stop_locks = own if self.stop_locks is None else self.stop_locks & own

    def on_event(self, it, st, kind, *a):
        if kind == "cv-wait" and not self.quiet:
            return []

    # ---- judging ----------------------------------------------------------------------------------
    def placed(self, st, l, c, kind, was, what):
        """where a coroutine is after an operation"""
        where = [n for n, e in self.all_envs(st).items() for v in self.listed(st, e) if st.eq(v, c) is True]
        self.chk(P17, "moved-once", len(where) == 1, st, l, "%s: the coroutine is listed %s" % (what, "nowhere" if not where else "in several places"))
        for n in where:
            e = self.all_envs(st)[n]
            if n != was or was is None:
                b = self.before.get(n)
                if b is not None and kind != "bound":
                    self.chk(P17, "exclusive", self.sure(st, b["exclusive"], 0), st, l, "%s: an environment that may be exclusive receives a coroutine that is not bound to it" % what)
                    ok = self.sure(st, b["no_thread"], 0) and all(self.never(st, b["state"], self.S[x]) for x in ("destroying", "created", "blocked"))
                    self.chk(P18, "accepts", ok, st, l, "%s: an environment that may not accept coroutines receives one" % what)
                elif b is None and kind != "bound":
                    self.chk(P18, "accepts", True, st, l, "")
                    self.chk(P17, "exclusive", True, st, l, "")
            v = self.getv(self.it, st, "cocpp::co_ctx", "env", c[1])
            self.chk(P17, "env-link", v is not None and st.eq(v, e) is True, st, l, "%s: the coroutine is listed in an environment that it does not know" % what)
        return where

    def counts(self, st, l, what):
        for n, e in self.all_envs(st).items():
            v = self.getv(self.it, st, "cocpp::co_env", "ctx_count", e[1])
            self.chk(P18, "count", v is not None and st.eq(v, I(len(self.listed(st, e)))) is True, st, l, "%s: an environment counts other coroutines than it lists" % what)

    # ---- operations -------------------------------------------------------------------------------
    def op(self, st, q, this, args, watch=True):
        f = self.prog.fn(q)
        self.entry = q
        self.watch = watch
        try:
            r = self.it.run(st, f, this, args)
        finally:
            self.watch = False
        self.rep.paths += len(r)
        return f["l"], r

    def create(self, shapes, base, bound):
        st = self.world(shapes, [("old", 0, "free")] if shapes else [])
        st = self.put(self.it, st, "cocpp::co_manager", "set_base_schedule_thread_count", MGR[1], I(base))
        e = self.envs[list(self.envs)[bound]] if bound is not None else NULL
        kind = "bound" if bound is not None else "free"
        for shared in (0, 1):
            s = st.copy()
            C = self.config(s, "fresh", priority=I(3), bind_env=e, shared_stack=I(shared), stack_size=I(65536), name=("str", "fresh"))
            l, res = self.op(s, "cocpp::co_manager::create_and_schedule_ctx", MGR[1], [("loc", C), ("s", "entry.fresh"), I(1)], kind)
            for s2, v in res:
                if bad(v):
                    if bound is None:
                        self.chk(P18, "accepts", False, s2, l, "creating a coroutine fails, the environment chosen does not accept it")
                    else:
                        here = [x for k, x in self.all_envs(s2).items() for y in self.listed(s2, x) if not any(s2.eq(y, z[0]) is True for z in self.ctx.values())]
                        self.chk(P17, "bound-there", not here, s2, l, "a coroutine that could not be bound is put somewhere else")
                    continue
                c = s2.res(self.it.rv(s2, v))
                where = self.placed(s2, l, c, kind, None, "creation")
                if bound is not None:
                    self.chk(P17, "bound-there", where == [list(self.envs)[bound]], s2, l, "a bound coroutine is put into another environment")
                self.counts(s2, l, "creation")

    def move(self, q, shapes, ctxs):
        st = self.world(shapes, ctxs)
        l, res = self.op(st, q, MGR[1], [])
        moved = 0
        for s, v in res:
            if bad(v):
                self.chk(P17, "moved-once", False, s, l, "moving coroutines ends with an exception")
                continue
            for n, (c, kind, was, state) in self.ctx.items():
                where = self.placed(s, l, c, kind, was, "moving")
                if where != [was]:
                    moved += 1
                    self.gone(s, l, kind, state)
            self.counts(s, l, "moving")
        return moved

    def gone(self, s, l, kind, state):
        self.chk(P17, "pinned-stays", kind == "free" and self.never(s, state, self.running) and self.never(s, state, self.finished), s, l,
                 "a coroutine is taken away that is %s" % ("bound or shares a stack" if kind != "free" else "running or finished"))

    def take(self, q, ctxs):
        """the functions that take coroutines out of an environment"""
        st = self.world("T", ctxs)
        l, res = self.op(st, q, self.envs["T0"][1], [])
        n = 0
        for s, v in res:
            if bad(v):
                continue
            here = self.listed(s, self.envs["T0"])
            for k, (c, kind, was, state) in self.ctx.items():
                if not any(s.eq(x, c) is True for x in here):
                    n += 1
                    self.gone(s, l, kind, state)
            self.counts(s, l, "taking")
        if not n:
            raise AnalysisBroken("%s never takes a coroutine" % q)

    def redundant(self, shapes, limit, ctxs):
        st = self.world(shapes, ctxs)
        st = self.put(self.it, st, "cocpp::co_manager", "set_max_schedule_thread_count", MGR[1], I(limit))
        l, res = self.op(st, "cocpp::co_manager::destroy_redundant_env__", MGR[1], [], "stop")
        total = 0
        for s, v in res:
            if bad(v):
                self.chk(P18, "stop-only", False, s, l, "stopping environments ends with an exception")
                continue
            stopped = []
            usable = 0
            for n, b in self.before.items():
                e = self.envs[n]
                if self.sure(s, b["no_thread"], 0) and not self.sure(s, b["state"], self.S["blocked"]) and not self.sure(s, b["state"], self.S["destroying"]):
                    usable += 1
                if self.env_state(self.it, s, e, self.S["destroying"]) is True and not self.sure(s, b["state"], self.S["destroying"]):
                    stopped.append(n)
                    why = []
                    if not self.sure(s, b["state"], self.S["idle"]):
                        why.append("may not be idle")
                    if self.listed(s, e):
                        why.append("holds a coroutine")
                    if not self.sure(s, b["keep"], 0):
                        why.append("may be marked to be kept")
                    if not self.sure(s, b["converted"], 0):
                        why.append("is a converted thread")
                    self.chk(P18, "stop-only", not why, s, l, "an environment is stopped that %s" % ", ".join(why))
            total += len(stopped)
            if stopped:
                self.chk(P18, "stop-count", len(stopped) <= usable - max(1, limit), s, l,
                         "%d of %d environments are stopped with a maximum of %d" % (len(stopped), usable, limit))
            self.counts(s, l, "stopping")
        return total

    def run17(self):
        self.it = self.interp(loop_max=60, widen_at=99, budget=30000000)
        for shapes in ("T", "C", "U", "TT", "TU", "UT", "CT"):
            for i in range(len(shapes)):
                self.create(shapes, 1, i)
        self.placing()
        self.moving()
        kinds = [("bound", 0, "bound"), ("shared", 0, "shared"), ("free", 0, "free")]
        for q in ("cocpp::co_env::take_all_movable_ctx", "cocpp::co_env::take_one_movable_ctx"):
            for k in range(len(kinds)):
                self.take(q, kinds[k:] + kinds[:k])
            self.take(q, [("free", 0, "free"), ("free2", 0, "free")])
        self.rep.use(self.it)

    def placing(self):
        for shapes, base in product(("", "T", "C", "U", "TT", "TU", "UT", "CT"), (1, 2)):
            self.create(shapes, base, None)

    def moving(self):
        n = 0
        for q in ("cocpp::co_manager::redistribute_ctx__", "cocpp::co_manager::steal_ctx_routine__"):
            for shapes in ("TT", "TU", "CT"):
                n += self.move(q, shapes, [("free", 0, "free"), ("pinned", 0, "bound")])
                n += self.move(q, shapes, [("shared", 1, "shared"), ("free", 1, "free")])
        if not n:
            raise AnalysisBroken("no coroutine is ever moved")

    def run18(self):
        self.it = self.interp(loop_max=60, widen_at=99, budget=30000000)
        self.placing()
        self.create("TT", 1, 0)
        self.moving()
        n = 0
        for shapes in ("T", "TT", "TC", "TU", "TTT"):
            for limit in (0, 1, 2):
                for ctxs in ([], [("c", 0, "free")]):
                    n += self.redundant(shapes, limit, ctxs)
        if not n:
            raise AnalysisBroken("no environment is ever stopped")
        self.entry = "cocpp::co_manager::destroy_redundant_env__"
        common = (self.add_locks or frozenset()) & (self.stop_locks or frozenset())
        self.chk(P18, "stop-gate", bool(common), None, "source/cocpp/core/co_manager.cpp",
                 "a coroutine can be added to an environment while it is being found empty and stopped")
        self.settings()
        self.rep.use(self.it)

    def settings(self):
        it = self.it
        st = self.world("T", [])
        for q in ("set_base_schedule_thread_count", "set_max_schedule_thread_count"):
            self.entry = "cocpp::co_manager::" + q
            s0, s1 = (self.put(it, st, "cocpp::co_manager", q, MGR[1], I(n)) for n in (0, 1))
            s2 = self.put(it, st, "cocpp::co_manager", q, MGR[1], I(2))
            if not self.differ(s1, s2):
                raise AnalysisBroken("%s changes nothing" % q)
            self.chk(P18, "zero-one", not self.differ(s0, s1), s0, self.prog.fn("cocpp::co_manager::" + q)["l"], "a count of zero is not treated as one")
        q = "cocpp::co_manager::set_timer_tick_duration"
        self.entry = q
        f = self.prog.fn(q)
        least = const(self.prog, "tick_ms") * 1000000
        for d in (-5, 0, 1, least - 1, least, least + 1, 7 * least):
            s = st.copy()
            s.mem[("dur",)] = I(d)
            for s2, v in it.run(s, f, MGR[1], [("loc", ("dur",))]):
                r = self.getv(it, s2, "cocpp::co_manager", "timing_duration", MGR[1])
                self.chk(P18, "tick-min", not bad(v) and r == I(max(d, least)), s2, f["l"], "a tick of %d ns gives %s" % (d, r))


def run_pinned(prog, rep):
    rep.assumptions.append("An environment that schedules is never in the state of a newly made one.")
    Pool(prog, rep).run17()


def run_pool(prog, rep):
    rep.assumptions.append("An environment that schedules is never in the state of a newly made one.")
    Pool(prog, rep).run18()
