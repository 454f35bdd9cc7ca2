"""C15, C16: picking the next coroutine, and falling asleep and waking up.

An environment with four coroutines of three priorities is built by the library's own
functions; which of them wait or have finished is unknown.  Picks are followed from there,
then every operation that changes what a pick must see, then picks again.
"""
from engine.interp import bt, bad, Throw, Abort
from engine.program import AnalysisBroken
from engine.state import I, NULL, TRUE, FALSE
from .core import Core, MGR, OTHER
from .kernel import const, field

RULES = {
    "C16": [
        ("pick-runnable", "the coroutine picked is neither finished nor waiting"),
        ("pick-urgent", "no coroutine of a higher priority is runnable when one is picked"),
        ("pick-turn", "among equals the one picked longest ago is picked first"),
        ("pick-idle", "idle work is picked only if no coroutine is runnable"),
        ("pick-switch", "the environment switches from the coroutine that ran to the one it picked and reports that as current"),
        ("prio-clamp", "a priority takes effect clamped to the valid range"),
        ("pick-change", "after a change of priority, an addition or the end of a wait the next pick honours it"),
    ],
}
PRIOS = (("a", 0), ("b", 0), ("c", 50), ("d", 99))


class Cut(Exception):
    pass


class Sched(Core):
    P = "C16"

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.destroying = const(prog, "env_destroying")
        self.nested = None
        self.results = None

    # ---- cells ---------------------------------------------------------------------------
    def differ(self, a, b):
        keys = set(a.mem) | set(b.mem)
        return sorted((k for k in keys if a.mem.get(k) != b.mem.get(k) and k[0][0] not in "vt" and not k[0].startswith("arg.")), key=str)

    def open_flag(self, st, ctx, n):
        """the flag becomes unknown"""
        it = self.it
        for k in self.differ(self.put(it, st, "cocpp::co_ctx", "set_flag", ctx[1], I(n)), self.put(it, st, "cocpp::co_ctx", "unset_flag", ctx[1], I(n))):
            st.mem[k] = st.fresh(dom=(0, 1))

    def open_state(self, st, ctx, *dom):
        """the state becomes one of some"""
        it = self.it
        ks = self.differ(self.put(it, st, "cocpp::co_ctx", "set_state", ctx[1], I(self.suspended)),
                         self.put(it, st, "cocpp::co_ctx", "set_state", ctx[1], I(self.running)))
        if len(ks) != 1:
            raise AnalysisBroken("the state of a coroutine is held in %d cells" % len(ks))
        st.mem[ks[0]] = st.fresh(dom=dom)

    # ---- world -----------------------------------------------------------------------------
    def world(self, prios=PRIOS):
        it = self.it
        self.entry = "creating an environment"
        st = self.base(it)
        st, self.env = self.new_env(it, st)
        self.idle = self.getv(it, st, "cocpp::co_env", "current_ctx", self.env[1])
        self.ctx = {}
        order = []
        for n, p in prios:
            st, c = self.new_ctx(it, st, n, self.env, p)
            st.typ[c[1]] = "cocpp::co_ctx"
            self.ctx[n] = c
            order.append((n, self.clamp(p), False))
        st.gh["order"] = tuple(order)
        return st

    def clamp(self, p):
        return min(max(p, 0), self.NPRIO - 1)

    def name(self, st, v):
        for n, c in self.ctx.items():
            if st.eq(v, c) is True:
                return n
        return "idle" if st.eq(v, self.idle) is True else None

    # ---- hooks -----------------------------------------------------------------------------
    def on_switch(self, it, st, c):
        if self.results is None:
            return [st]
        a = []
        for x in c.args:
            v = st.res(it.rv(st, x))
            a.append(("p", v[1][:1]) if v[0] == "p" else None)
        st.gh["switch"] = tuple(a)
        self.results.append((st, c.l))
        return []

    def on_event(self, it, st, kind, *a):
        if kind == "cv-wait" and not self.quiet:
            return []       # asleep: nothing is picked

    def on_acquire(self, it, st, L, c, mode="lock"):
        if self.nested is not None and L in self.nested:
            return []       # the other thread holds it
        return super().on_acquire(it, st, L, c, mode)

    def on_release(self, it, st, L, c):
        out = super().on_release(it, st, L, c)
        if self.quiet or self.nested is not None or not st.gh.get("op") or st.gh.get("_picked") or L in st.held:
            return out
        # the thread of the environment picks here, while the operation is under way
        more = []
        for s in out:
            k = self.seen_by_pick(s)
            if k in s.gh["_looked"]:
                continue
            s2 = s.copy()
            s2.gh["_picked"] = True
            op = s2.gh.pop("op")
            self.nested = frozenset(s2.held)
            try:
                ps = self.pick(s2, c.frame)
                if ps:
                    s.gh["_looked"] = s.gh["_looked"] | {k}
                for s3, who, l in ps:
                    s3.gh["op"] = op
                    s3.gh["cur"] = OTHER
                    s3.gh["order"] = self.after(s3.gh["order"], who)
                    s3.held = s.held
                    more.append(s3)
            finally:
                self.nested = None
        return out + more

    def seen_by_pick(self, st):
        """what a pick may depend on"""
        roots = {self.env[1][0]} | {c[1][0] for c in self.ctx.values()}
        return hash(tuple(sorted((str(k), str(v)) for k, v in st.mem.items() if k[0] in roots)))

    # ---- picking -------------------------------------------------------------------------------
    def after(self, order, who):
        """order of turns after a pick: (name, priority, place unknown)"""
        x = [o for o in order if o[0] == who]
        return tuple(o for o in order if o[0] != who) + tuple((n, p, False) for n, p, f in x)

    def pick(self, st, fr=None):
        """[(state when the picked coroutine runs, its name, place)]"""
        it = self.it
        st = st.copy()
        st.gh["cur"] = self.env
        st.gh.pop("switch", None)
        f = self.prog.fn("cocpp::co_env::schedule_switch")
        save, self.results = self.results, []
        try:
            ends = it.run(st, f, self.env[1], [], fr)
            sw = self.results
        finally:
            self.results = save
        out = []
        for s, l in sw + [(s, f["l"]) for s, v in ends if not bad(v)]:
            v = self.getv(it, s, "cocpp::co_env", "current_ctx", self.env[1])
            out.append((s, self.name(s, v) if v is not None else None, l))
        return out

    def judge(self, s0, op=""):
        """follow a pick and check it; [(state, name)] when the coroutine picked runs"""
        it = self.it
        was = self.name(s0, self.getv(it, s0, "cocpp::co_env", "current_ctx", self.env[1]))
        out = []
        for s, who, l in self.pick(s0):
            self.rep.paths += 1
            order = s.gh["order"]
            prio = {n: p for n, p, f in order}
            if who is None:
                self.chk(self.P, "pick-switch", False, s, l, "the environment does not report a coroutine of its own as the current one")
                continue
            sw = s.gh.get("switch")
            if sw is not None:
                frm, to = (self.name(s, x) if x else None for x in sw)
                self.chk(self.P, "pick-switch", frm == was and to == who, s, l,
                         "switches from %s to %s, but %s was running and %s was picked" % (frm, to, was, who))
            else:
                self.chk(self.P, "pick-switch", who == was, s, l, "%s was picked and %s goes on running" % (who, was))
            blocked = {n: self.blocked(it, s, self.ctx[n]) for n in prio}
            if who == "idle":
                left = [n for n in prio if not blocked[n]]
                if self.env_state(it, s, self.env, self.destroying) is not True:
                    self.chk(self.P, "pick-idle", not left, s, l, "picks the idle work although %s may be runnable" % name(left, prio))
                    if op:
                        self.chk(self.P, "pick-change", not left, s, l, "%s: %s is not seen by the next pick" % (op, name(left, prio)))
            else:
                self.chk(self.P, "pick-runnable", self.runnable(it, s, self.ctx[who]), s, l, "picks a coroutine that may be finished or waiting")
                left = [n for n in prio if prio[n] < prio[who] and not blocked[n]]
                self.chk(self.P, "pick-urgent", not left, s, l, "picks priority %d although %s may be runnable" % (prio[who], name(left, prio)))
                if op:
                    self.chk(self.P, "pick-change", not left, s, l, "%s: the next pick takes priority %d although %s is runnable"
                             % (op, prio[who], name(left, prio)))
                free = {n for n, p, f in order if f}
                if who not in free:
                    i = [n for n, p, f in order].index(who)
                    left = [n for n, p, f in order[:i] if p == prio[who] and not blocked[n] and n not in free]
                    self.chk(self.P, "pick-turn", not left, s, l, "picks one although another of its priority that waits longer may be runnable")
            s.gh["order"] = self.after(order, who)
            if not s.taint:
                out.append((s, who))
        return out

    # ---- C16 -----------------------------------------------------------------------------------
    def picks(self):
        deep = self.rep.tier == "thorough"
        it = self.it = self.interp(budget=8000000)
        P = self.prog
        st = self.world()
        for n, c in self.ctx.items():
            v = self.getv(it, st, "cocpp::co_ctx", "priority", c[1])
            self.chk(self.P, "prio-clamp", v == I(dict(PRIOS)[n]), st, "config", "a configured priority %s becomes %s" % (dict(PRIOS)[n], v))
        # any may be waiting, some may have finished
        self.entry = "picking"
        s = st.copy()
        for n, c in self.ctx.items():
            self.open_flag(s, c, self.WAITING)
            if n in "bd":
                self.open_state(s, c, self.suspended, self.finished)
        self.judge(s)
        # any may be waiting; second pick after the first, the one that ran may have begun to wait or finished
        self.entry = "picking again"
        s = st.copy()
        for c in self.ctx.values():
            self.open_flag(s, c, self.WAITING)
        first = self.judge(s)
        if {w for _, w in first} != set(self.ctx) | {"idle"} and not self.rep.viol:
            raise AnalysisBroken("picks found: %s" % sorted({w for _, w in first}))
        start = []
        for s, who in first:
            start.append((s.copy(), who))
            s = s.copy()
            if who != "idle":
                self.open_flag(s, self.ctx[who], self.WAITING)
                self.open_state(s, self.ctx[who], self.running, self.finished)
            second = self.judge(s)
            if deep:
                for s2, who2 in second:
                    if who2 != "idle":
                        self.open_flag(s2, self.ctx[who2], self.WAITING)
                    self.judge(s2)
        # operations of others, with a pick at every point where one may happen, then a pick
        for s, who in start:
            if who == "b" and not deep:
                continue
            self.leave(s)
            self.added(s, (0, 49, 99, 1000, -7) if deep else (0, 99, 1000, -7))
            self.changed(s, (0, 20, 99, 100, -1, 2 ** 31 - 1, -2 ** 31) if deep else (0, 20, 100, -1), deep)
        self.rep.extra["steps"] = it.steps
        self.rep.use(it)

    def finish_op(self, res, op, order, then=None):
        for s, v in res:
            if bad(v):
                self.chk(self.P, "pick-change", not isinstance(v, Throw), s, op, "%s throws" % op)
                continue
            s.gh.pop("op", None)
            s.gh.pop("_picked", None)
            if s.taint:
                continue
            order(s)
            self.judge(s, op)
            if then is not None:
                then(s)

    def leave(self, s0, which=None, overlap=True):
        it = self.it
        f = self.prog.fn("cocpp::co_ctx::leave_wait_resource_state")
        for n, c in self.ctx.items():
            if self.flag(it, s0, c, self.WAITING) is not True or which is not None and n not in which:
                continue
            s = s0.copy()
            rc = ("p", ("resource." + n,))
            s.gh["cur"] = self.env
            s = self.put_raw(s, "cocpp::co_ctx", "enter_wait_resource_state", c[1], rc)
            s.gh["cur"] = OTHER
            if overlap:
                s.gh["op"] = n
                s.gh["_looked"] = frozenset()
            self.entry = "the end of a wait"
            self.finish_op(it.run(s, f, c[1], [rc]), "the end of a wait", lambda s: None)

    def put_raw(self, st, cls, name, this, *args):
        q, self.quiet = self.quiet, True
        try:
            r = self.it.run(st, self.prog.fn("%s::%s" % (cls, name)), this, list(args))
        finally:
            self.quiet = q
        if len(r) != 1 or bad(r[0][1]):
            raise AnalysisBroken("%s::%s has no single outcome" % (cls, name))
        return r[0][0]

    def added(self, s0, prios):
        it = self.it
        for p in prios:
            s = s0.copy()
            s.gh["cur"] = OTHER
            s.gh["op"] = "new"
            s.gh["_looked"] = frozenset()
            self.entry = "adding a coroutine"
            C = self.config(s, "new", priority=I(p), bind_env=self.env, shared_stack=I(0), stack_size=I(65536), name=("str", "new"))
            f = self.prog.fn("cocpp::co_manager::create_and_schedule_ctx")
            for s, v in it.run(s, f, MGR[1], [("loc", C), ("s", "entry.new"), I(1)]):
                if bad(v):
                    continue
                new = s.res(it.rv(s, v))
                self.ctx["new"] = new
                got = self.getv(it, s, "cocpp::co_ctx", "priority", new[1])
                self.chk(self.P, "prio-clamp", got == I(self.clamp(p)), s, "config", "a configured priority %d becomes %s" % (p, got))
                self.finish_op([(s, v)], "adding a coroutine", lambda s: s.gh.__setitem__("order", s.gh["order"] + (("new", self.clamp(p), True),)))
                del self.ctx["new"]

    def changed(self, s0, prios, deep):
        it = self.it
        f = self.prog.fn("cocpp::co_ctx::set_priority")
        for n, c in list(self.ctx.items()):
            if n == "b" and not deep:
                continue
            for p in prios:
                s = s0.copy()
                s.gh["cur"] = OTHER
                s.gh["op"] = n
                s.gh["_looked"] = frozenset()
                self.entry = "changing a priority"
                old = [o[1] for o in s.gh["order"] if o[0] == n][0]
                new = self.clamp(p)

                def order(s):
                    got = self.getv(it, s, "cocpp::co_ctx", "priority", c[1])
                    self.chk(self.P, "prio-clamp", got == I(new), s, f["l"], "priority %d becomes %s" % (p, got))
                    if old != new:
                        s.gh["order"] = tuple(o for o in s.gh["order"] if o[0] != n) + ((n, new, True),)
                waits = self.flag(it, s, c, self.WAITING) is True
                self.finish_op(it.run(s, f, c[1], [I(p)]), "a change of priority", order, (lambda s: self.leave(s, (n,), False)) if waits else None)


def name(left, prio):
    return "one of priority %s" % "/".join(str(prio[n]) for n in left) if left else "none"


def run_picks(prog, rep):
    r = Sched(prog, rep)
    rep.assumptions.append("An environment with four coroutines of priorities 0, 0, 50 and 99 stands for all; one operation of another thread "
                           "overlaps one pick.")
    r.picks()
