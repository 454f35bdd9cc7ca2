"""C15: waiting, waking and sleeping.

The thread of an environment may go to sleep only after a check made under the lock its
wakers take; every operation that gives it something to do must, after the change, take
that lock and notify.  Other threads act at every point where the locks held allow it.
"""
from engine.interp import bt, bad, Throw, Call
from engine.models import to_callable, lam_call
from engine.program import AnalysisBroken
from engine.state import I, NULL, TRUE, FALSE
from .core import MGR, OTHER
from .kernel import const
from .sched import Sched

TIMER = ("timer.sleep",)
NS = 1_000_000

RULES = {
    "C15": [
        ("mark-set", "a coroutine that begins to wait is marked as waiting"),
        ("mark-all", "a coroutine stays marked until all it waits for has happened, and is not marked afterwards"),
        ("wake-thread", "after a coroutine has become runnable, or was added, the sleeping thread is woken"),
        ("wake-stop", "after a stop request the sleeping thread is woken"),
        ("sleep-lock", "the thread goes to sleep holding the lock of its wakers exactly once"),
        ("sleep-check", "the thread goes to sleep only after a check under that lock that nothing is runnable and no stop is requested"),
        ("nap-mark", "a sleeping coroutine is marked as waiting before its timer can expire"),
        ("nap-wake", "the timer of a sleeping coroutine clears the mark of that coroutine"),
        ("nap-suspend", "a sleeping coroutine gives up the processor with its timer running"),
        ("nap-deadline", "the timer of a sleeping coroutine expires at the requested time"),
    ],
}


class Wake(Sched):
    P = "C15"
    mode = None
    spawned = None

    # ---- world -----------------------------------------------------------------------------
    def build(self):
        self.it = self.interp(budget=8000000)
        st = self.world((("a", 0), ("c", 50)))
        if self.spawned is None:
            raise AnalysisBroken("no thread of the environment is started")
        it = self.it
        f = self.prog.fn("cocpp::co_ctx_factory::create_ctx")
        C = self.config(st, "new", priority=I(20), bind_env=self.env, shared_stack=I(0), stack_size=I(65536), name=("str", "new"))
        st, new = self.one(it, st, f, None, [("loc", C), ("s", "entry.new")])
        self.new = st.res(it.rv(st, new))
        st = self.put(it, st, "cocpp::co_ctx", "set_flag", self.new[1], I(self.LOCKED))
        # cells of the statuses
        self.cells = {}
        for n, c in list(self.ctx.items()) + [("new", self.new), ("idle", self.idle)]:
            w = self.differ(self.put(it, st, "cocpp::co_ctx", "set_flag", c[1], I(self.WAITING)), self.put(it, st, "cocpp::co_ctx", "unset_flag", c[1], I(self.WAITING)))
            z = self.differ(self.put(it, st, "cocpp::co_ctx", "set_state", c[1], I(self.suspended)), self.put(it, st, "cocpp::co_ctx", "set_state", c[1], I(self.running)))
            if len(w) != 1 or len(z) != 1:
                raise AnalysisBroken("status of a coroutine is held in %d and %d cells" % (len(w), len(z)))
            self.cells[n] = (w[0], z[0])
        e = self.differ(self.put(it, st, "cocpp::co_env", "set_state", self.env[1], I(self.destroying)), st)
        if len(e) != 1:
            raise AnalysisBroken("the state of an environment is held in %d cells" % len(e))
        self.ecell = e[0]
        self.st = st

    def waiting(self, st, *names):
        for n in names:
            st.mem[self.cells[n][0]] = TRUE
        return st

    # ---- hooks -----------------------------------------------------------------------------
    def on_event(self, it, st, kind, *a):
        if kind == "spawn" and self.spawned is None:
            self.spawned = a[1]
        if self.quiet:
            return [] if kind == "cv-wait" else None
        if kind == "cv-wait-enter" and self.mode in ("sleep", "probe"):
            c = a[0]
            self.at_sleep(it, st, c)
        if kind == "cv-wait":
            return []
        if kind == "notify" and self.mode == "op" and a[1] == self.cv:
            st.gh["notified"] = True
            if self.lock in st.held:
                pass
            elif st.gh.get("seen"):
                st.gh["woken"] = True

    def on_acquire(self, it, st, L, c, mode="lock"):
        if self.nested is not None and L in self.nested:
            return []
        if self.quiet or self.nested is not None:
            return super(Sched, self).on_acquire(it, st, L, c, mode)
        if self.mode == "sleep" and not st.held and L != self.lock:
            out = self.stopped(it, st, c)
            for s in out:
                s.held = s.held + (L,)
            return out
        if self.mode == "sleep" and L == self.lock and L not in st.held:
            out = []
            for s in self.others(it, st, c):
                self.reopen(s)
                s.held = s.held + (L,)
                out.append(s)
            return out
        if self.mode == "op" and L == self.lock and L not in st.held:
            st.held = st.held + (L,)
            st.gh["notified"] = False
            if not st.gh.get("seen"):
                st.gh["seen"] = self.seen(st, c)
            return [st]
        st.held = st.held + (L,)
        return [st]

    def on_release(self, it, st, L, c):
        if self.mode == "op" and not self.quiet and self.nested is None and L == self.lock and st.held.count(L) == 1:
            # notified while the lock was held: the sleeper checks again after this release
            if st.gh.get("notified") and not st.gh.get("woken"):
                st.gh["woken"] = st.gh.get("seen") or self.seen(st, c)
        out = super(Sched, self).on_release(it, st, L, c)
        if self.mode == "op" and not self.quiet and self.nested is None and st.gh.get("rival") and L not in st.held:
            out = out + [s for x in out for s in self.overlap(it, x, c)]
        return out

    def stopped(self, it, st, c):
        """another thread may have asked for a stop meanwhile"""
        if st.gh.get("stop") or st.gh.get("added") or self.env_state(it, st, self.env, self.destroying) is True:
            return [st]
        return [st] + self.act(it, st, c, "stop", "cocpp::co_env::stop_schedule", [])

    def others(self, it, st, c):
        """another thread may have added a coroutine meanwhile"""
        if st.gh.get("added"):
            return [st]
        return [st] + self.act(it, st, c, "added", "cocpp::co_env::add_ctx", [self.new])

    def act(self, it, st, c, what, q, args):
        s2 = st.copy()
        s2.gh[what] = True
        cur, s2.gh["cur"] = s2.gh["cur"], OTHER
        self.nested = frozenset(st.held)
        try:
            res = it.run(s2, self.prog.fn(q), self.env[1], args, c.frame)
        finally:
            self.nested = None
        out = []
        for s, v in res:
            if bad(v):
                continue
            s.gh["cur"] = cur
            s.held = st.held
            out.append(s)
        return out

    def reopen(self, s):
        """what other threads may have changed meanwhile"""
        for n in list(self.ctx) + (["new"] if s.gh.get("added") else []):
            w, z = self.cells[n]
            s.mem[w] = s.fresh(dom=(0, 1))
            if n == "a" and s.eq(s.mem[z], I(self.running)) is not True:
                s.mem[z] = s.fresh(dom=(self.suspended, self.finished))
        s.mem[self.cells["idle"][0]] = s.fresh(dom=(0, 1))
        if s.eq(s.mem[self.ecell], I(self.destroying)) is not True:
            s.mem[self.ecell] = s.fresh(dom=self.estates)

    def at_sleep(self, it, st, c):
        cv = st.cl(c.this)
        a = c.args[0]
        G = it.loc_of(st, a)
        m = st.mem.get(G + ("@m0",))
        L = st.cl(m[1]) if m is not None and m[0] == "p" else G
        if self.mode == "probe":
            self.asleep.append((st, cv, L))
            return
        if L != self.lock or cv != self.cv:
            raise AnalysisBroken("the thread of an environment sleeps in two ways")
        self.chk(self.P, "sleep-lock", st.held.count(L) == 1, st, c.l, "goes to sleep holding the lock of its wakers %d times" % st.held.count(L))
        names = list(self.ctx) + (["new"] if st.gh.get("added") else [])
        every = dict(self.ctx, new=self.new)
        left = [n for n in names if not self.blocked(it, st, every[n])]
        what = []
        if left:
            what.append("one may be runnable")
        if st.gh.get("stop") or self.env_state(it, st, self.env, self.destroying) is not False:
            what.append("a stop may have been requested")
        self.chk(self.P, "sleep-check", not what, st, c.l, "goes to sleep although %s" % " and ".join(what))

    # ---- the thread of the environment ---------------------------------------------------------
    def thread(self, st, fr=None):
        st.gh["cur"] = self.env
        self.results = []
        c = Call({"k": "Call", "q": "thread", "l": "?", "t": "void", "pt": []}, None, [], fr)
        try:
            return self.it.call_value(st, self.spawned, [], c, fr)
        finally:
            self.results = None

    def probe(self, st, fr=None):
        """would the thread, if it looked now, go to sleep -> [(state, cv, lock)]"""
        s = st.copy()
        s.held = ()
        s.gh = {k: v for k, v in s.gh.items() if k in ("order", "cur")}
        mode, self.mode = self.mode, "probe"
        self.asleep = []
        n, self.nested = self.nested, None
        try:
            self.thread(s, fr)
        finally:
            self.mode, self.nested = mode, n
        return self.asleep

    def seen(self, st, c):
        return not self.probe(st, c.frame)

    def sleepers(self):
        """where and how the thread sleeps"""
        self.entry = "thread of an environment"
        self.cv = self.lock = None
        got = {(cv, L) for s, cv, L in self.probe(self.waiting(self.st.copy(), "a", "c"))}
        if len(got) != 1:
            raise AnalysisBroken("the thread of an environment sleeps in %d ways" % len(got))
        self.cv, self.lock = got.pop()
        self.estates = tuple(const(self.prog, "env_" + x) for x in ("idle", "busy", "destroying"))

    def asleep_after(self, st):
        """the last coroutine that ran was the least urgent one"""
        got = [s for s, w, l in self.pick(self.waiting(st.copy(), "a")) if w == "c"]
        if len(got) != 1:
            raise AnalysisBroken("the only runnable coroutine is not picked")
        return self.waiting(got[0], *self.ctx)

    def falls_asleep(self):
        it = self.it
        self.mode = "sleep"
        try:
            # the thread itself
            s = self.st.copy()
            self.entry = "thread of an environment"
            self.rep.paths += len(self.thread(s))
            # a coroutine, or a converted thread, that gives up the processor
            for who in ("a", "idle"):
                s = self.st.copy()
                s.gh["cur"] = self.env
                if who == "a":
                    self.mode = None
                    s2 = self.waiting(s.copy(), "c")
                    got = [x for x, w, l in self.pick(s2) if w == "a"]
                    if not got:
                        raise AnalysisBroken("the only runnable coroutine is not picked")
                    s = got[0]
                    self.mode = "sleep"
                    s.gh["cur"] = self.env
                self.entry = "giving up the processor (%s)" % ("coroutine" if who == "a" else "converted thread")
                self.results = []
                res = it.run(s, self.prog.fn("cocpp::co_env::schedule_switch"), self.env[1], [])
                self.rep.paths += len(res) + len(self.results)
                self.results = None
        finally:
            self.mode = None

    # ---- wakers ----------------------------------------------------------------------------------
    def op(self, st, fn, this, args, rule, what, entry, rival=None):
        self.entry = entry
        st.gh["cur"] = OTHER
        st.gh["seen"] = st.gh["woken"] = st.gh["notified"] = False
        if rival:
            st.gh["rival"] = rival
        self.mode = "op"
        try:
            res = self.it.run(st, fn, this, args)
        finally:
            self.mode = None
        self.rep.paths += len(res)
        out = []
        for s, v in res:
            if bad(v):
                continue
            if rule is not None:
                self.chk(self.P, rule, s.gh.get("woken"), s, fn["l"],
                         "%s: the thread of the environment is not woken after the change%s" % (what, " (no notification)" if not s.gh["notified"] else ""))
            out.append(s)
        return out

    def overlap(self, it, st, c):
        """an operation of a third thread in the middle of this one"""
        fn, this, args = st.gh["rival"]
        s = st.copy()
        s.gh.pop("rival")
        s.gh["_rival"] = True
        self.nested = frozenset(st.held)
        try:
            res = it.run(s, self.prog.fn(fn), this, list(args), c.frame)
        finally:
            self.nested = None
        out = []
        for s2, v in res:
            if not bad(v):
                s2.held = st.held
                s2.gh["rivaled"] = True
                out.append(s2)
        return out

    def marks(self):
        it = self.it
        A, B = ("p", ("resource.1",)), ("p", ("resource.2",))
        enter, leave = "cocpp::co_ctx::enter_wait_resource_state", "cocpp::co_ctx::leave_wait_resource_state"
        P = self.prog
        E, V = P.fn(enter), P.fn(leave)
        for who in ("a", "c", "idle"):
            c = self.ctx.get(who) or self.idle
            st = self.asleep_after(self.st) if who != "idle" else self.waiting(self.st.copy(), *self.ctx)
            if who != "idle":
                st.mem[self.cells[who][0]] = FALSE
            entry = "waiting (%s)" % ("coroutine" if who != "idle" else "converted thread")

            def mark(s, want, rule, l, what):
                f = self.flag(it, s, c, self.WAITING)
                self.chk(self.P, rule, f is want, s, l, what)
            one = self.op(st, E, c[1], [A], None, "", entry)
            for s in one:
                mark(s, True, "mark-set", E["l"], "is not marked after it has begun to wait")
            for s in one:
                for s2 in self.op(s.copy(), V, c[1], [A], "wake-thread" if who != "idle" else None, "the end of a wait", entry):
                    mark(s2, False, "mark-all", V["l"], "is still marked after all it waits for has happened")
                # waiting for two things, ended in both orders
                for s2 in self.op(s.copy(), E, c[1], [B], None, "", entry):
                    mark(s2, True, "mark-set", E["l"], "is not marked after it has begun to wait")
                    for x, y in ((A, B), (B, A)):
                        for s3 in self.op(s2.copy(), V, c[1], [x], None, "", entry):
                            mark(s3, True, "mark-all", V["l"], "is not marked although one thing it waits for has not happened")
                            for s4 in self.op(s3.copy(), V, c[1], [y], "wake-thread" if who != "idle" else None, "the end of a wait", entry):
                                mark(s4, False, "mark-all", V["l"], "is still marked after all it waits for has happened")
                    # both end at the same time
                    for s3 in self.op(s2.copy(), V, c[1], [A], None, "", entry, (leave, c[1], (B,))):
                        if s3.gh.pop("rivaled", None):
                            mark(s3, False, "mark-all", V["l"], "is still marked after all it waits for has happened at the same time")
                # one ends while the coroutine begins to wait for another
                for s3 in self.op(s.copy(), V, c[1], [A], None, "", entry, (enter, c[1], (B,))):
                    if s3.gh.pop("rivaled", None):
                        mark(s3, True, "mark-all", V["l"], "is not marked although it has begun to wait again meanwhile")
                for s3 in self.op(s.copy(), E, c[1], [B], None, "", entry, (leave, c[1], (A,))):
                    if s3.gh.pop("rivaled", None):
                        mark(s3, True, "mark-all", E["l"], "is not marked although it has begun to wait again meanwhile")

    def idle_wake(self):
        """a converted thread that waits sleeps inside the switch; the end of the wait must reach it"""
        it = self.it
        rc = ("p", ("resource.1",))
        st = self.waiting(self.st.copy(), *self.ctx)
        self.entry = "waiting (converted thread)"
        V = self.prog.fn("cocpp::co_ctx::leave_wait_resource_state")
        st = self.put_raw(st, "cocpp::co_ctx", "enter_wait_resource_state", self.idle[1], rc)
        probe, self.probe = self.probe, self.probe_switch
        try:
            if not self.probe(st):
                raise AnalysisBroken("a converted thread that waits does not sleep")
            self.op(st, V, self.idle[1], [rc], "wake-thread", "the end of a wait", self.entry)
        finally:
            self.probe = probe

    def probe_switch(self, st, fr=None):
        s = st.copy()
        s.held = ()
        s.gh = {"cur": self.env, "order": s.gh["order"]}
        mode, self.mode = self.mode, "probe"
        self.asleep = []
        n, self.nested = self.nested, None
        self.results = []
        try:
            self.it.run(s, self.prog.fn("cocpp::co_env::schedule_switch"), self.env[1], [], fr)
        finally:
            self.mode, self.nested, self.results = mode, n, None
        return self.asleep

    def wakers(self):
        st = self.asleep_after(self.st)
        f = self.prog.fn("cocpp::co_env::add_ctx")
        if not self.op(st.copy(), f, self.env[1], [self.new], "wake-thread", "adding a coroutine", "adding a coroutine"):
            raise AnalysisBroken("adding a coroutine never succeeds")
        f = self.prog.fn("cocpp::co_env::move_ctx_to_here")
        s = st.copy()
        self.op(s, f, self.env[1], [self.new], "wake-thread", "moving a coroutine here", "moving a coroutine")
        f = self.prog.fn("cocpp::co_env::stop_schedule")
        self.op(st.copy(), f, self.env[1], [], "wake-stop", "a stop request", "stopping")

    # ---- sleeping coroutines -------------------------------------------------------------------------
    def naps(self):
        it = self.it
        self.intrinsics.update({
            "cocpp::co_timer::create": self.t_create, "cocpp::co_timer::set_expire_callback": self.t_cb,
            "cocpp::co_timer::start": self.t_start, "cocpp::co_timer::stop": lambda it, st, c: [(st, NULL)],
            "cocpp::co_env::schedule_switch": self.t_switch,
            "cocpp::co::current_env": lambda it, st, c: [(st, st.gh["cur"])],
            "std::chrono::steady_clock::now": self.t_now})
        n = 0
        for who in ("a", "idle"):
            s0 = self.waiting(self.st.copy(), "c")
            if who == "a":
                fn = self.intrinsics.pop("cocpp::co_env::schedule_switch")
                got = [x for x, w, l in self.pick(s0) if w == "a"]
                self.intrinsics["cocpp::co_env::schedule_switch"] = fn
                if not got:
                    raise AnalysisBroken("the only runnable coroutine is not picked")
                s0 = got[0]
            self.me = self.ctx["a"] if who == "a" else self.idle
            for q, arg in (("cocpp::this_co::sleep_for", 30 * NS), ("cocpp::this_co::sleep_until", 5000 + 70 * NS)):
                for f in self.prog.fns(q):
                    n += 1
                    s = s0.copy()
                    s.gh.update(cur=self.env, clock=5000, tm=None, cb=NULL, slept=False)
                    s.gh["want"] = 5000 + (30 * NS if q.endswith("for") else 70 * NS)
                    s.mem[("user.time",)] = I(arg)
                    self.entry = "%s (%s)" % (q, "coroutine" if who == "a" else "converted thread")
                    for s2, v in it.run(s, f, None, [("loc", ("user.time",))]):
                        if bad(v):
                            self.chk(self.P, "nap-suspend", False, s2, f["l"], "throws")
                            continue
                        self.rep.paths += 1
                        self.chk(self.P, "nap-suspend", s2.gh["slept"], s2, f["l"], "returns without giving up the processor")
        if n < 4:
            raise AnalysisBroken("anchor vanished: sleeping coroutines")

    def t_now(self, it, st, c):
        st.gh["clock"] += 1000
        return [(st, I(st.gh["clock"]))]

    def t_create(self, it, st, c):
        st.gh["cb"] = to_callable(it, st, c.args[0])
        dl = None
        for a, t in zip(c.args[1:], c.node["pt"][1:]):
            v = it.rv(st, a)
            if "time_point" in t:
                dl = v[1] if v[0] == "i" else None
            elif "unsigned long" in bt(t):
                dl = st.gh["clock"] + v[1] * NS if v[0] == "i" else None
        want = st.gh["want"]
        self.chk(self.P, "nap-deadline", dl is not None and want <= dl <= want + 20 * NS, st, c.l,
                 "the timer expires at %s instead of %s" % (dl, want))
        return [(st, ("p", TIMER))]

    def t_cb(self, it, st, c):
        old = st.gh["cb"]
        st.gh["cb"] = to_callable(it, st, c.args[0])
        return [(st, old)]

    def t_start(self, it, st, c):
        st.gh["tm"] = "armed"
        # it may expire from here on
        ok = self.flag(it, st, self.me, self.WAITING) is True
        self.chk(self.P, "nap-mark", ok, st, c.l, "the timer is started before the coroutine is marked as waiting")
        if ok:
            self.expire(it, st, c)
        return [(st, NULL)]

    def expire(self, it, st, c):
        s = st.copy()
        s.held = ()
        s.gh["cur"] = OTHER
        if s.gh["cb"] == NULL:
            self.chk(self.P, "nap-wake", False, s, c.l, "the timer has no callback")
            return
        for s2, v in it.call_value(s, s.gh["cb"], [], c, c.frame):
            self.chk(self.P, "nap-wake", not bad(v) and self.flag(it, s2, self.me, self.WAITING) is False, s2, c.l,
                     "the timer does not clear the mark of the coroutine that sleeps")

    def t_switch(self, it, st, c):
        self.chk(self.P, "nap-suspend", st.gh["tm"] == "armed", st, c.l, "gives up the processor without a running timer")
        self.chk(self.P, "nap-suspend", not st.held, st, c.l, "gives up the processor holding a lock")
        if st.gh["tm"] == "armed" and st.gh["cb"] != NULL:
            self.expire(it, st, c)
        st.gh["slept"] = True
        return [(st, NULL)]


def run_wake(prog, rep):
    r = Wake(prog, rep)
    rep.assumptions.append("The clock used for sleeping is std::chrono::steady_clock; timers behave as C19 says.")
    r.build()
    r.sleepers()
    r.falls_asleep()
    r.marks()
    r.idle_wake()
    r.wakers()
    r.naps()
    rep.extra["steps"] = r.it.steps
    rep.use(r.it)
