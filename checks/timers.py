"""C19: timers.

A few timers with unknown deadlines are created, started and stopped by following the
library's own operations; another thread starts or stops the same timer wherever the locks
held allow it.  The thread that serves the queue is followed up to its next sleep.
"""
from engine.interp import bt, bad, is_seq
from engine.models import to_callable
from engine.program import AnalysisBroken
from engine.state import I, NULL, TRUE, FALSE
from .core import Core
from .kernel import const, MGR

MS = 1_000_000
INTERVAL = 30

RULES = {
    "C19": [
        ("armed-queued", "a timer is queued, once, exactly while it is running"),
        ("deadline", "a started timer expires at the requested time, or the interval after the start"),
        ("deadline-fixed", "the deadline of a timer does not change while it is queued"),
        ("order", "the timer with the earliest deadline comes first"),
        ("no-change", "starting a running timer and stopping a stopped one change nothing"),
        ("due", "a timer is dispatched only after its deadline"),
        ("first", "a timer is dispatched only if no other has an earlier deadline"),
        ("once", "a one-shot timer is dispatched once and is stopped then"),
        ("rearm", "a periodic timer runs again after each dispatch"),
        ("no-lock", "the callback of a timer runs without a lock of timers held"),
        ("sleep", "the thread sleeps only if no timer is queued, or until the earliest deadline"),
        ("wake", "a new earliest timer wakes the thread"),
    ],
}


class Timers(Core):
    P = "C19"
    order = None        # order of the addresses of the timers
    nested = None
    cv = lock = None

    def kernel(self):
        k = super().kernel()
        k.update({
            "std::chrono::steady_clock::now": self.k_now,
            "cocpp::co_manager::create_and_schedule_ctx": self.k_spawn,
        })
        return k

    def k_now(self, it, st, c):
        v = st.fresh()
        st.assume_le(st.gh["now"], v, 0)
        st.gh["now"] = v
        return [(st, v)]

    def rank(self, L):
        return self.order.index(L) if L in self.order else len(self.order)

    # ---- world -----------------------------------------------------------------------------
    def build(self, kinds, order):
        """timers of the given kinds: abs, once, loop"""
        P = self.prog
        it = self.it = self.interp(budget=3000000, loop_max=16, widen_at=99)
        st = self.base(it)
        now = st.fresh(lo=0)
        st.gh["now"] = now
        q = [f for f in P.all_fields("cocpp::co_manager") if is_seq(bt(f["t"])) and "co_timer" in f["t"]]
        if len(q) != 1:
            raise AnalysisBroken("anchor vanished: queue of timers")
        self.queue = MGR[1] + (q[0]["n"],)
        st.mem[self.queue] = ("seq", ())
        for f in P.all_fields("cocpp::co_manager"):
            if bt(f["t"]) in ("std::atomic<bool>", "bool"):
                st.mem[MGR[1] + (f["n"],)] = FALSE
        self.t, self.kind = {}, {}
        self.order = []
        cs = P.fns("cocpp::co_timer::create")
        for n, k in kinds:
            st.mem[("user.cb." + n,)] = ("s", "cb." + n)
            st.assume_ne(("s", "cb." + n), NULL)
            a = [("loc", ("user.cb." + n,))]
            f = [f for f in cs if ("time_point" in f["p"][1]["t"]) == (k == "abs")]
            if len(f) != 1:
                raise AnalysisBroken("anchor vanished: creation of timers")
            if k == "abs":
                d = st.fresh(lo=0)
                st.gh[("want", n)] = d
                a.append(d)
            else:
                a += [I(const(P, "timer_once" if k == "once" else "timer_loop")), I(INTERVAL)]
            st, v = self.one(it, st, f[0], None, a)
            v = st.res(it.rv(st, v))
            if v[0] != "p":
                raise AnalysisBroken("a created timer is not an object")
            self.t[n], self.kind[n] = v, k
            st.gh[("armed", n)] = False
        self.order = [self.t[n][1] for n in order]
        return st

    def runs(self, st, n):
        r = self.get(self.it, st, "cocpp::co_timer", "is_running", self.t[n][1])
        if r is None:
            return None
        z = r[0].eq(r[1], I(0))
        return None if z is None else not z

    def deadline(self, st, n):
        return self.getv(self.it, st, "cocpp::co_timer", "expire_time", self.t[n][1])

    def queued(self, st):
        out = []
        for e in self.it.seq(st, self.queue):
            if isinstance(e, tuple):
                raise AnalysisBroken("the queue of timers is not known")
            v = None
            for k in ((e,), (e, "second"), (e, "first")):
                w = st.mem.get(self.queue + k)
                if w is not None and st.res(w)[0] == "p":
                    v = st.res(w)
            out.append(next((n for n, t in self.t.items() if t == v), None))
        return out

    def at_rest(self, st, l, what):
        q = self.queued(st)
        bad_ = []
        for n in self.t:
            r = self.runs(st, n)
            if r is None or (q.count(n) != int(r)):
                bad_.append("%s timer is queued %d times" % ({True: "a running", False: "a stopped", None: "a"}[r], q.count(n)))
        if None in q:
            bad_.append("an unknown object is queued")
        self.chk(self.P, "armed-queued", not bad_, st, l, "%s: %s" % (what, ", ".join(bad_)))
        if q and not bad_:
            d = self.deadline(st, q[0])
            late = [n for n in q[1:] if st.le_known(d, self.deadline(st, n), 0) is not True]
            self.chk(self.P, "order", not late, st, l, "%s: the first of the queue is not the earliest" % what)

    # ---- hooks -------------------------------------------------------------------------------
    def on_write(self, it, st, L, old, new, l, frame):
        if self.quiet:
            return
        for n, t in getattr(self, "t", {}).items():
            if L[:len(t[1])] == t[1] and len(L) > len(t[1]) and self.is_deadline(t, L):
                self.chk(self.P, "deadline-fixed", n not in self.queued(st) or st.eq(old, new) is True, st, l, "the deadline changes while the timer is queued")

    def is_deadline(self, t, L):
        f = L[len(t[1])]
        return any(x["n"] == f and "time_point" in x["t"] for x in self.prog.all_fields("cocpp::co_timer"))

    def on_acquire(self, it, st, L, c, mode="lock"):
        if self.nested is not None and L in self.nested:
            return []
        out = [st]
        if not self.quiet and self.nested is None and st.gh.get("rival") and L not in st.held:
            out += self.other(it, st, c)
        for s in out:
            n = self.owner(L)
            if n and not self.quiet and self.nested is None and L not in s.held:
                s.gh["cand", n] = (self.runs(s, n), self.deadline(s, n))
            s.held = s.held + (L,)
        return out

    def owner(self, L):
        return next((n for n, t in self.t.items() if L[:1] == t[1][:1]), None) if hasattr(self, "t") else None

    def on_release(self, it, st, L, c):
        out = super().on_release(it, st, L, c)
        n = self.owner(L)
        if n and not self.quiet and self.nested is None:
            for s in out:
                x = s.gh.get(("cand", n))
                if x and L not in s.held and x[0] is True and (self.runs(s, n) is False or s.eq(x[1], self.deadline(s, n)) is not True):
                    s.gh["took", n] = x[1]
        return out

    def other(self, it, st, c):
        """another thread uses a timer here"""
        n, ops = st.gh["rival"]
        out = []
        for op in ops:
            s = st.copy()
            s.gh.pop("rival")
            s.gh["acted"] = op
            self.nested = frozenset(st.held)
            try:
                res = it.run(s, self.prog.fn("cocpp::co_timer::" + op), self.t[n][1], [], c.frame)
            finally:
                self.nested = None
            for s2, v in res:
                if not bad(v):
                    s2.held = st.held
                    out.append(s2)
        return out

    def note(self, st):
        """which timers wait for which deadline"""
        for n in self.t:
            r = self.runs(st, n)
            st.gh[("armed", n)] = r
            st.gh[("dl", n)] = self.deadline(st, n)

    def on_event(self, it, st, kind, *a):
        if self.quiet:
            return
        if kind == "notify":
            st.gh["notified"] = st.gh.get("notified", ()) + (a[1],)
            st.gh["_queue_at_notify"] = tuple(self.queued(st))
        elif kind == "cv-wait-enter":
            self.sleeps(it, st, a[0])
        elif kind == "cv-wait":
            st.gh["slept"] = True
            return []

    def on_callback(self, it, st, fv, args, c):
        if fv[0] == "s" and isinstance(fv[1], str) and fv[1].startswith("cb."):
            n = fv[1][3:]
            st.gh["ran"] = st.gh.get("ran", ()) + (n,)
            self.chk(self.P, "no-lock", not st.held, st, c.l, "the callback of a timer runs with a lock held")
            return [(st, NULL)]
        return None

    # ---- operations -----------------------------------------------------------------------------
    def op(self, st, n, op, rival=None):
        f = self.prog.fn("cocpp::co_timer::" + op)
        was, qwas, dwas = self.runs(st, n), self.queued(st), self.deadline(st, n)
        s = st.copy()
        s.gh["notified"] = ()
        s.gh.pop("acted", None)
        s.gh.pop("rival", None)
        if rival:
            s.gh["rival"] = (n, rival)
        now = s.gh["now"]
        self.entry = "%s of a %s timer%s" % (op, {True: "running", False: "stopped"}.get(was, "?"), " while another thread uses it" if rival else "")
        out = []
        for s2, v in self.it.run(s, f, self.t[n][1], []):
            self.rep.paths += 1
            if bad(v):
                self.chk(self.P, "armed-queued", False, s2, f["l"], "%s throws" % op)
                continue
            s2.gh.pop("rival", None)
            self.at_rest(s2, f["l"], "after %s" % op)
            if rival:
                if not s2.gh.get("acted"):
                    continue
            elif op == "start" and was or op == "stop" and not was:
                self.chk(self.P, "no-change", self.runs(s2, n) is was and self.queued(s2) == qwas and s2.eq(self.deadline(s2, n), dwas) is True,
                         s2, f["l"], "%s of a timer that is %s changes it" % (op, "running" if was else "stopped"))
            else:
                want = op != "stop"
                self.chk(self.P, "armed-queued", self.runs(s2, n) is want, s2, f["l"], "the timer is not %s after %s" % ("running" if want else "stopped", op))
                self.chk(self.P, "armed-queued", [x for x in self.queued(s2) if x != n] == [x for x in qwas if x != n], s2, f["l"], "%s changes other timers" % op)
                if want:
                    self.set_right(s2, n, now, f["l"])
                    self.wakes(s2, n, f["l"])
            out.append(s2)
        return out

    def set_right(self, s, n, now, l):
        d = self.deadline(s, n)
        if self.kind[n] == "abs":
            ok = s.eq(d, s.gh[("want", n)]) is True
        else:
            iv = INTERVAL * MS
            # now + iv <= d <= later + iv
            ok = s.le_known(now, d, -iv) is True and s.le_known(d, s.gh["now"], iv) is True
        self.chk(self.P, "deadline", ok, s, l, "the deadline is not the requested one")

    def wakes(self, s, n, l):
        if self.cv is None:
            return
        d = self.deadline(s, n)
        earlier = any(s.le_known(self.deadline(s, m), d, 0) is True for m in self.queued(s) if m != n and m is not None)
        if earlier:
            return
        ok = self.cv in s.gh["notified"] and n in s.gh.get("_queue_at_notify", ())
        self.chk(self.P, "wake", ok, s, l, "the thread that serves timers is not woken for a new earliest timer")

    # ---- serving ---------------------------------------------------------------------------------
    def sleeps(self, it, st, c):
        cv = st.cl(c.this)
        G = it.loc_of(st, c.args[0])
        m = st.mem.get(G + ("@m0",))
        L = st.cl(m[1]) if m is not None and m[0] == "p" else G
        self.cv, self.lock = cv, L
        q = self.queued(st)
        self.chk(self.P, "sleep", st.held == (L,), st, c.l, "sleeps holding %d locks" % len(st.held))
        self.chk(self.P, "once", not any(("took", n) in st.gh for n in self.t), st, c.l, "a timer taken out of service because it expired is not dispatched")
        name = c.q.rsplit("::", 1)[1]
        if name == "wait":
            self.chk(self.P, "sleep", not q, st, c.l, "sleeps without a time limit although a timer is queued")
        elif name == "wait_until":
            d = it.rv(st, c.args[1])
            late = [n for n in q if n is None or st.le_known(d, self.deadline(st, n), 0) is not True]
            self.chk(self.P, "sleep", not late, st, c.l, "sleeps longer than the earliest deadline")

    def k_spawn(self, it, st, c):
        f = [a for a, t in zip(c.args, c.node["pt"]) if "std::function<" in t]
        if not f:
            raise AnalysisBroken("anchor vanished: function of a new coroutine")
        f = to_callable(it, st, f[0])
        s = st.copy()
        s.held = ()
        T = it.new_root("t")
        s.gh["ran"] = ()
        res = it.call_value(s, f, [("loc", T)], c, c.frame)
        names = {s2.gh["ran"] for s2, v in res if not bad(v)}
        if not res or any(bad(v) for s2, v in res) or len(names) != 1 or len(next(iter(names))) != 1:
            self.chk(self.P, "once", False, st, c.l, "the callback of the timer is not called once")
            return [(st, NULL)]
        n = next(iter(names))[0]
        self.dispatched(it, st, n, c)
        # a periodic timer would go on for ever
        return [(st, st.fresh())] if st.gh["count", n] < 2 else []

    def dispatched(self, it, st, n, c):
        acted = st.gh.get("acted")
        st.gh["count", n] = st.gh.get(("count", n), 0) + 1
        dl = st.gh.pop(("took", n), None)
        self.chk(self.P, "once", dl is not None, st, c.l, "a timer is dispatched that was not running and taken out of service before")
        if dl is None:
            return
        self.chk(self.P, "due", dl is not None and st.le_known(dl, st.gh["now"], 0) is True, st, c.l, "a timer is dispatched before its deadline")
        if not acted:
            late = [m for m in self.t if m != n and st.gh[("armed", m)] and st.le_known(dl, st.gh[("dl", m)], 0) is not True]
            self.chk(self.P, "first", not late, st, c.l, "a timer is dispatched although another has an earlier deadline")
        st.gh["_disp"] = n
        self.note(st)
        if acted:
            return
        if self.kind[n] != "loop":
            self.chk(self.P, "once", self.runs(st, n) is False and n not in self.queued(st), st, c.l, "a one-shot timer is still running after its dispatch")
        else:
            d = self.deadline(st, n)
            self.chk(self.P, "rearm", self.runs(st, n) is True and n in self.queued(st), st, c.l, "a periodic timer does not run after its dispatch")
            self.chk(self.P, "rearm", d is not None and st.le_known(dl, d, -INTERVAL * MS) is True, st, c.l,
                     "the next deadline of a periodic timer is not an interval later")

    def serve(self, st, what, rival=None):
        f = self.prog.fn("cocpp::co_manager::timer_routine__")
        s = st.copy()
        s.gh.pop("rival", None)
        s.gh.pop("acted", None)
        self.note(s)
        for n in self.t:
            s.gh.pop(("took", n), None)
        if rival:
            s.gh["rival"] = rival
        self.entry = "serving the queue (%s)" % what
        self.rep.paths += len(self.it.run(s, f, MGR[1], []))


def combos(deep):
    ks = (("abs", "abs"), ("once", "abs"), ("loop", "abs"), ("abs", "loop"), ("loop", "loop"))
    for a, b in ks:
        for order in (("a", "b"), ("b", "a")):
            yield ((("a", a), ("b", b)), order)
    if deep:
        yield ((("a", "once"), ("b", "abs"), ("c", "abs")), ("a", "b", "c"))
        yield ((("a", "loop"), ("b", "abs"), ("c", "abs")), ("c", "b", "a"))


def run_timers(prog, rep):
    deep = rep.tier == "thorough"
    rep.assumptions.append("std::chrono::steady_clock never goes back; a condition variable wakes a waiter when notified or at its time limit.")
    steps = 0
    r = None
    for kinds, order in combos(deep):
        cv = r.cv if r else None
        r = Timers(prog, rep)
        st = r.build(kinds, order)
        r.cv = cv
        if cv is None:
            r.serve(st, "empty")
            if r.cv is None:
                raise AnalysisBroken("the thread that serves timers never sleeps")
        others = [n for n, k in kinds if n != "a"]
        worlds = [st]
        alone = [st]
        for n in others:
            worlds = [s2 for s in worlds for s2 in r.op(s, n, "start")]
        for s0 in worlds + alone:
            what = "%s timer and %s" % (r.kind["a"], "others" if s0 is not st else "no other")
            for s1 in r.op(s0, "a", "start"):
                r.serve(s1, what)
                r.serve(s1, what + ", another thread uses it", ("a", ("stop", "reset")))
                for s2 in r.op(s1, "a", "start"):
                    pass
                for s2 in r.op(s1, "a", "reset"):
                    pass
                r.op(s1, "a", "start", ("stop", "start"))
                r.op(s1, "a", "stop", ("stop", "start"))
                r.op(s1, "a", "reset", ("stop", "start"))
                for s2 in r.op(s1, "a", "stop"):
                    for s3 in r.op(s2, "a", "stop"):
                        for s4 in r.op(s3, "a", "start"):
                            pass
                    r.serve(s2, what + ", stopped")
                    r.op(s2, "a", "start", ("stop", "start"))
        steps += r.it.steps
        rep.use(r.it)
    rep.extra["steps"] = steps
    rep.extra["worlds"] = len(list(combos(deep)))
