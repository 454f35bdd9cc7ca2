"""C04, C05 (and the guard balance of C30): the condition variable.

Every wait and notification is followed along every path.  The internal lock makes
sections atomic: at each acquisition the waiter list is replaced by every list other
coroutines may have left.  The timer of a timed wait is an environment step: its
callback is run at every point at which the waiting coroutine holds no lock, while it
is suspended, and once more after the wait has returned.
"""
from engine.interp import bt, bad, is_seq, Throw
from engine.models import to_callable
from engine.state import State, I, NULL, TRUE, fresh_no
from .kernel import KernelRule, ME, field, is_ctx_ptr
from engine.program import AnalysisBroken

O = ("obj",)
THIS = ("p", O)
U = ("user.lock",)
G = ("user.guard",)
TIMER = ("user.timer",)
CV = "cocpp::co_condition_variable_impl"

RULES = {
    "C04": [
        ("cv-register-first", "a waiter is registered before the lock of the user is released"),
        ("cv-mark-first", "a registered waiter is marked waiting when the internal lock is released"),
        ("cv-suspend", "a waiter suspends holding no lock, marked exactly if registered"),
        ("cv-exit", "every wait returns with the user's lock held and the waiter no longer registered or marked"),
        ("cv-resource", "marks are set and cleared for this condition variable"),
        ("cv-one", "notify_one wakes exactly the longest waiting coroutine, if there is one"),
        ("cv-all", "notify_all wakes every waiter once and empties the list"),
        ("cv-order", "waiters are registered at the end of the list"),
        ("cv-wake-forgets", "a coroutine is taken off the list exactly when it is woken"),
        ("cv-under-lock", "the waiter list is touched only under the internal lock"),
        ("cv-at-exit", "notify_all_at_co_exit notifies all waiters when the current coroutine finishes"),
    ],
    "C05": [
        ("cv-pred-locked", "the predicate is evaluated with the lock held"),
        ("cv-pred-before", "a predicate wait gives up the lock only after the predicate was false"),
        ("cv-pred-true", "a predicate wait returns only after the predicate was true, without giving up the lock in between"),
        ("cv-pred-value", "a timed predicate wait returns the last value of the predicate"),
        ("cv-timeout-true", "a timed wait reports a timeout exactly if its own timer ended it"),
        ("cv-deadline", "the timer of a timed wait does not expire before the deadline"),
        ("cv-timer-ends", "the timer of a timed wait runs while it waits and ends it"),
        ("cv-timer-late", "a timer that runs after its wait has ended changes nothing"),
    ],
    "C30": [
        ("cv-preempt-balance", "preemption is enabled again on every way out of a wait or notification"),
        ("cv-preempt-suspend", "preemption is enabled while a coroutine waits on a condition variable"),
    ],
}


class CvRule(KernelRule):
    primitive_locks = KernelRule.primitive_locks + ("cocpp::co_mutex", "cocpp::co_shared_mutex")

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        prog.rec(CV)
        self.spin = field(prog, CV, "internal lock", lambda f: bt(f["t"]) in ("cocpp::co_spinlock", "std::mutex", "std::recursive_mutex"), "cv_lock__")
        self.list = field(prog, CV, "waiter list", lambda f: is_seq(f["t"]), "waiters__")
        self.S, self.Q = O + (self.spin,), O + (self.list,)
        self.intrinsics.update({
            "cocpp::co_timer::create": self.t_create,
            "cocpp::co_timer::start": self.t_start,
            "cocpp::co_timer::stop": self.t_stop,
            "user_pred::operator()": self.pred,
        })
        self.depth = 0

    # ---- the waiter list --------------------------------------------------------------
    def on_read(self, it, st, L, l, frame):
        if l is not None and L[:2] == self.Q:
            self.chk("C04", "cv-under-lock", st.gh["in"], st, l, "reads the waiter list outside the internal lock")

    def on_write(self, it, st, L, old, new, l, frame):
        if L[:2] != self.Q:
            return
        self.chk("C04", "cv-under-lock", st.gh["in"], st, l, "changes the waiter list outside the internal lock")
        if L != self.Q:
            return
        o, n = (old[1] if old and old[0] == "seq" else ()), new[1]
        for i, x in enumerate(o):
            if x in n:
                continue
            if isinstance(x, tuple):
                st.gh["taken"] = st.gh["taken"] | {root(x[1])}
            else:
                v = it.load(st, self.Q + (x,))
                st.gh["rem"] = st.gh["rem"] + ((v, i == 0),)
        for i, x in enumerate(n):
            if x in o or isinstance(x, tuple):
                continue
            v = it.load(st, self.Q + (x,))
            self.chk("C04", "cv-order", i == len(n) - 1, st, l, "a waiter is not put at the end of the list")
            self.chk("C04", "cv-wake-forgets", st.eq(v, ME) is True and not st.gh["reg"], st, l, "registers something else than the waiting coroutine, or twice")
            st.gh.update(reg=True, regd=True, out=None)

    def on_materialise(self, it, st, L, eid, rid):
        L = st.cl(L)
        if L == self.Q or root(rid) in st.gh["taken"]:
            v = st.fresh()
            st.mem[L + (eid,)] = v
            st.assume_ne(v, NULL)
            st.assume_ne(v, ME)
            for k, w in list(st.mem.items()):
                if len(k) == len(L) + 1 and k[:-1] == L and k[-1] != eid and k[-1][0] == "e":
                    st.assume_ne(v, w)
            for w, _ in st.gh["rem"]:
                st.assume_ne(v, w)
            if L != self.Q:
                st.gh["owed"] = st.gh["owed"] + (v,)
        return [st]

    def on_rest_empty(self, it, st, rid):
        st.gh["taken"] = st.gh["taken"] - {root(rid)}

    # ---- locks -------------------------------------------------------------------------
    def on_acquire(self, it, st, L, c, mode="lock"):
        out = []
        for s in self.timer_step(it, st, c):
            if L == U:
                s.gh.update(u=True, pv=None, regd=False)
                out.append(s)
                continue
            s.held = s.held + (L,)
            if L != self.S:
                out.append(s)
                continue
            for r in ((True, False) if s.gh["reg"] and s.gh["flag"] else (s.gh["reg"],)):
                s2 = s.copy()
                if s.gh["reg"] and not r:
                    s2.gh.update(reg=False, flag=False, out="notified")
                s2.gh.update({"in": True, "rem": (), "woke": ()})
                s2.drop(self.Q)
                e = "e%d" % fresh_no()
                if r:
                    s2.mem[self.Q] = ("seq", (self.rest(), e, self.rest()))
                    s2.mem[self.Q + (e,)] = ME
                else:
                    s2.mem[self.Q] = ("seq", (self.rest(),))
                    s2.gh[("_notin", s2.mem[self.Q][1][0][1])] = (ME,)
                if r:
                    for x in s2.mem[self.Q][1]:
                        if isinstance(x, tuple):
                            s2.gh[("_notin", x[1])] = (ME,)
                out.append(s2)
        return out

    def rest(self):
        return ("R", "q%d" % fresh_no())

    def on_release(self, it, st, L, c):
        if L == U:
            g = st.gh
            self.chk("C04", "cv-exit", g["u"], st, c.l, "releases the user's lock without holding it")
            if g["kind"] != "notify":
                self.chk("C04", "cv-register-first", g["regd"], st, c.l, "releases the user's lock before it is registered as a waiter: a notification in between is lost")
            if g["pred"]:
                self.chk("C05", "cv-pred-before", g["pv"] is False, st, c.l, "gives up the lock although the predicate was not found false")
            g["u"], g["pv"] = False, None
            return [st]
        if L == self.S:
            self.step(it, st, c)
            st.gh["in"] = False
            st.drop(self.Q)
        return super().on_release(it, st, L, c)

    def step(self, it, st, c):
        g = st.gh
        rem = [r[0] for r in g["rem"]]
        woke = list(g["woke"])
        for v in rem:
            if st.eq(v, ME) is True:
                ok = not g["flag"]
                self.chk("C04", "cv-wake-forgets", ok or not self.depth, st, c.l, "takes the waiter off the list without waking it")
                g["reg"] = False
                if self.depth:
                    g["out"] = "timeout"
                continue
            hit = [w for w in woke if st.eq(w, v) is True]
            if hit:
                woke.remove(hit[0])
            else:
                g["owed"] = g["owed"] + (v,)
        self.chk("C04", "cv-wake-forgets", not woke, st, c.l, "wakes a coroutine that stays on the list or was not on it")
        if g["kind"] == "notify":
            items = it.seq(st, self.Q)
            g["sec"] = g["sec"] + 1
            g["nrem"] = g["nrem"] + len(rem)
            g["first"] = g["first"] and all(r[1] for r in g["rem"][:1])
            g["empty"] = items == ()
        if g["reg"]:
            self.chk("C04", "cv-mark-first", g["flag"], st, c.l, "releases the internal lock, registered but not marked as waiting")

    def on_enter_wait(self, it, st, ctx, rc, c):
        self.chk("C04", "cv-resource", st.eq(rc, THIS) is True, st, c.l, "waits for something else than this condition variable")
        self.chk("C04", "cv-resource", st.eq(ctx, ME) is True, st, c.l, "marks another coroutine as waiting")
        st.gh["flag"] = True
        return [st]

    def on_leave_wait(self, it, st, ctx, rc, c):
        g = st.gh
        self.chk("C04", "cv-resource", st.eq(rc, THIS) is True, st, c.l, "wakes for something else than this condition variable")
        if st.eq(ctx, ME) is True:
            if g.get("late"):
                self.chk("C05", "cv-timer-late", False, st, c.l, "a timer of a wait that has ended wakes the coroutine from another wait")
            g["flag"] = False
            return [st]
        if self.depth:
            self.chk("C05", "cv-timeout-true", False, st, c.l, "the timer of a wait wakes another coroutine")
            return [st]
        owed = list(g["owed"])
        hit = [w for w in owed if st.eq(w, ctx) is True]
        if hit:
            owed.remove(hit[0])
            g["owed"] = tuple(owed)
            g["paid"] = g["paid"] + 1
        else:
            self.chk("C04", "cv-wake-forgets", g["in"], st, c.l, "wakes a coroutine that was not taken off the list")
            self.chk("C04", "cv-one" if g["one"] else "cv-all", not any(st.eq(w, ctx) is True for w in g["woke"]), st, c.l, "wakes a waiter twice")
            g["woke"] = g["woke"] + (ctx,)
            g["paid"] = g["paid"] + 1
        return [st]

    # ---- suspension ------------------------------------------------------------------------
    def on_suspend(self, it, st, c):
        g = st.gh
        if g["kind"] == "notify":
            self.chk("C04", "cv-suspend", False, st, c.l, "a notification suspends")
            return [st]
        self.chk("C04", "cv-suspend", not st.held, st, c.l, "suspends while holding a lock of the condition variable")
        self.chk("C04", "cv-suspend", not g["u"], st, c.l, "suspends while holding the user's lock")
        self.chk("C30", "cv-preempt-suspend", g["pre"] == 0, st, c.l, "suspended with preemption disabled")
        done = g["out"] is not None
        if not done:
            self.chk("C04", "cv-suspend", g["reg"] and g["flag"], st, c.l,
                     "suspends %s" % ("registered but not marked" if g["reg"] else "without being registered"))
        if g["timed"] and not done:
            self.chk("C05", "cv-timer-ends", g["tm"] == "armed", st, c.l,
                     "suspends in a timed wait whose timer %s" % ("has run already" if g["tm"] == "done" else "is not running"))
        if done:
            return [st]
        out = []
        s = st.copy()
        s.gh.update(reg=False, flag=False, out="notified")
        out.append(s)
        if g["tm"] == "armed":
            for s in self.fire(it, st, c):
                self.chk("C05", "cv-timer-ends", s.gh["out"] is not None and not s.gh["flag"], s, c.l, "an expired timer does not end the wait")
                if s.gh["out"] is not None and not s.gh["flag"]:
                    out.append(s)
        return out

    # ---- timer -------------------------------------------------------------------------------
    def t_create(self, it, st, c):
        if st.gh["tm"] == "armed":
            self.late(it, st.copy(), c, c.l)
        st.gh["cb"] = to_callable(it, st, c.args[0])
        st.gh["tm"] = "made"
        dl, dur = None, None
        for a, t in zip(c.args[1:], c.node["pt"][1:]):
            if "time_point" in t:
                dl = it.rv(st, a)
            elif "duration" in t:
                dur = it.rv(st, a)
        want = st.gh.get("abs")
        if want is None and st.gh.get("dur") is not None:
            ns = st.gh.get("nows", ())
            if dl is not None:
                ok = any(st.le_known(add(it, st, n, st.gh["dur"]), dl) is True for n in ns)
            else:
                ok = dur is not None and st.le_known(st.gh["dur"], dur) is True
        else:
            ok = dl is not None and want is not None and st.le_known(want, dl) is True
        self.chk("C05", "cv-deadline", ok, st, c.l, "the timer may expire before the deadline of the wait")
        return [(st, ("p", TIMER))]

    def t_start(self, it, st, c):
        if st.gh["tm"] == "made":
            st.gh["tm"] = "armed"
        return [(s, NULL) for s in self.timer_step(it, st, c)]

    def t_stop(self, it, st, c):
        return [(s, NULL) for s in self.timer_step(it, st, c)]

    def timer_step(self, it, st, c):
        """the timer may expire here"""
        if st.gh["tm"] != "armed" or self.depth or st.held:
            return [st]
        s = st.copy()
        return [st] + self.fire(it, s, c)

    def fire(self, it, st, c):
        st.gh["tm"] = "done"
        st.ev("timer-expires", c.l)
        self.depth += 1
        saved = st.gh["u"], st.gh["pv"], st.gh["pre"]
        st.gh["rem"], st.gh["woke"] = (), ()
        out = []
        try:
            for s, v in it.call_value(st, s_cb(st), [], c, c.frame):
                self.chk("C05", "cv-timer-ends", not bad(v), s, c.l, "the timer callback throws")
                self.chk("C04", "cv-exit", not s.held, s, c.l, "the timer callback ends holding a lock")
                s.gh["u"], s.gh["pv"], s.gh["pre"] = saved
                s.ev("timer-done")
                out.append(s)
        finally:
            self.depth -= 1
        return out

    def late(self, it, st, c, where):
        """the timer runs when its wait has ended and the coroutine waits again"""
        st.gh.update({"late": True, "reg": True, "flag": True, "out": None, "u": True})
        for s in self.fire(it, st, c):
            self.chk("C05", "cv-timer-late", s.gh["out"] != "timeout", s, where, "a timer of a wait that has ended takes the coroutine out of another wait")

    def on_event(self, it, st, kind, *a):
        if kind == "now":
            st.gh["nows"] = st.gh.get("nows", ()) + (a[0],)

    def pred(self, it, st, c):
        g = st.gh
        self.chk("C05", "cv-pred-locked", g["u"], st, c.l, "the predicate is evaluated without the lock")
        out = []
        for b in (True, False):
            if g["pv"] is not None and g["pv"] != b:
                continue        # nothing the predicate depends on can change while the lock is held
            s = st.copy()
            s.gh["pv"] = b
            out.append((s, I(int(b))))
        return out

    # ---- entries -----------------------------------------------------------------------------
    def start(self, kind, timed=False, pred=False, one=False):
        st = State()
        st.typ[O] = CV
        st.gh.update({"kind": kind, "timed": timed, "pred": pred, "one": one, "reg": False, "regd": False, "flag": False, "in": False, "u": kind == "wait",
                      "pv": None, "out": None, "tm": None, "cb": NULL, "pre": 0, "sch": 0, "rem": (), "woke": (), "owed": (), "paid": 0,
                      "taken": frozenset(), "sec": 0, "nrem": 0, "first": True, "empty": False})
        return st

    def run(self, fn, st, args):
        self.entry = fn["q"] + "/%d" % len(fn["p"])
        it = self.interp()
        res = it.run(st, fn, O, args)
        self.rep.use(it)
        self.rep.paths += len(res)
        return it, res

    def common(self, s, fn):
        self.chk("C04", "cv-exit", not s.held, s, fn["l"], "ends with an internal lock held")
        self.chk("C30", "cv-preempt-balance", s.gh["pre"] == 0 and s.gh["sch"] == 0, s, fn["l"], "ends with a preemption count of %+d" % s.gh["pre"])

    def wait_entry(self, fn, durs):
        ps = fn["p"]
        lt = bt(ps[0]["t"])
        timed = any("chrono" in p["t"] for p in ps)
        pred = any(bt(p["t"]).endswith("user_pred") for p in ps)
        for d in (durs if timed and "wait_for" in fn["q"] else (None,)):
            st = self.start("wait", timed, pred)
            st.typ[G] = lt
            st.typ[U] = "cocpp::co_mutex"
            st.mem[G + ("@own",)] = I(1)
            st.mem[G + ("@m0",)] = ("p", U)
            args = []
            for p in ps:
                t = bt(p["t"])
                if t == lt:
                    args.append(("loc", G))
                elif "time_point" in t:
                    st.gh["abs"] = st.fresh(lo=0)
                    st.mem[("user.abs",)] = st.gh["abs"]
                    args.append(("loc", ("user.abs",)))
                elif "duration" in t:
                    st.gh["dur"] = I(d)
                    st.mem[("user.dur",)] = I(d)
                    args.append(("loc", ("user.dur",)))
                else:
                    st.typ[("user.pred",)] = "user_pred"
                    args.append(("loc", ("user.pred",)))
            it, res = self.run(fn, st, args)
            n = {"ok": 0, "to": 0}
            for s, v in res:
                if bad(v):
                    self.chk("C04", "cv-exit", False, s, fn["l"], "a wait ends by an exception")
                    continue
                self.common(s, fn)
                g = s.gh
                self.chk("C04", "cv-exit", g["u"], s, fn["l"], "returns without the user's lock")
                self.chk("C04", "cv-exit", not g["reg"] and not g["flag"], s, fn["l"], "returns still registered or marked as waiting")
                own = s.mem.get(G + ("@own",))
                self.chk("C04", "cv-exit", own == I(1), s, fn["l"], "returns with a guard that does not own its lock")
                if not pred and not g["out"]:
                    self.chk("C04", "cv-suspend", False, s, fn["l"], "returns without having waited")
                if timed:
                    for s2, b in it.split_true(s, it.rv(s, v)):
                        if pred:
                            self.chk("C05", "cv-pred-value", s2.gh["pv"] is not None and s2.gh["pv"] == b, s2, fn["l"],
                                     "returns %s although the predicate was %s" % (b, s2.gh["pv"]))
                        else:
                            self.chk("C05", "cv-timeout-true", b == (s2.gh["out"] == "notified"), s2, fn["l"],
                                     "reports %s although the wait was ended by %s" % ("a notification" if b else "a timeout", s2.gh["out"]))
                        n["ok" if b else "to"] += 1
                elif pred:
                    self.chk("C05", "cv-pred-true", g["pv"] is True, s, fn["l"], "returns although the predicate was not found true")
                # the timer may still run: the coroutine may be in another wait by then
                if g["tm"] == "armed":
                    self.late(it, s, late_call(fn), fn["l"])
            if timed:
                self.chk("C05", "cv-pred-value" if pred else "cv-timeout-true", n["ok"] and n["to"], None, fn["l"],
                         "a timed wait can never report %s" % ("success" if not n["ok"] else "a timeout"))

    def verify(self):
        p = self.prog
        waits = p.fns(CV + "::wait") + p.fns(CV + "::wait_for") + p.fns(CV + "::wait_until")
        if len(waits) < 6:
            raise AnalysisBroken("anchor vanished: waits of the condition variable")
        for f in waits:
            if any("(lambda" in x["t"] or x["t"].startswith("L(") or "::(lambda" in x["t"] for x in f["p"]):
                continue        # waits of other library code, the same template
            self.wait_entry(f, (0, 1, 10_000_000))
        for one in (True, False):
            f = p.fn(CV + ("::notify_one" if one else "::notify_all"))
            rid = "cv-one" if one else "cv-all"
            st = self.start("notify", one=one)
            it, res = self.run(f, st, [])
            woke = False
            for s, v in res:
                self.common(s, f)
                g = s.gh
                self.chk("C04", rid, not bad(v), s, f["l"], "a notification throws")
                self.chk("C04", "cv-wake-forgets", not g["owed"] and not g["taken"], s, f["l"], "takes waiters off the list without waking them")
                if one:
                    ok = g["nrem"] == 1 and g["first"] and g["paid"] == 1 or g["nrem"] == 0 and g["paid"] == 0 and g["empty"]
                    self.chk("C04", rid, ok, s, f["l"], "wakes %d coroutines, %staking the first waiter" % (g["paid"], "" if g["first"] else "not "))
                else:
                    self.chk("C04", rid, g["empty"], s, f["l"], "leaves waiters on the list")
                woke = woke or g["paid"] > 0
            self.chk("C04", rid, woke, None, f["l"], "never wakes anybody")
        self.at_exit_fn()

    def at_exit_fn(self):
        """notify_all_at_co_exit: what is subscribed to the end of the current coroutine notifies this object"""
        p = self.prog
        f = p.fn("cocpp::notify_all_at_co_exit")
        self.entry = f["q"]
        subs = []

        def sub(it, st, c):
            st.gh["sub"] = st.gh.get("sub", ()) + ((st.cl(c.this), to_callable(it, st, c.args[0])),)
            return [(st, I(1))]

        def note(it, st, c):
            st.gh["note"] = st.gh.get("note", ()) + (st.cl(c.this),)
            return [(st, NULL)]
        keep = dict(self.intrinsics)
        self.intrinsics.update({"cocpp::co_event::sub": sub, CV + "::notify_all": note, CV + "::notify_one": lambda it, st, c: [(st, NULL)]})
        # only the event of the current coroutine counts
        it = self.interp()
        st = self.start("notify")
        st.typ[ME[1]] = "cocpp::co_ctx"
        fin = p.fn("cocpp::co_ctx::finished")
        (s0, fv), = it.run(st.copy(), fin, ME[1], [])
        want = it.loc_of(s0, fv)
        for s, v in it.run(st, f, None, [("loc", O)]):
            self.common(s, f)
            ss = [x for x in s.gh.get("sub", ()) if x[0] == want]
            ok = len(ss) == 1
            self.chk("C04", "cv-at-exit", ok, s, f["l"], "does not subscribe to the end of the current coroutine")
            if not ok:
                continue
            for s2, v2 in it.call_value(s.copy(), ss[0][1], [], late_call(f), None):
                self.chk("C04", "cv-at-exit", s2.gh.get("note", ()) == (O,) and not bad(v2), s2, f["l"], "the end of the coroutine does not notify all waiters")
        self.rep.use(it)
        self.intrinsics = keep


def late_call(fn):
    from engine.interp import Call
    return Call({"k": "Call", "q": "timer", "l": fn["l"], "t": "void", "pt": []}, None, [], None)


def s_cb(st):
    return st.gh["cb"]


def root(rid):
    return rid.rstrip("'")


def add(it, st, a, b):
    return it.arith(st, "+", a, b, "long")


def run_cv(prog, rep):
    CvRule(prog, rep).verify()
