"""C12, C13: waiting for a coroutine, and the handle that owns it.

A wait is followed along every path.  The coroutine waited for is part of the
environment: it may finish at every point at which the waiter does not hold the lock
under which it finishes, and it then runs every callback subscribed to its end.  The
timer of a timed wait may expire at every point after it was started, once, and also
after the wait has returned.
"""
from engine.interp import bt, bad, Throw, Abort, Call
from engine.models import to_callable
from engine.program import AnalysisBroken
from engine.state import State, I, NULL, TRUE, FALSE, fresh_no
from .kernel import KernelRule, ME, ENV, MGR, const, field, is_ctx_ptr

T = ("ctx.target",)
H = ("handle",)
TIMER = ("o.timer",)
CTX = "cocpp::co_ctx"
CO = "cocpp::co"

RULES = {
    "C12": [
        ("finish-once", "the entry function of a coroutine is called exactly once, with the place of its result"),
        ("finish-exception", "an exception that leaves the entry function is kept for the waiters"),
        ("finish-order", "a coroutine is marked finished after its entry function ended and its outcome is stored"),
        ("finish-publish", "the end of a coroutine is published exactly once, after it is marked finished"),
        ("finish-leave", "a finished coroutine gives up the processor holding no lock"),
        ("wait-done", "a wait returns an outcome only after the coroutine finished"),
        ("wait-missed", "a waiter suspends only if the end of the coroutine will still wake it"),
        ("wait-suspend", "a waiter suspends holding no lock that the finishing coroutine needs"),
        ("wait-value", "a wait delivers the value the coroutine returned and leaves it in place"),
        ("wait-exception", "a pending exception is rethrown once, and nothing else is thrown"),
        ("wait-exception-locked", "a pending exception is looked for and taken out under one lock of the coroutine"),
        ("wait-outcome-after", "the outcome of a coroutine is read only after it finished"),
        ("wait-empty", "a timed wait returns empty exactly if its timer expired and the coroutine has not finished"),
        ("wait-timer", "a timed wait suspends only with its timer running, and an expired timer ends it"),
        ("wait-deadline", "the timer of a timed wait expires at the deadline, not before"),
        ("wait-late", "callbacks that run after the wait has returned touch neither waiter nor coroutine"),
        ("wait-priority", "every way out of a wait restores the priority of the waiter"),
        ("wait-self", "waiting for itself throws without suspending or keeping a lock"),
        ("wait-guards", "locks and guards are released on every way out of a wait"),
    ],
    "C13": [
        ("own-before-run", "a coroutine made for a handle is kept before it is added to an environment"),
        ("own-create", "a handle is built from a coroutine created to be kept, and refers to it"),
        ("own-entry", "the coroutine calls the function of the user once and stores its result"),
        ("own-give-up", "a handle gives its coroutine up exactly when joined, detached, overwritten or destroyed, once"),
        ("own-join-first", "joining, assigning to or destroying a handle waits before it gives the coroutine up"),
        ("own-move", "moving transfers the coroutine and leaves the source empty"),
        ("own-after", "a coroutine that was given up is not used any more"),
        ("own-empty", "waiting for, joining, detaching, assigning to or destroying an empty handle touches no coroutine"),
        ("own-copy", "handles cannot be copied"),
    ],
}


def fld(prog, what, pred, name):
    return field(prog, CTX, what, pred, name)


def call(l, q="step"):
    return Call({"k": "Call", "q": q, "l": l, "t": "void", "pt": []}, None, [], None)


class FinishRule(KernelRule):
    """the life of a coroutine from its entry to its last switch"""
    P = "C12"

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.F = None       # locks held when a coroutine becomes finished
        self.fin = const(prog, "ctx_finished")
        self.ret = fld(prog, "result", lambda f: bt(f["t"]) == "cocpp::co_any", "ret__")
        self.exc = fld(prog, "exception", lambda f: "exception_ptr" in f["t"], "exception__")
        self.intrinsics.update({
            "cocpp::co_state_manager::set_state": self.k_set,
            "cocpp::co_state_manager::state": self.k_state,
            "cocpp::co_event::pub": self.k_pub,
        })
        self.locks = set()

    def k_state(self, it, st, c):
        if st.cl(c.this)[:1] != ME[1]:
            return NotImplemented
        return [(st, I(self.fin) if st.gh["fin"] else I(const(self.prog, "ctx_running")))]

    def k_set(self, it, st, c):
        if st.cl(c.this)[:1] != ME[1]:
            return NotImplemented
        out = []
        for s, b in it.split_eq(st, it.rv(st, c.args[0]), I(self.fin)):
            if b:
                g = s.gh
                self.chk(self.P, "finish-order", g["ent"] == 1, s, c.l, "becomes finished before the entry function ended")
                self.chk(self.P, "finish-order", not g["thrown"] or s.eq(it.load(s, ME[1] + (self.exc,)), NULL) is False, s, c.l,
                         "becomes finished before the exception is kept")
                if not g["fin"]:
                    self.locks.add(frozenset(x for x in s.held if x[:1] == ME[1]))
                g["fin"] = True
            out.append((s, NULL))
        return out

    def k_pub(self, it, st, c):
        if st.cl(c.this)[:1] != ME[1]:
            return NotImplemented
        g = st.gh
        self.chk(self.P, "finish-publish", g["fin"], st, c.l, "publishes the end before the coroutine is finished: a waiter that comes now is never woken")
        g["pub"] += 1
        return [(st, NULL)]

    def on_callback(self, it, st, fv, args, c):
        g = st.gh
        g["ent"] += 1
        self.chk(self.P, "finish-once", g["ent"] == 1, st, c.l, "calls the entry function again")
        self.chk(self.P, "finish-once", len(args) == 1 and it.loc_of(st, args[0]) == ME[1] + (self.ret,), st, c.l, "the result goes somewhere else")
        self.chk(self.P, "finish-once", not g["fin"], st, c.l, "calls the entry function after the coroutine is finished")
        s2 = st.copy()
        s2.gh["thrown"] = True
        return [(st, NULL), (s2, Throw("user", ("str", "exception of the user"), c.l))]

    def on_write(self, it, st, L, old, new, l, frame):
        if st.gh.get("fin") and L[:2] == ME[1] + (self.exc,):
            self.chk(self.P, "finish-order", False, st, l, "stores the exception after the coroutine is finished")

    def on_suspend(self, it, st, c):
        g = st.gh
        self.chk(self.P, "finish-leave", g["fin"] and g["pub"] == 1 and g["ent"] == 1, st, c.l, "gives up the processor before its end is published")
        self.chk(self.P, "finish-publish", g["pub"] == 1, st, c.l, "the end is published %d times" % g["pub"])
        self.chk(self.P, "finish-leave", not st.held and g["sch"] == 0, st, c.l, "gives up the processor holding a lock")
        self.chk(self.P, "finish-exception", (st.eq(it.load(st, ME[1] + (self.exc,)), NULL) is False) == g["thrown"], st, c.l,
                 "the exception of the entry function is lost" if g["thrown"] else "an exception is kept although none was thrown")
        g["left"] += 1
        return [st]

    def verify(self):
        p = self.prog
        f = p.fn("cocpp::co_ctx::real_entry")
        self.entry = f["q"]
        st = State()
        st.typ[ME[1]] = CTX
        st.gh.update(ent=0, thrown=False, fin=False, pub=0, left=0, pre=0, sch=0)
        st.mem[ME[1] + (self.exc,)] = NULL
        e = fld(p, "entry", lambda x: bt(x["t"]).startswith("std::function<"), "entry__")
        v = st.fresh()
        st.assume_ne(v, NULL)
        st.mem[ME[1] + (e,)] = v
        it = self.interp()
        seen = set()
        for s, v in it.run(st, f, None, [ME]):
            self.chk(self.P, "finish-leave", not bad(v) and s.gh["left"] == 1, s, f["l"],
                     "an exception leaves the coroutine" if bad(v) else "ends without giving up the processor")
            seen.add(s.gh["thrown"])
            self.rep.paths += 1
        self.chk(self.P, "finish-exception", len(seen) == 2, None, f["l"], "no path for an entry function that %s" % ("returns" if True in seen else "throws"))
        self.rep.use(it)
        return frozenset.intersection(*self.locks) if self.locks else frozenset()


class WaitRule(KernelRule):
    P = "C12"

    def __init__(self, prog, rep, flocks):
        super().__init__(prog, rep)
        self.flocks = {T + L[1:] for L in flocks}
        self.fin = const(prog, "ctx_finished")
        self.ret = fld(prog, "result", lambda f: bt(f["t"]) == "cocpp::co_any", "ret__")
        self.exc = fld(prog, "exception", lambda f: "exception_ptr" in f["t"], "exception__")
        self.hctx = field(prog, CO, "coroutine", lambda f: is_ctx_ptr(f["t"]))
        self.cur = field(prog, "cocpp::co_env", "current coroutine", lambda f: bt(f["t"]) == "std::atomic<cocpp::co_ctx *>", "curr_ctx__")
        self.depth = 0
        self.intrinsics.update({
            "cocpp::co_state_manager::state": self.k_state,
            "cocpp::co_event::sub": self.k_sub,
            "cocpp::co_event::unsub": self.k_unsub,
            "cocpp::co_event::pub": self.k_pub,
            "cocpp::co_ctx::priority": self.k_prio,
            "cocpp::co_ctx::set_priority": self.k_setprio,
            "cocpp::co_timer::create": self.t_create,
            "cocpp::co_timer::set_expire_callback": self.t_cb,
            "cocpp::co_timer::start": self.t_start,
            "cocpp::co_timer::stop": self.t_stop,
            "cocpp::co_timer::reset": self.t_start,
            "std::chrono::steady_clock::now": self.k_now,
        })

    # ---- the coroutine waited for ---------------------------------------------------------
    def steps(self, it, st, c):
        """everything the environment may do here"""
        if self.depth:
            return [st]
        out, todo, seen = [], [st], set()
        while todo:
            s = todo.pop()
            k = s.key() if hasattr(s, "key") else None
            if k in seen:
                continue
            seen.add(k)
            out.append(s)
            todo += self.next(it, s, c)
        return out

    def next(self, it, st, c):
        g = st.gh
        out = []
        if g["fin"] == "no" and not (self.flocks & set(st.held)) and g["who"] == "other":
            s = st.copy()
            s.gh["fin"] = "set"
            s.ev("coroutine-finishes", c.l)
            out.append(s)
        elif g["fin"] == "set":
            s = st.copy()
            s.gh["fin"] = "pub"
            s.ev("end-published", c.l)
            out += self.published(it, s, c)
        if g["tm"] == "armed":
            s = st.copy()
            out += self.fire(it, s, c)
        return out

    def published(self, it, st, c):
        states = [st]
        for h, cb in st.gh["subs"]:
            nxt = []
            for s in states:
                nxt += self.callback(it, s, cb, c, "end-callback")
            states = nxt
        return states

    def callback(self, it, st, cb, c, what):
        if cb == NULL:
            return [st]
        self.depth += 1
        saved = st.gh["pre"], st.gh["sch"], st.held
        st.held = ()
        out = []
        try:
            for s, v in it.call_value(st, cb, [], c, c.frame):
                self.chk(self.P, "wait-missed", not bad(v), s, c.l, "the callback throws")
                self.chk(self.P, "wait-guards", not s.held, s, c.l, "the callback ends holding a lock")
                s.gh["pre"], s.gh["sch"], s.held = saved
                s.ev(what + "-done")
                out.append(s)
        finally:
            self.depth -= 1
        return out

    def fire(self, it, st, c):
        st.gh["tm"] = "done"
        st.gh["fired"] = True
        st.ev("timer-expires", c.l)
        out = self.callback(it, st, st.gh["cb"], c, "timer")
        return out

    def mine(self, st, L):
        return st.cl(L)[:1] == T

    def k_state(self, it, st, c):
        if not self.mine(st, c.this):
            return NotImplemented
        out = []
        for s in self.steps(it, st, c):
            if not self.depth:
                s.gh["seen"] = s.gh["fin"] != "no"
            if s.gh["fin"] != "no":
                out.append((s, I(self.fin)))
            else:
                v = s.fresh(lo=0)
                s.assume_ne(v, I(self.fin))
                out.append((s, v))
        return out

    def k_sub(self, it, st, c):
        if st.cl(c.this) != self.event:
            return NotImplemented
        cb = to_callable(it, st, c.args[0])
        out = []
        for s in self.steps(it, st, c):
            n = s.gh["nsub"] = s.gh["nsub"] + 1
            h = I(1000 + n)
            s.gh["subs"] = s.gh["subs"] + ((h, cb),)
            out += [(x, h) for x in self.steps(it, s, c)]
        return out

    def k_unsub(self, it, st, c):
        if st.cl(c.this) != self.event:
            return NotImplemented
        self.alive(st, c, "the coroutine waited for")
        h = it.rv(st, c.args[0])
        st.gh["subs"] = tuple(x for x in st.gh["subs"] if st.eq(x[0], h) is not True)
        return [(st, NULL)]

    def k_pub(self, it, st, c):
        if self.mine(st, c.this):
            self.chk(self.P, "wait-missed", False, st, c.l, "publishes the end of the coroutine it waits for")
        return [(st, NULL)]

    def alive(self, st, c, what):
        if st.gh["late"]:
            self.chk(self.P, "wait-late", False, st, c.l, "%s is used after the wait has returned: it may be gone" % what)

    # ---- locks -------------------------------------------------------------------------------
    def on_acquire(self, it, st, L, c, mode="lock"):
        if st.gh["late"] and L[:1] in (T, ME[1], ENV[1]):
            self.alive(st, c, "a lock of waiter or coroutine")
        out = []
        for s in self.steps(it, st, c):
            out += super().on_acquire(it, s, L, c, mode)
        return out

    def on_release(self, it, st, L, c):
        out = []
        for s in super().on_release(it, st, L, c):
            out += self.steps(it, s, c)
        return out

    # ---- marks -------------------------------------------------------------------------------
    def on_enter_wait(self, it, st, ctx, rc, c):
        self.alive(st, c, "the waiter")
        if st.eq(ctx, ME) is not True:
            self.chk(self.P, "wait-missed", False, st, c.l, "marks another coroutine as waiting")
            return [st]
        st.gh["marks"] = tuple(m for m in st.gh["marks"] if st.eq(m, rc) is not True) + (rc,)
        return self.steps(it, st, c)

    def on_leave_wait(self, it, st, ctx, rc, c):
        if st.eq(ctx, ME) is not True:
            return [st]
        self.alive(st, c, "the waiter")
        st.gh["marks"] = tuple(m for m in st.gh["marks"] if st.eq(m, rc) is not True)
        return [st]

    def on_suspend(self, it, st, c):
        g = st.gh
        self.chk(self.P, "wait-suspend", not any(x[:1] == T for x in st.held) and g["sch"] == 0 and not st.held, st, c.l, "suspends holding a lock")
        self.chk(self.P, "wait-self", g["who"] != "self", st, c.l, "suspends waiting for itself")
        g["slept"] = True
        out, todo = [], [st]
        while todo:
            s = todo.pop()
            g = s.gh
            if not g["marks"]:
                out.append(s)
                continue
            if g["who"] == "self":
                continue
            if g["timed"]:
                self.chk(self.P, "wait-timer", g["tm"] == "armed" or g["fin"] == "set" and bool(g["subs"]), s, c.l,
                         "the timer expired without ending the wait" if g["tm"] == "done" else "suspends in a timed wait whose timer does not run")
            n = self.next(it, s, c)
            if g["fin"] == "pub":
                self.chk(self.P, "wait-missed", bool(n), s, c.l, "suspended although the coroutine has finished already: nothing wakes the waiter")
            elif g["fin"] == "no" and not n:
                self.chk(self.P, "wait-suspend", False, s, c.l, "the coroutine waited for cannot finish")
            todo += n
        return out

    # ---- outcome -------------------------------------------------------------------------------
    def on_read(self, it, st, L, l, frame):
        if l is not None and (L[:2] == T + (self.ret,) or L[:2] == T + (self.exc,)) and st.gh.get("live"):
            self.chk(self.P, "wait-outcome-after", st.gh["fin"] != "no", st, l, "reads the outcome before the coroutine has finished")
        if l is not None and L[:2] == T + (self.exc,) and st.gh.get("live"):
            self.chk(self.P, "wait-exception-locked", any(x[:1] == T for x in st.held), st, l,
                     "looks for the exception without a lock of the coroutine: two waiters may both get it")

    def on_write(self, it, st, L, old, new, l, frame):
        if not st.gh.get("live"):
            return
        if L[:2] == T + (self.ret,):
            self.chk(self.P, "wait-value", old is not None and st.eq(old, new) is True, st, l, "changes the stored value: other waiters do not get it")
        if L[:2] == T + (self.exc,):
            self.chk(self.P, "wait-exception-locked", any(x[:1] == T for x in st.held), st, l,
                     "takes the exception without a lock of the coroutine: two waiters may both get it")

    def on_event(self, it, st, kind, *a):
        if kind == "dynamic-cast":
            st.gh["cast"] = a[0]

    def lazy(self, it, st, L, t):
        if L == ENV[1] + (self.cur,):
            return ME
        return None

    # ---- priority --------------------------------------------------------------------------------
    def k_prio(self, it, st, c):
        L = st.cl(c.this)
        if L == ME[1]:
            return [(st, st.gh["prio"])]
        if L == T:
            return [(st, st.gh["tprio"])]
        return [(st, st.fresh(lo=0))]

    def k_setprio(self, it, st, c):
        L = st.cl(c.this)
        if L == ME[1]:
            st.gh["prio"] = it.rv(st, c.args[0])
        elif L == T:
            self.chk(self.P, "wait-priority", False, st, c.l, "changes the priority of the coroutine waited for")
        return [(st, NULL)]

    # ---- timer ---------------------------------------------------------------------------------
    def k_now(self, it, st, c):
        st.gh["clock"] += 1000
        return [(st, I(st.gh["clock"]))]

    def t_create(self, it, st, c):
        g = st.gh
        g["cb"] = to_callable(it, st, c.args[0])
        g["tm"] = "made"
        dl = None
        for a, t in zip(c.args[1:], c.node["pt"][1:]):
            v = it.rv(st, a)
            if "time_point" in t:
                dl = v[1] if v[0] == "i" else None
            elif "unsigned long" in bt(t):
                dl = g["clock"] + v[1] * 1_000_000 if v[0] == "i" else None
        want = g["deadline"]
        if want is not None:
            self.chk(self.P, "wait-deadline", dl is not None and dl >= want, st, c.l, "the timer may expire %s ns before the deadline" % (want - dl if dl is not None else "some"))
            self.chk(self.P, "wait-deadline", dl is not None and dl <= want + 20_000_000, st, c.l, "the timer expires long after the deadline")
        else:
            self.chk(self.P, "wait-timer", False, st, c.l, "a wait without a timeout uses a timer")
        return [(st, ("p", TIMER))]

    def t_cb(self, it, st, c):
        old = st.gh["cb"]
        st.gh["cb"] = to_callable(it, st, c.args[0])
        return [(st, old)]

    def t_start(self, it, st, c):
        if st.gh["tm"] in ("made", "done"):
            st.gh["tm"] = "armed"
        return [(s, NULL) for s in self.steps(it, st, c)]

    def t_stop(self, it, st, c):
        # a callback that was dispatched already still runs: stopping is no guarantee
        return [(s, NULL) for s in self.steps(it, st, c)]

    # ---- entries ----------------------------------------------------------------------------------
    def start(self, who, timed, exc):
        st = State()
        st.typ[T] = CTX
        st.typ[ME[1]] = CTX
        st.typ[ENV[1]] = "cocpp::co_env"
        st.typ[H] = CO
        st.gh.update({"live": False, "who": who, "timed": timed, "fin": "no", "subs": (), "nsub": 0, "marks": (), "tm": None, "cb": NULL, "fired": False,
                      "pre": 0, "sch": 0, "late": False, "clock": 10**15, "deadline": None, "slept": False, "cast": None})
        p0 = st.gh["prio"] = st.fresh(lo=0)
        st.gh["tprio"] = st.fresh(lo=0)
        E = NULL
        if exc:
            E = st.fresh()
            st.assume_ne(E, NULL)
        tgt = ME if who == "self" else ("p", T)
        tl = tgt[1]
        st.mem[tl + (self.exc,)] = E
        # the result: one shared pointer, whatever it holds
        data = field(self.prog, "cocpp::co_any", "value", lambda f: True)
        D = st.fresh()
        st.mem[T + (self.ret, data)] = D
        st.mem[H + (self.hctx,)] = tgt
        return st, p0, E, D, data

    def result_data(self, it, s, v, t, data):
        """the value cell of what a wait returned, or None"""
        L = it.loc_of(s, v)
        rv = field(self.prog, "cocpp::co_return_value", "value", lambda f: True)
        return s.mem.get(s.cl(L + (rv, data)))

    def outcome(self, it, s, fn, E, D, got):
        self.chk(self.P, "wait-done", s.gh["fin"] != "no", s, fn["l"], "returns an outcome although the coroutine has not finished")
        if got is not None:
            self.chk(self.P, "wait-value", s.eq(got, D) is True, s, fn["l"], "returns something else than the value of the coroutine")
        self.chk(self.P, "wait-exception", E == NULL or s.gh.get("taken"), s, fn["l"], "returns although the coroutine threw and nobody was told")

    def one(self, fn, who, timed, exc, args, kind, deadline=None, this=H):
        self.entry = fn["q"] + "/%d" % len(fn["p"])
        st, p0, E, D, data = self.start(who, timed, exc)
        for k, v in args:
            if v is not None:
                st.mem[k] = v
        st.gh["deadline"] = deadline
        it = self.interp()
        # where the end of the coroutine is published
        (s0, fv), = it.run(st.copy(), self.prog.fn("cocpp::co_ctx::finished"), T, [])
        self.event = it.loc_of(s0, fv)
        st.gh["live"] = True
        al = [("loc", k) for k, _ in args]
        if this is ENV:
            al = [("p", T) if who != "self" else ME] + al
        res = it.run(st, fn, this if this is not ENV else ENV[1], al)
        self.rep.use(it)
        self.rep.paths += len(res)
        kinds = set()
        for s, v in res:
            g = s.gh
            self.chk(self.P, "wait-guards", not s.held and g["pre"] == 0 and g["sch"] == 0, s, fn["l"],
                     "ends holding %s" % (", ".join(str(x[-1]) for x in s.held) or "a guard of preemption or scheduling"))
            self.chk(self.P, "wait-priority", s.eq(g["prio"], p0) is True, s, fn["l"], "ends with another priority than the waiter had")
            self.chk(self.P, "wait-suspend", not g["marks"], s, fn["l"], "ends still marked as waiting") if who != "self" else None
            if who == "self":
                self.chk(self.P, "wait-self", bad(v) and not g["slept"] and not g["marks"], s, fn["l"], "returns from waiting for itself")
                continue
            if bad(v):
                ok = isinstance(v, Throw) and E != NULL and v.v is not None and s.eq(v.v, E) is True
                if isinstance(v, Throw) and v.t == "std::bad_cast" and kind == "conv":
                    kinds.add("cast")
                    self.chk(self.P, "wait-done", g["fin"] != "no", s, fn["l"], "ends before the coroutine has finished")
                    continue
                self.chk(self.P, "wait-exception", ok, s, fn["l"], "throws something else than the exception of the coroutine")
                self.chk(self.P, "wait-done", g["fin"] != "no", s, fn["l"], "throws before the coroutine has finished")
                left = it.load(s, T + (self.exc,))
                self.chk(self.P, "wait-exception", s.eq(left, NULL) is True, s, fn["l"], "rethrows the exception and keeps it: later waiters get it again")
                kinds.add("throw")
            elif kind == "opt":
                L = it.loc_of(s, v)
                h = s.mem.get(s.cl(L + ("@has",)), NULL)
                for s2, b in it.split_true(s.copy(), h):
                    if b:
                        kinds.add("value")
                        self.outcome(it, s2, fn, E, D, self.result_data(it, s2, ("loc", L + ("@val",)), "", data))
                    else:
                        kinds.add("empty")
                        self.chk(self.P, "wait-empty", g["fired"], s2, fn["l"], "gives up although its timer has not expired")
                        self.chk(self.P, "wait-empty", not (g.get("seen") is True), s2, fn["l"], "returns empty although it found the coroutine finished")
            else:
                kinds.add("value")
                self.outcome(it, s, fn, E, D, self.result_data(it, s, v, "", data) if kind == "val" else g["cast"] if kind == "conv" else None)
            # what may still run later
            self.chk(self.P, "wait-late", True, s, fn["l"], "")
            if g["tm"] == "armed":
                s2 = s.copy()
                s2.gh["late"] = True
                s2.gh["live"] = False
                self.fire(it, s2, call(fn["l"]))
            if g["fin"] != "pub" and g["subs"]:
                s2 = s.copy()
                s2.gh["late"] = True
                s2.gh["live"] = False
                self.published(it, s2, call(fn["l"]))
        if who != "self":
            want = {"throw"} if exc else {"value"}
            if kind == "opt":
                want.add("empty")
            self.chk(self.P, "wait-done" if not exc else "wait-exception", want <= kinds, None, fn["l"], "can never end with %s" % ", ".join(sorted(want - kinds)))
        elif not res:
            self.chk(self.P, "wait-self", False, None, fn["l"], "waiting for itself never returns")

    def verify(self):
        p = self.prog
        plain, timed = [], []
        for f in p.fns("cocpp::co_env::wait_ctx"):
            (timed if any("chrono" in x["t"] for x in f["p"]) else plain).append(f)
        waits = p.fns(CO + "::wait")
        if not waits or not plain or not timed:
            raise AnalysisBroken("anchor vanished: waits for a coroutine")
        for exc in (False, True):
            for who in ("other", "self"):
                for f in plain:
                    self.one(f, who, False, exc, [], "val", this=ENV)
                for f in timed:
                    self.one(f, who, True, exc, [(("user.dur",), I(10_000_000))], "opt", 10**15 + 10_000_000, this=ENV)
                for f in waits:
                    self.one(f, who, False, exc, [], "void" if bt(f["ret"]) == "void" else "conv")
                for f in p.fns(CO + "::wait_for"):
                    for d in (0, 1, 1_500_000, 10_000_000):
                        u = 1_000_000 if "1, 1000>" in f["p"][0]["t"] else 1
                        if d % u:
                            continue
                        self.one(f, who, True, exc, [(("user.dur",), I(d))], "opt", 10**15 + d)
                for f in p.fns(CO + "::wait_until"):
                    self.one(f, who, True, exc, [(("user.abs",), I(10**15 + 5_000_000))], "opt", 10**15 + 5_000_000)


def run_wait(prog, rep):
    f = FinishRule(prog, rep)
    locks = f.verify()
    WaitRule(prog, rep, locks).verify()


T1, T2 = ("ctx.one",), ("ctx.two",)
H2 = ("handle2",)


class HandleRule(KernelRule):
    """what a handle does with its coroutine"""
    P = "C13"

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.hctx = field(prog, CO, "coroutine", lambda f: is_ctx_ptr(f["t"]))
        self.locked = const(prog, "flag_locked")
        self.intrinsics.update({
            "cocpp::co_ctx_factory::create_ctx": self.h_create,
            "cocpp::co_flag_manager::set_flag": self.h_flag(True),
            "cocpp::co_flag_manager::unset_flag": self.h_flag(False),
            "cocpp::co_env::add_ctx": self.h_add,
            "cocpp::co_env::move_ctx_to_here": self.h_add,
            "cocpp::co_manager::get_best_env__": lambda it, st, c: [(st, ENV)],
            "cocpp::co_env::wait_ctx": self.h_wait,
            "user_val::operator()": self.h_user,
            "user_void::operator()": self.h_user,
        })

    def who(self, st, L):
        r = st.cl(L)[:1]
        return r if r in (T1, T2) else None

    # ---- the coroutine -------------------------------------------------------------------------
    def h_create(self, it, st, c):
        g = st.gh
        g["made"] += 1
        g["entry"] = to_callable(it, st, c.args[1])
        pr = field(self.prog, "cocpp::co_ctx_config", "priority", lambda f: f["n"] == "priority")
        g["config"] = it.load(st, it.loc_of(st, c.args[0]) + (pr,), "unsigned long")
        return [(st, ("p", T1))]

    def h_flag(self, on):
        def f(it, st, c):
            w = self.who(st, c.this)
            if w is None:
                return NotImplemented
            out = []
            for s, b in it.split_eq(st, it.rv(st, c.args[0]), I(self.locked)):
                if b:
                    if on:
                        self.chk(self.P, "own-give-up", not s.gh["gave"].count(w), s, c.l, "keeps a coroutine it gave up")
                        s.gh["own"] = s.gh["own"] | {w}
                    else:
                        self.chk(self.P, "own-give-up", w in s.gh["own"] and w not in s.gh["gave"], s, c.l, "gives up a coroutine twice or without owning it")
                        s.gh["gave"] = s.gh["gave"] + (w,)
                        s.gh["own"] = s.gh["own"] - {w}
                        if w not in s.gh["waited"]:
                            s.gh["early"] = s.gh["early"] + (w,)
                out.append((s, NULL))
            return out
        return f

    def h_add(self, it, st, c):
        w = self.who(st, it.deref(st, it.rv(st, c.args[0])))
        if w is None:
            return [(st, NULL)]
        self.chk(self.P, "own-before-run", w in st.gh["own"] or not st.gh["keep"], st, c.l, "the coroutine can run, finish and be deleted before it is kept for its handle")
        st.gh["added"] += 1
        return [(st, NULL)]

    def h_wait(self, it, st, c):
        v = it.rv(st, c.args[0])
        out = []
        for s, nz in it.split_true(st, v):
            if not nz:
                self.chk(self.P, "own-empty", False, s, c.l, "waits for the coroutine of an empty handle")
                continue
            w = self.who(s, it.deref(s, v))
            if w is None:
                self.chk(self.P, "own-move", False, s, c.l, "waits for something that is no coroutine of a handle")
                continue
            self.use(s, w, c.l)
            s.gh["waited"] = s.gh["waited"] | {w}
            s2 = s.copy()
            e = s2.fresh()
            s2.assume_ne(e, NULL)
            s2.gh["exc"] = e
            s2.gh[("exc", e[1])] = "user"
            out.append((s2, Throw("user", e, c.l)))
            T = it.new_root("t")
            if bt(c.t).startswith("std::optional"):
                s.mem[T + ("@has",)] = FALSE
            s.typ[T] = bt(c.t)
            out.append((s, ("loc", T)))
        return out

    def h_user(self, it, st, c):
        g = st.gh
        g["calls"] += 1
        self.chk(self.P, "own-entry", g["calls"] == 1, st, c.l, "calls the function of the user again")
        self.chk(self.P, "own-entry", len(c.args) == 1 and st.eq(it.rv(st, c.args[0], "int"), g["arg"]) is True, st, c.l, "does not pass the argument of the user")
        s2 = st.copy()
        s2.gh["thrown"] = True
        if c.q.startswith("user_void"):
            v = NULL
        else:
            v = g["val"] = st.fresh()
        return [(st, v), (s2, Throw("user", ("str", "of the user"), c.l))]

    def use(self, st, w, l):
        self.chk(self.P, "own-after", w not in st.gh["gave"], st, l, "uses a coroutine after giving it up")

    def on_read(self, it, st, L, l, frame):
        if st.gh.get("live") and L[:1] in (T1, T2):
            self.use(st, L[:1], l)

    def on_write(self, it, st, L, old, new, l, frame):
        if st.gh.get("live") and L[:1] in (T1, T2):
            self.use(st, L[:1], l)

    def on_null_deref(self, it, st, node):
        self.chk(self.P, "own-empty", False, st, node.get("l", "?") if isinstance(node, dict) else str(node), "uses the coroutine of an empty handle")

    # ---- entries ---------------------------------------------------------------------------------
    def start(self, own=frozenset()):
        st = State()
        for L, t in ((T1, CTX), (T2, CTX), (H, CO), (H2, CO), (ENV[1], "cocpp::co_env"), (MGR[1], "cocpp::co_manager"), (ME[1], CTX)):
            st.typ[L] = t
        st.gh.update({"live": False, "made": 0, "entry": NULL, "own": own, "gave": (), "early": (), "waited": frozenset(), "added": 0, "calls": 0, "keep": False,
                      "arg": NULL, "val": None, "thrown": False, "pre": 0, "sch": 0, "exc": None, "config": NULL})
        return st

    def go(self, it, st, fn, this, args):
        st.gh["live"] = True
        self.entry = fn["q"] + "/%d" % len(fn["p"])
        res = it.run(st, fn, this, args)
        self.rep.use(it)
        self.rep.paths += len(res)
        if not res:
            raise AnalysisBroken("%s has no path" % fn["q"])
        return res

    def handle(self, it, s, L):
        return it.load(s, L + (self.hctx,), "cocpp::co_ctx *")

    def create(self, fn, opts=False):
        p = self.prog
        it = self.interp()
        st = self.start()
        st.gh["keep"] = True
        a = st.gh["arg"] = st.fresh()
        st.mem[("user.arg",)] = a
        kind = bt(fn["p"][-2]["t"])
        st.typ[("user.fn",)] = kind
        args = [("loc", ("user.fn",)), ("loc", ("user.arg",))]
        P = self.P
        for s, v in self.go(it, st, fn, H, args):
            g = s.gh
            if bad(v):
                self.chk(P, "own-create", False, s, fn["l"], "construction of a handle ends with an exception although none was thrown")
                continue
            self.chk(P, "own-create", g["made"] == 1 and g["added"] == 1, s, fn["l"], "creates %d coroutines and adds %d" % (g["made"], g["added"]))
            self.chk(P, "own-create", g["own"] == {T1}, s, fn["l"], "the coroutine is not kept for its handle")
            self.chk(P, "own-create", s.eq(self.handle(it, s, H), ("p", T1)) is True, s, fn["l"], "the handle does not refer to the coroutine it created")
            R = ("user.ret",)
            s.typ[R] = "cocpp::co_any"
            data = field(p, "cocpp::co_any", "value", lambda f: True)
            s.mem[R + (data,)] = NULL
            self.entry = "entry of a coroutine (%s)" % kind
            c = call(fn["l"])
            for s2, r in it.call_value(s, g["entry"], [("loc", R)], c, None):
                g2 = s2.gh
                self.chk(P, "own-entry", g2["calls"] == 1, s2, fn["l"], "the function of the user is called %d times" % g2["calls"])
                if g2["thrown"]:
                    self.chk(P, "own-entry", isinstance(r, Throw), s2, fn["l"], "an exception of the user's function is swallowed")
                elif bad(r):
                    self.chk(P, "own-entry", False, s2, fn["l"], "the entry throws although the user's function returned")
                elif g2["val"] is not None:
                    d = s2.res(s2.mem.get(R + (data,), NULL))
                    ok = False
                    if d[0] == "p":
                        ok = any(s2.eq(x, g2["val"]) is True for k, x in s2.sub_cells(d[1]))
                    self.chk(P, "own-entry", ok, s2, fn["l"], "the result of the user's function is not stored")

    def op(self, fn, full, self_arg=False):
        """one operation; full: (this owns, other owns)"""
        P = self.P
        it = self.interp()
        st = self.start(frozenset(([T1] if full[0] else []) + ([T2] if full[1] else [])))
        name = fn["q"].rsplit("::", 1)[1]
        moving = bool(fn["p"]) and bt(fn["p"][0]["t"]) == CO
        st.mem[H + (self.hctx,)] = ("p", T1) if full[0] else NULL
        st.mem[H2 + (self.hctx,)] = ("p", T2) if full[1] else NULL
        args = []
        if moving:
            args = [("loc", H if self_arg else H2)]
        elif fn["p"]:
            st.mem[("user.dur",)] = I(5)
            args = [("loc", ("user.dur",))]
        if fn.get("ctor"):
            st.mem.pop(H + (self.hctx,))
        for s, v in self.go(it, st, fn, H, args):
            g = s.gh
            h, h2 = self.handle(it, s, H), self.handle(it, s, H2)
            if not full[0] and not full[1]:
                self.chk(P, "own-empty", not g["gave"] and not g["waited"], s, fn["l"], "touches a coroutine although all handles are empty")
            if isinstance(v, Abort):
                # a coroutine that ended with an exception, in a function that may not throw
                self.chk(P, "own-join-first", g["exc"] is not None, s, fn["l"], "aborts")
                continue
            if moving:
                if self_arg:
                    self.chk(P, "own-move", s.eq(h, ("p", T1) if full[0] else NULL) is True and not g["gave"], s, fn["l"], "assigning a handle to itself gives the coroutine up")
                    continue
                if bad(v):
                    self.chk(P, "own-move", False, s, fn["l"], "moving throws")
                    continue
                self.chk(P, "own-move", s.eq(h, ("p", T2) if full[1] else NULL) is True, s, fn["l"], "the target does not own the coroutine of the source")
                self.chk(P, "own-move", s.eq(h2, NULL) is True, s, fn["l"], "the source still refers to the coroutine it was moved from")
                self.chk(P, "own-move", T2 not in g["gave"] and T2 not in g["waited"], s, fn["l"], "the moved coroutine is joined or given up")
                if name == "operator=" and full[0]:
                    self.chk(P, "own-give-up", g["gave"].count(T1) == 1, s, fn["l"], "the overwritten handle gives its coroutine up %d times" % g["gave"].count(T1))
                    self.chk(P, "own-join-first", T1 in g["waited"] and T1 not in g["early"], s, fn["l"], "the overwritten handle is not joined")
                continue
            if name in ("join", "detach") or fn.get("dtor") or name.startswith("~"):
                n = 1 if full[0] else 0
                self.chk(P, "own-give-up", g["gave"].count(T1) == n, s, fn["l"], "gives its coroutine up %d times" % g["gave"].count(T1))
                if not name.startswith("~"):
                    self.chk(P, "own-give-up", s.eq(h, NULL) is True, s, fn["l"], "still refers to the coroutine it gave up")
                if full[0]:
                    if name == "detach":
                        self.chk(P, "own-join-first", T1 not in g["waited"], s, fn["l"], "detaching waits for the coroutine")
                    else:
                        self.chk(P, "own-join-first", T1 in g["waited"] and T1 not in g["early"], s, fn["l"], "gives the coroutine up without waiting for it first")
            else:
                self.chk(P, "own-give-up", not g["gave"] and s.eq(h, ("p", T1) if full[0] else NULL) is True, s, fn["l"], "waiting changes what the handle owns")
                if full[0]:
                    self.chk(P, "own-give-up", T1 in g["waited"], s, fn["l"], "waiting does not wait for the coroutine of the handle")
            if bad(v) and full[0]:
                ok = g["exc"] is not None and v.t == "user" or g["exc"] is None and v.t == "std::bad_cast" and name == "wait"
                self.chk(P, "own-give-up", ok, s, fn["l"], "throws something else than the exception of the coroutine")
            elif not bad(v) and g["exc"] is not None:
                self.chk(P, "own-give-up", False, s, fn["l"], "swallows the exception of the coroutine")

    def verify(self):
        p = self.prog
        ctors = [f for f in p.fns(CO + "::co") if f.get("ctor") and len(f["p"]) == 2 and bt(f["p"][0]["t"]).startswith("user_")]
        if len(ctors) < 2:
            raise AnalysisBroken("anchor vanished: constructors of the coroutine handle")
        for f in ctors:
            self.create(f)
        moves = [f for f in p.fns(CO + "::co") + p.fns(CO + "::operator=") if len(f["p"]) == 1 and bt(f["p"][0]["t"]) == CO]
        if len(moves) < 2:
            raise AnalysisBroken("anchor vanished: move operations of the coroutine handle")
        for f in moves:
            for full in ((0, 0), (0, 1), (1, 0), (1, 1)):
                if f.get("ctor") and full[0]:
                    continue
                self.op(f, full)
            if not f.get("ctor"):
                self.op(f, (1, 0), True)
                self.op(f, (0, 0), True)
        for n in ("join", "detach", "~co"):
            f = p.fn(CO + "::" + n)
            for full in ((0, 0), (1, 0)):
                self.op(f, full)
        for n in ("wait", "wait_for", "wait_until"):
            for f in p.fns(CO + "::" + n):
                for full in ((0, 0), (1, 0)):
                    self.op(f, full)
        self.entry = CO
        self.chk(self.P, "own-copy", const(p, "handle_copyable") == 0, None, "include/cocpp/co/co_co.h", "handles can be copied: two of them would give the coroutine up")


def run_handle(prog, rep):
    HandleRule(prog, rep).verify()
