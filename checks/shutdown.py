"""C31: the end of the runtime.

The manager is constructed as the library does it, which gives the background activities it
starts.  Its destruction is then followed over pools of environments of every kind, and each
activity is followed with the destruction happening before it starts and while it sleeps.  Going to
sleep on a condition variable takes having looked for the request under the mutex, so that no other
moment is left for the request to be missed.
"""
from engine.interp import Call, Frame, bt, bad
from engine.models import lam_call
from engine.program import AnalysisBroken
from engine.state import State, I, NULL
from .core import MGR, OTHER
from .kernel import field
from .pool import Pool

P = "C31"
RULES = {
    "C31": [
        ("told", "every environment with a scheduling thread is told to stop and woken"),
        ("handed", "every environment without one is handed to the cleaner"),
        ("woken", "a sleeping background activity is woken after the request became visible", 2),
        ("ends", "a background activity ends once the shutdown was requested", 3),
        ("waits", "the shutdown waits for every background activity after the request"),
        ("once", "an environment handed to the cleaner is destroyed once"),
    ],
}


class Shutdown(Pool):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.tasks = []
        self.slept = set()
        self.role = None
        for q in ("sigaction", "sigemptyset", "sigaddset", "sigfillset", "signal", "cocpp::set_up_signal_handler"):
            self.intrinsics[q] = lambda it, st, c: [(st, I(0))]
        self.intrinsics["std::this_thread::sleep_for"] = self.nap
        self.intrinsics["std::this_thread::sleep_until"] = self.nap
        # what the regular activities do in between is the subject of other properties
        for q in ("cocpp::co_manager::create_and_schedule_ctx",):
            self.intrinsics[q] = self.spawned
        self.dtor = prog.fn("cocpp::co_manager::~co_manager")
        self.done_ev = field(prog, "cocpp::co_env", "event of its end", lambda f: bt(f["t"]).startswith("cocpp::co_event<>"), "task_finished__")

    def spawned(self, it, st, c):
        return NotImplemented if self.role is None else [(st, ("p", it.new_root("h")))]

    def nap(self, it, st, c):
        if self.role != "task":
            return [(st, NULL)]
        self.slept.add(c.l)
        if st.gh.get("asked"):
            n = st.gh.get("rounds", 0)
            self.chk(P, "ends", n < 2, st, c.l, "a background activity goes on after the shutdown was requested")
            st.gh["rounds"] = n + 1
            return [(st, NULL)] if n < 2 else []
        return [(st, NULL)] + [(s, NULL) for s in self.request(it, st.copy(), c.frame)]

    # ---- events -----------------------------------------------------------------------------------
    def on_event(self, it, st, kind, *a):
        if kind == "spawn" and self.role == "start":
            self.tasks.append((a[0].l, a[1]))
        elif kind == "notify" and self.role is not None:
            st.gh["notified"] = st.gh.get("notified", ()) + ((a[1], st.gh.get("since", frozenset()) | frozenset(st.held), bool(st.gh.get("asked"))),)
            for n, e in self.envs.items():
                if a[1][:len(e[1])] == e[1] and self.env_state(it, st, e, self.S["destroying"]) is True:
                    st.gh["stopped"] = st.gh.get("stopped", ()) + (n,)
        elif kind == "join" and self.role is not None:
            if not st.gh.get("asked"):
                self.chk(P, "waits", False, st, a[0].l, "waits for a background activity before the shutdown is requested")
            st.gh["joined"] = st.gh.get("joined", frozenset()) | {st.cl(a[1])}
        elif kind == "cv-wait-enter" and self.role == "task":
            st.gh["_mutex"] = self.mutex(it, st, a[0])
            self.sleeps(it, st, a[0])
        elif kind == "cv-wait-again" and self.role == "task":
            self.chk(P, "ends", not st.gh.get("asked"), st, a[0].l, "a background activity goes back to sleep after the shutdown was requested")
        elif kind == "cv-wait" and self.role == "task":
            return self.asleep(it, st, a[0])

    def mutex(self, it, st, c):
        G = it.loc_of(st, c.args[0])
        m = st.mem.get(G + ("@m0",))
        return st.cl(m[1]) if m is not None and m[0] == "p" else G

    def on_write(self, it, st, L, old, new, l, frame):
        super().on_write(it, st, L, old, new, l, frame)
        if self.role is not None and L in self.flags and new is not None and st.eq(new, I(0)) is False:
            st.gh["asked"] = 1
            st.gh["since"] = frozenset(st.held)

    def on_read(self, it, st, L, l, frame):
        super().on_read(it, st, L, l, frame)
        if self.role == "task" and L in self.flags:
            st.gh["checked"] = frozenset(st.held)

    def on_acquire(self, it, st, L, c, mode="lock"):
        out = super().on_acquire(it, st, L, c, mode)
        for s in out:
            if self.role is not None and s.gh.get("asked"):
                s.gh["since"] = s.gh["since"] | {L}
        return out

    def on_release(self, it, st, L, c):
        out = super().on_release(it, st, L, c)
        for s in out:
            if self.role == "task" and L not in s.held:
                s.gh["checked"] = s.gh.get("checked", frozenset()) - {L}
        return out

    def on_delete(self, it, st, v, node):
        if self.role is not None and not self.quiet:
            v = st.res(v)
            for n, e in self.envs.items():
                if st.eq(v, e) is True:
                    gone = st.gh.get("gone", ())
                    self.chk(P, "once", n not in gone, st, node.get("l"), "an environment is destroyed twice")
                    self.chk(P, "once", n in st.gh.get("expired", ()) or n[0] == "U" and st.gh.get("asked"), st, node.get("l"), "an environment that has not ended is destroyed")
                    st.gh["gone"] = gone + (n,)
        return super().on_delete(it, st, v, node)

    # ---- the activities -----------------------------------------------------------------------------
    def sleeps(self, it, st, c):
        asked = st.gh.get("asked")
        self.chk(P, "ends", not asked, st, c.l, "a background activity goes to sleep after the shutdown was requested")
        M = st.gh["_mutex"]
        self.chk(P, "woken", asked or M in st.gh.get("checked", ()), st, c.l, "goes to sleep without having looked for the request under the same lock")
        self.leftover(st, c.l)

    def leftover(self, st, l):
        left = [n for n in st.gh.get("expired", ()) if n not in st.gh.get("gone", ())]
        if st.gh.get("cleaner"):
            self.chk(P, "once", not left, st, l, "an environment that has ended is not destroyed")
            gone = [n for n in st.gh.get("gone", ()) if n in self.pool(st)]
            self.chk(P, "once", not gone, st, l, "a destroyed environment stays listed")

    def asleep(self, it, st, c):
        if st.gh.get("asked") or st.gh.get("naps", 0) >= self.naps:
            return []
        out = []
        cv, M = st.cl(c.this), st.gh["_mutex"]
        # the shutdown
        for s in self.request(it, st.copy(), c.frame):
            ok = [x for x in s.gh.get("notified", ()) if x[0] == cv and x[2] and M in x[1]]
            self.chk(P, "woken", ok, s, c.l, "the shutdown does not wake this activity, or wakes it before it can see the request")
            if ok:
                out.append(s)
        # an environment ends
        for n, e in self.envs.items():
            if n[0] == "T" and n not in st.gh.get("expired", ()):
                s = st.copy()
                role, self.role = self.role, "other"
                s.gh["notified"] = ()
                r = it.run(s, self.prog.fn("cocpp::co_event::pub", pred=lambda f: not f["p"]), e[1] + (self.done_ev,), [], fr=c.frame)
                self.role = role
                for s2, v in r:
                    if bad(v):
                        continue
                    hit = any(x[0] == cv for x in s2.gh["notified"])
                    s2.gh["expired"] = st.gh.get("expired", ()) + (n,)
                    s2.gh["naps"] = st.gh.get("naps", 0) + 1
                    if hit:
                        s2.gh["cleaner"] = 1
                        out.append(s2)
        return out

    def request(self, it, st, fr=None):
        role, self.role = self.role, "ask"
        st.gh["notified"] = ()
        st.gh["stopped"] = ()
        out = []
        try:
            for s, v in it.run(st, self.dtor, MGR[1], [], fr=fr):
                if bad(v):
                    raise AnalysisBroken("the shutdown does not return")
                out.append(s)
        finally:
            self.role = role
        return out

    def with_timer(self, it, st):
        """a timer with an unknown deadline is armed"""
        st.mem[("user.cb",)] = ("s", "cb")
        st.assume_ne(("s", "cb"), NULL)
        f = [f for f in self.prog.fns("cocpp::co_timer::create") if "time_point" in f["p"][1]["t"]]
        if len(f) != 1:
            raise AnalysisBroken("anchor vanished: creation of timers")
        r = [(s, v) for s, v in it.run(st, f[0], None, [("loc", ("user.cb",)), st.fresh(lo=0)]) if not bad(v)]
        if len(r) != 1:
            raise AnalysisBroken("a timer is created in %d ways" % len(r))
        st, v = r[0]
        v = st.res(it.rv(st, v))
        r = [s for s, x in it.run(st, self.prog.fn("cocpp::co_timer::start"), v[1], []) if not bad(x)]
        if len(r) != 1:
            raise AnalysisBroken("a timer is armed in %d ways" % len(r))
        return r[0]

    def call(self, l):
        fr = Frame({"q": "<thread>", "id": "<thread>", "l": l, "ret": "void"}, None, None, 0)
        return Call({"k": "Call", "q": "<thread>", "l": l, "t": "void", "pt": []}, None, [], fr)

    def handed(self, st, n):
        return any(st.eq(st.res(self.it.load(st, MGR[1] + p + (x,))), self.envs[n]) is True
                   for p in self.set for x in (st.mem.get(MGR[1] + p) or ("seq", ()))[1])


def run_shutdown(prog, rep):
    R = Shutdown(prog, rep)
    R.entry = "cocpp::co_manager::co_manager"
    R.naps = 1 if rep.tier == "quick" else 2
    R.flags = ()
    it = R.it = R.interp(loop_max=12, widen_at=99, budget=2000000)
    R.role = "start"
    st = State()
    st.typ[MGR[1]] = "cocpp::co_manager"
    st.typ[OTHER[1]] = "cocpp::co_env"
    st.gh["cur"] = OTHER
    r = R.follow(it, st, prog.fn("cocpp::co_manager::co_manager"), MGR[1], [])
    R.role = None
    if len(r) != 1 or len(R.tasks) < 3:
        raise AnalysisBroken("the manager starts %d background activities in %d ways, 3 expected" % (len(R.tasks), len(r)))
    started = r[0][0]
    tasks = R.tasks
    R.flags = {MGR[1] + (f["n"],) for f in prog.all_fields("cocpp::co_manager") if bt(f["t"]) in ("std::atomic<bool>", "bool", "std::atomic_bool")}
    if not R.flags:
        raise AnalysisBroken("anchor vanished: no field for the request of the shutdown")
    worlds = 0
    for shapes in ((), ("T",), ("U",), ("C",), ("T", "U"), ("T", "T"), ("U", "U"), ("C", "U"), ("timer",)):
        R.role = None
        s0 = R.world([x for x in shapes if x != "timer"], [], started.copy())
        if "timer" in shapes:
            s0 = R.with_timer(it, s0)
        s0.gh = {k: v for k, v in s0.gh.items() if k in ("cur", "epoch")}
        worlds += 1
        # the request itself
        R.role = "ask"
        R.entry = R.dtor["q"]
        asked = []
        for s in R.request(it, s0.copy()):
            asked.append(s)
            R.chk(P, "waits", len(s.gh.get("joined", ())) >= len(tasks), s, R.dtor["l"], "the shutdown waits for %d of %d background activities" % (
                len(s.gh.get("joined", ())), len(tasks)))
            R.chk(P, "ends", s.gh.get("asked"), s, R.dtor["l"], "the shutdown is not made visible to the background activities")
            for n, e in R.envs.items():
                if n[0] == "U":
                    R.chk(P, "handed", R.handed(s, n), s, R.dtor["l"], "an environment without a scheduling thread is lost at the shutdown")
                else:
                    stop = R.env_state(it, s, e, R.S["destroying"]) is True
                    was = R.sure(s, R.before[n]["state"], R.S["destroying"])
                    R.chk(P, "told", stop, s, R.dtor["l"], "an environment with a scheduling thread is not told to stop")
                    R.chk(P, "told", was or n in s.gh["stopped"], s, R.dtor["l"], "an environment is told to stop but not woken")
        # the activities
        for l, f in tasks:
            R.entry = "background activity at %s" % l
            R.role = "task"
            cleaner = 0
            for start, late in [(s0, False)] + [(s, True) for s in asked]:
                s = start.copy()
                if late:
                    s.gh["asked"] = 1
                    s.gh["since"] = frozenset()
                it.steps = 0
                res = lam_call(it, s, f, [], R.call(l))
                for s2, v in res:
                    if bad(v):
                        continue
                    R.chk(P, "ends", s2.gh.get("asked"), s2, l, "a background activity ends although no shutdown was requested")
                    if s2.gh.get("gone"):
                        s2.gh["cleaner"] = 1
                    R.leftover(s2, l)
                    rep.paths += 1
                    if s2.gh.get("gone"):
                        cleaner += 1
                        R.cleaners = getattr(R, "cleaners", set()) | {l}
                R.last = getattr(R, "last", {})
                R.last[(worlds, l, late)] = res
        R.role = None
        # whoever destroys environments must have destroyed those handed over
        for (w, l, late), res in R.last.items():
            if w == worlds and l in getattr(R, "cleaners", ()):
                R.entry = "background activity at %s" % l
                for s2, v in res:
                    if bad(v):
                        continue
                    for n in R.envs:
                        if n[0] == "U":
                            R.chk(P, "once", s2.gh.get("gone", ()).count(n) == 1, s2, l, "an environment handed to the cleaner is destroyed %d times" % s2.gh.get("gone", ()).count(n))
    if not getattr(R, "cleaners", None):
        raise AnalysisBroken("no background activity destroys environments")
    rep.use(it)
    rep.extra.update({"pools": worlds, "background_activities": len(tasks)})
