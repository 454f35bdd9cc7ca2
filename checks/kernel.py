"""The coroutine runtime as seen by the synchronisation objects: current coroutine,
suspension, wait marks, preemption and scheduling guards."""
from engine.interp import Rule, Interp, bt, is_seq, bad, Throw, Abort
from engine.program import AnalysisBroken
from engine.state import State, I, NULL, TRUE, FALSE, fresh_no

ME = ("p", ("ctx.me",))
ENV = ("p", ("env",))
MGR = ("p", ("mgr",))


class KernelRule(Rule):
    """Calls of the runtime become events of the rule."""

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.entry = "?"
        self.intrinsics = dict(self.kernel())

    def kernel(self):
        return {
            "cocpp::co_singleton_static::instance": lambda it, st, c: [(st, MGR)],
            "cocpp::co_singleton::instance": lambda it, st, c: [(st, MGR)],
            "cocpp::co_manager::current_env": lambda it, st, c: [(st, ENV)],
            "cocpp::co::current_env": lambda it, st, c: [(st, ENV)],
            "cocpp::co_env::current_ctx": lambda it, st, c: [(st, ME)],
            "cocpp::co::current_ctx": lambda it, st, c: [(st, ME)],
            "cocpp::co_env::schedule_lock": lambda it, st, c: [(st, ("loc", ("env", "schedule_lock")))],
            "cocpp::co_recursive_mutex_with_count::increate_count": self.k_pre(1),
            "cocpp::co_recursive_mutex_with_count::decreate_count": self.k_pre(-1),
            "cocpp::co_recursive_mutex_with_count::lock": self.k_sch(1),
            "cocpp::co_recursive_mutex_with_count::unlock": self.k_sch(-1),
            "cocpp::co_env::lock_schedule": self.k_sch(1),
            "cocpp::co_env::unlock_schedule": self.k_sch(-1),
            "cocpp::co_env::schedule_switch": self.k_suspend,
            "cocpp::co_ctx::enter_wait_resource_state": self.k_enter,
            "cocpp::co_ctx::leave_wait_resource_state": self.k_leave,
        }

    def k_pre(self, d):
        def f(it, st, c):
            st.gh["pre"] = st.gh.get("pre", 0) + d
            st.ev("preempt%+d" % d, c.l)
            return [(st, NULL)]
        return f

    def k_sch(self, d):
        def f(it, st, c):
            st.gh["sch"] = st.gh.get("sch", 0) + d
            st.ev("schedule-lock%+d" % d, c.l)
            return [(st, NULL)]
        return f

    def k_suspend(self, it, st, c):
        st.ev("suspend", c.l)
        return [(s, NULL) for s in self.on_suspend(it, st, c)]

    def on_suspend(self, it, st, c):
        return [st]

    def k_enter(self, it, st, c):
        st.ev("enter-wait", c.l, c.this)
        return [(s, NULL) for s in self.on_enter_wait(it, st, st.res(("p", c.this)), st.res(it.rv(st, c.args[0])), c)]

    def k_leave(self, it, st, c):
        st.ev("leave-wait", c.l, c.this)
        return [(s, NULL) for s in self.on_leave_wait(it, st, st.res(("p", c.this)), st.res(it.rv(st, c.args[0])), c)]

    def on_enter_wait(self, it, st, ctx, rc, c):
        return [st]

    def on_leave_wait(self, it, st, ctx, rc, c):
        return [st]

    # ---- helpers ---------------------------------------------------------------------
    def interp(self, **kw):
        return Interp(self.prog, self, **kw)

    def chk(self, props, rid, ok, st, where, msg):
        return self.rep.check(props, rid, bool(ok), st, str(where), msg, self.entry)


def field(prog, rec, what, pred, name=None, optional=False):
    """the field of a class that plays a role, by type; by name when several fit"""
    fs = [f for f in prog.all_fields(rec) if pred(f)]
    if len(fs) > 1 and name is not None:
        byname = [f for f in fs if f["n"] == name]
        if len(byname) == 1:
            fs = byname
    if len(fs) == 1:
        return fs[0]["n"]
    if optional and not fs:
        return None
    raise AnalysisBroken("anchor vanished: class %s has %d candidate fields for its %s" % (rec, len(fs), what))


def is_ctx_ptr(t):
    return bt(t) == "cocpp::co_ctx *"


_consts = {}


def const(prog, name):
    """value of a constant of the library (driver/constants.cpp)"""
    if name not in _consts:
        it = Interp(prog, Rule())
        (s, v), = it.run(State(), prog.fn("value::" + name), None, [])
        v = it.rv(s, v)
        if v[0] != "i":
            raise AnalysisBroken("constant %s has no value" % name)
        _consts[name] = v[1]
    return _consts[name]
