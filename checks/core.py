"""An environment with its coroutines, as the other analyses of the runtime start from.

The objects are made by following the library's own constructors and factories; what the
analysis leaves open (states, flags, content) is then replaced by unknown values.
"""
from engine.interp import bt, bad, Throw, Abort, is_seq, Interp
from engine.program import AnalysisBroken
from engine.state import State, I, NULL, TRUE, FALSE, fresh_no
from .kernel import KernelRule, const, field, MGR

OTHER = ("p", ("env.other",))
INTS = ("long", "int", "unsigned long", "unsigned int", "long long", "unsigned long long", "short", "unsigned short")


def plain(t):
    t = bt(t)
    return t[len("std::atomic<"):-1] if t.startswith("std::atomic<") else t


class Core(KernelRule):
    P = "C00"
    quiet = False       # following a getter: nothing is reported

    def interp(self, **kw):
        return super().interp(sweep=True, **kw)

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.finished = const(prog, "ctx_finished")
        self.suspended = const(prog, "ctx_suspended")
        self.running = const(prog, "ctx_running")
        self.WAITING = const(prog, "flag_waiting")
        self.LOCKED = const(prog, "flag_locked")
        self.NPRIO = const(prog, "max_priority")
        self.fm = field(prog, "cocpp::co_ctx", "flags", lambda f: bt(f["t"]).startswith("cocpp::co_flag_manager<"))
        self.sm = field(prog, "cocpp::co_ctx", "state", lambda f: bt(f["t"]).startswith("cocpp::co_state_manager<"))
        self.efm = field(prog, "cocpp::co_env", "flags", lambda f: bt(f["t"]).startswith("cocpp::co_flag_manager<"))
        self.esm = field(prog, "cocpp::co_env", "state", lambda f: bt(f["t"]).startswith("cocpp::co_state_manager<"))

    def kernel(self):
        return {
            "cocpp::co_singleton_static::instance": lambda it, st, c: [(st, MGR)],
            "cocpp::co_manager::current_env": lambda it, st, c: [(st, st.gh["cur"])],
            "gettid": self.sym, "getpid": self.sym,
            "cocpp::switch_to": self.k_switch,
            "cocpp::init_ctx": self.k_init,
        }

    def sym(self, it, st, c):
        return [(st, st.fresh(lo=1))]

    def k_init(self, it, st, c):
        return [(st, NULL)]

    def k_switch(self, it, st, c):
        return [(s, NULL) for s in self.on_switch(it, st, c)]

    def on_switch(self, it, st, c):
        return [st]

    # ---- making objects ----------------------------------------------------------------------
    def follow(self, it, st, fn, this, args):
        """results of a call that end normally"""
        out = []
        for s, v in it.run(st, fn, this, args):
            if not bad(v):
                out.append((s, v))
        return out

    def one(self, it, st, fn, this, args):
        r = self.follow(it, st, fn, this, args)
        if not r:
            raise AnalysisBroken("%s never returns" % fn["q"])
        return r[0]

    def base(self, it):
        st = State()
        st.typ[MGR[1]] = "cocpp::co_manager"
        st.typ[OTHER[1]] = "cocpp::co_env"
        st.gh["cur"] = OTHER
        return st

    def new_env(self, it, st, thread=True):
        f = self.prog.fn("cocpp::co_env_factory::create_env" if thread else "cocpp::co_env_factory::create_env_from_this_thread")
        return self.one(it, st, f, None, [I(65536)])

    def config(self, st, which, **kw):
        """a configuration object; fields not given are unknown"""
        C = ("conf." + which,)
        st.typ[C] = "cocpp::co_ctx_config"
        fields = {f["n"]: f for f in self.prog.all_fields("cocpp::co_ctx_config")}
        for k, v in kw.items():
            if k not in fields:
                raise AnalysisBroken("anchor vanished: option %s of coroutines" % k)
            st.mem[C + (k,)] = v
        return C

    def new_ctx(self, it, st, name, env, prio, lock=True, shared=False):
        C = self.config(st, name, priority=I(prio) if isinstance(prio, int) else prio, bind_env=env, shared_stack=I(int(shared)),
                        stack_size=I(65536), name=("str", name))
        f = self.prog.fn("cocpp::co_manager::create_and_schedule_ctx")
        E = ("s", "entry." + name)
        return self.one(it, st, f, MGR[1], [("loc", C), E, I(int(lock))])

    # ---- looking at objects -------------------------------------------------------------------
    def get(self, it, st, cls, name, this, *args):
        """(state, value) of a member function that has one outcome, else None"""
        fs = self.prog.fns("%s::%s" % (cls, name), lambda f: len(f["p"]) == len(args))
        if not fs:
            raise AnalysisBroken("anchor vanished: %s::%s" % (cls, name))
        s = st.copy()
        a = []
        for i, x in enumerate(args):
            s.mem[("arg.%d" % i,)] = x
            a.append(("loc", ("arg.%d" % i,)))
        quiet, self.quiet = self.quiet, True
        try:
            r = it.run(s, fs[0], this, a)
        finally:
            self.quiet = quiet
        if len(r) != 1 or bad(r[0][1]):
            return None
        s2, v = r[0]
        return s2, s2.res(it.rv(s2, v))

    def getv(self, it, st, cls, name, this, *args):
        r = self.get(it, st, cls, name, this, *args)
        return None if r is None else r[1]

    def flag(self, it, st, ctx, n, cls="cocpp::co_ctx"):
        """True, False or None (not known) for a flag"""
        r = self.get(it, st, cls, "test_flag", ctx[1], I(n))
        if r is None:
            return None
        z = r[0].eq(r[1], I(0))
        return None if z is None else not z

    def is_finished(self, it, st, ctx):
        r = self.get(it, st, "cocpp::co_ctx", "state", ctx[1])
        return None if r is None else r[0].eq(r[1], I(self.finished))

    def env_state(self, it, st, env, what):
        r = self.get(it, st, "cocpp::co_env", "state", env[1])
        return None if r is None else r[0].eq(r[1], I(what))

    def unknown_status(self, it, st, ctx):
        """state and flags of the coroutine become unknown"""
        st.drop(ctx[1] + (self.fm,))
        st.drop(ctx[1] + (self.sm,))

    def put(self, it, st, cls, name, this, *args):
        """state after a setter"""
        r = self.get(it, st, cls, name, this, *args)
        if r is None:
            raise AnalysisBroken("%s::%s has no single outcome" % (cls, name))
        return r[0]

    def blocked(self, it, st, ctx):
        """the coroutine is known not to be runnable"""
        return self.flag(it, st, ctx, self.WAITING) is True or self.is_finished(it, st, ctx) is True

    def runnable(self, it, st, ctx):
        return self.flag(it, st, ctx, self.WAITING) is False and self.is_finished(it, st, ctx) is False
