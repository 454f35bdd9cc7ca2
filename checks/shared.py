"""C21: coroutines that share a stack.

Stack memory has concrete example addresses; the contents are tokens that say whose frames
they are and from which stay on the stack.  Sequences of switches are followed through the
scheduler, and every copy and every switch is judged against the tokens.
"""
from engine.interp import bt, bad, Call
from engine.program import AnalysisBroken
from engine.state import State, I, NULL
from .core import Core, MGR, OTHER
from .kernel import const, field

RULES = {
    "C21": [
        ("ss-saved", "the used part of a shared stack is saved before another coroutine runs on it"),
        ("ss-restored", "a coroutine is resumed with the stack contents it was switched out with, at the same addresses"),
        ("ss-idle", "the shared stack is copied while no coroutine executes on it"),
        ("ss-room", "a copy fits into the memory obtained for it"),
        ("ss-release", "a saved copy is released, once, when it was restored"),
        ("ss-runs", "a coroutine that was picked is run"),
        ("ss-shrink", "memory of a stack that is given back is not in use", 1),
        ("ss-own", "a coroutine with a stack of its own is not affected by the shared stack"),
    ],
}
P = "C21"


class Shared(Core):
    names = (("shared A", True), ("shared B", True), ("plain C", False), ("plain D", False))
    ghosts = {}

    def __init__(self, prog, rep, depth):
        super().__init__(prog, rep)
        self.depth = depth
        self.SHARED = const(prog, "flag_shared")
        self.intrinsics.pop("cocpp::init_ctx", None)
        self.intrinsics.update({
            "mmap": self.map, "mmap64": self.map, "munmap": self.unmap, "madvise": self.advise,
        })
        for n in ("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove", "std::memcpy", "std::memmove"):
            self.intrinsics[n] = self.copy
        self.intrinsics["std::copy"] = self.copy_range
        self.intrinsics["std::copy_n"] = self.copy_n
        self.captured = self.late = None
        self.ctx = {}

    def kernel(self):
        k = super().kernel()
        k.pop("cocpp::init_ctx")
        return k

    # ---- memory -----------------------------------------------------------------------------------
    def map(self, it, st, c):
        n = st.res(it.rv(st, c.args[1]))
        if n[0] != "i":
            raise AnalysisBroken("size of mapped memory is not known")
        a = st.gh["next"] - ((n[1] + 4095) & ~4095)
        st.gh["next"] = a - 4096
        st.gh["maps"] = st.gh["maps"] + ((a, n[1]),)
        return [(st, I(a))]

    def unmap(self, it, st, c):
        a, n = (st.res(it.rv(st, x)) for x in c.args[:2])
        if a[0] != "i":
            raise AnalysisBroken("address of unmapped memory is not known")
        m = [x for x in st.gh["maps"] if x[0] == a[1]]
        self.chk(P, "ss-release", len(m) == 1, st, c.l, "memory of a stack is released that is not in use")
        if not m:
            return []
        st.gh["maps"] = tuple(x for x in st.gh["maps"] if x[0] != a[1])
        tok = dict(st.gh["bufs"]).get(a[1])
        if tok is not None:
            st.gh["bufs"] = tuple(x for x in st.gh["bufs"] if x[0] != a[1])
            self.chk(P, "ss-release", not self.needed(st, tok), st, c.l, "a saved copy is released before it was restored")
        return [(st, I(0))]

    def needed(self, st, tok):
        """the only copy of the contents of a suspended coroutine"""
        who, ver = tok[0], tok[1]
        cur = dict(st.gh["data"]).get(who)
        if cur is None or cur[1] != ver or who in st.gh["ended"]:
            return False
        return st.gh["content"][:2] != (who, ver) and not any(t[:2] == (who, ver) for _, t in st.gh["bufs"])

    def advise(self, it, st, c):
        """memory is given back: nobody's frames may be in it"""
        a, n = (st.res(it.rv(st, x)) for x in c.args[:2])
        if a[0] != "i" or n[0] != "i":
            raise AnalysisBroken("range of memory given back is not known")
        lo, hi = a[1], a[1] + n[1]
        if self.captured is None or n[1] == 0:
            return [(st, I(0))]
        over = lambda x, y: lo < y and x < hi
        hurt = []
        if st.gh["exec"] in self.stacks and over(*self.stacks[st.gh["exec"]]):
            hurt.append("the stack of %s, which executes" % st.gh["exec"])
        for w, (sp, ver) in st.gh["data"]:
            if w == st.gh["exec"] or w in st.gh["ended"]:
                continue
            if self.is_shared(w):
                if st.gh["content"][:2] == (w, ver) and over(sp, self.region[1]):
                    hurt.append("the stack of %s" % w)
            elif over(sp, self.stacks[w][1]):
                hurt.append("the stack of %s" % w)
        for x, t in st.gh["bufs"]:
            fresh = [m for m in st.gh["maps"] if m[0] == x]
            if t[0] not in st.gh["ended"] and fresh and over(x, x + fresh[0][1]):
                hurt.append("the saved copy of %s" % t[0])
        self.chk(P, "ss-shrink", not hurt, st, c.l, "memory is given back that holds %s" % ", ".join(hurt))
        return [(st, I(0))]

    def copy(self, it, st, c):
        return self.copied(it, st, c, *(st.res(it.rv(st, x)) for x in c.args[:3]))

    def copy_range(self, it, st, c):
        a, b, d = (st.res(it.rv(st, x)) for x in c.args[:3])
        if a[0] != "i" or b[0] != "i":
            return NotImplemented
        return [(s, v if bad(v) else I(d[1] + b[1] - a[1])) for s, v in self.copied(it, st, c, d, a, I(b[1] - a[1]))]

    def copy_n(self, it, st, c):
        a, n, d = (st.res(it.rv(st, x)) for x in c.args[:3])
        if a[0] != "i" or n[0] != "i":
            return NotImplemented
        return self.copied(it, st, c, d, a, n)

    def copied(self, it, st, c, d, s, n):
        if d[0] != "i" or s[0] != "i" or n[0] != "i":
            return NotImplemented
        d, s, n = d[1], s[1], n[1]
        lo, hi = self.region
        for x in (d, s):
            m = [q for q in st.gh["maps"] if q[0] <= x < q[0] + q[1]]
            self.chk(P, "ss-room", bool(m) and x + n <= m[0][0] + m[0][1] or n == 0, st, c.l, "%d bytes are copied where there is not that much room" % n)
        if lo <= s < hi or lo <= d < hi:
            who = st.gh["exec"]
            self.chk(P, "ss-idle", not self.is_shared(who), st, c.l, "the shared stack is copied while %s executes on it" % who)
        if lo <= s < hi:
            own, ver, sp = st.gh["content"]
            whole = own is not None and s <= sp and s + n == hi and not own.startswith("part of")
            st.ev("saves the stack of %s" % own, c.l)
            st.gh["bufs"] = tuple(x for x in st.gh["bufs"] if x[0] != d) + ((d, (own if whole else "part of %s" % own, ver, s, n)),)
        elif lo <= d < hi:
            tok = dict(st.gh["bufs"]).get(s)
            st.ev("restores a stack", c.l)
            old = st.gh["content"]
            st.gh["content"] = ("junk", 0, d)
            if old[0] is not None and self.needed(st, (old[0], old[1])):
                self.chk(P, "ss-saved", False, st, c.l, "the stack of %s is overwritten before it was saved" % old[0])
            else:
                self.chk(P, "ss-saved", True, st, c.l, "")
            if tok is not None and d == tok[2] and n == tok[3]:
                st.gh["content"] = (tok[0], tok[1], dict(st.gh["data"])[tok[0]][0] if tok[0] in dict(st.gh["data"]) else d)
        return [(st, I(d))]

    # ---- switches -----------------------------------------------------------------------------------
    def who(self, st, v):
        for n, c in list(self.ctx.items()) + [("idle", self.idle)]:
            if v[0] == "p" and v[1][:1] == c[1][:1]:
                return n
        raise AnalysisBroken("an unknown coroutine is switched to")

    def is_shared(self, n):
        return n.startswith("shared")

    def on_switch(self, it, st, c):
        if self.captured is None:
            return [st]
        frm, to = (self.who(st, st.res(it.rv(st, x))) for x in c.args)
        st.ev("switch from %s to %s" % (frm, to), c.l)
        self.chk(P, "ss-own", frm == st.gh["exec"], st, c.l, "the registers are saved in %s, but %s executes" % (frm, st.gh["exec"]))
        if frm != "idle":
            # leaves its frames on its stack
            ver = dict(st.gh["data"]).get(frm, (0, 0))[1] + 1
            sp = self.stacks[frm][1] - 208 - 5000 * (ver % 3) - 16 * ord(frm[-1])
            st.gh["data"] = tuple(x for x in st.gh["data"] if x[0] != frm) + ((frm, (sp, ver)),)
            if self.is_shared(frm):
                st.gh["content"] = (frm, ver, sp)
            st.mem[self.ctx[frm][1] + (self.regs, self.spname)] = I(sp)
        st.gh["exec"] = to
        target = self.idle if to == "idle" else self.ctx[to]
        st.mem[target[1] + (self.pre,)] = self.idle if frm == "idle" else self.ctx[frm]
        first = to != "idle" and to not in dict(st.gh["data"])
        if self.is_shared(to):
            old = st.gh["content"]
            if first:
                st.gh["content"] = (to, 0, 0)
                self.chk(P, "ss-saved", old[0] is None or old[0] == to or not self.needed(st, old), st, c.l,
                         "%s starts on the shared stack before the stack of %s was saved" % (to, old[0]))
            else:
                mine = dict(st.gh["data"])[to]
                self.chk(P, "ss-restored", old[:2] == (to, mine[1]) and old[2] == mine[0], st, c.l,
                         "%s is resumed with %s" % (to, "the stack contents of %s" % old[0] if old[0] not in (None, to, "junk") else "wrong stack contents"))
                st.gh["content"] = (to, mine[1], mine[0])
                left = [a for a, t in st.gh["bufs"] if t[0] == to]
                self.chk(P, "ss-release", not left, st, c.l, "the saved copy of %s is not released" % to)
        if first:
            # enters the coroutine for the first time
            st.mem[target[1] + (self.pre,)] = NULL
            self.captured.append((st, to, c.l))
            return []
        # every suspended context waits in a call of the scheduler and goes on behind it
        return [st]

    def on_event(self, it, st, kind, *a):
        if kind == "cv-wait":
            if self.late is None or self.captured is None:
                return []
            # woken because a coroutine has become runnable
            st.ev("%s becomes runnable" % self.late, None)
            return [self.runnable_only(st, [self.late])]

    def on_null_deref(self, it, st, node):
        if self.captured is not None:
            self.chk(P, "ss-saved", False, st, node.get("l", "?") if isinstance(node, dict) else str(node), "the stack of a coroutine is not known when it is needed")

    # ---- sequences ----------------------------------------------------------------------------------
    def runnable_only(self, st, names):
        for n, c in self.ctx.items():
            st = self.put(self.it, st, "cocpp::co_ctx", "unset_flag" if n in names else "set_flag", c[1], I(self.WAITING))
        return st

    def step(self, st, name, late):
        """the executing coroutine gives up the processor; [(state, who runs)]

        late: the other one becomes runnable only when the thread already sleeps
        """
        it = self.it
        st = self.runnable_only(st.copy(), [] if late else [name])
        self.late = name if late else None
        for c in list(self.ctx.values()) + [self.idle]:
            for x in self.counters:
                st.drop(c[1] + (x,))
        self.captured = []
        try:
            f = self.prog.fn("cocpp::co_env::schedule_switch")
            work = [st]
            for _ in range(4):
                nxt = []
                for s in work:
                    for s2, v in it.run(s, f, self.env[1], []):
                        if bad(v):
                            continue
                        if s2.gh["exec"] == "idle":
                            nxt.append(self.woken(s2, name) if late else s2)
                        else:
                            self.captured.append((s2, s2.gh["exec"], f["l"]))
                work = nxt
                if not work:
                    break
            self.chk(P, "ss-runs", not work, st, f["l"], "the coroutine that was picked is not run")
            return self.captured
        finally:
            self.captured = None

    def run(self):
        prog = self.prog
        self.entry = "cocpp::co_env::schedule_switch"
        it = self.it = self.interp(loop_max=60, widen_at=99, budget=40000000)
        st = self.base(it)
        st.gh.update(next=1 << 40, maps=(), bufs=(), data=(), ended=(), content=(None, 0, 0), exec="idle", **self.ghosts)
        st, self.env = self.new_env(it, st)
        self.idle = self.getv(it, st, "cocpp::co_env", "current_ctx", self.env[1])
        for n, sh in self.names:
            st, c = self.new_ctx(it, st, n.replace(" ", ""), self.env, 3, shared=sh)
            st.typ[c[1]] = "cocpp::co_ctx"
            self.ctx[n] = c
        # the shared stack: the one memory that the shared coroutines start in
        g = prog.fn("cocpp::co_ctx::regs")
        s0 = State()
        s0.typ[("ctx",)] = "cocpp::co_ctx"
        (s1, v), = it.run(s0, g, ("ctx",), [])
        self.regs = s1.res(it.rv(s1, v))[1][1]
        spo = 8 * const(prog, "greg_rsp")
        self.spname = [x["n"] for x in prog.rec("cocpp::sigcontext_64")["fields"] if x["off"] == spo][0]
        sps = [st.res(it.load(st, self.ctx[n][1] + (self.regs, self.spname), "unsigned long long")) for n in self.ctx]
        if any(x[0] != "i" for x in sps):
            raise AnalysisBroken("the initial stack pointer of a coroutine is not known")
        m = [q for q in st.gh["maps"] if q[0] <= sps[0][1] < q[0] + q[1]]
        if len(m) != 1 or not all(m[0][0] <= sp[1] < m[0][0] + m[0][1] for (n, sh), sp in zip(self.names, sps) if sh):
            raise AnalysisBroken("the shared stack was not found")
        self.region = (m[0][0], m[0][0] + m[0][1])
        self.stacks = {}
        for n, sp in zip(self.ctx, sps):
            (q,) = [q for q in st.gh["maps"] if q[0] <= sp[1] < q[0] + q[1]]
            self.stacks[n] = (q[0], q[0] + q[1])
        (self.pre,) = [x["n"] for x in prog.all_fields("cocpp::co_ctx") if x["off"] == 256]
        self.counters = [x["n"] for x in prog.all_fields("cocpp::co_ctx") if bt(x["t"]) == "unsigned short"]
        st.gh["cur"] = self.env
        seen = set()
        n = 0
        work = [(st, ())]
        for d in range(self.depth):
            nxt = []
            for s, path in work:
                # a coroutine that executes may also have ended
                for s1 in self.endings(s):
                    for name in self.ctx:
                        if name in s1.gh["ended"]:
                            continue
                        late = name == s1.gh["exec"]
                        for s2, to, l in self.step(s1, name, late) + ([] if late or not self.both(s1) else self.step(s1, name, True)):
                            n += 1
                            self.rep.paths += 1
                            self.chk(P, "ss-runs", to == name, s2, l, "%s runs although %s was picked" % (to, name))
                            k = self.abstract(s2)
                            if k in seen:
                                continue
                            seen.add(k)
                            nxt.append((s2, path + (name,)))
            work = nxt
        if n < 100:
            raise AnalysisBroken("too few switches were followed: %d" % n)
        self.rep.extra["switches_followed"] = n
        self.rep.extra["distinct_situations"] = len(seen)
        self.rep.use(it)

    def endings(self, s):
        yield s
        who = s.gh["exec"]
        if who in self.ctx and who not in s.gh["ended"]:
            s2 = self.put(self.it, s.copy(), "cocpp::co_ctx", "set_state", self.ctx[who][1], I(self.finished))
            s2.gh["ended"] = s2.gh["ended"] + (who,)
            yield s2

    def both(self, s):
        """also let the next one become runnable only when the thread sleeps"""
        return True

    def woken(self, s, name):
        return self.runnable_only(s, [name])

    def more(self, s, nm):
        return ()

    def abstract(self, s):
        """situation: who executes, whose contents are where; numbers of stays do not matter"""
        data = dict(s.gh["data"])
        best = None
        for flip in (("", ""), ("AB", ""), ("", "CD"), ("AB", "CD")):
            # equal coroutines may change their names
            table = str.maketrans({x: y for p in flip if p for x, y in ((p[0], p[1]), (p[1], p[0]))})
            nm = lambda n: n.translate(table) if n in self.ctx else str(n)
            cur = lambda t: (nm(t[0]), t[0] in data and data[t[0]][1] == t[1])
            k = (nm(s.gh["exec"]), tuple(sorted(nm(x) for x in s.gh["ended"])), cur(s.gh["content"]),
                 tuple(sorted(cur(t) for _, t in s.gh["bufs"])), tuple(sorted(nm(x) for x in data))) + self.more(s, nm)
            best = k if best is None or k < best else best
        return best


def run_shared(prog, rep):
    rep.assumptions.append("The stack pointer saved for a coroutine bounds the used part of its stack from below; addresses and sizes are example values.")
    Shared(prog, rep, 8 if rep.tier == "thorough" else 5).run()
