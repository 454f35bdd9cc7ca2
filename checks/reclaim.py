"""C14: the end of coroutine objects and their stacks.

The sequences of switches of C21, with handles that are given up between two switches or by
another thread in the middle of one.  Every deletion, every return of memory and every later
use of a deleted object is judged.
"""
from engine.interp import bad
from engine.program import AnalysisBroken
from engine.state import I
from .shared import Shared

P = "C14"
RULES = {
    "C14": [
        ("only", "a coroutine is reclaimed only after it finished, was given up and has left its stack"),
        ("then", "a coroutine that finished, was given up and has left its stack is reclaimed"),
        ("once", "a coroutine and its stack are reclaimed once"),
        ("together", "the stack is reclaimed together with its coroutine, and only then"),
        ("after", "nothing uses a coroutine after it was reclaimed"),
        ("memory", "memory of a stack is returned with the address and size it was obtained with"),
    ],
}
PAGE = 4096


class Reclaim(Shared):
    names = (("shared A", True), ("plain C", False), ("plain D", False))
    ghosts = {"given": (), "gone": (), "due": (), "idled": 0}
    giving = False
    stacks = {}

    def chk(self, prop, rule, ok, st, l, text):
        # the rules of C21 belong to its own check
        if prop == P:
            super().chk(prop, rule, ok, st, l, text)

    def name(self, L):
        for n, c in self.ctx.items():
            if L[:len(c[1])] == c[1]:
                return n
        return None

    # ---- events -----------------------------------------------------------------------------------
    def on_delete(self, it, st, v, node):
        v = st.res(v)
        if v[0] == "p" and self.captured is not None:
            freed = st.gh.get("freed", ())
            self.chk(P, "once", v[1] not in freed, st, node.get("l"), "an object is deleted twice")
            if v[1] in freed:
                return []
            n = self.name(v[1])
            if n is not None and v[1] == self.ctx[n][1]:
                why = [t for ok, t in ((n in st.gh["ended"], "has not finished"), (n in st.gh["given"], "has a handle"),
                                       (st.gh["exec"] != n, "executes on its stack")) if not ok]
                self.chk(P, "only", not why, st, node.get("l"), "a coroutine is reclaimed that %s" % " and ".join(why))
                st.gh["gone"] = st.gh["gone"] + (n,)
        return super().on_delete(it, st, v, node)

    def used(self, st, L, l):
        if self.captured is None:
            return
        n = self.name(L)
        if n is not None:
            self.chk(P, "after", self.ctx[n][1] not in st.gh.get("freed", ()), st, l, "a coroutine is used after it was reclaimed")

    def on_read(self, it, st, L, l, frame):
        self.used(st, L, l)
        return super().on_read(it, st, L, l, frame)

    def on_write(self, it, st, L, old, new, l, frame):
        self.used(st, L, l)
        return super().on_write(it, st, L, old, new, l, frame)

    def on_acquire(self, it, st, L, c, mode="lock"):
        self.used(st, L, c.l)
        work = [st]
        who = st.gh.get("exec")
        if self.captured is not None and not self.giving and not self.quiet and who in st.gh["ended"] and who not in st.gh["given"] \
                and who not in st.gh["gone"] and self.name(L) == who and L not in st.held:
            # its handle has just been given up by another thread
            work.append(self.give(st.copy(), who, c.frame))
        return [x for s in work for x in super(Reclaim, self).on_acquire(it, s, L, c, mode)]

    def unmap(self, it, st, c):
        a, n = (st.res(it.rv(st, x)) for x in c.args[:2])
        if a[0] != "i" or n[0] != "i":
            raise AnalysisBroken("address or size of unmapped memory is not known")
        m = [x for x in st.gh["maps"] if x[0] == a[1]]
        self.chk(P, "memory", len(m) == 1 and -(-m[0][1] // PAGE) == -(-n[1] // PAGE), st, c.l,
                 "memory is returned that was not obtained" if not m else "%d bytes are returned of memory of %d bytes" % (n[1], m[0][1]))
        for w, (lo, hi) in self.stacks.items() if self.captured is not None else ():
            if not self.is_shared(w) and lo <= a[1] < hi:
                self.chk(P, "together", w in st.gh["gone"] or self.dying(st, w), st, c.l, "the stack of a coroutine is returned that is not reclaimed")
        return super().unmap(it, st, c)

    def dying(self, st, w):
        """finished, given up and off its stack: which of the two goes first does not matter"""
        return w in st.gh["ended"] and w in st.gh["given"] and st.gh["exec"] != w

    # ---- sequences ----------------------------------------------------------------------------------
    def give(self, s, n, fr=None):
        self.giving = True
        try:
            r = self.it.run(s, self.prog.fn("cocpp::co_ctx::unlock_destroy"), self.ctx[n][1], [], fr=fr)
        finally:
            self.giving = False
        if len(r) != 1 or bad(r[0][1]):
            raise AnalysisBroken("a coroutine is given up in %d ways" % len(r))
        s = r[0][0]
        s.gh["given"] = s.gh["given"] + (n,)
        s.ev("the handle of %s is given up" % n, None)
        return s

    def runnable_only(self, st, names):
        for n, c in self.ctx.items():
            if n not in st.gh["gone"]:
                st = self.put(self.it, st, "cocpp::co_ctx", "unset_flag" if n in names or n in st.gh["ended"] else "set_flag", c[1], I(self.WAITING))
        return st

    def step(self, st, name, late):
        due = tuple(n for n in self.ctx if self.dying(st, n) and n not in st.gh["gone"])
        old = dict(st.gh["due"])
        st = st.copy()
        st.gh["idled"] = 0
        st.gh["due"] = tuple((n, old.get(n, 0) + 1) for n in due)
        out = super().step(st, name, late)
        for s, to, l in out:
            live = {x[0] for x in s.gh["maps"]}
            for n, k in s.gh["due"]:
                # at the next switch, or the one after it
                self.chk(P, "then", n in s.gh["gone"] or k < 2, s, l, "a finished coroutine without a handle is not reclaimed")
            for n in self.ctx:
                if not self.is_shared(n):
                    self.chk(P, "together", (self.stacks[n][0] in live) == (n not in s.gh["gone"]), s, l,
                             "the stack of a reclaimed coroutine is not returned" if n in s.gh["gone"] else "the stack of a coroutine is returned before the coroutine")
        return out

    def endings(self, s):
        for s1 in super().endings(s):
            yield s1
            for n in self.ctx:
                if n not in s1.gh["given"] and n not in s1.gh["gone"] and (n in s1.gh["ended"] or n == s1.gh["exec"]):
                    yield self.give(s1.copy(), n)

    def both(self, s):
        return s.gh["exec"] in s.gh["ended"]

    def woken(self, s, name):
        # the idle work looks once more before anything is runnable
        if s.gh["idled"]:
            return super().woken(s, name)
        s.gh["idled"] = 1
        return s

    def more(self, s, nm):
        return tuple(tuple(sorted(nm(x) for x in s.gh[k])) for k in ("given", "gone")) + (tuple(sorted((nm(x), k) for x, k in s.gh["due"])),)


def run_reclaim(prog, rep):
    rep.assumptions.append("Stack addresses and sizes are example values; coroutines that are still there when their environment ends are not part of the property.")
    Reclaim(prog, rep, 4).run()
