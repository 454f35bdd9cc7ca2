"""C01, C02, C03 (and the guard balance of C30): the blocking locks.

Rely-guarantee analysis of each operation against the ownership protocol.  The
internal spin lock makes critical sections atomic: at each acquisition the
protected fields are replaced by every combination the protocol allows other
coroutines to have left (given what the current coroutine has done so far), and at
each release the change made in the section must be a step of the protocol.
"""
from engine.interp import bt, bad, is_seq, Throw, Abort, targ
from engine.program import AnalysisBroken
from engine.state import State, I, NULL, TRUE, FALSE, fresh_no
from .kernel import KernelRule, ME, field, is_ctx_ptr

O = ("obj",)
THIS = ("p", O)

RULES = {
    "C01": [
        ("owner-step", "ownership changes only null->caller, owner->null or owner->waiter"),
        ("lock-owns", "lock returns only when the caller is the owner"),
        ("try-true-owns", "a successful try makes the caller the owner"),
        ("try-false-clean", "a failed try leaves the lock untouched"),
        ("unlock-foreign", "unlock by a non-owner throws and changes nothing"),
        ("unlock-own", "unlock by the owner succeeds and gives up one level of ownership"),
        ("recursion-count", "the owner of a recursive lock holds it as often as it locked it"),
        ("under-lock", "lock state is touched only inside the critical section"),
    ],
    "C02": [
        ("rw-invariant", "free, one writer, or readers only"),
        ("rw-owner-step", "owners join only in a compatible mode and leave only by themselves"),
        ("rw-lock-owns", "lock/lock_shared return only when the caller owns in that mode"),
        ("rw-try-true-owns", "a successful try makes the caller an owner in that mode"),
        ("rw-try-false-clean", "a failed try leaves the lock untouched"),
        ("rw-unlock-foreign", "releasing in a mode not held throws and changes nothing"),
        ("rw-unlock-own", "an owner can release and is no owner afterwards"),
        ("rw-grant", "ownership passes only to queued waiters, each in its own mode"),
        ("rw-under-lock", "lock state is touched only inside the critical section"),
    ],
    "C03": [
        ("queued-before-suspend", "a blocked coroutine is queued and marked waiting before the internal lock is released"),
        ("suspend-unlocked", "no suspension while the internal lock is held"),
        ("suspend-marked", "a suspension is with wait mark if and only if queued"),
        ("no-strand", "a release with waiters makes one of them owner"),
        ("grant-wakes", "every waiter made owner is woken exactly once, nobody else is"),
        ("grant-dequeues", "a waiter made owner leaves the queue, nobody else does"),
        ("fifo", "mutex waiters are queued at the end and taken from the front"),
        ("wait-resource", "the wait mark is set and cleared for the same resource"),
        ("released", "the internal lock is free whenever an operation ends"),
    ],
    "C30": [
        ("preempt-balance", "preemption is enabled again on every way out of a lock operation"),
        ("preempt-suspend", "preemption is enabled while a coroutine is suspended in a blocking lock operation"),
    ],
}


class LockRule(KernelRule):
    P1, P3 = "C01", "C03"
    U = "under-lock"

    def __init__(self, prog, rep, rec):
        super().__init__(prog, rep)
        self.rec = rec
        self.spin = field(prog, rec, "internal lock", lambda f: bt(f["t"]) in ("cocpp::co_spinlock", "std::mutex", "std::recursive_mutex"), "spinlock__")
        self.queue = field(prog, rec, "wait queue", lambda f: is_seq(f["t"]) and not bt(f["t"]).startswith(("std::set<", "std::map<")), "wait_deque__")
        self.S = O + (self.spin,)
        self.Q = O + (self.queue,)

    def prot(self):
        return [self.Q]

    # ---- accesses ------------------------------------------------------------------------
    def is_prot(self, L):
        return any(L[:len(p)] == p for p in self.prot())

    def on_read(self, it, st, L, l, frame):
        if l is not None and self.is_prot(L):
            self.chk(self.P1, self.U, st.gh.get("in") is True, st, l, "reads %s outside the critical section" % (".".join(L[1:2])))

    def on_write(self, it, st, L, old, new, l, frame):
        if self.is_prot(L):
            self.chk(self.P1, self.U, st.gh.get("in") is True, st, l, "writes %s outside the critical section" % (".".join(L[1:2])))
        if L == self.Q:
            self.queue_write(it, st, old, new, l)

    def lazy(self, it, st, L, t):
        if self.is_prot(L) and st.gh.get("in") is not True and L in self.prot():
            return None
        return None

    def queue_write(self, it, st, old, new, l):
        o = old[1] if old and old[0] == "seq" else ()
        n = new[1]
        for i, x in enumerate(o):
            if x not in n:
                if isinstance(x, tuple):
                    st.gh["delta"] = st.gh["delta"] + (("rem", None, False),)
                else:
                    st.gh["delta"] = st.gh["delta"] + (("rem", self.elem_ctx(it, st, x), i == 0),)
        for i, x in enumerate(n):
            if x not in o and not isinstance(x, tuple):
                st.gh["delta"] = st.gh["delta"] + (("add", self.elem_ctx(it, st, x), i == len(n) - 1),)

    def elem_ctx(self, it, st, e):
        return it.load(st, self.Q + (e,))

    def on_materialise(self, it, st, L, eid, rid):
        if st.cl(L)[:2] == self.Q:
            v = st.fresh()
            self.init_elem(it, st, eid, v)
            st.assume_ne(v, NULL)
            st.assume_ne(v, ME)
            for x in self.distinct(it, st):
                st.assume_ne(v, x)
        return [st]

    def init_elem(self, it, st, eid, v):
        st.mem[self.Q + (eid,)] = v

    def distinct(self, it, st):
        out = []
        for x in st.mem[self.Q][1]:
            if not isinstance(x, tuple) and self.Q + (x,) in st.mem:
                out.append(st.mem[self.Q + (x,)])
        return out

    # ---- critical sections ---------------------------------------------------------------
    def on_acquire(self, it, st, L, c, mode="lock"):
        if L != self.S:
            return super().on_acquire(it, st, L, c, mode)
        self.chk("C03", "released", st.gh.get("in") is not True, st, c.l, "takes the internal lock it already holds")
        st.held = st.held + (L,)
        out = []
        for s in self.others(it, st):
            s.gh["in"] = True
            s.gh["delta"] = ()
            s.gh["woken"] = ()
            out.append(s)
        return out

    def on_release(self, it, st, L, c):
        if L == self.S:
            if self.chk("C03", "released", st.gh.get("in") is True, st, c.l, "releases the internal lock without holding it"):
                self.step(it, st, c)
            st.gh["in"] = False
            for p in self.prot():
                st.drop(p)
        return super().on_release(it, st, L, c)

    def queue_cells(self, st, items):
        st.drop(self.Q)
        st.mem[self.Q] = ("seq", items)

    def rest(self):
        return ("R", "q%d" % fresh_no())

    def on_suspend(self, it, st, c):
        self.chk("C03", "suspend-unlocked", st.gh.get("in") is not True, st, c.l, "suspends while holding the internal lock")
        q = st.gh["ph"].startswith("queued")
        self.chk("C03", "suspend-marked", st.gh["flag"] == q, st, c.l,
                 "suspends %s" % ("queued but not marked as waiting" if q else "marked as waiting although nobody will wake it"))
        self.chk("C30", "preempt-suspend", st.gh.get("pre", 0) == self.pre0, st, c.l, "suspended with preemption disabled")
        if q and st.gh["flag"]:
            # a marked coroutine runs again only after its mark was cleared, and only the grant of this lock clears it
            st.gh["ph"], st.gh["flag"], st.gh["cnt"] = "own" + st.gh["ph"][6:], False, I(1)
        return [st]

    def on_enter_wait(self, it, st, ctx, rc, c):
        self.chk("C03", "wait-resource", st.eq(rc, THIS) is True, st, c.l, "waits for a resource that is not this lock")
        if st.eq(ctx, ME) is True:
            self.chk("C03", "queued-before-suspend", st.gh.get("in") is True, st, c.l, "marks itself waiting after the internal lock was released: a release in between is lost")
            st.gh["flag"] = True
        else:
            self.chk("C03", "suspend-marked", False, st, c.l, "marks another coroutine as waiting")
        return [st]

    def on_leave_wait(self, it, st, ctx, rc, c):
        self.chk("C03", "wait-resource", st.eq(rc, THIS) is True, st, c.l, "wakes for a resource that is not this lock")
        if st.eq(ctx, ME) is True:
            st.gh["flag"] = False
        else:
            st.gh["woken"] = st.gh.get("woken", ()) + (ctx,)
            if st.gh.get("in") is not True:
                # waking after the section: belongs to the grant made in it
                g = list(st.gh.get("owed", ()))
                hit = [x for x in g if st.eq(x, ctx) is True]
                if hit:
                    g.remove(hit[0])
                    st.gh["owed"] = tuple(g)
                else:
                    self.chk("C03", "grant-wakes", False, st, c.l, "wakes a coroutine that was not made owner")
        return [st]

    # ---- running an operation -------------------------------------------------------------
    pre0 = 0

    def start(self, ph, cnt=None):
        st = State()
        st.typ[O] = self.rec
        st.gh.update({"ph": ph, "ph0": ph, "flag": False, "in": False, "pre": 0, "sch": 0, "delta": (), "woken": (), "owed": ()})
        return st

    def run(self, fn, ph, args=(), this_rec=None):
        self.entry = fn["q"]
        it = self.interp()
        st = self.start(ph)
        if this_rec:
            st.typ[O] = this_rec
        if "try_lock_until" in fn["q"] or "try_lock_for" in fn["q"]:
            args = [("loc", ("arg0",))]
        res = it.run(st, fn, O, args)
        self.rep.use(it)
        self.rep.paths += len(res)
        return it, res

    def at_exit(self, st, fn):
        self.chk("C03", "released", st.gh.get("in") is not True, st, fn["l"], "ends with the internal lock held")
        self.chk("C03", "grant-wakes", not st.gh.get("owed"), st, fn["l"], "a coroutine was made owner but never woken")
        self.chk("C30", "preempt-balance", st.gh.get("pre", 0) == 0 and st.gh.get("sch", 0) == 0, st, fn["l"],
                 "ends with a preemption count of %+d" % st.gh.get("pre", 0))


def same(st, a, b):
    return st.eq(a, b) is True


class MutexRule(LockRule):
    def __init__(self, prog, rep, rec, recursive=False):
        super().__init__(prog, rep, rec)
        self.recursive = recursive
        self.owner = field(prog, rec, "owner", lambda f: is_ctx_ptr(f["t"]), "owner__")
        self.W = O + (self.owner,)
        self.C = None
        if recursive:
            n = field(prog, rec, "lock count", lambda f: bt(f["t"]) in ("unsigned long", "unsigned long long", "int", "long", "unsigned int", "long long"), "lock_count__")
            self.C = O + (n,)

    def prot(self):
        return [self.Q, self.W] + ([self.C] if self.C else [])

    def distinct(self, it, st):
        return super().distinct(it, st) + [st.mem[self.W]]

    def others(self, it, st):
        ph = st.gh["ph"]
        out = []

        def put(s, owner, items, cnt):
            for p in self.prot():
                s.drop(p)
            s.mem[self.W] = owner
            self.queue_cells(s, items)
            if self.C:
                s.mem[self.C] = cnt
            s.gh["o0"], s.gh["c0"] = owner, cnt
            out.append(s)
        if ph == "idle":
            put(st.copy(), NULL, (), I(0))
            s = st.copy()
            o = s.fresh()
            s.assume_ne(o, NULL)
            s.assume_ne(o, ME)
            put(s, o, (self.rest(),), s.fresh(lo=1))
        elif ph == "own":
            s = st.copy()
            put(s, ME, (self.rest(),), s.gh["cnt"])
        else:
            s = st.copy()
            s.gh["ph"], s.gh["flag"], s.gh["cnt"] = "own", False, I(1)
            put(s, ME, (self.rest(),), I(1))
            s = st.copy()
            o = s.fresh()
            s.assume_ne(o, NULL)
            s.assume_ne(o, ME)
            e = "e%d" % fresh_no()
            put(s, o, (self.rest(), e, self.rest()), s.fresh(lo=1))
            s.mem[self.Q + (e,)] = ME
        return out

    def step(self, it, st, c):
        o0, o1 = st.gh["o0"], it.load(st, self.W)
        c0 = st.gh["c0"]
        c1 = it.load(st, self.C) if self.C else None
        delta, woken, ph = st.gh["delta"], st.gh["woken"], st.gh["ph"]
        rem = [d for d in delta if d[0] == "rem"]
        add = [d for d in delta if d[0] == "add"]
        q = st.mem[self.Q][1]
        granted = []
        if same(st, o0, o1):
            self.chk("C01", "owner-step", True, st, c.l, "")
            self.chk("C03", "grant-dequeues", not rem, st, c.l, "takes a waiter from the queue without making it owner")
        elif same(st, o0, NULL) and same(st, o1, ME):
            self.chk("C01", "owner-step", ph == "idle", st, c.l, "takes the lock again")
            self.chk("C03", "grant-dequeues", not rem, st, c.l, "takes a waiter from the queue without making it owner")
            st.gh["ph"] = "own"
            st.gh["cnt"] = c1 if c1 is not None else I(1)
        elif same(st, o0, ME) and same(st, o1, NULL):
            self.chk("C01", "owner-step", True, st, c.l, "")
            self.chk("C03", "no-strand", not q, st, c.l, "frees the lock while coroutines wait for it")
            self.chk("C03", "grant-dequeues", not rem, st, c.l, "takes a waiter from the queue without making it owner")
            st.gh["ph"] = "idle"
        elif same(st, o0, ME):
            ok = len(rem) == 1 and rem[0][1] is not None and same(st, rem[0][1], o1)
            self.chk("C01", "owner-step", st.eq(o1, NULL) is False, st, c.l, "ownership may be lost")
            self.chk("C03", "grant-dequeues", ok, st, c.l, "the new owner is not exactly the coroutine taken from the queue")
            self.chk("C03", "no-strand", True, st, c.l, "")
            if ok:
                self.chk("C03", "fifo", rem[0][2], st, c.l, "the new owner is not the longest waiting coroutine")
            granted = [o1]
            st.gh["ph"] = "idle"
        else:
            self.chk("C01", "owner-step", False, st, c.l, "changes the owner although the caller does not own the lock")
        # recursion count
        if self.C:
            held = st.gh["ph"] == "own"
            if same(st, o1, NULL):
                ok = same(st, c1, I(0))
            elif granted:
                ok = same(st, c1, I(1))
            elif same(st, o1, ME):
                ok = st.le_known(I(1), c1) is True
                st.gh["cnt"] = c1
            else:
                ok = same(st, c0, c1)
            self.chk("C01", "recursion-count", ok, st, c.l, "the lock count does not fit the owner")
        # queue
        if add:
            ok = len(add) == 1 and same(st, add[0][1], ME) and ph == "idle" and st.gh["ph"] == "idle"
            self.chk("C03", "grant-dequeues", ok, st, c.l, "queues something else than the caller that blocks")
            self.chk("C03", "fifo", add[0][2], st, c.l, "a waiter is not queued at the end")
            self.chk("C03", "no-strand", st.eq(o1, NULL) is False, st, c.l, "queues itself although the lock is free")
            st.gh["ph"] = "queued"
        self.woken(st, c, granted, woken)
        if st.gh["ph"] == "queued":
            self.chk("C03", "queued-before-suspend", st.gh["flag"], st, c.l, "releases the internal lock, queued but not marked as waiting")

    def woken(self, st, c, granted, woken):
        left = list(woken)
        owed = []
        for g in granted:
            hit = [x for x in left if same(st, x, g)]
            if hit:
                left.remove(hit[0])
            else:
                owed.append(g)
        self.chk("C03", "grant-wakes", not left, st, c.l, "wakes a coroutine that was not made owner")
        st.gh["owed"] = tuple(owed)

    def start(self, ph, cnt=None):
        st = super().start(ph)
        st.gh["cnt"] = st.fresh(lo=1) if ph == "own" and self.C else I(1)
        st.gh["cnt0"] = st.gh["cnt"]
        return st

    def verify(self):
        p, q = self.prog, self.rec
        lock, tryl, unlock = p.fn(q + "::lock"), p.fn(q + "::try_lock"), p.fn(q + "::unlock")
        # constructor: free
        for ph in ["idle"] + (["own"] if self.recursive else []):
            it, res = self.run(lock, ph)
            for s, v in res:
                ok = not bad(v) and s.gh["ph"] == "own"
                self.chk("C01", "lock-owns", ok, s, lock["l"], "lock ends without the caller being owner" if not bad(v) else "lock throws")
                if self.C:
                    want = 1 if ph == "idle" else None
                    n = s.gh["cnt"]
                    ok = same(s, n, I(1)) if ph == "idle" else s.node(n) == addc(s.node(s.gh["cnt0"]), 1)
                    self.chk("C01", "recursion-count", ok, s, lock["l"], "lock does not add exactly one level")
                self.at_exit(s, lock)
        trys = [(tryl, None)]
        for f in p.fns("cocpp::co_timed_addition::try_lock_until") + p.fns("cocpp::co_timed_addition::try_lock_for"):
            if f["cls"].endswith("<%s>" % q):
                trys.append((f, f["cls"]))
        for f, cls in trys:
            for ph in ("idle", "own"):
                it, res = self.run(f, ph, this_rec=cls)
                seen = set()
                for s, v in res:
                    self.at_exit(s, f)
                    if bad(v):
                        self.chk("C01", "try-false-clean", False, s, f["l"], "try throws")
                        continue
                    for s2, b in it.split_true(s, it.rv(s, v)):
                        seen.add(b)
                        if b:
                            ok = s2.gh["ph"] == "own" and (ph == "idle" or self.recursive)
                            self.chk("C01", "try-true-owns", ok, s2, f["l"], "try reports success without making the caller the owner")
                            if self.C:
                                n, n0 = s2.node(s2.gh["cnt"]), s2.node(s2.gh["cnt0"]) if ph == "own" else ("Z", 0)
                                self.chk("C01", "recursion-count", n == addc(n0, 1), s2, f["l"], "a successful try does not add exactly one level")
                        else:
                            ok = s2.gh["ph"] == ph and s2.gh["cnt"] == s2.gh["cnt0"]
                            self.chk("C01", "try-false-clean", ok, s2, f["l"], "a failed try leaves the caller as owner or queued")
                if ph == "idle":
                    self.chk("C01", "try-true-owns", True in seen, None, f["l"], "try can never succeed")
        for ph in ("own", "idle"):
            it, res = self.run(unlock, ph)
            for s, v in res:
                self.at_exit(s, unlock)
                if ph == "idle":
                    self.chk("C01", "unlock-foreign", isinstance(v, Throw) and s.gh["ph"] == "idle", s, unlock["l"],
                             "unlock by a non-owner does not throw")
                    continue
                if self.C:
                    n0 = s.node(s.gh["cnt0"])
                    if s.gh["ph"] == "own":
                        ok = not bad(v) and s.node(s.gh["cnt"]) == addc(n0, -1)
                    else:
                        ok = not bad(v) and same(s, s.gh["cnt0"], I(1))
                else:
                    ok = not bad(v) and s.gh["ph"] == "idle"
                self.chk("C01", "unlock-own", ok, s, unlock["l"], "unlock by the owner does not give up exactly one level")
        # initial state
        ctor = [f for f in p.fns(q + "::" + q.rsplit("::", 1)[1]) if not f["p"]]
        if not ctor:
            raise AnalysisBroken("anchor vanished: constructor of " + q)
        self.entry = q + "::ctor"
        it = self.interp()
        st = self.start("idle")
        st.gh["in"] = True
        for s, v in it.run(st, ctor[0], O, []):
            self.chk("C01", "owner-step", same(s, it.load(s, self.W), NULL) and it.seq(s, self.Q) == (), s, ctor[0]["l"], "a new lock is not free")
        self.rep.use(it)


def addc(n, d):
    return (n[0], n[1] + d) if n else None


def run_mutexes(prog, rep):
    for rec, r in (("cocpp::co_mutex", False), ("cocpp::co_recursive_mutex", True)):
        prog.rec(rec)
        MutexRule(prog, rep, rec, r).verify()


# ---- reader-writer lock ---------------------------------------------------------------------
class SharedRule(LockRule):
    P1 = "C02"
    U = "rw-under-lock"

    def __init__(self, prog, rep, rec):
        super().__init__(prog, rep, rec)
        own = field(prog, rec, "owners", lambda f: bt(f["t"]).startswith("std::set<cocpp::co_ctx *"), "owners__")
        self.W = O + (own,)
        typ = field(prog, rec, "lock mode", lambda f: bt(f["t"]).startswith("cocpp::co_shared_mutex::"), "lock_type__")
        self.T = O + (typ,)
        q = [f for f in prog.all_fields(rec) if f["n"] == self.queue][0]
        self.erec = targ(bt(q["t"]), 0)
        prog.rec(self.erec)
        self.ectx = field(prog, self.erec, "waiting coroutine", lambda f: is_ctx_ptr(f["t"]), "ctx")
        self.etyp = field(prog, self.erec, "requested mode", lambda f: not is_ctx_ptr(f["t"]), "type")
        self.modes = None

    def prot(self):
        return [self.Q, self.W, self.T]

    # elements of the queue and of the owner set
    def elem_ctx(self, it, st, e):
        if self.Q + (e, "@stale") in st.mem:
            return None
        return it.load(st, self.Q + (e, self.ectx))

    def init_elem(self, it, st, eid, v):
        st.mem[self.Q + (eid, self.ectx)] = v
        st.mem[self.Q + (eid, self.etyp)] = st.fresh(dom=(self.EX, self.SH))

    def distinct(self, it, st):
        out = []
        for x in st.mem[self.Q][1]:
            v = st.mem.get(self.Q + (x, self.ectx)) if not isinstance(x, tuple) else None
            if v is not None:
                out.append(v)
        for x in st.mem[self.W][1]:
            v = st.mem.get(self.W + (x,)) if not isinstance(x, tuple) else None
            if v is not None:
                out.append(v)
        return out

    def on_materialise(self, it, st, L, eid, rid):
        L = st.cl(L)
        if L == self.W:
            v = st.fresh()
            st.assume_ne(v, NULL)
            st.assume_ne(v, ME)
            for x in self.distinct(it, st):
                st.assume_ne(v, x)
            st.mem[self.W + (eid,)] = v
            return [st]
        return super().on_materialise(it, st, L, eid, rid)

    def on_write(self, it, st, L, old, new, l, frame):
        super().on_write(it, st, L, old, new, l, frame)
        if L == self.W:
            o = old[1] if old and old[0] == "seq" else ()
            n = new[1]
            d = st.gh["delta"]
            for x in o:
                if x not in n:
                    d += (("oadd" if 0 else "orem", it.load(st, self.W + (x,)) if not isinstance(x, tuple) else None, None),)
            for x in n:
                if x not in o:
                    d += (("oadd", it.load(st, self.W + (x,)), None),)
            st.gh["delta"] = d

    def queue_write(self, it, st, old, new, l):
        # remember the mode of what is taken out
        o = old[1] if old and old[0] == "seq" else ()
        n = new[1]
        d = st.gh["delta"]
        for i, x in enumerate(o):
            if x not in n:
                if isinstance(x, tuple) or self.Q + (x, "@stale") in st.mem:
                    if isinstance(x, tuple):
                        d += (("rem", None, None),)
                    else:
                        d += (("rem-stale", None, None),)
                else:
                    v = st.mem.get(self.Q + (x, self.ectx)) or st.gh.get(("_e", x), (None, None))[0]
                    t = st.mem.get(self.Q + (x, self.etyp)) or st.gh.get(("_e", x), (None, None))[1]
                    d += (("rem", v, t),)
        for x in n:
            if x not in o and not isinstance(x, tuple):
                if self.Q + (x, "@stale") in st.mem:
                    d += (("add-stale", None, None),)
                else:
                    d += (("add", it.load(st, self.Q + (x, self.ectx)), it.load(st, self.Q + (x, self.etyp))),)
        st.gh["delta"] = d

    def others(self, it, st):
        ph = st.gh["ph"]
        out = []

        def put(s, mode, owners, items):
            for p in self.prot():
                s.drop(p)
            s.mem[self.T] = I(mode)
            self.queue_cells(s, items)
            os = []
            for o in owners:
                if o == "R":
                    os.append(("R", "o%d" % fresh_no()))
                else:
                    e = "e%d" % fresh_no()
                    s.mem[self.W + (e,)] = o
                    os.append(e)
            s.mem[self.W] = ("seq", tuple(os))
            s.gh["m0"] = mode
            out.append(s)

        def other(s):
            o = s.fresh()
            s.assume_ne(o, NULL)
            s.assume_ne(o, ME)
            return o
        if ph == "idle":
            put(st.copy(), self.UN, [], ())
            s = st.copy()
            put(s, self.EX, [other(s)], (self.rest(),))
            s = st.copy()
            put(s, self.SH, [other(s), "R"], (self.rest(),))
        elif ph == "ownX":
            put(st.copy(), self.EX, [ME], (self.rest(),))
        elif ph == "ownS":
            put(st.copy(), self.SH, [ME, "R"], (self.rest(),))
        else:
            want = ph[-1]
            s = st.copy()
            s.gh["ph"], s.gh["flag"] = "own" + want, False
            if want == "X":
                put(s, self.EX, [ME], (self.rest(),))
            else:
                put(s, self.SH, [ME, "R"], (self.rest(),))
            for mode in (self.EX, self.SH):
                s = st.copy()
                e = "e%d" % fresh_no()
                o = other(s)
                put(s, mode, [o] + (["R"] if mode == self.SH else []), (self.rest(), e, self.rest()))
                s.mem[self.Q + (e, self.ectx)] = ME
                s.mem[self.Q + (e, self.etyp)] = I(self.EX if want == "X" else self.SH)
        return out

    def step(self, it, st, c):
        m0, m1 = st.gh["m0"], it.load(st, self.T)
        delta, woken, ph = st.gh["delta"], st.gh["woken"], st.gh["ph"]
        q, ow = st.mem[self.Q][1], st.mem[self.W][1]
        rem = [d for d in delta if d[0] == "rem"]
        add = [d for d in delta if d[0] == "add"]
        stale = [d for d in delta if d[0].endswith("-stale")]
        oadd = [d[1] for d in delta if d[0] == "oadd"]
        orem = [d[1] for d in delta if d[0] == "orem"]
        # reordering the queue removes and adds the same coroutines
        for a in list(add):
            r = [x for x in rem if x[1] is not None and same(st, x[1], a[1])]
            if r:
                rem.remove(r[0])
                add.remove(a)
        for a in list(oadd):
            r = [x for x in orem if x is not None and same(st, x, a)]
            if r:
                orem.remove(r[0])
                oadd.remove(a)
        where = c.l
        # the state left behind
        n = [x for x in ow if not isinstance(x, tuple)]
        if same(st, m1, I(self.UN)):
            ok = not ow
            what = "the lock is marked free but has owners"
        elif same(st, m1, I(self.EX)):
            ok = len(ow) == 1 and len(n) == 1
            what = "the lock is marked exclusive but does not have exactly one owner"
        elif same(st, m1, I(self.SH)):
            ok = len(n) >= 1
            what = "the lock is marked shared but may have no owner"
        else:
            ok, what = False, "the mode of the lock is unknown"
        self.chk("C02", "rw-invariant", ok, st, where, what)
        if not ok and stale:
            pass
        granted = []
        me_in = any(same(st, x, ME) for x in oadd)
        me_out = any(x is not None and same(st, x, ME) for x in orem)
        if me_in:
            mode = "X" if same(st, m1, I(self.EX)) else "S"
            ok = ph == "idle" and len(oadd) == 1 and not orem and (m0 == self.UN or (mode == "S" and m0 == self.SH))
            self.chk("C02", "rw-owner-step", ok, st, where, "becomes an owner beside an incompatible one")
            st.gh["ph"] = "own" + mode
            self.chk("C03", "grant-dequeues", not rem and not stale, st, where, "takes a waiter from the queue without making it owner")
        elif me_out:
            self.chk("C02", "rw-owner-step", len(orem) == 1 and ph.startswith("own"), st, where, "removes an owner that did not release")
            st.gh["ph"] = "idle"
            still = m0 == self.SH and same(st, m1, I(self.SH)) and not oadd and n
            if still:
                self.chk("C02", "rw-grant", True, st, where, "")
                self.chk("C03", "grant-dequeues", not rem and not stale, st, where, "takes a waiter from the queue without making it owner")
            elif not oadd:
                self.chk("C03", "no-strand", not q, st, where, "frees the lock while coroutines wait for it")
                self.chk("C03", "grant-dequeues", not rem and not stale, st, where, "takes a waiter from the queue without making it owner")
            else:
                granted = oadd
                left = list(rem)
                ok = True
                for g in granted:
                    r = [x for x in left if x[1] is not None and same(st, x[1], g)]
                    if not r:
                        ok = False
                        continue
                    left.remove(r[0])
                    tm = same(st, r[0][2], m1) if r[0][2] is not None else False
                    self.chk("C02", "rw-grant", tm, st, where, "a waiter is made owner in another mode than it waits for")
                self.chk("C02", "rw-grant", ok, st, where, "ownership passes to a coroutine that was not taken from the queue")
                self.chk("C03", "grant-dequeues", ok and not left and not stale_net(stale), st, where,
                         "the coroutines taken from the queue are not exactly the ones made owner")
                self.chk("C03", "no-strand", True, st, where, "")
        else:
            self.chk("C02", "rw-owner-step", not oadd and not orem and same(st, m1, I(m0)), st, where, "changes owners or mode without acquiring or releasing")
            self.chk("C03", "grant-dequeues", not rem and not stale, st, where, "takes a waiter from the queue without making it owner")
        if add:
            ok = len(add) == 1 and same(st, add[0][1], ME) and ph == "idle" and st.gh["ph"] == "idle"
            self.chk("C03", "grant-dequeues", ok, st, where, "queues something else than the caller that blocks")
            self.chk("C03", "no-strand", st.eq(m1, I(self.UN)) is False, st, where, "queues itself although the lock is free")
            w = st.gh["want"]
            ok = same(st, add[0][2], I(self.EX if w == "X" else self.SH))
            self.chk("C02", "rw-grant", ok, st, where, "queues itself for the wrong mode")
            st.gh["ph"] = "queued" + w
        MutexRule.woken(self, st, c, granted, woken)
        if st.gh["ph"].startswith("queued"):
            self.chk("C03", "queued-before-suspend", st.gh["flag"], st, where, "releases the internal lock, queued but not marked as waiting")

    def find_modes(self):
        """the encodings of free, exclusive and shared"""
        p, q = self.prog, self.rec
        ctor = [f for f in p.fns(q + "::" + q.rsplit("::", 1)[1]) if not f["p"]]
        if not ctor:
            raise AnalysisBroken("anchor vanished: constructor of " + q)
        vals = []
        self.chk_on = False
        it = self.interp()
        st = State()
        st.gh.update({"in": True, "delta": (), "woken": (), "ph": "idle", "flag": False})
        for s, v in it.run(st, ctor[0], O, []):
            vals.append(s.mem.get(self.T))
            if it.seq(s, self.W) != () or it.seq(s, self.Q) != ():
                raise AnalysisBroken("a new reader-writer lock is not free")
        for name in ("try_lock", "try_lock_shared"):
            f = p.fn(q + "::" + name)
            it = self.interp()
            st = State()
            st.gh.update({"in": True, "delta": (), "woken": (), "ph": "idle", "flag": False})

            class R(KernelRule):
                def on_acquire(r, it, st, L, c, mode="lock"):
                    return [st]

                def on_release(r, it, st, L, c):
                    return [st]
            rr = R(p, self.rep)
            it = rr.interp()
            st.mem[self.T] = vals[0]
            st.mem[self.W] = ("seq", ())
            st.mem[self.Q] = ("seq", ())
            got = [s.mem.get(self.T) for s, v in it.run(st, f, O, []) if not bad(v) and it.rv(s, v) == TRUE]
            vals.append(got[0] if got else None)
        if any(v is None or v[0] != "i" for v in vals):
            raise AnalysisBroken("modes of the reader-writer lock not found: %r" % (vals,))
        self.UN, self.EX, self.SH = vals[0][1], vals[1][1], vals[2][1]
        self.entry = q
        return self.chk("C02", "rw-invariant", len({self.UN, self.EX, self.SH}) == 3, None, "try_lock/try_lock_shared",
                        "free, exclusive and shared are not told apart after a successful try")

    def run(self, fn, ph, want, args=(), this_rec=None):
        self.entry = fn["q"]
        it = self.interp()
        st = self.start(ph)
        st.gh["want"] = want
        if this_rec:
            st.typ[O] = this_rec
        if "_until" in fn["q"] or "_for" in fn["q"]:
            args = [("loc", ("arg0",))]
        res = it.run(st, fn, O, args)
        self.rep.use(it)
        self.rep.paths += len(res)
        return it, res

    def verify(self):
        if not self.find_modes():
            return
        p, q = self.prog, self.rec
        for name, w in (("lock", "X"), ("lock_shared", "S")):
            f = p.fn(q + "::" + name)
            it, res = self.run(f, "idle", w)
            for s, v in res:
                self.chk("C02", "rw-lock-owns", not bad(v) and s.gh["ph"] == "own" + w, s, f["l"], "%s ends without the caller owning the lock in that mode" % name)
                self.at_exit(s, f)
        trys = [(p.fn(q + "::try_lock"), "X", None), (p.fn(q + "::try_lock_shared"), "S", None)]
        for f in p.fns("cocpp::co_timed_addition::try_lock_until") + p.fns("cocpp::co_timed_addition::try_lock_for"):
            if f["cls"].endswith("<%s>" % q):
                trys.append((f, "X", f["cls"]))
        for n in ("try_lock_shared_until", "try_lock_shared_for"):
            trys += [(f, "S", f["cls"]) for f in p.fns("cocpp::co_shared_timed_mutex::" + n)]
        for f, w, cls in trys:
            for ph in ("idle", "ownX", "ownS"):
                it, res = self.run(f, ph, w, this_rec=cls)
                seen = set()
                for s, v in res:
                    self.at_exit(s, f)
                    if bad(v):
                        self.chk("C02", "rw-try-false-clean", False, s, f["l"], "try throws")
                        continue
                    for s2, b in it.split_true(s, it.rv(s, v)):
                        seen.add(b)
                        if b:
                            ok = s2.gh["ph"] == "own" + w and ph != "ownX"
                            self.chk("C02", "rw-try-true-owns", ok, s2, f["l"], "try reports success without making the caller an owner in that mode")
                        else:
                            self.chk("C02", "rw-try-false-clean", s2.gh["ph"] == ph, s2, f["l"], "a failed try changes ownership or leaves the caller queued")
                if ph == "idle":
                    self.chk("C02", "rw-try-true-owns", True in seen, None, f["l"], "try can never succeed")
        for name, w in (("unlock", "X"), ("unlock_shared", "S")):
            f = p.fn(q + "::" + name)
            for ph in ("idle", "ownX", "ownS"):
                it, res = self.run(f, ph, w)
                for s, v in res:
                    self.at_exit(s, f)
                    if ph == "own" + w:
                        self.chk("C02", "rw-unlock-own", not bad(v) and s.gh["ph"] == "idle", s, f["l"], "an owner cannot release")
                    else:
                        self.chk("C02", "rw-unlock-foreign", isinstance(v, Throw) and s.gh["ph"] == ph, s, f["l"],
                                 "releasing in a mode that is not held does not throw or changes the lock")


def stale_net(stale):
    a = sum(1 for d in stale if d[0] == "add-stale")
    r = sum(1 for d in stale if d[0] == "rem-stale")
    return a != r


def run_shared(prog, rep):
    prog.rec("cocpp::co_shared_mutex")
    SharedRule(prog, rep, "cocpp::co_shared_mutex").verify()


# ---- spin lock -----------------------------------------------------------------------------------
RULES["C01"] += [
    ("spin-take", "the spin lock is taken only by an atomic exchange that found it free"),
    ("spin-order", "taking has acquire and releasing has release ordering"),
    ("spin-release", "unlock frees the spin lock"),
]


class SpinRule(KernelRule):
    """gh 'mine': the current coroutine set the flag while it was clear"""
    primitive_locks = ()

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.flag = O + (field(prog, "cocpp::co_spinlock", "flag", lambda f: "atomic" in f["t"], "locked__"),)

    def on_atomic(self, it, st, L, op, c):
        if st.cl(L) != self.flag:
            return
        if not st.gh["mine"]:
            st.mem[self.flag] = st.fresh(dom=(0, 1))
        order = None
        for a, t in zip(c.args, c.node.get("pt", [])):
            if "memory_order" in t and a is not None:
                v = it.rv(st, a)
                order = v[1] if v[0] == "i" else None
        st.gh["_op"] = (op, order, c.l)

    def on_write(self, it, st, L, old, new, l, frame):
        if L != self.flag:
            return
        op, order, where = st.gh.get("_op", (None, None, l))
        if old is None:
            old = ("i", 0)
        if st.eq(new, I(0)) is True:
            self.chk("C01", "spin-release", op in ("store", "rmw") and st.gh["mine"], st, where, "frees the spin lock without owning it")
            self.chk("C01", "spin-order", order is None or order in (3, 4, 5), st, where, "releases without release ordering")
            st.gh["mine"] = False
        else:
            self.chk("C01", "spin-take", op == "rmw", st, where, "takes the spin lock without an atomic read-modify-write")
            self.chk("C01", "spin-order", order is None or order in (1, 2, 4, 5), st, where, "takes the lock without acquire ordering")
            if op == "rmw":
                # became owner only if it was clear
                st.gh["_was"] = old

    def verify(self):
        p = self.prog
        q = "cocpp::co_spinlock"
        for name in ("lock", "try_lock", "unlock"):
            f = p.fn(q + "::" + name)
            self.entry = f["q"]
            it = self.interp()
            st = State()
            st.gh.update({"mine": name == "unlock", "_was": None})
            if name == "unlock":
                st.mem[self.flag] = I(1)
            res = it.run(st, f, O, [])
            self.rep.use(it)
            self.rep.paths += len(res)
            for s, v in res:
                was = s.gh.get("_was")
                took = was is not None and s.eq(was, I(0)) is True
                if name == "lock":
                    self.chk("C01", "spin-take", not bad(v) and took, s, f["l"], "lock returns although the flag was set by somebody else")
                elif name == "try_lock":
                    for s2, b in it.split_true(s, it.rv(s, v)):
                        was = s2.gh.get("_was")
                        took = was is not None and s2.eq(was, I(0)) is True
                        ok = took if b else (was is None or s2.eq(was, I(1)) is True or s2.eq(was, I(0)) is False)
                        self.chk("C01", "spin-take", ok, s2, f["l"], "try_lock reports %s although the flag was %s" % (("success", "set") if b else ("failure", "clear")))
                else:
                    self.chk("C01", "spin-release", not s.gh["mine"], s, f["l"], "unlock does not free the lock")


def run_spin(prog, rep):
    SpinRule(prog, rep).verify()
