"""C06-C11: the objects built from a mutex and condition variables.

The mutex (C01) and the condition variable (C04) are taken as primitives.  A critical
section of an operation runs atomically: it starts from every state the other
operations may have left, and its effect must be one of the steps the property allows.
A notification counts for a change if it is made in the section of the change or after
it, before the operation ends.
"""
from engine.interp import bt, bad, is_seq, Throw, Call
from engine.models import lam_bool, lockish
from engine.program import AnalysisBroken
from engine.state import State, I, NULL, TRUE, FALSE, fresh_no, add_const
from .kernel import KernelRule, ME, field

O = ("obj",)
CV = "cocpp::co_condition_variable_impl"
INTS = ("long", "int", "unsigned long", "unsigned int", "long long", "unsigned long long", "short", "unsigned short")

RULES = {}


def rules(p, *rs):
    RULES.setdefault(p, []).extend(rs)


def is_int(f):
    t = bt(f["t"])
    if t.startswith("std::atomic<"):
        t = t[len("std::atomic<"):-1]
    return t in INTS


class Monitor(KernelRule):
    """gh: in, cred (notifications in this section), owed (notifications still due)"""
    primitive_locks = KernelRule.primitive_locks + ("cocpp::co_mutex",)
    P = "C00"
    X = "mon"

    def __init__(self, prog, rep, rec):
        super().__init__(prog, rep)
        self.rec = rec
        prog.rec(rec)
        self.M = None
        self.learning = False
        self.blocked = set()
        self.intrinsics.update({
            CV + "::wait": self.cv_wait, CV + "::wait_for": self.cv_wait, CV + "::wait_until": self.cv_wait,
            CV + "::notify_one": self.cv_notify, CV + "::notify_all": self.cv_notify,
        })

    def chk(self, props, rid, ok, st, where, msg):
        if self.learning:
            return bool(ok)
        return super().chk(props, rid, ok, st, where, msg)

    def prot(self):
        return []

    def atomics(self):
        return []

    def is_prot(self, L):
        return any(L[:len(p)] == p for p in self.prot())

    # ---- accesses ------------------------------------------------------------------------
    def on_read(self, it, st, L, l, frame):
        if l is not None and st.gh.get("live") and self.is_prot(L) and not any(L[:len(p)] == p for p in self.atomics()):
            self.chk(self.P, self.X + "-locked", st.gh["in"], st, l, "reads shared state without the mutex")

    def on_write(self, it, st, L, old, new, l, frame):
        if st.gh.get("live") and self.is_prot(L):
            self.chk(self.P, self.X + "-locked", st.gh["in"], st, l, "changes shared state without the mutex")
            self.written(it, st, L, old, new, l)

    def written(self, it, st, L, old, new, l):
        pass

    def on_atomic(self, it, st, L, op, c):
        L = st.cl(L)
        if st.gh.get("live") and not st.gh["in"] and self.is_prot(L):
            self.outside(it, st, L)

    def outside(self, it, st, L):
        """an atomic is read without the mutex: any value others may have written"""
        st.drop(L)

    def lazy(self, it, st, L, t):
        return None

    # ---- sections ---------------------------------------------------------------------------
    def on_acquire(self, it, st, L, c, mode="lock"):
        if L != self.M or not st.gh.get("live"):
            return super().on_acquire(it, st, L, c, mode)
        self.chk(self.P, self.X + "-locked", not st.gh["in"], st, c.l, "takes the mutex it already holds")
        st.held = st.held + (L,)
        out = []
        for s in self.others(it, st):
            s.gh["in"] = True
            s.gh["cred"] = ()
            out.append(s)
        return out

    def on_release(self, it, st, L, c):
        if L == self.M and st.gh.get("live"):
            self.chk(self.P, self.X + "-locked", st.gh["in"], st, c.l, "releases the mutex it does not hold")
            if st.gh["in"]:
                need = self.section(it, st, c) or {}
                owed = dict(st.gh["owed"])
                for cv, n in need.items():
                    owed[cv] = n if cv not in owed or n == "all" else ("all" if owed[cv] == "all" else owed[cv] + n)
                for cv, al in st.gh["cred"]:
                    pay(owed, cv, al)
                st.gh["owed"] = tuple(sorted(owed.items(), key=str))
            st.gh["in"] = False
            st.gh["cred"] = ()
            for p in self.prot():
                st.drop(p)
        return super().on_release(it, st, L, c)

    def others(self, it, st):
        return [st]

    def section(self, it, st, c):
        return {}

    # ---- condition variables -----------------------------------------------------------------
    def cv_wait(self, it, st, c):
        name = c.q.rsplit("::", 1)[1]
        timed = name != "wait"
        k = 2 if timed else 1
        pred = c.args[k] if len(c.args) > k else None
        G = it.loc_of(st, c.args[0])
        lt = bt(c.node["pt"][0])
        cv = st.cl(c.this)

        def once(s):
            self.chk(self.P, self.X + "-locked", s.gh["in"], s, c.l, "waits without holding the mutex")
            self.blocked.add((cv, self.role(s)))
            self.on_block(it, s, cv, c, timed)
            s.ev("cv-wait", c.l, cv)
            out = []
            for s1, v in lockish(it, s, G, lt, "unlock", c):
                if bad(v):
                    out.append((s1, v))
                else:
                    out += lockish(it, s1, G, lt, "lock", c)
            return out
        if pred is None:
            return [(s, v if bad(v) else (s.fresh(dom=(0, 1)) if timed else NULL)) for s, v in once(st)]
        out = []
        for s, b in lam_bool(it, st, pred, [], c):
            if bad(b) or b:
                out.append((s, b if bad(b) else TRUE))
                continue
            for s1, v in once(s):
                if bad(v):
                    out.append((s1, v))
                    continue
                for s2, b2 in lam_bool(it, s1, pred, [], c):
                    if bad(b2):
                        out.append((s2, b2))
                    elif b2:
                        out.append((s2, TRUE))
                    else:
                        # it would wait again
                        self.on_block(it, s2, cv, c, timed)
                        if timed:
                            out.append((s2, FALSE))
        return out

    def role(self, st):
        return st.gh.get("op")

    def on_block(self, it, st, cv, c, timed):
        pass

    def cv_notify(self, it, st, c):
        cv, al = st.cl(c.this), c.q.endswith("all")
        st.ev("notify-all" if al else "notify-one", c.l, cv)
        if st.gh["in"]:
            st.gh["cred"] = st.gh["cred"] + ((cv, al),)
        else:
            owed = dict(st.gh["owed"])
            pay(owed, cv, al)
            st.gh["owed"] = tuple(sorted(owed.items(), key=str))
        return [(st, NULL)]

    # ---- running ------------------------------------------------------------------------------
    def start(self, op, **kw):
        st = State()
        st.typ[O] = self.rec
        st.gh.update({"live": True, "op": op, "in": False, "cred": (), "owed": (), "pre": 0, "sch": 0})
        st.gh.update(kw)
        return st

    def run(self, fn, st, args=(), this=O, label=""):
        self.entry = fn["q"] + label
        it = self.interp()
        res = it.run(st, fn, this, list(args))
        if not self.learning:
            self.rep.use(it)
            self.rep.paths += len(res)
        return it, res

    def at_exit(self, s, fn):
        self.chk(self.P, self.X + "-locked", not s.gh["in"], s, fn["l"], "ends with the mutex held")
        self.chk(self.P, self.X + "-notify", not s.gh["owed"], s, fn["l"],
                 "ends without notifying %s" % ", ".join("%s (%s)" % (".".join(k), v) for k, v in s.gh["owed"]))

    def mutex_field(self):
        f = field(self.prog, self.rec, "mutex", lambda f: bt(f["t"]) == "cocpp::co_mutex")
        self.M = O + (f,)


def pay(owed, cv, al):
    if cv not in owed:
        return
    if al:
        del owed[cv]
    elif owed[cv] != "all":
        owed[cv] -= 1
        if owed[cv] <= 0:
            del owed[cv]


def same(st, a, b):
    return st.eq(a, b) is True


# ---- C06 --------------------------------------------------------------------------------------------
rules("C06",
      ("sem-range", "the number of permits stays between zero and the maximum"),
      ("sem-step", "each section takes one permit, adds permits, or changes nothing, as its operation says"),
      ("sem-total", "acquire and a successful try take one permit, a failed try none, release(n) adds n"),
      ("sem-block", "acquire blocks only without permits, release only when full"),
      ("sem-try", "a try fails only if it found no permit"),
      ("sem-notify", "each added permit notifies a waiting acquirer, each taken one a waiting releaser"),
      ("sem-locked", "permits are counted only under the mutex"),
      ("sem-init", "a new semaphore has the permits it was given"))


class SemRule(Monitor):
    P, X = "C06", "sem"

    def __init__(self, prog, rep, rec, mx):
        super().__init__(prog, rep, rec)
        self.mutex_field()
        self.N = O + (field(prog, rec, "permit count", is_int, "desired__"),)
        self.mx = mx
        self.cvA = self.cvR = None

    def prot(self):
        return [self.N]

    def atomics(self):
        return [self.N] if "atomic" in [f for f in self.prog.all_fields(self.rec) if f["n"] == self.N[1]][0]["t"] else []

    def others(self, it, st):
        st.drop(self.N)
        st.mem[self.N] = st.gh["n0"] = st.fresh(lo=0, hi=self.mx)
        return [st]

    def outside(self, it, st, L):
        st.drop(L)
        st.mem[L] = st.fresh(lo=0, hi=self.mx)

    def section(self, it, st, c):
        n0, n1 = st.gh["n0"], it.load(st, self.N)
        d = diff(st, n0, n1)
        self.chk("C06", "sem-range", st.le_known(I(0), n1) is True and st.le_known(n1, I(self.mx)) is True, st, c.l,
                 "the number of permits may leave the range 0..%d" % self.mx)
        op = st.gh["op"]
        ok = d is not None and (d in (0, -1) if op != "release" else d >= 0)
        self.chk("C06", "sem-step", ok, st, c.l, "%s changes the number of permits by %s" % (op, d))
        st.gh["tot"] = st.gh["tot"] + (d or 0)
        if d == 0:
            st.gh["zero"] = same(st, n1, I(0))
        need = {}
        if d and d < 0:
            for cv in self.cvR or ():
                need[cv] = "all" if cv in (self.cvA or ()) else -d
        if d and d > 0:
            for cv in self.cvA or ():
                need[cv] = "all" if cv in (self.cvR or ()) else d
        return need

    def on_block(self, it, st, cv, c, timed):
        n = it.load(st, self.N)
        op = st.gh["op"]
        if op == "release":
            self.chk("C06", "sem-block", same(st, n, I(self.mx)), st, c.l, "a release blocks although the semaphore may not be full")
        else:
            self.chk("C06", "sem-block", same(st, n, I(0)) and (op == "acquire" or timed), st, c.l,
                     "%s blocks although there may be a permit" % op if op != "try" else "a try blocks")

    def fns(self, name):
        return self.prog.fns("cocpp::co_counting_semaphore::" + name, lambda f: f["cls"] == self.rec)

    def ops(self):
        for op, names in (("acquire", ("acquire",)), ("release", ("release",)), ("try", ("try_acquire", "try_acquire_for", "try_acquire_until"))):
            for n in names:
                for f in self.fns(n):
                    yield op, n, f

    def verify(self):
        if not self.fns("acquire") or not self.fns("release"):
            raise AnalysisBroken("anchor vanished: operations of the semaphore")
        self.learning = True
        self.cvA, self.cvR = set(), set()
        for op, n, f in self.ops():
            self.blocked = set()
            st = self.start(op, tot=0, zero=False)
            self.run(f, st, [I(1)] if op == "release" else [("loc", ("arg0",))] if f["p"] else [])
            (self.cvR if op == "release" else self.cvA).update(cv for cv, _ in self.blocked)
        self.learning = False
        self.entry = self.rec
        self.chk("C06", "sem-block", self.cvA and self.cvR, None, self.rec, "acquire never blocks without permits or release never blocks when full")
        for op, n, f in self.ops():
            for k in ((0, 1, 2, 3) if op == "release" else (1,)):
                st = self.start(op, tot=0, zero=False)
                it, res = self.run(f, st, [I(k)] if op == "release" else [("loc", ("arg0",))] if f["p"] else [], label="<%d>" % self.mx)
                seen = set()
                for s, v in res:
                    self.at_exit(s, f)
                    if bad(v):
                        self.chk("C06", "sem-total", False, s, f["l"], "%s throws" % n)
                        continue
                    if op == "acquire":
                        self.chk("C06", "sem-total", s.gh["tot"] == -1, s, f["l"], "acquire takes %d permits" % -s.gh["tot"])
                    elif op == "release":
                        self.chk("C06", "sem-total", s.gh["tot"] == k, s, f["l"], "release(%d) adds %d permits" % (k, s.gh["tot"]))
                    else:
                        for s2, b in it.split_true(s, it.rv(s, v)):
                            seen.add(b)
                            self.chk("C06", "sem-total", s2.gh["tot"] == (-1 if b else 0), s2, f["l"],
                                     "a %s try takes %d permits" % ("successful" if b else "failed", -s2.gh["tot"]))
                            if not b:
                                self.chk("C06", "sem-try", s2.gh["zero"], s2, f["l"], "a try fails although there may have been a permit")
                if op == "try":
                    self.chk("C06", "sem-total", seen == {True, False}, None, f["l"], "a try has only one outcome")
        for f in self.prog.fns("cocpp::co_counting_semaphore::co_counting_semaphore", lambda f: f["cls"] == self.rec and len(f["p"]) == 1):
            st = self.start("init", live=False)
            v0 = st.fresh(lo=0, hi=self.mx)
            it = self.interp()
            self.entry = f["q"]
            for s, v in it.run(st, f, O, [v0]):
                self.chk("C06", "sem-init", not bad(v) and same(s, it.load(s, self.N), v0), s, f["l"], "a new semaphore does not have the given permits")
            self.rep.use(it)
        for f in self.fns("max"):
            st = self.start("init", live=False)
            it, res = self.run(f, st)
            for s, v in res:
                self.chk("C06", "sem-init", not bad(v) and same(s, it.rv(s, v), I(self.mx)), s, f["l"], "max() is not the maximum")


def diff(st, a, b):
    """b - a if known"""
    na, nb = st.node(a), st.node(b)
    if na is None or nb is None:
        return None
    if na[0] == nb[0]:
        return nb[1] - na[1]
    u, l = st.bound(nb[0], na[0]), st.bound(na[0], nb[0])
    if u is not None and l is not None and u == -l:
        return u + nb[1] - na[1]
    return None


def run_sem(prog, rep):
    n = 0
    for r in sorted(prog.records):
        if r.startswith("cocpp::co_counting_semaphore<"):
            SemRule(prog, rep, r, int(r[r.index("<") + 1:-1])).verify()
            n += 1
    if n < 2:
        raise AnalysisBroken("anchor vanished: semaphore instantiations")


# ---- C07 ----------------------------------------------------------------------------------------------
rules("C07",
      ("latch-step", "counting down by n removes exactly n, or throws and removes nothing if fewer remain"),
      ("latch-zero", "a wait returns only when nothing is outstanding"),
      ("latch-block", "a wait blocks only while something is outstanding"),
      ("latch-notify", "whoever brings the count to zero notifies all waiters"),
      ("latch-try", "try_wait is true exactly when nothing is outstanding"),
      ("latch-dtor", "destroying a wait group waits first"),
      ("latch-locked", "the count is used only under the mutex"))


class LatchRule(Monitor):
    P, X = "C07", "latch"

    def __init__(self, prog, rep, rec):
        super().__init__(prog, rep, rec)
        self.mutex_field()
        self.cv = O + (field(prog, rec, "condition variable", lambda f: bt(f["t"]) == CV),)
        self.learn_fields()

    def learn_fields(self):
        """outstanding = plus field - minus field, told apart by the constructor"""
        q = self.rec
        ctor = self.prog.fn(q + "::" + q.rsplit("::", 1)[1], 1, lambda f: is_int(f["p"][0]))
        st = self.start("init", live=False)
        x = st.fresh(lo=3)
        it = self.interp()
        (s, v), = it.run(st, ctor, O, [x])
        ints = [f["n"] for f in self.prog.all_fields(q) if is_int(f)]
        self.plus = [n for n in ints if same(s, it.load(s, O + (n,)), x)]
        self.minus = [n for n in ints if same(s, it.load(s, O + (n,)), I(0))]
        if len(self.plus) != 1 or len(self.minus) > 1:
            raise AnalysisBroken("anchor vanished: the count of %s (fields %s, %s)" % (q, self.plus, self.minus))
        self.A = O + (self.plus[0],)
        self.B = O + (self.minus[0],) if self.minus else None

    def prot(self):
        return [self.A] + ([self.B] if self.B else [])

    def atomics(self):
        t = {f["n"]: f["t"] for f in self.prog.all_fields(self.rec)}
        return [p for p in self.prot() if "atomic" in t[p[1]] or "const" in t[p[1]].split()]

    def put(self, st):
        if self.B is None:
            st.drop(self.A)
            v = st.fresh(lo=0)
            if st.gh.get("last") is not None:
                st.assume_le(v, st.gh["last"])
            st.mem[self.A] = st.gh["last"] = v
        else:
            st.mem[self.A] = st.gh["total"]
            st.drop(self.B)
            v = st.fresh(lo=0)
            st.assume_le(v, st.gh["total"])
            if st.gh.get("last") is not None:
                st.assume_le(st.gh["last"], v)
            st.mem[self.B] = st.gh["last"] = v

    def others(self, it, st):
        self.put(st)
        if st.gh["op"] == "down" and not st.gh["did"] and self.B is not None:
            # contract of the caller: no more calls than the count
            st.assume_le(st.mem[self.B], st.mem[self.A], -1)
        st.gh["s0"] = (st.mem[self.A], st.mem[self.B] if self.B else NULL)
        return [st]

    def outside(self, it, st, L):
        self.put(st)

    def on_release(self, it, st, L, c):
        if L != self.M or not st.gh.get("live") or not st.gh["in"]:
            return super().on_release(it, st, L, c)
        out = []
        for s, z in it.split_eq(st, it.load(st, self.A), it.load(st, self.B) if self.B else I(0)):
            out += super().on_release(it, s, L, c)
        return out

    def zero(self, it, st):
        a = it.load(st, self.A)
        b = it.load(st, self.B) if self.B else I(0)
        return st.eq(a, b)

    def section(self, it, st, c):
        a0, b0 = st.gh["s0"]
        a1, b1 = it.load(st, self.A), it.load(st, self.B) if self.B else NULL
        da, db = diff(st, a0, a1), diff(st, b0, b1)
        d = None if da is None or db is None else da - db
        st.gh["seen0"] = self.zero(it, st) is True
        op = st.gh["op"]
        need = {}
        if d is None or d != 0 or da != 0 and self.B:
            ok = op == "down" and not st.gh["did"] and d == -st.gh["n"] and (self.B is None or da == 0)
            self.chk("C07", "latch-step", ok, st, c.l, "the outstanding count changes by %s" % d)
            if self.B is None:
                self.chk("C07", "latch-step", st.le_known(I(0), a1) is True, st, c.l, "the outstanding count may become negative")
            st.gh["did"] = True
            if self.zero(it, st) is not False:
                need[self.cv] = "all"
        if self.B is None:
            st.gh["last"] = a1
        else:
            st.gh["last"] = b1
        return need

    def on_block(self, it, st, cv, c, timed):
        self.chk("C07", "latch-block", self.zero(it, st) is False, st, c.l, "a wait blocks although nothing may be outstanding")

    def begin(self, op, n=0):
        st = self.start(op, n=n, did=False, seen0=False, last=None)
        if self.B is not None:
            st.gh["total"] = st.fresh(lo=1 if op == "down" else 0)
        return st

    def verify(self):
        p, q = self.prog, self.rec
        downs = [(f, True) for f in p.fns(q + "::count_down")] + [(f, False) for f in p.fns(q + "::done")]
        if not downs:
            raise AnalysisBroken("anchor vanished: counting down of " + q)
        both = p.fns(q + "::arrive_and_wait")
        for f, has in downs + [(f, True) for f in both]:
            for n in ((1, 2, 5) if has else (1,)):
                st = self.begin("down", n)
                st.gh["e0"] = None
                it, res = self.run(f, st, [I(n)] if has else [])
                ok = thrown = False
                for s, v in res:
                    self.at_exit(s, f)
                    if isinstance(v, Throw):
                        thrown = True
                        e = s.gh["s0"][0]
                        self.chk("C07", "latch-step", has and not s.gh["did"] and s.le_known(e, I(n), -1) is True, s, f["l"],
                                 "throws although %d were outstanding, or after counting down" % n)
                        continue
                    ok = True
                    self.chk("C07", "latch-step", s.gh["did"] and not bad(v), s, f["l"], "returns without counting down by %d" % n)
                    if f in both:
                        self.chk("C07", "latch-zero", s.gh["seen0"], s, f["l"], "returns although something may be outstanding")
                self.chk("C07", "latch-step", ok and (thrown or not has), None, f["l"], "never %s" % ("counts down" if not ok else "throws"))
        waits = p.fns(q + "::wait")
        if not waits:
            raise AnalysisBroken("anchor vanished: wait of " + q)
        ds = p.fns(q + "::~" + q.rsplit("::", 1)[1]) if q.endswith("wait_group") else []
        if q.endswith("wait_group"):
            self.entry = q
            self.chk("C07", "latch-dtor", bool([d for d in ds if not d.get("implicit")]), None, q, "the destructor does not wait")
        for f in waits + ds:
            st = self.begin("wait")
            it, res = self.run(f, st)
            for s, v in res:
                self.at_exit(s, f)
                self.chk("C07", "latch-zero" if f in waits else "latch-dtor", not bad(v) and s.gh["seen0"], s, f["l"],
                         "returns although something may be outstanding")
            self.chk("C07", "latch-zero", bool(res), None, f["l"], "a wait never returns")
        for f in p.fns(q + "::try_wait"):
            st = self.begin("try")
            it, res = self.run(f, st)
            vals = set()
            for s, v in res:
                self.at_exit(s, f)
                self.chk("C07", "latch-try", not bad(v), s, f["l"], "try_wait throws")
                if bad(v):
                    continue
                for s2, b in it.split_true(s, it.rv(s, v)):
                    vals.add(b)
                    a, m = s2.gh["s0"]
                    z = s2.eq(a, m if self.B else I(0))
                    self.chk("C07", "latch-try", z is b, s2, f["l"], "try_wait returns %s although the count is %s" % (b, {True: "zero", False: "not zero", None: "unknown"}[z]))
            self.chk("C07", "latch-try", vals == {True, False}, None, f["l"], "try_wait has only one outcome")


def run_latch(prog, rep):
    for q in ("cocpp::co_latch", "cocpp::co_wait_group"):
        prog.rec(q)
        LatchRule(prog, rep, q).verify()


# ---- C08 ------------------------------------------------------------------------------------------------
rules("C08",
      ("bar-step", "an arrival lowers the remaining count, or as the last one starts the next phase with the full expected count"),
      ("bar-drop", "dropping lowers the expected count of later phases by one, other arrivals leave it"),
      ("bar-throw", "more arrivals than remain throw and change nothing, others succeed"),
      ("bar-token", "the token of an arrival names this barrier and the phase of the arrival"),
      ("bar-wait", "a wait returns only when the phase of its token is complete"),
      ("bar-block", "a wait blocks only while the phase of its token is incomplete"),
      ("bar-notify", "the completing arrival notifies all waiters"),
      ("bar-init", "a new barrier expects the given number of arrivals in every phase"),
      ("bar-locked", "the state of the barrier is changed only under the mutex"))


class BarrierRule(Monitor):
    P, X = "C08", "bar"

    def __init__(self, prog, rep, rec):
        super().__init__(prog, rep, rec)
        self.mutex_field()
        self.cv = O + (field(prog, rec, "condition variable", lambda f: bt(f["t"]) == CV),)
        self.ints = [f["n"] for f in prog.all_fields(rec) if is_int(f)]
        if len(self.ints) != 3:
            raise AnalysisBroken("anchor vanished: the counters of the barrier")
        self.learn()

    def learn(self):
        p, q = self.prog, self.rec
        ctor = p.fn(q + "::" + q.rsplit("::", 1)[1], 1)
        st = self.start("init", live=False)
        x = st.fresh(lo=3)
        it = self.interp()
        (s, v), = it.run(st, ctor, O, [x])
        given = [n for n in self.ints if same(s, it.load(s, O + (n,)), x)]
        arr = p.fn(q + "::arrive")
        ph = [n for n in self.ints if n not in given]
        self.entry = ctor["q"]
        if not self.chk("C08", "bar-init", len(given) == 2, s, ctor["l"], "a new barrier does not expect the given number of arrivals"):
            raise AnalysisBroken("counters of the barrier not found")
        rem = set()
        for s2, v2 in it.run(s, arr, O, [I(1)]):
            rem |= {n for n in given if diff(s2, x, it.load(s2, O + (n,))) == -1}
        if len(rem) != 1 or len(ph) != 1:
            raise AnalysisBroken("counters of the barrier not found")
        self.R = O + (rem.pop(),)
        self.Mx = O + ([n for n in given if n != self.R[1]][0],)
        self.G = O + (ph[0],)

    def prot(self):
        return [self.R, self.G, self.Mx]

    def atomics(self):
        t = {f["n"]: f["t"] for f in self.prog.all_fields(self.rec)}
        return [p for p in self.prot() if "atomic" in t[p[1]]]

    def put(self, st):
        for p in self.prot():
            st.drop(p)
        m = st.fresh(lo=0)
        r = st.fresh(lo=0)
        st.assume_le(r, m)
        g = st.fresh(lo=0)
        if st.gh.get("g") is not None:
            st.assume_le(st.gh["g"], g)
        st.gh["g"] = g
        st.mem[self.R], st.mem[self.G], st.mem[self.Mx] = r, g, m
        st.gh["s0"] = (r, g, m)

    def others(self, it, st):
        # a phase with nobody remaining exists only if nobody is expected
        s2 = st.copy()
        self.put(st)
        st.assume_le(I(1), st.mem[self.R])
        self.put(s2)
        out = [st]
        if s2.assume_eq(s2.mem[self.R], I(0)) and s2.assume_eq(s2.mem[self.Mx], I(0)):
            s2.gh["s0"] = (I(0), s2.gh["s0"][1], I(0))
            out.append(s2)
        return out

    def outside(self, it, st, L):
        self.put(st)

    def section(self, it, st, c):
        r0, g0, m0 = st.gh["s0"]
        r1, g1, m1 = (it.load(st, x) for x in (self.R, self.G, self.Mx))
        dg, dm, dr = diff(st, g0, g1), diff(st, m0, m1), diff(st, r0, r1)
        n = st.gh["n"]
        need = {}
        st.gh["g"] = g1
        st.gh["seen"] = g1
        if dg == 0 and dm == 0 and dr == 0:
            return need
        drop = 1 if st.gh["op"] == "drop" else 0
        self.chk("C08", "bar-drop", dm == -drop, st, c.l, "the expected count of later phases changes by %s" % dm)
        first = st.gh["op"] in ("arrive", "drop") and not st.gh["did"]
        if dg == 0:
            ok = first and dr == -n and st.eq(r1, I(0)) is False
            self.chk("C08", "bar-step", ok, st, c.l, "an arrival of %d changes the remaining count by %s%s" % (n, dr, "" if st.eq(r1, I(0)) is False else " and leaves a completed phase open"))
        else:
            ok = first and dg == 1 and same(st, r0, I(n)) and same(st, r1, m1)
            self.chk("C08", "bar-step", ok, st, c.l, "a phase ends although arrivals may be missing, or the next one does not start with the full count")
            need[self.cv] = "all"
        st.gh["did"] = True
        st.gh["mine"] = g0
        return need

    def on_block(self, it, st, cv, c, timed):
        tok = st.gh.get("tok") or st.gh.get("mine")
        ok = tok is not None and same(st, it.load(st, self.G), tok)
        self.chk("C08", "bar-block", ok, st, c.l, "a wait blocks although the phase of its token may be complete")

    def begin(self, op, n=1):
        return self.start(op, n=n, did=False, g=None, seen=None, mine=None, tok=None)

    def verify(self):
        p, q = self.prog, self.rec
        tokt = [r for r in p.records if r.endswith("co_arrival_token")]
        for name, op, ns in (("arrive", "arrive", (1, 2, 5)), ("arrive_and_wait", "arrive", (1,)), ("arrive_and_drop", "drop", (1,))):
            f = p.fn(q + "::" + name)
            for n in ns:
                st = self.begin(op, n)
                it, res = self.run(f, st, [I(n)] if f["p"] else [])
                kinds = set()
                for s, v in res:
                    self.at_exit(s, f)
                    r0 = s.gh["s0"][0]
                    if isinstance(v, Throw):
                        kinds.add("throw")
                        self.chk("C08", "bar-throw", not s.gh["did"] and s.le_known(r0, I(n), -1) is True, s, f["l"],
                                 "throws although %d arrivals remained, or after a change" % n)
                        continue
                    kinds.add("ok")
                    self.chk("C08", "bar-throw", s.gh["did"] and not bad(v), s, f["l"], "returns without having arrived")
                    if name == "arrive":
                        T = it.loc_of(s, v)
                        tg = [it.load(s, T + (x["n"],)) for r in tokt for x in p.all_fields(r)]
                        ok = s.gh["mine"] is not None and any(same(s, x, s.gh["mine"]) for x in tg) and any(same(s, x, ("p", O)) for x in tg)
                        self.chk("C08", "bar-token", ok, s, f["l"], "the token does not name this barrier and the phase of the arrival")
                    if name == "arrive_and_wait" and s.gh["mine"] is not None:
                        self.chk("C08", "bar-wait", s.le_known(s.gh["mine"], s.gh["seen"], -1) is True, s, f["l"], "returns although the phase may be incomplete")
                self.chk("C08", "bar-throw", kinds == {"ok", "throw"}, None, f["l"], "has only one outcome")
        # wait with a token of this barrier
        f = p.fn(q + "::wait", 1)
        st = self.begin("wait")
        T = ("user.token",)
        st.typ[T] = tokt[0]
        tg = st.fresh(lo=0)
        # which field of the token is the phase: the one an arrival fills with it
        names = self.token_fields()
        for x in p.all_fields(tokt[0]):
            st.mem[T + (x["n"],)] = tg if x["n"] == names[0] else ("p", O) if x["n"] == names[1] else st.fresh(lo=1)
        st.gh["g"] = tg
        st.gh["tok"] = tg
        it, res = self.run(f, st, [("loc", T)])
        for s, v in res:
            self.at_exit(s, f)
            self.chk("C08", "bar-wait", not bad(v), s, f["l"], "a wait with a valid token throws")
            if not bad(v):
                self.chk("C08", "bar-wait", s.gh["seen"] is not None and s.le_known(tg, s.gh["seen"], -1) is True, s, f["l"], "returns although the phase of the token may be incomplete")
                self.chk("C08", "bar-step", not s.gh["did"], s, f["l"], "a wait changes the barrier")
        self.chk("C08", "bar-wait", any(not bad(v) for s, v in res), None, f["l"], "a wait never returns")

    def token_fields(self):
        p = self.prog
        f = p.fn(self.rec + "::arrive")
        self.learning = True
        st = self.begin("arrive")
        it, res = self.run(f, st, [I(1)])
        self.learning = False
        tok = [r for r in p.records if r.endswith("co_arrival_token")][0]
        for s, v in res:
            if bad(v) or s.gh["mine"] is None:
                continue
            T = it.loc_of(s, v)
            g = [x["n"] for x in p.all_fields(tok) if same(s, it.load(s, T + (x["n"],)), s.gh["mine"])]
            b = [x["n"] for x in p.all_fields(tok) if same(s, it.load(s, T + (x["n"],)), ("p", O))]
            if g and b:
                return g[0], b[0]
        raise AnalysisBroken("fields of the arrival token not found")


def run_barrier(prog, rep):
    BarrierRule(prog, rep, "cocpp::co_barrier").verify()


# ---- C09 --------------------------------------------------------------------------------------------------
rules("C09",
      ("once-run", "the function is run only while holding the mutex of a flag that is not set, at most once per call"),
      ("once-set", "the flag is set only after the function has completed, before the mutex is released"),
      ("once-return", "a call returns normally only if the function is known to have completed"),
      ("once-throw", "an exception of the function reaches the caller, frees the mutex and leaves the flag unset"),
      ("once-args", "the function gets the arguments of the call"),
      ("once-locked", "the flag is set only under the mutex"))


class OnceRule(Monitor):
    P, X = "C09", "once"

    def __init__(self, prog, rep):
        super().__init__(prog, rep, "cocpp::co_once_flag")
        self.mutex_field()
        self.F = O + (field(prog, self.rec, "flag", lambda f: bt(f["t"]) in ("bool", "std::atomic<bool>", "std::atomic_flag")),)
        self.atomic = "atomic" in [f for f in prog.all_fields(self.rec) if f["n"] == self.F[1]][0]["t"]
        self.intrinsics["user_fn::operator()"] = self.user

    def prot(self):
        return [self.F]

    def atomics(self):
        return [self.F] if self.atomic else []

    def others(self, it, st):
        out = []
        st.drop(self.F)
        for v in (0, 1) if not st.gh["known"] else (1,):
            s = st.copy()
            s.mem[self.F] = I(v)
            s.gh["f0"] = v
            s.gh["known"] = s.gh["known"] or v == 1
            out.append(s)
        return out

    def outside(self, it, st, L):
        if st.gh["known"]:
            st.mem[L] = I(1)
        else:
            v = st.fresh(dom=(0, 1))
            st.drop(L)
            st.mem[L] = v
            st.gh["peek"] = v

    def written(self, it, st, L, old, new, l):
        if L == self.F and same(st, new, I(0)) is False:
            ok = st.gh["in"] and st.gh["ran"] == "done"
            self.chk("C09", "once-set", ok, st, l, "sets the flag although the function has not completed in this call")
            st.gh["known"] = True
        elif L == self.F:
            self.chk("C09", "once-set", not st.gh["known"], st, l, "clears the flag")

    def section(self, it, st, c):
        v = it.load(st, self.F)
        if st.gh["ran"] == "done":
            self.chk("C09", "once-set", same(st, v, I(1)), st, c.l, "releases the mutex after running the function without setting the flag")
        return {}

    def user(self, it, st, c):
        g = st.gh
        ok = g["in"] and st.eq(it.load(st, self.F), I(0)) is True and g["ran"] is None and not g["known"]
        self.chk("C09", "once-run", ok, st, c.l, "runs the function although it may run or have run elsewhere")
        a = it.loc_of(st, c.args[0]) if c.args and c.args[0] is not None else None
        self.chk("C09", "once-args", a == ("user.arg",), st, c.l, "the function does not get the argument of the call")
        s = st.copy()
        s.gh["ran"] = "threw"
        st.gh["ran"] = "done"
        return [(st, NULL), (s, Throw("user_exception", None, c.l))]

    def verify(self):
        p = self.prog
        fs = [f for f in p.fns("cocpp::co_call_once") if any("user_fn" in x["t"] for x in f["p"])]
        if not fs:
            raise AnalysisBroken("anchor vanished: co_call_once")
        for f in fs:
            st = self.start("once", known=False, ran=None, peek=None, f0=None)
            st.typ[("user.fn",)] = "user_fn"
            st.mem[("user.arg",)] = st.fresh()
            it, res = self.run(f, st, [("loc", O), ("loc", ("user.fn",)), ("loc", ("user.arg",))], this=None)
            kinds = set()
            for s, v in res:
                g = s.gh
                self.chk("C09", "once-locked", not g["in"], s, f["l"], "ends with the mutex held")
                if isinstance(v, Throw):
                    kinds.add("throw")
                    self.chk("C09", "once-throw", g["ran"] == "threw" and not g["known"], s, f["l"], "throws something else than the exception of its function, or after the flag was set")
                    continue
                known = g["known"] or g["peek"] is not None and s.eq(g["peek"], I(0)) is False
                kinds.add(g["ran"] or "other")
                self.chk("C09", "once-return", known and not bad(v), s, f["l"], "returns although the function may not have completed")
                self.chk("C09", "once-throw", g["ran"] != "threw", s, f["l"], "swallows the exception of the function")
            self.chk("C09", "once-return", {"throw", "done", "other"} <= kinds, None, f["l"], "cases are missing: %s" % sorted(kinds))


def run_once(prog, rep):
    OnceRule(prog, rep).verify()


# ---- C10, C11 ------------------------------------------------------------------------------------------------
rules("C10",
      ("chan-fifo", "values are added at the end and removed from the front of the queue only"),
      ("chan-value", "the value added is the value sent, the value received is the value removed"),
      ("chan-capacity", "a value is added only if the channel has room for it"),
      ("chan-once", "a send adds at most one value, a receive removes at most one, others change nothing"),
      ("chan-result", "a send succeeds exactly if it added its value and fails only if the channel is closed; a receive yields a value exactly if it removed one"),
      ("chan-block", "a sender blocks only while the channel is full, an unbuffered one also while it is not empty; a receiver only while it is empty"),
      ("chan-kind", "the capacity given selects an unlimited, unbuffered or bounded channel"),
      ("chan-locked", "the queue and the close flag are used only under the mutex"))
rules("C11",
      ("chan-no-add", "no value is added after closing"),
      ("chan-final", "closing sets the close flag and nothing clears it"),
      ("chan-drained", "a receive yields nothing only if the channel is closed and empty"),
      ("chan-stuck", "nobody blocks on a closed channel"),
      ("chan-notify", "adding notifies a receiver, removing the senders that may go on, closing everybody"),
      ("chan-iter", "an iterator is at the end exactly if its receive yielded nothing"),
      ("chan-query", "closed, empty and max_size tell the state of the channel"))


def pointee(t):
    t = bt(t)
    for p in ("std::shared_ptr<", "std::unique_ptr<"):
        if t.startswith(p):
            return bt(t[len(p):-1]) if p.startswith("std::shared") else bt(targ0(t))
    return None


def targ0(t):
    d, out = 0, ""
    for ch in t[t.index("<") + 1:-1]:
        if ch == "," and d == 0:
            break
        d += (ch == "<") - (ch == ">")
        out += ch
    return out


class ChanRule(Monitor):
    P, X = "C10", "chan"

    def __init__(self, prog, rep, rec, kind):
        super().__init__(prog, rep, rec)
        self.kind = kind
        self.cvS, self.cvR = set(), set()
        self.base()

    def base(self):
        """the object as its constructor leaves it"""
        name = self.rec.split("<")[0].rsplit("::", 1)[1]
        ctor = self.prog.fn("cocpp::co_chan::" + name, 1, lambda f: f["cls"] == self.rec and is_int(f["p"][0]))
        self.entry = ctor["q"]
        st = State()
        st.typ[O] = self.rec
        st.gh.update({"live": False, "pre": 0, "sch": 0})
        self.cap = {"unlimited": I(-1), "sync": I(0), "fixed": st.fresh(lo=1)}[self.kind]
        it = self.interp()
        res = it.run(st, ctor, O, [self.cap])
        if len(res) != 1 or bad(res[0][1]):
            raise AnalysisBroken("construction of a channel has %d outcomes" % len(res))
        self.st0 = s = res[0][0]
        self.cells, self.known, self.unknown = {}, [], []
        self.walk(it, s, O, self.rec, 0)
        for k in ("data", "closed", "mutex"):
            if len(self.cells.get(k, ())) != 1:
                raise AnalysisBroken("anchor vanished: the channel has %d candidates for its %s" % (len(self.cells.get(k, ())), k))
        self.D, self.C, self.M = (self.cells[k][0] for k in ("data", "closed", "mutex"))
        self.cvs = self.cells.get("cv", [])
        items = it.seq(s, self.D)
        self.chk("C10", "chan-kind", items == () and same(s, it.load(s, self.C), I(0)), s, ctor["l"], "a new channel is not empty and open")
        self.rep.use(it)

    def walk(self, it, s, L, rec, d):
        for f in self.prog.all_fields(rec):
            P = L + (f["n"],)
            t = bt(f["t"])
            pt = pointee(f["t"])
            if pt is not None:
                v = s.res(it.load(s, P))
                if v[0] != "p" or v == NULL:
                    continue
                P, t = s.cl(v[1]), pt
            if t.startswith(("std::deque<", "std::list<", "std::queue<", "std::vector<")):
                self.cells.setdefault("data", []).append(P)
            elif t in ("bool", "std::atomic<bool>"):
                self.cells.setdefault("closed", []).append(P)
            elif t == "cocpp::co_mutex":
                self.cells.setdefault("mutex", []).append(P)
            elif t == CV:
                self.cells.setdefault("cv", []).append(P)
            elif t in self.prog.records and d < 2:
                self.walk(it, s, P, s.typ.get(P, t), d + 1)
            elif "const" not in f["t"].split():
                self.unknown.append(P)

    def prot(self):
        return [self.D, self.C]

    def on_read(self, it, st, L, l, frame):
        super().on_read(it, st, L, l, frame)
        if st.gh.get("live") and any(L[:len(u)] == u for u in self.unknown):
            st.taint = st.taint | {"state kept in " + ".".join(L)}

    # ---- rely and steps ----------------------------------------------------------------------
    def others(self, it, st):
        out = []
        for cl in (0, 1):
            if st.gh["closed"] and not cl:
                continue
            s = st.copy()
            for p in self.prot():
                s.drop(p)
            rid = "q%d" % fresh_no()
            if s.gh["drained"]:
                s.mem[self.D] = ("seq", ())
                n = I(0)
            else:
                s.mem[self.D] = ("seq", (("R", rid),))
                n = s.fresh(lo=0, hi=1) if self.kind == "sync" else s.fresh(lo=0)
                if self.kind == "fixed":
                    s.assume_le(n, self.cap)
                s.gh[("_size", rid)] = n
            s.mem[self.C] = I(cl)
            s.gh["closed"] = bool(cl)
            s.gh["n0"], s.gh["c0"] = n, I(cl)
            s.gh["sec"] = ()
            out.append(s)
        return out

    def written(self, it, st, L, old, new, l):
        g = st.gh
        if L == self.C:
            ok = same(st, new, I(1))
            self.chk("C11", "chan-final", ok or same(st, st.gh["c0"], I(0)), st, l, "clears the close flag")
            self.chk("C10", "chan-once", g["op"] == "close" or not ok, st, l, "%s closes the channel" % g["op"])
            return
        if L != self.D or old is None or old[0] != "seq" or new[0] != "seq":
            return
        old, new = old[1], new[1]
        if old == new:
            return
        if len(new) == len(old) + 1 and new[:-1] == old:
            v = it.load(st, self.D + (new[-1],))
            self.chk("C10", "chan-once", g["op"] == "push" and not g["adds"], st, l, "%s adds a value" % g["op"])
            if g["op"] == "push":
                self.chk("C10", "chan-value", same(st, v, g["arg"]), st, l, "the value added is not the value sent")
            n = it.seq_size(st, self.D)
            room = True if self.kind == "unlimited" else st.le_known(n, self.cap if self.kind == "fixed" else I(1)) is True
            self.chk("C10", "chan-capacity", room, st, l, "adds a value although the channel may be full")
            self.chk("C11", "chan-no-add", same(st, it.load(st, self.C), I(0)), st, l, "adds a value although the channel may be closed")
            g["adds"] += 1
            g["sec"] = g["sec"] + ("add",)
        elif len(new) == len(old) - 1 and old[1:] == new and not isinstance(old[0], tuple):
            self.chk("C10", "chan-once", g["op"] == "pop" and not g["rems"], st, l, "%s removes a value" % g["op"])
            g["rems"] += 1
            g["rv"] = it.load(st, self.D + (old[0],))
            g["sec"] = g["sec"] + ("rem",)
        else:
            self.chk("C10", "chan-fifo", False, st, l, "changes the queue other than at its end (adding) or front (removing)")
            return
        self.chk("C10", "chan-fifo", True, st, l, "")

    def empty_known(self, it, st):
        items = it.seq(st, self.D)
        if not items:
            return True
        if any(not isinstance(x, tuple) for x in items):
            return False
        n = it.seq_size(st, self.D)
        return st.eq(n, I(0))

    def section(self, it, st, c):
        g = st.gh
        cl = it.load(st, self.C)
        closed = same(st, cl, I(1))
        if g["op"] == "pop" and not g["sec"]:
            e = self.empty_known(it, st)
            if closed and e is True:
                g["drained"] = True
        need = {}
        if "add" in g["sec"]:
            for cv in self.cvR:
                need[cv] = "all" if cv in {x for x, _ in self.cvS} else 1
        if "rem" in g["sec"]:
            for cv, before in self.cvS:
                mixed = (cv, not before) in self.cvS or cv in self.cvR
                need[cv] = "all" if mixed else 1
        if closed and same(st, g["c0"], I(0)):
            g["set"] = True
            for cv in {x for x, _ in self.cvS} | self.cvR:
                need[cv] = "all"
        g["closed"] = closed
        g["endc"] = cl
        return need

    def role(self, st):
        return (st.gh["op"], st.gh.get("adds", 0) == 0)

    def on_block(self, it, st, cv, c, timed):
        op = st.gh["op"]
        self.chk("C11", "chan-stuck", same(st, it.load(st, self.C), I(0)), st, c.l, "%s blocks although the channel may be closed" % op)
        e = self.empty_known(it, st)
        if op == "pop":
            self.chk("C10", "chan-block", e is True, st, c.l, "a receiver blocks although there may be a value")
        elif op == "push":
            if self.kind == "fixed":
                ok = same(st, it.seq_size(st, self.D), self.cap)
            else:
                ok = self.kind == "sync" and e is False
            self.chk("C10", "chan-block", ok, st, c.l, "a sender blocks although there may be room")
        else:
            self.chk("C10", "chan-block", False, st, c.l, "%s blocks" % op)

    def at_exit(self, s, fn):
        self.chk("C10", "chan-locked", not s.gh["in"], s, fn["l"], "ends with the mutex held")
        self.chk("C11", "chan-notify", not s.gh["owed"], s, fn["l"],
                 "ends without notifying %s" % ", ".join("%s (%s)" % (".".join(k), v) for k, v in s.gh["owed"]))

    # ---- operations ---------------------------------------------------------------------------
    def begin(self, op, **kw):
        st = self.st0.copy()
        st.gh.update({"live": True, "op": op, "in": False, "cred": (), "owed": (), "adds": 0, "rems": 0, "closed": False,
                      "drained": False, "set": False, "rv": None, "arg": None, "n0": None, "c0": None, "sec": (), "endc": None})
        st.gh.update(kw)
        return st

    def fns(self, name, n=0):
        fs = self.prog.fns("cocpp::co_chan::" + name, lambda f: f["cls"] == self.rec and len(f["p"]) == n)
        if not fs:
            raise AnalysisBroken("anchor vanished: co_chan::" + name)
        return fs

    def free(self, name):
        return [f for f in self.prog.fns("cocpp::" + name) if len(f["p"]) == 2 and self.rec in f["p"][0]["t"] and not f.get("cls")]

    def verify(self):
        push, pop = self.fns("push", 1)[0], self.fns("pop")[0]
        self.learning = True
        for op, f in (("push", push), ("pop", pop)):
            self.blocked = set()
            st = self.begin(op)
            st.gh["arg"] = a = st.fresh()
            self.run(f, st, [a] if op == "push" else [])
            if op == "push":
                self.cvS = {(cv, r[1]) for cv, r in self.blocked}
            else:
                self.cvR = {cv for cv, _ in self.blocked}
        self.learning = False
        lab = " (%s)" % self.kind
        self.entry = "cocpp::co_chan" + lab
        self.chk("C10", "chan-kind", bool(self.cvR) and bool(self.cvS) == (self.kind != "unlimited")
                 and any(not b for _, b in self.cvS) == (self.kind == "sync"), None, push["l"],
                 "blocking does not fit a channel that is %s" % self.kind)

        for f, free in [(push, False)] + [(x, True) for x in self.free("operator<") + self.free("operator<<")]:
            st = self.begin("push")
            st.gh["arg"] = a = st.fresh()
            it, res = self.run(f, st, [("loc", O), a] if free else [a], this=None if free else O, label=lab)
            self.chk("C10", "chan-result", res, None, f["l"], "a send never ends")
            for s, v in res:
                self.at_exit(s, f)
                if bad(v):
                    self.chk("C10", "chan-result", False, s, f["l"], "a send throws")
                elif f["q"].endswith("<<"):
                    self.chk("C10", "chan-result", s.gh["adds"] == 1 or s.gh["closed"], s, f["l"], "a send on an open channel adds nothing")
                else:
                    for s2, b in it.split_true(s, it.rv(s, v)):
                        self.chk("C10", "chan-result", b == (s2.gh["adds"] == 1), s2, f["l"], "a send returns %s having added %d values" % (b, s2.gh["adds"]))
                        if not b:
                            self.chk("C10", "chan-result", s2.gh["closed"], s2, f["l"], "a send fails although the channel may be open")

        for f, free in [(pop, False)] + [(x, True) for x in self.free("operator>") + self.free("operator>>")]:
            st = self.begin("pop")
            A = ("user.var",)
            st.mem[A] = st.fresh()
            it, res = self.run(f, st, [("loc", O), ("loc", A)] if free else [], this=None if free else O, label=lab)
            self.chk("C10", "chan-result", res, None, f["l"], "a receive never ends")
            for s, v in res:
                self.at_exit(s, f)
                if free:
                    got = it.load(s, A)
                    if f["q"].endswith(">>"):
                        outs = [(s, not bad(v))]
                    else:
                        outs = [(s, None)] if bad(v) else it.split_true(s, it.rv(s, v))
                elif bad(v):
                    outs = [(s, None)]
                else:
                    outs, got = self.optional(it, s, v)
                for s2, b in outs:
                    self.received(s2, f, b, got)

        f = self.fns("close")[0]
        it, res = self.run(f, self.begin("close"), label=lab)
        for s, v in res:
            self.at_exit(s, f)
            self.chk("C11", "chan-final", not bad(v) and s.gh["closed"], s, f["l"], "close does not close the channel")
        for name in ("closed", "empty", "max_size"):
            f = self.fns(name)[0]
            it, res = self.run(f, self.begin(name), label=lab)
            for s, v in res:
                self.at_exit(s, f)
                if name == "max_size":
                    self.chk("C11", "chan-query", not bad(v) and same(s, it.rv(s, v), self.cap), s, f["l"], "max_size is not the capacity given")
                    continue
                for s2, b in [(s, None)] if bad(v) else it.split_true(s, it.rv(s, v)):
                    t = s2.gh["c0"] is not None and (s2.eq(s2.gh["c0"], I(1)) if name == "closed" else s2.eq(s2.gh["n0"], I(0)))
                    self.chk("C11", "chan-query", t is b, s2, f["l"], "%s() returns %s although it is %s" % (name, b, t))
        self.iterate(lab)

    def optional(self, it, s, v):
        T = it.loc_of(s, v)
        outs = it.split_true(s, it.load(s, T + ("@has",)))
        return outs, it.load(s, T + ("@val",))

    def received(self, s, f, b, got):
        g = s.gh
        self.chk("C10", "chan-result", b is not None and b == (g["rems"] == 1), s, f["l"], "a receive %s having removed %d values" % ("yields a value" if b else "yields nothing", g["rems"]))
        if b:
            self.chk("C10", "chan-value", g["rv"] is not None and same(s, got, g["rv"]), s, f["l"], "the value received is not the value removed")
        else:
            self.chk("C11", "chan-drained", g["drained"], s, f["l"], "a receive yields nothing although the channel may be open or hold values")

    def iterate(self, lab):
        p = self.prog
        rec = self.rec + "::iterator"
        inc = p.fn("cocpp::co_chan::iterator::operator++", 0, lambda f: f["cls"] == rec)
        ne = [f for f in p.fns("cocpp::co_chan::iterator::operator!=") if f["cls"] == rec] or \
             [f for f in p.fns("cocpp::co_chan::iterator::operator==") if f["cls"] == rec]
        der = p.fn("cocpp::co_chan::iterator::operator*", 0, lambda f: f["cls"] == rec)
        bg, en = self.fns("begin")[0], self.fns("end")[0]
        neg = ne[0]["q"].endswith("==")
        A, B = ("user.it",), ("user.end",)

        def test(it, s):
            """-> [(state, at end)]"""
            for s1, v in it.run(s, en, O, []):
                s1.typ[B] = rec
                it.copy_obj(s1, it.loc_of(s1, v), B, rec)
                for s2, w in it.run(s1, ne[0], A, [("loc", B)]):
                    if bad(w):
                        yield s2, None
                    else:
                        for s3, b in it.split_true(s2, it.rv(s2, w)):
                            yield s3, (b if neg else not b)

        def judge(it, s, f):
            for s1, end in test(it, s):
                g = s1.gh
                self.chk("C11", "chan-iter", end is not None and end == (g["rems"] == 0) and (g["drained"] or not end), s1, f["l"],
                         "the iterator is %s the end having received %d values" % ("at" if end else "not at", g["rems"]))
                if end is False:
                    for s2, w in it.run(s1, der, A, []):
                        self.chk("C10", "chan-value", not bad(w) and s2.gh["rv"] is not None and same(s2, it.rv(s2, w), s2.gh["rv"]), s2, f["l"], "the iterator does not hold the value removed")
                    yield s1

        st = self.begin("pop")
        it, res = self.run(bg, st, label=lab)
        nxt = []
        for s, v in res:
            self.at_exit(s, bg)
            if bad(v):
                self.chk("C11", "chan-iter", False, s, bg["l"], "begin() throws")
                continue
            s.typ[A] = rec
            it.copy_obj(s, it.loc_of(s, v), A, rec)
            nxt += list(judge(it, s, bg))
        for s in nxt[:2]:
            s.gh.update({"rems": 0, "rv": None, "sec": ()})
            self.entry = inc["q"] + lab
            for s1, v in it.run(s, inc, A, []):
                self.at_exit(s1, inc)
                if bad(v):
                    self.chk("C11", "chan-iter", False, s1, inc["l"], "++ throws")
                    continue
                list(judge(it, s1, inc))


def run_chan(prog, rep):
    rec = "cocpp::co_chan<int>"
    for kind in ("unlimited", "sync", "fixed"):
        ChanRule(prog, rep, rec, kind).verify()
