"""C25: pipeline stages.

Channels are abstract: the input of a stage yields any items and ends at any time, the
output accepts items until its consumer goes away.  Each stage is followed on every path
and what it hands on is compared with what its definition selects.
"""
from engine.interp import bt, bad, Throw, Call
from engine.program import AnalysisBroken
from engine.state import State, I, NULL, TRUE, FALSE
from engine import models
from .kernel import KernelRule

RULES = {
    "C25": [
        ("pipe-items", "a stage hands on exactly the items its definition selects, in order, each once"),
        ("pipe-whole", "a stage goes on until its input ends, its consumer has gone or it has all its items"),
        ("pipe-close-out", "a stage closes its output at the end"),
        ("pipe-close-in", "a stage that stops before its input has ended closes it"),
        ("pipe-stop", "a stage whose consumer has gone takes no more input"),
        ("pipe-after", "nothing is handed on after the output was closed"),
        ("pipe-start", "a stage runs on its own coroutine that nobody waits for while it is set up"),
        ("pipe-throw", "a stage also closes its output if a function of the user throws"),
    ],
}
IN = ("pipe.in",)


class Pipe(KernelRule):
    def __init__(self, prog, rep, most):
        super().__init__(prog, rep)
        self.most = most
        self.throws = False
        self.intrinsics.update({
            "cocpp::co_chan::push": self.push,
            "cocpp::co_chan::pop": self.pop,
            "cocpp::co_chan::close": self.close,
            "cocpp::co_chan::closed": self.ended,
            "cocpp::co_chan::empty": self.ended,
            "cocpp::co::co": self.co_new,
            "cocpp::co::~co": lambda it, st, c: [(st, NULL)],
            "cocpp::co::detach": lambda it, st, c: [(st, NULL)],
            "cocpp::co::join": self.join,
            "cocpp::co::wait": self.join,
            "user_accept::operator()": self.accept,
            "user_val::operator()": self.value,
            "user_fold::operator()": self.value,
            "user_many::operator()": self.many,
            "user_next::operator()": self.next,
            "user_iter::operator*": self.it_get,
            "user_iter::operator++": self.it_next,
            "user_iter::operator!=": self.it_ne,
        })

    # ---- channels --------------------------------------------------------------------------------
    def side(self, it, st, c):
        """identity of a channel: the implementation shared by its copies"""
        v = st.res(it.load(st, st.cl(c.this) + (self.impl,), "ptr"))
        if v == ("p", IN):
            return "in"
        if v[0] == "p" and st.gh["serving"] and v == st.gh["mine"]:
            return "out"
        if v[0] == "p":
            return "other"
        raise AnalysisBroken("a channel is not known in " + self.entry)

    def push(self, it, st, c):
        v = st.res(it.rv(st, c.args[0]))
        if self.side(it, st, c) == "in":
            self.chk("C25", "pipe-items", False, st, c.l, "an item is put into the input")
            return []
        if self.side(it, st, c) == "other":
            self.chk("C25", "pipe-items", False, st, c.l, "an item is put into a channel that nobody reads")
            return []
        self.chk("C25", "pipe-after", not st.gh["closed_out"], st, c.l, "an item is handed on after the output was closed")
        st.gh["tried"] = st.gh["tried"] + (v,)
        if st.gh["gone"] or st.gh["closed_out"]:
            return [(st, FALSE)]
        if len(st.gh["tried"]) > self.most + 2:
            return []
        s2 = st.copy()
        s2.gh["gone"] = True
        return [(st, TRUE), (s2, FALSE)]

    def pop(self, it, st, c):
        L = it.new_root("t")
        if self.side(it, st, c) != "in":
            self.chk("C25", "pipe-items", False, st, c.l, "an item is taken back from the output")
            return []
        self.chk("C25", "pipe-stop", not (st.gh["gone"] and not st.gh["closed_in"] and not st.gh["ended"]), st, c.l,
                 "an item is taken although the consumer has gone")
        out = []
        if not st.gh["ended"] and not st.gh["closed_in"] and len(st.gh["in"]) < self.most:
            s = st.copy()
            x = s.fresh()
            s.gh["in"] = s.gh["in"] + (x,)
            s.mem[L + ("@has",)] = TRUE
            s.mem[L + ("@val",)] = x
            s.ev("item taken", c.l)
            out.append((s, ("loc", L)))
        st.gh["ended"] = True
        st.mem[L + ("@has",)] = FALSE
        st.ev("input has ended", c.l)
        return out + [(st, ("loc", L))]

    def close(self, it, st, c):
        w = self.side(it, st, c)
        st.gh["closed_" + w] = True
        if w == "out" and not st.gh["threw"]:
            left = [k for k in range(1, len(st.gh["cos"])) if k not in st.gh["done"] and k not in st.gh["ran"][-1:]]
            self.chk("C25", "pipe-after", not left, st, c.l, "the output is closed although a worker of the stage has not ended")
        st.ev("channel is closed", c.l)
        return [(st, NULL)]

    def ended(self, it, st, c):
        if self.side(it, st, c) == "in" and st.gh["ended"]:
            return [(st, TRUE)]
        return [(st.copy(), TRUE), (st, FALSE)]

    # ---- coroutines -------------------------------------------------------------------------------
    def co_new(self, it, st, c):
        f = models.to_callable(it, st, c.args[0])
        L = st.cl(c.this)
        if f[0] != "clo":
            raise AnalysisBroken("the body of a stage is not a closure in " + self.entry)
        st.gh["cos"] = st.gh["cos"] + ((L, f),)
        st.gh.setdefault("_at", c.l)
        return [(st, ("loc", L))]

    def body(self, it, st, k, c, fr):
        st.gh["ran"] = st.gh["ran"] + (k,)
        return it.call_value(st, st.gh["cos"][k][1], [], c, fr)

    def join(self, it, st, c):
        L = st.cl(c.this)
        ks = [k for k, x in enumerate(st.gh["cos"]) if x[0] == L]
        if not ks:
            raise AnalysisBroken("a coroutine that is waited for is not known in " + self.entry)
        k = ks[-1]
        if not st.gh["serving"]:
            self.chk("C25", "pipe-start", False, st, c.l, "setting up a stage waits until the stage has ended")
            return []
        if k in st.gh["ran"]:
            return [(st, NULL)]
        out = []
        for s, v in self.body(it, st, k, c, c.frame):
            s.gh["done"] = s.gh["done"] + (k,)
            out.append((s, v if bad(v) else NULL))
        return out

    # ---- functions of the user ----------------------------------------------------------------------
    def may_throw(self, it, st, c):
        if not self.throws:
            return []
        s = st.copy()
        s.gh["threw"] = True
        s.ev("function of the user throws", c.l)
        return [(s, Throw("user", None, c.l))]

    def accept(self, it, st, c):
        x = st.res(it.rv(st, c.args[0]))
        out = self.may_throw(it, st, c)
        known = dict(st.gh["verdict"])
        if x in known:
            return out + [(st, TRUE if known[x] else FALSE)]
        for b in (True, False):
            s = st.copy()
            s.gh["verdict"] = s.gh["verdict"] + ((x, b),)
            s.ev("item is %s" % ("accepted" if b else "refused"), c.l)
            out.append((s, TRUE if b else FALSE))
        return out

    def value(self, it, st, c):
        a = tuple(st.res(it.rv(st, x)) for x in c.args)
        out = self.may_throw(it, st, c)
        r = st.fresh()
        st.gh["results"] = st.gh["results"] + ((r, a),)
        return out + [(st, r)]

    def many(self, it, st, c):
        L = it.loc_of(st, c.args[0])
        out = self.may_throw(it, st, c)
        r = st.fresh()
        st.gh["results"] = st.gh["results"] + ((r, self.content(it, st, L)),)
        return out + [(st, r)]

    def content(self, it, st, L):
        q = st.mem.get(st.cl(L))
        if q is None or q[0] != "seq":
            return None
        r = []
        for x in q[1]:
            if isinstance(x, tuple):
                return None
            r.append(st.res(it.load(st, st.cl(L) + (x,), "int")))
        return tuple(r)

    def next(self, it, st, c):
        out = self.may_throw(it, st, c)
        L = it.new_root("t")
        if st.gh["ended"]:
            self.chk("C25", "pipe-stop", False, st, c.l, "the generator is called again after it has ended")
            return out
        self.chk("C25", "pipe-stop", not st.gh["gone"], st, c.l, "the generator is called although the consumer has gone")
        if len(st.gh["in"]) < self.most:
            s = st.copy()
            x = s.fresh()
            s.gh["in"] = s.gh["in"] + (x,)
            s.mem[L + ("@has",)] = TRUE
            s.mem[L + ("@val",)] = x
            out.append((s, ("loc", L)))
        st.gh["ended"] = True
        st.mem[L + ("@has",)] = FALSE
        return out + [(st, ("loc", L))]

    def pos(self, it, st, c, L):
        v = st.res(it.load(st, st.cl(L) + ("n",), "int"))
        if v[0] != "i":
            raise AnalysisBroken("the position of an iterator is not known in " + self.entry)
        return v[1]

    def it_get(self, it, st, c):
        n = self.pos(it, st, c, c.this)
        if n >= len(st.gh["in"]):
            self.chk("C25", "pipe-items", False, st, c.l, "an element behind the end is read")
            return []
        L = it.new_root("t")
        st.mem[L] = st.gh["in"][n]
        return [(st, ("loc", L))]

    def it_next(self, it, st, c):
        n = self.pos(it, st, c, c.this)
        st.mem[st.cl(c.this) + ("n",)] = I(n + 1)
        return [(st, ("loc", c.this))]

    def it_ne(self, it, st, c):
        return [(st, TRUE if self.pos(it, st, c, c.this) != self.pos(it, st, c, it.loc_of(st, c.args[0])) else FALSE)]

    # ---- stages -----------------------------------------------------------------------------------------
    def stage(self, name, args, want, source=None, over=False, after=None):
        """want(st, items, whole) -> what has to be handed on; source: number of elements"""
        f = self.prog.fn(name)
        self.entry = "stage " + name[5:]
        self.impl = self.fieldname
        st = State()
        st.typ[("user.pipe",)] = "cocpp::co_pipeline<int>"
        st.mem[("user.pipe", self.chanfield, self.impl)] = ("p", IN)
        st.gh.update(tried=(), gone=False, closed_out=False, closed_in=False, ended=False, cos=(), ran=(), done=(), results=(), verdict=(), threw=False, serving=False)
        st.gh["in"] = ()
        a = args(self, st)
        it = self.interp(loop_max=12, widen_at=99)
        n = 0
        for s, v in it.run(st, f, None, a):
            if bad(v):
                self.chk("C25", "pipe-items", False, s, f["l"], "setting up throws")
                continue
            if name == "pipe_to":
                got = self.content(it, s, it.loc_of(s, v))
                n += 1
                self.rep.paths += 1
                self.chk("C25", "pipe-items", got == s.gh["in"], s, f["l"], "the collection is not what came out of the channel")
                self.chk("C25", "pipe-whole", s.gh["ended"], s, f["l"], "items are left in the channel")
                continue
            outs = [k for k in range(len(s.gh["cos"]))]
            self.chk("C25", "pipe-start", len(outs) == 1, s, f["l"], "%d coroutines are started" % len(outs))
            if len(outs) != 1:
                continue
            s.gh["mine"] = s.res(it.load(s, it.loc_of(s, v) + (self.impl,), "ptr"))
            if after:
                after(self, s)
            s.gh["serving"] = True
            for s2, w in self.body(it, s, 0, models_call(f), None):
                self.rep.paths += 1
                n += 1
                self.judge(it, s2, w, f, want, source is not None, over)
        if not n:
            raise AnalysisBroken("%s: no path" % self.entry)
        self.rep.use(it)

    def judge(self, it, s, w, f, want, source, over):
        l = s.gh["_at"]
        if bad(w):
            if s.gh["threw"]:
                self.chk("C25", "pipe-throw", s.gh["closed_out"], s, l, "the output stays open after a function of the user has thrown")
            else:
                self.chk("C25", "pipe-items", False, s, l, "the stage throws")
            return
        self.chk("C25", "pipe-close-out", s.gh["closed_out"], s, l, "the output stays open")
        items = s.gh["in"]
        ended = s.gh["ended"] or source and not over
        if not source:
            self.chk("C25", "pipe-close-in", s.gh["ended"] or s.gh["closed_in"], s, l, "the input stays open although the stage has stopped before its end")
        exp = want(self, s, items)
        tried = s.gh["tried"]
        lab = {x: "item %d" % i for i, x in enumerate(items)}
        show = lambda q: ", ".join(lab.get(x, "result" if x in dict(s.gh["results"]) else "another value") for x in q) or "nothing"
        if s.gh["gone"]:
            # the consumer went away during one of the attempts
            ok = len(tried) <= len(exp) and self.same(s, tried, exp[:len(tried)])
            self.chk("C25", "pipe-items", ok, s, l, "hands on %s where %s is selected" % (show(tried), show(exp)))
            return
        done = ended or self.enough(s, items)
        self.chk("C25", "pipe-whole", done, s, l, "stops after %d items although input and consumer go on" % len(items))
        ok = len(tried) == len(exp) and self.same(s, tried, exp)
        self.chk("C25", "pipe-items", ok, s, l, "hands on %s where %s is selected" % (show(tried), show(exp)))

    def same(self, s, a, b):
        """an expected item may be one of several results"""
        return all(s.eq(x, y) is True if not isinstance(y, frozenset) else any(s.eq(x, z) is True for z in y) for x, y in zip(a, b))

    limit = None

    def enough(self, s, items):
        return self.limit is not None and len(items) >= self.limit


def models_call(f):
    return Call({"k": "Call", "q": f["q"], "l": f["l"], "args": [], "t": "void"}, None, [], None)


def results(s, *a):
    """values the function of the user returned for these arguments"""
    return frozenset(r for r, b in s.gh["results"] if b is not None and len(a) == len(b) and all(s.eq(x, y) is True for x, y in zip(a, b)))


def fold(s, init, items):
    acc = frozenset([init])
    for x in items:
        acc = frozenset(r for y in acc for r in results(s, y, x))
    return (acc,)


def run_pipe(prog, rep):
    deep = rep.tier == "thorough"
    most = 4 if deep else 3
    r = Pipe(prog, rep, most)
    rep.assumptions.append("A channel delivers what is put into it in order, ends when closed and empty, and refuses items once closed (decided by C10 and C11).")
    rec = prog.rec("cocpp::co_pipeline<int>")
    r.chanfield = [x["n"] for x in rec["fields"] if bt(x["t"]).startswith("cocpp::co_chan<")][0]
    ch = prog.rec("cocpp::co_chan<int>")
    r.fieldname = [x["n"] for x in ch["fields"] if "shared_ptr" in x["t"]][0]
    ctor = [f for f in prog.functions.values() if f["q"].startswith("cocpp::co_pipeline::co_pipeline")]
    rep.extra["stage_constructors"] = len({f["l"] for f in ctor})
    P = ("loc", ("user.pipe",))

    def user(ty, name="user.f"):
        def g(r, st):
            st.typ[(name,)] = ty
            return ("loc", (name,))
        return g

    args = lambda *a: (lambda r, st: [x(r, st) if callable(x) else x for x in a])

    def accepted(r, s, items):
        v = dict(s.gh["verdict"])
        return tuple(x for x in items if v.get(x))
    filt = lambda: r.stage("pipe_filter", args(P, user("user_accept")), accepted)
    mapped = lambda r, s, items: tuple(results(s, x) for x in items)
    for r.throws in (False, True):
        filt()
        r.stage("pipe_map", args(P, user("user_val")), mapped)
        for n in (1, 2):
            r.stage("pipe_fork", args(P, user("user_val"), I(n)), mapped)
        for n in (1, 2, 3):
            r.stage("pipe_group", args(P, user("user_many"), I(n)),
                    lambda r, s, items: tuple(results(s, *items[i:i + n]) for i in range(0, len(items) - n + 1, n)))
        init = ("s", "arg.init")
        r.stage("pipe_reduce", args(P, user("user_fold"), init), lambda r, s, items: fold(s, init, items))
        r.stage("pipe_next", args(user("user_next")), lambda r, s, items: items, source=True, over=True)
    r.throws = False
    for n in range(most + 1):
        r.limit = n
        r.stage("pipe_take", args(P, I(n)), lambda r, s, items: items[:n])
        r.limit = None
        r.stage("pipe_skip", args(P, I(n)), lambda r, s, items: items[n:])
    r.stage("pipe_to", args(P), None)

    # sources
    every = lambda r, s, items: items

    def collection(ty, k):
        def g(r, st):
            L = ("user.col",)
            st.typ[L] = ty
            xs = tuple(st.fresh() for _ in range(k))
            st.gh["in"] = xs
            eids = tuple("u%d" % i for i in range(k))
            st.mem[L] = ("seq", eids)
            for e, x in zip(eids, xs):
                st.mem[L + (e,)] = x
            return ("loc", L)
        return g

    def lost(r, s):
        """the collection of the caller does not live longer than the call"""
        for k in [k for k in s.mem if k[0] == "user.col"]:
            s.mem[k] = ("seq", ()) if len(k) == 1 else s.fresh()
    for k in range(most + 1):
        for name, ty in (("pipe_stream", "std::vector<int>"), ("pipe_collection", "std::vector<int>"), ("pipe_list", "std::initializer_list<int>")):
            r.stage(name, args(collection(ty, k)), every, source=k, after=lost)

        def iters(r, st):
            st.gh["in"] = tuple(st.fresh() for _ in range(k))
            for n, p in (("user.a", 0), ("user.b", k)):
                st.typ[(n,)] = "user_iter"
                st.mem[(n, "n")] = I(p)
            return [("loc", ("user.a",)), ("loc", ("user.b",))]

        def gone(r, s):
            for n in ("user.a", "user.b"):
                s.mem[(n, "n")] = s.fresh()
        r.stage("pipe_iter", iters, every, source=k, after=gone)
        for step in (1, 2):
            def steps(r, st):
                st.gh["in"] = tuple(I(5 + step * i) for i in range(k))
                return [I(5), I(5 + step * k), I(step)]
            r.stage("pipe_steps", steps, every, source=k)
