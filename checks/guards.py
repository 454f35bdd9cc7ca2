"""C27: shared data of the runtime is used under its lock, and locks are given back.

The operations are followed as for the order of locks; every access to a field of a shared
object is recorded with the locks held then.
"""
from engine.interp import bt, is_seq, Throw
from engine.program import AnalysisBroken
from .order import Order
from .core import MGR

P = "C27"
RULES = {
    "C27": [
        ("guarded", "data that several threads use is read and written under one lock", 60),
        ("released", "locks taken are released on every way out", 60),
    ],
}
SELF = ("std::atomic", "std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex", "std::condition_variable", "std::condition_variable_any",
        "cocpp::co_spinlock", "cocpp::co_mutex", "cocpp::co_recursive_mutex_with_count")


class Guards(Order):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.acc = {}

    def chk(self, props, rid, ok, st, where, msg):
        return self.rep.check(props, rid, bool(ok), st, str(where), msg, self.entry) if props == P else ok

    def on_read(self, it, st, L, l, frame):
        self.access(st, L, "read", l)

    def on_write(self, it, st, L, old, new, l, frame):
        self.access(st, L, "write", l)

    def owner(self, st, L):
        if L[0].startswith("sh.") and bt(st.typ.get(L[:1], "")) not in self.prog.records:
            return L[:1], L[0], ()
        for i in range(1, len(L)):
            t = st.typ.get(L[:i])
            if t is None:
                continue
            t = bt(t)
            path = []
            cur = t
            for x in L[i:]:
                fs = [f for f in self.prog.all_fields(cur) if f["n"] == x] if cur in self.prog.records else []
                if not fs:
                    break
                path.append(x)
                if bt(fs[0]["t"]).startswith(SELF):
                    return None
                cur = fs[0].get("rec") or bt(fs[0]["t"])
            if not path:
                return None
            return L[:i], t, tuple(path)
        return None

    def access(self, st, L, kind, l):
        if self.quiet or self.partial or self.entry.endswith("_info") or L[0].startswith(("arg", "conf", "user", "v", "t")):
            return
        o = self.owner(st, L)
        if o is None or self.private(st, o[0]):
            return
        base, t, path = o
        locks = set()
        for H in st.held:
            h, ho = self.cls(st, H)
            if ho == base or (ho[0].startswith(("sh.", "obj")) and base[0].startswith(("sh.", "obj"))):
                locks.add(h)
        k = (t, path)
        a = self.acc.setdefault(k, {})
        w = (self.entry, str(l), kind, frozenset(locks))
        if w not in a:
            a[w] = st.copy()


    def on_release(self, it, st, L, c):
        if not self.quiet and not self.partial and not L[0].startswith("user.") and not self.locker():
            self.chk(P, "released", L in st.held, st, c.l, "%s is released without being held" % self.cls(st, L)[0])
        return super().on_release(it, st, L, c)

    def locker(self):
        return "lock" in self.entry.split("::")[-1]

    def ended(self, f, r):
        if self.partial or self.locker():
            return
        for s, v in r:
            if isinstance(v, tuple) and v[0] in ("loc", "ref") and f["ret"].endswith("&"):
                self.access(s, self.it.loc_of(s, v), "read", f["l"])        # the caller uses it later, without the lock
            self.chk(P, "released", not s.held, s, f["l"], "returns%s with %s held" % (" by an exception" if isinstance(v, Throw) else "", ", ".join(self.cls(s, x)[0] for x in s.held)))


    def must(self, k):
        """data that cannot be meant for one thread only: lists, sets and queues of shared objects, states, marks, priorities"""
        t, path = k
        if not path:
            return True
        f = None
        for x in path:
            fs = [f for f in self.prog.all_fields(t) if f["n"] == x]
            if not fs:
                return False
            f = fs[0]
            owner, t = t, f.get("rec") or bt(f["t"])
        ft = bt(f["t"])
        if is_seq(ft):
            return not ("map<" in ft and "string" in ft)        # local storage belongs to the running coroutine
        return owner.startswith(("cocpp::co_flag_manager<", "cocpp::co_state_manager<")) or path[-1].startswith("priority")


def run_guards(prog, rep):
    G = Guards(prog, rep)
    G.collect()
    guarded = 0
    for k, a in sorted(G.acc.items()):
        if not any(w[2] == "write" for w in a):
            continue
        anyl = frozenset.union(*[w[3] for w in a])
        if not anyl and not G.must(k):
            continue
        guarded += 1
        common = frozenset.intersection(*[w[3] for w in a])
        best = max(sorted(anyl), key=lambda x: sum(x in w[3] for w in a)) if anyl else None
        for w in sorted(a, key=str):
            G.entry = w[0]
            name = ".".join((k[0],) + k[1])
            ok = bool(common) or (best is not None and best in w[3])
            G.chk(P, "guarded", ok, a[w], w[1], "%s of %s without %s, under which it is used elsewhere" % (w[2], name, best) if best else
                  "%s of %s under no lock" % (w[2], name))
    if len(G.failed) > 3:
        raise AnalysisBroken("%d operations could not be followed: %s" % (len(G.failed), sorted(G.failed.items())[0]))
    if guarded < 20:
        raise AnalysisBroken("only %d pieces of shared data found" % guarded)
    rep.use(G.it)
    rep.extra.update({"operations": len(set(G.done)), "runs_of_operations": len(G.done), "shared_data": guarded, "accesses": sum(map(len, G.acc.values())),
                      "operations_not_followed_to_the_end": len(G.failed)})
