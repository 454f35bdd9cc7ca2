"""Abstract states: named memory cells, symbols with equality/disequality facts,
difference bounds between integers, ghost variables of the rules."""
import itertools

NULL = ("i", 0)
TRUE = ("i", 1)
FALSE = ("i", 0)


def I(n):
    return ("i", n)


class Counter:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


fresh_no = Counter()


class State:
    __slots__ = ("mem", "sub", "ne", "le", "dom", "typ", "gh", "held", "trace", "taint", "temps")

    def __init__(self):
        self.mem = {}
        self.sub = {}
        self.ne = frozenset()
        self.le = {}
        self.dom = {}
        self.typ = {}
        self.gh = {}
        self.held = ()
        self.trace = None
        self.taint = frozenset()
        self.temps = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.sub = dict(self.sub)
        s.ne = self.ne
        s.le = dict(self.le)
        s.dom = dict(self.dom)
        s.typ = dict(self.typ)
        s.gh = dict(self.gh)
        s.held = self.held
        s.trace = self.trace
        s.taint = self.taint
        s.temps = self.temps
        return s

    # ---- trace -------------------------------------------------------
    def ev(self, *e):
        self.trace = (self.trace, e)

    def events(self):
        out, t = [], self.trace
        while t:
            out.append(t[1])
            t = t[0]
        return out[::-1]

    # ---- values ------------------------------------------------------
    def fresh(self, dom=None, lo=None, hi=None):
        n = "s%d" % fresh_no()
        if dom is not None:
            dom = frozenset(dom)
            if len(dom) == 1:
                return ("i", next(iter(dom)))
            self.dom[n] = dom
        if lo is not None:
            self.le[("Z", n)] = -lo
        if hi is not None:
            self.le[(n, "Z")] = hi
        return ("s", n)

    def res(self, v):
        k = v[0]
        if k == "s":
            w = self.sub.get(v[1])
            if w is None:
                return v
            return self.res(w)
        if k == "l":
            w = self.sub.get(v[1])
            if w is None:
                return v
            w = self.res(w)
            return add_const(w, v[2])
        if k == "p":
            L = self.cl(v[1])
            if len(L) == 1 and L[0][0] == "*":
                return ("s", L[0][1:])
            if L is v[1]:
                return v
            return ("p", L)
        if k == "it":
            return ("it", self.cl(v[1]), v[2])
        return v

    def cl(self, L):
        r = L[0]
        if r[0] == "*":
            v = self.sub.get(r[1:])
            if v is None:
                return L
            v = self.res(v)
            if v[0] == "p":
                return self.cl(v[1] + L[1:])
            if v[0] == "s":
                return ("*" + v[1],) + L[1:]
            if v[0] == "clo":
                return self.cl(v[1] + L[1:])
            return ("!null",) + L[1:]
        return L

    def node(self, v):
        """integer view of a value: (symbol or 'Z', offset) or None"""
        v = self.res(v)
        if v[0] == "i":
            return "Z", v[1]
        if v[0] == "s":
            return v[1], 0
        if v[0] == "l":
            return v[1], v[2]
        return None

    def bound(self, a, b):
        """least c with a - b <= c known, or None"""
        if a == b:
            return 0
        if not self.le and a not in self.dom and b not in self.dom:
            return None
        dist = {a: 0}
        edges = [(x, y, c) for (x, y), c in self.le.items()]
        for s in (a, b):
            d = self.dom.get(s)
            if d:
                edges.append((s, "Z", max(d)))
                edges.append(("Z", s, -min(d)))
        for _ in range(len(edges) + 1):
            ch = False
            for x, y, c in edges:
                if x in dist:
                    d = dist[x] + c
                    if y not in dist or d < dist[y]:
                        dist[y] = d
                        ch = True
            if not ch:
                break
            if _ > 40:
                break
        return dist.get(b)

    def le_known(self, a, b, c=0):
        """is a - b <= c known / refuted / unknown"""
        na, nb = self.node(a), self.node(b)
        if na is None or nb is None:
            return None
        need = c - na[1] + nb[1]
        u = self.bound(na[0], nb[0])
        if u is not None and u <= need:
            return True
        l = self.bound(nb[0], na[0])
        if l is not None and -l > need:
            return False
        return None

    def assume_le(self, a, b, c=0):
        k = self.le_known(a, b, c)
        if k is not None:
            return k
        na, nb = self.node(a), self.node(b)
        if na is None or nb is None:
            return True
        need = c - na[1] + nb[1]
        old = self.le.get((na[0], nb[0]))
        if old is None or need < old:
            self.le[(na[0], nb[0])] = need
        # tight bounds on both sides make an equality
        u, l = self.bound(na[0], nb[0]), self.bound(nb[0], na[0])
        if u is not None and l is not None and u == -l:
            if na[0] != "Z":
                other = ("i", u) if nb[0] == "Z" else add_const(("s", nb[0]), u)
                return self.unify(na[0], other)
            return self.unify(nb[0], ("i", l))
        # a bound that meets a recorded disequality tightens by one
        for v in (na[0], nb[0]):
            if v != "Z" and not self._tighten(v):
                return False
        return True

    def _tighten(self, s):
        for _ in range(4):
            ch = False
            for p in self.ne:
                a, b = tuple(self.res(x) for x in p) if len(p) == 2 else (None, None)
                if a is None:
                    continue
                for x, y in ((a, b), (b, a)):
                    if x == ("s", s) and y[0] == "i":
                        lo = self.bound("Z", s)
                        hi = self.bound(s, "Z")
                        if lo is not None and -lo == y[1]:
                            self.le[("Z", s)] = lo - 1
                            ch = True
                        if hi is not None and hi == y[1]:
                            self.le[(s, "Z")] = hi - 1
                            ch = True
            lo, hi = self.bound("Z", s), self.bound(s, "Z")
            if lo is not None and hi is not None:
                if -lo > hi:
                    return False
                if -lo == hi and s not in self.sub:
                    return self.unify(s, ("i", hi))
            if not ch:
                return True
        return True

    # ---- equality ----------------------------------------------------
    def eq(self, a, b):
        a, b = self.res(a), self.res(b)
        if a == b:
            return True
        ka, kb = a[0], b[0]
        if ka in ("p", "clo", "fn", "it") and kb in ("p", "clo", "fn", "it"):
            if ka != kb:
                return False
            if ka == "p":
                la, lb = a[1], b[1]
                sa, sb = la[0][0] == "*", lb[0][0] == "*"
                if (sa or sb) and la[1:] == lb[1:] and la[1:]:
                    va = ("s", la[0][1:]) if sa else ("p", la[:1])
                    vb = ("s", lb[0][1:]) if sb else ("p", lb[:1])
                    return self.eq(va, vb)
                if sa and len(la) > 1 and not sb or sb and len(lb) > 1 and not sa:
                    return False
                return False
            if ka == "it" and (a[1] == b[1]):
                return a[2] == b[2]
            return False
        if ka in ("p", "clo", "fn", "it") and kb == "i" or kb in ("p", "clo", "fn", "it") and ka == "i":
            return False
        if ka == kb and ka in ("i", "str"):
            return False
        a2, b2 = a, b
        if ka == "l" and kb in ("i", "s", "l"):
            a2, b2 = ("s", a[1]), add_const(b, -a[2])
        elif kb == "l" and ka in ("i", "s"):
            a2, b2 = add_const(a, -b[2]), ("s", b[1])
        for p in self.ne:
            if len(p) == 2:
                x, y = p
                x, y = self.res(x), self.res(y)
                if (x == a2 and y == b2) or (x == b2 and y == a2):
                    return False
        for x, y in ((a, b), (b, a)):
            if x[0] == "s" and y[0] == "i":
                d = self.dom.get(x[1])
                if d is not None and y[1] not in d:
                    return False
            if x[0] == "s" and y[0] == "p" and y[1][0][0] == "h" and len(y[1]) == 1:
                # an object allocated after the symbol was made is a different one
                try:
                    if int(x[1][1:]) < int(y[1][0][1:].split(".")[0]):
                        return False
                except ValueError:
                    pass
        na, nb = self.node(a), self.node(b)
        if na and nb:
            if na[0] == nb[0]:
                return na[1] == nb[1]
            d = nb[1] - na[1]
            u, l = self.bound(na[0], nb[0]), self.bound(nb[0], na[0])
            if u is not None and u < d or l is not None and -l > d:
                return False
            if u is not None and l is not None and u == d and -l == d:
                return True
        return None

    def assume_eq(self, a, b):
        r = self.eq(a, b)
        if r is not None:
            return r
        a, b = self.res(a), self.res(b)
        if a[0] == "p" and b[0] == "p":
            la, lb = a[1], b[1]
            va = ("s", la[0][1:]) if la[0][0] == "*" else ("p", la[:1])
            vb = ("s", lb[0][1:]) if lb[0][0] == "*" else ("p", lb[:1])
            return self.assume_eq(va, vb)
        for x, y in ((a, b), (b, a)):
            if x[0] == "s":
                return self.unify(x[1], y)
        for x, y in ((a, b), (b, a)):
            if x[0] == "l":
                return self.unify(x[1], add_const(y, -x[2]))
        return True

    def unify(self, s, v):
        v = self.res(v)
        if v == ("s", s):
            return True
        if v[0] in ("l",) and v[1] == s:
            return v[2] == 0
        d = self.dom.pop(s, None)
        if d is not None:
            if v[0] == "i":
                if v[1] not in d:
                    return False
            elif v[0] == "s":
                d2 = self.dom.get(v[1])
                nd = d if d2 is None else d & d2
                if not nd:
                    return False
                self.dom[v[1]] = nd
        self.sub[s] = v
        # rewrite difference bounds
        hit = [(k, c) for k, c in self.le.items() if s in k]
        for k, c in hit:
            del self.le[k]
        if hit:
            n = self.node(v)
            for (x, y), c in hit:
                if n is None:
                    continue
                if x == s:
                    x2, c2 = n[0], c - n[1]
                    y2 = y
                else:
                    y2, c2 = n[0], c + n[1]
                    x2 = x
                if x2 == y2:
                    if c2 < 0:
                        return False
                    continue
                o = self.le.get((x2, y2))
                if o is None or c2 < o:
                    self.le[(x2, y2)] = c2
                b = self.bound(y2, x2)
                if b is not None and b + c2 < 0:
                    return False
        # move the cells of the object the symbol points to
        root = "*" + s
        mv = [k for k in self.mem if k[0] == root]
        for k in mv:
            val = self.mem.pop(k)
            nk = self.cl(k)
            if nk in self.mem:
                o = self.mem[nk]
                if isinstance(val, tuple) and isinstance(o, tuple) and val[0] in "sli" and o[0] in "sli":
                    if not self.assume_eq(val, o):
                        return False
            else:
                self.mem[nk] = val
        mt = [k for k in self.typ if k[0] == root]
        for k in mt:
            t = self.typ.pop(k)
            self.typ.setdefault(self.cl(k), t)
        for p in self.ne:
            if len(p) == 2:
                x, y = p
                if self.res(x) == self.res(y):
                    return False
        if v[0] == "s" and not self._tighten(v[1]):
            return False
        if v[0] == "s":
            d = self.dom.get(v[1])
            if d is not None and len(d) == 1:
                return self.unify(v[1], ("i", next(iter(d))))
        return True

    def assume_ne(self, a, b):
        r = self.eq(a, b)
        if r is not None:
            return not r
        a, b = self.res(a), self.res(b)
        # s + k != y  is  s != y - k
        if a[0] == "l" and b[0] in ("i", "s", "l"):
            a, b = ("s", a[1]), add_const(b, -a[2])
        elif b[0] == "l" and a[0] in ("i", "s"):
            a, b = add_const(a, -b[2]), ("s", b[1])
        for x, y in ((a, b), (b, a)):
            if x[0] == "s" and y[0] == "i" and x[1] in self.dom:
                d = self.dom[x[1]] - {y[1]}
                if not d:
                    return False
                if len(d) == 1:
                    return self.unify(x[1], ("i", next(iter(d))))
                self.dom[x[1]] = d
                return True
        self.ne = self.ne | {frozenset((a, b))}
        if b[0] in ("s", "l") and a[0] in ("s", "l"):
            # a <= b and a != b: a < b
            if self.le_known(a, b) is True:
                return self.assume_le(a, b, -1)
            if self.le_known(b, a) is True:
                return self.assume_le(b, a, -1)
        for x in (a, b):
            if x[0] == "s" and not self._tighten(x[1]):
                return False
        return True

    # ---- memory ------------------------------------------------------
    def get(self, L):
        return self.mem.get(self.cl(L))

    def put(self, L, v):
        self.mem[self.cl(L)] = v

    def drop(self, L):
        L = self.cl(L)
        n = len(L)
        for k in [k for k in self.mem if k[:n] == L]:
            del self.mem[k]
        for k in [k for k in self.typ if k[:n] == L]:
            del self.typ[k]

    def sub_cells(self, L):
        L = self.cl(L)
        n = len(L)
        return [(k[n:], v) for k, v in self.mem.items() if k[:n] == L]

    def copy_cells(self, src, dst):
        src, dst = self.cl(src), self.cl(dst)
        if src == dst:
            return
        cells = self.sub_cells(src)
        n = len(src)
        types = [(k[n:], t) for k, t in self.typ.items() if k[:n] == src]
        self.drop(dst)
        for t, v in cells:
            self.mem[dst + t] = v
        for t, r in types:
            self.typ[dst + t] = r

    # ---- canonical key (for loop convergence) -------------------------
    def key(self, extra=None):
        names, heap, elems = {}, {}, {}
        # element names by position
        def nl(L):
            r = L[0]
            if r[0] == "*":
                r = "*%d" % names.setdefault(r[1:], len(names))
            elif r[0] in "ht" and r[1:2].isdigit():
                r = "%s#%d" % (r[0], heap.setdefault(r, len(heap)))
            return (r,) + tuple(elems.get(x, x) for x in L[1:])

        def nv(v):
            if not isinstance(v, tuple) or not v:
                return v
            k = v[0]
            if k in ("s", "l", "p", "it"):
                v = self.res(v)
                k = v[0]
            if k == "s":
                return ("s", names.setdefault(v[1], len(names)))
            if k == "l":
                return ("l", names.setdefault(v[1], len(names)), v[2])
            if k in ("p", "ref", "clo", "loc"):
                return (k, nl(self.cl(v[1])))
            if k == "it":
                return ("it", nl(v[1]), elems.get(v[2], v[2]))
            if k == "seq":
                return ("seq", tuple("R" if isinstance(x, tuple) else elems.get(x, x) for x in v[1]))
            if k == "cmp":
                return (k, nv(v[1]), nv(v[2]))
            return v

        for k in sorted((k for k, v in self.mem.items() if v and v[0] == "seq"), key=str):
            base = "@".join(k[1:])
            for i, x in enumerate(self.mem[k][1]):
                if not isinstance(x, tuple):
                    elems[x] = "e:%s:%d" % (base, i)
        byroot = {}
        for k in self.mem:
            byroot.setdefault(k[0], []).append(k)
        roots = sorted(r for r in byroot if r[0] not in "*!" and not (r[0] in "ht" and r[1:2].isdigit()))
        out = []
        done = set()

        def emit(r):
            done.add(r)
            for k in sorted(byroot[r], key=lambda k: tuple(elems.get(x, x) for x in k[1:])):
                if any(x[:1] == "e" and x[1:].isdigit() and x not in elems for x in k[1:]):
                    continue        # an element no container holds any more
                out.append((nl(k), nv(self.mem[k])))
        for r in roots:
            emit(r)
        gh = []
        for k in sorted(self.gh, key=str):
            n = k if isinstance(k, str) else k[0]
            if n.startswith("_"):
                continue
            gh.append((str(_deep(k, nv)), _deep(self.gh[k], nv)))
        while True:
            more = [r for r in [("*" + s) for s in names] + list(heap) if r in byroot and r not in done]
            if not more:
                break
            for r in more:
                emit(r)
        ne = sorted(str(tuple(sorted(str(nv(x)) for x in p))) for p in self.ne
                    if all(self._named(x, names) for x in p))
        dom = sorted((names[s], tuple(sorted(d))) for s, d in self.dom.items() if s in names)
        le = sorted((str(names.get(a, a)), str(names.get(b, b)), c) for (a, b), c in self.le.items()
                    if (a == "Z" or a in names) and (b == "Z" or b in names)) if names else []
        held = tuple(nl(self.cl(x)) for x in self.held)
        return repr((out, gh, ne, dom, le, held, extra))

    def _named(self, v, names):
        v = self.res(v)
        return v[0] not in ("s", "l") or v[1] in names


def _deep(x, f):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in ("s", "l", "p", "it", "ref", "clo", "i", "seq", "cmp") and len(x) > 1:
            return f(x)
        return tuple(_deep(y, f) for y in x)
    if isinstance(x, frozenset):
        return tuple(sorted((_deep(y, f) for y in x), key=str))
    return x


def add_const(v, k):
    if k == 0:
        return v
    if v[0] == "i":
        return ("i", v[1] + k)
    if v[0] == "s":
        return ("l", v[1], k)
    if v[0] == "l":
        return add_const(("s", v[1]), v[2] + k) if v[2] + k else ("s", v[1])
    return v
