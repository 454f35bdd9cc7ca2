"""C22-C24: input and output.

The operating system is an environment that may answer every call with success or with any
error; each wrapper is followed on every path and compared with what the property says
about that answer.
"""
from engine.interp import bt, bad, Throw
from engine.program import AnalysisBroken
from engine.state import State, I, NULL, TRUE, FALSE
from .kernel import KernelRule, const, field

FD, NEW = 5, 6
OBJ = ("io.object",)
TRANSFER = ("read", "write", "send", "sendto", "recv", "recvfrom", "sendmsg", "recvmsg")
PLAIN = ("lseek", "fchmod", "fchown", "fcntl", "ioctl", "ftruncate", "fstat", "fsync", "fdatasync", "listen", "bind", "getsockopt", "setsockopt",
         "shutdown")
SYS = TRANSFER + PLAIN + ("open", "socket", "accept", "accept4", "close", "connect", "select", "poll", "openat", "creat", "pread", "pwrite", "readv",
                          "writev", "epoll_wait", "pselect", "ppoll", "usleep", "nanosleep", "sleep")
ERRNO = ("g:errno",)

RULES = {
    "C22": [
        ("io-retry", "a transfer that would block or was interrupted is tried again, not returned"),
        ("io-yield", "other coroutines run between two tries of a transfer"),
        ("io-same", "a transfer is tried again with the same arguments"),
        ("io-error", "any other error is returned as failure at once"),
        ("io-result", "a success is returned as it is and not repeated"),
        ("io-nonblock", "a descriptor that is handed out is non-blocking"),
        ("io-block", "no call is made that blocks the thread"),
        ("connect-ok", "connecting reports success only if the connection was established"),
        ("connect-fail", "connecting reports failure only if the connection failed"),
    ],
    "C23": [
        ("io-call", "a method makes the system call of its name on its own descriptor with the arguments of the caller"),
        ("io-return", "a method returns the result of the system call"),
        ("io-close", "after a successful close the object refers to no descriptor"),
        ("io-setup", "a descriptor that could not be set up is not handed out"),
        ("io-object", "the object handed out refers to the new descriptor"),
        ("io-width", "the result of the system call is not narrowed to a type that cannot hold it"),
    ],
    "C24": [
        ("buf-place", "each part of a buffer is transferred to its own place, within the buffer"),
        ("buf-whole", "success is reported only if exactly all bytes were transferred"),
        ("buf-error", "a failed transfer is reported as an error"),
        ("buf-eof", "an end of stream before the buffer is full is reported as an error"),
        ("buf-code", "an error carries the code of its operation and success carries none"),
        ("buf-count", "a single transfer reports the number of bytes transferred"),
        ("buf-call", "client and server operations use their own endpoint"),
    ],
}


class IO(KernelRule):
    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        c = lambda n: const(prog, n)
        self.again = {c("err_intr"), c("err_again"), c("err_wouldblock")}
        self.inprogress = {c("err_inprogress"), c("err_intr")}
        self.GETFL, self.SETFL, self.NB = c("get_flags"), c("set_flags"), c("nonblock")
        self.SNB = c("sock_nonblock")
        self.fd = field(prog, "cocpp::co_io", "descriptor", lambda f: bt(f["t"]) == "int")
        for n in SYS:
            self.intrinsics[n] = self.sys(n)
        for n in ("__builtin_va_start", "__builtin_va_end"):
            self.intrinsics[n] = lambda it, st, c: [(st, NULL)]
        self.intrinsics["fcntl64"] = self.sys("fcntl")
        self.intrinsics["open64"] = self.sys("open")
        self.intrinsics["lseek64"] = self.sys("lseek")

    # ---- answers of the operating system -------------------------------------------------------
    def fail(self, st):
        e = st.fresh(lo=1)
        st.mem[ERRNO] = e
        return e

    def sys(self, name):
        def f(it, st, c):
            args = [it.rv(st, a) for a in c.args]
            st.ev("system call " + name, c.l)
            n = len(st.gh["calls"])
            if n >= self.most:
                return []
            h = getattr(self, "sys_" + name, None)
            if h is not None:
                return h(it, st, c, args)
            return self.answer(it, st, c, name, args)
        return f

    def answer(self, it, st, c, name, args, ok=None):
        """any success or any error"""
        out = []
        self.again_ok(st, c, name, args)
        s2 = st.copy()
        v = ok if ok is not None else st.fresh(lo=0)
        st.gh["calls"] = st.gh["calls"] + ((name, tuple(args), "ok", v),)
        out.append((st, v))
        e = self.fail(s2)
        s2.gh["calls"] = s2.gh["calls"] + ((name, tuple(args), "fail", e),)
        s2.gh["yielded"] = False
        out.append((s2, I(-1)))
        return out

    def again_ok(self, st, c, name, args):
        """rules about a second call"""
        prev = [x for x in st.gh["calls"] if x[0] == name]
        if name not in TRANSFER + ("accept",) or not prev:
            return
        n0, a0, r0, v0 = prev[-1]
        if r0 == "ok":
            self.chk("C22", "io-result", False, st, c.l, "the transfer is repeated after it succeeded")
            return
        self.chk("C22", "io-result", True, st, c.l, "")
        b = self.would_block(st, v0)
        self.chk("C22", "io-error", b is True, st, c.l, "%s is tried again after an error that is neither would-block nor interrupted" % name)
        self.chk("C22", "io-yield", st.gh["yielded"], st, c.l, "%s is tried again without letting other coroutines run" % name)
        self.chk("C22", "io-same", len(a0) == len(args) and all(st.eq(x, y) is True for x, y in zip(a0, args)), st, c.l, "%s is tried again with other arguments" % name)

    def would_block(self, st, e):
        r = [st.eq(e, I(x)) for x in self.again]
        return True if any(x is True for x in r) else False if all(x is False for x in r) else None

    def sys_fcntl(self, it, st, c, args):
        if st.gh.get("outer") == "fcntl":
            return self.answer(it, st, c, "fcntl", args)
        fd, cmd = args[0], args[1]
        if st.eq(cmd, I(self.GETFL)) is True:
            out = []
            for v in (0, const(self.prog, "rdwr"), const(self.prog, "append"), const(self.prog, "rdwr") | self.NB):
                s = st.copy()
                s.gh["flags"] = (fd, v)
                if v & self.NB:
                    s.gh["nb"] = s.gh["nb"] + (fd,)
                s.gh["calls"] = s.gh["calls"] + (("fcntl", tuple(args), "ok", I(v)),)
                out.append((s, I(v)))
            s = st.copy()
            e = self.fail(s)
            s.gh["calls"] = s.gh["calls"] + (("fcntl", tuple(args), "fail", e),)
            s.gh["setup"] = "failed"
            return out + [(s, I(-1))]
        if st.eq(cmd, I(self.SETFL)) is True:
            a = args[2] if len(args) > 2 else I(0)
            s = st.copy()
            e = self.fail(s)
            s.gh["calls"] = s.gh["calls"] + (("fcntl", tuple(args), "fail", e),)
            s.gh["setup"] = "failed"
            st.gh["calls"] = st.gh["calls"] + (("fcntl", tuple(args), "ok", I(0)),)
            if a[0] == "i":
                nb = tuple(x for x in st.gh["nb"] if st.eq(x, fd) is not True)
                st.gh["nb"] = nb + ((fd,) if a[1] & self.NB else ())
                old = st.gh.get("flags")
                self.chk("C23", "io-setup", old is not None and st.eq(old[0], fd) is True and a[1] & old[1] == old[1], st, c.l,
                         "making a descriptor non-blocking changes its other flags")
            return [(st, I(0)), (s, I(-1))]
        return self.answer(it, st, c, "fcntl", args)

    def made(self, it, st, c, name, args, nb):
        """a call that makes a descriptor"""
        out = self.answer(it, st, c, name, args, I(NEW))
        if nb:
            for s, v in out:
                if v == I(NEW):
                    s.gh["nb"] = s.gh["nb"] + (v,)
        return out

    def sys_open(self, it, st, c, args):
        return self.made(it, st, c, "open", args, args[1][0] == "i" and args[1][1] & self.NB)

    def sys_socket(self, it, st, c, args):
        return self.made(it, st, c, "socket", args, args[1][0] == "i" and args[1][1] & self.SNB)

    def sys_accept(self, it, st, c, args):
        return self.made(it, st, c, "accept", args, False)

    def sys_accept4(self, it, st, c, args):
        return self.made(it, st, c, "accept", args[:3], args[3][0] == "i" and args[3][1] & self.SNB)

    def sys_close(self, it, st, c, args):
        if st.eq(args[0], I(NEW)) is True:
            st.gh["closed_new"] = True
        return self.answer(it, st, c, "close", args, I(0))

    def sys_connect(self, it, st, c, args):
        s = st.copy()
        st.gh["calls"] = st.gh["calls"] + (("connect", tuple(args), "ok", I(0)),)
        st.gh["conn"] = "up"
        out = [(st, I(0))]
        for prog_ in (True, False):
            s2 = s.copy()
            e = self.fail(s2)
            s2.gh["calls"] = s2.gh["calls"] + (("connect", tuple(args), "fail", e),)
            if prog_:
                # goes on in the background
                for x in sorted(self.inprogress):
                    s3 = s2.copy()
                    if s3.assume_eq(e, I(x)):
                        s3.gh["conn"] = "pending"
                        out.append((s3, I(-1)))
            else:
                if all(s2.assume_ne(e, I(x)) for x in self.inprogress):
                    s2.gh["conn"] = "down"
                    out.append((s2, I(-1)))
        return out

    def sys_select(self, it, st, c, args):
        self.chk("C22", "io-block", args[4] != NULL and st.eq(args[4], NULL) is not True, st, c.l, "waits without a time limit")
        st.gh["calls"] = st.gh["calls"] + (("select", (), "?", None),)
        s1, s2, s3 = st.copy(), st.copy(), st
        self.fail(s1)
        s1.gh["watch"] = "fail"
        if args[2][0] == "p":
            # nothing is ready
            self.clear_set(s2, args[2][1])
        s2.gh["watch"] = "none"
        s3.gh["watch"] = "ready"
        return [(s1, I(-1)), (s2, I(0)), (s3, I(1))]

    def clear_set(self, st, L):
        for k in [k for k in st.mem if k[:len(L)] == L and st.mem[k][0] == "i"]:
            st.mem[k] = I(0)

    def sys_poll(self, it, st, c, args):
        t = args[2]
        self.chk("C22", "io-block", t[0] == "i" and t[1] >= 0, st, c.l, "waits without a time limit")
        st.gh["calls"] = st.gh["calls"] + (("poll", (), "?", None),)
        s1, s2, s3 = st.copy(), st.copy(), st
        self.fail(s1)
        s1.gh["watch"] = "fail"
        s2.gh["watch"] = "none"
        s3.gh["watch"] = "ready"
        if args[0][0] == "p":
            s2.mem[s2.cl(args[0][1]) + ("revents",)] = I(0)
            s3.mem[s3.cl(args[0][1]) + ("revents",)] = I(4)
        return [(s1, I(-1)), (s2, I(0)), (s3, I(1))]

    def sys_getsockopt(self, it, st, c, args):
        if st.gh.get("outer") != "connect":
            return self.answer(it, st, c, "getsockopt", args)
        ok = st.eq(args[1], I(const(self.prog, "sol_socket"))) is True and st.eq(args[2], I(const(self.prog, "so_error"))) is True
        out = []
        s = st.copy()
        self.fail(s)
        s.gh["conn"] = "unknown"
        out.append((s, I(-1)))
        for up in (True, False):
            s = st.copy()
            s.gh["calls"] = s.gh["calls"] + (("getsockopt", tuple(args), "ok", I(0)),)
            e = I(0) if up else s.fresh(lo=1)
            if args[3][0] == "p":
                s.mem[s.cl(args[3][1])] = e
            if ok and s.gh["conn"] == "pending" and s.gh.get("watch") == "ready":
                s.gh["conn"] = "up" if up else "down"
            out.append((s, I(0)))
        return out

    def blocking(self, name):
        def f(it, st, c, args):
            self.chk("C22", "io-block", False, st, c.l, "%s blocks the thread" % name)
            return self.answer(it, st, c, name, args)
        return f

    def on_suspend(self, it, st, c):
        st.gh["yielded"] = True
        st.mem[ERRNO] = st.fresh(lo=0)
        return [st]

    def on_event(self, it, st, kind, *a):
        if kind == "va_arg":
            return ("s", "arg.more")

    # ---- methods ----------------------------------------------------------------------------------
    most = 4

    def start(self, cls, m, args=()):
        st = State()
        st.typ[OBJ] = cls
        st.mem[OBJ + (self.fd,)] = I(FD)
        st.mem[ERRNO] = I(0)
        st.gh.update(calls=(), yielded=False, nb=(), outer=m, conn="none")
        return st

    def method(self, cls, m):
        fs = self.prog.fns("%s::%s" % (cls, m))
        if len(fs) != 1:
            raise AnalysisBroken("anchor vanished: %s::%s" % (cls, m))
        return fs[0]

    def params(self, st, f):
        return [("s", "arg.%d" % i) for i in range(len(f["p"]))]

    def transfer(self, cls, m):
        f = self.method(cls, m)
        self.entry = f["q"]
        st = self.start(cls, m)
        it = self.interp(loop_max=12, widen_at=99)
        a = self.params(st, f)
        res = it.run(st, f, OBJ, a)
        n = 0
        for s, v in res:
            self.rep.paths += 1
            if bad(v):
                self.chk("C22", "io-error", False, s, f["l"], "throws")
                continue
            n += 1
            calls = [x for x in s.gh["calls"] if x[0] == m]
            self.chk("C23", "io-call", bool(calls), s, f["l"], "returns without the system call")
            if not calls:
                continue
            self.own_call(s, f, calls[-1], a)
            last = calls[-1]
            r = it.rv(s, v)
            if last[2] == "ok":
                self.chk("C22", "io-result", s.eq(r, last[3]) is True, s, f["l"], "a success is not returned as it is")
                self.chk("C23", "io-return", s.eq(r, last[3]) is True, s, f["l"], "returns something else than the result")
            else:
                b = self.would_block(s, last[3])
                self.chk("C22", "io-retry", b is False, s, f["l"], "returns although the transfer would block or was interrupted")
                self.chk("C22", "io-error", s.eq(r, I(-1)) is True, s, f["l"], "an error is not returned as failure")
                self.chk("C23", "io-return", s.eq(r, I(-1)) is True, s, f["l"], "returns something else than the result")
        if not n:
            raise AnalysisBroken("%s never returns" % f["q"])
        self.rep.use(it)

    def own_call(self, s, f, call, a, skip=()):
        ok = len(call[1]) == len(a) + 1 and s.eq(call[1][0], I(FD)) is True and all(s.eq(x, y) is True for x, y in zip(call[1][1:], a))
        self.chk("C23", "io-call", ok, s, f["l"], "%s is called with (%s) instead of the own descriptor and the arguments of the caller" % (
            call[0], ", ".join(self.show(x) for x in call[1])))

    def show(self, v):
        return str(v[1]) if v[0] in ("i", "s") else v[0]

    def plain(self, cls, m):
        f = self.method(cls, m)
        self.entry = f["q"]
        st = self.start(cls, m)
        it = self.interp()
        a = self.params(st, f)
        more = a + ([("s", "arg.more")] if m in ("fcntl", "ioctl") else [])
        for s, v in it.run(st, f, OBJ, a):
            self.rep.paths += 1
            calls = [x for x in s.gh["calls"] if x[0] == m]
            ok = self.chk("C23", "io-call", len(calls) >= 1 and not bad(v), s, f["l"], "returns without the system call")
            if not ok:
                continue
            self.own_call(s, f, calls[-1], more)
            r = it.rv(s, v)
            want = calls[-1][3] if calls[-1][2] == "ok" else I(-1)
            self.chk("C23", "io-return", s.eq(r, want) is True, s, f["l"], "returns something else than the result")
        if m == "lseek":
            self.width(f)
        self.rep.use(it)

    def width(self, f):
        """a result of 64 bits stays one"""
        narrow = []

        def walk(n):
            if isinstance(n, dict):
                if n.get("k") == "Cast" and n.get("ck") == "IntegralCast" and bt(n.get("t", "")) in ("int", "unsigned int", "short", "bool") \
                        and bt((n.get("e") or {}).get("t", "")) in ("long", "unsigned long", "long long"):
                    narrow.append(n.get("l", f["l"]))
                for x in n.values():
                    walk(x)
            elif isinstance(n, list):
                for x in n:
                    walk(x)
        walk(f["body"])
        st = State()
        ok = not narrow and bt(f["ret"]) in ("long", "long long")
        self.chk("C23", "io-width", ok, st, narrow[0] if narrow else f["l"], "an offset is narrowed to a smaller type")

    def close(self, cls):
        f = self.method(cls, "close")
        self.entry = f["q"]
        st = self.start(cls, "close")
        it = self.interp()
        for s, v in it.run(st, f, OBJ, []):
            self.rep.paths += 1
            calls = [x for x in s.gh["calls"] if x[0] == "close"]
            if not self.chk("C23", "io-call", len(calls) == 1 and not bad(v), s, f["l"], "close is called %d times" % len(calls)):
                continue
            self.own_call(s, f, calls[0], [])
            r = it.rv(s, v)
            now = it.load(s, OBJ + (self.fd,), "int")
            if calls[0][2] == "ok":
                self.chk("C23", "io-close", s.eq(now, I(-1)) is True, s, f["l"], "refers to a descriptor after a successful close")
                self.chk("C23", "io-return", s.eq(r, I(0)) is True, s, f["l"], "a successful close is not reported as success")
            else:
                self.chk("C23", "io-return", s.eq(r, I(-1)) is True, s, f["l"], "a failed close is not reported as failure")
        self.rep.use(it)

    def init(self):
        f = self.method("cocpp::co_io", "init_fd")
        self.entry = f["q"]
        st = self.start("cocpp::co_io", "init_fd")
        it = self.interp()
        for s, v in it.run(st, f, OBJ, [I(NEW)]):
            self.rep.paths += 1
            r = it.rv(s, v)
            if s.eq(r, I(-1)) is True:
                self.chk("C23", "io-setup", s.gh.get("setup") == "failed", s, f["l"], "fails although the descriptor was set up")
                continue
            self.handed(it, s, f, OBJ)
        self.rep.use(it)

    def handed(self, it, s, f, L):
        now = s.res(it.load(s, L + (self.fd,), "int"))
        self.chk("C23", "io-object", s.eq(now, I(NEW)) is True, s, f["l"], "the object does not refer to the new descriptor")
        self.chk("C22", "io-nonblock", any(s.eq(x, I(NEW)) is True for x in s.gh["nb"]), s, f["l"], "a descriptor is handed out that may block")
        self.chk("C23", "io-setup", s.gh.get("setup") != "failed" and not s.gh.get("closed_new"), s, f["l"],
                 "a descriptor is handed out that could not be set up")

    def maker(self, cls, m, sysname, args, check):
        """functions that hand out a new object"""
        f = self.method(cls, m)
        self.entry = f["q"]
        st = self.start(cls, m)
        it = self.interp(loop_max=12, widen_at=99)
        self.most = 7
        for s, v in it.run(st, f, OBJ if not f.get("static") else None, args):
            self.rep.paths += 1
            calls = [x for x in s.gh["calls"] if x[0] == sysname]
            if not self.chk("C23", "io-call", bool(calls) and not bad(v), s, f["l"], "returns without the system call"):
                continue
            last = calls[-1]
            self.chk("C23", "io-call", check(s, last[1]), s, f["l"], "%s is called with other arguments than the caller's" % sysname)
            L = it.loc_of(s, v)
            has = s.res(it.load(s, L + ("@has",)))
            if last[2] == "fail":
                if sysname == "accept":
                    b = self.would_block(s, last[3])
                    self.chk("C22", "io-retry", b is False, s, f["l"], "returns although the call would block or was interrupted")
                self.chk("C23", "io-setup", s.eq(has, I(0)) is True, s, f["l"], "an object is handed out although the call failed")
                self.chk("C22", "io-error", s.eq(has, I(0)) is True, s, f["l"], "an error is not returned as failure")
                continue
            if s.eq(has, I(0)) is True:
                self.chk("C23", "io-setup", s.gh.get("setup") == "failed", s, f["l"], "nothing is handed out although the descriptor was set up")
                continue
            self.handed(it, s, f, L + ("@val",))
        self.most = 4
        self.rep.use(it)

    def connect(self):
        f = self.method("cocpp::co_net", "connect")
        self.entry = f["q"]
        st = self.start("cocpp::co_net", "connect")
        it = self.interp(loop_max=40, widen_at=99, budget=600000)
        a = self.params(st, f)
        self.most = 5
        n = set()
        for s, v in it.run(st, f, OBJ, a):
            self.rep.paths += 1
            calls = [x for x in s.gh["calls"] if x[0] == "connect"]
            if not self.chk("C23", "io-call", bool(calls) and not bad(v), s, f["l"], "returns without the system call"):
                continue
            self.own_call(s, f, calls[0], a)
            r = it.rv(s, v)
            how = s.gh["conn"]
            n.add(how)
            if s.eq(r, I(0)) is True:
                self.chk("C22", "connect-ok", how == "up", s, f["l"], "reports success although the connection is %s" % {
                    "pending": "not established yet", "down": "refused", "unknown": "not known to be established"}.get(how, how))
            else:
                late = how == "pending" and s.gh.get("watch") == "fail"
                self.chk("C22", "connect-fail", how in ("down", "unknown") or late, s, f["l"], "reports failure although the connection is %s" % {
                    "pending": "still being made", "up": "established"}.get(how, how))
                self.chk("C22", "connect-fail", s.eq(r, I(-1)) is True, s, f["l"], "failure is not reported as -1")
        if not {"up", "down"} <= n:
            raise AnalysisBroken("outcomes of connect found: %s" % sorted(n))
        self.most = 4
        self.rep.use(it)


def run_io(prog, rep):
    rep.assumptions.append("The operating system may answer every call with any success or any error code; after an interrupted or pending connect "
                           "a writable descriptor and its error option tell the outcome.")
    r = IO(prog, rep)
    for n in ("usleep", "nanosleep", "sleep", "epoll_wait", "pselect", "ppoll"):
        setattr(r, "sys_" + n, r.blocking(n))
    for m in TRANSFER:
        r.transfer("cocpp::co_io" if m in ("read", "write") else "cocpp::co_net", m)
    for m in PLAIN:
        r.plain("cocpp::co_io" if prog.fns("cocpp::co_io::" + m) else "cocpp::co_net", m)
    r.close("cocpp::co_io")
    r.init()
    same = lambda s, a, b: len(a) == len(b) and all(s.eq(x, y) is True for x, y in zip(a, b))
    p, q = ("s", "arg.0"), ("s", "arg.1")
    for fl in (0, const(prog, "rdwr"), const(prog, "rdwr") | const(prog, "append")):
        r.maker("cocpp::co_file", "open", "open", [p, I(fl), ("s", "arg.2")],
                lambda s, a: len(a) == 3 and s.eq(a[0], p) is True and a[1][0] == "i" and a[1][1] & ~r.NB == fl and s.eq(a[2], ("s", "arg.2")) is True)
    for ty in (const(prog, "sock_stream"), const(prog, "sock_stream") + 1):
        r.maker("cocpp::co_net", "socket", "socket", [p, I(ty), ("s", "arg.2")],
                lambda s, a: len(a) == 3 and s.eq(a[0], p) is True and a[1][0] == "i" and a[1][1] & ~r.SNB == ty and s.eq(a[2], ("s", "arg.2")) is True)
    r.maker("cocpp::co_net", "accept", "accept", [p, q], lambda s, a: same(s, a, [I(FD), p, q]))
    r.connect()


# ---- whole buffers -------------------------------------------------------------------------------------
DATA = 100000
BUF = ("user.buffer",)


class Buffers(KernelRule):
    """Transfers of whole buffers over a transport that moves any number of bytes"""

    def __init__(self, prog, rep):
        super().__init__(prog, rep)
        self.most = 12
        for q in ("read", "write", "close"):
            self.intrinsics["cocpp::co_io::" + q] = self.move(q)
        for q in ("send", "recv", "listen"):
            self.intrinsics["cocpp::co_net::" + q] = self.move(q)
        self.intrinsics["std::vector::data"] = lambda it, st, c: [(st, I(DATA))]
        self.intrinsics["std::vector::size"] = lambda it, st, c: [(st, I(self.size))]
        self.intrinsics["std::vector::empty"] = lambda it, st, c: [(st, I(int(self.size == 0)))]
        for q in ("operator[]", "at"):
            self.intrinsics["std::vector::" + q] = self.item
        self.code = {n: const(prog, "code_" + n) for n in ("ok", "listen", "server_close", "read", "write", "client_close")}

    def move(self, name):
        def f(it, st, c):
            own = st.cl(c.this)[:1] == OBJ
            self.chk("C24", "buf-call", own, st, c.l, "another endpoint is used")
            st.gh["n"] += 1
            if st.gh["n"] > self.most:
                return []
            out = []
            if name in ("close", "listen"):
                if name == "listen":
                    self.chk("C24", "buf-call", st.eq(it.rv(st, c.args[0]), ("s", "arg.0")) is True, st, c.l, "another argument is passed on")
                s2 = st.copy()
                s2.gh["failed"] = True
                return [(st, I(0)), (s2, I(-1))]
            p, n = st.res(it.rv(st, c.args[0])), st.res(it.rv(st, c.args[1]))
            t = st.gh["done"]
            if p[0] == "p" and p[1][:1] == BUF and len(p[1]) == 2 and isinstance(p[1][1], int):
                p = I(DATA + p[1][1])
            ok = p == I(DATA + t) and n[0] == "i" and 0 < n[1] <= self.size - t
            if self.size == 0 and not self.whole:
                ok = p == I(DATA) and n == I(0)
            if not self.whole:
                ok = ok and n == I(self.size)
            self.chk("C24", "buf-place", ok, st, c.l, "%s bytes at offset %s are transferred after %d of %d" % (
                n[1] if n[0] == "i" else "?", p[1] - DATA if p[0] == "i" else "?", t, self.size))
            if not ok:
                return []
            lo = 0
            for k in range(lo, n[1] + 1):
                s = st.copy()
                s.gh["done"] = t + k
                if k == 0:
                    s.gh["zero"] = True
                    if name in ("write", "send"):
                        s.gh["zeros"] = s.gh.get("zeros", 0) + 1
                        if s.gh["zeros"] > 2:
                            continue
                s.gh["last"] = k
                out.append((s, I(k)))
            s = st.copy()
            s.gh["failed"] = True
            s.gh["last"] = -1
            s.mem[ERRNO] = s.fresh(lo=1)
            out.append((s, I(-1)))
            return out
        return f

    def item(self, it, st, c):
        i = st.res(it.rv(st, c.args[0]))
        if st.cl(c.this) != BUF or i[0] != "i":
            return NotImplemented
        self.chk("C24", "buf-place", 0 <= i[1] < self.size, st, c.l, "byte %d of %d is used" % (i[1], self.size))
        return [(st, ("loc", BUF + (i[1],)))]

    def code_of(self, it, s, L):
        f = self.prog.fn("cocpp::co_error::code")
        r = it.run(s.copy(), f, L, [])
        if len(r) != 1 or bad(r[0][1]):
            return None
        v = r[0][0].res(it.rv(r[0][0], r[0][1]))
        return v[1] if v[0] == "i" else None

    def run(self, cls, m, size, code, whole, args=None):
        fs = self.prog.fns("%s::%s" % (cls, m))
        if len(fs) != 1:
            raise AnalysisBroken("anchor vanished: %s::%s" % (cls, m))
        f = fs[0]
        self.size, self.whole = size, whole
        self.entry = f["q"]
        st = State()
        st.typ[OBJ] = cls
        st.gh.update(n=0, done=0, failed=False, zero=False, last=None)
        st.mem[ERRNO] = I(0)
        it = self.interp(loop_max=40, widen_at=99)
        a = args if args is not None else [("loc", BUF)]
        n = 0
        for s, v in it.run(st, f, OBJ, a):
            self.rep.paths += 1
            if not self.chk("C24", "buf-error", not bad(v), s, f["l"], "throws"):
                continue
            n += 1
            L = it.loc_of(s, v)
            tup = bt(f["ret"]).startswith("std::tuple<")
            c = self.code_of(it, s, L + ("_1",) if tup else L)
            if c is None:
                raise AnalysisBroken("the error of %s is not known" % f["q"])
            good = c == self.code["ok"]
            if s.gh["failed"]:
                self.chk("C24", "buf-error", not good, s, f["l"], "a failed transfer is reported as success")
                if not good:
                    self.chk("C24", "buf-code", c == self.code[code], s, f["l"], "the error carries the code of another operation")
                continue
            if whole:
                if s.gh["done"] < size:
                    if m == "read_n" and s.gh["zero"]:
                        self.chk("C24", "buf-eof", not good, s, f["l"], "an end of stream after %d of %d bytes is reported as success" % (s.gh["done"], size))
                    self.chk("C24", "buf-whole", not good, s, f["l"], "success is reported after %d of %d bytes" % (s.gh["done"], size))
                    if not good:
                        self.chk("C24", "buf-code", c == self.code[code], s, f["l"], "the error carries the code of another operation")
                else:
                    self.chk("C24", "buf-whole", good, s, f["l"], "an error is reported although all bytes were transferred")
                    self.chk("C24", "buf-code", good, s, f["l"], "success carries an error code")
                continue
            self.chk("C24", "buf-code", good, s, f["l"], "success carries an error code")
            if tup:
                k = s.res(it.load(s, L + ("_0",)))
                self.chk("C24", "buf-count", s.gh["last"] is not None and k == I(s.gh["last"]), s, f["l"], "another number of bytes is reported than was transferred")
        if not n:
            raise AnalysisBroken("%s never returns" % f["q"])
        self.rep.use(it)


def run_buffers(prog, rep):
    deep = rep.tier == "thorough"
    r = Buffers(prog, rep)
    rep.assumptions.append("The transport returns -1, or a count between 0 and the length asked for; a count of 0 of a read is the end of the stream.")
    top = 6 if deep else 4
    for n in range(top + 1):
        r.run("cocpp::co_client", "read_n", n, "read", True)
        r.run("cocpp::co_client", "write_n", n, "write", True)
    for n in (0, 3):
        r.run("cocpp::co_client", "read", n, "read", False)
        r.run("cocpp::co_client", "write", n, "write", False)
    r.run("cocpp::co_client", "close", 0, "client_close", False, [])
    r.run("cocpp::co_server", "close", 0, "server_close", False, [])
    r.run("cocpp::co_server", "listen", 0, "listen", False, [("s", "arg.0")])
    rep.extra["largest_buffer"] = top
