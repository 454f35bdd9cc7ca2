"""C20: the context switch.

The switch routine is compiled and its machine code is interpreted over symbolic registers
and memory, once from the side that is left and once from the side that is entered.
"""
import os
import re
import tempfile

from engine import program
from engine.interp import bt, bad
from engine.program import AnalysisBroken
from engine.state import State, I, NULL
from .core import Core, MGR
from .kernel import KernelRule, const, field

RULES = {
    "C20": [
        ("sw-regs", "every preserved general register has its old value when the coroutine is resumed"),
        ("sw-stack", "the stack pointer has its old value when the coroutine is resumed"),
        ("sw-return", "a resumed coroutine goes on behind the switch"),
        ("sw-write", "a switch writes nothing but the register frame, the link to the previous coroutine and unused stack"),
        ("sw-forced", "a coroutine that was switched out by force gets all its general registers back"),
        ("sw-entry", "a new coroutine starts at the entry routine with itself as the argument"),
        ("sw-align", "the stack of a new coroutine is aligned as a call requires"),
        ("sw-own", "a new coroutine starts inside its stack"),
        ("sw-stack-of", "a new coroutine gets its own stack, or the shared stack of its environment if it asked for that"),
        ("sw-first", "a coroutine is set up before it is listed to be run"),
    ],
}
P = "C20"
REGS = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp"] + ["r%d" % i for i in range(8, 16)]
KEEP = ["rbx", "rbp", "r12", "r13", "r14", "r15"]
SCRATCH = {"rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11"}


def compile_fn(prog, f):
    """instructions of one function: [(address, mnemonic, operands)]"""
    rel = f["l"].split(":")[0]
    src = os.path.join(program.REPO, rel)
    if not os.path.exists(src):
        raise AnalysisBroken("source of %s not found" % f["q"])
    with tempfile.TemporaryDirectory(prefix="cocpp-switch.") as d:
        o = os.path.join(d, "a.o")
        r = program.sh(["g++", "-std=c++20", "-fconcepts", "-O2", "-DNDEBUG", "-w", "-I" + program.REPO + "/include", "-c", src, "-o", o])
        if r.returncode:
            raise AnalysisBroken("cannot compile %s:\n%s" % (rel, r.stdout[-2000:]))
        r = program.sh(["objdump", "-d", "-C", "--no-show-raw-insn", "-j", ".text", o])
    name = f["q"] + "("
    out, on = [], False
    for line in r.stdout.split("\n"):
        m = re.match(r"^[0-9a-f]+ <(.*)>:$", line)
        if m:
            on = m.group(1).startswith(name)
            continue
        m = re.match(r"^\s*([0-9a-f]+):\s*(\S+)\s*(.*)$", line)
        if on and m:
            ops = re.sub(r"\s*(#|<).*$", "", m.group(3)).strip()
            out.append((int(m.group(1), 16), m.group(2), split(ops)))
    if not out:
        raise AnalysisBroken("machine code of %s not found" % f["q"])
    return out


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += ch == "("
        depth -= ch == ")"
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Machine:
    """values are (symbol, offset) or integers; memory is keyed by (symbol, offset)"""

    def __init__(self, regs, mem=None):
        self.r = dict(regs)
        self.m = dict(mem or {})
        self.writes = []
        self.ip = None

    def addr(self, op):
        m = re.match(r"^(?:%fs:|%gs:)?(-?0x[0-9a-f]+|-?\d+)?\(%(\w+)\)$", op)
        if not m:
            raise AnalysisBroken("operand %s of the switch is not understood" % op)
        b = self.r[m.group(2)]
        d = int(m.group(1), 0) if m.group(1) else 0
        return self.plus(b, d)

    def plus(self, v, d):
        if isinstance(v, int):
            return v + d
        if v is None:
            raise AnalysisBroken("an unknown value is used as an address by the switch")
        return (v[0], v[1] + d)

    def load(self, a):
        if a in self.m:
            return self.m[a]
        if isinstance(a, int):
            return ("[%d]" % a, 0)
        return ("[%s+%d]" % a, 0)

    def store(self, a, v):
        self.m[a] = v
        self.writes.append(a)

    def get(self, op):
        if op.startswith("$"):
            return int(op[1:], 0)
        if op.startswith("%"):
            if op[1:] not in self.r:
                raise AnalysisBroken("register %s of the switch is not understood" % op)
            return self.r[op[1:]]
        return self.load(self.addr(op))

    def put(self, op, v):
        if op.startswith("%"):
            if op[1:] not in self.r:
                raise AnalysisBroken("register %s of the switch is not understood" % op)
            self.r[op[1:]] = v
        else:
            self.store(self.addr(op), v)

    def push(self, v):
        self.r["rsp"] = self.plus(self.r["rsp"], -8)
        self.store(self.r["rsp"], v)

    def pop(self):
        v = self.load(self.r["rsp"])
        self.r["rsp"] = self.plus(self.r["rsp"], 8)
        return v

    def run(self, code):
        at = {a: i for i, (a, _, _) in enumerate(code)}
        i = 0
        for _ in range(4000):
            if i >= len(code):
                raise AnalysisBroken("the switch runs past its end")
            a, op, x = code[i]
            i += 1
            o = op.rstrip("q") if op not in ("retq",) else "ret"
            if op in ("endbr64", "nop", "nopw", "nopl", "mfence", "lfence", "sfence", "cld", "xchg") and (op != "xchg" or len(set(x)) < 2):
                continue
            if o in ("mov", "movabs"):
                self.put(x[1], self.get(x[0]))
            elif o == "lea":
                self.put(x[1], self.addr(x[0]))
            elif o == "xchg":
                p, q = self.get(x[0]), self.get(x[1])
                self.put(x[0], q)
                self.put(x[1], p)
            elif o == "push":
                v = self.get(x[0])
                self.push(v)
            elif o == "pop":
                # the address of a memory operand is computed after the pop
                v = self.pop()
                self.put(x[0], v)
            elif o == "pushf":
                self.push(self.r["flags"])
            elif o == "popf":
                self.r["flags"] = self.pop()
            elif o in ("add", "sub") and x[0].startswith("$"):
                n = int(x[0][1:], 0)
                self.put(x[1], self.plus(self.get(x[1]), n if o == "add" else -n))
            elif o == "xor" and x[0] == x[1]:
                self.put(x[1], 0)
            elif op in ("stmxcsr", "fnstcw", "fstcw"):
                self.store(self.addr(x[0]), ("control", 0))
            elif op in ("ldmxcsr", "fldcw"):
                self.addr(x[0])
            elif o == "leave":
                self.r["rsp"] = self.r["rbp"]
                self.r["rbp"] = self.pop()
            elif o == "ret":
                self.ip = self.pop()
                return self
            elif op == "jmp" and x[0].startswith("*"):
                self.ip = self.get(x[0][1:])
                return self
            elif op == "jmp" and re.match(r"^[0-9a-f]+$", x[0]) and int(x[0], 16) in at:
                i = at[int(x[0], 16)]
            else:
                raise AnalysisBroken("instruction '%s %s' of the switch is not understood" % (op, ",".join(x)))
        raise AnalysisBroken("the switch does not end")


def symbolic():
    r = {n: (n, 0) for n in REGS}
    r["flags"] = ("flags", 0)
    return r


class Switch(KernelRule):
    def frame_cells(self, it, s, C):
        """offset -> value of the register frame"""
        off = {x["n"]: x["off"] for x in self.prog.rec("cocpp::sigcontext_64")["fields"]}
        out = {}
        for k, v in s.mem.items():
            if k[:1] == C and len(k) == 3:
                o = off.get(k[2], k[2] * 8 if isinstance(k[2], int) else None)
                if o is not None:
                    out[o] = s.res(v)
        return out

    def run(self):
        prog = self.prog
        f = prog.fn("cocpp::switch_to", 2)
        self.entry = f["q"]
        code = compile_fn(prog, f)
        self.rep.extra["instructions_analysed"] = len(code)
        l = f["l"]
        st = State()
        rec = prog.rec("cocpp::co_ctx")
        # the register frame inside a context and the link to the previous one
        g = prog.fn("cocpp::co_ctx::regs")
        it = self.interp()
        s0 = State()
        s0.typ[("ctx",)] = "cocpp::co_ctx"
        (s1, v), = it.run(s0, g, ("ctx",), [])
        v = s1.res(it.rv(s1, v))
        fr = [x for x in rec["fields"] if v[0] == "p" and v[1][1:2] == (x["n"],)]
        if len(fr) != 1:
            raise AnalysisBroken("the register frame of a coroutine was not found")
        F = fr[0]
        size, base = F["size"], F["off"]
        link = [x["off"] - base for x in rec["fields"] if bt(x["t"]) in ("cocpp::co_ctx *", "co_ctx *")]
        self.rep.use(it)

        # leaving: rdi is the frame left, rsi the frame entered
        RA = ("return address", 0)
        m = Machine(symbolic(), {("rsp", 0): RA})
        m.run(code)
        saved = {a[1]: x for a, x in m.m.items() if not isinstance(a, int) and a[0] == "rdi"}
        for a in m.writes:
            if isinstance(a, int) or a[0] not in ("rdi", "rsi", "rsp") and not a[0].startswith("[rsi+"):
                self.chk(P, "sw-write", False, st, l, "writes to an address that belongs to neither coroutine")
                continue
            if a[0] == "rdi":
                self.chk(P, "sw-write", 0 <= a[1] <= size - 8, st, l, "writes outside the register frame (offset %d)" % a[1])
            elif a[0] == "rsi":
                self.chk(P, "sw-write", a[1] in link, st, l, "writes offset %d of the coroutine that is entered" % a[1])
                if a[1] in link:
                    self.chk(P, "sw-write", m.m[a] == ("rdi", 0), st, l, "the link to the previous coroutine is not the one left")
            elif a[0] == "rsp":
                self.chk(P, "sw-write", a[1] < 8, st, l, "overwrites the stack of the coroutine that is left")
            else:
                self.chk(P, "sw-write", a[1] < 8, st, l, "overwrites the stack of the coroutine that is entered")

        # coming back: the frame of the coroutine holds what was saved; other registers are anything
        regs = {n: ("other " + n, 0) for n in REGS}
        regs["flags"] = ("other flags", 0)
        regs["rsi"] = ("rdi", 0)
        regs["rdi"] = ("other frame", 0)
        own = {a: x for a, x in m.m.items() if not isinstance(a, int) and a[0] in ("rdi", "rsp")}
        # the part of the stack below the saved pointer may have been reused since
        own = {a: x for a, x in own.items() if a[0] == "rdi" or a[1] >= 8}
        b = Machine(regs, own)
        b.run(code)
        for n in KEEP:
            self.chk(P, "sw-regs", b.r[n] == (n, 0), st, l, "%s does not have its old value after the coroutine was resumed" % n)
        self.chk(P, "sw-stack", b.r["rsp"] == ("rsp", 8), st, l, "the stack pointer is off by %s after the coroutine was resumed" % (
            b.r["rsp"][1] - 8 if not isinstance(b.r["rsp"], int) and b.r["rsp"][0] == "rsp" else "an unknown amount"))
        self.chk(P, "sw-return", b.ip == RA, st, l, "a resumed coroutine does not return to its caller")
        for a in b.writes:
            if not isinstance(a, int) and a[0] == "rsp":
                self.chk(P, "sw-write", a[1] < 8, st, l, "overwrites the stack of the coroutine that is resumed")

        # coming back from a forced switch: the frame has the layout of the machine context
        regs = {n: ("other " + n, 0) for n in REGS}
        regs["flags"] = ("other flags", 0)
        regs["rsi"] = ("frame", 0)
        names = [n for n in REGS + ["rip", "flags"]]
        frame = {("frame", 8 * const(prog, "greg_" + n)): ("old " + n, 0) for n in names}
        b = Machine(regs, frame)
        b.run(code)
        for n in REGS + ["flags"]:
            self.chk(P, "sw-forced", b.r[n] == ("old " + n, 0), st, l, "%s of a coroutine that was switched out by force is lost" % n)
        self.chk(P, "sw-forced", b.ip == ("old rip", 0), st, l, "a coroutine that was switched out by force does not go on where it was")
        for n in KEEP:
            self.chk(P, "sw-forced", saved.get(8 * const(prog, "greg_" + n)) == (n, 0), st, l, "%s is saved where a forced switch does not find it" % n)

        # new coroutines
        self.fresh(code, F)

    def fresh(self, code, F):
        prog = self.prog
        f = prog.fn("cocpp::init_ctx", 2)
        self.entry = f["q"]
        fs = {x["n"]: x for x in prog.rec("cocpp::co_stack")["fields"]}
        pf = [n for n, x in fs.items() if "*" in x["t"]]
        nf = [n for n, x in fs.items() if "*" not in x["t"]]
        if len(pf) != 1 or len(nf) != 1:
            raise AnalysisBroken("address and size of a stack not found")
        low = 1 << 20
        for size in (4096, 65536, 131072, 131073, 131076, 131080, 131084, 131087):
            st = State()
            st.typ[("stk",)] = "cocpp::co_stack"
            st.typ[("ctx",)] = "cocpp::co_ctx"
            st.mem[("stk", pf[0])] = I(low)
            st.mem[("stk", nf[0])] = I(size)
            it = self.interp()
            res = it.run(st, f, None, [("p", ("stk",)), ("p", ("ctx",))])
            for s, v in res:
                self.rep.paths += 1
                cells = self.frame_cells(it, s, ("ctx",))
                conv = lambda v: v[1] if v[0] == "i" else (v[2], 0) if v[0] == "fn" else ("ctx" + "".join(v[1][1:]), 0) if v[0] == "p" else None
                regs = {n: ("other " + n, 0) for n in REGS}
                regs["flags"] = ("other flags", 0)
                regs["rsi"] = ("frame", 0)
                m = Machine(regs, {("frame", o): conv(v) for o, v in cells.items()})
                m.run(code)
                l = f["l"]
                self.chk(P, "sw-entry", m.ip == ("cocpp::co_ctx::real_entry", 0), s, l, "a new coroutine does not start at the entry routine")
                self.chk(P, "sw-entry", m.r["rdi"] == ("ctx", 0), s, l, "the entry routine does not get the coroutine as its argument")
                sp = m.r["rsp"]
                if not self.chk(P, "sw-own", isinstance(sp, int), s, l, "the stack pointer of a new coroutine does not come from its stack"):
                    continue
                self.chk(P, "sw-align", sp % 16 == 8, s, l, "the stack of a new coroutine of %d bytes is misaligned by %d" % (size, (sp - 8) % 16))
                self.chk(P, "sw-own", low + 512 <= sp and sp + 8 <= low + size, s, l, "a new coroutine starts outside its stack")
                for a in m.writes:
                    if isinstance(a, int):
                        self.chk(P, "sw-own", low <= a and a + 8 <= low + size, s, l, "the switch writes outside the stack of a new coroutine")
                for k in s.mem:
                    if isinstance(k[0], str) and k[0].startswith("mem:"):
                        a = int(k[0][4:])
                        self.chk(P, "sw-own", low <= a and a + 8 <= low + size, s, l, "setting up a coroutine writes outside its stack")
            self.rep.use(it)


class Setup(Core):
    """which stack a coroutine is set up with"""

    def k_init(self, it, st, c):
        self.quiet, q = True, self.quiet
        try:
            stack, ctx = st.res(it.rv(st, c.args[0])), st.res(it.rv(st, c.args[1]))
        finally:
            self.quiet = q
        st.gh["inits"] = st.gh.get("inits", ()) + ((stack, ctx),)
        n = self.getv(it, st, "cocpp::co_env", "ctx_count", self.env[1])
        self.chk(P, "sw-first", n == I(self.count), st, c.l, "a coroutine is listed before it is set up")
        return [(st, NULL)]

    def run(self):
        self.entry = "cocpp::co_env::add_ctx"
        it = self.interp()
        st = self.base(it)
        self.count, self.env = 0, None
        st, self.env = self.new_env(it, st)
        common, owned = None, set()
        l = self.prog.fn("cocpp::co_env::add_ctx")["l"]
        for k, shared in enumerate((False, True, False, True)):
            st.gh["inits"] = ()
            self.count = k
            st, ctx = self.new_ctx(it, st, "c%d" % k, self.env, 3, shared=shared)
            ini = st.gh["inits"]
            if not self.chk(P, "sw-stack-of", len(ini) == 1 and ini[0][1] == ctx, st, l, "a new coroutine is not set up once"):
                continue
            stack = ini[0][0]
            if shared:
                self.chk(P, "sw-stack-of", stack[0] == "p" and common in (None, stack) and stack not in owned, st, l,
                         "coroutines with a shared stack do not get the same one")
                common = stack
            else:
                own = self.getv(it, st, "cocpp::co_ctx", "stack", ctx[1])
                self.chk(P, "sw-stack-of", stack == own and own[0] == "p" and own != common and own not in owned, st, l, "a new coroutine does not get its own stack")
                owned.add(own)
        self.rep.use(it)


def run_switch(prog, rep):
    rep.assumptions.append("Both frames, both stacks and the link field are disjoint memory; the machine code is the one g++ generates for the file that defines the switch.")
    Switch(prog, rep).run()
    Setup(prog, rep).run()
