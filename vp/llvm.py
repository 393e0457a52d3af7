"""Symbolic execution of compiled code: an interpreter of LLVM IR over solver terms.

The C/C++ source (a header of the repository, or the C++ that Cython generates from one of its
extensions) is compiled by clang to textual IR, and its functions are interpreted: pointers are
concrete, integers are Python ints or z3 bit-vectors, booleans Python bools or z3 Booleans, floating
point values either z3 floating-point terms (mode "fp") or exact rationals / z3 reals (mode "real").
A branch on a symbolic condition forks the path through the engine. Every access to memory has to
lie inside a live allocation (anything else is a failure of the program).
"""

from __future__ import annotations

import re
import struct
import subprocess
from fractions import Fraction

import z3

from . import engine

TOK = re.compile(
    r'\s*(c"(?:[^"\\]|\\.)*"|[%@](?:"(?:[^"\\]|\\.)*"|[-\w$.]+)|!\d+|!|#\d+|0x[KLMHR]?[0-9A-Fa-f]+'
    r'|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|\.\.\.|.)')


class Unsupported(engine.Skip):
    """An instruction outside the encoded subset: the harness gives no verdict."""


def tokens(s):
    return [t for t in TOK.findall(s) if t.strip()]


# ---------------------------------------------------------------- types

class Ty:
    __slots__ = ("kind", "n", "el", "size", "align", "offs")

    def __init__(self, kind, n=0, el=None):
        self.kind, self.n, self.el = kind, n, el
        self.offs = None
        if kind == "i":
            self.size = self.align = 1
            while self.size * 8 < n:
                self.size *= 2
            self.align = min(self.size, 8)
        elif kind == "float":
            self.size = self.align = 4
        elif kind in ("double", "ptr"):
            self.size = self.align = 8
        elif kind == "array":
            self.size, self.align = n * el.size, el.align
        elif kind == "vec":
            self.size = self.align = n * el.size
        elif kind == "struct":
            off, al, self.offs = 0, 1, []
            for e in el:
                a = 1 if n else e.align  # n: packed
                off = -(-off // a) * a
                self.offs.append(off)
                off += e.size
                al = max(al, a)
            self.size, self.align = -(-off // al) * al, al
        else:
            self.size, self.align = 0, 1


VOID, PTR, DBL, FLT = Ty("void"), Ty("ptr"), Ty("double"), Ty("float")
I = {n: Ty("i", n) for n in (1, 8, 16, 32, 64, 128)}

ATTRS = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "signext",
         "zeroext", "returned", "noalias", "immarg", "inreg", "nofree", "swiftself", "nest",
         "allocptr", "dead_on_unwind", "writable", "noext", "nofpclass"}
PATTRS = {"dereferenceable", "dereferenceable_or_null", "byval", "sret", "align", "range",
          "captures", "initializes", "elementtype", "memory", "nofpclass"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp",
         "contract", "afn", "reassoc", "inbounds", "volatile", "samesign", "nusw"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or",
       "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"bitcast", "zext", "sext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext",
        "fptrunc", "ptrtoint", "inttoptr", "addrspacecast"}


class Parser:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() != x:
            raise Unsupported(f"expected {x} in {' '.join(self.t)[:200]}")
        self.i += 1

    def opt(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def parens(self):
        self.eat("(")
        d = 1
        while d:
            t = self.next()
            d += (t == "(") - (t == ")")

    def type(self):
        t = self.next()
        if t == "ptr":
            if self.peek() == "addrspace":
                raise Unsupported("addrspace")
            r = PTR
        elif t == "void":
            r = VOID
        elif t == "double":
            r = DBL
        elif t == "float":
            r = FLT
        elif re.fullmatch(r"i\d+", t):
            n = int(t[1:])
            r = I.get(n) or I.setdefault(n, Ty("i", n))
        elif t == "[":
            n = int(self.next())
            self.eat("x")
            r = Ty("array", n, self.type())
            self.eat("]")
        elif t == "{":
            r = Ty("struct", 0, self.types("}"))
        elif t == "<":
            if self.opt("{"):
                r = Ty("struct", 1, self.types("}"))
                self.eat(">")
            else:
                n = int(self.next())
                self.eat("x")
                r = Ty("vec", n, self.type())
                self.eat(">")
        elif t[0] == "%":
            r = self.m.struct(t)
        elif t in ("metadata", "label", "token", "opaque", "x86_fp80"):
            r = Ty(t)
        else:
            raise Unsupported("type " + t)
        if self.peek() == "(" and r is not PTR:  # function type
            self.parens()
        return r

    def types(self, end):
        out = []
        while not self.opt(end):
            out.append(self.type())
            self.opt(",")
        return out

    def attrs(self):
        while True:
            t = self.peek()
            if t in ATTRS:
                self.i += 1
            elif t in PATTRS:
                self.i += 1
                if self.peek() == "(":
                    self.parens()
                elif t == "align":
                    self.i += 1
            else:
                return

    def operand(self, ty):
        """A decoded operand: ("r", name), ("c", value), ("g", name), ("agg", [...])."""
        t = self.next()
        if t[0] == "%":
            return ("r", t)
        if t[0] == "@":
            return ("g", t)
        if t == "true":
            return ("c", True)
        if t == "false":
            return ("c", False)
        if t in ("null", "zeroinitializer"):
            return ("z", ty)
        if t in ("undef", "poison"):
            return ("u", ty)
        if t == "getelementptr":
            while self.peek() in FLAGS:
                self.i += 1
            if self.opt("inrange"):
                self.parens()
            self.eat("(")
            base = self.type()
            self.eat(",")
            pt = self.type()
            p = self.operand(pt)
            idx = []
            while self.opt(","):
                self.opt("inrange")
                it = self.type()
                idx.append((it, self.operand(it)))
            self.eat(")")
            return ("gep", base, p, idx)
        if t in CAST:
            self.eat("(")
            a = self.type()
            v = self.operand(a)
            self.eat("to")
            b = self.type()
            self.eat(")")
            return ("cast", t, a, v, b)
        if t in ("[", "{", "<"):
            if t == "<" and self.peek() == "{":
                self.next()
                t = "<{"
            end = {"[": "]", "{": "}", "<": ">", "<{": "}"}[t]
            out = []
            while not self.opt(end):
                et = self.type()
                out.append((et, self.operand(et)))
                self.opt(",")
            if t == "<{":
                self.eat(">")
            return ("agg", out)
        if t.startswith('c"'):
            b = re.sub(rb"\\([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]),
                       t[2:-1].encode())
            return ("agg", [(I[8], ("c", x)) for x in b])
        if ty.kind in ("double", "float"):
            if t.startswith("0x"):
                return ("c", struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0])
            return ("c", float(t))
        if ty.kind == "i" and re.fullmatch(r"-?\d+", t):
            v = int(t) % (1 << ty.n)
            return ("c", bool(v) if ty.n == 1 else v)
        raise Unsupported("operand " + " ".join(self.t)[:160])


class Module:
    def __init__(self, text):
        self.types_src, self.types, self.globals_src, self.fn_src, self.fns = {}, {}, {}, {}, {}
        self.decl = set()
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("define "):
                name = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', ln)
                j = i
                while lines[j] != "}":
                    j += 1
                self.fn_src["@" + name.group(1)] = lines[i:j]
                i = j
            elif ln.startswith("@"):
                self.globals_src[ln.split(" = ", 1)[0]] = ln.split(" = ", 1)[1]
            elif ln.startswith("%") and " = type " in ln:
                k, v = ln.split(" = type ", 1)
                self.types_src[k] = v
            elif ln.startswith("declare "):
                self.decl.add("@" + re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', ln).group(1))
            i += 1

    def struct(self, name):
        if name not in self.types:
            self.types[name] = Parser(self, tokens(self.types_src[name])).type()
        return self.types[name]

    def find(self, pattern):
        got = [k for k in self.fn_src if re.search(pattern, k)]
        if len(got) != 1:
            raise Unsupported(f"{len(got)} functions match {pattern}")
        return got[0]

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            f = self.fns[name] = Function(self, name, self.fn_src[name])
        return f


class Function:
    def __init__(self, mod, name, src):
        self.name = name
        head = src[0]
        p = Parser(mod, tokens(head[head.index("@"):]))
        p.next()
        p.eat("(")
        self.params = []
        while not p.opt(")"):
            if p.opt("..."):
                continue
            t = p.type()
            by = None
            while True:
                a = p.peek()
                if a == "byval":
                    p.next()
                    p.eat("(")
                    by = p.type()
                    p.eat(")")
                elif a in ATTRS or a in PATTRS:
                    p.attrs() if a != "byval" else None
                else:
                    break
            self.params.append((p.next(), t, by))
            p.opt(",")
        # an unnamed entry block takes the number after the parameters
        nums = [int(n[1:]) for n, _, _ in self.params if n[1:].isdigit()]
        label = "%" + str(max(nums) + 1 if nums else 0)
        self.entry = None
        self.blocks = {}
        cur = None
        k = 1
        while k < len(src):
            ln = src[k].split(" ; preds")[0].rstrip()
            k += 1
            if not ln.strip() or ln.startswith(";"):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):', ln)
            if m:
                label = "%" + m.group(1)
                cur = None
                continue
            if cur is None:
                cur = self.blocks[label] = []
                if self.entry is None:
                    self.entry = label
            s = ln.strip()
            if s.startswith("switch"):
                while not s.rstrip().endswith("]"):
                    s += " " + src[k].strip()
                    k += 1
            elif " invoke " in " " + s and " unwind label " not in s:
                s += " " + src[k].strip()
                k += 1
            elif " landingpad " in s:
                while src[k].strip().split(" ")[0] in ("cleanup", "catch", "filter"):
                    k += 1
            cur.append(self.decode(mod, s))

    def decode(self, mod, s):
        p = Parser(mod, tokens(re.sub(r", ![a-z].*$|, !\d+$", "", s)))
        dst = None
        if p.peek(1) == "=":
            dst = p.next()
            p.next()
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        while p.peek() in FLAGS:
            p.next()
        if op in BIN:
            t = p.type()
            a = p.operand(t)
            p.eat(",")
            return (op, dst, t, a, p.operand(t))
        if op in ("icmp", "fcmp"):
            pr = p.next()
            t = p.type()
            a = p.operand(t)
            p.eat(",")
            return (op, dst, t, a, p.operand(t), pr)
        if op in CAST:
            a = p.type()
            v = p.operand(a)
            p.eat("to")
            return ("cast", dst, op, a, v, p.type())
        if op == "freeze":
            a = p.type()
            return ("copy", dst, a, p.operand(a))
        if op == "fneg":
            a = p.type()
            return ("fneg", dst, a, p.operand(a))
        if op == "alloca":
            t = p.type()
            n = ("c", 1)
            if p.opt(",") and p.peek() != "align":
                it = p.type()
                n = p.operand(it)
            return ("alloca", dst, t, n)
        if op == "load":
            p.opt("atomic"), p.opt("volatile")
            t = p.type()
            p.eat(",")
            return ("load", dst, t, p.operand(p.type()))
        if op == "store":
            p.opt("atomic"), p.opt("volatile")
            t = p.type()
            v = p.operand(t)
            p.eat(",")
            return ("store", None, t, v, p.operand(p.type()))
        if op == "getelementptr":
            base = p.type()
            p.eat(",")
            v = p.operand(p.type())
            idx = []
            while p.opt(","):
                it = p.type()
                idx.append((it, p.operand(it)))
            return ("copy", dst, PTR, ("gep", base, v, idx))
        if op == "select":
            p.type()
            c = p.operand(I[1])
            p.eat(",")
            t = p.type()
            a = p.operand(t)
            p.eat(",")
            p.type()
            return ("select", dst, t, c, a, p.operand(t))
        if op == "phi":
            t = p.type()
            inc = {}
            while True:
                p.eat("[")
                v = p.operand(t)
                p.eat(",")
                inc[p.next()] = v
                p.eat("]")
                if not p.opt(","):
                    break
            return ("phi", dst, t, inc)
        if op == "br":
            if p.opt("label"):
                return ("br", None, p.next())
            p.type()
            c = p.operand(I[1])
            p.eat(","), p.eat("label")
            a = p.next()
            p.eat(","), p.eat("label")
            return ("cbr", None, c, a, p.next())
        if op == "switch":
            t = p.type()
            v = p.operand(t)
            p.eat(","), p.eat("label")
            d = p.next()
            p.eat("[")
            cases = []
            while not p.opt("]"):
                p.type()
                c = p.operand(t)
                p.eat(","), p.eat("label")
                cases.append((c[1], p.next()))
            return ("switch", None, t, v, d, cases)
        if op == "ret":
            t = p.type()
            return ("ret", None, t, None if t is VOID else p.operand(t))
        if op in ("call", "invoke"):
            while p.peek() not in ("",) and (p.peek() in ATTRS or p.peek() in PATTRS
                                             or p.peek() in FLAGS
                                             or p.peek() in ("fastcc", "ccc", "coldcc")):
                if p.peek() in PATTRS:
                    p.attrs()
                else:
                    p.next()
            rt = p.type()
            if p.peek() == "(":
                p.parens()
            f = p.operand(PTR)
            p.eat("(")
            args = []
            while not p.opt(")"):
                t = p.type()
                p.attrs()
                if t.kind == "metadata":
                    while p.peek() not in (",", ")"):
                        p.next()
                else:
                    args.append((t, p.operand(t)))
                p.opt(",")
            normal = None
            if op == "invoke":
                while not p.opt("to"):
                    p.next()
                p.eat("label")
                normal = p.next()
            return ("call", dst, rt, f, args, normal)
        if op == "extractvalue":
            t = p.type()
            v = p.operand(t)
            idx = []
            while p.opt(","):
                idx.append(int(p.next()))
            return ("extract", dst, t, v, idx)
        if op == "insertvalue":
            t = p.type()
            v = p.operand(t)
            p.eat(",")
            et = p.type()
            e = p.operand(et)
            idx = []
            while p.opt(","):
                idx.append(int(p.next()))
            return ("insert", dst, t, v, et, e, idx)
        if op == "cmpxchg":
            p.opt("weak")
            p.opt("volatile")
            a = p.operand(p.type())
            p.eat(",")
            t = p.type()
            c = p.operand(t)
            p.eat(",")
            p.type()
            return ("cas", dst, t, a, c, p.operand(t))
        if op == "atomicrmw":
            o = p.next()
            pt = p.type()
            a = p.operand(pt)
            p.eat(",")
            t = p.type()
            return ("rmw", dst, t, o, a, p.operand(t))
        if op in ("unreachable", "landingpad", "resume", "fence"):
            return (op, dst)
        raise Unsupported("instruction " + s[:100])


# ---------------------------------------------------------------- values

def issym(x):
    return isinstance(x, z3.ExprRef)


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


FSORT = {"double": z3.Float64(), "float": z3.Float32()}
RNE = z3.RNE()
UNDEF = object()


class Machine:
    """One execution. `mode`: how floating point is represented ("fp" or "real")."""

    def __init__(self, mod, ctx, mode, externs=None, max_steps=2_000_000):
        self.mod, self.ctx, self.mode = mod, ctx, mode
        self.ext = dict(externs or {})
        self.mem, self.size = {}, {}  # region base -> {offset: (value, type)}, size
        self.top = 0x10000
        self.bases = []
        self.gaddr, self.faddr = {}, {}
        self.steps, self.max_steps = 0, max_steps

    # -- memory
    def alloc(self, n):
        base = self.top
        self.top += max(16, -(-n // 16) * 16) + 64
        self.mem[base], self.size[base] = {}, n
        self.bases.append(base)
        return base

    def free(self, a):
        if a == 0:
            return
        if a not in self.mem:
            raise self.bad("frees memory which is not allocated")
        del self.mem[a], self.size[a]

    def bad(self, msg):
        return MemoryError("compiled code " + msg)

    def locate(self, a, n):
        import bisect

        if issym(a):
            raise Unsupported("symbolic address")
        i = bisect.bisect_right(self.bases, a) - 1
        if i >= 0:
            b = self.bases[i]
            if b in self.mem and a + n <= b + self.size[b]:
                return self.mem[b], a - b
        raise self.bad(f"accesses memory outside of any live object (address {a:#x}, {n} bytes)")

    def load(self, a, ty):
        if ty.kind == "struct":
            return [self.load(a + o, e) for o, e in zip(ty.offs, ty.el)]
        if ty.kind in ("array", "vec"):
            return [self.load(a + i * ty.el.size, ty.el) for i in range(ty.n)]
        cells, off = self.locate(a, ty.size)
        c = cells.get(off)
        if c is None:
            return self.load_bytes(cells, off, ty)
        v, t = c
        if v is UNDEF:
            return UNDEF
        if t.size != ty.size:
            return self.load_bytes(cells, off, ty)
        return self.retype(v, t, ty)

    def load_bytes(self, cells, off, ty):
        """Assemble from concrete integer cells; memory never written reads as undefined."""
        bs = []
        for o in range(off, off + ty.size):
            for k in range(o, o - 16, -1):
                if k in cells and k + cells[k][1].size > o:
                    v, t = cells[k]
                    if v is UNDEF:
                        return UNDEF
                    if t.kind in ("double", "float") and not issym(v):
                        v = int.from_bytes(
                            struct.pack("<d" if t.kind == "double" else "<f", v), "little")
                    if issym(v) or not isinstance(v, (int, bool)):
                        raise Unsupported("partial read of a symbolic value")
                    bs.append((int(v) >> (8 * (o - k))) & 255)
                    break
            else:
                return UNDEF
        v = int.from_bytes(bytes(bs), "little")
        return self.retype(v, I[ty.size * 8], ty)

    def retype(self, v, t, ty):
        if t.kind == ty.kind and t.n == ty.n:
            return v
        if {t.kind, ty.kind} == {"i", "ptr"}:
            return v
        if t.kind == "i" and ty.kind == "i":  # i1 stored as a byte and so on
            if ty.n == 1:
                return self.trunc(v, t.n, 1)
            return int(v) if isinstance(v, bool) else v
        if not issym(v) and t.kind == "i":
            f = struct.unpack("<d" if ty.size == 8 else "<f", int(v).to_bytes(ty.size, "little"))[0]
            return self.fconst(f, ty)
        if not issym(v):
            return int.from_bytes(struct.pack("<d" if t.size == 8 else "<f", float(v)), "little")
        return self.bitcast(v, t, ty)

    def store(self, a, v, ty):
        if ty.kind == "struct":
            for o, e, x in zip(ty.offs, ty.el, v):
                self.store(a + o, x, e)
            return
        if ty.kind in ("array", "vec"):
            for i in range(ty.n):
                self.store(a + i * ty.el.size, v[i], ty.el)
            return
        cells, off = self.locate(a, ty.size)
        if off not in cells or cells[off][1].size != ty.size:
            for k in range(off - 15, off + ty.size):
                c = cells.get(k)
                if c is None or k + c[1].size <= off or k == off and c[1].size == ty.size:
                    continue
                # overlapping: split concrete integers into bytes, forget anything else
                v0, t0 = c
                del cells[k]
                if t0.kind in ("double", "float") and isinstance(v0, float):
                    v0 = int.from_bytes(
                        struct.pack("<d" if t0.kind == "double" else "<f", v0), "little")
                if isinstance(v0, (int, bool)):
                    for j in range(t0.size):
                        cells[k + j] = ((int(v0) >> (8 * j)) & 255, I[8])
                else:
                    for j in range(t0.size):
                        cells[k + j] = (UNDEF, I[8])
            for k in range(off, off + ty.size):
                cells.pop(k, None)
        cells[off] = (v, ty)

    def copy(self, d, s, n):
        if not n:
            return
        sc, so = self.locate(s, n)
        dc, do = self.locate(d, n)
        part = {k: c for k, c in sc.items() if so <= k < so + n}
        for k in [k for k in dc if do <= k < do + n]:
            del dc[k]
        for k, c in part.items():
            if k + c[1].size > so + n:
                raise Unsupported("partial copy")
            dc[k - so + do] = c

    def fill(self, d, byte, n):
        if not n:
            return
        dc, do = self.locate(d, n)
        for k in [k for k in dc if do <= k < do + n]:
            del dc[k]
        k = 0
        while k < n:
            s = 8 if n - k >= 8 else 1
            dc[do + k] = (int.from_bytes(bytes([byte]) * s, "little"), I[8 * s])
            k += s

    # -- constants
    def fconst(self, f, ty):
        if self.mode == "real":
            if f != f or f in (float("inf"), float("-inf")):
                return f
            return Fraction(f)
        return float(f)

    def zero(self, ty):
        if ty.kind == "struct":
            return [self.zero(e) for e in ty.el]
        if ty.kind in ("array", "vec"):
            return [self.zero(ty.el) for _ in range(ty.n)]
        if ty.kind in ("double", "float"):
            return self.fconst(0.0, ty)
        return False if ty.kind == "i" and ty.n == 1 else 0

    def undef(self, ty):
        if ty.kind == "struct":
            return [self.undef(e) for e in ty.el]
        if ty.kind in ("array", "vec"):
            return [self.undef(ty.el) for _ in range(ty.n)]
        return UNDEF

    def symbol(self, name):
        """Address of a global or of a function."""
        if name in self.gaddr:
            return self.gaddr[name]
        if name in self.mod.globals_src:
            src = self.mod.globals_src[name]
            tk = tokens(src)
            k = 0
            while tk[k] not in ("global", "constant"):
                if tk[k] == "external":
                    pass
                k += 1
            p = Parser(self.mod, tk[k + 1:])
            ty = p.type()
            a = self.gaddr[name] = self.alloc(ty.size)
            if "external" not in tk[:k]:
                op = p.operand(ty)
                self.store(a, self.val(op, ty, {}), ty)
            elif name in self.ext:
                self.store(a, self.ext[name], ty)
            return a
        if name in self.mod.fn_src or name in self.mod.decl:
            a = self.gaddr[name] = self.alloc(16)
            self.faddr[a] = name
            return a
        raise Unsupported("symbol " + name)

    def val(self, op, ty, env):
        k = op[0]
        if k == "r":
            return env[op[1]]
        if k == "c":
            v = op[1]
            return self.fconst(v, ty) if isinstance(v, float) else v
        if k == "z":
            return self.zero(ty)
        if k == "u":
            return self.undef(ty)
        if k == "g":
            return self.symbol(op[1])
        if k == "agg":
            return [self.val(o, t, env) for t, o in op[1]]
        if k == "gep":
            _, base, p, idx = op
            a = self.val(p, PTR, env)
            t = base
            for n, (it, o) in enumerate(idx):
                i = self.val(o, it, env)
                if issym(i):
                    i = self.concrete(i)
                if i is UNDEF:
                    raise self.bad("computes an address from undefined data")
                i = sgn(int(i), it.n)
                if n == 0:
                    a += i * t.size
                elif t.kind == "struct":
                    a += t.offs[i]
                    t = t.el[i]
                else:
                    t = t.el
                    a += i * t.size
            return a
        if k == "cast":
            return self.cast(op[1], op[2], self.val(op[3], op[2], env), op[4])
        raise Unsupported("operand kind " + k)

    # -- arithmetic
    def decide(self, c):
        if c is UNDEF:
            raise self.bad("branches on undefined data")
        if not issym(c):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return bool(engine.SymBool(self.ctx, c))

    def concrete(self, t):
        """A symbolic integer used as an index: enumerate its values through the engine."""
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return t.as_long()
        return int(self.ctx.concretize(engine.SymInt(self.ctx, z3.BV2Int(t))))

    def bv(self, v, n):
        if n == 1:
            return v if issym(v) else z3.BoolVal(bool(v))
        return v if issym(v) else z3.BitVecVal(int(v), n)

    def fp(self, v, ty):
        return v if issym(v) else z3.FPVal(float(v), FSORT[ty.kind])

    def num(self, v):
        return v if issym(v) else z3.RealVal(str(Fraction(v)))

    def trunc(self, v, a, b):
        if v is UNDEF:
            return v
        if not issym(v):
            r = int(v) & ((1 << b) - 1)
            return bool(r) if b == 1 else r
        r = z3.Extract(b - 1, 0, v)
        return r == 1 if b == 1 else r

    def bitcast(self, v, a, b):
        if a.kind == b.kind:
            return v
        if v is UNDEF:
            return v
        if not issym(v):
            if b.kind in ("double", "float"):
                return self.fconst(struct.unpack("<d" if b.size == 8 else "<f",
                                                 int(v).to_bytes(b.size, "little"))[0], b)
            return int.from_bytes(struct.pack("<d" if a.size == 8 else "<f", float(v)), "little")
        if self.mode == "real":
            raise Unsupported("bit pattern of a real")
        if b.kind in ("double", "float"):
            return z3.fpBVToFP(v, FSORT[b.kind])
        # the bits of a value that came from bits are those bits
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 \
                and z3.is_bv(v.arg(0)):
            return v.arg(0)
        return z3.fpToIEEEBV(v)

    def cast(self, op, a, v, b):
        if op in ("ptrtoint", "inttoptr"):
            return v
        if op == "bitcast":
            return self.bitcast(v, a, b)
        if v is UNDEF:
            return v
        if op == "trunc":
            return self.trunc(v, a.n, b.n)
        if op in ("zext", "sext"):
            if a.n == 1:
                one = 1 if op == "zext" else (1 << b.n) - 1
                if issym(v):
                    return z3.If(v, z3.BitVecVal(one, b.n), z3.BitVecVal(0, b.n))
                return one if v else 0
            if issym(v):
                return (z3.ZeroExt if op == "zext" else z3.SignExt)(b.n - a.n, v)
            return v if op == "zext" else sgn(v, a.n) % (1 << b.n)
        if op in ("sitofp", "uitofp"):
            signed = op == "sitofp"
            if a.n == 1:
                v = self.cast("zext", a, v, I[32])
                a = I[32]
            if not issym(v):
                return self.fconst(float(sgn(v, a.n) if signed else v), b)
            if self.mode == "real":
                return z3.ToReal(z3.BV2Int(v, signed))
            return (z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(RNE, v, FSORT[b.kind])
        if op in ("fpext", "fptrunc"):
            if self.mode == "real":
                if op == "fptrunc" and not issym(v):
                    return Fraction(struct.unpack("<f", struct.pack("<f", float(v)))[0])
                return v
            if not issym(v):
                if op == "fptrunc":
                    return struct.unpack("<f", struct.pack("<f", v))[0]
                return v
            return z3.fpFPToFP(RNE, v, FSORT[b.kind])
        if op == "fptosi":
            n = b.n
            lo = 1 << (n - 1)
            if not issym(v):
                f = Fraction(v) if v == v and abs(v) != float("inf") else None
                if f is None or not -lo - 1 < f < lo:
                    return lo  # the x86 result for unrepresentable values
                return int(f) % (1 << n)
            if self.mode == "real":
                t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                return z3.Int2BV(t, n)
            s = FSORT[a.kind]
            ok = z3.And(z3.fpLT(v, z3.FPVal(float(lo), s)), z3.fpGEQ(v, z3.FPVal(-float(lo), s)))
            return z3.If(ok, z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(n)), z3.BitVecVal(lo, n))
        raise Unsupported("cast " + op)

    def binop(self, op, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ty.kind == "vec":
            return [self.binop(op, ty.el, x, y) for x, y in zip(a, b)]
        if op[0] == "f":
            if self.mode == "real":
                if not issym(a) and not issym(b):
                    if isinstance(a, float) or isinstance(b, float):
                        a, b = float(a), float(b)
                    if op == "fdiv" and b == 0:
                        raise Unsupported("division by zero")
                    return {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b,
                            "fdiv": lambda: a / b}[op]()
                if isinstance(a, float) or isinstance(b, float):
                    raise Unsupported("special value")
                x, y = self.num(a), self.num(b)
                return {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y,
                        "fdiv": lambda: x / y}[op]()
            x, y = self.fp(a, ty), self.fp(b, ty)
            f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op]
            return z3.simplify(f(RNE, x, y))
        n = ty.n
        if n == 1:
            x, y = self.bv(a, 1), self.bv(b, 1)
            if not issym(a) and not issym(b):
                a, b = bool(a), bool(b)
                return {"and": a and b, "or": a or b, "xor": a != b, "add": a != b,
                        "sub": a != b, "mul": a and b}[op]
            return {"and": z3.And, "or": z3.Or, "xor": z3.Xor, "add": z3.Xor, "sub": z3.Xor,
                    "mul": z3.And}[op](x, y)
        M = (1 << n) - 1
        if not issym(a) and not issym(b):
            if op == "add":
                return (a + b) & M
            if op == "sub":
                return (a - b) & M
            if op == "mul":
                return (a * b) & M
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            # shift counts as the hardware takes them
            if op == "shl":
                return (a << (b % n)) & M
            if op == "lshr":
                return a >> (b % n)
            if op == "ashr":
                return (sgn(a, n) >> (b % n)) & M
            if b == 0:
                raise ZeroDivisionError("compiled code divides by zero")
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x, y = sgn(a, n), sgn(b, n)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == "sdiv" else x - q * y) & M
        x, y = self.bv(a, n), self.bv(b, n)
        if op in ("shl", "lshr", "ashr"):
            y = y & z3.BitVecVal(n - 1, n)
        return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
                "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y,
                "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y),
                "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]()

    def icmp(self, pr, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ty.kind == "ptr" or not (issym(a) or issym(b)):
            n = 64 if ty.kind == "ptr" else ty.n
            a, b = int(a), int(b)
            if pr[0] == "s":
                a, b = sgn(a, n), sgn(b, n)
            return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b,
                    "le": a <= b}[pr if pr in ("eq", "ne") else pr[1:]]
        x, y = self.bv(a, ty.n), self.bv(b, ty.n)
        return {"eq": lambda: x == y, "ne": lambda: x != y, "sgt": lambda: x > y,
                "sge": lambda: x >= y, "slt": lambda: x < y, "sle": lambda: x <= y,
                "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y),
                "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y)}[pr]()

    def fcmp(self, pr, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pr in ("true", "false"):
            return pr == "true"
        if not issym(a) and not issym(b):
            un = a != a or b != b
            if pr == "ord":
                return not un
            if pr == "uno":
                return un
            if un:
                return pr[0] == "u"
            return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b,
                    "le": a <= b}[pr[1:]]
        if self.mode == "real":
            if isinstance(a, float) or isinstance(b, float):
                raise Unsupported("special value")
            if pr in ("ord", "uno"):
                return pr == "ord"
            x, y = self.num(a), self.num(b)
            return {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y,
                    "le": x <= y}[pr[1:]]
        x, y = self.fp(a, ty), self.fp(b, ty)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pr == "ord":
            return z3.Not(un)
        if pr == "uno":
            return un
        c = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ,
             "ne": lambda p, q: z3.Not(z3.fpEQ(p, q))}[pr[1:]](x, y)
        return z3.Or(un, c) if pr[0] == "u" else z3.And(z3.Not(un), c)

    def ite(self, ty, c, a, b):
        if not issym(c):
            return a if c else b
        if isinstance(a, list) or a is UNDEF or b is UNDEF or ty.kind == "ptr":
            return a if self.decide(c) else b
        if ty.kind == "i":
            return z3.If(c, self.bv(a, ty.n), self.bv(b, ty.n))
        if self.mode == "real":
            if isinstance(a, float) or isinstance(b, float):
                return a if self.decide(c) else b
            return z3.If(c, self.num(a), self.num(b))
        return z3.If(c, self.fp(a, ty), self.fp(b, ty))

    # -- execution
    def call(self, name, args):
        """Call a function of the module with values; returns its value."""
        if name in self.ext:
            return self.ext[name](self, *args)
        if name.startswith("@llvm."):
            return self.intrinsic(name, args)
        if name in BUILTIN:
            return BUILTIN[name](self, *args)
        if name not in self.mod.fn_src:
            raise Unsupported("external function " + name)
        f = self.mod.fn(name)
        env = {}
        frame = []
        for (n, t, by), v in zip(f.params, args):
            if by is not None:
                a = self.alloc(by.size)
                self.copy(a, v, by.size)
                frame.append(a)
                v = a
            env[n] = v
        blk, prev = f.entry, None
        try:
            while True:
                nxt = None
                for ins in f.blocks[blk]:
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise TimeoutError("compiled code does not end within the step bound")
                    op = ins[0]
                    if op == "phi":
                        # all phis of a block read the values before it
                        continue
                    r = self.step(ins, env, frame)
                    if op in ("br", "cbr", "switch"):
                        nxt = r
                        break
                    if op == "ret":
                        return r
                    if op == "call" and ins[5] is not None:
                        nxt = ins[5]
                        break
                    if op in ("unreachable", "resume"):
                        raise self.bad("reaches code it declares unreachable")
                prev, blk = blk, nxt
                new = {}
                for ins in f.blocks[blk]:
                    if ins[0] != "phi":
                        break
                    new[ins[1]] = self.val(ins[3][prev], ins[2], env)
                env.update(new)
        finally:
            for a in frame:
                self.mem.pop(a, None)
                self.size.pop(a, None)

    def step(self, ins, env, frame):
        op, dst = ins[0], ins[1]
        val = self.val
        if op in BIN:
            r = self.binop(op, ins[2], val(ins[3], ins[2], env), val(ins[4], ins[2], env))
        elif op == "copy":
            r = val(ins[3], ins[2], env)
        elif op == "load":
            r = self.load(val(ins[3], PTR, env), ins[2])
        elif op == "cas":
            a, t = val(ins[3], PTR, env), ins[2]
            old = self.load(a, t)
            same = self.decide(self.icmp("eq", t, old, val(ins[4], t, env)))
            if same:
                self.store(a, val(ins[5], t, env), t)
            r = [old, bool(same)]
        elif op == "store":
            self.store(val(ins[4], PTR, env), val(ins[3], ins[2], env), ins[2])
            return None
        elif op == "icmp":
            r = self.icmp(ins[5], ins[2], val(ins[3], ins[2], env), val(ins[4], ins[2], env))
        elif op == "fcmp":
            r = self.fcmp(ins[5], ins[2], val(ins[3], ins[2], env), val(ins[4], ins[2], env))
        elif op == "br":
            return ins[2]
        elif op == "cbr":
            return ins[3] if self.decide(val(ins[2], I[1], env)) else ins[4]
        elif op == "select":
            c = val(ins[3], I[1], env)
            if c is UNDEF:  # either value: a failure only where the result matters
                r = UNDEF
            else:
                r = self.ite(ins[2], c, val(ins[4], ins[2], env), val(ins[5], ins[2], env))
        elif op == "cast":
            r = self.cast(ins[2], ins[3], val(ins[4], ins[3], env), ins[5])
        elif op == "call":
            _, _, rt, f, args, _ = ins
            vs = [val(o, t, env) for t, o in args]
            if f[0] == "g":
                name = f[1]
            else:
                a = val(f, PTR, env)
                if a not in self.faddr:
                    raise self.bad("calls an address which is no function")
                name = self.faddr[a]
            r = self.call(name, vs)
        elif op == "ret":
            return None if ins[3] is None else val(ins[3], ins[2], env)
        elif op == "alloca":
            n = val(ins[3], I[64], env)
            r = self.alloc(ins[2].size * int(n))
            frame.append(r)
        elif op == "switch":
            v = val(ins[3], ins[2], env)
            for c, l in ins[5]:
                if self.decide(self.icmp("eq", ins[2], v, c)):
                    return l
            return ins[4]
        elif op == "fneg":
            v = val(ins[3], ins[2], env)
            r = z3.fpNeg(v) if issym(v) and self.mode == "fp" else -v
        elif op == "extract":
            r = val(ins[3], ins[2], env)
            for i in ins[4]:
                r = r[i]
        elif op == "insert":
            import copy

            r = copy.copy(val(ins[3], ins[2], env))
            cur = r
            for i in ins[6][:-1]:
                cur[i] = copy.copy(cur[i])
                cur = cur[i]
            cur[ins[6][-1]] = val(ins[5], ins[4], env)
        elif op == "rmw":
            a = val(ins[4], PTR, env)
            r = self.load(a, ins[2])
            v = val(ins[5], ins[2], env)
            new = v if ins[3] == "xchg" else self.binop(ins[3], ins[2], r, v)
            self.store(a, new, ins[2])
        elif op in ("unreachable", "resume", "fence"):
            return None
        else:
            raise Unsupported(op)
        if dst is not None:
            env[dst] = r
        return r

    def intrinsic(self, name, a):
        b = name[6:]
        if b.startswith(("lifetime", "dbg", "assume", "experimental", "invariant", "prefetch")):
            return None
        if b.startswith(("memcpy", "memmove")):
            return self.copy(a[0], a[1], self.cint(a[2]))
        if b.startswith("memset"):
            return self.fill(a[0], self.cint(a[1]), self.cint(a[2]))
        m = re.fullmatch(r"(umin|umax|smin|smax)\.i(\d+)", b)
        if m:
            n = int(m.group(2))
            pr = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[m.group(1)]
            return self.ite(I[n], self.icmp(pr, I[n], a[0], a[1]), a[0], a[1])
        m = re.fullmatch(r"(ctpop|ctlz|cttz|abs|fshl|fshr)\.i(\d+)", b)
        if m:
            n = int(m.group(2))
            x = a[0]
            f = m.group(1)
            if f == "abs":
                return self.ite(I[n], self.icmp("slt", I[n], x, 0), self.binop("sub", I[n], 0, x),
                                x)
            if f in ("fshl", "fshr"):
                if issym(a[2]):
                    raise Unsupported("symbolic funnel shift")
                k = a[2] % n
                hi, lo = (k, n - k) if f == "fshl" else (n - k, k)
                if k == 0:
                    return a[0] if f == "fshl" else a[1]
                return self.binop("or", I[n], self.binop("shl", I[n], a[0], hi),
                                  self.binop("lshr", I[n], a[1], lo))
            if not issym(x):
                s = bin(x)[2:].rjust(n, "0")
                if f == "ctpop":
                    return s.count("1")
                if f == "ctlz":
                    return len(s) - len(s.lstrip("0"))
                return len(s) - len(s.rstrip("0"))
            bits = [z3.Extract(i, i, x) for i in range(n)]
            if f == "ctpop":
                return sum((z3.ZeroExt(n - 1, q) for q in bits[1:]), z3.ZeroExt(n - 1, bits[0]))
            r = z3.BitVecVal(n, n)
            order = range(n) if f == "ctlz" else range(n - 1, -1, -1)
            for i in order:
                r = z3.If(bits[i] == 1, z3.BitVecVal(n - 1 - i if f == "ctlz" else i, n), r)
            return r
        m = re.fullmatch(r"(fabs|sqrt|fmuladd|floor|ceil|minnum|maxnum|copysign)\.f(\d+)", b)
        if m:
            ty = DBL if m.group(2) == "64" else FLT
            f = m.group(1)
            if f == "fmuladd":
                return self.binop("fadd", ty, self.binop("fmul", ty, a[0], a[1]), a[2])
            if f == "fabs":
                if not issym(a[0]):
                    return abs(a[0])
                if self.mode == "fp":
                    return z3.fpAbs(a[0])
                return z3.If(a[0] < 0, -a[0], a[0])
        raise Unsupported("intrinsic " + name)

    def cint(self, v):
        return self.concrete(v) if issym(v) else int(v)


class Thrown(Exception):
    """The compiled code throws a C++ exception."""


def _throw(m, *a):
    raise Thrown("compiled code throws an exception")


BUILTIN = {
    "@_Znwm": lambda m, n: m.alloc(n), "@malloc": lambda m, n: m.alloc(n),
    "@_Znam": lambda m, n: m.alloc(n),
    "@_ZdlPv": lambda m, a, *n: m.free(a), "@_ZdlPvm": lambda m, a, *n: m.free(a),
    "@_ZdaPv": lambda m, a, *n: m.free(a), "@_ZdaPvm": lambda m, a, *n: m.free(a),
    "@free": lambda m, a: m.free(a),
    "@__cxa_allocate_exception": _throw, "@_ZSt20__throw_length_errorPKc": _throw,
    "@_ZSt20__throw_bad_weak_ptrv": _throw,
}


# ---------------------------------------------------------------- compiling

_CACHE = {}
FLAGS_CC = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w",
            "-ffp-contract=off"]


def compile_text(text, includes=(), lang="c++"):
    """IR module of a source text (compiled afresh in every process)."""
    key = (text, tuple(includes))
    if key not in _CACHE:
        cmd = ["clang++" if lang == "c++" else "clang", "-x", lang, "-", "-S", "-emit-llvm", "-o",
               "-", *FLAGS_CC, *[f"-I{i}" for i in includes]]
        r = subprocess.run(cmd, input=text, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("clang: " + r.stderr[-2000:])
        _CACHE[key] = Module(r.stdout)
    return _CACHE[key]
