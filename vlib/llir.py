"""Reader for the textual LLVM IR that clang -O0 produces from the project's C."""
import re
import struct

TOK = re.compile(r'''
    c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*" | "(?:[^"\\]|\\.)*"
  | [%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)
  | \#\d+ | ![-a-zA-Z$._0-9]* | 0x[KLMHR]?[0-9A-Fa-f]+
  | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+
  | \.\.\. | [a-zA-Z_][-a-zA-Z_.0-9]* | [(){}\[\]<>,=*:|]
''', re.X)


class IRError(Exception):
    pass


def toks(s):
    out, i = [], 0
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        if s[i] == ";":
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError(f"cannot read {s[i:i + 40]!r}")
        out.append(m.group())
        i = m.end()
    return out


# ----------------------------------------------------------------------- types
# ("i", n) ("p",) ("f", 32|64|80) ("a", n, T) ("s", (T..), packed) ("v",)
class Types:
    def __init__(self):
        self.named = {}

    def size(self, t):
        k = t[0]
        if k == "i":
            n = (t[1] + 7) // 8
            return n if n <= 2 else 4 if n <= 4 else 8 if n <= 8 else 16
        if k == "p":
            return 8
        if k == "f":
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if k == "a":
            return t[1] * self.size(t[2])
        if k == "n":
            return self.size(self.named[t[1]])
        if k == "s":
            return self.layout(t)[1]
        raise IRError(f"size of {t}")

    def align(self, t):
        k = t[0]
        if k == "a":
            return self.align(t[2])
        if k == "n":
            return self.align(self.named[t[1]])
        if k == "s":
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        return self.size(t)

    def layout(self, t):
        if t[0] == "n":
            t = self.named[t[1]]
        offs, o = [], 0
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            o = -(-o // a) * a
            offs.append(o)
            o += self.size(x)
        a = self.align(t)
        return offs, -(-o // a) * a

    def resolve(self, t):
        return self.named[t[1]] if t[0] == "n" else t


class P:
    """Token cursor."""

    def __init__(self, tokens, types):
        self.t, self.i, self.ty = tokens, 0, types

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def opt(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if self.next() != x:
            raise IRError(f"expected {x} in {' '.join(self.t)}")

    def type(self):
        x = self.next()
        if x == "ptr":
            if self.peek() == "addrspace":
                raise IRError("addrspace")
            return ("p",)
        if x == "void":
            return ("v",)
        if x == "double":
            return ("f", 64)
        if x == "float":
            return ("f", 32)
        if x == "x86_fp80":
            return ("f", 80)
        if re.fullmatch(r"i\d+", x):
            return ("i", int(x[1:]))
        if x == "[":
            n = int(self.next())
            self.need("x")
            t = self.type()
            self.need("]")
            return ("a", n, t)
        if x == "{":
            fs = []
            while not self.opt("}"):
                fs.append(self.type())
                self.opt(",")
            return ("s", tuple(fs), False)
        if x == "<" and self.peek() == "{":
            self.next()
            fs = []
            while not self.opt("}"):
                fs.append(self.type())
                self.opt(",")
            self.need(">")
            return ("s", tuple(fs), True)
        if x == "opaque":
            return ("s", (), False)
        if x.startswith("%"):
            return ("n", x)
        raise IRError(f"type {x}")

    ATTRS = {"noundef", "nonnull", "signext", "zeroext", "nocapture", "readonly", "writeonly", "noalias",
             "immarg", "inreg", "returned", "readnone", "nofree", "nest", "swiftself", "nounwind"}

    def attrs(self):
        byval = None
        while True:
            x = self.peek()
            if x in self.ATTRS:
                self.next()
            elif x == "align":
                self.next()
                if self.opt("("):
                    self.next()
                    self.need(")")
                else:
                    self.next()
            elif x in ("byval", "sret", "dereferenceable", "dereferenceable_or_null", "elementtype", "range"):
                self.next()
                self.need("(")
                if x in ("byval",):
                    byval = self.type()
                    self.need(")")
                else:
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == "(") - (y == ")")
            else:
                return byval

    def value(self, t):
        """Operand descriptor: ("r", name) | ("c", python constant)..."""
        x = self.next()
        if x.startswith("%"):
            return ("r", x)
        if x.startswith("@"):
            return ("g", x)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "true":
            return ("c", 1)
        if x == "false":
            return ("c", 0)
        if x == "zeroinitializer":
            return ("zero",)
        if x.startswith('c"'):
            return ("str", cstring(x))
        if x == "[" or x == "{":
            close = "]" if x == "[" else "}"
            items = []
            while not self.opt(close):
                tt = self.type()
                items.append((tt, self.value(tt)))
                self.opt(",")
            return ("agg", items)
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            self.need("(")
            base = self.type()
            self.need(",")
            pt = self.type()
            p = self.value(pt)
            idx = []
            while self.opt(","):
                if self.peek() == "inrange":
                    self.next()
                it = self.type()
                idx.append((it, self.value(it)))
            self.need(")")
            return ("gep", base, p, idx)
        if t[0] == "f":
            if x.startswith("0x"):
                if x[2] in "KLMHR":
                    raise IRError("long double constant")
                return ("d", struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0])
            return ("d", float(x))
        return ("c", int(x))


def cstring(x):
    s = x[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Function:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.blocks = {}
        self.entry = None


class Module:
    def __init__(self):
        self.types = Types()
        self.globals = {}      # name -> (type, init or None, const)
        self.functions = {}
        self.declared = set()

    def load(self, text, prefix=""):
        """Adds a translation unit; private/internal names get a prefix."""
        lines = text.splitlines()
        local = set(re.findall(r"^(@[-\w.$]+) = (?:private|internal)", text, re.M)) | \
            set(re.findall(r"^define internal .*?(@[-\w.$]+)\(", text, re.M))

        def ren(line):
            if prefix and local:
                return re.sub(r"@[-\w.$]+", lambda m: "@" + prefix + m.group()[1:] if m.group() in local else m.group(), line)
            return line
        i = 0
        while i < len(lines):
            l = ren(lines[i])
            i += 1
            if l.startswith("%") and " = type " in l:
                name, rest = l.split(" = type ", 1)
                self.types.named[name] = P(toks(rest), self.types).type()
            elif l.startswith("@"):
                self.global_(l)
            elif l.startswith("declare"):
                m = re.search(r"@([-\w.$]+)\(", l)
                self.declared.add(m.group(1))
            elif l.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(ren(lines[i]))
                    i += 1
                i += 1
                self.define(l, body)

    def global_(self, l):
        name, rest = l.split(" = ", 1)
        t = toks(rest)
        p = P(t, self.types)
        external = False
        while p.peek() not in ("global", "constant"):
            x = p.next()
            if x in ("external", "extern_weak"):
                external = True
            if x == "alias":
                raise IRError("alias")
        const = p.next() == "constant"
        ty = p.type()
        init = None
        if not external:
            init = p.value(ty)
        if name in self.globals and self.globals[name][1] is not None and init is None:
            return
        self.globals[name] = (ty, init, const)

    def define(self, head, body):
        m = re.search(r"@([-\w.$]+)\((.*)\)", head)
        name = m.group(1)
        t = toks(head)
        k = t.index("@" + name)
        # return type: last type before the name
        p = P(t[:k], self.types)
        p.next()
        ret = None
        while p.i < k:
            save = p.i
            try:
                ret = p.type()
                break
            except IRError:
                p.i = save + 1
        p = P(t, self.types)
        p.i = k + 1
        p.need("(")
        params = []
        n = 0
        while not p.opt(")"):
            if p.opt("..."):
                continue
            ty = p.type()
            bv = p.attrs()
            reg = p.next() if p.peek() and p.peek().startswith("%") else f"%{n}"
            params.append((ty, reg, bv))
            n += 1
            p.opt(",")
        f = Function(name, params, ret)
        label = None
        cur = None
        joined = []
        for l in body:
            if joined and joined[-1].rstrip().endswith("[") or (joined and "switch" in joined[-1] and "]" not in joined[-1]):
                joined[-1] += " " + l
            else:
                joined.append(l)
        for l in joined:
            s = l.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^([-\w.$]+|"[^"]*"):', l)
            if m:
                label = "%" + m.group(1)
                cur = f.blocks[label] = []
                continue
            if cur is None:
                label = "%entry!"
                cur = f.blocks[label] = []
            if f.entry is None:
                f.entry = label
            cur.append(self.instr(s))
        if f.entry is None:
            f.entry = next(iter(f.blocks))
        self.functions[name] = f

    def instr(self, s):
        s = re.sub(r", !.*$", "", s)
        p = P(toks(s), self.types)
        dest = None
        if p.peek(1) == "=":
            dest = p.next()
            p.next()
        op = p.next()
        ty = p.type
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "alloca":
            t = ty()
            n = ("c", 1)
            if p.opt(","):
                if p.peek() != "align":
                    it = ty()
                    n = p.value(it)
            return ("alloca", dest, t, n)
        if op == "load":
            p.opt("volatile")
            t = ty()
            p.need(",")
            return ("load", dest, t, p.value(ty()))
        if op == "store":
            p.opt("volatile")
            t = ty()
            v = p.value(t)
            p.need(",")
            return ("store", t, v, p.value(ty()))
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            t = ty()
            p.need(",")
            b = p.value(ty())
            idx = []
            while p.opt(","):
                it = ty()
                idx.append((it, p.value(it)))
            return ("gep", dest, t, b, idx)
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"):
            flags = set()
            while p.peek() in ("nsw", "nuw", "exact", "disjoint"):
                flags.add(p.next())
            t = ty()
            a = p.value(t)
            p.need(",")
            return ("bin", dest, op, "nsw" in flags, t, a, p.value(t))
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                p.next()
            t = ty()
            a = p.value(t)
            p.need(",")
            return ("fbin", dest, op, t, a, p.value(t))
        if op == "fneg":
            t = ty()
            return ("fneg", dest, t, p.value(t))
        if op in ("icmp", "fcmp"):
            pred = p.next()
            if op == "icmp" and pred == "samesign":
                pred = p.next()
            t = ty()
            a = p.value(t)
            p.need(",")
            return (op, dest, pred, t, a, p.value(t))
        if op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast",
                  "ptrtoint", "inttoptr", "freeze"):
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            t = ty()
            v = p.value(t)
            t2 = t
            if p.opt("to"):
                t2 = ty()
            return ("cast", dest, op, t, v, t2)
        if op == "br":
            if p.opt("label"):
                return ("jmp", p.next())
            t = ty()
            c = p.value(t)
            p.need(",")
            p.need("label")
            a = p.next()
            p.need(",")
            p.need("label")
            return ("br", c, a, p.next())
        if op == "switch":
            t = ty()
            v = p.value(t)
            p.need(",")
            p.need("label")
            d = p.next()
            p.need("[")
            cases = []
            while not p.opt("]"):
                ct = ty()
                c = p.value(ct)
                p.need(",")
                p.need("label")
                cases.append((c[1], p.next()))
            return ("switch", t, v, d, cases)
        if op == "ret":
            t = ty()
            return ("ret", None if t == ("v",) else (t, p.value(t)))
        if op == "unreachable":
            return ("unreachable",)
        if op == "phi":
            t = ty()
            inc = []
            while p.opt("["):
                v = p.value(t)
                p.need(",")
                inc.append((v, p.next()))
                p.need("]")
                p.opt(",")
            return ("phi", dest, t, inc)
        if op == "select":
            ct = ty()
            c = p.value(ct)
            p.need(",")
            t = ty()
            a = p.value(t)
            p.need(",")
            ty()
            return ("select", dest, c, t, a, p.value(t))
        if op == "extractvalue":
            t = ty()
            v = p.value(t)
            idx = []
            while p.opt(","):
                idx.append(int(p.next()))
            return ("extractvalue", dest, t, v, idx)
        if op == "insertvalue":
            t = ty()
            v = p.value(t)
            p.need(",")
            et = ty()
            e = p.value(et)
            idx = []
            while p.opt(","):
                idx.append(int(p.next()))
            return ("insertvalue", dest, t, v, et, e, idx)
        if op == "call":
            while p.peek() in ("fastcc", "ccc", "noalias", "fast", "nnan") or p.peek() in P.ATTRS or p.peek() in ("align", "dereferenceable", "dereferenceable_or_null"):
                if p.peek() in ("align", "dereferenceable", "dereferenceable_or_null"):
                    p.attrs()
                else:
                    p.next()
            rt = ty()
            if p.peek() == "(":
                d = 0
                while True:
                    x = p.next()
                    d += (x == "(") - (x == ")")
                    if d == 0:
                        break
            if p.peek() == "asm":
                raise IRError("inline assembly")
            callee = p.value(("p",))
            p.need("(")
            args = []
            while not p.opt(")"):
                at = ty()
                bv = p.attrs()
                args.append((at, p.value(at), bv))
                p.opt(",")
            return ("call", dest, rt, callee, args)
        raise IRError(f"instruction {op}")
