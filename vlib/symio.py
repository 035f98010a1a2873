"""Symbolic bytes, text with symbolic characters, a virtual file system and the
stand-ins for builtins/struct/pathlib/os used by symbolically executed modules."""
import builtins
import datetime as _dt
import io
import os as _os
import pathlib as _pathlib
import struct as _struct
import sys as _sys
import types

from . import sym, symnp
from .sym import (Engine, Flt, PathAbort, Real, RealInt, SymBool, SymInt, Unsupported, as_z3bool,
                  band, bounds, builtins_int, engine, f_int, fit, flt_const, ite, mkint,
                  norm_int, shl, shr, sym_add, sym_and, sym_cmp, sym_mul, sym_neg, sym_sub,
                  to_flt, z3)
from .symnp import NpScalar, SymArray, join_bytes

TOK0 = Engine.TOK0


def is_tok(ch):
    return TOK0 <= ord(ch) < TOK0 + 0xFFFF


def has_token(s):
    return any(ord(c) >= TOK0 for c in s) if isinstance(s, str) else False


# ----------------------------------------------------------------- SymBytes
def byte_list(b):
    if isinstance(b, SymBytes):
        return list(b.b)
    if isinstance(b, SymArray):
        return symnp.array_bytes(b)
    return list(bytes(b))


def mkbytes(bs):
    bs = list(bs)
    if all(isinstance(x, builtins_int) for x in bs):
        return bytes(bs)
    return SymBytes(bs)


class SymBytes:
    """bytes whose elements may be symbolic."""

    def __init__(self, bs):
        self.b = list(bs)

    def __len__(self): return len(self.b)
    def __iter__(self): return iter(self.b)
    def __hash__(self): return 0x5EED

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkbytes(self.b[k])
        return self.b[k]

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return mkbytes(self.b + list(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return mkbytes(list(o) + self.b)
        return NotImplemented

    def __mul__(self, n): return mkbytes(self.b * n)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return False
        if len(o) != len(self.b):
            return False
        c = True
        for x, y in zip(self.b, o):
            c = band(c, sym_cmp(x, y, "eq"))
        return c

    def __ne__(self, o):
        return sym.sym_not(self == o)

    def count(self, x):
        if not isinstance(x, builtins_int):
            raise Unsupported("bytes.count(bytes)")
        r = 0
        for y in self.b:
            c = sym_cmp(y, x, "eq")
            r = sym_add(r, ite(c, 1, 0) if not isinstance(c, bool) else builtins_int(c))
        return r

    def startswith(self, p): return self[:len(p)] == p if len(self) >= len(p) else False
    def endswith(self, p): return self[-len(p):] == p if len(self) >= len(p) > 0 else len(p) == 0
    def __reversed__(self): return reversed(self.b)

    def __contains__(self, x):
        return any(bool(sym_cmp(y, x, "eq")) for y in self.b)

    def hex(self):
        return "".join(sym.hex_digits(b, 2) if isinstance(b, SymInt) else f"{b:02x}" for b in self.b)

    def rstrip(self, chars=None):
        b = list(self.b)
        chars = b" \t\n\r\x0b\f" if chars is None else chars
        while b and any(bool(sym_cmp(b[-1], c, "eq")) for c in chars):
            b.pop()
        return mkbytes(b)

    def tobytes(self): return self
    def __repr__(self): return f"SymBytes({len(self.b)})"

    def decode(self, *a):
        raise Unsupported("decoding symbolic bytes")


class SymByteArray(SymBytes):
    def append(self, x): self.b.append(x)
    def extend(self, o): self.b.extend(list(o))

    def __iadd__(self, o):
        self.b.extend(list(o))
        return self

    def __setitem__(self, k, v):
        self.b[k] = v if not isinstance(k, slice) else list(v)

    def clear(self): self.b.clear()
    def reverse(self): self.b.reverse()
    def __getitem__(self, k): return SymByteArray(self.b[k]) if isinstance(k, slice) else self.b[k]
    def __hash__(self): raise TypeError("unhashable type: 'bytearray'")


# --------------------------------------------------------------------- text
def tok_value(ch):
    t = engine().token_of(ch)
    if t is None:
        raise Unsupported("unknown token")
    return t


def text_bytes(s):
    """Text -> list of byte values (hex tokens become character codes)."""
    out = []
    for c in s:
        if is_tok(c):
            kind, v, spec = tok_value(c)
            if kind != "hex":
                raise Unsupported("bytes of formatted symbolic text")
            out.append(ite(sym_cmp(v, 10, "lt"), sym_add(v, 48), sym_add(v, 87)))
        else:
            out += list(c.encode())
    return out


def parse_number(s, kind="i", base=10):
    """int()/float() of text with tokens."""
    t = s.strip()
    toks = [c for c in t if is_tok(c)]
    if not toks:
        return builtins.float(t) if kind == "f" else builtins_int(t, base)
    neg = False
    if t[:1] in "+-":
        neg = t[0] == "-"
        t = t[1:]
    if len(t) == 1:
        k, v, spec = tok_value(t)
        if k == "rint" and base == 16 and spec.lstrip("0123456789") in ("x", "X"):
            return -v if neg else v
        if k == "dec" or k == "rint":
            if kind == "f":
                v = v if isinstance(v, RealInt) else sym.f_round(Flt(v, 0), 53)
            elif base not in (10, 0):
                raise Unsupported("decimal token in another base")
            return sym_neg(v) if neg and not isinstance(v, (Flt, Real)) else -v if neg else v
        if k == "str":
            # decimal text of an input: value follows the requested type
            if kind == "f":
                v = v if isinstance(v, (Flt, Real)) else sym.f_round(Flt(v, 0), 53)
            elif isinstance(v, (Flt, Real)):
                raise ValueError(f"invalid literal for int() with base 10: {t!r}")
            return -v if neg else v
        if k == "flt":
            if kind == "i":
                raise ValueError("invalid literal for int() with base 10")
            return -v if neg else v
    if kind == "i" and base in (16, 0):
        if t[:2] in ("0x", "0X"):
            t = t[2:]
        elif base == 0:
            raise Unsupported("int(text, 0)")
        r = 0
        digs = []
        for c in t:
            if c == "_":
                raise Unsupported("underscore in number")
            if is_tok(c):
                k, v, spec = tok_value(c)
                if k != "hex":
                    raise Unsupported("mixed tokens in hexadecimal text")
                digs.append(v)
            else:
                digs.append(builtins_int(c, 16))
        terms = [fit(d, 4) for d in digs]
        e = z3.simplify(z3.Concat(*terms)) if len(terms) > 1 else terms[0]
        r = mkint(z3.ZeroExt(1, e), 0, (1 << (4 * len(digs))) - 1)
        return sym_neg(r) if neg else r
    raise Unsupported("number parsing of symbolic text")


def percent(fmt, v):
    import re
    m = re.fullmatch(r"(.*?)%(0?\d*)([xXd])(.*)", fmt, re.S)
    if not m:
        raise Unsupported(f"percent format {fmt!r}")
    pre, w, t, post = m.groups()
    return pre + format(v, w + t) + post


# ------------------------------------------------------------ virtual files
class VFS:
    def __init__(self):
        self.files = {}     # name -> list of byte values | str (text)
        self.dirs = {"", ".", "/"}
        self.log = []

    def norm(self, name):
        if isinstance(name, VPath):
            name = name.s
        elif not isinstance(name, str) and hasattr(name, "__fspath__"):
            name = name.__fspath__()
        if not isinstance(name, str):
            raise Unsupported("file name type")
        while name.startswith("./"):
            name = name[2:]
        return name

    def lookup(self, name):
        name = self.norm(name)
        if name in self.files:
            return name
        for k in self.files:
            if len(k) == len(name) and (has_token(k) or has_token(name)) and same_text(k, name):
                return k
        return None

    def add(self, name, content):
        name = self.norm(name)
        self.files[name] = content
        d = _os.path.dirname(name)
        while d and d not in self.dirs:
            self.dirs.add(d)
            d = _os.path.dirname(d)

    def isdir(self, name):
        n = self.norm(name).rstrip("/")
        return n in self.dirs or any(f.startswith(n + "/") for f in self.files)

    def size(self, name):
        c = self.files[name]
        return len(text_bytes(c)) if isinstance(c, str) else len(c)

    def children(self, d):
        d = self.norm(d).rstrip("/")
        pre = d + "/" if d not in ("", ".") else ""
        out = []
        for f in self.files:
            if f.startswith(pre) and "/" not in f[len(pre):]:
                out.append(f[len(pre):])
        return out


def same_text(a, b):
    c = True
    for x, y in zip(a, b):
        if x == y:
            continue
        if not is_tok(x) and not is_tok(y):
            return False
        vals = []
        for z in (x, y):
            if is_tok(z):
                k, v, spec = tok_value(z)
                if k != "hex":
                    return False
                vals.append(v)
            elif z in "0123456789abcdef":
                vals.append(builtins_int(z, 16))
            else:
                return False
        c = band(c, sym_cmp(vals[0], vals[1], "eq"))
    return c if isinstance(c, bool) else bool(c)


_vfs = None


def vfs():
    return _vfs


def set_vfs(v):
    global _vfs
    _vfs = v


class VFile:
    """Binary or text file object over the virtual file system."""

    def __init__(self, fs, name, mode):
        self.fs, self.mode = fs, mode
        self.name = name
        self.binary = "b" in mode
        self.pos = 0
        self.closed = False
        key = fs.lookup(name)
        n = fs.norm(name)
        if "r" in mode:
            if key is None:
                if fs.isdir(n):
                    raise IsADirectoryError(21, "Is a directory", n)
                raise FileNotFoundError(2, "No such file or directory", n)
        else:
            d = _os.path.dirname(n)
            if d and not fs.isdir(d):
                raise FileNotFoundError(2, "No such file or directory", n)
            if "x" in mode and key is not None:
                raise FileExistsError(17, "File exists", n)
            if key is None:
                key = n
                fs.add(n, [])
            if "w" in mode:
                fs.log.append(("truncate", key))
                fs.files[key] = []
            if "a" in mode:
                self.pos = fs.size(key)
        self.key = key

    # content as bytes list or text
    def _bytes(self):
        c = self.fs.files[self.key]
        return text_bytes(c) if isinstance(c, str) else c

    def _text(self):
        c = self.fs.files[self.key]
        if isinstance(c, str):
            return c
        if all(isinstance(b, builtins_int) for b in c):
            t = bytes(c).decode()
            return t.replace("\r\n", "\n").replace("\r", "\n")
        raise Unsupported("text reading of symbolic bytes")

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def readable(self): return "r" in self.mode or "+" in self.mode
    def writable(self): return "r" not in self.mode or "+" in self.mode
    def seekable(self): return True

    def read(self, n=-1):
        self._chk()
        if not self.readable():
            raise io.UnsupportedOperation("not readable")
        n = -1 if n is None else n.__index__()
        c = self._bytes() if self.binary else self._text()
        end = len(c) if n < 0 else min(len(c), self.pos + n)
        r = c[self.pos:end]
        self.pos = max(self.pos, end)
        return mkbytes(r) if self.binary else r

    def readinto(self, buf):
        raise Unsupported("readinto")

    read1 = read

    def readline(self, n=-1):
        self._chk()
        if self.binary:
            c = self._bytes()
            out = []
            while self.pos < len(c):
                b = c[self.pos]
                out.append(b)
                self.pos += 1
                if bool(sym_cmp(b, 10, "eq")):
                    break
            return mkbytes(out)
        c = self._text()
        i = c.find("\n", self.pos)
        end = len(c) if i < 0 else i + 1
        r = c[self.pos:end]
        self.pos = end
        return r

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            line = self.readline()
            if len(line) == 0:
                return
            yield line

    def __next__(self):
        line = self.readline()
        if len(line) == 0:
            raise StopIteration
        return line

    def write(self, data):
        self._chk()
        if not self.writable():
            raise io.UnsupportedOperation("not writable")
        c = self.fs.files[self.key]
        if self.binary:
            if isinstance(data, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            d = byte_list(data)
            if isinstance(c, str):
                c = text_bytes(c)
            if "a" in self.mode:
                self.pos = len(c)
            if self.pos > len(c):
                c = c + [0] * (self.pos - len(c))
            self.fs.files[self.key] = c[:self.pos] + d + c[self.pos + len(d):]
            self.pos += len(d)
            return len(d)
        if not isinstance(data, str):
            raise TypeError("write() argument must be str")
        if not isinstance(c, str):
            c = self._text()
        if "a" in self.mode:
            self.pos = len(c)
        self.fs.files[self.key] = c[:self.pos] + data + c[self.pos + len(data):]
        self.pos += len(data)
        return len(data)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def seek(self, off, whence=0):
        off = off.__index__()
        n = len(self._bytes()) if self.binary else len(self._text())
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else n + off
        return self.pos

    def tell(self): return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else n
        self.fs.files[self.key] = self.fs.files[self.key][:n]
        return n

    def flush(self): pass
    def fileno(self): raise Unsupported("fileno")
    def close(self): self.closed = True
    def isatty(self): return False

    @property
    def buffer(self):
        return self

    def __enter__(self): return self
    def __exit__(self, *a): self.closed = True


def vopen(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **kw):
    if isinstance(file, builtins_int):
        raise Unsupported("open(fd)")
    return VFile(vfs(), file, mode)


class _Stat:
    def __init__(self, size):
        self.st_size = size
        self.st_mode = 0o100644
        self.st_mtime = 0


class VPath:
    """pathlib.Path over the virtual file system (subset)."""

    def __init__(self, *parts):
        s = ""
        for p in parts:
            p = p.s if isinstance(p, VPath) else _os.fspath(p) if not isinstance(p, str) else p
            s = p if (p.startswith("/") or s in ("",)) else (s.rstrip("/") + "/" + p)
        while "//" in s:
            s = s.replace("//", "/")
        if len(s) > 1:
            s = s.rstrip("/")
        while s.startswith("./"):
            s = s[2:]
        self.s = s or "."

    def __fspath__(self): return self.s
    def __str__(self): return self.s
    def __repr__(self): return f"PosixPath({self.s!r})"
    def __truediv__(self, o): return VPath(self.s, o)
    def __rtruediv__(self, o): return VPath(o, self.s)
    def __eq__(self, o): return isinstance(o, VPath) and self.s == o.s
    def __hash__(self): return hash(self.s)
    def __lt__(self, o): return self.s < o.s
    def joinpath(self, *a): return VPath(self.s, *a)
    @property
    def name(self): return self.s.split("/")[-1]
    @property
    def stem(self): return self.name.rpartition(".")[0] or self.name
    @property
    def suffix(self): return "." + self.name.rpartition(".")[2] if "." in self.name[1:] else ""
    @property
    def parent(self): return VPath(_os.path.dirname(self.s) or ".")
    @property
    def parts(self): return tuple(self.s.split("/"))
    def with_suffix(self, x): return VPath(self.s[:len(self.s) - len(self.suffix)] + x)
    def with_name(self, x): return self.parent / x
    def exists(self): return vfs().lookup(self.s) is not None or vfs().isdir(self.s)
    def is_file(self): return vfs().lookup(self.s) is not None
    def is_dir(self): return vfs().isdir(self.s) and vfs().lookup(self.s) is None
    def expanduser(self): return self
    def resolve(self, *a): return self
    def absolute(self): return self
    def as_posix(self): return self.s

    def stat(self):
        k = vfs().lookup(self.s)
        if k is None:
            if vfs().isdir(self.s):
                return _Stat(4096)
            raise FileNotFoundError(2, "No such file or directory", self.s)
        return _Stat(vfs().size(k))

    def open(self, mode="r", *a, **k): return vopen(self, mode)

    def read_bytes(self):
        with vopen(self, "rb") as f:
            return f.read()

    def write_bytes(self, b):
        with vopen(self, "wb") as f:
            return f.write(b)

    def read_text(self, *a, **k):
        with vopen(self, "r") as f:
            return f.read()

    def write_text(self, t, *a, **k):
        with vopen(self, "w") as f:
            return f.write(t)

    def unlink(self, missing_ok=False):
        k = vfs().lookup(self.s)
        if k is None:
            if missing_ok:
                return
            raise FileNotFoundError(2, "No such file or directory", self.s)
        vfs().log.append(("unlink", k))
        del vfs().files[k]

    def rename(self, o):
        k = vfs().lookup(self.s)
        vfs().add(o, vfs().files.pop(k))

    replace = rename

    def mkdir(self, *a, **k): vfs().dirs.add(self.s)
    def touch(self, *a, **k):
        if not self.exists():
            vfs().add(self.s, [])

    def glob(self, pat):
        import fnmatch
        for n in vfs().children(self.s):
            if pat == "*" or (not has_token(n) and fnmatch.fnmatch(n, pat)):
                yield VPath(self.s, n)
            elif has_token(n):
                raise Unsupported("glob of symbolic names")

    rglob = glob

    def iterdir(self):
        for n in vfs().children(self.s):
            yield VPath(self.s, n)


class PathlibProxy(types.ModuleType):
    def __init__(self):
        super().__init__("pathlib")
        self.Path = VPath
        self.PosixPath = VPath
        self.PurePath = VPath
        self.PurePosixPath = VPath


class OsPathProxy:
    def __getattr__(self, n):
        return getattr(_os.path, n)

    def getsize(self, p): return VPath(p).stat().st_size
    def exists(self, p): return VPath(p).exists()
    def isfile(self, p): return VPath(p).is_file()
    def isdir(self, p): return VPath(p).is_dir()
    def join(self, *a): return str(VPath(*a))
    def basename(self, p): return VPath(p).name if str(p) else ""
    def abspath(self, p): return str(p)
    def realpath(self, p): return str(p)


class OsProxy:
    def __init__(self):
        self.path = OsPathProxy()
        self.SEEK_SET, self.SEEK_CUR, self.SEEK_END = 0, 1, 2

    def __getattr__(self, n):
        if n in ("sep", "linesep", "environ", "getcwd", "getpid", "fspath", "name", "PathLike", "devnull"):
            return getattr(_os, n)
        raise Unsupported(f"os.{n}")

    def stat(self, p): return VPath(p).stat()
    def listdir(self, p="."): return vfs().children(p)
    def unlink(self, p): VPath(p).unlink()
    remove = unlink
    def rename(self, a, b): VPath(a).rename(b)
    def makedirs(self, p, *a, **k): vfs().dirs.add(vfs().norm(p))
    mkdir = makedirs


# ------------------------------------------------------------------- struct
class StructProxy:
    error = _struct.error

    def __init__(self):
        self.__name__ = "struct"

    @staticmethod
    def _parse(fmt):
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        order = fmt[0] if fmt[:1] in ("@", "=", "<", ">", "!") else "@"
        body = fmt[1:] if fmt[:1] in ("@", "=", "<", ">", "!") else fmt
        items = []
        import re
        for cnt, c in re.findall(r"(\d*)\s*([a-zA-Z?])", body):
            n = builtins_int(cnt) if cnt else 1
            if c == "x":
                items.append(("x", n))
            elif c == "s":
                items.append(("s", n))
            else:
                items += [(c, 1)] * n
        size = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "q": 8, "Q": 8, "?": 1, "c": 1,
                "l": 8 if order == "@" else 4, "L": 8 if order == "@" else 4, "n": 8, "N": 8}
        lay = []
        off = 0
        for c, n in items:
            if c in ("x", "s"):
                lay.append((c, off, n))
                off += n
                continue
            if c not in size:
                raise Unsupported(f"struct format {c}")
            s = size[c]
            if order == "@" and off % s:
                off += s - off % s
            lay.append((c, off, s))
            off += s
        big = order in (">", "!")
        return lay, off, big

    def calcsize(self, fmt): return _struct.calcsize(fmt)

    def unpack(self, fmt, data):
        lay, size, big = self._parse(fmt)
        bs = byte_list(data)
        if len(bs) != size:
            raise _struct.error(f"unpack requires a buffer of {size} bytes")
        out = []
        for c, off, n in lay:
            ch = bs[off:off + n]
            if c == "x":
                continue
            if c == "s" or c == "c":
                out.append(mkbytes(ch))
                continue
            v = join_bytes(ch[::-1] if big else ch)
            if c == "?":
                out.append(v != 0)
                continue
            if c.islower():
                import numpy as np
                v = symnp.wrap_int(v, np.dtype(f"i{n}"))
            out.append(v)
        return tuple(out)

    def unpack_from(self, fmt, data, offset=0):
        n = self.calcsize(fmt)
        b = byte_list(data)
        if len(b) - offset < n:
            raise _struct.error(f"unpack_from requires a buffer of at least {n + offset} bytes")
        return self.unpack(fmt, mkbytes(b[offset:offset + n]))

    def iter_unpack(self, fmt, data):
        n = self.calcsize(fmt)
        b = byte_list(data)
        if n == 0 or len(b) % n:
            raise _struct.error(f"iterative unpacking requires a buffer of a multiple of {n} bytes")
        for i in range(0, len(b), n):
            yield self.unpack(fmt, mkbytes(b[i:i + n]))

    def pack(self, fmt, *vals):
        lay, size, big = self._parse(fmt)
        need = len([1 for c, _, _ in lay if c != "x"])
        if need != len(vals):
            raise _struct.error(f"pack expected {need} items for packing (got {len(vals)})")
        out = [0] * size
        it = iter(vals)
        for c, off, n in lay:
            if c == "x":
                continue
            v = next(it)
            if c in "sc":
                b = byte_list(v)[:n]
                out[off:off + len(b)] = b
                continue
            if isinstance(v, SymArray) and v.ndim == 0:
                v = v._one()
            if isinstance(v, NpScalar):
                if v.dtype.kind not in "iub" and v.dtype.kind != "O":
                    raise _struct.error("required argument is not an integer")
                v = v.v
            if c == "?":
                v = ite(v != 0, 1, 0)
            i = norm_int(v)
            if i is None:
                if isinstance(v, (float, Flt, Real)) or not hasattr(v, "__index__"):
                    raise _struct.error("required argument is not an integer")
                i = v.__index__()
            import numpy as np
            dt = np.dtype(("i" if c.islower() and c != "?" else "u") + str(n))
            ok = symnp.in_range(i, dt)
            if ok is False or (ok is not True and not engine().branch(as_z3bool(ok))):
                raise _struct.error(f"'{c}' format requires a number in range")
            bs = [sym_and(shr(i, 8 * k), 255) for k in range(n)]
            out[off:off + n] = bs[::-1] if big else bs
        return mkbytes(out)

    def pack_into(self, fmt, buf, offset, *vals):
        b = byte_list(self.pack(fmt, *vals))
        if not isinstance(buf, SymByteArray):
            raise Unsupported("pack_into a concrete buffer")
        buf.b[offset:offset + len(b)] = b

    def Struct(self, fmt):
        p = self

        class S:
            format = fmt
            size = p.calcsize(fmt)

            def pack(self, *v): return p.pack(fmt, *v)
            def unpack(self, d): return p.unpack(fmt, d)
            def unpack_from(self, d, offset=0): return p.unpack_from(fmt, d, offset)
            def iter_unpack(self, d): return p.iter_unpack(fmt, d)
        return S()


# ----------------------------------------------------------------- builtins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins_int, SymInt, RealInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins_int) or c is SymInt

    def __call__(cls, x=0, *base, **kw):
        if kw:
            base = (kw["base"],)
        if base:
            b = base[0].__index__()
            if isinstance(x, str) and has_token(x):
                return parse_number(x, "i", b)
            return builtins_int(str(x) if isinstance(x, str) else x, b)
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x.as_int()
        if isinstance(x, (Flt, Real)):
            return f_int(x)
        if isinstance(x, SymArray):
            x = x._one()
        if isinstance(x, NpScalar):
            return symnp.sint(x)
        if isinstance(x, str) and has_token(x):
            return parse_number(x, "i", 10)
        if isinstance(x, SymBytes):
            raise Unsupported("int(bytes)")
        return builtins_int(x)

    def __eq__(cls, o): return cls is o or o is builtins_int
    def __hash__(cls): return hash(builtins_int)


class IntProxy(metaclass=_IntMeta):
    _real = builtins_int

    @staticmethod
    def from_bytes(data, byteorder="big", *, signed=False):
        bs = byte_list(data)
        if byteorder == "big":
            bs = bs[::-1]
        v = join_bytes(bs)
        if signed and bs:
            import numpy as np
            n = 8 * len(bs)
            neg = sym_cmp(v, 1 << (n - 1), "ge")
            v = ite(neg, sym_sub(v, 1 << n), v) if not isinstance(neg, bool) else (v - (1 << n) if neg else v)
        return v

    @staticmethod
    def to_bytes(x, *a, **k):
        return SymInt.to_bytes(x, *a, **k) if isinstance(x, SymInt) else builtins_int.to_bytes(x, *a, **k)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, NpScalar):
            return x.dtype.kind == "f" and x.dtype.itemsize == 8
        return isinstance(x, (float, Flt)) or (isinstance(x, Real) and not isinstance(x, RealInt))

    def __call__(cls, x=0.0):
        if isinstance(x, (SymInt, SymBool)):
            return sym.f_round(Flt(norm_int(x), 0), 53)
        if isinstance(x, Flt):
            return x
        if isinstance(x, RealInt):
            return Real(x.r)
        if isinstance(x, Real):
            return x
        if isinstance(x, SymArray):
            x = x._one()
        if isinstance(x, NpScalar):
            if isinstance(x.v, Real):
                return x.v
            return sym.f_round(to_flt(x.v), 53)
        if isinstance(x, str) and has_token(x):
            return parse_number(x, "f")
        return builtins.float(x)

    def __eq__(cls, o): return cls is o or o is builtins.float
    def __hash__(cls): return hash(builtins.float)


class FloatProxy(metaclass=_FloatMeta):
    _real = float
    is_integer = staticmethod(lambda x: x.is_integer())


class _BytesMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (bytes, SymBytes)) and not isinstance(x, SymByteArray)

    def __call__(cls, x=b"", *a):
        if isinstance(x, SymBytes):
            return mkbytes(x.b)
        if isinstance(x, (list, tuple, types.GeneratorType, map)):
            x = list(x)
            if any(isinstance(i, SymInt) for i in x):
                for i in x:
                    ok = band(sym_cmp(0, norm_int(i), "le"), sym_cmp(norm_int(i), 255, "le"))
                    if not (ok if isinstance(ok, bool) else bool(ok)):
                        raise ValueError("bytes must be in range(0, 256)")
                return mkbytes(x)
        if isinstance(x, SymArray):
            return x.tobytes()
        return bytes(x, *a)


class BytesProxy(metaclass=_BytesMeta):
    _real = bytes
    fromhex = staticmethod(lambda s: bytes.fromhex(s) if not has_token(s) else _fromhex(s))


def _fromhex(s):
    d = []
    for c in s:
        if c.isspace():
            continue
        d.append(tok_value(c)[1] if is_tok(c) else builtins_int(c, 16))
    return mkbytes([sym_add(sym_mul(d[i], 16), d[i + 1]) for i in range(0, len(d), 2)])


class _ByteArrayMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (bytearray, SymByteArray))

    def __call__(cls, x=b"", *a):
        if isinstance(x, builtins_int):
            return SymByteArray([0] * x)
        return SymByteArray(byte_list(x) if not isinstance(x, (list, tuple)) else x)


class ByteArrayProxy(metaclass=_ByteArrayMeta):
    _real = bytearray


class _MemMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, memoryview)

    def __call__(cls, x):
        return SymBytes(byte_list(x)) if isinstance(x, (SymBytes, SymArray)) else memoryview(x)


class MemoryViewProxy(metaclass=_MemMeta):
    pass


def hex_proxy(x):
    if isinstance(x, NpScalar):
        x = x.v
    if isinstance(x, SymInt):
        return sym.fmt_int(x, "#x")
    return builtins.hex(x)


def bin_proxy(x):
    if isinstance(x, (SymInt, NpScalar)):
        x = engine().concretize(norm_int(x.v if isinstance(x, NpScalar) else x))
    return builtins.bin(x)


def bool_call(x=False):
    return builtins.bool(x)


def sorted_proxy(it, key=None, reverse=False):
    xs = list(it)
    ks = [key(x) for x in xs] if key else xs
    if not symnp.has_sym(ks):
        return builtins.sorted(xs, key=key, reverse=reverse)
    # stable insertion sort: comparisons fork
    order = []
    for i in range(len(xs)):
        k = len(order)
        while k > 0 and bool((ks[order[k - 1]] < ks[i]) if reverse else (ks[i] < ks[order[k - 1]])):
            k -= 1
        order.insert(k, i)
    return [xs[i] for i in order]


def minmax(is_max):
    real = builtins.max if is_max else builtins.min

    def f(*args, **kw):
        xs = list(args[0]) if len(args) == 1 else list(args)
        if kw or not any(isinstance(x, (SymInt, Flt, Real)) for x in xs) \
                or any(not isinstance(x, (SymInt, Flt, Real, builtins_int, float)) for x in xs):
            return real(*args, **kw)
        # first extreme value wins, as in the builtin; values only, no fork
        r = xs[0]
        for x in xs[1:]:
            if type(x) is not type(r) and not (norm_int(x) is not None and norm_int(r) is not None):
                # mixed types: keep the type exact by forking
                return real(*args, **kw)
            c = (x > r) if is_max else (x < r)
            r = x if c is True else r if c is False else ite(c, x, r)
        return r
    return f


class print_capture:
    pass


class StdoutCapture(io.StringIO):
    """sys.stdout stand-in: text and binary parts kept in order."""

    def __init__(self):
        super().__init__()
        self.parts = []
        outer = self

        class B:
            def write(self, b):
                outer.parts.append(("b", byte_list(b)))
                return len(b)

            def flush(self): pass
        self._b = B()

    def write(self, s):
        self.parts.append(("t", s))
        return len(s)

    @property
    def buffer(self): return self._b

    def text(self):
        return "".join(p for k, p in self.parts if k == "t")

    def data(self):
        r = []
        for k, p in self.parts:
            if k == "b":
                r += p
        return r


class StdinStub:
    def __init__(self, data=(), lines=()):
        self.data = list(data)
        self.lines = list(lines)
        outer = self

        class B:
            def read(self, n=-1):
                k = len(outer.data) if n is None or n < 0 else n
                r, outer.data = outer.data[:k], outer.data[k:]
                return mkbytes(r)
        self.buffer = B()

    def readline(self, n=-1):
        return self.lines.pop(0) if self.lines else ""

    def read(self, n=-1):
        r, self.lines = "".join(self.lines), []
        return r

    def __iter__(self):
        while self.lines:
            yield self.lines.pop(0)

    def fileno(self): raise io.UnsupportedOperation("fileno")
    def isatty(self): return False
    def flush(self): pass


def input_proxy(prompt=""):
    s = _sys.stdin.readline()
    if s == "":
        raise EOFError("EOF when reading a line")
    return s.rstrip("\n")
