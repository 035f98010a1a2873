"""L01: log formatting keeps message and details."""
import io
import itertools
import logging
import os
import re
import shutil
import tempfile

from vlib import report
from vlib.harness import AND, EQ, IMPL, OR, Harness, raw

LG = "fpfind.lib.logging"
OPAQUE = 0xE000                                               # private characters standing for any other one
CLASSES = (" ", "\t", "|", None)


def text(env, name, n, classes=CLASSES):
    """A string of n characters: each a blank, tab, bar or any other printable
    character (the formatter is only asked about the former)."""
    s = ""
    for i in range(n):
        c = env.pick(f"{name}_kind{i}", classes)
        if c is None:
            v = env.int(f"{name}{i}", 0x21, 0x2FFF)
            ok = AND(*[v != x for x in (0x7C, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F)], OR(v < 0x2000, v > 0x200A), OR(v < 0x7F, v > 0x9F))
            env.assume(ok)
            if env.sym:
                s += chr(OPAQUE + env.fresh)
                env.fresh += 1
            else:
                s += chr(v)
        else:
            s += c
    return s


def record(msg, **extra):
    r = logging.LogRecord("n", logging.INFO, "/x/y.py", 7, msg, (), None, "f")
    r.__dict__.update(extra)
    return r


def formatter(env, lg, **kw):
    return lg.LoggingOverrideFormatter(fmt="{levelname:<7s}\t{funcName}:{lineno}\t| {message}", style="{", **kw)


PLAIN = "INFO   \tf:7\t| "


def details_body(env):
    env.fresh = 0
    lg = env.mod(LG)
    p = env.p
    msg = text(env, "m", p["msg"])
    det = [text(env, f"d{i}", n, (" ", None)) for i, n in enumerate(p["det"])]
    given = dict(zip("abc", det)) if p["kind"] == "dict" else tuple(det) if p["kind"] == "tuple" else list(det)
    before = given.copy() if p["kind"] != "tuple" else given
    out = formatter(env, lg, human_readable=True).format(record(msg, details=given))
    env.check("details not modified", given == before)
    lines = out.split("\n")
    want = [f"{k}: {v}" for k, v in zip("abc", det)] if p["kind"] == "dict" else det
    if not want:
        env.check("message alone", out == PLAIN + msg)
        return
    rest = lines
    if msg.strip(" ") != "":
        env.check("message unchanged", lines[0] == PLAIN + msg)
        rest = lines[1:]
    else:
        env.check("prefix unchanged", lines[0].startswith(PLAIN))
    env.check("one line per detail, in order", len(rest) == len(want) and all(l.endswith(d) for l, d in zip(rest, want)))
    if len(rest) == len(want):
        pads = [l[:len(l) - len(d)] for l, d in zip(rest, want)]
        env.check("aligned behind the delimiter", all(len(x) == len(pads[0]) and x[len(PLAIN) - 2:] == pads[0][len(PLAIN) - 2:] for x in pads)
                  and pads[0][len(PLAIN) - 2:len(PLAIN)] == "| ")
        env.check("tabs kept", all([i for i, c in enumerate(x[:len(PLAIN)]) if c == "\t"] == [7, 11] for x in pads))
        env.check("blank before the delimiter", all(x[:len(PLAIN) - 2].isspace() for x in pads[(0 if rest is not lines else 1):]))
        env.check("indented below the message", pads[0][len(PLAIN):].strip(" ") == "" and len(pads[0]) - len(PLAIN) > len(msg) - len(msg.lstrip(" ")))
    env.observe("lines", len(lines))


def machine_body(env):
    env.fresh = 0
    lg = env.mod(LG)
    msg = text(env, "m", env.p["msg"])
    det = [text(env, "d", 1, (" ", None)), 3]
    f = formatter(env, lg)
    env.check("details appended", f.format(record(msg, details=det)) == PLAIN + msg + "\t" + str(det))
    env.check("no details", f.format(record(msg)) == PLAIN + msg)
    env.check("no details, human readable", formatter(env, lg, human_readable=True).format(record(msg)) == PLAIN + msg)
    env.check("overridden location", f.format(record(msg, _funcname="[g]", _lineno=9)) == "INFO   \t[g]:9\t| " + msg)
    g = lg.LoggingOverrideFormatter(fmt="{filename}\t| {message}", style="{")
    env.check("location", g.format(record(msg)) == "y.py\t| " + msg)
    env.check("overridden file", g.format(record(msg, _filename="z.py")) == "z.py\t| " + msg)


def verbosity_body(env):
    lg = env.mod(LG)
    v = env.int("verbosity", 0, 1 << 30)
    w = env.int("higher", 0, 1 << 30)
    env.assume(w >= v)
    a, b = raw(lg.verbosity2level(v)), raw(lg.verbosity2level(w))
    level = lambda x, l: AND(IMPL(EQ(x, 0), EQ(l, logging.WARNING)), IMPL(EQ(x, 1), EQ(l, logging.INFO)), IMPL(x >= 2, EQ(l, logging.DEBUG)))
    env.check("levels", AND(level(v, a), level(w, b)))
    env.check("monotonic", b <= a)


LEVELS = {"debug": logging.DEBUG, "info": logging.INFO, "warning": logging.WARNING, "error": logging.ERROR, None: logging.WARNING}
COUNT = itertools.count()


class Catch(logging.Handler):
    def __init__(self, out):
        super().__init__(0)
        self.out = out

    def emit(self, r):
        self.out.append(r)


def logger_body(env):
    """A logger asked for twice, also writing to a file."""
    env.fresh = 0
    lg = env.mod(LG)
    p = env.p
    msg = "m" + text(env, "m", p["msg"])
    det = [text(env, "d", 1, (" ", None)), "second"]
    err, up = io.StringIO(), []
    env.patch(lg.sys, "stderr", err)
    parent = f"fpv{os.getpid()}_{next(COUNT)}"
    logging.getLogger(parent).addHandler(Catch(up))
    d = tempfile.mkdtemp(prefix="fpvlog")
    off = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        f = os.path.join(d, "run.log")
        with open(f, "w") as o:
            o.write("old\n")
        kw = dict(level=p["level"], human_readable=p["human"]) if p["level"] else dict(human_readable=p["human"])
        log = lg.get_logger(parent + ".x", **kw)
        env.check("same logger", lg.get_logger(parent + ".x", **kw) is log)
        lg.set_logfile(log, f, human_readable=p["human"])
        for name in ("debug", "info", "warning", "error"):
            getattr(log, name)("%s", msg, extra=dict(details=det))
        for h in list(log.handlers):
            h.close()
            log.removeHandler(h)
        with open(f, encoding="utf-8", errors="surrogatepass") as o:
            kept = o.read()
    finally:
        logging.disable(off)
        shutil.rmtree(d)
        logging.getLogger(parent).handlers.clear()
    env.check("not also reported by other handlers", up == [])
    for what, got in (("standard error", err.getvalue()), ("log file", kept)):
        lines = got.split("\n")
        env.check(f"{what}: complete lines", lines.pop() == "")
        want = []
        for name in ("debug", "info", "warning", "error"):
            if LEVELS[name] >= LEVELS[p["level"]]:
                want.append((name.upper(), msg))
                want += [(None, x) for x in det] if p["human"] else []
        env.check(f"{what}: one message per call at or above the level", len(lines) == len(want))
        for l, (name, t) in zip(lines, want):
            if name is None:
                env.check(f"{what}: detail", l.endswith(t) and re.match(r"[ \t]*\| +", l) is not None)
            else:
                env.check(f"{what}: level and location", re.match(r"\d{8}_\d{6}\t" + f"{name:<7s}" + r"\t\w+:\d+\t\| ", l) is not None)
                env.check(f"{what}: message", l.split("| ", 1)[1] == (t if p["human"] else t + "\t" + str(det)))
    env.observe("lines", len(want))


def L01(tier):
    quick = tier == "quick"
    hs = [Harness("verbosity", verbosity_body, {}, bounds="any two verbosity counts up to 2^30")]
    for n in (0, 1, 2) if quick else (0, 1, 2, 3, 4):
        hs.append(Harness(f"machine_{n}", machine_body, dict(msg=n), bounds=f"any message of {n} characters", witness=20))
    for level in (None, "debug", "info", "error"):
        for human in (False, True):
            for n in (1,) if quick else (1, 2, 3):
                hs.append(Harness(f"logger_{level or 'default'}_{'human' if human else 'machine'}_{n}", logger_body, dict(level=level, human=human, msg=n),
                                  witness=20, bounds=f"any message of {n + 1} printable characters, details, level {level}"))
    for kind in ("list", "tuple", "dict"):
        for n, det in ((0, (1, 1)), (2, (1,)), (2, (0, 2)), (1, ()), (3, (1, 1, 1))) if quick else (
                (0, (1, 1)), (2, (1,)), (2, (0, 2)), (1, ()), (3, (1, 1, 1)), (4, (1, 0)), (0, (3, 2, 1)), (3, (2, 2)), (5, (1,))):
            hs.append(Harness(f"details_{kind}_{n}_{''.join(map(str, det)) or 'none'}", details_body, dict(msg=n, det=det, kind=kind), witness=20,
                              bounds=f"any message of {n} printable characters, {len(det)} details of {det} characters"))
    return hs


PROPS = {"L01": L01}

ASSUME = ["characters other than blank, tab, bar and line break are interchangeable for the formatter (it only compares strings, asks for blanks and copies)"]


def check(pid, tier, seed, only):
    return report.check(pid, PROPS[pid](tier), tier, seed, only, budget=100 if tier == "quick" else 600, assumptions=ASSUME)


def replay(v):
    return report.replay(v, PROPS[v["property"]](v.get("tier", "quick")))
