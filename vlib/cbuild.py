"""Builds the C program of the tree: LLVM IR for the symbolic executor and
executables linked with the scripted world for replay."""
import atexit
import os
import shutil
import subprocess
import tempfile

from . import loader
from .llir import Module

HERE = os.path.dirname(os.path.abspath(__file__))
WRAP = ["read", "write", "select", "poll", "open", "close", "fcntl", "malloc", "calloc", "sleep", "usleep",
        "nanosleep", "isatty"]
_dir = None
_mod = {}
_pid = None


def sources():
    src = os.path.join(loader.SRC, "fpfind")
    return [os.path.join(src, "freqcd.c"), os.path.join(src, "lib", "getopt.c")]


def workdir():
    global _dir, _pid
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix="fpvc")
        _pid = os.getpid()

        def clean():
            if os.getpid() == _pid:
                shutil.rmtree(_dir, ignore_errors=True)
        atexit.register(clean)
    return _dir


def tool(*names):
    for n in names:
        if shutil.which(n):
            return n
    raise RuntimeError(f"none of {names} found")


def module():
    """Parsed IR of the program."""
    if "m" not in _mod:
        d = workdir()
        m = Module()
        for i, s in enumerate(sources()):
            o = os.path.join(d, f"u{i}.ll")
            subprocess.run([tool("clang-18", "clang"), "-S", "-emit-llvm", "-O0", "-w", "-fno-builtin", "-o", o, s], check=True,
                           capture_output=True)
            with open(o) as f:
                m.load(f.read(), f"u{i}.")
        _mod["m"] = m
    return _mod["m"]


KINDS = {
    "plain": (["gcc"], []),
    "asan": (["gcc"], ["-g", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                       "-fno-builtin-abs", "-fno-builtin-labs"]),
    "msan": (["clang-18", "clang"], ["-g", "-fsanitize=memory", "-fno-sanitize-recover=all"]),
}


def binary(kind):
    d = workdir()
    b = os.path.join(d, kind)
    if not os.path.exists(b):
        cc, flags = KINDS[kind]
        wraps = WRAP + (["abs", "labs"] if kind == "asan" else [])
        tmp = f"{b}.{os.getpid()}"
        subprocess.run([tool(*cc), "-w", "-U_FORTIFY_SOURCE"] + flags + ["-o", tmp] + sources() + [os.path.join(HERE, "shim.c"), "-lm"]
                       + [f"-Wl,--wrap={w}" for w in wraps], check=True, capture_output=True)
        os.rename(tmp, b)
    return b


class Outcome:
    """out: bytes written to the output, status: exit status, log: operations."""

    def __init__(self, out, status, log, ub=None, obligations=(), hang=False):
        self.out, self.status, self.log, self.ub, self.obligations, self.hang = out, status, log, ub, obligations, hang


def run_binary(kind, argv, rounds, inp, freq=(), files=None, wfault=None, mfault=None, timeout=20):
    d = tempfile.mkdtemp(prefix="run", dir=workdir())
    try:
        code = {"e": -1, "c": -2}
        hx = lambda b: f"{len(b)} " + bytes(b).hex() + "\n"
        with open(f"{d}/s", "w") as f:
            for r in rounds:
                f.write(f"round {code.get(r.get('i'), r.get('i') or 0)} {code.get(r.get('q'), r.get('q') or 0)} {int(r.get('s') == 'e')}\n")
            for n, k in (files or {}).items():
                f.write("name " + hx(n.encode("latin-1")) + (k if k != "deny" else "none") + "\n")
            f.write("inp " + hx(inp) + "freq " + hx(freq))
            if wfault:
                f.write(f"wfault {wfault[0]} {int(wfault[1] == 'short')}\n")
            if mfault is not None:
                f.write(f"mfault {mfault}\n")
        env = dict(os.environ, FREQCD_SCRIPT=f"{d}/s", FREQCD_RESULT=f"{d}/r",
                   ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1",
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=99", MSAN_OPTIONS="exit_code=99:allocator_may_return_null=1")
        try:
            p = subprocess.run([bytes(a) for a in argv], executable=binary(kind), env=env, cwd=d, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            status, err, text = p.returncode, p.stderr, p.stdout
        except subprocess.TimeoutExpired:
            return Outcome([], None, [], hang=True)
        out, log, hang = [], [], False
        with open(f"{d}/r") as f:
            for line in f:
                w = line.split()
                if w[0] == "out":
                    out += list(bytes.fromhex(w[1]))
                elif w[0] == "end":
                    hang = w[1] == "hang"
                    if w[1] == "script":
                        raise RuntimeError("script and program disagree")
                elif w[0] == "open":
                    log.append(("open", bytes.fromhex(w[1][:-1]).decode("latin-1"), int(w[2]), int(w[3])))
                elif w[0] == "read":
                    log.append(("read", w[1], int(w[2])))
                elif w[0] == "write":
                    log.append(("write", int(w[1]), int(w[2])))
                else:
                    log.append((w[0],))
        if text:
            log.append(("text",))
        ub = None
        if status == 99 or status < 0:
            ub = err.decode(errors="replace")[:400] or f"signal {-status}"
        return Outcome(out, status & 255 if status >= 0 else status, log, ub=ub, hang=hang)
    finally:
        shutil.rmtree(d, ignore_errors=True)
