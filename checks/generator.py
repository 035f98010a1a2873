"""G01: generator of test events."""
import numpy as np

from checks.timestamps import encode
from vlib import report
from vlib.harness import AND, EQ, OR, Harness, raw, same_list

GE = "fpfind.lib.generate_freqcd_testcase"
MASK54 = (1 << 54) - 1


def fresh(env):
    m = env.mod(GE)
    if hasattr(m, "LEGACY"):
        env.patch(m, "LEGACY", False)                        # module state of an earlier run
    return m


def event_body(env):
    m = fresh(env)
    t = env.bits("t", env.p["bits"])
    d = env.bits("d", 4)
    want = encode([((t & MASK54) << 10) + d], "a1", False)
    env.check("event", same_list(list(m.get_event(t, d)), want))
    r = env.call(m.get_event, -1 - t, d, expect=(AssertionError, ValueError))
    env.check("negative timestamp refused", r.exc is not None)
    r = env.call(m.get_event, t, d + 16, expect=(AssertionError, ValueError))
    env.check("wide detector pattern refused", r.exc is not None)


def command_body(env):
    m = fresh(env)
    p = env.p
    ts = [env.bits(f"t{i}", 58) for i in range(p["n"])]
    argv = ["gen"] + (["-x"] if p["legacy"] else []) + (["-o", env.path("out.dat")] if p["file"] else [])
    if p["file"]:
        env.write("out.dat", b"old content")
    r = env.main(m, argv + ["-t"] + [env.dec(t) for t in ts])
    env.check("runs", r.exc is None)
    want = encode([((t & MASK54) << 10) + 1 for t in ts], "a1", p["legacy"])
    if p["file"]:
        env.check("events in the file", same_list(env.read("out.dat"), want))
        env.check("nothing printed", r.out == "" and len(r.data) == 0)
    else:
        env.check("events on standard output", same_list(r.data, want))


def prompt_body(env):
    m = fresh(env)
    p = env.p
    ts = [env.bits(f"t{i}", 58) for i in range(p["n"])]
    lines = ["x"] + [env.dec(t) for t in ts] + [""]
    env.main(m, ["gen", "-o", env.path("out.dat")] + (["-x"] if p["legacy"] else []), stdin_lines=lines, expect=(SystemExit, EOFError))
    want = encode([((t & MASK54) << 10) + 1 for t in ts], "a1", p["legacy"])
    env.check("events in the file", same_list(env.read("out.dat"), want))


def decode_body(env):
    m = fresh(env)
    p = env.p
    ws = [env.bits(f"w{i}", 64) for i in range(p["n"])]
    data = encode(ws, "a1", p["legacy"])
    argv = ["gen"] + (["-x"] if p["legacy"] else [])
    if p["stdin"]:
        before = env.listing()
        r = env.main(m, argv + ["-"], stdin=data)
        env.check("no temporary file left", env.listing() == before)
    else:
        f = env.write("in.dat", data)
        r = env.main(m, argv + [f], stdin=b"")
        env.check("event file unchanged", same_list(env.read("in.dat") or [], data))
        env.check("no other file", env.listing() == ["in.dat"])
    env.check("runs", r.exc is None)
    out = r.out.split("\n")
    env.check("one line per event", out[-1] == "" and len(out) == len(ws) + 1)
    if len(out) == len(ws) + 1:
        for i, (w, s) in enumerate(zip(ws, out)):
            env.check(f"timestamp {i}", EQ(env.number(s), w >> 10))


def G01(tier):
    hs = []
    quick = tier == "quick"
    for bits in (54, 70) if quick else (54, 60, 70, 128):
        hs.append(Harness(f"event_{bits}", event_body, dict(bits=bits), bounds=f"any timestamp of {bits} bits and detector pattern"))
    for legacy in (False, True):
        k = "legacy" if legacy else "normal"
        for n in (1, 2) if quick else (1, 2, 3, 6):
            for file in (False, True):
                hs.append(Harness(f"command_{k}_{n}_{'file' if file else 'stdout'}", command_body, dict(legacy=legacy, n=n, file=file),
                                  bounds=f"{n} timestamps of 58 bits given as options"))
            hs.append(Harness(f"prompt_{k}_{n}", prompt_body, dict(legacy=legacy, n=n), bounds=f"{n} timestamps of 58 bits typed in, and other lines"))
        for n in (1, 2, 3) if quick else (0, 1, 2, 3, 6):
            for stdin in (False, True):
                hs.append(Harness(f"decode_{k}_{n}_{'stdin' if stdin else 'file'}", decode_body, dict(legacy=legacy, n=n, stdin=stdin),
                                  bounds=f"{n} arbitrary event words"))
    return hs


PROPS = {"G01": G01}

ASSUME = ["numpy, file and struct primitives behave as re-implemented in vlib (witnesses are replayed on the real ones)"]


def check(pid, tier, seed, only):
    return report.check(pid, PROPS[pid](tier), tier, seed, only, budget=100 if tier == "quick" else 600, assumptions=ASSUME)


def replay(v):
    return report.replay(v, PROPS[v["property"]](v.get("tier", "quick")))
