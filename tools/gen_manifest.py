"""Writes MANIFEST.json from the list of decided properties."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PY = ("symbolic execution of the project's Python functions (own engine over the real source, bit-vector/real SMT), "
      "z3 verdict per path, counterexamples replayed on the real modules")
CC = ("symbolic execution of the clang -O0 LLVM IR of freqcd.c (whole main), z3 verdict per path, "
      "counterexamples replayed on the gcc-built binary")
NOTE_PY = ("Holds for every input within the bounds listed in the evidence file (numbers of events, value widths); trusts the "
           "numpy/file stand-ins of vlib (validated by replaying a witness of explored paths on the real modules) and z3.")
NOTE_F = ("Holds for every sequence of peak positions, significances and option values within the bounds listed in the evidence file; "
          "correlation, statistics and readers are replaced by recording stand-ins with arbitrary results, and real-valued harnesses "
          "treat double arithmetic as exact real arithmetic (replays compare with a relative tolerance); trusts vlib and z3.")
NOTE_C = ("Holds for every event word, offset and file content within the stated numbers of reads and bytes; trusts the IR "
          "executor and its libc/syscall stand-ins (validated by replaying witnesses on the gcc binary) and z3.")

DONE = sys.argv[1].split(",") if len(sys.argv) > 1 else None
NA = {}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    done = [i for i in ids if any(re.fullmatch(p, i) for p in DONE)]
    checks = []
    for i in done:
        c = i[0] == "C"
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python /verif/run.py {i} --tier quick",
                           thorough_cmd=f"/opt/venv/bin/python /verif/run.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=CC if c else PY,
                           level="model_checking", level_note=NOTE_C if c else NOTE_F if i[0] in "FX" else NOTE_PY))
    na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in done]
    m = dict(version=1, setup_cmd="/opt/venv/bin/python /verif/tools/setup.py", checks=checks, not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
