"""Builds planted bugs from a spec: python3 tools/mkseed.py SPEC.py [id...]

SPEC defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (Python text; `fp` imports happen with PYTHONPATH=$PWD/src), needs, breaks.
Each bug is made in a scratch copy of /repo, compiled, run against the stable
tests and its demonstration (must pass before and fail after), then written to
/verif/seeded/<id>/."""
import json, os, re, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

REPO, OUT = "/repo", "/verif/seeded"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = '''#!/bin/sh
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PATH="/opt/venv/bin:$PATH"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def tests(d):
    env = dict(os.environ, PYTHONPATH=d + "/src", PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", MPLBACKEND="Agg")
    subprocess.run(["make", "all"], cwd=d, env=env, capture_output=True)
    got = {}
    pyt = ["python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
           "-o", "junit_family=xunit2"]
    for extra, x in (([], "m.xml"), (["--float64", "-m", "float64", "tests/parse_epochs/test_limits.py"], "f.xml")):
        subprocess.run(pyt + extra + [f"--junitxml={d}/{x}"], cwd=d, env=env, capture_output=True)
        for tc in ET.parse(f"{d}/{x}").iter("testcase"):
            bad = any(c.tag in ("failure", "error", "skipped") for c in tc)
            k = f"{tc.get('classname')}::{tc.get('name')}"
            if not bad:
                got[k] = True
            elif k not in got:
                got[k] = False
    return [s for s in STABLE if not got.get(s)]


def demo(d, folder):
    r = subprocess.run(["sh", os.path.join(folder, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main():
    spec = {"__file__": sys.argv[1]}
    exec(open(sys.argv[1]).read(), spec)
    want = set(sys.argv[2:])
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        d = tempfile.mkdtemp(prefix="seed")
        try:
            w = d + "/repo"
            shutil.copytree(REPO, w, symlinks=True)
            folder = d + "/x"
            os.mkdir(folder)
            open(folder + "/demo.sh", "w").write(SH)
            open(folder + "/demo.py", "w").write(b["demo"])
            rc, out = demo(w, folder)
            if rc:
                print(b["id"], "DEMO FAILS ON CLEAN TREE", rc, out)
                continue
            for f, old, new in b["edits"]:
                p = f"{w}/src/fpfind/{f}"
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "PATTERN COUNT", s.count(old), old[:60])
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
                rc, out = demo(w, folder)
                if rc == 0:
                    print(b["id"], "DEMO PASSES WITH BUG")
                    continue
                bad = tests(w)
                if bad:
                    print(b["id"], "STABLE TESTS FAIL", bad[:3])
                    continue
                o = f"{OUT}/{b['id']}"
                shutil.rmtree(o, ignore_errors=True)
                os.makedirs(o)
                open(o + "/patch.diff", "w").write(diff)
                shutil.copy(folder + "/demo.sh", o)
                shutil.copy(folder + "/demo.py", o)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                          open(o + "/meta.json", "w"), indent=1)
                print(b["id"], "ok:", out.strip().splitlines()[-1][:120] if out.strip() else rc)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
