"""Systematic mutation of the Python sources, to find what the checks miss.

python3 tools/mutate.py gen FILE OUT.json      list the mutants of src/fpfind/FILE
python3 tools/mutate.py run OUT.json RES.jsonl JOBS [VERIF]  run the checks of each mutant

Development aid only; nothing registered in MANIFEST.json uses it."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
FUNCS = {  # function -> checks, most likely first
    "lib/parse_timestamps.py": {
        "read_a0": "T01 T03", "read_a1": "T01 T03", "read_a2": "T01 T03", "sread_a1": "T05", "_sread_a1": "T05", "sread_a0": "T05",
        "_sread_a0": "T05", "sread_a2": "T05", "_sread_a2": "T05", "_format_timestamps": "T04 T01", "_consolidate_events": "T03 T02 T04",
        "write_a2": "T02 T03", "write_a0": "T02 T03", "write_a1": "T02 T03", "swrite_a1": "T02 T08 T03", "swrite_a0": "T02 T08", "swrite_a2": "T02 T08",
        "print_statistics": "T09", "print_statistics_stream": "T09", "print_statistics_report": "T09", "get_pattern_mask": "T06",
        "get_timing_mask": "T07", "main": "T08 T06 T07 T09", "event_filter": "T08 T06 T07", "inline_filter": "T08 T06 T07", "": "T01 T02 T04 T08"},
    "lib/parse_epochs.py": {
        "read_T1_header": "E03 E01", "read_T2_header": "E03 E04", "read_T3_header": "E03 E07", "read_T4_header": "E03 E06", "date2epoch": "E08",
        "epoch2date": "E08", "epoch2int": "E08", "int2epoch": "E08", "read_T1": "E01 E02 E03", "extract_bits": "E04 E06 E03", "read_T2": "E04 E05 E03",
        "write_T1": "E01", "read_T3": "E07 E03", "read_T4": "E06 E03", "ServiceT3": "E07", "": "E01 E03 E08"},
    "lib/utils.py": {
        "round": "F05 U05", "get_statistics": "U05", "generate_fft": "U03 U04", "get_xcorr": "U04 U02", "convert_histogram_fft": "U02",
        "get_timing_delay_fft": "U02 U04", "get_delay_at_index_fft": "U02", "get_top_k_delays_fft": "U02", "slice_timestamps": "U01",
        "histogram_fft": "U03 U04", "get_first_overlapping_epoch": "E09", "get_timestamp": "E10", "normalize_timestamps": "U01",
        "max": "U05", "mean": "U05", "stdev": "U05", "total": "U05", "significance": "U05 F02", "significance_raw": "U05", "significance2": "U05",
        "g2": "U05", "get_overlap": "U01", "parse_docstring_description": ""},
    "fpfind.py": {"time_freq": "F01 F02", "fpfind": "F03", "generate_precompensations": "F04", "main": "F06 F05 F04", "": "F01 F02"},
    "fpplot.py": {"": "X01"},
    "lib/generate_freqcd_testcase.py": {"": "G01"},
    "lib/logging.py": {"": "L01"},
    "freqcd.c": {"readint": "C05 C04 C10", "options": "C10 C05 C08", "range": "C05 C10", "open": "C10 C09 C08", "alloc": "C08 C03 C01 C09",
        "select": "C03 C09 C02 C08", "read": "C03 C09 C08 C02", "events": "C01 C02 C07 C06 C03", "freq": "C04 C03 C08 C06", "write": "C09 C02 C03 C08",
        "": "C01 C05 C08 C04 C10"},
    "lib/constants.py": {"": "T04 F02 E10 T01 F06"},
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "//", ast.LShift: ">>", ast.RShift: "<<",
       ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "&", ast.Pow: "*"}


REGIONS = [("int readint", "readint"), ("void usage", "usage"), ("/* other constants", ""), ("/* parse options", "options"),
           ("/* check specified", "range"), ("/* set input and output", "open"), ("/* initialize input and", "alloc"), ("/* main loop", "select"),
           ("/* read data from inhandle", "read"), ("/* digest events", "events"), ("// Read frequency correction", "freq"), ("/* write out events", "write"),
           ("/* free buffers", "free")]


def cmutants(rel):
    """Textual mutants of freqcd.c."""
    b = open(f"{REPO}/src/fpfind/{rel}", "rb").read()
    t = b.decode("latin-1")
    # blank comments, strings, debug sections, keeping offsets
    blank = lambda m: re.sub(r"[^\n]", " ", m.group(0))
    u = re.sub(r"#ifdef __DEBUG__.*?#endif", blank, t, flags=re.S)
    u = re.sub(r"/\*.*?\*/|//[^\n]*", blank, u, flags=re.S)
    u = re.sub(r'"(\\.|[^"\\])*"', blank, u, flags=re.S)
    starts = sorted((t.index(k), v) for k, v in REGIONS)
    out = []

    def add(a, z, new, kind):
        fn = ""
        for s, v in starts:
            if s <= a:
                fn = v
        if fn in ("usage", "free") or "include" in t[t.rindex("\n", 0, a + 1):a]:
            return
        out.append(dict(file=rel, func=fn, a=a, z=z, new=new, old=t[a:z], kind=kind, line=t[:a].count("\n") + 1))
    for m in re.finditer(r"(<=|>=|==|!=|&&|\|\||<<|>>|\+\+|\+=|(?<![-\w*(])[<>](?![\w.]+>)|(?<=\s)[-+*/%&|](?=\s))", u):
        o = m.group(0)
        for n in {"<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<<": [">>"], ">>": ["<<"], "++": ["--"], "+=": ["=", "-="],
                  "<": ["<="], ">": [">="], "-": ["+"], "+": ["-"], "*": ["/"], "/": ["*"], "%": ["/"], "&": ["|"], "|": ["&"]}[o]:
            add(m.start(), m.end(), n, "op")
    for m in re.finditer(r"(?<![\w.])\d+(?![\w.])|0x[0-9a-f]+", u):
        v = int(m.group(0), 8 if m.group(0)[0] == "0" and m.group(0)[1:].isdigit() else 0)
        add(m.start(), m.end(), str(v + 1), "const")
        if v:
            add(m.start(), m.end(), str(v - 1), "const")
    for m in re.finditer(r"\((ull|ll|int|unsigned long long|long long)\)", u):
        add(m.start(), m.end(), "", "cast")
        add(m.start(), m.end(), "(unsigned)", "cast")
    for m in re.finditer(r"(?<=[;{})\n])[ \t]*([a-zA-Z_*][^;{}\n#]*;)", u):
        st = m.group(1)
        if not re.match(r"(int|char|double|struct|ull|ll|unsigned|fd_set|typedef|const|case|fprintf|free|for|if|while|return$|else)\b", st):
            add(m.start(1), m.end(1), ";", "delete")
        if st == "break;":
            add(m.start(1), m.end(1), "continue;", "jump")
    for m in re.finditer(r"\b(if|while) \(", u):
        k, d = m.end(), 1
        while d:
            d += {"(": 1, ")": -1}.get(u[k], 0)
            k += 1
        c = t[m.end():k - 1]
        add(m.end(), k - 1, "!(" + c + ")", "if")
        if m.group(1) == "if":
            add(m.end(), k - 1, "0", "if")
            add(m.end(), k - 1, "1", "if")
    vs = {"inbytesread": "inbytesread_next", "inbytespartial": "inbytesread", "tsmeas": "tsref", "tsref": "tsmeas", "low": "high", "high": "low", "ts": "tsmeas",
          "freqbytespartial": "freqbytesread", "freqbytesread": "freqbytesread_next", "eventnum": "outevents", "infilename": "outfilename",
          "outfilename": "infilename", "freqfilename": "outfilename", "INBUFSIZE": "INBUFENTRIES", "next_num_idx": "i", "fcorr_tmp": "fcorr", "tscorr": "tsoverflowcorr",
          "tsoverflowcorr": "tscorr", "FCORR_TBITS1": "FCORR_TBITS2", "FCORR_TBITS2": "FCORR_TBITS1", "islegacy": "isdecimal", "INT_MAX": "FCORR_MAX"}
    for m in re.finditer(r"(?<![\w.>])(" + "|".join(vs) + r")\b", u):
        if m.start() > t.index("int readint"):
            add(m.start(), m.end(), vs[m.group(1)], "var")
    return out


def mutants(rel):
    if rel.endswith(".c"):
        return cmutants(rel)
    src = open(f"{REPO}/src/fpfind/{rel}").read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []
    tree = ast.parse(src)

    def add(fn, a, z, new, kind):
        out.append(dict(file=rel, func=fn, a=a, z=z, new=new, old=b[a:z].decode(), kind=kind, line=b[:a].count(b"\n") + 1))

    def doc(n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)

    def walk(n, fn, log):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = n.name
        if doc(n):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = seg(n.value.func)
            if re.match(r"(logger\.|logging\.|warnings\.|p?group\w*\.add_arg|parser\.add_argument|print$|plt)", t) and fn not in ("print_statistics_report",):
                if not t.startswith("print"):
                    return
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Return)) and fn:
            a, z = pos(n)
            if not (isinstance(n, ast.Return) and n.value is None):
                add(fn, a, z, "pass", "delete")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = pos(n.left), pos(n.comparators[0])
            add(fn, l[1], r[0], " " + CMP[type(n.ops[0])] + " ", "cmp")
            if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                add(fn, l[1], r[0], {"<": " >= ", "<=": " > ", ">": " <= ", ">=": " < "}[{v: k for k, v in {"<": "<=", "<=": "<", ">": ">=", ">=": ">"}.items()}[CMP[type(n.ops[0])]]], "cmp")
        if isinstance(n, ast.BinOp):
            l, r = pos(n.left), pos(n.right)
            mid = b[l[1]:r[0]].decode()
            if "(" not in mid and ")" not in mid and not isinstance(n.left, ast.Constant) or isinstance(getattr(n.left, "value", 0), (int, float)):
                m2 = re.sub(r"(<<|>>|//|\*\*|[-+*/%&|^])", lambda m: BIN[type(n.op)], mid, count=1)
                add(fn, l[1], r[0], m2, "binop")
                add(fn, pos(n)[0], pos(n)[1], seg(n.left), "drop")
        if isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                add(fn, pos(n)[0], pos(n)[1], "(" + seg(v) + ")", "bool")
        if isinstance(n, ast.UnaryOp):
            add(fn, pos(n)[0], pos(n)[1], seg(n.operand), "unary")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, z = pos(n.test)
            add(fn, a, z, "not (" + b[a:z].decode() + ")", "if")
            if not (isinstance(n, ast.While) and isinstance(n.test, ast.Constant)):
                add(fn, a, z, "False", "if")
                if not isinstance(n, ast.While):
                    add(fn, a, z, "True", "if")
        if isinstance(n, ast.Constant):
            a, z = pos(n)
            if isinstance(n.value, bool):
                add(fn, a, z, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(fn, a, z, str(n.value + 1), "const")
                if n.value > 0:
                    add(fn, a, z, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                add(fn, a, z, repr(n.value * 2 + 1e-10), "const")
            return
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and k.value:
                    v = pos(k.value)
                    a = b.rindex(k.arg.encode(), 0, v[0])
                    add(fn, a, v[1] + (1 if b[v[1]:v[1] + 1] == b"," else 0), "", "kwarg")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            pass
        for c in ast.iter_child_nodes(n):
            walk(c, fn, log)
    walk(tree, "", False)
    return out


def one(arg):
    i, m, verif = arg
    sys.path.insert(0, "/verif/tools")
    import mkseed
    d = tempfile.mkdtemp(prefix="mut")
    try:
        w = d + "/repo"
        shutil.copytree(REPO, w, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        p = f"{w}/src/fpfind/{m['file']}"
        b = open(p, "rb").read()
        n = b[:m["a"]] + m["new"].encode() + b[m["z"]:]
        open(p, "wb").write(n)
        try:
            if p.endswith(".c"):
                if subprocess.run(["gcc", "-w", "-O1", p, os.path.dirname(p) + "/lib/getopt.c", "-o", d + "/x", "-lm"], capture_output=True).returncode:
                    return dict(i=i, status="syntax")
            else:
                compile(n, p, "exec")
        except SyntaxError:
            return dict(i=i, status="syntax")
        if mkseed.tests(w):
            return dict(i=i, status="tests")
        f = FUNCS[m["file"]]
        for c in (f.get(m["func"], f.get("", ""))).split():
            env = dict(os.environ, VERIF_REPO=w)
            try:
                r = subprocess.run(["/opt/venv/bin/python", verif + "/run.py", c], capture_output=True, text=True, timeout=900, env=env)
            except subprocess.TimeoutExpired:
                return dict(i=i, status="timeout", check=c)
            if r.returncode == 1:
                return dict(i=i, status="caught", check=c)
            if r.returncode:
                return dict(i=i, status="rc%d" % r.returncode, check=c, out=r.stderr[-300:])
        return dict(i=i, status="SURVIVED", out=r.stdout[-200:] if f else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "gen":
        ms = mutants(sys.argv[2])
        json.dump(ms, open(sys.argv[3], "w"), indent=0)
        print(len(ms))
    else:
        ms = json.load(open(sys.argv[2]))
        done = {json.loads(l)["i"] for l in open(sys.argv[3])} if os.path.exists(sys.argv[3]) else set()
        todo = [(i, m, sys.argv[5] if len(sys.argv) > 5 else "/verif") for i, m in enumerate(ms) if i not in done]
        random.Random(1).shuffle(todo)
        with ThreadPoolExecutor(int(sys.argv[4])) as ex:
            for r in ex.map(one, todo):
                m = ms[r["i"]]
                r.update(line=m["line"], func=m["func"], old=m["old"], new=m["new"], file=m["file"])
                with open(sys.argv[3], "a") as f:
                    f.write(json.dumps(r) + "\n")


main()
