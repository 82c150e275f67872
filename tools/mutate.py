#!/usr/bin/env python3
"""Development aid: automatic small breakages of the library and the checks that notice them.

  mutate.py list [TYPE]            numbers of mutants per type
  mutate.py run TYPE [N] [SECS]    evaluates up to N mutants of a type (SECS of one core per property)
Mutants are built outside /repo (in /tmp/mut); results go to /tmp/mut/results.jsonl.
"""
import glob, json, os, random, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
os.environ["FNFT_KEEPOBJ"] = "1"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
W = "/tmp/mut"
FILES = [f for f in B.lib_files() if f.endswith((".c", ".inc")) and f.startswith(("src/", "matlab/")) and "testcases" not in f and "mex_" not in f or "matlab/mex_" in f and f.endswith(".c")]
CODE = "FNFT_EC_"
PR = {"free": ["C03", "C16"], "retcode": ["C02", "C14", "C12", "C17"], "nullck": ["C01", "C14", "C06", "C16", "C12"], "silent": ["C12", "C02"], "argck": ["C14", "C06", "C17", "C16"],
      "goto": ["C03", "C16"], "loop": ["C06", "C11", "C17", "C18", "C16"], "alloc": ["C06", "C17", "C01", "C11", "C16"], "rel": ["C06", "C14", "C12", "C17", "C02", "C18"], "calloc": ["C11", "C06"], "warn": ["C12", "C06"], "static": ["C07", "C11"], "minus": ["C06", "C17", "C11", "C18"], "init": ["C01", "C03", "C11", "C18", "C16"], "delst": ["C06", "C11", "C03", "C12", "C05", "C18", "C19"]}

def mutants(typ):
    out = []
    for f in FILES:
        L = open(os.path.join(B.REPO, f), errors="replace").read().split("\n"); depth = 0
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith(("//", "*", "/*", "#")): continue
            nx = " ".join(x.strip() for x in L[i + 1:i + 3])
            def add(new, note): out.append((f, i, new, note))
            if typ == "free":
                m = re.match(r"^(\s*)(if \(.*\)\s*)?((fft_wrapper_)?free|mxFree|fft_wrapper_destroy_plan)\((.*)\);\s*$", l)
                if m: add(m.group(1) + ";", s)
            elif typ == "retcode":
                if re.match(r"\s*CHECK_RETCODE\(", l): add("", s + " after " + L[i - 1].strip())
            elif typ in ("nullck", "argck", "rel"):
                m = re.match(r"^(.*\bif \()(.*)(\)\s*\{?\s*)(goto \w+;|return .*;|ret_code = .*;)?\s*$", l)
                guard = m and (re.search(r"\bE_[A-Z]|goto|FNFT_EC", (m.group(4) or "") + nx))
                if m and m.group(2).count("(") == m.group(2).count(")"):
                    c = m.group(2)
                    if typ == "nullck" and "NULL" in c and "!=" not in c and guard: add("%s0 && (%s)%s%s" % (m.group(1), c, m.group(3), m.group(4) or ""), s)
                    if typ == "argck" and "NULL" not in c and guard: add("%s0 && (%s)%s%s" % (m.group(1), c, m.group(3), m.group(4) or ""), s)
                    if typ == "rel":
                        for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != ")):
                            if a in c: add(m.group(1) + c.replace(a, b, 1) + m.group(3) + (m.group(4) or ""), s + " " + a)
            elif typ == "silent":
                m = re.search(r"\bE_([A-Z_]+)(\((?:[^()]|\([^()]*\))*\))?;", l)
                if m and not s.startswith("#"):
                    n, arg = m.group(1), m.group(2)
                    rep = "(-abs(%s));" % arg[1:-1] if n == "SUBROUTINE" and arg else "FNFT_EC_%s;" % n
                    add(l[:m.start()] + rep + l[m.end():], s)
                elif re.match(r"\s*CHECK_RETCODE\((\w+), (\w+)\)", l):
                    m = re.match(r"\s*CHECK_RETCODE\((\w+), (\w+)\)", l); add("if (%s) { %s = -abs(%s); goto %s; }" % (m.group(1), m.group(1), m.group(1), m.group(2)), s + " after " + L[i - 1].strip())
            elif typ == "goto":
                m = re.match(r"^(.*)\bgoto (\w+);(.*)$", l)
                if m and re.search(r"leave|release", m.group(2)) and "ret_code" in "\n".join(L): add(m.group(1) + "return ret_code;" + m.group(3), s)
            elif typ == "loop":
                m = re.match(r"^(.*\bfor \([^;]*;[^;<]*)<([^=][^;]*;.*)$", l)
                if m: add(m.group(1) + "<=" + m.group(2), s)
            elif typ == "alloc":
                m = re.match(r"^(.*\b(?:malloc|calloc|fft_wrapper_malloc|mxCalloc|mxMalloc)\s*\()(.*?)( ?\* ?sizeof.*|, ?sizeof.*|\);.*)$", l)
                if m and m.group(2).strip(): add(m.group(1) + "((" + m.group(2) + ")-1)" + m.group(3), s)
            elif typ == "calloc":
                m = re.match(r"^(.*)\bcalloc\(([^,]*), ?([^)]*\))\);(.*)$", l)
                if m: add("%smalloc((%s)*(%s));%s" % (m.group(1), m.group(2), m.group(3), m.group(4)), s)
            elif typ == "warn":
                if re.match(r"\s*WARN\(", l): add(";", s)
            elif typ == "static":
                if re.match(r"^    +(REAL|COMPLEX|UINT|INT|akns_discretization_t|FNFT_REAL|FNFT_COMPLEX) +\*?\w+(\[.*\])?( *, *\*?\w+(\[.*\])?)*( = 0)?;", l): add("static " + s, s)
            elif typ == "init":
                m = re.match(r"^(\s*(?:REAL|COMPLEX|UINT|INT|double|size_t|fft_wrapper_plan_t|char|int|FNFT_\w+)\b.*) = (NULL|0|0\.0|fft_wrapper_safe_plan_init\(\))(,.*|;.*)$", l)
                if m and "for" not in s and "const" not in s: add(m.group(1) + m.group(3), s)
            elif typ == "minus":
                m = re.match(r"^(\s*(?:if|while|for).*?)(\w+) ?- ?1\b(.*)$", l)
                if m: add(m.group(1) + m.group(2) + m.group(3), s)
            elif typ == "delst":
                if f.startswith("src/fnft_") and re.match(r"^\s+[\w\[\]>*.-]+\s*[-+*]?=[^=].*;\s*$", l) and not re.match(r"^\s+(REAL|COMPLEX|UINT|INT|const|static|double|size_t|fnft_|fnft__|nse|akns|kdv|manakov)\w*\b", l): add("    ;", s)
    return out

def base():
    B.BUILD = W + "/b"
    return B.build()[1]

def evaluate(args):
    typ, n, (f, i, new, note), bs, secs = args
    d = "%s/m%s%d" % (W, typ, n); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    J = json.load(open(bs + "/jobs.json")); fix = lambda x: x.replace(J["tmp"], bs)
    L = open(os.path.join(B.REPO, f), errors="replace").read().split("\n"); L[i] = new
    try:
        objs = []; redo = []
        src = fix(os.path.join(J["tmp"], "tree", f))
        for j in J["jobs"]:
            c = j[0] if isinstance(j[0], list) else j
            s = ([x for x in c if x.endswith((".c", ".f90"))] or [""])[-1]
            if fix(s) == src or (f.endswith(".inc") and "finvscatter.c" in s): redo.append(c)
        for c in redo:
            c = [fix(x) for x in c]; s = [x for x in c if x.endswith(".c")][-1]; o = c[c.index("-o") + 1]
            m = os.path.join(d, os.path.basename(s)); txt = "\n".join(L) if s == src else open(s).read()
            open(m, "w").write('#include <stdlib.h>\n#line 1\n' + txt)
            if s != src: open(os.path.join(d, os.path.basename(src)), "w").write("\n".join(L))
            c = [m if x == s else x for x in c]; no = os.path.join(d, os.path.basename(o)); c[c.index("-o") + 1] = no
            c.insert(1, "-I" + os.path.dirname(s))
            r = subprocess.run(c, capture_output=True, text=True)
            if r.returncode: return (typ, f, i + 1, note, "nocompile", "")
            objs.append((o, no))
        if not objs: return (typ, f, i + 1, note, "noobj", "")
        m = dict(objs); lib = d + "/lib.o"
        subprocess.check_call(["ld", "-r", "-o", lib] + [m.get(fix(x), fix(x)) for x in J["libo"]])
        subprocess.check_call([fix(x) for x in J["oc"]] + [lib], stderr=subprocess.DEVNULL)
        exe = d + "/simfnft"; l = [lib if x.endswith("/lib.o") else fix(x) for x in J["link"]]; l[l.index("-o") + 1] = exe
        if subprocess.run(l, stderr=subprocess.DEVNULL).returncode: return (typ, f, i + 1, note, "nolink", "")
        props = PR[typ]
        if f.startswith("matlab/"): props = ["C16"]
        else: props = [p for p in props if p != "C16"]
        for p in props:
            end = time.time() + secs; k = 0
            while time.time() < end:
                pr = subprocess.Popen([exe, "work", p, "1", str(k), "1", "1000000000", str(int(end - time.time()) + 1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace"); hit = None; nx = None
                for x in pr.stdout:
                    if x.startswith("V "): hit = x; pr.kill(); break
                    if x.startswith("B "): k = int(x[2:])
                    if x.startswith("RESUME"): nx = int(x.split()[1])
                    if time.time() > end + 60: pr.kill(); break
                rc = pr.wait()
                if hit: return (typ, f, i + 1, note, "killed", p + " " + hit.strip()[:150])
                if nx is not None: k = nx; continue
                if rc not in (0, -9): return (typ, f, i + 1, note, "killed", p + " lost %d" % rc)
                break
        return (typ, f, i + 1, note, "SURVIVED", " ".join(props))
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1] == "list":
        for t in PR:
            if len(sys.argv) < 3 or sys.argv[2] == t:
                M = mutants(t); print(t, len(M))
                if len(sys.argv) > 2:
                    for m in M: print("  %s:%d  %s   <-  %s" % (m[0], m[1] + 1, m[2].strip(), m[3]))
    else:
        os.makedirs(W, exist_ok=True); bs = base(); typ = sys.argv[2]; N = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9; secs = int(sys.argv[4]) if len(sys.argv) > 4 else 25
        if os.environ.get("MUT_AGAIN"):         # the survivors of earlier runs once more
            last = {}
            for l in open(W + "/results.jsonl"):
                r = json.loads(l)
                if r[0] == typ: last[(r[1], r[2], r[3])] = r[4]
            again = {k for k, v in last.items() if v == "SURVIVED"}
            M = [m for m in mutants(typ) if (m[0], m[1] + 1, m[3]) in again]; N = len(M)
        else: M = mutants(typ)
        R = random.Random(7); idx = list(range(len(M)))
        if N < len(M): idx = sorted(R.sample(idx, N))
        with ThreadPoolExecutor(int(os.environ.get("MUT_J", "8"))) as ex, open(W + "/results.jsonl", "a") as out:
            c = {}
            for r in ex.map(evaluate, [(typ, n, M[n], bs, secs) for n in idx]):
                c[r[4]] = c.get(r[4], 0) + 1; out.write(json.dumps(r) + "\n"); out.flush()
                if r[4] == "SURVIVED": print("%s:%d  %s" % (r[1], r[2], r[3]), flush=True)
            print(typ, c)
