#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.

The library sources are staged (copied) into /verif/build/<hash>/, compiled with memory-access
instrumentation (gcc -fsanitize=thread, but linked against our own hooks instead of libtsan), merged
into one object, and every environment function the object imports (allocator, stdio, process,
clock, entropy, locks, Fortran runtime) is renamed to the simulator's seam sim_<name>.
"""
import hashlib, os, re, shutil, subprocess, sys, fcntl, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FNFT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
GCC, GXX, FC = "/usr/bin/gcc", "/usr/bin/g++", "/usr/bin/gfortran"
HARNESS_C = ["rt.c", "ops.c", "kernels.c", "mexhost.c"]
HARNESS_CC = ["main.cc"]
COMMON = ["-g1", "-O2", "-fno-pie", "-fno-omit-frame-pointer", "-fstack-protector-strong", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
          "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-fno-tree-loop-distribute-patterns",
          "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=1"]
COV = ["-fsanitize-coverage=trace-pc"] if os.environ.get("FNFT_COV") else []      # development aid: which code do the plans reach (tools/cov.py)
COMMON += COV

def sh(cmd, cwd=None):
    """cmd may be (command, fallback): the fallback is used if the command fails"""
    if isinstance(cmd, tuple):
        if subprocess.run(cmd[0], cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0: return ""
        cmd = cmd[1]
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write("build step failed: %s\n%s\n" % (" ".join(cmd), r.stdout[-4000:]))
        raise SystemExit(3)
    return r.stdout

def lib_files():
    out = []
    for root in ("src", "include", "matlab"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                if f.endswith((".c", ".h", ".f90", ".h.in", ".inc")) and f != "fnft_config.h":
                    out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)

def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0"); h.update(open(os.path.join(REPO, f), "rb").read()); h.update(b"\0")
    for d in ("sim", "sim/mexinc"):
        for f in sorted(os.listdir(os.path.join(VERIF, d))) if os.path.isdir(os.path.join(VERIF, d)) else []:
            if f.endswith((".c", ".cc", ".h")):
                h.update(f.encode()); h.update(open(os.path.join(VERIF, d, f), "rb").read())
    h.update(open(os.path.join(REPO, "CMakeLists.txt"), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read()); h.update(repr(COV).encode())
    return h.hexdigest()[:16]

def write_config(stage):
    t = open(os.path.join(stage, "include/fnft_config.h.in")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    def ver(k):
        m = re.search(r"set\(FNFT_VERSION_%s\s+\"?([^\")\s]*)\"?\)" % k, cm); return m.group(1) if m else "0"
    for k in ("MAJOR", "MINOR", "PATCH", "SUFFIX"): t = t.replace("@FNFT_VERSION_%s@" % k, ver(k))
    on = {"HAVE___THREAD", "HAVE_PRAGMA_GCC_OPTIMIZE_OFAST"}
    t = re.sub(r"#cmakedefine (\w+)( \S+)?", lambda m: "#define %s%s" % (m.group(1), m.group(2) or "") if m.group(1) in on else "/* #undef %s */" % m.group(1), t)
    open(os.path.join(stage, "include/fnft_config.h"), "w").write(t)

def audit(obj, seams):
    """imports of the merged library object that are neither seams nor known pure functions"""
    und = [l.split()[-1] for l in sh(["nm", "-u", obj]).splitlines()]
    pure = re.compile(r"^(sim_\w+$|__tsan_\w+$|nexttoward$|c?(sin|cos|tan|exp|log|sqrt|pow|abs|arg|real|imag|conj|sinh|cosh|tanh|asin|acos|atan|acosh|asinh|atanh|proj)f?$|"
                      r"(hypot|fabs|floor|ceil|round|trunc|fmod|fmin|fmax|log2|log10|exp2|exp10|expm1|log1p|atan2|cbrt|ldexp|frexp|modf|scalbn|copysign|lround|llround|nearbyint|rint|remainder|sincos|erf|erfc|tgamma|lgamma|abs|labs)f?$|"
                      r"__(mul|div)[dsx]c3$|__\w+_finite$|_gfortran_(pow_\w+|string_\w+|compare_string|matmul_\w+|store_exe_coarray\w*|set_args|select_string|internal_(un)?pack\w*|size0|reshape\w*|spread\w*|concat_string|string_trim)$|"
                      r"str(len|cmp|ncmp|cpy|ncpy|cat|ncat|chr|rchr|str|tol|tod|toul|nlen|casecmp)|mem(cmp|chr)|v?sn?printf|vsnprintf|sscanf|qsort|bsearch|is\w+|to(upper|lower)|std(err|out|in)|__errno_location|_GLOBAL_OFFSET_TABLE_|__tls_get_addr|__ctype_\w+|mx\w+|mex\w+|__start_\w+|__stop_\w+|__isoc\w+_(sscanf|strtol|strtoul|strtod)|fe(get|set|raise|clear|test|hold|update|enable|disable|get)\w*)$")
    return [u for u in und if not pure.match(u)]

def build(quiet=True):
    files = lib_files(); hx = digest(files); out = os.path.join(BUILD, hx); exe = os.path.join(out, "simfnft")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe): return exe, out
        for old in sorted(glob.glob(os.path.join(BUILD, "????????????????")), key=os.path.getmtime)[:-3]: shutil.rmtree(old, ignore_errors=True)
        tmp = out + ".tmp"; shutil.rmtree(tmp, ignore_errors=True); stage = os.path.join(tmp, "tree")
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(stage, f)), exist_ok=True); shutil.copyfile(os.path.join(REPO, f), os.path.join(stage, f))
        write_config(stage)
        inc = ["-I" + os.path.join(stage, d) for d in ("include", "include/private", "include/3rd_party/eiscor", "include/3rd_party/kiss_fft")]
        obj = os.path.join(tmp, "obj"); os.makedirs(obj)
        jobs = []; libo = []; mexo = []
        for f in files:
            if not f.startswith(("src/", "matlab/")) or f.endswith((".h", ".inc", ".in")): continue
            o = os.path.join(obj, f.replace("/", "_") + ".o"); s = os.path.join(stage, f)
            if f.endswith(".c"):
                c = [GCC, "-std=c99", "-w", "-Werror=implicit-function-declaration"] + COMMON + inc
                if f.startswith("matlab/"):
                    if "mex_" not in os.path.basename(f) or not os.path.exists(os.path.join(VERIF, "sim", "mexinc", "mex.h")): continue
                    n = os.path.basename(f)[:-2]
                    shim = ["-D%s=mexshim_%s" % (x, x) for x in ("fnft_nsev", "fnft_kdvv", "fnft_manakovv", "fnft_nsep", "fnft_nsev_inverse", "fnft_nsev_inverse_XI")]
                    c += ["-I" + os.path.join(VERIF, "sim", "mexinc"), "-DmexFunction=mexFunction_" + n, "-DMATLAB_MEX_FILE", "-DMEX_DOUBLE_HANDLE"] + shim; mexo.append(o)
                    # a gateway that uses a part of the host interface we do not simulate is left out
                    jobs.append((c + ["-c", s, "-o", o], [GCC, "-x", "c", "-c", "/dev/null", "-o", o])); continue
                else: libo.append(o)
            else:
                c = [FC, "-w", "-cpp", "-ffree-line-length-none"] + COMMON + inc + ["-J" + obj]; libo.append(o)
            jobs.append(c + ["-c", s, "-o", o])
        hobj = []; kern = None
        for f in HARNESS_C:
            if not os.path.exists(os.path.join(VERIF, "sim", f)): continue
            o = os.path.join(obj, "h_" + f + ".o"); hobj.append(o)
            c = [GCC, "-std=gnu11", "-w", "-g1", "-O2", "-fno-pie", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE"] + inc + ["-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "sim", "mexinc"), "-c", os.path.join(VERIF, "sim", f), "-o", o]
            if f == "kernels.c": kern = c + ["-DNO_KERNELS"]
            # the building blocks are not a stable interface: if one changed its signature, go on without them
            jobs.append(([x for x in c if x != "-w"] + ["-Werror=incompatible-pointer-types", "-Werror=int-conversion"], c + ["-DNO_KERNELS"]) if f == "kernels.c" else c)
        for f in HARNESS_CC:
            if not os.path.exists(os.path.join(VERIF, "sim", f)): continue
            o = os.path.join(obj, "h_" + f + ".o"); hobj.append(o)
            jobs.append([GXX, "-std=c++17", "-w", "-g1", "-O2", "-fno-pie", "-U_FORTIFY_SOURCE", "-I" + os.path.join(VERIF, "sim"), "-c", os.path.join(VERIF, "sim", f), "-o", o])
        with ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))
        seams = []
        for l in sh(["nm", "--defined-only", os.path.join(obj, "h_rt.c.o")]).splitlines():
            n = l.split()[-1]
            if n.startswith("sim_"): seams.append(n[4:])
        lib = os.path.join(tmp, "lib.o"); sh(["ld", "-r", "-o", lib] + libo + mexo)
        sects = [l.split()[1] for l in sh(["objdump", "-h", "-w", lib]).splitlines() if re.match(r"\s*\d+ ", l)]
        oc = ["objcopy"]
        for s in seams: oc += ["--redefine-sym", "%s=sim_%s" % (s, s)]
        for s in sects:
            if s in (".data",) or (s.startswith(".data.") and not s.startswith(".data.rel.ro")): oc += ["--rename-section", "%s=fnftdata" % s]
            if s == ".bss" or s.startswith(".bss.") or s.startswith(".lbss"): oc += ["--rename-section", "%s=fnftbss,alloc,load,data,contents" % s]
        sh(oc + [lib])
        un = audit(lib, seams)
        # Fortran common blocks would escape the renamed sections
        comm = [l.split()[-1] for l in sh(["nm", lib]).splitlines() if " C " in l]
        open(os.path.join(tmp, "audit.txt"), "w").write("\n".join(["unseamed " + u for u in un] + ["common " + c for c in comm]) + "\n")
        link = [GXX, "-no-pie", "-o", os.path.join(tmp, "simfnft")] + hobj + [lib, "-lgfortran", "-lm", "-lpthread"]
        if subprocess.run(link, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:      # a building block is gone: go on without them
            if kern: sh(kern)
            sh(link)
        if os.environ.get("FNFT_KEEPOBJ"):      # development aid for tools/mutate.py
            import json; json.dump({"jobs": jobs, "oc": oc, "hobj": hobj, "libo": libo + mexo, "link": link, "tmp": tmp}, open(os.path.join(tmp, "jobs.json"), "w"))
        else: shutil.rmtree(obj, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True); os.rename(tmp, out)
    return exe, out

if __name__ == "__main__":
    e, o = build(); print(e); print(open(os.path.join(o, "audit.txt")).read())
