#!/usr/bin/env python3
"""Development tool (no check uses it): writes seeded/<id>/{patch.diff,demo.sh,demo.c,meta.json} from the specifications below.
   plants.py [ID...]"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLANTS = {}
def plant(id, prop, edits, demo, needs, breaks, oom=False): PLANTS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, oom=oom)

DEMO_SH = '''#!/bin/bash
# exit 0: the property holds in this demonstration; run with the repository as working directory after the build
H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d) || exit 2; trap 'rm -rf "$W"' EXIT
gcc -O1 -g -std=gnu99 -w -I include -I include/private -I include/3rd_party/kiss_fft -I include/3rd_party/eiscor -I "$H" "$H/demo.c" -o "$W/demo" -L lib -lfnft -Wl,-rpath,"$PWD/lib" -lm -lpthread || exit 3
cd "$W" && timeout 200 ./demo
'''
COMMON = r'''#define FNFT_ENABLE_SHORT_NAMES
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex.h>
#include <errno.h>
#include "fnft_nsev.h"
#include "fnft_nsev_inverse.h"
#include "fnft_nsep.h"
#include "fnft_kdvv.h"
#include "fnft_manakovv.h"
#include "fnft_errwarn.h"
#undef I
#define I _Complex_I
typedef double complex cx;
static int bad;
#define FAIL(...) do { bad = 1; printf(__VA_ARGS__); printf("\n"); } while (0)
static void sech(cx *q, int D, double T0, double T1, double A) { for (int i = 0; i < D; i++) q[i] = A / cosh(T0 + i * (T1 - T0) / (D - 1)); }
'''
OOM = r'''/* allocator with a switch: counts blocks and refuses the failat-th request while armed */
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *);
static volatile long nalloc, failat = -1, failfrom = -1, live; static volatile int armed;
static int no(void) { nalloc++; return nalloc == failat || (failfrom > 0 && nalloc >= failfrom); }
void *malloc(size_t n) { if (!armed) return __libc_malloc(n); if (no()) { errno = ENOMEM; return 0; } live++; return __libc_malloc(n); }
void *calloc(size_t a, size_t n) { if (!armed) return __libc_calloc(a, n); if (no()) { errno = ENOMEM; return 0; } live++; return __libc_calloc(a, n); }
void *realloc(void *p, size_t n) { if (!armed) return __libc_realloc(p, n); if (no()) { errno = ENOMEM; return 0; } if (!p) live++; return __libc_realloc(p, n); }
void free(void *p) { if (armed && p) live--; __libc_free(p); }
static void arm(long k) { nalloc = 0; failat = k; failfrom = -1; live = 0; armed = 1; }
static long disarm(void) { armed = 0; return nalloc; }
'''
DEMO_MEX = DEMO_SH.replace('-I "$H" "$H/demo.c"', '-I "$H" -I matlab "$H/demo.c" matlab/mex_fnft_nsep.c')
exec(open(os.path.join(V, "tools", "plants_spec.py")).read())

def make(id):
    p = PLANTS[id]; d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix="wtp-", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -Af && git -c user.name=x -c user.email=x commit -qm b" % (wt, wt), shell=True, check=True)
    for f, old, new in p["edits"]:
        fp = os.path.join(wt, f); s = open(fp).read()
        if s.count(old) != 1: print(id, f, "matches", s.count(old), "times"); shutil.rmtree(wt); return
        open(fp, "w").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, text=True).stdout); shutil.rmtree(wt)
    open(os.path.join(d, "demo.c"), "w").write(COMMON + (OOM if p["oom"] else "") + p["demo"]); mex = '"mex.h"' in p["demo"]
    if mex:
        for f in ("mex.h", "matrix.h"): shutil.copy(os.path.join(V, "sim", "mexinc", f), d)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_MEX if mex else DEMO_SH); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1); print("wrote", id)
for i in (sys.argv[1:] or PLANTS): make(i)
