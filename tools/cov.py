#!/usr/bin/env python3
"""Development aid: which lines of the library do the plans of the given properties never reach?
usage: cov.py SECONDS PROP... (builds a variant of the simulator with FNFT_COV=1)"""
import os, re, subprocess, sys
os.environ["FNFT_COV"] = "1"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
exe, out = build.build()
secs = int(sys.argv[1]); props = sys.argv[2:]; data = "/tmp/cov.%d" % os.getpid()
N = int(os.environ.get("COV_WORKERS", "4"))
for p in props:
    ps = []
    for w in range(N):
        ps.append(subprocess.Popen(["bash", "-c", "i=%d; e=$((SECONDS+%d)); while [ $SECONDS -lt $e ]; do o=$(SIM_COV=%s.%d %s work %s 7 $i %d 1000000 $((e-SECONDS)) 2>/dev/null | grep -a '^RESUME\\|^DONE\\|^B ' | tail -1); set -- $o; case $1 in RESUME) i=$2;; B) i=$(($2+%d));; *) break;; esac; done" % (w, secs, data, w, exe, p, N, N)]))
    for q in ps: q.wait()
hit = set()
for w in range(N):
    f = "%s.%d" % (data, w)
    if os.path.exists(f): hit |= {int(x, 16) for x in open(f)}; os.unlink(f)
dis = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], capture_output=True, text=True).stdout
allpc = []; nxt = False
for l in dis.splitlines():
    m = re.match(r"\s+([0-9a-f]+):\s+(.*)", l)
    if not m: continue
    if nxt: allpc.append(int(m[1], 16)); nxt = False
    if "__sanitizer_cov_trace_pc>" in m[2] and m[2].startswith("call"): nxt = True
miss = [a for a in allpc if (a & 0xffffff) not in hit]
print("basic blocks reached: %d of %d" % (len(allpc) - len(miss), len(allpc)))
def lines(pcs):
    r = subprocess.run(["addr2line", "-e", exe], input="\n".join("%x" % (a - 1) for a in pcs), capture_output=True, text=True).stdout.split("\n")
    return [re.sub(r".*?/tree/", "", re.sub(r" \(disc.*", "", x)) for x in r if x]
got = set(lines([a for a in allpc if (a & 0xffffff) in hit]))
by = {}
for x in set(lines(miss)) - got:
    f, _, n = x.rpartition(":")
    if n.isdigit(): by.setdefault(f, set()).add(int(n))
for f in sorted(by): print(f, " ".join(map(str, sorted(by[f]))))
