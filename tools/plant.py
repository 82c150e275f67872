#!/usr/bin/env python3
"""Development tool (no check uses it): validates a planted bug in a scratch copy of /repo that is
bind-mounted over /repo inside a private user namespace.

  plant.py ID [--edit]   seeded/ID holds edits.py (FILE/OLD/NEW triples, optional), demo.sh, meta.json
Steps: copy, demo on the unchanged tree, apply, build, stable tests, demo, then this property's check."""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); ID = sys.argv[1]; S = os.path.join(V, "seeded", ID)
if os.environ.get("IN_NS") != "1":
    wt = "/tmp/wt-" + ID; shutil.rmtree(wt, ignore_errors=True); subprocess.run(["cp", "-a", "/repo", wt], check=True)
    vt = "/tmp/vt-" + ID; shutil.rmtree(vt, ignore_errors=True); os.makedirs(vt)
    for n in ("check.py", "tools", "sim", "known-findings.txt"): subprocess.run(["cp", "-a", os.path.join(V, n), vt])
    r = subprocess.run(["unshare", "-Urm", "sh", "-c", "mount --bind %s /repo && exec python3 %s %s" % (wt, os.path.abspath(__file__), " ".join(sys.argv[1:]))], env=dict(os.environ, IN_NS="1", VT=vt))
    shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(vt, ignore_errors=True); sys.exit(r.returncode)
def sh(c, t=900, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, **k)
def say(*a): print(ID, *a, flush=True)
d = "/tmp/demo-" + ID; shutil.rmtree(d, ignore_errors=True); shutil.copytree(S, d)
for f in os.listdir(d):
    if f.endswith((".diff", ".patch")) or f in ("meta.json",): os.remove(os.path.join(d, f))
edits = os.path.join(S, "patch.diff")
sh("git config --global --add safe.directory /repo")
if not os.path.exists(edits): say("no patch"); sys.exit(2)
sh("bash /opt/vp/build.sh"); r = sh("bash %s/demo.sh" % d, 300, cwd="/repo"); say("demo unchanged: exit", r.returncode, r.stdout[-300:] if r.returncode else "")
bad = r.returncode != 0
r = sh("git -C /repo apply %s" % edits)
if r.returncode: say("patch does not apply", r.stdout); sys.exit(2)
r = sh("bash /opt/vp/build.sh")
if r.returncode: say("does not build", r.stdout[-1500:]); sys.exit(2)
t0 = time.time(); r = sh("bash %s/demo.sh" % d, 300, cwd="/repo"); say("demo patched: exit", r.returncode, "%.0f s" % (time.time() - t0), r.stdout[-400:]); bad |= r.returncode == 0
if "--notest" not in sys.argv:
    r = sh("bash /opt/vp/test.sh /tmp/out-%s.json" % ID); j = json.load(open("/tmp/out-%s.json" % ID)); base = json.load(open("/opt/vp/BASELINE.json")); b = base["stable"]
    miss = [t for t in b if t not in j["passed"]] if isinstance(b, list) else j["failed"]
    say("tests: %d passed, missing %s" % (len(j["passed"]), miss[:5])); bad |= bool(miss); os.remove("/tmp/out-%s.json" % ID)
shutil.rmtree(d, ignore_errors=True)
if "--nocheck" not in sys.argv:
    p = json.load(open(os.path.join(S, "meta.json")))["property"]; ps = [p] + [a for a in sys.argv[2:] if a.startswith("C")]
    for q in ps:
        t0 = time.time(); r = sh("python3 %s/check.py %s --tier quick" % (os.environ["VT"], q), env=dict(os.environ, VERIF_SEED="1"))
        say("check %s: exit %d, %.0f s;" % (q, r.returncode, time.time() - t0), " | ".join(l for l in r.stdout.splitlines() if l.startswith(("violated", "class", "VIOLATION")))[:500] or r.stdout[-300:])
say("BAD PLANT" if bad else "plant ok"); sys.exit(1 if bad else 0)
