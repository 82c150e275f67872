#!/usr/bin/env python3
"""Decides one property by deterministic simulation with fault injection.

  check.py C07 [--tier quick|thorough] [--seconds N] [--seed N]
  check.py --replay FILE          re-executes a recorded plan (exit 1 if it violates its property)

Builds the simulator from the current tree of /repo, runs seeded plans on all cores, confirms every
violation by two replays in fresh processes (same class, same trace hash), minimises it and reports
VIOLATION property=<id> replay=<file>.  Evidence goes to evidence/<id>.json.
"""
import argparse, json, os, re, subprocess, sys, threading, time, queue, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B

QUICK, THOROUGH, NW = 60, 1200, 8
FAULTS = {"fk1": "single allocation refused", "fk2": "all allocations refused from a point on", "fk3": "allocations of at least a size refused", "fk4": "memory budget exhausted", "fk5": "zero-sized allocation refused", "stderr": "standard error broken while reporting"}
REAL = ["libfnft: all C sources in src/ and the bundled eiscor (Fortran) and KISS FFT, compiled from the working tree with access instrumentation", "libm, libgfortran string/pack helpers"]
STUB = ["heap (simulated arenas with red zones, seeded contents, recycling and fault plan)", "thread scheduler (one simulated thread runs at a time, seeded decisions at memory accesses, allocations, messages and call boundaries)",
        "stdio, file system, process control, locale, signals (recorded and answered by the simulator)", "clocks and random number sources (simulated, seeded)", "pthread mutex/once (emulated)"]

def rule(p):
    common = "plan i of a seed is generated from splitmix64(seed, property, i); it fixes the calls with all arguments, the memory placement and contents, the fault plan of every call and the scheduler's seed. "
    return common + "A plan counts as non-trivial if in it memory was actually refused, a thread was preempted inside a call, a misuse or corruption was applied, or a call was executed in a world different from its reference world; distinct = distinct trace hash (returned codes, outputs, messages, step counts, schedule)."

class Search:
    def __init__(self, exe, prop, seed, seconds):
        self.exe, self.prop, self.seed, self.end = exe, prop, seed, time.time() + seconds
        self.q = queue.Queue(); self.stop = False; self.plans = 0; self.twice = 0; self.nondet = []; self.stat = {}; self.sets = {}; self.lock = threading.Lock(); self.procs = {}; self.crashes = 0; self.resumes = 0; self.kinds = {}
    def worker(self, w):
        i = w; bad = 0
        while not self.stop:
            left = int(self.end - time.time())
            if left <= 0: return
            pr = subprocess.Popen([self.exe, "work", self.prop, str(self.seed), str(i), str(NW), "1000000000000", str(left)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
            self.procs[w] = [pr, time.time()]; cur = i; resume = None
            for l in pr.stdout:
                self.procs[w][1] = time.time()
                if l.startswith("B "):
                    cur = int(l.split()[1])
                    with self.lock: self.plans += 1
                elif l.startswith("V "):
                    a = l[2:].rstrip("\n").split("\t"); self.q.put((int(a[0]), a[1], a[2] if len(a) > 2 else ""))
                elif l.startswith("TWICE"):
                    with self.lock: self.twice += 1
                elif l.startswith("NONDET"): self.nondet.append(int(l.split()[1]))
                elif l.startswith("STAT "):
                    t = l.split()[1:]
                    with self.lock:
                        for k, v in zip(t[::2], t[1::2]): self.stat[k] = self.stat.get(k, 0) + int(v)
                elif l.startswith("KIND "):
                    t = l.split()[1:]
                    with self.lock:
                        for k, v in zip(t[::2], t[1::2]): self.kinds[k] = self.kinds.get(k, 0) + int(v)
                elif l.startswith("SET "):
                    t = l.split()[1:]
                    with self.lock: self.sets.setdefault(t[0], set()).update(t[1:])
                elif l.startswith("RESUME "): resume = int(l.split()[1])
            rc = pr.wait()
            if self.stop: return
            if rc == 77 and resume is not None: self.resumes += 1; i = resume; continue
            if rc == 0: return
            bad += 1; self.crashes += 1; self.q.put((cur, "simulator-lost", "the simulated process was lost (status %d)" % rc)); i = cur + NW
            if bad > 20: return
    def watch(self):
        while not self.stop and time.time() < self.end + 200:
            time.sleep(1)
            for w, (pr, t) in list(self.procs.items()):
                if pr.poll() is None and time.time() - t > 150: pr.kill()
    def kill(self):
        self.stop = True
        for pr, _ in list(self.procs.values()):
            if pr.poll() is None: pr.kill()

def plan_file(exe, prop, seed, i, path):
    with open(path, "w") as f: subprocess.run([exe, "plan", prop, str(seed), str(i)], stdout=f, stderr=subprocess.DEVNULL, timeout=300)

def replay(exe, path, timeout=240):
    """({class: text}, trace)"""
    try: r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired: return {"simulator-lost": "no progress"}, "timeout"
    v = {}; trace = None
    for l in r.stdout.splitlines():
        if l.startswith("V "): a = l[2:].split("\t"); v.setdefault(a[1], a[2] if len(a) > 2 else "")
        if l.startswith("TRACE "): trace = l.split()[1]
    if r.returncode not in (0, 1) or trace is None: v["simulator-lost"] = "the simulated process was lost (status %d)" % r.returncode; trace = "status %d" % r.returncode
    return v, trace

def known_findings(prop):
    """known-findings.txt: 'finding: property=<id> class=<class> match=<regex> :: <description>' suppresses; 'fixed: ...' lines suppress nothing"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop: out.append({"class": m.group(2), "re": re.compile(m.group(3)), "desc": m.group(4), "hit": False})
    return out

def is_known(kn, cls, text):
    for k in kn:
        if k["class"] == cls and k["re"].search(text): k["hit"] = True; return True
    return False

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick"); ap.add_argument("--seconds", type=int); ap.add_argument("--seed", type=int); ap.add_argument("--replay")
    a = ap.parse_args(); t0 = time.time()
    exe, out = B.build(); tb = time.time() - t0
    if a.replay:
        v, tr = replay(exe, a.replay)
        for c, t in v.items(): print("%s: %s" % (c, t))
        print("TRACE", tr); return 1 if v else 0
    prop = a.prop; seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    secs = a.seconds or (THOROUGH if a.tier == "thorough" else QUICK)
    print("seed %d, property %s, tier %s" % (seed, prop, a.tier), flush=True)
    kn = known_findings(prop)
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    s = Search(exe, prop, seed, secs); ts = time.time()
    th = [threading.Thread(target=s.worker, args=(w,), daemon=True) for w in range(NW)]
    for t in th: t.start()
    threading.Thread(target=s.watch, daemon=True).start()
    confirmed = None; unconfirmed = []; tried = {}; seen = {}
    while True:
        try: i, cls, text = s.q.get(timeout=0.3)
        except queue.Empty:
            if not any(t.is_alive() for t in th) and s.q.empty(): break
            continue
        seen[cls] = seen.get(cls, 0) + 1
        if cls != "simulator-lost" and is_known(kn, cls, text): continue
        if tried.get(cls, 0) >= 3: continue
        tried[cls] = tried.get(cls, 0) + 1
        pf = os.path.join(rdir, "%s-%d-%d.plan" % (prop, seed, i)); plan_file(exe, prop, seed, i, pf)
        r1, h1 = replay(exe, pf); r2, h2 = replay(exe, pf)
        if cls in r1 and cls in r2 and h1 == h2: confirmed = (i, cls, text, pf, h1); break
        unconfirmed.append((i, cls, text, h1, h2)); os.remove(pf)
    s.kill() if confirmed else None
    for t in th: t.join(timeout=5)
    search_s = time.time() - ts; s.stop = True
    rc = 0; viol = 0; lines = []
    if confirmed:
        i, cls, text, pf, h = confirmed; viol = 1; rc = 1; final = pf; ft = text
        if cls != "simulator-lost":
            mf = pf[:-5] + ".min.plan"
            try:
                subprocess.run([exe, "minimise", pf, cls, mf], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150)
                r1, h1 = replay(exe, mf); r2, h2 = replay(exe, mf)
                if cls in r1 and cls in r2 and h1 == h2: final = mf; ft = r1[cls]; h = h1
            except Exception: pass
        print("violated: %s" % ft); print("class %s, seed %d, plan %d, trace %s; replay with: python3 %s --replay %s" % (cls, seed, i, h, os.path.join(VERIF, "check.py"), final))
        print(open(final).read() if os.path.getsize(final) < 6000 else "(plan of %d bytes)" % os.path.getsize(final))
        lines.append("VIOLATION property=%s replay=%s" % (prop, final))
    elif unconfirmed:
        for u in unconfirmed: sys.stderr.write("not reproducible: plan %d %s: %s (%s / %s)\n" % u)
        rc = 3
    for k in kn: print("KNOWN-FINDING: property=%s %s" % (prop, k["desc"]))
    samples = []
    for i in (0, 1, 2): samples.append({"plan": i, "text": subprocess.run([exe, "plan", prop, str(seed), str(i)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300).stdout[:1500]})
    st = s.stat; runs = max(s.plans, 1); hrs = max(search_s, 0.001) / 3600.0; nset = lambda k: len(s.sets.get(k, ()))
    cov = {"evaluations": st.get("runs", 0), "distinct_nontrivial": nset("trace"), "rule": rule(prop), "samples": samples,
           "simulated_runs": st.get("runs", 0), "simulated_calls": st.get("ops", 0), "runs_per_hour": int(st.get("runs", 0) / hrs), "seeds_per_hour": int(st.get("runs", 0) / hrs),
           "simulated_time_steps": st.get("steps", 0), "simulated_time_note": "the library has no timers; simulated time is counted in steps (memory accesses, calls, allocations, messages)",
           "faults_injected": {FAULTS[k]: st.get(k, 0) for k in FAULTS}, "allocations_seen": st.get("allocs", 0), "allocations_refused": st.get("refused", 0), "calls_with_refused_memory": st.get("nontrivial", 0),
           "thread_switches": st.get("switches", 0), "accesses_to_shared_or_static_data": st.get("shared", 0),
           "calls_by_kind": dict(sorted(s.kinds.items())), "distinct_interleavings": nset("il"), "distinct_allocation_contexts": nset("ctx"), "distinct_contexts_refused": nset("fctx"), "distinct_outcomes": nset("outcome"),
           "measure": "interleaving = hash of all (thread, step, successor) switches; allocation context = hash of 8 return addresses; outcome = hash of (function, discretization, code, number of messages)",
           "determinism": {"plans_run_twice": s.twice, "plans_that_differed": len(s.nondet)}, "worker_processes": NW, "restarts_after_a_crash_in_simulated_code": s.resumes, "lost_simulators": s.crashes,
           "components_real": REAL, "components_stub": STUB, "violation_classes_seen": seen, "unconfirmed": len(unconfirmed), "known_findings": [k["desc"] for k in kn], "build_s": round(tb, 1), "search_s": round(search_s, 1)}
    try: cov["unseamed_imports"] = open(os.path.join(out, "audit.txt")).read().split("\n")[:20]
    except OSError: pass
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": viol,
          "assumptions": ["gcc/gfortran access instrumentation sees every load and store of the library's own code; precompiled libm and libgfortran helpers are not instrumented", "simulated threads are sequentially consistent (no weak-memory reordering)", "search is sampling: a quiet run is evidence, not proof"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%d plans, %d calls, %d steps, %d refused allocations, %d switches, %d distinct traces, %.0f s" % (st.get("runs", 0), st.get("ops", 0), st.get("steps", 0), st.get("refused", 0), st.get("switches", 0), nset("trace"), time.time() - t0))
    for l in lines: print(l)
    sys.stdout.flush(); return rc

if __name__ == "__main__": sys.exit(main())
