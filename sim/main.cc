/* Plans, execution, oracles, minimisation.  See DESIGN.md. */
#include "ops.h"
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <unistd.h>
#include <time.h>
#include <sys/personality.h>
#include <sys/wait.h>
using std::string; using std::vector;
typedef uint64_t u64;
extern "C" void ops_save_default(void);

/* ------------------------------------------------------------------ data */
struct Rng { u64 s; u64 next() { s += 0x9E3779B97F4A7C15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  int n(int k) { return k > 0 ? (int)(next() % (u64)k) : 0; } int r(int a, int b) { return a + n(b - a + 1); } bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
  template <class T> T pick(std::initializer_list<T> l) { return l.begin()[n((int)l.size())]; } };
struct TOp { OpSpec s; vector<RtFault> f; };
struct Plan { string prop; u64 id = 0, memseed = 1, entropy = 1, limit = 0; int memkind = 2, recycle = 0, align = 0, protect = 1, nth = 1; RtSched sch{}; vector<RtSwitch> list; int handler[8] = {1, 1, 1, 1, 1, 1, 1, 1}; vector<TOp> t[8]; };
struct Msg { int handler; string text; };
struct Res { OpRes r{}; vector<Msg> m; vector<RtViolation> v; };
struct Exec { vector<Res> t[8]; vector<RtSwitch> sw; u64 hash = 0, il = 0, steps = 0, shared = 0; vector<RtViolation> other; bool dirty = false; };
struct Finding { string cls, text; int tid, op; };

static u64 hmix(u64 h, u64 v) { return rt_mix(h, v); }
static u64 hbytes(const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; u64 h = 1469598103934665603ULL; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL; return h; }
static bool hard(int k) { return k != VK_ROWRITE; }
static bool has_hard(const Res &r) { for (auto &v : r.v) if (hard(v.kind)) return true; return false; }
static void freeres(Exec &e) { for (auto &t : e.t) for (auto &r : t) op_res_free(&r.r); }

/* ------------------------------------------------------------------ execution */
static Plan *XP; static Exec *XE;
static void thread_body(int tid, void *) {
  op_thread_init(XP->handler[tid]);
  auto &ops = XP->t[tid];
  for (size_t i = 0; i < ops.size(); i++) { op_run(&ops[i].s, (int)i, ops[i].f.data(), (int)ops[i].f.size(), XP->limit, XP->protect, &XE->t[tid][i].r); rt_set_op(-1); if (rt_dirty) break; }
}
static u64 tot_runs, tot_ops, tot_steps, tot_switches, tot_allocs, tot_refused, tot_shared; static u64 fk_fired[FK_NKINDS], fk_stderr; static std::set<u64> il_seen, ctx_alloc, ctx_fault, outcome_seen, trace_seen; static u64 nontrivial; static std::map<string, u64> kind_cnt; static string opname(const OpSpec &s);
static void execute(Plan &p, Exec &e, bool stats) {
  XP = &p; XE = &e; for (int i = 0; i < 8; i++) e.t[i].assign(i < p.nth ? p.t[i].size() : 0, Res());
  ops_reset(); rt_set_entropy(p.entropy); rt_begin_run(p.memseed, p.memkind, p.recycle, p.align);
  for (int i = 0; i < p.nth; i++) for (auto &o : p.t[i]) if (o.s.p[P_SHARE]) op_prepare_shared(&o.s);
  RtSched s = p.sch; s.list = p.list.data(); s.nlist = (int)p.list.size();
  rt_run_threads(p.nth, thread_body, nullptr, &s);
  const RtSwitch *sw; int n = rt_switches(&sw); e.sw.assign(sw, sw + n); e.il = rt_interleave_hash(); e.steps = rt_total_steps(); e.shared = rt_shared_points(); e.dirty = rt_dirty;
  const RtMsg *m; n = rt_messages(&m); for (int i = 0; i < n; i++) if (m[i].tid >= 0 && m[i].tid < p.nth && m[i].op >= 0 && m[i].op < (int)e.t[m[i].tid].size()) e.t[m[i].tid][m[i].op].m.push_back({m[i].handler, m[i].text});
  const RtViolation *v; n = rt_violations(&v); for (int i = 0; i < n; i++) if (v[i].tid >= 0 && v[i].tid < p.nth && v[i].op >= 0 && v[i].op < (int)e.t[v[i].tid].size()) e.t[v[i].tid][v[i].op].v.push_back(v[i]); else e.other.push_back(v[i]);
  u64 h = hmix(e.il, e.steps);
  for (int i = 0; i < p.nth; i++) for (auto &r : e.t[i]) { h = hmix(h, (u64)r.r.ret * 7 + r.r.done + 3 * r.r.aborted); h = hmix(h, hbytes(r.r.out, r.r.nout)); h = hmix(h, r.r.cs.steps); h = hmix(h, r.r.cs.allocs * 1000003 + r.r.cs.refused); for (auto &q : r.m) h = hmix(h, hbytes(q.text.data(), q.text.size()) + q.handler); for (auto &q : r.v) h = hmix(h, hbytes(q.text, strlen(q.text))); }
  e.hash = h;
  if (stats) {
    bool nt = p.memkind != 2 || p.recycle; u64 nops = 0; for (int i = 0; i < p.nth; i++) for (size_t j = 0; j < e.t[i].size(); j++) { nops++; const OpSpec &os = p.t[i][j].s; kind_cnt[opname(os)]++; if (e.t[i][j].r.cs.refused || os.p[P_MIS] || os.p[P_COR]) nt = true; } if (nops > 1 || (int)e.sw.size() > p.nth) nt = true; if (nt) trace_seen.insert(e.hash);
    tot_runs++; tot_steps += e.steps; tot_switches += e.sw.size(); tot_shared += e.shared; il_seen.insert(e.il);
    for (int i = 0; i < p.nth; i++) for (size_t j = 0; j < e.t[i].size(); j++) { auto &r = e.t[i][j].r; tot_ops++; tot_allocs += r.cs.allocs; tot_refused += r.cs.refused; if (r.cs.refused) nontrivial++; for (int k = 1; k < FK_NKINDS; k++) fk_fired[k] += r.cs.by_kind[k]; fk_stderr += r.cs.stderr_faults; for (int c = 0; c < r.nctx; c++) ctx_alloc.insert(r.ctx[c]); for (int c = 0; c < r.nfctx; c++) ctx_fault.insert(r.fctx[c]); outcome_seen.insert(hmix(hmix(p.t[i][j].s.kind * 64 + p.t[i][j].s.p[P_DISC], r.ret), e.t[i][j].m.size())); }
  }
}
/* reference: the same call alone in a fresh world */
static std::map<u64, Res> refs; static u64 REFLIM = 400000000ULL;
static u64 speckey(const OpSpec &s, const vector<RtFault> *f, int handler) { OpSpec c = s; c.p[P_SHARE] = 0; u64 h = hmix(c.kind, c.dseed); h = hmix(h, hbytes(c.p, sizeof c.p)); if (f) for (auto &x : *f) h = hmix(h, x.kind * 1000003ULL + x.a); return hmix(h, handler); }
static vector<TOp> ref_crash;                   /* reference calls that ended the (simulated) process while a plan was made */
static const Res &ref(const OpSpec &s, const vector<RtFault> *f = nullptr, int handler = 1) {
  u64 k = speckey(s, f, handler); auto it = refs.find(k); if (it != refs.end()) return it->second;
  if (refs.size() > 400) { for (auto &x : refs) op_res_free(&x.second.r); refs.clear(); }
  Plan p; p.limit = REFLIM; p.handler[0] = handler; p.memseed = 7; p.memkind = 2; p.entropy = 3; TOp o; o.s = s; o.s.p[P_SHARE] = 0; if (f) o.f = *f; p.t[0].push_back(o); p.sch.stall_tid = -1;
  bool was = rt_dirty; Exec e; execute(p, e, false); Res &r = refs[k]; if (rt_dirty && !was) ref_crash.push_back(o); r = e.t[0][0]; for (auto &v : e.other) r.v.push_back(v); return r;
}

/* ------------------------------------------------------------------ generation of calls */
#define DEG op_deg
#define MDEG op_mdeg
static int fitD(Rng &R, int maxN, int deg, int hi) { static const int DS[] = {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 48, 64, 100, 128, 129, 200, 256, 512}; int m = maxN / deg; if (m > hi) m = hi; int k = 0; while (k < 27 && DS[k] <= m) k++; if (k < 1) return 2; int lo = R.p(0.6) && k > 6 ? k / 2 : 0; return DS[lo + R.n(k - lo)]; }
static int pow2(Rng &R, int lo, int hi) { int v[16], n = 0; for (int x = 2; x <= hi; x *= 2) if (x >= lo) v[n++] = x; return v[R.n(n)]; }
enum { G_SMALL = 1, G_NOSLOW = 2, G_BS = 4, G_TRUNC = 8, G_CS = 16 };
static double PFPE = 0.04, PREG = 0.15;
static OpSpec gen(Rng &R, int kind, int fl) {
  OpSpec s; memset(&s, 0, sizeof s); int *p = s.p; s.kind = kind; s.dseed = R.next() % 100000; bool small = fl & G_SMALL; int NB = small ? 48 : 110;
  p[P_KAPPA] = R.p(0.7) ? 1 : -1; p[P_SIG] = R.p(0.85) ? R.n(7) : 3; p[P_NORM] = R.p(0.75); p[P_RICH] = R.p(0.3); p[P_OPTS] = R.p(0.65) ? 0 : R.p(0.65) ? 1 : 2; p[P_NITER] = R.pick({0, 1, 3, 10, 10, 20}); p[P_TOL] = R.p(0.6) ? 0 : R.n(4);
  p[P_M] = R.pick({1, 2, 3, 5, 8, 16, 17, 24}); bool many = R.p(0.08); if (many) p[P_M] = R.r(25, 140); p[P_OUT] = R.pick({1, 2, 3, 6, 7, 7, 7}); if (fl & G_BS) p[P_OUT] |= 2; if (fl & G_CS) p[P_OUT] |= 1; p[P_OSF] = 8; p[P_X2] = R.n(2); p[P_X3] = R.n(2); { int f = R.n(16), g = R.r(1, 7); bool a = R.p(PFPE), b = R.p(PREG); if (a) p[P_FPE] = f; if (b && kind <= OP_MANAKOVV) p[P_REG] = g; }
  switch (kind) {
    case OP_NSEV: {
      p[P_DISC] = R.p(0.6) ? R.pick({0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 11, 20, 21}) : R.n(28); p[P_DST] = R.n(3); p[P_CST] = R.n(3); p[P_FILT] = R.n(4); p[P_LOC] = R.n(3);
      if (p[P_OPTS]) { p[P_DISC] = 11; p[P_DST] = p[P_CST] = 0; p[P_LOC] = 2; p[P_FILT] = 2; p[P_RICH] = 0; p[P_NORM] = 1; }
      if (op_disc_slow(kind, p[P_DISC]) && p[P_LOC] == 0) p[P_LOC] = 1 + R.n(2);
      if (fl & G_NOSLOW) while (op_disc_slow(kind, p[P_DISC])) p[P_DISC] = R.n(22);
      int bs = p[P_OUT] & 2; int deg = DEG[p[P_DISC]];
      p[P_D] = fitD(R, bs && p[P_LOC] == 0 && p[P_KAPPA] == 1 ? NB : NB * 2, deg, small ? 32 : 129);
      if (bs && p[P_LOC] == 2 && op_disc_slow(kind, p[P_DISC]) && p[P_D] > 32) p[P_D] = 32;
      if (bs && p[P_LOC] == 2) { while (p[P_D] * deg > NB && p[P_D] > 4) p[P_D] /= 2; p[P_DSUB] = R.p(0.6) ? 0 : R.r(2, p[P_D]); if (p[P_D] < 4) p[P_DSUB] = 2; }
      int maxK = p[P_D] * deg; p[P_K] = p[P_LOC] == 1 ? R.r(1, 4) : R.p(0.5) ? maxK : R.r(1, maxK); if (fl & G_TRUNC && R.p(0.7)) p[P_K] = R.r(1, 3);
      break; }
    case OP_NSEVINV: {
      p[P_DISC] = R.p(0.8) ? 0 : R.pick({3, 0}); p[P_OSF] = R.pick({1, 2, 4, 8}); p[P_NITER] = R.pick({2, 8, 20, 100});
      p[P_D] = pow2(R, 2, small ? 32 : 64); p[P_M] = R.p(0.4) ? p[P_D] : R.p(0.25) ? p[P_D] * R.r(3, 6) + 2 * R.n(8) : p[P_D] + 2 * R.n(p[P_D]); p[P_CST] = R.n(3); p[P_DST] = R.pick({0, 2, 0}); if (p[P_DST] == 2) p[P_DST] = 1; p[P_OUT] = 1; p[P_LOC] = R.p(0.6) ? 0 : R.r(0, 3); p[P_K] = p[P_KAPPA] == 1 && R.p(0.5) ? R.r(1, 3) : 0;
      if (p[P_LOC] == 2) { p[P_KAPPA] = -1; p[P_K] = 0; p[P_M] = p[P_D]; p[P_CST] = 0; } if (p[P_LOC] == 3) { p[P_OUT] = 0; p[P_KAPPA] = 1; if (!p[P_K]) p[P_K] = R.r(1, 2); } if (p[P_CST] == 2) p[P_M] = p[P_D]; if (p[P_CST] == 1 || p[P_CST] == 2) { if (p[P_LOC] != 3) p[P_LOC] = 0; }
      if (R.p(0.15) && p[P_LOC] == 0) { p[P_OUT] = 0; p[P_KAPPA] = 1; if (!p[P_K]) p[P_K] = R.r(1, 3); }
      if (p[P_OPTS]) { p[P_DISC] = 0; p[P_CST] = 0; p[P_DST] = 0; p[P_LOC] = 0; p[P_OUT] = 1; } break; }
    case OP_NSEP: {
      p[P_LOC] = R.n(4); p[P_FILT] = R.n(3); p[P_DISC] = R.pick({0, 2, 3, 4, 5, 6, 9, 11, 11, 7, 8, 10, 15, 20, 21}); p[P_NITER] = R.pick({1, 5, 20}); p[P_DSUB] = R.p(0.6) ? 0 : pow2(R, 2, 16); p[P_X3] = R.n(4); p[P_X2] = R.p(0.6) ? 2 : R.r(1, 4); p[P_OUT] = R.pick({1, 2, 3, 3, 3});
      if (p[P_LOC] == 1) { p[P_DISC] = R.pick({1, 22}); } if (p[P_LOC] >= 2 && p[P_FILT] == 0) p[P_FILT] = R.r(1, 2);
      if (p[P_OPTS]) { p[P_LOC] = 3; p[P_FILT] = 2; p[P_DISC] = 11; p[P_X2] = 2; p[P_DSUB] = 0; }
      if ((p[P_OUT] & 3) == 2 && p[P_FILT]) p[P_OUT] = 3;
      int deg = DEG[p[P_DISC]]; p[P_D] = pow2(R, 4, small ? 8 : 16); while (p[P_D] * deg > NB && p[P_D] > 4) p[P_D] /= 2; if (p[P_LOC] == 1) p[P_D] = pow2(R, 2, 32); if (p[P_DSUB] > p[P_D]) p[P_DSUB] = 0;
      p[P_K] = p[P_LOC] == 1 ? R.r(1, 4) : R.p(0.4) ? 4 * p[P_D] * deg + 2 : R.r(1, 2 * p[P_D] + 1); p[P_M] = p[P_LOC] == 1 ? R.r(1, 4) : R.p(0.4) ? 2 * p[P_D] * deg : R.r(1, p[P_D] + 1); if (fl & G_TRUNC && R.p(0.7)) { p[P_K] = R.r(1, 6); p[P_M] = R.r(1, 4); }
      break; }
    case OP_KDVV: {
      p[P_LOC] = R.n(2); p[P_X1] = R.n(4); p[P_DST] = R.n(3); p[P_CST] = R.n(3); int d = R.p(0.6) ? R.pick({0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 20, 21}) : R.n(28); p[P_DISC] = d + (R.p(0.5) ? 28 : 0); if (fl & G_NOSLOW) while (op_disc_slow(kind, p[P_DISC])) p[P_DISC] = R.n(56);
      if (p[P_OPTS]) { d = 20; }
      p[P_D] = fitD(R, NB * 2, DEG[d] > 8 ? DEG[d] : 1, small ? 20 : 64); p[P_K] = p[P_LOC] == 0 && !p[P_OPTS] ? R.r(1, 3) : R.r(1, 8); if (fl & G_TRUNC && R.p(0.6)) { p[P_K] = R.r(1, 2); if (!p[P_OPTS]) p[P_LOC] = 1; } if (small && p[P_X1] == 2) p[P_X1] = 1;
      break; }
    case OP_MANAKOVV: {
      p[P_DISC] = R.n(13); p[P_LOC] = 0; p[P_FILT] = R.n(2); p[P_DST] = R.p(0.9) ? 1 : R.n(3); p[P_CST] = R.n(3);
      if (p[P_OPTS]) { p[P_DISC] = 3; p[P_CST] = 0; p[P_DST] = 0; } p[P_OUT] = R.pick({1, 1, 2, 3, 3}); if (fl & G_BS) p[P_OUT] |= 2;
      if (op_disc_slow(kind, p[P_DISC])) p[P_OUT] = 1; if (fl & G_NOSLOW && op_disc_slow(kind, p[P_DISC])) p[P_DISC] = R.n(11);
      int deg = MDEG[p[P_DISC]]; bool bs = p[P_OUT] & 2; p[P_D] = fitD(R, bs ? (small ? 32 : 56) : NB, deg, 32); if (p[P_D] < 2) p[P_D] = 2; if (bs && p[P_DISC] >= 5 && p[P_DISC] <= 10) p[P_DISC] = R.pick({0, 1, 2, 3, 6}), p[P_D] = R.r(2, 4);
      p[P_K] = R.p(0.5) ? 4 * p[P_D] * deg : R.r(1, 8); if (fl & G_TRUNC && R.p(0.7)) p[P_K] = R.r(1, 3); p[P_DSUB] = R.p(0.5) ? 0 : R.r(2, p[P_D]);
      break; }
    case OP_INVXI: p[P_D] = pow2(R, 2, 64); p[P_M] = R.r(2, 100); p[P_DISC] = R.pick({0, 0, 3, 11}); break;
    case OP_DEFAULTS: p[P_D] = R.r(2, 64); break;
    case OP_KERNEL: {
      int k = p[P_X1] = R.p(0.75) || kernel_count() < 26 ? R.n(std::min(25, kernel_count())) : 25 + R.n(kernel_count() - 25); p[P_K] = R.r(1, 3); p[P_D] = R.pick({2, 3, 4, 5, 7, 8, 12, 16}); if (k >= 25 && k < 28 && R.p(0.5)) p[P_D] = R.r(3, 40); if (k == 7 || k == 8 || k == 9) p[P_D] = R.r(1, 9); p[P_M] = R.r(1, 12); p[P_OSF] = R.pick({1, 2, 4});
      p[P_DISC] = k == 0 || k == 23 ? R.pick({0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 19, 20, 21}) : k == 1 ? R.n(11) : k == 2 || k == 3 || k == 16 || k == 24 ? R.pick({1, 22, 23, 24, 25, 26, 27}) : k == 4 ? R.pick({11, 12}) : k == 25 || k == 34 ? R.pick({0, 1, 3, 11, 20, 21, 22, 23, 24, 25, 26, 27}) : k == 26 || k == 35 ? R.pick({0, 1, 3, 11, 20, 21, 22, 23, 24, 25, 26, 27, 30, 50, 51, 52, 53, 54, 55}) : k == 27 ? R.n(13) : k == 28 || k == 29 ? R.n(28) : k == 30 || k == 31 ? R.n(56) : k == 32 || k == 33 ? R.n(11) : R.pick({0, 3}); if (k == 1) p[P_D] = 4; if ((k == 0 || k == 23) && DEG[p[P_DISC]] > 8) p[P_D] = 2 + R.n(3);
      break; }
    case OP_SETPRINTF: p[P_X1] = R.n(12); break;
    case OP_MEX: p[P_X1] = R.n(mex_count() ? mex_count() : 1); p[P_D] = R.pick({2, 3, 4, 8}); p[P_X2] = R.n(1 << 20); p[P_X3] = R.n(64); p[P_MIS] = R.p(0.3) ? R.r(1, 20) : 0; break;
  }
  if (many && (kind == OP_NSEV || kind == OP_KDVV || kind == OP_MANAKOVV) && R.p(0.6)) { p[P_D] = R.r(2, 5); if (p[P_DSUB] > p[P_D]) p[P_DSUB] = p[P_D]; if (p[P_D] < 4 && p[P_DSUB]) p[P_DSUB] = 2; }   /* many more frequencies than samples */
  return s;
}
static int pick_kind(Rng &R) { return R.pick({OP_NSEV, OP_NSEV, OP_NSEV, OP_KDVV, OP_KDVV, OP_MANAKOVV, OP_NSEP, OP_NSEP, OP_NSEVINV, OP_NSEVINV}); }
static OpSpec gen_any(Rng &R, int fl, double pk = 0) { return R.p(pk) ? gen(R, OP_KERNEL, fl) : gen(R, R.p(0.03) ? OP_INVXI : pick_kind(R), fl); }
static OpSpec gen_mis(Rng &R, int fl) { if (R.p(0.1)) { OpSpec s = gen(R, OP_KERNEL, fl); int n = kernel_nmis(s.p[P_X1]); if (n) { s.p[P_MIS] = 1 + R.n(n); return s; } } int k = R.p(0.05) ? OP_INVXI : R.p(0.02) ? OP_DEFAULTS : R.n(5); OpSpec s = gen(R, k, fl); s.p[P_MIS] = 1 + R.n(op_nmis(k)); if (k <= OP_MANAKOVV && k != OP_NSEVINV) { s.p[P_OUT] |= 3; }
  /* option values are judged only where the requested computation uses them */
  int m = s.p[P_MIS]; if ((k == OP_NSEV && m >= 11) || (k == OP_KDVV && m >= 9) || (k == OP_MANAKOVV && m >= 11)) { s.p[P_OUT] |= 7; s.p[P_KAPPA] = 1; s.p[P_REG] = 0; if (s.p[P_K] < 1) s.p[P_K] = 1; if (k == OP_KDVV) s.p[P_SIG] = 0; }
  return s; }
static OpSpec gen_abs(Rng &R, int fl) { OpSpec s; do s = gen(R, R.n(5), fl); while (s.p[P_OPTS] || s.p[P_REG]); s.p[P_ABS] = 1 + R.n(1000000); return s; }
static OpSpec gen_cor(Rng &R, int fl) { OpSpec s = gen(R, pick_kind(R), fl); s.p[P_COR] = 1 + R.n(1000000); if (s.kind == OP_KDVV && (s.p[P_LOC] == 1 || s.p[P_OPTS]) && op_cor_pattern(&s) >= 7) { s.p[P_OPTS] = 0; s.p[P_LOC] = 0; } return s; }

static vector<RtFault> rand_faults(Rng &R, const Res &rf) {
  vector<RtFault> f; int n = rf.r.nasz; if (!n) return f;
  /* every distinct calling context is equally likely, not every request */
  auto one = [&]() -> u64 {
    if (R.p(0.35)) return 1 + R.next() % n;
    std::map<u64, vector<int>> by; for (int i = 0; i < n; i++) by[rf.r.ctx[i]].push_back(i + 1);
    int k = R.n((int)by.size()); auto it = by.begin(); std::advance(it, k); auto &v = it->second; return R.p(0.4) ? v[0] : R.p(0.4) ? v.back() : v[R.n((int)v.size())]; };
  double x = (R.next() >> 11) * (1.0 / 9007199254740992.0);
  if (x < 0.55) f.push_back({FK_ONCE, one()});
  else if (x < 0.70) { f.push_back({FK_ONCE, one()}); f.push_back({FK_ONCE, one()}); if (R.p(0.3)) f.push_back({FK_ONCE, f[0].a + 1}); }
  else if (x < 0.82) f.push_back({FK_FROM, one()});
  else if (x < 0.90) f.push_back({FK_SIZE, (u64)rf.r.asz[R.n(n)] + (R.p(0.3) ? 1 : 0)});
  else if (x < 0.97) f.push_back({FK_BUDGET, (u64)(rf.r.cs.peak * (R.next() % 1000) / 1000)});
  else { int k = R.r(3, 20); for (int i = 0; i < k; i++) f.push_back({FK_ONCE, one()}); }
  return f;
}

/* ------------------------------------------------------------------ plans */
static void env(Rng &R, Plan &p) { p.memseed = R.next(); p.memkind = R.n(6); p.recycle = R.p(0.5); p.align = R.n(64); p.entropy = R.next(); p.handler[0] = 1; p.sch.stall_tid = -1; }
static void sched(Rng &R, Plan &p) {
  RtSched &s = p.sch; memset(&s, 0, sizeof s); s.mode = 1; s.seed = R.next(); s.stall_tid = -1;
  u64 hz = 1; for (int i = 0; i < p.nth; i++) { u64 t = 0; for (auto &o : p.t[i]) t += ref(o.s).r.cs.steps + 50; hz = std::max(hz, t); } s.horizon = hz;
  s.p_event = R.pick({0, 500, 3000, 15000, 40000}); s.p_static = R.pick({0, 6000, 30000, 60000}); s.p_shared = R.pick({0, 50, 800, 6000});
  switch (R.n(6)) {
    case 0: s.npreempt = R.r(1, 3); s.p_event = s.p_shared = 0; break;
    case 1: s.npreempt = R.r(5, 50); break;
    case 2: s.quantum = 1 + R.next() % (hz / 200 + 20); if (hz / s.quantum > 20000) s.quantum = hz / 20000 + 1; s.p_event = s.p_shared = 0; break;
    case 3: s.stall_tid = R.n(p.nth); s.stall_at = 1 + R.next() % hz; s.npreempt = R.n(4); break;
    case 4: s.p_static = 60000; break;
    default: s.npreempt = R.n(10);
  }
  if (hz > 3000000) { s.p_event = std::min<uint32_t>(s.p_event, 3000); s.p_shared = std::min<uint32_t>(s.p_shared, 300); }
}
static u64 limit_for(const Plan &p) { u64 m = 0; for (int i = 0; i < p.nth; i++) for (auto &o : p.t[i]) { OpSpec c = o.s; c.p[P_ABS] = 0; m = std::max(m, ref(c).r.cs.steps * (o.s.p[P_ABS] ? 10 : 1)); } return std::min<u64>(20 * m + 5000000, m >= REFLIM ? 2 * REFLIM : ~0ULL); }
/* a healthy call that does not come back or misuses memory even on its own: keep it, whatever it costs, so that the property judges it */
static bool broken(const Res &r) { return !r.r.refused_by_gen && (!r.r.done || has_hard(r)); }
static OpSpec cheap(Rng &R, int fl, double pk, u64 budget) { OpSpec s; for (int i = 0; i < 12; i++) { s = gen_any(R, fl, pk); const Res &r = ref(s); if (broken(r) || (r.r.cs.steps <= budget && !r.r.refused_by_gen)) break; } return s; }
static OpSpec cheapf(Rng &R, OpSpec (*g)(Rng &, int), int fl, u64 budget) { OpSpec s; for (int i = 0; i < 12; i++) { s = g(R, fl); const Res &r = ref(s); if (broken(r) || r.r.cs.steps <= budget) break; } return s; }
static u64 BUD = 1500000;
// An operation of the same sizes that differs in its data or in one or two other parameters: what a cache or a shared work buffer keyed on the rest would confuse.
static OpSpec sibling(Rng &R, const OpSpec &s, u64 budget) {
  static const int F[] = {P_KAPPA, P_LOC, P_FILT, P_DST, P_CST, P_NORM, P_RICH, P_NITER, P_DSUB, P_OUT, P_SIG, P_K, P_M, P_TOL, P_REG, P_DISC, P_X1, P_X2, P_X3, P_OSF, P_FPE}; const int nF = sizeof F / sizeof *F;
  if (s.kind == OP_MEX || s.kind > OP_KERNEL || s.p[P_MIS] || s.p[P_COR] || s.p[P_ABS]) return s;
  for (int i = 0; i < 8; i++) {
    OpSpec t = s, g = gen(R, s.kind, G_SMALL); bool same = s.kind == OP_KERNEL || s.kind == OP_DEFAULTS || s.kind == OP_INVXI; if (same || R.p(0.6)) t.dseed = g.dseed;
    if (!same) { int n = R.p(0.3) ? 0 : R.r(1, 2); for (int j = 0; j < n; j++) { int f = R.p(0.25) ? P_REG : F[R.n(nF)]; t.p[f] = f == P_REG ? R.n(8) : g.p[f]; } if (t.p[P_OPTS] && t.p[P_DISC] != s.p[P_DISC]) t.p[P_DISC] = s.p[P_DISC]; if (t.p[P_DSUB] > t.p[P_D]) t.p[P_DSUB] = 0; }
    const Res &r = ref(t); if (broken(r) || (r.r.cs.steps <= budget && !r.r.refused_by_gen)) return t;
  }
  return s;
}

static void plan_sweep(Rng &R, Plan &p) {       /* C01..C04 */
  bool c3 = p.prop == "C03", c4 = p.prop == "C04";
  p.nth = 1; OpSpec s = cheap(R, G_SMALL, 0.15, BUD), other = cheap(R, G_SMALL, 0.1, BUD); const Res rf = ref(s); const Res ro = ref(other);
  auto &t = p.t[0]; int n = rf.r.nasz; int cnt = (int)std::min<u64>(28, 3 + 12000000 / (rf.r.cs.steps + 20000));
  vector<vector<RtFault>> fs; if (n && n <= 20 && n <= cnt + 4) for (int i = 1; i <= n; i++) fs.push_back({{FK_ONCE, (u64)i}});
  while ((int)fs.size() < cnt && n) fs.push_back(rand_faults(R, rf));
  for (size_t i = fs.size(); i > 1; i--) std::swap(fs[i - 1], fs[R.n((int)i)]);
  if (!c4 && R.p(0.3)) t.push_back({s, {}});
  for (auto &f : fs) {
    t.push_back({s, f});
    if (R.p(c4 ? 0.35 : 0.06)) t.push_back({s, {}});
    if (R.p(c4 ? 0.12 : 0.04)) t.push_back({other, R.p(0.5) ? rand_faults(R, ro) : vector<RtFault>()});
    if (R.p(c3 ? 0.35 : c4 ? 0.12 : 0.02)) { OpSpec m = gen_mis(R, G_SMALL); t.push_back({m, {}}); }
    if (c4 && R.p(0.06)) t.push_back({cheapf(R, gen_cor, G_SMALL, BUD), {}});
    if (c3 && R.p(0.25)) t.push_back({cheapf(R, gen_cor, G_SMALL, BUD), {}});
    if (c3 && R.p(0.1)) { OpSpec c = cheapf(R, gen_cor, G_SMALL, BUD); const Res rc = ref(c); t.push_back({c, rand_faults(R, rc)}); }
  }
  t.push_back({s, {}}); if (c4) { t.push_back({other, {}}); t.push_back({s, {}}); }
  p.limit = limit_for(p);
}
/* C18: is the value at one frequency well-conditioned, so that it can be compared between two frequency grids? Not so in the defocusing case (a(xi) is
 * tiny against the coefficients of its polynomial) and for the splittings with large coefficients. */
static bool grid_ok(const OpSpec &s) {
  if (s.kind == OP_MANAKOVV) return s.p[P_KAPPA] == 1; if (s.kind != OP_KDVV && (s.kind != OP_NSEV || s.p[P_KAPPA] != 1)) return false;
  if (s.p[P_OPTS]) return true; int d = s.p[P_DISC] % 28; for (int b : {6, 9, 10, 14, 15, 18, 19, 20, 21}) if (d == b) return false; return true;
}
/* C20: the calls' arrays are filled with not-a-numbers beforehand */
static void plan_full(Rng &R, Plan &p) {
  if (R.p(0.15)) {   /* bound states with the discretizations of high degree: expensive, hence alone */
    p.nth = 1; p.handler[0] = 1; for (int k = 0; k < 12; k++) { TOp o; o.s = gen(R, OP_NSEV, G_SMALL); auto *q = o.s.p; if (q[P_OPTS] && R.p(0.8)) continue; q[P_GARB] = 1; q[P_KAPPA] = 1; q[P_OUT] |= 2; q[P_D] = R.r(3, 7); q[P_LOC] = R.p(0.8) ? 2 : 0; if (!q[P_OPTS]) q[P_DISC] = R.pick({12, 13, 14, 15, 18, 19, 17, 10}); q[P_K] = 400; q[P_DSUB] = 0; q[P_REG] = R.pick({0, 0, 2, 7}); const Res &r = ref(o.s); if (broken(r) || (r.r.cs.steps <= 8 * BUD && !r.r.refused_by_gen)) { p.t[0].push_back(o); if (R.p(0.3)) p.t[0].push_back({o.s, rand_faults(R, r)}); break; } }
    if (p.t[0].size()) { p.limit = limit_for(p); sched(R, p); return; } }
  p.nth = R.p(0.8) ? 1 : R.r(2, 3); u64 b = p.nth == 1 ? BUD : 500000;
  for (int j = 0; j < p.nth; j++) { p.handler[j] = 1; int n = R.r(3, 8);
    for (int i = 0; i < n; i++) { TOp o; if (R.p(0.06)) { o.s = gen_mis(R, G_SMALL); p.t[j].push_back(o); continue; }
      for (int k = 0; k < 12; k++) { o.s = gen_any(R, (R.p(0.6) ? G_SMALL : 0) | (R.p(0.2) ? G_TRUNC : 0)); o.s.p[P_GARB] = 1; if (R.p(0.1)) o.s.p[P_M] = o.s.kind == OP_NSEVINV ? o.s.p[P_M] : R.pick({1, 1, 2}); if ((o.s.kind == OP_NSEV || o.s.kind == OP_KDVV || o.s.kind == OP_MANAKOVV) && R.p(0.3)) { auto *q = o.s.p; q[P_D] = R.r(3, 9); if (R.p(0.7)) q[P_REG] = 2; if (R.p(0.6)) q[P_OUT] |= 2; if (o.s.kind == OP_NSEV && R.p(0.6)) { q[P_KAPPA] = 1; q[P_LOC] = 2; q[P_DSUB] = 0; q[P_NITER] = 20; if (!q[P_OPTS]) q[P_DISC] = R.n(22); } } const Res &r = ref(o.s); if (broken(r) || (r.r.cs.steps <= b && !r.r.refused_by_gen)) break; }
      p.t[j].push_back(o); if (R.p(0.25)) { const Res r = ref(o.s); int m = R.r(1, 3); for (int k = 0; k < m; k++) p.t[j].push_back({o.s, rand_faults(R, r)}); } } }
  p.limit = limit_for(p); sched(R, p);
}
static void plan_mix(Rng &R, Plan &p) {         /* C05, C06, C12, C13: single thread, healthy / misuse / faulted / corrupted / truncating calls */
  p.nth = 1; auto &t = p.t[0]; bool c6 = p.prop == "C06"; int n = R.r(4, 9);
  for (int i = 0; i < n; i++) {
    double x = R.n(1000) / 1000.0; int fl = (R.p(0.5) ? G_SMALL : 0) | (c6 || R.p(0.4) ? G_TRUNC : 0);
    if (c6) {
      OpSpec s = cheap(R, fl | G_BS, 0.1, BUD * 2); t.push_back({s, {}});
      if (R.p(0.5) && (s.kind == OP_NSEV || s.kind == OP_MANAKOVV || s.kind == OP_KDVV)) { for (int k = 0; k < 2; k++) { OpSpec c = s; c.p[P_K] = R.r(1, 6); if (R.p(0.2)) c.p[P_K] = 0; t.push_back({c, {}}); } }
      if (R.p(0.2)) { OpSpec c = s; c.p[P_OUT] = R.r(1, 7); t.push_back({c, {}}); }
    } else if (x < 0.35) t.push_back({cheap(R, fl, 0.1, BUD), {}});
    else if (x < 0.65) { OpSpec s = cheap(R, fl, 0.1, BUD); const Res r = ref(s); t.push_back({s, rand_faults(R, r)}); if (R.p(0.5)) t.push_back({s, rand_faults(R, r)}); }
    else if (x < 0.69 && p.prop != "C06") t.push_back({gen_abs(R, G_SMALL), {}});
    else if (x < 0.85) t.push_back({gen_mis(R, fl), {}});
    else { OpSpec s = cheapf(R, gen_cor, fl, BUD * 4); t.push_back({s, {}}); }
    if (p.prop == "C13" && R.p(0.1)) t.push_back({gen(R, OP_DEFAULTS, 0), {}});
  }
  if (p.prop == "C13" && R.p(0.2)) p.handler[0] = R.pick({-1, 0, 2});
  p.limit = limit_for(p);
}
/* a few plans with hundreds to thousands of samples: thresholds, counters and buffers that small inputs never reach */
static OpSpec gen_big(Rng &R) {
  OpSpec s;
  for (int tries = 0; tries < 8; tries++) {
    int k = R.pick({OP_NSEV, OP_NSEV, OP_KDVV, OP_MANAKOVV, OP_NSEVINV, OP_NSEP}); s = gen(R, k, G_NOSLOW); int *p = s.p; p[P_OPTS] = 0; p[P_REG] = R.p(0.2) ? R.r(1, 7) : 0;
    if (k == OP_NSEP) { p[P_LOC] = R.n(2); p[P_FILT] = p[P_LOC] == 0 ? R.r(1, 2) : R.n(3); p[P_D] = R.pick({64, 128, 256, 512}); if (p[P_LOC] == 1) { p[P_DISC] = R.pick({1, 22}); p[P_K] = p[P_M] = R.r(1, 3); p[P_NITER] = 3; } else { p[P_DISC] = R.pick({0, 3, 11}); p[P_DSUB] = R.pick({4, 8, 16}); p[P_K] = R.pick({3, 200, 4000}); p[P_M] = R.pick({2, 100, 2000}); p[P_NITER] = 3; } }
    else if (k == OP_NSEVINV) { p[P_D] = R.pick({128, 256, 512, 1024, 2048}); p[P_M] = R.p(0.5) ? p[P_D] : p[P_D] + 2 * R.n(p[P_D]); if (p[P_CST] == 2) p[P_M] = p[P_D]; if (p[P_LOC] == 2) p[P_M] = p[P_D]; if (p[P_NITER] > 8) p[P_NITER] = 8; }
    else {
      p[P_D] = R.pick({200, 256, 300, 511, 512, 777, 1000, 1024, 1500, 2048, 4096}); int dg = k == OP_MANAKOVV ? MDEG[p[P_DISC]] : DEG[p[P_DISC] % 28]; while (p[P_D] * dg > (k == OP_NSEV ? 8192 : 2100) && p[P_D] > 128) p[P_D] /= 2;
      p[P_M] = R.pick({1, 17, 64, 200, 500, 1000, 1025}); p[P_OUT] = 1;
      if (k == OP_NSEV && R.p(0.4)) { p[P_OUT] = 7; p[P_KAPPA] = 1; if (R.p(0.5)) { p[P_LOC] = 2; p[P_DSUB] = R.pick({0, 8, 24, 40}); p[P_K] = R.pick({1, 3, 500}); } else { p[P_LOC] = 1; p[P_K] = R.r(1, 4); } if (p[P_D] > 1024) p[P_D] = 1024; }
      if (k == OP_KDVV && R.p(0.4)) { p[P_OUT] = 7; p[P_KAPPA] = 1; p[P_X1] = 3; p[P_K] = R.r(1, 12); if (p[P_NITER] > 3) p[P_NITER] = 3; } }
    const Res &r = ref(s); if (broken(r) || (!r.r.refused_by_gen && r.r.cs.steps < 120000000)) return s;
  }
  return s;
}
static void plan_big(Rng &R, Plan &p) {
  OpSpec s = gen_big(R); const Res r = ref(s); bool conc = p.prop == "C07"; p.nth = conc ? 2 : 1; OpSpec h = cheap(R, G_SMALL, 0, 300000);
  for (int i = 0; i < p.nth; i++) { auto &t = p.t[i]; if (conc) s.p[P_SHARE] = R.p(0.8); t.push_back({s, {}}); int nf = r.r.cs.steps < 20000000 ? 4 : 1; for (int j = 0; j < nf && !conc; j++) t.push_back({s, rand_faults(R, r)}); t.push_back({h, {}}); if (!conc && (p.prop == "C04" || p.prop == "C11")) t.push_back({s, {}}); if (conc && R.p(0.5)) t.push_back({s, {}}); }
  p.limit = limit_for(p); if (conc) { p.protect = 1; sched(R, p); }
}
static void plan_conc(Rng &R, Plan &p) {        /* C07 */
  p.nth = R.p(0.5) ? 2 : R.r(2, 5); vector<OpSpec> pool; int np = R.r(1, 3); u64 b = 800000;
  for (int i = 0; i < np; i++) { OpSpec s = cheap(R, G_SMALL, 0.05, b); s.p[P_SHARE] = R.p(0.8) && s.kind <= OP_INVXI; if (s.kind <= OP_MANAKOVV && R.p(0.35)) { OpSpec d = s; d.p[P_OPTS] = 1; if (ref(d).r.cs.steps <= b && ref(d).r.done) s = d; } pool.push_back(s); }
  if (R.p(0.5)) { OpSpec q = sibling(R, pool[R.n(np)], b); pool.push_back(q); np++; }
  for (int i = 0; i < p.nth; i++) {
    int n = R.r(1, 4); for (int j = 0; j < n; j++) {
      TOp o; if (R.p(0.8)) o.s = pool[R.n(np)]; else o.s = cheap(R, G_SMALL, 0.05, b);
      if (R.p(0.08)) o.s = gen_mis(R, G_SMALL); if (R.p(0.05)) o.s = gen(R, OP_DEFAULTS, 0);
      if (R.p(0.25)) { const Res r = ref(o.s); o.f = rand_faults(R, r); }
      p.t[i].push_back(o); }
    p.handler[i] = R.p(0.85) ? 1 : R.pick({2, 10, 11}); }
  p.limit = limit_for(p); p.protect = 1; sched(R, p);
}
static void plan_defaults(Rng &R, Plan &p) {    /* C08 */
  p.nth = R.p(0.4) ? 1 : R.r(2, 4); u64 b = 800000;
  for (int i = 0; i < p.nth; i++) { int n = R.r(3, 7); for (int j = 0; j < n; j++) { TOp o; double x = R.n(1000) / 1000.0;
      if (x < 0.35) o.s = gen(R, OP_DEFAULTS, 0);
      else { o.s = cheap(R, G_SMALL, 0, b); if (o.s.kind <= OP_MANAKOVV && R.p(0.75)) { OpSpec d = o.s; d.p[P_OPTS] = 1 + R.n(2); if (ref(d).r.cs.steps <= 4 * b) o.s = d; }
        if (x > 0.8) { const Res r = ref(o.s); o.f = rand_faults(R, r); } if (x > 0.94) o.s = gen_mis(R, G_SMALL), o.f.clear(); }
      p.t[i].push_back(o); } p.t[i].push_back({gen(R, OP_DEFAULTS, 0), {}}); p.handler[i] = R.p(0.9) ? 1 : 8; }
  p.limit = limit_for(p); sched(R, p);
}
static void plan_handlers(Rng &R, Plan &p) {    /* C09 */
  p.nth = R.p(0.25) ? 1 : R.r(2, 5); u64 b = 300000;
  for (int i = 0; i < p.nth; i++) { p.handler[i] = R.p(0.4) ? -1 : R.pick({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}); int n = R.r(2, 8);
    for (int j = 0; j < n; j++) { TOp o; double x = R.n(1000) / 1000.0;
      if (x < 0.25) { o.s = gen(R, OP_SETPRINTF, 0); if (R.p(0.15)) o.s.p[P_X1] = 100; } else if (x < 0.4) o.s = gen(R, OP_GETPRINTF, 0);
      else if (x < 0.75) o.s = gen_mis(R, G_SMALL); else { o.s = cheap(R, G_SMALL | G_TRUNC, 0, b); if (R.p(0.4)) { const Res r = ref(o.s); o.f = rand_faults(R, r); } }
      p.t[i].push_back(o); } if (R.p(0.5)) p.t[i].push_back({gen(R, OP_GETPRINTF, 0), {}}); }
  p.limit = limit_for(p); sched(R, p);
}
static void plan_diag(Rng &R, Plan &p) {        /* C10 */
  p.nth = 1; auto &t = p.t[0]; int n = R.r(4, 10); p.handler[0] = -1;
  for (int i = 0; i < n; i++) { TOp o; OpSpec h = gen(R, OP_SETPRINTF, 0); bool dflt = R.p(0.2); if (dflt) h.p[P_X1] = 100; t.push_back({h, {}});
    double x = R.n(1000) / 1000.0; if (x < 0.35) o.s = gen_mis(R, G_SMALL); else o.s = cheap(R, G_SMALL | (R.p(0.6) ? G_TRUNC : 0), 0.05, BUD);
    if (x > 0.6) { const Res r = ref(o.s); o.f = rand_faults(R, r); } if (dflt) o.f.push_back({FK_STDERR, 0}); t.push_back(o); }
  p.limit = limit_for(p);
}
static void plan_func(Rng &R, Plan &p) {        /* C11 */
  p.nth = 1; auto &t = p.t[0]; int n = R.r(1, 4); vector<OpSpec> S; for (int i = 0; i < n; i++) { OpSpec s = R.p(0.12) ? cheapf(R, gen_cor, 0, BUD * 4) : R.p(0.06) ? gen_mis(R, 0) : cheap(R, R.p(0.5) ? G_SMALL | G_TRUNC : 0, 0.15, BUD * 2); S.push_back(s); }
  if (R.p(0.6)) { int m = R.r(1, 2); for (int i = 0; i < m; i++) S.push_back(sibling(R, S[R.n(n)], BUD * 2)); n = (int)S.size(); }
  for (int i = 0; i < 2 * n; i++) { t.push_back({S[R.n(n)], {}}); if (R.p(0.2)) { const Res r = ref(S[0]); t.push_back({S[0], rand_faults(R, r)}); } if (R.p(0.3)) t.push_back({gen_any(R, G_SMALL, 0.1), {}}); }
  for (auto &s : S) t.push_back({s, {}}); p.limit = limit_for(p);
}
static void plan_misuse(Rng &R, Plan &p) {      /* C14 */
  p.nth = R.p(0.8) ? 1 : 2; for (int i = 0; i < p.nth; i++) { int n = R.r(5, 14); OpSpec h = cheap(R, G_SMALL, 0, 400000); for (int j = 0; j < n; j++) { if (R.p(0.25)) p.t[i].push_back({h, {}}); p.t[i].push_back({p.nth == 1 && R.p(0.25) ? gen_abs(R, G_SMALL) : gen_mis(R, G_SMALL), {}}); } p.t[i].push_back({h, {}}); }
  p.limit = limit_for(p); sched(R, p);
}
/* C18: the same calls, asking for more or less of what the function can compute */
static bool can_ask(const OpSpec &s) { return (s.kind == OP_NSEV || s.kind == OP_KDVV || s.kind == OP_MANAKOVV || s.kind == OP_NSEP) && !s.p[P_MIS]; }
static OpSpec ask_all(const OpSpec &b) {
  OpSpec s = b; int *p = s.p; p[P_OUT] = s.kind == OP_NSEP || s.kind == OP_MANAKOVV ? 3 : 7; if (s.kind == OP_MANAKOVV && op_disc_slow(s.kind, p[P_DISC]) && !p[P_OPTS]) p[P_OUT] = 1;
  if (s.kind == OP_NSEP) return s; if (!p[P_OPTS]) { p[P_CST] = 2; if (s.kind != OP_MANAKOVV) p[P_DST] = 2; } return s;
}
static OpSpec cs_only(const OpSpec &b) { OpSpec s = b; int *p = s.p; p[P_SHARE] = 0; p[P_OUT] = 1; p[P_CST] = 2; p[P_DST] = s.kind == OP_MANAKOVV ? 1 : 0; p[P_K] = 1; p[P_LOC] = s.kind == OP_NSEV ? 2 : 0; p[P_FILT] = 0; p[P_NITER] = 10; p[P_TOL] = 0; p[P_DSUB] = 0; if (s.kind == OP_KDVV) p[P_X1] = 3; return s; }
static OpSpec ask_part(Rng &R, const OpSpec &b) {
  OpSpec s = b; int *p = s.p; p[P_OUT] = s.kind == OP_NSEP ? (p[P_FILT] || p[P_OPTS] ? R.pick({1, 3}) : R.n(3) + 1) : R.pick({1, 2, 3, 6, 7}); if (s.kind == OP_MANAKOVV) { p[P_OUT] &= 3; if (op_disc_slow(s.kind, p[P_DISC]) && !p[P_OPTS]) p[P_OUT] = 1; }
  if (!p[P_OPTS] && s.kind != OP_NSEP) { p[P_CST] = R.n(3); if (s.kind != OP_MANAKOVV) p[P_DST] = R.n(3); } return s;
}
static OpSpec all_of(const OpSpec &b) { OpSpec s = can_ask(b) ? ask_all(b) : b; s.p[P_SHARE] = 0; return s; }
static void plan_ask(Rng &R, Plan &p) {
  p.nth = R.p(0.75) ? 1 : R.r(2, 3); OpSpec S[3]; int n = R.r(1, 3); u64 b = p.nth == 1 ? 2000000 : 500000, lim = 0;
  for (int i = 0; i < n; i++) { for (int k = 0; k < 12; k++) { S[i] = gen(R, R.pick({OP_NSEV, OP_NSEV, OP_NSEV, OP_KDVV, OP_KDVV, OP_MANAKOVV, OP_MANAKOVV, OP_NSEP}), R.p(0.7) ? G_SMALL | (R.p(0.3) ? G_TRUNC : 0) : 0); if (R.p(0.3)) S[i].p[P_RICH] = 1; if (!can_ask(S[i])) continue; const Res &f = ref(all_of(S[i])); if (broken(f) || (!f.r.refused_by_gen && f.r.cs.steps <= b)) break; } if (R.p(0.5)) S[i].p[P_SHARE] = 1; }
  for (int j = 0; j < p.nth; j++) { p.handler[j] = 1; int m = R.r(4, 9); for (int k = 0; k < m; k++) { TOp o; o.s = can_ask(S[k % n]) ? ask_part(R, S[k % n]) : S[k % n]; if (R.p(0.15)) { const Res r = ref(o.s); o.f = rand_faults(R, r); } if (R.p(0.06)) { o.s = gen_mis(R, G_SMALL); o.f.clear(); } p.t[j].push_back(o); } }
  for (int i = 0; i < n; i++) lim = std::max<u64>(lim, ref(all_of(S[i])).r.cs.steps); p.limit = std::min<u64>(20 * lim + 100000000, 2 * REFLIM); sched(R, p);
}
static void plan_corrupt(Rng &R, Plan &p) {     /* C17 */
  p.nth = 1; auto &t = p.t[0]; int n = R.r(3, 7); OpSpec h = cheap(R, G_SMALL, 0, 600000);
  for (int i = 0; i < n; i++) { OpSpec s, c; for (int k = 0; k < 8; k++) { c = gen_cor(R, R.p(0.5) ? G_SMALL : 0); s = c; s.p[P_COR] = 0; if (ref(s).r.cs.steps < BUD) break; } t.push_back({c, {}}); if (R.p(0.4)) t.push_back({h, {}}); }
  t.push_back({h, {}}); p.limit = 0; for (auto &o : t) { OpSpec c = o.s; c.p[P_COR] = 0; p.limit = std::max<u64>(p.limit, ref(c).r.cs.steps); } p.limit = 200 * p.limit + 5000000;
}
static void plan_mex(Rng &R, Plan &p) {         /* C16 */
  p.nth = 1; auto &t = p.t[0]; p.handler[0] = -1; int n = R.r(2, 6);
  for (int i = 0; i < n; i++) { OpSpec s = gen(R, OP_MEX, 0); for (int k = 0; k < 10 && ref(s).r.cs.steps > BUD; k++) s = gen(R, OP_MEX, 0); const Res r = ref(s); t.push_back({s, {}}); int k = R.n(5); for (int j = 0; j < k; j++) t.push_back({s, rand_faults(R, r)}); t.push_back({s, {}}); }
  p.limit = limit_for(p);
}
/* C15: work as a function of the number of samples; faulted calls against the clean call */
static OpSpec work_spec(Rng &R, int &mode) {
  OpSpec s; mode = R.n(8);
  if (mode <= 2) { s = gen(R, R.pick({OP_NSEV, OP_KDVV, OP_MANAKOVV}), G_NOSLOW); s.p[P_OPTS] = 0; s.p[P_OUT] = 1; s.p[P_D] = 16; if (s.kind == OP_NSEV && DEG[s.p[P_DISC]] > 30) s.p[P_DISC] = 11; if (s.kind == OP_KDVV && DEG[s.p[P_DISC] % 28] > 30) s.p[P_DISC] = 20; s.p[P_M] = s.p[P_D]; }
  else if (mode == 3) { s = gen(R, OP_NSEVINV, 0); s.p[P_D] = 16; s.p[P_M] = s.p[P_LOC] == 2 ? 16 : R.pick({16, 32}); s.p[P_K] = 0; s.p[P_OUT] = 1; if (s.p[P_LOC] >= 2) s.p[P_LOC] = 0; if (s.p[P_CST] == 2) s.p[P_M] = 16; }
  else if (mode == 4) { s = gen(R, R.pick({OP_NSEV, OP_KDVV, OP_MANAKOVV}), 0); s.p[P_OPTS] = 0; s.p[P_OUT] = 1; s.p[P_D] = 16; s.p[P_DISC] = s.kind == OP_MANAKOVV ? R.pick({11, 12}) : R.pick({1, 22, 23, 24, 25, 26, 27}); s.p[P_M] = 16; }
  else if (mode == 5) { s = gen(R, R.pick({OP_NSEV, OP_NSEV, OP_KDVV, OP_MANAKOVV}), G_NOSLOW); s.p[P_OPTS] = 0; s.p[P_OUT] = 2; s.p[P_KAPPA] = 1; s.p[P_RICH] = 0; s.p[P_D] = 8; if (s.kind == OP_NSEV) { s.p[P_LOC] = R.pick({0, 0, 2}); s.p[P_DISC] = R.pick({0, 2, 3, 4, 5, 6, 9, 11, 21}); s.p[P_DSUB] = 0; s.p[P_K] = 8 * 4 * DEG[s.p[P_DISC]]; s.p[P_NITER] = 3; } else if (s.kind == OP_MANAKOVV) { s.p[P_DISC] = R.pick({3, 0}); s.p[P_D] = 4; s.p[P_K] = 400; } else { s.p[P_LOC] = 1; s.p[P_X1] = 3; s.p[P_K] = 8; } }
  else s = gen_any(R, G_SMALL, 0.1);
  return s;
}
static void scale(OpSpec &s, int mode, int f) { s.p[P_D] *= f; if (mode <= 4) s.p[P_M] *= f; if (mode == 5 && s.kind == OP_NSEV) s.p[P_K] *= f; }
static void plan_work(Rng &R, Plan &p) {
  p.nth = 1; auto &t = p.t[0]; int mode; OpSpec s;
  for (int k = 0; k < 10; k++) { s = work_spec(R, mode); if (mode >= 6 && !broken(ref(s)) && ref(s).r.cs.steps > BUD) continue; break; }
  if (mode <= 5) { OpSpec a = s, b = s; int f = mode == 5 ? 2 : R.pick({1, 2}); scale(a, mode, f); b = a; scale(b, mode, mode == 5 ? 2 : 4); if (mode <= 2 && R.p(0.4)) { int d = R.pick({-1, 1, 3}); a.p[P_D] += d; b.p[P_D] += d; }
    if (mode <= 2 && R.p(0.6)) { b.p[P_M] += R.pick({1, 3, 7, 13}); } t.push_back({a, {}}); t.push_back({b, {}}); p.limit = 600000000; }
  else { const Res r = ref(s); t.push_back({s, {}}); for (int i = 0; i < 14; i++) t.push_back({s, rand_faults(R, r)}); p.limit = 20 * r.r.cs.steps + 5000000; if (R.p(0.5)) { OpSpec c = gen_cor(R, G_SMALL), d = c; d.p[P_COR] = 0; t.push_back({c, {}}); p.limit = std::max<u64>(p.limit, 200 * ref(d).r.cs.steps + 5000000); } }
  p.entropy = (u64)mode;
}
/* C19: memory and stack as a function of the number of samples; faulted calls against the clean call */
static void plan_foot(Rng &R, Plan &p) {
  p.nth = 1; auto &t = p.t[0]; int mode; OpSpec s; bool np = R.p(0.15);
  for (int k = 0; k < 10; k++) { s = work_spec(R, mode); if (mode >= 6 && !broken(ref(s)) && ref(s).r.cs.steps > BUD) continue; break; }
  if (np) { mode = 8; s = gen(R, OP_NSEP, 0); s.p[P_OPTS] = 0; s.p[P_LOC] = R.pick({0, 2, 2, 3}); if (op_disc_slow(OP_NSEP, s.p[P_DISC])) s.p[P_DISC] = 11; if (s.p[P_FILT] == 0 && s.p[P_LOC] >= 2) s.p[P_FILT] = 2; if (s.p[P_FILT]) s.p[P_OUT] |= 1; s.p[P_D] = 8; s.p[P_DSUB] = 0; s.p[P_K] = 8 * 4 * DEG[s.p[P_DISC]]; s.p[P_M] = 4 * s.p[P_K]; s.p[P_NITER] = 2; }
  if (mode <= 5 || mode == 8) { OpSpec a = s, b = s; bool q = mode == 5 || mode == 8; if (mode == 3 && R.p(0.4)) a.p[P_KAPPA] = 1, a.p[P_K] = R.r(1, 3), a.p[P_M] = 32, a.p[P_LOC] = 0, a.p[P_CST] = 0; int f = q ? R.pick({1, 2}) : mode == 4 ? R.pick({1, 2, 4}) : DEG[s.p[P_DISC] % 28] > 8 ? R.pick({1, 2}) : R.pick({1, 2, 4, 8}); auto sc = [&](OpSpec &x, int g) { if (mode == 8) { x.p[P_D] *= g; x.p[P_K] *= g; x.p[P_M] *= g; } else scale(x, mode, g); };
    sc(a, f); b = a; sc(b, mode == 5 ? 2 : 4); if (mode <= 2 && R.p(0.4)) { int d = R.pick({-1, 1, 3}); a.p[P_D] += d; b.p[P_D] += d; } if (mode <= 2 && R.p(0.6)) b.p[P_M] += R.pick({1, 3, 7, 13}); t.push_back({a, {}}); t.push_back({b, {}}); p.limit = 600000000; }
  else { const Res r = ref(s); t.push_back({s, {}}); for (int i = 0; i < 10; i++) t.push_back({s, rand_faults(R, r)}); if (R.p(0.5)) t.push_back({gen_mis(R, G_SMALL), {}}); p.limit = 20 * r.r.cs.steps + 50000000; }
  p.entropy = (u64)mode;
}
static Plan make_plan(const string &prop, u64 seed, u64 i) {
  Plan p; p.prop = prop; p.id = i; Rng R{rt_mix(rt_mix(seed, hbytes(prop.data(), prop.size())), i)}; env(R, p); PFPE = prop == "C13" ? 0.3 : 0.04; PREG = prop == "C15" || prop == "C16" || prop == "C19" ? 0 : 0.15;
  static const char BIG[] = "C01 C02 C03 C04 C05 C06 C07 C11 C12 C13";
  if ((i % 61 == 5 || getenv("SIM_BIG")) && strstr(BIG, prop.c_str())) plan_big(R, p);
  else if (prop == "C01" || prop == "C02" || prop == "C03" || prop == "C04") plan_sweep(R, p);
  else if (prop == "C07") plan_conc(R, p); else if (prop == "C08") plan_defaults(R, p); else if (prop == "C09") plan_handlers(R, p); else if (prop == "C10") plan_diag(R, p); else if (prop == "C11") plan_func(R, p);
  else if (prop == "C14") plan_misuse(R, p); else if (prop == "C15") plan_work(R, p); else if (prop == "C16") plan_mex(R, p); else if (prop == "C17") plan_corrupt(R, p); else if (prop == "C18") plan_ask(R, p); else if (prop == "C19") plan_foot(R, p); else if (prop == "C20") plan_full(R, p); else plan_mix(R, p);
  /* a call that does not return even on its own: no need to wait long for it */
  if (p.limit > 2 * REFLIM) for (int k = 0; k < p.nth; k++) for (auto &o : p.t[k]) { OpSpec c = o.s; c.p[P_COR] = c.p[P_ABS] = 0; if (!ref(c).r.refused_by_gen && !ref(c).r.done) p.limit = 2 * REFLIM; }
  /* a call that ends the process even on its own: nothing else can be learned from this plan, but the property judges that call */
  if (!ref_crash.empty()) { p.nth = 1; for (auto &v : p.t) v.clear(); p.t[0] = ref_crash; p.t[0].resize(1); ref_crash.clear(); p.limit = REFLIM; p.sch = Plan().sch; p.sch.stall_tid = -1; p.list.clear(); p.handler[0] = 1; }
  return p;
}

/* ------------------------------------------------------------------ oracles */
static string fmt(const char *f, ...) { char b[1200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static string opname(const OpSpec &s) { if (s.kind == OP_KERNEL) return string("fnft__") + kernel_name(s.p[P_X1]); if (s.kind == OP_MEX) return mex_name(s.p[P_X1]); const char *n = op_fn_name(&s); return *n ? n : op_kind_name(s.kind); }
static bool same_out(const OpRes &a, const OpRes &b) {
  if (a.nout != b.nout) return false; if (!memcmp(a.out ? (void *)a.out : (void *)"", b.out ? (void *)b.out : (void *)"", a.nout)) return true;
  for (size_t i = 0; i + 8 <= a.nout; i += 8) if (memcmp(a.out + i, b.out + i, 8)) { double x, y; memcpy(&x, a.out + i, 8); memcpy(&y, b.out + i, 8); if (!(std::isnan(x) && std::isnan(y))) return false; }
  return true;
}
static bool same_res(const OpRes &a, const OpRes &b, string &why) {
  if (a.done != b.done) { why = "one call did not finish"; return false; } if (!a.done) return true;
  if (a.ret != b.ret) { why = fmt("return code %d instead of %d", a.ret, b.ret); return false; }
  if (a.ret == 0 && !same_out(a, b)) { size_t i = 0; if (a.nout == b.nout) while (i + 8 < a.nout && !memcmp(a.out + i, b.out + i, 8)) i += 8; double x = 0, y = 0; if (i + 8 <= a.nout && i + 8 <= b.nout) memcpy(&x, a.out + i, 8), memcpy(&y, b.out + i, 8); why = fmt("different outputs (value %zu of %zu is %.17g instead of %.17g)", i / 8, a.nout / 8, x, y); return false; } if (a.mex_err != b.mex_err || strcmp(a.mex_id, b.mex_id)) { why = "a different error in the host"; return false; } return true;
}
static bool same_vals(const void *a, const void *b, size_t n, const char *what, string &why) { double sc = 0; for (size_t i = 0; i + 8 <= n; i += 8) { double y; memcpy(&y, (const char *)b + i, 8); if (std::isfinite(y)) sc = std::max(sc, std::fabs(y)); }   /* room for rounding, not for another method */
  for (size_t i = 0; i + 8 <= n; i += 8) { double x, y; memcpy(&x, (const char *)a + i, 8); memcpy(&y, (const char *)b + i, 8); if (memcmp(&x, &y, 8) && (std::isfinite(x) || std::isfinite(y)) && !(std::fabs(x - y) <= 1e-7 * std::max(std::fabs(x), std::fabs(y)) + 1e-9 * sc)) { why = fmt("a different %s (value %zu is %.17g instead of %.17g)", what, i / 8, y, x); return false; } } return true;
}
/* do the outputs of a agree with those of b, the same call asking for everything? */
static bool same_part(const OpSpec &s, const OpRes &a, const OpRes &b, string &why) {
  if (s.kind == OP_NSEP) { if (s.p[P_OUT] & 1) { if (a.K != b.K || a.nbs != b.nbs) { why = fmt("%llu main spectrum points instead of %llu", (unsigned long long)b.K, (unsigned long long)a.K); return false; } if (!same_vals(a.bs, b.bs, 16 * a.nbs, "main spectrum", why)) return false; }
    if (s.p[P_OUT] & 2) { if (a.M != b.M || a.nnc != b.nnc) { why = fmt("%llu auxiliary spectrum points instead of %llu", (unsigned long long)b.M, (unsigned long long)a.M); return false; } if (!same_vals(a.nc, b.nc, 16 * a.nnc, "auxiliary spectrum", why)) return false; } return true; }
  bool own = !s.p[P_OPTS];
  if (a.ncs) { size_t off = own && s.p[P_CST] == 1 ? b.ncs - a.ncs : 0; if (a.ncs > b.ncs) { why = "less of the continuous spectrum"; return false; } if (!same_vals(a.out, b.out + off, a.ncs, "continuous spectrum", why)) return false; }
  if ((s.p[P_OUT] & 2) && a.bs) { if (a.K != b.K || a.nbs != b.nbs) { why = fmt("%llu bound states instead of %llu", (unsigned long long)b.K, (unsigned long long)a.K); return false; } if (!same_vals(a.bs, b.bs, 16 * a.nbs, "set of bound states", why)) return false;
    if (a.nc && b.nc) { size_t off = own && s.p[P_DST] == 1 ? b.nnc - a.nnc : 0; if (a.nnc > b.nnc) { why = "fewer norming constants"; return false; } if (!same_vals(a.nc, b.nc + 2 * off, 16 * a.nnc, s.p[P_DST] == 1 && own ? "set of residues" : "set of norming constants", why)) return false; } }
  return true;
}
static bool same_msgs(const Res &a, const Res &b) { if (a.m.size() != b.m.size()) return false; for (size_t i = 0; i < a.m.size(); i++) if (a.m[i].text != b.m[i].text) return false; return true; }
static bool is_err(const string &t) { return t.find("FNFT Error") != string::npos; }
static bool is_warn(const string &t) { return t.find("FNFT Warning") != string::npos; }
static const char *VKN[] = {"", "memory", "badfree", "crash", "terminate", "hang", "inputwrite", "crossfree", "deadlock", "unsupported", "caller-array-overrun"};
static bool corrupt_or_mis(const OpSpec &s) { return s.p[P_COR] || s.p[P_MIS] || s.p[P_ABS]; }

static void judge_op(const Plan &p, const Exec &e, int t, int i, vector<Finding> &out) {
  const TOp &o = p.t[t][i]; const Res &x = e.t[t][i]; const OpRes &r = x.r; const string &P = p.prop; string fn = opname(o.s), why; bool faulted = !o.f.empty() && r.cs.refused; bool mis = o.s.p[P_MIS], cor = o.s.p[P_COR];
  auto rep = [&](const string &cls, const string &text) { out.push_back({cls + ":" + fn, fn + ": " + text, t, i}); };
  if (r.refused_by_gen) return; bool calls = o.s.kind < OP_SETPRINTF || o.s.kind == OP_MEX;
  auto hardv = [&](bool user, bool badfree) { for (auto &v : x.v) { if (v.kind == VK_ROWRITE) continue; if (v.kind == VK_USEROOB && !user) continue; if ((v.kind == VK_BADFREE || v.kind == VK_CROSSFREE) && !badfree) continue; rep(VKN[v.kind], v.text); } };
  if (P == "C01") { if (faulted) hardv(true, true); return; }
  if (P == "C02") {
    if (!faulted || !r.done || has_hard(x)) return; const Res &f = ref(o.s); if (!f.r.done) return;
    if (r.ret == 0) { if (f.r.ret != 0) rep("false-success", fmt("refused memory %llu times, yet reported success; with plentiful memory the call fails with code %d", (unsigned long long)r.cs.refused, f.r.ret)); else if (!same_out(r, f.r)) rep("false-success", fmt("refused memory %llu times, reported success with results that differ from those with plentiful memory", (unsigned long long)r.cs.refused)); }
    else if (abs(r.ret) != 1 && r.ret != f.r.ret) rep("wrong-code", fmt("memory was refused but the call reported code %d", r.ret));
    return;
  }
  if (P == "C03") { if (r.done && r.leak_blocks > 0) rep("leak", fmt("%lld heap block(s) not given back (%s), return code %d", (long long)r.leak_blocks, r.leak, r.ret)); for (auto &v : x.v) if (v.kind == VK_BADFREE || v.kind == VK_CROSSFREE) rep("badfree", v.text); return; }
  if (P == "C04") { if (!o.f.empty() || mis) return; const Res &f = ref(o.s); if (!f.r.done || has_hard(f)) return; if (has_hard(x)) { hardv(true, true); return; } if (!same_res(r, f.r, why)) rep("sticky", "after earlier failed calls: " + why); else if (!same_msgs(x, f)) rep("sticky-msg", "after earlier failed calls the call reports different messages"); return; }
  if (P == "C05") { for (auto &v : x.v) if (v.kind == VK_ROWRITE) rep("inputwrite", v.text); if (r.changed) rep("changed", string("input changed by the call: ") + r.what); return; }
  if (P == "C06") {
    if (corrupt_or_mis(o.s) || !o.f.empty()) return; for (auto &v : x.v) if (v.kind == VK_USEROOB || v.kind == VK_CRASH || v.kind == VK_MEMSAFETY) rep(VKN[v.kind], v.text);
    if (!r.done || r.ret != 0) return;
    if ((o.s.kind == OP_NSEV || o.s.kind == OP_MANAKOVV) && (o.s.p[P_OUT] & 2) && o.s.p[P_KAPPA] == 1 && r.maxK && r.K > r.maxK && (o.s.p[P_OPTS] || o.s.kind == OP_MANAKOVV || o.s.p[P_LOC] != 1)) rep("max-count", fmt("returned %llu bound states, fnft_*_max_K promises at most %llu", (unsigned long long)r.K, (unsigned long long)r.maxK));
    if (o.s.kind <= OP_MANAKOVV && o.s.kind != OP_NSEVINV) { if (r.K > r.capK && (o.s.p[P_OUT] & (o.s.kind == OP_NSEP ? 1 : 2))) rep("count", fmt("count %llu exceeds the capacity %llu", (unsigned long long)r.K, (unsigned long long)r.capK)); if (o.s.kind == OP_NSEP && (o.s.p[P_OUT] & 2) && r.M > r.capM) rep("count", fmt("auxiliary count %llu exceeds the capacity %llu", (unsigned long long)r.M, (unsigned long long)r.capM)); }
    return;
  }
  if (P == "C07") {
    if (!calls && o.s.kind != OP_GETPRINTF) return; const Res &f = ref(o.s, &o.f); if (!f.r.done || has_hard(f)) return; if (has_hard(x)) { hardv(true, true); return; }
    if (!same_res(r, f.r, why)) rep("isolation", "while other threads ran: " + why + " (alone vs concurrent)"); else if (!same_msgs(x, f)) rep("isolation-msg", "while other threads ran the call reported different messages"); return;
  }
  if (P == "C08") {
    if (o.s.kind == OP_DEFAULTS) { if (r.done && r.baddef) { rep("documented-default", string("not the documented default: ") + r.what); return; } const Res &f = ref(o.s); if (r.done && !same_out(r, f.r)) rep("defaults", "the default options changed during the life of the process"); return; }
    if (!o.f.empty() || mis || o.s.kind > OP_MANAKOVV || !o.s.p[P_OPTS] || !r.done || has_hard(x)) return; OpSpec b = o.s; b.p[P_OPTS] = o.s.p[P_OPTS] == 1 ? 2 : 1; const Res &f = ref(b); if (f.r.done && !has_hard(f) && !same_res(r, f.r, why)) rep("null-options", string("passing no options and passing the defaults disagree: ") + why); return;
  }
  if (P == "C18") {
    if (!o.f.empty() || !can_ask(o.s) || !r.done || has_hard(x)) return; OpSpec a = ask_all(o.s); a.p[P_SHARE] = 0; const Res &f = ref(a); if (!f.r.done || has_hard(f) || f.r.ret != 0) return;
    if (r.ret != 0) { rep("ask-fails", fmt("fails with code %d, although the same call asking for all outputs succeeds", r.ret)); return; }
    if (!same_part(o.s, r, f.r, why)) { rep("ask-differs", "the same call asking for all outputs returns " + why); return; }
    { bool np = o.s.kind == OP_NSEP, newton = np ? o.s.p[P_LOC] == 1 && o.s.p[P_OPTS] != 1 : o.s.kind == OP_NSEV ? o.s.p[P_LOC] == 1 && !o.s.p[P_OPTS] : o.s.kind == OP_KDVV ? o.s.p[P_LOC] == 0 && !o.s.p[P_OPTS] : false;
      bool shortened = false; for (auto &m : x.m) if (is_warn(m.text)) shortened = true;   /* found too many, then dropped some */
      if (!newton && !shortened && r.ret == 0 && (np || (o.s.p[P_OUT] & 2)) && (!(o.s.p[P_OUT] & (np ? 1 : 2)) || r.K < r.capK) && (!np || !(o.s.p[P_OUT] & 2) || r.M < r.capM)) { OpSpec w = o.s; w.p[P_SHARE] = 0; w.p[P_K] *= 2; if (np) w.p[P_M] *= 2; const Res &c = ref(w); if (c.r.done && !has_hard(c)) { if (c.r.ret != 0) { rep("room-fails", fmt("the same call with longer arrays fails with code %d", c.r.ret)); return; } string y; if (!same_res(r, c.r, y) && r.nout == c.r.nout && !same_vals(r.out, c.r.out, r.nout, "result", y)) { rep("room-differs", "the same call with longer arrays returns " + y); return; } if (r.nout != c.r.nout) { rep("room-differs", fmt("the same call with longer arrays returns %llu and %llu points instead of %llu and %llu", (unsigned long long)c.r.K, (unsigned long long)c.r.M, (unsigned long long)r.K, (unsigned long long)r.M)); return; } } } }
    if (r.ncs && !o.s.p[P_OPTS]) { const Res &c = ref(cs_only(o.s)); if (!c.r.done || has_hard(c)) return; if (c.r.ret != 0) { rep("ask-fails", fmt("asking for the continuous spectrum alone, with other options for the discrete spectrum, fails with code %d", c.r.ret)); return; } OpRes y = r; y.bs = y.nc = nullptr; if (!same_part(o.s, y, c.r, why)) rep("ask-differs", "the same call asking for the continuous spectrum alone, with other options for the discrete spectrum, returns " + why); }
    if (r.ncs && grid_ok(o.s) && o.s.p[P_M] > 1 && !o.s.p[P_GB] && o.s.p[P_REG] != 1 && o.s.p[P_REG] != 3 && o.s.p[P_REG] != 5) {      /* the same frequencies as part of another grid */
      size_t M = o.s.p[P_M], B = r.ncs / 16 / M; u64 z = rt_mix(o.s.dseed, 91 + i);
      for (int k = 0; k < 2; k++) { OpSpec g = o.s; g.p[P_SHARE] = 0; g.p[P_OUT] = 1; g.p[P_GB] = (int)M; size_t cnt = k || M < 4 ? 1 : 2 + rt_mix(z, 1) % (M - 2), k0 = rt_mix(z, 2 + k) % (M - cnt + 1); g.p[P_M] = (int)cnt; g.p[P_GK] = (int)k0;
        if (o.s.kind == OP_KDVV) { double d = (r.XI[1] - r.XI[0]) / (M - 1); bool near = false; for (size_t j = 0; j < cnt; j++) if (std::fabs(r.XI[0] + d * (k0 + j)) < 1e-2 * (r.XI[1] - r.XI[0])) near = true; if (near) continue; }
        const Res &c = ref(g); if (!c.r.done || has_hard(c)) continue; if (c.r.ret != 0) { rep("grid-fails", fmt("points %zu to %zu of the %zu frequencies asked for alone: fails with code %d", k0 + 1, k0 + cnt, M, c.r.ret)); return; }
        double sc = 0; for (size_t w = 0; w < r.ncs / 8; w++) { double y; memcpy(&y, r.out + 8 * w, 8); if (std::isfinite(y)) sc = std::max(sc, std::fabs(y)); }
        if (sc < 1e-3) continue; double worst = 0, wx = 0, wy = 0; size_t wk = 0; for (size_t b = 0; b < B; b++) for (size_t j = 0; j < 2 * cnt; j++) { double x1, y; memcpy(&x1, r.out + 8 * (2 * (b * M + k0) + j), 8); memcpy(&y, c.r.out + 8 * (2 * b * cnt + j), 8); if (!std::isfinite(x1) && !std::isfinite(y)) continue; double w = std::isfinite(x1) && std::isfinite(y) ? std::fabs(x1 - y) / sc : 1e300; if (w > worst) { worst = w; wx = x1; wy = y; wk = k0 + j / 2 + 1; } }
        if (getenv("SIM_WORK")) fprintf(stderr, "G %s disc %d kappa %d rich %d reg %d sig %d worst %.2g\n", fn.c_str(), o.s.p[P_OPTS] ? -1 : o.s.p[P_DISC], o.s.p[P_KAPPA], o.s.p[P_RICH], o.s.p[P_REG], o.s.p[P_SIG], worst);
        if (worst > 1e-3) { rep("grid-differs", fmt("the value at frequency %zu of %zu is %.12g, asked for in a grid of %zu points it is %.12g", wk, M, wx, cnt, wy)); return; } } }
    return;
  }
  if (P == "C20") {
    { int g = o.s.p[P_REG]; if (g == 1 || g == 3 || g == 5 || g == 6) return; }
if (corrupt_or_mis(o.s) || o.s.kind > OP_INVXI || !r.done || r.ret != 0 || has_hard(x)) return;
    auto chk = [&](const double *d, size_t n, const char *nm, bool num) { for (size_t k = 0; k < n; k++) { u64 z; memcpy(&z, d + k, 8); if (z == ~0ULL && o.s.p[P_GARB]) { rep("not-delivered", fmt("reports success, but value %zu of %zu of the %s was never written", k / 2 + 1, n / 2, nm)); return true; } if (num && !std::isfinite(d[k])) { rep("no-number", fmt("reports success, but value %zu of %zu of the %s is %s", k / 2 + 1, n / 2, nm, std::isnan(d[k]) ? "not a number" : "infinite")); return true; } } return false; };
    vector<double> v; auto get = [&](const void *q, size_t n) { v.resize(n); memcpy(v.data(), q, 8 * n); return v.data(); };
    if (o.s.kind == OP_NSEVINV) { chk(get(r.out, r.nout / 8), r.nout / 8, "signal", true); return; } if (o.s.kind == OP_INVXI) { chk(get(r.out, 2), 2, "frequency interval", true); return; }
    if (chk(get(r.out, r.ncs / 8), r.ncs / 8, "continuous spectrum", true)) return; bool np = o.s.kind == OP_NSEP, newton = o.s.p[P_OPTS] ? false : o.s.kind == OP_KDVV ? o.s.p[P_LOC] == 0 : o.s.kind == OP_NSEV ? o.s.p[P_LOC] == 1 || (o.s.p[P_LOC] == 2 && o.s.p[P_FILT] == 0) : o.s.kind != OP_MANAKOVV && o.s.p[P_LOC] == 1;   /* Newton's method from the caller's guesses, or from unfiltered roots, may diverge */
    if (r.nbs && chk(r.bs, 2 * r.nbs, np ? "main spectrum" : "bound states", !newton)) return; if (r.nnc) chk(r.nc, 2 * r.nnc, np ? "auxiliary spectrum" : "discrete spectrum's constants", np && !newton);
    return;
  }
  if (P == "C10") {
    if (o.s.kind >= OP_SETPRINTF) return; vector<RtFault> g; for (auto &q : o.f) if (q.kind != FK_STDERR) g.push_back(q); const Res &f = ref(o.s, &g); if (!f.r.done || has_hard(f)) return; if (has_hard(x)) { hardv(true, true); return; }
    if (!same_res(r, f.r, why)) rep("diagnostics", "the outcome depends on the message handling: " + why); return;
  }
  if (P == "C11") {
    if (!o.f.empty()) return; const Res &f = ref(o.s); if (!f.r.done || has_hard(f)) return; if (has_hard(x)) { hardv(true, true); return; }
    if (!same_res(r, f.r, why)) rep("environment", "the result depends on something other than the arguments: " + why); else if (!same_msgs(x, f)) rep("environment-msg", "the messages depend on something other than the arguments"); return;
  }
  if (P == "C12") {
    if (!r.done || has_hard(x) || o.s.kind > OP_INVXI) return; int ne = 0; string last; bool warn = false; for (auto &m : x.m) { if (is_err(m.text)) { ne++; last = m.text; } if (is_warn(m.text)) warn = true; if (m.handler != 1) rep("stray-message", "a message bypassed the thread's handler: " + m.text); }
    if (r.ret != 0) { if (!ne) rep("silent", fmt("failed with code %d without reporting an error", r.ret)); }
    else if (ne) rep("false-alarm", "succeeded but reported: " + last);
    return;
  }
  if (P == "C13") {
    static const char *EN[EV_N] = {"wrote to standard output", "wrote to standard error through the Fortran runtime", "used a file", "read input", "started a process or changed its state", "changed signal handling", 0, 0, "seeded the application's random numbers", "drew from the application's random numbers", 0, "tried to end the process", 0, "changed the floating-point environment", 0};
    if (cor && !r.done) return;
    for (int k = 0; k < EV_N; k++) if (EN[k] && r.cs.ev[k]) rep(fmt("env%d", k), EN[k]); if (r.cs.ev[EV_LOCALE]) rep("env-locale", "changed the locale");
    if (p.handler[t] >= 0) for (auto &m : x.m) if (m.handler == 0) rep("stderr", "wrote to standard error although a handler is set: " + m.text); else if (p.handler[t] == 0) rep("stderr", "message although disabled");
    return;
  }
  if (P == "C14") {
    if (o.s.p[P_ABS]) { hardv(true, true); for (auto &v : x.v) if (v.kind == VK_ROWRITE) rep("inputwrite", v.text); if (r.done && r.leak_blocks > 0) rep("leak", "a call with an absurd option value kept memory"); return; }
    if (mis) { hardv(true, true); for (auto &v : x.v) if (v.kind == VK_ROWRITE) rep("inputwrite", v.text); bool moot = r.K == 0 && !strcmp(op_mis_name(o.s.kind, o.s.p[P_MIS]), "unknown discspec type"); if (r.done && r.ret == 0 && !moot) rep("accepted", string("misuse accepted: ") + op_mis_name(o.s.kind, o.s.p[P_MIS])); else if (r.done && abs(r.ret) == 1) rep("wrong-code", string("misuse reported as out of memory: ") + op_mis_name(o.s.kind, o.s.p[P_MIS])); if (r.done && r.ret && r.leak_blocks > 0) rep("leak", "a refused call kept memory"); return; }
    const Res &f = ref(o.s); if (!f.r.done || has_hard(f)) return; if (has_hard(x)) { hardv(true, true); return; } if (!same_res(r, f.r, why)) rep("after-misuse", "a correct call next to refused ones: " + why); return;
  }
  if (P == "C16") { hardv(true, true); if (r.changed) rep("changed", string("the caller's array changed: ") + r.what); if (r.done && r.leak_blocks > 0) rep("leak", fmt("%lld temporary buffer(s) not released (%s)%s", (long long)r.leak_blocks, r.leak, r.mex_err ? " when raising an error" : "")); if (r.done && r.mex_err == 2) rep("malformed", string("returned without a fully formed result: ") + r.mex_id);
    if (r.done && faulted && !r.mex_err) { const Res &f = ref(o.s); if (f.r.done && !f.r.mex_err && !same_out(r, f.r)) rep("false-success", "returned different results although memory was refused and no error was raised"); } if (r.done && o.f.empty()) { const Res &f = ref(o.s); if (f.r.done && !same_res(r, f.r, why)) rep("history", "the same gateway call gave another outcome: " + why); } return; }
  if (P == "C17") {
    if (cor) { hardv(true, true); for (auto &v : x.v) if (v.kind == VK_ROWRITE) rep("inputwrite", v.text); if (r.done && r.leak_blocks > 0) rep("leak", fmt("%lld heap block(s) kept", (long long)r.leak_blocks)); return; }
    const Res &f = ref(o.s); if (!f.r.done || has_hard(f)) return; if (has_hard(x)) { hardv(true, true); return; } if (!same_res(r, f.r, why)) rep("contagion", "a clean call after corrupted ones: " + why); return;
  }
}
/* Results shortened because the caller's arrays are too small, compared with the same call given room for everything:
 * as many values as fit, each one of the full result together with its constants, and a warning the full call does not print. */
static bool extra_warning(const Res &x, const Res &f) { std::map<string, int> n; for (auto &m : f.m) n[m.text]++; for (auto &m : x.m) if (is_warn(m.text) && --n[m.text] < 0) return true; return false; }
static bool subset(const double *a, int na, const double *b, int nb, const double *ac, int mult, const double *bc) {
  std::set<int> used; for (int k = 0; k < na; k++) { bool hit = false; for (int j = 0; j < nb && !hit; j++) { if (used.count(j) || memcmp(a + 2 * k, b + 2 * j, 16)) continue; bool same = true;
      for (int c = 0; c < mult; c++) if (memcmp(ac + 2 * (k + c * na), bc + 2 * (j + c * nb), 16)) same = false; if (same) { hit = true; used.insert(j); } } if (!hit) return false; } return true; }
static void shortened(Plan &p, const TOp &o, const Res &x, int t, int i, vector<Finding> &out) {
  const string &P = p.prop; const OpRes &r = x.r; const OpSpec &s = o.s; const int *q = s.p; string fn = opname(s); int k = s.kind;
  if (!o.f.empty() || corrupt_or_mis(s) || !r.done || r.ret || has_hard(x)) return; bool def = q[P_OPTS] != 0;
  for (int w = 0; w < (k == OP_NSEP ? 2 : 1); w++) {
    OpSpec b = s; u64 have, cap; int deg; bool exact;   /* exact: capacity only decides how many of the final values are copied */
    if (k == OP_NSEV) { if (!(q[P_OUT] & 2) || q[P_KAPPA] != 1 || (!def && q[P_LOC] == 1)) return; b.p[P_K] = q[P_D] * DEG[def ? 11 : q[P_DISC] % 28] * 2 + 64; exact = !def && q[P_LOC] == 0 && !q[P_RICH]; have = r.K; cap = r.capK; }
    else if (k == OP_MANAKOVV) { if (!(q[P_OUT] & 2)) return; deg = MDEG[def ? 3 : q[P_DISC] % 13]; b.p[P_K] = q[P_D] * 4 * deg * 2 + 8; exact = !q[P_RICH]; have = r.K; cap = r.capK; }
    else if (k == OP_KDVV) { if (!(q[P_OUT] & 2) || (!def && q[P_LOC] == 0)) return; b.p[P_K] = 600; exact = !q[P_RICH]; have = r.K; cap = r.capK; }
    else if (k == OP_NSEP) { if (!(q[P_OUT] & (1 << w)) || (!def && q[P_LOC] == 1)) return; deg = DEG[def ? 11 : q[P_DISC] % 28]; exact = true; if (w == 0) { b.p[P_K] = q[P_D] * deg * 80 + 64; have = r.K; cap = r.capK; } else { b.p[P_M] = q[P_D] * deg * 80 + 64; have = r.M; cap = r.capM; } }
    else return;
    if ((w == 0 ? b.p[P_K] <= q[P_K] : b.p[P_M] <= q[P_M])) continue;
    const Res &f = ref(b); if (!f.r.done || f.r.ret || has_hard(f)) continue; u64 all = w ? f.r.M : f.r.K; if (all >= (w ? f.r.capM : f.r.capK)) continue; string what = k != OP_NSEP ? "" : w ? " (auxiliary spectrum)" : " (main spectrum)";
    if (P == "C06" && k != OP_NSEP && f.r.maxK && all > f.r.maxK) out.push_back({"max-count:" + fn, fn + fmt(": %llu bound states found given enough room, fnft_*_max_K promises at most %llu", (unsigned long long)all, (unsigned long long)f.r.maxK), t, i});
    if (all > have && !extra_warning(x, f)) out.push_back({"silent-truncation:" + fn, fn + what + fmt(": %llu values found, %llu returned, no warning about it", (unsigned long long)all, (unsigned long long)have), t, i});
    if (P != "C06" || !exact) continue; u64 want = std::min(all, cap);
    if (have != want) { out.push_back({"shortened-count:" + fn, fn + what + fmt(": %llu values exist, room for %llu, %llu returned", (unsigned long long)all, (unsigned long long)cap, (unsigned long long)have), t, i}); continue; }
    bool ok; if (k == OP_NSEP) ok = w ? subset(r.nc, r.nnc, f.r.nc, f.r.nnc, nullptr, 0, nullptr) : subset(r.bs, r.nbs, f.r.bs, f.r.nbs, nullptr, 0, nullptr);
    else { int mult = r.nnc > 0 && f.r.nbs ? f.r.nnc / f.r.nbs : 0; ok = subset(r.bs, r.nbs, f.r.bs, f.r.nbs, r.nc, mult, f.r.nc); }
    if (!ok) out.push_back({"truncated-values:" + fn, fn + what + fmt(": a shortened result (%llu of %llu) is not part of the full result with its accompanying constants", (unsigned long long)have, (unsigned long long)all), t, i});
  }
}
typedef std::pair<double, double> C2;
static void judge(Plan &p, const Exec &e, vector<Finding> &out) {
  const string &P = p.prop;
  for (int t = 0; t < p.nth; t++) for (size_t i = 0; i < e.t[t].size(); i++) judge_op(p, e, t, (int)i, out);
  for (auto &v : e.other) if (P == "C07" && v.kind == VK_DEADLOCK) out.push_back({"deadlock:", v.text, 0, 0});
  if (P == "C06" || P == "C12") for (int t = 0; t < p.nth; t++) for (size_t i = 0; i < e.t[t].size(); i++) shortened(p, p.t[t][i], e.t[t][i], t, (int)i, out);
  if (P == "C09") for (int t = 0; t < p.nth; t++) { int h = p.handler[t] < 0 ? 100 : p.handler[t];
    for (size_t i = 0; i < e.t[t].size(); i++) { const TOp &o = p.t[t][i]; const Res &x = e.t[t][i]; string fn = opname(o.s); if (!x.r.done) continue; int h0 = h;
      for (auto &m : x.m) { int want = h == 100 ? 0 : h; if (h == 0) { out.push_back({"not-silent:" + fn, fn + ": printed a message although messages are disabled: " + m.text, t, (int)i}); break; } if (m.handler != want) { out.push_back({"wrong-handler:" + fn, fn + fmt(": message went to handler %d, the thread had set %d: ", m.handler, want) + m.text, t, (int)i}); break; } if (h == 6) h = 1; else if (h == 7) h = 0; }
      if (o.s.kind < OP_SETPRINTF) { const Res &f = ref(o.s, &o.f); if (f.r.done && !has_hard(f) && !has_hard(x) && h0 != 0 && h0 != 4 && h0 != 5 && h0 != 7 && !same_msgs(x, f)) out.push_back({"lost-message:" + fn, fn + fmt(": the thread's handler received %zu messages, alone the call reports %zu", x.m.size(), f.m.size()), t, (int)i}); }
      if (o.s.kind == OP_SETPRINTF) h = o.s.p[P_X1]; if (o.s.kind == OP_GETPRINTF && x.r.handle != (u64)h) out.push_back({"readback:", fmt("thread reads back handler %llu, it had set %d", (unsigned long long)x.r.handle, h), t, (int)i}); } }
  if (P == "C19") {
    int mode = (int)p.entropy; auto &t = p.t[0]; typedef unsigned long long L; auto say = [&](const char *c, int i, const string &w) { out.push_back({string(c) + ":" + opname(t[i].s), opname(t[i].s) + ": " + w, 0, i}); };
    if (getenv("SIM_WORK")) for (size_t i = 0; i < e.t[0].size(); i++) { const OpRes &a = e.t[0][i].r; printf("M %d %s disc %d D %d M %d K %d out %d ret %d faulted %d peak %llu stack %llu\n", mode, opname(t[i].s).c_str(), t[i].s.p[P_DISC], t[i].s.p[P_D], t[i].s.p[P_M], t[i].s.p[P_K], t[i].s.p[P_OUT], a.ret, (int)a.cs.refused, (L)a.cs.peak, (L)a.cs.stack); }
    for (size_t i = 0; i < e.t[0].size(); i++) { const Res &x = e.t[0][i]; if (!x.r.done || has_hard(x)) continue; if (x.r.cs.stack > 131072) say("stack", (int)i, fmt("uses %llu bytes of stack", (L)x.r.cs.stack));
      if (t[i].f.empty() || !x.r.cs.refused) continue; const Res &f = ref(t[i].s); if (f.r.done && x.r.cs.peak > f.r.cs.peak * 1.25 + 4096) say("memory-faulted", (int)i, fmt("takes %llu bytes at a time when memory is refused, %llu when it is plentiful", (L)x.r.cs.peak, (L)f.r.cs.peak)); }
    if ((mode <= 5 || mode == 8) && e.t[0].size() == 2) { const OpRes &a = e.t[0][0].r, &b = e.t[0][1].r; if (!a.done || !b.done || a.ret || b.ret) return; double lim = mode == 5 ? 3.0 : 6.0;
      if (b.cs.peak > a.cs.peak * lim + 2048) say("memory", 1, fmt("%d samples take %llu bytes of memory, %d samples %llu: factor %.1f, at most %.0f is in order", t[0].s.p[P_D], (L)a.cs.peak, t[1].s.p[P_D], (L)b.cs.peak, (double)b.cs.peak / a.cs.peak, lim));
      if (b.cs.stack > a.cs.stack + 1536) say("stack", 1, fmt("%d samples take %llu bytes of stack, %d samples %llu", t[0].s.p[P_D], (L)a.cs.stack, t[1].s.p[P_D], (L)b.cs.stack)); }
    return;
  }
  if (P == "C15") {
    int mode = (int)p.entropy; auto &t = p.t[0];
    for (size_t i = 0; i < e.t[0].size(); i++) { const Res &x = e.t[0][i]; for (auto &v : x.v) if (v.kind == VK_HANG || v.kind == VK_DEADLOCK) out.push_back({"hang:" + opname(t[i].s), opname(t[i].s) + ": " + v.text, 0, (int)i}); }
    if (mode <= 5 && e.t[0].size() == 2) { const OpRes &a = e.t[0][0].r, &b = e.t[0][1].r; if (a.done && b.done && a.ret == 0 && b.ret == 0 && a.cs.steps > 1500) { double q = (double)b.cs.steps / a.cs.steps, lim = mode <= 3 ? 9.0 : mode == 4 ? 24.0 : 7.0; if (getenv("SIM_WORK")) printf("W %d %s disc %d D %d->%d steps %llu %llu ratio %.2f\n", mode, opname(t[0].s).c_str(), t[0].s.p[P_DISC], t[0].s.p[P_D], t[1].s.p[P_D], (unsigned long long)a.cs.steps, (unsigned long long)b.cs.steps, q); if (q > lim) out.push_back({"work:" + opname(t[0].s), opname(t[0].s) + fmt(": %d samples cost %llu simulated steps, %d samples %llu: factor %.1f, at most %.0f is in order", t[0].s.p[P_D], (unsigned long long)a.cs.steps, t[1].s.p[P_D], (unsigned long long)b.cs.steps, q, lim), 0, 1}); } }
    if (mode > 5 && e.t[0].size() > 1) for (size_t i = 0; i < e.t[0].size(); i++) { const OpRes &r = e.t[0][i].r; if (t[i].f.empty() || !r.done || !r.cs.refused || t[i].s.p[P_COR]) continue; const Res &f = ref(t[i].s); if (f.r.done && r.cs.steps > f.r.cs.steps * 1.25 + 20000) out.push_back({"work-faulted:" + opname(t[i].s), opname(t[i].s) + fmt(": %llu simulated steps when memory is refused, %llu with plentiful memory", (unsigned long long)r.cs.steps, (unsigned long long)f.r.cs.steps), 0, (int)i}); }
  }
}

/* ------------------------------------------------------------------ plan files */
static string dump(const Plan &p) {
  string s = fmt("fnft-simulation-plan 1\nprop %s\nid %llu\nmem %llu %d %d %d\nentropy %llu\nlimit %llu\nprotect %d\n", p.prop.c_str(), (unsigned long long)p.id, (unsigned long long)p.memseed, p.memkind, p.recycle, p.align, (unsigned long long)p.entropy, (unsigned long long)p.limit, p.protect);
  const RtSched &c = p.sch; s += fmt("sched %d %llu %u %u %u %d %llu %llu %d %llu\n", c.mode, (unsigned long long)c.seed, c.p_static, c.p_shared, c.p_event, c.npreempt, (unsigned long long)c.horizon, (unsigned long long)c.quantum, c.stall_tid, (unsigned long long)c.stall_at);
  for (auto &w : p.list) s += fmt("switch %d %llu %d\n", w.tid, (unsigned long long)w.at, w.to);
  for (int i = 0; i < p.nth; i++) { s += fmt("thread %d %d\n", i, p.handler[i]); for (auto &o : p.t[i]) { s += fmt("# %s\nop %d %llu", opname(o.s).c_str(), o.s.kind, (unsigned long long)o.s.dseed); for (int k = 0; k < NP; k++) s += fmt(" %d", o.s.p[k]); s += fmt(" faults %zu", o.f.size()); for (auto &f : o.f) s += fmt(" %d %llu", f.kind, (unsigned long long)f.a); s += "\n"; } }
  return s + "end\n";
}
static bool load(const char *path, Plan &p) {
  FILE *f = fopen(path, "r"); if (!f) return false; static char line[1 << 16]; int cur = -1; p.nth = 0; bool ok = false;
  while (fgets(line, sizeof line, f)) {
    unsigned long long a, b, c; int d, e2, g; char w[32];
    if (sscanf(line, "prop %31s", w) == 1) p.prop = w; else if (sscanf(line, "id %llu", &a) == 1) p.id = a;
    else if (sscanf(line, "mem %llu %d %d %d", &a, &d, &e2, &g) == 4) { p.memseed = a; p.memkind = d; p.recycle = e2; p.align = g; }
    else if (sscanf(line, "entropy %llu", &a) == 1) p.entropy = a; else if (sscanf(line, "limit %llu", &a) == 1) p.limit = a; else if (sscanf(line, "protect %d", &d) == 1) p.protect = d;
    else if (!strncmp(line, "sched ", 6)) { RtSched &s = p.sch; unsigned x, y, z; sscanf(line, "sched %d %llu %u %u %u %d %llu %llu %d %llu", &s.mode, &a, &x, &y, &z, &s.npreempt, &b, &c, &s.stall_tid, (unsigned long long *)&s.stall_at); s.seed = a; s.p_static = x; s.p_shared = y; s.p_event = z; s.horizon = b; s.quantum = c; }
    else if (sscanf(line, "switch %d %llu %d", &d, &a, &e2) == 3) p.list.push_back({d, a, e2});
    else if (sscanf(line, "thread %d %d", &d, &e2) == 2) { cur = d; p.handler[d] = e2; p.nth = d + 1; }
    else if (!strncmp(line, "op ", 3) && cur >= 0) { TOp o; memset(&o.s, 0, sizeof o.s); char *q = line + 3; o.s.kind = (int)strtol(q, &q, 10); o.s.dseed = strtoull(q, &q, 10); for (int k = 0; k < NP; k++) o.s.p[k] = (int)strtol(q, &q, 10); while (*q == ' ') q++; q += 6; int n = (int)strtol(q, &q, 10); for (int k = 0; k < n; k++) { int kk = (int)strtol(q, &q, 10); u64 aa = strtoull(q, &q, 10); o.f.push_back({kk, aa}); } p.t[cur].push_back(o); }
    else if (!strncmp(line, "end", 3)) ok = true;
  }
  fclose(f); return ok;
}
static bool run_plan(Plan &p, vector<Finding> &F, u64 &h, bool stats) { Exec e; execute(p, e, stats); h = e.hash; judge(p, e, F); bool d = rt_dirty; freeres(e); return !d; }

/* ------------------------------------------------------------------ minimisation (same class of violation must persist) */
static time_t min_end;
static bool still(Plan p, const string &cls) {
  if (time(nullptr) > min_end) return false; fflush(stdout); pid_t c = fork(); if (c < 0) return false;
  if (!c) { alarm(30); vector<Finding> F; u64 h; run_plan(p, F, h, false); for (auto &f : F) if (f.cls == cls) _exit(7); _exit(0); }
  int st = 0; waitpid(c, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 7;
}
static Plan minimise(Plan p, const string &cls, int seconds) {
  min_end = time(nullptr) + seconds;
  if (p.nth > 1) { Exec e; execute(p, e, false); Plan q = p; q.sch.mode = 2; q.list = e.sw; freeres(e); if (still(q, cls)) { p = q;
      size_t chunk = p.list.size() / 2; while (chunk >= 1 && time(nullptr) < min_end) { bool any = false; for (size_t a = 0; a < p.list.size();) { Plan c = p; c.list.erase(c.list.begin() + a, c.list.begin() + std::min(a + chunk, c.list.size())); if (still(c, cls)) { p = c; any = true; } else a += chunk; } if (!any || chunk == 1) { if (chunk == 1 && !any) break; chunk = chunk > 1 ? chunk / 2 : 1; } } } }
  for (int t = 0; t < p.nth; t++) { size_t chunk = std::max<size_t>(1, p.t[t].size() / 2); while (time(nullptr) < min_end) { for (size_t a = 0; a < p.t[t].size();) { Plan c = p; c.t[t].erase(c.t[t].begin() + a, c.t[t].begin() + std::min(a + chunk, c.t[t].size())); if (still(c, cls)) p = c; else a += chunk; } if (chunk == 1) break; chunk /= 2; } }
  for (int t = 0; t < p.nth; t++) for (size_t i = 0; i < p.t[t].size(); i++) {
    for (size_t k = 0; k < p.t[t][i].f.size();) { Plan c = p; c.t[t][i].f.erase(c.t[t][i].f.begin() + k); if (still(c, cls)) p = c; else k++; }
    for (int par : {P_FPE, P_REG, P_ABS, P_RICH, P_SHARE, P_TOL, P_X3, P_NITER}) if (p.t[t][i].s.p[par]) { Plan c = p; c.t[t][i].s.p[par] = 0; if (still(c, cls)) p = c; }
    if (p.prop != "C15" && p.prop != "C19") for (int par : {P_D, P_M}) for (int k = 0; k < 5 && p.t[t][i].s.p[par] >= 4; k++) { Plan c = p; c.t[t][i].s.p[par] /= 2; if (still(c, cls)) p = c; else break; } }
  while (p.nth > 1 && p.t[p.nth - 1].empty()) { Plan c = p; c.nth--; if (still(c, cls)) p = c; else break; }
  return p;
}

/* ------------------------------------------------------------------ main */
static string esc(string s) { for (auto &c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
static void stats_out(void) {
  printf("STAT runs %llu ops %llu steps %llu switches %llu allocs %llu refused %llu shared %llu nontrivial %llu stderr %llu", (unsigned long long)tot_runs, (unsigned long long)tot_ops, (unsigned long long)tot_steps, (unsigned long long)tot_switches, (unsigned long long)tot_allocs, (unsigned long long)tot_refused, (unsigned long long)tot_shared, (unsigned long long)nontrivial, (unsigned long long)fk_stderr);
  for (int k = 1; k < FK_NKINDS; k++) printf(" fk%d %llu", k, (unsigned long long)fk_fired[k]); printf("\n");
  auto set = [](const char *n, std::set<u64> &s) { printf("SET %s", n); for (auto v : s) printf(" %llx", (unsigned long long)v); printf("\n"); s.clear(); };
  set("il", il_seen); set("ctx", ctx_alloc); set("fctx", ctx_fault); set("outcome", outcome_seen); set("trace", trace_seen); printf("KIND"); for (auto &k : kind_cnt) printf(" %s %llu", k.first.c_str(), (unsigned long long)k.second); printf("\n"); kind_cnt.clear();
  tot_runs = tot_ops = tot_steps = tot_switches = tot_allocs = tot_refused = tot_shared = nontrivial = fk_stderr = 0; memset(fk_fired, 0, sizeof fk_fired);
}
int main(int argc, char **argv) {
  int pers = personality(0xffffffff); if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) { personality(pers | ADDR_NO_RANDOMIZE); setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
  static char exe[4096]; { ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n > 0) exe[n] = 0; }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  rt_init(); rt_set_entropy(1); rt_begin_run(1, 2, 0, 0);
  rt_run_threads(1, [](int, void *) { op_thread_init(-1); rt_enter(); ops_save_default(); rt_leave(); }, nullptr, nullptr);
  string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "work" && argc >= 8) {             /* work PROP seed first stride count seconds */
    string prop = argv[2]; u64 seed = strtoull(argv[3], 0, 10), i = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), end = strtoull(argv[6], 0, 10); time_t stop = time(nullptr) + atoi(argv[7]); u64 done = 0;
    for (; i < end && time(nullptr) < stop; i += stride) {
      printf("B %llu\n", (unsigned long long)i);
      Plan p = make_plan(prop, seed, i); vector<Finding> F; u64 h, h2;
      bool lost = rt_dirty; if (!lost) { bool clean = run_plan(p, F, h, true); done++;
        if (clean && F.empty() && done % 16 == 1) { vector<Finding> G; run_plan(p, G, h2, false); if (h2 != h) printf("NONDET %llu\n", (unsigned long long)i); printf("TWICE 1\n"); } }
      std::set<string> seen; for (auto &f : F) if (seen.insert(f.cls).second) printf("V %llu\t%s\t%s\n", (unsigned long long)i, f.cls.c_str(), esc(f.text).c_str());
      if (lost) { /* the process is not usable any more: judge the plan in a fresh one */
        char fn[64]; snprintf(fn, sizeof fn, "/tmp/simfnft.%d.plan", (int)getpid()); FILE *f = fopen(fn, "w"); if (f) { fputs(dump(p).c_str(), f); fclose(f); string c = string("'") + exe + "' replay " + fn; fflush(stdout);
          if (FILE *q = popen(c.c_str(), "r")) { char *l = nullptr; size_t cap = 0; while (getline(&l, &cap, q) > 0) if (l[0] == 'V' && l[1] == ' ') fputs(l, stdout); free(l); pclose(q); } unlink(fn); } }
      if (rt_dirty) { stats_out(); printf("RESUME %llu\n", (unsigned long long)(i + stride)); fflush(stdout); rt_cov_dump(); _exit(77); }
      if (done % 64 == 0) stats_out();
    }
    stats_out(); printf("DONE %llu\n", (unsigned long long)i); fflush(stdout); rt_cov_dump(); _exit(0);
  }
  if (cmd == "plan" && argc >= 5) { Plan p = make_plan(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10)); fputs(dump(p).c_str(), stdout); return 0; }
  if (cmd == "replay" && argc >= 3) {
    Plan p; if (!load(argv[2], p)) { fprintf(stderr, "cannot read plan %s\n", argv[2]); return 2; } bool verbose = argc > 3; vector<Finding> F; u64 h; 
    if (verbose) { Exec e; execute(p, e, true); for (int t = 0; t < p.nth; t++) for (size_t i = 0; i < e.t[t].size(); i++) { auto &x = e.t[t][i]; printf("t%d op%zu %s done %d aborted %d ret %d allocs %llu refused %llu steps %llu leak %lld K %llu\n", t, i, opname(p.t[t][i].s).c_str(), x.r.done, x.r.aborted, x.r.ret, (unsigned long long)x.r.cs.allocs, (unsigned long long)x.r.cs.refused, (unsigned long long)x.r.cs.steps, (long long)x.r.leak_blocks, (unsigned long long)x.r.K); for (auto &m : x.m) printf("    [%d] %s\n", m.handler, esc(m.text).c_str()); for (auto &v : x.v) printf("    !! %s\n", v.text); auto pr = [&](const char *nm, const double *d, size_t n) { printf("    %s", nm); for (size_t k = 0; k < n && k < 40; k++) printf(" %.6g", d[k]); printf("\n"); }; if (x.r.nout >= 8) { vector<double> w(x.r.nout / 8); memcpy(w.data(), x.r.out, w.size() * 8); pr("out", w.data(), w.size()); } if (x.r.nbs) pr("bs", x.r.bs, 2 * x.r.nbs); if (x.r.nnc) pr("nc", x.r.nc, 2 * x.r.nnc); } judge(p, e, F); h = e.hash; }
    else run_plan(p, F, h, true);
    std::set<string> seen; for (auto &f : F) if (seen.insert(f.cls).second) printf("V %llu\t%s\t%s\n", (unsigned long long)p.id, f.cls.c_str(), esc(f.text).c_str()); printf("TRACE %016llx\n", (unsigned long long)h); fflush(stdout); _exit(F.empty() ? 0 : 1);
  }
  if (cmd == "minimise" && argc >= 5) { Plan p; if (!load(argv[2], p)) return 2; Plan q = minimise(p, argv[3], 40); FILE *f = fopen(argv[4], "w"); fputs(dump(q).c_str(), f); fclose(f); _exit(0); }
  fprintf(stderr, "usage: simfnft work|plan|replay|minimise ...\n"); return 2;
}
