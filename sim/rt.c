#define _GNU_SOURCE
#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <fenv.h>
#include <locale.h>
#include <linux/futex.h>
#include <sys/syscall.h>

/* ------------------------------------------------------------------ layout */
#define ARENA_BASE  0x300000000000ULL
#define ARENA_SHIFT 31                      /* 2 GiB of address space per simulated thread */
#define ARENA_SIZE  (1ULL << ARENA_SHIFT)
#define ARENA_END   (ARENA_BASE + RT_MAXT * ARENA_SIZE)
#define SHADOW_BASE 0x380000000000ULL
#define SH(a)  (*(uint8_t *)(SHADOW_BASE + (((uint64_t)(a) - ARENA_BASE) >> 3)))
#define RZ 64
#define URZ 1024
#define HDR 16
#define MAGIC 0x5A17u

extern char __start_fnftdata[] __attribute__((weak)), __stop_fnftdata[] __attribute__((weak));
extern char __start_fnftbss[] __attribute__((weak)), __stop_fnftbss[] __attribute__((weak));

typedef struct { void *p; size_t sz, cap; uint8_t live, user, ro; int op; uint32_t next_free; void *site; void *copy; } Blk;
typedef struct { uint64_t ptr, sz; } FreeEnt;

enum { ST_NEW = 0, ST_RUN, ST_DONE };
enum { AB_NONE = 0, AB_MEM, AB_CRASH, AB_TERM, AB_HANG, AB_DEADLOCK };

typedef struct {
  int tid, state, in_lib, op, aborted, stalled; void *waiting;
  volatile int go;
  sigjmp_buf jb; pthread_t pt;
  uint64_t steps, next_evt, limit_at, call_steps0, next_preempt;
  uint64_t stack_lo, stack_hi, call_sp, min_sp;
  /* arena */
  uint64_t base, bump, high;
  Blk *blk; uint32_t nblk, cblk, call_blk0;
  FreeEnt *fl; uint32_t nfl, cfl;
  RtFault faults[RT_MAXFAULTS]; int nfaults;
  uint32_t *asz; uint64_t *actx; int nasz, casz; uint64_t fctx[256]; int nfctx;
  void *ropend; char rotext[200];
  RtCall cs; uint64_t live_lib_bytes;
  /* schedule */
  uint64_t pre[64]; int npre, ipre;
  int irep; int fpe; unsigned fp0;
  uint64_t rng, ent;
} RtThread;

static RtThread th[RT_MAXT + 1] = {[RT_MAXT] = {.tid = RT_MAXT, .next_evt = UINT64_MAX, .limit_at = UINT64_MAX}};           /* [RT_MAXT] = controller */
static RtThread *cur = &th[RT_MAXT];
static int nthreads;
static volatile int ctl_go;
static RtSched sch;
static uint64_t srng;
static RtSwitch *swl; static int nsw, csw;
static uint64_t ilhash, total_steps, shared_points;
static RtViolation viol[64]; static int nviol;
static RtMsg *msgs; static int nmsgs, cmsgs;
static uint64_t memseed; static int memkind, recycle_mode, align_off;
static uint64_t entropy; static uint64_t clock_ns;
static char *snap_data, *snap_bss; static size_t sz_data, sz_bss;
volatile int rt_dirty; volatile uint64_t rt_heartbeat;

uint64_t rt_mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ULL + b + 0x632BE59BD9B4E019ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31);
}
static uint64_t rnd(uint64_t *s) { *s += 0x9E3779B97F4A7C15ULL; uint64_t z = *s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }

/* ------------------------------------------------------------------ violations */
void rt_violation(int kind, const char *fmt, ...) {
  if (nviol >= 64) return;
  RtViolation *v = &viol[nviol++]; v->kind = kind; v->tid = cur ? cur->tid : -1; v->op = cur ? cur->op : -1;
  va_list ap; va_start(ap, fmt); vsnprintf(v->text, sizeof v->text, fmt, ap); va_end(ap);
}
int rt_violations(const RtViolation **o) { *o = viol; return nviol; }
int rt_messages(const RtMsg **o) { *o = msgs; return nmsgs; }

static void abort_call(int why) {
  RtThread *t = cur; t->aborted = why; t->in_lib = 0;
  if (why == AB_CRASH) rt_dirty = 1;
  siglongjmp(t->jb, 1);
}

/* ------------------------------------------------------------------ baton */
static void fwait(volatile int *f) {
  while (!__atomic_load_n(f, __ATOMIC_ACQUIRE)) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void fpost(volatile int *f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

static void rec_switch(int tid, uint64_t at, int to) {
  if (nsw == csw) { csw = csw ? csw * 2 : 256; swl = realloc(swl, csw * sizeof *swl); }
  swl[nsw++] = (RtSwitch){tid, at, to};
  ilhash = rt_mix(ilhash, rt_mix((uint64_t)(tid + 1) * 1000003u + at, to));
}
int rt_switches(const RtSwitch **o) { *o = swl; return nsw; }
uint64_t rt_interleave_hash(void) { return ilhash; }
uint64_t rt_total_steps(void) { return total_steps; }
uint64_t rt_shared_points(void) { return shared_points; }

static int runnable(int i) { return th[i].state == ST_RUN && !th[i].stalled && !th[i].waiting; }
static int pick_random(int except) {
  int c[RT_MAXT], n = 0;
  for (int i = 0; i < nthreads; i++) if (i != except && runnable(i)) c[n++] = i;
  return n ? c[rnd(&srng) % n] : -1;
}
static int pick_first(int except) { for (int k = 1; k <= nthreads; k++) { int i = (except + k) % nthreads; if (i != except && runnable(i)) return i; } return -1; }
static void set_next_evt(RtThread *t) {
  uint64_t n = t->steps + (1u << 22);
  if (t->limit_at < n) n = t->limit_at;
  if (t->next_preempt < n) n = t->next_preempt;
  t->next_evt = n;
}
static void handover(RtThread *me, int to) {
  cur = &th[to]; fpost(&th[to].go); fwait(&me->go);
}
static void do_switch(int to) {
  RtThread *me = cur;
  rec_switch(me->tid, me->steps, to);
  handover(me, to);
}
static void replay_seek(RtThread *t) {
  t->next_preempt = UINT64_MAX;
  while (t->irep < sch.nlist && (sch.list[t->irep].tid != t->tid || sch.list[t->irep].at == UINT64_MAX)) t->irep++;
  if (t->irep < sch.nlist) t->next_preempt = sch.list[t->irep].at;
}
static void prng_seek(RtThread *t) {
  uint64_t n = UINT64_MAX;
  while (t->ipre < t->npre && t->pre[t->ipre] <= t->steps) t->ipre++;
  if (t->ipre < t->npre) n = t->pre[t->ipre];
  if (sch.quantum && t->steps + sch.quantum < n) n = t->steps + sch.quantum;
  t->next_preempt = n;
}
static void release_stalled(void) {
  for (int i = 0; i < nthreads; i++) if (runnable(i)) return;
  for (int i = 0; i < nthreads; i++) th[i].stalled = 0;
}
static void slow_step(void) {
  RtThread *t = cur; rt_heartbeat++;
  if (t->steps >= t->limit_at && t->in_lib) {
    rt_violation(VK_HANG, "call did not finish within %llu simulated steps", (unsigned long long)(t->steps - t->call_steps0));
    t->limit_at = UINT64_MAX; set_next_evt(t); abort_call(AB_HANG);
  }
  if (t->steps >= t->next_preempt && nthreads > 1) {
    if (sch.mode == 2) {
      int to = sch.list[t->irep].to; uint64_t at = sch.list[t->irep].at; t->irep++; replay_seek(t); set_next_evt(t);
      if (at == t->steps && to >= 0 && to < nthreads && to != t->tid && runnable(to)) { do_switch(to); }
    } else if (sch.mode == 1) {
      if (sch.stall_tid == t->tid && t->steps >= sch.stall_at && !t->stalled) {
        t->stalled = 1; int to0 = pick_random(t->tid); if (to0 < 0) t->stalled = 0;
        sch.stall_tid = -1; prng_seek(t); set_next_evt(t);
        if (to0 >= 0) do_switch(to0);
      } else {
        prng_seek(t); set_next_evt(t);
        int to = pick_random(t->tid); if (to >= 0) { do_switch(to); }
      }
      prng_seek(t);
    } else t->next_preempt = UINT64_MAX;
  }
  set_next_evt(cur);
}
static inline void step(void) { char probe; if ((uint64_t)&probe < cur->min_sp) cur->min_sp = (uint64_t)&probe; if (++cur->steps >= cur->next_evt) slow_step(); }

/* a point where a switch is likely */
static void yield_p(uint32_t p) {
  step();
  if (sch.mode != 1 || nthreads < 2 || !p) return;
  if ((rnd(&srng) & 0xffff) < p) { int to = pick_random(cur->tid); if (to >= 0) do_switch(to); }
}
void rt_point(void) { if (cur && cur != &th[RT_MAXT]) yield_p(sch.p_event); }

typedef struct { int tid; void (*fn)(int, void *); void *arg; } Boot;
static void *thread_main(void *v) {
  Boot *b = v; RtThread *t = &th[b->tid];
  stack_t ss = {0}; ss.ss_size = 65536; ss.ss_sp = mmap(NULL, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, NULL);
  char probe; t->stack_hi = (uint64_t)&probe + 4096; t->stack_lo = (uint64_t)&probe - (7u << 20);
  t->pt = pthread_self(); fwait(&t->go);
  b->fn(b->tid, b->arg);
  t->state = ST_DONE;
  release_stalled();
  int to = -1;
  if (sch.mode == 2) { for (int i = 0; i < sch.nlist; i++) if (sch.list[i].tid == t->tid && sch.list[i].at == UINT64_MAX) to = sch.list[i].to;
    if (to >= 0 && (to >= nthreads || !runnable(to))) to = -1; if (to < 0) to = pick_first(t->tid); }
  else if (sch.mode == 1) to = pick_random(t->tid); else to = pick_first(t->tid);
  munmap(ss.ss_sp, 65536); ss.ss_flags = SS_DISABLE; ss.ss_sp = NULL; sigaltstack(&ss, NULL);
  if (to >= 0) { rec_switch(t->tid, UINT64_MAX, to); cur = &th[to]; fpost(&th[to].go); }
  else {
    int left = 0; for (int i = 0; i < nthreads; i++) left += th[i].state == ST_RUN;
    if (left) rt_violation(VK_DEADLOCK, "threads left blocked at the end of the run");
    cur = &th[RT_MAXT]; fpost(&ctl_go);
  }
  return NULL;
}
static int cmpu64(const void *a, const void *b) { uint64_t x = *(uint64_t *)a, y = *(uint64_t *)b; return x < y ? -1 : x > y; }
void rt_run_threads(int n, void (*fn)(int, void *), void *arg, const RtSched *s) {
  pthread_t pt[RT_MAXT]; Boot b[RT_MAXT]; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8u << 20);
  nthreads = n; if (s) sch = *s; else { memset(&sch, 0, sizeof sch); sch.stall_tid = -1; }
  srng = rt_mix(sch.seed, 77);
  for (int i = 0; i < n; i++) {
    RtThread *t = &th[i]; t->tid = i; t->state = ST_RUN; t->in_lib = 0; t->op = -1; t->steps = 0; t->limit_at = UINT64_MAX; t->stalled = 0; t->waiting = NULL;
    t->go = 0; t->irep = 0; t->next_preempt = UINT64_MAX; t->npre = t->ipre = 0; t->ent = rt_mix(entropy, 1000 + i);
    if (sch.mode == 1 && n > 1) {
      int k = sch.npreempt; if (k > 60) k = 60;
      for (int j = 0; j < k; j++) t->pre[t->npre++] = 1 + rnd(&srng) % (sch.horizon ? sch.horizon : 1);
      if (sch.stall_tid == i) t->pre[t->npre++] = sch.stall_at ? sch.stall_at : 1;
      qsort(t->pre, t->npre, sizeof(uint64_t), cmpu64);
      prng_seek(t);
    } else if (sch.mode == 2) replay_seek(t);
    set_next_evt(t);
    b[i] = (Boot){i, fn, arg};
    if (pthread_create(&pt[i], &at, thread_main, &b[i])) { perror("pthread_create"); _exit(98); }
  }
  int first = 0;
  if (sch.mode == 1) first = rnd(&srng) % n;
  else if (sch.mode == 2) for (int i = 0; i < sch.nlist; i++) if (sch.list[i].tid == -1) { first = sch.list[i].to; break; }
  if (first >= n) first = 0;
  rec_switch(-1, 0, first);
  cur = &th[first]; fpost(&th[first].go); fwait(&ctl_go);
  for (int i = 0; i < n; i++) { pthread_join(pt[i], NULL); total_steps += th[i].steps; }
  pthread_attr_destroy(&at); nthreads = 0;
}

/* ------------------------------------------------------------------ simulated memory */
static void fillmem(void *p, size_t n, uint64_t salt) {
  uint64_t s = rt_mix(memseed, salt); unsigned char *c = p; size_t i = 0;
  switch (memkind) {
    case 0: memset(p, 0, n); return;
    case 1: memset(p, 0xff, n); return;
    case 3: { double v = 1.0 + (double)(s % 1000) / 7; for (; i + 8 <= n; i += 8) memcpy(c + i, &v, 8); break; }
    case 4: { double v = -1e300; for (; i + 8 <= n; i += 8) memcpy(c + i, &v, 8); break; }
    case 5: { uint64_t v = 1; for (; i + 8 <= n; i += 8) memcpy(c + i, &v, 8); break; }
    default: for (; i + 8 <= n; i += 8) { uint64_t v = rnd(&s); memcpy(c + i, &v, 8); }
  }
  for (; i < n; i++) c[i] = (unsigned char)(s >> (i & 31));
}
void rt_fill(void *p, size_t n, uint64_t salt) { fillmem(p, n, salt); }

static void shadow_set(uint64_t a, size_t sz, int ro, int freed) {
  size_t g = sz >> 3; uint8_t f = freed ? 0x20 : (uint8_t)(8 | (ro ? 0x10 : 0));
  memset(&SH(a), f, g);
  if (sz & 7) SH(a + (g << 3)) = freed ? 0x20 : (uint8_t)((sz & 7) | (ro ? 0x10 : 0));
}
static void *arena_alloc(RtThread *t, size_t sz, int user, void *site) {
  size_t cap = (sz + 15) & ~(size_t)15; if (!cap) cap = 16;
  size_t rz = user ? URZ : RZ; uint64_t p = 0;
  if (recycle_mode) for (uint32_t i = t->nfl; i-- > 0;) if (t->fl[i].sz == cap + rz) { p = t->fl[i].ptr; t->fl[i] = t->fl[--t->nfl]; break; }
  if (!p) {
    p = t->bump + HDR + 48; t->bump = p + cap + rz; p &= ~15ULL;
    if (t->bump > t->base + ARENA_SIZE - (1 << 20)) { t->bump -= cap + rz + HDR + 48; return NULL; }
    if (t->bump > t->high) t->high = t->bump;
  }
  if (t->nblk == t->cblk) { t->cblk = t->cblk ? t->cblk * 2 : 1024; t->blk = realloc(t->blk, t->cblk * sizeof(Blk)); }
  uint32_t ix = t->nblk++; t->blk[ix] = (Blk){(void *)p, sz, cap + rz, 1, (uint8_t)user, 0, t->op, 0, site, NULL};
  uint32_t *h = (uint32_t *)(p - HDR); h[0] = MAGIC | ((uint32_t)t->tid << 16); h[1] = ix; h[2] = ~ix; h[3] = MAGIC;
  shadow_set(p, sz, 0, 0);
  return (void *)p;
}
static Blk *find_blk(void *q) {
  uint64_t a = (uint64_t)q; if (a < ARENA_BASE || a >= ARENA_END || (a & 15)) return NULL;
  RtThread *t = &th[(a - ARENA_BASE) >> ARENA_SHIFT]; if (a < t->base + HDR || a >= t->high) return NULL;
  uint32_t *h = (uint32_t *)(a - HDR); if ((h[0] & 0xffff) != MAGIC || h[3] != MAGIC || h[1] != ~h[2] || h[1] >= t->nblk || t->blk[h[1]].p != q) return NULL;
  return &t->blk[h[1]];
}
static void arena_release(RtThread *t, Blk *b) {
  b->live = 0; fillmem(b->p, b->sz, (uint64_t)(b - t->blk) * 2 + 1); shadow_set((uint64_t)b->p, b->sz, 0, 1);
  if (recycle_mode) { if (t->nfl == t->cfl) { t->cfl = t->cfl ? t->cfl * 2 : 256; t->fl = realloc(t->fl, t->cfl * sizeof(FreeEnt)); } t->fl[t->nfl++] = (FreeEnt){(uint64_t)b->p, b->cap}; }
}
static RtThread *owner_of(void *p) { return &th[((uint64_t)p - ARENA_BASE) >> ARENA_SHIFT]; }
void *rt_ualloc(size_t bytes, int shared) {
  RtThread *t = shared ? &th[RT_SHARED] : cur; void *p = arena_alloc(t, bytes, 1, NULL);
  if (!p) { fprintf(stderr, "rt: arena exhausted\n"); _exit(97); }
  fillmem(p, bytes, t->nblk * 2); return p;
}
void rt_uprotect(void *p, int ro) {
  Blk *b = find_blk(p); b->ro = ro; shadow_set((uint64_t)p, b->sz, ro, 0);
  free(b->copy); b->copy = NULL; if (ro) { b->copy = malloc(b->sz + 1); memcpy(b->copy, p, b->sz); }
}
static void ro_check(RtThread *t) {          /* a store into protected memory was announced: did it change anything? */
  Blk *b = t->ropend; t->ropend = NULL;
  if (b->copy && memcmp(b->copy, b->p, b->sz)) { rt_violation(VK_ROWRITE, "%s", t->rotext); memcpy(b->copy, b->p, b->sz); }
}
void rt_ufree(void *p) { if (!p) return; Blk *b = find_blk(p); if (b && b->live) arena_release(owner_of(p), b); }
size_t rt_usize(void *p) { Blk *b = find_blk(p); return b ? b->sz : 0; }
int rt_is_live(void *p) { Blk *b = find_blk(p); return b && b->live; }

/* allocator seam of the library -------------------------------------------------- */
static int refuse(RtThread *t, size_t sz) {
  uint64_t n = t->cs.allocs; int hit = 0;
  for (int i = 0; i < t->nfaults; i++) {
    RtFault *f = &t->faults[i]; int h = 0;
    switch (f->kind) {
      case FK_ONCE: h = n == f->a; break;
      case FK_FROM: h = n >= f->a; break;
      case FK_SIZE: h = sz >= f->a; break;
      case FK_BUDGET: h = t->live_lib_bytes + sz > f->a; break;
      case FK_ZERO: h = sz == 0; break;
    }
    if (h) { t->cs.by_kind[f->kind]++; hit = 1; }
  }
  return hit;
}
static int cb_save[RT_MAXT + 1];
static uint64_t call_context(void) {
  uint64_t h = 7; uint64_t *fp = __builtin_frame_address(0); RtThread *t = cur;
  for (int d = 0; d < 8; d++) {
    if ((uint64_t)fp < t->stack_lo || (uint64_t)fp >= t->stack_hi - 16 || ((uint64_t)fp & 7)) break;
    uint64_t ra = fp[1]; h = rt_mix(h, ra); uint64_t *n = (uint64_t *)fp[0]; if (n <= fp) break; fp = n;
  }
  return h;
}
static int sane_lib(void) { return cur && cur != &th[RT_MAXT] && cur->in_lib; }
static void *lib_alloc(size_t sz, int zero, void *site) {
  RtThread *t = cur;
  if (!sane_lib()) { fprintf(stderr, "rt: library allocation outside a simulated call\n"); _exit(97); }
  if (t->ropend) ro_check(t);
  if (cb_save[t->tid]) { void *p = sz < ARENA_SIZE / 4 ? arena_alloc(t, sz, 0, site) : NULL; if (!p) { errno = ENOMEM; return NULL; } if (zero) memset(p, 0, sz); else fillmem(p, sz, (uint64_t)t->nblk * 2); return p; }
  t->cs.allocs++; t->cs.bytes += sz; if (sz > t->cs.maxreq) t->cs.maxreq = sz;
  uint64_t ctx = call_context();
  if (t->nasz < (1 << 20)) { if (t->nasz == t->casz) { t->casz = t->casz ? t->casz * 2 : 1024; t->asz = realloc(t->asz, t->casz * sizeof(uint32_t)); t->actx = realloc(t->actx, t->casz * sizeof(uint64_t)); } t->actx[t->nasz] = ctx; t->asz[t->nasz++] = sz > UINT32_MAX ? UINT32_MAX : (uint32_t)sz; }
  yield_p(sch.p_event);
  void *p = NULL;
  if (!refuse(t, sz)) { if (sz < ARENA_SIZE / 4) p = arena_alloc(t, sz, 0, site); }
  else if (t->nfctx < 256) t->fctx[t->nfctx++] = ctx;
  if (!p) { t->cs.refused++; errno = ENOMEM; return NULL; }
  t->live_lib_bytes += sz; if (t->live_lib_bytes > t->cs.peak) t->cs.peak = t->live_lib_bytes;
  if (zero) memset(p, 0, sz); else fillmem(p, sz, (uint64_t)t->nblk * 2);
  return p;
}
#define SITE __builtin_return_address(0)
void *sim_malloc(size_t n) { return lib_alloc(n, 0, SITE); }
void *sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) n = SIZE_MAX / 2; return lib_alloc(n, 1, SITE); }
static void lib_free(void *p) {
  if (!p) return;
  RtThread *t = cur; yield_p(sch.p_event); t->cs.frees++;
  Blk *b = find_blk(p);
  if (!b) { rt_violation(VK_BADFREE, "release of an address that is not a heap block"); return; }
  if (b->user) { rt_violation(VK_BADFREE, "release of an array that belongs to the caller"); return; }
  if (!b->live) { rt_violation(VK_BADFREE, "heap block of %zu bytes released twice", b->sz); return; }
  if (owner_of(p) != t) { rt_violation(VK_CROSSFREE, "release of a heap block that a call in another thread owns"); }
  t->live_lib_bytes -= t->live_lib_bytes < b->sz ? t->live_lib_bytes : b->sz; arena_release(owner_of(p), b);
}
void sim_free(void *p) { lib_free(p); }
void *sim_realloc(void *p, size_t n) {
  if (!p) return lib_alloc(n, 0, SITE);
  Blk *b = find_blk(p); if (!b || !b->live || b->user) { rt_violation(VK_BADFREE, "resize of an address that is not a live heap block"); return NULL; }
  size_t osz = b->sz; void *q = lib_alloc(n, 0, SITE); if (!q) return NULL;
  memcpy(q, p, osz < n ? osz : n); lib_free(p); return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) n = SIZE_MAX / 2; return sim_realloc(p, n); }
void *sim_aligned_alloc(size_t al, size_t n) { (void)al; return lib_alloc(n, 0, SITE); }
void *sim_memalign(size_t al, size_t n) { (void)al; return lib_alloc(n, 0, SITE); }
int sim_posix_memalign(void **o, size_t al, size_t n) { (void)al; void *p = lib_alloc(n, 0, SITE); if (!p) return ENOMEM; *o = p; return 0; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = lib_alloc(n, 0, SITE); if (p) memcpy(p, s, n); return p; }
void rt_release_lib(void *p) { if (!p) return; int k = cur->in_lib; cur->in_lib = 1; cur->cs.frees++; Blk *b = find_blk(p);
  if (!b || b->user) rt_violation(VK_BADFREE, "the library handed out an address that is not a heap block");
  else if (!b->live) rt_violation(VK_BADFREE, "the library handed out a block it has released");
  else { cur->live_lib_bytes -= b->sz; arena_release(owner_of(p), b); }
  cur->in_lib = k; }

/* ------------------------------------------------------------------ memory accesses of the library */
static void bad_access(uint64_t a, unsigned sz, int wr) {
  RtThread *o = &th[(a - ARENA_BASE) >> ARENA_SHIFT]; uint8_t s = SH(a);
  int64_t best = INT64_MAX; Blk *bb = NULL;
  for (uint32_t i = o->nblk; i-- > 0;) { Blk *b = &o->blk[i]; int64_t d = (int64_t)(a - (uint64_t)b->p), e; e = d < 0 ? -d : (d < (int64_t)b->sz ? 0 : d - (int64_t)b->sz); if (e < best || (e == best && b->live && !bb->live)) { best = e; bb = b; if (!e && b->live) break; } if (o->nblk - i > 20000) break; }
  const char *what = bb ? (bb->user ? "caller's array" : "heap block") : "unknown";
  if (wr && (s & 0x10)) {
    snprintf(cur->rotext, sizeof cur->rotext, "an input of the caller (%zu bytes) was modified at offset %lld while the call ran", bb ? bb->sz : 0, bb ? (long long)(a - (uint64_t)bb->p) : 0LL);
    cur->ropend = bb; return;
  }
  rt_violation(bb && bb->user ? VK_USEROOB : VK_MEMSAFETY, "%s of %u bytes %s %s of %zu bytes at offset %lld", wr ? "write" : "read", sz, bb && !bb->live && best == 0 ? "inside released" : "outside", what, bb ? bb->sz : 0, bb ? (long long)(a - (uint64_t)bb->p) : 0LL);
  abort_call(AB_MEM);
}
static inline void access_(uint64_t a, unsigned sz, int wr) {
  if (__builtin_expect(cur->ropend != NULL, 0)) ro_check(cur);
  step();
  if (a - ARENA_BASE < ARENA_END - ARENA_BASE) {
    uint8_t s = SH(a); unsigned off = a & 7;
    if (sz <= 8 - off) { if ((s & 15) < off + sz || (wr && (s & 0x10))) { if (sane_lib()) bad_access(a, sz, wr); } }
    else { uint64_t e = a + sz, g = a; while (g < e) { unsigned o = g & 7, n = 8 - o; if (n > e - g) n = (unsigned)(e - g); s = SH(g); if ((s & 15) < o + n || (wr && (s & 0x10))) { if (sane_lib()) bad_access(g, sz, wr); } g += n; } }
    unsigned ow = (unsigned)((a - ARENA_BASE) >> ARENA_SHIFT);
    if (ow != (unsigned)cur->tid) { shared_points++; yield_p(ow == RT_SHARED ? sch.p_shared : sch.p_static); }
  } else if (a < 4096) {
    if (sane_lib()) { rt_violation(VK_CRASH, "%s through a null pointer (address 0x%llx)", wr ? "write" : "read", (unsigned long long)a); abort_call(AB_MEM); }
  } else if ((a >= (uint64_t)__start_fnftdata && a < (uint64_t)__stop_fnftdata) || (a >= (uint64_t)__start_fnftbss && a < (uint64_t)__stop_fnftbss)) {
    cur->cs.accesses_static++; shared_points++; yield_p(sch.p_static);
  }
}
static void range_(uint64_t a, size_t n, int wr) {
  if (!n) return;
  if (a - ARENA_BASE < ARENA_END - ARENA_BASE) {
    step();
    uint64_t e = a + n, g = a;
    while (g < e) { unsigned o = g & 7; uint64_t m = 8 - o; if (m > e - g) m = e - g; uint8_t s = SH(g); if ((s & 15) < o + m || (wr && (s & 0x10))) { if (sane_lib()) bad_access(g, (unsigned)(n > 0xffffffff ? 0xffffffff : n), wr); } g += m; }
    cur->steps += n / 16;
    unsigned ow = (unsigned)((a - ARENA_BASE) >> ARENA_SHIFT); if (ow != (unsigned)cur->tid) { shared_points++; yield_p(ow == RT_SHARED ? sch.p_shared : sch.p_static); }
  } else access_(a, n > 8 ? 8 : (unsigned)n, wr);
}
#define A(n) void __tsan_read##n(void *a) { access_((uint64_t)a, n, 0); } void __tsan_write##n(void *a) { access_((uint64_t)a, n, 1); } \
  void __tsan_unaligned_read##n(void *a) { access_((uint64_t)a, n, 0); } void __tsan_unaligned_write##n(void *a) { access_((uint64_t)a, n, 1); } \
  void __tsan_volatile_read##n(void *a) { access_((uint64_t)a, n, 0); } void __tsan_volatile_write##n(void *a) { access_((uint64_t)a, n, 1); } \
  void __tsan_unaligned_volatile_read##n(void *a) { access_((uint64_t)a, n, 0); } void __tsan_unaligned_volatile_write##n(void *a) { access_((uint64_t)a, n, 1); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *a, size_t n) { range_((uint64_t)a, n, 0); }
void __tsan_write_range(void *a, size_t n) { range_((uint64_t)a, n, 1); }
void __tsan_vptr_update(void **a, void *v) { (void)v; access_((uint64_t)a, 8, 1); }
void __tsan_vptr_read(void **a) { access_((uint64_t)a, 8, 0); }
void __tsan_func_entry(void *pc) { (void)pc; step(); }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
/* atomics, should the library ever use them: executed atomically by virtue of the baton */
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) { (void)mo; access_((uint64_t)a, bits / 8, 0); return *a; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { (void)mo; access_((uint64_t)a, bits / 8, 1); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { (void)mo; access_((uint64_t)a, bits / 8, 1); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { (void)mo; access_((uint64_t)a, bits / 8, 1); T o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; access_((uint64_t)a, bits / 8, 1); T o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { (void)mo; access_((uint64_t)a, bits / 8, 1); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { (void)mo; access_((uint64_t)a, bits / 8, 1); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; access_((uint64_t)a, bits / 8, 1); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; access_((uint64_t)a, bits / 8, 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; } void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void *sim_memcpy(void *d, const void *s, size_t n) { range_((uint64_t)s, n, 0); range_((uint64_t)d, n, 1); return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { range_((uint64_t)s, n, 0); range_((uint64_t)d, n, 1); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { range_((uint64_t)d, n, 1); return memset(d, c, n); }

/* ------------------------------------------------------------------ code reached (builds with FNFT_COV only) */
unsigned char rt_cov[1 << 24];
void __sanitizer_cov_trace_pc(void) { rt_cov[(uint64_t)__builtin_return_address(0) & 0xffffff] = 1; }
void rt_cov_dump(void) { const char *n = getenv("SIM_COV"); if (!n) return; FILE *f = fopen(n, "a"); if (!f) return; for (unsigned i = 0; i < 1u << 24; i++) if (rt_cov[i]) fprintf(f, "%x\n", i); fclose(f); }

/* ------------------------------------------------------------------ calls */
int rt_tid(void) { return cur->tid; }
void rt_set_op(int op) { cur->op = op; }
sigjmp_buf *rt_jb(void) { return &cur->jb; }
int rt_aborted(void) { return cur->aborted; }
int rt_in_lib(void) { return cur && cur->in_lib; }
void rt_set_faults(const RtFault *f, int n) { RtThread *t = cur; if (n > RT_MAXFAULTS) n = RT_MAXFAULTS; memcpy(t->faults, f, n * sizeof *f); t->nfaults = n; }
void rt_set_step_limit(uint64_t lim) { RtThread *t = cur; t->limit_at = lim ? t->steps + lim : UINT64_MAX; set_next_evt(t); }
/* floating-point environment of the simulated application: rounding mode, flush-to-zero, denormals-are-zero, traps, x87 precision */
static unsigned fp_ctl(void) { unsigned m = 0; unsigned short c = 0; __asm__ volatile("stmxcsr %0" : "=m"(m)); __asm__ volatile("fnstcw %0" : "=m"(c)); return (m & 0xffc0u) | (unsigned)c << 16; }
static void fp_set(unsigned mx, unsigned short cw) { __asm__ volatile("ldmxcsr %0" ::"m"(mx)); __asm__ volatile("fldcw %0" ::"m"(cw)); }
void rt_set_fpe(int v) { cur->fpe = v; }
void rt_enter(void) {
  RtThread *t = cur; memset(&t->cs, 0, sizeof t->cs); t->nasz = 0; t->nfctx = 0; t->ropend = NULL; cb_save[t->tid] = 0; t->aborted = 0; t->call_blk0 = t->nblk; t->live_lib_bytes = 0;
  yield_p(sch.p_event); t->call_steps0 = t->steps; t->in_lib = 1; { char probe; t->call_sp = t->min_sp = (uint64_t)&probe; }
  static const unsigned RC[4] = {0, 1, 2, 3}; unsigned f = t->fpe, r = RC[f & 3]; fp_set(0x1f80u | r << 13 | (f & 4 ? 0x8040u : 0), 0x37f | r << 10 ^ (f & 8 ? 0x100 : 0)); t->fp0 = fp_ctl();
}
void rt_leave(void) {
  RtThread *t = cur; if (t->ropend) ro_check(t); t->in_lib = 0; t->limit_at = UINT64_MAX; set_next_evt(t); t->cs.steps = t->steps - t->call_steps0; t->cs.stack = t->call_sp - t->min_sp;
  if (fp_ctl() != t->fp0 && !t->aborted) t->cs.ev[EV_FPENV]++;
  fp_set(0x1f80, 0x37f); t->fpe = 0;
  t->nfaults = 0; yield_p(sch.p_event);
}
void rt_call_stats(RtCall *o) {
  RtThread *t = cur; int64_t lb = 0, nb = 0;
  for (uint32_t i = t->call_blk0; i < t->nblk; i++) if (t->blk[i].live && !t->blk[i].user) { nb++; lb += t->blk[i].sz; }
  t->cs.live_blocks = nb; t->cs.live_bytes = lb; *o = t->cs;
}
uint64_t rt_leak_sites(char *buf, size_t n) {
  RtThread *t = cur; uint64_t k = 0; size_t w = 0; if (n) buf[0] = 0;
  for (uint32_t i = t->call_blk0; i < t->nblk; i++) if (t->blk[i].live && !t->blk[i].user) { if (k < 6 && w + 40 < n) w += snprintf(buf + w, n - w, "%s%zu bytes", k ? ", " : "", t->blk[i].sz); k++; }
  return k;
}
void rt_free_leaks(void) { RtThread *t = cur; for (uint32_t i = t->call_blk0; i < t->nblk; i++) if (t->blk[i].live && !t->blk[i].user) arena_release(t, &t->blk[i]); }
int rt_alloc_sizes(const uint32_t **s) { *s = cur->asz; return cur->nasz; }
int rt_alloc_sites(const uint64_t **s) { *s = cur->actx; return cur->nasz; }
int rt_fault_sites(const uint64_t **s) { *s = cur->fctx; return cur->nfctx; }
void __attribute__((noinline)) rt_scribble(void) { volatile char buf[160 * 1024]; fillmem((void *)buf, sizeof buf, 0xabcdef); __asm__ volatile("" ::"r"(buf) : "memory"); }
void rt_cb_enter(void) { cb_save[cur->tid]++; yield_p(sch.p_event); }
void rt_cb_leave(void) { cb_save[cur->tid]--; yield_p(sch.p_event); }
static void add_msg(int handler, const char *text) {
  if (nmsgs == cmsgs) { cmsgs = cmsgs ? cmsgs * 2 : 256; msgs = realloc(msgs, cmsgs * sizeof *msgs); }
  msgs[nmsgs++] = (RtMsg){cur->tid, handler, cur->op, strdup(text)};
}
void rt_message(int handler, const char *fmt, va_list ap) { char b[2048]; vsnprintf(b, sizeof b, fmt, ap); add_msg(handler, b); }

/* ------------------------------------------------------------------ I/O, process, clock, entropy seams */
static int stderr_broken(void) { for (int i = 0; i < cur->nfaults; i++) if (cur->faults[i].kind == FK_STDERR) { cur->cs.stderr_faults++; return 1; } return 0; }
static int out_text(FILE *f, const char *b, int len) {
  yield_p(sch.p_event);
  if (f == stderr) { add_msg(0, b); if (stderr_broken()) { errno = EIO; return -1; } return len; }
  cur->cs.ev[f == stdout ? EV_STDOUT : EV_FILE]++; return len;
}
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { char b[2048]; int n = vsnprintf(b, sizeof b, fmt, ap); return out_text(f, b, n); }
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(f, fmt, ap); va_end(ap); return n; }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(stdout, fmt, ap); }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
int sim_puts(const char *s) { return out_text(stdout, s, 1); }
int sim_putchar(int c) { char b[2] = {(char)c, 0}; return out_text(stdout, b, c) < 0 ? EOF : c; }
int sim_fputs(const char *s, FILE *f) { return out_text(f, s, 1); }
int sim_fputc(int c, FILE *f) { char b[2] = {(char)c, 0}; return out_text(f, b, c) < 0 ? EOF : c; }
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
size_t sim_fwrite(const void *p, size_t s, size_t n, FILE *f) { char b[2048]; size_t l = s * n; if (l > 2047) l = 2047; memcpy(b, p, l); b[l] = 0; return out_text(f, b, 1) < 0 ? 0 : n; }
void sim_perror(const char *s) { out_text(stderr, s ? s : "", 1); }
int sim_fflush(FILE *f) { if (f == stdout || !f) cur->cs.ev[EV_STDOUT]++; return 0; }
long sim_write(int fd, const void *p, size_t n) { if (fd == 2) { char b[2048]; size_t l = n > 2047 ? 2047 : n; memcpy(b, p, l); b[l] = 0; return out_text(stderr, b, (int)n); } cur->cs.ev[fd == 1 ? EV_STDOUT : EV_FILE]++; return (long)n; }
FILE *sim_fopen(const char *p, const char *m) { (void)p; (void)m; cur->cs.ev[EV_FILE]++; errno = ENOENT; return NULL; }
FILE *sim_freopen(const char *p, const char *m, FILE *f) { (void)p; (void)m; (void)f; cur->cs.ev[EV_FILE]++; return NULL; }
int sim_fclose(FILE *f) { (void)f; cur->cs.ev[EV_FILE]++; return 0; }
int sim_open(const char *p, int fl, ...) { (void)p; (void)fl; cur->cs.ev[EV_FILE]++; errno = ENOENT; return -1; }
int sim_close(int fd) { (void)fd; cur->cs.ev[EV_FILE]++; return 0; }
int sim_remove(const char *p) { (void)p; cur->cs.ev[EV_FILE]++; errno = ENOENT; return -1; }
int sim_getchar(void) { cur->cs.ev[EV_STDIN]++; return EOF; }
char *sim_fgets(char *s, int n, FILE *f) { (void)s; (void)n; (void)f; cur->cs.ev[EV_STDIN]++; return NULL; }
long sim_read(int fd, void *p, size_t n) { (void)fd; (void)p; (void)n; cur->cs.ev[EV_STDIN]++; return 0; }
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { (void)f; (void)b; (void)m; (void)n; cur->cs.ev[EV_FILE]++; return 0; }
static void term(const char *what) { if (sane_lib()) { cur->cs.ev[EV_TERMINATE]++; rt_violation(VK_TERMINATE, "the call tried to end the process (%s)", what); abort_call(AB_TERM); } _exit(96); }
void sim_exit(int c) { (void)c; term("exit"); } void sim__exit(int c) { (void)c; term("_exit"); } void sim__Exit(int c) { (void)c; term("_Exit"); } void sim_quick_exit(int c) { (void)c; term("quick_exit"); }
void sim_abort(void) { term("abort"); } int sim_raise(int s) { (void)s; term("raise"); return 0; } int sim_kill(int p, int s) { (void)p; (void)s; cur->cs.ev[EV_PROC]++; return -1; }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)f; (void)l; (void)fn; char b[300]; snprintf(b, sizeof b, "assertion %s", e); term(b); }
void sim___stack_chk_fail(void) { rt_violation(VK_MEMSAFETY, "stack frame overrun detected"); abort_call(AB_CRASH); }
void sim__gfortran_os_error(const char *m) { char b[300]; snprintf(b, sizeof b, "Fortran runtime: %s", m); term(b); }
void sim__gfortran_os_error_at(const char *w, const char *m, ...) { char b[300]; (void)w; snprintf(b, sizeof b, "Fortran runtime: %s", m); term(b); }
void sim__gfortran_runtime_error(const char *m, ...) { char b[300]; snprintf(b, sizeof b, "Fortran runtime: %s", m); term(b); }
void sim__gfortran_runtime_error_at(const char *w, const char *m, ...) { char b[300]; (void)w; snprintf(b, sizeof b, "Fortran runtime: %s", m); term(b); }
void sim__gfortran_runtime_warning_at(const char *w, const char *m, ...) { (void)w; (void)m; cur->cs.ev[EV_STDERR_RAW]++; }
void sim__gfortran_stop_numeric(int c, int q) { (void)c; (void)q; term("Fortran STOP"); } void sim__gfortran_stop_string(const char *s, size_t n, int q) { (void)s; (void)n; (void)q; term("Fortran STOP"); }
void sim__gfortran_error_stop_numeric(int c, int q) { (void)c; (void)q; term("Fortran ERROR STOP"); } void sim__gfortran_error_stop_string(const char *s, size_t n, int q) { (void)s; (void)n; (void)q; term("Fortran ERROR STOP"); }
void sim__gfortran_exit_i4(void *p) { (void)p; term("Fortran EXIT"); }
/* Fortran formatted output: swallowed, counted as standard output */
void sim__gfortran_st_write(void *p) { (void)p; cur->cs.ev[EV_STDOUT]++; } void sim__gfortran_st_write_done(void *p) { (void)p; }
#define TW(x) void sim__gfortran_transfer_##x##_write(void *p, void *v, int k) { (void)p; (void)v; (void)k; }
TW(integer) TW(real) TW(logical) TW(complex) void sim__gfortran_transfer_character_write(void *p, void *v, size_t k) { (void)p; (void)v; (void)k; } void sim__gfortran_transfer_array_write(void *p, void *v, int k, size_t n) { (void)p; (void)v; (void)k; (void)n; }
char *sim_getenv(const char *n) { (void)n; cur->cs.ev[EV_ENV]++; return NULL; } int sim_setenv(const char *a, const char *b, int o) { (void)a; (void)b; (void)o; cur->cs.ev[EV_PROC]++; return 0; }
int sim_putenv(char *s) { (void)s; cur->cs.ev[EV_PROC]++; return 0; } int sim_unsetenv(const char *s) { (void)s; cur->cs.ev[EV_PROC]++; return 0; }
char *sim_setlocale(int c, const char *l) { (void)c; if (l) cur->cs.ev[EV_LOCALE]++; return (char *)"C"; }
void *sim_signal(int s, void *h) { (void)s; (void)h; cur->cs.ev[EV_SIGNAL]++; return NULL; } int sim_sigaction(int s, const void *a, void *o) { (void)s; (void)o; if (a) cur->cs.ev[EV_SIGNAL]++; return 0; }
int sim_sigprocmask(int h, const void *a, void *o) { (void)h; (void)o; if (a) cur->cs.ev[EV_SIGNAL]++; return 0; }
int sim_system(const char *c) { (void)c; cur->cs.ev[EV_PROC]++; return -1; } int sim_fork(void) { cur->cs.ev[EV_PROC]++; errno = EAGAIN; return -1; } int sim_atexit(void *f) { (void)f; cur->cs.ev[EV_PROC]++; return 0; }
int sim_chdir(const char *p) { (void)p; cur->cs.ev[EV_PROC]++; return -1; }
static uint64_t draw(void) { cur->cs.rng_draws++; cur->cs.ev[EV_RNG_DRAW]++; yield_p(sch.p_static); return rnd(&cur->ent); }
static double draw01(void) { uint64_t r = draw(); switch (r & 15) { case 0: return 0.0; case 1: return 1.0 - 1.1102230246251565e-16; default: return (double)(r >> 11) * (1.0 / 9007199254740992.0); } }
int sim_rand(void) { return (int)(draw() & 0x7fffffff); } long sim_random(void) { return (long)(draw() & 0x7fffffff); } int sim_rand_r(unsigned *s) { *s = *s * 1103515245u + 12345u; return (int)((*s >> 16) & 0x7fff); }
double sim_drand48(void) { return draw01(); } long sim_lrand48(void) { return (long)(draw() & 0x7fffffff); }
void sim_srand(unsigned s) { (void)s; cur->cs.ev[EV_RNG_SEED]++; } void sim_srandom(unsigned s) { (void)s; cur->cs.ev[EV_RNG_SEED]++; } void sim_srand48(long s) { (void)s; cur->cs.ev[EV_RNG_SEED]++; }
long sim_getrandom(void *p, size_t n, unsigned f) { (void)f; for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)draw(); return (long)n; }
void sim__gfortran_random_r8(double *x) { double v = draw01(); access_((uint64_t)x, 8, 1); *x = v; } void sim__gfortran_random_r4(float *x) { *x = (float)(draw01() * 0.999); access_((uint64_t)x, 4, 1); }
void sim__gfortran_random_seed_i4(void *a, void *b, void *c) { (void)a; (void)b; (void)c; cur->cs.ev[EV_RNG_SEED]++; } void sim__gfortran_random_seed_i8(void *a, void *b, void *c) { (void)a; (void)b; (void)c; cur->cs.ev[EV_RNG_SEED]++; }
static uint64_t now_ns(void);
void sim__gfortran_system_clock_4(int *c, int *r, int *m) { if (c) *c = (int)(now_ns() / 1000000); if (r) *r = 1000; if (m) *m = 0x7fffffff; }
void sim__gfortran_system_clock_8(int64_t *c, int64_t *r, int64_t *m) { if (c) *c = (int64_t)now_ns(); if (r) *r = 1000000000; if (m) *m = INT64_MAX; }
static uint64_t now_ns(void) { cur->cs.ev[EV_CLOCK]++; uint64_t r = rnd(&cur->ent); clock_ns += 1000 + r % 100000 + ((r >> 40) % 50 == 0 ? 3600000000000ULL : 0); return clock_ns; }
time_t sim_time(time_t *t) { time_t v = (time_t)(now_ns() / 1000000000ULL); if (t) *t = v; return v; } clock_t sim_clock(void) { return (clock_t)(now_ns() / 1000); }
int sim_gettimeofday(struct timeval *tv, void *z) { (void)z; uint64_t n = now_ns(); tv->tv_sec = n / 1000000000ULL; tv->tv_usec = n / 1000 % 1000000; return 0; }
int sim_clock_gettime(int c, struct timespec *ts) { (void)c; uint64_t n = now_ns(); ts->tv_sec = n / 1000000000ULL; ts->tv_nsec = n % 1000000000ULL; return 0; }
int sim_nanosleep(const void *a, void *b) { (void)a; (void)b; cur->cs.ev[EV_SLEEP]++; yield_p(0xffff); return 0; } unsigned sim_sleep(unsigned s) { (void)s; cur->cs.ev[EV_SLEEP]++; yield_p(0xffff); return 0; } int sim_usleep(unsigned s) { (void)s; cur->cs.ev[EV_SLEEP]++; yield_p(0xffff); return 0; }
/* locks: emulated, so that a parked holder never wedges the simulator */
static struct { void *m; int holder, depth, once; } lk[256]; static int nlk;
static int lk_of(void *m) { for (int i = 0; i < nlk; i++) if (lk[i].m == m) return i; if (nlk == 256) { fprintf(stderr, "rt: too many locks\n"); _exit(97); } lk[nlk].m = m; lk[nlk].holder = -1; lk[nlk].depth = 0; lk[nlk].once = 0; return nlk++; }
static void wait_for(void *m) {
  RtThread *me = cur; me->waiting = m; int to = sch.mode == 1 ? pick_random(me->tid) : pick_first(me->tid);
  if (to < 0) { release_stalled(); to = pick_first(me->tid); }
  if (to < 0) { me->waiting = NULL; rt_violation(VK_DEADLOCK, "deadlock: every thread waits for a lock"); abort_call(AB_DEADLOCK); }
  me->steps++; handover(me, to);
}
static void wake(void *m) { for (int i = 0; i < nthreads; i++) if (th[i].waiting == m) th[i].waiting = NULL; }
int sim_pthread_mutex_lock(void *m) { yield_p(sch.p_static); int i = lk_of(m); while (lk[i].holder >= 0 && lk[i].holder != cur->tid) wait_for(m); if (lk[i].holder == cur->tid) { lk[i].depth++; } else lk[i].holder = cur->tid; return 0; }
int sim_pthread_mutex_trylock(void *m) { yield_p(sch.p_static); int i = lk_of(m); if (lk[i].holder >= 0) return EBUSY; lk[i].holder = cur->tid; return 0; }
int sim_pthread_mutex_unlock(void *m) { int i = lk_of(m); if (lk[i].depth) lk[i].depth--; else { lk[i].holder = -1; wake(m); } yield_p(sch.p_static); return 0; }
int sim_pthread_once(void *o, void (*f)(void)) { int i = lk_of(o); while (lk[i].once == 1) wait_for(o); if (!lk[i].once) { lk[i].once = 1; f(); lk[i].once = 2; wake(o); } return 0; }
int sim_pthread_create(void *a, void *b, void *c, void *d) { (void)a; (void)b; (void)c; (void)d; cur->cs.ev[EV_THREAD]++; return EAGAIN; }

/* ------------------------------------------------------------------ signals */
static void on_sig(int s, siginfo_t *si, void *u) {
  (void)u; RtThread *t = cur;
  if (t && t != &th[RT_MAXT] && t->in_lib) {
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, s); pthread_sigmask(SIG_UNBLOCK, &ss, NULL);
    uint64_t a = (uint64_t)si->si_addr;
    if (s == SIGSEGV && a >= t->stack_lo - (2u << 20) && a < t->stack_hi) rt_violation(VK_CRASH, "stack overflow");
    else rt_violation(VK_CRASH, "crash with signal %d (%s)%s", s, s == SIGSEGV ? "invalid memory access" : s == SIGFPE ? "arithmetic trap" : "abort", a < 4096 && s == SIGSEGV ? " near a null pointer" : "");
    abort_call(AB_CRASH);
  }
  const char m[] = "rt: signal outside a simulated call\n"; if (write(2, m, sizeof m - 1)) {} _exit(95);
}
/* a call that burns processor time without touching memory never reaches a simulated step */
static uint64_t tick_steps; static int ticks; static RtThread *tick_th;
static void on_tick(int s) {
  RtThread *t = cur; if (!t || t == &th[RT_MAXT] || !t->in_lib) { ticks = 0; return; }
  if (t != tick_th || t->steps != tick_steps) { tick_th = t; tick_steps = t->steps; ticks = 0; return; }
  if (++ticks < 12) return;
  char probe; uint64_t a = (uint64_t)&probe; if (a < t->stack_lo || a >= t->stack_hi) { ticks = 11; pthread_kill(t->pt, s); return; }   /* delivered to another thread: pass it on */
  ticks = 0; sigset_t ss; sigemptyset(&ss); sigaddset(&ss, s); pthread_sigmask(SIG_UNBLOCK, &ss, NULL);
  rt_violation(VK_HANG, "call computes without end and without touching memory"); rt_dirty = 1; abort_call(AB_HANG);
}
/* ------------------------------------------------------------------ runs */
void rt_init(void) {
  for (int i = 0; i < RT_MAXT; i++) { th[i].tid = i; th[i].base = ARENA_BASE + (uint64_t)i * ARENA_SIZE; th[i].bump = th[i].high = th[i].base + 4096; }
  if (mmap((void *)ARENA_BASE, RT_MAXT * ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)ARENA_BASE ||
      mmap((void *)SHADOW_BASE, RT_MAXT * ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)SHADOW_BASE) { perror("rt: mmap"); _exit(97); }
  th[RT_MAXT].tid = RT_MAXT; th[RT_MAXT].next_evt = UINT64_MAX; th[RT_MAXT].limit_at = UINT64_MAX; cur = &th[RT_MAXT];
  sz_data = __start_fnftdata ? (size_t)(__stop_fnftdata - __start_fnftdata) : 0; sz_bss = __start_fnftbss ? (size_t)(__stop_fnftbss - __start_fnftbss) : 0;
  snap_data = malloc(sz_data + 1); snap_bss = malloc(sz_bss + 1); memcpy(snap_data, __start_fnftdata, sz_data); memcpy(snap_bss, __start_fnftbss, sz_bss);
  struct sigaction sa = {0}; sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}; for (int i = 0; i < 5; i++) sigaction(sg[i], &sa, NULL);
  struct sigaction st = {0}; st.sa_handler = on_tick; st.sa_flags = SA_RESTART; sigaction(SIGVTALRM, &st, NULL); struct itimerval iv = {{1, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &iv, NULL);
}
size_t rt_statics_size(void) { return sz_data + sz_bss; }
int rt_statics_dirty(size_t *off) {
  for (size_t i = 0; i < sz_data; i++) if (__start_fnftdata[i] != snap_data[i]) { *off = i; return 1; }
  for (size_t i = 0; i < sz_bss; i++) if (__start_fnftbss[i] != snap_bss[i]) { *off = sz_data + i; return 1; }
  return 0;
}
void rt_set_entropy(uint64_t s) { entropy = s; clock_ns = 1700000000000000000ULL + (s % 1000000) * 1000000000ULL; for (int i = 0; i < RT_MAXT; i++) th[i].ent = rt_mix(entropy, 1000 + i); }
void rt_begin_run(uint64_t ms, int mk, int recyc, int aoff) {
  memseed = ms; memkind = mk; recycle_mode = recyc; align_off = aoff;
  if (sz_data) memcpy(__start_fnftdata, snap_data, sz_data);
  if (sz_bss) memcpy(__start_fnftbss, snap_bss, sz_bss);
  for (int i = 0; i < RT_MAXT; i++) {
    RtThread *t = &th[i]; for (uint32_t j = 0; j < t->nblk; j++) if (t->blk[j].copy) { free(t->blk[j].copy); t->blk[j].copy = NULL; } uint64_t lo = t->base, used = t->high - lo + 4096;
    if (t->high > t->base + 4096) { if (used > (8u << 20)) { madvise((void *)lo, used, MADV_DONTNEED); uint64_t s0 = (uint64_t)&SH(lo) & ~4095ULL; madvise((void *)s0, (used / 8 + 8191) & ~4095ULL, MADV_DONTNEED); memset(&SH(lo), 0, 4096); } else memset(&SH(lo), 0, used / 8); }
    t->bump = t->base + 4096 + (uint64_t)aoff * 16; t->high = t->bump; t->nblk = 0; t->nfl = 0; t->nfaults = 0; t->live_lib_bytes = 0;
  }
  memset(cb_save, 0, sizeof cb_save);
  for (int i = 0; i < nmsgs; i++) free(msgs[i].text);
  nmsgs = nviol = nsw = nlk = 0; ilhash = 0; total_steps = shared_points = 0; cur = &th[RT_MAXT]; memset(&sch, 0, sizeof sch); sch.stall_tid = -1;
}
void rt_end_run(void) {}
uint64_t rt_statics_hash(void) { uint64_t h = 1; for (size_t i = 0; i < sz_data; i++) h = h * 1099511628211ULL ^ (unsigned char)__start_fnftdata[i]; for (size_t i = 0; i < sz_bss; i++) h = h * 1099511628211ULL ^ (unsigned char)__start_fnftbss[i]; return h; }
