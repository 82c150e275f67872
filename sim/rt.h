/* Deterministic simulator runtime: everything the library under test can observe
 * from its environment goes through here (memory, threads, clocks, entropy, I/O,
 * message handlers).  One simulated thread runs at a time; a baton decides which. */
#ifndef RT_H
#define RT_H
#include <stddef.h>
#include <stdint.h>
#include <setjmp.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C" {
#endif

#define RT_MAXT 9            /* simulated threads 0..7, index 8 = shared objects */
#define RT_SHARED 8

/* ---- allocation fault plan of one library call ---- */
enum { FK_ONCE = 1, FK_FROM, FK_SIZE, FK_BUDGET, FK_ZERO, FK_STDERR, FK_NKINDS };
typedef struct { int kind; uint64_t a; } RtFault;
#define RT_MAXFAULTS 64

/* ---- event flags (environment interaction) ---- */
enum { EV_STDOUT = 0, EV_STDERR_RAW, EV_FILE, EV_STDIN, EV_PROC, EV_SIGNAL, EV_LOCALE, EV_ENV,
       EV_RNG_SEED, EV_RNG_DRAW, EV_CLOCK, EV_TERMINATE, EV_THREAD, EV_FPENV, EV_SLEEP, EV_N };

typedef struct { int kind; int tid; int op; char text[400]; } RtViolation;

typedef struct { int tid; uint64_t at; int to; } RtSwitch;   /* thread tid, at its local step 'at', hands over to 'to' */

typedef struct {
  int mode;              /* 0 none, 1 PRNG, 2 replay list */
  uint64_t seed;
  uint32_t p_static;     /* switch probability (1/65536) at an access to static data of the library */
  uint32_t p_shared;     /* ... at a read of an input shared between threads */
  uint32_t p_event;      /* ... at allocation, release, message, call boundary */
  int npreempt;          /* number of arbitrary-step preemptions per thread */
  uint64_t horizon;      /* ... spread over this many local steps */
  uint64_t quantum;      /* 0, or round-robin quantum in steps */
  int stall_tid;         /* -1 or: this thread is stalled at its stall_at-th step until others are done */
  uint64_t stall_at;
  const RtSwitch *list; int nlist; /* replay */
} RtSched;

typedef struct {          /* one message delivered to a handler (or stderr) */
  int tid, handler;       /* handler: 0 default(stderr), 1.. user handlers */
  int op;
  char *text;
} RtMsg;

/* life cycle */
void rt_init(void);
void rt_begin_run(uint64_t memseed, int memkind, int recycle, int align_off);
void rt_end_run(void);
void rt_check_statics(void);
uint64_t rt_statics_hash(void);
size_t rt_statics_size(void);
int  rt_statics_dirty(size_t *off);     /* static data differs from its load-time image? */

/* run n threads under the scheduler to completion */
void rt_run_threads(int n, void (*fn)(int tid, void *arg), void *arg, const RtSched *s);
int rt_switches(const RtSwitch **out);
uint64_t rt_interleave_hash(void);
uint64_t rt_total_steps(void);
uint64_t rt_shared_points(void);

/* inside a simulated thread */
int  rt_tid(void);
void rt_set_op(int op);
void rt_set_faults(const RtFault *f, int n);
void rt_set_step_limit(uint64_t lim);
void rt_point(void);                    /* event yield point */
extern sigjmp_buf *rt_jb(void);
void rt_set_fpe(int v);                 /* the next call finds this floating-point environment: bits 0-1 rounding, 2 flush to zero, 3 x87 precision */
void rt_enter(void);                    /* library call begins */
void rt_leave(void);
void rt_scribble(void);
int  rt_aborted(void);                  /* why the call was cut short: 0 no */
int  rt_in_lib(void);
/* callbacks from the library into simulated user code */
void rt_cb_enter(void); void rt_cb_leave(void);
void rt_message(int handler, const char *fmt, va_list ap);

/* user objects in simulated memory */
void *rt_ualloc(size_t bytes, int shared);
void rt_uprotect(void *p, int ro);      /* mark read-only for the library */
void rt_ufree(void *p);
size_t rt_usize(void *p);
void rt_fill(void *p, size_t n, uint64_t salt);
int rt_is_live(void *p);
void rt_release_lib(void *p);           /* caller releases a block handed out by the library */

/* per-call statistics, valid after the call */
typedef struct {
  uint64_t allocs, refused, frees, steps, bytes, peak, stack; int64_t live_blocks, live_bytes;
  uint64_t by_kind[FK_NKINDS]; uint64_t stderr_faults; uint64_t ev[EV_N]; uint64_t maxreq;
  uint64_t rng_draws; uint64_t accesses_static;
} RtCall;
void rt_call_stats(RtCall *out);
uint64_t rt_leak_sites(char *buf, size_t n);
void rt_free_leaks(void);

/* alloc trace of the call (sizes), for building fault plans */
int rt_alloc_sizes(const uint32_t **sizes);
int rt_alloc_sites(const uint64_t **ctx);   /* hash of the calling context of each request */
int rt_fault_sites(const uint64_t **ctx);   /* contexts of the requests refused in this call */

/* violations and messages */
enum { VK_MEMSAFETY = 1, VK_BADFREE, VK_CRASH, VK_TERMINATE, VK_HANG, VK_ROWRITE, VK_CROSSFREE, VK_DEADLOCK, VK_UNSUPPORTED, VK_USEROOB };
void rt_violation(int kind, const char *fmt, ...);
int rt_violations(const RtViolation **out);
int rt_messages(const RtMsg **out);
extern volatile int rt_dirty;           /* process state no longer trustworthy */
extern volatile uint64_t rt_heartbeat;

void rt_cov_dump(void);
/* clocks / entropy of the simulated world */
void rt_set_entropy(uint64_t seed);
uint64_t rt_mix(uint64_t a, uint64_t b);
#ifdef __cplusplus
}
#endif
#endif
