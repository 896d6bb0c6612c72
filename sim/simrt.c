// Deterministic simulation runtime.  Compiled without instrumentation.
//
// Every atomic operation, every plain memory access in instrumented code and
// every pthread/semaphore/clock call of the program under test ends up here.
// Exactly one simulated thread runs at any time; who runs next is decided by
// a PRNG (or by a replay file).

#include "simrt.h"

#include <assert.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#define MAXT   128
#define FAIR   4000
#define likely(x) __builtin_expect(!!(x), 1)

typedef enum { T_FREE, T_RUN, T_BLOCK, T_SLEEP, T_QUIESCE, T_ZOMBIE, T_DEAD } tstate_t;

typedef struct {
   tstate_t   state;
   int        id;
   int        go;           // futex
   int        reap;         // futex: allowed to really exit
   pthread_t  handle;
   void    *(*fn)(void *);
   void      *arg, *ret;
   uint64_t   ev;           // local events
   const void *waitobj;
   bool       timed;
   uint64_t   deadline;
   bool       woken;
   bool       sig_suspend, sig_resume, in_handler;
   bool       on_alt;
   uint64_t   prio;
   uint64_t   replay_pos;   // Cursor into replay entries of this thread
} thr_t;

sim_shared_t *sim_sh;

static thr_t          T[MAXT];
static int            nthr;
static bool           active;
static sim_config_t   C;
static rng_t          rng;
static int64_t        budget, budget_start;
static int64_t        fair_left;
static uint64_t       vbase;
static uint64_t       nextchange;
static uint64_t       lowprio;
__thread thr_t *sim_self __attribute__((used, tls_model("initial-exec"), visibility("hidden")));
#define self sim_self
__thread char *alt_top __attribute__((used, tls_model("initial-exec"), visibility("hidden")));
static thr_t         *cur;
extern int sim_pid;
static struct sigaction sa_suspend;
static bool            have_suspend;

static inline int fut(int *p, int op, int v)
{
   return syscall(SYS_futex, p, op | FUTEX_PRIVATE_FLAG, v, NULL, NULL, 0);
}

static void wait_go(thr_t *t)
{
   while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0)
      fut(&t->go, FUTEX_WAIT, 0);
   t->go = 0;
}

static void give_go(thr_t *t)
{
   __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
   fut(&t->go, FUTEX_WAKE, 1);
}

bool sim_active(void) { return active && self != NULL; }
int sim_tid(void) { return self ? self->id : -1; }

void sim_note(uint64_t v)
{
   if (sim_sh) sim_sh->hash = sim_mix(sim_sh->hash ^ v) + 0x1234567;
}

static char altstacks[MAXT][16384] __attribute__((aligned(64)));

static void sync_events(void)
{
   if (cur == NULL) return;
   uint64_t used = budget_start - budget;
   cur->ev += used;
   sim_sh->events += used;
   fair_left -= used;
   budget_start = budget;
   sim_sh->vtime = vbase + sim_sh->events * 10;
}

uint64_t sim_now(void)
{
   if (!sim_active()) return 0;
   budget--;
   sync_events();
   return sim_sh->events;
}

uint64_t sim_rand(void) { return rng_next(&rng); }

static void die(int status)
{
   sim_sh->status = status;
   _exit(status == SIM_VIOLATION ? 91 : status == SIM_DEADLOCK ? 92 : 93);
}

void sim_fail(const char *fmt, ...)
{
   va_list ap;
   va_start(ap, fmt);
   if (sim_sh) {
      vsnprintf(sim_sh->msg, sizeof(sim_sh->msg), fmt, ap);
      if (active) sync_events();
      die(SIM_VIOLATION);
   }
   vfprintf(stderr, fmt, ap);
   va_end(ap);
   abort();
}

static void record(thr_t *t, uint32_t kind, int target)
{
   uint64_t n = sim_sh->ntrace;
   if (n < SIM_MAXTRACE) {
      sim_sh->trace[n] = (sim_entry_t){ t->ev, t->id, target, kind };
      sim_sh->ntrace = n + 1;
   }
}

// Entries of one thread are ordered by local event number; every decision
// other than to continue after a preemption point advances that number
static bool replay_lookup(thr_t *t, uint32_t kind, int *target)
{
   while (t->replay_pos < C.nentries
          && (C.entries[t->replay_pos].tid != t->id
              || C.entries[t->replay_pos].ev < t->ev))
      t->replay_pos++;
   for (uint64_t p = t->replay_pos; p < C.nentries; p++) {
      const sim_entry_t *e = &C.entries[p];
      if (e->tid != t->id) continue;
      if (e->ev != t->ev) break;
      if (e->kind != kind) continue;
      if (kind == 'F' && e->target != *target) continue;
      *target = e->target;
      return true;
   }
   return false;
}

static uint64_t replay_next_ev(thr_t *t)
{
   for (uint64_t p = t->replay_pos; p < C.nentries; p++) {
      if (C.entries[p].tid == t->id && C.entries[p].ev > t->ev)
         return C.entries[p].ev - t->ev;
   }
   return INT32_MAX;
}

static bool runnable(thr_t *t)
{
   if (t->state == T_RUN) return true;
   if (t->state == T_BLOCK || t->state == T_SLEEP || t->state == T_QUIESCE) {
      if (t->sig_suspend && !t->in_handler && have_suspend) return true;
   }
   return false;
}

int sim_runnable_others(void)
{
   int n = 0;
   for (int i = 0; i < nthr; i++)
      if (&T[i] != self && runnable(&T[i])) n++;
   return n;
}

static void wake_sleepers(void)
{
   for (int i = 0; i < nthr; i++) {
      thr_t *t = &T[i];
      if ((t->state == T_SLEEP || (t->state == T_BLOCK && t->timed))
          && t->deadline <= sim_sh->vtime) {
         t->state = T_RUN;
         t->timed = false;
      }
   }
}

static void set_budget(void)
{
   int64_t b;
   if (C.replay)
      b = replay_next_ev(cur);
   else if (C.strategy == 0) {
      // Geometric with mean C.mean
      b = 1 + rng_below(&rng, 2 * C.mean);
   }
   else if (C.strategy == 1)
      b = nextchange > sim_sh->events ? nextchange - sim_sh->events : 1;
   else
      b = INT32_MAX;
   if (fair_left <= 0) fair_left = FAIR;
   if (b > fair_left) b = fair_left;
   if (b < 1) b = 1;
   budget = budget_start = b;
}

static int pick_rr(thr_t *from)
{
   for (int k = 1; k <= nthr; k++) {
      int i = (from->id + k) % nthr;
      if (runnable(&T[i])) return i;
   }
   return -1;
}

static int pick_random(void)
{
   int cand[MAXT], n = 0;
   for (int i = 0; i < nthr; i++)
      if (runnable(&T[i])) cand[n++] = i;
   return n ? cand[rng_below(&rng, n)] : -1;
}

static int pick_prio(void)
{
   int best = -1;
   for (int i = 0; i < nthr; i++)
      if (runnable(&T[i]) && (best == -1 || T[i].prio > T[best].prio))
         best = i;
   return best;
}

static void run_pending(void)
{
   while (self->sig_suspend && !self->in_handler && have_suspend) {
      self->sig_suspend = false;
      self->in_handler = true;
      tstate_t os = self->state;
      const void *ow = self->waitobj;
      bool ot = self->timed;
      uint64_t od = self->deadline;
      bool owk = self->woken;
      self->state = T_RUN;
      siginfo_t si;
      memset(&si, 0, sizeof(si));
      si.si_pid = sim_pid;
      ucontext_t uc;
      memset(&uc, 0, sizeof(uc));
      getcontext(&uc);
      // Nothing live is in a caller-saved register at a schedule point
      static const int dead[] = { REG_RAX, REG_RCX, REG_RDX, REG_RSI, REG_RDI,
                                  REG_R8, REG_R9, REG_R10, REG_R11 };
      for (int i = 0; i < 9; i++) uc.uc_mcontext.gregs[dead[i]] = 0;
      (*sa_suspend.sa_sigaction)(SIGRTMIN, &si, &uc);
      self->in_handler = false;
      self->waitobj = ow;
      self->timed = ot;
      self->deadline = od;
      // Whatever was waited for may have happened during the handler: the
      // interrupted wait re-checks its condition (for a condition variable
      // this is a permitted spurious wakeup)
      self->woken = owk || os == T_BLOCK;
      self->state = os == T_BLOCK ? T_RUN : os;
   }
}

static void schedule(uint32_t kind);

// The current thread reached a decision point.
static void schedule_core(uint32_t kind)
{
   thr_t *me = self;
   sync_events();

 again:
   if (sim_sh->events > C.max_events) {
      if (!sim_sh->msg[0])
         snprintf(sim_sh->msg, sizeof(sim_sh->msg),
                  "no progress within %llu events", (unsigned long long)C.max_events);
      die(SIM_LIVELOCK);
   }
   wake_sleepers();

   bool fair = false;
   if (kind == 'P' && fair_left <= 0) {
      fair = true;
      kind = 'Y';
   }

   int next = -1, def;
   if (kind == 'P' && runnable(me)) def = me->id;
   else def = pick_rr(me);

   if (def == -1) {
      // Nobody can run: quiescence waiters first, then advance the clock
      for (int i = 0; i < nthr; i++) {
         if (T[i].state == T_QUIESCE) {
            T[i].state = T_RUN;
            goto again;
         }
      }
      uint64_t min = UINT64_MAX;
      for (int i = 0; i < nthr; i++) {
         thr_t *t = &T[i];
         if ((t->state == T_SLEEP || (t->state == T_BLOCK && t->timed))
             && t->deadline < min)
            min = t->deadline;
      }
      if (min == UINT64_MAX) {
         if (!sim_sh->msg[0]) {
            int n = snprintf(sim_sh->msg, sizeof(sim_sh->msg), "deadlock:");
            for (int i = 0; i < nthr && n < 1900; i++)
               if (T[i].state == T_BLOCK)
                  n += snprintf(sim_sh->msg + n, sizeof(sim_sh->msg) - n,
                                " t%d@%llu", i, (unsigned long long)T[i].ev);
         }
         die(SIM_DEADLOCK);
      }
      vbase += min - sim_sh->vtime;
      sim_sh->vtime = min;
      goto again;
   }

   sim_sh->decisions++;

   // Injected spurious wakeup of a condition waiter
   if (C.spurious > 0 && !C.replay) {
      if ((int)rng_below(&rng, 1000) < C.spurious) {
         for (int i = 0; i < nthr; i++) {
            thr_t *t = &T[i];
            if (t->state == T_BLOCK && t->timed == false && t->woken == false
                && t->waitobj != NULL && ((uintptr_t)t->waitobj & 1)
                && rng_below(&rng, 2) == 0) {
               record(me, 'F', i);
               t->state = T_RUN;
               t->woken = true;
               sim_sh->faults[F_SPURIOUS_WAKE]++;
               break;
            }
         }
      }
   }
   else if (C.replay) {
      for (int i = 0; i < nthr; i++) {
         thr_t *t = &T[i];
         if (t->state == T_BLOCK && !t->timed && !t->woken && t->waitobj != NULL
             && ((uintptr_t)t->waitobj & 1)) {
            int tgt = i;
            if (replay_lookup(me, 'F', &tgt)) {
               t->state = T_RUN;
               t->woken = true;
               sim_sh->faults[F_SPURIOUS_WAKE]++;
               break;
            }
         }
      }
   }

   if (C.replay) {
      int tgt = def;
      if (replay_lookup(me, kind, &tgt) && tgt < nthr && runnable(&T[tgt]))
         next = tgt;
      else
         next = def;
   }
   else if (C.strategy == 0)
      next = pick_random();
   else if (C.strategy == 1) {
      if (kind == 'Y' || fair)
         me->prio = --lowprio;
      else if (kind == 'P' && sim_sh->events >= nextchange) {
         me->prio = --lowprio;
         nextchange = sim_sh->events + 1 + rng_below(&rng, 2 * C.len / (C.depth + 1) + 1);
      }
      next = pick_prio();
   }
   else
      next = def;


   if (next != def) record(me, kind, next);

   if (fair) fair_left = FAIR;
   if (next != me->id) {
      sim_sh->switches++;
      sim_sh->ilhash = sim_mix(sim_sh->ilhash ^ (me->ev * 131 + next));
      sim_note(me->ev * 1000003 + me->id * 131 + next);
      fair_left = FAIR;
      me->ev++;      // Make decision keys unique
      sim_sh->events++;
      cur = &T[next];
      set_budget();
      const bool exiting = me->state == T_ZOMBIE;
      give_go(cur);
      if (exiting) return;
      wait_go(me);
      assert(cur == me);
   }
   else {
      // Continuing must not consume an event number at a plain preemption
      // point as a replay does not stop there
      if (kind != 'P') {
         me->ev++;
         sim_sh->events++;
      }
      set_budget();
   }
}

// The scheduler runs on a stack of its own: the collector scans thread stacks
// conservatively, so what the scheduler leaves in dead stack slots must not
// depend on how often it ran.

__attribute__((noinline))
static void schedule(uint32_t kind)
{
   thr_t *me = self;
   if (kind != 'P') budget--;    // Event numbers identify decisions
   if (me->on_alt)
      schedule_core(kind);
   else {
      me->on_alt = true;
      char *top = altstacks[me->id] + sizeof(altstacks[0]);
      void (*fn)(uint32_t) = schedule_core;
      asm volatile ("movq %%rsp, %%rbx\n\tmovq %[top], %%rsp\n\tcall *%[fn]\n\tmovq %%rbx, %%rsp"
                    : "+D"(kind), [fn] "+r"(fn), [top] "+r"(top)
                    :: "rbx", "rax", "rcx", "rdx", "rsi", "r8", "r9", "r10", "r11",
                       "memory", "cc", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5",
                       "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12",
                       "xmm13", "xmm14", "xmm15");
      me->on_alt = false;
   }
   if (me->sig_suspend && !me->in_handler)
      run_pending();
}

// A preemption point leaves nothing on the application's stack but one
// return address

__attribute__((used)) static void slow_event_alt(void)
{
   self->on_alt = true;
   schedule_core('P');
   self->on_alt = false;
}

__attribute__((used)) static void slow_event_post(void)
{
   if (self->sig_suspend && !self->in_handler)
      run_pending();
}

__attribute__((used)) static uint64_t slow_rcx, slow_ret;

// Entered by a jump with the return address in rax; preserves every other
// general purpose register
__attribute__((naked, used)) static void slow_event(void)
{
   asm volatile ("xchgq %%rax, %%rcx\n\t"            // rcx = return address, rax = old rcx
                 "movq %%rax, slow_rcx(%%rip)\n\t"   // Only one thread runs at a time
                 "movq alt_top@gottpoff(%%rip), %%rax\n\t"
                 "movq %%fs:(%%rax), %%rax\n\t"
                 "movq %%rsp, -8(%%rax)\n\t"
                 "leaq -8(%%rax), %%rsp\n\t"
                 "pushq %%rcx\n\t"
                 "movq slow_rcx(%%rip), %%rcx\n\t"
                 "pushq %%rcx\n\tpushq %%rdx\n\tpushq %%rsi\n\tpushq %%rdi\n\t"
                 "pushq %%r8\n\tpushq %%r9\n\tpushq %%r10\n\tpushq %%r11\n\t"
                 "call slow_event_alt\n\t"
                 "popq %%r11\n\tpopq %%r10\n\tpopq %%r9\n\tpopq %%r8\n\t"
                 "popq %%rdi\n\tpopq %%rsi\n\tpopq %%rdx\n\tpopq %%rcx\n\t"
                 "popq %%rax\n\t"
                 "movq %%rax, slow_ret(%%rip)\n\t"
                 "movq sim_self@gottpoff(%%rip), %%rax\n\t"
                 "movq %%fs:(%%rax), %%rax\n\t"
                 "movq (%%rsp), %%rsp\n\t"
                 "cmpb $0, %c0(%%rax)\n\t"
                 "movl $0, %%eax\n\t"
                 "jne 1f\n\t"
                 "jmpq *slow_ret(%%rip)\n"
                 "1:\tpushq slow_ret(%%rip)\n\t"
                 "pushq %%rbp\n\tmovq %%rsp, %%rbp\n\t"
                 "pushq %%rcx\n\tpushq %%rdx\n\tpushq %%rsi\n\tpushq %%rdi\n\t"
                 "pushq %%r8\n\tpushq %%r9\n\tpushq %%r10\n\tpushq %%r11\n\t"
                 "andq $-16, %%rsp\n\t"
                 "call slow_event_post\n\t"
                 "leaq -64(%%rbp), %%rsp\n\t"
                 "popq %%r11\n\tpopq %%r10\n\tpopq %%r9\n\tpopq %%r8\n\t"
                 "popq %%rdi\n\tpopq %%rsi\n\tpopq %%rdx\n\tpopq %%rcx\n\t"
                 "popq %%rbp\n\tret"
                 :: "i"(offsetof(thr_t, sig_suspend)));
}

// A decision that is always made, with an event number of its own
static void forced_point(void)
{
   budget--;
   schedule('P');
}

#define SLOW_EVENT() asm volatile ("leaq 9f(%%rip), %%rax\n\tjmp slow_event\n9:" ::: "rax", "memory", "cc", \
   "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8",      \
   "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15")

#define EVENT(w) do {                                           \
      if (active && self) {                                     \
         budget -= (w);                                         \
         if (__builtin_expect(budget <= 0, 0)) SLOW_EVENT();    \
      }                                                         \
   } while (0)

void sim_point(void) { EVENT(1); }

void sim_quiesce(void)
{
   if (!sim_active()) return;
   self->state = T_QUIESCE;
   while (self->state == T_QUIESCE)
      schedule('B');
}

bool sim_fault(fault_t kind, int permille)
{
   if (!sim_active() || permille <= 0)
      return false;
   budget--;
   sync_events();
   bool hit = false;
   if (C.replay) {
      int tgt = 1000 + kind;
      hit = replay_lookup(self, 'F', &tgt);
   }
   else
      hit = (int)rng_below(&rng, 1000) < permille;
   if (hit) {
      if (!C.replay) record(self, 'F', 1000 + kind);
      sim_sh->faults[kind]++;
   }
   self->ev++;
   sim_sh->events++;
   if (budget <= 0) SLOW_EVENT();
   return hit;
}

void sim_start(const sim_config_t *cfg, sim_shared_t *sh)
{
   C = *cfg;
   sim_sh = sh;
   if (C.max_events == 0) C.max_events = 50000000;
   if (C.mean <= 0) C.mean = 10;
   rng.s = sim_mix(cfg->seed ^ 0x5ced5ced);
   memset(T, 0, sizeof(T));
   nthr = 1;
   T[0].state = T_RUN;
   T[0].handle = pthread_self();
   T[0].prio = 1000000 + rng_below(&rng, 1000000);
   lowprio = 1000000;
   self = cur = &T[0];
   alt_top = altstacks[0] + sizeof(altstacks[0]);
   vbase = UINT64_C(1600000000000000000);
   if (C.strategy == 1)
      nextchange = 1 + rng_below(&rng, 2 * C.len / (C.depth + 1) + 1);
   fair_left = FAIR;
   sh->nthreads = 1;
   sh->hash = 14695981039346656037ull;
   set_budget();
   sync_events();
   active = true;
}

void sim_stop(void)
{
   if (active) {
      sync_events();
      active = false;
      sim_note(sim_sh->events);
      if (sim_sh->status == SIM_RUNNING) sim_sh->status = SIM_DONE;
   }
}

////////////////////////////////////////////////////////////////////////////
// Compiler instrumentation entry points

void __tsan_init(void) {}
void __tsan_func_entry(void *a) {}
void __tsan_func_exit(void) {}

#define PLAIN do { if (C.plain_weight) EVENT(1); } while (0)
#define RW(sz)                                                  \
   void __tsan_read##sz(void *a) { PLAIN; }                     \
   void __tsan_write##sz(void *a) { PLAIN; }                    \
   void __tsan_unaligned_read##sz(void *a) { PLAIN; }           \
   void __tsan_unaligned_write##sz(void *a) { PLAIN; }          \
   void __tsan_volatile_read##sz(void *a) { PLAIN; }            \
   void __tsan_volatile_write##sz(void *a) { PLAIN; }           \
   void __tsan_read_write##sz(void *a) { PLAIN; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long s) { PLAIN; }
void __tsan_write_range(void *a, unsigned long s) { PLAIN; }
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}

// Weight of an atomic relative to a plain access
#define AW 1

#define ATOM(n, type)                                                   \
   type __tsan_atomic##n##_load(const volatile type *a, int mo)         \
   { EVENT(AW); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }          \
   void __tsan_atomic##n##_store(volatile type *a, type v, int mo)      \
   { EVENT(AW); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }             \
   type __tsan_atomic##n##_exchange(volatile type *a, type v, int mo)   \
   { EVENT(AW); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }   \
   type __tsan_atomic##n##_fetch_add(volatile type *a, type v, int mo)  \
   { EVENT(AW); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }    \
   type __tsan_atomic##n##_fetch_sub(volatile type *a, type v, int mo)  \
   { EVENT(AW); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }    \
   type __tsan_atomic##n##_fetch_and(volatile type *a, type v, int mo)  \
   { EVENT(AW); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }    \
   type __tsan_atomic##n##_fetch_or(volatile type *a, type v, int mo)   \
   { EVENT(AW); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }     \
   type __tsan_atomic##n##_fetch_xor(volatile type *a, type v, int mo)  \
   { EVENT(AW); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }    \
   type __tsan_atomic##n##_fetch_nand(volatile type *a, type v, int mo) \
   { EVENT(AW); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }   \
   int __tsan_atomic##n##_compare_exchange_strong(volatile type *a,     \
      type *c, type v, int mo, int fmo)                                 \
   { EVENT(AW); return __atomic_compare_exchange_n(a, c, v, 0,          \
      __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }                            \
   int __tsan_atomic##n##_compare_exchange_weak(volatile type *a,       \
      type *c, type v, int mo, int fmo)                                 \
   { EVENT(AW); return __atomic_compare_exchange_n(a, c, v, 0,          \
      __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }                            \
   type __tsan_atomic##n##_compare_exchange_val(volatile type *a,       \
      type c, type v, int mo, int fmo)                                  \
   { EVENT(AW); __atomic_compare_exchange_n(a, &c, v, 0,                \
      __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { EVENT(AW); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) {}

////////////////////////////////////////////////////////////////////////////
// Threads, mutexes, condition variables

#define NOBJ 4096
typedef struct { const void *addr; int owner; int count; } obj_t;
static obj_t objs[NOBJ];

static obj_t *obj_for(const void *addr)
{
   unsigned h = sim_mix((uintptr_t)addr) % NOBJ;
   for (unsigned i = 0; i < NOBJ; i++) {
      obj_t *o = &objs[(h + i) % NOBJ];
      if (o->addr == addr) return o;
      if (o->addr == NULL) {
         o->addr = addr;
         o->owner = -1;
         return o;
      }
   }
   abort();
}

static void wake_on(const void *obj)
{
   for (int i = 0; i < nthr; i++)
      if (T[i].waitobj == obj && T[i].state == T_BLOCK) {
         T[i].state = T_RUN;
         T[i].woken = true;
      }
      else if (T[i].waitobj == obj && T[i].in_handler)
         T[i].woken = true;
}

static void block_on(const void *obj)
{
   self->waitobj = obj;
   self->woken = false;
   self->state = T_BLOCK;
   while (self->state == T_BLOCK)
      schedule('B');
   self->waitobj = NULL;
   self->woken = false;
}

int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_kill(pthread_t, int);
int __real_sigsuspend(const sigset_t *);
int __real_sem_post(sem_t *);
int __real_sem_trywait(sem_t *);
int __real_sem_init(sem_t *, int, unsigned);
int __real_sem_timedwait(sem_t *, const struct timespec *);
int __real_sched_yield(void);
int __real_usleep(useconds_t);
int __real_clock_gettime(clockid_t, struct timespec *);
time_t __real_time(time_t *);
int __real_gettimeofday(struct timeval *, void *);
int __real_sigaction(int, const struct sigaction *, struct sigaction *);
long __real_sysconf(int);
int __real_sched_getaffinity(pid_t, size_t, cpu_set_t *);
pid_t __real_fork(void);

static void *trampoline(void *arg)
{
   thr_t *t = arg;
   self = t;
   alt_top = altstacks[t->id] + sizeof(altstacks[0]);
   wait_go(t);
   if (t->sig_suspend && !t->in_handler) run_pending();
   t->ret = (*t->fn)(t->arg);
   // Logical exit: hand over without really exiting so that thread teardown
   // cannot race with the next thread's allocations
   t->state = T_ZOMBIE;
   wake_on(t);
   schedule('B');     // Hands over and returns immediately for a zombie
   while (__atomic_load_n(&t->reap, __ATOMIC_ACQUIRE) == 0)
      fut(&t->reap, FUTEX_WAIT, 0);
   self = NULL;
   return t->ret;
}

int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *attr,
                          void *(*fn)(void *), void *arg)
{
   if (!sim_active()) return __real_pthread_create(th, attr, fn, arg);
   EVENT(1);
   if (nthr == MAXT) return EAGAIN;
   thr_t *t = &T[nthr];
   memset(t, 0, sizeof(*t));
   t->id = nthr;
   t->fn = fn;
   t->arg = arg;
   t->state = T_RUN;
   t->prio = 1000000 + rng_below(&rng, 1000000);
   int r = __real_pthread_create(&t->handle, attr, trampoline, t);
   if (r != 0) return r;
   *th = t->handle;
   nthr++;
   sim_sh->nthreads = nthr;
   forced_point();
   return 0;
}

static thr_t *find_thr(pthread_t h)
{
   for (int i = 0; i < nthr; i++)
      if (T[i].state != T_DEAD && pthread_equal(T[i].handle, h))
         return &T[i];
   return NULL;
}

int __wrap_pthread_join(pthread_t th, void **ret)
{
   if (!sim_active()) return __real_pthread_join(th, ret);
   EVENT(1);
   thr_t *t = find_thr(th);
   if (t == NULL) return ESRCH;
   while (t->state != T_ZOMBIE)
      block_on(t);
   __atomic_store_n(&t->reap, 1, __ATOMIC_RELEASE);
   fut(&t->reap, FUTEX_WAKE, 1);
   __real_pthread_join(th, ret);
   t->state = T_DEAD;
   return 0;
}

int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
   if (!sim_active()) return __real_pthread_mutex_lock(m);
   EVENT(1);
   obj_t *o = obj_for(m);
   if (o->owner == self->id) {
      snprintf(sim_sh->msg, sizeof(sim_sh->msg), "self-deadlock on mutex");
      die(SIM_DEADLOCK);
   }
   while (o->owner != -1)
      block_on(m);
   o->owner = self->id;
   return 0;
}

int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
   if (!sim_active()) return 0;
   EVENT(1);
   obj_t *o = obj_for(m);
   if (o->owner != -1) return EBUSY;
   o->owner = self->id;
   return 0;
}

int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
   if (!sim_active()) return __real_pthread_mutex_unlock(m);
   obj_t *o = obj_for(m);
   if (o->owner != self->id) return EPERM;
   o->owner = -1;
   wake_on(m);
   forced_point();
   return 0;
}

int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
   if (!sim_active()) return __real_pthread_cond_wait(c, m);
   obj_t *o = obj_for(m);
   if (o->owner != self->id) return EPERM;
   o->owner = -1;
   wake_on(m);
   block_on((char *)c + 1);   // Odd address marks a condition wait
   while (o->owner != -1)
      block_on(m);
   o->owner = self->id;
   return 0;
}

int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
   if (!sim_active()) return __real_pthread_cond_broadcast(c);
   EVENT(1);
   wake_on((char *)c + 1);
   forced_point();
   return 0;
}

int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
   if (!sim_active()) return __real_pthread_cond_signal(c);
   EVENT(1);
   const void *obj = (char *)c + 1;
   int cand[MAXT], n = 0;
   for (int i = 0; i < nthr; i++)
      if (T[i].waitobj == obj && T[i].state == T_BLOCK) cand[n++] = i;
   if (n > 0) {
      // Any one waiter may be chosen; derive it from the local state so that
      // replay does not need an entry of its own
      thr_t *t = &T[cand[sim_mix(self->ev ^ C.seed) % n]];
      t->state = T_RUN;
      t->woken = true;
   }
   forced_point();
   return 0;
}

int __wrap_pthread_kill(pthread_t th, int sig)
{
   if (!sim_active()) return __real_pthread_kill(th, sig);
   EVENT(1);
   thr_t *t = find_thr(th);
   if (t == NULL || t->state == T_ZOMBIE) return 0;
   if (sig == SIGRTMIN) {
      t->sig_suspend = true;
      // A blocked target becomes runnable (see runnable())
   }
   else if (sig == SIGRTMIN + 1) {
      t->sig_resume = true;
      if (t->waitobj == (void *)&t->sig_resume && t->state == T_BLOCK) {
         t->state = T_RUN;
         t->woken = true;
      }
   }
   else
      return __real_pthread_kill(th, sig);
   forced_point();
   return 0;
}

int __wrap_sigsuspend(const sigset_t *mask)
{
   if (!sim_active()) return __real_sigsuspend(mask);
   EVENT(1);
   while (!self->sig_resume)
      block_on(&self->sig_resume);
   self->sig_resume = false;
   errno = EINTR;
   return -1;
}

int __wrap_sigaction(int sig, const struct sigaction *sa, struct sigaction *old)
{
   if (sig == SIGRTMIN && sa != NULL) {
      sa_suspend = *sa;
      have_suspend = true;
   }
   return __real_sigaction(sig, sa, old);
}

int __wrap_sem_init(sem_t *s, int sh, unsigned v)
{
   obj_for(s)->count = v;
   return __real_sem_init(s, sh, v);
}

int __wrap_sem_post(sem_t *s)
{
   if (!sim_active()) return __real_sem_post(s);
   EVENT(1);
   obj_for(s)->count++;
   wake_on(s);
   return 0;
}

int __wrap_sem_trywait(sem_t *s)
{
   if (!sim_active()) return __real_sem_trywait(s);
   EVENT(1);
   obj_t *o = obj_for(s);
   if (o->count == 0) {
      errno = EAGAIN;
      return -1;
   }
   o->count--;
   return 0;
}

int __wrap_sem_timedwait(sem_t *s, const struct timespec *ts)
{
   if (!sim_active()) return __real_sem_timedwait(s, ts);
   EVENT(1);
   obj_t *o = obj_for(s);
   // A simulated deadline is only reached when nothing else can run: the
   // host being slow is not modelled as a timeout here
   uint64_t deadline = UINT64_MAX - 1;
   (void)ts;
   while (o->count == 0) {
      self->timed = true;
      self->deadline = deadline;
      self->waitobj = s;
      self->woken = false;
      self->state = T_BLOCK;
      while (self->state == T_BLOCK)
         schedule('B');
      self->waitobj = NULL;
      if (!self->timed && !self->woken && o->count == 0) {
         errno = ETIMEDOUT;
         return -1;
      }
      self->timed = false;
      self->woken = false;
   }
   o->count--;
   return 0;
}

int __wrap_sched_yield(void)
{
   if (!sim_active()) return __real_sched_yield();
   schedule('Y');
   return 0;
}

int __wrap_usleep(useconds_t us)
{
   if (!sim_active()) return __real_usleep(us);
   sync_events();
   self->deadline = sim_sh->vtime + (uint64_t)us * 1000;
   self->state = T_SLEEP;
   while (self->state == T_SLEEP)
      schedule('B');
   return 0;
}

uint64_t sim_wallskew;   // Wall clock minus virtual time, any sign
int sim_pid = 4242;

// Another simulated process may have moved time on
void sim_settime(uint64_t t)
{
   if (!active) return;
   sync_events();
   if (t > sim_sh->vtime) {
      vbase += t - sim_sh->vtime;
      sim_sh->vtime = t;
   }
}

int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
   if (!sim_active()) return __real_clock_gettime(id, ts);
   EVENT(1);
   sync_events();
   uint64_t t = sim_sh->vtime + (id == CLOCK_REALTIME ? sim_wallskew : 0);
   ts->tv_sec = t / 1000000000;
   ts->tv_nsec = t % 1000000000;
   return 0;
}

time_t __wrap_time(time_t *p)
{
   if (!sim_active()) return __real_time(p);
   sync_events();
   time_t t = (sim_sh->vtime + sim_wallskew) / 1000000000;
   if (p) *p = t;
   return t;
}

int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
   if (!sim_active()) return __real_gettimeofday(tv, tz);
   sync_events();
   uint64_t t = sim_sh->vtime + sim_wallskew;
   tv->tv_sec = t / 1000000000;
   tv->tv_usec = t / 1000 % 1000000;
   return 0;
}

long __wrap_sysconf(int n)
{
   if (active && n == _SC_NPROCESSORS_ONLN && C.ncpus > 0) return C.ncpus;
   return __real_sysconf(n);
}

int __wrap_sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *s)
{
   if (active && C.ncpus > 0) { errno = ENOSYS; return -1; }
   return __real_sched_getaffinity(pid, sz, s);
}

pid_t __wrap_fork(void)
{
   pid_t p = __real_fork();
   if (p == 0) { active = false; }
   return p;
}

pid_t __real_getpid(void);
pid_t __wrap_getpid(void) { return active ? sim_pid : __real_getpid(); }
