// In-process concurrency harness: drives nvc's real concurrent components
// under the simulator.  One forked child per seed; see DESIGN.md.

#include "util.h"
#include "hash.h"
#include "ident.h"
#include "thread.h"
#include "option.h"
#include "common.h"
#include "phase.h"
#include "rt/mspace.h"
#include "mir/mir-node.h"
#include "mir/mir-unit.h"
#include "simrt.h"

#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
#include <malloc.h>
#include <time.h>

const char copy_string[] = "";
const char version_string[] = "";

static rng_t W;      // Workload stream
#define R(n) ((int)rng_below(&W, (n)))
#define PICK(...) ({ const int __p[] = { __VA_ARGS__ }; __p[R(ARRAY_LEN(__p))]; })

#define PROBE(n) (sim_sh->probes[n]++)

// Shrink controls: number of threads / operations can be capped from the
// command line so that a failure may be minimised
static int cap_threads = 1000, cap_ops = 1000000;

static int cap(int n, int c) { return n < c ? n : c; }

#define CHECK(cond, ...) do { if (!(cond)) sim_fail(__VA_ARGS__); } while (0)

////////////////////////////////////////////////////////////////////////////
// lock: mutual exclusion, progress and release of every waiter

#define MAXL 6
typedef struct {
   nvc_lock_t pad0;
   nvc_lock_t lock;
   nvc_lock_t pad1[6];
} lk_t;

static struct {
   lk_t     *locks[MAXL];
   int       owner[MAXL];
   long      counter[MAXL];
   int       nlocks;
   int       nthreads;
   int       ops;
   int       nest;
   int       hold;
} L;

static void lock_enter(int k, int me)
{
   nvc_lock(&L.locks[k]->lock);
   CHECK(L.owner[k] == -1, "mutual exclusion broken: lock %d owned by %d entered by %d",
         k, L.owner[k], me);
   L.owner[k] = me;
}

static void lock_leave(int k, int me)
{
   CHECK(L.owner[k] == me, "mutual exclusion broken: lock %d owner %d changed to %d",
         k, me, L.owner[k]);
   L.owner[k] = -1;
   nvc_unlock(&L.locks[k]->lock);
}

typedef struct { rng_t r; int id; } targ_t;

static void *lock_thread(void *arg)
{
   targ_t *t = arg;
   for (int i = 0; i < L.ops; i++) {
      int a = rng_below(&t->r, L.nlocks), b = -1;
      lock_enter(a, t->id);
      long c = L.counter[a];
      if (L.nest && a + 1 < L.nlocks && rng_below(&t->r, 3) == 0) {
         b = a + 1 + rng_below(&t->r, L.nlocks - a - 1);
         lock_enter(b, t->id);
         L.counter[b]++;
      }
      for (int h = rng_below(&t->r, L.hold + 1); h > 0; h--) sim_point();
      if (b != -1) lock_leave(b, t->id);
      L.counter[a] = c + 1;
      // Neighbouring bytes are never touched by the lock implementation
      CHECK(L.locks[a]->pad0 == 0x55 && L.locks[a]->pad1[0] == 0x55,
            "lock operation modified an adjacent byte");
      lock_leave(a, t->id);
      if (b != -1) __atomic_add_fetch(&sim_sh->state[1], 1, __ATOMIC_SEQ_CST);
      __atomic_add_fetch(&sim_sh->state[0], 1, __ATOMIC_SEQ_CST);
   }
   return NULL;
}

static void w_lock(void)
{
   L.nthreads = cap(2 + R(6), cap_threads);
   L.nlocks = 1 + R(MAXL);
   L.ops = cap(1 + R(25), cap_ops);
   L.nest = R(2);
   L.hold = PICK(0, 1, 5, 100, 300);
   // Locks that share a parking bay are the interesting case
   const bool same_bay = R(2);
   lk_t *pool = calloc(sizeof(lk_t), 4096);
   int bay = -1, n = 0;
   for (int i = 0; i < 4096 && n < L.nlocks; i++) {
      int b = mix_bits_64(&pool[i].lock) % 64;
      if (!same_bay || bay == -1 || b == bay) {
         bay = b;
         L.locks[n] = &pool[i];
         memset(&pool[i], 0x55, sizeof(lk_t));
         pool[i].lock = 0;
         L.owner[n] = -1;
         n++;
      }
   }
   L.nlocks = n;
   nvc_thread_t *th[16];
   targ_t args[16];
   for (int i = 0; i < L.nthreads; i++) {
      args[i] = (targ_t){ { rng_next(&W) }, i };
      th[i] = thread_create(lock_thread, &args[i], "t%d", i);
   }
   for (int i = 0; i < L.nthreads; i++)
      thread_join(th[i]);
   long total = 0;
   for (int i = 0; i < L.nlocks; i++) {
      total += L.counter[i];
      CHECK(!(L.locks[i]->lock & 1), "lock %d not free after all threads finished (%d)",
            i, L.locks[i]->lock);
   }
   CHECK(total == sim_sh->state[0] + sim_sh->state[1],
         "lost update inside critical section: %ld of %ld", total,
         (long)(sim_sh->state[0] + sim_sh->state[1]));
}

////////////////////////////////////////////////////////////////////////////
// workq: exactly-once execution, drain/barrier completeness

#define MAXTASK 4096
typedef struct {
   int  state;        // 0 = not submitted, 1 = submitted, 2 = running, 3 = done
   int  executed;
   int  kind;
   void *context;
   int  spawn;        // Queue to submit child tasks to (-1 none)
   int  nspawn;
   int  work;
   int  index;
} qtask_t;

static qtask_t  Q[MAXTASK];
static int      nQ;
static workq_t *wqs[4];
static int      nwq;
static int      cookie[4];

static qtask_t *q_new(int kind, int work)
{
   // Atomic allocation as tasks may spawn
   int i = __atomic_fetch_add(&nQ, 1, __ATOMIC_SEQ_CST);
   CHECK(i < MAXTASK, "harness: too many tasks");
   Q[i] = (qtask_t){ .kind = kind, .work = work, .spawn = -1, .index = i };
   return &Q[i];
}

static void q_run(void *context, void *arg)
{
   qtask_t *t = arg;
   CHECK(t >= Q && t < Q + nQ, "task executed with a corrupt argument");
   CHECK(t->context == context, "task %d executed with the wrong context", t->index);
   int n = __atomic_add_fetch(&t->executed, 1, __ATOMIC_SEQ_CST);
   CHECK(n == 1, "task %d executed %d times", t->index, n);
   CHECK(t->state == 1, "task %d executed before it was started (state %d)",
         t->index, t->state);
   t->state = 2;
   for (int i = 0; i < t->work; i++) sim_point();
   if (t->spawn >= 0) {
      for (int i = 0; i < t->nspawn; i++) {
         qtask_t *c = q_new(t->spawn, t->work % 3);
         c->context = &cookie[t->spawn];
         workq_do(wqs[t->spawn], q_run, c);
      }
   }
   if (thread_id() != 0) PROBE(1); else PROBE(2);
   t->state = 3;
}

static void w_workq(void)
{
   nwq = 1 + R(3);
   const bool nonpar = R(12) == 0;
   for (int i = 0; i < nwq; i++) {
      wqs[i] = workq_new(&cookie[i]);
      if (nonpar && i == 0) workq_not_thread_safe(wqs[i]);
   }
   const int rounds = cap(1 + R(6), cap_ops);
   int first[4] = {};
   for (int r = 0; r < rounds; r++) {
      const int q = R(nwq);
      const int n = PICK(0, 1, 2, 3, 5, 8, 9, 20, 40, 70, 130, 600);
      const int work = PICK(0, 0, 1, 5, 30);
      const int spawnto = nwq > 1 && R(3) == 0 ? (q + 1) % nwq : -1;
      const int asyncs = R(4) == 0 ? R(12) : 0;
      if (nQ + n * 2 + asyncs + 64 > MAXTASK) break;
      for (int i = 0; i < n; i++) {
         qtask_t *t = q_new(q, work);
         t->context = &cookie[q];
         if (spawnto >= 0 && R(10) == 0 && nQ < MAXTASK / 2) {
            t->spawn = spawnto;
            t->nspawn = 1 + R(2);
         }
         workq_do(wqs[q], q_run, t);
      }
      int lo = nQ;
      for (int i = 0; i < asyncs; i++) {
         qtask_t *t = q_new(-1, R(10));
         t->context = &cookie[3];
         t->state = 1;
         async_do(q_run, &cookie[3], t);
      }
      for (int i = 0; i < nQ; i++) {
         if (Q[i].kind == q && Q[i].state == 0) Q[i].state = 1;
      }
      workq_start(wqs[q]);
      if (R(2)) for (int i = R(50); i > 0; i--) sim_point();
      const bool more = R(4) == 0;
      for (int i = 0; more && i < 3; i++) {
         qtask_t *t = q_new(-1, R(10));
         t->context = &cookie[3];
         t->state = 1;
         async_do(q_run, &cookie[3], t);
      }
      workq_drain(wqs[q]);
      int count = 0;
      for (int i = 0; i < nQ; i++) {
         if (Q[i].kind == q && Q[i].state != 0) {
            CHECK(Q[i].executed == 1 && Q[i].state == 3,
                  "drain returned but task %d of queue %d executed %d times, state %d",
                  i, q, Q[i].executed, Q[i].state);
            count++;
         }
         else if (Q[i].kind >= 0 && Q[i].state == 0)
            CHECK(Q[i].executed == 0, "task %d ran before its queue was started", i);
      }
      sim_sh->state[0] += count;
      (void)first; (void)lo;
      if (R(3) == 0) {
         async_barrier();
         for (int i = 0; i < nQ; i++)
            if (Q[i].kind == -1)
               CHECK(Q[i].executed == 1 && Q[i].state == 3,
                     "async_barrier returned but async task %d executed %d times, state %d",
                     i, Q[i].executed, Q[i].state);
      }
   }
   // Run anything spawned onto the other queues
   for (int k = 0; k < nwq; k++) {
      for (int pass = 0; pass < 4; pass++) {
         bool any = false;
         for (int i = 0; i < nQ; i++)
            if (Q[i].kind == k && Q[i].state == 0) { Q[i].state = 1; any = true; Q[i].spawn = -1; }
         if (!any) break;
         workq_start(wqs[k]);
         workq_drain(wqs[k]);
      }
   }
   async_barrier();
   for (int i = 0; i < nQ; i++)
      CHECK(Q[i].executed == 1 && Q[i].state == 3,
            "task %d (queue %d) executed %d times at end, state %d", i, Q[i].kind,
            Q[i].executed, Q[i].state);
   for (int i = 0; i < nwq; i++) workq_free(wqs[i]);
}

// async: background tasks complete without anyone waiting on a barrier
static void w_async(void)
{
   const int rounds = cap(1 + R(5), cap_ops);
   for (int r = 0; r < rounds; r++) {
      const int n = 1 + R(PICK(1, 3, 12, 40));
      for (int i = 0; i < n; i++) {
         qtask_t *t = q_new(-1, R(20));
         t->context = &cookie[3];
         t->state = 1;
         async_do(q_run, &cookie[3], t);
         for (int k = R(PICK(1, 10, 200)); k > 0; k--) sim_point();
      }
      if (R(2)) {
         // The submitting thread is busy elsewhere: once every other thread
         // has gone to sleep nothing may be left undone
         sim_quiesce();
         for (int i = 0; i < nQ; i++)
            CHECK(Q[i].executed == 1 && Q[i].state == 3,
                  "async task %d never executed: all workers asleep (executed %d)",
                  i, Q[i].executed);
      }
      else if (R(2)) {
         async_barrier();
         for (int i = 0; i < nQ; i++)
            CHECK(Q[i].executed == 1 && Q[i].state == 3,
                  "async_barrier returned but async task %d executed %d times, state %d",
                  i, Q[i].executed, Q[i].state);
      }
   }
   async_barrier();
   for (int i = 0; i < nQ; i++)
      CHECK(Q[i].executed == 1 && Q[i].state == 3,
            "async task %d executed %d times at end, state %d", i, Q[i].executed, Q[i].state);
   sim_sh->state[0] += nQ;
}

// barrier: nobody leaves phase p before everybody reached it
static barrier_t *bar;
static int        bar_count, bar_phase[16], bar_rounds;

static void *bar_thread(void *arg)
{
   targ_t *t = arg;
   for (int p = 0; p < bar_rounds; p++) {
      for (int k = rng_below(&t->r, 20); k > 0; k--) sim_point();
      bar_phase[t->id] = p + 1;
      barrier_wait(bar);
      for (int i = 0; i < bar_count; i++) {
         int q = __atomic_load_n(&bar_phase[i], __ATOMIC_SEQ_CST);
         CHECK(q >= p + 1, "thread %d passed barrier %d but thread %d is in phase %d",
               t->id, p, i, q);
         CHECK(q <= p + 2, "thread %d ran ahead of barrier %d", i, p);
      }
      __atomic_add_fetch(&sim_sh->state[0], 1, __ATOMIC_SEQ_CST);
   }
   return NULL;
}

static void w_barrier(void)
{
   bar_count = cap(2 + R(6), cap_threads);
   bar_rounds = cap(1 + R(10), cap_ops);
   bar = barrier_new(bar_count);
   nvc_thread_t *th[16];
   targ_t args[16];
   for (int i = 0; i < bar_count; i++) {
      args[i] = (targ_t){ { rng_next(&W) }, i };
      th[i] = thread_create(bar_thread, &args[i], "b%d", i);
   }
   for (int i = 0; i < bar_count; i++)
      thread_join(th[i]);
   barrier_free(bar);
}

////////////////////////////////////////////////////////////////////////////
// ident: interning is canonical

#define MAXSTR 6000
static struct {
   int    nstr;
   char  *str[MAXSTR];
   ident_t seen[MAXSTR];     // First ident published for each string
   int    nthreads, ops, mode;
   ident_t uniq[8192];
   int    nuniq;
} I;

static void ident_check(int k, ident_t id)
{
   CHECK(id != NULL, "ident_new returned null");
   CHECK(strcmp(istr(id), I.str[k]) == 0, "identifier for '%s' reads back as '%s'",
         I.str[k], istr(id));
   CHECK(ident_len(id) == strlen(I.str[k]), "identifier '%s' has length %d", I.str[k],
         (int)ident_len(id));
   ident_t prev = NULL;
   if (!__atomic_compare_exchange_n(&I.seen[k], &prev, id, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
      CHECK(prev == id, "string '%s' interned twice at different addresses", I.str[k]);
   __atomic_add_fetch(&sim_sh->state[0], 1, __ATOMIC_SEQ_CST);
}

static void *ident_thread(void *arg)
{
   targ_t *t = arg;
   for (int i = 0; i < I.ops; i++) {
      const int k = I.mode == 1 ? (i + t->id * 7) % I.nstr : rng_below(&t->r, I.nstr);
      switch (rng_below(&t->r, 8)) {
      case 0: case 1: case 2:
         ident_check(k, ident_new(I.str[k]));
         break;
      case 3:
         {
            // Followed by more characters
            char buf[128];
            int n = strlen(I.str[k]);
            snprintf(buf, sizeof(buf), "%sZZ", I.str[k]);
            ident_check(k, ident_new_n(buf, n));
         }
         break;
      case 4:
         {
            char *dot = strchr(I.str[k], '.');
            if (dot && dot != I.str[k] && dot[1]) {
               char a[128];
               snprintf(a, sizeof(a), "%.*s", (int)(dot - I.str[k]), I.str[k]);
               ident_t p = ident_prefix(ident_new(a), ident_new(dot + 1), '.');
               ident_check(k, p);
               CHECK(ident_until(p, '.') == ident_new(a), "ident_until is not canonical");
               CHECK(ident_from(p, '.') == ident_new(dot + 1), "ident_from is not canonical");
            }
            else
               ident_check(k, ident_new(I.str[k]));
         }
         break;
      case 5:
         ident_check(k, ident_sprintf("%s", I.str[k]));
         break;
      case 6:
         {
            ident_t u = ident_uniq("%s", I.str[k]);
            int n = __atomic_fetch_add(&I.nuniq, 1, __ATOMIC_SEQ_CST);
            if (n < ARRAY_LEN(I.uniq)) I.uniq[n] = u;
            PROBE(3);
         }
         break;
      case 7:
         {
            ident_t id = ident_new(I.str[k]);
            ident_check(k, id);
            CHECK(icmp(id, I.str[k]), "icmp fails for '%s'", I.str[k]);
         }
         break;
      }
   }
   return NULL;
}

static int ptr_cmp(const void *a, const void *b)
{
   uintptr_t x = *(uintptr_t *)a, y = *(uintptr_t *)b;
   return x < y ? -1 : x > y;
}

static void w_ident(void)
{
   I.nthreads = cap(2 + R(6), cap_threads);
   I.nstr = PICK(1, 3, 3, 10, 10, 40, 40, 100, 100, 300, 800, 1500);
   I.ops = cap(PICK(3, 20, 100, 500), cap_ops);
   I.mode = R(2);
   if (I.nstr >= 800) I.ops = cap(I.nstr, cap_ops);
   const int tag = R(1000);
   for (int i = 0; i < I.nstr; i++) {
      char buf[128];
      switch (R(4)) {
      case 0: snprintf(buf, sizeof(buf), "q%dx%d", tag, i); break;
      case 1: snprintf(buf, sizeof(buf), "LIB%d.%d", tag, i); break;
      case 2: snprintf(buf, sizeof(buf), "%d-a-long-identifier-%d-padding.abcdefgh%d", i, tag, i); break;
      default: snprintf(buf, sizeof(buf), "%d", i + 100000 * tag); break;
      }
      I.str[i] = strdup(buf);
      // Some are interned before the threads start
      if (R(5) == 0) ident_check(i, ident_new(buf));
   }
   nvc_thread_t *th[16];
   targ_t args[16];
   for (int i = 0; i < I.nthreads; i++) {
      args[i] = (targ_t){ { rng_next(&W) }, i };
      th[i] = thread_create(ident_thread, &args[i], "i%d", i);
   }
   for (int i = 0; i < I.nthreads; i++)
      thread_join(th[i]);
   ident_t all[MAXSTR];
   int n = 0;
   for (int i = 0; i < I.nstr; i++) {
      if (I.seen[i]) {
         ident_check(i, ident_new(I.str[i]));
         all[n++] = I.seen[i];
      }
   }
   qsort(all, n, sizeof(ident_t), ptr_cmp);
   for (int i = 1; i < n; i++)
      CHECK(all[i] != all[i - 1], "two different strings share one identifier '%s'", istr(all[i]));
   const int nu = I.nuniq < ARRAY_LEN(I.uniq) ? I.nuniq : ARRAY_LEN(I.uniq);
   qsort(I.uniq, nu, sizeof(ident_t), ptr_cmp);
   for (int i = 1; i < nu; i++)
      CHECK(I.uniq[i] != I.uniq[i - 1], "ident_uniq returned '%s' twice", istr(I.uniq[i]));
}

////////////////////////////////////////////////////////////////////////////
// chash: linearizable map

enum { OP_PUT, OP_GET, OP_CAS };
typedef struct {
   uint64_t inv, ret;
   int      op;
   uintptr_t arg, cmp, res;
} hop_t;

#define MAXHK 4
#define MAXHOP 60
static struct {
   chash_t *h;
   char     keys[MAXHK][16] __attribute__((aligned(16)));
   int      nkeys, nthreads, ops, filler, initsz;
   hop_t    hist[MAXHK][MAXHOP];
   int      nhist[MAXHK];
   int      nextval;
   char    *fill[16][64];
} H;

static void *key_ptr(int k) { return H.keys[k]; }

static void *chash_thread(void *arg)
{
   targ_t *t = arg;
   int nf = 0;
   uintptr_t last[MAXHK] = {};
   for (int i = 0; i < H.ops; i++) {
      if (H.filler && rng_below(&t->r, 3) == 0 && nf < 60) {
         char *k = aligned_alloc(16, 16);
         if (rng_below(&t->r, 3) == 0) {
            void *r = chash_cas(H.h, k, NULL, k + 8);
            CHECK(r == NULL, "chash_cas on a fresh key returned %p", r);
            PROBE(5);
         }
         else
            chash_put(H.h, k, k + 8);
         H.fill[t->id][nf++] = k;
         CHECK(chash_get(H.h, k) == k + 8, "own insertion not visible");
         continue;
      }
      const int k = rng_below(&t->r, H.nkeys);
      int slot = __atomic_fetch_add(&H.nhist[k], 1, __ATOMIC_SEQ_CST);
      if (slot >= MAXHOP) break;
      hop_t *o = &H.hist[k][slot];
      o->op = rng_below(&t->r, 3);
      o->arg = (uintptr_t)__atomic_add_fetch(&H.nextval, 1, __ATOMIC_SEQ_CST) * 16;
      o->inv = sim_now();
      switch (o->op) {
      case OP_PUT:
         chash_put(H.h, key_ptr(k), (void *)o->arg);
         last[k] = o->arg;
         break;
      case OP_GET:
         last[k] = o->res = (uintptr_t)chash_get(H.h, key_ptr(k));
         break;
      case OP_CAS:
         o->cmp = last[k];
         o->res = (uintptr_t)chash_cas(H.h, key_ptr(k), (void *)o->cmp, (void *)o->arg);
         if (o->res == o->cmp) { last[k] = o->arg; PROBE(6); } else last[k] = o->res;
         break;
      }
      o->ret = sim_now();
      __atomic_add_fetch(&sim_sh->state[0], 1, __ATOMIC_SEQ_CST);
   }
   return NULL;
}

// Wing & Gong with memoisation on (done set, value)
static hop_t   *LO;
static int      LN;
static uint64_t lin_steps;

typedef struct { uint64_t set, val; } memo_t;
#define NMEMO 65536
static memo_t memo[NMEMO];

static bool lin(uint64_t done, uintptr_t val)
{
   if (done == (LN == 64 ? ~UINT64_C(0) : (UINT64_C(1) << LN) - 1)) return true;
   if (++lin_steps > 2000000) return true;   // Give up: inconclusive
   uint64_t hk = sim_mix(done * 31 + val);
   memo_t *m = &memo[hk % NMEMO];
   if (m->set == done && m->val == val && done != 0) return false;
   uint64_t minret = UINT64_MAX;
   for (int i = 0; i < LN; i++)
      if (!(done >> i & 1) && LO[i].ret < minret) minret = LO[i].ret;
   for (int i = 0; i < LN; i++) {
      if ((done >> i & 1) || LO[i].inv > minret) continue;
      uintptr_t nv = val;
      bool ok = true;
      switch (LO[i].op) {
      case OP_PUT: nv = LO[i].arg; break;
      case OP_GET: ok = LO[i].res == val; break;
      case OP_CAS:
         ok = LO[i].res == val;
         if (val == LO[i].cmp) nv = LO[i].arg;
         break;
      }
      if (ok && lin(done | UINT64_C(1) << i, nv)) return true;
   }
   *m = (memo_t){ done, val };
   return false;
}

static int iter_seen, iter_bad;
static void iter_cb(const void *key, void *value)
{
   iter_seen++;
   if (key == NULL) iter_bad++;
}

static void w_chash(void)
{
   H.nthreads = cap(2 + R(4), cap_threads);
   H.nkeys = 1 + R(MAXHK);
   H.ops = cap(2 + R(12), cap_ops);
   H.filler = R(3) != 0;
   H.initsz = PICK(2, 4, 4, 8, 16, 64);
   if (H.filler) H.ops *= 2;
   // The table only ever grows at an insertion that finds more than half
   // of it used: with fewer free slots than threads in flight past that
   // point it can fill up.  nvc never creates a table that small.
   while (H.initsz / 2 - 1 < H.nthreads) H.initsz *= 2;
   H.h = chash_new(H.initsz);
   nvc_thread_t *th[16];
   targ_t args[16];
   for (int i = 0; i < H.nthreads; i++) {
      args[i] = (targ_t){ { rng_next(&W) }, i };
      th[i] = thread_create(chash_thread, &args[i], "c%d", i);
   }
   for (int i = 0; i < H.nthreads; i++)
      thread_join(th[i]);
   int present = 0;
   for (int i = 0; i < H.nthreads; i++)
      for (int j = 0; j < 64 && H.fill[i][j]; j++) {
         CHECK(chash_get(H.h, H.fill[i][j]) == H.fill[i][j] + 8,
               "insertion %d of thread %d was lost (reads %p)", j, i,
               chash_get(H.h, H.fill[i][j]));
         present++;
      }
   for (int k = 0; k < H.nkeys; k++) {
      int n = H.nhist[k] < MAXHOP ? H.nhist[k] : MAXHOP;
      if (n > 0) present++;
      // Final read closes the history
      hop_t *o = &H.hist[k][n < MAXHOP ? n : MAXHOP - 1];
      if (n < MAXHOP) {
         o->op = OP_GET;
         o->inv = sim_now();
         o->res = (uintptr_t)chash_get(H.h, key_ptr(k));
         o->ret = sim_now();
         n++;
      }
      LO = H.hist[k];
      LN = n;
      lin_steps = 0;
      memset(memo, 0, sizeof(memo));
      if (!lin(0, 0)) {
         char buf[1500];
         int p = 0;
         for (int i = 0; i < n && p < 1350; i++)
            p += snprintf(buf + p, sizeof(buf) - p, " %s(%d%s%d)=%d@%d-%d",
                          LO[i].op == OP_PUT ? "put" : LO[i].op == OP_GET ? "get" : "cas",
                          (int)LO[i].cmp / 16, LO[i].op == OP_CAS ? "->" : ",",
                          (int)LO[i].arg / 16, (int)LO[i].res / 16,
                          (int)LO[i].inv, (int)LO[i].ret);
         sim_fail("history of key %d is not linearizable:%s", k, buf);
      }
      if (lin_steps > 2000000) PROBE(7);
   }
   // A get of a never-inserted key finds nothing
   static char absent[16] __attribute__((aligned(16)));
   CHECK(chash_get(H.h, absent) == NULL, "chash_get of an absent key returned a value");
   chash_iter(H.h, iter_cb);
   CHECK(iter_bad == 0, "chash_iter visited %d null keys", iter_bad);
   CHECK(iter_seen <= present, "chash_iter visited %d of %d keys", iter_seen, present);
   chash_free(H.h);
}

////////////////////////////////////////////////////////////////////////////
// mspace: nothing reachable is reclaimed or handed out twice

typedef struct gcobj {
   uint64_t      id;
   uint32_t      size;     // Total size in bytes
   uint32_t      nptr;
   struct gcobj *ptr[];    // nptr pointers followed by a pattern
} gcobj_t;

static struct {
   mspace_t *m;
   int       nthreads, ops, maxsize, useidx, heap;
   uint64_t  nextid;
   mptr_t    shared[8];
   nvc_lock_t shlock;
   int       churn;
} G;

static inline uint8_t pat(uint64_t id, uint32_t i)
{
   return id * 37 + i * 11 + 5;
}

__attribute__((noinline))
static gcobj_t *gc_new(tlab_t *tlab, uint32_t payload, int nptr)
{
   uint32_t size = sizeof(gcobj_t) + nptr * sizeof(void *) + payload;
   gcobj_t *o = tlab ? tlab_alloc(tlab, size) : mspace_alloc(G.m, size);
   o->id = __atomic_add_fetch(&G.nextid, 1, __ATOMIC_SEQ_CST);
   o->size = size;
   o->nptr = nptr;
   for (int i = 0; i < nptr; i++) o->ptr[i] = NULL;
   uint8_t *p = (uint8_t *)&o->ptr[nptr];
   for (uint32_t i = 0; i < payload; i++) p[i] = pat(o->id, i);
   return o;
}

static int gc_verify(gcobj_t *o, int depth, const char *what)
{
   if (o == NULL || depth > 40) return 0;
   CHECK(o->id >= 1 && o->id <= G.nextid && o->nptr <= 16 && o->size < 1 << 20,
         "object reachable from %s at depth %d was overwritten", what, depth);
   uint32_t payload = o->size - sizeof(gcobj_t) - o->nptr * sizeof(void *);
   uint8_t *p = (uint8_t *)&o->ptr[o->nptr];
   for (uint32_t i = 0; i < payload; i++)
      CHECK(p[i] == pat(o->id, i),
            "object %d reachable from %s at depth %d corrupted at byte %d",
            (int)o->id, what, depth, i);
   int n = 1;
   for (uint32_t i = 0; i < o->nptr; i++)
      n += gc_verify(o->ptr[i], depth + 1, what);
   return n;
}

static void gc_thread_body(targ_t *t)
{
   gcobj_t *local[6] = {};
   mptr_t root = mptr_new(G.m, "harness");
   for (int i = 0; i < G.ops; i++) {
      const int payload = rng_below(&t->r, G.maxsize);
      switch (rng_below(&t->r, 8)) {
      case 0: case 1:
         {
            // Garbage
            gcobj_t *o = gc_new(NULL, payload, 0);
            CHECK(gc_verify(o, 0, "new") == 1, "fresh object corrupt");
         }
         break;
      case 2:
         {
            int k = rng_below(&t->r, 6);
            gcobj_t *o = gc_new(NULL, payload % 64, 2);
            if (rng_below(&t->r, 2)) o->ptr[0] = local[rng_below(&t->r, 6)];
            if (gc_verify(o, 0, "chain") > 6) o->ptr[0] = NULL;
            local[k] = o;
         }
         break;
      case 3:
         {
            gcobj_t *o = gc_new(NULL, payload % 100, 3);
            o->ptr[rng_below(&t->r, 3)] = *mptr_get(root);
            if (gc_verify(o, 0, "root chain") > 5)
               for (int j = 0; j < 3; j++) o->ptr[j] = NULL;
            *mptr_get(root) = o;
         }
         break;
      case 4:
         {
            tlab_t *tl = tlab_acquire(G.m);
            gcobj_t *a = gc_new(tl, payload % 64, 2);
            // The only reference to the heap object is in the TLAB
            a->ptr[1] = gc_new(NULL, payload, 0);
            gcobj_t *g = gc_new(NULL, payload, 0);
            (void)g;
            gc_verify(a, 0, "tlab");
            tlab_reset(tl);
            tlab_release(tl);
            PROBE(9);
         }
         break;
      case 5:
         {
            // Publish through a shared root
            nvc_lock(&G.shlock);
            int k = rng_below(&t->r, 8);
            gcobj_t *o = gc_new(NULL, payload % 200, 1);
            gcobj_t *old = *mptr_get(G.shared[k]);
            gc_verify(old, 0, "shared root");
            *mptr_get(G.shared[k]) = o;
            nvc_unlock(&G.shlock);
         }
         break;
      case 6:
         {
            mptr_t tmp = mptr_new(G.m, "tmp");
            *mptr_get(tmp) = gc_new(NULL, payload, 0);
            gcobj_t *g = gc_new(NULL, payload, 0);
            (void)g;
            gc_verify(*mptr_get(tmp), 0, "temporary root");
            mptr_free(G.m, &tmp);
         }
         break;
      case 7:
         {
            // Interior pointers keep the object alive and mspace_find is exact
            const size_t sz = sizeof(gcobj_t) + payload;
            gcobj_t *o = gc_new(NULL, payload, 0);
            char *volatile mid = (char *)o + rng_below(&t->r, sz + 1);
            size_t fsz;
            char *base = mspace_find(G.m, mid, &fsz);
            CHECK(base == (char *)o && fsz >= sz, "mspace_find returned the wrong object");
            CHECK(fsz < sz + 256, "object of %zu bytes occupies %zu", sz, fsz);
            o = NULL; base = NULL;
            gcobj_t *g = gc_new(NULL, payload, 0);
            (void)g;
            base = mspace_find(G.m, mid, &fsz);
            gc_verify((gcobj_t *)base, 0, "interior pointer");
         }
         break;
      }
      for (int k = 0; k < 6; k++) gc_verify(local[k], 0, "stack");
      gc_verify(*mptr_get(root), 0, "root");
      if (rng_below(&t->r, 5) == 0) local[rng_below(&t->r, 6)] = NULL;
      if (rng_below(&t->r, 12) == 0) *mptr_get(root) = NULL;
      __atomic_add_fetch(&sim_sh->state[0], 1, __ATOMIC_SEQ_CST);
   }
   mptr_free(G.m, &root);
}

static void *gc_thread(void *arg)
{
   mspace_stack_limit(MSPACE_CURRENT_FRAME);
   gc_thread_body(arg);
   return NULL;
}

static void w_mspace(void)
{
   G.nthreads = cap(1 + R(5), cap_threads);
   G.maxsize = PICK(16, 64, 300, 900);
   G.heap = 96 * 1024 + G.maxsize * 64 * G.nthreads;
   G.ops = cap(PICK(5, 20, 60, 120), cap_ops);
   const bool stress = R(4) == 0;
   if (stress) G.ops = cap(G.ops, 12);
   // Fill the heap quickly so that collections happen inside the run
   if (!stress && R(2)) G.heap = 40 * 1024 * G.nthreads;
   opt_set_int(OPT_GC_STRESS, stress);
   G.m = mspace_new(G.heap);
   for (int i = 0; i < 8; i++) G.shared[i] = mptr_new(G.m, "shared");
   nvc_thread_t *th[16];
   targ_t args[16];
   for (int i = 0; i < G.nthreads; i++) {
      args[i] = (targ_t){ { rng_next(&W) }, i };
      th[i] = thread_create(gc_thread, &args[i], "g%d", i);
   }
   if (R(2)) {
      targ_t mine = { { rng_next(&W) }, 15 };
      gc_thread_body(&mine);
   }
   for (int i = 0; i < G.nthreads; i++)
      thread_join(th[i]);
   for (int i = 0; i < 8; i++) {
      gc_verify(*mptr_get(G.shared[i]), 0, "shared root at end");
      mptr_free(G.m, &G.shared[i]);
   }
   mspace_destroy(G.m);
}

// gcspace: garbage is actually reclaimed - allocation succeeds far beyond the
// heap size when little is live
__attribute__((noinline))
static void gcspace_round(int payload, gcobj_t **keep)
{
   gcobj_t *o = gc_new(NULL, payload, 1);
   o->ptr[0] = NULL;
   gc_verify(o, 0, "fresh");
   *keep = o;
}

static void *gcspace_thread(void *arg)
{
   targ_t *t = arg;
   mspace_stack_limit(MSPACE_CURRENT_FRAME);
   gcobj_t *keep[4] = {};
   for (int i = 0; i < G.ops; i++) {
      gcspace_round(rng_below(&t->r, G.maxsize), &keep[i % 4]);
      for (int k = 0; k < 4; k++) gc_verify(keep[k], 0, "stack");
      __atomic_add_fetch(&sim_sh->state[0], 1, __ATOMIC_SEQ_CST);
   }
   return NULL;
}

// Other threads never allocate: with several allocating threads one may
// legitimately lose everything a collection freed to the others
static void *gcspace_noise(void *arg)
{
   mspace_stack_limit(MSPACE_CURRENT_FRAME);
   targ_t *t = arg;
   for (int i = 0; i < 40; i++) {
      mptr_t p = mptr_new(G.m, "noise");
      for (int k = rng_below(&t->r, 8); k > 0; k--) sim_point();
      mptr_free(G.m, &p);
   }
   return NULL;
}

static void w_gcspace(void)
{
   G.nthreads = cap(1 + R(4), cap_threads);
   G.maxsize = PICK(32, 200, 500);
   G.heap = 16 * 1024;
   G.ops = cap(3 * G.heap / (G.maxsize / 2 + 48), cap_ops);
   G.m = mspace_new(G.heap);
   nvc_thread_t *th[16];
   targ_t args[16];
   for (int i = 0; i < G.nthreads; i++) {
      args[i] = (targ_t){ { rng_next(&W) }, i };
      th[i] = thread_create(i == 0 ? gcspace_thread : gcspace_noise,
                            &args[i], "g%d", i);
   }
   for (int i = 0; i < G.nthreads; i++)
      thread_join(th[i]);
   mspace_destroy(G.m);
}

////////////////////////////////////////////////////////////////////////////
// stopworld: everyone else is stopped between stop_world and start_world

static struct {
   int  nthreads, ops, stopped, stopper;
   long progress[16];
   int  cbcount[MAX_THREADS];
   int  dummy;
} S;

static void stop_cb(int id, struct cpu_state *cpu, void *arg)
{
   CHECK(arg == &S.dummy, "stop_world callback got the wrong argument");
   CHECK(id >= 0 && id < MAX_THREADS, "stop_world callback for bad thread %d", id);
   __atomic_fetch_add(&S.cbcount[id], 1, __ATOMIC_SEQ_CST);
}

static void *sw_child(void *arg)
{
   for (int i = 0; i < 3; i++) sim_point();
   return NULL;
}

static void *sw_thread(void *arg)
{
   targ_t *t = arg;
   for (int i = 0; i < S.ops; i++) {
      S.progress[t->id]++;
      CHECK(!__atomic_load_n(&S.stopped, __ATOMIC_SEQ_CST),
            "thread %d ran while the world was stopped by %d", t->id, S.stopper);
      switch (rng_below(&t->r, 6)) {
      case 0:
         {
            stop_world(stop_cb, &S.dummy);
            S.stopper = t->id;
            __atomic_store_n(&S.stopped, 1, __ATOMIC_SEQ_CST);
            long snap[16];
            for (int k = 0; k < 16; k++) snap[k] = S.progress[k];
            for (int k = 0; k < 30; k++) sim_point();
            for (int k = 0; k < 16; k++)
               CHECK(snap[k] == S.progress[k], "thread %d made progress while stopped", k);
            for (int k = 0; k < MAX_THREADS; k++) {
               CHECK(S.cbcount[k] <= 1, "callback ran %d times for thread %d", S.cbcount[k], k);
               S.cbcount[k] = 0;
            }
            __atomic_store_n(&S.stopped, 0, __ATOMIC_SEQ_CST);
            start_world();
            __atomic_add_fetch(&sim_sh->state[0], 1, __ATOMIC_SEQ_CST);
         }
         break;
      case 1:
         {
            nvc_thread_t *c = thread_create(sw_child, NULL, "child");
            thread_join(c);
         }
         break;
      default:
         sim_point();
      }
   }
   return NULL;
}

static void w_stopworld(void)
{
   S.nthreads = cap(2 + R(4), cap_threads);
   S.ops = cap(3 + R(10), cap_ops);
   nvc_thread_t *th[16];
   targ_t args[16];
   for (int i = 0; i < S.nthreads; i++) {
      args[i] = (targ_t){ { rng_next(&W) }, i };
      th[i] = thread_create(sw_thread, &args[i], "s%d", i);
   }
   for (int i = 0; i < S.nthreads; i++)
      thread_join(th[i]);
}

////////////////////////////////////////////////////////////////////////////
// mirtype: type interning is canonical across threads

#define NSHAPE 5000
static struct {
   mir_context_t *mc;
   uint32_t seen[NSHAPE];
   int nthreads, ops, range;
} M;

static mir_type_t mk_type(mir_unit_t *mu, int k, int depth);

static mir_type_t mk_leaf(mir_unit_t *mu, int k)
{
   switch (k % 5) {
   case 0: return mir_int_type(mu, 0, k);
   case 1: return mir_int_type(mu, -k, k);
   case 2: return mir_real_type(mu, -k, k * 2.0);
   case 3: return mir_int_type(mu, k, INT32_MAX);
   default: return mir_double_type(mu);
   }
}

static mir_type_t mk_type(mir_unit_t *mu, int k, int depth)
{
   const int sub = k / 9;
   if (depth > 3 || sub == 0) return mk_leaf(mu, k);
   switch (k % 9) {
   case 0: return mir_pointer_type(mu, mk_leaf(mu, sub));
   case 1: return mir_access_type(mu, mk_leaf(mu, sub));
   case 2: return mir_carray_type(mu, 1 + sub % 7, mk_leaf(mu, sub));
   case 3: return mir_uarray_type(mu, 1 + sub % 3, mk_leaf(mu, sub));
   case 4: return mir_signal_type(mu, mk_leaf(mu, sub));
   case 5:
      {
         mir_type_t f[3];
         int n = 1 + sub % 3;
         for (int i = 0; i < n; i++) f[i] = mk_leaf(mu, sub + i);
         char nm[32];
         snprintf(nm, sizeof(nm), "rec%d", k);
         return mir_record_type(mu, ident_new(nm), f, n);
      }
   case 6: return mir_closure_type(mu, mk_leaf(mu, sub), mk_leaf(mu, sub + 1));
   case 7:
      {
         char nm[32];
         snprintf(nm, sizeof(nm), "ctx%d", k);
         return mir_context_type(mu, ident_new(nm));
      }
   default: return mir_file_type(mu, mk_leaf(mu, sub));
   }
}

static uint32_t type_bits(mir_type_t t) { return t.bits; }

static void mir_verify(mir_unit_t *mu, int k, mir_type_t t)
{
   uint32_t prev = 0, b = type_bits(t);
   CHECK(b != 0, "null type returned");
   if (!__atomic_compare_exchange_n(&M.seen[k], &prev, b, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
      CHECK(prev == b, "type %d interned twice (%x and %x)", k, prev, b);
   const int sub = k / 9;
   mir_class_t c = mir_get_class(mu, t);
   if (sub > 0) {
      static const mir_class_t want[] = { MIR_TYPE_POINTER, MIR_TYPE_ACCESS,
         MIR_TYPE_CARRAY, MIR_TYPE_UARRAY, MIR_TYPE_SIGNAL, MIR_TYPE_RECORD,
         MIR_TYPE_CLOSURE, MIR_TYPE_CONTEXT, MIR_TYPE_FILE };
      CHECK(c == want[k % 9], "type %d has class %d instead of %d", k, c, want[k % 9]);
      if (k % 9 == 2 || k % 9 == 3) {
         mir_type_t e = mir_get_elem(mu, t);
         CHECK(mir_equals(e, mk_leaf(mu, sub)), "element type of %d is wrong", k);
         mir_type_t p = mir_get_pointer(mu, t);
         CHECK(mir_get_class(mu, p) == MIR_TYPE_POINTER
               && mir_equals(mir_get_elem(mu, p), mk_leaf(mu, sub)),
               "pointer type of array %d is wrong", k);
      }
   }
   else
      CHECK(c == MIR_TYPE_INT || c == MIR_TYPE_REAL, "leaf type %d has class %d", k, c);
   __atomic_add_fetch(&sim_sh->state[0], 1, __ATOMIC_SEQ_CST);
}

static void *mir_thread(void *arg)
{
   targ_t *t = arg;
   mir_unit_t *mu = mir_unit_new(M.mc, NULL, NULL, MIR_UNIT_PLACEHOLDER, NULL);
   for (int i = 0; i < M.ops; i++) {
      int k = rng_below(&t->r, M.range);
      mir_verify(mu, k, mk_type(mu, k, 0));
   }
   mir_unit_free(mu);
   return NULL;
}

static void w_mirtype(void)
{
   M.nthreads = cap(2 + R(4), cap_threads);
   M.range = PICK(5, 40, 300, 600, 1500);
   M.ops = cap(PICK(5, 30, 100, 200), cap_ops);
   M.mc = mir_context_new();
   nvc_thread_t *th[16];
   targ_t args[16];
   for (int i = 0; i < M.nthreads; i++) {
      args[i] = (targ_t){ { rng_next(&W) }, i };
      th[i] = thread_create(mir_thread, &args[i], "m%d", i);
   }
   for (int i = 0; i < M.nthreads; i++)
      thread_join(th[i]);
   mir_unit_t *mu = mir_unit_new(M.mc, NULL, NULL, MIR_UNIT_PLACEHOLDER, NULL);
   for (int k = 0; k < M.range; k++)
      if (M.seen[k]) mir_verify(mu, k, mk_type(mu, k, 0));
   // Distinct leaves must be distinct types
   for (int k = 5; k < M.range && k < 60; k += 5)
      CHECK(!mir_equals(mir_int_type(mu, 0, k), mir_int_type(mu, 0, k + 1)),
            "distinct integer types share one handle");
   mir_unit_free(mu);
   mir_context_free(M.mc);
}

////////////////////////////////////////////////////////////////////////////

static const struct { const char *name; void (*fn)(void); } workloads[] = {
   { "lock", w_lock }, { "workq", w_workq }, { "async", w_async },
   { "barrier", w_barrier }, { "ident", w_ident }, { "chash", w_chash },
   { "mspace", w_mspace }, { "gcspace", w_gcspace }, { "stopworld", w_stopworld },
   { "mirtype", w_mirtype },
};

static int errfd;
static char errbuf[4096];

static void swarm(sim_config_t *c, uint64_t seed, int wl)
{
   rng_t r = { sim_mix(seed ^ 0xabcdef) };
   static const int means[] = { 1, 2, 3, 5, 10, 30, 100, 300 };
   static const int lens[] = { 100, 300, 1000, 3000, 10000, 40000 };
   c->seed = seed;
   c->strategy = rng_below(&r, 2);
   c->mean = means[rng_below(&r, 8)];
   c->plain_weight = rng_below(&r, 10) < 7;
   c->depth = 1 + rng_below(&r, 7);
   c->len = lens[rng_below(&r, 6)];
   c->spurious = rng_below(&r, 3) == 0 ? 1 + rng_below(&r, 60) : 0;
   c->ncpus = 2 + rng_below(&r, 8);
   c->max_events = 30000000;
}

// What the harness left in dead stack slots must not reach the conservative
// stack scan of the collector
__attribute__((noinline)) static void scrub_stack(void)
{
   volatile char buf[512 * 1024];
   memset((void *)buf, 0, sizeof(buf));
   asm volatile ("" :: "r"(buf) : "memory");
}

static int child_wl;

// Entered with nothing in the callee-saved registers
__attribute__((used, noinline)) void child_main(void)
{
   term_init();
   thread_init();
   set_default_options();
   mspace_stack_limit(MSPACE_CURRENT_FRAME);
   opt_set_int(OPT_UNIT_TEST, 1);
   opt_set_int(OPT_GC_STRESS, 0);
   opt_set_str(OPT_GC_VERBOSE, NULL);
   (*workloads[child_wl].fn)();
   exit(0);    // Runs nvc's atexit handlers under the simulator
}

__attribute__((noinline)) static void child(int wl, uint64_t seed, const sim_config_t *c, sim_shared_t *sh)
{
   prctl(PR_SET_PDEATHSIG, SIGKILL);
   alarm(60);
   dup2(errfd, 2);
   dup2(errfd, 1);
   W.s = sim_mix(seed ^ 0x77777);
   scrub_stack();
   sim_start(c, sh);
   child_wl = wl;
   asm volatile ("" ::: "memory");
   asm volatile ("xorl %%ebx, %%ebx\n\txorl %%r12d, %%r12d\n\txorl %%r13d, %%r13d\n\t"
                 "xorl %%r14d, %%r14d\n\txorl %%r15d, %%r15d\n\tcall child_main"
                 ::: "rbx", "r12", "r13", "r14", "r15", "rax", "rcx", "rdx", "rsi",
                 "rdi", "r8", "r9", "r10", "r11", "memory", "cc");
   __builtin_unreachable();
}

__attribute__((destructor)) static void finish(void) { sim_stop(); }

static void jstr(char *out, size_t sz, const char *s)
{
   size_t p = 0;
   for (; *s && p + 8 < sz; s++) {
      if (*s == '"' || *s == '\\') { out[p++] = '\\'; out[p++] = *s; }
      else if (*s == '\n') { out[p++] = '\\'; out[p++] = 'n'; }
      else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) out[p++] = '?';
      else out[p++] = *s;
   }
   out[p] = 0;
}

int main(int argc, char **argv)
{
   // Fixed address space layout: required for exact replay
   if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
      personality(ADDR_NO_RANDOMIZE);
      char *env[] = { "SIM=1", "HOME=/tmp", "NVC_MAX_THREADS=8", NULL };
      static char joined[2048];
      int p = 0;
      for (int i = 1; i < argc; i++)
         p += snprintf(joined + p, sizeof(joined) - p - 1, "%s ", argv[i]);
      memset(joined + p, ' ', sizeof(joined) - 1 - p);
      char *av[] = { "/proc/self/exe", joined, NULL };
      execve("/proc/self/exe", av, env);
      _exit(3);
   }
   // The stack protector canary is random and ends up in dead stack slots
   asm volatile ("movq %0, %%fs:0x28" :: "r"(UINT64_C(0x1122334455667700)));
   mallopt(M_ARENA_MAX, 1);
   char *av[32];
   int ac = 0;
   for (char *t = strtok(argv[1], " "); t && ac < 31; t = strtok(NULL, " "))
      av[ac++] = t;

   int wl = -1;
   uint64_t seed0 = 1, count = 1;
   const char *dump = NULL, *replay = NULL;
   bool sprint = false;
   int budget_s = 0;
   for (int i = 0; i < ac; i++) {
      if (!strcmp(av[i], "-w")) {
         i++;
         for (int k = 0; k < ARRAY_LEN(workloads); k++)
            if (!strcmp(workloads[k].name, av[i])) wl = k;
      }
      else if (!strcmp(av[i], "-s")) seed0 = strtoull(av[++i], NULL, 0);
      else if (!strcmp(av[i], "-n")) count = strtoull(av[++i], NULL, 0);
      else if (!strcmp(av[i], "-d")) dump = av[++i];
      else if (!strcmp(av[i], "-r")) replay = av[++i];
      else if (!strcmp(av[i], "-T")) cap_threads = atoi(av[++i]);
      else if (!strcmp(av[i], "-O")) cap_ops = atoi(av[++i]);
      else if (!strcmp(av[i], "-t")) budget_s = atoi(av[++i]);
      else if (!strcmp(av[i], "-p")) sprint = true;
   }
   (void)sprint;
   if (wl < 0) { dprintf(2, "unknown workload\n"); return 3; }

   sim_shared_t *sh = mmap(NULL, sizeof(sim_shared_t), PROT_READ | PROT_WRITE,
                           MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   errfd = memfd_create("err", 0);

   // Replay entries live in a fixed mapping so that the heap is unaffected
   static sim_entry_t *ents;
   uint64_t nents = 0;
   ents = mmap(NULL, sizeof(sim_entry_t) * SIM_MAXTRACE, PROT_READ | PROT_WRITE,
               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   if (replay) {
      int fd = open(replay, O_RDONLY);
      if (fd < 0) return 3;
      static char buf[16 << 20];
      ssize_t n = 0, r;
      while ((r = read(fd, buf + n, sizeof(buf) - n - 1)) > 0) n += r;
      close(fd);
      buf[n] = 0;
      char *p = buf;
      while (*p && nents < SIM_MAXTRACE) {
         if (*p == 'S') {
            p++;
            sim_entry_t *e = &ents[nents++];
            e->kind = (p[0] == ' ') ? p[1] : p[0];
            p += 2;
            e->tid = strtoul(p, &p, 10);
            e->ev = strtoull(p, &p, 10);
            e->target = strtoul(p, &p, 10);
         }
         while (*p && *p != '\n') p++;
         if (*p) p++;
      }
   }

   struct timespec t0;
   extern int __real_clock_gettime(clockid_t, struct timespec *);
   __real_clock_gettime(CLOCK_MONOTONIC, &t0);

   for (uint64_t s = seed0; s < seed0 + count; s++) {
      if (budget_s > 0) {
         struct timespec t1;
         __real_clock_gettime(CLOCK_MONOTONIC, &t1);
         if (t1.tv_sec - t0.tv_sec >= budget_s) break;
      }
      memset(sh, 0, offsetof(sim_shared_t, trace));
      if (ftruncate(errfd, 0) != 0) return 3;
      lseek(errfd, 0, SEEK_SET);
      sim_config_t c = {};
      swarm(&c, s, wl);
      if (replay) {
         c.replay = true;
         c.entries = ents;
         c.nentries = nents;
      }
      pid_t pid = fork();
      if (pid == 0) {
         child(wl, s, &c, sh);
         _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      const char *res = "ok";
      char why[64];
      if (WIFSIGNALED(st)) {
         if (WTERMSIG(st) == SIGALRM) res = "timeout";
         else {
            snprintf(why, sizeof(why), "crash-%d", WTERMSIG(st));
            res = why;
         }
      }
      else if (sh->status == SIM_VIOLATION) res = "violation";
      else if (sh->status == SIM_DEADLOCK) res = "deadlock";
      else if (sh->status == SIM_LIVELOCK) res = "livelock";
      else if (WEXITSTATUS(st) != 0) {
         snprintf(why, sizeof(why), "exit-%d", WEXITSTATUS(st));
         res = why;
      }
      static char m1[4096], m2[4096];
      ssize_t en = pread(errfd, errbuf, sizeof(errbuf) - 1, 0);
      errbuf[en > 0 ? en : 0] = 0;
      if (strcmp(res, "ok") == 0) errbuf[0] = 0;
      jstr(m1, sizeof(m1), sh->msg);
      jstr(m2, 1500, errbuf);
      static char line[12000];
      int n = snprintf(line, sizeof(line),
             "{\"seed\":%llu,\"res\":\"%s\",\"hash\":\"%016llx\",\"il\":\"%016llx\","
             "\"events\":%llu,\"switches\":%llu,\"decisions\":%llu,\"vtime\":%llu,"
             "\"threads\":%llu,\"ntrace\":%llu,\"work\":%llu,\"strategy\":%d,\"spur\":%llu,"
             "\"probes\":[%llu,%llu,%llu,%llu,%llu,%llu,%llu,%llu,%llu,%llu],"
             "\"msg\":\"%s\",\"err\":\"%s\"}\n",
             (unsigned long long)s, res, (unsigned long long)sh->hash,
             (unsigned long long)sh->ilhash, (unsigned long long)sh->events,
             (unsigned long long)sh->switches, (unsigned long long)sh->decisions,
             (unsigned long long)sh->events * 10, (unsigned long long)sh->nthreads,
             (unsigned long long)sh->ntrace, (unsigned long long)sh->state[0], c.strategy,
             (unsigned long long)sh->faults[F_SPURIOUS_WAKE],
             (unsigned long long)sh->probes[0], (unsigned long long)sh->probes[1],
             (unsigned long long)sh->probes[2], (unsigned long long)sh->probes[3],
             (unsigned long long)sh->probes[4], (unsigned long long)sh->probes[5],
             (unsigned long long)sh->probes[6], (unsigned long long)sh->probes[7],
             (unsigned long long)sh->probes[8], (unsigned long long)sh->probes[9],
             m1, m2);
      if (write(1, line, n) != n) return 3;
      if (dump) {
         FILE *f = fopen(dump, "w");
         for (uint64_t i = 0; i < sh->ntrace && i < SIM_MAXTRACE; i++)
            fprintf(f, "S %c %u %llu %u\n", sh->trace[i].kind, sh->trace[i].tid,
                    (unsigned long long)sh->trace[i].ev, sh->trace[i].target);
         fclose(f);
      }
   }
   return 0;
}
