// Deterministic simulation runtime: seeded cooperative scheduler over real
// pthreads, virtual time, and fault decisions.  See DESIGN.md.
#ifndef SIMRT_H
#define SIMRT_H

#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

typedef enum {
   F_SPURIOUS_WAKE, F_EARLY_SIGNAL, F_READ_EIO, F_READ_SHORT, F_READ_EINTR,
   F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_WRITE_EINTR, F_CLOSE_EIO,
   F_OPEN_FAIL, F_CRASH, F_TORN_WRITE, F_CLOCK_JUMP, F_SOCK_SHORT_RECV,
   F_SOCK_SHORT_SEND, F_SOCK_EAGAIN, F_SOCK_RESET, F_RENAME_FAIL,
   F_FLIP, F_MMAP_FAIL, F_SEEK_FAIL, F_STALL, F_SLOW_FS, F_GC_FORCE,
   F__COUNT
} fault_t;

typedef enum { SIM_RUNNING, SIM_DONE, SIM_VIOLATION, SIM_DEADLOCK,
   SIM_LIVELOCK } sim_status_t;

#define SIM_MAXTRACE 200000

typedef struct {
   uint64_t ev;          // Local event number of thread
   uint16_t tid;         // Thread making the decision
   uint16_t target;      // Thread chosen, or fault kind
   uint32_t kind;        // 'P' preempt, 'B' blocked, 'F' fault, 'Y' yield
} sim_entry_t;

typedef struct {
   uint64_t hash;
   uint64_t events;
   uint64_t switches;
   uint64_t decisions;
   uint64_t vtime;
   uint64_t nthreads;
   uint64_t ilhash;      // Interleaving hash (order of switches only)
   uint64_t faults[F__COUNT];
   uint64_t probes[64];
   uint64_t state[8];    // Harness-defined outcome measures
   int      status;
   char     msg[2048];
   uint64_t ntrace;
   sim_entry_t trace[SIM_MAXTRACE];
} sim_shared_t;

typedef struct {
   uint64_t seed;
   int      strategy;     // 0 = random walk, 1 = PCT, 2 = none (forced only)
   int      mean;         // Mean weighted events between switch points
   int      plain_weight; // 0 = plain accesses are not schedule points
   int      depth;        // PCT change points
   uint64_t len;          // PCT expected length
   int      spurious;     // Per-mille spurious condition wakeups
   uint64_t max_events;
   int      ncpus;
   bool     replay;
   const sim_entry_t *entries;
   uint64_t nentries;
} sim_config_t;

extern sim_shared_t *sim_sh;

void sim_start(const sim_config_t *cfg, sim_shared_t *sh);
void sim_stop(void);
bool sim_active(void);
void sim_point(void);                  // Explicit schedule point
uint64_t sim_now(void);                // Global event sequence number
int sim_tid(void);
bool sim_fault(fault_t kind, int permille);   // Seeded fault decision
uint64_t sim_rand(void);               // Draws from the schedule stream
void sim_note(uint64_t v);             // Mix into execution hash
void sim_fail(const char *fmt, ...) __attribute__((format(printf,1,2),noreturn));
void sim_quiesce(void);   // Block until every other thread is blocked
int sim_runnable_others(void);

static inline uint64_t sim_mix(uint64_t x)
{
   x ^= x >> 30; x *= UINT64_C(0xbf58476d1ce4e5b9);
   x ^= x >> 27; x *= UINT64_C(0x94d049bb133111eb);
   return x ^ (x >> 31);
}

typedef struct { uint64_t s; } rng_t;
static inline uint64_t rng_next(rng_t *r)
{
   return sim_mix(r->s += UINT64_C(0x9e3779b97f4a7c15));
}
static inline uint64_t rng_below(rng_t *r, uint64_t n)
{
   return n ? rng_next(r) % n : 0;
}

#endif
