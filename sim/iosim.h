// Simulated processes: I/O seam, fault plan and process-level scheduler.
#ifndef IOSIM_H
#define IOSIM_H
#include <stdint.h>
#include <stdbool.h>

#define IO_MAXP    4
#define IO_MAXPLAN 4096
#define IO_MAXLOG  16384

typedef enum { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_LOCK, OP_UNLOCK,
   OP_MKDIR, OP_UNLINK, OP_RENAME, OP_MMAP, OP_TRUNC, OP_DIR, OP_SEEK,
   OP_ACCEPT, OP_RECV, OP_SEND, OP_SELECT, OP__LAST } io_op_t;

enum { P_NONE, P_READY, P_BLOCKED, P_DEAD };

typedef struct { uint64_t op; char kind; int64_t arg; int64_t hits; } io_plan_t;
typedef struct { uint8_t proc, kind; uint16_t fault; int32_t len; char name[40]; } io_log_t;

typedef struct {
   int       nprocs;
   int       cur;
   int       state[IO_MAXP];
   int       go[IO_MAXP];
   uint64_t  ops;
   uint64_t  pops[IO_MAXP];
   uint64_t  now;          // Shared virtual clock
   uint64_t  gran;         // File timestamp granularity, nanoseconds
   uint64_t  optime;       // Virtual time per operation
   bool      diskfull;
   bool      deadlock;
   bool      faulted[IO_MAXP];   // A fault reached this process
   uint64_t  hash;
   uint64_t  switches;
   uint64_t  blocks;
   int       nplan;
   io_plan_t plan[IO_MAXPLAN];
   uint64_t  nlog;
   io_log_t  log[IO_MAXLOG];
   char      scope[256];   // Only files below this path are subject to faults
   char      netscript[256];
   bool      logall;
} io_shared_t;

extern io_shared_t *io;
extern int io_me;
void io_start(void);
void io_wait_turn(void);
void io_proc_exited(int p);     // Called by the parent
#endif
