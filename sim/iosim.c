// I/O seam of simulated nvc processes.  Every file operation below the scope
// directory is numbered; a plan decides at which numbers the scheduler
// switches to another process and which operations fail, are cut short, or
// are the last thing the process ever does.
#define _GNU_SOURCE
#include "simrt.h"
#include "iosim.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

io_shared_t *io;
int io_me = -1;

#define MAXFD 1024
static struct { bool tracked, wrote, own; FILE *f; char name[40]; } fds[MAXFD];

extern uint64_t sim_wallskew;
void sim_settime(uint64_t t);

static bool on(void) { return io != NULL && io_me >= 0; }

static bool in_scope(const char *path)
{
   if (!on() || path == NULL) return false;
   if (path[0] != '/') return true;    // Working directory is the scope
   size_t n = strlen(io->scope);
   return strncmp(path, io->scope, n) == 0;
}

static const char *tail(const char *path)
{
   const char *b = strrchr(path, '/');
   return b ? b + 1 : path;
}

static void fwait(int *p)
{
   while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
      syscall(SYS_futex, p, FUTEX_WAIT, 0, NULL, NULL, 0);
   __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}

static void fgo(int *p)
{
   __atomic_store_n(p, 1, __ATOMIC_RELEASE);
   syscall(SYS_futex, p, FUTEX_WAKE, 1, NULL, NULL, 0);
}

static int pick_next(int from)
{
   for (int k = 1; k <= io->nprocs; k++) {
      int i = (from + k) % io->nprocs;
      if (io->state[i] == P_READY) return i;
   }
   return -1;
}

static void switch_to(int t)
{
   if (t == io_me) return;
   io->switches++;
   io->hash = sim_mix(io->hash ^ (io->ops * 8 + t));
   io->cur = t;
   fgo(&io->go[t]);
   fwait(&io->go[io_me]);
}

void io_wait_turn(void) { fwait(&io->go[io_me]); }

static void unblock_all(void)
{
   for (int i = 0; i < io->nprocs; i++)
      if (io->state[i] == P_BLOCKED) io->state[i] = P_READY;
}

void io_proc_exited(int p)
{
   io->state[p] = P_DEAD;
   unblock_all();
   if (io->cur == p) {
      int n = pick_next(p);
      if (n >= 0) {
         io->switches++;
         io->hash = sim_mix(io->hash ^ (io->ops * 8 + n) ^ 0x99);
         io->cur = n;
         fgo(&io->go[n]);
      }
   }
}

typedef struct { int err; int64_t limit; bool crash_after; io_log_t *log; } fault_res_t;

static void die_now(void)
{
   _exit(97);
}

static bool io_own;   // Reading a file this process has just written

static fault_res_t io_point(io_op_t op, const char *name, int64_t len)
{
   fault_res_t r = { 0, -1, false, NULL };
   uint64_t n = io->ops++;
   io->pops[io_me]++;
   io->now += io->optime;
   sim_settime(io->now);
   if (io->nlog < IO_MAXLOG) {
      io_log_t *l = r.log = &io->log[io->nlog++];
      l->proc = io_me;
      l->kind = op;
      l->len = len;
      l->fault = 0;
      strncpy(l->name, name, sizeof(l->name) - 1);
   }
   io->hash = sim_mix(io->hash ^ (op + 64 * io_me) ^ (n << 20));
   // The plan is sorted by operation number
   int lo = 0, hi = io->nplan;
   while (lo < hi) {
      int m = (lo + hi) / 2;
      if (io->plan[m].op < n) lo = m + 1; else hi = m;
   }
   for (; lo < io->nplan && io->plan[lo].op == n; lo++) {
      io_plan_t *p = &io->plan[lo];
      // What was just written is read back from memory
      if (io_own && (p->kind == 'e' || p->kind == 'h')) continue;
      switch (p->kind) {
      case 's':
         if (p->arg >= 0 && p->arg < io->nprocs && p->arg != io_me
             && io->state[p->arg] == P_READY) {
            p->hits++;
            switch_to(p->arg);
         }
         break;
      case 'c':
         p->hits++;
         io->faulted[io_me] = true;
         die_now();
         break;
      case 'k':
         p->hits++;
         io->faulted[io_me] = true;
         r.crash_after = true;
         break;
      case 't':
         p->hits++;
         io->faulted[io_me] = true;
         r.crash_after = true;
         if (op == OP_WRITE) r.limit = p->arg < len ? p->arg : len;
         break;
      case 'e':
         if (op == OP_CLOSE && p->arg != EIO && p->arg != ENOSPC && p->arg != EDQUOT) break;
         if (op == OP_READ && (p->arg == ENOSPC || p->arg == EDQUOT)) break;
         if (op == OP_UNLOCK || op == OP_SEEK) break;
         p->hits++;
         io->faulted[io_me] = true;
         r.err = p->arg;
         break;
      case 'w':
         if (op == OP_WRITE && len > 1) {
            p->hits++;
            r.limit = p->arg < 1 ? 1 : p->arg >= len ? len - 1 : p->arg;
         }
         break;
      case 'h':
         if ((op == OP_READ || op == OP_WRITE || op == OP_RECV || op == OP_SEND) && len > 1) {
            p->hits++;
            r.limit = p->arg < 1 ? 1 : p->arg >= len ? len - 1 : p->arg;
         }
         break;
      case 'd':
         p->hits++;
         io->diskfull = true;
         break;
      case 'D':
         p->hits++;
         io->diskfull = false;
         break;
      case 'j':
         p->hits++;
         sim_wallskew += p->arg;
         break;
      }
   }
   if (io->diskfull && (op == OP_WRITE || op == OP_MKDIR) && r.err == 0) {
      io->faulted[io_me] = true;
      r.err = ENOSPC;
   }
   if (r.log && (r.err || r.limit >= 0 || r.crash_after))
      r.log->fault = r.err ? r.err : 1;
   return r;
}

void io_start(void)
{
   sim_settime(io->now);
}

////////////////////////////////////////////////////////////////////////////
// Files

int __real_open(const char *, int, ...);
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
FILE *__real_fopen(const char *, const char *);
FILE *__real_fdopen(int, const char *);
int __real_fileno(FILE *);
int __real_flock(int, int);
int __real_mkdir(const char *, mode_t);
int __real_remove(const char *);
int __real_unlink(const char *);
int __real_rename(const char *, const char *);
int __real_rmdir(const char *);
DIR *__real_opendir(const char *);
int __real_ftruncate(int, off_t);
int __real_mkstemp(char *);
void *__real_mmap(void *, size_t, int, int, int, off_t);

static void stamp(int fd)
{
   uint64_t t = io->now + sim_wallskew;
   if (io->gran > 1) t -= t % io->gran;
   struct timespec ts[2] = { { t / 1000000000, t % 1000000000 },
                             { t / 1000000000, t % 1000000000 } };
   futimens(fd, ts);
}

static void track(int fd, const char *path)
{
   if (fd >= 0 && fd < MAXFD) {
      fds[fd].tracked = true;
      fds[fd].wrote = fds[fd].own = false;
      fds[fd].f = NULL;
      strncpy(fds[fd].name, tail(path), sizeof(fds[fd].name) - 1);
   }
}

static bool tracked(int fd) { return on() && fd >= 0 && fd < MAXFD && fds[fd].tracked; }

static int sim_open(const char *path, int flags, mode_t mode)
{
   fault_res_t r = io_point(OP_OPEN, tail(path), flags);
   if (r.err) { errno = r.err; return -1; }
   struct stat st;
   bool fresh = (flags & O_CREAT) && stat(path, &st) != 0;
   int fd = __real_open(path, flags, mode);
   if (fd >= 0) {
      track(fd, path);
      fds[fd].own = fresh || (flags & O_TRUNC);
      if (fds[fd].own) stamp(fd);
   }
   int e = errno;
   if (r.crash_after) die_now();
   errno = e;
   return fd;
}

static ssize_t sim_read(int fd, void *buf, size_t n)
{
   io_own = fds[fd].own;
   fault_res_t r = io_point(OP_READ, fds[fd].name, n);
   io_own = false;
   if (r.err) { errno = r.err; return -1; }
   if (r.limit >= 0 && r.limit < n) n = r.limit;
   ssize_t got = __real_read(fd, buf, n);
   if (r.crash_after) die_now();
   return got;
}

static ssize_t sim_write(int fd, const void *buf, size_t n)
{
   fault_res_t r = io_point(OP_WRITE, fds[fd].name, n);
   if (r.err) { errno = r.err; return -1; }
   if (r.limit >= 0 && r.limit < n) n = r.limit;
   ssize_t put = n ? __real_write(fd, buf, n) : 0;
   fds[fd].wrote = true;
   stamp(fd);
   if (r.crash_after) die_now();
   return put;
}

static int sim_close(int fd)
{
   fault_res_t r = io_point(OP_CLOSE, fds[fd].name, 0);
   fds[fd].tracked = false;
   fds[fd].f = NULL;
   int ret = __real_close(fd);
   unblock_all();
   if (r.crash_after) die_now();
   if (r.err && fds[fd].wrote) { errno = r.err; return -1; }
   return ret;
}

int __wrap_open(const char *path, int flags, ...)
{
   mode_t mode = 0;
   if (flags & O_CREAT) {
      va_list ap;
      va_start(ap, flags);
      mode = va_arg(ap, int);
      va_end(ap);
   }
   if (!in_scope(path)) return __real_open(path, flags, mode);
   return sim_open(path, flags, mode);
}

int __wrap_close(int fd)
{
   return tracked(fd) ? sim_close(fd) : __real_close(fd);
}

ssize_t __wrap_read(int fd, void *buf, size_t n)
{
   return tracked(fd) ? sim_read(fd, buf, n) : __real_read(fd, buf, n);
}

ssize_t __wrap_write(int fd, const void *buf, size_t n)
{
   return tracked(fd) ? sim_write(fd, buf, n) : __real_write(fd, buf, n);
}

static ssize_t ck_read(void *c, char *buf, size_t n)
{
   return sim_read((intptr_t)c, buf, n);
}
static ssize_t ck_write(void *c, const char *buf, size_t n)
{
   // Zero reports an error to stdio
   size_t done = 0;
   while (done < n) {
      ssize_t r = sim_write((intptr_t)c, buf + done, n - done);
      if (r < 0) {
         if (errno == EINTR) continue;
         return 0;
      }
      if (r == 0) return 0;
      done += r;
   }
   // As for files of its own; the library forgets this for cookies
   FILE *f = fds[(intptr_t)c].f;
   if (f != NULL && f->_offset >= 0) f->_offset += done;
   return done;
}
static int ck_seek(void *c, off64_t *pos, int whence)
{
   int fd = (intptr_t)c;
   fault_res_t r = io_point(OP_SEEK, fds[fd].name, *pos);
   if (r.err) { errno = r.err; return -1; }
   if (r.crash_after) die_now();
   off_t p = lseek(fd, *pos, whence);
   if (p < 0) return -1;
   *pos = p;
   return 0;
}
static int ck_close(void *c) { return sim_close((intptr_t)c); }

FILE *__wrap_fopen(const char *path, const char *mode)
{
   if (!in_scope(path)) return __real_fopen(path, mode);
   int flags = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
   if (mode[0] == 'w') flags |= O_CREAT | O_TRUNC;
   if (mode[0] == 'a') flags |= O_CREAT | O_APPEND;
   if (strchr(mode, 'x')) flags |= O_EXCL;
   int fd = sim_open(path, flags, 0666);
   if (fd < 0) return NULL;
   char m[4] = { mode[0], strchr(mode, '+') ? '+' : 0 };
   cookie_io_functions_t fn = { ck_read, ck_write, ck_seek, ck_close };
   FILE *f = fopencookie((void *)(intptr_t)fd, m, fn);
   static char bufs[64][4096];
   if (fd < 64) setvbuf(f, bufs[fd], _IOFBF, 4096);
   if (fd < MAXFD) fds[fd].f = f;
   return f;
}

FILE *__wrap_fdopen(int fd, const char *mode)
{
   if (!tracked(fd)) return __real_fdopen(fd, mode);
   char m[4] = { mode[0], strchr(mode, '+') ? '+' : 0 };
   cookie_io_functions_t fn = { ck_read, ck_write, ck_seek, ck_close };
   FILE *f = fopencookie((void *)(intptr_t)fd, m, fn);
   fds[fd].f = f;
   return f;
}

int __wrap_fileno(FILE *f)
{
   int fd = __real_fileno(f);
   if (fd >= 0 || !on()) return fd;
   for (int i = 0; i < MAXFD; i++)
      if (fds[i].tracked && fds[i].f == f) return i;
   return -1;
}

int __wrap_flock(int fd, int op)
{
   if (!tracked(fd)) return __real_flock(fd, op);
   bool unlock = (op & LOCK_UN) != 0;
   fault_res_t r = io_point(unlock ? OP_UNLOCK : OP_LOCK, fds[fd].name, op);
   if (r.err) { errno = r.err; return -1; }
   if (r.crash_after) die_now();
   if (unlock) {
      int ret = __real_flock(fd, op);
      unblock_all();
      return ret;
   }
   for (;;) {
      int ret = __real_flock(fd, op | LOCK_NB);
      if (ret == 0 || errno != EWOULDBLOCK || (op & LOCK_NB)) return ret;
      io->blocks++;
      io->state[io_me] = P_BLOCKED;
      int n = pick_next(io_me);
      if (n < 0) {
         io->deadlock = true;
         _exit(98);
      }
      switch_to(n);
      io->state[io_me] = P_READY;
   }
}

#define SIMPLE(type, fail, opk, decl, call, path)                       \
   type __wrap_##decl {                                                 \
      if (!in_scope(path)) return __real_##call;                        \
      fault_res_t r = io_point(opk, tail(path), 0);                     \
      if (r.err) { errno = r.err; return fail; }                        \
      type ret = __real_##call;                                         \
      int e = errno;                                                    \
      if (r.crash_after) die_now();                                     \
      errno = e;                                                        \
      return ret;                                                       \
   }
SIMPLE(int, -1, OP_MKDIR, mkdir(const char *p, mode_t m), mkdir(p, m), p)
SIMPLE(int, -1, OP_UNLINK, remove(const char *p), remove(p), p)
SIMPLE(int, -1, OP_UNLINK, unlink(const char *p), unlink(p), p)
SIMPLE(int, -1, OP_UNLINK, rmdir(const char *p), rmdir(p), p)
SIMPLE(int, -1, OP_RENAME, rename(const char *p, const char *q), rename(p, q), p)
SIMPLE(DIR *, NULL, OP_DIR, opendir(const char *p), opendir(p), p)

int __wrap_ftruncate(int fd, off_t len)
{
   if (!tracked(fd)) return __real_ftruncate(fd, len);
   fault_res_t r = io_point(OP_TRUNC, fds[fd].name, len);
   if (r.err) { errno = r.err; return -1; }
   int ret = __real_ftruncate(fd, len);
   stamp(fd);
   if (r.crash_after) die_now();
   return ret;
}

int __wrap_mkstemp(char *tmpl)
{
   // Predictable names; the directory is outside the scope
   return __real_mkstemp(tmpl);
}

void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
   if (fd < 0 || !tracked(fd)) return __real_mmap(a, n, prot, flags, fd, off);
   fault_res_t r = io_point(OP_MMAP, fds[fd].name, n);
   if (r.err) { errno = r.err; return MAP_FAILED; }
   if (r.crash_after) die_now();
   return __real_mmap(a, n, prot, flags, fd, off);
}

// Uninstrumented code must not spin without letting others run
void __wrap_spin_wait(void) { extern int __wrap_sched_yield(void); __wrap_sched_yield(); }
