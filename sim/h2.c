// Runs the whole of nvc in simulated processes: a server that forks one child
// per requested process so that dynamic linking is paid for once.
//
// Request: one line of tab-separated key=value pairs, answered by one line of
// JSON.  See handle().
#define _GNU_SOURCE
#include "simrt.h"
#include "iosim.h"
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern int nvc_main(int argc, char **argv);
extern uint64_t sim_wallskew;
extern int sim_pid;
extern pid_t __real_fork(void);
extern pid_t __real_getpid(void);
extern FILE *__real_fopen(const char *, const char *);
extern int __real_open(const char *, int, ...);
extern int __real_close(int);
extern ssize_t __real_read(int, void *, size_t);
extern ssize_t __real_write(int, const void *, size_t);
extern void *__real_mmap(void *, size_t, int, int, int, off_t);

static sim_shared_t *shs[IO_MAXP];
static io_shared_t  *ios;
static sim_entry_t  *ents;

static char *argvs[IO_MAXP][64];
static int   argcs[IO_MAXP];
static int   nprocs;
static char *envs[64];
static int   nenv;

__attribute__((destructor)) static void finish(void) { sim_stop(); }

__attribute__((noinline)) static void scrub_stack(void)
{
   volatile char buf[512 * 1024];
   memset((void *)buf, 0, sizeof(buf));
   asm volatile ("" :: "r"(buf) : "memory");
}

static int child_argc;
static char **child_argv;

__attribute__((used, noinline)) void child_main(void)
{
   exit(nvc_main(child_argc, child_argv));
}

__attribute__((noinline)) static void child(int p, const char *dir, const char *out,
                                            const char *in, int secs, const sim_config_t *c)
{
   prctl(PR_SET_PDEATHSIG, SIGKILL);
   if (chdir(dir) != 0) _exit(3);
   char path[600];
   snprintf(path, sizeof(path), nprocs > 1 ? "%s.%d" : "%s", out, p);
   int fd = __real_open(path, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
   if (fd < 0) _exit(3);
   dup2(fd, 1);
   dup2(fd, 2);
   __real_close(fd);
   fd = __real_open(in ? in : "/dev/null", O_RDONLY);
   dup2(fd, 0);
   __real_close(fd);
   struct rlimit rl = { 512 << 20, 512 << 20 };
   setrlimit(RLIMIT_FSIZE, &rl);
   rl.rlim_cur = rl.rlim_max = 0;
   setrlimit(RLIMIT_CORE, &rl);
   rl.rlim_cur = rl.rlim_max = (rlim_t)6 << 30;
   setrlimit(RLIMIT_AS, &rl);
   for (int i = 0; i < nenv; i++) putenv(envs[i]);
   alarm(secs);
   sim_pid = 4242 + p;
   io = ios;
   io_me = p;
   io_wait_turn();
   scrub_stack();
   child_argc = argcs[p];
   child_argv = argvs[p];
   sim_start(c, shs[p]);
   io_start();
   asm volatile ("" ::: "memory");
   asm volatile ("xorl %%ebx, %%ebx\n\txorl %%r12d, %%r12d\n\txorl %%r13d, %%r13d\n\t"
                 "xorl %%r14d, %%r14d\n\txorl %%r15d, %%r15d\n\tcall child_main"
                 ::: "rbx", "r12", "r13", "r14", "r15", "rax", "rcx", "rdx", "rsi",
                 "rdi", "r8", "r9", "r10", "r11", "memory", "cc");
   __builtin_unreachable();
}

static uint64_t load_replay(const char *path)
{
   uint64_t n = 0;
   FILE *f = __real_fopen(path, "r");
   if (f == NULL) return 0;
   char line[256];
   while (fgets(line, sizeof(line), f) && n < SIM_MAXTRACE) {
      unsigned tid, tgt;
      unsigned long long ev;
      char k;
      if (sscanf(line, "S %c %u %llu %u", &k, &tid, &ev, &tgt) == 4)
         ents[n++] = (sim_entry_t){ ev, tid, tgt, k };
   }
   fclose(f);
   return n;
}

static int split(char *s, char sep, char **out, int max)
{
   int n = 0;
   while (s && n < max) {
      out[n++] = s;
      s = strchr(s, sep);
      if (s) *s++ = 0;
   }
   return n;
}

static int plan_cmp(const void *a, const void *b)
{
   const io_plan_t *x = a, *y = b;
   return x->op < y->op ? -1 : x->op > y->op;
}

static void jesc(char *out, size_t sz, const char *s)
{
   size_t p = 0;
   for (; *s && p + 8 < sz; s++) {
      if (*s == '"' || *s == '\\') { out[p++] = '\\'; out[p++] = *s; }
      else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) out[p++] = ' ';
      else out[p++] = *s;
   }
   out[p] = 0;
}

static void handle(char *line)
{
   char *kv[256];
   int n = split(line, '\t', kv, 256);
   const char *dir = ".", *out = "out", *in = NULL, *replay = NULL, *dump = NULL, *oplog = NULL;
   sim_config_t c = { .seed = 1, .strategy = 2, .mean = 100, .plain_weight = 0, .ncpus = 1,
                      .max_events = UINT64_C(4000000000) };
   int secs = 60;
   nprocs = nenv = 0;
   memset(ios, 0, offsetof(io_shared_t, log));
   ios->now = UINT64_C(1600000000000000000);
   ios->gran = 1;
   ios->optime = 50000;
   sim_wallskew = 0;
   for (int i = 0; i < n; i++) {
      char *k = kv[i], *v = strchr(k, '=');
      if (v == NULL) continue;
      *v++ = 0;
      if (!strcmp(k, "dir")) dir = v;
      else if (!strcmp(k, "out")) out = v;
      else if (!strcmp(k, "in")) in = v;
      else if (!strcmp(k, "p")) {
         argcs[nprocs] = split(v, '\x1f', argvs[nprocs], 63);
         argvs[nprocs][argcs[nprocs]] = NULL;
         nprocs++;
      }
      else if (!strcmp(k, "env")) nenv = split(v, '\x1f', envs, 60);
      else if (!strcmp(k, "seed")) c.seed = strtoull(v, NULL, 0);
      else if (!strcmp(k, "strategy")) c.strategy = atoi(v);
      else if (!strcmp(k, "mean")) c.mean = atoi(v);
      else if (!strcmp(k, "plain")) c.plain_weight = atoi(v);
      else if (!strcmp(k, "depth")) c.depth = atoi(v);
      else if (!strcmp(k, "len")) c.len = strtoull(v, NULL, 0);
      else if (!strcmp(k, "spurious")) c.spurious = atoi(v);
      else if (!strcmp(k, "ncpus")) c.ncpus = atoi(v);
      else if (!strcmp(k, "maxev")) c.max_events = strtoull(v, NULL, 0);
      else if (!strcmp(k, "secs")) secs = atoi(v);
      else if (!strcmp(k, "replay")) replay = v;
      else if (!strcmp(k, "dump")) dump = v;
      else if (!strcmp(k, "oplog")) oplog = v;
      else if (!strcmp(k, "scope")) strncpy(ios->scope, v, sizeof(ios->scope) - 1);
      else if (!strcmp(k, "net")) strncpy(ios->netscript, v, sizeof(ios->netscript) - 1);
      else if (!strcmp(k, "now")) ios->now = strtoull(v, NULL, 0);
      else if (!strcmp(k, "gran")) ios->gran = strtoull(v, NULL, 0);
      else if (!strcmp(k, "optime")) ios->optime = strtoull(v, NULL, 0);
      else if (!strcmp(k, "skew")) sim_wallskew = strtoll(v, NULL, 0);
      else if (!strcmp(k, "plan")) {
         char *ps[IO_MAXPLAN];
         int np = split(v, ',', ps, IO_MAXPLAN);
         for (int j = 0; j < np; j++) {
            unsigned long long op;
            char kind;
            long long arg = 0;
            if (sscanf(ps[j], "%llu:%c:%lld", &op, &kind, &arg) >= 2)
               ios->plan[ios->nplan++] = (io_plan_t){ op, kind, arg, 0 };
         }
         qsort(ios->plan, ios->nplan, sizeof(io_plan_t), plan_cmp);
      }
   }
   if (ios->scope[0] == 0) strncpy(ios->scope, dir, sizeof(ios->scope) - 1);
   if (replay) {
      c.replay = true;
      c.entries = ents;
      c.nentries = load_replay(replay);
   }
   ios->nprocs = nprocs;
   ios->cur = 0;
   pid_t pids[IO_MAXP];
   int sts[IO_MAXP] = {};
   for (int p = 0; p < nprocs; p++) {
      memset(shs[p], 0, offsetof(sim_shared_t, trace));
      ios->state[p] = P_READY;
   }
   fflush(stdout);
   for (int p = 0; p < nprocs; p++) {
      pids[p] = __real_fork();
      if (pids[p] == 0) {
         child(p, dir, out, in, secs, &c);
         _exit(0);
      }
   }
   ios->go[0] = 1;
   extern long syscall(long, ...);
   syscall(202, &ios->go[0], 1, 1, NULL, NULL, 0);
   for (int left = nprocs; left > 0; ) {
      int st;
      pid_t pid = waitpid(-1, &st, 0);
      if (pid < 0) {
         if (errno == EINTR) continue;
         break;
      }
      for (int p = 0; p < nprocs; p++)
         if (pids[p] == pid) {
            sts[p] = st;
            left--;
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)   // Stuck: stop everything
               for (int q = 0; q < nprocs; q++)
                  if (ios->state[q] != P_DEAD) kill(pids[q], SIGALRM);
            io = ios;
            io_proc_exited(p);
            io = NULL;
         }
   }
   char buf[16384];
   int len = snprintf(buf, sizeof(buf), "{\"ops\":%llu,\"hash\":\"%016llx\",\"switches\":%llu,"
                      "\"blocks\":%llu,\"deadlock\":%d,\"now\":%llu,\"hits\":[",
                      (unsigned long long)ios->ops, (unsigned long long)ios->hash,
                      (unsigned long long)ios->switches, (unsigned long long)ios->blocks,
                      ios->deadlock, (unsigned long long)ios->now);
   int nh = 0;
   for (int i = 0; i < ios->nplan && len < 8000; i++)
      if (ios->plan[i].hits)
         len += snprintf(buf + len, sizeof(buf) - len, "%s[%llu,\"%c\",%lld]", nh++ ? "," : "",
                         (unsigned long long)ios->plan[i].op, ios->plan[i].kind,
                         (long long)ios->plan[i].arg);
   len += snprintf(buf + len, sizeof(buf) - len, "],\"procs\":[");
   for (int p = 0; p < nprocs; p++) {
      const sim_shared_t *sh = shs[p];
      static const char *names[] = { "none", "ok", "violation", "deadlock", "livelock" };
      char msg[1500];
      jesc(msg, sizeof(msg), sh->msg);
      bool to = WIFSIGNALED(sts[p]) && WTERMSIG(sts[p]) == SIGALRM;
      len += snprintf(buf + len, sizeof(buf) - len,
         "%s{\"rc\":%d,\"sig\":%d,\"sim\":\"%s\",\"faulted\":%d,\"events\":%llu,\"switches\":%llu,"
         "\"decisions\":%llu,\"threads\":%llu,\"vtime\":%llu,\"ntrace\":%llu,\"spur\":%llu,"
         "\"hash\":\"%016llx\",\"il\":\"%016llx\",\"ops\":%llu,\"msg\":\"%s\"}",
         p ? "," : "", WIFEXITED(sts[p]) ? WEXITSTATUS(sts[p]) : -1,
         WIFSIGNALED(sts[p]) ? WTERMSIG(sts[p]) : 0,
         to ? "timeout" : names[sh->status], ios->faulted[p],
         (unsigned long long)sh->events, (unsigned long long)sh->switches,
         (unsigned long long)sh->decisions, (unsigned long long)sh->nthreads,
         (unsigned long long)sh->vtime, (unsigned long long)sh->ntrace,
         (unsigned long long)sh->faults[F_SPURIOUS_WAKE],
         (unsigned long long)sh->hash, (unsigned long long)sh->ilhash,
         (unsigned long long)ios->pops[p], msg);
   }
   len += snprintf(buf + len, sizeof(buf) - len, "]}\n");
   if (dump) {
      FILE *f = __real_fopen(dump, "w");
      for (uint64_t i = 0; i < shs[0]->ntrace && i < SIM_MAXTRACE; i++)
         fprintf(f, "S %c %u %llu %u\n", shs[0]->trace[i].kind, shs[0]->trace[i].tid,
                 (unsigned long long)shs[0]->trace[i].ev, shs[0]->trace[i].target);
      fclose(f);
   }
   if (oplog) {
      static const char *kn[] = { "open", "read", "write", "close", "lock", "unlock", "mkdir",
         "unlink", "rename", "mmap", "trunc", "dir", "seek", "accept", "recv", "send", "select" };
      FILE *f = __real_fopen(oplog, "w");
      for (uint64_t i = 0; i < ios->nlog; i++)
         fprintf(f, "%d %s %d %d %s\n", ios->log[i].proc, kn[ios->log[i].kind], ios->log[i].fault,
                 ios->log[i].len, ios->log[i].name);
      fclose(f);
   }
   if (__real_write(3, buf, len) != len) _exit(3);
}

int main(int argc, char **argv)
{
   if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
      personality(ADDR_NO_RANDOMIZE);
      char *env[] = { "SIM=1", "HOME=/nonexistent", "PATH=/usr/bin:/bin", "NVC_MAX_THREADS=8",
                      "TERM=dumb", "TZ=UTC", NULL };
      char *av[] = { "/proc/self/exe", NULL };
      execve("/proc/self/exe", av, env);
      _exit(3);
   }
   asm volatile ("movq %0, %%fs:0x28" :: "r"(UINT64_C(0x1122334455667700)));
   mallopt(M_ARENA_MAX, 1);
   dup2(1, 3);     // Answers; children write to files of their own
   fcntl(3, F_SETFD, FD_CLOEXEC);
   for (int p = 0; p < IO_MAXP; p++)
      shs[p] = __real_mmap(NULL, sizeof(sim_shared_t), PROT_READ | PROT_WRITE,
                    MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   ios = __real_mmap(NULL, sizeof(io_shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   ents = __real_mmap(NULL, sizeof(sim_entry_t) * SIM_MAXTRACE, PROT_READ | PROT_WRITE,
               MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   static char line[1 << 20];
   for (;;) {
      // Unbuffered so that the heap does not depend on the request
      size_t n = 0;
      while (n < sizeof(line) - 1) {
         ssize_t r = __real_read(0, line + n, 65536 < sizeof(line) - 1 - n ? 65536 : sizeof(line) - 1 - n);
         if (r <= 0) return 0;
         n += r;
         if (line[n - 1] == '\n') break;
      }
      line[n - 1] = 0;
      handle(line);
   }
}
