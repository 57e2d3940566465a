// simos: a whole simulated operating system inside the process under test.
//
// LD_PRELOADed into a target built from /repo. Everything the target asks of
// the outside world through libc (files, directories, standard streams, clock,
// randomness, futexes, threads, memory) is answered from a simulated world
// decoded from a job; one job plus the target's code is one exactly repeatable
// execution. A fork server in the constructor runs one job per fork.
#define _GNU_SOURCE
#include "simos.h"
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <dlfcn.h>
#include <limits.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>

#define EXPORT __attribute__((visibility("default")))
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

// ---------------------------------------------------------------- raw syscalls
static inline long rsc6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define rsc(n, ...) rsc_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define rsc_(n, a, b, c, d, e, f, ...) rsc6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

// ---------------------------------------------------------------- state
typedef struct { char *name; u32 ino; } Ent;
typedef struct { u8 type; u8 special; u32 mode, nlink; u64 size, cap; u8 *data; Ent *ents; u32 nents, capents, parent; u64 mtime; } Inode;
typedef struct { int used, kind, refs, flags; u32 ino; u64 off; char *path; } Ofd;
typedef struct { u32 cls; i64 from, count; u32 act; i64 arg; i64 proc; const char *path; i64 seen; u32 fired; } Fault;
typedef struct { u32 kind; const char *path; const u8 *data; u32 len; u32 mode; } Mut;
typedef struct { u64 point; u32 tid; } Sw;
enum { T_FREE = 0, T_RUNNABLE, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
typedef struct { int state, go, woken, spur, jt, reap, detached, joined; u32 *faddr; u32 fbits; u64 deadline; pthread_t pt; void *(*fn)(void *); void *arg, *ret; } Thr;

enum { K_REG = 1, K_DIR, K_STDIN, K_STDOUT, K_STDERR, K_NULL, K_FULL };
#define NINO 8192
#define NFD 256
#define NTHR 64
#define TRACE_MAX (4u << 20)
#define SINK_MAX (8u << 20)
#define HEAP_MAX (96u << 20)
#define NSW 65536
#define NPROC 4

// What belongs to one of several simulated processes that share the file system. The running
// process has its state in Sim itself; a hand-over swaps it out and the other one's in.
typedef struct {
  u32 cwd, umask_, status, out_len, err_len, stdin_len, stdin_off; const u8 *stdin_data; char msg[512]; Ofd ofd[NFD]; int fd[NFD];
  char **argv, **env; int argc; int wst, alive;
} Proc;

typedef struct {
  // config
  u64 seed, step_budget, edge_budget, disk_free; u64 malloc_fail_at;
  u32 alloc_pad, stdin_chunk, file_chunk, write_chunk, eintr_pm, readdir_mode, dtype_unknown, sched_mode, spurious_pm, stdout_kind, stderr_kind, fd_limit, clock_mode, root_user;
  u64 sched_mean; i64 stdout_limit, stderr_limit;
  const u8 *stdin_data; u32 stdin_len, stdin_off;
  Fault *faults; u32 nfaults; Mut *muts; u32 nmuts; Sw *xsw; u32 nxsw, xswi;
  int faults_off;
  // run
  u32 status; u64 nops, edges, mallocs, points, switches, thash, newedges, unmodelled, now_ns, rnd_ctr; u64 eintrs, shorts, spurious, clockjumps, shuffles; i64 hbytes, heap_peak;
  u32 trace_len, trace_over; u32 out_len, err_len; u64 out_total;
  char msg[512];
  u32 cwd, nino; Inode ino[NINO];
  Ofd ofd[NFD]; int fd[NFD];
  Sw sw[NSW]; u32 nsw;
  u32 umask_;
  u64 start_ns; u32 nproc, curp, ptoken, psched_pm; Proc proc[NPROC];
  size_t heap_used;
  char trace[TRACE_MAX]; u8 out[NPROC][SINK_MAX], err[NPROC][SINK_MAX];
  u8 heap[HEAP_MAX];
} Sim;

static Sim *S;
static u8 *G; static u32 Gn; // cumulative coverage map shared by all workers
static int active;           // inside a simulated run
static int nopre;            // preemption disabled (baton holder only)
static Thr T[NTHR]; static int nthr, live, cur;
static __thread int me;
static pthread_key_t exitkey;
static pthread_attr_t main_attr; static int main_attr_ok; static void *main_stack; static size_t main_stack_size;
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_getattr)(pthread_t, pthread_attr_t *);
static int (*real_iter)(int (*)(struct dl_phdr_info *, size_t, void *), void *);

extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *); extern void *__libc_memalign(size_t, size_t);

static u32 mep; // which simulated process this is
static u64 mix(u64 a, u64 b, u64 c) {
  u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xBF58476D1CE4E5B9ull ^ (c + 0x1337ull) * 0x94D049BB133111EBull;
  x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31; return x;
}
static u64 hstr(const char *s) { u64 h = 1469598103934665603ull; while (*s) h = (h ^ (u8)*s++) * 1099511628211ull; return h; }
static void th(u64 v) { S->thash = mix(S->thash, v, 77); }

static __attribute__((noreturn)) void die(u32 st, int code, const char *msg) {
  S->status = st;
  if (msg) { size_t n = strlen(msg); if (n > sizeof S->msg - 1) n = sizeof S->msg - 1; memcpy(S->msg, msg, n); S->msg[n] = 0; }
  rsc(SYS_exit_group, code); __builtin_trap();
}
static void *halloc(size_t n) {
  n = (n + 15) & ~15ul;
  if (S->heap_used + n > HEAP_MAX) die(ST_SIMERR, 99, "sim heap exhausted");
  void *p = S->heap + S->heap_used; S->heap_used += n; memset(p, 0, n); return p;
}
static char *hdup(const char *s) { size_t n = strlen(s) + 1; char *p = halloc(n); memcpy(p, s, n); return p; }

// ---------------------------------------------------------------- trace
static const char *opname[OP_NCLASS] = {"any", "open", "read", "write", "close", "stat", "realpath", "opendir", "readdir", "mkdir", "unlink", "rename", "sync", "trunc", "seek", "getcwd", "readlink", "link", "chmod", "access", "chdir", "malloc", "misc"};
static void tput(const char *s, size_t n) {
  if (S->trace_len + n >= TRACE_MAX) { S->trace_over = 1; return; }
  memcpy(S->trace + S->trace_len, s, n); S->trace_len += n;
}
static void tnum(i64 v) { char b[24]; int i = 24; u64 u = v < 0 ? -(u64)v : (u64)v; do b[--i] = '0' + u % 10, u /= 10; while (u); if (v < 0) b[--i] = '-'; tput(b + i, 24 - i); }
static void tpath(const char *p) {
  static const char hx[] = "0123456789ABCDEF"; if (!*p) { tput("%", 1); return; }
  for (; *p; p++) { u8 c = *p; if (c <= 32 || c == '%' || c >= 127) { char b[3] = {'%', hx[c >> 4], hx[c & 15]}; tput(b, 3); } else tput(p, 1); }
}
// one line per operation: "<op#> t<tid> <class> <path> <result>"
static void ev(u32 cls, const char *path, i64 ret) {
  th(mix(cls, hstr(path), (u64)ret) + me + mep * 1000);
  u32 l = S->trace_len;
  tnum(S->nops); tput(S->nproc > 1 ? " p" : " t", 2); tnum(S->nproc > 1 ? (int)mep : me); tput(" ", 1); tput(opname[cls], strlen(opname[cls])); tput(" ", 1); tpath(path); tput(" ", 1); tnum(ret); tput("\n", 1);
  if (S->trace_over) S->trace_len = l;
}

// ---------------------------------------------------------------- scheduler
static void go_wake(int t) { __atomic_store_n(&T[t].go, 1, __ATOMIC_SEQ_CST); rsc(SYS_futex, &T[t].go, FUTEX_WAKE, 1, 0, 0, 0); }
static void go_wait(int t) {
  while (!__atomic_load_n(&T[t].go, __ATOMIC_SEQ_CST)) rsc(SYS_futex, &T[t].go, FUTEX_WAIT, 0, 0, 0, 0);
  __atomic_store_n(&T[t].go, 0, __ATOMIC_SEQ_CST);
}
static u64 next_at; // pclock (S->points) value at which the next preemption happens
static void reset_countdown(void) {
  if (S->sched_mode == 1) next_at = S->points + 1 + mix(S->seed, 0x5c4ed, S->points) % (2 * S->sched_mean);
  else { while (S->xswi < S->nxsw && S->xsw[S->xswi].point <= S->points) S->xswi++; next_at = S->xswi < S->nxsw ? S->xsw[S->xswi].point : UINT64_MAX; }
}
static int pick(int self_ok) {
  int r[NTHR], n = 0;
  for (int pass = 0; pass < 2; pass++) {
    for (int i = 0; i < nthr; i++) if (T[i].state == T_RUNNABLE && (self_ok || i != me)) r[n++] = i;
    if (n) break;
    int b = -1; // nothing runnable: jump the clock to the earliest deadline
    for (int i = 0; i < nthr; i++) if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].deadline && (b < 0 || T[i].deadline < T[b].deadline)) b = i;
    if (b < 0) return -1;
    if (S->now_ns < T[b].deadline) S->now_ns = T[b].deadline;
    T[b].woken = 0; T[b].state = T_RUNNABLE;
  }
  if (S->sched_mode != 1) { // explicit schedule: keep running unless told otherwise
    for (u32 k = S->xswi; k < S->nxsw && S->xsw[k].point <= S->points; k++) if (S->xsw[k].point == S->points) for (int i = 0; i < n; i++) if (r[i] == (int)S->xsw[k].tid) return r[i];
    for (int i = 0; i < n; i++) if (r[i] == me) return me;
    return r[0];
  }
  return r[mix(S->seed, 0x91c4, S->points) % n];
}
static void record_switch(int to) {
  S->switches++; th(((u64)to << 32) ^ S->points);
  if (S->nsw < NSW) S->sw[S->nsw++] = (Sw){S->points, (u32)to};
}
static void switch_to(int to) {
  if (to == me) return;
  record_switch(to); cur = to; int t = me; go_wake(to); go_wait(t); cur = t;
  if (T[t].reap >= 0) { int z = T[t].reap; T[t].reap = -1; nopre++; real_join(T[z].pt, &T[z].ret); T[z].joined = 1; nopre--; }
}
static void block(void) { // caller set its own state to something not runnable
  S->points++;
  int n = pick(1);
  if (n < 0) die(ST_DEADLOCK, 98, "deadlock: every thread is blocked");
  reset_countdown();
  switch_to(n);
}
static void maybe_spurious(void) {
  if (!S->spurious_pm) return;
  for (int i = 0; i < nthr; i++) if (T[i].state == T_FUTEX && mix(S->seed, 0x59, S->points * 64 + i) % 1000 < S->spurious_pm) { T[i].state = T_RUNNABLE; T[i].spur = 1; S->spurious++; }
}
static __attribute__((noinline)) void preempt(void) {
  nopre++; maybe_spurious(); int n = pick(1); nopre--;
  reset_countdown();
  if (n >= 0) switch_to(n);
}
// set once a thread has handed over for good: what libc still frees on its way out is no schedule point
static __thread int gone;
// a schedule point that weighs `w` ordinary edges
static inline void sp(int w) {
  if (live < 2 || nopre || gone) return;
  S->points += w; if (S->points >= next_at) preempt();
}

// ---------------------------------------------------------------- processes
static void psave(Proc *p) {
  p->cwd = S->cwd; p->umask_ = S->umask_; p->status = S->status; p->out_len = S->out_len; p->err_len = S->err_len; p->stdin_len = S->stdin_len; p->stdin_off = S->stdin_off; p->stdin_data = S->stdin_data;
  memcpy(p->msg, S->msg, sizeof p->msg); memcpy(p->ofd, S->ofd, sizeof p->ofd); memcpy(p->fd, S->fd, sizeof p->fd);
}
static void pload(u32 k) {
  Proc *p = &S->proc[k];
  S->cwd = p->cwd; S->umask_ = p->umask_; S->status = p->status; S->out_len = p->out_len; S->err_len = p->err_len; S->stdin_len = p->stdin_len; S->stdin_off = p->stdin_off; S->stdin_data = p->stdin_data;
  memcpy(S->msg, p->msg, sizeof p->msg); memcpy(S->ofd, p->ofd, sizeof p->ofd); memcpy(S->fd, p->fd, sizeof p->fd);
  S->curp = k;
}
// explicit schedule entries are (operation number, process), taken in order
static int pexplicit(void) {
  while (S->xswi < S->nxsw && S->xsw[S->xswi].point < S->nops) S->xswi++;
  if (S->xswi < S->nxsw && S->xsw[S->xswi].point == S->nops) { u32 t = S->xsw[S->xswi++].tid; if (t < S->nproc && S->proc[t].alive) return (int)t; }
  return -1;
}
static int pother(u32 self) { // seeded choice among the others that still run
  u32 r[NPROC], n = 0;
  for (u32 i = 0; i < S->nproc; i++) if (i != self && S->proc[i].alive) r[n++] = i;
  if (!n) return -1;
  return (int)r[S->sched_mode == 1 ? mix(S->seed, 0x9c0, S->nops) % n : 0];
}
static void phand(u32 to) { // the token and the state go to another process
  S->switches++; th(((u64)to << 40) ^ S->nops);
  if (S->nsw < NSW) S->sw[S->nsw++] = (Sw){S->nops, to};
  pload(to); __atomic_store_n(&S->ptoken, to, __ATOMIC_SEQ_CST); rsc(SYS_futex, &S->ptoken, FUTEX_WAKE, 64, 0, 0, 0);
}
static void pwait_token(void) { for (u32 t; (t = __atomic_load_n(&S->ptoken, __ATOMIC_SEQ_CST)) != mep;) rsc(SYS_futex, &S->ptoken, FUTEX_WAIT, t, 0, 0, 0); }
static void pswitch(void) {
  int to = S->sched_mode == 1 ? (mix(S->seed, 0x9c1, S->nops) % 1000 < S->psched_pm ? pother(mep) : -1) : pexplicit();
  if (to < 0 || to == (int)mep) return;
  psave(&S->proc[mep]); phand((u32)to); pwait_token();
}

// ---------------------------------------------------------------- faults
static void apply_mut(u32 i);
// called at the start of every simulated operation; returns the action to take
static int fault(u32 cls, const char *path, i64 *arg) {
  int act = 0;
  S->nops++; S->now_ns += 1000;
  if (S->clock_mode && mix(S->seed, 0xc10c, S->nops) % 16 == 0) { S->now_ns += mix(S->seed, 0xc10d, S->nops) % 100000000000ull; S->clockjumps++; }
  if (S->nops > S->step_budget) die(ST_BUDGET, 97, "operation budget exceeded");
  sp(200);
  if (S->nproc > 1) pswitch();
  if (S->faults_off) return 0;
  for (u32 i = 0; i < S->nfaults; i++) {
    Fault *f = &S->faults[i];
    if (f->cls != OP_ANY && f->cls != cls) continue;
    if (strcmp(f->path, "*") && strcmp(f->path, path)) continue;
    if (f->proc >= 0 && f->proc != (i64)mep) continue;
    i64 k = f->seen++;
    if (k < f->from || k >= f->from + f->count) continue;
    if (f->act == ACT_MUTATE) { f->fired++; apply_mut((u32)f->arg); continue; }
    if (act) continue;
    f->fired++; act = f->act; *arg = f->arg;
    if (act == ACT_CRASH_BEFORE) { ev(cls, path, -9999); die(ST_CRASHED, 137, 0); }
  }
  return act;
}
#define FAIL(e) do { errno = (e); return -1; } while (0)
#define CRASH_IF_AFTER(act) do { if ((act) == ACT_CRASH_AFTER || (act) == ACT_CRASH_PARTIAL) die(ST_CRASHED, 137, 0); } while (0)
static int rnd_eintr(u32 cls) {
  if (S->eintr_pm && !S->faults_off && mix(S->seed, 0xe1 + cls, S->nops) % 1000 < S->eintr_pm) { S->eintrs++; return 1; }
  return 0;
}

// ---------------------------------------------------------------- file system
static u32 ialloc(u8 type, u32 mode) {
  if (S->nino >= NINO) die(ST_SIMERR, 99, "out of inodes");
  u32 i = S->nino++; memset(&S->ino[i], 0, sizeof(Inode)); S->ino[i].type = type; S->ino[i].mode = mode; S->ino[i].nlink = type == 'd' ? 2 : 1; S->ino[i].mtime = S->now_ns; return i;
}
static Ent *dfind(u32 d, const char *name) { Inode *n = &S->ino[d]; for (u32 i = 0; i < n->nents; i++) if (!strcmp(n->ents[i].name, name)) return &n->ents[i]; return 0; }
static void dadd(u32 d, const char *name, u32 ino) {
  Inode *n = &S->ino[d];
  if (n->nents == n->capents) { u32 c = n->capents ? n->capents * 2 : 8; Ent *e = halloc(c * sizeof(Ent)); if (n->nents) memcpy(e, n->ents, n->nents * sizeof(Ent)); n->ents = e; n->capents = c; }
  n->ents[n->nents++] = (Ent){hdup(name), ino}; n->mtime = S->now_ns;
  if (S->ino[ino].type == 'd') S->ino[ino].parent = d;
}
static void ddel(u32 d, const char *name) {
  Inode *n = &S->ino[d];
  for (u32 i = 0; i < n->nents; i++) if (!strcmp(n->ents[i].name, name)) { memmove(&n->ents[i], &n->ents[i + 1], (n->nents - i - 1) * sizeof(Ent)); n->nents--; n->mtime = S->now_ns; return; }
}
static void setdata(u32 i, const u8 *d, u64 len) {
  Inode *n = &S->ino[i];
  if (len > n->cap) { n->data = halloc(len); n->cap = len; }
  if (len) memcpy(n->data, d, len); n->size = len; n->mtime = S->now_ns;
}
static int perm(u32 i, int bits) { return S->root_user || ((S->ino[i].mode >> 6) & bits) == (u32)bits; }

// Walk `path` from directory `start`. 0 or -errno. *out = inode (0 when only the last component is missing).
static int walk(u32 start, const char *path, int follow, u32 *out, u32 *par, char *last) {
  static char bufs[2][16384]; int bi = 0, links = 0; size_t n = strlen(path);
  if (!n) return -ENOENT;
  if (n >= 4096) return -ENAMETOOLONG;
  memcpy(bufs[0], path, n + 1); char *p = bufs[0];
  u32 d = *p == '/' ? 1 : start; *out = d; *par = d; if (last) strcpy(last, ".");
  for (;;) {
    while (*p == '/') p++;
    if (!*p) { *out = d; return 0; }
    char *e = p; while (*e && *e != '/') e++;
    size_t l = e - p; if (l > 255) return -ENAMETOOLONG;
    char name[256]; memcpy(name, p, l); name[l] = 0;
    char *r = e; while (*r == '/') r++;
    int is_last = !*r, slash = *e == '/';
    if (S->ino[d].type != 'd') return -ENOTDIR;
    if (!perm(d, 1)) return -EACCES;
    *par = d; if (last) strcpy(last, name);
    if (!strcmp(name, ".")) { p = r; *out = d; if (is_last) return 0; continue; }
    if (!strcmp(name, "..")) { d = S->ino[d].parent; p = r; *out = d; if (is_last) return 0; continue; }
    Ent *en = dfind(d, name);
    if (!en) { *out = 0; if (is_last) return slash ? -ENOENT : 0; return -ENOENT; }
    Inode *in = &S->ino[en->ino];
    if (in->type == 'l' && (!is_last || follow || slash)) {
      if (++links > 40) return -ELOOP;
      char *o = bufs[bi ^ 1]; size_t tl = in->size, rl = strlen(e);
      if (!tl) return -ENOENT;
      if (tl + rl + 2 > sizeof bufs[0]) return -ENAMETOOLONG;
      memcpy(o, in->data, tl); memcpy(o + tl, e, rl + 1); bi ^= 1; p = o;
      if (*p == '/') d = 1;
      *out = d; continue;
    }
    if (in->type != 'd' && (slash || !is_last)) return -ENOTDIR;
    *out = en->ino; if (is_last) return 0;
    d = en->ino; p = r;
  }
}
static int ipath(u32 d, char *buf, size_t cap) { // absolute path of a directory inode
  char tmp[8192]; size_t i = sizeof tmp - 1; tmp[i] = 0; int guard = 0;
  while (d != 1) {
    u32 p = S->ino[d].parent; Inode *pn = &S->ino[p]; const char *nm = 0;
    for (u32 k = 0; k < pn->nents; k++) if (pn->ents[k].ino == d) nm = pn->ents[k].name;
    if (!nm || ++guard > 512) return -ENOENT;
    size_t l = strlen(nm); if (l + 1 > i) return -ENAMETOOLONG;
    i -= l; memcpy(tmp + i, nm, l); tmp[--i] = '/'; d = p;
  }
  if (!tmp[i]) tmp[--i] = '/';
  size_t l = sizeof tmp - i; if (l > cap) return -ERANGE; memcpy(buf, tmp + i, l); return 0;
}
// lexical absolute form used in traces and fault matching
static char *lex(const char *path, u32 base) {
  static char b[9000]; size_t n = 0; char cw[4200];
  if (*path != '/') { if (ipath(base, cw, sizeof cw) == 0 && strcmp(cw, "/")) { n = strlen(cw); memcpy(b, cw, n); } }
  const char *p = path;
  while (*p && n < 8000) { while (*p == '/') p++; if (!*p) break; const char *e = p; while (*e && *e != '/') e++; if (!(e - p == 1 && *p == '.')) { b[n++] = '/'; size_t l = e - p; if (l > 600) l = 600; memcpy(b + n, p, l); n += l; } p = e; }
  if (!n) b[n++] = '/';
  b[n] = 0; return b;
}
static u32 mkpath(const char *path, u8 type, u32 mode) { // image decoding / mutations: creates parents
  char c[4200]; strncpy(c, path, 4199); c[4199] = 0; u32 d = 1; char *p = c;
  for (;;) {
    while (*p == '/') p++;
    if (!*p) return d;
    char *e = p; while (*e && *e != '/') e++;
    int lastc = !*e; char sv = *e; *e = 0; Ent *en = dfind(d, p); u32 i;
    if (en && !(lastc && type != 'd')) { i = en->ino; if (lastc && type == 'd') S->ino[i].mode = mode; }
    else { if (en) ddel(d, p); i = ialloc(lastc ? type : 'd', lastc ? mode : 0755); dadd(d, p, i); }
    if (lastc) return i;
    *e = sv; d = i; p = e;
  }
}
static void apply_mut(u32 k) {
  if (k >= S->nmuts) return;
  Mut *m = &S->muts[k]; u32 i, par; char last[256];
  th(mix(m->kind, hstr(m->path), m->len));
  switch (m->kind) {
    case MUT_REPLACE: i = mkpath(m->path, 'f', m->mode); setdata(i, m->data, m->len); break;
    case MUT_SYMLINK: i = mkpath(m->path, 'l', 0777); setdata(i, m->data, m->len); break;
    case MUT_OVERWRITE: if (walk(1, m->path, 1, &i, &par, last) == 0 && i && S->ino[i].type == 'f') setdata(i, m->data, m->len); break;
    case MUT_TRUNC: if (walk(1, m->path, 1, &i, &par, last) == 0 && i && S->ino[i].type == 'f' && S->ino[i].size > m->mode) S->ino[i].size = m->mode; break;
    case MUT_CHMOD: if (walk(1, m->path, 1, &i, &par, last) == 0 && i) S->ino[i].mode = m->mode; break;
    case MUT_REMOVE: if (walk(1, m->path, 0, &i, &par, last) == 0 && i) ddel(par, last); break;
  }
}

// ---------------------------------------------------------------- descriptors
static int ofd_new(int kind, u32 ino, int flags, const char *path) {
  for (int i = 0; i < NFD; i++) if (!S->ofd[i].used) { S->ofd[i] = (Ofd){1, kind, 0, flags, ino, 0, hdup(path)}; return i; }
  return -1;
}
static int fd_new(int o, int min) {
  u32 open = 0; for (int i = 0; i < NFD; i++) if (S->fd[i] >= 0) open++;
  if (S->fd_limit && open >= S->fd_limit) return -1;
  for (int i = min; i < NFD; i++) if (S->fd[i] < 0) { S->fd[i] = o; S->ofd[o].refs++; return i; }
  return -1;
}
static Ofd *getfd(int fd) { if (fd < 0 || fd >= NFD || S->fd[fd] < 0) return 0; return &S->ofd[S->fd[fd]]; }
static int base_of(int dirfd, u32 *b) {
  if (dirfd == AT_FDCWD) { *b = S->cwd; return 0; }
  Ofd *o = getfd(dirfd); if (!o) return -EBADF; if (o->kind != K_DIR) return -ENOTDIR; *b = o->ino; return 0;
}
static const char *fdname(Ofd *o) { return o ? o->path : "<badfd>"; }

static int do_open(u32 base, const char *path, int flags, u32 mode) {
  char *lp = hdup(lex(path, base)); i64 arg = 0;
  int act = fault(OP_OPEN, lp, &arg);
  if (act == ACT_ERR) { ev(OP_OPEN, lp, -arg); FAIL(arg); }
  if (strncmp(lp, "/dev/", 5) && rnd_eintr(OP_OPEN)) { ev(OP_OPEN, lp, -EINTR); FAIL(EINTR); }
  u32 i, par; char last[256]; int rc = 0, created = 0;
  int acc = flags & O_ACCMODE;
  int o = -1, fd;
  if (S->fd_limit) { u32 n = 0; for (int k = 0; k < NFD; k++) if (S->fd[k] >= 0) n++; if (n >= S->fd_limit) { rc = -EMFILE; goto out; } }
  rc = walk(base, path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), &i, &par, last);
  if (rc) goto out;
  if (i && (flags & O_CREAT) && (flags & O_EXCL)) { rc = -EEXIST; goto out; }
  if (!i) {
    if (!(flags & O_CREAT)) { rc = -ENOENT; goto out; }
    // a dangling symlink as last component: create its target
    Ent *le = dfind(par, last);
    if (le) { rc = -EEXIST; goto out; }
    if (!perm(par, 2)) { rc = -EACCES; goto out; }
    if (S->disk_free == 0) { rc = -ENOSPC; goto out; }
    i = ialloc('f', mode & ~S->umask_ & 0777); dadd(par, last, i); created = 1;
  }
  Inode *n = &S->ino[i];
  if (n->type == 'l') { rc = -ELOOP; goto out; }
  if (n->type == 'd' && (acc != O_RDONLY || (flags & O_CREAT))) { rc = -EISDIR; goto out; }
  if ((flags & O_DIRECTORY) && n->type != 'd') { rc = -ENOTDIR; goto out; }
  if (!created && !n->special && ((acc != O_WRONLY && !perm(i, 4)) || (acc != O_RDONLY && !perm(i, 2)))) { rc = -EACCES; goto out; }
  if ((flags & O_TRUNC) && acc != O_RDONLY && n->type == 'f' && !n->special) { if (n->size) { S->disk_free = S->disk_free == UINT64_MAX ? UINT64_MAX : S->disk_free + n->size; n->size = 0; n->mtime = S->now_ns; } }
  o = ofd_new(n->type == 'd' ? K_DIR : n->special ? n->special : K_REG, i, flags, lp);
  if (o < 0) { rc = -ENFILE; goto out; }
  fd = fd_new(o, 0); if (fd < 0) { S->ofd[o].used = 0; rc = -EMFILE; goto out; }
  ev(OP_OPEN, lp, fd); CRASH_IF_AFTER(act); return fd;
out:
  ev(OP_OPEN, lp, rc); CRASH_IF_AFTER(act); FAIL(-rc);
}
#define INACTIVE(v) do { if (!active) { errno = ENOSYS; return v; } } while (0)
#define ENTER nopre++
#define LEAVE nopre--

static i64 reg_write(Inode *n, u64 off, const u8 *b, u64 len, int *err) { // honours free space; may be partial
  u64 end = off + len;
  if (end > n->size) {
    u64 grow = end - n->size;
    if (S->disk_free != UINT64_MAX) { if (grow > S->disk_free) { u64 over = grow - S->disk_free; if (over >= len) { *err = ENOSPC; return -1; } len -= over; end = off + len; grow = end > n->size ? end - n->size : 0; } S->disk_free -= grow; }
  }
  if (end > n->cap) { u64 c = n->cap ? n->cap : 256; while (c < end) c *= 2; u8 *d = halloc(c); if (n->size) memcpy(d, n->data, n->size); n->data = d; n->cap = c; }
  if (off > n->size) memset(n->data + n->size, 0, off - n->size);
  memcpy(n->data + off, b, len); if (end > n->size) n->size = end;
  n->mtime = S->now_ns; return (i64)len;
}
static u64 chunked(u64 want, u32 lim, u64 key) { if (!lim || want <= 1 || S->faults_off) return want; if (lim < want / 256) lim = (u32)(want / 256); u64 c = 1 + mix(S->seed, key, S->nops) % lim; if (c < want) { S->shorts++; return c; } return want; }

static i64 do_read(int fd, const struct iovec *iov, int cnt, i64 at) {
  Ofd *o = getfd(fd); i64 arg = 0; const char *nm = fdname(o);
  int act = fault(OP_READ, nm, &arg); i64 r = 0; int e = 0;
  if (act == ACT_ERR) { e = (int)arg; goto fail; }
  if (!o) { e = EBADF; goto fail; }
  if (rnd_eintr(OP_READ)) { e = EINTR; goto fail; }
  u64 want = 0; for (int i = 0; i < cnt; i++) want += iov[i].iov_len;
  const u8 *src = 0; u64 avail = 0;
  switch (o->kind) {
    case K_DIR: e = EISDIR; goto fail;
    case K_STDOUT: case K_STDERR: e = EBADF; goto fail;
    case K_NULL: avail = 0; break;
    case K_FULL: avail = 0; break;
    case K_STDIN: src = S->stdin_data + S->stdin_off; avail = S->stdin_len - S->stdin_off; break;
    case K_REG: { if ((o->flags & O_ACCMODE) == O_WRONLY) { e = EBADF; goto fail; } Inode *n = &S->ino[o->ino]; u64 off = at >= 0 ? (u64)at : o->off; if (off < n->size) { src = n->data + off; avail = n->size - off; } break; }
  }
  u64 n = want < avail ? want : avail;
  if (act == ACT_SHORT && arg > 0 && n > (u64)arg) n = (u64)arg;
  n = chunked(n, o->kind == K_STDIN ? S->stdin_chunk : S->file_chunk, 0x4ead);
  u64 done = 0; for (int i = 0; i < cnt && done < n; i++) { u64 c = iov[i].iov_len < n - done ? iov[i].iov_len : n - done; memcpy(iov[i].iov_base, src + done, c); done += c; }
  if (o->kind == K_STDIN) S->stdin_off += n; else if (at < 0) o->off += n;
  r = (i64)n; ev(OP_READ, nm, r); CRASH_IF_AFTER(act); return r;
fail: ev(OP_READ, nm, -e); CRASH_IF_AFTER(act); FAIL(e);
}
static i64 do_write(int fd, const struct iovec *iov, int cnt, i64 at) {
  Ofd *o = getfd(fd); i64 arg = 0; const char *nm = fdname(o);
  int act = fault(OP_WRITE, nm, &arg); int e = 0;
  if (act == ACT_ERR) { e = (int)arg; goto fail; }
  if (!o || (o->kind == K_REG && (o->flags & O_ACCMODE) == O_RDONLY) || o->kind == K_DIR || o->kind == K_STDIN) { e = EBADF; goto fail; }
  if (rnd_eintr(OP_WRITE)) { e = EINTR; goto fail; }
  u64 want = 0; for (int i = 0; i < cnt; i++) want += iov[i].iov_len;
  u64 n = want;
  if ((act == ACT_SHORT || act == ACT_CRASH_PARTIAL) && n > (u64)arg) n = (u64)arg;
  else n = chunked(n, S->write_chunk, 0x317e);
  u32 kind = 99; i64 *lim = 0; u8 *sink = 0; u32 *sl = 0;
  if (o->kind == K_STDOUT) { kind = S->stdout_kind; lim = &S->stdout_limit; sink = S->out[S->curp]; sl = &S->out_len; }
  if (o->kind == K_STDERR) { kind = S->stderr_kind; lim = &S->stderr_limit; sink = S->err[S->curp]; sl = &S->err_len; }
  if (sink) {
    if (kind == SINK_CLOSED) { e = EBADF; goto fail; }
    if ((kind == SINK_FULL || kind == SINK_BROKEN) && want) { // room for *lim more bytes
      if (*lim <= 0) { e = kind == SINK_FULL ? ENOSPC : EPIPE; goto fail; }
      if (n > (u64)*lim) n = (u64)*lim;
      *lim -= (i64)n;
    }
    for (u64 i = 0, done = 0; (int)i < cnt && done < n; i++) { u64 c = iov[i].iov_len < n - done ? iov[i].iov_len : n - done; if (*sl + c <= SINK_MAX) { memcpy(sink + *sl, iov[i].iov_base, c); *sl += c; } done += c; }
  } else if (o->kind == K_FULL) { e = ENOSPC; goto fail; }
  else if (o->kind == K_REG) {
    Inode *f = &S->ino[o->ino]; u64 off = at >= 0 ? (u64)at : (o->flags & O_APPEND) ? f->size : o->off; u64 done = 0;
    for (int i = 0; i < cnt && done < n; i++) {
      u64 c = iov[i].iov_len < n - done ? iov[i].iov_len : n - done; int we = 0; if (!c) continue;
      i64 w = reg_write(f, off + done, iov[i].iov_base, c, &we);
      if (w < 0) { if (!done) { e = we; goto fail; } n = done; break; }
      done += (u64)w; if ((u64)w < c) { n = done; break; }
    }
    if (at < 0) o->off = off + n;
  }
  ev(OP_WRITE, nm, (i64)n); CRASH_IF_AFTER(act); return (i64)n;
fail: ev(OP_WRITE, nm, -e); CRASH_IF_AFTER(act); FAIL(e);
}

static void fill_stat(u32 i, struct stat *st) {
  Inode *n = &S->ino[i]; memset(st, 0, sizeof *st);
  st->st_dev = 1; st->st_ino = i; st->st_nlink = n->nlink; st->st_uid = st->st_gid = 1000; st->st_size = (off_t)n->size; st->st_blksize = 4096; st->st_blocks = (blkcnt_t)((n->size + 511) / 512);
  st->st_mode = n->mode | (n->special ? S_IFCHR : n->type == 'd' ? S_IFDIR : n->type == 'l' ? S_IFLNK : S_IFREG);
  st->st_mtim.tv_sec = (time_t)(n->mtime / 1000000000ull); st->st_mtim.tv_nsec = (long)(n->mtime % 1000000000ull); st->st_atim = st->st_ctim = st->st_mtim;
}
static void fill_stat_fd(Ofd *o, struct stat *st) {
  if (o->kind == K_REG || o->kind == K_DIR) { fill_stat(o->ino, st); return; }
  memset(st, 0, sizeof *st); st->st_dev = 2; st->st_ino = 900000 + o->kind; st->st_nlink = 1; st->st_blksize = 4096; st->st_mode = 0600;
  u32 k = o->kind == K_STDOUT ? S->stdout_kind : o->kind == K_STDERR ? S->stderr_kind : SINK_PIPE;
  st->st_mode |= (k == SINK_TTY || k == SINK_FULL || o->kind == K_NULL || o->kind == K_FULL) ? S_IFCHR : k == SINK_FILE ? S_IFREG : S_IFIFO;
}
static int do_statat(int dirfd, const char *path, int flags, struct stat *st) {
  u32 base = S->cwd, i, par; char last[256]; i64 arg = 0; int rc = 0;
  if ((flags & AT_EMPTY_PATH) && (!path || !*path)) {
    if (dirfd == AT_FDCWD) { fill_stat(S->cwd, st); return 0; }
    Ofd *o = getfd(dirfd); const char *nm = fdname(o); int act = fault(OP_STAT, nm, &arg);
    if (act == ACT_ERR) rc = -(int)arg; else if (!o) rc = -EBADF; else fill_stat_fd(o, st);
    ev(OP_STAT, nm, rc); CRASH_IF_AFTER(act); if (rc) FAIL(-rc); return 0;
  }
  if (!path) FAIL(EFAULT);
  if (*path != '/') rc = base_of(dirfd, &base);
  char *lp = hdup(lex(path, base)); int act = fault(OP_STAT, lp, &arg);
  if (act == ACT_ERR) rc = -(int)arg;
  if (!rc) rc = walk(base, path, !(flags & AT_SYMLINK_NOFOLLOW), &i, &par, last);
  if (!rc && !i) rc = -ENOENT;
  if (!rc) fill_stat(i, st);
  ev(OP_STAT, lp, rc); CRASH_IF_AFTER(act); if (rc) FAIL(-rc); return 0;
}

// ---- exported: open/close/read/write
EXPORT int open64(const char *p, int fl, ...) { INACTIVE(-1); mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return do_open(S->cwd, p, fl, m); }
EXPORT int open(const char *p, int fl, ...) { INACTIVE(-1); mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return do_open(S->cwd, p, fl, m); }
static int do_openat(int d, const char *p, int fl, mode_t m) { u32 b = S->cwd; if (*p != '/') { int rc = base_of(d, &b); if (rc) FAIL(-rc); } return do_open(b, p, fl, m); }
EXPORT int openat64(int d, const char *p, int fl, ...) { INACTIVE(-1); mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return do_openat(d, p, fl, m); }
EXPORT int openat(int d, const char *p, int fl, ...) { INACTIVE(-1); mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return do_openat(d, p, fl, m); }
EXPORT int creat64(const char *p, mode_t m) { INACTIVE(-1); return do_open(S->cwd, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat(const char *p, mode_t m) { return creat64(p, m); }
EXPORT int close(int fd) {
  INACTIVE(-1); Ofd *o = getfd(fd); i64 arg = 0; const char *nm = fdname(o); int act = fault(OP_CLOSE, nm, &arg);
  if (!o) { ev(OP_CLOSE, nm, -EBADF); FAIL(EBADF); }
  S->fd[fd] = -1; if (--o->refs == 0) o->used = 0;
  if (act == ACT_ERR) { ev(OP_CLOSE, nm, -arg); FAIL(arg); }
  ev(OP_CLOSE, nm, 0); CRASH_IF_AFTER(act); return 0;
}
EXPORT ssize_t read(int fd, void *b, size_t n) { INACTIVE(-1); struct iovec v = {b, n}; return do_read(fd, &v, 1, -1); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) { INACTIVE(-1); return do_read(fd, v, c, -1); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { INACTIVE(-1); struct iovec v = {b, n}; return do_read(fd, &v, 1, o); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t preadv64(int fd, const struct iovec *v, int c, off_t o) { INACTIVE(-1); return do_read(fd, v, c, o); }
EXPORT ssize_t preadv(int fd, const struct iovec *v, int c, off_t o) { return preadv64(fd, v, c, o); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { INACTIVE(-1); struct iovec v = {(void *)b, n}; return do_write(fd, &v, 1, -1); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) { INACTIVE(-1); return do_write(fd, v, c, -1); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { INACTIVE(-1); struct iovec v = {(void *)b, n}; return do_write(fd, &v, 1, o); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t pwritev64(int fd, const struct iovec *v, int c, off_t o) { INACTIVE(-1); return do_write(fd, v, c, o); }
EXPORT ssize_t pwritev(int fd, const struct iovec *v, int c, off_t o) { return pwritev64(fd, v, c, o); }
EXPORT off_t lseek64(int fd, off_t off, int wh) {
  INACTIVE(-1); Ofd *o = getfd(fd); i64 arg = 0; const char *nm = fdname(o); int act = fault(OP_SEEK, nm, &arg); i64 r; int e = 0;
  if (act == ACT_ERR) e = (int)arg; else if (!o) e = EBADF; else if (o->kind != K_REG && o->kind != K_DIR) e = ESPIPE;
  if (e) { ev(OP_SEEK, nm, -e); FAIL(e); }
  r = wh == SEEK_SET ? off : wh == SEEK_CUR ? (i64)o->off + off : (i64)S->ino[o->ino].size + off;
  if (r < 0) { ev(OP_SEEK, nm, -EINVAL); FAIL(EINVAL); }
  o->off = (u64)r; ev(OP_SEEK, nm, r); return r;
}
EXPORT off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }

// ---- exported: stat family
EXPORT int stat64(const char *p, struct stat64 *st) { INACTIVE(-1); return do_statat(AT_FDCWD, p, 0, (struct stat *)st); }
EXPORT int stat(const char *p, struct stat *st) { INACTIVE(-1); return do_statat(AT_FDCWD, p, 0, st); }
EXPORT int lstat64(const char *p, struct stat64 *st) { INACTIVE(-1); return do_statat(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, (struct stat *)st); }
EXPORT int lstat(const char *p, struct stat *st) { INACTIVE(-1); return do_statat(AT_FDCWD, p, AT_SYMLINK_NOFOLLOW, st); }
EXPORT int fstat64(int fd, struct stat64 *st) { INACTIVE(-1); return do_statat(fd, "", AT_EMPTY_PATH, (struct stat *)st); }
EXPORT int fstat(int fd, struct stat *st) { INACTIVE(-1); return do_statat(fd, "", AT_EMPTY_PATH, st); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int fl) { INACTIVE(-1); return do_statat(d, p, fl, (struct stat *)st); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int fl) { INACTIVE(-1); return do_statat(d, p, fl, st); }
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *x) {
  INACTIVE(-1); struct stat st; (void)mask;
  if (!x) FAIL(EFAULT);
  if (do_statat(d, p, fl, &st)) return -1;
  memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS; x->stx_blksize = 4096; x->stx_nlink = (u32)st.st_nlink; x->stx_uid = x->stx_gid = 1000; x->stx_mode = (uint16_t)st.st_mode; x->stx_ino = st.st_ino; x->stx_size = (u64)st.st_size; x->stx_blocks = (u64)st.st_blocks; x->stx_dev_minor = (u32)st.st_dev;
  x->stx_mtime.tv_sec = x->stx_atime.tv_sec = x->stx_ctime.tv_sec = st.st_mtim.tv_sec; x->stx_mtime.tv_nsec = (u32)st.st_mtim.tv_nsec; return 0;
}
// path ops share this: fault + walk
static int pop(u32 cls, int dirfd, const char *path, int follow, u32 *i, u32 *par, char *last, char **lp, int *act) {
  u32 base = S->cwd; int rc = 0; i64 arg = 0;
  if (*path != '/') rc = base_of(dirfd, &base);
  *lp = hdup(lex(path, base)); *act = fault(cls, *lp, &arg);
  if (*act == ACT_ERR) rc = -(int)arg;
  if (!rc) rc = walk(base, path, follow, i, par, last);
  return rc;
}
static int done(u32 cls, const char *lp, int act, int rc) { ev(cls, lp, rc); CRASH_IF_AFTER(act); if (rc < 0) FAIL(-rc); return rc; }

EXPORT char *realpath(const char *p, char *out) {
  INACTIVE(NULL); u32 i, par; char last[256], *lp, buf[8192]; int act; if (!p) { errno = EINVAL; return NULL; }
  int rc = pop(OP_REALPATH, AT_FDCWD, p, 1, &i, &par, last, &lp, &act);
  if (!rc && !i) rc = -ENOENT;
  if (!rc) {
    if (S->ino[i].type == 'd') rc = ipath(i, buf, 4096);
    else { rc = ipath(par, buf, 4096); if (!rc) { if (strcmp(buf, "/")) strcat(buf, "/"); strcat(buf, last); } }
  }
  if (done(OP_REALPATH, lp, act, rc) < 0) return NULL;
  if (!out) { out = __libc_malloc(strlen(buf) + 1); if (!out) return NULL; }
  strcpy(out, buf); return out;
}
EXPORT char *canonicalize_file_name(const char *p) { return realpath(p, NULL); }
static ssize_t do_readlink(int d, const char *p, char *b, size_t n) {
  u32 i, par; char last[256], *lp; int act; int rc = pop(OP_READLINK, d, p, 0, &i, &par, last, &lp, &act);
  if (!rc) { if (!i) rc = -ENOENT; else if (S->ino[i].type != 'l') rc = -EINVAL; else { size_t l = S->ino[i].size; if (l > n) l = n; memcpy(b, S->ino[i].data, l); rc = (int)l; } }
  return done(OP_READLINK, lp, act, rc);
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) { INACTIVE(-1); return do_readlink(AT_FDCWD, p, b, n); }
EXPORT ssize_t readlinkat(int d, const char *p, char *b, size_t n) { INACTIVE(-1); return do_readlink(d, p, b, n); }
EXPORT char *getcwd(char *b, size_t n) {
  INACTIVE(NULL); i64 arg = 0; char buf[8192]; int act = fault(OP_GETCWD, "<cwd>", &arg), rc = act == ACT_ERR ? -(int)arg : ipath(S->cwd, buf, 4096);
  if (!rc && b && strlen(buf) + 1 > n) rc = -ERANGE;
  if (done(OP_GETCWD, "<cwd>", act, rc) < 0) return NULL;
  if (!b) b = __libc_malloc(strlen(buf) + 1);
  strcpy(b, buf); return b;
}
EXPORT int chdir(const char *p) { INACTIVE(-1); u32 i, par; char last[256], *lp; int act; int rc = pop(OP_CHDIR, AT_FDCWD, p, 1, &i, &par, last, &lp, &act); if (!rc) { if (!i) rc = -ENOENT; else if (S->ino[i].type != 'd') rc = -ENOTDIR; else S->cwd = i; } return done(OP_CHDIR, lp, act, rc); }
static int do_mkdir(int d, const char *p, mode_t m) {
  u32 i, par; char last[256], *lp; int act; char q[4200]; strncpy(q, p, 4199); q[4199] = 0; size_t l = strlen(q); while (l > 1 && q[l - 1] == '/') q[--l] = 0;
  int rc = pop(OP_MKDIR, d, q, 0, &i, &par, last, &lp, &act);
  if (!rc) { if (i) rc = -EEXIST; else if (!perm(par, 2)) rc = -EACCES; else if (S->disk_free == 0) rc = -ENOSPC; else dadd(par, last, ialloc('d', m & ~S->umask_ & 0777)); }
  return done(OP_MKDIR, lp, act, rc);
}
EXPORT int mkdir(const char *p, mode_t m) { INACTIVE(-1); return do_mkdir(AT_FDCWD, p, m); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { INACTIVE(-1); return do_mkdir(d, p, m); }
static int do_unlink(int d, const char *p, int dir) {
  u32 i, par; char last[256], *lp; int act; int rc = pop(OP_UNLINK, d, p, 0, &i, &par, last, &lp, &act);
  if (!rc) {
    if (!i) rc = -ENOENT; else if (!perm(par, 2)) rc = -EACCES;
    else if (dir && S->ino[i].type != 'd') rc = -ENOTDIR; else if (!dir && S->ino[i].type == 'd') rc = -EISDIR;
    else if (dir && S->ino[i].nents) rc = -ENOTEMPTY;
    else { ddel(par, last); S->ino[i].nlink--; }
  }
  return done(OP_UNLINK, lp, act, rc);
}
EXPORT int unlink(const char *p) { INACTIVE(-1); return do_unlink(AT_FDCWD, p, 0); }
EXPORT int unlinkat(int d, const char *p, int fl) { INACTIVE(-1); return do_unlink(d, p, !!(fl & AT_REMOVEDIR)); }
EXPORT int rmdir(const char *p) { INACTIVE(-1); return do_unlink(AT_FDCWD, p, 1); }
EXPORT int remove(const char *p) { INACTIVE(-1); u32 i = 0, par; char last[256]; if (walk(S->cwd, p, 0, &i, &par, last) == 0 && i && S->ino[i].type == 'd') return rmdir(p); return unlink(p); }
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
  u32 i, par, j, par2, base2 = S->cwd; char last[256], last2[256], *lp; int act; int rc = pop(OP_RENAME, d1, a, 0, &i, &par, last, &lp, &act);
  if (!rc && !i) rc = -ENOENT;
  if (!rc && *b != '/') rc = base_of(d2, &base2);
  if (!rc) rc = walk(base2, b, 0, &j, &par2, last2);
  if (!rc) {
    if (!perm(par, 2) || !perm(par2, 2)) rc = -EACCES;
    else if (j == i) rc = 0;
    else if (j && (fl & 1)) rc = -EEXIST;
    else if (j && S->ino[j].type == 'd' && S->ino[i].type != 'd') rc = -EISDIR;
    else if (j && S->ino[j].type != 'd' && S->ino[i].type == 'd') rc = -ENOTDIR;
    else if (j && S->ino[j].type == 'd' && S->ino[j].nents) rc = -ENOTEMPTY;
    else { if (j) ddel(par2, last2); ddel(par, last); dadd(par2, last2, i); }
  }
  return done(OP_RENAME, lp, act, rc);
}
EXPORT int rename(const char *a, const char *b) { INACTIVE(-1); return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { INACTIVE(-1); return do_rename(d1, a, d2, b, 0); }
EXPORT int renameat2(int d1, const char *a, int d2, const char *b, unsigned fl) { INACTIVE(-1); return do_rename(d1, a, d2, b, fl); }
static int do_link(int d1, const char *a, int d2, const char *b, int follow) {
  u32 i, par, j, par2, base2 = S->cwd; char last[256], last2[256], *lp; int act; int rc = pop(OP_LINK, d1, a, follow, &i, &par, last, &lp, &act);
  if (!rc && !i) rc = -ENOENT;
  if (!rc && S->ino[i].type == 'd') rc = -EPERM;
  if (!rc && *b != '/') rc = base_of(d2, &base2);
  if (!rc) rc = walk(base2, b, 0, &j, &par2, last2);
  if (!rc) { if (j) rc = -EEXIST; else if (!perm(par2, 2)) rc = -EACCES; else { dadd(par2, last2, i); S->ino[i].nlink++; } }
  return done(OP_LINK, lp, act, rc);
}
EXPORT int link(const char *a, const char *b) { INACTIVE(-1); return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int linkat(int d1, const char *a, int d2, const char *b, int fl) { INACTIVE(-1); return do_link(d1, a, d2, b, !!(fl & AT_SYMLINK_FOLLOW)); }
static int do_symlink(const char *t, int d, const char *b) {
  u32 i, par; char last[256], *lp; int act; int rc = pop(OP_LINK, d, b, 0, &i, &par, last, &lp, &act);
  if (!rc) { if (i) rc = -EEXIST; else if (!perm(par, 2)) rc = -EACCES; else { u32 n = ialloc('l', 0777); setdata(n, (const u8 *)t, strlen(t)); dadd(par, last, n); } }
  return done(OP_LINK, lp, act, rc);
}
EXPORT int symlink(const char *t, const char *b) { INACTIVE(-1); return do_symlink(t, AT_FDCWD, b); }
EXPORT int symlinkat(const char *t, int d, const char *b) { INACTIVE(-1); return do_symlink(t, d, b); }
static int do_chmod(int d, const char *p, mode_t m) { u32 i, par; char last[256], *lp; int act; int rc = pop(OP_CHMOD, d, p, 1, &i, &par, last, &lp, &act); if (!rc) { if (!i) rc = -ENOENT; else S->ino[i].mode = m & 07777; } return done(OP_CHMOD, lp, act, rc); }
EXPORT int chmod(const char *p, mode_t m) { INACTIVE(-1); return do_chmod(AT_FDCWD, p, m); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int fl) { INACTIVE(-1); (void)fl; return do_chmod(d, p, m); }
// fd ops that only need a fault point
static int fdop(u32 cls, int fd) { Ofd *o = getfd(fd); i64 arg = 0; const char *nm = fdname(o); int act = fault(cls, nm, &arg); int rc = act == ACT_ERR ? -(int)arg : !o ? -EBADF : 0; return done(cls, nm, act, rc); }
EXPORT int fchmod(int fd, mode_t m) { INACTIVE(-1); if (fdop(OP_CHMOD, fd)) return -1; Ofd *o = getfd(fd); if (o->kind == K_REG || o->kind == K_DIR) S->ino[o->ino].mode = m & 07777; return 0; }
EXPORT int fsync(int fd) { INACTIVE(-1); return fdop(OP_SYNC, fd); }
EXPORT int fdatasync(int fd) { INACTIVE(-1); return fdop(OP_SYNC, fd); }
EXPORT int syncfs(int fd) { INACTIVE(-1); return fdop(OP_SYNC, fd); }
EXPORT void sync(void) {}
EXPORT int flock(int fd, int op) { INACTIVE(-1); (void)op; return fdop(OP_MISC, fd); }
static void settime(u32 i, const struct timespec *t) {
  if (!t || t[1].tv_nsec == UTIME_NOW) S->ino[i].mtime = S->now_ns; else if (t[1].tv_nsec != UTIME_OMIT) S->ino[i].mtime = (u64)t[1].tv_sec * 1000000000ull + (u64)t[1].tv_nsec;
}
EXPORT int futimens(int fd, const struct timespec *t) { INACTIVE(-1); if (fdop(OP_MISC, fd)) return -1; Ofd *o = getfd(fd); if (o->kind == K_REG || o->kind == K_DIR) settime(o->ino, t); return 0; }
EXPORT int utimensat(int d, const char *p, const struct timespec *t, int fl) {
  INACTIVE(-1); struct stat st; int rc = p ? do_statat(d, p, fl, &st) : futimens(d, t); if (rc || !p) return rc;
  settime((u32)st.st_ino, t); return 0;
}
EXPORT int fchown(int fd, uid_t u, gid_t g) { INACTIVE(-1); (void)u; (void)g; return fdop(OP_CHMOD, fd); }
EXPORT int chown(const char *p, uid_t u, gid_t g) { INACTIVE(-1); (void)u; (void)g; struct stat st; return do_statat(AT_FDCWD, p, 0, &st); }
EXPORT int lchown(const char *p, uid_t u, gid_t g) { return chown(p, u, g); }
EXPORT int posix_fadvise64(int fd, off_t o, off_t l, int a) { (void)fd; (void)o; (void)l; (void)a; return 0; }
EXPORT int posix_fadvise(int fd, off_t o, off_t l, int a) { (void)fd; (void)o; (void)l; (void)a; return 0; }
EXPORT int fallocate64(int fd, int m, off_t o, off_t l) { (void)fd; (void)m; (void)o; (void)l; FAIL(EOPNOTSUPP); }
EXPORT int posix_fallocate64(int fd, off_t o, off_t l) { (void)fd; (void)o; (void)l; return EOPNOTSUPP; }
static int trunc_ino(u32 i, off_t len) { Inode *n = &S->ino[i]; if (n->type == 'd') return -EISDIR; if ((u64)len <= n->size) { n->size = (u64)len; return 0; } u8 z = 0; int e = 0; if (reg_write(n, (u64)len - 1, &z, 1, &e) < 0) return -e; return 0; }
EXPORT int ftruncate64(int fd, off_t len) { INACTIVE(-1); if (fdop(OP_TRUNC, fd)) return -1; Ofd *o = getfd(fd); if (o->kind != K_REG || (o->flags & O_ACCMODE) == O_RDONLY) FAIL(EINVAL); int rc = trunc_ino(o->ino, len); if (rc) FAIL(-rc); return 0; }
EXPORT int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
EXPORT int truncate64(const char *p, off_t len) { INACTIVE(-1); u32 i, par; char last[256], *lp; int act; int rc = pop(OP_TRUNC, AT_FDCWD, p, 1, &i, &par, last, &lp, &act); if (!rc) rc = !i ? -ENOENT : !perm(i, 2) ? -EACCES : trunc_ino(i, len); return done(OP_TRUNC, lp, act, rc); }
EXPORT int truncate(const char *p, off_t len) { return truncate64(p, len); }
static int do_access(int d, const char *p, int m) { u32 i, par; char last[256], *lp; int act; int rc = pop(OP_ACCESS, d, p, 1, &i, &par, last, &lp, &act); if (!rc) { if (!i) rc = -ENOENT; else if (!perm(i, m & 7)) rc = -EACCES; } return done(OP_ACCESS, lp, act, rc); }
EXPORT int access(const char *p, int m) { INACTIVE(-1); return do_access(AT_FDCWD, p, m); }
EXPORT int eaccess(const char *p, int m) { INACTIVE(-1); return do_access(AT_FDCWD, p, m); }
EXPORT int euidaccess(const char *p, int m) { INACTIVE(-1); return do_access(AT_FDCWD, p, m); }
EXPORT int faccessat(int d, const char *p, int m, int fl) { INACTIVE(-1); (void)fl; return do_access(d, p, m); }
EXPORT mode_t umask(mode_t m) { INACTIVE(0); mode_t o = S->umask_; S->umask_ = m & 0777; return o; }
EXPORT ssize_t copy_file_range(int a, off_t *ao, int b, off_t *bo, size_t n, unsigned fl) { (void)a; (void)ao; (void)b; (void)bo; (void)n; (void)fl; FAIL(ENOSYS); }
EXPORT ssize_t sendfile64(int a, int b, off_t *o, size_t n) { (void)a; (void)b; (void)o; (void)n; FAIL(EINVAL); }
EXPORT ssize_t sendfile(int a, int b, off_t *o, size_t n) { return sendfile64(a, b, o, n); }
EXPORT ssize_t splice(int a, off_t *ao, int b, off_t *bo, size_t n, unsigned fl) { (void)a; (void)ao; (void)b; (void)bo; (void)n; (void)fl; FAIL(EINVAL); }
EXPORT int mkostemp64(char *t, int fl) { size_t l = strlen(t); for (int k = 0; k < 100; k++) { u64 h = mix(S->seed, 0x7e3f, S->rnd_ctr++); for (int i = 0; i < 6; i++) t[l - 6 + i] = "abcdefghijklmnopqrstuvwxyz"[(h >> (5 * i)) % 26]; int fd = open64(t, O_RDWR | O_CREAT | O_EXCL | fl, 0600); if (fd >= 0 || errno != EEXIST) return fd; } FAIL(EEXIST); }
EXPORT int mkstemp(char *t) { INACTIVE(-1); return mkostemp64(t, 0); }
EXPORT int mkstemp64(char *t) { INACTIVE(-1); return mkostemp64(t, 0); }
EXPORT char *mkdtemp(char *t) { INACTIVE(NULL); size_t l = strlen(t); u64 h = mix(S->seed, 0x7e3f, S->rnd_ctr++); for (int i = 0; i < 6; i++) t[l - 6 + i] = "abcdefghijklmnopqrstuvwxyz"[(h >> (5 * i)) % 26]; return mkdir(t, 0700) ? NULL : t; }

// ---- exported: directories
typedef struct { int fd; u32 n, pos; Ent *e; struct dirent64 de; } SDir;
static DIR *mkdirstream(int fd) {
  Ofd *o = getfd(fd); Inode *n = &S->ino[o->ino]; SDir *d = halloc(sizeof *d); d->fd = fd;
  d->e = halloc((n->nents + 2) * sizeof(Ent)); d->e[0] = (Ent){".", o->ino}; d->e[1] = (Ent){"..", n->parent}; d->n = 2;
  for (u32 i = 0; i < n->nents; i++) d->e[d->n++] = (Ent){hdup(n->ents[i].name), n->ents[i].ino};
  // order: 0 = by name, 1 = seeded shuffle, 2 = reverse name, 3 = creation order
  if (S->readdir_mode != 3) for (u32 i = 1; i < d->n; i++) for (u32 j = i; j > 0; j--) {
    int c = strcmp(d->e[j - 1].name, d->e[j].name);
    if (S->readdir_mode == 1) { u64 a = mix(S->seed, 0xd14, hstr(d->e[j - 1].name)), b = mix(S->seed, 0xd14, hstr(d->e[j].name)); c = a > b ? 1 : a < b ? -1 : 0; S->shuffles++; }
    if (S->readdir_mode == 2) c = -c;
    if (c <= 0) break;
    Ent t = d->e[j]; d->e[j] = d->e[j - 1]; d->e[j - 1] = t;
  }
  return (DIR *)d;
}
EXPORT DIR *opendir(const char *p) {
  INACTIVE(NULL); u32 i, par; char last[256], *lp; int act; int rc = pop(OP_OPENDIR, AT_FDCWD, p, 1, &i, &par, last, &lp, &act); int fd = -1;
  if (!rc) { if (!i) rc = -ENOENT; else if (S->ino[i].type != 'd') rc = -ENOTDIR; else if (!perm(i, 4)) rc = -EACCES; else { int o = ofd_new(K_DIR, i, O_RDONLY, lp); fd = o < 0 ? -1 : fd_new(o, 0); if (fd < 0) { if (o >= 0) S->ofd[o].used = 0; rc = -EMFILE; } } }
  if (done(OP_OPENDIR, lp, act, rc) < 0) return NULL;
  return mkdirstream(fd);
}
EXPORT DIR *fdopendir(int fd) { INACTIVE(NULL); Ofd *o = getfd(fd); i64 arg = 0; const char *nm = fdname(o); int act = fault(OP_OPENDIR, nm, &arg); int rc = act == ACT_ERR ? -(int)arg : !o ? -EBADF : o->kind != K_DIR ? -ENOTDIR : 0; if (done(OP_OPENDIR, nm, act, rc) < 0) return NULL; return mkdirstream(fd); }
EXPORT struct dirent64 *readdir64(DIR *dp) {
  INACTIVE(NULL); SDir *d = (SDir *)dp; Ofd *o = getfd(d->fd); i64 arg = 0; const char *nm = fdname(o); int act = fault(OP_READDIR, nm, &arg);
  if (act == ACT_ERR) { ev(OP_READDIR, nm, -arg); errno = (int)arg; return NULL; }
  if (d->pos >= d->n) { ev(OP_READDIR, nm, 0); CRASH_IF_AFTER(act); return NULL; }
  Ent *e = &d->e[d->pos++]; memset(&d->de, 0, sizeof d->de); d->de.d_ino = e->ino; d->de.d_off = d->pos; d->de.d_reclen = sizeof d->de; strcpy(d->de.d_name, e->name);
  Inode *n = &S->ino[e->ino]; d->de.d_type = S->dtype_unknown ? DT_UNKNOWN : n->special ? DT_CHR : n->type == 'd' ? DT_DIR : n->type == 'l' ? DT_LNK : DT_REG;
  th(hstr(e->name)); ev(OP_READDIR, nm, d->pos); CRASH_IF_AFTER(act); return &d->de;
}
EXPORT struct dirent *readdir(DIR *dp) { return (struct dirent *)readdir64(dp); }
EXPORT int readdir64_r(DIR *dp, struct dirent64 *e, struct dirent64 **r) { errno = 0; struct dirent64 *x = readdir64(dp); if (!x) { *r = 0; return errno; } memcpy(e, x, sizeof *e); *r = e; return 0; }
EXPORT int closedir(DIR *dp) { INACTIVE(-1); return close(((SDir *)dp)->fd); }
EXPORT int dirfd(DIR *dp) { INACTIVE(-1); return ((SDir *)dp)->fd; }
EXPORT void rewinddir(DIR *dp) { ((SDir *)dp)->pos = 0; }

// ---- exported: descriptors, terminals
EXPORT int dup(int fd) { INACTIVE(-1); Ofd *o = getfd(fd); if (!o) FAIL(EBADF); int n = fd_new(S->fd[fd], 0); if (n < 0) FAIL(EMFILE); return n; }
EXPORT int dup2(int fd, int nfd) { INACTIVE(-1); Ofd *o = getfd(fd); if (!o || nfd < 0 || nfd >= NFD) FAIL(EBADF); if (fd == nfd) return fd; if (S->fd[nfd] >= 0) { Ofd *p = getfd(nfd); S->fd[nfd] = -1; if (--p->refs == 0) p->used = 0; } S->fd[nfd] = S->fd[fd]; o->refs++; return nfd; }
EXPORT int dup3(int a, int b, int f) { (void)f; return dup2(a, b); }
EXPORT int fcntl64(int fd, int cmd, ...) {
  INACTIVE(-1); va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); Ofd *o = getfd(fd); if (!o) FAIL(EBADF);
  switch (cmd) { case F_GETFD: return FD_CLOEXEC; case F_SETFD: return 0; case F_GETFL: return o->flags; case F_SETFL: return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int n = fd_new(S->fd[fd], (int)arg); if (n < 0) FAIL(EMFILE); return n; } }
  return 0;
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl64(fd, cmd, arg); }
static int is_tty(Ofd *o) { return (o->kind == K_STDOUT && S->stdout_kind == SINK_TTY) || (o->kind == K_STDERR && S->stderr_kind == SINK_TTY); }
EXPORT int isatty(int fd) { INACTIVE(0); Ofd *o = getfd(fd); if (!o) { errno = EBADF; return 0; } if (is_tty(o)) return 1; errno = ENOTTY; return 0; }
EXPORT int ioctl(int fd, unsigned long req, ...) {
  INACTIVE(-1); va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap); Ofd *o = getfd(fd); if (!o) FAIL(EBADF);
  if (is_tty(o)) { if (req == TIOCGWINSZ) { struct winsize w = {24, 80, 0, 0}; memcpy(arg, &w, sizeof w); return 0; } if (req == TCGETS) return 0; }
  FAIL(ENOTTY);
}
EXPORT int poll(struct pollfd *f, nfds_t n, int to) { INACTIVE(-1); (void)to; int c = 0; for (nfds_t i = 0; i < n; i++) { f[i].revents = 0; if (!getfd(f[i].fd)) { f[i].revents = POLLNVAL; c++; } else if (f[i].events) { f[i].revents = f[i].events; c++; } } return c; }
EXPORT int ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *s) { (void)t; (void)s; return poll(f, n, 0); }
EXPORT int pipe(int *p) { (void)p; FAIL(EMFILE); }
EXPORT int pipe2(int *p, int f) { (void)p; (void)f; FAIL(EMFILE); }
EXPORT int socket(int a, int b, int c) { (void)a; (void)b; (void)c; FAIL(EACCES); }
EXPORT int statfs64(const char *p, struct statfs64 *s) { (void)p; (void)s; FAIL(ENOSYS); }
EXPORT int fstatfs64(int fd, struct statfs64 *s) { (void)fd; (void)s; FAIL(ENOSYS); }
EXPORT uid_t getuid(void) { return 1000; }
EXPORT uid_t geteuid(void) { return 1000; }
EXPORT gid_t getgid(void) { return 1000; }
EXPORT gid_t getegid(void) { return 1000; }
EXPORT pid_t getpid(void) { return active ? 4242 + (pid_t)mep * 100 : (pid_t)rsc(SYS_getpid); }
EXPORT int posix_spawnp(pid_t *p, const char *f, const void *a, const void *b, char *const *c, char *const *d) { (void)p; (void)f; (void)a; (void)b; (void)c; (void)d; return EACCES; }
EXPORT int posix_spawn(pid_t *p, const char *f, const void *a, const void *b, char *const *c, char *const *d) { (void)p; (void)f; (void)a; (void)b; (void)c; (void)d; return EACCES; }

// ---- exported: clock and randomness
EXPORT int clock_gettime(clockid_t c, struct timespec *t) { if (!active) return (int)rsc(SYS_clock_gettime, c, t); u64 n = S->now_ns + (c == CLOCK_REALTIME ? 1700000000ull * 1000000000ull : 0); t->tv_sec = (time_t)(n / 1000000000ull); t->tv_nsec = (long)(n % 1000000000ull); return 0; }
EXPORT int gettimeofday(struct timeval *restrict tv, void *restrict tz) { (void)tz; struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t *o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
static void fillrnd(u8 *b, size_t n) { for (size_t i = 0; i < n; i++) { b[i] = (u8)mix(S->seed, 0x4a4d, S->rnd_ctr + i); } S->rnd_ctr += n; }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) { if (!active) return rsc(SYS_getrandom, b, n, fl); fillrnd(b, n); return (ssize_t)n; }
EXPORT int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
EXPORT uint32_t arc4random(void) { u32 x; getrandom(&x, 4, 0); return x; }

// ---------------------------------------------------------------- futex, threads
static long sim_futex(u32 *a, int op, u32 val, const struct timespec *ts, u32 *a2, u32 v3) {
  int c = op & FUTEX_CMD_MASK;
  if (c == FUTEX_WAIT || c == FUTEX_WAIT_BITSET) {
    sp(500);
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) FAIL(EAGAIN);
    T[me].deadline = 0;
    if (ts) { u64 n = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; if (c == FUTEX_WAIT) n += S->now_ns; else if (op & FUTEX_CLOCK_REALTIME) { u64 b = 1700000000ull * 1000000000ull; n = n > b ? n - b : 0; } T[me].deadline = n ? n : 1; }
    T[me].faddr = a; T[me].fbits = c == FUTEX_WAIT ? ~0u : v3; T[me].woken = 0; T[me].spur = 0; T[me].state = T_FUTEX;
    block();
    if (!T[me].woken && !T[me].spur && T[me].deadline) FAIL(ETIMEDOUT);
    return 0;
  }
  if (c == FUTEX_WAKE || c == FUTEX_WAKE_BITSET) {
    u32 bits = c == FUTEX_WAKE ? ~0u : v3; long n = 0;
    while (n < (long)val) { // who is woken is the scheduler's choice
      int w[NTHR], k = 0; for (int i = 0; i < nthr; i++) if (T[i].state == T_FUTEX && T[i].faddr == a && (T[i].fbits & bits)) w[k++] = i;
      if (!k) break;
      int x = w[S->sched_mode == 1 ? mix(S->seed, 0x3a4e, S->points + (u64)n) % (u64)k : 0];
      T[x].state = T_RUNNABLE; T[x].woken = 1; n++;
    }
    sp(500); return n;
  }
  if (c == FUTEX_REQUEUE || c == FUTEX_CMP_REQUEUE) {
    if (c == FUTEX_CMP_REQUEUE && *a != v3) FAIL(EAGAIN);
    long n = 0; for (int i = 0; i < nthr; i++) if (T[i].state == T_FUTEX && T[i].faddr == a) { if (n < (long)val) { T[i].state = T_RUNNABLE; T[i].woken = 1; } else T[i].faddr = a2; n++; }
    return n;
  }
  S->unmodelled++; FAIL(ENOSYS);
}
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (!active) { long r = rsc6(n, a, b, c, d, e, f); if (r < 0) FAIL(-r); return r; }
  switch (n) {
    case SYS_futex: return sim_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32 *)e, (u32)f);
    case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
    case SYS_gettid: return 4242 + me + (long)mep * 100;
    case SYS_getpid: return 4242 + (long)mep * 100;
    case SYS_sched_yield: return sched_yield();
    case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    case SYS_openat: return do_openat((int)a, (const char *)b, (int)c, (mode_t)d);
    case SYS_renameat2: return renameat2((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
    case SYS_copy_file_range: case SYS_close_range: case SYS_membarrier: case SYS_openat2: FAIL(ENOSYS);
  }
  S->unmodelled++; FAIL(ENOSYS);
}
EXPORT int sched_yield(void) { if (!active) return 0; if (live > 1 && !nopre) { S->points++; if (S->sched_mode == 1) { next_at = S->points; preempt(); } else { int n = -1; if (S->points >= next_at) n = pick(1); reset_countdown(); if (n < 0 || n == me) for (int k = 1; k < nthr; k++) { int i = (me + k) % nthr; if (T[i].state == T_RUNNABLE) { n = i; break; } } if (n >= 0) switch_to(n); } } return 0; }
EXPORT int nanosleep(const struct timespec *t, struct timespec *r) { INACTIVE(-1); (void)r; u64 n = (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; if (live < 2) { S->now_ns += n; return 0; } T[me].deadline = S->now_ns + n + 1; T[me].state = T_SLEEP; block(); return 0; }
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) { INACTIVE(ENOSYS); (void)r; u64 n = (u64)t->tv_sec * 1000000000ull + (u64)t->tv_nsec; if (fl & TIMER_ABSTIME) { u64 now = S->now_ns + (c == CLOCK_REALTIME ? 1700000000ull * 1000000000ull : 0); n = n > now ? n - now : 0; } struct timespec q = {(time_t)(n / 1000000000ull), (long)(n % 1000000000ull)}; nanosleep(&q, 0); return 0; }
EXPORT int usleep(useconds_t u) { struct timespec q = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&q, 0); }

static void thr_exit_hand_over(void) {
  int t = me; T[t].state = T_DONE; live--; nopre = 0;
  for (int i = 0; i < nthr; i++) if (T[i].state == T_JOIN && T[i].jt == t) T[i].state = T_RUNNABLE;
  S->points++;
  int n = pick(0);
  if (n < 0) die(ST_DEADLOCK, 98, "deadlock: last running thread ended, the rest are blocked");
  reset_countdown(); record_switch(n); cur = n; T[n].reap = t; gone = 1; go_wake(n);
}
static void key_dtor(void *v) { long k = (long)v; if (!active) return; if (k < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(exitkey, (void *)(k + 1)); return; } thr_exit_hand_over(); }
static void *thr_main(void *p) {
  int t = (int)(long)p; me = t; go_wait(t); cur = t;
  if (T[t].reap >= 0) { int z = T[t].reap; T[t].reap = -1; nopre++; real_join(T[z].pt, &T[z].ret); T[z].joined = 1; nopre--; }
  pthread_setspecific(exitkey, (void *)1);
  return T[t].fn(T[t].arg);
}
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!active) return real_create ? real_create(pt, at, fn, arg) : EAGAIN;
  i64 fa = 0; int act = fault(OP_MISC, "<pthread_create>", &fa); if (act == ACT_ERR) { ev(OP_MISC, "<pthread_create>", -fa); return (int)fa; }
  if (nthr >= NTHR) return EAGAIN;
  int t = nthr; memset(&T[t], 0, sizeof T[t]); T[t].fn = fn; T[t].arg = arg; T[t].reap = -1;
  nopre++; int rc = real_create(&T[t].pt, at, thr_main, (void *)(long)t); nopre--;
  if (rc) return rc;
  nthr++; live++; T[t].state = T_RUNNABLE; *pt = T[t].pt; if (live == 2) reset_countdown();
  ev(OP_MISC, "<pthread_create>", t); sp(500); return 0;
}
static int thr_find(pthread_t pt) { for (int i = nthr - 1; i > 0; i--) if (T[i].state != T_FREE && pthread_equal(T[i].pt, pt)) return i; return -1; }
EXPORT int pthread_join(pthread_t pt, void **ret) {
  if (!active) return real_join ? real_join(pt, ret) : EINVAL;
  int t = thr_find(pt); if (t < 0) return ESRCH;
  sp(500);
  if (T[t].state != T_DONE) { T[me].jt = t; T[me].state = T_JOIN; T[me].deadline = 0; block(); }
  if (ret) *ret = T[t].ret;
  return 0;
}
EXPORT int pthread_detach(pthread_t pt) { if (!active) return 0; int t = thr_find(pt); if (t >= 0) T[t].detached = 1; return 0; }
EXPORT int pthread_getattr_np(pthread_t pt, pthread_attr_t *a) {
  if (!active || me != 0) return real_getattr(pt, a);
  pthread_attr_init(a); if (main_attr_ok) pthread_attr_setstack(a, main_stack, main_stack_size); return 0; // glibc would read /proc/self/maps
}
EXPORT int dl_iterate_phdr(int (*cb)(struct dl_phdr_info *, size_t, void *), void *d) { nopre++; int r = real_iter(cb, d); nopre--; return r; }
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { (void)p; memset(s, 0, n); CPU_SET(0, s); CPU_SET(1, s); return 0; }

// ---------------------------------------------------------------- memory
static inline size_t pad(size_t n) { return S->alloc_pad ? n + (mix(S->seed, 0xa110c, S->mallocs) % S->alloc_pad & ~15ul) : n; }
static inline int mfail(void) {
  if (gone) return 0;
  S->mallocs++;
  if (S->malloc_fail_at && S->mallocs == S->malloc_fail_at && !S->faults_off) { ev(OP_MALLOC, "<malloc>", -ENOMEM); errno = ENOMEM; return 1; }
  sp(8); return 0;
}
// bytes in use, and the most there ever were
static inline void *grow(void *p) { if (p && (S->hbytes += malloc_usable_size(p)) > S->heap_peak) S->heap_peak = S->hbytes; return p; }
EXPORT void *malloc(size_t n) { if (!active) return __libc_malloc(n); if (mfail()) return 0; return grow(__libc_malloc(pad(n))); }
EXPORT void *calloc(size_t a, size_t b) { if (!active) return __libc_calloc(a, b); if (mfail()) return 0; size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; return grow(__libc_calloc(1, pad(n))); }
EXPORT void *realloc(void *p, size_t n) { if (!active) return __libc_realloc(p, n); if (mfail()) return 0; i64 old = p ? malloc_usable_size(p) : 0; p = __libc_realloc(p, pad(n)); if (p) { S->hbytes -= old; grow(p); } return p; }
EXPORT void free(void *p) { if (active && p) S->hbytes -= malloc_usable_size(p); __libc_free(p); if (active) sp(8); }
EXPORT int posix_memalign(void **o, size_t al, size_t n) { if (active && mfail()) return ENOMEM; void *p = __libc_memalign(al, n); if (!p) return ENOMEM; if (active) grow(p); *o = p; return 0; }
EXPORT void *aligned_alloc(size_t al, size_t n) { if (!active) return __libc_memalign(al, n); if (mfail()) return 0; return grow(__libc_memalign(al, n)); }
EXPORT void *memalign(size_t al, size_t n) { return aligned_alloc(al, n); }

// ---------------------------------------------------------------- coverage edges
EXPORT void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) { if (a == b || *a) return; static u32 n; for (u32 *p = a; p < b; p++) *p = ++n; }
EXPORT void __sanitizer_cov_trace_pc_guard(u32 *g) {
  if (!active || gone) return;
  if (++S->edges > S->edge_budget) die(ST_BUDGET, 97, "execution step budget exceeded");
  u32 i = *g; if (i < Gn && !G[i]) { G[i] = 1; S->newedges++; }
  if (live > 1 && !nopre) { if (++S->points >= next_at) preempt(); }
}
// target-side control: 1 = faults off, 2 = faults on, 3 = marker
EXPORT long simos_ctl(int cmd, long arg) {
  if (!active) return -1;
  switch (cmd) { case 1: S->faults_off = 1; return 0; case 2: S->faults_off = 0; return 0; case 3: ev(OP_MISC, "<mark>", arg); return 0; case 4: return (long)S->nops; }
  return -1;
}

// ---------------------------------------------------------------- job decoding
typedef struct { const u8 *p, *e; } Cur;
static u64 g64(Cur *c) { if (c->p + 8 > c->e) return 0; u64 v; memcpy(&v, c->p, 8); c->p += 8; return v; }
static const u8 *gblob(Cur *c, u32 *n) { *n = (u32)g64(c); if (c->p + *n > c->e) { *n = 0; return (const u8 *)""; } u8 *d = halloc(*n + 1); memcpy(d, c->p, *n); c->p += *n; return d; }
static char *jobargv[64]; static int jobargc; static char *jobenv[64];

static const char *decode(Cur *c) {
  if (g64(c) != 0x51305) return "bad magic";
  Sim *s = S;
  // reset
  memset(s, 0, offsetof(Sim, ino)); s->heap_used = 0;
  memset(s->ofd, 0, sizeof s->ofd); for (int i = 0; i < NFD; i++) s->fd[i] = -1;
  s->nsw = 0; s->umask_ = 022;
  s->nino = 1; u32 root = ialloc('d', 0755); s->ino[root].parent = root;
  s->seed = g64(c); s->step_budget = g64(c); s->edge_budget = g64(c); s->disk_free = g64(c); s->malloc_fail_at = g64(c);
  s->alloc_pad = (u32)g64(c); s->stdin_chunk = (u32)g64(c); s->file_chunk = (u32)g64(c); s->write_chunk = (u32)g64(c); s->eintr_pm = (u32)g64(c);
  s->readdir_mode = (u32)g64(c); s->dtype_unknown = (u32)g64(c); s->sched_mode = (u32)g64(c); s->sched_mean = g64(c); if (!s->sched_mean) s->sched_mean = 1000;
  s->spurious_pm = (u32)g64(c); s->stdout_kind = (u32)g64(c); s->stderr_kind = (u32)g64(c); s->stdout_limit = (i64)g64(c); s->stderr_limit = (i64)g64(c);
  s->fd_limit = (u32)g64(c); s->clock_mode = (u32)g64(c); s->root_user = (u32)g64(c);
  int stdin_closed = (int)g64(c);
  s->now_ns = 1000000000ull * (1 + mix(s->seed, 3, 9) % 1000000);
  u32 n, k;
  n = (u32)g64(c); if (n > 60) return "too many args"; jobargc = (int)n; for (u32 i = 0; i < n; i++) jobargv[i] = (char *)gblob(c, &k); jobargv[n] = 0;
  n = (u32)g64(c); if (n > 60) return "too many env"; for (u32 i = 0; i < n; i++) jobenv[i] = (char *)gblob(c, &k); jobenv[n] = 0;
  const char *cwd = (const char *)gblob(c, &k);
  s->stdin_data = gblob(c, &s->stdin_len);
  n = (u32)g64(c); // file system image
  for (u32 i = 0; i < n; i++) {
    u8 t = (u8)g64(c); u32 mode = (u32)g64(c); const char *path = (const char *)gblob(c, &k); u32 dl; const u8 *d = gblob(c, &dl);
    if (t == 'h') { u32 a, par; char last[256]; if (walk(1, (const char *)d, 0, &a, &par, last) == 0 && a) { char b[4200]; strncpy(b, path, 4199); char *sl = strrchr(b, '/'); *sl = 0; u32 dd = *b ? mkpath(b, 'd', 0755) : 1; dadd(dd, sl + 1, a); s->ino[a].nlink++; } continue; }
    u32 ino = mkpath(path, t, mode); if (t != 'd') { setdata(ino, d, dl); }
  }
  n = (u32)g64(c); s->nfaults = n; s->faults = halloc(n * sizeof(Fault) + 1);
  for (u32 i = 0; i < n; i++) { Fault *f = &s->faults[i]; f->cls = (u32)g64(c); f->from = (i64)g64(c); f->count = (i64)g64(c); f->act = (u32)g64(c); f->arg = (i64)g64(c); f->proc = (i64)g64(c); f->path = (const char *)gblob(c, &k); }
  n = (u32)g64(c); s->nmuts = n; s->muts = halloc(n * sizeof(Mut) + 1);
  for (u32 i = 0; i < n; i++) { Mut *m = &s->muts[i]; m->kind = (u32)g64(c); m->mode = (u32)g64(c); m->path = (const char *)gblob(c, &k); m->data = gblob(c, &m->len); }
  n = (u32)g64(c); s->nxsw = n; s->xsw = halloc(n * sizeof(Sw) + 1);
  for (u32 i = 0; i < n; i++) { s->xsw[i].point = g64(c); s->xsw[i].tid = (u32)g64(c); }
  s->psched_pm = (u32)g64(c); n = (u32)g64(c); // further processes
  if (n >= NPROC) return "too many processes";
  s->nproc = 1 + n; memset(s->proc, 0, sizeof s->proc); s->curp = 0; s->ptoken = 0;
  static const char *pcwd[NPROC];
  for (u32 i = 1; i <= n; i++) {
    Proc *p = &s->proc[i]; u32 m = (u32)g64(c); if (m > 60) return "too many args";
    p->argc = (int)m; p->argv = halloc((m + 1) * sizeof(char *)); for (u32 q = 0; q < m; q++) p->argv[q] = (char *)gblob(c, &k);
    m = (u32)g64(c); p->env = halloc((m + 1) * sizeof(char *)); for (u32 q = 0; q < m; q++) p->env[q] = (char *)gblob(c, &k);
    pcwd[i] = (const char *)gblob(c, &k); p->stdin_data = gblob(c, &p->stdin_len); p->umask_ = 022;
  }
  u64 start = g64(c); if (start) s->now_ns = start;
  s->start_ns = s->now_ns;
  n = (u32)g64(c); // modification times
  for (u32 i = 0; i < n; i++) { const char *path = (const char *)gblob(c, &k); u64 t = g64(c); u32 a, par; char last[256]; if (walk(1, path, 0, &a, &par, last) == 0 && a) s->ino[a].mtime = t; }
  if (c->p != c->e) return "trailing job bytes";
  // devices
  u32 dn = mkpath("/dev/null", 'f', 0666); s->ino[dn].special = K_NULL; u32 df = mkpath("/dev/full", 'f', 0666); s->ino[df].special = K_FULL;
  u32 di = mkpath("/dev/stdin", 'f', 0600); s->ino[di].special = K_STDIN; u32 dO = mkpath("/dev/stdout", 'f', 0600); s->ino[dO].special = K_STDOUT; u32 dE = mkpath("/dev/stderr", 'f', 0600); s->ino[dE].special = K_STDERR;
  u32 a, par; char last[256]; if (walk(1, cwd, 1, &a, &par, last) || !a || s->ino[a].type != 'd') return "bad cwd"; s->cwd = a;
  int o0 = ofd_new(K_STDIN, 0, O_RDONLY, "<stdin>"), o1 = ofd_new(K_STDOUT, 0, O_WRONLY, "<stdout>"), o2 = ofd_new(K_STDERR, 0, O_WRONLY, "<stderr>");
  if (!stdin_closed) { s->fd[0] = o0; s->ofd[o0].refs = 1; } else s->ofd[o0].used = 0;
  if (s->stdout_kind != SINK_CLOSED) { s->fd[1] = o1; s->ofd[o1].refs = 1; } else s->ofd[o1].used = 0;
  if (s->stderr_kind != SINK_CLOSED) { s->fd[2] = o2; s->ofd[o2].refs = 1; } else s->ofd[o2].used = 0;
  for (u32 i = 1; i < s->nproc; i++) {
    Proc *p = &s->proc[i]; if (walk(1, pcwd[i], 1, &a, &par, last) || !a || s->ino[a].type != 'd') return "bad cwd"; p->cwd = a;
    memcpy(p->ofd, s->ofd, sizeof p->ofd); memcpy(p->fd, s->fd, sizeof p->fd); for (int q = 0; q < 3; q++) if (p->fd[q] >= 0) p->ofd[p->fd[q]].path = hdup(p->ofd[p->fd[q]].path);
  }
  return 0;
}

// ---------------------------------------------------------------- escape detection (seccomp)
static void on_sigsys(int sig, siginfo_t *si, void *uc) {
  (void)sig; (void)uc; static char m[64] = "system call outside the simulation: "; int n = si->si_syscall; char *p = m + 36; if (n >= 100) *p++ = '0' + n / 100; if (n >= 10) *p++ = '0' + n / 10 % 10; *p++ = '0' + n % 10; *p = 0;
  die(ST_ESCAPE, 96, m);
}
static void lock_down(void) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sigsys; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK; sigaction(SIGSYS, &sa, 0);
  static const u32 deny[] = {SYS_read, SYS_write, SYS_open, SYS_openat, SYS_creat, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_statx, SYS_access, SYS_faccessat, SYS_faccessat2, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_readlink, SYS_readlinkat, SYS_chmod, SYS_fchmodat, SYS_chown, SYS_lchown, SYS_fchownat, SYS_truncate, SYS_ftruncate, SYS_chdir, SYS_fchdir, SYS_getcwd, SYS_getdents64, SYS_execve, SYS_execveat, SYS_fork, SYS_vfork, SYS_kill, SYS_socket, SYS_connect, SYS_mount, SYS_writev, SYS_readv, SYS_pread64, SYS_pwrite64, SYS_nanosleep, SYS_clock_nanosleep, SYS_getrandom, SYS_sched_yield, SYS_openat2};
  enum { ND = sizeof deny / sizeof *deny };
  static struct sock_filter f[ND + 8]; int n = 0;
  f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < ND; i++) f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, deny[i], (u8)(ND - i), 0);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  struct sock_fprog pr = {(unsigned short)n, f};
  rsc(SYS_prctl, PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
  rsc(SYS_prctl, PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr, 0, 0);
}

// ---------------------------------------------------------------- fork server
static int rd_all(int fd, void *b, size_t n) { u8 *p = b; while (n) { long r = rsc(SYS_read, fd, p, n); if (r == -EINTR) continue; if (r <= 0) return -1; p += r; n -= (size_t)r; } return 0; }
static u8 *obuf; static size_t olen; static const size_t OCAP = 64u << 20;
static void o64(u64 v) { memcpy(obuf + olen, &v, 8); olen += 8; }
static void oblob(const void *d, u64 n) { if (olen + n + 64 > OCAP) n = 0; o64(n); memcpy(obuf + olen, d, n); olen += n; }
static u64 odump(u32 d, char *path, size_t pl) {
  u64 cnt = 0; Inode *n = &S->ino[d];
  for (u32 i = 0; i < n->nents; i++) {
    Ent *e = &n->ents[i]; Inode *x = &S->ino[e->ino]; size_t l = strlen(e->name); if (pl + l + 2 > 8000 || x->special) continue;
    path[pl] = '/'; memcpy(path + pl + 1, e->name, l); o64(x->type); o64(x->mode); o64(e->ino); o64(x->mtime); oblob(path, pl + 1 + l); oblob(x->type == 'd' ? (u8 *)"" : x->data ? x->data : (u8 *)"", x->type == 'd' ? 0 : x->size); cnt++;
    if (x->type == 'd') cnt += odump(e->ino, path, pl + 1 + l);
  }
  return cnt;
}
static void serve(char **argv) {
  rsc(SYS_dup2, 0, 198); rsc(SYS_dup2, 1, 199);
  u8 *jb = mmap(0, 64u << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  obuf = mmap(0, OCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  static char path[9000];
  for (;;) {
    u64 hdr[2];
    if (rd_all(198, hdr, 16)) rsc(SYS_exit_group, 0);
    if (hdr[0] > (64u << 20) || rd_all(198, jb, hdr[0])) rsc(SYS_exit_group, 3);
    Cur c = {jb, jb + hdr[0]};
    const char *err = decode(&c); int wst = 0; u64 timed_out = 0;
    if (err) { S->status = ST_SIMERR; strcpy(S->msg, err); }
    else {
      S->proc[0].argv = jobargv; S->proc[0].argc = jobargc; S->proc[0].env = jobenv;
      long pids[NPROC]; u32 np = S->nproc, started = 0;
      for (u32 k = 0; k < np; k++) S->proc[k].alive = 1; // before the first one can run
      for (u32 k = 0; k < np; k++) {
        long pid = pids[k] = fork();
        if (pid == 0) {
          rsc(SYS_close_range, 0, ~0u, 0); mep = k;
          for (int i = 0; i < S->proc[k].argc; i++) argv[i + 1] = S->proc[k].argv[i];
          argv[S->proc[k].argc + 1] = 0; environ = S->proc[k].env;
          memset(T, 0, sizeof T); T[0].state = T_RUNNABLE; T[0].reap = -1; nthr = 1; live = 1; cur = 0; me = 0; next_at = UINT64_MAX; nopre = 0;
          pwait_token();
          lock_down(); active = 1; return;
        }
        if (pid < 0) { S->status = ST_SIMERR; strcpy(S->msg, "fork failed"); break; }
        started++;
      }
      if (started < np) { for (u32 k = 0; k < started; k++) rsc(SYS_kill, pids[k], SIGKILL); for (u32 k = 0; k < started; k++) while (rsc(SYS_wait4, pids[k], &wst, 0, 0) == -EINTR) {} }
      else {
        struct pollfd pf[NPROC]; u32 left = np;
        for (u32 k = 0; k < np; k++) pf[k] = (struct pollfd){(int)rsc(SYS_pidfd_open, pids[k], 0), POLLIN, 0};
        struct timespec ts = {(time_t)(hdr[1] / 1000), (long)(hdr[1] % 1000) * 1000000};
        while (left) {
          long pr; do pr = rsc(SYS_ppoll, pf, np, &ts, 0, 8); while (pr == -EINTR);
          if (pr == 0) { timed_out = 1; for (u32 k = 0; k < np; k++) if (pf[k].fd >= 0) rsc(SYS_kill, pids[k], SIGKILL); }
          for (u32 k = 0; k < np; k++) {
            if (pf[k].fd < 0 || !(timed_out || pf[k].revents)) continue;
            int w = 0; while (rsc(SYS_wait4, pids[k], &w, 0, 0) == -EINTR) {}
            rsc(SYS_close, pf[k].fd); pf[k].fd = -1; left--;
            Proc *p = &S->proc[k]; p->wst = w; p->alive = 0;
            if (np == 1 || timed_out) continue;
            // it held the token: what it leaves open is released, and another one goes on
            psave(p);
            int to = S->sched_mode == 1 ? -1 : pexplicit(); if (to < 0) to = pother(k);
            if (to >= 0) phand((u32)to);
          }
        }
        wst = S->proc[0].wst; if (np > 1 && !timed_out) pload(0);
      }
    }
    olen = 8; o64(0x51306); o64(S->status); o64((u64)(u32)wst); o64(timed_out);
    o64(S->nops); o64(S->edges); o64(S->mallocs); o64(S->points); o64(S->switches); o64(S->thash); o64(S->newedges); o64(S->unmodelled); o64(S->now_ns); o64(S->now_ns - S->start_ns); o64(S->eintrs); o64(S->shorts); o64(S->spurious); o64(S->clockjumps); o64(S->shuffles); o64(S->trace_over); o64(S->heap_peak);
    oblob(S->msg, strlen(S->msg)); oblob(S->out[0], S->out_len); oblob(S->err[0], S->err_len); oblob(S->trace, S->trace_len);
    o64(S->nsw); for (u32 i = 0; i < S->nsw; i++) { o64(S->sw[i].point); o64(S->sw[i].tid); }
    o64(S->nfaults); for (u32 i = 0; i < S->nfaults; i++) o64(S->faults[i].fired);
    size_t at = olen; o64(0); u64 cnt = err ? 0 : odump(1, path, 0); memcpy(obuf + at, &cnt, 8);
    o64(err ? 0 : S->nproc - 1);
    for (u32 i = 1; !err && i < S->nproc; i++) { Proc *p = &S->proc[i]; o64(p->status); o64((u64)(u32)p->wst); oblob(p->msg, strlen(p->msg)); oblob(S->out[i], p->out_len); oblob(S->err[i], p->err_len); }
    u64 tot = olen - 8; memcpy(obuf, &tot, 8);
    for (size_t w = 0; w < olen;) { long r = rsc(SYS_write, 199, obuf + w, olen - w); if (r == -EINTR) continue; if (r <= 0) rsc(SYS_exit_group, 4); w += (size_t)r; }
  }
}

__attribute__((constructor)) static void boot(int argc, char **argv, char **envp) {
  int server = 0; const char *cov = 0;
  for (char **e = envp; *e; e++) { if (!strcmp(*e, "SIMOS_SERVER=1")) server = 1; if (!strncmp(*e, "SIMOS_COV=", 10)) cov = *e + 10; }
  real_iter = dlsym(RTLD_NEXT, "dl_iterate_phdr"); real_create = dlsym(RTLD_NEXT, "pthread_create"); real_join = dlsym(RTLD_NEXT, "pthread_join"); real_getattr = dlsym(RTLD_NEXT, "pthread_getattr_np");
  if (!server) return;
  mallopt(M_ARENA_MAX, 1); // other arenas read /proc when they shrink
  long pers = rsc(SYS_personality, 0xffffffff);
  if (!(pers & ADDR_NO_RANDOMIZE)) { rsc(SYS_personality, pers | ADDR_NO_RANDOMIZE); if (rsc(SYS_personality, 0xffffffff) & ADDR_NO_RANDOMIZE) rsc(SYS_execve, "/proc/self/exe", argv, envp); rsc(SYS_exit_group, 5); }
  if (argc < 62) rsc(SYS_exit_group, 6);
  pthread_attr_t a; if (real_getattr(pthread_self(), &a) == 0) { pthread_attr_getstack(&a, &main_stack, &main_stack_size); main_attr_ok = 1; }
  pthread_key_create(&exitkey, key_dtor);
  S = mmap((void *)0x600000000000, sizeof(Sim), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (S == MAP_FAILED) rsc(SYS_exit_group, 7);
  Gn = 1u << 20; G = MAP_FAILED;
  if (cov) { long fd = rsc(SYS_open, cov, O_RDWR); if (fd >= 0) { G = mmap(0, Gn, PROT_READ | PROT_WRITE, MAP_SHARED, (int)fd, 0); rsc(SYS_close, fd); } }
  if (G == MAP_FAILED) { G = mmap(0, Gn, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  serve(argv);
}
