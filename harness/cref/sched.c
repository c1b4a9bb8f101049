// Controlled scheduler for two threads. Every access of either thread to protected memory (the
// writable statics and the heap of libpvso.so) faults and is a scheduling point; the access is then
// made by single-stepping the one instruction. Only one thread runs at a time.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

typedef struct { int thread; long points; } step_t; // run `thread` until it is about to make access number `points`
#define MAXSTEP 8
static step_t steps[MAXSTEP];
static int nsteps, cur;
static volatile int turn, done[2];
static volatile long npoint[2], run_len, spins;
static long switches;
static uint64_t trace_hash;
static uintptr_t lo[4], hi[4];
static int nr;
static int protected_now;
static __thread int me = -1;
static void (*f_run)(const double *, uint64_t *);
static void (*f_thread)(size_t);
static void (*f_shared)(void);
static uint8_t *arena;
static size_t part;
// footprint: addresses touched per thread, in shared memory supplied by the caller
static uint64_t *foot; static long maxfoot;

static void prot(int p) { for (int i = 0; i < nr; i++) mprotect((void *)lo[i], hi[i] - lo[i], p); }
static void fut_wait(volatile int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT, v, 0, 0, 0); }
static void fut_wake(volatile int *a) { syscall(SYS_futex, a, FUTEX_WAKE, 2, 0, 0, 0); }
static void give(int t) { turn = t; __sync_synchronize(); fut_wake(&turn); }
static void await_turn(void) { int v; while ((v = turn) != me) fut_wait(&turn, v); __sync_synchronize(); }
static void hand_over(void) { switches++; run_len = 0; give(1 - me); await_turn(); }
#define SPIN 400
static void point(void) {
  for (;;) {
    if (cur < nsteps && steps[cur].thread == me && npoint[me] >= steps[cur].points) {
      cur++;
      if (!done[1 - me]) { hand_over(); continue; }
    }
    if (run_len > SPIN && !done[1 - me]) {
      // waiting for the other thread, as far as can be told
      if (++spins > 200) _exit(70);
      hand_over();
    }
    break;
  }
  npoint[me]++; run_len++;
}
static void on_segv(int s, siginfo_t *si, void *u) {
  ucontext_t *c = u; uintptr_t a = (uintptr_t)si->si_addr; int in = 0;
  for (int i = 0; i < nr; i++) in |= a >= lo[i] && a < hi[i];
  if (!in || me < 0 || !protected_now) { signal(SIGSEGV, SIG_DFL); return; }
  int e = errno;
  point();
  if (foot && npoint[me] <= maxfoot) foot[(size_t)me * maxfoot + npoint[me] - 1] = (a << 1) | !!(c->uc_mcontext.gregs[REG_ERR] & 2);
  trace_hash = (trace_hash ^ (uint64_t)me ^ ((uint64_t)a << 1)) * 0x100000001b3ull;
  prot(PROT_READ | PROT_WRITE);
  c->uc_mcontext.gregs[REG_EFL] |= 0x100;
  errno = e;
}
static void on_trap(int s, siginfo_t *si, void *u) {
  ucontext_t *c = u; int e = errno;
  c->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
  prot(PROT_NONE);
  errno = e;
}
static int seg(struct dl_phdr_info *i, size_t n, void *d) {
  if (!strstr(i->dlpi_name, "libpvso.so")) return 0;
  uintptr_t rl = 0, rh = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
    rl = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rh = rl + i->dlpi_phdr[k].p_memsz; }
  rl &= ~4095ul; rh &= ~4095ul; // what the loader made read-only
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) *p = &i->dlpi_phdr[k];
    if (p->p_type != PT_LOAD || !(p->p_flags & PF_W)) continue;
    uintptr_t a = (i->dlpi_addr + p->p_vaddr) & ~4095ul, b = (i->dlpi_addr + p->p_vaddr + p->p_memsz + 4095) & ~4095ul;
    if (rh > rl && a < rh && rl < b) { if (a < rl) { lo[nr] = a; hi[nr++] = rl; } a = rh; }
    if (a < b) { lo[nr] = a; hi[nr++] = b; }
  }
  return 1;
}
// Load the object. Returns the number of bytes of static memory under control, or -1.
long sch_load(const char *path) {
  void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return -1; }
  f_run = (void (*)(const double *, uint64_t *))dlsym(h, "pvso_run");
  f_thread = (void (*)(size_t))dlsym(h, "pvso_thread");
  f_shared = (void (*)(void))dlsym(h, "pvso_shared");
  void (*init)(uint8_t *) = (void (*)(uint8_t *))dlsym(h, "pvso_init");
  size_t (*fp)(void) = (size_t (*)(void))dlsym(h, "pvso_part");
  if (!f_run || !f_thread || !init || !fp || !f_shared) return -1;
  part = fp();
  arena = mmap(0, 3 * part, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (arena == MAP_FAILED) return -1;
  init(arena);
  dl_iterate_phdr(seg, 0);
  long n = 0; for (int i = 0; i < nr; i++) n += hi[i] - lo[i];
  lo[nr] = (uintptr_t)arena; hi[nr] = lo[nr] + 3 * part; nr++;
  return n;
}
struct job { int who; const double *call; uint64_t *out; };
static void *body(void *v) {
  struct job *j = v;
  f_thread(j->who + 1);
  __sync_fetch_and_add(&done[j->who], -1); // ready: -1
  fut_wake(&done[j->who]);
  me = j->who;
  await_turn();
  f_run(j->call, j->out);
  done[me] = 1;
  int m = me; me = -1; run_len = 0;
  // the schedule's next segment, or whoever is left
  while (cur < nsteps && steps[cur].thread == m) cur++;
  give(1 - m);
  return 0;
}
// In a forked child: run one schedule. warm: n calls made before by this (main) thread, after one another.
// sched: pairs thread,points. info: [points0, points1, switches, spins, hash]
int sch_exec(const double *warm, int nwarm, const double *a, const double *b, const long *sched, int ns,
             uint64_t *outa, uint64_t *outb, uint64_t *outw, int with_shared, uint64_t *footp, long mf, uint64_t *info) {
  if (ns > MAXSTEP) return -1;
  foot = footp; maxfoot = mf;
  if (with_shared) f_shared();
  for (int i = 0; i < nwarm; i++) f_run(warm + 4 * i, outw + 4 * i);
  for (int i = 0; i < ns; i++) { steps[i].thread = sched[2 * i]; steps[i].points = sched[2 * i + 1]; }
  nsteps = ns; cur = 0; turn = -1; done[0] = done[1] = 0;
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sa.sa_sigaction = on_segv; sigaction(SIGSEGV, &sa, 0);
  sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, 0);
  struct job j0 = {0, a, outa}, j1 = {1, b, outb};
  pthread_t t0, t1; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2 << 20);
  int r0 = pthread_create(&t0, &at, body, &j0), r1 = pthread_create(&t1, &at, body, &j1);
  if (r0 || r1) { fprintf(stderr, "pthread_create: %d %d\n", r0, r1); return -1; }
  for (int t = 0; t < 2; t++) while (done[t] != -1) fut_wait(&done[t], 0);
  done[0] = done[1] = 0;
  protected_now = 1; prot(PROT_NONE);
  give(ns ? steps[0].thread : 0);
  // wait for both to finish; while one runs the other waits in await_turn
  pthread_join(t0, 0); pthread_join(t1, 0);
  prot(PROT_READ | PROT_WRITE);
  info[0] = npoint[0]; info[1] = npoint[1]; info[2] = switches; info[3] = spins; info[4] = trace_hash;
  return 0;
}
