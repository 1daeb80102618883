// Preloaded library: delays around the pthread synchronisation calls, and early
// returns of condition waits (which POSIX allows at any time). K2V_DELAY is
// "seed:probability of a pause in 1/1000:probability of an early return in 1/1000".
// The sequence of (thread, call, object) is folded into a signature, so that
// distinct schedules can be counted.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>

static int (*r_lock)(pthread_mutex_t *), (*r_unlock)(pthread_mutex_t *), (*r_wait)(pthread_cond_t *, pthread_mutex_t *),
    (*r_signal)(pthread_cond_t *), (*r_bcast)(pthread_cond_t *), (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static uint64_t seed = 1; static int pause_m, early_m; static int on;
static _Atomic uint64_t nthreads, sig = 1469598103934665603ull, events, pauses, early, multi;
static __thread uint64_t st, me;
static __thread int depth;

static void init(void) {
  if (r_create) return;
  r_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock"); r_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  r_wait = dlsym(RTLD_NEXT, "pthread_cond_wait"); r_signal = dlsym(RTLD_NEXT, "pthread_cond_signal"); r_bcast = dlsym(RTLD_NEXT, "pthread_cond_broadcast");
  const char *e = getenv("K2V_DELAY"); unsigned long long s = 0;
  if (e && sscanf(e, "%llu:%d:%d", &s, &pause_m, &early_m) == 3) { seed = s; on = 1; }
  r_create = dlsym(RTLD_NEXT, "pthread_create");
}
__attribute__((constructor)) static void start(void) { init(); }
static uint64_t rnd(void) {
  if (!me) { me = ++nthreads; st = (seed * 0x9E3779B97F4A7C15ull) ^ (me * 0xD1B54A32D192ED03ull); }
  st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1Dull;
}
static void note(int kind) {
  if (!multi) return;                 // only once a second thread exists
  events++; uint64_t h = sig; h ^= me * 16 + kind; h *= 1099511628211ull; sig = h;
}
static void hold(int kind) {
  if (!on || depth) return;
  depth++;
  uint64_t x = rnd() >> 11;
  if (multi && (int)(x % 1000) < pause_m) {
    pauses++;
    switch (x / 1000 % 4) {
      case 0: sched_yield(); break;
      case 1: for (volatile int i = 0; i < 2000; i++) {} break;
      default: { struct timespec t = {0, (long)(x / 4000 % 400000)}; nanosleep(&t, 0); }
    }
  }
  note(kind);
  depth--;
}
int pthread_mutex_lock(pthread_mutex_t *m) { init(); hold(1); return r_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { init(); int r = r_unlock(m); hold(2); return r; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  init(); hold(3);
  if (on && multi && early_m && (int)(rnd() >> 11) % 1000 < early_m) { early++; r_unlock(m); sched_yield(); r_lock(m); return 0; }
  return r_wait(c, m);
}
int pthread_cond_signal(pthread_cond_t *c) { init(); hold(4); int r = r_signal(c); hold(5); return r; }
int pthread_cond_broadcast(pthread_cond_t *c) { init(); hold(6); int r = r_bcast(c); hold(7); return r; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { init(); multi = 1; int r = r_create(t, a, f, x); hold(8); return r; }
// out: signature, events, pauses, early returns (counted since the last call)
void k2v_delay_read(uint64_t *out) {
  out[0] = sig; out[1] = events; out[2] = pauses; out[3] = early;
  sig = 1469598103934665603ull; events = pauses = early = 0;
}
