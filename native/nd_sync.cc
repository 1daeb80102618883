// Thread pool and semaphores: every task runs exactly once, a wait ends when (and
// only when) the tasks are done, and no wake-up is lost.
#include "nd.h"
#include <atomic>
#include <chrono>
#include <memory>
#include <set>
#include <thread>
#include "k2/csrc/context.h"
#include "k2/csrc/semaphore.h"
#include "k2/csrc/thread_pool.h"

using namespace k2;
using nd::Log; using nd::Rng; using nd::fail; using nd::same1;
typedef std::vector<int> Vi;

static void nap(uint64_t x) {
  switch (x % 8) {
    case 0: std::this_thread::yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(x / 8 % 300)); break;
    case 2: for (volatile int i = 0; i < (int)(x / 8 % 4000); i = i + 1) {} break;
    default: break;
  }
}
// One thread hands tasks over and waits, several times. The results are plain
// memory: the wait itself must order them.
static void one_owner(Rng &r, Log &log) {
  int nt = (int)r(1, 6); ThreadPool pool(nt);
  same1<int>("GetNumThreads", pool.GetNumThreads(), nt);
  int rounds = (int)r(1, 12); if (r.p(0.2)) pool.WaitAllTasksFinished();
  for (int k = 0; k < rounds; k++) {
    int n = (int)r(0, r.p(0.3) ? 60 : 6); Vi ran(n, 0); std::vector<uint64_t> naps; for (int i = 0; i < n; i++) naps.push_back(r.bits(20));
    std::vector<std::shared_ptr<int>> hold;
    for (int i = 0; i < n; i++) {
      auto h = std::make_shared<int>(i); hold.push_back(h);
      pool.SubmitTask([&ran, i, h, &naps]() { nap(naps[i]); ran[*h]++; });
    }
    nap(r.bits(16));
    pool.WaitAllTasksFinished();
    for (int i = 0; i < n; i++) if (ran[i] != 1) fail("after the wait, task " + std::to_string(i) + " of " + std::to_string(n) + " had run " + std::to_string(ran[i]) + " times (pool of " + std::to_string(nt) + ")");
    for (auto &h : hold) if (h.use_count() != 1) fail("after the wait, a finished task still holds what it captured");
    if (r.p(0.3)) pool.WaitAllTasksFinished();
    log("pool_tasks", n); log("pool_rounds");
  }
}
// Several threads hand tasks over and wait, at the same time.
static void many_owners(Rng &r, Log &log) {
  int nt = (int)r(1, 5), no = (int)r(2, 5), rounds = (int)r(1, 8); ThreadPool pool(nt);
  std::atomic<int> bad(0); std::atomic<long> total(0); std::vector<std::thread> ts; std::vector<uint64_t> sd; for (int i = 0; i < no; i++) sd.push_back(r.bits(40));
  for (int o = 0; o < no; o++) ts.emplace_back([&, o]() {
    Rng q(sd[o]);
    for (int k = 0; k < rounds; k++) {
      int n = (int)q(0, 5); Vi ran(n, 0);
      for (int i = 0; i < n; i++) { uint64_t z = q.bits(18); pool.SubmitTask([&ran, i, z]() { nap(z); ran[i]++; }); }
      nap(q.bits(14));
      pool.WaitAllTasksFinished();
      for (int x : ran) { if (x != 1) bad++; total++; }
    }
  });
  for (auto &t : ts) t.join();
  if (bad) fail("with " + std::to_string(no) + " threads handing over tasks, " + std::to_string(bad.load()) + " tasks had not run exactly once when their owner's wait ended");
  log("pool_tasks", total); log("owners", no);
}
// Only waiting, by several threads, for the same tasks.
static void waiters(Rng &r, Log &log) {
  int nt = (int)r(1, 4), nw = (int)r(2, 6), n = (int)r(1, 12); ThreadPool pool(nt); Vi ran(n, 0); std::atomic<int> early(0), go(0);
  std::atomic<bool> open(false); std::vector<uint64_t> z; for (int i = 0; i < n; i++) z.push_back(r.bits(18));
  for (int i = 0; i < n; i++) pool.SubmitTask([&, i]() { while (!open.load()) std::this_thread::yield(); nap(z[i]); ran[i]++; });
  std::vector<std::thread> ts;
  for (int w = 0; w < nw; w++) ts.emplace_back([&]() { go++; pool.WaitAllTasksFinished(); for (int x : ran) if (x != 1) early++; });
  if (r.p(0.5)) while (go.load() < nw) std::this_thread::yield();
  nap(r.bits(12)); open = true;
  for (auto &t : ts) t.join();     // a waiter that is never woken: the run hangs
  if (early) fail("a waiter was let go before the tasks were done");
  log("waiters", nw);
}
// Tasks that hand over tasks; the destructor finishes what is left.
static void nested(Rng &r, Log &log) {
  int nt = (int)r(1, 4), n = (int)r(1, 8), m = (int)r(0, 5); std::atomic<int> done(0); std::vector<uint64_t> z; for (int i = 0; i < n * (m + 1); i++) z.push_back(r.bits(18));
  bool wait = r.p(0.5);
  {
    ThreadPool pool(nt); ThreadPool *p = &pool;
    for (int i = 0; i < n; i++) pool.SubmitTask([=, &done, &z]() {
      nap(z[i * (m + 1)]);
      for (int j = 0; j < m; j++) p->SubmitTask([=, &done, &z]() { nap(z[i * (m + 1) + 1 + j]); done++; });
      done++;
    });
    if (wait) { pool.WaitAllTasksFinished(); if (done != n * (m + 1)) fail("the wait ended before the tasks handed over by tasks: " + std::to_string(done.load()) + " of " + std::to_string(n * (m + 1))); }
  }
  if (done != n * (m + 1)) fail("the destroyed pool had run " + std::to_string(done.load()) + " of " + std::to_string(n * (m + 1)) + " tasks");
  log("nested_tasks", n * (m + 1));
}
static void semaphores(Rng &r, Log &log) {
  {
    k2std::counting_semaphore s((int)r(0, 3) * 0);
    int np = (int)r(1, 4), nc = (int)r(1, 4), each = (int)r(1, 30) * nc, per = each * np / nc; std::atomic<long> got(0); std::vector<std::thread> ts;
    std::vector<uint64_t> z; for (int i = 0; i < np + nc; i++) z.push_back(r.bits(40));
    for (int i = 0; i < nc; i++) ts.emplace_back([&, i]() { Rng q(z[i]); for (int k = 0; k < per; k++) { s.acquire(); got++; if (q.p(0.05)) nap(q.bits(12)); } });
    for (int i = 0; i < np; i++) ts.emplace_back([&, i]() { Rng q(z[nc + i]); for (int k = 0; k < each; k++) { if (q.p(0.05)) nap(q.bits(12)); s.release(); } });
    for (auto &t : ts) t.join();
    same1<long>("permits taken", got, (long)each * np);
    log("permits", got);
  }
  {  // a permit is needed for every pass: never more passes than permits
    int start = (int)r(0, 4); k2std::counting_semaphore s(start); std::atomic<int> passed(0), released(start); int n = (int)r(1, 20); std::atomic<int> bad(0);
    std::thread t([&]() { for (int i = 0; i < n + start; i++) { s.acquire(); if (++passed > released.load()) bad++; } });
    for (int i = 0; i < n; i++) { released++; s.release(); if (r.p(0.2)) nap(r.bits(12)); }
    t.join(); if (bad) fail("acquire passed without a permit");
  }
  {  // the pair used for handing frames over: plain memory, ordered by the semaphores
    Semaphore ready; k2std::counting_semaphore room((int)r(1, 3)); ContextPtr c = GetCpuContext(); int n = (int)r(1, 40); std::vector<int> box(n, -1); long sum = 0; uint64_t z = r.bits(40);
    
    std::thread t([&]() { Rng q(z); ContextPtr c2 = GetCpuContext(); for (int i = 0; i < n; i++) { ready.Wait(c2); if (box[i] != i) sum = -1000000; else sum += i; if (q.p(0.2)) nap(q.bits(12)); room.release(); } });
    for (int i = 0; i < n; i++) { room.acquire(); box[i] = i; if (r.p(0.2)) nap(r.bits(12)); ready.Signal(c); }
    t.join(); same1<long>("sum of what was handed over", sum, (long)n * (n - 1) / 2); log("handed_over", n);
  }
  {  // the one pool of the process
    int n = (int)r(2, 6); std::vector<ThreadPool *> p(n); std::vector<std::thread> ts;
    for (int i = 0; i < n; i++) ts.emplace_back([&, i]() { p[i] = GetThreadPool(); });
    for (auto &t : ts) t.join();
    for (auto *x : p) if (x != p[0] || !x) fail("GetThreadPool gives different pools");
  }
}
static void run(Rng &r, Log &log, const std::string &only) {
  for (int rep = 0; rep < 2; rep++) {
    if (only.empty() || only == "one_owner") one_owner(r, log);
    if (only.empty() || only == "many_owners") many_owners(r, log);
    if (only.empty() || only == "waiters") waiters(r, log);
    if (only.empty() || only == "nested") nested(r, log);
    if (only.empty() || only == "semaphores") semaphores(r, log);
  }
}
ND_ENTRY(run)
