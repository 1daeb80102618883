// The algorithms called from several threads at once: every thread must get
// what a lone thread gets. The threads' arguments are separate objects that
// share their memory (as copies of k2 objects do).
#include "nd.h"
#include <atomic>
#include <chrono>
#include <memory>
#include <thread>
#include "k2/csrc/array_ops.h"
#include "k2/csrc/fsa.h"
#include "k2/csrc/fsa_algo.h"
#include "k2/csrc/fsa_utils.h"
#include "k2/csrc/intersect_dense_pruned.h"
#include "k2/csrc/ragged_ops.h"
#include "k2/csrc/thread_pool.h"

using namespace k2;
using nd::Log; using nd::Rng; using nd::fail;
typedef std::vector<int32_t> Vi;
static ContextPtr C() { return GetCpuContext(); }

struct D {  // a digest: order and bits count
  uint64_t h = 1469598103934665603ull;
  void raw(const void *p, size_t n) { auto *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } }
  template <class T> void a(const Array1<T> &x) { int32_t d = x.Dim(); raw(&d, 4); if (d) raw(x.Data(), sizeof(T) * d); }
  void s(RaggedShape &x) { int32_t n = x.NumAxes(); raw(&n, 4); for (int i = 1; i < n; i++) a(x.RowSplits(i)); }
  template <class T> void r(Ragged<T> &x) { s(x.shape); a(x.values); }
};
static FsaVec fsas(Rng &r, bool acyclic, int n, int ns, int nsym, bool eps) {
  Vi s1(1, 0), s2(1, 0); std::vector<Arc> arcs;
  for (int f = 0; f < n; f++) {
    int k = (int)r(2, ns); s1.push_back(s1.back() + k);
    for (int s = 0; s < k; s++) {
      std::vector<Arc> v;
      if (s + 1 < k) {
        int m = (int)r(0, 4); if (s == 0 && m == 0) m = 1;
        for (int j = 0; j < m; j++) {
          int d = acyclic ? (int)r(s + 1, std::min(k - 1, s + 3)) : (int)r(0, k - 1);
          v.push_back(Arc(s, d, d == k - 1 ? -1 : (int)r(eps ? 0 : 1, nsym), (float)r(-20, 20) / 8));
        }
        if (r.p(0.15)) v.push_back(Arc(s, k - 1, -1, (float)r(-20, 20) / 8));
        std::stable_sort(v.begin(), v.end(), [](const Arc &a, const Arc &b) { return (uint32_t)a.label < (uint32_t)b.label; });
      }
      arcs.insert(arcs.end(), v.begin(), v.end()); s2.push_back((int)arcs.size());
    }
  }
  Array1<int32_t> a1(C(), s1), a2(C(), s2);
  RaggedShape sh = RaggedShape3(&a1, nullptr, s1.back(), &a2, nullptr, s2.back());
  return FsaVec(sh, Array1<Arc>(C(), arcs));
}
static DenseFsaVec dense(Rng &r, int n, int maxt, int ncol) {
  Vi len; for (int i = 0; i < n; i++) len.push_back((int)r(1, maxt) + 1); std::sort(len.rbegin(), len.rend());
  Vi s(1, 0); for (int x : len) s.push_back(s.back() + x);
  Array2<float> sc(C(), s.back(), ncol); float *d = sc.Data();
  for (int i = 0; i < n; i++) for (int t = s[i]; t < s[i + 1]; t++) for (int c = 0; c < ncol; c++)
    d[(size_t)t * ncol + c] = t + 1 == s[i + 1] ? (c == 0 ? 0.f : -INFINITY) : (c == 0 ? -INFINITY : (float)r(-64, 0) / 8);
  Array1<int32_t> a(C(), s);
  return DenseFsaVec(RaggedShape2(&a, nullptr, s.back()), sc);
}
static FsaVec graph(Rng &r, int nsym) {  // a connected decoding graph with loops
  int k = (int)r(2, 6); std::vector<Arc> arcs; Vi s2(1, 0);
  for (int s = 0; s + 1 < k; s++) {
    std::vector<Arc> v; v.push_back(Arc(s, s, (int)r(1, nsym), (float)r(-8, 0) / 8));
    for (int j = 0; j < 3; j++) v.push_back(Arc(s, (int)r(0, k - 2), (int)r(1, nsym), (float)r(-8, 0) / 8));
    v.push_back(Arc(s, std::min(s + 1, k - 2), (int)r(1, nsym), 0.f));
    if (s + 2 >= k || r.p(0.3)) v.push_back(Arc(s, k - 1, -1, (float)r(-8, 0) / 8));
    std::stable_sort(v.begin(), v.end(), [](const Arc &a, const Arc &b) { return (uint32_t)a.label < (uint32_t)b.label; });
    arcs.insert(arcs.end(), v.begin(), v.end()); s2.push_back((int)arcs.size());
  }
  s2.push_back((int)arcs.size());
  Vi s1 = {0, k}; Array1<int32_t> a1(C(), s1), a2(C(), s2);
  return FsaVec(RaggedShape3(&a1, nullptr, k, &a2, nullptr, s2.back()), Array1<Arc>(C(), arcs));
}
struct Job {
  int op; FsaVec f, g; DenseFsaVec d; float search, output; int mins, maxs; bool partial; Ragged<int32_t> sym; int chunks = 1;
};
static const char *names[] = {"connect", "connect_cyclic", "intersect_pruned", "intersect_dense", "intersect", "intersect_device", "scores", "shortest_path", "determinize", "remove_epsilon", "graphs", "sort", "reverse_union_closure", "online", "ragged"};
static const int NOP = 15;
static Job make(Rng &r, int op, bool big) {
  Job j; j.op = op; int nsym = (int)r(2, 8);
  int n = (int)r(1, big ? 8 : 4), ns = (int)r(3, big ? 60 : 14);
  switch (op) {
    case 1: j.f = fsas(r, false, n, ns, nsym, true); break;
    case 2: case 3: case 13: {
      int nb = (int)r(1, 4); j.d = dense(r, nb, op == 2 && big ? 70 : 24, nsym + 1 + 1); FsaVec g = graph(r, nsym);
      if (op == 3) { std::vector<FsaVec> v; for (int i = 0; i < nb; i++) v.push_back(graph(r, nsym)); std::vector<FsaVec *> p; for (auto &x : v) p.push_back(&x); g = Cat(0, nb, p.data()); }
      j.f = g; j.search = (float)r(4, 30); j.output = (float)r(2, 12); j.mins = (int)r(1, 8); j.maxs = (int)r(10, 200); j.partial = r.p(0.5);
      break; }
    case 4: case 5: j.f = fsas(r, true, n, 10, 3, false); j.g = fsas(r, true, n, 10, 3, false); break;
    case 8: case 9: j.f = fsas(r, true, 1, 9, 3, op == 9); break;
    case 10: case 14: { Vi s(1, 0), v; int m = (int)r(1, 12); for (int i = 0; i < m; i++) { int k = (int)r(0, 9); for (int q = 0; q < k; q++) v.push_back((int)r(1, 6)); s.push_back((int)v.size()); }
      Array1<int32_t> a(C(), s); j.sym = Ragged<int32_t>(RaggedShape2(&a, nullptr, s.back()), Array1<int32_t>(C(), v)); break; }
    default: j.f = fsas(r, true, n, ns, nsym, true);
  }
  return j;
}
static uint64_t exec(Job j) {  // the copy has its own cached row ids, and the same memory
  D d; FsaVec o; Array1<int32_t> m1, m2; FsaVec &f = j.f; const int32_t P = kFsaPropertiesValid | kFsaPropertiesArcSorted | kFsaPropertiesTopSortedAndAcyclic | kFsaPropertiesEpsilonFree;
  switch (j.op) {
    case 0: case 1: Connect(f, &o, &m1); d.r(o); d.a(m1); break;
    case 2: IntersectDensePruned(f, j.d, j.search, j.output, j.mins, j.maxs, j.partial, &o, &m1, &m2); d.r(o); d.a(m1); d.a(m2); break;
    case 3: IntersectDense(f, j.d, nullptr, j.output, 100000, 1000000, &o, &m1, &m2); d.r(o); d.a(m1); d.a(m2); break;
    case 4: Intersect(f, P, j.g, P, false, &o, &m1, &m2); d.r(o); d.a(m1); d.a(m2); break;
    case 5: { Vi id; for (int i = 0; i < f.Dim0(); i++) id.push_back(i); o = IntersectDevice(f, P, j.g, P, Array1<int32_t>(C(), id), &m1, &m2, true); d.r(o); d.a(m1); d.a(m2); break; }
    case 6: case 7: {
      Ragged<int32_t> sb = GetStateBatches(f, true); Array1<int32_t> ds = GetDestStates(f, true); Ragged<int32_t> in = GetIncomingArcs(f, ds), eb = GetEnteringArcIndexBatches(f, in, sb), lb = GetLeavingArcIndexBatches(f, sb);
      if (j.op == 6) {
        Array1<float> fw = GetForwardScores<float>(f, sb, eb, true), bw = GetBackwardScores<float>(f, sb, lb, true), post = GetArcPost<float>(f, fw, bw), tot = GetTotScores<float>(f, fw), dv(C(), fw.Dim(), 1.f);
        Array1<float> bp = BackpropGetForwardScores<float>(f, sb, lb, true, nullptr, fw, dv);
        Array1<double> bd = GetBackwardScores<double>(f, sb, lb, false);
        d.a(fw); d.a(bw); d.a(post); d.a(tot); d.a(bp); d.a(bd);
      } else {
        Array1<int32_t> ea; Array1<float> fw = GetForwardScores<float>(f, sb, eb, false, &ea); Ragged<int32_t> sp = ShortestPath(f, ea); d.a(fw); d.a(ea); d.r(sp); FsaVec q = FsaVecFromArcIndexes(f, sp); d.r(q);
      }
      break; }
    case 8: { Ragged<int32_t> x; FsaVec t; Connect(f, &t); Determinize(t, DeterminizeWeightPushingType::kNoWeightPushing, &o, &x); d.r(o); d.r(x); break; }
    case 9: { Ragged<int32_t> x; FsaVec t; TopSort(f, &t, &m1); RemoveEpsilon(t, 0, &o, &x); d.r(o); d.r(x); break; }
    case 10: { Array1<int32_t> al; Array1<float> so; FsaVec a = LinearFsas(j.sym), b = CtcGraphs(j.sym, false, &al), c = LevenshteinGraphs(j.sym, -0.51f, &m1, &so); d.r(a); d.r(b); d.r(c); d.a(al); d.a(m1); d.a(so); break; }
    case 11: { ArcSort(f, &o, &m1); d.r(o); d.a(m1); FsaVec t; TopSort(o, &t, &m2); d.r(t); d.a(m2); AddEpsilonSelfLoops(t, &o, &m1); d.r(o); d.a(m1); Array1<int32_t> pr; int32_t tot; GetFsaVecBasicProperties(t, &pr, &tot); d.a(pr); break; }
    case 12: { Reverse(f, &o, &m1); d.r(o); d.a(m1); Fsa u = Union(f, &m2); d.r(u); d.a(m2); break; }
    case 13: {
      FsaVec g = f; int n = j.d.shape.Dim0(), nc = j.d.scores.Dim1(); OnlineDenseIntersecter oi(g, n, j.search, j.output, j.mins, j.maxs, true);
      std::vector<DecodeStateInfo> keep(n); std::vector<DecodeStateInfo *> st(n); for (int i = 0; i < n; i++) st[i] = &keep[i];
      for (int k = 0; k < 3; k++) { Array2<float> sc = j.d.scores; oi.Decode(j.d, &st, &o, &m1); d.r(o); d.a(m1); (void)nc; }
      break; }
    case 14: { Ragged<int32_t> q(j.sym.shape, j.sym.values.Clone()); m1 = Array1<int32_t>(C(), q.NumElements()); SortSublists(&q, &m1); d.r(q); Array1<int32_t> cnt(C(), q.TotSize(0)); SumPerSublist<int32_t>(q, 0, &cnt); d.a(cnt); Ragged<int32_t> u = UniqueSequences(j.sym, nullptr); d.r(u); ContextPtr c = C(); RaggedShape a = ComposeRaggedShapes(RegularRaggedShape(c, 1, j.sym.Dim0()), j.sym.shape); d.s(a); break; }
  }
  return d.h;
}
static void run(Rng &r, Log &log, const std::string &only) {
  int T = (int)r(2, 5), nj = (int)r(3, 8); bool mix = r.p(0.5), big = r.p(0.3); int op0 = r.p(0.5) ? (r.p(0.5) ? 2 : (int)r(0, 1)) : (int)r(0, NOP - 1);
  std::vector<Job> jobs; std::vector<uint64_t> want;
  for (int i = 0; i < nj; i++) {
    int op = mix ? (r.p(0.4) ? (int)r(0, 2) : (int)r(0, NOP - 1)) : op0;
    if (!only.empty()) { for (int k = 0; k < NOP; k++) if (only == names[k]) op = k; }
    jobs.push_back(make(r, op, big)); log(std::string("op_") + names[op]);
    want.push_back(exec(jobs.back()));
    if (exec(jobs.back()) != want.back()) fail(std::string(names[op]) + ": the same call by one thread gives two results");
  }
  // every thread goes through jobs in its own order; several share each job's memory
  std::vector<std::vector<int>> plan(T); std::vector<std::vector<Job>> own(T);
  for (int t = 0; t < T; t++) { int m = (int)r(2, 6); for (int k = 0; k < m; k++) { int i = (int)r(0, nj - 1); plan[t].push_back(i); own[t].push_back(jobs[i]); } }
  std::atomic<int> ready(0), bad(-1); std::vector<std::thread> ts; std::vector<uint64_t> z; for (int t = 0; t < T; t++) z.push_back(r.bits(8));
  for (int t = 0; t < T; t++) ts.emplace_back([&, t]() {
    ready++; while (ready.load() < T) std::this_thread::yield();
    for (size_t k = 0; k < plan[t].size(); k++) {
      if ((z[t] >> (k % 8)) & 1) std::this_thread::sleep_for(std::chrono::microseconds(z[t]));
      if (exec(own[t][k]) != want[plan[t][k]]) bad = plan[t][k];
    }
  });
  for (auto &t : ts) t.join();
  for (int t = 0; t < T; t++) log("concurrent_calls", (long)plan[t].size());
  log("threads", T);
  if (bad >= 0) fail(std::string(names[jobs[bad].op]) + ": a call made while " + std::to_string(T - 1) + " other threads are at work gives another result than alone");
}
ND_ENTRY(run)
