// Driver of the k2host library (k2/csrc/host). FSAs come as the [num_arcs, 4]
// int tensor of k2 with a state count and an offset: the arcs of the FSA then
// begin `off` places into its storage, as Array2 allows. Everything the library
// writes to lies between guard elements that must keep their values.
#include <cstring>

#include "k2/csrc/host/arcsort.h"
#include "k2/csrc/host/aux_labels.h"
#include "k2/csrc/host/connect.h"
#include "k2/csrc/host/determinize.h"
#include "k2/csrc/host/fsa.h"
#include "k2/csrc/host/fsa_equivalent.h"
#include "k2/csrc/host/fsa_renderer.h"
#include "k2/csrc/host/fsa_util.h"
#include "k2/csrc/host/intersect.h"
#include "k2/csrc/host/properties.h"
#include "k2/csrc/host/rmepsilon.h"
#include "k2/csrc/host/topsort.h"
#include "k2/csrc/host/weights.h"
#include "na.h"

namespace {
using torch::Tensor;
using Tensors = std::vector<Tensor>;
using namespace k2host;  // NOLINT
using Size2 = k2host::Array2Size<int32_t>;
template <class P>
using A2 = k2host::Array2<P, int32_t>;

Tensor IntT(const int32_t *p, int64_t n) {
  auto t = torch::empty({n}, torch::kInt);
  if (n) std::memcpy(t.data_ptr<int32_t>(), p, n * 4);
  return t;
}
template <class T>
std::vector<T> Vec(Tensor t) {
  t = t.contiguous();
  return std::vector<T>(t.data_ptr<T>(), t.data_ptr<T>() + t.numel());
}
Tensor ArcT(const Arc *p, int64_t n) {
  auto t = torch::empty({n, 4}, torch::kInt);
  if (n) std::memcpy(t.data_ptr<int32_t>(), p, n * 16);
  return t;
}
std::vector<Arc> Arcs(Tensor t) {
  t = t.contiguous();
  std::vector<Arc> v(t.size(0));
  if (!v.empty()) std::memcpy(static_cast<void *>(v.data()), t.data_ptr<int32_t>(), v.size() * 16);
  return v;
}

// Memory between guards.
template <class T>
struct Guarded {
  static constexpr int kG = 4;
  size_t n;
  std::vector<T> v;
  explicit Guarded(size_t n) : n(n), v(n + 2 * kG) { std::memset(static_cast<void *>(v.data()), 0x5c, v.size() * sizeof(T)); }
  T *data() { return v.data() + kG; }
  void Check(const char *what) {
    auto ok = [](const T *b) {
      auto *p = reinterpret_cast<const unsigned char *>(b);
      for (size_t i = 0; i < kG * sizeof(T); ++i)
        if (p[i] != 0x5c) return false;
      return true;
    };
    if (!ok(v.data()) || !ok(data() + n)) throw std::runtime_error(std::string("k2v-guard: written outside ") + what);
  }
};

struct In {
  std::vector<Arc> data;
  std::vector<int32_t> idx;
  Fsa fsa;
  In(Tensor arcs, int64_t ns, int64_t off) {
    data.assign(off, Arc(0, 0, 0, 3.5f));
    auto a = Arcs(arcs);
    data.insert(data.end(), a.begin(), a.end());
    data.emplace_back(0, 0, 0, 7.0f);
    idx.assign(ns + 1, off);
    for (auto &x : a) ++idx.at(x.src_state + 1);
    for (int64_t i = 0; i < ns; ++i) idx[i + 1] += idx[i] - off;
    if (ns == 0) idx[0] = 0;
    fsa.Init(ns, a.size(), idx.data(), data.data());
  }
};
In Make(const Tensors &t) { return In(t[0], t[1].size(0), t[2].size(0)); }

struct Out {
  Guarded<int32_t> idx;
  Guarded<Arc> arcs;
  Fsa fsa;
  explicit Out(const Size2 &s) : idx(s.size1 + 1), arcs(s.size2) {
    idx.data()[0] = 0;
    fsa.Init(s.size1, s.size2, idx.data(), arcs.data());
  }
  void Give(Tensors *r) {
    idx.Check("the state indexes");
    arcs.Check("the arcs");
    r->push_back(ArcT(fsa.data, fsa.size2));
    r->push_back(IntT(fsa.indexes, fsa.size1 + 1));
  }
};
struct Map {
  Guarded<int32_t> v;
  explicit Map(size_t n) : v(n) {}
  void Give(Tensors *r) {
    v.Check("an arc map");
    r->push_back(IntT(v.data(), v.n));
  }
};
template <class T>
struct OutA2 {
  Guarded<int32_t> idx;
  Guarded<T> vals;
  A2<T *> a;
  explicit OutA2(const Size2 &s) : idx(s.size1 + 1), vals(s.size2) {
    idx.data()[0] = 0;
    a.Init(s.size1, s.size2, idx.data(), vals.data());
  }
  void Check() {
    idx.Check("the indexes of a list of lists");
    vals.Check("the values of a list of lists");
  }
};
void GiveA2(OutA2<int32_t> *o, Tensors *r) {
  o->Check();
  r->push_back(IntT(o->a.indexes, o->a.size1 + 1));
  r->push_back(IntT(o->a.data, o->a.size2));
}
void GiveA2(OutA2<std::pair<int32_t, float>> *o, Tensors *r) {
  o->Check();
  r->push_back(IntT(o->a.indexes, o->a.size1 + 1));
  std::vector<int32_t> k;
  auto w = torch::empty({o->a.size2}, torch::kFloat);
  for (int32_t i = 0; i < o->a.size2; ++i) {
    k.push_back(o->a.data[i].first);
    w.data_ptr<float>()[i] = o->a.data[i].second;
  }
  r->push_back(IntT(k.data(), k.size()));
  r->push_back(w);
}
// labels of each arc: indexes, values (may begin later in its storage)
struct InA2 {
  std::vector<int32_t> idx, vals;
  A2<int32_t *> a;
  InA2(Tensor i, Tensor v, int64_t off) : idx(Vec<int32_t>(i)) {
    vals.assign(off, -77);
    auto x = Vec<int32_t>(v);
    vals.insert(vals.end(), x.begin(), x.end());
    for (auto &k : idx) k += off;
    vals.push_back(-78);
    a.Init(idx.size() - 1, x.size(), idx.data(), vals.data());
  }
};

using Ans = std::tuple<bool, Tensors>;

Ans HConnect(Tensors t) {
  In a = Make(t);
  Connection c(a.fsa);
  Size2 s;
  c.GetSizes(&s);
  Out o(s);
  Map m(s.size2);
  bool ok = c.GetOutput(&o.fsa, m.v.data());
  Tensors r;
  o.Give(&r);
  m.Give(&r);
  return {ok, r};
}
Ans HTopSort(Tensors t) {
  In a = Make(t);
  TopSorter c(a.fsa);
  Size2 s;
  c.GetSizes(&s);
  Out o(s);
  Map m(s.size2);
  bool ok = c.GetOutput(&o.fsa, m.v.data());
  Tensors r;
  o.Give(&r);
  m.Give(&r);
  return {ok, r};
}
Tensors HArcSort(Tensors t, bool in_place) {
  In a = Make(t);
  Tensors r;
  if (in_place) {
    Map m(a.fsa.size2);
    ArcSort(&a.fsa, m.v.data());
    r.push_back(ArcT(a.fsa.data + a.fsa.indexes[0], a.fsa.size2));
    std::vector<int32_t> i(a.idx);
    for (auto &x : i) x -= a.idx[0];
    r.push_back(IntT(i.data(), i.size()));
    m.Give(&r);
    return r;
  }
  ArcSorter c(a.fsa);
  Size2 s;
  c.GetSizes(&s);
  Out o(s);
  Map m(s.size2);
  c.GetOutput(&o.fsa, m.v.data());
  o.Give(&r);
  m.Give(&r);
  return r;
}
Ans HIntersect(Tensors x, Tensors y, bool eps, bool check) {
  In a = Make(x), b = Make(y);
  // (true, true) are the defaults
  Intersection c = eps && check ? Intersection(a.fsa, b.fsa) : Intersection(a.fsa, b.fsa, eps, check);
  Size2 s;
  c.GetSizes(&s);
  Out o(s);
  Map ma(s.size2), mb(s.size2);
  bool ok = c.GetOutput(&o.fsa, ma.v.data(), mb.v.data());
  Tensors r;
  o.Give(&r);
  ma.Give(&r);
  mb.Give(&r);
  return {ok, r};
}
std::tuple<std::vector<int64_t>, Tensor> HProps(Tensors t) {
  In a = Make(t);
  const Fsa &f = a.fsa;
  std::vector<int32_t> order;
  bool acyc = IsAcyclic(f, &order);
  std::vector<int64_t> r{IsValid(f), IsTopSorted(f), IsArcSorted(f), HasSelfLoops(f), acyc, IsTopSortedAndAcyclic(f),
                         IsDeterministic(f), IsEpsilonFree(f), IsConnected(f), IsUnweighted(f), IsEmpty(f),
                         IsAcyclicAndConnected(f), IsTopSortedAndConnected(f)};
  return {r, IntT(order.data(), order.size())};
}
Tensor Dbl(Guarded<double> *g) {
  g->Check("the weights of the states");
  auto t = torch::empty({static_cast<int64_t>(g->n)}, torch::kDouble);
  if (g->n) std::memcpy(t.data_ptr<double>(), g->data(), g->n * 8);
  return t;
}
Tensors HWeights(Tensors t, bool logsum) {
  In a = Make(t);
  int32_t n = a.fsa.NumStates();
  Guarded<double> f(n), b(n), f2(n), b2(n);
  std::vector<int32_t> best;
  if (n && logsum) {
    ComputeForwardLogSumWeights(a.fsa, f.data());
    ComputeBackwardLogSumWeights(a.fsa, b.data());
  } else if (n) {
    ComputeForwardMaxWeights(a.fsa, f.data(), &best);
    ComputeBackwardMaxWeights(a.fsa, b.data());
  }
  WfsaWithFbWeights w(a.fsa, logsum ? kLogSumWeight : kMaxWeight, f2.data(), b2.data());
  if (w.ForwardStateWeights() != f2.data() || w.BackwardStateWeights() != b2.data()) throw std::runtime_error("k2v: WfsaWithFbWeights");
  double d = logsum ? ShortestDistance<kLogSumWeight>(a.fsa) : ShortestDistance<kMaxWeight>(a.fsa);
  return {Dbl(&f), Dbl(&b), Dbl(&f2), Dbl(&b2), IntT(best.data(), best.size()), torch::full({1}, d, torch::kDouble)};
}
Tensors HAux1(Tensor idx, Tensor vals, int64_t off, Tensor map, int64_t begin) {
  InA2 in(idx, vals, off);
  std::vector<int32_t> m(begin, 0), mm = Vec<int32_t>(map);
  m.insert(m.end(), mm.begin(), mm.end());
  k2host::Array1<int32_t *> am(begin, begin + mm.size(), m.data());
  if (am.Empty() != mm.empty()) throw std::runtime_error("k2v: Array1::Empty");
  AuxLabels1Mapper c(in.a, am);
  Size2 s;
  c.GetSizes(&s);
  OutA2<int32_t> o(s);
  c.GetOutput(&o.a);
  Tensors r;
  GiveA2(&o, &r);
  return r;
}
Tensors HAux2(Tensor idx, Tensor vals, int64_t off, Tensor midx, Tensor map, int64_t moff) {
  InA2 in(idx, vals, off), m(midx, map, moff);
  AuxLabels2Mapper c(in.a, m.a);
  Size2 s;
  c.GetSizes(&s);
  OutA2<int32_t> o(s);
  c.GetOutput(&o.a);
  Tensors r;
  GiveA2(&o, &r);
  return r;
}
Tensors HInvert(Tensors t, Tensor idx, Tensor vals, int64_t off) {
  In a = Make(t);
  InA2 in(idx, vals, off);
  FstInverter c(a.fsa, in.a);
  Size2 s, l;
  c.GetSizes(&s, &l);
  Out o(s);
  OutA2<int32_t> lo(l);
  c.GetOutput(&o.fsa, &lo.a);
  Tensors r;
  o.Give(&r);
  GiveA2(&lo, &r);
  return r;
}
Tensors HEntering(Tensors t) {
  In a = Make(t);
  OutA2<int32_t> o(Size2{a.fsa.size1, a.fsa.size2});
  GetEnteringArcs(a.fsa, &o.a);
  Tensors r;
  GiveA2(&o, &r);
  return r;
}
// which: 0 ReorderArcs, 1 CreateFsa, 2 CreateTopSortedFsa
Tensors HCreate(Tensor arcs, int64_t ns, int64_t which) {
  auto a = Arcs(arcs);
  Out o(Size2{static_cast<int32_t>(ns), static_cast<int32_t>(a.size())});
  std::vector<int32_t> m;
  if (which == 0)
    ReorderArcs(a, &o.fsa, &m);
  else if (which == 1)
    CreateFsa(a, &o.fsa, &m);
  else
    CreateTopSortedFsa(a, &o.fsa, &m);
  Tensors r;
  o.Give(&r);
  r.push_back(IntT(m.data(), m.size()));
  return r;
}
Tensors HMaps(Tensor idx, Tensor vals, int64_t off, Tensor w) {
  InA2 m(idx, vals, off);
  auto x = Vec<float>(w);
  Guarded<float> o1(m.a.size1), o2(m.a.size2);
  Guarded<int64_t> l1(m.a.size2), l2(m.a.size2), l3(m.a.size2);
  x.push_back(0);
  GetArcWeights(x.data(), m.a, o1.data());
  GetArcWeights(x.data(), m.vals.data() + off, m.a.size2, o2.data());
  GetArcIndexes2(m.a, l1.data(), l2.data());
  ConvertIndexes1(m.vals.data() + off, m.a.size2, l3.data());
  o1.Check("GetArcWeights");
  o2.Check("GetArcWeights");
  l1.Check("GetArcIndexes2");
  l2.Check("GetArcIndexes2");
  l3.Check("ConvertIndexes1");
  auto ft = [](Guarded<float> &g) {
    auto t = torch::empty({static_cast<int64_t>(g.n)}, torch::kFloat);
    if (g.n) std::memcpy(t.data_ptr<float>(), g.data(), g.n * 4);
    return t;
  };
  auto lt = [](Guarded<int64_t> &g) {
    auto t = torch::empty({static_cast<int64_t>(g.n)}, torch::kLong);
    if (g.n) std::memcpy(t.data_ptr<int64_t>(), g.data(), g.n * 8);
    return t;
  };
  return {ft(o1), ft(o2), lt(l1), lt(l2), lt(l3)};
}
Tensors HFromString(std::string s) {
  StringToFsa c(s);
  Size2 z;
  c.GetSizes(&z);
  Out o(z);
  c.GetOutput(&o.fsa);
  Tensors r;
  o.Give(&r);
  return r;
}
std::vector<std::string> HText(Tensors t) {
  In a = Make(t);
  std::string s = FsaToString(a.fsa), d = FsaRenderer(a.fsa).Render();
  return {s, d};
}
Tensors HRandFsa(int64_t syms, int64_t states, int64_t arcs, bool allow_empty, bool acyclic, int64_t seed, bool weights) {
  RandFsaOptions o;
  o.num_syms = syms;
  o.num_states = states;
  o.num_arcs = arcs;
  o.allow_empty = allow_empty;
  o.acyclic = acyclic;
  o.seed = seed;
  o.nonzero_weights = weights;
  RandFsaGenerator g(o);
  Size2 s;
  g.GetSizes(&s);
  Out f(s);
  g.GetOutput(&f.fsa);
  Tensors r;
  f.Give(&r);
  return r;
}
Ans HRandPath(Tensors t, bool no_eps, int64_t tries) {
  In a = Make(t);
  RandPath c(a.fsa, no_eps, tries);
  Size2 s;
  c.GetSizes(&s);
  Out o(s);
  Map m(s.size2);
  bool ok = c.GetOutput(&o.fsa, m.v.data());
  Tensors r;
  o.Give(&r);
  m.Give(&r);
  return {ok, r};
}
// kind: 0 unweighted, 1 max, 2 log-sum
bool HEquiv(Tensors x, Tensors y, int64_t kind, double beam, bool eps, double delta, int64_t npath) {
  In a = Make(x), b = Make(y);
  if (kind == 0) return IsRandEquivalent(a.fsa, b.fsa, eps, npath);
  if (kind == 1) return IsRandEquivalent<kMaxWeight>(a.fsa, b.fsa, beam, eps, delta, true, npath);
  return IsRandEquivalent<kLogSumWeight>(a.fsa, b.fsa, beam, eps, delta, true, npath);
}

FbWeightType Push(int64_t p) { return p == 0 ? kMaxWeight : p == 1 ? kLogSumWeight : kNoWeight; }

template <class TS>
Tensors Det(Tensors t, int64_t max_step, int64_t push) {
  In a = Make(t);
  Determinizer<TS> c(a.fsa, max_step, Push(push));
  Size2 s, d;
  c.GetSizes(&s, &d);
  Out o(s);
  OutA2<typename TS::DerivType> od(d);
  c.GetOutput(&o.fsa, &od.a);
  Tensors r;
  o.Give(&r);
  GiveA2(&od, &r);
  return r;
}
template <class TS>
Tensors DetPruned(Tensors t, FbWeightType w, double beam, int64_t max_step, int64_t push) {
  In a = Make(t);
  std::vector<double> f(a.fsa.NumStates() + 1), b(a.fsa.NumStates() + 1);
  WfsaWithFbWeights ws(a.fsa, w, f.data(), b.data());
  DeterminizerPruned<TS> c(ws, beam, max_step, Push(push));
  Size2 s, d;
  c.GetSizes(&s, &d);
  Out o(s);
  OutA2<typename TS::DerivType> od(d);
  double eff = c.GetOutput(&o.fsa, &od.a);
  Tensors r;
  o.Give(&r);
  GiveA2(&od, &r);
  r.push_back(torch::full({1}, eff, torch::kDouble));
  return r;
}
template <class TS>
Tensors RmEps(Tensors t, FbWeightType w, double beam) {
  In a = Make(t);
  std::vector<double> f(a.fsa.NumStates() + 1), b(a.fsa.NumStates() + 1);
  WfsaWithFbWeights ws(a.fsa, w, f.data(), b.data());
  EpsilonsRemoverPruned<TS> c(ws, beam);
  Size2 s, d;
  c.GetSizes(&s, &d);
  Out o(s);
  OutA2<typename TS::DerivType> od(d);
  c.GetOutput(&o.fsa, &od.a);
  Tensors r;
  o.Give(&r);
  GiveA2(&od, &r);
  return r;
}
Tensors HDet(Tensors t, bool logsum, int64_t max_step, int64_t push) {
  return logsum ? Det<LogSumTracebackState>(t, max_step, push) : Det<MaxTracebackState>(t, max_step, push);
}
Tensors HDetPruned(Tensors t, bool logsum, double beam, int64_t max_step, int64_t push) {
  return logsum ? DetPruned<LogSumTracebackState>(t, kLogSumWeight, beam, max_step, push)
                : DetPruned<MaxTracebackState>(t, kMaxWeight, beam, max_step, push);
}
Tensors HRmEps(Tensors t, bool logsum, bool max_prune, double beam) {
  return logsum ? RmEps<LogSumTracebackState>(t, max_prune ? kMaxWeight : kLogSumWeight, beam)
                : RmEps<MaxTracebackState>(t, kMaxWeight, beam);
}

// Array3 made of Array2s, read back one by one, with a plain and a strided pointer.
template <class Ptr>
std::vector<Tensors> A3(const std::vector<Tensors> &in, int32_t stride) {
  std::vector<std::unique_ptr<k2host::Array2Storage<Ptr, int32_t>>> st;
  std::vector<k2host::Array2<Ptr, int32_t>> as;
  for (auto &x : in) {
    auto idx = Vec<int32_t>(x[0]), v = Vec<int32_t>(x[1]);
    Size2 z{static_cast<int32_t>(idx.size()) - 1, static_cast<int32_t>(v.size())};
    st.emplace_back(new k2host::Array2Storage<Ptr, int32_t>(z, stride));
    st.back()->FillIndexes(idx);
    st.back()->FillData(v);
    as.push_back(st.back()->GetArray2());
    if (x.size() > 2) {  // rows lo..hi of it
      int32_t lo = x[2].size(0), hi = x[2].size(1);
      as.back().indexes = as.back().indexes + lo;
      as.back().size1 = hi - lo;
      as.back().size2 = idx[hi] - idx[lo];
      z.size1 = hi - lo;
    }
    if (as.back().Empty() != (z.size1 == 0)) throw std::runtime_error("k2v: Array2::Empty");
  }
  if (as.size() >= 2) {  // a swap and a swap back
    as[0].Swap(as[1]);
    if (in[1].size() == 2 && as[0].size2 != static_cast<int32_t>(in[1][1].numel())) throw std::runtime_error("k2v: Array2::Swap");
    std::swap(as[0], as[1]);
  }
  k2host::Array3<Ptr, int32_t> a;
  a.GetSizes(as.data(), as.size());
  Guarded<int32_t> i1(a.size1 + 1), i2(a.size2 + 1), d(a.size3 * stride);
  a.indexes1 = i1.data();
  a.indexes2 = i2.data();
  std::unique_ptr<int32_t[]> own;
  if constexpr (std::is_same<Ptr, int32_t *>::value)
    a.data = d.data();
  else
    a.data = Ptr(d.data(), stride);
  a.Create(as.data(), as.size());
  i1.Check("Array3::indexes1");
  i2.Check("Array3::indexes2");
  d.Check("Array3::data");
  std::vector<Tensors> r;
  for (int32_t i = 0; i < a.size1; ++i) {
    auto x = a[i];
    std::vector<int32_t> idx, v;
    for (int32_t j = 0; j <= x.size1; ++j) idx.push_back(x.indexes[j] - x.indexes[0]);
    int32_t k = x.indexes[0];
    for (auto it = x.begin(); it != x.end(); ++it, ++k) {
      if (*it != x.data[k]) throw std::runtime_error("k2v: Array2 iterator");
      v.push_back(*it);
    }
    if (static_cast<int32_t>(v.size()) != x.size2) throw std::runtime_error("k2v: Array3 size");
    r.push_back({IntT(idx.data(), idx.size()), IntT(v.data(), v.size())});
  }
  return r;
}
std::vector<Tensors> HArray3(std::vector<Tensors> in, int64_t stride) {
  if (stride == 1) return A3<int32_t *>(in, 1);
  return A3<k2host::StridedPtr<int32_t, int32_t>>(in, stride);
}
// (equal, unequal, less, hashes equal) of two arcs
std::vector<int64_t> HArcCmp(Tensor t) {
  auto a = Arcs(t);
  return {a[0] == a[1], a[0] != a[1], a[0] < a[1], ArcHash()(a[0]) == ArcHash()(a[1])};
}
double HLogAdd(double x, double y, bool dbl) {
  return dbl ? k2host::LogAdd(x, y) : k2host::LogAdd(static_cast<float>(x), static_cast<float>(y));
}
}  // namespace

TORCH_LIBRARY_FRAGMENT(k2v, m) {
  m.def("h_connect", &HConnect);
  m.def("h_topsort", &HTopSort);
  m.def("h_arcsort", &HArcSort);
  m.def("h_intersect", &HIntersect);
  m.def("h_props", &HProps);
  m.def("h_weights", &HWeights);
  m.def("h_aux1", &HAux1);
  m.def("h_aux2", &HAux2);
  m.def("h_invert", &HInvert);
  m.def("h_entering", &HEntering);
  m.def("h_create", &HCreate);
  m.def("h_maps", &HMaps);
  m.def("h_from_string", &HFromString);
  m.def("h_text", &HText);
  m.def("h_rand_fsa", &HRandFsa);
  m.def("h_rand_path", &HRandPath);
  m.def("h_equiv", &HEquiv);
  m.def("h_det", &HDet);
  m.def("h_det_pruned", &HDetPruned);
  m.def("h_rmeps", &HRmEps);
  m.def("h_array3", &HArray3);
  m.def("h_arc_cmp", &HArcCmp);
  m.def("h_log_add", &HLogAdd);
}
