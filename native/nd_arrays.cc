// Arrays, prefix sums, row splits/ids, bounds and sorting against plain loops.
#include "nd.h"
#include "k2/csrc/array.h"
#include "k2/csrc/array_ops.h"
#include "k2/csrc/math.h"
#include "k2/csrc/tensor_ops.h"

using namespace k2;
using nd::Log; using nd::Rng; using nd::same; using nd::same1;
static ContextPtr C() { return GetCpuContext(); }

// An array holding v, either on its own or as a window of a larger region
// whose other elements are junk.
template <class T> Array1<T> mk(Rng &r, const std::vector<T> &v) {
  int pad0 = r.p(0.4) ? (int)r(1, 5) : 0, pad1 = r.p(0.4) ? (int)r(1, 5) : 0;
  std::vector<T> w(v.size() + pad0 + pad1, (T)77);
  std::copy(v.begin(), v.end(), w.begin() + pad0);
  Array1<T> a(C(), w);
  return (pad0 || pad1) ? a.Range(pad0, (int32_t)v.size()) : a;
}
template <class T> std::vector<T> val(const Array1<T> &a) {
  return std::vector<T>(a.Data(), a.Data() + a.Dim());
}
template <class T> std::vector<T> val(const Array2<T> &a) {
  std::vector<T> v;
  for (int i = 0; i < a.Dim0(); i++)
    for (int j = 0; j < a.Dim1(); j++) v.push_back(a.Data()[(int64_t)i * a.ElemStride0() + j]);
  return v;
}
template <class T> std::vector<T> rnd(Rng &r, int n, int64_t lo, int64_t hi) {
  std::vector<T> v(n);
  for (auto &x : v) x = (T)r(lo, hi);
  return v;
}
template <class T> Array2<T> mk2(Rng &r, int d0, int d1, int64_t lo, int64_t hi, bool contiguous = false) {
  int extra = contiguous ? 0 : (r.p(0.4) ? (int)r(1, 3) : 0);
  Array2<T> big(C(), d0, d1 + extra);
  for (int i = 0; i < d0; i++)
    for (int j = 0; j < d1 + extra; j++) big.Data()[(int64_t)i * big.ElemStride0() + j] = (T)r(lo, hi);
  return extra ? big.ColArange(0, d1) : big;
}
// row splits of n rows
static std::vector<int32_t> splits(Rng &r, int rows, int maxlen) {
  std::vector<int32_t> s(1, 0);
  int mode = (int)r(0, 3);
  for (int i = 0; i < rows; i++) {
    int len = mode == 0 ? (int)r(0, maxlen) : mode == 1 ? (r.p(0.7) ? 0 : (int)r(0, maxlen)) : mode == 2 ? (int)r(0, 2)
                                                                                               : (r.p(0.05) ? 10 * maxlen : 0);
    s.push_back(s.back() + len);
  }
  return s;
}
static std::vector<int32_t> ids_of(const std::vector<int32_t> &s) {
  std::vector<int32_t> v;
  for (size_t i = 0; i + 1 < s.size(); i++) v.insert(v.end(), s[i + 1] - s[i], (int32_t)i);
  return v;
}

template <class T> void prefix_sums(Rng &r, Log &log) {
  int n = r.size();
  auto v = rnd<T>(r, n, std::is_unsigned<T>::value ? 0 : -50, 50);
  std::vector<T> ex(n), in(n); T s = 0;
  for (int i = 0; i < n; i++) { ex[i] = s; s += v[i]; in[i] = s; }
  Array1<T> a = mk(r, v);
  same("ExclusiveSum", val(ExclusiveSum(a)), ex);
  same("InclusiveSum", val(InclusiveSum(a)), in);
  same("sum changed its argument", val(a), v);
  Array1<T> b(C(), v); ExclusiveSum(b, &b); same("ExclusiveSum in place", val(b), ex);
  Array1<T> d(C(), v); InclusiveSum(d, &d); same("InclusiveSum in place", val(d), in);
  {  // one element more than the source
    std::vector<T> w = v; w.push_back((T)99);
    Array1<T> big(C(), w), src = big.Range(0, n), dest(C(), n + 1);
    ExclusiveSum(src, &dest);
    std::vector<T> e1 = ex; e1.push_back(s);
    same("ExclusiveSum with total", val(dest), e1);
    // Deref
    std::vector<const T *> ptr; for (auto &x : w) ptr.push_back(&x);
    Array1<const T *> pa(C(), ptr), ps = pa.Range(0, n);
    Array1<T> pd(C(), n + 1); ExclusiveSumDeref(ps, &pd); same("ExclusiveSumDeref", val(pd), e1);
    Array1<T> pd0(C(), n); ExclusiveSumDeref(ps, &pd0); same("ExclusiveSumDeref same size", val(pd0), ex);
  }
  log("prefix_sums"); log("elements", n);
}
static void mixed_sums(Rng &r, Log &log) {
  int n = r.size();
  auto v = rnd<int8_t>(r, n, 0, 100);
  Array1<int8_t> a(C(), v); Array1<int32_t> d(C(), n);
  ExclusiveSum(a, &d);
  std::vector<int32_t> e; int32_t s = 0; for (auto x : v) { e.push_back(s); s += x; }
  same("ExclusiveSum int8 to int32", val(d), e);
  InclusiveSum(a, &d);
  e.clear(); s = 0; for (auto x : v) { s += x; e.push_back(s); }
  same("InclusiveSum int8 to int32", val(d), e);
  log("mixed_sums");
}
static void sums2(Rng &r, Log &log) {
  int d0 = (int)r(0, 12), d1 = (int)r(0, 12), axis = (int)r(0, 1);
  Array2<int32_t> a = mk2<int32_t>(r, d0, d1, -9, 9);
  auto v = val(a);
  Array2<int32_t> d = mk2<int32_t>(r, d0, d1, -9, 9);
  ExclusiveSum(a, &d, axis);
  std::vector<int32_t> e(v.size());
  for (int i = 0; i < d0; i++) for (int j = 0; j < d1; j++) {
    int32_t s = 0;
    if (axis == 1) for (int k = 0; k < j; k++) s += v[i * d1 + k];
    else for (int k = 0; k < i; k++) s += v[k * d1 + j];
    e[i * d1 + j] = s;
  }
  same("ExclusiveSum of a matrix, axis " + std::to_string(axis), val(d), e);
  same("ExclusiveSum of a matrix changed its argument", val(a), v);
  if (d0 && d1) {
    ContextPtr c = C();
    Array2<int32_t> t = mk2<int32_t>(r, d1, d0, 0, 0);
    Transpose<int32_t>(c, a, &t);
    std::vector<int32_t> et; for (int j = 0; j < d1; j++) for (int i = 0; i < d0; i++) et.push_back(v[i * d1 + j]);
    same("Transpose", val(t), et);
    same("ToContiguous", val(ToContiguous(a)), v);
    std::vector<int32_t> ix; int k = r.size() % 50; for (int i = 0; i < k; i++) ix.push_back((int32_t)r(-1, d0 - 1));
    std::vector<int32_t> ei; for (int i : ix) for (int j = 0; j < d1; j++) ei.push_back(i < 0 ? 0 : v[i * d1 + j]);
    same("IndexRows", val(IndexRows(a, Array1<int32_t>(C(), ix), true)), ei);
    int s = (int)r(0, d0 - 1), t2 = (int)r(s + 1, d0), inc = 1;
    std::vector<int32_t> er; for (int i = s; i < t2; i++) for (int j = 0; j < d1; j++) er.push_back(v[i * d1 + j]);
    same("RowArange", val(a.RowArange(s, t2, inc)), er);
    int cs = (int)r(0, d1 - 1), ce = (int)r(cs, d1);
    std::vector<int32_t> ec; for (int i = 0; i < d0; i++) for (int j = cs; j < ce; j++) ec.push_back(v[i * d1 + j]);
    same("ColArange", val(a.ColArange(cs, ce)), ec);
    same("Row", val(a.Row(s)), std::vector<int32_t>(v.begin() + s * d1, v.begin() + (s + 1) * d1));
    same("Flatten", val(a.Flatten()), v);
    Array2<int32_t> b = mk2<int32_t>(r, d0, d1, 0, 0);
    for (int i = 0; i < d0; i++) for (int j = 0; j < d1; j++) b.Data()[(int64_t)i * b.ElemStride0() + j] = v[i * d1 + j];
    same1("Equal (equal matrices)", Equal(a, b), true);
    int x = (int)r(0, d0 - 1), y = (int)r(0, d1 - 1);
    b.Data()[(int64_t)x * b.ElemStride0() + y] += 1;
    same1("Equal (one element differs)", Equal(a, b), false);
  }
  log("matrix"); log("elements", d0 * d1);
}
template <class T> void cats(Rng &r, Log &log) {
  int n = (int)r(1, r.p(0.2) ? 60 : 6);
  std::vector<Array1<T>> as; std::vector<T> e; std::vector<int32_t> off;
  for (int i = 0; i < n; i++) {
    auto v = rnd<T>(r, r.p(0.3) ? 0 : r.size(), 0, 100);
    as.push_back(mk(r, v)); e.insert(e.end(), v.begin(), v.end());
    off.push_back((int32_t)r(-1000, 1000));
  }
  std::vector<const Array1<T> *> p; for (auto &a : as) p.push_back(&a);
  same("Cat", val(Cat(C(), n, p.data())), e);
  same("Cat of an array", val(Cat(C(), n, as.data())), e);
  log("cats"); log("elements", e.size());
}
static void cats32(Rng &r, Log &log) {
  int n = (int)r(1, r.p(0.2) ? 60 : 6);
  std::vector<Array1<int32_t>> as, ss; std::vector<int32_t> e, off, es; int32_t tot = 0;
  for (int i = 0; i < n; i++) {
    int32_t o = (int32_t)r(-1000, 1000); off.push_back(o);
    auto v = rnd<int32_t>(r, r.p(0.3) ? 0 : r.size(), -50, 100);
    as.push_back(mk(r, v)); for (auto x : v) e.push_back(x + o);
    auto s = splits(r, r.p(0.3) ? 0 : (int)r(0, 20), 6);
    ss.push_back(mk(r, s));
    for (size_t k = 0; k + 1 < s.size(); k++) es.push_back(s[k] + tot);
    tot += s.back();
  }
  es.push_back(tot);
  std::vector<const Array1<int32_t> *> p, q;
  for (auto &a : as) p.push_back(&a);
  for (auto &a : ss) q.push_back(&a);
  same("CatWithOffsets", val(CatWithOffsets(mk(r, off), p.data())), e);
  same("SpliceRowSplits", val(SpliceRowSplits(n, q.data())), es);
  log("cats_offsets"); log("elements", e.size() + es.size());
}
template <class T> void reduce(Rng &r, Log &log) {
  int n = r.size();
  auto v = rnd<T>(r, n, 0, 127); T def = (T)r(0, 127);
  Array1<T> a = mk(r, v), d(C(), 1);
  T m = def, an = def, o = def; for (auto x : v) { m = std::max(m, x); an &= x; o |= x; }
  Max(a, def, &d); same("Max", val(d), {m});
  And(a, def, &d); same("And", val(d), {an});
  Or(a, def, &d); same("Or", val(d), {o});
  if (n) same1<int64_t>("MaxValue", MaxValue(a), *std::max_element(v.begin(), v.end()));
  auto w = rnd<T>(r, n, 0, 11); Array1<T> b = mk(r, w);
  std::vector<T> ep, em, et, es; T k = (T)r(0, 9);
  for (int i = 0; i < n; i++) { ep.push_back(v[i] + w[i]); em.push_back(v[i] - w[i]); et.push_back(v[i] * w[i]); es.push_back(v[i] + k); }
  same("Plus", val(Plus(a, b)), ep); same("Minus", val(Minus(a, b)), em); same("Times", val(Times(a, b)), et);
  const Array1<T> &ca = a;
  same("Plus scalar", val(Plus(ca, k)), es);
  same1("Equal (same)", Equal(a, mk(r, v)), true);
  if (n) {
    auto u = v; u[r(0, n - 1)] += 1; same1("Equal (one differs)", Equal(a, mk(r, u)), false);
    std::vector<T> con(n, k); same1("Equal constant", Equal(mk(r, con), k), true);
    con[r(0, n - 1)] += 1; same1("Equal constant (one differs)", Equal(mk(r, con), k), false);
  }
  log("reductions"); log("elements", n);
}
static void ranges(Rng &r, Log &log) {
  int n = r.size(); int32_t f = (int32_t)r(-100, 100), inc = (int32_t)r(-5, 5);
  std::vector<int32_t> e; for (int i = 0; i < n; i++) e.push_back(f + i * inc);
  same("Range", val(Range<int32_t>(C(), n, f, inc)), e);
  std::vector<int64_t> e64(e.begin(), e.end());
  same("Range int64", val(Range<int64_t>(C(), n, f, inc)), e64);
  int32_t b = (int32_t)r(-50, 50), en = b + (int32_t)r(0, 200), st = (int32_t)r(1, 7);
  std::vector<int32_t> ea; for (int32_t i = b; i < en; i += st) ea.push_back(i);
  same("Arange", val(Arange<int32_t>(C(), b, en, st)), ea);
  log("ranges");
}
static void rows(Rng &r, Log &log) {
  auto s = splits(r, r.p(0.1) ? 0 : r.size(), 6); auto ids = ids_of(s);
  int nr = (int)s.size() - 1, ne = (int)ids.size();
  Array1<int32_t> sa = mk(r, s);
  std::vector<int32_t> junk(ne, 12345), junk2(nr + 1, 12345);
  Array1<int32_t> ra = mk(r, junk); RowSplitsToRowIds(sa, &ra); same("RowSplitsToRowIds", val(ra), ids);
  Array1<int32_t> back = mk(r, junk2); RowIdsToRowSplits(ra, &back); same("RowIdsToRowSplits", val(back), s);
  std::vector<int32_t> sz; for (int i = 0; i < nr; i++) sz.push_back(s[i + 1] - s[i]);
  same("RowSplitsToSizes", val(RowSplitsToSizes(sa)), sz);
  int p = (int)r(0, nr), q = (int)r(p, nr);
  Array1<int32_t> part = sa.Range(p, q - p + 1);
  std::vector<int32_t> ep; for (int i = p; i < q; i++) ep.insert(ep.end(), sz[i], i - p);
  Array1<int32_t> pa(C(), (int32_t)ep.size()); RowSplitsToRowIdsOffset(part, &pa);
  same("RowSplitsToRowIdsOffset", val(pa), ep);
  Array1<int32_t> tmp(C(), 1, 0); Array1<int32_t> *t = r.p(0.5) ? &tmp : nullptr;
  same1("ValidateRowSplits", ValidateRowSplits(sa, t), true);
  same1("ValidateRowIds", ValidateRowIds(ra, t), true);
  if (ne && nr) same1("ValidateRowSplitsAndIds", ValidateRowSplitsAndIds(sa, ra, t), true);
  if (ne > 0) {  // each kind of corruption is noticed
    auto x = ids; int i = (int)r(0, ne - 1); x[i] += (int32_t)(r.p(0.5) ? 1 : -1);
    bool mono = x[0] >= 0; for (int k = 0; k + 1 < ne; k++) mono &= x[k] <= x[k + 1];
    same1("ValidateRowIds of altered ids", ValidateRowIds(mk(r, x), t), mono);
    same1("ValidateRowSplitsAndIds of altered ids", ValidateRowSplitsAndIds(sa, mk(r, x), t), false);
    auto y = s; int j = (int)r(0, nr); y[j] += (int32_t)(r.p(0.5) ? 1 : -1);
    bool ok = y[0] == 0; for (int k = 0; k < nr; k++) ok &= y[k] <= y[k + 1];
    same1("ValidateRowSplits of altered splits", ValidateRowSplits(mk(r, y), t), ok);
    same1("ValidateRowSplitsAndIds of altered splits", ValidateRowSplitsAndIds(mk(r, y), ra, t), false);
  }
  log("row_splits"); log("elements", ne);
}
static void perms(Rng &r, Log &log) {
  int n = r.size(); std::vector<int32_t> p(n), inv(n);
  for (int i = 0; i < n; i++) p[i] = i;
  std::shuffle(p.begin(), p.end(), r.g);
  for (int i = 0; i < n; i++) inv[p[i]] = i;
  Array1<int32_t> a = mk(r, p);
  same("InvertPermutation", val(InvertPermutation(a)), inv);
  same1("IsPermutation", IsPermutation(a), true);
  if (n) {
    auto q = p; int i = (int)r(0, n - 1); q[i] = (int32_t)(r.p(0.5) ? r(-3, n + 3) : p[r(0, n - 1)]);
    same1("IsPermutation of an altered array", IsPermutation(mk(r, q)), q == p);
  }
  int m = (int)r(1, 30);
  auto v = rnd<int32_t>(r, n, 0, m - 1); std::vector<int32_t> c(m, 0); for (auto x : v) c[x]++;
  same("GetCounts", val(GetCounts(mk(r, v), m)), c);
  std::vector<int32_t> sizes; for (int i = 0; i < (int)r(1, 7); i++) sizes.push_back((int32_t)r(r.p(0.3) ? 0 : 1, 9));
  std::vector<uint32_t> mm; for (size_t i = 0; i < sizes.size(); i++) for (int j = 0; j < sizes[i]; j++) mm.push_back((uint32_t)(j * sizes.size() + i));
  same("SizesToMergeMap", val(SizesToMergeMap(C(), sizes)), mm);
  // monotonic functions
  int L = (int)r(1, 40); std::vector<int32_t> d; int32_t x = (int32_t)r(1, 60);
  for (int i = 0; i < L && x > 0; i++) { d.push_back(x); if (r.p(0.4)) x -= (int32_t)r(0, 9); }
  std::vector<int32_t> e; for (int i = 0; i < d[0]; i++) { int j = 0; while (j < (int)d.size() && d[j] > i) j++; e.push_back(j); }
  same("InvertMonotonicDecreasing", val(InvertMonotonicDecreasing(mk(r, d))), e);
  log("permutations"); log("elements", n);
}
template <class S, class T> void bounds(Rng &r, Log &log) {
  int n = r.size(); auto v = rnd<S>(r, n, -60, 60); Array1<S> a = mk(r, v);
  // docs: dest[i] = min over j >= i of src[j]
  std::vector<T> lo(n), up(n);
  for (int i = n - 1; i >= 0; i--) lo[i] = i + 1 < n ? std::min<T>((T)v[i], lo[i + 1]) : (T)v[i];
  for (int i = n - 1; i >= 0; i--) up[i] = i + 1 < n ? std::max<T>((T)v[i], up[i + 1]) : (T)v[i];
  Array1<T> d(C(), n);
  MonotonicLowerBound(a, &d); same("MonotonicLowerBound", val(d), lo);
  MonotonicDecreasingUpperBound(a, &d); same("MonotonicDecreasingUpperBound", val(d), up);
  bool inc = true, dec = true; for (int i = 0; i + 1 < n; i++) { inc &= v[i] <= v[i + 1]; dec &= v[i] >= v[i + 1]; }
  same1("IsMonotonic", IsMonotonic(a), inc); same1("IsMonotonicDecreasing", IsMonotonicDecreasing(a), dec);
  std::vector<S> w(lo.begin(), lo.end()); same1("IsMonotonic of a sorted array", IsMonotonic(mk(r, w)), true);
  std::vector<S> z(up.begin(), up.end()); same1("IsMonotonicDecreasing of a sorted array", IsMonotonicDecreasing(mk(r, z)), true);
  log("bounds"); log("elements", n);
}
template <class T> void index_sort(Rng &r, Log &log) {
  int n = r.size(), k = r.size(); auto v = rnd<T>(r, n, -40, 40); Array1<T> a = mk(r, v);
  std::vector<int32_t> ix, im; std::vector<T> e, em; T def = (T)r(-9, 9);
  for (int i = 0; i < k; i++) {
    int32_t j = n ? (int32_t)r(0, n - 1) : -1;
    if (n) { ix.push_back(j); e.push_back(v[j]); }
    if (r.p(0.2)) j = -1;
    im.push_back(j); em.push_back(j < 0 ? def : v[j]);
  }
  same("Index", val(Index(a, mk(r, ix), false, def)), e);
  same("Index with minus ones", val(Index(a, mk(r, im), true, def)), em);
  if (n) same("operator[]", val(a[mk(r, ix)]), e);
  Array1<T> s(C(), v); Array1<int32_t> map(C(), n);
  Sort(&s, &map);
  auto w = v; std::sort(w.begin(), w.end()); same("Sort", val(s), w);
  auto m = val(map); std::vector<int32_t> seen(n, 0);
  for (int i = 0; i < n; i++) {
    if (m[i] < 0 || m[i] >= n || seen[m[i]]++) nd::fail("Sort: the index map is not a permutation");
    if (v[m[i]] != w[i]) nd::fail("Sort: the index map does not lead to the sorted value");
  }
  Array1<T> g(C(), v); Sort<T, GreaterThan<T>>(&g); std::reverse(w.begin(), w.end()); same("Sort decreasing", val(g), w);
  log("index_sort"); log("elements", n);
}
static void array_history(Rng &r, Log &log) {
  // A sequence of slices, resizes, clones and writes, tracked by a model in
  // which views share storage and clones do not.
  struct V { Array1<int32_t> a; int reg, off, n; };
  std::vector<std::vector<int32_t>> reg; std::vector<V> vs;
  auto fresh = [&](std::vector<int32_t> v) { reg.push_back(v); vs.push_back({Array1<int32_t>(C(), v), (int)reg.size() - 1, 0, (int)v.size()}); };
  fresh(rnd<int32_t>(r, (int)r(0, 20), -9, 9));
  for (int step = 0; step < 40; step++) {
    V v = vs[r(0, (int)vs.size() - 1)];
    switch (r(0, 7)) {
      case 0: if (vs.size() < 25) fresh(rnd<int32_t>(r, (int)r(0, 20), -9, 9)); break;
      case 1: { int s = (int)r(0, v.n), m = (int)r(0, v.n - s); vs.push_back({v.a.Range(s, m), v.reg, v.off + s, m}); break; }
      case 2: { int s = (int)r(0, v.n), e = (int)r(s, v.n); vs.push_back({v.a.Arange(s, e), v.reg, v.off + s, e - s}); break; }
      case 3: { reg.push_back(std::vector<int32_t>(reg[v.reg].begin() + v.off, reg[v.reg].begin() + v.off + v.n));
                vs.push_back({v.a.Clone(), (int)reg.size() - 1, 0, v.n}); break; }
      case 4: { int32_t x = (int32_t)r(-99, 99); v.a = x; for (int i = 0; i < v.n; i++) reg[v.reg][v.off + i] = x; break; }
      case 5: if (v.n) { int i = (int)r(0, v.n - 1); v.a.Data()[i] = 7 + step; reg[v.reg][v.off + i] = 7 + step; } break;
      case 6: { V &t = vs[r(0, (int)vs.size() - 1)];
                if (t.n == v.n && t.reg != v.reg) { t.a.CopyFrom(v.a); for (int i = 0; i < v.n; i++) reg[t.reg][t.off + i] = reg[v.reg][v.off + i]; } break; }
      default: if (v.n) { same1("Back", v.a.Back(), reg[v.reg][v.off + v.n - 1]); int i = (int)r(0, v.n - 1); same1("operator[]", v.a[i], reg[v.reg][v.off + i]); }
    }
    for (auto &x : vs)
      same("history of an array, step " + std::to_string(step), val(x.a), std::vector<int32_t>(reg[x.reg].begin() + x.off, reg[x.reg].begin() + x.off + x.n));
    log("array_steps");
  }
  // Growing keeps the old elements.
  auto v = rnd<int32_t>(r, (int)r(0, 30), -9, 9); Array1<int32_t> a(C(), v);
  for (int k = 0; k < 6; k++) {
    int m = (int)r(0, 60), keep = std::min(m, a.Dim()); auto old = val(a);
    // only the last part of a region may grow, so shrinking gives memory back
    a.Resize(m, m < a.Dim()); auto now = val(a);
    now.resize(keep); old.resize(keep); same("Resize keeps the elements", now, old);
    same1("Resize size", a.Dim(), m);
    for (int i = 0; i < m; i++) a.Data()[i] = i + k;
  }
}
static void numbers(Rng &r, Log &log) {
  for (int k = 0; k < 20; k++) {
    int64_t x = (int64_t)r.bits((int)r(1, 62)); int b = -1; for (int i = 0; i < 63; i++) if ((x >> i) & 1) b = i;
    same1<int64_t>("HighestBitSet(int64)", HighestBitSet(x), b);
    int32_t y = (int32_t)r.bits((int)r(1, 30)); b = -1; for (int i = 0; i < 31; i++) if ((y >> i) & 1) b = i;
    same1<int64_t>("HighestBitSet(int32)", HighestBitSet(y), b);
    int32_t z = 1 + (int32_t)r.bits((int)r(1, 29)), p = 1; while (p < z) p *= 2;
    same1("RoundUpToNearestPowerOfTwo", RoundUpToNearestPowerOfTwo(z), p);
    float f = (float)(r(-1000000, 1000000)) * (r.p(0.5) ? 1e-3f : 1e20f), g = (float)(r(-1000000, 1000000)) * (r.p(0.5) ? 1e-3f : 1e20f);
    same1("OrderedIntToFloat", OrderedIntToFloat(FloatToOrderedInt(f)), f);
    if (f < g && !(FloatToOrderedInt(f) < FloatToOrderedInt(g))) nd::fail("FloatToOrderedInt does not keep the order");
    log("numbers");
  }
}

static void run(Rng &r, Log &log, const std::string &only) {
  auto on = [&](const char *n) { return only.empty() || only == n; };
  for (int rep = 0; rep < 3; rep++) {
    if (on("prefix")) { prefix_sums<int32_t>(r, log); prefix_sums<int64_t>(r, log); prefix_sums<uint32_t>(r, log); mixed_sums(r, log); }
    if (on("matrix")) sums2(r, log);
    if (on("cat")) { cats<int32_t>(r, log); cats<float>(r, log); cats<int64_t>(r, log); cats32(r, log); }
    if (on("reduce")) { reduce<int32_t>(r, log); reduce<int64_t>(r, log); }
    if (on("range")) ranges(r, log);
    if (on("rows")) rows(r, log);
    if (on("perm")) perms(r, log);
    if (on("bounds")) { bounds<int32_t, int32_t>(r, log); bounds<int64_t, int64_t>(r, log); bounds<int32_t, int64_t>(r, log); }
    if (on("index")) { index_sort<int32_t>(r, log); index_sort<float>(r, log); index_sort<int64_t>(r, log); }
    if (on("history")) array_history(r, log);
    if (on("numbers")) numbers(r, log);
  }
}
ND_ENTRY(run)
