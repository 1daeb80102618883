// Ragged building blocks against nested lists.
#include "nd.h"
#include "k2/csrc/algorithms.h"
#include "k2/csrc/array.h"
#include "k2/csrc/array_of_ragged.h"
#include "k2/csrc/array_ops.h"
#include "k2/csrc/ragged.h"
#include "k2/csrc/ragged_ops.h"
#include "k2/csrc/ragged_utils.h"

using namespace k2;
using nd::Log; using nd::Rng; using nd::fail; using nd::same; using nd::same1;
static ContextPtr C() { return GetCpuContext(); }
typedef std::vector<int32_t> Vi;
template <class T> std::vector<T> val(const Array1<T> &a) { return std::vector<T>(a.Data(), a.Data() + a.Dim()); }

struct N { std::vector<N> k; int leaf = -1; };   // a nested list; leaves are numbered
static void number(N &n, int depth, int *c) { if (depth == 0) { n.leaf = (*c)++; return; } for (auto &x : n.k) number(x, depth - 1, c); }
static N gen(Rng &r, int depth, int width, double pe) {
  N n; if (depth == 0) return n;
  int w = r.p(pe) ? 0 : (int)r(0, width);
  for (int i = 0; i < w; i++) n.k.push_back(gen(r, depth - 1, width, pe));
  return n;
}
static N tree(Rng &r, int axes, int d0 = -1) {
  N n; int w = d0 >= 0 ? d0 : (int)(r.p(0.15) ? 0 : r(1, r.p(0.1) ? 30 : 6)); double pe = r.p(0.3) ? 0.6 : 0.1; int width = (int)r(1, 4);
  for (int i = 0; i < w; i++) n.k.push_back(gen(r, axes - 1, width, pe));
  int c = 0; number(n, axes, &c); return n;
}
static void level(const N &n, int depth, std::vector<const N *> *o) { if (depth == 0) { o->push_back(&n); return; } for (auto &x : n.k) level(x, depth - 1, o); }
static std::vector<const N *> at(const N &n, int depth) { std::vector<const N *> o; level(n, depth, &o); return o; }
static Vi splits_of(const N &n, int axis) { Vi s(1, 0); for (auto *x : at(n, axis)) s.push_back(s.back() + (int)x->k.size()); return s; }
static Vi leaves(const N &n, int axes) { Vi v; for (auto *x : at(n, axes)) v.push_back(x->leaf); return v; }
static Vi ids_of(const Vi &s) { Vi v; for (size_t i = 0; i + 1 < s.size(); i++) v.insert(v.end(), s[i + 1] - s[i], (int)i); return v; }
// A shape whose row ids and total sizes may or may not be cached already.
static RaggedShape shape(Rng &r, const N &n, int axes) {
  std::vector<RaggedShapeLayer> L;
  for (int a = 1; a < axes; a++) {
    Vi s = splits_of(n, a);
    RaggedShapeLayer l; l.row_splits = Array1<int32_t>(C(), s); l.cached_tot_size = r.p(0.5) ? s.back() : -1;
    if (r.p(0.4)) { l.row_ids = Array1<int32_t>(C(), ids_of(s)); l.cached_tot_size = s.back(); }
    L.push_back(l);
  }
  return RaggedShape(L, true);
}
static Ragged<int32_t> ragged(Rng &r, const N &n, int axes, const Vi &values) {
  RaggedShape s = shape(r, n, axes);
  return Ragged<int32_t>(s, Array1<int32_t>(C(), values));
}
static void check(const std::string &what, RaggedShape got, const N &want, int axes) {
  same1(what + ": number of axes", got.NumAxes(), axes);
  for (int a = 1; a < axes; a++) {
    Vi s = splits_of(want, a);
    same(what + ": row splits of axis " + std::to_string(a), val(got.RowSplits(a)), s);
    same(what + ": row ids of axis " + std::to_string(a), val(got.RowIds(a)), ids_of(s));
    same1(what + ": size", got.TotSize(a), s.back());
  }
}
static std::vector<RaggedShape *> ptrs(std::vector<RaggedShape> &v) { std::vector<RaggedShape *> p; for (auto &x : v) p.push_back(&x); return p; }

static void renumber(Rng &r, Log &log) {
  int n = r.size(); double p = r.p(0.2) ? 0 : r.p(0.2) ? 1 : 0.5;
  std::vector<char> keep(n); Vi o2n(1, 0), n2o;
  bool zero = r.p(0.5);
  Renumbering ren(C(), n, zero);
  for (int i = 0; i < n; i++) { keep[i] = r.p(p); if (!zero || keep[i]) ren.Keep().Data()[i] = keep[i]; if (keep[i]) n2o.push_back(i); o2n.push_back((int)n2o.size()); }
  same1("NumOldElems", ren.NumOldElems(), n);
  if (r.p(0.5)) same1<int>("NumNewElems", ren.NumNewElems(), (int)n2o.size());
  same("New2Old", val(ren.New2Old()), n2o);
  Vi n2ox = n2o; n2ox.push_back(n); same("New2Old with the extra element", val(ren.New2Old(true)), n2ox);
  same("Old2New with the extra element", val(ren.Old2New(true)), o2n);
  o2n.pop_back(); same("Old2New", val(ren.Old2New()), o2n);
  same1<int>("NumNewElems", ren.NumNewElems(), (int)n2o.size());
  Renumbering id = IdentityRenumbering(C(), n); Vi e; for (int i = 0; i < n; i++) e.push_back(i);
  same("identity New2Old", val(id.New2Old()), e); same("identity Old2New", val(id.Old2New()), e); same1("identity size", id.NumNewElems(), n);
  {
    auto lam = [&](int32_t i) -> bool { return keep[i] != 0; };
    int chunk = r.p(0.3) ? (1 << 20) : (int)r(1, n / 2 + 3);
    if (n > 0) same("GetNew2Old in chunks of " + std::to_string(chunk), val(GetNew2Old(C(), n, lam, chunk)), n2o);
    log("chunked");
  }
  {
    N t = tree(r, 2, (int)r(1, 12)); Vi s = splits_of(t, 1); int ne = s.back(); Vi ids = ids_of(s), k2;
    std::vector<char> kp(ne); for (int i = 0; i < ne; i++) kp[i] = r.p(0.5);
    Vi en, er; for (int i = 0; i < ne; i++) if (kp[i]) { en.push_back(i); er.push_back(ids[i]); }
    bool bad = false;
    auto lam = [&](int32_t i, int32_t row) -> bool { if (i < 0 || i >= ne || row != ids[i]) { bad = true; return false; } return kp[i]; };
    // surroundings that are not row splits, so that reads beyond them show
    Vi w = s; for (int i = 0; i < 8; i++) w.push_back(-5);
    Array1<int32_t> big(C(), w), sa = big.Range(0, (int)s.size()), a, b;
    int chunk = r.p(0.3) ? (1 << 20) : (int)r(1, ne + 2);
    GetNew2OldAndRowIds(sa, ne, lam, &a, &b, chunk);
    if (bad) fail("GetNew2OldAndRowIds calls its function with a wrong index or row");
    same("GetNew2OldAndRowIds new2old, chunks of " + std::to_string(chunk) + " of " + std::to_string(ne) + " elements in " + std::to_string(s.size() - 1) + " rows", val(a), en);
    same("GetNew2OldAndRowIds row ids", val(b), er);
    log("chunked_rows");
  }
  log("renumberings"); log("elements", n);
}
static void layers(Rng &r, Log &log) {
  int axes = (int)r(2, 4), n = (int)r(1, 5), layer = (int)r(0, axes - 2);
  std::vector<N> ts; std::vector<RaggedShape> sh;
  for (int i = 0; i < n; i++) { ts.push_back(tree(r, axes)); sh.push_back(shape(r, ts.back(), axes)); }
  auto p = ptrs(sh);
  Vi tot(1, 0);
  {  // merge a layer by a random merge map
    std::vector<Vi> sp; std::vector<uint32_t> map;
    for (int i = 0; i < n; i++) { sp.push_back(splits_of(ts[i], layer + 1)); for (size_t j = 0; j + 1 < sp[i].size(); j++) map.push_back((uint32_t)(j * n + i)); }
    std::shuffle(map.begin(), map.end(), r.g);
    Vi s(1, 0); std::vector<uint32_t> mm;
    for (uint32_t m : map) { int i = m % n, j = m / n; s.push_back(s.back() + sp[i][j + 1] - sp[i][j]); for (int q = sp[i][j]; q < sp[i][j + 1]; q++) mm.push_back((uint32_t)(q * n + i)); }
    Array1<uint32_t> out; RaggedShape a = MergeRaggedLayer(layer, n, p.data(), Array1<uint32_t>(C(), map), r.p(0.7) ? &out : nullptr);
    same("MergeRaggedLayer splits", val(a.RowSplits(1)), s); same("MergeRaggedLayer ids", val(a.RowIds(1)), ids_of(s));
    if (out.IsValid()) same("MergeRaggedLayer merge map", val(out), mm);
    // merging whole shapes at the top
    map.clear(); std::vector<std::pair<int, int>> order;
    for (int i = 0; i < n; i++) for (size_t j = 0; j < ts[i].k.size(); j++) map.push_back((uint32_t)(j * n + i));
    std::shuffle(map.begin(), map.end(), r.g);
    N w; mm.clear();
    for (uint32_t m : map) { const N &x = ts[m % n].k[m / n]; w.k.push_back(x); N y; y.k.push_back(x); for (int l : leaves(y, axes)) mm.push_back((uint32_t)(l * n + m % n)); }
    Array1<uint32_t> o2; RaggedShape g = Merge(n, p.data(), Array1<uint32_t>(C(), map), &o2);
    check("Merge", g, w, axes); same("Merge merge map", val(o2), mm);
  }
  {  // same sizes on the layer: intersperse
    int rows = (int)r(0, 6); std::vector<N> us; std::vector<RaggedShape> us2;
    for (int i = 0; i < n; i++) { us.push_back(tree(r, 2, rows)); us2.push_back(shape(r, us.back(), 2)); }
    auto q = ptrs(us2); Vi s(1, 0); std::vector<uint32_t> mm; Vi pos(n, 0);
    for (int j = 0; j < rows; j++) for (int i = 0; i < n; i++) { s.push_back(s.back() + (int)us[i].k[j].k.size()); for (size_t x = 0; x < us[i].k[j].k.size(); x++) mm.push_back((uint32_t)(n * pos[i]++ + i)); }
    Array1<uint32_t> m; RaggedShape a = IntersperseRaggedLayer(0, n, q.data(), r.p(0.7) ? &m : nullptr);
    same("IntersperseRaggedLayer splits", val(a.RowSplits(1)), s); same("IntersperseRaggedLayer ids", val(a.RowIds(1)), ids_of(s));
    if (m.IsValid()) same("IntersperseRaggedLayer merge map", val(m), mm);
    int f = (int)r(1, 4); N b = tree(r, 2, f * (int)r(0, 5)); RaggedShape bs = shape(r, b, 2); Vi full = splits_of(b, 1), sub;
    for (size_t i = 0; i < full.size(); i += f) sub.push_back(full[i]);
    RaggedShape z = SubsampleRaggedLayer(bs, 0, f);
    same("SubsampleRaggedLayer splits", val(z.RowSplits(1)), sub); same("SubsampleRaggedLayer ids", val(z.RowIds(1)), ids_of(sub));
  }
  {  // Array1OfRaggedShape and GetOffsets
    bool meta = r.p(0.7); Array1OfRaggedShape ar(sh.data(), n, meta);
    same1("NumSrcs", ar.NumSrcs(), n); same1("NumAxes", ar.NumAxes(), axes);
    Array2<int32_t> off = GetOffsets(n, p.data());
    for (int a = 0; a < axes; a++) {
      Vi ms(1, 0); for (int i = 0; i < n; i++) ms.push_back(ms.back() + (int)at(ts[i], a + 1).size());
      same1("TotSize", ar.TotSize(a), ms.back());
      same("GetOffsets", val(off.Row(a + 1)), ms);
      if (meta) {
        same("MetaRowSplits", val(ar.MetaRowSplits(a)), ms); same("MetaRowIds", val(ar.MetaRowIds(a)), ids_of(ms));
        const Array2<int32_t> &o = ar.Offsets(); Vi row(o.Data() + (a + 1) * o.ElemStride0(), o.Data() + (a + 1) * o.ElemStride0() + n + 1);
        same("Offsets", row, ms);
      }
      if (a > 0) for (int i = 0; i < n; i++) {
        Vi s = splits_of(ts[i], a), d = ids_of(s);
        same("pointer to row splits", Vi(ar.RowSplits(a)[i], ar.RowSplits(a)[i] + s.size()), s);
        same("pointer to row ids", Vi(ar.RowIds(a)[i], ar.RowIds(a)[i] + d.size()), d);
      }
    }
  }
  {  // UnsqueezeParallel
    auto v = UnsqueezeParallel(n, p.data(), 0);
    for (int i = 0; i < n; i++) { N w; w.k.push_back(ts[i]); check("UnsqueezeParallel", v[i], w, axes + 1); }
    for (int i = 0; i < n; i++) check("the sources are as before", sh[i], ts[i], axes);
  }
  log("layers");
}
static void prune_kids(N &n, int depth, const std::vector<char> &keep, int *c) {  // keep those of axis depth
  if (depth == 0) { std::vector<N> o; for (auto &x : n.k) if (keep[(*c)++]) o.push_back(x); n.k = o; return; }
  for (auto &x : n.k) prune_kids(x, depth - 1, keep, c);
}
static void subsets(Rng &r, Log &log) {
  int axes = (int)r(2, 4); N t = tree(r, axes); RaggedShape s = shape(r, t, axes);
  {
    int axis = (int)r(0, axes - 1), n = (int)at(t, axis + 1).size();
    std::vector<char> keep(n); Renumbering ren(C(), n); for (int i = 0; i < n; i++) ren.Keep().Data()[i] = keep[i] = r.p(0.6);
    N w = t; int c = 0; prune_kids(w, axis, keep, &c);
    Array1<int32_t> map; RaggedShape g = SubsetRaggedShape(s, ren, r.p(0.5) ? axis : axis - axes, r.p(0.7) ? &map : nullptr);
    check("SubsetRaggedShape", g, w, axes); if (map.IsValid()) same("SubsetRaggedShape map", val(map), leaves(w, axes));
  }
  if (axes >= 3) {  // the last two axes at once: the rows that go must have no elements kept
    int nb = (int)at(t, axes - 1).size(), nl = (int)at(t, axes).size();
    std::vector<char> kb(nb), kl(nl); Renumbering rb(C(), nb), rl(C(), nl);
    for (int i = 0; i < nb; i++) rb.Keep().Data()[i] = kb[i] = r.p(0.6);
    Vi ids = ids_of(splits_of(t, axes - 1));
    for (int i = 0; i < nl; i++) rl.Keep().Data()[i] = kl[i] = kb[ids[i]] && r.p(0.6);
    N w = t; int c = 0; prune_kids(w, axes - 1, kl, &c); c = 0; prune_kids(w, axes - 2, kb, &c);
    check("SubsetRaggedShape of two axes", SubsetRaggedShape(s, rb, rl), w, axes);
  }
  {
    int axis = (int)r(0, axes - 2); auto nodes = at(t, axis + 1); std::vector<char> keep; Vi kept;
    for (auto *x : nodes) { keep.push_back(!x->k.empty()); if (keep.back()) kept.push_back((int)keep.size() - 1); }
    N w = t; int c = 0; prune_kids(w, axis, keep, &c);
    Renumbering ren; RaggedShape g = RemoveEmptyLists(s, axis, r.p(0.7) ? &ren : nullptr);
    check("RemoveEmptyLists", g, w, axes);
    if (ren.NumOldElems() == (int)nodes.size() && !nodes.empty()) same("RemoveEmptyLists renumbering", val(ren.New2Old()), kept);
    Renumbering some(C(), (int)nodes.size()); for (size_t i = 0; i < nodes.size(); i++) some.Keep().Data()[i] = keep[i] = keep[i] || r.p(0.5);
    w = t; c = 0; prune_kids(w, axis, keep, &c);
    check("RemoveSomeEmptyLists", RemoveSomeEmptyLists(s, axis, some), w, axes);
    auto top = at(t, 1); std::vector<char> k0; for (auto *x : top) k0.push_back(!x->k.empty());
    w = t; c = 0; prune_kids(w, 0, k0, &c);
    check("RemoveEmptyListsAxis0", RemoveEmptyListsAxis0(s), w, axes);
    Renumbering s0(C(), (int)top.size()); for (size_t i = 0; i < top.size(); i++) s0.Keep().Data()[i] = k0[i] = k0[i] || r.p(0.5);
    w = t; c = 0; prune_kids(w, 0, k0, &c); check("RenumberAxis0Simple", RenumberAxis0Simple(s, s0), w, axes);
  }
  {
    int n = (int)r(0, (int)t.k.size()); N w = t; w.k.resize(n); check("Prefix", Prefix(s, n), w, axes);
    Vi sz; for (int i = 0; i < (int)r(0, 5); i++) sz.push_back((int)r(0, (int)t.k.size()));
    auto v = GetPrefixes(s, sz); same1<size_t>("GetPrefixes", v.size(), sz.size());
    for (size_t i = 0; i < sz.size(); i++) { N x = t; x.k.resize(sz[i]); check("GetPrefixes", v[i], x, axes); }
  }
  {
    Vi sp = splits_of(t, axes - 1); int mn = 1 << 30; for (size_t i = 0; i + 1 < sp.size(); i++) mn = std::min(mn, sp[i + 1] - sp[i]);
    int d = (int)r(mn == (1 << 30) ? 0 : -mn, 3), dp = (int)r(-4, 3);
    Vi e(1, 0), ep(1, 0);
    for (size_t i = 0; i + 1 < sp.size(); i++) { int z = sp[i + 1] - sp[i]; e.push_back(e.back() + z + d); ep.push_back(ep.back() + (z == 0 ? 0 : std::max(0, z + dp))); }
    RaggedShape g = ChangeSublistSize(s, d); same("ChangeSublistSize", val(g.RowSplits(axes - 1)), e); same("ChangeSublistSize ids", val(g.RowIds(axes - 1)), ids_of(e));
    RaggedShape h = ChangeSublistSizePinned(s, dp); same("ChangeSublistSizePinned", val(h.RowSplits(axes - 1)), ep); same("ChangeSublistSizePinned ids", val(h.RowIds(axes - 1)), ids_of(ep));
    for (int a = 1; a < axes - 1; a++) { same("ChangeSublistSize upper layers", val(g.RowSplits(a)), splits_of(t, a)); same("ChangeSublistSizePinned upper layers", val(h.RowSplits(a)), splits_of(t, a)); }
  }
  check("the source is as before", s, t, axes);
  log("subsets");
}
static void restructure(Rng &r, Log &log) {
  int axes = (int)r(2, 4); N t = tree(r, axes); RaggedShape s = shape(r, t, axes);
  if (axes >= 3) {
    int axis = (int)r(1, axes - 2); RaggedShape top, bot; DecomposeRaggedShape(s, axis, &top, &bot);
    for (int a = 1; a <= axis; a++) same("DecomposeRaggedShape top", val(top.RowSplits(a)), splits_of(t, a));
    for (int a = axis + 1; a < axes; a++) same("DecomposeRaggedShape bottom", val(bot.RowSplits(a - axis)), splits_of(t, a));
    same1("DecomposeRaggedShape axes", top.NumAxes() + bot.NumAxes(), axes + 1);
    check("ComposeRaggedShapes", ComposeRaggedShapes(top, bot), t, axes);
    int l = (int)r(0, axes - 2); RaggedShape g = GetLayer(s, l); same("GetLayer", val(g.RowSplits(1)), splits_of(t, l + 1)); same1("GetLayer axes", g.NumAxes(), 2);
    if (axes == 4) { RaggedShape a = GetLayer(s, 0), b = GetLayer(s, 1), c = GetLayer(s, 2); check("ComposeRaggedShapes3", ComposeRaggedShapes3(a, b, c), t, axes); }
  }
  {  // transposition
    N w = t; size_t m = 0; for (auto &x : w.k) m = std::max(m, x.k.size());
    if (axes >= 3) {
      for (auto &x : w.k) x.k.resize(m);
      RaggedShape g = MakeTransposable(s); check("MakeTransposable", g, w, axes);
      int c = 0; number(w, axes, &c);
      if (!w.k.empty()) {
        N tr; for (size_t j = 0; j < m; j++) { N row; for (auto &x : w.k) row.k.push_back(x.k[j]); tr.k.push_back(row); }
        Array1<int32_t> vi; RaggedShape gs = shape(r, w, axes), q = Transpose(gs, r.p(0.7) ? &vi : nullptr);
        check("Transpose", q, tr, axes); if (vi.IsValid()) same("Transpose value indexes", val(vi), leaves(tr, axes));
      }
    }
  }
  {  // two-axis helpers
    int rows = (int)r(0, 10), n = (int)r(1, 4); std::vector<N> ts; std::vector<RaggedShape> sh; Vi mx(rows, 0);
    for (int i = 0; i < n; i++) { ts.push_back(tree(r, 2, rows)); sh.push_back(shape(r, ts.back(), 2)); for (int j = 0; j < rows; j++) mx[j] = std::max(mx[j], (int)ts[i].k[j].k.size()); }
    auto p = ptrs(sh); Vi cs(1, 0); for (int x : mx) cs.push_back(cs.back() + x);
    RaggedShape cov = CoveringShape(n, p.data()); same("CoveringShape", val(cov.RowSplits(1)), cs); same("CoveringShape ids", val(cov.RowIds(1)), ids_of(cs));
    int i = (int)r(0, n - 1); Vi e; int c = 0; for (int j = 0; j < rows; j++) for (int q = 0; q < mx[j]; q++) e.push_back(q < (int)ts[i].k[j].k.size() ? c++ : -1);
    same("CoveringShapeForwardMap", val(CoveringShapeForwardMap(sh[i], cov)), e);
    Vi ord = val(GetDecreasingSizeOrder(sh[i])); Vi seen(rows, 0); int last = 1 << 30;
    same1<size_t>("GetDecreasingSizeOrder size", ord.size(), rows);
    for (int x : ord) { if (x < 0 || x >= rows || seen[x]++) fail("GetDecreasingSizeOrder is not a permutation"); int z = (int)ts[i].k[x].k.size(); if (z > last) fail("GetDecreasingSizeOrder: sizes grow"); last = z; }
  }
  {  // values
    int n = (int)at(t, axes).size(); Vi v(n); for (auto &x : v) x = (int)r(-20, 20);
    Ragged<int32_t> ra = ragged(r, t, axes, v); Vi sp = splits_of(t, axes - 1), e(n);
    for (size_t i = 0; i + 1 < sp.size(); i++) { int sum = 0; for (int j = sp[i]; j < sp[i + 1]; j++) { e[j] = sum; sum += v[j]; } }
    Array1<int32_t> d(C(), n); bool inplace = r.p(0.3);
    if (inplace) { SegmentedExclusiveSum(ra, &ra.values); same("SegmentedExclusiveSum in place", val(ra.values), e); }
    else { SegmentedExclusiveSum(ra, &d); same("SegmentedExclusiveSum", val(d), e); same("SegmentedExclusiveSum leaves its source", val(ra.values), v); }
    // counts per partition
    int rows = (int)r(0, 8); N a = tree(r, 2, rows), b = tree(r, 2, rows); Vi sa = splits_of(a, 1), sb = splits_of(b, 1), cv(sb.back(), 0), src;
    N src_t; for (int i = 0; i < rows; i++) { N row; int w = sb[i + 1] - sb[i]; int k = w ? (int)r(0, 6) : 0; for (int j = 0; j < k; j++) { row.k.push_back(N()); int x = (int)r(sb[i], sb[i + 1] - 1); src.push_back(x); cv[x]++; } src_t.k.push_back(row); }
    Ragged<int32_t> rs = ragged(r, src_t, 2, src); RaggedShape bs = shape(r, b, 2);
    Ragged<int32_t> g = GetCountsPartitioned(rs, bs); same("GetCountsPartitioned", val(g.values), cv); same("GetCountsPartitioned shape", val(g.RowSplits(1)), sb);
    // transpose reordering: sorted by column
    int cols = (int)r(1, 9); Vi cvv(sa.back()); for (auto &x : cvv) x = (int)r(0, cols - 1);
    Ragged<int32_t> rt = ragged(r, a, 2, cvv); Vi o = val(GetTransposeReordering(rt, cols)); Vi seen(sa.back(), 0);
    same1<size_t>("GetTransposeReordering size", o.size(), sa.back());
    for (size_t i = 0; i < o.size(); i++) { if (o[i] < 0 || o[i] >= sa.back() || seen[o[i]]++) fail("GetTransposeReordering is not a permutation"); if (i && cvv[o[i - 1]] > cvv[o[i]]) fail("GetTransposeReordering does not sort by column"); if (i && cvv[o[i - 1]] == cvv[o[i]] && o[i - 1] > o[i]) log("unstable_reorderings"); }
  }
  {  // beam pruning
    int n = (int)at(t, axes).size(), axis = (int)r(0, axes - 1); std::vector<float> v(n); for (auto &x : v) x = (float)r(-20, 0) + (r.p(0.5) ? 0.5f : 0.f);
    // distinct scores, so that max_elems has one answer
    for (int i = 0; i < n; i++) v[i] += 1e-3f * (float)i;
    Ragged<float> rf(shape(r, t, axes), Array1<float>(C(), v)); float beam = (float)r(1, 25); int me = (int)r(0, 4);
    Renumbering ren = PruneRagged(rf, axis, beam, me);
    auto groups = axis == 0 ? std::vector<const N *>{&t} : at(t, axis); std::vector<char> keep; bool tie = false;
    for (auto *g : groups) {
      std::vector<float> best; float top = -INFINITY;
      for (auto &x : g->k) { float m = -INFINITY; for (auto *l : at(x, axes - axis - 1)) m = std::max(m, v[l->leaf]); best.push_back(m); top = std::max(top, m); }
      for (size_t i = 0; i < best.size(); i++) {
        if (best[i] != -INFINITY && std::abs(best[i] - (top - beam)) < 1e-3f) tie = true;
        bool k = best[i] != -INFINITY && best[i] >= top - beam;
        if (me > 0) { int better = 0; for (float q : best) better += q > best[i]; if (better >= me) k = false; }
        keep.push_back(k);
      }
    }
    std::vector<char> got(ren.Keep().Data(), ren.Keep().Data() + ren.NumOldElems());
    for (auto &x : got) x = x != 0;
    if (!tie) same("PruneRagged on axis " + std::to_string(axis) + " max_elems " + std::to_string(me), got, keep);
    log("prunings");
  }
  {
    ContextPtr c = C(); int a = (int)r(0, 9), b = (int)r(0, 9); N w; for (int i = 0; i < a; i++) { N row; row.k.resize(b); w.k.push_back(row); }
    check("RegularRaggedShape", RegularRaggedShape(c, a, b), w, 2);
    N one; N inner; inner.k.resize(b); one.k.push_back(inner); check("TrivialShape", TrivialShape(c, b), one, 2);
    check("EmptyRaggedShape", EmptyRaggedShape(c, axes), N(), axes);
    RaggedShape x = shape(r, t, axes), y = shape(r, t, axes); same1("Equal shapes", Equal(x, y), true);
    N t2 = tree(r, axes); bool eq = true; for (int q = 1; q < axes; q++) eq &= splits_of(t, q) == splits_of(t2, q);
    RaggedShape z = shape(r, t2, axes); same1("Equal of two shapes", Equal(x, z), eq);
    Array1<int32_t *> rsp, rid; GetRowInfo(x, &rsp, &rid);
    for (int q = 1; q < axes; q++) { Vi sp = splits_of(t, q), id = ids_of(sp); same("GetRowInfo splits", Vi(rsp.Data()[q - 1], rsp.Data()[q - 1] + sp.size()), sp); same("GetRowInfo ids", Vi(rid.Data()[q - 1], rid.Data()[q - 1] + id.size()), id); }
  }
  for (int rep = 0; rep < 2; rep++) {
    N t = tree(r, 2); int n = (int)leaves(t, 2).size(); Vi v(n); for (auto &x : v) x = (int)r(-99, 99);
    Ragged<int32_t> x = ragged(r, t, 2, v);
    std::vector<Vi> want; for (auto *row : at(t, 1)) { Vi q; for (auto &e : row->k) q.push_back(v[e.leaf]); want.push_back(q); }
    auto got = x.ToVecVec(); same1("ToVecVec rows", got.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) same("ToVecVec row", got[i], want[i]);
    if (n) { auto f = x.ToFloat().ToVecVec(); for (size_t i = 0; i < want.size(); i++) same("ToVecVec float row", Vi(f[i].begin(), f[i].end()), want[i]); }
    auto y = CreateRagged2(want); same("CreateRagged2 values", val(y.values), v); same("CreateRagged2 splits", val(y.RowSplits(1)), splits_of(t, 1));
  }
  log("restructurings");
}
static void run(Rng &r, Log &log, const std::string &only) {
  for (int rep = 0; rep < 3; rep++) {
    if (only.empty() || only == "renumber") renumber(r, log);
    if (only.empty() || only == "layers") layers(r, log);
    if (only.empty() || only == "subsets") subsets(r, log);
    if (only.empty() || only == "restructure") restructure(r, log);
  }
}
ND_ENTRY(run)
