// The public interface, k2/torch/csrc/torch_api.h, and access to the objects.
#include "na.h"

#include "k2/torch/csrc/torch_api.h"

using namespace na;  // NOLINT
using torch::Tensor;

static int64_t New(Tensor t) {
  bool err = false;
  t = t.clone();
  k2::Tensor kt = k2::TensorFromTorch(t);
  k2::FsaOrVec f = t.dim() == 2 ? k2::FsaFromTensor(kt, &err) : k2::FsaVecFromTensor(kt, &err);
  if (err) throw std::runtime_error("k2v: bad FSA tensor");
  return Put(k2::FsaClass(f));
}
static Tensor Dump(int64_t h) {
  k2::FsaOrVec f = F(h)->fsa;
  k2::Tensor t = f.NumAxes() == 2 ? k2::FsaToTensor(f) : k2::FsaVecToTensor(f);
  return k2::TensorToTorch(t).clone();
}
static std::vector<Tensor> Shape(int64_t h) { return Layers(F(h)->fsa.shape); }
static Tensor Arcs(int64_t h) {
  auto f = F(h);
  auto o = torch::dtype(torch::kInt);
  int64_t n = f->fsa.values.Dim();
  if (n == 0) return torch::empty({0, 4}, o);
  return torch::from_blob(f->fsa.values.Data(), {n, 4}, o).clone();
}
static Strings Attrs(int64_t h) {
  Strings r;
  for (auto &p : F(h)->tensor_attrs) r.push_back("t:" + p.first);
  for (auto &p : F(h)->ragged_tensor_attrs) r.push_back("r:" + p.first);
  std::sort(r.begin(), r.end());
  return r;
}
static void SetRagged(int64_t h, std::string n, std::vector<Tensor> v) { F(h)->SetRaggedTensorAttr(n, ToRagged(v)); }
static std::vector<Tensor> GetRagged(int64_t h, std::string n) { return FromRagged(F(h)->GetRaggedTensorAttr(n)); }
static void DelTensor(int64_t h, std::string n) { F(h)->DeleteTensorAttr(n); }
static void DelRagged(int64_t h, std::string n) { F(h)->DeleteRaggedTensorAttr(n); }
static int64_t Props(int64_t h) { return F(h)->Properties(); }
static int64_t NumAttrs(int64_t h) { return F(h)->NumAttrs(); }
static int64_t CopyOf(int64_t h) { return Put(k2::FsaClass(*F(h))); }
static void Free() { table.m.clear(); }
static int64_t Unary(int64_t h, Tensor fsa, Tensor arc_map) {
  auto g = F(New(fsa));
  return Put(k2::FsaClass::FromUnaryFunctionTensor(*F(h), g->fsa, arc_map));
}

// ---- torch_api.h
static void ExSum(Tensor src, Tensor dst) { k2::ExclusiveSum(src, &dst); }
static int64_t RShape2(c10::optional<Tensor> rs, c10::optional<Tensor> ri, int64_t tot) {
  return Keep(k2::RaggedShape2(rs ? *rs : Tensor(), ri ? *ri : Tensor(), tot));
}
static int64_t TotSize(int64_t h, int64_t a) { return k2::TotSize(Get<k2::RaggedShape>(h), a); }
static Tensor RowIds(int64_t h, int64_t a) { return k2::RowIds(Get<k2::RaggedShape>(h), a).clone(); }
static Tensor RowSplits(int64_t h, int64_t a) { return k2::RowSplits(Get<k2::RaggedShape>(h), a).clone(); }
static int64_t Ctc(int64_t n, bool mod) { return Keep(k2::GetCtcTopo(n, mod)); }
static int64_t Trivial(int64_t n) { return Keep(k2::GetTrivialGraph(n)); }
static int64_t Load(std::string f) { return Keep(k2::LoadFsaClass(f)); }
static int64_t Lattice(Tensor lp, Tensor lens, int64_t g, double sb, double ob, int64_t mn, int64_t mx, int64_t sub) {
  return Keep(k2::GetLattice(lp, lens, F(g), sb, ob, mn, mx, sub));
}
static std::vector<Tensor> Best(int64_t h) { return FromVV(k2::BestPath(F(h))); }
static int64_t Shortest(int64_t h) { return Keep(k2::ShortestPath(F(h))); }
static void Scale(int64_t h, double s, std::string n) {
  auto f = F(h);
  k2::ScaleTensorAttribute(f, s, n);
}
static Tensor GetT(int64_t h, std::string n) {
  auto f = F(h);
  return k2::GetTensorAttr(f, n).clone();
}
static void SetT(int64_t h, std::string n, Tensor v) {
  auto f = F(h);
  k2::SetTensorAttr(f, n, v);
}
static int64_t Stream(int64_t g) { return Keep(k2::CreateRnntStream(F(g))); }
static int64_t Streams(Ints hs, int64_t vocab, int64_t ctx, double beam, int64_t max_contexts, int64_t max_states) {
  std::vector<k2::RnntStreamPtr> v;
  for (auto h : hs) v.push_back(Get<k2::RnntStream>(h));
  return Keep(k2::CreateRnntStreams(v, vocab, ctx, beam, max_contexts, max_states));
}
static std::vector<Tensor> Contexts(int64_t h) {
  auto p = k2::GetRnntContexts(Get<k2::RnntStreams>(h));
  return {k2::RowSplits(p.first, 1).clone(), p.second.clone()};
}
static void Advance(int64_t h, Tensor lp) { k2::AdvanceRnntStreams(Get<k2::RnntStreams>(h), lp); }
static void Flush(int64_t h) { k2::TerminateAndFlushRnntStreams(Get<k2::RnntStreams>(h)); }
static int64_t Format(int64_t h, Ints n, bool partial) {
  return Keep(k2::FormatOutput(Get<k2::RnntStreams>(h), std::vector<int32_t>(n.begin(), n.end()), partial));
}

TORCH_LIBRARY_FRAGMENT(k2v, m) {
  m.def("new", New);
  m.def("dump", Dump);
  m.def("shape", Shape);
  m.def("arcs", Arcs);
  m.def("attrs", Attrs);
  m.def("set_ragged", SetRagged);
  m.def("get_ragged", GetRagged);
  m.def("del_tensor", DelTensor);
  m.def("del_ragged", DelRagged);
  m.def("props", Props);
  m.def("num_attrs", NumAttrs);
  m.def("copy_of", CopyOf);
  m.def("free", Free);
  m.def("unary", Unary);
  m.def("exclusive_sum(Tensor src, Tensor(a!) dst) -> ()", ExSum);
  m.def("ragged_shape2", RShape2);
  m.def("tot_size", TotSize);
  m.def("row_ids", RowIds);
  m.def("row_splits", RowSplits);
  m.def("ctc_topo", Ctc);
  m.def("trivial_graph", Trivial);
  m.def("load", Load);
  m.def("get_lattice", Lattice);
  m.def("best_path", Best);
  m.def("shortest_path", Shortest);
  m.def("scale", Scale);
  m.def("get_tensor", GetT);
  m.def("set_tensor", SetT);
  m.def("rnnt_stream", Stream);
  m.def("rnnt_streams", Streams);
  m.def("rnnt_contexts", Contexts);
  m.def("rnnt_advance", Advance);
  m.def("rnnt_flush", Flush);
  m.def("rnnt_format", Format);
}
