// FSA algorithms, decoding and n-best functions below the public interface.
#include "na.h"

#include "k2/torch/csrc/decode.h"
#include "k2/torch/csrc/dense_fsa_vec.h"
#include "k2/torch/csrc/fsa_algo.h"
#include "k2/torch/csrc/nbest.h"

using namespace na;  // NOLINT
using torch::Tensor;

static std::vector<Tensor> Dense(Tensor lp, Tensor sup, int64_t trunc) {
  k2::DenseFsaVec d = k2::CreateDenseFsaVec(lp, sup, trunc);
  k2::Array2<float> s = d.scores;
  auto v = Layers(d.shape);
  v.push_back(k2::Array2ToTorch(s).clone());
  return v;
}
static Tensor Segments(Tensor seq, Tensor start, Tensor num, int64_t sub) {
  c10::Dict<c10::IValue, c10::IValue> d(c10::StringType::get(), c10::TensorType::get());
  d.insert("sequence_idx", seq);
  d.insert("start_frame", start);
  d.insert("num_frames", num);
  return k2::GetSupervisionSegments(d, sub);
}
static int64_t Pruned(int64_t g, Tensor lp, Tensor sup, int64_t trunc, double sb, double ob, int64_t mn, int64_t mx, bool partial) {
  k2::DenseFsaVec d = k2::CreateDenseFsaVec(lp, sup, trunc);
  return Put(k2::IntersectDensePruned(*F(g), d, sb, ob, mn, mx, partial));
}
static void Inv(int64_t h) { k2::Invert(F(h).get()); }
static void Sort(int64_t h) { k2::ArcSort(F(h).get()); }
static void Conn(int64_t h) { k2::Connect(F(h).get()); }
static void Top(int64_t h) { k2::TopSort(F(h).get()); }
static std::vector<Tensor> Tot(int64_t h, bool log) {
  auto f = k2::GetTotScores<float>(*F(h), log);
  auto d = k2::GetTotScores<double>(*F(h), log);
  return {Copy(f), Copy(d)};
}
static std::tuple<int64_t, Tensor> Random(int64_t h, int64_t n) {
  k2::Nbest b = k2::RandomPaths(*F(h), n);
  return {Put(b.fsa), Copy(b.shape.RowSplits(1))};
}
static std::tuple<int64_t, Tensor> FromLattice(int64_t h, int64_t n, double s) {
  k2::Nbest b = k2::Nbest::FromLattice(*F(h), n, s);
  return {Put(b.fsa), Copy(b.shape.RowSplits(1))};
}
static k2::Nbest Make(int64_t h, Tensor rs) {
  k2::Array1<int32_t> a = k2::Array1FromTorch<int32_t>(rs.clone());
  return k2::Nbest(*F(h), k2::RaggedShape2(&a, nullptr, -1));
}
static int64_t NInter(int64_t h, Tensor rs, int64_t lat) {
  k2::Nbest b = Make(h, rs);
  b.Intersect(F(lat).get());
  return Put(b.fsa);
}
static std::vector<Tensor> NScores(int64_t h, Tensor rs) {
  k2::Nbest b = Make(h, rs);
  return {b.ComputeAmScores().clone(), b.ComputeLmScores().clone()};
}
static int64_t Dev(int64_t a, int64_t b, Tensor map, bool sorted) {
  return Put(k2::IntersectDevice(*F(a), *F(b), k2::Array1FromTorch<int32_t>(map.clone()), sorted));
}
static int64_t Loops(int64_t h) { return Put(k2::LinearFsaWithSelfLoops(*F(h))); }
static std::vector<Tensor> Texts(int64_t h) { return FromRagged(k2::GetTexts(*F(h))); }
static void Whole(int64_t g, double s, int64_t lat) { k2::WholeLatticeRescoring(*F(g), s, F(lat).get()); }
static int64_t BestPaths(int64_t h, bool use_max, int64_t n, double s) { return Put(k2::GetBestPaths(*F(h), use_max, n, s)); }

TORCH_LIBRARY_FRAGMENT(k2v, m) {
  m.def("dense", Dense);
  m.def("segments", Segments);
  m.def("pruned", Pruned);
  m.def("invert", Inv);
  m.def("arc_sort", Sort);
  m.def("connect", Conn);
  m.def("top_sort", Top);
  m.def("tot_scores", Tot);
  m.def("random_paths", Random);
  m.def("nbest_from_lattice", FromLattice);
  m.def("nbest_intersect", NInter);
  m.def("nbest_scores", NScores);
  m.def("intersect_device", Dev);
  m.def("self_loops", Loops);
  m.def("texts", Texts);
  m.def("whole_lattice", Whole);
  m.def("best_paths", BestPaths);
}
