// Transducer searches that run a scripted model.
#include "na.h"

#include "k2/torch/csrc/beam_search.h"
#include "k2/torch/csrc/decode.h"
#include "k2/torch/csrc/hypothesis.h"

using namespace na;  // NOLINT
using torch::Tensor;

static std::vector<Tensor> Greedy(std::string model, Tensor enc, Tensor lens) {
  auto m = torch::jit::load(model);
  m.eval();
  return FromVV(k2::GreedySearch(m, enc, lens));
}
static std::vector<Tensor> Beam(std::string model, Tensor enc, Tensor lens, int64_t n) {
  auto m = torch::jit::load(model);
  m.eval();
  return FromVV(k2::ModifiedBeamSearch(m, enc, lens, n));
}
// Runs streams chunk by chunk; graph per stream; returns format_output.
static int64_t Chunks(std::string model, Ints graphs, Tensor enc, Ints chunks, int64_t vocab, int64_t ctx, double beam,
                      int64_t max_states, int64_t max_contexts) {
  auto m = torch::jit::load(model);
  m.eval();
  std::vector<std::shared_ptr<k2::rnnt_decoding::RnntDecodingStream>> v;
  for (auto g : graphs) v.push_back(k2::rnnt_decoding::CreateStream(std::make_shared<k2::Fsa>(F(g)->fsa)));
  k2::rnnt_decoding::RnntDecodingConfig cfg(vocab, ctx, beam, max_states, max_contexts);
  int64_t t = 0;
  for (auto c : chunks) {
    k2::rnnt_decoding::RnntDecodingStreams s(v, cfg);
    k2::DecodeOneChunk(s, m, enc.slice(1, t, t + c));
    t += c;
  }
  k2::rnnt_decoding::RnntDecodingStreams s(v, cfg);
  s.TerminateAndFlushToStreams();
  k2::FsaVec out;
  k2::Array1<int32_t> map;
  s.FormatOutput(std::vector<int32_t>(graphs.size(), t), true, &out, &map);
  return Put(k2::FsaClass(out));
}
static std::tuple<Strings, std::vector<double>> Hyps(std::vector<Tensor> ys, std::vector<double> lp) {
  k2::Hypotheses h;
  for (size_t i = 0; i < ys.size(); ++i) {
    auto p = ys[i].contiguous();
    std::vector<int32_t> y(p.data_ptr<int32_t>(), p.data_ptr<int32_t>() + p.numel());
    h.Add(k2::Hypothesis(y, lp[i]));
  }
  Strings a;
  std::vector<double> b;
  for (auto &x : h.Vec()) {
    a.push_back(x.Key());
    b.push_back(x.log_prob);
  }
  for (bool norm : {false, true}) {
    auto x = h.GetMostProbable(norm);
    a.push_back(x.Key());
    b.push_back(x.log_prob);
  }
  return {a, b};
}

TORCH_LIBRARY_FRAGMENT(k2v, m) {
  m.def("greedy", Greedy);
  m.def("beam", Beam);
  m.def("chunks", Chunks);
  m.def("hyps", Hyps);
}
