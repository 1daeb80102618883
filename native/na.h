// Shared by the drivers of the C++ decoding library (k2/torch/csrc): objects
// are kept in a table, Python refers to them by number (torch.ops.k2v.*).
#ifndef K2V_NA_H_
#define K2V_NA_H_
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "k2/csrc/fsa_algo.h"
#include "k2/csrc/fsa_utils.h"
#include "k2/csrc/ragged_ops.h"
#include "k2/torch/csrc/fsa_class.h"
#include "k2/torch/csrc/utils.h"
#include "torch/script.h"

namespace na {
using Strings = std::vector<std::string>;
using Ints = std::vector<int64_t>;
using VV = std::vector<std::vector<int32_t>>;

struct Table {
  std::map<int64_t, std::shared_ptr<void>> m;
  int64_t next = 1;
};
inline Table table;

template <class T>
int64_t Keep(std::shared_ptr<T> p) {
  table.m[table.next] = p;
  return table.next++;
}
template <class T>
int64_t Put(T t) {
  return Keep(std::make_shared<T>(std::move(t)));
}
template <class T>
std::shared_ptr<T> Get(int64_t h) {
  auto it = table.m.find(h);
  if (it == table.m.end()) throw std::runtime_error("k2v: no such object");
  return std::static_pointer_cast<T>(it->second);
}
inline std::shared_ptr<k2::FsaClass> F(int64_t h) { return Get<k2::FsaClass>(h); }

template <class T>
torch::Tensor Copy(const k2::Array1<T> &a) {
  k2::Array1<T> b = a;
  return k2::Array1ToTorch(b).clone();
}
// (row splits of every axis ..., values)
inline std::vector<torch::Tensor> Layers(const k2::RaggedShape &s) {
  std::vector<torch::Tensor> r;
  k2::RaggedShape t = s;
  for (int32_t i = 1; i < t.NumAxes(); ++i) r.push_back(Copy(t.RowSplits(i)));
  return r;
}
inline std::vector<torch::Tensor> FromRagged(const k2::Ragged<int32_t> &r) {
  auto v = Layers(r.shape);
  v.push_back(Copy(r.values));
  return v;
}
inline k2::Ragged<int32_t> ToRagged(const std::vector<torch::Tensor> &v) {
  std::vector<k2::RaggedShapeLayer> ls;
  k2::Array1<int32_t> vals = k2::Array1FromTorch<int32_t>(v.back().clone());
  k2::RaggedShape s;
  for (size_t i = 0; i + 1 < v.size(); ++i) {
    k2::Array1<int32_t> rs = k2::Array1FromTorch<int32_t>(v[i].clone());
    k2::RaggedShape one = k2::RaggedShape2(&rs, nullptr, -1);
    s = i ? k2::ComposeRaggedShapes(s, one) : one;
  }
  return k2::Ragged<int32_t>(s, vals);
}
inline std::vector<torch::Tensor> FromVV(const VV &x) {
  std::vector<int32_t> rs{0}, v;
  for (auto &r : x) {
    v.insert(v.end(), r.begin(), r.end());
    rs.push_back(v.size());
  }
  auto o = torch::dtype(torch::kInt);
  return {torch::tensor(rs, o), torch::tensor(v, o)};
}
}  // namespace na
#endif
