// Option parsing, symbol tables and wave files.
#include <fstream>
#include <sstream>

#include "na.h"

#include "k2/torch/csrc/parse_options.h"
#include "k2/torch/csrc/symbol_table.h"
#include "k2/torch/csrc/wave_reader.h"

using namespace na;  // NOLINT

// regs: [prefix, name, type, default] ...; how 0: command line, 1: config file.
// Returns the values in the order of regs, the positional arguments, GetArg's
// words and the first index that Read did not use.
static std::tuple<Strings, Strings, int64_t> Parse(Strings regs, Strings args, Strings disable, std::string config) {
  struct V {
    std::string type;
    bool b;
    int32_t i;
    uint32_t u;
    float f;
    double d;
    std::string s;
  };
  std::vector<V> vs(regs.size() / 4);
  k2::ParseOptions po("usage");
  std::vector<std::unique_ptr<k2::ParseOptions>> sub;
  for (size_t k = 0; k < vs.size(); ++k) {
    std::string pre = regs[4 * k], name = regs[4 * k + 1], type = regs[4 * k + 2], def = regs[4 * k + 3];
    k2::ParseOptions *p = &po;
    std::istringstream pp(pre);
    std::string part;
    while (std::getline(pp, part, '.')) {
      sub.push_back(std::make_unique<k2::ParseOptions>(part, p));
      p = sub.back().get();
    }
    V &v = vs[k];
    v.type = type;
    if (type == "bool") v.b = def == "true", p->Register(name, &v.b, "doc");
    if (type == "int") v.i = std::stol(def), p->Register(name, &v.i, "doc");
    if (type == "uint") v.u = std::stoul(def), p->Register(name, &v.u, "doc");
    if (type == "float") v.f = std::stof(def), p->Register(name, &v.f, "doc");
    if (type == "double") v.d = std::stod(def), p->Register(name, &v.d, "doc");
    if (type == "str") v.s = def, p->Register(name, &v.s, "doc");
  }
  for (auto &d : disable) po.DisableOption(d);
  int64_t used = 0;
  Strings pos;
  if (!config.empty()) {
    po.ReadConfigFile(config);
  } else {
    std::vector<const char *> av{"prog"};
    for (auto &a : args) av.push_back(a.c_str());
    used = po.Read(av.size(), av.data());
  }
  for (int32_t i = 1; i <= po.NumArgs(); ++i) {
    pos.push_back(po.GetArg(i));
    if (po.GetOptArg(i) != pos.back()) throw std::runtime_error("k2v: GetOptArg differs from GetArg");
  }
  if (po.GetOptArg(po.NumArgs() + 1) != "") throw std::runtime_error("k2v: GetOptArg beyond the end");
  Strings r;
  for (auto &v : vs) {
    std::ostringstream os;
    os.precision(17);
    if (v.type == "bool") os << (v.b ? "true" : "false");
    if (v.type == "int") os << v.i;
    if (v.type == "uint") os << v.u;
    if (v.type == "float") os << v.f;
    if (v.type == "double") os << v.d;
    if (v.type == "str") os << v.s;
    r.push_back(os.str());
  }
  return {r, pos, used};
}
static std::string Escape(std::string s) { return k2::ParseOptions::Escape(s); }

static std::tuple<Strings, Ints, std::string> Symbols(std::string file, Ints ids, Strings syms) {
  k2::SymbolTable t(file);
  Strings a;
  Ints b;
  for (auto i : ids) a.push_back(t.contains(static_cast<int32_t>(i)) ? "+" + t[static_cast<int32_t>(i)] : "-");
  for (auto &s : syms) b.push_back(t.contains(s) ? t[s] : INT64_MIN);
  std::ostringstream os;
  os << t;
  if (os.str() != t.ToString()) throw std::runtime_error("k2v: << differs from ToString");
  return {a, b, t.ToString()};
}
static std::tuple<torch::Tensor, double> Wave(std::string file, int64_t how) {
  if (how == 0) {
    k2::WaveReader w(file);
    return {w.Data().clone(), w.SampleRate()};
  }
  std::ifstream is(file, std::ifstream::binary);
  k2::WaveReader w(is);
  return {w.Data().clone(), w.SampleRate()};
}
static std::vector<torch::Tensor> Waves(Strings files, double rate) {
  if (files.size() == 1) return {k2::ReadWave(files[0], rate).clone()};
  return k2::ReadWave(files, rate);
}

TORCH_LIBRARY_FRAGMENT(k2v, m) {
  m.def("parse", Parse);
  m.def("escape", Escape);
  m.def("symbols", Symbols);
  m.def("wave", Wave);
  m.def("waves", Waves);
}
