// Hash and Hash64 driven by random histories of insertions, look-ups, updates,
// resizes and a final deletion of everything, against std::unordered_map.
#include <unordered_map>
#include "nd.h"
#include "k2/csrc/array.h"
#include "k2/csrc/hash.h"

using namespace k2;
using nd::Log; using nd::Rng; using nd::fail; using nd::same1;
static ContextPtr C() { return GetCpuContext(); }
typedef std::unordered_map<uint64_t, uint64_t> Model;

struct Keys {  // draws keys of a given number of bits, often colliding
  int bits; int mode; uint64_t stride;
  Keys(Rng &r, int bits, int64_t buckets) : bits(bits), mode((int)r(0, 4)), stride((uint64_t)buckets) {}
  uint64_t max() const { return bits >= 64 ? ~uint64_t(0) - 1 : (uint64_t(1) << bits) - 2; }
  uint64_t operator()(Rng &r) {
    uint64_t k;
    switch (mode) {
      case 0: k = r.bits(bits); break;
      case 1: k = (uint64_t)r(0, 200); break;
      case 2: k = stride * (uint64_t)r(0, 300) + (uint64_t)r(0, 2); break;   // same bucket
      case 3: k = max() - (uint64_t)r(0, 300); break;
      default: k = r.p(0.5) ? r.bits(bits) : (uint64_t)r(0, 60);
    }
    if (bits < 64) k &= (uint64_t(1) << bits) - 1;
    return k > max() ? max() : k;
  }
};
static thread_local int value_cap = 64;  // values of a history have at most so many bits
static uint64_t a_value(Rng &r, int bits) {
  bits = std::min(bits, value_cap);
  uint64_t top = bits >= 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1;
  uint64_t v = r.p(0.2) ? top - 1 - (uint64_t)r(0, 1) : r.p(0.3) ? (uint64_t)r(0, 5) : r.bits(bits);
  return v >= top ? top - 1 : v;
}
// how many keys the table can take: per group of buckets sharing implicit bits
struct Room {
  int implicit; int64_t group; std::unordered_map<uint64_t, int64_t> used;
  Room(int64_t buckets, int implicit) : implicit(implicit), group(buckets >> implicit) {}
  uint64_t g(uint64_t k) const { return k & ((uint64_t(1) << implicit) - 1); }
  bool can(uint64_t k, double frac) { return used[g(k)] + 1 < group * frac; }
  void add(uint64_t k) { used[g(k)]++; }
};
static bool fits(const Model &m, int64_t buckets, int implicit) {
  Room w(buckets, implicit);
  for (auto &kv : m) { if (!w.can(kv.first, 0.97)) return false; w.add(kv.first); }
  return true;
}

template <class A> void steps(Rng &r, Log &log, Hash &h, Model &m, Keys &keys, int n, double frac) {
  A acc = h.GetAccessor<A>();
  int vb = h.NumValueBits(), implicit = h.NumKeyBits() + vb - 64;
  Room room(h.NumBuckets(), implicit);
  for (auto &kv : m) room.add(kv.first);
  for (int i = 0; i < n; i++) {
    uint64_t k = (!m.empty() && r.p(0.2)) ? m.begin()->first : keys(r), old = 777, *loc = nullptr;
    auto it = m.find(k);
    int what = (int)r(0, 5);
    if (what <= 2) {
      if (it == m.end() && !room.can(k, frac)) continue;
      uint64_t v = a_value(r, vb);
      bool ans = acc.Insert(k, v, r.p(0.8) ? &old : nullptr, r.p(0.8) ? &loc : nullptr);
      if (ans != (it == m.end())) { std::ostringstream o; o << "Insert of " << (ans ? "a present" : "an absent") << " key " << k << " of " << h.NumKeyBits() << "+" << vb << " bits, " << h.NumBuckets() << " buckets, step " << i; fail(o.str()); }
      if (!ans && old != 777 && old != it->second) fail("Insert reports a wrong old value");
      if (ans) {
        if (old != 777) fail("Insert of a new key reports an old value");
        m[k] = v; room.add(k);
      }
      if (loc && r.p(0.3)) {
        uint64_t v2 = a_value(r, vb);
        if (r.p(0.5)) acc.SetValue(loc, k, v2); else acc.SetValue(loc, v2);
        m[k] = v2; log("set_value");
      }
      log(ans ? "insert_new" : "insert_present");
    } else if (what <= 4) {
      uint64_t v = 777;
      bool ans = acc.Find(k, &v, r.p(0.5) ? &loc : nullptr);
      if (ans != (it != m.end())) { std::ostringstream o; o << "Find of " << (ans ? "an absent" : "a present") << " key " << k << " succeeded=" << ans << ", " << h.NumKeyBits() << "+" << vb << " bits, " << h.NumBuckets() << " buckets"; fail(o.str()); }
      if (ans) same1("value found", v, it->second);
      log(ans ? "find_present" : "find_absent");
    } else {
      for (int j = 0; j < 3; j++) { uint64_t k2 = keys(r), v; same1("Find", acc.Find(k2, &v), m.count(k2) > 0); log("find"); }
    }
  }
  for (auto &kv : m) {
    uint64_t v;
    if (!acc.Find(kv.first, &v)) { std::ostringstream o; o << "key " << kv.first << " was lost"; fail(o.str()); }
    same1("value found at the end", v, kv.second);
  }
  log("entries", m.size());
}
template <class A> void wipe(Rng &r, Log &log, Hash &h, Model &m) {
  A acc = h.GetAccessor<A>();
  std::vector<uint64_t> ks; for (auto &kv : m) ks.push_back(kv.first);
  std::shuffle(ks.begin(), ks.end(), r.g);
  for (auto k : ks) acc.Delete(k);
  log("delete", ks.size());
  for (int i = 0; i < h.NumBuckets(); i++)
    if (~h.Data()[i]) fail("a bucket is still in use after every key was deleted");
  h.CheckEmpty();
  m.clear();
}
static int pow2(Rng &r, int lo, int hi) { return 1 << r(lo, hi); }

static void by_bits(Rng &r, Log &log, Hash &h, Model &m, Keys &keys, int n, double frac, bool end) {
  int kb = h.NumKeyBits(), implicit = kb + h.NumValueBits() - 64;
#define DO(A) { if (end) wipe<A>(r, log, h, m); else steps<A>(r, log, h, m, keys, n, frac); return; }
  if (implicit == 0 && r.p(0.5)) {
    if (kb == 32) DO(Hash::Accessor<32>)
    if (kb == 10) DO(Hash::Accessor<10>)
    if (kb == 40) DO(Hash::Accessor<40>)
    if (kb == 63) DO(Hash::Accessor<63>)
  }
  if (implicit == 0 && r.p(0.6)) DO(Hash::GenericAccessor)
  DO(Hash::PackedAccessor)
}
static void hash_history(Rng &r, Log &log) {
  int buckets = pow2(r, 7, r.p(0.1) ? 12 : 9);
  static const int K[] = {32, 10, 40, 63, 8, 20, 33, 50, 60};
  int kb = K[r(0, 8)], implicit = 0;
  if (r.p(0.5)) { int m = 0; while ((buckets >> (m + 1)) >= 32) m++; implicit = (int)r(0, std::min(m, kb - 1)); }
  int vb = 64 - kb + implicit;
  if (vb >= 64) { vb = 63; implicit = kb + vb - 64; }
  Hash h(C(), buckets, kb, (implicit == 0 && r.p(0.5)) ? -1 : vb);
  same1("NumBuckets", h.NumBuckets(), buckets); same1("NumKeyBits", h.NumKeyBits(), kb); same1("NumValueBits", h.NumValueBits(), vb);
  Model m; Keys keys(r, kb, buckets);
  value_cap = r.p(0.4) ? std::max(2, (int)r(1, vb)) : 64;
  double frac = r.p(0.3) ? 0.95 : 0.6;
  int rounds = (int)r(1, 4);
  for (int i = 0; i < rounds; i++) {
    by_bits(r, log, h, m, keys, (int)r(20, 400), frac, false);
    if (i + 1 < rounds && r.p(0.7)) {
      int nb = pow2(r, 7, 11), nkb = kb, nvb = vb;
      if (r.p(0.4)) {  // other bits for keys and values, as many as the contents need
        uint64_t mk = 1, mv = 1; for (auto &kv : m) { mk = std::max(mk, kv.first); mv = std::max(mv, kv.second); }
        int needk = 1; while (needk < 63 && ((uint64_t(1) << needk) - 2) < mk) needk++;
        int needv = 1; while (needv < 63 && ((uint64_t(1) << needv) - 2) < mv) needv++;
        nkb = (int)r(needk, 63); nvb = std::max(needv, 64 - nkb);
        if (r.p(0.5) && kb >= needk) {  // only the number of value bits changes (packed <-> plain)
          nkb = kb;
          nvb = std::max(needv, 64 - kb + (r.p(0.5) ? 0 : (int)r(0, 3)));
        }
        if (nvb > 63) nvb = 63, nkb = std::max(nkb, 1);
      }
      int ni = nkb + nvb - 64;
      if (ni < 0 || ni > 20 || (nb >> ni) < 32 || !fits(m, nb, ni)) continue;
      h.Resize(nb, nkb, (ni == 0 && r.p(0.3)) ? -1 : nvb);
      kb = nkb; vb = nvb; keys = Keys(r, kb, nb);
      same1("NumBuckets after Resize", h.NumBuckets(), nb);
      same1("NumKeyBits after Resize", h.NumKeyBits(), kb);
      same1("NumValueBits after Resize", h.NumValueBits(), vb);
      log("resize");
    }
  }
  by_bits(r, log, h, m, keys, (int)r(20, 100), frac, false);
  by_bits(r, log, h, m, keys, 0, 0, true);
  if (r.p(0.5)) {  // usable again after everything was deleted
    by_bits(r, log, h, m, keys, 60, frac, false); by_bits(r, log, h, m, keys, 0, 0, true);
    if (r.p(0.5)) { h.Resize(128, 32, 32, false); log("resize_empty"); }
  }
  log("hash_histories");
}
static void hash64_history(Rng &r, Log &log) {
  value_cap = 64;
  int64_t buckets = pow2(r, 7, 10);
  Hash64 h(C(), buckets); Model m; Keys keys(r, 64, buckets);
  for (int round = 0; round < 3; round++) {
    Hash64::Accessor acc = h.GetAccessor();
    for (int i = 0; i < 300; i++) {
      uint64_t k = (!m.empty() && r.p(0.2)) ? m.begin()->first : keys(r), old = 777, *loc = nullptr;
      auto it = m.find(k);
      if (r.p(0.5)) {
        if (it == m.end() && (int64_t)m.size() + 2 >= h.NumBuckets()) continue;
        uint64_t v = a_value(r, 64);
        bool ans = acc.Insert(k, v, &old, &loc);
        same1("Hash64 Insert", ans, it == m.end());
        if (!ans) same1("Hash64 old value", old, it->second); else m[k] = v;
        if (r.p(0.3)) { v = a_value(r, 64); acc.SetValue(loc, v); m[k] = v; }
        log("insert64");
      } else {
        uint64_t v = 0; bool ans = acc.Find(k, &v, &loc);
        same1("Hash64 Find", ans, it != m.end()); if (ans) same1("Hash64 value", v, it->second);
        log("find64");
      }
    }
    for (auto &kv : m) { uint64_t v; if (!acc.Find(kv.first, &v) || v != kv.second) fail("Hash64: a key was lost or has another value"); }
    int64_t nb = pow2(r, 7, 11);
    if (nb > (int64_t)m.size() + 2) { h.Resize(nb); log("resize64"); same1("Hash64 buckets", h.NumBuckets(), nb); }
  }
  Hash64::Accessor acc = h.GetAccessor();
  for (auto &kv : m) { uint64_t v; if (!acc.Find(kv.first, &v) || v != kv.second) fail("Hash64: a key was lost or has another value after a resize"); }
  for (auto &kv : m) acc.Delete(kv.first);
  h.CheckEmpty();
  for (int64_t i = 0; i < 2 * h.NumBuckets(); i++) if (~h.Data()[i]) fail("Hash64: a bucket is still in use");
  log("hash64_histories");
}
static void run(Rng &r, Log &log, const std::string &only) {
  for (int rep = 0; rep < 3; rep++) {
    if (only.empty() || only == "hash") hash_history(r, log);
    if (only.empty() || only == "hash64") hash64_history(r, log);
  }
}
ND_ENTRY(run)
