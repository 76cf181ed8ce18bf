// C14: indexing against a reference ravel; every access is also under ASan.
#define VT_ALLOC_CAP (64u << 20)
#include "gen.h"
#include "alloc.h"
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

typedef std::vector<size_t> Shape;

static size_t ref_pos(const Shape &shape, const Shape &idx, bool fortran) {
  size_t p = 0;
  if (fortran) for (size_t k = shape.size(); k--;) p = p * shape[k] + idx[k];
  else for (size_t k = 0; k < shape.size(); ++k) p = p * shape[k] + idx[k];
  return p;
}

template <class F> static bool refused(F f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}

// the variadic form, which takes up to 6 coordinates here
template <class TEN> static auto *call(TEN &t, const std::vector<int32_t> &i) {
  switch (i.size()) {
  case 0: return &t();
  case 1: return &t(i[0]);
  case 2: return &t(i[0], i[1]);
  case 3: return &t(i[0], i[1], i[2]);
  case 4: return &t(i[0], i[1], i[2], i[3]);
  case 5: return &t(i[0], i[1], i[2], i[3], i[4]);
  default: return &t(i[0], i[1], i[2], i[3], i[4], i[5]);
  }
}

template <class T> static T marker(uint64_t k) {
  if constexpr (std::is_same_v<T, std::wstring>) return std::to_wstring(k);
  else if constexpr (std::is_same_v<T, npy::boolean>) return npy::boolean(k % 2 == 1);
  else return static_cast<T>(k + 1);
}

template <class T> static void one(Ctx &c, const Shape &shape, bool fortran) {
  Rng &r = c.rng;
  std::string desc = std::string(tinfo(type_index<T>()).code) + shape_str(shape) + (fortran ? " column-major" : " row-major");
  c.note(desc);
  npy::tensor<T> t(shape, fortran);
  const npy::tensor<T> &ct = t;
  size_t n = count_of(shape), nd = shape.size();
  c.check(t.size() == n && t.shape() == shape && t.ndim() == nd && t.fortran_order() == fortran, "construction", desc);
  for (size_t k = 0; k < nd; ++k) c.check(t.shape(static_cast<int>(k)) == shape[k], "shape(i)", desc);
  auto istr = [&](const auto &i) { std::string s = "("; for (auto v : i) s += std::to_string(v) + ","; return s + ")"; };
  std::vector<char> hit(n, 0);
  Shape idx(nd, 0);
  uint64_t budget = n <= 3000 ? n : 3000;
  for (uint64_t q = 0; q < budget; ++q) {
    if (n > 3000) for (size_t k = 0; k < nd; ++k) idx[k] = r.chance(15) ? shape[k] - 1 : r.chance(15) ? 0 : r.below(shape[k]);
    size_t want = ref_pos(shape, idx, fortran);
    std::vector<int32_t> s(nd);
    for (size_t k = 0; k < nd; ++k) s[k] = static_cast<int32_t>(idx[k]);
    auto at = [&](const char *how, const std::function<const T *()> &f) {
      std::string w;
      try {
        const T *p = f();
        size_t got = static_cast<size_t>(p - ct.data());
        if (got != want) w = fmt("%s: position %zu, should be %zu", how, got, want);
      } catch (const std::exception &e) { w = std::string(how) + " refused: " + e.what(); }
      c.check(w.empty(), "position", [&] { return desc + " " + istr(idx) + " " + w; });
    };
    if (!hit[want]) ++hit[want];
    else if (n <= 3000) c.fail("oracle", desc);
    at("get", [&] { return &ct.get(s); });
    at("operator()(vector)", [&] { return &ct(idx); });
    at("mutable operator()(vector)", [&] { return &t(idx); });
    at("ravel(size_t)", [&] { return ct.data() + ct.ravel(idx); });
    at("ravel(int)", [&] { return ct.data() + ct.ravel(s); });
    if (nd <= 6) {
      at("operator()", [&]() -> const T * { return call(t, s); });
      at("const operator()", [&]() -> const T * { return call(ct, s); });
    }
    // negative coordinates, any subset of them
    std::vector<int32_t> neg = s;
    for (size_t k = 0; k < nd; ++k) if (r.chance(50)) neg[k] = static_cast<int32_t>(static_cast<int64_t>(idx[k]) - static_cast<int64_t>(shape[k]));
    at("negative get", [&] { return &ct.get(neg); });
    if (nd <= 6) at("negative operator()", [&]() -> const T * { return call(t, neg); });
    // set changes that element
    T v = marker<T>(q);
    t.set(r.chance(50) ? s : neg, v);
    c.check(same_bits(ct.data()[want], v), "set", [&] { return desc + " " + istr(s) + ": another element was set"; });
    c.seen("in-range indices");
    if (n <= 3000) { // odometer
      for (size_t k = nd; k--;) { if (++idx[k] < shape[k]) break; idx[k] = 0; }
    }
  }
  if (n <= 3000) {
    c.check(static_cast<size_t>(std::count(hit.begin(), hit.end(), 1)) == n, "oracle", desc);
    // every element still holds what its own set stored
    std::vector<T> want(n);
    Shape i2(nd, 0);
    for (uint64_t q = 0; q < n; ++q) {
      want[ref_pos(shape, i2, fortran)] = marker<T>(q);
      for (size_t k = nd; k--;) { if (++i2[k] < shape[k]) break; i2[k] = 0; }
    }
    c.check(same_values(ct.values(), want), "bijection", [&] { return desc + fmt(": element %zu was overwritten", first_diff(ct.values(), want)); });
  }
  // out of range
  std::vector<T> before = t.values();
  for (int q = 0; q < 40; ++q) {
    std::vector<int32_t> s(nd);
    Shape u(nd);
    for (size_t k = 0; k < nd; ++k) { u[k] = shape[k] ? r.below(shape[k]) : 0; s[k] = static_cast<int32_t>(u[k]); }
    std::string what;
    bool sbad = true, ubad = true;
    if (nd == 0 || r.chance(25)) { // arity
      size_t m;
      do m = r.below(nd + 4); while (m == nd);
      int32_t fill = static_cast<int32_t>(r.below(2)) - static_cast<int32_t>(r.below(2));
      s.resize(m, fill);
      u.resize(m, r.below(2));
      what = "wrong arity";
    } else {
      size_t k = r.below(nd);
      int64_t d = static_cast<int64_t>(shape[k]);
      what = "out of range";
      static const int64_t far[] = {INT32_MAX, INT32_MIN, INT32_MIN + 1, 1000000000, -1000000000, 65536, -65536};
      int64_t v;
      switch (r.below(5)) {
      case 0: v = d; break;
      case 1: v = d + 1 + static_cast<int64_t>(r.below(20)); break;
      case 2: v = -d - 1; break;
      case 3: v = -d - 1 - static_cast<int64_t>(r.below(20)); break;
      default: v = far[r.below(7)]; break;
      }
      if (v > INT32_MAX || v < INT32_MIN || (v < d && v >= -d)) v = d > INT32_MAX ? INT32_MIN : INT32_MAX;
      if (v < d && v >= -d) sbad = false;
      s[k] = static_cast<int32_t>(v);
      uint64_t x;
      switch (r.below(6)) {
      case 0: x = shape[k]; break;
      case 1: x = shape[k] + r.below(10); break;
      case 2: x = ~0ull; break;
      case 3: x = (1ull << 32) + u[k]; break; // in range once truncated to 32 bits
      case 4: x = (1ull << 63) + u[k]; break;
      default: x = static_cast<uint64_t>(-static_cast<int64_t>(1 + r.below(shape[k] + 1))); break; // a negative index as size_t
      }
      if (x < shape[k]) ubad = false;
      u[k] = x;
      if (r.chance(30) && nd > 1) { size_t k2 = r.below(nd); if (k2 != k) { s[k2] = s[k] < 0 ? INT32_MAX : INT32_MIN; } } // two wrongs
    }
    auto no = [&](const char *how, const std::string &i, const std::function<void()> &f) {
      c.check(refused(f), "accepted-" + what, [&] { return desc + " " + i + " by " + how; });
    };
    if (sbad) {
      no("get", istr(s), [&] { (void)ct.get(s); });
      no("set", istr(s), [&] { t.set(s, marker<T>(7)); });
      no("ravel(int)", istr(s), [&] { ct.ravel(s); });
      if (s.size() <= 6) { no("operator()", istr(s), [&] { *call(t, s) = marker<T>(9); }); no("const operator()", istr(s), [&] { (void)*call(ct, s); }); }
    }
    if (ubad) {
      no("operator()(vector)", istr(u), [&] { t(u) = marker<T>(3); });
      no("const operator()(vector)", istr(u), [&] { (void)ct(u); });
      no("ravel(size_t)", istr(u), [&] { ct.ravel(u); });
    }
    c.seen(what);
  }
  c.check(same_values(before, t.values()), "refused-but-changed", desc);
  c.nontrivial(mix(fnv(shape.data(), nd * 8), static_cast<uint64_t>(fortran) * 100 + type_index<T>()));
  c.cover("dimensions", nd);
  c.sample(desc);
}

static void overflow(Ctx &c) {
  Rng &r = c.rng;
  Shape s;
  switch (r.below(7)) {
  case 0: s = {1ull << 32, 1ull << 32}; break;
  case 1: s = {(1ull << 32) + r.below(5), (1ull << 32)}; break;
  case 2: s = {1ull << 63, 2, r.range(1, 5)}; break;
  case 3: s = {~0ull, ~0ull}; break;
  case 4: s = Shape(r.range(64, 70), 2); break;
  case 5: s = {1ull << r.range(40, 62), 1ull << r.range(25, 62), r.range(1, 4)}; break;
  default: s = {1ull << r.range(45, 63)}; break; // too much for any memory, without wrapping
  }
  for (size_t k = s.size(); k > 1; --k) std::swap(s[k - 1], s[r.below(k)]);
  bool f = r.chance(50);
  std::string desc = shape_str(s);
  c.note(desc);
  with_type(static_cast<int>(r.below(NTYPES)), [&](auto g) {
    typedef typename decltype(g)::type T;
    c.check(refused([&] { npy::tensor<T> t(s, f); (void)t; }), "oversized-shape-accepted", [&] { return std::string(tinfo(type_index<T>()).code) + desc; });
    c.check(refused([&] { npy::tensor<T> t(s); (void)t; }), "oversized-shape-accepted", [&] { return std::string(tinfo(type_index<T>()).code) + desc; });
  });
  c.seen("oversized shapes refused");
  c.nontrivial(fnv(s.data(), s.size() * 8));
}

// more than 2^32 elements
static void huge(Ctx &c) {
  Rng &r = c.rng;
  g_alloc.cap = 1ull << 40;
  Shape shape;
  switch ((c.idx / 2) % 3) {
  case 0: shape = {65536 + r.range(1, 9), 65536}; break;
  case 1: shape = {2, 3, r.range(26800, 26900), 26800}; break;
  default: shape = {(1ull << 32) + r.range(1, 1000)}; break;
  }
  for (size_t k = shape.size(); k > 1; --k) std::swap(shape[k - 1], shape[r.below(k)]);
  bool fortran = c.idx % 2;
  std::string desc = "b" + shape_str(shape) + (fortran ? " column-major" : " row-major");
  c.note(desc);
  size_t n = count_of(shape), nd = shape.size();
  npy::tensor<npy::boolean> t(shape, fortran);
  const npy::tensor<npy::boolean> &ct = t;
  c.check(t.size() == n && t.shape() == shape && t.ndim() == nd && ct.values().size() == n, "huge-construction", desc);
  c.check(static_cast<size_t>(ct.end() - ct.begin()) == n, "huge-construction", desc);
  Shape idx(nd);
  for (int q = 0; q < 4000; ++q) {
    for (size_t k = 0; k < nd; ++k) idx[k] = q == 0 || r.chance(25) ? shape[k] - 1 : r.below(shape[k]);
    size_t want = ref_pos(shape, idx, fortran);
    if (want >> 32) c.seen("positions beyond 2^32");
    c.check(ct.ravel(idx) == want && static_cast<size_t>(&ct(idx) - ct.data()) == want && static_cast<size_t>(&t(idx) - ct.data()) == want, "huge-position",
            [&] { return desc + fmt(": position %zu, should be %zu", ct.ravel(idx), want); });
    std::vector<int32_t> s(nd);
    bool fits = true;
    for (size_t k = 0; k < nd; ++k) {
      int64_t v = static_cast<int64_t>(idx[k]);
      if (r.chance(50) || v > INT32_MAX) v -= static_cast<int64_t>(shape[k]);
      fits = fits && v >= INT32_MIN && v <= INT32_MAX;
      s[k] = static_cast<int32_t>(v);
    }
    if (!fits) continue;
    c.check(ct.ravel(s) == want && static_cast<size_t>(&ct.get(s) - ct.data()) == want && call(ct, s) == ct.data() + want, "huge-position", [&] { return desc + fmt(": should be %zu", want); });
    bool v = r.chance(50);
    t.set(s, npy::boolean(v));
    c.check(static_cast<bool>(ct.data()[want]) == v, "huge-set", desc);
  }
  for (size_t k = 0; k < nd; ++k) {
    Shape u(nd, 0);
    u[k] = shape[k];
    c.check(refused([&] { ct.ravel(u); }), "huge-accepted", desc);
  }
  c.nontrivial(mix(fnv(shape.data(), nd * 8), fortran));
  c.sample(desc);
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  if (c.mode == "huge") { huge(c); return; }
  if (c.mode == "overflow") { overflow(c); return; }
  int t = static_cast<int>(r.below(NTYPES));
  Shape shape;
  uint64_t i = c.idx;
  // every shape of up to three dimensions of 0..4 comes first
  if (i < 2 * (1 + 5 + 25 + 125)) {
    uint64_t k = i / 2;
    size_t nd = k < 1 ? 0 : k < 6 ? 1 : k < 31 ? 2 : 3;
    k -= nd == 0 ? 0 : nd == 1 ? 1 : nd == 2 ? 6 : 31;
    for (size_t q = 0; q < nd; ++q) { shape.push_back(k % 5); k /= 5; }
    if (nd == 0 && t == 0) t = 4;
    with_type(t, [&](auto g) { one<typename decltype(g)::type>(c, shape, i % 2); });
    return;
  }
  shape = r.chance(60) ? [&] { Shape s; for (size_t k = r.range(1, 6); k--;) s.push_back(r.range(1, r.chance(80) ? 5 : 11)); return s; }() : gen_shape(r, t == T_STR ? 2000 : 300000, false);
  while (count_of(shape) > 300000) shape.back() = 1;
  with_type(t, [&](auto g) { one<typename decltype(g)::type>(c, shape, r.chance(50)); });
}
