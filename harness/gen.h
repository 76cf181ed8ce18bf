// Generators of tensors and an independent NPY codec used as the oracle.
#pragma once
#include "common.h"

namespace vt {

template <class T> struct tag { typedef T type; };

enum { NTYPES = 14, T_BOOL = 12, T_STR = 13 };

template <class F> decltype(auto) with_type(int t, F &&f) {
  switch (t) {
  case 0: return f(tag<std::int8_t>{});
  case 1: return f(tag<std::uint8_t>{});
  case 2: return f(tag<std::int16_t>{});
  case 3: return f(tag<std::uint16_t>{});
  case 4: return f(tag<std::int32_t>{});
  case 5: return f(tag<std::uint32_t>{});
  case 6: return f(tag<std::int64_t>{});
  case 7: return f(tag<std::uint64_t>{});
  case 8: return f(tag<float>{});
  case 9: return f(tag<double>{});
  case 10: return f(tag<std::complex<float>>{});
  case 11: return f(tag<std::complex<double>>{});
  case 12: return f(tag<npy::boolean>{});
  default: return f(tag<std::wstring>{});
  }
}

struct TypeInfo { const char *code; int size; int comp; npy::data_type_t dtype; };
inline const TypeInfo &tinfo(int t) {
  using d = npy::data_type_t;
  static const TypeInfo k[NTYPES] = {
      {"i1", 1, 1, d::INT8},    {"u1", 1, 1, d::UINT8},   {"i2", 2, 2, d::INT16},      {"u2", 2, 2, d::UINT16},
      {"i4", 4, 4, d::INT32},   {"u4", 4, 4, d::UINT32},  {"i8", 8, 8, d::INT64},      {"u8", 8, 8, d::UINT64},
      {"f4", 4, 4, d::FLOAT32}, {"f8", 8, 8, d::FLOAT64}, {"c8", 8, 4, d::COMPLEX64},  {"c16", 16, 8, d::COMPLEX128},
      {"b1", 1, 1, d::BOOL},    {"U", 4, 4, d::UNICODE_STRING}};
  return k[t];
}

template <class T> constexpr int type_index() {
  if constexpr (std::is_same_v<T, std::int8_t>) return 0;
  else if constexpr (std::is_same_v<T, std::uint8_t>) return 1;
  else if constexpr (std::is_same_v<T, std::int16_t>) return 2;
  else if constexpr (std::is_same_v<T, std::uint16_t>) return 3;
  else if constexpr (std::is_same_v<T, std::int32_t>) return 4;
  else if constexpr (std::is_same_v<T, std::uint32_t>) return 5;
  else if constexpr (std::is_same_v<T, std::int64_t>) return 6;
  else if constexpr (std::is_same_v<T, std::uint64_t>) return 7;
  else if constexpr (std::is_same_v<T, float>) return 8;
  else if constexpr (std::is_same_v<T, double>) return 9;
  else if constexpr (std::is_same_v<T, std::complex<float>>) return 10;
  else if constexpr (std::is_same_v<T, std::complex<double>>) return 11;
  else if constexpr (std::is_same_v<T, npy::boolean>) return 12;
  else return 13;
}

inline bool host_big() { return false; } // x86-64 sandbox

// ---- shapes ---------------------------------------------------------------
inline size_t count_of(const std::vector<size_t> &shape) {
  size_t n = 1;
  for (size_t d : shape) if (d == 0) return 0;
  for (size_t d : shape) n *= d;
  return n;
}
inline std::string shape_str(const std::vector<size_t> &s) {
  std::string o = "(";
  for (size_t i = 0; i < s.size() && i < 12; ++i) o += std::to_string(s[i]) + ",";
  if (s.size() > 12) o += "..x" + std::to_string(s.size());
  return o + ")";
}

// numpy: at most 64 dimensions and bounded products of the nonzero dimensions
inline std::vector<size_t> gen_shape(Rng &r, size_t max_elems, bool numpy) {
  std::vector<size_t> s;
  static const size_t edges[] = {0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257,
                                 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001, 16384,
                                 32767, 32768, 65535, 65536, 65537, 99999, 100000, 131072, 262144, 999999, 1000000, 1048576};
  for (int tries = 0; tries < 20; ++tries) {
    s.clear();
    switch (r.below(8)) {
    case 0: break; // scalar
    case 1: s.push_back(r.below(300)); break;
    case 2: s.push_back(edges[r.below(sizeof edges / sizeof *edges)]); if (r.chance(30)) s.push_back(r.range(1, 3)); if (r.chance(30)) s.insert(s.begin(), r.range(1, 3)); break;
    case 3: { size_t nd = r.range(2, 5); for (size_t i = 0; i < nd; ++i) s.push_back(r.range(1, 9)); break; }
    case 4: { // zero-length dimensions next to large ones
      size_t nd = r.range(1, 6);
      for (size_t i = 0; i < nd; ++i) {
        int digits = static_cast<int>(r.range(1, numpy ? 4 : 19));
        uint64_t v = r.range(1, 9);
        for (int k = 1; k < digits; ++k) v = v * 10 + r.below(10);
        s.push_back(v);
      }
      s[r.below(nd)] = 0;
      break;
    }
    case 5: { // many dimensions
      size_t nd = r.range(6, 64);
      for (size_t i = 0; i < nd; ++i) s.push_back(1);
      for (int k = 0; k < 5; ++k) s[r.below(nd)] = r.range(1, 3);
      break;
    }
    case 6: { // even more of them
      size_t nd = numpy ? r.range(20, 64) : r.range(65, r.chance(10) ? 3000 : 300);
      for (size_t i = 0; i < nd; ++i) s.push_back(1);
      for (int k = 0; k < 4; ++k) s[r.below(nd)] = r.range(1, 4);
      break;
    }
    default: { size_t nd = r.range(1, 4); for (size_t i = 0; i < nd; ++i) s.push_back(r.chance(60) ? r.range(1, 6) : r.range(1, 120)); break; }
    }
    bool ok = true;
    size_t n = 1;
    for (size_t d : s) { if (d == 0) { n = 0; break; } }
    if (n) for (size_t d : s) { if (n > max_elems / d) { ok = false; break; } n *= d; }
    if (numpy) { // what its strides can express
      size_t m = 1;
      for (size_t d : s) { if (d > 1 && m > (1ull << 44) / d) { ok = false; break; } m *= d ? d : 1; }
    }
    if (ok) return s;
  }
  return {r.range(1, 5)};
}

// shapes whose header lengths sweep every residue: index in [0, sweep_count)
inline size_t sweep_count() { return 44 * 6; }
inline std::vector<size_t> sweep_shape(size_t i) {
  std::vector<size_t> s;
  size_t ones = i % 44, digits = i / 44;
  for (size_t k = 0; k < ones; ++k) s.push_back(1);
  if (digits) { size_t v = 1; for (size_t k = 1; k < digits; ++k) v *= 10; if (digits > 4) s.push_back(0); s.push_back(v); }
  return s;
}

// ---- values ---------------------------------------------------------------
inline std::wstring gen_wstring(Rng &r, size_t maxlen, bool nul = true) {
  std::wstring w;
  size_t n = r.chance(15) ? 0 : r.range(0, maxlen);
  int style = static_cast<int>(r.below(5));
  for (size_t i = 0; i < n; ++i) {
    uint32_t c;
    switch (style == 4 ? static_cast<int>(r.below(4)) : style) {
    case 0: c = static_cast<uint32_t>(r.range(32, 126)); break;
    case 1: c = static_cast<uint32_t>(r.range(0x80, 0x7ff)); break;
    case 2: c = static_cast<uint32_t>(r.range(0x800, 0xd7ff)); break;
    default: c = static_cast<uint32_t>(r.range(0x10000, 0x10ffff)); break;
    }
    if (nul && r.chance(4)) c = 0;
    w.push_back(static_cast<wchar_t>(c));
  }
  if (r.chance(10) && !w.empty()) w[0] = static_cast<wchar_t>(r.chance(50) ? 0x10ffff : 0xff00);
  while (!w.empty() && w.back() == 0) w.back() = L'x'; // a trailing NUL is padding in the format
  return w;
}

template <class T> T from_bits(uint64_t a, uint64_t b) {
  T t;
  if constexpr (std::is_same_v<T, std::complex<float>>) {
    float p, q; uint32_t x = static_cast<uint32_t>(a), y = static_cast<uint32_t>(b);
    memcpy(&p, &x, 4); memcpy(&q, &y, 4); float arr[2] = {p, q}; memcpy(&t, arr, 8);
  } else if constexpr (std::is_same_v<T, std::complex<double>>) {
    uint64_t arr[2] = {a, b}; memcpy(&t, arr, 16);
  } else {
    memcpy(&t, &a, sizeof(T));
  }
  return t;
}

template <class T> std::vector<T> gen_values(Rng &r, size_t n) {
  std::vector<T> v;
  v.reserve(n);
  if constexpr (std::is_same_v<T, std::wstring>) {
    size_t maxlen = r.chance(8) ? r.range(30, n < 50 ? 1200 : 40) : r.range(0, 9);
    if (n > 2000) maxlen = std::min<size_t>(maxlen, 4);
    for (size_t i = 0; i < n; ++i) v.push_back(gen_wstring(r, maxlen));
  } else if constexpr (std::is_same_v<T, npy::boolean>) {
    int p = static_cast<int>(r.below(101));
    for (size_t i = 0; i < n; ++i) v.push_back(npy::boolean(r.chance(p)));
  } else {
    static const uint64_t f32[] = {0, 0x80000000u, 1, 0x007fffff, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7f800001u, 0xffc12345u, 0x3f800000u, 0x7f7fffffu, 0x00800000u};
    static const uint64_t f64[] = {0, 0x8000000000000000ull, 1, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7ff0000000000001ull, 0xfff8123456789abcull, 0x3ff0000000000000ull, 0x7fefffffffffffffull, 0x000fffffffffffffull};
    static const uint64_t in[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0x0102030405060708ull, 0x0a0d0a0d1a1a0a0dull, 0x0a0a0a0a0a0a0a0aull, 0x2020202020202020ull};
    int style = static_cast<int>(r.below(4));
    uint64_t base = r.next();
    for (size_t i = 0; i < n; ++i) {
      uint64_t a, b;
      if (style == 0) { a = r.next(); b = r.next(); }
      else if (style == 1) { a = base + i; b = base - i; }
      else {
        constexpr int ti = type_index<T>();
        auto sp = [&]() -> uint64_t {
          if (r.chance(30)) return r.next();
          if (ti == 8 || ti == 10) return f32[r.below(sizeof f32 / 8)];
          if (ti == 9 || ti == 11) return f64[r.below(sizeof f64 / 8)];
          return in[r.below(sizeof in / 8)];
        };
        a = sp(); b = sp();
      }
      v.push_back(from_bits<T>(a, b));
    }
  }
  return v;
}

template <class T> npy::tensor<T> make_tensor(const std::vector<size_t> &shape, bool fortran, const std::vector<T> &values) {
  npy::tensor<T> t(shape, fortran);
  // deliberately not copy_from: element by element through the iterator
  size_t i = 0;
  for (auto it = t.begin(); it != t.end(); ++it, ++i) *it = values[i];
  return t;
}

// ---- independent encoding of elements -------------------------------------
template <class T> size_t width_of(const std::vector<T> &v) {
  size_t w = 0;
  if constexpr (std::is_same_v<T, std::wstring>) for (auto &s : v) w = std::max(w, s.size());
  else (void)v;
  return w;
}

inline void put_int(std::string &o, uint64_t v, int size, bool big) {
  for (int i = 0; i < size; ++i) o += static_cast<char>(v >> (8 * (big ? size - 1 - i : i)));
}
template <class T> void put_elem(std::string &o, const T &x, bool big, size_t width) {
  if constexpr (std::is_same_v<T, std::wstring>) {
    for (size_t i = 0; i < width; ++i) put_int(o, i < x.size() ? static_cast<uint32_t>(x[i]) : 0, 4, big);
  } else if constexpr (std::is_same_v<T, npy::boolean>) {
    o += static_cast<char>(x ? 1 : 0);
  } else {
    const int comp = tinfo(type_index<T>()).comp;
    const char *p = reinterpret_cast<const char *>(&x);
    for (size_t k = 0; k < sizeof(T) / comp; ++k) {
      uint64_t v = 0;
      memcpy(&v, p + k * comp, comp); // the sandbox is little-endian
      put_int(o, v, comp, big);
    }
  }
}
template <class T> std::string payload_of(const std::vector<T> &v, bool big) {
  std::string o;
  size_t w = width_of(v);
  for (auto &x : v) put_elem(o, x, big, w);
  return o;
}
template <class T> std::string payload_of(const npy::tensor<T> &t, bool big) { return payload_of(t.values(), big); }

inline bool is_big(npy::endian_t e) { return e == npy::endian_t::BIG || (e == npy::endian_t::NATIVE && host_big()); }

inline std::string descr_of(int t, bool big, size_t width) {
  std::string c = tinfo(t).code;
  if (t == T_STR) return std::string(big ? ">" : "<") + "U" + std::to_string(width);
  return std::string(tinfo(t).size == 1 ? "|" : big ? ">" : "<") + c;
}
// a shape whose header dictionary is that many characters long
inline std::vector<size_t> shape_for_dict(size_t length, int type, bool big, bool fortran) {
  std::string rest = "{'descr': '" + descr_of(type, big, 1) + "', 'fortran_order': " + (fortran ? "True" : "False") + ", 'shape': (), }";
  size_t room = length - rest.size() + 2, nd = room / 3; // "1, " each, the last without a comma
  std::vector<size_t> s(nd, 1);
  if (room % 3) s[nd - 1] = room % 3 == 1 ? 10 : 100;
  return s;
}

// any number from lo to hi, each order of magnitude as likely as another
inline size_t log_uniform(Rng &r, size_t lo, size_t hi) {
  size_t top = lo;
  while (top < hi && r.chance(80)) top *= 2;
  return std::min(hi, r.range(std::max(lo, top / 2), std::max(lo, top)));
}
// a shape of about n elements, n being large
inline std::vector<size_t> big_shape(Rng &r, size_t n) {
  switch (r.below(4)) {
  case 0: { size_t a = r.range(1, 50); return {a, n / a + 1}; }
  case 1: { size_t a = r.range(1, 50); return {n / a + 1, a}; }
  case 2: { size_t a = r.range(1, 9), b = r.range(1, 9); return {a, n / (a * b) + 1, b}; }
  default: return {n};
  }
}

inline std::string py_shape(const std::vector<size_t> &s) {
  std::string o = "(";
  for (size_t i = 0; i < s.size(); ++i) o += (i ? ", " : "") + std::to_string(s[i]);
  if (s.size() == 1) o += ",";
  return o + ")";
}

// an NPY file made without the library
inline std::string ref_npy(const std::string &dict, const std::string &payload, int version = 1, size_t align = 64) {
  std::string h = dict;
  size_t stat = version == 1 ? 10 : 12;
  size_t total = stat + h.size() + 1;
  size_t pad = (align - total % align) % align;
  h += std::string(pad, ' ') + "\n";
  std::string o("\x93NUMPY", 6);
  o += static_cast<char>(version);
  o += '\0';
  put_int(o, h.size(), version == 1 ? 2 : 4, false);
  return o + h + payload;
}
inline std::string ref_dict(const std::string &descr, bool fortran, const std::vector<size_t> &shape) {
  return "{'descr': '" + descr + "', 'fortran_order': " + (fortran ? "True" : "False") + ", 'shape': " + py_shape(shape) + ", }";
}

// ---- strict parser of what the library wrote ------------------------------
struct Parsed {
  bool ok = false;
  std::string error, descr;
  bool fortran = false;
  std::vector<size_t> shape;
  size_t data = 0; // offset of the payload
  int version = 0;
};
inline Parsed parse_npy(const std::string &b) {
  Parsed p;
  auto bad = [&](const std::string &e) { p.error = e; return p; };
  if (b.size() < 10 || b.compare(0, 6, std::string("\x93NUMPY", 6)) != 0) return bad("magic");
  p.version = static_cast<unsigned char>(b[6]);
  if ((p.version != 1 && p.version != 2) || b[7] != 0) return bad("version");
  auto u = [&](size_t i) { return static_cast<size_t>(static_cast<unsigned char>(b[i])); };
  size_t len, off;
  if (p.version == 1) { len = u(8) | u(9) << 8; off = 10; }
  else { if (b.size() < 12) return bad("short"); len = u(8) | u(9) << 8 | u(10) << 16 | u(11) << 24; off = 12; }
  if (off + len > b.size()) return bad("header longer than file");
  if ((off + len) % 64) return bad("header not aligned to 64 bytes");
  std::string h = b.substr(off, len);
  if (h.empty() || h.back() != '\n') return bad("header not newline-terminated");
  h.pop_back();
  while (!h.empty() && h.back() == ' ') h.pop_back();
  size_t i = 0;
  bool has[3] = {false, false, false};
  auto ws = [&] { while (i < h.size() && h[i] == ' ') ++i; };
  auto lit = [&](const char *s) { size_t n = strlen(s); if (h.compare(i, n, s) == 0) { i += n; return true; } return false; };
  if (!lit("{")) return bad("dict");
  for (;;) {
    ws();
    if (lit("}")) break;
    if (!lit("'")) return bad("key quote");
    size_t e = h.find('\'', i);
    if (e == std::string::npos) return bad("key");
    std::string key = h.substr(i, e - i);
    i = e + 1; ws();
    if (!lit(":")) return bad("colon");
    ws();
    if (key == "descr" && !has[0]) {
      has[0] = true;
      if (!lit("'")) return bad("descr");
      e = h.find('\'', i);
      if (e == std::string::npos) return bad("descr");
      p.descr = h.substr(i, e - i);
      i = e + 1;
    } else if (key == "fortran_order" && !has[1]) {
      has[1] = true;
      if (lit("True")) p.fortran = true; else if (lit("False")) p.fortran = false; else return bad("fortran_order");
    } else if (key == "shape" && !has[2]) {
      has[2] = true;
      if (!lit("(")) return bad("shape");
      bool comma = true;
      size_t n = 0;
      for (;;) {
        ws();
        if (lit(")")) { if (n == 1 && !comma) return bad("1-tuple without comma"); break; }
        if (!comma) return bad("shape comma");
        size_t st = i;
        unsigned __int128 v = 0;
        while (i < h.size() && h[i] >= '0' && h[i] <= '9') { v = v * 10 + static_cast<unsigned>(h[i] - '0'); if (v >> 64) return bad("shape overflow"); ++i; }
        if (st == i) return bad("shape digit");
        if (i - st > 1 && h[st] == '0') return bad("leading zero");
        p.shape.push_back(static_cast<size_t>(v));
        ++n; ws();
        comma = lit(",");
      }
    } else return bad("key " + key);
    ws();
    if (!lit(",")) { ws(); if (!lit("}")) return bad("separator"); break; }
  }
  if (i != h.size()) return bad("trailing garbage in header");
  if (!has[0] || !has[1] || !has[2]) return bad("missing key");
  p.data = off + len;
  p.ok = true;
  return p;
}

// ---- comparison ------------------------------------------------------------
template <class T> bool same_bits(const T &a, const T &b) {
  if constexpr (std::is_same_v<T, std::wstring>) return a == b;
  else if constexpr (std::is_same_v<T, npy::boolean>) return a.value == b.value;
  else return memcmp(&a, &b, sizeof(T)) == 0;
}
template <class T> bool same_values(const std::vector<T> &a, const std::vector<T> &b) {
  if (a.size() != b.size()) return false;
  if constexpr (std::is_same_v<T, std::wstring>) return a == b;
  else return a.empty() || memcmp(static_cast<const void *>(a.data()), static_cast<const void *>(b.data()), a.size() * sizeof(T)) == 0;
}
template <class T> size_t first_diff(const std::vector<T> &a, const std::vector<T> &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && same_bits(a[i], b[i])) ++i;
  return i;
}
template <class T> bool same_tensor(const npy::tensor<T> &a, const std::vector<size_t> &shape, bool fortran, const std::vector<T> &v, std::string *why = nullptr) {
  std::string w;
  if (a.shape() != shape) w = "shape " + shape_str(a.shape()) + " != " + shape_str(shape);
  else if (a.fortran_order() != fortran) w = "memory order differs";
  else if (a.dtype() != tinfo(type_index<T>()).dtype) w = "dtype differs";
  else if (a.size() != v.size()) w = fmt("size %zu != %zu", a.size(), v.size());
  else if (!same_values(a.values(), v)) w = fmt("element %zu of %zu differs", first_diff(a.values(), v), v.size());
  if (w.empty()) return true;
  if (why) *why = w;
  return false;
}

static const npy::endian_t ENDIANS[3] = {npy::endian_t::NATIVE, npy::endian_t::LITTLE, npy::endian_t::BIG};

// an input that cannot seek and hands out few bytes at a time, like a pipe
class DripBuf : public std::streambuf {
public:
  DripBuf(const std::string &s, size_t step) : m_s(s), m_step(step ? step : 1) {}
  size_t consumed() const { return m_pos - static_cast<size_t>(egptr() - gptr()); }

protected:
  int_type underflow() override {
    if (m_pos >= m_s.size()) return traits_type::eof();
    size_t n = std::min(m_step, m_s.size() - m_pos);
    m_buf.assign(m_s, m_pos, n);
    m_pos += n;
    setg(&m_buf[0], &m_buf[0], &m_buf[0] + n);
    return traits_type::to_int_type(m_buf[0]);
  }

private:
  std::string m_s, m_buf;
  size_t m_pos = 0, m_step;
};
// an output that cannot seek
class SinkBuf : public std::streambuf {
public:
  std::string data;

protected:
  int_type overflow(int_type c) override { if (c != traits_type::eof()) data += static_cast<char>(c); return c == traits_type::eof() ? 0 : c; }
  std::streamsize xsputn(const char *s, std::streamsize n) override { data.append(s, static_cast<size_t>(n)); return n; }
};

} // namespace vt
