// Read operations of every kind on arbitrary bytes (C07; also used as a fuzz
// target). Results are consumed so that undefined bytes cannot go unnoticed.
#pragma once
#include "npz.h"

namespace vt {

struct Hostile {
  std::string work;
  uint64_t returned = 0, threw = 0;
  uint64_t sink = 0;
  // every byte decides a branch: memcheck reports the undefined ones
  void eat(const void *p, size_t n) {
    const unsigned char *c = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; ++i) if (c[i] & 1) sink += i; else sink ^= c[i];
  }
  void eat(const std::string &s) { eat(s.data(), s.size()); }
  void eat(const npy::header_info &h) {
    if (h.dtype == npy::data_type_t::UNICODE_STRING) sink += 3;
    if (h.endianness == npy::endian_t::BIG) sink += 5;
    if (h.fortran_order) sink += 7;
    for (size_t d : h.shape) if (d & 1) sink += d;
    if (h.max_element_length & 1) sink += 11;
  }
  template <class T> void eat_tensor(const npy::tensor<T> &t) {
    for (size_t d : t.shape()) if (d & 1) sink += d;
    if (t.fortran_order()) ++sink;
    if constexpr (std::is_same_v<T, std::wstring>) for (auto &s : t.values()) eat(s.data(), s.size() * sizeof(wchar_t));
    else eat(t.values().data(), t.size() * sizeof(T));
    // and through the accessors
    if (t.size() && t.ndim() < 8) {
      std::vector<size_t> z(t.ndim(), 0);
      const T &x = t(z);
      if (&x == t.data()) ++sink;
    }
  }
  template <class F> bool attempt(F f) {
    try { f(); } catch (const std::exception &) { ++threw; return false; }
    ++returned;
    return true;
  }
  template <class F> void stream_op(const std::string &b, F f) { std::istringstream in(b); attempt([&] { f(in); }); }
  void npy_bytes(const std::string &b, int t) {
    bool peeked = false;
    int seen = -1;
    stream_op(b, [&](std::istream &i) { auto h = npy::peek(i); eat(h); peeked = true; for (int k = 0; k < NTYPES; ++k) if (tinfo(k).dtype == h.dtype) seen = k; });
    with_type(t, [&](auto g) { stream_op(b, [&](std::istream &i) { eat_tensor(npy::load<npy::tensor<typename decltype(g)::type>>(i)); }); });
    if (seen >= 0 && seen != t) with_type(seen, [&](auto g) { stream_op(b, [&](std::istream &i) { eat_tensor(npy::load<npy::tensor<typename decltype(g)::type>>(i)); }); });
  }
  void npy_file(const std::string &b, int t) {
    std::string p = work + "/h.npy";
    spew(p, b);
    attempt([&] { eat(npy::peek(p)); });
    with_type(t, [&](auto g) { attempt([&] { eat_tensor(npy::load<npy::tensor<typename decltype(g)::type>>(p)); }); });
  }
  void dict(const std::string &b) { attempt([&] { eat(npy::header_info(b)); }); }
  void dtype(const std::string &b) { attempt([&] { auto d = npy::from_dtype(b); if (d.first == npy::data_type_t::BOOL) ++sink; if (d.second == npy::endian_t::BIG) ++sink; }); }
  template <class R> void reader(R &r, int t) {
    std::vector<std::string> names;
    attempt([&] { names = r.keys(); });
    names.push_back("a");
    names.push_back("");
    size_t n = 0;
    for (auto &k : names) {
      if (++n > 40) break;
      eat(k);
      int seen = -1;
      attempt([&] { if (r.contains(k)) ++sink; });
      attempt([&] { auto h = r.peek(k); eat(h); for (int q = 0; q < NTYPES; ++q) if (tinfo(q).dtype == h.dtype) seen = q; });
      with_type(seen >= 0 ? seen : t, [&](auto g) { attempt([&] { eat_tensor(r.template read<npy::tensor<typename decltype(g)::type>>(k)); }); });
    }
    with_type(t, [&](auto g) { attempt([&] { eat_tensor(r.template read<npy::tensor<typename decltype(g)::type>>(names[0])); }); });
  }
  void npz_bytes(const std::string &b, int t) { attempt([&] { npy::npzstringreader r(b); reader(r, t); }); }
  void npz_file(const std::string &b, int t) {
    std::string p = work + "/h.npz";
    spew(p, b);
    attempt([&] { npy::npzfilereader r(p); reader(r, t); });
  }
  // b as the compressed data of a member
  void inflate(const std::string &b, size_t usize, uint32_t crc, int t) {
    std::string z("PK\3\4\x14\0\0\0\x08\0\0\0\x21\0", 14), cd("PK\1\2\x14\0\x14\0\0\0\x08\0\0\0\x21\0", 16), f;
    put_int(f, crc, 4, false);
    put_int(f, b.size(), 4, false);
    put_int(f, usize, 4, false);
    put_int(f, 5, 2, false);
    put_int(f, 0, 2, false);
    z += f + "a.npy" + b;
    cd += f + std::string(14, '\0') + "a.npy";
    cd.replace(38, 4, std::string(4, '\0'));
    std::string e("PK\5\6\0\0\0\0\1\0\1\0", 12);
    put_int(e, cd.size(), 4, false);
    put_int(e, z.size(), 4, false);
    npz_bytes(z + cd + e + std::string(2, '\0'), t);
  }
  void fuzz(const uint8_t *d, size_t n) {
    if (n < 2) return;
    int target = d[0] % 8, t = d[1] % NTYPES;
    std::string b(reinterpret_cast<const char *>(d + 2), n - 2);
    one(target, t, b);
  }
  static const char *target_name(int k) { static const char *n[] = {"npy stream", "npy file", "header dictionary", "dtype string", "archive in memory", "archive file", "compressed member", "compressed member, right CRC unknown size"}; return n[k]; }
  void one(int target, int t, const std::string &b) {
    switch (target) {
    case 0: npy_bytes(b, t); break;
    case 1: npy_file(b, t); break;
    case 2: dict(b); break;
    case 3: dtype(b); break;
    case 4: npz_bytes(b, t); break;
    case 5: npz_file(b, t); break;
    default: {
      // the last six bytes say what the headers claim
      size_t us = 0;
      uint32_t crc = 0;
      std::string c = b;
      if (c.size() >= 8) {
        const unsigned char *q = reinterpret_cast<const unsigned char *>(c.data() + c.size() - 8);
        us = q[0] | q[1] << 8 | q[2] << 16;
        if (q[3] & 1) us = q[0] | q[1] << 8 | q[2] << 16 | static_cast<size_t>(q[3]) << 24;
        memcpy(&crc, q + 4, 4);
        c.resize(c.size() - 8);
      }
      inflate(c, us, crc, t);
    }
    }
  }
};

} // namespace vt
