// C34: a program using the library, built in many ways. Nothing of the other harnesses is
// used: every expression here has one value, whatever the compiler, standard or options.
#pragma once
#include "npy/npy.h"
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

struct Rnd {
  std::uint64_t s;
  explicit Rnd(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  std::uint64_t next() {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return s * 0x2545F4914F6CDD1Dull;
  }
  std::size_t below(std::size_t n) { return static_cast<std::size_t>((next() >> 11) % n); }
};
inline std::uint64_t digest(const void *p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
  const unsigned char *b = static_cast<const unsigned char *>(p);
  for (std::size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
inline std::uint64_t digest(const std::string &s) { return digest(s.data(), s.size()); }

// where the class layouts seen by the two files of this program are compared
struct Layout {
  std::size_t sizes[16];
  int count;
};
inline Layout layout() {
  Layout l = {};
  const std::size_t s[] = {sizeof(npy::header_info), sizeof(npy::file_entry), sizeof(npy::npzstringwriter), sizeof(npy::npzfilewriter), sizeof(npy::npzstringreader), sizeof(npy::npzfilereader),
                           sizeof(npy::tensor<float>), sizeof(npy::tensor<std::wstring>), sizeof(npy::boolean), sizeof(npy::data_type_t), sizeof(npy::endian_t), sizeof(npy::compression_method_t)};
  l.count = static_cast<int>(sizeof s / sizeof s[0]);
  for (int i = 0; i < l.count; ++i) l.sizes[i] = s[i];
  return l;
}

// in the other file, built with the library's own options
Layout other_layout();
std::string other_save(const npy::tensor<std::int32_t> &t, npy::endian_t e);
npy::tensor<std::int32_t> other_load(const std::string &bytes);
npy::tensor<std::wstring> other_strings(const std::vector<std::wstring> &v);
void other_write(npy::npzstringwriter &w, const std::string &name, const npy::tensor<double> &t);
void other_write(npy::npzfilewriter &w, const std::string &name, const npy::tensor<double> &t);
npy::tensor<double> other_read(npy::npzstringreader &r, const std::string &name);
npy::tensor<double> other_read(npy::npzfilereader &r, const std::string &name);
npy::header_info other_header(const std::string &dictionary);
