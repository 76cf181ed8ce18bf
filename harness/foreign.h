// Archives of other writers, generated by py/ziporacle.py, with the tensors in them.
#pragma once
#include "npz.h"

namespace vt {

template <class T> std::vector<T> decode(const std::string &le, size_t n, size_t width) {
  std::vector<T> v(n);
  if constexpr (std::is_same_v<T, std::wstring>) {
    for (size_t i = 0; i < n; ++i) {
      for (size_t k = 0; k < width; ++k) { uint32_t u; memcpy(&u, &le[(i * width + k) * 4], 4); v[i].push_back(static_cast<wchar_t>(u)); }
      while (!v[i].empty() && v[i].back() == 0) v[i].pop_back();
    }
  } else if constexpr (std::is_same_v<T, npy::boolean>) {
    for (size_t i = 0; i < n; ++i) v[i] = npy::boolean(le[i] != 0);
  } else if (n) memcpy(static_cast<void *>(v.data()), le.data(), n * sizeof(T));
  return v;
}

struct Foreign {
  bool refuse;
  std::string bytes, desc;
  Model m;
  std::map<std::string, size_t> widths;
  std::map<std::string, bool> bigs;
  Foreign(const std::vector<std::string> &f) : refuse(f[0] == "X"), bytes(f[1]), desc(f[2]) {
    for (size_t i = 3; i + 7 <= f.size(); i += 7) {
      int t = atoi(f[i + 1].c_str());
      std::vector<size_t> shape;
      std::stringstream ss(f[i + 4]);
      std::string tok;
      while (std::getline(ss, tok, ',')) if (!tok.empty()) shape.push_back(strtoull(tok.c_str(), nullptr, 10));
      size_t width = strtoull(f[i + 5].c_str(), nullptr, 10);
      ItemP it = with_type(t, [&](auto g) -> ItemP {
        typedef typename decltype(g)::type T;
        return std::make_shared<ItemT<T>>(shape, f[i + 3] == "1", decode<T>(f[i + 6], count_of(shape), width));
      });
      m.write(f[i], it);
      widths[f[i]] = width;
      bigs[f[i]] = f[i + 2] == "1";
    }
  }
  std::string same_header(const std::string &name, const npy::header_info &h) const {
    const Item &it = *m.map.at(name);
    if (h.dtype != tinfo(it.type).dtype || h.fortran_order != it.fortran || h.shape != it.shape) return "peek";
    if (tinfo(it.type).size > 1 && is_big(h.endianness) != bigs.at(name)) return "peek byte order";
    if (h.max_element_length != widths.at(name)) return "peek element length";
    return "";
  }
};

} // namespace vt
