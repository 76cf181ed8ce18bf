// C03: files made by NumPy, read by the library. The expected values come in
// the record with the file.
#include "gen.h"
using namespace vt;

template <class T> std::vector<T> decode(const std::string &le, size_t n, size_t width) {
  std::vector<T> v(n);
  if constexpr (std::is_same_v<T, std::wstring>) {
    for (size_t i = 0; i < n; ++i) {
      for (size_t k = 0; k < width; ++k) { uint32_t u; memcpy(&u, &le[(i * width + k) * 4], 4); v[i].push_back(static_cast<wchar_t>(u)); }
      while (!v[i].empty() && v[i].back() == 0) v[i].pop_back();
    }
  } else if constexpr (std::is_same_v<T, npy::boolean>) {
    for (size_t i = 0; i < n; ++i) v[i] = npy::boolean(le[i] != 0);
  } else if (n) memcpy(static_cast<void *>(v.data()), le.data(), n * sizeof(T));
  return v;
}

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

void run_case(Ctx &c) {
  // one case per record file
  RecordReader rr;
  if (!rr.open(c.args["in"] + "/" + std::to_string(c.idx) + ".rec")) { fprintf(stderr, "no record file\n"); exit(3); }
  std::vector<std::string> f;
  size_t n = 0;
  while (rr.get(f)) {
    // type, big, fortran, shape csv, width, expected, file, description
    int t = atoi(f[0].c_str());
    bool big = f[1] == "1", fortran = f[2] == "1";
    std::vector<size_t> shape;
    std::stringstream ss(f[3]);
    std::string tok;
    while (std::getline(ss, tok, ',')) if (!tok.empty()) shape.push_back(strtoull(tok.c_str(), nullptr, 10));
    size_t width = strtoull(f[4].c_str(), nullptr, 10);
    const std::string &desc = f[7], &bytes = f[6];
    c.note(desc);
    ++n;
    c.evals++;
    with_type(t, [&](auto g) {
      typedef typename decltype(g)::type T;
      std::vector<T> want = decode<T>(f[5], count_of(shape), width);
      std::string key = std::string("read-") + tinfo(t).code;
      auto ck = [&](auto load, const char *how) {
        try {
          npy::tensor<T> got = load();
          std::string why;
          c.check(same_tensor(got, shape, fortran, want, &why), key, [&] { return desc + " via " + how + ": " + why; });
        } catch (const std::exception &e) {
          c.check(false, key + "-refused", desc + " via " + how + ": " + e.what());
        }
      };
      ck([&] { std::istringstream i(bytes); return npy::load<npy::tensor<T>>(i); }, "stream");
      ck([&] { std::istringstream i(bytes); i.exceptions(std::ios::badbit | std::ios::failbit); return npy::load<npy::tensor<T>>(i); }, "throwing stream");
      if (n % 4 == 0) ck([&] { DripBuf d(bytes, c.rng.range(1, 700)); std::istream i(&d); return npy::load<npy::tensor<T>>(i); }, "unseekable stream");
      std::string p = c.path("x.npy");
      if (n % 4 == 1) { spew(p, bytes); ck([&] { return npy::load<npy::tensor<T>>(p); }, "path"); ck([&] { return npy::load<T, npy::tensor>(p); }, "path2"); }
      auto ckpeek = [&](auto peek, const char *how) {
        try {
          npy::header_info h = peek();
          std::string why;
          if (h.dtype != tinfo(t).dtype) why = "dtype";
          else if (h.fortran_order != fortran) why = "order";
          else if (h.shape != shape) why = "shape";
          else if (tinfo(t).size > 1 && is_big(h.endianness) != big) why = "endianness";
          else if (h.max_element_length != (t == T_STR ? width : 0)) why = "max_element_length";
          c.check(why.empty(), "peek", [&] { return desc + " via " + how + ": " + why; });
        } catch (const std::exception &e) {
          c.check(false, "peek-refused", desc + " via " + how + ": " + e.what());
        }
      };
      ckpeek([&] { std::istringstream i(bytes); return npy::peek(i); }, "stream");
      if (n % 4 == 1) ckpeek([&] { return npy::peek(p); }, "path");
    });
    c.cover("type x endian x order", fmt("%s %d %d", tinfo(t).code, big, fortran));
    c.cover("dimensions", shape.size());
    c.seen("format version " + std::to_string(static_cast<int>(bytes[6])));
    c.nontrivial(fnv(bytes));
    if (n % 50 == 7) c.sample(desc);
  }
  c.evals--; // the case itself
}
