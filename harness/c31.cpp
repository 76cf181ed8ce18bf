// C31: arrays put together and taken apart with the documented building blocks
// (write_npy_header, write_values, header_info, read_npy_header, read_values,
// to_dtype, the tensor's own save and load), in pieces of any size, against
// the bytes and values of save and load.
#include "gen.h"
#include <memory>
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

// 0 = p0 <= p1 <= ... <= n
static std::vector<size_t> cuts(Rng &r, size_t n) {
  std::vector<size_t> p{0, n};
  switch (r.below(4)) {
  case 0: break; // whole
  case 1: if (n && n <= 400) for (size_t i = 1; i < n; ++i) p.push_back(i); break; // one at a time
  case 2: { size_t step = r.range(1, n + 1); for (size_t i = step; i < n; i += std::max<size_t>(step, n / 64 + 1)) p.push_back(i); break; }
  default: for (size_t k = r.below(9); k--;) p.push_back(r.below(n + 1)); // empty pieces included
  }
  std::sort(p.begin(), p.end());
  return p;
}
static const char *const WHERE[] = {"stringstream", "file", "unseekable"};


template <class T> static void one(Ctx &c, int type, const std::vector<size_t> &shape) {
  Rng &r = c.rng;
  const size_t n = count_of(shape);
  bool f = r.chance(50);
  npy::endian_t en = ENDIANS[r.below(3)], other = ENDIANS[r.below(3)];
  std::vector<T> values = gen_values<T>(r, n);
  size_t width = 0;
  bool trimmed = false; // NULs at the end of a string are its padding: they do not come back
  std::vector<T> readback = values;
  bool even = true; // pieces of strings keep the width only if they all have it
  if constexpr (std::is_same_v<T, std::wstring>) {
    if (r.chance(60)) {
      size_t len = r.below(9);
      bool pad = r.chance(30);
      for (auto &s : values) {
        s.resize(len, L'x');
        if (len && s.back() == 0) s.back() = L'y';
        if (pad && r.chance(60)) for (size_t k = r.below(len + 1); k < len; ++k) s[k] = 0; // as wide as the others, but padded by its owner
      }
    }
    width = width_of(values);
    for (auto &s : values) if (s.size() != width) even = false;
    readback = values;
    for (auto &s : readback) while (!s.empty() && s.back() == 0) { s.pop_back(); trimmed = true; }
  }
  const std::string D = fmt("type=%s shape=%s fortran=%d endian=%d", tinfo(type).code, shape_str(shape).c_str(), f, static_cast<int>(en));
  c.note(D);
  c.cover("type", type);
  npy::tensor<T> t = make_tensor(shape, f, values);
  const std::string bytes = [&] { std::ostringstream o; npy::save(o, t, en); return o.str(); }();
  const std::string payload = payload_of(values, is_big(en));
  const std::string dict = ref_dict(descr_of(type, is_big(en), width), f, shape);
  c.check(bytes.size() >= payload.size() && bytes.compare(bytes.size() - payload.size(), payload.size(), payload) == 0, "save-payload", D);
  const size_t data = bytes.size() - payload.size();
  std::string dtype;
  if constexpr (std::is_same_v<T, std::wstring>) dtype = (is_big(en) ? ">U" : "<U") + std::to_string(width);
  else dtype = npy::to_dtype(tinfo(type).dtype, en);
  c.check(dtype == t.dtype(en), "dtype-string", [&] { return D + ": " + dtype + " and " + t.dtype(en); });

  // ---- put together
  for (int how = 0; how < 3; ++how) {
    std::string before(r.chance(50) ? r.below(40) : 0, 'p');
    std::ostringstream ss;
    std::ofstream fs;
    SinkBuf sink;
    std::ostream us(&sink);
    const std::string path = c.path("b.npy");
    if (how == 1) fs.open(path, std::ios::binary);
    std::ostream &o = how == 0 ? static_cast<std::ostream &>(ss) : how == 1 ? fs : us;
    o << before;
    npy::write_npy_header(o, dtype, f, shape);
    std::vector<size_t> p = even ? cuts(r, n) : std::vector<size_t>{0, n};
    int by = static_cast<int>(r.below(3));
    if (by == 2) t.save(o, en);
    else for (size_t i = 0; i + 1 < p.size(); ++i) {
      if constexpr (std::is_same_v<T, std::wstring>) if (p[i] == p[i + 1]) continue;
      npy::write_values(o, values.data() + p[i], p[i + 1] - p[i], en);
    }
    c.check(o.good(), "write-state", [&] { return D + " " + WHERE[how]; });
    if (how == 1) fs.close();
    std::string got = how == 0 ? ss.str() : how == 1 ? slurp(path) : sink.data;
    c.check(got == before + bytes, "assembled-bytes", [&] { return D + fmt(" %s, %zu pieces, by %d: %zu bytes, saved %zu ", WHERE[how], p.size() - 1, by, got.size() - before.size(), bytes.size()) + hex(got, 300); });
    c.seen(fmt("arrays assembled on %s by %s", WHERE[how], by == 2 ? "header + tensor.save" : p.size() > 2 ? "header + pieces" : "header + one write"));
  }
  // ---- headers from every source
  struct H { std::string from; npy::header_info h; };
  std::vector<H> hs;
  { std::istringstream i(bytes); hs.push_back({"read_npy_header", npy::read_npy_header(i)}); c.check(static_cast<size_t>(i.tellg()) == data, "header-position", D); }
  { std::istringstream i(bytes); hs.push_back({"peek", npy::peek(i)}); }
  spew(c.path("h.npy"), bytes);
  hs.push_back({"peek path", npy::peek(c.path("h.npy"))});
  hs.push_back({"dictionary", npy::header_info(dict)});
  for (int native = 0; native < 2; ++native) {
    npy::endian_t e = native && !is_big(en) ? npy::endian_t::NATIVE : is_big(en) ? npy::endian_t::BIG : npy::endian_t::LITTLE;
    npy::header_info h(tinfo(type).dtype, e, f, shape);
    c.check(h.dtype == tinfo(type).dtype && is_big(h.endianness) == is_big(e) && h.fortran_order == f && h.shape == shape && h.max_element_length == 0, "constructed-header", D);
    h.max_element_length = width;
    hs.push_back({native ? "constructed, native" : "constructed", h});
  }
  { npy::header_info copy(hs[r.below(hs.size())].h), assigned(npy::data_type_t::INT8, npy::endian_t::BIG, !f, {9, 9}); assigned = copy; hs.push_back({"copied", copy}); hs.push_back({"assigned", assigned}); }
  for (auto &h : hs) {
    bool same = h.h.dtype == tinfo(type).dtype && h.h.fortran_order == f && h.h.shape == shape && h.h.max_element_length == width && (tinfo(type).size == 1 || is_big(h.h.endianness) == is_big(en));
    c.check(same, "header", [&] { return D + " from " + h.from; });
    // ---- taken apart
    int how = static_cast<int>(r.below(3));
    std::string raw = payload + "rest", whole = std::string(data, 'h') + raw;
    std::unique_ptr<DripBuf> drip;
    std::unique_ptr<std::istream> in;
    if (how == 0) in.reset(new std::istringstream(whole));
    else if (how == 1) { spew(c.path("r.bin"), whole); in.reset(new std::ifstream(c.path("r.bin"), std::ios::binary)); }
    else { drip.reset(new DripBuf(whole, r.range(1, 500))); in.reset(new std::istream(drip.get())); }
    in->ignore(static_cast<std::streamsize>(data));
    std::vector<size_t> p = cuts(r, n);
    const std::string E = [&] { return D + " header from " + h.from + " on " + WHERE[how] + fmt(", %zu pieces", p.size() - 1); }();
    if (r.chance(25)) {
      npy::tensor<T> back = npy::tensor<T>::load(*in, h.h);
      std::string why;
      c.check(same_tensor(back, shape, f, readback, &why), "tensor-load", [&] { return E + ": " + why; });
      c.seen("tensors loaded with " + h.from);
    } else {
      const size_t guard = r.range(1, 5);
      std::vector<T> got = gen_values<T>(r, n + 2 * guard);
      std::vector<T> was = got;
      for (size_t i = 0; i + 1 < p.size(); ++i) npy::read_values(*in, got.data() + guard + p[i], p[i + 1] - p[i], h.h);
      std::vector<T> mid(got.begin() + static_cast<ptrdiff_t>(guard), got.begin() + static_cast<ptrdiff_t>(guard + n));
      c.check(same_values(mid, readback), "read-values", E);
      bool quiet = true;
      for (size_t i = 0; i < guard; ++i) quiet = quiet && same_values(std::vector<T>{got[i], got[guard + n + i]}, std::vector<T>{was[i], was[guard + n + i]});
      c.check(quiet, "neighbours-changed", E);
      c.seen("values read with " + h.from);
    }
    c.check(in->good(), "read-state", E);
    std::string rest(4, ' ');
    in->read(&rest[0], 4);
    c.check(rest == "rest", "read-position", E);
  }
  // ---- an array converted on its way from stream to stream, a piece at a time
  {
    std::istringstream in(bytes);
    std::ostringstream o;
    npy::header_info h = npy::read_npy_header(in);
    std::string to;
    if constexpr (std::is_same_v<T, std::wstring>) to = (is_big(other) ? ">U" : "<U") + std::to_string(h.max_element_length);
    else to = npy::to_dtype(h.dtype, other);
    npy::write_npy_header(o, to, h.fortran_order, h.shape);
    std::vector<size_t> p = even && !trimmed ? cuts(r, n) : std::vector<size_t>{0, n};
    for (size_t i = 0; i + 1 < p.size(); ++i) {
      std::vector<T> part(p[i + 1] - p[i]);
      npy::read_values(in, part.data(), part.size(), h);
      if (!part.empty()) npy::write_values(o, part.data(), part.size(), other);
    }
    std::ostringstream want;
    npy::save(want, t, other);
    if (!trimmed) c.check(o.str() == want.str(), "converted-bytes", [&] { return D + fmt(" to endian %d in %zu pieces", static_cast<int>(other), p.size() - 1); });
    c.seen("arrays converted in pieces");
  }
  c.nontrivial(fnv(bytes));
  c.sample(D);
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  int type = static_cast<int>(c.idx % NTYPES);
  with_type(type, [&](auto g) {
    typedef typename decltype(g)::type T;
    std::vector<size_t> shape = c.mode == "large" ? big_shape(r, log_uniform(r, 30000, 6000000) / (type == T_STR ? 64 : static_cast<size_t>(tinfo(type).size)) + 1) : gen_shape(r, type == T_STR ? 200 : r.chance(5) ? 30000 : 500, false);
    one<T>(c, type, shape);
  });
}
