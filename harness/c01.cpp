// C01: NPY round trip. Oracle: the tensor that was saved, bit for bit.
#include "gen.h"
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

// save<T, TENSOR>(path, tensor), if it accepts a tensor at all
template <class T, class X> auto save_as(const std::string &p, X &t, npy::endian_t en, int) -> decltype(npy::save<T, npy::tensor>(p, t, en), true) {
  npy::save<T, npy::tensor>(p, t, en);
  return true;
}
template <class T, class X> bool save_as(const std::string &, X &, npy::endian_t, long) { return false; }

template <class T> static void one(Ctx &c, const std::vector<size_t> &shape, bool fortran, npy::endian_t en, int route) {
  Rng &r = c.rng;
  const int t = type_index<T>();
  std::vector<T> values = gen_values<T>(r, count_of(shape));
  npy::tensor<T> src = make_tensor(shape, fortran, values);
  std::string desc = fmt("type=%s shape=%s fortran=%d endian=%d route=%d", tinfo(t).code, shape_str(shape).c_str(), fortran, static_cast<int>(en), route);
  c.note(desc);
  std::string key = std::string("roundtrip-") + tinfo(t).code;
  auto ck = [&](const npy::tensor<T> &got, const char *how) {
    std::string why;
    c.check(same_tensor(got, shape, fortran, values, &why), key, [&] { return desc + " via " + how + ": " + why; });
  };
  c.seen(std::string("type ") + tinfo(t).code);
  std::string bytes;
  if (route == 0) { // string streams
    std::ostringstream o;
    npy::save(o, src, en);
    bytes = o.str();
    std::istringstream i(bytes);
    ck(npy::load<npy::tensor<T>>(i), "stream");
  } else if (route == 1) { // streams which cannot seek
    SinkBuf sink;
    std::ostream o(&sink);
    npy::save<T, npy::tensor>(o, src, en);
    bytes = sink.data;
    DripBuf in(bytes, r.range(1, 4096));
    std::istream i(&in);
    ck(npy::load<npy::tensor<T>>(i), "unseekable stream");
  } else if (route == 2) { // paths
    std::string p = c.path(fmt("f%llu.npy", static_cast<unsigned long long>(c.shard)));
    const npy::tensor<T> &view = src;
    if (r.chance(25)) c.check(save_as<T>(p, src, en, 0), "template-save", "npy::save<T, TENSOR>(path, tensor) does not accept a tensor");
    else if (r.chance(20)) c.check(save_as<T>(p, view, en, 0), "template-save", "npy::save<T, TENSOR>(path, tensor) does not accept a const tensor");
    else if (r.chance(20)) npy::save(p, view, en);
    else npy::save(p, src, en);
    bytes = slurp(p);
    ck(npy::load<npy::tensor<T>>(p), "path");
    ck(npy::tensor<T>::from_file(p), "from_file");
    ck((npy::load<T, npy::tensor>(p)), "load<T,TENSOR>");
    unlink(p.c_str());
  } else { // member functions, overwriting a longer file
    std::string p = c.path(fmt("g%llu.npy", static_cast<unsigned long long>(c.shard)));
    if (r.chance(50)) spew(p, std::string(r.below(200000), 'z'));
    src.save(p, en);
    bytes = slurp(p);
    std::ifstream i(p, std::ios::binary);
    ck(npy::load<npy::tensor<T>>(i), "member save, stream load");
  }
  // the saved tensor itself is not disturbed
  c.check(same_tensor(src, shape, fortran, values), key + "-source-changed", desc);
  // payload size is what shape and type say: nothing dropped, nothing extra
  size_t w = t == T_STR ? 4 * width_of(values) : static_cast<size_t>(tinfo(t).size);
  c.check(bytes.size() >= values.size() * w && (bytes.size() - values.size() * w) % 64 == 0, key + "-size", desc);
  Parsed p = parse_npy(bytes);
  if (p.ok) {
    size_t e = p.data - 1;
    while (e && bytes[e - 1] == ' ') --e;
    c.cover("header length modulo 64", e % 64);
    c.cover("header blocks", p.data / 64);
    c.cover("dimensions", shape.size());
  }
  c.cover("type x endian x order", fmt("%s %d %d", tinfo(t).code, static_cast<int>(en), fortran));
  c.nontrivial(fnv(bytes));
  if (!values.empty()) c.seen("elements", values.size());
  c.sample(desc + " -> " + std::to_string(bytes.size()) + " bytes");
}

// more than 4 GiB: the bytes are checked as they are written and made up as they are read
template <class T> static T huge_value(uint64_t i) { return static_cast<T>((i * 0x9e3779b97f4a7c15ull) >> 40); }

class HugeBuf : public std::streambuf {
public:
  explicit HugeBuf(std::string *header) : m_header(header) {}
  uint64_t total = 0, wrong = ~0ull; // bytes seen; position of the first wrong one
  std::function<void(uint64_t, char *, size_t)> payload; // the payload bytes that should be there
  uint64_t data_at = 0, size = 0;

protected:
  int_type overflow(int_type c) override {
    sync();
    m_out.resize(BLOCK);
    setp(&m_out[0], &m_out[0] + m_out.size());
    return c == traits_type::eof() ? 0 : sputc(static_cast<char>(c));
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override { sync(); take(s, static_cast<size_t>(n)); return n; }
  int sync() override {
    size_t n = static_cast<size_t>(pptr() - pbase());
    setp(nullptr, nullptr);
    take(m_out.data(), n);
    return 0;
  }
  int_type underflow() override {
    uint64_t all = data_at + size;
    if (total >= all) return traits_type::eof();
    m_buf.resize(BLOCK);
    size_t n;
    if (total < data_at) { n = m_header->size() - total; memcpy(&m_buf[0], m_header->data() + total, n); }
    else { n = static_cast<size_t>(std::min<uint64_t>(BLOCK, all - total)); payload(total - data_at, &m_buf[0], n); }
    total += n;
    setg(&m_buf[0], &m_buf[0], &m_buf[0] + n);
    return traits_type::to_int_type(m_buf[0]);
  }

private:
  static constexpr size_t BLOCK = 65536;
  void take(const char *s, size_t n) {
    while (n) {
      if (total < data_at || data_at == 0) { // the header says itself how long it is
        *m_header += *s++;
        --n;
        if (++total == 10) data_at = 10 + static_cast<unsigned char>((*m_header)[8]) + 256u * static_cast<unsigned char>((*m_header)[9]);
        continue;
      }
      size_t k = static_cast<size_t>(std::min<uint64_t>(n, BLOCK));
      m_buf.resize(BLOCK);
      uint64_t at = total - data_at;
      uint64_t in = at >= size ? 0 : std::min<uint64_t>(k, size - at);
      payload(at, &m_buf[0], static_cast<size_t>(in));
      if (wrong == ~0ull && (in < k || memcmp(&m_buf[0], s, k))) wrong = total;
      total += k;
      s += k;
      n -= k;
    }
  }
  std::string *m_header, m_buf, m_out;
};

template <class T> static void huge(Ctx &c, npy::endian_t en) {
  Rng &r = c.rng;
  std::vector<size_t> shape{((1ull << 32) / sizeof(T)) + r.range(1, 100000)};
  if (r.chance(50)) shape = {65536 / sizeof(T), 65536 + r.range(1, 9)};
  bool fortran = r.chance(50);
  std::string desc = fmt("type=%s shape=%s fortran=%d endian=%d, huge", tinfo(type_index<T>()).code, shape_str(shape).c_str(), fortran, static_cast<int>(en));
  c.note(desc);
  size_t n = count_of(shape);
  auto fill = [&](uint64_t at, char *out, size_t k) {
    size_t i = 0;
    if (at % sizeof(T) == 0) {
      bool swap = en == npy::endian_t::BIG;
      for (uint64_t e = at / sizeof(T); i + sizeof(T) <= k; i += sizeof(T), ++e) {
        T v = huge_value<T>(e);
        if (swap) { char *p = reinterpret_cast<char *>(&v); std::reverse(p, p + sizeof v); }
        memcpy(out + i, &v, sizeof(T));
      }
    }
    while (i < k) {
      T v = huge_value<T>((at + i) / sizeof(T));
      if (en == npy::endian_t::BIG) { char *p = reinterpret_cast<char *>(&v); std::reverse(p, p + sizeof v); }
      size_t off = (at + i) % sizeof(T), m = std::min(sizeof(T) - off, k - i);
      memcpy(out + i, reinterpret_cast<char *>(&v) + off, m);
      i += m;
    }
  };
  std::string header;
  {
    npy::tensor<T> src(shape, fortran);
    T *d = src.data();
    for (size_t i = 0; i < n; ++i) d[i] = huge_value<T>(i);
    HugeBuf sink(&header);
    sink.payload = fill;
    sink.size = n * sizeof(T);
    std::ostream o(&sink);
    npy::save(o, src, en);
    o.flush();
    c.check(sink.total == sink.data_at + sink.size && sink.wrong == ~0ull, "huge-save",
            [&] { return desc + fmt(": %llu bytes written, first wrong %llu", (unsigned long long)sink.total, (unsigned long long)sink.wrong); });
    c.seen("huge bytes written", sink.total);
  }
  HugeBuf source(&header);
  source.payload = fill;
  source.size = n * sizeof(T);
  source.data_at = header.size();
  std::istream in(&source);
  std::string w;
  try {
    npy::tensor<T> got = npy::load<npy::tensor<T>>(in);
    if (got.shape() != shape || got.fortran_order() != fortran || got.size() != n) w = "shape or order";
    const T *d = got.data();
    for (size_t i = 0; w.empty() && i < n; ++i) if (d[i] != huge_value<T>(i)) w = fmt("element %zu", i);
  } catch (const std::exception &e) { w = e.what(); }
  c.check(w.empty(), "huge-load", [&] { return desc + ": " + w; });
  c.nontrivial(fnv(header));
  c.sample(desc);
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  if (c.mode == "huge") {
    switch (c.idx % 4) {
    case 0: huge<int8_t>(c, npy::endian_t::NATIVE); break;
    case 1: huge<double>(c, npy::endian_t::BIG); break;
    case 2: huge<uint16_t>(c, npy::endian_t::BIG); break;
    default: huge<uint32_t>(c, npy::endian_t::LITTLE); break;
    }
    return;
  }
  uint64_t i = c.idx;
  const uint64_t sweep = sweep_count();
  bool fortran = r.chance(50);
  npy::endian_t en = ENDIANS[r.below(3)];
  if (c.mode == "large") { // many elements
    static const size_t sizes[] = {65535, 65536, 65537, 131071, 262145, 524288, 524289, 1048575, 1048576, 1048577, 1500001, 2097152, 2097153, 4194305};
    int t = static_cast<int>(i % NTYPES);
    size_t n = sizes[r.below(sizeof sizes / sizeof *sizes)];
    if (t == T_STR) n = std::min<size_t>(n, 262145);
    if (c.arg("max", 0)) n = std::min<size_t>(n, c.arg("max", 0));
    std::vector<size_t> shape{n};
    if (r.chance(40)) shape = {2, n / 2};
    if (r.chance(20)) shape = {n / 3, 1, 3};
    with_type(t, [&](auto g) { one<typename decltype(g)::type>(c, shape, fortran, ENDIANS[(i / NTYPES) % 3], static_cast<int>(r.below(4))); });
    return;
  }
  if (i < sweep) {
    int t = static_cast<int>(r.below(NTYPES));
    with_type(t, [&](auto g) { one<typename decltype(g)::type>(c, sweep_shape(i), fortran, en, static_cast<int>(r.below(4))); });
    return;
  }
  i -= sweep;
  if (i < 50) { // dictionaries around 64 KiB, every length with several seeds
    int t = static_cast<int>(i % (NTYPES - 1));
    if (t == T_STR) t = NTYPES - 1;
    auto s = shape_for_dict(65420 + r.below(140), t, is_big(en), fortran);
    with_type(t, [&](auto g) { one<typename decltype(g)::type>(c, s, fortran, en, static_cast<int>(r.below(4))); });
    return;
  }
  i -= 50;
  if (i < 8) { // dictionaries around and beyond 64 KiB
    std::vector<size_t> shape(i < 4 ? 21780 + i * 14 : 20000 + r.below(20000), 1);
    with_type(static_cast<int>(r.below(NTYPES)), [&](auto g) { one<typename decltype(g)::type>(c, shape, fortran, en, static_cast<int>(r.below(4))); });
    return;
  }
  i -= 8;
  // every type, byte order and memory order in turn
  int t = static_cast<int>(i % NTYPES);
  en = ENDIANS[(i / NTYPES) % 3];
  fortran = (i / (NTYPES * 3)) % 2;
  std::vector<size_t> shape = gen_shape(r, t == T_STR ? 3000 : 20000, false);
  with_type(t, [&](auto g) { one<typename decltype(g)::type>(c, shape, fortran, en, static_cast<int>(r.below(4))); });
}
