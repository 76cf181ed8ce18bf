// Type-erased tensors, archive generation and an independent ZIP codec.
#pragma once
#include "gen.h"
#include <memory>

namespace vt {

// ---- type-erased tensors ---------------------------------------------------
struct Item {
  int type = 0;
  std::vector<size_t> shape;
  bool fortran = false;
  virtual ~Item() {}
  virtual void write(npy::npzstringwriter &w, const std::string &name) const = 0;
  virtual void write(npy::npzfilewriter &w, const std::string &name) const = 0;
  // "" if reading gives exactly this tensor, else why not; throws what read throws
  virtual std::string read(npy::npzstringreader &r, const std::string &name, int style = 0) const = 0;
  virtual std::string read(npy::npzfilereader &r, const std::string &name, int style = 0) const = 0;
  virtual std::string load(std::istream &i) const = 0;
  virtual std::string load(const std::string &path) const = 0;
  virtual std::string npy(npy::endian_t en) const = 0;
  virtual void save(std::ostream &o, npy::endian_t en) const = 0;
  virtual void save(const std::string &path, npy::endian_t en) const = 0;
  virtual std::string payload(bool big) const = 0;
  virtual size_t width() const = 0;
  virtual size_t count() const = 0;
  std::string descr(bool big) const { return descr_of(type, big, width()); }
  std::string ref(bool big) const { return ref_npy(ref_dict(descr(big), fortran, shape), payload(big)); }
  std::string desc() const { return fmt("%s%s%s", tinfo(type).code, shape_str(shape).c_str(), fortran ? "F" : ""); }
  std::string same_header(const npy::header_info &h, bool big) const {
    if (h.dtype != tinfo(type).dtype) return "dtype";
    if (h.fortran_order != fortran) return "memory order";
    if (h.shape != shape) return "shape";
    if (tinfo(type).size > 1 && is_big(h.endianness) != big) return "byte order";
    if (h.max_element_length != width()) return "max_element_length";
    return "";
  }
};
typedef std::shared_ptr<Item> ItemP;

template <class T> struct ItemT : Item {
  std::vector<T> values;
  npy::tensor<T> tensor;
  ItemT(const std::vector<size_t> &s, bool f, std::vector<T> v) : values(std::move(v)), tensor(make_tensor(s, f, values)) {
    type = type_index<T>();
    shape = s;
    fortran = f;
  }
  std::string cmp(const npy::tensor<T> &t) const {
    std::string why;
    return same_tensor(t, shape, fortran, values, &why) ? "" : why;
  }
  void write(npy::npzstringwriter &w, const std::string &name) const override { w.write(name, tensor); }
  void write(npy::npzfilewriter &w, const std::string &name) const override { w.write(name, tensor); }
  template <class R> std::string rd(R &r, const std::string &name, int style) const {
    if (style == 1) return cmp(r.template read<T, npy::tensor>(name));
    return cmp(r.template read<npy::tensor<T>>(name));
  }
  std::string read(npy::npzstringreader &r, const std::string &name, int style) const override { return rd(r, name, style); }
  std::string read(npy::npzfilereader &r, const std::string &name, int style) const override { return rd(r, name, style); }
  std::string load(std::istream &i) const override { return cmp(npy::load<npy::tensor<T>>(i)); }
  std::string load(const std::string &p) const override { return cmp(npy::load<npy::tensor<T>>(p)); }
  std::string npy(npy::endian_t en) const override {
    std::ostringstream o;
    npy::save(o, tensor, en);
    return o.str();
  }
  void save(std::ostream &o, npy::endian_t en) const override { npy::save(o, tensor, en); }
  void save(const std::string &p, npy::endian_t en) const override { npy::save(p, tensor, en); }
  std::string payload(bool big) const override { return payload_of(values, big); }
  size_t width() const override { return width_of(values); }
  size_t count() const override { return values.size(); }
};

inline ItemP make_item(Rng &r, int t, const std::vector<size_t> &shape, bool fortran) {
  return with_type(t, [&](auto g) -> ItemP {
    typedef typename decltype(g)::type T;
    return std::make_shared<ItemT<T>>(shape, fortran, gen_values<T>(r, count_of(shape)));
  });
}
inline ItemP gen_item(Rng &r, size_t max_elems, bool numpy = false) {
  int t = static_cast<int>(r.below(NTYPES));
  std::vector<size_t> shape = gen_shape(r, t == T_STR ? std::min<size_t>(max_elems, 200) : max_elems, numpy);
  return make_item(r, t, shape, r.chance(50));
}
inline ItemP big_item(Rng &r, size_t lo, size_t hi) { // by bytes
  int t = static_cast<int>(r.below(NTYPES));
  return make_item(r, t, big_shape(r, log_uniform(r, lo, hi) / (t == T_STR ? 64 : static_cast<size_t>(tinfo(t).size)) + 1), r.chance(50));
}
inline ItemP small_item(Rng &r, uint8_t v) { // cheap and unique by value
  return std::make_shared<ItemT<uint8_t>>(std::vector<size_t>{1}, false, std::vector<uint8_t>{v});
  (void)r;
}
inline std::shared_ptr<ItemT<uint8_t>> bytes_item(const std::string &b) {
  return std::make_shared<ItemT<uint8_t>>(std::vector<size_t>{b.size()}, false, std::vector<uint8_t>(b.begin(), b.end()));
}
// read a member as some other type: must throw
template <class R> bool wrong_type_refused(R &r, const std::string &name, int t) {
  return with_type(t, [&](auto g) {
    try { r.template read<npy::tensor<typename decltype(g)::type>>(name); } catch (const std::exception &) { return true; }
    return false;
  });
}

// ---- names -----------------------------------------------------------------
inline bool has_suffix(const std::string &n) { return n.size() >= 4 && n.compare(n.size() - 4, 4, ".npy") == 0; }
inline std::string stored_name(const std::string &n) { return has_suffix(n) ? n : n + ".npy"; }
inline std::string gen_name(Rng &r) {
  static const char *const pool[] = {"a", "b", "ab", "a.npy", "b.npy", "a.npy.npy", "A", "", ".npy", "npy", "x.npyy", "x.np", "a.NPY", "aa", "z", "color", "depth.npy",
                                     "dir/a", "dir/a.npy", "../up", "/abs", "with space", "dot.", "a/b/c/d", "UPPER.npy", "\xc3\xa9t\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "n'q\"", "a\\b", "0", "arr_0", "arr_1", "arr_10", "PK"};
  switch (r.below(8)) {
  case 0: { // any bytes
    std::string s;
    for (size_t n = r.below(12); n--;) s += static_cast<char>(r.next());
    return s;
  }
  case 7: if (r.chance(60)) { // paths of all kinds
    static const char *const parts[] = {"a", "b", "/", "/", "//", ".", "..", "\\", ":", " ", "-", "_", "0", ".npy", "~", "%", "*", "?", "\n", "\t"};
    std::string s;
    for (size_t n = r.range(1, 6); n--;) s += parts[r.below(sizeof parts / sizeof *parts)];
    return s;
  } // fallthrough
  case 1: return std::string(r.range(1, 3), static_cast<char>(r.range('a', 'c'))) + (r.chance(50) ? ".npy" : "");
  case 2: return "k" + std::to_string(r.below(1000)) + (r.chance(50) ? ".npy" : "");
  case 3: if (r.chance(10)) { static const size_t lens[] = {255, 256, 257, 1000, 4096, 32768, 65531, 65535}; size_t n = lens[r.below(8)]; std::string s(n - 4, static_cast<char>('a' + r.below(26))); return s + ".npy"; } // fallthrough
  default: return pool[r.below(sizeof pool / sizeof *pool)];
  }
}

// ---- archive as a map ------------------------------------------------------
struct Model {
  std::vector<std::pair<std::string, ItemP>> writes; // stored names in order
  std::map<std::string, ItemP> map;
  void write(const std::string &name, const ItemP &it) { writes.emplace_back(stored_name(name), it); map[stored_name(name)] = it; }
  const Item *find(const std::string &q) const {
    auto i = map.find(q);
    if (i == map.end()) i = map.find(q + ".npy");
    return i == map.end() ? nullptr : i->second.get();
  }
  // "" if the listing is right: sorted, every name, nothing else
  std::string keys(const std::vector<std::string> &k) const {
    if (!std::is_sorted(k.begin(), k.end())) return "keys not sorted";
    std::set<std::string> got(k.begin(), k.end()), want;
    for (auto &m : map) want.insert(m.first);
    if (got != want) return fmt("keys differ: %zu listed, %zu written", got.size(), want.size());
    if (k.size() > writes.size()) return "keys listed too often";
    return "";
  }
};

// everything a reader says about a whole archive
template <class R> std::string whole(R &r, const Model &m, bool big, bool peek = true) {
  std::string w = m.keys(r.keys());
  if (!w.empty()) return w;
  for (auto &e : m.map) {
    if (!r.contains(e.first)) return "contains(" + e.first + ") is false";
    w = e.second->read(r, e.first);
    if (!w.empty()) return e.first + ": " + w;
    if (peek) { w = e.second->same_header(r.peek(e.first), big); if (!w.empty()) return e.first + ": peek " + w; }
  }
  return "";
}

// ---- independent ZIP reader and writer ---------------------------------------
struct Member {
  std::string name, raw, comp;
  int method = 0;
  // variations
  int flags = 0;           // bit 3: data descriptor
  std::string lextra, cextra, comment;
  int version = 20;
  bool descr_sig = true;
};
inline uint32_t ref_crc(const std::string &s) {
  static uint32_t tab[256];
  if (!tab[1]) for (uint32_t i = 0; i < 256; ++i) { uint32_t c = i; for (int k = 0; k < 8; ++k) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; tab[i] = c; }
  uint32_t c = ~0u;
  for (unsigned char b : s) c = tab[(c ^ b) & 255] ^ (c >> 8);
  return ~c;
}
// how to change four bytes of the data so that its checksum changes as wanted
struct CrcSolver {
  uint32_t source[32];
  CrcSolver(const std::string &data, size_t p) {
    uint32_t was = ref_crc(data), image[32]; // each change of one bit, and what it does to the checksum
    for (int b = 0; b < 32; ++b) {
      std::string x = data;
      x[p + b / 8] ^= static_cast<char>(1 << (b % 8));
      image[b] = ref_crc(x) ^ was;
      source[b] = 1u << b;
    }
    for (int b = 0; b < 32; ++b) { // solved for every bit of the checksum
      int q = b;
      while (q < 32 && !(image[q] >> b & 1)) ++q;
      if (q == 32) { fprintf(stderr, "singular\n"); exit(3); }
      std::swap(image[b], image[q]);
      std::swap(source[b], source[q]);
      for (int o = 0; o < 32; ++o) if (o != b && (image[o] >> b & 1)) { image[o] ^= image[b]; source[o] ^= source[b]; }
    }
  }
  void apply(char *at, uint32_t mask) const {
    uint32_t change = 0;
    for (int b = 0; b < 32; ++b) if (mask >> b & 1) change ^= source[b];
    for (int i = 0; i < 4; ++i) at[i] ^= static_cast<char>(change >> (8 * i));
  }
};
// bytes whose NPY file has that checksum
inline std::shared_ptr<ItemT<uint8_t>> crc_item(Rng &r, std::string b, uint32_t crc) {
  if (b.size() < 4) b.resize(4);
  std::string data = bytes_item(b)->npy(npy::endian_t::NATIVE);
  if (data.size() <= b.size()) return bytes_item(b);
  size_t head = data.size() - b.size(), p = r.below(b.size() - 3);
  CrcSolver(data, head + p).apply(&b[p], ref_crc(data) ^ crc);
  return bytes_item(b);
}
// checksums a program may take for something else
inline uint32_t odd_crc(Rng &r) {
  static const uint32_t v[] = {0, 0, 0xffffffff, 0xffffffff, 1, 0x80000000, 0x04034b50, 0x02014b50, 0x06054b50, 0x08074b50, 0xff, 0xff00, 0xffff, 0xffff0000, 0x8fffffff, 0x0a0a0d0a, 0xdeadbeef};
  return v[r.below(sizeof v / sizeof *v)];
}
inline std::string make_zip(const std::vector<Member> &ms, const std::string &comment = "") {
  std::string o, cd;
  for (auto &m : ms) {
    size_t off = o.size();
    uint32_t crc = ref_crc(m.raw);
    bool dd = m.flags & 8;
    std::string shared;
    put_int(shared, static_cast<uint64_t>(m.flags), 2, false);
    put_int(shared, static_cast<uint64_t>(m.method), 2, false);
    shared += std::string("\0\0\x21\0", 4);
    auto sizes = [&](bool zero) { std::string s; put_int(s, zero ? 0 : crc, 4, false); put_int(s, zero ? 0 : m.comp.size(), 4, false); put_int(s, zero ? 0 : m.raw.size(), 4, false); return s; };
    o += "PK\3\4";
    put_int(o, static_cast<uint64_t>(m.version), 2, false);
    o += shared + sizes(dd);
    put_int(o, m.name.size(), 2, false);
    put_int(o, m.lextra.size(), 2, false);
    o += m.name + m.lextra + m.comp;
    if (dd) { if (m.descr_sig) o += "PK\7\x08"; o += sizes(false); }
    cd += "PK\1\2";
    put_int(cd, 20, 2, false);
    put_int(cd, static_cast<uint64_t>(m.version), 2, false);
    cd += shared + sizes(false);
    put_int(cd, m.name.size(), 2, false);
    put_int(cd, m.cextra.size(), 2, false);
    put_int(cd, m.comment.size(), 2, false);
    put_int(cd, 0, 2, false);
    put_int(cd, 0, 2, false);
    put_int(cd, 0, 4, false);
    put_int(cd, off, 4, false);
    cd += m.name + m.cextra + m.comment;
  }
  size_t cdoff = o.size();
  o += cd;
  o += "PK\5\6";
  put_int(o, 0, 4, false);
  put_int(o, ms.size(), 2, false);
  put_int(o, ms.size(), 2, false);
  put_int(o, cd.size(), 4, false);
  put_int(o, cdoff, 4, false);
  put_int(o, comment.size(), 2, false);
  return o + comment;
}
inline Member stored_member(const std::string &name, const std::string &raw) { Member m; m.name = name; m.raw = m.comp = raw; return m; }

struct ZEntry { std::string name, data; int method; uint32_t crc; uint64_t csize, usize, offset; };
// classic archives only; throws std::string on anything out of place
inline std::vector<ZEntry> parse_zip(const std::string &b) {
  auto u = [&](size_t i, int n) { if (i + n > b.size()) throw std::string("record beyond the end"); uint64_t v = 0; for (int k = 0; k < n; ++k) v |= static_cast<uint64_t>(static_cast<unsigned char>(b[i + k])) << (8 * k); return v; };
  if (b.size() < 22 || b.compare(b.size() - 22, 4, "PK\5\6") != 0) throw std::string("no end record");
  size_t e = b.size() - 22, n = u(e + 8, 2), p = u(e + 16, 4);
  if (u(e + 10, 2) != n || u(e + 4, 4) != 0 || u(e + 20, 2) != 0) throw std::string("end record");
  if (p + u(e + 12, 4) != e) throw std::string("directory does not end at the end record");
  std::vector<ZEntry> out;
  size_t next = 0, cd = p;
  for (size_t k = 0; k < n; ++k) {
    if (u(p, 4) != 0x02014b50) throw std::string("central signature");
    ZEntry z;
    z.method = static_cast<int>(u(p + 10, 2));
    z.crc = static_cast<uint32_t>(u(p + 16, 4));
    z.csize = u(p + 20, 4);
    z.usize = u(p + 24, 4);
    size_t nl = u(p + 28, 2), xl = u(p + 30, 2), cl = u(p + 32, 2);
    z.offset = u(p + 42, 4);
    z.name = b.substr(p + 46, nl);
    size_t l = z.offset;
    if (l != next) throw std::string("member does not start where the last one ends");
    if (u(l, 4) != 0x04034b50) throw std::string("local signature");
    for (int q = 0; q < 26; ++q) if (b[l + 4 + q] != b[p + 6 + q]) if (q < 24) throw std::string("local and central headers differ");
    size_t lx = u(l + 28, 2);
    if (b.substr(l + 30, nl) != z.name) throw std::string("names differ");
    size_t d = l + 30 + nl + lx;
    if (d + z.csize > cd) throw std::string("data beyond the directory");
    z.data = b.substr(d, z.csize);
    next = d + z.csize;
    p += 46 + nl + xl + cl;
    out.push_back(z);
  }
  if (next != cd || p != e) throw std::string("gap in the archive");
  return out;
}

static const npy::compression_method_t METHODS[2] = {npy::compression_method_t::STORED, npy::compression_method_t::DEFLATED};

// a writer of either kind, built in one of several ways
struct AnyWriter {
  std::unique_ptr<npy::npzstringwriter> s;
  std::unique_ptr<npy::npzfilewriter> f;
  std::string path;
  AnyWriter(int kind, const std::string &p, npy::compression_method_t m, npy::endian_t en) : path(p) {
    if (kind == 0) s.reset(new npy::npzstringwriter(m, en));
    else if (kind == 1) f.reset(new npy::npzfilewriter(p, m, en));
    else if (kind == 2) f.reset(new npy::npzfilewriter(p.c_str(), m, en));
    else f.reset(new npy::npzfilewriter(std::filesystem::path(p), m, en));
  }
  void write(const std::string &n, const Item &it) { if (s) it.write(*s, n); else it.write(*f, n); }
  void close() { if (s) s->close(); else f->close(); }
  std::string bytes() { return s ? s->str() : slurp(path); } // once closed
};
struct AnyReader {
  std::unique_ptr<npy::npzstringreader> s;
  std::unique_ptr<npy::npzfilereader> f;
  AnyReader(int kind, const std::string &p, const std::string &bytes) {
    if (kind == 0) s.reset(new npy::npzstringreader(bytes));
    else if (kind == 1) { std::string copy = bytes; s.reset(new npy::npzstringreader(std::move(copy))); }
    else {
      if (!p.empty()) spew(p, bytes);
      if (kind == 2) f.reset(new npy::npzfilereader(p));
      else if (kind == 3) f.reset(new npy::npzfilereader(p.c_str()));
      else f.reset(new npy::npzfilereader(std::filesystem::path(p)));
    }
  }
  const std::vector<std::string> &keys() { return s ? s->keys() : f->keys(); }
  bool contains(const std::string &n) { return s ? s->contains(n) : f->contains(n); }
  npy::header_info peek(const std::string &n) { return s ? s->peek(n) : f->peek(n); }
  std::string read(const Item &it, const std::string &n, int style = 0) { return s ? it.read(*s, n, style) : it.read(*f, n, style); }
  bool wrong_type(const std::string &n, int t) { return s ? wrong_type_refused(*s, n, t) : wrong_type_refused(*f, n, t); }
  std::string whole(const Model &m, bool big, bool peek = true) { return s ? vt::whole(*s, m, big, peek) : vt::whole(*f, m, big, peek); }
};


// bytes whose NPY file is as long deflated as it is (plus more), if some are found
inline ItemP even_item(Rng &r, long more = 0) {
  std::string noise(r.range(40000, 150000), '\0');
  for (auto &b : noise) b = static_cast<char>(r.next());
  long k = 60;
  ItemP it;
  for (int tries = 0; tries < 60 && k >= 0; ++tries) {
    it = bytes_item(noise + std::string(static_cast<size_t>(k), '\7'));
    npy::npzstringwriter w(npy::compression_method_t::DEFLATED);
    it->write(w, "a");
    w.close();
    auto z = parse_zip(w.str());
    long off = static_cast<long>(z[0].csize) - static_cast<long>(z[0].usize) - more;
    if (!off) return it;
    k += off > 1 ? off * 3 / 4 + 1 : off < -1 ? off * 3 / 4 - 1 : off;
    if (tries % 8 == 7) { noise.resize(noise.size() - 3); k = static_cast<long>(r.range(0, 90)); }
  }
  return it;
}

} // namespace vt
