// C13: the codec, with zlib as the second implementation.
#include "npz.h"
#include <zlib.h>
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

static std::string payload(Rng &r, size_t n, int style) {
  std::string s;
  s.reserve(n + 300);
  switch (style) {
  case 0: s.assign(n, static_cast<char>(r.chance(60) ? 0 : r.next())); break;
  case 1: while (s.size() < n) { uint64_t v = r.next(); s.append(reinterpret_cast<char *>(&v), 8); } break;
  case 2: { // periodic
    static const size_t ps[] = {2, 3, 4, 8, 255, 256, 257, 258, 259, 260, 1000, 4096, 32505, 32506, 32507, 32766, 32767, 32768, 32769, 33000, 65535, 65536};
    size_t p = r.chance(60) ? ps[r.below(sizeof ps / sizeof *ps)] : r.range(2, 70000);
    std::string unit;
    while (unit.size() < p) { uint64_t v = r.next(); unit.append(reinterpret_cast<char *>(&v), 8); }
    unit.resize(p);
    while (s.size() < n) s += unit;
    break;
  }
  case 3: { // text-like
    static const char *const w[] = {"the ", "quick ", "brown ", "fox ", "jumps ", "0.0, ", "1.0, ", "\n", "tensor ", "aaaaaaaaaaaaaaaa"};
    while (s.size() < n) s += w[r.below(10)];
    break;
  }
  case 4: // runs of every length
    while (s.size() < n) s.append(r.chance(70) ? r.range(1, 300) : r.range(1, 3), static_cast<char>(r.next()));
    break;
  case 5: { // alternating compressible and incompressible stretches
    bool z = r.chance(50);
    while (s.size() < n) {
      size_t k = r.range(1, 150000);
      if (z) s.append(k, static_cast<char>(r.next()));
      else for (size_t i = 0; i < k; i += 8) { uint64_t v = r.next(); s.append(reinterpret_cast<char *>(&v), 8); }
      z = !z;
    }
    break;
  }
  case 6: { // Fibonacci frequencies: the longest Huffman codes
    std::string pool;
    uint64_t a = 1, b = 1;
    for (int k = 0; k < 22 && pool.size() < n; ++k) { pool.append(std::min<uint64_t>(a, n), static_cast<char>(k * 7)); uint64_t t = a + b; a = b; b = t; }
    while (s.size() < n) s += pool[r.below(pool.size())];
    break;
  }
  case 7: { // counters
    uint32_t v = static_cast<uint32_t>(r.next());
    while (s.size() < n) { s.append(reinterpret_cast<char *>(&v), 4); v += static_cast<uint32_t>(r.chance(90) ? 1 : r.below(1000)); }
    break;
  }
  case 8: { // doubles
    double v = 0;
    while (s.size() < n) { v += static_cast<double>(r.below(100)) / 7; s.append(reinterpret_cast<char *>(&v), 8); }
    break;
  }
  default: { // copies of earlier stretches at far distances
    while (s.size() < n) {
      if (s.size() > 40 && r.chance(60)) {
        size_t d = std::min<size_t>(s.size(), r.chance(40) ? r.range(32500, 32800) : r.range(1, 40000)), l = r.chance(40) ? r.range(255, 260) : r.range(3, 600);
        size_t st = s.size() - d;
        for (size_t i = 0; i < l; ++i) s += s[st + i];
      } else for (size_t k = r.range(1, 20000); k--;) s += static_cast<char>(r.next());
    }
  }
  }
  s.resize(n);
  return s;
}

// false if b is not one complete DEFLATE stream without anything after it
static bool zinflate(const std::string &b, std::string &out) {
  z_stream z;
  memset(&z, 0, sizeof z);
  if (inflateInit2(&z, -15) != Z_OK) exit(3);
  std::vector<unsigned char> buf(1 << 20);
  z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(b.data()));
  z.avail_in = static_cast<uInt>(b.size());
  int ret;
  out.clear();
  do {
    z.next_out = buf.data();
    z.avail_out = static_cast<uInt>(buf.size());
    ret = inflate(&z, Z_NO_FLUSH);
    out.append(reinterpret_cast<char *>(buf.data()), buf.size() - z.avail_out);
  } while (ret == Z_OK);
  bool ok = ret == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  return ok;
}

static std::string zdeflate(Rng &r, const std::string &raw, std::string &how) {
  z_stream z;
  memset(&z, 0, sizeof z);
  int level = static_cast<int>(r.below(11)) - 1, wbits = r.chance(50) ? 15 : static_cast<int>(r.range(9, 15)), mem = static_cast<int>(r.range(1, 9)), strat = static_cast<int>(r.below(5));
  if (deflateInit2(&z, level, Z_DEFLATED, -wbits, mem, strat) != Z_OK) { wbits = 15; if (deflateInit2(&z, level, Z_DEFLATED, -15, mem, strat) != Z_OK) exit(3); }
  bool flush = r.chance(30);
  how = fmt("zlib level=%d wbits=%d mem=%d strategy=%d flush=%d", level, wbits, mem, strat, flush);
  std::string out;
  std::vector<unsigned char> buf(1 << 20);
  size_t i = 0;
  int ret;
  do {
    size_t n = flush ? std::min<size_t>(raw.size() - i, r.range(1, raw.size() / 3 + 1)) : raw.size() - i;
    z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(raw.data() + i));
    z.avail_in = static_cast<uInt>(n);
    i += n;
    static const int fl[] = {Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_PARTIAL_FLUSH, Z_BLOCK};
    int f = i < raw.size() ? fl[r.below(4)] : Z_FINISH;
    do {
      z.next_out = buf.data();
      z.avail_out = static_cast<uInt>(buf.size());
      ret = deflate(&z, f);
      out.append(reinterpret_cast<char *>(buf.data()), buf.size() - z.avail_out);
    } while (z.avail_out == 0);
    if (f == Z_FINISH) break;
  } while (true);
  if (ret != Z_STREAM_END) exit(3);
  deflateEnd(&z);
  return out;
}

// stored blocks of chosen sizes: compressed sizes can be hit exactly
static std::string stored_deflate(Rng &r, const std::string &raw) {
  std::string o;
  size_t i = 0;
  for (;;) {
    size_t n = std::min<size_t>(raw.size() - i, r.chance(80) ? 65535 : r.below(5000));
    bool fin = i + n == raw.size() && (n || r.chance(50));
    o += static_cast<char>(fin);
    put_int(o, n, 2, false);
    put_int(o, n ^ 0xffff, 2, false);
    o.append(raw, i, n);
    i += n;
    if (fin) return o;
  }
}

static size_t pick_size(Rng &r, bool large) {
  static const size_t edge[] = {1, 2, 3, 4, 257, 258, 259, 4096, 8192, 16384, 21845, 24576, 31744, 32768, 49152, 65535, 65536, 85196, 98304, 131072, 262144, 524288};
  if (large) {
    size_t mb = 1024 * 1024, base = mb * r.range(1, r.chance(85) ? 2 : 4);
    switch (r.below(4)) {
    case 0: return base + r.below(5) - 2;
    case 1: return base - r.below(300);
    case 2: return base + r.below(200);
    default: return r.range(mb / 2, 3 * mb);
    }
  }
  if (r.chance(45)) return edge[r.below(sizeof edge / sizeof *edge)] + r.below(9) - (r.chance(50) ? 0 : 1);
  return r.chance(50) ? r.below(2000) : r.below(200000);
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  bool large = c.mode == "large";
  size_t n = pick_size(r, large);
  int style = static_cast<int>(r.below(10));
  bool header_incl = r.chance(50); // the boundary is meant for the file, not the payload
  if (header_incl && n >= 200) n -= 128;
  // compressed sizes at the boundary need incompressible data just below it
  if (large && r.chance(25)) { style = 1; n = 1024 * 1024 * r.range(1, 2) - 128 - r.below(360); }
  std::string data = payload(r, n, style);
  int width = r.chance(70) ? 1 : 8;
  ItemP it;
  if (width == 1) it = bytes_item(data);
  else {
    std::vector<double> v(data.size() / 8);
    if (!v.empty()) memcpy(v.data(), data.data(), v.size() * 8);
    it = std::make_shared<ItemT<double>>(std::vector<size_t>{v.size()}, r.chance(50), v);
  }
  std::string file = it->npy(npy::endian_t::LITTLE), how;
  std::string desc = fmt("style %d, %zu bytes of %s", style, n, width == 1 ? "u1" : "f8");
  c.note(desc);
  if (c.mode == "exact") { // compressed sizes which hit the buffer boundary exactly, or miss it by a few bytes
    size_t mb = 1024 * 1024 * (c.idx % 8 == 7 ? 2 : 1), want = mb + c.idx / 2 % 8 - 3;
    data = payload(r, mb + 1000, 1);
    size_t k = mb - 300;
    std::string comp;
    Rng same = r;
    for (int tries = 0; tries < 12; ++tries) {
      it = bytes_item(data.substr(0, k));
      file = it->npy(npy::endian_t::LITTLE);
      if (c.idx & 1) { Rng z = same; comp = zdeflate(z, file, how); }
      else { npy::npzstringwriter w(npy::compression_method_t::DEFLATED, npy::endian_t::LITTLE); it->write(w, "m"); w.close(); comp = parse_zip(w.str())[0].data; }
      if (comp.size() == want) break;
      size_t k2 = comp.size() < want ? k + (want - comp.size()) : k - (comp.size() - want);
      if (k2 > data.size() || comp.size() > want + 5000) k2 = mb - 300 - r.below(200);
      k = k2 == k ? k - 1 : k2;
    }
    Member m;
    m.name = "m.npy";
    m.raw = file;
    m.method = 8;
    m.comp = comp;
    std::string why, back;
    desc = fmt("%zu bytes compressed to %zu by %s", file.size(), comp.size(), c.idx & 1 ? how.c_str() : "the library");
    c.note(desc);
    c.check(zinflate(comp, back) && back == file, "zlib-decodes-otherwise", [&] { return desc; });
    try { npy::npzstringreader rd(make_zip({m})); why = it->read(rd, "m"); } catch (const std::exception &e) { why = std::string("threw ") + e.what(); }
    c.check(why.empty(), "exact-compressed-size", [&] { return desc + ": " + why; });
    if (comp.size() >= mb - 3 && comp.size() <= mb + 4) { c.seen(fmt("compressed size %+d from a multiple of a MiB", static_cast<int>(comp.size() - mb))); c.nontrivial(fnv(comp)); }
    c.sample(desc);
    return;
  }
  if (r.chance(55)) { // the library compresses
    npy::npzstringwriter w(npy::compression_method_t::DEFLATED, npy::endian_t::LITTLE);
    it->write(w, "m");
    w.close();
    std::string bytes = w.str(), back;
    auto z = parse_zip(bytes);
    bool ok = z.size() == 1 && z[0].method == 8 && zinflate(z[0].data, back);
    c.check(ok, "not-a-deflate-stream", [&] { return desc; });
    if (ok) c.check(back == file, "zlib-decodes-otherwise", [&] { return desc + fmt(": %zu bytes instead of %zu", back.size(), file.size()); });
    std::string why;
    try { npy::npzstringreader rd(std::move(bytes)); why = it->read(rd, "m"); } catch (const std::exception &e) { why = std::string("threw ") + e.what(); }
    c.check(why.empty(), "round-trip", [&] { return desc + ": " + why; });
    if (!z.empty()) {
      c.cover("compressed size (KiB)", z[0].csize / 1024);
      if (z[0].csize % (1024 * 1024) < 64 || z[0].csize % (1024 * 1024) > 1024 * 1024 - 64) c.seen("compressed size within 64 bytes of a MiB");
      if (z[0].csize == 1024 * 1024 || z[0].csize == 2 * 1024 * 1024) c.seen("compressed size exactly a MiB");
      c.nontrivial(fnv(z[0].data));
    }
    c.seen("compressed by the library");
  } else { // zlib compresses
    Member m;
    m.name = "m.npy";
    m.raw = file;
    m.method = 8;
    if (r.chance(15)) {
      m.comp = stored_deflate(r, file);
      how = "stored blocks";
      if (large && r.chance(60)) { // make the compressed size hit the boundary exactly
        size_t want = 1024 * 1024 * r.range(1, 2);
        // a stream may start with any number of empty stored blocks, five bytes each
        if (m.comp.size() < want && want - m.comp.size() < 4000000) {
          size_t gap = want - m.comp.size();
          std::string pre;
          while (gap >= 5 && pre.size() + 5 <= gap) pre += std::string("\0\0\0\xff\xff", 5);
          m.comp = pre + m.comp;
          how += fmt(", %zu bytes", m.comp.size());
        }
      }
    } else m.comp = zdeflate(r, file, how);
    std::string bytes = make_zip({m});
    std::string why;
    try { npy::npzstringreader rd(std::move(bytes)); why = it->read(rd, "m"); } catch (const std::exception &e) { why = std::string("threw ") + e.what(); }
    c.check(why.empty(), "foreign-stream", [&] { return desc + " by " + how + ": " + why; });
    if (m.comp.size() == 1024 * 1024 || m.comp.size() == 2 * 1024 * 1024) c.seen("compressed size exactly a MiB");
    c.nontrivial(fnv(m.comp));
    c.seen("compressed by zlib");
    desc += " by " + how;
  }
  c.cover("style", static_cast<uint64_t>(style));
  if (file.size() % (1024 * 1024) == 0) c.seen("file size exactly a multiple of a MiB");
  c.sample(desc);
}
