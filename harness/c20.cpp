// C20: archives beyond the limits of classic ZIP.
#include "npz.h"
#include "npy/npy.h"
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

// a large array which is never in memory; a different byte sequence per seed
struct Big {
  static const size_t CHUNK = 1 << 20;
  size_t n = 0;
  uint64_t seed = 0;
  bool text = false; // compressible
  std::string why;
  Big(size_t n = 0, uint64_t seed = 0, bool text = false) : n(n), seed(seed), text(text) {}
  size_t ndim() const { return 1; }
  size_t shape(int) const { return n; }
  bool fortran_order() const { return false; }
  std::string dtype(npy::endian_t e) const { return npy::to_dtype(npy::data_type_t::UINT8, e); }
  static void fill(std::string &b, uint64_t seed, size_t k) {
    // cheap, but tells where a byte belongs
    uint64_t v = mix(seed, k);
    for (size_t i = 0; i + 8 <= b.size(); i += 8) { uint64_t x = v + i; memcpy(&b[i], &x, 8); }
  }
  static void fill_text(std::string &b, uint64_t seed, size_t k) {
    std::fill(b.begin(), b.end(), static_cast<char>(seed));
    memcpy(&b[0], &k, 8);
  }
  void save(std::ostream &o, npy::endian_t) const {
    std::string b(CHUNK, '\0');
    for (size_t k = 0; k * CHUNK < n; ++k) {
      if (text) fill_text(b, seed, k); else fill(b, seed, k);
      o.write(b.data(), static_cast<std::streamsize>(std::min(CHUNK, n - k * CHUNK)));
    }
  }
  static uint64_t g_seed;
  static bool g_text;
  static Big load(std::istream &in, const npy::header_info &h) {
    Big r(h.shape.empty() ? 0 : h.shape[0], g_seed, g_text);
    std::string want(CHUNK, '\0'), got(CHUNK, '\0');
    for (size_t k = 0; k * CHUNK < r.n; ++k) {
      size_t len = std::min(CHUNK, r.n - k * CHUNK);
      in.read(&got[0], static_cast<std::streamsize>(len));
      if (static_cast<size_t>(in.gcount()) != len) { r.why = fmt("only %zu bytes", k * CHUNK); break; }
      if (g_text) fill_text(want, g_seed, k); else fill(want, g_seed, k);
      if (memcmp(want.data(), got.data(), len)) { r.why = fmt("bytes differ in chunk %zu", k); break; }
    }
    return r;
  }
};
uint64_t Big::g_seed;
bool Big::g_text;

static uint8_t tiny_value(uint64_t i) { return static_cast<uint8_t>(i * 37 + (i >> 8)); }

template <class R> static void check_many(Ctx &c, R &r, uint64_t n, const std::string &desc, const std::string &prefix) {
  auto &keys = r.keys();
  c.check(keys.size() == n, "member-count", [&] { return desc + fmt(": %zu members listed", keys.size()); });
  c.check(std::is_sorted(keys.begin(), keys.end()) && std::adjacent_find(keys.begin(), keys.end()) == keys.end(), "keys", desc);
  c.check(!r.contains(prefix + std::to_string(n)), "contains", desc);
  for (uint64_t i = 0; i < n; ++i) {
    if (i % 7 && i > 300 && i + 300 < n && i % 65536 > 40 && i % 65536 < 65500) continue;
    std::string name = prefix + std::to_string(i);
    npy::tensor<uint8_t> t = r.template read<npy::tensor<uint8_t>>(name);
    c.check(t.shape() == std::vector<size_t>{1} && t(0) == tiny_value(i), "member-value", [&] { return desc + " " + name; });
    c.seen("members of large archives read");
  }
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  if (c.mode == "count") { // more members than a 16-bit count holds
    static const uint64_t counts[] = {65534, 65535, 65536, 65537, 70000, 131072};
    uint64_t n = counts[c.idx % 6];
    int kind = static_cast<int>((c.idx / 6) % 2), method = static_cast<int>((c.idx / 12) % 2);
    std::string desc = fmt("%llu members, writer %d method %d", static_cast<unsigned long long>(n), kind, method);
    c.note(desc);
    std::string p = c.args["dir"] + fmt("/count-%llu.npz", static_cast<unsigned long long>(c.idx));
    std::string bytes;
    {
      AnyWriter w(kind, p, METHODS[method], ENDIANS[1]);
      npy::tensor<uint8_t> t({1});
      for (uint64_t i = 0; i < n; ++i) {
        t(0) = tiny_value(i);
        if (w.s) w.s->write("m" + std::to_string(i), t); else w.f->write("m" + std::to_string(i), t);
      }
      w.close();
      bytes = w.bytes();
      if (!kind) spew(p, bytes);
    }
    { npy::npzstringreader rd(bytes); check_many(c, rd, n, desc, "m"); }
    { npy::npzfilereader rd(p); check_many(c, rd, n, desc, "m"); }
    c.nontrivial(fnv(desc));
    c.cover("member counts", n);
    c.sample(desc + fmt(": %zu bytes", bytes.size()));
    return;
  }
  if (c.mode == "pycount") { // written by zipfile
    std::string p = c.args["dir"] + fmt("/py-%llu.npz", static_cast<unsigned long long>(c.idx));
    uint64_t n = strtoull(slurp(p + ".n").c_str(), nullptr, 10);
    std::string desc = fmt("zipfile archive of %llu members", static_cast<unsigned long long>(n));
    c.note(desc);
    { npy::npzfilereader rd(p); check_many(c, rd, n, desc, "m"); }
    { npy::npzstringreader rd(slurp(p)); check_many(c, rd, n, desc, "m"); }
    c.nontrivial(fnv(desc));
    c.sample(desc);
    return;
  }
  if (c.mode == "sparse") { // small members at large offsets, in sparse files
    std::string p = c.args["dir"] + fmt("/sparse-%llu.npz", static_cast<unsigned long long>(c.idx));
    if (access(p.c_str(), R_OK)) { c.fail("harness", "no " + p); return; }
    std::string list = slurp(p + ".n"); // lines: name value offset
    std::istringstream is(list);
    npy::npzfilereader rd(p);
    std::string name;
    uint64_t v, off;
    size_t n = 0;
    while (is >> name >> v >> off) {
      c.note(p + " " + name + fmt(" at %llu", static_cast<unsigned long long>(off)));
      npy::tensor<uint64_t> t = rd.read<npy::tensor<uint64_t>>(name);
      c.check(t.shape() == std::vector<size_t>{2} && t(0) == v && t(1) == ~v, "far-member", [&] { return name + fmt(" at offset %llu", static_cast<unsigned long long>(off)); });
      npy::header_info h = rd.peek(name);
      c.check(h.shape == std::vector<size_t>{2} && h.dtype == npy::data_type_t::UINT64, "far-peek", name);
      c.seen("members read at offsets beyond 2 GiB");
      c.cover("offsets read", off);
      ++n;
    }
    c.check(n >= 3 && rd.keys().size() >= n, "far-keys", p);
    c.nontrivial(fnv(list));
    c.sample(p.substr(p.rfind('/') + 1) + fmt(": %zu far members", n));
    return;
  }
  if (c.mode == "offsets") { // real writes until offsets pass each threshold
    std::string p = c.args["dir"] + "/offsets.npz", desc = "offsets";
    const uint64_t T[] = {1ull << 31, 0x8FFFFFFFull, 1ull << 32};
    std::vector<std::pair<std::string, uint64_t>> small;
    std::vector<Big> bigs;
    {
      npy::npzfilewriter w(p);
      uint64_t at = 0;
      auto tiny = [&](const std::string &name) { // 30 + name + 128 + 16
        npy::tensor<uint64_t> t({2});
        uint64_t v = mix(c.seed, small.size());
        t(0) = v;
        t(1) = ~v;
        w.write(name, t);
        small.emplace_back(name, v);
        at = static_cast<uint64_t>(std::filesystem::file_size(p)); // a lower bound: some is buffered
      };
      uint64_t expect = 0; // where the next member will start
      for (int k = 0; k < 3; ++k) {
        uint64_t goal = T[k] - 2 * 184 + (k == 1 ? 0 : 1); // then small ones below, at and beyond the threshold
        while (expect < goal) {
          uint64_t left = goal - expect, most = 1100ull << 20;
          uint64_t take = left > most ? std::min(most, left - 4096) : left; // this member with its headers
          Big b(take - (30 + 8 + 128), bigs.size() + 1);
          std::string name = fmt("b%03zu.npy", bigs.size()); // 8 characters
          c.note("writing " + name);
          w.write(name, b);
          bigs.push_back(b);
          expect += take;
          c.seen("bytes written in archives with far offsets", take);
        }
        for (int q = 0; q < 5; ++q) { tiny(fmt("t%d%d.npy00000.npy", k, q).substr(0, 6) + fmt("xxxx.npy")); expect += 30 + 14 + 128 + 16; }
      }
      (void)at;
      w.close();
    }
    npy::npzfilereader rd(p);
    c.check(rd.keys().size() == small.size() + bigs.size(), "far-keys", desc);
    for (auto &s : small) {
      c.note("reading " + s.first);
      npy::tensor<uint64_t> t = rd.read<npy::tensor<uint64_t>>(s.first);
      c.check(t(0) == s.second && t(1) == ~s.second, "far-member", s.first);
      c.seen("members read at offsets beyond 2 GiB");
    }
    for (size_t i = 0; i < bigs.size(); ++i) {
      if (!c.thorough && i % 3 != 1) continue;
      std::string name = fmt("b%03zu.npy", i);
      c.note("reading " + name);
      Big::g_seed = bigs[i].seed;
      Big::g_text = false;
      Big b = rd.read<Big>(name);
      c.check(b.n == bigs[i].n && b.why.empty(), "large-member", [&] { return name + ": " + b.why; });
    }
    spew(p + ".n", [&] { std::string s; for (auto &x : small) s += x.first + " " + std::to_string(x.second) + "\n"; return s; }());
    c.nontrivial(1);
    c.sample(fmt("%zu large and %zu small members, %llu bytes", bigs.size(), small.size(), static_cast<unsigned long long>(std::filesystem::file_size(p))));
    return;
  }
  if (c.mode == "huge") { // one member of more than 2 or 4 GiB
    uint64_t n = c.arg("size", 0);
    int method = static_cast<int>(c.arg("method", 0)), kind = static_cast<int>(c.arg("kind", 1));
    std::string p = c.args["dir"] + fmt("/huge-%llu-%d.npz", static_cast<unsigned long long>(n), method);
    std::string desc = fmt("member of %llu bytes, method %d, writer %d", static_cast<unsigned long long>(n), method, kind);
    c.note(desc);
    Big b(n, 5, method != 0);
    npy::tensor<uint64_t> t({2});
    t(0) = 42;
    t(1) = ~42ull;
    std::string bytes;
    if (kind) {
      npy::npzfilewriter w(p, METHODS[method]);
      w.write("first", t);
      w.write("huge", b);
      w.write("last", t);
      w.close();
    } else {
      npy::npzstringwriter w(METHODS[method]);
      w.write("first", t);
      w.write("huge", b);
      w.write("last", t);
      w.close();
      bytes = w.str();
    }
    c.seen("bytes written in huge members", n);
    auto chk = [&](auto &rd) {
      c.check(rd.keys() == std::vector<std::string>{"first.npy", "huge.npy", "last.npy"}, "huge-keys", desc);
      Big::g_seed = 5;
      Big::g_text = method != 0;
      for (const char *s : {"last", "first"}) { auto u = rd.template read<npy::tensor<uint64_t>>(s); c.check(u(0) == 42 && u(1) == ~42ull, "huge-neighbour", desc + " " + s); }
      Big x = rd.template read<Big>("huge");
      c.check(x.n == n && x.why.empty(), "huge-member", [&] { return desc + ": " + x.why + fmt(" (%zu)", x.n); });
    };
    if (kind) { npy::npzfilereader rd(p); chk(rd); }
    else { npy::npzstringreader rd(std::move(bytes)); chk(rd); }
    c.nontrivial(fnv(desc));
    c.sample(desc);
    return;
  }
  // names up to, at and beyond what fits
  {
    int kind = static_cast<int>(c.idx % 4);
    npy::compression_method_t method = METHODS[r.below(2)];
    std::string p = c.path("n.npz");
    std::string desc = fmt("long names, writer %d", kind);
    Model m;
    std::string bytes;
    {
      AnyWriter w(kind, p, method, ENDIANS[r.below(3)]);
      static const size_t lens[] = {1, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65540, 70000, 131071, 131072 + 3, 1 << 20};
      for (int k = 0; k < 12; ++k) {
        size_t len = lens[r.below(14)];
        bool suffix = r.chance(50) && len > 4;
        std::string name(len, static_cast<char>('a' + k));
        if (suffix) name.replace(len - 4, 4, ".npy");
        ItemP it = gen_item(r, 20);
        bool fits = stored_name(name).size() <= 65535, threw = false;
        c.note(desc + fmt(": %zu bytes", len));
        try { w.write(name, *it); } catch (const std::exception &) { threw = true; }
        c.check(threw == !fits, fits ? "long-name-refused" : "too-long-name-accepted", [&] { return desc + fmt(": name of %zu bytes", stored_name(name).size()); });
        if (!threw) m.write(name, it);
        c.seen(fits ? "long names written" : "names which do not fit refused");
        c.cover("name lengths", stored_name(name).size());
      }
      w.close();
      bytes = w.bytes();
    }
    AnyReader rd(static_cast<int>(r.below(5)), c.path("x.npz"), bytes);
    std::string why;
    if (rd.s) why = m.keys(rd.s->keys()); else why = m.keys(rd.f->keys());
    c.check(why.empty(), "long-names", [&] { return desc + ": " + why; });
    for (auto &e : m.map) { why = rd.read(*e.second, e.first); c.check(why.empty(), "long-names", [&] { return desc + ": " + why; }); }
    try { auto z = parse_zip(bytes); c.check(z.size() == m.writes.size(), "long-names-structure", desc); } catch (std::string &e) { c.fail("long-names-structure", desc + ": " + e); }
    c.nontrivial(fnv(bytes));
  }
}
