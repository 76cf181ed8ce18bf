// C11: damaged archives. Every single byte of generated archives is changed;
// each read must throw or return the tensor which was written.
#define VT_ALLOC_CAP (64u << 20)
#include "foreign.h"
#include "alloc.h"
#include <malloc.h>
using namespace vt;

void begin_run(Ctx &) { mallopt(M_TRIM_THRESHOLD, 512 << 20); mallopt(M_MMAP_THRESHOLD, 32 << 20); mallopt(M_TOP_PAD, 64 << 20); }
void end_run(Ctx &) {}

static const uint64_t PARTS = 16;

struct Arch {
  Model m;
  bool big;
  std::string bytes, desc;
  std::vector<std::pair<size_t, size_t>> data; // where the members' data lie
};

static Arch build(Ctx &c, uint64_t id) {
  Rng r(mix(c.seed ^ 0xa5c11, id)); // the same for every part
  Arch a;
  npy::compression_method_t method = METHODS[id % 2];
  npy::endian_t en = ENDIANS[r.below(3)];
  a.big = is_big(en);
  a.desc = fmt("archive %llu method=%d endian=%d:", static_cast<unsigned long long>(id), static_cast<int>(method), static_cast<int>(en));
  npy::npzstringwriter w(method, en);
  size_t n = r.range(1, 3);
  // no name is another one plus .npy: losing the shorter would uncover the longer
  static const char *const names[] = {"a", "b", "depth", "x/y", "c", "ab"};
  size_t first = r.below(6);
  for (size_t i = 0; i < n; ++i) {
    std::string name = names[(first + i) % 6];
    ItemP it = gen_item(r, id % 5 == 4 ? 400 : 12);
    while (it->shape.size() > 20) it = gen_item(r, 4);
    if (method == npy::compression_method_t::DEFLATED && r.chance(30)) it = bytes_item(std::string(r.range(20, 3000), 'q'));
    if (r.chance(12)) { it = crc_item(r, std::string(r.range(4, 100), static_cast<char>(r.next())), odd_crc(r)); a.desc += " (odd checksum)"; }
    it->write(w, name);
    a.m.write(name, it);
    a.desc += " " + name + "=" + it->desc();
  }
  w.close();
  a.bytes = w.str();
  for (auto &z : parse_zip(a.bytes)) a.data.emplace_back(z.offset + 30 + z.name.size(), z.csize);
  return a;
}

static void probe(Ctx &c, const Arch &a, const std::string &bad, const std::function<std::string()> &what, int kind) {
  auto D = [&](const std::string &w) { return a.desc + ": " + what() + ": " + w + " " + hex(bad, 1500); };
  try {
    AnyReader rd(kind, kind >= 2 ? c.path("d.npz") : "", bad);
    for (auto &e : a.m.map) {
      std::string w;
      bool threw = false;
      try { w = rd.read(*e.second, e.first); } catch (const std::exception &) { threw = true; }
      c.seen(threw ? "reads refused" : "reads still right");
      c.check(threw || w.empty(), "wrong-data", [&] { return D("read of " + e.first + " returned wrong data: " + w); });
      threw = false;
      w.clear();
      try { w = e.second->same_header(rd.peek(e.first), a.big); } catch (const std::exception &) { threw = true; }
      c.check(threw || w.empty(), "wrong-header", [&] { return D("peek of " + e.first + " returned a wrong header: " + w); });
    }
  } catch (const std::exception &) {
    c.seen("archives refused when opened");
    ++c.compares;
  }
}

// members of many sizes, a few changes each
static void large(Ctx &c) {
  Rng &r = c.rng;
  g_alloc.cap = 1ull << 30;
  static const size_t sizes[] = {70000, 300000, 1048576, 2200000, 4200000, 9000000, 17000000, 34000000};
  size_t n = sizes[c.idx / 2 % 8] + r.below(100000);
  npy::compression_method_t method = METHODS[c.idx % 2];
  Arch a;
  npy::endian_t en = ENDIANS[r.below(3)];
  a.big = is_big(en);
  std::string b(n, '\0');
  int style = static_cast<int>(r.below(3));
  for (size_t i = 0; i < n; ++i) b[i] = static_cast<char>(style == 0 ? r.next() : style == 1 ? r.next() & 3 : (i >> 12) + (r.chance(1) ? 1 : 0));
  ItemP it = bytes_item(b);
  npy::npzstringwriter w(method, en);
  it->write(w, "big");
  w.close();
  a.m.write("big", it);
  a.bytes = w.str();
  a.desc = fmt("one member of %zu bytes, style %d, method=%d", n, style, static_cast<int>(method));
  c.note(a.desc);
  auto z = parse_zip(a.bytes);
  size_t d = z[0].offset + 30 + z[0].name.size(), len = z[0].csize;
  for (int k = 0; k < (n > 10000000 ? 5 : 12); ++k) {
    std::string bad = a.bytes;
    size_t p = k == 0 ? d + len - 1 : k == 1 ? d + 128 : k < 10 ? d + r.below(len) : r.below(bad.size()), q = std::min<size_t>(bad.size(), p + (k < 7 ? 1 : r.range(2, 4)));
    if (k >= 7) q = std::min(q, d + len);
    for (size_t i = p; i < q; ++i) bad[i] ^= static_cast<char>(k % 2 ? 1 << r.below(8) : 1 + r.below(255));
    if (bad == a.bytes) continue;
    probe(c, a, bad, [&] { return fmt("bytes %zu to %zu changed", p, q); }, r.chance(25) ? 2 : 0);
    c.seen("changes to large members");
  }
  c.cover("large member sizes", n >> 16);
  c.nontrivial(mix(fnv(a.bytes), 3));
  c.sample(a.desc);
}

// archives of other writers: changes anywhere, mostly outside the payloads
static void foreign(Ctx &c) {
  Rng &r = c.rng;
  RecordReader rr;
  if (!rr.open(c.args["in"] + "/" + std::to_string(c.idx) + ".rec")) { fprintf(stderr, "no record file\n"); exit(3); }
  std::vector<std::string> f;
  size_t n = 0;
  c.evals--;
  while (rr.get(f)) {
    Foreign fa(f);
    if (fa.refuse || fa.bytes.size() > 40000) continue;
    c.note(fa.desc);
    c.evals++;
    ++n;
    // where the records are; payloads and padding get few of the changes
    std::vector<size_t> at;
    const std::string &b = fa.bytes;
    std::vector<char> likely(b.size(), 0);
    for (size_t i = b.find("PK"); i != std::string::npos; i = b.find("PK", i + 1)) for (size_t k = i; k < std::min(b.size(), i + 130); ++k) likely[k] = 1;
    for (size_t i = b.find(std::string("\1\0", 2)); i != std::string::npos; i = b.find(std::string("\1\0", 2), i + 1)) for (size_t k = i; k < std::min(b.size(), i + 32); ++k) likely[k] = 1;
    size_t some = c.arg("all", 0) ? 100 : 60;
    for (size_t i = 0; i < b.size(); ++i) if (likely[i] ? r.below(1000) < c.arg("likely", 150) : r.below(b.size()) < some) at.push_back(i);
    for (size_t p : at) {
      uint8_t old = static_cast<uint8_t>(b[p]);
      std::vector<uint8_t> vals = {static_cast<uint8_t>(old ^ (1 << r.below(8))), 0, 255, static_cast<uint8_t>(old + 1), static_cast<uint8_t>(old - 1), static_cast<uint8_t>(r.next()), 1, 8};
      for (uint8_t v : vals) {
        if (v == old) continue;
        std::string bad = b;
        bad[p] = static_cast<char>(v);
        auto D = [&](const std::string &w) { return fa.desc + fmt(": byte %zu of %zu changed from %02x to %02x: ", p, b.size(), old, v) + w + " " + hex(bad, 1500); };
        struct Cap { ~Cap() { g_alloc.cap = 64u << 20; } } reset;
        g_alloc.cap = c.arg("cap", 2 << 20);
        try {
          AnyReader rd(r.chance(3) ? 2 : 0, c.path("d.npz"), bad);
          for (auto &e : fa.m.map) {
            std::string w;
            bool threw = false;
            try { w = rd.read(*e.second, e.first); } catch (const std::exception &) { threw = true; }
            c.seen(threw ? "reads of other writers' archives refused" : "reads of other writers' archives still right");
            c.check(threw || w.empty(), "wrong-data", [&] { return D("read of " + e.first + " returned wrong data: " + w); });
            threw = false;
            w.clear();
            try { w = fa.same_header(e.first, rd.peek(e.first)); } catch (const std::exception &) { threw = true; }
            c.check(threw || w.empty(), "wrong-header", [&] { return D("peek of " + e.first + " returned a wrong header: " + w); });
          }
        } catch (const std::exception &) {
          c.seen("other writers' archives refused when opened");
          ++c.compares;
        }
        c.seen("single-byte changes to other writers' archives");
      }
    }
    c.cover("ways of writing", fa.desc);
    c.nontrivial(mix(fnv(b), 5));
    if (n % 60 == 7) c.sample(fa.desc + fmt(", %zu members", fa.m.map.size()));
  }
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  if (c.mode == "foreign") { foreign(c); return; }
  if (c.mode == "large") { large(c); return; }
  uint64_t id = c.idx / PARTS, part = c.idx % PARTS;
  Arch a = build(c, id);
  c.note(a.desc);
  { // undamaged it reads right
    AnyReader rd(static_cast<int>(r.below(2)), "", a.bytes);
    c.check(rd.whole(a.m, a.big).empty(), "control", a.desc);
  }
  bool all = c.arg("all", 0) && a.bytes.size() < 900;
  for (size_t p = part; p < a.bytes.size(); p += PARTS) {
    std::vector<uint8_t> vals;
    uint8_t old = static_cast<uint8_t>(a.bytes[p]);
    if (all) for (int v = 0; v < 256; ++v) vals.push_back(static_cast<uint8_t>(v));
    else {
      for (int b = 0; b < 8; ++b) vals.push_back(static_cast<uint8_t>(old ^ (1 << b)));
      for (int v : {0, 255, old + 1, old - 1, 0x50, 1, 8}) vals.push_back(static_cast<uint8_t>(v));
      vals.push_back(static_cast<uint8_t>(r.next()));
    }
    for (uint8_t v : vals) {
      if (v == old) continue;
      std::string bad = a.bytes;
      bad[p] = static_cast<char>(v);
      probe(c, a, bad, [&] { return fmt("byte %zu of %zu changed from %02x to %02x", p, a.bytes.size(), old, v); }, r.chance(4) ? static_cast<int>(2 + r.below(3)) : 0);
      c.seen("single-byte changes");
    }
    c.nontrivial(mix(mix(id, p), 1));
  }
  // bursts which change chosen bits of the checksum and no others
  if (id % 2 == 0 && !c.arg("all", 0))
    for (size_t k = 0; k < a.data.size(); ++k) {
      auto &d = a.data[k];
      if (d.second < 4) continue;
      size_t p = d.first + r.below(d.second - 3);
      std::string data = a.bytes.substr(d.first, d.second);
      uint32_t was = ref_crc(data);
      CrcSolver solver(data, p - d.first);
      std::vector<uint32_t> masks = {0xff, 0xff00, 0xff0000, 0xff000000, 0xffff, 0xffff0000, 0xffffffff, 0x80000001, was, ~was};
      for (int b = 0; b < 32; ++b) masks.push_back(1u << b);
      for (uint32_t m : masks) {
        std::string bad = a.bytes;
        if (!m) continue;
        solver.apply(&bad[p], m);
        if ((ref_crc(bad.substr(d.first, d.second)) ^ was) != m) { fprintf(stderr, "checksum solver\n"); exit(3); }
        probe(c, a, bad, [&] { return fmt("burst at %zu which changes the checksum by %08x", p, m); }, 0);
        c.seen("bursts directed at bits of the checksum");
      }
    }
  // bursts within a member's data
  for (int k = 0; k < (all ? 120 : 40); ++k) {
    auto &d = a.data[r.below(a.data.size())];
    if (!d.second) continue;
    size_t len = std::min<size_t>(d.second, r.range(2, 4)), p = d.first + r.below(d.second - len + 1);
    std::string bad = a.bytes;
    int style = static_cast<int>(r.below(4));
    for (size_t i = 0; i < len; ++i) bad[p + i] = static_cast<char>(style == 0 ? r.next() : style == 1 ? 0 : style == 2 ? 255 : bad[p + i] ^ (1 << r.below(8)));
    if (style == 3 && len >= 2 && r.chance(40)) { bad = a.bytes; std::swap(bad[p], bad[p + len - 1]); }
    if (bad == a.bytes) continue;
    probe(c, a, bad, [&] { return fmt("burst of %zu bytes at %zu", len, p); }, 0);
    c.seen("bursts");
  }
  if (part == 0) c.sample(a.desc + fmt(" %zu bytes", a.bytes.size()));
}
