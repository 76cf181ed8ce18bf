// C07: hostile bytes. Grammar-aware mutations of valid inputs of every kind,
// and grammar-generated broken ones, under the sanitizers or memcheck.
#define VT_ALLOC_CAP (8u << 20)
#include "hostile.h"
#include "alloc.h"
using namespace vt;

static Hostile h;
void begin_run(Ctx &c) { h.work = c.work; }
void end_run(Ctx &c) {
  c.seen("operations which returned", h.returned);
  c.seen("operations which threw", h.threw);
  c.seen("allocations refused by the cap", g_alloc.refused);
  if (h.sink == 0x1234567) c.seen("unlikely");
}

static const uint64_t BAD[] = {0, 1, 2, 3, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffffeull, ~0ull};

static void mutate(Rng &r, std::string &b, int rounds) {
  for (int k = 0; k < rounds; ++k) {
    size_t n = b.size(), p = r.below(n + 1);
    switch (r.below(10)) {
    case 0: if (p < n) b[p] = static_cast<char>(r.next()); break;
    case 1: if (p < n) b[p] = static_cast<char>(b[p] ^ (1 << r.below(8))); break;
    case 2: { size_t w = 1u << r.below(4); uint64_t v = BAD[r.below(sizeof BAD / 8)]; for (size_t i = 0; i < w && p + i < n; ++i) b[p + i] = static_cast<char>(v >> (8 * i)); break; }
    case 3: { std::string s; for (size_t i = r.range(1, 8); i--;) s += static_cast<char>(r.next()); b.insert(p, s); break; }
    case 4: b.erase(p, r.below(9)); break;
    case 5: { size_t q = r.below(n + 1), l = std::min<size_t>(r.below(64), n - q); b.insert(p, b.substr(q, l)); break; }
    case 6: { size_t q = r.below(n + 1), l = std::min({static_cast<size_t>(r.below(64)), n - q, n - p}); b.replace(p, l, b.substr(q, l)); break; }
    case 7: if (r.chance(30)) b.resize(p); break;
    case 8: if (p < n) b[p] = static_cast<char>(b[p] + (r.chance(50) ? 1 : -1)); break;
    default: if (r.chance(20)) b.insert(p, r.below(400), static_cast<char>(r.chance(50) ? ' ' : r.next())); break;
    }
  }
}
// a numeric field somewhere in one of the records of an archive
static void mutate_zip(Rng &r, std::string &b) {
  struct F { const char *sig; int off, len; };
  static const F fs[] = {{"PK\1\2", 4, 2}, {"PK\1\2", 6, 2}, {"PK\1\2", 8, 2}, {"PK\1\2", 10, 2}, {"PK\1\2", 16, 4}, {"PK\1\2", 20, 4}, {"PK\1\2", 24, 4}, {"PK\1\2", 28, 2}, {"PK\1\2", 30, 2}, {"PK\1\2", 32, 2}, {"PK\1\2", 34, 2}, {"PK\1\2", 42, 4},
                         {"PK\3\4", 4, 2}, {"PK\3\4", 6, 2}, {"PK\3\4", 8, 2}, {"PK\3\4", 14, 4}, {"PK\3\4", 18, 4}, {"PK\3\4", 22, 4}, {"PK\3\4", 26, 2}, {"PK\3\4", 28, 2},
                         {"PK\5\6", 4, 2}, {"PK\5\6", 6, 2}, {"PK\5\6", 8, 2}, {"PK\5\6", 10, 2}, {"PK\5\6", 12, 4}, {"PK\5\6", 16, 4}, {"PK\5\6", 20, 2},
                         {"PK\6\6", 4, 8}, {"PK\6\6", 24, 8}, {"PK\6\6", 32, 8}, {"PK\6\6", 40, 8}, {"PK\6\6", 48, 8}, {"PK\6\7", 4, 4}, {"PK\6\7", 8, 8}, {"PK\6\7", 16, 4}};
  const F &f = fs[r.below(sizeof fs / sizeof *fs)];
  std::vector<size_t> at;
  for (size_t p = b.find(f.sig); p != std::string::npos; p = b.find(f.sig, p + 1)) at.push_back(p);
  if (at.empty()) return;
  size_t p = at[r.below(at.size())] + static_cast<size_t>(f.off);
  if (p + static_cast<size_t>(f.len) > b.size()) return;
  uint64_t old = 0, v;
  for (int i = 0; i < f.len; ++i) old |= static_cast<uint64_t>(static_cast<unsigned char>(b[p + static_cast<size_t>(i)])) << (8 * i);
  switch (r.below(5)) {
  case 0: v = BAD[r.below(sizeof BAD / 8)]; break;
  case 1: v = old + r.range(0, 40) - 20; break;
  case 2: v = b.size() + r.range(0, 60) - 30; break;
  case 3: v = old ^ (1ull << r.below(static_cast<uint64_t>(8 * f.len))); break;
  default: v = r.below(b.size() * 2 + 1); break;
  }
  for (int i = 0; i < f.len; ++i) b[p + static_cast<size_t>(i)] = static_cast<char>(v >> (8 * i));
}

struct Bits {
  std::string o;
  int n = 0;
  void put(uint64_t v, int k) { for (int i = 0; i < k; ++i) { if (n % 8 == 0) o += '\0'; if (v >> i & 1) o.back() = static_cast<char>(o.back() | 1 << (n % 8)); ++n; } }
  void align() { while (n % 8) put(0, 1); }
};
static std::vector<int> balanced(size_t n) { // lengths of a complete code
  std::vector<int> l;
  int k = 1;
  while ((1u << k) < n) ++k;
  size_t shorter = (1u << k) - n;
  for (size_t i = 0; i < n; ++i) l.push_back(i < shorter && n > 1 ? k - 1 : k);
  return l;
}
static void gen_lengths(Rng &r, std::vector<int> &l) {
  std::vector<size_t> use;
  switch (r.below(5)) {
  case 0: use.push_back(r.chance(60) && l.size() > 256 ? 256 : r.below(l.size())); break; // a single symbol
  case 1: for (size_t i = r.range(2, 6); i--;) use.push_back(r.below(l.size())); break;
  case 2: for (size_t i = 0; i < l.size(); ++i) if (r.chance(30)) use.push_back(i); break;
  case 3: for (size_t i = 0; i < l.size(); ++i) use.push_back(i); break;
  default: break; // none at all
  }
  if (l.size() > 256 && r.chance(80)) use.push_back(256);
  std::sort(use.begin(), use.end());
  use.erase(std::unique(use.begin(), use.end()), use.end());
  if (use.size() == 1) { l[use[0]] = r.chance(60) ? 1 : static_cast<int>(r.range(1, 15)); return; }
  if (use.size() < 2) return;
  std::vector<int> b = balanced(use.size());
  if (r.chance(30)) { // a skewed one: 1, 2, 3...
    size_t n = std::min<size_t>(use.size(), 16);
    use.resize(n);
    b.clear();
    for (size_t i = 0; i < n; ++i) b.push_back(static_cast<int>(std::min(i + 1, n - 1)));
  }
  for (size_t i = 0; i < use.size(); ++i) l[use[i]] = b[i];
  if (r.chance(10)) l[use[r.below(use.size())]] = static_cast<int>(r.below(16)); // over- or undersubscribed
}
static std::vector<uint32_t> codes(const std::vector<int> &l) {
  std::vector<uint32_t> c(l.size());
  uint32_t code = 0;
  for (int b = 1; b < 16; ++b) { for (size_t i = 0; i < l.size(); ++i) if (l[i] == b) c[i] = code++; code <<= 1; }
  return c;
}
static void huff(Bits &b, const std::vector<uint32_t> &c, const std::vector<int> &l, size_t s) { for (int q = l[s] - 1; q >= 0; --q) b.put(c[s] >> q & 1, 1); }

// DEFLATE-shaped streams with anything in them
static std::string gen_deflate(Rng &r) {
  Bits b;
  size_t blocks = r.range(1, 4);
  for (size_t k = 0; k < blocks; ++k) {
    b.put(k + 1 == blocks ? r.below(10) != 0 : 0, 1);
    int type = r.chance(5) ? 3 : static_cast<int>(r.below(3));
    b.put(static_cast<uint64_t>(type), 2);
    if (type == 0) {
      b.align();
      size_t len = r.chance(50) ? r.below(40) : BAD[r.below(14)] & 0xffff;
      b.put(len, 16);
      b.put(r.chance(80) ? ~len : r.next(), 16);
      for (size_t i = std::min<size_t>(len, r.below(300)); i--;) b.put(r.next(), 8);
    } else if (type == 1) {
      for (size_t i = r.below(60); i--;) {
        switch (r.below(4)) { // codes are stored with the first bit first
        case 0: { uint64_t v = r.range(0x30, 0xbf); for (int q = 7; q >= 0; --q) b.put(v >> q & 1, 1); break; }
        case 1: { uint64_t v = r.below(24); for (int q = 6; q >= 0; --q) b.put(v >> q & 1, 1); b.put(r.next(), static_cast<int>(r.below(6))); b.put(r.next(), 5); b.put(r.next(), static_cast<int>(r.below(14))); break; }
        case 2: { uint64_t v = r.range(0xc0, 0xc7); for (int q = 7; q >= 0; --q) b.put(v >> q & 1, 1); b.put(r.next(), static_cast<int>(r.below(18))); break; }
        default: b.put(r.next(), static_cast<int>(r.below(30))); break;
        }
      }
      if (r.chance(70)) b.put(0, 7);
    } else {
      // lengths of the three codes: complete, incomplete or oversubscribed
      std::vector<int> lit(257 + r.below(r.chance(80) ? 30 : 32)), dist(1 + r.below(r.chance(80) ? 30 : 32));
      gen_lengths(r, lit);
      gen_lengths(r, dist);
      std::vector<int> all = lit;
      all.insert(all.end(), dist.begin(), dist.end());
      struct Sym { int s, extra, bits; };
      std::vector<Sym> rle;
      for (size_t i = 0; i < all.size();) {
        size_t n = 1;
        while (i + n < all.size() && all[i + n] == all[i]) ++n;
        if (all[i] == 0 && n >= 3 && r.chance(95)) { n = std::min<size_t>(n, 138); if (n < 11) rle.push_back({17, static_cast<int>(n - 3), 3}); else rle.push_back({18, static_cast<int>(n - 11), 7}); }
        else if (i && all[i] == all[i - 1] && n >= 3 && r.chance(80)) { n = std::min<size_t>(n, 6); rle.push_back({16, static_cast<int>(n - 3), 2}); }
        else { n = 1; rle.push_back({all[i], 0, 0}); }
        i += n;
      }
      if (r.chance(8)) rle.insert(rle.begin() + static_cast<long>(r.below(rle.size() + 1)), {static_cast<int>(r.range(16, 18)), 1, 3});
      std::set<int> used;
      for (auto &x : rle) used.insert(x.s);
      std::vector<int> cl(19, 0);
      if (used.size() == 1 || r.chance(5)) for (int u : used) cl[static_cast<size_t>(u)] = used.size() == 1 ? static_cast<int>(r.range(1, 2)) : static_cast<int>(r.range(1, 7));
      else { // a complete code over the used symbols
        std::vector<int> l = balanced(used.size());
        size_t k2 = 0;
        for (int u : used) cl[static_cast<size_t>(u)] = l[k2++];
      }
      static const int order[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
      b.put(lit.size() - 257, 5); b.put(dist.size() - 1, 5); b.put(15, 4);
      for (int o : order) b.put(static_cast<uint64_t>(cl[static_cast<size_t>(o)]), 3);
      auto cc = codes(cl);
      for (auto &x : rle) { huff(b, cc, cl, static_cast<size_t>(x.s)); b.put(static_cast<uint64_t>(x.extra), x.bits); }
      // symbols, then noise
      auto lc = codes(lit), dc = codes(dist);
      std::vector<size_t> ls, dsy;
      for (size_t i = 0; i < lit.size(); ++i) if (lit[i]) ls.push_back(i);
      for (size_t i = 0; i < dist.size(); ++i) if (dist[i]) dsy.push_back(i);
      for (size_t n = r.below(r.chance(10) ? 3000 : 60); n-- && !ls.empty();) {
        size_t sym = ls[r.below(ls.size())];
        if (sym == 256 && n) continue;
        huff(b, lc, lit, sym);
        if (sym > 256) {
          static const int le[31] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0, 0, 0};
          b.put(r.next(), le[sym - 257]);
          if (dsy.empty()) break;
          size_t d = r.chance(70) ? dsy[0] : dsy[r.below(dsy.size())];
          huff(b, dc, dist, d);
          b.put(r.next(), d < 4 ? 0 : static_cast<int>(d / 2 - 1));
        }
      }
      if (r.chance(60) && lit[256]) huff(b, lc, lit, 256);
      else if (r.chance(50)) for (size_t i = r.below(40); i--;) b.put(r.chance(50) ? ~0ull : 0, 8);
      else for (size_t i = r.below(200); i--;) b.put(r.next(), 8);
    }
  }
  for (size_t i = r.below(12); i--;) b.put(r.next(), 8);
  return b.o;
}
static std::string gen_dict(Rng &r) { // dictionary-shaped texts
  static const char *const tok[] = {"{", "}", "'descr'", "'fortran_order'", "'shape'", ": ", ":", ", ", ",", "'<f4'", "'|b1'", "'<U5'", "'>U99999999999999999999'", "'<U'", "'<U-1'", "'U'", "''", "'", "\"descr\"", "True", "False", "Tru", "(", ")", "()", "(3,)", "(3, 4)", "(18446744073709551615,)",
                                    "(18446744073709551616, 2)", "(-1,)", "(4294967296, 4294967296)", "(99999999999999999999999999999999,)", "3", "0", " ", "\n", "\\", "L", "'extra'", "None", "[", "1e9", "'<f4", "f4'"};
  std::string s;
  if (r.chance(60)) { // valid skeleton with odd parts
    static const char *const ds[] = {"'<f4'", "'<U5'", "'|b1'", "'>c16'", "'<U0'", "'<U4611686018427387904'", "'<U1073741824'", "'<U-3'", "'<U'", "'<'", "''", "'>U18446744073709551615'", "'<Ux'"};
    static const char *const sh[] = {"()", "(1,)", "(2, 3)", "(0,)", "(18446744073709551615,)", "(4294967296, 4294967296)", "(9223372036854775808, 2)", "(1, 18446744073709551615, 0)", "(16777216,)", "(1048577, 1)", "(,)", "(1,,2)", "(1 2)", "(-5,)", "(0x10,)", "(1", "1,)"};
    s = std::string("{'descr': ") + ds[r.below(13)] + ", 'fortran_order': " + (r.chance(50) ? "True" : "False") + ", 'shape': " + sh[r.below(17)] + ", }";
    if (r.chance(50)) mutate(r, s, 1);
  } else for (size_t n = r.below(14); n--;) s += tok[r.below(sizeof tok / sizeof *tok)];
  return s;
}

static std::string gen_archive(Rng &r, int method, std::string *comp = nullptr, uint32_t *crc = nullptr, size_t *usize = nullptr) {
  npy::npzstringwriter w(METHODS[method], ENDIANS[r.below(3)]);
  for (size_t n = comp ? 1 : r.range(0, 4); n--;) {
    std::string name;
    do name = gen_name(r); while (name.size() > 300);
    ItemP it = r.chance(30) ? ItemP(bytes_item(std::string(r.range(0, 4000), 'q'))) : gen_item(r, r.chance(10) ? 6000 : 40);
    it->write(w, name);
  }
  w.close();
  std::string b = w.str();
  if (comp) {
    auto z = parse_zip(b);
    *comp = z[0].data;
    *crc = z[0].crc;
    *usize = z[0].usize;
  }
  return b;
}

// re-encode a member list with everything a foreign or hostile writer might add
static std::string gen_foreign(Rng &r) {
  std::vector<Member> ms;
  for (size_t n = r.range(0, 4); n--;) {
    ItemP it = gen_item(r, 20);
    Member m = stored_member(stored_name("m" + std::to_string(r.below(4))), it->npy(npy::endian_t::LITTLE));
    if (r.chance(30)) m.flags = 8;
    auto extra = [&] {
      std::string x;
      for (size_t k = r.below(4); k--;) {
        put_int(x, r.chance(60) ? 1 : r.below(0x10000), 2, false);
        size_t len = r.below(36);
        put_int(x, r.chance(80) ? len : BAD[r.below(14)], 2, false);
        for (size_t i = len; i--;) x += static_cast<char>(r.chance(50) ? 0 : r.next());
      }
      if (r.chance(20)) x += std::string(r.below(4), '\1');
      return x;
    };
    m.lextra = extra();
    m.cextra = extra();
    if (r.chance(30)) m.comment = std::string(r.below(30), 'c');
    if (r.chance(20)) m.method = r.chance(50) ? 8 : static_cast<int>(r.below(100));
    if (r.chance(10)) m.comp += "x";
    if (r.chance(10)) m.raw += "x";
    m.descr_sig = r.chance(50);
    ms.push_back(m);
  }
  std::string b = make_zip(ms, r.chance(30) ? std::string(r.below(300), 'z') : "");
  if (r.chance(40)) { // sizes and offsets which send the reader to ZIP64 fields
    size_t p = b.find("PK\1\2");
    if (p != std::string::npos) for (int off : {20, 24, 42}) if (r.chance(60)) b.replace(p + static_cast<size_t>(off), 4, "\xff\xff\xff\xff");
  }
  if (r.chance(40)) { // ZIP64 end records, sane or not
    size_t e = b.rfind("PK\5\6");
    size_t cd = b.find("PK\1\2");
    if (cd == std::string::npos) cd = e;
    std::string z("PK\6\6");
    put_int(z, r.chance(70) ? 44 : BAD[r.below(24)], 8, false);
    put_int(z, 45, 2, false); put_int(z, 45, 2, false); put_int(z, 0, 4, false); put_int(z, 0, 4, false);
    put_int(z, r.chance(70) ? ms.size() : BAD[r.below(24)], 8, false);
    put_int(z, r.chance(70) ? ms.size() : BAD[r.below(24)], 8, false);
    put_int(z, r.chance(70) ? e - cd : BAD[r.below(24)], 8, false);
    put_int(z, r.chance(70) ? cd : BAD[r.below(24)], 8, false);
    z += "PK\6\7";
    put_int(z, 0, 4, false);
    put_int(z, r.chance(70) ? e : BAD[r.below(24)], 8, false);
    put_int(z, 1, 4, false);
    for (int off : {8, 10}) if (r.chance(60)) b.replace(e + static_cast<size_t>(off), 2, "\xff\xff");
    for (int off : {12, 16}) if (r.chance(60)) b.replace(e + static_cast<size_t>(off), 4, "\xff\xff\xff\xff");
    b.insert(e, z);
  }
  return b;
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  bool seeds = c.mode == "seeds";
  int n = seeds ? 1 : 40;
  for (int k = 0; k < n; ++k) {
    int target = static_cast<int>(r.below(8)), t = static_cast<int>(r.below(NTYPES));
    std::string b;
    bool deflate = false;
    int rounds = r.chance(15) ? 0 : static_cast<int>(r.range(1, r.chance(80) ? 3 : 12));
    switch (target) {
    case 0: case 1:
      if (r.chance(35)) b = ref_npy(gen_dict(r), std::string(r.below(100), static_cast<char>(r.next())), static_cast<int>(r.range(1, 2)), r.chance(50) ? 64 : 1);
      else {
        ItemP it = gen_item(r, 60);
        t = r.chance(80) ? it->type : t;
        b = it->npy(ENDIANS[r.below(3)]);
        size_t nl = b.find('\n');
        if (r.chance(60) && nl != std::string::npos && nl > 10) { std::string head = b.substr(0, nl); mutate(r, head, rounds); b = head + b.substr(nl); rounds = 0; }
      }
      break;
    case 2: b = gen_dict(r); break;
    case 3: b = descr_of(t, r.chance(50), r.below(40)); break;
    case 4: case 5:
      if (r.chance(50)) b = gen_archive(r, static_cast<int>(r.below(2)));
      else { b = gen_foreign(r); if (r.chance(60)) rounds = 0; }
      if (rounds) for (int q = 0; q < rounds; ++q) if (r.chance(75)) mutate_zip(r, b); else mutate(r, b, 1);
      rounds = 0;
      break;
    default: {
      uint32_t crc = static_cast<uint32_t>(r.next());
      size_t us = r.below(70000);
      if (r.chance(50)) { b = gen_deflate(r); deflate = true; }
      else { gen_archive(r, 1, &b, &crc, &us); if (r.chance(15)) us = BAD[r.below(19)]; else if (r.chance(20)) us += r.range(0, 6) - 3; }
      mutate(r, b, rounds);
      rounds = 0;
      us &= 0xffffffff;
      put_int(b, us & 0xffffff, 3, false);
      b += static_cast<char>(us >> 24);
      put_int(b, crc, 4, false);
    }
    }
    mutate(r, b, rounds);
    c.note(fmt("%s as %s: ", Hostile::target_name(target), tinfo(t).code) + hex(b, 400));
    if (seeds) { spew(c.path("../seeds/s" + std::to_string(c.idx)), std::string(1, static_cast<char>(target)) + static_cast<char>(t) + b); c.seen("fuzzing seeds"); ++c.compares; return; }
    uint64_t before = h.returned, refused = g_alloc.refused;
    if (deflate) g_alloc.cap = 64u << 20; // no such stream can announce or hold as much
    h.one(target, t, b);
    g_alloc.cap = VT_ALLOC_CAP;
    if (deflate) c.check(g_alloc.refused == refused, "unbounded-output", [&] { return fmt("%zu bytes of compressed data inflate beyond 64 MiB: ", b.size()) + hex(b, 1000); });
    ++c.compares; // returned or threw; nothing else happened
    c.seen(Hostile::target_name(target));
    c.nontrivial(fnv(b));
    if (h.returned > before) c.seen("inputs with at least one accepted operation");
    if (c.idx < 3) c.sample(fmt("%s, %zu bytes: ", Hostile::target_name(target), b.size()) + hex(b, 40));
  }
}
