// C17: the same operations under many locales. The reference is the classic one.
#include "npz.h"
#include <clocale>
#include <locale>
using namespace vt;

struct Punct : std::numpunct<char> {
  char sep, dec;
  std::string grp, t, f;
  Punct(char s, char d, std::string g, std::string tn, std::string fn) : sep(s), dec(d), grp(std::move(g)), t(std::move(tn)), f(std::move(fn)) {}
  char do_thousands_sep() const override { return sep; }
  char do_decimal_point() const override { return dec; }
  std::string do_grouping() const override { return grp; }
  std::string do_truename() const override { return t; }
  std::string do_falsename() const override { return f; }
};
// as a locale's ctype may: bytes beyond ASCII are letters or spaces, the rest is the same
struct Ctype : std::ctype<char> {
  mask tab[table_size];
  Ctype() : std::ctype<char>(tab) {
    memcpy(tab, classic_table(), sizeof tab);
    for (size_t i = 128; i < table_size; ++i) tab[i] = i % 3 ? static_cast<mask>(alpha | print) : static_cast<mask>(space);
  }
};

struct Collate : std::collate<char> { // another order of letters
  int do_compare(const char *a, const char *b, const char *c, const char *d) const override { return -std::collate<char>::do_compare(a, b, c, d); }
  string_type do_transform(const char *a, const char *b) const override { string_type s = std::collate<char>::do_transform(a, b); for (auto &ch : s) ch = static_cast<char>(~ch); return s + '\xff'; }
  long do_hash(const char *, const char *) const override { return 1; }
};
static std::vector<std::pair<std::string, std::locale>> locales;
void begin_run(Ctx &) {
  auto add = [&](const std::string &n, const std::locale &l) { locales.emplace_back(n, l); };
  std::locale k = std::locale::classic();
  add("1.234,5 (de)", std::locale(k, new Punct('.', ',', "\3", "wahr", "falsch")));
  add("1,234.5 (en)", std::locale(k, new Punct(',', '.', "\3", "true", "false")));
  add("1 234,5 (fr)", std::locale(k, new Punct(' ', ',', "\3", "vrai", "faux")));
  add("1\\xa0" "234,5 (latin-1)", std::locale(k, new Punct('\xa0', ',', "\3", "si", "no")));
  add("12,34,567 (in)", std::locale(k, new Punct(',', '.', "\3\2", "", "")));
  add("1'2'3", std::locale(k, new Punct('\'', '.', "\1", "True", "False")));
  add("12(34", std::locale(k, new Punct('(', ')', "\2", "(", ")")));
  add("digits as separators", std::locale(k, new Punct('0', '1', "\3", "1", "0")));
  add("de with ctype", std::locale(std::locale(k, new Punct('.', ',', "\3", "wahr", "falsch")), new Ctype));
  add("another order of letters", std::locale(std::locale(k, new Punct(' ', ',', "\3", "oui", "non")), new Collate));
  try { add("C.utf8", std::locale("C.utf8")); } catch (const std::exception &) {}
}
void end_run(Ctx &) {}

struct Scope { // a process-wide locale, for a while
  std::locale old;
  std::string c;
  Scope(const std::locale &l, const char *cl) : old(std::locale::global(l)), c(setlocale(LC_ALL, nullptr)) { if (cl) setlocale(LC_ALL, cl); }
  ~Scope() { std::locale::global(old); setlocale(LC_ALL, c.c_str()); }
};

void run_case(Ctx &c) {
  Rng &r = c.rng;
  int t = static_cast<int>(r.below(NTYPES));
  std::vector<size_t> shape;
  switch (r.below(4)) {
  case 0: shape = {r.range(1000, 30000)}; break;
  case 1: shape = {r.range(1, 3), r.range(1000, 9000)}; break;
  case 2: shape = {0, r.range(1000, 10000000), r.range(100, 100000000000ull)}; break;
  default: shape = gen_shape(r, 2000, false);
  }
  ItemP it;
  if (t == T_STR) {
    size_t w = r.chance(50) ? r.range(1000, 30000) : r.range(0, 1200);
    std::vector<std::wstring> v{gen_wstring(r, 5, false), std::wstring(w, L'\u00e9')};
    if (r.chance(60)) it = std::make_shared<ItemT<std::wstring>>(std::vector<size_t>{2}, r.chance(50), v);
    else { shape = {0, r.range(1000, 99999)}; it = make_item(r, t, shape, false); }
  } else it = make_item(r, t, shape, r.chance(50));
  npy::endian_t en = ENDIANS[r.below(3)];
  bool big = is_big(en);
  npy::compression_method_t meth = METHODS[r.below(2)];
  auto &L = locales[c.idx % locales.size()];
  int where = static_cast<int>((c.idx / locales.size()) % 3); // global, imbued, both
  std::string desc = L.first + fmt(" where=%d ", where) + it->desc();
  c.note(desc);
  std::string ref = it->npy(en), refz;
  { npy::npzstringwriter w(meth, en); it->write(w, "m"); w.close(); refz = w.str(); }
  c.check(ref == it->ref(big), "control", desc);
  Model many;
  std::string refm;
  {
    npy::npzstringwriter w(meth, en);
    for (size_t k = r.range(2, 6); k--;) {
      std::string name = gen_name(r);
      if (name.size() > 300) name.resize(300);
      ItemP x = small_item(r, static_cast<uint8_t>(k));
      x->write(w, name);
      many.write(name, x);
    }
    w.close();
    refm = w.str();
  }
  auto loaded = [&](const char *how, const std::function<std::string()> &f) {
    std::string w;
    try { w = f(); } catch (const std::exception &e) { w = std::string("threw ") + e.what(); }
    c.check(w.empty(), std::string("read-") + how, [&] { return desc + " " + how + ": " + w; });
    c.seen("reads under a locale");
  };
  {
    Scope sc(where != 1 ? L.second : std::locale::classic(), c.idx % 2 ? "C.utf8" : nullptr);
    std::locale imb = where != 0 ? L.second : std::locale();
    std::string p = c.path("l.npy"), pz = c.path("l.npz");
    { // written to a stream
      std::ostringstream o;
      o.imbue(imb);
      if (r.chance(30)) o << std::hex << std::showbase << std::showpos << std::left << std::uppercase << std::boolalpha;
      if (r.chance(20)) { o.fill('*'); o.width(9); }
      it->save(o, en);
      std::string got = o.str();
      c.check(got == ref, "bytes-stream", [&] { return desc + ": " + hex(got, 160) + " instead of " + hex(ref, 160); });
    }
    { // and straight through the header writer
      std::ostringstream o;
      o.imbue(imb);
      npy::write_npy_header(o, it->descr(big), it->fortran, it->shape);
      std::string got = o.str();
      c.check(got == ref.substr(0, got.size()) && got.size() == parse_npy(ref).data, "bytes-header", [&] { return desc + ": " + hex(got, 160); });
    }
    it->save(p, en);
    c.check(slurp(p) == ref, "bytes-path", desc);
    { npy::npzstringwriter w(meth, en); it->write(w, "m"); w.close(); c.check(w.str() == refz, "bytes-archive", desc); }
    { npy::npzfilewriter w(pz, meth, en); it->write(w, "m"); w.close(); c.check(slurp(pz) == refz, "bytes-archive-file", desc); }
    loaded("stream", [&] { std::istringstream i(ref); i.imbue(imb); if (r.chance(30)) i >> std::hex >> std::noskipws >> std::boolalpha; return it->load(i); });
    loaded("path", [&] { return it->load(p); });
    loaded("peek", [&] { std::istringstream i(ref); i.imbue(imb); return it->same_header(npy::peek(i), big); });
    loaded("peek path", [&] { return it->same_header(npy::peek(p), big); });
    loaded("header_info", [&] { return it->same_header(npy::header_info(ref_dict(it->descr(big), it->fortran, it->shape)), big); });
    loaded("archive", [&] { npy::npzstringreader rd(refz); std::string w = it->read(rd, "m"); return w.empty() ? it->same_header(rd.peek("m"), big) : w; });
    loaded("archive of several", [&] { npy::npzstringreader rd(refm); return whole(rd, many, big); });
    {
      npy::npzstringwriter w(meth, en);
      for (auto &x : many.writes) x.second->write(w, x.first);
      w.close();
      c.check(w.str() == refm, "bytes-archive-of-several", desc);
    }
    loaded("archive file", [&] { npy::npzfilereader rd(pz); return it->read(rd, "m"); });
    // numbers with separators are malformed under every locale
    for (const char *s : {"(1.000,)", "(1'000,)", "(1 000,)", "(10(0,)"}) {
      bool threw = false;
      try { npy::header_info h("{'descr': '<i4', 'fortran_order': False, 'shape': " + std::string(s) + ", }"); } catch (const std::exception &) { threw = true; }
      c.check(threw, "separator-accepted", [&] { return desc + " " + s; });
    }
    std::ostringstream dt;
    dt << npy::to_dtype(npy::data_type_t::COMPLEX128, npy::endian_t::BIG);
    c.check(dt.str() == ">c16", "dtype", desc);
  }
  c.cover("locale x place", desc.substr(0, desc.find("where=") + 7));
  c.nontrivial(mix(fnv(ref), c.idx % (locales.size() * 3)));
  c.sample(desc);
}
