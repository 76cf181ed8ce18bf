// C05: type safety. Exhaustive stored x requested matrix, and dtype strings.
#include "gen.h"
using namespace vt;

static std::vector<std::string> strings;
static std::map<std::string, std::pair<int, int>> supported; // dtype -> type, 0 none 1 little 2 big

void begin_run(Ctx &) {
  for (int t = 0; t < T_STR; ++t) {
    if (tinfo(t).size == 1) supported[descr_of(t, false, 0)] = {t, 0};
    else { supported[descr_of(t, false, 0)] = {t, 1}; supported[descr_of(t, true, 0)] = {t, 2}; }
  }
  // every short string a dtype could look like
  const std::string order[] = {"", "<", ">", "=", "|", "!", " "};
  for (auto &o : order)
    for (int ch = 33; ch < 127; ++ch) {
      if (ch == '\'' || ch == '\\') continue;
      for (const char *n : {"", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "12", "16", "32", "64", "128", "01", "04", "08", "016", " 4", "4 ", "-4", "+4", "4.", "44", "81", "88", "161"}) strings.push_back(o + static_cast<char>(ch) + n);
    }
  for (const char *s : {"", "<", "|", "int32", "float64", "bool", "object", "|O", "|V8", "|S4", "<M8[ns]", "<m8[s]", "<f2", "<f16", "<c32", "<i4,<i4", "(2,)<i4", "<i4\n", "\n<i4", "<I4", "<F8", "|B1", "|I1", "<u 4", "<i4<i4", "| i1", "|i1|", "||i1"}) strings.push_back(s);
  strings.push_back(std::string("<i4\0", 4));
  strings.push_back(std::string("\0<i4", 4));
  strings.push_back(std::string("<\0i4", 4));
}
void end_run(Ctx &) {}

template <class F> static bool throws(F f, std::string *what = nullptr) {
  try { f(); } catch (const std::exception &e) { if (what) *what = e.what(); return true; }
  return false;
}

static std::string zip_one(const std::string &name, const std::string &data); // below

template <class T> static void request_all(Ctx &c, const std::string &file, const std::string &what) {
  // stored data which no type may accept
  c.check(throws([&] { std::istringstream i(file); npy::load<npy::tensor<T>>(i); }), "unsupported-accepted", what + " loaded as " + tinfo(type_index<T>()).code);
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  uint64_t i = c.idx;
  // 1. stored x requested, both byte orders, several shapes
  const uint64_t matrix = NTYPES * NTYPES * 3 * 4;
  if (i < matrix) {
    int st = static_cast<int>(i % NTYPES), rq = static_cast<int>((i / NTYPES) % NTYPES);
    npy::endian_t en = ENDIANS[(i / (NTYPES * NTYPES)) % 3];
    uint64_t kind = i / (NTYPES * NTYPES * 3);
    std::vector<size_t> shape = kind == 0 ? std::vector<size_t>{} : kind == 1 ? std::vector<size_t>{0} : kind == 2 ? std::vector<size_t>{r.range(1, 40)} : gen_shape(r, 200, false);
    std::string desc = fmt("stored %s endian %d shape %s, requested %s", tinfo(st).code, static_cast<int>(en), shape_str(shape).c_str(), tinfo(rq).code);
    c.note(desc);
    std::string file, archive;
    with_type(st, [&](auto g) {
      typedef typename decltype(g)::type S;
      auto t = make_tensor(shape, r.chance(50), gen_values<S>(r, count_of(shape)));
      std::ostringstream o;
      npy::save(o, t, en);
      file = o.str();
      npy::npzstringwriter w(r.chance(50) ? npy::compression_method_t::STORED : npy::compression_method_t::DEFLATED, en);
      w.write("x", t);
      w.close();
      archive = w.str();
    });
    std::string p = c.path("m.npy"), pz = c.path("m.npz");
    spew(p, file);
    spew(pz, archive);
    with_type(rq, [&](auto g) {
      typedef typename decltype(g)::type Q;
      std::vector<std::pair<const char *, std::function<npy::tensor<Q>()>>> routes = {
          {"load stream", [&] { std::istringstream in(file); return npy::load<npy::tensor<Q>>(in); }},
          {"load path", [&] { return npy::load<npy::tensor<Q>>(p); }},
          {"load<T,TENSOR>", [&] { return npy::load<Q, npy::tensor>(p); }},
          {"from_file", [&] { return npy::tensor<Q>::from_file(p); }},
          {"string reader", [&] { npy::npzstringreader z(archive); return z.read<npy::tensor<Q>>("x"); }},
          {"string reader T,TENSOR", [&] { npy::npzstringreader z(archive); return z.read<Q, npy::tensor>("x.npy"); }},
          {"file reader", [&] { npy::npzfilereader z(pz); return z.read<npy::tensor<Q>>("x"); }},
          {"file reader T,TENSOR", [&] { npy::npzfilereader z(pz); return z.read<Q, npy::tensor>("x"); }},
      };
      for (auto &rt : routes) {
        std::string err;
        bool threw = throws([&] { npy::tensor<Q> t = rt.second(); c.check(t.dtype() == tinfo(rq).dtype && t.shape() == shape, "wrong-result", desc + " via " + rt.first); }, &err);
        if (st == rq) c.check(!threw, "same-type-refused", desc + " via " + rt.first + ": " + err);
        else c.check(threw, "type-confusion", desc + " via " + rt.first);
        c.seen(st == rq ? "accepted loads" : "refused loads", 1);
      }
    });
    // peeking tells the stored type
    std::istringstream in(file);
    npy::header_info h = npy::peek(in);
    c.check(h.dtype == tinfo(st).dtype, "peek-dtype", desc);
    npy::npzstringreader z(archive);
    c.check(z.peek("x").dtype == tinfo(st).dtype, "peek-dtype", desc);
    c.nontrivial(fnv(desc));
    if (st != rq) c.sample(desc);
    return;
  }
  i -= matrix;
  // 2. the conversion functions
  if (i == 0) {
    std::set<std::string> seen;
    for (int t = 0; t < T_STR; ++t)
      for (npy::endian_t en : ENDIANS) {
        std::string s = npy::to_dtype(tinfo(t).dtype, en), want = descr_of(t, is_big(en), 0);
        c.check(s == want, "to_dtype", fmt("type %d endian %d: %s want %s", t, static_cast<int>(en), s.c_str(), want.c_str()));
        auto back = npy::from_dtype(s);
        c.check(back.first == tinfo(t).dtype, "from_dtype-type", s);
        c.check(tinfo(t).size == 1 ? back.second == npy::endian_t::NATIVE : back.second == (is_big(en) ? npy::endian_t::BIG : npy::endian_t::LITTLE), "from_dtype-endian", s);
        with_type(t, [&](auto g) {
          npy::tensor<typename decltype(g)::type> x({1});
          c.check(x.dtype(en) == want && x.dtype() == tinfo(t).dtype, "tensor-dtype", want);
        });
        if (seen.count(s) && en == npy::endian_t::LITTLE) {}
        seen.insert(s);
      }
    c.check(seen.size() == supported.size(), "dtype-collision", fmt("%zu strings", seen.size()));
    c.check(npy::to_dtype(npy::data_type_t::FLOAT32) == "<f4", "to_dtype-default", "");
    c.check(throws([&] { npy::to_dtype(npy::data_type_t::UNICODE_STRING); }), "to_dtype-U", "");
    for (npy::endian_t en : ENDIANS) {
      npy::tensor<std::wstring> x({3});
      x(1) = L"abcd";
      c.check(x.dtype(en) == std::string(is_big(en) ? ">" : "<") + "U4", "tensor-dtype-U", x.dtype(en));
    }
    return;
  }
  --i;
  // 3. dtype strings, well formed or not
  std::string s;
  if (i < strings.size()) s = strings[i];
  else { // random mutations of supported strings
    auto it = supported.begin();
    std::advance(it, r.below(supported.size()));
    s = it->first;
    for (uint64_t k = r.range(1, 3); k--;) {
      size_t p = r.below(s.size() + 1);
      char ch = static_cast<char>(r.chance(80) ? r.range(32, 126) : r.next());
      if (ch == '\'' || ch == '\\') ch = 'i';
      if (r.chance(40)) s.insert(p, 1, ch); else if (p < s.size() && r.chance(60)) s[p] = ch; else if (p < s.size()) s.erase(p, 1);
    }
  }
  c.note("dtype string " + s);
  auto sup = supported.find(s);
  bool unicode = s.size() > 1 && s[1] == 'U';
  bool threw;
  std::pair<npy::data_type_t, npy::endian_t> got;
  threw = throws([&] { got = npy::from_dtype(s); });
  if (sup != supported.end()) {
    c.check(!threw && got.first == tinfo(sup->second.first).dtype && got.second == (sup->second.second == 0 ? npy::endian_t::NATIVE : sup->second.second == 1 ? npy::endian_t::LITTLE : npy::endian_t::BIG), "from_dtype-wrong", s);
    c.seen("supported strings");
  } else if (!unicode) {
    c.check(threw, "unknown-dtype-accepted", "from_dtype(" + s + ")");
    // and it stays unknown (no entry was created by asking)
    c.check(throws([&] { npy::from_dtype(s); }), "unknown-dtype-accepted", "second from_dtype(" + s + ")");
    c.seen("unsupported strings");
  }
  c.nontrivial(fnv(s));
  if (unicode || sup != supported.end()) return;
  if (s.find('\'') != std::string::npos) return;
  std::string dict = "{'descr': '" + s + "', 'fortran_order': False, 'shape': (2,), }";
  std::string file = ref_npy(dict, std::string(64, '\1'));
  c.check(throws([&] { std::istringstream in(file); npy::peek(in); }), "unsupported-peeked", s);
  c.check(throws([&] { npy::header_info h(dict); }), "unsupported-header", s);
  for (int t = 0; t < NTYPES; ++t) with_type(t, [&](auto g) { request_all<typename decltype(g)::type>(c, file, "dtype '" + s + "'"); });
}
