// C26: booleans.
#include "npz.h"
using namespace vt;

static RecordWriter rec;
void begin_run(Ctx &c) { rec.open(c.out + ".rec"); }
void end_run(Ctx &) { rec.close(); }

// the value converts to bool as C++ says, by every way of making a boolean from it
template <class V> static void value(Ctx &c, const char *name, V v) {
  const bool want = static_cast<bool>(v);
  npy::boolean direct(v);
  npy::boolean copyinit = v;
  npy::boolean brace{v};
  npy::boolean assigned;
  c.check(!assigned && assigned.value == 0, "default", "a default boolean is true");
  assigned = v;
  npy::boolean over(!want);
  over = v;
  const V cv = v;
  const V &rv = cv;
  npy::boolean from_const(cv), from_ref(rv);
  std::vector<npy::boolean> many(2, npy::boolean(v));
  std::vector<V> src(1, v);
  npy::tensor<npy::boolean> t({2});
  t.set({0}, v);
  t(1) = v;
  std::vector<npy::boolean> out(1);
  std::copy(src.begin(), src.end(), out.begin());
  npy::boolean copied(direct), cassigned;
  cassigned = copied;
  const npy::boolean *all[] = {&direct, &copyinit, &brace, &assigned, &over, &from_const, &from_ref, &many[1], &t(0), &t(1), &out[0], &copied, &cassigned};
  for (size_t i = 0; i < sizeof all / sizeof *all; ++i) {
    const npy::boolean &b = *all[i];
    bool ok = static_cast<bool>(b) == want && b.value == (want ? 1 : 0) && (b ? true : false) == want && !b == !want && (b == want) && sizeof(b) == 1;
    c.check(ok, std::string("convert-") + name, [&] { std::ostringstream o; o << std::hexfloat << +v; return fmt("%s %s by way %zu gives %d (stored %d), want %d", name, o.str().c_str(), i, static_cast<int>(static_cast<bool>(b)), b.value, want); });
  }
  c.seen(std::string("values converted: ") + (want ? "true" : "false"));
  c.nontrivial(fnv(&v, std::is_same_v<V, long double> ? 10 : sizeof v) + fnv(name, strlen(name)));
}

template <class V> static void integral(Ctx &c, const char *name) {
  Rng &r = c.rng;
  c.note(name);
  if (sizeof(V) <= 2 && c.idx == 0) { // every value
    for (long k = 0; k <= 0xffff; ++k) if (sizeof(V) == 2 || k <= 0xff) value<V>(c, name, static_cast<V>(k));
    c.cover("exhausted types", name);
  }
  value<V>(c, name, V(0));
  for (unsigned b = 0; b < sizeof(V) * 8; ++b) {
    value<V>(c, name, static_cast<V>(static_cast<std::make_unsigned_t<V>>(1) << b));
    value<V>(c, name, static_cast<V>(~(static_cast<std::make_unsigned_t<V>>(1) << b)));
  }
  value<V>(c, name, std::numeric_limits<V>::min());
  value<V>(c, name, std::numeric_limits<V>::max());
  value<V>(c, name, static_cast<V>(-1));
  value<V>(c, name, static_cast<V>(256));
  for (int i = 0; i < 20; ++i) value<V>(c, name, static_cast<V>(r.next() & (r.chance(50) ? ~0ull : ~0ull << r.below(64))));
}
template <class V> static void floating(Ctx &c, const char *name) {
  Rng &r = c.rng;
  c.note(name);
  typedef std::numeric_limits<V> L;
  const V fixed[] = {V(0), -V(0), V(1), V(-1), V(0.5), V(-0.5), V(0.25), V(0.999), V(1e-30), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), L::epsilon(),
                     L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN(), V(256), V(4294967296.0), V(1.8446744073709552e19)};
  for (V v : fixed) value<V>(c, name, v);
  for (int i = 0; i < 40; ++i) {
    V v = std::ldexp(static_cast<V>(static_cast<double>(r.next() >> 11) / 9007199254740992.0 - 0.5), static_cast<int>(r.below(400)) - 200);
    value<V>(c, name, v);
  }
}
template <class V> static void character(Ctx &c, const char *name) {
  for (long k = 0; k < 70000; k += k < 300 ? 1 : 1 + static_cast<long>(c.rng.below(400))) value<V>(c, name, static_cast<V>(k));
}
enum Plain { ZERO = 0, TWO = 2, BIGONE = 0x10000 };

static void conversions(Ctx &c) {
  value<bool>(c, "bool", true);
  value<bool>(c, "bool", false);
  integral<char>(c, "char");
  integral<signed char>(c, "signed char");
  integral<unsigned char>(c, "unsigned char");
  integral<short>(c, "short");
  integral<unsigned short>(c, "unsigned short");
  integral<int>(c, "int");
  integral<unsigned>(c, "unsigned");
  integral<long>(c, "long");
  integral<unsigned long>(c, "unsigned long");
  integral<long long>(c, "long long");
  integral<unsigned long long>(c, "unsigned long long");
  character<wchar_t>(c, "wchar_t");
  character<char16_t>(c, "char16_t");
  character<char32_t>(c, "char32_t");
  floating<float>(c, "float");
  floating<double>(c, "double");
  floating<long double>(c, "long double");
  value<Plain>(c, "enumeration", ZERO);
  value<Plain>(c, "enumeration", TWO);
  value<Plain>(c, "enumeration", BIGONE);
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  if (c.mode == "convert") { conversions(c); return; }
  // stored and read
  std::vector<size_t> shape = gen_shape(r, r.chance(5) ? 100000 : 500, true);
  if (c.mode == "large") shape = big_shape(r, log_uniform(r, 60000, 3000000));
  size_t n = count_of(shape);
  bool fortran = r.chance(50);
  npy::endian_t en = ENDIANS[r.below(3)];
  npy::tensor<npy::boolean> t(shape, fortran);
  std::string want(n, '\0');
  int how = static_cast<int>(r.below(7)), p = static_cast<int>(r.below(101));
  std::string desc = fmt("booleans %s%s made in way %d, %d%% true", shape_str(shape).c_str(), fortran ? "F" : "", how, p);
  c.note(desc);
  std::vector<npy::boolean> v(n);
  for (size_t i = 0; i < n; ++i) {
    bool b = r.chance(p);
    want[i] = b ? 1 : 0;
    switch (how) {
    case 0: v[i] = b; break;
    case 1: v[i] = b ? -static_cast<int>(r.range(1, 1000)) : 0; break;
    case 2: v[i] = b ? 0.001 * static_cast<double>(r.range(1, 5000)) : -0.0; break;
    case 3: v[i] = npy::boolean(b ? std::numeric_limits<float>::quiet_NaN() : 0.0f); break;
    case 4: v[i] = npy::boolean(b ? static_cast<uint64_t>(r.range(1, 255)) << 56 : 0ull); break;
    case 5: v[i] = static_cast<uint8_t>(b ? r.range(1, 255) : 0); break;
    default: v[i] = npy::boolean(b ? 256 : 0);
    }
  }
  if (r.chance(30)) { std::vector<npy::boolean> m = v; t.move_from(std::move(m)); }
  else if (r.chance(50)) t.copy_from(v);
  else if (r.chance(50)) t.copy_from(v.data(), v.size());
  else { size_t i = 0; for (auto &e : t) e = static_cast<bool>(v[i++]); }
  std::ostringstream o;
  npy::save(o, t, en);
  std::string bytes = o.str();
  Parsed ps = parse_npy(bytes);
  if (!c.check(ps.ok && ps.descr == "|b1", "dtype", [&] { return desc + ": " + ps.descr + ps.error; })) return;
  c.check(bytes.compare(ps.data, std::string::npos, want) == 0, "stored-bytes", [&] { return desc + ": " + hex(bytes.substr(ps.data), 60); });
  auto judge = [&](const npy::tensor<npy::boolean> &g, const char *route) {
    bool ok = g.shape() == shape && g.size() == n && g.fortran_order() == fortran;
    size_t i = 0;
    if (ok) for (const npy::boolean &b : g) { if (static_cast<bool>(b) != (want[i] != 0) || b.value != want[i]) ok = false; ++i; }
    c.check(ok, "read-back", [&] { return desc + " via " + route; });
  };
  { std::istringstream i(bytes); judge(npy::load<npy::tensor<npy::boolean>>(i), "stream"); }
  std::string path = c.path("b.npy");
  t.save(path, en);
  judge(npy::load<npy::boolean, npy::tensor>(path), "path");
  npy::npzstringwriter w(METHODS[r.below(2)], en);
  w.write("b", t);
  w.close();
  std::string z = w.str();
  { npy::npzstringreader rd(z); judge(rd.read<npy::tensor<npy::boolean>>("b"), "archive"); c.check(rd.peek("b").dtype == npy::data_type_t::BOOL, "peek", desc); }
  // NumPy calls any other byte true as well
  std::string odd = want;
  for (auto &b : odd) if (b) b = static_cast<char>(r.range(1, 255));
  std::istringstream i(ref_npy(ref_dict("|b1", fortran, shape), odd));
  npy::tensor<npy::boolean> g = npy::load<npy::tensor<npy::boolean>>(i);
  size_t k = 0, bad = 0;
  for (const npy::boolean &b : g) if (static_cast<bool>(b) != (want[k++] != 0)) ++bad;
  c.check(bad == 0 && k == n, "nonzero-byte", desc);
  c.cover("way x order x endian", fmt("%d %d %d", how, fortran, static_cast<int>(en)));
  c.seen("boolean elements stored", n);
  c.nontrivial(fnv(bytes));
  c.sample(desc);
  std::string sh, meta;
  for (size_t d : shape) sh += std::to_string(d) + ",";
  meta = "|b1;" + std::string(fortran ? "1" : "0") + ";" + sh + ";" + std::to_string(c.idx);
  rec.put({&meta, &bytes, &want, &desc});
}
