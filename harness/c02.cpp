// C02: what save() writes. The strict parser and payload model decide here;
// the Python oracle then loads the logged files with NumPy.
#include "gen.h"
using namespace vt;

static RecordWriter rec;
void begin_run(Ctx &c) { rec.open(c.out + ".rec"); }
void end_run(Ctx &) { rec.close(); }

template <class T> static void one(Ctx &c, const std::vector<size_t> &shape, bool fortran, npy::endian_t en, bool numpy) {
  Rng &r = c.rng;
  const int t = type_index<T>();
  std::vector<T> values = gen_values<T>(r, count_of(shape));
  npy::tensor<T> src(shape, fortran);
  src.copy_from(values);
  bool big = is_big(en);
  std::string desc = fmt("type=%s shape=%s fortran=%d endian=%d", tinfo(t).code, shape_str(shape).c_str(), fortran, static_cast<int>(en));
  c.note(desc);
  std::string bytes;
  if (r.chance(70)) { std::ostringstream o; npy::save(o, src, en); bytes = o.str(); }
  else { std::string p = c.path("x.npy"); npy::save(p, src, en); bytes = slurp(p); }
  std::string key = std::string("write-") + tinfo(t).code;
  Parsed p = parse_npy(bytes);
  if (!c.check(p.ok, "malformed-file", [&] { return desc + ": " + p.error + " " + hex(bytes, 300); })) return;
  std::string want_descr = descr_of(t, big, width_of(values));
  c.check(p.descr == want_descr, key + "-descr", [&] { return desc + ": descr " + p.descr + " want " + want_descr; });
  c.check(p.fortran == fortran, key + "-order", desc);
  c.check(p.shape == shape, key + "-shape", [&] { return desc + ": wrote " + shape_str(p.shape); });
  std::string want = payload_of(values, big);
  c.check(bytes.size() - p.data == want.size(), key + "-payload-size", [&] { return desc + fmt(": %zu bytes, want %zu", bytes.size() - p.data, want.size()); });
  c.check(bytes.compare(p.data, std::string::npos, want) == 0, key + "-payload", [&] { return desc + " got " + hex(bytes.substr(p.data), 128) + " want " + hex(want, 128); });
  size_t e = p.data - 1;
  while (e && bytes[e - 1] == ' ') --e;
  c.cover("header length modulo 64", e % 64);
  c.cover("type x endian x order", fmt("%s %d %d", tinfo(t).code, static_cast<int>(en), fortran));
  c.seen(fmt("version %d files", p.version));
  c.nontrivial(fnv(bytes));
  c.sample(desc + " header " + bytes.substr(10, p.data - 10 > 110 ? 100 : p.data - 11));
  if (numpy) {
    std::string sh, meta;
    for (size_t d : shape) sh += std::to_string(d) + ",";
    meta = want_descr + ";" + (fortran ? "1" : "0") + ";" + sh + ";" + std::to_string(c.idx);
    std::string le = payload_of(values, false);
    rec.put({&meta, &bytes, &le, &desc});
  }
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  uint64_t i = c.idx;
  if (c.mode == "large") {
    int t = static_cast<int>(i % NTYPES);
    bool f = r.chance(50);
    auto s = big_shape(r, log_uniform(r, 30000, 8000000) / (t == T_STR ? 64 : static_cast<size_t>(tinfo(t).size)) + 1);
    with_type(t, [&](auto g) { one<typename decltype(g)::type>(c, s, f, ENDIANS[i / NTYPES % 3], true); });
    c.seen("large arrays");
    return;
  }
  bool fortran = r.chance(50);
  npy::endian_t en = ENDIANS[r.below(3)];
  if (i < sweep_count()) {
    auto s = sweep_shape(i);
    with_type(static_cast<int>(r.below(NTYPES)), [&](auto g) { one<typename decltype(g)::type>(c, s, fortran, en, true); });
    return;
  }
  i -= sweep_count();
  if (i < 160) { // dictionaries of every length around 64 KiB
    int t = static_cast<int>(i % (NTYPES - 1));
    if (t == T_STR) t = NTYPES - 1;
    auto s = shape_for_dict(65395 + i, t, is_big(en), fortran);
    c.seen("dictionaries around 64 KiB");
    with_type(t, [&](auto g) { one<typename decltype(g)::type>(c, s, fortran, en, false); });
    return;
  }
  i -= 160;
  if (i < 12) { // dictionaries around 64 KiB: more dimensions than NumPy takes
    std::vector<size_t> s(i < 6 ? 21770 + i * 7 : 20000 + r.below(30000), 1);
    with_type(static_cast<int>(r.below(NTYPES)), [&](auto g) { one<typename decltype(g)::type>(c, s, fortran, en, false); });
    return;
  }
  i -= 12;
  int t = static_cast<int>(i % NTYPES);
  en = ENDIANS[(i / NTYPES) % 3];
  fortran = (i / (NTYPES * 3)) % 2;
  bool numpy = !r.chance(15);
  size_t cap = r.chance(3) ? 200000 : 2000;
  auto s = gen_shape(r, t == T_STR ? 500 : cap, numpy);
  with_type(t, [&](auto g) { one<typename decltype(g)::type>(c, s, fortran, en, numpy); });
}
