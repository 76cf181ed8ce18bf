// C06: prefixes and malformed headers. Every input is malformed by
// construction, so the only right answer is an exception.
#include "gen.h"
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

template <class F> static bool refused(F f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}

template <class T> static void must_refuse(Ctx &c, const std::string &file, const std::string &key, const std::string &desc, bool peek_too, bool disk) {
  c.note(desc);
  c.check(refused([&] { std::istringstream i(file); npy::load<npy::tensor<T>>(i); }), key, [&] { return desc + " (stream) " + hex(file, 200); });
  if (disk) {
    std::string p = c.path("m.npy");
    spew(p, file);
    c.check(refused([&] { npy::load<npy::tensor<T>>(p); }), key, [&] { return desc + " (path) " + hex(file, 200); });
    if (peek_too) c.check(refused([&] { npy::peek(p); }), key + "-peek", [&] { return desc + " (path) " + hex(file, 200); });
    DripBuf d(file, 7);
    std::istream i(&d);
    c.check(refused([&] { npy::load<npy::tensor<T>>(i); }), key, [&] { return desc + " (unseekable) " + hex(file, 200); });
  }
  if (peek_too) c.check(refused([&] { std::istringstream i(file); npy::peek(i); }), key + "-peek", [&] { return desc + " " + hex(file, 200); });
}

template <class T> static void prefixes(Ctx &c) {
  Rng &r = c.rng;
  const int t = type_index<T>();
  std::vector<size_t> shape = c.idx % 3 == 0 ? std::vector<size_t>{r.range(1, 9)} : gen_shape(r, t == T_STR ? 12 : 60, false);
  bool v2 = c.mode == "prefix2"; // a header of the second version, with and without elements
  if (v2) {
    shape = std::vector<size_t>(r.range(21900, 30000), 1);
    if (r.chance(60)) shape[r.below(shape.size())] = r.below(3);
  }
  npy::endian_t en = ENDIANS[r.below(3)];
  std::vector<T> v = gen_values<T>(r, count_of(shape));
  if constexpr (std::is_same_v<T, std::wstring>) for (auto &s : v) if (s.size() > 12) s.resize(12, L'q');
  auto src = make_tensor(shape, r.chance(50), v);
  std::ostringstream o;
  npy::save(o, src, en);
  std::string file = o.str();
  size_t data = parse_npy(file).data;
  std::string desc = fmt("type=%s shape=%s endian=%d", tinfo(t).code, shape_str(shape).c_str(), static_cast<int>(en));
  size_t step = v2 ? file.size() / 40 + 1 : file.size() > 3000 ? file.size() / 1500 + 1 : 1;
  for (size_t n = 0; n < file.size(); n += (n + 80 > file.size() || (n > data - 20 && n < data + 80) || n < 130) ? v2 && n > 20 ? 7 : 1 : step)
    must_refuse<T>(c, file.substr(0, n), "prefix-accepted", desc + fmt(": first %zu of %zu bytes", n, file.size()), n < data, n % 37 == 5);
  c.seen("files cut at every byte");
  c.seen("prefixes", file.size());
  c.cover("type", tinfo(t).code);
  c.nontrivial(fnv(file));
  c.sample(desc + fmt(" cut at 0..%zu", file.size() - 1));
}

// much data, cut anywhere: in bulk reads, in the last elements, within an element
template <class T> static void large(Ctx &c) {
  Rng &r = c.rng;
  const int t = type_index<T>();
  const size_t esize = t == T_STR ? 40 : tinfo(t).size;
  std::vector<size_t> shape = big_shape(r, log_uniform(r, 3000, c.thorough ? 40000000 / esize : 6000000 / esize + 3000) + 1);
  npy::endian_t en = ENDIANS[r.below(3)];
  std::vector<T> v = gen_values<T>(r, count_of(shape));
  if constexpr (std::is_same_v<T, std::wstring>) { for (auto &s : v) if (s.size() > 12) s.resize(12, L'q'); v[v.size() / 2] = L"some"; }
  auto src = make_tensor(shape, r.chance(50), v);
  std::ostringstream o;
  npy::save(o, src, en);
  std::string file = o.str();
  const size_t data = parse_npy(file).data;
  std::string desc = fmt("type=%s shape=%s endian=%d", tinfo(t).code, shape_str(shape).c_str(), static_cast<int>(en));
  for (int k = 0; k < 10; ++k) {
    size_t n;
    switch (r.below(5)) {
    case 0: n = file.size() - 1 - r.below(std::min<size_t>(file.size() - data, 40)); break;
    case 1: n = file.size() - 1 - r.below(std::min<size_t>(file.size() - data, 9000)); break;
    case 2: n = data + r.below(std::min<size_t>(file.size() - data, 9000)); break;
    case 3: { n = data + (r.below(file.size() - data) & ~size_t{1023}); break; }
    default: n = data + r.below(file.size() - data);
    }
    must_refuse<T>(c, file.substr(0, n), "prefix-accepted", desc + fmt(": first %zu of %zu bytes", n, file.size()), false, k % 4 == 1);
    c.seen("cuts in large files");
  }
  { std::istringstream i(file); npy::tensor<T> x = npy::load<npy::tensor<T>>(i); c.check(x.shape() == shape, "control", desc); }
  c.cover("type", tinfo(t).code);
  c.nontrivial(mix(fnv(file.substr(0, 300)), file.size()));
  c.sample(desc);
}

struct Parts { std::string descr, fortran, shape; };

template <class T> static void malformed(Ctx &c, uint64_t kind) {
  Rng &r = c.rng;
  const int t = type_index<T>();
  bool big = r.chance(50);
  std::vector<size_t> shape;
  for (uint64_t k = r.range(0, 3); k--;) shape.push_back(r.range(1, 12));
  std::vector<T> v = gen_values<T>(r, count_of(shape));
  std::string payload = payload_of(v, big);
  payload += std::string(4096, '\2'); // there is no lack of data
  std::string D = "'" + descr_of(t, big, width_of(v)) + "'", F = r.chance(50) ? "True" : "False", S = py_shape(shape);
  auto dict = [&](const std::string &d, const std::string &f, const std::string &s) { return "{'descr': " + d + ", 'fortran_order': " + f + ", 'shape': " + s + ", }"; };
  std::string what, text, good = dict(D, F, S), file;
  auto sel = [&](std::initializer_list<const char *> l) { auto it = l.begin(); std::advance(it, r.below(l.size())); return std::string(*it); };
  int version = r.chance(70) ? 1 : 2;
  bool peek = true;
  switch (kind) {
  case 0: { // magic
    what = "magic";
    file = ref_npy(good, payload, version);
    size_t p = r.below(6);
    char old = file[p];
    do file[p] = static_cast<char>(r.next()); while (file[p] == old);
    break;
  }
  case 1: { // version
    what = "version";
    file = ref_npy(good, payload, version);
    int a, b;
    do { a = static_cast<int>(r.chance(50) ? r.below(6) : r.below(256)); b = static_cast<int>(r.chance(60) ? 0 : r.below(256)); } while ((a >= 1 && a <= 3) && b == 0);
    file[6] = static_cast<char>(a);
    file[7] = static_cast<char>(b);
    break;
  }
  case 2: { // missing keys
    what = "missing key";
    int keep = static_cast<int>(r.below(7)); // never all three
    std::vector<std::string> parts;
    if (keep & 1) parts.push_back("'descr': " + D);
    if (keep & 2) parts.push_back("'fortran_order': " + F);
    if (keep & 4) parts.push_back("'shape': " + S);
    for (size_t k = parts.size(); k > 1; --k) std::swap(parts[k - 1], parts[r.below(k)]);
    text = "{";
    for (auto &p : parts) text += p + ", ";
    if (parts.size() == 2 && r.chance(40)) text += parts[r.below(2)] + ", "; // one key twice does not replace another
    text += "}";
    break;
  }
  case 3: { // unknown or misspelt keys
    what = "unknown key";
    std::string extra = "'" + sel({"x", "descr2", "Descr", "DESCR", " descr", "descr ", "fortran", "fortran_orde", "fortran_order_", "shapes", "Shape", "", "dtype", "order", "version"}) + "': " + sel({"1", "'<i4'", "True", "False", "(1,)", "None"}) + ", ";
    if (r.chance(60)) {
      std::vector<std::string> parts = {"'descr': " + D + ", ", "'fortran_order': " + F + ", ", "'shape': " + S + ", "};
      parts.insert(parts.begin() + static_cast<long>(r.below(4)), extra);
      if (r.chance(30)) parts.erase(parts.begin() + static_cast<long>(r.below(parts.size())));
      text = "{";
      for (auto &p : parts) text += p;
      text += "}";
      if (text.find(extra) == std::string::npos) text = "{" + extra + "}";
    } else { // a key renamed
      text = good;
      std::string key = sel({"descr", "fortran_order", "shape"});
      size_t p = text.find("'" + key + "'") + 1 + r.below(key.size());
      char old = text[p];
      do text[p] = static_cast<char>(r.range(33, 126)); while (text[p] == old || text[p] == '\'');
    }
    break;
  }
  case 4: what = "descr of the wrong kind"; text = dict(sel({"1", "None", "True", "('<i4',)", "[('a', '<i4')]", "['<i4']", "\"<i4", "<i4", "", "{}", "''", "'", "b'<i4'", "12.5", "'<i4"}), F, S); break;
  case 5: what = "fortran_order of the wrong kind"; text = dict(D, sel({"1", "0", "None", "true", "false", "TRUE", "'True'", "", "(True,)", "Tru", "Fals", "Treu", "Felse", "[False]", "2.0", "T", "F", "not False"}), S); break;
  case 6: what = "shape of the wrong kind"; text = dict(D, F, sel({"3", "[3]", "[3, 4]", "None", "'(3,)'", "True", "{}", "", "3,", "<3,>", "{3}", "3)", "(3", "(3,"})); break;
  case 7: { // garbage inside the tuple
    what = "garbage in the shape";
    std::string bad = sel({"-1", "+1", "1.0", "1.5", "0x3", "1e3", "'3'", "a", "3a", "a3", "3 4", "3;", "3:4", "None", "True", "(3,)", "[3]", "-", "--1", "3-", "3.", ".3", "3'", "\"", "3 x", "_", "inf", "nan", "NaN", "*", "3*2", "3+2", "#", "{}"});
    std::string s = "(";
    size_t n = r.range(1, 4), at = r.below(n);
    for (size_t k = 0; k < n; ++k) s += (k == at ? bad : std::to_string(r.range(1, 9))) + (k + 1 < n ? ", " : n == 1 ? "," : "");
    text = dict(D, F, s + ")");
    break;
  }
  case 8: what = "commas in the shape"; text = dict(D, F, sel({"(,)", "(,3)", "(3,,4)", "(3,,)", "(, 3)", "(3, , 4)", "( ,)", "(3;4)", "(3 4)", "(3, 4 5)", "(3|4)"})); break;
  case 9: { // numbers no size_t holds
    what = "dimension beyond 64 bits";
    std::string s = sel({"18446744073709551616", "18446744073709551617", "99999999999999999999", "340282366920938463463374607431768211456", "184467440737095516160", "100000000000000000000000000000000000000000000000000"});
    text = dict(D, F, r.chance(50) ? "(" + s + ",)" : "(1, " + s + ")");
    break;
  }
  case 10: { // element count overflows
    what = "element count overflow";
    peek = false;
    std::string s;
    switch (r.below(5)) {
    case 0: s = "(4294967296, 4294967296)"; break;
    case 1: s = "(4294967297, 4294967296)"; break;
    case 2: s = "(9223372036854775808, 2)"; break;
    case 3: s = "(18446744073709551615, 18446744073709551615)"; break;
    default: { // a product congruent to a small number
      s = "(4294967296, 2, 2147483648, " + std::to_string(r.range(1, 5)) + ")";
      break;
    }
    }
    text = dict(D, F, s);
    break;
  }
  case 11: { // the dictionary is cut off
    what = "dictionary cut off";
    text = good.substr(0, r.below(good.size() - 1));
    size_t e = text.size();
    // padding may follow or not
    std::string h = text + (r.chance(50) ? std::string(r.below(40), ' ') + "\n" : "");
    (void)e;
    file = std::string("\x93NUMPY", 6) + static_cast<char>(version) + std::string(1, '\0');
    put_int(file, h.size(), version == 1 ? 2 : 4, false);
    // nothing follows which could complete it
    file += h;
    if (r.chance(50)) file += payload;
    break;
  }
  case 12: { // punctuation removed or replaced
    what = "punctuation";
    text = good;
    std::vector<size_t> ps;
    for (size_t k = 0; k < text.size(); ++k) if (strchr("{':(,)", text[k])) ps.push_back(k);
    // the last comma and those in the shape are optional somewhere
    size_t p = ps[r.below(ps.size())];
    size_t sh = text.find("'shape'");
    if (text[p] == ',' && p > sh) p = text.find(':');
    char rep;
    do rep = static_cast<char>(r.range(33, 126)); while (strchr("{':(,)}0123456789", rep));
    if (text[p] == '\'' ) { // a quote lost
      text[p] = rep;
    } else if (r.chance(50)) text[p] = rep; else text.erase(p, 1);
    break;
  }
  case 13: { // string width
    what = "string width";
    // the element type must be the string type for this to matter, any reader must refuse
    text = dict("'" + sel({"<U", ">U", "<U-1", "<Ux", "<U3x", "<U 3", "<U3 ", "<U+3", "|U3", "=U3", "U3", "<U0x3", "<U99999999999999999999", "<U1e3", "<U3.0", "<U,"}) + "'", F, S);
    break;
  }
  case 15: { // the dictionary must be all there is
    what = "garbage after the dictionary";
    std::string junk = sel({"x", "}", "{}", "{", ",", ", {}", ";", "'", "1", "None", "[0]", "()", ".x", "\\", "|1", " x", "  }", "\n{}", "\n\n x", "\t,", "+1", "'descr'", "=", ":"});
    if (r.chance(10)) junk = std::string(1, '\0');
    else if (r.chance(10)) junk = good;
    else if (r.chance(10)) junk = std::string(r.range(1, 300), static_cast<char>(r.range('A', 'Z')));
    text = good + (r.chance(50) ? std::string(r.below(70), ' ') : "") + junk;
    break;
  }
  default: { // header announces more than there is
    what = "header longer than the file";
    file = ref_npy(good, "", 2);
    uint32_t len = static_cast<uint32_t>(file.size() - 12 + r.range(1, r.chance(50) ? 100 : 1u << 20));
    for (int k = 0; k < 4; ++k) file[8 + k] = static_cast<char>(len >> (8 * k));
    break;
  }
  }
  if (file.empty()) {
    // a header longer than 64 KiB needs version 2
    file = ref_npy(text, payload, text.size() > 60000 ? 2 : version, r.chance(80) ? 64 : 16);
  }
  std::string desc = what + fmt(" (type=%s v%d): ", tinfo(t).code, version) + text;
  must_refuse<T>(c, file, "malformed-accepted-" + what, desc, peek, r.chance(10));
  if (!text.empty() && peek && kind != 11) c.check(refused([&] { npy::header_info h(text); }), "malformed-header_info-" + what, desc);
  if (kind == 11) c.check(refused([&] { npy::header_info h(text); }), "malformed-header_info-" + what, desc);
  // the well-formed original is accepted: the refusal is due to the defect
  file = ref_npy(good, payload, version);
  try { std::istringstream i(file); npy::tensor<T> x = npy::load<npy::tensor<T>>(i); c.check(x.shape() == shape, "control", good); }
  catch (const std::exception &e) { c.check(false, "control-refused", good + ": " + e.what()); }
  c.seen("malformed: " + what);
  c.nontrivial(fnv(desc));
  c.sample(desc);
}

void run_case(Ctx &c) {
  uint64_t i = c.idx;
  if (c.mode == "prefix" || c.mode == "prefix2") { with_type(static_cast<int>(i % NTYPES), [&](auto g) { prefixes<typename decltype(g)::type>(c); }); return; }
  if (c.mode == "large") { with_type(static_cast<int>(i % NTYPES), [&](auto g) { large<typename decltype(g)::type>(c); }); return; }
  with_type(static_cast<int>(c.rng.below(NTYPES)), [&](auto g) { malformed<typename decltype(g)::type>(c, i % 16); });
}
