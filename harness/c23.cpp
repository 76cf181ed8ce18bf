// C23: text in string tensors. The Python oracle judges the logged files.
#include "npz.h"
using namespace vt;

static RecordWriter rec;
void begin_run(Ctx &c) { rec.open(c.out + ".rec"); }
void end_run(Ctx &) { rec.close(); }

static std::wstring gen_text(Rng &r, size_t len, int style) {
  static const uint32_t edges[] = {1, 9, 10, 13, 0x1a, 0x20, 0x27, 0x28, 0x29, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0x0a0a, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff,
                                   0x10000, 0x1f600, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x0a000a, 0x000a00, 0xff00, 0x00ff00};
  std::wstring w;
  for (size_t i = 0; i < len; ++i) {
    uint32_t c;
    switch (style) {
    case 0: c = static_cast<uint32_t>(r.range(32, 126)); break;
    case 1: c = edges[r.below(sizeof edges / sizeof *edges)]; break;
    case 2: c = static_cast<uint32_t>(r.range(0xd800, 0xdfff)); break; // lone surrogates
    case 3: c = r.chance(40) ? 0 : static_cast<uint32_t>(r.range('a', 'z')); break;
    case 4: c = static_cast<uint32_t>(r.range(0x10000, 0x10ffff)); break;
    default: do c = static_cast<uint32_t>(r.below(0x110000)); while (c == 0 && r.chance(90));
    }
    w.push_back(static_cast<wchar_t>(c));
  }
  return w;
}
static std::wstring strip(std::wstring w) {
  while (!w.empty() && w.back() == 0) w.pop_back();
  return w;
}
static std::string show(const std::wstring &w) {
  std::string s = fmt("%zu:", w.size());
  for (size_t i = 0; i < w.size() && i < 12; ++i) s += fmt("%x ", static_cast<unsigned>(w[i]));
  return s;
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  if (c.mode == "read") { // files made by NumPy
    RecordReader rr;
    if (!rr.open(c.args["in"] + "/" + std::to_string(c.idx) + ".rec")) { fprintf(stderr, "no record file\n"); exit(3); }
    std::vector<std::string> f; // big, fortran, shape csv, width, number of characters of each string, characters (u32 le), npy file, npz file, description
    while (rr.get(f)) {
      c.evals++;
      bool big = f[0] == "1", fortran = f[1] == "1";
      std::vector<size_t> shape;
      std::stringstream ss(f[2]);
      std::string tok;
      while (std::getline(ss, tok, ',')) if (!tok.empty()) shape.push_back(strtoull(tok.c_str(), nullptr, 10));
      size_t width = strtoull(f[3].c_str(), nullptr, 10), at = 0;
      std::vector<std::wstring> want(f[4].size() / 4);
      for (size_t i = 0; i < want.size(); ++i) {
        uint32_t n, u;
        memcpy(&n, &f[4][i * 4], 4);
        for (uint32_t k = 0; k < n; ++k, at += 4) { memcpy(&u, &f[5][at], 4); want[i].push_back(static_cast<wchar_t>(u)); }
      }
      const std::string &desc = f[8];
      c.note(desc);
      auto judge = [&](auto load, const char *how) {
        std::string why;
        try { npy::tensor<std::wstring> t = load(); same_tensor(t, shape, fortran, want, &why); } catch (const std::exception &e) { why = e.what(); }
        c.check(why.empty(), "text-from-numpy", [&] { return desc + " via " + how + ": " + why; });
      };
      judge([&] { std::istringstream i(f[6]); return npy::load<npy::tensor<std::wstring>>(i); }, "load");
      npy::npzstringreader rd(f[7]);
      judge([&] { return rd.read<npy::tensor<std::wstring>>("text"); }, "archive");
      for (int k = 0; k < 2; ++k) {
        std::istringstream i(f[6]);
        npy::header_info h = k ? rd.peek("text.npy") : npy::peek(i);
        c.check(h.dtype == npy::data_type_t::UNICODE_STRING && h.max_element_length == width && is_big(h.endianness) == big && h.shape == shape, "peek", [&] { return desc + fmt(": width %zu", h.max_element_length); });
      }
      c.seen("NumPy string files read");
      c.nontrivial(fnv(f[6]));
    }
    c.evals--;
    return;
  }
  // text written by the library
  bool huge = c.mode == "huge"; // widths beyond 16 bits
  std::vector<size_t> shape = huge ? std::vector<size_t>{r.range(1, 3)} : gen_shape(r, r.chance(10) ? 2000 : 60, true);
  bool many = c.mode == "many";
  if (many) shape = big_shape(r, r.range(2000, 300000));
  size_t n = count_of(shape);
  bool fortran = r.chance(50);
  npy::endian_t en = ENDIANS[r.below(3)];
  bool big = is_big(en);
  size_t maxlen = r.chance(10) ? 0 : r.chance(8) && n < 40 ? r.range(1000, 12000) : r.chance(40) ? r.range(1, 3) : r.range(1, n > 300 ? 12 : 120);
  if (huge) { static const size_t w[] = {65533, 65534, 65535, 65536, 65537, 70000, 99999, 100000, 131072, 200001}; maxlen = w[c.idx % 10]; }
  if (many) maxlen = r.range(1, 1200000 / n + 2);
  size_t longest = many ? (r.chance(50) ? n - 1 - r.below(std::min<size_t>(n, 40)) : r.below(n)) : 0; // one string longer than the others
  int style = static_cast<int>(r.below(7)), tails = static_cast<int>(r.below(3));
  std::vector<std::wstring> v(n), want(n);
  for (size_t i = 0; i < n; ++i) {
    size_t len = huge && i == 0 ? maxlen : r.chance(15) ? 0 : r.chance(15) ? maxlen : r.range(0, maxlen);
    if (many && i == longest) len = maxlen + r.range(1, 3);
    v[i] = gen_text(r, len, style == 6 ? static_cast<int>(r.below(6)) : style);
    if (tails == 1 && r.chance(30)) v[i] += std::wstring(r.range(1, 5), L'\0');
    if (tails == 2) while (!v[i].empty() && v[i].back() == 0) v[i].back() = L'z';
    want[i] = strip(v[i]);
  }
  size_t width = width_of(v);
  npy::tensor<std::wstring> t(shape, fortran);
  if (r.chance(50)) t.copy_from(v); else { std::vector<std::wstring> m = v; t.move_from(std::move(m)); }
  std::string desc = fmt("strings %s%s up to %zu characters, style %d tails %d endian %d", shape_str(shape).c_str(), fortran ? "F" : "", width, style, tails, static_cast<int>(en));
  c.note(desc);
  auto judge = [&](auto load, const char *how) {
    std::string why;
    try {
      npy::tensor<std::wstring> got = load();
      if (!same_tensor(got, shape, fortran, want, &why)) { size_t k = first_diff(got.values(), want); if (k < n && k < got.size()) why += " got " + show(got.values()[k]) + "want " + show(want[k]); }
    } catch (const std::exception &e) { why = e.what(); }
    c.check(why.empty(), "text", [&] { return desc + " via " + how + ": " + why; });
  };
  c.check(t.dtype(en) == descr_of(T_STR, big, width), "dtype", [&] { return desc + ": " + t.dtype(en); });
  std::ostringstream o;
  npy::save(o, t, en);
  std::string bytes = o.str(), path = c.path("s.npy"), zpath = c.path("s.npz");
  Parsed p = parse_npy(bytes);
  if (!c.check(p.ok && p.descr == descr_of(T_STR, big, width), "width", [&] { return desc + ": stored as " + p.descr; })) return;
  c.check(bytes.substr(p.data) == payload_of(v, big), "characters", desc);
  judge([&] { std::istringstream i(bytes); return npy::load<npy::tensor<std::wstring>>(i); }, "stream");
  t.save(path, en);
  judge([&] { return npy::tensor<std::wstring>::from_file(path); }, "path");
  npy::compression_method_t method = METHODS[r.below(2)];
  std::string z;
  if (r.chance(50)) {
    npy::npzstringwriter w(method, en);
    w.write("text", t);
    w.write("bytes", npy::tensor<uint8_t>({3}));
    w.close();
    z = w.str();
    npy::npzstringreader rd(z);
    judge([&] { return rd.read<npy::tensor<std::wstring>>("text"); }, "string archive");
    c.check(rd.peek("text").max_element_length == width, "peek", desc);
  } else {
    npy::npzfilewriter w(zpath, method, en);
    w.write("text.npy", t);
    w.close();
    z = slurp(zpath);
    npy::npzfilereader rd(zpath);
    judge([&] { return rd.read<npy::tensor<std::wstring>>("text"); }, "file archive");
    c.check(rd.peek("text").max_element_length == width, "peek", desc);
  }
  // saved again, what was loaded means the same
  {
    std::istringstream i(bytes);
    npy::tensor<std::wstring> back = npy::load<npy::tensor<std::wstring>>(i);
    std::ostringstream o2;
    npy::endian_t en2 = ENDIANS[r.below(3)];
    npy::save(o2, back, en2);
    std::string b2 = o2.str();
    judge([&] { std::istringstream i2(b2); return npy::load<npy::tensor<std::wstring>>(i2); }, "saving what was loaded");
  }
  c.cover("longest string", width);
  c.cover("style x tails x endian", fmt("%d %d %d", style, tails, static_cast<int>(en)));
  c.seen("strings", n);
  c.nontrivial(fnv(bytes));
  c.sample(desc);
  std::string sh, lens, chars;
  for (size_t d : shape) sh += std::to_string(d) + ",";
  for (auto &w : want) { put_int(lens, w.size(), 4, false); for (wchar_t ch : w) put_int(chars, static_cast<uint32_t>(ch), 4, false); }
  std::string meta = fmt("%d;%d;", big, fortran) + sh + ";" + std::to_string(width);
  rec.put({&meta, &lens, &chars, &bytes, &z, &desc});
}
