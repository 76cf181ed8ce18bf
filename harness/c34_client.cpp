// C34: the first file of the program. Usage: client SEED FIRST LAST DIRECTORY
// Writes one line per observation: "case what digest detail".
#include "c34_client.h"
#include <complex>
#include <cstdlib>
#include <exception>
#include <filesystem>
#include <fstream>
#include <limits>
#include <new>
#include <sstream>
#include <sys/resource.h>

static std::uint64_t g_case = 0;
static void say(const char *what, std::uint64_t d, const std::string &detail) { std::fprintf(stderr, "%llu %s %016llx %s\n", static_cast<unsigned long long>(g_case), what, static_cast<unsigned long long>(d), detail.c_str()); }
static void say(const char *what, const std::string &bytes, const std::string &detail) { say(what, digest(bytes), std::to_string(bytes.size()) + " bytes; " + detail); }
static bool good(bool ok, const char *what, const std::string &detail) {
  if (!ok) say("BAD", 0, std::string(what) + ": " + detail);
  return ok;
}
static const npy::endian_t ENDIANS[] = {npy::endian_t::NATIVE, npy::endian_t::LITTLE, npy::endian_t::BIG};
static const npy::compression_method_t METHODS[] = {npy::compression_method_t::STORED, npy::compression_method_t::DEFLATED};

template <class T> static void fill(Rnd &r, T &v, int style) {
  std::uint64_t bits[2];
  bits[0] = style == 0 ? r.next() : style == 1 ? r.below(5) : 0x8080808080808080ull | r.next();
  bits[1] = style == 0 ? r.next() : style == 1 ? r.below(5) : 0xFF00FF00FF00FF00ull ^ r.next();
  std::memcpy(static_cast<void *>(&v), bits, sizeof(T));
}
static void fill(Rnd &r, npy::boolean &v, int) { v = r.below(2) == 1; }
static void fill(Rnd &r, std::wstring &v, int style) {
  static const std::size_t tops[] = {0x80, 0x100, 0x10FFFF, 4};
  v.clear();
  const std::size_t n = r.below(7), top = tops[r.below(4)];
  for (std::size_t i = 0; i < n; ++i) v.push_back(static_cast<wchar_t>(r.below(top) + (style == 1 ? 0 : 1)));
  while (!v.empty() && v.back() == L'\0') v.pop_back();
}
template <class T> static std::uint64_t value_digest(const T &v, std::uint64_t h) { return digest(&v, sizeof v, h); }
static std::uint64_t value_digest(const std::wstring &v, std::uint64_t h) {
  for (std::size_t i = 0; i < v.size(); ++i) {
    const std::uint32_t c = static_cast<std::uint32_t>(v[i]);
    h = digest(&c, sizeof c, h);
  }
  const std::uint64_t n = v.size();
  return digest(&n, sizeof n, h);
}
template <class T> static std::uint64_t tensor_digest(const npy::tensor<T> &t) {
  std::uint64_t h = 7;
  for (std::size_t i = 0; i < t.ndim(); ++i) {
    const std::uint64_t d = t.shape(static_cast<int>(i));
    h = digest(&d, sizeof d, h);
  }
  const unsigned char f = t.fortran_order() ? 1 : 0, k = static_cast<unsigned char>(t.dtype());
  h = digest(&f, 1, h);
  h = digest(&k, 1, h);
  for (auto i = t.begin(); i != t.end(); ++i) h = value_digest(*i, h);
  return h;
}
static std::string header_text(const npy::header_info &i) {
  std::ostringstream o;
  o << i.dtype << " " << i.endianness << " " << i.fortran_order << " " << i.max_element_length;
  for (std::size_t k = 0; k < i.shape.size(); ++k) o << " " << i.shape[k];
  return o.str();
}
static std::string slurp(const std::string &p) {
  std::ifstream i(p, std::ios::binary);
  std::ostringstream o;
  if (i.peek() != std::char_traits<char>::eof()) o << i.rdbuf();
  return o.str();
}
static std::string random_name(Rnd &r) {
  std::string n;
  const std::size_t len = r.below(12) + 1;
  const bool high = r.below(2) == 1;
  for (std::size_t i = 0; i < len; ++i) n.push_back(static_cast<char>(static_cast<unsigned char>(high ? 0x60 + r.below(0x90) : 'a' + r.below(6))));
  return n;
}
static std::vector<std::size_t> random_shape(Rnd &r) {
  std::vector<std::size_t> s(r.below(5));
  const std::size_t top = s.size() < 2 ? 300 : 7;
  for (std::size_t i = 0; i < s.size(); ++i) s[i] = r.below(top) + (r.below(20) ? 1 : 0);
  return s;
}
// sizes made by damage are refused at the same point in every build
static const std::size_t MOST = 128u << 20;
void *operator new(std::size_t n) {
  void *p = n > MOST ? nullptr : std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }

template <class F> static void outcome(const char *what, const std::string &detail, F f) {
  std::uint64_t d = 0;
  std::string o = "returned";
  try {
    d = f();
  } catch (const std::bad_alloc &) {
    o = "found no memory";
    d = 3;
  } catch (const std::exception &) {
    o = "threw";
    d = 1;
  } catch (...) {
    o = "threw something else";
    d = 2;
  }
  say(what, d, o + " " + detail);
}

template <class T> static void array_case(Rnd &r, const std::string &dir) {
  const std::vector<std::size_t> shape = random_shape(r);
  const bool fortran = r.below(2) == 1;
  const int style = static_cast<int>(r.below(3));
  npy::tensor<T> t(shape, fortran);
  for (auto i = t.begin(); i != t.end(); ++i) fill(r, *i, style);
  const npy::endian_t e = ENDIANS[r.below(3)];
  const std::string desc = "type " + std::to_string(static_cast<int>(t.dtype())) + " of " + std::to_string(t.size()) + (fortran ? " column-major" : " row-major");
  std::ostringstream o;
  npy::save(o, t, e);
  const std::string bytes = o.str();
  say("npy", bytes, desc);
  say("tensor", tensor_digest(t), desc);
  {
    std::istringstream i(bytes);
    const npy::tensor<T> u = npy::load<npy::tensor<T>>(i);
    good(tensor_digest(u) == tensor_digest(t), "loaded", desc);
  }
  {
    const std::string p = dir + "/a.npy";
    npy::save(p, t, e);
    good(slurp(p) == bytes, "saved to a file", desc);
    const npy::tensor<T> u = npy::load<T, npy::tensor>(p);
    good(tensor_digest(u) == tensor_digest(t), "loaded from a file", desc);
    say("peek", digest(header_text(npy::peek(p))), header_text(npy::peek(p)));
  }
  { // the building blocks
    std::ostringstream b;
    npy::write_npy_header(b, t.dtype(e), fortran, shape);
    npy::write_values(b, t.data(), t.size(), e);
    good(b.str() == bytes, "assembled", desc);
    std::istringstream i(bytes);
    const npy::header_info info = npy::read_npy_header(i);
    npy::tensor<T> u(info.shape, info.fortran_order);
    npy::read_values(i, u.data(), u.size(), info);
    good(tensor_digest(u) == tensor_digest(t), "taken apart", desc);
  }
  // indexing from both ends
  if (t.size() > 0) {
    std::vector<std::int32_t> at(shape.size());
    for (std::size_t k = 0; k < shape.size(); ++k) at[k] = static_cast<std::int32_t>(r.below(2 * shape[k])) - static_cast<std::int32_t>(shape[k]);
    say("element", value_digest(t.get(at), 3), desc);
    if (!at.empty()) {
      const std::size_t k = r.below(at.size());
      at[k] = r.below(2) ? static_cast<std::int32_t>(shape[k]) : -static_cast<std::int32_t>(shape[k]) - 1;
      outcome("outside", desc, [&] { return value_digest(t.get(at), 3); });
    }
  }
  // copies and moves
  npy::tensor<T> c(t), m(std::vector<std::size_t>{2});
  m = std::move(c);
  good(tensor_digest(m) == tensor_digest(t), "copied and moved", desc);
  // damaged
  for (int k = 0; k < 8; ++k) {
    std::string hurt = bytes;
    const std::size_t at = r.below(hurt.size() < 140 ? hurt.size() : 140);
    const unsigned char x = static_cast<unsigned char>(r.next() >> 20);
    if (k < 6) hurt[at] = static_cast<char>(x);
    else hurt.resize(at);
    outcome("damaged", desc + " at " + std::to_string(at), [&] {
      std::istringstream i(hurt);
      return tensor_digest(npy::load<npy::tensor<T>>(i));
    });
    outcome("damaged-peek", desc + " at " + std::to_string(at), [&] {
      std::istringstream i(hurt);
      return digest(header_text(npy::peek(i)));
    });
  }
}

template <class R> static std::string listing(R &rd) {
  std::string s;
  const std::vector<std::string> &k = rd.keys();
  for (std::size_t i = 0; i < k.size(); ++i) {
    s += k[i] + (rd.contains(k[i]) ? "+" : "-");
    try {
      s += header_text(rd.peek(k[i]));
      const npy::tensor<double> t = rd.template read<npy::tensor<double>>(k[i]);
      s += " " + std::to_string(tensor_digest(t));
    } catch (const std::exception &) {
      s += " threw";
    }
    s += ";";
  }
  return s;
}
template <class W> static void write_members(W &w, const std::vector<std::string> &names, const std::vector<npy::tensor<double>> &ts) {
  for (std::size_t i = 0; i < names.size(); ++i) {
    if (i & 1) other_write(w, names[i], ts[i]);
    else w.write(names[i], ts[i]);
  }
}
static void archive_case(Rnd &r, const std::string &dir) {
  std::vector<std::string> names;
  std::vector<npy::tensor<double>> ts;
  const std::size_t n = r.below(6);
  const bool big = r.below(6) == 0;
  for (std::size_t i = 0; i < n; ++i) {
    const std::string name = random_name(r);
    names.push_back(name);
    std::vector<std::size_t> shape = random_shape(r);
    if (big) shape.assign(1, r.below(60000));
    const bool fortran = r.below(2) == 1;
    const int style = static_cast<int>(r.below(3));
    npy::tensor<double> t(shape, fortran);
    for (auto k = t.begin(); k != t.end(); ++k) fill(r, *k, style);
    ts.push_back(t);
  }
  const npy::endian_t e = ENDIANS[r.below(3)];
  const npy::compression_method_t m = METHODS[r.below(2)];
  const std::string desc = std::to_string(n) + " members, method " + std::to_string(static_cast<int>(m));
  npy::npzstringwriter w(m, e);
  write_members(w, names, ts);
  w.close();
  const std::string bytes = w.str(), p = dir + "/a.npz";
  say("npz", bytes, desc);
  {
    npy::npzfilewriter f(p, m, e);
    write_members(f, names, ts);
    f.close();
  }
  good(slurp(p) == bytes, "archive file", desc);
  npy::npzstringreader a(bytes);
  npy::npzfilereader b(p);
  const std::string l = listing(a);
  say("listing", l, desc);
  good(listing(b) == l, "listing of a file", desc);
  for (std::size_t i = 0; i < n; ++i) {
    bool again = false;
    for (std::size_t k = i + 1; k < n; ++k) if (names[k] == names[i]) again = true;
    if (again) continue;
    good(tensor_digest(a.read<npy::tensor<double>>(names[i])) == tensor_digest(ts[i]), "member", desc);
    good(tensor_digest(other_read(b, names[i])) == tensor_digest(ts[i]), "member of a file", desc);
    good(tensor_digest(other_read(a, names[i])) == tensor_digest(ts[i]), "member, again", desc);
  }
  outcome("absent", desc, [&] { return tensor_digest(a.read<npy::tensor<double>>("absent")); });
  for (int k = 0; k < 10; ++k) {
    std::string hurt = bytes;
    const std::size_t tail = hurt.size() < 400 ? hurt.size() : 400, at = k & 1 ? r.below(hurt.size()) : hurt.size() - 1 - r.below(tail);
    const unsigned char x = static_cast<unsigned char>(r.next() >> 20);
    if (k < 8) hurt[at] = static_cast<char>(x);
    else hurt.resize(at);
    outcome("damaged-archive", desc + " at " + std::to_string(at), [&] {
      npy::npzstringreader d(hurt);
      return digest(listing(d));
    });
  }
}

template <class T> static void booleans(Rnd &r, std::string &out) {
  for (int i = 0; i < 6; ++i) {
    T v;
    fill(r, v, i % 3);
    if (i == 5) v = T(0);
    npy::boolean a(v), b;
    b = v;
    out.push_back(static_cast<char>('0' + a.value));
    out.push_back(static_cast<char>('0' + b.value));
    out.push_back(a ? 'T' : 'F');
  }
}
static void small_case(Rnd &r) {
  std::string s;
  for (int d = 0; d < 13; ++d)
    for (int e = 0; e < 3; ++e) {
      const std::string &name = npy::to_dtype(static_cast<npy::data_type_t>(d), ENDIANS[e]);
      const std::pair<npy::data_type_t, npy::endian_t> &back = npy::from_dtype(name);
      std::ostringstream o;
      o << name << back.first << back.second << ENDIANS[e];
      s += o.str();
    }
  say("dtypes", s, s.substr(0, 60));
  s.clear();
  booleans<std::int8_t>(r, s);
  booleans<std::uint8_t>(r, s);
  booleans<std::int16_t>(r, s);
  booleans<std::uint32_t>(r, s);
  booleans<std::int64_t>(r, s);
  booleans<float>(r, s);
  booleans<double>(r, s);
  npy::boolean c('\xFF'), f(0.25), nan(std::numeric_limits<double>::quiet_NaN()), n(-1);
  s += c && f && nan && n ? "all" : "not all";
  s += c == n ? "equal" : "unequal";
  say("booleans", s, s);
  static const char *const DICTS[] = {"{'descr': '<f8', 'fortran_order': False, 'shape': (3, 4), }", "{'descr': '>U12', 'fortran_order': True, 'shape': (), }", "{'descr': '|i1', 'fortran_order': False, 'shape': (18446744073709551615,), }",
                                      "{'shape': (1,), 'fortran_order': True, 'descr': '|b1', }", "{'descr': '<f8\xff', 'fortran_order': False, 'shape': (3, 4), }", "{'descr': '<f8', 'fortran_order': False, 'shape': (-3, 4), }",
                                      "{'descr': '<f8', 'fortran_order': False, 'shape': (3\xa0, 4), }", "{\x85'descr': '<f8', 'fortran_order': False, 'shape': (3, 4), }", "\xfe", ""};
  for (std::size_t i = 0; i < sizeof DICTS / sizeof DICTS[0]; ++i) {
    std::string d = DICTS[i];
    const std::size_t at = r.below(d.size() + 1);
    const unsigned char x = static_cast<unsigned char>(r.next() >> 20);
    if (g_case % 3 != 0 && at < d.size()) d[at] = static_cast<char>(x);
    outcome("dictionary", std::to_string(i), [&] { return digest(header_text(npy::header_info(d))); });
    outcome("dictionary-elsewhere", std::to_string(i), [&] { return digest(header_text(other_header(d))); });
  }
  const std::size_t rows = r.below(4) + 1;
  const bool fortran = r.below(2) == 1;
  npy::tensor<std::int32_t> t(std::vector<std::size_t>{rows, 5}, fortran);
  for (auto i = t.begin(); i != t.end(); ++i) fill(r, *i, 0);
  const npy::endian_t e = ENDIANS[r.below(3)];
  const std::string there = other_save(t, e);
  std::ostringstream here;
  npy::save(here, t, e);
  good(here.str() == there, "saved in another file", "");
  good(tensor_digest(other_load(there)) == tensor_digest(t), "loaded in another file", "");
  std::vector<std::wstring> v(r.below(5));
  for (std::size_t i = 0; i < v.size(); ++i) fill(r, v[i], 0);
  const npy::tensor<std::wstring> w = other_strings(v);
  say("strings", tensor_digest(w), w.dtype(npy::endian_t::LITTLE));
}

// the program of the README
static void sample_case(const std::string &dir) {
  const std::string color_npy = dir + "/color.npy", test_npz = dir + "/test.npz";
  npy::tensor<std::uint8_t> color({32, 32, 3});
  for (int row = 0; row < static_cast<int>(color.shape(0)); ++row) {
    for (int col = 0; col < static_cast<int>(color.shape(1)); ++col) {
      color(row, col, 0) = static_cast<std::uint8_t>(row << 3);
      color(row, col, 1) = static_cast<std::uint8_t>(col << 3);
      color(row, col, 2) = 128;
    }
  }
  npy::save(color_npy, color);
  npy::save(color_npy, color, npy::endian_t::BIG);
  color.save(color_npy);
  npy::header_info header = npy::peek(color_npy);
  color = npy::load<std::uint8_t, npy::tensor>(color_npy);
  npy::tensor<float> gray({32, 32});
  for (int row = 0; row < static_cast<int>(gray.shape(0)); ++row) {
    for (int col = 0; col < static_cast<int>(gray.shape(1)); ++col) gray(row, col) = static_cast<float>(color(row, col, 0) * 2 + color(row, col, 1) * 4 + color(row, col, 2));
  }
  {
    npy::npzfilewriter output(test_npz.c_str());
    output.write("color.npy", color);
    output.write("gray.npy", gray);
  }
  {
    npy::npzfilereader input(test_npz.c_str());
    if (good(input.is_open() && input.contains("color.npy"), "sample", "contains")) header = input.peek("color.npy");
    color = input.read<npy::tensor<std::uint8_t>>("color.npy");
    gray = input.read<float, npy::tensor>("gray.npy");
    input.close();
    good(!input.is_open(), "sample", "close");
  }
  say("sample", slurp(test_npz), header_text(header));
  say("sample-tensors", tensor_digest(color) ^ tensor_digest(gray), "");
}
template <class T> static void interface_case(Rnd &r, const std::string &dir) {
  const std::string p = dir + "/i.npy";
  npy::tensor<T> t(std::vector<std::size_t>{2, 3}, true);
  std::vector<T> v(6);
  for (std::size_t i = 0; i < v.size(); ++i) fill(r, v[i], 1);
  t.copy_from(v);
  t.copy_from(v.data(), v.size());
  t.set({1, -1}, v[0]);
  const npy::tensor<T> &c = t;
  const std::vector<std::size_t> at = {1, 2};
  std::uint64_t h = value_digest(c(at), value_digest(c(1, -1), value_digest(c.get({-1, 2}), 5)));
  h = value_digest(t(at), value_digest(t(1, 2), h));
  good(value_digest(c(at), 1) == value_digest(v[0], 1), "set", "");
  t.save(p);
  t.save(p, npy::endian_t::BIG);
  npy::tensor<T> u = npy::tensor<T>::from_file(p);
  good(u.values() == c.values() && u.shape() == c.shape() && u.ndim() == 2 && u.size() == 6 && u.fortran_order(), "from_file", "");
  good(u.ravel(at) == 5 && u.ravel(std::vector<std::int32_t>{0, 1}) == 2, "ravel", "");
  u.move_from(std::move(v));
  std::size_t n = 0;
  for (const T &x : c) h = value_digest(x, h), ++n;
  for (T &x : u) x = T(), ++n;
  good(n == 12 && c.data() == &*c.begin() && c.end() - c.begin() == 6, "range", "");
  outcome("wrong-count", "", [&] { t.copy_from(u.data(), 5); return std::uint64_t(0); });
  const std::filesystem::path z = dir + "/i.npz";
  npy::compression_method_t m = METHODS[r.below(2)];
  {
    npy::npzfilewriter w(z, m);
    good(w.is_open(), "is_open", "");
    w.write("t", t);
    w.close();
    outcome("late", "", [&] { w.write("u", u); return std::uint64_t(0); });
  }
  npy::npzfilereader a(z), b(z.string());
  std::string copy = slurp(z.string());
  npy::npzstringreader d(copy), e(std::move(copy));
  good(tensor_digest(a.template read<npy::tensor<T>>("t")) == tensor_digest(t) && tensor_digest(b.template read<T, npy::tensor>("t.npy")) == tensor_digest(t), "readers", "");
  good(tensor_digest(d.template read<T, npy::tensor>("t")) == tensor_digest(t) && e.keys() == a.keys(), "string readers", "");
  npy::header_info info(t.dtype(), npy::endian_t::BIG, true, t.shape());
  say("interface", h, header_text(info) + " " + t.dtype(npy::endian_t::LITTLE));
}

int main(int argc, char **argv) {
  if (argc < 5) return 3;
  rlimit l = {2048u << 20, 2048u << 20};
  setrlimit(RLIMIT_AS, &l);
  const std::uint64_t seed = std::strtoull(argv[1], nullptr, 10), first = std::strtoull(argv[2], nullptr, 10), last = std::strtoull(argv[3], nullptr, 10);
  const std::string dir = argv[4];
  const Layout a = layout(), b = other_layout();
  bool same = a.count == b.count;
  for (int i = 0; i < a.count; ++i) same = same && a.sizes[i] == b.sizes[i];
  good(same, "layout", "classes differ in size between files of the program");
  for (g_case = first; g_case < last; ++g_case) {
    Rnd r(seed * 1000003 + g_case);
    try {
      switch (g_case % 20) {
      case 0: array_case<std::int8_t>(r, dir); break;
      case 1: array_case<std::uint8_t>(r, dir); break;
      case 2: array_case<std::int16_t>(r, dir); break;
      case 3: array_case<std::uint16_t>(r, dir); break;
      case 4: array_case<std::int32_t>(r, dir); break;
      case 5: array_case<std::uint32_t>(r, dir); break;
      case 6: array_case<std::int64_t>(r, dir); break;
      case 7: array_case<std::uint64_t>(r, dir); break;
      case 8: array_case<float>(r, dir); break;
      case 9: array_case<double>(r, dir); break;
      case 10: array_case<std::complex<float>>(r, dir); break;
      case 11: array_case<std::complex<double>>(r, dir); break;
      case 12: array_case<npy::boolean>(r, dir); break;
      case 13:
      case 14: array_case<std::wstring>(r, dir); break;
      case 15:
      case 16:
      case 17:
      case 18: archive_case(r, dir); break;
      default:
        small_case(r);
        sample_case(dir);
        interface_case<std::int8_t>(r, dir);
        interface_case<std::uint16_t>(r, dir);
        interface_case<std::int64_t>(r, dir);
        interface_case<float>(r, dir);
        interface_case<std::complex<double>>(r, dir);
        interface_case<npy::boolean>(r, dir);
        interface_case<std::wstring>(r, dir);
        break;
      }
    } catch (const std::exception &x) {
      say("BAD", 0, std::string("unexpected exception: ") + x.what());
    }
  }
  std::fprintf(stderr, "end\n");
  return 0;
}
