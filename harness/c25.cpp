// C25: tensor classes of the user.
#include <deque>
#include "npz.h"
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

// what goes wrong, and where
enum { AT_DTYPE = 1, AT_NDIM, AT_SHAPE, AT_ORDER, AT_SAVE, AT_SAVE_LATE, AT_LOAD, AT_LOAD_LATE, AT_END };
enum { AS_STD, AS_DERIVED, AS_OWN, AS_INT, AS_CSTR, AS_BAD_ALLOC, AS_IOS, AS_END };
static int g_at = 0, g_as = 0;
static uint64_t g_token = 0, g_calls = 0;
struct Derived : std::out_of_range { uint64_t token; explicit Derived(uint64_t t) : std::out_of_range("derived"), token(t) {} };
struct Own { uint64_t token; };
static const char *const CSTR = "a string";
static void point(int where) {
  ++g_calls;
  if (g_at != where) return;
  switch (g_as) {
  case AS_STD: throw std::runtime_error("token " + std::to_string(g_token));
  case AS_DERIVED: throw Derived(g_token);
  case AS_OWN: throw Own{g_token};
  case AS_INT: throw static_cast<int>(g_token & 0xffff);
  case AS_CSTR: throw CSTR;
  case AS_BAD_ALLOC: throw std::bad_alloc();
  default: throw std::ios_base::failure("token " + std::to_string(g_token));
  }
}
// "" if f lets exactly that exception through
template <class F> static std::string propagates(F f) {
  try {
    f();
  } catch (const Derived &e) { return g_as == AS_DERIVED && e.token == g_token && std::string(e.what()) == "derived" ? "" : "another exception"; }
  catch (const Own &e) { return g_as == AS_OWN && e.token == g_token ? "" : "another exception"; }
  catch (int e) { return g_as == AS_INT && e == static_cast<int>(g_token & 0xffff) ? "" : "another exception"; }
  catch (const char *e) { return g_as == AS_CSTR && e == CSTR ? "" : "another exception"; }
  catch (const std::bad_alloc &) { return g_as == AS_BAD_ALLOC ? "" : "bad_alloc"; }
  catch (const std::ios_base::failure &e) { return g_as == AS_IOS && std::string(e.what()).find("token " + std::to_string(g_token)) == 0 ? "" : std::string("another failure: ") + e.what(); }
  catch (const std::runtime_error &e) { return g_as == AS_STD && typeid(e) == typeid(std::runtime_error) && e.what() == "token " + std::to_string(g_token) ? "" : std::string("another exception: ") + e.what(); }
  catch (const std::exception &e) { return std::string("another exception: ") + e.what(); }
  return "returned normally";
}

template <class T> static npy::data_type_t dtype_for() { return tinfo(type_index<T>()).dtype; }
template <class T> static std::string dtype_string(const std::vector<T> &v, npy::endian_t en) {
  if constexpr (std::is_same_v<T, std::wstring>) return descr_of(T_STR, is_big(en), width_of(v));
  else return npy::to_dtype(dtype_for<T>(), en);
}

// storage which has been used before: reading replaces what is there
template <class T> static std::vector<T> used(size_t n) {
  if constexpr (std::is_same_v<T, std::wstring>) return std::vector<T>(n, L"used before");
  else { std::vector<T> v(n); if (n) std::memset(static_cast<void *>(v.data()), 0x5a, n * sizeof(T)); return v; }
}

// 1. contiguous storage and one call for all of it
template <class T> struct Flat {
  std::vector<size_t> dims;
  bool order = false;
  std::vector<T> v;
  static Flat make(const std::vector<size_t> &s, bool f, const std::vector<T> &x) { return Flat{s, f, x}; }
  std::vector<T> values() const { return v; }
  size_t ndim() const { point(AT_NDIM); return dims.size(); }
  size_t shape(int i) const { point(AT_SHAPE); return dims[static_cast<size_t>(i)]; }
  bool fortran_order() const { point(AT_ORDER); return order; }
  npy::data_type_t dtype() const { return dtype_for<T>(); }
  std::string dtype(npy::endian_t e) const { point(AT_DTYPE); return dtype_string(v, e); }
  void save(std::basic_ostream<char> &o, npy::endian_t e) const { point(AT_SAVE); npy::write_values(o, v.data(), v.size(), e); point(AT_SAVE_LATE); }
  static Flat load(std::basic_istream<char> &i, const npy::header_info &h) {
    point(AT_LOAD);
    if (h.dtype != dtype_for<T>()) throw std::invalid_argument("dtype");
    Flat f{h.shape, h.fortran_order, used<T>(count_of(h.shape))};
    npy::read_values(i, f.v.data(), f.v.size(), h);
    point(AT_LOAD_LATE);
    return f;
  }
};
// 2. scattered storage, a copy on the way; always row-major in memory, writes either order
template <class T> struct Scattered {
  std::vector<size_t> dims;
  bool order = false;
  std::deque<T> v; // in file order
  static Scattered make(const std::vector<size_t> &s, bool f, const std::vector<T> &x) { return Scattered{s, f, std::deque<T>(x.begin(), x.end())}; }
  std::vector<T> values() const { return std::vector<T>(v.begin(), v.end()); }
  std::size_t ndim() const { point(AT_NDIM); return dims.size(); }
  std::size_t shape(std::size_t i) const { point(AT_SHAPE); return dims.at(i); }
  bool fortran_order() const { point(AT_ORDER); return order; }
  std::string dtype(npy::endian_t e) const { point(AT_DTYPE); return dtype_string(values(), e); }
  void save(std::ostream &o, npy::endian_t e) const {
    point(AT_SAVE);
    std::vector<T> tmp = values();
    npy::write_values(o, tmp.data(), tmp.size(), e);
    point(AT_SAVE_LATE);
  }
  static Scattered load(std::istream &i, const npy::header_info &h) {
    point(AT_LOAD);
    if (h.dtype != dtype_for<T>()) throw std::invalid_argument("dtype");
    std::vector<T> tmp = used<T>(count_of(h.shape));
    npy::read_values(i, tmp.data(), tmp.size(), h);
    point(AT_LOAD_LATE);
    return make(h.shape, h.fortran_order, tmp);
  }
};
// 3. element by element (no strings: their width is that of the values of one call)
template <class T> struct Stepwise {
  std::vector<size_t> dims;
  bool order = false;
  std::map<size_t, T> v;
  static Stepwise make(const std::vector<size_t> &s, bool f, const std::vector<T> &x) { Stepwise t{s, f, {}}; for (size_t i = 0; i < x.size(); ++i) t.v[i] = x[i]; return t; }
  std::vector<T> values() const { std::vector<T> o; for (auto &e : v) o.push_back(e.second); return o; }
  int ndim() const { point(AT_NDIM); return static_cast<int>(dims.size()); }
  size_t shape(int i) const { point(AT_SHAPE); return dims[static_cast<size_t>(i)]; }
  bool fortran_order() const { point(AT_ORDER); return order; }
  std::string dtype(npy::endian_t e) const { point(AT_DTYPE); return npy::to_dtype(dtype_for<T>(), e); }
  void save(std::ostream &o, npy::endian_t e) const {
    point(AT_SAVE);
    size_t k = 0;
    while (k < v.size()) { // pieces of 1, 2, 3, 1... elements
      std::vector<T> piece;
      for (size_t n = 1 + k % 3; n-- && k < v.size(); ++k) piece.push_back(v.at(k));
      npy::write_values(o, piece.data(), piece.size(), e);
    }
    point(AT_SAVE_LATE);
  }
  static Stepwise load(std::istream &i, const npy::header_info &h) {
    point(AT_LOAD);
    if (h.dtype != dtype_for<T>()) throw std::invalid_argument("dtype");
    size_t n = count_of(h.shape), k = 0;
    std::vector<T> all = used<T>(n);
    while (k < n) { size_t m = std::min<size_t>(1 + k % 3, n - k); npy::read_values(i, all.data() + k, m, h); k += m; }
    point(AT_LOAD_LATE);
    return make(h.shape, h.fortran_order, all);
  }
};
// 4. a matrix: always two dimensions, its own memory order, transposing as it reads (as in the examples)
template <class T> struct Matrix {
  size_t rows = 0, cols = 0;
  std::vector<T> v; // column-major
  size_t ndim() const { point(AT_NDIM); return 2; }
  size_t shape(int i) const { point(AT_SHAPE); return i ? cols : rows; }
  bool fortran_order() const { point(AT_ORDER); return true; }
  std::string dtype(npy::endian_t e) const { point(AT_DTYPE); return dtype_string(v, e); }
  void save(std::ostream &o, npy::endian_t e) const { point(AT_SAVE); npy::write_values(o, v.data(), v.size(), e); point(AT_SAVE_LATE); }
  static Matrix load(std::istream &i, const npy::header_info &h) {
    point(AT_LOAD);
    if (h.shape.size() != 2 || h.dtype != dtype_for<T>()) throw std::invalid_argument("not this kind of matrix");
    Matrix m;
    m.rows = h.shape[0];
    m.cols = h.shape[1];
    std::vector<T> raw = used<T>(m.rows * m.cols);
    npy::read_values(i, raw.data(), raw.size(), h);
    m.v.resize(raw.size());
    for (size_t a = 0; a < m.rows; ++a) for (size_t b = 0; b < m.cols; ++b) m.v[b * m.rows + a] = h.fortran_order ? raw[b * m.rows + a] : raw[a * m.cols + b];
    point(AT_LOAD_LATE);
    return m;
  }
};

template <class X, class T> static void exceptions(Ctx &c, const std::string &desc, const X &x, const std::string &bytes, npy::endian_t en) {
  Rng &r = c.rng;
  std::string p = c.path("e.npy"), z = c.path("e.npz"), q = c.path("q.npy");
  spew(p, bytes);
  npy::npzstringwriter good(METHODS[r.below(2)], en);
  good.write("m", x);
  good.close();
  spew(z, good.str());
  for (int at = 1; at < AT_END; ++at) {
    if (at == AT_SHAPE && x.ndim() == 0) continue;
    g_as = static_cast<int>(r.below(AS_END));
    g_token = r.next() >> 8;
    auto ck = [&](const char *how, const std::function<void()> &f) {
      g_at = at;
      std::string w = propagates(f);
      g_at = 0;
      c.check(w.empty(), "exception-changed", [&] { return desc + fmt(" throwing kind %d at point %d through %s: ", g_as, at, how) + w; });
      c.cover("exception kind x point x route", fmt("%d %d ", g_as, at) + how);
      c.seen("exceptions followed to the caller");
    };
    bool saving = at < AT_LOAD;
    c.note(desc + fmt(" exception %d at %d", g_as, at));
    if (saving) {
      ck("save stream", [&] { std::ostringstream o; npy::save(o, x, en); });
      ck("save path", [&] { X y = x; npy::save(q, y, en); });
      ck("string writer", [&] { npy::npzstringwriter w(METHODS[0], en); w.write("x", x); });
      ck("file writer", [&] { npy::npzfilewriter w(q, METHODS[1], en); w.write("x", x); });
    } else {
      ck("load stream", [&] { std::istringstream i(bytes); npy::load<X>(i); });
      ck("load path", [&] { npy::load<X>(p); });
      ck("string reader", [&] { npy::npzstringreader rd(good.str()); rd.template read<X>("m"); });
      ck("file reader", [&] { npy::npzfilereader rd(z); rd.template read<X>("m"); });
    }
  }
}

template <template <typename> class X, class T> static void interop(Ctx &c, const char *cls, const std::vector<size_t> &shape, bool fortran, const std::vector<T> &v, npy::endian_t en) {
  Rng &r = c.rng;
  X<T> x = X<T>::make(shape, fortran, v);
  npy::tensor<T> t = make_tensor(shape, fortran, v);
  std::string desc = fmt("%s<%s>%s%s endian %d", cls, tinfo(type_index<T>()).code, shape_str(shape).c_str(), fortran ? "F" : "", static_cast<int>(en));
  c.note(desc);
  g_at = 0;
  std::ostringstream ot, ox;
  npy::save(ot, t, en);
  npy::save(ox, x, en);
  std::string bytes = ot.str();
  c.check(ox.str() == bytes, "bytes", [&] { return desc + ": saved differently to a stream"; });
  { std::ostringstream o; npy::save<T, X, char>(o, x, en); c.check(o.str() == bytes, "bytes", [&] { return desc + ": saved differently by the template form"; }); }
  std::string p = c.path("x.npy");
  npy::save(p, x, en);
  c.check(slurp(p) == bytes, "bytes", [&] { return desc + ": saved differently to a path"; });
  auto same = [&](auto load, const char *how) {
    std::string why;
    try {
      X<T> y = load();
      if (y.dims != shape) why = "shape";
      else if (y.order != fortran) why = "order";
      else if (!same_values(y.values(), v)) why = "values";
    } catch (const std::exception &e) { why = e.what(); }
    c.check(why.empty(), "custom-reads", [&] { return desc + " via " + how + ": " + why; });
  };
  auto builtin = [&](auto load, const char *how) {
    std::string why;
    try { same_tensor(load(), shape, fortran, v, &why); } catch (const std::exception &e) { why = e.what(); }
    c.check(why.empty(), "built-in-reads", [&] { return desc + " via " + how + ": " + why; });
  };
  same([&] { std::istringstream i(bytes); return npy::load<X<T>>(i); }, "stream");
  same([&] { return npy::load<X<T>>(p); }, "path");
  same([&] { return npy::load<T, X>(p); }, "template path");
  builtin([&] { std::istringstream i(ox.str()); return npy::load<npy::tensor<T>>(i); }, "stream");
  // archives: the same calls with either type give the same archive, read by either
  npy::compression_method_t method = METHODS[r.below(2)];
  std::string zt, zx, zp = c.path("x.npz");
  {
    npy::npzstringwriter a(method, en), b(method, en);
    a.write("one", t); b.write("one", x);
    a.write("two.npy", t); b.write("two.npy", x);
    a.close(); b.close();
    zt = a.str(); zx = b.str();
    npy::npzfilewriter f(zp, method, en);
    f.write("one", x);
    f.write("two.npy", t);
    f.close();
  }
  c.check(zt == zx && slurp(zp) == zt, "archive-bytes", [&] { return desc + ": archives differ"; });
  {
    npy::npzstringreader rs(zx);
    npy::npzfilereader rf(zp);
    same([&] { return rs.template read<X<T>>("one"); }, "string archive");
    same([&] { return rs.template read<T, X>("two"); }, "string archive template");
    same([&] { return rf.template read<X<T>>("two"); }, "file archive");
    same([&] { return rf.template read<T, X>("one.npy"); }, "file archive template");
    builtin([&] { return rs.template read<npy::tensor<T>>("two"); }, "string archive");
    builtin([&] { return rf.template read<npy::tensor<T>>("one"); }, "file archive");
  }
  c.cover("class x type", fmt("%s %s", cls, tinfo(type_index<T>()).code));
  c.seen("tensors through both types");
  c.nontrivial(fnv(bytes + cls));
  c.sample(desc);
  exceptions<X<T>, T>(c, desc, x, bytes, en);
}

template <class T> static void matrix(Ctx &c, npy::endian_t en) {
  Rng &r = c.rng;
  Matrix<T> m;
  m.rows = r.below(20);
  m.cols = r.below(20);
  m.v = gen_values<T>(r, m.rows * m.cols);
  npy::tensor<T> cm = make_tensor({m.rows, m.cols}, true, m.v);
  std::vector<T> rv(m.v.size());
  for (size_t a = 0; a < m.rows; ++a) for (size_t b = 0; b < m.cols; ++b) rv[a * m.cols + b] = m.v[b * m.rows + a];
  npy::tensor<T> rm = make_tensor({m.rows, m.cols}, false, rv);
  std::string desc = fmt("Matrix<%s> %zux%zu", tinfo(type_index<T>()).code, m.rows, m.cols);
  c.note(desc);
  g_at = 0;
  std::ostringstream ox, oc, orow;
  npy::save(ox, m, en);
  npy::save(oc, cm, en);
  npy::save(orow, rm, en);
  c.check(ox.str() == oc.str(), "bytes", desc);
  for (int k = 0; k < 2; ++k) { // from either order the same matrix
    std::istringstream i(k ? orow.str() : oc.str());
    Matrix<T> y = npy::load<Matrix<T>>(i);
    c.check(y.rows == m.rows && y.cols == m.cols && same_values(y.v, m.v), "custom-reads", desc);
    npy::npzstringwriter w(METHODS[r.below(2)], en);
    if (k) w.write("m", rm); else w.write("m", m);
    w.close();
    npy::npzstringreader rd(w.str());
    Matrix<T> q = rd.template read<Matrix<T>>("m");
    c.check(same_values(q.v, m.v), "custom-reads", desc);
    npy::tensor<T> back = rd.template read<npy::tensor<T>>("m");
    bool eq = true;
    for (size_t a = 0; a < m.rows; ++a) for (size_t b = 0; b < m.cols; ++b) eq = eq && same_bits<T>(back(static_cast<int>(a), static_cast<int>(b)), m.v[b * m.rows + a]);
    c.check(eq, "built-in-reads", desc);
  }
  exceptions<Matrix<T>, T>(c, desc, m, ox.str(), en);
  c.seen("matrices");
  c.nontrivial(fnv(ox.str()) + 1);
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  int t = static_cast<int>(c.idx % NTYPES), cls = static_cast<int>((c.idx / NTYPES) % 4);
  npy::endian_t en = ENDIANS[r.below(3)];
  bool fortran = r.chance(50);
  std::vector<size_t> shape = gen_shape(r, t == T_STR ? 60 : r.chance(5) ? 20000 : 300, false);
  if (c.mode == "large") shape = big_shape(r, log_uniform(r, 10000, t == T_STR ? 60000 : 400000));
  with_type(t, [&](auto g) {
    typedef typename decltype(g)::type T;
    if (cls == 3) { matrix<T>(c, en); return; }
    std::vector<T> v = gen_values<T>(r, count_of(shape));
    if (cls == 0) interop<Flat>(c, "Flat", shape, fortran, v, en);
    if (cls == 1) interop<Scattered>(c, "Scattered", shape, fortran, v, en);
    if (cls == 2) {
      if constexpr (std::is_same_v<T, std::wstring>) interop<Flat>(c, "Flat", shape, fortran, v, en);
      else interop<Stepwise>(c, "Stepwise", shape, fortran, v, en);
    }
  });
}
