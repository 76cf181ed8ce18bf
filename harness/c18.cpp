// C18: output is a function of data and calls alone; all media agree.
#include <sys/time.h>
#include <algorithm>
#include "npz.h"
using namespace vt;

// the clock as the library would see it, moved by an argument
static long g_shift = 0;
static uint64_t g_clock_reads = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) {
  ++g_clock_reads;
  long rc = syscall(228, id, t);
  t->tv_sec += g_shift;
  return static_cast<int>(rc);
}
extern "C" time_t time(time_t *o) {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}
extern "C" int gettimeofday(struct timeval *v, void *) {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  v->tv_sec = t.tv_sec;
  v->tv_usec = t.tv_nsec / 1000;
  return 0;
}

// the environment as the library would see it: every variable is set, in every process to something else
static long g_env = 0;
static uint64_t g_env_reads = 0;
extern char **environ;
extern "C" char *getenv(const char *name) {
  if (!g_env) {
    size_t n = strlen(name);
    for (char **e = environ; e && *e; ++e) if (strncmp(*e, name, n) == 0 && (*e)[n] == '=') return *e + n + 1;
    return nullptr;
  }
  ++g_env_reads;
  static char values[64][24];
  char *v = values[fnv(std::string(name)) % 64];
  snprintf(v, 24, "%lld", 1000000000ll + g_env * 86400 * 37);
  return v;
}
extern "C" char *secure_getenv(const char *name) { return getenv(name); }

static FILE *journal;
static uint64_t g_noise;
void begin_run(Ctx &c) {
  g_shift = static_cast<long>(c.arg("shift", 0));
  g_noise = c.arg("noise", 0);
  g_env = static_cast<long>(c.arg("env", 0));
  std::string p = c.out + ".journal";
  journal = fopen(p.c_str(), "wb");
}
void end_run(Ctx &c) {
  fclose(journal);
  c.seen("clock reads by the process", g_clock_reads);
}

static uint64_t sink;
static void eat(const std::string &s) { // under memcheck: every byte decides a branch
  for (unsigned char c : s) if (c & 1) ++sink; else sink ^= c;
}

static std::string err_or(const std::function<std::string()> &f) {
  try { return f(); } catch (const std::exception &) { return "threw"; }
}
static std::string header_str(const npy::header_info &h) { return fmt("%d %d %d %zu ", static_cast<int>(h.dtype), static_cast<int>(h.endianness), h.fortran_order, h.max_element_length) + shape_str(h.shape); }
template <class T> static std::string tensor_str(const npy::tensor<T> &t) { return fmt("%d %d ", static_cast<int>(t.dtype()), t.fortran_order()) + shape_str(t.shape()) + fmt(" %016llx", static_cast<unsigned long long>(fnv(payload_of(t, false)))); }

// what a reader says about an archive, as text
template <class R> static std::string dump(R &r, const std::vector<std::string> &ask, int t) {
  std::string o;
  std::vector<std::string> names = r.keys();
  for (auto &k : names) o += k + ";";
  for (auto &k : ask) names.push_back(k);
  for (auto &k : names) {
    o += err_or([&] { return std::string(r.contains(k) ? "yes" : "no"); }) + "|";
    int seen = t;
    o += err_or([&] { auto h = r.peek(k); for (int q = 0; q < NTYPES; ++q) if (tinfo(q).dtype == h.dtype) seen = q; return header_str(h); }) + "|";
    with_type(seen, [&](auto g) { typedef typename decltype(g)::type T; o += err_or([&] { return tensor_str(r.template read<npy::tensor<T>>(k)); }) + "\n"; });
  }
  return o;
}

static void noise(Rng &r, const std::string &work) { // earlier operations in the process
  for (uint64_t n = r.below(4); n--;) {
    switch (r.below(5)) {
    case 0: { npy::npzstringwriter w(METHODS[r.below(2)]); for (uint64_t k = r.below(4); k--;) { ItemP i = gen_item(r, 300); i->write(w, gen_name(r)); } break; }
    case 1: { std::string junk; for (uint64_t k = r.below(300); k--;) junk += static_cast<char>(r.next()); err_or([&] { npy::npzstringreader rd(junk); return ""; }); break; }
    case 2: { ItemP i = gen_item(r, 500); i->save(work + "/noise.npy", ENDIANS[r.below(3)]); break; }
    case 3: { npy::npzfilewriter w(work + "/noise.npz", METHODS[r.below(2)]); ItemP i = gen_item(r, 3000); i->write(w, "n"); w.close(); err_or([&] { npy::npzfilereader rd(work + "/noise.npz"); i->read(rd, "n"); return rd.contains("zz") ? "a" : "b"; }); break; }
    default: { std::vector<std::string> keep; for (uint64_t k = r.below(60); k--;) keep.push_back(std::string(r.below(3000), static_cast<char>(r.next()))); std::random_shuffle(keep.begin(), keep.end(), [&](long n2) { return static_cast<long>(r.below(static_cast<uint64_t>(n2))); }); break; }
    }
  }
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  Rng nr(mix(g_noise, c.idx));
  if (g_noise) noise(nr, c.work);
  bool read_mode = c.mode == "read";
  npy::endian_t en = ENDIANS[r.below(3)];
  auto pre = [&](const std::string &p) { if (nr.chance(50)) spew(p, std::string(nr.below(5000), '?')); else unlink(p.c_str()); }; // not part of the data
  bool large = c.mode == "large"; // outputs beyond any buffer
  if (!read_mode && r.chance(45)) { // NPY
    ItemP it = large ? big_item(r, 100000, 12000000) : gen_item(r, r.chance(10) ? 30000 : 300);
    std::string desc = it->desc() + fmt(" endian %d", static_cast<int>(en));
    c.note(desc);
    std::string bytes = it->npy(en);
    SinkBuf sb;
    { std::ostream o(&sb); it->save(o, en); }
    c.check(sb.data == bytes, "npy-stream", desc);
    std::string p = c.path("a.npy");
    pre(p);
    it->save(p, en);
    c.check(slurp(p) == bytes, "npy-path", desc);
    with_type(it->type, [&](auto g) {
      typedef typename decltype(g)::type T;
      auto &t = static_cast<const ItemT<T> &>(*it).tensor;
      pre(p);
      npy::tensor<T>(t).save(p, en);
      c.check(slurp(p) == bytes, "npy-member", desc);
      npy::tensor<T> copy(t);
      std::ostringstream o;
      npy::save(o, copy, en);
      c.check(o.str() == bytes, "npy-copy", desc);
      // computed in another way: a tensor which held something else before
      npy::tensor<T> other(std::vector<size_t>{3});
      other = t;
      std::ofstream f(p, std::ios::binary);
      npy::save(f, other, en);
      f.close();
      c.check(slurp(p) == bytes, "npy-ofstream", desc);
      if (en == npy::endian_t::NATIVE) { // the default byte order
        std::ostringstream d;
        npy::save(d, t);
        c.check(d.str() == bytes, "npy-default-endian", desc);
      }
    });
    { // a stream set up for formatting, which throws on failure
      std::ostringstream o;
      o << std::hex << std::showbase << std::showpos << std::uppercase << std::boolalpha << std::internal << std::scientific << std::unitbuf;
      o.width(static_cast<int>(nr.chance(50) ? nr.below(40) : nr.below(100000)));
      o.fill('*');
      o.precision(static_cast<int>(nr.below(4)));
      o.exceptions(std::ios::badbit | std::ios::failbit | std::ios::eofbit);
      auto flags = o.flags();
      it->save(o, en);
      c.check(o.str() == bytes, "npy-formatted-stream", desc);
      c.check(o.flags() == flags && o.fill() == '*', "stream-settings", desc);
    }
    eat(bytes);
    c.check(it->npy(en) == bytes, "npy-again", desc);
    fprintf(journal, "%llu %016llx %s\n", static_cast<unsigned long long>(c.idx), static_cast<unsigned long long>(fnv(bytes)), desc.c_str());
    c.seen("NPY files compared across media");
    c.nontrivial(fnv(bytes));
    c.sample(desc);
    return;
  }
  // archives
  npy::compression_method_t method = METHODS[r.below(2)];
  std::vector<std::pair<std::string, ItemP>> ws;
  std::string desc = fmt("method %d endian %d:", static_cast<int>(method), static_cast<int>(en));
  for (uint64_t n = large ? r.range(1, 3) : r.below(6); n--;) {
    std::string name;
    do name = gen_name(r); while (name.size() > 2000);
    ws.emplace_back(name, large ? big_item(r, 100000, 12000000) : r.chance(20) ? ItemP(bytes_item(std::string(r.below(20000), static_cast<char>(r.next())))) : gen_item(r, r.chance(10) ? 20000 : 100));
    desc += " " + ws.back().second->desc();
  }
  c.note(desc);
  std::string bytes;
  for (int k = 0; k < (read_mode ? 1 : 5); ++k) {
    std::string p = c.path("w.npz");
    if (k) pre(p);
    std::string b;
    {
      AnyWriter w(k % 4, p, method, en);
      for (auto &x : ws) { w.write(x.first, *x.second); if (g_noise && nr.chance(20)) noise(nr, c.work); }
      w.close();
      b = w.bytes();
    }
    if (k) c.check(b == bytes, "npz-media", [&] { return desc + fmt(": writer kind %d differs", k); });
    else bytes = b;
  }
  if (!read_mode) {
    if (en == npy::endian_t::NATIVE && method == npy::compression_method_t::STORED) { // the defaults
      npy::npzstringwriter w;
      for (auto &x : ws) x.second->write(w, x.first);
      w.close();
      c.check(w.str() == bytes, "npz-defaults", desc);
      std::string p = c.path("d.npz");
      npy::npzfilewriter f(p);
      for (auto &x : ws) x.second->write(f, x.first);
      f.close();
      c.check(slurp(p) == bytes, "npz-defaults", desc);
    }
    eat(bytes);
    fprintf(journal, "%llu %016llx %s\n", static_cast<unsigned long long>(c.idx), static_cast<unsigned long long>(fnv(bytes)), desc.c_str());
    c.seen("archives compared across media");
    c.nontrivial(fnv(bytes));
    c.sample(desc);
    return;
  }
  // readers on the same bytes, sound or not
  int t = static_cast<int>(r.below(NTYPES));
  for (int k = 0; k < 12; ++k) {
    std::string b = bytes;
    std::string how = "intact";
    if (k) {
      size_t p = r.below(b.size());
      switch (r.below(7)) {
      case 0: b[p] = static_cast<char>(r.next()); how = "byte changed"; break;
      case 1: b[p] = static_cast<char>(b[p] ^ (1 << r.below(8))); how = "bit flipped"; break;
      case 2: b.resize(p); how = "cut"; break;
      case 3: b += std::string(r.range(1, 30), '\0'); how = "extended"; break;
      case 4: b = std::string(r.range(1, 30), 'x') + b; how = "prefixed"; break;
      case 5: b.erase(p, r.range(1, 4)); how = "bytes removed"; break;
      default: { size_t q = b.size() - 1 - r.below(std::min<size_t>(b.size(), 120)); b[q] = static_cast<char>(r.below(8)); how = "directory changed"; break; }
      }
    }
    std::vector<std::string> ask = {"a", "", "nope"};
    if (!ws.empty()) ask.push_back(ws[r.below(ws.size())].first);
    std::string first;
    std::string p = c.path("r.npz");
    spew(p, b);
    for (int kind = 0; kind < 5; ++kind) {
      std::string got = err_or([&]() -> std::string {
        if (kind == 0) { npy::npzstringreader rd(b); return dump(rd, ask, t); }
        if (kind == 1) { std::string copy = b; npy::npzstringreader rd(std::move(copy)); return dump(rd, ask, t); }
        if (kind == 2) { npy::npzfilereader rd(p); return dump(rd, ask, t); }
        if (kind == 3) { npy::npzfilereader rd(p.c_str()); return dump(rd, ask, t); }
        npy::npzfilereader rd{std::filesystem::path(p)};
        return dump(rd, ask, t);
      });
      if (!kind) first = got;
      else c.check(got == first, "reader-media", [&] { return desc + " " + how + fmt(": reader kind %d says\n", kind) + got.substr(0, 300) + "\nnot\n" + first.substr(0, 300) + "\n" + hex(b, 600); });
    }
    eat(first);
    c.cover("reader answers", fnv(first));
    c.seen(first == "threw" ? "archives refused by all readers" : "archives read alike by all readers");
    if (!k || !how.empty()) fprintf(journal, "%llu.%d %016llx %s\n", static_cast<unsigned long long>(c.idx), k, static_cast<unsigned long long>(fnv(first)), how.c_str());
    c.nontrivial(fnv(b));
  }
  // NPY through stream and path
  ItemP it = gen_item(r, 100);
  for (int k = 0; k < 8; ++k) {
    std::string b = it->npy(en);
    if (k == 1) b += std::string(r.below(50), 'q');
    else if (k > 1) { size_t p = r.below(std::min<size_t>(b.size(), 140)); if (r.chance(20)) b.resize(p); else b[p] = static_cast<char>(r.chance(50) ? r.next() : r.range(32, 126)); }
    std::string p = c.path("r.npy");
    spew(p, b);
    int rt = r.chance(80) ? it->type : static_cast<int>(r.below(NTYPES));
    with_type(rt, [&](auto g) {
      typedef typename decltype(g)::type T;
      std::vector<std::string> got;
      got.push_back(err_or([&] { std::istringstream i(b); return tensor_str(npy::load<npy::tensor<T>>(i)); }));
      got.push_back(err_or([&] { return tensor_str(npy::load<npy::tensor<T>>(p)); }));
      got.push_back(err_or([&] { return tensor_str(npy::load<T, npy::tensor>(p)); }));
      got.push_back(err_or([&] { return tensor_str(npy::tensor<T>::from_file(p)); }));
      got.push_back(err_or([&] { DripBuf d(b, 1 + k * 5u); std::istream i(&d); return tensor_str(npy::load<npy::tensor<T>>(i)); }));
      got.push_back(err_or([&] { std::ifstream i(p, std::ios::binary); return tensor_str(npy::load<npy::tensor<T>>(i)); }));
      got.push_back(err_or([&] {
        std::istringstream i(b);
        i >> std::hex >> std::noskipws >> std::boolalpha;
        if (k % 2) i >> std::skipws;
        i.width(static_cast<int>(nr.below(4)));
        i.exceptions(std::ios::badbit | std::ios::failbit | std::ios::eofbit);
        return tensor_str(npy::load<npy::tensor<T>>(i));
      }));
      for (auto &x : got) c.check(x == got[0], "load-media", [&] { return it->desc() + ": " + x + " not " + got[0] + " " + hex(b, 500); });
      std::string h1 = err_or([&] { std::istringstream i(b); return header_str(npy::peek(i)); }), h2 = err_or([&] { return header_str(npy::peek(p)); });
      c.check(h1 == h2, "peek-media", [&] { return it->desc() + ": " + h2 + " not " + h1 + " " + hex(b, 500); });
      eat(got[0] + h1);
      fprintf(journal, "%llu.n%d %016llx %s\n", static_cast<unsigned long long>(c.idx), k, static_cast<unsigned long long>(fnv(got[0] + h1)), it->desc().c_str());
      c.seen(got[0] == "threw" ? "NPY inputs refused alike" : "NPY inputs loaded alike");
    });
  }
}
