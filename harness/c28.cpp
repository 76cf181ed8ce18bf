// C28: memory and I/O follow the data in hand, not the archive.
#define VT_WRAP_MALLOC
#define VT_TRACK_BYTES
#include "npz.h"
#include "alloc.h"
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

static const long long K = 1024, M = 1024 * 1024, ANY = 1ll << 60;

// bytes this process has asked the system to read or write; -1 if it does not tell
static long long io(const char *what) {
  char b[600];
  int fd = open("/proc/self/io", O_RDONLY);
  if (fd < 0) return -1;
  ssize_t n = ::read(fd, b, sizeof b - 1);
  close(fd);
  if (n <= 0) return -1;
  b[n] = 0;
  const char *p = strstr(b, what);
  return p ? atoll(p + strlen(what)) : -1;
}

struct Meter {
  Ctx &c;
  std::string desc;
  long long start, r0, w0;
  Meter(Ctx &cx, const std::string &d) : c(cx), desc(d) {
    r0 = io("rchar:");
    w0 = io("wchar:");
    start = g_alloc.bytes;
    g_alloc.peak = start;
  }
  // peak: held beyond the start at any time; kept: still held now; reads and writes: bytes moved
  void judge(const char *op, long long peak, long long kept, long long reads, long long writes) {
    long long p = g_alloc.peak - start, k = g_alloc.bytes - start;
    long long rd = r0 < 0 ? 0 : io("rchar:") - r0 - 2 * K, wr = w0 < 0 ? 0 : io("wchar:") - w0;
    auto D = [&](const char *n, long long got, long long max) { return desc + fmt(": %s: %s %lld bytes, at most %lld expected", op, n, got, max); };
    c.check(p <= peak, "memory", [&] { return D("held up to", p, peak); });
    c.check(k <= kept, "memory-kept", [&] { return D("still held", k, kept); });
    c.check(rd <= reads, "reads", [&] { return D("read", rd, reads); });
    c.check(wr <= writes, "writes", [&] { return D("wrote", wr, writes); });
    c.seen(op);
    if (getenv("VT_DEBUG")) fprintf(stderr, "%-12s peak %9lld/%9lld kept %9lld/%9lld read %9lld/%9lld wrote %9lld/%9lld %s\n", op, p, peak, k, kept, rd, reads, wr, writes, desc.c_str());
  }
};

// null device with positions
class Null : public std::streambuf {
  std::streamoff n = 0;
  int_type overflow(int_type c) override { ++n; return traits_type::not_eof(c); }
  std::streamsize xsputn(const char *, std::streamsize k) override { n += k; return k; }
};

static ItemP sized_item(Rng &r, size_t bytes) { // about that much payload
  int t = static_cast<int>(r.below(NTYPES));
  return with_type(t, [&](auto g) -> ItemP {
    typedef typename decltype(g)::type T;
    bool f = r.chance(50);
    if constexpr (std::is_same_v<T, std::wstring>) {
      size_t w = r.range(1, 40), n = bytes / (4 * w) + 1;
      std::vector<T> v(n);
      for (auto &s : v) { s.assign(w, L'a'); s[r.below(w)] = static_cast<wchar_t>(r.range(33, 0x7ff)); }
      return std::make_shared<ItemT<T>>(std::vector<size_t>{n}, f, v);
    } else {
      size_t n = bytes / sizeof(T) + 1;
      std::vector<T> v(n);
      bool noisy = r.chance(50);
      for (size_t i = 0; i < n; ++i) {
        uint64_t x = noisy ? r.next() : i / 100;
        if constexpr (std::is_same_v<T, npy::boolean>) v[i] = npy::boolean(x & 1);
        else if constexpr (std::is_arithmetic_v<T>) v[i] = static_cast<T>(static_cast<int32_t>(x));
        else v[i] = T(static_cast<float>(static_cast<int32_t>(x)), 1);
      }
      return std::make_shared<ItemT<T>>(std::vector<size_t>{n}, f, v);
    }
  });
}
// what a member of this tensor weighs in memory: the encoding or the elements
static long long weight(const Item &it) { return static_cast<long long>(it.count() * (it.type == T_STR ? it.width() * 4 + 64 : tinfo(it.type).size)) + 1024; }

static void archive(Ctx &c) {
  Rng &r = c.rng;
  npy::compression_method_t method = METHODS[r.below(2)];
  npy::endian_t en = ENDIANS[r.below(3)];
  bool many = r.chance(30);
  size_t n = many ? r.range(500, 3000) : r.range(30, 90);
  size_t big = many ? r.range(200, 4000) : r.range(200 * 1024, 500 * 1024);
  std::string path = c.path("big.npz");
  std::vector<ItemP> kinds;
  for (int k = 0; k < 4; ++k) kinds.push_back(sized_item(r, k == 3 ? r.below(2000) : big));
  long long heaviest = 0;
  for (auto &k : kinds) heaviest = std::max(heaviest, weight(*k));
  std::string desc = fmt("method %d endian %d, %zu members of up to %lld bytes (%s %s %s)", static_cast<int>(method), static_cast<int>(en), n, heaviest, kinds[0]->desc().c_str(), kinds[1]->desc().c_str(), kinds[2]->desc().c_str());
  c.note(desc);
  std::vector<int> which(n);
  {
    Meter all(c, desc);
    {
      npy::npzfilewriter w(path, method, en);
      for (size_t i = 0; i < n; ++i) {
        which[i] = static_cast<int>(r.below(4));
        const Item &it = *kinds[static_cast<size_t>(which[i])];
        std::string name = fmt("member%zu", i);
        Meter one(c, desc);
        it.write(w, name);
        one.judge("write", 8 * weight(it) + 4 * M + static_cast<long long>(n) * 512, 16 * K + static_cast<long long>(i) * 512, 0, 2 * weight(it) + 256 * K);
      }
      w.close();
    }
    struct stat st;
    stat(path.c_str(), &st);
    all.judge("write all", 8 * heaviest + 4 * M + static_cast<long long>(n) * 1024, 4 * K, ANY, static_cast<long long>(st.st_size) * 5 / 4 + 64 * K);
    c.seen("archive bytes", static_cast<uint64_t>(st.st_size));
  }
  struct stat st;
  stat(path.c_str(), &st);
  std::string bytes;
  for (int kind = 0; kind < 2; ++kind) {
    std::unique_ptr<npy::npzfilereader> f;
    std::unique_ptr<npy::npzstringreader> s;
    if (kind) bytes = slurp(path);
    Meter life(c, desc + (kind ? " in memory" : " file"));
    long long dir = static_cast<long long>(n) * 1024 + 512 * K, own = kind ? 2 * static_cast<long long>(bytes.size()) : 0;
    if (kind) s.reset(new npy::npzstringreader(bytes));
    else f.reset(new npy::npzfilereader(path));
    life.judge("open", dir + own, dir + own, kind ? 0 : 256 * K + static_cast<long long>(n) * 512, 0);
    for (int q = 0; q < 60; ++q) {
      size_t i = r.below(n);
      const Item &it = *kinds[static_cast<size_t>(which[i])];
      std::string name = fmt("member%zu", i), w;
      Meter one(c, life.desc);
      int op = static_cast<int>(r.below(4));
      long long whole = 8 * weight(it) + 4 * M, moved = kind ? 0 : 2 * weight(it) + 64 * K;
      if (op == 0) {
        bool yes = s ? s->contains(name) : f->contains(name), no = s ? s->contains(name + "x") : f->contains(name + "x");
        c.check(yes && !no, "contains", desc);
        one.judge("contains", 8 * K, 1 * K, 4 * K, 0);
      } else if (op == 1) {
        w = it.same_header(s ? s->peek(name) : f->peek(name), is_big(en));
        one.judge("peek member", whole, 2 * weight(it), moved, 0);
      } else {
        w = s ? it.read(*s, name) : it.read(*f, name);
        one.judge("read member", whole, 2 * weight(it), moved, 0);
      }
      c.check(w.empty(), "control", [&] { return desc + ": " + w; });
    }
    if (many && r.chance(60)) { // each in turn: they are not kept
      Meter turn(c, life.desc);
      for (size_t i = 0; i < n; ++i) {
        const Item &it = *kinds[static_cast<size_t>(which[i])];
        std::string name = fmt("member%zu", i);
        std::string w = i % 5 ? s ? it.read(*s, name) : it.read(*f, name) : it.same_header(s ? s->peek(name) : f->peek(name), is_big(en));
        c.check(w.empty(), "control", [&] { return desc + ": " + w; });
      }
      turn.judge("read every member", 8 * heaviest + 4 * M, 64 * K + 4 * heaviest, kind ? 0 : 2 * (static_cast<long long>(st.st_size) + static_cast<long long>(n) * 64 * K), 0);
    }
    life.judge("after reading", 8 * heaviest + 4 * M + dir + own, dir + own + 2 * heaviest, ANY, 4 * K);
  }
  unlink(path.c_str());
  c.nontrivial(fnv(desc));
  c.sample(desc);
}

static void files(Ctx &c) {
  Rng &r = c.rng;
  ItemP it = sized_item(r, r.chance(20) ? r.below(3000) : r.range(1 * M, 6 * M));
  npy::endian_t en = ENDIANS[r.below(3)];
  long long wt = weight(*it);
  std::string path = c.path("big.npy"), desc = it->desc() + fmt(" endian %d", static_cast<int>(en)), w;
  c.note(desc);
  { Meter m(c, desc); it->save(path, en); m.judge("save", 2 * wt + 256 * K, 4 * K, 0, wt * 5 / 4 + 64 * K); }
  { Meter m(c, desc); Null nb; std::ostream o(&nb); it->save(o, en); m.judge("save stream", 2 * wt + 256 * K, 4 * K, 0, 0); }
  { Meter m(c, desc); npy::header_info h = npy::peek(path); w = it->same_header(h, is_big(en)); m.judge("peek", 256 * K, 4 * K, 64 * K, 0); }
  c.check(w.empty(), "control", [&] { return desc + ": " + w; });
  { Meter m(c, desc); w = it->load(path); m.judge("load", 4 * wt + 256 * K, 4 * K, wt * 5 / 4 + 64 * K, 0); }
  c.check(w.empty(), "control", [&] { return desc + ": " + w; });
  with_type(it->type, [&](auto g) { // refused before the elements are read
    typedef std::conditional_t<std::is_same_v<typename decltype(g)::type, float>, double, float> O;
    Meter m(c, desc);
    bool threw = false;
    try { npy::load<npy::tensor<O>>(path); } catch (const std::exception &) { threw = true; }
    c.check(threw, "control", desc);
    m.judge("wrong type", 4 * wt + 256 * K + static_cast<long long>(it->count()) * 8, 4 * K, wt * 5 / 4 + 64 * K, 0);
  });
  with_type(it->type, [&](auto g) {
    typedef typename decltype(g)::type T;
    Meter m(c, desc);
    { npy::tensor<T> t(it->shape, it->fortran); npy::tensor<T> u(std::move(t)); t = std::move(u); }
    m.judge("construct and move", static_cast<long long>(it->count() * sizeof(T)) * 5 / 4 + 4 * K, 0, 0, 0);
  });
  unlink(path.c_str());
  c.nontrivial(fnv(desc));
  c.sample(desc);
}

// the same operation again and again holds nothing more
static void repeat(Ctx &c) {
  Rng &r = c.rng;
  ItemP it = sized_item(r, r.below(3000));
  npy::endian_t en = ENDIANS[r.below(3)];
  npy::compression_method_t method = METHODS[r.below(2)];
  std::string path = c.path("a.npy"), zip = c.path("a.npz"), desc = it->desc() + fmt(" method %d endian %d", static_cast<int>(method), static_cast<int>(en));
  c.note(desc);
  auto round = [&] {
    it->save(path, en);
    c.check(it->load(path).empty(), "control", desc);
    { npy::npzfilewriter w(zip, method, en); it->write(w, "a"); it->write(w, "b"); w.close(); }
    { npy::npzfilereader rd(zip); c.check(it->read(rd, "b").empty(), "control", desc); rd.peek("a"); try { rd.peek("zz"); } catch (const std::exception &) {} }
    try { npy::from_dtype("<q9"); } catch (const std::exception &) {}
    if (it->type != T_STR) npy::to_dtype(tinfo(it->type).dtype, en);
    try { std::istringstream i("junk"); npy::peek(i); } catch (const std::exception &) {}
  };
  round();
  Meter m(c, desc);
  for (int k = 0; k < 50; ++k) round();
  m.judge("repeated", 8 * weight(*it) + 4 * M, 512, ANY, ANY);
  c.nontrivial(fnv(desc));
}

void run_case(Ctx &c) {
  if (c.mode == "archive") archive(c);
  else if (c.mode == "repeat") repeat(c);
  else files(c);
}
