// C21: histories with failing operations. The successes must be unaffected and
// nothing may stay allocated. Linked with malloc and operator new replaced.
#define VT_ALLOC_CAP (64ull << 20)
#define VT_WRAP_MALLOC
#include "alloc.h"
#include <dirent.h>
#include "npz.h"
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

static int open_fds() {
  DIR *d = opendir("/proc/self/fd");
  int n = 0;
  while (d && readdir(d)) ++n;
  if (d) closedir(d);
  return n;
}

// a tensor type whose operations fail on demand
enum { F_DTYPE, F_SHAPE, F_ORDER, F_SAVE, F_SAVE_LATE, F_BADSTREAM, F_NONSTD, F_KINDS };
struct Faulty {
  int how;
  explicit Faulty(int h) : how(h) {}
  [[noreturn]] static void boom(int h) { if (h == F_NONSTD) throw h; throw std::logic_error("faulty tensor"); }
  std::string dtype(npy::endian_t e) const { if (how == F_DTYPE) boom(how); return npy::to_dtype(npy::data_type_t::UINT8, e); }
  size_t ndim() const { return 1; }
  size_t shape(int) const { if (how == F_SHAPE) boom(how); return 100; }
  bool fortran_order() const { if (how == F_ORDER) boom(how); return false; }
  void save(std::ostream &o, npy::endian_t e) const {
    if (how == F_SAVE || how == F_NONSTD) boom(how);
    std::vector<uint8_t> v(100, 7);
    npy::write_values(o, v.data(), 50, e);
    if (how == F_SAVE_LATE) boom(how);
    o.setstate(std::ios::badbit); // F_BADSTREAM: reports through the stream
  }
  static Faulty load(std::istream &i, const npy::header_info &) {
    char c;
    i.get(c);
    if (c & 1) throw 42;
    throw std::logic_error("faulty tensor");
  }
};

// everything decided in advance, so that running it allocates nothing lasting
struct Op {
  int what = 0;
  std::string name;
  ItemP item;
  int arg = 0;
};
enum { W_GOOD, W_FAULTY, W_LONG, W_CLOSE, W_KINDS };
enum { R_GOOD, R_PEEK, R_WRONG, R_ABSENT, R_ABSENT_PEEK, R_BAD, R_BAD_PEEK, R_BAD_CONTAINS, R_FAULTY, R_KEYS, R_CONTAINS, R_KINDS };

struct Verdict { // fixed size: no allocation survives in it
  bool bad = false;
  char key[40], text[300];
  void set(const char *k, const std::string &t) { if (bad) return; bad = true; snprintf(key, sizeof key, "%s", k); snprintf(text, sizeof text, "%s", t.c_str()); }
};
struct Tally { uint64_t ok = 0, failed = 0, decisions = 0; };

template <class F> static bool throws(F f) {
  try { f(); } catch (const std::exception &) { return true; } catch (int) { return true; }
  return false;
}

// ---- writers -----------------------------------------------------------------
struct WPlan { int kind; npy::compression_method_t method; npy::endian_t en; std::vector<Op> ops; bool close; std::string path, want; Model model; };

static void run_writer(const WPlan &p, Verdict &v, Tally &t, std::string *bytes) {
  {
    AnyWriter w(p.kind, p.path, p.method, p.en);
    bool closed = false;
    for (auto &o : p.ops) {
      ++t.decisions;
      bool expect = closed && o.what != W_CLOSE;
      switch (o.what) {
      case W_GOOD:
        if (static_cast<int>(p.method) == 99) expect = true;
        if (throws([&] { w.write(o.name, *o.item); }) != expect) v.set(expect ? "accepted" : "refused-after-failure", "write of " + o.name);
        break;
      case W_FAULTY:
        expect = true;
        if (!throws([&] { Faulty f(o.arg); if (w.s) w.s->write(o.name, f); else w.f->write(o.name, f); })) v.set("accepted", fmt("write of a tensor failing in way %d", o.arg));
        break;
      case W_LONG:
        expect = true;
        if (!throws([&] { w.write(o.name, *o.item); })) v.set("accepted", fmt("write with a name of %zu bytes", o.name.size()));
        break;
      default:
        if (throws([&] { w.close(); })) v.set("refused-after-failure", "close");
        closed = true;
      }
      ++(expect ? t.failed : t.ok);
    }
    if (p.close && !closed) { if (throws([&] { w.close(); })) v.set("refused-after-failure", "close"); closed = true; }
    if (closed || p.kind) { if (bytes && closed) *bytes = w.bytes(); }
    else if (bytes) bytes->clear();
  }
  if (bytes && p.kind) *bytes = slurp(p.path);
}

static void writer_case(Ctx &c) {
  Rng &r = c.rng;
  WPlan p;
  p.kind = static_cast<int>(r.below(4));
  p.method = r.chance(8) ? static_cast<npy::compression_method_t>(99) : METHODS[r.below(2)];
  p.en = ENDIANS[r.below(3)];
  p.path = c.path("w.npz");
  p.close = p.kind == 0 || r.chance(60);
  size_t n = r.range(1, 12);
  bool closed = false;
  std::string desc = fmt("writer %d method %d:", p.kind, static_cast<int>(p.method));
  WPlan clean = p;
  for (size_t i = 0; i < n; ++i) {
    Op o;
    o.name = r.chance(20) ? "same" : gen_name(r);
    o.item = gen_item(r, r.chance(5) ? 30000 : 200);
    int k = static_cast<int>(r.below(100));
    o.what = k < 45 ? W_GOOD : k < 75 ? W_FAULTY : k < 92 ? W_LONG : W_CLOSE;
    if (o.what == W_LONG) { size_t l = r.chance(50) ? 65532 : r.range(65532, 70000); o.name = std::string(l, 'n'); if (r.chance(40)) o.name = std::string(65532 + r.below(3), 'n') + ".npy"; if (o.name.size() + (has_suffix(o.name) ? 0 : 4) <= 65535) o.name += "xxxx"; }
    o.arg = static_cast<int>(r.below(F_KINDS));
    if (o.what == W_GOOD && !closed && static_cast<int>(p.method) != 99) { p.model.write(o.name, o.item); clean.ops.push_back(o); }
    if (o.what == W_CLOSE) closed = true;
    desc += fmt(" %d%s", o.what, o.what == W_FAULTY ? fmt("/%d", o.arg).c_str() : "");
    c.cover("writer operations", fmt("%d/%d closed=%d", o.what, o.what == W_FAULTY ? o.arg : 0, closed));
    p.ops.push_back(o);
  }
  c.note(desc);
  Verdict v;
  Tally t;
  std::string bytes, ref;
  bytes.reserve(1);
  run_writer(p, v, t, &bytes);
  c.check(!v.bad, v.bad ? v.key : "", [&] { return desc + ": " + v.text; });
  Verdict v2;
  Tally t2;
  clean.close = p.close || closed;
  clean.path = c.path("clean.npz");
  run_writer(clean, v2, t2, &ref);
  c.check(bytes == ref, "not-as-if-uncalled", [&] { return desc + fmt(": %zu bytes, without the failing calls %zu", bytes.size(), ref.size()); });
  if (bytes == ref && (p.kind || closed || p.close)) {
    AnyReader rd(static_cast<int>(r.below(2)), "", bytes);
    std::string why = rd.whole(p.model, is_big(p.en));
    c.check(why.empty(), "wrong-content", [&] { return desc + ": " + why; });
  }
  // again, watching what stays behind
  Verdict v3;
  Tally t3;
  int fds = open_fds();
  long long before = g_alloc.live;
  run_writer(p, v3, t3, nullptr);
  long long after = g_alloc.live;
  int fds2 = open_fds();
  c.check(after == before, "leak", [&] { return desc + fmt(": %lld blocks stay allocated", after - before); });
  c.check(fds == fds2, "fd-leak", [&] { return desc + fmt(": %d descriptors before, %d after", fds, fds2); });
  c.compares += t.decisions;
  c.seen("writer calls which succeeded", t.ok);
  c.seen("writer calls which failed", t.failed);
  c.nontrivial(fnv(desc + bytes));
  c.sample(desc);
}

// ---- readers -----------------------------------------------------------------
struct RPlan { int kind; std::string path, bytes; bool big; std::vector<Op> ops; Model model; std::set<std::string> bad; };

// make one of the members unusable
static const char *damage(Rng &r, Member &m, const std::string &npy, int &central_offset) {
  central_offset = 0;
  switch (r.below(8)) {
  case 0: m.method = 0; m.comp = m.raw; m.comp[r.below(m.comp.size())] ^= static_cast<char>(1 << r.below(8)); return "data changed";
  case 1: m.method = static_cast<int>(r.chance(50) ? 12 : r.range(1, 7)); return "unsupported method";
  case 2: m.raw = m.comp = "this is not an NPY file"; m.method = 0; return "not NPY";
  case 3: { size_t k = r.below(npy.size()); m.raw = m.comp = npy.substr(0, k); m.method = 0; return "truncated NPY"; }
  case 4: m.raw = m.comp = ""; m.method = 0; return "empty member";
  case 5: m.method = 8; m.comp = std::string("\x05\xff\xff\xff\xff\xff", 6); return "bad deflate";
  case 6: central_offset = 1; return "offset beyond the end";
  default: central_offset = 2; return "size beyond the end";
  }
}

static void reader_case(Ctx &c) {
  Rng &r = c.rng;
  RPlan p;
  p.kind = static_cast<int>(r.below(5));
  p.big = r.chance(50);
  p.path = c.path("r.npz");
  std::vector<Member> ms;
  std::string desc = fmt("reader %d:", p.kind);
  size_t n = r.range(1, 7);
  std::vector<std::pair<std::string, int>> patch; // member name, what to do to its records
  std::vector<std::string> good, bad;
  for (size_t i = 0; i < n; ++i) {
    ItemP it = gen_item(r, 200);
    std::string name = "m" + std::to_string(i) + ".npy";
    std::string npy = it->npy(p.big ? npy::endian_t::BIG : npy::endian_t::LITTLE);
    Member m;
    if (r.chance(50)) m = stored_member(name, npy);
    else { // deflated by the library, taken out of an archive of its own
      npy::npzstringwriter w(METHODS[1], p.big ? npy::endian_t::BIG : npy::endian_t::LITTLE);
      it->write(w, name);
      w.close();
      auto z = parse_zip(w.str());
      m.name = name;
      m.raw = npy;
      m.comp = z[0].data;
      m.method = 8;
    }
    if (r.chance(50)) {
      int po = 0;
      std::string intact = m.comp;
      int intact_method = m.method;
      const char *how = damage(r, m, npy, po);
      if (!po && m.comp == intact && m.method == intact_method) continue;
      if (po) patch.emplace_back(name, po);
      desc += fmt(" %s=%s", name.c_str(), how);
      c.cover("damaged members", how);
      bad.push_back(name);
    } else {
      p.model.write(name, it);
      good.push_back(name);
      desc += " " + name + "=" + it->desc();
    }
    ms.push_back(m);
  }
  std::string z = make_zip(ms);
  for (auto &q : patch) { // in the central directory, and the local header for sizes
    for (size_t pos = z.find("PK\1\2"); pos != std::string::npos; pos = z.find("PK\1\2", pos + 1)) {
      if (z.compare(pos + 46, q.first.size(), q.first) != 0) continue;
      if (q.second == 1) memcpy(&z[pos + 42], "\xf0\xff\xff\x0f", 4);
      else { uint32_t off; memcpy(&off, &z[pos + 42], 4); memcpy(&z[pos + 20], "\xff\xff\x3f\0", 4); memcpy(&z[off + 18], "\xff\xff\x3f\0", 4); }
      break;
    }
  }
  p.bytes = z;
  spew(p.path, z);
  size_t nops = r.range(3, 25);
  std::string hist;
  for (size_t i = 0; i < nops; ++i) {
    Op o;
    o.what = static_cast<int>(r.below(R_KINDS));
    bool needs_good = o.what == R_GOOD || o.what == R_PEEK || o.what == R_WRONG || o.what == R_FAULTY || o.what == R_CONTAINS;
    bool needs_bad = o.what == R_BAD || o.what == R_BAD_PEEK || o.what == R_BAD_CONTAINS;
    if ((needs_good && good.empty()) || (needs_bad && bad.empty())) { --i; nops -= nops > 1; if (i + 1 >= nops) break; continue; }
    if (needs_good) { o.name = good[r.below(good.size())]; o.item = p.model.map[o.name]; }
    if (needs_bad) o.name = bad[r.below(bad.size())];
    if (o.what == R_ABSENT || o.what == R_ABSENT_PEEK) o.name = r.chance(50) ? "absent" : "m0.npy.npy";
    else if (r.chance(40)) o.name = o.name.substr(0, o.name.size() > 4 ? o.name.size() - 4 : 0);
    if (o.what == R_KEYS) o.name.clear();
    o.arg = static_cast<int>(o.item ? (static_cast<size_t>(o.item->type) + r.range(1, NTYPES - 1)) % NTYPES : r.below(NTYPES));
    hist += fmt(" %d(%s)", o.what, o.name.c_str());
    c.cover("reader operations", static_cast<uint64_t>(o.what));
    p.ops.push_back(o);
  }
  desc += " |" + hist;
  c.note(desc);
  auto run = [&](Verdict &v, Tally &t) {
    AnyReader rd(p.kind, p.kind < 2 ? "" : p.path, p.bytes);
    auto good_now = [&](const Op &o, const char *key) {
      std::string w;
      try { w = rd.read(*o.item, o.name, o.arg & 1); } catch (const std::exception &e) { w = std::string("threw ") + e.what(); }
      ++t.decisions;
      if (!w.empty()) v.set(key, o.name + ": " + w);
    };
    Op last;
    for (auto &o : p.ops) {
      ++t.decisions;
      bool failed = true;
      switch (o.what) {
      case R_GOOD: good_now(o, "intact-member-lost"); failed = false; break;
      case R_PEEK: {
        std::string w;
        try { w = o.item->same_header(rd.peek(o.name), p.big); } catch (const std::exception &e) { w = std::string("threw ") + e.what(); }
        if (!w.empty()) v.set("intact-peek-lost", o.name + ": " + w);
        failed = false;
        break;
      }
      case R_WRONG: if (!rd.wrong_type(o.name, o.arg)) v.set("accepted", "wrong type"); break;
      case R_ABSENT: case R_BAD: if (!rd.wrong_type(o.name, o.arg)) v.set("accepted", "reading " + o.name); break;
      case R_ABSENT_PEEK: if (!throws([&] { rd.peek(o.name); })) v.set("accepted", "peeking " + o.name); break;
      case R_BAD_PEEK: throws([&] { rd.peek(o.name); }); break; // a truncated payload has a good header
      case R_BAD_CONTAINS: if (!rd.contains(o.name)) v.set("listing", "contains(" + o.name + ") is false"); break;
      case R_FAULTY: if (!throws([&] { if (rd.s) rd.s->read<Faulty>(o.name); else rd.f->read<Faulty>(o.name); })) v.set("accepted", "throwing tensor type"); break;
      case R_KEYS: if (rd.keys().size() != ms.size() || !std::is_sorted(rd.keys().begin(), rd.keys().end())) v.set("listing", "keys"); failed = false; break;
      default: if (!rd.contains(o.name)) v.set("listing", "contains(" + o.name + ") is false"); failed = false;
      }
      ++(failed ? t.failed : t.ok);
      if (o.item) last = o;
      if (failed && last.item) good_now(last, "intact-member-lost");
    }
    for (auto &m : p.model.map) { Op o; o.name = m.first; o.item = m.second; good_now(o, "intact-member-lost"); }
    if (rd.f) {
      rd.f->close();
      for (auto &m : p.model.map) if (!throws([&] { m.second->read(*rd.f, m.first); })) { /* a stream may have buffered it */ }
    }
  };
  Verdict v, v2;
  Tally t, t2;
  run(v, t);
  c.check(!v.bad, v.bad ? v.key : "", [&] { return desc + ": " + v.text; });
  int fds = open_fds();
  long long before = g_alloc.live;
  run(v2, t2);
  long long after = g_alloc.live;
  int fds2 = open_fds();
  c.check(after == before, "leak", [&] { return desc + fmt(": %lld blocks stay allocated", after - before); });
  c.check(fds == fds2, "fd-leak", [&] { return desc + fmt(": %d descriptors before, %d after", fds, fds2); });
  c.compares += t.decisions;
  c.seen("reader calls which succeeded", t.ok);
  c.seen("reader calls which failed", t.failed);
  c.nontrivial(fnv(desc));
  c.sample(desc);
}

// ---- single operations: no balance left over, whatever happens -----------------
static void single_case(Ctx &c) {
  Rng &r = c.rng;
  ItemP it = gen_item(r, 300);
  npy::endian_t en = ENDIANS[r.below(3)];
  std::string good = it->npy(en), in = good;
  int dmg = static_cast<int>(r.below(5));
  if (dmg == 1) in.resize(r.below(in.size()));
  if (dmg == 2) for (int k = 0; k < 3; ++k) in[r.below(std::min<size_t>(in.size(), 128))] = static_cast<char>(r.next());
  npy::npzstringwriter w(METHODS[r.below(2)], en);
  it->write(w, "a");
  it->write(w, "b");
  w.close();
  std::string z = w.str();
  if (dmg == 3) z.resize(r.below(z.size()));
  if (dmg == 4) for (int k = 0; k < 4; ++k) z[r.chance(50) ? r.below(z.size()) : z.size() - 1 - r.below(std::min<size_t>(z.size(), 120))] = static_cast<char>(r.next());
  std::string p = c.path("s.npy"), q = c.path("s.npz"), none = c.path("none/such");
  spew(p, in);
  spew(q, z);
  int other = static_cast<int>((static_cast<size_t>(it->type) + r.range(1, NTYPES - 1)) % NTYPES);
  std::string desc = fmt("%s endian %d damage %d", it->desc().c_str(), static_cast<int>(en), dmg);
  c.note(desc);
  struct { const char *what; std::function<void()> f; } const ops[] = {
      {"load stream", [&] { std::istringstream i(in); it->load(i); }},
      {"load path", [&] { it->load(p); }},
      {"load missing path", [&] { it->load(none); }},
      {"peek stream", [&] { std::istringstream i(in); npy::peek(i); }},
      {"peek path", [&] { npy::peek(p); }},
      {"peek missing path", [&] { npy::peek(none); }},
      {"load as another type", [&] { with_type(other, [&](auto g) { npy::load<npy::tensor<typename decltype(g)::type>>(p); }); }},
      {"save missing path", [&] { it->save(none, en); }},
      {"save path", [&] { it->save(p, en); }},
      {"save to a failed stream", [&] { std::ostringstream o; o.setstate(std::ios::failbit); it->save(o, en); }},
      {"save faulty tensor", [&] { std::ostringstream o; npy::save(o, Faulty(static_cast<int>(in.size() % F_KINDS)), en); }},
      {"save faulty tensor to path", [&] { Faulty f(static_cast<int>(in.size() % F_KINDS)); npy::save(p, f, en); }},
      {"load faulty tensor", [&] { npy::load<Faulty>(p); }},
      {"header", [&] { npy::header_info h(in.substr(std::min<size_t>(in.size(), 10))); }},
      {"dtype string", [&] { npy::from_dtype(in.substr(0, in.size() % 7)); }},
      {"string reader", [&] { npy::npzstringreader x(z); x.peek("a"); it->read(x, "a"); it->read(x, "b"); }},
      {"file reader", [&] { npy::npzfilereader x(q); x.peek("a"); it->read(x, "a"); it->read(x, "b"); }},
      {"missing archive", [&] { npy::npzfilereader x(none); }},
      {"not an archive", [&] { npy::npzfilereader x(p); }},
      {"file writer", [&] { npy::npzfilewriter x(q, METHODS[1]); it->write(x, "a"); }},
      {"unwritable writer", [&] { npy::npzfilewriter x(none); it->write(x, "a"); }},
      {"writer closed twice", [&] { npy::npzfilewriter x(q); it->write(x, "a"); x.close(); x.close(); it->write(x, "b"); }},
      {"bad index", [&] { npy::tensor<int> t({3, 4}); t(3, 4); }},
      {"bad arity", [&] { npy::tensor<int> t({3, 4}); t(1); }},
      {"bad bulk copy", [&] { npy::tensor<std::wstring> t({3}); t.copy_from(std::vector<std::wstring>(4, std::wstring(30, L'x'))); }},
      {"oversized shape", [&] { npy::tensor<double> t({size_t(1) << 62, 8}); }},
  };
  for (auto &o : ops) {
    c.note(desc + " " + o.what);
    bool thrown = throws(o.f);
    int fds = open_fds();
    long long before = g_alloc.live;
    throws(o.f);
    long long after = g_alloc.live;
    int fds2 = open_fds();
    c.check(after == before, "leak", [&] { return desc + " " + o.what + fmt(": %lld blocks stay allocated", after - before); });
    c.check(fds == fds2, "fd-leak", [&] { return desc + " " + o.what + fmt(": %d descriptors before, %d after", fds, fds2); });
    c.cover("single operations", std::string(o.what) + (thrown ? " failing" : " succeeding"));
    c.seen("balanced single operations");
  }
  c.nontrivial(fnv(in + z));
}

void run_case(Ctx &c) {
  switch (c.idx % 3) {
  case 0: writer_case(c); break;
  case 1: reader_case(c); break;
  default: single_case(c);
  }
}
