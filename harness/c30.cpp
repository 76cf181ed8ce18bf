// C30: the operating system refuses to hand out data.
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <thread>
#include "npz.h"
using namespace vt;

// ---- faults injected into the calls which fetch data ---------------------------
enum Kind { FAIL, END, SHORT, INTR, PARTIAL };
struct Fault {
  bool armed = false;
  long at = -1;      // this call misbehaves...
  bool rest = false; // ...and all later ones
  Kind kind = FAIL;
  int err = EIO;
  bool seeks = false; // seeks instead of reads
  long reads = 0, moves = 0, hits = 0;
};
static Fault F;
static bool hit(long k) { return k == F.at || (F.rest && k > F.at && F.at >= 0); }
extern "C" ssize_t read(int fd, void *p, size_t n) {
  if (F.armed) {
    long k = F.reads++;
    if (!F.seeks && hit(k)) {
      ++F.hits;
      switch (F.kind) {
      case END: return 0;
      case SHORT: return syscall(SYS_read, fd, p, n > 1 ? 1 + n / 3 : n);
      case INTR: if (k == F.at) { errno = EINTR; return -1; } break;
      case PARTIAL: if (F.hits == 1 && n > 1) { F.at = F.reads; return syscall(SYS_read, fd, p, n / 2); } // fallthrough
      case FAIL: errno = F.err; return -1;
      }
    }
  }
  return syscall(SYS_read, fd, p, n);
}
extern "C" ssize_t readv(int fd, const struct iovec *v, int cnt) {
  if (F.armed && cnt > 0) return read(fd, v[0].iov_base, v[0].iov_len);
  return syscall(SYS_readv, fd, v, cnt);
}
static long move(int fd, long off, int whence) {
  if (F.armed) {
    long k = F.moves++;
    if (F.seeks && hit(k)) { ++F.hits; errno = F.err; return -1; }
  }
  return syscall(SYS_lseek, fd, off, whence);
}
extern "C" off_t lseek(int fd, off_t off, int whence) noexcept { return move(fd, off, whence); }
extern "C" off64_t lseek64(int fd, off64_t off, int whence) noexcept { return move(fd, off, whence); }

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

static size_t fds() {
  size_t n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (dirent *e = readdir(d)) if (e->d_name[0] != '.') ++n;
  closedir(d);
  return n;
}

// ---- one file and everything a user may ask of it ------------------------------
struct Target {
  bool npz = false, big = false;
  Model m;
  ItemP item;
  std::string path, bytes, desc;
  std::vector<std::string> names;
};
static Target gen(Ctx &c, bool large) {
  Rng &r = c.rng;
  Target t;
  t.npz = r.chance(large ? 45 : 65);
  t.path = c.path(t.npz ? "in.npz" : "in.npy");
  npy::endian_t en = ENDIANS[r.below(3)];
  t.big = is_big(en);
  auto one = [&](size_t max) {
    if (large && !t.npz) { // more than one buffer, of every type
      int type = static_cast<int>(c.idx % NTYPES);
      size_t n = (type == T_STR ? 100 : 10000 / static_cast<size_t>(tinfo(type).size)) + r.below(r.chance(80) ? 3000 : max);
      return make_item(r, type, {n}, r.chance(50));
    }
    if (large && r.chance(40)) { std::string b; size_t k = r.chance(50) ? r.range(8000, 8400) : r.below(200000); for (; b.size() < k;) b += static_cast<char>(r.next()); return ItemP(bytes_item(b)); }
    return gen_item(r, max);
  };
  if (!t.npz) {
    t.item = one(large ? 60000 : 30);
    t.bytes = t.item->npy(en);
    t.desc = "npy: " + t.item->desc();
  } else {
    npy::npzstringwriter w(METHODS[r.below(2)], en);
    size_t n = r.range(0, 4);
    if (large && r.chance(20)) n = r.range(100, 400); // a directory longer than one read
    for (size_t i = 0; i < n; ++i) {
      ItemP it = n > 50 ? small_item(r, static_cast<uint8_t>(i)) : one(large ? 60000 : 20);
      std::string name = r.chance(50) ? gen_name(r) : "m" + std::to_string(i) + (n > 50 ? std::string(60, 'x') : "");
      it->write(w, name);
      t.m.write(name, it);
    }
    w.close();
    t.bytes = w.str();
    for (auto &e : t.m.map) t.names.push_back(e.first);
    t.desc = fmt("npz of %zu:", n);
    for (auto &e : t.m.map) if (t.desc.size() < 300) t.desc += " " + e.second->desc();
  }
  spew(t.path, t.bytes);
  return t;
}

struct Outcome { size_t ok = 0, threw = 0; std::string wrong; };
static void attempt(Outcome &o, const std::string &what, const std::function<std::string()> &f) {
  try {
    std::string w = f();
    if (w.empty()) ++o.ok;
    else if (o.wrong.empty()) o.wrong = what + ": " + w;
  } catch (const std::exception &) { ++o.threw; }
}
static void arm(const Fault &f) { F = f; F.armed = true; }
static Fault disarm() { Fault f = F; F = Fault(); return f; }

static void npy_ops(const Target &t, Outcome &o, int which) {
  const Item &it = *t.item;
  with_type(it.type, [&](auto g) {
    typedef typename decltype(g)::type T;
    auto &x = static_cast<const ItemT<T> &>(it);
    switch (which) {
    case 0: attempt(o, "load", [&] { return x.cmp(npy::load<npy::tensor<T>>(t.path)); }); break;
    case 1: attempt(o, "load<T, TENSOR>", [&] { return x.cmp(npy::load<T, npy::tensor>(t.path)); }); break;
    case 2: attempt(o, "from_file", [&] { return x.cmp(npy::tensor<T>::from_file(t.path)); }); break;
    default: attempt(o, "peek", [&] { return it.same_header(npy::peek(t.path), t.big); }); break;
    }
  });
}
static std::unique_ptr<npy::npzfilereader> open_npz(const Target &t, int which) {
  std::unique_ptr<npy::npzfilereader> p;
  if (which == 0) p.reset(new npy::npzfilereader(t.path));
  else if (which == 1) p.reset(new npy::npzfilereader(t.path.c_str()));
  else p.reset(new npy::npzfilereader(std::filesystem::path(t.path)));
  return p;
}
// members of an open archive: read and peek of the given ones, then the listing
static void use(const Target &t, npy::npzfilereader &r, Outcome &o, const std::vector<std::string> &names, bool peek_first) {
  for (auto &n : names) {
    const Item &it = *t.m.map.at(n);
    auto pk = [&] { attempt(o, "peek", [&] { return it.same_header(r.peek(n), t.big); }); };
    if (peek_first) pk();
    attempt(o, "read", [&] { return it.read(r, n); });
    if (!peek_first) pk();
  }
  attempt(o, "keys", [&] { return t.m.keys(r.keys()); });
  attempt(o, "contains", [&]() -> std::string { for (auto &n : t.names) if (!r.contains(n)) return "lost " + hex(n, 30); return r.contains("\x01no such") ? "found" : ""; });
}

// every operation with one fault; benign faults must go unnoticed
static void trial(Ctx &c, const Target &t, const Fault &f, int which, const std::string &what, const std::vector<std::string> &names, long *reads = nullptr, long *moves = nullptr) {
  bool benign = f.kind == SHORT || f.kind == INTR || f.at < 0;
  if (f.seeks) benign = f.at < 0;
  Outcome o;
  std::unique_ptr<npy::npzfilereader> rd;
  c.note(t.desc + " " + what);
  arm(f);
  if (!t.npz) npy_ops(t, o, which);
  else attempt(o, "open", [&] { rd = open_npz(t, which % 3); return ""; });
  bool opened_clean = t.npz && rd;
  if (rd) use(t, *rd, o, names, which & 1);
  Fault g = disarm();
  if (reads) *reads = g.reads;
  if (moves) *moves = g.moves;
  c.check(o.wrong.empty(), "wrong-data", [&] { return t.desc + " " + what + ": " + o.wrong; });
  if (benign) c.check(o.threw == 0, "spurious-failure", [&] { return t.desc + " " + what + fmt(": %zu of %zu operations threw", o.threw, o.threw + o.ok); });
  c.seen("operations which gave exactly the data", o.ok);
  c.seen("operations which threw", o.threw);
  if (g.hits) c.seen(f.seeks ? "failing seeks injected" : f.kind == SHORT ? "short reads injected" : f.kind == INTR ? "interrupted reads injected" : f.kind == END ? "premature ends injected" : "failing reads injected");
  // the fault is over: the same reader, and new ones
  Outcome after;
  if (opened_clean) {
    use(t, *rd, after, names, !(which & 1));
    c.check(after.wrong.empty() && after.threw == 0, "reader-lost", [&] { return t.desc + " " + what + ": afterwards " + (after.wrong.empty() ? fmt("%zu operations threw", after.threw) : after.wrong); });
    c.seen("readers used again after a fault");
  }
}

static void faults(Ctx &c) {
  Rng &r = c.rng;
  bool large = c.mode == "large";
  Target t = gen(c, large);
  size_t before = fds();
  std::vector<std::string> names;
  for (auto &n : t.names) if (names.size() < 3 || r.chance(2)) names.push_back(n);
  for (size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[r.below(i)]);
  if (names.size() > 4) names.resize(4);
  if (!names.empty() && r.chance(30)) names.push_back(names[0]);
  int ways = t.npz ? 3 : 4;
  for (int w = 0; w < ways; ++w) {
    if (t.npz && w && r.chance(70)) continue;
    long reads = 0, moves = 0;
    trial(c, t, Fault(), w, "no fault", names, &reads, &moves);
    long step = reads > 80 ? reads / 80 + 1 : 1;
    for (long k = 0; k < reads; k += step) {
      static const int errs[] = {EIO, EAGAIN, EISDIR, ESTALE};
      for (int v = 0; v < 2; ++v) {
        for (Kind kind : {FAIL, END, SHORT, PARTIAL, INTR}) {
          Fault f;
          f.at = k + static_cast<long>(step > 1 ? r.below(static_cast<uint64_t>(step)) : 0);
          f.rest = v;
          f.kind = kind;
          f.err = errs[r.below(4)];
          if (kind == INTR && v) continue;
          trial(c, t, f, w, fmt("way %d, read %ld of %ld, kind %d%s", w, f.at, reads, static_cast<int>(kind), v ? " and all later ones" : ""), names);
        }
      }
      c.cover("read calls hit", static_cast<uint64_t>(k));
    }
    step = moves > 60 ? moves / 60 + 1 : 1;
    for (long k = 0; k < moves; k += step)
      for (int v = 0; v < 2; ++v) {
        Fault f;
        f.at = k;
        f.rest = v;
        f.seeks = true;
        f.err = r.chance(50) ? EIO : ESPIPE;
        trial(c, t, f, w, fmt("way %d, seek %ld of %ld%s", w, k, moves, v ? " and all later ones" : ""), names);
        c.cover("seek calls hit", static_cast<uint64_t>(k));
      }
  }
  // the file becomes shorter while it is open, and whole again
  if (t.npz) {
    auto rd = open_npz(t, 0);
    for (int k = 0; k < 12; ++k) {
      size_t n = k == 0 ? 0 : r.below(t.bytes.size());
      Outcome o, after;
      c.note(t.desc + fmt(" cut to %zu while open", n));
      if (truncate(t.path.c_str(), static_cast<off_t>(n))) break;
      use(t, *rd, o, names, k & 1);
      spew(t.path, t.bytes); // the same inode
      c.check(o.wrong.empty(), "wrong-data", [&] { return t.desc + fmt(" cut to %zu of %zu bytes: ", n, t.bytes.size()) + o.wrong; });
      use(t, *rd, after, names, k & 1);
      c.check(after.wrong.empty() && !after.threw, "reader-lost", [&] { return t.desc + fmt(" cut to %zu and restored: ", n) + after.wrong; });
      c.seen("files cut while open");
    }
  }
  // no descriptor is free
  {
    rlimit l, z;
    getrlimit(RLIMIT_NOFILE, &l);
    z = l;
    z.rlim_cur = 0;
    setrlimit(RLIMIT_NOFILE, &z);
    Outcome o;
    if (t.npz) for (int w = 0; w < 3; ++w) attempt(o, "open", [&] { open_npz(t, w); return "opened"; });
    else for (int w = 0; w < 4; ++w) { npy_ops(t, o, w); }
    setrlimit(RLIMIT_NOFILE, &l);
    c.check(o.ok == 0 && o.wrong.empty(), "opened-without-descriptor", t.desc);
    c.seen("opens without a free descriptor", o.threw);
  }
  size_t now = fds();
  c.check(now == before, "descriptors", [&] { return t.desc + fmt(": %zu open, %zu before", now, before); });
  c.check(slurp(t.path) == t.bytes, "file-changed", t.desc);
  c.nontrivial(fnv(t.bytes));
  c.sample(t.desc + fmt(": %zu bytes", t.bytes.size()));
}

// ---- paths which name a pipe -----------------------------------------------------
static void pipes(Ctx &c) {
  Rng &r = c.rng;
  ItemP it = gen_item(r, r.chance(30) ? 60000 : 50);
  npy::endian_t en = ENDIANS[r.below(3)];
  std::string bytes = it->npy(en), p = c.path("fifo");
  unlink(p.c_str());
  if (mkfifo(p.c_str(), 0600)) { c.seen("no named pipes here"); return; }
  std::string tail(r.below(3) ? 0 : 7, 'z');
  Target t;
  t.item = it;
  t.path = p;
  t.big = is_big(en);
  int which = static_cast<int>(r.below(4));
  size_t chunk = r.chance(50) ? r.range(1, 100) : r.range(100, 70000);
  if (bytes.size() / chunk > 3000) chunk = bytes.size() / 3000 + 1;
  c.note(it->desc() + fmt(" from a pipe, way %d, chunks of %zu", which, chunk));
  sigset_t block, old;
  sigemptyset(&block);
  sigaddset(&block, SIGPIPE);
  pthread_sigmask(SIG_BLOCK, &block, &old);
  std::string all = bytes + tail;
  std::thread writer([&] { // raw calls: the interposed ones belong to the main thread
    int fd = open(p.c_str(), O_WRONLY);
    for (size_t i = 0; fd >= 0 && i < all.size();) { ssize_t n = write(fd, all.data() + i, std::min(chunk, all.size() - i)); if (n <= 0) break; i += static_cast<size_t>(n); }
    if (fd >= 0) close(fd);
  });
  Outcome o;
  npy_ops(t, o, which);
  writer.join();
  c.check(o.wrong.empty(), "wrong-data", [&] { return it->desc() + fmt(" from a pipe, way %d: ", which) + o.wrong; });
  c.check(o.threw == 0, "spurious-failure", [&] { return it->desc() + fmt(" from a pipe, way %d", which); });
  // and a stream cut short by the other end: no load may succeed
  if (which != 3 && bytes.size() > 1) {
    size_t cut = r.below(bytes.size());
    std::thread w2([&] {
      int fd = open(p.c_str(), O_WRONLY);
      for (size_t i = 0; fd >= 0 && i < cut;) { ssize_t n = write(fd, bytes.data() + i, cut - i); if (n <= 0) break; i += static_cast<size_t>(n); }
      if (fd >= 0) close(fd);
    });
    Outcome q;
    npy_ops(t, q, which);
    w2.join();
    c.check(q.ok == 0 && q.wrong.empty(), "cut-pipe-accepted", [&] { return it->desc() + fmt(" from a pipe cut at %zu of %zu", cut, bytes.size()) + q.wrong; });
  }
  // written to a pipe
  std::string got;
  auto collect = [&] {
    int fd = open(p.c_str(), O_RDONLY);
    char buf[5000];
    ssize_t n;
    while (fd >= 0 && (n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) got.append(buf, static_cast<size_t>(n));
    if (fd >= 0) close(fd);
  };
  {
    std::thread reader(collect);
    bool ok = true;
    try { it->save(p, en); } catch (const std::exception &) { ok = false; }
    reader.join();
    c.check(ok && got == bytes, "pipe-save", [&] { return it->desc() + fmt(": %zu of %zu bytes arrived, threw %d", got.size(), bytes.size(), !ok); });
  }
  {
    got.clear();
    std::thread reader(collect);
    bool ok = true;
    Model m;
    try {
      npy::npzfilewriter w(p, METHODS[r.below(2)], en);
      for (size_t i = r.below(3);; --i) { std::string n = "m" + std::to_string(i); it->write(w, n); m.write(n, it); if (!i) break; }
      w.close();
    } catch (const std::exception &) { ok = false; }
    reader.join();
    std::string why;
    if (ok) {
      try { AnyReader rd(0, "", got); why = rd.whole(m, t.big); } catch (const std::exception &e) { why = e.what(); }
    }
    c.check(!ok || why.empty(), "pipe-archive", [&] { return it->desc() + fmt(": %zu bytes of archive through a pipe, no call threw: ", got.size()) + why; });
    c.seen(ok ? "archives through pipes" : "archives refused on pipes");
  }
  { // reading an archive needs a file which can be searched
    npy::npzstringwriter w;
    it->write(w, "a");
    w.close();
    std::string z = w.str();
    std::thread w3([&] {
      int fd = open(p.c_str(), O_WRONLY);
      if (fd >= 0) { if (write(fd, z.data(), std::min<size_t>(z.size(), 60000)) < 0) {} close(fd); }
    });
    Outcome q;
    Model m;
    m.write("a", it);
    attempt(q, "open", [&] { npy::npzfilereader rd(p); return whole(rd, m, host_big()); });
    w3.join();
    c.check(q.wrong.empty(), "wrong-data", [&] { return "archive from a pipe: " + q.wrong; });
  }
  pthread_sigmask(SIG_SETMASK, &old, nullptr);
  unlink(p.c_str());
  c.seen("files through pipes");
  c.nontrivial(fnv(bytes));
}

void run_case(Ctx &c) {
  if (c.mode == "pipe") pipes(c);
  else faults(c);
}
