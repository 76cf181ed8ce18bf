// C12: archives cut off anywhere, and what is on disk while a writer works.
#include <cerrno>
#include <sys/syscall.h>
#include <sys/uio.h>
#include "npz.h"
using namespace vt;

// ---- every change of the archive file: a crash may come after any of them ----
struct Change { off_t at; std::string data; bool truncate; };
static bool recording = false;
static std::string watched;
static std::vector<Change> changes;
static bool is_watched(int fd) {
  struct stat a, b;
  return recording && fstat(fd, &a) == 0 && stat(watched.c_str(), &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev;
}
static off_t place(int fd) {
  struct stat st;
  if (fcntl(fd, F_GETFL) & O_APPEND) return fstat(fd, &st) == 0 ? st.st_size : 0;
  return static_cast<off_t>(syscall(SYS_lseek, fd, 0, SEEK_CUR));
}
static void stored(off_t at, const void *p, ssize_t n) {
  if (n > 0) changes.push_back({at, std::string(static_cast<const char *>(p), static_cast<size_t>(n)), false});
}
extern "C" ssize_t write(int fd, const void *p, size_t n) {
  bool w = is_watched(fd);
  off_t at = w ? place(fd) : 0;
  ssize_t k = syscall(SYS_write, fd, p, n);
  if (w) stored(at, p, k);
  return k;
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int cnt) {
  bool w = is_watched(fd);
  off_t at = w ? place(fd) : 0;
  ssize_t k = syscall(SYS_writev, fd, v, cnt);
  if (w && k > 0) {
    std::string all;
    for (int i = 0; i < cnt; ++i) all.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
    stored(at, all.data(), k);
  }
  return k;
}
extern "C" ssize_t pwrite64(int fd, const void *p, size_t n, off_t at) {
  bool w = is_watched(fd);
  ssize_t k = syscall(SYS_pwrite64, fd, p, n, at);
  if (w) stored(at, p, k);
  return k;
}
extern "C" ssize_t pwrite(int fd, const void *p, size_t n, off_t at) { return pwrite64(fd, p, n, at); }
extern "C" int ftruncate64(int fd, off_t n) noexcept {
  bool w = is_watched(fd);
  int k = static_cast<int>(syscall(SYS_ftruncate, fd, n));
  if (w && k == 0) changes.push_back({n, "", true});
  return k;
}
extern "C" int ftruncate(int fd, off_t n) noexcept { return ftruncate64(fd, n); }

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

static const std::string EOCD("PK\5\6", 4);

template <class F> static bool refused(F f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}

// a tensor type which looks at the disk while it is being saved
struct Spy {
  std::string path;
  mutable std::vector<std::string> *seen;
  std::vector<uint8_t> v;
  size_t ndim() const { return 1; }
  size_t shape(int) const { return v.size(); }
  bool fortran_order() const { return false; }
  std::string dtype(npy::endian_t e) const { return npy::to_dtype(npy::data_type_t::UINT8, e); }
  void save(std::ostream &o, npy::endian_t e) const {
    seen->push_back(slurp(path));
    npy::write_values(o, v.data(), v.size() / 2, e);
    seen->push_back(slurp(path));
    npy::write_values(o, v.data() + v.size() / 2, v.size() - v.size() / 2, e);
  }
};

void run_case(Ctx &c) {
  Rng &r = c.rng;
  npy::compression_method_t method = METHODS[r.below(2)];
  npy::endian_t en = ENDIANS[r.below(3)];
  bool big = is_big(en);
  bool huge = c.mode == "big" || (c.mode == "comment" && r.chance(40));
  int wk = huge ? 1 + static_cast<int>(r.below(3)) : static_cast<int>(r.below(4));
  std::string path = c.path("w.npz");
  unlink(path.c_str());
  std::string desc = fmt("writer=%d method=%d endian=%d:", wk, static_cast<int>(method), static_cast<int>(en));
  Model m;
  std::vector<std::string> snaps; // what was on disk, in time order
  std::string bytes;
  changes.clear();
  watched = path;
  recording = wk != 0;
  struct Stop { ~Stop() { recording = false; } } stop;
  {
    AnyWriter w(wk, path, method, en);
    auto observe = [&](const char *when) {
      std::string now = wk == 0 ? w.s->str() : slurp(path);
      // the file of an open writer is not an archive yet
      c.check(refused([&] { npy::npzstringreader rd(now); }), "unclosed-accepted", [&] { return desc + " " + when + fmt(": %zu bytes", now.size()); });
      if (wk) c.check(refused([&] { npy::npzfilereader rd(path); }), "unclosed-accepted", [&] { return desc + " " + when; });
      snaps.push_back(std::move(now));
      c.seen("snapshots of unfinished archives");
    };
    observe("just created");
    bool many = !huge && r.chance(3);
    size_t n = huge ? r.range(1, 6) : many ? r.range(6, r.chance(20) ? 300 : 70) : r.range(0, 5);
    for (size_t i = 0; i < n; ++i) {
      std::string name;
      do name = gen_name(r); while (name.find("PK") != std::string::npos || name.size() > 3000);
      if (wk && r.chance(30)) {
        Spy spy;
        spy.path = path;
        spy.seen = &snaps;
        for (size_t k = r.below(huge ? 30000 : 200); k--;) spy.v.push_back(static_cast<uint8_t>(r.next()));
        if (w.f) w.f->write(name, spy);
        m.write(name, bytes_item(std::string(spy.v.begin(), spy.v.end())));
        c.seen("writes observed from inside");
      } else {
        ItemP it = huge && r.chance(c.mode == "comment" ? 60 : 10) ? big_item(r, 30000, 3000000) : gen_item(r, huge ? 20000 : 30);
        w.write(name, *it);
        m.write(name, it);
        desc += " " + it->desc();
      }
      c.note(desc);
      observe("after a write");
    }
    w.close();
    bytes = w.bytes(); // complete once closed, not only once destroyed
  }
  recording = false;
  if (wk) {
    // the file after each single change must be a prefix too
    std::string disk;
    bool ok = true;
    for (size_t i = 0; i < changes.size() && ok; ++i) {
      const Change &g = changes[i];
      size_t at = static_cast<size_t>(g.at);
      if (g.truncate) disk.resize(at);
      else { if (disk.size() < at + g.data.size()) disk.resize(at + g.data.size()); disk.replace(at, g.data.size(), g.data); }
      ok = disk.size() <= bytes.size() && (g.truncate || (bytes.compare(at, g.data.size(), g.data) == 0 && (at == 0 || bytes.compare(0, disk.size(), disk) == 0)));
      c.check(ok, "not-a-prefix", [&] { return desc + fmt(": after change %zu of %zu (%zu bytes at %zu) the file is no prefix of the finished archive", i, changes.size(), g.data.size(), at); });
      c.seen("single changes of the file checked");
    }
    c.seen(disk == bytes ? "archives with every change seen" : "archives with changes not seen");
  }
  if (wk) c.check(slurp(path) == bytes, "incomplete-after-close", desc);
  for (auto &s : snaps) c.check(s.size() <= bytes.size() && bytes.compare(0, s.size(), s) == 0, "not-a-prefix", [&] { return desc + fmt(": %zu bytes on disk are no prefix of the finished archive", s.size()); });
  if (c.mode == "comment") { // an archive another tool added a comment to
    size_t n = r.chance(30) ? r.range(1, 40) : log_uniform(r, 10, 65535);
    std::string add;
    int style = static_cast<int>(r.below(4));
    while (add.size() < n) add += style == 0 ? static_cast<char>(r.range(32, 126)) : style == 1 ? '\0' : style == 2 ? 'P' : static_cast<char>(r.next());
    for (size_t p; (p = add.find("PK")) != std::string::npos;) add[p] = 'x';
    bytes[bytes.size() - 2] = static_cast<char>(n & 255);
    bytes[bytes.size() - 1] = static_cast<char>(n >> 8);
    bytes += add;
    desc += fmt(" and a comment of %zu bytes", n);
  }
  {
    AnyReader rd(static_cast<int>(r.below(5)), c.path("x.npz"), bytes);
    c.check(rd.whole(m, big).empty(), "control", [&] { return desc; });
  }
  // by chance a payload may contain an end record: then a cut is an archive
  size_t sig = bytes.find(EOCD);
  if (sig != bytes.rfind(EOCD)) { c.seen("archives containing a stray signature (skipped)"); return; }
  if (!huge && bytes.size() > 12000) huge = true; // at every byte it would take too long
  size_t step = huge ? bytes.size() / 300 + 1 : 1;
  for (size_t k = 0; k < bytes.size(); k += (k + 200 > bytes.size() || k < 200 || (k + 30 > sig && k < sig + 60)) ? 1 : k > sig ? std::min<size_t>(step, (bytes.size() - sig) / 60 + 1) : step) {
    if (k > 200 && k < sig - 30 && k + step > sig - 30) k = sig - 30; // the end records are not stepped over
    std::string cut = bytes.substr(0, k);
    c.check(refused([&] { npy::npzstringreader rd(cut); }), "prefix-accepted", [&] { return desc + fmt(": first %zu of %zu bytes", k, bytes.size()); });
    if (k % 41 == 7 || k + 24 > bytes.size()) {
      std::string p = c.path("cut.npz");
      spew(p, cut);
      c.check(refused([&] { npy::npzfilereader rd(p); }), "prefix-accepted", [&] { return desc + fmt(" (file): first %zu of %zu bytes", k, bytes.size()); });
    }
    c.seen("prefixes opened");
  }
  if (!huge) c.seen("archives cut at every byte");
  c.cover("members", m.map.size());
  c.nontrivial(fnv(bytes));
  c.sample(desc + fmt(" %zu bytes", bytes.size()));
}
