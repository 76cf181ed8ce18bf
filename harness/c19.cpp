// C19: the operating system refuses to store data.
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include "npz.h"
using namespace vt;

// ---- faults injected into the calls which store data -------------------------
struct Fault {
  bool armed = false;
  long at = -1;       // this call fails...
  bool rest = false;  // ...and all later ones
  int err = 0;        // 0: a short write instead
  bool partial = false; // half of the data arrives before the failure
  long calls = 0, failed = 0;
  bool close_fails = false;
};
static Fault F;
static bool hit() {
  long k = F.calls++;
  return k == F.at || (F.rest && k > F.at && F.at >= 0);
}
extern "C" ssize_t write(int fd, const void *p, size_t n) {
  if (F.armed && hit()) {
    ++F.failed;
    if (F.err == 0) return syscall(SYS_write, fd, p, n > 1 ? n / 2 : n);
    if (F.partial && n > 1 && F.failed == 1) { F.at = F.calls; return syscall(SYS_write, fd, p, n / 2); }
    errno = F.err;
    return -1;
  }
  return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int cnt) {
  if (F.armed && hit()) {
    ++F.failed;
    if (F.err == 0 || (F.partial && F.failed == 1)) {
      if (F.err) F.at = F.calls;
      if (v[0].iov_len) return syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len);
    }
    errno = F.err ? F.err : EINTR;
    return -1;
  }
  return syscall(SYS_writev, fd, v, cnt);
}
extern "C" int fclose(FILE *f) {
  static int (*real)(FILE *) = reinterpret_cast<int (*)(FILE *)>(dlsym(RTLD_NEXT, "fclose"));
  int rc = real(f);
  if (F.armed && F.close_fails) { ++F.failed; errno = EDQUOT; return EOF; }
  return rc;
}
extern "C" int close(int fd) {
  int rc = static_cast<int>(syscall(SYS_close, fd));
  if (F.armed && F.close_fails) { ++F.failed; errno = EDQUOT; return -1; }
  return rc;
}

void begin_run(Ctx &) { signal(SIGXFSZ, SIG_IGN); }
void end_run(Ctx &) {}

static void limit(rlim_t n) {
  rlimit l;
  getrlimit(RLIMIT_FSIZE, &l);
  l.rlim_cur = n;
  setrlimit(RLIMIT_FSIZE, &l);
}

// what is done: the same calls for every fault
struct Job {
  bool npz = false, close = true;
  int kind = 1;
  npy::compression_method_t method = METHODS[0];
  npy::endian_t en = ENDIANS[0];
  std::vector<std::pair<std::string, ItemP>> ws;
  std::string desc;
  // true if every call returned normally
  bool run(const std::string &path, std::string *err = nullptr) const {
    bool ok = true;
    auto step = [&](const std::function<void()> &f) {
      try { f(); } catch (const std::exception &e) { ok = false; if (err) *err = e.what(); }
    };
    if (!npz) {
      step([&] {
        if (kind == 0) ws[0].second->save(path, en);
        else with_type(ws[0].second->type, [&](auto g) { typedef typename decltype(g)::type T; npy::tensor<T> t(static_cast<const ItemT<T> &>(*ws[0].second).tensor); if (kind == 1) t.save(path, en); else npy::save(path, t, en); });
      });
      return ok;
    }
    std::unique_ptr<AnyWriter> w;
    step([&] { w.reset(new AnyWriter(kind, path, method, en)); });
    if (!w) return false;
    for (auto &x : ws) step([&] { w->write(x.first, *x.second); });
    if (close) step([&] { w->close(); });
    if (close && !ok) step([&] { w->close(); }); // and once more
    w.reset(); // must never terminate
    return ok;
  }
};

static Job gen_job(Rng &r, bool large) {
  Job j;
  j.npz = r.chance(65);
  j.en = ENDIANS[r.below(3)];
  j.method = METHODS[r.below(2)];
  j.close = !j.npz || r.chance(75);
  j.kind = static_cast<int>(j.npz ? r.range(1, 3) : r.below(3));
  size_t n = j.npz ? r.range(0, 3) : 1;
  for (size_t i = 0; i < n; ++i) {
    ItemP it;
    do it = gen_item(r, large ? 60000 : 20); while (!large && it->shape.size() > 30);
    if (large && r.chance(50)) { std::string b; size_t k = r.chance(50) ? r.range(8000, 8400) : r.below(200000); for (; b.size() < k;) b += static_cast<char>(r.next()); it = bytes_item(b); }
    j.ws.emplace_back("m" + std::to_string(i), it);
  }
  j.desc = j.npz ? fmt("npz writer %d method %d close %d:", j.kind, static_cast<int>(j.method), j.close) : fmt("npy %d:", j.kind);
  for (auto &x : j.ws) j.desc += " " + x.second->desc();
  return j;
}

// every element type x byte order x order x way of saving, larger than any buffer in between
static Job sweep_job(Rng &r, uint64_t i) {
  Job j;
  int t = static_cast<int>(i % NTYPES);
  i /= NTYPES;
  j.en = ENDIANS[i % 3];
  i /= 3;
  bool fortran = i & 1;
  i /= 2;
  j.npz = i % 4 == 3;
  j.kind = static_cast<int>(j.npz ? r.range(1, 3) : i % 4);
  j.method = METHODS[r.below(2)];
  // below, around and above what one flush of the stream stores
  size_t n = t == T_STR ? r.range(40, 300) : r.chance(50) ? r.range(8100, 8400) / r.range(1, 16) : r.range(1000, 30000);
  j.ws.emplace_back("m", make_item(r, t, r.chance(50) ? std::vector<size_t>{n} : std::vector<size_t>{r.range(1, 3), n / 2}, fortran));
  j.desc = j.npz ? fmt("sweep npz writer %d method %d:", j.kind, static_cast<int>(j.method)) : fmt("sweep npy %d:", j.kind);
  j.desc += " " + j.ws[0].second->desc();
  return j;
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  bool large = c.mode == "large";
  Job j = c.mode == "sweep" ? sweep_job(r, c.idx) : gen_job(r, large);
  c.note(j.desc);
  std::string p = c.path("out");
  unlink(p.c_str());
  std::string err;
  // no fault: it works, and this is the complete file
  F = Fault();
  F.armed = true;
  bool fine = j.run(p, &err);
  long calls = F.calls;
  F.armed = false;
  std::string full = slurp(p);
  c.check(fine, "spurious-failure", [&] { return j.desc + ": " + err; });
  if (!j.npz) c.check(full == j.ws[0].second->npy(j.en), "control", j.desc);
  else {
    Model m;
    for (auto &x : j.ws) m.write(x.first, x.second);
    AnyReader rd(0, "", full);
    std::string why = rd.whole(m, is_big(j.en));
    c.check(why.empty(), "control", [&] { return j.desc + ": " + why; });
  }
  bool judged = j.close; // a destructor cannot report: there only survival is judged
  auto verdict = [&](bool ok, const char *kind, const std::string &what) {
    if (judged) c.check(!ok || slurp(p) == full, kind, [&] { return j.desc + " " + what + fmt(": returned normally, %zu of %zu bytes on disk", slurp(p).size(), full.size()); });
    else ++c.compares;
    c.seen(ok ? "runs which returned normally" : "runs which threw");
  };
  // 1. every size limit
  size_t step = full.size() > 2500 ? full.size() / 150 + 1 : 1;
  for (size_t L = 0; L <= full.size(); L += (L < 40 || L + 120 > full.size()) ? 1 : step) {
    unlink(p.c_str());
    limit(L);
    bool ok = j.run(p, &err);
    limit(RLIM_INFINITY);
    c.note(j.desc + fmt(" size limit %zu of %zu", L, full.size()));
    verdict(ok, "lost-at-size-limit", fmt("size limit %zu", L));
    if (judged && L < full.size()) c.check(!ok, "limit-unreported", [&] { return j.desc + fmt(": limit %zu of %zu bytes, no call threw", L, full.size()); });
    if (L == full.size()) c.check(ok, "spurious-failure", [&] { return j.desc + " at exactly the limit: " + err; });
    c.seen("size limits tried");
  }
  // 2. every call which stores data
  static const int errs[] = {ENOSPC, EIO, EDQUOT, EFBIG, EPERM, EINTR, 0};
  for (long k = 0; k < calls && k < 60; ++k)
    for (int e : errs)
      for (int v = 0; v < 4; ++v) {
        if (e == EINTR && (v & 1)) continue; // forever interrupted would be forever retried
        if (e == 0 && v) continue;
        unlink(p.c_str());
        F = Fault();
        F.at = k;
        F.rest = v & 1;
        F.partial = v & 2;
        F.err = e;
        F.armed = true;
        bool ok = j.run(p, &err);
        F.armed = false;
        c.note(j.desc + fmt(" store %ld fails with %d variant %d", k, e, v));
        verdict(ok, "lost-at-failed-write", fmt("store %ld of %ld fails with errno %d (variant %d)", k, calls, e, v));
        if (judged && e != 0 && e != EINTR && (v & 1)) c.check(!ok || !F.failed, "failure-unreported", [&] { return j.desc + fmt(": store %ld and all later ones fail with errno %d, no call threw", k, e); });
        if (F.failed) c.seen("failing stores injected");
        c.cover("store calls hit", static_cast<uint64_t>(k));
      }
  // 3. the failure shows when the file is closed
  if (judged) {
    unlink(p.c_str());
    F = Fault();
    F.close_fails = F.armed = true;
    bool ok = j.run(p, &err);
    F.armed = false;
    if (F.failed) { c.check(!ok, "close-failure-unreported", j.desc); c.seen("failing closes injected"); }
  }
  // 4. a full device, and places where no file can be
  spew(c.path("plain"), "x");
  mkdir(c.path("dir").c_str(), 0755);
  std::string dangling = c.path("dangling");
  unlink(dangling.c_str());
  if (symlink(c.path("no/such/target").c_str(), dangling.c_str())) {}
  const std::string bad[] = {"/dev/full", c.path("nodir/x.npy"), c.path("dir"), c.path("dir") + "/", "", c.path(std::string(300, 'n')), "/" + std::string(5000, 'n'), c.path("plain") + "/x", dangling};
  for (auto &b : bad) {
    c.note(j.desc + " path " + b.substr(0, 60));
    if (b == "/dev/full" && access("/dev/full", W_OK) != 0) continue;
    bool ok = j.run(b, &err);
    if (judged) c.check(!ok, "unwritable-unreported", [&] { return j.desc + ": " + b.substr(0, 60) + fmt(" (%zu characters): no call threw", b.size()); });
    c.seen("unwritable places tried");
  }
  c.check(slurp(c.path("plain")) == "x", "clobbered", "");
  c.nontrivial(fnv(full));
  c.sample(j.desc + fmt(": %zu bytes, %ld stores", full.size(), calls));
}
