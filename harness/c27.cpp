// C27: readers are passive, independent and closable.
#include <dirent.h>
#include "npz.h"
using namespace vt;

static bool g_drop = false; // work as a user without privileges
void begin_run(Ctx &c) {
  if (c.arg("drop", 0) && geteuid() == 0) {
    chmod(c.work.c_str(), 0777);
    g_drop = true;
  }
}
void end_run(Ctx &) {}

static size_t fds() {
  size_t n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (dirent *e = readdir(d)) if (e->d_name[0] != '.') ++n;
  closedir(d);
  return n;
}
static std::vector<std::string> listing(const std::string &p) {
  std::vector<std::string> out;
  if (DIR *d = opendir(p.c_str())) { while (dirent *e = readdir(d)) out.push_back(e->d_name); closedir(d); }
  std::sort(out.begin(), out.end());
  return out;
}
static std::string facts(const std::string &p) {
  struct stat s;
  if (lstat(p.c_str(), &s)) return "absent";
  return fmt("ino %llu mode %o links %llu size %lld mtime %lld.%09ld ctime %lld.%09ld", static_cast<unsigned long long>(s.st_ino), s.st_mode, static_cast<unsigned long long>(s.st_nlink),
             static_cast<long long>(s.st_size), static_cast<long long>(s.st_mtim.tv_sec), s.st_mtim.tv_nsec, static_cast<long long>(s.st_ctim.tv_sec), s.st_ctim.tv_nsec);
}
static bool refused(const std::function<void()> &f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}
struct User { // privileges given up while this lives
  bool on;
  User() : on(g_drop && seteuid(65534) == 0) {}
  ~User() { if (on && seteuid(0)) abort(); }
};

// ---- unusable paths ----------------------------------------------------------
static void missing(Ctx &c) {
  Rng &r = c.rng;
  std::string dir = c.path("m");
  mkdir(dir.c_str(), 0755);
  std::string there = dir + "/there.npz", p, desc;
  ItemP it = gen_item(r, 50);
  { npy::npzfilewriter w(there); it->write(w, "a"); w.close(); }
  bool npy_file = r.chance(50);
  if (npy_file) it->save(there, npy::endian_t::NATIVE);
  switch (r.below(9)) {
  case 0: p = dir + "/missing.npz"; desc = "missing"; break;
  case 1: p = dir + "/no/such/dir.npy"; desc = "missing directory"; break;
  case 2: p = dir; desc = "a directory"; break;
  case 3: p = ""; desc = "empty path"; break;
  case 4: p = there + "/x"; desc = "below a file"; break;
  case 5: p = dir + "/dangling"; unlink(p.c_str()); if (symlink("nowhere", p.c_str())) return; desc = "dangling link"; break;
  case 6: p = dir + "/loop"; unlink(p.c_str()); if (symlink("loop", p.c_str())) return; desc = "link to itself"; break;
  case 7: p = dir + "/" + std::string(r.range(256, 5000), 'n'); desc = "name too long"; break;
  default: p = there; chmod(there.c_str(), 0); desc = "unreadable"; break;
  }
  c.note(desc);
  std::string before = facts(p);
  auto names = listing(dir);
  size_t f0 = fds();
  {
    User u;
    if (desc != "unreadable" || u.on) {
      c.check(refused([&] { it->load(p); }), "opened", [&] { return desc + ": load"; });
      with_type(it->type, [&](auto g) {
        typedef typename decltype(g)::type T;
        c.check(refused([&] { npy::load<T, npy::tensor>(p); }), "opened", [&] { return desc + ": load<T, TENSOR>"; });
        c.check(refused([&] { npy::tensor<T>::from_file(p); }), "opened", [&] { return desc + ": from_file"; });
      });
      c.check(refused([&] { npy::peek(p); }), "opened", [&] { return desc + ": peek"; });
      c.check(refused([&] { npy::npzfilereader x(p); }), "opened", [&] { return desc + ": reader"; });
      c.check(refused([&] { npy::npzfilereader x(p.c_str()); }), "opened", [&] { return desc + ": reader(const char *)"; });
      c.check(refused([&] { npy::npzfilereader x{std::filesystem::path(p)}; }), "opened", [&] { return desc + ": reader(path)"; });
      c.seen("refused: " + desc, 7);
    }
  }
  c.check(fds() == f0, "descriptors", [&] { return desc + fmt(": %zu open, %zu before", fds(), f0); });
  c.check(listing(dir) == names && facts(p) == before, "path-changed", [&] { return desc + ": " + facts(p) + " was " + before; });
  chmod(there.c_str(), 0644);
  for (auto &n : names) if (n != "." && n != "..") unlink((dir + "/" + n).c_str());
  c.nontrivial(fnv(desc + it->desc()));
}

// ---- lives of readers ----------------------------------------------------------
struct Source { // an archive and what is in it
  Model m;
  std::string bytes, path;
  bool big;
};
struct Live {
  const Source *src = nullptr;
  std::unique_ptr<npy::npzstringreader> s;
  std::unique_ptr<npy::npzfilereader> f;
  bool open = true;
  const std::vector<std::string> &keys() const { return s ? s->keys() : f->keys(); }
  bool contains(const std::string &n) { return s ? s->contains(n) : f->contains(n); }
};

static std::string one_use(Rng &r, Live &x, std::string *what) {
  const Source &src = *x.src;
  std::vector<std::string> names;
  for (auto &e : src.m.map) names.push_back(e.first);
  std::string q = !names.empty() && r.chance(80) ? names[r.below(names.size())] : gen_name(r);
  if (has_suffix(q) && r.chance(40)) q = q.substr(0, q.size() - 4);
  const Item *want = src.m.find(q);
  switch (r.below(5)) {
  case 0: *what = "keys"; return src.m.keys(x.keys());
  case 1: *what = "contains"; return x.contains(q) == (want != nullptr) ? "" : "contains " + hex(q, 40);
  case 2: {
    *what = "peek";
    try {
      npy::header_info h = x.s ? x.s->peek(q) : x.f->peek(q);
      if (!want) return "peek of an absent name returned";
      if (!x.open) return "peek after close returned";
      return want->same_header(h, src.big);
    } catch (const std::exception &e) { return want && x.open ? std::string("peek threw: ") + e.what() : ""; }
  }
  case 3:
    *what = "wrong type";
    if (want) {
      int t = static_cast<int>((want->type + r.range(1, NTYPES - 1)) % NTYPES);
      return (x.s ? wrong_type_refused(*x.s, q, t) : wrong_type_refused(*x.f, q, t)) ? "" : "read as another type returned";
    } // fallthrough
  default:
    *what = "read";
    if (!want) return (x.s ? wrong_type_refused(*x.s, q, T_STR) : wrong_type_refused(*x.f, q, T_STR)) ? "" : "read of an absent name returned";
    try {
      std::string w = x.s ? want->read(*x.s, q, static_cast<int>(r.below(2))) : want->read(*x.f, q, static_cast<int>(r.below(2)));
      return x.open ? w : "read after close returned";
    } catch (const std::exception &e) { return x.open ? std::string("read threw: ") + e.what() : ""; }
  }
}

struct Out { // a writer busy elsewhere meanwhile
  std::unique_ptr<npy::npzfilewriter> f;
  std::unique_ptr<npy::npzstringwriter> ref;
  std::string path;
};

static void lives(Ctx &c) {
  Rng &r = c.rng;
  size_t f0 = fds();
  std::string dir = c.path("l"), outdir = c.path("o");
  mkdir(dir.c_str(), 0777);
  mkdir(outdir.c_str(), 0777);
  chmod(dir.c_str(), 0777);
  chmod(outdir.c_str(), 0777);
  bool moving = !g_drop && r.chance(30); // archives change their names while open
  std::vector<std::unique_ptr<Source>> srcs;
  std::string hist;
  for (uint64_t k = 0, n = r.range(1, 3); k < n; ++k) {
    std::unique_ptr<Source> s(new Source);
    npy::endian_t en = ENDIANS[r.below(3)];
    s->big = is_big(en);
    s->path = dir + fmt("/s%llu.npz", static_cast<unsigned long long>(k));
    npy::npzfilewriter w(s->path, METHODS[r.below(2)], en);
    for (uint64_t q = r.below(6); q--;) {
      ItemP it = gen_item(r, r.chance(10) ? 20000 : 60);
      std::string name = r.chance(60) ? fmt("shared%llu", static_cast<unsigned long long>(r.below(3))) : gen_name(r); // the same names in several archives
      it->write(w, name);
      s->m.write(name, it);
    }
    w.close();
    s->bytes = slurp(s->path);
    srcs.push_back(std::move(s));
  }
  ItemP lone = gen_item(r, 100);
  std::string lone_path = dir + "/lone.npy";
  npy::endian_t lone_en = ENDIANS[r.below(3)];
  lone->save(lone_path, lone_en);
  timespec old[2] = {{1000000000, 5}, {1000000000, 7}};
  for (auto &n : listing(dir)) if (n[0] != '.') { utimensat(AT_FDCWD, (dir + "/" + n).c_str(), old, 0); chmod((dir + "/" + n).c_str(), 0444); }
  if (!moving) chmod(dir.c_str(), 0555);
  auto names = listing(dir);
  std::vector<std::string> before;
  for (auto &n : names) if (n[0] != '.') before.push_back(facts(dir + "/" + n));
  size_t ops = r.range(10, 70);
  {
    User u;
    c.seen(u.on ? "lives without write permission" : "lives");
    std::vector<Live> pool(6);
    Out out;
    size_t open_files = 0;
    auto D = [&](const std::string &e) { return hist + ": " + e; };
    auto open_now = [&] { return f0 + open_files + (out.f ? 1 : 0); };
    auto drop = [&](Live &x) { if (x.f && x.open) --open_files; x = Live(); };
    for (size_t k = 0; k < ops; ++k) {
      size_t i = r.below(pool.size());
      Live &x = pool[i];
      if (hist.size() > 3000) hist = "..." + hist.substr(2000);
      if (!x.src) { // open
        const Source &src = *srcs[r.below(srcs.size())];
        int kind = static_cast<int>(r.below(5));
        hist += fmt(" %zu=open%d(%s)", i, kind, src.path.substr(src.path.size() - 6).c_str());
        c.note(hist);
        std::string buf = src.bytes, p = src.path;
        if (kind == 0) x.s.reset(new npy::npzstringreader(buf));
        else if (kind == 1) x.s.reset(new npy::npzstringreader(std::move(buf)));
        else if (kind == 2) x.f.reset(new npy::npzfilereader(p));
        else if (kind == 3) x.f.reset(new npy::npzfilereader(p.c_str()));
        else x.f.reset(new npy::npzfilereader(std::filesystem::path(p)));
        if (kind == 0) c.check(buf == src.bytes, "argument-changed", [&] { return D("the buffer given"); });
        if (kind > 1) c.check(p == src.path, "argument-changed", [&] { return D("the path given"); });
        std::fill(buf.begin(), buf.end(), 'x'); // the reader may not depend on these any longer
        std::fill(p.begin(), p.end(), 'x');
        x.src = &src;
        x.open = true;
        if (x.f) { ++open_files; c.check(x.f->is_open(), "is_open", [&] { return D("not open after opening"); }); }
        c.check(fds() <= open_now(), "descriptors", [&] { return D(fmt("%zu open, expected at most %zu", fds(), open_now())); });
        c.seen("opened");
        continue;
      }
      switch (r.below(14)) {
      case 0:
        hist += fmt(" ~%zu", i);
        drop(x);
        c.check(fds() <= open_now(), "descriptors", [&] { return D(fmt("%zu open, expected at most %zu", fds(), open_now())); });
        c.seen("destroyed");
        break;
      case 1:
        if (!x.f) break;
        hist += fmt(" close%zu", i);
        c.note(hist);
        x.f->close();
        if (x.open) --open_files;
        x.open = false;
        c.check(!x.f->is_open(), "is_open", [&] { return D("open after close"); });
        c.check(fds() <= open_now(), "descriptors", [&] { return D(fmt("%zu open, expected at most %zu", fds(), open_now())); });
        c.seen("closed");
        break;
      case 2: case 3: { // moved
        hist += fmt(" move%zu", i);
        c.note(hist);
        size_t j = r.below(pool.size());
        bool assign = j != i && pool[j].src && (pool[j].s != nullptr) == (x.s != nullptr);
        auto go = [&](auto &from, auto &onto) {
          typedef typename std::decay_t<decltype(from)>::element_type R;
          if constexpr (std::is_move_constructible_v<R> && std::is_move_assignable_v<R>) {
            if (assign) {
              hist += fmt("to%zu", j);
              if (pool[j].f && pool[j].open) --open_files;
              *onto = std::move(*from);
              pool[j].src = x.src;
              pool[j].open = x.open;
              from.reset();
              x = Live();
              c.seen("move-assigned");
            } else {
              std::unique_ptr<R> fresh(new R(std::move(*from)));
              from = std::move(fresh); // destroys what was moved from
              c.seen("move-constructed");
            }
          }
        };
        if (x.s) go(x.s, pool[j].s); else go(x.f, pool[j].f);
        Live &y = assign && !x.src ? pool[j] : x;
        if (y.f) c.check(y.f->is_open() == y.open, "is_open", [&] { return D("after a move"); });
        c.check(fds() <= open_now(), "descriptors", [&] { return D(fmt("%zu open, expected at most %zu", fds(), open_now())); });
        std::string what, w = one_use(r, y, &what);
        c.check(w.empty(), "moved-reader", [&] { return D(what + ": " + w); });
        break;
      }
      case 4: // a writer in between
        if (!out.f) {
          hist += " writer";
          out.path = outdir + fmt("/o%llu.npz", static_cast<unsigned long long>(k));
          int m = static_cast<int>(r.below(2));
          out.f.reset(new npy::npzfilewriter(out.path, METHODS[m]));
          out.ref.reset(new npy::npzstringwriter(METHODS[m]));
        } else if (r.chance(70)) {
          ItemP it = gen_item(r, 100);
          std::string n = gen_name(r);
          hist += " write";
          it->write(*out.f, n);
          it->write(*out.ref, n);
        } else {
          hist += " finish";
          out.f->close();
          out.ref->close();
          c.check(slurp(out.path) == out.ref->str(), "writer", [&] { return D("archive written meanwhile differs"); });
          out.f.reset();
          c.seen("archives written meanwhile");
        }
        break;
      case 5:
        if (moving) {
          Source &s = *srcs[r.below(srcs.size())];
          std::string to = dir + fmt("/r%zu%d.npz", k, static_cast<int>(r.below(10)));
          if (rename(s.path.c_str(), to.c_str()) == 0) {
            if (r.chance(50)) spew(s.path, r.chance(50) ? "" : srcs[0]->bytes); // something else under the old name
            s.path = to;
            hist += " rename";
            c.seen("renamed while in use");
          }
        } else {
          std::string w;
          try { w = r.chance(50) ? lone->load(lone_path) : lone->same_header(npy::peek(lone_path), is_big(lone_en)); } catch (const std::exception &e) { w = e.what(); }
          c.check(w.empty(), "npy", [&] { return D("NPY file: " + w); });
          c.check(refused([&] { with_type((lone->type + 1) % NTYPES, [&](auto g) { typedef typename decltype(g)::type T; npy::load<T, npy::tensor>(lone_path); }); }), "npy", [&] { return D("NPY file read as another type"); });
          c.seen("NPY files read meanwhile");
        }
        break;
      default: {
        std::string what;
        c.note(hist);
        std::string w = one_use(r, x, &what);
        hist += fmt(" %s%zu", what.c_str(), i);
        c.check(w.empty(), x.open ? "answer" : "after-close", [&] { return D(w); });
        c.seen(x.open ? "answers" : "answers after close");
      }
      }
    }
    // each reader still tells the whole truth
    for (auto &x : pool) {
      if (x.src && x.open) {
        std::string w;
        try { w = x.s ? whole(*x.s, x.src->m, x.src->big) : whole(*x.f, x.src->m, x.src->big); } catch (const std::exception &e) { w = e.what(); }
        c.check(w.empty(), "answer", [&] { return D("at the end: " + w); });
      }
      drop(x);
    }
    out.f.reset();
    c.check(fds() == f0, "descriptors", [&] { return D(fmt("%zu open at the end, %zu before", fds(), f0)); });
  }
  chmod(dir.c_str(), 0777);
  if (!moving) {
    c.check(listing(dir) == names, "directory-changed", [&] { return hist + fmt(": %zu entries, %zu before", listing(dir).size(), names.size()); });
    size_t k = 0;
    for (auto &n : names) if (n[0] != '.') { std::string f = facts(dir + "/" + n); c.check(f == before[k], "file-changed", [&] { return hist + ": " + n + ": " + f + " was " + before[k]; }); ++k; }
    for (auto &s : srcs) c.check(slurp(s->path) == s->bytes, "file-changed", [&] { return hist + ": content"; });
  }
  for (auto &d : {dir, outdir}) for (auto &n : listing(d)) if (n[0] != '.') unlink((d + "/" + n).c_str());
  c.nontrivial(fnv(hist));
  c.sample(hist.substr(0, 300));
}

void run_case(Ctx &c) { c.mode == "missing" ? missing(c) : lives(c); }
