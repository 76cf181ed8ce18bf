// C33: the process around the library. Before each operation the process is put
// into some lawful but unusual state; after it (and from the caller's stream buffers, in
// the middle of it) the state must be the same. Interposed libc functions report
// what the library asks of the system in between, and which files it touches.
#include "npz.h"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdarg>
#include <dlfcn.h>
#include <new>
#include <pthread.h>
#include <set>
#include <spawn.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <xmmintrin.h>
using namespace vt;
extern char **environ;

static bool inside = false;               // the library is at work
static std::set<std::string> *allowed;    // the files it was given
static std::string *told;                 // what it must not have done
static uint64_t opened = 0;
static void tell(const char *what, const char *arg = "") {
  if (!inside) return;
  inside = false;
  *told += std::string(what) + "(" + (arg ? arg : "NULL") + ") ";
  inside = true;
}
static void touches(const char *what, const char *path) {
  if (!inside) return;
  ++opened;
  inside = false;
  bool ok = allowed->count(path) > 0;
  inside = true;
  if (!ok) tell(what, path);
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = reinterpret_cast<ret (*)(__VA_ARGS__)>(dlsym(RTLD_NEXT, name))
extern "C" {
char *setlocale(int c, const char *l) { if (l) tell("setlocale", l); REAL(char *, "setlocale", int, const char *); return real(c, l); }
int chdir(const char *p) { tell("chdir", p); REAL(int, "chdir", const char *); return real(p); }
int fchdir(int d) { tell("fchdir"); REAL(int, "fchdir", int); return real(d); }
mode_t umask(mode_t m) { tell("umask"); REAL(mode_t, "umask", mode_t); return real(m); }
sighandler_t signal(int s, sighandler_t h) { tell("signal"); REAL(sighandler_t, "signal", int, sighandler_t); return real(s, h); }
int sigaction(int s, const struct sigaction *n, struct sigaction *o) { if (n) tell("sigaction"); REAL(int, "sigaction", int, const struct sigaction *, struct sigaction *); return real(s, n, o); }
unsigned alarm(unsigned n) { tell("alarm"); REAL(unsigned, "alarm", unsigned); return real(n); }
int setenv(const char *a, const char *b, int c) { tell("setenv", a); REAL(int, "setenv", const char *, const char *, int); return real(a, b, c); }
int putenv(char *a) { tell("putenv", a); REAL(int, "putenv", char *); return real(a); }
int unsetenv(const char *a) { tell("unsetenv", a); REAL(int, "unsetenv", const char *); return real(a); }
void srand(unsigned s) { tell("srand"); REAL(void, "srand", unsigned); real(s); }
int rand() { tell("rand"); REAL(int, "rand", void); return real(); }
void srandom(unsigned s) { tell("srandom"); REAL(void, "srandom", unsigned); real(s); }
long random() { tell("random"); REAL(long, "random", void); return real(); }
double drand48() { tell("drand48"); REAL(double, "drand48", void); return real(); }
long lrand48() { tell("lrand48"); REAL(long, "lrand48", void); return real(); }
pid_t fork() { tell("fork"); REAL(pid_t, "fork", void); return real(); }
int system(const char *s) { tell("system", s); REAL(int, "system", const char *); return real(s); }
FILE *popen(const char *s, const char *m) { tell("popen", s); REAL(FILE *, "popen", const char *, const char *); return real(s, m); }
int posix_spawn(pid_t *p, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *t, char *const v[], char *const e[]) { tell("posix_spawn", f); REAL(int, "posix_spawn", pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]); return real(p, f, a, t, v, e); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { tell("pthread_create"); REAL(int, "pthread_create", pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); return real(t, a, f, x); }
int unlink(const char *p) { touches("unlink", p); REAL(int, "unlink", const char *); return real(p); }
int remove(const char *p) { touches("remove", p); REAL(int, "remove", const char *); return real(p); }
int rename(const char *a, const char *b) { touches("rename", a); touches("rename", b); REAL(int, "rename", const char *, const char *); return real(a, b); }
int mkdir(const char *p, mode_t m) { touches("mkdir", p); REAL(int, "mkdir", const char *, mode_t); return real(p, m); }
int chmod(const char *p, mode_t m) { tell("chmod", p); REAL(int, "chmod", const char *, mode_t); return real(p, m); }
int fchmod(int f, mode_t m) { tell("fchmod"); REAL(int, "fchmod", int, mode_t); return real(f, m); }
int symlink(const char *a, const char *b) { touches("symlink", b); REAL(int, "symlink", const char *, const char *); return real(a, b); }
int link(const char *a, const char *b) { touches("link", b); REAL(int, "link", const char *, const char *); return real(a, b); }
int mkstemp(char *t) { tell("mkstemp", t); REAL(int, "mkstemp", char *); return real(t); }
FILE *tmpfile() { tell("tmpfile"); REAL(FILE *, "tmpfile", void); return real(); }
FILE *fopen(const char *p, const char *m) { touches("fopen", p); REAL(FILE *, "fopen", const char *, const char *); return real(p, m); }
FILE *fopen64(const char *p, const char *m) { touches("fopen64", p); REAL(FILE *, "fopen64", const char *, const char *); return real(p, m); }
int open(const char *p, int f, ...) {
  mode_t m = 0;
  if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); }
  touches("open", p);
  REAL(int, "open", const char *, int, ...);
  return real(p, f, m);
}
int open64(const char *p, int f, ...) {
  mode_t m = 0;
  if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); }
  touches("open64", p);
  REAL(int, "open64", const char *, int, ...);
  return real(p, f, m);
}
int openat(int d, const char *p, int f, ...) {
  mode_t m = 0;
  if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); }
  touches("openat", p);
  REAL(int, "openat", int, const char *, int, ...);
  return real(d, p, f, m);
}
int fesetround(int r) { tell("fesetround"); REAL(int, "fesetround", int); return real(r); }
int setrlimit(__rlimit_resource_t w, const struct rlimit *l) { tell("setrlimit"); REAL(int, "setrlimit", __rlimit_resource_t, const struct rlimit *); return real(w, l); }
int setrlimit64(__rlimit_resource_t w, const struct rlimit64 *l) { tell("setrlimit64"); REAL(int, "setrlimit64", __rlimit_resource_t, const struct rlimit64 *); return real(w, l); }
}
// changing the locale of all threads and back again is a change too
std::locale std::locale::global(const std::locale &l) {
  tell("std::locale::global", l.name().c_str());
  REAL(std::locale, "_ZNSt6locale6globalERKS_", const std::locale &);
  return real(l);
}
struct Pause { bool was; Pause() : was(inside) { inside = false; } ~Pause() { inside = was; } };

template <class S> static std::string stream_state(S &s) {
  return fmt("flags %x width %ld precision %ld state %d exceptions %d tie %p buf %p locale ", static_cast<unsigned>(s.flags()), static_cast<long>(s.width()), static_cast<long>(s.precision()), static_cast<int>(s.rdstate()), static_cast<int>(s.exceptions()),
             static_cast<void *>(s.tie()), static_cast<void *>(s.rdbuf())) + s.getloc().name();
}
typedef std::vector<std::pair<std::string, std::string>> State;
static std::locale expected_locale;
static State state() {
  Pause p;
  State s;
  auto add = [&](const char *k, const std::string &v) { s.emplace_back(k, v); };
  add("C locale", setlocale(LC_ALL, nullptr));
  add("thread's C locale", fmt("%p", static_cast<void *>(uselocale(static_cast<locale_t>(nullptr)))));
  add("C++ locale", std::locale() == expected_locale ? "the caller's" : "another: " + std::locale().name());
  char b[5000];
  add("working directory", getcwd(b, sizeof b) ? b : "none");
  std::fenv_t f;
  fegetenv(&f);
  add("floating point", fmt("%x %x %d", f.__control_word, _mm_getcsr() & ~0x3fu, fegetround()));
  std::string st = slurp("/proc/self/status");
  for (const char *k : {"Umask:", "Threads:", "SigBlk:", "SigIgn:", "SigCgt:", "NoNewPrivs:", "Uid:", "Gid:"}) {
    size_t at = st.find(std::string("\n") + k);
    add(k, at == std::string::npos ? "" : st.substr(at + 1, st.find('\n', at + 1) - at - 1));
  }
  std::string sig;
  for (int i = 1; i < 32; ++i) { struct sigaction a; if (sigaction(i, nullptr, &a) == 0) sig += fmt("%p/%x ", reinterpret_cast<void *>(a.sa_handler), static_cast<unsigned>(a.sa_flags)); }
  add("signal handlers", sig);
  std::string env;
  for (char **e = environ; *e; ++e) env += std::string(*e) + "\n";
  add("environment", env);
  std::string lim;
  for (int i = 0; i < RLIM_NLIMITS; ++i) if (i != RLIMIT_CPU) { // the driver sets that one from outside
    struct rlimit l; getrlimit(static_cast<__rlimit_resource_t>(i), &l); lim += fmt("%lld/%lld ", static_cast<long long>(l.rlim_cur), static_cast<long long>(l.rlim_max)); }
  add("limits", lim);
  itimerval t;
  getitimer(ITIMER_REAL, &t);
  add("timer", fmt("%d", t.it_value.tv_sec || t.it_value.tv_usec));
  add("priority", fmt("%d", getpriority(PRIO_PROCESS, 0)));
  add("children", waitpid(-1, nullptr, WNOHANG) < 0 && errno == ECHILD ? "none" : "some");
  add("cout", stream_state(std::cout));
  add("cin", stream_state(std::cin));
  add("cerr", stream_state(std::cerr));
  add("clog", stream_state(std::clog));
  add("terminate handler", fmt("%p", reinterpret_cast<void *>(std::get_terminate())));
  add("new handler", fmt("%p", reinterpret_cast<void *>(std::get_new_handler())));
  add("uncaught exceptions", fmt("%d", std::uncaught_exceptions()));
  return s;
}
static std::string difference(const State &a, const State &b) {
  std::string d;
  for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) d += a[i].first + ": '" + a[i].second.substr(0, 400) + "' became '" + b[i].second.substr(0, 400) + "'; ";
  return d;
}

static const State *before;
static std::string midway;
static int looks = 0;
static void look() { // from the caller's stream buffer
  if (!before || looks >= 3) return;
  Pause p;
  ++looks;
  State now = state();
  if (midway.empty()) midway = difference(*before, now);
}
struct WatchOut : std::streambuf {
  std::string data;
  int_type overflow(int_type ch) override { look(); data.push_back(static_cast<char>(ch)); return traits_type::not_eof(ch); }
  std::streamsize xsputn(const char *s, std::streamsize n) override { look(); data.append(s, static_cast<size_t>(n)); return n; }
};
struct WatchIn : std::streambuf {
  std::string data;
  size_t pos = 0;
  explicit WatchIn(const std::string &s) : data(s) {}
  int_type underflow() override {
    look();
    if (pos >= data.size()) return traits_type::eof();
    size_t n = std::min<size_t>(100, data.size() - pos);
    setg(&data[pos], &data[pos], &data[pos] + n);
    pos += n;
    return traits_type::to_int_type(*gptr());
  }
};

static off_t size_of(int fd) { struct stat st; return fstat(fd, &st) == 0 && S_ISREG(st.st_mode) ? st.st_size : 0; }
static int sink_fd = -1;
void begin_run(Ctx &c) {
  allowed = new std::set<std::string>;
  told = new std::string;
  // the standard output of the library goes where it can be measured
  std::string p = c.out + ".stdout";
  sink_fd = ::open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
  fflush(stdout);
  dup2(sink_fd, 1);
}
void end_run(Ctx &c) { c.seen("files opened by the library", opened); }

struct Punct : std::numpunct<char> {
  char do_thousands_sep() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
};
static void handler(int) {}
[[noreturn]] static void terminator() { abort(); }
static void no_memory() { throw std::bad_alloc(); }

void run_case(Ctx &c) {
  Rng &r = c.rng;
  const std::string home = c.path(fmt("home%llu", static_cast<unsigned long long>(c.idx))), tmp = home + "/tmp", cwd = home + "/cwd";
  std::filesystem::create_directories(tmp);
  std::filesystem::create_directories(cwd);
  std::vector<ItemP> items;
  for (size_t n = r.range(2, 5), i = 0; i < n; ++i) items.push_back(c.mode == "large" ? big_item(r, 30000, 4000000) : gen_item(r, 60));
  npy::endian_t en = ENDIANS[r.below(3)];
  const npy::compression_method_t method = METHODS[r.below(2)];

  // ---- an unusual process
  const std::filesystem::path old_cwd = std::filesystem::current_path();
  const std::string old_c = setlocale(LC_ALL, nullptr);
  const std::locale old_l;
  const int round = std::vector<int>{FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}[r.below(4)];
  const mode_t mask = std::vector<mode_t>{0, 022, 077, 027, 0137}[r.below(5)];
  const bool cl = r.chance(50), pl = r.chance(50), ftz = r.chance(30), blocked = r.chance(30), hex_out = r.chance(30), bad_out = r.chance(20), handlers = r.chance(50), older = r.chance(50);
  const std::ios::iostate in_state = std::vector<std::ios::iostate>{std::ios::goodbit, std::ios::eofbit, std::ios::failbit | std::ios::eofbit, std::ios::badbit}[r.below(4)], err_state = r.chance(30) ? std::ios::failbit : std::ios::goodbit;
  const std::string D = fmt("C locale %d C++ locale %d round %d ftz %d umask %o blocked %d cout %d%d cin %d cerr %d handlers %d older files %d", cl, pl, round, ftz, mask, blocked, hex_out, bad_out, static_cast<int>(in_state), static_cast<int>(err_state), handlers, older);
  c.note(D);
  if (chdir(cwd.c_str()) != 0) return;
  setenv("TMPDIR", tmp.c_str(), 1);
  setenv("VT_NOISE", std::to_string(r.next()).c_str(), 1);
  if (cl) setlocale(LC_ALL, "C.UTF-8");
  if (pl) std::locale::global(std::locale(std::locale::classic(), new Punct));
  expected_locale = std::locale();
  fesetround(round);
  if (ftz) _mm_setcsr(_mm_getcsr() | 0x8040);
  const mode_t old_mask = umask(mask);
  sigset_t set, old_set;
  sigemptyset(&set);
  if (blocked) { sigaddset(&set, SIGUSR2); sigaddset(&set, SIGPIPE); }
  sigprocmask(SIG_BLOCK, &set, &old_set);
  if (handlers) { signal(SIGPIPE, handler); signal(SIGXFSZ, SIG_IGN); signal(SIGUSR1, handler); std::set_terminate(terminator); std::set_new_handler(no_memory); }
  const std::ios_base::fmtflags old_flags = std::cout.flags();
  if (hex_out) { std::cout << std::hex << std::showbase << std::boolalpha; std::cout.precision(3); std::cout.width(7); }
  if (bad_out) std::cout.setstate(std::ios::badbit);
  std::cin.clear(in_state);
  std::cin.width(static_cast<std::streamsize>(r.below(9)));
  std::cerr.clear(err_state);
  std::clog.clear(err_state);
  if (hex_out) { std::cin >> std::hex >> std::noskipws; std::clog << std::oct; }
  srand(17);
  srandom(17);
  srand48(17);

  const State was = state();
  std::set<std::string> made; // files there ought to be
  auto op = [&](const std::string &name, const std::vector<std::string> &paths, bool quiet, const std::function<std::string()> &f) {
    allowed->clear();
    for (auto &p : paths) allowed->insert(p);
    told->clear();
    midway.clear();
    looks = 0;
    before = &was;
    fflush(stdout);
    const off_t out0 = size_of(1), err0 = size_of(2);
    std::string why;
    errno = static_cast<int>(r.below(40));
    inside = true;
    try { why = f(); } catch (const std::exception &e) { inside = false; why = std::string("threw ") + e.what(); }
    inside = false;
    before = nullptr;
    const State now = state();
    fflush(stdout);
    const std::string d = difference(was, now);
    c.check(why.empty(), "wrong result", [&] { return name + " under " + D + ": " + why; });
    c.check(d.empty(), "process changed", [&] { return name + " under " + D + ": " + d; });
    c.check(midway.empty(), "process changed meanwhile", [&] { return name + " under " + D + ": " + midway; });
    c.check(told->empty(), "asked of the system", [&] { return name + " under " + D + ": " + *told; });
    if (quiet) c.check(size_of(1) == out0 && size_of(2) == err0, "wrote to a standard stream", [&] { return name + fmt(": %ld and %ld bytes", static_cast<long>(size_of(1) - out0), static_cast<long>(size_of(2) - err0)); });
    c.seen(name);
    if (looks) c.seen("looks from within an operation", static_cast<uint64_t>(looks));
  };
  auto refused = [](const std::function<void()> &f) -> std::string {
    try { f(); } catch (const std::exception &) { return ""; }
    return "not refused";
  };
  auto mode_of = [&](const std::string &p) -> std::string {
    Pause pause;
    struct stat st;
    if (stat(p.c_str(), &st) != 0) return "no file";
    return (st.st_mode & 07777) == (0666 & ~mask) ? "" : fmt("mode %o", st.st_mode & 07777);
  };

  Model m;
  for (size_t i = 0; i < items.size(); ++i) m.write(fmt("n%zu", i), items[i]);
  const bool readable = !(mask & 0400);
  const bool abs = r.chance(50);
  if (older) { // something to be replaced
    for (size_t i = 0; i < items.size(); ++i) if (r.chance(70)) spew(fmt("x%zu.npy", i), std::string(r.below(3000), 'o'));
    spew("a.npz", std::string(r.below(3000), 'z'));
  }
  for (size_t i = 0; i < items.size(); ++i) {
    const Item &it = *items[i];
    const std::string ref = it.ref(is_big(en)), rel = fmt("x%zu.npy", i), path = abs ? cwd + "/" + rel : rel;
    op("save to a stream", {}, true, [&] { WatchOut w; std::ostream o(&w); it.save(o, en); return w.data == ref ? "" : "wrong bytes"; });
    op("load from a stream", {}, true, [&] { WatchIn b(ref); std::istream in(&b); return it.load(in); });
    op("peek a stream", {}, true, [&] { WatchIn b(ref); std::istream in(&b); return it.same_header(npy::peek(in), is_big(en)); });
    op("save to a file", {path}, true, [&] { it.save(path, en); return mode_of(path); });
    made.insert(rel);
    c.check(!readable || slurp(path) == ref, "wrong file", D);
    if (readable) {
      op("load a file", {path}, true, [&] { return it.load(path); });
      op("peek a file", {path}, true, [&] { return it.same_header(npy::peek(path), is_big(en)); });
    }
    op("header_info", {}, true, [&] { return it.same_header(npy::header_info(ref_dict(it.descr(is_big(en)), it.fortran, it.shape)), is_big(en)); });
    op("refuse a cut file", {}, false, [&] { return refused([&] { WatchIn b(ref.substr(0, ref.size() / 2)); std::istream in(&b); npy::load<npy::tensor<double>>(in); }); });
    op("refuse a wrong type", {}, false, [&] {
      WatchIn b(ref);
      std::istream in(&b);
      return refused([&] { with_type(it.type == 0 ? 1 : 0, [&](auto g) { npy::load<npy::tensor<typename decltype(g)::type>>(in); }); });
    });
  }
  op("dtype tables", {}, true, [&] {
    for (int t = 0; t < NTYPES; ++t) if (t != T_STR) if (npy::from_dtype(npy::to_dtype(tinfo(t).dtype, en)).first != tinfo(t).dtype) return "differs";
    return "";
  });
  op("refuse a dtype", {}, false, [&] { return refused([&] { npy::from_dtype("<q9"); }); });
  op("refuse an absent file", {"absent.npy"}, false, [&] { return refused([&] { npy::load<npy::tensor<float>>("absent.npy"); }); });
  op("refuse to peek an absent file", {"absent.npy"}, false, [&] { return refused([&] { npy::peek("absent.npy"); }); });
  op("refuse an absent archive", {"absent.npz"}, false, [&] { return refused([&] { npy::npzfilereader x("absent.npz"); }); });
  op("refuse an absent directory", {"no/x.npy"}, false, [&] { return refused([&] { items[0]->save("no/x.npy", en); }); });
  std::string bytes;
  op("archive in memory", {}, true, [&] {
    npy::npzstringwriter w(method, en);
    for (size_t i = 0; i < items.size(); ++i) items[i]->write(w, fmt("n%zu", i));
    w.close();
    bytes = w.str();
    npy::npzstringreader rd(bytes);
    return whole(rd, m, is_big(en));
  });
  const std::string zip = abs ? cwd + "/a.npz" : "a.npz";
  op("write an archive file", {zip}, true, [&] {
    auto go = [&](npy::npzfilewriter w) { for (size_t i = 0; i < items.size(); ++i) items[i]->write(w, fmt("n%zu", i)); if (items.size() & 1) w.close(); };
    if (items.size() % 3 == 0) go(npy::npzfilewriter(zip.c_str(), method, en));
    else if (items.size() % 3 == 1) go(npy::npzfilewriter(std::filesystem::path(zip), method, en));
    else go(npy::npzfilewriter(zip, method, en));
    return mode_of(zip);
  });
  made.insert("a.npz");
  if (readable) {
    op("read an archive file", {zip}, true, [&] { npy::npzfilereader rd(zip); std::string w = whole(rd, m, is_big(en)); rd.close(); return w; });
    op("refuse an absent name", {zip}, false, [&] { npy::npzfilereader rd(zip); return refused([&] { rd.peek("absent"); }); });
  }
  op("refuse a damaged member", {}, false, [&] {
    std::string hurt = bytes;
    hurt[parse_zip(bytes)[0].offset + 30 + 6 + 3] ^= 16;
    npy::npzstringreader rd(hurt);
    return refused([&] { items[0]->read(rd, "n0"); });
  });
  op("refuse a damaged archive", {}, false, [&] { return refused([&] { npy::npzstringreader rd(bytes.substr(0, bytes.size() - 1)); }); });
  op("refuse a write after close", {}, false, [&] { npy::npzstringwriter w(method, en); w.close(); return refused([&] { items[0]->write(w, "late"); }); });
  op("tensors", {}, true, [&] {
    npy::tensor<int32_t> t(std::vector<size_t>{3, 4}), u = t;
    u(1, -1) = 5;
    t = std::move(u);
    if (t(1, 3) != 5) return "wrong element";
    try { t(3, 0) = 1; } catch (const std::exception &) { return ""; }
    return "not refused";
  });
  op("print", {}, true, [&] { std::ostringstream o; o << npy::endian_t::BIG << npy::data_type_t::BOOL; return o.str().empty() ? "nothing" : ""; });

  // ---- nothing else was left behind
  std::string files;
  std::set<std::string> there;
  for (auto &e : std::filesystem::directory_iterator(cwd)) there.insert(e.path().filename().string());
  for (auto &e : std::filesystem::directory_iterator(tmp)) files += e.path().string() + " ";
  c.check(there == made && files.empty(), "files", [&] { std::string s = files; for (auto &f : there) s += f + " "; return D + ": " + s; });
  const int seq = rand();
  srand(17);
  c.check(seq == rand(), "random sequence", D);

  // ---- as it was
  std::cout.clear();
  std::cout.flags(old_flags);
  std::cout.precision(6);
  std::cout.width(0);
  std::cin.clear();
  std::cin.width(0);
  std::cin >> std::dec >> std::skipws;
  std::cerr.clear();
  std::clog.clear();
  std::clog << std::dec;
  if (handlers) { signal(SIGPIPE, SIG_DFL); signal(SIGXFSZ, SIG_DFL); signal(SIGUSR1, SIG_DFL); std::set_terminate(nullptr); std::set_new_handler(nullptr); }
  sigprocmask(SIG_SETMASK, &old_set, nullptr);
  umask(old_mask);
  _mm_setcsr(_mm_getcsr() & ~0x8040u);
  fesetround(FE_TONEAREST);
  std::locale::global(old_l);
  setlocale(LC_ALL, old_c.c_str());
  if (chdir(old_cwd.c_str()) != 0) exit(3);
  std::filesystem::remove_all(home);
  c.cover("states of the process", D);
  c.nontrivial(mix(fnv(D), fnv(bytes)));
  c.sample(D);
}
