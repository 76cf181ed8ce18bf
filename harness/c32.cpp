// C32: use at any time in the life of a process. The harness runs itself as a
// child which works in chosen stages: constructor functions, initialisers of
// static objects, main, several threads at once, destructors of thread-local and
// static objects, exit handlers, destructor functions. Every stage must give what
// the same work gives in a process which is fully up. The first use of the library
// may be in any of them.
#include "npz.h"
#include <spawn.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <atomic>
#include <thread>
using namespace vt;
extern char **environ;

enum { CTOR, FIRST, STATIC, INMAIN, THREADS, LOCALTLS, THREADTLS, ATEXIT, QUICK, LOCALSTATIC, STATICD, FIRSTD, DTOR, NSTAGES };
static const char *const STAGES[NSTAGES] = {"constructor function", "first static initialiser", "static initialiser", "main", "threads at once", "thread-local destructor of main", "thread-local destructor of a thread",
                                            "exit handler", "quick exit handler", "function-local static destructor", "static destructor", "last static destructor", "destructor function"};
enum { E_RETURN, E_EXIT, E_QUICK, E_THREAD, NENDS };
static const char *const ENDS[NENDS] = {"end of main", "exit", "quick_exit", "exit in a thread"};

// trivially initialised: usable at all times
static struct { bool read, on; unsigned long long seed, mask; int end; char dir[300]; } life;
static bool on() {
  if (!life.read) {
    life.read = true;
    const char *e = getenv("VT_LIFE");
    life.on = e && sscanf(e, "%llu %llu %d %290s", &life.seed, &life.mask, &life.end, life.dir) == 4;
    if (life.on) { // a stage which does not end is stopped here
      struct rlimit l = {10, 10};
      setrlimit(RLIMIT_CPU, &l);
      alarm(120);
    }
  }
  return life.on;
}
static bool staged(int s) { return on() && (life.mask >> s & 1); }
const int HELD = 20; // static objects of the library are used too


// what the work gave, as text; the same seed must give the same text
static std::string work(uint64_t seed, const std::string &dir, const std::string &tag) {
  std::string o;
  try {
    Rng r(seed);
    Model m;
    npy::compression_method_t method = METHODS[r.below(2)];
    npy::endian_t ae = ENDIANS[r.below(3)];
    npy::npzstringwriter sw(method, ae);
    const std::string path = dir + "/" + tag + ".npz";
    {
      npy::npzfilewriter fw(path, method, ae);
      for (size_t n = r.range(1, 4), i = 0; i < n; ++i) {
        ItemP it = gen_item(r, 40);
        npy::endian_t en = ENDIANS[r.below(3)];
        std::string b = it->npy(en), ref = it->ref(is_big(en));
        o += fmt("%s saved %s\n", it->desc().c_str(), b == ref ? "right" : ("wrong " + hex(b, 200)).c_str());
        std::istringstream in(ref), in2(ref);
        std::string w = it->load(in);
        o += "loaded " + (w.empty() ? "right" : w) + "\n";
        w = it->same_header(npy::peek(in2), is_big(en));
        o += "peeked " + (w.empty() ? "right" : w) + "\n";
        w = it->same_header(npy::header_info(ref_dict(it->descr(is_big(en)), it->fortran, it->shape)), is_big(en));
        o += "parsed " + (w.empty() ? "right" : w) + "\n";
        it->save(dir + "/" + tag + ".npy", en);
        o += slurp(dir + "/" + tag + ".npy") == ref ? "file right\n" : "file wrong\n";
        w = it->load(dir + "/" + tag + ".npy");
        o += "file loaded " + (w.empty() ? "right" : w) + "\n";
        if (it->type != T_STR) {
          std::string d = npy::to_dtype(tinfo(it->type).dtype, en);
          auto back = npy::from_dtype(d);
          o += d + (back.first == tinfo(it->type).dtype ? " right\n" : " wrong\n");
        }
        std::istringstream bad("\x93NUMPY\1"), odd(ref_npy(ref_dict("<q9", false, {1}), "12345678"));
        bool t1 = false, t2 = false, t3 = false;
        try { npy::peek(bad); } catch (const std::exception &) { t1 = true; }
        try { npy::peek(odd); } catch (const std::exception &) { t2 = true; }
        try { npy::from_dtype("<q9"); } catch (const std::exception &) { t3 = true; }
        o += fmt("refused %d %d %d\n", t1, t2, t3);
        std::string name = fmt("n%zu", i);
        it->write(sw, name);
        it->write(fw, name);
        m.write(name, it);
      }
      if (seed & 1) fw.close();
    }
    sw.close();
    std::string bytes = sw.str();
    o += fmt("archive %016llx %s\n", static_cast<unsigned long long>(fnv(bytes)), slurp(path) == bytes ? "both" : "differ");
    for (auto &z : parse_zip(bytes)) o += fmt("%s %d %u %zu\n", z.name.c_str(), z.method, z.crc, static_cast<size_t>(z.usize));
    npy::npzstringreader sr(bytes);
    npy::npzfilereader fr(path);
    std::string w = whole(sr, m, is_big(ae)) + whole(fr, m, is_big(ae));
    o += "read " + (w.empty() ? "right" : w) + "\n";
    std::string hurt = bytes;
    hurt[parse_zip(bytes)[0].offset + 30 + 6 + 3] ^= 16;
    npy::npzstringreader hr(hurt);
    bool threw = false;
    try { m.map["n0.npy"]->read(hr, "n0"); } catch (const std::exception &) { threw = true; }
    o += threw ? "damage refused\n" : "damage accepted\n";
    threw = false;
    try { sr.peek("absent"); } catch (const std::exception &) { threw = true; }
    o += threw ? "absent refused\n" : "absent accepted\n";
  } catch (const std::exception &e) {
    o += std::string("exception: ") + e.what() + "\n";
  } catch (const std::string &e) {
    o += "bad archive: " + e + "\n";
  }
  return o;
}
static void stage(int s, int sub = 0) {
  if (!staged(s)) return;
  std::string o = work(life.seed, life.dir, fmt("f%d-%d", s, sub));
  spew(std::string(life.dir) + fmt("/stage%d-%d", s, sub), o);
}

// objects which outlive main
struct Held {
  std::unique_ptr<npy::npzfilewriter> w;
  std::unique_ptr<npy::npzfilereader> r;
  std::unique_ptr<npy::tensor<double>> tp;
  Held(const char *name) {
    if (!staged(HELD)) return;
    tp.reset(new npy::tensor<double>(std::vector<size_t>{3, 4}));
    npy::tensor<double> &t = *tp;
    for (int i = 0; i < 12; ++i) t.data()[i] = i * 0.5;
    w.reset(new npy::npzfilewriter(std::string(life.dir) + "/" + name + ".npz", METHODS[life.seed & 1]));
    put(1);
  }
  void put(uint8_t v) {
    if (!staged(HELD)) return;
    npy::tensor<double> &t = *tp;
    w->write("t" + std::to_string(v), t);
    t.data()[v] += v;
  }
};
static void held_expected(npy::npzstringwriter &w) {
  npy::tensor<double> t({3, 4});
  for (int i = 0; i < 12; ++i) t.data()[i] = i * 0.5;
  for (uint8_t v : {1, 2, 3}) { w.write("t" + std::to_string(v), t); t.data()[v] += v; }
  w.close();
}
struct Stage {
  int in, out;
  Held h;
  Stage(int i, int o, const char *name) : in(i), out(o), h(name) { stage(in); }
  ~Stage() { stage(out); h.put(3); }
};
__attribute__((constructor(101))) static void ctor() { stage(CTOR); }
__attribute__((destructor(101))) static void dtor() { stage(DTOR); }
__attribute__((init_priority(101))) static Stage first(FIRST, FIRSTD, "held-first");
static Stage usual(STATIC, STATICD, "held");
struct Leaving {
  int s;
  bool armed = false;
  explicit Leaving(int x) : s(x) {}
  ~Leaving() { if (armed) stage(s); }
};
static thread_local Leaving tls_main(LOCALTLS);
static thread_local Leaving tls_thread(THREADTLS);

static void child() {
  static Leaving local(LOCALSTATIC);
  local.armed = true;
  tls_main.armed = true;
  if (staged(ATEXIT)) atexit([] { stage(ATEXIT); });
  if (staged(QUICK)) at_quick_exit([] { stage(QUICK); });
  stage(INMAIN);
  first.h.put(2);
  usual.h.put(2);
  if (staged(THREADS)) {
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    for (int i = 0; i < 4; ++i) ts.emplace_back([&, i] { ++ready; while (ready < 4) {} stage(THREADS, i); });
    for (auto &t : ts) t.join();
  }
  if (staged(THREADTLS)) std::thread([] { tls_thread.armed = true; }).join();
  if (life.end == E_EXIT) exit(0);
  if (life.end == E_QUICK) quick_exit(0);
  if (life.end == E_THREAD) { std::thread([] { exit(0); }).join(); }
}

void begin_run(Ctx &) { if (on()) { child(); exit(0); } }
void end_run(Ctx &) {}

static int troubled = 0; // processes which had to be stopped: each costs seconds
void run_case(Ctx &c) {
  Rng &r = c.rng;
  if (troubled > 6) return;
  uint64_t seed = r.next(), mask = 0;
  int end = static_cast<int>(r.below(NENDS));
  if (c.mode == "threads") mask = 1u << THREADS;
  else {
    int p = r.chance(40) ? 15 : 60; // few stages: the first use may be late
    for (int s = 0; s < NSTAGES; ++s) if (r.chance(static_cast<unsigned>(p))) mask |= 1ull << s;
    if (!mask) mask = 1ull << r.below(NSTAGES);
    if (r.chance(50)) mask |= 1ull << HELD;
  }
  std::string dir = c.path(fmt("life%llu", static_cast<unsigned long long>(c.idx)));
  std::filesystem::create_directories(dir);
  std::string stages;
  for (int s = 0; s < NSTAGES; ++s) if (mask >> s & 1) stages += std::string(stages.empty() ? "" : ", ") + STAGES[s];
  const std::string D = "stages: " + stages + "; ended by " + ENDS[end];
  c.note(D);
  const std::string want = work(seed, dir, "want");
  if (want.find("wrong") != std::string::npos || want.find("exception") != std::string::npos) c.check(false, "ordinary-use", want);
  std::string env = fmt("VT_LIFE=%llu %llu %d ", static_cast<unsigned long long>(seed), static_cast<unsigned long long>(mask), end) + dir;
  std::vector<char *> ev{&env[0]};
  for (char **e = environ; *e; ++e) ev.push_back(*e);
  ev.push_back(nullptr);
  std::string a0 = "/proc/self/exe", out = dir + "/child", a1 = "--out";
  char *av[] = {&a0[0], &a1[0], &out[0], nullptr};
  pid_t pid;
  if (posix_spawn(&pid, "/proc/self/exe", nullptr, nullptr, av, ev.data()) != 0) { fprintf(stderr, "cannot start the child\n"); exit(3); }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!WIFEXITED(st)) ++troubled;
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "process-ended-badly", [&] { return D + fmt(": status %x", st); });
  for (int s = 0; s < NSTAGES; ++s) {
    if (!(mask >> s & 1)) continue;
    bool quick = end == E_QUICK;
    bool expect = s == QUICK ? quick : s == ATEXIT || s == LOCALSTATIC || s == STATICD || s == FIRSTD || s == DTOR ? !quick : s == LOCALTLS ? !quick && end != E_THREAD : true;
    for (int sub = 0; sub < (s == THREADS ? 4 : 1); ++sub) {
      std::string got;
      { std::ifstream i(dir + fmt("/stage%d-%d", s, sub), std::ios::binary); if (i) got.assign(std::istreambuf_iterator<char>(i), {}); else if (!expect) continue; else got = "(the stage left no result)"; }
      c.check(got == want, std::string("differs in ") + STAGES[s], [&] { return D + ": " + STAGES[s] + " gave:\n" + got.substr(0, 1500) + "\nelsewhere:\n" + want.substr(0, 1500); });
      c.seen(std::string("work in ") + STAGES[s]);
    }
  }
  c.seen(std::string("processes ended by ") + ENDS[end]);
  if (end != E_QUICK && (mask >> HELD & 1)) { // static writers finish their archives
    npy::npzstringwriter w(METHODS[seed & 1]);
    held_expected(w);
    for (const char *n : {"/held.npz", "/held-first.npz"}) c.check(slurp(dir + n) == w.str(), "static-writer", [&] { return D + ": " + n; });
    c.seen("archives finished by static writers", 2);
  }
  c.cover("sets of stages", mask);
  c.nontrivial(mix(mask, seed));
  c.sample(D);
  std::filesystem::remove_all(dir);
}
