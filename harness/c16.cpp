// C16: threads with private objects, and with objects none of them changes. ThreadSanitizer watches the memory; each
// thread's results are compared with the single-threaded ones.
#include "npz.h"
#include <atomic>
#include <clocale>
#include <dlfcn.h>
#include <thread>
using namespace vt;

// the process's locale belongs to all threads: changing it for a moment is an access to shared state
static std::atomic<uint64_t> setlocales{0};
extern "C" char *setlocale(int c, const char *l) {
  if (l) setlocales.fetch_add(1, std::memory_order_relaxed);
  static char *(*real)(int, const char *) = reinterpret_cast<char *(*)(int, const char *)>(dlsym(RTLD_NEXT, "setlocale"));
  return real(c, l);
}

std::locale std::locale::global(const std::locale &l) {
  setlocales.fetch_add(1, std::memory_order_relaxed);
  static std::locale (*real)(const std::locale &) = reinterpret_cast<std::locale (*)(const std::locale &)>(dlsym(RTLD_NEXT, "_ZNSt6locale6globalERKS_"));
  return real(l);
}

void begin_run(Ctx &) { setlocale(LC_ALL, "C.UTF-8"); }
void end_run(Ctx &) {}

// relaxed only: the monitor must not order what it watches
static std::atomic<uint64_t> inflight{0}, overlapped{0}, total{0};
static std::atomic<uint32_t> opmask[32];
static std::atomic<uint32_t> active[32]; // operations of each kind in progress

static const char *const OPS[] = {"save stream", "load stream", "save path", "load path", "peek", "header_info", "dtype tables", "npz string", "npz file", "refused load", "refused archive", "operator<<", "tensor ops", "shared tensor", "shared file", "shared header", "shared listing"};
enum { NOPS = 17 };

struct Op {
  int k;
  explicit Op(int kind) : k(kind) {
    total.fetch_add(1, std::memory_order_relaxed);
    if (inflight.fetch_add(1, std::memory_order_relaxed) > 0) overlapped.fetch_add(1, std::memory_order_relaxed);
    uint32_t m = 0;
    for (int i = 0; i < NOPS; ++i) if (active[i].load(std::memory_order_relaxed)) m |= 1u << i;
    opmask[k].fetch_or(m, std::memory_order_relaxed);
    active[k].fetch_add(1, std::memory_order_relaxed);
  }
  ~Op() {
    active[k].fetch_sub(1, std::memory_order_relaxed);
    inflight.fetch_sub(1, std::memory_order_relaxed);
  }
};

static void add(uint64_t &h, const std::string &s) { h = fnv(s.data(), s.size(), h); }

// objects which every thread may look at, none may change
struct Shared {
  std::vector<ItemP> items;
  std::vector<npy::header_info> infos;
  std::vector<std::string> payloads;
  Model m;
  std::string npz, npy_path;
  bool big = false;
  std::unique_ptr<const npy::npzstringreader> reader;
  std::unique_ptr<const npy::npzfilereader> freader;
  std::unique_ptr<const npy::npzstringwriter> writer;
  Shared(Rng &r, const std::string &dir) {
    npy::endian_t en = ENDIANS[r.below(3)];
    big = is_big(en);
    std::unique_ptr<npy::npzstringwriter> w(new npy::npzstringwriter(METHODS[r.below(2)], en));
    for (int i = 0; i < 4; ++i) {
      ItemP it;
      do it = i == 0 ? make_item(r, T_STR, {2, r.range(1, 4)}, r.chance(50)) : gen_item(r, 60); while (it->shape.size() > 30);
      items.push_back(it);
      payloads.push_back(it->payload(big));
      infos.push_back(npy::header_info(ref_dict(it->descr(big), it->fortran, it->shape)));
      std::string nm = "s" + std::to_string(i);
      it->write(*w, nm);
      m.write(nm, it);
    }
    w->close();
    npz = dir + "/shared.npz";
    npy_path = dir + "/shared.npy";
    spew(npz, w->str());
    spew(npy_path, items[1]->ref(big));
    reader.reset(new npy::npzstringreader(w->str()));
    freader.reset(new npy::npzfilereader(npz));
    writer = std::move(w);
  }
};
// every const operation of a tensor
template <class T> static void look(uint64_t &h, const npy::tensor<T> &t, Rng &r, npy::endian_t en) {
  auto elem = [&](const T &x) { std::string b; put_elem(b, x, false, 3); add(h, b); };
  std::vector<int32_t> at;
  std::vector<size_t> at2;
  for (size_t d : t.shape()) { at.push_back(d ? static_cast<int32_t>(r.below(d < 1000 ? d : 1000)) - (r.chance(50) ? static_cast<int32_t>(std::min<size_t>(d, 1000)) : 0) : 0); at2.push_back(d ? r.below(d) : 0); }
  try { elem(t.get(at)); elem(t(at2)); h += t.ravel(at) + t.ravel(at2); } catch (const std::exception &) { add(h, "refused"); }
  if (t.ndim() == 1 && t.size()) elem(t(-1));
  if (t.ndim() == 2 && t.size()) elem(t(-1, 0));
  for (auto &x : t) elem(x);
  h += t.size() + t.ndim() + t.shape().size() + t.fortran_order() + t.values().size() + (t.data() == nullptr);
  for (size_t k = 0; k < t.ndim(); ++k) h = h * 31 + t.shape(static_cast<int>(k));
  add(h, t.dtype(en));
  add(h, npy::to_dtype(t.dtype(), en));
  std::ostringstream o;
  npy::save(o, t, en);
  t.save(o, en);
  add(h, o.str());
  npy::tensor<T> copy(t), other({1});
  other = t;
  h += same_values(copy.values(), other.values());
  npy::npzstringwriter w(METHODS[r.below(2)], en);
  w.write("x", t);
  w.close();
  add(h, w.str());
}

// a deterministic workload; everything it observes goes into the result
static uint64_t work(uint64_t seed, const std::string &dir, int steps, const Shared *shp) {
  Rng r(seed);
  uint64_t h = 1;
  for (int s = 0; s < steps; ++s) {
    int k = static_cast<int>(r.chance(25) ? 13 + r.below(4) : r.below(NOPS));
    if (!shp && k > 12) k -= 13;
    npy::endian_t en = ENDIANS[r.below(3)];
    ItemP it = gen_item(r, 60);
    if (it->shape.size() > 30) it = gen_item(r, 5);
    std::string file = it->ref(is_big(en)), p = dir + "/f.npy";
    try {
      switch (k) {
      case 0: { Op o(k); add(h, it->npy(en)); break; }
      case 1: { Op o(k); std::istringstream i(file); add(h, it->load(i)); break; }
      case 2: { Op o(k); it->save(p, en); add(h, slurp(p)); break; }
      case 3: { spew(p, file); Op o(k); add(h, it->load(p)); break; }
      case 4: { spew(p, file); Op o(k); add(h, it->same_header(npy::peek(p), is_big(en))); std::istringstream i(file); add(h, it->same_header(npy::peek(i), is_big(en))); break; }
      case 5: { Op o(k); npy::header_info hi(ref_dict(it->descr(is_big(en)), it->fortran, it->shape)); add(h, it->same_header(hi, is_big(en))); break; }
      case 6: {
        Op o(k);
        for (int q = 0; q < 13; ++q) {
          const std::string &d = npy::to_dtype(tinfo(q).dtype, en);
          add(h, d);
          h += static_cast<uint64_t>(npy::from_dtype(d).first);
        }
        try { npy::from_dtype("<q9"); } catch (const std::exception &e) { add(h, "refused"); }
        break;
      }
      case 7: case 8: {
        Op o(k);
        npy::compression_method_t m = METHODS[r.below(2)];
        Model mod;
        std::string pz = dir + "/a.npz", bytes;
        {
          AnyWriter w(k == 7 ? 0 : 1, pz, m, en);
          for (uint64_t q = r.below(4); q--;) { ItemP x = gen_item(r, 30); std::string nm = "m" + std::to_string(q); w.write(nm, *x); mod.write(nm, x); }
          w.close();
          bytes = w.bytes();
        }
        add(h, bytes);
        AnyReader rd(k == 7 ? 0 : 2, pz, bytes);
        add(h, rd.whole(mod, is_big(en)));
        break;
      }
      case 9: { Op o(k); std::string bad = file.substr(0, r.below(file.size())); std::istringstream i(bad); add(h, it->load(i)); add(h, "?"); break; }
      case 10: {
        Op o(k);
        npy::npzstringwriter w(METHODS[r.below(2)], en);
        it->write(w, "m");
        w.close();
        std::string b = w.str();
        b[r.below(b.size())] ^= 0x10;
        try { npy::npzstringreader rd(b); add(h, it->read(rd, "m")); } catch (const std::exception &) { add(h, "refused"); }
        break;
      }
      case 11: { Op o(k); std::ostringstream os; os << en << tinfo(it->type).dtype; add(h, os.str()); break; }
      case 13: {
        const Shared &sh = *shp;
        const Item &x = *sh.items[r.below(sh.items.size())];
        Op o(k);
        with_type(x.type, [&](auto g) { look(h, static_cast<const ItemT<typename decltype(g)::type> &>(x).tensor, r, en); });
        break;
      }
      case 14: {
        const Shared &sh = *shp;
        Op o(k);
        add(h, sh.items[1]->load(sh.npy_path));
        add(h, sh.items[1]->same_header(npy::peek(sh.npy_path), sh.big));
        npy::npzfilereader rd(sh.npz);
        add(h, whole(rd, sh.m, sh.big));
        break;
      }
      case 15: {
        const Shared &sh = *shp;
        size_t q = r.below(sh.items.size());
        const npy::header_info &info = sh.infos[q];
        Op o(k);
        std::istringstream in(sh.payloads[q]);
        with_type(sh.items[q]->type, [&](auto g) { typedef typename decltype(g)::type T; add(h, static_cast<const ItemT<T> &>(*sh.items[q]).cmp(npy::tensor<T>::load(in, info))); });
        break;
      }
      case 16: {
        const Shared &sh = *shp;
        Op o(k);
        add(h, sh.m.keys(sh.reader->keys()));
        add(h, sh.m.keys(sh.freader->keys()));
        h += sh.freader->is_open();
        add(h, sh.writer->str());
        break;
      }
      default: {
        Op o(k);
        npy::tensor<int32_t> t(std::vector<size_t>{3, 4}, r.chance(50));
        for (int a = 0; a < 3; ++a) for (int b = 0; b < 4; ++b) t.set({a, b}, static_cast<int32_t>(r.next()));
        npy::tensor<int32_t> u = t;
        u(1, -1) = 5;
        for (int32_t v : u) h = h * 31 + static_cast<uint32_t>(v);
        try { u(3, 0) = 1; } catch (const std::exception &) { add(h, "refused"); }
        npy::boolean bo(1.5);
        add(h, bo ? "t" : "f");
      }
      }
    } catch (const std::exception &e) { add(h, "threw"); }
  }
  return h;
}

void run_case(Ctx &c) {
  int nt = static_cast<int>(c.rng.range(2, 6)), steps = static_cast<int>(c.arg("steps", 40));
  std::vector<uint64_t> seeds, got(static_cast<size_t>(nt));
  std::vector<std::thread> ts;
  bool same = c.rng.chance(40); // the same operations at the same time collide best
  uint64_t common = c.rng.next();
  for (int i = 0; i < nt; ++i) {
    seeds.push_back(same ? common : c.rng.next());
    std::filesystem::create_directories(c.path("t" + std::to_string(i)));
  }
  Rng sr(c.rng.next());
  // without them the first uses in this process are concurrent
  std::unique_ptr<Shared> shared;
  if (c.arg("shared", 0)) shared.reset(new Shared(sr, c.work));
  const Shared *sh = shared.get();
  const uint64_t changes = setlocales.load();
  const std::string clocale = setlocale(LC_ALL, nullptr);
  std::atomic<int> ready{0};
  for (int i = 0; i < nt; ++i) ts.emplace_back([&, i] {
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
    got[static_cast<size_t>(i)] = work(seeds[static_cast<size_t>(i)], c.path("t" + std::to_string(i)), steps, sh);
  });
  for (auto &t : ts) t.join();
  c.check(setlocales.load() == changes && clocale == setlocale(LC_ALL, nullptr), "process-locale", [&] { return clocale + " became " + setlocale(LC_ALL, nullptr) + fmt(", changed %llu times", static_cast<unsigned long long>(setlocales.load() - changes)); });
  for (int i = 0; i < nt; ++i) {
    uint64_t want = work(seeds[static_cast<size_t>(i)], c.path("t0"), steps, sh);
    c.check(want == got[static_cast<size_t>(i)], "differs-from-single-threaded", [&] { return fmt("thread %d of %d, %d operations", i, nt, steps); });
    c.nontrivial(want);
  }
  c.seen("threads", static_cast<uint64_t>(nt));
  c.cover("threads per case", static_cast<uint64_t>(nt));
  if (c.idx + c.nshards >= c.end) {
    c.seen("operations", total.load());
    c.seen("operations begun while another thread was inside one", overlapped.load());
    for (int a = 0; a < NOPS; ++a) for (int b = 0; b < NOPS; ++b) if (opmask[a].load() >> b & 1) c.cover("pairs of operations seen overlapping", std::string(OPS[a]) + " + " + OPS[b]);
  }
  c.sample(fmt("%d threads x %d operations%s", nt, steps, same ? ", identical" : ""));
}
