// C22: every allocation inside an operation fails in turn.
#define VT_WRAP_MALLOC
#include "alloc.h"
#include "npz.h"
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

// outcome of one run of an operation
enum Out { DONE, THREW, FAILED_STREAM, WRONG };
struct Res { Out out = DONE; char why[300] = ""; void wrong(const std::string &s) { out = WRONG; snprintf(why, sizeof why, "%s", s.c_str()); } };

// failing from request k on, within its lifetime
struct Armed {
  Armed(unsigned long long k, bool rest) { g_alloc.count = 0; g_alloc.failed = 0; g_alloc.fail_at = k; g_alloc.fail_rest = rest; g_alloc.armed = true; }
  ~Armed() { g_alloc.armed = false; }
};

struct Plan { unsigned long long k; bool rest; };
// runs f with failures; the exception is caught with failures still injected
template <class F> static bool attempt(const Plan &p, F f) {
  Armed a(p.k, p.rest);
  try { f(); } catch (const std::exception &) { return false; }
  return true;
}

// a sink which never allocates while armed
struct FixedBuf : std::streambuf {
  std::string d;
  explicit FixedBuf(size_t n) { d.reserve(n); }
  int_type overflow(int_type c) override { if (d.size() == d.capacity()) return traits_type::eof(); d += static_cast<char>(c); return c; }
  std::streamsize xsputn(const char *s, std::streamsize n) override { n = std::min<std::streamsize>(n, static_cast<std::streamsize>(d.capacity() - d.size())); d.append(s, static_cast<size_t>(n)); return n; }
};

typedef std::function<void(const Plan &, Res &)> Job;

// enumerates the failures of one operation
static void enumerate(Ctx &c, const std::string &desc, const std::string &name, const Job &job) {
  const Plan never = {~0ull, false};
  Res r0;
  job(never, r0); // warm up
  c.check(r0.out == DONE, "fails-without-fault", [&] { return desc + " " + name + ": " + r0.why; });
  if (r0.out != DONE) return;
  job(never, r0);
  unsigned long long n = g_alloc.count;
  c.seen("operations enumerated");
  unsigned long long step = n > 300 ? n / 150 : 1;
  for (int rest = 0; rest < 2; ++rest)
    for (unsigned long long k = 0; k < n; k += (k < 60 || k + 60 > n) ? 1 : 1 + c.rng.below(2 * step)) {
      c.note(desc + " " + name + fmt(" request %llu of %llu fails%s", k, n, rest ? " and all later ones" : ""));
      Res res;
      long long before = g_alloc.live;
      job(Plan{k, rest != 0}, res);
      long long after = g_alloc.live;
      unsigned long long hit = g_alloc.failed;
      auto D = [&](const std::string &e) { return desc + " " + name + fmt(", request %llu of %llu failing%s: ", k, n, rest ? " with all later ones" : "") + e; };
      c.check(res.out != WRONG, "wrong-result", [&] { return D(res.why); });
      c.check(before == after, "leak", [&] { return D(fmt("%lld blocks stay allocated", after - before)); });
      c.seen(res.out == THREW ? "outcome: exception" : res.out == FAILED_STREAM ? "outcome: failed stream" : hit ? "outcome: right in spite of the failure" : "outcome: not reached");
      c.seen("failures injected", hit);
    }
  c.cover("operations", name);
  c.cover("requests in an operation", n);
  c.nontrivial(fnv(desc + name));
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  int t = static_cast<int>(c.idx % NTYPES);
  npy::endian_t en = ENDIANS[r.below(3)];
  bool big = is_big(en);
  bool large = r.chance(10);
  std::vector<size_t> shape;
  if (large) shape = {r.range(3000, t == T_STR ? 4000 : 70000)};
  else if (r.chance(15)) shape.assign(r.range(20, 200), 1);
  else do shape = gen_shape(r, 60, false); while (shape.size() > 20 || (t == T_STR && count_of(shape) > 12));
  ItemP it = make_item(r, t, shape, r.chance(50)), it2 = gen_item(r, 40);
  std::string npy = it->npy(en), npy2 = it2->npy(en);
  npy::compression_method_t method = METHODS[r.below(2)];
  std::string desc = it->desc() + fmt(" endian %d method %d", static_cast<int>(en), static_cast<int>(method));
  std::string path = c.path("f.npy"), zpath = c.path("f.npz"), out = c.path("o.npy");
  spew(path, npy);
  std::string z;
  {
    npy::npzstringwriter w(method, en);
    it->write(w, "first");
    it2->write(w, "second.npy");
    w.close();
    z = w.str();
  }
  spew(zpath, z);
  Model m;
  m.write("first", it);
  m.write("second", it2);
  std::string longname(r.chance(20) ? 300 : 5, 'n');

  with_type(t, [&](auto g) {
    typedef typename decltype(g)::type T;
    const ItemT<T> &item = static_cast<const ItemT<T> &>(*it);
    auto judge = [&](const npy::tensor<T> &x, Res &res) { std::string w = item.cmp(x); if (!w.empty()) res.wrong(w); };
    // a result is kept so that it can be judged without failures
    auto loading = [&](auto load) {
      return Job([&, load](const Plan &p, Res &res) {
        std::unique_ptr<npy::tensor<T>> got;
        if (!attempt(p, [&] { got.reset(new npy::tensor<T>(load())); })) { res.out = THREW; return; }
        judge(*got, res);
      });
    };
    enumerate(c, desc, "load stream", loading([&] { std::istringstream i(npy); return npy::load<npy::tensor<T>>(i); }));
    enumerate(c, desc, "load path", loading([&] { return npy::load<npy::tensor<T>>(path); }));
    enumerate(c, desc, "load path as template", loading([&] { return npy::load<T, npy::tensor>(path); }));
    enumerate(c, desc, "from_file", loading([&] { return npy::tensor<T>::from_file(path); }));
    enumerate(c, desc, "read from string archive", loading([&] { npy::npzstringreader rd(z); return rd.template read<npy::tensor<T>>("first"); }));
    enumerate(c, desc, "read from file archive", loading([&] { npy::npzfilereader rd(zpath); return rd.template read<T, npy::tensor>("first.npy"); }));
    enumerate(c, desc, "copy", loading([&] { return npy::tensor<T>(item.tensor); }));
    // a reader survives and reads rightly afterwards
    auto reader = [&](auto make, bool peek) {
      return Job([&, make, peek](const Plan &p, Res &res) {
        auto rd = make();
        std::unique_ptr<npy::tensor<T>> got;
        std::unique_ptr<npy::header_info> h;
        bool ok = attempt(p, [&] { if (peek) h.reset(new npy::header_info(rd->peek("first"))); else got.reset(new npy::tensor<T>(rd->template read<npy::tensor<T>>("first"))); });
        if (!ok) res.out = THREW;
        if (got) judge(*got, res);
        if (h) { std::string w = it->same_header(*h, big); if (!w.empty()) res.wrong("peek: " + w); }
        try { std::string w = whole(*rd, m, big); if (!w.empty()) res.wrong("afterwards: " + w); } catch (const std::exception &e) { res.wrong(std::string("afterwards: ") + e.what()); }
      });
    };
    enumerate(c, desc, "string reader read", reader([&] { return std::unique_ptr<npy::npzstringreader>(new npy::npzstringreader(z)); }, false));
    enumerate(c, desc, "file reader read", reader([&] { return std::unique_ptr<npy::npzfilereader>(new npy::npzfilereader(zpath)); }, false));
    enumerate(c, desc, "string reader peek", reader([&] { return std::unique_ptr<npy::npzstringreader>(new npy::npzstringreader(z)); }, true));
    enumerate(c, desc, "file reader peek", reader([&] { return std::unique_ptr<npy::npzfilereader>(new npy::npzfilereader(zpath)); }, true));
    // saves
    enumerate(c, desc, "save stream", [&](const Plan &p, Res &res) {
      FixedBuf b(npy.size() + 100);
      std::ostream o(&b);
      if (!attempt(p, [&] { npy::save(o, item.tensor, en); })) { res.out = THREW; return; }
      if (!o) res.out = FAILED_STREAM;
      else if (b.d != npy) res.wrong(fmt("%zu bytes written of %zu", b.d.size(), npy.size()));
    });
    enumerate(c, desc, "save string stream", [&](const Plan &p, Res &res) {
      std::ostringstream o;
      if (!attempt(p, [&] { npy::save(o, item.tensor, en); })) { res.out = THREW; return; }
      if (!o) res.out = FAILED_STREAM;
      else if (o.str() != npy) res.wrong("bytes differ");
    });
    enumerate(c, desc, "save path", [&](const Plan &p, Res &res) {
      unlink(out.c_str());
      if (!attempt(p, [&] { npy::save(out, item.tensor, en); })) { res.out = THREW; return; }
      if (slurp(out) != npy) res.wrong("bytes differ");
    });
    enumerate(c, desc, "header", [&](const Plan &p, Res &res) {
      FixedBuf b(npy.size() + 100);
      std::ostream o(&b);
      if (!attempt(p, [&] { npy::write_npy_header(o, item.tensor.dtype(en), item.fortran, item.shape); })) { res.out = THREW; return; }
      if (!o) res.out = FAILED_STREAM;
      else if (npy.compare(0, b.d.size(), b.d) != 0 || b.d.size() + item.payload(big).size() != npy.size()) res.wrong("bytes differ");
    });
    // element and bulk access never leave a half-changed tensor
    enumerate(c, desc, "construct", [&](const Plan &p, Res &res) {
      std::unique_ptr<npy::tensor<T>> got;
      if (!attempt(p, [&] { got.reset(new npy::tensor<T>(item.shape, item.fortran)); })) { res.out = THREW; return; }
      if (got->shape() != item.shape || got->size() != item.values.size()) res.wrong("shape");
    });
    enumerate(c, desc, "assign", [&](const Plan &p, Res &res) {
      npy::tensor<T> x({2, 3});
      const npy::tensor<T> &cx = x;
      bool ok = attempt(p, [&] { x = item.tensor; });
      if (!ok) {
        res.out = THREW;
        // the target is as before or as after, never a mixture
        if (cx.shape() == std::vector<size_t>{2, 3}) { if (cx.size() != 6) res.wrong("shape without its elements"); else for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k) if (&cx(i, k) < cx.data() || &cx(i, k) >= cx.data() + 6) res.wrong("index out of the tensor"); }
        else if (!item.cmp(x).empty()) res.wrong(item.cmp(x));
      } else judge(x, res);
    });
  });
  // peeks and headers
  auto peeking = [&](auto peek) {
    return Job([&, peek](const Plan &p, Res &res) {
      std::unique_ptr<npy::header_info> h;
      if (!attempt(p, [&] { h.reset(new npy::header_info(peek())); })) { res.out = THREW; return; }
      std::string w = it->same_header(*h, big);
      if (!w.empty()) res.wrong(w);
    });
  };
  enumerate(c, desc, "peek stream", peeking([&] { std::istringstream i(npy); return npy::peek(i); }));
  enumerate(c, desc, "peek path", peeking([&] { return npy::peek(path); }));
  enumerate(c, desc, "peek string archive", peeking([&] { npy::npzstringreader rd(z); return rd.peek("first"); }));
  enumerate(c, desc, "peek file archive", peeking([&] { npy::npzfilereader rd(zpath); return rd.peek("first"); }));
  Parsed pn = parse_npy(npy);
  std::string dict = npy.substr(pn.version == 1 ? 10 : 12, pn.data - (pn.version == 1 ? 10 : 12));
  enumerate(c, desc, "header dictionary", peeking([&] { return npy::header_info(dict); }));
  // opening and listing
  auto opening = [&](auto make) {
    return Job([&, make](const Plan &p, Res &res) {
      decltype(make()) rd;
      std::string absent = "absent", first = "first";
      int has = -1, no = -1;
      bool ok = attempt(p, [&] { rd = make(); has = rd->contains(first); no = rd->contains(absent); });
      if (!ok) res.out = THREW;
      if (has == 0 || no == 1) res.wrong("contains");
      if (!rd) return;
      try { std::string w = whole(*rd, m, big); if (!w.empty()) res.wrong("afterwards: " + w); } catch (const std::exception &e) { res.wrong(std::string("afterwards: ") + e.what()); }
    });
  };
  enumerate(c, desc, "open string archive", opening([&] { return std::unique_ptr<npy::npzstringreader>(new npy::npzstringreader(z)); }));
  enumerate(c, desc, "open moved string archive", opening([&] { std::string copy = z; return std::unique_ptr<npy::npzstringreader>(new npy::npzstringreader(std::move(copy))); }));
  enumerate(c, desc, "open file archive", opening([&] { return std::unique_ptr<npy::npzfilereader>(new npy::npzfilereader(zpath)); }));
  // archive writes: each of the calls fails in turn, the others do not
  for (int victim = 0; victim < 5; ++victim)
    for (int kind = 0; kind < 2; ++kind) {
      if (!large || r.chance(40))
        enumerate(c, desc, fmt("%s archive, call %d", kind ? "file" : "string", victim), [&, victim, kind](const Plan &p, Res &res) {
          Model got;
          bool closed = false, threw = false, opened = false;
          std::string bytes;
          {
            std::unique_ptr<AnyWriter> w;
            const Plan never = {~0ull, false};
            unsigned long long hit = 0, count = 0;
            auto call = [&](int i, const std::function<void()> &f) {
              bool ok = attempt(i == victim ? p : never, f);
              if (i == victim) { hit = g_alloc.failed; count = g_alloc.count; }
              if (!ok) threw = true;
              return ok;
            };
            unlink(out.c_str());
            opened = call(0, [&] { w.reset(new AnyWriter(kind, out, method, en)); });
            if (opened) {
              if (call(1, [&] { w->write(longname, *it); })) got.write(longname, it);
              if (call(2, [&] { w->write("second", *it2); })) got.write("second", it2);
              if (victim == 4) { // the destructor closes
                Armed a(p.k, p.rest);
                w.reset();
                hit = g_alloc.failed;
                count = g_alloc.count;
              } else {
                closed = call(3, [&] { w->close(); });
                if (closed && kind == 0) bytes = w->bytes();
              }
            }
            w.reset();
            g_alloc.failed = hit;
            g_alloc.count = count;
          }
          if (threw) res.out = THREW;
          if (kind == 1) bytes = slurp(out);
          if (!opened) return;
          bool must = closed || (victim == 4 && g_alloc.failed == 0 && kind == 1);
          if (!must && bytes.empty()) return;
          try {
            AnyReader rd(0, "", bytes);
            std::string w = rd.whole(got, big);
            if (!w.empty()) res.wrong(w);
          } catch (const std::exception &e) {
            if (must) res.wrong(std::string("the archive is unreadable: ") + e.what());
          }
        });
    }
  c.sample(desc);
}
