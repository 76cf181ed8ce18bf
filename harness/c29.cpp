// C29: work grows in proportion to the data. Runs under callgrind, which counts
// the instructions of each operation at one size and at FACTOR times that size.
#include <valgrind/callgrind.h>
#include "npz.h"
using namespace vt;

void begin_run(Ctx &) {
  if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "not under callgrind\n"); exit(3); }
}
void end_run(Ctx &) {}

static int g_part = 0;
// instructions executed by f
static double cost(const std::function<void()> &f) {
  CALLGRIND_ZERO_STATS;
  f();
  CALLGRIND_DUMP_STATS;
  std::string p = fmt("cg.%d.%d", static_cast<int>(getpid()), ++g_part);
  std::ifstream i(p);
  std::string line;
  double v = -1;
  while (std::getline(i, line)) if (line.compare(0, 8, "summary:") == 0 || line.compare(0, 7, "totals:") == 0) v = atof(line.c_str() + line.find(':') + 1);
  unlink(p.c_str());
  if (v < 0) { fprintf(stderr, "no counts in %s\n", p.c_str()); exit(3); }
  return v;
}

enum { FACTOR = 16 };
// prepare(n) makes what is needed and returns the operation to be measured
typedef std::function<std::function<void()>(size_t)> Prepare;
struct Op { std::string name; size_t n; bool flat; Prepare prepare; };

static std::vector<Op> ops(Ctx &c) {
  std::vector<Op> o;
  auto add = [&](const std::string &name, size_t n, Prepare p) { o.push_back({name, n, false, std::move(p)}); };
  // what must not depend on how much else there is
  auto flat = [&](const std::string &name, size_t n, Prepare p) { o.push_back({name, n, true, std::move(p)}); };
  std::string file = c.path("f");
  uint64_t seed = c.seed;
  // ---- tensors by element count ----
  for (int t = 0; t < NTYPES; ++t)
    for (bool big : {false, true}) {
      npy::endian_t en = big ? npy::endian_t::BIG : npy::endian_t::LITTLE;
      std::string ty = std::string(tinfo(t).code) + (big ? " big" : " little");
      auto mk = [=](size_t n) -> ItemP {
        Rng r(seed + n);
        if (t != T_STR) return make_item(r, t, {n}, t & 1);
        std::vector<std::wstring> v(n);
        for (auto &w : v) { for (size_t k = r.below(3); k--;) w += static_cast<wchar_t>(r.range(40, 0xd000)); }
        v[n / 2] = L"width";
        return std::make_shared<ItemT<std::wstring>>(std::vector<size_t>{n}, false, v);
      };
      // away from the sizes at which buffers and copies change their ways
      size_t n = t == T_STR ? 400 : big && tinfo(t).size > 1 ? 3000 : tinfo(t).size == 1 ? 200000 : 40000;
      add("save to a stream, " + ty, n, [=](size_t k) { auto it = mk(k); auto out = std::make_shared<std::ostringstream>(); return [=] { it->save(*out, en); }; });
      add("load from a stream, " + ty, n, [=](size_t k) { auto it = mk(k); auto in = std::make_shared<std::istringstream>(it->npy(en)); return [=] { if (!it->load(*in).empty()) exit(3); }; });
      if (t % 3 == 0) {
        add("save to a path, " + ty, n, [=](size_t k) { auto it = mk(k); return [=] { it->save(file, en); }; });
        add("load from a path, " + ty, n, [=](size_t k) { auto it = mk(k); it->save(file, en); return [=] { if (!it->load(file).empty()) exit(3); }; });
      }
      flat("peek at a stream, " + ty, n, [=](size_t k) { auto in = std::make_shared<std::istringstream>(mk(k)->npy(en)); return [=] { npy::peek(*in); }; });
    }
  // ---- strings by length, with one long among short ones ----
  for (int few : {1, 9}) {
    auto wide = [=](size_t k) { std::vector<std::wstring> v(static_cast<size_t>(few), std::wstring(k, L'\x20ac')); return std::make_shared<ItemT<std::wstring>>(std::vector<size_t>{v.size()}, false, v); };
    add(fmt("save %d strings by length", few), 300, [=](size_t k) { auto it = wide(k); auto out = std::make_shared<std::ostringstream>(); return [=] { it->save(*out, ENDIANS[1]); }; });
    add(fmt("load %d strings by length", few), 300, [=](size_t k) { auto it = wide(k); auto in = std::make_shared<std::istringstream>(it->npy(ENDIANS[1])); return [=] { if (!it->load(*in).empty()) exit(3); }; });
    flat(fmt("peek at %d strings by length", few), 300, [=](size_t k) { auto in = std::make_shared<std::istringstream>(wide(k)->npy(ENDIANS[2])); return [=] { npy::peek(*in); }; });
  }
  // ---- headers by number of dimensions ----
  {
    auto mk = [=](size_t n) { return std::make_shared<ItemT<int16_t>>(std::vector<size_t>(n, 1), n & 1, std::vector<int16_t>{7}); };
    add("save by dimensions", 300, [=](size_t k) { auto it = mk(k); auto out = std::make_shared<std::ostringstream>(); return [=] { it->save(*out, ENDIANS[0]); }; });
    add("load by dimensions", 300, [=](size_t k) { auto it = mk(k); auto in = std::make_shared<std::istringstream>(it->npy(ENDIANS[0])); return [=] { if (!it->load(*in).empty()) exit(3); }; });
    add("peek by dimensions", 300, [=](size_t k) { auto in = std::make_shared<std::istringstream>(mk(k)->npy(ENDIANS[0])); return [=] { npy::peek(*in); }; });
    add("get by dimensions", 300, [=](size_t k) { auto it = mk(k); return [=] { if (it->tensor.get(std::vector<int32_t>(k, -1)) != 7 || it->tensor(std::vector<size_t>(k, 0)) != 7) exit(3); }; });
  }
  // ---- the tensor class ----
  for (bool f : {false, true}) {
    add(fmt("construct and fill, order %d", f), 3000, [=](size_t k) { return [=] { npy::tensor<double> t({3, k / 3}, f); for (auto &x : t) x = 1; }; });
    add(fmt("index every element, order %d", f), 1000, [=](size_t k) { auto t = std::make_shared<npy::tensor<int>>(std::vector<size_t>{4, k / 4}, f); return [=] { for (int i = 0; i < 4; ++i) for (int j = 0; j < static_cast<int>(k / 4); ++j) (*t)(i, j) += t->get({-1 - i, -1 - j}); }; });
    flat(fmt("index one element, order %d", f), 1000, [=](size_t k) { auto t = std::make_shared<npy::tensor<int>>(std::vector<size_t>{4, k / 4}, f); return [=] { for (int i = 0; i < 100; ++i) (*t)(i % 4, i) = (*t)({size_t(i % 4), size_t(i)}) + t->get({-1, -1}); }; });
  }
  flat("move, swap and ask", 3000, [=](size_t k) {
    auto a = std::make_shared<npy::tensor<double>>(std::vector<size_t>{3, k / 3}), b = std::make_shared<npy::tensor<double>>(std::vector<size_t>{k});
    return [=] { npy::tensor<double> x(std::move(*a)); *a = std::move(*b); *b = std::move(x); std::swap(*a, *b); if (a->size() + b->size() + a->ndim() + b->shape().size() + a->shape(0) == 1) exit(3); };
  });
  flat("adopt values", 3000, [=](size_t k) { auto t = std::make_shared<npy::tensor<int>>(std::vector<size_t>{k}); auto v = std::make_shared<std::vector<int>>(k, 3); return [=] { t->move_from(std::move(*v)); }; });
  add("copy", 3000, [=](size_t k) { auto t = std::make_shared<npy::tensor<int>>(std::vector<size_t>{k}); return [=] { npy::tensor<int> x(*t), y({1}); y = *t; x.copy_from(t->values()); y.copy_from(t->data(), k); }; });
  // ---- archives by number of members ----
  auto name = [](size_t i) { return fmt("member-%zu", (i * 7919) % 100003); };
  for (int mi = 0; mi < 2; ++mi) {
    auto m = METHODS[mi];
    const char *ms = mi ? "deflated" : "stored";
    size_t n = mi ? 6 : 150;
    auto fill = [=](auto &w, size_t k, bool same = false) { npy::tensor<uint8_t> x({2}); for (size_t i = 0; i < k; ++i) w.write(same ? "a" : name(i), x); };
    auto archive = [=](size_t k) { npy::npzstringwriter w(m); fill(w, k); w.close(); return w.str(); };
    add(fmt("write members to memory, %s", ms), n, [=](size_t k) { return [=] { npy::npzstringwriter w(m); fill(w, k); w.close(); }; });
    add(fmt("write members to a file, %s", ms), n, [=](size_t k) { return [=] { npy::npzfilewriter w(file, m); fill(w, k); w.close(); }; });
    add(fmt("write one name again and again, %s", ms), n, [=](size_t k) { return [=] { npy::npzstringwriter w(m); fill(w, k, true); w.close(); }; });
    add(fmt("close an archive in memory, %s", ms), n * 2, [=](size_t k) { auto w = std::make_shared<npy::npzstringwriter>(m); fill(*w, k); return [=] { w->close(); }; });
    add(fmt("close an archive file, %s", ms), n * 2, [=](size_t k) { auto w = std::make_shared<npy::npzfilewriter>(file, m); fill(*w, k); return [=] { w->close(); }; });
    add(fmt("open an archive in memory, %s", ms), n, [=](size_t k) { auto b = std::make_shared<std::string>(archive(k)); return [=] { npy::npzstringreader r(*b); }; });
    add(fmt("open an archive file, %s", ms), n, [=](size_t k) { spew(file, archive(k)); return [=] { npy::npzfilereader r(file); }; });
    add(fmt("read and peek at every member in memory, %s", ms), n, [=](size_t k) { auto r = std::make_shared<npy::npzstringreader>(archive(k)); return [=] { for (size_t i = 0; i < k; ++i) { r->read<npy::tensor<uint8_t>>(name(i)); r->peek(name(i)); } }; });
    add(fmt("read every member of a file, %s", ms), n, [=](size_t k) { spew(file, archive(k)); auto r = std::make_shared<npy::npzfilereader>(file); return [=] { for (size_t i = k; i--;) r->read<npy::tensor<uint8_t>>(name(i)); }; });
    flat(fmt("write one more member, %s", ms), n, [=](size_t k) { auto w = std::make_shared<npy::npzstringwriter>(m); fill(*w, k); return [=] { npy::tensor<uint8_t> x({2}); for (int i = 0; i < 16; ++i) w->write("more" + std::to_string(i), x); }; });
    flat(fmt("read one member in memory, %s", ms), n, [=](size_t k) { auto r = std::make_shared<npy::npzstringreader>(archive(k)); return [=] { for (size_t i : {size_t(0), k / 2, k - 1}) { r->read<npy::tensor<uint8_t>>(name(i)); r->peek(name(i)); r->contains(name(i)); r->contains("no"); } r->keys(); }; });
    flat(fmt("read one member of a file, %s", ms), n, [=](size_t k) { spew(file, archive(k)); auto r = std::make_shared<npy::npzfilereader>(file); return [=] { for (size_t i : {size_t(0), k / 2, k - 1}) { r->read<npy::tensor<uint8_t>>(name(i)); r->peek(name(i)); r->contains(name(i)); r->contains("no"); } r->keys(); }; });
    // ---- members by size and kind of content ----
    static const char *kinds[] = {"zeros", "noise", "text", "period", "few values", "long repeats"};
    for (int kd = 0; kd < 6; ++kd) {
      auto bytes = [=](size_t k) {
        Rng r(seed * 31 + static_cast<uint64_t>(kd));
        std::string b;
        size_t per = r.range(2, 300);
        while (b.size() < k) {
          if (kd == 0) b += '\0';
          else if (kd == 1) b += static_cast<char>(r.next());
          else if (kd == 2) { static const char *w[] = {"the ", "of ", "tensor ", "archive ", "and ", "member\n", "a ", "numbers "}; b += w[r.below(8)]; }
          else if (kd == 3) b += static_cast<char>((b.size() % per) * 37);
          else if (kd == 4) b += static_cast<char>(r.below(3));
          else if (b.size() > 50000) b += b.substr(b.size() - 40000, r.range(10, 300));
          else b += static_cast<char>(r.next());
        }
        b.resize(k);
        return bytes_item(b);
      };
      size_t sz = mi ? 20000 : 6000;
      if (!mi && kd > 1) continue;
      add(fmt("write a member of %s, %s", kinds[kd], ms), sz, [=](size_t k) { auto it = bytes(k); return [=] { npy::npzstringwriter w(m); it->write(w, "a"); w.close(); }; });
      add(fmt("read a member of %s, %s", kinds[kd], ms), sz, [=](size_t k) { npy::npzstringwriter w(m); auto it = bytes(k); it->write(w, "a"); w.close(); auto r = std::make_shared<npy::npzstringreader>(w.str()); return [=] { if (!it->read(*r, "a", 0).empty()) exit(3); }; });
      flat(fmt("read beside a member of %s, %s", kinds[kd], ms), sz, [=](size_t k) { npy::npzstringwriter w(m); bytes(k)->write(w, "a"); npy::tensor<uint8_t> x({2}); w.write("b", x); w.close(); auto r = std::make_shared<npy::npzstringreader>(w.str()); return [=] { r->read<npy::tensor<uint8_t>>("b"); r->peek("b"); }; });
    }
  }
  add("members by length of name", 1000, [=](size_t k) { return [=] { npy::npzstringwriter w; npy::tensor<uint8_t> x({2}); std::string nm(k, 'n'); w.write(nm, x); w.close(); npy::npzstringreader r(w.str()); r.peek(nm); if (!r.contains(nm)) exit(3); }; });
  add("archive comments by length", 1000, [=](size_t k) { auto b = std::make_shared<std::string>(make_zip({stored_member("a.npy", "x")}, std::string(k, 'P'))); return [=] { npy::npzstringreader r(*b); }; });
  add("comments which look like records", 250, [=](size_t k) { std::string cm; for (size_t i = 0; i < k; ++i) cm += "PK\5\6"; cm += "."; auto b = std::make_shared<std::string>(make_zip({stored_member("a.npy", "x")}, cm)); return [=] { npy::npzstringreader r(*b); }; });
  add("extra fields by number", 800, [=](size_t k) { Member mm = stored_member("a.npy", bytes_item("xyz")->npy(ENDIANS[0])); for (size_t i = 0; i < k; ++i) mm.lextra += std::string("\x99\x09\0\0", 4); mm.cextra = mm.lextra; auto b = std::make_shared<std::string>(make_zip({mm})); return [=] { npy::npzstringreader r(*b); r.peek("a"); }; });
  return o;
}

void run_case(Ctx &c) {
  static std::vector<Op> all = ops(c);
  const Op &op = all[c.idx % all.size()];
  size_t lo = op.n + c.rng.below(op.n / 4 + 1), hi = lo * FACTOR;
  c.note(op.name + fmt(" at %zu", lo));
  op.prepare(lo)(); // once for what is set up on first use
  double a = cost(op.prepare(lo)), b;
  (void)a;
  {
    auto f = op.prepare(lo);
    a = cost(f);
  }
  c.note(op.name + fmt(" at %zu", hi));
  {
    auto f = op.prepare(hi);
    b = cost(f);
  }
  double ratio = b / a, limit = op.flat ? 1.5 : 1.5 * FACTOR;
  c.check(ratio <= limit, op.flat ? "not-independent" : "not-proportional",
          [&] { return op.name + fmt(": %.0f instructions at %zu, %.0f at %zu: %.1f times, at most %.1f expected", a, lo, b, hi, ratio, limit); });
  c.cover("operations", op.name);
  c.seen("instructions watched", static_cast<uint64_t>(a + b));
  c.seen(op.flat ? "operations which must not depend on the size" : "operations which may grow in proportion");
  c.nontrivial(fnv(op.name + fmt("%zu", lo)));
  c.sample(op.name + fmt(": %.0f -> %.0f (%.2f times) for %d times the size", a, b, ratio, static_cast<int>(FACTOR)));
  if (getenv("C29_TABLE")) fprintf(stderr, "%-50s %8zu %12.0f %12.0f %8.2f%s\n", op.name.c_str(), lo, a, b, ratio, op.flat ? " flat" : "");
}
