// C15: value semantics, over random histories on a pool of tensors.
#include "gen.h"
#include <optional>
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

template <class T> struct Val { std::vector<size_t> shape; bool fortran; std::vector<T> v; };

template <class T> static void history(Ctx &c) {
  Rng &r = c.rng;
  typedef npy::tensor<T> Ten;
  const size_t N = 5;
  const bool large = c.mode == "large";
  std::vector<std::optional<Ten>> pool(N);
  std::vector<std::optional<Val<T>>> model(N); // empty: no object, or moved from
  std::string hist = tinfo(type_index<T>()).code;
  auto fresh = [&](size_t i) {
    Val<T> m;
    m.shape = r.chance(30) ? gen_shape(r, 40, false) : [&] { std::vector<size_t> s; for (size_t k = r.below(4); k--;) s.push_back(r.range(1, 4)); return s; }();
    if (large && r.chance(60)) m.shape = big_shape(r, r.range(1000, 400000) / (sizeof(T) > 16 ? 20 : 1));
    m.fortran = r.chance(50);
    m.v = gen_values<T>(r, count_of(m.shape));
    pool[i].reset();
    pool[i].emplace(make_tensor(m.shape, m.fortran, m.v));
    model[i] = m;
  };
  auto verify = [&] {
    for (size_t i = 0; i < N; ++i) {
      if (!model[i]) continue;
      std::string why;
      const Val<T> &m = *model[i];
      c.check(same_tensor(*pool[i], m.shape, m.fortran, m.v, &why), "value", [&] { return hist + fmt(": tensor %zu: ", i) + why; });
      // its index arithmetic belongs to its shape
      if (!m.v.empty()) {
        std::vector<size_t> idx;
        size_t pos = 0;
        for (size_t d : m.shape) idx.push_back(r.below(d));
        if (m.fortran) for (size_t k = idx.size(); k--;) pos = pos * m.shape[k] + idx[k];
        else for (size_t k = 0; k < idx.size(); ++k) pos = pos * m.shape[k] + idx[k];
        bool ok = false;
        const Ten &ct = *pool[i];
        try { ok = &ct(idx) == ct.data() + pos; } catch (const std::exception &) {}
        c.check(ok, "indexing", [&] { return hist + fmt(": tensor %zu indexes wrongly", i); });
      }
    }
  };
  for (size_t i = 0; i < 3; ++i) fresh(i);
  size_t steps = large ? r.range(5, 15) : r.range(5, 60);
  for (size_t s = 0; s < steps; ++s) {
    size_t a = r.below(N), b = r.below(N);
    int op = static_cast<int>(r.below(17));
    if (hist.size() < 1500) hist += fmt(" %d(%zu,%zu)", op, a, b);
    c.note(hist);
    c.seen("operations");
    switch (op) {
    case 0: fresh(a); break;
    case 1: pool[a].reset(); model[a].reset(); break;
    case 2: // copy construction
      if (a == b || !model[b]) break;
      pool[a].reset();
      pool[a].emplace(static_cast<const Ten &>(*pool[b]));
      model[a] = model[b];
      c.seen("copies");
      break;
    case 3: case 4: case 5: // copy assignment, to itself as well, and to moved-from objects
      if (!pool[a] || !model[b]) break;
      *pool[a] = static_cast<const Ten &>(*pool[b]);
      model[a] = std::optional<Val<T>>(model[b]);
      c.seen(a == b ? "self-assignments" : "copy assignments");
      break;
    case 6: // move construction
      if (a == b || !model[b]) break;
      pool[a].reset();
      pool[a].emplace(std::move(*pool[b]));
      model[a] = model[b];
      model[b].reset();
      c.seen("moves");
      break;
    case 7: case 8: // move assignment
      if (a == b || !pool[a] || !model[b]) break;
      *pool[a] = std::move(*pool[b]);
      model[a] = model[b];
      model[b].reset();
      c.seen("move assignments");
      break;
    case 9: case 10: { // one element
      if (!model[a] || model[a]->v.empty()) break;
      Val<T> &m = *model[a];
      std::vector<T> nv = gen_values<T>(r, 1);
      std::vector<int32_t> idx;
      size_t pos = 0;
      for (size_t d : m.shape) idx.push_back(static_cast<int32_t>(r.below(d)));
      if (m.fortran) for (size_t k = idx.size(); k--;) pos = pos * m.shape[k] + static_cast<size_t>(idx[k]);
      else for (size_t k = 0; k < idx.size(); ++k) pos = pos * m.shape[k] + static_cast<size_t>(idx[k]);
      pool[a]->set(idx, nv[0]);
      m.v[pos] = nv[0];
      c.seen("element updates");
      break;
    }
    case 11: { // through data() and the iterators
      if (!model[a] || model[a]->v.empty()) break;
      size_t k = r.below(model[a]->v.size());
      std::vector<T> nv = gen_values<T>(r, 1);
      if (r.chance(50)) pool[a]->data()[k] = nv[0]; else *(pool[a]->begin() + static_cast<long>(k)) = nv[0];
      model[a]->v[k] = nv[0];
      break;
    }
    case 12: case 13: { // bulk, right size
      if (!model[a]) break;
      std::vector<T> nv = gen_values<T>(r, model[a]->v.size());
      std::vector<T> copy = nv;
      switch (r.below(3)) {
      case 0: pool[a]->copy_from(nv); c.check(same_values(nv, copy), "source-changed", hist); break;
      case 1: pool[a]->copy_from(nv.data(), nv.size()); c.check(same_values(nv, copy), "source-changed", hist); break;
      default: pool[a]->move_from(std::move(nv)); break;
      }
      model[a]->v = copy;
      // the source is independent of the tensor afterwards
      for (auto &x : nv) x = T();
      c.seen("bulk assignments");
      break;
    }
    case 14: case 15: { // bulk, wrong size
      if (!model[a]) break;
      size_t n = model[a]->v.size(), k;
      do k = r.chance(50) ? n + 1 + r.below(3) : r.below(n + 2); while (k == n);
      if (r.chance(20)) k = n ? n * 2 : 1;
      if (k == n) break;
      std::vector<T> nv = gen_values<T>(r, k);
      bool threw = false;
      int how = static_cast<int>(r.below(3));
      try {
        if (how == 0) pool[a]->copy_from(nv);
        else if (how == 1) pool[a]->copy_from(nv.data(), nv.size());
        else pool[a]->move_from(std::move(nv));
      } catch (const std::exception &) { threw = true; }
      c.check(threw, "wrong-size-accepted", [&] { return hist + fmt(": %zu values into %zu elements (way %d)", k, n, how); });
      c.seen("wrong sizes refused");
      break;
    }
    default: { // bulk from another tensor of the pool
      if (!model[a] || !model[b] || model[a]->v.size() != model[b]->v.size()) break;
      if (r.chance(50)) pool[a]->copy_from(pool[b]->values()); else pool[a]->copy_from(pool[b]->data(), pool[b]->size());
      model[a]->v = std::vector<T>(model[b]->v);
      break;
    }
    }
    verify();
  }
  // by value through a function, and in containers
  for (size_t i = 0; i < N; ++i) {
    if (!model[i]) continue;
    auto pass = [](Ten t) { return t; };
    Ten t = pass(*pool[i]);
    std::vector<Ten> v;
    for (int k = 0; k < 3; ++k) v.push_back(t);
    v.insert(v.begin(), *pool[i]);
    v.erase(v.begin() + 1);
    for (auto &x : v) c.check(same_tensor(x, model[i]->shape, model[i]->fortran, model[i]->v), "container", hist);
    if (t.size()) { std::vector<T> nv = gen_values<T>(r, t.size()); t.copy_from(nv); for (auto &x : v) c.check(same_tensor(x, model[i]->shape, model[i]->fortran, model[i]->v), "shared-state", hist); }
    Ten u = std::move(v[0]);
    std::swap(u, t);
    c.check(same_tensor(t, model[i]->shape, model[i]->fortran, model[i]->v), "swap", hist);
  }
  verify();
  c.nontrivial(fnv(hist));
  c.sample(hist.substr(0, 300));
}

void run_case(Ctx &c) {
  with_type(static_cast<int>(c.idx % NTYPES), [&](auto g) { history<typename decltype(g)::type>(c); });
}
