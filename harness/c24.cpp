// C24: the life of a writer.
#include "npz.h"
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

static bool refused(const std::function<void()> &f) {
  try { f(); } catch (const std::exception &) { return true; }
  return false;
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  int kind = static_cast<int>(r.below(4));
  npy::compression_method_t method = METHODS[r.below(2)];
  npy::endian_t en = ENDIANS[r.below(3)];
  std::string path = c.path("w.npz"), ref_path = c.path("ref.npz");
  std::vector<std::pair<std::string, ItemP>> ws;
  bool large = c.mode == "large";
  size_t n = large ? r.range(1, 3) : r.chance(15) ? 0 : r.chance(5) ? r.range(20, 100) : r.range(1, 6);
  Model m;
  for (size_t i = 0; i < n; ++i) {
    ItemP it = large ? big_item(r, 30000, 8000000) : n > 15 ? small_item(r, static_cast<uint8_t>(i)) : gen_item(r, r.chance(10) ? 40000 : 200);
    ws.emplace_back(r.chance(25) ? "same" : gen_name(r), it);
    m.write(ws.back().first, it);
  }
  std::string desc = fmt("writer %d method %d endian %d, %zu writes", kind, static_cast<int>(method), static_cast<int>(en), n);
  c.note(desc);
  // the reference: written and closed once, in memory
  std::string want;
  {
    npy::npzstringwriter w(method, en);
    for (auto &x : ws) x.second->write(w, x.first);
    w.close();
    want = w.str();
  }
  {
    AnyReader rd(0, "", want);
    std::string why = rd.whole(m, is_big(en));
    c.check(why.empty(), "control", [&] { return desc + ": " + why; });
  }
  // what was there before
  int before = static_cast<int>(r.below(6));
  unlink(path.c_str());
  if (before == 1) spew(path, "");
  if (before == 2) spew(path, want + want);
  if (before == 3) spew(path, std::string(r.range(1, 100000), 'x'));
  if (before == 4) { npy::npzfilewriter old(path, METHODS[1 - static_cast<int>(method != METHODS[0])], en); gen_item(r, 3000)->write(old, "old"); gen_item(r, 3000)->write(old, "older"); }
  if (before == 5) { // a writer of an earlier archive was abandoned
    npy::npzfilewriter old(path);
    if (n) ws[0].second->write(old, "old");
  }
  c.cover("file before", static_cast<uint64_t>(before));
  int end = static_cast<int>(r.below(4)); // close, close several times, destroy, destroy while an exception unwinds
  std::string hist = fmt("before %d:", before);
  std::string got, keep;
  struct Unwind {};
  try {
    AnyWriter w(kind, path, method, en);
    if (kind) c.check(w.f->is_open(), "not-open", desc);
    if (kind && r.chance(30)) { // opened: the old content is already gone
      std::string now = slurp(path);
      c.check(want.compare(0, now.size(), now) == 0, "old-content", [&] { return desc + fmt(": %zu bytes of old content after opening", now.size()); });
    }
    for (auto &x : ws) w.write(x.first, *x.second);
    if (end >= 2) {
      hist += end == 2 ? " destroyed" : " destroyed by an exception";
      if (kind == 0) { w.close(); got = w.bytes(); } // its content ends with it
      if (end == 3) throw Unwind();
    } else {
      w.close();
      hist += " close";
      got = w.bytes();
      c.check(got == want, "close-incomplete", [&] { return desc + fmt(": %zu bytes after close, want %zu", got.size(), want.size()); });
      if (kind) c.check(!w.f->is_open(), "still-open", desc);
      size_t k = r.range(1, 8);
      for (size_t i = 0; i < k; ++i) {
        if (end == 1 && r.chance(50)) {
          hist += " close";
          bool threw = refused([&] { w.close(); });
          c.check(!threw, "second-close-throws", desc);
          c.seen("repeated closes");
        } else {
          ItemP it = gen_item(r, 50);
          hist += " write";
          bool same_name = !ws.empty() && r.chance(30);
          bool threw = refused([&] { w.write(same_name ? ws[0].first : gen_name(r), *it); });
          c.check(threw, "write-after-close", [&] { return desc + " " + hist; });
          c.seen("writes after close");
        }
        std::string now = w.bytes();
        c.check(now == want, "changed-after-close", [&] { return desc + " " + hist + fmt(": %zu bytes, want %zu", now.size(), want.size()); });
      }
    }
  } catch (const Unwind &) {
  }
  if (kind) got = slurp(path);
  c.check(got == want, end >= 2 ? "destroyed-incomplete" : "destructor-changed", [&] { return desc + " " + hist + fmt(": %zu bytes, want %zu", got.size(), want.size()); });
  if (kind) { // and as a file
    npy::npzfilereader rd(path);
    std::string why = whole(rd, m, is_big(en));
    c.check(why.empty(), "unreadable", [&] { return desc + " " + hist + ": " + why; });
    // a new writer on the same path starts afresh
    if (r.chance(40)) {
      { npy::npzfilewriter again(path, method, en); }
      npy::npzfilereader empty(path);
      c.check(empty.keys().empty(), "old-content", desc);
    }
  }
  c.cover("end x kind x method", fmt("%d %d %d", end, kind, static_cast<int>(method)));
  c.seen("lives observed");
  c.nontrivial(fnv(desc + hist + want));
  c.sample(desc + " " + hist);
}
