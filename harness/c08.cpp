// C08: archives against a map model, over random histories of writes and of
// reader operations.
#include "npz.h"
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  int wk = static_cast<int>(r.below(4)), rk = static_cast<int>(r.below(5));
  npy::compression_method_t method = METHODS[r.below(2)];
  npy::endian_t en = ENDIANS[r.below(3)];
  bool big = is_big(en);
  std::string path = c.path("w.npz");
  Model m;
  std::string desc = fmt("writer=%d reader=%d method=%d endian=%d writes:", wk, rk, static_cast<int>(method), static_cast<int>(en));
  std::string bytes;
  {
    AnyWriter w(wk, path, method, en);
    bool many = c.mode == "many", large = c.mode == "large";
    size_t n = many ? r.range(1000, 4000) : large ? r.range(1, 5) : r.chance(4) ? r.range(60, 400) : r.chance(10) ? 0 : r.range(1, 14);
    bool pool = r.chance(50) && !many; //
    size_t distinct = many ? r.range(n / 8, 2 * n) : 2 * n; // few names: overwrites are likely
    std::vector<std::string> names;
    for (int i = 0; i < 4; ++i) names.push_back(gen_name(r));
    for (size_t i = 0; i < n; ++i) {
      std::string name = pool ? names[r.below(4)] : n > 50 ? "m" + std::to_string(r.below(distinct)) : gen_name(r);
      if (r.chance(many ? 3 : 25) && !m.writes.empty()) { // close relatives of names already there
        name = m.writes[r.below(m.writes.size())].first;
        if (r.chance(50)) name = name.substr(0, name.size() - 4);
        else if (r.chance(30) && name.size() < 60000) name += ".npy";
      }
      ItemP it = large && r.chance(70) ? big_item(r, 30000, 8000000) : n > 50 ? small_item(r, static_cast<uint8_t>(r.next())) : gen_item(r, 300);
      if (r.chance(3) && n < 50) { // highly repetitive
        size_t k = r.range(1, 70000);
        it = bytes_item(std::string(k, static_cast<char>(r.next())));
      } else if (r.chance(3) && n < 50) {
        it = crc_item(r, std::string(r.range(4, 300), static_cast<char>(r.next())), odd_crc(r));
        c.seen("odd checksums");
      }
      if (c.idx % 120 == 7 && i == 0 && n < 50) {
        it = even_item(r, static_cast<long>(r.below(3)) - 1);
        c.seen("members about as long deflated");
      }
      if (desc.size() < 700) desc += " " + hex(name, 24) + "=" + it->desc();
      c.note(desc);
      w.write(name, *it);
      m.write(name, it);
      c.seen("writes");
    }
    w.close();
    bytes = w.bytes();
  }
  c.cover("members", m.map.size());
  c.cover("overwrites", m.writes.size() - m.map.size());
  AnyReader rd(rk, path, bytes);
  c.check(m.keys(rd.keys()).empty(), "keys", [&] { return desc + ": " + m.keys(rd.keys()); });
  std::vector<std::string> stored;
  for (auto &e : m.map) stored.push_back(e.first);
  size_t ops = r.range(3, 25);
  std::string hist;
  for (size_t k = 0; k < ops + stored.size(); ++k) {
    std::string q;
    if (k < stored.size()) q = stored[k];
    else if (!stored.empty() && r.chance(70)) q = stored[r.below(stored.size())];
    else q = gen_name(r);
    if (k >= stored.size() || stored.size() > 30) { // every member is read by its full name first
      int v = static_cast<int>(r.below(5));
      if (v == 1 && has_suffix(q)) q = q.substr(0, q.size() - 4);
      if (v == 2) q += ".npy";
      if (v == 3 && !q.empty()) q.pop_back();
      if (v == 4 && r.chance(20)) q += "x";
    }
    const Item *want = m.find(q);
    int op = k < stored.size() ? 2 : static_cast<int>(r.below(5));
    if (hist.size() < 1500) hist += fmt(" op%d(%s)", op, hex(q, 24).c_str());
    auto D = [&](const std::string &e) { return desc + " | " + hist + ": " + e; };
    c.note(desc + hist);
    switch (op) {
    case 0:
      c.check(rd.contains(q) == (want != nullptr), "contains", [&] { return D("contains says otherwise"); });
      c.seen(want ? "contains: present" : "contains: absent");
      break;
    case 1: {
      std::string w;
      try { npy::header_info h = rd.peek(q); w = want ? want->same_header(h, big) : "peek of an absent name returned"; }
      catch (const std::exception &e) { w = want ? std::string("peek threw: ") + e.what() : ""; }
      c.check(w.empty(), "peek", [&] { return D(w); });
      c.seen(want ? "peek: present" : "peek: absent");
      break;
    }
    case 2: {
      std::string w;
      if (want) {
        try { w = rd.read(*want, q, static_cast<int>(r.below(2))); } catch (const std::exception &e) { w = std::string("read threw: ") + e.what(); }
      } else if (!rd.wrong_type(q, static_cast<int>(r.below(NTYPES)))) w = "read of an absent name returned";
      c.check(w.empty(), "read", [&] { return D(w); });
      c.seen(want ? "read: present" : "read: absent");
      break;
    }
    case 3:
      if (want) {
        int t = static_cast<int>((want->type + r.range(1, NTYPES - 1)) % NTYPES);
        c.check(rd.wrong_type(q, t), "wrong-type-accepted", [&] { return D("read as another type returned"); });
        c.seen("read: wrong type");
      }
      break;
    default:
      c.check(m.keys(rd.keys()).empty(), "keys", [&] { return D(m.keys(rd.keys())); });
      c.seen("keys");
    }
  }
  if (r.chance(20)) { // two readers at once on the same archive
    AnyReader r2(static_cast<int>(r.below(2)), "", bytes);
    for (auto &e : m.map) {
      std::string w = r2.read(*e.second, e.first);
      c.check(w.empty(), "second-reader", [&] { return desc + w; });
      if (m.map.size() > 30) break;
    }
  }
  c.nontrivial(fnv(bytes));
  c.sample(desc + " |" + hist.substr(0, 200));
}
