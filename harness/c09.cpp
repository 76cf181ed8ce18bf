// C09: archives written by the library, logged for the independent readers.
#include "npz.h"
using namespace vt;

static RecordWriter rec;
void begin_run(Ctx &c) { rec.open(c.out + ".rec"); }
void end_run(Ctx &) { rec.close(); }

void run_case(Ctx &c) {
  Rng &r = c.rng;
  int wk = static_cast<int>(r.below(4));
  npy::compression_method_t method = METHODS[r.below(2)];
  npy::endian_t en = ENDIANS[r.below(3)];
  bool big = is_big(en);
  std::string path = c.path("w.npz");
  std::string desc = fmt("writer=%d method=%d endian=%d:", wk, static_cast<int>(method), static_cast<int>(en));
  AnyWriter w(wk, path, method, en);
  bool large = c.mode == "large";
  size_t n = large ? r.range(1, 3) : r.chance(10) ? 0 : r.chance(3) ? r.range(100, 700) : r.range(1, 7);
  std::vector<std::string> fields;
  ItemP last;
  std::string last_name;
  for (size_t i = 0; i < n; ++i) {
    std::string name = n > 50 ? std::to_string(i) : gen_name(r);
    ItemP it = n > 50 ? small_item(r, static_cast<uint8_t>(i)) : gen_item(r, r.chance(5) ? 200000 : 500, true);
    if (r.chance(4) && n < 50) it = bytes_item(std::string(r.range(1, 300000), static_cast<char>(r.next())));
    else if (r.chance(3) && n < 50) { it = crc_item(r, std::string(r.range(4, 300), static_cast<char>(r.next())), odd_crc(r)); c.seen("odd checksums"); }
    if (c.idx % 100 == 7 && i == 0) { it = even_item(r, static_cast<long>(r.below(3)) - 1); c.seen("members about as long deflated"); }
    if (large) it = big_item(r, 100000, 8000000);
    if (last && n < 50 && r.chance(12)) { // the same array again, under the same name or another
      it = last;
      if (r.chance(60)) name = last_name;
      c.seen("repeated arrays");
    }
    last = it;
    last_name = name;
    if (desc.size() < 500) desc += " " + hex(name, 20) + "=" + it->desc();
    c.note(desc);
    w.write(name, *it);
    std::string ref = it->npy(en);
    fields.push_back(stored_name(name));
    fields.push_back(ref);
    fields.push_back(it->descr(big) + ";" + (it->fortran ? "1" : "0"));
    std::string sh;
    for (size_t d : it->shape) sh += std::to_string(d) + ",";
    fields.push_back(sh);
    fields.push_back(it->payload(false));
    c.seen("members written");
  }
  w.close();
  std::string bytes = w.bytes();
  // quick structural oracle in process as well
  if (n < 60000) {
    std::string err;
    size_t got = 0;
    try {
      auto z = parse_zip(bytes);
      got = z.size();
      for (size_t i = 0; i < z.size() && i < n; ++i) {
        if (z[i].name != fields[5 * i]) err = "name or order";
        if (z[i].method != static_cast<int>(method)) err = "method";
        if (z[i].usize != fields[5 * i + 1].size()) err = "uncompressed size";
        if (z[i].crc != ref_crc(fields[5 * i + 1])) err = "crc";
        if (z[i].method == 0 && z[i].data != fields[5 * i + 1]) err = "stored data";
      }
      if (got != n) err = "count";
    } catch (const std::string &e) { err = e; }
    c.check(err.empty(), "structure", [&] { return desc + ": " + err; });
  }
  // u32 field count is fixed up front in the record format
  {
    uint32_t k = static_cast<uint32_t>(fields.size() + 2);
    fwrite(&k, 4, 1, rec.f);
    auto put = [&](const std::string &s) { uint64_t l = s.size(); fwrite(&l, 8, 1, rec.f); fwrite(s.data(), 1, s.size(), rec.f); };
    put(desc + fmt(" case=%llu", static_cast<unsigned long long>(c.idx)));
    put(bytes);
    for (auto &f : fields) put(f);
  }
  c.cover("members", n);
  c.nontrivial(fnv(bytes));
  c.sample(desc + fmt(" -> %zu bytes", bytes.size()));
}
