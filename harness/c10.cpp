// C10: archives made by other writers. The expected values come with them.
#include "foreign.h"
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

void run_case(Ctx &c) {
  RecordReader rr;
  if (!rr.open(c.args["in"] + "/" + std::to_string(c.idx) + ".rec")) { fprintf(stderr, "no record file\n"); exit(3); }
  std::vector<std::string> f;
  size_t n = 0;
  while (rr.get(f)) {
    Foreign fa(f);
    const bool refuse = fa.refuse;
    const std::string &bytes = fa.bytes, &desc = fa.desc;
    Model &m = fa.m;
    c.note(desc);
    c.evals++;
    ++n;
    for (int kind : {0, 2, n % 3 == 0 ? 1 : n % 3 == 1 ? 3 : 4}) {
      std::string why;
      try {
        AnyReader rd(kind, c.path("x.npz"), bytes);
        if (refuse) {
          for (auto &e : m.map) {
            c.check(rd.wrong_type(e.first, e.second->type), "unsupported-method-accepted", [&] { return desc + ": read returned " + hex(bytes, 600); });
            bool threw = false;
            try { rd.peek(e.first); } catch (const std::exception &) { threw = true; }
            c.check(threw, "unsupported-method-accepted", [&] { return desc + ": peek returned " + hex(bytes, 600); });
            c.seen("members with other methods refused");
          }
          continue;
        }
        why = m.keys(rd.keys());
        for (auto &e : m.map) {
          if (!why.empty()) break;
          if (!rd.contains(e.first) || !rd.contains(e.first.substr(0, e.first.size() - 4))) why = "contains";
          else why = rd.read(*e.second, e.first, static_cast<int>(n % 2));
          if (why.empty()) why = fa.same_header(e.first, rd.peek(e.first));
          c.seen("members read");
          if (!why.empty()) why = e.first + " " + e.second->desc() + ": " + why;
        }
      } catch (const std::exception &e) {
        why = std::string("threw ") + e.what();
        if (refuse) { c.check(true, "refused on open"); continue; }
      }
      c.check(why.empty(), "foreign-archive", [&] { return desc + fmt(" (reader %d): ", kind) + why + " " + hex(bytes, 1200); });
    }
    c.cover("way of writing", desc);
    c.nontrivial(fnv(bytes));
    if (n % 60 == 7) c.sample(desc + fmt(", %zu members", m.map.size()));
  }
  c.evals--;
}
