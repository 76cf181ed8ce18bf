// C04: several arrays on one stream. Monitor: the stream position after every
// operation, and the values, against the log of what was saved where.
#include "gen.h"
#include <memory>
using namespace vt;

void begin_run(Ctx &) {}
void end_run(Ctx &) {}

struct Item {
  int type; bool fortran; npy::endian_t en; std::vector<size_t> shape;
  size_t begin, data, end; size_t width;
  std::function<void(Ctx &, std::istream &, const std::string &)> load; // load and compare
  std::function<void(Ctx &, std::istream &, const npy::header_info &, const std::string &)> rest; // read elements after a peek
  std::string desc;
};

static std::string marker(Rng &r) {
  std::string m(r.below(20), 'M');
  for (auto &ch : m) ch = static_cast<char>(r.next());
  return m;
}

// exactly the array was read: the end of the stream was not even looked at
static bool state_ok(std::istream &i) { return i.good(); }

void run_case(Ctx &c) {
  Rng &r = c.rng;
  bool large = c.mode == "large";
  size_t n = large ? r.range(1, 3) : r.range(1, 12);
  std::vector<std::shared_ptr<Item>> items;
  std::vector<std::string> gaps;
  std::ostringstream os;
  std::string prefix = r.chance(50) ? marker(r) : "";
  os << prefix;
  for (size_t k = 0; k < n; ++k) {
    auto it = std::make_shared<Item>();
    it->type = static_cast<int>(r.below(NTYPES));
    it->fortran = r.chance(50);
    it->en = ENDIANS[r.below(3)];
    it->shape = large && r.chance(70) ? big_shape(r, log_uniform(r, 30000, 3000000) / (it->type == T_STR ? 64 : static_cast<size_t>(tinfo(it->type).size)) + 1) : gen_shape(r, r.chance(5) ? 30000 : 300, false);
    if (large && r.chance(10)) it->shape = std::vector<size_t>(r.range(21000, 25000), 1);
    it->begin = static_cast<size_t>(os.tellp());
    with_type(it->type, [&](auto g) {
      typedef typename decltype(g)::type T;
      auto values = std::make_shared<std::vector<T>>(gen_values<T>(r, count_of(it->shape)));
      if (!values->empty() && r.chance(25)) { // elements which look like the end of a header
        if constexpr (std::is_same_v<T, std::wstring>) { if (!(*values)[0].empty()) (*values)[0][0] = r.chance(50) ? L'\n' : L' '; }
        else if constexpr (!std::is_same_v<T, npy::boolean>) memset(static_cast<void *>(&(*values)[0]), r.chance(60) ? 10 : 32, sizeof(T));
      }
      auto t = make_tensor(it->shape, it->fortran, *values);
      it->width = width_of(*values);
      size_t bytes = values->size() * (it->type == T_STR ? 4 * it->width : tinfo(it->type).size);
      if (r.chance(30)) { // another writer's header: padded in another way, or not at all
        std::string dict = ref_dict(descr_of(it->type, is_big(it->en), it->width), it->fortran, it->shape);
        int pad = static_cast<int>(r.below(4));
        if (pad == 1) dict += "\n";
        else if (pad == 2) dict += std::string(r.below(200), ' ');
        else if (pad == 3) dict += std::string(r.below(200), ' ') + "\n";
        int version = dict.size() > 60000 || r.chance(30) ? 2 : 1;
        std::string file("\x93NUMPY", 6);
        file += static_cast<char>(version);
        file += '\0';
        put_int(file, dict.size(), version == 1 ? 2 : 4, false);
        os << file << dict << payload_of(*values, is_big(it->en));
        c.seen("arrays with a header of another writer");
      } else npy::save(os, t, it->en);
      it->end = static_cast<size_t>(os.tellp());
      it->data = it->end - bytes;
      it->desc = fmt("item %zu type=%s shape=%s [%zu,%zu,%zu)", k, tinfo(it->type).code, shape_str(it->shape).c_str(), it->begin, it->data, it->end);
      Item *p = it.get();
      it->load = [values, p](Ctx &c2, std::istream &in, const std::string &how) {
        npy::tensor<T> got = npy::load<npy::tensor<T>>(in);
        std::string why;
        c2.check(same_tensor(got, p->shape, p->fortran, *values, &why), "sequence-value", [&] { return p->desc + " " + how + ": " + why; });
      };
      it->rest = [values, p](Ctx &c2, std::istream &in, const npy::header_info &info, const std::string &how) {
        std::vector<T> got = gen_values<T>(c2.rng, values->size()); // whatever was there before
        npy::read_values(in, got.data(), got.size(), info);
        c2.check(same_values(got, *values), "peek-then-read", [&] { return p->desc + " " + how; });
      };
    });
    std::string gap = r.chance(40) ? marker(r) : "";
    os << gap;
    gaps.push_back(gap);
    items.push_back(it);
    c.cover("type", it->type);
  }
  std::string bytes = os.str();
  c.nontrivial(fnv(bytes));
  c.sample(fmt("%zu arrays in %zu bytes", n, bytes.size()) + ", first: " + items[0]->desc);

  auto same_header = [&](const npy::header_info &h, const Item &it) {
    return h.dtype == tinfo(it.type).dtype && h.fortran_order == it.fortran && h.shape == it.shape && h.max_element_length == (it.type == T_STR ? it.width : 0) &&
           (tinfo(it.type).size == 1 || is_big(h.endianness) == is_big(it.en));
  };
  // how: 0 string stream, 1 file stream, 2 unseekable
  for (int how = 0; how < 3; ++how) {
    std::string hn = how == 0 ? "stringstream" : how == 1 ? "ifstream" : "unseekable";
    std::unique_ptr<std::istream> in;
    std::unique_ptr<DripBuf> drip;
    if (how == 0) in.reset(new std::istringstream(bytes));
    else if (how == 1) { spew(c.path("s.bin"), bytes); in.reset(new std::ifstream(c.path("s.bin"), std::ios::binary)); }
    else { drip.reset(new DripBuf(bytes, r.range(1, large ? 100000 : 300))); in.reset(new std::istream(drip.get())); }
    auto pos = [&]() -> size_t { return how == 2 ? drip->consumed() : static_cast<size_t>(static_cast<std::streamoff>(in->rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in))); };
    in->ignore(static_cast<std::streamsize>(prefix.size()));
    bool strict = r.chance(30); // the owner wants to hear of trouble: there is none
    if (strict) in->exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit);
    for (size_t k = 0; k < n; ++k) {
      Item &it = *items[k];
      c.note(hn + " " + it.desc);
      int action = static_cast<int>(r.below(how == 2 ? 2 : 3));
      if (action == 0) {
        it.load(c, *in, hn);
      } else if (action == 1) { // peek, then read the elements
        npy::header_info h = npy::peek(*in);
        c.check(same_header(h, it), "peek-header", [&] { return it.desc + " " + hn; });
        c.check(pos() == it.data, "peek-position", [&] { return it.desc + " " + hn + fmt(": at %zu", pos()); });
        it.rest(c, *in, h, hn);
      } else { // peek, seek back, load
        npy::header_info h = npy::peek(*in);
        c.check(same_header(h, it), "peek-header", [&] { return it.desc + " " + hn; });
        c.check(pos() == it.data, "peek-position", [&] { return it.desc + " " + hn + fmt(": at %zu", pos()); });
        in->seekg(static_cast<std::streamoff>(it.begin));
        it.load(c, *in, hn);
      }
      c.seen(std::string(action == 0 ? "load" : action == 1 ? "peek+read_values" : "peek+seek+load") + " on " + hn);
      c.check(pos() == it.end, "load-position", [&] { return it.desc + " " + hn + fmt(": at %zu", pos()); });
      c.check(state_ok(*in), "stream-state", [&] { return it.desc + " " + hn + fmt(": rdstate %d", static_cast<int>(in->rdstate())); });
      if (how != 2) c.check(static_cast<std::streamoff>(in->tellg()) == static_cast<std::streamoff>(it.end), "load-tellg", [&] { return it.desc + " " + hn; });
      // whatever follows is still there for its owner
      std::string gap(gaps[k].size(), '\0');
      in->read(&gap[0], static_cast<std::streamsize>(gap.size()));
      c.check(gap == gaps[k], "following-bytes", [&] { return it.desc + " " + hn; });
    }
    in->exceptions(std::ios::goodbit);
    c.check(in->peek() == std::istream::traits_type::eof(), "end-of-stream", hn);
    if (strict) c.seen("streams which throw on any failure");
  }
  // a stream that is read while it is being written
  std::stringstream both;
  for (size_t k = 0; k < n; ++k) {
    both.write(bytes.data() + items[k]->begin, static_cast<std::streamsize>(items[k]->end - items[k]->begin));
    items[k]->load(c, both, "stringstream in/out");
    c.check(state_ok(both) && static_cast<std::streamoff>(both.tellg()) == static_cast<std::streamoff>(both.tellp()), "stream-state", [&] { return items[k]->desc + fmt(" in/out: rdstate %d", static_cast<int>(both.rdstate())); });
    both.clear();
  }
}
