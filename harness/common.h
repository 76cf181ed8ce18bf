// Shared machinery of the monitors: deterministic case generation, progress
// tracking for crash witnesses, result reporting.
#pragma once
#include <array>
#include <cmath>
#include <cstdarg>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cfloat>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#include "npy/npy.h"

namespace vt {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  bool chance(int percent) { return below(100) < static_cast<uint64_t>(percent); }
  template <class C> auto &pick(C &c) { return c[below(c.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD6E8FEB86659FD93ull));
  r.next();
  return r.next();
}

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
  return h;
}
inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}

inline std::string hex(const std::string &s, size_t max = 512) {
  static const char *d = "0123456789abcdef";
  std::string o;
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    o += d[static_cast<unsigned char>(s[i]) >> 4];
    o += d[static_cast<unsigned char>(s[i]) & 15];
  }
  if (s.size() > max) o += "...";
  return o;
}

// written before each case so that the driver knows which case a crash hit
struct Progress {
  uint64_t idx;
  uint64_t done;
  uint64_t started; // CLOCK_MONOTONIC seconds
  char note[1000];
};

struct Ctx {
  uint64_t seed = 1, idx = 0, shard = 0, nshards = 1, begin = 0, end = 0;
  bool thorough = false;
  double deadline = 1e9;
  std::string out, work, mode;
  std::map<std::string, std::string> args;
  Rng rng;
  Progress *progress = nullptr;

  uint64_t evals = 0;    // cases executed
  uint64_t compares = 0; // oracle decisions
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> counters; // events observed
  std::vector<std::string> samples;
  std::map<std::string, std::pair<uint64_t, std::string>> fails; // key -> (count, first detail)
  std::map<std::string, uint64_t> fail_case;
  bool truncated = false;
  std::map<std::string, std::set<std::string>> covers; // distinct things seen, per kind
  double max_case_cpu = 0;

  void fail(const std::string &key, const std::string &detail) {
    auto &f = fails[key];
    if (f.first++ == 0) { f.second = detail; fail_case[key] = idx; }
  }
  // one oracle decision
  bool check(bool ok, const std::string &key, const std::function<std::string()> &detail) {
    ++compares;
    if (!ok) fail(key, detail());
    return ok;
  }
  bool check(bool ok, const std::string &key, const std::string &detail = "") {
    ++compares;
    if (!ok) fail(key, detail);
    return ok;
  }
  void seen(const std::string &counter, uint64_t n = 1) { counters[counter] += n; }
  void cover(const std::string &kind, const std::string &what) { auto &s = covers[kind]; if (s.size() < 2000) s.insert(what); }
  void cover(const std::string &kind, uint64_t v) { cover(kind, std::to_string(v)); }
  void nontrivial(uint64_t h) { distinct.insert(h); }
  void sample(const std::string &s, size_t max = 3) { if (samples.size() < max) samples.push_back(s); }
  void note(const std::string &s) {
    if (progress) { size_t n = std::min(s.size(), sizeof(progress->note) - 1); memcpy(progress->note, s.data(), n); progress->note[n] = 0; }
  }
  std::string path(const std::string &name) const { return work + "/" + name; }
  uint64_t arg(const std::string &k, uint64_t dflt) const { auto i = args.find(k); return i == args.end() ? dflt : strtoull(i->second.c_str(), nullptr, 0); }
};

inline double now() { timespec t; syscall(228 /* clock_gettime: not through libc, which a harness may replace */, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline double cpu() { timespec t; syscall(228, CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// CPU time one case may use before it counts as a hang: SIGPROF ends the process
inline void case_timer(double seconds) {
  itimerval v = {};
  v.it_value.tv_sec = static_cast<time_t>(seconds);
  setitimer(ITIMER_PROF, &v, nullptr);
}

inline void write_result(Ctx &c) {
  std::ofstream f(c.out);
  f << "{\"max_case_cpu\":" << c.max_case_cpu << ",\"evals\":" << c.evals << ",\"compares\":" << c.compares << ",\"truncated\":" << (c.truncated ? "true" : "false") << ",\"counters\":{";
  bool first = true;
  for (auto &k : c.counters) { f << (first ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; first = false; }
  f << "},\"covers\":{";
  first = true;
  for (auto &k : c.covers) {
    f << (first ? "" : ",") << "\"" << jesc(k.first) << "\":[";
    bool f2 = true;
    for (auto &v : k.second) { f << (f2 ? "" : ",") << "\"" << jesc(v) << "\""; f2 = false; }
    f << "]";
    first = false;
  }
  f << "},\"samples\":[";
  first = true;
  for (auto &s : c.samples) { f << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  f << "],\"fails\":[";
  first = true;
  for (auto &k : c.fails) {
    f << (first ? "" : ",") << "{\"key\":\"" << jesc(k.first) << "\",\"count\":" << k.second.first << ",\"case\":" << c.fail_case[k.first] << ",\"detail\":\"" << jesc(k.second.second) << "\"}";
    first = false;
  }
  f << "]}\n";
  f.close();
  std::ofstream h(c.out + ".hashes", std::ios::binary);
  for (uint64_t v : c.distinct) h.write(reinterpret_cast<char *>(&v), 8);
}

// read a whole file through plain stdio
inline std::string slurp(const std::string &path) {
  std::string s;
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) return s;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n);
  fclose(f);
  return s;
}
inline bool spew(const std::string &path, const std::string &data) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f) return false;
  size_t n = fwrite(data.data(), 1, data.size(), f);
  return fclose(f) == 0 && n == data.size();
}

// records exchanged with the Python oracles: u32 count, then u64 length + bytes
struct RecordWriter {
  FILE *f = nullptr;
  void open(const std::string &p) { f = fopen(p.c_str(), "wb"); }
  void put(std::initializer_list<const std::string *> fields) {
    uint32_t n = static_cast<uint32_t>(fields.size());
    fwrite(&n, 4, 1, f);
    for (auto *s : fields) { uint64_t l = s->size(); fwrite(&l, 8, 1, f); fwrite(s->data(), 1, s->size(), f); }
  }
  void close() { if (f) fclose(f); f = nullptr; }
};
struct RecordReader {
  FILE *f = nullptr;
  bool open(const std::string &p) { f = fopen(p.c_str(), "rb"); return f != nullptr; }
  bool get(std::vector<std::string> &out) {
    uint32_t n;
    out.clear();
    if (!f || fread(&n, 4, 1, f) != 1) return false;
    for (uint32_t i = 0; i < n; ++i) {
      uint64_t l;
      if (fread(&l, 8, 1, f) != 1) return false;
      std::string s(l, '\0');
      if (l && fread(&s[0], 1, l, f) != l) return false;
      out.push_back(std::move(s));
    }
    return true;
  }
  void close() { if (f) fclose(f); f = nullptr; }
};

} // namespace vt

// supplied by each harness
void run_case(vt::Ctx &c);
void begin_run(vt::Ctx &c);
void end_run(vt::Ctx &c);

#ifndef VT_NO_MAIN
int main(int argc, char **argv) {
  vt::Ctx c;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") c.seed = strtoull(v.c_str(), nullptr, 0);
    else if (k == "--shard") c.shard = strtoull(v.c_str(), nullptr, 0);
    else if (k == "--nshards") c.nshards = strtoull(v.c_str(), nullptr, 0);
    else if (k == "--begin") c.begin = strtoull(v.c_str(), nullptr, 0);
    else if (k == "--end") c.end = strtoull(v.c_str(), nullptr, 0);
    else if (k == "--thorough") c.thorough = v == "1";
    else if (k == "--deadline") c.deadline = atof(v.c_str());
    else if (k == "--out") c.out = v;
    else if (k == "--work") c.work = v;
    else if (k == "--mode") c.mode = v;
    else if (k.rfind("--", 0) == 0) c.args[k.substr(2)] = v;
  }
  static vt::Progress dummy;
  c.progress = &dummy;
  int fd = open((c.out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0 && ftruncate(fd, sizeof(vt::Progress)) == 0) {
    void *m = mmap(nullptr, sizeof(vt::Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m != MAP_FAILED) c.progress = static_cast<vt::Progress *>(m);
  }
  if (fd >= 0) close(fd);
  if (!freopen("/dev/null", "w", stdout)) return 3; // the library prints diagnostics
  double start = vt::now();
  c.progress->idx = ~0ull;
  double casecpu = c.args.count("casecpu") ? atof(c.args["casecpu"].c_str()) : 0;
  begin_run(c);
  for (uint64_t i = c.begin; i < c.end; ++i) {
    if (i % c.nshards != c.shard) continue;
    if (vt::now() - start > c.deadline) { c.truncated = true; break; }
    c.idx = i;
    c.rng = vt::Rng(vt::mix(c.seed, i));
    c.progress->idx = i;
    c.progress->started = static_cast<uint64_t>(vt::now());
    c.note("");
    double cpu0 = vt::cpu();
    vt::case_timer(casecpu);
    try {
      run_case(c);
    } catch (const std::exception &e) {
      c.fail("unexpected-exception", std::string(c.progress->note) + ": " + e.what());
    } catch (...) {
      c.fail("unexpected-exception", std::string(c.progress->note) + ": non-standard exception");
    }
    vt::case_timer(0);
    c.max_case_cpu = std::max(c.max_case_cpu, vt::cpu() - cpu0);
    ++c.evals;
    ++c.progress->done;
    if (c.fails.size() > 50) break;
  }
  c.progress->idx = ~0ull - 1;
  end_run(c);
  vt::write_result(c);
  c.progress->idx = ~0ull - 2;
  return 0;
}
#endif
