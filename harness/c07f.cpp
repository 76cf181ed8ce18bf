// C07, coverage-guided: the same operations as a libFuzzer target.
#define VT_NO_MAIN
#define VT_ALLOC_CAP (8u << 20)
#include "hostile.h"
#include "alloc.h"
static const bool uncapped = (vt::g_alloc.cap = ~0ull, true);

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  static vt::Hostile h;
  if (h.work.empty()) h.work = getenv("VT_WORK") ? getenv("VT_WORK") : ".";
  vt::g_alloc.cap = VT_ALLOC_CAP; // not for the fuzzer's own tables
  h.fuzz(d, n);
  vt::g_alloc.cap = ~0ull;
  return 0;
}
