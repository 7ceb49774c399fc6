// C13: the input limit, and heap use bounded by the size of the input.
#include "../lib/props.hpp"
#include <new>
using namespace props;
namespace heap {
static size_t live = 0, peak = 0, total = 0, calls = 0;
struct H { size_t n; size_t pad; };
static void* get(size_t n) {
  auto* h = static_cast<H*>(malloc(n + sizeof(H)));
  if (!h) abort();
  h->n = n;
  live += n; total += n; calls++;
  if (live > peak) peak = live;
  return h + 1;
}
static void put(void* p) {
  if (!p) return;
  auto* h = static_cast<H*>(p) - 1;
  live -= h->n;
  free(h);
}
}  // namespace heap
void* operator new(size_t n) { return heap::get(n); }
void* operator new[](size_t n) { return heap::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap::get(n); }
void operator delete(void* p) noexcept { heap::put(p); }
void operator delete[](void* p) noexcept { heap::put(p); }
void operator delete(void* p, size_t) noexcept { heap::put(p); }
void operator delete[](void* p, size_t) noexcept { heap::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap::put(p); }

constexpr size_t LIMIT = 16384;
// A generous multiple of what a straightforward implementation needs: 18 code points
// per 3 bytes, four bytes each, in a handful of buffers that grow by doubling. (31 bytes
// per byte of input is the most the code at hand was seen to use.)
constexpr size_t PER_BYTE = 200, BASE = 32 << 10;

static void warm_up() {
  static bool done = [] {
    std::string o;
    u32 s = U"\u00e9";
    (void)idna::to_ascii("\xc3\xa9", o);
    (void)idna::normalize(s);
    return true;
  }();
  (void)done;
}
template <class F>
static void measured(Ctx& c, const char* what, size_t bound, F f) {
  size_t l0 = heap::live;
  heap::peak = l0;
  heap::total = 0;
  f();
  size_t used = heap::peak > l0 ? heap::peak - l0 : 0;
  // the call may also have handed back the caller's old buffer
  if (heap::live > l0) c.fail(std::string(what) + " leaked " + std::to_string(heap::live - l0) + " bytes");
  if (used > bound) c.fail(std::string(what) + " used " + std::to_string(used) + " bytes of heap at once, more than " + std::to_string(bound));
}
static std::string fill(Tape& t, size_t n, bool ascii) {
  std::string s, unit;
  switch (ascii ? 10 + t.u(3) : t.u(8)) {
    case 0: unit = "\xef\xb7\xba"; break;
    case 1: unit = "\xc3\xa9"; break;
    case 2: unit = "\xcc\x81\xcc\xa3"; break;
    case 3: unit = "\xd7\x90."; break;
    case 4: unit = "\xf0\x9f\x98\x80"; break;
    case 5: unit = "\xe3\x80\x82"; break;
    case 6: unit = gen::domain(t).bytes; break;
    case 7: unit = "\xea\xb0\x80\xe1\x86\xa8."; break;
    case 10: unit = "a"; break;
    case 11: unit = "xn--mnchen-3ya."; break;
    default: unit = "A.bc-"; break;
  }
  if (unit.empty()) unit = "b";
  while (s.size() + unit.size() <= n) s += unit;
  s.insert(0, n - s.size(), 'k');
  return s;
}
static void limit(Ctx& c) {
  auto& t = c.t;
  size_t n;
  switch (t.u(6)) {
    case 0: n = LIMIT; break;
    case 1: n = LIMIT + 1; break;
    case 2: n = LIMIT - t.u(20); break;
    case 3: n = LIMIT + 1 + t.u(20); break;
    case 4: n = LIMIT + t.u(200000); break;
    default: n = t.u(LIMIT); break;
  }
  bool ascii = t.p(90);
  std::string s = fill(t, n, ascii);
  c.show(std::to_string(n) + " bytes: " + q(s));
  c.label(n > LIMIT ? "over the limit" : n == LIMIT ? "at the limit" : "under the limit");
  c.nontrivial(s);
  warm_up();
  if (n > LIMIT) {
    std::string out(100, 'j');
    bool a = true, u = true;
    measured(c, "rejecting an over-long domain", 4096, [&] { a = idna::to_ascii(s, out); });
    if (a || !out.empty()) c.fail("to_ascii accepted or left output for an over-long domain");
    out.assign(100, 'j');
    measured(c, "rejecting an over-long domain", 4096, [&] { u = idna::to_unicode(s, out); });
    if (u || !out.empty()) c.fail("to_unicode accepted or left output for an over-long domain");
    if (!idna::to_ascii(s).empty()) c.fail("to_ascii(input) of an over-long domain is not empty");
    if (idna::to_unicode(s) != s) c.fail("to_unicode(input) of an over-long domain is not the input");
    return;
  }
  // within the limit the size alone is never a reason to reject
  std::string out;
  if (ascii && (!idna::to_ascii(s, out) || out != ref::lower(s))) c.fail("to_ascii did not lowercase an ASCII domain within the limit");
  if (!idna::to_unicode(s, out)) c.fail("to_unicode refused a domain within the limit");
  if (ascii && s.find("xn--") == std::string::npos && out != s) c.fail("to_unicode changed a domain without A-labels");
  size_t bound = PER_BYTE * n + BASE;
  measured(c, "to_ascii", bound, [&] { std::string o; (void)idna::to_ascii(s, o); });
  measured(c, "to_unicode", bound, [&] { std::string o; (void)idna::to_unicode(s, o); });
  measured(c, "to_ascii (returning)", bound, [&] { (void)idna::to_ascii(s); });
  measured(c, "to_unicode (returning)", bound, [&] { (void)idna::to_unicode(s); });
}
// A few long labels: what each costs must not multiply with the others.
static void shapes(Ctx& c) {
  auto& t = c.t;
  size_t n = t.p(160) ? LIMIT - t.u(40) : 500 + t.u(LIMIT - 500);
  uint32_t k = 1 + t.u(t.p(40) ? 400 : 7);
  static const uint8_t w[] = {60, 50, 30, 30, 20, 20};
  size_t kind = t.pick(w);
  std::string s;
  for (uint32_t i = 0; i < k && s.size() < n; i++) {
    size_t len = i + 1 == k ? n - s.size() : std::min(n - s.size(), t.p(128) ? n / k : size_t(t.u(uint32_t(n))));
    size_t end = s.size() + len;
    uint32_t cp = 0x4E00 + t.u(0x4000);
    std::string l;
    if (kind == 1) {  // an A-label of that size
      u32 u;
      while (u.size() * 2 + 40 < len) { u.push_back(cp); cp += t.u(3); if (cp > 0x9F00) cp = 0x4E00; }
      l = "xn--" + ref::puny_encode(u).out;
      if (l.size() > len) l.resize(len);
    } else
      while (true) {
        std::string x;
        switch (kind) {
          case 0: ref::utf8_put(x, cp); cp += t.u(3); if (cp > 0x9F00) cp = 0x4E00; break;
          case 2: x = t.u(2) ? "\xef\xb7\xba" : "\xe1\xb9\xa9"; break;
          case 3: ref::utf8_put(x, t.of(gen::P().comps)); break;
          case 4: ref::utf8_put(x, 0xAC00 + t.u(11172)); break;
          default: ref::utf8_put(x, gen::any_cp(t)); break;
        }
        if (l.size() + x.size() > len) break;
        l += x;
      }
    s += l;
    if (s.size() < std::min(end, n)) s += t.p(200) ? '.' : 'a';
  }
  c.show(std::to_string(s.size()) + " bytes, " + std::to_string(k) + " labels: " + q(s));
  c.label(kind == 1 ? "shapes: long A-labels" : "shapes: long labels");
  c.nontrivial(s);
  warm_up();
  size_t bound = PER_BYTE * s.size() + BASE;
  measured(c, "to_ascii", bound, [&] { std::string o; (void)idna::to_ascii(s, o); });
  measured(c, "to_unicode", bound, [&] { std::string o; (void)idna::to_unicode(s, o); });
  u32 v;
  if (!ref::utf8_decode(s, v)) return;
  size_t b4 = PER_BYTE * 4 * v.size() + BASE;
  measured(c, "map", b4, [&] { u32 o; (void)idna::map(v, o); });
  measured(c, "normalize", b4, [&] { u32 o(v); (void)idna::normalize(o); });
  measured(c, "utf32_to_punycode", b4, [&] { std::string o; (void)idna::utf32_to_punycode(v, o); });
}
static void exact(Ctx& c) {  // full agreement with the model just below and at the limit
  auto& t = c.t;
  std::string s = fill(t, LIMIT - (t.p(128) ? t.u(4) : 0), false);
  auto r = ref::to_ascii(s);
  std::string out;
  c.show(std::to_string(s.size()) + " bytes: " + q(s));
  c.nontrivial(s);
  bool ok = idna::to_ascii(s, out);
  c.label(r.ok ? "exact: accepted" : "exact: rejected");
  if (r.either && !ok) return;
  if (ok != r.ok || out != r.out) c.fail("to_ascii disagrees with UTS #46 at the size limit");
}
static void balance(Ctx& c) {  // no call leaks, whatever its outcome
  auto& t = c.t;
  std::string s = gen::domain(t).bytes;
  u32 w = t.p(128) ? gen::nfc_text(t, 10) : gen::raw_unicode_label(t);
  c.show("heap balance over " + q(s) + " and " + q(w));
  c.nontrivial(s);
  warm_up();
  size_t b = PER_BYTE * s.size() + BASE, b2 = PER_BYTE * 4 * w.size() + BASE;
  measured(c, "to_ascii", b, [&] { std::string o; (void)idna::to_ascii(s, o); });
  measured(c, "to_unicode", b, [&] { std::string o; (void)idna::to_unicode(s, o); });
  measured(c, "map", b2, [&] { u32 o; (void)idna::map(w, o); });
  measured(c, "normalize", b2, [&] { u32 o(w); (void)idna::normalize(o); });
  measured(c, "is_already_nfc", b2, [&] { (void)idna::is_already_nfc(w); });
  measured(c, "is_label_valid", b2, [&] { (void)idna::is_label_valid(w); });
  measured(c, "utf32_to_punycode", b2, [&] { std::string o; (void)idna::utf32_to_punycode(w, o); });
  measured(c, "punycode_to_utf32", b, [&] { u32 o; (void)idna::punycode_to_utf32(s, o); });
  measured(c, "verify_punycode", b, [&] { (void)idna::verify_punycode(s); });
}
PBT_MAIN("default", {"limit", limit, 3000, 60000}, {"shapes", shapes, 1000, 20000}, {"exact", exact, 200, 4000}, {"balance", balance, 300000, 5000000})
