// C12: no call on any input has undefined behaviour, writes out of bounds, or hangs.
// Built with AddressSanitizer and UndefinedBehaviorSanitizer; every buffer handed
// to the library is a heap block of exactly the stated size.
#include "../lib/props.hpp"
using namespace props;
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define MSAN 1
#endif
#endif
#ifdef MSAN
// The library is instrumented by MemorySanitizer, this file is not (its stores count as
// initialising); so what the library hands back has to be looked at here.
#include <sanitizer/msan_interface.h>
extern "C" __thread unsigned long long __msan_retval_tls[100];
#define KNOWN(call) ([&]() __attribute__((always_inline)) { auto r_ = (call); asm volatile("" ::: "memory"); g_unknown |= __msan_retval_tls[0] & (sizeof r_ < 8 ? (1ull << 8 * (sizeof r_ & 7)) - 1 : ~0ull); return r_; }())
static unsigned long long g_unknown;
static void known(Ctx& c, const char* what, const void* p, size_t n) {
  if (g_unknown) { g_unknown = 0; c.fail(std::string(what) + " returns a value that depends on uninitialised memory"); }
  if (n && __msan_test_shadow(p, n) >= 0) c.fail(std::string(what) + " leaves uninitialised memory in its output");
}
#else
#define KNOWN(call) (call)
static void known(Ctx&, const char*, const void*, size_t) {}
#endif
namespace {
template <class S>
void known(Ctx& c, const char* what, const S& s) { ::known(c, what, s.data(), s.size() * sizeof s[0]); }
void known(Ctx& c, const char* what) { ::known(c, what, nullptr, 0); }
template <class T>
struct Exact {
  T* p;
  size_t n;
  explicit Exact(size_t k) : p(static_cast<T*>(malloc(k * sizeof(T) ? k * sizeof(T) : 1))), n(k) {
    if (k == 0) p = reinterpret_cast<T*>(reinterpret_cast<char*>(p));
  }
  template <class S>
  explicit Exact(const S& s) : Exact(s.size()) { if (n) memcpy(p, s.data(), n * sizeof(T)); }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
};
std::string any_bytes(Tape& t) {
  static const uint8_t w[] = {90, 40, 40, 30, 30, 10};
  std::string s;
  switch (t.pick(w)) {
    case 0: s = gen::domain(t).bytes; break;
    case 1: for (uint32_t k = t.size(200); k > 0; k--) s += char(t.byte()); break;
    case 2: s = gen::puny_text(t); break;
    case 3: s = gen::ace_label(t); break;
    case 4: for (uint32_t k = t.size(100); k > 0; k--) ref::utf8_put(s, t.p(200) ? gen::any_cp(t) : t.u(0x200000)); break;
    default: {  // big: repeat
      std::string u = gen::domain(t).bytes;
      uint32_t k = t.u(400);
      for (uint32_t i = 0; i < k && s.size() < 5000; i++) s += u;
    }
  }
  if (t.p(30) && !s.empty()) s.resize(t.u(uint32_t(s.size())));
  return s;
}
u32 any_u32(Tape& t) {
  static const uint8_t w[] = {70, 50, 40, 40, 30, 10};
  u32 s;
  switch (t.pick(w)) {
    case 0: s = gen::raw_unicode_label(t); break;
    case 1: for (uint32_t k = t.size(60); k > 0; k--) s.push_back(t.p(60) ? t.p(128) ? t.u32() : gen::beyond(t) : gen::any_cp(t)); break;
    case 2: s = gen::nfc_text(t, 12); break;
    case 3: s = gen::joiner_label(t); break;
    case 4: for (uint32_t k = t.size(60); k > 0; k--) s.push_back(char32_t(t.p(128) ? 0x10FFF0 + t.u(0x20) : t.p(128) ? 0xFFFFFFFF - t.u(4) : gen::any_cp(t))); break;
    default: for (uint32_t k = t.u(3000); k > 0; k--) s.push_back(0x300 + (k * 7919 >> 3) % 0x70); s.push_back(gen::any_cp(t));
  }
  return s;
}
void bytes_of(Ctx& c, const std::string& s) {
  c.show("every byte-string entry point on " + q(s));
  c.nontrivial(s);
  Exact<char> e(s);
  std::string_view v(e.p, e.n);
  {
    std::string out;
    (void)KNOWN(idna::to_ascii(v, out));
    known(c, "to_ascii", out);
    (void)KNOWN(idna::to_unicode(v, out));
    known(c, "to_unicode", out);
  }
  known(c, "to_ascii (returning)", idna::to_ascii(v));
  known(c, "to_unicode (returning)", idna::to_unicode(v));
  { u32 o; bool r = KNOWN(idna::punycode_to_utf32(v, o)); known(c, "punycode_to_utf32", r ? o : u32()); }
  (void)KNOWN(idna::verify_punycode(v));
  known(c, "verify_punycode");
  (void)KNOWN(idna::contains_forbidden_domain_code_point(v));
  known(c, "contains_forbidden_domain_code_point");
  Exact<char32_t> out(std::max(idna::utf32_length_from_utf8(e.p, e.n), e.n));
  size_t n = idna::utf8_to_utf32(e.p, e.n, out.p);
  if (n > e.n) c.fail("utf8_to_utf32 reports more code points than bytes");
  ::known(c, "utf8_to_utf32", out.p, n * 4);
  u32 w;
  if (ref::utf8_decode(s, w)) {  // the documented size is enough for well-formed text
    Exact<char32_t> tight(w.size());
    (void)idna::utf8_to_utf32(e.p, e.n, tight.p);
  }
  idna::ascii_map(e.p, e.n);
  ::known(c, "ascii_map", e.p, e.n);
}
void bytes(Ctx& c) { bytes_of(c, any_bytes(c.t)); }
void code_points_of(Ctx& c, const u32& s) {
  c.show("every UTF-32 entry point on " + q(s));
  c.nontrivial(s);
  Exact<char32_t> e(s);
  u32v v(e.p, e.n);
  u32 m;
  { bool r = KNOWN(idna::map(v, m)); known(c, "map", r ? m : u32()); }
  known(c, "map (returning)", idna::map(v));
  (void)KNOWN(idna::is_already_nfc(v));
  known(c, "is_already_nfc");
  (void)KNOWN(idna::is_label_valid(v));
  (void)KNOWN(idna::is_label_valid(v, true));
  known(c, "is_label_valid");
  (void)KNOWN(idna::is_rtl_label(v));
  known(c, "is_rtl_label");
  { u32 x(v); bool r = KNOWN(idna::normalize(x)); known(c, "normalize", r ? x : u32()); }
  { u32 x(v); x.shrink_to_fit(); (void)idna::normalize(x); (void)idna::is_label_valid(x); }
  { std::string o; bool r = KNOWN(idna::utf32_to_punycode(v, o)); known(c, "utf32_to_punycode", r ? o : std::string()); }
  for (char32_t x : v) { (void)KNOWN(idna::valid_name_code_point(x, true)); (void)KNOWN(idna::valid_name_code_point(x, false)); }
  known(c, "valid_name_code_point");
  bool ok = std::all_of(s.begin(), s.end(), [](char32_t x) { return ref::scalar(x); });
  size_t len = idna::utf8_length_from_utf32(e.p, e.n);
  Exact<char> out(ok ? len : e.n * 4);
  const size_t n = KNOWN(idna::utf32_to_utf8(e.p, e.n, out.p));
  if (n > out.n) c.fail("utf32_to_utf8 reports more than it may write");
  ::known(c, "utf32_to_utf8", out.p, n);
}
void code_points(Ctx& c) { code_points_of(c, any_u32(c.t)); }
void huge(Ctx& c) {  // lengths beyond 16 bits, for the calls that set no limit
  auto& t = c.t;
  if (t.p(128)) {
    u32 s = gen::huge_cps(t);
    if (t.p(60)) s[t.u(uint32_t(s.size()))] = t.p(128) ? gen::beyond(t) : 0xD800 + t.u(0x800);
    return code_points_of(c, s);
  }
  std::string s;
  if (t.p(128)) {
    s = ref::utf8(gen::huge_cps(t));
    if (t.p(80)) s[t.u(uint32_t(s.size()))] = char(t.byte());
    if (t.p(60)) s.resize(s.size() - t.u(4));
  } else {
    s.assign(gen::huge_len(t), char(gen::ldh(t)));
    if (t.p(200)) s += '-';
    for (uint32_t k = t.u(12); k > 0; k--) s += char(t.p(60) ? '9' : gen::ldh(t));
  }
  bytes_of(c, s);
}
void at_limit(Ctx& c) {  // inputs up to the accepted maximum, chosen to be costly
  auto& t = c.t;
  std::string unit;
  switch (t.u(7)) {
    case 0: unit = "\xef\xb7\xba"; break;                       // maps to 18 code points
    case 1: unit = "\xcc\x81"; break;                           // mark
    case 2: unit = "\xe0\xa4\x95\xe0\xa5\x8d\xe2\x80\x8d"; break;  // joiners
    case 3: unit = "xn--a-ecp."; break;
    case 4: unit = "\xd7\x90."; break;
    case 5: unit = gen::domain(t).bytes; break;
    default: break;
  }
  std::string s;
  if (t.p(100)) s = t.p(128) ? "xn--" : "\xc3\xa9";
  if (unit.empty()) {
    uint32_t a = 0xAC00 + t.u(3000);
    while (s.size() + 3 <= 16384) ref::utf8_put(s, a++);      // thousands of distinct code points
  } else while (s.size() + unit.size() <= 16384) s += unit;
  if (t.p(60)) { std::string x(16384 - 5, 'a'); for (size_t i = 4; i < x.size(); i++) x[i] = "0123456789abcdefghijklmnopqrstuvwxyz"[(i * 31 + t.u(3)) % (1 + t.u(36))]; s = "xn--" + x.substr(4) + "\xc3\xa9"; s[s.size() - 3] = '.'; }
  c.show("at the size limit: " + q(s));
  c.nontrivial(s);
  Exact<char> e(s);
  std::string_view v(e.p, e.n);
  std::string out;
  (void)idna::to_ascii(v, out);
  (void)idna::to_unicode(v, out);
  (void)idna::verify_punycode(v.substr(4));
}
}  // namespace
#ifdef MSAN
PBT_MAIN("msan", {"bytes", bytes, 500000, 8000000}, {"code-points", code_points, 500000, 8000000}, {"at-limit", at_limit, 600, 8000}, {"huge", huge, 200, 4000})
#else
PBT_MAIN("asan-ubsan", {"bytes", bytes, 500000, 8000000}, {"code-points", code_points, 500000, 8000000}, {"at-limit", at_limit, 600, 8000}, {"huge", huge, 200, 4000})
#endif
