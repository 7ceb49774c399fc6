// C29: the work a call does stays in proportion to what it is given.
// The library is compiled so that each basic block it enters calls back (clang's
// trace-pc-guard); bytes moved, compared and searched by the C library are counted too. So
// the work is a number that does not depend on the machine or its load.
#include <cstring>

#include "../lib/props.hpp"
using namespace props;

namespace work {
static uint64_t steps = 0;
}
extern "C" {
__attribute__((no_builtin)) void __sanitizer_cov_trace_pc_guard(uint32_t*) { work::steps++; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
// These take the place of the C library's for the whole program, libstdc++ included.
void* c29_memcpy(void* d, const void* s, size_t n) asm("memcpy");
__attribute__((no_builtin)) void* c29_memcpy(void* d, const void* s, size_t n) {
  work::steps += 1 + n / 4;
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* c29_memmove(void* d, const void* s, size_t n) asm("memmove");
__attribute__((no_builtin)) void* c29_memmove(void* d, const void* s, size_t n) {
  if (reinterpret_cast<uintptr_t>(d) - reinterpret_cast<uintptr_t>(s) >= n) return c29_memcpy(d, s, n);
  work::steps += 1 + n / 4;
  auto* a = static_cast<unsigned char*>(d);
  auto* b = static_cast<const unsigned char*>(s);
  while (n >= 8) {
    uint64_t w;
    n -= 8;
    __builtin_memcpy_inline(&w, b + n, 8);
    __builtin_memcpy_inline(a + n, &w, 8);
  }
  while (n) { n--; a[n] = b[n]; asm volatile("" ::: "memory"); }
  return d;
}
void* c29_memset(void* d, int v, size_t n) asm("memset");
__attribute__((no_builtin)) void* c29_memset(void* d, int v, size_t n) {
  work::steps += 1 + n / 4;
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}
void* c29_memchr(const void* s, int v, size_t n) asm("memchr");
__attribute__((no_builtin)) void* c29_memchr(const void* s, int v, size_t n) {
  auto* p = static_cast<const unsigned char*>(s);
  size_t i = 0;
  while (i < n && p[i] != static_cast<unsigned char>(v)) { i++; asm volatile(""); }
  work::steps += 1 + i / 4;
  return i < n ? const_cast<unsigned char*>(p + i) : nullptr;
}
int c29_memcmp(const void* x, const void* y, size_t n) asm("memcmp");
__attribute__((no_builtin)) int c29_memcmp(const void* x, const void* y, size_t n) {
  auto *a = static_cast<const unsigned char*>(x), *b = static_cast<const unsigned char*>(y);
  size_t i = 0;
  while (i < n && a[i] == b[i]) { i++; asm volatile(""); }
  work::steps += 1 + i / 4;
  return i < n ? int(a[i]) - int(b[i]) : 0;
}
size_t c29_strlen(const char* s) asm("strlen");
__attribute__((no_builtin)) size_t c29_strlen(const char* s) {
  size_t i = 0;
  while (s[i]) { i++; asm volatile(""); }
  work::steps += 1 + i / 4;
  return i;
}
}

// What the work may be proportional to: the length n of the text in all its forms (bytes,
// code points, mapped, decomposed); for encoding a label, its length for each different code point
// in it; for decoding one, its length for each insertion; for ordering marks, the length of their run
// for each of them. The factors are 4 or more times what the code at hand
// was seen to need, so they say nothing about the cost of one step, only about what it multiplies with.
namespace bound {
constexpr double BASE = 4000;
struct Size {
  double n = 0, encode = 0, decode = 0, order = 0;
};
constexpr double ENCODE = 20, DECODE = 1.6, ORDER = 8;
static double of(const Size& z, double each) { return BASE + each * z.n + ENCODE * z.encode + DECODE * z.decode + ORDER * z.order; }
static double distinct(u32v l) {
  u32 s(l);
  std::sort(s.begin(), s.end());
  s.erase(std::unique(s.begin(), s.end()), s.end());
  return double(s.end() - std::lower_bound(s.begin(), s.end(), char32_t(128)));
}
static void text(Size& z, u32v s) {  // to be normalised
  u32 d = ref::nfd(s);
  z.n += double(s.size() + d.size());
  double r = 0;  // runs of marks that are out of order
  bool sorted = true;
  u32 x;
  for (char32_t c : s) {
    if (auto i = ucd::data().nfd.find(c); i != ucd::data().nfd.end()) x += i->second;
    else x.push_back(c);
  }
  for (size_t i = 0; i <= x.size(); i++) {
    if (i < x.size() && ucd::ccc(x[i])) {
      if (r && ucd::ccc(x[i]) < ucd::ccc(x[i - 1])) sorted = false;
      r++;
      continue;
    }
    if (!sorted) z.order += r * r;
    r = 0;
    sorted = true;
  }
}
static void encode(Size& z, u32v l) { z.n += double(l.size()); z.encode += double(l.size()) * distinct(l); }
static void decode(Size& z, double len) { z.n += len; z.decode += len * len; }
static void a_label(Size& z, const std::string& l) {  // what is in l after xn-- is decoded and checked
  decode(z, double(l.size()));
  auto r = ref::puny_decode(l.substr(4));
  u32 x;
  if (!ref::map(r.out, x)) x = r.out;
  text(z, r.out);
  text(z, x);
}
static Size to_unicode(const std::string& s) {
  Size z;
  z.n = double(s.size());
  for (size_t i = 0; i < s.size();) {
    size_t e = std::min(s.find('.', i), s.size());
    std::string l = ref::lower(s.substr(i, e - i));
    if (l.substr(0, 4) == "xn--") a_label(z, l);
    i = e + 1;
  }
  return z;
}
static Size to_ascii(const std::string& s) {
  Size z;
  z.n = double(s.size());
  u32 v, m;
  if (!ref::utf8_decode(s, v)) {  // what precedes the damage may be worked on
    for (unsigned char c : s) v.push_back(c);
    z.n += double(v.size());
  }
  z.n += double(v.size());
  if (!ref::map(v, m)) m = v;
  text(z, m);
  m = ref::nfc(m);
  for (auto& l : ref::split(m)) {
    encode(z, l);
    if (ref::ace_prefix(l)) {
      std::string p;
      for (char32_t c : l) p.push_back(char(c & 127));
      a_label(z, p);
    }
  }
  return z;
}
}  // namespace bound

static double worst[20];
template <class F>
static void measured(Ctx& c, int k, const char* what, double each, const bound::Size& z, F f) {
  double b = bound::of(z, each);
  uint64_t s0 = work::steps;
  f();
  double used = double(work::steps - s0);
  if (getenv("C29_SHOW") && used / b > worst[k]) {
    worst[k] = used / b;
    static FILE* show = fopen(getenv("C29_SHOW"), "a");
    fprintf(show, "%s %.3f used %.0f n %.0f enc %.0f dec %.0f ord %.0f per n %.1f %s\n", what, used / b, used, z.n, z.encode, z.decode, z.order, used / z.n, "");
    fflush(show);
  }
  if (used > b) {
    char t[200];
    snprintf(t, sizeof t, "%s took %.0f steps for %.0f units of text; in proportion would be %.0f at most", what, used, z.n, b);
    c.fail(t);
  }
}

constexpr size_t LIMIT = 16384;
// Periodic text, of code points that do not disappear or break the label unless by chance.
static u32 periodic(Tape& t, size_t n) {
  auto& p = gen::P();
  u32 unit, s;
  static const uint8_t w[] = {40, 30, 30, 30, 30, 30, 26, 20, 20};
  size_t kind = t.pick(w);
  uint32_t k = 1 + t.u(t.p(40) ? 40 : 5);
  uint32_t cp = 0x4E00 + t.u(0x4000);
  switch (kind) {
    case 0: for (; k > 0; k--) unit.push_back(gen::valid_cp(t)); break;
    case 1: for (; k > 0; k--) unit.push_back(t.of(p.markN)); s.push_back('e'); break;
    case 2: unit = gen::raw_unicode_label(t); break;
    case 3: unit = gen::nfc_text(t, 4); break;
    case 4: unit = gen::joiner_label(t); break;
    case 5: unit = gen::bidi_label(t, int(t.u(2))); break;
    case 6:  // all different
      while (s.size() < n) { s.push_back(cp++); if (cp > 0x9F00) cp = 0x3400; }
      return s;
    case 7:  // marks in falling order, in long runs
      while (s.size() < n) s.push_back(s.size() * 2 < n ? t.of(p.markN) : char32_t(0x323));
      return s;
    default: for (; k > 0; k--) unit.push_back(gen::any_cp(t)); break;
  }
  if (unit.empty()) unit = U"b";
  if (t.p(60)) unit += U".";
  while (s.size() + unit.size() <= n) s += unit;
  if (t.p(60)) { s += gen::raw_unicode_label(t); s.resize(std::min(s.size(), n)); }
  return s;
}
// Two or three parts, each one piece over and over, of kinds that meet different parts of the code.
static u32 parts(Tape& t, size_t n) {
  auto& p = gen::P();
  u32 s;
  uint32_t k = 2 + (t.p(80) ? t.u(2) : 0);
  for (uint32_t i = 0; i < k && s.size() < n; i++) {
    u32 u;
    switch (t.u(14)) {
      case 0: u = t.p(128) ? U"a" : U"\u00e9"; break;
      case 1: u = t.p(128) ? U"a." : U"\u00e9."; break;
      case 2: u.push_back(t.of(p.ignored)); break;
      case 3: u.push_back(t.of(p.markN)); break;
      case 4: u = t.p(128) ? U"\u05d0" : U"\u0628"; break;
      case 5: u = t.p(128) ? U"\u05b0" : U"\u0650"; break;
      case 6: u = t.p(128) ? U"\u0628\u200c\u0628" : U"\u0915\u094d\u200d"; break;
      case 7: u.push_back(t.p(128) ? t.of(p.mapped) : t.of(p.map_multi)); break;
      case 8: u.push_back(t.p(128) ? 0xAC00 + t.u(11172) : t.of(p.comps)); break;
      case 9: u = t.p(128) ? U"1" : U"-"; break;
      case 10: u = t.p(128) ? U"xn--9ca." : U"xn--4db."; break;
      case 11: u.push_back(gen::valid_cp(t)); break;
      case 12: u = t.of(p.pairs)[0] ? u32{char32_t(t.of(p.pairs)[0]), char32_t(t.of(p.pairs)[1])} : u32(U"b"); break;
      default: u.push_back(t.p(128) ? char32_t(gen::any_cp(t)) : char32_t(0x661)); break;
    }
    size_t room = n - s.size(), len = i + 1 == k ? room : t.p(200) ? n / k : t.u(uint32_t(n));
    for (size_t e = s.size() + std::min(len, room); s.size() + u.size() <= e;) s += u;
    if (t.p(30) && s.size() < n) s.push_back('.');
  }
  return s;
}
static size_t length(Tape& t, size_t max) { return t.p(150) ? max - t.u(30) : gen::long_len(t, max); }
static std::string cut(std::string s, size_t n) {
  if (s.size() <= n) return s;
  s.resize(n);
  while (!s.empty() && (s.back() & 0xC0) == 0x80) s.pop_back();
  if (!s.empty() && (s.back() & 0x80)) s.pop_back();
  return s;
}
static void warm_up() {
  static bool done = [] { std::string o; (void)idna::to_ascii("\xc3\xa9", o); u32 s = U"\u00e9"; (void)idna::normalize(s); (void)idna::valid_name_code_point('a', true); return true; }();
  (void)done;
}
static void domains(Ctx& c) {
  auto& t = c.t;
  std::string s;
  size_t n = length(t, LIMIT);
  static const uint8_t w[] = {40, 40, 36, 26, 20, 110};
  switch (t.pick(w)) {
    case 0: s = gen::long_domain(t, LIMIT); break;
    case 5: {  // as many of the code points as fit
      u32 u = parts(t, n);
      for (std::string b = ref::utf8(u); b.size() > n; b = ref::utf8(u)) {  // the same proportions
        u32 x;
        double f = double(n) / double(b.size()), acc = 0;
        for (char32_t c : u) if ((acc += f) >= 1) { acc -= 1; x.push_back(c); }
        if (x.size() == u.size()) x.pop_back();
        u = x;
      }
      s = ref::utf8(u);
      break;
    }
    case 1: s = cut(ref::utf8(periodic(t, n)), n); break;
    case 2:  // few or many A-labels
      for (uint32_t k = 1 + t.u(3), len = t.p(128) ? n / k : 1 + t.u(60); s.size() + 8 < n;) {
        u32 u = periodic(t, std::min<size_t>(len, n - s.size()) / (t.p(128) ? 2 : 1)), m;
        if (!t.p(60) && ref::map(u, m)) u = ref::nfc(m);
        auto e = ref::puny_encode(u);
        std::string l = "xn--" + (e.ok ? e.out : std::string("9ca"));
        s += l + ".";
        if (len < 100)  // one label, many times
          while (s.size() + l.size() < n) s += l + ".";
      }
      s = cut(s, n);
      break;
    case 3: {  // Punycode shaped
      std::string p = "xn--";
      if (t.p(128)) p += std::string(t.u(uint32_t(n)), 'a') + "-";
      std::string unit;
      for (uint32_t k = 1 + t.u(6); k > 0; k--) unit.push_back("abcdefghijklmnopqrstuvwxyz0123456789-"[t.p(180) ? t.u(3) : t.u(37)]);
      while (p.size() + unit.size() < n) p += unit;
      s = cut(p, n);
      break;
    }
    default: {
      std::string unit = t.p(100) ? "xn--" : t.p(100) ? "." : t.p(100) ? "xn--." : t.p(128) ? "\xe3\x80\x82" : "\xc3\xa9.";
      while (s.size() + unit.size() <= n) s += unit;
      if (t.p(100)) s += gen::domain(t).bytes;
      s = cut(s, n);
    }
  }
  if (t.p(60)) s = cut("\xc3\xa9." + s, LIMIT);
  if (t.p(30) && s.size() > 4) s[t.u(uint32_t(s.size()))] = char(t.u(256));
  c.show(std::to_string(s.size()) + " bytes: " + q(s));
  if (s.size() >= 64) c.nontrivial(s);
  warm_up();
  const bound::Size z = bound::to_ascii(s), zu = bound::to_unicode(s);
  c.label(s.size() > 8000 ? "above 8000 bytes" : s.size() > 500 ? "500 to 8000 bytes" : "short");
  measured(c, 0, "to_ascii", 110, z, [&] { std::string o; (void)idna::to_ascii(s, o); });
  measured(c, 1, "to_unicode", 80, zu, [&] { std::string o; (void)idna::to_unicode(s, o); });
  measured(c, 2, "to_ascii (returning)", 110, z, [&] { (void)idna::to_ascii(s); });
  measured(c, 3, "to_unicode (returning)", 80, zu, [&] { (void)idna::to_unicode(s); });
  bound::Size y;
  y.n = double(s.size());
  if (s.substr(0, 4) == "xn--") {
    size_t e = std::min(s.find('.'), s.size());
    std::string p = s.substr(4, e - 4);
    bound::Size x;
    bound::decode(x, double(p.size()));
    measured(c, 4, "verify_punycode", 50, x, [&] { (void)idna::verify_punycode(p); });
    measured(c, 5, "punycode_to_utf32", 60, x, [&] { u32 o; (void)idna::punycode_to_utf32(p, o); });
  }
  measured(c, 6, "contains_forbidden_domain_code_point", 20, y, [&] { (void)idna::contains_forbidden_domain_code_point(s); });
  measured(c, 7, "utf32_length_from_utf8", 25, y, [&] { (void)idna::utf32_length_from_utf8(s.data(), s.size()); });
  u32 v(s.size() + 1, U'\0');
  measured(c, 8, "utf8_to_utf32", 40, y, [&] { (void)idna::utf8_to_utf32(s.data(), s.size(), v.data()); });
  std::string a = s;
  measured(c, 9, "ascii_map", 20, y, [&] { idna::ascii_map(a.data(), a.size()); });
}
static void texts(Ctx& c) {
  auto& t = c.t;
  size_t n = length(t, t.p(20) ? 4 * LIMIT : LIMIT);
  u32 s = t.p(80) ? gen::long_cps(t, n) : t.p(60) ? gen::uniform_text(t, n) : t.p(110) ? parts(t, n) : periodic(t, n);
  c.show(std::to_string(s.size()) + " code points: " + q(s));
  if (s.size() >= 64) c.nontrivial(hash_bytes(s.data(), s.size() * 4));
  c.label(s.size() > 8000 ? "above 8000 code points" : s.size() > 500 ? "500 to 8000 code points" : "short");
  warm_up();
  bound::Size y, z, e;
  y.n = double(s.size());
  bound::text(z, s);
  bound::encode(e, s);
  u32 o;
  measured(c, 10, "map", 60, [&] { bound::Size x = y; u32 m; ref::map(s, m); x.n += double(m.size()); return x; }(), [&] { u32 m; (void)idna::map(s, m); });
  measured(c, 11, "normalize", 110, z, [&] { u32 m(s); (void)idna::normalize(m); });
  measured(c, 12, "is_already_nfc", 110, z, [&] { (void)idna::is_already_nfc(s); });
  if (ref::stable(s) && !ref::ace_prefix(s) && s.find(U'.') == s.npos) {
    c.label("label");
    measured(c, 13, "is_label_valid", 250, y, [&] { (void)idna::is_label_valid(s); });
    measured(c, 14, "is_rtl_label", 80, y, [&] { (void)idna::is_rtl_label(s); });
  }
  if (e.encode < 5e7) measured(c, 15, "utf32_to_punycode", 60, e, [&] { std::string m; (void)idna::utf32_to_punycode(s, m); });
  measured(c, 16, "utf8_length_from_utf32", 25, y, [&] { (void)idna::utf8_length_from_utf32(s.data(), s.size()); });
  std::string b(s.size() * 4 + 4, '\0');
  measured(c, 17, "utf32_to_utf8", 40, y, [&] { (void)idna::utf32_to_utf8(s.data(), s.size(), b.data()); });
}
PBT_MAIN("default", {"domains", domains, 4000, 60000}, {"texts", texts, 2000, 40000})
