// C09: UTF-8 / UTF-32 transcoding accepts exactly well-formed text and is lossless.
#include "../lib/props.hpp"
using namespace props;
// The buffers are exactly as large as the length functions say; guard words follow.
static void from8(Ctx& c, const std::string& s, bool show = true) {
  if (show) c.show("utf8_to_utf32(" + q(s) + ")");
  u32 want;
  bool ok = ref::utf8_decode(s, want);
  size_t len = idna::utf32_length_from_utf8(s.data(), s.size());
  if (ok && len != want.size()) { c.show(q(s)); c.fail("utf32_length_from_utf8 gave " + std::to_string(len) + ", there are " + std::to_string(want.size()) + " code points"); }
  if (len > s.size()) { c.show(q(s)); c.fail("utf32_length_from_utf8 exceeds the number of bytes"); }
  static thread_local std::vector<char32_t> buf;
  buf.assign(std::max(len, s.size()) + 2, 0xDEADBEEF);
  size_t n = idna::utf8_to_utf32(s.data(), s.size(), buf.data());
  if (n != (ok ? want.size() : 0)) { c.show(q(s)); c.fail("utf8_to_utf32 returned " + std::to_string(n) + (ok ? " for well-formed text" : " for ill-formed text")); }
  for (size_t i = 0; i < n; i++)
    if (buf[i] != want[i]) { c.show(q(s)); c.fail("decoded to " + q(u32v(buf.data(), n)) + ", expected " + q(u32v(want))); }
  if (ok)
    for (size_t i = want.size(); i < buf.size(); i++)
      if (buf[i] != 0xDEADBEEF) { c.show(q(s)); c.fail("wrote past the length it reported"); }
}
static void from32(Ctx& c, u32v s, bool show = true) {
  if (show) c.show("utf32_to_utf8(" + q(s) + ")");
  bool ok = std::all_of(s.begin(), s.end(), [](char32_t x) { return ref::scalar(x); });
  std::string want = ok ? ref::utf8(s) : "";
  size_t len = idna::utf8_length_from_utf32(s.data(), s.size());
  if (ok && len != want.size()) { c.show(q(s)); c.fail("utf8_length_from_utf32 gave " + std::to_string(len) + ", expected " + std::to_string(want.size())); }
  static thread_local std::vector<char> buf;
  buf.assign(std::max(len, s.size() * 4) + 2, char(0xCC));
  size_t n = idna::utf32_to_utf8(s.data(), s.size(), buf.data());
  if (n != want.size()) { c.show(q(s)); c.fail("utf32_to_utf8 returned " + std::to_string(n) + ", expected " + std::to_string(want.size())); }
  if (ok && std::string_view(buf.data(), n) != want) { c.show(q(s)); c.fail("encoded to " + q(std::string_view(buf.data(), n))); }
  if (ok)
    for (size_t i = n; i < buf.size(); i++)
      if (buf[i] != char(0xCC)) { c.show(q(s)); c.fail("wrote past the length it reported"); }
}
static void each(Ctx& c) {  // every 32-bit value up to U+11FFFF
  uint32_t b = uint32_t(c.idx) * 256;
  for (uint32_t cp = b; cp < b + 256; cp++) {
    char32_t s[3] = {U'a', char32_t(cp), U'z'};
    from32(c, u32v(s + 1, 1), false);
    from32(c, u32v(s, 3), false);
    std::string u;
    ref::utf8_put(u, cp);
    from8(c, u, false);
    from8(c, "12345678" + u, false);
    from8(c, u + "12345678", false);
  }
  c.nontrivial(c.idx);
  c.show("every code point of a block of 256");
}
static void bytes2(Ctx& c) {  // every two-byte string after the given byte
  uint32_t a = uint32_t(c.idx);
  std::string s(1, char(a));
  from8(c, s, false);
  for (uint32_t b = 0; b < 256; b++) {
    s = {char(a), char(b)};
    from8(c, s, false);
    for (uint32_t d = 0; d < 256; d++) {
      s = {char(a), char(b), char(d)};
      from8(c, s, false);
      if (a >= 0xE0) {
        static const unsigned char e[] = {0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xF0};
        for (unsigned char x : e) { s = {char(a), char(b), char(d), char(x)}; from8(c, s, false); }
      }
    }
  }
  c.nontrivial(hash_bytes(&a, 4));
  c.show("every string of up to 3 bytes that starts with the byte " + std::to_string(a) + ", and 4 bytes with a boundary last byte");
}
static void random8(Ctx& c) {
  auto& t = c.t;
  std::string s;
  bool dmg = t.p(128);
  for (uint32_t k = t.size(80); k > 0; k--) {
    uint32_t x = t.p(100) ? gen::ldh(t) : gen::any_cp(t);
    if (dmg && t.p(10)) x = 0xD800 + t.u(0x800);
    if (dmg && t.p(6)) x = 0x110000 + t.u(0x1000);
    ref::utf8_put(s, x);
  }
  if (dmg && !s.empty())
    for (uint32_t k = 1 + t.u(2); k > 0 && !s.empty(); k--) {
      size_t i = t.u(uint32_t(s.size()));
      switch (t.u(5)) {
        case 0: s[i] = char(t.byte()); break;
        case 1: s.insert(s.begin() + long(i), char(0x80 + t.u(128))); break;
        case 2: s.erase(i, 1); break;
        case 3: s.resize(i); break;
        default: s[i] = char(uint8_t(s[i]) ^ (1u << t.u(8)));
      }
    }
  u32 o;
  c.label(!ref::utf8_decode(s, o) ? "ill-formed" : ref::ascii(s) ? "ASCII" : "well-formed");
  c.nontrivial(s);
  from8(c, s);
}
static void random32(Ctx& c) {
  auto& t = c.t;
  u32 s;
  bool dmg = t.p(60);
  for (uint32_t k = t.size(80); k > 0; k--) s.push_back(t.p(100) ? gen::ldh(t) : gen::any_cp(t));
  if (dmg && !s.empty()) s[t.u(uint32_t(s.size()))] = t.p(100) ? 0xD800 + t.u(0x800) : t.p(80) ? 0x110000 + t.u(16) : t.p(180) ? gen::beyond(t) : t.u32();
  c.nontrivial(s);
  from32(c, s);
}
static void alignment(Ctx& c) {  // a non-ASCII or bad sequence at every offset, ASCII around it, every buffer alignment
  auto& t = c.t;
  std::string mid;
  if (t.p(128)) ref::utf8_put(mid, gen::any_cp(t));
  else for (uint32_t k = 1 + t.u(4); k > 0; k--) mid += char(0x80 + t.u(128));
  uint32_t n = t.u(40);
  std::string base(n, 'a');
  for (uint32_t p = 0; p <= n; p++) {
    std::string s = base;
    s.insert(p, mid);
    std::vector<char> raw(s.size() + 8);
    uint32_t off = t.u(8);
    memcpy(raw.data() + off, s.data(), s.size());
    c.show("utf8_to_utf32(" + q(s) + ") at offset " + std::to_string(off));
    from8(c, s, false);
    u32 w;
    bool ok = ref::utf8_decode(s, w);
    std::vector<char32_t> o(s.size() + 1);
    if (idna::utf8_to_utf32(raw.data() + off, s.size(), o.data()) != (ok ? w.size() : 0)) c.fail("result depends on the buffer's alignment");
  }
  c.nontrivial(mid + base);
}
static void longer(Ctx& c) {
  auto& t = c.t;
  u32 s = gen::long_cps(t, 20000);
  c.nontrivial(s);
  from32(c, s);
  std::string u = ref::utf8(s);
  from8(c, u);
  if (s.empty() || u.empty()) return;
  for (uint32_t k = 1 + t.u(3); k > 0; k--) {
    auto v = u;
    v[t.u(uint32_t(v.size()))] = char(t.byte());
    from8(c, v);
    auto x = s;
    x[t.u(uint32_t(x.size()))] = t.p(128) ? 0xD800 + t.u(0x800) : t.u32();
    from32(c, x);
  }
}
static void beyond(Ctx& c) {  // one bit too many, at every place of a short text
  uint32_t bit = 1u << c.idx;
  for (char32_t ch : {U'a', U'\0', U'\x7f', char32_t(0xE9), char32_t(0x4E00), char32_t(0x1F600)})
    for (char32_t f : {U'a', char32_t(0xE9), char32_t(0x4E00)})
      for (uint32_t n = 1; n <= 20; n++)
        for (uint32_t p = 0; p < n; p++) {
          u32 s(n, f);
          s[p] = ch ^ bit;
          from32(c, s, false);
          s[p ? p - 1 : 0] ^= bit;
          from32(c, s, false);
        }
  c.nontrivial(c.idx);
  c.show("bit " + std::to_string(c.idx) + " of a value changed");
}
static void huge(Ctx& c) {
  auto& t = c.t;
  u32 s = gen::huge_cps(t);
  c.nontrivial(s);
  from32(c, s);
  std::string u = ref::utf8(s);
  from8(c, u);
  u[t.u(uint32_t(u.size()))] = char(t.byte());
  from8(c, u);
  s[t.u(uint32_t(s.size()))] = t.p(128) ? 0xD800 + t.u(0x800) : gen::beyond(t);
  from32(c, s);
}
static void each_position(Ctx& c) {  // sequences of every kind, well-formed or not, at a position further on
  static const char* odd[] = {"", "\x7f", "\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc2", "\xc2\x80", "\xdf\xbf", "\xc2\xc0", "\xdf\x7f", "\xe0\x9f\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xe2\x80", "\xe2\x28\xa1", "\xe2\x82\x28", "\xe2\x82\xc0", "\xf0\x8f\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf7\xbf\xbf\xbf", "\xf8\x88\x80\x80\x80", "\xfe", "\xff", "\xf0\x9f\x98", "\xf0\x28\x8c\xbc", "\xf0\x90\x28\xbc", "\xf0\x90\x8c\x28", "\xf0\x90\x8c\xc0"};
  size_t k = 0;
  for (const char* o : odd)
    for (const char* f : {"a", "\xc3\xa9", "\xe4\xb8\x80", "\xf0\x9f\x98\x80"}) {
      std::string s, g = f;
      for (size_t i = c.idx / g.size(); i > 0; i--) s += g;
      s.resize(c.idx, 'a');
      s += o;
      for (size_t i = gen::after_position(c.idx, k++); i > 0; i--) s += f;
      from8(c, s, false);
    }
  static const char32_t odd32[] = {0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x200061, 0x80000061, 0xFFFFFFFF, 0x100000, 0xFFFE};
  for (char32_t o : odd32)
    for (char32_t f : {U'a', char32_t(0xE9), char32_t(0x4E00), char32_t(0x1F600)}) from32(c, gen::at_position(c.idx, f, u32(1, o), gen::after_position(c.idx, k++)), false);
  c.nontrivial(c.idx);
  c.show("sequences of every kind after " + std::to_string(c.idx) + " bytes, or values after as many");
}
PBT_MAIN("default", {"each-code-point", each, 0x1200, 0x1200, true}, {"each-position", each_position, 0x440, 0x440, true}, {"short-byte-strings", bytes2, 256, 256, true}, {"utf8", random8, 1500000, 25000000}, {"utf32", random32, 600000, 9000000}, {"alignment", alignment, 60000, 900000}, {"long", longer, 6000, 120000}, {"bits", beyond, 32, 32, true}, {"huge", huge, 160, 5000})
