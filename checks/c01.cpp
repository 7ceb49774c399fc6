// C01: to_ascii is UTS #46 ToASCII (WHATWG parameters), for every input.
#include "../lib/props.hpp"
using namespace props;
static void domain(Ctx& c) { to_ascii_is(c, gen::domain(c.t).bytes); }
// Bidi domains with several labels, ASCII and ACE labels included.
static void bidi(Ctx& c) {
  auto& t = c.t;
  std::string s;
  for (uint32_t n = 1 + t.u(4), i = 0; i < n; i++) {
    if (i) s += '.';
    static const uint8_t w[] = {120, 40, 40, 30};
    switch (t.pick(w)) {
      case 0: s += ref::utf8(gen::bidi_label(t, t.p(150))); break;
      case 1: { auto l = gen::bidi_label(t, t.p(150)); auto e = ref::puny_encode(l); s += ref::ascii(l) ? ref::utf8(l) : "xn--" + e.out; break; }
      case 2: for (uint32_t k = 1 + t.u(4); k > 0; k--) s += char("a1-z0+_ "[t.u(8)]); break;
      default: s += ref::utf8(gen::mixed_label(t));
    }
  }
  to_ascii_is(c, s);
}
static void joiner(Ctx& c) {
  std::string s = ref::utf8(gen::joiner_label(c.t));
  if (c.t.p(60)) s += "." + ref::utf8(gen::joiner_label(c.t));
  to_ascii_is(c, s);
}
// Long labels and many labels.
static void large(Ctx& c) {
  auto& t = c.t;
  std::string s;
  uint32_t n = 1 + t.u(3);
  for (uint32_t i = 0; i < n; i++) {
    std::string part = gen::domain(t, true).bytes;
    uint32_t rep = 1 + t.u(120);
    for (uint32_t k = 0; k < rep && s.size() + part.size() < 3000; k++) { s += part; if (t.p(60)) s += '.'; }
  }
  to_ascii_is(c, s);
}
// Every code point on its own, inside a label, in a Bidi domain, as an A-label.
static void each(Ctx& c) {
  uint32_t b = uint32_t(c.idx) * 64;
  for (uint32_t cp = b; cp < b + 64; cp++) {
    if (!ref::scalar(cp)) continue;
    std::string u;
    ref::utf8_put(u, cp);
    to_ascii_is(c, u);
    to_ascii_is(c, "a" + u + "\xc3\xa9.b");
    if (ucd::status(cp) != ucd::D) {
      to_ascii_is(c, u + ".\xd7\x90");
      to_ascii_is(c, "\xd7\x90" + u + "\xd7\x90");
      auto e = ref::puny_encode(u32(1, char32_t(cp)) + U"b");
      to_ascii_is(c, "xn--" + e.out + ".\xc3\xa9");
    }
  }
  c.show("every code point of a block of 64, in 5 contexts");
}
static void longer(Ctx& c) { to_ascii_is(c, gen::long_domain(c.t, ref::kLimit)); }
static void sparse(Ctx& c) { to_ascii_is(c, gen::sparse_domain(c.t, ref::kLimit)); }
static void each_position(Ctx& c) {  // pieces of every kind at a position further on
  auto& p = gen::P();
  auto one = [](uint32_t x) { return ref::utf8(u32(1, char32_t(x))); };
  const size_t n = c.idx;
  const std::string odd[] = {"\xc3\xa9", ".\xc3\xa9", "e\xcc\x81", "\xd7\x90", "\xd7\x90" "1\xd9\xa1", ".xn--9ca", ".xn--a", ".xn--", ".xn--a-ecp.\xc3\xa9", ".XN--9CA.\xc3\xa9", "\xe2\x80\x8d", "\xe0\xa5\x8d\xe2\x80\x8d", "\xef\xbf\xbd", "\xc3", "\xc2\xad", "\xef\xbc\x8e\xc3\x9f", ".\xcc\x81", "\xc3\xa9%", "\xc3\xa9.%", "\xf0\x9f\x98\x80", "\xc3\xa9..", "\xc3\xa9.", one(p.mapped[n * 7919 % p.mapped.size()]), one(p.disallowed[n * 7919 % p.disallowed.size()]), one(p.valid[n * 7919 % p.valid.size()]), "." + one(p.markN[n * 31 % p.markN.size()]), "-\xc3\xa9", "\xc3\xa9\xc3\xa8"};
  size_t k = n;
  for (auto& o : odd) {
    const size_t a = gen::after_position(n, k);
    std::string s(n, 'a');
    if (k % 3 == 1) for (size_t i = 1; i < n; i += 2) s[i] = '.';
    if (k % 3 == 2 && n < 400) { s.clear(); for (size_t i = 0; i < n; i++) s += "\xc3\xa8"; }
    to_ascii_is(c, s + o + std::string(a, 'b'));
    k++;
  }
  c.nontrivial(n);
  c.show("pieces of every kind after " + std::to_string(n) + " others");
}
PBT_MAIN("default", {"each-code-point", each, 0x4400, 0x4400, true}, {"each-position", each_position, 0x440, 0x440, true}, {"domain", domain, 1600000, 30000000}, {"bidi", bidi, 600000, 10000000}, {"joiner", joiner, 600000, 10000000}, {"large", large, 20000, 400000}, {"long", longer, 8000, 150000}, {"sparse", sparse, 15000, 300000})
