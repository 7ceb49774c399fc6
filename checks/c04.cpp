// C04: to_unicode decodes exactly the valid A-labels, and inverts to_ascii.
#include "conf.hpp"
static void conform(Ctx& c) { to_unicode_is(c, conf::ace_domain(c.t)); }
static void upper(Ctx& c) {
  std::string s = conf::ace_domain(c.t);
  for (char& ch : s) if (ch >= 'a' && ch <= 'z' && c.t.p(80)) ch = char(ch - 32);
  to_unicode_is(c, s);
}
static void valid_ace(Ctx& c) {  // mostly decodable
  auto& t = c.t;
  std::string s;
  for (uint32_t n = 1 + t.u(3); n > 0; n--) {
    u32 l, m;
    for (uint32_t k = 1 + t.size(20); k > 0; k--) l.push_back(gen::valid_cp(t));
    if (!ref::map(l, m)) m = U"\u00e9";
    m = ref::nfc(m);
    auto e = ref::puny_encode(m);
    s += ref::ascii(m) ? ref::utf8(m) : "xn--" + e.out;
    if (n > 1 || t.p(20)) s += '.';
  }
  to_unicode_is(c, s);
}
static void bytes(Ctx& c) {  // labels are opaque bytes unless they are A-labels
  std::string s;
  for (uint32_t n = c.t.size(100); n > 0; n--) s += c.t.p(40) ? std::string(".") : c.t.p(40) ? std::string("xn--") : std::string(1, char(c.t.byte()));
  to_unicode_is(c, s);
}
static void trip(Ctx& c, const std::string& in) {
  c.show("round trip of " + q(in));
  std::string a, u, a2, u2;
  if (ref::ascii(in) || !idna::to_ascii(in, a)) { c.label("round trip: not accepted"); return; }
  c.label("round trip: accepted");
  if (a.size() > ref::kLimit) { c.label("round trip: longer than to_unicode takes"); return; }  // mapping can multiply the length
  c.nontrivial(in);
  if (!idna::to_unicode(a, u)) c.fail("to_unicode failed on " + q(a));
  // no A-label may be left undecoded: to_ascii made or checked each of them
  for (size_t i = 0; i <= u.size();) {
    size_t d = u.find('.', i);
    if (u.compare(i, 4, "xn--") == 0) c.fail("to_unicode left an A-label of " + q(a) + " undecoded: " + q(u));
    if (d == std::string::npos) break;
    i = d + 1;
  }
  if (u.size() > ref::kLimit) { c.label("round trip: U-labels longer than to_ascii takes"); return; }
  if (!idna::to_ascii(u, a2) || a2 != a) c.fail("to_ascii(to_unicode(" + q(a) + ")) gave " + q(a2) + " by way of " + q(u));
  if (!idna::to_unicode(u, u2) || u2 != u) c.fail("to_unicode is not idempotent: " + q(u) + " became " + q(u2));
}
static void round_trip(Ctx& c) { trip(c, gen::domain(c.t).bytes); }
static void longer(Ctx& c) {
  if (c.t.p(128)) { trip(c, gen::long_domain(c.t, ref::kLimit)); return; }
  auto& t = c.t;
  std::string s;
  if (t.p(128)) {  // many labels
    s = gen::long_text<std::string>(t, gen::long_len(t, ref::kLimit), 'a', [&] { return conf::ace_domain(t) + "."; });
  } else {  // long ones
    for (uint32_t n = 1 + t.u(2); n > 0; n--) {
      u32 l = gen::long_cps(t, 4000), m;
      if (ref::map(l, m)) l = ref::nfc(m);
      auto e = ref::puny_encode(l);
      s += "xn--" + e.out + (n > 1 ? "." : "");
    }
  }
  to_unicode_is(c, s);
}
static void sparse(Ctx& c) {
  if (c.t.p(60)) trip(c, gen::sparse_domain(c.t, ref::kLimit));
  else to_unicode_is(c, gen::sparse_domain(c.t, ref::kLimit));
}
static void each(Ctx& c) {
  uint32_t b = uint32_t(c.idx) * 64;
  for (uint32_t cp = b; cp < b + 64; cp++) {
    if (!ref::scalar(cp)) continue;
    for (int k = 0; k < 4; k++) {
      u32 l = k == 0 ? u32(1, char32_t(cp)) : k == 1 ? U"a" + u32(1, char32_t(cp)) : k == 2 ? u32{0x5D0, char32_t(cp)} : u32{char32_t(cp), 0x5D0};
      to_unicode_is(c, "xn--" + ref::puny_encode(l).out);
    }
  }
  c.show("the A-labels of every code point of a block of 64, in 4 contexts");
}
static void each_position(Ctx& c) {  // A-labels, or nearly, at a position further on, and of as many code points
  auto& p = gen::P();
  const size_t n = c.idx;
  const std::string odd[] = {"xn--9ca", "XN--9CA", "xn--a", "xn--", "xn--a-ecp", "xn-9ca", "xn--9ca-", "xn--u-ccb", "xn--4db", "xn--\xc3\xa9", "xn--99999999", "xn--xn---epa", "xn--zca", "xn--lzg", "Xn--4Ca"};
  size_t k = n;
  for (auto& o : odd) {
    std::string s(n, 'a');
    for (size_t i = 1; i < n && k % 2; i += 2) s[i] = '.';
    if (n) s.back() = '.';
    to_unicode_is(c, s + o + (k % 4 ? "" : ".") + (k % 8 ? "" : "b"));
    k++;
  }
  for (size_t j = 0; j < 8; j++) {
    auto& v = j < 3 ? p.valid : j < 4 ? p.mapped : j < 5 ? p.disallowed : j < 6 ? p.markN : j < 7 ? p.ignored : p.comps;
    u32 l = gen::at_position(n, j & 1 ? U'a' : char32_t(0xE8), u32(1, char32_t(v[(n * 7919 + j) % v.size()])), gen::after_position(n, j));
    to_unicode_is(c, "xn--" + ref::puny_encode(l).out);
  }
  c.nontrivial(n);
  c.show("A-labels after " + std::to_string(n) + " bytes, or with something after as many code points");
}
PBT_MAIN("default", {"each-code-point", each, 0x4400, 0x4400, true}, {"each-position", each_position, 0x440, 0x440, true}, {"conform", conform, 800000, 12000000}, {"upper", upper, 200000, 3000000}, {"valid-ace", valid_ace, 300000, 5000000}, {"bytes", bytes, 300000, 5000000}, {"round-trip", round_trip, 800000, 12000000}, {"long", longer, 6000, 120000}, {"sparse", sparse, 15000, 300000})
