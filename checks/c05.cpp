// C05: map is the UTS #46 mapping table applied code point by code point.
#include "../lib/props.hpp"
using namespace props;
static void each(Ctx& c) {
  uint32_t b = uint32_t(c.idx) * 256;
  u32 buf = U"junk that was there before";
  for (uint32_t cp = b; cp < b + 256; cp++) {
    map_is(c, u32(1, char32_t(cp)), buf);
    map_is(c, u32{U'a', char32_t(cp), 0xFDFA, char32_t(cp)}, buf);
  }
  c.nontrivial(c.idx);
  c.show("every code point of a block of 256");
}
static void strings(Ctx& c) {
  auto& t = c.t;
  u32 buf(t.u(40), U'?');
  for (uint32_t n = 1 + t.u(3); n > 0; n--) {  // the buffer is reused
    u32 s;
    bool hostile = t.p(20), safe = t.p(170);
    for (uint32_t k = t.size(200); k > 0; k--) {
      uint32_t cp = hostile && t.p(30) ? (t.p(80) ? t.u32() : t.p(100) ? gen::beyond(t) : 0xD800 + t.u(0x800)) : gen::any_cp(t);
      if (safe && ucd::status(cp) == ucd::D) cp = t.of(gen::P().mapped);
      s.push_back(cp);
    }
    if (t.p(30)) {
      gen::add_kin(t, s);
      if (safe) for (auto& x : s) if (ucd::status(x) == ucd::D) x = U'k';
    }
    map_is(c, s, buf);
    u32 m;
    bool ok = ref::map(s, m);
    c.label(!ok ? "disallowed" : m == s ? "unchanged" : "changed");
    if (!ok || m != s) c.nontrivial(s);
    u32 fresh;
    if (!ok && !idna::map(s, fresh)) { (void)idna::map(s, buf); if (buf != fresh) c.fail("a failed map left " + q(buf) + " in a used buffer and " + q(fresh) + " in a fresh one"); }
  }
}
static void stable(Ctx& c) {  // mapping its own result changes nothing once normalised
  auto& t = c.t;
  u32 s;
  for (uint32_t k = 1 + t.size(30); k > 0; k--) s.push_back(t.p(128) ? t.of(gen::P().mapped) : t.of(gen::P().valid));
  c.show("map(" + q(s) + ") twice");
  u32 m, m2;
  if (!idna::map(s, m)) c.fail("rejected a string of valid and mapped code points");
  c.nontrivial(s);
  if (!idna::normalize(m)) c.fail("normalize failed");
  u32 n = m;
  if (!idna::map(n, m2)) c.fail("the mapped string " + q(n) + " is rejected when mapped again");
  if (!idna::normalize(m2) || m2 != n) c.fail("mapping " + q(n) + " again gave " + q(m2));
}
static void longer(Ctx& c) {
  u32 s = gen::long_cps(c.t, 20000), buf(c.t.u(40), U'?');
  bool safe = c.t.p(200);
  if (safe) for (auto& x : s) if (ucd::status(x) == ucd::D) x = 0x1E9E;
  c.nontrivial(s);
  map_is(c, s, buf);
}
static void huge(Ctx& c) {
  auto& t = c.t;
  u32 s = gen::huge_cps(t), buf(t.u(40), U'?');
  if (t.p(60)) { s.resize(s.size() / 16); for (auto& x : s) if (t.p(250)) x = 0xFDFA; }  // 18 code points each
  if (t.p(200)) for (auto& x : s) if (ucd::status(x) == ucd::D) x = 0x1E9E;
  c.nontrivial(s);
  map_is(c, s, buf);
}
static void near(Ctx& c) {  // every code point next to those that differ from it in one bit
  uint32_t b = uint32_t(c.idx) * 256;
  u32 buf;
  for (uint32_t cp = b; cp < b + 256; cp++) {
    if (ucd::status(cp) == ucd::D) continue;
    for (int k = 0; k < 21; k++) map_is(c, u32{char32_t(cp), char32_t(cp ^ (1u << k)), char32_t(cp)}, buf);
    map_is(c, u32{char32_t(cp), char32_t(cp + 0x10000), char32_t(cp)}, buf);
  }
  c.nontrivial(c.idx);
  c.show("every code point of a block of 256, next to each that differs in one bit");
}
static void each_position(Ctx& c) {  // code points of every kind at a position further on
  auto& p = gen::P();
  u32 buf;
  for (char32_t f : {U'a', U'A', char32_t(0xAD), char32_t(0xFDFA), char32_t(0x1F600)})
    for (size_t k = 0; k < 40; k++) {
      auto& v = k % 5 == 0 ? p.valid : k % 5 == 1 ? p.mapped : k % 5 == 2 ? p.ignored : k % 5 == 3 ? p.disallowed : p.map_multi;
      u32 odd(1, char32_t(v[(k * 7919 + c.idx * 40 + k) % v.size()]));
      if (k == 39) odd[0] = 0x110000 + char32_t(c.idx);
      map_is(c, gen::at_position(f == 0xFDFA ? c.idx / 18 : c.idx, f, odd, gen::after_position(c.idx, k)), buf);
    }
  c.show("code points of every kind after " + std::to_string(c.idx) + " others");
}
PBT_MAIN("default", {"each-code-point", each, 0x1100, 0x1100, true}, {"one-bit-apart", near, 0x1100, 0x1100, true}, {"each-position", each_position, 0x440, 0x440, true}, {"strings", strings, 1200000, 20000000}, {"stable", stable, 400000, 6000000}, {"long", longer, 5000, 100000}, {"huge", huge, 200, 6000})
