// The whole-library conformance suite, run against builds of the library other
// than the default one (C18 amalgamated, C19 simdutf, C20 big-endian tables).
#pragma once
#include "../lib/props.hpp"
using namespace props;
namespace conf {
inline void domain(Ctx& c) { to_ascii_is(c, gen::domain(c.t).bytes); }
inline std::string ace_domain(Tape& t) {
  std::string s;
  for (uint32_t n = 1 + t.u(3); n > 0; n--) {
    static const uint8_t w[] = {150, 40, 40};
    switch (t.pick(w)) {
      case 0: s += gen::ace_label(t); break;
      case 1: s += ref::utf8(gen::ascii_label(t)); break;
      default: s += ref::utf8(gen::raw_unicode_label(t)); break;
    }
    if (n > 1 || t.p(20)) s += '.';
  }
  return s;
}
inline void unicode(Ctx& c) { to_unicode_is(c, ace_domain(c.t)); }
inline void blocks(Ctx& c) {  // sweep: one block of 256 code points
  uint32_t b = uint32_t(c.idx) * 256;
  c.show("code points U+" + printable(u32(1, char32_t(b))) + " and the 255 after it: map, NFC, name code point");
  u32 buf = U"junk";
  for (uint32_t cp = b; cp < b + 256; cp++) {
    char32_t s[1] = {char32_t(cp)};
    map_is(c, u32v(s, 1), buf);
    if (ref::scalar(cp)) nfc_is(c, u32v(s, 1));
    name_cp_is(c, cp);
  }
  c.show("blocks");
  c.nontrivial(c.idx);
}
inline void longer(Ctx& c) { if (c.t.p(90)) to_unicode_is(c, gen::long_text<std::string>(c.t, gen::long_len(c.t, ref::kLimit), 'a', [&] { return ace_domain(c.t) + "."; })); else to_ascii_is(c, gen::long_domain(c.t, ref::kLimit)); }
inline void nfc_random(Ctx& c) { u32 s = gen::nfc_text(c.t, 10); c.nontrivial(s); nfc_is(c, s); }
inline void puny(Ctx& c) { puny_decode_is(c, gen::puny_text(c.t)); }
}  // namespace conf
