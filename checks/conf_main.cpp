// C18, C19, C20: the conformance suite against another build of the library.
#include "conf.hpp"
#ifndef CONF_NAME
#define CONF_NAME "default"
#endif
static void names(Ctx& c) { u32 s; for (uint32_t k = 4; k > 0; k--) { uint32_t x = gen::any_cp(c.t); s.push_back(x); name_cp_is(c, x); } c.show("valid_name_code_point over " + q(s)); c.nontrivial(s); }
static void labels(Ctx& c) {
  u32 l = gen::raw_unicode_label(c.t), m;
  if (ref::map(l, m)) l = ref::nfc(m);
  if (!ref::stable(l) || ref::ace_prefix(l) || l.find(U'.') != l.npos) return;
  c.show("is_label_valid(" + q(l) + ")");
  c.nontrivial(l);
  if (idna::is_label_valid(l) != ref::label_valid(l)) c.fail("is_label_valid is wrong");
  if (idna::is_label_valid(l, true) != (ref::label_valid_nobidi(l) && ref::bidi_rule(l))) c.fail("is_label_valid in a Bidi domain is wrong");
  if (idna::is_rtl_label(l) != ref::rtl_content(l)) c.fail("is_rtl_label is wrong");
}
static void encode(Ctx& c) { u32 s = gen::raw_unicode_label(c.t); c.nontrivial(s); puny_encode_is(c, s); }
static void bytes(Ctx& c) {
  std::string s;
  for (uint32_t k = c.t.size(60); k > 0; k--) ref::utf8_put(s, c.t.p(20) ? 0xD7FE + c.t.u(0x804) : c.t.p(8) ? 0x10FFFE + c.t.u(4) : gen::any_cp(c.t));
  if (c.t.p(128) && !s.empty()) s[c.t.u(uint32_t(s.size()))] = char(c.t.byte());
  to_ascii_is(c, s);
}
PBT_MAIN(CONF_NAME, {"code-points", conf::blocks, 0x1100, 0x1100, true}, {"long", conf::longer, 5000, 100000}, {"domain", conf::domain, 700000, 10000000}, {"bytes", bytes, 300000, 5000000}, {"to_unicode", conf::unicode, 500000, 8000000}, {"nfc", conf::nfc_random, 500000, 8000000}, {"label", labels, 300000, 5000000}, {"decode", conf::puny, 300000, 5000000}, {"encode", encode, 300000, 5000000}, {"name", names, 200000, 3000000})
