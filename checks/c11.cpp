// C11: valid_name_code_point, for every 21-bit code point and beyond.
#include "../lib/props.hpp"
using namespace props;
static void each(Ctx& c) {
  uint32_t b = uint32_t(c.idx) * 256;
  for (uint32_t cp = b; cp < b + 256; cp++) name_cp_is(c, cp);
  c.nontrivial(c.idx);
  c.show("every code point of block " + std::to_string(b));
}
static void order(Ctx& c) {  // any order of queries, and values beyond U+10FFFF
  std::string d = "valid_name_code_point:";
  u32 s;
  for (uint32_t k = 1 + c.t.u(12); k > 0; k--) {
    uint32_t cp = c.t.p(40) ? c.t.u32() : c.t.p(40) ? gen::beyond(c.t) : c.t.p(80) ? c.t.of(gen::P().edges) : gen::any_cp(c.t);
    if (!s.empty() && c.t.p(60)) cp = gen::kin(c.t, s[c.t.u(uint32_t(s.size()))]);
    s.push_back(cp);
    name_cp_is(c, cp);
  }
  c.show("valid_name_code_point over " + q(s));
  c.nontrivial(s);
}
static void near(Ctx& c) {  // after every code point, each value that differs from it in one bit
  uint32_t b = uint32_t(c.idx) * 256;
  for (uint32_t cp = b; cp < b + 256; cp++)
    for (int k = 0; k < 32; k++) {
      (void)idna::valid_name_code_point(cp, k & 1);
      name_cp_is(c, cp ^ (1u << k));
    }
  c.nontrivial(c.idx);
  c.show("every code point of block " + std::to_string(b) + ", each followed by all that differ in one bit");
}
PBT_MAIN("default", {"each-code-point", each, 0x1200, 0x1200, true}, {"one-bit-apart", near, 0x1100, 0x1100, true}, {"order", order, 400000, 8000000})
