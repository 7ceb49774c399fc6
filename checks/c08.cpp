// C08: verify_punycode accepts exactly what punycode_to_utf32 decodes.
#include "../lib/props.hpp"
using namespace props;
static void same(Ctx& c, const std::string& s) {
  c.show("verify_punycode(" + q(s) + ")");
  u32 out;
  bool d = idna::punycode_to_utf32(s, out), v = idna::verify_punycode(s);
  c.label(d ? "decodes" : "does not decode");
  c.nontrivial(s);
  if (d != v) c.fail(std::string("verify_punycode says ") + (v ? "true" : "false") + ", punycode_to_utf32 says " + (d ? "true" : "false"));
  auto r = ref::puny_decode(s);
  if (r.ok && !r.over31 && !r.nonscalar && v == ref::ace_prefix(r.out)) c.fail(v ? "accepted a doubly encoded label" : "rejected a well-formed label");
  if (!r.ok && v) c.fail("accepted malformed Punycode");
}
static void text(Ctx& c) { same(c, gen::puny_text(c.t)); }
static void prefix(Ctx& c) {  // labels whose decoding starts, or nearly starts, with "xn--", inserted in any order
  auto& t = c.t;
  static const u32 near[] = {U"xn--", U"xn-", U"xn-a", U"xm--", U"n--", U"x\u00e9--", U"xn\u00e9--", U"\u00e9xn--", U"xn--\u00e9", U"xn-\u00e9-", U"Xn--", U"xn\u4e00-"};
  u32 s = near[t.u(12)];
  for (uint32_t k = t.u(8); k > 0; k--) s.insert(s.begin() + long(t.u(uint32_t(s.size() + 1))), char32_t(t.p(100) ? uint32_t("xn-a"[t.u(4)]) : gen::any_cp(t)));
  auto e = ref::puny_encode(s);
  std::string p = e.ok ? e.out : "a";
  if (t.p(30)) p[t.u(uint32_t(p.size()))] = char(gen::ldh(t));
  same(c, p);
}
static void overflow(Ctx& c) {
  auto& t = c.t;
  std::string s;
  for (uint32_t k = t.size(12); k > 0; k--) s += char(gen::ldh(t));
  if (t.p(128)) s += '-';
  for (uint32_t k = 1 + t.u(10); k > 0; k--) s += t.p(150) ? char("98zy"[t.u(4)]) : char(gen::ldh(t));
  same(c, s);
}
static void large(Ctx& c) {
  auto& t = c.t;
  std::string s(1 + t.u(4000), 'q');
  s += '-';
  for (uint32_t k = 1 + t.u(12); k > 0; k--) s += char(t.p(60) ? '9' : gen::ldh(t));
  same(c, s);
}
static void huge(Ctx& c) {  // counts beyond 16 bits
  auto& t = c.t;
  std::string s(gen::huge_len(t), t.p(200) ? 'q' : 'a');
  static const char* heads[] = {"", "xn--", "xn-", "n--", "x"};
  std::string h = heads[t.u(5)];
  s.replace(0, h.size(), h);
  if (t.p(230)) s += '-';
  for (uint32_t k = t.u(12); k > 0; k--) s += char(t.p(60) ? '9' : gen::ldh(t));
  same(c, s);
}
static void each_position(Ctx& c) {  // every character at a position further on; insertions next to a prefix of as many code points
  const size_t n = c.idx;
  for (int b = 0; b < 256; b++) {
    same(c, std::string(n, 'q') + char(b) + "-a");
    if (b % 16 == int(n % 16)) same(c, std::string(n, 'q') + "-" + char(b) + "a");
  }
  static const u32 heads[] = {U"xn--", U"xn-", U"n--", U"x", U"xn-\u00e9-", U"xn\u00e9--", U"", U"xn--\u00e9"};
  for (auto& h : heads)
    for (size_t i = 0; i < 6; i++)
      for (char32_t x : {char32_t(0x80), char32_t(0xE9), char32_t(0x4E00), char32_t(0x10FFFF)}) {
        u32 s = h + u32(n, U'q');
        s.insert(s.begin() + long(std::min(i, s.size())), x);
        auto r = ref::puny_encode(s);
        if (r.ok) same(c, r.out);
      }
  c.nontrivial(c.idx);
  c.show("every character after " + std::to_string(n) + " others, and insertions at the front of as many");
}
PBT_MAIN("default", {"each-position", each_position, 0x440, 0x440, true}, {"text", text, 1500000, 25000000}, {"prefix", prefix, 800000, 12000000}, {"overflow", overflow, 800000, 12000000}, {"large", large, 20000, 300000}, {"huge", huge, 300, 8000})
