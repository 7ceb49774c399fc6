// C06: normalize is NFC and is_already_nfc recognises it.
#include "../lib/props.hpp"
using namespace props;
static void rnd(Ctx& c) {
  u32 s = gen::nfc_text(c.t, 10);
  c.label(ref::is_nfc(s) ? "already NFC" : "not NFC");
  c.nontrivial(s);
  nfc_is(c, s);
}
static void each(Ctx& c) {
  uint32_t b = uint32_t(c.idx) * 64;
  auto& p = gen::P();
  for (uint32_t cp = b; cp < b + 64; cp++) {
    if (!ref::scalar(cp)) continue;
    char32_t x = cp;
    nfc_is(c, u32{x});
    nfc_is(c, ref::nfd(u32{x}));
    nfc_is(c, u32{U'e', x});
    nfc_is(c, u32{x, 0x301});
    nfc_is(c, u32{U'a', 0x323, x, 0x307, 0x323});
    nfc_is(c, u32{x, x});
    nfc_is(c, u32{0xC5, x, 0x327});
    nfc_is(c, u32{0xAC00, x, 0x11A8});
    (void)p;
  }
  c.nontrivial(c.idx);
  c.show("every code point of a block of 64, in 8 contexts");
}
static void pairs(Ctx& c) {  // every pair that composes, in contexts that block or delay it
  auto& p = gen::P();
  auto& pr = p.pairs[size_t(c.idx)];
  char32_t a = pr[0], b = pr[1], k = pr[2];
  for (char32_t m : {0x334, 0x59A, 0x316, 0x327, 0x301, 0x315, 0x345, 0x3099, 0x200D, int('x'), 0x1D16D, 0x302A, 0x5B0, 0xF71, 0xE38, 0x9CD}) {
    for (auto& s : {u32{a, b}, u32{k}, u32{a, m, b}, u32{m, a, b}, u32{a, b, m}, u32{k, m}, u32{k, m, m, b}, u32{a, m, m, b}, u32{a, a, b, b}, u32{a, m, b, 0x327, 0x301}, u32{a, U'x', b}, u32{a, b, 0x301, 0x323, m}}) nfc_is(c, s);
  }
  c.nontrivial(u32{a, b});
  c.show("composition pair u\"" + printable(u32{a, b}) + "\" in 192 contexts");
}
static void hangul(Ctx& c) {  // every L+V (399), each with every T and with near misses
  char32_t l = 0x1100 + char32_t(c.idx) / 21, v = 0x1161 + char32_t(c.idx) % 21, lv = 0xAC00 + char32_t(c.idx) * 28;
  for (char32_t t = 0x11A6; t <= 0x11C4; t++)
    for (auto& s : {u32{l, v, t}, u32{lv, t}, u32{l, v, t, t}, u32{l, l, v, t}, u32{char32_t(lv + 1), t}, u32{l, v, 0x301, t}, u32{l, 0x301, v}, u32{lv, 0x301, t}, u32{lv, v, t}}) nfc_is(c, s);
  for (char32_t i = 0; i < 28; i++) nfc_is(c, u32{char32_t(lv + i)});
  c.nontrivial(u32{l, v});
  c.show("Hangul u\"" + printable(u32{l, v}) + "\" with every trailing consonant");
}
static void long_runs(Ctx& c) {  // long runs of marks: ordering must be stable and complete
  auto& t = c.t;
  auto& p = gen::P();
  u32 s;
  if (t.p(200)) s.push_back(t.of(p.pairs)[0]);
  uint32_t n = 1 + t.u(3);
  for (uint32_t i = 0; i < n; i++) {
    uint32_t k = t.size(260);
    u32 alpha;
    for (uint32_t j = 1 + t.u(5); j > 0; j--) alpha.push_back(t.p(100) ? t.of(p.pairs)[1] : t.of(p.by_ccc.at(int(t.of(p.cccs)))));
    for (uint32_t j = 0; j < k; j++) s.push_back(t.of(p.cccs) && t.p(200) ? alpha[t.u(uint32_t(alpha.size()))] : t.of(p.markN));
    s.push_back(t.p(128) ? t.of(p.pairs)[0] : t.of(p.comps));
  }
  c.nontrivial(s);
  nfc_is(c, s);
}
static void words(Ctx& c) {
  auto& t = c.t;
  u32 s;
  for (uint32_t k = 1 + t.size(100); k > 0; k--) s.push_back(t.p(60) ? gen::any_cp(t) : gen::valid_cp(t));
  if (t.p(40)) gen::add_kin(t, s);
  if (t.p(100)) s = ref::nfd(s);
  c.nontrivial(s);
  nfc_is(c, s);
}
static void laws(Ctx& c) {  // equal under canonical equivalence, idempotent
  auto& t = c.t;
  u32 s = gen::nfc_text(t, 8), d = ref::nfd(s), a = s, b = d;
  c.show("normalize of " + q(s) + " and of its NFD");
  c.nontrivial(s);
  if (!idna::normalize(a) || !idna::normalize(b)) c.fail("normalize failed");
  if (a != b) c.fail("canonically equivalent strings normalise differently: " + q(a) + " and " + q(b));
  u32 e = a;
  if (!idna::normalize(e) || e != a) c.fail("normalize is not idempotent: " + q(a) + " became " + q(e));
}
static void longer(Ctx& c) {
  u32 s = gen::long_cps(c.t, 20000);
  if (c.t.p(100)) s = c.t.p(128) ? ref::nfd(s) : ref::nfc(s);
  c.nontrivial(s);
  nfc_is(c, s);
}
static void sparse(Ctx& c) {
  auto& t = c.t;
  u32 s = gen::sparse_text(t, gen::long_len(t, t.p(200) ? 700 : 5000));
  if (t.p(100)) s = t.p(128) ? ref::nfd(s) : ref::nfc(s);
  c.nontrivial(s);
  nfc_is(c, s);
}
static void each_position(Ctx& c) {  // texts that change, or nearly, at a position further on
  auto& p = gen::P();
  static std::map<uint32_t, std::vector<uint32_t>> firsts;  // by the second of a composition pair
  if (firsts.empty()) for (auto& x : p.pairs) firsts[x[1]].push_back(x[0]);
  static const char32_t marks[] = {0x334, 0x93C, 0x94D, 0x327, 0x323, 0x301, 0x345};
  size_t k = c.idx;
  auto try_ = [&](const u32& odd) {
    static const char32_t fill[] = {U'a', 0xE9, 0xAC01, 0x300, 0x1EA5};
    nfc_is(c, gen::at_position(c.idx, fill[k % 5], odd, gen::after_position(c.idx, k)));
    k++;
  };
  for (auto& [second, v] : firsts) {
    const char32_t a = char32_t(v[(c.idx * 31) % v.size()]), m = marks[(c.idx + second) % 7];
    try_(u32{a, char32_t(second)});
    if (second % 3 == c.idx % 3) { try_(u32{a, m, char32_t(second)}); try_(u32{a, char32_t(second), m}); }
  }
  for (auto& s : {u32{0x1100, 0x1161}, u32{0x1100, 0x1161, 0x11A8}, u32{0xAC00, 0x11A8}, u32{0xAC01, 0x11A8}, u32{0xAC00, 0x301}, u32{0x301, 0x323}, u32{U'a', 0x301, 0x323}, u32{0x212B}, u32{0x1112, 0x1175, 0x11C2}, u32{0xFB1D}, u32{0x2F800}}) try_(s);
  c.nontrivial(c.idx);
  c.show("texts that change, or nearly, after " + std::to_string(c.idx) + " code points");
}
static void huge(Ctx& c) {
  u32 s = gen::huge_cps(c.t);
  if (c.t.p(60)) s = ref::nfd(s);
  c.nontrivial(s);
  nfc_is(c, s);
}
static void near(Ctx& c) {  // code points that normalization treats, next to those that differ from them in one bit
  uint32_t b = uint32_t(c.idx) * 64;
  for (uint32_t cp = b; cp < b + 64; cp++) {
    if (!ref::scalar(cp)) continue;
    char32_t x = cp;
    if (!ucd::ccc(cp) && ref::nfd(u32{x}) == u32{x} && !gen::composes(x)) continue;
    for (int k = 0; k < 22; k++) {
      char32_t y = k < 21 ? x ^ (1u << k) : x + 0x10000;
      if (!ref::scalar(y)) continue;
      for (auto& s : {u32{x, y}, u32{y, x}, u32{U'e', x, y, x}, u32{x, y, 0x301}, u32{y, x, 0x301}, u32{U'e', 0x323, y, x, 0x307}}) nfc_is(c, s);
    }
  }
  c.nontrivial(c.idx);
  c.show("the code points of a block of 64 that normalization treats, next to each that differs in one bit");
}
PBT_MAIN("default", {"each-code-point", each, 0x4400, 0x4400, true}, {"pairs", pairs, gen::P().pairs.size(), gen::P().pairs.size(), true}, {"hangul", hangul, 399, 399, true}, {"one-bit-apart", near, 0x4400, 0x4400, true}, {"each-position", each_position, 0x440, 0x440, true}, {"text", rnd, 1500000, 25000000}, {"long-runs", long_runs, 60000, 1000000}, {"words", words, 300000, 5000000}, {"laws", laws, 300000, 5000000}, {"long", longer, 4000, 80000}, {"sparse", sparse, 20000, 400000}, {"huge", huge, 160, 5000})
