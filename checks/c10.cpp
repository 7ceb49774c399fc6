// C10: is_label_valid is the UTS #46 validity of one label.
#include "../lib/props.hpp"
using namespace props;
static const char* kind(u32v s) {
  if (s.empty()) return "empty";
  if (ucd::mark(s[0])) return "leading mark";
  if (!ref::contextj(s)) return "ContextJ violated";
  bool rtl = ref::rtl_content(s);
  if (rtl && !ref::bidi_rule(s)) return "Bidi rule violated";
  if (s.find(char32_t(0x200C)) != s.npos || s.find(char32_t(0x200D)) != s.npos) return rtl ? "valid, joiner and RTL" : "valid, joiner";
  return rtl ? "valid, RTL" : "valid, other";
}
static bool in_domain(u32v s) { return ref::stable(s) && !ref::ace_prefix(s) && s.find(U'.') == s.npos; }
static void is(Ctx& c, u32v s, bool show = true) {
  if (!in_domain(s)) { if (show) c.label("outside the domain (not stable)"); return; }
  if (show) { c.show("is_label_valid(" + q(s) + ")"); c.label(kind(s)); c.nontrivial(s); }
  bool want = ref::label_valid(s), got = idna::is_label_valid(s);
  if (got != want) {
    c.show("is_label_valid(" + q(s) + ")");
    c.fail(std::string("is_label_valid says ") + (got ? "true" : "false") + "; by UTS #46 the label is " + kind(s));
  }
  // the same label in a Bidi domain name, and whether it makes the name one
  bool want_bidi = ref::label_valid_nobidi(s) && ref::bidi_rule(s), got_bidi = idna::is_label_valid(s, true);
  if (got_bidi != want_bidi) {
    c.show("is_label_valid(" + q(s) + ", in a Bidi domain name)");
    c.fail(std::string("is_label_valid says ") + (got_bidi ? "true" : "false") + "; by UTS #46 the label is " + kind(s) + (ref::bidi_rule(s) ? " and satisfies" : " and violates") + " the Bidi rule");
  }
  if (idna::is_rtl_label(s) != ref::rtl_content(s)) {
    c.show("is_rtl_label(" + q(s) + ")");
    c.fail(ref::rtl_content(s) ? "is_rtl_label denies an R, AL or AN code point" : "is_rtl_label sees an R, AL or AN code point that is not there");
  }
}
static u32 settle(u32 l) {  // map and normalise, so that most cases are in the domain
  u32 m;
  return ref::map(l, m) ? ref::nfc(m) : l;
}
static void label(Ctx& c) {
  u32 l = gen::raw_unicode_label(c.t);
  if (c.t.p(40)) gen::add_kin(c.t, l);
  is(c, settle(l));
}
static void bidi(Ctx& c) { is(c, settle(gen::bidi_label(c.t, c.t.p(180)))); }
static void joiner(Ctx& c) { is(c, settle(gen::joiner_label(c.t))); }
static void each(Ctx& c) {  // every code point in contexts that reveal its mark, Bidi, joining and virama classes
  uint32_t b = uint32_t(c.idx) * 64;
  const char32_t R = 0x5D0, A = 0x627, D = 0x628, AN = 0x660, NS = 0x301;
  for (uint32_t i = b; i < b + 64; i++) {
    char32_t x = i;
    if (ucd::status(i) != ucd::V) continue;
    for (auto& s : {u32{x}, u32{x, U'a'}, u32{U'a', x}, u32{R, x}, u32{x, R}, u32{R, x, R}, u32{A, x, A}, u32{R, U'1', x}, u32{A, AN, x}, u32{R, AN, x, R}, u32{R, U'1', x, R}, u32{R, x, NS}, u32{U'a', x, R}, u32{x, NS, R},
                    u32{x, 0x200C}, u32{x, 0x200D}, u32{x, 0x200C, U'a'}, u32{x, 0x200D, U'a'}, u32{x, 0x200C, D}, u32{D, 0x200C, x}, u32{D, x, 0x200C, D}, u32{D, 0x200C, x, D}, u32{D, x, 0x200C, x, D}, u32{x, 0x200C, x},
                    u32{0x915, 0x94D, 0x200D, x}, u32{0x915, x, 0x200D, 0x915}, u32{x, x, 0x200C, D}})
      is(c, s, false);
  }
  c.nontrivial(c.idx);
  c.show("every valid code point of a block of 64, in 27 contexts");
}
static void near(Ctx& c) {  // every valid code point next to those that differ from it in one bit
  uint32_t b = uint32_t(c.idx) * 64;
  for (uint32_t i = b; i < b + 64; i++) {
    if (ucd::status(i) != ucd::V) continue;
    char32_t x = i;
    for (int k = 0; k < 22; k++) {
      char32_t y = k < 21 ? x ^ (1u << k) : x + 0x10000;
      if (!ref::scalar(y) || ucd::status(y) != ucd::V) continue;
      for (auto& s : {u32{x, y}, u32{U'a', x, y, U'a'}, u32{0x5D0, x, y, 0x5D0}, u32{0x628, x, y, 0x200C, 0x628}, u32{0x628, 0x200C, y, x, 0x628}, u32{x, y, 0x200D}}) is(c, s, false);
    }
  }
  c.nontrivial(c.idx);
  c.show("every valid code point of a block of 64, next to each that differs in one bit");
}
static void bidi_classes(Ctx& c) {  // every sequence of up to 4 Bidi classes (representatives), exhaustively
  auto& p = gen::P();
  uint32_t k = uint32_t(c.idx);
  const int n = 11;
  int a = int(k % n), b = int(k / n % n);
  auto rep = [&](int cls, uint32_t r) { auto& v = p.bidi[size_t(cls)]; return char32_t(v[(r * 7919 + k) % v.size()]); };
  is(c, u32{rep(a, 0)}, false);
  is(c, u32{rep(a, 0), rep(b, 1)}, false);
  for (int d = 0; d < n; d++) {
    is(c, u32{rep(a, 0), rep(b, 1), rep(d, 2)}, false);
    for (int e = 0; e < n; e++) {
      is(c, u32{rep(a, 0), rep(b, 1), rep(d, 2), rep(e, 3)}, false);
      for (int f = 0; f < n; f++) is(c, u32{rep(a, 0), rep(b, 1), rep(d, 2), rep(e, 3), rep(f, 4)}, false);
    }
  }
  c.nontrivial(hash_bytes(&k, 4));
  c.show("every sequence of up to 5 Bidi classes that starts with classes " + std::to_string(a) + ", " + std::to_string(b));
}
static void joining_classes(Ctx& c) {  // every sequence of up to 6 over {L,D,T,R,U,virama,ZWNJ,ZWJ}
  auto& p = gen::P();
  uint32_t k = uint32_t(c.idx);
  auto rep = [&](uint32_t cls, uint32_t r) -> char32_t {
    if (cls == 5) return p.virama[(r * 31 + k) % p.virama.size()];
    if (cls >= 6) return 0x200C + (cls - 6);
    auto& v = p.join[cls];
    uint32_t x = v[(r * 7919 + k) % v.size()];
    return cls == ucd::JU && (x == 0x200C || x == 0x200D) ? U'a' : char32_t(x);
  };
  uint32_t a = k % 8, b = k / 8 % 8, d = k / 64 % 8;
  for (uint32_t len = 1; len <= 6; len++) {
    uint32_t tot = len <= 3 ? 1 : len == 4 ? 8 : len == 5 ? 64 : 512;
    for (uint32_t j = 0; j < tot; j++) {
      uint32_t cl[6] = {a, b, d, j % 8, j / 8 % 8, j / 64};
      u32 s;
      for (uint32_t i = 0; i < len; i++) s.push_back(rep(cl[i], i));
      is(c, s, false);
    }
  }
  c.nontrivial(hash_bytes(&k, 4) ^ 5);
  c.show("every sequence of up to 6 joining classes that starts with classes " + std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(d));
}
static void each_position(Ctx& c) {  // code points of every kind at a position further on
  auto& p = gen::P();
  size_t k = c.idx;
  for (char32_t f : {U'a', char32_t(0x5D0), char32_t(0x628), U'1', char32_t(0x661), char32_t(0x300)}) {
    u32 head = f == U'1' ? u32(U"\u05d0") : f == 0x661 ? u32(U"\u0628") : f == 0x300 ? u32(k & 1 ? U"\u05d0" : U"x") : u32();
    auto try_ = [&](const u32& odd) { k++; is(c, head + gen::at_position(c.idx, f, odd, gen::after_position(c.idx, k)), false); };
    for (auto& v : p.bidi) if (!v.empty()) { try_(u32(1, char32_t(v[(k * 7919) % v.size()]))); try_(u32{char32_t(v[(k * 104729) % v.size()]), 0x300}); }
    for (auto& v : p.join) if (!v.empty()) { try_(u32{char32_t(v[(k * 7919) % v.size()]), 0x200C}); try_(u32{0x200C, char32_t(v[(k * 7919) % v.size()])}); try_(u32{0x628, 0x200C, char32_t(v[(k * 7919) % v.size()])}); }
    const char32_t vir = p.virama[k % p.virama.size()];
    for (auto& s : {u32{0x200D}, u32{vir, 0x200D}, u32{vir, 0x200C}, u32{0x200C}}) try_(s);
    is(c, u32{0x5D0, U'0'} + u32(c.idx, 0x5D0) + u32{0x661, 0x5D0}, false);
    is(c, u32{0x5D0, 0x661} + u32(c.idx, 0x5D0) + u32{U'0', 0x5D0}, false);
  }
  c.nontrivial(c.idx);
  c.show("code points of every kind after " + std::to_string(c.idx) + " others");
}
static void longer(Ctx& c) {
  auto& t = c.t;
  size_t n = gen::long_len(t, 8000), kind = t.u(4);
  int dir = int(t.u(2));
  auto join = [&] {  // L|D T* then ZWNJ T* R|D, one of the parts long
    auto& p = gen::P();
    u32 s{char32_t(t.of(p.join[t.p(128) ? ucd::JL : ucd::JD]))};
    u32 ts;
    for (uint32_t k = 1 + t.u(3); k > 0; k--) ts.push_back(t.of(p.join[ucd::JT]));
    size_t a = t.p(128) ? n : t.u(3), b = t.p(128) ? n : t.u(3);
    for (size_t i = 0; i < a; i++) s.push_back(ts[i % ts.size()]);
    s.push_back(0x200C);
    for (size_t i = 0; i < b; i++) s.push_back(ts[i % ts.size()]);
    if (!t.p(40)) s.push_back(t.of(p.join[t.p(128) ? ucd::JR : ucd::JD]));
    return s;
  };
  u32 s = kind == 3 ? join() : gen::long_text<u32>(t, n, dir ? 0x5D0 : U'a', [&] {
    u32 s;
    switch (kind) {
      case 0: return gen::bidi_label(t, t.p(10) ? !dir : dir);
      case 1: for (uint32_t k = 1 + t.size(20); k > 0; k--) s.push_back(gen::valid_cp(t)); return s;
      default: return gen::joiner_label(t);
    }
  });
  is(c, settle(s));
}
static void sparse(Ctx& c) { is(c, settle(gen::sparse_text(c.t, gen::long_len(c.t, c.t.p(200) ? 700 : 5000)))); }
static void huge(Ctx& c) { is(c, settle(gen::huge_cps(c.t))); }
PBT_MAIN("default", {"each-code-point", each, 0x4400, 0x4400, true}, {"one-bit-apart", near, 0x4400, 0x4400, true}, {"bidi-classes", bidi_classes, 121, 121, true}, {"joining-classes", joining_classes, 512, 512, true}, {"each-position", each_position, 0x440, 0x440, true}, {"label", label, 600000, 10000000}, {"bidi", bidi, 700000, 10000000}, {"joiner", joiner, 700000, 10000000}, {"long", longer, 4000, 80000}, {"sparse", sparse, 20000, 400000}, {"huge", huge, 200, 6000})
