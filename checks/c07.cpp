// C07: Punycode encoding and decoding are RFC 3492 and inverse to each other.
#include "../lib/props.hpp"
using namespace props;
static void decode(Ctx& c) { puny_decode_is(c, gen::puny_text(c.t)); }
static u32 label(Tape& t) {
  static const uint8_t w[] = {80, 60, 40, 40};
  u32 s;
  switch (t.pick(w)) {
    case 0: return gen::raw_unicode_label(t);
    case 1: for (uint32_t k = t.size(60); k > 0; k--) s.push_back(gen::any_cp(t)); return s;
    case 2: for (uint32_t k = t.size(60); k > 0; k--) { uint32_t c = t.u(0x110000); s.push_back(ref::scalar(c) ? c : 0x10FFFF); } return s;
    default: { uint32_t b = 0x80 + t.u(0x3000); for (uint32_t k = t.size(60); k > 0; k--) s.push_back(t.p(60) ? gen::ldh(t) : b + t.u(8)); return s; }
  }
}
static void encode(Ctx& c) {
  u32 s = label(c.t);
  if (c.t.p(12)) s = U"xn--" + s;
  if (!s.empty() && c.t.p(12)) s[c.t.u(uint32_t(s.size()))] = c.t.p(100) ? 0xD800 + c.t.u(0x800) : c.t.p(128) ? gen::beyond(c.t) : 0x110000 + c.t.u(0x1000);
  if (!ref::ascii(s)) c.nontrivial(s);
  c.label(ref::ascii(s) ? "encode: ASCII" : "encode: non-ASCII");
  puny_encode_is(c, s);
}
static void large(Ctx& c) {  // around the 31-bit limits: thousands of code points below a high one
  auto& t = c.t;
  u32 s;
  uint32_t n = 1 + t.u(2600);
  for (uint32_t i = 0; i < n; i++) s.push_back(t.p(8) ? 0x80 + t.u(0x300) : uint32_t('a' + (i & 7)));
  for (uint32_t k = 1 + t.u(3); k > 0; k--) s.insert(s.begin() + long(t.u(uint32_t(s.size()))), char32_t(t.p(128) ? 0x10FFFF - t.u(0x1000) : 0x20000 + t.u(0xEFFFF)));
  c.nontrivial(s);
  auto r = ref::puny_encode(s);
  c.label(r.over31 ? "large: beyond 2^31-1" : "large: within 2^31-1");
  puny_encode_is(c, s);
  if (r.ok) puny_decode_is(c, r.out);
}
static void edge(Ctx& c) {  // deltas of exactly 2^31-1, give or take a few: by code point, length and position
  auto& t = c.t;
  const int64_t target = (int64_t(1) << 31) - 1 + int64_t(t.u(7)) - 3 + (t.p(20) ? int64_t(1) << 31 : 0);
  const int64_t min = target / 0x10FF7F + 1;
  int64_t len = t.p(100) ? 2048 : min + t.u(600), m = 0, pos = 0;
  if (len < min) len = min;
  for (; len < 9000; len++) {
    m = 128 + target / len;
    pos = target % len;
    if (ref::scalar(uint32_t(m)) && pos < len) break;
  }
  // h = len - 1 code points below m. The first step takes (m - n) * len, and one more for each of them before m.
  u32 s(size_t(len - 1), U'a');
  if (t.p(60) && len > 10) {  // with some of them encoded first: delta then starts from what follows the last of these
    char32_t x = 0x80 + t.u(0x2000);
    s[t.u(uint32_t(len - 1))] = x;
    m = x + 1 + target / len;
    if (m > 0x10FFFF || !ref::scalar(uint32_t(m))) m = 0x10FFFF;
  }
  s.insert(s.begin() + long(std::min<int64_t>(pos, len - 1)), char32_t(m));
  if (t.p(60)) s.push_back(char32_t(m));
  c.nontrivial(s);
  auto r = ref::puny_encode(s);
  c.label(r.over31 ? "edge: beyond 2^31-1" : "edge: within 2^31-1");
  puny_encode_is(c, s);
  if (r.ok) puny_decode_is(c, r.out);
}
static void append(Ctx& c) {  // encoding appends
  u32 s = label(c.t);
  std::string pre;
  for (uint32_t k = c.t.u(20); k > 0; k--) pre += char(gen::ldh(c.t));
  std::string out = pre;
  c.show("utf32_to_punycode(" + q(s) + ") appended to " + q(pre));
  auto r = ref::puny_encode(s);
  bool ok = idna::utf32_to_punycode(s, out);
  if (r.over31 && !ok) return;
  if (ok != r.ok) c.fail("wrong verdict");
  if (ok && out != pre + r.out) c.fail("gave " + q(out) + ", expected " + q(pre + r.out));
  if (!ref::ascii(s)) c.nontrivial(s);
}
static void exhaustive(Ctx& c) {  // every string of up to 3 characters over digits, '-' and near misses
  static const std::string alpha = "abcdefghijklmnopqrstuvwxyz0123456789-A/:`{\x80";
  uint32_t n = uint32_t(alpha.size()), a = uint32_t(c.idx) % n, b = uint32_t(c.idx) / n % (n + 1);
  std::string p(1, alpha[a]);
  if (b < n) p += alpha[b];
  puny_decode_is(c, p);
  if (b < n)
    for (char ch : alpha) {
      puny_decode_is(c, p + ch);
      puny_decode_is(c, "b-" + p + ch);
      puny_decode_is(c, "xn--" + p + ch);
    }
  if (c.idx == 0) puny_decode_is(c, "");
}
static void longer(Ctx& c) {
  u32 s = gen::long_cps(c.t, 8000);
  c.nontrivial(s);
  puny_encode_is(c, s);
  auto r = ref::puny_encode(s);
  if (!r.ok) return;
  if (c.t.p(128) && !r.out.empty()) r.out[c.t.u(uint32_t(r.out.size()))] = char(gen::ldh(c.t));
  puny_decode_is(c, r.out);
}
static void huge(Ctx& c) {  // counts beyond 16 bits
  auto& t = c.t;
  u32 s;
  if (t.p(60)) s = u32(gen::huge_len(t), char32_t(0x80 + t.u(0x500)));
  else s = u32(gen::huge_len(t), U'a');
  for (uint32_t k = t.u(6); k > 0; k--) s[t.p(60) ? s.size() - 1 - t.u(3) : t.p(60) ? t.u(3) : t.u(uint32_t(s.size()))] = char32_t(0x80 + t.u(t.p(128) ? 0x400 : 0x2000));
  c.nontrivial(s);
  auto r = ref::puny_encode(s);
  c.label(r.over31 ? "huge: beyond 2^31-1" : "huge: within 2^31-1");
  puny_encode_is(c, s);
  if (!r.ok) return;
  if (t.p(60)) r.out[r.out.size() - 1 - t.u(3)] = char(gen::ldh(t));
  puny_decode_is(c, r.out);
}
static void each_position(Ctx& c) {  // every character at a position further on; an insertion at every place of as many code points
  const size_t n = c.idx;
  for (int b = 0; b < 256; b++) {
    std::string s(n, 'q');
    puny_decode_is(c, s + char(b) + "-a");
    if (b % 16 == int(n % 16)) puny_decode_is(c, s + "-" + char(b) + "a");
    if (b < 128 && b % 4 == int(n % 4)) puny_encode_is(c, u32(n, U'q') + char32_t(b) + char32_t(0xE9));
  }
  for (size_t i = 0; i <= n && n <= 330; i++) {
    u32 s(n, U'q');
    s.insert(s.begin() + long(i), char32_t(0xE9 + (n & 7) * 0x300));
    puny_encode_is(c, s);
    auto r = ref::puny_encode(s);
    if (r.ok) puny_decode_is(c, r.out);
  }
  c.nontrivial(c.idx);
  c.show("every character after " + std::to_string(n) + " others, and an insertion at every place among them");
}
PBT_MAIN("default", {"short-strings", exhaustive, 43 * 44, 43 * 44, true}, {"each-position", each_position, 0x440, 0x440, true}, {"decode", decode, 1500000, 25000000}, {"encode", encode, 1000000, 15000000}, {"append", append, 200000, 3000000}, {"large", large, 1200, 20000}, {"edge", edge, 1500, 20000}, {"long", longer, 3000, 60000}, {"huge", huge, 200, 6000})
