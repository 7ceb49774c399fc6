// C22: ascii_map lower-cases ASCII in place: exactly the range given, any length and alignment.
#include "../lib/props.hpp"
using namespace props;
static void run(Ctx& c, const std::string& s, uint32_t off, unsigned char guard, bool show) {
  static thread_local std::vector<char> raw;
  raw.assign(off + s.size() + 24, char(guard));
  char* p = raw.data() + off;
  memcpy(p, s.data(), s.size());
  if (show) c.show("ascii_map(" + q(s) + ") at offset " + std::to_string(off));
  idna::ascii_map(p, s.size());
  std::string want = ref::lower(s);
  if (memcmp(p, want.data(), s.size())) { c.show("ascii_map(" + q(s) + ")"); c.fail("gave " + q(std::string_view(p, s.size())) + ", expected " + q(want)); }
  for (size_t i = 0; i < raw.size(); i++)
    if ((i < off || i >= off + s.size()) && raw[i] != char(guard)) { c.show("ascii_map(" + q(s) + ") at offset " + std::to_string(off)); c.fail("changed a byte outside the range, at " + std::to_string(long(i) - long(off))); }
}
// every ASCII byte at every position, every length up to 40, all alignments
static void each(Ctx& c) {
  uint32_t n = uint32_t(c.idx);
  for (uint32_t p = 0; p < n || p == 0; p++) {
    for (int b = 0; b < 128; b++)
      for (char f : {'a', 'Z', '\x7f', '\0'}) {
        std::string s(n, f);
        if (n) s[p] = char(b);
        run(c, s, uint32_t(b) & 7, 'Q', false);
      }
    if (!n) break;
  }
  c.show("every ASCII byte at every position of a string of " + std::to_string(n) + " bytes");
  c.nontrivial(c.idx);
}
static void pairs(Ctx& c) {  // neighbours in the same machine word: no carry from one byte to the next
  for (int b = 0; b < 128; b++)
    for (uint32_t at = 0; at < 9; at++) {
      std::string s(10, 'M');
      s[at] = char(c.idx);
      s[at + 1] = char(b);
      run(c, s, at & 7, 'G', false);
    }
  c.show("the byte " + std::to_string(c.idx) + " followed by every ASCII byte");
  c.nontrivial(c.idx);
}
static void random(Ctx& c) {
  auto& t = c.t;
  std::string s;
  bool text = t.p(128);
  for (uint32_t n = t.size(400); n > 0; n--) s += text ? "abcxyzABCXYZ019-.@[`{"[t.u(21)] : char(t.byte() & 127);
  c.nontrivial(s);
  run(c, s, t.u(16), t.byte(), true);
}
static void via_to_ascii(Ctx& c) {
  auto& t = c.t;
  std::string s, out;
  for (uint32_t n = t.size(400); n > 0; n--) s += t.p(128) ? "abcxyzABCXYZ019-.@[`{"[t.u(21)] : char(t.byte() & 127);
  c.show("to_ascii(" + q(s) + ")");
  c.nontrivial(s);
  if (!idna::to_ascii(s, out) || out != ref::lower(s)) c.fail("gave " + q(out));
  std::string again = out;
  idna::ascii_map(again.data(), again.size());
  if (again != out) c.fail("lower-casing twice differs: " + q(again));
}
static void longer(Ctx& c) {
  auto& t = c.t;
  std::string s(t.p(8) ? gen::huge_len(t) : gen::long_len(t, 40000), char(t.byte() & 127));
  if (!s.empty()) for (uint32_t k = 1 + t.u(8); k > 0; k--) s[t.p(40) ? s.size() - 1 : t.u(uint32_t(s.size()))] = char(t.byte() & 127);
  c.nontrivial(s);
  run(c, s, t.u(16), t.byte(), true);
}
static void each_position(Ctx& c) {  // every ASCII byte at a position further on
  for (int b = 0; b < 128; b++)
    for (char f : {'a', 'Z'}) run(c, gen::at_position(c.idx, f, std::string(1, char(b)), gen::after_position(c.idx, size_t(b))), uint32_t(b) & 7, 'Q', false);
  c.show("every ASCII byte after " + std::to_string(c.idx) + " others");
  c.nontrivial(c.idx);
}
PBT_MAIN("default", {"each-byte", each, 41, 41, true}, {"pairs", pairs, 128, 128, true}, {"each-position", each_position, 0x440, 0x440, true}, {"random", random, 2000000, 40000000}, {"via-to_ascii", via_to_ascii, 800000, 10000000}, {"long", longer, 30000, 500000})
