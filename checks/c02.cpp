// C02: an all-ASCII domain is lowercased and nothing else.
#include "../lib/props.hpp"
using namespace props;
static void one(Ctx& c, const std::string& in) {
  c.show("to_ascii(" + q(in) + ")");
  std::string want = ref::lower(in), out = "junk";
  bool ok = idna::to_ascii(in, out);
  if (!ok) c.fail("to_ascii rejected an ASCII domain");
  if (out != want) c.fail("to_ascii gave " + q(out) + ", expected " + q(want));
  std::string s = idna::to_ascii(in);
  if (s != want) c.fail("to_ascii(input) returned " + q(s) + ", expected " + q(want));
  if (want != in) c.nontrivial(in);
  c.label(want == in ? "nothing to lowercase" : in.find("--") != std::string::npos ? "with --" : "with upper case");
}
static void random_bytes(Ctx& c) {
  auto& t = c.t;
  std::string s;
  static const uint8_t w[] = {100, 60, 60, 36};
  size_t k = t.pick(w);
  for (uint32_t n = t.size(300); n > 0; n--) switch (k) {
      case 0: s += char("ABCXYZxnabz-.019@[`{"[t.u(20)]); break;
      case 1: s += char(t.u(128)); break;
      case 2: s += char(t.p(128) ? 'A' + t.u(26) : gen::ldh(t)); break;
      default: s += t.p(60) ? std::string("XN--") : std::string(1, char(t.p(40) ? '.' : 'a' + t.u(26)));
    }
  one(c, s);
}
static void ace(Ctx& c) {  // A-labels that UTS #46 rejects are still only lowercased
  auto& t = c.t;
  std::string s;
  for (uint32_t n = 1 + t.u(3); n > 0; n--) { s += gen::ace_label(t); if (n > 1 || t.p(30)) s += '.'; }
  for (char& ch : s) { if (ch & 0x80) ch = 'q'; if (ch >= 'a' && ch <= 'z' && t.p(40)) ch = char(ch - 32); }
  one(c, s);
}
static void each_byte(Ctx& c) {  // sweep over length: every byte at every position
  uint32_t len = uint32_t(c.idx);
  for (uint32_t pos = 0; pos < len; pos++)
    for (uint32_t b = 0; b < 128; b++) {
      std::string s(len, 'k');
      s[pos] = char(b);
      one(c, s);
    }
  std::string big(len ? 16384 - (len - 1) : 16384, 'K');
  one(c, big);
  c.show("every ASCII byte at every position of a " + std::to_string(len) + "-byte domain");
}
static void longer(Ctx& c) {  // any length up to the limit
  auto& t = c.t;
  size_t kind = t.u(4);
  std::string s = gen::long_text<std::string>(t, gen::long_len(t, ref::kLimit), t.p(128) ? 'A' : 'a', [&] {
    std::string p;
    if (kind == 0) for (uint32_t k = 1 + t.u(80); k > 0; k--) p += char(t.u(128));
    else if (kind == 1) { p = gen::ace_label(t); for (char& ch : p) if (ch & 0x80) ch = 'q'; if (t.p(200)) p += '.'; }
    else if (kind == 2) { p = ref::utf8(gen::ascii_label(t)); if (t.p(128)) p += '.'; }
    else p = t.p(128) ? "aAzZ" : "k";
    if (t.p(60)) for (char& ch : p) if (ch >= 'a' && ch <= 'z') ch = char(ch - 32);
    return p;
  });
  if (!s.empty()) for (uint32_t k = t.u(3); k > 0; k--) s[t.u(uint32_t(s.size()))] = char("AZM@[`{-.\0"[t.u(10)]);
  one(c, s);
}
static void each_position(Ctx& c) {  // every ASCII byte at a position further on
  for (int b = 0; b < 128; b++)
    for (char f : {'k', 'K'}) one(c, gen::at_position(c.idx, f, std::string(1, char(b)), gen::after_position(c.idx, size_t(b))));
  c.show("every ASCII byte after " + std::to_string(c.idx) + " others");
}
PBT_MAIN("default", {"each-byte", each_byte, 41, 41, true}, {"each-position", each_position, 0x440, 0x440, true}, {"bytes", random_bytes, 1500000, 20000000}, {"ace", ace, 600000, 8000000}, {"long", longer, 30000, 500000})
