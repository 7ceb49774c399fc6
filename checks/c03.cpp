// C03: whatever to_ascii accepts is lower-case ASCII and a fixed point.
#include "../lib/props.hpp"
using namespace props;
static void check(Ctx& c, const std::string& in) {
  c.show("to_ascii(" + q(in) + ")");
  std::string a;
  if (!idna::to_ascii(in, a)) {
    c.label("rejected");
    if (!a.empty()) c.fail("rejected but output is " + q(a));
    return;
  }
  c.label(ref::ascii(in) ? "ASCII" : "Unicode accepted");
  if (!ref::ascii(in)) c.nontrivial(in);
  for (unsigned char ch : a)
    if (ch >= 0x80 || (ch >= 'A' && ch <= 'Z')) c.fail("output " + q(a) + " has a byte that is not lower-case ASCII");
  std::string again;
  if (a.size() > ref::kLimit) c.label("longer than to_ascii takes");  // mapping can multiply the length
  else if (!idna::to_ascii(a, again) || again != a) c.fail("to_ascii of its own output " + q(a) + " gave " + q(again));
  if (ref::ascii(in)) {
    if (a.size() != in.size()) c.fail("ASCII input changed length: " + q(a));
    return;
  }
  if (a.find("xn--") == std::string::npos && !in.empty()) c.label("maps to plain ASCII");
  // every label is a plain ASCII label or an A-label that decodes to a non-ASCII, mapped, normalised label
  size_t i = 0;
  while (true) {
    size_t d = a.find('.', i);
    std::string l = a.substr(i, d == std::string::npos ? d : d - i);
    if (l.compare(0, 4, "xn--") == 0) {
      u32 u, m;
      if (!idna::punycode_to_utf32(std::string_view(l).substr(4), u)) c.fail("A-label " + q(l) + " of the output does not decode");
      if (!idna::verify_punycode(std::string_view(l).substr(4))) c.fail("A-label " + q(l) + " of the output does not verify");
      if (ref::ascii(u)) c.fail("A-label " + q(l) + " of the output decodes to ASCII");
      if (!idna::map(u, m) || m != u) c.fail("A-label " + q(l) + " of the output is not stable under mapping");
      if (!idna::is_already_nfc(u)) c.fail("A-label " + q(l) + " of the output is not in NFC");
      if (!idna::is_label_valid(u)) c.fail("A-label " + q(l) + " of the output is not a valid label");
      std::string p;
      if (!idna::utf32_to_punycode(u, p) || "xn--" + p != l) c.fail("A-label " + q(l) + " re-encodes to " + q(p));
    }
    if (d == std::string::npos) break;
    i = d + 1;
  }
}
static void shape(Ctx& c) {
  auto& t = c.t;
  std::string in;
  if (t.p(30)) { for (uint32_t n = t.size(80); n > 0; n--) in += char(t.byte()); }
  else in = gen::domain(t, !t.p(30)).bytes;
  check(c, in);
}
static void longer(Ctx& c) { check(c, gen::long_domain(c.t, ref::kLimit)); }
PBT_MAIN("default", {"shape", shape, 2500000, 40000000}, {"long", longer, 8000, 150000})
