// C21: contains_forbidden_domain_code_point is WHATWG's forbidden domain code point test.
#include "../lib/props.hpp"
using namespace props;
static void is(Ctx& c, const std::string& s) {
  bool want = std::any_of(s.begin(), s.end(), [](char x) { return ref::forbidden_domain((unsigned char)x); });
  // a view into the middle of a larger buffer whose neighbours are forbidden (or not)
  for (char nb : {'%', 'a'}) {
    std::string b = std::string(9, nb) + s + std::string(9, nb);
    bool got = idna::contains_forbidden_domain_code_point(std::string_view(b).substr(9, s.size()));
    if (got != want) { c.show("contains_forbidden_domain_code_point(" + q(s) + ")"); c.fail(std::string("said ") + (got ? "yes" : "no") + ", surrounded by '" + nb + "'"); }
  }
}
// every ASCII byte at every position of strings of every length up to 40
static void each(Ctx& c) {
  uint32_t n = uint32_t(c.idx) + 1;
  for (uint32_t p = 0; p < n; p++)
    for (int b = 0; b < 128; b++)
      for (char f : {'a', '-', '.', '0', '~', 'Z', '_', '!', '+'}) {
        std::string s(n, f);
        s[p] = char(b);
        is(c, s);
      }
  c.show("every ASCII byte at every position of a string of " + std::to_string(n) + " bytes");
  c.nontrivial(c.idx);
}
static void pairs(Ctx& c) {  // every pair of ASCII bytes
  for (int b = 0; b < 128; b++) { std::string s = {char(c.idx), char(b)}; is(c, s); }
  c.show("the byte " + std::to_string(c.idx) + " followed by every ASCII byte");
  c.nontrivial(c.idx);
}
static void random(Ctx& c) {
  auto& t = c.t;
  std::string s;
  bool any = t.p(60);
  for (uint32_t n = t.size(300); n > 0; n--) s += any ? char(t.byte() & 127) : "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()*+,;=`{}\""[t.u(82)];
  if (t.p(90) && !s.empty()) s[t.u(uint32_t(s.size()))] = char(t.byte() & 127);
  c.show("contains_forbidden_domain_code_point(" + q(s) + ")");
  c.nontrivial(s);
  c.label(std::any_of(s.begin(), s.end(), [](char x) { return ref::forbidden_domain((unsigned char)x); }) ? "forbidden" : "allowed");
  is(c, s);
}
static void of_results(Ctx& c) {  // on what to_ascii returns, which is how a URL parser uses it
  std::string in = gen::domain(c.t, !c.t.p(60)).bytes, out;
  if (c.t.p(80)) in.insert(c.t.u(uint32_t(in.size() + 1)), 1, char(c.t.byte() & 127));
  c.show("the result of to_ascii(" + q(in) + ")");
  if (!idna::to_ascii(in, out)) { c.label("rejected by to_ascii"); return; }
  c.nontrivial(in);
  is(c, out);
}
static void longer(Ctx& c) {
  auto& t = c.t;
  std::string s(t.p(8) ? gen::huge_len(t) : gen::long_len(t, 40000), char("az-.0~_"[t.u(7)]));
  if (!s.empty() && t.p(200)) s[t.p(60) ? s.size() - 1 : t.u(uint32_t(s.size()))] = char(t.byte() & 127);
  c.show("contains_forbidden_domain_code_point of " + std::to_string(s.size()) + " bytes");
  c.nontrivial(s);
  is(c, s);
}
static void each_position(Ctx& c) {  // every ASCII byte at a position further on
  for (int b = 0; b < 128; b++)
    for (char f : {'a', '.'}) is(c, gen::at_position(c.idx, f, std::string(1, char(b)), gen::after_position(c.idx, size_t(b)) + (b & 1 ? 1000 : 0)));
  c.show("every ASCII byte after " + std::to_string(c.idx) + " others");
  c.nontrivial(c.idx);
}
PBT_MAIN("default", {"each-byte", each, 40, 40, true}, {"pairs", pairs, 128, 128, true}, {"each-position", each_position, 0x440, 0x440, true}, {"random", random, 2500000, 40000000}, {"results", of_results, 400000, 8000000}, {"long", longer, 30000, 500000})
