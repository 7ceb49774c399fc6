// C23: spellings that Unicode and UTS #46 call equivalent name the same host.
#include "../lib/props.hpp"
using namespace props;
namespace {
struct Inverse {
  std::map<u32, std::vector<uint32_t>> by_map;      // what maps to this string
  std::map<u32, std::vector<uint32_t>> by_nfd;      // what decomposes to this string
  size_t longest = 1;
  Inverse() {
    auto& d = ucd::data();
    for (uint32_t c = 0; c < ucd::N; c++) {
      if (!ref::scalar(c)) continue;
      if (ucd::status(c) == ucd::M) { auto& m = d.map.at(c); by_map[m].push_back(c); longest = std::max(longest, std::min<size_t>(m.size(), 4)); }
    }
  }
};
const Inverse& inv() { static const Inverse i; return i; }
const Inverse& warm_inverse = inv();
// One rewriting step that must not change the name.
u32 respell(Ctx& c, u32v in) {
  auto& t = c.t;
  u32 o;
  uint32_t rate = t.p(100) ? 200 : 60;
  for (size_t i = 0; i < in.size();) {
    if (t.p(20)) { o.push_back(t.of(gen::P().ignored)); c.label("ignored code point inserted"); }
    if (!t.p(rate)) { o.push_back(in[i++]); continue; }
    // a longer mapped sequence first, sometimes
    bool done = false;
    for (size_t k = t.p(90) ? inv().longest : 1; k >= 1 && !done; k--) {
      if (i + k > in.size()) continue;
      auto it = inv().by_map.find(u32(in.substr(i, k)));
      if (it == inv().by_map.end()) continue;
      o.push_back(it->second[t.u(uint32_t(it->second.size()))]);
      c.label(k > 1 ? "a sequence replaced by what maps to it" : "a code point replaced by what maps to it");
      i += k;
      done = true;
    }
    if (done) continue;
    if (in[i] >= 0x80) {
      u32 d = ref::nfd(in.substr(i, 1));
      if (d.size() > 1 || d[0] != in[i]) c.label("decomposed");
      o += d;
    } else o.push_back(in[i]);
    i++;
  }
  if (t.p(40)) { o = ref::nfd(o); c.label("wholly decomposed"); }
  if (t.p(30)) { o = ref::nfc(o); c.label("wholly composed"); }
  return o;
}
u32 base_domain(Tape& t) {
  u32 s;
  uint32_t n = 1 + t.u(3);
  for (uint32_t k = 0; k < n; k++) {
    if (k) s += U'.';
    static const uint8_t w[] = {60, 60, 40, 20, 30};
    u32 l;
    switch (t.pick(w)) {
      case 0: l = gen::raw_unicode_label(t); break;
      case 1: for (uint32_t j = 1 + t.u(8); j > 0; j--) l.push_back(gen::valid_cp(t)); break;
      case 2: l = gen::nfc_text(t, 6); break;
      case 3: { auto e = gen::ace_label(t); if (ref::ascii(e)) l = u32(e.begin(), e.end()); break; }
      default: l = gen::ascii_label(t); break;
    }
    u32 m;
    s += ref::map(l, m) ? ref::nfc(m) : U"caf\u00e9";
  }
  if (ref::ascii(s)) s += U"\u00e9";
  return s;
}
void equal(Ctx& c, const u32& a) {
  u32 b = respell(c, a);
  if (c.t.p(60)) b = respell(c, b);
  std::string x = ref::utf8(a), y = ref::utf8(b), ox, oy;
  c.show("to_ascii of " + q(a) + " and of " + q(b));
  if (x.size() > ref::kLimit || y.size() > ref::kLimit || ref::ascii(a) || ref::ascii(b)) { c.label("skipped"); return; }
  // the relation is UTS #46's own: mapping and normalising both gives the same text
  u32 ma, mb;
  if (!ref::map(a, ma) || !ref::map(b, mb) || ref::nfc(ma) != ref::nfc(mb)) { c.label("not equivalent after all"); return; }
  bool p = idna::to_ascii(x, ox), r = idna::to_ascii(y, oy);
  c.label(p ? "accepted" : "rejected");
  if (a != b) c.nontrivial(y);
  if (p != r || ox != oy) c.fail("the first is " + verdict(p, ox) + ", the second " + verdict(r, oy));
}
void equivalent(Ctx& c) { equal(c, base_domain(c.t)); }
void longer(Ctx& c) {
  auto& t = c.t;
  u32 a;
  size_t max = 5000;
  if (t.p(128)) { if (!ref::utf8_decode(gen::long_domain(t, max), a)) a = U"caf\u00e9"; }
  else a = gen::long_text<u32>(t, gen::long_len(t, max), U'a', [&] { return base_domain(t); });
  u32 m;
  if (ref::map(a, m)) a = ref::nfc(m);
  equal(c, a);
}
// A U-label and its A-label name the same host.
void a_label(Ctx& c) {
  u32 a = base_domain(c.t);
  std::string x = ref::utf8(a), ox, oy;
  c.show("to_ascii of " + q(a) + " and of the same with A-labels");
  if (!idna::to_ascii(x, ox)) { c.label("rejected"); return; }
  c.label("accepted");
  auto labels = ref::split(a);
  size_t i = 0;
  std::string y;
  bool uni = false;
  // spell each label either way, keeping at least one in Unicode
  std::vector<std::string> al;
  for (size_t k = 0; k <= ox.size();) { size_t d = ox.find('.', k); if (d == ox.npos) d = ox.size(); al.push_back(ox.substr(k, d - k)); k = d + 1; }
  if (al.size() != labels.size()) { c.label("labels merged by mapping"); return; }
  for (auto& l : labels) {
    bool use_a = c.t.p(128);
    if (i) y += '.';
    y += use_a ? al[i] : ref::utf8(l);
    uni |= !use_a && !ref::ascii(l);
    i++;
  }
  if (!uni) { oy = y; c.label("all A-labels"); std::string o; if (!idna::to_ascii(y, o) || o != ox) c.fail(q(y) + " gave " + q(o) + ", not " + q(ox)); return; }
  c.nontrivial(y);
  bool r = idna::to_ascii(y, oy);
  if (!r || oy != ox) c.fail("the first gives " + q(ox) + ", " + q(y) + " is " + verdict(r, oy));
}
void dots(Ctx& c) {  // all four label separators, and upper case
  u32 a = base_domain(c.t), b;
  for (char32_t x : a) {
    if (x == U'.') { static const char32_t d[] = {U'.', 0x3002, 0xFF0E, 0xFF61}; b.push_back(d[c.t.u(4)]); }
    else if (x >= 'a' && x <= 'z' && c.t.p(100)) b.push_back(x - 32);
    else if (x > 0x20 && x < 0x7F && c.t.p(60)) b.push_back(x - 0x20 + 0xFF00);
    else b.push_back(x);
  }
  std::string x = ref::utf8(a), y = ref::utf8(b), ox, oy;
  c.show("to_ascii of " + q(a) + " and of " + q(b));
  u32 ma, mb;
  if (!ref::map(a, ma) || !ref::map(b, mb) || ref::nfc(ma) != ref::nfc(mb)) { c.label("not equivalent after all"); return; }
  bool p = idna::to_ascii(x, ox), r = idna::to_ascii(y, oy);
  c.label(p ? "accepted" : "rejected");
  if (a != b) c.nontrivial(y);
  if (p != r || ox != oy) c.fail("the first is " + verdict(p, ox) + ", the second " + verdict(r, oy));
}
// Each code point by itself: a host with c equals the host with what c maps to.
void each(Ctx& c) {
  uint32_t b = uint32_t(c.idx) * 256;
  for (uint32_t cp = b; cp < b + 256; cp++) {
    if (!ref::scalar(cp) || cp >= ucd::N) continue;
    auto st = ucd::status(cp);
    if (st == ucd::D) continue;
    char32_t s[] = {char32_t(cp)};
    u32 m;
    ref::map(u32v(s, 1), m);
    u32 xs[] = {U"\u00fc" + u32(s, 1), U"\u00fc" + m, U"\u00fc" + ref::nfd(u32(s, 1)), U"\u00fc" + ref::nfc(u32(s, 1))};
    std::string o0;
    bool ok0 = idna::to_ascii(ref::utf8(xs[0]), o0);
    for (auto& x : xs) {
      u32 mm, m0;
      if (!ref::map(x, mm)) continue;
      ref::map(xs[0], m0);
      if (ref::nfc(mm) != ref::nfc(m0)) continue;
      std::string o;
      bool ok = idna::to_ascii(ref::utf8(x), o);
      if (ok != ok0 || o != o0) { c.show(q(xs[0]) + " and " + q(x)); c.fail("the first is " + verdict(ok0, o0) + ", the second " + verdict(ok, o)); }
    }
  }
  c.nontrivial(c.idx);
  c.show("every code point of a block of 256, against its mapping and its decomposition");
}
}  // namespace
PBT_MAIN("default", {"each-code-point", each, 0x1100, 0x1100, true}, {"equivalent", equivalent, 700000, 12000000}, {"a-label", a_label, 500000, 8000000}, {"dots", dots, 400000, 6000000}, {"long", longer, 6000, 120000})
