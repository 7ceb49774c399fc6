// Structured generators shared by the checks.
#pragma once
#include <array>
#include <map>
#include <set>

#include "ref.hpp"
#include "tape.hpp"

namespace gen {
using ref::u32;
using ref::u32v;

struct Pools {
  std::array<std::vector<uint32_t>, 24> bidi;        // valid code points by bidi class
  std::array<std::vector<uint32_t>, 5> join;         // valid code points by joining type (JU: a sample)
  std::vector<uint32_t> valid, mapped, ignored, disallowed, virama, mark0, markN, starters2, comps, singletons, lead, edges, map_dot, map_ascii, map_multi, newcp, table_edges;
  std::map<int, std::vector<uint32_t>> by_ccc;
  std::vector<std::array<uint32_t, 3>> pairs;        // composition pairs, all parts valid
  std::vector<uint32_t> cccs;
  std::vector<std::vector<uint32_t>> map_to_ace;     // unused
  Pools() {
    auto& d = ucd::data();
    for (uint32_t c = 0; c < ucd::N; c++) {
      if (!ref::scalar(c)) continue;
      if (c > 0 && c < ucd::N - 1 && (d.status[c] != d.status[c - 1] || d.bidi[c] != d.bidi[c - 1] || d.join[c] != d.join[c - 1] || d.mark[c] != d.mark[c - 1]) && c < 0x34000) {
        edges.push_back(c);
        if (ref::scalar(c - 1)) edges.push_back(c - 1);
      }
      if (c < 0x34000 && ((c & 63) == 0 || (c & 63) == 63)) table_edges.push_back(c);
      switch (ucd::status(c)) {
        case ucd::V:
          valid.push_back(c);
          if (c >= 0x80) bidi[d.bidi[c]].push_back(c);
          if (d.join[c] != ucd::JU) join[d.join[c]].push_back(c);
          if (d.virama[c]) virama.push_back(c);
          if (d.mark[c]) (d.ccc[c] ? markN : mark0).push_back(c);
          if (d.ccc[c]) by_ccc[d.ccc[c]].push_back(c);
          break;
        case ucd::M: {
          mapped.push_back(c);
          auto& m = d.map.at(c);
          if (m.find(U'.') != u32::npos) map_dot.push_back(c);
          else if (ref::ascii(m)) map_ascii.push_back(c);
          if (m.size() > 1) map_multi.push_back(c);
          break;
        }
        case ucd::I: ignored.push_back(c); break;
        case ucd::D: if (disallowed.size() < 4000 || c % 97 == 0) disallowed.push_back(c); break;
      }
      if (d.has_nfd[c]) (d.nfd.at(c).size() == 1 ? singletons : comps).push_back(c);
    }
    bidi[ucd::L].insert(bidi[ucd::L].begin(), {'a', 'b', 'z'});
    bidi[ucd::EN].insert(bidi[ucd::EN].begin(), {'0', '1', '9'});
    bidi[ucd::ES].insert(bidi[ucd::ES].begin(), {'-', '+'});
    for (auto b : {ucd::B, ucd::S, ucd::WS, ucd::Control, ucd::LRO, ucd::RLO, ucd::LRE, ucd::RLE, ucd::PDF, ucd::LRI, ucd::RLI, ucd::FSI, ucd::PDI})
      if (bidi[b].empty()) bidi[b].push_back(b == ucd::B ? 0xA : b == ucd::S ? 0x9 : ' ');
    for (auto& b : bidi) if (b.empty()) b.push_back('a');
    join[ucd::JU] = {'a', '1', 0xE9, 0x4E00, 0x915, 0x5D0, 0x3B1, 0x200C, 0x200D};
    for (auto& x : ucd::raw::kComp) {
      pairs.push_back({x.a, x.b, x.c});
    }
    for (auto& [k, v] : by_ccc) cccs.push_back(uint32_t(k));
  }
};
inline const Pools& P() {
  static const Pools p;
  return p;
}
inline const Pools* const warm = getenv("VERIF_LIFE") ? nullptr : &P();  // built before any worker is forked; not in the processes C26 starts
inline const std::vector<uint32_t>& specials() {
  static const std::vector<uint32_t> v = {
      0xDF, 0x3C2, 0x200C, 0x200D, 0x3002, 0xFF0E, 0xFF61, 0x1E9E, 0x130, 0x131, 0x212A, 0x212B, 0x2126, 0xAD, 0x34F, 0x180B, 0x180E, 0x200B, 0x2060, 0xFE0F, 0xFEFF, 0xE0100,
      0xE01EF, 0xE01F0, 0xE0001, 0x2260, 0x226E, 0x226F, 0x2F868, 0x2F9BF, 0x2183, 0x2132, 0x10FFFF, 0xFFFD, 0x2024, 0x2488, 0x33C2, 0xFDFA, 0x958, 0x0F77, 0x0344, 0x1109A,
      0x110AB, 0xAC00, 0xAC01, 0x1100, 0x1161, 0x11A7, 0x11A8, 0x11C2, 0xD7A3, 0x1112, 0x1175, 0x115F, 0x1160, 0x3164, 0xFFA0, 0x1D5F7, 0x4FF, 0x3400, 0x9FFF, 0x20000, 0x323AF, 0x323B0, 0x3347F,
      0x33479, 0x33480, 0xE000, 0xD7FF, 0xFFFF, 0x10000, 0x7FF, 0x800, 0x80, 0x7F, 0x1F600, 0x5D0, 0x627, 0x660, 0x6F0, 0x3A3, 0x1C4, 0x149, 0x1F0, 0x390, 0xFB1D, 0xFB4F, 0x0E33, 0x0EDC,
      0x2019, 0x3000, 0xA0, 0xA8, 0x2FF, 0x37A, 0x1FBD, 0x1FED, 0xFF0D, 0xFF21, 0xFF3A, 0xFF41, 0xFE52, 0xFE13, 0x33FF, 0x1F100, 0x1F10A, 0x1F130};
  return v;
}
inline uint32_t ldh(Tape& t) { return uint32_t("abcdefghijklmnopqrstuvwxyz0123456789-xn"[t.u(39)]); }

// One code point, biased towards those with interesting properties.
inline uint32_t any_cp(Tape& t) {
  static const uint8_t w[] = {70, 40, 24, 16, 16, 12, 16, 8, 8, 10, 8, 8, 6, 4, 4};
  auto& p = P();
  switch (t.pick(w)) {
    case 0: return ldh(t);
    case 1: return t.of(p.valid);
    case 2: return t.of(specials());
    case 3: return t.of(p.edges);
    case 4: return t.of(p.mapped);
    case 5: return t.of(p.markN);
    case 6: return t.of(p.bidi[t.u(11)]);
    case 7: return t.of(p.join[t.u(5)]);
    case 8: return t.of(p.comps);
    case 9: return 0x80 + t.u(0x800 - 0x80);
    case 10: return t.of(p.table_edges);
    case 11: return t.of(p.ignored);
    case 12: return 0xAC00 + t.u(11172);
    case 13: return 'A' + t.u(26);
    default: { uint32_t c = t.u(0x110000); return ref::scalar(c) ? c : 'a'; }
  }
}
inline uint32_t valid_cp(Tape& t) {
  static const uint8_t w[] = {60, 90, 20, 20, 20, 10, 10};
  auto& p = P();
  switch (t.pick(w)) {
    case 0: return ldh(t);
    case 1: return t.of(p.valid);
    case 2: return 0xE0 + t.u(0x20);
    case 3: return 0x430 + t.u(0x20);
    case 4: return 0x4E00 + t.u(0x5000);
    case 5: return t.of(p.markN);
    default: return 0xAC00 + t.u(11172);
  }
}
// ---- label families ----
inline u32 ascii_label(Tape& t) {
  u32 s;
  uint32_t n = 1 + t.size(62);
  for (uint32_t i = 0; i < n; i++) s.push_back(ldh(t));
  return s;
}
inline u32 mixed_label(Tape& t) {
  u32 s, alpha;
  uint32_t k = 1 + t.u(6);
  bool anyc = t.p(110);
  for (uint32_t i = 0; i < k; i++) alpha.push_back(anyc ? any_cp(t) : valid_cp(t));
  uint32_t n = 1 + t.size(40);
  for (uint32_t i = 0; i < n; i++) s.push_back(alpha[t.u(k)]);
  return s;
}
// Bidi: a label with a chosen direction that satisfies RFC 5893, then maybe broken in one place.
inline u32 bidi_label(Tape& t, int dir) {  // dir 0 LTR, 1 RTL
  using namespace ucd;
  auto& p = P();
  static const std::vector<int> ltr_mid = {L, EN, ES, CS, ET, ON, BN, NSM}, ltr_end = {L, EN}, rtl_start = {R, AL}, rtl_end = {R, AL, EN, AN};
  std::vector<int> cls;
  uint32_t n = t.u(6);
  bool use_an = t.p(128);
  auto num = [&](int c) { return dir && c == EN && use_an ? int(AN) : c; };
  if (dir == 0) {
    cls.push_back(L);
    for (uint32_t i = 0; i < n; i++) cls.push_back(t.of(ltr_mid));
    if (n) cls.push_back(t.of(ltr_end));
  } else {
    cls.push_back(t.of(rtl_start));
    for (uint32_t i = 0; i < n; i++) { int c = t.of(ltr_mid); cls.push_back(c == L ? int(R) : num(c)); }
    if (n) { int c = t.of(rtl_end); cls.push_back(c == AN && !use_an ? int(EN) : num(c)); }
  }
  for (uint32_t k = t.p(60) ? 1 + t.u(3) : 0; k > 0; k--) cls.push_back(NSM);
  if (t.p(96)) {  // break (or not): replace, insert or delete one class
    size_t i = t.u(uint32_t(cls.size()));
    int c = int(t.u(t.p(20) ? 24 : 11));
    switch (t.u(3)) {
      case 0: cls[i] = c; break;
      case 1: cls.insert(cls.begin() + long(i), c); break;
      default: if (cls.size() > 1) cls.erase(cls.begin() + long(i));
    }
  }
  u32 s;
  for (int c : cls) {
    auto& pool = p.bidi[size_t(c)];
    s.push_back(t.p(100) ? pool[t.u(uint32_t(std::min<size_t>(pool.size(), 8)))] : t.of(pool));
  }
  return s;
}
inline u32 joiner_label(Tape& t) {
  auto& p = P();
  u32 s;
  auto put = [&](int j) { s.push_back(t.of(p.join[size_t(j)])); };
  uint32_t groups = 1 + t.u(3);
  for (uint32_t g = 0; g < groups; g++) {
    static const uint8_t w[] = {90, 60, 50, 30, 20};
    switch (t.pick(w)) {
      case 0: {  // (L|D) T* ZWNJ T* (R|D), each part possibly of another type
        put(t.p(40) ? int(t.u(5)) : (t.p(60) ? ucd::JL : ucd::JD));
        for (uint32_t k = t.u(3); k > 0; k--) put(t.p(20) ? int(t.u(5)) : ucd::JT);
        s.push_back(0x200C);
        for (uint32_t k = t.u(3); k > 0; k--) put(t.p(20) ? int(t.u(5)) : ucd::JT);
        put(t.p(40) ? int(t.u(5)) : (t.p(128) ? ucd::JR : ucd::JD));
        break;
      }
      case 1: {  // base virama joiner [base]
        s.push_back(t.p(200) ? 0x915 + t.u(16) : any_cp(t));
        s.push_back(t.of(p.virama));
        s.push_back(t.p(128) ? 0x200C : 0x200D);
        if (t.p(150)) s.push_back(0x915 + t.u(16));
        break;
      }
      case 2: s.push_back(t.p(200) ? t.of(p.valid) : t.of(p.markN)); s.push_back(t.p(128) ? 0x200C : 0x200D); break;
      case 3: for (uint32_t k = 1 + t.u(3); k > 0; k--) put(int(t.u(5))); break;
      default: s.push_back(0x200C + t.u(2)); break;
    }
  }
  if (t.p(60)) { u32 b = bidi_label(t, int(t.u(2))); s += b; }
  return s;
}
// Text that exercises reordering and composition.
inline u32 nfc_text(Tape& t, uint32_t maxn = 8) {
  auto& p = P();
  u32 s;
  uint32_t n = 1 + t.u(maxn);
  for (uint32_t i = 0; i < n; i++) {
    static const uint8_t w[] = {40, 40, 40, 30, 20, 20, 16, 20, 16, 10};
    switch (t.pick(w)) {
      case 0: s.push_back(t.of(p.pairs)[0]); break;
      case 1: s.push_back(t.of(p.pairs)[1]); break;
      case 2: { auto& pr = t.of(p.pairs); s.push_back(pr[0]); if (t.p(90)) s.push_back(t.of(p.markN)); s.push_back(pr[1]); break; }
      case 3: s.push_back(t.of(p.pairs)[2]); break;
      case 4: s.push_back(t.of(p.by_ccc.at(int(t.of(p.cccs))))); break;
      case 5: s.push_back(0x300 + t.u(0x70)); break;
      case 6: s.push_back(t.of(p.comps)); break;
      case 7: {  // Hangul, including near misses
        static const std::vector<uint32_t> e = {0x1100, 0x1112, 0x1113, 0x10FF, 0x1161, 0x1175, 0x1160, 0x1176, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD788, 0xD7A3, 0xD7A4};
        uint32_t k = 1 + t.u(3);
        for (uint32_t j = 0; j < k; j++) {
          switch (t.u(6)) {
            case 0: s.push_back(0x1100 + t.u(19)); break;
            case 1: s.push_back(0x1161 + t.u(21)); break;
            case 2: s.push_back(0x11A8 + t.u(27)); break;
            case 3: s.push_back(0xAC00 + 28 * t.u(399)); break;
            case 4: s.push_back(0xAC00 + t.u(11172)); break;
            default: s.push_back(t.of(e));
          }
        }
        break;
      }
      case 8: s.push_back(any_cp(t)); break;
      default: s.push_back(t.of(p.singletons));
    }
  }
  return s;
}
inline u32 emoji_label(Tape& t) {
  u32 s;
  for (uint32_t n = 1 + t.u(4); n > 0; n--) {
    s.push_back(0x1F300 + t.u(0x400));
    if (t.p(60)) s.push_back(0xFE0F);
    if (t.p(30)) s.push_back(0x200D);
  }
  return s;
}
// A code point that differs from the given one in few bits or by little: what a lookup that remembers
// earlier answers under too short a key takes for the same one.
inline char32_t kin(Tape& t, char32_t c) {
  for (int k = 0; k < 6; k++) {
    uint32_t d = t.p(180) ? c ^ (1u << t.u(21)) : t.p(128) ? c + 0x10000 * (1 + t.u(3)) : c + 1 - 2 * t.u(2);
    if (ref::scalar(d) && d != c) return d;
  }
  return c;
}
inline bool composes(uint32_t c) {
  static const std::set<uint32_t> all = [] { std::set<uint32_t> s; for (auto& p : P().pairs) s.insert(p.begin(), p.end()); return s; }();
  return all.count(c) != 0;
}
inline void add_kin(Tape& t, u32& s) {
  if (s.empty()) return;
  for (uint32_t k = 1 + t.u(4); k > 0; k--) {
    size_t p = t.u(uint32_t(s.size()));
    char32_t x = kin(t, s[p]);
    if (t.p(180)) s.insert(s.begin() + long(t.p(200) ? p + 1 : t.u(uint32_t(s.size()))), x);
    else s[p] = x;
  }
}
inline u32 raw_unicode_label(Tape& t) {
  static const uint8_t w[] = {50, 60, 40, 50, 10, 4};
  switch (t.pick(w)) {
    case 0: return mixed_label(t);
    case 1: return bidi_label(t, t.p(150));
    case 2: return joiner_label(t);
    case 3: return nfc_text(t);
    case 4: return emoji_label(t);
    default: { u32 s = t.p(128) ? mixed_label(t) : bidi_label(t, t.p(150)); add_kin(t, s); return s; }
  }
}
// An ACE label: the Punycode of some label, raw or normalised, then maybe damaged.
inline std::string ace_label(Tape& t) {
  u32 l = raw_unicode_label(t), m;
  if (!t.p(70) && ref::map(l, m)) l = ref::nfc(m);
  if (t.p(16)) l = ascii_label(t);
  if (t.p(10)) l = U"xn--" + l;
  auto e = ref::puny_encode(l);
  std::string s = "xn--" + (e.ok ? e.out : std::string("abc-"));
  if (t.p(60)) {
    for (uint32_t k = 1 + t.u(2); k > 0; k--) {
      size_t i = t.u(uint32_t(s.size()));
      switch (t.u(8)) {
        case 0: s[i] = char(ldh(t)); break;
        case 1: s.insert(s.begin() + long(i), char(ldh(t))); break;
        case 2: if (s.size() > 1) s.erase(s.begin() + long(i)); break;
        case 3: s += '-'; break;
        case 4: s.insert(std::min<size_t>(4, s.size()), "-"); break;
        case 5: for (size_t k2 = i; k2 < s.size() && k2 < i + 3; k2++) s[k2] = char(toupper(s[k2])); break;
        case 6: s.insert(s.begin() + long(i), char(0x21 + t.u(94))); break;
        default: s.resize(i + 1);
      }
    }
  }
  return s;
}
// Punycode written delta by delta, aiming at the limits of code points and of 31- and 32-bit integers.
inline std::string puny_limits(Tape& t) {
  std::string s;
  uint64_t len = t.size(40);
  for (uint64_t k = 0; k < len; k++) s += char(ldh(t));
  if (len) s += '-';
  uint64_t n = 128, i = 0;
  int64_t bias = 72;
  for (uint32_t k = 1 + t.u(3); k > 0; k--) {
    uint64_t delta, cpn = len + 1, near = t.u(7), want;
    switch (t.u(8)) {
      case 0: delta = t.u(2000); break;
      case 1: want = 0x10FFFF; delta = want > n ? (want - n) * cpn - i + t.u(uint32_t(2 * cpn)) : 0; break;
      case 2: want = t.p(128) ? 0xD7FF : 0xDFFF; delta = want > n ? (want - n) * cpn + t.u(uint32_t(2 * cpn)) : 5; break;
      case 3: delta = 0x7fffffffull - i - 3 + near; break;
      case 4: delta = 0xffffffffull - i - 3 + near; break;
      case 5: delta = (0x7fffffffull - n) * cpn - 3 + near; break;
      case 6: delta = 0x100000000ull * (1 + t.u(4)) + t.u(3000); break;
      default: delta = t.u32(); if (t.p(80)) delta <<= t.u(8); break;
    }
    delta &= (1ull << 42) - 1;
    uint64_t q = delta;
    for (int64_t kk = 36;; kk += 36) {
      uint64_t th = uint64_t(kk <= bias ? 1 : kk >= bias + 26 ? 26 : kk - bias);
      if (q < th) break;
      uint64_t d = th + (q - th) % (36 - th);
      s += char(d < 26 ? 'a' + d : '0' + d - 26);
      q = (q - th) / (36 - th);
    }
    s += char(q < 26 ? 'a' + q : '0' + q - 26);
    bias = ref::adapt(int64_t(delta), int64_t(cpn), i == 0);
    i += delta;
    n += i / cpn;
    i = i % cpn + 1;
    len++;
  }
  return s;
}
// Arbitrary Punycode-looking text (not necessarily with a prefix).
inline std::string puny_text(Tape& t) {
  static const uint8_t w[] = {90, 60, 40, 20, 10, 36};
  switch (t.pick(w)) {
    case 5: return puny_limits(t);
    case 0: { std::string a = ace_label(t); return a.size() >= 4 ? a.substr(4) : a; }
    case 1: {
      std::string s;
      for (uint32_t n = t.size(40); n > 0; n--) s += char(ldh(t));
      return s;
    }
    case 2: {  // short digits only: walks the arithmetic
      std::string s;
      for (uint32_t n = t.u(10); n > 0; n--) s += "abcdefghijklmnopqrstuvwxyz0123456789"[t.u(36)];
      return s;
    }
    case 3: {  // around the 31-bit limit
      std::string s = t.p(128) ? "a-" : "";
      for (uint32_t n = 3 + t.u(9); n > 0; n--) s += t.p(160) ? '9' : char(ldh(t));
      return s;
    }
    default: {
      std::string s;
      for (uint32_t n = t.size(60); n > 0; n--) s += char(t.byte());
      return s;
    }
  }
}

struct Domain {
  std::string bytes;
  bool mutated = false;
};
inline void put_dot(Tape& t, std::string& o) {
  static const uint32_t dots[] = {'.', 0x3002, 0xFF0E, 0xFF61};
  ref::utf8_put(o, dots[t.p(60) ? t.u(4) : 0]);
}
// A whole domain, as UTF-8 bytes. unicode=true makes sure at least one label is not ASCII, usually.
inline Domain domain(Tape& t, bool unicode = true) {
  Domain d;
  uint32_t n = 1 + t.u(4);
  static const uint8_t theme_w[] = {120, 60, 30, 46};
  size_t theme = t.pick(theme_w);  // 0 any, 1 bidi domain, 2 valid only, 3 small
  uint32_t special = unicode ? t.u(n) : n;
  for (uint32_t i = 0; i < n; i++) {
    if (i) put_dot(t, d.bytes);
    if (t.p(8)) continue;  // empty label
    if (i != special && t.p(100)) { d.bytes += ref::utf8(t.p(40) ? u32{ldh(t)} : ascii_label(t)); continue; }
    if (t.p(50)) { d.bytes += ace_label(t); continue; }
    switch (theme) {
      case 0: d.bytes += ref::utf8(raw_unicode_label(t)); break;
      case 1: d.bytes += ref::utf8(bidi_label(t, t.p(150))); break;
      case 2: { u32 s; for (uint32_t k = 1 + t.size(20); k > 0; k--) s.push_back(valid_cp(t)); d.bytes += ref::utf8(s); break; }
      default: { u32 s; for (uint32_t k = 1 + t.u(3); k > 0; k--) s.push_back(any_cp(t)); d.bytes += ref::utf8(s); }
    }
  }
  if (t.p(14)) d.bytes += '.';
  if (t.p(10)) for (char& c : d.bytes) if (c >= 'a' && c <= 'z' && t.p(90)) c = char(c - 32);
  if (t.p(12) && !d.bytes.empty()) {  // damage the UTF-8
    d.mutated = true;
    for (uint32_t k = 1 + t.u(2); k > 0 && !d.bytes.empty(); k--) {
      size_t i = t.u(uint32_t(d.bytes.size()));
      switch (t.u(4)) {
        case 0: d.bytes[i] = char(t.byte()); break;
        case 1: d.bytes.insert(d.bytes.begin() + long(i), char(0x80 + t.u(128))); break;
        case 2: d.bytes.erase(d.bytes.begin() + long(i)); break;
        default: d.bytes.resize(i);
      }
    }
  }
  return d;
}
// ---- long inputs ----
// A length up to max: any magnitude, often at or next to a power of two or the maximum.
inline size_t long_len(Tape& t, size_t max) {
  static const uint8_t w[] = {100, 90, 40, 26};
  size_t n;
  switch (t.pick(w)) {
    case 0: n = (size_t(1) << (6 + t.u(9))) + t.u(9) - 4; break;
    case 1: n = 32u << t.u(9); n += t.u(uint32_t(n)); break;
    case 2: n = max - t.u(9); break;
    default: n = t.u(uint32_t(max) + 1); break;
  }
  return std::min(n, max);
}
// Text of exactly n units: a few generated pieces repeated, a tail of `pad`, then up to three
// more pieces written over it or (not changing the length) put at the very start or end.
template <class S, class F>
S long_text(Tape& t, size_t n, typename S::value_type pad, F piece) {
  std::vector<S> ps;
  for (uint32_t k = 1 + t.u(4); k > 0; k--) ps.push_back(piece());
  Rng64 r(t.u32());
  S s, tail;
  if (t.p(90)) tail = piece();
  if (tail.size() > n) tail.clear();
  size_t room = n - tail.size();
  for (uint32_t miss = 0; miss < 3 && s.size() < room;) {
    auto& p = ps[ps.size() == 1 ? 0 : (r.next() >> 20) % ps.size()];
    if (p.empty() || s.size() + p.size() > room) { miss++; continue; }
    s += p;
  }
  s.append(room - s.size(), pad);
  return s + tail;
}
// A long domain in UTF-8, at most max bytes.
// One code point over and over: marks, joiners, digits and letters that a label may hold in any number,
// after a base, before a tail.
inline u32 uniform_text(Tape& t, size_t n) {
  u32 head, tail;
  static const uint8_t w[] = {90, 40, 40, 40, 46};
  char32_t c;
  switch (t.pick(w)) {
    case 0: c = t.of(P().markN); break;
    case 1: c = t.p(128) ? 0x200D : 0x200C; head = t.p(128) ? U"\u0915\u094d" : U"\u0628"; break;
    case 2: c = t.p(128) ? 0x5D0 : 0x661; break;
    case 3: c = ldh(t); break;
    default: c = valid_cp(t); break;
  }
  if (head.empty() || t.p(60)) head = t.p(128) ? u32(1, valid_cp(t)) : t.p(128) ? u32(U"\u05d0") : u32(U"e");
  if (t.p(90)) tail = t.p(128) ? u32(1, valid_cp(t)) : bidi_label(t, int(t.u(2)));
  return head + u32(n, c) + tail;
}
// Longer still, for the functions that take any length: beyond what 15, 16 or 17 bits count.
inline size_t huge_len(Tape& t) {
  static const uint8_t w[] = {130, 60, 66};
  switch (t.pick(w)) {
    case 0: return (size_t(1) << (15 + t.u(4))) + t.u(9) - 4;
    case 1: return 65536 * (1 + t.u(3)) + t.u(3000);
    default: return 20000 + t.u(250000);
  }
}
inline u32 huge_cps(Tape& t, bool basic = false) {
  static const char32_t fill[] = {U'a', U'z', 0xE9, 0xDF, 0x4E00, 0x1F600, 0x5D0, 0x628, 0x3042, U'Z', 0xC9, 0xAC01, 0xFF21, 0x1D400};
  u32 s(huge_len(t), fill[t.u(basic ? 2 : 14)]);
  for (uint32_t k = t.u(5); k > 0; k--) {
    u32 p = t.p(90) ? raw_unicode_label(t) : t.p(90) ? nfc_text(t, 6) : t.p(90) ? bidi_label(t, int(t.u(2))) : t.p(128) ? joiner_label(t) : u32(1, any_cp(t));
    if (p.size() > 1000) p.resize(1000);
    size_t room = s.size() - p.size(), at = t.p(60) ? 0 : t.p(100) ? room : t.p(60) ? std::min<size_t>(room, 65536 - t.u(8)) : size_t(t.u(uint32_t(room + 1)));
    std::copy(p.begin(), p.end(), s.begin() + long(at));
  }
  return s;
}
// No code point: one, with bits above the 21 that code points have.
inline uint32_t beyond(Tape& t) {
  uint32_t c = t.p(100) ? ldh(t) : any_cp(t);
  c |= 1u << (21 + t.u(11));
  if (t.p(60)) c |= 1u << (21 + t.u(11));
  return c;
}
// One or two code points over and over, and far apart in it a few others that make a difference.
inline u32 sparse_text(Tape& t, size_t n) {
  static const char32_t fill[] = {U'a', 0x5D0, 0x628, U'1', 0x661, 0xE9, 0x915, 0x301, 0x4E00, 0x1D7F0, 0x323, 0xAC00, 0x640};
  u32 f(1, fill[t.u(13)]);
  if (t.p(60)) f += t.p(128) ? fill[t.u(13)] : valid_cp(t);
  u32 s;
  while (s.size() < n) s += f;
  s.resize(n);
  const bool rtl = f[0] == 0x5D0 || f[0] == 0x628 || f[0] == 0x661 || f[0] == 0x640;
  auto& p = P();
  auto odd = [&]() -> u32 {
    static const uint8_t w[] = {100, 40, 30, 30, 20, 20, 16};
    switch (t.pick(w)) {
      case 0: { auto& v = p.bidi[t.u(uint32_t(p.bidi.size()))]; return v.empty() ? u32(1, U'0') : u32(1, char32_t(t.of(v))); }
      case 1: return u32(1, t.p(128) ? U'0' : 0x661);
      case 2: return joiner_label(t);
      case 3: return u32(1, char32_t(t.of(p.markN)));
      case 4: return nfc_text(t, 3);
      case 5: return u32(1, any_cp(t));
      default: return u32(1, valid_cp(t));
    }
  };
  uint32_t k = 1 + t.u(4);
  size_t at[5];
  for (uint32_t i = 0; i < k; i++) at[i] = t.p(40) ? 0 : t.p(50) ? n : t.p(60) && n > 256 ? 256 : t.u(uint32_t(n + 1));
  for (uint32_t i = 0; i < k; i++) s.insert(std::min(at[i], s.size()), odd());
  if (rtl && t.p(128)) s.insert(s.begin(), 0x5D0);
  return s;
}
// For sub-properties over every position: a text of `fill` with `odd` at position p and something after it.
template <class S>
S at_position(size_t p, typename S::value_type fill, const S& odd, size_t after) { return S(p, fill) + odd + S(after, fill); }
inline size_t after_position(size_t p, size_t k) { static const size_t a[] = {0, 1, 3, 40, 7, 16}; return a[(p + k) % 6]; }
// A domain with such a label, also as an A-label, of at most max bytes or thereabouts.
inline std::string sparse_domain(Tape& t, size_t max) {
  u32 l = sparse_text(t, t.p(180) ? t.u(600) : long_len(t, max / 4)), m;
  if (t.p(200) && ref::map(l, m)) l = ref::nfc(m);
  std::string s = ref::utf8(l);
  if (t.p(128) && !ref::ascii(l)) { auto e = ref::puny_encode(l); if (e.ok) s = "xn--" + e.out; }
  if (t.p(60)) s = (t.p(128) ? "\xc3\xa9." : "a.") + s;
  if (t.p(60)) s += t.p(128) ? "." : ".\xd7\x90";
  return s;
}
inline std::string long_domain(Tape& t, size_t max) {
  if (t.p(40)) {
    size_t n = long_len(t, max);
    u32 s = t.p(150) ? sparse_text(t, n) : uniform_text(t, n);
    std::string o = ref::utf8(s);
    if (o.size() > max) {
      o.resize(max);
      while (!o.empty() && (o.back() & 0xC0) == 0x80) o.pop_back();
      if (!o.empty() && (o.back() & 0x80)) o.pop_back();
    }
    return o;
  }
  size_t n = long_len(t, max);
  static const uint8_t w[] = {90, 80, 50, 36};
  size_t kind = t.pick(w);
  bool dots = t.p(180);
  int dir = int(t.u(2));
  std::string s = long_text<std::string>(t, n, 'a', [&] {
    std::string p;
    switch (kind) {
      case 0: p = domain(t).bytes; break;
      case 1: {  // acceptable labels
        u32 l, m;
        for (uint32_t k = 1 + t.size(20); k > 0; k--) l.push_back(valid_cp(t));
        if (!ref::map(l, m) || !ref::label_valid(m = ref::nfc(m))) m = U"caf\u00e9";
        if (t.p(60) && !ref::ascii(m)) p = "xn--" + ref::puny_encode(m).out;
        else p = ref::utf8(m);
        break;
      }
      case 2: p = ref::utf8(bidi_label(t, t.p(20) ? !dir : dir)); break;
      default: p = ref::utf8(ascii_label(t)); break;
    }
    if (dots && t.p(180)) put_dot(t, p);
    return p;
  });
  if (kind == 3 && n > 4) {  // ASCII but for one code point somewhere
    std::string u;
    ref::utf8_put(u, any_cp(t));
    s.replace(t.p(60) ? 0 : t.p(60) ? s.size() - u.size() : t.u(uint32_t(s.size() - u.size() + 1)), u.size(), u);
  }
  return s;
}
// Long text for the functions on code points, of any of the families.
inline u32 long_cps(Tape& t, size_t max) {
  size_t n = long_len(t, max), kind = t.u(5);
  if (t.p(48)) {
    u32 s = t.p(128) ? sparse_text(t, n) : uniform_text(t, n);
    s.resize(std::min(s.size(), max));
    return s;
  }
  return long_text<u32>(t, n, U'a', [&] {
    u32 s;
    switch (kind) {
      case 0: return raw_unicode_label(t);
      case 1: for (uint32_t k = 1 + t.size(20); k > 0; k--) s.push_back(valid_cp(t)); return s;
      case 2: return nfc_text(t, 4);
      case 3: for (uint32_t k = 1 + t.u(6); k > 0; k--) s.push_back(t.of(P().markN)); return s;
      default: for (uint32_t k = 1 + t.size(40); k > 0; k--) s.push_back(ldh(t)); return s;
    }
  });
}
}  // namespace gen
