// Reference model: written from UTS #46 (revision for Unicode 17), RFC 3492,
// RFC 5892 appendix A (ContextJ), RFC 5893 section 2, UAX #15 and the WHATWG
// URL standard. Straight-line and slow on purpose; shares nothing with /repo.
#pragma once
#include <algorithm>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

#include "ucd.hpp"

namespace ref {
using u32 = std::u32string;
using u32v = std::u32string_view;

inline bool scalar(uint32_t c) { return c < 0xD800 || (c >= 0xE000 && c <= 0x10FFFF); }
inline bool ascii(std::string_view s) { return std::all_of(s.begin(), s.end(), [](unsigned char c) { return c < 0x80; }); }
inline bool ascii(u32v s) { return std::all_of(s.begin(), s.end(), [](char32_t c) { return c < 0x80; }); }
inline std::string lower(std::string_view s) {
  std::string o(s);
  for (char& c : o)
    if (c >= 'A' && c <= 'Z') c = char(c + 32);
  return o;
}

// ---- UTF-8 (RFC 3629, table 3-7 of the Unicode Standard) ----
inline bool utf8_decode(std::string_view s, u32& out) {
  out.clear();
  size_t i = 0, n = s.size();
  auto b = [&](size_t k) { return (unsigned char)s[k]; };
  auto in = [&](size_t k, unsigned lo, unsigned hi) { return k < n && b(k) >= lo && b(k) <= hi; };
  while (i < n) {
    unsigned c = b(i);
    if (c <= 0x7F) { out.push_back(c); i += 1; }
    else if (c >= 0xC2 && c <= 0xDF) {
      if (!in(i + 1, 0x80, 0xBF)) return false;
      out.push_back(((c & 0x1F) << 6) | (b(i + 1) & 0x3F)); i += 2;
    } else if (c >= 0xE0 && c <= 0xEF) {
      unsigned lo = c == 0xE0 ? 0xA0 : 0x80, hi = c == 0xED ? 0x9F : 0xBF;
      if (!in(i + 1, lo, hi) || !in(i + 2, 0x80, 0xBF)) return false;
      out.push_back(((c & 0xF) << 12) | ((b(i + 1) & 0x3F) << 6) | (b(i + 2) & 0x3F)); i += 3;
    } else if (c >= 0xF0 && c <= 0xF4) {
      unsigned lo = c == 0xF0 ? 0x90 : 0x80, hi = c == 0xF4 ? 0x8F : 0xBF;
      if (!in(i + 1, lo, hi) || !in(i + 2, 0x80, 0xBF) || !in(i + 3, 0x80, 0xBF)) return false;
      out.push_back(((c & 7) << 18) | ((b(i + 1) & 0x3F) << 12) | ((b(i + 2) & 0x3F) << 6) | (b(i + 3) & 0x3F)); i += 4;
    } else return false;
  }
  return true;
}
inline void utf8_put(std::string& o, uint32_t c) {  // also encodes non-scalars, for hostile inputs
  if (c < 0x80) o += char(c);
  else if (c < 0x800) { o += char(0xC0 | (c >> 6)); o += char(0x80 | (c & 0x3F)); }
  else if (c < 0x10000) { o += char(0xE0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 0x3F)); o += char(0x80 | (c & 0x3F)); }
  else { o += char(0xF0 | ((c >> 18) & 7)); o += char(0x80 | ((c >> 12) & 0x3F)); o += char(0x80 | ((c >> 6) & 0x3F)); o += char(0x80 | (c & 0x3F)); }
}
inline std::string utf8(u32v s) {
  std::string o;
  for (char32_t c : s) utf8_put(o, c);
  return o;
}

// ---- UTS #46 mapping (UseSTD3ASCIIRules=false, nontransitional) ----
inline bool map(u32v in, u32& out) {
  out.clear();
  for (char32_t c : in) switch (ucd::status(c)) {
      case ucd::V: out.push_back(c); break;
      case ucd::I: break;
      case ucd::M: out += ucd::data().map.at(c); break;
      case ucd::D: out.clear(); return false;
    }
  return true;
}

// ---- UAX #15 ----
constexpr uint32_t SB = 0xAC00, LB = 0x1100, VB = 0x1161, TB = 0x11A7, LC = 19, VC = 21, TC = 28, SC = LC * VC * TC;
inline u32 nfd(u32v in) {
  u32 o;
  for (char32_t c : in) {
    if (c >= SB && c < SB + SC) {
      uint32_t s = c - SB;
      o.push_back(LB + s / (VC * TC));
      o.push_back(VB + (s / TC) % VC);
      if (s % TC) o.push_back(TB + s % TC);
    } else if (c < ucd::N && ucd::data().has_nfd[c]) o += ucd::data().nfd.at(c);
    else o.push_back(c);
  }
  // canonical ordering: stable sort of each maximal run of non-starters
  for (size_t i = 0; i < o.size();) {
    if (ucd::ccc(o[i]) == 0) { i++; continue; }
    size_t j = i;
    while (j < o.size() && ucd::ccc(o[j]) != 0) j++;
    std::stable_sort(o.begin() + long(i), o.begin() + long(j), [](char32_t a, char32_t b) { return ucd::ccc(a) < ucd::ccc(b); });
    i = j;
  }
  return o;
}
inline uint32_t compose_pair(uint32_t a, uint32_t b) {
  if (a >= LB && a < LB + LC && b >= VB && b < VB + VC) return SB + ((a - LB) * VC + (b - VB)) * TC;
  if (a >= SB && a < SB + SC && (a - SB) % TC == 0 && b > TB && b < TB + TC) return a + (b - TB);
  auto it = ucd::data().comp.find((uint64_t(a) << 32) | b);
  return it == ucd::data().comp.end() ? 0 : it->second;
}
inline u32 nfc(u32v in) {
  u32 d = nfd(in), o;
  size_t starter = size_t(-1);
  int last = -1;  // ccc of the last character kept after the starter; -1 = none
  for (char32_t c : d) {
    int cc = ucd::ccc(c);
    if (starter != size_t(-1) && (last == -1 || (last != 0 && last < cc))) {
      uint32_t p = compose_pair(o[starter], c);
      if (p) { o[starter] = p; continue; }
    }
    o.push_back(c);
    if (cc == 0) { starter = o.size() - 1; last = -1; }
    else last = cc;
  }
  return o;
}
inline bool is_nfc(u32v s) { return nfc(s) == s; }

// ---- RFC 3492, in unbounded arithmetic ----
constexpr int64_t LIM31 = 0x7fffffff;
inline int64_t adapt(int64_t d, int64_t n, bool first) {
  d = first ? d / 700 : d / 2;
  d += d / n;
  int64_t k = 0;
  while (d > 455) { d /= 35; k += 36; }
  return k + 36 * d / (d + 38);
}
struct Puny {
  bool ok = false;      // well-formed by RFC 3492 (unbounded integers, lowercase digits only)
  bool over31 = false;  // some intermediate exceeds 2^31-1: an implementation may give up
  bool nonscalar = false;
  u32 out;
};
inline Puny puny_decode(std::string_view in) {
  Puny r;
  size_t d = in.rfind('-');
  if (d == 0 || d == std::string_view::npos) d = std::string_view::npos;  // a delimiter only counts after >0 basic code points
  std::string_view rest = in;
  if (d != std::string_view::npos) {
    for (unsigned char c : in.substr(0, d)) {
      if (c >= 0x80) return r;
      r.out.push_back(c);
    }
    rest = in.substr(d + 1);
  }
  using W = unsigned __int128;
  W n = 128, i = 0;
  int64_t bias = 72;
  const W CAP = W(1) << 100;
  while (!rest.empty()) {
    W oldi = i, w = 1;
    for (int64_t k = 36;; k += 36) {
      if (rest.empty()) return r;
      unsigned char c = (unsigned char)rest[0];
      rest.remove_prefix(1);
      int64_t dig;
      if (c >= 'a' && c <= 'z') dig = c - 'a';
      else if (c >= '0' && c <= '9') dig = c - '0' + 26;
      else return r;
      i += W(dig) * w;
      if (i > W(LIM31)) r.over31 = true;
      if (i > CAP) i = CAP;
      int64_t t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
      if (dig < t) break;
      w *= W(36 - t);
      if (w > W(LIM31)) r.over31 = true;
      if (w > (W(1) << 90)) w = W(1) << 90;
    }
    if (i >= (W(1) << 60)) { r.over31 = true; r.nonscalar = true; r.ok = false; return r; }  // cannot denote any code point
    W len = r.out.size() + 1;
    bias = adapt(int64_t(i - oldi), int64_t(len), oldi == 0);
    n += i / len;
    i %= len;
    if (n > W(0x10FFFF) || (n >= 0xD800 && n <= 0xDFFF)) r.nonscalar = true;
    if (n > W(LIM31)) { r.over31 = true; return r; }
    r.out.insert(r.out.begin() + long(i), char32_t(uint32_t(n)));
    i += 1;
  }
  r.ok = true;
  return r;
}
inline bool ace_prefix(u32v s) { return s.substr(0, 4) == U"xn--"; }
struct Enc {
  bool ok = false, over31 = false;
  bool back31 = false;  // ... only when it is decoded again: decoding counts on from the last place of insertion
  std::string out;
};
inline Enc puny_encode(u32v in) {
  Enc r;
  for (char32_t c : in)
    if (!scalar(c)) return r;
  for (char32_t c : in)
    if (c < 0x80) r.out += char(c);
  size_t b = r.out.size(), h = b;
  if (b) r.out += '-';
  int64_t n = 128, delta = 0, bias = 72, top = 0;
  while (h < in.size()) {
    int64_t m = 0x7fffffff;
    for (char32_t c : in)
      if (int64_t(c) >= n && int64_t(c) < m) m = c;
    delta += (m - n) * int64_t(h + 1);
    n = m;
    if (delta > LIM31) r.over31 = true;
    for (char32_t c : in) {
      if (int64_t(c) < n) { delta++; if (delta > LIM31) r.over31 = true; }
      if (int64_t(c) == n) {
        int64_t q = delta;
        top = std::max(top, q);
        for (int64_t k = 36;; k += 36) {
          int64_t t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
          if (q < t) break;
          int64_t dg = t + (q - t) % (36 - t);
          r.out += char(dg < 26 ? 'a' + dg : '0' + dg - 26);
          q = (q - t) / (36 - t);
        }
        r.out += char(q < 26 ? 'a' + q : '0' + q - 26);
        bias = adapt(delta, int64_t(h + 1), h == b);
        delta = 0;
        h++;
      }
    }
    delta++;
    n++;
  }
  r.ok = true;
  if (top > LIM31 / 2) r.back31 = puny_decode(r.out).over31;
  return r;
}

// ---- validity (UTS #46 section 4.1; CheckHyphens=false, CheckJoiners, CheckBidi) ----
inline bool contextj(u32v s) {
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != 0x200C && s[i] != 0x200D) continue;
    if (i > 0 && ucd::virama(s[i - 1])) continue;
    if (s[i] == 0x200D) return false;
    bool before = false, after = false;
    for (size_t k = i; k-- > 0;) {
      auto j = ucd::join(s[k]);
      if (j == ucd::JT) continue;
      before = j == ucd::JL || j == ucd::JD;
      break;
    }
    for (size_t k = i + 1; k < s.size(); k++) {
      auto j = ucd::join(s[k]);
      if (j == ucd::JT) continue;
      after = j == ucd::JR || j == ucd::JD;
      break;
    }
    if (!before || !after) return false;
  }
  return true;
}
inline bool rtl_content(u32v s) {
  return std::any_of(s.begin(), s.end(), [](char32_t c) { auto b = ucd::bidi(c); return b == ucd::R || b == ucd::AL || b == ucd::AN; });
}
inline bool bidi_rule(u32v s) {  // RFC 5893 section 2, conditions 1-6
  if (s.empty()) return true;
  using namespace ucd;
  auto first = bidi(s[0]);
  bool rtl = first == R || first == AL;
  if (!rtl && first != ucd::L) return false;                      // 1
  bool en = false, an = false;
  for (char32_t c : s) {
    auto b = bidi(c);
    bool common = b == EN || b == ES || b == CS || b == ET || b == ON || b == BN || b == NSM;
    if (rtl ? !(common || b == R || b == AL || b == AN) : !(common || b == ucd::L)) return false;  // 2, 5
    en |= b == EN;
    an |= b == AN;
  }
  if (rtl && en && an) return false;                               // 4
  size_t k = s.size();
  while (k > 0 && bidi(s[k - 1]) == NSM) k--;
  if (k == 0) return false;
  auto last = bidi(s[k - 1]);
  return rtl ? (last == R || last == AL || last == EN || last == AN) : (last == ucd::L || last == EN);  // 3, 6
}
// The label-local part: everything that does not depend on the other labels.
inline bool label_valid_nobidi(u32v s) {
  if (s.empty()) return true;
  return !ucd::mark(s[0]) && contextj(s);
}
inline bool label_valid(u32v s) { return label_valid_nobidi(s) && (!rtl_content(s) || bidi_rule(s)); }
inline bool stable(u32v s) {  // every code point valid, and in NFC
  for (char32_t c : s)
    if (ucd::status(c) != ucd::V) return false;
  return is_nfc(s);
}

constexpr size_t kLimit = 16384;

enum Why { OK, ASCII_ONLY, TOO_LONG, BAD_UTF8, DISALLOWED, ACE_NONASCII, ACE_DECODE, ACE_ASCII, ACE_XN, ACE_UNSTABLE, MARK_OR_JOINER, BIDI, WHY_N };
inline const char* why_name(Why w) {
  static const char* n[] = {"ok", "ascii-only", "too-long", "bad-utf8", "disallowed", "ace-nonascii", "ace-decode", "ace-ascii", "ace-double", "ace-unstable", "mark-or-joiner", "bidi"};
  return n[w];
}
struct ToAscii {
  bool ok = false;
  bool either = false;  // beyond 2^31-1 in Punycode: failing is also acceptable
  Why why = OK;
  std::string out;
  std::vector<u32> labels;  // decoded labels (non-ASCII input only)
  bool bidi_domain = false;
};
inline std::vector<u32> split(u32v s) {
  std::vector<u32> v(1);
  for (char32_t c : s)
    if (c == U'.') v.emplace_back();
    else v.back().push_back(c);
  return v;
}
inline ToAscii to_ascii(std::string_view in) {
  ToAscii r;
  auto fail = [&](Why w) { r.ok = false; r.out.clear(); r.why = w; return r; };
  if (in.size() > kLimit) return fail(TOO_LONG);
  if (ascii(in)) { r.ok = true; r.out = lower(in); r.why = ASCII_ONLY; return r; }
  u32 cps, mapped;
  if (!utf8_decode(in, cps)) return fail(BAD_UTF8);
  if (!map(cps, mapped)) return fail(DISALLOWED);
  auto labels = split(nfc(mapped));
  std::vector<std::string> enc;
  for (auto& l : labels) {
    if (ace_prefix(l)) {
      if (!ascii(l)) return fail(ACE_NONASCII);
      std::string a(l.begin(), l.end());
      Puny p = puny_decode(std::string_view(a).substr(4));
      if (p.over31) r.either = true;
      if (!p.ok) return fail(ACE_DECODE);
      if (ascii(p.out)) return fail(ACE_ASCII);
      if (ace_prefix(p.out)) return fail(ACE_XN);
      if (!stable(p.out)) return fail(ACE_UNSTABLE);
      if (!label_valid_nobidi(p.out)) return fail(MARK_OR_JOINER);
      enc.push_back(a);
      l = p.out;
    } else if (ascii(l)) {
      enc.emplace_back(l.begin(), l.end());
    } else {
      if (!label_valid_nobidi(l)) return fail(MARK_OR_JOINER);
      Enc e = puny_encode(l);
      if (e.over31 || e.back31) r.either = true;
      enc.push_back("xn--" + e.out);
    }
  }
  r.labels = labels;
  for (auto& l : labels) r.bidi_domain |= rtl_content(l);
  if (r.bidi_domain)
    for (auto& l : labels)
      if (!bidi_rule(l)) return fail(BIDI);
  for (size_t i = 0; i < enc.size(); i++) r.out += (i ? "." : "") + enc[i];
  r.ok = true;
  return r;
}

// ToUnicode as the header specifies it: label by label; an A-label that decodes
// to a label which UTS #46 accepts is replaced, anything else is kept verbatim.
struct ToUni {
  bool ok = true;
  bool either = false;
  std::string out, alt;  // alt: acceptable instead when either (the label kept)
  int decoded = 0, kept_ace = 0;
};
inline bool ace_label_decodes(std::string_view label, u32& out, bool& over31) {
  over31 = false;
  if (label.size() < 4 || !ascii(label)) return false;
  std::string l = lower(label);
  if (l.compare(0, 4, "xn--") != 0) return false;
  Puny p = puny_decode(std::string_view(l).substr(4));
  over31 = p.over31;
  if (!p.ok || ascii(p.out) || ace_prefix(p.out) || !stable(p.out) || !label_valid(p.out)) return false;
  out = p.out;
  return true;
}
inline ToUni to_unicode(std::string_view in) {
  ToUni r;
  if (in.size() > kLimit) { r.ok = false; return r; }
  size_t i = 0;
  while (true) {
    size_t d = in.find('.', i);
    auto label = in.substr(i, d == std::string_view::npos ? d : d - i);
    u32 dec;
    bool over;
    if (ace_label_decodes(label, dec, over)) { r.out += utf8(dec); r.alt += over ? std::string(label) : utf8(dec); r.decoded++; }
    else {
      r.out += label; r.alt += label;
      if (lower(label.substr(0, 4)) == "xn--") r.kept_ace++;
    }
    r.either |= over;
    if (d == std::string_view::npos) break;
    r.out += '.'; r.alt += '.';
    i = d + 1;
  }
  return r;
}

inline bool forbidden_domain(unsigned char c) {  // WHATWG forbidden domain code point, ASCII part
  if (c <= 0x20 || c == 0x7F) return true;
  return std::string_view("#/:<>?@[\\]^|%").find(char(c)) != std::string_view::npos;
}
}  // namespace ref
