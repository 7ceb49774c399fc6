// Any public call on any input as a value: which function, its input and its result as
// bytes, and what the model says the result is. For checks that make calls elsewhere
// than in the process that judges them.
#pragma once
#include "props.hpp"
namespace calls {
using namespace props;
enum Kind : uint32_t { TO_ASCII, TO_ASCII_RET, TO_UNICODE, TO_UNICODE_RET, MAP, NORMALIZE, VALID, NAME, ENCODE, DECODE, VERIFY, FORBIDDEN, ASCII_MAP, RTL, TO_UTF8, TO_UTF32, NFC, NKIND };
inline const char* const kinds[] = {"to_ascii", "to_ascii (returning)", "to_unicode", "to_unicode (returning)", "map", "normalize", "is_label_valid", "valid_name_code_point", "utf32_to_punycode", "punycode_to_utf32", "verify_punycode", "contains_forbidden_domain_code_point", "ascii_map", "is_rtl_label", "utf32_to_utf8", "utf8_to_utf32", "is_already_nfc"};
// The library call; its result as bytes. Uses nothing that needs initialisation.
inline std::string call(uint32_t kind, const char* in, size_t len) {
  auto words = [&] { u32 w(len / 4, 0); memcpy(w.data(), in, w.size() * 4); return w; };
  auto raw = [](const u32& w) { return std::string(reinterpret_cast<const char*>(w.data()), w.size() * 4); };
  std::string o;
  u32 w;
  switch (kind) {
    case TO_ASCII: return idna::to_ascii({in, len}, o) ? "+" + o : "-" + o;
    case TO_ASCII_RET: return idna::to_ascii({in, len});
    case TO_UNICODE: return idna::to_unicode({in, len}, o) ? "+" + o : "-" + o;
    case TO_UNICODE_RET: return idna::to_unicode({in, len});
    case MAP: { bool r = idna::map(words(), w); return r ? "+" + raw(w) : "-"; }
    case NORMALIZE: { w = words(); return idna::normalize(w) ? "+" + raw(w) : "-"; }
    case VALID: return idna::is_label_valid(words()) ? "+" : "-";
    case NAME: { w = words(); return idna::valid_name_code_point(w[0], w[1] != 0) ? "+" : "-"; }
    case ENCODE: { bool r = idna::utf32_to_punycode(words(), o); return r ? "+" + o : "-"; }
    case DECODE: { bool r = idna::punycode_to_utf32({in, len}, w); return r ? "+" + raw(w) : "-"; }
    case VERIFY: return idna::verify_punycode({in, len}) ? "+" : "-";
    case FORBIDDEN: return idna::contains_forbidden_domain_code_point({in, len}) ? "+" : "-";
    case ASCII_MAP: o.assign(in, len); idna::ascii_map(o.data(), o.size()); return o;
    case RTL: return idna::is_rtl_label(words()) ? "+" : "-";
    case TO_UTF8: {
      w = words();
      o.resize(idna::utf8_length_from_utf32(w.data(), w.size()));
      o.resize(idna::utf32_to_utf8(w.data(), w.size(), o.data()));
      return o;
    }
    case TO_UTF32: {
      w.resize(idna::utf32_length_from_utf8(in, len));
      w.resize(idna::utf8_to_utf32(in, len, w.data()));
      return raw(w);
    }
    default: return idna::is_already_nfc(words()) ? "+" : "-";
  }
}
struct Want { std::string a; bool either = false; std::string b; };
inline std::string raw(const u32& w) { return std::string(reinterpret_cast<const char*>(w.data()), w.size() * 4); }
inline std::string input(Tape& t, uint32_t kind, std::string& shown, Want& w) {
  const bool none = t.p(16);  // the empty text, of any kind
  auto label = [&] { return none ? u32() : gen::raw_unicode_label(t); };
  bool lng = t.p(20);
  auto bytes = [&](std::string s) { shown = q(s); return s; };
  auto words = [&](u32 s) { shown = q(s); return raw(s); };
  switch (kind) {
    case TO_ASCII: case TO_ASCII_RET: {
      std::string s = bytes(none ? "" : lng ? gen::long_domain(t, ref::kLimit) : gen::domain(t).bytes);
      auto r = ref::to_ascii(s);
      w.either = r.either;
      w.a = kind == TO_ASCII ? (r.ok ? "+" : "-") + r.out : r.out;
      w.b = kind == TO_ASCII ? "-" : "";
      return s;
    }
    case TO_UNICODE: case TO_UNICODE_RET: {
      std::string s = bytes(none ? "" : lng ? gen::long_text<std::string>(t, gen::long_len(t, ref::kLimit), 'a', [&] { return gen::ace_label(t) + "."; }) : gen::ace_label(t));
      auto r = ref::to_unicode(s);
      std::string p = kind == TO_UNICODE ? (r.ok ? "+" : "-") : "";
      w.a = p + (r.ok ? r.out : kind == TO_UNICODE ? "" : s);
      w.either = r.either;
      w.b = p + r.alt;
      return s;
    }
    case MAP: {
      u32 s = label(), o;
      w.a = ref::map(s, o) ? "+" + raw(o) : "-";
      return words(s);
    }
    case NORMALIZE: {
      u32 s = none ? u32() : gen::nfc_text(t, lng ? 300 : 8);
      w.a = "+" + raw(ref::nfc(s));
      return words(s);
    }
    case VALID: {
      u32 s = label(), m;
      if (ref::map(s, m)) s = ref::nfc(m);
      if (!ref::stable(s) || ref::ace_prefix(s) || s.find(U'.') != s.npos) s = U"\u05d0\u0301";
      w.a = ref::label_valid(s) ? "+" : "-";
      return words(s);
    }
    case NAME: {
      u32 s{char32_t(gen::any_cp(t)), char32_t(t.p(128))};
      auto& d = ucd::data();
      const bool in = s[0] < ucd::N, first = s[1] != 0;
      w.a = (s[0] == '$' || (first ? (in && d.idstart[s[0]]) || s[0] == '_' : (in && d.idcont[s[0]]) || s[0] == 0x200C || s[0] == 0x200D)) ? "+" : "-";
      return words(s);
    }
    case ENCODE: {
      u32 s = label();
      auto r = ref::puny_encode(s);
      w.a = r.ok ? "+" + r.out : "-";
      w.either = r.over31;
      w.b = "-";
      return words(s);
    }
    case DECODE: case VERIFY: {
      std::string s = bytes(none ? "" : gen::puny_text(t));
      auto r = ref::puny_decode(s);
      bool ok = r.ok && !ref::ace_prefix(r.out);
      w.a = ok ? "+" + (kind == DECODE ? raw(r.out) : "") : "-";
      w.either = r.over31 || r.nonscalar;
      w.b = "-";
      return s;
    }
    case FORBIDDEN: case ASCII_MAP: {
      std::string s = none ? "" : ref::utf8(gen::ascii_label(t));
      if (!none && t.p(128)) s += ref::utf8(gen::ascii_label(t));
      for (char& x : s) x = char(x & 127);
      if (t.p(40) && !s.empty()) s[t.u(uint32_t(s.size()))] = char(t.u(128));
      bool f = std::any_of(s.begin(), s.end(), [](char x) { return ref::forbidden_domain((unsigned char)x); });
      w.a = kind == ASCII_MAP ? ref::lower(s) : f ? "+" : "-";
      return bytes(s);
    }
    case RTL: {
      u32 s = label();
      for (auto& x : s) if (ucd::status(x) != ucd::V) x = 0x5D0;
      w.a = ref::rtl_content(s) ? "+" : "-";
      return words(s);
    }
    case TO_UTF8: case TO_UTF32: {
      u32 s = label();
      for (auto& x : s) if (!ref::scalar(x)) x = U'x';
      w.a = kind == TO_UTF8 ? ref::utf8(s) : raw(s);
      return kind == TO_UTF8 ? words(s) : bytes(ref::utf8(s));
    }
    default: {
      u32 s = none ? u32() : gen::nfc_text(t, 8);
      w.a = ref::is_nfc(s) ? "+" : "-";
      w.either = true;  // the header lets it say no before the tables are loaded
      w.b = "-";
      return words(s);
    }
  }
}
}  // namespace calls
