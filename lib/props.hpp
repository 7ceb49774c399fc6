// Oracles shared by several checks. Each takes a generated input, runs the real
// library on it and compares with the reference model.
#pragma once
#ifdef ADA_HEADER
#include ADA_HEADER
#else
#include "idna.h"
#endif
#include "engine.hpp"
#include "gen.hpp"

namespace props {
using namespace pbt;
using ref::u32;
using ref::u32v;
namespace idna = ada::idna;

inline std::string verdict(bool ok, const std::string& out) { return ok ? "accepted, giving " + q(out) : std::string("rejected"); }

// to_ascii against the UTS #46 model.
inline void to_ascii_is(Ctx& c, const std::string& in) {
  c.show("to_ascii(" + q(in) + ")");
  auto r = ref::to_ascii(in);
  std::string out = "junk";
  bool ok = idna::to_ascii(in, out);
  c.label(ref::why_name(r.why));
  if (r.bidi_domain) c.label("bidi-domain");
  if (!ref::ascii(in)) c.nontrivial(in);
  if (r.either && !ok) { c.label("beyond 2^31-1: rejected"); return; }
  if (ok != r.ok)
    c.fail("to_ascii " + verdict(ok, out) + "; UTS #46 says " + (r.ok ? "accept, giving " + q(r.out) : std::string("reject: ") + ref::why_name(r.why)));
  if (ok && out != r.out) c.fail("to_ascii gave " + q(out) + ", UTS #46 gives " + q(r.out));
  if (!ok && !out.empty()) c.fail("to_ascii failed but left " + q(out) + " in its output");
  std::string s = idna::to_ascii(in);
  if (s != out) c.fail("to_ascii(input) returned " + q(s) + ", to_ascii(input, out) gave " + q(out));
}
// to_unicode against the label-wise model.
inline void to_unicode_is(Ctx& c, const std::string& in) {
  c.show("to_unicode(" + q(in) + ")");
  auto r = ref::to_unicode(in);
  std::string out = "junk";
  bool ok = idna::to_unicode(in, out);
  c.label(!r.ok ? "too-long" : r.decoded ? "some label decoded" : r.kept_ace ? "only undecodable A-labels" : "no A-label");
  if (r.decoded || r.kept_ace) c.nontrivial(in);
  if (ok != r.ok) c.fail(std::string("to_unicode returned ") + (ok ? "true" : "false"));
  std::string want = ok ? r.out : "";
  if (out != want && !(r.either && ok && out == r.alt)) c.fail("to_unicode gave " + q(out) + ", expected " + q(want));
  std::string s = idna::to_unicode(in);
  if (s != (ok ? out : in)) c.fail("to_unicode(input) returned " + q(s) + ", to_unicode(input, out) gave " + q(out));
}
inline void map_is(Ctx& c, u32v in, u32& reuse) {
  c.show("map(" + q(in) + ")");
  u32 want;
  bool wok = ref::map(in, want);
  bool ok = idna::map(in, reuse);
  if (ok != wok) c.fail(ok ? "map accepted, giving " + q(u32v(reuse)) : "map rejected; the mapping table gives " + q(u32v(want)));
  if (ok && reuse != want) c.fail("map gave " + q(u32v(reuse)) + ", the mapping table gives " + q(u32v(want)));
  u32 s = idna::map(in);
  if (s != want) c.fail("map(input) returned " + q(u32v(s)) + ", the mapping table gives " + q(u32v(want)));
}
inline void nfc_is(Ctx& c, u32v in) {
  c.show("normalize(" + q(in) + ")");
  u32 want = ref::nfc(in);
  bool is = idna::is_already_nfc(in);
  if (is != (want == in)) c.fail(std::string("is_already_nfc says ") + (is ? "true" : "false") + "; NFC is " + q(u32v(want)));
  u32 got(in);
  if (!idna::normalize(got)) c.fail("normalize returned false");
  if (got != want) c.fail("normalize gave " + q(u32v(got)) + ", NFC is " + q(u32v(want)));
  if (!idna::is_already_nfc(got)) c.fail("is_already_nfc denies the result of normalize, " + q(u32v(got)));
}
inline void name_cp_is(Ctx& c, uint32_t cp) {
  auto& d = ucd::data();
  bool in = cp < ucd::N;
  bool st = (in && d.idstart[cp]) || cp == '$' || cp == '_';
  bool co = (in && d.idcont[cp]) || cp == '$' || cp == 0x200C || cp == 0x200D;
  bool s = idna::valid_name_code_point(cp, true), p = idna::valid_name_code_point(cp, false);
  if (s != st || p != co) {
    c.show("valid_name_code_point(U+" + printable(u32(1, char32_t(cp)) + U" ") + ")");
    c.fail("valid_name_code_point gave first=" + std::to_string(s) + " part=" + std::to_string(p) + ", expected " + std::to_string(st) + " " + std::to_string(co));
  }
}
inline void puny_decode_is(Ctx& c, const std::string& s) {
  c.show("punycode_to_utf32(" + q(s) + ")");
  auto r = ref::puny_decode(s);
  bool want = r.ok && !ref::ace_prefix(r.out);
  u32 out;
  bool ok = idna::punycode_to_utf32(s, out), v = idna::verify_punycode(s);
  c.label(r.ok ? r.over31 ? "over31" : r.nonscalar ? "decodes to a non-scalar" : "decodes" : "malformed");
  if (!s.empty()) c.nontrivial(s);
  if (ok != v) c.fail(std::string("punycode_to_utf32 says ") + (ok ? "true" : "false") + ", verify_punycode says " + (v ? "true" : "false"));
  if ((r.over31 || r.nonscalar) && !ok) return;
  if (ok != want) c.fail(ok ? "decoding gave " + q(u32v(out)) + ", RFC 3492 says malformed" : "rejected; RFC 3492 gives " + q(u32v(r.out)));
  if (ok && out != r.out) c.fail("decoding gave " + q(u32v(out)) + ", RFC 3492 gives " + q(u32v(r.out)));
}
inline void puny_encode_is(Ctx& c, u32v in) {
  c.show("utf32_to_punycode(" + q(in) + ")");
  auto r = ref::puny_encode(in);
  std::string out;
  bool ok = idna::utf32_to_punycode(in, out);
  if (r.over31 && !ok) return;
  if (ok != r.ok) c.fail(ok ? "encoded " + q(out) + " from a non-scalar" : "rejected; RFC 3492 gives " + q(r.out));
  if (ok && out != r.out) c.fail("encoding gave " + q(out) + ", RFC 3492 gives " + q(r.out));
  if (!ok) return;
  u32 back;
  bool dok = idna::punycode_to_utf32(out, back);
  bool xn = ref::ace_prefix(in);
  if (r.over31 || (r.back31 && !dok)) return;
  if (dok == xn) c.fail(std::string("decoding the encoding ") + q(out) + (dok ? " succeeded on a label with the ACE prefix" : " failed"));
  if (dok && back != in) c.fail("decoding the encoding " + q(out) + " gave " + q(u32v(back)));
}
}  // namespace props
