// C14: calls are pure: no history, buffer content or overload changes a result.
#include "../lib/props.hpp"
using namespace props;
struct Bufs { std::string s = "initial"; u32 w = U"initial"; };
static std::string junk(Tape& t) { return std::string(t.u(60), char('A' + t.u(26))); }
// One call chosen from the tape; its result must be the model's, whatever came before.
// `loaded` says whether some earlier call has loaded the tables.
static std::string op(Ctx& c, Bufs& b, bool& loaded) {
  auto& t = c.t;
  auto bad = [&](const std::string& m) { c.fail(m); };
  std::string d;
  const bool none = t.p(24);  // an empty input
  auto domain = [&] { return none ? std::string() : gen::domain(t, t.p(200)).bytes; };
  auto ace = [&] { return none ? std::string() : t.p(128) ? gen::ace_label(t) : gen::domain(t).bytes; };
  auto label = [&] { return none ? u32() : gen::raw_unicode_label(t); };
  switch (t.u(17)) {
    case 0: {
      std::string in = domain(), copy = in;
      d = "to_ascii(" + q(in) + ")";
      auto r = ref::to_ascii(in);
      bool ok = idna::to_ascii(in, b.s);
      if (in != copy) bad(d + " changed its input");
      if (r.either) break;
      if (ok != r.ok || b.s != r.out) bad(d + " " + verdict(ok, b.s) + "; expected " + verdict(r.ok, r.out));
      loaded |= !ref::ascii(in) && r.ok;
      break;
    }
    case 1: {
      std::string in = domain();
      d = "to_ascii(" + q(in) + ") returning";
      auto r = ref::to_ascii(in);
      std::string o = idna::to_ascii(in);
      if (r.either) break;
      if (o != r.out) bad(d + " gave " + q(o) + "; expected " + q(r.out));
      loaded |= !ref::ascii(in) && r.ok;
      break;
    }
    case 2: {
      std::string in = ace();
      d = "to_unicode(" + q(in) + ")";
      auto r = ref::to_unicode(in);
      bool ok = idna::to_unicode(in, b.s);
      if (!ok || (b.s != r.out && !(r.either && b.s == r.alt))) bad(d + " gave " + q(b.s) + "; expected " + q(r.out));
      break;
    }
    case 3: {
      std::string in = ace();
      d = "to_unicode(" + q(in) + ") returning";
      auto r = ref::to_unicode(in);
      std::string o = idna::to_unicode(in);
      if (o != r.out && !(r.either && o == r.alt)) bad(d + " gave " + q(o) + "; expected " + q(r.out));
      break;
    }
    case 4: {
      u32 in = label(), want;
      d = "map(" + q(in) + ")";
      bool other = t.p(128);
      bool w = ref::map(in, want), ok = idna::map(in, b.w);
      if (ok != w || (ok && b.w != want)) bad(d + " gave " + q(b.w) + "; expected " + q(want));
      if (other && idna::map(in) != want) bad(d + " returning disagrees");
      u32 fresh;
      if (!ok && !idna::map(in, fresh) && fresh != b.w) bad(d + " failed, leaving " + q(b.w) + " in a used buffer and " + q(fresh) + " in a fresh one");
      loaded = true;
      break;
    }
    case 5: {
      b.w = none ? u32() : gen::nfc_text(t, 6);
      d = "normalize(" + q(b.w) + ")";
      u32 want = ref::nfc(b.w);
      if (!idna::normalize(b.w) || b.w != want) bad(d + " gave " + q(b.w) + "; expected " + q(want));
      loaded |= !ref::ascii(want);
      break;
    }
    case 6: {
      u32 in = none ? u32() : gen::nfc_text(t, 6);
      d = "is_already_nfc(" + q(in) + ")";
      bool r = idna::is_already_nfc(in), w = ref::is_nfc(in);
      if (r != w && (loaded || r)) bad(d + " gave " + (r ? "true" : "false"));
      break;
    }
    case 7: {
      u32 in = label(), m;
      if (ref::map(in, m)) in = ref::nfc(m);
      if (!ref::stable(in) || ref::ace_prefix(in) || in.find(U'.') != in.npos) in = U"\u05d0\u0301";
      d = "is_label_valid(" + q(in) + ")";
      if (idna::is_label_valid(in) != ref::label_valid(in)) bad(d + " is wrong");
      loaded |= !in.empty();
      break;
    }
    case 8: {
      std::string in = none ? std::string() : gen::puny_text(t);
      d = "punycode(" + q(in) + ")";
      auto r = ref::puny_decode(in);
      u32 o;
      bool ok = idna::punycode_to_utf32(in, o), v = idna::verify_punycode(in);
      if (ok != v) bad(d + ": decode and verify disagree");
      if (r.over31 || r.nonscalar) break;
      if (ok != (r.ok && !ref::ace_prefix(r.out)) || (ok && o != r.out)) bad(d + " is wrong");
      break;
    }
    case 9: {
      u32 in = label();
      d = "utf32_to_punycode(" + q(in) + ")";
      auto r = ref::puny_encode(in);
      std::string pre = b.s;
      bool ok = idna::utf32_to_punycode(in, b.s);
      if (!r.over31 && (ok != r.ok || (ok && b.s != pre + r.out))) bad(d + " is wrong");
      break;
    }
    case 10: {
      uint32_t cp = gen::any_cp(t);
      bool f = t.p(128);
      d = "valid_name_code_point(" + std::to_string(cp) + ")";
      name_cp_is(c, cp);
      (void)f;
      break;
    }
    case 11: {
      u32 in = label(), want;
      d = "map(" + q(in) + ") returning";
      (void)ref::map(in, want);
      u32 o = idna::map(in);
      if (o != want) bad(d + " gave " + q(o) + "; expected " + q(want));
      loaded = true;
      break;
    }
    case 12: {
      std::string in = domain(), lo;
      d = "forbidden code points, ascii_map of " + q(in);
      for (char& x : in) x = char(x & 127);
      bool w = std::any_of(in.begin(), in.end(), [](char x) { return ref::forbidden_domain((unsigned char)x); });
      if (idna::contains_forbidden_domain_code_point(in) != w) bad(d + ": wrong answer");
      lo = ref::lower(in);
      idna::ascii_map(in.data(), in.size());
      if (in != lo) bad(d + " gave " + q(in));
      break;
    }
    case 13: {
      u32 in = label();
      d = "UTF-8 of " + q(in);
      for (auto& x : in) if (!ref::scalar(x)) x = U'x';
      std::string want = ref::utf8(in), o(want.size(), '?');
      u32 back(in.size(), U'?');
      if (idna::utf8_length_from_utf32(in.data(), in.size()) != want.size()) bad(d + ": wrong length");
      if (idna::utf32_to_utf8(in.data(), in.size(), o.data()) != want.size() || o != want) bad(d + " gave " + q(o));
      if (idna::utf32_length_from_utf8(want.data(), want.size()) != in.size()) bad(d + ": wrong length back");
      if (idna::utf8_to_utf32(want.data(), want.size(), back.data()) != in.size() || back != in) bad(d + " decoded to " + q(back));
      break;
    }
    case 14: {
      u32 in = label();
      for (auto& x : in) if (ucd::status(x) != ucd::V) x = 0x5D0;  // anything else never gets that far
      d = "is_rtl_label(" + q(in) + ")";
      if (idna::is_rtl_label(in) != ref::rtl_content(in)) bad(d + " is wrong");
      break;
    }
    case 15: b.s = junk(t); d = "(junk in the buffer)"; break;
    default: b.w = u32(t.u(50), U'j'); d = "(junk in the buffer)"; break;
  }
  return d;
}
static void history(Ctx& c) {
  Bufs b;
  bool loaded = true;
  static bool warm = [] { u32 o; return idna::map(U"\u00e9", o); }();
  (void)warm;
  std::string d, last;
  uint64_t h = 0;
  for (uint32_t n = 2 + c.t.u(14); n > 0; n--) {
    c.show(d + " ... next call");
    last = op(c, b, loaded);
    h = mix(h, hash_bytes(last.data(), last.size()));
    if (d.size() < 900) d += (d.empty() ? "" : "; ") + last;
  }
  c.show(d);
  c.nontrivial(h);
}
static void twice(Ctx& c) {  // interleaving unrelated calls changes nothing
  std::string a = gen::domain(c.t).bytes, b = gen::domain(c.t).bytes;
  c.show("to_ascii of " + q(a) + ", then of " + q(b) + ", then of the first again");
  c.nontrivial(a + "|" + b);
  std::string x, y, z = "zzz", u, v;
  bool p = idna::to_ascii(a, x);
  (void)idna::to_ascii(b, y);
  (void)idna::to_unicode(b, u);
  bool r = idna::to_ascii(a, z);
  if (p != r || x != z) c.fail("the same call gave " + verdict(p, x) + " and then " + verdict(r, z));
  bool s = idna::to_ascii(b, z);
  (void)s;
  if (z != y) c.fail("the second input gave " + q(y) + " and then " + q(z));
  if (!p && !x.empty()) c.fail("failure left " + q(x));
}
// Inputs that resemble earlier ones (same length, same ends, same address), as a cache would confuse them.
static u32 variation(Tape& t, const u32& base) {
  u32 s = base;
  for (uint32_t k = 1 + t.u(2); k > 0 && !s.empty(); k--) {
    size_t i = t.p(60) ? 0 : t.p(60) ? s.size() - 1 : t.u(uint32_t(s.size()));
    char32_t x = s[i];
    auto same = [&](uint32_t y) { return y < 0x80 ? 1 : y < 0x800 ? 2 : y < 0x10000 ? 3 : 4; };
    switch (t.u(9)) {
      case 0: case 1: case 2: {  // another code point with an encoding of the same length
        uint32_t y = x ^ (1 + t.u(7));
        for (int n = 0; n < 20 && (!ref::scalar(y) || same(y) != same(x)); n++) y = gen::any_cp(t);
        if (ref::scalar(y) && same(y) == same(x)) s[i] = y;
        break;
      }
      case 3: std::swap(s[i], s[t.u(uint32_t(s.size()))]); break;
      case 4: if (x >= 'a' && x <= 'z') s[i] = x - 32; break;
      case 5: s.erase(i, 1); break;
      case 6: s.insert(s.begin() + long(i), t.p(128) ? x : char32_t(gen::any_cp(t))); break;
      case 7: s[i] = gen::kin(t, x); break;
      default: break;  // the same again
    }
  }
  return s;
}
static void related(Ctx& c) {
  auto& t = c.t;
  static bool warm = [] { u32 o; return idna::map(U"\u00e9", o); }();
  (void)warm;
  static thread_local std::string in, out;
  static thread_local u32 win, wout;
  u32 base;
  if (t.p(200)) { std::string d = gen::domain(t, true).bytes; if (!ref::utf8_decode(d, base)) base = gen::raw_unicode_label(t); }
  else base = gen::raw_unicode_label(t);
  if (t.p(100)) for (uint32_t n = t.u(4); n > 0 && base.size() < 400; n--) { if (t.p(128)) base += U'.'; base += t.p(128) ? base : gen::mixed_label(t); }
  if (base.empty()) base = U"\u00e9";
  std::string d;
  uint64_t h = 0;
  u32 prev = base;
  for (uint32_t n = 2 + t.u(5); n > 0; n--) {
    u32 v = t.p(90) ? base : variation(t, t.p(128) ? prev : base);
    prev = v;
    in.reserve(4096);
    win.reserve(1024);
    if (t.p(200)) {
      in.assign(ref::utf8(v));
      bool uni = t.p(60);
      if (uni && t.p(200)) {  // the A-labels
        auto a = ref::to_ascii(in);
        if (a.ok) in.assign(a.out);
      }
      if (d.size() < 1500) d += (uni ? "to_unicode(" : "to_ascii(") + q(in) + "); ";
      c.show(d);
      h = mix(h, hash_bytes(in.data(), in.size()));
      if (uni) {
        auto r = ref::to_unicode(in);
        bool ok = idna::to_unicode(in, out);
        if (ok != r.ok || (out != r.out && !(r.either && out == r.alt))) c.fail("the last call gave " + q(out) + ", expected " + q(r.out));
        if (ok && idna::to_unicode(in) != out) c.fail("the overloads of the last call disagree");
      } else {
        auto r = ref::to_ascii(in);
        if (r.either) continue;
        bool ok = idna::to_ascii(in, out);
        if (ok != r.ok || out != r.out) c.fail("the last call " + verdict(ok, out) + ", expected " + verdict(r.ok, r.out));
        if (idna::to_ascii(in) != r.out) c.fail("the overloads of the last call disagree");
      }
      continue;
    }
    win.assign(v);
    h = mix(h, hash_bytes(win.data(), win.size() * 4));
    uint32_t k = t.u(4);
    if (d.size() < 1500) d += std::string(k == 0 ? "map(" : k == 1 ? "normalize(" : k == 2 ? "is_already_nfc(" : "utf32_to_punycode(") + q(win) + "); ";
    c.show(d);
    if (k == 0) {
      u32 want;
      bool w = ref::map(win, want), ok = idna::map(win, wout);
      if (ok != w || (ok && wout != want)) c.fail("the last call gave " + q(wout) + ", expected " + q(want));
    } else if (k == 1) {
      u32 want = ref::nfc(win);
      if (!idna::normalize(win) || win != want) c.fail("the last call gave " + q(win) + ", expected " + q(want));
    } else if (k == 2) {
      if (idna::is_already_nfc(win) != ref::is_nfc(win)) c.fail("the last call is wrong");
    } else {
      auto r = ref::puny_encode(win);
      out.clear();
      bool ok = idna::utf32_to_punycode(win, out);
      if (!r.over31 && (ok != r.ok || (ok && out != r.out))) c.fail("the last call gave " + q(out) + ", expected " + q(r.out));
    }
  }
  c.nontrivial(h);
}
// Long inputs one after another, some refused for their length, with and without reused outputs.
static void long_history(Ctx& c) {
  auto& t = c.t;
  static thread_local std::string kept;
  static thread_local u32 wkept;
  std::string d, s;
  u32 w;
  uint64_t h = 0;
  for (uint32_t n = 2 + t.u(5); n > 0; n--) {
    if (s.empty() || t.p(160)) {
      s = t.p(90) ? gen::long_domain(t, 6000) : t.p(200) ? gen::sparse_domain(t, 6000) : gen::domain(t).bytes;
      if (t.p(40)) while (!s.empty() && s.size() <= ref::kLimit) s += s;
      if (t.p(40)) s.resize(std::min<size_t>(s.size(), t.u(4096)));
    }
    std::string out;
    std::string& o = t.p(128) ? kept : out;
    u32 wout;
    u32& wo = t.p(128) ? wkept : wout;
    const uint32_t k = t.u(8);
    static const char* names[] = {"to_ascii", "to_ascii (returning)", "to_unicode", "to_unicode (returning)", "to_unicode of to_ascii", "map", "normalize", "utf32_to_punycode and back"};
    if (d.size() < 1500) d += std::string(names[k]) + "(" + q(s).substr(0, 300) + ") of " + std::to_string(s.size()) + " bytes; ";
    c.show(d);
    h = mix(h, hash_bytes(s.data(), s.size()) + k);
    if (k >= 5 && (s.size() > ref::kLimit || !ref::utf8_decode(s, w))) w = gen::long_cps(t, 3000);
    if (k < 2) {
      auto r = ref::to_ascii(s);
      bool ok = r.ok;
      if (k == 0) ok = idna::to_ascii(s, o); else o = idna::to_ascii(s);
      if (!r.either && (ok != r.ok || o != r.out)) c.fail("the last call " + verdict(ok, o) + ", expected " + verdict(r.ok, r.out));
    } else if (k < 5) {
      if (k == 4) { auto a = ref::to_ascii(s); if (a.ok) s = a.out; }
      auto r = ref::to_unicode(s);
      bool ok = r.ok;
      if (k == 3) o = idna::to_unicode(s); else ok = idna::to_unicode(s, o);
      std::string want = r.ok ? r.out : k == 3 ? s : "";
      if (ok != r.ok || (o != want && !(r.either && o == r.alt))) c.fail("the last call gave " + q(o) + ", expected " + q(want));
    } else if (k == 5) {
      u32 want;
      bool r = ref::map(w, want), ok = idna::map(w, wo);
      if (ok != r || (ok && wo != want)) c.fail("the last call gave " + q(wo) + ", expected " + q(want));
    } else if (k == 6) {
      u32 want = ref::nfc(w);
      wo = w;
      if (!idna::normalize(wo) || wo != want) c.fail("the last call gave " + q(wo) + ", expected " + q(want));
    } else {
      if (w.size() > 3000) w.resize(3000);
      auto r = ref::puny_encode(w);
      o.clear();
      bool ok = idna::utf32_to_punycode(w, o);
      if (r.over31) continue;
      if (ok != r.ok || (ok && o != r.out)) c.fail("the last call gave " + q(o) + ", expected " + q(r.out));
      if (!ok || r.back31) continue;
      wo.clear();
      ok = idna::punycode_to_utf32(r.out, wo);
      if (ok == ref::ace_prefix(w) || (ok && wo != w)) c.fail("decoding gave " + q(wo));
    }
  }
  c.nontrivial(h);
}
// The first call a process makes may be any of them.
static void first_call(Ctx& c) {
  uint64_t save = c.t.pos;
  (void)save;
  c.show("first call in a fresh process");
  int pfd[2];
  if (pipe(pfd)) c.fail("pipe");
  pid_t pid = fork();
  if (pid < 0) { close(pfd[0]); close(pfd[1]); return; }
  if (pid == 0) {
    close(pfd[0]);
    std::string msg;
    try {
      Bufs b;
      bool loaded = false;
      std::string d;
      for (uint32_t n = 1 + c.t.u(3); n > 0; n--) d += op(c, b, loaded) + "; ";
      msg = "+" + d;
    } catch (Fail& f) { msg = "-" + f.msg; }
    if (msg.size() > 3000) msg.resize(3000);
    ssize_t k = write(pfd[1], msg.data(), msg.size());
    (void)k;
    _exit(0);
  }
  close(pfd[1]);
  std::string msg(4000, 0);
  size_t got = 0;
  for (ssize_t k; got < msg.size() && (k = read(pfd[0], msg.data() + got, msg.size() - got)) > 0;) got += size_t(k);
  close(pfd[0]);
  msg.resize(got);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) || msg.empty()) c.fail("the process died in its first calls");
  c.show("first calls of a fresh process: " + msg.substr(1));
  if (msg[0] == '-') c.fail(msg.substr(1));
  c.nontrivial(msg);
}
PBT_MAIN("default", {"long", long_history, 20000, 300000}, {"first-call", first_call, 12000, 200000}, {"history", history, 250000, 4000000}, {"related", related, 300000, 5000000}, {"twice", twice, 500000, 8000000})
