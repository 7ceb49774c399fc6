// C24: running out of memory at any allocation of any call leaks nothing, corrupts
// nothing, and leaves the library as it was.
#include "../lib/heap.hpp"
#include "../lib/child.hpp"
#include "../lib/props.hpp"
using namespace props;
namespace {
struct Call {
  int kind = 0;
  std::string s, want_s;
  u32 w, want_w;
  bool want = false, either = false;
  std::string show() const {
    static const char* n[] = {"to_ascii", "to_unicode", "map", "normalize", "is_already_nfc", "is_label_valid", "punycode_to_utf32", "verify_punycode", "utf32_to_punycode", "to_ascii (returning)", "to_unicode (returning)", "map (returning)"};
    bool bytes = kind <= 1 || kind == 6 || kind == 7 || kind == 9 || kind == 10;
    return std::string(n[kind]) + "(" + (bytes ? q(s) : q(u32v(w))) + ")";
  }
};
Call make(Tape& t) {
  Call c;
  static const uint8_t w[] = {70, 40, 20, 40, 10, 10, 20, 10, 20, 10, 10, 10};
  c.kind = int(t.pick(w));
  const bool lng = t.p(6), over = lng && t.p(100);
  auto longer = [&](auto s) {  // also one that is refused for its length
    if (over) while (!s.empty() && s.size() <= ref::kLimit) s += s;
    return s;
  };
  switch (c.kind) {
    case 0: case 9: { c.s = longer(lng ? gen::sparse_domain(t, 2000) : gen::domain(t).bytes); auto r = ref::to_ascii(c.s); c.want = r.ok; c.want_s = r.out; c.either = r.either; break; }
    case 1: case 10: {
      c.s = longer(lng ? gen::sparse_domain(t, 2000) : gen::ace_label(t) + (t.p(128) ? "." + gen::ace_label(t) : ""));
      auto r = ref::to_unicode(c.s); c.want = r.ok; c.want_s = r.ok ? r.out : c.kind == 10 ? c.s : ""; c.either = r.either; break;
    }
    case 2: case 11: c.w = lng ? gen::long_cps(t, 3000) : t.p(128) ? gen::raw_unicode_label(t) : gen::nfc_text(t, 12); c.want = ref::map(c.w, c.want_w); break;
    case 3: c.w = lng ? gen::long_cps(t, 3000) : gen::nfc_text(t, 12); c.want = true; c.want_w = ref::nfc(c.w); break;
    case 4: c.w = gen::nfc_text(t, 12); c.want = ref::is_nfc(c.w); break;
    case 5: {
      u32 l = lng ? gen::sparse_text(t, t.u(2000)) : gen::raw_unicode_label(t), m;
      if (ref::map(l, m)) l = ref::nfc(m);
      if (!ref::stable(l) || ref::ace_prefix(l) || l.find(U'.') != l.npos) l = U"\u05d0\u0301";
      c.w = l; c.want = ref::label_valid(l); break;
    }
    case 6: case 7: { c.s = gen::puny_text(t); auto r = ref::puny_decode(c.s); c.either = r.over31 || r.nonscalar; c.want = r.ok && !ref::ace_prefix(r.out); c.want_w = r.out; break; }
    default: { c.w = lng ? gen::sparse_text(t, t.u(1500)) : gen::raw_unicode_label(t); auto r = ref::puny_encode(c.w); c.either = r.over31; c.want = r.ok; c.want_s = r.out; }
  }
  return c;
}
// Makes the call with the k-th allocation refused (k<0: none). Returns: 0 right, 1 bad_alloc, 2 clean failure, 3 wrong
int run(const Call& c, long k) {
  std::string s;
  u32 w(c.kind == 3 ? c.w : u32());
  bool ok = true;
  heap::fired = 0;
  try {
    heap::fail_at = k;
    switch (c.kind) {
      case 0: ok = idna::to_ascii(c.s, s); break;
      case 9: s = idna::to_ascii(c.s); break;
      case 1: ok = idna::to_unicode(c.s, s); break;
      case 10: s = idna::to_unicode(c.s); break;
      case 2: ok = idna::map(c.w, w); break;
      case 11: w = idna::map(c.w); break;
      case 3: ok = idna::normalize(w); break;
      case 4: ok = idna::is_already_nfc(c.w); break;
      case 5: ok = idna::is_label_valid(c.w); break;
      case 6: ok = idna::punycode_to_utf32(c.s, w); break;
      case 7: ok = idna::verify_punycode(c.s); break;
      default: ok = idna::utf32_to_punycode(c.w, s); break;
    }
    heap::fail_at = -1;
  } catch (std::bad_alloc&) { heap::fail_at = -1; return 1; }
  if (c.either) return 0;
  bool right;
  switch (c.kind) {
    case 0: case 1: right = ok == c.want && s == c.want_s; break;
    case 9: case 10: right = s == c.want_s; break;
    case 2: case 6: case 3: right = ok == c.want && (!ok || w == c.want_w); break;
    case 11: right = w == c.want_w; break;
    case 8: right = ok == c.want && (!ok || s == c.want_s); break;
    default: right = ok == c.want;
  }
  if (right) return 0;
  if (heap::fired && !ok) return 2;
  return 3;
}
void faults(Ctx& c, const Call& k) {
  long l0 = heap::live, c0 = heap::calls;
  if (run(k, -1) != 0) c.fail("without any fault, " + k.show() + " is wrong");
  long n = heap::calls - c0;
  if (heap::live > l0) c.fail(k.show() + " leaked " + std::to_string(heap::live - l0) + " bytes");
  c.label(n == 0 ? "no allocation" : n < 4 ? "1-3 allocations" : "4 or more allocations");
  if (n > 0) c.nontrivial(k.show());
  // every allocation of short calls, a spread of long ones
  for (long i = 0; i < n; i += n > 24 ? 1 + n / 24 : 1) {
    l0 = heap::live;
    int r = run(k, i);
    const long leaked = heap::live - l0;
    std::string at = k.show() + " with allocation " + std::to_string(i + 1) + " of " + std::to_string(n) + " refused";
    if (r == 3) c.fail(at + " succeeded with a wrong result");
    if (leaked > 0) c.fail(at + " leaked " + std::to_string(leaked) + " bytes");
    if (run(k, -1) != 0) c.fail("after " + at + ", the same call is wrong");
    c.label(r == 1 ? "bad_alloc" : r == 2 ? "reported as failure" : "not affected");
  }
}
void warm(Ctx& c) {
  static bool w = [] { u32 o; return idna::map(U"\u00e9", o); }();
  (void)w;
  Call k = make(c.t);
  c.show(k.show() + ", every allocation refused in turn");
  faults(c, k);
}
// In a process whose tables are not built yet.
void cold(Ctx& c) {
  Call k = make(c.t), k2 = make(c.t);
  long i = c.t.u(6);
  c.show(k.show() + " as the first call, allocation " + std::to_string(i + 1) + " refused; then " + k2.show());
  c.nontrivial(c.desc);
  auto r = forked([&]() -> std::string {
    int a = run(k, i);
    bool hit = heap::fired;
    // If the tables could not be had, calls fail; they are never wrong.
    auto sound = [&](const Call& x, int res, const char* what) {
      if (res == 0 || res == 1) return;
      bool failed_clean = hit;
      if (res == 3 && hit) {  // failure reported through the value
        std::string s;
        u32 w(x.w);
        switch (x.kind) {
          case 0: failed_clean = !idna::to_ascii(x.s, s) && s.empty(); break;
          case 9: failed_clean = idna::to_ascii(x.s).empty(); break;
          case 1: failed_clean = idna::to_unicode(x.s, s) && s == x.s; break;
          case 10: failed_clean = idna::to_unicode(x.s) == x.s; break;
          case 2: failed_clean = !idna::map(x.w, w); break;
          case 11: failed_clean = idna::map(x.w).empty(); break;
          case 3: failed_clean = !idna::normalize(w) && w == x.w; break;
          case 4: failed_clean = !idna::is_already_nfc(x.w); break;
          case 5: failed_clean = !idna::is_label_valid(x.w); break;
          default: failed_clean = false;
        }
      }
      if (res == 3 && !hit && x.kind == 4 && !idna::is_already_nfc(x.w)) return;  // needs tables that no call has loaded
      if (!failed_clean) throw Fail{std::string(what) + x.show() + " gave a wrong result"};
    };
    sound(k, a, "with an allocation refused, the first call ");
    sound(k2, run(k2, -1), "after a refused allocation in the first call, ");
    return hit ? "fired" : "not reached";
  });
  if (!r.ok) c.fail(r.how);
  c.label(r.text == "fired" ? "cold: fault fired" : "cold: fault not reached");
}
}  // namespace
PBT_MAIN("default", {"cold", cold, 6000, 100000}, {"warm", warm, 300000, 6000000})
