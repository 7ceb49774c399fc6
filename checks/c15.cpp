// C15: the first calls of a process may come from several threads at once.
// Every case forks a process whose tables have not been built and lets 2..8 threads
// make their first calls together. Built twice: -O2, and with ThreadSanitizer.
#include "../lib/child.hpp"
#include "../lib/calls.hpp"
#include <thread>
using namespace props;
namespace {
struct Op {
  int kind = 0;
  std::string s, want_s, alt_s;
  u32 w, want_w;
  bool want = false, either = false;
  uint32_t any = 0;  // any call at all
  std::string shown;
  calls::Want any_want;
  std::string show() const {
    if (kind == 9) return std::string(calls::kinds[any]) + "(" + shown + ")";
    static const char* n[] = {"to_ascii", "to_unicode", "map", "normalize", "is_already_nfc", "is_label_valid", "valid_name_code_point", "to_ascii returning", "punycode_to_utf32"};
    return std::string(n[kind]) + "(" + (kind <= 1 || kind >= 7 ? q(s) : q(u32v(w))) + ")";
  }
};
Op make(Tape& t) {
  Op o;
  static const uint8_t w[] = {60, 40, 30, 30, 16, 24, 24, 16, 10, 40};
  o.kind = int(t.pick(w));
  const bool lng = t.p(16);
  switch (o.kind) {
    case 0: case 7: {
      o.s = lng ? gen::sparse_domain(t, 3000) : gen::domain(t, !t.p(30)).bytes;
      auto r = ref::to_ascii(o.s);
      o.want = r.ok; o.want_s = r.out; o.either = r.either;
      break;
    }
    case 1: {
      o.s = lng ? gen::sparse_domain(t, 3000) : t.p(180) ? gen::ace_label(t) + (t.p(100) ? ".xn--mnchen-3ya" : "") : gen::domain(t).bytes;
      auto r = ref::to_unicode(o.s);
      o.want = r.ok; o.want_s = r.out; o.either = r.either;
      break;
    }
    case 2: o.w = lng ? gen::long_cps(t, 2000) : gen::raw_unicode_label(t); o.want = ref::map(o.w, o.want_w); break;
    case 3: o.w = lng ? gen::long_cps(t, 2000) : gen::nfc_text(t, 6); o.want = true; o.want_w = ref::nfc(o.w); break;
    case 4: o.w = lng ? gen::long_cps(t, 2000) : gen::nfc_text(t, 6); o.want = ref::is_nfc(o.w); break;
    case 5: {
      u32 l = lng ? gen::sparse_text(t, t.u(1500)) : gen::raw_unicode_label(t), m;
      if (ref::map(l, m)) l = ref::nfc(m);
      if (!ref::stable(l) || ref::ace_prefix(l) || l.find(U'.') != l.npos) l = U"\u05d0\u0301";
      o.w = l; o.want = ref::label_valid(l);
      break;
    }
    case 6: {
      uint32_t c = t.p(200) ? t.of(gen::P().valid) : gen::any_cp(t);
      o.w = u32(1, char32_t(c));
      o.want = (c < ucd::N && ucd::data().idcont[c]) || c == '$' || c == 0x200C || c == 0x200D;
      break;
    }
    case 9: o.any = t.u(calls::NKIND); o.s = calls::input(t, o.any, o.shown, o.any_want); break;
    default: {
      o.s = gen::puny_text(t);
      auto r = ref::puny_decode(o.s);
      o.either = r.over31 || r.nonscalar;
      o.want = r.ok && !ref::ace_prefix(r.out); o.want_w = r.out;
    }
  }
  return o;
}
// "" if the result is the model's
std::string run(const Op& o, bool loaded) {
  std::string s;
  u32 w;
  bool ok;
  switch (o.kind) {
    case 0: ok = idna::to_ascii(o.s, s); return o.either || (ok == o.want && s == o.want_s) ? "" : verdict(ok, s);
    case 7: s = idna::to_ascii(o.s); return o.either || s == o.want_s ? "" : "returned " + q(s);
    case 1: ok = idna::to_unicode(o.s, s); return o.either || (ok == o.want && s == o.want_s) ? "" : verdict(ok, s);
    case 2: ok = idna::map(o.w, w); return ok == o.want && (!ok || w == o.want_w) ? "" : "gave " + q(u32v(w));
    case 3: w = o.w; ok = idna::normalize(w); return ok && w == o.want_w ? "" : "gave " + q(u32v(w));
    case 4: ok = idna::is_already_nfc(o.w); return ok == o.want || (!loaded && !ok) ? "" : ok ? "said yes" : "said no";
    case 5: ok = idna::is_label_valid(o.w); return ok == o.want ? "" : ok ? "said yes" : "said no";
    case 6: ok = idna::valid_name_code_point(o.w[0], false); return ok == o.want ? "" : ok ? "said yes" : "said no";
    case 9: s = calls::call(o.any, o.s.data(), o.s.size()); return s == o.any_want.a || (o.any_want.either && s == o.any_want.b) ? "" : "gave " + q(s);
    default: ok = idna::punycode_to_utf32(o.s, w); return o.either || (ok == o.want && (!ok || w == o.want_w)) ? "" : "gave " + q(u32v(w));
  }
}
void spin(uint32_t n) {
  for (uint32_t i = 0; i < n; i++) asm volatile("" ::: "memory");
}
void first(Ctx& c) {
  auto& t = c.t;
  uint32_t n = 2 + t.u(7);
  std::vector<std::vector<Op>> plan(n);
  std::vector<uint32_t> delay(n), gap(n);
  std::string d;
  bool together = t.p(128);
  for (uint32_t k = 0; k < n; k++) {
    delay[k] = together ? t.u(200) : t.u(1u << (4 + t.u(17)));
    gap[k] = t.p(60) ? t.u(5000) : 0;
    for (uint32_t j = 1 + t.u(3); j > 0; j--) plan[k].push_back(make(t));
    d += " thread " + std::to_string(k) + " after " + std::to_string(delay[k]) + ":";
    for (auto& o : plan[k]) d += " " + o.show();
  }
  c.show(d.substr(0, 3000));
  c.nontrivial(d);
  c.label(together ? "started together" : "started apart");
  auto r = forked([&]() -> std::string {
    std::atomic<uint32_t> here{0};
    std::vector<std::string> bad(n);
    std::vector<std::thread> th;
    for (uint32_t k = 0; k < n; k++)
      th.emplace_back([&, k] {
        here.fetch_add(1);
        while (here.load() < n) {}
        spin(delay[k]);
        for (auto& o : plan[k]) {
          std::string b = run(o, false);
          if (!b.empty() && bad[k].empty()) bad[k] = o.show() + " " + b;
          spin(gap[k]);
        }
      });
    for (auto& x : th) x.join();
    for (uint32_t k = 0; k < n; k++)
      if (!bad[k].empty()) throw Fail{"in thread " + std::to_string(k) + ", " + bad[k]};
    u32 m;
    (void)idna::map(U"\u00e9", m);
    for (auto& p : plan)
      for (auto& o : p) {
        std::string b = run(o, true);
        if (!b.empty()) throw Fail{"after the threads ended, " + o.show() + " " + b};
      }
    return "ok";
  });
  if (!r.ok) c.fail("first use by " + std::to_string(n) + " threads: the process " + r.how);
}
// Once the tables exist, threads do not disturb each other.
void steady(Ctx& c) {
  auto& t = c.t;
  uint32_t n = 2 + t.u(3);
  std::vector<std::vector<Op>> plan(n);
  std::string d;
  for (uint32_t k = 0; k < n; k++)
    for (uint32_t j = 4 + t.u(8); j > 0; j--) { plan[k].push_back(make(t)); if (d.size() < 2500) d += plan[k].back().show() + " "; }
  c.show(std::to_string(n) + " threads: " + d);
  c.nontrivial(d);
  static bool warm = [] { u32 m; return idna::map(U"\u00e9", m); }();
  (void)warm;
  std::vector<std::string> bad(n);
  std::vector<std::thread> th;
  for (uint32_t k = 0; k < n; k++)
    th.emplace_back([&, k] {
      for (auto& o : plan[k]) { std::string b = run(o, true); if (!b.empty() && bad[k].empty()) bad[k] = o.show() + " " + b; }
    });
  for (auto& x : th) x.join();
  for (auto& b : bad) if (!b.empty()) c.fail("with " + std::to_string(n) + " threads: " + b);
}
}  // namespace
#ifdef __SANITIZE_THREAD__
#define C15_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define C15_TSAN 1
#endif
#endif
#ifdef C15_TSAN
PBT_MAIN("tsan", {"first", first, 900, 20000, false, 4, true}, {"steady", steady, 8000, 150000, false, 4, true})
#else
PBT_MAIN("default", {"first", first, 4000, 150000, false, 4, true}, {"steady", steady, 50000, 800000, false, 3, true})
#endif
