// C17: if the embedded tables are damaged, or cannot be allocated, every call that
// needs them fails; none crashes, and none works from damaged data.
// Every case forks a process with unbuilt tables, injects one fault and makes calls.
#include <zlib.h>
#include <new>
#include <thread>

static size_t g_refuse_from = size_t(-1);   // nothrow allocations of at least this size return nullptr...
static long g_refuse_skip = 0;              // ...after this many
static std::atomic<long> g_refused{0};
static void* get(size_t n) { return malloc(n ? n : 1); }
void* operator new(size_t n) { void* p = get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
static void* maybe(size_t n) {
  if (n >= g_refuse_from && g_refuse_skip-- <= 0) { g_refused++; return nullptr; }
  return get(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return maybe(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return maybe(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

#include "idna.cpp"
#include "../lib/child.hpp"
#include "../lib/props.hpp"
using namespace props;
namespace blob = ada::idna::table_blob;
using Bytes = std::vector<uint8_t>;
namespace {
bool zinflate(const Bytes& in, Bytes& out, size_t cap) {
  z_stream z{};
  if (inflateInit2(&z, -15) != Z_OK) abort();
  out.resize(cap + 1);
  z.next_in = const_cast<uint8_t*>(in.data());
  z.avail_in = uInt(in.size());
  z.next_out = out.data();
  z.avail_out = uInt(out.size());
  int r = inflate(&z, Z_FINISH);
  out.resize(z.total_out);
  inflateEnd(&z);
  return r == Z_STREAM_END;
}
Bytes zdeflate(const Bytes& in, int level, int strat) {
  z_stream z{};
  if (deflateInit2(&z, level, Z_DEFLATED, -15, 8, strat) != Z_OK) abort();
  Bytes out(deflateBound(&z, in.size()));
  z.next_in = const_cast<uint8_t*>(in.data());
  z.avail_in = uInt(in.size());
  z.next_out = out.data();
  z.avail_out = uInt(out.size());
  deflate(&z, Z_FINISH);
  out.resize(z.total_out);
  deflateEnd(&z);
  return out;
}
const Bytes& original() { static const Bytes b(blob::compressed, blob::compressed + blob::compressed_size); return b; }
const Bytes& payload() {
  static const Bytes p = [] { Bytes o; if (!zinflate(original(), o, blob::uncompressed_size)) o.clear(); return o; }();
  return p;
}
const Bytes& warm_payload = payload();
void overwrite(const Bytes& b) {
  auto* p = const_cast<uint8_t*>(&blob::compressed[0]);
  uintptr_t lo = uintptr_t(p) & ~uintptr_t(4095), hi = (uintptr_t(p) + blob::compressed_size + 4095) & ~uintptr_t(4095);
  if (mprotect(reinterpret_cast<void*>(lo), hi - lo, PROT_READ | PROT_WRITE | PROT_EXEC) && mprotect(reinterpret_cast<void*>(lo), hi - lo, PROT_READ | PROT_WRITE)) { perror("mprotect"); abort(); }
  std::atomic_signal_fence(std::memory_order_seq_cst);
  for (size_t i = 0; i < b.size() && i < blob::compressed_size; i++) const_cast<volatile uint8_t*>(p)[i] = b[i];
}
enum Expect { MUST_FAIL, MUST_WORK, EITHER };
std::string some_ascii(Tape& t) {
  std::string s = ref::utf8(gen::ascii_label(t));
  for (uint32_t k = t.u(3); k > 0; k--) s.insert(s.begin() + t.u(uint32_t(s.size() + 1)), char(t.u(128)));
  return s;
}
// What works without tables must work with damaged ones as well.
std::string needs_no_tables(Tape& t, std::string& d) {
  switch (t.u(5)) {
    case 0: {
      u32 in = gen::nfc_text(t, 6);
      auto r = ref::puny_encode(in);
      std::string out;
      d = "utf32_to_punycode(" + q(in) + ")";
      bool ok = idna::utf32_to_punycode(in, out);
      if (r.over31) return "";
      return ok == r.ok && (!ok || out == r.out) ? "" : "is wrong, although it needs no tables";
    }
    case 1: {
      std::string in = gen::puny_text(t);
      auto r = ref::puny_decode(in);
      d = "verify_punycode(" + q(in) + ")";
      bool ok = idna::verify_punycode(in);
      if (r.over31 || r.nonscalar) return "";
      return ok == (r.ok && !ref::ace_prefix(r.out)) ? "" : "is wrong, although it needs no tables";
    }
    case 2: {
      u32 in = gen::nfc_text(t, 6);
      if (!std::all_of(in.begin(), in.end(), [](char32_t x) { return ref::scalar(x); })) return "";
      std::string b = ref::utf8(in), back(4 * in.size() + 4, '?');
      u32 out(b.size() + 4, U'?');
      d = "transcoding " + q(in);
      size_t n = idna::utf8_to_utf32(b.data(), b.size(), out.data());
      size_t k = idna::utf32_to_utf8(in.data(), in.size(), back.data());
      return n == in.size() && out.substr(0, n) == in && k == b.size() && back.substr(0, k) == b && idna::utf32_length_from_utf8(b.data(), b.size()) == n && idna::utf8_length_from_utf32(in.data(), in.size()) == k ? "" : "is wrong, although it needs no tables";
    }
    case 3: {
      std::string in = some_ascii(t), out = in;
      d = "ascii_map(" + q(in) + ")";
      idna::ascii_map(out.data(), out.size());
      return out == ref::lower(in) ? "" : "gave " + q(out) + ", although it needs no tables";
    }
    default: {
      std::string in = some_ascii(t);
      d = "contains_forbidden_domain_code_point(" + q(in) + ")";
      return idna::contains_forbidden_domain_code_point(in) == std::any_of(in.begin(), in.end(), [](unsigned char c) { return ref::forbidden_domain(c); }) ? "" : "is wrong, although it needs no tables";
    }
  }
}
// One call; describes it in d. Returns "" if the outcome fits.
std::string call(Tape& t, Expect x, std::string& d) {
  auto judge = [&](bool failed, bool right) -> std::string {
    if (x == MUST_FAIL && !failed) return "was answered from damaged or missing tables";
    if (x == MUST_WORK && !right) return "gave a wrong answer although the tables are intact";
    if (x == EITHER && !failed && !right) return "neither failed nor gave the right answer";
    return "";
  };
  static const uint8_t w[] = {56, 26, 28, 36, 26, 26, 18, 14, 8, 14, 4};
  const bool lng = t.p(16);
  switch (t.pick(w)) {
    case 0: {
      std::string in = lng ? gen::sparse_domain(t, 3000) : gen::domain(t).bytes, out = "junk";
      auto r = ref::to_ascii(in);
      d = "to_ascii(" + q(in) + ")";
      bool ok = idna::to_ascii(in, out);
      if (ref::ascii(in)) return ok == r.ok && out == r.out ? "" : "gave " + q(out) + " for ASCII input, which needs no tables";
      if (r.either) return "";
      return judge(!ok && out.empty(), ok == r.ok && out == r.out);
    }
    case 1: {
      std::string in = lng ? gen::sparse_domain(t, 3000) : gen::domain(t).bytes;
      auto r = ref::to_ascii(in);
      d = "to_ascii(" + q(in) + ") returning";
      std::string out = idna::to_ascii(in);
      if (r.either) return "";
      if (ref::ascii(in)) return out == r.out ? "" : "gave " + q(out) + " for ASCII input, which needs no tables";
      return judge(out.empty(), out == r.out);
    }
    case 2: {
      std::string in = lng ? gen::sparse_domain(t, 3000) : gen::ace_label(t) + (t.p(128) ? ".xn--mnchen-3ya.A" : ""), out = "junk";
      auto r = ref::to_unicode(in);
      d = "to_unicode(" + q(in) + ")";
      bool ok = idna::to_unicode(in, out);
      if (r.either) return "";
      return judge(ok && out == in, ok && out == r.out);
    }
    case 3: {
      u32 in = lng ? gen::long_cps(t, 2000) : gen::raw_unicode_label(t), want, out;
      if (ref::ascii(in)) in += U'\u00e9';
      bool wok = ref::map(in, want);
      d = "map(" + q(in) + ")";
      bool ok = idna::map(in, out);
      return judge(!ok, ok == wok && (!ok || out == want));
    }
    case 4: {
      u32 in = lng ? gen::long_cps(t, 2000) : gen::nfc_text(t, 6), want = ref::nfc(in), out = in;
      d = "normalize(" + q(in) + ")";
      bool ok = idna::normalize(out);
      if (want == in) return out == in ? "" : "changed normalised text to " + q(u32v(out));
      return judge(!ok && out == in, ok && out == want);
    }
    case 5: {
      u32 in = lng ? gen::long_cps(t, 2000) : gen::nfc_text(t, 6);
      d = "is_already_nfc(" + q(in) + ")";
      bool ok = idna::is_already_nfc(in), want = ref::is_nfc(in);
      if (ok && !want) return "said yes";
      if (std::all_of(in.begin(), in.end(), [](char32_t c) { return c < 0x300; })) return "";
      return x == MUST_FAIL && ok ? "was answered from damaged or missing tables" : "";  // as a first call it may say no
    }
    case 6: {
      u32 l = lng ? gen::sparse_text(t, t.u(1500)) : gen::raw_unicode_label(t), m;
      if (ref::map(l, m)) l = ref::nfc(m);
      if (!ref::stable(l) || ref::ascii(l) || ref::ace_prefix(l) || l.find(U'.') != l.npos) l = U"\u05d0\u05d1";
      d = "is_label_valid(" + q(l) + ")";
      bool ok = idna::is_label_valid(l);
      return judge(!ok, ok == ref::label_valid(l));
    }
    case 7: {
      uint32_t c = t.of(gen::P().valid);
      if (c < 0x80) c = 0xE9;
      d = "valid_name_code_point(" + std::to_string(c) + ")";
      bool ok = idna::valid_name_code_point(c, false);
      return judge(!ok, ok == ((ucd::data().idcont[c]) || c == 0x200C || c == 0x200D));
    }
    case 9: {
      u32 l = gen::raw_unicode_label(t), m;
      if (ref::map(l, m)) l = ref::nfc(m);
      if (!ref::stable(l) || t.p(60)) l = U"\u05d0\u05d1";
      d = "is_rtl_label(" + q(l) + ")";
      bool yes = idna::is_rtl_label(l), want = ref::rtl_content(l);
      if (yes && !want) return "said yes";
      return judge(!yes, yes == want);
    }
    case 10: return needs_no_tables(t, d);
    default: {
      std::string in = gen::puny_text(t);
      d = "punycode_to_utf32(" + q(in) + ")";
      u32 o;
      auto r = ref::puny_decode(in);
      bool ok = idna::punycode_to_utf32(in, o);
      if (r.over31 || r.nonscalar) return "";
      return ok == (r.ok && !ref::ace_prefix(r.out)) && (!ok || o == r.out) ? "" : "is wrong, although it needs no tables";
    }
  }
}
void drive(Ctx& c, const std::string& what, const Bytes* data, Expect x, bool oom) {
  auto& t = c.t;
  uint32_t threads = t.p(40) ? 2 + t.u(3) : 0;
  c.show(what + (threads ? ", first calls from " + std::to_string(threads) + " threads" : ""));
  c.label(x == MUST_FAIL ? "must fail" : x == MUST_WORK ? "still intact" : "either");
  std::vector<uint8_t> bytes(threads * 64);
  for (auto& b : bytes) b = t.byte();
  auto r = forked([&]() -> std::string {
    if (data) overwrite(*data);
    if (oom) g_refuse_from = 100000;
    std::string trace;
    if (threads) {
      std::vector<std::string> bad(threads);
      std::vector<std::thread> th;
      std::atomic<uint32_t> here{0};
      for (uint32_t k = 0; k < threads; k++)
        th.emplace_back([&, k] {
          Tape tt(bytes.data() + k * 64, 64);
          here++;
          while (here.load() < threads) {}
          for (int j = 0; j < 2; j++) {
            std::string d, b;
            try { b = call(tt, x, d); } catch (std::bad_alloc&) { if (!oom) b = "threw bad_alloc"; }
            if (!b.empty() && bad[k].empty()) bad[k] = d + " " + b;
          }
        });
      for (auto& y : th) y.join();
      for (auto& b : bad) if (!b.empty()) throw Fail{what + "; in one of " + std::to_string(threads) + " threads " + b};
    }
    for (uint32_t n = 3 + t.u(6); n > 0; n--) {
      std::string d, b;
      try { b = call(t, x, d); } catch (std::bad_alloc&) { if (!oom) b = "threw bad_alloc"; }
      if (trace.size() < 1500) trace += d + "; ";
      if (!b.empty()) throw Fail{what + "; then " + trace + " the last of which " + b};
    }
    return trace;
  });
  if (!r.ok) c.fail(r.how.find("; ") == r.how.npos ? what + ": the process " + r.how : r.how);
  c.show(c.desc + ": " + r.text.substr(0, 1200));
  c.nontrivial(c.desc);
}
// What zlib makes of the damaged stream decides what is expected.
Expect expect_of(const Bytes& b) {
  Bytes o;
  bool end = zinflate(b, o, blob::uncompressed_size);
  if (end && o == payload()) return MUST_WORK;
  if (end && o.size() == payload().size() && crc32(0, o.data(), uInt(o.size())) == crc32(0, payload().data(), uInt(payload().size()))) return EITHER;
  return MUST_FAIL;
}
void flipped(Ctx& c) {
  auto& t = c.t;
  Bytes b = original();
  std::string d = "the compressed tables with";
  for (uint32_t k = 1 + (t.p(60) ? t.u(4) : 0); k > 0; k--) {
    size_t i = t.p(40) ? t.u(80) : t.p(40) ? b.size() - 1 - t.u(80) : t.u(uint32_t(b.size()));
    switch (t.u(3)) {
      case 0: { uint32_t bit = t.u(8); b[i] ^= uint8_t(1u << bit); d += " bit " + std::to_string(i) + "." + std::to_string(bit) + " flipped"; break; }
      case 1: { uint8_t v = t.byte(); b[i] = v; d += " byte " + std::to_string(i) + " set to " + std::to_string(v); break; }
      default: { uint32_t n = 1 + t.u(t.p(128) ? 8 : 4000); for (size_t j = i; j < b.size() && j < i + n; j++) b[j] = 0; d += " bytes " + std::to_string(i) + "+" + std::to_string(n) + " zeroed"; }
    }
  }
  drive(c, d, &b, expect_of(b), false);
}
uint32_t sum(const Bytes& p) { return uint32_t(crc32(0, p.data(), uInt(p.size()))); }
// Changes the four bytes at i so that the CRC-32 of p becomes the wanted one.
void forge(Bytes& p, size_t i, uint32_t want) {
  const uint32_t base = sum(p);
  uint32_t effect[32], source[32], goal = base ^ want, flips = 0;
  for (int k = 0; k < 32; k++) {
    p[i + size_t(k / 8)] ^= uint8_t(1u << k % 8);
    effect[k] = sum(p) ^ base;
    p[i + size_t(k / 8)] ^= uint8_t(1u << k % 8);
    source[k] = 1u << k;
  }
  for (int bit = 0, row = 0; bit < 32; bit++) {
    int k = row;
    while (k < 32 && !(effect[k] >> bit & 1)) k++;
    if (k == 32) continue;
    std::swap(effect[k], effect[row]);
    std::swap(source[k], source[row]);
    for (int j = 0; j < 32; j++) if (j != row && (effect[j] >> bit & 1)) effect[j] ^= effect[row], source[j] ^= source[row];
    if (goal >> bit & 1) goal ^= effect[row], flips ^= source[row];
    row++;
  }
  for (size_t k = 0; k < 4; k++) p[i + k] ^= uint8_t(flips >> 8 * k);
  if (sum(p) != want) abort();
}
// A well-formed stream of the right size whose contents differ: only the checksum can tell.
void rewritten(Ctx& c) {
  auto& t = c.t;
  if (payload().empty()) { c.show("the tables do not inflate"); c.fail("zlib cannot inflate the embedded tables"); }
  Bytes p = payload();
  std::string d = "tables that inflate well, but with";
  uint32_t kind = t.u(9), wrong = 0;
  size_t i = t.p(40) ? t.u(100) : t.p(40) ? p.size() - 1 - t.u(100) : t.u(uint32_t(p.size())), patch = 0;
  if (kind == 0) { uint32_t bit = t.u(8); p[i] ^= uint8_t(1u << bit); d += " bit " + std::to_string(i) + "." + std::to_string(bit) + " of the payload flipped"; }
  else if (kind == 1) { uint32_t n = 1 + t.u(3000); for (size_t j = i; j < p.size() && j < i + n; j++) p[j] = 0; d += " payload bytes " + std::to_string(i) + "+" + std::to_string(n) + " zeroed"; }
  else if (kind == 2) { uint32_t n = 1 + t.u(3000); p.resize(p.size() - n); d += " a payload " + std::to_string(n) + " bytes short"; }
  else if (kind == 3) { uint32_t n = 1 + t.u(3000); p.resize(p.size() + n, 0); d += " a payload " + std::to_string(n) + " bytes too long"; }
  else if (kind < 7) {  // a checksum that is nearly right
    p[i] ^= uint8_t(1 + t.u(255));
    static const uint32_t masks[] = {0xFF, 0xFF00, 0xFF0000, 0xFF000000, 0xFFFF, 0xFFFF0000, 0xFFFFFF, 0xFFFFFF00, 0x7FFFFFFF, 0x80000000};
    wrong = t.p(128) ? 1u << t.u(32) : masks[t.u(10)] & (t.u32() | 1u << t.u(32));
    if (!wrong) wrong = 1;
    patch = t.u(uint32_t(p.size() - 4));
    d += " byte " + std::to_string(i) + " changed and a checksum wrong in " + std::to_string(__builtin_popcount(wrong)) + " bits";
  } else if (kind == 7) {  // the right checksum, over less
    p.resize(p.size() - 1 - t.u(t.p(128) ? 8 : 3000));
    patch = p.size() - 4 - t.u(1000);
    d += " " + std::to_string(payload().size() - p.size()) + " bytes fewer, of the same checksum";
  } else { size_t j = t.u(uint32_t(p.size())); std::swap(p[i], p[j]); d += " payload bytes " + std::to_string(i) + " and " + std::to_string(j) + " exchanged"; }
  if (patch) forge(p, patch, sum(payload()) ^ wrong);
  Bytes z = zdeflate(p, 9, 0);
  if (z.size() > original().size()) {  // make room: zero a stretch as well
    size_t from = t.u(uint32_t(p.size() / 2));
    for (size_t j = from; j < from + 200 && j < p.size(); j++) p[j] = 0;
    d += " and 200 bytes at " + std::to_string(from) + " zeroed";
    if (patch) forge(p, patch, sum(payload()) ^ wrong);
    z = zdeflate(p, 9, 0);
  }
  if (z.size() > original().size()) { c.label("did not fit"); return; }
  z.resize(original().size(), 0);
  drive(c, d, &z, expect_of(z), false);
}
void truncated(Ctx& c) {  // an early end: the rest is another final block, or padding
  auto& t = c.t;
  Bytes p(payload().begin(), payload().begin() + long(t.u(uint32_t(payload().size()))));
  Bytes z = zdeflate(p, 9, 0);
  if (z.size() > original().size()) { c.label("did not fit"); return; }
  z.resize(original().size(), t.byte());
  drive(c, "tables cut to " + std::to_string(p.size()) + " bytes", &z, expect_of(z), false);
}
void no_memory(Ctx& c) { drive(c, "no memory for the tables", nullptr, EITHER, true); }
void intact(Ctx& c) { drive(c, "undamaged tables", nullptr, MUST_WORK, false); }
}  // namespace
PBT_MAIN("default", {"flipped", flipped, 7000, 150000}, {"rewritten", rewritten, 1500, 40000}, {"truncated", truncated, 500, 8000}, {"no-memory", no_memory, 2500, 40000}, {"intact", intact, 1000, 20000})
