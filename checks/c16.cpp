// C16: the DEFLATE decoder agrees with zlib on every stream and never leaves its buffers.
#include <zlib.h>

#include "raw_inflate.hpp"
#include "../lib/engine.hpp"
using namespace pbt;
using Bytes = std::vector<uint8_t>;
namespace {
struct BitWriter {
  Bytes b;
  int nb = 0;
  void put(uint32_t v, int n) {  // LSB first
    for (int i = 0; i < n; i++) {
      if (nb == 0) b.push_back(0);
      if ((v >> i) & 1) b.back() |= uint8_t(1u << nb);
      nb = (nb + 1) & 7;
    }
  }
  void code(uint32_t v, int n) { for (int i = n - 1; i >= 0; i--) put((v >> i) & 1, 1); }  // Huffman codes: MSB first
  void align() { nb = 0; }
};
struct Codes {
  std::vector<uint8_t> len;
  std::vector<uint32_t> code;
  explicit Codes(std::vector<uint8_t> l) : len(std::move(l)), code(len.size()) {
    uint32_t c = 0;
    for (int b = 1; b <= 15; b++) {
      for (size_t i = 0; i < len.size(); i++) if (len[i] == b) code[i] = c++;
      c <<= 1;
    }
  }
  void put(BitWriter& w, size_t s) const { w.code(code[s], len[s]); }
};
// A complete prefix code over the given symbols (at least two), no longer than maxb bits.
std::vector<uint8_t> complete(Tape& t, size_t n, const std::vector<size_t>& syms, int maxb) {
  std::vector<uint8_t> d = {1, 1}, len(n, 0);
  bool skew = t.p(128);
  while (d.size() < syms.size()) {
    size_t i = skew ? d.size() - 1 : t.u(uint32_t(d.size()));
    for (size_t k = 0; d[i] >= maxb && k < d.size(); k++) i = (i + 1) % d.size();
    d[i]++;
    d.push_back(d[i]);
  }
  for (size_t i = 0; i < syms.size(); i++) len[syms[i]] = d[i];
  return len;
}
const int kLenBase[29] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258};
const int kLenExtra[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
const int kDistBase[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
const int kDistExtra[30] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};

struct Maker {
  Tape& t;
  BitWriter w;
  size_t out = 0;
  bool bad = false;  // one deliberate fault was written
  explicit Maker(Tape& tt) : t(tt) {}
  void stored(bool last) {
    w.put(last, 1); w.put(0, 2); w.align();
    uint32_t n = t.p(30) ? (t.p(128) ? 65535 : 32000 + t.u(2000)) : t.size(300);
    w.put(n, 16);
    uint32_t c = n ^ 0xFFFF;
    if (t.p(6)) { c ^= 1u << t.u(16); bad = true; }
    w.put(c, 16);
    uint8_t x = t.byte();
    for (uint32_t i = 0; i < n; i++) w.b.push_back(uint8_t(x + i * 7 + (i >> 8)));
    out += n;
  }
  // Literals and matches, only with symbols that have a code.
  void data(const Codes& lit, const Codes& dist) {
    std::vector<size_t> lits, lens, ds;
    for (size_t i = 0; i < lit.len.size(); i++) if (lit.len[i]) { if (i < 256) lits.push_back(i); else if (i > 256) lens.push_back(i); }
    for (size_t i = 0; i < dist.len.size(); i++) if (dist.len[i]) ds.push_back(i);
    for (uint32_t n = t.size(120); n > 0; n--) {
      bool m = !lens.empty() && !ds.empty() && t.p(110);
      if (!m) {
        if (lits.empty()) continue;
        lit.put(w, lits[t.u(uint32_t(lits.size()))]);
        out++;
        continue;
      }
      size_t l = lens[t.u(uint32_t(lens.size()))], d = ds[t.u(uint32_t(ds.size()))];
      if (l > 285 || d > 29) {
        if (!t.p(10)) continue;
        bad = true;
        lit.put(w, l);
        if (l <= 285) { w.put(t.u(32), kLenExtra[l - 257]); dist.put(w, d); }
        continue;
      }
      int de = kDistExtra[d];
      uint32_t dx = t.u(1u << de);
      if (t.p(60)) dx = (1u << de) - 1;
      if (size_t(kDistBase[d]) + dx > out) {
        if (size_t(kDistBase[d]) <= out) dx = uint32_t(out - size_t(kDistBase[d]));  // exactly the whole window
        else if (!t.p(4)) continue;
        if (t.p(6) && dx + 1 < (1u << de)) dx++;
        if (size_t(kDistBase[d]) + dx > out) bad = true;
      }
      int le = kLenExtra[l - 257];
      uint32_t lx = t.u(1u << le);
      lit.put(w, l);
      w.put(lx, le);
      dist.put(w, d);
      w.put(dx, de);
      out += size_t(kLenBase[l - 257]) + lx;
    }
    if (lit.len.size() > 256 && lit.len[256]) lit.put(w, 256);
  }
  void fixed(bool last) {
    w.put(last, 1); w.put(1, 2);
    std::vector<uint8_t> l(288), d(32, 5);
    for (size_t i = 0; i < 288; i++) l[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
    data(Codes(l), Codes(d));
  }
  std::vector<size_t> some(size_t n, uint32_t k) {
    std::vector<size_t> v;
    for (uint32_t i = 0; i < k; i++) { size_t s = t.u(uint32_t(n)); if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); }
    return v;
  }
  void dynamic(bool last) {
    w.put(last, 1); w.put(2, 2);
    uint32_t hlit = t.p(60) ? 286 : 257 + t.u(30), hdist = t.p(60) ? 30 : 1 + t.u(30);
    if (t.p(6)) { hlit = 287 + t.u(2); bad = true; }
    if (t.p(6)) { hdist = 31 + t.u(2); bad = true; }
    auto sy = some(hlit, t.p(40) ? 280 : 1 + t.u(60));
    if (std::find(sy.begin(), sy.end(), size_t(256)) == sy.end()) sy.push_back(256);
    std::vector<uint8_t> ll(hlit, 0), dl(hdist, 0);
    if (sy.size() < 2) ll[256] = 1;
    else ll = complete(t, hlit, sy, 9 + int(t.u(7)));
    auto ds = some(hdist, t.p(40) ? 0 : 1 + t.u(t.p(128) ? 40 : 4));
    if (ds.size() == 1) dl[ds[0]] = 1;
    else if (ds.size() > 1) dl = complete(t, hdist, ds, 6 + int(t.u(10)));
    if (t.p(10)) { auto& v = t.p(128) ? ll : dl; v[t.u(uint32_t(v.size()))] = uint8_t(1 + t.u(15)); bad = true; }
    // run-length code the lengths, choosing freely among the legal ways
    std::vector<uint8_t> all(ll);
    all.insert(all.end(), dl.begin(), dl.end());
    std::vector<std::array<uint32_t, 3>> ops;  // symbol, extra, bits
    bool greedy = t.p(180);
    for (size_t i = 0; i < all.size();) {
      size_t run = 1;
      while (i + run < all.size() && all[i + run] == all[i]) run++;
      bool fold = greedy || t.p(128);
      if (all[i] == 0 && run >= 11 && fold) { size_t k = 11 + t.u(uint32_t(std::min<size_t>(run, 138) - 10)); if (greedy) k = std::min<size_t>(run, 138); ops.push_back({18, uint32_t(k - 11), 7}); i += k; continue; }
      if (all[i] == 0 && run >= 3 && fold) { size_t k = std::min<size_t>(run, 3 + t.u(8)); ops.push_back({17, uint32_t(k - 3), 3}); i += k; continue; }
      if (i > 0 && all[i] == all[i - 1] && run >= 3 && fold) { size_t k = std::min<size_t>(run, 3 + t.u(4)); ops.push_back({16, uint32_t(k - 3), 2}); i += k; continue; }
      ops.push_back({all[i], 0, 0});
      i++;
    }
    if (t.p(8)) {  // one more repeat than fits, or a repeat of nothing
      bad = true;
      switch (t.u(4)) {
        case 0: ops.insert(ops.begin(), {16, t.u(4), 2}); break;
        case 1: ops.back() = {18, t.u(128), 7}; break;
        case 2: ops.back() = {17, t.u(8), 3}; break;
        default: ops.back() = {16, t.u(4), 2};
      }
    }
    std::vector<size_t> used;
    for (auto& o : ops) if (std::find(used.begin(), used.end(), size_t(o[0])) == used.end()) used.push_back(o[0]);
    for (size_t x = 0; used.size() < 2; x++) if (std::find(used.begin(), used.end(), x) == used.end()) used.push_back(x);
    auto cl = complete(t, 19, used, 5 + int(t.u(3)));
    static const int order[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
    uint32_t hclen = 19;
    while (hclen > 4 && cl[size_t(order[hclen - 1])] == 0) hclen--;
    if (hclen < 19 && t.p(40)) hclen += t.u(20 - hclen);
    w.put(hlit - 257, 5); w.put(hdist - 1, 5); w.put(hclen - 4, 4);
    for (uint32_t i = 0; i < hclen; i++) w.put(cl[size_t(order[i])], 3);
    Codes cc(cl);
    for (auto& o : ops) { cc.put(w, o[0]); w.put(o[1], int(o[2])); }
    data(Codes(ll), Codes(dl));
  }
  Bytes make() {
    uint32_t n = 1 + t.u(4);
    for (uint32_t i = 0; i < n; i++) {
      static const uint8_t k[] = {60, 60, 120, 2};
      bool last = i + 1 == n;
      switch (t.pick(k)) {
        case 0: stored(last); break;
        case 1: fixed(last); break;
        case 2: dynamic(last); break;
        default: w.put(last, 1); w.put(3, 2); bad = true;
      }
    }
    return w.b;
  }
};
enum Verdict { END, TRUNC, BADDATA, EITHER, TOOBIG };
constexpr size_t MAXOUT = 1 << 20;
Verdict oracle(const Bytes& in, Bytes& out, std::string& msg) {
  static Bytes buf(MAXOUT);
  z_stream z{};
  if (inflateInit2(&z, -15) != Z_OK) abort();
  Bytes copy(in);
  copy.push_back(0);
  z.next_in = copy.data();
  z.avail_in = uInt(in.size());
  z.next_out = buf.data();
  z.avail_out = uInt(buf.size());
  int r = inflate(&z, Z_FINISH);
  out.assign(buf.begin(), buf.begin() + long(z.total_out));
  msg = z.msg ? z.msg : "";
  size_t left = z.avail_out;
  inflateEnd(&z);
  if (r == Z_STREAM_END) return END;
  if (r == Z_BUF_ERROR) return left == 0 ? TOOBIG : TRUNC;
  if (r != Z_DATA_ERROR) return EITHER;
  // What RFC 1951 leaves open, or zlib alone refuses: incomplete or missing codes, 287+ symbols.
  for (const char* m : {"too many length or distance symbols", "invalid code lengths set", "invalid literal/lengths set", "invalid distances set", "missing end-of-block"})
    if (msg.find(m) != msg.npos) return EITHER;
  return BADDATA;
}
std::string brief(const Bytes& b) { return hex(Bytes(b.begin(), b.begin() + long(std::min<size_t>(b.size(), 160)))) + (b.size() > 160 ? "..." : ""); }
void compare(Ctx& c, const Bytes& in, size_t want_cap, const char* kind) {
  Bytes out;
  std::string msg;
  Verdict v = oracle(in, out, msg);
  size_t n = v == END ? out.size() : want_cap;
  // capacity: exactly enough, one short, or something else
  size_t cap = n;
  switch (c.t.u(6)) {
    case 0: case 1: case 2: break;
    case 3: cap = n ? n - 1 : 0; break;
    case 4: cap = n + c.t.u(50); break;
    default: cap = c.t.u(uint32_t(n + 300)); break;
  }
  c.show(std::string(kind) + ": " + std::to_string(in.size()) + " bytes " + brief(in) + ", capacity " + std::to_string(cap) + ", zlib: " + (v == END ? std::to_string(out.size()) + " bytes" : v == TRUNC ? "truncated" : msg));
  auto* src = static_cast<uint8_t*>(malloc(in.size() ? in.size() : 1));
  auto* dst = static_cast<uint8_t*>(malloc(cap ? cap : 1));
  if (!in.empty()) memcpy(src, in.data(), in.size());
  size_t r = ada::idna::deflate::inflate_raw(src, in.size(), dst, cap);
  bool same = r == out.size() && (r == 0 || !memcmp(dst, out.data(), r));
  free(src);
  free(dst);
  c.label(v == END ? out.size() <= cap ? "well-formed, fits" : "well-formed, does not fit" : v == TRUNC ? "truncated" : v == EITHER ? "unspecified" : v == TOOBIG ? "bomb" : ("bad: " + msg).c_str());
  if (r > cap) c.fail("reports " + std::to_string(r) + " bytes written into " + std::to_string(cap));
  if (v == END && out.size() <= cap && !same) c.fail("inflated to " + std::to_string(r) + " bytes that differ from zlib's " + std::to_string(out.size()));
  if (v == END && out.size() > cap && r) c.fail("reports " + std::to_string(r) + " bytes for a stream of " + std::to_string(out.size()));
  if ((v == TRUNC || v == BADDATA || v == TOOBIG) && r) c.fail("accepted a malformed stream (" + (msg.empty() ? "truncated" : msg) + "), reporting " + std::to_string(r) + " bytes");
  if (!strcmp(kind, "hand-made")) c.label(v == END ? "hand-made without a fault: zlib agrees" : "hand-made without a fault: zlib does not accept it");
  if (in.size() > 2) c.nontrivial(hash_bytes(in.data(), in.size()) ^ cap);
}
void made(Ctx& c) {
  Maker m(c.t);
  Bytes b = m.make();
  if (c.t.p(30)) b.push_back(c.t.byte());  // trailing bytes are not part of the stream
  compare(c, b, std::min<size_t>(m.out, 100000), m.bad ? "hand-made, one fault" : "hand-made");
}
void damaged(Ctx& c) {
  Maker m(c.t);
  Bytes b = m.make();
  if (b.empty()) return;
  for (uint32_t k = 1 + c.t.u(3); k > 0 && !b.empty(); k--) {
    size_t i = c.t.p(160) ? c.t.u(uint32_t(std::min<size_t>(b.size(), 60))) : c.t.u(uint32_t(b.size()));
    switch (c.t.u(4)) {
      case 0: b[i] ^= uint8_t(1u << c.t.u(8)); break;
      case 1: b[i] = c.t.byte(); break;
      case 2: b.erase(b.begin() + long(i)); break;
      default: b.resize(c.t.u(uint32_t(b.size()))); break;
    }
  }
  compare(c, b, std::min<size_t>(m.out, 100000), "damaged");
}
void noise(Ctx& c) {
  Bytes b;
  for (uint32_t k = c.t.size(300); k > 0; k--) b.push_back(c.t.byte());
  if (!b.empty() && c.t.p(200)) b[0] = uint8_t((b[0] & 0xF8) | (c.t.p(128) ? 5 : 3));
  compare(c, b, 1000, "random bytes");
}
void deflated(Ctx& c) {  // whatever zlib itself can produce
  auto& t = c.t;
  Bytes in;
  uint32_t n = t.p(20) ? t.u(200000) : t.p(80) ? t.u(5000) : t.u(200);
  uint32_t kind = t.u(6), a = t.byte(), step = 1 + t.u(40);
  uint64_t x = a;
  for (uint32_t i = 0; i < n; i++) {
    switch (kind) {
      case 0: in.push_back(uint8_t(a)); break;
      case 1: in.push_back(uint8_t(i * step >> 3)); break;
      case 2: x = x * 6364136223846793005ull + 1442695040888963407ull; in.push_back(uint8_t(x >> 40)); break;
      case 3: x = x * 6364136223846793005ull + 1442695040888963407ull; in.push_back(uint8_t((x >> 40) % step)); break;
      case 4: in.push_back(in.size() > 32768 ? in[in.size() - 32768 + t.u(1)] : uint8_t((i * 2654435761u) >> 24)); break;
      default: in.push_back("the table of contents, aaaaab "[(i ^ (i / step)) % 30]); break;
    }
  }
  z_stream z{};
  int level = int(t.u(10)), strat = int(t.u(5)), mem = 1 + int(t.u(9)), wb = 9 + int(t.u(7));
  if (deflateInit2(&z, level, Z_DEFLATED, -wb, mem, strat) != Z_OK) return;
  Bytes out(deflateBound(&z, n) + 65536);
  z.next_in = in.data();
  z.next_out = out.data();
  z.avail_out = uInt(out.size());
  uint32_t done = 0, cuts = t.u(5);
  for (uint32_t i = 0; i < cuts && done < n; i++) {
    uint32_t k = t.u(n - done + 1);
    z.avail_in = k;
    static const int fl[] = {Z_NO_FLUSH, Z_PARTIAL_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_BLOCK};
    deflate(&z, fl[t.u(5)]);
    done += k - z.avail_in;
  }
  z.avail_in = n - done;
  int r = deflate(&z, Z_FINISH);
  out.resize(z.total_out);
  deflateEnd(&z);
  if (r != Z_STREAM_END) return;
  c.label("made by zlib");
  if (t.p(50) && !out.empty()) out.resize(t.u(uint32_t(out.size())));
  compare(c, out, n, "made by zlib");
}
}  // namespace
PBT_MAIN("asan-ubsan", {"made", made, 250000, 6000000}, {"damaged", damaged, 250000, 6000000}, {"noise", noise, 300000, 6000000}, {"deflated", deflated, 12000, 300000})
