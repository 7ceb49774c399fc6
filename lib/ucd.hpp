// Unicode 17 data for the reference model, decoded from refdata/ucd17.inc
// (generated from Go's and Node's own tables, never from /repo).
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>

namespace ucd {
struct Rng { uint32_t a, b, v; };
struct Seq { uint32_t cp, off, len; };
struct Cmp { uint32_t a, b, c; };
namespace raw {
#include "../refdata/ucd17.inc"
}
constexpr uint32_t N = 0x110000;
enum Status : uint8_t { V, M, I, D };
enum Join : uint8_t { JL, JD, JT, JR, JU };
// order of BID in build_refdata.py
enum Bidi : uint8_t { L, R, AL, AN, EN, ES, CS, ET, ON, BN, NSM, B, S, WS, Control, LRO, RLO, LRE, RLE, PDF, LRI, RLI, FSI, PDI };

struct Data {
  std::vector<uint8_t> status, join, bidi, mark, ccc, virama, idstart, idcont;
  std::unordered_map<uint32_t, std::u32string> map, nfd;
  std::unordered_map<uint64_t, uint32_t> comp;
  std::vector<uint8_t> has_map, has_nfd;
  Data()
      : status(N, D), join(N, JU), bidi(N, L), mark(N), ccc(N), virama(N), idstart(N), idcont(N), has_map(N), has_nfd(N) {
    fill(raw::kStatus, status);
    fill(raw::kJoin, join);
    fill(raw::kBidi, bidi);
    fill(raw::kMark, mark);
    fill(raw::kCcc, ccc);
    fill(raw::kIdStart, idstart);
    fill(raw::kIdContinue, idcont);
    for (uint32_t c : raw::kVirama) virama[c] = 1;
    for (auto& s : raw::kMap) { map[s.cp] = str(raw::kMapPool + s.off, s.len); has_map[s.cp] = 1; }
    for (auto& s : raw::kNfd) { nfd[s.cp] = str(raw::kNfdPool + s.off, s.len); has_nfd[s.cp] = 1; }
    for (auto& c : raw::kComp) comp[(uint64_t(c.a) << 32) | c.b] = c.c;
  }
  template <size_t K>
  static void fill(const Rng (&r)[K], std::vector<uint8_t>& o) {
    for (auto& x : r)
      for (uint32_t c = x.a; c <= x.b; c++) o[c] = uint8_t(x.v);
  }
  static std::u32string str(const uint32_t* p, size_t n) { return std::u32string(p, p + n); }
};
inline const Data& data() {
  static const Data d;
  return d;
}
inline Status status(uint32_t c) { return c < N ? Status(data().status[c]) : D; }
inline Join join(uint32_t c) { return c < N ? Join(data().join[c]) : JU; }
inline Bidi bidi(uint32_t c) { return c < N ? Bidi(data().bidi[c]) : L; }
inline bool mark(uint32_t c) { return c < N && data().mark[c]; }
inline uint8_t ccc(uint32_t c) { return c < N ? data().ccc[c] : 0; }
inline bool virama(uint32_t c) { return c < N && data().virama[c]; }
}  // namespace ucd
