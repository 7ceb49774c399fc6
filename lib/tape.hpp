// A case is a byte tape. In random mode the tape is filled lazily from a PRNG;
// in replay, shrinking and libFuzzer mode it is given, and reads past its end
// yield 0 (every generator makes 0 its simplest choice).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

struct Rng64 {  // splitmix64 / xorshift: reproducible everywhere
  uint64_t s;
  explicit Rng64(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng64 r(a * 0x2545F4914F6CDD1Dull + b); r.next(); return r.next(); }
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  auto* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
  return h ^ (h >> 29);
}

struct Tape {
  uint8_t* buf;      // backing store (shared memory in workers)
  size_t cap;
  size_t len;        // bytes present
  size_t pos = 0;
  bool grow;         // random mode: extend from rng
  Rng64 rng;
  Tape(uint8_t* b, size_t c, uint64_t seed) : buf(b), cap(c), len(0), grow(true), rng(seed) {}
  Tape(uint8_t* b, size_t n) : buf(b), cap(n), len(n), grow(false), rng(0) {}
  uint8_t byte() {
    if (pos < len) return buf[pos++];
    if (!grow || len >= cap) { pos++; return 0; }
    uint8_t v = uint8_t(rng.next() >> 33);
    buf[len++] = v;
    pos++;
    return v;
  }
  // 0..n-1; the byte count depends only on n, so a tape edit stays local
  uint32_t u(uint32_t n) {
    if (n <= 1) return 0;
    if (n <= 256) return byte() % n;
    if (n <= 65536) { uint32_t a = byte(); return (a | (uint32_t(byte()) << 8)) % n; }
    uint32_t a = byte();
    a |= uint32_t(byte()) << 8;
    a |= uint32_t(byte()) << 16;
    a |= uint32_t(byte()) << 24;
    return a % n;
  }
  uint32_t u32() { uint32_t a = 0; for (int i = 0; i < 4; i++) a |= uint32_t(byte()) << (8 * i); return a; }
  // true with probability k/256; 0 on the tape means false
  bool p(unsigned k) { return byte() >= 256 - k; }
  // weighted choice, weights sum to <= 256; the first alternative is the simplest
  template <size_t K>
  size_t pick(const uint8_t (&w)[K]) {
    unsigned tot = 0;
    for (auto x : w) tot += x;
    unsigned v = u(tot);
    for (size_t i = 0; i < K; i++) {
      if (v < w[i]) return i;
      v -= w[i];
    }
    return K - 1;
  }
  template <class T>
  const T& of(const std::vector<T>& v) { return v[u(uint32_t(v.size()))]; }
  // small sizes likely, occasionally large
  uint32_t size(uint32_t max) {
    uint32_t k = byte();
    uint32_t m = k < 200 ? 4 : k < 245 ? 16 : max;
    if (m > max) m = max;
    return u(m + 1);
  }
};
