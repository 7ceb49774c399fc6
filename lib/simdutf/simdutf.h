// A stand-in for simdutf (not installed here), written from its documented contracts:
// the functions the library calls when built with ADA_USE_SIMDUTF, and their relatives.
#pragma once
#include <cstddef>
#include <cstdint>

namespace simdutf {
// Number of code points if the text is valid; counts non-continuation bytes.
inline size_t utf32_length_from_utf8(const char* s, size_t n) {
  size_t k = 0;
  for (size_t i = 0; i < n; i++) k += (static_cast<unsigned char>(s[i]) & 0xC0) != 0x80;
  return k;
}
// Number of code points written, 0 if the text is not valid UTF-8.
inline size_t convert_utf8_to_utf32(const char* s, size_t n, char32_t* o) {
  size_t i = 0, k = 0;
  auto b = [&](size_t j) -> unsigned { return static_cast<unsigned char>(s[j]); };
  auto cont = [&](size_t j) { return j < n && (b(j) & 0xC0) == 0x80; };
  while (i < n) {
    unsigned c = b(i);
    uint32_t v;
    if (c < 0x80) { v = c; i += 1; }
    else if ((c & 0xE0) == 0xC0) {
      if (!cont(i + 1)) return 0;
      v = (c & 0x1F) << 6 | (b(i + 1) & 0x3F);
      if (v < 0x80) return 0;
      i += 2;
    } else if ((c & 0xF0) == 0xE0) {
      if (!cont(i + 1) || !cont(i + 2)) return 0;
      v = (c & 0xF) << 12 | (b(i + 1) & 0x3F) << 6 | (b(i + 2) & 0x3F);
      if (v < 0x800 || (v >= 0xD800 && v < 0xE000)) return 0;
      i += 3;
    } else if ((c & 0xF8) == 0xF0) {
      if (!cont(i + 1) || !cont(i + 2) || !cont(i + 3)) return 0;
      v = (c & 7) << 18 | (b(i + 1) & 0x3F) << 12 | (b(i + 2) & 0x3F) << 6 | (b(i + 3) & 0x3F);
      if (v < 0x10000 || v > 0x10FFFF) return 0;
      i += 4;
    } else return 0;
    o[k++] = char32_t(v);
  }
  return k;
}
// Number of bytes, if every value is a code point.
inline size_t utf8_length_from_utf32(const char32_t* s, size_t n) {
  size_t k = 0;
  for (size_t i = 0; i < n; i++) k += s[i] < 0x80 ? 1 : s[i] < 0x800 ? 2 : s[i] < 0x10000 ? 3 : 4;
  return k;
}
// Number of bytes written, 0 if some value is not a scalar value.
inline size_t convert_utf32_to_utf8(const char32_t* s, size_t n, char* o) {
  char* p = o;
  for (size_t i = 0; i < n; i++) {
    uint32_t c = s[i];
    if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return 0;
    if (c < 0x80) *p++ = char(c);
    else if (c < 0x800) { *p++ = char(0xC0 | c >> 6); *p++ = char(0x80 | (c & 0x3F)); }
    else if (c < 0x10000) { *p++ = char(0xE0 | c >> 12); *p++ = char(0x80 | (c >> 6 & 0x3F)); *p++ = char(0x80 | (c & 0x3F)); }
    else { *p++ = char(0xF0 | c >> 18); *p++ = char(0x80 | (c >> 12 & 0x3F)); *p++ = char(0x80 | (c >> 6 & 0x3F)); *p++ = char(0x80 | (c & 0x3F)); }
  }
  return size_t(p - o);
}

enum error_code { SUCCESS = 0, HEADER_BITS, TOO_SHORT, TOO_LONG, OVERLONG, TOO_LARGE, SURROGATE, OTHER };
struct result {
  error_code error;
  size_t count;
};
// For valid text only; what comes out for other text is unspecified. Here: what the
// bits say, so that nothing but a check by the caller refuses ill-formed text.
inline size_t convert_valid_utf8_to_utf32(const char* s, size_t n, char32_t* o) {
  size_t i = 0, k = 0;
  auto b = [&](size_t j) -> unsigned { return j < n ? static_cast<unsigned char>(s[j]) : 0x80; };
  while (i < n) {
    unsigned c = b(i);
    if (c < 0xC0) { o[k++] = c; i += 1; }
    else if (c < 0xE0) { o[k++] = (c & 0x1F) << 6 | (b(i + 1) & 0x3F); i += 2; }
    else if (c < 0xF0) { o[k++] = (c & 0xF) << 12 | (b(i + 1) & 0x3F) << 6 | (b(i + 2) & 0x3F); i += 3; }
    else { o[k++] = (c & 7) << 18 | (b(i + 1) & 0x3F) << 12 | (b(i + 2) & 0x3F) << 6 | (b(i + 3) & 0x3F); i += 4; }
  }
  return k;
}
inline size_t convert_valid_utf32_to_utf8(const char32_t* s, size_t n, char* o) {
  char* p = o;
  for (size_t i = 0; i < n; i++) {
    uint32_t c = s[i];
    if (c < 0x80) *p++ = char(c);
    else if (c < 0x800) { *p++ = char(0xC0 | c >> 6); *p++ = char(0x80 | (c & 0x3F)); }
    else if (c < 0x10000) { *p++ = char(0xE0 | c >> 12); *p++ = char(0x80 | (c >> 6 & 0x3F)); *p++ = char(0x80 | (c & 0x3F)); }
    else { *p++ = char(0xF0 | c >> 18); *p++ = char(0x80 | (c >> 12 & 0x3F)); *p++ = char(0x80 | (c >> 6 & 0x3F)); *p++ = char(0x80 | (c & 0x3F)); }
  }
  return size_t(p - o);
}
inline size_t count_utf8(const char* s, size_t n) { return utf32_length_from_utf8(s, n); }
// On error, count is the position of the error in the input; else what was written.
inline result convert_utf8_to_utf32_with_errors(const char* s, size_t n, char32_t* o) {
  size_t i = 0, k = 0;
  while (i < n) {
    unsigned c = static_cast<unsigned char>(s[i]);
    size_t l = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    if (l > n - i) return {TOO_SHORT, i};
    if (convert_utf8_to_utf32(s + i, l, o + k) != 1) return {OTHER, i};
    i += l;
    k++;
  }
  return {SUCCESS, k};
}
inline result convert_utf32_to_utf8_with_errors(const char32_t* s, size_t n, char* o) {
  char* p = o;
  for (size_t i = 0; i < n; i++) {
    size_t w = convert_utf32_to_utf8(s + i, 1, p);
    if (!w) return {s[i] > 0x10FFFF ? TOO_LARGE : SURROGATE, i};
    p += w;
  }
  return {SUCCESS, size_t(p - o)};
}
inline result validate_utf8_with_errors(const char* s, size_t n) {
  char32_t o[1];
  for (size_t i = 0; i < n;) {
    unsigned c = static_cast<unsigned char>(s[i]);
    size_t l = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    if (l > n - i || convert_utf8_to_utf32(s + i, l, o) != 1) return {OTHER, i};
    i += l;
  }
  return {SUCCESS, n};
}
inline bool validate_utf8(const char* s, size_t n) { return validate_utf8_with_errors(s, n).error == SUCCESS; }
inline bool validate_ascii(const char* s, size_t n) {
  for (size_t i = 0; i < n; i++)
    if (static_cast<unsigned char>(s[i]) >= 0x80) return false;
  return true;
}
inline bool validate_utf32(const char32_t* s, size_t n) {
  for (size_t i = 0; i < n; i++)
    if (s[i] > 0x10FFFF || (s[i] >= 0xD800 && s[i] < 0xE000)) return false;
  return true;
}
}  // namespace simdutf
