"""C25: the table scripts. Random Unicode data files go through scripts/idna_table.py and
scripts/derived_table.py in a copy of the repository, random table sections through
scripts/pack_tables.py; the library built from what they wrote must answer as the data say.

run(args) -> result dict like the C++ engine's; replay(spec) -> message or None.
"""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, struct, subprocess, sys, time
from pathlib import Path

V = Path(__file__).resolve().parents[1]
N = 0x110000
FAIL, SELF = 0xFFFF, 0xFFFE
KINDS = ["valid", "ignored", "disallowed", "mapped", "deviation", "disallowed_STD3_valid", "disallowed_STD3_mapped"]

DUMPER = r'''
#include "idna.h"
#include <cstdio>
#include <cstdint>
#include <string>
using namespace ada::idna;
static std::string out, pool, names;
static uint64_t h = 1469598103934665603u;
static void mix(uint32_t x) { h = (h ^ x) * 1099511628211u; }
static void put16(std::string& s, unsigned v) { s += char(v & 255); s += char(v >> 8); }
int main(int argc, char** argv) {
  std::u32string o;
  bool all = argv[2][0] == 'a';
  for (uint32_t c = 0; c < 0x110000 && all; c++) {
    char32_t x = c;
    if (!map(std::u32string_view(&x, 1), o)) put16(out, 0xFFFF);
    else if (o.size() == 1 && o[0] == x) put16(out, 0xFFFE);
    else {
      put16(out, unsigned(o.size()));
      for (char32_t y : o) for (int k = 0; k < 4; k++) pool += char(uint32_t(y) >> (8 * k) & 255);
    }
  }
  for (uint32_t c = 0; c < 0x110000; c++) names += char('0' + valid_name_code_point(c, true) + 2 * valid_name_code_point(c, false));
  for (uint32_t c : {0x110000u, 0x110001u, 0x7fffffffu, 0xffffffffu}) {
    char32_t x = c;
    if (all && map(std::u32string_view(&x, 1), o)) out += "bad";
    if (valid_name_code_point(c, true) || valid_name_code_point(c, false)) names += "bad";
  }
  if (all) {
    for (uint32_t c = 0; c < 0x110000; c++) {
      if (c >= 0x3400 && c < 0xA000) continue;
      if (c >= 0x20000 && c < 0x2F000) continue;
      o.assign(1, c);
      mix(is_label_valid(o) + 2 * is_rtl_label(o));
      (void)normalize(o);
      for (char32_t y : o) mix(y);
    }
    for (uint32_t a = 0x41; a < 0x250; a++)
      for (uint32_t m = 0x300; m < 0x330; m++) { o = {char32_t(a), char32_t(m), U'\u0323'}; (void)normalize(o); for (char32_t y : o) mix(y); }
  }
  FILE* f = fopen(argv[1], "wb");
  uint32_t n[3] = {uint32_t(out.size()), uint32_t(pool.size()), uint32_t(names.size())};
  fwrite(n, 4, 3, f); fwrite(&h, 8, 1, f);
  for (auto* s : {&out, &pool, &names}) fwrite(s->data(), 1, s->size(), f);
  return fclose(f);
}
'''


class Bad(Exception):
    pass


def refdata():
    t = (V / "refdata" / "ucd17.inc").read_text()

    def arr(name):
        m = re.search(r"\b%s\[\]\s*=\s*\{(.*?)\};" % name, t, re.S)
        return m.group(1)

    tri = lambda n: [tuple(map(int, x.split(","))) for x in re.findall(r"\{([^}]*)\}", arr(n))]
    pool = [int(x, 0) for x in re.findall(r"0x[0-9a-fA-F]+|\d+", arr("kMapPool"))]
    maps = {cp: tuple(pool[o:o + n]) for cp, o, n in tri("kMap")}
    segs = []
    for a, b, v in tri("kStatus"):
        if v == 1:
            for c in range(a, b + 1):
                if segs and segs[-1][2] == "mapped" and segs[-1][1] == c - 1 and segs[-1][3] == list(maps[c]):
                    segs[-1][1] = c
                else:
                    segs.append([c, c, "mapped", list(maps[c])])
        else:
            segs.append([a, b, {0: "valid", 2: "ignored", 3: "disallowed"}[v], []])
    ids = {k: [[a, b] for a, b, v in tri(n) if v] for k, n in (("start", "kIdStart"), ("cont", "kIdContinue"))}
    return segs, ids


_REF = None


def ref():
    global _REF
    if _REF is None:
        _REF = refdata()
    return _REF


# --- generating ------------------------------------------------------------------
CORNERS = [1, 0x7E, 0x7F, 0x80, 0x81, 0xFF, 0x100, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFDD0, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF,
           0x10000, 0x10001, 0x1FFFF, 0x20000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF]
# Where a line of its own is usual in the real data or makes a difference to its text.
LINES = [0xAD, 0xDF, 0x130, 0x17F, 0x3C2, 0xFFF, 0x1000, 0x1E9E, 0x2000, 0x200C, 0x200D, 0x200E, 0x2060, 0x3002, 0xFDFA, 0xFE00, 0xFEFF, 0xFF0E, 0xFFFD, 0xFFFF, 0x10000, 0x1D100, 0x1FFFF, 0x20000, 0xDFFFE, 0xDFFFF]


def scalar(r):
    if r.random() < .1:
        return r.choice(CORNERS)
    while True:
        k = r.random()
        c = r.randrange(1, 0x80) if k < .2 else r.randrange(0x80, 0x800) if k < .5 else r.randrange(0x800, 0x10000) if k < .8 else r.randrange(0x10000, N)
        if not 0xD800 <= c < 0xE000:
            return c


def edge(r, lo, hi):
    c = r.randrange(lo, hi)
    if r.random() < .5:
        c = (c & ~63) + r.choice([-1, 0, 0, 1, 62, 63])
    return min(max(c, lo), hi - 1)


def gen_ranges(r, n, top=N):
    pts = sorted({edge(r, 0x80, top) for _ in range(2 * n)})
    out = []
    i = 0
    while i + 1 < len(pts):
        a, b = pts[i], pts[i + 1]
        if r.random() < .4:
            b = a
            i -= 1
        elif r.random() < .3:
            b = min(b, a + r.randrange(8))
            i -= 1 if b < pts[i + 1] else 0
        out.append([a, b])
        i += 2
        while i < len(pts) and pts[i] <= b:
            i += 1
    out = [x for x in out if not (x[0] < 0xE000 and x[1] >= 0xD800)]
    res = [[0x30, 0x39], [0x41, 0x5A], [0x5F, 0x5F], [0x61, 0x7A]]
    for x in out:
        if x[0] > res[-1][1]:
            res.append(x)
    return res


def seqlen(r):
    return r.randrange(1, 90) if r.random() < .15 else r.choice([1, 1, 2, 3, 18])


def limits(r, text, want=None):
    """As much as the table layout can hold, or a little more or less of it."""
    segs = [[0, 0x7F, "valid", []], [0x80, 0x33FF, "disallowed", []]]
    if text:  # a mapping whose text starts at or next to the values that mean valid and disallowed
        want, size, k = want or 0xFFFA + r.randrange(8), r.randrange(9, 40), r.randrange(1 << 20)
        left, c, tail = want - 1, 0x3400, r.choice([1, 1, 2, 3])
        while left > 0 or tail > 0:
            if left > 0:
                n = size if left > 2 * size else left
                left -= n
                n -= 1
            else:
                n = r.choice([1, 1, 2, 3])
                tail -= 1
            q = []
            k += 1
            for i in range(n):
                q.append(0x61 + (k // 26 ** i) % 26 if i < 4 else 0x61 + i % 26)
            segs.append([c, c, "mapped", q or [0x61]])
            c += 1
    else:  # nearly as many blocks of mixed contents as there are offsets
        c = 0x3400
        for k in range(r.randrange(500, 520)):
            at = k % 60
            st = [[c, c + at, "valid", []], [c + at + 1, c + at + 1, "ignored", []], [c + at + 2, c + 62, "disallowed", []], [c + 63, c + 63, "mapped", [0x61 + k // 60]]]
            segs += [x for x in st if x[0] <= x[1]]
            c += 64
    return segs


def corners(seed):
    """Mapping tables whose parts are unusual, each of them at once: what texts contain, which
    code points have lines of their own, how many blocks there are of each kind, where the high
    ignored range is, and how many identifier ranges of which length."""
    r = random.Random(seed)
    spec = {"kind": "unicode", "order": r.choice(["mi", "im"]), "gaps": r.random() < .3, "repack": r.random() < .5, "print": r.random() < .3}
    segs, c = [], 0x80
    special = sorted(LINES[:-2] + [r.randrange(0x80, 0x30000) for _ in range(6)])
    texts = [[x] for x in CORNERS] + [[x, y] for x, y in zip(CORNERS, r.sample(CORNERS, len(CORNERS)))]
    r.shuffle(texts)
    turn = r.randrange(4)
    for a in sorted({x for x in special if not 0xD800 <= x < 0xE000}):
        if a > c:
            segs.append([c, a - 1, r.choice(["disallowed", "valid"]), []])
        if a >= c:
            kind = ["deviation", "mapped", "ignored", "valid"][turn % 4] if r.random() < .7 else "deviation"
            segs.append([a, a, kind, r.choice(texts)])
            turn += 1
            c = a + 1
    segs.append([c, 0x3FFFF, "disallowed", []])
    c = 0x40000
    for q in texts:
        segs.append([c, c, "mapped", q])
        c += 1
    b = (c + 63) // 64 * 64
    segs.append([c, b - 1, "disallowed", []])
    c = b
    pairs = [(x, y) for x in range(63) for y in range(x + 1, 64)]
    r.shuffle(pairs)
    for x, y in pairs[:r.choice([3, 250, 260, 520, 1030, 2000])]:  # blocks that differ, of valid and disallowed
        segs += [s for s in ([c, c + x - 1, "disallowed", []], [c + x, c + y, "valid", []], [c + y + 1, c + 63, "disallowed", []]) if s[0] <= s[1]]
        c += 64
    segs.append([c, 0xDFFFF, "disallowed", []])
    a = r.choice([0xE0000, 0xE0000, 0xE0001, 0xE003F, 0xE0040, 0xE00FF, 0xFFFFF, 0x10FFFE])
    b = min(N - 1, a + r.choice([0, 1, 63, 64, 239, 256, 0x1F000]))
    if a > 0xE0000:
        segs.append([0xE0000, a - 1, "disallowed", []])
    segs.append([a, b, "ignored", []])
    if b < N - 1:
        segs.append([b + 1, N - 1, "disallowed", []])
    out = [[0, 0x7F, "valid", []]]
    for x in segs:
        if x[0] < 0xD800 and x[1] >= 0xE000:
            out += [[x[0], 0xD7FF] + x[2:], [0xD800, 0xDFFF, "disallowed", []], [0xE000] + x[1:]]
        else:
            out.append(x)
    spec["segs"] = out
    for key in ("start", "cont"):
        ids = [[0x30, 0x39], [0x41, 0x5A], [0x5F, 0x5F], [0x61, 0x7A]]
        c = 0x80
        sizes = r.choice([[2], [1], [1, 2], [2, 3, 255, 256, 257]])
        gaps = r.choice([[1], [2], [1, 2, 3, 64]])
        for _ in range(r.choice([200, 300, 600])):
            a = c + r.choice(gaps)
            b = a + r.choice(sizes) - 1
            if b >= 0xD800:
                break
            ids.append([a, b])
            c = b + 1
        for a in (0xFFFF, 0x10000, 0x10FFFE) if sizes != [2] else (0x1FFFE, 0x10FFFE):
            ids.append([a, a + (sizes == [2])])
        if ids[-2][1] + 1 >= ids[-1][0] or r.random() < .5:
            ids.pop()
        spec[key] = ids
    return spec


def gen_case(seed, limit=None):
    """limit: None, or where limits() puts a text (0: many blocks instead)."""
    r = random.Random(seed)
    k = r.random() if limit is None else 1
    if k < .3:
        return gen_pack(r)
    spec = {"kind": "unicode", "segs": [], "start": [], "cont": [], "order": r.choice(["mi", "im", "m", "i", "mim"]), "gaps": r.random() < .3, "repack": r.random() < .3, "print": r.random() < .3}
    segs, ids = ref()
    if limit is None and r.random() < .4:  # the real data, edited
        s = [list(x) for x in segs]
        for _ in range(r.choice([0, 1, 3, 30, 200])):
            j = r.randrange(len(s))
            if s[j][0] >= 0xE0000 or (s[j][0] < 0xE000 and s[j][1] >= 0xD800) or s[j][1] < 0x80:
                continue
            s[j] = s[j][:2] + [r.choice(KINDS), [scalar(r) for _ in range(seqlen(r))]]
        spec["segs"] = s
        spec["start"] = [list(x) for x in ids["start"]]
        spec["cont"] = [list(x) for x in ids["cont"]]
        for key in ("start", "cont"):
            for _ in range(r.choice([0, 2, 20])):
                j = r.randrange(6, len(spec[key]))
                if r.random() < .5:
                    del spec[key][j]
                else:
                    spec[key][j][1] = spec[key][j][0]
    else:
        top = r.choice([0x300, 0x3000, 0x12000, 0x33480, 0xDFFFF, 0xE0000]) if r.random() < .4 else edge(r, 0x100, r.choice([0x400, 0x3000, 0x30000, 0xE0000]))
        mode = r.random() if limit is None else 0
        if mode < .18:
            spec["segs"] = limits(r, r.random() < .5 if limit is None else limit > 0, limit)
            top = spec["segs"][-1][1] + 1
        n = 0 if mode < .18 else r.choice([1, 10, 100, 600]) if mode < .88 else 3000
        pts = {edge(r, 0, top) for _ in range(n)} | {0}
        if n and r.random() < .3:
            pts |= {c + d for c in r.sample(LINES, 8) for d in (0, 1) if c + d < top}
        pts = sorted(pts)
        seqs = [[scalar(r) for _ in range(seqlen(r))] for _ in range(r.choice([1, 5, 40]))]
        for a, b in zip(pts, pts[1:] + [top]) if n else ():
            kind = r.choice(KINDS if r.random() < .6 else ["valid", "disallowed", "mapped"])
            q = r.choice(seqs) if r.random() < .7 else [scalar(r)]
            if b > a:
                spec["segs"].append([a, b - 1, kind, q])
        if top < 0xE0000:
            spec["segs"].append([top, 0xDFFFF, "disallowed", []])
        hi = r.random()
        if hi < .55:
            a, b = 0xE0100, 0xE01EF
        elif hi < .9:
            a = edge(r, 0xE0000, 0xFF000)
            b = a + r.randrange(1, 500)
        else:
            a = b = None
        if a is None:
            spec["segs"].append([0xE0000, N - 1, "disallowed", []])
        else:
            if a > 0xE0000:
                spec["segs"].append([0xE0000, a - 1, "disallowed", []])
            if b > a + 2 and r.random() < .3:  # the ignored range, in two lines
                m = r.randrange(a, b)
                spec["segs"] += [[a, m, "ignored", []], [m + 1, b, "ignored", []]]
            else:
                spec["segs"].append([a, b, "ignored", []])
            spec["segs"].append([b + 1, N - 1, "disallowed", []])
        if r.random() < .12:  # something the layout may be unable to say
            j = r.choice([i for i, x in enumerate(spec["segs"]) if x[0] >= 0xE0000])
            a, b = spec["segs"][j][:2]
            if b - a > 10:
                m = r.randrange(a + 1, b - 1)
                spec["segs"][j:j + 1] = [[a, m - 1] + spec["segs"][j][2:], [m, m, r.choice(["valid", "ignored", "mapped", "disallowed"]), [scalar(r)]], [m + 1, b] + spec["segs"][j][2:]]
        # surrogates are always disallowed
        s = []
        for a, b, kind, q in spec["segs"]:
            if a < 0xE000 and b >= 0xD800:
                if a < 0xD800:
                    s.append([a, 0xD7FF, kind, q])
                if b > 0xDFFF:
                    s.append([0xE000, b, kind, q])
            else:
                s.append([a, b, kind, q])
        spec["segs"] = sorted(s + [[0xD800, 0xDFFF, "disallowed", []]])
        spec["start"], spec["cont"] = gen_ranges(r, r.choice([1, 20, 300])), gen_ranges(r, r.choice([1, 20, 300]))
    return spec


def gen_pack(r):
    """Sections as a user of pack_tables.py would replace them: name -> [seed, length]."""
    ch = {}
    rows = {"decomposition_block": 257, "ccc_block": 256, "composition_block": 257}
    for name in ["idna_stage1", "idna_stage2", "idna_bool_blocks", "idna_utf8_mappings", "decomposition_index", "ccc_index", "composition_index",
                 "decomposition_block", "ccc_block", "composition_block", "decomposition_data", "composition_data", "dir", "combining_flat"]:
        if r.random() < .35:
            n = r.choice([1, 2, 7, 64, 1001, 5000])
            if name.endswith("_index"):
                n = 4352
            if name in rows:
                n = rows[name] * r.choice([1, 2, 30, 67, 69, 90, 200])
            if name == "combining_flat":
                n *= 2
            ch[name] = [r.randrange(1 << 30), n, r.choice(["random", "small", "zero", "max"])]
    spec = {"kind": "pack", "change": ch, "start": [], "cont": [], "repack": r.random() < .5}
    if r.random() < .6:
        spec["start"] = gen_ranges(r, r.choice([1, 20, 300]))
    if r.random() < .6:
        spec["cont"] = gen_ranges(r, r.choice([1, 20, 300]))
    return spec


# --- data files and expectations -------------------------------------------------
def idna_text(spec):
    r = random.Random(len(spec["segs"]))
    o = ["# IdnaMappingTable.txt", "# Date: 2025-01-01", "# Version: 17.0.0", "#", "# For documentation, see https://www.unicode.org/reports/tr46/", ""]
    for a, b, kind, q in spec["segs"]:
        if spec["gaps"] and kind == "disallowed" and a >= 0x80:
            continue
        cps = "%04X" % a if a == b else "%04X..%04X" % (a, b)
        line = "%-14s; %s" % (cps, kind)
        if kind.endswith("mapped") or kind == "deviation":
            line = "%-37s; %s" % (line, " ".join("%04X" % c for c in q))
        elif kind == "valid" and (a * 7 + b) % 5 == 0:
            line = "%-37s;      ; %s" % (line, r.choice(["NV8", "XV8"]))
        o.append("%-60s # 1.1  SOME NAME; WITH..PUNCTUATION # AND MORE" % line)
    return "\n".join(o) + "\n\n# Total code points: 1114112\n# EOF\n"


def derived_text(spec):
    o = ["# DerivedCoreProperties-17.0.0.txt", "# Date: 2025-01-01", "", "# Derived Property: Alphabetic", "0041..005A    ; Alphabetic # L&  [26] A..Z", "# Total code points: 26", ""]
    for title, key in (("ID_Start", "start"), ("ID_Continue", "cont"), ("XID_Start", "start"), ("XID_Continue", "cont")):
        o += ["# ================================================", "", "# Derived Property: " + title, "#  Characters that can start an identifier.", ""]
        for i, (a, b) in enumerate(spec[key] if title[0] == "I" else [[0x41, 0x5A], [0x10000, 0x1FFFF]]):
            o.append("%-14s; %s # L&  [%d] NAME..NAME" % ("%04X" % a if a == b else "%04X..%04X" % (a, b), title, b - a + 1))
            if i % 50 == 49:
                o += ["", "# comment"]
        o += ["", "# Total code points: 1", ""]
    return "\n".join(o)


def expected_map(spec):
    st = bytearray(b"\xff\xff" * N)
    pool = []
    for a, b, kind, q in sorted(spec["segs"]):
        kind = kind.replace("disallowed_STD3_", "")
        if kind in ("valid", "deviation"):
            st[2 * a:2 * b + 2] = struct.pack("<H", SELF) * (b - a + 1)
        elif kind == "ignored" or kind == "mapped":
            q = [] if kind == "ignored" else q
            st[2 * a:2 * b + 2] = struct.pack("<H", len(q)) * (b - a + 1)
            w = struct.pack("<%dI" % len(q), *q)
            if len(q) == 1 and a <= q[0] <= b:
                st[2 * q[0]:2 * q[0] + 2] = struct.pack("<H", SELF)
                pool.append(w * (b - a))
            else:
                pool.append(w * (b - a + 1))
    return bytes(st), b"".join(pool)


def member(ranges):
    m = bytearray(N)
    for a, b in ranges:
        m[a:b + 1] = b"\x01" * (b - a + 1)
    m[0xD800:0xE000] = bytes(0x800)
    return m


def expected_names(start, cont):
    s, c = member(start), member(cont)
    for x in list(range(0x41, 0x5B)) + list(range(0x61, 0x7B)) + [0x24]:
        s[x] = c[x] = 1
    s[0x5F] = 1
    for x in range(0x30, 0x3A):
        c[x] = 1
    return bytes(48 + a + 2 * b for a, b in zip(s, c))


def may_refuse(spec):
    """Data beyond what the table layout can express may be refused, but not garbled."""
    st, _ = expected_map(spec)
    mixed = set()
    ok = {struct.pack("<H", FAIL), struct.pack("<H", SELF)}
    for i in range(0, 0xE0000 * 2, 128):
        b = st[i:i + 128]
        if any(b[k:k + 2] not in ok for k in range(0, 128, 2)):
            mixed.add(i)
    high = [x for x in spec["segs"] if x[1] >= 0xE0000 and x[2] != "disallowed"]
    regular = all(x[2] == "ignored" for x in high) and all(x[1] + 1 == y[0] for x, y in zip(high, high[1:])) and all(x[0] >= 0xE0000 for x in high)
    text = sum(4 * len(x[3]) + 1 for x in spec["segs"] if x[2].endswith("mapped"))
    return len(mixed) > 400 or not regular or text > 50000


# --- running ---------------------------------------------------------------------
STUB = "def get(*a, **k):\n    raise RuntimeError('the network is not available')\n"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, **kw)


def make_copy(repo, d):
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    for p in ("src", "include", "scripts"):
        shutil.copytree(repo / p, d / p, ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    (d / "stub").mkdir()
    (d / "stub" / "requests.py").write_text(STUB)
    (d / "data").mkdir()
    return d


def digest(d):
    h = hashlib.sha256()
    for f in sorted((d / "src").iterdir()):
        if f.is_file():
            h.update(f.name.encode() + f.read_bytes())
    return h.hexdigest()


def build_and_dump(d, what="a"):
    (d / "dump.cpp").write_text(DUMPER)
    if not (d / "dump.o").exists():
        r = sh(["g++", "-std=c++20", "-O1", "-w", "-I" + str(d / "include"), "-c", str(d / "dump.cpp"), "-o", str(d / "dump.o")])
        if r.returncode:
            raise RuntimeError(r.stdout[-2000:])
    r = sh(["g++", "-std=c++20", "-O1", "-w", "-I" + str(d / "include"), str(d / "src" / "idna.cpp"), str(d / "dump.o"), "-o", str(d / "dump")])
    if r.returncode:
        raise Bad("the library does not build with the tables written: " + r.stdout[:900])
    r = sh([str(d / "dump"), str(d / "dump.bin"), what])
    if r.returncode:
        raise Bad("the library built with the tables written fails with %d: %s" % (r.returncode, r.stdout[-300:]))
    b = (d / "dump.bin").read_bytes()
    n = struct.unpack("<3I", b[:12])
    h = struct.unpack("<Q", b[12:20])[0]
    o = 20
    parts = []
    for k in n:
        parts.append(b[o:o + k])
        o += k
    return parts + [h]


def env_for(d):
    return dict(os.environ, PYTHONPATH=str(d / "stub"), PYTHONDONTWRITEBYTECODE="1")


def first_diff(got, want, step):
    for i in range(0, max(len(got), len(want)), step):
        if got[i:i + step] != want[i:i + step]:
            return i // step
    return -1


def check_names(got, start, cont):
    want = expected_names(start, cont)
    if got != want:
        c = first_diff(got, want, 1)
        raise Bad("valid_name_code_point(U+%04X) is %s in the regenerated library, the data say %s (1: start, 2: continue)" % (c, got[c:c + 1], want[c:c + 1]))


def check_map(out, pool, spec):
    want, wpool = expected_map(spec)
    if out != want:
        c = first_diff(out, want, 2)
        f = lambda b: {FAIL: "disallowed", SELF: "itself", 0: "ignored"}.get(v := struct.unpack("<H", b[2 * c:2 * c + 2] or b"\0\0")[0], "%d code points" % v)
        raise Bad("map(U+%04X) gives %s in the regenerated library, the data say %s" % (c, f(out), f(want)))
    if pool != wpool:
        raise Bad("the mapping of some code point differs from the data (%d-th mapped value)" % first_diff(pool, wpool, 4))


def repack(d):
    blob = d / "src" / "table_blob.inc"
    before = blob.read_bytes()
    r = sh([sys.executable, str(d / "scripts" / "pack_tables.py")], cwd=d / "data", env=env_for(d))
    if r.returncode:
        raise Bad("pack_tables.py fails on what it wrote: " + r.stdout[-500:])
    if blob.read_bytes() != before:
        raise Bad("packing again changes the tables")


def run_unicode(spec, d, base):
    (d / "data" / "IdnaMappingTable.txt").write_text(idna_text(spec))
    (d / "data" / "DerivedCoreProperties.txt").write_text(derived_text(spec))
    labels = []
    refused = False
    for step in spec["order"]:
        s = {"m": "idna_table.py", "i": "derived_table.py"}[step]
        before = digest(d)
        r = sh([sys.executable, str(d / "scripts" / s), "--write"], cwd=d / "data", env=env_for(d))
        if r.returncode:
            if step == "m" and may_refuse(spec):
                if digest(d) != before:
                    raise Bad("%s refused the data but changed the tables" % s)
                refused = True
                labels.append("refused")
                continue
            raise Bad("%s --write fails with %d: %s" % (s, r.returncode, r.stdout[-600:]))
    if spec.get("print"):
        labels += printed(spec, d, refused)
    if spec["repack"]:
        repack(d)
    out, pool, names, h = build_and_dump(d)
    if "m" in spec["order"] and not refused:
        check_map(out, pool, spec)
        labels.append("mapping regenerated")
    elif (out, pool) != base[0:2]:
        raise Bad("regenerating the identifier tables changed mapping")
    if "i" in spec["order"]:
        check_names(names, spec["start"], spec["cont"])
        labels.append("identifiers regenerated")
    elif names != base[2]:
        raise Bad("regenerating the mapping tables changed valid_name_code_point")
    if h != base[3]:
        raise Bad("normalization or validity changed although their tables were not regenerated")
    return labels


def arrays(text):
    got = {}
    for m in re.finditer(r"\b(\w+)((?:\[\d*\])+)\s*=\s*\{(.*?)\};", text, re.S):
        vals = [int(x, 0) for x in re.findall(r"0[xX][0-9a-fA-F]+|\d+", re.sub(r"(?<=[0-9a-fA-F])(?:ULL|u|U)\b", "", m.group(3)))]
        dims = [int(x) for x in re.findall(r"\[(\d+)\]", m.group(2))]
        k = 1
        for x in dims:
            k *= x
        if dims and k != len(vals):
            raise Bad("the printed array %s is declared with %d elements and has %d" % (m.group(1), k, len(vals)))
        got[m.group(1)] = vals
    return got


def printed(spec, d, refused):
    """Without --write the scripts print the arrays that --write packs, and write nothing."""
    before = digest(d)
    env = dict(env_for(d), PYTHONPATH="%s:%s" % (d / "stub", d / "scripts"))
    r = sh([sys.executable, "-c", "import json, pack_tables as p; s = p.load_blob_sections(); s.pop('_meta', None); print(json.dumps(s))"], env=env)
    if r.returncode:
        raise Bad("the tables written cannot be loaded: " + r.stdout[-500:])
    sections = json.loads(r.stdout)
    labels = []
    for step, names in (("m", {"idna_stage1": "idna_stage1", "idna_stage2": "idna_stage2", "idna_bool_blocks": "idna_bool_blocks", "idna_utf8_mappings": "idna_utf8_mappings"}),
                        ("i", {"id_continue": "id_continue_flat", "id_start": "id_start_flat"})):
        if step not in spec["order"] or (step == "m" and refused):
            continue
        s = {"m": "idna_table.py", "i": "derived_table.py"}[step]
        r = sh([sys.executable, str(d / "scripts" / s)], cwd=d / "data", env=env_for(d))
        if r.returncode:
            raise Bad("%s fails with %d: %s" % (s, r.returncode, r.stdout[-600:]))
        got = arrays(r.stdout)
        for a, b in names.items():
            if got.get(a) != sections[b]:
                raise Bad("%s prints an array %s that differs from what --write packs" % (s, a))
        labels.append("printed arrays compared")
    if digest(d) != before:
        raise Bad("printing the tables changed the sources")
    return labels


PACK = r'''
import json, random, sys
sys.path.insert(0, sys.argv[1])
import pack_tables as p
spec = json.load(open(sys.argv[2]))
s = p.load_blob_sections()
old = {k: list(v) for k, v in s.items() if k != "_meta"}
want = dict(old)
bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}
kind = dict(p.SECTION_ORDER)
for name, (seed, n, how) in spec["change"].items():
    for k in (["dir_start", "dir_final", "dir_value"] if name == "dir" else [name]):
        r = random.Random(str(seed) + k)
        top = (1 << bits[kind[k]]) - 1
        want[k] = [{"random": r.randint(0, top), "small": r.randint(0, 3), "zero": 0, "max": top}[how] for _ in range(n)]
for key, name in (("start", "id_start_flat"), ("cont", "id_continue_flat")):
    if spec[key]:
        want[name] = [x for ab in spec[key] for x in ab]
for k, v in want.items():
    s[k] = list(v)
p.write_blob(s)
t = p.load_blob_sections()
for k, v in want.items():
    if list(t[k]) != v:
        sys.exit("section %s is not read back as it was written" % k)
for k in t:
    if k != "_meta" and k not in want:
        sys.exit("a section %s has appeared" % k)
'''


def run_pack(spec, d, base):
    (d / "spec.json").write_text(json.dumps(spec))
    (d / "pack.py").write_text(PACK)
    r = sh([sys.executable, str(d / "pack.py"), str(d / "scripts"), str(d / "spec.json")], env=env_for(d))
    if r.returncode:
        raise Bad("packing the sections: " + r.stdout[-700:])
    if spec["repack"]:
        repack(d)
    touched = set(spec["change"])
    names_only = bool(touched)  # random contents of the others are no tables to use
    out, pool, names, h = build_and_dump(d, "n" if names_only else "a")
    s, c = spec["start"], spec["cont"]
    _, ids = ref()
    if s and c:
        check_names(names, s, c)
    else:
        sm = bytes(x - 48 & 1 for x in (expected_names(s, []) if s else base[2][:N]))
        cm = bytes((x - 48) >> 1 for x in (expected_names([], c) if c else base[2][:N]))
        want = bytes(48 + a + 2 * b for a, b in zip(sm, cm))
        if names != want:
            raise Bad("valid_name_code_point(U+%04X) is wrong after packing" % first_diff(names, want, 1))
    if not names_only and ((out, pool) != base[0:2] or h != base[3]):
        raise Bad("repacking changed the other tables")
    return ["sections packed", "no other section changed" if not names_only else "sections replaced"]


_STATE = {}


def init_worker(repo, work, base):
    _STATE.update(repo=Path(repo), work=Path(work), base=base)


def run_case(spec):
    """Returns (message or None, labels)."""
    d = _STATE["work"] / ("w%d" % os.getpid())
    keep = d.with_suffix(".o")
    make_copy(_STATE["repo"], d)
    if keep.exists():
        shutil.copy(keep, d / "dump.o")
    try:
        labels = (run_unicode if spec["kind"] == "unicode" else run_pack)(spec, d, _STATE["base"])
        return None, labels
    except Bad as e:
        return str(e), []
    except subprocess.TimeoutExpired as e:
        return "did not finish: %s" % e, []
    finally:
        if (d / "dump.o").exists() and not keep.exists():
            shutil.copy(d / "dump.o", keep)
        shutil.rmtree(d, ignore_errors=True)


def one(seed):
    spec = gen_case(seed)
    m, labels = run_case(spec)
    return seed, m, labels


def shrink(spec, ex, budget=90):
    """Delta debugging, eight candidates at a time."""
    t0 = time.time()
    best, msg = spec, run_case(spec)[0]

    def first_failing(cands):
        nonlocal best, msg
        for k in range(0, len(cands), 8):
            if time.time() - t0 > budget:
                return None
            part = cands[k:k + 8]
            for i, (m, _) in enumerate(ex.map(run_case, [c for _, c in part])):
                if m:
                    best, msg = part[i][1], m
                    return part[i][0]
        return None

    for key in ("order", "gaps", "repack", "print"):
        if key in best:
            vals = [v for v in {"order": ["m", "i", "mi"]}.get(key, [False]) if v != best[key]]
            first_failing([(v, dict(best, **{key: v})) for v in vals])
    for key in ("segs", "start", "cont", "change"):
        lst = list(best.get(key) or [])
        n = len(lst)
        while n >= 1 and time.time() - t0 < budget:
            cands = []
            for i in range(0, len(lst), n):
                rest = lst[:i] + lst[i + n:]
                if rest or key != "segs":
                    cands.append((rest, dict(best, **{key: {k: best["change"][k] for k in rest} if key == "change" else rest})))
            hit = first_failing(cands)
            if hit is None:
                n //= 2
            else:
                lst = hit
                n = min(n, len(lst))
    return best, msg


def baseline(repo, work):
    d = make_copy(repo, work / "base")
    try:
        p = build_and_dump(d)
        return p[0], p[1], p[2], p[3]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(path, repo, work):
    work.mkdir(parents=True, exist_ok=True)
    init_worker(repo, work, baseline(repo, work))
    spec = json.loads(Path(path).read_text())
    m, _ = run_case(spec)
    print("%s tables: %s" % ("FAILS" if m else "passes", m or "the regenerated library follows the data"))
    return 1 if m else 0


def run(repo, work, seed, seconds, replays):
    t0 = time.time()
    work.mkdir(parents=True, exist_ok=True)
    base = baseline(repo, work)
    init_worker(repo, work, base)
    r = {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "cases": {"tables": 0}, "labels": {}, "samples": [], "violations": [], "build": "python"}
    seeds = iter(range(seed * 1000003, seed * 1000003 + 10 ** 6))
    seen = set()
    bad = None
    # The real data and the limits of the layout first, then generated data until the time is up.
    segs, ids = ref()
    real = {"kind": "unicode", "segs": segs, "start": ids["start"], "cont": ids["cont"], "order": "mi", "gaps": False, "repack": True, "print": True}
    with cf.ProcessPoolExecutor(8, initializer=init_worker, initargs=(str(repo), str(work), base)) as ex:
        todo = {ex.submit(run_case, real): real}
        for limit in [*range(0xFFFA, 0x10002)] * 4 + [0] * 4:  # the limits of the layout, at each distance
            s = dict(gen_case(next(seeds), limit), order="m")
            todo[ex.submit(run_case, s)] = s
        for _ in range(24):
            s = corners(next(seeds))
            todo[ex.submit(run_case, s)] = s
        while todo:
            done, _ = cf.wait(todo, return_when=cf.FIRST_COMPLETED)
            for f in done:
                spec = todo.pop(f)
                m, labels = f.result()
                r["evaluations"] += 1
                r["nontrivial"] += 1
                h = hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).digest()
                if h not in seen:
                    seen.add(h)
                    r["distinct_nontrivial"] += 1
                for l in labels:
                    r["labels"][l] = r["labels"].get(l, 0) + 1
                if len(r["samples"]) < 8:
                    r["samples"].append(describe(spec))
                if m and not bad:
                    bad = spec
                if not bad and time.time() - t0 < seconds:
                    k = next(seeds)
                    s = corners(k) if k % 8 == 0 else gen_case(k)
                    todo[ex.submit(run_case, s)] = s
        if bad:
            small, msg = shrink(bad, ex)
    r["cases"]["tables"] = r["evaluations"]
    if bad:
        f = replays / ("C25-%s.json" % hashlib.sha256(json.dumps(small).encode()).hexdigest()[:12])
        f.write_text(json.dumps(small) + "\n")
        r["violations"].append({"sub": "tables", "message": msg + "  [case: " + describe(small) + "]", "replay": str(f)})
    r["wall_s"] = time.time() - t0
    return r


def describe(spec):
    if spec["kind"] == "pack":
        return "pack_tables.py with replaced sections %s, %d start and %d continue ranges" % (json.dumps(spec["change"])[:200], len(spec["start"]), len(spec["cont"]))
    k = {}
    for x in spec["segs"]:
        k[x[2]] = k.get(x[2], 0) + 1
    return "scripts %s on a mapping table of %d lines (%s; first %s) and %d+%d identifier ranges" % (spec["order"], len(spec["segs"]), ", ".join("%d %s" % (n, s) for s, n in sorted(k.items())), json.dumps(spec["segs"][:2])[:120], len(spec["start"]), len(spec["cont"]))
