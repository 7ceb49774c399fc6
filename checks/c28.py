"""C28: the public headers can be included alone, in any order and repeatedly, in several
translation units, everything they declare can be used from a program linked with the library,
and the program keeps all other names for itself.

A case is a program: 1-3 translation units, each including a random sequence of public headers
(with nothing before them) and using random functions that these headers declare, each with
arguments whose results are known, and defining names of its own (words that occur in the library
or in the standard library) after the headers; built with random compilers and options against the
library as an object file or a shared library, and run."""
import concurrent.futures as cf
import hashlib, json, random, re, shutil, subprocess, time
from pathlib import Path

# (header, statements; R(...) records a result, expected result). {k} makes names unique.
S = 'std::string s{k}; '
W = 'std::u32string w{k}; '
USES = [
    ("identifier", "R(ada::idna::valid_name_code_point(U'a', true));", "1"),
    ("identifier", "R(ada::idna::valid_name_code_point(U'0', true));", "0"),
    ("identifier", "R(ada::idna::valid_name_code_point(0x661, false));", "1"),
    ("identifier", "bool (*p{k})(char32_t, bool) = &ada::idna::valid_name_code_point; R(p{k}(0x5d0, true));", "1"),
    ("limits", "R(ada::idna::max_domain_input_bytes);", "16384"),
    ("limits", "static const char b{k}[ada::idna::max_domain_input_bytes] = {}; R(sizeof b{k});", "16384"),
    ("limits", "const auto* p{k} = &ada::idna::max_domain_input_bytes; R(*p{k});", "16384"),
    ("mapping", 'char c{k}[] = "AbcXYZ[@-QRSTU"; ada::idna::ascii_map(c{k}, 14); R(c{k});', "abcxyz[@-qrstu"),
    ("mapping", 'R(hex(ada::idna::map(U"A\\u00c9")));', "61 e9 "),
    ("mapping", W + 'R(ada::idna::map(U"\\u00df\\u3002", w{k})); R(hex(w{k}));', "1|df 2e "),
    ("mapping", W + 'R(ada::idna::map(U"\\ufffd", w{k}));', "0"),
    ("normalization", 'std::u32string w{k} = U"e\\u0301"; R(ada::idna::normalize(w{k})); R(hex(w{k}));', "1|e9 "),
    ("normalization", 'std::u32string w{k} = U"e"; R(ada::idna::normalize(w{k})); R(ada::idna::is_already_nfc(U"e\\u0301"));', "1|0"),
    ("normalization", "bool (*p{k})(std::u32string&) = &ada::idna::normalize; std::u32string w{k}; R(p{k}(w{k}));", "1"),
    ("punycode", W + 'R(ada::idna::punycode_to_utf32("9ca", w{k})); R(hex(w{k}));', "1|e9 "),
    ("punycode", 'R(ada::idna::verify_punycode("9ca")); R(ada::idna::verify_punycode("9c"));', "1|0"),
    ("punycode", S + 'R(ada::idna::utf32_to_punycode(U"a\\u00e9", s{k})); R(s{k});', "1|a-bga"),
    ("to_ascii", 'R(ada::idna::to_ascii("\\xc3\\xa9.COM"));', "xn--9ca.com"),
    ("to_ascii", S + 'R(ada::idna::to_ascii("\\xc3\\xa9", s{k})); R(s{k});', "1|xn--9ca"),
    ("to_ascii", S + 'R(ada::idna::to_ascii("\\xff", s{k}));', "0"),
    ("to_ascii", 'R(ada::idna::contains_forbidden_domain_code_point("a b")); R(ada::idna::contains_forbidden_domain_code_point("a_b"));', "1|0"),
    ("to_ascii", 'R(ada::idna::is_ascii(std::string_view(argument[0], 3))); R(ada::idna::is_ascii(std::string_view("\\xc3\\xa9")));', "1|0"),
    ("to_ascii", 'R(ada::idna::is_ascii(U"abc")); R(ada::idna::is_ascii(U"\\u00e9"));', "1|0"),
    ("to_ascii", 'static_assert(ada::idna::is_ascii(std::string_view("abc")) && !ada::idna::is_ascii(U"\\u00e9")); R(1);', "1"),
    ("to_ascii", "bool (*p{k})(std::string_view, std::string&) = &ada::idna::to_ascii; " + S + 'R(p{k}("X", s{k})); R(s{k});', "1|x"),
    ("to_ascii", "R(ada::idna::max_domain_input_bytes);", "16384"),
    ("to_unicode", 'R(ada::idna::to_unicode("xn--9ca.com") == "\\xc3\\xa9.com");', "1"),
    ("to_unicode", S + 'R(ada::idna::to_unicode("xn--a", s{k})); R(s{k});', "1|xn--a"),
    ("to_unicode", "std::string (*p{k})(std::string_view) = &ada::idna::to_unicode; R(p{k}(\"abc\"));", "abc"),
    ("unicode_transcoding", 'char32_t b{k}[4]; R(ada::idna::utf8_to_utf32("a\\xc3\\xa9", 3, b{k})); R(b{k}[1] == 0xe9);', "2|1"),
    ("unicode_transcoding", 'R(ada::idna::utf8_length_from_utf32(U"a\\u00e9", 2)); R(ada::idna::utf32_length_from_utf8("a\\xc3\\xa9", 3));', "3|2"),
    ("unicode_transcoding", 'char b{k}[9] = {}; R(ada::idna::utf32_to_utf8(U"a\\u00e9", 2, b{k})); R(b{k}[2] == char(0xa9));', "3|1"),
    ("validity", 'R(ada::idna::is_label_valid(U"\\u00e9")); R(ada::idna::is_label_valid(U"\\u0301"));', "1|0"),
    ("validity", 'R(ada::idna::is_label_valid(U"1a")); R(ada::idna::is_label_valid(U"1a", true));', "1|0"),
    ("validity", 'R(ada::idna::is_rtl_label(U"\\u05d0")); R(ada::idna::is_rtl_label(U"a"));', "1|0"),
]
HEADERS = sorted({u[0] for u in USES})
ALSO = {"to_ascii": ["limits"], "to_unicode": ["limits"]}  # documented in those headers by their own #include
TAIL = r'''
#include <cstdio>
#include <sstream>
#include <string>
namespace {
std::string results;
template <class T> void R(const T& v) { std::ostringstream o; o << v; if (!results.empty() && results.back() != '\n') results += '|'; results += o.str(); }
[[maybe_unused]] std::string hex(const std::u32string& w) { std::ostringstream o; for (char32_t c : w) o << std::hex << (unsigned long)c << ' '; return o.str(); }
[[maybe_unused]] const char* argument[] = {"abcdef"};
}
'''
LIBS = [(cc, opt, kind) for cc in ("g++", "clang++") for opt in ("-O0", "-O2") for kind in ("object", "shared")]
FLAGS = ["-fno-rtti", "-funsigned-char", "-pedantic-errors", "-fno-exceptions", "-fvisibility=hidden", "-D_GLIBCXX_DEBUG", "-ffunction-sections", "-fno-inline"]

# Words a program may well use for its own globals, besides those that occur in the library.
WORDS = "string string_view u32string u32string_view pair size data find count move begin end copy array vector span optional map list set function ref min max swap sort fill next prev distance advance ranges views uint8 uint32 byte u8 u32 check valid label domain unicode ascii utf8 utf32 ON OFF NONE EN AN L R AL B S N ERROR DEBUG TRUE FALSE OK IN OUT small large near far".split()


def own_names(repo, work):
    """Names that a program can define for itself next to the standard headers; [as a variable, as a function]."""
    words = set(WORDS)
    for f in sorted(list((repo / "include").rglob("*.h")) + list((repo / "src").glob("*.?pp"))):
        words |= set(re.findall(r"[A-Za-z_]\w*", re.sub(r"//.*|/\*.*?\*/|\"[^\"\n]*\"", " ", f.read_text())))
    words = sorted(w for w in words if w not in ("ada", "main") and not w.startswith(("_", "ADA_")) and "__" not in w)
    std = "".join("#include <%s>\n" % h for h in ("algorithm", "array", "atomic", "bit", "cctype", "chrono", "climits", "cmath", "compare", "concepts", "ctime", "cwchar", "cwctype", "functional", "iostream", "iterator", "limits", "map", "mutex", "numeric", "set", "stdexcept", "system_error", "thread", "tuple", "type_traits", "unordered_map", "variant", "cstddef", "cstdint", "cstring", "cstdlib", "memory", "new", "optional", "ranges", "span", "string", "string_view", "utility", "vector")) + TAIL
    kinds = []
    for kind in (0, 1):
        ok = words
        for cc, v in (("g++", "c++20"), ("clang++", "c++23")):
            for _ in range(20 if ok else 0):
                f = work / ("names%d.cpp" % kind)
                head = std.count("\n")
                f.write_text(std + "".join(own(w, kind) for w in ok))
                rc, msg = sh([cc, "-std=" + v, "-w", "-fsyntax-only", "-ferror-limit=0" if cc == "clang++" else "-fmax-errors=0", f])
                if not rc:
                    break
                bad = {int(n) - head - 1 for n in re.findall(r"names%d\.cpp:(\d+):\d+: (?:fatal )?error" % kind, msg)}
                ok = [w for i, w in enumerate(ok) if i not in bad]
        kinds.append(ok)
    return kinds


def own(name, kind):
    """One line that defines and uses a name."""
    if kind == 0:
        return "static int %s = 3; static int own_%s() { return %s * 1; }\n" % (name, name, name)
    return "static int %s(int a, int b) { return a + b; } static int own_%s() { return %s(1, 2); }\n" % (name, name, name)


def leaked(lib):
    """Symbols of the library outside ada::idna and std."""
    rc, out = sh(["nm", "--defined-only", "-g", lib])
    rc2, dem = sh(["nm", "--defined-only", "-g", "-C", lib])
    res = []
    for a, b in zip(out.splitlines(), dem.splitlines()):
        if len(a.split()) == 3 and not re.search(r"ada::idna|std::|__gnu_cxx|operator (new|delete)", b) and not re.match(r"_Z(N[KVrRO]*|T[VTIS]|GV)?(S[tabsiod]|3ada4idna)|DW\.ref\.|__|_init$|_fini$", a.split()[2]):
            res.append(a.split()[2])
    return sorted(set(res))


def sh(cmd, **kw):
    p = subprocess.run([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return p.returncode, p.stdout


def build_lib(repo, work, cc, opt, kind):
    out = work / ("lib-%s%s-%s%s" % (cc[0], opt, kind, ".so" if kind == "shared" else ".o"))
    cmd = [cc, "-std=c++20", opt, "-w", "-fPIC", "-I%s" % (repo / "include"), repo / "src" / "idna.cpp", "-o", out]
    return out, sh(cmd + (["-shared", "-Wl,--no-undefined"] if kind == "shared" else ["-c"]))


def gen(seed):
    r = random.Random(seed)
    tus = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        n = r.choice([1, 1, 1, 2, 2, 3, 5, 9])
        hs = [r.choice(HEADERS + ["idna"]) if r.random() < .9 else "idna" for _ in range(n)]
        have = set(HEADERS) if "idna" in hs else set(hs)
        ok = [i for i, u in enumerate(USES) if u[0] in have]
        uses = [r.choice(ok) for _ in range(r.choice([0, 1, 2, 4, 8]))]
        tus.append({"cc": r.choice(["g++", "clang++"]), "opt": r.choice(["-O0", "-O1", "-O2"]), "std": r.choice(["c++20", "c++20", "c++23"]), "headers": hs, "uses": uses,
                    "flags": r.sample(FLAGS, r.choice([0, 0, 1, 2])), "angle": r.random() < .3, "late": r.random() < .2})
        names = {}
        if r.random() < .5:
            for _ in range(r.choice([3, 30, 100])):
                kind = r.randrange(2)
                names[r.choice(OWN[kind])] = kind
        tus[-1]["own"] = sorted(names.items())
    return {"tus": tus, "lib": r.randrange(len(LIBS))}


def source(i, tu):
    name = lambda h: "idna.h" if h == "idna" else "ada/idna/%s.h" % h
    inc = "".join(("#include <%s>\n" if tu["angle"] else '#include "%s"\n') % name(h) for h in tu["headers"])
    body = ""
    want = []
    for k, u in enumerate(tu["uses"]):
        body += "  { " + USES[u][1].replace("{k}", str(k)) + ' results += "\\n"; }\n'
        want.append(USES[u][2])
    again = inc if tu["late"] else ""
    src = inc + TAIL + again + "".join(own(w, k) for w, k in tu.get("own", [])) + "std::string unit%d() {\n%s  return results;\n}\n" % (i, body)
    if i == 0:
        n = "@N@"
        src += "@MAIN@"
    return src, want


def run_case(spec, root, tag):
    d = root / ("case-" + tag)
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    try:
        objs, want, last = [], [], "g++"
        for i, tu in enumerate(spec["tus"]):
            src, w = source(i, tu)
            want += w
            n = len(spec["tus"])
            src = src.replace("@MAIN@", "".join("std::string unit%d();\n" % j for j in range(1, n)) + "int main() { std::string all" + "".join(";\n  all += unit%d()" % j for j in range(n)) + ";\n  std::fputs(all.c_str(), stdout); return 0; }\n")
            f = d / ("unit%d.cpp" % i)
            f.write_text(src)
            o = d / ("unit%d.o" % i)
            rc, msg = sh([tu["cc"], "-std=" + tu["std"], tu["opt"], "-fPIE", "-w", "-I%s" % (REPO / "include")] + tu["flags"] + ["-c", f, "-o", o])
            if rc:
                return "a unit that includes %s%s does not compile (%s): %s" % (", ".join(tu["headers"]), " and has its own " + ", ".join(w for w, _ in tu["own"][:4]) if tu.get("own") else "", " ".join([tu["cc"], tu["std"], tu["opt"]] + tu["flags"]), short(msg))
            objs.append(o)
            last = tu["cc"]
        for i, sym in enumerate(spec.get("symbols", [])):
            f = d / ("own%d.cpp" % i)
            f.write_text('asm(".text\\n.globl \\"%s\\"\\n\\"%s\\":\\n ud2\\n");\n' % (sym, sym))
            rc, msg = sh(["g++", "-c", f, "-o", f.with_suffix(".o")])
            if rc == 0:
                objs.append(f.with_suffix(".o"))
        cc, opt, kind = LIBS[spec["lib"]]
        lib = LIBPATH[spec["lib"]]
        rc, msg = sh([last] + objs + [lib, "-o", d / "prog"] + (["-Wl,-rpath," + str(lib.parent)] if kind == "shared" else []))
        if rc:
            return "the program %sdoes not link with the library (%s %s, %s): %s" % ("that has its own %s " % ", ".join(spec["symbols"]) if spec.get("symbols") else "", cc, opt, kind, short(msg))
        try:
            rc, out = sh([d / "prog"], timeout=60)
        except subprocess.TimeoutExpired:
            return "the program does not end"
        got = out.split("\n")[:-1]
        got = [g.lstrip("|") for g in got]
        if rc:
            return "the program ended with status %d: %s" % (rc, short(out))
        for i, w in enumerate(want):
            if i >= len(got) or got[i] != w:
                k = [u for tu in spec["tus"] for u in tu["uses"]][i]
                return "%s gave %s, expected %s" % (USES[k][1], got[i] if i < len(got) else "nothing", w)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def short(msg):
    ls = [l for l in msg.splitlines() if "error" in l or "undefined" in l or "multiple" in l] or msg.splitlines()
    return " / ".join(l.strip()[-220:] for l in ls[:3])


def init(repo, work):
    global REPO, LIBPATH, OWN
    REPO = repo
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda l: build_lib(repo, work, *l), LIBS))
    LIBPATH = [r[0] for r in rs]
    bad = [r[1][1] for r in rs if r[1][0]]
    if bad:
        raise RuntimeError("the library does not build: " + bad[0][-3000:])
    OWN = own_names(repo, work)


def smaller(spec):
    tus = spec["tus"]
    for i in range(len(tus)):
        if len(tus) > 1:
            yield dict(spec, tus=tus[:i] + tus[i + 1:])
    for i, tu in enumerate(tus):
        def w(**k):
            return dict(spec, tus=tus[:i] + [dict(tu, **k)] + tus[i + 1:])
        for j in range(len(tu["headers"])):
            hs = tu["headers"][:j] + tu["headers"][j + 1:]
            have = set(HEADERS) if "idna" in hs else set(hs)
            if hs:
                yield w(headers=hs, uses=[u for u in tu["uses"] if USES[u][0] in have])
        for j in range(len(tu["uses"])):
            yield w(uses=tu["uses"][:j] + tu["uses"][j + 1:])
        for j in range(len(tu["flags"])):
            yield w(flags=tu["flags"][:j] + tu["flags"][j + 1:])
        if tu["late"]:
            yield w(late=False)
        o = tu.get("own", [])
        for part in (o[:len(o) // 2], o[len(o) // 2:]) if len(o) > 8 else [o[:j] + o[j + 1:] for j in range(len(o))]:
            yield w(own=part)


def describe(spec):
    return "; ".join("unit of %s using %s (%s %s %s)" % ("+".join(t["headers"]), [USES[u][1][:50] for u in t["uses"]][:3], t["cc"], t["std"], t["opt"]) for t in spec["tus"]) + "; library " + " ".join(LIBS[spec["lib"]])


def replay(path, repo, work):
    work.mkdir(parents=True, exist_ok=True)
    init(repo, work)
    m = run_case(json.loads(Path(path).read_text()), work, "replay")
    print("%s program: %s" % ("FAILS" if m else "passes", m or "builds and gives the expected results"))
    return 1 if m else 0


def run(repo, work, seed, seconds, replays):
    t0 = time.time()
    work.mkdir(parents=True, exist_ok=True)
    init(repo, work)
    seconds = min(seconds, 40) if seconds < 200 else seconds / 3
    r = {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "cases": {"program": 0}, "labels": {}, "samples": [], "violations": [], "build": "programs"}
    # First every header alone with all its functions, by both compilers, against every library.
    first = []
    for i, h in enumerate(HEADERS + ["idna"]):
        for cc in ("g++", "clang++"):
            for opt in ("-O0", "-O2"):
                uses = [k for k, u in enumerate(USES) if h in (u[0], "idna")]
                tu = {"cc": cc, "opt": opt, "std": "c++20", "headers": [h], "uses": uses, "flags": [], "angle": False, "late": False}
                first.append({"tus": [tu], "lib": len(first) % len(LIBS)})
    # Then programs that have their own functions under names the library exports outside its namespace.
    everything = {"cc": "g++", "opt": "-O1", "std": "c++20", "headers": ["idna"], "uses": list(range(len(USES))), "flags": [], "angle": False, "late": False}
    for i, l in enumerate(LIBS):
        if l[2] == "object":
            first += [{"tus": [everything], "lib": i, "symbols": [x]} for x in leaked(LIBPATH[i])[:20]]
    # And programs that use every word for themselves.
    for cc in ("g++", "clang++"):
        for kind in (0, 1):
            first.append({"tus": [dict(everything, cc=cc, own=[(w, kind) for w in OWN[kind]])], "lib": 0})
    seeds = iter(range(seed * 1000003, seed * 1000003 + 10 ** 6))
    queue = iter(first)
    nxt = lambda: next(queue, None) or gen(next(seeds))
    seen, bad, n = set(), None, 0
    with cf.ThreadPoolExecutor(8) as ex:
        todo = {}

        def submit():
            nonlocal n
            s = nxt()
            n += 1
            todo[ex.submit(run_case, s, work, str(n))] = s
        for _ in range(10):
            submit()
        while todo:
            done, _ = cf.wait(todo, return_when=cf.FIRST_COMPLETED)
            for f in done:
                spec = todo.pop(f)
                m = f.result()
                r["evaluations"] += 1
                for l in ["%d unit(s)" % len(spec["tus"])] + sorted({"header " + h for t in spec["tus"] for h in t["headers"]}) + (["own names"] if any(t.get("own") for t in spec["tus"]) else []):
                    r["labels"][l] = r["labels"].get(l, 0) + 1
                if any(t["uses"] for t in spec["tus"]):
                    r["nontrivial"] += 1
                    h = json.dumps(spec, sort_keys=True)
                    if h not in seen:
                        seen.add(h)
                        r["distinct_nontrivial"] += 1
                        if len(r["samples"]) < 8 and len(seen) > len(first):
                            r["samples"].append(describe(spec)[:600])
                if m and not bad:
                    bad = (spec, m)
                if not bad and time.time() - t0 < seconds:
                    submit()
        if bad:
            small, msg = bad
            while True:
                cands = list(smaller(small))
                res = list(ex.map(lambda c: run_case(c[1], work, "s%d" % c[0]), enumerate(cands)))
                hit = next(((c, m) for c, m in zip(cands, res) if m), None)
                if not hit:
                    break
                small, msg = hit
            f = replays / ("C28-%s.json" % hashlib.sha256(json.dumps(small).encode()).hexdigest()[:12])
            f.write_text(json.dumps(small) + "\n")
            r["violations"].append({"sub": "program", "message": msg + "  [case: " + describe(small) + "]", "replay": str(f)})
    r["cases"]["program"] = r["evaluations"]
    r["wall_s"] = time.time() - t0
    return r
