#!/usr/bin/env python3
"""Runs one check:  python3 run.py <ID> [--replay FILE] [--keep]

Builds the harness of the check together with the sources in /repo's working tree,
runs it, writes evidence/<ID>.json. Exit 0: held on everything explored. Exit 1 with
'VIOLATION property=<ID> replay=<path>': broken. Exit 2: the check could not run.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough), VERIF_REPO.
"""
import concurrent.futures as cf
import json, os, re, shutil, struct, subprocess, sys, time, zlib
from pathlib import Path

V = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
TIER = os.environ.get("VERIF_TIER", "quick")
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = zlib.crc32(os.environ["VERIF_SEED"].encode())
THOROUGH = TIER == "thorough"
FUZZ_SECONDS = int(os.environ.get("VERIF_FUZZ_SECONDS", "240"))

GXX = ["g++", "-std=c++20", "-O2", "-w", "-D_GLIBCXX_ASSERTIONS"]
CLANG_ASAN = ["clang++", "-std=c++20", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CLANG_MSAN = ["clang++", "-std=c++20", "-O1", "-g", "-w", "-fsanitize=memory", "-fno-omit-frame-pointer"]
CLANG_TSAN = ["clang++", "-std=c++20", "-O1", "-g", "-w", "-fsanitize=thread"]
RUN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0",
    "MALLOC_PERTURB_": "167",
    "LC_ALL": "C",
}


class CheckError(Exception):
    pass


class DoesNotBuild(Exception):
    """The configuration under test does not compile although the library does."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, " ".join(map(str, cmd)), r.stdout[-6000:]))
    return r.stdout


def copy_repo(dst, parts=("src", "include", "scripts", "singleheader")):
    shutil.rmtree(dst, ignore_errors=True)
    dst.mkdir(parents=True)
    for p in parts:
        shutil.copytree(REPO / p, dst / p, ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    return dst


# --- preparation of other builds -------------------------------------------------
def prep_amalgamated(work):
    """Runs singleheader/amalgamate.py in a copy; returns (library source, include dirs, flags)."""
    root = copy_repo(work / "copy")
    out = work / "single"
    shutil.rmtree(out, ignore_errors=True)
    out.mkdir()
    env = dict(os.environ, AMALGAMATE_OUTPUT_PATH=str(out))
    sh([sys.executable, str(root / "singleheader" / "amalgamate.py")], env=env, cwd=root)
    shutil.rmtree(root)  # the result must stand on its own
    return out / "ada_idna.cpp", [out], ['-DADA_HEADER="ada_idna.h"']


def prep_simdutf(work):
    return REPO / "src" / "idna.cpp", [REPO / "include", V / "lib" / "simdutf"], ["-DADA_USE_SIMDUTF"]


def blob_parts(text):
    m = re.search(r"compressed\[\]\s*=\s*\{(.*?)\};", text, re.S)
    comp = bytes(int(x, 0) for x in re.findall(r"0[xX][0-9a-fA-F]+|\d+", m.group(1)))
    num = {k: int(v, 0) for k, v in re.findall(r"constexpr\s+\w+\s+(\w+)\s*=\s*(0[xX][0-9a-fA-F]+|\d+)u?\s*;", text)}
    return m, comp, num


def section_widths():
    src = (REPO / "scripts" / "pack_tables.py").read_text()
    w = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}
    body = re.search(r"SECTION_ORDER\s*=\s*\[(.*?)\]", src, re.S).group(1)
    return [(n, w[k]) for n, k in re.findall(r'"(\w+)",\s*"(u\d+)"', body)]


def swapped_blob(text):
    """table_blob.inc with every multi-byte element in the other byte order."""
    m, comp, num = blob_parts(text)
    plain = bytearray(zlib.decompress(comp, -15))
    for name, w in section_widths():
        off, n = num["off_" + name], num["count_" + name]
        if w > 1:
            for i in range(off, off + n * w, w):
                plain[i:i + w] = plain[i:i + w][::-1]
    c = zlib.compressobj(9, zlib.DEFLATED, -15)
    z = c.compress(bytes(plain)) + c.flush()
    body = ",".join("0x%02x" % b for b in z)
    text = text[:m.start(1)] + body + text[m.end(1):]
    text = re.sub(r"(compressed_size\s*=\s*)\d+", r"\g<1>%d" % len(z), re.sub(r"uncompressed_size", "@US@", text)).replace("@US@", "uncompressed_size")
    text = re.sub(r"(uncompressed_crc32\s*=\s*)0x[0-9A-Fa-f]+", r"\g<1>0x%08X" % zlib.crc32(bytes(plain)), text)
    return text


def prep_big_endian(work):
    root = copy_repo(work / "be", ("src", "include"))
    p = root / "src" / "table_blob.inc"
    p.write_text(swapped_blob(p.read_text()))
    return root / "src" / "idna.cpp", [root / "include"], ["@lib", "-include", str(V / "lib" / "big_endian.hpp")]


def prep_big_endian_portable(work):
    s, i, f = prep_big_endian(work)
    return s, i, f + ["-DBE_PORTABLE"]


def prep_options(*flags):
    """The library (only) compiled with other options."""
    return lambda work: (REPO / "src" / "idna.cpp", [REPO / "include"], ["@lib"] + list(flags))


def prep_locales(work):
    """Locales whose rules differ from C's, made here; those that cannot be made are left out."""
    d = work / "locales"
    d.mkdir(exist_ok=True)
    ps = []
    for loc, cs in (("tr_TR", "UTF-8"), ("tr_TR", "ISO-8859-9"), ("de_DE", "ISO-8859-1"), ("ja_JP", "EUC-JP"), ("fa_IR", "UTF-8"), ("ru_RU", "KOI8-R")):
        dst = d / (loc + "." + cs)
        if not (dst / "LC_CTYPE").exists():
            try:
                ps.append(subprocess.Popen(["localedef", "-c", "-i", loc, "-f", cs, str(dst)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
            except OSError:
                break
    for p in ps:
        p.wait()
    return REPO / "src" / "idna.cpp", [REPO / "include"], []


def have_avx2():
    try:
        return " avx2 " in (Path("/proc/cpuinfo").read_text().split("flags", 1) + [""])[1].split("\n")[0] + " "
    except OSError:
        return False


# --- the checks ------------------------------------------------------------------
# build: (name, harness, compiler, {options}); options: lib (compile idna.cpp too), prep, libs, flags, scale
def B(name, src, cc=GXX, lib=True, prep=None, libs=(), flags=(), scale=1.0, must_build=False):
    return dict(must_build=must_build, name=name, src=src, cc=cc, lib=lib, prep=prep, libs=list(libs), flags=list(flags), scale=scale)


CHECKS = {}


def check(pid, builds, rule, fuzz=False, assumptions=(), script=None):
    CHECKS[pid] = dict(builds=builds, rule=rule, fuzz=fuzz, assumptions=list(assumptions), script=script)


REFMODEL = "The oracle is an independent model written from UTS #46, RFC 3492, RFC 5892, RFC 5893 and UAX #15 over Unicode 17 data in refdata/ (derived from the Go and ICU tables installed here and cross-checked against each other)."
exec((V / "checks.py").read_text())


# --- building and running --------------------------------------------------------
def build(b, work, fuzz=False):
    """build_one, where a failure may be what the property is about."""
    try:
        return build_one(b, work, fuzz)
    except CheckError as e:
        if not b["must_build"] or re.search(r"[Nn]o such file.*main\.cpp|not a member of .simdutf", str(e)):
            raise
        plain = GXX + ["-I%s" % (REPO / "include"), str(REPO / "src" / "idna.cpp")]
        sh(plain + ["-fsyntax-only"])  # a CheckError here: nothing compiles
        sh(GXX + ["-fsyntax-only", "-I%s" % (REPO / "include")] + b["flags"] + [str(V / "checks" / b["src"])])
        raise DoesNotBuild(str(e))


def build_one(b, work, fuzz=False):
    w = work / (b["name"] + ("-fuzz" if fuzz else ""))
    w.mkdir(parents=True, exist_ok=True)
    cc = list(b["cc"])
    if fuzz:
        cc = CLANG_ASAN + ["-DPBT_FUZZ"]
    libsrc, inc, extra = REPO / "src" / "idna.cpp", [REPO / "include"], []
    if b["prep"]:
        libsrc, inc, extra = b["prep"](w)
    libonly = []
    if "@lib" in extra:
        k = extra.index("@lib")
        libonly, extra = extra[k + 1:], extra[:k]
    incs = ["-I%s" % d for d in inc]
    jobs = []
    objs = [w / "harness.o"]
    hflags = b["flags"] + (["-I%s" % (REPO / "src")] if not b["lib"] else [])
    jobs.append(cc + (["-fsanitize=fuzzer-no-link"] if fuzz else []) + hflags + extra + incs + ["-c", str(V / "checks" / b["src"]), "-o", str(objs[0])])
    if b["lib"]:
        objs.append(w / "lib.o")
        jobs.append(cc + (["-fsanitize=fuzzer-no-link"] if fuzz else []) + libonly + extra + incs + ["-c", str(libsrc), "-o", str(objs[1])])
    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(sh, jobs))
    if "-fsanitize=memory" in cc:
        objs.reverse()  # the library's, instrumented, instances of templates
    exe = w / "check"
    sh(cc + (["-fsanitize=fuzzer"] if fuzz else []) + [str(o) for o in objs] + ["-o", str(exe)] + b["libs"] + ["-lpthread"])
    return exe


def run_engine(exe, args, timeout):
    env = dict(os.environ, **RUN_ENV)
    try:
        p = subprocess.run([str(exe)] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("%s did not finish within %d s" % (exe, timeout))
    sys.stderr.write(p.stderr[-4000:])
    return p


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: run.py <%s> [--replay FILE]" % "|".join(CHECKS))
        return 2
    pid = sys.argv[1]
    chk = CHECKS[pid]
    t0 = time.time()
    work = V / ".build" / pid
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    replays = V / "replays"
    replays.mkdir(exist_ok=True)
    if chk["script"]:
        return scripted(pid, chk, work, replays, t0)
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            exes = list(ex.map(lambda b: build(b, work), chk["builds"]))
    except DoesNotBuild as e:
        f = replays / (pid + "-build.txt")
        f.write_text(str(e) + "\n")
        if "--replay" in sys.argv:
            print("FAILS: " + str(e)[-2000:])
            return 1
        cov = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the configuration has to compile", "samples": [str(e)[:400]]}
        return finish(pid, chk, cov, [{"sub": "build", "message": "this configuration does not build: " + str(e)[-1500:], "replay": str(f)}], work, t0)
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        cfg = next((l.split(" ", 1)[1].strip() for l in open(f, errors="replace") if l.startswith("config ")), "")
        rc = 0
        for b, e in zip(chk["builds"], exes):
            if len(exes) > 1 and b["name"] != cfg:
                continue
            p = run_engine(e, ["--id", pid, "--replay", f], 900)
            print(p.stdout, end="")
            rc = max(rc, p.returncode)
        return rc
    results, violations = [], []
    for b, e in zip(chk["builds"], exes):
        out = work / (b["name"] + ".json")
        args = ["--seed", str(SEED), "--id", pid, "--out", str(out), "--replay-dir", str(replays), "--scale", str(b["scale"])]
        if THOROUGH:
            args.append("--thorough")
        p = run_engine(e, args, 6 * 3600 if THOROUGH else 840)
        if p.returncode not in (0, 1) or not out.exists():
            raise CheckError("%s exited with %d\n%s" % (e, p.returncode, p.stderr[-3000:]))
        r = json.loads(out.read_text())
        r["build"] = b["name"]
        results.append(r)
        violations += r["violations"]
        if violations:
            break
    if THOROUGH and chk["fuzz"] and not violations:
        r = fuzz(chk, pid, work, replays)
        if r:
            results.append(r)
            violations += r["violations"]
    return finish(pid, chk, coverage(chk, results), violations, work, t0)


def scripted(pid, chk, work, replays, t0):
    """A check written in Python: checks/<script>.py with run() and replay()."""
    import importlib
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(V / "checks"))
    mod = importlib.import_module(chk["script"])
    if "--replay" in sys.argv:
        return mod.replay(sys.argv[sys.argv.index("--replay") + 1], REPO, work)
    try:
        r = mod.run(REPO, work, SEED, int(os.environ.get("VERIF_SECONDS", "1500" if THOROUGH else "70")), replays)
    except RuntimeError as e:
        raise CheckError(str(e))
    return finish(pid, chk, coverage(chk, [r]), r["violations"], work, t0)


def coverage(chk, results):
    return {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
        "rule": chk["rule"],
        "samples": [s for r in results for s in r["samples"]][:12],
        "builds": [{"build": r["build"], "evaluations": r["evaluations"], "nontrivial": r["nontrivial"], "distinct_nontrivial": r["distinct_nontrivial"], "cases": r["cases"], "labels": dict(sorted(r["labels"].items())), "wall_s": round(r["wall_s"], 2)} for r in results],
    }


def finish(pid, chk, cov, violations, work, t0):
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration", "coverage": cov,
          "assumptions": chk["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    (V / "evidence").mkdir(exist_ok=True)
    (V / "evidence" / (pid + ".json")).write_text(json.dumps(ev, indent=1) + "\n")
    if "--keep" not in sys.argv:
        shutil.rmtree(work, ignore_errors=True)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violations:
        for v in violations:
            print("%s: %s" % (v["sub"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    print("%s holds on %d cases, %d of them distinct and non-trivial (%.1f s)" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


def known_findings(pid):
    out = []
    f = V / "known_findings.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def fuzz(chk, pid, work, replays):
    """Coverage-guided search with the same oracles (thorough tier only)."""
    b = chk["builds"][0]
    exe = build(b, work, fuzz=True)
    corpus, arts = work / "corpus", work / "artifacts"
    corpus.mkdir(exist_ok=True)
    arts.mkdir(exist_ok=True)
    env = dict(os.environ, **RUN_ENV)
    env.pop("MALLOC_PERTURB_")
    cmd = [str(exe), "-fork=8", "-max_total_time=%d" % FUZZ_SECONDS, "-seed=%d" % (SEED or 1), "-max_len=600", "-timeout=60", "-rss_limit_mb=3000", "-artifact_prefix=%s/" % arts, str(corpus)]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    execs = [int(x) for x in re.findall(r"^#(\d+):", p.stdout, re.M)]
    units = len(list(corpus.iterdir()))
    vio = []
    crashes = sorted(arts.glob("crash-*")) + sorted(arts.glob("oom-*"))
    if crashes:
        asan = dict(b, name=b["name"] + "-asan", cc=CLANG_ASAN)
        e2 = build(asan, work)
        q = run_engine(e2, ["--id", pid, "--artifact", str(crashes[0]), "--replay-dir", str(replays)], 900)
        v = json.loads(q.stdout)
        if v.get("confirmed"):
            vio.append(v)
        else:
            sys.stderr.write("NOTE libFuzzer artifact not confirmed: %s\n" % v.get("message"))
    return {"build": "libfuzzer", "evaluations": max(execs or [0]), "nontrivial": units, "distinct_nontrivial": units, "cases": {"coverage-guided": max(execs or [0])},
            "labels": {"inputs kept because they reached new code": units}, "samples": [], "violations": vio, "wall_s": float(FUZZ_SECONDS)}


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR %s" % e)
        rc = 2
    sys.exit(rc)
