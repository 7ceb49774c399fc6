#!/usr/bin/env python3
"""Checks that the tools the checks need are here. The checks build everything else themselves."""
import shutil, subprocess, sys, tempfile
from pathlib import Path

missing = [t for t in ("g++", "clang++", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
for need in ("refdata/ucd17.inc", "lib/ref.hpp", "checks.py"):
    if not (Path(__file__).resolve().parent / need).exists():
        sys.exit("missing file: " + need)
with tempfile.TemporaryDirectory() as d:
    src = Path(d) / "t.cpp"
    src.write_text("#include <zlib.h>\n#include <thread>\nint main(){std::thread t([]{});t.join();return zlibVersion()[0]!='1';}\n")
    for cc in (["g++", "-std=c++20", "-O2"], ["clang++", "-std=c++20", "-fsanitize=address,undefined"], ["clang++", "-std=c++20", "-fsanitize=thread"]):
        exe = str(Path(d) / "t")
        subprocess.run(cc + [str(src), "-o", exe, "-lz", "-lpthread"], check=True)
        subprocess.run([exe], check=True)
print("tools present")
