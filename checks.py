# The checks: how each is built, and the rule its evidence states.
# Executed by run.py.
MODEL = (REFMODEL,)
check("C01", [B("default", "c01.cpp", scale=2.5)], "Domains from a structured generator (labels of mixed scripts, bidi class sequences made valid and then broken in one place, joiner contexts, decomposed text, A-labels intact and damaged, all four dots, damaged UTF-8), and every code point alone; non-trivial: the input is not plain ASCII.", fuzz=True, assumptions=MODEL)
check("C02", [B("default", "c02.cpp", scale=3)], "ASCII byte strings: every byte at every position, random bytes, A-label shaped text; non-trivial: at least one upper-case letter or A-label prefix.", fuzz=True, assumptions=MODEL)
check("C03", [B("default", "c03.cpp", scale=3)], "Domains as for C01 plus random bytes; non-trivial: accepted and not plain ASCII on input.", fuzz=True)
check("C04", [B("default", "c04.cpp", scale=2.5)], "Domains of A-labels (valid, damaged, upper-case), ASCII and Unicode labels, raw bytes; every code point alone in an A-label; non-trivial: at least one label starts with the ACE prefix.", fuzz=True, assumptions=MODEL)
check("C05", [B("default", "c05.cpp", scale=3)], "Every code point alone (exhaustive up to U+10FFFF), then strings of biased code points; non-trivial: some code point is mapped, ignored or disallowed.", fuzz=True, assumptions=MODEL)
check("C06", [B("default", "c06.cpp", scale=3)], "Every code point, every canonical composition pair, every Hangul syllable, strings built from marks of all combining classes, long runs of marks; non-trivial: not plain ASCII.", fuzz=True, assumptions=MODEL)
check("C07", [B("default", "c07.cpp", scale=3)], "All strings of up to two digits and many of three, delta-by-delta Punycode aimed at integer and code point limits, encodings of generated labels intact and damaged; non-trivial: not empty.", fuzz=True, assumptions=MODEL)
check("C08", [B("default", "c08.cpp", scale=3)], "Punycode text as for C07, with and without the prefix in the payload, values at overflow; non-trivial: not empty.", fuzz=True, assumptions=MODEL)
check("C09", [B("default", "c09.cpp", scale=3)], "Every 32-bit value up to U+11FFFF in three contexts, every string of up to three bytes and boundary four-byte strings, random text well-formed and damaged; non-trivial: not empty.", fuzz=True)
check("C10", [B("default", "c10.cpp", scale=3)], "Labels stable under mapping and NFC: every code point alone, all sequences of bidi classes and of joining types in short labels, generated bidi and joiner labels; non-trivial: not plain ASCII.", fuzz=True, assumptions=MODEL)
check("C11", [B("default", "c11.cpp", scale=9)], "Every value up to U+11FFFF in both positions (exhaustive), then random orders of queries including values beyond 21 bits; non-trivial: every case.", assumptions=("Unicode 17 ID_Start / ID_Continue data in refdata/.",))
check("C12", [B("asan-ubsan", "c12.cpp", scale=1.5, cc=CLANG_ASAN), B("msan", "c12.cpp", scale=0.25, cc=CLANG_MSAN, flags=["-fsanitize-ignorelist=" + str(V / "lib" / "msan_ignore.txt")], prep=prep_options("-D_GLIBCXX_EXTERN_TEMPLATE=0", "-O0"))], "Arbitrary bytes and arbitrary 32-bit values, structured and random, in heap blocks of exactly the stated size, under AddressSanitizer and UndefinedBehaviorSanitizer, and the library under MemorySanitizer; non-trivial: every case (it runs all entry points on one input).", fuzz=True)
check("C13", [B("default", "c13.cpp", scale=2)], "Inputs of lengths around 16384 and random, of units that expand the most, with every allocation counted; non-trivial: every case.")
check("C14", [B("default", "c14.cpp", scale=1.5)], "Sequences of 2-15 calls over reused output buffers, first calls of a fresh process, and repeated pairs of calls, each result compared with the model; non-trivial: every sequence.", assumptions=MODEL)
check("C15", [B("default", "c15.cpp"), B("tsan", "c15.cpp", cc=CLANG_TSAN)], "Processes with unbuilt tables whose first calls come from 2-8 threads released together or apart, and threads running mixed calls on built tables; results compared with the model, once optimised and once under ThreadSanitizer; non-trivial: every case.", assumptions=MODEL + ("Schedules are those the operating system produces, varied by random delays.",))
check("C16", [B("asan-ubsan", "c16.cpp", cc=CLANG_ASAN, lib=False, libs=["-lz"])], "DEFLATE streams written bit by bit (stored, fixed and dynamic blocks, random code lengths, run-length codes, all distances), streams produced by zlib, damaged and truncated streams, random bytes; exact, short and long output capacities; non-trivial: more than 2 bytes.", fuzz=False, assumptions=("zlib is the oracle; incomplete codes, which RFC 1951 leaves open, may be accepted or rejected.",))
check("C17", [B("default", "c17.cpp", lib=False, flags=["-I/repo/include"] if str(REPO) == "/repo" else ["-I%s/include" % REPO], libs=["-lz"])], "A process with unbuilt tables whose embedded blob has bits flipped, bytes changed or zeroed, or is replaced by a well-formed stream of other contents or size, or whose table allocation is refused; then 3-8 calls of any kind, sometimes from several threads; non-trivial: every case that injected a fault and ran.", assumptions=MODEL + ("Damage that leaves the CRC-32 of the payload unchanged is not expected to be noticed.",))
check("C18", [B("amalgamated", "conf_main.cpp", scale=1.5, prep=prep_amalgamated, must_build=True, flags=['-DCONF_NAME="amalgamated"'])], "The amalgamated source produced by the repository's script, compiled alone, against the model: every code point, and generated domains, labels, Punycode and text; non-trivial as for C01, C04, C06, C07.", assumptions=MODEL)
check("C19", [B("simdutf", "conf_main.cpp", scale=1.5, prep=prep_simdutf, must_build=True, flags=['-DCONF_NAME="simdutf"'])], "The library built with ADA_USE_SIMDUTF against the model: every code point, and generated domains, labels, Punycode and text; non-trivial as for C01, C04, C06, C07.", assumptions=MODEL + ("simdutf itself is replaced by a stand-in written from its documented contracts (it is not installed here).",))
check("C20", [B("big-endian", "conf_main.cpp", prep=prep_big_endian, flags=['-DCONF_NAME="big-endian"']), B("big-endian-portable", "conf_main.cpp", prep=prep_big_endian_portable, flags=['-DCONF_NAME="big-endian-portable"'], scale=0.4)], "The library made to take its big-endian path over tables whose multi-byte elements are stored in the other byte order, against the model: every code point, and generated domains, labels, Punycode and text; with and without the compiler's byte-swap builtins; non-trivial as for C01, C04, C06, C07.", assumptions=MODEL + ("A big-endian machine is simulated: the byte order of the embedded tables is exchanged instead of the machine's.",))
check("C21", [B("default", "c21.cpp", scale=8)], "Every ASCII byte at every position of strings of up to 40 bytes in several fillings, every pair, random ASCII strings, results of to_ascii; non-trivial: every case.", fuzz=True)
check("C22", [B("default", "c22.cpp", scale=8)], "Every ASCII byte at every position of strings of up to 40 bytes at 8 alignments with guard bytes, every pair of neighbours, random ASCII; non-trivial: every case.", fuzz=True)
check("C23", [B("default", "c23.cpp", scale=3)], "Pairs of spellings related by UTS #46 mapping, ignored code points, canonical (de)composition, dot variants, case, full width, or U-label against A-label; every code point against its mapping; non-trivial: the two spellings differ.", fuzz=True, assumptions=MODEL)
check("C24", [B("default", "c24.cpp", scale=4)], "Calls of every kind on generated inputs; each is repeated with each of its allocations refused in turn, with all heap blocks counted, and then once more without a fault; also as the first calls of a process; non-trivial: the call allocates.", assumptions=MODEL)
check("C25", [], "Mapping and identifier data files (the real ones edited, and random ones at block boundaries, at 16-bit limits, with STD3 and deviation statuses, gaps, split ranges) put through the repository's scripts in a copy, and random sections through pack_tables.py; the library rebuilt from the result is asked for every code point; non-trivial: every case. A case is one set of tables.", script="c25", assumptions=("Data files are well-formed; data beyond what the layout can express may be refused.",))
check("C26", [B("default", "c26.cpp"), B("asan-ubsan", "c26.cpp", cc=CLANG_ASAN, scale=0.3)], "Programs that make 1-20 generated calls, each in a generated phase of the process: before static initialisation, in static constructors, main, threads (one with a stack of 128 KiB), thread-local and static destructors, exit handlers, a forked child; non-trivial: every case.", assumptions=MODEL)
CLANG = ["clang++"] + GXX[1:]
check("C27", [
    B("gcc-O3-unsigned-char", "conf_main.cpp", scale=1, prep=prep_options("-O3", "-funsigned-char"), must_build=True, flags=['-DCONF_NAME="gcc-O3-unsigned-char"']),
    B("gcc-O0", "conf_main.cpp", scale=0.4, prep=prep_options("-O0"), must_build=True, flags=['-DCONF_NAME="gcc-O0"']),
    B("gcc-Os-cxx23-lto", "conf_main.cpp", scale=0.7, prep=prep_options("-Os", "-std=c++23", "-flto"), must_build=True, flags=['-DCONF_NAME="gcc-Os-cxx23-lto"']),
    B("gcc-cow-strings", "conf_main.cpp", scale=0.7, flags=['-DCONF_NAME="gcc-cow-strings"', "-D_GLIBCXX_USE_CXX11_ABI=0"], prep=prep_options("-D_GLIBCXX_USE_CXX11_ABI=0"), must_build=True),
    B("clang-O2-unsigned-char", "conf_main.cpp", cc=CLANG, scale=1, prep=prep_options("-O2", "-funsigned-char"), must_build=True, flags=['-DCONF_NAME="clang-O2-unsigned-char"']),
    B("gcc-O2-native-ndebug", "conf_main.cpp", scale=0.5, prep=prep_options("-O2", "-march=native", "-DNDEBUG", "-D_GLIBCXX_DEBUG"), must_build=True, flags=['-DCONF_NAME="gcc-O2-native-ndebug"', "-D_GLIBCXX_DEBUG"]),
    B("clang-O1-cxx23-pattern", "conf_main.cpp", cc=CLANG, scale=0.5, prep=prep_options("-O1", "-std=gnu++23", "-DNDEBUG", "-ftrivial-auto-var-init=pattern", "-fno-rtti"), must_build=True, flags=['-DCONF_NAME="clang-O1-cxx23-pattern"']),
    B("clang-O3-avx2", "conf_main.cpp", cc=CLANG, scale=1, prep=prep_options("-O3", *(["-march=x86-64-v3"] if have_avx2() else [])), must_build=True, flags=['-DCONF_NAME="clang-O3-avx2"']),
], "The library built by gcc and clang at other optimisation levels, with plain char unsigned, with copy-on-write strings, as C++23, for a CPU with wider vectors, without assertions or with the checking mode of libstdc++, against the model: every code point, and generated domains, labels, Punycode and text; non-trivial as for C01, C04, C06, C07.", assumptions=MODEL)
check("C28", [], "Programs of 1-3 translation units, each including a random sequence of public headers and using random functions these declare, built by gcc and clang with random options, linked with the library as object or shared library, and run; non-trivial: some function is used.", script="c28", assumptions=("Expected results of the calls are written down in checks/c28.py.",))
check("C29", [B("counted", "c29.cpp", cc=CLANG, prep=prep_options("-O1", "-fsanitize-coverage=trace-pc-guard"))], "Domains of up to 16384 bytes and texts of up to 65536 code points made of repeated pieces (marks in any order, joiners, bidirectional labels, composites, A-labels of all sizes, Punycode digits, dots) or of all different code points; the library's basic blocks and the C library's bytes are counted; non-trivial: at least 64 units long.", assumptions=("Work is counted in basic blocks of a clang -O1 build and in 4-byte pieces moved or compared; the factors allow 4 times what was measured.",))
check("C30", [B("default", "c30.cpp", prep=prep_locales)], "Processes in generated states (locale set in three ways to one of eight, rounding and flush mode, descriptors closed or full, environment empty or with every variable set, limits, blocked signals, errno, main or other thread) that make 1-8 generated calls with every system call forbidden that is not about memory or waiting, and then look at their state; and all functions on ranges of code points, in such a process and in a plain one; non-trivial: every case.", assumptions=MODEL + ("Locales that cannot be made here with localedef are left out.",))
