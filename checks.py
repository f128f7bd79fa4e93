"""Per-property build and exploration configuration (see run.py)."""
CHECKS = {
 "C05": dict(src=["c05.cpp"],
   bounds="all sizes up to 64x64, all lengths up to 4200 with thickness 1..3, power-of-two neighbourhoods up to 70k pixels; every image of up to 6 pixels over 4 pixel values; all operation sequences up to length 4 on 5 sizes",
   assumptions=["pixel bytes move independently of one another (alphabet of values is enumerated per channel)"]),
 "C06": dict(src=["c06.cpp"], bounds="every rectangle of every image up to 7x7 (5 channel counts), 15^4 wrap-around rectangles, windows on sizes up to 600k pixels; borders 1..300 on sizes up to 12x12 and larger ones, every thickness up to 2500 on small pictures"),
 "C07": dict(src=["c07.cpp"], bounds="every binary image up to 12 pixels, every three-valued one up to 9, every pair of odd pixels on sizes up to 11x11, every difference 0..255 x 21 percentages, every pair of values in one channel, 81 frame shapes on all sizes up to 14x14 and larger ones"),
 "C08": dict(src=["c08.cpp"], bounds="all 2^24 colours x alpha patterns; all sizes up to 40x40, all 1xN/Nx1 up to 1200, sizes around powers of two and one of more than 2^24 pixels; every pair of levels x 6 count patterns, every outlier count 0..9 around the 1/64 rank, every image of up to 6 pixels over 7 levels"),
 "C09": dict(src=["c09.cpp"], bounds="every pair of levels x 8 count ratios, every triple of 29 levels x 5 count patterns, 8192 broad bimodal histograms, every image of 4 pixels over 11 levels, nearly flat images of every level up to 10^5 pixels, all sizes up to 32x32 and around powers of two, one image above 2^24 pixels; global threshold for all (t, value); bw_smart on all sizes up to 26x26 and larger and long ones"),
 "C10": dict(src=["c10.cpp"], bounds="52 radii (fractional, integer, tiny, limit) x all sizes up to 13x13 and 1xN/Nx1 up to 64; every integer radius 0..1000 on step edges, combs and impulses; every flat level; every binary image up to 10 pixels; impulses at every position up to 10x10",
   assumptions=["real-valued reference with 1.02 levels tolerance per pass"]),
 "C11": dict(src=["c11.cpp"], bounds="all pairs of 26 factors x all sizes up to 9x9 and 7 larger ones, every length 1..44 to every length 1..44, every percentage 1..300 of every length 1..260, 21x21 long lines up to 100003, factors from 1/256 to 33 in pairs, flat images of every level, every binary image up to 10 pixels, results and pictures of more than 2^16 pixels in one direction",
   assumptions=["real-valued reference with 1.01 levels tolerance"]),
 "C12": dict(src=["c12.cpp"], bounds="every binary image of up to 12 pixels x radii 0..5, every 4x4 image x radii 0..2, every image of 6 pixels over 5 gray values, single pixels at every position up to 11x11 x radii 0..12, disks of every radius 0..24, all sizes up to 24x24 x 3 densities, sizes up to 70000 pixels, 32 radii from 25 to 1025 on pictures of 1 to 7 pixels thickness, quarter disks in a corner of every radius, thin rims"),
 "C13": dict(src=["c13.cpp"], bounds="1, 3 and 4 channels: every binary image up to 12 pixels, every image up to 6 pixels over 4 values, all sizes up to 32x32 x 6 contents, sizes around powers of two up to 70k pixels, constant images of every level, steps of every height and position"),
 "C14": dict(src=["c14.cpp"], bounds="every elevation image up to 3x3 (2-4 levels) x every list of 1-3 markers x boundaries on/off; walls of every pair of heights; all sizes up to 12x12 x 1..14 markers; sizes up to 100x70"),
 "C15": dict(src=["c15.cpp"], bounds="1, 3 and 4 channels: every image up to 4 pixels over 4-6 values, every value in every channel, every pair of counts 1..140, all sizes up to 18x18, sizes around powers of two, counts beyond 2^24 and 2^32/200, one coloured pixel at 26 positions of a gray picture"),
 "C16": dict(src=["c16.cpp"], bounds="every radius 0..260 (geometry), radii 0..9 at every centre -12..16 around a 5x4 image, 9 sizes x 11 radii x 12 centres x 10 colours x 1/3/4 channels, radii up to 3 million crossing an image, shapes in pictures of many widths; all 2^24 colour codes, every byte at every position of a code; every image up to 4 pixels over 7 colours x 36 colour pairs"),
 "C17": dict(src=["c17.cpp"], bounds="response: every binary image up to 16 pixels, every three-valued 3x3 one, all sizes up to 24x24 x 6 contents x 10 scales, every window 3..41, rectangles at every position; peaks: every three-valued response image up to 4x3, every two-valued one up to 4x4, every strength assignment of 7 maxima x 6 distances, every pair offset x distance 0..14, every value against every threshold, all sizes up to 20x20 x 13 parameter sets, pairs of maxima 15 to 65537 pixels apart, up to 12000 maxima"),
 "C18": dict(src=["c18.cpp"], bounds="homographies: every quadruple of grid points (4x4 quick, 5x5 thorough, three scales) as source and as destination of 6 quadrilaterals, 20736 page/rectangle pairs, every coordinate NaN/inf; warping: 24 matrices x all sizes up to 6x6 x 6 output sizes, 5625 affine and 196 perspective matrices, scaled homogeneous matrices, 1800 matrices close to the identity, flips and quarter turns; sorting: every list of 4 points on a 4x4 grid, of 4 of 12 spread points, every permutation of 5 and 6 points, rotations and 8 orders of 7 to 40 and 14 counts of up to 1000 points, 10 pairs of detection and picture sizes, every 3 points of a 5x5 grid",
   assumptions=["a homography is 'in general position' when the exact system is regular with condition below 1e9, coefficients below 1e6 and no corner within 1e-3 of the horizon"]),
 "C19": dict(src=["c19.cpp"], lib_flags=["-O2", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], bounds="pages: lattice of 3x3 half sizes (26..42 percent), rotations -15..15 degrees, 3 tapers, 9 offsets on 10 image sizes from 120x120 to 1500x1000 in 5 tones (quick: a fixed part of the lattice), 9 further sizes from 64x48 to 3000x2000 and 5000x64, pages whose sides bulge by up to 3 percent, pages with unequal left and right sides; extraction with a position code (pictures to 2600x2200, outputs to 2300x500); arbitrary contents on 15 sizes, every binary image up to 6 pixels, 120 shapes with fewer than four corners, flat images",
   assumptions=["page family: convex, every corner at least 4 percent inside, opposite sides at least half the image, uniform or smoothly shaded, without texture in the background"]),
}
def build_cli(run, bdir, src, kind="asan", extra=()):
    """harness (no sanitizer) + the real tool as bdir/flatcv"""
    R, V = run.REPO, run.VERIF
    jobs, h, c = [], [], []
    for s in src + ["ref/codec.cpp"]:
        o = f"{bdir}/h_{s.replace('/', '_')}.o"; h.append(o)
        jobs.append(["g++", "-std=c++17", "-w", "-O1" if s.startswith("ref/") else "-O1", f"-I{R}/include", f"-I{V}/src", "-c", f"{V}/src/{s}", "-o", o])
    for s in run.lib_sources():
        o = f"{bdir}/l_{run.os.path.basename(s)}.o"; h.append(o)
        jobs.append(["gcc", "-w", "-O2", f"-I{R}/include", "-c", s, "-o", o])
    fl = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"] if kind == "asan" else ["-O2", "-g"]
    for s in run.lib_sources() + [R + "/src/cli.c"]:
        o = f"{bdir}/t_{run.os.path.basename(s)}.o"; c.append(o)
        jobs.append(["gcc", "-w", *fl, f"-I{R}/include", "-c", s, "-o", o])
    for s in extra:
        o = f"{bdir}/x_{run.os.path.basename(s)}.o"; c.append(o)
        jobs.append(["gcc", "-w", *fl, "-c", f"{V}/src/{s}", "-o", o])
    run.compile_all(jobs)
    run.compile_all([["g++", *h, "-lm", "-o", bdir + "/check"],
                     ["gcc", *(["-fsanitize=address"] if kind == "asan" else []), *c, "-lm", "-o", bdir + "/flatcv"]])
    return [bdir + "/check"]

CHECKS["C21"] = dict(build=lambda run, b: build_cli(run, b, ["c21.cpp"]),
   bounds="every pipeline of 1 or 2 of 36 operations x 3 pictures, every pipeline of 3 of 12 operations, of 4 and 5 of 4, of 4 to 6 of 3, every operation 3 to 12 times; every division of 7 pipelines into arguments x 4 comma styles; 9 x 7 x 9 x 6 spellings of 5 pipelines; lengths 1..70 and up to 3000; padding of 1..140 and up to 40000 characters at 9 places; 12 input formats x 11 outputs; corner operations alone and combined; results of 65535 to 131073 pixels in one direction and of 2 and 4 GB",
   assumptions=["JPEG output is compared after decoding, within 4 levels on average of a reference encoding at quality 90"])
CHECKS["C22"] = dict(build=lambda run, b: build_cli(run, b, ["c22.cpp"]),
   bounds="about 8700 documented parameter spellings over value grids (every angle -2160..2160 step 90 and every non-multiple -359..719, multiples of 90 up to 10^12, texts of 10 to 20000 characters, trim tolerances in steps of 0.2 percent, every percentage, every crop geometry of a grid, marker lists of up to 10000 entries, 8 colours x 10 positions x 6 radii); 480 malformed parameters x 4 pipeline positions x output present/absent; every one-letter change of all 25 names; truncation of the input at every byte; 10 page shapes x 4 corner operations; values and outputs beyond 2^8 and 2^16",
   assumptions=["surplus numeric parameters, fractional pixel counts and hexadecimal or exponent number spellings are outside the documented grammar and not judged"])
CHECKS["C20"] = dict(build=lambda run, b: build_cli(run, b, ["c20.cpp"]),
   bounds="byte order x every pair of 17 kinds of preceding segments x 5 x 3 entry counts x 24 values; 10 IFD offsets x 14 x 5 entry counts x 10 values; directories of up to 5451 entries; up to 70000 preceding segments; 8 files x every byte x 256 values and every truncation; every pair of bytes of the smallest file x 144; every declared segment size 0..259; every file up to 5 bytes over 9 values; the tool on 11 orientations x 8 names x 5 sizes x 4 pipelines",
   assumptions=["where a file is malformed in a way a reader may or may not look through (other type or count, entry crossing the segment end, second Exif segment after a broken one, stand-alone markers) either answer is accepted"])
CHECKS["C23"] = dict(build=lambda run, b: build_cli(run, b, ["c23.cpp"], kind="plain", extra=["shim_malloc.c"]),
   bounds="10 scenarios (PNG, JPEG, PPM in; PNG, JPEG, standard output out) x every open/read/write/close/seek/stat call on input, output and standard output and every memory system call x every error code and short transfer, single and persistent; the disk full after every byte; every allocation of 42 pipelines failing alone and with all later ones",
   assumptions=["one fault (or one persistent fault) per run", "the tool makes the same calls in every fault-free run"])
REDIRECT = ["malloc", "calloc", "realloc", "reallocarray", "free", "strdup", "strndup", "aligned_alloc", "posix_memalign", "fopen", "fclose"]
def build_redirected(run, bdir, src, flags=("-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"), san=("-fsanitize=address",), cc="gcc", cxx="g++"):
    """harness + library objects whose allocator references go to alloc.hpp"""
    R, V = run.REPO, run.VERIF
    jobs, h, l = [], [], []
    for s in src:
        o = f"{bdir}/h_{s}.o"; h.append(o)
        jobs.append([cxx, "-std=c++17", "-w", "-O2", "-g1", *san, f"-I{R}/include", f"-I{V}/src", "-c", f"{V}/src/{s}", "-o", o])
    for s in run.lib_sources():
        o = f"{bdir}/l_{run.os.path.basename(s)}.o"; l.append(o)
        jobs.append([cc, "-w", *flags, f"-I{R}/include", "-c", s, "-o", o])
    run.compile_all(jobs)
    red = [x for f in REDIRECT for x in ("--redefine-sym", f"{f}=vf_{f}")]
    run.compile_all([["objcopy", *red, o] for o in l])
    run.compile_all([[cxx, *san, *h, *l, "-lm", "-o", bdir + "/check"]])
    return [bdir + "/check"]

CHECKS["C04"] = dict(build=lambda run, b: build_redirected(run, b, ["c04.cpp"]),
   bounds="about 105 calls with concrete parameters on 5 pictures up to 330x200 (document detection on 4 further ones): every allocation (and file open) fails alone and together with all later ones; every pair of failing allocations for calls with up to 40 allocations",
   assumptions=["fcv_detect_corners and sort_corners return a value, their failure value is what they return when no allocation succeeds"])
CHECKS["C02"] = dict(build=lambda run, b: build_redirected(run, b, ["c02.cpp"], flags=("-O2", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer")),
   technique="exhaustive exploration of call histories (all sequences up to a depth) on the real code, each step compared with the same call in a fresh process",
   bounds="all ordered pairs of about 420 calls (operation, parameters, picture), all ordered triples of one call per operation, 3 orders x every start of the history of all calls with every result held; every operation x every sequence of 3 contents of the same buffer, 66000 repetitions of every operation on a tiny picture and 1100000 of one call per function; every sequence of 3 contents of the same text, marker, corner, matrix and EXIF-file arguments changed in place; 4 histories with pictures of 66000 and more pixels; every call x 5 contents of fresh memory")
THREADED = REDIRECT + ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "strcpy", "strncpy", "strcat", "vsnprintf", "snprintf", "sprintf", "fread", "qsort",
   "strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48", "srand48", "localtime", "gmtime", "ctime", "asctime", "setlocale", "setenv", "unsetenv", "chdir", "umask", "lgamma",
   "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "mtx_lock", "mtx_unlock", "pthread_once", "call_once"]
def build_threaded(run, bdir):
    """library with TSan instrumentation, linked with the scheduler in c03.cpp"""
    R, V = run.REPO, run.VERIF
    l = [f"{bdir}/l_{run.os.path.basename(s)}.o" for s in run.lib_sources()]
    run.compile_all([["g++", "-std=c++17", "-w", "-O2", "-g1", f"-I{R}/include", f"-I{V}/src", "-c", f"{V}/src/c03.cpp", "-o", bdir + "/h.o"]] +
                    [["clang", "-w", "-O1", "-g1", "-fsanitize=thread", f"-I{R}/include", "-c", s, "-o", o] for s, o in zip(run.lib_sources(), l)])
    red = [x for f in THREADED for x in ("--redefine-sym", f"{f}=vf_{f}")]
    run.compile_all([["objcopy", *red, o] for o in l])
    run.compile_all([["g++", bdir + "/h.o", *l, "-lpthread", "-lm", "-o", bdir + "/check"]])
    return [bdir + "/check"]
CHECKS["C03"] = dict(build=build_threaded,
   technique="stateless exploration of thread interleavings of the real code under a controlled scheduler (all schedules up to a preemption bound at visible operations), with happens-before race detection over instrumented memory accesses in every schedule",
   bounds="every pair of about 190 calls with at most one preemption (first 60 visible operations), every call against itself with at most two (first 25), document detection against everything with both orders and 3 switches; every call on a 330x200 picture and every setting of the parameter grid (about 5100 with large values, 1100x3 and 3x1100 pictures) against itself; own and shared images",
   assumptions=["two threads, one call each", "sequentially consistent memory (a program without conflicting plain accesses has only such executions)", "memory accessed inside libc functions other than the wrapped ones is thread-private"])
_SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
CHECKS["C01"] = dict(src=["c01.cpp"], cc="clang", cxx="clang++", lib_flags=["-O1", "-g", *_SAN, "-fno-omit-frame-pointer"], h_flags=["-O1", "-g1", "-fsanitize=address"], link_flags=["-fsanitize=address,undefined", "-fsanitize-link-c++-runtime"],
   env={"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:exitcode=77:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:max_allocation_size_mb=700:detect_stack_use_after_return=0"},
   technique="exhaustive enumeration of bounded argument spaces of every public function on the real code, monitored by AddressSanitizer and UndefinedBehaviorSanitizer, with the failure value as oracle for invalid arguments",
   bounds="15 pixel maps x 519 sizes (0..18 squared, thin ones to 70000) x contents; 15 sizes beyond 2^30 pixels; every other function x sizes x channel counts 0..5 x parameter lists with zero, negative, huge, infinite and NaN values and missing pointers; all short colour strings; damaged EXIF files")
def build_amalgamation(run, bdir):
    """generates flatcv.c/.h with the repository's makefile in a scratch copy and builds it next to the modular library"""
    import shutil
    R, V, sh = run.REPO, run.VERIF, run.sh
    am = bdir + "/am"
    shutil.rmtree(am, ignore_errors=True)
    run.os.makedirs(am + "/gen"); run.os.makedirs(am + "/alone")
    for d in ("src", "include"):
        shutil.copytree(f"{R}/{d}", f"{am}/gen/{d}")
    for f in ("makefile", "license.txt"):
        shutil.copy(f"{R}/{f}", f"{am}/gen/{f}")
    api = [w[2:-1] for w in run.re.findall(r"X\\(\w+\\)", open(V + "/src/ops.hpp").read()) if w[2:-1] != "f"]
    tail = "void *api_%s[] = {" + ", ".join("(void *)" + f for f in api) + "};\n"
    layout = ("#include <stddef.h>\n#include <stdio.h>\nint main(void) { printf(\"%zu %zu %zu %zu  %zu %zu %zu %zu  %zu %zu\\n\", sizeof(Point2D), sizeof(Corners), sizeof(Matrix3x3), sizeof(CornerPeaks),"
              " offsetof(Point2D, y), offsetof(Corners, br_y), offsetof(Matrix3x3, m21), offsetof(CornerPeaks, count), offsetof(Corners, tr_x), offsetof(Matrix3x3, m10)); return 0; }\n")
    hdrs = "".join(f"#include \"{run.os.path.basename(h)}\"\n" for h in sorted(run.glob.glob(R + "/include/*.h")) if "stb_image" not in h)
    std = "#include <stdbool.h>\n#include <stdint.h>\n#include <stdio.h>\n"
    def w(p, t): open(p, "w").write(t)
    w(am + "/alone/one.c", '#include "flatcv.h"\n#include "flatcv.h"\n' + tail % "one")
    w(am + "/alone/two.c", '#include "flatcv.h"\n' + tail % "two" + layout)
    w(am + "/mod.c", std + hdrs + tail % "mod" + layout)
    fl = ["-O2", "-fPIC", "-ffp-contract=off"]
    run.compile_all([["gcc", "-w", *fl, "-shared", "-Wl,-Bsymbolic", f"-I{R}/include", *run.lib_sources(), "-lm", "-o", bdir + "/modular.so"],
                     ["gcc", "-w", "-aux-info", bdir + "/protos.mod", "-fsyntax-only", f"-I{R}/include", am + "/mod.c"],
                     ["gcc", "-w", f"-I{R}/include", am + "/mod.c", *run.lib_sources(), "-lm", "-o", am + "/layout_mod"],
                     ["g++", "-std=c++17", "-w", "-O2", "-g1", f"-I{R}/include", f"-I{V}/src", "-c", V + "/src/c24.cpp", "-o", bdir + "/h.o"]])
    run.compile_all([["g++", bdir + "/h.o", "-ldl", "-lm", "-o", bdir + "/check"]])
    err = ""
    for cmd, cwd in ((["make", "-B", "-s", "CC=gcc", "flatcv.h", "flatcv.c"], am + "/gen"),
                     (["cp", "../gen/flatcv.h", "../gen/flatcv.c", "."], am + "/alone"),
                     (["gcc", "-Wall", "-Wextra", "-Wpedantic", *fl, "-shared", "-Wl,-Bsymbolic", "flatcv.c", "-lm", "-o", bdir + "/amalgamation.so"], am + "/alone"),
                     (["gcc", "-Werror=implicit-function-declaration", "flatcv.c", "one.c", "two.c", "-lm", "-o", am + "/layout_am"], am + "/alone"),
                     (["gcc", "-aux-info", bdir + "/protos.am", "-fsyntax-only", "two.c"], am + "/alone"),
                     (["make", "-s", "CC=gcc", "flatcv"], am + "/gen"),   # the tool on top of the amalgamation
                     (["sh", "-c", f"{am}/layout_mod > {bdir}/layout.mod; {am}/layout_am > {bdir}/layout.am"], am)):
        rc, out = sh(cmd, cwd=cwd)
        if rc: err += " ".join(cmd) + "\n" + out[-1500:]; break
    w(bdir + "/am.error", err)
    return [bdir + "/check"]
CHECKS["C24"] = dict(build=build_amalgamation,
   technique="exhaustive differential execution of both build configurations (modular sources, generated amalgamation) over a bounded operation and input space",
   bounds="every call of a table of about 100 plus about 2600 parameter settings x 110 pictures (all sizes up to 9x9 and larger ones), about 7500 calls with large parameters and pictures, document detection on 8 pictures; every public prototype and type layout")

def build_haskell(run, bdir):
    """the bindings with c2hs and ghc in a scratch copy, on the amalgamation generated from the tree under test"""
    import shutil
    R, V, sh = run.REPO, run.VERIF, run.sh
    g = bdir + "/hs"
    shutil.rmtree(g, ignore_errors=True)
    run.os.makedirs(g + "/gen"); run.os.makedirs(g + "/o")
    for d in ("src", "include"): shutil.copytree(f"{R}/{d}", f"{g}/gen/{d}")
    for f in ("makefile", "license.txt"): shutil.copy(f"{R}/{f}", f"{g}/gen/{f}")
    shutil.copytree(f"{R}/bindings/flatcv-hs/src", g + "/src")
    cabal = open(f"{R}/bindings/flatcv-hs/flatcv.cabal").read()
    lib = cabal.split("\ntest-suite")[0].split("\nlibrary")[1]
    m = run.re.search(r"default-extensions:((?:\s+[A-Z]\w*,?)*)", lib)
    exts = ["-X" + e.strip(",") for e in (m.group(1).split() if m else []) if e[0].isupper() and ":" not in e]
    def step(cmd, cwd):
        rc, out = sh(cmd, cwd=cwd)
        if rc: raise run.BuildError(" ".join(cmd) + "\n" + out[-3000:])
    from concurrent.futures import ThreadPoolExecutor
    def c_side():
        jobs, objs = [], []
        for s in run.lib_sources():
            o = f"{bdir}/l_{run.os.path.basename(s)}.o"; objs.append(o)
            jobs.append(["gcc", "-w", "-O1", "-g", "-ffp-contract=off", f"-I{R}/include", "-c", s, "-o", o])
        jobs.append(["g++", "-std=c++17", "-w", "-O2", "-g1", f"-I{R}/include", f"-I{V}/src", "-c", V + "/src/c25.cpp", "-o", bdir + "/h.o"])
        run.compile_all(jobs)
        run.compile_all([["g++", bdir + "/h.o", *objs, "-lm", "-o", bdir + "/check"]])
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(c_side)
        step(["make", "-B", "-s", "CC=gcc", "flatcv.h", "flatcv.c"], g + "/gen")
        step(["gcc", "-w", "-O1", "-ffp-contract=off", "-Dmalloc=shim_malloc", "-Dcalloc=shim_calloc", "-Drealloc=shim_realloc", "-Dfree=shim_free",
              "-c", "gen/flatcv.c", "-o", "o/flatcv_impl.o"], g)
        step(["gcc", "-O1", "-c", V + "/hs/shim.c", "-o", "o/shim.o"], g)
        todo = sorted(run.glob.glob(g + "/src/**/*.chs", recursive=True))
        while todo:   # modules may import one another
            left = []
            for f in todo:
                rel = run.os.path.relpath(f, g + "/src")
                rc, out = sh(["c2hs", "-C", "-I../gen", "-i", ".", "-t", ".", rel], cwd=g + "/src")
                if rc: left.append(f)
            if len(left) == len(todo): raise run.BuildError("c2hs\n" + out[-3000:])
            todo = left
        stubs = sorted(run.glob.glob(g + "/src/**/*.chs.c", recursive=True))
        for i, f in enumerate(stubs):
            step(["gcc", "-w", "-O1", f"-I{g}/gen", f"-I{g}/src", "-c", f, "-o", f"o/stub{i}.o"], g)
        step(["ghc", "-v0", "-O0", "-XHaskell2010", *exts, "-isrc", "-package", "vector", "-package", "text", "-package", "containers", "-outputdir", "o/hs", V + "/hs/Server.hs", "o/flatcv_impl.o", "o/shim.o", *[f"o/stub{i}.o" for i in range(len(stubs))],
              "-lm", "-optl-Wl,--wrap=malloc", "-optl-Wl,--wrap=free", "-rtsopts", "-o", bdir + "/hs_server"], g)
        fut.result()
    return [bdir + "/check"]
CHECKS["C25"] = dict(build=build_haskell,
   technique="explicit-state exploration of the real bindings: every wrapper call and every history of up to 3 calls, garbage collections and drops, compared with direct C calls",
   bounds="all 38 vector wrappers, all 16 pointer wrappers and the Storable instances; about 400 parameter settings x all sizes up to 6x6 and 3 larger ones x 3 contents; about 6000 calls on pictures up to 700x500 and 70000x3; all pairs of calls x 8 collection/drop choices, all triples")
CHECKS["C26"] = dict(build=lambda run, b: build_redirected(run, b, ["c26.cpp"], flags=("-O2", "-g1"), san=()),
   technique="exhaustive enumeration of operations and huge image shapes on the real code, executed in full on images whose uniform inner part is mapped to a few shared pages, with the same corners in a small image as reference and inaccessible pages around every buffer",
   bounds="34 operations x 3 square shapes (2^30, 2^31 and 2^32 pixels) and 10 thin ones (2^28 x 4, 2^30 x 1, 2^31 x 1, 2^31 x 2, 2^32 x 1 and upright; quick: 13 shapes restricted by cost), histograms of 3 channel counts, circles and disks of 3 radii in every corner of 7 shapes x 3 channel counts, corner peaks on 4 shapes, borders of 16400 to 32769 pixels around 3 pictures",
   assumptions=["pixels of the inner part of the image, which are all equal, are computed but not compared", "circle and disk centres below 2 * 10^9 (the coordinates are int32_t)", "watershed (needs a sweep of the image per layer) and document detection are not run at this size; their arithmetic is read only"])
