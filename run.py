#!/usr/bin/env python3
"""run.py <property id>: decides one property on the current working tree of the repository.
run.py replay <file>: repeats the witness of a violation.   run.py setup: compiles the drivers."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, traceback
import vlib, install
from vlib import Libs, Outcome, HarnessError, driver, dictionary, execute

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
SCALE = os.environ.get("PV_SCALE", "1")

RULE = ("seeded random cases from %s strata of inputs (box, unit circle, around 0, 1 and -1, switch-over curves, literals of the sources and "
        "their ulp neighbours, axes, cut, log plane up to the largest and down to the smallest numbers, bit patterns); non-trivial: finite "
        "argument whose result the oracle judged (true value representable); distinct by hash of function, order and argument bits")


# the cheap checks make more calls per run, so that quick runs take 5 to 20 s, thorough ones up to 10 min
MORE = {"C01": 4, "C02": 4, "C03": 2, "C04": 8, "C05": 3, "C06": 2, "C07": 4, "C08": 4, "C10": 4, "C11": 6, "C12": 3, "C13": 3, "C15": 2, "C16": 3,
         "C18": 4, "C19": 2, "C23": 3, "C24": 2}


def args(prop, scale=1.0, threads=8):
    scale *= MORE.get(prop, 1)
    return ["--prop", prop, "--seed", str(SEED), "--tier", TIER, "--scale", str(scale*float(SCALE)), "--threads", str(threads), "--dict", dictionary(), "--switches", vlib.switches()]


def plain(part):
    def go(o):
        o.rule = RULE % 18
        execute(o, driver(Libs(), [part], name=part[:-4]), args(o.prop))
    return go


ENGINES = {p: plain("p_acc.cpp") for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08")}
ENGINES.update({p: plain("p_meta.cpp") for p in ("C09", "C10", "C11", "C12", "C13", "C19", "C22", "C23")})


def helpers(o):
    """zeta, eta, ... and complex logarithms; the latter are not part of the interface and may be absent"""
    o.rule = "every order in [-1200, 1200), random and boundary 64-bit orders; random complex numbers next to -1, 0, 1, the circle |1 + z| = 1 and the axes"
    flags = ()
    probe = os.path.join(vlib.BUILD, "probe-log-%d.cpp" % os.getpid())
    os.makedirs(vlib.BUILD, exist_ok=True)
    with open(probe, "w") as f:
        f.write('#include "log.hpp"\ntemplate <class T> T f() { std::complex<T> z(1, 1); return std::real(polylogarithm::log1p(z) + polylogarithm::pos_log(z)); }\n'
                'int main() { return f<float>() + f<double>() + f<long double>() > 100; }\n')
    if vlib.run([vlib.CXX, "-std=c++11", "-I" + vlib.REPO + "/src/cpp", "-fsyntax-only", probe], ok=None).returncode == 0:
        flags = ("-DHAVE_LOG_HPP",)
    os.remove(probe)
    execute(o, driver(Libs(), ["p_help.cpp"], name="p_help", part_flags=flags), args(o.prop))


SAN = "-g -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all"
SANENV = {"ASAN_OPTIONS": "abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:use_sigaltstack=0:detect_leaks=0:detect_stack_use_after_return=1",
          "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=1:handle_abort=0:handle_segv=0"}


def memory(o):
    """Three detectors watch hostile inputs: ASan + UBSan of gcc, those of clang (thorough), memcheck on an uninstrumented build"""
    o.rule = ("all orders in [-1300, 1300] times points of every region, random 64-bit orders, arguments from special values, any bit pattern, subnormals, "
              "largest numbers and literals; every call counts, distinct by hash of function, order and argument bits")
    a = args(o.prop, threads=3)
    gcc = Libs("san-gcc", btype="Debug", cflags="-O1 " + SAN, cxxflags="-O1 -D_GLIBCXX_ASSERTIONS " + SAN, fflags="-O1 -fcheck=bounds,mem,pointer,do,array-temps,bits " + SAN)
    vg = Libs("memcheck", btype="Debug", cflags="-O0 -g")
    exes = [driver(gcc, ["p_san.cpp"], name="p_san", link=("-fsanitize=address,undefined",)), driver(vg, ["p_san.cpp"], name="p_san")]
    jobs = [lambda: execute(o, exes[0], a, environ=SANENV, label="[asan+ubsan gcc] ")]
    if TIER == "thorough":
        cl = vlib.Direct("san-clang", cc=CL, cxx=CLXX, cflags="-O1 " + SAN + CMPLX, cxxflags="-O1 -std=c++11 " + SAN, fflags="-O1")
        exe = driver(cl, ["p_san.cpp"], name="p_san", link=("-fsanitize=address,undefined",), ld="/usr/bin/clang++")
        jobs.append(lambda: execute(o, exe, args(o.prop, 0.5, 3), environ=SANENV, label="[asan+ubsan clang] "))
    w = ["/usr/bin/valgrind", "-q", "--error-limit=no", "--log-file=/dev/null"]
    n = 5
    for i in range(n):
        b = args(o.prop, 0.25, threads=1)
        b[b.index("--seed") + 1] = str(SEED*1000 + i)
        jobs.append(lambda b=b, i=i: execute(o, exes[1], b, environ={"PV_ORDERS": "60"}, label="[memcheck] ", tag=str(i), wrap=w, timeout=880 if TIER == "quick" else 20000))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()
    o.notes["detectors"] = ["gcc 13 AddressSanitizer + UndefinedBehaviorSanitizer (with float-cast-overflow; -fcheck=bounds,mem,pointer,do,bits for Fortran)", "valgrind memcheck, results checked for definedness after every call"] + (["clang 18 AddressSanitizer + UndefinedBehaviorSanitizer"] if TIER == "thorough" else [])


def pure(o):
    o.rule = "every call of the workloads counts (histories, arguments by reference, environments, memory comparisons); distinct by hash of function, order and argument bits"
    so = Libs("shared", shared=True, ldflags="-Wl,-z,now")
    execute(o, driver(so, ["p_pure.cpp"], name="p_pure", link=("-Wl,-z,now",)), args(o.prop))
    o.assumptions.append("library memory written during a first warm-up call of each function (lazy initialisation) is not held against the property")


def work(o):
    o.rule = "as for C14, more orders and arguments on the switch-over circles; every call counts, distinct by hash of function, order and argument bits"
    c = "-O1 -g -fsanitize-coverage=trace-pc"
    execute(o, driver(Libs("cov", btype="Debug", cflags=c, ldflags="-Wl,--unresolved-symbols=ignore-all"), ["p_work.cpp"], name="p_work"), args(o.prop))
    o.assumptions.append("work is counted in basic blocks of the libraries; a call of libm or the compiler's run-time library counts as part of the block it is in")


def threads(o):
    """ThreadSanitizer sees every access of the three libraries; plain builds run at full speed for the comparison of results"""
    o.rule = "calls of every function in every region and random hostile calls, made by 16 threads at once; distinct by hash of function, order and argument bits"
    c = "-O1 -g -fsanitize=thread"
    ts = Libs("tsan", btype="Debug", cflags=c)
    exe = [driver(ts, ["p_thread.cpp"], name="p_thread", link=("-fsanitize=thread",)), driver(Libs(), ["p_thread.cpp"], name="p_thread")]
    wrap = []
    if vlib.run([exe[0], "call", "c:li2", "2", "0x1p-1", "0x0p+0", "only"], ok=None).returncode != 0:
        wrap = ["/usr/bin/setarch", "-R"]           # some address space layouts do not suit ThreadSanitizer
    reports = 0
    many = 10 if TIER == "thorough" else 1
    for i in range(2*many):
        log = os.path.join(vlib.BUILD, "tsan-%d-%d" % (os.getpid(), i))
        a = args(o.prop)
        a[a.index("--seed") + 1] = str(SEED*100 + i)
        e = {"TSAN_OPTIONS": "halt_on_error=0:exitcode=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:use_sigaltstack=0:report_signal_unsafe=0:history_size=4:log_path=" + log, "PV_CALLS": "3000", "PV_REPEAT": "2"}
        execute(o, exe[0], a, environ=e, label="[tsan] ", tag=str(i), wrap=wrap)
        for f in sorted(os.listdir(vlib.BUILD)):
            if f.startswith(os.path.basename(log) + "."):
                text = open(os.path.join(vlib.BUILD, f), errors="replace").read()
                os.remove(os.path.join(vlib.BUILD, f))
                for r in text.split("==================\n"):
                    if "WARNING: ThreadSanitizer" not in r:
                        continue
                    reports += 1
                    frames = re.findall(r"#\d+ (\S+) (?:.*/)?(\S+?):\d+", r)
                    fr = next((x for x in frames if "src/" in r and not x[1].startswith(("core", "p_thread", "api", "shim"))), frames[0] if frames else ("?", "?"))
                    kind = re.search(r"WARNING: ThreadSanitizer: (.*?) \(", r)
                    o.violate("[tsan] %s in %s" % (kind.group(1) if kind else "report", fr[0]), "[tsan] %s in %s (%s), threads call the library without synchronisation" % (kind.group(1) if kind else "report", fr[0], fr[1]), report=r[:6000])
    for i in range(3*many):
        a = args(o.prop)
        a[a.index("--seed") + 1] = str(SEED*100 + 50 + i)
        execute(o, exe[1], a, environ={"PV_CALLS": "20000", "PV_REPEAT": "10"}, label="[plain] ", tag=str(i))
    o.notes["tsan_reports"] = reports


def flags(o):
    o.rule = "every call of the hostile workload with ordinary arguments counts (parts zero or between 1e-150 and 1e150, orders from -100) whose result is finite; distinct by hash of function, order and argument bits"
    for label, libs in (("", Libs()), ("[Release] ", Libs("b-release", btype="Release")), ("[Debug] ", Libs("b-debug", btype="Debug"))):
        execute(o, driver(libs, ["p_env.cpp"], name="p_env"), args(o.prop, 1 if not label else 0.5), label=label)
    o.assumptions.append("builds with gcc and gfortran: clang does not preserve the exception flags by default")


def modes(o):
    o.rule = RULE % 18 + "; each call made in one of four modes: rounding upward, downward, towards zero, subnormals flushed to zero"
    execute(o, driver(Libs(), ["p_env.cpp"], name="p_env"), args(o.prop))
    o.assumptions.append("the C library's elementary functions keep their accuracy in the rounding modes other than to nearest (glibc does)")


def signals(o):
    o.rule = "calls of every function in every region and random ones, each interrupted after every instruction by a signal handler that calls the same or another function, or abandoned at one of them; distinct by hash of function, order and argument bits"
    jobs = []
    for i, libs in enumerate((Libs(), Libs("b-release-so", btype="Release", shared=True))):
        exe = driver(libs, ["p_sig.cpp"], name="p_sig", link=("-Wl,-z,now",))
        for k in range(4):
            a = args(o.prop, 0.15, threads=1)
            a[a.index("--seed") + 1] = str(SEED*1000 + 10*i + k)
            jobs.append(lambda exe=exe, a=a, i=i, k=k: execute(o, exe, a, label="[Release, shared] " if i else "", tag="%d%d" % (i, k)))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()
    o.assumptions.append("x86-64: the trap flag delivers a signal after each instruction; the C library's functions are reentrant")


def lives(o):
    o.rule = "calls of every function in every region and random ones, repeated at each of the moments and surroundings listed under observed; distinct by hash of function, order and argument bits"
    sd = vlib.shims()
    api = [vlib.obj("api.cpp", ("-I" + sd, "-I" + vlib.REPO + "/src/cpp"), [os.path.join(vlib.V, "src/api.hpp"), sd + "/api_table.inc"] + vlib.headers("cpp")),
           vlib.obj(sd + "/shim_c.c", ("-I" + vlib.REPO + "/src/c",), vlib.headers("c")), vlib.obj(sd + "/shim_f.f90", ("-I" + vlib.REPO + "/src/fortran",), vlib.headers("fortran"))]
    own = [os.path.join(vlib.V, "src", h) for h in ("api.hpp", "life.hpp")]
    host, plugin, dl = vlib.obj("life_host.cpp", (), own), vlib.obj("life_host.cpp", ("-DPLUGIN",), own), vlib.obj("life_dl.cpp", (), own)

    def link(libs, name, objs, flags):
        exe = os.path.join(libs.dir, name + "-" + vlib.sha(*objs, *flags))
        with vlib.Lock("link-" + vlib.sha(exe)):
            if not os.path.exists(exe):
                vlib.run([vlib.CXX, "-o", exe + ".tmp"] + objs + libs.link() + list(flags))
                os.rename(exe + ".tmp", exe)
        return exe

    def build(libs):
        return libs.build()
    static, debug, shared = Libs(), Libs("b-debug", btype="Debug"), Libs("b-release-so", btype="Release", shared=True)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        list(ex.map(build, (static, debug, shared)))
    now = ("-Wl,-z,now",)
    hosts = [("", link(static, "life", [host] + api, now)), ("[Debug] ", link(debug, "life", [host] + api, now)), ("[Release, shared] ", link(shared, "life", [host] + api, now))]
    plug = link(shared, "life_plugin", [plugin] + api, ("-shared",) + now)
    loader = os.path.join(shared.dir, "life_dl-" + vlib.sha(dl))
    with vlib.Lock("link-" + vlib.sha(loader)):
        if not os.path.exists(loader):
            vlib.run([vlib.CXX, "-o", loader + ".tmp", dl, "-lpthread", "-ldl"])
            os.rename(loader + ".tmp", loader)
    scratch = tempfile.mkdtemp(prefix="life-", dir=vlib.BUILD)
    try:
        execute(o, driver(Libs(), ["p_life.cpp"], name="p_life"), args(o.prop), environ={
            "PV_LIFE_DIR": scratch, "PV_LIFE_HOSTS": ";".join("=".join(h) for h in hosts), "PV_LIFE_DL": ";".join([loader, plug] + [shared.lib(l) for l in ("cpp", "c", "fortran")])})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    o.assumptions.append("Linux with glibc; the C library's elementary functions work at these moments and make no system calls")


CL, CLXX = "/usr/bin/clang", "/usr/bin/clang++"
# the C library defines these C11 macros for gcc only
CMPLX = " '-DCMPLX(a,b)=__builtin_complex((double)(a),(double)(b))' '-DCMPLXF(a,b)=__builtin_complex((float)(a),(float)(b))' '-DCMPLXL(a,b)=__builtin_complex((long double)(a),(long double)(b))'"


def configurations():
    """(name, how the libraries are built, fast-math)"""
    D = vlib.Direct
    def both(f):
        return dict(cflags=f, cxxflags=f, fflags=f)
    q = [("gcc -O0, C11, C++11", D("b-gcc-O0", cflags="-O0 -std=c11", cxxflags="-O0 -std=c++11", fflags="-O0"), False),
         ("gcc -O3, C17, C++17", D("b-gcc-O3", cflags="-O3 -std=c17", cxxflags="-O3 -std=c++17", fflags="-O3"), False),
         ("gcc -Os -funsigned-char, gnu11, C++20", D("b-gcc-Os", cflags="-Os -std=gnu11 -funsigned-char", cxxflags="-Os -std=c++20 -funsigned-char", fflags="-Os"), False),
         ("gcc -Ofast, C++14", D("b-gcc-Ofast", cflags="-Ofast", cxxflags="-Ofast -std=c++14", fflags="-Ofast"), True),
         ("gcc -O2 -ffast-math, C++11", D("b-gcc-fm", cflags="-O2 -ffast-math", cxxflags="-O2 -ffast-math -std=c++11", fflags="-O2 -ffast-math"), True),
         ("gcc -O2 -march=native", D("b-gcc-native", cflags="-O2 -march=native", cxxflags="-O2 -march=native -fno-rtti -fno-exceptions", fflags="-O2 -march=native"), False),
         ("gcc -O3 -flto -D_GLIBCXX_ASSERTIONS -D_FORTIFY_SOURCE=3, C2x, C++23", D("b-gcc-lto", cflags="-O3 -flto -ffat-lto-objects -std=c2x -D_FORTIFY_SOURCE=3", cxxflags="-O3 -flto -ffat-lto-objects -std=c++23 -D_GLIBCXX_ASSERTIONS -D_FORTIFY_SOURCE=3", fflags="-O3"), False),
         ("clang -O0, C++11", D("b-clang-O0", cc=CL, cxx=CLXX, cflags="-O0" + CMPLX, cxxflags="-O0 -std=c++11", fflags="-O0"), False),
         ("clang -O3, C++17", D("b-clang-O3", cc=CL, cxx=CLXX, cflags="-O3 -std=c17" + CMPLX, cxxflags="-O3 -std=c++17", fflags="-O1"), False),
         ("clang -Ofast, C++20", D("b-clang-Ofast", cc=CL, cxx=CLXX, cflags="-Ofast" + CMPLX, cxxflags="-Ofast -std=c++20", fflags="-O1 -ffast-math"), True),
         ("cmake Release, shared", Libs("b-release-so", btype="Release", shared=True), False),
         ("cmake MinSizeRel, static", Libs("b-minsize", btype="MinSizeRel"), False)]
    if TIER == "thorough":
        for comp, cc, cxx in (("gcc", vlib.CC, vlib.CXX), ("clang", CL, CLXX)):
            for opt in ("-O0", "-O1", "-O2", "-O3", "-Os", "-O2 -ffast-math", "-O3 -ffast-math", "-O2 -flto" if comp == "gcc" else "-O2 -fno-builtin", "-O3 -funroll-loops", "-O2 -fno-math-errno -fno-trapping-math", "-O3 -march=native", "-O2 -march=native -ffp-contract=off"):
                for cs, cpps in (("c11", "c++11"), ("gnu17", "gnu++20")):
                    q.append(("%s %s %s %s" % (comp, opt, cs, cpps), D("b-" + re.sub("[^a-zA-Z0-9]+", "", comp + opt + cs + cpps), cc=cc, cxx=cxx, cflags="%s -std=%s" % (opt, cs) + (CMPLX if comp == "clang" else ""), cxxflags="%s -std=%s" % (opt, cpps), fflags=opt), "fast" in opt))
        for f in ("-O2 -frounding-math -fsignaling-nans", "-O2 -ffloat-store", "-O3 -march=native -ffp-contract=fast", "-O2 -fstack-protector-all -fwrapv -fcf-protection=full"):
            q.append(("gcc " + f, D("b-" + re.sub("[^a-zA-Z0-9]+", "", f), **both(f)), False))
        # not gcc, which calls __addvdi3 for -ftrapv before it is known that the sum is needed
        q.append(("clang -O2 -ftrapv", D("b-clang-trapv", cc=CL, cxx=CLXX, cflags="-O2 -ftrapv" + CMPLX, cxxflags="-O2 -ftrapv -std=c++11", fflags="-O2 -frecursive -fdefault-real-8 -fdefault-double-8 -fdefault-integer-8"), False))
        x87 = "-O2 -mfpmath=387 -fexcess-precision=standard"
        q.append(("gcc " + x87, D("b-x87", cflags=x87 + " -std=c11", cxxflags=x87 + " -std=c++11", fflags="-O2"), False))
        q.append(("gcc -O1 -pedantic-errors, libstdc++ debug mode, Fortran -fimplicit-none -finit-real=snan -fcheck=all,no-recursion",
                  D("b-pedantic", cflags="-O1 -std=c11 -pedantic-errors -funsigned-char", cxxflags="-O1 -std=c++11 -D_GLIBCXX_DEBUG -D_GLIBCXX_CONCEPT_CHECKS -pedantic-errors -funsigned-char",
                    fflags="-O1 -fimplicit-none -finit-real=snan -finit-integer=-77 -fcheck=all,no-recursion"), False))
        for bt in ("Debug", "Release", "RelWithDebInfo"):
            for sh in (False, True):
                q.append(("cmake %s %s" % (bt, "shared" if sh else "static"), Libs("b-%s-%d" % (bt, sh), btype=bt, shared=sh), False))
    return q


def builds(o):
    o.rule = "per configuration: arguments as for C01-C08 (fast-math: ordinary ones only); signed zeros, NaN, infinities and the cut without fast-math; distinct by hash of function, order and argument bits"
    def one(c):
        name, libs, fast = c
        try:
            libs.build()
        except HarnessError as e:
            return name, None, fast, str(e)
        try:
            return name, driver(libs, ["p_build.cpp"], name="p_build"), fast, None
        except HarnessError as e:                # it links with the default configuration
            return name, None, fast, str(e)
    driver(Libs(), ["p_build.cpp"], name="p_build")           # the default configuration compiles, or no check can run
    cs = configurations()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        made = list(ex.map(one, cs))
    for name, exe, fast, err in made:
        if err:
            o.violate("does not build: " + name, "%s: the libraries do not build: %s" % (name, err[-1500:]))
            continue
        execute(o, exe, args(o.prop, 0.3 if TIER == "thorough" else 1), environ={"PV_FAST": "1"} if fast else {}, label="[%s] " % name)
    # the same objects on an older processor, for which the C library selects other elementary functions
    name = "cmake RelWithDebInfo, processor without AVX2 and FMA"
    execute(o, driver(Libs(), ["p_build.cpp"], name="p_build"), args(o.prop, 1), environ={"GLIBC_TUNABLES": "glibc.cpu.hwcaps=-AVX2,-FMA,-FMA4,-AVX"}, label="[%s] " % name)
    o.notes["configurations"] = [m[0] for m in made] + [name]


def wide_objects():
    """(label, shared object): the C and C++ libraries compiled for another long double"""
    D = vlib.Direct
    san = "-O1 " + SAN

    def both(name, f, cl=False):
        return D(name, **(dict(cc=CL, cxx=CLXX) if cl else {}), cflags=f + (CMPLX if cl else ""), cxxflags=f + " -std=c++11", fflags="-O0")
    Q, W = " -mlong-double-128", " -mlong-double-64"
    q = [("gcc, quadruple", both("w-gcc-128", "-O2" + Q)), ("clang, quadruple", both("w-clang-128", "-O2" + Q, True)),
         ("gcc, quadruple, ASan + UBSan", both("w-san-128", san + Q)), ("gcc, double", both("w-gcc-64", "-O2" + W)), ("gcc, double, ASan + UBSan", both("w-san-64", san + W))]
    if TIER == "thorough":
        for n, f in (("O0", "-O0"), ("O3", "-O3 -march=native"), ("Os", "-Os -funsigned-char"), ("Rel", "-O3 -DNDEBUG")):
            for cl in (False, True):
                for l, w in (("quadruple", Q), ("double", W)):
                    q.append(("%s %s, %s" % ("clang" if cl else "gcc", f.replace("=", " "), l), both("w-%s-%d%s" % (n, cl, w[-3:]), f + w, cl)))

    def make(x):
        label, libs = x
        try:
            libs.build()
        except HarnessError as e:
            return label, None, str(e)
        f = tuple(libs.flags["cpp"])
        w = tuple(a for a in f if a.startswith("-mlong"))
        h = vlib.obj("w_host.cpp", f + ("-std=gnu++17", "-I" + vlib.REPO + "/src/cpp"), vlib.headers("cpp"), cc=libs.cxx, tag="-" + libs.name)
        s = vlib.obj("w_shim.c", w + ("-fno-builtin",))
        so = os.path.join(libs.dir, "wide-%s.so" % vlib.sha(h, s))
        with vlib.Lock("link-" + vlib.sha(so)):
            if not os.path.exists(so):
                try:
                    vlib.run([vlib.CXX, "-shared", "-Wl,-z,now", "-Wl,--version-script=" + os.path.join(vlib.V, "src/w_host.map"), "-o", so + ".tmp", h, s, libs.lib("c"), libs.lib("cpp"), "-lquadmath", "-lm"])
                except HarnessError as e:
                    return label, None, str(e)
                os.rename(so + ".tmp", so)
        return label, so, None
    vlib.shims()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        return list(ex.map(make, q))


def wide_runs(objects):
    """the sanitized objects need a driver with the sanitizers' run-time libraries"""
    for san in (False, True):
        link = ("-fsanitize=address,undefined",) if san else ()
        yield (driver(Libs(), ["p_wide.cpp"], name="p_wide" + "-san"*san, link=link),
               dict(SANENV if san else {}, PV_WIDE=";".join("%s=%s" % (l, so) for l, so, e in objects if so and ("ASan" in l) == san)))


def wide(o):
    o.rule = ("seeded random arguments with all bits of the mantissa set at random: disk, moduli over the exponent range, next to the unit circle, the switch-over circles, -1, 0, 1 and the axes, on the axes and the cut, literals of the sources; "
              "finite results compared; distinct by hash of function, long double format and leading argument bits")
    driver(Libs(), ["p_wide.cpp"], name="p_wide")             # the default configuration compiles, or no check can run
    objects = wide_objects()
    for label, so, err in objects:
        if err:
            o.violate("does not build: " + label, "%s: the libraries do not build: %s" % (label, err[-1500:]))
    for exe, e in wide_runs(objects):
        if e["PV_WIDE"]:
            execute(o, exe, args(o.prop, 0.4 if "-san-" in exe else 1), environ=e, tag=exe[-16:])
    o.notes["long double formats"] = [x[0] for x in objects]
    o.assumptions.append("the other long double types are those of gcc's and clang's -mlong-double-128 and -mlong-double-64 with libquadmath's and the double elementary functions; no machine that has them natively is present")


ENGINES["C30"] = wide
ENGINES["C20"] = builds
ENGINES["C21"] = lambda o: install.consumers(o, TIER)
ENGINES["C27"] = lambda o: install.extracted(o, TIER)
ENGINES.update({"C25": flags, "C26": modes, "C28": signals, "C29": lives})
ENGINES.update({"C17": threads, "C14": memory, "C15": pure, "C16": work})
ENGINES.update({"C18": helpers, "C24": helpers})


def main():
    if sys.argv[1] == "setup":
        for part in ("p_acc.cpp", "p_meta.cpp", "p_env.cpp"):
            driver(Libs(), [part], name=part[:-4])
        return 0
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2]))
        print("%s: %s" % (r["key"], r["text"]))
        if r.get("call") and r["call"].get("wide"):
            c = r["call"]
            for exe, e in wide_runs(wide_objects()):
                if c["wide"] + "=" in e["PV_WIDE"]:
                    e["PV_WIDE_ONE"] = "%s;%s;%s;%s" % (c["wide"], c["fn"], c["re"], c["im"])
                    return subprocess.run([exe, "--prop", "C30"], env=vlib.env(**e)).returncode
        elif r.get("call") and r.get("exe"):
            c = r["call"]
            part = os.path.basename(r["exe"]).rsplit("-", 1)[0]
            exe = os.path.join(vlib.V, r["exe"])
            if not os.path.exists(exe):
                exe = driver(Libs(), ["p_acc.cpp"], name="p_acc")
            return subprocess.run([exe, "call", c["fn"], c["n"], c["re"], c["im"]]).returncode
        return 0
    prop = sys.argv[1]
    vlib.clean_old()
    o = Outcome(prop, TIER, SEED)
    try:
        ENGINES[prop](o)
        return o.finish()
    except HarnessError as e:
        print("HARNESS ERROR in %s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
