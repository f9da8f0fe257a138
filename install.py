"""C21: programs that use nothing but the installed package."""
import concurrent.futures, itertools, json, os, re, shutil, subprocess
import vlib
from vlib import Libs, HarnessError, run, env, sha, CC, CXX, FC

CL, CLXX = "/usr/bin/clang", "/usr/bin/clang++"
C_HEADERS = ["Cl%d.h" % n for n in range(2, 7)] + ["Li%d.h" % n for n in range(2, 7)]
CPP_HEADERS = ["Cl.hpp", "Li.hpp", "Sl.hpp"] + ["Cl%d.hpp" % n for n in range(1, 7)] + ["Li%d.hpp" % n for n in range(2, 7)]
F_HEADERS = ["Cl%d.fh" % n for n in range(2, 7)] + ["Li%d.fh" % n for n in range(2, 7)]
VAL = json.load(open(os.path.join(vlib.V, "src/consumer_values.json")))
EPS = {"f": 2.0**-23, "": 2.0**-52, "l": 2.0**-52}      # long double results are printed and compared as double
TYPE = {"f": "float", "": "double", "l": "long double"}


def c_functions(h):
    """(name, suffix, complex?, values) of the functions of a C header"""
    k, n = h[:2], h[2]
    if k == "Cl":
        return [("cl" + n + s, s, False, VAL["C"][n]) for s in ("", "l")]
    r = [("li" + n + s, s, False, VAL["R"][n]) for s in (("f", "", "l") if n == "2" else ("",)) if n in "234"]
    return r + [("cli" + n + s, s, True, VAL["Z"][n]) for s in (("f", "", "l") if n == "2" else ("", "l"))]


class Program:
    """The text of a consumer; every result is printed with a tag and compared afterwards."""

    def __init__(self):
        self.expect = {}
        self.lines = []
        self.text = None

    def tag(self, what, eps, *ref):
        t = "r%d" % len(self.expect)
        self.expect[t] = (what, eps, [float(x) for x in ref])
        return t

    def check(self, text):
        bad, seen = [], {}
        if self.text and text.split() != self.text.split():
            bad.append("another output than documented: %r" % next((a for a, b in itertools.zip_longest(text.splitlines(), self.text.splitlines()) if a != b), ""))
        for l in text.splitlines():
            w = l.split()
            if w and w[0] in self.expect:
                seen[w[0]] = [float.fromhex(x) if "x" in x else float(x) for x in w[1:]]
        for t, (what, eps, ref) in self.expect.items():
            if t not in seen:
                bad.append("%s printed no value" % what)
                continue
            m = max(abs(x) for x in ref)
            for got, x in zip(seen[t], ref):
                if not abs(got - x) <= 64*eps*(m + 1):
                    bad.append("%s = %s, expected %s" % (what, seen[t], ref))
                    break
        return bad, len(seen) + (len(self.text.splitlines()) if self.text else 0)


def c_program(hs, p, inc, twice=True, cplusplus=False):
    t = "".join('#include "%s%s"\n' % (inc, h) for h in hs + (hs if twice else []))
    t += "#include <stdio.h>\n"
    body = ""
    for h in hs:
        for name, s, z, vals in c_functions(h):
            T = TYPE[s]
            Z = T + " _Complex" if z else T
            body += "   { %s (*p)(%s) = %s;\n" % (Z, Z, name)
            for v in vals:
                if z:
                    g = p.tag("%s(%s,%s)" % (name, v[0], v[1]), EPS[s], v[2], v[3])
                    body += ('     { union { %s a[2]; %s z; } u; u.a[0] = (%s)%sL; u.a[1] = (%s)%sL; u.z = p(u.z); printf("%s %%a %%a\\n", (double)u.a[0], (double)u.a[1]);\n'
                             '       u.a[0] = (%s)%sL; u.a[1] = (%s)%sL; u.z = %s(u.z); printf("%s %%a %%a\\n", (double)u.a[0], (double)u.a[1]); }\n'
                             % (T, Z, T, dot(v[0]), T, dot(v[1]), g, T, dot(v[0]), T, dot(v[1]), name, g))
                else:
                    g = p.tag("%s(%s)" % (name, v[0]), EPS[s], v[1])
                    body += '     printf("%s %%a\\n", (double)p((%s)%sL)); printf("%s %%a\\n", (double)%s((%s)%sL));\n' % (g, T, dot(v[0]), g, name, T, dot(v[0]))
            body += "   }\n"
    return t, body


def dot(x):
    return x if "." in x else x + ".0"


def cpp_program(hs, p, inc, twice=True):
    t = "".join('#include "%s%s"\n' % (inc, h) for h in hs + (hs if twice else []))
    t += "#include <cstdio>\n"
    body = ""
    for h in hs:
        b = h[:-4]
        if b in ("Cl", "Sl"):
            body += "   { double (*p)(int64_t, double) = polylogarithm::%s;\n" % b
            for n, x, v in VAL[b + "n"]:
                g = p.tag("%s(%d,%s)" % (b, n, x), EPS[""], v)
                body += '     std::printf("%s %%a\\n", p(%d, %s)); std::printf("%s %%a\\n", polylogarithm::%s(%d, %s));\n' % (g, n, dot(x), g, b, n, dot(x))
            body += "   }\n"
        elif b == "Li":
            body += "   { std::complex<double> (*p)(int64_t, const std::complex<double>&) = polylogarithm::Li;\n"
            for n, x, y, a, c in VAL["Lin"]:
                g = p.tag("Li(%d,(%s,%s))" % (n, x, y), EPS[""], a, c)
                body += '     { std::complex<double> z(%s, %s); z = p(%d, z); std::printf("%s %%a %%a\\n", z.real(), z.imag()); }\n' % (dot(x), dot(y), n, g)
            body += "   }\n"
        else:
            k, n = b[:2], b[2]
            for s in ("f", "", "l"):
                T = TYPE[s]
                if k == "Cl" and (s == "" or (s == "l" and n != "1")) or k == "Li" and (n == "2" or (s == "" and n in "34")):
                    body += "   { %s (*p)(%s) = polylogarithm::%s;\n" % (T, T, b)
                    for v in VAL["C" if k == "Cl" else "R"][n]:
                        g = p.tag("%s(%s %s)" % (b, T, v[0]), EPS[s], v[1])
                        body += '     std::printf("%s %%a\\n", (double)p((%s)%sL)); std::printf("%s %%a\\n", (double)polylogarithm::%s((%s)%sL));\n' % (g, T, dot(v[0]), g, b, T, dot(v[0]))
                    body += "   }\n"
                if k == "Li" and (n == "2" or s != "f"):
                    Z = "std::complex<%s>" % T
                    body += "   { %s (*p)(const %s&) = polylogarithm::%s;\n" % (Z, Z, b)
                    for v in VAL["Z"][n]:
                        g = p.tag("%s(complex<%s> %s,%s)" % (b, T, v[0], v[1]), EPS[s], v[2], v[3])
                        body += '     { %s z((%s)%sL, (%s)%sL); z = p(z); std::printf("%s %%a %%a\\n", (double)z.real(), (double)z.imag()); }\n' % (Z, T, dot(v[0]), T, dot(v[1]), g)
                    body += "   }\n"
    return t, body


def f_program(hs, p, inc, name="consumer", program=True):
    """Two units in one file: the same headers may be included by each of them."""
    def unit(head, end, k):
        d, b = "", ""
        for i, h in enumerate(hs):
            if i % 2 != k and len(hs) > 1:
                continue
            d += "  include '%s%s'\n" % (inc, h)
            n = h[2]
            if h[:2] == "Cl":
                for v in VAL["C"][n]:
                    b += "  write(*,'(A,1X,ES26.17E3)') '%s', dcl%s(%sd0)\n" % (p.tag("dcl%s(%s)" % (n, v[0]), EPS[""], v[1]), n, dot(v[0]))
            else:
                if n in "234":
                    for v in VAL["R"][n]:
                        b += "  write(*,'(A,1X,ES26.17E3)') '%s', dli%s(%sd0)\n" % (p.tag("dli%s(%s)" % (n, v[0]), EPS[""], v[1]), n, dot(v[0]))
                for v in VAL["Z"][n]:
                    b += "  z = cdli%s(dcmplx(%sd0,%sd0))\n  write(*,'(A,2(1X,ES26.17E3))') '%s', dble(z), dimag(z)\n" % (n, dot(v[0]), dot(v[1]), p.tag("cdli%s(%s,%s)" % (n, v[0], v[1]), EPS[""], v[2], v[3]))
        return head + "  implicit none\n" + d + "  double complex :: z\n  z = (0d0, 0d0)\n" + b + end
    t = unit("subroutine part_two()\n", "end subroutine\n", 1)
    if program:
        return t + unit("program %s\n" % name, "  call part_two()\nend program\n", 0)
    return t + unit("subroutine %s() bind(C)\n" % name, "  call part_two()\nend subroutine\n", 0)


def install(name, shared, log, extra=(), fortran=True):
    """Configures, builds and installs the whole project the way a user does (tests are built by a user as well, but
    are not part of the package)."""
    d = os.path.join(vlib.BUILD, "r-" + vlib.repo_hash(), "inst-" + name)
    pre = os.path.join(d, "prefix")
    with vlib.Lock("inst-" + name):
        if os.path.exists(d + "/ok"):
            return pre
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        e = env(CC=CC, CXX=CXX, FC=FC)
        run(["cmake", "-S", vlib.REPO, "-B", d + "/b", "-G", "Ninja", "-Wno-dev", "-DCMAKE_INSTALL_PREFIX=" + pre,
             "-DBUILD_SHARED_LIBS=" + ("ON" if shared else "OFF")] + list(extra), env=e)
        run(["ninja", "-C", d + "/b", "polylogarithm_c", "polylogarithm_cpp"] + (["polylogarithm_fortran"] if fortran else []), env=e)
        run(["cmake", "--install", d + "/b"], env=e)
        shutil.rmtree(d + "/b", ignore_errors=True)
        open(d + "/ok", "w").close()
    return pre


def consumers(o, tier):
    o.rule = ("consumer programs: one per header, language, compiler and standard, and all headers together in several orders; every declared function is called directly and "
              "through a pointer of the declared type; distinct: programs times results compared")
    try:
        pres = {"static": install("static", False, o), "shared": install("shared", True, o)}
    except HarnessError as e:
        Libs().build()                      # if the libraries do not build at all there is no answer
        o.violate("installation fails", "the package cannot be installed: " + str(e)[-1500:])
        return
    nof = None
    try:
        nof = install("nofortran", False, o, ["-DCMAKE_Fortran_COMPILER=NOTFOUND"], fortran=False)
    except HarnessError as e:
        o.violate("installation without Fortran fails", "the package cannot be installed without a Fortran compiler: " + str(e)[-1500:])
    work = os.path.join(vlib.BUILD, "inst-work-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        _consumers(o, tier, pres, nof, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _consumers(o, tier, pres, nof, work):
    inc = os.path.join(pres["static"], "include")
    pub = os.path.join(inc, "polylogarithm")
    have = sorted(os.listdir(pub)) if os.path.isdir(pub) else []
    for v, pre in pres.items():
        for l in ("c", "cpp", "fortran"):
            f = "libpolylogarithm_%s.%s" % (l, "so" if v == "shared" else "a")
            if not os.path.exists(os.path.join(pre, "lib", f)):
                o.violate("not installed: " + f, "the installation (%s) has no lib/%s" % (v, f))
    for h in C_HEADERS + CPP_HEADERS + F_HEADERS + ["version.h"]:
        if h not in have:
            o.violate("not installed: " + h, "the installation has no include/polylogarithm/%s" % h)
    ch, ph, fh = ([h for h in hs if h in have] for hs in (C_HEADERS, CPP_HEADERS, F_HEADERS))
    if o.violations:
        return
    o.notes["installed"] = have
    jobs = []      # (name, files {file: text}, commands, run command, Program)
    cs = [("gcc c11", [CC, "-std=c11"]), ("clang c17", [CL, "-std=c17"])]
    xs = [("g++ c++11", [CXX, "-std=c++11"]), ("g++ c++20", [CXX, "-std=c++20"]), ("clang++ c++14", [CLXX, "-std=c++14"])]
    if tier == "thorough":
        cs += [("gcc gnu17 -O3", [CC, "-std=gnu17", "-O3"]), ("gcc c99", [CC, "-std=c99"]), ("clang gnu11 -O2", [CL, "-std=gnu11", "-O2"])]
        xs += [("g++ gnu++17 -O3", [CXX, "-std=gnu++17", "-O3"]), ("g++ gnu++11", [CXX, "-std=gnu++11"]), ("clang++ c++11 -O2", [CLXX, "-std=c++11", "-O2"]), ("clang++ gnu++20", [CLXX, "-std=gnu++20"])]
    count = itertools.count()

    def link(v, *langs):
        pre = pres[v]
        fl = [os.path.join(pre, "lib", "libpolylogarithm_%s.a" % l) for l in langs] if v == "static" else ["-L" + pre + "/lib"] + ["-lpolylogarithm_" + l for l in langs]
        return fl + (["-lgfortran"] if "fortran" in langs else []) + ["-lm"]

    def job(what, files, cmds, p, v="static"):
        jobs.append((what, files, cmds, p, v))

    def add(kind, comp, hs, what, v="static", prefix="polylogarithm/", pre=""):
        i = next(count)
        p = Program()
        a = os.path.join(work, "p%d" % i)
        I = ["-I" + (inc if prefix else pub)]
        if kind == "f":
            job(what, {a + ".f90": f_program(hs, p, prefix)}, [[FC] + I + [a + ".f90"] + ["-o", a + ".x"] + link(v, "fortran")[:1 if v == "static" else 2]], p, v)
            return
        ext = ".c" if kind == "c" else ".cpp"
        head, body = (c_program if kind != "cpp" else cpp_program)(hs, p, prefix)
        text = pre + head + "int main(void)\n{\n" + body + "   return 0;\n}\n"
        job(what, {a + ext: text}, [comp + I + ["-w", a + ext, "-o", a + ".x"] + link(v, "cpp" if kind == "cpp" else "c")], p, v)
    for name, comp in cs:
        for h in ch:
            add("c", comp, [h], "%s alone in C (%s)" % (h, name))
        add("c", comp, ch, "all C headers (%s)" % name)
        add("c", comp, ch[::-1], "all C headers, reverse order, after complex.h (%s)" % name, pre="#include <complex.h>\n#include <math.h>\n")
    for name, comp in xs:
        for h in ch:
            add("cx", comp, [h], "%s alone in C++ (%s)" % (h, name))
        for h in ph:
            add("cpp", comp, [h], "%s alone (%s)" % (h, name))
        for hs, w in ((ch, "all C headers in C++"), (ch[::-1], "all C headers in C++, reverse order")):
            add("cx", comp, hs, "%s (%s)" % (w, name), pre="#include <complex>\n" if hs is ch else "")
        for hs, w in ((ph, "all C++ headers"), (ph[::-1], "all C++ headers, reverse order")):
            add("cpp", comp, hs, "%s (%s)" % (w, name))
    for h in fh:
        add("f", None, [h], "%s alone in Fortran" % h)
    add("f", None, fh, "all Fortran headers")
    add("f", None, fh[::-1], "all Fortran headers, reverse order", v="shared")
    add("c", [CC, "-std=c11"], ch, "all C headers, shared library", v="shared")
    add("cpp", [CXX, "-std=c++11"], ph, "all C++ headers, shared library", v="shared")
    add("c", [CC, "-std=c11"], ch, "all C headers, include directory polylogarithm", prefix="")
    add("cpp", [CXX, "-std=c++11"], ph, "all C++ headers, include directory polylogarithm", prefix="")
    # one program of all three languages; each library is linked completely, in every order
    for v in pres:
        for order in (itertools.permutations(("c", "cpp", "fortran")) if v == "static" or tier == "thorough" else [("c", "cpp", "fortran")]):
            i = next(count)
            a = os.path.join(work, "p%d" % i)
            p = Program()
            h1, b1 = c_program(ch, p, "polylogarithm/")
            h2, b2 = cpp_program(ph, p, "polylogarithm/")
            h3, b3 = c_program(ch, p, "polylogarithm/")
            ft = f_program(fh, p, "polylogarithm/", "fortran_part", program=False)
            files = {a + "c.c": h1 + "void c_part(void)\n{\n" + b1 + "   fflush(stdout);\n}\n",
                     a + "x.cpp": h2 + h3 + 'extern "C" void c_part(void);\nextern "C" void fortran_part(void);\nint main()\n{\n   c_part();\n' + b2 + b3 + "   fflush(stdout);\n   fortran_part();\n   return 0;\n}\n",
                     a + "f.f90": ft}
            lk = link(v, *order)
            if v == "static":
                lk = ["-Wl,--whole-archive"] + lk[:3] + ["-Wl,--no-whole-archive"] + lk[3:]
            job("C, C++ and Fortran in one program, %s libraries %s" % (v, " ".join(order)), files,
                [[CC, "-w", "-I" + inc, "-c", a + "c.c", "-o", a + "c.o"], [CXX, "-std=c++11", "-w", "-I" + inc, "-c", a + "x.cpp", "-o", a + "x.o"],
                 [FC, "-I" + inc, "-c", a + "f.f90", "-o", a + "f.o"], [CXX, a + "x.o", a + "c.o", a + "f.o", "-o", a + ".x"] + lk], p, v)
    # the same headers in two translation units of one program: no definitions in headers
    for kind, hs, ext, comp, lang in (("c", ch, ".c", [CC, "-std=c11"], "c"), ("cpp", ph, ".cpp", [CXX, "-std=c++11"], "cpp")):
        i = next(count)
        a = os.path.join(work, "p%d" % i)
        p = Program()
        h, b = (c_program if kind == "c" else cpp_program)(hs, p, "polylogarithm/")
        job("two translation units, all %s headers" % lang, {a + "a" + ext: h + "int other(void);\nint main(void)\n{\n" + b + "   return other();\n}\n", a + "b" + ext: h + "int other(void)\n{\n" + b + "   return 0;\n}\n"},
            [comp + ["-w", "-I" + inc, a + "a" + ext, a + "b" + ext, "-o", a + ".x"] + link("static", lang)], p)
    # version.h
    for comp, ext in (([CC, "-std=c11"], ".c"), ([CXX, "-std=c++11"], ".cpp")):
        i = next(count)
        a = os.path.join(work, "p%d" % i)
        job("version.h in " + ext[1:], {a + ext: '#include "polylogarithm/version.h"\n#include "polylogarithm/version.h"\n#if POLYLOGARITHM_MAJOR*10000 + POLYLOGARITHM_MINOR*100 + POLYLOGARITHM_PATCH < 10000\n#error version\n#endif\n'
                                            'int a[POLYLOGARITHM_MAJOR + POLYLOGARITHM_MINOR + POLYLOGARITHM_PATCH + 1];\nint main(void) { return 0; }\n'}, [comp + ["-I" + inc, a + ext, "-o", a + ".x"]], Program())
    # the examples of the repository
    ex = os.path.join(vlib.REPO, "examples")
    for f, comp, lang in (("example.c", [CC], "c"), ("example.cpp", [CXX], "cpp"), ("example.F90", [FC], "fortran")):
        if os.path.exists(os.path.join(ex, f)):
            i = next(count)
            a = os.path.join(work, "p%d" % i)
            job("examples/" + f, {}, [comp + [os.path.join(ex, f), "-I" + inc, "-o", a + ".x", os.path.join(pres["static"], "lib/libpolylogarithm_%s.a" % lang)] + (["-lm"] if lang == "c" else [])], Program())
            jobs[-1] = jobs[-1] + (a + ".x",)
    # the program and the output of the documentation
    readme = os.path.join(vlib.REPO, "README.md")
    m = re.search(r"```\s*\.?(?:cpp|c\+\+)\s*\n(.*?)```(?:(?!```).)*?Output:?\s*```\w*\n(.*?)```", open(readme).read(), re.S) if os.path.exists(readme) else None
    if m:
        a = os.path.join(work, "p%d" % next(count))
        p = Program()
        p.text = m.group(2)
        job("program of README.md", {a + ".cpp": m.group(1)}, [[CXX, "-std=c++11", "-I" + pub, a + ".cpp", "-o", a + ".x"] + link("static", "cpp")], p)
    # the project as part of a larger CMake project; and without Fortran
    if nof:
        a = os.path.join(work, "p%d" % next(count))
        p = Program()
        h, b = cpp_program(ph, p, "polylogarithm/")
        h2, b2 = c_program(ch, p, "polylogarithm/")
        job("C++ and C, installed without Fortran", {a + ".cpp": h + h2 + "int main()\n{\n" + b + b2 + "   return 0;\n}\n"},
            [[CXX, "-std=c++11", "-w", "-I" + nof + "/include", a + ".cpp", "-o", a + ".x", nof + "/lib/libpolylogarithm_cpp.a", nof + "/lib/libpolylogarithm_c.a"]], p)

    d = os.path.join(work, "super")
    os.makedirs(d)
    p = Program()
    h1, b1 = c_program(ch, p, "")
    h2, b2 = cpp_program(ph, p, "")
    job("a CMake project with the package as subdirectory", {
        d + "/CMakeLists.txt": "cmake_minimum_required(VERSION 3.5)\nproject(super CXX C Fortran)\nadd_subdirectory(%s pl EXCLUDE_FROM_ALL)\nadd_executable(consumer a.cpp b.c c.f90)\ntarget_link_libraries(consumer polylogarithm)\n" % vlib.REPO,
        d + "/b.c": h1 + "void c_part(void)\n{\n" + b1 + "   fflush(stdout);\n}\n",
        d + "/c.f90": f_program(fh, p, "", "fortran_part", program=False),
        d + "/a.cpp": h2 + '#include "version.h"\nextern "C" void c_part(void);\nextern "C" void fortran_part(void);\nint main()\n{\n   c_part();\n' + b2 + "   std::fflush(stdout);\n   fortran_part();\n   return 0;\n}\n"},
        [["cmake", "-S", d, "-B", d + "/b", "-G", "Ninja", "-Wno-dev"], ["ninja", "-C", d + "/b", "consumer"]], p)
    jobs[-1] = jobs[-1] + (d + "/b/consumer",)

    def do(j):
        what, files, cmds, p, v = j[:5]
        for f, t in files.items():
            with open(f, "w") as out:
                out.write(t)
        for c in cmds:
            q = run(c, ok=None, cwd=work, env=env(CC=CC, CXX=CXX, FC=FC))
            if q.returncode:
                m = re.search(r"(error: .*|undefined reference.*|multiple definition.*|Error: .*)", q.stderr)
                return what, "does not %s: %s" % ("link" if m and ("undefined" in m.group(1) or "multiple" in m.group(1)) else "compile", m.group(1) if m else q.stderr[-400:]), " ".join(c) + "\n" + q.stderr[-3000:], 0
        exe = j[5] if len(j) > 5 else cmds[-1][cmds[-1].index("-o") + 1]
        try:
            q = run([exe], ok=None, timeout=60, cwd=work, env=env(LD_LIBRARY_PATH=os.path.join(pres["shared"], "lib")) if v == "shared" else env())
        except subprocess.TimeoutExpired:
            return what, "does not end", "", 0
        if q.returncode:
            return what, "ends with status %d" % q.returncode, q.stderr[-2000:], 0
        bad, seen = p.check(q.stdout)
        return what, ("computes " + bad[0]) if bad else None, "\n".join(bad[:20]), seen
    with concurrent.futures.ThreadPoolExecutor(vlib.JOBS) as exe:
        for what, bad, detail, seen in exe.map(do, jobs):
            o.evaluations += 1 + seen
            o.distinct += 1
            k = re.sub(r"[A-Z]l\d?\.(h|hpp|fh) alone", r"one .\1 alone", what)
            o.counters["programs: " + k] = o.counters.get("programs: " + k, 0) + 1
            o.counters["results compared"] = o.counters.get("results compared", 0) + seen
            if len(o.samples) < 30 and seen:
                o.samples.append("%s: %d results" % (what, seen))
            if bad:
                o.violate(what, "%s: %s" % (what, bad), report=detail)


PUBLIC = {"Cl", "Li", "Sl"} | {"Cl%d" % n for n in range(1, 7)} | {"Li%d" % n for n in range(2, 7)}


def extracted(o, tier):
    """C27: one source file at a time, taken out of the package together with the shared helper files only."""
    o.rule = "one program per source file, language and compiler, built from copies of that file, its header and the helper files alone; distinct: programs"
    Libs().build()
    work = os.path.join(vlib.BUILD, "extract-work-%d" % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    jobs = []
    F_COMP = [("gfortran", [FC]), ("gfortran -O3", [FC, "-O3"])]
    CMPLX = ["-DCMPLX(a,b)=__builtin_complex((double)(a),(double)(b))", "-DCMPLXF(a,b)=__builtin_complex((float)(a),(float)(b))", "-DCMPLXL(a,b)=__builtin_complex((long double)(a),(long double)(b))"]
    C_COMP = [("gcc -std=c11", [CC, "-std=c11"]), ("gcc", [CC, "-O2"]), ("clang -std=c11", [CL, "-std=c11"] + CMPLX)]
    X_COMP = [("g++ -std=c++11", [CXX, "-std=c++11"]), ("g++ -std=c++20", [CXX, "-std=c++20", "-O2"]), ("clang++ -std=c++17", [CLXX, "-std=c++17"])]
    for lang, src, hdr, comps in (("c", ".c", ".h", C_COMP), ("cpp", ".cpp", ".hpp", X_COMP), ("fortran", ".f90", ".fh", F_COMP)):
        d = os.path.join(vlib.REPO, "src", lang)
        files = sorted(f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)) and f != "CMakeLists.txt")
        stem = lambda f: f.split(".")[0]
        helpers = [f for f in files if stem(f) not in PUBLIC]
        for s in sorted(PUBLIC & {stem(f) for f in files if f.endswith(src)}):
            mine = {s}
            if s in ("Cl", "Li"):                  # the functions of any order fall back on those of fixed order
                mine |= {x for x in PUBLIC if x[:2] == s}
            for name, comp in comps:
                w = os.path.join(work, "%s-%s-%d" % (lang, s, len(jobs)))
                jobs.append((lang, s, name, comp, w, [os.path.join(d, f) for f in files if stem(f) in mine] + [os.path.join(d, f) for f in helpers], src, hdr))

    def do(j):
        lang, s, name, comp, w, files, src, hdr = j
        what = "%s%s extracted (%s)" % (s, src, name)
        os.makedirs(w)
        for f in files:
            shutil.copy(f, w)
        p = Program()
        if not os.path.exists(os.path.join(w, s + hdr)):
            return what, "has no header " + s + hdr, "", 0
        if lang == "fortran":
            text, main = f_program([s + hdr], p, ""), "main_program.f90"
        else:
            h, b = (c_program if lang == "c" else cpp_program)([s + hdr], p, "")
            text, main = h + "int main(void)\n{\n" + b + "   return 0;\n}\n", "main_program" + src
        with open(os.path.join(w, main), "w") as f:
            f.write(text)
        srcs = sorted(f for f in os.listdir(w) if f.endswith(src))
        cmds = [comp + ["-w", "-c", f, "-o", f + ".o"] for f in srcs]
        own = [f + ".o" for f in srcs if f == main or f.split(".")[0] in PUBLIC]
        rest = [f + ".o" for f in srcs if f + ".o" not in own]
        if rest:
            cmds.append(["ar", "crs", "helpers.a"] + rest)
        cmds.append(comp + own + (["helpers.a"] if rest else []) + ["-o", "prog"] + (["-lm"] if lang == "c" else []))
        for c in cmds:
            q = run(c, ok=None, cwd=w)
            if q.returncode:
                m = re.search(r"(fatal error: .*|error: .*|undefined reference.*|multiple definition.*|Error: .*)", q.stderr)
                return what, "does not build without the rest of the package: " + (m.group(1) if m else q.stderr[-400:]), " ".join(c) + "\n" + q.stderr[-3000:], 0
        try:
            q = run([os.path.join(w, "prog")], ok=None, timeout=60, cwd=w)
        except subprocess.TimeoutExpired:
            return what, "does not end", "", 0
        if q.returncode:
            return what, "ends with status %d" % q.returncode, q.stderr[-2000:], 0
        needed = re.findall(r"\(NEEDED\).*\[(.*?)\]", run(["readelf", "-d", os.path.join(w, "prog")]).stdout)
        alien = [x for x in needed if not re.match(r"(libc|libm|libstdc\+\+|libgcc_s|libgfortran|libquadmath|ld-linux.*)\.so", x)]
        if alien:
            return what, "needs the libraries " + " ".join(alien), "", 0
        bad, seen = p.check(q.stdout)
        shutil.rmtree(w, ignore_errors=True)
        return what, ("computes " + bad[0]) if bad else None, "\n".join(bad[:20]), seen
    try:
        with concurrent.futures.ThreadPoolExecutor(vlib.JOBS) as exe:
            for what, bad, detail, seen in exe.map(do, jobs):
                o.evaluations += 1 + seen
                o.distinct += 1
                k = "programs: " + re.sub(r"^[A-Za-z]+\d?(\.\w+) extracted", r"\1", what)
                o.counters[k] = o.counters.get(k, 0) + 1
                o.counters["results compared"] = o.counters.get("results compared", 0) + seen
                if len(o.samples) < 30:
                    o.samples.append("%s: %d results" % (what, seen))
                if bad:
                    o.violate(what, "%s: %s" % (what, bad), report=detail)
    finally:
        shutil.rmtree(work, ignore_errors=True)
