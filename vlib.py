"""Building and running: the repository's libraries in many configurations, the drivers on top of them,
verdicts, evidence and replay files."""
import concurrent.futures, fcntl, hashlib, json, os, re, shlex, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PV_REPO", "/repo")
BUILD = os.path.join(V, "build")
CC, CXX, FC = "/usr/bin/gcc", "/usr/bin/g++", "/usr/bin/gfortran"
JOBS = os.cpu_count() or 8


class HarnessError(Exception):
    pass


def env(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "FFLAGS", "CPPFLAGS", "LDFLAGS")}
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(kw)
    return e


def run(cmd, timeout=600, ok=(0,), **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace",
                       env=kw.pop("env", env()), **kw)
    if ok is not None and p.returncode not in ok:
        raise HarnessError("command failed (%d): %s\n%s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-3000:], p.stderr[-3000:]))
    return p


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


def repo_files(sub=("CMakeLists.txt", "src", "test/CMakeLists.txt")):
    r = []
    for s in sub:
        p = os.path.join(REPO, s)
        if os.path.isfile(p):
            r.append(p)
        for d, _, fs in os.walk(p):
            r += [os.path.join(d, f) for f in fs]
    return sorted(r)


_hash = None


def repo_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in repo_files(("CMakeLists.txt", "src", "test")):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
        _hash = h.hexdigest()[:12]
    return _hash


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def clean_old():
    """Keeps the build output of the last few source states only."""
    os.makedirs(BUILD, exist_ok=True)
    ds = sorted((d for d in os.listdir(BUILD) if d.startswith("r-")), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in [d for d in ds if d != "r-" + repo_hash()][:-2]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)


class Libs:
    """The three libraries, built by the repository's own CMake files, out of tree."""

    def __init__(self, name="main", btype="RelWithDebInfo", cc=CC, cxx=CXX, fc=FC, cflags="", cxxflags=None, fflags=None,
                 ldflags="", shared=False, extra=()):
        self.name, self.btype, self.cc, self.cxx, self.fc, self.shared = name, btype, cc, cxx, fc, shared
        self.cflags, self.cxxflags, self.fflags, self.ldflags = cflags, cflags if cxxflags is None else cxxflags, cflags if fflags is None else fflags, ldflags
        self.extra = list(extra)
        self.dir = os.path.join(BUILD, "r-" + repo_hash(), name)

    def build(self):
        stamp = os.path.join(self.dir, "ok")
        with Lock("libs-" + self.name):
            if os.path.exists(stamp):
                return self
            shutil.rmtree(self.dir, ignore_errors=True)
            os.makedirs(self.dir)
            cmd = ["cmake", "-S", REPO, "-B", self.dir, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=" + self.btype,
                   "-DCMAKE_C_FLAGS=" + self.cflags, "-DCMAKE_CXX_FLAGS=" + self.cxxflags, "-DCMAKE_Fortran_FLAGS=" + self.fflags,
                   "-DCMAKE_POSITION_INDEPENDENT_CODE=ON", "-DBUILD_SHARED_LIBS=" + ("ON" if self.shared else "OFF"),
                   "-DCMAKE_SHARED_LINKER_FLAGS=" + self.ldflags, "-DCMAKE_EXE_LINKER_FLAGS=" + self.ldflags] + self.extra
            e = env(CC=self.cc, CXX=self.cxx, FC=self.fc)
            run(cmd, env=e)
            run(["ninja", "-C", self.dir, "-j%d" % JOBS, "polylogarithm_c", "polylogarithm_cpp", "polylogarithm_fortran"], env=e)
            open(stamp, "w").close()
        return self

    def lib(self, lang):
        return os.path.join(self.dir, "src", lang, "libpolylogarithm_%s.%s" % (lang, "so" if self.shared else "a"))

    def link(self):
        v = [self.lib(l) for l in ("cpp", "c", "fortran")]
        if self.shared:
            v += ["-Wl,-rpath," + os.path.dirname(x) for x in v]
        return v + ["-lgfortran", "-lquadmath", "-lm", "-lpthread", "-ldl"]


class Direct:
    """The sources of the libraries compiled without CMake: other standards and flags than the build files allow."""

    def __init__(self, name, cc=CC, cxx=CXX, fc=FC, cflags="", cxxflags="", fflags=""):
        self.name, self.cc, self.cxx, self.fc = name, cc, cxx, fc
        self.flags = {"c": shlex.split(cflags), "cpp": shlex.split(cxxflags), "fortran": shlex.split(fflags)}
        self.dir = os.path.join(BUILD, "r-" + repo_hash(), name)

    def lib(self, lang):
        return os.path.join(self.dir, "libpolylogarithm_%s.a" % lang)

    def build(self):
        stamp = os.path.join(self.dir, "ok")
        with Lock("libs-" + self.name):
            if os.path.exists(stamp):
                return self
            shutil.rmtree(self.dir, ignore_errors=True)
            os.makedirs(self.dir)
            objs = {"c": [], "cpp": [], "fortran": []}
            cmds = []
            for lang, ext, comp in (("c", ".c", self.cc), ("cpp", ".cpp", self.cxx), ("fortran", ".f90", self.fc)):
                d = os.path.join(REPO, "src", lang)
                for f in sorted(os.listdir(d)):
                    if f.endswith(ext):
                        o = os.path.join(self.dir, lang + "-" + f + ".o")
                        objs[lang].append(o)
                        cmds.append([comp] + self.flags[lang] + ["-fPIC", "-c", os.path.join(d, f), "-o", o])
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(lambda c: run(c, cwd=self.dir), cmds))
            for lang in objs:
                run(["ar", "crs", self.lib(lang)] + objs[lang])
            open(stamp, "w").close()
        return self

    def link(self):
        return [self.lib(l) for l in ("cpp", "c", "fortran")] + ["-lgfortran", "-lquadmath", "-lm", "-lpthread", "-ldl"]


def shims():
    """Generated call shims (from the list of the public API)."""
    d = os.path.join(BUILD, "shim")
    key = sha(open(os.path.join(V, "src/gen_shims.py"), "rb").read())
    with Lock("shim"):
        if not os.path.exists(d + "/ok-" + key):
            run([sys.executable, os.path.join(V, "src/gen_shims.py"), d])
            open(d + "/ok-" + key, "w").close()
    return d


def obj(src, flags=(), deps=(), cc=None, tag=""):
    """Compiles one driver source, cached by content."""
    path = src if os.path.isabs(src) else os.path.join(V, "src", src)
    if cc is None:
        cc = FC if path.endswith("f90") else CC if path.endswith(".c") else CXX
    std = ["-std=gnu++17"] if path.endswith("cpp") else []
    content = [open(path, "rb").read()] + [open(d, "rb").read() for d in deps]
    key = sha(cc, *flags, *content)
    out = os.path.join(BUILD, "obj", os.path.basename(path) + tag + "-" + key + ".o")
    with Lock("obj-" + key):
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            run([cc, "-O2", "-g1", "-fPIC"] + std + list(flags) + ["-c", path, "-o", out + ".tmp"], cwd=BUILD)
            os.rename(out + ".tmp", out)
    return out


def headers(lang):
    d = os.path.join(REPO, "src", lang)
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".h", ".hpp", ".fh")))


CORE = ["core.cpp", "oracle.cpp", "ref.cpp"]


def driver(libs, parts, link=(), name=None, extra_objs=(), part_flags=(), ld=CXX):
    """Links the driver with the parts needed against one build of the libraries."""
    sd = shims()
    own = [os.path.join(V, "src", h) for h in ("core.hpp", "hostile.hpp", "api.hpp", "ref.hpp", "ref_tables.inc", "cells.inc")]
    jobs = [(p, ("-I" + sd,) + (tuple(part_flags) if p in parts else ()), own) for p in CORE + list(parts)]
    jobs.append(("api.cpp", ("-I" + sd, "-I" + REPO + "/src/cpp"), own + [sd + "/api_table.inc"] + headers("cpp")))
    jobs.append((sd + "/shim_c.c", ("-I" + REPO + "/src/c",), headers("c")))
    jobs.append((sd + "/shim_f.f90", ("-I" + REPO + "/src/fortran",), headers("fortran")))
    for i, p in enumerate(parts):
        if p in ("p_help.cpp", "p_work.cpp"):
            jobs[len(CORE) + i] = (p, ("-I" + sd, "-I" + REPO + "/src/cpp") + tuple(part_flags), own + headers("cpp"))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        fl = ex.submit(libs.build)
        objs = list(ex.map(lambda j: obj(*j), jobs))
        fl.result()
    exe = os.path.join(libs.dir, (name or "drv") + "-" + sha(*objs, *extra_objs, *link))
    with Lock("link-" + sha(exe)):
        if not os.path.exists(exe):
            run([ld, "-o", exe + ".tmp"] + objs + list(extra_objs) + libs.link() + list(link))
            os.rename(exe + ".tmp", exe)
    return exe


NUM = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F]+(?:\.[0-9a-fA-F]*)?[pP][+-]?\d+|\d+\.\d*|\.\d+|\d+)(?:[eEdDqQ]([+-]?\d+))?(?:_\w+|[lLfFuU]*)?(?![\w.])")


def literals():
    """Numeric literals of the sources: (floating-point, integer) spellings, products of literals included."""
    fl, il = set(), set()
    for f in repo_files(("src",)):
        if not f.endswith((".c", ".cpp", ".f90", ".h", ".hpp")):
            continue
        text = open(f, errors="replace").read()
        for m in NUM.finditer(text):
            s, e = m.group(1), m.group(2)
            if s[:2] in ("0x", "0X"):
                fl.add(repr(float.fromhex(s)))
            elif "." not in s and e is None:
                if len(s) < 19:
                    il.add(str(int(s)))
                    fl.add(str(int(s)))
            else:
                fl.add(s + ("e" + e if e else ""))
        for m in re.finditer(r"(\d+(?:\.\d+)?)\s*([*/])\s*(\d+(?:\.\d+)?)(?:\s*\*\s*(\d+(?:\.\d+)?))?", text):   # 0.75*0.75
            v = float(m.group(1))
            w = float(m.group(3))
            v = v*w if m.group(2) == "*" else v/w if w else 0
            fl.add(repr(v*float(m.group(4)) if m.group(4) else v))
        for m in re.finditer(r"<<\s*(\d+)", text):
            if int(m.group(1)) < 63:
                il.add(str(1 << int(m.group(1))))
    return fl, il


def dictionary():
    """Inputs at which tables, switch-over points and special cases hang: the literals of the sources. Literals the
    sources did not have when the list src/literals.txt was made are tried more often (lines F and I)."""
    out = os.path.join(BUILD, "r-" + repo_hash(), "dict.txt")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    fl, il = literals()
    known = set(open(os.path.join(V, "src", "literals.txt")).read().split())
    kv = {k[1:] for k in known if k[0] == "f"}
    short = sorted(s for s in fl if len(s.replace(".", "").split("e")[0]) < 14)   # coefficients of expansions are not inputs
    longs = sorted(s for s in fl if s not in short)
    longs = longs[:: max(1, len(longs)//400)]
    with open(out + ".tmp%d" % os.getpid(), "w") as o:
        for i in sorted(il):
            o.write("i%s\n" % i)
            if "i" + i not in known:
                o.write("I%s\n" % i)
        for s in short + longs:
            o.write("f%s\n" % s)
        for s in sorted(fl):
            if s not in kv:
                o.write("F%s\n" % s)
    os.replace(out + ".tmp%d" % os.getpid(), out)
    return out


def switches():
    """Arguments and orders at which the code takes decisions, found by src/p_disc.cpp. Without them (the code under
    test crashes there, say) the checks run on their other inputs."""
    d = os.path.join(BUILD, "r-" + repo_hash())
    out = os.path.join(d, "switches-%s.txt" % sha(*[open(os.path.join(V, "src", f), "rb").read() for f in ("p_disc.cpp", "core.cpp", "api.cpp")]))
    os.makedirs(d, exist_ok=True)
    with Lock("switches"):
        if not os.path.exists(out):
            open(out + ".tmp", "w").close()
            try:
                c = "-O0 -fsanitize-coverage=trace-pc,trace-cmp"
                exe = driver(Libs("paths2", btype="Debug", cflags=c, ldflags="-Wl,--unresolved-symbols=ignore-all"), ["p_disc.cpp"], name="p_disc")
                subprocess.run([exe, "--prop", "DISC", "--seed", "1", "--tier", "quick", "--threads", "8", "--dict", dictionary(), "--out", out + ".json"], timeout=120,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(PV_SWITCH_OUT=out + ".tmp", PV_HANG="15"))
            except (HarnessError, subprocess.TimeoutExpired):
                pass
            os.rename(out + ".tmp", out)
    return out


class Outcome:
    """What the runs of one check observed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.evaluations = self.distinct = 0
        self.counters, self.maxima, self.samples, self.notes = {}, {}, [], {}
        self.violations = []       # {key, text, replay: {...}}
        self.rule = ""
        self.assumptions = []

    def add(self, d, prefix="", replay=None):
        self.evaluations += d.get("evaluations", 0)
        self.distinct += d.get("distinct_estimate", 0)
        for k, v in d.get("counters", {}).items():
            self.counters[prefix + k] = self.counters.get(prefix + k, 0) + v
        for k, v in d.get("maxima", {}).items():
            if prefix + k not in self.maxima or v[0] > self.maxima[prefix + k][0]:
                self.maxima[prefix + k] = v
        for s in d.get("samples", []):
            if len(self.samples) < 40:
                self.samples.append(prefix + s)
        for v in d.get("violations", []):
            self.violate(prefix + v["key"], prefix + v["text"], call=v.get("call"), count=v.get("count", 1), **(replay or {}))

    def violate(self, key, text, **replay):
        if any(v["key"] == key for v in self.violations):
            return
        self.violations.append({"key": key, "text": text, "replay": replay})

    def finish(self, level="exploration"):
        known = known_findings(self.prop)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        new, old = [], {}
        for v in self.violations:
            k = next((k for k in known if k["match"] in v["key"] + " | " + v["text"]), None)
            if k:
                old.setdefault(k["match"], k)
            else:
                new.append(v)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": self.distinct, "rule": self.rule,
               "samples": self.samples[:40], "observed": dict(sorted(self.counters.items())),
               "largest_error_over_tolerance": {k: {"ratio": v[0], "at": v[1]} for k, v in sorted(self.maxima.items())}}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(V, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:       # listed findings are announced whether or not this run's inputs met them
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        os.makedirs(os.path.join(V, "replay"), exist_ok=True)
        for i, v in enumerate(new[:12]):
            path = os.path.join(V, "replay", "%s-%d.json" % (self.prop, i))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "key": v["key"], "text": v["text"], **v["replay"]}, f, indent=1)
            print("  %s: %s" % (v["key"], v["text"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if len(new) > 12:
            print("  (and %d more kinds)" % (len(new) - 12))
        print("%s %s: %d evaluations, %d distinct, %d violation kinds, %.1f s" % (self.prop, self.tier, self.evaluations, self.distinct, len(new), time.time() - self.t0))
        return 1 if new else 0


def known_findings(prop):
    r = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) match="([^"]+)" (.*)', l)
            if m and m.group(1) == prop:
                r.append({"match": m.group(2), "what": m.group(3)})
    return r


def execute(out, exe, args, timeout=None, label="", environ=None, wrap=(), tag=""):
    """Runs a driver; crashes and hangs are confirmed by repeating the call in a fresh process."""
    if timeout is None:
        timeout = 800 if os.environ.get("VERIF_TIER", "quick") == "quick" else 20000
    jf = os.path.join(BUILD, "out-%s-%d-%s.json" % (out.prop, os.getpid(), sha(exe, label, tag)))
    if os.path.exists(jf):
        os.remove(jf)
    e = env(**(environ or {}))
    cmd = list(wrap) + [exe] + list(args) + ["--out", jf]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise HarnessError("driver exceeded %d s: %s" % (timeout, " ".join(cmd)))
    if p.returncode in (0, 1) and os.path.exists(jf):
        d = json.load(open(jf))
        os.remove(jf)
        out.add(d, label, {"exe": os.path.relpath(exe, V), "args": list(args)})
        return d, p
    m = re.search(r"^ABNORMAL (.*)$", p.stdout, re.M)
    if m:
        a = json.loads(m.group(1))
        c = a["call"]
        if c is None:
            raise HarnessError("driver failed outside a call (%s): %s" % (a["what"], p.stderr[-3000:]))
        cargs = ["call", c["fn"], c["n"], c["re"], c["im"], "only"]
        try:
            q = subprocess.run(list(wrap) + [exe] + cargs, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=120, env=dict(e, PV_HANG="20"))
            again = q.returncode != 0
            rep = (q.stdout + q.stderr)[-3000:]
        except subprocess.TimeoutExpired:
            again, rep = True, "no end within 120 s"
        what = "does not return" if a["what"] == "hang" else "ends the program (%s)" % a["what"]
        out.violate("%s%s %s" % (label, a["what"], c["fn"]), "%s%s %s%s; %s" % (label, c["text"], what, "" if again else " (not repeated by the single call in a fresh process)",
                    diagnosis(p.stderr + rep)), call=c, exe=os.path.relpath(exe, V), args=cargs, report=(p.stderr + rep)[-6000:])
        return None, p
    raise HarnessError("driver ended with %d: %s\n%s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-2000:], p.stderr[-3000:]))


def diagnosis(s):
    m = re.search(r"(runtime error: .*|ERROR: \w+Sanitizer: .*|WARNING: \w+Sanitizer: .*|terminate called.*)", s)
    return m.group(1)[:300] if m else ""
