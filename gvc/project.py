"""Extraction: compiles translation units of /repo's working tree to LLVM IR (and, on demand, to a shared object) in a private
scratch directory; record layouts come from the same compiler. Nothing is cached between runs."""
import os, subprocess, tempfile, re, shutil, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor
from .ir import Module
from .layout import Layouts

REPO = os.environ.get("GVC_REPO", "/repo")
HDR = REPO + "/src/Headers"
# the flags of the registered build (STANDARD mode, double precision, GSL), without optimisation
DEFS = ["-DGANDALF_DOUBLE_PRECISION", "-DGANDALF_GSL", "-DDEBUG1"]
CXX = ["clang++", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-fPIC", "-fno-exceptions", "-fno-rtti",
       "-fno-threadsafe-statics", "-w", "-I" + HDR, "-fno-access-control"] + DEFS


class ExtractionError(Exception):
    pass


class Project:
    def __init__(s, sources, headers=(), classes=(), extra_src=()):
        """sources: paths relative to /repo/src; headers/classes: for the record layouts;
        extra_src: texts of instantiation TUs that only #include code of /repo and instantiate templates"""
        s.dir = tempfile.mkdtemp(prefix="gvc_")
        s.pid = os.getpid()
        atexit.register(s.cleanup)
        s.sources = list(sources)
        jobs = []
        for n, src in enumerate(sources):
            p = os.path.join(REPO, "src", src)
            if not os.path.exists(p):
                raise ExtractionError("missing source " + src)
            jobs.append((p, os.path.join(s.dir, "m%d.ll" % n)))
        for n, txt in enumerate(extra_src):
            p = os.path.join(s.dir, "x%d.cpp" % n)
            with open(p, "w") as f:
                f.write(txt)
            jobs.append((p, os.path.join(s.dir, "x%d.ll" % n)))
        s.jobs = jobs
        probe = os.path.join(s.dir, "probe.cpp")
        with open(probe, "w") as f:
            for h in headers:
                f.write('#include "%s"\n' % h)
            f.write("unsigned long gvc_sizes[] = {0")
            for c in classes:
                f.write(",\n sizeof(%s)" % c)
            f.write("};\n")

        def comp(j):
            r = subprocess.run(CXX + ["-S", "-emit-llvm", j[0], "-o", j[1]], capture_output=True, text=True)
            if r.returncode:
                raise ExtractionError("clang: %s\n%s" % (j[0], r.stderr[-3000:]))

        def lay(_):
            r = subprocess.run(CXX + ["-fsyntax-only", "-Xclang", "-fdump-record-layouts", probe], capture_output=True, text=True)
            if r.returncode:
                raise ExtractionError("layout probe: " + r.stderr[-3000:])
            return r.stdout
        with ThreadPoolExecutor(8) as ex:
            fl = ex.submit(lay, None)
            fs = [ex.submit(comp, j) for j in jobs]
            for f in fs:
                f.result()
            s.layout_text = fl.result()
        s.layouts = Layouts(s.layout_text)
        s.mods = [Module(j[1], j[0]) for j in jobs]
        names = sorted(set(n for m in s.mods for n in list(m.ftext) + list(m.decls)))
        r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"] if os.path.exists("/usr/lib/llvm-18/bin/llvm-cxxfilt") else ["c++filt"],
                           input="\n".join(names), capture_output=True, text=True)
        s.dem = dict(zip(names, r.stdout.split("\n")))
        s.bydem = {}
        for m in s.mods:
            for n in m.ftext:
                s.bydem.setdefault(s.dem[n], n)
        s._so = None

    def cleanup(s):
        if os.getpid() == s.pid:
            shutil.rmtree(s.dir, ignore_errors=True)

    def lookup(s, spec):
        """spec: prefix of the demangled name up to '(' (exact), or a regular expression given as 're:...'"""
        if spec.startswith("re:"):
            rx = re.compile(spec[3:])
            c = [n for d, n in s.bydem.items() if rx.search(d)]
        else:
            c = [n for d, n in s.bydem.items() if d == spec or base_name(d) == spec]
        if not c:
            raise ExtractionError("function under contract not found in the current source: " + spec)
        # constructors: prefer the base/complete object constructor that is defined
        if len(c) > 1:
            c2 = [n for n in c if "C2" in n or "C1" in n]
            if len(c2) == len(c):
                c = sorted(c2)[-1:]
        if len(c) > 1:
            raise ExtractionError("ambiguous function %s: %s" % (spec, [s.dem[x] for x in c]))
        return c[0]

    def so(s):
        if s._so:
            return s._so
        out = os.path.join(s.dir, "code.so")
        import fcntl
        with open(os.path.join(s.dir, "so.lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                s._build_so(out)
        s._so = out
        return out

    def _build_so(s, out):
        defined = set()
        ext = set()
        for m in s.mods:
            for g, txt in m.gtext.items():
                if re.match(r"(external|extern_weak)\b", txt) or " external " in txt.split("global")[0].split("constant")[0]:
                    ext.add(g)
                else:
                    defined.add(g)
            defined |= set(m.ftext)
        need = [g for g in sorted(ext - defined) if not re.match(r"_ZSt|_ZNSt|_ZTVN10__cxxabi|_ZTVSt|_ZTVNSt|_ZTINSt|_ZTISt|stderr|stdout|stdin|__dso_handle|_ZTTNSt|_ZTTSt|gsl_", g)]
        stub = os.path.join(s.dir, "stub.c")
        with open(stub, "w") as f:
            for g in need:
                f.write("__attribute__((weak)) char %s[8192] __attribute__((aligned(64)));\n" % g)
        # one object per module, linked together
        objs = []

        def cc(a):
            i, (src, ll) = a
            o = os.path.join(s.dir, "o%d.o" % i)
            r = subprocess.run(["clang++", "-O0", "-fPIC", "-w", "-c", ll, "-o", o], capture_output=True, text=True)
            if r.returncode:
                raise ExtractionError("llc: " + r.stderr[-2000:])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cc, enumerate(s.jobs)))
        r = subprocess.run(["clang", "-c", "-fPIC", "-w", stub, "-o", os.path.join(s.dir, "stub.o")], capture_output=True, text=True)
        if r.returncode:
            raise ExtractionError("stub: " + r.stderr[-2000:])
        # timers do nothing in replays
        tm = os.path.join(s.dir, "timing_stub.cpp")
        with open(tm, "w") as f:
            f.write("#include <sstream>\n#include <map>\n#include <vector>\n#include <string>\n#include <fstream>\n#include <iostream>\n#define private public\n#include \"CodeTiming.h\"\n"
                    "#define W __attribute__((weak))\n"
                    "W CodeTiming::__BlockTimerProxy CodeTiming::StartNewTimer(string b) { return __BlockTimerProxy(b, this, true); }\n"
                    "W CodeTiming::__BlockTimerProxy CodeTiming::NewTimer(string b) { return __BlockTimerProxy(b, this, true); }\n"
                    )
        rt = subprocess.run(CXX + ["-fPIC", "-w", "-c", tm, "-o", os.path.join(s.dir, "timing_stub.o")], capture_output=True, text=True)
        if rt.returncode == 0:
            objs.append(os.path.join(s.dir, "timing_stub.o"))
        elif os.environ.get("GVC_DEBUG"):
            print(rt.stderr[-3000:])
        r = subprocess.run(["clang++", "-shared", "-Wl,-z,lazy", "-Wl,--unresolved-symbols=ignore-all", "-o", out + ".tmp"] + objs +
                           [os.path.join(s.dir, "stub.o"), "-lgsl", "-lgslcblas", "-lm"], capture_output=True, text=True)
        if r.returncode:
            raise ExtractionError("link: " + r.stderr[-2000:])
        # functions only referenced from virtual tables (never called by a contract) are filled with a trapping placeholder
        import ctypes
        nm = subprocess.run(["nm", "-D", "--undefined-only", out + ".tmp"], capture_output=True, text=True).stdout
        libs = [ctypes.CDLL(l) for l in ("libc.so.6", "libm.so.6", "libstdc++.so.6", "libgcc_s.so.1", "libgsl.so", "libgslcblas.so")]
        miss = []
        for l in nm.split("\n"):
            g = l.split(" ")[-1].split("@")[0]
            if g.startswith("_Z") and not any(hasattr(x, g) for x in libs):
                miss.append(g)
        if miss:
            with open(os.path.join(s.dir, "trap.s"), "w") as f:
                f.write(".text\n" + "".join(".weak %s\n%s:\n" % (g, g) for g in miss) + "ud2\n.section .note.GNU-stack,\"\"\n")
            r = subprocess.run(["clang", "-c", os.path.join(s.dir, "trap.s"), "-o", os.path.join(s.dir, "trap.o")], capture_output=True, text=True)
            r = subprocess.run(["clang++", "-shared", "-Wl,-z,lazy", "-Wl,--unresolved-symbols=ignore-all", "-o", out + ".tmp"] + objs +
                               [os.path.join(s.dir, "stub.o"), os.path.join(s.dir, "trap.o"), "-lgsl", "-lgslcblas", "-lm"], capture_output=True, text=True)
            if r.returncode:
                raise ExtractionError("link: " + r.stderr[-2000:])
        os.rename(out + ".tmp", out)


def base_name(d):
    """demangled name without the parameter list and return type"""
    # cut at the '(' that opens the parameter list (depth 0 with respect to <>)
    dep = 0
    i = 0
    n = len(d)
    while i < n:
        c = d[i]
        if d.startswith("operator", i):
            m = re.match(r"operator\s*(\(\)|<<=?|>>=?|<=|>=|<|>|->\*?|\[\]|[^\s(\w]+)", d[i:])
            if m:
                i += m.end()
                continue
        if c == "<":
            dep += 1
        elif c == ">":
            dep -= 1
        elif c == "(" and dep == 0:
            if d.startswith("(anonymous", i):
                i += len("(anonymous namespace)")
                continue
            break
        i += 1
    h = d[:i]
    # drop a leading return type (template functions): last space at depth 0
    dep = 0
    last = -1
    for j, c in enumerate(h):
        if c in "<(":
            dep += 1
        elif c in ">)":
            dep -= 1
        elif c == " " and dep == 0 and "operator" not in h[:j]:
            last = j
    return h[last + 1:]
