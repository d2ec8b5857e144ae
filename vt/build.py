"""Builds the generator, generated source trees, libraries and harnesses from /repo's working tree."""
import hashlib, os, re, shutil, threading
from . import core
from .core import REPO, HARNESS, NCPU, sh, CheckError, BuildBroken

ISA_FLAGS = {
    "scalar": ["-DSIMINT_SCALAR"],
    "sse": ["-DSIMINT_SSE", "-mssse3"],
    "avx": ["-DSIMINT_AVX", "-mavx"],
    "avx2": ["-DSIMINT_AVX2", "-mavx2", "-mfma"],
    "commonavx512": ["-DSIMINT_COMMONAVX512", "-mavx512f", "-mavx512cd", "-mfma"],
}
ISA_LEN = {"scalar": 1, "sse": 2, "avx": 4, "avx2": 4, "commonavx512": 8}
ISA_CPU = {"scalar": "", "sse": "ssse3", "avx": "avx", "avx2": "avx2", "commonavx512": "avx512f"}
AMCHAR = "spdfghiklmnoqrtuvwxyzabceSPDFGHIKLMNOQRTUVWXYZABCE0123456789"


def cpu_isas():
    """ISAs this machine can run."""
    flags = set()
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                flags = set(line.split(":")[1].split())
                break
    except OSError:
        pass
    res = []
    for isa, need in ISA_CPU.items():
        if need == "" or need in flags:
            if isa == "avx2" and "fma" not in flags:
                continue
            if isa == "commonavx512" and "avx512cd" not in flags:
                continue
            res.append(isa)
    return res


def _hash_tree(*paths):
    h = hashlib.sha256()
    for path in paths:
        if os.path.isfile(path):
            h.update(path.encode()); h.update(open(path, "rb").read()); continue
        for dp, dn, fn in os.walk(path):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(os.path.relpath(p, path).encode())
                if not os.path.islink(p):
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:24]


class Lib:
    def __init__(self, tree, stage, a, isa, build):
        self.tree, self.stage, self.a, self.isa, self.build = tree, stage, a, isa, build
        self.inc = ["-I" + stage, "-I" + tree]


class Builder:
    def __init__(self, ctx):
        self.ctx = ctx
        self._gen = None
        self._lock = threading.Lock()
        self._lock2 = threading.Lock()
        self._locks, self._done = {}, {}
        self.cache = os.environ.get("VERIF_CACHE")          # development only
        self._hash = None

    def _cached(self, kind, key, make):
        """make(dir) builds into dir, once; with VERIF_CACHE the result is kept by content."""
        with self._lock2:
            lock = self._locks.setdefault((kind, key), threading.Lock())
        with lock:
            if (kind, key) not in self._done:
                self._done[kind, key] = self._make(kind, key, make)
            return self._done[kind, key]

    def _make(self, kind, key, make):
        if not self.cache:
            d = self.ctx.dir("%s-%s" % (kind, hashlib.sha256(key.encode()).hexdigest()[:10]))
            shutil.rmtree(d)
            make(d)
            return d
        if self._hash is None:
            self._hash = _hash_tree(os.path.join(REPO, "generator"), os.path.join(REPO, "skel"),
                                    os.path.join(REPO, "create.py"), os.path.join(REPO, "CMakeLists.txt"))
        d = os.path.join(self.cache, self._hash, kind + "-" + hashlib.sha256(key.encode()).hexdigest()[:16])
        if not os.path.exists(d + ".ok"):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            make(d)
            open(d + ".ok", "w").close()
        return d

    def generator(self):
        with self._lock:
            if self._gen is None:
                def make(d):
                    p = sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
                            "-DCMAKE_CXX_FLAGS_RELEASE=-O1", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5"], check=False)
                    q = p if p.returncode else sh(["ninja", "-C", d], check=False)
                    if q.returncode:
                        raise BuildBroken("the generator does not build:\n" + q.stdout[-3000:])
                self._gen = os.path.join(self._cached("generator", "", make), "generator", "ostei")
                self.ctx.log("generator built")
        return self._gen

    def create(self, out, opts, n=NCPU, gen=None):
        """Runs create.py; returns the finished process."""
        return sh(["python3", os.path.join(REPO, "create.py"), "-n", str(n), "-g", gen or self.generator()]
                  + opts.split() + [out], check=False, what="create.py " + opts)

    def tree(self, opts, n=NCPU):
        self.generator()

        def make(d):
            p = self.create(d, opts, n)
            if p.returncode != 0:
                raise BuildBroken("create.py %s failed:\n%s" % (opts, p.stdout[-3000:]))
        d = self._cached("tree", opts, make)
        return d

    def lib(self, opts, isa="sse", copt="-O1", maxam=None, maxder=None, shared=False, fortran=False,
            cflags="", jobs=NCPU, fflags=""):
        tree = self.tree(opts)
        key = "|".join(map(str, (opts, isa, copt, maxam, maxder, shared, fortran, cflags, fflags)))

        def make(d):
            cmd = ["cmake", "-S", tree, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
                   "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DENABLE_TESTS=OFF", "-DSIMINT_VECTOR=" + isa,
                   "-DCMAKE_C_FLAGS_RELEASE=" + copt, "-DCMAKE_CXX_FLAGS_RELEASE=" + copt,
                   "-DCMAKE_C_FLAGS=" + cflags]
            if maxam is not None: cmd.append("-DSIMINT_MAXAM=%d" % maxam)
            if maxder is not None: cmd.append("-DSIMINT_MAXDER=%d" % maxder)
            if shared: cmd += ["-DBUILD_SHARED_LIBS=ON"]
            if fortran: cmd += ["-DENABLE_FORTRAN=ON", "-DCMAKE_Fortran_FLAGS_RELEASE=" + copt, "-DCMAKE_Fortran_FLAGS=" + fflags]
            p = sh(cmd, check=False)
            q = p if p.returncode else sh(["ninja", "-j", str(jobs), "-C", d, "simint"], check=False)
            if q.returncode:
                raise BuildBroken("library (%s) does not build:\n%s" % (key, q.stdout[-3000:]))
        d = self._cached("lib", key, make)
        a = os.path.join(d, "simint", "libsimint.so" if shared else "libsimint.a")
        self.ctx.log("library built: %s %s" % (opts, isa))
        return Lib(tree, os.path.join(d, "stage"), a, isa, d)

    def compile(self, src, out=None, lib=None, flags=(), link=("-lm",), cc=None, inc=()):
        """Compiles a harness (a file of /verif/harness) against a library."""
        srcs = [src] if isinstance(src, str) else list(src)
        srcs = [s if os.path.isabs(s) else os.path.join(HARNESS, s) for s in srcs]
        out = out or os.path.join(self.ctx.dir(), os.path.basename(srcs[0]).rsplit(".", 1)[0])
        cpp = any(s.endswith((".cpp", ".cc")) for s in srcs)
        cmd = [cc or ("g++" if cpp else "gcc")]
        cmd += ["-std=gnu++17" if cpp else "-std=gnu11", "-O1", "-g", "-w"] + list(flags)
        cmd += ["-I" + HARNESS] + ["-I" + i for i in inc]
        if lib is not None:
            cmd += lib.inc + [f for f in ISA_FLAGS[lib.isa] if f.startswith("-m")]
        cmd += srcs + (["-Wl,-rpath," + os.path.dirname(lib.a), lib.a] if lib is not None else [])
        cmd += list(link) + ["-o", out]
        sh(cmd, what="compile " + " ".join(cmd))
        return out


def run_harness(exe, args=(), input=None, timeout=300, env=None):
    """Runs a harness. Returns (returncode, stdout). A signal shows as a negative code."""
    import subprocess
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run([exe] + [str(a) for a in args], input=input, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=e)
    return p.returncode, p.stdout, p.stderr


def orbit(am):
    """The classes a routine may be permuted to."""
    a, b, c, d = am
    res = set()
    for x in ((a, b), (b, a)):
        for y in ((c, d), (d, c)):
            res.add(x + y)
            res.add(y + x)
    return sorted(res)


def class_name(am):
    return "_".join(AMCHAR[x] for x in am)


def gf_build(b, opts, mains, jobs=NCPU, copt="-O0", classes=None, defs=(), oei=False):
    """Compiles a generated tree over GF(p) (harness/gf) and links it with each harness in mains.

    classes: only these quartets (closed under permutation); the rest stays unresolved.
    Returns {main: executable}."""
    keep = None
    if classes is not None:
        keep = {class_name(o) for am in classes for o in orbit(am)} | {"s_s_s_s"}
    tree = b.tree(opts)
    toks = opts.split()
    l = int(toks[toks.index("-l") + 1])
    d = int(toks[toks.index("-d") + 1]) if "-d" in toks else 0

    def make(out):
        os.makedirs(out, exist_ok=True)
        stage = os.path.join(out, "stage", "simint")
        os.makedirs(os.path.join(stage, "vectorization")); os.makedirs(os.path.join(stage, "ostei"))
        with open(os.path.join(stage, "vectorization", "vector_config.h"), "w") as f:
            f.write("#pragma once\n#define SIMINT_SCALAR\n")
        s = open(os.path.join(tree, "simint", "ostei", "ostei_config.h.in")).read()
        with open(os.path.join(stage, "ostei", "ostei_config.h"), "w") as f:
            f.write(s.replace("@SIMINT_MAXAM@", str(l)).replace("@SIMINT_MAXDER@", str(d)))
        srcs = []
        gen = open(os.path.join(tree, "simint", "ostei", "gen", "filelist_d%d_%d" % (d, l))).read().split()
        for g in dict.fromkeys(gen):
            m = re.match(r"ostei_(?:deriv1_)?(\w_\w_\w_\w)\.c$", os.path.basename(g))
            if keep is None or not m or m.group(1) in keep:
                srcs.append(os.path.join(tree, "simint", g))
        for sub in (".", "ostei", "shell") + (("osoei",) if oei else ()):
            dd = os.path.join(tree, "simint", sub)
            for f in sorted(os.listdir(dd)):
                if f.endswith(".c") and (oei or (sub, f) != (".", "simint_oneelectron.c")):
                    srcs.append(os.path.join(dd, f))
        tables = {"recur_lookup.c", "shell_constants.c"}
        gfd = os.path.join(HARNESS, "gf")
        inc = list(defs) + ["-I" + gfd, "-I" + os.path.join(out, "stage"), "-I" + tree]
        cxx = ["g++", "-std=gnu++17", copt, "-w", "-fpermissive", "-include", os.path.join(gfd, "gf_prelude.h")] + inc
        cc = ["gcc", "-std=gnu11", "-O0", "-w"] + inc
        lines = ["rule cxx", "  command = %s -x c++ -c $in -o $out" % " ".join(cxx),
                 "rule cc", "  command = %s -c $in -o $out" % " ".join(cc),
                 "rule ar", "  command = ar rcs $out @$out.rsp", "  rspfile = $out.rsp", "  rspfile_content = $in",
                 "rule link", "  command = g++ $in -o $out" + (" -Wl,--unresolved-symbols=ignore-all -no-pie" if keep else "")]
        objs = []
        for i, s in enumerate(srcs):
            o = "o%d.o" % i
            lines.append("build %s: %s %s" % (o, "cc" if os.path.basename(s) in tables else "cxx", s))
            objs.append(o)
        lines.append("build lib.a: ar " + " ".join(objs))
        for m in mains:
            mp = os.path.join(gfd, m)
            lines.append("build %s.o: cxx %s" % (m, mp))
            lines.append("build %s: link %s.o lib.a" % (m.rsplit(".", 1)[0], m))
        with open(os.path.join(out, "build.ninja"), "w") as f:
            f.write("\n".join(lines) + "\n")
        p = sh(["ninja", "-j", str(jobs), "-C", out], check=False)
        if p.returncode:
            raise BuildBroken("GF build of (%s) failed:\n%s" % (opts, p.stdout[-3000:]))
    key = "|".join(["gf", opts, copt, str(sorted(keep) if keep else None), " ".join(defs), str(oei)] + list(mains) + [_hash_tree(os.path.join(HARNESS, "gf"), os.path.join(HARNESS, "oracle.hpp"))])
    out = b._cached("gf", key, make)
    b.ctx.log("GF library built: " + opts)
    return {m: os.path.join(out, m.rsplit(".", 1)[0]) for m in mains}
