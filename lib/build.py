"""Build the Ipopt library (from /repo's working tree) and harness programs in several
instrumented variants.  Results are cached by content in /verif/.build (never committed)."""
import hashlib, os, re, subprocess, sys, concurrent.futures as cf, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
SRC = os.path.join(REPO, "src")
CONFIG = os.path.join(VERIF, "config")
INCDIRS = ["Common", "LinAlg", "LinAlg/TMatrices", "Algorithm", "Algorithm/LinearSolvers",
           "Algorithm/Inexact", "Interfaces", "contrib/CGPenalty"]
NPROC = os.cpu_count() or 4

VARIANTS = {
    # name: (C++ compiler, C compiler, flags)
    "plain": ("clang++", "clang", ["-O1", "-g0"]),
    "asan": ("clang++", "clang", ["-O1", "-g1", "-fno-omit-frame-pointer",
              "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"]),
    "tsan": ("clang++", "clang", ["-O1", "-g1", "-fsanitize=thread"]),
    "check": ("clang++", "clang", ["-O1", "-g0", "-DIPOPT_CHECKLEVEL=2"]),
}
COMMON = ["-fPIC", "-w", "-DHAVE_CONFIG_H", "-DNDEBUG"]
LIBS = ["-ldmumps_seq", "-llapack", "-lblas", "-ldl", "-lm", "-lpthread"]


class BuildError(Exception):
    pass


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = {}


def headers_hash(*dirs):
    """hash of all headers below the given directories"""
    key = tuple(dirs)
    if key not in _hdr:
        m = hashlib.sha256()
        for d in dirs:
            for root, sub, files in os.walk(d):
                sub.sort()
                for f in sorted(files):
                    if f.endswith((".h", ".hpp", ".inc", ".hh", ".hd")):
                        m.update(os.path.join(root, f).encode())
                        m.update(_read(os.path.join(root, f)))
        _hdr[key] = m.hexdigest()
    return _hdr[key]


def lib_sources():
    mk = _read(os.path.join(SRC, "Makefile.am")).decode()
    fs = sorted(set(re.findall(r"[A-Za-z/]+/Ip[A-Za-z0-9_]*\.(?:cpp|c)\b", mk)))
    bad = re.compile(r"PardisoMKL|Ma28|Wsmp|Spral|Inexact/|StdJ")
    fs = [f for f in fs if not bad.search(f) and os.path.exists(os.path.join(SRC, f))]
    if len(fs) < 90:
        raise BuildError("could not find the library sources (%d)" % len(fs))
    return fs


def incflags():
    return ["-I" + CONFIG] + ["-I" + os.path.join(SRC, d) for d in INCDIRS]


def compile_one(cmd, deps_key, src_files, tag):
    """run cmd + [-o obj]; returns obj path, cached"""
    key = _h("v3", " ".join(cmd), deps_key, *[_read(s) for s in src_files])
    obj = os.path.join(OUT, "obj", tag + "-" + key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return None, " ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-3000:]
    os.rename(tmp, obj)
    return obj, None


def _groups(files, n):
    gs = [[0, []] for _ in range(n)]
    for f in sorted(files, key=lambda f: -os.path.getsize(os.path.join(SRC, f))):
        g = min(gs, key=lambda g: g[0])
        g[0] += os.path.getsize(os.path.join(SRC, f)) + 9000
        g[1].append(f)
    return [sorted(g[1]) for g in gs]


class Builder:
    """collects compile jobs, runs them together in a pool"""

    def __init__(self):
        self.pool = cf.ThreadPoolExecutor(NPROC)

    # -- library
    def lib_jobs(self, variant, extra=()):
        cxx, cc, fl = VARIANTS[variant]
        base = fl + list(extra) + COMMON + ["-DIPOPTLIB_BUILD"] + incflags() + ["-I/usr/include/mumps_seq", "-c"]
        hk = headers_hash(SRC, CONFIG)
        files = lib_sources()
        cs = [f for f in files if f.endswith(".c")]
        cpps = [f for f in files if f.endswith(".cpp")]
        futs = []
        # the files that hide things behind macros are compiled alone
        alone = [f for f in cpps if re.search(r"LinearSolvers/|Interfaces/IpStdC|IpStdF|IpJournalist|IpInterfacesRegOp|IpAlgorithmRegOp|IpLapack|IpBlas", f)]
        uni = [f for f in cpps if f not in alone]
        sizes = 14
        for i, g in enumerate(_groups(uni, sizes)):
            futs.append(self.pool.submit(self._unit, cxx, base, hk, g, variant))
        for i, g in enumerate(_groups(alone, 6)):
            futs.append(self.pool.submit(self._unit, cxx, base, hk, g, variant))
        for f in cs:
            futs.append(self.pool.submit(self._single, cc, base, hk, f, variant))
        return futs

    def _single(self, comp, base, hk, f, variant):
        p = os.path.join(SRC, f)
        o, err = compile_one([comp] + base + [p], hk, [p], variant + "-" + os.path.basename(f))
        if err:
            raise BuildError(err)
        return [o]

    def _unit(self, cxx, base, hk, group, variant):
        paths = [os.path.join(SRC, f) for f in group]
        text = "".join('#include "%s"\n' % p for p in paths)
        u = os.path.join(OUT, "unity", _h(text) + ".cpp")
        os.makedirs(os.path.dirname(u), exist_ok=True)
        if not os.path.exists(u):
            t = u + ".%d.tmp" % os.getpid()
            open(t, "w").write(text)
            os.rename(t, u)
        o, err = compile_one([cxx] + base + [u], hk, paths, variant + "-u")
        if not err:
            return [o]
        # fall back to separate compilation (name clashes between files of a group)
        res = []
        for f in group:
            res += self._single(cxx, base, hk, f, variant)
        return res

    # -- harness objects
    def obj(self, variant, src, extra=(), lang=None, inc=()):
        cxx, cc, fl = VARIANTS[variant]
        comp = cc if src.endswith(".c") else cxx
        if src.endswith((".f", ".f90", ".F")):
            comp, fl = "gfortran", ["-O1"]
        std = [] if comp != cxx else ["-std=c++17"]
        cmd = [comp] + std + fl + COMMON + list(extra) + incflags() + ["-I" + os.path.join(VERIF, "h")] + ["-I" + i for i in inc] + ["-c", src]
        if comp == "gfortran":
            cmd = [comp] + fl + ["-fPIC", "-w", "-I" + os.path.join(SRC, "Interfaces")] + list(extra) + ["-c", src]
        hk = headers_hash(SRC, CONFIG, os.path.join(VERIF, "h"), *inc)

        def job():
            o, err = compile_one(cmd, hk, [src], variant + "-" + os.path.basename(src))
            if err:
                raise BuildError(err)
            return [o]
        return self.pool.submit(job)

    def link(self, variant, name, futs, libs=(), shared=False, linker=None, withlibs=True):
        objs = []
        for f in futs:
            objs += f.result()
        cxx, cc, fl = VARIANTS[variant]
        cmd = [linker or cxx] + [x for x in fl if x.startswith("-f")] + (["-shared"] if shared else [])
        key = _h(" ".join(cmd), " ".join(objs), " ".join(libs), name, withlibs)
        exe = os.path.join(OUT, "bin", key, name)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run(cmd + ["-o", tmp] + objs + list(libs) + (LIBS if withlibs else []),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError("link %s\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
            os.rename(tmp, exe)
        else:
            os.utime(exe)
        return exe


def prune(limit=3 << 30):
    """keep the cache small"""
    ents = []
    for root, _, files in os.walk(OUT):
        for f in files:
            p = os.path.join(root, f)
            try:
                st = os.stat(p)
                ents.append((st.st_mtime, st.st_size, p))
            except OSError:
                pass
    tot = sum(e[1] for e in ents)
    for mt, sz, p in sorted(ents):
        if tot < limit:
            break
        try:
            os.unlink(p)
            tot -= sz
        except OSError:
            pass


if __name__ == "__main__":
    import time
    for v in sys.argv[1:] or ["plain"]:
        t = time.time()
        b = Builder()
        n = sum(len(f.result()) for f in b.lib_jobs(v))
        print(v, n, "objects", round(time.time() - t, 1), "s")
