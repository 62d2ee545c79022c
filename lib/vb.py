"""Builds /repo's current working tree in any of the supported configurations, outside /repo."""
import hashlib, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("FAEST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 4
ENV = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS")}


def tool(name):
    for d in ("/usr/bin", "/usr/local/bin", "/bin"):
        p = os.path.join(d, name)
        if os.path.exists(p):
            return p
    return shutil.which(name) or name


GCC, GXX = tool("gcc"), tool("g++")
CLANG = tool("clang-18") if os.path.exists("/usr/bin/clang-18") else tool("clang")
CLANGXX = tool("clang++-18") if os.path.exists("/usr/bin/clang++-18") else tool("clang++")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)
    return r.returncode, r.stdout


# ------------------------------------------------------------------ repository contents
_files_cache = None


def repo_files():
    global _files_cache
    if _files_cache is None:
        out = []
        for root, dirs, files in os.walk(REPO):
            dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "build", "catch2"))
            for f in sorted(files):
                if f.endswith((".c", ".h", ".in", ".s", ".S", ".inc", ".macros", ".cpp", ".hpp", ".py", ".build", ".txt")):
                    out.append(os.path.join(root, f))
        _files_cache = out
    return _files_cache


_hash_cache = None


def repo_hash():
    global _hash_cache
    if _hash_cache is None:
        h = hashlib.sha256()
        for f in repo_files():
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            h.update(open(f, "rb").read())
        _hash_cache = h.hexdigest()
    return _hash_cache


def meson_text():
    return open(os.path.join(REPO, "meson.build")).read()


def param_sets():
    """name -> dict of values, as the project's build description defines them"""
    sets = {}
    for var, key, val in re.findall(r"param_(\w+)\.set\(\s*'(\w+)'\s*,\s*([^)]*?)\s*\)", meson_text()):
        sets.setdefault(var, {})[key] = val.strip("'\"")
    for m in re.findall(r"parameter_sets\s*\+=\s*param_(\w+)", meson_text()):
        if m not in sets:
            raise BuildError("parameter set %s" % m)
    return {v["PARAM_L"]: v for v in sets.values() if "PARAM_L" in v}


CORE = "aes compat faest faest_aes fields instances owf random_oracle universal_hashing vc vole".split()
SHA3 = ["KeccakHash", "KeccakHashtimes4", "KeccakSponge", "KeccakSpongetimes4"]
SHA3_IMPL = {
    "opt64": ["sha3/opt64/KeccakP-1600-opt64.c", "sha3/opt64/KeccakP-1600-times4-on1.c"],
    "plain32": ["sha3/plain32/KeccakP-1600-inplace32BI.c", "sha3/plain32/KeccakP-1600-times4-on1.c"],
    "avx2": ["sha3/avx2/KeccakP-1600-AVX2.s", "sha3/avx2/KeccakP-1600-times4-SIMD256.c"],
}


def core_sources():
    m = re.search(r"faest_sources\s*=\s*files\((.*?)\)", meson_text(), re.S)
    srcs = re.findall(r"'([^']+\.c)'", m.group(1)) if m else []
    return srcs or [c + ".c" for c in CORE]


def subst(template, values):
    t = open(os.path.join(REPO, template)).read()
    return re.sub(r"@(\w+)@", lambda m: values.get(m.group(1), ""), t)


HAVE = ["ALIGNED_ALLOC", "ARC4RANDOM_BUF", "EXPLICIT_BZERO", "GETRANDOM", "MEMALIGN", "POSIX_MEMALIGN",
        "PTHREAD_SETAFFINITY_NP", "SYS_RANDOM_H"]


class Config:
    """One way of building the library."""

    def __init__(self, name, cc=None, cflags=("-O2",), openssl=True, sha3="opt64", have=HAVE, config_h=True,
                 defs=(), preinclude=None, tests=True, ndebug=False, pic=True, std="c11", rand=True):
        self.name, self.cc, self.cflags = name, cc or GCC, list(cflags)
        self.openssl, self.sha3, self.have, self.config_h = openssl, sha3, list(have), config_h
        self.defs, self.preinclude, self.tests, self.ndebug = list(defs), preinclude, tests, ndebug
        self.pic, self.std, self.rand = pic, std, rand

    @property
    def cxx(self):
        return {GCC: GXX, CLANG: CLANGXX}[self.cc]

    def key(self):
        s = repr((self.cc, self.cflags, self.openssl, self.sha3, self.have, self.config_h, self.defs, self.preinclude,
                  self.tests, self.ndebug, self.pic, self.std, self.rand))
        if self.preinclude:
            s += open(os.path.join(VERIF, "harness", self.preinclude)).read()
        return hashlib.sha256((s + repo_hash() + VBVER).encode()).hexdigest()[:20]

    def compile_defs(self):
        d = ["-D_GNU_SOURCE", "-DWITH_KECCAK_X4"]
        if self.config_h:
            d.append("-DHAVE_CONFIG_H")
        else:
            pass
        if self.openssl:
            d.append("-DHAVE_OPENSSL")
        if self.ndebug:
            d.append("-DNDEBUG")
        if self.tests:
            d += ["-DFAEST_STATIC", "-DFAEST_EXPORT=", "-DFAEST_TESTS"]
        else:
            d += ['-DFAEST_EXPORT=__attribute__((visibility("default")))']
        return d + self.defs

    def incdirs(self, gen):
        i = [gen, REPO, os.path.join(REPO, "sha3"), os.path.join(REPO, "sha3", self.sha3)]
        return ["-I" + x for x in i]


VBVER = hashlib.sha256(open(os.path.abspath(__file__), "rb").read()).hexdigest()


class Lib:
    def __init__(self, cfg, d):
        self.cfg, self.dir, self.gen = cfg, d, os.path.join(d, "gen")

    @property
    def objs(self):
        return sorted(os.path.join(self.dir, f) for f in os.listdir(self.dir) if f.endswith(".o"))

    def flags(self):
        f = self.cfg.compile_defs() + self.cfg.incdirs(self.gen)
        if self.cfg.preinclude:
            f += ["-include", os.path.join(VERIF, "harness", self.cfg.preinclude)]
        return f

    def libs(self):
        return (["-lcrypto"] if self.cfg.openssl else []) + ["-lpthread", "-lm", "-ldl"]


_locks, _lk = {}, threading.Lock()


def _lock(k):
    with _lk:
        return _locks.setdefault(k, threading.Lock())


_pool = ThreadPoolExecutor(JOBS)


def gen_sources(cfg, gen):
    os.makedirs(gen, exist_ok=True)
    with open(os.path.join(gen, "config.h"), "w") as f:
        f.write("#pragma once\n" + "".join("#define HAVE_%s\n" % h for h in cfg.have))
    sets = param_sets()
    with open(os.path.join(gen, "parameters.h"), "w") as f:
        for n, v in sets.items():
            for k, x in v.items():
                f.write("#define FAEST_%s_%s %s\n" % (v["PARAM"], k, x if re.fullmatch(r"-?\d+", x) else x))
    out = []
    for n, v in sets.items():
        for ext in ("c", "h"):
            with open(os.path.join(gen, "faest_%s.%s" % (n, ext)), "w") as f:
                f.write(subst("faest_param.%s.in" % ext, v))
        out.append(os.path.join(gen, "faest_%s.c" % n))
        nd = os.path.join(gen, "nist_" + n)
        os.makedirs(nd, exist_ok=True)
        open(os.path.join(nd, "crypto_sign.c"), "w").write(subst("crypto_sign.c.in", v))
        for h in ("crypto_sign.h", "api.h"):
            open(os.path.join(nd, h), "w").write(subst("crypto_sign.h.in", v))
    return out


def build_lib(cfg):
    key = "lib-%s-%s" % (cfg.name, cfg.key())
    d = os.path.join(BUILD, key)
    with _lock(key):
        if os.path.exists(os.path.join(d, ".ok")):
            os.utime(d)
            return Lib(cfg, d)
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
        # objects refer to the final location of generated headers only at compile time
        gen = os.path.join(tmp, "gen")
        srcs = gen_sources(cfg, gen)
        srcs += [os.path.join(REPO, s) for s in core_sources()]
        if cfg.rand:
            srcs.append(os.path.join(REPO, "randomness.c"))
        srcs += [os.path.join(REPO, "sha3", s + ".c") for s in SHA3]
        srcs += [os.path.join(REPO, s) for s in SHA3_IMPL[cfg.sha3]]
        pre = ["-include", os.path.join(VERIF, "harness", cfg.preinclude)] if cfg.preinclude else []

        def cc(src):
            o = os.path.join(tmp, re.sub(r"\W", "_", os.path.basename(src)) + ".o")
            if src.endswith(".s"):
                cmd = [cfg.cc, "-c", src, "-o", o]
            else:
                cmd = [cfg.cc, "-std=" + cfg.std, "-g", "-w", "-Werror=implicit-function-declaration",
                       "-Werror=incompatible-pointer-types"] + cfg.cflags + (
                           # XKCP reads unaligned words unless NO_MISALIGNED_ACCESSES is defined: a documented platform assumption
                           ["-fno-sanitize=alignment"] if os.sep + "sha3" + os.sep in src and ASAN == cfg.cflags[:len(ASAN)] else []) + (["-fPIC"] if cfg.pic else [])
                cmd += cfg.compile_defs() + pre + cfg.incdirs(gen) + ["-c", src, "-o", o]
            return src, sh(cmd)

        for src, (rc, out) in _pool.map(cc, srcs):
            if rc:
                shutil.rmtree(tmp, ignore_errors=True)
                raise BuildError("%s [%s]:\n%s" % (src, cfg.name, out[-3000:]))
        open(os.path.join(tmp, ".ok"), "w").write(key)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        return Lib(cfg, d)


def build_exe(name, lib, sources, flags=(), link=(), cxxflags=("-O2",), use_objs=True, extra_objs=(), deps=()):
    """Link a C++ harness from /verif/harness against a library build."""
    srcs = [os.path.join(VERIF, "harness", s) if not os.path.isabs(s) else s for s in sources]
    h = hashlib.sha256()
    hd = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(hd)):
        if f.endswith((".hpp", ".h")) or os.path.join(hd, f) in srcs:
            h.update(f.encode() + open(os.path.join(hd, f), "rb").read())
    h.update(repr((lib.cfg.key() if lib else "", srcs, flags, link, cxxflags, use_objs, extra_objs, VBVER)).encode())
    if lib is None:
        h.update(repo_hash().encode())
    key = "exe-%s-%s" % (name, h.hexdigest()[:20])
    exe = os.path.join(BUILD, key)
    with _lock(key):
        if os.path.exists(exe):
            os.utime(exe)
            return exe
        os.makedirs(BUILD, exist_ok=True)
        cxx = lib.cfg.cxx if lib else GXX
        tmp = exe + ".tmp%d" % os.getpid()
        objs = []
        hflags = [f for f in (lib.flags() if lib else [])]
        # harness sources are C++; the forced include may be C only, keep it for identical types

        def one(src):
            o = tmp + "-" + re.sub(r"\W", "_", os.path.basename(src)) + ".o"
            c = cxx
            std = ["-std=c++17"]
            if src.endswith(".c"):
                c, std = (lib.cfg.cc if lib else GCC), ["-std=c11"]
            cmd = [c] + std + ["-g", "-w"] + list(cxxflags) + hflags + list(flags) + ["-I" + hd, "-c", src, "-o", o]
            return o, sh(cmd)

        try:
            for o, (rc, out) in map(one, srcs):
                objs.append(o)
                if rc:
                    raise BuildError("harness %s: %s" % (name, out[-4000:]))
            san = [f for f in list(cxxflags) + (lib.cfg.cflags if lib else []) if f.startswith("-fsanitize") and f not in TRACE or f == "-fopenmp"]
            cmd = [cxx, "-o", tmp] + san + objs + list(extra_objs) + (lib.objs if lib and use_objs else []) + list(link)
            cmd += lib.libs() if lib else ["-lpthread", "-lm", "-ldl"]
            rc, out = sh(cmd)
            if rc:
                raise BuildError("link %s: %s" % (name, out[-4000:]))
            os.rename(tmp, exe)
        finally:
            for o in objs:
                if os.path.exists(o):
                    os.unlink(o)
        return exe


def compile_c(src, name, flags, cc=None):
    """one object file outside the library builds, cached by content of the repository and the harness headers"""
    h = hashlib.sha256((repo_hash() + repr((src, flags, cc)) + VBVER).encode())
    hd = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(hd)):
        if f.endswith(".h"):
            h.update(f.encode() + open(os.path.join(hd, f), "rb").read())
    if not src.startswith(REPO):
        h.update(open(src, "rb").read())
    o = os.path.join(BUILD, "obj-%s-%s.o" % (name, h.hexdigest()[:20]))
    with _lock(o):
        if not os.path.exists(o):
            os.makedirs(BUILD, exist_ok=True)
            tmp = o + ".tmp%d" % os.getpid()
            rc, out = sh([cc or GCC, "-std=c11", "-g", "-w", "-Werror=implicit-function-declaration"] + list(flags) + ["-c", src, "-o", tmp])
            if rc:
                raise BuildError("%s (%s): %s" % (src, name, out[-3000:]))
            os.rename(tmp, o)
    return o


def build_so(cfg, extra=()):
    """Shared library of a configuration: only exported symbols visible, no interposition."""
    lib = build_lib(cfg)
    so = os.path.join(lib.dir, "libfaest_%s.so" % cfg.name)
    with _lock(so):
        if not os.path.exists(so):
            san = [f for f in cfg.cflags if f.startswith("-fsanitize")]
            cmd = [cfg.cc, "-shared", "-Wl,-Bsymbolic", "-Wl,-z,noexecstack", "-o", so + ".tmp"] + san + lib.objs + list(extra) + lib.libs()
            rc, out = sh(cmd)
            if rc:
                raise BuildError("shared %s: %s" % (cfg.name, out[-3000:]))
            os.rename(so + ".tmp", so)
    return so


def prune(limit=3 << 30):
    """keep the cache bounded"""
    try:
        ents = []
        for e in os.listdir(BUILD):
            p = os.path.join(BUILD, e)
            if e.startswith("tmp-") or ".tmp" in e:
                if time.time() - os.path.getmtime(p) > 7200:
                    shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
                continue
            sz = os.path.getsize(p) if os.path.isfile(p) else sum(
                os.path.getsize(os.path.join(r, f)) for r, _, fs in os.walk(p) for f in fs)
            ents.append((os.path.getmtime(p), sz, p))
        tot = sum(e[1] for e in ents)
        for mt, sz, p in sorted(ents):
            if tot <= limit or time.time() - mt < 7200:
                break
            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
            tot -= sz
    except OSError:
        pass


# ------------------------------------------------------------------ named configurations
ASAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
TRACE = ["-fno-builtin", "-fsanitize-coverage=trace-pc", "-fsanitize=kernel-address", "-mllvm", "-asan-instrumentation-with-call-threshold=0",
         "-mllvm", "-asan-use-stack-safety=0", "-mllvm", "-asan-globals=0", "-mllvm", "-asan-stack=0"]
CONFIGS = {
    "trace": dict(cc=CLANG, cflags=["-O1"] + TRACE),
    "trace_O0": dict(cc=CLANG, cflags=["-O0"] + TRACE),
    "trace_portable": dict(cc=CLANG, cflags=["-O1"] + TRACE, openssl=False, sha3="plain32"),
    "trace_portable_O0": dict(cc=CLANG, cflags=["-O0"] + TRACE, openssl=False, sha3="plain32"),
    "default": dict(),
    "portable": dict(openssl=False, sha3="plain32", cflags=["-O3"]),
    "asan": dict(cc=CLANG, cflags=ASAN, preinclude="asan_ssl.h"),
    "asan_portable": dict(cc=CLANG, cflags=ASAN, openssl=False, sha3="plain32"),
    "clang": dict(cc=CLANG, cflags=["-O2"]),
    "O0": dict(cflags=["-O0"]),
    "O3": dict(cflags=["-O3"]),
    "native": dict(cflags=["-O3", "-march=native"]),
    "avx2": dict(sha3="avx2", cflags=["-O2", "-mavx2"]),
    "novec": dict(preinclude="novec.h"),
    "nobuiltin": dict(preinclude="nobuiltin.h", have=["GETRANDOM", "SYS_RANDOM_H", "POSIX_MEMALIGN"]),
    "generic": dict(have=["GETRANDOM", "SYS_RANDOM_H"], defs=["-UWITH_KECCAK_X4"], cc=CLANG, cflags=["-O1"]),
    "plain32": dict(sha3="plain32"),
    "portable_novec": dict(openssl=False, sha3="plain32", cflags=["-O2"], preinclude="novec.h"),
    "portable_clang": dict(openssl=False, cc=CLANG, cflags=["-O3"]),
    "portable_nobuiltin": dict(openssl=False, cflags=["-O2"], preinclude="nobuiltin.h", have=["GETRANDOM", "SYS_RANDOM_H"]),
    "noconf": dict(config_h=False),
    "nox4": dict(defs=["-UWITH_KECCAK_X4"]),
    "nohave": dict(have=[]),
    "ndebug": dict(ndebug=True, cflags=["-O3"]),
    "tsan": dict(cc=CLANG, cflags=["-O1", "-fsanitize=thread"]),
    "asan_avx2": dict(cc=CLANG, cflags=ASAN + ["-mavx2"], sha3="avx2", preinclude="asan_ssl.h"),
    "msan": dict(cc=CLANG, cflags=["-O1", "-fsanitize=memory", "-fno-omit-frame-pointer"], preinclude="msan_ssl.h", defs=["-UWITH_KECCAK_X4"]),
    "msan_portable": dict(cc=CLANG, cflags=["-O1", "-fsanitize=memory", "-fno-omit-frame-pointer"], openssl=False, sha3="plain32"),
}


def config(name, **over):
    kw = dict(CONFIGS[name])
    kw.update(over)
    nm = name + ("-" + "-".join("%s" % k for k in sorted(over)) if over else "")
    return Config(nm, **kw)


def cpu_has(flag):
    try:
        return (" %s " % flag) in open("/proc/cpuinfo").read().replace("\n", " \n ")
    except OSError:
        return False


def usable(name):
    """configurations this machine can run"""
    if name.endswith("avx2"):
        return cpu_has("avx2")
    return True
