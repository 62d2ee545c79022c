"""What each property check builds and runs."""
import os
from concurrent.futures import ThreadPoolExecutor
import vb
from pbt import Stage, THOROUGH, SEED, TIER


def n(quick, thorough):
    return thorough if THOROUGH else quick


def b(quick, thorough):
    return thorough if THOROUGH else quick


API_ONLY = False  # set when a harness that calls internal functions does not build against this tree


def exe(name, src, cfg="default", **kw):
    lib = vb.build_lib(vb.config(cfg))
    if API_ONLY:
        name, kw = name + "-apionly", dict(kw, flags=tuple(kw.get("flags", ())) + ("-DAPI_ONLY",))
    return vb.build_exe("%s-%s" % (name, cfg), lib, [src] if isinstance(src, str) else src, **kw)


def exes(name, src, cfgs, **kw):
    """the same harness for several configurations, built concurrently"""
    with ThreadPoolExecutor(len(cfgs)) as ex:
        return dict(zip(cfgs, ex.map(lambda c: exe(name, src, c, **kw), cfgs)))


def rand_exe():
    """rand_bytes compiled once per back end with its system calls replaced"""
    objs = []
    for be in ("urandom", "getrandom", "arc4"):
        objs.append(vb.compile_c(os.path.join(vb.REPO, "randomness.c"), "rb_" + be,
                                 ["-O2", "-D_GNU_SOURCE", "-I" + vb.REPO, "-I" + os.path.join(vb.VERIF, "harness"),
                                  "-include", os.path.join(vb.VERIF, "harness", "rb_%s.h" % be)]))
    return vb.build_exe("rand", None, ["h_rand.cpp"], extra_objs=tuple(objs))


def nist_objs(lib, cfg):
    """crypto_sign.c of every set with its symbols renamed"""
    def one(name):
        nd = os.path.join(lib.gen, "nist_" + name)
        ren = ["-D%s=%s_%s" % (s, s, name) for s in ("crypto_sign_keypair", "crypto_sign_open", "crypto_sign")]
        return vb.compile_c(os.path.join(nd, "crypto_sign.c"), "nist_%s_%s" % (cfg, name), ["-O1" if lib.cfg.cflags[:1] == ["-O1"] else "-O2", "-I" + nd] + [f for f in lib.cfg.cflags if "sanitize" in f] + ren + lib.flags(), cc=lib.cfg.cc)
    with ThreadPoolExecutor(vb.JOBS) as ex:
        return tuple(ex.map(one, sorted(vb.param_sets())))


def nist_exe(cfg="default"):
    lib = vb.build_lib(vb.config(cfg))
    return vb.build_exe("nist-" + cfg, lib, ["h_nist.cpp"], extra_objs=nist_objs(lib, cfg))


def kat_exe():
    lib = vb.build_lib(vb.config("default", rand=False))
    objs = nist_objs(lib, "kat")
    inc = ["-O2", "-DHAVE_RANDOMBYTES"] + lib.flags()
    objs += (vb.compile_c(os.path.join(vb.REPO, "randomness.c"), "kat_randomness", inc),
             vb.compile_c(os.path.join(vb.REPO, "tools", "rng.c"), "kat_rng", inc))
    return vb.build_exe("kat", lib, ["h_kat.cpp"], extra_objs=objs)


# name -> (compiler, flags, have-list or None for no config header)
NB = ["-DV_NOBUILTIN"]
COMPAT = {
    "native_gcc": ("gcc", ["-O2"], vb.HAVE), "native_clang": ("clang", ["-O2"], vb.HAVE), "native_noconf": ("gcc", ["-O2"], None),
    "native_O0": ("gcc", ["-O0"], vb.HAVE), "posix": ("gcc", ["-O2"], ["POSIX_MEMALIGN"]), "memalign": ("gcc", ["-O2"], ["MEMALIGN"]),
    "generic": ("gcc", ["-O2"], []), "generic_clang": ("clang", ["-O2"], []), "generic_O3": ("gcc", ["-O3"], []),
    "nobuiltin": ("gcc", ["-O2"] + NB, []), "nobuiltin_clang": ("clang", ["-O2"] + NB, []), "popcount": ("gcc", ["-O2", "-DV_POPCOUNT"] + NB, ["POSIX_MEMALIGN"]),
    "consttime": ("gcc", ["-O2", "-DV_CONSTTIME", "-DHAVE_CONSTTIME_MEMEQUAL"], ["MEMALIGN"]),
}


def compat_exe():
    def one(it):
        name, (cc, flags, have) = it
        ren = ["-D%s=%s_%s" % (f, f, name) for f in ("faest_aligned_alloc", "faest_aligned_free", "faest_timingsafe_bcmp", "faest_explicit_bzero")]
        fl = flags + ["-D_GNU_SOURCE", "-DVNAME=" + name, "-I" + os.path.join(vb.VERIF, "harness")] + ren
        if have is not None:
            d = os.path.join(vb.BUILD, "compat-" + name)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "config.h"), "w").write("#pragma once\n" + "".join("#define HAVE_%s\n" % h for h in have))
            fl += ["-DHAVE_CONFIG_H", "-I" + d]
        fl += ["-I" + vb.REPO]
        return vb.compile_c(os.path.join(vb.VERIF, "harness", "compat_variant.c"), "compat_" + name, fl, cc=vb.GCC if cc == "gcc" else vb.CLANG)
    with ThreadPoolExecutor(vb.JOBS) as ex:
        objs = tuple(ex.map(one, COMPAT.items()))
    d = os.path.join(vb.BUILD, "compat-list")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "compat_list.h"), "w").write("".join("X(%s)\n" % k for k in COMPAT))
    return vb.build_exe("compat", None, ["h_compat.cpp"], flags=("-I" + d,), extra_objs=objs)


def public_stages():
    """the same properties as far as whole signatures show them"""
    s, k = exe("sig", "h_sig.cpp"), exe("key", "h_key.cpp")
    return [Stage("C05_positions", k, n(12000, 200000), b(40, 500)), Stage("C04_keygen", k, n(20000, 200000), b(30, 300)),
            Stage("C02_bytes", s, n(720, 14000), b(60, 900)), Stage("C03_forgeries", s, n(450, 12000), b(60, 700))]


DIFF = ["clang", "O0", "O3", "native", "avx2", "novec", "noconf", "nox4", "nohave", "ndebug", "nobuiltin", "generic", "plain32"]
DIFF_AES = ["portable", "portable_novec", "portable_clang", "portable_nobuiltin"]


def sos(names):
    names = cfgs(*names)
    with ThreadPoolExecutor(6) as ex:
        paths = list(ex.map(lambda c: vb.build_so(vb.config(c)), names))
    return ",".join("%s=%s" % x for x in zip(names, paths))


def diff_exe():
    return exe("diff", "h_diff.cpp", use_objs=False, link=("-rdynamic",))


CHECKS = {}
PBT = "property-based testing (generated cases, shrinking): "
TECHNIQUE = {
    "C01": PBT + "sign-then-verify round trip",
    "C02": PBT + "differential against an independent reference signer",
    "C03": PBT + "differential of verdicts against a reference verifier, forgeries by a simulated dishonest signer, mutation of signatures",
    "C04": PBT + "model of rejection sampling over scripted randomness",
    "C05": PBT + "constructed degenerate keys, differential against a reference key checker",
    "C06": PBT + "argument faults and guard-paged buffers, differential against a reference",
    "C07": "structure-aware fuzzing of the public API under AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer",
    "C08": "model-based (stateful) testing of call histories, randomised concurrent histories, also under ThreadSanitizer",
    "C09": "differential testing between builds of the library in one process",
    "C10": PBT + "differential against an independent AES/Rijndael model, chosen internal states",
    "C11": PBT + "differential against an independent SHAKE model over input splits and squeeze sequences",
    "C12": PBT + "differential against bit-serial field arithmetic, algebraic laws, random programs of field operations, exhaustive GF(2^8)",
    "C13": PBT + "differential against the definition, linearity (metamorphic), streaming against one-shot",
    "C14": PBT + "differential against a model of the commitment tree, commit/open/recompute round trip, tampering",
    "C15": PBT + "VOLE correlation invariant, differential against a model, consistency of tampered openings",
    "C16": PBT + "proof/verification invariant over VOLE values, differential against a model, tampered witnesses and columns",
    "C17": PBT + "round trip and mutation of signed messages against a reference verifier",
    "C18": "fault injection: generated schedules of failing, short and interrupted randomness draws against a model",
    "C19": PBT + "differential of every portability variant against definitions, guard pages, residue search on a private stack",
    "C20": "relational (two-run) property-based testing: traces of basic blocks and addresses for pairs of secrets must coincide",
    "C21": PBT + "differential against a model of the NIST DRBG and of key and signature derivation",
    "C22": PBT + "exhaustive identifiers against parameter definitions",
    "C23": "model-based testing of call histories with an instrumented allocator and descriptor table; allocation balance as the invariant",
}


def check(pid, level, assumptions):
    def deco(f):
        CHECKS[pid] = (f, level, assumptions)
        return f
    return deco


MODEL = ("The reference model /verif/harness/model.hpp (written from the specification, validated against the published "
         "known-answer behaviour of all twelve sets) is the oracle.")
SAMPLED = "Inputs are sampled, not exhausted: the check shows absence of violations on the generated cases only."


@check("C01", "exploration", [SAMPLED])
def c01(r):
    e = exe("sig", "h_sig.cpp")
    return [Stage("C01_complete", e, n(2000, 24000), b(100, 900)), Stage("C01_many", e, n(960, 40000), b(80, 1500))]


@check("C02", "exploration", [MODEL, SAMPLED])
def c02(r):
    e = exe("sig", "h_sig.cpp")
    return [Stage("C02_huge", e, n(8, 32), 600, cpu=400), Stage("C02_lengths", e, n(1296, 13000), b(60, 600)), Stage("C02_bytes", e, n(720, 14000), b(60, 900))]


@check("C03", "exploration", [MODEL, SAMPLED])
def c03(r):
    e = exe("sig", "h_sig.cpp")
    try:  # a stage that needs the present internal interfaces; the others do not
        w = ["Keccak_HashSqueeze", "vole_hash", "aes_verify"]
        every = [Stage("C03_everybit", exe("fault", "h_fault.cpp", link=tuple("-Wl,--wrap=" + f for f in w)), n(480, 12000), b(60, 500))]
    except vb.BuildError:
        every = []
    return every + [Stage("C03_huge", e, n(8, 32), 600, cpu=400), Stage("C03_lengths", e, n(648, 13000), b(60, 600)), Stage("C03_forgeries", e, n(1000, 14000), b(100, 700)), Stage("C03_mutations", e, n(216, 6000), b(110, 900))]


@check("C04", "exploration", [MODEL, SAMPLED, "The random source is replaced by a stand-in for getrandom/getentropy inside the test process."])
def c04(r):
    e = exe("key", "h_key.cpp")
    return [Stage("C04_keygen", e, n(60000, 1500000), b(60, 900))]


@check("C05", "exploration", [MODEL, SAMPLED])
def c05(r):
    e = exe("key", "h_key.cpp")
    return [Stage("C05_positions", e, n(12000, 200000), b(40, 500)), Stage("C05_validate", e, n(60000, 1200000), b(40, 500)),
            Stage("C05_sign", e, n(1500, 30000), b(40, 500))]


@check("C18", "fault_enumeration", [MODEL, "Faults are injected at the getrandom/getentropy interface; for the other back ends at open/read/ioctl."])
def c18(r):
    e = exe("key", "h_key.cpp")
    return [Stage("C18_faults", e, n(3500, 60000), b(60, 900)), Stage("C18_backend", rand_exe(), n(400000, 8000000), b(40, 400))]


def cfgs(*names):
    return [x for x in names if vb.usable(x)]


@check("C10", "exploration", [MODEL, SAMPLED])
def c10(r):
    if API_ONLY:
        return public_stages()
    e, p = exes("prim", "h_prim.cpp", ["default", "portable"]).values()
    return [Stage("C10_cipher", e, n(400000, 8000000), b(30, 500)), Stage("C10_owf", e, n(200000, 4000000), b(30, 400)),
            Stage("C10_prg", e, n(200000, 4000000), b(20, 400)),
            Stage("C10_prg", p, n(150000, 3000000), b(25, 400), name="C10_prg built-in AES")]


@check("C11", "exploration", [MODEL, SAMPLED])
def c11(r):
    if API_ONLY:
        return public_stages()
    st = []
    for c, e in exes("prim", "h_prim.cpp", cfgs("default", "portable", "avx2", "nox4")).items():
        k = "" if c == "default" else " [%s]" % c
        st += [Stage("C11_hash", e, n(80000, 1600000), b(12, 200), name="C11_hash" + k),
               Stage("C11_x4", e, n(40000, 400000), b(12, 200), name="C11_x4" + k),
               Stage("C11_oracles", e, n(40000, 400000), b(12, 200), name="C11_oracles" + k)]
    return st


@check("C12", "exploration", [MODEL, SAMPLED, "GF(2^8) multiplication and inversion are checked for all operands."])
def c12(r):
    if API_ONLY:
        return public_stages()
    st = []
    for c, e in exes("prim", "h_prim.cpp", cfgs("default", "novec", "clang", "portable")).items():
        k = "" if c == "default" else " [%s]" % c
        st += [Stage("C12_bf8", e, 256, 30, name="C12_bf8" + k),
               Stage("C12_fields", e, n(150000, 4000000), b(12, 200), name="C12_fields" + k),
               Stage("C12_expr", e, n(60000, 2000000), b(12, 200), name="C12_expr" + k),
               Stage("C12_embed", e, n(30000, 600000), b(8, 200), name="C12_embed" + k),
               Stage("C12_sum", e, n(6000, 200000), b(8, 100), name="C12_sum" + k)]
    return st


@check("C13", "exploration", [MODEL, SAMPLED])
def c13(r):
    if API_ONLY:
        return public_stages()
    st = []
    for c, e in exes("prim", "h_prim.cpp", cfgs("default", "novec", "clang")).items():
        k = "" if c == "default" else " [%s]" % c
        st += [Stage("C13_vole_hash", e, n(60000, 800000), b(14, 250), name="C13_vole_hash" + k),
               Stage("C13_zk_hash", e, n(60000, 600000), b(12, 250), name="C13_zk_hash" + k)]
    return st


@check("C14", "exploration", [MODEL, SAMPLED])
def c14(r):
    if API_ONLY:
        return public_stages()
    e = exe("vc", "h_vc.cpp")
    return [Stage("C14_tree", e, n(4000, 100000), b(40, 600)), Stage("C14_binding", e, n(16000, 400000), b(30, 600))]


@check("C15", "exploration", [MODEL, SAMPLED])
def c15(r):
    if API_ONLY:
        return public_stages()
    e = exe("vc", "h_vc.cpp")
    return [Stage("C15_digits", e, n(100000, 2000000), b(15, 200)), Stage("C15_convert", e, n(20000, 400000), b(25, 400)),
            Stage("C15_vole", e, n(2000, 40000), b(40, 900))]


@check("C16", "exploration", [MODEL, SAMPLED])
def c16(r):
    if API_ONLY:
        return public_stages()
    e = exe("vc", "h_vc.cpp")
    return [Stage("C16_witness", e, n(60000, 1000000), b(15, 200)), Stage("C16_proof", e, n(24000, 400000), b(45, 1200))]


@check("C06", "exploration", [SAMPLED, "A NULL message with non-zero length is outside the documented contract and not generated."])
def c06(r):
    e = exe("api", "h_api.cpp")
    return [Stage("C06_refused", e, n(60000, 1500000), b(20, 300)), Stage("C06_outputs", e, n(800, 20000), b(60, 900))]


@check("C08", "exploration", [MODEL, SAMPLED, "Schedules are those the operating system and ThreadSanitizer's happens-before analysis expose."])
def c08(r):
    ex = exes("api", "h_api.cpp", ["default", "tsan"])
    return [Stage("C08_history", ex["default"], n(300, 9000), b(60, 900)),
            Stage("C08_threads", ex["default"], n(60, 3000), b(30, 500), shards=2, flaky=True),
            Stage("C08_threads", ex["tsan"], n(60, 2000), b(40, 600), shards=4, flaky=True, name="C08_threads [ThreadSanitizer]",
                  env={"C08_SMALL": "1"})]


@check("C22", "exploration", [MODEL, "All twelve identifiers and all small non-identifiers are covered exhaustively."])
def c22(r):
    e = exe("api", "h_api.cpp")
    return [Stage("C22_tables", e, n(200000, 4000000), b(15, 100))]


@check("C23", "exploration", [SAMPLED, "One-time caches inside OpenSSL are warmed up first and not counted."])
def c23(r):
    e = exe("mem", "h_mem.cpp")
    return [Stage("C23_leaks", e, n(1200, 40000), b(40, 700)), Stage("C23_growth", e, n(120, 3000), b(30, 400))]


@check("C17", "exploration", [MODEL, SAMPLED])
def c17(r):
    e = nist_exe()
    return [Stage("C17_roundtrip", e, n(500, 12000), b(40, 600)), Stage("C17_reject", e, n(400, 10000), b(50, 900))]


@check("C21", "exploration", [MODEL, SAMPLED])
def c21(r):
    e = kat_exe()
    return [Stage("C21_drbg", e, n(12000, 500000), b(20, 300)), Stage("C21_kat", e, n(250, 6000), b(45, 700))]


@check("C19", "exploration", [SAMPLED, "Variants for other operating systems and compilers (Windows, BSD, big-endian) cannot be compiled here."])
def c19(r):
    k = compat_exe()
    cl = exes("api", "h_api.cpp", ["default", "portable"])
    st = [Stage("C19_clear", cl["default"], n(100000, 2000000), b(10, 100)),
          Stage("C19_clear", cl["portable"], n(50000, 1000000), b(10, 100), name="C19_clear [portable]"),
          Stage("C19_bytes", k, n(256 * len(COMPAT), 40 * 256 * len(COMPAT)), b(15, 200)), Stage("C19_words", k, n(400000, 10000000), b(10, 200)),
          Stage("C19_memory", k, n(60000, 1500000), b(10, 200)), Stage("C19_residue", k, n(1500, 30000), b(10, 200)),
          Stage("C19_alloc", k, n(20000, 1000000), b(10, 200))]
    return st


@check("C09", "exploration", [SAMPLED, "Configurations for other platforms (NEON, s390x, Windows, big-endian) cannot be executed here; the built-in "
                              "AES is slow, so quick runs use it with the 128-bit sets for whole signatures."])
def c09(r):
    e = diff_exe()
    a, p = sos(["default"] + DIFF), sos(["default"] + DIFF_AES)
    small = "2,8" if not THOROUGH else "2,8,7,1,4,10,6,12"
    return [s for s in [Stage("C09_prims", e, n(40000, 1000000), b(10, 300), env={"VERIF_SOS": a}),
            Stage("C09_prims", e, n(6000, 200000), b(10, 300), env={"VERIF_SOS": p}, name="C09_prims [built-in AES]"),
            Stage("C09_calls", e, n(320, 12000), b(30, 900), env={"VERIF_SOS": a}),
            Stage("C09_calls", e, n(24, 2000), b(30, 1200), env={"VERIF_SOS": p, "VERIF_SETS": small}, name="C09_calls [built-in AES]")]
            if not (API_ONLY and s.prop == "C09_prims")]


@check("C07", "exploration", [SAMPLED, "Undefined behaviour is what AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer of clang 18 report; "
                              "allocation failure is outside the property."])
def c07(r):
    co = ("--crash-only", "1")
    ex = exes("fuzz", "h_fuzz.cpp", cfgs("asan", "asan_portable", "asan_avx2", "msan", "msan_portable"))
    st = []
    for c, e in ex.items():
        q, t, env = {"asan": (700, 20000, {}), "asan_avx2": (200, 6000, {}), "msan": (500, 12000, {}),
                     "asan_portable": (60, 3000, {"C07_FAST": "2"}), "msan_portable": (60, 3000, {"C07_FAST": "2"})}[c]
        st.append(Stage("C07_api", e, n(q, t), b(12, 400), env=env, name="C07_api [%s]" % c))
    e = nist_exe("asan")
    st.append(Stage("C17_reject", e, n(80, 4000), b(10, 400), args=co, name="NIST open [asan]"))
    st.append(Stage("C17_roundtrip", e, n(80, 4000), b(8, 400), args=co, name="NIST round trip [asan]"))
    return st


@check("C20", "exploration", [SAMPLED, "Observed are basic blocks and data addresses of clang builds at two optimisation levels; other compilers may "
                              "introduce branches of their own.  OpenSSL's code is not observed."])
def c20(r):
    wrap = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strncmp", "memchr", "Keccak_HashSqueeze"]
    ex = exes("trace", "h_trace.cpp", ["trace", "trace_O0", "trace_portable", "trace_portable_O0"],
              link=tuple("-Wl,--wrap=" + w for w in wrap) + ("-rdynamic",))
    st = []
    for c, e in ex.items():
        env = {"C20_SETS": "2,8" if "portable" in c else "2,8,4,10,6,12"} if not THOROUGH else {}
        st += [Stage("C20_compare", e, n(4000, 100000), b(3, 60), name="C20_compare [%s]" % c),
               Stage("C20_keys", e, n(6000, 200000), b(5, 200), name="C20_keys [%s]" % c),
               Stage("C20_parts", e, n(20000, 300000), b(8, 150), name="C20_parts [%s]" % c),
               Stage("C20_prove", e, n(96, 3000), b(10, 300), env=env, name="C20_prove [%s]" % c),
               Stage("C20_sign", e, n(60, 3000), b(10, 900), env=env, name="C20_sign [%s]" % c)]
    if API_ONLY:
        st = [s for s in st if s.prop in ("C20_keys", "C20_sign")]
    if not THOROUGH:
        st = [s for s in st if s.name != "C20_sign [trace_portable_O0]"]  # several seconds per signature
    return st
