#!/usr/bin/env python3
"""Development tool, no check: mutates one source line at a time in a scratch copy and reports the mutants
that the harnesses' quick stages do not notice, so that a person can tell equivalent ones from gaps.

usage: mutate.py WORKDIR FILE[,FILE..] [COUNT] [SEED]      (WORKDIR is outside /repo and /verif)"""
import os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
work, files = sys.argv[1], sys.argv[2].split(",")
count = int(sys.argv[3]) if len(sys.argv) > 3 else 50
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
cfgname = os.environ.get("MUT_CFG", "default")
os.makedirs(work, exist_ok=True)
COPY = os.path.join(work, "repo")
if not os.path.exists(COPY):
    shutil.copytree("/repo", COPY, ignore=shutil.ignore_patterns("_build", ".git"))
os.environ["FAEST_REPO"] = COPY
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vb
vb.BUILD = os.path.join(work, "build")
HD = os.path.join(vb.VERIF, "harness")
cfg = vb.config(cfgname)
lib = vb.build_lib(cfg)
gen = lib.gen
SHARDS = 8


def harness(name, srcs):
    out = []
    for s in srcs:
        o = os.path.join(work, "h-%s-%s.o" % (cfgname, s))
        src = os.path.join(HD, s)
        if not os.path.exists(o) or os.path.getmtime(o) < max(os.path.getmtime(os.path.join(HD, f)) for f in os.listdir(HD)):
            rc, t = vb.sh([cfg.cxx, "-std=c++17", "-g0", "-w", "-O2"] + lib.flags() + ["-I" + HD, "-c", src, "-o", o])
            if rc:
                raise SystemExit(t)
        out.append(o)
    return out


H = {"sig": ["h_sig.cpp"], "key": ["h_key.cpp"], "prim": ["h_prim.cpp"], "vc": ["h_vc.cpp"], "api": ["h_api.cpp"], "mem": ["h_mem.cpp"]}
with ThreadPoolExecutor(6) as ex:
    HO = dict(zip(H, ex.map(lambda k: harness(k, H[k]), H)))
P = {  # harness, property, cases, budget
    "C01": ("sig", "C01_complete", 200, 15), "C02": ("sig", "C02_bytes", 400, 25), "C03f": ("sig", "C03_forgeries", 500, 25),
    "C03m": ("sig", "C03_mutations", 100, 40), "C04": ("key", "C04_keygen", 30000, 10), "C05p": ("key", "C05_positions", 12000, 15),
    "C05v": ("key", "C05_validate", 60000, 10), "C05s": ("key", "C05_sign", 600, 12), "C18": ("key", "C18_faults", 3500, 15),
    "C10c": ("prim", "C10_cipher", 100000, 10), "C10o": ("prim", "C10_owf", 100000, 10), "C10p": ("prim", "C10_prg", 50000, 10),
    "C11h": ("prim", "C11_hash", 30000, 10), "C11x": ("prim", "C11_x4", 20000, 10), "C11o": ("prim", "C11_oracles", 20000, 10),
    "C12b": ("prim", "C12_bf8", 256, 30), "C12f": ("prim", "C12_fields", 100000, 10), "C12e": ("prim", "C12_expr", 30000, 10),
    "C12m": ("prim", "C12_embed", 30000, 8), "C12s": ("prim", "C12_sum", 6000, 8), "C13v": ("prim", "C13_vole_hash", 30000, 10),
    "C13z": ("prim", "C13_zk_hash", 30000, 10), "C14t": ("vc", "C14_tree", 4000, 20), "C14b": ("vc", "C14_binding", 8000, 15),
    "C15d": ("vc", "C15_digits", 50000, 10), "C15c": ("vc", "C15_convert", 10000, 15), "C15v": ("vc", "C15_vole", 1000, 25),
    "C16w": ("vc", "C16_witness", 30000, 10), "C16p": ("vc", "C16_proof", 12000, 30), "C06r": ("api", "C06_refused", 30000, 10),
    "C06o": ("api", "C06_outputs", 400, 30), "C08": ("api", "C08_history", 200, 30), "C22": ("api", "C22_tables", 100000, 10),
    "C23l": ("mem", "C23_leaks", 600, 20),
}
MAP = {
    "aes.c": "C10c C10o C10p C16w C02 C05p C08 C23l", "owf.c": "C10o C05v C05p C02", "fields.c": "C12b C12f C12e C12m C12s C16p C02",
    "universal_hashing.c": "C13v C13z C02", "vc.c": "C14t C14b C15v C02 C03f C23l", "vole.c": "C15d C15c C15v C02 C03f C23l",
    "faest_aes.c": "C16w C16p C02 C03f C03m C23l C01 C08", "faest.c": "C02 C03f C03m C06o C08 C23l C01", "random_oracle.c": "C11o C11x C02",
    "instances.c": "C22 C02 C06r", "faest_param.c.in": "C04 C05v C05p C05s C06r C06o C18 C02 C03m C08 C23l",
    "compat.c": "C05v C04",
}
for f in ["sha3/KeccakHash.c", "sha3/KeccakHashtimes4.c", "sha3/KeccakSponge.inc", "sha3/KeccakSpongetimes4.inc",
          "sha3/opt64/KeccakP-1600-opt64.c", "sha3/opt64/KeccakP-1600-times4-on1.c", "sha3/opt64/PlSnP-Fallback.inc",
          "sha3/plain32/KeccakP-1600-inplace32BI.c", "sha3/plain32/PlSnP-Fallback.inc"]:
    MAP[f] = "C11h C11x C11o"
DEP = {"sha3/KeccakSponge.inc": ["sha3/KeccakSponge.c"], "sha3/KeccakSpongetimes4.inc": ["sha3/KeccakSpongetimes4.c"],
       "sha3/opt64/PlSnP-Fallback.inc": ["sha3/opt64/KeccakP-1600-times4-on1.c"],
       "sha3/plain32/PlSnP-Fallback.inc": ["sha3/plain32/KeccakP-1600-times4-on1.c"]}


def mutants(text):
    out = []
    lines = text.split("\n")
    incomment = skip = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            incomment = True
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        if not s or s.startswith(("//", "#", "*", "}", "typedef", "static_assert", "assert")) or s in ("{", "else"):
            continue
        code = l.split("//")[0]
        for a, bs in (("<=", ["<"]), (" < ", [" <= ", " != "]), (" > ", [" >= "]), (">=", [">"]), ("==", ["!="]), ("!=", ["=="]), (" + ", [" - "]),
                      (" - ", [" + "]), (" * ", [" + "]), (" / ", [" * "]), (" % ", [" / "]), (" ^ ", [" | ", " & "]), (" & ", [" | "]), (" | ", [" ^ ", " & "]),
                      ("<<", [">>"]), (">>", ["<<"]), ("&&", ["||"]), ("||", ["&&"]), ("^= ", ["= "]), ("|= ", ["= ", "&= "]), ("+= ", ["= ", "-= "]),
                      ("++", ["--"]), ("true", ["false"]), ("false", ["true"]), ("= 0;", ["= 1;"]), ("return 0;", ["return 1;"]),
                      ("lambdaBytes", ["lambda"]), ("lambda_bytes", ["lambda"]), ("?", None)):
            if bs is None:
                continue
            for m in re.finditer(re.escape(a), code):
                if a in ("<", ">") or (a == " < " and "#include" in l):
                    continue
                for b in bs:
                    out.append((i, l[:m.start()] + b + l[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
            v = int(m.group(1))
            for nv in {v + 1, max(0, v - 1)} - {v}:
                out.append((i, l[:m.start()] + str(nv) + l[m.end():]))
        if s.endswith(";") and not re.match(r"\s*(const |unsigned |uint\w+_t |int |size_t |u?int |bf\w+_t |return|bool |static |H\d|break|continue|\w+_t )", l) and "(" in s or re.match(r"\s*[\w\[\]>.\->*+ ]+ [\^|&+\-]?= .*;$", l):
            out.append((i, re.match(r"\s*", l).group(0) + ";"))
        m = re.match(r"(\s*(?:\} else )?if \()(.*)(\) \{)$", l)
        if m:
            out.append((i, m.group(1) + "0" + m.group(3)))
            out.append((i, m.group(1) + "1" + m.group(3)))
            out.append((i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)))
    return lines, out


def compile_one(src, o):
    return vb.sh([cfg.cc, "-std=" + cfg.std, "-w", "-Werror=implicit-function-declaration"] + cfg.cflags + ["-fPIC"] + lib.flags() + ["-c", src, "-o", o])


def run_prop(key, exe, tmp):
    h, prop, nn, bud = P[key]
    ps = []
    for i in range(SHARDS):
        ps.append(subprocess.Popen([exe, "run", "--prop", prop, "--seed", "1", "--shard", str(i), "--nshards", str(SHARDS), "--max", str(nn), "--budget",
                                    str(bud), "--cpu", "60", "--state", tmp + "/st%d" % i, "--out", tmp + "/out%d" % i], stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, env=dict(os.environ, MALLOC_PERTURB_="165")))
    bad = False
    while ps:
        for p in list(ps):
            if p.poll() is not None:
                ps.remove(p)
                if p.returncode:
                    bad = True
        if bad:
            for p in ps:
                p.kill()
            for p in ps:
                p.wait()
            return True
        time.sleep(0.02)
    return False


log = open(os.path.join(work, "survivors-%s.txt" % cfgname), "a")
for f in files:
    path = os.path.join(COPY, f)
    orig = open(os.path.join("/repo", f)).read()
    open(path, "w").write(orig)
    lines, ms = mutants(orig)
    random.Random(seed).shuffle(ms)
    ms = ms[:count]
    killed = comp = 0
    stats = {}
    tmp = os.path.join(work, "t")
    os.makedirs(tmp, exist_ok=True)
    try:
        for i, new in ms:
            if new == lines[i]:
                continue
            open(path, "w").write("\n".join(lines[:i] + [new] + lines[i + 1:]))
            if f.endswith(".in"):
                srcs = vb.gen_sources(cfg, os.path.join(work, "gen"))
            else:
                srcs = [os.path.join(COPY, x) for x in DEP.get(f, [f])]
            objs = {re.sub(r"\W", "_", os.path.basename(s)) + ".o": s for s in srcs}
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(lambda it: compile_one(it[1], os.path.join(tmp, it[0])), objs.items()))
            if any(r[0] for r in rs):
                continue
            comp += 1
            libobjs = [os.path.join(tmp, os.path.basename(o)) if os.path.basename(o) in objs else o for o in lib.objs]
            dead = None
            built = {}
            for key in MAP[f].split():
                h = P[key][0]
                if h not in built:
                    exe = os.path.join(tmp, h)
                    rc, t = vb.sh([cfg.cxx, "-o", exe] + HO[h] + libobjs + lib.libs())
                    if rc:
                        dead = "link"
                        break
                    built[h] = exe
                if run_prop(key, built[h], tmp):
                    dead = key
                    break
            if dead:
                killed += 1
                stats[dead] = stats.get(dead, 0) + 1
            else:
                log.write("%s:%d\n- %s\n+ %s\n" % (f, i + 1, lines[i].strip(), new.strip()))
                log.flush()
    finally:
        open(path, "w").write(orig)
    print("%s: %d mutants compiled, %d killed, %d survive %s" % (f, comp, killed, comp - killed, stats), flush=True)
