"""Runs property harnesses over generated cases, shrinks failures, confirms them, writes evidence."""
import hashlib, json, os, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import vb

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
REPLAYS = os.path.join(vb.VERIF, "replays")

RUNENV = dict(os.environ)
RUNENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1",
    "MSAN_OPTIONS": "halt_on_error=1:exitcode=99",
    "MALLOC_PERTURB_": "165",
    "OMP_NUM_THREADS": "1",
})


class Stage:
    """one property function of one harness executable, and how much of it to run"""

    def __init__(self, prop, exe, n, budget=120, cpu=120, shards=None, env=None, name=None, flaky=False, args=(), rule=None):
        self.prop, self.exe, self.n, self.budget, self.cpu = prop, exe, n, budget, cpu
        self.shards = shards or vb.JOBS
        self.env = dict(RUNENV)
        self.env.update(env or {})
        self.name = name or prop
        self.flaky = flaky
        self.args = list(args)
        self.rule = rule


class Failure:
    def __init__(self, stage, shard, msg, choices, kind, stderr="", index=0, desc=""):
        self.stage, self.shard, self.msg, self.choices, self.kind = stage, shard, msg, choices, kind
        self.stderr, self.index, self.desc = stderr, index, desc
        self.history = None
        self.confirmed = None


def read_state(path):
    try:
        with open(path, "rb") as f:
            head = f.read(32)
            magic, index, running, n = struct.unpack("<4Q", head)
            if magic != 0x50425431 or not running:
                return None
            data = f.read(8 * n)
            return index, list(struct.unpack("<%dQ" % (len(data) // 8), data))
    except Exception:
        return None


def exit_kind(rc):
    if rc == 97:
        return "hang"
    if rc == 99:
        return "sanitizer report"
    if rc < 0:
        return "killed by signal %d" % -rc
    return "exit code %d" % rc


def rule_of(exe, prop):
    """how a harness makes the cases of a property, and which it counts as non-trivial"""
    try:
        r = subprocess.run([exe, "list"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=60, text=True)
        return dict(l.split("\t", 1) for l in r.stdout.split("\n") if "\t" in l).get(prop, "")
    except (OSError, subprocess.TimeoutExpired, ValueError):
        return ""


class Runner:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="pbt-%s-" % pid)
        self.evals = self.discards = self.nontriv = 0
        self.distinct = set()
        self.samples, self.labels, self.rules, self.stages, self.notes = [], {}, [], [], []
        self.failures = []
        self.extra = {}
        self.errors = []

    # -------------------------------------------------------------- running
    def shard_cmd(self, st, shard, out, state, nmax=None):
        return [st.exe, "run", "--prop", st.prop, "--seed", str(SEED), "--shard", str(shard), "--nshards", str(st.shards),
                "--max", str(st.n if nmax is None else nmax), "--budget", str(st.budget), "--cpu", str(st.cpu),
                "--thorough", "1" if THOROUGH else "0", "--state", state, "--out", out] + st.args

    def run_shard(self, st, shard, nmax=None, tag=""):
        base = os.path.join(self.tmp, "%s-%d%s" % (hashlib.md5((st.name + st.exe).encode()).hexdigest()[:8], shard, tag))
        out, state = base + ".json", base + ".state"
        for f in (out, state):
            if os.path.exists(f):
                os.unlink(f)
        with open(base + ".err", "w+b") as err:
            p = subprocess.run(self.shard_cmd(st, shard, out, state, nmax), stdout=err, stderr=err, env=st.env,
                               stdin=subprocess.DEVNULL)
            err.seek(max(0, err.tell() - 20000))
            stderr = err.read().decode("latin1")
        rc = p.returncode
        res = None
        if rc in (0, 3) and os.path.exists(out):
            res = json.load(open(out))
            try:
                raw = open(out + ".h64", "rb").read()
                res["hashes"] = struct.unpack("<%dQ" % (len(raw) // 8), raw)
            except OSError:
                res["hashes"] = ()
        fail = None
        if rc == 3 and res:
            fail = Failure(st, shard, res["msg"], res["choices"], "property", stderr[-4000:], res["index"], res["desc"])
        elif rc != 0:
            s = read_state(state)
            if s is None:
                if rc == 2 or rc in (-9, -15):
                    self.errors.append("%s shard %d: exit %d without a case: %s" % (st.name, shard, rc, stderr[-500:]))
                else:
                    fail = Failure(st, shard, exit_kind(rc) + " outside a case", None, exit_kind(rc), stderr)
            elif rc == -9:
                self.errors.append("%s shard %d: killed (memory?)" % (st.name, shard))
            else:
                fail = Failure(st, shard, exit_kind(rc), s[1], exit_kind(rc), stderr, s[0])
        if os.path.exists(state):
            os.unlink(state)
        return res, fail

    def run_stage(self, st):
        t = time.time()
        with ThreadPoolExecutor(st.shards) as ex:
            rs = list(ex.map(lambda i: self.run_shard(st, i), range(st.shards)))
        ev = nt = di = 0
        before = len(self.distinct)
        lab = {}
        samples = []
        for res, fail in rs:
            if res:
                ev += res["evals"]
                nt += res["nontrivial"]
                di += res["discards"]
                self.distinct.update(hash((st.name, h)) for h in res["hashes"])
                for k, v in res["labels"].items():
                    lab[k] = lab.get(k, 0) + v
                samples += res["samples"]
            if fail:
                self.failures.append(fail)
        self.evals += ev
        self.nontriv += nt
        self.discards += di
        for s in samples[:2] + samples[-1:]:
            self.samples.append("[%s] %s" % (st.name, s))
        rule = st.rule or rule_of(st.exe, st.prop)
        if rule and not any(r.endswith(": " + rule) for r in self.rules):
            self.rules.append("%s: %s" % (st.name, rule))
        self.stages.append({"stage": st.name, "evaluations": ev, "nontrivial": nt, "distinct_nontrivial": len(self.distinct) - before,
                            "discarded": di, "wall_s": round(time.time() - t, 2), "labels": dict(sorted(lab.items()))})
        return not any(f for _, f in rs)

    def run_stages(self, stages):
        """all stages; heavy parallelism inside each.  Stops after the first stage with a confirmed failure."""
        for st in stages:
            if st is None:
                continue
            k = len(self.failures)
            if not self.run_stage(st):
                for f in self.failures[k:]:
                    if not (self.known and self.known(f)) and self.is_confirmed(f):
                        return False
        return True

    known = None

    def is_confirmed(self, f):
        if f.confirmed is None:
            f.confirmed = self.confirm(f)
        return f.confirmed

    # -------------------------------------------------------------- confirming
    def replay(self, st, choices, timeout=None):
        f = os.path.join(self.tmp, "c-%d-%d.txt" % (os.getpid(), int(time.time() * 1e6)))
        with open(f, "w") as o:
            o.write(" ".join(map(str, choices)))
        try:
            p = subprocess.run([st.exe, "replay", "--prop", st.prop, "--choices", f, "--cpu", str(st.cpu), "--thorough",
                                "1" if THOROUGH else "0"] + st.args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=st.env,
                               timeout=timeout, stdin=subprocess.DEVNULL)
            return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")[-6000:]
        except subprocess.TimeoutExpired:
            return 0, "", "timeout"
        finally:
            os.unlink(f)

    def shrink(self, st, choices, kind, limit):
        end = time.time() + limit
        best = list(choices)

        def bad(c):
            if time.time() > end:
                return False
            rc, out, _ = self.replay(st, c)
            return rc == 3 if kind == "property" else (rc not in (0, 2, 3) and exit_kind(rc) == kind)

        improved = True
        while improved and time.time() < end:
            improved = False
            # drop trailing / chunks
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < end:
                i = len(best) - size
                while i >= 0 and time.time() < end:
                    c = best[:i] + best[i + size:]
                    if bad(c):
                        best, improved = c, True
                    i -= size
                size //= 2
            i = 0
            while i < len(best) and time.time() < end:
                v = best[i]
                for nv in ([0] + [v >> k for k in (32, 16, 8, 4, 2, 1)] + [v - 1] if v else []):
                    if 0 <= nv < best[i] and bad(best[:i] + [nv] + best[i + 1:]):
                        best[i] = nv
                        improved = True
                        break
                i += 1
        return best

    def confirm(self, f):
        """returns True when the failure reproduces"""
        st = f.stage
        if f.choices is not None:
            n = 3
            hits = 0
            for _ in range(n if not st.flaky else 12):
                rc, out, err = self.replay(st, f.choices)
                if rc == 3 or rc not in (0, 2):
                    hits += 1
                    f.stderr = err or f.stderr
                    if st.flaky:
                        break
                elif not st.flaky:
                    break
            if hits == n or (st.flaky and hits):
                if not st.flaky:
                    kind = "property" if rc == 3 else exit_kind(rc)
                    small = self.shrink(st, f.choices, kind, 300 if THOROUGH else 60)
                    rc, out, err = self.replay(st, small)
                    if rc not in (0, 2):
                        f.choices = small
                        for line in out.splitlines():
                            if line.startswith("FAIL "):
                                f.msg = line[5:]
                            if line.startswith("CASE "):
                                f.desc = line[5:]
                        f.stderr = err or f.stderr
                return True
        # the failure may need the cases before it: re-run the same history
        hits = 0
        for i in range(3):
            res, g = self.run_shard(st, f.shard, nmax=(f.index + st.shards + 1 if f.choices is not None else None), tag="h%d" % i)
            if g:
                hits += 1
                f.msg = g.msg
            elif not st.flaky:
                break
        if hits == 3 or (st.flaky and hits):
            f.history = {"seed": SEED, "shard": f.shard, "nshards": st.shards, "max": f.index + st.shards + 1}
            return True
        return False

    def write_replay(self, f):
        os.makedirs(REPLAYS, exist_ok=True)
        d = {"property": self.pid, "stage": f.stage.name, "prop": f.stage.prop, "kind": f.kind, "message": f.msg, "case": f.desc,
             "choices": f.choices, "history": f.history, "tier": TIER, "stderr": f.stderr[-4000:],
             "how": "python3 check.py %s --replay <this file>" % self.pid}
        name = "%s-%s.json" % (self.pid, hashlib.sha256(json.dumps([d["stage"], d["choices"], d["history"]]).encode()).hexdigest()[:12])
        p = os.path.join(REPLAYS, name)
        json.dump(d, open(p, "w"), indent=1)
        return p

    # -------------------------------------------------------------- reporting
    def finish(self, level, assumptions, known=None, rule=None, nviol=None):
        """known: function Failure -> text or None for listed findings"""
        viol = 0
        for f in self.failures:
            text = known(f) if known else None
            if text:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
                continue
            if viol >= 1:
                continue
            if not self.is_confirmed(f):
                self.notes.append("unconfirmed: %s: %s" % (f.stage.name, f.msg))
                print("note: a failure of %s did not reproduce and is not reported: %s" % (f.stage.name, f.msg))
                continue
            viol += 1
            p = self.write_replay(f)
            print("%s: %s" % (f.stage.name, f.msg))
            if f.desc:
                print("case: %s" % f.desc)
            if f.stderr and f.kind != "property":
                print("\n".join(l for l in f.stderr.splitlines() if l.strip())[:1500])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        viol += self.report_extra()
        self.write_evidence(level, assumptions, viol, rule)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.errors and not viol:
            for e in self.errors:
                print("error: " + e, file=sys.stderr)
            return 4
        return 1 if viol else 0

    extra_violations = ()

    def violation(self, msg, payload):
        """a violation found by a driver-level oracle (already confirmed by the caller)"""
        self.extra_violations = list(self.extra_violations) + [(msg, payload)]

    def report_extra(self):
        n = 0
        for msg, payload in self.extra_violations:
            os.makedirs(REPLAYS, exist_ok=True)
            d = {"property": self.pid, "message": msg, "payload": payload, "tier": TIER, "seed": SEED}
            p = os.path.join(REPLAYS, "%s-%s.json" % (self.pid, hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:12]))
            json.dump(d, open(p, "w"), indent=1)
            print(msg)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            n += 1
        return n

    def write_evidence(self, level, assumptions, viol, rule):
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
               "rule": rule or "; ".join(self.rules), "samples": self.samples[:24], "nontrivial_cases": self.nontriv,
               "discarded": self.discards, "stages": self.stages}
        if self.notes:
            cov["notes"] = self.notes
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": viol}
        os.makedirs(os.path.join(vb.VERIF, "evidence"), exist_ok=True)
        p = os.path.join(vb.VERIF, "evidence", self.pid + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
