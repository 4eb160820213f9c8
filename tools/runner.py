"""Common machinery of all checks: building from /repo, running monitors, verdicts, evidence."""
import concurrent.futures, errno, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
GiB = 1 << 30
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"


resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Inconclusive(Exception):
    """No verdict: the machinery, not the library, failed."""


class Violation(Exception):
    pass


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "CARGO_TARGET", "CARGO_ENCODED", "RUSTC"))}
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("LD_PRELOAD", "MAKEFLAGS", "ASAN_OPTIONS", "TSAN_OPTIONS", "MIRIFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, timeout, env=None, cwd=VERIF, cpu=None, mem=None, stdin=None):
    """Runs a command; returns (code, stdout, stderr, timed_out). A negative code is a signal."""

    # Another thread that is starting a process may still hold a program open that was just written.
    for left in range(100, -1, -1):
        try:
            p = subprocess.Popen(cmd, cwd=cwd, env=env or base_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
            break
        except OSError as x:
            if x.errno != errno.ETXTBSY or left == 0:
                raise
            time.sleep(0.05)
    # Not in the child before it starts: that is unsafe where there are threads.
    try:
        if cpu:
            resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.prlimit(p.pid, resource.RLIMIT_AS, (mem, mem))
    except ProcessLookupError:
        pass
    try:
        o, e = p.communicate(timeout=timeout)
        late = False
    except subprocess.TimeoutExpired:
        late = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
    return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), late


def pmap(f, items, workers=8):
    """Results in order of completion; the first exception ends it."""
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(f, i) for i in items]
        try:
            for x in concurrent.futures.as_completed(fs):
                yield x.result()
        except BaseException:
            for x in fs:
                x.cancel()
            raise


def tree_hash():
    """Of everything a build can depend on: the library's files and the harness's."""
    h = hashlib.sha256()
    for root in (REPO, HARNESS, os.path.join(VERIF, "cdriver"), os.path.join(VERIF, "tools")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__", "build"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()[:16]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.quick = tier == "quick"
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.counters = {}
        self.runs = []
        self.violations = []  # (sig, msg, replay dict)
        self.assumptions = []
        self.exhaustive = None
        self.dir = os.path.join(BUILD, tree_hash())
        self.log = []
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        os.makedirs(OUT, exist_ok=True)
        self.tmp = os.path.join(BUILD, "tmp-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.tmp, exist_ok=True)
        # Builds of other trees: keep the most recent few.
        old = sorted((d for d in os.listdir(BUILD) if re.fullmatch(r"[0-9a-f]{16}", d)), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-3]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)

    # ------------------------------------------------------------------ building

    def cargo(self, args, what, env=None, cwd=HARNESS, timeout=800, fatal=True):
        e = base_env()
        e.update(env or {})
        code, o, err, late = run(["cargo"] + args, timeout, env=e, cwd=cwd)
        if (late or code != 0) and fatal:
            tail = "\n".join(l for l in err.splitlines() if "error" in l or "-->" in l)[-1500:] or err[-1500:]
            raise Inconclusive("building %s failed%s:\n%s" % (what, " (timed out)" if late else "", tail))
        return code, o, err

    def harness(self, profile="dev", extra_env=None, target="h", toolchain=None, bins=("harness",), features=None):
        """Builds the harness against /repo; returns the path of the (first) program."""
        t = os.path.join(self.dir, target)
        a = (["+" + toolchain] if toolchain else []) + ["build", "--offline", "--profile", profile, "--target-dir", t]
        for b in bins:
            a += ["--bin", b]
        if features is not None:
            a += ["--no-default-features", "--features", features]
        env = dict(extra_env or {})
        if toolchain:
            env["RUSTUP_TOOLCHAIN"] = toolchain
        self.cargo(a, "the harness (%s)" % profile, env)
        return os.path.join(t, "debug" if profile == "dev" else profile, bins[0])

    # ------------------------------------------------------------------ running the harness

    def monitors(self, exe, label, cases, seed=None, time_cap=150, min_cases=None, tiny=False, env=None, threads=8, prop=None, hang=100, mem=14 * GiB, frm=0, only=None):
        """Runs the property's monitors; collects verdict and evidence. With `only`, violations with
        other signatures are some other property's business."""
        prop = prop or self.prop
        seed = self.seed if seed is None else seed
        self.outs = getattr(self, "outs", 0) + 1
        out = os.path.join(self.tmp, "out-%d.json" % self.outs)
        cmd = [exe, "run", prop, "--seed", str(seed), "--from", str(frm), "--cases", str(cases), "--threads", str(threads), "--time", str(time_cap), "--hang", str(hang), "--out", out]
        if tiny:
            cmd.append("--tiny")
        e = base_env()
        e.update(env or {})
        t = time.time()
        code, o, err, late = run(cmd, time_cap + 2 * hang + 60, env=e, mem=mem)
        wall = time.time() - t
        rep = {"kind": "harness", "property": prop, "build": label, "seed": seed, "cmd": cmd, "tiny": tiny, "env": env or {}}
        tail = err[-3000:]

        def judge_case(sig, case, how):
            one = [exe, "run", prop, "--seed", str(seed), "--case", str(case)] + (["--tiny"] if tiny else [])
            rep.update(case=case, cmd=one)
            self.violate(sig, "%s build: %s\n%s" % (label, how, tail), rep)

        m = re.search(r"CRASH signal (\d+) case (\d+)", err)
        if m:
            pm = re.search(r"PANIC case \d+: (.*)", err)
            if pm and "HARNESS:" in pm.group(1):
                raise Inconclusive(pm.group(1))
            judge_case("crash", int(m.group(2)), "signal %s in case %s%s" % (m.group(1), m.group(2), ": " + pm.group(1) if pm else ""))
            return None
        if re.search(r"ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: LeakSanitizer|runtime error:", err):
            rep["report"] = tail
            self.violate("sanitizer", "%s build:\n%s" % (label, err[:3000]), rep)
            return None
        m = re.search(r"HANG case (\d+)", err)
        if m and not late:
            # Decided by processor time, not by the clock.
            c = int(m.group(1))
            one = [exe, "run", prop, "--seed", str(seed), "--case", str(c)] + (["--tiny"] if tiny else [])
            code2, _, err2, late2 = run(one, 900, env=e, cpu=100, mem=mem)
            if code2 in (-signal.SIGXCPU, -signal.SIGKILL) and not late2:
                judge_case("hang", c, "case %d does not end within 100 s of processor time" % c)
                return None
            raise Inconclusive("case %d took too long, but ended when run alone" % c)
        if late:
            raise Inconclusive("%s run timed out" % label)
        if code not in (0, 1, 2) or not os.path.exists(out):
            raise Inconclusive("%s run ended with code %s:\n%s" % (label, code, tail))
        d = json.load(open(out))
        if d["inconclusive"]:
            raise Inconclusive("; ".join(d["inconclusive"])[:2000])
        for v in d["violations"]:
            if only and v["sig"] not in only:
                continue
            one = [exe, "run", prop, "--seed", str(seed), "--case", str(v["case"])] + (["--tiny"] if tiny else [])
            r = dict(rep, case=v["case"], cmd=one)
            self.violate(v["sig"], "%s build, case %d: %s" % (label, v["case"], v["msg"]), r)
        if d["ran"] < (min_cases if min_cases is not None else max(1, cases // 20)) and not d["violations"]:
            raise Inconclusive("%s run managed %d of %d cases in its time" % (label, d["ran"], cases))
        if d["evals"] == 0 and not d["violations"]:
            raise Inconclusive("%s run observed nothing" % label)
        self.evaluations += d["evals"]
        self.distinct += d["distinct"]
        for k, v in d["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        r = {"build": label, "seed": seed, "cases": d["ran"], "evaluations": d["evals"], "distinct": d["distinct"], "wall_s": round(wall, 1)}
        if self.runs and self.runs[-1].get("build") == label and self.runs[-1].get("seed") == seed and cases == 1:
            # One more process of the same kind.
            for k in ("cases", "evaluations", "distinct", "wall_s"):
                self.runs[-1][k] = round(self.runs[-1][k] + r[k], 1)
        else:
            self.runs.append(r)
        for s in d["samples"][:2]:
            self.samples.append("%s: %s" % (label, s[:400]))
        return d

    # ------------------------------------------------------------------ the interpreter

    def miri_build(self):
        """Builds for Miri; the first run does, so it is made on its own."""
        t = os.path.join(self.dir, "miri")
        self.cargo(["+nightly", "miri", "run", "--offline", "--bin", "harness", "--target-dir", t, "--", "run", "C13", "--cases", "0", "--tiny"], "the harness for Miri", {"RUSTUP_TOOLCHAIN": "nightly", "MIRIFLAGS": MIRIFLAGS})

    def miri(self, jobs, workers=8, timeout=600, flags=""):
        """Runs (property, seed, first case, cases) jobs in the interpreter. Undefined behaviour and
        panics count; what else the monitors see is counted where it belongs."""
        t = os.path.join(self.dir, "miri")

        def one(job):
            prop, seed, frm, n = job
            out = os.path.join(self.tmp, "miri-%s-%d-%d.json" % (prop, seed, frm))
            cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--bin", "harness", "--target-dir", t, "--", "run", prop, "--seed", str(seed), "--from", str(frm), "--cases", str(n), "--tiny", "--time", str(timeout), "--out", out]
            e = base_env()
            e.update({"RUSTUP_TOOLCHAIN": "nightly", "MIRIFLAGS": MIRIFLAGS + " " + flags})
            return job, cmd, out, run(cmd, timeout + 120, env=e, cwd=HARNESS)

        done = 0
        evals = 0
        for job, cmd, out, (code, o, err, late) in pmap(one, jobs, workers):
            rep = {"kind": "miri", "property": job[0], "build": "miri", "seed": job[1], "cmd": cmd, "env": {"MIRIFLAGS": MIRIFLAGS + " " + flags}}
            m = re.search(r"error: (Undefined Behavior|abnormal termination|.*[Dd]ata race)[^\n]*", err)
            if m:
                i = err.index(m.group(0))
                self.violate("ub", "Miri, %s cases %d..%d of seed %d: %s" % (job[0], job[2], job[2] + job[3], job[1], err[i : i + 2500]), rep)
                continue
            if late or not os.path.exists(out):
                raise Inconclusive("Miri on %s: code %s%s\n%s" % (job[0], code, ", timed out" if late else "", err[-1500:]))
            d = json.load(open(out))
            if d["inconclusive"]:
                raise Inconclusive("; ".join(d["inconclusive"])[:2000])
            for v in d["violations"]:
                if v["sig"] in ("panic", "invalid_value") or job[0].startswith(self.prop):
                    self.violate(v["sig"], "Miri, %s case %d: %s" % (job[0], v["case"], v["msg"]), rep)
            done += d["ran"]
            evals += d["evals"]
            self.distinct += d["distinct"]
            k = "miri cases " + job[0]
            self.counters[k] = self.counters.get(k, 0) + d["ran"]
        self.evaluations += evals
        self.runs.append({"build": "miri " + flags, "cases": done, "evaluations": evals})

    def platforms(self, targets, props, cases, timeout=600):
        """The monitors in the interpreter of another platform. What goes wrong there and not in the
        interpreter of this one counts, whatever it is."""
        env = {"RUSTUP_TOOLCHAIN": "nightly", "MIRIFLAGS": MIRIFLAGS}

        def command(target):
            return ["cargo", "+nightly", "miri", "run", "--offline", "--bin", "harness", "--target", target, "--target-dir", os.path.join(self.dir, "miri-" + target), "--", "run"]

        def build(target):
            return target, self.cargo(command(target)[1:] + ["C13", "--cases", "0", "--tiny"], "the harness for " + target, env, fatal=False)

        ready = []
        for target, (code, o, err) in sorted(pmap(build, targets)):
            if code == 0:
                ready.append(target)
                self.counters["cases on " + target] = 0
                continue
            tail = "\n".join(l for l in err.splitlines() if "error" in l or "-->" in l)[-1500:] or err[-1500:]
            if "could not compile `shogi_core`" not in err:
                raise Inconclusive("building the harness for %s failed:\n%s" % (target, tail))
            self.violate("does_not_build", "the library does not build for %s, but it does for this platform:\n%s" % (target, tail), {"kind": "build", "cmd": command(target), "build": target})

        def one(job):
            target, prop = job
            args = [prop, "--seed", str(self.seed), "--from", "0", "--cases", str(cases), "--tiny", "--time", str(timeout)]
            out = os.path.join(self.tmp, "%s-%s.json" % (target, prop))
            e = base_env()
            e.update(env)
            return target, prop, args, out, run(command(target) + args + ["--out", out], timeout + 120, env=e, cwd=HARNESS)

        done = evals = 0
        for target, prop, args, out, (code, o, err, late) in pmap(one, [(t, p) for p in props for t in ready]):
            m = re.search(r"error: (Undefined Behavior|abnormal termination)[^\n]*", err)
            if not m and (late or not os.path.exists(out)):
                raise Inconclusive("%s on %s: code %s%s\n%s" % (prop, target, code, ", timed out" if late else "", err[-1500:]))
            d = {"violations": [], "ran": 0, "evals": 0, "distinct": 0, "inconclusive": []} if m else json.load(open(out))
            if d["inconclusive"]:
                raise Inconclusive("; ".join(d["inconclusive"])[:2000])
            done += d["ran"]
            evals += d["evals"]
            self.distinct += d["distinct"]
            self.counters["cases on " + target] += d["ran"]
            bad = [(v["sig"], "case %d: %s" % (v["case"], v["msg"])) for v in d["violations"]]
            if m:
                bad.append(("ub", err[err.index(m.group(0)) :][:2000]))
            if not bad or any(v[0] == "differs_platform" for v in self.violations):
                continue
            # The same in the interpreter of this platform: then it is not the platform.
            here = os.path.join(self.tmp, "here-%s.json" % prop)
            host = ["cargo", "+nightly", "miri", "run", "--offline", "--bin", "harness", "--target-dir", os.path.join(self.dir, "miri"), "--", "run"]
            self.cargo(host[1:] + ["C13", "--cases", "0", "--tiny"], "the harness for this platform", env)
            e = base_env()
            e.update(env)
            _, _, err2, _ = run(host + args + ["--out", here], timeout + 120, env=e, cwd=HARNESS)
            also = {"ub"} if re.search(r"error: (Undefined Behavior|abnormal termination)", err2) else set()
            if os.path.exists(here):
                also |= {v["sig"] for v in json.load(open(here))["violations"]}
            for sig, msg in bad:
                if sig not in also:
                    self.violate("differs_platform", "%s, %s: [%s] %s (not so on this platform)" % (target, prop, sig, msg), {"kind": "miri", "property": prop, "build": target, "seed": self.seed, "cmd": command(target) + args, "env": {"MIRIFLAGS": MIRIFLAGS}})
                    break
        self.evaluations += evals
        self.runs.append({"build": "interpreter: " + " ".join(ready), "cases": done, "evaluations": evals})

    # ------------------------------------------------------------------ verdicts

    def violate(self, sig, msg, replay):
        self.violations.append((sig, msg, replay))

    def known(self):
        """sig -> text of the known findings of this property."""
        r = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l)
                if m and m.group(1) == self.prop:
                    r[m.group(2)] = m.group(3)
        return r

    def finish(self):
        known = self.known()
        fresh = []
        for sig, msg, rep in self.violations:
            if sig not in known:
                fresh.append((sig, msg, rep))
        for sig, text in known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct,
                "rule": self.rule,
                "samples": self.samples[:12] or ["(none)"],
                "observed": self.counters,
                "runs": self.runs,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
        }
        if self.exhaustive is not None:
            ev["coverage"]["exhaustive"] = self.exhaustive
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(p + ".tmp", p)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if not fresh:
            print("%s held: %d evaluations, %d distinct, %.1f s (%s, seed %d)" % (self.prop, self.evaluations, self.distinct, time.time() - self.t0, self.tier, self.seed))
            return 0
        os.makedirs(os.path.join(OUT, self.prop), exist_ok=True)
        for i, (sig, msg, rep) in enumerate(fresh[:5]):
            rp = os.path.join(OUT, self.prop, "violation-%d.json" % i)
            rep = dict(rep, signature=sig, message=msg, tree=os.path.basename(self.dir))
            keep = rep.pop("keep", None)
            if keep and os.path.exists(keep):
                rep["file"] = os.path.join(OUT, self.prop, "violation-%d.trace" % i)
                shutil.copy(keep, rep["file"])
            with open(rp, "w") as f:
                json.dump(rep, f, indent=1)
            print("[%s] %s" % (sig, msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        return 1


def main(argv):
    import checks
    if not argv or argv[0] not in checks.CHECKS:
        print("usage: check.py PROPERTY [--tier quick|thorough] [--seed N] | check.py PROPERTY --replay FILE", file=sys.stderr)
        return 2
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    it = iter(argv[1:])
    replay = None
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--replay":
            replay = next(it)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    c = Check(prop, tier, seed)
    c.rule = checks.RULES[prop]
    if replay:
        # Says how to see it again, after building what that takes.
        d = json.load(open(replay))
        c.only_replay = d
        print("signature: %s\n%s\nseed %s, build %s\ncommand: %s" % (d.get("signature"), d.get("message"), d.get("seed"), d.get("build"), " ".join(d.get("cmd", []))))
        seed = c.seed = d.get("base_seed", c.seed)
    try:
        checks.CHECKS[prop](c)
        return c.finish()
    except Inconclusive as e:
        # What was seen before still counts.
        if c.violations:
            print("note: also inconclusive: %s" % e)
            return c.finish()
        print("%s INCONCLUSIVE: %s" % (prop, e))
        shutil.rmtree(c.tmp, ignore_errors=True)
        return 2
