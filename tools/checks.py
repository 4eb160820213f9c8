"""What each property's check does. Every entry takes a runner.Check and feeds it runs."""
import os, re, shutil
import runner
from runner import Inconclusive

RULES = {}
CHECKS = {}

# One level of everything: property -> (cases of one round, rounds when quick)
LOCAL = {"C01": (2418, 3), "C02": (2418, 2), "C03": (2418, 2), "C04": (2418, 2), "C06": (209, 4), "C10": (256, 1), "C11": (256, 4), "C12": (256, 4), "C13": (42, 4), "C16": (124, 8)}


MOVE = "move by its own parts: piece, squares, what stands on the target, promotion, and what is in the hand of drops; every ply; captures by every count in the hand"
EVERY = {
    "C01": MOVE,
    "C02": MOVE + " (the refused ones)",
    "C03": MOVE + " (the accepted ones)",
    "C04": MOVE + " (the accepted ones)",
    "C06": "ply, hand of one kind, hand held or not, rank by vacant, unpromoted and promoted, and piece on every square",
    "C10": "pair among sets of up to two squares, rectangles in the corners and the complements of these",
    "C11": "set of up to two squares, rectangle in a corner, and pattern of one file or rank, with complements",
    "C12": "set of up to three squares, rectangle in a corner, and pattern of one file or rank, with complements",
    "C13": "two counts of two kinds",
    "C16": "two positions that differ in one square, hand, ply bit, side or last move, sets that differ in one square, and records of up to 68,000 moves that differ in one place",
}


# property -> (cases of the checked build, cases of the optimized build, what makes a case count)
TABLE = {
    "C01": (60_000, 90_000, "one make_move / normal- or drop-move query on a generated position, judged against the rule model; distinct: by position and move, counting only accepted moves and refusals by different rules"),
    "C02": (10_000, 15_000, "one refused make_move (or refused record operation); the whole observable state before and after is compared; distinct: by position and move"),
    "C03": (12_000, 20_000, "one step of an editing or playing history after which every board view is compared square by square; distinct: by reached board"),
    "C04": (55_000, 75_000, "one accepted move, after which material is counted over board and hands; distinct: by reached position"),
    "C05": (40_000, 50_000, "one step of a game record compared with its replay; distinct: by history"),
    "C06": (30_000, 45_000, "one position written by to_sfen and re-read by an independent strict parser; distinct: by text"),
    "C07": (5_000, 7_000, "one call of a C-style writer into a buffer with guard pages on either side; distinct: by text"),
    "C08": (35_000, 100_000, "one value written as USI by each of the writers and re-read; distinct: by text"),
    "C09": (12_000, 14_000, "one writer driven against a sink failing at a chosen call or byte; distinct: by value and point of failure"),
    "C10": (140_000, 140_000, "one bitboard operation compared with the set operation; distinct: by operands"),
    "C11": (30_000, 30_000, "one shift/flip/file operation compared with its per-square meaning; distinct: by operand"),
    "C12": (40_000, 40_000, "one pop/iteration sequence compared with the set; distinct: by set"),
    "C13": (250_000, 400_000, "one step of a hand history compared with eight counters; distinct: by hand and operation"),
    "C14": (20_000, 25_000, "one encoding/decoding round over the whole finite domain or a raw value; distinct: by value"),
    "C15": (150_000, 200_000, "one geometry or promotion query against coordinates; distinct: by arguments"),
    "C16": (10_000, 20_000, "one pair or triple of values compared by Eq, Ord and Hash; distinct: by operands"),
    "C17": (20_000, 24_000, "one query of a provided method of LegalityChecker over a scripted checker; distinct: by script and query"),
    "C18": (150_000, 350_000, "one resolution or illegal-move-kind value pushed through its conversions; distinct: by value"),
}


def two_builds(prop, dev, rel, c):
    k = 1 if c.quick else 40
    cap = 110 if c.quick else 2400
    for b, label, n, seed in (("dev", "checked", dev, c.seed), ("release", "optimized", rel, c.seed + 1_000_003)):
        exe = c.harness(b)
        if prop in LOCAL:
            one, rounds = LOCAL[prop]
            # At least one whole round, or the answer is that there is none.
            c.monitors(exe, label + ", all of one level", one * rounds * (1 if c.quick else 20), seed=seed, prop=prop + "local", time_cap=cap, min_cases=one)
        c.monitors(exe, label, n * k, seed=seed, time_cap=cap)


def table(prop):
    dev, rel, rule = TABLE[prop]
    RULES[prop] = rule + (("; first, in rounds, every " + EVERY[prop]) if prop in LOCAL else "")

    def f(c):
        two_builds(prop, dev, rel, c)

    CHECKS[prop] = f


for p in TABLE:
    table(p)


# ---------------------------------------------------------------------- C16: traits as well

RULES["C16"] += "; every type is also probed, at compile time, for the traits that README documents"


def c16(c):
    # First, because what else there is does not compile without them.
    exe = c.harness("dev", target="h", bins=("traits",))
    code, o, err, late = runner.run([exe], 60)
    m = re.search(r"^TOTAL (\d+) (\d+)$", o, re.M)
    if not m:
        raise Inconclusive("trait probes gave no answer: code %s %s" % (code, err[-500:]))
    for l in re.findall(r"^MISSING (.*)$", o, re.M):
        c.violate("missing_trait", l, {"kind": "traits", "cmd": [exe]})
    c.evaluations += int(m.group(1))
    c.counters["traits probed"] = int(m.group(1))
    if c.violations:
        return
    two_builds("C16", *TABLE["C16"][:2], c)


CHECKS["C16"] = c16

# ---------------------------------------------------------------------- C22: sanitizers

RULES["C22"] = "one case is a random sequence of calls of all functions on pools of values of all types, or one of the directed sections that call every function at all its arguments or at both sides of every limit; distinct: by sequence of operations. Judged by the checked build's assertions, AddressSanitizer, Miri, fault signals, and the validity of every value returned"
BAD = ("panic", "crash", "hang", "sanitizer", "ub", "invalid_square", "invalid_piece", "invalid_kind", "invalid_index", "invalid_set", "invalid_value", "invalid_move", "invalid_text")
ASAN = {"HARNESS_NO_SIGNALS": "1", "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1"}
ALL = sorted(TABLE)
MIRI_ALL = ["C01", "C02", "C03", "C04", "C05", "C06", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"]


def sanitized(c, which, build_std=False):
    args = ["+nightly", "build", "--release", "--offline", "--bin", "harness", "--target", "x86_64-unknown-linux-gnu"]
    if build_std:
        args.append("-Zbuild-std")
    t = os.path.join(c.dir, "san-" + which)
    c.cargo(args + ["--target-dir", t], "the harness with " + which, {"RUSTUP_TOOLCHAIN": "nightly", "RUSTFLAGS": "-Zsanitizer=%s --cap-lints=allow" % which})
    return os.path.join(t, "x86_64-unknown-linux-gnu", "release", "harness")


def c22(c):
    k = 1 if c.quick else 30
    exe = c.harness("dev")
    c.monitors(exe, "checked", 40_000 * k, time_cap=60 if c.quick else 1800)
    # The other properties' workloads, for what goes wrong underneath only.
    for i, p in enumerate(ALL):
        c.monitors(exe, "checked, workload of " + p, max(100, TABLE[p][0] * k // 25), seed=c.seed + 17, prop=p, only=BAD, time_cap=30 if c.quick else 300, min_cases=1)
    exe = c.harness("plain")
    c.monitors(exe, "unoptimized", 8_000 * k, seed=c.seed + 5, time_cap=30 if c.quick else 900)
    exe = c.harness("release")
    c.monitors(exe, "optimized", 40_000 * k, seed=c.seed + 1_000_003, time_cap=60 if c.quick else 1800)
    c.monitors(exe, "optimized, at every limit", 32, prop="C22edge", time_cap=60, min_cases=32)
    c.monitors(c.harness("dev"), "checked, at every limit", 32, prop="C22edge", time_cap=60, min_cases=32)
    exe = sanitized(c, "address")
    c.monitors(exe, "address sanitizer, at every limit", 32, prop="C22edge", env=ASAN, mem=None, time_cap=60, min_cases=32)
    c.monitors(exe, "address sanitizer", 15_000 * k, seed=c.seed + 3, env=ASAN, mem=None, time_cap=60 if c.quick else 1800)
    for p in ("C07", "C09", "C05", "C02"):
        c.monitors(exe, "address sanitizer, workload of " + p, max(100, TABLE[p][1] * k // 40), seed=c.seed + 19, prop=p, only=BAD, env=ASAN, mem=None, time_cap=30 if c.quick else 300, min_cases=1)
    c.miri_build()
    if c.quick:
        # The long ones first.
        jobs = [("C22edge", c.seed, i, 1) for i in sorted(range(28), key=lambda i: i < 11)] + [("C22", c.seed, 3 * i, 3) for i in range(8)] + [(p, c.seed, 0, 1) for p in MIRI_ALL]
        c.miri(jobs)
    else:
        jobs = [("C22edge", c.seed, i, 1) for i in range(32)] + [("C22", c.seed, 40 * i, 40) for i in range(16)] + [(p, c.seed, 4 * i, 4) for p in MIRI_ALL for i in range(4)]
        c.miri(jobs, timeout=3000)
        c.miri([("C22edge", c.seed, i, 1) for i in range(28)] + [("C22", c.seed + 1, 20 * i, 20) for i in range(8)] + [(p, c.seed + 1, 0, 2) for p in MIRI_ALL], flags="-Zmiri-tree-borrows -Zmiri-symbolic-alignment-check -Zmiri-strict-provenance", timeout=3000)


CHECKS["C22"] = c22

# ---------------------------------------------------------------------- C24: races

RULES["C24"] = "one case interleaves operations on several values in one thread or runs them in several threads, comparing with what each gives alone, or queries one shared value from several threads, or queries a position kept in read-only memory, or makes one call up to four million times, or stops a thread between the instructions of one call while another thread makes calls on values of its own, or (one process each) makes every first call from several threads at once; distinct: by workload. Also under ThreadSanitizer and Miri's race detector"
TSAN = {"HARNESS_NO_SIGNALS": "1", "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_bugs=1"}


def c24(c):
    k = 1 if c.quick else 30

    def fresh(exe, label, n, **kw):
        """First calls, by several threads of a process each."""
        for i in range(n):
            c.monitors(exe, label + ", first calls", 1, prop="C24first", frm=i, threads=1, **kw)

    for exe, label, seed in ((c.harness("dev"), "checked", c.seed), (c.harness("release"), "optimized", c.seed + 1_000_003)):
        fresh(exe, label, 60 if c.quick else 1500)
        c.monitors(exe, label + ", many calls", 51 * (1 if c.quick else 8), prop="C24soak", time_cap=90 if c.quick else 600)
        # One thread is stopped between its instructions: two threads per case, both busy.
        c.monitors(exe, label + ", stopped between instructions", 240 * (1 if c.quick else 60), prop="C24step", seed=seed, threads=4, time_cap=30 if c.quick else 1800, min_cases=20)
        c.monitors(exe, label, 8_000 * k, seed=seed, time_cap=45 if c.quick else 1800)
    if not c.quick:
        c.monitors(c.harness("release"), "optimized, very many calls", 51, prop="C24soak", frm=1 << 20, time_cap=1500)
    exe = sanitized(c, "thread", build_std=True)
    fresh(exe, "thread sanitizer", 16 if c.quick else 200, env=TSAN, mem=None)
    c.monitors(exe, "thread sanitizer", 4_000 * k, seed=c.seed + 3, env=TSAN, mem=None, time_cap=60 if c.quick else 1800)
    # Threads of the harness itself run other workloads concurrently.
    for p in ("C22", "C06", "C05", "C10"):
        c.monitors(exe, "thread sanitizer, workload of " + p, 400 * k, seed=c.seed + 19, prop=p, only=("sanitizer",), env=TSAN, mem=None, time_cap=30 if c.quick else 300, min_cases=1)
    c.miri_build()
    n = 1 if c.quick else 6
    c.miri([("C24", c.seed, n * i, n) for i in range(5)] + [("C24first", c.seed, i, 1) for i in range(4 if c.quick else 40)], timeout=3000)


CHECKS["C24"] = c24

# ---------------------------------------------------------------------- C23: configurations

RULES["C23"] = "one evaluation is one logged event (a call's results) compared between configurations; distinct: by configuration and chunk of the log; on other platforms, a monitor's judgements of its cases"


def c23(c):
    scale = 2 if c.quick else 60
    sets = []
    for base in ([], ["alloc"], ["std"]):
        for bits in range(8):
            sets.append(base + [f for i, f in enumerate(["hash", "ord", "experimental"]) if bits >> i & 1])
    full = ["std", "hash", "ord", "experimental"]
    jobs = [(None, p, s, "") for p in ("plain", "release") for s in sets]
    jobs += [(None, p, s, "") for p in ("dev", "size") for s in ([], ["alloc"], full)]
    jobs += [(None, "lto", full, ""), (None, "release", full, "-Ctarget-cpu=native"), (None, "plain", full, "-Ctarget-cpu=native")]
    jobs += [(t, p, s, "") for t in ("nightly", "1.98.1", "nightly-2023-03-15") for p in ("plain", "release") for s in ([], full)]
    import threading, queue
    slots = queue.Queue()
    for i in range(8):
        slots.put(i)

    def name(j):
        return "%s %s [%s]%s" % (j[0] or "stable", j[1], " ".join(j[2]), " " + j[3] if j[3] else "")

    def cmd_of(j, i):
        t = os.path.join(c.dir, "c23-%d" % i)
        a = (["+" + j[0]] if j[0] else []) + ["build", "--offline", "--locked", "-j", "2", "--profile", j[1], "--bin", "digest", "--no-default-features", "--features", ",".join(j[2]), "--target-dir", t]
        e = {"RUSTFLAGS": "--cap-lints=allow " + j[3]}
        if j[0]:
            e["RUSTUP_TOOLCHAIN"] = j[0]
        return t, a, e

    def one(j):
        i = slots.get()
        try:
            t, a, e = cmd_of(j, i)
            code, _, err = c.cargo(a, name(j), e, fatal=False)
            if code != 0:
                # Is it the library that cannot be built so?
                a2 = (["+" + j[0]] if j[0] else []) + ["build", "--offline", "--locked", "--lib", "--no-default-features", "--features", ",".join(j[2]), "--target-dir", t + "-lib"]
                code2, _, err2 = c.cargo(a2, name(j), e, cwd=os.path.join(runner.REPO, "shogi_core"), fatal=False)
                return j, None, (code2, err2 if code2 else err), a
            exe = os.path.join(t, "debug" if j[1] == "dev" else j[1], "digest")
            keep = os.path.join(c.tmp, "digest-%d" % jobs.index(j))
            shutil.copy(exe, keep)
            return j, keep, runner.run([keep, str(c.seed), str(scale)], 800, cpu=700), a
        finally:
            slots.put(i)

    logs = {}
    failed = []
    for j, exe, r, a in runner.pmap(one, jobs):
        if exe is None:
            failed.append((j, r, a))
            continue
        code, o, err, late = r
        if late:
            raise Inconclusive("%s timed out" % name(j))
        logs[jobs.index(j)] = (j, exe, code, o, err)
    if len(failed) == len(jobs):
        raise Inconclusive("no configuration builds: " + failed[0][1][1][-1500:])
    for j, (code2, err), a in failed:
        tail = "\n".join(l for l in err.splitlines() if "error" in l or "-->" in l)[-1200:]
        if code2 == 0:
            # The workload calls what is documented for these features; elsewhere it builds.
            if not re.search(r"error\[E0\d+\]", err):
                raise Inconclusive("workload does not build with %s: %s" % (name(j), tail))
            c.violate("lacks_calls", "built with %s the library lacks calls that it has elsewhere:\n%s" % (name(j), tail), {"kind": "build", "cmd": ["cargo"] + a, "build": name(j)})
            continue
        c.violate("does_not_build", "the library does not build with %s, but with others it does:\n%s" % (name(j), tail), {"kind": "build", "cmd": ["cargo"] + a, "build": name(j)})
    ref = {}
    order = sorted(logs)
    crashed = [i for i in order if logs[i][2] != 0]
    if len(crashed) == len(order):
        raise Inconclusive("the workload crashes in every configuration: " + logs[order[0]][4][-800:])
    for i in crashed:
        j, exe, code, o, err = logs[i]
        c.violate("crash", "%s: the workload ends with %s, elsewhere normally: %s" % (name(j), code, err[-800:]), {"kind": "digest", "build": name(j), "cmd": [exe, str(c.seed), str(scale)]})
    for i in order:
        j, exe, code, o, err = logs[i]
        if code != 0:
            continue
        n = 0
        for l in o.splitlines():
            sec, chunk, ev, h = l.split(" ", 3)
            c.evaluations += int(ev)
            c.distinct += 1
            n += 1
            first = ref.setdefault((sec, chunk), (i, ev, h))
            if (ev, h) != first[1:] and not any(v[0] == "differs_" + sec for v in c.violations):
                a = logs[first[0]]
                da = runner.run([a[1], str(c.seed), str(scale), "dump", sec, chunk], 600)
                db = runner.run([exe, str(c.seed), str(scale), "dump", sec, chunk], 600)
                la, lb = da[1].splitlines(), db[1].splitlines()
                k = next((k for k, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
                text = lambda ls: ls[k][:300] if k < len(ls) else "(end)"
                pan = "".join("\n%s" % x[2].strip()[-300:] for x in (da, db) if "PANIC" in x[2])
                c.violate("differs_" + sec, "%s and %s differ at event %d of chunk %s of %s:\n  %s\n  %s%s" % (name(a[0]), name(j), k, chunk, sec, text(la), text(lb), pan), {"kind": "digest", "build": name(j), "cmd": [exe, str(c.seed), str(scale), "dump", sec, chunk]})
        if i in order[:3] or j[2] == full:
            c.samples.append("%s: %d chunks" % (name(j), n))
    c.counters["configurations"] = len(logs)
    c.counters["chunks"] = len(ref)
    c.runs.append({"build": "%d configurations" % len(logs), "seed": c.seed})
    # A machine of 32 bits, and one with the most significant byte first; the longest first.
    c.platforms(["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"] + ([] if c.quick else ["aarch64-unknown-linux-gnu"]), sorted(MIRI_ALL, key=lambda p: p not in ("C03", "C16", "C17")), 2 if c.quick else 30, timeout=600 if c.quick else 3000)


CHECKS["C23"] = c23

# ---------------------------------------------------------------------- the C library

import cchecks

RULES.update(cchecks.RULES)
CHECKS.update(cchecks.CHECKS)
HOOKS = cchecks.HOOKS
