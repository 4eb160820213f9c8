"""Checks of the C library: C19, C20, C21, C25."""
import os, re, shutil, signal
import runner
from runner import Inconclusive, REPO, VERIF

CD = os.path.join(VERIF, "cdriver")
INC = os.path.join(REPO, "include")
CFLAGS = ["-std=gnu11", "-Wall", "-Wextra", "-g"]
OLD = "nightly-2023-03-15"  # the toolchain that the C tests of the freestanding library use
# name -> (toolchain, features, profile, rustflags)
LIBS = {
    "std": (None, "std", "release", ""),
    "std-dev": (None, "std", "dev", ""),
    "std-experimental": (None, "std,experimental", "release", ""),
    "alloc": (OLD, "alloc", "release", ""),
    "alloc-dev": (OLD, "alloc", "dev", ""),
    "alloc-nightly": ("nightly", "alloc", "release", ""),
    "alloc-nightly-dev": ("nightly", "alloc", "dev", ""),
    "core": (None, "", "release", ""),
    "core-old": (OLD, "", "release", ""),
    "hook": (OLD, "alloc", "release", "--cfg verif_hooks"),
    "hook-dev": (OLD, "alloc", "dev", "--cfg verif_hooks"),
    "hook-nightly": ("nightly", "alloc", "release", "--cfg verif_hooks"),
}


def clib(c, name, fatal=True):
    """Builds the C library; None if it does not build (and need not)."""
    tc, feats, prof, flags = LIBS[name]
    t = os.path.join(c.dir, "clib-" + name)
    a = (["+" + tc] if tc else []) + ["build", "--offline", "--locked", "-p", "shogi_core_c", "--no-default-features", "--features", feats, "--target-dir", t]
    if prof != "dev":
        a.append("--" + prof)
    e = {"RUSTFLAGS": flags} if flags else {}
    if tc:
        e["RUSTUP_TOOLCHAIN"] = tc
    code, o, err = c.cargo(a, "the C library (%s)" % name, e, cwd=REPO, fatal=False)
    if code != 0:
        tail = "\n".join(l for l in err.splitlines() if "error" in l or "-->" in l)[-1500:] or err[-1500:]
        if fatal:
            raise Inconclusive("building the C library (%s) failed:\n%s" % (name, tail))
        c.counters["builds failed: " + name] = 1
        c.build_error = tail
        return None
    return os.path.join(t, "debug" if prof == "dev" else prof)


def gcc(args, timeout=200):
    return runner.run(["gcc"] + args, timeout)


def gcc_works(c):
    p = os.path.join(c.tmp, "ok.c")
    with open(p, "w") as f:
        f.write("#include <stdint.h>\n#include <stdlib.h>\nint main(void) { return 0; }\n")
    code, _, err, _ = gcc([p, "-o", p + ".x"])
    if code != 0:
        raise Inconclusive("gcc does not work: " + err[-500:])


def link(d, name):
    a = ["-L" + d, "-l:libshogi_core_c.so", "-Wl,-rpath," + d, "-lpthread", "-ldl"]
    if LIBS[name][0] != OLD and "std" not in LIBS[name][1]:
        a = ["-DFAKE_PERSONALITY", "-rdynamic"] + a
    return a


def driver(c, name, d, extra=(), tag="", allow_shape=True):
    """Compiles the driver for a library; returns (program or None, gcc's complaints)."""
    defs = [] if name.startswith("core") else ["-DDEFINE_ALLOC"]
    warn = ["-Werror"] if not name.startswith("core") else [] if any(x.startswith("-Werror=") for x in extra) else ["-w"]
    exe = os.path.join(d, "driver" + tag)
    for shape in ("", "-DNO_SETUP", "-DNO_FIELDS"):
        cmd = CFLAGS + warn + defs + ["-O1", "-I" + INC] + ([shape] if shape else []) + list(extra) + [os.path.join(CD, "driver.c")]
        if "-DLEDGER" in extra:
            cmd += ["-fno-builtin-malloc", os.path.join(CD, "ledger.c")]
        code, _, err, _ = gcc(cmd + ["-o", exe] + link(d, name))
        if code == 0:
            if shape:
                c.counters["driver without knowledge of the layout (%s)" % shape] = 1
            return exe, ""
        if not allow_shape:
            break
    return None, err


def drive(c, exe, label, mode, cases, frm=0, fork=False, cpu=600, env=None, wrap=(), timeout=800, mem=None):
    """Runs the driver; returns {"digest", "cases", "counts"} or None after a violation."""
    cmd = list(wrap) + [exe, mode, str(c.seed), str(cases), "fork" if fork else "nofork", str(frm)]
    e = runner.base_env()
    e.update(env or {})
    code, o, err, late = runner.run(cmd, timeout, env=e, cpu=cpu, mem=mem)
    rep = {"kind": "driver", "build": label, "cmd": cmd, "env": env or {}, "seed": c.seed}
    m = re.search(r"^MISMATCH (\S+) (.*)$", o, re.M)
    if m:
        c.violate(m.group(1), "%s, %s: %s" % (label, mode, m.group(0)), rep)
        return None
    if re.search(r"ERROR: (Address|Leak)Sanitizer: (?!.*fatal)|runtime error:|^==\d+== (Invalid|Conditional|Use of|.*uninitialised|Mismatched|.* (definitely|possibly|indirectly) lost)", err, re.M):
        c.violate("sanitizer", "%s, %s:\n%s" % (label, mode, err[:2500]), rep)
        return None
    m = re.search(r"^CRASH (.*)$", o, re.M)
    if m or (code < 0 and code != -signal.SIGKILL):
        c.violate("crash", "%s, %s: %s\n%s" % (label, mode, m.group(0) if m else "signal %d" % -code, err[-1000:]), rep)
        return None
    if late or code != 0:
        raise Inconclusive("%s, %s: code %s%s\n%s\n%s" % (label, mode, code, ", timed out" if late else "", o[-500:], err[-1000:]))
    counts = {k: int(v) for k, v in re.findall(r"^COUNT (\S+) (\d+)$", o, re.M)}
    m = re.search(r"^DIGEST (\S+) (\d+) (\S+)$", o, re.M)
    if not m:
        raise Inconclusive("%s, %s gave no answer: %s" % (label, mode, o[-500:]))
    c.evaluations += counts.get("checks", 0)
    for k, v in counts.items():
        k = "%s: %s" % (mode, k)
        c.counters[k] = c.counters.get(k, 0) + v
    return {"digest": m.group(3), "n": int(m.group(2)), "cases": re.findall(r"^CASE \S+ (\d+) (\S+)$", o, re.M), "counts": counts, "out": o}


# mode -> (cases of one run, runs of a quick check, in processes of their own)
MODES = {
    "sweep": (1, 1, False),
    "games": (2000, 1, False),
    "sets": (6000, 4, False),
    "hands": (20000, 2, False),
    "positions": (2500, 8, False),
    "records": (120, 6, True),
    "threads": (60, 4, True),
    "long": (6, 2, False),
    "march": (12, 4, True),
}


def jobs_of(modes, k=1, runs=1):
    r = []
    for m in modes:
        n, q, fork = MODES[m]
        for i in range(max(1, int(q * runs)) if m not in ("sweep",) else 1):
            r.append((m, max(1, int(n * k)), i * max(1, int(n * k)), fork))
    return r


HOSTED = ("sweep", "games", "sets", "hands", "positions", "records", "threads", "long")
FREE = ("sweep", "games", "sets", "hands", "positions", "records", "march", "threads")
CORE = ("sweep", "games", "sets", "hands", "positions")

# ---------------------------------------------------------------------- C19


def header_functions(defs):
    code, o, err, _ = gcc(["-E", "-P", "-I" + INC] + defs + [os.path.join(INC, "shogi_core.h")])
    if code != 0:
        return None, err
    # Declarations of functions at top level: a name right before a parenthesis, in a statement without braces.
    fs = set()
    for st in re.split(r"[;{}]", o):
        m = re.search(r"\b([A-Z]\w*)\s*\(", st)
        if m and "typedef" not in st:
            fs.add(m.group(1))
    return fs, ""


def exports(path):
    code, o, err, _ = runner.run(["nm", "-D", "--defined-only", path], 60)
    if code != 0:
        raise Inconclusive("nm: " + err[-300:])
    return {l.split()[-1] for l in o.splitlines() if l.split() and re.match(r"[A-Z]\w*_\w+$", l.split()[-1])}


def c19(c):
    gcc_works(c)
    want = ["std", "std-dev", "std-experimental"]
    libs = dict(runner.pmap(lambda n: (n, clib(c, n)), want, 3))
    rep = {"kind": "header", "build": "header", "cmd": ["gcc", "-E", "-P", INC + "/shogi_core.h"]}
    for name, defs in (("std", ["-DDEFINE_ALLOC"]), ("std-dev", ["-DDEFINE_ALLOC"]), ("std-experimental", ["-DDEFINE_ALLOC", "-DDEFINE_EXPERIMENTAL"])):
        fs, err = header_functions(defs)
        if fs is None:
            c.violate("header", "the header cannot be preprocessed: " + err[-800:], rep)
            return
        ex = exports(os.path.join(libs[name], "libshogi_core_c.so"))
        for f in sorted(fs - ex):
            c.violate("missing_" + f, "the header declares %s, which the library (%s) does not have" % (f, name), rep)
        for f in sorted(ex - fs):
            c.violate("undeclared_" + f, "the library (%s) has %s, which the header does not declare" % (name, f), rep)
        c.evaluations += len(fs | ex)
        c.distinct += len(fs)
        c.counters["functions in header (%s)" % name] = len(fs)
        c.counters["functions in library (%s)" % name] = len(ex)
        # The header alone, as C and as C++ sees it: every type complete, every address linkable.
        p = os.path.join(c.tmp, "addr-%s.c" % name)
        with open(p, "w") as f:
            f.write("#include <shogi_core.h>\n#include <stdio.h>\ntypedef void (*any)(void);\nint main(void) {\n    volatile any t[] = {%s};\n    for (unsigned i = 0; i < sizeof t / sizeof *t; i++) if (!t[i]) return 1;\n    return 0;\n}\n" % ", ".join("(any)" + x for x in sorted(fs)))
        code, _, err, _ = gcc(CFLAGS + ["-Werror"] + defs + ["-I" + INC, p, "-o", p + ".x"] + link(libs[name], name))
        if code != 0 and not c.violations:
            c.violate("header_unusable", "a C program that includes the header and takes the address of all functions does not build: " + err[-1200:], rep)
            return
    # A library without allocator and the header as a program without allocator reads it: all the
    # library has must be declared. (The header declares more then; that is said in DESIGN.md.)
    d = clib(c, "core", fatal=False)
    if d is not None:
        fs, err = header_functions([])
        if fs is None:
            c.violate("header", "the header cannot be preprocessed without DEFINE_ALLOC: " + err[-800:], rep)
            return
        ex = exports(os.path.join(d, "libshogi_core_c.so"))
        for f in sorted(ex - fs):
            c.violate("undeclared_" + f, "the library without allocator has %s, which the header without DEFINE_ALLOC does not declare" % f, rep)
        c.evaluations += len(ex)
        c.counters["functions in library (core)"] = len(ex)
        exe, err = driver(c, "core", d, ["-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion"], "-core")
        if exe is None:
            c.violate("header_unusable", "a C program without DEFINE_ALLOC does not build: %s" % err[:1500], dict(rep, build="core"))
            return
    # The header in strict C11 and C99.
    p = os.path.join(c.tmp, "h.c")
    with open(p, "w") as f:
        f.write("#include <shogi_core.h>\nint main(void) { return 0; }\n")
    for std in ("c99", "c11", "gnu11"):
        code, _, err, _ = gcc(["-std=" + std, "-Wall", "-Werror", "-DDEFINE_ALLOC", "-DDEFINE_EXPERIMENTAL", "-I" + INC, "-fsyntax-only", p])
        c.evaluations += 1
        if code != 0:
            c.violate("header_unusable", "the header is not accepted by gcc -std=%s: %s" % (std, err[-1200:]), rep)
            return
    if c.violations:
        return
    todo = []
    for name, extra, tag, modes, k in (
        ("std", ["-O2"], "", HOSTED, 1),
        ("std-dev", [], "", HOSTED, 0.3),
        ("std-experimental", ["-DDEFINE_EXPERIMENTAL"], "", ("sweep", "positions"), 0.3),
        ("std", ["-DSANITIZED", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], "-asan", HOSTED, 0.3),
    ):
        exe, err = driver(c, name, libs[name], extra, tag)
        if exe is None:
            c.violate("header_unusable", "a C program that calls what the header declares does not build (%s): %s" % (name, err[:1500]), dict(rep, build=name))
            return
        for m, n, frm, fork in jobs_of(modes, k, 1 if c.quick else 40):
            todo.append((exe, name + tag, m, n, frm, False))
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1"}
    for r in runner.pmap(lambda j: drive(c, j[0], j[1], j[2], j[3], j[4], j[5], env=env), sorted(todo, key=lambda j: j[2] != "positions")):
        if r:
            c.distinct += r["n"] // 50
    c.samples += ["%s %s from %d" % (j[1], j[2], j[4]) for j in todo[:10]]
    c.runs.append({"build": ", ".join(want) + ", std with gcc's sanitizers", "seed": c.seed, "jobs": len(todo)})


# ---------------------------------------------------------------------- C20


def c20(c):
    gcc_works(c)
    names = ["std", "alloc", "core"] + ["alloc-dev", "alloc-nightly", "core-old", "alloc-nightly-dev"]
    libs = {}
    errors = {}
    for n, d, err in runner.pmap(lambda n: (n, clib(c, n, fatal=n == "std"), getattr(c, "build_error", "")), names, 4):
        libs[n] = d
        errors[n] = err
    if all(libs[n] is None for n in names if n != "std"):
        raise Inconclusive("no freestanding library builds: " + errors["alloc"])
    for n in ("alloc", "core"):
        if libs[n] is None:
            c.violate("does_not_build", "the freestanding library (%s) does not build: %s" % (n, errors[n]), {"kind": "build", "build": n, "cmd": []})
    exes = {}
    for n, d in libs.items():
        if d is None:
            continue
        exe, err = driver(c, n, d)
        if exe is None:
            # Not of this property, if it is the header that is wrong.
            if n == "std":
                raise Inconclusive("the driver does not build: " + err[-800:])
            missing = re.findall(r"undefined reference to `([A-Z]\w*)'", err)
            if missing:
                c.violate("missing", "the freestanding library (%s) lacks %s" % (n, ", ".join(sorted(set(missing)))), {"kind": "link", "build": n, "cmd": []})
                continue
            raise Inconclusive("the driver does not build for %s: %s" % (n, err[-800:]))
        exes[n] = exe
    todo = []
    for n, exe in exes.items():
        k = 0.5 if n in ("std", "alloc", "core") else 0.25
        for m, cases, frm, fork in jobs_of(CORE if n.startswith("core") else FREE, 0.5, k if c.quick else 40 * k):
            todo.append((n, exe, m, cases, frm, fork))
    got = {}

    def one(j):
        n, exe, m, cases, frm, fork = j
        try:
            return j, drive(c, exe, n, m, cases, frm, fork)
        except Inconclusive as e:
            return j, e

    bad_modes = set()
    for j, r in runner.pmap(one, sorted(todo, key=lambda j: j[2] != "positions")):
        if isinstance(r, Inconclusive):
            raise r
        got[j[0], j[2], j[4]] = r
    # What is wrong in the same way in the hosted library is not this property's business.
    std_bad = {(m, f) for (n, m, f), r in got.items() if n == "std" and r is None}
    if std_bad:
        hosted = {v[0] for v in c.violations if v[2].get("build") == "std"}
        c.violations = [v for v in c.violations if v[2].get("build") != "std" and v[0] not in hosted]
        c.counters["misbehaviour shared with the hosted library"] = len(std_bad)
    for (n, m, f), r in sorted(got.items()):
        s = got.get(("std", m, f))
        if n == "std" or not r or not s:
            continue
        c.distinct += 1 + len(r["cases"])
        if (r["digest"], r["n"]) != (s["digest"], s["n"]):
            k = next((a[0] for a, b in zip(r["cases"], s["cases"]) if a != b), "?")
            c.violate("differs_" + m, "%s and the hosted library give different results in %s from case %s on" % (n, m, k), {"kind": "driver", "build": n, "cmd": [exes[n], m, str(c.seed), "1", "nofork", str(k)]})
    # The memory functions.
    mem = os.path.join(c.tmp, "mem")
    code, _, err, _ = gcc(CFLAGS + ["-Werror", "-fno-builtin", "-O1", "-DFAKE_PERSONALITY", "-rdynamic", os.path.join(CD, "mem.c"), "-o", mem, "-ldl"])
    if code != 0:
        raise Inconclusive("mem.c does not build: " + err[-800:])
    mj = []
    for n, d in libs.items():
        if n == "std" or d is None:
            continue
        lib = os.path.join(d, "libshogi_core_c.so")
        for i in range(2 if c.quick else 16):
            mj.append((n, [mem, lib, str(c.seed * 1000 + i), "6000" if c.quick else "60000"]))
        if n == "alloc" or not c.quick:
            mj += [(n, [mem, lib, str(c.seed), "1", str(f)]) for f in range(4)]
    for (n, cmd), (code, o, err, late) in runner.pmap(lambda j: (j, runner.run(j[1], 800)), mj):
        rep = {"kind": "mem", "build": n, "cmd": cmd}
        m = re.search(r"^(MISMATCH|CRASH) (.*)$", o, re.M)
        if m:
            c.violate("memory_functions", "%s: %s" % (n, m.group(0)), rep)
            continue
        if late or code != 0:
            raise Inconclusive("memory functions of %s: code %s%s %s %s" % (n, code, ", timed out" if late else "", o[-300:], err[-300:]))
        for k, v in re.findall(r"^COUNT (\S+) (\d+)$", o, re.M):
            k2 = "memory functions: " + k
            c.counters[k2] = c.counters.get(k2, 0) + int(v)
            if k == "checks":
                c.evaluations += int(v)
    c.samples += ["%s: %s from %d, digest %s" % (n, m, f, r["digest"]) for (n, m, f), r in sorted(got.items())[:10] if r]
    c.runs.append({"build": ", ".join(exes), "seed": c.seed, "jobs": len(todo) + len(mj)})


# ---------------------------------------------------------------------- C21


def arena_env(lib):
    code, o, err, _ = runner.run(["nm", "-S", lib], 60)
    for l in o.splitlines():
        f = l.split()
        if len(f) == 4 and "ARENA" in f[3] and int(f[1], 16) >= 4096:
            return {"ARENA_OFFSET": f[0], "ARENA_SIZE": str(int(f[1], 16))}
    return {}


def c21(c):
    gcc_works(c)
    names = ["alloc", "hook", "hook-dev", "hook-nightly"]
    libs = dict(runner.pmap(lambda n: (n, clib(c, n, fatal=n == "alloc")), names, 4))
    todo = []
    for n in names[1:]:
        d = libs[n]
        if d is None:
            continue
        lib = os.path.join(d, "libshogi_core_c.so")
        env = arena_env(lib)
        c.counters["arena located by its symbol (%s)" % n] = int(bool(env))
        exe = os.path.join(d, "alloc")
        code, _, err, _ = gcc(CFLAGS + ["-Werror", "-mno-red-zone", "-O1", "-DDEFINE_ALLOC", "-I" + INC, os.path.join(CD, "alloc.c"), "-o", exe] + link(d, n))
        if code != 0:
            raise Inconclusive("alloc.c does not build for %s: %s" % (n, err[-800:]))
        k = (1 if n == "hook" else 0.25) * (1 if c.quick else 20)
        for mode, cases, runs in (("seq", 1000, 4), ("stress", 1500, 4), ("step", 6 if n == "hook-dev" else 60, 16)):
            for i in range(max(1, int(runs * k))):
                todo.append((n, env, [exe, mode, str(c.seed), str(cases), str(i * cases)]))
    if not todo:
        raise Inconclusive("no library with the hook builds")
    d = libs["alloc"]
    exe, err = driver(c, "alloc", d)
    if exe is None:
        raise Inconclusive("the driver does not build: " + err[-800:])
    env = arena_env(os.path.join(d, "libshogi_core_c.so"))
    dj = [("exhaust", 3, 3 * i) for i in range(8 if c.quick else 60)] + [("threads", 150, 150 * i) for i in range(8 if c.quick else 100)] + [("records", 40, 40 * i) for i in range(2 if c.quick else 20)]
    # Several threads at once in each: not all at the same time.
    for (n, env2, cmd), (code, o, err, late) in runner.pmap(lambda j: (j, runner.run(j[2], 800, env=dict(runner.base_env(), **j[1]))), sorted(todo, key=lambda j: j[2][1] != "step"), 6):
        rep = {"kind": "alloc", "build": n, "cmd": cmd, "env": env2}
        m = re.search(r"^MISMATCH (\S+) .*$", o, re.M)
        if m:
            c.violate(m.group(1), "%s: %s" % (n, m.group(0)), rep)
            continue
        m = re.search(r"^CRASH .*$", o, re.M)
        if m:
            c.violate("crash", "%s: %s" % (n, m.group(0)), rep)
            continue
        if late or code != 0 or "DONE" not in o:
            raise Inconclusive("%s of %s: code %s%s %s %s" % (cmd[1], n, code, ", timed out" if late else "", o[-300:], err[-300:]))
        for k, v in re.findall(r"^COUNT (\S+) (\d+)$", o, re.M):
            k2 = "%s: %s" % (cmd[1], k)
            c.counters[k2] = c.counters.get(k2, 0) + int(v)
            if k == "checks":
                c.evaluations += int(v)
            if k in ("processes", "stops"):
                c.distinct += int(v)

    def exhaust(j):
        mode, n, frm = j
        return j, drive(c, exe, "alloc", mode, n, frm, True, env=env)

    for (mode, n, frm), r in runner.pmap(exhaust, dj):
        if r and mode == "exhaust":
            ends = re.findall(r"^EXHAUST (\d+) records, (\d+) moves", r["out"], re.M)
            c.evaluations += sum(int(a) + int(b) for a, b in ends)
            c.distinct += len(ends)
            c.samples += ["arena used up after %s records and %s moves" % e for e in ends[:1]]
    c.samples += [" ".join(os.path.basename(x) for x in t[2]) for t in todo[:6]]
    c.runs.append({"build": ", ".join(names), "seed": c.seed, "jobs": len(todo) + len(dj)})


# ---------------------------------------------------------------------- C25


def c25(c):
    gcc_works(c)
    d = clib(c, "std")
    dd = clib(c, "std-dev")
    plans = [
        ("std", d, ["-DLEDGER"], "-ledger", (), {}, [("life", 250, 250 * i) for i in range(8 if c.quick else 400)]),
        ("std-dev", dd, ["-DLEDGER"], "-ledger", (), {}, [("life", 100, 100 * i) for i in range(4 if c.quick else 60)]),
        ("std", d, ["-DSANITIZED", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], "-asan", (), {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77"}, [("life", 30, 30 * i) for i in range(4 if c.quick else 40)] + [("long", 4, 4 * i) for i in range(2)]),
        ("std", d, [], "", ("valgrind", "-q", "--error-exitcode=9", "--leak-check=full", "--errors-for-leak-kinds=definite,possible"), {}, [("life", 6, 6 * i) for i in range(6 if c.quick else 40)] + [("records", 3, 0), ("long", 1, 1)]),
        ("std", d, [], "", (), {}, [("long", 12, 12 * i) for i in range(4 if c.quick else 40)] + [("threads", 100, 100 * i) for i in range(4 if c.quick else 40)]),
    ]
    todo = []
    for name, dr, extra, tag, wrap, env, jobs in plans:
        exe, err = driver(c, name, dr, extra, tag)
        if exe is None:
            raise Inconclusive("the driver does not build: " + err[-800:])
        for m, n, frm in jobs:
            todo.append((exe, name + tag + (" under " + wrap[0] if wrap else ""), m, n, frm, wrap, env))
    if not shutil.which("valgrind"):
        todo = [t for t in todo if not t[5]]
        c.counters["valgrind missing"] = 1
    probe = runner.run(["valgrind", "-q", "/bin/true"], 100)
    if probe[0] != 0:
        todo = [t for t in todo if not t[5]]
        c.counters["valgrind unusable"] = 1

    def one(j):
        exe, label, m, n, frm, wrap, env = j
        return j, drive(c, exe, label, m, n, frm, False, env=env, wrap=wrap, timeout=800)

    for j, r in runner.pmap(one, sorted(todo, key=lambda j: not j[5])):
        if r:
            c.distinct += r["counts"].get("acquired", 0) // 2 or r["counts"].get("accepted", 0) // 100
    c.samples += ["%s %s from %d" % (j[1], j[2], j[4]) for j in todo[:10]]
    c.runs.append({"build": "std, std-dev with the ledger, ASan, valgrind", "seed": c.seed, "jobs": len(todo)})


RULES = {
    "C19": "one comparison of what a C program sees (a returned value, a field, a byte beyond) with the C model's expectation, in sweeps over all arguments of the functions of small values and random histories of sets, hands, positions, records and games; distinct: by result, sampled",
    "C20": "one comparison with the C model or, for a whole case, of the digest of all results between the hosted and a freestanding library; for the memory functions, one byte or result compared; distinct: by case and build",
    "C21": "one block handed out by the freestanding allocator, checked for alignment, place, disjointness from all live blocks and contents; distinct: by process (fresh arena) and by point at which one thread was stopped in mid-call",
    "C25": "one comparison of a record's state, address or ledger entry in histories of creating, playing and destroying up to 64 records; distinct: by record",
}
CHECKS = {"C19": c19, "C20": c20, "C21": c21, "C25": c25}
HOOKS = {
    "guard": "cfg(verif_hooks)",
    "enable": 'RUSTFLAGS="--cfg verif_hooks" cargo +nightly-2023-03-15 build --release -p shogi_core_c --no-default-features --features alloc',
    "source_commits": ["6d24f4a"],
}
