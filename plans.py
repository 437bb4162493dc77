"""What each property's check runs. Counts are cases, so a run is deterministic for a seed."""
import json, os, re, shutil, subprocess, sys
from run import *
import run as R

def Q(tier, q, t):
    return q if tier == "quick" else t

ASSUME = ["the oracle (GMP, OpenSSL or the reference code in /verif/harness) is right", "behaviour outside the generated inputs is not observed"]
RULE = "distinct_nontrivial counts distinct hashes of the generated inputs of a case (each case makes several oracle comparisons, counted in evaluations); a case executed on several build configurations counts once"

def four(suite, tier, q, t, cfgs="ABCD", slow=1.0):
    """The same cases on several build configurations, plus a longer tail on the optimised ones."""
    n = Q(tier, q, t)
    return [Job(c, suite, n) for c in cfgs]

def simple(*specs):
    def plan(res, tier):
        jobs = []
        for suite, cfgs, q, t in specs: jobs += four(suite, tier, q, t, cfgs)
        run_cpp_jobs(res, jobs)
    return plan

def tail(jobs_spec):
    """jobs_spec: list of (config, suite, quickCases, thoroughCases, extra Job kwargs)"""
    def plan(res, tier):
        run_cpp_jobs(res, [Job(c, s, Q(tier, q, t), **kw) for c, s, q, t, kw in jobs_spec if Q(tier, q, t)])
    return plan

def hash_plan(suite, huge, q, t):
    def plan(res, tier):
        jobs = []
        # the long-message cases first: each is one long serial computation
        for i in Q(tier, [0, 2], [0, 1, 2, 3, 4, 5]) + (Q(tier, [6, 7, 8], [6, 7, 8, 9, 10, 11, 12, 13]) if suite.startswith("sha") else []):
            jobs.append(Job("H", huge, 1, group=f"{huge}-{i}", shards=1, start=i, watch=20))
        jobs.append(Job("H", "long-" + suite, Q(tier, 154, 3080), watch=20))
        jobs += [Job(c, suite, Q(tier, q, t)) for c in "ABCD"]
        run_cpp_jobs(res, jobs)
    return plan

def p04(res, tier):
    jobs = [Job(c, "asm", Q(tier, 60000, 1000000)) for c in "BD"]
    for suite, n in (("uint", Q(tier, 40000, 400000)), ("recip", Q(tier, 10000, 80000)), ("field", Q(tier, 30000, 240000)), ("point", Q(tier, 3000, 36000)),
                     ("mul", Q(tier, 400, 3600)), ("sign", Q(tier, 400, 3600)), ("hmacsign", Q(tier, 300, 2800)), ("verify", Q(tier, 300, 2000)), ("bip32", Q(tier, 200, 2000))):
        jobs += [Job(c, suite, n) for c in ("A", "B", "C", "D", "F", "FB", "G", "S")]
    for suite, n in (("sha256", Q(tier, 3000, 60000)), ("sha512", Q(tier, 3000, 60000)), ("ripemd160", Q(tier, 3000, 60000)), ("keccak256", Q(tier, 3000, 60000)), ("b58export", Q(tier, 2000, 60000)), ("b58import", Q(tier, 3000, 60000)), ("types", Q(tier, 10000, 80000))):
        jobs += [Job(c, suite, n) for c in ("F", "G", "S")]
    run_cpp_jobs(res, jobs)
    compare_digests(res)

def compare_digests(res):
    """Same cases on every build configuration: every observed output word and every verdict must be identical."""
    compared = 0
    for (suite, group, shard), by in sorted(res.digests.items()):
        if suite == "asm" or len(by) < 2: continue
        compared += len(by) - 1
        res.evaluations += len(by) - 1
        ref_cfg = sorted(by)[0]
        for cfg in sorted(by):
            if by[cfg][0] != by[ref_cfg][0]:
                res.violation(f"{suite} shard {shard}: output digest of configuration {cfg} ({CONFIG_TEXT[cfg]}) is {by[cfg][0]}, of {ref_cfg} ({CONFIG_TEXT[ref_cfg]}) it is {by[ref_cfg][0]}",
                    save_replay(res, "digest", {"suite": suite, "argv": by[cfg][1], "argv_reference": by[ref_cfg][1]}))
    res.extra["digest_comparisons_between_configurations"] = res.extra.get("digest_comparisons_between_configurations", 0) + compared

# every suite, small counts: (suite, quick, thorough)
ALL = [("uint", 30000, 600000), ("recip", 8000, 200000), ("field", 20000, 500000), ("point", 3000, 80000), ("mul", 240, 8000), ("sign", 320, 12000), ("hmacsign", 240, 8000),
    ("verify", 240, 8000), ("sha256", 4000, 150000), ("sha512", 4000, 150000), ("ripemd160", 6000, 200000), ("keccak256", 6000, 200000), ("b58export", 4000, 120000),
    ("b58import", 8000, 300000), ("bip32", 240, 8000), ("types", 20000, 600000)]

def m01(res, tier):
    # Heaviest shards first so that the pool drains evenly.
    jobs = []
    for s, q, t in sorted(ALL, key=lambda x: x[0] not in ("mul", "sign", "hmacsign", "verify", "bip32", "point")):
        jobs += [Job(c, s, Q(tier, q, t), memory_only=True) for c in "AB"]
    jobs.append(Job("D", "asm", Q(tier, 40000, 1000000), memory_only=True))   # guard pages: faults count
    run_cpp_jobs(res, jobs)

VG = ("valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--malloc-fill=0xBE", "--free-fill=0xEF", "--leak-check=no")
def m02(res, tier):
    k = Q(tier, 1, 12)
    small = {"uint": 1200, "recip": 500, "field": 1000, "point": 120, "mul": 8, "sign": 12, "hmacsign": 8, "verify": 8, "sha256": 400, "sha512": 400, "ripemd160": 400, "keccak256": 500, "b58export": 80, "b58import": 160, "bip32": 8, "types": 2000, "asm": 1500}
    jobs = []
    for s in ("verify", "mul", "hmacsign", "sign", "bip32", "point", "field", "recip", "uint", "keccak256", "sha256", "sha512", "ripemd160", "b58export", "b58import", "types"):
        jobs += [Job(c, s, small[s] * k, memory_only=True, prefix=VG) for c in ("V", "VB")]
    jobs.append(Job("VB", "asm", small["asm"] * k, memory_only=True, prefix=VG))
    run_cpp_jobs(res, jobs)
    # Builds that differ only in what local variables hold before they are set: whatever differs came from such a variable.
    for pair in (("IZ", "IP"), ("IZB", "IPB")):
        res.digests.clear()
        run_cpp_jobs(res, [Job(c, s, Q(tier, q, t), memory_only=True) for s, q, t in ALL for c in pair])
        compare_digests(res)

def r01(res, tier):
    files = ("arith", "curve", "ecdsa", "hash", "b58", "bip32", "types")
    pre = ("setarch", "-R") if sh("setarch -R true").returncode == 0 else ()
    ex = tuple(f"suite_{f}.cpp" for f in files)
    n = Q(tier, 64, 1600)
    jobs = [Job(c, "threads", n, shards=n, extra_src=ex, prefix=pre, link_extra="-Wl,--wrap=_ZN6Sha5127getHmacEPKhmS1_mPh") for c in ("T", "TB")]
    jobs += [Job(c, "threads", 2 * n, shards=2 * n, extra_src=ex, link_extra="-Wl,--wrap=_ZN6Sha5127getHmacEPKhmS1_mPh") for c in ("D", "A")]
    run_cpp_jobs(res, jobs)
    count_interleavings(res)

def count_interleavings(res):
    """Every round reports a fingerprint of the order in which its operations started and ended on their threads."""
    keys = [k for k in res.events if ":interleaving." in k]
    res.extra["interleavings"] = {"rounds": sum(res.events[k] for k in keys), "distinct_orders_of_operation_starts_and_ends": len(keys)}
    for k in keys: del res.events[k]

def t01(res, tier):
    nops = 49
    jobs = [Job(c, "ct", nops * Q(tier, 4, 60)) for c in ("CT", "CTB")]
    if tier == "thorough":   # the machine code that compilers make of it with the Makefile's optimisation level, single-stepped
        jobs += [Job(c, "step", nops * 2, shards=nops * 2, watch=500) for c in ("V", "VB", "K")]
    run_cpp_jobs(res, jobs)
    # Assembly leaf routines: instruction and address traces.
    src = os.path.join(HC, "asm_trace.cpp"); asm = listdir(os.path.join(REPO, "cpp"), ".s")
    wd = os.path.join(SCRATCH, "run", f"T01-{os.getpid()}"); os.makedirs(wd, exist_ok=True)
    exe = os.path.join(wd, "at")
    r = sh(f"g++ -O1 -g -static -no-pie {src} {' '.join(asm)} -Wl,-z,noexecstack -o {exe}")
    if r.returncode: raise Broken("asm_trace: " + r.stdout[-2000:])
    n = Q(tier, 200, 2000)
    logf = os.path.join(wd, "lk.txt")
    r = subprocess.run(["valgrind", "--tool=lackey", "--trace-mem=yes", "--basic-counts=no", f"--log-file={logf}", exe, str(SEED), str(n)], stdout=subprocess.PIPE, text=True)
    if r.returncode: raise Broken(f"lackey run failed: {r.returncode}")
    mark = int(r.stdout.split()[0], 16)
    names = ["add", "subtract", "shiftLeft1", "shiftRight1", "replace", "swap", "equalTo", "lessThan", "multiply256x256eq512", "multiplyBarrettStep0", "multiplyBarrettStep1", "multiplyBarrettStep2"]
    cur, segs = None, []
    want = "%08x,8" % mark
    with open(logf) as f:
        for line in f:
            if line.startswith(" S ") and line[3:].strip() == want or line.startswith(" M ") and line[3:].strip() == want:
                if cur is None: cur = []
                else: segs.append(cur); cur = None
            elif cur is not None and line[:2] in ("I ", " L", " S", " M"):
                cur.append(line.rstrip())
    shutil.rmtree(wd, ignore_errors=True)
    # segments come in the order of the routines, n each
    if not segs or len(segs) % n: raise Broken(f"asm trace: {len(segs)} segments for {n} secrets")
    traced = {}
    for g in range(len(segs) // n):
        ref = segs[g * n]
        for i in range(n):
            res.evaluations += 1
            s = segs[g * n + i]
            if s != ref:
                k = next((k for k in range(min(len(s), len(ref))) if s[k] != ref[k]), min(len(s), len(ref)))
                res.violation(f"assembly routine {names[g]}: trace depends on the operands (secret {i}, event {k}: {ref[k] if k < len(ref) else 'end'} became {s[k] if k < len(s) else 'end'})",
                    save_replay(res, "asmtrace", {"argv": [exe, str(SEED), str(n)], "routine": names[g], "secret": i}))
                break
        traced[names[g]] = {"secrets": n, "events_per_execution": len(ref)}
    res.distinct_by_group["asm-leaf"] = len(segs)
    res.extra["assembly_leaf_traces"] = traced

def o01(res, tier):
    """The operation-counting build: report program, counts on many operands, results against the oracles."""
    wd = os.path.join(SCRATCH, "run", f"O01r-{os.getpid()}"); os.makedirs(wd, exist_ok=True)
    reports, res.extra["reports"] = {}, {}
    for cfg in ("O", "OB"):
        flags, asm, linkf = CONFIGS[cfg]
        srcs = lib_sources() + [os.path.join(REPO, "cpp", "EcdsaOpCount.cpp")] + (listdir(os.path.join(REPO, "cpp"), ".s") if asm else [])
        exe = os.path.join(wd, "opcount-" + cfg)
        r = sh(f"{flags.replace(SAN, '')} -I{REPO}/cpp {' '.join(srcs)} -Wl,-z,noexecstack -o {exe}")
        if r.returncode: raise Broken("EcdsaOpCount: " + r.stdout[-2000:])
        outs = []
        for i in range(3):
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            outs.append((p.returncode, p.stdout)); res.evaluations += 1
        if outs[0][0] != 0 or any(o != outs[0] for o in outs):
            res.violation(f"the report program of the {CONFIG_TEXT[cfg]} is not deterministic or fails: {[(o[0], o[1][:300].decode('latin1')) for o in outs]}", save_replay(res, "report", {"argv": [exe], "outputs": [[o[0], o[1].decode("latin1")] for o in outs]}))
        lines = outs[0][1].decode("latin1").split("\n")
        rows = {m.group(2): int(m.group(1).replace(" ", "")) for m in (re.match(r"([ 0-9]*[0-9])  (\w+)$", l) for l in lines) if m}
        bad = [k for k, v in rows.items() if v <= 0]
        if not rows or bad:
            res.violation(f"the report program of the {CONFIG_TEXT[cfg]} printed no positive count for {bad or 'anything'}", save_replay(res, "report", {"argv": [exe], "output": outs[0][1].decode("latin1")}))
        reports[cfg] = os.path.join(wd, "report-" + cfg); open(reports[cfg], "wb").write(outs[0][1])
        res.extra["reports"][cfg] = rows
    nops = 49
    for cfg in ("O", "OB"):
        os.environ["OPS_REPORT"] = reports[cfg]
        jobs = [Job(cfg, "ops", nops * Q(tier, 4, 100), shards=NCPU)]
        for s, q, t in (("uint", 8000, 400000), ("recip", 3000, 100000), ("field", 6000, 300000), ("point", 800, 40000), ("mul", 120, 4000), ("sign", 120, 5000), ("verify", 100, 4000)):
            jobs.append(Job(cfg, s, Q(tier, q, t)))
        run_cpp_jobs(res, jobs)
    shutil.rmtree(wd, ignore_errors=True)

def o02(res, tier):
    """The same library linked in many orders: the linker's order decides in which order constants are initialised."""
    names = [os.path.basename(p)[:-4] for p in lib_sources()]
    orders = ["reverse"] + [f"{k}:{n}" for n in names for k in ("first", "last")] + [f"shuffle:{i}" for i in range(Q(tier, 24, 400))]
    work = (("order", 1), ("point", 40), ("field", 100), ("recip", 40), ("sign", 10), ("hmacsign", 4), ("verify", 10), ("bip32", 4), ("types", 40), ("b58export", 16), ("b58import", 24),
        ("uint", 60), ("mul", 4), ("sha256", 12), ("sha512", 12), ("ripemd160", 12), ("keccak256", 12))
    jobs = []
    for cfg in "V", "VB", "C":
        for i, o in enumerate(orders):
            jobs += [Job(cfg, s, n, shards=1, start=i * n, order=o, archive=i % 4 == 3) for s, n in work]
    try: run_cpp_jobs(res, jobs)
    finally: shutil.rmtree(os.path.join(SCRATCH, "run", f"order-{os.getpid()}"), ignore_errors=True)
    res.extra["link_orders"] = {"distinct": len(set(orders)), "builds": 3}

LOCALES = (("tr_TR", "ISO-8859-9"), ("de_DE", "ISO-8859-1"), ("ar_EG", "ISO-8859-6"), ("ja_JP", "EUC-JP"), ("fa_IR", "UTF-8"), ("hy_AM", "ARMSCII-8"))
def e01(res, tier):
    """Histories of calls under changing process state against the same calls in a pristine process."""
    wd = os.path.join(SCRATCH, "run", f"E01-{os.getpid()}"); os.makedirs(wd, exist_ok=True)
    names = []
    if shutil.which("localedef"):
        for l, m in LOCALES:
            sh(["localedef", "--no-archive", "-i", l, "-f", m, os.path.join(wd, f"{l}.{m}")])
            if os.path.isdir(os.path.join(wd, f"{l}.{m}")): names.append(f"{l}.{m}")
    os.environ["LOCPATH"] = wd; os.environ["HISTORY_LOCALES"] = ":".join(names + ["C.utf8"])
    try:
        run_cpp_jobs(res, [Job(c, "history", Q(tier, 116 if c in "AB" else 348, 5800), watch=15) for c in "ABCD"])
    finally:
        del os.environ["LOCPATH"], os.environ["HISTORY_LOCALES"]; shutil.rmtree(wd, ignore_errors=True)
    res.extra["locales"] = names

def e02(res, tier):
    run_cpp_jobs(res, [Job(c, "jhistory", Q(tier, 520, 26000), shards=Q(tier, 4, 4), watch=15) for c in ("JE1", "JE2")])
    compare_digests(res)

def x02(res, tier):
    """The library compiled for a 32-bit machine answers the same calls as the library compiled for this one."""
    names = Q(tier, ["32g", "32c"], ["32g", "32c", "32s", "32o"]); jobs = []
    exes = {n: build_ilp32(n) for n in names}
    for i, n in enumerate(names):
        pre = ("env", "HISTORY_SERVER=" + exes[n])
        for k in Q(tier, range(6), range(18)): jobs.append(Job("CD"[i % 2], "otherlong", 1, group=f"otherlong-{k}-{n}", shards=1, start=k, watch=300, prefix=pre))
    for i, n in enumerate(names):
        jobs.append(Job("DC"[i % 2], "history", Q(tier, 696, 2320), group="history-" + n, watch=60, prefix=("env", "HISTORY_SERVER=" + exes[n])))
    run_cpp_jobs(res, jobs)
    res.extra["machines"] = {n: ILP32[n] + " -m32" for n in names}

def x03(res, tier):
    """The library compiled for a big-endian machine answers the same calls as the library compiled for this one."""
    names = Q(tier, ["beu", "bes"], ["beu", "bes", "be0", "be3"]); exes = {n: build_be32(n) for n in names}
    run_cpp_jobs(res, [Job("DC"[i % 2], "history", Q(tier, 464, 2320), group="history-" + n, watch=60, prefix=("env", "HISTORY_SERVER=" + exes[n])) for i, n in enumerate(names)])
    res.extra["machines"] = {n: "clang++ --target=mips-linux-gnu -march=mips32r2 " + BE32[n] for n in names}

def java(*specs, huge=None):
    """specs: (suite, quick, thorough); every suite runs with assertions on (C1) and off (C2)."""
    def plan(res, tier):
        jobs = []
        if huge:
            for i in Q(tier, huge[1], [0, 1, 2, 3, 4, 5]): jobs.append(Job("JH", huge[0], 1, group=f"{huge[0]}-{i}", shards=1, start=i, watch=40))
            jobs.append(Job("JH", huge[0].replace("huge", "long"), Q(tier, 77 if specs[0][0] in ("jripemd160", "jkeccak256") else 154, 3080), shards=Q(tier, 4, 8), watch=40))
        for s, q, t in specs:
            jobs += [Job(c, s, Q(tier, q, t), shards=min(NCPU, 4 if tier == "quick" else NCPU)) for c in ("JA", "JD")]
            jobs.append(Job("JI", s, max(8, Q(tier, q, t) // 100), shards=1))
        run_cpp_jobs(res, jobs)
    return plan

def x01(res, tier):
    """Record calls of the C++ library (four builds share the work), then replay every record in Java."""
    wd = os.path.join(SCRATCH, "run", f"X01v-{os.getpid()}"); os.makedirs(wd, exist_ok=True)
    os.environ["VECTORS_OUT"] = os.path.join(wd, "v")
    n = Q(tier, 8000, 400000)
    try:
        run_cpp_jobs(res, [Job(c, "vectors", n // 4, start=i * (n // 4), group="vectors-" + c) for i, c in enumerate("ABCD")])
        if res.violations: return
        lines = []
        for f in sorted(os.listdir(wd)): lines += open(os.path.join(wd, f), encoding="latin1").read().splitlines()
        lines.sort()
        res.extra["recorded_events"] = len(lines)
        log_path = os.path.join(SCRATCH, "replays", f"X01-{SEED}-{tier}.log"); os.makedirs(os.path.dirname(log_path), exist_ok=True)
        with open(log_path, "w", encoding="latin1") as f: f.write("\n".join(lines) + "\n")
        run_cpp_jobs(res, [Job(c, "jvectors", len(lines), shards=4, flags=("--vectors", log_path)) for c in ("JA", "JD")])
    finally:
        del os.environ["VECTORS_OUT"]; shutil.rmtree(wd, ignore_errors=True)
    if not res.violations: os.unlink(log_path)

def r02(res, tier):
    run_cpp_jobs(res, [Job("JR", "jthreads", Q(tier, 300, 12000), shards=Q(tier, 4, 8), watch=15)])
    count_interleavings(res)

def t02(res, tier):
    nops = 26
    run_cpp_jobs(res, [Job("JT", "jct", nops * Q(tier, 48, 600))])

PLANS = {
    "R02": (r02, []), "T02": (t02, []),
    "X01": (x01, []),
    "J01": (java(("juint", 200000, 6000000)), []),
    "J02": (java(("jrecip", 60000, 1500000)), []),
    "J03": (java(("jfield", 300000, 4000000)), []),
    "J04": (java(("jpoint", 8000, 300000), ("jmul", 2000, 60000)), []),
    "J05": (java(("jsign", 4000, 100000), ("jhmacsign", 1500, 50000)), []),
    "J06": (java(("jverify", 3000, 60000)), []),
    "J07": (java(("jsha256", 60000, 2000000), huge=("jhuge-sha256", [0, 1, 3])), []),
    "J08": (java(("jsha512", 60000, 2000000), huge=("jhuge-sha512", [0, 1, 3])), []),
    "J09": (java(("jripemd160", 60000, 2000000), huge=("jhuge-ripemd160", [0, 1])), []),
    "J10": (java(("jkeccak256", 60000, 2000000), huge=("jhuge-keccak256", [0])), []),
    "J11": (java(("jvalue", 150000, 4000000)), []),
    "J12": (java(("jbase58", 60000, 2000000), ("jlongbase58", 70, 1400)), []),
    "J13": (java(("jbech32", 60000, 2000000)), []),
    "J14": (java(("jsegwit", 60000, 2000000)), []),
    "P04": (p04, []), "M01": (m01, []), "M02": (m02, []), "R01": (r01, []), "T01": (t01, []), "O01": (o01, []), "O02": (o02, []), "E01": (e01, []), "E02": (e02, []), "X02": (x02, []), "X03": (x03, []),
    "P01": (simple(("uint", "ABCD", 400000, 3000000)), ["uint"]),
    "P02": (simple(("recip", "ABCD", 120000, 800000)), []),
    "P03": (simple(("field", "ABCD", 250000, 2000000)), []),
    "P05": (simple(("point", "ABCD", 12000, 500000), ("mul", "AB", 800, 40000), ("mul", "CD", 3000, 100000)), []),
    "P06": (simple(("sign", "AB", 1200, 50000), ("sign", "CD", 5000, 200000)), []),
    "P07": (simple(("hmacsign", "AB", 800, 30000), ("hmacsign", "CD", 3000, 100000)), []),
    "P08": (simple(("verify", "AB", 800, 30000), ("verify", "CD", 3000, 100000)), []),
    "P09": (hash_plan("sha256", "huge-sha256", 20000, 200000), []),
    "P10": (hash_plan("sha512", "huge-sha512", 20000, 200000), []),
    "P11": (hash_plan("ripemd160", "huge-ripemd160", 30000, 300000), []),
    "P12": (hash_plan("keccak256", "huge-keccak256", 30000, 300000), []),
    "P13": (simple(("b58export", "ABCDU", 12000, 300000)), []),
    "P14": (simple(("b58import", "ABCDU", 25000, 500000)), []),
    "P15": (simple(("bip32", "AB", 800, 30000), ("bip32", "CD", 3000, 120000)), []),
    "P16": (simple(("types", "ABCDU", 200000, 1000000)), []),
}

def check(pid, tier):
    if pid not in PLANS: raise Broken("unknown property " + str(pid))
    plan, _ = PLANS[pid]
    res = Result(pid, tier)
    plan(res, tier)
    return finish(res, RULE, assumptions=ASSUME)

def setup():
    need = ["g++", "clang++", "clang", "ld.lld", "gcc", "valgrind", "java", "javac"]
    for n in need:
        if not shutil.which(n): log("missing tool", n); return 2
    return 0

def replay(r):
    print(json.dumps(r, indent=1)[:8000])
    argv = list(r["argv"])
    for f in ("--out", "--journal"):
        if f in argv: argv[argv.index(f) + 1] = os.path.join(SCRATCH, "replay" + f)
    if r.get("config") in JAVA_FLAGS:
        i = argv.index(r["suite"])
        return subprocess.call(java_argv(r["config"]) + argv[i:] + ["--only", str(r["case"])])
    fs = SUITE_FILE.get(r.get("suite"))
    if fs is None: return subprocess.call(argv)
    job = Job(r["config"], r["suite"], 1)
    b = build_cpp(r["config"], r.get("suites") if r.get("order") else [fs], order=r.get("order", ""), archive=r.get("archive", False))
    i = next(k for k, x in enumerate(argv) if x.endswith("/mon"))
    argv[i] = b
    for k, x in enumerate(argv):   # the 32-bit program too is built again
        m = re.match(r"HISTORY_SERVER=.*/ilp32-(\w+)-[^/]+/server$", x)
        if m: argv[k] = "HISTORY_SERVER=" + build_ilp32(m.group(1))
        m = re.match(r"HISTORY_SERVER=.*/be32-(\w+)-[^/]+/server$", x)
        if m: argv[k] = "HISTORY_SERVER=" + build_be32(m.group(1))
    if r.get("case") is not None: argv += ["--only", str(r["case"])]
    rc = subprocess.call(argv, env=dict(os.environ, **SANENV))
    o = os.path.join(SCRATCH, "replay--out")
    if os.path.exists(o): print(open(o).read())
    return rc
