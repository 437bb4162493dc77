#!/usr/bin/env python3
"""Driver of the runtime monitors.
  run.py check PID            decide one property (VERIF_SEED, VERIF_TIER or --tier quick|thorough)
  run.py setup                smoke test of the tool chain
  run.py replay FILE          re-execute a recorded violation
Exit status: 0 held on everything observed, 1 violation, 2 the check itself could not run."""
import argparse, fcntl, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = os.path.join(VERIF, "_scratch")
EVID = os.path.join(VERIF, "evidence")
HC = os.path.join(VERIF, "harness", "cpp")
HJ = os.path.join(VERIF, "harness", "java")
NCPU = min(8, os.cpu_count() or 1)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WALL_CAP = 780

class Broken(Exception):
    """The check could not be carried out (exit 2)."""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ---------------------------------------------------------------- building
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
CONFIGS = {   # name: (compiler + flags of the library code, uses assembly, link flags)
    "A": (f"g++ -std=c++11 -O1 -g {SAN}", False, "-fsanitize=address,undefined"),
    "B": (f"g++ -std=c++11 -O1 -g -DUSE_X8664_ASM_IMPL {SAN}", True, "-fsanitize=address,undefined"),
    "C": ("clang++ -std=c++11 -O2 -g -DNDEBUG", False, ""),
    "D": ("g++ -std=c++11 -O2 -g -DNDEBUG -DUSE_X8664_ASM_IMPL", True, ""),
    "H": ("g++ -std=c++11 -O3 -g", False, ""),
    "T": ("clang++ -std=c++11 -O1 -g -fsanitize=thread", False, "-fsanitize=thread"),
    "TB": ("clang++ -std=c++11 -O1 -g -DUSE_X8664_ASM_IMPL -fsanitize=thread", True, "-fsanitize=thread"),
    "V": ("g++ -std=c++11 -O1 -g", False, ""),                                  # valgrind, portable
    "VB": ("g++ -std=c++11 -O1 -g -DUSE_X8664_ASM_IMPL", True, ""),             # valgrind, assembly
    "O": (f"g++ -std=c++11 -O1 -g -DCOUNT_OPS -DNDEBUG {SAN}", False, "-fsanitize=address,undefined"),
    "OB": (f"g++ -std=c++11 -O1 -g -DCOUNT_OPS -DNDEBUG -DUSE_X8664_ASM_IMPL {SAN}", True, "-fsanitize=address,undefined"),
    "IZ": ("g++ -std=c++11 -O1 -g -ftrivial-auto-var-init=zero", False, ""),      # what a local variable holds before it is set:
    "IP": ("g++ -std=c++11 -O1 -g -ftrivial-auto-var-init=pattern", False, ""),   # zeros, or bytes 0xFE
    "IZB": ("g++ -std=c++11 -O1 -g -DUSE_X8664_ASM_IMPL -ftrivial-auto-var-init=zero", True, ""),
    "IPB": ("g++ -std=c++11 -O1 -g -DUSE_X8664_ASM_IMPL -ftrivial-auto-var-init=pattern", True, ""),
    "U": ("g++ -std=c++11 -O2 -g -DNDEBUG -funsigned-char", False, ""),          # plain char as on ARM
    "F": ("g++ -std=c++20 -O3 -g1 -march=native -flto=1 -DNDEBUG", False, "-flto=1 -O3 -march=native"),
    "FB": ("g++ -std=c++17 -O3 -g1 -march=native -flto=1 -DUSE_X8664_ASM_IMPL", True, "-flto=1 -O3 -march=native"),
    "G": ("clang++ -std=c++20 -O3 -g1 -march=native", False, ""),
    "S": ("g++ -std=c++14 -Os -g1 -DUSE_X8664_ASM_IMPL -DNDEBUG", True, ""),
    "K": ("clang++ -std=c++11 -O1 -g", False, ""),                              # single-stepped like V and VB
    "CT": ("clang++ -std=c++11 -O0 -g -DNDEBUG -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores,trace-div,trace-gep", False, ""),
    "CTB": ("clang++ -std=c++11 -O0 -g -DNDEBUG -DUSE_X8664_ASM_IMPL -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores,trace-div,trace-gep", True, ""),
    "CTO": ("g++ -std=c++11 -O1 -g -DUSE_X8664_ASM_IMPL", True, ""),
}
ASM_EXPORT = ("--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED")
JAVA_FLAGS = {   # Java configurations: JVM flags
    "JA": ("-ea", "-XX:TieredStopAtLevel=1", *ASM_EXPORT),
    "JD": ("-da", *ASM_EXPORT),
    "JI": ("-ea", "-Xint", *ASM_EXPORT),
    "JH": ("-da", "-Xmx3g"),
    "JT": ("-da", "-XX:-DontCompileHugeMethods", *ASM_EXPORT),
    "JR": ("-ea", *ASM_EXPORT),
    "JE1": ("-ea", "-Dfile.encoding=IBM1047", "-Duser.language=tr", "-Duser.country=TR", "-XX:TieredStopAtLevel=1", *ASM_EXPORT),
    "JE2": ("-da", "-Dfile.encoding=UTF-16", *ASM_EXPORT),
}
CONFIG_TEXT = {
    "JA": "Java, assertions on, C1 compiler only", "JD": "Java, assertions off, tiered C1/C2", "JI": "Java, assertions on, interpreter only", "JH": "Java, assertions off, tiered C1/C2, 3 GB heap",
    "JE1": "Java, assertions on, C1 compiler only, default charset IBM1047, default locale tr-TR", "JE2": "Java, assertions off, tiered C1/C2, default charset UTF-16",
    "JT": "Java, assertions off, bytecode instrumented to record blocks, indices and outside calls", "JR": "Java, assertions on, bytecode instrumented with thread delays",
    "A": "portable C++, gcc -O1, ASan+UBSan, assertions on", "B": "x86-64 assembly, gcc -O1, ASan+UBSan, assertions on",
    "C": "portable C++, clang -O2 -DNDEBUG", "D": "x86-64 assembly, gcc -O2 -DNDEBUG", "H": "portable C++, gcc -O3",
    "T": "portable C++, clang -O1, ThreadSanitizer", "TB": "x86-64 assembly, clang -O1, ThreadSanitizer",
    "V": "portable C++, gcc -O1, assertions on, under valgrind memcheck or single-stepped", "VB": "x86-64 assembly, gcc -O1, assertions on, under valgrind memcheck or single-stepped",
    "O": "portable C++, operation-counting build, gcc -O1 -DNDEBUG, ASan+UBSan", "OB": "x86-64 assembly, operation-counting build, gcc -O1 -DNDEBUG, ASan+UBSan",
    "IZ": "portable C++, gcc -O1, local variables start as zeros", "IP": "portable C++, gcc -O1, local variables start as 0xFE bytes",
    "IZB": "x86-64 assembly, gcc -O1, local variables start as zeros", "IPB": "x86-64 assembly, gcc -O1, local variables start as 0xFE bytes",
    "U": "portable C++, gcc -O2 -DNDEBUG, plain char unsigned (as on ARM)",
    "F": "portable C++20, gcc -O3 -march=native, link-time optimisation, -DNDEBUG", "FB": "x86-64 assembly, C++17, gcc -O3 -march=native, link-time optimisation, assertions on",
    "G": "portable C++20, clang -O3 -march=native, assertions on", "S": "x86-64 assembly, C++14, gcc -Os -DNDEBUG",
    "K": "portable C++, clang -O1, assertions on, single-stepped",
    "CT": "portable C++, clang -O0 with branch/load/store/division tracing", "CTB": "x86-64 build, clang -O0 with tracing",
    "CTO": "x86-64 assembly leaf routines under valgrind instruction tracing",
}

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]

def listdir(d, *suffix):
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(suffix))

def lib_sources():
    return [p for p in listdir(os.path.join(REPO, "cpp"), ".cpp") if not p.endswith("Test.cpp") and not p.endswith("EcdsaOpCount.cpp")]

_built = {}
class Lock:
    def __init__(self, path): self.path = path
    def __enter__(self):
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def compile_many(cmds):
    def one(c):
        r = sh(c)
        return c, r
    with ThreadPoolExecutor(NCPU) as ex:
        for c, r in ex.map(one, cmds):
            if r.returncode != 0:
                raise Broken(f"build failed: {c}\n{r.stdout[-4000:]}")

def prune():
    base = os.path.join(SCRATCH, "build")
    if not os.path.isdir(base): return
    ds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=lambda p: os.path.getmtime(p), reverse=True)
    for d in ds[40:]:
        shutil.rmtree(d, ignore_errors=True)

def harness_flags():
    return f"g++ -std=c++17 -O1 -g -I{REPO}/cpp -I{HC}"

def link_arrangement(order, lobj):
    """The library's object files as the linker gets to see them: "" as sorted, "reverse", "first:NAME", "last:NAME", "shuffle:N"."""
    if not order: return lobj
    if order == "reverse": return lobj[::-1]
    kind, arg = order.split(":")
    if kind == "shuffle": return random.Random(f"{SEED}/{arg}").sample(lobj, len(lobj))
    mine = [o for o in lobj if os.path.basename(o) == arg + ".o"]; rest = [o for o in lobj if o not in mine]
    return mine + rest if kind == "first" else rest + mine

def build_cpp(config, suites, main="main.cpp", extra_src=(), harness_cmd=None, link_extra="", order="", archive=False):
    """Returns the monitor binary of the given suites linked to the library as built in `config`."""
    key = (config, tuple(suites), main, tuple(extra_src), order, archive)
    if key in _built: return _built[key]
    suites = list(suites) + (["curve"] if "ecdsa" in suites and "curve" not in suites else [])
    flags, asm, linkf = CONFIGS[config]
    libs = lib_sources(); hdrs = listdir(os.path.join(REPO, "cpp"), ".hpp") + listdir(os.path.join(REPO, "cpp"), ".s")
    libh = file_hash(libs + hdrs, flags)
    hsrc = [os.path.join(HC, f) for f in ["common.cpp", main, "tramp.S"] + [f"suite_{s}.cpp" for s in suites] + list(extra_src)]
    hflags = harness_cmd or harness_flags()
    harh = file_hash(hsrc + listdir(HC, ".hpp") + hdrs, hflags)
    ldir = os.path.join(SCRATCH, "build", "lib-" + libh); hdir = os.path.join(SCRATCH, "build", "har-" + harh)
    bdir = os.path.join(SCRATCH, "build", "bin-" + hashlib.sha256((libh + harh + linkf + link_extra + order + str(archive) + (str(SEED) if order else "")).encode()).hexdigest()[:20])
    if order: bdir = os.path.join(SCRATCH, "run", f"order-{os.getpid()}", os.path.basename(bdir))   # many; removed when the check ends
    for d in (ldir, hdir, bdir): os.makedirs(d, exist_ok=True)
    binary = os.path.join(bdir, "mon")
    with Lock(os.path.join(SCRATCH, "build.lock." + libh)), Lock(os.path.join(SCRATCH, "build.lock.h." + harh)):
        if not os.path.exists(binary):
            cmds, lobj, hobj = [], [], []
            for s in libs:
                o = os.path.join(ldir, os.path.basename(s)[:-4] + ".o"); lobj.append(o)
                if not os.path.exists(o): cmds.append(f"{flags} -I{REPO}/cpp -c {s} -o {o}.tmp && mv {o}.tmp {o}")
            if asm:
                for s in listdir(os.path.join(REPO, "cpp"), ".s"):
                    o = os.path.join(ldir, os.path.basename(s)[:-2] + "_s.o"); lobj.append(o)
                    if not os.path.exists(o): cmds.append(f"gcc -g -c {s} -o {o}.tmp && mv {o}.tmp {o}")
            for s in hsrc:
                o = os.path.join(hdir, os.path.basename(s).rsplit(".", 1)[0] + ("_S" if s.endswith(".S") else "") + ".o"); hobj.append(o)
                if not os.path.exists(o):
                    cc = "gcc" if s.endswith(".S") else hflags
                    cmds.append(f"{cc} -c {s} -o {o}.tmp && mv {o}.tmp {o}")
            # largest harness files first
            cmds.sort(key=lambda c: ("harness" not in c))
            compile_many(cmds)
    if not os.path.exists(binary):
        with Lock(os.path.join(SCRATCH, "build.lock.b." + os.path.basename(bdir))):
            cxx = flags.split()[0]
            lobj = link_arrangement(order, lobj)
            if archive:
                a = os.path.join(bdir, "lib.a")
                r = sh(f"rm -f {a} && ar rcs {a} {' '.join(lobj)}"); lobj = [a]
                if r.returncode != 0: raise Broken("ar failed: " + r.stdout[-2000:])
            r = sh(f"{cxx} {linkf} {link_extra} {'-Wl,--wrap=_ZN6Sha5127getHmacEPKhmS1_mPh' if 'bip32' in suites else ''} {'-Wl,--wrap=_ZN6Sha2567getHmacEPKhmS1_m,--wrap=_ZN10CurvePoint28privateExponentToPublicPointERK7Uint256' if 'ecdsa' in suites else ''} {'-Wl,--wrap=memcmp,--wrap=bcmp,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free' if 'ct' in suites else ''} -Wl,-z,noexecstack {' '.join(hobj)} {' '.join(lobj)} -o {binary}.tmp -lgmpxx -lgmp -lcrypto -lpthread && mv {binary}.tmp {binary}")
            if r.returncode != 0: raise Broken("link failed: " + r.stdout[-4000:])
    _built[key] = binary
    return binary

def java_sources():
    d = os.path.join(REPO, "java", "io", "nayuki", "bitcoin", "crypto")
    return [p for p in listdir(d, ".java") if not p.endswith("Test.java")]

ILP32 = {   # name: compiler and flags of the library code
    "32g": "g++ -O2 -fsanitize=undefined -fsanitize-undefined-trap-on-error",
    "32c": "clang++ -O2 -DNDEBUG -funsigned-char -mstackrealign",
    "32s": "g++ -Os -funsigned-char",
    "32o": "clang++ -O1 -fsanitize=undefined -fsanitize-trap=all",
}
def build_ilp32(name):
    """The answering program (harness/ilp32) linked to the library, both compiled for a 32-bit machine; no 32-bit C or C++ library is needed."""
    cc = ILP32[name]; d32 = os.path.join(VERIF, "harness", "ilp32")
    inc = sorted(glob.glob("/usr/include/x86_64-linux-gnu/c++/*/bits/c++config.h"))
    clang_inc = " -nostdinc++ -isystem " + "/usr/include/c++/" + inc[-1].split("/")[-3] if inc else ""
    common = ("-m32 -std=c++11 -g -fno-pie -fno-stack-protector -fcf-protection=none -U_FORTIFY_SOURCE -fno-threadsafe-statics -fno-asynchronous-unwind-tables -D_GLIBCXX_EXTERN_TEMPLATE=0 -w"
        + (f" -I{os.path.dirname(os.path.dirname(inc[-1]))}" if inc else "") + (clang_inc if cc.startswith("clang") else "") + f" -I/usr/include/x86_64-linux-gnu -I{d32}/include -I{REPO}/cpp")
    libs = lib_sources(); mine = os.path.join(d32, "server.cpp")
    h = file_hash(libs + listdir(os.path.join(REPO, "cpp"), ".hpp") + [mine, os.path.join(d32, "int128.cpp"), os.path.join(HC, "history_ops.hpp")], cc + common)
    bdir = os.path.join(SCRATCH, "build", f"ilp32-{name}-{h}"); exe = os.path.join(bdir, "server")
    os.makedirs(bdir, exist_ok=True)
    with Lock(os.path.join(SCRATCH, "build.lock.ilp32." + h)):
        if os.path.exists(exe): os.utime(bdir); return exe
        objs = [os.path.join(bdir, os.path.basename(s)[:-4] + ".o") for s in libs]
        own = f"{cc.split()[0]} {common} -O1 -fno-builtin -c {mine} -o {bdir}/server_.o"
        try: compile_many([f"{cc} {common} -c {s} -o {o}" for s, o in zip(libs, objs)] + [own])
        except Broken:   # code with 128-bit integers, which only clang can be told to accept here
            wc = re.sub(r"^g\+\+", "clang++", cc).replace("-fsanitize-undefined-trap-on-error", "-fsanitize-trap=all"); wcommon = common + clang_inc + " -fforce-enable-int128"
            compile_many([f"{wc} {wcommon} -c {s} -o {o}" for s, o in zip(libs, objs)] + [own, f"clang++ {wcommon} -O1 -fno-builtin -c {d32}/int128.cpp -o {bdir}/int128_.o"]); objs.append(f"{bdir}/int128_.o")
        link = f"g++ -m32 -static -no-pie -nostdlib -Wl,-z,noexecstack {' '.join(objs)} {bdir}/server_.o -o {exe}.tmp"
        r = sh(link)
        # What the library may come to use of the C and C++ libraries beyond what server.cpp has: a call that needs it is not judged
        missing = sorted(set(re.findall(r"undefined reference to `([^']+)'", sh(link.replace("-o ", "-Wl,--no-demangle -o ")).stdout))) if r.returncode else []
        if missing:
            with open(f"{bdir}/missing.s", "w") as f: f.write("".join(f"\t.globl {m}\n{m}:\n" for m in missing) + "\tjmp rt_missing\n")
            r = sh(link.replace("-o ", f"{bdir}/missing.s -o "))
        if r.returncode: raise Broken(f"32-bit link failed: {r.stdout[-3000:]}")
        os.rename(exe + ".tmp", exe)
    return exe

BE32 = {   # name: flags of the library code
    "beu": "-O2 -fsanitize=undefined -fsanitize-trap=all",
    "bes": "-Os -DNDEBUG -funsigned-char",
    "be0": "-O0",
    "be3": "-O3 -DNDEBUG -fno-strict-aliasing",
}
def build_be32(name):
    """The answering program (harness/ilp32/server.cpp) with the library, compiled for MIPS32 (big-endian), inside the program that executes it (harness/be32/machine.cpp)."""
    d = os.path.join(VERIF, "harness", "be32"); inc = sorted(glob.glob("/usr/include/x86_64-linux-gnu/c++/*/bits/c++config.h"))
    if not inc: raise Broken("no C++ headers")
    target = "--target=mips-linux-gnu -march=mips32r2 -mno-abicalls -fno-pic -G0 -msoft-float"
    common = (f"{target} -std=c++11 -g -fno-stack-protector -U_FORTIFY_SOURCE -fno-threadsafe-statics -fno-asynchronous-unwind-tables -D_GLIBCXX_EXTERN_TEMPLATE=0 -w -I{d}/include"
        f" -nostdinc++ -isystem /usr/include/c++/{inc[-1].split('/')[-3]} -I{os.path.dirname(os.path.dirname(inc[-1]))} -I/usr/include/x86_64-linux-gnu -I{REPO}/cpp")
    libs = lib_sources(); mine = os.path.join(VERIF, "harness", "ilp32", "server.cpp"); machine = os.path.join(d, "machine.cpp")
    h = file_hash(libs + listdir(os.path.join(REPO, "cpp"), ".hpp") + [mine, machine, os.path.join(VERIF, "harness", "ilp32", "int128.cpp"), os.path.join(HC, "history_ops.hpp")], BE32[name] + common)
    bdir = os.path.join(SCRATCH, "build", f"be32-{name}-{h}"); exe = os.path.join(bdir, "server")
    os.makedirs(bdir, exist_ok=True)
    with Lock(os.path.join(SCRATCH, "build.lock.be32." + h)):
        if os.path.exists(exe): os.utime(bdir); return exe
        objs = [os.path.join(bdir, os.path.basename(s)[:-4] + ".o") for s in libs]
        own = f"clang++ {common} -O1 -fno-builtin -c {mine} -o {bdir}/server_.o"
        try: compile_many([f"clang++ {common} {BE32[name]} -c {s} -o {o}" for s, o in zip(libs, objs)] + [own])
        except Broken:   # code with 128-bit integers
            wcommon = common + " -fforce-enable-int128"
            compile_many([f"clang++ {wcommon} {BE32[name]} -c {s} -o {o}" for s, o in zip(libs, objs)] + [own, f"clang++ {wcommon} -O1 -fno-builtin -c {VERIF}/harness/ilp32/int128.cpp -o {bdir}/int128_.o"]); objs.append(f"{bdir}/int128_.o")
        link = f"ld.lld -m elf32btsmip -static -e start --error-limit=0 --no-demangle {' '.join(objs)} {bdir}/server_.o -o {bdir}/image"
        r = sh(link); missing = sorted(set(re.findall(r"undefined symbol: (\S+)", r.stdout))) if r.returncode else []
        if missing:   # what server.cpp lacks of the C and C++ libraries: a call that needs it is not judged
            with open(f"{bdir}/missing.s", "w") as f: f.write("".join(f"\t.globl {m}\n{m}:\n" for m in missing) + "\tj rt_missing\n\tnop\n")
            r = sh(f"clang {target} -c {bdir}/missing.s -o {bdir}/missing.o && {link} {bdir}/missing.o")
        if r.returncode: raise Broken(f"big-endian link failed: {r.stdout[-3000:]}")
        r = sh(f"g++ -O2 -w '-DIMAGE=\"{bdir}/image\"' {machine} -o {exe}.tmp")
        if r.returncode: raise Broken(f"machine: {r.stdout[-3000:]}")
        os.rename(exe + ".tmp", exe)
    return exe

def build_java():
    """Compiles the Java library and the Java monitors; returns the class path."""
    if "java" in _built: return _built["java"]
    libs = java_sources(); har = listdir(os.path.join(HJ, "mon"), ".java")
    lh = file_hash(libs); hh = file_hash(libs + har)
    ldir = os.path.join(SCRATCH, "build", "jlib-" + lh); hdir = os.path.join(SCRATCH, "build", "jhar-" + hh)
    def comp(out, srcs, cp):
        with Lock(os.path.join(SCRATCH, "build.lock." + os.path.basename(out))):
            if os.path.isdir(out): os.utime(out); return
            tmp = out + ".tmp"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
            r = sh(["javac", "-g", "-nowarn", "-encoding", "UTF-8", *ASM_EXPORT, "-d", tmp] + (["-cp", cp] if cp else []) + srcs)
            if r.returncode: raise Broken("javac failed: " + r.stdout[-4000:])
            os.rename(tmp, out)
    comp(ldir, libs, None); comp(hdir, har, ldir)
    _built["java"] = (ldir, hdir)
    return _built["java"]

def java_argv(config, extra=(), main="mon.Mon"):
    l, h = build_java()
    return ["java", "-XX:+UseSerialGC", "-XX:-UsePerfData", "-Xmx800m"] + list(JAVA_FLAGS[config]) + list(extra) + ["-cp", l + ":" + h, main]

# ---------------------------------------------------------------- running
SANENV = {
    "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:strict_string_checks=1:detect_container_overflow=0:allocator_may_return_null=0:max_malloc_fill_size=4096:malloc_fill_byte=190",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=78:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=79:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=76",
}
class Job:
    """One workload: a suite run on one configuration, split into shards of the case range [0, cases)."""
    def __init__(self, config, suite, cases, group=None, shards=NCPU, flags=(), prefix=(), memory_only=False, main="main.cpp", extra_src=(), watch=6, start=0, weight=1, link_extra="", harness_cmd=None, order="", archive=False):
        self.order, self.archive = order, archive
        self.config, self.suite, self.cases, self.group = config, suite, cases, group or suite
        self.shards, self.flags, self.prefix, self.memory_only = min(shards, max(1, cases)), tuple(flags), tuple(prefix), memory_only
        self.main, self.extra_src, self.watch, self.start = main, tuple(extra_src), watch, start
        self.link_extra, self.harness_cmd = link_extra, harness_cmd

SUITE_FILE = {"uint": "arith", "recip": "arith", "field": "arith", "point": "curve", "mul": "curve", "sign": "ecdsa", "hmacsign": "ecdsa", "verify": "ecdsa",
    "long-sha256": "hash", "long-sha512": "hash", "long-ripemd160": "hash", "long-keccak256": "hash",
    "sha256": "hash", "sha512": "hash", "ripemd160": "hash", "keccak256": "hash", "huge-sha256": "hash", "huge-sha512": "hash", "huge-ripemd160": "hash", "huge-keccak256": "hash",
    "b58export": "b58", "b58import": "b58", "bip32": "bip32", "types": "types", "asm": "asm", "threads": "threads", "ct": "ct", "step": "step", "ops": "ops", "order": "order", "vectors": "vectors", "history": "history", "otherlong": "history"}

def crash_text(rc, stderr):
    for pat in (r"ERROR: AddressSanitizer: [^\n]*", r"[^\n]*runtime error: [^\n]*", r"WARNING: ThreadSanitizer: [^\n]*", r"[^\n]*Assertion [^\n]*failed[^\n]*", r"ERROR: LeakSanitizer[^\n]*", r"HANG:[^\n]*", r"==\d+== (?:Conditional jump|Use of uninit|Invalid|Syscall param|Process terminating|Jump to)[^\n]*", r"terminate called[^\n]*"):
        m = re.search(pat, stderr)
        if m: return re.sub(r"==\d+==", "", m.group(0)).strip()
    if rc < 0:
        try: return "killed by signal " + signal.Signals(-rc).name
        except ValueError: return f"killed by signal {-rc}"
    return f"exit status {rc}"

def read_journal(path):
    try:
        with open(path, "rb") as f: b = f.read()
        return int.from_bytes(b[:8], "little"), b[16:].split(b"\0")[0].decode("latin1")
    except OSError:
        return None, ""

def oom_killed(pid):
    try:
        with open("/root/.vp/ended.log") as f: return re.search(rf"\b{pid}\b", f.read()) is not None
    except OSError:
        return False

def run_shard(job, binary, seed, shard, tier, tag, dict_path, deadline, only=None):
    wd = os.path.join(SCRATCH, "run", tag); os.makedirs(wd, exist_ok=True)
    base = os.path.join(wd, f"{job.config}-{job.suite}-{job.group}-{job.order.replace(chr(58), chr(45))}-{shard}" + ("" if only is None else f"-only{only}"))
    out, jour = base + ".json", base + ".journal"
    for f in (out, jour):
        if os.path.exists(f): os.unlink(f)
    argv = list(job.prefix) + list(binary) + [job.suite, "--seed", str(seed), "--from", str(job.start), "--to", str(job.start + job.cases), "--shard", f"{shard}/{job.shards}", "--out", out, "--journal", jour, "--watch", str(job.watch)]
    if only is not None: argv += ["--only", str(only)]
    if dict_path: argv += ["--dict", dict_path]
    if tier == "thorough": argv.append("--thorough")
    if job.memory_only: argv.append("--memory-only")
    argv += job.flags
    env = dict(os.environ, **SANENV)
    t = max(5, deadline - time.time())
    with open(base + ".err", "wb") as ef:
        p = subprocess.Popen(argv, stdout=subprocess.DEVNULL, stderr=ef, env=env, start_new_session=True)
        try:
            rc = p.wait(timeout=t)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait()
            return {"broken": f"wall-clock cap reached in {job.config}/{job.suite} shard {shard}"}
    with open(base + ".err", "rb") as f: err = f.read(200000).decode("latin1")
    res = {"argv": argv, "rc": rc, "err": err, "job": job, "shard": shard}
    if rc in (64, 70): return {"broken": f"harness error {rc} in {' '.join(argv)}: {err[-1500:]}"}
    if rc in (0, 3) and os.path.exists(out):
        try:
            with open(out) as f: res["json"] = json.load(f)
        except ValueError as e:
            return {"broken": f"unreadable result of {' '.join(argv)}: {e}"}
        return res
    if job.config in JAVA_FLAGS and rc != 66:
        return {"broken": f"JVM ended with {rc} in {job.config}/{job.suite}: {err[-1500:]}"}
    if rc == -9:
        return {"broken": f"{job.config}/{job.suite} was killed (SIGKILL){', out of memory' if oom_killed(p.pid) else ''}"}
    idx, detail = read_journal(jour)
    res["crash"] = {"idx": idx, "msg": crash_text(rc, err), "detail": detail}
    return res

def harvest_dictionary():
    """32-bit words that occur as literals in the code under test: extra material for the value generators."""
    words = set()
    for p in lib_sources() + listdir(os.path.join(REPO, "cpp"), ".hpp") + listdir(os.path.join(REPO, "cpp"), ".s") + java_sources():
        if os.path.basename(p).startswith(("Sha", "Ripemd", "Keccak")): continue
        txt = open(p, errors="replace").read()
        for m in re.finditer(r"0[xX]([0-9A-Fa-f]{2,16})", txt):
            v = int(m.group(1), 16)
            while v: words.add(v & 0xFFFFFFFF); v >>= 32
        for m in re.finditer(r"(?<![\w.])(\d{3,10})(?![\w.])", txt):
            words.add(int(m.group(1)) & 0xFFFFFFFF)
        for m in re.finditer(r"\"([0-9A-Fa-f]{64})\"", txt):
            v = int(m.group(1), 16)
            while v: words.add(v & 0xFFFFFFFF); v >>= 32
    words = sorted(words)[:400]
    d = os.path.join(SCRATCH, "dict"); os.makedirs(d, exist_ok=True)
    txt = "\n".join("%08x" % w for w in words) + "\n"
    path = os.path.join(d, hashlib.sha256(txt.encode()).hexdigest()[:16] + ".txt")
    if not os.path.exists(path):
        with open(path + f".{os.getpid()}", "w") as f: f.write(txt)
        os.rename(path + f".{os.getpid()}", path)
    return path

# ---------------------------------------------------------------- results
class Result:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.violations, self.evaluations, self.distinct, self.cases = [], 0, 0, 0
        self.events, self.samples, self.configs, self.extra = {}, [], {}, {}
        self.deadline = self.t0 + WALL_CAP
        self.distinct_by_group = {}
        self.digests = {}
    def add_events(self, counts, pre=""):
        for k, v in counts.items():
            if k.startswith(("trace-length.", "instrumented.")): self.events[pre + k] = max(self.events.get(pre + k, 0), v)   # a property of the code, not a tally
            else: self.events[pre + k] = self.events.get(pre + k, 0) + v
    def violation(self, msg, replay):
        self.violations.append((msg, replay))

def parse_known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m: out.append(m.groups())
    return out

def save_replay(res, kind, payload):
    d = os.path.join(SCRATCH, "replays"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{res.pid}-{int(time.time())}-{len(res.violations)}-{os.getpid()}.json")
    with open(path, "w") as f: json.dump(dict(payload, property=res.pid, kind=kind, repo=REPO, seed=SEED, tier=res.tier), f, indent=1)
    return path

def run_cpp_jobs(res, jobs, seed=None, tag=None, digests=None):
    """Builds every configuration needed, runs all shards on NCPU workers, folds the observations into res."""
    seed = SEED if seed is None else seed
    dict_path = harvest_dictionary()
    files_by_cfg = {}
    work = []
    for j in jobs:
        if j.config not in JAVA_FLAGS: files_by_cfg.setdefault((j.config, j.main, j.extra_src, j.link_extra, j.harness_cmd, j.order, j.archive), set()).add(SUITE_FILE[j.suite])
    bins = {}
    def suites_of(j):
        return sorted(next((v for k, v in files_by_cfg.items() if k[0] == j.config and SUITE_FILE.get(j.suite) in v), []))
    def linked(k):
        cfg, main, ex, le, hc, order, archive = k
        return [build_cpp(cfg, sorted(files_by_cfg[k]), main, ex, hc, le, order, archive)]
    by_build = {}   # the first arrangement of a build compiles it, the others only link
    for k in files_by_cfg: by_build.setdefault(k[:5], []).append(k)
    for ks in by_build.values():
        bins[ks[0]] = linked(ks[0])
        if len(ks) > 1:
            with ThreadPoolExecutor(NCPU) as ex: bins.update(zip(ks[1:], ex.map(linked, ks[1:])))
    for j in jobs:
        for s in range(j.shards): work.append((j, s))
    tag = tag or f"{res.pid}-{os.getpid()}"
    if any(j.config in JAVA_FLAGS for j in jobs): build_java()
    def go(w):
        j, s = w
        if j.config in JAVA_FLAGS: b = java_argv(j.config)
        else: b = bins[(j.config, j.main, j.extra_src, j.link_extra, j.harness_cmd, j.order, j.archive)]
        return run_shard(j, b, seed, s, res.tier, tag, dict_path, res.deadline)
    with ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(go, work))
    broken = [r["broken"] for r in results if "broken" in r]
    per = {}
    for r in results:
        if "broken" in r: continue
        j = r["job"]
        if "crash" in r:
            cr = r["crash"]
            payload = {"config": j.config, "suite": j.suite, "case": cr["idx"], "order": j.order, "archive": j.archive, "suites": list(suites_of(j)), "what": cr["msg"], "case_description": cr["detail"], "argv": r["argv"], "stderr": r["err"][-6000:]}
            res.violation(f"{j.config}/{j.suite} case {cr['idx']}: {cr['msg']} | {cr['detail'][:400]}", save_replay(res, "crash", payload))
            continue
        d = r["json"]
        k = per.setdefault((j.config, j.suite, j.group), {"cases": 0, "evaluations": 0, "distinct": 0})
        k["cases"] += d["cases"]; k["evaluations"] += d["evaluations"]; k["distinct"] += d["distinct"]
        res.cases += d["cases"]; res.evaluations += d["evaluations"]
        res.add_events(d["counts"], j.suite + ":")
        if len(res.samples) < 12 and d["samples"]: res.samples.append(f"[{j.config}/{j.suite}] " + d["samples"][-1][:500])
        for v in d["violations"]:
            if j.memory_only: continue
            payload = {"config": j.config, "suite": j.suite, "case": v["idx"], "order": j.order, "archive": j.archive, "suites": list(suites_of(j)), "what": v["msg"], "argv": r["argv"]}
            res.violation(f"{j.config}/{j.suite} case {v['idx']}: {v['msg'][:700]}", save_replay(res, "case", payload))
        res.digests.setdefault((j.suite, j.group, r["shard"]), {})[j.config] = (d["digest"], r["argv"])
    for (cfg, suite, group), k in per.items():
        c = res.configs.setdefault(cfg, {"what": CONFIG_TEXT[cfg], "suites": {}})
        c["suites"][group] = k
        # the same case indices run on several configurations count once towards "distinct"
        res.distinct_by_group[group] = max(res.distinct_by_group.get(group, 0), k["distinct"])
    shutil.rmtree(os.path.join(SCRATCH, "run", tag), ignore_errors=True)
    if broken and not res.violations: raise Broken("; ".join(broken[:3]))

def finish(res, rule, level="exploration", assumptions=()):
    known = parse_known()
    res.distinct = sum(res.distinct_by_group.values())
    real = []
    for msg, rp in res.violations:
        k = next((k for k in known if k[0] == res.pid and k[1] in msg.replace(" ", "_")), None)
        if k: print(f"KNOWN-FINDING: property={res.pid} {k[2]}")
        else: real.append((msg, rp))
    ev = {"property": res.pid, "tier": res.tier, "seed": SEED, "level": level,
        "coverage": {"evaluations": res.evaluations, "distinct_nontrivial": res.distinct, "rule": rule, "samples": res.samples[:8] or ["none"],
            "cases": res.cases, "events_observed": dict(sorted(res.events.items())), "configurations": res.configs, **res.extra},
        "wall_s": round(time.time() - res.t0, 2), "violations": len(real), "assumptions": list(assumptions)}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{res.pid}.{os.getpid()}")
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, res.pid + ".json"))
    for msg, rp in real[:5]:
        log("violation:", msg)
        print(f"VIOLATION property={res.pid} replay={rp}", flush=True)
    if real: return 1
    if res.evaluations == 0: raise Broken("nothing was evaluated")
    print(f"OK property={res.pid} cases={res.cases} evaluations={res.evaluations} distinct={res.distinct} wall={ev['wall_s']}s")
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd"); ap.add_argument("arg", nargs="?"); ap.add_argument("--tier")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    os.makedirs(SCRATCH, exist_ok=True)
    sys.path.insert(0, VERIF)
    import plans
    if a.cmd == "check":
        try:
            os.makedirs(os.path.join(SCRATCH, "build"), exist_ok=True); prune()
            return plans.check(a.arg, "thorough" if tier == "thorough" else "quick")
        except Broken as e:
            log(f"BROKEN property={a.arg}: {e}")
            return 2
    if a.cmd == "setup":
        return plans.setup()
    if a.cmd == "replay":
        r = json.load(open(a.arg))
        return plans.replay(r)
    return 64

if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main())
