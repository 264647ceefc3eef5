#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree.

Each object built from /repo gets its undefined references X renamed to sim_X
for every sim_X the simulator defines, then all are merged into one relocatable
object whose writable static data is one section ('simstate'), so the simulator
can give every simulated process its own copy.
"""
import os, re, sys, subprocess, hashlib, shutil, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SCRYPT_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
CC, CXX = "gcc", "g++"
INC = ["lib", "lib-platform", "lib-platform/crypto", "lib-platform/util", "lib/crypto", "lib/scryptenc",
       "lib/util", "libcperciva/alg", "libcperciva/cpusupport", "libcperciva/crypto", "libcperciva/util"]
INTERNAL = re.compile(r"^(crypto_scrypt|crypto_scrypt_smix_sse2|cpusupport_x86_\w+_detect_1|SHA256_Transform_(shani|sse2)|"
                      r"crypto_aes_encrypt_block_aesni|crypto_aes_key_expand_aesni|crypto_aesctr_aesni_stream|generate_seed_rdrand)$")
KDF_FILES = ("crypto_scrypt.c", "crypto_scrypt_smix.c", "crypto_scrypt_smix_sse2.c", "sha256.c", "sha256_shani.c",
             "sha256_sse2.c", "insecure_memzero.c", "warnp.c", "cpusupport_x86_aesni.c", "cpusupport_x86_rdrand.c",
             "cpusupport_x86_shani.c", "cpusupport_x86_sse2.c", "cpusupport_x86_ssse3.c")
VARIANTS = {
    "plain": ["-O2"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fsanitize-coverage=trace-pc"],
    "tsan": ["-O2", "-fsanitize=thread"],
}
# the same sources configured for a machine without mmap, posix_memalign, sysinfo and accelerated instructions
VARIANTS["alt"] = VARIANTS["asan"]
ASAN = ("asan", "alt")

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("build: command failed: %s\n%s\n" % (" ".join(cmd), r.stdout))
        raise SystemExit(3)
    return r.stdout

def sources():
    mk = open(os.path.join(REPO, "Makefile.am")).read()
    names = set(re.findall(r"[\w./-]+\.c\b", re.sub(r"#.*", "", mk)))
    out = []
    for n in sorted(names):
        if n.startswith("tests/") or n.endswith("crypto_aesctr_shared.c") or "POSIX" in n or "/Build/" in n or "apisupport" in n:
            continue
        if os.path.exists(os.path.join(REPO, n)):
            out.append(n)
    return out

def perfile(n):
    b = os.path.basename(n)
    if b.startswith("cpusupport_"): return []
    f = []
    if b == "crypto_scrypt-ref.c": f += ["-Dcrypto_scrypt=crypto_scrypt_ref"]   # shipped, not linked into the program
    if "aesni" in b: f += ["-maes"]
    if "rdrand" in b: f += ["-mrdrnd"]
    if "shani" in b: f += ["-msse2", "-msha", "-mssse3"]
    if b == "crypto_scrypt_smix_sse2.c": f += ["-msse2"]
    return f

SEAM = re.compile(r"__get_cpuid|__cpuid|__builtin_cpu_|_rdrand(16|32|64)_step")
def seam(n):
    if SEAM.search(open(os.path.join(REPO, n), errors="replace").read()): return ["-include", SIM + "/config/cpu_seam.h"]
    return []

def treehash(extra=""):
    h = hashlib.sha256(extra.encode())
    fs = []
    for d in ("lib", "lib-platform", "libcperciva", "libscrypt-kdf"):
        for r, ds, ff in os.walk(os.path.join(REPO, d)):
            ds.sort()
            fs += [os.path.join(r, f) for f in ff if f.endswith((".c", ".h"))]
    fs += [os.path.join(REPO, "main.c"), os.path.join(REPO, "Makefile.am")]
    fs += glob.glob(SIM + "/*.c*") + glob.glob(SIM + "/*.h") + glob.glob(SIM + "/config*/*") + [os.path.abspath(__file__)]
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def nm(args, f):
    return [l.split() for l in run(["nm"] + args + [f]).splitlines() if l.strip()]

def harness_objs(out, pool):
    """The simulator itself: never instrumented, shared by all variants."""
    srcs = sorted(glob.glob(SIM + "/*.cc") + glob.glob(SIM + "/*.c"))
    h = hashlib.sha256()
    for f in sorted(srcs + glob.glob(SIM + "/*.h")): h.update(open(f, "rb").read())
    for r, ds, ff in os.walk(REPO):
        if "/.git" in r or "/_build" in r: continue
        for f in sorted(ff):
            if f.endswith(".h"): h.update(open(os.path.join(r, f), "rb").read())
    d = os.path.join(BUILD, "harness-" + h.hexdigest()[:16])
    os.makedirs(d, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, i) for i in INC] + ["-I" + SIM + "/config"]
    def one(s):
        o = os.path.join(d, os.path.basename(s).rsplit(".", 1)[0] + ".o")
        if os.path.exists(o): return o
        if s.endswith(".c"):
            run([CC, "-std=gnu99", "-O1", "-g1", "-fno-pie", "-U_FORTIFY_SOURCE", "-w", "-DHAVE_CONFIG_H", '-DAPISUPPORT_CONFIG_FILE="apisupport-config.h"',
                 '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"', "-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700", "-c", s, "-o", o + ".tmp"] + inc)
            os.rename(o + ".tmp", o)
        else:
            run([CXX, "-std=c++17", "-O1", "-g1", "-fno-pie", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-Wall", "-Wno-unused-function",
                 "-c", s, "-o", o + ".tmp", "-I" + SIM])
            os.rename(o + ".tmp", o)
        return o
    return d, list(pool.map(one, srcs))

KSWITCH = """# call the function in %r11 on the stack whose top is sim_kstack; the first 32 words of stack arguments go along
.text
sim_kswitch:
 mov sim_kstack(%rip), %r10
 test %r10, %r10
 jnz 1f
 jmp *%r11
1: push %rbp
 mov %rsp, %rbp
 mov %rsp, sim_kuser(%rip)
 mov %r10, %rsp
 push %r10
 push %r10
 movq $0, sim_kstack(%rip)
""" + "".join(" push %d(%%rbp)\n" % (16 + 8 * i) for i in range(31, -1, -1)) + """ call *%r11
 mov 256(%rsp), %r10
 mov %r10, sim_kstack(%rip)
 mov %rbp, %rsp
 pop %rbp
 ret
"""

def build(variant, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    key = treehash(variant)
    d = os.path.join(BUILD, "%s-%s" % (variant, key))
    exe = os.path.join(d, "sim")
    if os.path.exists(exe):
        os.utime(d)
        return exe
    olds = sorted(glob.glob(BUILD + "/%s-*" % variant), key=os.path.getmtime)
    for o in olds[:-2]: shutil.rmtree(o, ignore_errors=True)
    for o in sorted(glob.glob(BUILD + "/harness-*"), key=os.path.getmtime)[:-2]: shutil.rmtree(o, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as pool:
        hfut = ThreadPoolExecutor(max_workers=1).submit(harness_objs, d, pool)
        inc = ["-I" + os.path.join(REPO, i) for i in INC] + (["-I" + SIM + "/config_alt"] if variant == "alt" else []) + ["-I" + SIM + "/config"]
        srcs = sources()
        def comp(n):
            o = os.path.join(d, n.replace("/", "_")[:-2] + ".o")
            fl = list(VARIANTS[variant])
            if variant == "tsan" and os.path.basename(n) not in KDF_FILES: fl = ["-O2"]
            b = os.path.basename(n)
            if variant in ASAN and (b.startswith("sha256") or b.startswith("crypto_scrypt_smix") or b.startswith("crypto_aes_aesni")):
                fl = [x for x in fl if "trace-pc" not in x]
                fl[0] = "-O2"
            posix = [] if b == "memlimit.c" else ["-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700"]
            run([CC, "-std=gnu99", "-g", "-fno-pie", "-U_FORTIFY_SOURCE", "-w"] + fl + ["-DHAVE_CONFIG_H",
                 '-DAPISUPPORT_CONFIG_FILE="apisupport-config.h"', '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"'] + posix +
                inc + perfile(n) + seam(n) + ["-c", os.path.join(REPO, n), "-o", o])
            return o
        objs = list(pool.map(comp, srcs))
        hdir, hobjs = hfut.result()
        simsyms, simfuncs = set(), set()
        for o in hobjs:
            if os.path.basename(o) == "syscalls.o":
                syms = [l for l in nm(["-g", "--defined-only"], o) if l[-1].startswith("sim_")]
                simsyms |= {l[-1][4:] for l in syms}
                simfuncs |= {l[-1][4:] for l in syms if l[-2] == "T"}
        defs = {o: {l[-1] for l in nm(["-g", "--defined-only"], o)} for o in objs}
        alldef = set().union(*defs.values())
        def redir(o):
            lines = []
            for s in sorted(simsyms):
                if s in defs[o]: continue
                if s in alldef and not INTERNAL.match(s): continue
                lines.append("%s %s_%s" % (s, "simk" if variant == "plain" and s in simfuncs and not INTERNAL.match(s) else "sim", s))
            if "main" in defs[o]: lines.append("main scrypt_main")
            m = o + ".map"
            open(m, "w").write("\n".join(lines) + "\n")
            run(["objcopy", "--redefine-syms=" + m, o])
        list(pool.map(redir, objs))
    open(d + "/merge.ld", "w").write("SECTIONS { simstate : { *(.data .data.rel .data.rel.local .bss COMMON) } }\n")
    run(["ld", "-r", "-d", "-T", d + "/merge.ld", "-o", d + "/repo.o"] + objs)
    und = sorted({l[-1] for l in nm(["-u"], d + "/repo.o")})
    open(d + "/passthrough.txt", "w").write("\n".join(u for u in und if not u.startswith(("sim_", "simk_", "__asan", "__ubsan", "__tsan", "__sanitizer", "_GLOBAL"))))
    extra = []
    if variant == "plain":   # entry to the simulated system by way of a stack of its own, if the world has one
        with open(d + "/kstub.s", "w") as f:
            f.write(KSWITCH)
            for u in und:
                if u.startswith("simk_"): f.write(".globl %s\n%s: movabs $sim_%s, %%r11\n jmp sim_kswitch\n" % (u, u, u[5:]))
            f.write(".globl sim_do_scan\nsim_do_scan: movabs $sim_scan_impl, %r11\n jmp sim_kswitch\n")
            f.write('.section .note.GNU-stack,"",@progbits\n')
        run([CC, "-c", d + "/kstub.s", "-o", d + "/kstub.o"])
        extra = [d + "/kstub.o"]
    if variant == "tsan":
        known = {l[-1] for o in hobjs for l in nm(["-g", "--defined-only"], o)}
        miss = [u for u in und if u.startswith("__tsan") and u not in known]
        open(d + "/tsan_extra.c", "w").write("\n".join("void %s(void) {}" % m for m in miss) + "\n")
        run([CC, "-c", "-w", "-O1", "-fno-pie", d + "/tsan_extra.c", "-o", d + "/tsan_extra.o"])
        extra = [d + "/tsan_extra.o"]
    link = ["-fsanitize=address,undefined"] if variant in ASAN else []
    if variant == "alt":   # routines this configuration leaves out are never reached
        have = alldef | {l[-1] for o in hobjs for l in nm(["-g", "--defined-only"], o)}
        miss = sorted({l[-1] for o in hobjs for l in nm(["-u"], o) if INTERNAL.match(l[-1])} - have)
        open(d + "/alt_extra.c", "w").write("void abort(void);\n" + "\n".join("void %s(void) { abort(); }" % m for m in miss) + "\n")
        run([CC, "-c", "-w", "-O1", "-fno-pie", d + "/alt_extra.c", "-o", d + "/alt_extra.o"])
        extra = [d + "/alt_extra.o"]
    run([CXX, "-no-pie", "-g", "-Wl,-z,now"] + link + ["-o", exe + ".tmp"] + hobjs + [d + "/repo.o"] + extra + ["-lcrypto", "-lrt", "-lm"])
    os.rename(exe + ".tmp", exe)
    for o in objs:
        for f in (o, o + ".map"):
            if os.path.exists(f): os.unlink(f)
    return exe

if __name__ == "__main__":
    for v in (sys.argv[1:] or ["plain", "asan", "tsan"]):
        print(build(v))
