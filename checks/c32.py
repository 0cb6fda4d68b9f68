import hashlib, os, random, re, subprocess, threading
from vlib import core
LEVEL = "exploration"
EARLY = hashlib.scrypt(b"p", salt=b"s", n=16, r=8, p=1, dklen=16).hex()


def main(c):
    c.rule = ("one evaluation = one key derivation, loading, unloading or symbol query by a program which uses the scrypt-kdf library through its header only (C and C++, linked to the shared or static library or "
              "loading it), compared with results known beforehand; distinct = distinct (program, way of use, run, parameters)")
    rng = random.Random(3200 + c.seed)
    d = c.tmp
    hdr = None
    for dd, _, fs in os.walk(core.REPO):
        if "scrypt-kdf.h" in fs and ".git" not in dd and "_build" not in dd:
            hdr = dd
    if hdr is None:
        raise core.CheckError("no scrypt-kdf.h")

    def cases(n, path):
        out = []
        for i in range(n):
            if i % 9 == 8:
                N, r, p, bl, err = rng.choice([(3, 1, 1, 10, 22), (0, 1, 1, 10, 22), (1, 1, 1, 10, 22), (16, 0, 1, 10, 22), (16, 1, 0, 10, 22), (16, 1 << 15, 1 << 15, 10, 27), (16, 1 << 16, 1 << 16, 10, 27),
                                               (1 << 63, 1, 1, 10, 12), (16, 1, 1, ((1 << 32) - 1) * 32 + 1, 27)])
                out.append((N, r, p, err, bl, b"x", b"y", b""))
                continue
            k = rng.randrange(12) if i else 11
            N, r, p = ((1 << rng.randint(8, 14), 8, rng.randint(1, 3)) if k == 0 else (2, rng.randint(1000, 70000), 1) if k == 1 else (2, 1, rng.randint(50, 2000)) if k == 2 else
                       (1 << rng.randint(1, 6), rng.randint(1, 20), rng.randint(1, 5)))
            pw, salt, bl = rng.randbytes(rng.choice([0, 1, 8, 63, 64, 65, 300])), rng.randbytes(rng.choice([0, 1, 8, 32, 64, 200])), rng.choice([1, 16, 32, 33, 64, 100, 1000, 20000])
            out.append((N, r, p, 0, bl, pw, salt, hashlib.scrypt(pw, salt=salt, n=N, r=r, p=p, dklen=bl, maxmem=2 ** 31 - 1)))
        with open(path, "w") as f:
            f.write("%d\n" % n)
            for N, r, p, err, bl, pw, salt, want in out:
                f.write("%d %d %d %d %d x%s x%s x%s\n" % (N, r, p, err, bl, pw.hex(), salt.hex(), want.hex()))
        return path
    src = os.path.join(core.VERIF, "harness", "kdfhost.c")
    vs = os.path.join(d, "kdf.ver")
    open(vs, "w").write("{ global: *crypto_scrypt; local: *; };\n")

    def libs(variant):
        a, _ = c.build(variant, None, extra=("-fPIC",))
        so = os.path.join(d, "libscrypt-kdf-%s.so" % variant)
        c._cc(["gcc", "-shared", "-o", so, "-Wl,-u,crypto_scrypt", "-Wl,--version-script=" + vs, "-Wl,-z,defs", a])
        # the names inside: what the parts needed for crypto_scrypt define
        rel = os.path.join(d, "rel-%s.o" % variant)
        c._cc(["gcc", "-r", "-nostdlib", "-o", rel, "-Wl,-u,crypto_scrypt", a])
        names = {}
        for l in subprocess.run(["nm", "-g", "--defined-only", rel], capture_output=True, text=True).stdout.splitlines():
            t, n = l.split()[1:3]
            if n != "crypto_scrypt" and re.match(r"[A-Za-z_]\w*$", n):
                names[n] = t
        return a, so, names

    def compile_(name, cxx, args, std=None):
        exe = os.path.join(d, name)
        p = subprocess.run(["g++" if cxx else "gcc", "-O1", "-w" if not std else "-Wall", "-I", hdr, "-x", "c++" if cxx else "c"] + (["-std=" + std] if std else []) + [src, "-x", "none", "-o", exe] + args + ["-lpthread", "-ldl"],
                           capture_output=True, text=True)
        if p.returncode:
            if "scrypt-kdf.h" in p.stderr or "crypto_scrypt" in p.stderr or "scrypt_kdf" in p.stderr or "multiple definition" in p.stderr or "undefined reference" in p.stderr:
                c.viol("link:" + name.split("-")[0], "a program using the library cannot be built (%s): %s" % (name, p.stderr[-500:]))
                return None
            raise core.CheckError("host does not build: " + p.stderr[-2000:])
        c.ev("programs_built")
        return exe

    n = [0]

    def counter():
        n[0] += 1
        return n[0]

    def go(exe, cf, mode, lib="-", seed=1, extra=(), env=None, tag="", strace=None):
        if exe is None:
            return
        r_, w_ = os.pipe()
        argv = [exe, cf, mode, lib, str(seed)] + list(extra)
        if strace:
            argv = ["strace", "-f", "-o", strace] + argv
        out = []

        def rd():
            with os.fdopen(r_, "rb") as f:
                out.append(f.read())
        t = threading.Thread(target=rd)
        t.start()
        p = subprocess.Popen(["sh", "-c", 'exec 3>&0 </dev/null "$@"', "sh"] + argv, stdin=w_, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(c.env, **(env or {})))
        os.close(w_)
        try:
            so, se = p.communicate(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            c.viol("hang:" + mode, "%s %s does not end" % (tag, mode))
        t.join(10)
        txt = out[0].decode("utf-8", "replace") if out else ""
        done = False
        for l in txt.splitlines():
            if l[:1] == "E":
                c.ev(l[2:])
                c.case((tag, mode, seed, l[2:], counter()))
            elif l[:1] == "V":
                c.viol("%s:%s" % (mode, l.split()[1]), "%s: %s" % (tag, l[2:]), {"mode": mode, "tag": tag, "cases": open(cf).read()[:3000]})
            elif l[:1] == "D":
                done = True
        if so or se:
            c.viol("output:" + mode, "%s %s prints %r" % (tag, mode, (so + se)[:300]))
        if not done or p.returncode not in (0, 1):
            c.viol("abnormal:" + mode, "%s %s: ends with status %s, %s" % (tag, mode, p.returncode, "after" if done else "before all was done"), {"mode": mode})
        c.sample("%s %s: %d lines" % (tag, mode, txt.count("\n")))
    rep = c.scale(2, 25)
    jobs = []

    def variant(v):
        a, so, names = libs(v)
        cf = [cases(45, os.path.join(d, "cases-%s-%d" % (v, i))) for i in range(rep)]
        traps = os.path.join(d, "traps-%s.c" % v)
        open(traps, "w").write("void trap_hit(const char *);\n" + "".join(
            "void %s(void) { trap_hit(\"%s\"); }\n" % (x, x) if t in "TtWi" else "void *%s[64] = { (void *)1 };\n" % x for x, t in sorted(names.items())))
        trapo = os.path.join(d, "traps-%s.o" % v)
        c._cc(["gcc", "-w", "-fno-builtin", "-c", "-o", trapo, traps])
        rp = ["-Wl,-rpath," + d]
        dyn = compile_("dyn-" + v, False, ["-DDYN"])
        dynx = compile_("dynx-" + v, True, ["-DDYN"])
        shared = compile_("shared-" + v, False, [so] + rp)
        sharedx = compile_("sharedx-" + v, True, [so] + rp)
        static = compile_("static-" + v, False, ["-DOWNNAMES", a])
        staticx = compile_("staticx-" + v, True, ["-DOWNNAMES", a])
        trapd = compile_("trapped-" + v, False, [trapo, so, "-rdynamic"] + rp)
        trapdyn = compile_("trapdyn-" + v, False, ["-DDYN", trapo, "-rdynamic"])
        so2 = so.replace(".so", "-copy.so")
        c._cc(["cp", so, so2])
        for s in range(rep if v == "full" else (rep + 1) // 2):
            f = cf[s]
            k = c.seed * 100 + s
            for exe, tag in ((shared, "shared"), (sharedx, "shared, C++"), (static, "static"), (staticx, "static, C++"), (trapd, "shared, all names taken")):
                tag = v + " " + tag
                go(exe, f, "use", seed=k, tag=tag, env={"VSEARLY": EARLY})
                go(exe, f, "exit", seed=k, tag=tag)
                go(exe, f, "exit-first", seed=k, tag=tag)
                go(exe, f, "threads", seed=k, tag=tag)
                go(exe, f, "fork", seed=k, tag=tag)
            for exe, tag in ((dyn, "loaded"), (dynx, "loaded, C++"), (trapdyn, "loaded, all names taken")):
                tag = v + " " + tag
                for m in ("use", "exit", "threads", "fork", "reload", "spaces", "symbols"):
                    go(exe, f, m, lib=so2 if m == "reload" and s % 2 else so, seed=k, extra=sorted(names) + ["SHA256_Init", "main_", "warn", "warnx"] if m == "symbols" else (), tag=tag)
            tr = os.path.join(d, "trace-%s-%d" % (v, s))
            go(dyn, f, "quiet", lib=so, seed=k, tag=v + " loaded", strace=tr)
            inside, names_ = None, []
            for l in open(tr, errors="replace") if os.path.exists(tr) else ():
                m = re.search(r'write\(-1, "(VS\w+)"', l)
                if m:
                    inside = m.group(1)
                elif inside in ("VSLOAD", "VSLOADED"):
                    names_.append(re.sub(r"^\d+\s+", "", l).strip())
            if inside != "VSGONE" or not names_:
                raise core.CheckError("no trace of the loading")
            for l in names_:
                c.ev("calls_while_loading")
                m = re.match(r"(\w+)\(", l)
                if m and m.group(1) not in ("openat", "open", "read", "pread64", "fstat", "newfstatat", "stat", "mmap", "mprotect", "close", "munmap", "brk", "readlink", "getcwd", "access", "futex", "madvise", "cachestat", "statx", "set_robust_list", "rseq", "map_shadow_stack", "arch_prctl"):
                    c.viol("side-effect", "%s: merely loading and unloading the library does %s" % (v, l[:200]))
                elif m and m.group(1) in ("openat", "open") and os.path.basename(so) not in l and "/etc/ld.so" not in l and ".so" not in l and "/proc/self/maps" not in l:
                    c.viol("side-effect", "%s: merely loading the library does %s" % (v, l[:200]))
        # the header stands on its own in every dialect
        for cxx, std in ((False, "c99"), (False, "c11"), (False, "gnu17"), (True, "c++98"), (True, "c++11"), (True, "c++20")):
            t = os.path.join(d, "hdr.%s.%s" % (std, "cc" if cxx else "c"))
            open(t, "w").write('#include "scrypt-kdf.h"\n#include "scrypt-kdf.h"\nint (*volatile q)(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t) = scrypt_kdf;\nint main(void) { return q == 0; }\n')
            p = subprocess.run(["g++" if cxx else "gcc", "-std=" + std, "-Wall", "-Wextra", "-Werror", "-pedantic"] + (["-Wno-long-long"] if cxx else []) + ["-I", hdr, t, "-o", t + ".exe", so] + rp, capture_output=True, text=True)
            c.ev("dialects")
            c.case((v, std))
            if p.returncode:
                c.viol("header:" + std, "the header cannot be used in %s: %s" % (std, p.stderr[-400:]))
            elif subprocess.run([t + ".exe"]).returncode:
                c.viol("header:" + std, "the program does not work in %s" % std)
    for v in ("full", "soft", "nommap", "nosse2"):
        jobs.append(lambda v=v: variant(v))
    c.par(jobs)
    for e, m in (("derivations", 6000), ("loads", 1200), ("threads", 300), ("namespaces", 20), ("symbols", 100), ("children", 200), ("at-exit", 40), ("constructors", 10), ("destructors", 10), ("calls_while_loading", 30), ("programs_built", 20), ("dialects", 12)):
        c.need(e, m)
