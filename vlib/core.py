"""Shared machinery of the checks: building /repo, running monitors, reporting."""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, resource, shutil
import signal, subprocess, sys, tempfile, threading, time, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
NCPU = min(8, os.cpu_count() or 8)

CPUFLAGS = {"X86_AESNI": ["-maes"], "X86_RDRAND": ["-mrdrnd"], "X86_SSE2": ["-msse2"],
            "X86_SHANI": ["-msse2", "-msha"], "X86_SSSE3": ["-mssse3"]}
# The ARM implementations are compiled against a stand-in for <arm_neon.h>, on a
# simulated processor which has the instructions (harness/armsim).
ARMSIM = ["-D__ARM_NEON", "-I" + os.path.join(HARNESS, "armsim")]
CPUFLAGS.update({"ARM_AES": ARMSIM, "ARM_SHA256": ARMSIM})

# Build variants: lines dropped from the committed configuration headers.
VARIANTS = {
    "full": [],
    "noshani": [r"CPUSUPPORT_X86_SHANI\b"],
    "nosse2": [r"CPUSUPPORT_X86_SHANI\b", r"CPUSUPPORT_X86_SSE2\b", r"CPUSUPPORT_X86_SSSE3\b"],
    "soft": [r"CPUSUPPORT_\w+"],
    "arm": [r"CPUSUPPORT_\w+"],
    "nommap": [r"HAVE_MMAP\b"],
    "nomemalign": [r"HAVE_POSIX_MEMALIGN\b", r"HAVE_MMAP\b"],
    "nomemalign_mmap": [r"HAVE_POSIX_MEMALIGN\b"],
    # 32-bit x86 programs
    "m32": [],
    "m32soft": [r"CPUSUPPORT_\w+"],
    "m32nommap": [r"HAVE_MMAP\b"],
    "m32nomemalign": [r"HAVE_POSIX_MEMALIGN\b", r"HAVE_MMAP\b"],
}
M32 = ["-m32", "-fno-pie", "-msse2", "-mfpmath=sse", "-D_FILE_OFFSET_BITS=64", "-isystem", "/usr/include/x86_64-linux-gnu", "-I" + os.path.join(HARNESS, "m32"), "-fno-stack-protector",
       "-fsanitize=undefined,float-cast-overflow", "-fsanitize-trap=all", "-fno-sanitize=alignment,nonnull-attribute"]
L32 = "/usr/lib32/"
SAN = {
    None: ([], []),
    "asan": (["-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero",
              "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],) * 2,
    "tsan": (["-fsanitize=thread"],) * 2,
    "msan": (["-fsanitize=memory", "-fno-omit-frame-pointer"],) * 2,
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:exitcode=99:abort_on_error=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:handle_abort=0:max_allocation_size_mb=20000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=98:halt_on_error=0:report_thread_leaks=0",
    "LSAN_OPTIONS": "exitcode=97",
}


class CheckError(Exception):
    """The check itself could not be carried out (exit status 2)."""


class Result:
    __slots__ = ("rc", "out", "err", "dur", "timeout", "cpu_timeout", "argv", "tail")

    def text(self):
        return "rc=%s%s stderr=%s" % (self.rc, " TIMEOUT" if self.timeout else "",
                                      self.err[-1500:].decode("utf-8", "replace"))


def set_limits(cpu, fsize=None, as_=None):
    def f():
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, resource.getrlimit(resource.RLIMIT_CORE)[1]))
        if fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if as_ is not None:
            resource.setrlimit(resource.RLIMIT_AS, (as_, as_))
    return f


def run(argv, input=b"", timeout=120, cpu=None, env=None, cwd=None, stdin=None, stdout=None,
        stderr=None, preexec=None, fsize=None, as_=None, new_session=True):
    """Run a command to completion; never raises for what the command does."""
    r = Result()
    r.argv = argv
    lim = set_limits(cpu, fsize, as_)

    def pre():
        lim()
        if preexec:
            preexec()
    t0 = time.time()
    p = subprocess.Popen(argv, stdin=stdin if stdin is not None else subprocess.PIPE,
                         stdout=stdout if stdout is not None else subprocess.PIPE,
                         stderr=stderr if stderr is not None else subprocess.PIPE,
                         env=env, cwd=cwd, preexec_fn=pre, start_new_session=new_session)
    r.timeout = False
    try:
        out, err = p.communicate(input if stdin is None else None, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.kill()
        try:
            out, err = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            out, err = b"", b""
    r.rc = p.returncode
    r.out = out or b""
    r.err = err or b""
    r.dur = time.time() - t0
    r.cpu_timeout = r.rc in (-signal.SIGXCPU,)
    return r


def kill_descendants():
    """Stop every process this check started which is still there."""
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                kids.setdefault(int(open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()[1]), []).append(int(d))
            except (OSError, IndexError, ValueError):
                pass
    todo, seen = [os.getpid()], []
    while todo:
        for k in kids.get(todo.pop(), []):
            seen.append(k)
            todo.append(k)
    for k in seen:
        try:
            os.kill(k, signal.SIGKILL)
        except OSError:
            pass


def load_known():
    known, fixed = {}, []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            if line.startswith("fixed:"):
                fixed.append(line)
                continue
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known, fixed


class Check:
    def __init__(self, pid, level="exploration"):
        self.id = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.events = {}
        self.samples = []
        self.evals = 0
        self.distinct = set()
        self.ndistinct = 0
        self.viols = {}
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self._objs = {}
        self.conflock = threading.Lock()
        self._links = {}
        base = os.environ.get("VERIF_TMP", "/tmp")
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=base)
        os.chmod(self.tmp, 0o755)
        atexit.register(self.cleanup)
        self.outdir = os.path.join(VERIF, "out", pid)
        self.env = dict(os.environ)
        for k in ("POSIXLY_CORRECT", "LD_PRELOAD"):
            self.env.pop(k, None)
        self.env.update(SAN_ENV)
        self.env["LC_ALL"] = "C"
        self._known = load_known()[0]
        self._vtime = None
        self._fin = threading.Lock()
        if not self.thorough:
            threading.Thread(target=self._watch, daemon=True).start()

    def _watch(self):
        """After a violation, do not let hanging programs keep the check from reporting it."""
        while True:
            time.sleep(1)
            now = time.time()
            if self._vtime and (now - self._vtime > 120 or now - self.t0 > 780):
                if not self._fin.acquire(blocking=False):
                    return
                self.log("stopping early: there are violations to report")
                rc = 1
                try:
                    rc = self._finish()
                finally:
                    sys.stdout.flush()
                    kill_descendants()
                    self.cleanup()
                    os._exit(rc)

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---- budgets -------------------------------------------------------
    def left(self, budget):
        return budget - (time.time() - self.t0)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- recording -----------------------------------------------------
    def ev(self, name, n=1):
        with self.lock:
            self.events[name] = self.events.get(name, 0) + n

    def case(self, desc, nontrivial=True):
        """One evaluation; desc identifies it."""
        with self.lock:
            self.evals += 1
            if nontrivial:
                self.distinct.add(hash(desc) if not isinstance(desc, (bytes, str)) else desc)

    def sample(self, s, limit=12):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    def viol(self, key, detail, replay=None):
        key = re.sub(r"\s+", "_", key)
        with self.lock:
            if key in self.viols:
                self.viols[key]["count"] += 1
                return
            self.viols[key] = {"detail": detail, "replay": replay, "count": 1}
            if self._vtime is None and (self.id, key) not in self._known:
                self._vtime = time.time()
        sys.stderr.write("[%s] violation %s: %s\n" % (self.id, key, str(detail)[:3000]))
        sys.stderr.flush()

    def log(self, msg):
        sys.stderr.write("[%s %.1fs] %s\n" % (self.id, time.time() - self.t0, msg))
        sys.stderr.flush()

    # ---- building ------------------------------------------------------
    def sources(self):
        srcs = []
        for top in ("lib", "lib-platform", "libcperciva"):
            for root, dirs, files in os.walk(os.path.join(REPO, top)):
                dirs[:] = [d for d in dirs if d not in ("Build", "POSIX", "apisupport")]
                for f in sorted(files):
                    if f.endswith(".c"):
                        srcs.append(os.path.join(root, f))
        incl = set()
        for s in srcs:
            for m in re.finditer(r'#\s*include\s+"([^"]+\.c)"', open(s, errors="replace").read()):
                incl.add(os.path.basename(m.group(1)))
        return sorted(s for s in srcs if os.path.basename(s) not in incl)

    def incdirs(self):
        pref = ["lib", "lib-platform", "lib-platform/crypto", "lib-platform/util", "lib/crypto",
                "lib/scryptenc", "lib/util", "libcperciva/alg", "libcperciva/cpusupport",
                "libcperciva/crypto", "libcperciva/util", "libscrypt-kdf"]
        return [os.path.join(REPO, p) for p in pref if os.path.isdir(os.path.join(REPO, p))]

    def confdir(self, variant):
        d = os.path.join(self.tmp, "conf-" + variant)
        with self.conflock:
            return self._confdir(d, variant)

    def _confdir(self, d, variant):
        if os.path.isdir(d):
            return d
        os.makedirs(d)
        for f in ("config.h", "cpusupport-config.h", "apisupport-config.h"):
            out = []
            for line in open(os.path.join(VERIF, "config", f)):
                if any(re.match(r"#define " + pat, line) for pat in VARIANTS[variant]):
                    continue
                out.append(line)
            if variant == "arm" and f.startswith("cpusupport"):
                out.append("#define CPUSUPPORT_ARM_AES 1\n#define CPUSUPPORT_ARM_SHA256 1\n#define CPUSUPPORT_HWCAP_GETAUXVAL 1\n")
            open(os.path.join(d, f), "w").write("".join(out))
        return d

    def cppflags(self, variant):
        return ((M32 if variant.startswith("m32") else []) + ["-DHAVE_CONFIG_H", "-I" + self.confdir(variant), "-I" + REPO] +
                ["-I" + d for d in self.incdirs()] +
                ['-DAPISUPPORT_CONFIG_FILE="apisupport-config.h"',
                 '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"',
                 "-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700"])

    def _cc(self, cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise CheckError("build failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-3000:]))

    def build(self, variant="full", san=None, cc=None, opt="-O2", ref=False, extra=()):
        """Compile the repository; returns (archive without main, main object)."""
        cc = cc or ("clang" if san else "gcc")
        key = (variant, san, cc, opt, ref, tuple(extra))
        with self.lock:
            ent = self._objs.get(key)
            if ent is None:
                ent = self._objs[key] = {"lock": threading.Lock(), "res": None}
        with ent["lock"]:
            if ent["res"]:
                return ent["res"]
            d = os.path.join(self.tmp, "obj-%d" % (abs(hash(key)) % 10**10))
            os.makedirs(d, exist_ok=True)
            srcs = []
            for s in self.sources():
                b = os.path.basename(s)
                if b == "crypto_scrypt-ref.c" and not ref:
                    continue
                if b == "crypto_scrypt.c" and ref:
                    continue
                srcs.append(s)
            srcs.append(os.path.join(REPO, "main.c"))
            if variant == "arm":
                srcs.append(os.path.join(HARNESS, "armsim", "armsim.c"))
            jobs, objs, mainobj = [], [], None
            for i, s in enumerate(srcs):
                o = os.path.join(d, "%d-%s.o" % (i, os.path.basename(s)[:-2]))
                fl = []
                m = re.search(r"CPUSUPPORT CFLAGS:([ \w]+)", open(s, errors="replace").read())
                if m:
                    for f in m.group(1).split():
                        fl += CPUFLAGS.get(f, [])
                elif "sse2" in os.path.basename(s):  # as in Makefile.am
                    fl += CPUFLAGS["X86_SSE2"]
                if variant == "arm" and "cpusupport_arm" in os.path.basename(s):
                    fl += ["-D__aarch64__", "-DHWCAP_AES=8", "-DHWCAP_SHA2=64", "-Dgetauxval=armsim_getauxval"]
                cmd = [cc] + self.cppflags(variant) + ["-g", opt, "-w"] + fl + SAN[san][0] + list(extra) + ["-c", s, "-o", o]
                jobs.append(cmd)
                if s.endswith("/main.c"):
                    mainobj = o
                else:
                    objs.append(o)
            with cf.ThreadPoolExecutor(NCPU) as ex:
                list(ex.map(self._cc, jobs))
            lib = os.path.join(d, "librepo.a")
            self._cc(["ar", "rcs", lib] + objs)
            ent["res"] = (lib, mainobj)
            return ent["res"]

    def arm_ok(self):
        """Can the ARM implementations be built against the simulated processor?"""
        with self.lock:
            if not hasattr(self, "_arm"):
                self._arm = threading.Lock(), []
        with self._arm[0]:
            if not self._arm[1]:
                try:
                    self.build("arm")
                    self._arm[1].append(True)
                except CheckError as e:
                    self._arm[1].append(False)
                    self.assumptions.append("the ARM implementations do not build against the simulated processor and are not covered: %s" % str(e)[-300:])
                if self._arm[1][0]:
                    self.assumptions.append("the ARM implementations run on simulated ARM instructions (harness/armsim), little endian")
        return self._arm[1][0]

    def link(self, name, srcs, variant="full", san=None, cc=None, opt="-O2", wraps=(), libs=(),
             with_main=False, ref=False, extra=(), cflags=()):
        """Link harness sources (from /verif/harness) against the repository build."""
        cc = cc or ("clang" if san else "gcc")
        lib, mainobj = self.build(variant, san, cc, opt, ref, extra)
        exe = os.path.join(self.tmp, name)
        with self.lock:
            lk = self._links.setdefault(name, [threading.Lock(), False])
        with lk[0]:
            if not lk[1]:
                self._link(exe, lib, mainobj, cc, srcs, variant, san, wraps, libs, with_main, cflags)
                lk[1] = True
        return exe

    def _link(self, exe, lib, mainobj, cc, srcs, variant, san, wraps, libs, with_main, cflags):
        m32 = variant.startswith("m32")
        if m32:  # the names used with 64-bit file offsets
            lfs = [w for w in wraps if w in "mmap fopen freopen open openat lseek fseeko ftello ftruncate tmpfile mkstemp pread pwrite getrlimit".split()]
            libs = list(libs) + ["-Wl,--wrap=%s64,--defsym=__wrap_%s64=__wrap_%s" % (w, w, w) for w in lfs]
        cmd = ([cc] + self.cppflags(variant) + ["-D_GNU_SOURCE", "-UNDEBUG", "-I" + HARNESS, "-g", "-O2", "-w"] +
               SAN[san][0] + list(cflags) + [os.path.join(HARNESS, s) for s in srcs] +
               ([mainobj] if with_main else []) + ["-o", exe] +
               (["-Wl," + ",".join("--wrap=" + w for w in wraps)] if wraps else []) +
               [lib] + (["-no-pie", "-nostdlib", os.path.join(HARNESS, "m32", "crt.c")] + [L32 + x for x in ("libc.so.6", "libm.so.6", "libgcc_s.so.1", "ld-linux.so.2")] +
                        ["-Wl,-dynamic-linker," + L32 + "ld-linux.so.2"] if m32 else ["-lcrypto", "-lrt", "-lpthread", "-lm"]) + list(libs))
        self._cc(cmd)

    def m32_ok(self):
        """Can 32-bit programs be built and run here?"""
        with self.lock:
            if not hasattr(self, "_m32"):
                self._m32 = threading.Lock(), []
        with self._m32[0]:
            if not self._m32[1]:
                why = None
                try:
                    r = run([self.link("m32probe", ["m32/probe.c"], "m32")], timeout=60)
                    if r.out != b"32\n":
                        why = r.text()
                except (CheckError, OSError) as e:
                    why = str(e)[-300:]
                self._m32[1].append(why is None)
                self.assumptions.append("32-bit programs cannot be built or run here and are not covered: %s" % why if why else
                                        "32-bit x86 builds run with SHA-256 and AES of our own (harness/m32) in place of libcrypto, in trapping UBSan builds")
        return self._m32[1][0]

    def cli(self, variant="full", san=None, cc=None, opt="-O2", name=None, srcs=(), wraps=(), ref=False):
        """The scrypt command built from the working tree."""
        return self.link(name or "scrypt-%s-%s" % (variant, san or "plain"), list(srcs), variant, san, cc,
                         opt, wraps, with_main=True)

    # ---- running harnesses ---------------------------------------------
    def harness(self, exe, args=(), timeout=400, cpu=None, env=None, tag="", prefix=(), input=b"",
                expect_done=True, retry_timeout=True, as_=None, cwd=None):
        """Run a harness speaking the EV/SAMPLE/VIOL/DONE protocol of vh.h."""
        argv = list(prefix) + [exe] + [str(a) for a in args]
        e = dict(self.env)
        e["VERIF_SEED"] = str(self.seed)
        if env:
            e.update(env)
        if not self.thorough:
            timeout = min(timeout, 330)
        r = run(argv, input=input, timeout=timeout, cpu=cpu, env=e, as_=as_, cwd=cwd or self.tmp)
        if (r.timeout or r.cpu_timeout) and retry_timeout:
            self.log("timeout of %s, trying again" % " ".join(argv[-6:]))
            if self.thorough:
                timeout *= 1.5
            else:
                timeout = max(120, min(timeout * 1.5, self.left(800)))
            r = run(argv, input=input, timeout=timeout, cpu=cpu, env=e, as_=as_, cwd=cwd or self.tmp)
        self.parse(r, tag)
        done = re.search(rb"^DONE", r.out, re.M)
        name = os.path.basename(exe)
        if b"HARNESS-ERROR" in r.out or b"HARNESS-ERROR" in r.err:
            m = re.search(rb"HARNESS-ERROR.*", r.out + b"\n" + r.err)
            raise CheckError(m.group(0).decode("utf-8", "replace"))
        replay = {"cmd": argv, "rc": r.rc, "seed": self.seed,
                  "stdout_tail": r.out[-1500:].decode("utf-8", "replace"),
                  "stderr_tail": r.err[-6000:].decode("utf-8", "replace")}
        if r.timeout or r.cpu_timeout:
            self.viol("hang:%s:%s" % (name, tag), "did not terminate: " + r.text(), replay)
        elif expect_done and (not done or r.rc != 0):
            self.viol("died:%s:%s:%s" % (name, tag, self.crash_kind(r)),
                      "monitored run ended abnormally: " + r.text(), replay)
        return r

    @staticmethod
    def crash_kind(r):
        t = r.err.decode("utf-8", "replace")
        m = re.search(r"(runtime error: [^\n]{0,80}|ERROR: \w+Sanitizer:? [\w-]+|WARNING: \w+Sanitizer: [^\n(]{0,40}|Assertion[^\n]{0,80})", t)
        k = m.group(1) if m else "rc%s" % r.rc
        return re.sub(r"0x[0-9a-f]+|\d{5,}", "#", k).replace(" ", "_")[:100]

    def parse(self, r, tag=""):
        for line in r.out.split(b"\n"):
            if line.startswith(b"EV "):
                p = line.split()
                self.ev(p[1].decode(), int(p[2]))
            elif line.startswith(b"CASES "):
                p = line.split()
                with self.lock:
                    self.evals += int(p[1])
                    self.ndistinct += int(p[2])
            elif line.startswith(b"SAMPLE "):
                self.sample((tag + ": " if tag else "") + line[7:].decode("utf-8", "replace"))
            elif line.startswith(b"VIOL "):
                t = line[5:].decode("utf-8", "replace")
                key, _, det = t.partition("|")
                self.viol((tag + ":" if tag else "") + key, det, {"cmd": r.argv, "seed": self.seed, "line": t})

    def par(self, jobs, workers=NCPU):
        """Run callables in parallel, propagate CheckError."""
        with cf.ThreadPoolExecutor(workers) as ex:
            fs = [ex.submit(j) for j in jobs]
            return [f.result() for f in fs]

    # ---- finishing -----------------------------------------------------
    def need(self, name, minimum=1):
        if self.events.get(name, 0) < minimum and not self.viols:
            raise CheckError("monitor observed only %d of event %s (need %d)" % (self.events.get(name, 0), name, minimum))

    def finish(self):
        self._fin.acquire()
        return self._finish()

    def _finish(self):
        known = self._known
        wall = time.time() - self.t0
        with self.lock:
            viols, events = dict(self.viols), dict(self.events)
        new = {k: v for k, v in viols.items() if (self.id, k) not in known}
        cov = {"evaluations": self.evals, "distinct_nontrivial": self.ndistinct + len(self.distinct),
               "rule": self.rule, "samples": self.samples or ["(none)"],
               "observed_events": dict(sorted(events.items()))}
        cov.update(self.extra)
        ev = {"property": self.id, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for (pid, k), txt in known.items():
            if pid == self.id and k in viols:
                print("KNOWN-FINDING: property=%s %s (%s)" % (pid, txt, k))
        if new:
            os.makedirs(self.outdir, exist_ok=True)
            for i, (k, v) in enumerate(sorted(new.items())[:20]):
                path = os.path.join(self.outdir, "violation-%d.json" % i)
                with open(path, "w") as f:
                    json.dump({"property": self.id, "key": k, "detail": v["detail"], "count": v["count"],
                               "seed": self.seed, "tier": self.tier, "replay": v["replay"],
                               "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (self.seed, self.tier, self.id)},
                              f, indent=1, default=lambda o: o.hex() if isinstance(o, bytes) else str(o))
                print("VIOLATION property=%s replay=%s" % (self.id, path))
                print("  %s: %s" % (k, str(v["detail"])[:600]))
            sys.stdout.flush()
            return 1
        if self.evals == 0:
            raise CheckError("nothing was evaluated")
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (
            self.id, self.tier, self.seed, self.evals, self.ndistinct + len(self.distinct), wall))
        return 0
