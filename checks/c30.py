import os, random, re, shutil, signal, stat, string, subprocess
from vlib import core, fmt, tty
LEVEL = "exploration"
AL = string.ascii_letters + string.digits
MODIFY = {"unlink", "unlinkat", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "rmdir", "link", "linkat", "symlink", "symlinkat", "mknod", "mknodat", "chmod", "fchmodat", "fchmodat2", "chown",
          "lchown", "fchownat", "truncate", "utime", "utimes", "utimensat", "futimesat", "setxattr", "lsetxattr", "removexattr", "lremovexattr", "fchmod", "fchown", "fsetxattr", "fremovexattr",
          "fallocate", "memfd_create", "shmget", "mq_open", "msgget", "semget", "swapon", "acct", "chroot", "mount", "umount2", "pivot_root", "sethostname", "quotactl"}
NET = {"socket", "socketpair", "connect", "bind", "listen", "accept", "accept4", "sendto", "sendmsg", "sendmmsg"}
OTHER = {"ptrace", "process_vm_readv", "process_vm_writev", "setuid", "setgid", "setreuid", "setregid", "setresuid", "setresgid", "setgroups", "reboot", "init_module", "finit_module", "delete_module",
         "kexec_load", "bpf", "perf_event_open", "add_key", "keyctl", "request_key", "settimeofday", "clock_settime", "adjtimex", "setpriority", "sched_setaffinity", "sched_setscheduler", "io_uring_setup"}
SYS = ("/etc/", "/usr/", "/lib", "/proc/", "/sys/")
DEVS = {"/dev/tty", "/dev/urandom", "/dev/random", "/dev/null"}


class Case:
    pass


def scenario(rng, base, plain=False):
    """Files, command line and what is to be expected of a run of the command."""
    s = Case()
    word = lambda n: "".join(rng.choice(AL) for _ in range(n))
    for x in ("cwd", "home", "tmp", "a", "b"):
        os.makedirs(os.path.join(base, x))
    P = lambda *x: os.path.join(base, *x)
    s.mode = rng.choice(["enc", "enc", "dec", "dec", "dec", "info"])
    s.pw = word(rng.choice([3, 12, 30])).encode()
    s.data = rng.randbytes(rng.choice([0, 1, 31, 32, 33, 100, 4096, 70000]))
    s.what = rng.choice(["ok"] * 5 + ["wrong", "damage", "magic", "version", "absent", "usage", "outdir", "limit"])
    s.params = rng.choice([(10, 1, 1), (11, 2, 1), (10, 3, 2)])
    inp = s.data if s.mode == "enc" else fmt.encode(s.pw, s.data, *s.params, salt=rng.randbytes(32))
    typed = s.pw
    if s.mode != "enc":
        k = {"damage": rng.randrange(96, len(inp)), "magic": 1, "version": 6}.get(s.what)
        if k is not None:
            inp = inp[:k] + bytes([inp[k] ^ 16]) + inp[k + 1:]
        if s.what == "wrong":
            typed = s.pw + b"x"
    s.src = P(rng.choice(["a", "cwd"]), rng.choice(["in", "in.enc", "in.scrypt", "data.txt"]))
    if s.what != "absent":
        open(s.src, "wb").write(inp)
        os.chmod(s.src, rng.choice([0o600, 0o644, 0o400, 0o666]))
    s.stdin_in = s.what != "absent" and rng.random() < .25
    s.method = rng.choice(["env", "file", "-P", "tty-stdin", "tty-once"] if not plain else ["env", "file", "-P"])
    if s.mode == "info":
        s.method = "none"
    if s.stdin_in and s.method == "-P":
        s.method = "env"
    s.env = {"VP": typed.decode()} if s.method == "env" else {}
    s.stdin, s.feed = (inp if s.stdin_in else b"left alone, please\n"), None
    s.read = {s.src}
    s.args = []
    if s.method == "env":
        s.args += ["--passphrase", "env:VP"]
    elif s.method == "file":
        s.pf = P(rng.choice(["b", "cwd"]), "pass")
        open(s.pf, "wb").write(typed + rng.choice([b"", b"\n"]))
        s.read.add(s.pf)
        s.args += ["--passphrase", "file:" + s.pf]
    elif s.method == "-P":
        s.args, s.stdin = ["-P"], typed + b"\n"
    elif s.method == "tty-once":
        s.args, s.feed = ["--passphrase", "dev:tty-once"], typed + b"\n"
    elif s.method == "tty-stdin":
        s.feed = (typed + b"\n") * (2 if s.mode == "enc" else 1)
    if s.mode == "enc":
        s.args += ["--logN", str(s.params[0]), "-r", str(s.params[1]), "-p", str(s.params[2])]
    if rng.random() < .4 and s.mode != "info":
        s.args.append("-v")
    if rng.random() < .3 and s.mode != "info" and s.what != "limit":
        s.args.append("-f")
    if s.what == "limit" and s.mode == "dec":
        s.args += ["-t", "0"]
        open(s.src, "r+b").close()
    if s.what == "usage":
        s.args += rng.choice([["-q"], ["--logN", "x"], ["-M", "1Q"]])
    s.out, s.pre, s.target = None, "none", None
    if s.mode != "info" and (rng.random() < .75):
        s.out = P(rng.choice(["b", "cwd"]), rng.choice(["out", "out.enc", "result.bin", "in.bak"]))
        s.pre = rng.choice(["absent", "absent", "file", "file", "hardlink", "symlink", "dangling"])
        s.target = s.out
        if s.what == "outdir":
            s.out = s.target = P("no", "such", "out")
            s.pre = "absent"
        elif s.pre in ("file", "hardlink"):
            open(s.out, "wb").write(b"old content " * rng.choice([1, 10000]))
            os.chmod(s.out, rng.choice([0o600, 0o644, 0o640, 0o777, 0o400, 0o4755]))
            if s.pre == "hardlink":
                os.link(s.out, P("tmp", "other-name"))
        elif s.pre in ("symlink", "dangling"):
            s.target = P("home", "real")
            os.symlink(s.target, s.out)
            if s.pre == "symlink":
                open(s.target, "wb").write(b"old")
                os.chmod(s.target, 0o640)
    s.argv = [s.mode] + s.args + ["-" if s.stdin_in else s.src] + ([s.out] if s.out else [])
    # bystanders
    for x in rng.sample(["in.tmp", "out.tmp", "out~", ".out.swp", "out.part", "core", ".scryptrc", "scrypt.conf", "in~", "pass.bak", "key"], 4):
        q = P(rng.choice(["a", "b", "cwd", "home", "tmp"]), x)
        if not os.path.lexists(q):
            open(q, "w").write("bystander " + word(9))
    s.cwd = P("cwd")
    s.umask = rng.choice([0o022, 0o077, 0o027, 0, 0o777 & 0o137])
    s.accepted = s.what in ("ok", "damage") or (s.mode == "enc" and s.what in ("wrong", "damage", "magic", "version", "limit")) or (s.mode == "dec" and s.what == "outdir" and not s.out)
    if s.mode == "enc" and s.what == "outdir" and not s.out:
        s.accepted = True
    return s


def tree(base):
    t = {}
    for d, ds, fs in os.walk(base):
        for x in ds + fs:
            q = os.path.join(d, x)
            st = os.lstat(q)
            if stat.S_ISREG(st.st_mode):
                t[q] = (st.st_ino, st.st_mode, st.st_uid, st.st_nlink, st.st_mtime_ns, st.st_ctime_ns, open(q, "rb").read())
            elif stat.S_ISLNK(st.st_mode):
                t[q] = (st.st_ino, st.st_mode, os.readlink(q))
            else:
                t[q] = (st.st_ino, st.st_mode, st.st_uid)
    return t


def main(c):
    c.rule = ("one evaluation = one run of the command (encrypting, decrypting, info x passphrase method x input and output kinds x success or a way of failing): either with every system call recorded "
              "and the whole directory tree compared before and after, or repeated in another environment (variables, directory, program name, standard input, umask, descriptors, priority, signals) "
              "with the results compared; distinct = distinct (mode, method, scenario, output kind, variation)")
    exe = c.cli()
    shim = c.cli(name="scrypt-env", srcs=["h_getenv.c"], wraps=["getenv", "secure_getenv"])
    strace = shutil.which("strace")
    if strace:
        r = core.run([strace, "-o", os.path.join(c.tmp, "st"), "true"], timeout=20)
        if r.rc or not os.path.exists(os.path.join(c.tmp, "st")):
            strace = None
    if not strace:
        c.assumptions.append("strace does not work here: system calls were not recorded")
    LINE = re.compile(r"^(?:\d+ +)?(\w+)\((.*)\) += +(-?\w+)")

    def trace(s, log, desc, base):
        first = True
        real = {os.path.realpath(x) for x in s.read} | s.read
        outs = {s.out, s.target} if s.out else set()
        for l in open(log, errors="replace"):
            m = LINE.match(l)
            if not m:
                continue
            n, a, ret = m.groups()
            c.ev("system_calls")
            if n == "execve":
                if not first:
                    c.viol("program-started", "%s: %s" % (desc, l[:200]))
                first = False
            elif n in ("open", "openat", "openat2", "creat"):
                q = re.match(r'(?:(?:AT_FDCWD|\d+)(?:<([^>]*)>)?, )?"((?:[^"\\]|\\.)*)"', a)
                if not q:
                    continue
                path = os.path.normpath(os.path.join(q.group(1) or s.cwd, q.group(2)))
                w = re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND|O_TMPFILE", a) or n == "creat"
                c.ev("opens")
                if path in DEVS:
                    if w and path not in ("/dev/tty", "/dev/null"):
                        c.viol("opened-for-writing", "%s: %s" % (desc, l[:200]))
                elif w:
                    if path not in outs:
                        c.viol("opened-for-writing", "%s: %s" % (desc, l[:200]))
                    elif not s.accepted and s.what != "outdir":
                        c.viol("output-opened", "%s: output opened although the operation is refused: %s" % (desc, l[:200]))
                elif path not in real and not (".so" in path and not path.startswith(base)) and (not path.startswith(SYS) or "scrypt" in os.path.basename(path)) and path != os.path.realpath(exe):
                    c.viol("opened", "%s: %s" % (desc, l[:200]))
            elif n in MODIFY:
                c.viol("changed-files", "%s: %s" % (desc, l[:200]))
            elif n == "ftruncate":
                if not outs or not any("<%s>" % x in a for x in outs if x):
                    c.viol("changed-files", "%s: %s" % (desc, l[:200]))
            elif n in NET:
                c.viol("network", "%s: %s" % (desc, l[:200]))
            elif n in OTHER:
                c.viol("other-effects", "%s: %s" % (desc, l[:200]))
            elif n in ("fork", "vfork") or (n in ("clone", "clone3") and "CLONE_THREAD" not in a):
                c.viol("program-started", "%s: %s" % (desc, l[:200]))
            elif n in ("read", "readv", "pread64", "preadv", "preadv2"):
                fd = re.match(r"(\d+)<", a)
                if fd and fd.group(1) == "0" and not s.stdin_in and s.method not in ("-P",):
                    c.viol("standard-input-read", "%s: standard input is read: %s" % (desc, l[:160]))
            elif n in ("write", "writev", "pwrite64", "pwritev", "pwritev2", "sendfile", "copy_file_range", "splice", "vmsplice"):
                fd = re.match(r"(\d+)<([^>]*)>", a)
                if not fd:
                    continue
                c.ev("writes")
                f, p = int(fd.group(1)), fd.group(2)
                if f == 2 or (f == 1 and not s.out):
                    continue
                if p not in outs and p != "/dev/tty" and not (s.feed is not None and p.startswith(("/dev/pts", "/dev/ptmx"))):
                    c.viol("written", "%s: %s" % (desc, l[:160]))

    def footprint(s, base, i):
        log = base + ".strace"
        before = tree(base)
        env = dict(c.env, HOME=os.path.join(base, "home"), TMPDIR=os.path.join(base, "tmp"), XDG_CONFIG_HOME=os.path.join(base, "home"), **s.env)
        traced = strace is not None
        cmd = ([strace, "-f", "-y", "-s", "300", "-o", log] if traced else []) + [exe] + s.argv
        old = s.umask
        cmd = ["/bin/sh", "-c", 'umask %o; exec "$@"' % old, "sh"] + cmd
        if s.feed is None:
            r = core.run(cmd, input=s.stdin, env=env, cwd=s.cwd, timeout=60)
        else:
            r = tty.run(cmd, s.feed, env=env, cwd=s.cwd, stdin=s.stdin)
        desc = "scrypt %s (%s, %s, output %s)" % (" ".join(s.argv), s.method, s.what, s.pre)
        c.case((s.mode, s.method, s.what, s.pre, s.stdin_in, len(s.data)))
        c.ev("runs_observed")
        c.ev("runs_succeeding" if r.rc == 0 else "runs_failing")
        good = s.what == "ok" or (s.mode == "enc" and s.what not in ("absent", "usage") and not (s.what == "outdir" and s.out)) or (s.mode == "info" and s.what in ("wrong", "damage", "outdir", "limit")) or \
            (s.what == "outdir" and not s.out)
        if s.what == "limit" and s.mode == "dec":
            good = r.rc == 0  # a fast machine may be within the minimum
            s.accepted = good
        if (r.rc == 0) != good:
            c.viol("control", "%s: status %s: %s" % (desc, r.rc, r.err[-300:]))
            return
        after = tree(base)
        for q in sorted(set(before) | set(after)):
            x, y = before.get(q), after.get(q)
            if x == y:
                c.ev("entries_unchanged")
                continue
            if not s.out or q not in (s.out, s.target) and not (s.pre == "hardlink" and q == os.path.join(base, "tmp", "other-name")):
                c.viol("tree", "%s: %s %s" % (desc, q[len(base):], "appeared" if not x else "disappeared" if not y else "changed"))
            elif not s.accepted:
                c.viol("output-changed", "%s: %s %s" % (desc, q[len(base):], "appeared" if not x else "disappeared" if not y else "changed"))
            elif r.rc == 0 and x and (not y or x[:2] != y[:2] or (len(x) > 3 and x[2:4] != y[2:4])):
                if y and x[0] == y[0] and x[1] & ~0o6000 == y[1]:
                    continue  # the kernel takes set-uid bits away
                c.viol("output-identity", "%s: the existing output file is replaced or gets other permissions: %r, was %r" % (desc, y and y[:4], x[:4]))
            elif r.rc == 0 and not x and q == s.target:
                c.ev("outputs_created")
                if y[1] != stat.S_IFREG | 0o666 & ~s.umask:
                    c.viol("output-mode", "%s: created with mode %o under umask %o" % (desc, y[1], s.umask))
        if r.rc == 0 and s.mode != "info":
            o = after[s.target][6] if s.out else r.out
            try:
                if s.mode == "dec" and o != s.data or s.mode == "enc" and fmt.decode(s.pw, o)[0] != s.data:
                    raise fmt.Bad("data")
            except fmt.Bad as e:
                c.viol("control", "%s: wrong output (%s)" % (desc, e))
        if traced:
            trace(s, log, desc, base)
            os.unlink(log)

    def outcome(s, base, argv0, env, cwd, stdin, pre, who=None, extra=None):
        """Run without a terminal; what came out."""
        if s.out:
            for q in {s.out, s.target}:
                if os.path.lexists(q) and s.pre == "absent":
                    os.unlink(q)
        kw = {}
        if extra is not None:
            kw["pass_fds"] = extra
        p = subprocess.Popen([argv0] + s.argv, executable=who or exe, env=env, cwd=cwd, stdin=subprocess.PIPE if isinstance(stdin, bytes) else stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, start_new_session=True, **kw)
        try:
            out, err = p.communicate(stdin if isinstance(stdin, bytes) else None, timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return ("timeout",)
        name = argv0.rsplit("/", 1)[-1]
        lines = []
        for l in err.decode("latin-1").split("\n"):
            if l.startswith(name + ": "):
                l = "@: " + l[len(name) + 2:]
            # what is measured or found out about the machine differs from run to run
            lines.append(re.sub(r"[0-9.]+ (seconds|[kMGTPE]?B)|CPU time limit.*|Decrypting this file.*", "#", l))
        f = None
        if s.out and os.path.isfile(s.target):
            f = open(s.target, "rb").read()
        elif not s.out and s.mode != "info":
            f = out
            out = b""
        if s.mode == "enc" and p.returncode == 0:
            try:
                d_, L, a, b, _ = fmt.decode(s.pw, f)
                f = (d_, L, a, b)
            except fmt.Bad as e:
                f = str(e)
        return (p.returncode, out, f, "\n".join(lines))

    def depend(s, base, rng):
        env0 = dict(c.env, **s.env)
        ref = outcome(s, base, "scrypt", env0, s.cwd, s.stdin, None)
        desc = "scrypt %s (%s, %s)" % (" ".join(s.argv), s.method, s.what)
        stdin_free = not s.stdin_in and s.method in ("env", "file", "none")
        words = ["1", "0", "", "yes", "2", "40", "-v", "x", "/", "C", "de_DE.UTF-8", "/nonexistent", s.pw.decode(), "verbose"]
        for k in range(5):
            kind = rng.choice(["env", "env", "emptyenv", "cwd", "argv0", "argv0", "stdin", "umask", "fds", "nice", "signals", "limits"])
            argv0, env, cwd, stdin, pre, extra = "scrypt", dict(env0), s.cwd, s.stdin, None, None
            opened = []
            if kind == "env":
                for _ in range(rng.randrange(1, 12)):
                    v = rng.choice(["LANG", "LC_ALL", "LC_NUMERIC", "LC_MESSAGES", "LANGUAGE", "TZ", "POSIXLY_CORRECT", "COLUMNS", "TERM", "HOME", "TMPDIR", "USER", "PATH", "SHELL", "EDITOR", "PWD", "DEBUG", "VERBOSE",
                                    "SCRYPT_PASSPHRASE", "SCRYPT_DEBUG", "SCRYPT_LOGN", "SCRYPT_OPTS", "SCRYPT", "PASSPHRASE", "PASSWORD", "MAXMEM", "MAXTIME", "VP2", "V", "vp", "VPX", "MALLOC_PERTURB_", "NO_COLOR", "FORCE", "r", "p", "logN", ""])
                    if v == "MALLOC_PERTURB_":
                        env[v] = str(rng.randrange(1, 256))
                    elif v:
                        env[v] = rng.choice(words)
                env.update(s.env)
            elif kind == "emptyenv":
                env = dict(s.env)
            elif kind == "cwd":
                cwd = rng.choice(["/", os.path.join(base, "home"), "/tmp", "/dev"])
            elif kind == "argv0":
                argv0 = rng.choice(["/usr/bin/scrypt", "./scrypt", "dec", "enc", "-sh", "a b c", "%s%n%d", "x" * 3000, "/a/b/", "scrypt-enc", "sudo", "--", "unscrypt"])
            elif kind == "stdin":
                if not stdin_free:
                    continue
                w = rng.choice(["null", "full", "file", "closedpipe", "dir"])
                if w == "dir":
                    stdin = os.open("/", os.O_RDONLY)
                elif w == "closedpipe":
                    a, stdin = os.pipe()
                    os.close(stdin)
                    stdin = a
                else:
                    stdin = os.open({"null": "/dev/null", "full": "/dev/full", "file": s.src if os.path.exists(s.src) else "/dev/null"}[w], os.O_RDONLY)
                opened.append(stdin)
            elif kind == "umask":
                m = rng.choice([0, 0o777, 0o077])
                pre = lambda: os.umask(m)
            elif kind == "fds":
                extra = []
                for _ in range(rng.randrange(1, 30)):
                    f = os.open(rng.choice(["/dev/null", "/dev/zero", "/"]), os.O_RDONLY)
                    opened.append(f)
                    extra.append(f)
            elif kind == "nice":
                pre = lambda: os.nice(rng.randrange(1, 19)) and None
            elif kind == "signals":
                sg = [x for x in (signal.SIGINT, signal.SIGHUP, signal.SIGTERM, signal.SIGQUIT, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU, signal.SIGUSR1, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE) if rng.random() < .5]

                def pre(sg=sg):
                    for x in sg:
                        signal.signal(x, signal.SIG_IGN)
                    signal.pthread_sigmask(signal.SIG_BLOCK, sg[:2])
            elif kind == "limits":
                import resource

                def pre():
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_NOFILE, (64, 64))
                    resource.setrlimit(resource.RLIMIT_CPU, (600, 600))
            got = outcome(s, base, argv0, env, cwd, stdin, pre, extra=extra)
            for f in opened:
                os.close(f)
            c.ev("variations_" + kind)
            c.case((s.mode, s.method, s.what, kind, argv0[:20]))
            if got != ref:
                i = [a == b for a, b in zip(got, ref)].index(False) if len(got) == len(ref) else 0
                c.viol("depends-on-" + kind, "%s: with another %s (%s) %s is %r instead of %r" % (desc, kind, (argv0[:40] if kind == "argv0" else sorted(set(env) - set(env0)) if "env" in kind else cwd), ("status", "standard output", "output", "standard error")[i], got[i:i + 1], ref[i:i + 1]))
        # variables the command asks for, other than the one it is told to use
        log = base + ".names"
        open(log, "w").close()
        outcome(s, base, "scrypt", dict(env0, VS_NAMES=log), s.cwd, s.stdin, None, who=shim)
        names = set(open(log).read().split("\n")) - {""}
        c.ev("variables_asked_for", len(names))
        if s.method == "env" and s.what != "usage" and s.mode != "info" and "VP" in names:
            c.ev("named_variable_asked_for")
        for v in sorted(names - set(s.env)):
            for x in words + ["9", "15", "100", s.src, "true", "all", "*"]:
                got = outcome(s, base, "scrypt", dict(env0, **{v: x}), s.cwd, s.stdin, None)
                c.ev("values_of_other_variables")
                if got != ref:
                    c.viol("depends-on-env", "%s: with %s=%s the result is %r instead of %r" % (desc, v, x, got[:1], ref[:1]))
                    break

    def job(k):
        rng = random.Random("%s-c30-%d" % (c.seed, k))
        for i in range(c.scale(160, 3000)):
            base = os.path.join(c.tmp, "b%d-%d" % (k, i))
            os.makedirs(base)
            s = scenario(rng, base)
            footprint(s, base, i)
            shutil.rmtree(base)

    def job2(k):
        rng = random.Random("%s-c30v-%d" % (c.seed, k))
        for i in range(c.scale(100, 2000)):
            base = os.path.join(c.tmp, "v%d-%d" % (k, i))
            os.makedirs(base)
            s = scenario(rng, base, True)
            s.pre = s.pre if s.pre in ("none", "absent") else "file"
            if s.out:
                for q in {s.out, s.target}:
                    if os.path.lexists(q):
                        os.unlink(q)
                s.pre, s.target = "absent", s.out
            if s.what == "limit":
                s.what = "ok"
                s.argv = [x for j, x in enumerate(s.argv) if x != "-t" and not (j and s.argv[j - 1] == "-t")]
            depend(s, base, rng)
            shutil.rmtree(base)
    jobs = [lambda k=k: job(k) for k in range(4)] + [lambda k=k: job2(k) for k in range(4)]
    c.par(jobs)
    for e, n in (("named_variable_asked_for", 5), ("runs_observed", 120), ("runs_succeeding", 60), ("runs_failing", 30), ("entries_unchanged", 500), ("outputs_created", 15)):
        c.need(e, n)
    if strace:
        c.need("system_calls", 5000)
        c.need("opens", 500)
