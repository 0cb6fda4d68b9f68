import fcntl, math, os, random, re, struct, termios
from vlib import fmt, core, limits

LONG = {"--logN": 1, "--passphrase": 1}
SHORT = {"f": 0, "v": 0, "P": 0, "M": 1, "m": 1, "p": 1, "r": 1, "t": 1}
PFX = {"": 1, "k": 10**3, "M": 10**6, "G": 10**9, "T": 10**12, "P": 10**15, "E": 10**18}


class Reject(Exception):
    pass


class Unspecified(Exception):
    pass


def integer(s, lo, hi):
    if re.fullmatch(r"[1-9][0-9]*|0", s):
        v = int(s)
        if lo <= v <= hi:
            return v
        raise Reject("out of range")
    if re.fullmatch(r"-[0-9]+", s) and int(s) != 0:
        raise Reject("negative")
    if re.fullmatch(r"[ \t\n\v\f\r]+.*|\+.*|-.*|0[0-9xX].*", s, re.S):
        raise Unspecified  # white space, signs and other bases: not documented
    raise Reject("not a number")


def number(s):
    if re.fullmatch(r"([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", s):
        v = float(s)
        if v == math.inf or (v < 1e-300 and re.search("[1-9]", s.lower().split("e")[0])):
            raise Unspecified  # not representable
        return v
    if s.lower() in ("inf", "infinity"):
        return math.inf
    if re.fullmatch(r"-([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]{1,2})?", s):
        if float(s) < 0:
            raise Reject("negative")
        raise Unspecified
    if s.lower() in ("-inf", "-infinity"):
        raise Reject("negative")
    if re.fullmatch(r"[+-]?nan(\(\w*\))?", s, re.I):
        raise Reject("not a number")
    if re.fullmatch(r"[ \t\n\v\f\r]+.*|\+.*|-.*|0[xX].*", s, re.S):
        raise Unspecified
    raise Reject("not a number")


def size(s):
    m = re.fullmatch(r"([0-9]+) ?([kMGTPE]?)B?", s)
    if not m:
        raise Reject("not a size")
    v = int(m.group(1)) * PFX[m.group(2)]
    if v > 2**64 - 1:
        raise Reject("size too large")
    return v


def model(argv, szmax=2**64 - 1):
    """What a command line (after the command name) means according to the manual."""
    if not argv or argv[0] not in ("enc", "dec", "info", "--version"):
        raise Reject("command")
    if argv[0] == "--version":
        raise Unspecified
    o = dict(mode=argv[0], f=False, v=False, M=0, m=0.125 if argv[0] == "enc" else 0.5, t=5.0 if argv[0] == "enc" else 300.0, logN=None, r=None, p=None, pw=None)
    i = 1

    def opt(name, arg):
        if name == "-f":
            o["f"] = True
        elif name == "-v":
            o["v"] = True
        elif name == "-P" or name == "--passphrase":
            if o["pw"]:
                raise Reject("two passphrase options")
            if name == "-P":
                o["pw"] = "dev:stdin-once"
            elif arg in ("dev:tty-stdin", "dev:stdin-once", "dev:tty-once") or arg.startswith("env:") or arg.startswith("file:"):
                o["pw"] = arg
            else:
                raise Reject("passphrase method")
        elif name == "--logN":
            o["logN"] = integer(arg, 10, 40)
        elif name == "-r":
            o["r"] = integer(arg, 1, 32)
        elif name == "-p":
            o["p"] = integer(arg, 1, 2048)
        elif name == "-M":
            o["M"] = size(arg)
            if o["M"] > szmax:
                raise Reject("size too large")
        elif name == "-m":
            o["m0"] = o.get("m0") or o["m"] == 0
            o["m"] = number(arg)
            if o["m"] == 0:
                return
            if not 0 < o["m"] <= 0.5:
                raise Reject("-m out of range")
        elif name == "-t":
            o["t"] = number(arg)

    while i < len(argv):
        a = argv[i]
        if a == "--":
            i += 1
            break
        if a.startswith("--"):
            n, eq, v = a.partition("=")
            if n in ("-" + "-" + k for k in ()):
                pass
            i += 1
            if n not in LONG:
                raise Reject("unknown option")
            if not eq:
                if i >= len(argv):
                    raise Reject("missing argument")
                v = argv[i]
                i += 1
            opt(n, v)
        elif a.startswith("-") and a != "-":
            i += 1
            k = 1
            while k < len(a):
                ch = a[k]
                k += 1
                if ch not in SHORT:
                    raise Reject("unknown option")
                if not SHORT[ch]:
                    opt("-" + ch, None)
                    continue
                if k < len(a):
                    v = a[k:]
                elif i < len(argv):
                    v = argv[i]
                    i += 1
                else:
                    raise Reject("missing argument")
                opt("-" + ch, v)
                break
        else:
            break
    if o["m"] == 0:
        raise Reject("-m out of range")
    if o.get("m0"):
        raise Unspecified  # zero, but replaced by a later value
    rest = argv[i:]
    if not 1 <= len(rest) <= 2:
        raise Reject("%d files" % len(rest))
    if len({o[k] is None for k in ("logN", "r", "p")}) > 1:
        raise Reject("incomplete explicit parameters")
    o["in"], o["out"] = rest[0], rest[1] if len(rest) > 1 else None
    o["pw"] = o["pw"] or "dev:tty-stdin"
    if o["pw"] == "dev:stdin-once" and o["in"] == "-":
        raise Reject("passphrase and input both from standard input")
    return o


GOODNUM = {"--logN": ["10", "12", "11", "40", "25"], "-r": ["1", "8", "32", "9"], "-p": ["1", "2048", "3", "100"],
           "-M": ["0", "1000000", "5MB", "64 MB", "1GB", "3 GB", "1E", "18446744073709551615", "18EB", "2000kB", "1048576B", "5000000 B", "7T", "1 P", "10 ", "33k", "9M"],
           "-m": ["0.5", ".25", "0.01", "1e-3", "0.3", "5e-1"], "-t": ["0", "0.25", "5", "60", "1e3", "inf", "2.", "300.0", ".01", "INFINITY", "1000000"]}
BADNUM = {"--logN": ["9", "41", "0", "-12", "4294967308", "18446744073709551628", "18446744073709551616", "-18446744073709551604", "-4294967284", "99999999999999999999999", "12x", "12 ", "1e1", "12.0", "", "x", "--", "-f", "1 2", "268"],
          "-r": ["0", "33", "-1", "4294967297", "18446744073709551617", "8x", "", "8.", "eight", "-18446744073709551608", "264"],
          "-p": ["0", "2049", "-1", "4294967297", "18446744073709551617", "1,", "", "1k", "-18446744073709551615", "65537"],
          "-M": ["", "k", "1K", "1 k B", "1Bk", "1kk", "1kBB", "-1", "1.5M", "1e6", "18446744073709551616", "18446744073709551616B", "19EB", "18446744073709552kB", "18447PB", "1 B", "1  B", " 1", "1\t", "0x10", "1MiB", "1Mb", "1m", "99999999999999999999999", "184467440737095516150", "1+1", "1kB ", "1 kB0", "36893488147419103233", "18446744073709551EB", "1\xa0B"],
          "-m": ["0", "0.0", "0.500001", "0.51", "1", "-0.1", "-1e-9", "nan", "-nan", "NAN(1)", "inf", "-inf", "0.5x", "", "5%", "0,5", "1e-3 ", ".", "0.5.1"],
          "-t": ["-1", "-0.001", "nan", "NaN", "-inf", "-nan", "5s", "", "1,5", "1 2", "five", "1e", "5x", "--"],
          "--passphrase": ["", "env", "file", "dev", "dev:", "dev:tty", "dev:stdin", "dev:tty-stdin ", "dev:tty-once:", "dev:stdin-onc", "ENV:VP", "envx:VP", "tty-stdin", "stdin-once", "pass", ":", "x:env:VP", "fil:pw", "env;VP", "dev:env:VP"]}


# passphrase sources that exist, with names meant to confuse; each delivers a different passphrase
PWENV = {"VP": "env pass", "VP2": "other env pass", "V": "short env pass", "a:b": "colon env pass", "b": "b env pass", "dev:tty-once": "dev env pass", "x y": "blank env pass", "%n%s": "percent env pass", "-P": "dash env pass", "file:pw": "file env pass"}
PWFILE = {"pw": "file pass", "p:w": "colon file pass", "w": "w file pass", "env:VP": "env file pass", "a b": "blank file pass", "-f": "dash file pass", "pw=1": "equal file pass", "%s%n": "percent file pass", "--": "dashes file pass"}
INFILES = ["in input", "%s%n%n%s", "=", "in=x", "c:in", "-in", "-f", "--", "--logN", "--logN=12", "-M", "\xff\xfe", "enc", "\\n", "in\n"]
OUTFILES = ["out put", "%s%s%s%n", "out=x", "c:out", "-out", "--out", "-P", "dec", "\u00e9"]


def mutate(rng, argv):
    """Damage one argument, or two neighbours."""
    argv = list(argv)
    i = rng.randrange(1, len(argv)) if len(argv) > 1 else 0
    a = argv[i]
    k = rng.randrange(9)
    j = rng.randrange(len(a) + 1)
    if k == 0:
        argv[i] = a[:j] + rng.choice(list("=- :0159.xfvMBke") + ["--", "="]) + a[j:]
    elif k == 1:
        argv[i] = a[:j] + a[j + 1:]
    elif k == 2 and i + 1 < len(argv):
        argv[i:i + 2] = [a + rng.choice([" ", "=", "", ":"]) + argv[i + 1]]
    elif k == 3:
        argv[i:i + 1] = [a[:j], a[j:]]
    elif k == 4:
        argv.insert(i, a)
    elif k == 5:
        del argv[i]
    elif k == 6 and i + 1 < len(argv):
        argv[i], argv[i + 1] = argv[i + 1], argv[i]
    elif k == 7 and "=" in a:
        argv[i] = a[:a.index("=") + 1]  # the value is gone ...
        if rng.random() < .6:
            argv.insert(i + 1, a[a.index("=") + 1:])  # ... or stands alone
    else:
        argv[i] = rng.choice([a.upper(), a.lower(), a[::-1], a + a, " " + a, a + " ", a + "\n", a + "="])
    return argv


def attach(rng, o, v):
    k = rng.randrange(3)
    if o.startswith("--"):
        return [o, v] if k == 0 else [o + "=" + v]
    return [o, v] if k == 0 or v == "" else [o + v]


def generate(rng, S):
    """A command line: (argv, kind)."""
    mode = rng.choice(["enc", "enc", "dec", "dec", "info"])
    opts = []
    kind = rng.choice(["valid"] * 5 + ["badvalue"] * 4 + ["structure"] * 4)
    for o in ("-M", "-m", "-t"):
        while rng.random() < .4:
            opts.append(attach(rng, o, rng.choice(GOODNUM[o])))
    if rng.random() < .4:
        ex = [attach(rng, o, rng.choice(GOODNUM[o])) for o in ("--logN", "-r", "-p") for _ in range(1 if rng.random() < .8 else 2)]
        opts += ex
    for o in ("-f", "-v"):
        while rng.random() < .35:
            opts.append([o])
    pw = rng.choice(["env:VP", "env:VP", "file:pw", "dev:stdin-once", "-P", "dev:tty-stdin", None, "env:" + rng.choice(list(PWENV)), "file:" + rng.choice(list(PWFILE))])
    infile = rng.choice(["in", "in", "-"] if rng.random() < .8 else INFILES)
    if pw in ("dev:stdin-once", "-P"):
        infile = "in" if infile == "-" else infile
    outfile = rng.choice([None, "out"] if rng.random() < .8 else OUTFILES) if mode != "info" else None
    if pw == "-P":
        opts.append(["-P"])
    elif pw:
        opts.append(attach(rng, "--passphrase", pw))
    rng.shuffle(opts)
    if kind == "badvalue":
        o = rng.choice(list(BADNUM))
        opts.insert(rng.randrange(len(opts) + 1), attach(rng, o, rng.choice(BADNUM[o])))
    # cluster some single letters
    if rng.random() < .4:
        i = 0
        while i + 1 < len(opts):
            a, b = opts[i], opts[i + 1]
            if len(a) == 1 and re.fullmatch("-[fvP]+", a[0]) and re.match("-[A-Za-z]", b[0]) and rng.random() < .7:
                opts[i:i + 2] = [[a[0] + b[0][1:]] + b[1:]]
            else:
                i += 1
    files = [infile] + ([outfile] if outfile else [])
    flat = [x for o in opts for x in o]
    argv = [mode] + flat + (["--"] if rng.random() < (.9 if files[0][0] == "-" != files[0] else .2) else []) + files
    if kind == "structure":
        k = rng.randrange(17)
        pos = rng.randrange(1, 1 + len(opts)) if opts else 1
        at = 1 + sum(len(o) for o in opts[:pos - 1])
        if k == 0:
            argv = argv[1:]
        elif k == 1:
            argv[0] = rng.choice(["encrypt", "ENC", "", "en", "enc ", "--enc", "-h", "help", "--version=1", "version", "-f"])
        elif k == 2:
            argv = [mode] + flat
        elif k == 3:
            argv += rng.choice([["out", "third"], ["a", "b", "c"], ["third", "", ""]])
        elif k == 4:
            argv.insert(at, rng.choice(["-x", "--foo", "--f", "--force", "-F", "-L", "--verbose", "--logn=12", "--logNN=12", "--log=12", "--passphras=env:VP", "--passphrases=env:VP", "--M=1", "--t=5", "-fx", "-vz", "---", "--=", "-:", "-?", "--r=8", "-fv-", "--version", "--f=1", "-f=", "-V"]))
        elif k == 5:
            argv = [mode] + flat + [rng.choice(["-M", "-t", "-m", "--logN", "-r", "-p", "--passphrase", "-fM", "-vt"])]
        elif k == 6:
            argv[1:1] = ["--passphrase", "env:VP"] + ([] if pw else ["-P"])
        elif k == 7:
            argv[1:1] = ["-P", "--passphrase=env:VP"]
        elif k == 8:
            argv[1:1] = attach(rng, *rng.choice([("--logN", "12"), ("-r", "8"), ("-p", "1")]))
        elif k == 9:
            argv = [mode, "-P"] + rng.choice([[], ["-t5"]]) + ["-"]
        elif k == 10:
            argv = [mode, "--passphrase", "dev:stdin-once", "-", "out"][:5 if mode != "info" else 4]
        elif k == 11:
            argv = [mode, "-t=5", "--passphrase=env:VP", "in"]
        elif k == 12:  # options after the operands are operands
            argv = [mode] + flat + ["in"] + rng.choice([["-f", "out"], ["-v", "-f"], ["--", "out"]])
        elif k == 13:
            argv = argv[:1]
        elif k == 14:
            argv = []
        elif k == 15:
            argv.insert(at, "--")
            argv.insert(at + 1, rng.choice(["-f", "-v", "-t5", "--logN"]))
        else:
            argv.insert(at, rng.choice(["--logN", "-r", "-p", "-t", "-m", "--passphrase"]))  # swallows what follows
    if rng.random() < .3:
        for _ in range(rng.choice([1, 1, 2])):
            argv = mutate(rng, argv) if argv else argv
        kind = "mutated"
    return argv, kind


def enumerated():
    """Every name one byte away from an option's, or short of it, with its value attached or not."""
    out = []
    byte = [os.fsdecode(bytes([k])) for k in range(1, 256)]
    for n, v in (("--logN", "12"), ("--passphrase", "env:VP")):
        forms = [n[:k] for k in range(1, len(n))]
        forms += [n + b for b in byte]
        forms += [n[:k] + b + n[k + 1:] for k in range(1, len(n)) for b in byte if b != n[k]]
        for f in forms:
            out.append([f + "=" + v])
        for f in forms[:len(n) - 1 + 255]:
            out += [[f + v], [f, v], [f]]
    for b in byte:
        out += [["-" + b], ["-" + b + "12"], ["-" + b, "12"], ["-f" + b], ["-v" + b + "5"]]
    return out


def main(c):
    c.rule = ("one evaluation = one command line run against the command on a simulated machine and compared with an independent model of the manual page: accepted "
              "lines must have exactly the effect of the options (parameters chosen or enforced, passphrase source, files, messages), rejected lines must end with status 1 "
              "and a message with nothing read from standard input, passphrase file or input and the output untouched; distinct = distinct command lines")
    exe = limits.simcli(c)
    exe32 = limits.simcli(c, True) if c.m32_ok() else None

    def avail(fd):
        return struct.unpack("i", fcntl.ioctl(fd, termios.FIONREAD, b"\0\0\0\0"))[0]

    def judge(rng, d, argv, kind, ram, us, exe=exe):
        pj = lambda x: os.path.join(d, x)
        S = 512 / (us * 1e-6)
        try:
            o, why = model(argv, 2**32 - 1 if exe == exe32 else 2**64 - 1), None
        except Reject as e:
            o, why = None, str(e)
        except Unspecified:
            c.ev("undocumented_lines_skipped")
            return
        desc = "scrypt %s" % " ".join(repr(x) if not x or re.search(r"[^\w./:=-]", x) else x for x in argv)
        rep = {"args": argv, "ram": ram, "us": us}
        env = dict(c.env, VS_RAM=str(ram), VS_US=str(us), VS_KDFLOG=pj("kdf"), **PWENV)
        for x in os.listdir(d):
            os.unlink(pj(x))
        c.case((tuple(argv), ram, us))
        data = rng.randbytes(rng.randrange(1, 60))
        if o is None:
            # everything readable is a pipe whose contents must still be there afterwards
            fifos = ["in", "pw"] + [x for x in INFILES + list(PWFILE) if any(a == x or a.endswith("file:" + x) for a in argv)]
            fifos = sorted(set(fifos) - {x for x in OUTFILES})
            for x in fifos:
                os.mkfifo(pj(x))
            fds = [os.open(pj(x), os.O_RDWR | os.O_NONBLOCK) for x in fifos]
            for fd in fds:
                os.write(fd, b"pass\n" * 40)
            rd, wr = os.pipe()
            os.write(wr, b"pass\n" * 40)
            os.close(wr)
            old = rng.random() < .5
            if old:
                open(pj("out"), "wb").write(b"precious")
            r = core.run([exe] + argv, env=env, cwd=d, stdin=rd, timeout=20)
            left = [avail(fd) for fd in fds + [rd]]
            for fd in fds + [rd]:
                os.close(fd)
            c.ev("rejected_lines")
            c.ev("rejected: " + why.split("(")[0])
            if r.timeout:
                c.viol("reject-hang", desc + " should be rejected (%s) but hangs" % why, rep)
            elif r.rc != 1:
                c.viol("reject-status:" + why, "%s should be rejected (%s): %s" % (desc, why, r.text()), rep)
            elif not r.err.strip():
                c.viol("reject-silent", desc + " is rejected without a message", rep)
            elif r.out:
                c.viol("reject-output", "%s is rejected but writes %r" % (desc, r.out[:100]), rep)
            if any(x != 200 for x in left) and not r.timeout:
                c.viol("reject-reads", "%s is rejected (%s) after reading from %s" % (desc, why, [n for n, l in zip(fifos + ["standard input"], left) if l != 200]), rep)
            have = {x: (open(pj(x), "rb").read() if x == "out" else None) for x in os.listdir(d) if x not in fifos + ["kdf"]}
            if have != ({"out": b"precious"} if old else {}):
                c.viol("reject-touches-output", "%s is rejected (%s) but leaves %s" % (desc, why, have), rep)
            if os.path.exists(pj("kdf")) and os.path.getsize(pj("kdf")):
                c.viol("reject-derives", desc + " is rejected after a key derivation", rep)
            return
        # accepted: what should happen?
        M, ops = limits.memlimit(ram, None, None, o["m"], o["M"], exe == exe32), S * o["t"]
        if limits.edge(M, ops) or (o["mode"] != "enc" and ops == 0):
            return
        pwm, _, pwn = o["pw"].partition(":")
        pwd = {"env": PWENV, "file": PWFILE, "dev": {"stdin-once": "stdin pass", "tty-stdin": "stdin pass"}}[pwm].get(pwn)
        used_names = [x for x in (o["in"], o["out"], pwn if pwm == "file" else None) if x is not None]
        if pwd is None or len(set(used_names)) < len(used_names) or any(not x or "/" in x or x in (".", "..", "kdf") for x in used_names):
            return
        pwd = pwd.encode()
        for x in PWFILE:
            if x not in (o["in"], o["out"]):
                open(pj(x), "wb").write(PWFILE[x].encode() + b"\n")
        have = set(os.listdir(d))
        L = r_ = p_ = None
        mode = o["mode"]
        stdin = b""
        if o["pw"] in ("dev:stdin-once", "dev:tty-stdin") and mode != "info":
            stdin = b"stdin pass\n" * (2 if mode == "enc" and o["pw"] == "dev:tty-stdin" else 1)
        if mode != "enc":
            # a file needing about as much as the limits allow, so that -M, -m, -t and -f matter
            r_ = rng.choice([1, 8, 3])
            L = max(1, min(45, (M // (128 * r_)).bit_length() - 1 + rng.choice([0, 0, 0, 1, 2])))
            want = rng.choice([.3, .8, 1.3, 3])
            p_ = max(1, min(1 << 20, int(min(ops, 1e30) * want / (4 * r_ << L))))
            f = limits.simencode(pwd, data, L, r_, p_, rng.randbytes(32))
            inp = f
            mem, cost = 128 * r_ << L, 4 * r_ * p_ << L
            if ops != math.inf and abs(cost / ops - 1) < 1e-6 or abs(mem / M - 1) < 1e-9:
                return
        else:
            inp = data
        if o["in"] == "-":
            stdin += inp
        else:
            open(pj("in"), "wb").write(inp)
            if o["in"] != "in":
                os.replace(pj("in"), pj(o["in"]))
        r = core.run([exe] + argv, env=env, cwd=d, input=stdin, timeout=30)
        c.ev("accepted_lines")
        c.ev("accepted_" + mode)
        if r.timeout:
            c.viol("accept-hang", desc, rep)
            return
        log = limits.kdflog(env)
        others = set(os.listdir(d)) - have - {o["in"], "kdf"} - ({o["out"]} if o["out"] else set())
        if others:
            c.viol("accept-stray", "%s creates %s" % (desc, sorted(others)), rep)
        out = r.out
        if o["out"] and mode != "info":
            try:
                out = open(pj(o["out"]), "rb").read()
            except OSError:
                out = None
            if r.out:
                c.viol("accept-stdout", desc + " writes to standard output as well", rep)
        if mode == "info":
            if r.rc != 0 or b"N = %d; r = %d; p = %d" % (1 << L, r_, p_) not in r.err or r.out or log:
                c.viol("accept-info", "%s: %s, key derivations %s" % (desc, r.text(), log), rep)
            return
        used = None
        if mode == "enc":
            ok = r.rc == 0 and out is not None and len(out) == len(data) + 128
            if ok:
                try:
                    ok = limits.simdecode(pwd, out) == data
                    used = fmt.params(out)
                except fmt.Bad:
                    ok = False
            if not ok:
                c.viol("accept-enc", "%s does not encrypt with the right passphrase: %s" % (desc, r.text()), rep)
                return
            expl = o["logN"] is not None
            want = (o["logN"], o["r"], o["p"]) if expl else limits.pick(M, ops)
            if used != want:
                c.viol("accept-params", "%s on %d bytes of memory and %g cores/s: logN, r, p = %s instead of %s" % (desc, ram, S, used, want), rep)
            c.ev("accepted_explicit" if expl else "accepted_limits")
            if expl:
                mem, cost = 128 * want[1] << want[0], 4 * want[1] * want[2] << want[0]
                if not (ops not in (0, math.inf) and abs(cost / ops - 1) < 1e-6 or abs(mem / M - 1) < 1e-9):
                    w = (b"might exceed memory" in r.err, b"might exceed time" in r.err)
                    if w != (not o["f"] and mem > M, not o["f"] and cost > ops):
                        c.viol("accept-warnings", "%s: %r" % (desc, r.err), rep)
        else:
            want = 0 if o["f"] else 15 if mem > M and cost > ops else 9 if mem > M else 10 if cost > ops else 0
            c.ev("accepted_dec_%d" % want)
            if want == 0 and (r.rc != 0 or out != data):
                c.viol("accept-dec", "%s of N=2^%d r=%d p=%d with limits %d, %g: %s" % (desc, L, r_, p_, M, ops, r.text()), rep)
            elif want and (r.rc != 1 or limits.REFUSE[want] not in r.err or out):
                c.viol("accept-dec-limit", "%s of N=2^%d r=%d p=%d with limits %d, %g should be refused: %s" % (desc, L, r_, p_, M, ops, r.text()), rep)
        if (b"Parameters used" in r.err) != o["v"]:
            c.viol("accept-verbose", "%s: -v is %s but the messages are %r" % (desc, o["v"], r.err), rep)
        c.ev("accepted_kind_" + kind)
        if kind == "valid":
            c.sample(desc)

    names = enumerated()

    def job(s):
        rng = random.Random("%s-c16-%d" % (c.seed, s))
        d = os.path.join(c.tmp, "w%d" % s)
        os.makedirs(d)
        pick = lambda: (rng.choice([1 << 24, 1 << 28, 1 << 31, 1 << 36]), rng.choice([10, 512, 1000, 50000]))
        for i in range(c.scale(1100, 20000)):
            ram, us = pick()
            argv, kind = generate(rng, 512 / (us * 1e-6))
            judge(rng, d, argv, kind, ram, us, exe32 if exe32 and i % 8 == 0 else exe)
        for opt in names[s::8]:
            argv = [rng.choice(["enc", "enc", "dec", "info"])] + rng.choice([[], ["-f"], ["-t2", "-v"]])
            for x in rng.sample([opt, ["--passphrase", "env:VP"]], 2) if "pass" not in opt[0] or rng.random() < .3 else [opt]:
                argv = argv + x
            c.ev("enumerated_names")
            judge(rng, d, argv + (["in"] if argv[0] == "info" else ["in", "out"]), "enumerated", *pick())

    def parse(s, san):
        e = c.link("h_parse_%s" % san, ["h_parse.c"], san=san)
        c.harness(e, [s, c.scale(300000, 8000000) // (4 if san else 1)], tag=san or "")
    c.par([lambda s=s: job(s) for s in range(8)] + [lambda: parse(1, None), lambda: parse(2, "asan")])

    r = core.run([exe, "--version"], env=c.env)
    if r.rc != 0 or not re.fullmatch(rb"scrypt \S+\n", r.out) or r.err:
        c.viol("version", r.text())
    c.case("--version")
    c.need("enumerated_names", 5000)
    for e, n in (("sizes_accepted", 50000), ("sizes_rejected", 50000), ("integers_rejected", 50000), ("rejected_lines", 2500), ("accepted_enc", 600), ("accepted_dec", 600), ("accepted_info", 200), ("accepted_explicit", 150), ("accepted_limits", 300), ("accepted_dec_9", 20), ("accepted_dec_10", 40),
                 ("rejected: negative", 30), ("rejected: out of range", 80), ("rejected: unknown option", 60), ("rejected: size too large", 20), ("rejected: missing argument", 20), ("rejected: two passphrase options", 30)):
        c.need(e, n)
    c.assumptions.append("numbers with leading white space, signs, hexadecimal or octal prefixes, and values not representable as a normal double are not documented and not judged")
