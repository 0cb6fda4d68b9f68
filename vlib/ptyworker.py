"""Session leader on a pseudo-terminal: runs scrypt in the foreground, presses keys and
sends signals, and checks the terminal settings and wait status (C18).
usage: ptyworker EXE DIR SEED N MODE;  writes one JSON object per line."""
import fcntl, json, os, pty, random, select, signal, sys, termios, time

BAD = [signal.SIGALRM, signal.SIGHUP, signal.SIGINT, signal.SIGPIPE, signal.SIGQUIT, signal.SIGTERM, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU]
STOP = (signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU)
EXE, DIR, SEED, N, MODE = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5]
rng = random.Random(SEED)
ev = {}


def say(**k):
    print(json.dumps(k), flush=True)


def tick(name, n=1):
    ev[name] = ev.get(name, 0) + n


os.setsid()
M, S = pty.openpty()
fcntl.ioctl(S, termios.TIOCSCTTY, 0)
os.set_blocking(M, False)
signal.signal(signal.SIGTTOU, signal.SIG_IGN)
signal.signal(signal.SIGHUP, signal.SIG_IGN)
ORIG = termios.tcgetattr(S)


def randterm():
    a = termios.tcgetattr(S)
    for i in range(6):
        a[i] = ORIG[i]
    a[6] = list(ORIG[6])
    L = [termios.ECHONL, termios.ECHOE, termios.ECHOK, termios.ECHOCTL, termios.ECHOKE, termios.IEXTEN, termios.NOFLSH, termios.TOSTOP]
    for f in L:
        if rng.random() < .3:
            a[3] ^= f
    if rng.random() < .12:
        a[3] &= ~termios.ECHO
    if rng.random() < .2:
        a[3] &= ~termios.ISIG
    if rng.random() < .15:
        a[3] &= ~termios.ICANON
        a[6][termios.VMIN], a[6][termios.VTIME] = 1, rng.randrange(3)
    for f in (termios.IXANY, termios.IMAXBEL, termios.INPCK, termios.PARMRK):
        if rng.random() < .2:
            a[0] ^= f
    if rng.random() < .2:
        a[1] ^= rng.choice([termios.ONLCR, termios.OPOST, termios.ONOCR])
    if rng.random() < .3:
        a[6][termios.VERASE] = rng.choice([b"\x08", b"\x7f"])
        a[6][termios.VINTR] = rng.choice([b"\x03", b"\x07"])
    termios.tcsetattr(S, termios.TCSANOW, a)
    return norm()


def norm():
    return json.loads(json.dumps([x if not isinstance(x, list) else [y if isinstance(y, int) else y[0] for y in x] for x in termios.tcgetattr(S)]))


def screen():
    out = b""
    try:
        while True:
            b = os.read(M, 65536)
            if not b:
                break
            out += b
    except OSError:
        pass
    return out


def difft(a, b):
    names = ["iflag", "oflag", "cflag", "lflag", "ispeed", "ospeed", "cc"]
    return ", ".join("%s %s instead of %s" % (n, x, y) for n, x, y in zip(names, a, b) if x != y)


class Kid:
    def __init__(self, argv, env, ignored, fg=True, stdin_tty=False, data=b""):
        self.err = b""
        self.shown = b""
        self.er, ew = os.pipe()
        ir, iw = os.pipe()
        self.st = None
        gate_r, gate_w = os.pipe()
        xr, xw = os.pipe()
        os.dup2(xw, 200, inheritable=False)
        os.close(xw)
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setpgid(0, 0)
                if fg:
                    os.tcsetpgrp(S, os.getpid())
                os.close(gate_w)
                os.read(gate_r, 1)
                for s in BAD:
                    signal.signal(s, signal.SIG_IGN if s in ignored else signal.SIG_DFL)
                os.dup2(S if stdin_tty else ir, 0)
                o = os.open(os.path.join(DIR, "stdout"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(o, 1)
                os.dup2(ew, 2)
                os.closerange(3, 64)
                os.chdir(DIR)
                os.execve(argv[0], argv, env)
            finally:
                os._exit(99)
        os.close(gate_r)
        try:
            os.setpgid(self.pid, self.pid)
        except OSError:
            pass
        if not fg:
            os.tcsetpgrp(S, os.getpgrp())
        else:
            try:
                os.tcsetpgrp(S, self.pid)
            except OSError:
                pass
        os.close(200)
        os.close(gate_w)
        os.close(ew)
        os.close(ir)
        os.read(xr, 1)  # until exec
        os.close(xr)
        if data and not stdin_tty:
            os.write(iw, data)
        os.close(iw)
        os.set_blocking(self.er, False)

    def reap(self, wait=0.0):
        """the wait status if it died or stopped within the time"""
        end = time.monotonic() + wait
        pause = 0.0005
        while self.st is None:
            p, st = os.waitpid(self.pid, os.WNOHANG | os.WUNTRACED)
            if p:
                self.st = st
                self.readerr()
                return st
            self.readerr()
            if time.monotonic() >= end:
                return None
            time.sleep(pause)
            pause = min(pause * 1.3, .01)
        return self.st

    def readerr(self):
        self.shown += screen()
        try:
            while True:
                b = os.read(self.er, 65536)
                if not b:
                    break
                self.err += b
        except OSError:
            pass

    def asleep(self):
        try:
            with open("/proc/%d/stat" % self.pid) as f:
                return f.read().rsplit(")", 1)[1].split()[0] == "S"
        except OSError:
            return False

    def prompt(self, n, limit=5.0):
        """wait until n prompts have been shown and the process waits"""
        end = time.monotonic() + limit
        while time.monotonic() < end:
            if self.reap(0) is not None:
                return False
            if self.err.count(b"passphrase: ") >= n:
                k = 0
                while k < 2 and time.monotonic() < end:
                    if self.asleep():
                        k += 1
                    else:
                        k = 0
                    if self.reap(0) is not None:
                        return False
                    time.sleep(.0008)
                return k == 2
            time.sleep(.0005)
        return False

    def end(self):
        if self.st is None or os.WIFSTOPPED(self.st):
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            while True:
                p, st = os.waitpid(self.pid, 0)
                if os.WIFEXITED(st) or os.WIFSIGNALED(st):
                    break
        os.close(self.er)


def stname(st):
    if st is None:
        return "still running"
    if os.WIFSTOPPED(st):
        return "stopped by %d" % os.WSTOPSIG(st)
    if os.WIFSIGNALED(st):
        return "killed by %d" % os.WTERMSIG(st)
    return "exit status %d" % os.WEXITSTATUS(st)


def one(i):
    T0 = time.monotonic()
    PW = "Geheim%05d" % rng.randrange(100000)
    method = rng.choice(["tty-once", "tty-once", "default", "default", "stdin-tty"])
    enc = rng.random() < .6
    two = enc and method == "default"
    for f in ("log", "out"):
        p = os.path.join(DIR, f)
        if os.path.exists(p):
            os.unlink(p)
    args = {"tty-once": ["--passphrase", "dev:tty-once"], "default": [], "stdin-tty": rng.choice([["-P"], ["--passphrase", "dev:stdin-once"]])}[method]
    argv = [EXE] + (["enc", "--logN", "10", "-r", "1", "-p", "1"] if enc else ["dec"]) + args + [os.path.join(DIR, "plain" if enc else "crypt"), os.path.join(DIR, "out")]
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "VT_LOG": os.path.join(DIR, "log")}
    ignored = [s for s in BAD if rng.random() < .5] if rng.random() < .35 else []
    kind = {"inject": "inject", "fault": "fault"}.get(MODE) or rng.choice(["accept", "mistype", "eof", "signal", "signal", "signal", "random", "random", "char", "two", "hold", "background"])
    sig = rng.choice(BAD)
    if kind == "inject":
        env["VT_SIG"], env["VT_AT"], env["VT_WHEN"] = str(int(sig)), str(1 + (i * 7 + rng.randrange(3)) % rng.choice([45, 70, 70])), str(rng.randrange(2))
    again = [rng.choice([sig, sig, rng.choice(BAD)])] if kind == "inject" and rng.random() < .6 else []
    if kind == "fault":
        fn = rng.choice(["tcgetattr:1", "tcsetattr:1", "fgets:1", "fgets:2", "strdup:1", "strdup:2", "fopen:1", "fclose:1"])
        env["VT_FAIL"] = fn
    if kind == "hold":
        env["VT_HOLD"] = "1"
    tcflush()
    screen()
    before = randterm()
    canon = bool(before[3] & termios.ICANON)
    isig = bool(before[3] & termios.ISIG)
    lines = []  # what to type, one per prompt
    if kind == "mistype" and two:
        for _ in range(rng.choice([1, 1, 2])):
            lines += [PW, "Falsch%05d" % rng.randrange(100000)]
    lines += [PW] * (2 if two else 1)
    cut = rng.randrange(len(lines)) if kind in ("eof", "signal", "char", "two") else None
    if two and kind in ("signal", "char", "two", "eof") and rng.random() < .3:
        lines = [PW, "Falsch%05d" % rng.randrange(100000)] + lines
        cut = rng.randrange(len(lines))
    if kind == "char" and not isig or kind == "eof" and not canon:
        kind = "signal"
    if kind == "char":
        sig = rng.choice([signal.SIGINT, signal.SIGQUIT, signal.SIGTSTP])
    sigs = [sig]
    if kind == "two":
        sigs = [sig, rng.choice(BAD)]
    what = "%s %s, %s" % ("enc" if enc else "dec", method, kind)
    if kind not in ("accept", "mistype", "eof", "fault", "background"):
        what += " " + "+".join(signal.Signals(s).name for s in sigs)
    if cut is not None:
        what += " at question %d" % (cut + 1)
    if kind == "inject":
        what += " at call %s (%s)" % (env["VT_AT"], env["VT_WHEN"])
    if kind == "fault":
        what += " " + env["VT_FAIL"]
    if ignored:
        what += ", ignoring " + " ".join(s.name for s in ignored)
    viols = []

    def viol(key, msg):
        viols.append((key, what + ": " + msg + " (stderr %r)" % k.err[-200:]))

    def same(when):
        now = norm()
        if now != before:
            viol("terminal-" + when.split()[0], "terminal settings not restored %s: %s" % (when, difft(now, before)))
        else:
            tick("restored_" + when.split()[0])
    k = Kid(argv, env, ignored, fg=kind != "background", stdin_tty=method == "stdin-tty")
    typed = []
    status = None
    sent = []
    when = {}

    def send(s):
        sent.append(s)
        if k.st is None or os.WIFSTOPPED(k.st):
            os.kill(k.pid, s)
            when[s] = time.monotonic_ns()

    def typing(text):
        typed.append(text)
        b = text.encode()
        while b:
            try:
                b = b[os.write(M, b):]
            except BlockingIOError:
                time.sleep(.001)

    if kind == "random":
        time.sleep(rng.random() * rng.choice([.001, .002, .004, .008]))
        send(sig)
    elif kind == "background":
        time.sleep(.002)
    q = 0
    over = False
    while not over:
        if kind == "background":
            break
        if q >= len(lines):
            break
        up = k.prompt(q + 1, 5 if kind not in ("inject", "random", "fault") else 1.5)
        if not up:
            break
        now = norm()
        if kind not in ("fault",):
            if now[3] & termios.ECHO:
                viol("echo-on", "echo is on while waiting at question %d" % (q + 1))
            else:
                tick("echo_off_at_prompt")
        if kind in ("signal", "char", "two") and q == cut:
            part = rng.choice(["", "Teil%04d" % rng.randrange(1000)])
            if part:
                typing(part)
                if rng.random() < .7:
                    time.sleep(.003)
            if kind == "char":
                sent.append(sig)
                os.write(M, bytes([now[6][{signal.SIGINT: termios.VINTR, signal.SIGQUIT: termios.VQUIT, signal.SIGTSTP: termios.VSUSP}[sig]]]))
            else:
                for s in sigs:
                    send(s)
            st = k.reap(.02 if any(s in ignored for s in sigs) else .4)
            over = True
            status = st
            if st is None and part:
                # not interrupted: finish the line that was begun
                typing("\n")
            break
        if again and os.path.exists(os.path.join(DIR, "log")) and "INJECT" in open(os.path.join(DIR, "log")).read():
            # a second signal while it waits with the first one held
            send(again[0])
            what += ", then %s at question %d" % (again[0].name, q + 1)
            tick("signals_again")
            again = []
            status = k.reap(.02 if sent[0] in ignored else .4)
            break
        if kind == "eof" and q == cut:
            os.write(M, b"\x04")
            status = k.reap(5)
            break
        typing(lines[q] + "\n")
        q += 1
    stopped = None
    if kind == "background":
        status = k.reap(3)
        if status is not None and os.WIFSTOPPED(status):
            tick("background_stops")
            same("stopped in the background")
            if os.WSTOPSIG(status) not in (signal.SIGTTOU, signal.SIGTTIN):
                viol("background", stname(status))
        elif status is None:
            viol("background", "does not stop nor exit in the background")
        elif not os.WIFEXITED(status) or os.WEXITSTATUS(status) != 1:
            viol("background", stname(status))
        else:
            same("exited")
        k.shown += screen()
    else:
        if status is None:
            status = k.reap(.05 if kind == "hold" else 3)
        if kind == "hold":
            t0 = time.monotonic()
            while time.monotonic() - t0 < 3 and k.st is None:
                if os.path.exists(os.path.join(DIR, "log")) and "HELD" in open(os.path.join(DIR, "log")).read():
                    same("during the key derivation")
                    tick("held")
                    send(sig)
                    status = k.reap(.05 if sig in ignored else 3)
                    break
                k.reap(.01)
        # answer whatever else is asked until it ends
        t0 = time.monotonic()
        n = 0
        while time.monotonic() - t0 < 6:
            if status is not None and os.WIFSTOPPED(status):
                stopped = os.WSTOPSIG(status)
                same("stopped")
                tick("stopped_by_signal")
                os.tcsetpgrp(S, k.pid)
                os.kill(k.pid, signal.SIGCONT)
                k.st = None
                status = None
                if kind == "hold":
                    break
                continue
            if status is not None:
                break
            if kind == "hold":
                break
            status = k.reap(.03)
            if status is None and n < 12 and k.asleep():
                if norm()[3] & termios.ECHO and b"passphrase: " in k.err and kind != "fault":
                    # echo must be off if it still asks
                    if k.reap(.05) is None and k.asleep():
                        pass
                typed.append(PW)
                os.write(M, PW.encode() + b"\n")
                n += 1
        if status is None and kind != "hold":
            viol("hang", "does not end")
        k.shown += screen()
        if status is not None and (os.WIFEXITED(status) or os.WIFSIGNALED(status)):
            same("exited" if os.WIFEXITED(status) else "killed")
        log = open(os.path.join(DIR, "log")).read() if os.path.exists(os.path.join(DIR, "log")) else ""
        injected = "INJECT" in log
        if kind == "inject" and injected:
            sent.append(sig)
            tick("injected")
        # signals sent when it was already exiting prove nothing
        ends = [int(l.split()[1]) for l in log.splitlines() if l.startswith("END ")]
        if ends and kind in ("two", "signal"):
            for s in list(sent):
                if s in when and when[s] >= ends[0]:
                    sent.remove(s)
                    tick("sent_too_late")
        fatal = [s for s in sent if s not in ignored and s not in STOP]
        stops = [s for s in sent if s not in ignored and s in STOP]
        if kind == "hold" and status is None and k.st is None:
            pass
        if fatal and status is not None:
            if not (os.WIFSIGNALED(status) and os.WTERMSIG(status) in fatal):
                viol("signal-lost", "after %s: %s" % (" ".join(s.name for s in fatal), stname(status)))
            else:
                tick("killed_by_" + signal.Signals(os.WTERMSIG(status)).name)
        elif fatal and kind == "hold":
            viol("signal-lost", "after %s during the key derivation: still running" % " ".join(s.name for s in fatal))
        if stops and not fatal and not stopped:
            viol("signal-lost", "after %s: never stopped, %s" % (" ".join(s.name for s in stops), stname(status)))
        if stops and not fatal and stopped and stopped not in [int(s) for s in stops]:
            viol("wrong-stop", "stopped by %d instead of %s" % (stopped, stops))
        if not fatal and status is not None and os.WIFSIGNALED(status):
            viol("killed", stname(status))
        if not stops and stopped:
            viol("stopped", "stopped by %d" % stopped)
        if [s for s in sent if s in ignored] and not viols:
            tick("ignored_signals")
        if not sent and kind in ("accept", "mistype") and (status is None or not os.WIFEXITED(status) or os.WEXITSTATUS(status) != (0 if enc else 1)):
            viol("entry-fails", stname(status))
        if kind == "eof" and status is not None and not (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 1):
            viol("eof", stname(status))
        if kind == "fault" and "FAILED" in log and env["VT_FAIL"] not in ("isatty:1", "fclose:1"):
            if status is not None and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0 and "tc" in env["VT_FAIL"]:
                viol("fault-ignored", "succeeds although the terminal could not be set up")
            tick("faults")
        for l in log.splitlines():
            f = l.split()
            if f[:2] == ["KDF", "sig"] or f[:2] == ["EXIT", "sig"]:
                want = "ignored" if int(f[2]) in ignored else "default"
                if f[3:] != [want]:
                    viol("disposition-" + f[0], "signal %s has disposition %s instead of %s at %s" % (f[2], " ".join(f[3:]), want, {"KDF": "the key derivation", "EXIT": "exit"}[f[0]]))
                else:
                    tick("dispositions_" + f[0])
            if f[0] == "INJECT":
                tick("injected %s %s" % (f[2], f[3]))
        if [l for l in log.splitlines() if l.startswith("COUNT")] and not sent:
            tick("calls", 0)
            ev["calls"] = max(ev["calls"], int(log.split("COUNT ")[1].split()[0]))
    shown = k.shown
    # echo off while it asks: nothing typed after the first question may be on the screen
    if kind not in ("fault",) and not (before[3] & termios.ECHO == 0):
        for t in typed:
            t = t.strip()
            if t and t.encode() in shown and not (k.err.count(b"passphrase: ") == 0) and t != PW or t == PW and shown.count(PW.encode()) and kind in ("accept", "mistype", "hold"):
                viol("shown", "%r appears on the terminal: %r" % (t, shown[-200:]))
                break
        else:
            tick("screens_checked")
    k.end()
    tick("kind_" + kind)
    tick("runs")
    if os.environ.get("PTYPROF"):
        say(t="%.2f %s %s typed %s" % (time.monotonic() - T0, what, before, typed), log=k.err.decode())
    say(case=[method, enc, kind, [int(s) for s in sent], cut, [int(s) for s in ignored], before[3], env.get("VT_AT"), env.get("VT_WHEN"), env.get("VT_FAIL")], sample=what + ": " + stname(status))
    for key, msg in viols:
        say(viol=key, msg=msg, env={x: y for x, y in env.items() if x.startswith("VT_") and x != "VT_LOG"}, argv=argv[1:])


def tcflush():
    termios.tcflush(S, termios.TCIOFLUSH)


for i in range(N):
    one(i)
say(ev=ev, done=1)
