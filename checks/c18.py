import json, os, subprocess, sys, time
from vlib import fmt

WRAPS = ["sigaction", "isatty", "tcgetattr", "tcsetattr", "fgets", "fopen", "fclose", "strdup", "strcspn", "strcmp", "raise", "fprintf", "crypto_scrypt"]


def main(c):
    c.rule = ("one evaluation = one run of scrypt in the foreground (or background) of a pseudo-terminal with random settings, in which passphrases are typed, mistyped or ended, and a signal is "
              "delivered at a prompt, at a random moment, at a call made during entry, by a control character or during the key derivation; the terminal settings are read while it waits, stops and "
              "after it ended, and the wait status and signal dispositions compared with what each signal's own effect should be; distinct = distinct (method, event, place, dispositions, terminal mode)")
    exe = c.cli(srcs=["h_ttyshim.c"], wraps=WRAPS, name="scrypt-tty")
    worker = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "ptyworker.py")

    def job(s, mode, n):
        d = os.path.join(c.tmp, "t%d" % s)
        os.makedirs(d)
        open(os.path.join(d, "plain"), "wb").write(b"some text\n")
        open(os.path.join(d, "crypt"), "wb").write(fmt.encode(b"another passphrase", b"some text\n", 10, 1, 1, b"s" * 32))
        p = subprocess.Popen([sys.executable, "-I", worker, exe, d, "%s-c18-%d" % (c.seed, s), str(n), mode], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            out, err = p.communicate(timeout=c.scale(300, 820))
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        done = False
        for l in out.splitlines():
            o = json.loads(l)
            if "case" in o:
                c.case(tuple(map(str, o["case"])))
                c.sample(o["sample"])
            if "viol" in o:
                c.viol(o["viol"], o["msg"], {"argv": o["argv"], "env": o["env"], "seed": "%s-c18-%d" % (c.seed, s)})
            if o.get("done"):
                done = True
                for k, v in o["ev"].items():
                    c.ev(k, v) if k != "calls" else c.ev("calls_interposed_max", max(0, v - c.events.get("calls_interposed_max", 0)))
        if not done:
            from vlib.core import CheckError
            raise CheckError("terminal driver did not finish: " + err[-800:])
    jobs = []
    for s in range(4):
        jobs.append(lambda s=s: job(s, "mix", c.scale(420, 9000)))
    for s in range(4, 7):
        jobs.append(lambda s=s: job(s, "inject", c.scale(420, 9000)))
    jobs.append(lambda: job(7, "fault", c.scale(120, 2000)))
    c.par(jobs)
    for e, n in (("runs", 1500), ("echo_off_at_prompt", 1000), ("restored_exited", 200), ("restored_killed", 300), ("restored_stopped", 100), ("ignored_signals", 30), ("held", 20), ("dispositions_KDF", 500), ("injected", 300), ("background_stops", 20), ("signals_again", 60)):
        c.need(e, n)
