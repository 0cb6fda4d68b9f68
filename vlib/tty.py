"""Running a command with a controlling terminal of its own (a pseudo-terminal)."""
import fcntl, os, pty, signal, subprocess, termios, threading, time


class R:
    pass


def run(argv, feed, env=None, cwd=None, stdin=b"", canonical=True, stdin_tty=False, timeout=30):
    m, s = pty.openpty()
    a = termios.tcgetattr(s)
    if not canonical:
        a[3] &= ~(termios.ICANON | termios.ISIG | termios.IEXTEN)
        a[0] &= ~(termios.ICRNL | termios.IXON | termios.INLCR | termios.IGNCR | termios.ISTRIP)
        a[6][termios.VMIN], a[6][termios.VTIME] = 1, 0
        termios.tcsetattr(s, termios.TCSANOW, a)

    def pre():
        fcntl.ioctl(s, termios.TIOCSCTTY, 0)
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
    p = subprocess.Popen(argv, stdin=s if stdin_tty else subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         preexec_fn=pre, start_new_session=True)
    screen = []

    def drain():
        while True:
            try:
                b = os.read(m, 65536)
            except OSError:
                return
            if not b:
                return
            screen.append(b)
    t = threading.Thread(target=drain, daemon=True)
    t.start()

    def feeder():
        b = feed
        try:
            while b:
                k = os.write(m, b[:512])
                b = b[k:]
                time.sleep(0.001)
        except OSError:
            pass
    ft = threading.Thread(target=feeder, daemon=True)
    ft.start()
    r = R()
    r.timeout = False
    try:
        r.out, r.err = p.communicate(None if stdin_tty else stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        p.kill()
        r.out, r.err = p.communicate()
    r.rc = p.returncode
    ft.join(2)
    os.close(s)
    t.join(2)
    os.close(m)
    r.screen = b"".join(screen)
    r.text = lambda: "rc=%s%s stderr=%r" % (r.rc, " TIMEOUT" if r.timeout else "", r.err[-500:])
    return r
