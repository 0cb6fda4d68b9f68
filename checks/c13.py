import ctypes, os, random, re, resource
from vlib import limits, core


def human(n):
    """Independent reimplementation of the documented display: SI, rounded down, 2 significant digits below 10."""
    if n < 1000:
        return "%d B" % n
    k = 0
    m = n
    while m >= 10**6:
        m //= 1000
        k += 1
    p = " kMGTPE"[k + 1]
    if m >= 10000:
        return "%d %sB" % (m // 1000, p)
    m //= 100
    return "%d.%d %sB" % (m // 10, m % 10, p)


def main(c):
    c.rule = ("one evaluation = one computation of the memory limit on a simulated machine (memory, units, resource limits, sysconf, failing queries) "
              "compared with exact arithmetic, or one real process under real resource limits whose displayed limit was compared; distinct = distinct "
              "(machine, fraction, maximum)")
    n = c.scale(40000, 500000)
    jobs = limits.harness_jobs(c, ["mem"], n, c.scale(4, 16))
    jobs += limits.cli_jobs(c, limits.cli_pick, c.scale(80, 1500), 2)
    cli = c.cli()

    class SI(ctypes.Structure):
        _fields_ = [("uptime", ctypes.c_long), ("loads", ctypes.c_ulong * 3), ("totalram", ctypes.c_ulong), ("freeram", ctypes.c_ulong),
                    ("shared", ctypes.c_ulong), ("buffer", ctypes.c_ulong), ("totalswap", ctypes.c_ulong), ("freeswap", ctypes.c_ulong),
                    ("procs", ctypes.c_ushort), ("totalhigh", ctypes.c_ulong), ("freehigh", ctypes.c_ulong), ("unit", ctypes.c_uint), ("pad", ctypes.c_char * 64)]

    def real():
        rng = random.Random("%s-c13" % c.seed)
        si = SI()
        if ctypes.CDLL(None).sysinfo(ctypes.byref(si)) != 0:
            return
        ram = min(si.totalram * si.unit, os.sysconf("SC_PHYS_PAGES") * os.sysconf("SC_PAGE_SIZE"))
        inf = resource.RLIM_INFINITY
        for i in range(c.scale(120, 1500)):
            as_, rss, data = (rng.choice([inf, rng.randrange(1 << 28, 1 << 35)]), rng.choice([inf, inf, rng.randrange(1 << 35), 0]), rng.choice([inf, rng.randrange(1 << 28, 1 << 33)]))
            frac = rng.choice([0.5, 0.25, 0.125, 0.0625, 0.01])
            maxmem = rng.choice([0, 0, rng.randrange(1, 1 << 32)])

            def pre():
                for w, v in ((resource.RLIMIT_AS, as_), (resource.RLIMIT_RSS, rss), (resource.RLIMIT_DATA, data)):
                    if v != inf:
                        resource.setrlimit(w, (v, resource.getrlimit(w)[1]))
            r = core.run([cli, "enc", "-v", "-t", "0", "-m", repr(frac), "-M", str(maxmem), "--logN", "10", "-r", "1", "-p", "1", "--passphrase", "env:VP", "-"], env=dict(c.env, VP="x"), preexec=pre)
            a = int(frac * min(x for x in (ram, as_, rss) if x != inf))
            if maxmem:
                a = min(a, maxmem)
            a = max(a, 1 << 20)
            m = re.search(rb"\(([^)]*) available\)", r.err)
            c.case((as_, rss, data, frac, maxmem))
            c.ev("real_limits")
            if r.rc != 0 or not m:
                c.viol("real-failed", r.text())
            elif m.group(1).decode() != human(a):
                c.viol("real-limit", "memory %d, RLIMIT_AS %d, RLIMIT_RSS %d, fraction %g, maximum %d: %s available instead of %s (%d)" % (ram, as_, rss, frac, maxmem, m.group(1).decode(), human(a), a))
    jobs.append(real)
    c.par(jobs)
    for e, k in (("limits_compared", 50000), ("query_failures", 5000), ("limit_at_minimum", 1000), ("limit_by_maximum", 500), ("limit_by_AS", 300), ("limit_by_RSS", 300), ("limit_by_DATA", 50),
                 ("limit_by_ram", 500), ("limit_by_sysconf", 500), ("cli_choices", 50)):
        c.need(e, k)
