from vlib import limits


def main(c):
    c.rule = ("one evaluation = one encryption with explicit parameters (or decryption with the file's) on a simulated machine, whose header, key "
              "derivation arguments, returned parameters and warnings were compared with what was asked and with exact arithmetic over the limits; "
              "distinct = distinct (parameters, warnings, force)")
    n = c.scale(30000, 400000)
    jobs = limits.harness_jobs(c, ["explicit", "dec"], n, c.scale(3, 12))
    jobs += limits.cli_jobs(c, limits.cli_explicit, c.scale(120, 2500))
    jobs += [lambda j=j: j() for j in _dec(c)]
    c.par(jobs)
    for e, k in (("explicit_used", 20000), ("explicit_over_memory", 5000), ("explicit_over_time", 5000), ("explicit_forced", 5000), ("memory_warnings", 2000),
                 ("time_warnings", 2000), ("explicit_refused", 1000), ("cli_explicit", 150), ("decisions_accept", 5000), ("cli_decisions", 50)):
        c.need(e, k)


def _dec(c):
    import os, random

    def job():
        d = os.path.join(c.tmp, "simdec")
        os.makedirs(d)
        limits.cli_dec(c, limits.simcli(c), random.Random("%s-c23d" % c.seed), d, c.scale(150, 2500))
    return [job]
