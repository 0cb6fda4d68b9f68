from vlib import limits


def main(c):
    c.rule = ("one evaluation = one decryption on a simulated machine whose outcome was compared with exact arithmetic over file parameters, memory limit "
              "and CPU budget, with the key derivations observed counted; two thirds have a limit exactly on or next to the need of the file; forced "
              "runs also have every clock and memory query fail; distinct = distinct (parameters, limits, outcome)")
    n = c.scale(30000, 400000)
    jobs = limits.harness_jobs(c, ["dec"], n, c.scale(5, 20)) + limits.harness_jobs(c, ["perf"], n // 30, 1, nommap=False, asan=False)
    jobs += limits.cli_jobs(c, limits.cli_dec, c.scale(150, 3000))
    c.par(jobs)
    for e, k in (("decisions_toobig", 5000), ("decisions_tooslow", 5000), ("decisions_bigslow", 5000), ("decisions_accept", 10000), ("decisions_forced", 5000),
                 ("decisions_invalid", 3000), ("decisions_on_boundary", 20000), ("cli_decisions", 200), ("cli_decision_0", 30), ("cli_decision_9", 10), ("cli_decision_10", 10), ("cli_decision_15", 10)):
        c.need(e, k)
    c.assumptions.append("key derivation work is 4*N*r*p core operations of equal cost (the simulated clock advances by exactly that)")
