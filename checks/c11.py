from vlib import limits


def main(c):
    c.rule = ("one evaluation = one encryption without explicit parameters on a simulated machine (memory, resource limits, clock, speed) whose header, "
              "returned parameters and key derivation arguments were compared with the exact maximum the limits permit, or one speed measurement "
              "compared with the simulated speed; half of them with a limit exactly on, one below or one above a boundary; distinct = distinct "
              "(memory limit, CPU budget, result)")
    n = c.scale(30000, 400000)
    jobs = limits.harness_jobs(c, ["pick"], n, c.scale(5, 20)) + limits.harness_jobs(c, ["perf"], n // 10, 2, nommap=False)
    jobs += limits.cli_jobs(c, limits.cli_pick, c.scale(120, 3000))
    c.par(jobs)
    for e, k in (("choices", 50000), ("choices_memory_bound", 5000), ("choices_cpu_bound", 5000), ("choices_minimum_cpu", 500), ("choices_on_boundary", 10000),
                 ("choices_p_capped", 500), ("speed_measurements", 1000), ("cli_choices", 150)):
        c.need(e, k)
    c.assumptions.append("key derivation work is 4*N*r*p core operations of equal cost (the simulated clock advances by exactly that)")
