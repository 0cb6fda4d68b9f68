LEVEL = "exploration"


def main(c):
    c.rule = ("one evaluation = one burst of threads (3..24) doing random operations of ten kinds on their own data after warm-up, or one "
              "fresh process whose first derivations/hashes start together; every result compared with a single-threaded oracle, and (after "
              "warm-up) ThreadSanitizer watching all accesses; distinct by burst")
    jobs = []
    tenv = {"TSAN_OPTIONS": "exitcode=98:halt_on_error=0:report_thread_leaks=0:report_signal_unsafe=0"}

    def j(v, san, mode, th, rounds, s, n=0):
        ref = v == "ref"
        exe = c.link("h_conc_%s_%s" % (v, san), ["h_conc.c"], "full" if ref else v, san=san, ref=ref)
        c.harness(exe, [mode, th, rounds, s, n], tag="%s-%s-%s" % (v, san, mode), timeout=700, env=tenv)
    for v in ("full", "noshani", "nosse2", "soft", "ref", "nomemalign") + (("arm",) if c.arm_ok() else ()) + (("m32",) if c.m32_ok() else ()):
        for i, th in enumerate((3, 8) if not c.thorough else (2, 3, 8, 24)):
            if v == "m32":
                continue
            jobs.append(lambda v=v, th=th, i=i: j(v, "tsan", "warm", th, c.scale(150, 1500) * 3 // th, i))
        jobs.append(lambda v=v: j(v, None, "warm", 16, c.scale(300, 4000), 5))
        jobs.append(lambda v=v: j(v, None, "cold", 8, 3, 6, c.scale(150, 3000)))
        jobs.append(lambda v=v: j(v, None, "cold", 3, 3, 7, c.scale(100, 2000)))
    c.par(jobs, 4)
    c.need("op_kdf", 500)
    c.need("cold_processes", 500)
    c.need("op_pairs_seen_overlapping", 300)
