import os, re
from vlib import core


def main(c):
    c.rule = ("one evaluation = one comparison, hash, MAC, key derivation step, cipher stream or whole file operation executed under valgrind memcheck (or MemorySanitizer) with keys, passphrases, messages and MACs "
              "marked undefined: each branch or memory address depending on a secret is reported; distinct = distinct (operation, lengths, damage)")

    def vg(exe, args, tag, control=False):
        log = os.path.join(c.tmp, "vg-" + tag + "-" + str(args[-1]) + args[0])
        argv = ["valgrind", "--quiet", "--error-limit=no", "--track-origins=no", "--log-file=" + log, "--num-callers=12"]
        before = c.events.get("control_branch", 0)
        if control:
            r = core.run(argv + [exe] + [str(a) for a in args], timeout=120, env=dict(c.env, VERIF_SEED=str(c.seed)))
            if b"DONE" not in r.out:
                raise core.CheckError("control run: " + r.text())
        else:
            c.harness(exe, args, prefix=argv, tag=tag, timeout=700)
        t = open(log, errors="replace").read()
        reps = [b for b in re.split(r"==\d+== \n", t) if re.search(r"uninitialised", b)]
        if control:
            if not reps:
                raise core.CheckError("valgrind does not report a branch on a secret")
            c.ev("positive_controls")
            return
        c.ev("runs_under_valgrind")
        for b in reps:
            kind = "address" if "Use of uninit" in b else "branch" if "Conditional jump" in b else "other"
            m = re.findall(r"(?:at|by) 0x[0-9A-F]+: (\w+)(?: \(([^)]*)\))?", b)
            fn = next((x[0] for x in m if x[0] not in ("bcmp", "memcmp", "__memcmp_sse4_1") and not x[0].startswith("__wrap")), "?")
            c.viol("%s:%s" % (kind, fn), "%s: %s depends on a secret in %s: %s" % (tag, kind, fn, " < ".join("%s %s" % x for x in m[:6])), b[:3000])

    jobs = []
    W = ["crypto_scrypt", "crypto_verify_bytes"]
    for i, (variant, cc, opt) in enumerate([("full", "gcc", "-O2"), ("nosse2", "gcc", "-O2"), ("full", "clang", "-O2"), ("full", "gcc", "-O3"), ("soft", "gcc", "-O2"), ("full", "gcc", "-O0"), ("soft", "clang", "-O3"), ("full", "gcc", "-Os")]):
        def job(i=i, variant=variant, cc=cc, opt=opt):
            tag = "%s-%s%s" % (variant, cc, opt)
            exe = c.link("h_ct-" + tag, ["h_ct.c"], variant, cc=cc, opt=opt, wraps=W)
            if i == 0:
                vg(exe, ["control", i, 1], tag, True)
            vg(exe, ["run", i, c.scale(2, 40)], tag)
        jobs.append(job)

    def msan(variant):
        exe = c.link("h_ct-msan-" + variant, ["h_ct.c"], variant, san="msan", wraps=W, extra=("-fno-sanitize-memory-param-retval",), cflags=["-fno-sanitize-memory-param-retval"])
        r = core.run([exe, "control", "1", "1"], timeout=60, env=dict(c.env, VERIF_SEED="1"))
        if b"use-of-uninitialized-value" not in r.err:
            raise core.CheckError("MemorySanitizer does not report a branch on a secret: " + r.text())
        c.ev("positive_controls")
        c.harness(exe, ["run", 50, c.scale(20, 600)], tag="msan-" + variant, timeout=700)
        c.ev("runs_under_msan")
    for v in ("full", "soft", "noshani"):
        jobs.append(lambda v=v: msan(v))
    c.par(jobs)
    for e, n in (("comparisons", 2000), ("hashes", 1500), ("macs", 1500), ("derivations", 700), ("cipher_streams", 300), ("decisions", 50), ("keys_marked", 50), ("files_rejected", 20), ("positive_controls", 4),
                 ("results_depending_on_secrets", 5000)):
        c.need(e, n)
    c.assumptions.append("AES is judged with the AES-NI implementation; libcrypto's table-based AES and the data-dependent memory accesses of scrypt's mixing are outside the statement")
