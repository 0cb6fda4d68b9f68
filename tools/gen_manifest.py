#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("differential monitor: guarded buffers + independent RFC 7914 oracle over 8 build variants, ASan/UBSan", "exploration",
         "Every executed call is compared byte for byte; assurance is for the explored parameters, all x86 implementations, and the ARM ones on simulated instructions."),
 "C02": ("fault-injecting allocator monitor + guarded buffers over a boundary parameter grid", "fault_enumeration", "All boundary parameters and every allocation-failure position; large sizes judged through errno with refused allocations."),
 "C03": ("differential monitor against OpenSSL over chunkings, alignments, contexts and implementations", "exploration", "Every digest compared; includes totals beyond 2^32 bytes."),
 "C04": ("differential monitor against OpenSSL AES-CTR over chunkings and stream positions", "exploration", "Every byte compared, AES-NI and generic."),
 "C05": ("output monitor: independent FORMAT decoder over every produced file", "exploration", "Library and command outputs decoded by an independent implementation."),
 "C06": ("differential decryption of independently encoded files and cross-interface round trips", "exploration", "Independent encoder, Python hashlib/libcrypto encoder and the system scrypt binary."),
 "C07": ("mutation enumeration with an accept/reject monitor", "exploration", "All single-byte changes and prefixes of small files, structured changes of large ones."),
 "C08": ("side-effect monitor (file system and stream snapshots) over refused decryptions", "exploration", "Every cause of refusal, through library and command."),
 "C09": ("I/O fault enumeration with an exit-status truth monitor", "fault_enumeration", "Errors at every byte position of small files and at block boundaries of large ones."),
 "C10": ("interposed entropy source with an HMAC_DRBG reference monitor; salt collision monitor", "fault_enumeration", "Delivered bytes compared with the DRBG model fed with the observed entropy."),
 "C11": ("simulated clock/memory with a reference parameter model", "exploration", "Parameters compared with the specification for many simulated machines."),
 "C12": ("simulated clock/memory with a limit-enforcement monitor", "exploration", "Decisions compared with exact integer arithmetic; allocations and KDF calls observed."),
 "C13": ("interposed system queries with a reference model", "fault_enumeration", "Computed limit compared with the model over simulated systems, including failing queries."),
 "C14": ("sanitizers (ASan, UBSan, LSan, valgrind) under coverage-guided and structured fuzzing", "exploration", "No report over the executions explored."),
 "C15": ("differential monitor of printed parameters against exact arithmetic", "exploration", "Printed text compared with a big-integer model."),
 "C16": ("differential monitor of the command line against a reference parser", "exploration", "Exit status, messages and effective settings compared for generated argument vectors."),
 "C17": ("cross-method decryption and prompt monitors on pseudo-terminals", "exploration", "All entry methods, with and without terminals."),
 "C18": ("pseudo-terminal monitor with signals injected throughout passphrase entry", "exploration", "Terminal attributes and wait status checked for every signal and phase."),
 "C19": ("heap-at-free and stack scanners for known secrets, leak tracking", "fault_enumeration", "16-byte windows of secrets searched in released heap and used stack; register spills of other data not covered."),
 "C20": ("valgrind memcheck taint tracking (ctgrind)", "exploration", "No secret-dependent branch or address on executed paths; generic AES (table based, by OpenSSL) excluded."),
 "C21": ("environment fault enumeration by interposition", "fault_enumeration", "Every occurrence of every interposed environment call failed once; pairs sampled."),
 "C22": ("ThreadSanitizer and result monitor under concurrent stress", "exploration", "Schedules explored by stress and injected delays."),
 "C23": ("simulated machine plus command-line monitor of explicit parameters", "exploration", "Header, KDF arguments and warnings compared with the request."),
 "C24": ("memory and progress monitor on long streams", "exploration", "Streams beyond 4 GiB, peak memory and hold-back measured."),
 "C25": ("fault injection into accelerated implementations with a result monitor", "fault_enumeration", "Each accelerated function corrupted in several ways; results must stay correct."),
 "C26": ("allocation and key-derivation monitor, and peak memory of the command", "exploration", "Every allocation, mapping and derivation of library operations followed; peak memory of the command measured."),
 "C27": ("output and system-call monitor searching for secrets", "exploration", "Everything emitted, including system call arguments, searched for passphrases, keys and plaintext."),
 "C28": ("instruction-level execution monitor with emulated CPUID", "fault_enumeration", "All 32 feature combinations and hundreds of processor descriptions; every executed instruction checked against the reported features."),
 "C29": ("process-state snapshots around every call", "exploration", "Thousands of calls of 18 kinds, successful, refused and with failing allocations and entropy, in processes with random prior state; every item of the state compared."),
 "C30": ("system call recording, directory tree comparison, differential runs in varied environments", "exploration", "Random command lines over input, output and passphrase kinds; every system call and directory entry checked; results compared across environments."),
 "C31": ("message oracle over generated names, texts, errors and failing system calls", "exploration", "Every message byte compared with what the property prescribes, in the library and the command."),
 "C32": ("known-answer oracle and process monitors in generated host programs of the library", "exploration", "C and C++ programs linked with or loading the library in many ways; results, symbols, traps, traces of loading and what unloading leaves behind."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t, lvl, note = T[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": t, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all monitors observe public interfaces and interposed libc calls (ld --wrap). Checks rebuild /repo's working tree into a temporary directory."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
