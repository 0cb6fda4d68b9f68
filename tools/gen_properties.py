#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "The scrypt key derivation computes RFC 7914 scrypt for every input",
 "For every password, salt, N (power of two > 1), r, p with 0 < r*p < 2^30 and output length, a successful crypto_scrypt()/scrypt_kdf() call writes exactly the output bytes of RFC 7914 scrypt, touches nothing outside the output buffer and does not modify its inputs. "
 "The result does not depend on buffer alignment, on earlier calls in the process, on which implementation (SSE2 or generic mixing, SHA-NI / SSE2 / ARM / generic hashing, mmap or malloc memory) was compiled in or selected at run time.",
 ["inputs", "configurations", "histories"],
 "all (password, salt, N, r, p, length) in the documented domain, including lengths 0, around the 32/64-byte hash blocks and p beyond 2^25; all compiled/selected implementations; all orders of calls in one process",
 "The suite checks the four RFC vectors (plus a handful of files) on one build and one CPU; the result is a function of unbounded inputs and of the selected implementation.",
 ["lib-platform/crypto/crypto_scrypt.c", "lib/crypto/crypto_scrypt_smix.c", "lib/crypto/crypto_scrypt_smix_sse2.c", "lib/crypto/crypto_scrypt-ref.c", "libcperciva/alg/sha256.c", "libscrypt-kdf/scrypt-kdf.h"],
 [("crypto_scrypt_internal / smix selection", "lib-platform/crypto/crypto_scrypt.c"), ("generic and SSE2 smix", "lib/crypto/crypto_scrypt_smix*.c"), ("PBKDF2_SHA256", "libcperciva/alg/sha256.c")],
 ["return value and output buffer of crypto_scrypt()", "guard bytes around buffers"])

prop("C02", "The key derivation refuses bad parameters and fails without side effects",
 "crypto_scrypt()/scrypt_kdf() returns -1 with errno EINVAL if r or p is 0 or N is not a power of two greater than 1, EFBIG if r*p >= 2^30 or the output length exceeds (2^32-1)*32, and ENOMEM if the memory needed cannot be represented or obtained; it never accepts such a request and never refuses one within these bounds for another reason. "
 "A refused or failed call does not write to the output buffer, leaves no memory allocated or mapped, does not crash, and later calls still give correct results.",
 ["inputs", "fault_sequences"],
 "all values of N, r, p and output length including those whose products overflow 32- or 64-bit arithmetic; every memory allocation in a call failing",
 "No test passes an invalid parameter to the KDF or makes an allocation fail; the interesting values are overflow boundaries of a 2^160-element space.",
 ["lib-platform/crypto/crypto_scrypt.c", "libscrypt-kdf/scrypt-kdf.h"],
 [("parameter checks and goto-chain clean-up", "lib-platform/crypto/crypto_scrypt.c:crypto_scrypt_internal")],
 ["return value, errno, output guard bytes", "interposed malloc/posix_memalign/mmap/munmap/free"])

prop("C03", "SHA-256, HMAC-SHA-256 and PBKDF2 are correct for every input and call pattern",
 "SHA256, HMAC_SHA256 and PBKDF2_SHA256 produce the FIPS 180-4 / RFC 2104 / RFC 8018 result for every message, key, salt, iteration count and output length, however the message is split into update calls, however the buffers are aligned, whatever other contexts are in use, and whichever implementation is selected. "
 "This includes empty inputs, keys shorter than, equal to and longer than 64 bytes, totals beyond 2^32 bits and 2^32 bytes, and outputs of more than 2^16 blocks.",
 ["inputs", "histories", "configurations"],
 "all byte strings, all partitions into updates, all interleavings of several contexts, all implementations",
 "There is no direct test of these primitives; the KDF vectors reach a few dozen lengths, and none beyond a few kilobytes.",
 ["libcperciva/alg/sha256.c", "libcperciva/alg/sha256_shani.c", "libcperciva/alg/sha256_sse2.c", "libcperciva/alg/sha256_arm.c", "libcperciva/alg/sha256.h"],
 [("buffering, padding and bit counter", "libcperciva/alg/sha256.c"), ("compression functions", "libcperciva/alg/sha256*.c")],
 ["digest buffers returned by SHA256_*, HMAC_SHA256_*, PBKDF2_SHA256"])

prop("C04", "AES-CTR encryption is correct for every length, chunking and position",
 "Encrypting a stream with crypto_aesctr XORs it with the AES-128/256-CTR key stream for the given key and 64-bit nonce, byte for byte, however it is split into calls, at any alignment, in place or not, and at any position of the stream including past 2^8, 2^16, 2^24, 2^28 and 2^32 blocks. "
 "The AES-NI, ARM and generic implementations give identical results, and streams with different keys or nonces do not influence each other.",
 ["inputs", "histories", "configurations"],
 "all keys, nonces, data, partitions into calls, stream positions; both implementations",
 "The suite encrypts one small file per scenario; chunk boundaries, in-place use and counter carries are never varied.",
 ["libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aes_aesni.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_aesctr_aesni.c", "libcperciva/crypto/crypto_aesctr_shared.c", "libcperciva/crypto/crypto_aes_arm.c", "libcperciva/crypto/crypto_aesctr_arm.c"],
 [("byte counter and pre/whole/post block handling", "libcperciva/crypto/crypto_aesctr*.c"), ("key expansion", "libcperciva/crypto/crypto_aes*.c")],
 ["output of crypto_aesctr_stream / crypto_aesctr_buf / crypto_aes_encrypt_block"])

prop("C05", "Everything encrypted conforms to the documented file format",
 "Whatever the data length, passphrase, parameters, input chunking and interface used (encrypt to buffer, encrypt file, scrypt enc with files or pipes), a successful encryption emits exactly (data length + 128) bytes laid out as FORMAT prescribes: magic, version 0, log2(N), r, p, salt, truncated SHA-256 checksum, header HMAC, AES256-CTR ciphertext with nonce 0 and a final HMAC, under keys derived with scrypt from the passphrase and that salt. "
 "An independent implementation of FORMAT therefore recovers the exact input, and the buffer or stream given as input is not modified.",
 ["inputs", "configurations"],
 "all data lengths (in particular around multiples of the 64 KiB I/O block), passphrases (including empty and > 64 bytes), parameters, short reads/writes, interfaces",
 "The suite only checks that scrypt can decrypt its own output and that outputs look different; a symmetric change to encryption and decryption passes.",
 ["lib/scryptenc/scryptenc.c", "main.c", "FORMAT"],
 [("scryptenc_setup builds the header", "lib/scryptenc/scryptenc.c"), ("scryptenc_file / scryptenc_buf", "lib/scryptenc/scryptenc.c")],
 ["bytes written to the output", "input buffer before/after"])

prop("C06", "Decryption returns exactly the plaintext of every valid encrypted file",
 "Any file that conforms to FORMAT, whoever produced it, decrypts with its passphrase to exactly the original bytes and nothing more or less, with success reported, through every interface (buffer, file, two-phase prepare/copy, scrypt dec with files or pipes), provided the resource limits allow it. "
 "This holds for every data length, passphrase, salt, parameter combination (including unusual r and p) and every way the input is delivered in chunks.",
 ["inputs", "configurations", "histories"],
 "all plaintext lengths around 0 and multiples of 64 KiB +- 32, passphrases, salts, parameters, read chunkings; interfaces; files from an independent encoder and from another scrypt build",
 "One reference file and one freshly encrypted file are decrypted by the suite, always as one regular file of one length.",
 ["lib/scryptenc/scryptenc.c", "main.c", "FORMAT"],
 [("scryptdec_setup / load_header", "lib/scryptenc/scryptenc.c"), ("hold-back of the last 32 bytes in scryptdec_file_copy", "lib/scryptenc/scryptenc.c")],
 ["decrypted bytes, outlen and status"])

prop("C07", "Modified, truncated or extended files are never accepted",
 "If a valid encrypted file is changed in any way (any byte of header, ciphertext or signature altered, bytes removed, inserted, appended or reordered, spliced with another file, or only a prefix of it written because encryption was interrupted), decrypting it with its passphrase reports failure through every interface and scrypt dec exits non-zero. "
 "This includes changes that keep the header checksum valid.",
 ["inputs", "crash_points"],
 "every single-byte change, every proper prefix, extensions, pairs of compensating changes, block-level cut and paste, for many file lengths; all interfaces",
 "The suite never decrypts a damaged file; the space of modifications is unbounded.",
 ["lib/scryptenc/scryptenc.c", "libcperciva/crypto/crypto_verify_bytes.c"],
 [("header checksum, header HMAC, final HMAC", "lib/scryptenc/scryptenc.c"), ("crypto_verify_bytes", "libcperciva/crypto/crypto_verify_bytes.c")],
 ["return codes of scryptdec_*", "exit status of scrypt dec"])

prop("C08", "A refused decryption leaves the output untouched and says why",
 "When decryption is refused because of a wrong passphrase, a header that is not scrypt data, an unknown version, a truncated or corrupt header, invalid parameters, an exceeded limit, or an unreadable input or passphrase source, no output file is created, an existing one keeps its content, and nothing is written to standard output or to the caller's output. "
 "The library returns, and the command prints, the diagnosis belonging to that cause: wrong passphrase, invalid data, unrecognized version, too much memory, too much CPU time, both, or read error; the exit status is non-zero.",
 ["inputs", "fault_sequences"],
 "all wrong passphrases (near misses included), all header corruptions and truncations, limits, unreadable inputs, with the output absent or present",
 "The suite tries one wrong passphrase against one file, and no damaged header.",
 ["main.c", "lib/scryptenc/scryptenc.c", "lib/scryptenc/scryptenc_print_error.c"],
 [("two-phase decryption: header and passphrase are checked before the output is opened", "main.c:scrypt_mode_enc_dec"), ("error codes", "lib/scryptenc/scryptenc.h")],
 ["output file existence, content, inode and mtime", "stdout bytes", "return codes, stderr, exit status"])

prop("C09", "Exit status 0 means the complete, correct output was written",
 "Whenever reading the input, writing or flushing the output, or closing the output file fails at any point, scrypt enc and scrypt dec exit non-zero with a message naming the read or write error, and the library functions return the corresponding error; success is reported only if every byte of the correct result was accepted by the operating system and the whole input was read without error. "
 "Short reads and short writes that are not errors do not affect the result.",
 ["fault_sequences", "crash_points", "inputs"],
 "an I/O error at every byte position of input and output, on files, pipes and standard streams, for encryption and decryption; disk full, file size limit, reader gone, error only on close",
 "No test makes an I/O operation fail.",
 ["main.c", "lib/scryptenc/scryptenc.c", "lib/scryptenc/scryptenc_print_error.c"],
 [("ferror/fwrite checks in scryptenc_file and scryptdec_file_copy", "lib/scryptenc/scryptenc.c"), ("fclose/fflush of the output", "main.c")],
 ["exit status, stderr, bytes that reached the output"])

prop("C10", "Salts are fresh and come from correctly seeded OS entropy",
 "Every encryption, in the same or another process, uses a 32-byte salt that is the output of HMAC_DRBG (NIST SP 800-90A, SHA-256) instantiated from 48 bytes of operating-system entropy, reseeded with 32 more after at most 256 requests and optionally mixed with hardware randomness, so that salts do not repeat. "
 "Random requests of any size are filled completely, and if operating-system entropy cannot be opened, read or is cut short, no random bytes are delivered and encryption fails with the salt error instead of using predictable bytes.",
 ["histories", "fault_sequences", "inputs"],
 "all sequences of requests of any size across reseed points; every open/read of the entropy source failing, ending early or returning short; any number of processes",
 "The suite performs a few encryptions and never looks at the salts, crosses a reseed or makes the entropy source fail.",
 ["libcperciva/crypto/crypto_entropy.c", "libcperciva/crypto/crypto_entropy_rdrand.c", "libcperciva/util/entropy.c", "lib/scryptenc/scryptenc.c"],
 [("HMAC_DRBG instantiate/update/generate/reseed", "libcperciva/crypto/crypto_entropy.c"), ("entropy_read", "libcperciva/util/entropy.c")],
 ["bytes delivered vs bytes read from the entropy source", "salt field of the output"])

prop("C11", "Encryption picks the strongest parameters within the limits",
 "Without explicit parameters, encryption uses r = 8, the largest power of two N such that 128*N*r is within the memory limit and 4*N*r is within the CPU budget, and then the largest p >= 1 such that 4*N*r*p is within the CPU budget and r*p < 2^30, where the CPU budget is the measured speed times the time limit but at least 2^15 operations. "
 "The parameters chosen are the ones reported back, written to the header and used for the key derivation.",
 ["inputs", "configurations"],
 "all CPU speeds, time limits, memory limits and fractions, clock resolutions",
 "The chosen values depend on the machine's speed and memory, so the suite can only check that encryption works.",
 ["lib/scryptenc/scryptenc.c", "lib/scryptenc/scryptenc_cpuperf.c", "lib-platform/util/memlimit.c", "libcperciva/util/monoclock.c"],
 [("pickparams", "lib/scryptenc/scryptenc.c"), ("scryptenc_cpuperf", "lib/scryptenc/scryptenc_cpuperf.c")],
 ["parameters returned, in the header, and passed to the KDF under a simulated clock and memory size"])

prop("C12", "Decryption enforces memory and CPU limits before spending them",
 "Unless forced, decrypting a file with 128*N*r above the memory limit fails with the too-much-memory error, one whose 4*N*r*p exceeds measured speed times the time limit fails with the too-much-CPU error, and both with the combined error, before any key derivation work or memory for the file's parameters is spent; a file within both limits is never refused for them. "
 "With force, no limit applies and neither the clock nor the memory size influences the outcome; invalid parameters are refused either way.",
 ["inputs", "configurations"],
 "all header parameters (including those whose products overflow), limits, machine speeds and memory sizes, forced or not",
 "Limits depend on the machine; the suite covers one over-limit file at most and no boundary.",
 ["lib/scryptenc/scryptenc.c", "lib/scryptenc/scryptenc_cpuperf.c", "lib-platform/util/memlimit.c"],
 [("checkparams", "lib/scryptenc/scryptenc.c")],
 ["return code, and key-derivation calls and allocations made, under a simulated clock and memory size"])

prop("C13", "The memory limit is computed from RAM, rlimits, fraction and maximum",
 "The memory limit used for parameter choice and enforcement is the given fraction of the smallest of physical memory and the RLIMIT_AS and RLIMIT_RSS soft limits (unlimited ones ignored; RLIMIT_DATA too on builds without mmap), capped at the given maximum if that is non-zero, and never less than 1 MiB. "
 "If the system cannot be queried, the operation fails with the limit error rather than assuming a value.",
 ["configurations", "fault_sequences", "inputs"],
 "all physical memory sizes and memory units, rlimit values (including infinity and 0), fractions in (0, 1], maxima; failure of each query",
 "The suite runs on one machine with one set of limits and cannot observe the computed limit.",
 ["lib-platform/util/memlimit.c"],
 [("memtouse", "lib-platform/util/memlimit.c")],
 ["value returned by memtouse()", "reported 'available' memory, decisions of dec"])

prop("C14", "No input, passphrase file or command line causes memory errors or aborts",
 "For every sequence of bytes offered as encrypted input (buffer, file or pipe), every passphrase and passphrase file, every command line and every data to encrypt, scrypt and its library terminate with a documented status, without out-of-bounds access, use of uninitialised memory, undefined behaviour, memory leak, assertion failure or abnormal termination. "
 "Buffer decryption writes at most the documented amount of output and reads only the input given.",
 ["inputs"],
 "all byte strings as encrypted input, including well-formed headers with hostile parameters and valid checksums; all passphrases; all argument vectors",
 "The suite has no malformed input at all; memory safety must hold for every input.",
 ["lib/scryptenc/scryptenc.c", "main.c", "lib/util/passphrase_entry.c", "libcperciva/util/readpass_file.c", "libcperciva/util/getopt.c", "libcperciva/util/humansize.c", "libcperciva/util/parsenum.h"],
 [("length and parameter checks", "lib/scryptenc/scryptenc.c"), ("option and number parsing", "main.c")],
 ["ASan/UBSan/LeakSanitizer reports, exact-size buffers, valgrind, termination status"])

prop("C15", "scrypt info and -v report the true parameters and requirements",
 "For every file with a valid header, scrypt info prints N = 2^logN, r and p exactly as stored and the memory 128*N*r rounded down to the displayed precision in SI units (values above 2^64-1 shown as that maximum), needs no passphrase and writes nothing else; for input that is not scrypt data, has an unknown version, is truncated inside the header, or has parameters outside the documented range, it fails with the matching diagnosis. "
 "With -v, enc and dec print the parameters they use, the memory limit in effect and the estimated and maximum time consistent with the limits given.",
 ["inputs", "configurations"],
 "all header parameters, all input truncations, limits",
 "The suite prints the parameters of one or two small files; sizes and overflow behaviour range over 2^70 parameter combinations.",
 ["lib/scryptenc/scryptenc.c", "libcperciva/util/humansize.c", "main.c"],
 [("display_params", "lib/scryptenc/scryptenc.c"), ("humansize", "libcperciva/util/humansize.c")],
 ["stderr/stdout and exit status of scrypt info and scrypt -v"])

prop("C16", "Command lines are interpreted as documented and bad ones rejected",
 "Options may come in any order, separated or attached (-t5, --logN=12), clustered (-fv), repeated (the last value wins) or ended by '--', and each takes effect exactly as documented: sizes for -M are digits with an optional space, SI prefix k/M/G/T/P/E and B within 64 bits, -m is in (0, 0.5], -t is a non-negative number, --logN 10..40, -r 1..32, -p 1..2048, the last three together or not at all. "
 "Every other command line (unknown or missing option, argument or command, malformed or out-of-range number, conflicting passphrase options, too many files) exits with status 1 and a message, without reading a passphrase or input or touching the output; scrypt never dies from a signal because of its arguments.",
 ["inputs"],
 "all argument vectors",
 "The suite uses about a dozen fixed, mostly valid command lines.",
 ["main.c", "libcperciva/util/getopt.c", "libcperciva/util/parsenum.h", "libcperciva/util/humansize.c", "lib/util/passphrase_entry.c"],
 [("getopt loop and validation", "main.c"), ("PARSENUM, humansize_parse", "libcperciva/util")],
 ["exit status, messages, resulting parameters and limits (-v), header of the output"])

prop("C17", "Every passphrase entry method delivers exactly the passphrase given",
 "env:, file:, dev:stdin-once, -P, dev:tty-once and dev:tty-stdin (terminal, or stdin without one) deliver the same bytes (NUL bytes excluded): the environment value unchanged, or the first line up to its first CR or LF (up to 2047 bytes, line end included), so files encrypted via one method decrypt via every other. "
 "Encryption via dev:tty-stdin asks twice and repeats both questions until the two lines agree, all other uses ask once; a passphrase file that is missing, unreadable, longer or with a second line, an unset variable, end of input before a line, a source that stops delivering part-way (read error, hang-up, nothing more to read on a non-blocking descriptor), or a missing terminal for dev:tty-once is refused with status 1 and no output: part of a passphrase is never used.",
 ["inputs", "histories", "configurations"],
 "all passphrases and line endings, sequences of mismatched attempts, methods, with and without a terminal",
 "The suite uses three methods with one passphrase; terminals and mismatches are never exercised.",
 ["lib/util/passphrase_entry.c", "libcperciva/util/readpass.c", "libcperciva/util/readpass_file.c", "main.c"],
 [("passphrase_entry_parse / readpass / readpass_file", "lib/util, libcperciva/util")],
 ["success of cross-method decryption", "prompts seen on a pseudo-terminal", "exit status, stderr"])

prop("C18", "Terminal echo is off while typing and restored afterwards, signals kept",
 "While scrypt waits for a passphrase on a terminal, echo is disabled so the passphrase never appears on it, and on every way out (passphrase accepted, end of file, mismatch and retry, an arriving SIGALRM, SIGHUP, SIGINT, SIGPIPE, SIGQUIT, SIGTERM, SIGTSTP, SIGTTIN or SIGTTOU) the terminal settings are exactly those found at the start. "
 "A signal that arrives meanwhile is not lost: after the terminal is restored it takes its normal effect (termination or stop by that signal, or being ignored if it was ignored); signal dispositions are back to their original state after passphrase entry.",
 ["schedules", "histories", "fault_sequences"],
 "every listed signal arriving at any moment of passphrase entry, with its default or ignored disposition; every terminal mode; normal and failing entry",
 "No test runs scrypt on a terminal or sends it a signal.",
 ["libcperciva/util/readpass.c"],
 [("signal handlers, tcsetattr and resetsigs", "libcperciva/util/readpass.c:readpass")],
 ["terminal attributes and output of a pseudo-terminal, wait status of scrypt"])

prop("C19", "Derived keys and passphrases do not stay in memory after use",
 "When an encryption or decryption call returns, successfully or with any error (including write errors part-way), every heap block it allocated has been released, and neither the derived encryption and MAC keys nor the expanded cipher key remain in released heap memory, in static memory or on the stack it used. "
 "The passphrase obtained by scrypt is overwritten in every buffer it was read into or copied to on the heap or stack by the passphrase-entry code and the command, before that memory is released, on success and on failure.",
 ["inputs", "fault_sequences"],
 "all data, passphrases and parameters; success and every failure path (wrong passphrase, corrupt data, read/write errors, allocation failures)",
 "Tests only see outputs; residual secrets have no visible effect.",
 ["lib/scryptenc/scryptenc.c", "libcperciva/util/insecure_memzero.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aes_aesni.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/util/readpass.c", "libcperciva/util/readpass_file.c", "main.c"],
 [("insecure_memzero calls on all exits", "scryptenc.c, readpass*.c, main.c"), ("crypto_aes_key_free, scryptdec_file_cookie_free", "libcperciva/crypto, lib/scryptenc")],
 ["content of heap blocks at free(), of the stack after return; outstanding allocations"])

prop("C20", "Secrets do not influence branches or memory addresses in MAC and cipher code",
 "The comparison of MACs and checksums examines all bytes independently of where they differ, and hashing, HMAC, PBKDF2 and the hardware AES-CTR path execute no branch and compute no memory address that depends on the values of keys, passphrases, message bytes or MAC bytes. "
 "Only the final accept/reject decision depends on them.",
 ["inputs"],
 "all secret values, for all public lengths",
 "Tests observe values, not control flow; an early-exit comparison passes every functional test.",
 ["libcperciva/crypto/crypto_verify_bytes.c", "libcperciva/alg/sha256.c", "libcperciva/alg/sha256_sse2.c", "libcperciva/crypto/crypto_aes_aesni.c", "libcperciva/crypto/crypto_aesctr_aesni.c"],
 [("constant-time comparison", "libcperciva/crypto/crypto_verify_bytes.c")],
 ["valgrind memcheck with the secrets marked undefined (ctgrind)"])

prop("C21", "Every environment failure yields the right error, never a crash or false success",
 "If any memory allocation, memory mapping, clock reading, resource query or entropy read made by an encryption or decryption fails, the call returns the error documented for that cause (no memory, key derivation error, clock error, limit error, salt error, OpenSSL error), (or, where a fallback exists, the correct result) and does not crash, leak memory or descriptors, hang, or report success with a wrong result. "
 "A later call, once the failure has passed, works correctly.",
 ["fault_sequences"],
 "each single failure (by occurrence) of each kind of environment call, and pairs of them, in buffer and file encryption and decryption, forced and not",
 "No test injects a failure.",
 ["lib/scryptenc/scryptenc.c", "lib/scryptenc/scryptenc_cpuperf.c", "lib-platform/util/memlimit.c", "libcperciva/util/monoclock.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_entropy.c", "libcperciva/util/entropy.c"],
 [("error returns and goto-chain clean-up", "all of the above")],
 ["return code, outstanding allocations and descriptors, output, under interposed failing calls"])

prop("C22", "Concurrent key derivations and hashes do not interfere",
 "After one completed call has initialised the library, any number of threads may run key derivations, hashes, MACs, PBKDF2 and AES-CTR streams on their own buffers at the same time; each obtains the result it would obtain alone and there is no data race between them. "
 "Even if the very first key derivations and hashes of a process are made concurrently, every result is correct.",
 ["schedules"],
 "all interleavings of threads, with any mix of operations and parameters",
 "The suite is single-threaded.",
 ["lib-platform/crypto/crypto_scrypt.c", "libcperciva/alg/sha256.c", "libcperciva/crypto/crypto_aes.c"],
 [("no shared mutable state except one-time implementation selection", "lib-platform/crypto/crypto_scrypt.c, libcperciva/alg/sha256.c, libcperciva/crypto/crypto_aes.c")],
 ["results per thread; ThreadSanitizer reports"])

prop("C23", "Explicit parameters are used exactly; decryption uses the file's",
 "When --logN, -r and -p (or the library's explicit parameters) are given, encryption uses exactly these values or fails, whatever the limits, machine speed and memory; exceeding a limit only prints a warning naming memory and/or time, and no warning with -f. "
 "When decrypting, the parameters of the file are used, command-line parameters have no effect, and the parameters used are returned to the caller.",
 ["inputs", "configurations"],
 "all valid explicit parameter triples, limits, machine speeds, force settings",
 "The suite tries one explicit triple.",
 ["lib/scryptenc/scryptenc.c", "main.c"],
 [("scryptenc_setup / checkparams", "lib/scryptenc/scryptenc.c"), ("explicit parameter handling", "main.c")],
 ["header of the output, KDF arguments, warnings, returned parameters"])

prop("C24", "Files of any size stream through in bounded memory",
 "Encrypting and decrypting files work for streams of any length, including beyond 4 GiB, between any mix of files and pipes, with memory use that does not grow with the amount of data. "
 "The output for the data read so far is produced while the input is still open: at no time is more than a fixed amount of data (under 1 MiB) held back.",
 ["inputs", "histories"],
 "all stream lengths and delivery speeds",
 "Tests use files of a few kilobytes.",
 ["lib/scryptenc/scryptenc.c", "libcperciva/crypto/crypto_aesctr.c", "libcperciva/alg/sha256.c"],
 [("64 KiB block loop", "lib/scryptenc/scryptenc.c"), ("64-bit byte counters", "crypto_aesctr.c, sha256.c")],
 ["output bytes, peak memory, input/output progress on pipes"])

prop("C25", "A malfunctioning accelerated implementation is detected and not used",
 "If a hardware-accelerated implementation (SSE2 mixing, SHA extensions, SSE2 hashing, AES-NI; on ARM the SHA-256 and AES instructions) gives wrong results on this machine, the library notices before using it, prints a warning, and falls back to a working implementation so that every result is still correct. "
 "If it works, results are the same as those of the fallback.",
 ["configurations", "fault_sequences"],
 "each accelerated implementation, alone or together, returning wrong results in any way that affects its self-test",
 "On test machines the accelerated code works, so the fallback never runs.",
 ["lib-platform/crypto/crypto_scrypt.c", "libcperciva/alg/sha256.c", "libcperciva/crypto/crypto_aes.c"],
 [("selectsmix / hwtest self-tests", "lib-platform/crypto/crypto_scrypt.c, libcperciva/alg/sha256.c, libcperciva/crypto/crypto_aes.c")],
 ["results with interposed faulty accelerated functions"])

prop("C26", "An operation costs no more than its parameters announce",
 "A successful encryption or decryption performs exactly one scrypt key derivation, with the parameters in the header; a decryption refused for a wrong passphrase also performs just one; an operation refused for its header, its limits or its parameters performs none. "
 "At any moment an operation holds at most 128*N*r + 128*r*p + 256*r bytes plus a fixed amount of about a megabyte, whatever the length of the data (input and output of the stream interfaces included), and when it returns everything it allocated or mapped has been given back (other than a decryption cookie, until it is freed). The command adds no more than a few megabytes to this.",
 ["inputs", "configurations", "fault_sequences"],
 "every interface, every allocation configuration, parameters, data length and outcome",
 "Results are the same when the work is done twice or the memory is doubled; users plan machines and timeouts by the announced cost.",
 ["lib/scryptenc/scryptenc.c", "lib-platform/crypto/crypto_scrypt.c", "main.c"],
 [("scryptenc_setup / scryptdec_setup", "lib/scryptenc/scryptenc.c"), ("crypto_scrypt_internal", "lib-platform/crypto/crypto_scrypt.c")],
 ["allocations, mappings and calls of crypto_scrypt during an operation", "peak memory of the command"])

prop("C27", "Passphrases, keys and plaintext do not show in what is emitted",
 "Nothing that scrypt writes contains the passphrase that was given (or a rejected one), the derived keys, or any recognisable part of these (several consecutive bytes) in plain, hexadecimal or base64 form: error messages, the reports of -v and info, encrypted output, other files, arguments passed to the operating system. "
 "The same is true of the plaintext, except as the output of a decryption whose passphrase was accepted. This holds for every way of giving the passphrase, on success and on every kind of failure.",
 ["inputs", "configurations", "fault_sequences"],
 "every command, way of giving the passphrase, verbosity, success or kind of failure",
 "Tests look for the messages they expect and ignore what else is written.",
 ["main.c", "lib/util/passphrase_entry.c", "libcperciva/util/readpass.c", "libcperciva/util/readpass_file.c", "lib/scryptenc/scryptenc.c"],
 [("main", "main.c"), ("passphrase_entry_readpass", "lib/util/passphrase_entry.c"), ("readpass_file", "libcperciva/util/readpass_file.c")],
 ["standard output and error", "files", "system call arguments"])

prop("C28", "Only instructions the processor reports are executed",
 "On every x86 processor, whatever combination of features and highest leaf it reports through CPUID and whatever noise the other bits hold, hashing, key derivation, encryption, decryption and random number generation execute no instruction (SSE2 integer, SSSE3, SHA, AES, RDRAND or any later extension) which that processor does not report, and give the same results as on any other processor. "
 "The answer for a leaf beyond the highest one or for another sub-leaf is never taken as a feature. On ARM likewise: code using the AES or SHA-256 instructions runs only if the hardware capabilities report them.",
 ["configurations"],
 "every processor description",
 "Tests run on one processor, which has all of the features or none.",
 ["libcperciva/cpusupport/", "libcperciva/alg/sha256.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_entropy.c", "lib-platform/crypto/crypto_scrypt.c"],
 [("CPUSUPPORT_FEATURE_DECL(x86, ...)", "libcperciva/cpusupport/cpusupport_x86_*.c"), ("hwaccel_init / hwtest", "libcperciva/alg/sha256.c, libcperciva/crypto/crypto_aes.c")],
 ["addresses of executed instructions", "CPUID instructions and their answers", "results"])

prop("C29", "Library calls leave the calling process as they found it",
 "Whatever state a process is in, no call of the library (key derivation, encryption and decryption of buffers and streams, hashing, random bytes, memory limit and speed measurement, passphrase entry from files, environment and standard input), successful, refused or failing part-way, changes it: open descriptors and their positions, signal dispositions, signal mask and alternate stack, resource limits, umask, working directory, identity, priority and other attributes, environment, locale, floating point and vector control state, timers, threads and child processes, the random() sequence are as before. "
 "Streams passed in stay open, unlocked and buffered as they were. Nothing is written to standard output, and nothing to standard error by a successful call that was not asked to be verbose (other than a warning about limits or hardware) or by a refused decryption.",
 ["histories", "inputs", "fault_sequences"],
 "every prior state of the process, every call and way of failing",
 "Tests use the command, which exits afterwards; nothing looks at the state of the process after a call.",
 ["lib/scryptenc/scryptenc.c", "lib-platform/crypto/crypto_scrypt.c", "lib-platform/util/memlimit.c", "libcperciva/util/entropy.c", "libcperciva/util/readpass.c", "libcperciva/util/readpass_file.c", "libcperciva/util/monoclock.c", "libcperciva/crypto/"],
 [("scryptenc_file, scryptdec_file", "lib/scryptenc/scryptenc.c"), ("entropy_read", "libcperciva/util/entropy.c"), ("readpass", "libcperciva/util/readpass.c")],
 ["state of the process before and after each call", "output descriptors"])

prop("C30", "The command touches and heeds only the files it was given",
 "scrypt enc, dec and info open only their input, the named passphrase source, the terminal, the random device and the output (and system files); the input, the passphrase file and every other file stay unchanged, no other file is created, changed, renamed or removed, even temporarily, no program is started, no network used; standard input is not read unless it is the input or the passphrase source. A new output file has mode 0666 less the umask; an existing one is overwritten in place, keeping its identity, owner, permissions and other names, and a symbolic link is followed. "
 "The outcome depends on the command line, these sources and the resources of the machine alone: not on environment variables other than the one named with env:, the working directory, the name scrypt is called by (other than in messages), unused standard input, inherited descriptors, umask, priority or ignored signals.",
 ["inputs", "configurations"],
 "every command line, file system state and environment",
 "Tests look at the output file only, in one environment.",
 ["main.c", "lib/util/passphrase_entry.c", "libcperciva/util/readpass.c", "libcperciva/util/entropy.c"],
 [("scrypt_mode_enc_dec, scrypt_mode_info, main", "main.c"), ("passphrase_entry_readpass", "lib/util/passphrase_entry.c")],
 ["system calls with their arguments", "the directory tree before and after", "results of repeated runs", "names of environment variables asked for"])

prop("C31", "Error messages are complete, attributed and give the system's reason",
 "Every message is one line beginning with the last component of the name the program was called by, and contains file names and other texts literally and in full, whatever their length and characters. Where the operating system refused something (opening, reading or writing a file, ...), the line ends with its reason for exactly that failure; otherwise no reason is shown. Messages go to standard error only; warn() and warnx() keep errno, lines of several threads do not mix, and when sent to syslog a message is one call with the chosen priority, cut only beyond the longest allowed line. "
 "Each error code of the library has its own text.",
 ["inputs", "fault_sequences", "schedules"],
 "every program name, text, file name, errno value and failing system call",
 "Tests compare a few fixed messages.",
 ["libcperciva/util/warnp.c", "lib/scryptenc/scryptenc_print_error.c", "main.c", "libcperciva/util/readpass_file.c"],
 [("warn, warnx, warnp_setprogname, warnp_syslog", "libcperciva/util/warnp.c"), ("scryptenc_print_error", "lib/scryptenc/scryptenc_print_error.c")],
 ["bytes written to standard error and given to syslog", "errno after the call"])

prop("C32", "The scrypt-kdf library works in every program that uses it",
 "However a program uses libscrypt-kdf through scrypt-kdf.h (from C or C++, linked with the shared or the static library, loaded and unloaded with dlopen any number of times and in any mode, several copies at a time, in constructors, destructors and handlers at exit, in threads with stacks of 64 KiB and after fork), scrypt_kdf gives the RFC 7914 result or the documented error. The shared library offers crypto_scrypt alone and never calls or reads what the program defines under the names of its internals; the static library leaves names such as SHA256_Init, HMAC_SHA256_Init, warn and warnx to the program. "
 "Merely loading it does nothing, using it prints nothing, unloading it leaves no memory, mapping, descriptor or handler behind and does no harm to threads which used it, and the header can be used on its own in every dialect of C (from C99) and C++.",
 ["programs", "histories", "schedules"],
 "every host program, way of linking or loading, and sequence of loads, calls and unloads",
 "The one test program calls the function once.",
 ["libscrypt-kdf/scrypt-kdf.h", "lib-platform/crypto/crypto_scrypt.c", "lib/crypto/", "libcperciva/alg/sha256.h", "libcperciva/util/warnp.c", "libcperciva/cpusupport/"],
 [("scrypt_kdf", "libscrypt-kdf/scrypt-kdf.h"), ("crypto_scrypt", "lib-platform/crypto/crypto_scrypt.c"), ("SHA256_* renaming", "libcperciva/alg/sha256.h"), ("warn, warnx renaming", "libcperciva/util/warnp.h")],
 ["results of derivations", "symbols offered and resolved", "system calls while loading", "memory, mappings and descriptors after unloading"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
