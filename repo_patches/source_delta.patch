From 324e46a8503e70b4307c0a6b973c32afc7831b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 01/12] fix: report failure to flush output as a write error

stdio may not attempt to write the final part of the output until the
stream is flushed or closed; a failure there (e.g., due to a full disk)
only printed a warning (or, for stdout, was ignored completely), and
scrypt exited with status 0 despite having lost data.
---
 main.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index d4c106b..3432c38 100644
--- a/main.c
+++ b/main.c
@@ -180,8 +180,13 @@ cleanup:
 	/* Close any files we opened. */
 	if ((infile != stdin) && fclose(infile))
 		warnp("fclose");
-	if ((outfile != stdout) && fclose(outfile))
-		warnp("fclose");
+	if (outfile != stdout) {
+		if (fclose(outfile) && (rc == SCRYPT_OK))
+			rc = SCRYPT_EWRFILE;
+	} else {
+		if (fflush(outfile) && (rc == SCRYPT_OK))
+			rc = SCRYPT_EWRFILE;
+	}
 
 	/* If we failed, print the right error message and exit. */
 	if (rc != SCRYPT_OK) {
-- 
2.43.0


From ab62385c3082c14172d36762254290e8bdddcb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 02/12] fix: reject NaN in PARSENUM of bounded floating-point
 values

NaN compares false with everything, so it was accepted regardless of the
bounds: "scrypt enc -m nan" failed an assertion, and "scrypt dec -t nan"
disabled the CPU time limit.
---
 libcperciva/util/parsenum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..3a6db81 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -151,7 +151,7 @@ parsenum_float(const char * s, double min, double max, int trailing)
 	val = strtod(s, &eptr);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max))
+	else if (!((val >= min) && (val <= max)))
 		errno = ERANGE;
 	return (val);
 }
-- 
2.43.0


From 435915da258d724e6c99ab70be0faa5676096645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 03/12] fix: reject negative values in PARSENUM of unsigned
 integers

strtoumax() negates values which are preceded by a minus sign in unsigned
arithmetic, so (for example) "-r -18446744073709551608" was accepted as
being equivalent to "-r 8".
---
 libcperciva/util/parsenum.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index 3a6db81..e8e4cff 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -7,6 +7,7 @@
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 /* Handle compiler warnings about implicit variable conversion in PARSENUM. */
 #ifdef __clang__
@@ -189,6 +190,8 @@ parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
 	val = strtoumax(s, &eptr, base);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
+	else if ((val != 0) && (s[strspn(s, " \f\n\r\t\v")] == '-'))
+		errno = ERANGE;
 	else if ((val < min) || (val > max) || (val > typemax))
 		errno = ERANGE;
 	return (val);
-- 
2.43.0


From 0eb1fc86a596faba6c862e775a9e2a4660d0f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 04/12] fix: free and zero the AES key if writing output fails

The expanded key was leaked (without being zeroed) if fwrite() failed in
scryptenc_file() or scryptdec_file_copy().
---
 lib/scryptenc/scryptenc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 5f87382..affbff8 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -627,6 +627,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 		HMAC_SHA256_Update(&hctx, buf, readlen);
 		if (fwrite(buf, 1, readlen, outfile) < readlen) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err1;
 		}
@@ -845,6 +846,7 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 		crypto_aesctr_stream(AES, buf, buf, buflen - 32);
 		if (fwrite(buf, 1, buflen - 32, outfile) < buflen - 32) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err0;
 		}
-- 
2.43.0


From 9ecf682fb4b152a93e7a0f2fb9a60eab5c8b9117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 05/12] fix: avoid integer overflow in crypto_scrypt when p >
 2^25

The offset of the block B_i was computed starting with i * 128, where i is
a uint32_t; this wraps for i >= 2^25.  As a result, if p > 2^25 then some
of the blocks were mixed more than once while others were not mixed at
all, and the derived key was incorrect.
---
 lib-platform/crypto/crypto_scrypt.c | 2 +-
 lib/crypto/crypto_scrypt-ref.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib-platform/crypto/crypto_scrypt.c b/lib-platform/crypto/crypto_scrypt.c
index 6057f0a..e16cc8e 100644
--- a/lib-platform/crypto/crypto_scrypt.c
+++ b/lib-platform/crypto/crypto_scrypt.c
@@ -137,7 +137,7 @@ crypto_scrypt_internal(const uint8_t * passwd, size_t passwdlen,
 	/* 2: for i = 0 to p - 1 do */
 	for (i = 0; i < p; i++) {
 		/* 3: B_i <-- MF(B_i, N) */
-		(smix)(&B[i * 128 * r], r, N, V, XY);
+		(smix)(&B[(size_t)i * 128 * r], r, N, V, XY);
 	}
 
 	/* 5: DK <-- PBKDF2(P, B, 1, dkLen) */
diff --git a/lib/crypto/crypto_scrypt-ref.c b/lib/crypto/crypto_scrypt-ref.c
index a249f90..815894f 100644
--- a/lib/crypto/crypto_scrypt-ref.c
+++ b/lib/crypto/crypto_scrypt-ref.c
@@ -259,7 +259,7 @@ crypto_scrypt(const uint8_t * passwd, size_t passwdlen,
 	/* 2: for i = 0 to p - 1 do */
 	for (i = 0; i < p; i++) {
 		/* 3: B_i <-- MF(B_i, N) */
-		smix(&B[i * 128 * r], r, N, V, XY);
+		smix(&B[(size_t)i * 128 * r], r, N, V, XY);
 	}
 
 	/* 5: DK <-- PBKDF2(P, B, 1, dkLen) */
-- 
2.43.0


From 818d0a5c7df169683e21a11d13244ba17f6d5e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 06/12] fix: validate parameters and avoid overflows when
 printing them

"scrypt info" did not check the parameters, so a header with logN >= 64
resulted in undefined behaviour (and a bogus value for N).  Further, the
required memory was computed modulo 2^32 or 2^64, and the number of salsa20
cores modulo 2^64, so large values were wildly understated (e.g., "0 B").
---
 lib/scryptenc/scryptenc.c | 40 +++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index affbff8..df9ba1b 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -72,10 +72,18 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
     double opps, double maxtime)
 {
 	uint64_t N = (uint64_t)(1) << logN;
-	uint64_t mem_minimum = 128 * r * N;
-	double expected_seconds = opps > 0 ? (double)(4 * N * r * p) / opps : 0;
+	uint64_t mem_minimum = 128 * (uint64_t)(r);
+	double expected_seconds =
+	    opps > 0 ? 4.0 * (double)(N) * r * p / opps : 0;
 	char * human_memlimit = humansize(memlimit);
-	char * human_mem_minimum = humansize(mem_minimum);
+	char * human_mem_minimum;
+
+	/* Compute 128 * r * N, but clamp to UINT64_MAX if necessary. */
+	if (N > UINT64_MAX / mem_minimum)
+		mem_minimum = UINT64_MAX;
+	else
+		mem_minimum *= N;
+	human_mem_minimum = humansize(mem_minimum);
 
 	/* Parameters */
 	fprintf(stderr, "Parameters used: N = %" PRIu64 "; r = %" PRIu32
@@ -172,6 +180,20 @@ pickparams(size_t maxmem, double maxmemfrac, double maxtime,
 	return (SCRYPT_OK);
 }
 
+/* Are the parameters logN, r, p valid? */
+static int
+validparams(int logN, uint32_t r, uint32_t p)
+{
+
+	if ((logN < 1) || (logN > 63))
+		return (0);
+	if ((uint64_t)(r) * (uint64_t)(p) >= 0x40000000)
+		return (0);
+	if ((r == 0) || (p == 0))
+		return (0);
+	return (1);
+}
+
 static int
 checkparams(size_t maxmem, double maxmemfrac, double maxtime,
     int logN, uint32_t r, uint32_t p, int verbose, int force)
@@ -183,11 +205,7 @@ checkparams(size_t maxmem, double maxmemfrac, double maxtime,
 	int rc;
 
 	/* Sanity-check values. */
-	if ((logN < 1) || (logN > 63))
-		return (SCRYPT_EINVAL);
-	if ((uint64_t)(r) * (uint64_t)(p) >= 0x40000000)
-		return (SCRYPT_EINVAL);
-	if ((r == 0) || (p == 0))
+	if (!validparams(logN, r, p))
 		return (SCRYPT_EINVAL);
 
 	/* Are we forcing decryption, regardless of resource limits? */
@@ -334,6 +352,12 @@ scryptdec_file_printparams(FILE * infile)
 	r = be32dec(&header[8]);
 	p = be32dec(&header[12]);
 
+	/* Sanity-check values. */
+	if (!validparams(logN, r, p)) {
+		rc = SCRYPT_EINVAL;
+		goto err0;
+	}
+
 	/* Print parameters. */
 	display_params(logN, r, p, 0, 0, 0);
 
-- 
2.43.0


From 920d3134f8d21334613e5d5832b6bfb3f0579220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 07/12] fix: do not abort if explicit parameters are given when
 decrypting

"scrypt dec --logN 12 -r 8 -p 1 file" failed an assertion.  As documented,
the parameters from the encryption header are always used when decrypting.
---
 main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.c b/main.c
index 3432c38..19ceaa6 100644
--- a/main.c
+++ b/main.c
@@ -147,6 +147,10 @@ scrypt_mode_enc_dec(struct scryptenc_params params,
 	 * parameters (which we'll use after we open the output file).
 	 */
 	if (dec) {
+		/* Explicit parameters have no effect when decrypting. */
+		params.logN = 0;
+		params.r = params.p = 0;
+
 		if ((rc = scryptdec_file_prep(infile, (uint8_t *)passwd,
 		    strlen(passwd), &params, verbose, force_resources,
 		    &C)) != 0) {
-- 
2.43.0


From cc4d41e6ff36b9e9db293bfe8a6906e6d8587861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 08/12] fix: reject r = 0, p = 0, and N = 1 in the reference
 implementation

crypto_scrypt-ref.c divided by zero if r or p was zero, and accepted N = 1;
apply the same checks as in crypto_scrypt.c.
---
 lib/crypto/crypto_scrypt-ref.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/crypto/crypto_scrypt-ref.c b/lib/crypto/crypto_scrypt-ref.c
index 815894f..eeecb76 100644
--- a/lib/crypto/crypto_scrypt-ref.c
+++ b/lib/crypto/crypto_scrypt-ref.c
@@ -222,6 +222,10 @@ crypto_scrypt(const uint8_t * passwd, size_t passwdlen,
 	uint32_t i;
 
 	/* Sanity-check parameters. */
+	if ((r == 0) || (p == 0)) {
+		errno = EINVAL;
+		goto err0;
+	}
 #if SIZE_MAX > UINT32_MAX
 	if (buflen > (((uint64_t)(1) << 32) - 1) * 32) {
 		errno = EFBIG;
@@ -232,7 +236,7 @@ crypto_scrypt(const uint8_t * passwd, size_t passwdlen,
 		errno = EFBIG;
 		goto err0;
 	}
-	if (((N & (N - 1)) != 0) || (N == 0)) {
+	if (((N & (N - 1)) != 0) || (N < 2)) {
 		errno = EINVAL;
 		goto err0;
 	}
-- 
2.43.0


From 602a8a29471accdba11af9e45b564ad6a6b38a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 09/12] fix: do not abort when memory runs out during the smix
 self-test

---
 lib-platform/crypto/crypto_scrypt.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lib-platform/crypto/crypto_scrypt.c b/lib-platform/crypto/crypto_scrypt.c
index e16cc8e..84a2f42 100644
--- a/lib-platform/crypto/crypto_scrypt.c
+++ b/lib-platform/crypto/crypto_scrypt.c
@@ -191,6 +191,7 @@ static struct scrypt_test {
 	}
 };
 
+/* Return 0 if smix works; 1 if it is broken; or -1 if we could not test it. */
 static int
 testsmix(void (* smix)(uint8_t *, size_t, uint64_t, void *, void *))
 {
@@ -204,30 +205,36 @@ testsmix(void (* smix)(uint8_t *, size_t, uint64_t, void *, void *))
 		return (-1);
 
 	/* Does it match? */
-	return (memcmp(testcase.result, hbuf, TESTLEN));
+	return (memcmp(testcase.result, hbuf, TESTLEN) != 0);
 }
 
-static void
+/* Pick a working smix.  Return 0 on success; or -1 if we ran out of memory. */
+static int
 selectsmix(void)
 {
+	int rc;
 
 #ifdef CPUSUPPORT_X86_SSE2
 	/* If we're running on an SSE2-capable CPU, try that code. */
 	if (cpusupport_x86_sse2()) {
 		/* If SSE2ized smix works, use it. */
-		if (!testsmix(crypto_scrypt_smix_sse2)) {
+		if ((rc = testsmix(crypto_scrypt_smix_sse2)) == 0) {
 			smix_func = crypto_scrypt_smix_sse2;
-			return;
+			return (0);
 		}
+		if (rc == -1)
+			return (-1);
 		warn0("Disabling broken SSE2 scrypt support - please report bug!");
 	}
 #endif
 
 	/* If generic smix works, use it. */
-	if (!testsmix(crypto_scrypt_smix)) {
+	if ((rc = testsmix(crypto_scrypt_smix)) == 0) {
 		smix_func = crypto_scrypt_smix;
-		return;
+		return (0);
 	}
+	if (rc == -1)
+		return (-1);
 	warn0("Generic scrypt code is broken - please report bug!");
 
 	/* If we get here, something really bad happened. */
@@ -249,8 +256,8 @@ crypto_scrypt(const uint8_t * passwd, size_t passwdlen,
     uint8_t * buf, size_t buflen)
 {
 
-	if (smix_func == NULL)
-		selectsmix();
+	if ((smix_func == NULL) && selectsmix())
+		return (-1);
 
 	return (crypto_scrypt_internal(passwd, passwdlen, salt, saltlen, N,
 	    _r, _p, buf, buflen, smix_func));
-- 
2.43.0


From 8723e8502adf14158082b7eb1fa9a5b95f85ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:42 +0000
Subject: [PATCH 10/12] fix: zero the HMAC state when encrypting or decrypting
 a file fails

It contains the (padded) MAC key, which was left on the stack.
---
 lib/scryptenc/scryptenc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index df9ba1b..4aa5e0e 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -680,6 +680,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 
 err1:
 	insecure_memzero(dk, 64);
+	insecure_memzero(&hctx, sizeof(HMAC_SHA256_CTX));
 
 	/* Failure! */
 	return (rc);
@@ -905,6 +906,9 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 	return (SCRYPT_OK);
 
 err0:
+	/* Zero sensitive data. */
+	insecure_memzero(&hctx, sizeof(HMAC_SHA256_CTX));
+
 	/* Failure! */
 	return (rc);
 }
-- 
2.43.0


From b13b2875b009f28ede92e2b309b569f4407752e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:55 +0000
Subject: [PATCH 11/12] fix: do not use part of a passphrase if reading it
 fails

If the descriptor is in non-blocking mode, fgets(3) returns whatever it has
read so far when no more is available, with the error flag set.  We took that
for a complete line, and encrypted with the start of the passphrase.
---
 libcperciva/util/readpass.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libcperciva/util/readpass.c b/libcperciva/util/readpass.c
index 3683aa1..358c07c 100644
--- a/libcperciva/util/readpass.c
+++ b/libcperciva/util/readpass.c
@@ -135,8 +135,12 @@ retry:
 	if (usingtty)
 		fprintf(stderr, "%s: ", prompt);
 
-	/* Read the password. */
-	if (fgets(passbuf, MAXPASSLEN, readfrom) == NULL) {
+	/*
+	 * Read the password.  If the descriptor is in non-blocking mode, fgets
+	 * can return an incomplete line, in which case the error flag is set.
+	 */
+	if ((fgets(passbuf, MAXPASSLEN, readfrom) == NULL) ||
+	    ferror(readfrom)) {
 		if (feof(readfrom))
 			warn0("EOF reading password");
 		else
@@ -148,7 +152,8 @@ retry:
 	if (confirmprompt != NULL) {
 		if (usingtty)
 			fprintf(stderr, "%s: ", confirmprompt);
-		if (fgets(confpassbuf, MAXPASSLEN, readfrom) == NULL) {
+		if ((fgets(confpassbuf, MAXPASSLEN, readfrom) == NULL) ||
+		    ferror(readfrom)) {
 			if (feof(readfrom))
 				warn0("EOF reading password");
 			else
-- 
2.43.0


From 581a0e3b482f1bf44b9e1be6c6637f1f2014fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:55 +0000
Subject: [PATCH 12/12] fix: notice read errors after the first line of a
 passphrase file

fgetc(3) returning EOF does not imply that we have reached the end.
---
 libcperciva/util/readpass_file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libcperciva/util/readpass_file.c b/libcperciva/util/readpass_file.c
index 957502a..d3d1115 100644
--- a/libcperciva/util/readpass_file.c
+++ b/libcperciva/util/readpass_file.c
@@ -46,6 +46,12 @@ readpass_file(char ** passwd, const char * filename)
 		goto err2;
 	}
 
+	/* Bail if we couldn't read everything. */
+	if (ferror(f)) {
+		warnp("fread(%s)", filename);
+		goto err2;
+	}
+
 	/* Close the file. */
 	if (fclose(f)) {
 		warnp("fclose(%s)", filename);
-- 
2.43.0

