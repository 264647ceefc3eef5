From 1347ca66a45bebd6f3df5be9ddde2b99fffd4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 01/12] fix: report failure if the output could not be flushed
 or closed

A write error which only shows up when the buffered output is flushed
(or when the file is closed) was at most printed as a warning; the exit
status was 0 even though the output was incomplete.
---
 main.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index d4c106b..9c17db5 100644
--- a/main.c
+++ b/main.c
@@ -180,8 +180,18 @@ cleanup:
 	/* Close any files we opened. */
 	if ((infile != stdin) && fclose(infile))
 		warnp("fclose");
-	if ((outfile != stdout) && fclose(outfile))
-		warnp("fclose");
+	if (outfile != stdout) {
+		if (fclose(outfile)) {
+			/* Buffered data (or the file) might have been lost. */
+			if (rc == SCRYPT_OK)
+				rc = SCRYPT_EWRFILE;
+			else
+				warnp("fclose");
+		}
+	} else {
+		if ((rc == SCRYPT_OK) && fflush(outfile))
+			rc = SCRYPT_EWRFILE;
+	}
 
 	/* If we failed, print the right error message and exit. */
 	if (rc != SCRYPT_OK) {
-- 
2.43.0


From 071278273f57032c4b32d8a4513c0ce851cbca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 02/12] fix: free the expanded AES key after a write error

When writing the output failed, scryptenc_file() and scryptdec_file_copy()
leaked the expanded AES key, leaving key material in memory.
---
 lib/scryptenc/scryptenc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 5f87382..affbff8 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -627,6 +627,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 		HMAC_SHA256_Update(&hctx, buf, readlen);
 		if (fwrite(buf, 1, readlen, outfile) < readlen) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err1;
 		}
@@ -845,6 +846,7 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 		crypto_aesctr_stream(AES, buf, buf, buflen - 32);
 		if (fwrite(buf, 1, buflen - 32, outfile) < buflen - 32) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err0;
 		}
-- 
2.43.0


From f13a5948a9250747217144637f818fd27372f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 03/12] fix: do not abort if the scrypt self-test runs out of
 memory

A failed memory allocation in the self-test was treated as evidence that
the scrypt code is broken, and led to abort() instead of an error.
---
 lib-platform/crypto/crypto_scrypt.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lib-platform/crypto/crypto_scrypt.c b/lib-platform/crypto/crypto_scrypt.c
index 6057f0a..08a1770 100644
--- a/lib-platform/crypto/crypto_scrypt.c
+++ b/lib-platform/crypto/crypto_scrypt.c
@@ -191,6 +191,7 @@ static struct scrypt_test {
 	}
 };
 
+/* Return 0 if ${smix} works, 1 if it is broken, or -1 if we can't tell. */
 static int
 testsmix(void (* smix)(uint8_t *, size_t, uint64_t, void *, void *))
 {
@@ -204,30 +205,39 @@ testsmix(void (* smix)(uint8_t *, size_t, uint64_t, void *, void *))
 		return (-1);
 
 	/* Does it match? */
-	return (memcmp(testcase.result, hbuf, TESTLEN));
+	return (memcmp(testcase.result, hbuf, TESTLEN) ? 1 : 0);
 }
 
-static void
+static int
 selectsmix(void)
 {
+	int rc;
 
 #ifdef CPUSUPPORT_X86_SSE2
 	/* If we're running on an SSE2-capable CPU, try that code. */
 	if (cpusupport_x86_sse2()) {
 		/* If SSE2ized smix works, use it. */
-		if (!testsmix(crypto_scrypt_smix_sse2)) {
+		if ((rc = testsmix(crypto_scrypt_smix_sse2)) == 0) {
 			smix_func = crypto_scrypt_smix_sse2;
-			return;
+			return (0);
 		}
+
+		/* If we couldn't perform the test, try again next time. */
+		if (rc == -1)
+			return (-1);
 		warn0("Disabling broken SSE2 scrypt support - please report bug!");
 	}
 #endif
 
 	/* If generic smix works, use it. */
-	if (!testsmix(crypto_scrypt_smix)) {
+	if ((rc = testsmix(crypto_scrypt_smix)) == 0) {
 		smix_func = crypto_scrypt_smix;
-		return;
+		return (0);
 	}
+
+	/* If we couldn't perform the test, try again next time. */
+	if (rc == -1)
+		return (-1);
 	warn0("Generic scrypt code is broken - please report bug!");
 
 	/* If we get here, something really bad happened. */
@@ -249,8 +259,8 @@ crypto_scrypt(const uint8_t * passwd, size_t passwdlen,
     uint8_t * buf, size_t buflen)
 {
 
-	if (smix_func == NULL)
-		selectsmix();
+	if ((smix_func == NULL) && selectsmix())
+		return (-1);
 
 	return (crypto_scrypt_internal(passwd, passwdlen, salt, saltlen, N,
 	    _r, _p, buf, buflen, smix_func));
-- 
2.43.0


From e7d792a71a04bf24ef0009deed9d0238bf0f7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 04/12] fix: do not print nonsense for invalid or huge
 parameters

The "info" command reported success and printed meaningless values (after
undefined behaviour) for files with parameters which are not valid, and
the amount of memory required was computed with 32-bit arithmetic for
large r.
---
 lib/scryptenc/scryptenc.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index affbff8..913eeae 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -72,10 +72,17 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
     double opps, double maxtime)
 {
 	uint64_t N = (uint64_t)(1) << logN;
-	uint64_t mem_minimum = 128 * r * N;
+	uint64_t mem_minimum;
 	double expected_seconds = opps > 0 ? (double)(4 * N * r * p) / opps : 0;
 	char * human_memlimit = humansize(memlimit);
-	char * human_mem_minimum = humansize(mem_minimum);
+	char * human_mem_minimum;
+
+	/* Compute 128 * N * r, without overflowing. */
+	if (N > UINT64_MAX / 128 / r)
+		mem_minimum = UINT64_MAX;
+	else
+		mem_minimum = 128 * N * r;
+	human_mem_minimum = humansize(mem_minimum);
 
 	/* Parameters */
 	fprintf(stderr, "Parameters used: N = %" PRIu64 "; r = %" PRIu32
@@ -334,6 +341,13 @@ scryptdec_file_printparams(FILE * infile)
 	r = be32dec(&header[8]);
 	p = be32dec(&header[12]);
 
+	/* Sanity-check values. */
+	if ((logN < 1) || (logN > 63) || (r == 0) || (p == 0) ||
+	    ((uint64_t)(r) * (uint64_t)(p) >= 0x40000000)) {
+		rc = SCRYPT_EINVAL;
+		goto err0;
+	}
+
 	/* Print parameters. */
 	display_params(logN, r, p, 0, 0, 0);
 
-- 
2.43.0


From 734f894522df3947a7633a37e2361599d9ba97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 05/12] fix: do not accept NaN as a floating-point number
 within bounds

With "-m nan" this led to a failed assertion, and with "-t nan" to
undefined behaviour.
---
 libcperciva/util/parsenum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..3a6db81 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -151,7 +151,7 @@ parsenum_float(const char * s, double min, double max, int trailing)
 	val = strtod(s, &eptr);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max))
+	else if (!((val >= min) && (val <= max)))
 		errno = ERANGE;
 	return (val);
 }
-- 
2.43.0


From 2040e60410efd37683a2ed5fbc83e79f00913406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 06/12] fix: handle memory allocation failures when displaying
 parameters

display_params() passed a NULL pointer to fprintf's %s if humansize()
failed, and "info" reported success.
---
 lib/scryptenc/scryptenc.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 913eeae..e7a5ab4 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -67,7 +67,7 @@ struct scryptdec_file_cookie {
 	uint8_t	dk[64];
 };
 
-static void
+static int
 display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
     double opps, double maxtime)
 {
@@ -83,6 +83,8 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
 	else
 		mem_minimum = 128 * N * r;
 	human_mem_minimum = humansize(mem_minimum);
+	if ((human_memlimit == NULL) || (human_mem_minimum == NULL))
+		goto err1;
 
 	/* Parameters */
 	fprintf(stderr, "Parameters used: N = %" PRIu64 "; r = %" PRIu32
@@ -103,6 +105,16 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
 	/* Clean up */
 	free(human_memlimit);
 	free(human_mem_minimum);
+
+	/* Success! */
+	return (SCRYPT_OK);
+
+err1:
+	free(human_memlimit);
+	free(human_mem_minimum);
+
+	/* Failure! */
+	return (SCRYPT_ENOMEM);
 }
 
 static int
@@ -172,8 +184,9 @@ pickparams(size_t maxmem, double maxmemfrac, double maxtime,
 		*p = (uint32_t)(maxrp) / *r;
 	}
 
-	if (verbose)
-		display_params(*logN, *r, *p, memlimit, opps, maxtime);
+	if (verbose && ((rc = display_params(*logN, *r, *p, memlimit, opps,
+	    maxtime)) != SCRYPT_OK))
+		return (rc);
 
 	/* Success! */
 	return (SCRYPT_OK);
@@ -208,8 +221,9 @@ checkparams(size_t maxmem, double maxmemfrac, double maxtime,
 			return (rc);
 		opslimit = opps * maxtime;
 
-		if (verbose)
-			display_params(logN, r, p, memlimit, opps, maxtime);
+		if (verbose && ((rc = display_params(logN, r, p, memlimit,
+		    opps, maxtime)) != SCRYPT_OK))
+			return (rc);
 
 		/* Check limits. */
 		N = (uint64_t)(1) << logN;
@@ -225,8 +239,9 @@ checkparams(size_t maxmem, double maxmemfrac, double maxtime,
 		memlimit = 0;
 		opps = 0;
 
-		if (verbose)
-			display_params(logN, r, p, memlimit, opps, maxtime);
+		if (verbose && ((rc = display_params(logN, r, p, memlimit,
+		    opps, maxtime)) != SCRYPT_OK))
+			return (rc);
 	}
 
 	/* Success! */
@@ -349,7 +364,8 @@ scryptdec_file_printparams(FILE * infile)
 	}
 
 	/* Print parameters. */
-	display_params(logN, r, p, 0, 0, 0);
+	if ((rc = display_params(logN, r, p, 0, 0, 0)) != SCRYPT_OK)
+		goto err0;
 
 	/* Success! */
 	return (SCRYPT_OK);
-- 
2.43.0


From 76d71e11866d4fc9180656f9117b7d38fa274fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 07/12] fix: refuse scrypt parameters when decrypting instead
 of aborting

'scrypt dec --logN 10 -r 1 -p 1 FILE' failed an assertion in
scryptdec_file_prep().  The parameters of a decryption are read from the
encrypted file, so report an error and exit.
---
 main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main.c b/main.c
index 9c17db5..dc52093 100644
--- a/main.c
+++ b/main.c
@@ -356,6 +356,12 @@ main(int argc, char * argv[])
 		goto err0;
 	}
 
+	/* When decrypting, the parameters come from the input file. */
+	if (dec && (params.logN != 0)) {
+		warn0("--logN, -r, and -p cannot be used with 'dec'");
+		goto err0;
+	}
+
 	/* We can't have a maxmemfrac of 0. */
 	if (params.maxmemfrac == 0.0) {
 		warn0("-m must be greater than 0");
-- 
2.43.0


From 3a78b587afced95c596e9413ceb4cea321870061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 08/12] fix: do not use part of a passphrase when reading it
 fails

fgets() returns the part of a line which was already read if the stream
then fails with EAGAIN (e.g. a non-blocking terminal or pipe), and fgetc()
returns EOF for a read error; in both cases readpass() or readpass_file()
silently used an incomplete passphrase.  Check ferror().
---
 libcperciva/util/readpass.c      | 8 +++++---
 libcperciva/util/readpass_file.c | 4 ++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/libcperciva/util/readpass.c b/libcperciva/util/readpass.c
index 3683aa1..8b5dfaa 100644
--- a/libcperciva/util/readpass.c
+++ b/libcperciva/util/readpass.c
@@ -135,8 +135,9 @@ retry:
 	if (usingtty)
 		fprintf(stderr, "%s: ", prompt);
 
-	/* Read the password. */
-	if (fgets(passbuf, MAXPASSLEN, readfrom) == NULL) {
+	/* Read the password.  (An error might leave us with part of a line.) */
+	if ((fgets(passbuf, MAXPASSLEN, readfrom) == NULL) ||
+	    ferror(readfrom)) {
 		if (feof(readfrom))
 			warn0("EOF reading password");
 		else
@@ -148,7 +149,8 @@ retry:
 	if (confirmprompt != NULL) {
 		if (usingtty)
 			fprintf(stderr, "%s: ", confirmprompt);
-		if (fgets(confpassbuf, MAXPASSLEN, readfrom) == NULL) {
+		if ((fgets(confpassbuf, MAXPASSLEN, readfrom) == NULL) ||
+		    ferror(readfrom)) {
 			if (feof(readfrom))
 				warn0("EOF reading password");
 			else
diff --git a/libcperciva/util/readpass_file.c b/libcperciva/util/readpass_file.c
index 957502a..dcdc7eb 100644
--- a/libcperciva/util/readpass_file.c
+++ b/libcperciva/util/readpass_file.c
@@ -45,6 +45,10 @@ readpass_file(char ** passwd, const char * filename)
 		warn0("line too long, or more than 1 line in %s", filename);
 		goto err2;
 	}
+	if (ferror(f)) {
+		warnp("fread(%s)", filename);
+		goto err2;
+	}
 
 	/* Close the file. */
 	if (fclose(f)) {
-- 
2.43.0


From 67e1ccee61ccbdd86c328fbf24a5ddea0d9737a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 09/12] fix: compute the displayed time estimate without
 overflow

For parameters with 4Nrp >= 2^64 the -v output claimed that decryption would
take approximately 0.0 seconds.
---
 lib/scryptenc/scryptenc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index e7a5ab4..116e615 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -73,7 +73,8 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
 {
 	uint64_t N = (uint64_t)(1) << logN;
 	uint64_t mem_minimum;
-	double expected_seconds = opps > 0 ? (double)(4 * N * r * p) / opps : 0;
+	double expected_seconds =
+	    opps > 0 ? 4.0 * (double)N * (double)r * (double)p / opps : 0;
 	char * human_memlimit = humansize(memlimit);
 	char * human_mem_minimum;
 
-- 
2.43.0


From 4c2e92bea1f993e52608e310908935a799b1f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 10/12] fix: wipe the HMAC state when encrypting or decrypting
 a file fails

The block buffer of the HMAC context still holds the HMAC key (xored with a
constant) if scryptenc_file() or scryptdec_file_copy() fail before
HMAC_SHA256_Final() is reached.
---
 lib/scryptenc/scryptenc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 116e615..6f528f8 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -686,6 +686,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 	return (SCRYPT_OK);
 
 err1:
+	insecure_memzero(&hctx, sizeof(HMAC_SHA256_CTX));
 	insecure_memzero(dk, 64);
 
 	/* Failure! */
@@ -912,6 +913,9 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 	return (SCRYPT_OK);
 
 err0:
+	/* Zero sensitive data. */
+	insecure_memzero(&hctx, sizeof(HMAC_SHA256_CTX));
+
 	/* Failure! */
 	return (rc);
 }
-- 
2.43.0


From 4590cb9f55ae7152d6d3f18474693e8ec3185419 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 11/12] fix: refuse a passphrase line that does not fit instead
 of cutting it

---
 libcperciva/util/readpass.c | 54 ++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/libcperciva/util/readpass.c b/libcperciva/util/readpass.c
index 8b5dfaa..509ed49 100644
--- a/libcperciva/util/readpass.c
+++ b/libcperciva/util/readpass.c
@@ -54,6 +54,42 @@ resetsigs(struct sigaction savedsa[NSIGS])
 	}
 }
 
+/* Read a line from ${f} into ${buf}; refuse a password which does not fit. */
+static int
+readpassline(char buf[MAXPASSLEN], FILE * f)
+{
+	int c;
+
+	/* Read the line.  (An error might leave us with part of it.) */
+	if ((fgets(buf, MAXPASSLEN, f) == NULL) || ferror(f))
+		goto err1;
+
+	/* If we filled the buffer, only the line terminator may follow. */
+	if ((strlen(buf) == MAXPASSLEN - 1) &&
+	    (buf[MAXPASSLEN - 2] != '\n')) {
+		if ((c = fgetc(f)) == '\r')
+			c = fgetc(f);
+		if (ferror(f))
+			goto err1;
+		if ((c != EOF) && (c != '\n')) {
+			warn0("Password is too long");
+			goto err0;
+		}
+	}
+
+	/* Success! */
+	return (0);
+
+err1:
+	if (feof(f))
+		warn0("EOF reading password");
+	else
+		warnp("Cannot read password");
+err0:
+	/* Failure! */
+	return (-1);
+}
+
 /**
  * readpass(passwd, prompt, confirmprompt, devtty):
  * If ${devtty} is 0, read a password from stdin.  If ${devtty} is 1, read a
@@ -135,28 +171,16 @@ retry:
 	if (usingtty)
 		fprintf(stderr, "%s: ", prompt);
 
-	/* Read the password.  (An error might leave us with part of a line.) */
-	if ((fgets(passbuf, MAXPASSLEN, readfrom) == NULL) ||
-	    ferror(readfrom)) {
-		if (feof(readfrom))
-			warn0("EOF reading password");
-		else
-			warnp("Cannot read password");
+	/* Read the password. */
+	if (readpassline(passbuf, readfrom))
 		goto err3;
-	}
 
 	/* Confirm the password if necessary. */
 	if (confirmprompt != NULL) {
 		if (usingtty)
 			fprintf(stderr, "%s: ", confirmprompt);
-		if ((fgets(confpassbuf, MAXPASSLEN, readfrom) == NULL) ||
-		    ferror(readfrom)) {
-			if (feof(readfrom))
-				warn0("EOF reading password");
-			else
-				warnp("Cannot read password");
+		if (readpassline(confpassbuf, readfrom))
 			goto err3;
-		}
 		if (strcmp(passbuf, confpassbuf)) {
 			fprintf(stderr,
 			    "Passwords mismatch, please try again\n");
-- 
2.43.0


From 39225f3a44806400e88e0e7665f631bbed480174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 12/12] fix: refuse negative numbers given for unsigned options

strtoumax accepts a minus sign and wraps the value around modulo 2^64,
so that '-r -18446744073709551615' was taken as '-r 1'.
---
 libcperciva/util/parsenum.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index 3a6db81..dea6c24 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -2,6 +2,7 @@
 #define PARSENUM_H_
 
 #include <assert.h>
+#include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
 #include <math.h>
@@ -191,6 +192,13 @@ parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
 		errno = EINVAL;
 	else if ((val < min) || (val > max) || (val > typemax))
 		errno = ERANGE;
+	else if (val != 0) {
+		/* strtoumax wraps negative values; they are out of range. */
+		while (isspace((unsigned char)*s))
+			s++;
+		if (*s == '-')
+			errno = ERANGE;
+	}
 	return (val);
 }
 
-- 
2.43.0

