From 286f8156d91ab7a8d51dc0e1bef77693d4f44175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 01/58] fix: expand ranges and match names exactly when
 generating Unicode classes

UnicodeData.txt gives large blocks as First/Last pairs, which were taken
as two lone code points. A script name was matched as a prefix, so Han
also held Hangul, Hanunoo and Hanifi Rohingya. And an upper bound such
as 0E30 reads as a number equal to zero in awk, so that the range was
cut down to its first code point.
---
 share/bin/class.awk             |  2 +-
 share/bin/ucdrange.awk          | 26 ++++++++++++++++++
 src/libre/class/Makefile        | 11 ++++----
 src/libre/class/utf8_C.c        | 12 +++------
 src/libre/class/utf8_Co.c       |  9 +++----
 src/libre/class/utf8_Cs.c       |  5 +---
 src/libre/class/utf8_Han.c      | 19 +------------
 src/libre/class/utf8_L.c        | 38 +++++++++-----------------
 src/libre/class/utf8_Lao.c      |  2 +-
 src/libre/class/utf8_Lo.c       | 38 +++++++++-----------------
 src/libre/class/utf8_Thai.c     |  8 ++----
 src/libre/class/utf8_assigned.c | 48 +++++++++------------------------
 12 files changed, 81 insertions(+), 137 deletions(-)
 create mode 100644 share/bin/ucdrange.awk

diff --git a/share/bin/class.awk b/share/bin/class.awk
index a91750c..2cb1093 100755
--- a/share/bin/class.awk
+++ b/share/bin/class.awk
@@ -68,7 +68,7 @@ function range(i, n) {
 	a = hex($1)
 	b = hex($2)
 
-	range(a, $2 ? b - a : 0)
+	range(a, $2 != "" ? b - a : 0)
 }
 
 END {
diff --git a/share/bin/ucdrange.awk b/share/bin/ucdrange.awk
new file mode 100644
index 0000000..1a3f435
--- /dev/null
+++ b/share/bin/ucdrange.awk
@@ -0,0 +1,26 @@
+#!/usr/bin/awk -f
+
+#
+# UnicodeData.txt gives large ranges of code points as a pair of lines,
+# "<..., First>" and "<..., Last>". Format those as a single line with
+# the code point field of the form 11A51..11A56, as in Scripts.txt.
+#
+
+BEGIN {
+	FS = ";"
+	OFS = ";"
+}
+
+$2 ~ /, First>$/ {
+	first = $1
+	next
+}
+
+$2 ~ /, Last>$/ {
+	$1 = first ".." $1
+}
+
+{
+	print
+}
+
diff --git a/src/libre/class/Makefile b/src/libre/class/Makefile
index 4e75a96..88b2cb0 100644
--- a/src/libre/class/Makefile
+++ b/src/libre/class/Makefile
@@ -6,6 +6,7 @@ SED ?= sed
 UCD ?= share/ucd
 CODEPOINTS ?= ${AWK} -f share/bin/codepoints.awk
 CLASS ?= ${AWK} -f share/bin/class.awk
+UCDRANGE ?= ${AWK} -f share/bin/ucdrange.awk
 
 UNI_SCRIPT != cat ${UCD}/Scripts.txt \
 	| ${SED} 's/\#.*//' | cut -d';' -f2 | sort | uniq
@@ -17,7 +18,7 @@ src/libre/class/utf8_${script}.c:
 	| ${SED} 's/\#.*//' \
 	| tr -d ' ' \
 	| grep -v '^$$' \
-	| ${AWK} -F';' -v script='^${script}' '$$2 ~ script { print $$1 }' \
+	| ${AWK} -F';' -v script='${script}' '$$2 == script { print $$1 }' \
 	| ${CLASS} -v class=utf8_${script} \
 	> ${.TARGET}
 
@@ -36,7 +37,7 @@ UNI_CAT_UNIQ != echo ${UNI_CAT:C/(.)./\1/} | tr ' ' '\n' | sort | uniq
 
 # This could be faster if we kept the minimized DFA for each category
 src/libre/class/utf8_${group}.c:
-	cat ${UCD}/UnicodeData.txt \
+	${UCDRANGE} ${UCD}/UnicodeData.txt \
 	| ${AWK} -F';' -v group='^${group}' '$$3 ~ group { print $$1 }' \
 	| ${CLASS} -v class=utf8_${group} \
 	> ${.TARGET}
@@ -48,7 +49,7 @@ SRC += src/libre/class/utf8_${group}.c
 .for cat in ${UNI_CAT}
 
 src/libre/class/utf8_${cat}.c:
-	cat ${UCD}/UnicodeData.txt \
+	${UCDRANGE} ${UCD}/UnicodeData.txt \
 	| ${AWK} -F';' -v cat='${cat}' '$$3 == cat { print $$1 }' \
 	| ${CLASS} -v class=utf8_${cat} \
 	> ${.TARGET}
@@ -66,9 +67,9 @@ SRC += src/libre/class/utf8_private.c
 
 # Plane 15/16 private use range start/end explicitly excluded here
 src/libre/class/utf8_assigned.c:
-	cat ${UCD}/UnicodeData.txt \
-	| grep -v -E '^(F0000|FFFFD|100000|10FFFD)$$' \
+	${UCDRANGE} ${UCD}/UnicodeData.txt \
 	| cut -d';' -f1 \
+	| grep -v -E '^(F0000|100000)\.\.' \
 	| ${CLASS} -v class=utf8_assigned \
 	> ${.TARGET}
 
diff --git a/src/libre/class/utf8_C.c b/src/libre/class/utf8_C.c
index f781917..827d19d 100644
--- a/src/libre/class/utf8_C.c
+++ b/src/libre/class/utf8_C.c
@@ -17,11 +17,7 @@ static const struct range ranges[] = {
 	{ 0x202AUL, 0x202EUL },
 	{ 0x2060UL, 0x2064UL },
 	{ 0x2066UL, 0x206FUL },
-	{ 0xD800UL, 0xD800UL },
-	{ 0xDB7FUL, 0xDB80UL },
-	{ 0xDBFFUL, 0xDC00UL },
-	{ 0xDFFFUL, 0xE000UL },
-	{ 0xF8FFUL, 0xF8FFUL },
+	{ 0xD800UL, 0xF8FFUL },
 	{ 0xFEFFUL, 0xFEFFUL },
 	{ 0xFFF9UL, 0xFFFBUL },
 	{ 0x110BDUL, 0x110BDUL },
@@ -31,10 +27,8 @@ static const struct range ranges[] = {
 	{ 0x1D173UL, 0x1D17AUL },
 	{ 0xE0001UL, 0xE0001UL },
 	{ 0xE0020UL, 0xE007FUL },
-	{ 0xF0000UL, 0xF0000UL },
-	{ 0xFFFFDUL, 0xFFFFDUL },
-	{ 0x100000UL, 0x100000UL },
-	{ 0x10FFFDUL, 0x10FFFDUL }
+	{ 0xF0000UL, 0xFFFFDUL },
+	{ 0x100000UL, 0x10FFFDUL }
 };
 
 const struct class utf8_C = {
diff --git a/src/libre/class/utf8_Co.c b/src/libre/class/utf8_Co.c
index 5b6827a..b7ce443 100644
--- a/src/libre/class/utf8_Co.c
+++ b/src/libre/class/utf8_Co.c
@@ -3,12 +3,9 @@
 #include "class.h"
 
 static const struct range ranges[] = {
-	{ 0xE000UL, 0xE000UL },
-	{ 0xF8FFUL, 0xF8FFUL },
-	{ 0xF0000UL, 0xF0000UL },
-	{ 0xFFFFDUL, 0xFFFFDUL },
-	{ 0x100000UL, 0x100000UL },
-	{ 0x10FFFDUL, 0x10FFFDUL }
+	{ 0xE000UL, 0xF8FFUL },
+	{ 0xF0000UL, 0xFFFFDUL },
+	{ 0x100000UL, 0x10FFFDUL }
 };
 
 const struct class utf8_Co = {
diff --git a/src/libre/class/utf8_Cs.c b/src/libre/class/utf8_Cs.c
index 42915ac..2418b4b 100644
--- a/src/libre/class/utf8_Cs.c
+++ b/src/libre/class/utf8_Cs.c
@@ -3,10 +3,7 @@
 #include "class.h"
 
 static const struct range ranges[] = {
-	{ 0xD800UL, 0xD800UL },
-	{ 0xDB7FUL, 0xDB80UL },
-	{ 0xDBFFUL, 0xDC00UL },
-	{ 0xDFFFUL, 0xDFFFUL }
+	{ 0xD800UL, 0xDFFFUL }
 };
 
 const struct class utf8_Cs = {
diff --git a/src/libre/class/utf8_Han.c b/src/libre/class/utf8_Han.c
index 0fdf663..3f72556 100644
--- a/src/libre/class/utf8_Han.c
+++ b/src/libre/class/utf8_Han.c
@@ -3,20 +3,6 @@
 #include "class.h"
 
 static const struct range ranges[] = {
-	{ 0x1100UL, 0x11FFUL },
-	{ 0x302EUL, 0x302FUL },
-	{ 0x3131UL, 0x318EUL },
-	{ 0x3200UL, 0x321EUL },
-	{ 0x3260UL, 0x327EUL },
-	{ 0xA960UL, 0xA97CUL },
-	{ 0xAC00UL, 0xD7A3UL },
-	{ 0xD7B0UL, 0xD7C6UL },
-	{ 0xD7CBUL, 0xD7FBUL },
-	{ 0xFFA0UL, 0xFFBEUL },
-	{ 0xFFC2UL, 0xFFC7UL },
-	{ 0xFFCAUL, 0xFFCFUL },
-	{ 0xFFD2UL, 0xFFD7UL },
-	{ 0xFFDAUL, 0xFFDCUL },
 	{ 0x2E80UL, 0x2E99UL },
 	{ 0x2E9BUL, 0x2EF3UL },
 	{ 0x2F00UL, 0x2FD5UL },
@@ -37,10 +23,7 @@ static const struct range ranges[] = {
 	{ 0x2EBF0UL, 0x2EE5DUL },
 	{ 0x2F800UL, 0x2FA1DUL },
 	{ 0x30000UL, 0x3134AUL },
-	{ 0x31350UL, 0x33479UL },
-	{ 0x1720UL, 0x1734UL },
-	{ 0x10D00UL, 0x10D27UL },
-	{ 0x10D30UL, 0x10D39UL }
+	{ 0x31350UL, 0x33479UL }
 };
 
 const struct class utf8_Han = {
diff --git a/src/libre/class/utf8_L.c b/src/libre/class/utf8_L.c
index e37048b..83f87c7 100644
--- a/src/libre/class/utf8_L.c
+++ b/src/libre/class/utf8_L.c
@@ -301,10 +301,8 @@ static const struct range ranges[] = {
 	{ 0x3131UL, 0x318EUL },
 	{ 0x31A0UL, 0x31BFUL },
 	{ 0x31F0UL, 0x31FFUL },
-	{ 0x3400UL, 0x3400UL },
-	{ 0x4DBFUL, 0x4DBFUL },
-	{ 0x4E00UL, 0x4E00UL },
-	{ 0x9FFFUL, 0xA48CUL },
+	{ 0x3400UL, 0x4DBFUL },
+	{ 0x4E00UL, 0xA48CUL },
 	{ 0xA4D0UL, 0xA4FDUL },
 	{ 0xA500UL, 0xA60CUL },
 	{ 0xA610UL, 0xA61FUL },
@@ -354,8 +352,7 @@ static const struct range ranges[] = {
 	{ 0xAB30UL, 0xAB5AUL },
 	{ 0xAB5CUL, 0xAB69UL },
 	{ 0xAB70UL, 0xABE2UL },
-	{ 0xAC00UL, 0xAC00UL },
-	{ 0xD7A3UL, 0xD7A3UL },
+	{ 0xAC00UL, 0xD7A3UL },
 	{ 0xD7B0UL, 0xD7C6UL },
 	{ 0xD7CBUL, 0xD7FBUL },
 	{ 0xF900UL, 0xFA6DUL },
@@ -579,10 +576,8 @@ static const struct range ranges[] = {
 	{ 0x16FE0UL, 0x16FE1UL },
 	{ 0x16FE3UL, 0x16FE3UL },
 	{ 0x16FF2UL, 0x16FF3UL },
-	{ 0x17000UL, 0x17000UL },
-	{ 0x187FFUL, 0x18CD5UL },
-	{ 0x18CFFUL, 0x18D00UL },
-	{ 0x18D1EUL, 0x18D1EUL },
+	{ 0x17000UL, 0x18CD5UL },
+	{ 0x18CFFUL, 0x18D1EUL },
 	{ 0x18D80UL, 0x18DF2UL },
 	{ 0x1AFF0UL, 0x1AFF3UL },
 	{ 0x1AFF5UL, 0x1AFFBUL },
@@ -684,23 +679,14 @@ static const struct range ranges[] = {
 	{ 0x1EEA1UL, 0x1EEA3UL },
 	{ 0x1EEA5UL, 0x1EEA9UL },
 	{ 0x1EEABUL, 0x1EEBBUL },
-	{ 0x20000UL, 0x20000UL },
-	{ 0x2A6DFUL, 0x2A6DFUL },
-	{ 0x2A700UL, 0x2A700UL },
-	{ 0x2B73FUL, 0x2B740UL },
-	{ 0x2B81DUL, 0x2B81DUL },
-	{ 0x2B820UL, 0x2B820UL },
-	{ 0x2CEADUL, 0x2CEADUL },
-	{ 0x2CEB0UL, 0x2CEB0UL },
-	{ 0x2EBE0UL, 0x2EBE0UL },
-	{ 0x2EBF0UL, 0x2EBF0UL },
-	{ 0x2EE5DUL, 0x2EE5DUL },
+	{ 0x20000UL, 0x2A6DFUL },
+	{ 0x2A700UL, 0x2B81DUL },
+	{ 0x2B820UL, 0x2CEADUL },
+	{ 0x2CEB0UL, 0x2EBE0UL },
+	{ 0x2EBF0UL, 0x2EE5DUL },
 	{ 0x2F800UL, 0x2FA1DUL },
-	{ 0x30000UL, 0x30000UL },
-	{ 0x3134AUL, 0x3134AUL },
-	{ 0x31350UL, 0x31350UL },
-	{ 0x323AFUL, 0x323B0UL },
-	{ 0x33479UL, 0x33479UL }
+	{ 0x30000UL, 0x3134AUL },
+	{ 0x31350UL, 0x33479UL }
 };
 
 const struct class utf8_L = {
diff --git a/src/libre/class/utf8_Lao.c b/src/libre/class/utf8_Lao.c
index 3c5a3a3..9b07d65 100644
--- a/src/libre/class/utf8_Lao.c
+++ b/src/libre/class/utf8_Lao.c
@@ -3,7 +3,7 @@
 #include "class.h"
 
 static const struct range ranges[] = {
-	{ 0x0E81UL, 0x0E81UL },
+	{ 0x0E81UL, 0x0E82UL },
 	{ 0x0E84UL, 0x0E84UL },
 	{ 0x0E86UL, 0x0E8AUL },
 	{ 0x0E8CUL, 0x0EA3UL },
diff --git a/src/libre/class/utf8_Lo.c b/src/libre/class/utf8_Lo.c
index 859b511..6915644 100644
--- a/src/libre/class/utf8_Lo.c
+++ b/src/libre/class/utf8_Lo.c
@@ -219,10 +219,8 @@ static const struct range ranges[] = {
 	{ 0x3131UL, 0x318EUL },
 	{ 0x31A0UL, 0x31BFUL },
 	{ 0x31F0UL, 0x31FFUL },
-	{ 0x3400UL, 0x3400UL },
-	{ 0x4DBFUL, 0x4DBFUL },
-	{ 0x4E00UL, 0x4E00UL },
-	{ 0x9FFFUL, 0xA014UL },
+	{ 0x3400UL, 0x4DBFUL },
+	{ 0x4E00UL, 0xA014UL },
 	{ 0xA016UL, 0xA48CUL },
 	{ 0xA4D0UL, 0xA4F7UL },
 	{ 0xA500UL, 0xA60BUL },
@@ -269,8 +267,7 @@ static const struct range ranges[] = {
 	{ 0xAB20UL, 0xAB26UL },
 	{ 0xAB28UL, 0xAB2EUL },
 	{ 0xABC0UL, 0xABE2UL },
-	{ 0xAC00UL, 0xAC00UL },
-	{ 0xD7A3UL, 0xD7A3UL },
+	{ 0xAC00UL, 0xD7A3UL },
 	{ 0xD7B0UL, 0xD7C6UL },
 	{ 0xD7CBUL, 0xD7FBUL },
 	{ 0xF900UL, 0xFA6DUL },
@@ -470,10 +467,8 @@ static const struct range ranges[] = {
 	{ 0x16D43UL, 0x16D6AUL },
 	{ 0x16F00UL, 0x16F4AUL },
 	{ 0x16F50UL, 0x16F50UL },
-	{ 0x17000UL, 0x17000UL },
-	{ 0x187FFUL, 0x18CD5UL },
-	{ 0x18CFFUL, 0x18D00UL },
-	{ 0x18D1EUL, 0x18D1EUL },
+	{ 0x17000UL, 0x18CD5UL },
+	{ 0x18CFFUL, 0x18D1EUL },
 	{ 0x18D80UL, 0x18DF2UL },
 	{ 0x1B000UL, 0x1B122UL },
 	{ 0x1B132UL, 0x1B132UL },
@@ -537,23 +532,14 @@ static const struct range ranges[] = {
 	{ 0x1EEA1UL, 0x1EEA3UL },
 	{ 0x1EEA5UL, 0x1EEA9UL },
 	{ 0x1EEABUL, 0x1EEBBUL },
-	{ 0x20000UL, 0x20000UL },
-	{ 0x2A6DFUL, 0x2A6DFUL },
-	{ 0x2A700UL, 0x2A700UL },
-	{ 0x2B73FUL, 0x2B740UL },
-	{ 0x2B81DUL, 0x2B81DUL },
-	{ 0x2B820UL, 0x2B820UL },
-	{ 0x2CEADUL, 0x2CEADUL },
-	{ 0x2CEB0UL, 0x2CEB0UL },
-	{ 0x2EBE0UL, 0x2EBE0UL },
-	{ 0x2EBF0UL, 0x2EBF0UL },
-	{ 0x2EE5DUL, 0x2EE5DUL },
+	{ 0x20000UL, 0x2A6DFUL },
+	{ 0x2A700UL, 0x2B81DUL },
+	{ 0x2B820UL, 0x2CEADUL },
+	{ 0x2CEB0UL, 0x2EBE0UL },
+	{ 0x2EBF0UL, 0x2EE5DUL },
 	{ 0x2F800UL, 0x2FA1DUL },
-	{ 0x30000UL, 0x30000UL },
-	{ 0x3134AUL, 0x3134AUL },
-	{ 0x31350UL, 0x31350UL },
-	{ 0x323AFUL, 0x323B0UL },
-	{ 0x33479UL, 0x33479UL }
+	{ 0x30000UL, 0x3134AUL },
+	{ 0x31350UL, 0x33479UL }
 };
 
 const struct class utf8_Lo = {
diff --git a/src/libre/class/utf8_Thai.c b/src/libre/class/utf8_Thai.c
index 95a48ef..67a7f23 100644
--- a/src/libre/class/utf8_Thai.c
+++ b/src/libre/class/utf8_Thai.c
@@ -3,12 +3,8 @@
 #include "class.h"
 
 static const struct range ranges[] = {
-	{ 0x0E01UL, 0x0E01UL },
-	{ 0x0E31UL, 0x0E32UL },
-	{ 0x0E34UL, 0x0E3AUL },
-	{ 0x0E40UL, 0x0E40UL },
-	{ 0x0E46UL, 0x0E50UL },
-	{ 0x0E5AUL, 0x0E5BUL }
+	{ 0x0E01UL, 0x0E3AUL },
+	{ 0x0E40UL, 0x0E5BUL }
 };
 
 const struct class utf8_Thai = {
diff --git a/src/libre/class/utf8_assigned.c b/src/libre/class/utf8_assigned.c
index 32b689a..db548f2 100644
--- a/src/libre/class/utf8_assigned.c
+++ b/src/libre/class/utf8_assigned.c
@@ -277,9 +277,7 @@ static const struct range ranges[] = {
 	{ 0x3131UL, 0x318EUL },
 	{ 0x3190UL, 0x31E5UL },
 	{ 0x31EFUL, 0x321EUL },
-	{ 0x3220UL, 0x3400UL },
-	{ 0x4DBFUL, 0x4E00UL },
-	{ 0x9FFFUL, 0xA48CUL },
+	{ 0x3220UL, 0xA48CUL },
 	{ 0xA490UL, 0xA4C6UL },
 	{ 0xA4D0UL, 0xA62BUL },
 	{ 0xA640UL, 0xA6F7UL },
@@ -307,15 +305,10 @@ static const struct range ranges[] = {
 	{ 0xAB30UL, 0xAB6BUL },
 	{ 0xAB70UL, 0xABEDUL },
 	{ 0xABF0UL, 0xABF9UL },
-	{ 0xAC00UL, 0xAC00UL },
-	{ 0xD7A3UL, 0xD7A3UL },
+	{ 0xAC00UL, 0xD7A3UL },
 	{ 0xD7B0UL, 0xD7C6UL },
 	{ 0xD7CBUL, 0xD7FBUL },
-	{ 0xD800UL, 0xD800UL },
-	{ 0xDB7FUL, 0xDB80UL },
-	{ 0xDBFFUL, 0xDC00UL },
-	{ 0xDFFFUL, 0xE000UL },
-	{ 0xF8FFUL, 0xFA6DUL },
+	{ 0xD800UL, 0xFA6DUL },
 	{ 0xFA70UL, 0xFAD9UL },
 	{ 0xFB00UL, 0xFB06UL },
 	{ 0xFB13UL, 0xFB17UL },
@@ -573,10 +566,8 @@ static const struct range ranges[] = {
 	{ 0x16F8FUL, 0x16F9FUL },
 	{ 0x16FE0UL, 0x16FE4UL },
 	{ 0x16FF0UL, 0x16FF6UL },
-	{ 0x17000UL, 0x17000UL },
-	{ 0x187FFUL, 0x18CD5UL },
-	{ 0x18CFFUL, 0x18D00UL },
-	{ 0x18D1EUL, 0x18D1EUL },
+	{ 0x17000UL, 0x18CD5UL },
+	{ 0x18CFFUL, 0x18D1EUL },
 	{ 0x18D80UL, 0x18DF2UL },
 	{ 0x1AFF0UL, 0x1AFF3UL },
 	{ 0x1AFF5UL, 0x1AFFBUL },
@@ -734,30 +725,17 @@ static const struct range ranges[] = {
 	{ 0x1FAEFUL, 0x1FAF8UL },
 	{ 0x1FB00UL, 0x1FB92UL },
 	{ 0x1FB94UL, 0x1FBFAUL },
-	{ 0x20000UL, 0x20000UL },
-	{ 0x2A6DFUL, 0x2A6DFUL },
-	{ 0x2A700UL, 0x2A700UL },
-	{ 0x2B73FUL, 0x2B740UL },
-	{ 0x2B81DUL, 0x2B81DUL },
-	{ 0x2B820UL, 0x2B820UL },
-	{ 0x2CEADUL, 0x2CEADUL },
-	{ 0x2CEB0UL, 0x2CEB0UL },
-	{ 0x2EBE0UL, 0x2EBE0UL },
-	{ 0x2EBF0UL, 0x2EBF0UL },
-	{ 0x2EE5DUL, 0x2EE5DUL },
+	{ 0x20000UL, 0x2A6DFUL },
+	{ 0x2A700UL, 0x2B81DUL },
+	{ 0x2B820UL, 0x2CEADUL },
+	{ 0x2CEB0UL, 0x2EBE0UL },
+	{ 0x2EBF0UL, 0x2EE5DUL },
 	{ 0x2F800UL, 0x2FA1DUL },
-	{ 0x30000UL, 0x30000UL },
-	{ 0x3134AUL, 0x3134AUL },
-	{ 0x31350UL, 0x31350UL },
-	{ 0x323AFUL, 0x323B0UL },
-	{ 0x33479UL, 0x33479UL },
+	{ 0x30000UL, 0x3134AUL },
+	{ 0x31350UL, 0x33479UL },
 	{ 0xE0001UL, 0xE0001UL },
 	{ 0xE0020UL, 0xE007FUL },
-	{ 0xE0100UL, 0xE01EFUL },
-	{ 0xF0000UL, 0xF0000UL },
-	{ 0xFFFFDUL, 0xFFFFDUL },
-	{ 0x100000UL, 0x100000UL },
-	{ 0x10FFFDUL, 0x10FFFDUL }
+	{ 0xE0100UL, 0xE01EFUL }
 };
 
 const struct class utf8_assigned = {
-- 
2.43.0


From 4150dd63620d315569204dab7b987854223eb72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 02/58] fix: class_nothspace is the complement of class_hspace

Its ranges were written in decimal.
---
 src/libre/class/Makefile    | 2 +-
 src/libre/class/nothspace.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libre/class/Makefile b/src/libre/class/Makefile
index 88b2cb0..8c94244 100644
--- a/src/libre/class/Makefile
+++ b/src/libre/class/Makefile
@@ -100,7 +100,7 @@ CLASS_bsr    = 0A 0B 0C 0D 85 # pcre \R but without crlf
 # would prefer to express these in terms of the above
 # (or to not need them at all)
 CLASS_notdigit  = 00-2F 3A-FF             # [^[:digit:]]
-CLASS_nothspace = 00-08 10-19 21-FF       # [^[:hspace:]]
+CLASS_nothspace = 00-08 0A-1F 21-FF       # [^[:hspace:]]
 CLASS_nothspace_pcre = 00-08 0A-1F 21-9F A1-FF       # [^[:hspace_pcre:]]
 CLASS_notspace  = 00-08 0E-1F 21-FF       # [^[:space:]]
 CLASS_notvspace = 00-09 0E-FF             # [^[:vspace:]]
diff --git a/src/libre/class/nothspace.c b/src/libre/class/nothspace.c
index dc15457..85b4040 100644
--- a/src/libre/class/nothspace.c
+++ b/src/libre/class/nothspace.c
@@ -4,7 +4,7 @@
 
 static const struct range ranges[] = {
 	{ 0x0000UL, 0x0008UL },
-	{ 0x0010UL, 0x0019UL },
+	{ 0x000AUL, 0x001FUL },
 	{ 0x0021UL, 0x00FFUL }
 };
 
-- 
2.43.0


From a6d04db4740e10ca94ffb5d56c8f1cb393ad9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 03/58] fix: do not mark states of a const fsm when searching
 reachability

fsm_empty(), fsm_equal(), fsm_reachableall() and fsm_reachableany() take
a const fsm but set and cleared .visited in its states, so that two threads
querying one fsm raced.
---
 src/libfsm/walk/reachable.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/libfsm/walk/reachable.c b/src/libfsm/walk/reachable.c
index ec0f5ee..e2bcd1a 100644
--- a/src/libfsm/walk/reachable.c
+++ b/src/libfsm/walk/reachable.c
@@ -9,9 +9,11 @@
 
 #include <fsm/fsm.h>
 
+#include <adt/alloc.h>
 #include <adt/set.h>
 #include <adt/stateset.h>
 #include <adt/edgeset.h>
+#include <adt/u64bitset.h>
 
 #include "../internal.h"
 
@@ -23,17 +25,21 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 	int r, stopcond;
 
 	fsm_state_t *q;
-	size_t i, qtop;
+	uint64_t *visited;
+	size_t qtop;
 
 	assert(state < fsm->statecount);
 	assert(predicate != NULL);
 
-	for (i=0; i < fsm->statecount; i++) {
-		fsm->states[i].visited = 0;
+	/* the caller's fsm is const, so marks are kept separately */
+	visited = f_calloc(fsm->alloc, u64bitset_words(fsm->statecount), sizeof *visited);
+	if (visited == NULL) {
+		return -1;
 	}
 
 	q = f_malloc(fsm->alloc, fsm->statecount * sizeof *q);
 	if (q == NULL) {
+		f_free(fsm->alloc, visited);
 		return -1;
 	}
 
@@ -44,7 +50,7 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 
 	q[0] = state;
 	qtop = 1;
-	fsm->states[state].visited = 1;
+	u64bitset_set(visited, state);
 
 	stopcond = (any) ? 1 : 0;
 
@@ -65,11 +71,11 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 		}
 
 		for (edge_set_reset(fsm->states[state].edges, &it); edge_set_next(&it, &e); ) {
-			if (fsm->states[e.state].visited == 0) {
+			if (!u64bitset_get(visited, e.state)) {
 				assert(qtop < fsm->statecount);
 
 				q[qtop++] = e.state;
-				fsm->states[e.state].visited = 1;
+				u64bitset_set(visited, e.state);
 			}
 		}
 
@@ -78,11 +84,11 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 			struct state_iter si;
 			fsm_state_t dst;
 			for (state_set_reset(fsm->states[state].epsilons, &si); state_set_next(&si, &dst); ) {
-				if (fsm->states[dst].visited == 0) {
+				if (!u64bitset_get(visited, dst)) {
 					assert(qtop < fsm->statecount);
 
 					q[qtop++] = dst;
-					fsm->states[dst].visited = 1;
+					u64bitset_set(visited, dst);
 				}
 			}
 		}
@@ -92,10 +98,7 @@ fsm_reachable(const struct fsm *fsm, fsm_state_t state,
 	goto cleanup;
 
 cleanup:
-	for (i=0; i < fsm->statecount; i++) {
-		fsm->states[i].visited = 0;
-	}
-
+	f_free(fsm->alloc, visited);
 	f_free(fsm->alloc, q);
 
 	return r;
-- 
2.43.0


From 08843c157df931b3eb5a888e9363cf7c2a002206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 04/58] fix: do not mark states of a const DFA when detecting
 required characters

Also release the stack (and leave no marks behind) when growing it fails.
---
 src/libfsm/detect_required.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/libfsm/detect_required.c b/src/libfsm/detect_required.c
index 8488376..a71ee49 100644
--- a/src/libfsm/detect_required.c
+++ b/src/libfsm/detect_required.c
@@ -16,6 +16,7 @@
 #include <fsm/walk.h>
 #include <fsm/pred.h>
 
+#include <adt/alloc.h>
 #include <adt/edgeset.h>
 #include <adt/u64bitset.h>
 
@@ -39,6 +40,10 @@ struct dr_env {
 	bool first_end_state;
 	struct bm overall;
 
+	/* Which states are on the stack. These are not marked
+	 * in the states themselves, because the DFA is const. */
+	uint64_t *visited;
+
 	struct dr_stack {
 		size_t used;
 		size_t ceil;
@@ -123,12 +128,6 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 		goto cleanup;
 	}
 
-	#if EXPENSIVE_CHECKS
-	for (fsm_state_t s = 0; s < state_count; s++) {
-		assert(!dfa->states[s].visited);
-	}
-	#endif
-
 	for (size_t i = 0; i < 4; i++) { charmap[i] = 0; }
 
 	/* If the start state is also an end state, then
@@ -145,12 +144,15 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 	if (env.stack.frames == NULL) { goto cleanup; }
 	env.stack.ceil = DEF_STACK_FRAMES;
 
+	env.visited = f_calloc(dfa->alloc, u64bitset_words(state_count), sizeof(env.visited[0]));
+	if (env.visited == NULL) { goto cleanup; }
+
 	{			/* set up start state's stack frame */
 		struct stack_frame *sf0 = &env.stack.frames[0];
 		sf0->state = start_state;
 		sf0->label = LABEL_GROUP;
 
-		dfa->states[start_state].visited = true;
+		u64bitset_set(env.visited, start_state);
 
 		edge_set_group_iter_reset(dfa->states[start_state].edges,
 		    EDGE_GROUP_ITER_ALL, &sf0->iter);
@@ -171,7 +173,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 
 		if (edge_set_group_iter_next(&sf->iter, &info)) {
 			assert(info.to < state_count);
-			if (dfa->states[info.to].visited) {
+			if (u64bitset_get(env.visited, info.to)) {
 				continue; /* skip visited state */
 			}
 
@@ -181,7 +183,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 				struct stack_frame *nframes = f_realloc(dfa->alloc,
 				    env.stack.frames, nceil * sizeof(nframes[0]));
 				if (nframes == NULL) {
-					return FSM_DETECT_REQUIRED_CHARACTERS_ERROR_ALLOC;
+					goto cleanup;
 				}
 
 				env.stack.frames = nframes;
@@ -189,7 +191,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 			}
 
 			/* enter state */
-			dfa->states[info.to].visited = true;
+			u64bitset_set(env.visited, info.to);
 
 			struct stack_frame *nsf = &env.stack.frames[env.stack.used];
 			nsf->state = info.to;
@@ -244,7 +246,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 			}
 
 			/* clear visited */
-			dfa->states[sf->state].visited = false;
+			u64bitset_clear(env.visited, sf->state);
 
 			env.stack.used--;
 		}
@@ -266,10 +268,7 @@ fsm_detect_required_characters(const struct fsm *dfa, size_t step_limit,
 
 cleanup:
 	f_free(dfa->alloc, env.stack.frames);
-
-	for (fsm_state_t s = 0; s < state_count; s++) {
-		dfa->states[s].visited = false;
-	}
+	f_free(dfa->alloc, env.visited);
 
 	return res;
 }
-- 
2.43.0


From dc6bb2e109273b508c631c0f33df68052881bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 05/58] fix: report unsupported options and overflow instead of
 ending the process

fsm_print() for LLVM and Rust, and the return list used by several printers,
called exit() from library code.
---
 src/libfsm/print/llvm.c | 23 ++++++++++++++---------
 src/libfsm/print/rust.c |  8 ++++----
 src/libfsm/vm/retlist.c |  3 +--
 3 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/libfsm/print/llvm.c b/src/libfsm/print/llvm.c
index 98e76d4..ffd3353 100644
--- a/src/libfsm/print/llvm.c
+++ b/src/libfsm/print/llvm.c
@@ -312,7 +312,7 @@ print_branch(FILE *f, const struct frame *frame,
 	fprintf(f, "\n");
 }
 
-static void
+static int
 print_fetch(FILE *f, const struct fsm_options *opt,
 	struct frame *frame, const struct dfavm_op_ir *next,
 	enum dfavm_op_end end_bits)
@@ -421,14 +421,16 @@ print_fetch(FILE *f, const struct fsm_options *opt,
 	}
 
 	default:
-		fprintf(stderr, "unsupported IO API\n");
-		exit(EXIT_FAILURE);
+		errno = ENOTSUP;
+		return -1;
 	}
 
 	if (end_bits != VM_END_FAIL) {
 		// TODO: skip t%u: if the next instruction is ret -1, centralise it to fail:
 		fprintf(f, "t%u:\n", use(&frame->b));
 	}
+
+	return 0;
 }
 
 /* TODO: eventually to be non-static */
@@ -580,7 +582,9 @@ fsm_print_llvmfrag(FILE *f,
 			break;
 
 		case VM_OP_FETCH: {
-			print_fetch(f, opt, &frame, op->next, op->u.fetch.end_bits);
+			if (-1 == print_fetch(f, opt, &frame, op->next, op->u.fetch.end_bits)) {
+				return -1;
+			}
 
 			if (op->u.fetch.end_bits == VM_END_FAIL) {
 				/* handled in print_fetch() */
@@ -647,8 +651,7 @@ fsm_print_llvm(FILE *f,
 	}
 
 	if (opt->fragment) {
-		fsm_print_llvmfrag(f, opt, retlist, ops, cp, prefix);
-		return 0;
+		return fsm_print_llvmfrag(f, opt, retlist, ops, cp, prefix);
 	}
 
 	fprintf(f, "; generated\n");
@@ -766,11 +769,13 @@ fsm_print_llvm(FILE *f,
 		break;
 
 	default:
-		fprintf(stderr, "unsupported IO API\n");
-		exit(EXIT_FAILURE);
+		errno = ENOTSUP;
+		return -1;
 	}
 
-	fsm_print_llvmfrag(f, opt, retlist, ops, cp, prefix);
+	if (-1 == fsm_print_llvmfrag(f, opt, retlist, ops, cp, prefix)) {
+		return -1;
+	}
 
 	fprintf(f, "}\n");
 	fprintf(f, "\n");
diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index c1fcf5b..80f6517 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -522,8 +522,8 @@ fsm_print_rust(FILE *f,
 		break;
 
 	default:
-		fprintf(stderr, "unsupported IO API\n");
-		exit(EXIT_FAILURE);
+		errno = ENOTSUP;
+		return -1;
 	}
 
 	fprintf(f, " -> ");
@@ -543,8 +543,8 @@ fsm_print_rust(FILE *f,
 		break;
 
 	default:
-		fprintf(stderr, "unsupported ambig mode\n");
-		exit(EXIT_FAILURE);
+		errno = ENOTSUP;
+		return -1;
 	}
 
 	fprintf(f, " {\n");
diff --git a/src/libfsm/vm/retlist.c b/src/libfsm/vm/retlist.c
index 97d4eb3..583c9ef 100644
--- a/src/libfsm/vm/retlist.c
+++ b/src/libfsm/vm/retlist.c
@@ -39,8 +39,7 @@ append_ret(struct ret_list *list,
 		size_t new = list->count * factor;
 		if (new < list->count) {
 			errno = E2BIG;
-			perror("realloc");
-			exit(EXIT_FAILURE);
+			return false;
 		}
 
 		tmp = realloc(list->a, new * sizeof *list->a);
-- 
2.43.0


From d6bcc2b76482257131aa2238a6f4d3ae3e5f1516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 06/58] fix: remove global counters written while determinising

They were never read, and raced when two fsms are determinised at once.
---
 src/libfsm/determinise.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 3f748ae..b315058 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -2040,8 +2040,6 @@ analysis_cache_save_pair(struct analyze_closures_env *env,
 	return pair_cache_save(env, RPBT_PAIR, a | RESULT_BIT, b | RESULT_BIT, result_id);
 }
 
-static size_t pair_cache_hit, pair_cache_miss;
-
 static int
 combine_pair(struct analyze_closures_env *env, fsm_state_t pa, fsm_state_t pb,
 	fsm_state_t *result_id)
@@ -2078,14 +2076,12 @@ combine_pair(struct analyze_closures_env *env, fsm_state_t pa, fsm_state_t pb,
 		fprintf(stderr, "%s: cache hit for { %d%s %d%s }: %d\n",
 		    __func__, ID_WITH_SUFFIX(pa), ID_WITH_SUFFIX(pb), *result_id);
 #endif
-		pair_cache_hit++;
 		return 1;
 	} else {
 #if LOG_GROUPING
 		fprintf(stderr, "%s: cache miss for { %d%s %d%s }\n",
 		    __func__, ID_WITH_SUFFIX(pa), ID_WITH_SUFFIX(pb));
 #endif
-		pair_cache_miss++;
 	}
 
 	assert((pa & RESULT_BIT) && (pb & RESULT_BIT));
-- 
2.43.0


From ae04b4b93d3209347e5e270aa57fd40da6b2000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 07/58] fix: initialise the tombstone node statically

ast_new() wrote to it each time, which was not thread-safe.
---
 src/libre/ast.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/libre/ast.c b/src/libre/ast.c
index 43da60e..90f59b8 100644
--- a/src/libre/ast.c
+++ b/src/libre/ast.c
@@ -26,7 +26,7 @@
  * Note: this is a single-instance node, which other functions
  * should not modify.
  */
-static struct ast_expr the_tombstone;
+static struct ast_expr the_tombstone = { .type = AST_EXPR_TOMBSTONE };
 struct ast_expr *ast_expr_tombstone = &the_tombstone;
 
 struct ast_expr *
@@ -89,9 +89,6 @@ ast_new(void)
 
 	*res = zero;
 
-	/* XXX: not thread-safe */
-	the_tombstone.type = AST_EXPR_TOMBSTONE;
-
 	return res;
 }
 
-- 
2.43.0


From f1d3d27d27d602a820a5757be0ef15afa933d137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 08/58] fix: release sets through the allocator they came from

---
 src/adt/set.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/set.inc b/src/adt/set.inc
index 58f091f..827297d 100644
--- a/src/adt/set.inc
+++ b/src/adt/set.inc
@@ -169,7 +169,7 @@ set_free(struct set *set)
 	assert(set != NULL);
 	assert(set->a != NULL);
 
-	free(set->a);
-	free(set);
+	f_free(set->alloc, set->a);
+	f_free(set->alloc, set);
 }
 
-- 
2.43.0


From c2a6796908eb194658227729a8f980c0dbc22624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 09/58] fix: set_create() leaked the set when its array could
 not be allocated

---
 src/adt/set.inc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/adt/set.inc b/src/adt/set.inc
index 827297d..2cf6742 100644
--- a/src/adt/set.inc
+++ b/src/adt/set.inc
@@ -97,6 +97,7 @@ set_create(const struct fsm_alloc *a,
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
-- 
2.43.0


From 7084eacb8c0a25ab9b902011f6e554eff7788c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 10/58] fix: bm_snprint() read the stream inside an assertion

The assertion also failed when the output was legitimately truncated to the buffer.
---
 src/adt/bitmap.c | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/adt/bitmap.c b/src/adt/bitmap.c
index 1fb0160..3eeb7ba 100644
--- a/src/adt/bitmap.c
+++ b/src/adt/bitmap.c
@@ -313,14 +313,6 @@ bm_snprint(const struct bm *bm, const struct fsm_options *opt,
 	/* expected zero could also be an error, but we don't mind if it is
 	 * (although setting errno is bad form) */
 
-#ifndef NDEBUG
-	assert(fgetc(f) == EOF);
-	if (ferror(f)) {
-		goto error;
-	}
-	assert(feof(f));
-#endif
-
 	s[n - 1] = '\0';
 
 	if (EOF == fclose(f)) {
-- 
2.43.0


From bbf1ebf9a86e8365db5b590dca0b2db871d66a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 11/58] fix: export public functions left out of the symbol
 lists

---
 src/libfsm/libfsm.syms | 3 +++
 src/libre/libre.syms   | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/libfsm/libfsm.syms b/src/libfsm/libfsm.syms
index a498ced..0636562 100644
--- a/src/libfsm/libfsm.syms
+++ b/src/libfsm/libfsm.syms
@@ -72,6 +72,7 @@ fsm_addstate_bulk
 fsm_removestate
 fsm_shuffle
 fsm_vacuum
+fsm_compact_states
 
 fsm_new_statealloc
 
@@ -88,6 +89,7 @@ fsm_subgraph_stop
 fsm_subgraph_duplicate
 
 fsm_setstart
+fsm_clearstart
 fsm_getstart
 fsm_setend
 
@@ -152,6 +154,7 @@ fsm_countcaptures
 fsm_capture_has_capture_actions
 fsm_capture_set_path
 fsm_capture_rebase_capture_id
+fsm_capture_rebase_capture_action_states
 fsm_capture_alloc
 fsm_capture_dump
 
diff --git a/src/libre/libre.syms b/src/libre/libre.syms
index b048337..8e618a0 100644
--- a/src/libre/libre.syms
+++ b/src/libre/libre.syms
@@ -3,6 +3,7 @@ re_is_literal
 re_flags
 re_strerror
 re_perror
+re_ferror
 re_is_anchored
 re_interpolate_groups
 
-- 
2.43.0


From 74fc2b3ff9e437aaa986c6d1ab87c015470c1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:03 +0000
Subject: [PATCH 12/58] fix: lx accepted -v and then failed with a usage
 message

---
 src/lx/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/main.c b/src/lx/main.c
index 92098bf..0db0e0c 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -609,7 +609,7 @@ main(int argc, char *argv[])
 	{
 		int c;
 
-		while (c = getopt(argc, argv, "h" "C:Xe:t:k:" "vb:g:l:nQx:"), c != -1) {
+		while (c = getopt(argc, argv, "h" "C:Xe:t:k:" "b:g:l:nQx:"), c != -1) {
 			switch (c) {
 			case 'C':
 				concurrency = atoi(optarg);
-- 
2.43.0


From b60f175626e74e171e6cf2870c3a0d612ede99be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 13/58] fix: pass bytes to the ctype functions as unsigned char

---
 src/libfsm/cost/legible.c | 2 +-
 src/libfsm/vm/v1.c        | 2 +-
 src/libfsm/vm/v2.c        | 2 +-
 src/print/tok.c           | 2 +-
 src/retest/cvtpcre.c      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libfsm/cost/legible.c b/src/libfsm/cost/legible.c
index e35c575..5dd0944 100644
--- a/src/libfsm/cost/legible.c
+++ b/src/libfsm/cost/legible.c
@@ -57,7 +57,7 @@ fsm_cost_legible(fsm_state_t from, fsm_state_t to, char c)
 	(void) to;
 
 	for (i = 0; i < sizeof a / sizeof *a; i++) {
-		if (a[i].is(c)) {
+		if (a[i].is((unsigned char) c)) {
 			const unsigned char_class_cost = 1000 * a[i].cost;
 			return char_class_cost + (unsigned char)c;
 		}
diff --git a/src/libfsm/vm/v1.c b/src/libfsm/vm/v1.c
index c9af206..6b6d2ca 100644
--- a/src/libfsm/vm/v1.c
+++ b/src/libfsm/vm/v1.c
@@ -235,7 +235,7 @@ running_print_op_v1(const unsigned char *ops, uint32_t pc, const char *sp, const
 	end  = b & 0x01;
 
 	fprintf(f, "[%4" PRIu32 " sp=%zd n=%zu ch=%3u '%c' end=%d] ",
-		pc, sp-buf, n, (unsigned char)ch, isprint(ch) ? ch : ' ', end);
+		pc, sp-buf, n, (unsigned char)ch, isprint((unsigned char) ch) ? ch : ' ', end);
 
 	switch (op) {
 	case VM_OP_FETCH:
diff --git a/src/libfsm/vm/v2.c b/src/libfsm/vm/v2.c
index e217f6d..da5b656 100644
--- a/src/libfsm/vm/v2.c
+++ b/src/libfsm/vm/v2.c
@@ -181,7 +181,7 @@ running_print_op_v2(const struct dfavm_v2 *vm, uint32_t pc, const char *sp, cons
 	V2DEC(vm->ops[pc], op,cmp,end, arg, dest);
 
 	fprintf(f, "[%4" PRIu32 " sp=%zd n=%zu ch=%3u '%c' end=%d] ",
-		pc, sp-buf, n, (unsigned char)ch, isprint(ch) ? ch : ' ', end);
+		pc, sp-buf, n, (unsigned char)ch, isprint((unsigned char) ch) ? ch : ' ', end);
 
 	switch (op) {
 	case VM_V2_OP_FETCH:
diff --git a/src/print/tok.c b/src/print/tok.c
index 2a0b029..e47b8b6 100644
--- a/src/print/tok.c
+++ b/src/print/tok.c
@@ -21,7 +21,7 @@ esctok(FILE *f, const char *s)
 	assert(s != NULL);
 
 	for (p = s; *p != '\0'; p++) {
-		fputc(isalnum(*p) ? toupper(*p) : '_', f);
+		fputc(isalnum((unsigned char) *p) ? toupper((unsigned char) *p) : '_', f);
 	}
 }
 
diff --git a/src/retest/cvtpcre.c b/src/retest/cvtpcre.c
index d35b845..f2955f1 100644
--- a/src/retest/cvtpcre.c
+++ b/src/retest/cvtpcre.c
@@ -111,7 +111,7 @@ rstrip(char *s)
 	n = strlen(s);
 	if (n > 0) {
 		e = s+n-1;
-		while (e>s && isspace(*e)) {
+		while (e>s && isspace((unsigned char) *e)) {
 			*e = '\0';
 			e--;
 		}
-- 
2.43.0


From 0dabc0700dd817ea0730ce5b34b1b1e61dd86ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 14/58] fix: lx threads claim their mapping ids under the lock

---
 src/lx/ast.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/lx/ast.c b/src/lx/ast.c
index a3776b6..bad7a3c 100644
--- a/src/lx/ast.c
+++ b/src/lx/ast.c
@@ -148,7 +148,7 @@ static struct ast_mapping **mappings = NULL;
 int
 ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 {
-	const fsm_end_id_t id = mapping_count;
+	fsm_end_id_t id;
 	fsm_end_id_t nceil = 0;
 
 	lx_mutex_lock();
@@ -171,18 +171,19 @@ ast_setendmapping(struct fsm *fsm, struct ast_mapping *m)
 		mapping_ceil = nceil;
 	}
 
+	/* claim the id before unlocking, other threads are adding theirs */
+	id = mapping_count;
+	mappings[id] = m;
+	mapping_count++;
+
 	lx_mutex_unlock();
 
-	if (fsm_setendid(fsm, id)) {
-		if (LOG()) {
-			fprintf(stderr, "ast_setendmapping: saving mapping %p at mappings[%d]\n",
-			    (void *)m, id);
-		}
-		mappings[id] = m;
-		mapping_count++;
-		return 1;
+	if (LOG()) {
+		fprintf(stderr, "ast_setendmapping: saved mapping %p at mappings[%d]\n",
+		    (void *)m, id);
 	}
-	return 0;
+
+	return fsm_setendid(fsm, id);
 }
 
 struct ast_mapping *
-- 
2.43.0


From cf0c16bf99452d0b07c5de1ed1c281a6a60e1457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 15/58] fix: lx joins every thread before reading the error
 they share

---
 src/lx/main.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/lx/main.c b/src/lx/main.c
index 0db0e0c..cd89d63 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -478,7 +478,9 @@ int
 run_threads(int concurrency, void *(*fn)(void *))
 {
 	pthread_t *tds;
-	int i;
+	const char *failed;
+	int i, n;
+	int err;
 
 	assert(fn != NULL);
 
@@ -488,36 +490,45 @@ run_threads(int concurrency, void *(*fn)(void *))
 		return EXIT_FAILURE;
 	}
 
-	for (i = 0; i < concurrency; i++) {
+	failed = NULL;
+	err = 0;
+
+	for (n = 0; n < concurrency; n++) {
 		int r;
 
-		r = pthread_create(&tds[i], NULL, fn, NULL);
+		r = pthread_create(&tds[n], NULL, fn, NULL);
 		if (r != 0) {
-			perror("pthread_create");
-			return EXIT_FAILURE;
+			failed = "pthread_create";
+			err = r;
+			break;
 		}
 	}
 
-	for (i = 0; i < concurrency; i++) {
+	/* every thread is joined before anything they share is read */
+	for (i = 0; i < n; i++) {
 		void *rv;
 		int r;
 
 		r = pthread_join(tds[i], &rv);
 		if (r != 0) {
-			perror("pthread_join");
-			return EXIT_FAILURE;
+			failed = "pthread_join";
+			err = r;
+			continue;
 		}
 
-		if (rv != NULL) {
-			char *f = rv;
-			errno = zerror;
-			perror(f);
-			return EXIT_FAILURE;
+		if (rv != NULL && failed == NULL) {
+			failed = rv;
 		}
 	}
 
 	free(tds);
 
+	if (failed != NULL) {
+		errno = err != 0 ? err : zerror;
+		perror(failed);
+		return EXIT_FAILURE;
+	}
+
 	return 0;
 }
 
-- 
2.43.0


From f371fbb96afbb4076a2dbbf321437cb36f81d4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 16/58] fix: test the right pointer after allocating the
 interned set buffer

---
 src/adt/internedstateset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adt/internedstateset.c b/src/adt/internedstateset.c
index 990d9c9..624c64c 100644
--- a/src/adt/internedstateset.c
+++ b/src/adt/internedstateset.c
@@ -84,7 +84,7 @@ interned_state_set_pool_alloc(const struct fsm_alloc *a)
 	if (sets == NULL) { goto cleanup; }
 
 	buf = f_malloc(a, DEF_BUF * sizeof(buf[0]));
-	if (sets == NULL) { goto cleanup; }
+	if (buf == NULL) { goto cleanup; }
 
 	buckets = f_malloc(a, DEF_BUCKETS * sizeof(buckets[0]));
 	if (buckets == NULL) { goto cleanup; }
-- 
2.43.0


From 024ab38e73d427b217c3179fd457f29da6db648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 17/58] fix: fsm_capture_set_path did not notice when its
 visited set could not be allocated

---
 src/libfsm/capture.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/capture.c b/src/libfsm/capture.c
index d928a7b..3c8c987 100644
--- a/src/libfsm/capture.c
+++ b/src/libfsm/capture.c
@@ -148,6 +148,9 @@ fsm_capture_set_path(struct fsm *fsm, unsigned capture_id,
 	seen_words = fsm->statecount/64 + 1;
 	env.seen = f_malloc(fsm->alloc,
 	    seen_words * sizeof(env.seen[0]));
+	if (env.seen == NULL) {
+		goto cleanup;
+	}
 
 	if (!mark_capture_path(&env)) {
 		goto cleanup;
-- 
2.43.0


From ab9f65c38ec5b4a136b47a792f0ec777206566b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 18/58] fix: epsilon_closure ignored failure to compute the
 closure of a state

---
 src/libfsm/closure.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/closure.c b/src/libfsm/closure.c
index 165fa49..7e03eb8 100644
--- a/src/libfsm/closure.c
+++ b/src/libfsm/closure.c
@@ -34,7 +34,7 @@ epsilon_closure_single(const struct fsm *fsm, struct state_set **closures, fsm_s
 
 	q = queue_new(fsm->alloc, fsm->statecount);
 	if (q == NULL) {
-		return 1;
+		return 0;
 	}
 
 	fsm->states[s].visited = 1;
@@ -142,9 +142,11 @@ epsilon_closure(const struct fsm *fsm)
 	}
 
 	for (s = 0; s < fsm->statecount; s++) {
-		fsm->states[s].visited = 0;
-
 		closures[s] = NULL;
+	}
+
+	for (s = 0; s < fsm->statecount; s++) {
+		fsm->states[s].visited = 0;
 
 		/*
 		 * In the simplest case of having no epsilon transitions, the
@@ -173,7 +175,9 @@ epsilon_closure(const struct fsm *fsm)
 			continue;
 		}
 
-		epsilon_closure_single(fsm, closures, s);
+		if (!epsilon_closure_single(fsm, closures, s)) {
+			goto error;
+		}
 	}
 
 	return closures;
-- 
2.43.0


From a3d09ff19305518daefa7f60ffb3b7f780e34dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 19/58] fix: fsm_consolidate ignored failure to renumber edges,
 and leaked its result on error

---
 src/libfsm/consolidate.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/consolidate.c b/src/libfsm/consolidate.c
index 55c3bfd..f35f344 100644
--- a/src/libfsm/consolidate.c
+++ b/src/libfsm/consolidate.c
@@ -133,8 +133,10 @@ fsm_consolidate(const struct fsm *src,
 				src->states[src_i].edges)) {
 				goto cleanup;
 			}
-			edge_set_compact(&dst->states[dst_i].edges,
-			    dst->alloc, mapping_cb, &closure);
+			if (!edge_set_compact(&dst->states[dst_i].edges,
+				dst->alloc, mapping_cb, &closure)) {
+				goto cleanup;
+			}
 
 			if (fsm_isend(src, src_i)) {
 				fsm_setend(dst, dst_i, 1);
@@ -169,6 +171,7 @@ fsm_consolidate(const struct fsm *src,
 
 cleanup:
 
+	if (dst != NULL) { fsm_free(dst); }
 	if (seen != NULL) { f_free(src->alloc, seen); }
 	return NULL;
 }
-- 
2.43.0


From e67ad2666f5ac4c684a9613221df12e2348a8eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 20/58] fix: fsm_compact_states ignored failure to renumber
 edges, and leaked its mapping on error

---
 src/libfsm/state.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index 786bc3a..c14bfe8 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -229,7 +229,10 @@ fsm_compact_states(struct fsm *fsm,
 #endif
 		state_set_compact(&s->epsilons, mapping_cb, mapping);
 		if (fsm->states[i].edges != NULL) {
-			edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping);
+			if (!edge_set_compact(&s->edges, fsm->alloc, mapping_cb, mapping)) {
+				f_free(fsm->alloc, mapping);
+				return 0;
+			}
 		}
 	}
 
@@ -261,9 +264,11 @@ fsm_compact_states(struct fsm *fsm,
 
 	/* Remap end metadata */
 	if (!fsm_endid_compact(fsm, mapping, orig_statecount)) {
+		f_free(fsm->alloc, mapping);
 		return 0;
 	}
 	if (!fsm_eager_output_compact(fsm, mapping, orig_statecount)) {
+		f_free(fsm->alloc, mapping);
 		return 0;
 	}
 
-- 
2.43.0


From 52f596e6ee370019581dd16764715fe8f5db29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 21/58] fix: fsm_empty and fsm_equal reported an answer when
 they failed

---
 src/libfsm/empty.c      |  8 +++++---
 src/libfsm/equal.c      | 23 ++++++++++++++++++++---
 src/libre/ast_rewrite.c |  4 ++++
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/libfsm/empty.c b/src/libfsm/empty.c
index 7039215..f89dbd5 100644
--- a/src/libfsm/empty.c
+++ b/src/libfsm/empty.c
@@ -21,6 +21,7 @@ int
 fsm_empty(const struct fsm *fsm)
 {
 	fsm_state_t start;
+	int r;
 
 	assert(fsm != NULL);
 
@@ -34,10 +35,11 @@ fsm_empty(const struct fsm *fsm)
 	 * Note this includes the empty string (when the start state matches).
 	 */
 
-	if (fsm_reachableany(fsm, start, fsm_isend)) {
-		return 0;
+	r = fsm_reachableany(fsm, start, fsm_isend);
+	if (r == -1) {
+		return -1;
 	}
 
-	return 1;
+	return !r;
 }
 
diff --git a/src/libfsm/equal.c b/src/libfsm/equal.c
index 02489b0..224e28b 100644
--- a/src/libfsm/equal.c
+++ b/src/libfsm/equal.c
@@ -118,6 +118,10 @@ subsetof(const struct fsm *a, const struct fsm *b)
 int
 fsm_equal(const struct fsm *a, const struct fsm *b)
 {
+	fsm_state_t start;
+	int ea, eb;
+	int r;
+
 	assert(a != NULL);
 	assert(b != NULL);
 
@@ -126,8 +130,16 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 		return -1;
 	}
 
-	if (fsm_empty(a) && fsm_empty(b)) {
-		return 1;
+	/* an FSM with no start state matches nothing */
+	ea = fsm_getstart(a, &start) ? fsm_empty(a) : 1;
+	eb = fsm_getstart(b, &start) ? fsm_empty(b) : 1;
+
+	if (ea == -1 || eb == -1) {
+		return -1;
+	}
+
+	if (ea || eb) {
+		return ea && eb;
 	}
 
 	/*
@@ -136,6 +148,11 @@ fsm_equal(const struct fsm *a, const struct fsm *b)
 	 * This is equivalent finding that (a \ b) \u (b \ a) is empty.
 	 */
 
-	return subsetof(a, b) && subsetof(b, a);
+	r = subsetof(a, b);
+	if (r != 1) {
+		return r;
+	}
+
+	return subsetof(b, a);
 }
 
diff --git a/src/libre/ast_rewrite.c b/src/libre/ast_rewrite.c
index 592dd58..bc2e2be 100644
--- a/src/libre/ast_rewrite.c
+++ b/src/libre/ast_rewrite.c
@@ -650,6 +650,10 @@ rewrite_subtract(struct ast_expr_pool **poolp, struct ast_expr *n, enum re_flags
 		empty = fsm_empty(q);
 
 		fsm_free(q);
+
+		if (empty == -1) {
+			return 0;
+		}
 	}
 
 	if (empty) {
-- 
2.43.0


From d470e6e6af96e66f3807815a88beace32facf92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 22/58] fix: compiling an empty subtraction leaked it, and took
 failure for emptiness

---
 src/libre/ast_compile.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 5d31ef0..5b838c7 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -910,6 +910,7 @@ comp_iter(struct comp_env *env,
 		struct fsm *a, *b;
 		struct fsm *q;
 		enum re_flags re_flags;
+		int empty;
 
 		re_flags = n->re_flags;
 
@@ -941,7 +942,14 @@ comp_iter(struct comp_env *env,
 		 * overall or not.
 		 */
 
-		if (fsm_empty(q)) {
+		empty = fsm_empty(q);
+		if (empty == -1) {
+			fsm_free(q);
+			return 0;
+		}
+
+		if (empty) {
+			fsm_free(q);
 			EPSILON(x, y);
 			break;
 		}
-- 
2.43.0


From c91913225803292173a7384f92139ceb388aedae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 23/58] fix: determinisation ignored failure to allocate groups
 and state sets

---
 src/libfsm/determinise.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index b315058..416ae09 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -247,6 +247,9 @@ fsm_determinise_with_config(struct fsm *nfa,
 			 * states are end states.
 			 */
 			ss = interned_state_set_get_state_set(ac_env.issp, iss_id);
+			if (ss == NULL) {
+				goto cleanup;
+			}
 			if (!state_set_has(nfa, ss, fsm_isend)) {
 				continue;
 			}
@@ -725,6 +728,7 @@ build_reverse_mappings(const struct map *map, struct interned_state_set_pool *is
 		interned_state_set_id iss_id = m->iss;
 		assert(m->dfastate < dst_dfa->statecount);
 		ss = interned_state_set_get_state_set(issp, iss_id);
+		if (ss == NULL) { goto cleanup; }
 
 		fsm_state_t state;
 		for (state_set_reset(ss, &si); state_set_next(&si, &state); ) {
@@ -903,11 +907,14 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 	fprintf(stderr, "%s: iss_id %lu\n", __func__, iss_id);
 #endif
 
-	analyze_closures__init_groups(env);
+	if (!analyze_closures__init_groups(env)) {
+		return 0;
+	}
 
 	INIT_TIMERS();
 	TIME(&pre);
 	struct state_set *ss = interned_state_set_get_state_set(env->issp, iss_id);
+	if (ss == NULL) { return 0; }
 	const size_t set_count = state_set_count(ss);
 
 #if LOG_DETERMINISE_STATE_SETS || LOG_GROUPING > 1
@@ -1073,7 +1080,9 @@ cache_single_state_analysis(struct analyze_closures_env *env, fsm_state_t state_
 	struct edge_group_iter iter;
 	struct edge_group_iter_info info;
 
-	analyze_closures__init_groups(env);
+	if (!analyze_closures__init_groups(env)) {
+		return 0;
+	}
 	assert(env->group_count == 0);
 
 	/* collect groups */
@@ -2615,7 +2624,7 @@ remap_eager_outputs(const struct map *map, struct interned_state_set_pool *issp,
 	struct map_iter iter;
 	for (struct mapping *b = map_first(map, &iter); b != NULL; b = map_next(&iter)) {
 		struct state_set *ss = interned_state_set_get_state_set(issp, b->iss);
-		assert(ss != NULL);
+		if (ss == NULL) { return 0; }
 
 		struct state_iter it;
 		fsm_state_t s;
-- 
2.43.0


From 66c56dff47faa790c3fa21be9f143d7e53d3c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 24/58] fix: determinisation freed a buffer twice when growing
 the other one failed

---
 src/libfsm/determinise.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 416ae09..23a47b9 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -943,13 +943,13 @@ analyze_closures__pairwise_grouping(struct analyze_closures_env *env,
 		    env->pbuf[0],
 		    nceil * sizeof(env->pbuf[0]));
 		if (a == NULL) { return 0; }
+		env->pbuf[0] = a;
 		fsm_state_t *b = f_realloc(env->alloc,
 		    env->pbuf[1],
 		    nceil * sizeof(env->pbuf[1]));
 		if (b == NULL) { return 0; }
-		env->pbuf_ceil = nceil;
-		env->pbuf[0] = a;
 		env->pbuf[1] = b;
+		env->pbuf_ceil = nceil;
 	}
 
 	{
-- 
2.43.0


From 3601d1c8643b2944d424eab2a1bf7648782b814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 25/58] fix: determinisation leaked its result on failure

---
 src/libfsm/determinise.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libfsm/determinise.c b/src/libfsm/determinise.c
index 23a47b9..7464183 100644
--- a/src/libfsm/determinise.c
+++ b/src/libfsm/determinise.c
@@ -30,6 +30,7 @@ fsm_determinise_with_config(struct fsm *nfa,
 	struct interned_state_set_pool *issp = NULL;
 	struct map map = { NULL, 0, 0, NULL };
 	struct mapping *curr = NULL;
+	struct fsm *dfa = NULL;
 	size_t dfacount = 0;
 	const size_t state_limit = config == NULL
 	    ? 0
@@ -193,7 +194,6 @@ fsm_determinise_with_config(struct fsm *nfa,
 	{
 		struct map_iter it;
 		struct mapping *m;
-		struct fsm *dfa;
 
 		dfa = fsm_new(nfa->alloc);
 		if (dfa == NULL) {
@@ -277,6 +277,7 @@ fsm_determinise_with_config(struct fsm *nfa,
 		}
 
 		fsm_move(nfa, dfa);
+		dfa = NULL;
 	}
 
 #if EXPENSIVE_CHECKS
@@ -289,6 +290,9 @@ fsm_determinise_with_config(struct fsm *nfa,
 	res = FSM_DETERMINISE_WITH_CONFIG_OK;
 
 cleanup:
+	if (dfa != NULL) {
+		fsm_free(dfa);
+	}
 	map_free(&map);
 	stack_free(stack);
 	interned_state_set_pool_free(issp);
-- 
2.43.0


From fc9f9d70aeca144ab17b7d945092da331183f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 26/58] fix: removing epsilons ignored failure to collect
 capture actions

---
 src/libfsm/epsilons.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libfsm/epsilons.c b/src/libfsm/epsilons.c
index 926e6d9..67b775e 100644
--- a/src/libfsm/epsilons.c
+++ b/src/libfsm/epsilons.c
@@ -369,6 +369,9 @@ remap_capture_actions(struct fsm *nfa, struct state_set **eclosures)
 	 * It can't be added during the iteration, because that would
 	 * modify the hash table as it's being iterated over. */
 	fsm_capture_action_iter(nfa, remap_capture_action_cb, &env);
+	if (!env.ok) {
+		goto cleanup;
+	}
 
 	/* Now that we're done iterating, add those actions. */
 	for (i = 0; i < env.count; i++) {
-- 
2.43.0


From 3bcf204f0dc96463e2c5937f770a125a461e5e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 27/58] fix: fsm_reverse missed one failed allocation and
 leaked on others

---
 src/libfsm/reverse.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/libfsm/reverse.c b/src/libfsm/reverse.c
index c709373..43b67e3 100644
--- a/src/libfsm/reverse.c
+++ b/src/libfsm/reverse.c
@@ -124,7 +124,7 @@ fsm_reverse(struct fsm *fsm)
 	}
 
 	epsilons = f_malloc(fsm->alloc, sizeof *epsilons * fsm->statecount);
-	if (edges == NULL) {
+	if (epsilons == NULL) {
 		state_set_free(endset);
 		f_free(fsm->alloc, edges);
 		return 0;
@@ -164,7 +164,7 @@ fsm_reverse(struct fsm *fsm)
 
 				for (state_set_reset(fsm->states[i].epsilons, &jt); state_set_next(&jt, &se); ) {
 					if (!state_set_add(&epsilons[se], fsm->alloc, i)) {
-						goto error1;
+						goto error;
 					}
 				}
 			}
@@ -172,7 +172,7 @@ fsm_reverse(struct fsm *fsm)
 				assert(e.state < fsm->statecount);
 
 				if (!edge_set_add(&edges[e.state], fsm->alloc, e.symbol, i)) {
-					return 0;
+					goto error;
 				}
 			}
 		}
@@ -208,7 +208,7 @@ fsm_reverse(struct fsm *fsm)
 			}
 
 			if (!state_set_add(&epsilons[start], fsm->alloc, s)) {
-				goto error1;
+				goto error;
 			}
 		}
 	} else {
@@ -279,22 +279,17 @@ fsm_reverse(struct fsm *fsm)
 
 	return 1;
 
-error1:
+error:
 
 	{
 		fsm_state_t i;
 
 		for (i = 0; i < fsm->statecount; i++) {
-			state_set_free(fsm->states[i].epsilons);
-			edge_set_free(fsm->alloc, fsm->states[i].edges);
-
-			fsm->states[i].epsilons = epsilons[i];
-			fsm->states[i].edges = edges[i];
+			state_set_free(epsilons[i]);
+			edge_set_free(fsm->alloc, edges[i]);
 		}
 	}
 
-error:
-
 	state_set_free(endset);
 
 	f_free(fsm->alloc, epsilons);
-- 
2.43.0


From 03019f57ba65f3b2ca2c03adaf9e9bb0fc7468b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 28/58] fix: fsm_shuffle used a null automaton when
 consolidating failed

---
 src/libfsm/shuffle.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libfsm/shuffle.c b/src/libfsm/shuffle.c
index 0a7269d..431e140 100644
--- a/src/libfsm/shuffle.c
+++ b/src/libfsm/shuffle.c
@@ -74,6 +74,7 @@ fsm_shuffle(struct fsm *fsm, unsigned seed)
 	populate_mapping(mapping, state_count, (uint32_t)seed);
 
 	dst = fsm_consolidate(fsm, mapping, state_count);
+	if (dst == NULL) { goto cleanup; }
 	fsm_move(fsm, dst);
 	dst = NULL;
 
-- 
2.43.0


From b44fdccd331100e8e9e10b75bb66422c66649eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 29/58] fix: fsm_complete and fsm_complement freed the caller's
 automaton (twice) on failure

---
 src/libfsm/complement.c | 1 -
 src/libfsm/complete.c   | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/libfsm/complement.c b/src/libfsm/complement.c
index 53d61c0..492bc21 100644
--- a/src/libfsm/complement.c
+++ b/src/libfsm/complement.c
@@ -24,7 +24,6 @@ fsm_complement(struct fsm *fsm)
 
 	if (!fsm_all(fsm, fsm_iscomplete)) {
 		if (!fsm_complete(fsm, fsm_isany)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
diff --git a/src/libfsm/complete.c b/src/libfsm/complete.c
index d74f4d6..786dd8a 100644
--- a/src/libfsm/complete.c
+++ b/src/libfsm/complete.c
@@ -32,7 +32,6 @@ fsm_complete(struct fsm *fsm,
 
 	if (!fsm_all(fsm, fsm_isdfa)) {
 		if (!fsm_determinise(fsm)) {
-			fsm_free(fsm);
 			return 0;
 		}
 	}
-- 
2.43.0


From 7d3d6e4c02e6f63aa7bf2f2e82538b3476491e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 30/58] fix: a failed merge left states owned by both operands

---
 src/libfsm/merge.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/libfsm/merge.c b/src/libfsm/merge.c
index 267b5b1..03480fc 100644
--- a/src/libfsm/merge.c
+++ b/src/libfsm/merge.c
@@ -108,18 +108,15 @@ merge(struct fsm *dst, struct fsm *src,
 	 * significantly. */
 
 	if (!copy_capture_actions(dst, src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
+		goto error;
 	}
 
 	if (!copy_end_ids(dst, src, *base_src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
+		goto error;
 	}
 
 	if (!copy_eager_output_ids(dst, src, *base_src)) {
-		/* non-recoverable -- destructive operation */
-		return NULL;
+		goto error;
 	}
 
 	f_free(src->alloc, src->states);
@@ -133,6 +130,17 @@ merge(struct fsm *dst, struct fsm *src,
 	fsm_free(src);
 
 	return dst;
+
+error:
+
+	/*
+	 * Non-recoverable -- destructive operation.
+	 * The states copied belong to src again, so that both can be freed.
+	 */
+	dst->statecount -= src->statecount;
+	dst->endcount   -= src->endcount;
+
+	return NULL;
 }
 
 static int
-- 
2.43.0


From 5ded6b59daecc3a9bd795d5f205f9007879396e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 31/58] fix: binary operators now free their operands on
 failure too, instead of aborting or freeing some twice

---
 src/libfsm/charset.c   |  4 +++-
 src/libfsm/concat.c    | 23 ++++++++++++++++-------
 src/libfsm/intersect.c | 13 ++++++++++---
 src/libfsm/subtract.c  | 13 ++++++++++---
 src/libfsm/union.c     | 21 +++++++++++++++------
 src/lx/main.c          |  4 +---
 6 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/src/libfsm/charset.c b/src/libfsm/charset.c
index 3f987ea..a2a266b 100644
--- a/src/libfsm/charset.c
+++ b/src/libfsm/charset.c
@@ -38,6 +38,7 @@ fsm_intersect_charset(struct fsm *a, size_t n, const char *charset)
 
 		b = fsm_new_statealloc(a->alloc, 1);
 		if (b == NULL) {
+			fsm_free(a);
 			return NULL;
 		}
 
@@ -73,7 +74,7 @@ fsm_intersect_charset(struct fsm *a, size_t n, const char *charset)
 	 */
 	q = fsm_walk2(a, b, FSM_WALK2_BOTH, FSM_WALK2_BOTH);
 	if (q == NULL) {
-		return NULL;
+		goto error;
 	}
 
 	fsm_free(a);
@@ -86,6 +87,7 @@ fsm_intersect_charset(struct fsm *a, size_t n, const char *charset)
 
 error:
 
+	fsm_free(a);
 	fsm_free(b);
 
 	return NULL;
diff --git a/src/libfsm/concat.c b/src/libfsm/concat.c
index 9f87802..430da1c 100644
--- a/src/libfsm/concat.c
+++ b/src/libfsm/concat.c
@@ -34,30 +34,32 @@ fsm_concat(struct fsm *a, struct fsm *b,
 
 	if (a->alloc != b->alloc) {
 		errno = EINVAL;
-		return NULL;
+		goto error_ab;
 	}
 
-	if (a->statecount == 0) { return b; }
-	if (b->statecount == 0) { return a; }
+	if (a->statecount == 0) { fsm_free(a); return b; }
+	if (b->statecount == 0) { fsm_free(b); return a; }
 
 	if (!fsm_has(a, fsm_isend)) {
 		errno = EINVAL;
-		return NULL;
+		goto error_ab;
 	}
 
 	if (!fsm_getstart(a, &sq) || !fsm_getstart(b, &sb)) {
 		errno = EINVAL;
-		return NULL;
+		goto error_ab;
 	}
 
 	if (!fsm_collate(a, &ea, fsm_isend)) {
-		return NULL;
+		goto error_ab;
 	}
 
 	fsm_setend(a, ea, 1);
 
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		goto error_ab;
+	}
 
 	sq += combine_info->base_a;
 	ea += combine_info->base_a;
@@ -90,6 +92,13 @@ error:
 
 	fsm_free(q);
 
+	return NULL;
+
+error_ab:
+
+	fsm_free(a);
+	fsm_free(b);
+
 	return NULL;
 }
 
diff --git a/src/libfsm/intersect.c b/src/libfsm/intersect.c
index 1aa554c..7067a10 100644
--- a/src/libfsm/intersect.c
+++ b/src/libfsm/intersect.c
@@ -24,13 +24,13 @@ fsm_intersect(struct fsm *a, struct fsm *b)
 
 	if (!fsm_all(a, fsm_isdfa)) {
 		if (!fsm_determinise(a)) {
-			return NULL;
+			goto error;
 		}
 	}
 
 	if (!fsm_all(b, fsm_isdfa)) {
 		if (!fsm_determinise(b)) {
-			return NULL;
+			goto error;
 		}
 	}
 
@@ -51,12 +51,19 @@ fsm_intersect(struct fsm *a, struct fsm *b)
 	 */
 	q = fsm_walk2(a, b, FSM_WALK2_BOTH, FSM_WALK2_BOTH);
 	if (q == NULL) {
-		return NULL;
+		goto error;
 	}
 
 	fsm_free(a);
 	fsm_free(b);
 
 	return q;
+
+error:
+
+	fsm_free(a);
+	fsm_free(b);
+
+	return NULL;
 }
 
diff --git a/src/libfsm/subtract.c b/src/libfsm/subtract.c
index 41e3c09..520c377 100644
--- a/src/libfsm/subtract.c
+++ b/src/libfsm/subtract.c
@@ -24,13 +24,13 @@ fsm_subtract(struct fsm *a, struct fsm *b)
 
 	if (!fsm_all(a, fsm_isdfa)) {
 		if (!fsm_determinise(a)) {
-			return NULL;
+			goto error;
 		}
 	}
 
 	if (!fsm_all(b, fsm_isdfa)) {
 		if (!fsm_determinise(b)) {
-			return NULL;
+			goto error;
 		}
 	}
 
@@ -47,12 +47,19 @@ fsm_subtract(struct fsm *a, struct fsm *b)
 	 */
 	q = fsm_walk2(a, b, FSM_WALK2_ONLYA | FSM_WALK2_BOTH, FSM_WALK2_ONLYA);
 	if (q == NULL) {
-		return NULL;
+		goto error;
 	}
 
 	fsm_free(a);
 	fsm_free(b);
 
 	return q;
+
+error:
+
+	fsm_free(a);
+	fsm_free(b);
+
+	return NULL;
 }
 
diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 4b07ca6..46526a0 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -103,7 +103,7 @@ fsm_union(struct fsm *a, struct fsm *b,
 
 	if (a->alloc != b->alloc) {
 		errno = EINVAL;
-		return NULL;
+		goto error_ab;
 	}
 
 	if (a->statecount == 0) { fsm_free(a); return b; }
@@ -111,11 +111,13 @@ fsm_union(struct fsm *a, struct fsm *b,
 
 	if (!fsm_getstart(a, &sa) || !fsm_getstart(b, &sb)) {
 		errno = EINVAL;
-		return NULL;
+		goto error_ab;
 	}
 
 	q = fsm_merge(a, b, combine_info);
-	assert(q != NULL);
+	if (q == NULL) {
+		goto error_ab;
+	}
 
 	sa += combine_info->base_a;
 	sb += combine_info->base_b;
@@ -153,6 +155,13 @@ error:
 
 	fsm_free(q);
 
+	return NULL;
+
+error_ab:
+
+	fsm_free(a);
+	fsm_free(b);
+
 	return NULL;
 }
 
@@ -173,12 +182,12 @@ fsm_union_array(size_t fsm_count,
 		struct fsm *combined = fsm_union(res, fsms[i], &ci);
 		fsms[i] = NULL;
 		if (combined == NULL) {
-			while (i < fsm_count) {
+			/* fsm_union() freed its operands */
+			for (i++; i < fsm_count; i++) {
 				fsm_free(fsms[i]);
-				i++;
+				fsms[i] = NULL;
 			}
 
-			fsm_free(res);
 			return NULL;
 		}
 
diff --git a/src/lx/main.c b/src/lx/main.c
index cd89d63..8d3b466 100644
--- a/src/lx/main.c
+++ b/src/lx/main.c
@@ -298,14 +298,12 @@ zone_equal(const struct ast_zone *a, const struct ast_zone *b)
 
 	y = fsm_clone(b->fsm);
 	if (y == NULL) {
-		fsm_free(y);
+		fsm_free(x);
 		return -1;
 	}
 
 	q = fsm_union(x, y, NULL);
 	if (q == NULL) {
-		fsm_free(x);
-		fsm_free(y);
 		return -1;
 	}
 
-- 
2.43.0


From 2add29746a7284ba0e1ee6cbb0bf5a252b757c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 32/58] fix: fsm_unionxy leaked its operand on failure

---
 src/libre/ast_compile.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libre/ast_compile.c b/src/libre/ast_compile.c
index 5b838c7..089c552 100644
--- a/src/libre/ast_compile.c
+++ b/src/libre/ast_compile.c
@@ -150,15 +150,15 @@ fsm_unionxy(struct fsm *a, struct fsm *b, fsm_state_t x, fsm_state_t y)
 	assert(y < a->statecount);
 
 	if (!fsm_getstart(a, &sa)) {
-		return 0;
+		goto error;
 	}
 
 	if (!fsm_getstart(b, &sb)) {
-		return 0;
+		goto error;
 	}
 
 	if (!fsm_collate(b, &end, fsm_isend)) {
-		return 0;
+		goto error;
 	}
 
 	/* TODO: centralise as fsm_clearends() or somesuch */
@@ -173,7 +173,7 @@ fsm_unionxy(struct fsm *a, struct fsm *b, fsm_state_t x, fsm_state_t y)
 
 	q = fsm_mergeab(a, b, &base_b);
 	if (q == NULL) {
-		return 0;
+		goto error;
 	}
 
 	sb  += base_b;
@@ -190,6 +190,12 @@ fsm_unionxy(struct fsm *a, struct fsm *b, fsm_state_t x, fsm_state_t y)
 	}
 
 	return 1;
+
+error:
+
+	fsm_free(b);
+
+	return 0;
 }
 
 static struct fsm *
-- 
2.43.0


From 11f6d0c488a536b1d3142d094ea9d5a2261977fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 33/58] fix: compiling for the vm ignored failed allocations,
 and leaked on failure

---
 src/libfsm/print.c |  1 +
 src/libfsm/vm.c    |  4 +---
 src/libfsm/vm/ir.c | 20 +++++++++++++++++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/print.c b/src/libfsm/print.c
index bdb092d..f9c9766 100644
--- a/src/libfsm/print.c
+++ b/src/libfsm/print.c
@@ -386,6 +386,7 @@ fsm_print(FILE *f, const struct fsm *fsm,
 
 	/* TODO: non-const a */
 	if (!dfavm_compile_ir(&a, ir, &retlist, vm_opts)) {
+		dfavm_opasm_finalize_op(&a);
 		free_retlist(&retlist);
 		free_ir(fsm, ir);
 		return -1;
diff --git a/src/libfsm/vm.c b/src/libfsm/vm.c
index 0eb4fa1..d59e244 100644
--- a/src/libfsm/vm.c
+++ b/src/libfsm/vm.c
@@ -112,6 +112,7 @@ fsm_vm_compile_with_options(const struct fsm *fsm,
 	a = zero;
 
 	if (!dfavm_compile_ir(&a, ir, &retlist, vmopts)) {
+		dfavm_opasm_finalize_op(&a);
 		free_retlist(&retlist);
 		free_ir(fsm, ir);
 		return NULL;
@@ -120,9 +121,6 @@ fsm_vm_compile_with_options(const struct fsm *fsm,
 	free_ir(fsm, ir);
 
 	vm = dfavm_compile_vm(&a, vmopts);
-	if (vm == NULL) {
-		return NULL;
-	}
 
 	free_retlist(&retlist);
 	dfavm_opasm_finalize_op(&a);
diff --git a/src/libfsm/vm/ir.c b/src/libfsm/vm/ir.c
index 4930f4b..f4ca58a 100644
--- a/src/libfsm/vm/ir.c
+++ b/src/libfsm/vm/ir.c
@@ -630,9 +630,15 @@ initial_translate_table(struct dfavm_assembler_ir *a, const struct ret_list *ret
 
 	best_op = NULL;
 	best_count = xlate_table_ranges(a, retlist, table, &best_op);
+	if (best_count < 0) {
+		return -1;
+	}
 
 	op = NULL;
 	count = xlate_table_cases(a, retlist, table, &op);
+	if (count < 0) {
+		return -1;
+	}
 
 	if (count < best_count) {
 		opasm_free_list(a,best_op);
@@ -766,17 +772,26 @@ initial_translate_state(struct dfavm_assembler_ir *a, const struct ir *ir,
 	}
 
 	*opp = opasm_new_fetch(a, retlist, ind, (st->isend) ? VM_END_SUCC : VM_END_FAIL, st);
+	if (*opp == NULL) {
+		return NULL;
+	}
 	opp = &(*opp)->next;
 	assert(*opp == NULL);
 
 	switch (st->strategy) {
 	case IR_NONE:
 		*opp = opasm_new_stop(a, retlist, VM_CMP_ALWAYS, 0, VM_END_FAIL, st);
+		if (*opp == NULL) {
+			return NULL;
+		}
 		opp = &(*opp)->next;
 		break;
 
 	case IR_SAME:
 		*opp = opasm_new_branch(a, retlist, VM_CMP_ALWAYS, 0, st->u.same.to, st);
+		if (*opp == NULL) {
+			return NULL;
+		}
 		opp = &(*opp)->next;
 		break;
 
@@ -1089,6 +1104,9 @@ dfavm_compile_ir(struct dfavm_assembler_ir *a, const struct ir *ir, const struct
 
 	for (i=0; i < a->nstates; i++) {
 		a->ops[i] = initial_translate_state(a, ir, retlist, i);
+		if (a->ops[i] == NULL) {
+			return 0;
+		}
 	}
 
 	fixup_dests(a);
@@ -1130,7 +1148,7 @@ empty:
 
 	a->ops[0] = opasm_new_stop(a, retlist, VM_CMP_ALWAYS, 0, VM_END_FAIL, NULL);
 	if (a->ops[0] == NULL) {
-		return -1;
+		return 0;
 	}
 
 	a->linked = a->ops[0];
-- 
2.43.0


From ef6daeaeaeb3e5e0edccb0770f6523d3a6d03e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 34/58] fix: dfavm_load_v1 read the length of the program from
 the wrong bytes

---
 src/libfsm/vm/v1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/vm/v1.c b/src/libfsm/vm/v1.c
index 6b6d2ca..7408772 100644
--- a/src/libfsm/vm/v1.c
+++ b/src/libfsm/vm/v1.c
@@ -62,7 +62,7 @@ dfavm_load_v1(FILE *f, struct dfavm_v1 *vm)
 	}
 
 	len = ((uint32_t)ilen[0] << 0) | ((uint32_t)ilen[1] << 8) |
-		((uint32_t)ilen[1] << 16) | ((uint32_t)ilen[1] << 24);
+		((uint32_t)ilen[2] << 16) | ((uint32_t)ilen[3] << 24);
 
 	instr = malloc(len);
 	if (instr == NULL) {
-- 
2.43.0


From 7e99cc6f501d3ba8f71aecf6c8aaf58fd6d3fefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 35/58] fix: the vm encoders leaked their buffers on failure

---
 src/libfsm/vm/v1.c |  7 +++----
 src/libfsm/vm/v2.c | 11 +++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/libfsm/vm/v1.c b/src/libfsm/vm/v1.c
index 7408772..6ca6780 100644
--- a/src/libfsm/vm/v1.c
+++ b/src/libfsm/vm/v1.c
@@ -90,7 +90,7 @@ encode_opasm_v1(const struct dfavm_vm_op *instr, size_t ninstr, size_t total_byt
 	struct dfavm_v1 *vm;
 	size_t i;
 	size_t off;
-	unsigned char *enc;
+	unsigned char *enc = NULL;
 
 	ret = malloc(sizeof *ret);
 	if (ret == NULL) {
@@ -219,9 +219,8 @@ encode_opasm_v1(const struct dfavm_vm_op *instr, size_t ninstr, size_t total_byt
 	return ret;
 
 error:
-	if (ret != NULL) {
-		free(ret);
-	}
+	free(enc);
+	free(ret);
 	return NULL;
 }
 
diff --git a/src/libfsm/vm/v2.c b/src/libfsm/vm/v2.c
index da5b656..4d756b9 100644
--- a/src/libfsm/vm/v2.c
+++ b/src/libfsm/vm/v2.c
@@ -36,8 +36,8 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 	struct fsm_dfavm *ret;
 	struct dfavm_v2 *vm;
 	size_t i;
-	uint32_t *enc;
-	uint32_t *abuf;
+	uint32_t *enc = NULL;
+	uint32_t *abuf = NULL;
 	uint32_t alen,acap;
 
 	ret = malloc(sizeof *ret);
@@ -60,7 +60,6 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 	vm->ops = enc;
 	vm->len = ninstr;
 
-	abuf = NULL;
 	alen = 0;
 	acap = 0;
 
@@ -157,9 +156,9 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 	return ret;
 
 error:
-	if (ret != NULL) {
-		free(ret);
-	}
+	free(abuf);
+	free(enc);
+	free(ret);
 
 	return NULL;
 }
-- 
2.43.0


From 43e49652f68119ee7de19d3051229dec880faf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 36/58] fix: encoding for vm v2 truncated an index past 65535
 indirect branches

---
 src/libfsm/vm/v2.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libfsm/vm/v2.c b/src/libfsm/vm/v2.c
index 4d756b9..932c6dd 100644
--- a/src/libfsm/vm/v2.c
+++ b/src/libfsm/vm/v2.c
@@ -122,6 +122,11 @@ encode_opasm_v2(const struct dfavm_vm_op *instr, size_t ninstr)
 						vm->abuf = new_abuf;
 					}
 
+					/* the index has to fit the instruction */
+					if (alen > UINT16_MAX) {
+						goto error;
+					}
+
 					assert(alen < acap);
 					assert(abuf != NULL);
 
-- 
2.43.0


From 49cb38e8fd380c6902fc8b18a330c303728a6024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 37/58] fix: trie_add_word ignored failure to add an end id

---
 src/libre/ac.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libre/ac.c b/src/libre/ac.c
index e941260..6efc91d 100644
--- a/src/libre/ac.c
+++ b/src/libre/ac.c
@@ -169,7 +169,9 @@ trie_add_word(struct trie_graph *g, const char *w, size_t n, const fsm_end_id_t
 	}
 
 	if (endid != NULL) {
-		state_set_add(&st->endids, NULL, (fsm_state_t)*endid);
+		if (!state_set_add(&st->endids, NULL, (fsm_state_t)*endid)) {
+			return NULL;
+		}
 	}
 	return g;
 }
-- 
2.43.0


From 22dfdd8b7456e73332431f5b87af6fcee7b9adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 38/58] fix: remove_state used a null edge when its allocation
 failed

---
 src/libre/ast_new_from_fsm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libre/ast_new_from_fsm.c b/src/libre/ast_new_from_fsm.c
index bafd998..76f051a 100644
--- a/src/libre/ast_new_from_fsm.c
+++ b/src/libre/ast_new_from_fsm.c
@@ -292,8 +292,12 @@ remove_state(struct ast_expr_pool **poolp, struct rese *state)
 				while (ps->from != ps->to && ps->to < s->to)
 					ps = ps->succnext;
 
-				if (ps->to != s->to)
+				if (ps->to != s->to) {
 					ps = build_reedge(p->from, s->to);
+					if (ps == NULL) {
+						return 0;
+					}
+				}
 
 				e = ps;
 			}
-- 
2.43.0


From f03140639e90236440778179842ca5eb142484f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 39/58] fix: the regex parsers used an ast that could not be
 allocated

---
 src/libre/dialect/glob/parser.c    | 10 +++++++---
 src/libre/dialect/like/parser.c    | 10 +++++++---
 src/libre/dialect/literal/parser.c | 10 +++++++---
 src/libre/dialect/native/parser.c  | 10 +++++++---
 src/libre/dialect/pcre/parser.c    | 10 +++++++---
 src/libre/dialect/sql/parser.c     | 10 +++++++---
 src/libre/parser.act               |  8 ++++++--
 7 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/src/libre/dialect/glob/parser.c b/src/libre/dialect/glob/parser.c
index b20798f..9c8c4a4 100644
--- a/src/libre/dialect/glob/parser.c
+++ b/src/libre/dialect/glob/parser.c
@@ -662,12 +662,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -782,6 +786,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 786 "src/libre/dialect/glob/parser.c"
+#line 790 "src/libre/dialect/glob/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/like/parser.c b/src/libre/dialect/like/parser.c
index 008bd2b..6a0a7a5 100644
--- a/src/libre/dialect/like/parser.c
+++ b/src/libre/dialect/like/parser.c
@@ -662,12 +662,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -782,6 +786,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 786 "src/libre/dialect/like/parser.c"
+#line 790 "src/libre/dialect/like/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/literal/parser.c b/src/libre/dialect/literal/parser.c
index 5d1dc82..0bd3589 100644
--- a/src/libre/dialect/literal/parser.c
+++ b/src/libre/dialect/literal/parser.c
@@ -575,12 +575,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -695,6 +699,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 699 "src/libre/dialect/literal/parser.c"
+#line 703 "src/libre/dialect/literal/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index 63c5f8c..e6b151f 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -3071,12 +3071,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -3191,6 +3195,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 3195 "src/libre/dialect/native/parser.c"
+#line 3199 "src/libre/dialect/native/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index e59fee0..bdc9bd7 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -4355,12 +4355,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -4475,6 +4479,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 4479 "src/libre/dialect/pcre/parser.c"
+#line 4483 "src/libre/dialect/pcre/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/sql/parser.c b/src/libre/dialect/sql/parser.c
index e7a4c2e..0e90cf7 100644
--- a/src/libre/dialect/sql/parser.c
+++ b/src/libre/dialect/sql/parser.c
@@ -2068,12 +2068,16 @@ ZL0:;
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
@@ -2188,6 +2192,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 2192 "src/libre/dialect/sql/parser.c"
+#line 2196 "src/libre/dialect/sql/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/parser.act b/src/libre/parser.act
index 984036c..0d6ef88 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -1084,12 +1084,16 @@
 		assert(f != NULL);
 		assert(end != NULL);
 
-		ast = ast_new();
-
 		if (err == NULL) {
 			err = &dummy;
 		}
 
+		ast = ast_new();
+		if (ast == NULL) {
+			err->e = RE_EERRNO;
+			return NULL;
+		}
+
 		lex_state    = &lex_state_s;
 		lex_state->p = lex_state->a;
 
-- 
2.43.0


From c0169ab68ddd48757e49bce19b59a84d557150cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 40/58] fix: the regex parsers aborted when an allocation
 failed

---
 src/libre/dialect/glob/parser.c    | 7 +++----
 src/libre/dialect/like/parser.c    | 7 +++----
 src/libre/dialect/literal/parser.c | 7 +++----
 src/libre/dialect/native/parser.c  | 7 +++----
 src/libre/dialect/pcre/parser.c    | 7 +++----
 src/libre/dialect/sql/parser.c     | 7 +++----
 src/libre/parser.act               | 5 ++---
 7 files changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/libre/dialect/glob/parser.c b/src/libre/dialect/glob/parser.c
index 9c8c4a4..a795812 100644
--- a/src/libre/dialect/glob/parser.c
+++ b/src/libre/dialect/glob/parser.c
@@ -729,9 +729,8 @@ ZL0:;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* nothing the actions report; they failed to allocate */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -786,6 +785,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 790 "src/libre/dialect/glob/parser.c"
+#line 789 "src/libre/dialect/glob/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/like/parser.c b/src/libre/dialect/like/parser.c
index 6a0a7a5..b9dc6d9 100644
--- a/src/libre/dialect/like/parser.c
+++ b/src/libre/dialect/like/parser.c
@@ -729,9 +729,8 @@ ZL0:;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* nothing the actions report; they failed to allocate */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -786,6 +785,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 790 "src/libre/dialect/like/parser.c"
+#line 789 "src/libre/dialect/like/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/literal/parser.c b/src/libre/dialect/literal/parser.c
index 0bd3589..56a153d 100644
--- a/src/libre/dialect/literal/parser.c
+++ b/src/libre/dialect/literal/parser.c
@@ -642,9 +642,8 @@ ZL0:;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* nothing the actions report; they failed to allocate */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -699,6 +698,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 703 "src/libre/dialect/literal/parser.c"
+#line 702 "src/libre/dialect/literal/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/native/parser.c b/src/libre/dialect/native/parser.c
index e6b151f..a13b436 100644
--- a/src/libre/dialect/native/parser.c
+++ b/src/libre/dialect/native/parser.c
@@ -3138,9 +3138,8 @@ ZL0:;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* nothing the actions report; they failed to allocate */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -3195,6 +3194,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 3199 "src/libre/dialect/native/parser.c"
+#line 3198 "src/libre/dialect/native/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/pcre/parser.c b/src/libre/dialect/pcre/parser.c
index bdc9bd7..1f60990 100644
--- a/src/libre/dialect/pcre/parser.c
+++ b/src/libre/dialect/pcre/parser.c
@@ -4422,9 +4422,8 @@ ZL0:;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* nothing the actions report; they failed to allocate */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -4479,6 +4478,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 4483 "src/libre/dialect/pcre/parser.c"
+#line 4482 "src/libre/dialect/pcre/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/dialect/sql/parser.c b/src/libre/dialect/sql/parser.c
index 0e90cf7..4c94a96 100644
--- a/src/libre/dialect/sql/parser.c
+++ b/src/libre/dialect/sql/parser.c
@@ -2135,9 +2135,8 @@ ZL0:;
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* nothing the actions report; they failed to allocate */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
@@ -2192,6 +2191,6 @@ ZL0:;
 		return NULL;
 	}
 
-#line 2196 "src/libre/dialect/sql/parser.c"
+#line 2195 "src/libre/dialect/sql/parser.c"
 
 /* END OF FILE */
diff --git a/src/libre/parser.act b/src/libre/parser.act
index 0d6ef88..68ebbc5 100644
--- a/src/libre/parser.act
+++ b/src/libre/parser.act
@@ -1151,9 +1151,8 @@
 		}
 
 		if (ast->expr == NULL) {
-			/* We shouldn't get here, it means there's error
-			 * checking missing elsewhere. */
-			if (err->e == RE_ESUCCESS) { assert(!"unreached"); }
+			/* nothing the actions report; they failed to allocate */
+			err->e = RE_EERRNO;
 			goto error;
 		}
 
-- 
2.43.0


From b0a471ca28bed07ddf2edf761ee99f678bc1be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 41/58] fix: the args printing hook was called when the accept
 hook was set

---
 src/libfsm/print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print.c b/src/libfsm/print.c
index f9c9766..6a15a93 100644
--- a/src/libfsm/print.c
+++ b/src/libfsm/print.c
@@ -38,7 +38,7 @@ print_hook_args(FILE *f,
 		assert(lang_opaque == NULL);
 	}
 
-	if (hooks->accept != NULL) {
+	if (hooks->args != NULL) {
 		return hooks->args(f, opt,
 			lang_opaque, hooks->hook_opaque);
 	} else if (default_args != NULL) {
-- 
2.43.0


From cdcc5b887d923aeebdfff7514c71f4c0398835f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 42/58] fix: ast_print reported success after a failed write

---
 src/libre/print.c | 4 ++++
 src/re/main.c     | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libre/print.c b/src/libre/print.c
index 151545d..f964ddc 100644
--- a/src/libre/print.c
+++ b/src/libre/print.c
@@ -38,6 +38,10 @@ ast_print(FILE *f, const struct ast *ast, const struct fsm_options *opt,
 	// TODO: return int
 	print(f, opt, re_flags, ast);
 
+	if (ferror(f)) {
+		return -1;
+	}
+
 	return 0;
 }
 
diff --git a/src/re/main.c b/src/re/main.c
index 9059af9..212e954 100644
--- a/src/re/main.c
+++ b/src/re/main.c
@@ -800,7 +800,10 @@ main(int argc, char *argv[])
 			return EXIT_FAILURE;
 		}
 
-		ast_print(stdout, ast, &opt, flags, ast_lang);
+		if (-1 == ast_print(stdout, ast, &opt, flags, ast_lang)) {
+			perror("ast_print");
+			exit(EXIT_FAILURE);
+		}
 
 		ast_free(ast);
 
-- 
2.43.0


From 804c38fa8e9ff053340deebfac8d33e18aaad0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 43/58] fix: errors from printing hooks were ignored for Go and
 Rust

---
 src/libfsm/print/go.c   | 8 ++++++--
 src/libfsm/print/rust.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index 1f6b7a0..ed7f694 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -334,12 +334,16 @@ fsm_print_gofrag(FILE *f,
 		switch (op->instr) {
 		case VM_OP_STOP:
 			print_cond(f, op, opt);
-			print_end(f, op, opt, hooks, retlist, op->u.stop.end_bits);
+			if (-1 == print_end(f, op, opt, hooks, retlist, op->u.stop.end_bits)) {
+				return -1;
+			}
 			break;
 
 		case VM_OP_FETCH:
 			print_fetch(f, opt);
-			print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits);
+			if (-1 == print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits)) {
+				return -1;
+			}
 			break;
 
 		case VM_OP_BRANCH:
diff --git a/src/libfsm/print/rust.c b/src/libfsm/print/rust.c
index 80f6517..196846f 100644
--- a/src/libfsm/print/rust.c
+++ b/src/libfsm/print/rust.c
@@ -421,7 +421,9 @@ fsm_print_rustfrag(FILE *f,
 
 				fprintf(f, "                    ");
 				fprintf(f, "None => ");
-				print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits);
+				if (-1 == print_end(f, op, opt, hooks, retlist, op->u.fetch.end_bits)) {
+					return -1;
+				}
 				fprintf(f, ",\n");
 				fprintf(f, "                    ");
 
@@ -550,7 +552,9 @@ fsm_print_rust(FILE *f,
 	fprintf(f, " {\n");
 	fprintf(f, "    use Label::*;\n");
 
-	fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp);
+	if (-1 == fsm_print_rustfrag(f, opt, hooks, retlist, ops, cp)) {
+		return -1;
+	}
 
 	fprintf(f, "}\n");
 	fprintf(f, "\n");
-- 
2.43.0


From 000daa1f611db27be56c664c5f4ddd553910b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 44/58] fix: Go output for AMBIG_MULTIPLE was partly written to
 stdout

---
 src/libfsm/print/go.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/print/go.c b/src/libfsm/print/go.c
index ed7f694..fb19185 100644
--- a/src/libfsm/print/go.c
+++ b/src/libfsm/print/go.c
@@ -448,7 +448,7 @@ fsm_print_go(FILE *f,
 			break;
 
 		case AMBIG_MULTIPLE:
-			fprintf(stdout, "(bool, []uint)");
+			fprintf(f, "(bool, []uint)");
 			break;
 
 		default:
-- 
2.43.0


From bffcaa5bde487d5813eafda3d08bc1f09a9877ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 45/58] fix: edges read from an edge set lost the upper bits of
 their destination

struct fsm_edge held the destination in a 24-bit field, while states are
numbered up to 2^32 - 2: for an automaton of 2^24 states or more, every
destination read through struct fsm_edge was truncated.
---
 src/libfsm/internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libfsm/internal.h b/src/libfsm/internal.h
index 06658a7..d207e63 100644
--- a/src/libfsm/internal.h
+++ b/src/libfsm/internal.h
@@ -45,7 +45,7 @@ struct linkage_info;
 #define FSM_CAPTURE_MAX INT_MAX
 
 struct fsm_edge {
-	fsm_state_t state:24; /* destination. :24 for packing */
+	fsm_state_t state; /* destination */
 	unsigned char symbol;
 };
 
-- 
2.43.0


From 6381612a6acaf894ab3209f38b2ba5fffe10a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 46/58] fix: the state set was leaked when its array could not
 be allocated

---
 src/adt/stateset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/adt/stateset.c b/src/adt/stateset.c
index c2cc8b8..6c803c0 100644
--- a/src/adt/stateset.c
+++ b/src/adt/stateset.c
@@ -193,6 +193,7 @@ state_set_create(const struct fsm_alloc *a)
 
 	set->a = f_malloc(a, SET_INITIAL * sizeof *set->a);
 	if (set->a == NULL) {
+		f_free(a, set);
 		return NULL;
 	}
 
-- 
2.43.0


From 7fa64a304d3b56460d704afd1b8366cdf599d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 47/58] fix: freeing of edge groups when an allocation fails

---
 src/libfsm/print/ir.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libfsm/print/ir.c b/src/libfsm/print/ir.c
index d8e29b2..5a1ed6b 100644
--- a/src/libfsm/print/ir.c
+++ b/src/libfsm/print/ir.c
@@ -144,7 +144,6 @@ make_groups(const struct fsm *fsm, fsm_state_t state,
 
 		p = f_malloc(fsm->alloc, sizeof *p * (n - i)); /* worst case */
 		if (p == NULL) {
-			j++;
 			goto error;
 		}
 
@@ -166,7 +165,7 @@ make_groups(const struct fsm *fsm, fsm_state_t state,
 
 			tmp = f_realloc(fsm->alloc, p, sizeof *p * k);
 			if (tmp == NULL) {
-				j++;
+				f_free(fsm->alloc, p);
 				goto error;
 			}
 
-- 
2.43.0


From d1bd18699bef789384a26e199dcd11f4a6ed156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 48/58] fix: epsilon closures were leaked when analysing an NFA
 failed

---
 src/libfsm/union.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index 46526a0..ed5caac 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -359,7 +359,7 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 			if (eps_i == s_i) { continue; }
 
 			if (!state_set_add(&ainfo->reachable_from_nonstart_state, nfa->alloc, eps_i)) {
-				return false;
+				goto alloc_fail;
 			}
 		}
 
@@ -371,7 +371,7 @@ analyze_group_nfa(const struct fsm *nfa, struct analysis_info *ainfo)
 			if (info.to == s_i) { continue; }
 
 			if (!state_set_add(&ainfo->reachable_from_nonstart_state, nfa->alloc, info.to)) {
-				return false;
+				goto alloc_fail;
 			}
 		}
 	}
-- 
2.43.0


From 729d519f0890e24a29ff92a1f36dca04c0b258b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 49/58] fix: leaks on failure in
 fsm_union_repeated_pattern_group()

---
 src/libfsm/union.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/libfsm/union.c b/src/libfsm/union.c
index ed5caac..9ea9b16 100644
--- a/src/libfsm/union.c
+++ b/src/libfsm/union.c
@@ -692,6 +692,8 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 	const struct fsm_alloc *alloc = nfas[0]->alloc;
 	const bool log = 0 || LOG_UNION_REPEATED_PATTERN_GROUP;
 
+	struct fsm *res = NULL;
+
 	struct analysis_info *ainfos = f_calloc(alloc, nfa_count, sizeof(ainfos[0]));
 	if (ainfos == NULL) { goto fail; }
 
@@ -700,7 +702,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		assert(nfas[i]);
 		if (nfas[i]->alloc != alloc) {
 			errno = EINVAL;
-			return NULL;
+			goto fail;
 		}
 
 		/* Any NFAs passed to this function must be built with
@@ -709,7 +711,7 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		 * linking. */
 		if (nfas[i]->linkage_info == NULL) {
 			errno = EINVAL;
-			return NULL;
+			goto fail;
 		}
 
 		const size_t count = fsm_countstates(nfas[i]);
@@ -751,8 +753,8 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 
 	est_total_states += 5;	/* new start and end, new unanchored start and end loops */
 
-	struct fsm *res = fsm_new_statealloc(alloc, est_total_states);
-	if (res == NULL) { return NULL; }
+	res = fsm_new_statealloc(alloc, est_total_states);
+	if (res == NULL) { goto fail; }
 
 	/* The new overall start state */
 	fsm_state_t global_start;
@@ -793,7 +795,11 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 		/* Call fsm_merge; the argument order shouldn't matter. */
 		struct fsm_combine_info combine_info;
 		struct fsm *merged = fsm_merge(res, fsm, &combine_info);
-		if (merged == NULL) { goto fail; }
+		if (merged == NULL) {
+			fsm_free(fsm);
+			goto fail;
+		}
+		res = merged;
 
 		if (log) {
 			fprintf(stderr, "merged: bases a %d and b %d\n", combine_info.base_a, combine_info.base_b);
@@ -918,8 +924,6 @@ fsm_union_repeated_pattern_group(size_t nfa_count,
 				    global_unanchored_start_loop, ainfo->unanchored_start_loop);
 			}
 		}
-
-		res = merged;
 	}
 
 	/* Link the global start to the global unanchored start loop and anchored start states. */
@@ -983,6 +987,9 @@ fail:
 		}
 		f_free(alloc, ainfos);
 	}
+	if (res != NULL) {
+		fsm_free(res);
+	}
 
 	return NULL;
 }
-- 
2.43.0


From 80dee125b88407a8f17c0cf8279b220fbc54f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 50/58] fix: use after free when fsm_new() runs out of memory

---
 src/libfsm/fsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libfsm/fsm.c b/src/libfsm/fsm.c
index 866650a..d4b88a3 100644
--- a/src/libfsm/fsm.c
+++ b/src/libfsm/fsm.c
@@ -94,17 +94,17 @@ fsm_new_statealloc(const struct fsm_alloc *alloc, size_t statealloc)
 	}
 
 	if (!fsm_endid_init(new)) {
+		fsm_capture_free(new);
 		f_free(new->alloc, new->states);
 		f_free(new->alloc, new);
-		fsm_capture_free(new);
 		return NULL;
 	}
 
 	if (!fsm_eager_output_init(new)) {
+		fsm_endid_free(new);
+		fsm_capture_free(new);
 		f_free(new->alloc, new->states);
 		f_free(new->alloc, new);
-		fsm_capture_free(new);
-		fsm_endid_free(new);
 		return NULL;
 	}
 
-- 
2.43.0


From 57da3a46b7110e59862ee050912897550c4167b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 51/58] fix: hash buckets were leaked when fsm_parse() failed
 to create an fsm

---
 src/libfsm/parser.act | 1 +
 src/libfsm/parser.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/libfsm/parser.act b/src/libfsm/parser.act
index 2596c3c..1fdb35d 100644
--- a/src/libfsm/parser.act
+++ b/src/libfsm/parser.act
@@ -452,6 +452,7 @@
 		new = fsm_new(alloc);
 		if (new == NULL) {
 			perror("fsm_new");
+			free(act_state_s.states.buckets);
 			return NULL;
 		}
 
diff --git a/src/libfsm/parser.c b/src/libfsm/parser.c
index ec9bf4f..66bb81d 100644
--- a/src/libfsm/parser.c
+++ b/src/libfsm/parser.c
@@ -1392,6 +1392,7 @@ ZL1:;
 		new = fsm_new(alloc);
 		if (new == NULL) {
 			perror("fsm_new");
+			free(act_state_s.states.buckets);
 			return NULL;
 		}
 
-- 
2.43.0


From 03548b16566fea09faf4bf29f063d9ae55c40cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 52/58] fix: trie_dump() leaked its buffer

---
 src/libre/ac.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libre/ac.c b/src/libre/ac.c
index 6efc91d..7f98663 100644
--- a/src/libre/ac.c
+++ b/src/libre/ac.c
@@ -396,5 +396,7 @@ trie_dump(struct trie_graph *g, FILE *f)
 	}
 
 	dump_state(g->root,f,0, buf);
+
+	free(buf);
 }
 
-- 
2.43.0


From 32898e081f0fe158f6cca80a0352425c9c9678b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:58 +0000
Subject: [PATCH 53/58] fix: leaks in the printers when an allocation or a hook
 fails

---
 src/libfsm/print.c      | 7 +++++++
 src/libfsm/print/dot.c  | 1 +
 src/libfsm/print/json.c | 1 +
 3 files changed, 9 insertions(+)

diff --git a/src/libfsm/print.c b/src/libfsm/print.c
index 6a15a93..47bdfeb 100644
--- a/src/libfsm/print.c
+++ b/src/libfsm/print.c
@@ -199,6 +199,9 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 
 		ids = f_malloc(fsm->alloc, count * sizeof *ids);
 		if (ids == NULL) {
+			if (example != NULL) {
+				f_free(fsm->alloc, example);
+			}
 			goto error;
 		}
 
@@ -220,6 +223,10 @@ print_conflicts(FILE *f, const struct fsm *fsm,
 			&state_metadata,
 			example))
 		{
+			if (example != NULL) {
+				f_free(fsm->alloc, example);
+			}
+			f_free(fsm->alloc, ids);
 			goto error;
 		}
 
diff --git a/src/libfsm/print/dot.c b/src/libfsm/print/dot.c
index 69cce10..4d6b522 100644
--- a/src/libfsm/print/dot.c
+++ b/src/libfsm/print/dot.c
@@ -136,6 +136,7 @@ print_state(FILE *f,
 
 	for (edge_set_reset(fsm->states[s].edges, &it); edge_set_next(&it, &e); ) {
 		if (!state_set_add(&unique, fsm->alloc, e.state)) {
+			state_set_free(unique);
 			return -1;
 		}
 	}
diff --git a/src/libfsm/print/json.c b/src/libfsm/print/json.c
index b1e9f0c..f3bb813 100644
--- a/src/libfsm/print/json.c
+++ b/src/libfsm/print/json.c
@@ -149,6 +149,7 @@ print_state(FILE *f, const struct fsm_options *opt, const struct fsm *fsm,
 
 	for (edge_set_reset(fsm->states[s].edges, &it); edge_set_next(&it, &e); ) {
 		if (!state_set_add(&unique, fsm->alloc, e.state)) {
+			state_set_free(unique);
 			return -1;
 		}
 	}
-- 
2.43.0


From dbb5838a5843f099bac66c6ba0d4b7aff2fe459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:19 +0000
Subject: [PATCH 54/58] fix: edge_set_copy dereferenced an empty source set
 when copying into an existing set

---
 src/adt/edgeset.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index 178ddbc..bea5168 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -708,17 +708,17 @@ edge_set_copy(struct edge_set **dst, const struct fsm_alloc *alloc,
 	    (void *)src, (void *)*dst);
 #endif
 
+	/* nothing to add to *dst, whether or not it already exists */
+	if (edge_set_empty(src)) {
+		return 1;
+	}
+
 	if (*dst != NULL) {
 		/* The other `edge_set_copy` copies in the
 		 * edges from src if *dst already exists. */
 		return edge_set_copy_into(dst, alloc, src);
 	}
 
-	if (edge_set_empty(src)) {
-		*dst = NULL;
-		return 1;
-	}
-
 	set = f_malloc(alloc, sizeof(*set));
 	if (set == NULL) {
 		return 0;
-- 
2.43.0


From 8325e42bb5e9d10cc5394dfefbef9ae2d25827f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:43 +0000
Subject: [PATCH 55/58] fix: generated fdgetc returned bytes above 0x7f
 sign-extended, 0xff as EOF

---
 src/lx/print/c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lx/print/c.c b/src/lx/print/c.c
index 3340f0d..93f9c30 100644
--- a/src/lx/print/c.c
+++ b/src/lx/print/c.c
@@ -495,7 +495,7 @@ print_lgetc(FILE *f, const struct fsm_options *opt)
 		fprintf(f, "\t\td->len = r;\n");
 		fprintf(f, "\t}\n");
 		fprintf(f, "\n");
-		fprintf(f, "\treturn d->len--, *d->p++;\n");
+		fprintf(f, "\treturn d->len--, (unsigned char) *d->p++;\n");
 		fprintf(f, "}\n");
 		fprintf(f, "\n");
 	}
-- 
2.43.0


From 234934d655e82e0742bfb2a473bf8d464bd8fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:18 +0000
Subject: [PATCH 56/58] fix: renumber the start state when fsm_removestate()
 rehouses it

---
 src/libfsm/state.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libfsm/state.c b/src/libfsm/state.c
index c14bfe8..fbdc711 100644
--- a/src/libfsm/state.c
+++ b/src/libfsm/state.c
@@ -152,6 +152,11 @@ fsm_removestate(struct fsm *fsm, fsm_state_t state)
 	if (state < fsm->statecount - 1) {
 		fsm->states[state] = fsm->states[fsm->statecount - 1];
 
+		/* the start state may be the one rehoused */
+		if (fsm_getstart(fsm, &start) && start == fsm->statecount - 1) {
+			fsm_setstart(fsm, state);
+		}
+
 		for (i = 0; i < fsm->statecount - 1; i++) {
 			state_set_replace(&fsm->states[i].epsilons, fsm->statecount - 1, state);
 			if (!edge_set_replace_state(&fsm->states[i].edges, fsm->alloc, fsm->statecount - 1, state)) {
-- 
2.43.0


From 0b3d0232abae2ebbee8748848f9c2bbd6922890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:26 +0000
Subject: [PATCH 57/58] fix: give the number of the state merged into after
 fsm_mergestates() rehouses it

---
 src/libfsm/mergestates.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libfsm/mergestates.c b/src/libfsm/mergestates.c
index 77d5e2f..b5a8e3c 100644
--- a/src/libfsm/mergestates.c
+++ b/src/libfsm/mergestates.c
@@ -62,6 +62,11 @@ fsm_mergestates(struct fsm *fsm, fsm_state_t a, fsm_state_t b,
 		return 0;
 	}
 
+	/* removing b rehouses the last state there */
+	if (a == fsm->statecount) {
+		a = b;
+	}
+
 	if (q != NULL) {
 		*q = a;
 	}
-- 
2.43.0


From 8448a1dc73833611eb42e24e24e84097c6ae7601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:26 +0000
Subject: [PATCH 58/58] fix: moving edge groups down over a removed one read
 one group past the last

---
 src/adt/edgeset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/adt/edgeset.c b/src/adt/edgeset.c
index bea5168..022572c 100644
--- a/src/adt/edgeset.c
+++ b/src/adt/edgeset.c
@@ -803,7 +803,7 @@ edge_set_remove_state(struct edge_set **pset, fsm_state_t state)
 	while (i < set->count) {
 		const struct edge_group *eg = &set->groups[i];
 		if (eg->to == state) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			memmove(&set->groups[i],
 			    &set->groups[i + 1],
 			    to_mv * sizeof(*eg));
@@ -1086,7 +1086,7 @@ edge_set_replace_state(struct edge_set **pset, const struct fsm_alloc *alloc,
 	for (i = 0; i < set->count; i++) {
 		struct edge_group *eg = &set->groups[i];
 		if (eg->to == old) {
-			const size_t to_mv = set->count - i;
+			const size_t to_mv = set->count - i - 1;
 			unsigned char label;
 			if (!find_first_group_label(eg, &label)) {
 				return 1; /* ignore empty group */
-- 
2.43.0

