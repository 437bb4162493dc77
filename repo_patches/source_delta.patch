From d82e929b59a4e60207269c0300b3f03abc5a7216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:09 +0000
Subject: [PATCH 01/12] fix: Reduce the message hash modulo the order in C++
 Ecdsa::sign(), because one conditional subtraction of the sum was not always
 enough.

---
 cpp/Ecdsa.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/Ecdsa.cpp b/cpp/Ecdsa.cpp
index 46f8c4a..1da5230 100644
--- a/cpp/Ecdsa.cpp
+++ b/cpp/Ecdsa.cpp
@@ -48,7 +48,8 @@ bool Ecdsa::sign(const Uint256 &privateKey, const Sha256Hash &msgHash, const Uin
 	countOps(1 * curvepointCopyOps);
 	
 	Uint256 s = r;
-	const Uint256 z(msgHash.value);
+	Uint256 z(msgHash.value);
+	z.subtract(order, static_cast<uint32_t>(z >= order));
 	multiplyModOrder(s, privateKey);
 	uint32_t carry = s.add(z);
 	s.subtract(order, carry | static_cast<uint32_t>(s >= order));
-- 
2.43.0


From 91d6d8606fe75b19588f72e01d60366f2ba12b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:09 +0000
Subject: [PATCH 02/12] fix: Reduce the message hash modulo the order in Java
 Ecdsa.sign(), because one conditional subtraction of the sum was not always
 enough.

---
 java/io/nayuki/bitcoin/crypto/Ecdsa.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Ecdsa.java b/java/io/nayuki/bitcoin/crypto/Ecdsa.java
index 692e67a..c021c94 100644
--- a/java/io/nayuki/bitcoin/crypto/Ecdsa.java
+++ b/java/io/nayuki/bitcoin/crypto/Ecdsa.java
@@ -72,6 +72,7 @@ public final class Ecdsa {
 		Int256Math.copy(val, rOff, val, sOff);
 		Arrays.fill(val, zOff, zOff + NUM_WORDS, 0);
 		Int256Math.bytesToUint(msgHash.toBytes(), val, zOff);
+		Int256Math.uintSubtract(val, zOff, orderOff, Int256Math.lessThan(val, zOff, orderOff) ^ 1, zOff);
 		multiplyModOrder(val, sOff, privateKey, 0, tempOff);
 		int carry = Int256Math.uintAdd(val, sOff, zOff, 1, sOff);
 		Int256Math.uintSubtract(val, sOff, orderOff, carry | (Int256Math.lessThan(val, sOff, orderOff) ^ 1), sOff);
-- 
2.43.0


From 487de87d2d38a11a3c3367856bb6f053365d5d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:09 +0000
Subject: [PATCH 03/12] fix: Avoid overflow in C++ Uint256::reciprocal() when
 the modulus is 2^256 - 1.

---
 cpp/Uint256.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/Uint256.cpp b/cpp/Uint256.cpp
index 224b6c2..de785ea 100644
--- a/cpp/Uint256.cpp
+++ b/cpp/Uint256.cpp
@@ -147,8 +147,8 @@ void Uint256::reciprocal(const Uint256 &modulus) {
 	Uint256 b = ONE;
 	Uint256 halfModulus = modulus;
 	countOps(5 * uint256CopyOps);
-	halfModulus.add(ONE);
 	halfModulus.shiftRight1();
+	halfModulus.add(ONE);
 	
 	// Loop invariant: x = a*this mod modulus, and y = b*this mod modulus
 	for (int i = 0; i < NUM_WORDS * 32 * 2; i++) {
-- 
2.43.0


From bb3ea9eaec75a287e8c38898fa710c4e77d8245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:09 +0000
Subject: [PATCH 04/12] fix: Avoid overflow in Java Int256Math.reciprocal()
 when the modulus is 2^256 - 1.

---
 java/io/nayuki/bitcoin/crypto/Int256Math.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/io/nayuki/bitcoin/crypto/Int256Math.java b/java/io/nayuki/bitcoin/crypto/Int256Math.java
index 702dd31..6e7a2f0 100644
--- a/java/io/nayuki/bitcoin/crypto/Int256Math.java
+++ b/java/io/nayuki/bitcoin/crypto/Int256Math.java
@@ -177,8 +177,8 @@ public final class Int256Math {
 		copy(ZERO, 0,   val, cOff);
 		copy(ONE , 0,   val, dOff);
 		copy(ONE, 0, val, oneOff);
-		uintAdd(val, yOff, oneOff, 1, halfModOff);
-		uintShiftRight1(val, halfModOff, 1, halfModOff);
+		uintShiftRight1(val, yOff, 1, halfModOff);
+		uintAdd(val, halfModOff, oneOff, 1, halfModOff);
 		
 		// Loop invariant: a = c*x mod y, and b = d*x mod y
 		for (int i = 0; i < NUM_WORDS * 32 * 2; i++) {
-- 
2.43.0


From b21a4fbef3bb0ae0492826c627b0ce5baea0d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:09 +0000
Subject: [PATCH 05/12] fix: Use unaligned loads in asm_Uint256_replace() and
 asm_Uint256_equalTo(), because Uint256 is not guaranteed to be 16-byte
 aligned.

---
 cpp/AsmX8664.s | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/AsmX8664.s b/cpp/AsmX8664.s
index 34a1509..432482d 100644
--- a/cpp/AsmX8664.s
+++ b/cpp/AsmX8664.s
@@ -96,8 +96,10 @@ asm_Uint256_replace:
 	pshufd    $0, %xmm0, %xmm0
 	movdqu     0(%rdi), %xmm1
 	movdqu    16(%rdi), %xmm2
-	pblendvb   0(%rsi), %xmm1
-	pblendvb  16(%rsi), %xmm2
+	movdqu     0(%rsi), %xmm3
+	movdqu    16(%rsi), %xmm4
+	pblendvb  %xmm3, %xmm1
+	pblendvb  %xmm4, %xmm2
 	movdqu    %xmm1,  0(%rdi)
 	movdqu    %xmm2, 16(%rdi)
 	retq
@@ -131,8 +133,10 @@ asm_Uint256_swap:
 asm_Uint256_equalTo:
 	movdqu     0(%rdi), %xmm0
 	movdqu    16(%rdi), %xmm1
-	pcmpeqb    0(%rsi), %xmm0
-	pcmpeqb   16(%rsi), %xmm1
+	movdqu     0(%rsi), %xmm2
+	movdqu    16(%rsi), %xmm3
+	pcmpeqb   %xmm2, %xmm0
+	pcmpeqb   %xmm3, %xmm1
 	pand      %xmm1, %xmm0
 	pmovmskb  %xmm0, %eax
 	cmpl      $0xFFFF, %eax
-- 
2.43.0


From c3b0290c74890c94dffc35faaea3621c79f7552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:09 +0000
Subject: [PATCH 06/12] fix: Ignore the undefined upper half of the 32-bit
 enable argument in asm_Uint256_add() and asm_Uint256_subtract().

---
 cpp/AsmX8664.s | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/AsmX8664.s b/cpp/AsmX8664.s
index 432482d..68191e7 100644
--- a/cpp/AsmX8664.s
+++ b/cpp/AsmX8664.s
@@ -10,7 +10,8 @@
 /* uint32_t asm_Uint256_add(uint32_t dest[8], const uint32_t src[8], uint32_t enable) */
 .globl asm_Uint256_add
 asm_Uint256_add:
-	negq    %rdx
+	negl    %edx
+	movslq  %edx, %rdx
 	movq     0(%rsi), %rax
 	movq     8(%rsi), %rcx
 	movq    16(%rsi), %r8
@@ -31,7 +32,8 @@ asm_Uint256_add:
 /* uint32_t asm_Uint256_subtract(uint32_t dest[8], const uint32_t src[8], uint32_t enable) */
 .globl asm_Uint256_subtract
 asm_Uint256_subtract:
-	negq    %rdx
+	negl    %edx
+	movslq  %edx, %rdx
 	movq     0(%rsi), %rax
 	movq     8(%rsi), %rcx
 	movq    16(%rsi), %r8
-- 
2.43.0


From ba560bd64ca9b7a6561c50f08a21ff4abcfd6671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:09 +0000
Subject: [PATCH 07/12] fix: Reject mixed-case Bech32 strings where an
 uppercase letter precedes a lowercase letter.

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 7cd285a..74911ec 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -216,16 +216,18 @@ public final class Bech32 {
 		
 		{  // Normalize to lowercase, rejecting mixed case
 			boolean hasLower = false;
+			boolean hasUpper = false;
 			char[] temp = s.toCharArray();
 			for (int i = 0; i < temp.length; i++) {
 				char c = temp[i];
 				hasLower |= 'a' <= c && c <= 'z';
 				if ('A' <= c && c <= 'Z') {
-					if (hasLower)
-						throw new IllegalArgumentException("String has mixed case");
+					hasUpper = true;
 					temp[i] += 'a' - 'A';
 				}
 			}
+			if (hasLower && hasUpper)
+				throw new IllegalArgumentException("String has mixed case");
 			s = new String(temp);
 		}
 		
-- 
2.43.0


From 1262c21c45d1d88bc0b110da1d62650d28c2bf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:09 +0000
Subject: [PATCH 08/12] fix: Reject segwit addresses with a superfluous padding
 group, because they do not re-encode to the same string.

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 74911ec..c591238 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -138,6 +138,8 @@ public final class Bech32 {
 		
 		// Final checks and return
 		assert outputIndex == witProg.length;
+		if (bitBufferLen >= IN_BITS)
+			throw new IllegalArgumentException("Excess padding");
 		if (bitBuffer != 0)
 			throw new IllegalArgumentException("Non-zero padding");
 		return new Object[]{decoded[0], witVer, witProg};
-- 
2.43.0


From 9fd3b3f0661d29a09ff0898e6fa468cbc76d89ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:09 +0000
Subject: [PATCH 09/12] fix: Throw IllegalArgumentException in Java
 Base58Check.base58ToBytes() when the string is too short to hold a checksum.

---
 java/io/nayuki/bitcoin/crypto/Base58Check.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Base58Check.java b/java/io/nayuki/bitcoin/crypto/Base58Check.java
index 6f3acc8..7ef580f 100644
--- a/java/io/nayuki/bitcoin/crypto/Base58Check.java
+++ b/java/io/nayuki/bitcoin/crypto/Base58Check.java
@@ -63,6 +63,8 @@ public final class Base58Check {
 	// The caller is responsible for handling the version byte(s).
 	public static byte[] base58ToBytes(String s) {
 		byte[] concat = base58ToRawBytes(s);
+		if (concat.length < 4)
+			throw new IllegalArgumentException("Data too short");
 		byte[] data = Arrays.copyOf(concat, concat.length - 4);
 		byte[] hash = Arrays.copyOfRange(concat, concat.length - 4, concat.length);
 		byte[] rehash = Arrays.copyOf(Sha256.getDoubleHash(data).toBytes(), 4);
-- 
2.43.0


From 34e4fb796b3cf381c3dc24da0e93ac39655dca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 10/12] fix: Java curve point multiplication must not depend on
 leftover temporary data

The first conditional replacement into the table lookup result checked its
uninitialized words, so with assertions enabled the method could fail when
the temporary space held values not below the field modulus.
---
 java/io/nayuki/bitcoin/crypto/CurvePointMath.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/io/nayuki/bitcoin/crypto/CurvePointMath.java b/java/io/nayuki/bitcoin/crypto/CurvePointMath.java
index 791834c..d2c4660 100644
--- a/java/io/nayuki/bitcoin/crypto/CurvePointMath.java
+++ b/java/io/nayuki/bitcoin/crypto/CurvePointMath.java
@@ -212,6 +212,7 @@ public final class CurvePointMath {
 		// Process tableBits bits per iteration (windowed method)
 		copy(ZERO_POINT, 0, val, pOff);
 		int qOff = tempOff + tableLen * POINT_WORDS;
+		copy(ZERO_POINT, 0, val, qOff);  // Don't let replace() inspect leftover temporary data
 		for (int i = Int256Math.NUM_WORDS * 32 - tableBits; i >= 0; i -= tableBits) {
 			int inc = (val[nOff + (i >>> 5)] >>> (i & 31)) & (tableLen - 1);
 			for (int j = 0; j < tableLen; j++)
-- 
2.43.0


From 03dc98a7b511cb6b221b83b67e99387583c53502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 11/12] fix: Keep compilers from branching on the enable
 argument in Uint256::replace()

When built with clang++ and the Makefile's own flags (assertions on, -O1), the
assertion lets the optimizer deduce that the mask is either 0 or all ones, and
it unswitches the loop on the secret value. CurvePoint::multiply()'s table
lookups and twice()/add() inherit that secret-dependent branch.
---
 cpp/Uint256.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/Uint256.cpp b/cpp/Uint256.cpp
index de785ea..9b5c65f 100644
--- a/cpp/Uint256.cpp
+++ b/cpp/Uint256.cpp
@@ -200,7 +200,8 @@ void Uint256::replace(const Uint256 &other, uint32_t enable) {
 		return;
 	}
 	
-	uint32_t mask = -enable;
+	volatile uint32_t opaqueEnable = enable;  // Stops the compiler from deducing the mask's two values and branching on it
+	uint32_t mask = -opaqueEnable;
 	countOps(1 * arithmeticOps);
 	for (int i = 0; i < NUM_WORDS; i++) {
 		countOps(loopBodyOps);
-- 
2.43.0


From a111ad66bb40bacf4f933b011f4b2b00ec66caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 12/12] fix: Make the final assertion of Uint256::reciprocal()
 free of a value-dependent branch

Compilers turn (a) | (b) in a condition into two branches, so that the executed
path told whether the secret operand was zero. The modulus is greater than 1,
so exactly one of the two equalities holds.
---
 cpp/Uint256.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/Uint256.cpp b/cpp/Uint256.cpp
index 9b5c65f..0dce783 100644
--- a/cpp/Uint256.cpp
+++ b/cpp/Uint256.cpp
@@ -186,7 +186,7 @@ void Uint256::reciprocal(const Uint256 &modulus) {
 		b.add(modulus, borrow);
 		countOps(2 * arithmeticOps);
 	}
-	assert((x == ONE) | (x == modulus));  // Either gcd(this, modulus) = 1 or this = 0
+	assert(static_cast<int>(x == ONE) + static_cast<int>(x == modulus) == 1);  // Either gcd(this, modulus) = 1 or this = 0
 	this->replace(a, static_cast<uint32_t>(*this != ZERO));
 }
 
-- 
2.43.0

