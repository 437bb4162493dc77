#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run  # noqa
sys.modules.setdefault("run", run)
import plans
J = "java/io/nayuki/bitcoin/crypto/"
P = []
def prop(pid, title, statement, over, qtext, why, files, mech, tech, note):
    assert len(title) <= 80, (pid, len(title))
    P.append((pid, title, statement, over, qtext, why, files, mech, tech, note))

VEC = "The tests check a fixed list of vectors; the claim is over every input, and "
prop("P01", "C++ 256-bit unsigned arithmetic is exact, with correct carries and conditionals",
 "In the C++ library, addition, subtraction, shifts, conditional replacement and swap, comparison, hexadecimal and big-endian conversion of 256-bit unsigned integers give exactly the mathematical result modulo 2^256 and the exact carry, borrow or shifted-out bit (0 or 1) for all operand values. With the enable flag 0 an operation leaves its operands unchanged and returns no carry; operands passed by const reference never change.",
 ["inputs", "configurations"], "all pairs of 256-bit values, both enable values, both arithmetic back ends", VEC + "carry chains across word boundaries have about 2^512 operand pairs.",
 ["cpp/Uint256.cpp", "cpp/Uint256.hpp", "cpp/AsmX8664.s"], [("word loops with explicit carries and masks", "cpp/Uint256.cpp add/subtract/shiftLeft1/shiftRight1/replace/swap/comparisons")],
 "online oracle (GMP) over generated operands, ASan/UBSan builds", "carry-pattern-biased operands on four builds; every result word and carry compared with GMP")
prop("P02", "C++ modular reciprocal is the true inverse for every odd modulus",
 "In the C++ library, the reciprocal of x modulo any odd m greater than 1 (x below m and coprime to m) is the unique y below m with x*y = 1 mod m, and the reciprocal of 0 is 0; the modulus operand is not modified. The same holds for field elements, whose reciprocal of zero is zero.",
 ["inputs", "configurations"], "all odd 256-bit moduli above 1 and all coprime values below them, on both back ends", VEC + "a fixed-iteration binary GCD can be wrong only for rare operand shapes (long swaps, moduli close to 2^256).",
 ["cpp/Uint256.cpp", "cpp/FieldInt.cpp"], [("fixed-length extended binary GCD", "cpp/Uint256.cpp reciprocal")],
 "online oracle (GMP inverse) over structured and random (x, m)", "moduli of all bit lengths including 2^256-1, values including 0, 1, m-1, powers of two")
prop("P03", "C++ field arithmetic is exact modulo the curve prime and stays reduced",
 "In the C++ library, construction, addition, subtraction, doubling, squaring, multiplication, reciprocal, conditional replacement and comparison of field elements equal the mathematical operation modulo the secp256k1 prime, and every result is fully reduced (below the prime). Operand aliasing that the interface permits gives the same result as distinct operands.",
 ["inputs", "configurations"], "all field elements and element pairs, on both back ends", VEC + "Barrett reduction corrections and the final conditional subtraction are reached by a vanishing share of random products.",
 ["cpp/FieldInt.cpp", "cpp/AsmX8664.s"], [("Barrett reduction with final conditional subtraction", "cpp/FieldInt.cpp multiply/square"), ("conditional subtraction of the prime", "cpp/FieldInt.cpp add/multiply2/constructor")],
 "online oracle (GMP) incl. solved products that hit reduction boundaries", "factor pairs are solved so that the product lands next to multiples of the prime and word carries")
prop("P04", "Assembly back end obeys its contracts and all builds agree bit for bit",
 "Each x86-64 assembly routine computes its documented function for all operand values and permitted aliasing and alignment, writes only its documented output, and preserves callee-saved registers, the stack and the direction flag. The portable and assembly builds, optimised or not, return identical values and flags for the same sequence of calls.",
 ["inputs", "configurations"], "all operands, aliasing patterns and operand placements of the assembly routines; the same histories on four build configurations", "The tests link one back end at a time, with compiler-chosen operand placement and no check of registers or neighbouring memory.",
 ["cpp/AsmX8664.s", "cpp/AsmX8664.hpp", "cpp/Uint256.cpp", "cpp/FieldInt.cpp"], [("hand-written System V routines", "cpp/AsmX8664.s")],
 "ABI trampoline, guard-page and GMP oracle monitors; differential output digests", "poisoned registers around each call, operands against PROT_NONE pages, digests of all outputs of nine suites compared over four builds")
prop("P05", "C++ curve points follow the group law, incl. infinity, inverses and any scaling",
 "In the C++ library, point addition, doubling and scalar multiplication (any 256-bit scalar) represent exactly the secp256k1 group operation for every projective representation of the operands, including infinity, equal and opposite points, and always yield a valid representation. Normalisation is idempotent and gives the unique affine form; curve membership, zero test, equality, conditional replacement and the 33-byte compressed form agree with the mathematical point, and public keys derived from private exponents equal that multiple of the base point.",
 ["inputs", "configurations"], "all points, scalings, scalars, on both back ends", VEC + "exceptional cases (z scaling, P=Q reached through different z, scalar windows of value 0, scalars at or above the order) are rarely sampled.",
 ["cpp/CurvePoint.cpp", "cpp/CurvePoint.hpp"], [("complete addition by masking over special cases", "cpp/CurvePoint.cpp add/twice"), ("4-bit window ladder", "cpp/CurvePoint.cpp multiply"), ("normalize", "cpp/CurvePoint.cpp normalize")],
 "online group-law oracle (independent affine arithmetic in GMP)", "points with structured relations and random scalings, scalars with all window patterns; scalar multiplication on four builds")
prop("P06", "C++ ECDSA signing returns the exact low-S signature or refuses without effect",
 "In the C++ library, for a private key in range, any message hash and any 256-bit nonce, signing succeeds exactly when the nonce is in [1, order-1] and the mathematical r and s are non-zero; then r and s are the mathematical ECDSA values with s replaced by order minus s when that is smaller. On refusal the outputs keep their old values.",
 ["inputs", "configurations"], "all keys, hashes and nonces (including hashes at or above the order, tiny or invalid nonces)", VEC + "hashes above the order, r or s equal to zero and the s = order/2 boundary never arise by sampling.",
 ["cpp/Ecdsa.cpp"], [("sign", "cpp/Ecdsa.cpp sign"), ("double-and-add modular product", "cpp/Ecdsa.cpp multiplyModOrder")],
 "online oracle (GMP ECDSA) with solved adversarial inputs", "private key or hash solved so that s is 0, 1, order/2, order-1, or r + hash arithmetic overflows")
prop("P07", "C++ deterministic signing uses the HMAC nonce and signs deterministically",
 "In the C++ library, signing with the derived nonce equals signing with the nonce HMAC-SHA-256(key = the 32-byte big-endian private key, message = the 32 bytes of the hash): it is a pure function of key and hash, refuses without effect when that value is not a usable nonce, and the signature otherwise verifies under the corresponding public key.",
 ["inputs", "configurations"], "all private keys in range and all message hashes", VEC + "a wrong byte of key or hash in the nonce still yields valid signatures.",
 ["cpp/Ecdsa.cpp", "cpp/Sha256.cpp"], [("signWithHmacNonce", "cpp/Ecdsa.cpp signWithHmacNonce")],
 "online oracle (OpenSSL HMAC + GMP ECDSA)", "keys and hashes with leading zeros, extremes and random values")
prop("P08", "C++ ECDSA verification accepts exactly the valid signatures",
 "In the C++ library, verification returns true exactly when the public key is a normalised finite point on the curve, r and s are in [1, order-1], and the ECDSA verification equation holds; it returns false for every other key, hash and signature and never modifies its arguments. Both s and order minus s are accepted, and hashes at or above the order are reduced.",
 ["inputs", "configurations"], "all public key triples, hashes, r and s", VEC + "accepting one malformed key, out-of-range scalar, r at or above the order, or infinity intermediate is invisible to valid vectors.",
 ["cpp/Ecdsa.cpp", "cpp/CurvePoint.cpp"], [("verify", "cpp/Ecdsa.cpp verify")],
 "online oracle (GMP) over valid, forged and mutated signatures", "signatures are mutated in every component; keys solved so that u1*G+u2*Q is infinity or doubles; off-curve and unnormalised keys")
H = "lengths around every padding boundary, splits of streaming input, long keys and messages beyond 2^32 bits are not sampled."
prop("P09", "C++ SHA-256, double SHA-256 and HMAC-SHA-256 equal the standard for any input",
 "In the C++ library, the SHA-256 digest, double digest and HMAC of every byte string (and key of any length) equal FIPS 180-4 / RFC 2104, independent of memory placement and without modifying the input. Feeding a message to the incremental hasher in any number of pieces of any sizes (also empty) gives the digest of the concatenation, and hashers do not influence one another.",
 ["inputs", "histories", "configurations"], "all messages, keys and partitions into appends, including messages over 2^29 bytes", VEC + H,
 ["cpp/Sha256.cpp"], [("padding, length field and block buffering", "cpp/Sha256.cpp append/getHash"), ("HMAC key block", "cpp/Sha256.cpp getHmac")],
 "online oracle (OpenSSL) over lengths, placements and append histories; ASan", "guarded buffers of exact size; interleaved hashers; messages crossing 2^32 bits")
prop("P10", "C++ SHA-512 and HMAC-SHA-512 equal the standard for any input",
 "In the C++ library, the SHA-512 digest and HMAC of every byte string (and key of any length) equal FIPS 180-4 / RFC 2104, independent of memory placement and without modifying the input. Feeding a message to the incremental hasher in any number of pieces of any sizes (also empty) gives the digest of the concatenation, and hashers do not influence one another.",
 ["inputs", "histories", "configurations"], "all messages, keys and partitions into appends, including messages over 2^29 bytes", VEC + H,
 ["cpp/Sha512.cpp"], [("padding, length field and block buffering", "cpp/Sha512.cpp append/getHash"), ("HMAC key block", "cpp/Sha512.cpp getHmac")],
 "online oracle (OpenSSL) over lengths, placements and append histories; ASan", "guarded buffers of exact size; interleaved hashers; messages crossing 2^32 bits")
prop("P11", "C++ RIPEMD-160 equals the standard for any input",
 "In the C++ library, the RIPEMD-160 digest of every byte string equals the published algorithm, whatever its length, content and placement in memory, without modifying the input or reading outside it.",
 ["inputs", "configurations"], "all messages, including lengths over 2^29 bytes", VEC + H,
 ["cpp/Ripemd160.cpp"], [("padding and length field", "cpp/Ripemd160.cpp getHash"), ("compression", "cpp/Ripemd160.cpp compress")],
 "online oracle (reference/OpenSSL) over lengths and placements; ASan", "guarded buffers of exact size; messages crossing 2^32 bits")
prop("P12", "C++ Keccak-256 equals the original Keccak with 256-bit output for any input",
 "In the C++ library, the Keccak-256 digest of every byte string equals the original (pre-SHA-3 padding) Keccak with rate 1088 and capacity 512, whatever its length, content and placement in memory, without modifying the input or reading outside it.",
 ["inputs", "configurations"], "all messages, including lengths over 2^29 bytes", VEC + H,
 ["cpp/Keccak256.cpp"], [("sponge absorption and padding", "cpp/Keccak256.cpp getHash/absorb")],
 "online oracle (independent Keccak validated against SHA3-256) over lengths; ASan", "guarded buffers of exact size; long messages")
prop("P13", "C++ Base58Check export yields the exact text within the documented length",
 "In the C++ library, exporting a public key hash, private key (compressed or not) or extended private key with any version byte writes exactly the Base58Check text of the specified byte layout with its double-SHA-256 checksum and one terminator, never more than the documented array size. Importing the text recovers the same values.",
 ["inputs", "configurations"], "all payloads, version bytes, flags and extended key fields", VEC + "leading-zero runs and digit counts at the length extremes are rare.",
 ["cpp/Base58Check.cpp"], [("bytesToBase58Check", "cpp/Base58Check.cpp")],
 "online oracle (GMP Base58 + OpenSSL) and round trip; exact-size buffers under ASan", "payloads with leading zeros, extreme values, all versions")
prop("P14", "C++ Base58Check import accepts exactly valid strings and fails without effect",
 "In the C++ library, importing an address, WIF or extended private key string returns true exactly when the string consists of Base58 characters, decodes to exactly the required number of bytes (leading ones map to zero bytes), has a correct checksum and, for WIF and extended keys, the required markers and header; then all outputs hold the encoded values. Otherwise it returns false and every output, including optional ones, is unchanged; optional outputs may be null.",
 ["inputs", "configurations"], "all NUL-terminated strings (also malformed, mutated, over-long, non-ASCII, empty)", VEC + "accepting a non-canonical or over-long string, or touching outputs on late failure, needs crafted inputs.",
 ["cpp/Base58Check.cpp"], [("base58CheckToBytes", "cpp/Base58Check.cpp"), ("format checks before assignment", "cpp/Base58Check.cpp privateKeyFromBase58Check/extendedPrivateKeyFromBase58Check")],
 "online oracle (GMP Base58) over valid, mutated and re-checksummed strings; ASan", "strings with valid checksums over wrong payloads, lengths and markers; sentinel-filled outputs")
prop("P15", "C++ HD key derivation follows BIP 32 for every parent and index",
 "In the C++ library, the child of an extended private key at any 32-bit index equals BIP 32 private derivation: key, public key, chain code, depth plus one, index and parent fingerprint, hardened exactly when the top bit is set; the parent is not modified and fields are stored as given by constructors. Keys derived along a path serialise to the corresponding text.",
 ["inputs", "histories", "configurations"], "all extended private keys of depth below 255, all indices and derivation paths, including derived tweaks whose sum with the key reaches the order", VEC + "sums that wrap the order or the 256-bit range have probability about 2^-128 and need injected HMAC output.",
 ["cpp/ExtendedPrivateKey.cpp"], [("getChildKey", "cpp/ExtendedPrivateKey.cpp")],
 "online oracle (GMP + OpenSSL) with interposed HMAC output", "the HMAC result is injected so that tweak + key wraps 2^256, exceeds the order, or equals the edges")
prop("P16", "C++ hash values, constructors and utilities convert and compare exactly",
 "In the C++ library, a hash value built from 32 bytes or from its byte-reversed hexadecimal text (either case) holds those bytes, and two hash values compare equal exactly when all bytes match. Hex digits parse to their value and every other character is rejected; big-endian stores and overlapping or empty byte copies behave like memmove; constants and constructors of points and field elements hold the values given.",
 ["inputs"], "all byte strings, characters, values, copy lengths and overlaps", VEC + "differences in a single byte or bit position are not all sampled.",
 ["cpp/Sha256Hash.cpp", "cpp/Utils.cpp", "cpp/CurvePoint.cpp", "cpp/Uint256.cpp"], [("comparison and parsing", "cpp/Sha256Hash.cpp"), ("helpers", "cpp/Utils.cpp")],
 "online oracle over generated values; exhaustive characters", "each bit position flipped; all characters; overlapping copies")
prop("M01", "C++ library performs no undefined behaviour or out-of-bounds access",
 "For every input within the documented preconditions, no public C++ operation reads or writes memory outside the objects and arrays passed to it, overflows a signed integer, shifts out of range, misuses alignment, leaks memory, fails an internal assertion or hangs, in the portable or the assembly build.",
 ["inputs", "configurations"], "all inputs within the documented preconditions, all object placements", "The tests run without sanitizers, so an off-by-one access or undefined shift is silent.",
 ["cpp/*.cpp", "cpp/AsmX8664.s"], [("bounds by construction, fixed-size arrays", "cpp/*.cpp")],
 "ASan+UBSan+LSan fatal builds and guard pages under all workloads", "exact-size heap blocks and guard pages; every suite's workload incl. hostile strings; assembly accesses via guard pages")
prop("M02", "C++ results never depend on uninitialised memory",
 "For every input within the documented preconditions, no public C++ operation lets an uninitialised value decide a branch, an address or an output byte, in the portable or the assembly build.",
 ["inputs", "configurations"], "all inputs within the documented preconditions", "The tests see plausible stack contents; a stale-stack dependence is usually benign in a single run.",
 ["cpp/*.cpp", "cpp/AsmX8664.s"], [("all locals assigned before use", "cpp/*.cpp")],
 "valgrind memcheck with definedness assertions on every output + differential monitor on two builds whose locals start as zeros and as 0xFE bytes", "outputs are checked for definedness after each call; poisoned stack and heap; 16 suites compared output by output between the two builds of each back end")
prop("R01", "C++ operations on distinct or shared-read-only data are thread safe",
 "Any number of threads may run public C++ operations at once, sharing read-only arguments but no written objects, and each call returns what it returns when run alone, without data races, also when the first use of the library happens in parallel.",
 ["schedules", "inputs"], "all interleavings of concurrent calls on all operations", "The tests are single-threaded, so hidden shared mutable state cannot show.",
 ["cpp/*.cpp"], [("no mutable global state; constants initialised statically", "cpp/*.cpp")],
 "ThreadSanitizer on random multi-thread mixes + result oracle", "fresh process per round; all operations mixed over threads with shared inputs, compared with the serial oracle")
prop("T01", "C++ secret-handling operations have secret-independent control flow and accesses",
 "For every operation documented as constant-time in the C++ library (big-integer, field and curve arithmetic, successful signing, key derivation to a public point, hash comparison and byte conversion), the sequence of executed code locations and of memory addresses accessed is the same for all secret operand values, in the portable and the assembly build.",
 ["inputs", "configurations"], "all pairs of secret values for each documented operation", "Functional tests observe values only, never the instruction or address trace.",
 ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Ecdsa.cpp", "cpp/Sha256Hash.cpp", "cpp/AsmX8664.s"], [("masking instead of branching, full table scans", "cpp/Uint256.cpp, cpp/CurvePoint.cpp multiply, cpp/Ecdsa.cpp")],
 "trace-equality monitor (compiler coverage callbacks; valgrind lackey for assembly; single-stepped machine code)", "source-level (-O0) traces of 49 operations and instruction traces of the assembly routines over many secret pairs; the thorough tier single-steps the machine code of gcc -O1 (both back ends) and clang -O1; other optimisation levels and micro-architecture are outside")
prop("O01", "C++ operation counts are the same for all operands and change no result",
 "In a C++ build with operation counting, every operation returns exactly what it returns without counting, and each operation documented as constant-time reports the same positive number of arithmetic operations for all operand values. The cost report program ends successfully and prints, on every run, exactly the numbers that those operations report.",
 ["inputs", "configurations"], "all operand values of each constant-time operation that is counted, both arithmetic back ends", "No test builds the counting variant; one report run has a single operand per operation.",
 ["cpp/CountOps.hpp", "cpp/EcdsaOpCount.cpp", "cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Ecdsa.cpp"], [("countOps() calls in every operation", "cpp/*.cpp"), ("report program", "cpp/EcdsaOpCount.cpp")],
 "counter monitor on the counting build (ASan+UBSan) + online oracle (GMP) + report cross-check", "counts of 43 operations compared over many operands and with the report program's output; seven suites' results compared with GMP in the counting build")

prop("O02", "C++ results do not depend on the order in which object files are linked",
 "In whatever order the linker arranges the C++ library's object files, whether given to it directly or as an archive, every public constant (Uint256, FieldInt and CurvePoint constants, base point, curve order) has its documented value once main starts, a program's own Uint256 and FieldInt constants built from strings hold their values even if they are initialised before the library's, no assertion fails, and every operation gives the results its documentation promises.",
 ["inputs", "configurations"], "all orders of static initialisation: every arrangement of the object files, objects or archive, with constants of the program initialised before and after the library's", "The Makefile links one order; the code relies on zero-initialised memory and a guard in a FieldInt constructor where the order is unspecified.",
 ["cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Uint256.cpp", "cpp/Ecdsa.cpp", "cpp/ExtendedPrivateKey.cpp"], [("FieldInt(const char*) guard on MODULUS", "cpp/FieldInt.cpp"), ("static initialisers", "cpp/CurvePoint.cpp")],
 "online oracle (GMP, OpenSSL) on rearranged links of the library + monitor of constants, assertions on", "49 link arrangements (each object first, each last, reversed, random; a quarter as archives) of three builds, 17 suites on each; the GNU linker's initialisation order only")

prop("E01", "C++ results depend only on the arguments, not on history or process state",
 "In the C++ library, the result and the outputs of every operation are determined by the values of its arguments alone: they are the same whatever calls were made before, with whatever arguments, wherever the arguments lie in memory and whatever those buffers, the stack and errno held before, and whatever floating-point rounding and denormal mode, C locale or C++ global locale the process has set.",
 ["inputs", "histories", "configurations"], "all sequences of calls, all argument values, all settings of rounding mode and locale", "Tests run one fixed sequence of calls in the default process state; a cache, static scratch or locale- or rounding-dependent conversion gives right results there.",
 ["cpp/Ecdsa.cpp", "cpp/CurvePoint.cpp", "cpp/Uint256.cpp", "cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/Keccak256.cpp", "cpp/Base58Check.cpp", "cpp/ExtendedPrivateKey.cpp", "cpp/Utils.cpp"], [("no mutable state outside the objects", "cpp/*.cpp")],
 "history monitor: long-lived process against the same call in a pristine process", "histories of 40 calls on related arguments in reused buffers under varying rounding mode, locale, errno; each result compared with a process forked before the first library call; four builds")

prop("X02", "C++ library gives the same results when compiled for a 32-bit machine",
 "Compiled for a 32-bit machine (32-bit pointers, long and std::size_t), with char signed or unsigned, the portable C++ library (no assembly) gives for every operation and every argument the result it gives when compiled for a 64-bit machine, including digests of messages of 512 MiB and more (2^32 bits), with no failed assertion and no undefined behaviour.",
 ["inputs", "configurations"], "all arguments, all message lengths, 32-bit builds by two compilers", "Tests are built for the 64-bit host only; a width borrowed from long or std::size_t, or the sign of char, gives right results there.",
 ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Ecdsa.cpp", "cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/Keccak256.cpp", "cpp/Base58Check.cpp", "cpp/ExtendedPrivateKey.cpp", "cpp/Utils.cpp"], [("fixed-width types in every operation", "cpp/*.cpp"), ("length member and bit length", "cpp/Sha256.hpp, cpp/Sha512.hpp")],
 "differential monitor: a 32-bit process (trapping UBSan) against the 64-bit library, call by call", "30 operations on closely related arguments, and hashes of messages around 2^29 bytes, answered by freestanding 32-bit builds (gcc, clang; char signed and unsigned; assertions on and off) and compared with the 64-bit library")

prop("X03", "C++ library gives the same results on a big-endian machine with strict alignment",
 "Compiled for a machine that stores the most significant byte of a word first and that cannot access words at addresses that are not multiples of their size, the portable C++ library (no assembly) gives for every operation and every argument the result it gives on the little-endian machine of the tests, with no failed assertion, no misaligned access and no undefined behaviour.",
 ["inputs", "configurations"], "all arguments of all operations, big-endian builds at several optimisation levels", "Tests run on a little-endian host that tolerates misaligned access; a word copied to or from bytes as it lies in memory gives right results there.",
 ["cpp/Uint256.cpp", "cpp/FieldInt.cpp", "cpp/CurvePoint.cpp", "cpp/Ecdsa.cpp", "cpp/Sha256.cpp", "cpp/Sha512.cpp", "cpp/Ripemd160.cpp", "cpp/Keccak256.cpp", "cpp/Base58Check.cpp", "cpp/ExtendedPrivateKey.cpp", "cpp/Utils.cpp"], [("conversions between words and bytes by shifts", "cpp/*.cpp")],
 "differential monitor: the library running on an own big-endian machine (trapping UBSan, alignment faults) against the host's library, call by call", "30 operations on closely related arguments, answered by MIPS32 builds executed by harness/be32/machine.cpp, and compared with the library on this machine")

prop("E02", "Java results depend only on the arguments, not on history or JVM state",
 "In the Java library, the result and the outputs of every public operation are determined by the values of its arguments alone: they are the same whatever calls were made before, with whatever arguments, whether arrays and strings are new or used before with other contents, whatever the caller did to arrays it was given, and whatever default locale, default charset, time zone, interrupt status or context class loader is set.",
 ["inputs", "histories", "configurations"], "all sequences of calls, all argument values, all default locales and charsets", "Tests run one fixed sequence of calls under the default locale and charset of the build machine; a cache or a locale-dependent conversion gives right results there.",
 [J + "Ecdsa.java", J + "CurvePointMath.java", J + "Int256Math.java", J + "Sha256.java", J + "Sha512.java", J + "Ripemd160.java", J + "Keccak256.java", J + "Sha256Hash.java", J + "Base58Check.java", J + "Bech32.java"], [("no mutable static state", J + "*.java"), ("text conversions", J + "Bech32.java, Sha256Hash.java, Int256Math.java")],
 "history monitor: long-lived copy of the classes against the same call in a freshly loaded copy", "histories of 40 calls on related arguments in reused arrays under 12 default locales; each result compared with a copy of the library that made no other call; results compared between JVMs with default charsets IBM1047 and UTF-16")

prop("J01", "Java 256-bit unsigned arithmetic is exact, with correct carries and conditionals",
 "In the Java library, addition, subtraction, shifts, conditional replacement and swap, comparison, copying, hexadecimal and big-endian conversion of 256-bit unsigned integers in word arrays give exactly the mathematical result modulo 2^256 and the exact carry, borrow or shifted-out bit for all values, enable flags and overlapping offsets. Only the documented destination words change, and malformed hex text or wrong array lengths are rejected with an exception and no effect.",
 ["inputs", "configurations"], "all values, offsets (coinciding or distinct), enable flags, strings", VEC + "carry chains and offset coincidences are barely sampled.",
 [J + "Int256Math.java"], [("word loops with carries and masks", J + "Int256Math.java uintAdd/uintSubtract/...")],
 "online oracle (BigInteger) with whole-array diff monitor", "every word of the backing array compared before/after; assertions on and off, C1 and C2 JIT")
prop("J02", "Java modular reciprocal is the true inverse and rejects invalid operands",
 "In the Java library, the reciprocal of x modulo any odd m above 1 (x below m, coprime or zero) is the unique inverse (0 for 0), using only the documented 48 scratch words besides the destination. An even modulus, a modulus of at most 1, a value not below the modulus, and a non-zero value that is not coprime are rejected with an illegal-argument exception.",
 ["inputs", "configurations"], "all pairs (x, m) of 256-bit values", VEC + "rare operand shapes and non-coprime rejection are not sampled.",
 [J + "Int256Math.java"], [("fixed-length extended binary GCD and argument checks", J + "Int256Math.java reciprocal")],
 "online oracle (BigInteger) over structured and random (x, m)", "moduli of all sizes incl. 2^256-1, non-coprime pairs, precondition violations")
prop("J03", "Java field arithmetic is exact modulo the curve prime and stays reduced",
 "In the Java library, field addition, subtraction, doubling, squaring and multiplication equal the mathematical operation modulo the secp256k1 prime with a fully reduced result, for all operands and overlapping offsets, changing only the destination and the documented scratch words.",
 ["inputs", "configurations"], "all field elements and offset patterns", VEC + "Barrett corrections and the final conditional subtraction are reached by a vanishing share of random products.",
 [J + "Int256Math.java"], [("Barrett reduction", J + "Int256Math.java fieldMultiply"), ("conditional subtraction", J + "Int256Math.java fieldAdd/fieldSubtract/fieldMultiply2")],
 "online oracle (BigInteger) incl. solved boundary products, whole-array diff", "factor pairs solved so that the product lands next to reduction boundaries")
prop("J04", "Java curve points follow the group law, incl. infinity, inverses and any scaling",
 "In the Java library, point addition, doubling and scalar multiplication (any 256-bit scalar) represent exactly the secp256k1 group operation for every projective representation, including infinity, equal and opposite points; normalisation is idempotent and gives the unique affine form, and curve membership, zero test, copy and conditional replacement agree with the mathematical point. Only the destination point and the documented scratch words change, and the base point handed out is a fresh copy.",
 ["inputs", "configurations"], "all points, scalings, scalars, array offsets", VEC + "exceptional cases and scratch-size limits are rarely sampled.",
 [J + "CurvePointMath.java"], [("complete addition by masking", J + "CurvePointMath.java add/twice"), ("window ladder", J + "CurvePointMath.java multiply")],
 "online group-law oracle (BigInteger) with exact-size scratch and array diff", "points with structured relations and scalings, arrays sized exactly to the documented scratch words")
prop("J05", "Java ECDSA signing returns the exact low-S signature or refuses without effect",
 "In the Java library, for a private key in range, any message hash and any 256-bit nonce, signing succeeds exactly when the nonce is in [1, order-1] and the mathematical r and s are non-zero; then r and s are the mathematical values with the smaller of s and order minus s. On refusal the outputs keep their old values, inputs are never modified, and signing with the derived nonce equals signing with HMAC-SHA-256 of the big-endian key and the hash bytes.",
 ["inputs", "configurations"], "all keys, hashes and nonces", VEC + "hashes above the order, zero s and the s = order/2 boundary never arise by sampling.",
 [J + "Ecdsa.java"], [("sign, signWithHmacNonce", J + "Ecdsa.java")],
 "online oracle (BigInteger ECDSA) with solved adversarial inputs", "key or hash solved so that s is 0, 1, order/2, order-1; sentinels in outputs")
prop("J06", "Java ECDSA verification accepts exactly the valid signatures",
 "In the Java library, verification returns true exactly when the public key (with reduced coordinates) is a normalised finite point on the curve, r and s are in [1, order-1] and the verification equation holds; it returns false otherwise and never modifies its arguments. Both s and order minus s are accepted, hashes at or above the order are reduced, and arrays of wrong length are rejected with an exception.",
 ["inputs", "configurations"], "all public key triples with reduced coordinates, hashes, r and s", VEC + "accepting one malformed key or out-of-range scalar is invisible to valid vectors.",
 [J + "Ecdsa.java"], [("verify", J + "Ecdsa.java verify")],
 "online oracle (BigInteger) over valid, forged and mutated signatures", "every component mutated; keys solved so that the final point is infinity or x is at or above the order")
for pid, alg, extra, f, tgt in (("J07", "SHA-256, double SHA-256 and HMAC-SHA-256", ", double digest and HMAC (any key length)", "Sha256", "FIPS 180-4 / RFC 2104"), ("J08", "SHA-512 and HMAC-SHA-512", " and HMAC (any key length)", "Sha512", "FIPS 180-4 / RFC 2104"),
                                ("J09", "RIPEMD-160", "", "Ripemd160", "the published algorithm"), ("J10", "Keccak-256", "", "Keccak256", "the original Keccak (pre-SHA-3 padding, rate 1088)")):
    prop(pid, f"Java {alg} equal the standard for any input" if "and" in alg else f"Java {alg} equals the standard for any input",
     f"In the Java library, the {alg.split(',')[0].split(' and')[0]} digest{extra} of every byte array equals {tgt}, whatever its length and content and whatever calls came before. Arguments are never modified, results are independent of later changes to arguments, and null arguments are rejected with a null-pointer exception.",
     ["inputs", "histories"], "all messages and keys, including lengths from 2^28 bytes on", VEC + H, [J + f + ".java"], [("padding, length field, compression", J + f + ".java")],
     "online oracle (JDK digests / reference) over lengths and call histories", "every length around block boundaries, long keys, messages over 2^28 bytes, arguments checked for modification")
prop("J11", "Java hash value objects are immutable, ordered and consistent",
 "In the Java library, a hash object built from 32 bytes or from its byte-reversed hexadecimal text (either case) holds those bytes forever: changing arrays passed in or handed out never affects it. Equality, hash code, ordering (of the byte-reversed value, a total order consistent with equality) and text form agree with the bytes, and wrong lengths, non-hex text and nulls are rejected with the documented exceptions.",
 ["inputs", "histories"], "all byte arrays, strings, pairs and triples of hash values, and later mutations of shared arrays", VEC + "aliasing after construction and order consistency over all pairs are not tested.",
 [J + "Sha256Hash.java"], [("defensive copies, comparison", J + "Sha256Hash.java")],
 "online contract monitor (immutability, equals/hashCode/compareTo laws)", "single-byte and sign-bit differences at each position; mutation after construction")
prop("J12", "Java Base58Check encoding is exact and decoding accepts exactly valid strings",
 "In the Java library, encoding any byte array yields the exact Base58Check text (checksum appended, leading zero bytes as ones), and decoding a string returns the original bytes exactly when all characters are Base58 and the checksum matches. Every other string is rejected with an illegal-argument exception, and arguments are never modified.",
 ["inputs"], "all byte arrays of any length and all strings", VEC + "leading-zero handling, sign bits and short strings are not sampled exhaustively.",
 [J + "Base58Check.java"], [("bytesToBase58, base58ToBytes", J + "Base58Check.java")],
 "online oracle (independent Base58) over valid, mutated and re-checksummed strings", "leading zeros, lengths 0..120 and up to 16 KiB, Unicode and control characters")
prop("J13", "Java Bech32 group coding is exact; decoding accepts exactly valid strings",
 "In the Java library, encoding a human-readable part and 5-bit groups yields the exact BIP 173 Bech32 text, rejecting invalid parts, groups and over-long results with an illegal-argument exception. Decoding accepts exactly the strings of at most 90 characters in one case with a valid separator, part, alphabet and checksum, and returns the lower-case part and the groups; every other string is rejected with that exception.",
 ["inputs"], "all strings and all (part, groups) pairs", VEC + "length limits, mixed case, separator placement and checksum sensitivity need crafted strings.",
 [J + "Bech32.java"], [("bitGroupsToBech32, bech32ToBitGroups", J + "Bech32.java")],
 "online oracle (independent BIP 173 code) over valid and mutated strings", "re-checksummed malformed strings, every length limit, non-ASCII characters")
prop("J14", "Java segwit addresses encode exactly; decoding accepts only canonical programs",
 "In the Java library, encoding a witness version 0..16 and a program of 2..40 bytes yields the exact segwit Bech32 text, and decoding returns the same part, version and program. Decoding accepts a valid Bech32 string exactly when its version is 0..16, the program length is 2..40 bytes and the padding is under 5 zero bits; all other input is rejected with an illegal-argument exception.",
 ["inputs"], "all versions, programs, parts and all strings", VEC + "non-zero padding, extra padding groups and length limits need crafted strings with valid checksums.",
 [J + "Bech32.java"], [("segwitToBech32, bech32ToSegwit", J + "Bech32.java")],
 "online oracle (independent BIP 173 code) incl. re-encoding canonicity", "group strings with valid checksums and every padding, version and length variant")
prop("R02", "Java operations are thread safe when threads share only read-only data",
 "Any number of threads may call the public Java operations at once, sharing read-only arguments but no written arrays, and each call returns what it returns when run alone, also when the classes are first initialised in parallel.",
 ["schedules", "inputs"], "all interleavings of concurrent calls on all operations", "The tests are single-threaded, so hidden shared mutable state cannot show.",
 [J + "*.java"], [("no mutable static state", J + "*.java")],
 "stress with injected yields in instrumented bytecode + serial oracle", "bytecode instrumented to yield inside operations; fresh class loader per round; results compared with serial execution")
prop("T02", "Java secret-handling operations have secret-independent branches and indices",
 "For every operation documented as constant-time in the Java library (big-integer, field and curve arithmetic, successful signing, hash object construction from bytes, its byte form and hash code), the sequence of executed branches, array indices and library calls is the same for all secret operand values.",
 ["inputs"], "all pairs of secret values for each documented operation", "Functional tests observe values only, never the execution trace.",
 [J + "Int256Math.java", J + "CurvePointMath.java", J + "Ecdsa.java", J + "Sha256Hash.java"], [("masking instead of branching, full table scans", J + "Int256Math.java, CurvePointMath.java multiply, Ecdsa.java")],
 "trace-equality monitor over instrumented bytecode", "bytecode-level traces (branches, array indices, copies) over many secrets; JIT and micro-architecture are outside")
prop("X01", "C++ and Java implementations agree on every common operation",
 "For the same inputs, the C++ and Java libraries produce identical hashes, HMACs, point multiples, compressed coordinates, signatures, verification verdicts and Base58Check texts, so text and signatures produced by one are accepted by the other.",
 ["inputs", "configurations"], "all inputs to operations that both libraries offer", "Each language is tested against its own vector list; nothing compares the two implementations.",
 ["cpp/*.cpp", J + "*.java"], [("two independent implementations", "cpp/, java/")],
 "offline checker over recorded C++ event log replayed in Java", "C++ records calls and results; the Java side re-executes each and compares")

def main():
    done = [p for p in P if p[0] in plans.PLANS]
    missing = [p[0] for p in P if p[0] not in plans.PLANS] + [k for k in plans.PLANS if k not in {p[0] for p in P}]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for pid, title, st, over, qt, why, files, mech, tech, note in done:
            f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": ["results, outputs and side effects of the public operations"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
        "notes": "No hooks in /repo: the monitors use public interfaces, sanitizer builds, link-time interposition and bytecode instrumentation of scratch copies. /repo carries only fix: commits (see KNOWN_FINDINGS.txt)."}
    for pid, title, st, over, qt, why, files, mech, tech, note in done:
        man["checks"].append({"property": pid, "quick_cmd": f"python3 run.py check {pid} --tier quick", "thorough_cmd": f"python3 run.py check {pid} --tier thorough", "evidence_file": f"evidence/{pid}.json",
            "technique": "runtime monitoring: " + tech, "level": "exploration", "level_note": note + ". Assumes the oracle and the tool chain; covers the generated executions only."})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")
    print(len(done), "properties; not yet planned:", missing)
main()
