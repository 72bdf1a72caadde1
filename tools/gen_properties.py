#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that it can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    m = {"operation sequences": "histories", "curves": "inputs", "scalars": "inputs",
         "random streams": "inputs", "chunkings": "histories", "tamperings": "inputs",
         "parties": "histories", "memory layouts": "inputs", "fault points": "fault_sequences",
         "interleavings": "schedules"}
    over = list(dict.fromkeys(m.get(o, o) for o in over))
    a = {"files": files, "mechanism": [{"name": x, "where": files[0]} for x in mech]}
    if state: a["state"] = [{"name": state, "meaning": "carried between calls", "where": files[0]}]
    a["observe_at"] = [observe or "outputs, return codes and object state at the public API boundary after every call"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Big-integer ring arithmetic is exact",
  "Addition, subtraction, multiplication (automatic choice and each of the schoolbook, Comba, Karatsuba and Toom-3 multipliers), squaring (all variants), shifts, absolute value, comparison and bit counting on multiple-precision integers give exactly the mathematical result (the magnitude operations and individual multipliers: that of the absolute values). This holds for operands of any size and sign, whatever value the destination held before and when the destination is also an operand; operands that are not the destination keep their value. Results are always canonical: no leading zero digit and zero is never negative (right shift truncates the magnitude).",
  ["inputs", "operation sequences", "configurations"],
  "for all integers a, b (any sign, 0 to thousands of digits), shift counts, aliasings of destination and operands and prior contents of the destination",
  "A unit test samples a few dozen operands; carry chains, all-ones digits, unbalanced sizes around the Karatsuba/Toom-3 thresholds, aliasing and stale destination state form an unbounded space.",
  ["src/mpi/mpi_add.c", "src/mpi/mpi_add_abs.c", "src/mpi/mpi_sub.c", "src/mpi/mpi_sub_abs.c", "src/mpi/mpi_mul.c", "src/mpi/mpi_mul_abs.c", "src/mpi/mpi_mul_baseline.c", "src/mpi/mpi_mul_comba.c", "src/mpi/mpi_mul_karatsuba.c", "src/mpi/mpi_mul_toom3.c", "src/mpi/mpi_sqr.c", "src/mpi/mpi_sqr_baseline.c", "src/mpi/mpi_sqr_comba.c", "src/mpi/mpi_sqr_karatsuba.c", "src/mpi/mpi_shl.c", "src/mpi/mpi_shr.c", "src/mpi/mpi_abs.c", "src/mpi/mpi_cmp.c", "src/mpi/mpi_cmp_abs.c", "src/mpi/mpi_core.c"],
  ["sign-magnitude digit arrays with carry/borrow propagation, normalised by dropping leading zero digits", "multiplier selected by operand size"],
  observe="value, sign, used/alloc of every operand and result after each call")

p("C02", "Big-integer division gives the floor quotient and the exact remainder",
  "For every dividend and every non-zero divisor of any size and sign, division returns the quotient rounded towards minus infinity and as remainder the magnitude of what it leaves, so that 0 <= remainder < |divisor| and, for a positive divisor, dividend = quotient*divisor + remainder; the modulo operation gives that remainder and division by zero is reported as an error. Either output may be omitted and either may be the same object as an operand, without changing the other's value; the magnitude-only division gives the quotient and remainder of the absolute values.",
  ["inputs", "operation sequences"],
  "for all pairs of integers, all signs, exact multiples, quotient-digit correction cases, omitted outputs and all aliasings",
  "Quotient-digit estimation goes wrong only on rare digit patterns (probability about 2^-63 on random operands), and the sign, alias and omitted-output combinations are not in the tests.",
  ["src/mpi/mpi_div.c", "src/mpi/mpi_div_abs.c"],
  ["schoolbook long division with two-digit quotient estimate and add-back", "sign fix-up of quotient and remainder"])

p("C03", "Big-integer gcd, lcm, inverse, powers and roots are exact",
  "The greatest common divisor, least common multiple, modular inverse, (modular) power and integer square root equal their mathematical values for all operands: gcd and lcm are non-negative for any signs (gcd(x,0)=|x|), the inverse for a positive modulus m is the unique value in [0,m) and exists exactly when the operands are coprime, a modular power lies in [0,m) for any base, and the root is the floor. An inverse that does not exist, a negative exponent, a modular power with a modulus that is not positive and the root of a negative number are reported as errors; results do not depend on aliasing or on the destination's previous value.",
  ["inputs", "operation sequences"],
  "for all operands (zero, one, negative, even/odd, equal, multiples, huge), all moduli >= 1, all aliasings",
  "The algorithms are data-dependent loops whose corner cases (zero operands, even moduli, operand larger than modulus, perfect squares +-1) are unbounded in number.",
  ["src/mpi/mpi_gcd.c", "src/mpi/mpi_lcm.c", "src/mpi/mpi_inv.c", "src/mpi/mpi_exp.c", "src/mpi/mpi_mod_exp.c", "src/mpi/mpi_sqrt.c"],
  ["binary gcd", "extended Euclid", "left-to-right square and multiply", "Newton iteration for the square root"])

p("C04", "Big-integer conversions are exact, inverse to each other and reject bad input",
  "Loading an integer from big-endian bytes, from text in radix 2 to 36 (text output: 2 to 16) or from a machine integer and storing it back yields the same value, for every value and sign, with exactly the requested padding and no byte written outside the destination. A radix above 36, text containing a character that is not a digit of the radix, and a value that does not fit the destination (machine integer or byte buffer), are reported as errors and never silently altered.",
  ["inputs"],
  "for all integers, byte strings (with leading zeros), radices, string spellings (case, sign, leading zeros) and destination sizes",
  "Tests convert a handful of constants; digit/byte alignment, leading zeros, extreme machine integers and malformed text are an unbounded input space.",
  ["src/mpi/mpi_bin.c", "src/mpi/mpi_str.c", "src/mpi/mpi_core.c", "src/mpi/mpi_print.c"],
  ["byte-wise packing into digits", "radix conversion by repeated multiply/divide, nibble packing for hex"])

p("C05", "Random integers, primality answers and generated primes are right",
  "A random integer of n bits has exactly n significant bits and is canonical, and a random integer below a bound is always smaller than the bound. Whatever the random stream, the primality test never rejects a prime and rejects every composite except with the Miller-Rabin error probability. A generated prime (length in whole bytes) has exactly the requested length with the two top bits set and is prime, and a failing search is reported.",
  ["inputs", "random streams"],
  "for all bit lengths, bounds, candidate integers (small, Carmichael, strong pseudoprimes, products of two primes) and generator seeds",
  "The outcome depends on the random stream (for instance leading zero bytes, a witness equal to the candidate), which a fixed-seed unit test samples once.",
  ["src/mpi/mpi_rand.c", "src/mpi/mpi_prime.c"],
  ["masking and forcing of top bits", "trial division by small primes then Miller-Rabin rounds with random bases"])

p("C06", "Elliptic-curve point arithmetic implements the group law",
  "On every built-in curve and on any short-Weierstrass curve over a prime field (including small ones) point addition, doubling and scalar multiplication return the affine point prescribed by the group law, including the point at infinity, inverse points, points of order two, equal points, aliased outputs and every scalar >= 0 (0, 1, the order, multiples of the order, larger). Each built-in curve has a prime field, the published parameters, and a base point on the curve with the stated order.",
  ["inputs", "curves", "scalars"],
  "for all curves, all points of the curve (all of them on small curves), all scalars and aliasings",
  "Exceptional cases of the affine formulas and window boundaries of the scalar recoding depend on the scalar's bit pattern; tests use one or two scalars.",
  ["src/ecp/ecp_add.c", "src/ecp/ecp_dbl.c", "src/ecp/ecp_mul.c", "src/ecp/ecp_core.c", "src/ecp/ecp_curves.c", "src/ecp/ecp_list.c"],
  ["affine chord-and-tangent formulas with modular inverse", "sliding-window scalar multiplication"])

p("C07", "AES, DES and Triple-DES equal their standards in both directions",
  "For every key of every supported length (AES 16, 24, 32 bytes; DES 8; Triple-DES 24) and every sequence of blocks, encryption equals the published standard and decryption is its exact inverse. Multi-block calls equal block-by-block calls, in-place operation gives the same result, and encryptions, decryptions and re-keying may be mixed in any order on one context without influencing each other.",
  ["inputs", "operation sequences"],
  "for all keys, plaintexts, lengths in blocks, in/out aliasing and interleavings of encrypt/decrypt/re-key on one context",
  "Known-answer tests exercise one direction at a time on a fresh context with few keys; table or key-schedule errors can affect single byte values or call orders only.",
  ["src/crypt/aes.c", "src/crypt/des.c", "include/cry/aes.h", "include/cry/des.h"],
  ["T-table AES with in-place key schedule inversion when the direction changes", "bit-permutation DES with EDE composition"],
  state="key schedule and its current direction")

p("C08", "CBC, CTR, CFB and CFB-8 equal the standard modes, in place and in pieces",
  "For AES, DES and Triple-DES with an initialisation vector of the cipher's block length, encryption and decryption in CBC, CTR, full-block CFB and CFB-8 give exactly the standard result for any message (any length for CTR, CFB and CFB-8, whole blocks for CBC, also empty). Results are the same in place or to a separate buffer and when the message is processed in consecutive calls split at block boundaries (at any byte for CFB-8); decryption inverts encryption and counters carry over all bytes. A CTR call that ends inside a block uses up the counter of that block: the next call goes on with the following one, so that no key stream is used twice.",
  ["inputs", "chunkings", "operation sequences"],
  "for all keys, IVs (including all-ones counters), lengths, chunkings and in-place/out-of-place buffers",
  "Tests use one-shot calls on a few vectors; chaining state across calls, tails, batch boundaries and counter wrap are history-dependent.",
  ["src/crypt/cbc.c", "src/crypt/ctr.c", "src/crypt/cfb.c", "include/cry/cfb.h", "src/misc.h"],
  ["chaining value kept in the context between calls", "counter blocks encrypted in batches"],
  state="IV/chaining block or counter in the mode context")

p("C09", "GCM equals the standard for every key, IV, data and tag length",
  "For AES-GCM with any key, IV length >= 1, additional data and message (any lengths, also empty), ciphertext and tag equal the NIST definition truncated to the requested tag length, and decrypting yields the plaintext and the same tag. Feeding additional data and message in pieces whose lengths are multiples of 16 (except the last) or in place gives the same result, and one context can be reused with a new IV or key.",
  ["inputs", "chunkings", "operation sequences"],
  "for all keys, IV lengths, AAD/message lengths, tag lengths 1..16, chunkings, in-place use and reuse",
  "The authentication is a long data-dependent polynomial evaluation; lengths, alignment and reuse patterns are unbounded and the GCM test is not even built by default.",
  ["src/crypt/gcm.c"],
  ["GHASH over GF(2^128)", "32-bit counter increment, length block"],
  state="hash accumulator, counter and byte totals in the GCM context")

p("C10", "RC4 and Trivium keystreams are the published ones, in any chunking",
  "For every key (RC4: 1 to 256 bytes) and, for Trivium, every key and IV (each up to 10 bytes), the output is the input XORed with the published cipher's keystream, so applying the operation twice restores the data. Splitting a message over consecutive calls (Trivium: at multiples of four bytes) and working in place change nothing, and re-keying or setting a new IV restarts the stream.",
  ["inputs", "chunkings", "operation sequences"],
  "for all keys, IVs, message lengths, chunkings and reuse histories",
  "Only a few key/IV vectors are tested, mostly in one call.",
  ["src/crypt/arc4.c", "src/crypt/trivium.c"],
  ["RC4 permutation state", "Trivium 288-bit state processed 32 bits at a time"],
  state="permutation/indices; 288-bit shift registers")

p("C11", "MD5, SHA-1, SHA-256, SHA-384 and SHA-512 are right for every message",
  "For every message of any length, the digest equals the published hash function. The way the message is split over update calls (including empty ones), the buffer alignment, and previous use of the same context (re-initialised after a digest) make no difference, and the one-shot functions agree.",
  ["inputs", "chunkings", "operation sequences"],
  "for all messages and all partitions of a message into updates",
  "Padding is length dependent and chunk buffering is history dependent: a test set of fixed messages in one update cannot cover all residues and partitions.",
  ["src/hash/md5.c", "src/hash/sha1.c", "src/hash/sha256.c", "src/hash/sha512.c"],
  ["partial-block buffer, bit counter and Merkle-Damgard padding"],
  state="chaining state, buffered bytes, message length counter")

p("C12", "HMAC and CMAC equal their standards for every key, message and chunking",
  "HMAC over MD5, SHA-1 and SHA-256 with a key of any length equals RFC 2104 and AES-CMAC equals RFC 4493 for every message of any length, also the empty one. The split of the message into updates makes no difference, and initialising again starts an independent computation.",
  ["inputs", "chunkings", "operation sequences"],
  "for all keys (empty, block-size, longer than a block), messages and chunkings",
  "Key-length and message-length case splits and chunking are not enumerated by the vector files.",
  ["src/crypt/hmac.c", "src/crypt/cmac.c"],
  ["inner/outer padded hash", "CBC-MAC with subkeys and 10* padding of the last block"],
  state="hash context inside HMAC; mac and last block inside CMAC")

p("C13", "CRC-16 and CRC-32 results are right for all data and chunkings",
  "For every byte string, the CRC-16 CCITT, IBM and DNP and CRC-32 Ethernet checksums equal the bit-serial definition of their polynomial, initial value, reflection and final operation. Splitting the data over updates makes no difference, and the integer result and the byte digest agree.",
  ["inputs", "chunkings"],
  "for all byte strings, all splits and user-supplied start values and flags",
  "A wrong table entry or a chunk-dependent slip affects only particular byte values or splits.",
  ["src/crc/crc16.c", "src/crc/crc32.c", "src/crc/crc16_ccitt.c", "src/crc/crc16_ibm.c", "src/crc/crc16_dnp.c", "src/crc/crc32_eth.c"],
  ["256-entry table driven update"], state="running CRC")

p("C14", "RSA round-trips, padding is standard, forgeries and malformed input are rejected",
  "For every key with a modulus of at least 12 bytes and every message, of any number of blocks (an empty message is one block), PKCS#1 v1.5 decryption returns exactly what was encrypted, every ciphertext or signature block is standard-conforming, and a signature verifies for its message and key only: any change is rejected. Ciphertexts and signatures that are empty, of a wrong length, not lower than the modulus or with malformed padding are rejected without output; unpadded operation is exact modular exponentiation of zero-filled blocks. A generated key has the requested length, two distinct primes and matching exponents.",
  ["inputs", "random streams", "tamperings"],
  "for all keys, message lengths (empty, block boundaries, several blocks), padding modes, tampered inputs and random streams",
  "Padding bytes are random, block counts unbounded and tamperings innumerable; tests use a few vectors of one block.",
  ["src/crypt/rsa.c"],
  ["PKCS#1 v1.5 block formatting and parsing", "block-wise modular exponentiation with growing output buffer"])

p("C15", "DSA signatures verify, follow the standard and cannot be trivially forged",
  "For every valid parameter set, key and message, a signature produced by signing has both parts in [1, q-1], satisfies the DSA equation and verifies. Verification accepts exactly the pairs with both parts in [1, q-1] that satisfy the equation for that message (its leftmost bits up to the length of q) and public key, so out-of-range parts and tampered data are rejected; a generated key has q dividing p-1, a generator of order q and a public key matching a private key in [1, q-1].",
  ["inputs", "random streams", "tamperings"],
  "for all domain parameters (including tiny ones where exceptional values are common), messages, signatures and random streams",
  "Exceptional values (zero or out-of-range parts, retry cases) have negligible probability with fixed vectors.",
  ["src/crypt/dsa.c"], ["per-signature random secret, modular inverse and exponentiations"])

p("C16", "ECDSA signatures verify, follow the standard and cannot be trivially forged",
  "On every supported or user-supplied curve, for every key and message, a signature produced by signing has both parts in [1, n-1], satisfies the ECDSA equation and verifies. Verification accepts exactly the pairs with both parts in [1, n-1] that satisfy the equation for that message (its leftmost bits up to the length of n) and public key, so out-of-range parts, tampered data and signatures of other keys are rejected; key generation yields a private key in [1, n-1] with the matching public point.",
  ["inputs", "random streams", "tamperings"],
  "for all curves (including small ones where exceptional values are common), messages, signatures and random streams",
  "Exceptional values (x >= n, zero parts, out-of-range parts) never occur in the single fixed vector.",
  ["src/crypt/ecdsa.c", "src/ecp/ecp_mul.c"], ["per-signature random scalar, scalar multiplications, modular inverse"])

p("C17", "ElGamal signatures verify, follow the scheme and cannot be trivially forged",
  "For every prime modulus, generator and key, a produced signature (object or byte form) has 0 < r < p and 0 < s < p-1, satisfies the ElGamal equation and verifies, for every message not longer than the modulus. Verification accepts exactly the pairs in those ranges that satisfy the equation; longer messages are refused and both forms agree.",
  ["inputs", "random streams", "tamperings"],
  "for all domain parameters (including tiny ones), messages, signatures and random streams",
  "Exceptional values (zero or out-of-range parts) are never hit by the fixed test vectors.",
  ["src/crypt/elgamal.c"], ["random secret coprime to p-1, modular inverse and exponentiations, fixed-width byte encoding"])

p("C18", "Diffie-Hellman and ECDH parties always derive the same, correct secret",
  "For every group and every pair of private values, both parties' finalisation of the other's token yields the same secret, equal to the mathematical value, and tokens exported and imported as bytes survive unchanged with left zero padding. This holds for Diffie-Hellman modulo a prime and for elliptic-curve Diffie-Hellman on every curve.",
  ["inputs", "parties", "operation sequences"],
  "for all groups, generators, private values, token lengths and curves",
  "The existing DH/ECDH tests are not compiled; agreement must hold for all private values, including ones with leading-zero tokens.",
  ["src/crypt/dh.c", "src/crypt/ecdh.c"], ["modular exponentiation of the peer's token", "scalar multiplication of the peer's point"])

p("C19", "AES key wrap is RFC 3394 and unwrap rejects every corruption",
  "For every key-encryption key (16, 24 or 32 bytes) and every key data of two or more 64-bit blocks (also millions of blocks) wrapping equals RFC 3394 and unwrapping returns the data. Unwrapping anything altered, or with another key, reports an error and returns no key data (the output is zeroed).",
  ["inputs", "tamperings"],
  "for all keys, data lengths that are multiples of 8, and single- or multi-byte corruptions of any position",
  "Step counters exceed one, two or three bytes only for long data, and corruption positions are unbounded.",
  ["src/utils/aes_wrap.c"], ["six rounds of AES with step counter mixed into the check block"])

p("C20", "Base64 encoding and decoding are exact inverses and decoding rejects bad text",
  "For every byte string, also the empty one, encoding gives the RFC 4648 text and its length, and decoding that text restores the bytes and their length without touching memory outside the result. Decoding text whose length is not a multiple of four, that contains a character outside the alphabet or has padding anywhere but at the end reports an error.",
  ["inputs"],
  "for all byte strings and all candidate texts",
  "All 256 byte values at all three phases, and all illegal characters at all positions, exceed the vector file.",
  ["src/crypt/base64.c"], ["3-to-4 byte regrouping with table lookup"])

p("C21", "Hill and Affine ciphers decrypt exactly what they encrypted",
  "For every accepted key, decryption restores the encrypted bytes (Hill: whole blocks of the key dimension, the last one zero-filled; Affine: any length, also in place) and encryption equals the defining linear or affine map modulo 256. A key is accepted exactly when it is usable: an Affine key is non-empty (cut to the maximum length of 32) and has only odd multipliers, a Hill key without supplied inverse is a non-empty square matrix (cut to the largest square up to dimension 10) invertible modulo 256.",
  ["inputs"],
  "for all keys, dimensions and messages, also random rejected keys",
  "Invertibility depends on the whole matrix; tests sample two keys.",
  ["src/crypt/hill.c", "src/crypt/affine.c", "src/misc.c"], ["matrix inversion modulo 256", "per-position modular inverse"])

p("C22", "XOR primitives give byte-exact results for every buffer overlap",
  "The two- and three-operand XOR primitives leave in the destination the byte-wise XOR of the operands' original contents for every length and every relative position of destination and sources (disjoint, equal, partially overlapping in any way), and never touch a byte outside the destination.",
  ["inputs", "memory layouts"],
  "for all lengths and all offsets of destination and sources within one memory area",
  "Overlap positions form a three-dimensional space of which tests check single points.",
  ["src/crypt/memxor.c"], ["direction of traversal chosen from pointer order, rotation, temporary buffer"])

p("C23", "Random generators depend only on the seed, not on the sizes of requests",
  "After seeding, the default generator outputs exactly the AES-CTR keystream determined by the seed, whatever the sizes of the requests, and re-seeding restarts it. The LFSR generator outputs exactly the LFSR113 sequence determined by the seed alone (seeds of any length, also unsuitable ones, which are replaced), independent of earlier use, each request taking as many whole 32-bit words as it needs.",
  ["inputs", "operation sequences"],
  "for all seeds (any length), all request size sequences, and all re-seeding histories",
  "Residual buffering and counter carry depend on the request history; tests do not check the generators at all.",
  ["src/prng/prng_aes.c", "src/prng/prng_lfsr113.c"], ["AES counter mode with residual buffer", "four linear feedback shift registers"],
  state="process-wide generator state")

p("C24", "No call in a valid use of the library performs an invalid memory access or UB",
  "For every sequence of calls with valid arguments and of any length, value or alignment, the library reads and writes only inside the caller's buffers of the documented sizes and its own live allocations, never uses an uninitialised or freed value, never frees twice and never executes undefined behaviour. After the clear calls every allocation made has been released exactly once.",
  ["inputs", "operation sequences"],
  "for all API operations with valid arguments: random sizes, exact-size heap buffers, misaligned and aliased buffers, sequences of operations on the same objects",
  "A test passes even when it reads one byte past a buffer or an uninitialised digit; only instrumentation over diverse workloads can see it.",
  ["src", "include"], ["all buffers and digit arrays of the library"],
  observe="compiler sanitizers (address, undefined, memory, leak) on the whole library")

p("C25", "Allocation failure is always reported and never corrupts, leaks or hangs",
  "If any single memory allocation (or every allocation from some point on) fails during any operation, the operation still returns, performs no invalid access, leaks nothing, and leaves all its objects in a state that can be cleared and used again. It never reports success with a wrong result: either it reports an error or the result is correct, and a verification never accepts because of it.",
  ["fault points", "inputs"],
  "for every allocation made by every operation, failing that one or all from that one on",
  "Only instrumented allocation with enumeration of the failing call reaches these paths; the existing mock covers a few initialisers.",
  ["src/mpi", "src/ecp", "src/crypt/rsa.c", "src/crypt/dsa.c", "src/crypt/ecdsa.c", "src/crypt/elgamal.c", "src/crypt/memxor.c", "src/misc.c"],
  ["error propagation with goto clean-up chains and variadic init/clear lists"])

p("C26", "Clearing a context zeroes it and releases what it owns",
  "After the clear call of any cipher, mode, hash or public-key context no byte of the context object differs from zero (Diffie-Hellman over curves, points, groups and integers: every field) and nothing derived from the key, message or chaining state remains in it, whatever operations preceded. A cleared object owns no memory, all it owned has been released, and clearing it again is harmless.",
  ["operation sequences"],
  "for all contexts and all operation histories before the clear",
  "The remaining content depends on the history; no test inspects memory after a clear.",
  ["src/crypt", "src/hash", "src/mpi/mpi_core.c", "src/ecp/ecp_core.c"], ["non-elidable memset in clear functions"])

p("C27", "Distinct contexts are independent, also across threads",
  "Operations on one context or integer never influence the results of operations on another one, in any interleaving, because the library keeps no shared mutable state outside the random generators. Threads that each use their own objects and no random generator therefore run without data races and get the same results as alone.",
  ["schedules", "interleavings"],
  "for all interleavings of operations on distinct objects, in one thread or in several",
  "A hidden static buffer or cache is invisible to sequential tests of one object at a time.",
  ["src"], ["absence of shared state except in src/prng"],
  observe="thread sanitizer plus comparison with the sequential results")

p("C28", "Results do not depend on the build configuration",
  "Big-integer, elliptic-curve and public-key results are the same for every digit size (8, 16, 32 and 64 bits), allocation quantum, choice of multiplier, division, inverse and point-multiplication algorithm, and optimisation level. Every such configuration compiles and is as memory-safe as the default one.",
  ["configurations", "inputs"],
  "for all supported configuration settings and all inputs",
  "The test-suite runs one configuration; others are only exercised if built.",
  ["config/config.mk", "src/mpi", "src/ecp/ecp_mul.c", "include/cry/mpi.h", "src/mpi/mpi_pvt.h"],
  ["preprocessor-selected algorithm variants"])

p("C29", "Random secrets are fresh and spread over their whole range",
  "Every DSA, ECDSA and ElGamal signature uses a newly drawn secret and every PKCS#1 encryption newly drawn padding, so that signing or encrypting the same message repeatedly gives different results. The secrets, generated private keys and random integers below a bound take every admissible value with about the same frequency, and padding bytes every non-zero value. They are determined by the random generator alone: equal seeds give equal outputs and different seeds different ones.",
  ["random streams", "histories"],
  "for all seeds, keys, messages and sequences of signatures, encryptions and key generations",
  "A test looks at single outputs that verify; bias, reuse and unreachable values only show in the distribution over many draws.",
  ["src/mpi/mpi_rand.c", "src/crypt/dsa.c", "src/crypt/ecdsa.c", "src/crypt/elgamal.c", "src/crypt/rsa.c"],
  ["secrets drawn from the default random generator and reduced to the range"],
  observe="secrets recovered from the signatures with the known private key; padding recovered by decryption")

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
