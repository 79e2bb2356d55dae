#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

F255="src/eltfp25519_%s.c"; F448="src/eltfp448_%s.c"

prop("C01", "Full-radix arithmetic in GF(2^255-19) is exact for every input",
 "For every pair of 256-bit operands, reduced or not, addition, subtraction, negation, multiplication, squaring, multiplication by the Montgomery curve constant, double-width product and reduction of one or two elements through the public field interface produce a 256-bit value congruent modulo 2^255-19 to the exact result. Outputs may overlap inputs, and nothing outside the output is modified.",
 ["inputs"], "all operands in [0,2^256) (and all 512-bit values for the reduction), all in/out aliasings the interface allows",
 "Tests draw random operands, so carry patterns of probability around 2^-64 (all-ones limbs, second fold of a carry) are never reached.",
 ["src/eltfp25519_1w_fullradix.c","src/fp255.c","include/faz_fp_avx2.h"],
 [("schoolbook mulx/adx products and 38-fold reductions with a final carry fold","src/eltfp25519_1w_fullradix.c")],
 observe=["Fp25519._1w_full.arith.{add,sub,neg,mul,sqr}","Fp25519._1w_full.arithex.*"])

prop("C02", "Packed (AVX2) arithmetic in GF(2^255-19) is exact in every lane",
 "For the one-, two- and four-element packed representations, every arithmetic operation yields in each lane a value congruent modulo 2^255-19 to the exact result for that lane alone, for every operand whose digits are within the bounds that the reduction operations guarantee. No 64-bit accumulator overflows on the way, and multiplication and squaring again return digits within those bounds.",
 ["inputs"], "all digit vectors within the reduced-digit bounds (and one addition/subtraction on top of them where the callers do that), all lanes",
 "Overflow and lost carries in the vector accumulators appear only for extreme digits; random tests have digits far from the extremes and compare a few thousand cases.",
 [F255%"1w_redradix",F255%"2w_redradix",F255%"4w_redradix","src/fp255.c"],
 [("vector schoolbook/Karatsuba products, compress/compressfast carry chains, add/sub with 2p bias","src/eltfp25519_{1,2,4}w_redradix.c")],
 observe=["Fp25519._1w_red","Fp25519._2w_red","Fp25519._4w_red"])

prop("C03", "Full-radix arithmetic in GF(2^448-2^224-1) is exact for every input",
 "For every pair of 448-bit operands, reduced or not, addition, subtraction, negation, multiplication, squaring, multiplication by the Montgomery curve constant, double-width product and reduction of one or two elements through the public field interface produce a 448-bit value congruent modulo 2^448-2^224-1 to the exact result. Outputs may overlap inputs, and nothing outside the output is modified.",
 ["inputs"], "all operands in [0,2^448) (and all 896-bit values for the reduction), all in/out aliasings the interface allows",
 "Rare carries out of the second fold need operands next to 2^448; the tests sample random operands only and never call the double versions.",
 ["src/eltfp448_1w_fullradix.c","src/fp448.c"],
 [("mulx/adx products and Solinas folding of the high half","src/eltfp448_1w_fullradix.c")],
 observe=["Fp448._1w_full.arith.*","Fp448._1w_full.arithex.*"])

prop("C04", "Packed (AVX2) arithmetic in GF(2^448-2^224-1) is exact in every lane",
 "For the one-, two- and four-element packed representations, every arithmetic operation yields in each lane a value congruent modulo 2^448-2^224-1 to the exact result for that lane alone, for every operand whose digits are within the bounds that the reduction operations guarantee. No 64-bit accumulator overflows on the way, and multiplication and squaring again return digits within those bounds.",
 ["inputs"], "all digit vectors within the reduced-digit bounds (and one addition/subtraction on top of them where the callers do that), all lanes",
 "Overflow and lost carries in the vector accumulators appear only for extreme digits, which random tests do not produce; the packed 448-bit code has no unit tests of its own at all.",
 [F448%"1w_redradix",F448%"2w_redradix",F448%"4w_redradix","src/fp448.c"],
 [("Karatsuba products and compress/compressfast carry chains","src/eltfp448_{1,2,4}w_redradix.c")],
 observe=["Fp448._1w_red","Fp448._2w_red","Fp448._4w_red"])

prop("C05", "Field inversion and square roots are correct for every element",
 "Inversion through the public field interface returns the multiplicative inverse of every non-zero element (and zero for zero), in each representation that offers it. The square-root operation over GF(2^255-19) returns a square root of every element that has one.",
 ["inputs"], "all field elements, both fields, every representation offering the operation",
 "A wrong exponent shows on every input, but a wrong root choice or a wrong condition shows only on one residue class; tests check a few samples and not every representation.",
 [F255%"1w_fullradix",F255%"1w_redradix",F255%"4w_redradix",F448%"1w_fullradix",F448%"1w_redradix"],
 [("addition chains for a^(p-2) and a^((p-5)/8), sqrt(-1) correction","src/eltfp25519_*.c, src/eltfp448_*.c")],
 observe=["Fp25519.*.arith.{inv,srt}","Fp448.*.arith.{inv,srt}"])

prop("C06", "Field elements serialise canonically, compare exactly and round-trip",
 "Serialisation writes the unique little-endian encoding of the residue in [0,p) for every internal representation of it, and deserialisation of any byte string gives an element congruent to the encoded integer. Comparison reports equality exactly when two elements are congruent, the sign is the parity of the canonical residue, and the constants zero and prime are written correctly, in both fields and all representations.",
 ["inputs"], "all byte strings and all internal representations the arithmetic can produce, including the non-canonical ones between p and the representation's maximum",
 "Non-canonical representations are hit with probability about 2^-250 by random tests, and comparison is only tried on equal or random operands.",
 ["src/eltfp25519_1w_fullradix.c","src/eltfp25519_1w_redradix.c","src/eltfp25519_2w_redradix.c","src/eltfp25519_4w_redradix.c","src/eltfp448_1w_fullradix.c","src/eltfp448_1w_redradix.c","src/eltfp448_2w_redradix.c","src/eltfp448_4w_redradix.c","src/bytestring.c"],
 [("modp final reduction, ser/unser, cmp, sgn, cmp_bytes","src/eltfp*.c, src/bytestring.c")],
 observe=["Fp25519.*.arith.{cmp,sgn,prime}","Fp25519.*.arith.misc.{ser,unser,zero}","Fp448 likewise"])

prop("C07", "X25519 equals the RFC 7748 function for every scalar and point",
 "For every 32-byte secret and every 32-byte peer key, including non-canonical and low-order ones and keys with the top bit set, both X25519 implementations return exactly the 32 bytes that RFC 7748 defines, leaving their inputs untouched. The two implementations therefore always agree with each other.",
 ["inputs"], "all 2^256 secrets x all 2^256 peer keys, both implementations",
 "Tests run a handful of RFC vectors and the iterated vector; low-order points, non-canonical coordinates and rare carries are not reached.",
 ["src/ladder255.c","src/dh255.c","src/eltfp25519_1w_fullradix.c","src/eltfp25519_2w_redradix.c"],
 [("clamping, constant-time Montgomery ladder, final inversion and canonical output","src/ladder255.c")],
 observe=["X25519.shared","X25519_x64.shared"])

prop("C08", "X448 equals the RFC 7748 function for every scalar and point",
 "For every 56-byte secret and every 56-byte peer key, including non-canonical and low-order ones, X448 returns exactly the 56 bytes that RFC 7748 defines, leaving its inputs untouched.",
 ["inputs"], "all 2^448 secrets x all 2^448 peer keys",
 "Tests run a handful of RFC vectors; non-canonical coordinates, low-order points and rare carries are not reached.",
 ["src/ladder448.c","src/dh448.c","src/eltfp448_1w_fullradix.c","src/eltfp448_2w_redradix.c"],
 [("clamping, constant-time Montgomery ladder, final inversion and canonical output","src/ladder448.c")],
 observe=["X448.shared"])

prop("C09", "Diffie-Hellman key generation equals the function on the base point",
 "For every secret, X25519 and X448 key generation returns the public key that the shared-secret function gives on the standard base point (u = 9 and u = 5), so that both parties always derive the same key.",
 ["inputs"], "all secrets, all three key-generation entry points",
 "Key generation takes a different route (fixed-base Edwards multiplication and a birational map, or precomputed tables), which tests compare on few random secrets.",
 ["src/ladder255.c","src/ladder448.c","src/edwards255.c","src/edwards448.c"],
 [("fixed-base Edwards multiplication then map to Montgomery u","src/ladder255.c, src/ladder448.c")],
 observe=["X25519.keygen","X25519_x64.keygen","X448.keygen"])

prop("C10", "Ed25519 point arithmetic is the group law for every pair of points",
 "Point addition, mixed addition and doubling, in the one-, two- and four-way versions, produce the projective coordinates given by the twisted Edwards addition law of edwards25519 on every pair of inputs, in every lane and including doubling through the addition and the neutral element. The auxiliary product coordinate stays consistent with the others after every operation.",
 ["inputs"], "all pairs of points on the curve in all coordinate representations",
 "Points are only exercised indirectly by a few signatures; exceptional inputs (equal, opposite, neutral, low order) are not tested.",
 ["src/edwards255.c","include/edwards255.h"],
 [("extended coordinates addition/doubling formulas","src/edwards255.c")],
 observe=["point values after each operation"])

prop("C11", "Ed25519 fixed-base multiplication is exact for every scalar",
 "Fixed-base scalar multiplication returns the scalar multiple of the standard base point for every 256-bit scalar that key generation and signing can pass to it, with a precomputed table that holds exactly the right multiples of the base point. Table selection returns the entry with the right index and sign for every digit.",
 ["inputs"], "all reduced scalars, all table entries, all signed digits",
 "The table has 24 KB of constants and each test signature touches 1/8 of it; digit carries at the top of the scalar and rare digits are not hit.",
 ["src/edwards255.c","include/table_sign_w4_24k_ed25519.h"],
 [("signed 4-bit recoding, constant-time table query, comb evaluation, joining of lanes","src/edwards255.c")],
 observe=["Ed25519.Pure.keygen","X25519.keygen"])

prop("C12", "Ed448 fixed-base multiplication is exact for every scalar",
 "Fixed-base scalar multiplication on edwards448 returns the scalar multiple of the standard base point for every scalar that key generation and signing can pass to it, with a precomputed table that holds exactly the right points. Point formulas, digit recoding, table selection and the isogeny back to the curve are exact for every input.",
 ["inputs"], "all reduced scalars, all table entries, all signed digits",
 "Only a few signatures are checked by the tests, and at the pinned commit these tests fail.",
 ["src/edwards448.c","include/table_sign_w4_3675k_ed448.h"],
 [("signed 4-bit recoding, table query, comb evaluation, 4-isogeny","src/edwards448.c")],
 observe=["Ed448.PureContext.keygen","X448.keygen"])

prop("C13", "Double-scalar multiplication for verification is exact for every scalar pair",
 "For every pair of scalars and every point on the curve, the variable-time double-scalar multiplication used by Ed25519 and Ed448 verification computes the exact sum of the base-point multiple and the point multiple. Width-w recoding represents every scalar it is given and never indexes outside its buffers or tables.",
 ["inputs"], "all scalar pairs the verifiers can pass, all points, all digits",
 "Digits of extreme value and position, carries at the top and exceptional additions occur with negligible probability in the sampled signatures.",
 ["src/edwards255.c","src/edwards448.c","include/table_verf_w7_ed25519.h","include/table_verf_w7_ed448.h"],
 [("wNAF recoding, odd-multiples precomputation, interleaved evaluation","src/edwards255.c, src/edwards448.c")],
 observe=["Ed25519.*.verify","Ed448.*.verify"])

prop("C14", "Ed25519 scalar arithmetic modulo the group order is exact",
 "Reduction of every 512-bit hash value modulo the order of the base point gives the canonical residue, and the second half of every signature is the canonical residue of nonce plus challenge times secret scalar.",
 ["inputs"], "all 512-bit values, all (nonce, challenge, secret) triples",
 "Borrows and carries in the multi-step reduction occur for values next to multiples of powers of two that random hashes never hit.",
 ["src/sign255.c","src/bytestring.c"],
 [("folding reduction modulo the group order, schoolbook product","src/sign255.c, src/bytestring.c")],
 observe=["Ed25519.*.sign"])

prop("C15", "Ed448 scalar arithmetic modulo the group order is exact",
 "Reduction of every 912-bit hash value modulo the order of the base point gives the canonical residue, the second half of every signature is the canonical residue of nonce plus challenge times secret scalar, and division of a scalar by four modulo the order is exact.",
 ["inputs"], "all 912-bit values, all (nonce, challenge, secret) triples",
 "Carries out of the folding steps occur for values next to powers of two that random hashes never hit, and the tests of Ed448 signing fail at the pinned commit.",
 ["src/sign448.c","src/edwards448.c","src/bytestring.c"],
 [("folding reduction modulo the group order, schoolbook product, division by 4","src/sign448.c, src/edwards448.c, src/bytestring.c")],
 observe=["Ed448.*.sign","Ed448.*.verify"])

prop("C16", "Ed25519 point encoding and decoding follow RFC 8032 for every string",
 "Encoding a point gives the canonical y coordinate with the parity of x in the top bit, whatever its projective scaling. Decoding succeeds exactly on the canonical encodings of curve points and returns that point; every other string is rejected.",
 ["inputs"], "all 2^256 strings; all points and scalings",
 "Tests decode valid keys only; strings that encode no curve point, non-canonical y and x = 0 with the sign bit set are not tried.",
 ["src/edwards255.c","src/sign255.c"],
 [("affine conversion, square-root decompression and range/curve checks","src/edwards255.c")],
 observe=["Ed25519.*.verify","Ed25519.*.keygen"])

prop("C17", "Ed448 point encoding and decoding follow RFC 8032 for every string",
 "Encoding a point gives the canonical y coordinate with the parity of x in the top bit, whatever its projective scaling. Decoding succeeds exactly on the canonical encodings of curve points and returns that point; every other string is rejected.",
 ["inputs"], "all 2^456 strings; all points and scalings",
 "Tests decode valid keys only; strings that encode no curve point, non-canonical y and x = 0 with the sign bit set are not tried.",
 ["src/edwards448.c","src/sign448.c"],
 [("affine conversion, square-root decompression and range/curve checks","src/edwards448.c")],
 observe=["Ed448.*.verify","Ed448.*.keygen"])

prop("C18", "Ed25519 keys and signatures are exactly those of RFC 8032",
 "For every private key, message and context, key generation and signing in the pure, context and prehash variants return exactly the bytes RFC 8032 prescribes: the right octets are hashed in the right order with the right domain separation, and secret material is clamped and reduced as prescribed. A context longer than 255 bytes gives an error, and nothing is written beyond the output.",
 ["inputs","configurations"], "all private keys, messages, contexts of every length, three variants",
 "Tests check eleven vectors of the pure variant and none of long contexts or prehash boundaries.",
 ["src/sign255.c","src/ed255.c"],
 [("sign/keygen data flow, dom2 prefix, clamping","src/sign255.c")],
 observe=["Ed25519.{Pure,Context,PreHash}.{keygen,sign}"])

prop("C19", "Ed448 keys and signatures are exactly those of RFC 8032",
 "For every private key, message and context, key generation and signing in the pure and prehash variants return exactly the bytes RFC 8032 prescribes, as compiled with the project's own optimisation settings. A context longer than 255 bytes gives an error, and nothing is written beyond the output.",
 ["inputs","configurations"], "all private keys, messages, contexts of every length, two variants",
 "Tests check a few vectors, and the signing ones fail at the pinned commit.",
 ["src/sign448.c","src/ed448.c"],
 [("sign/keygen data flow, dom4 prefix, clamping","src/sign448.c")],
 observe=["Ed448.{PureContext,PreHash}.{keygen,sign}"])

prop("C20", "Ed25519 verification accepts exactly the valid signatures",
 "Verification in every variant returns success exactly when the public key decodes to a curve point, the second half of the signature is below the group order, and the first half is the encoding of S*B - k*A for the challenge k that RFC 8032 prescribes; every other input gives an error code. In particular no signature can be changed into another accepted one for the same message, and every signature made by the library is accepted.",
 ["inputs"], "all public keys, signatures, messages and contexts",
 "Tests verify a few good signatures and no malformed, malleated or out-of-range ones.",
 ["src/sign255.c","src/edwards255.c"],
 [("range check of S, decoding of A, double-scalar multiplication and byte comparison","src/sign255.c")],
 observe=["Ed25519.{Pure,Context,PreHash}.verify"])

prop("C21", "Ed448 verification accepts exactly the valid signatures",
 "Verification returns success only when the public key decodes to a curve point, the second half of the signature is the canonical encoding of a scalar below the group order, and the first half is the encoding of the point the verification equation of RFC 8032 prescribes; every other input gives an error code. Every signature made by the library is accepted.",
 ["inputs"], "all public keys, signatures, messages and contexts",
 "Tests verify a few good signatures and no malformed, malleated or out-of-range ones.",
 ["src/sign448.c","src/edwards448.c"],
 [("range check of S, decoding of A, double-scalar multiplication and byte comparison","src/sign448.c")],
 observe=["Ed448.{PureContext,PreHash}.verify"])

prop("C22", "SHA-512 and SHAKE256 equal the standards for every message and chunking",
 "For every message, however it is split into update calls, the hash functions return the digest FIPS 180-4 (SHA-512, SHA-384) and FIPS 202 (SHAKE256, any output length) prescribe.",
 ["inputs","histories"], "all messages of every length and all sequences of update calls",
 "Tests hash short messages in one call; block-boundary lengths and multi-call histories are sampled sparsely.",
 ["third_party/sha512.c","third_party/sha3.c"],
 [("compression function/permutation, block buffering, padding","third_party/sha512.c, third_party/sha3.c")],
 observe=["sph_sha512*","SHAKE256","Init/Update/Final2"])

prop("C23", "Two-way SHA-512 equals two independent SHA-512 computations",
 "For every pair of equally long messages the vectorised two-message hash returns exactly the two SHA-512 digests, with no influence of one message on the other digest.",
 ["inputs"], "all pairs of messages of every length accepted",
 "Tests compare a few short lengths with random content.",
 ["third_party/sha512_2way.c"],
 [("two-lane message schedule and rounds, padding per lane","third_party/sha512_2way.c")],
 observe=["sha512_2w_avx"])

prop("C24", "Hash-to-curve always yields the same curve point in both implementations",
 "For every message the two hash-to-curve implementations return the same affine point, this point lies on edwards25519 and is in the prime-order subgroup.",
 ["inputs"], "all messages",
 "Tests compare random messages; exceptional field elements of the map (zero denominators, squares) occur with negligible probability.",
 ["src/hash255.c"],
 [("elligator2 map in scalar and two-way form, addition, cofactor clearing","src/hash255.c")],
 observe=["h2c25519_x64","h2c25519_avx2"])

prop("C25", "Secret data never decides a branch or an address",
 "In key generation, shared-secret computation and signing, neither control flow nor any memory address depends on the secret key, the scalar or the nonce derived from them.",
 ["inputs"], "all secrets, all entry points that take one",
 "Functional tests cannot observe timing behaviour.",
 ["src/ladder255.c","src/ladder448.c","src/edwards255.c","src/edwards448.c","src/sign255.c","src/sign448.c","src/eltfp25519_1w_fullradix.c"],
 [("conditional moves, masks and full table scans","src/*.c")],
 observe=["branches and addresses in the executed code"])

prop("C26", "No operation reads or writes outside the objects it is given",
 "For every input, the field, key-agreement and signature entry points read and write only the caller's buffers at their documented sizes and their own local storage, never use uninitialised data in a result, and their inline assembly declares everything it changes.",
 ["inputs"], "all inputs of every entry point",
 "Out-of-bounds accesses inside an aligned stack frame and missing clobbers do not fail a functional test.",
 ["src/","third_party/"],
 [("fixed-size buffers, loop bounds, asm constraint lists","src/*.c")],
 observe=["memory accesses in the executed code"])

prop("C27", "Random keys come entirely from the operating system generator",
 "Generating a random key fills every byte of the key with operating-system randomness or reports failure, whatever the read calls return.",
 ["fault_sequences"], "all short reads and errors of the random source",
 "Tests never make the random source fail or return short reads.",
 ["third_party/prng.c","src/bytestring.c"],
 [("read loop on the random device","third_party/prng.c")],
 observe=["bytes of the key"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
