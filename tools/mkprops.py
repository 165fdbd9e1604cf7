#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in a readable form)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

T_HASH = "The stable tests hash at most a handful of short literals and mostly print the result; a defect that needs a particular length modulo the block size, a particular split into writes, or a carry in the length counter is never sampled."
T_FIELD = "No stable test touches the field layer except through one or two point computations; carries, borrows and the final conditional subtraction depend on operands that random or literal inputs almost never hit."
T_GROUP = "The tests run a few literal points; equal, opposite, infinite and small-coordinate operands, and every scalar bit pattern, are quantified over here."
T_SIG = "The tests sign and verify one literal message, mostly printing; the guarantee quantifies over every key, nonce, message and every forged or malformed signature."

prop("H01", "SM3 equals the published function for every message and chunking",
 "For every byte string and every way of splitting it into successive writes, the SM3 digest returned is the value GB/T 32905 defines for the concatenation. Reset restores the initial state, and Sum appends the digest of everything written so far to its argument without changing what later writes and sums compute.",
 ["inputs", "histories"], "all messages (any length), all chunkings into Write calls, all interleavings of Sum and Reset, all 512-bit blocks and chaining values", T_HASH,
 ["sm3/sm3.go", "hashset.go"], [("compression function", "sm3/sm3.go:update"), ("buffering and padding", "sm3/sm3.go:Write, pad, Sum")],
 "owcrypt.Hash(HASH_ALG_SM3), sm3.New, sm3.Sm3Sum", [("digest,length,unhandleMsg", "chaining value, total bit length, unprocessed tail")])
prop("H02", "BLAKE-256/224/512/384 equal the published functions for every message",
 "For every byte string and every way of splitting it into successive writes, and for every salt, the BLAKE-256, BLAKE-224, BLAKE-512 and BLAKE-384 digests returned are the values the BLAKE specification (14/16 rounds) defines for the concatenation. Sum does not disturb the running state, and Reset restores the initial one.",
 ["inputs", "histories"], "all messages, all chunkings, all salts, all blocks and chaining values", T_HASH,
 ["blake256/blake256.go", "blake256/blake256block.go", "blake512/blake512.go", "blake512/blake512block.go"],
 [("compression functions", "blake256/blake256block.go:block, blake512/blake512block.go:block"), ("buffering, counter and padding", "blake256.go/blake512.go:Write, Sum")],
 "owcrypt.Hash(HASH_ALG_BLAKE256 / BLAKE512)")
prop("H03", "BLAKE2s equals RFC 7693 for every message, key, size and chunking",
 "For every byte string, every split into successive writes, every key of 0 to 32 bytes and every digest size from 1 to 32 bytes, the BLAKE2s digest returned is the RFC 7693 value (with the salt, personalisation and tree parameters of the BLAKE2 specification when configured). Sum does not disturb the running state, Reset restores the keyed initial one, and an out-of-range configuration is rejected.",
 ["inputs", "histories", "configurations"], "all messages, chunkings, keys, sizes, configurations", T_HASH,
 ["blake2s/blake2s.go", "blake2s/block.go"], [("compression function", "blake2s/block.go:blocks"), ("buffering, counter, parameter block", "blake2s/blake2s.go")],
 "owcrypt.Hash(HASH_ALG_BLAKE2S), blake2s.New")
prop("H04", "SHA-3, Keccak and SHAKE equal FIPS 202 / Keccak for every message",
 "For every byte string and every split into successive writes, the SHA3-224/256/384/512 and legacy Keccak-256/512 digests and any number of SHAKE128/256 output bytes (under any split into reads) are the values FIPS 202 (with 0x01 domain padding for Keccak) defines. Sum does not disturb the running state, Reset restores the initial one, and Clone of a SHAKE instance is an independent copy at any point.",
 ["inputs", "histories"], "all messages, chunkings, output lengths, all 1600-bit states", T_HASH,
 ["sha3/sha3.go", "sha3/keccakf.go", "sha3/keccakf_amd64.s", "sha3/hashes.go", "sha3/shake.go", "sha3/xor_unaligned.go", "sha3/xor_generic.go"],
 [("permutation", "sha3/keccakf_amd64.s, sha3/keccakf.go"), ("sponge", "sha3/sha3.go:Write, Read, Sum, padAndPermute")],
 "owcrypt.Hash(HASH_ALG_SHA3_* / KECCAK*), sha3.New*, sha3.NewShake*")
prop("H05", "Hash and Hmac compute exactly the construction each selector names",
 "For every input and key, each documented hash selector returns the digest of exactly the named algorithm or composition (double SHA-256, RIPEMD160 of SHA-256, RIPEMD160 of Keccak-256 or SHA3-256, BLAKE2b/BLAKE2s of the requested length), and each HMAC selector returns RFC 2104 HMAC over the named hash with key and data in their roles. An unknown selector or unsupported digest length returns no digest and does not panic, and neither the data nor the key is modified.",
 ["inputs", "configurations"], "all data, keys, digest lengths and selector values", "The tests print some digests; most selectors, key lengths around the block size and invalid digest lengths are never executed.",
 ["hashset.go", "profile.go"], [("dispatch", "hashset.go:Hash, Hmac")], "owcrypt.Hash, owcrypt.Hmac")

prop("F01", "Pallas base and scalar field arithmetic is exact for every element",
 "For every pair of canonical elements of the two Pasta fields, addition, subtraction, negation, multiplication, squaring, inversion, square root and exponentiation return the canonical representative of the mathematical result, and conversion into and out of Montgomery form and bytes are inverse bijections on canonical values. No operation modifies an operand that is not also its destination, including when operands coincide.",
 ["inputs"], "all pairs of canonical 255-bit elements, all aliasing patterns of destination and operands", T_FIELD,
 ["pasta/pasta_fp.go", "pasta/pasta_fq.go", "pasta/crypto.go"], [("Fp limbs", "pasta/pasta_fp.go"), ("Fq limbs", "pasta/pasta_fq.go")], "pasta field functions")
prop("F02", "Curve25519 field arithmetic and encoding are exact for every element",
 "For all field elements within the limb bounds the point formulas produce, addition, subtraction, negation, multiplication, squaring, inversion and the square-root exponentiation compute the exact result modulo 2^255-19 with limbs again within bounds and without machine overflow. Decoding takes the low 255 bits of 32 bytes, encoding yields the unique canonical representative, and the sign and zero tests agree with it.",
 ["inputs"], "all limb vectors within bounds, all 32-byte strings, all aliasing patterns", T_FIELD,
 ["eddsa/edwards25519/edwards25519.go", "eddsa/x25519.go"], [("limb arithmetic", "edwards25519.go:FeMul, feSquare, FeCombine, FeToBytes, FeFromBytes"), ("exponentiation chains", "FeInvert, fePow22523")], "edwards25519.Fe* functions")
prop("F03", "Ed25519 scalar arithmetic returns the canonical value modulo the order",
 "For all 32-byte a, b, c the multiply-add returns the canonical 32-byte encoding of a*b+c modulo the group order, and for all 64-byte strings the reductions return the canonical encoding of the value modulo the group order. No intermediate machine overflow occurs.",
 ["inputs"], "all 2^768 / 2^512 inputs", T_FIELD, ["eddsa/edwards25519/edwards25519.go", "eddsa/x25519.go"],
 [("scalar reduction", "edwards25519.go:ScMulAdd, ScReduce"), ("second copy", "eddsa/x25519.go:x25519_sc_reduce")], "ScMulAdd, ScReduce, X25519/ED25519 signatures")
prop("F04", "SM2 field arithmetic is exact for every element",
 "For all SM2 field elements within the limb bounds the point formulas produce, addition, subtraction, multiplication, squaring, small scaling and inversion compute the exact result modulo the SM2 prime with limbs again within bounds and no machine overflow. Conversion between integers and limbs is exact in both directions.",
 ["inputs"], "all limb vectors within bounds", T_FIELD, ["sm2_std.go"], [("limb arithmetic", "sm2_std.go: sm2P256 field functions")], "SM2 point operations")
prop("F05", "BLS12-381 base-field and tower arithmetic is exact for every element",
 "For every pair of canonical BLS12-381 base-field elements, addition, subtraction, negation, doubling, Montgomery multiplication, inversion and square root return the canonical representative of the mathematical result, and the quadratic, sextic and dodecic tower operations compute the exact extension-field results. Byte encodings are inverse bijections on canonical values and non-canonical encodings are rejected.",
 ["inputs"], "all pairs of canonical 381-bit elements; all tower elements", T_FIELD,
 ["bls12_381/bls/arithmetic_fallback.go", "bls12_381/bls/arithmetic_x86.s", "bls12_381/bls/field_element.go", "bls12_381/bls/fp.go", "bls12_381/bls/fp2.go", "bls12_381/bls/fp6.go", "bls12_381/bls/fp12.go"],
 [("6-limb arithmetic", "arithmetic_fallback.go, arithmetic_x86.s"), ("tower", "fp2.go, fp6.go, fp12.go")], "bls field functions")

prop("G01", "secp256k1 point arithmetic is the exact group law for all operands",
 "For all points of the curve, including equal, opposite and infinite operands, addition and doubling return the exact group sum, and for every scalar byte string multiplication returns the exact scalar multiple of the point or generator. Infinity is reported as such and only then, and no operand is modified.",
 ["inputs"], "all pairs of curve points, all scalars", T_GROUP, ["secp256k1.go", "ecdsa.go", "utils.go"],
 [("Jacobian formulas", "secp256k1.go:addJacobian, doubleJacobian, affineFromJacobian"), ("double-and-add", "secp256k1.go:ScalarMult")], "owcrypt.Point_add, Point_mul, Point_mulBaseG, Point_mulBaseG_add")
prop("G02", "SM2 point arithmetic is the exact group law for all operands",
 "For all points of the SM2 curve, including equal, opposite and infinite operands, addition and doubling return the exact group sum, and for every 32-byte scalar multiplication of a point or of the generator (including its precomputed table) returns the exact scalar multiple. Infinity is reported as such and only then, and no operand is modified.",
 ["inputs"], "all pairs of curve points, all scalars", T_GROUP, ["sm2_std.go", "ecdsa.go"],
 [("point formulas", "sm2_std.go point add/double"), ("window and comb multiplication", "sm2_std.go ScalarMult, ScalarBaseMult")], "owcrypt.Point_add, Point_mul, Point_mulBaseG, Point_mulBaseG_add")
prop("G03", "Pallas point arithmetic is the exact group law for all operands",
 "For all points of the Pallas curve, including equal, opposite and infinite operands in any projective representation, addition, doubling and negation return the exact group result, and for every canonical scalar multiplication returns the exact scalar multiple. Conversions between projective and affine forms denote the same point, and compressed Pallas encodings decode to the point they encode or are rejected.",
 ["inputs"], "all pairs of curve points and representations, all scalars", T_GROUP, ["pasta/crypto.go", "pasta/pasta.go"],
 [("Jacobian formulas", "pasta/crypto.go:GroupAdd, GroupDub, GroupScalarMul")], "owcrypt.Point_add, Point_mul with ECC_CURVE_PASTA")
prop("G04", "Edwards25519 point arithmetic is the exact group law for all operands",
 "For all curve points the addition, subtraction, mixed and doubling formulas return the exact twisted-Edwards group result in every coordinate system, decompression returns the unique point with the encoded y and sign or fails, and fixed-base and double-scalar multiplication return the exact linear combination for every scalar. The precomputed tables hold exactly the multiples of the base point they stand for.",
 ["inputs"], "all curve points and representations, all 32-byte scalars, all 32-byte encodings", T_GROUP, ["eddsa/edwards25519/edwards25519.go", "eddsa/edwards25519/const.go", "eddsa/ed25519.go"],
 [("formulas", "edwards25519.go:geAdd, geSub, geMixedAdd, Double"), ("multiplication", "GeScalarMultBase, GeDoubleScalarMultVartime"), ("tables", "const.go")], "ED25519 public keys, signatures, Point_add, Point_mulBaseG_add")
prop("G05", "BLS12-381 G1 and G2 arithmetic is the exact group law for all operands",
 "For all points of both curves, including equal, opposite and infinite operands in any projective representation, addition, mixed doubling, negation and scalar multiplication return the exact group result. Equality, affine conversion, on-curve and subgroup tests agree with the mathematical points.",
 ["inputs"], "all pairs of curve points and representations, all scalars", T_GROUP, ["bls12_381/bls/g1.go", "bls12_381/bls/g2.go"],
 [("G1 formulas", "bls/g1.go"), ("G2 formulas", "bls/g2.go")], "bls.G1, bls.G2")

prop("C01", "Point compression and decompression are inverse and reject non-points",
 "For every point of secp256k1, secp256r1 and SM2, decompressing the compressed encoding returns the point (0x04 || X || Y) with the encoded parity, and compressing that returns the encoding. An encoding with a wrong length or prefix, or whose abscissa is not a canonical field element of a curve point, is rejected and never yields an off-curve point or a panic.",
 ["inputs"], "all 33-byte strings, all curve points, all four curves", "The tests decompress one or two literal valid points; half of all abscissas are non-points and none is tried.",
 ["eccset.go", "secp256k1.go", "secp256r1.go", "sm2_std.go", "pasta/crypto.go", "pasta/pasta.go"], [("compress", "eccset.go:PointCompress"), ("decompress", "*_decompress")], "owcrypt.PointCompress, PointDecompress")
prop("C02", "BLS12-381 point encodings are canonical, inverse and checked",
 "For every point of G1 and G2 (including infinity), decoding its compressed or uncompressed encoding returns the point. Every byte string that is not the canonical encoding of a point of the prime-order subgroup is rejected with an error.",
 ["inputs"], "all byte strings of every length, all points", "Only encodings of honestly generated points are decoded by the tests.",
 ["bls12_381/bls/g1.go", "bls12_381/bls/g2.go"], [("codec", "FromCompressed, ToCompressed, FromBytes, ToBytes")], "bls.G1/G2 codecs, owcrypt.Verify and AggregateSignatures")

prop("K01", "Public keys are derived exactly for valid private keys and only for those",
 "For every 32-byte private key in the range 1 to n-1 of secp256k1, secp256r1 and SM2, GenPubkey returns the 64-byte X || Y of that multiple of the generator, left-padded, and for every other length or value it returns no key and reports the private key as illegal. Ed25519-style keys follow RFC 8032 (or the raw-scalar variant) for every 32-byte key, and no derivation modifies the caller's private key.",
 ["inputs"], "all private key byte strings of all lengths, all curves", "Tests derive keys from a few literals; out-of-range keys and coordinates with leading zero bytes are not sampled.",
 ["eccset.go", "ecdsa.go", "eddsa/curve25519.go", "eddsa/ed25519.go"], [("derivation", "ecdsa.go:genPublicKey")], "owcrypt.GenPubkey")
prop("E01", "ECDSA signatures are valid, low-S, fixed-width and carry the right v",
 "For every valid private key, 32-byte digest and nonce stream, a returned secp256k1 or secp256r1 signature r || s satisfies the ECDSA signing equation for the nonce point, has 0 < r < n and 0 < s <= n/2 with both encoded in exactly 32 bytes with positive minimal DER form, and v is the parity of the nonce point adjusted for the negation of s. Invalid keys or digests yield an error and no signature.",
 ["inputs"], "all keys, digests and nonce streams", T_SIG, ["utils.go", "ecdsa.go"], [("signing loop", "utils.go:signGeneric"), ("encoding", "ecdsa.go:sign")], "owcrypt.Signature")
prop("E02", "ECDSA verification accepts exactly the valid signatures",
 "For every public key, digest and signature on secp256k1 and secp256r1, verification succeeds exactly when both lengths are right, the key is a point of the curve, r and s lie in [1, n-1] and the ECDSA verification equation holds. It never panics and modifies none of its arguments.",
 ["inputs"], "all byte strings for key, digest and signature", T_SIG, ["utils.go", "ecdsa.go", "eccset.go"], [("verification equation", "utils.go:verifyesdsa, verifyGeneric")], "owcrypt.Verify")
prop("E03", "Public-key recovery returns the signer's key or an error",
 "For every ECDSA signature produced with recovery byte v, recovery from r || s || v and the digest returns exactly the signer's public key. For every other input it returns an error or a key under which the signature verifies, and never panics.",
 ["inputs"], "all 65-byte strings and digests on secp256k1 and secp256r1", T_SIG, ["secp256k1.go", "secp256r1.go", "eccset.go"], [("recovery", "secp256k1_recover_public, secp256r1_recover_public")], "owcrypt.RecoverPubkey")
prop("S01", "SM2 signing and verification follow GB/T 32918.2 for every input",
 "For every valid key, identifier, message and nonce, a returned SM2 signature satisfies the standard's signing equations over the standard identifier hash and verifies, and out-of-range intermediate values are never returned. Verification accepts exactly the signatures the standard accepts.",
 ["inputs"], "all keys, identifiers, messages, nonces and signatures", T_SIG, ["sm2_std.go", "ecdsa.go"], [("sign/verify", "sm2_std.go:sm2_std_sign, sm2_std_verify")], "owcrypt.Signature, Verify with ECC_CURVE_SM2_STANDARD")
prop("S02", "SM2 decryption inverts encryption and reports every corrupted ciphertext",
 "For every key pair and every non-empty plaintext, decrypting an encryption of it returns the plaintext. Any ciphertext that is too short, carries an off-curve point, or fails the integrity check yields a failure code and no plaintext, without a panic.",
 ["inputs"], "all keys, plaintexts of all lengths, nonces, and all ciphertext byte strings", "The tests encrypt and decrypt one literal; no corrupted or truncated ciphertext is tried.",
 ["sm2_std.go", "ecdsa.go", "eccset.go"], [("encrypt/decrypt", "sm2_std.go:sm2_std_encrypt, sm2_std_decrypt")], "owcrypt.Encryption, Decryption")
prop("S03", "SM2 key agreement gives both parties the same key and detects tampering",
 "For all key pairs, ephemeral keys, identifiers and requested lengths, an honest run in either mode ends with both parties holding the same key of the requested length, the value GB/T 32918.3 defines, and accepting each other's confirmation values. A confirmation value that differs from the expected one is rejected.",
 ["inputs", "histories"], "all keys, ephemeral keys, identifiers, key lengths and confirmation strings", "One literal exchange is executed by the tests.",
 ["sm2_std.go", "eccset.go"], [("key agreement", "sm2_std.go:sm2_std_ka_*")], "owcrypt.KeyAgreement_*")
prop("D01", "Ed25519-family signatures verify and malformed ones are rejected",
 "For every message and every key whose scalar is nonzero modulo the group order, signatures produced by the Ed25519, raw-scalar Ed25519, X25519 and Curve25519-SHA256 signers are accepted by the matching verifier under the matching public key. Verification accepts exactly when the scheme's equation holds for a decodable key and signature, never panics and modifies none of its arguments.",
 ["inputs"], "all keys, messages, random nonces and signature strings", T_SIG, ["eddsa/curve25519.go", "eddsa/ed25519.go", "eddsa/x25519.go", "eddsa/curve25519_sha256.go"], [("schemes", "eddsa/*.go")], "owcrypt.Signature, Verify")
prop("D02", "X25519/Ed25519 conversion is the birational map on all inputs",
 "For every 32-byte input, converting a Montgomery abscissa to an Edwards ordinate returns the canonical encoding of (u-1)/(u+1), converting back returns that of (1+y)/(1-y), with division by zero giving zero, and non-canonical Montgomery encodings are rejected. On valid points the two conversions are mutually inverse up to the sign bit.",
 ["inputs"], "all 32-byte strings", "One literal is converted by the tests.", ["eddsa/convert.go", "eccset.go"], [("maps", "eddsa/convert.go")], "owcrypt.CURVE25519_convert_X_to_Ed, CURVE25519_convert_Ed_to_X")
prop("M01", "Poseidon hashing equals the sponge specification for every input",
 "For every sequence of field elements the Poseidon digest is the value of the width-3 sponge with the published round constants and matrix, absorbing two elements per permutation. The result does not depend on anything but the inputs and leaves them unchanged.",
 ["inputs", "histories"], "all sequences of canonical field elements of all lengths, all sponge states", "One literal vector is compared by the tests.", ["pasta/poseidon.go", "pasta/poseidon_3w.go"], [("permutation", "pasta/poseidon.go"), ("constants", "pasta/poseidon_3w.go")], "pasta Poseidon")
prop("M02", "Mina signatures verify and every other signature is rejected",
 "For every canonical private key and message, a produced Mina signature verifies under the derived public key. Verification accepts exactly when the scheme's equation holds with the recomputed challenge and even nonce ordinate.",
 ["inputs"], "all keys, messages and signature strings", T_SIG, ["pasta/mina.go", "pasta/pasta.go", "pasta/crypto.go"], [("sign/verify", "pasta/pasta.go, pasta/mina.go")], "owcrypt.Signature, Verify with ECC_CURVE_PASTA")
prop("B01", "BLS signing, verification and aggregation follow the scheme for all inputs",
 "For every valid key and message, a produced BLS signature verifies under the derived public key in its ciphersuite, the aggregate of signatures is the encoding of the sum of the decoded points in any order, and any undecodable key or signature is rejected without a panic. No argument buffer is modified.",
 ["inputs"], "all keys, messages, signature lists", T_SIG, ["bls12_381/bls12-381.go", "eccset.go"], [("wrapper", "bls12_381/bls12-381.go"), ("dispatch", "eccset.go")], "owcrypt.Signature, Verify, AggregateSignatures")
prop("A01", "Every public call ends with a result or an error code, never a panic",
 "For all argument byte strings (nil, empty, short, long or malformed) and selector values, every exported function of the top-level package returns normally; unsupported selectors return the wrong-type code or no result, malformed arguments a documented error, and success is reported only with a well-formed result. Documented error causes map to their documented codes.",
 ["inputs", "configurations"], "all argument values of every exported function", "Tests call the API with well-formed arguments only.", ["eccset.go", "ecdsa.go", "hashset.go", "profile.go"], [("dispatch", "eccset.go")], "all exported functions of package owcrypt")
prop("A02", "Public calls never modify or retain the caller's buffers",
 "For every exported function of the top-level package and all arguments, the bytes of every argument slice, including spare capacity beyond its length, are unchanged when the call returns. Returned slices share no memory with the arguments or with internal state that later calls change.",
 ["inputs", "histories"], "all arguments, all lengths and capacities", "No test inspects argument buffers after a call.", ["eccset.go", "ecdsa.go", "sm2_std.go", "eddsa/curve25519_sha256.go"], [("dispatch", "eccset.go")], "all exported functions of package owcrypt")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
