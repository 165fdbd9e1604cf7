T = "contract-based deductive verification of the Go source (SSA weakest-precondition style symbolic execution, loop invariants as folds, canonical term rewriting and Z3)"
TR = "Trusted: the Go compiler and SSA builder, the verifier in /verif/gocv, the specification functions in /verif/spec, Z3. "
claim("H01", T, "proof", "For all message lengths and chunkings: the compression loop, Write, Sum, Reset and Sm3Sum are proved against the GB/T 32905 specification function; no bound other than a total length below 2^46 bytes. " + TR)
claim("H02", T, "proof", "BLAKE-256/224/512/384, salted or not: compression, counters, padding, Write/Sum/Reset for all lengths and chunkings against the BLAKE submission specification. Total length below 2^46 bytes. " + TR)
claim("H03", T, "proof", "BLAKE2s for every valid configuration (size, key, salt, person, tree) and every chunking against RFC 7693, including rejection of invalid configurations; NewMAC and Sum256. Total length below 2^46 bytes. " + TR)
claim("H04", T, "proof", "Keccak-f[1600] (the assembly that is linked and the generic Go code) against FIPS 202; all six fixed-length hashes and SHAKE128/256 for every message length and chunking; SHAKE output for any number of reads at any position, each single read bounded to 2*rate+1 bytes (bounded). Total length below 2^40 blocks. " + TR)
claim("H05", T, "proof", "Every selector (symbolic 32-bit), every data and key of any length including nil, every 16-bit digest length: Hash and Hmac return exactly the named function (or nil), do not panic and do not write their arguments. The hashes themselves enter through the contracts H01-H04 prove; the standard library and x/crypto hashes are trusted. " + TR)
EC = 'The stdlib big.Int, P-256 and random source enter as trusted contracts; the curve operations of the package enter as contracts (ghost points of an abstract group with the exact group law) whose own proofs belong to G01/G02. '
claim("C01", T, "proof", "PointDecompress/PointCompress for secp256k1, secp256r1 and SM2: for every byte slice (any length, nil) the result equals the specification (canonical abscissa, square root of the right parity, left-padded), no panic, no write to arguments. " + EC + TR)
claim("E01", T, "proof", "Signature on secp256k1/secp256r1 for every key, digest (any length) and nonce stream (retry loops as loop invariants): the returned pair satisfies the signing equation for the nonce point of the last attempt, low-S, minimal-DER width, v parity; error paths return no signature. Partial correctness: termination of the retry loops is probabilistic and not proved. " + EC + TR)
claim("E02", T, "proof", "Verify on secp256k1/secp256r1 for every key, digest and signature slice: returns exactly the specification's verdict, no panic, no write to arguments. " + EC + TR)
claim("E03", T, "proof", "RecoverPubkey on secp256k1/secp256r1 for every signature/digest slice: equals the specification (which verifies the candidate), plus the lemma that signatures made by the signer recover the signer's key. " + EC + TR)
claim("S01", T, "proof", "SM2 Signature/Verify for every key, identifier, message and nonce stream against GB/T 32918.2 (identifier hash, equations, rejected intermediate values); SM3 enters through H01's contract. " + EC + TR)
claim("S02", T, "other", "SM2 Encryption/Decryption against GB/T 32918.4 with every byte symbolic; every key, nonce, off-curve/corrupt/short case; the byte loops of the KDF and the mask are unrolled for a list of plaintext lengths (bounded: lengths listed in the evidence), plus the round-trip lemma for those lengths. " + EC + TR)
claim("S03", T, "other", "SM2 key agreement, both roles and both modes, against GB/T 32918.3 with every byte of every key, identifier and confirmation symbolic; requested key lengths from a list (bounded: listed in the evidence) because the KDF loop is unrolled. " + EC + TR)
PC = 'Mathematical facts used but not proved here: the moduli are prime (Fermat, Euler criterion), the Pallas group is cyclic of prime order q with no point of order two. '
claim("F01", T, "proof", "Both Pasta fields, exact integer polynomials over the 64-bit words: word primitives, Add, Sub, Opp, Mul, Square, To/FromMontgomery (also for every 256-bit word vector), NonZero, Copy, SelectZnz, SetOne, To/FromBytes, Equals*, the inversion exponent, FieldPow for all 256 exponents, the Field/Scalar layer with aliased operands and the big-endian conversions, for all canonical operands. FiatPastaFpSqrt: partial correctness by an inductive loop invariant; FiatPastaFpPow with a symbolic exponent string up to 9 bits (bounded). " + PC + TR)
claim("G03", T, "proof", "Pallas group law over field elements as ghost polynomials: GroupAdd/Dbl/Negate in every case (equal, opposite, infinite, any representation), conversions, curve test, GroupScalarMul for every scalar (ghost group elements), and on those contracts the affine layer, encodings of 33/64/65 bytes, compression, PointAdd/PointMul/PointMulBaseGAdd/GenPublicKey for every byte string of those lengths. The field enters through F01's contracts. " + PC + TR)
claim("M01", T, "proof", "Poseidon: constants pinned, the 63-round permutation for every state, PoseidonUpdate from every absorption position and arbitrary state for calls of up to 9 elements (bounded per call; any sequence of calls), init and digest. Field operations enter through F01's contracts. " + TR)
claim("M02", T, "proof", "Mina Sign for every key, nonce and message (key, r, s = k + e*d with even nonce point, hence the verification equation) and Verify for every 64/65-byte key and 64-byte signature: accepted exactly when all inputs are canonical, the key is a finite curve point and the equation holds with even ordinate. Messages with up to 3 prefix and 4 suffix elements (bounded); JSON decoding is a trusted contract; the retry loop on a zero nonce is one iteration. Field, group and Poseidon enter through the contracts of F01, G03, M01. " + PC + TR)
DC = 'Mathematical facts used but not proved here: 2^255-19 and the group order are prime, the Edwards addition law is complete (d is not a square), scalar arithmetic in the exponent. '
claim("F02", T, "proof", "Curve25519 field: exact integer polynomials over the ten limbs for every limb vector within stated bounds: add, sub, neg, mul, square, square2, the inversion and square-root exponents, decoding of every 32-byte string, encoding (unique canonical representative), sign and zero tests, conditional moves. The separate ten-limb arithmetic of the Curve25519-SHA256 scheme is not covered here but by D01's comparison with math/big. " + DC + TR)
claim("F03", T, "proof", "ScMulAdd and ScReduce (edwards25519) and x25519_sc_reduce for all inputs: exact integer polynomials through all carries, the result is congruent modulo the order and below it. " + DC + TR)
claim("G04", T, "proof", "Addition, subtraction, mixed addition, doubling in every coordinate system, conversions, decompression, table selection (all table entries recomputed), fixed-base multiplication, double-scalar multiplication (window loop as an invariant over ghost group elements), and on those contracts Point_add/Point_mulBaseG/Point_mulBaseG_add for every byte slice. The field enters through F02's contracts. " + DC + TR)
claim("D01", T, "proof", "Ed25519, raw-scalar Ed25519 and X25519 signing and verification for every key, message (any length) and nonce, against RFC 8032 style specifications: the signing equation, hence acceptance by the verifier, and the exact verdict for every key and signature slice; no panic, no write to arguments. Curve25519-SHA256 (its own ten-limb arithmetic and Montgomery ladder) is only compared with a math/big reference (bounded). One known finding: the key whose public point is the base point itself. " + DC + TR)
claim("D02", T, "proof", "Both conversions for every 32-byte input: exact rational map with division by zero giving zero, canonical encoding, rejection of non-canonical Montgomery encodings, and the round-trip lemma. The field enters through F02's contracts. " + DC + TR)
claim("K01", T, "proof", "GenPubkey for secp256k1, secp256r1, SM2 and the Ed25519 family for every key slice (any length, nil): the exact point, left-padded, or no key with the right code; no panic, no write to arguments. Curve25519-SHA256 key generation is compared with a math/big reference only (bounded). Curve operations enter through contracts. " + DC + TR)
claim("F04", T, "proof", "Every SM2 field function for every limb vector within the stated bounds, with every coincidence of operands: sum and difference, the double-length products, the Montgomery reduction (invariant and digit bounds at the head of each eliminating iteration), selection and conditional copy, conversions in both directions, and the constants as the initialiser leaves them. math/big is trusted. " + TR)
claim("G01", T, "proof", "Addition, doubling and affine conversion of secp256k1 for every Jacobian representation of every pair of points (distinct, equal, opposite, infinite), multiplication for every scalar byte string of every length (loop invariant over ghost group elements, all 256 byte values), the curve equation, and on those contracts Point_add, Point_mul, Point_mulBaseG, Point_mulBaseG_add and the inner byte-level functions for every operand slice. math/big and the group axioms (associativity) are trusted. " + TR)
claim("G02", T, "proof", "SM2 addition (every pair of points in every Jacobian representation: distinct, equal, opposite, infinite), doubling (also in place), mixed addition where it applies, affine conversion and the curve equation, over the contracts of the field (F04); windowed multiplication of every point and comb multiplication of the generator for every scalar, one step at a time over ghost group elements (all digits of all 64 and 32 steps, with the argument that the mixed addition never meets its exceptional cases), the 30 points of the comb table recomputed, the reduction of a scalar of any length, and on those contracts the byte-level point functions for every operand slice. math/big and the group axioms (associativity) are trusted. " + TR)
NA = {}
