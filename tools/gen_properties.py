#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
F = "crates/fhe/src/bfv/"; M = "crates/fhe-math/src/"; MB = "crates/fhe/src/mbfv/"

p("B01", "Decrypting a fresh encryption returns the encoded message",
  "For every accepted parameter set, every level at which the plaintext space fits the ciphertext modulus with room for fresh noise, every message and every key, encrypting an encoded plaintext (with the secret key, or with a public key) and decrypting it yields exactly the message that was encoded, at the level and encoding requested. Encryption never alters its inputs and the ciphertext carries the parameters and level of the plaintext.",
  ["inputs", "configurations"], "all parameter sets (degree, number and size of moduli, plaintext modulus of any class: small, composite, power of two, NTT prime, larger than a machine word, larger than individual ciphertext moduli), levels, encodings, messages, key and encryption randomness",
  "Unit tests use two or three default parameter sets with equal 62-bit moduli and t=1153; they never mix modulus sizes, use plaintext moduli close to a ciphertext modulus, or sample boundary messages.",
  [F+"keys/secret_key.rs", F+"keys/public_key.rs", F+"plaintext.rs", F+"parameters.rs", F+"context/level.rs"],
  [("secret-key encryption and decryption", F+"keys/secret_key.rs SecretKey::{encrypt_poly,try_encrypt,try_decrypt}"),
   ("public-key encryption", F+"keys/public_key.rs PublicKey::try_encrypt"),
   ("scaling of the plaintext by Q/t", F+"plaintext.rs Plaintext::to_poly, "+F+"context/cipher_plain_context.rs")])
p("B02", "Decryption and noise measurement follow the scheme definition",
  "For any well-formed ciphertext of two or more parts, at any level and under any key, decryption equals rounding t/Q times the exact phase c0 + c1 s + c2 s^2 + ... coefficient-wise and reducing modulo t, and the reported noise is the bit length of the largest centred difference between the phase and the encryption of the decrypted message. This holds whatever the noise, including ciphertexts that are not encryptions of anything.",
  ["inputs", "configurations"], "ciphertexts with arbitrary (also random) polynomials, 2 to 5 parts, every level, every plaintext modulus class, coefficients placed on and around the rounding boundaries",
  "Tests only decrypt honest ciphertexts whose noise is tiny, so the rounding path, the reduction after scaling and the multi-part phase are never exercised near their boundaries.",
  [F+"keys/secret_key.rs", M+"rns/scaler.rs", M+"rq/scaler.rs"],
  [("phase computation and scaling down", F+"keys/secret_key.rs SecretKey::{try_decrypt,measure_noise}")])
p("B03", "Fresh encryptions and keys carry small, centred, randomised noise",
  "The noise of a fresh secret-key encryption is a non-zero centred vector bounded by twice the configured variance per coefficient with the configured variance, public-key encryptions stay within the corresponding bound, secret keys are small with bounded coefficients, and generating twice under independent randomness never repeats a mask, a key or an error. This holds at every level. Relinearisation, rotation and gadget keys carry a fresh error of the configured variance in every component, and the vectors that one encryption, key or share samples are independent of each other. The shares of the multiparty protocols (public key, relinearisation key, decryption, secret and public key switching) carry such errors as well. A ciphertext never contains its message in the clear.",
  ["inputs", "configurations"], "all parameter sets, all error variances 1..=32, levels, keys and messages; statistics over many samples",
  "Tests check only an upper bound of the noise for one variance; a bias, a missing error term, a repeated mask or a wrong variance decrypts correctly and passes.",
  [F+"keys/secret_key.rs", F+"keys/public_key.rs", "crates/fhe-util/src/lib.rs", M+"rq/mod.rs", "crates/fhe/src/mbfv/"],
  [("error and key sampling", "crates/fhe-util/src/lib.rs sample_vec_cbd; "+M+"rq/mod.rs Poly::small"),
   ("mask sampling", F+"keys/secret_key.rs SecretKey::encrypt_poly; "+F+"keys/public_key.rs")])
p("B04", "Plaintext encoding is an exact, faithful representation of the message",
  "Encoding any vector of at most the ring dimension many integers and decoding it under the same encoding returns the values reduced modulo the plaintext modulus (centred for signed types), zero padded; coefficient encoding places value i at power i, and slot encoding makes ring addition and multiplication act slot-wise. Vectors that are too long, slot encodings that the plaintext modulus does not support and decoding with a different encoding are rejected with an error.",
  ["inputs", "configurations"], "all plaintext moduli, encodings, levels, element types (unsigned, signed, big integers, fixed-size arrays), lengths including empty and full, boundary values",
  "Tests encode short random vectors reduced modulo one 11-bit prime; they do not cover values at or above the modulus, extreme signed values, composite moduli, multi-plaintext vectors or the slot order.",
  [F+"plaintext.rs", F+"plaintext_vec.rs", F+"encoding.rs", F+"parameters.rs"],
  [("encode / decode", F+"plaintext.rs FheEncoder/FheDecoder impls; "+F+"plaintext_vec.rs"),
   ("slot permutation", F+"parameters.rs matrix_reps_index_map")])
p("B05", "Linear homomorphic operations compute in the plaintext ring",
  "Adding, subtracting, negating ciphertexts, adding or subtracting plaintexts on either side, and multiplying by plaintexts, in owned, borrowed and in-place forms and for ciphertexts of any number of parts, decrypts to the corresponding operation on the messages in the plaintext ring, with a noise growth no larger than the operation's algebra implies. All forms of one operation agree bit for bit and leave borrowed operands unchanged.",
  ["inputs", "configurations"], "operands of mixed part counts (including empty zero ciphertexts), all levels, plaintext modulus classes, messages, all operator forms",
  "Tests apply each operator once to two fresh two-part ciphertexts; operand forms, different part counts, transparent zeros and non-fresh noise are not combined.",
  [F+"ops/mod.rs", F+"plaintext.rs", F+"ciphertext.rs"],
  [("operator impls", F+"ops/mod.rs")])
p("B06", "Ciphertext multiplication computes the product in the plaintext ring",
  "Multiplying two ciphertexts (including a ciphertext with itself and operands with more than two parts) yields a ciphertext that decrypts to the product of the messages in the plaintext ring whenever the documented noise budget suffices, with noise within the worst-case bound of the scheme. Multiplication is commutative on decrypted values and leaves operands unchanged.",
  ["inputs", "configurations"], "parameter sets with mixed modulus sizes and all plaintext modulus classes, every level, operands of 2 to 4 parts, messages including extreme coefficients, noisy operands",
  "Tests multiply one pair of fresh ciphertexts for a couple of default parameters; the basis extension and scaling errors that depend on the modulus sizes, level or extreme messages are not sampled.",
  [F+"ops/mod.rs", F+"parameters.rs", M+"rns/scaler.rs", M+"rq/scaler.rs"],
  [("tensor product and scaling", F+"ops/mod.rs Mul for &Ciphertext; "+F+"parameters.rs MultiplicationParameters")])
p("B07", "Relinearisation and multiplication strategies preserve the product",
  "Relinearising a three-part ciphertext yields a two-part ciphertext with the same decryption, for keys generated at any admissible pair of ciphertext and key levels, and every multiplication strategy (default, custom extended basis and scaling factors, with or without relinearisation and modulus switching) decrypts to the product with noise in bound and with the announced number of parts and level.",
  ["inputs", "configurations"], "key levels and ciphertext levels, custom extended bases and factors, enabling relinearisation and modulus switching in any combination, single-modulus bases, operands fresh or noisy",
  "Tests cover a few hand-picked strategies on fresh operands at default parameters; level combinations and non-default factors with small or mixed moduli are unexplored.",
  [F+"ops/mul.rs", F+"keys/relinearization_key.rs", F+"keys/key_switching_key.rs"],
  [("multiplication strategies", F+"ops/mul.rs Multiplicator"), ("relinearisation", F+"keys/relinearization_key.rs"), ("key switching", F+"keys/key_switching_key.rs KeySwitchingKey::{key_switch,new}")])
p("B08", "Modulus switching preserves the message and rescales the noise",
  "Switching a ciphertext down by one level, to a given level or to the last level preserves its decryption whenever the remaining modulus leaves room for the rescaled noise, divides the phase by the dropped moduli up to rounding, and never changes the number of parts; switching down to a level one step at a time equals switching at once. Requests to switch up, past the last level, or beyond the chain are rejected without changing the ciphertext.",
  ["inputs", "configurations", "histories"], "every pair of levels, modulus sizes, ciphertexts of any number of parts, interleaved with other operations",
  "Tests switch one fresh ciphertext by one or all levels with equal-size moduli and look only at the decryption; the exact rounding and intermediate levels are not checked.",
  [F+"ciphertext.rs", M+"rq/mod.rs", F+"context/level.rs"],
  [("switching", F+"ciphertext.rs Ciphertext::{switch_down,switch_to_level}"), ("divide and round by the last modulus", M+"rq/mod.rs Poly::switch_down")])
p("B09", "Rotations and inner sums permute and sum the slots exactly",
  "For every supported rotation amount, key level and ciphertext level, rotating columns or rows of an encrypted slot vector decrypts to the correspondingly permuted vector, and the inner sum puts the sum of all slots in every slot. A key never claims support for an operation it cannot perform, and unsupported amounts or operations are rejected with an error.",
  ["inputs", "configurations"], "all column rotations 1..n/2, row rotation, inner sum, all key and ciphertext levels, non-slot plaintext moduli (as ring automorphisms), single-modulus keys, arbitrary combinations of requested operations",
  "Tests rotate with degree-16 default keys for a few level pairs and check nothing about which other operations the key claims to support.",
  [F+"keys/evaluation_key.rs", F+"keys/galois_key.rs", F+"keys/key_switching_key.rs"],
  [("Galois keys", F+"keys/galois_key.rs"), ("evaluation key", F+"keys/evaluation_key.rs")])
p("B10", "Oblivious expansion yields one ciphertext per coefficient",
  "Expanding a ciphertext into any supported number of outputs returns exactly that many ciphertexts, the i-th of which decrypts to the i-th coefficient of the message scaled by the power of two of the expansion depth (in the constant coefficient), and sizes the key does not support are rejected.",
  ["inputs", "configurations"], "all sizes from 1 to the ring dimension (including non powers of two), levels, plaintext moduli, messages whose remaining coefficients vanish on the tree",
  "Tests expand one-hot power-of-two vectors only, so cross-talk between outputs and non power-of-two sizes at other levels are unseen.",
  [F+"keys/evaluation_key.rs", M+"rq/mod.rs"],
  [("expansion tree", F+"keys/evaluation_key.rs EvaluationKey::expands"), ("monomials", F+"parameters.rs / "+M+"rq/mod.rs multiply_inverse_power_of_x")])
p("B11", "External products with RGSW ciphertexts multiply the messages",
  "Multiplying a two-part ciphertext by a gadget ciphertext, in either operand order, decrypts to the product of the two messages in the plaintext ring with noise within the worst-case bound, for every level and plaintext.",
  ["inputs", "configurations"], "parameter sets with at least two moduli, all levels, all plaintext modulus classes, arbitrary messages on both sides, chains of external products",
  "The test multiplies by random plaintexts at two levels of one default parameter set.",
  [F+"rgsw_ciphertext.rs", F+"keys/key_switching_key.rs"],
  [("external product", F+"rgsw_ciphertext.rs Mul impls")])
p("B12", "The fused dot product equals the sum of the products",
  "The scalar product of a list of ciphertexts with a list of plaintexts equals, bit for bit, the sum of the individual products, for every number of terms, number of parts and level, and mismatched, empty or inconsistent inputs are rejected with an error.",
  ["inputs", "configurations"], "list lengths from 1 across every internal accumulator boundary, ciphertexts with differing part counts, modulus sizes up to 62 bits, extreme coefficients",
  "Tests use lengths up to 128 with random residues; accumulator overflow needs extreme residues and lengths near the internal bound.",
  [F+"ops/dot_product.rs", M+"rq/ops.rs"],
  [("lazy accumulation", F+"ops/dot_product.rs; "+M+"rq/ops.rs dot_product")])
p("B13", "Any history of operations within the noise budget decrypts correctly",
  "For every sequence of homomorphic operations (addition, plaintext operations, multiplication, relinearisation, rotation, modulus switching, serialisation, re-randomised encryption) whose worst-case noise fits the budget, every live ciphertext decrypts to the result of the same sequence on plaintexts, and the operations leave all other ciphertexts unchanged.",
  ["histories", "programs", "configurations"], "operation sequences over a pool of ciphertexts at several levels sharing keys, up to the noise budget",
  "Unit tests exercise operations one at a time from fresh state; interactions (level bookkeeping, seeds, part counts, variable-time flags, representation) arise only in sequences.",
  [F+"ops/mod.rs", F+"ops/mul.rs", F+"ciphertext.rs", F+"keys/"],
  [("all operations", F+"ops, "+F+"keys, "+F+"ciphertext.rs")])
p("B14", "Serialisation round trips preserve every object",
  "Every serialisable object (parameters, secret, public, relinearisation and evaluation keys, ciphertexts with or without a seed, gadget ciphertexts) deserialises to an equal object that behaves identically, serialisation is deterministic, and the compact seeded form of a fresh ciphertext or key is only used while it still describes the object.",
  ["inputs", "histories", "configurations"], "all object kinds, levels, part counts, parameter classes, objects obtained fresh or from any operation, including in-place modification",
  "Tests round trip fresh objects only; objects produced by operations (seed dropping, levels, part counts) and behavioural equality after the round trip are not covered.",
  [F+"ciphertext.rs", F+"keys/", F+"rgsw_ciphertext.rs", F+"parameters.rs", M+"rq/serialize.rs", M+"rq/convert.rs", "crates/fhe/src/proto/bfv.proto"],
  [("protobuf conversions", F+"*.rs From/TryConvertFrom impls"), ("polynomial wire format", M+"rq/convert.rs, "+M+"rq/serialize.rs")])
p("B15", "Untrusted bytes are rejected cleanly or yield valid objects",
  "Deserialising arbitrary or corrupted bytes for any object kind never panics, aborts or hangs; it either returns an error or an object that is well-formed for the given parameters: right dimensions, residues in range, valid level, and safe to use, re-serialise and read back as an equal object.",
  ["inputs"], "arbitrary bytes, structure-aware mutations of valid encodings (field edits, truncation, splicing between objects, levels and parameter sets, extreme integers)",
  "Tests feed at most a handful of truncated encodings; malformed combinations of fields are never enumerated.",
  [F+"ciphertext.rs", F+"keys/", F+"rgsw_ciphertext.rs", F+"parameters.rs", M+"rq/convert.rs", M+"rq/serialize.rs", "crates/fhe-util/src/lib.rs"],
  [("validation on conversion", F+"* TryConvertFrom impls; "+M+"rq/convert.rs parse_proto")])
p("B16", "The parameter builder accepts exactly the documented parameter sets",
  "Building parameters succeeds exactly when degree, moduli (given or generated by size), plaintext modulus and variance meet the documented constraints; otherwise it returns an error and never panics, and a successful build reports back exactly the requested values, with distinct NTT-friendly moduli of exactly the requested sizes. Default parameter sets stay within the 128-bit security table and leave the requested plaintext size.",
  ["inputs", "configurations"], "arbitrary degrees, modulus lists, size lists, plaintext moduli and variances, including zero, extreme and conflicting values",
  "Tests check a few rejected cases and one accepted case of each kind.",
  [F+"parameters.rs", M+"zq/primes.rs"],
  [("builder validation", F+"parameters.rs BfvParametersBuilder::build"), ("default sets", F+"parameters.rs default_parameters_128")])
p("B17", "Misuse across keys, parameters and levels is rejected, not computed",
  "Passing operands that belong to different parameters or levels, have the wrong number of parts, or exceed what a key supports makes error-returning calls return an error (and operators refuse by panicking) without modifying any operand; such a call never yields a ciphertext that silently decrypts to something else.",
  ["inputs", "configurations"], "every pairing of public operations with operands drawn from different parameter sets, levels, part counts and key kinds",
  "Tests check a handful of mismatches; the cross product of operations and mismatches is not enumerated.",
  [F+"ops/", F+"keys/", F+"ciphertext.rs", F+"rgsw_ciphertext.rs", MB],
  [("operand validation", F+"ciphertext.rs validate_for; asserts in "+F+"ops/mod.rs")])
p("B18", "Multiparty keys, decryption and key switching equal the single-party result",
  "For any number of parties, public-key shares aggregate to a key under the sum of the secrets whose encryptions decrypt jointly to the message; joint decryption, secret-key switching and public-key switching of any two-part ciphertext within the noise budget return the same message as decrypting under the summed secret, in any aggregation order and at every level, and empty, mismatched or malformed shares and inputs are rejected with an error.",
  ["inputs", "configurations", "histories"], "1 to 8 parties, aggregation order, levels, plaintext moduli, ciphertexts fresh or computed",
  "Tests run 11 parties in one order for default parameters on fresh ciphertexts.",
  [MB+"public_key_gen.rs", MB+"secret_key_switch.rs", MB+"public_key_switch.rs", MB+"aggregate.rs", MB+"crp.rs"],
  [("protocol shares and aggregation", MB+"*.rs")])
p("B19", "The multiparty relinearisation key relinearises under the summed secret",
  "For any number of parties the two-round relinearisation key protocol yields a key that relinearises products of ciphertexts under the summed secret, with the same decryption and noise within the worst-case bound, for every parameter set with at least two moduli and in any aggregation order; wrong common randomness, shares that do not belong together and parameters with a single modulus are rejected with an error.",
  ["inputs", "configurations", "histories"], "1 to 6 parties, levels with at least two moduli, aggregation order, parameter classes",
  "One test with default parameters.",
  [MB+"relin_key_gen.rs", F+"keys/relinearization_key.rs"],
  [("two-round protocol", MB+"relin_key_gen.rs")])
p("B20", "Secrets and plaintexts are not left behind in released memory",
  "No operation that handles a secret key (key generation, encryption, decryption, noise measurement, generation of public, switching, relinearization, Galois and evaluation keys, multiparty shares, (de)serialization of a secret key, dropping it) releases heap memory that still contains the secret key, one of its transforms or products that reveal it, or the error that masks it; and no encoding, decoding, encryption, decryption or plaintext operation releases memory that still contains the message. Zeroizing or dropping a secret key or a plaintext clears its contents.",
  ["inputs", "configurations"], "all operations on secret keys and plaintexts, parameter sets, levels, encodings, one or several moduli",
  "A leftover copy of a secret changes no returned value, so no ordinary unit test can see it; it depends on the path taken (encoding, number of moduli, level, early return) and only shows in memory that the program has already given back.",
  [F+"keys/secret_key.rs", F+"plaintext.rs", F+"plaintext_vec.rs", F+"keys/key_switching_key.rs", F+"keys/public_key.rs", F+"keys/relinearization_key.rs", F+"keys/galois_key.rs", F+"rgsw_ciphertext.rs", MB+"public_key_gen.rs", MB+"relin_key_gen.rs", M+"rq/mod.rs"],
  [("wiping of keys", F+"keys/secret_key.rs Zeroize, ZeroizeOnDrop, Zeroizing temporaries"), ("wiping of plaintexts", F+"plaintext.rs Zeroize, "+F+"plaintext_vec.rs"), ("wiping of polynomials", M+"rq/mod.rs Zeroize for Poly")])
p("B21", "Equality tells apart everything that behaves differently",
  "Two objects (parameters, keys, ciphertexts, plaintexts, gadget ciphertexts, multiplication strategies, polynomials, contexts, moduli, scalers) compare equal whenever they hold the same values, even if built separately, copied, or read back from bytes and whatever their variable-time permission, and compare unequal whenever a single coefficient, modulus, level, number of polynomials, key, seed, known encoding or parameter differs; equality is symmetric and agrees with inequality.",
  ["inputs", "configurations"], "all kinds of objects, all single differences (position, modulus, level, part, key, parameter), parameter sets, equal parameters built separately",
  "The operators decide by these comparisons whether two operands belong together, and tests decide by them whether a result is right; tests compare a few equal pairs and almost no pairs that differ in one place.",
  [F+"parameters.rs", F+"plaintext.rs", F+"ciphertext.rs", F+"keys/evaluation_key.rs", F+"ops/mul.rs", M+"rq/mod.rs", M+"rq/context.rs", M+"zq/mod.rs", M+"ntt/tfhe.rs"],
  [("plaintext equality", F+"plaintext.rs PartialEq for Plaintext"), ("polynomial equality", M+"rq/mod.rs PartialEq for Poly"), ("modulus and transform equality", M+"zq/mod.rs, "+M+"ntt/tfhe.rs")])
p("B22", "Results depend only on the operands, in any order and on any thread",
  "Every deterministic operation (arithmetic, rotations, expansion, switching, relinearization, decryption, noise measurement, encoding, serialization, seeded sampling, polynomial and transform operations) returns the same result each time it is given the same operands: whatever was computed before, in whichever order, on how many threads at once, on the first use of an object or a later one, and with objects rebuilt or read back under equal parameters; it changes none of its operands. Randomised encryption always decrypts to the same message under these conditions.",
  ["inputs", "schedules", "histories"], "operation lists in arbitrary orders, 2 to 6 threads sharing keys, parameters and operands, several parameter sets alive in one process, first uses racing with each other",
  "Unit tests run one operation on one parameter set at a time, so a cache, scratch buffer or lazily built table that is shared, keyed by too little, or not reset shows nothing there.",
  [F+"ops/mod.rs", F+"ops/mul.rs", F+"keys/evaluation_key.rs", F+"keys/key_switching_key.rs", F+"parameters.rs", M+"rq/mod.rs", M+"rns/scaler.rs", M+"ntt/native.rs"],
  [("homomorphic operations", F+"ops, "+F+"keys"), ("polynomial operations", M+"rq")])
p("B23", "Serialized data mean the same to every build of the library",
  "Parameters, keys, ciphertexts and gadget ciphertexts written by one build of the library and read by another (native or tfhe-ntt transforms, with or without debug assertions) behave identically: every operation on them gives the same serialized result, either build decrypts what the other encrypts, both accept and refuse the same bytes, a seed expands to the same object, and encoded slots come back in the same order.",
  ["inputs", "configurations"], "all serialisable objects and operations on them, parameter sets, both builds in both roles, damaged bytes",
  "Every test runs inside one build, so a wire format or encoding that depends on the transform in use round-trips perfectly there.",
  [M+"rq/convert.rs", M+"rq/mod.rs", M+"ntt/tfhe.rs", M+"ntt/native.rs", F+"keys/key_switching_key.rs", F+"ciphertext.rs", F+"plaintext.rs"],
  [("wire form of polynomials", M+"rq/convert.rs From<&Poly> for Rq, parse_proto"), ("seed expansion", M+"rq/mod.rs random_from_seed")])
p("M01", "Modular arithmetic is exact for every supported modulus",
  "For every supported modulus and all operands in range, every scalar and vector operation (addition, subtraction, multiplication, Shoup and lazy variants, negation, exponentiation, inversion, reduction of wide and signed values, centring, in constant- and variable-time forms) returns the exact mathematical result in its documented range, and vector forms equal the scalar ones element-wise. Moduli outside the supported range are rejected.",
  ["inputs", "configurations"], "all moduli from 2 up to 62 bits, all operand values including 0, modulus-1, halves, powers of two and the full documented lazy ranges, all vector lengths including those crossing SIMD and unrolling boundaries",
  "Property tests in the crate use a handful of moduli and uniformly random operands, so carries and corner values for unusual moduli are rarely hit; some variants are untested.",
  [M+"zq/mod.rs"], [("Barrett, Shoup and lazy reductions", M+"zq/mod.rs Modulus")])
p("M02", "The NTT is an exact ring isomorphism with matching variants",
  "For every supported modulus and size the backward transform inverts the forward transform, pointwise multiplication corresponds to negacyclic convolution, and all variants (constant time, variable time, lazy, in-place vectors) agree, with outputs in the documented range. An operator exists exactly for power-of-two sizes at least 8 and primes congruent to one modulo twice the size.",
  ["inputs", "configurations"], "all supported prime moduli (10 to 62 bits), sizes 8 to 2^15, arbitrary inputs including extreme residues",
  "Tests check round trips for two or three moduli and random vectors; the convolution law and extreme inputs are not checked.",
  [M+"ntt/native.rs", M+"ntt/tfhe.rs", M+"ntt/mod.rs"], [("butterflies", M+"ntt/native.rs"), ("alternative backend", M+"ntt/tfhe.rs")])
p("M03", "RNS projection and lifting are inverse bijections",
  "For every set of pairwise coprime moduli, projecting an integer gives its residues and lifting residues gives the unique integer below the product, the garner coefficients have their defining property, and non-coprime or empty sets are rejected.",
  ["inputs", "configurations"], "all lists of 1 to 12 moduli of any size up to 62 bits, all integers",
  "Tests use small fixed lists.", [M+"rns/mod.rs"], [("CRT", M+"rns/mod.rs RnsContext::{new,project,lift,get_garner}")])
p("M04", "RNS scaling equals exact rounding of the rational multiple",
  "Scaling an integer in residue form by any rational factor into any target basis yields the residues of the centred integer times the factor, correctly rounded (to either neighbour only within the documented precision of an exact tie), for every source and target basis, starting offset and size; a factor of one converts the basis exactly.",
  ["inputs", "configurations"], "source and target bases of any sizes, shared or disjoint moduli, factors larger and smaller than one, integers on and around rounding and sign boundaries",
  "Tests sample uniformly random inputs for a few factors; uniformly random values are astronomically far from the rounding boundaries where fixed-point errors show.",
  [M+"rns/scaler.rs", M+"rq/scaler.rs"], [("fixed-point scaling", M+"rns/scaler.rs RnsScaler::scale")])
p("M05", "Polynomials implement the cyclotomic ring in every representation",
  "Polynomials form the ring Z_Q[x]/(x^n+1): every sum, difference, negation, product, scalar product and dot product, in every representation and in owned, borrowed and in-place forms, equals schoolbook arithmetic on big-integer coefficients, and converting between representations never changes the element.",
  ["inputs", "configurations"], "degrees, 1 to 6 moduli of mixed sizes, extreme and random coefficients, all representation and operator forms",
  "Existing property tests compare operations per modulus with random vectors for two fixed moduli lists and never against schoolbook ring arithmetic with extreme residues or long dot products.",
  [M+"rq/mod.rs", M+"rq/ops.rs"], [("ring operations", M+"rq/ops.rs"), ("representation change", M+"rq/mod.rs")])
p("M06", "Substitutions and monomial multiplications are exact automorphisms",
  "Substituting x by x^k for every odd k, in every representation, and multiplying by x^-i for every i, equals the operation on coefficients; substitutions compose and invert as exponents modulo twice the degree, and even exponents are rejected.",
  ["inputs", "configurations"], "all exponents and powers, degrees, modulus lists, representations",
  "Tests check a few exponents at degree 16.", [M+"rq/mod.rs"], [("substitution tables", M+"rq/mod.rs SubstitutionExponent, Poly::substitute, multiply_inverse_power_of_x")])
p("M07", "Polynomial modulus switching divides and rounds exactly",
  "Switching a polynomial down by one or several moduli equals dividing each coefficient by each dropped modulus in turn and rounding to nearest, navigation between levels of a context is consistent, and switching to a context that is not below the current one is rejected without change; general basis switches and scalings of polynomials equal coefficient-wise rounding.",
  ["inputs", "configurations"], "all contexts, levels, coefficients around rounding boundaries",
  "Tests use random coefficients and equal-size moduli.", [M+"rq/mod.rs", M+"rq/context.rs", M+"rq/scaler.rs"],
  [("switch down", M+"rq/mod.rs Poly::{switch_down,switch_down_to,switch,scale}"), ("context chain", M+"rq/context.rs")])
p("M08", "Polynomial conversions and wire format are faithful",
  "Building a polynomial from integers of any supported type represents exactly those integers modulo Q, extracting coefficients returns them, inputs of impossible shape are rejected, and serialising then reading back in a compatible context returns the identical polynomial, while bytes that do not describe a polynomial of that context are rejected without panicking.",
  ["inputs", "configurations"], "all input types (unsigned, signed, big integers, arrays), lengths, contexts, representations, mutated encodings",
  "Tests convert random short vectors in a few contexts.", [M+"rq/convert.rs", M+"rq/serialize.rs"],
  [("conversions", M+"rq/convert.rs"), ("wire format", M+"rq/serialize.rs")])
p("M09", "Variable-time permission never leaks to results that were not granted it",
  "Whether a polynomial may be processed in variable time has no effect on any result, and a result may be processed in variable time only if every operand explicitly allowed it; secret material and objects derived from it are never marked.",
  ["inputs", "histories"], "all operations and operand permission combinations, operation sequences",
  "Tests never compare the two settings on the same inputs nor look at the permission of results beyond one or two operators.",
  [M+"rq/mod.rs", M+"rq/ops.rs", M+"rq/convert.rs"], [("permission propagation", M+"rq/ops.rs, "+M+"rq/mod.rs")])
p("M10", "Samplers are well distributed and reproducible from their seed",
  "Small polynomials follow the centred binomial distribution of the requested variance (support, mean, variance, symmetry), uniform polynomials are uniform below each modulus, seeded sampling is a function of the seed and context alone and differs across seeds, and unsupported variances are rejected.",
  ["inputs", "configurations"], "all variances 1..=32 and beyond, sizes, contexts, seeds; statistics with fixed tolerances",
  "Tests check the variance for random sizes loosely and that two random polynomials differ.",
  ["crates/fhe-util/src/lib.rs", M+"rq/mod.rs", M+"zq/mod.rs"], [("binomial sampling", "crates/fhe-util/src/lib.rs sample_vec_cbd"), ("uniform sampling", M+"zq/mod.rs random_vec; "+M+"rq/mod.rs random_from_seed")])
p("M11", "Bit transcoding is lossless for every width",
  "Packing integers of any width up to 64 bits into bytes, or into integers of another width, and back returns the original integers; the packed length is the exact number of bits rounded up and the packing order is little-endian and canonical.",
  ["inputs"], "all widths 1..=64, all lengths, all values that fit the width",
  "Tests cover random vectors at widths where the values fill the width; the reference bit stream is never compared.",
  ["crates/fhe-util/src/lib.rs"], [("transcoding", "crates/fhe-util/src/lib.rs transcode_*")])
p("M12", "Primality, prime generation and number-theory helpers are correct",
  "The primality test agrees with mathematics on every 64-bit integer, prime generation returns the largest suitable prime below the bound with the requested size and congruence or nothing when there is none, and modular inverses exist exactly when coprime and satisfy their equation.",
  ["inputs"], "all 64-bit integers including strong pseudoprimes, squares and products of close primes; all sizes, bounds and congruences",
  "Tests use a table of small primes and a few sizes.",
  ["crates/fhe-util/src/lib.rs", M+"zq/primes.rs"], [("helpers", "crates/fhe-util/src/lib.rs is_prime, inverse; "+M+"zq/primes.rs generate_prime")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
