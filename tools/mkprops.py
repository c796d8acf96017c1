#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if obs:a["observe_at"]=[obs]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","CKKS evaluator operations compute the slot-wise arithmetic they name",
"For every sequence of CKKS evaluator calls (add, subtract, negate, add/multiply by a constant, multiply by i or 1/i, multiply by a power of two, plaintext and ciphertext products with or without relinearization, multiply-and-accumulate, power of two, scale-up, rescale, level drop, relinearization, key switching), decrypting and decoding any result gives, up to the scheme's small error, the same arithmetic applied slot by slot to the operands' values. This holds for ciphertext and plaintext operands of any level, scale and degree the call accepts, for results written to a fresh receiver, to an operand or to a receiver that already held something else, and in the standard and the conjugate-invariant ring.",
["histories","inputs","configurations"],
"all finite sequences of evaluator calls over a pool of ciphertexts/plaintexts; all slot values within range; all levels, scales, degrees 0..2; all parameter sets (number and size of primes, ring type)",
"package ckks has no tests at all; fckks/rlwe tests exercise one fixed call each on one random vector, never sequences, mixed levels/scales/degrees or receiver aliasing",
["ckks/evaluator.go","ckks/ckks_vector_ops.go","rlwe/keyswitch.go"],
[("addition/subtraction with scale and degree matching","ckks/evaluator.go evaluateInPlace"),("products","ckks/evaluator.go mulRelin, mulRelinAndAdd"),("constants","ckks/evaluator.go AddConst, MultByConst, MultByConstAndAdd, MultByGaussianInteger"),("key switching","rlwe/keyswitch.go SwitchKeysInPlace")],
[("slots","the vector of complex values a ciphertext stands for")],"decrypt+decode of every live ciphertext after every call")

p("C02","Level, scale and degree of every CKKS result follow the operation's rules",
"After every CKKS evaluator call the result's recorded level, scale and degree are those the operation implies: the level of a result never exceeds the lowest operand level, products multiply scales, sums of operands with equal scales keep that scale, ciphertext products without relinearization have degree two and with relinearization degree one, and dropping levels lowers the level by exactly that amount. Rescaling divides the scale by exactly the primes it removes, removes as many as keep the scale at or above half the requested minimum without ever going below level zero, and returns an error leaving the input unchanged when the ciphertext is already at level zero, the requested scale is not positive, or the operand's current scale is zero. The recorded scale is always the one under which the ciphertext decodes to the intended values.",
["histories","inputs","configurations"],
"all sequences of evaluator calls, all operand levels/scales, all requested rescale thresholds and modulus chains",
"no existing test reads the level or scale after more than one operation; rescale boundary conditions (level 0, tiny threshold, thresholds between primes) are never exercised",
["ckks/evaluator.go","ckks/ciphertext.go","rlwe/elements.go"],
[("rescale loop","ckks/evaluator.go Rescale"),("level/scale of results","ckks/evaluator.go getElemAndCheckBinary, evaluateInPlace, mulRelin"),("level drop","ckks/evaluator.go DropLevel")],
[("level, scale, degree","metadata recorded with each ciphertext")],"Ciphertext.Level(), ScalingFactor(), Degree() after every call")

p("C03","Rotations and conjugation act on slots as a group, hoisted or not",
"Rotating a ciphertext by k moves slot i+k to slot i cyclically in its slot vector for every integer k for which a key was generated (negative or larger than the slot count included), conjugation conjugates every slot, rotation by zero is the identity, and consecutive rotations compose additively. Rotating many amounts at once through a shared decomposition gives the same results as rotating one by one, at every level, for in-place and out-of-place receivers; in-place and out-of-place agree.",
["histories","inputs","configurations"],
"all rotation amounts and sequences of rotations/conjugations, all levels, sparse and full packing, all decomposition sizes (number of auxiliary primes)",
"package ckks has no tests; the fckks test rotates one full-level ciphertext by one fixed amount",
["ckks/evaluator.go","rlwe/keyswitch.go","rlwe/params.go","ring/ring_automorphism.go"],
[("rotate/conjugate","ckks/evaluator.go Rotate, Conjugate, permuteNTT"),("hoisted","ckks/evaluator.go RotateHoisted, PermuteNTTHoisted; rlwe/keyswitch.go KeyswitchHoisted"),("Galois element of a rotation","rlwe/params.go GaloisElementForColumnRotationBy, GaloisElementForRowRotation, InverseGaloisElement")],None,"decode of rotated ciphertexts")

p("C04","Evaluation never alters operands or keys, and never depends on past calls",
"An evaluator, encoder, encryptor or decryptor call changes nothing but its receiver: operands that are not the receiver, plaintexts, constants and keys keep every bit. The result is a function of the operands alone: repeating a deterministic call after any other history on the same object, into a fresh or used receiver or in place, gives an equal value.",
["histories","inputs"],
"all call sequences on a shared evaluator (shared scratch buffers), all receiver/operand aliasing patterns the API allows, all previous receiver contents",
"tests never compare operands before/after a call, never reuse a dirty receiver and never interleave different operations on one evaluator",
["ckks/evaluator.go","ckks/encoder.go","rlwe/encryptor.go","rlwe/decryptor.go","rlwe/keyswitch.go","ring/ring_operations.go"],
[("scratch buffers","ckks/evaluator.go evaluatorBuffers; rlwe/keyswitch.go keySwitcherBuffer; rlwe/encryptor.go encryptorBuffers"),("receiver writes","ckks/evaluator.go evaluateInPlace, mulRelin")],None,"bitwise hash of every operand, plaintext and key before/after each call; equality of repeated deterministic calls")

p("C05","Encoding then decoding returns the values, for every slot count and API variant",
"Encoding a vector of n values (n any power of two up to the slot count; shorter vectors are zero-padded) at any level and scale and decoding it returns the same values up to the rounding the scale implies, for complex and real inputs, slot and coefficient packing, standard and arbitrary-precision encoders, NTT and non-NTT plaintexts and both ring types. The encoded polynomial is the one whose canonical embedding, in the slot order on which rotations act, equals scale times the values, so encoding is additive and products of encodings decode to slot-wise products. Decoding is insensitive to what the plaintext receiver held before.",
["inputs","configurations","histories"],
"all vectors, all slot counts 1..N/2 (N for the conjugate-invariant ring), all levels and scales (including scales larger than a word), both ring types, any order of calls on one encoder",
"package ckks has no tests; fckks tests encode one full random vector at maximum level",
["ckks/encoder.go","ckks/utils.go","ckks/ckks_vector_ops.go","ckks/plaintext.go"],
[("embedding","ckks/encoder.go Encode, EncodeSlots, Embed, Decode, FFT/invFFT"),("rounding to residues","ckks/utils.go FloatToFixedPointCRT, Complex128ToFixedPointCRT, scaleUpVecExact"),("big precision","ckks/encoder.go encoderBigComplex")],None,"decoded vector; exact integer coefficients of the plaintext against a direct evaluation of the embedding")

p("C06","Decrypting an encryption returns the message, only under the right key",
"Encrypting any plaintext under a public or secret key, at any level and in either representation (NTT or coefficient), and decrypting with the matching secret key returns the plaintext up to an error bounded by the error distribution; encrypting with a shared reference polynomial returns a ciphertext using exactly that polynomial. Two encryptions of the same plaintext have independent randomness and differ, and decrypting with a different secret key does not return the message. The decrypted plaintext has the level of the lower of ciphertext and receiver, and carries the ciphertext's scale, in the representation of the receiver.",
["inputs","configurations","histories"],
"all messages, levels, ciphertext degrees up to two, representations, key types and sequences of encryptions with one encryptor; all parameter sets with or without auxiliary primes",
"tests encrypt the zero plaintext at one or two levels and check a coarse error size; messages, wrong keys, receivers of other degrees and reuse of encryptors are not exercised",
["rlwe/encryptor.go","rlwe/decryptor.go","ckks/encryptor.go","ckks/decryptor.go","frlwe/keygen.go","fckks/encryptor.go","fckks/decryptor.go"],
[("public-key encryption","rlwe/encryptor.go pkEncryptor.Encrypt, encrypt"),("secret-key encryption","rlwe/encryptor.go skEncryptor.Encrypt, EncryptFromCRP"),("decryption","rlwe/decryptor.go Decrypt")],None,"exact integer phase c0+c1 s(+c2 s^2) mod Q")

p("K01","Key switching re-encrypts the same message at every level",
"For every ciphertext level and every decomposition (any number of auxiliary primes, including a last digit with fewer primes than the others), switching a ciphertext with a switching key from secret a to secret b yields a ciphertext that decrypts under b to the same message up to an error that stays small relative to the modulus. Relinearizing a degree-two ciphertext yields a degree-one ciphertext with the same decryption. The direct and the hoisted (decompose once, then multiply) procedures give the same result.",
["inputs","configurations","histories"],
"all input polynomials and levels, all key pairs, all (number of primes, number of auxiliary primes) combinations, any sequence of switches",
"the rlwe tests switch a random polynomial at maximum level for a few fixed parameter sets",
["rlwe/keyswitch.go","rlwe/keygen.go","rlwe/params.go","ring/ring_basis_extension.go"],
[("gadget product","rlwe/keyswitch.go SwitchKeysInPlace, SwitchKeysInPlaceNoModDown, DecomposeSingleNTT"),("hoisted","rlwe/keyswitch.go DecomposeNTT, KeyswitchHoisted, KeyswitchHoistedNoModDown"),("relinearization","ckks/evaluator.go Relinearize")],None,"phase of the result under the target secret")

p("K02","Generated keys satisfy their defining relations at every modulus",
"A generated secret key has coefficients in {-1,0,1} with exactly the requested number of nonzeros when one is requested (and the requested distribution otherwise), and represents the same polynomial modulo every prime of Q and P. A public key is an encryption of zero under its secret key, and every row of every switching, relinearization, rotation and conjugation key is an encryption under the output secret of the input secret times that row's gadget factor, with error bounded by the error distribution. Rotation-key sets contain exactly the requested Galois elements (optionally conjugation), and every masked component is freshly random.",
["inputs","configurations"],
"all secret keys, distributions, rotation sets and parameter sets with or without auxiliary primes",
"tests check the rows of one switching key and one public key per parameter set through norms only; weights, uniqueness of masks and rotation-key contents are not checked",
["rlwe/keygen.go","rlwe/keys.go","frlwe/keygen.go","fckks/keygen.go","ckks/keys.go"],
[("secret keys","rlwe/keygen.go GenSecretKey, GenSecretKeyWithDistrib, GenSecretKeyWithHammingWeight"),("public keys","rlwe/keygen.go genPublicKey"),("switching keys","rlwe/keygen.go genSwitchingKey, GenRelinearizationKey, GenRotationKeys, GenSwitchingKeyForGalois")],None,"exact integer phase of every key row, mod Q and mod P")

p("K03","Ring-degree and ring-type switching preserve the message",
"Mapping a ciphertext to a ring of larger or smaller degree with the matching switching key turns X into the corresponding power of X and preserves the message's coefficients (all of them going up, the retained ones going down), in coefficient and NTT representation. Converting between the standard ring and the conjugate-invariant ring of half the degree with the generated pair of keys preserves the real slot values in both directions. Both leave the input ciphertext unchanged and overwrite the receiver entirely.",
["inputs","configurations","histories"],
"all messages, pairs of degrees, levels, representations and receiver contents",
"the rlwe test covers one pair of degrees at maximum level with a fresh receiver; the ring-type bridge has no test",
["rlwe/elements.go","rlwe/keygen.go","ring/conjugate_invariant.go","ckks/evaluator.go","ckks/ciphertext.go"],
[("degree switch","rlwe/elements.go SwitchCiphertextRingDegree, SwitchCiphertextRingDegreeNTT"),("ring switch keys","rlwe/keygen.go GenSwitchingKeysForRingSwap"),("folding","ring/conjugate_invariant.go FoldStandardToConjugateInvariant, UnfoldConjugateInvariantToStandard")],None,"phase under the target secret")

p("F01","The fast CKKS evaluator agrees with CKKS semantics at every level",
"The fast CKKS multiply-and-relinearize, rotate and switch-keys operations give the slot-wise product, the rotated slots and the same slots under the new key respectively, at every level of the operands, in place or into another receiver, in any sequence. Their level, scale and representation flags describe the result correctly, and operands and keys are left unchanged.",
["histories","inputs","configurations"],
"all slot vectors, levels, rotation amounts, sequences of operations and parameter sets (gadget sizes)",
"the fckks tests are excluded from the stable suite and call each operation once on full-level ciphertexts",
["fckks/evaluator.go","fckks/keygen.go","fckks/elements.go","frlwe/keyswitch.go"],
[("operations","fckks/evaluator.go MulRelinNew/MulRelin, Rotate, SwitchKeys"),("gadget product","frlwe/keyswitch.go SwitchKey, externalProduct"),("keys","frlwe/keygen.go GenRelinKey, GenRotKey")],None,"decrypt+decode after every call")

p("F02","The fast key switch multiplies by the gadget-encrypted value at every level",
"For every polynomial given to the fast key-switching procedure, at every level, the result decrypts to that polynomial times the value the key encrypts, up to an error that stays small relative to the modulus. The result is fully reduced, limbs above the level and all operands other than the receivers are untouched, and the relinearization and rotation keys generated for the procedure satisfy their defining relation, in every row, with the same small error modulo every prime of Q and P.",
["inputs","configurations","histories"],
"all input polynomials (including extreme residues), all levels, all gadget sizes and auxiliary moduli",
"one existing test at full level with one random polynomial and one parameter set",
["frlwe/keyswitch.go","frlwe/keygen.go","frlwe/params.go"],
[("decomposition into the auxiliary ring","frlwe/keyswitch.go SwitchKey"),("external product","frlwe/keyswitch.go externalProduct"),("key generation","frlwe/keygen.go GenRelinKey, GenRotKey, polyQPToPolyTs")],None,"exact integer phase of the result")

p("R01","The NTT is an exact ring isomorphism for both ring types and all variants",
"For every polynomial and every level, the inverse transform undoes the transform exactly, and transforming, multiplying coefficient-wise and transforming back is exactly the product modulo X^N+1 (or in the conjugate-invariant subring). Transformed values are the polynomial's evaluations at the primitive 2N-th (4N-th) roots of unity, each once. The lazy variants agree with the exact ones modulo each prime and stay within their documented range, single-limb variants agree with whole-polynomial ones, and the input is unmodified when the receiver differs.",
["inputs","configurations"],
"all polynomials including unreduced-range extremes accepted by the lazy variants, N from 16 up, all NTT-friendly primes up to 61 bits, both ring types",
"tests compare the transform with recorded vectors for two moduli and check products of one random pair; lazy ranges, extremes, levels and the conjugate-invariant transform are barely covered",
["ring/ring_ntt.go","ring/ring_ntt_interface.go","ring/ring.go","ring/conjugate_invariant.go"],
[("transforms","ring/ring_ntt.go NTT, NTTLazy, InvNTT, InvNTTLazy, NTTConjugateInvariant, InvNTTConjugateInvariant"),("twiddle tables","ring/ring.go genNTTParams")],None,"exact residues")

p("R02","Polynomial operations are exact in every residue and touch only their receiver",
"Every polynomial operation of the ring package (add, subtract, negate, reduce, coefficient-wise products with any reduction variant and accumulation, multiplication and addition of word-size and big-integer scalars, Montgomery form conversion, monomial products, shifts, CRT reconstruction and decomposition, copies, equality) gives the mathematically exact result modulo every prime up to the stated level. Limbs above the level and all operands other than the receiver are untouched, in-place calls agree with out-of-place ones, and results of the reducing variants are fully reduced (negation, monomial products and coefficient automorphisms may represent zero by q) while the lazy variants stay within their documented range.",
["inputs","configurations","histories"],
"all residues including 0, 1, q-1, all levels, all scalars in range, receiver equal to or different from operands, sequences of operations chaining lazy variants within their documented ranges",
"tests use random full-level polynomials and mostly compare two code paths of the library against each other",
["ring/ring_operations.go","ring/ring_vector_ops.go","ring/modular_reduction.go","ring/ring_poly.go","ring/ring.go"],
[("vector operations","ring/ring_vector_ops.go"),("level-restricted operations","ring/ring_operations.go *Lvl"),("modular reduction","ring/modular_reduction.go MRed, BRed, CRed, ModExp"),("CRT","ring/ring.go PolyToBigint, SetCoefficientsBigint")],None,"exact integers reconstructed from residues")

p("R03","Galois automorphisms act exactly, identically in both representations",
"Applying the automorphism X to X^g in coefficient representation, or permuting a transformed polynomial for g, gives exactly the image of the polynomial for every odd g, at every level, in the standard ring. Automorphisms compose multiplicatively, the inverse element undoes an automorphism, and rotation amounts correspond to powers of five with conjugation as minus one. In the conjugate-invariant ring the same holds for the powers of five, the elements its rotations use.",
["inputs","configurations","histories"],
"all polynomials, all odd g modulo 2N, all compositions, all levels",
"no direct test of composition or of agreement between representations; only one element is used indirectly",
["ring/ring_automorphism.go","rlwe/params.go"],
[("coefficient permutation","ring/ring_automorphism.go Permute"),("transformed permutation","ring/ring_automorphism.go PermuteNTT, PermuteNTTIndex, PermuteNTTWithIndexLvl, PermuteNTTWithIndexAndAddNoModLvl"),("Galois elements","rlwe/params.go")],None,"exact residues")

p("R04","RNS basis extension, modulus reduction and digit decomposition are exact",
"Extending a polynomial from one modulus basis to another gives, at every pair of levels, the residues of one and the same integer congruent to it, namely the representative in [0,Q) (up to plus or minus Q when it lies within about Q/2^50 of a multiple of Q, where the code works in floating point). Dividing by the auxiliary modulus gives the integer within one unit of the exact quotient, in coefficient and NTT representation and in both directions, and the digit decomposition recombines with the gadget factors to the original polynomial modulo Q with every digit's residues consistent across all moduli.",
["inputs","configurations"],
"all integers modulo Q (with a floating-point rounding ambiguity only at the very edge of the interval), all level pairs, all sizes of bases",
"tests check one random polynomial per parameter set at maximum levels",
["ring/ring_basis_extension.go","rlwe/keyswitch.go"],
[("extension","ring/ring_basis_extension.go ModUpQtoP, ModUpPtoQ, modUpExact"),("reduction","ring/ring_basis_extension.go ModDownQPtoQ, ModDownQPtoQNTT, ModDownQPtoP"),("decomposition","ring/ring_basis_extension.go Decomposer.DecomposeAndSplit")],None,"exact integers reconstructed from residues")

p("R05","Division by dropped primes and modulus scaling round exactly as named",
"Dividing a polynomial by its last modulus, once or several times, in coefficient or NTT representation, returns exactly the floor (floor variants) or the nearest integer (rounding variants) of each coefficient's quotient modulo the remaining primes, on the remaining limbs, and leaves an operand that is not the receiver unchanged. The scaling of a polynomial by t/Q returns the nearest integer modulo t.",
["inputs","configurations","histories"],
"all polynomials including coefficients near rounding boundaries, all levels and numbers of divisions, moduli of mixed sizes",
"tests use a few random coefficients at maximum level and one number of divisions",
["ring/ring_scaling.go"],
[("division","ring/ring_scaling.go DivFloorByLastModulus*, DivRoundByLastModulus*, *Many*"),("scaling by t/Q","ring/ring_scaling.go SimpleScaler, RNSScaler")],None,"exact integers reconstructed from residues")

p("R06","Samplers and the keyed generator keep their range, weight and reproducibility",
"Uniform samples are fully reduced modulo every prime; ternary samples are in {-1,0,1} with exactly the requested weight when one is set and otherwise follow the requested density with unbiased signs, and Gaussian samples follow the requested deviation and never exceed the requested bound; coefficients do not depend on one another, all words are reduced (also where the bound exceeds a modulus), and every sample represents the same small integer polynomial modulo every prime of the level, and limbs above the level are untouched. The keyed generator is a deterministic function of its key and the number of bytes drawn, distinct keys give distinct streams, and advancing the clock is the same as drawing that many times; hence samplers with the same key reproduce the same polynomials.",
["inputs","configurations","histories"],
"all keys, levels, densities, weights, deviations and bounds; any sequence of draws/clock settings/samples (read, read-new, read-and-add at any level)",
"tests draw one sample per distribution at full level and check coarse statistics",
["ring/ring_sampler_uniform.go","ring/ring_sampler_ternary.go","ring/ring_sampler_gaussian.go","utils/prng.go"],
[("uniform","ring/ring_sampler_uniform.go"),("ternary","ring/ring_sampler_ternary.go"),("gaussian","ring/ring_sampler_gaussian.go"),("keyed generator","utils/prng.go KeyedPRNG")],None,"sampled residues")

p("R07","Prime generation returns distinct NTT-friendly primes of the requested size",
"Generating NTT primes of a given bit size for a ring degree returns the requested number of distinct primes, each prime, congruent to one modulo the ring's NTT order and taken closest to the requested power of two (above it, below it or on both sides, as the function says), and parameter generation from bit sizes yields pairwise distinct Q and P primes taken in that order. The next and previous NTT primes are the nearest ones above and below, and running out of primes is an error and never a wrong value. Modular exponentiation, modular and integer helpers, and primitive roots computed for those primes are exact.",
["inputs","configurations"],
"all bit sizes up to 61, all ring degrees, all requested counts",
"tests check a single size and degree",
["ring/primes.go","ring/utils.go","ring/modular_reduction.go","rlwe/params.go","utils/utils.go"],
[("prime generation","ring/primes.go GenerateNTTPrimes, GenerateNTTPrimesP, GenerateNTTPrimesQ, NextNTTPrime, PreviousNTTPrime"),("parameter generation","rlwe/params.go genModuli, GenModuli"),("roots","ring/ring.go primitiveRoot, ring/utils.go")],None,"returned primes")

p("S01","Serialization, copies and equality are faithful for every object",
"Serializing any polynomial, ciphertext, secret, public, relinearization, rotation or switching key or ring and deserializing it gives an equal object (all residues, flags, level, degree and scale included; parts that were absent stay absent), whatever the receiver held before, and the announced length equals the number of bytes written. Serializing does not change the object, equal objects have equal encodings, and serializing the deserialized object gives the same bytes. An encoding cut short is never taken for a whole object (rotation keys cut between two keys give those before), even if the rest of it still lies behind in the same buffer, and ciphertexts refuse bytes that follow them. Deep copies equal their originals and share nothing with them, comparisons report equality exactly when all residues agree (an absent object equals only an absent one), and buffers return words in the order they were written.",
["inputs","configurations","histories"],
"all serializable objects of every degree, level and representation, with and without auxiliary primes, and any previous receiver content",
"tests round-trip fresh full-level objects into fresh receivers only; ckks objects have no test",
["rlwe/marshaler.go","ring/ring_poly.go","ring/ring.go","rlwe/ring_qp.go","rlwe/keys.go","ckks/ciphertext.go","utils/buffer.go"],
[("polynomials","ring/ring_poly.go MarshalBinary, UnmarshalBinary, WriteTo, WriteTo32, DecodePolyNew, DecodePolyNew32"),("keys and ciphertexts","rlwe/marshaler.go; rlwe/ring_qp.go WriteTo, DecodePolyNew"),("ckks ciphertexts","ckks/ciphertext.go"),("copies and equality","rlwe/keys.go; ring/ring_poly.go"),("rings","ring/ring.go MarshalBinary, UnmarshalBinary")],None,"bytes and decoded objects")

p("P01","Parameter sets are validated, and survive encoding and comparison",
"Creating parameters from a literal succeeds exactly when the literal describes a usable set (degree in range, non-empty Q, primes of the allowed size congruent to one modulo the NTT order, not both or neither of the two ways to give Q, slots within the ring) and otherwise returns an error. Accepted parameters report the degree, primes, products, bit sizes, slot counts, Galois elements, the rotations needed for inner sums, replication and traces, and level bounds of the literal, compare equal exactly when they describe the same set, and binary and JSON encodings reproduce an equal set, while a malformed or truncated encoding is refused with an error.",
["inputs","configurations"],
"all literals, valid and invalid, explicit or generated primes, both ring types",
"tests construct a handful of valid literals and round-trip only those",
["rlwe/params.go","ckks/params.go","frlwe/params.go","fckks/params.go"],
[("validation","rlwe/params.go NewParameters, NewParametersFromLiteral, checkModuliLogSize, checkSizeParams"),("ckks parameters","ckks/params.go NewParametersFromLiteral"),("encodings","rlwe/params.go MarshalBinary, UnmarshalBinary, MarshalJSON, UnmarshalJSON; ckks/params.go")],None,"accessors, error returns")

p("T01","Shallow copies work concurrently and independently of their originals",
"A shallow copy of an encoder, encryptor, decryptor, key switcher or basis extender, and separate evaluators (and objects of the fast scheme) over the same parameters and keys, used from another goroutine at the same time as the original or other copies, give exactly what they would give alone. Interleaving calls on copies in any order never changes any result, and a copy bound to another key uses that key only while the original keeps its own.",
["schedules","histories"],
"all interleavings of calls on an object and its copies, all call mixes, any number of goroutines",
"no test uses copies at all, concurrently or not",
["ckks/encoder.go","ckks/encryptor.go","ckks/decryptor.go","ckks/evaluator.go","rlwe/encryptor.go","rlwe/decryptor.go","rlwe/keyswitch.go","ring/ring_basis_extension.go","fckks/evaluator.go"],
[("encoder copies","ckks/encoder.go ShallowCopy"),("separate evaluators","ckks/evaluator.go NewEvaluator; fckks/evaluator.go NewEvaluator"),("encryptor/decryptor copies","rlwe/encryptor.go ShallowCopy, WithKey; rlwe/decryptor.go ShallowCopy, WithKey"),("scratch sharing","rlwe/keyswitch.go ShallowCopy; ring/ring_basis_extension.go ShallowCopy")],None,"results of concurrently run operations; data races on shared buffers")

p("M01","No operation touches memory outside its operands and its own buffers",
"The arithmetic works on blocks of eight or sixteen words through unchecked pointers. For every accepted ring degree, number of slots, number of moduli, level and number of digits, no call reads or writes memory beyond the polynomials, tables, keys and scratch buffers it was given or owns, and no such call crashes on valid operands.",
["inputs","configurations"],
"all accepted parameter sets down to the smallest ring degree, all slot counts, levels and operand shapes, for every operation of the ring, basis extension, encoder, encryption, evaluation and key switching",
"tests use large degrees where a block never reaches the end of a buffer, and a stray write is silent",
["ring/ring_vector_ops.go","ring/ring_ntt.go","ring/ring_basis_extension.go","ring/ring_scaling.go","ring/ring_automorphism.go","ckks/ckks_vector_ops.go","ckks/encoder.go"],
[("vector loops","ring/ring_vector_ops.go"),("transforms","ring/ring_ntt.go; ckks/ckks_vector_ops.go SpecialFFTUL8Vec, SpecialiFFTUL8Vec, DivideComplex128SliceVec"),("basis extension","ring/ring_basis_extension.go multSum, modUpExact"),("permutation","ring/ring_automorphism.go PermuteNTTWithIndexLvl")],None,"bounds of the memory reached")

p("E01","Impossible requests are refused, and a refused request changes nothing",
"A request outside what the scheme can carry out is refused, by an error where the call returns one and by a panic elsewhere, never answered with some other result. Such are: sums and products of two plaintexts, of a missing operand, of one outside the NTT domain, into a receiver of too small a degree, products whose degree exceeds two, relinearization of another degree than two, rotation, conjugation and key switching (in the fast scheme too) of another degree than one, any of these without its key, complex operations, conjugation and conjugation keys in the conjugate-invariant ring, constants of a type not accepted, rescaling at level zero, by a scale that is not positive or into another degree or level, setting the scale of a ciphertext of level zero, dropping more levels than there are, encoding more values than slots, a number of slots that does not exist, values or targets of an unknown type, encryptors and decryptors for keys of another ring degree or type, encryption with a given mask under a public key, key generation without auxiliary primes, and maps between rings whose degrees do not fit. A refused request leaves operands, receiver, keys and polynomials as they were, in every word, level, degree, scale and flag, and the object asked goes on giving the results of one never asked. Requests that can be carried out are not refused.",
["inputs","histories","configurations"],
"all calls with any operands, possible or not: every combination of degree, level, representation, key and type, at any point of any sequence of calls on one evaluator, encoder, encryptor, decryptor or key generator",
"tests make possible requests only; no test expects a panic or an error",
["ckks/evaluator.go","ckks/encoder.go","rlwe/encryptor.go","rlwe/decryptor.go","rlwe/keygen.go","rlwe/params.go","ring/conjugate_invariant.go","fckks/evaluator.go","frlwe/keyswitch.go"],
[("operand checks","ckks/evaluator.go getElemAndCheckBinary, checkBinary, mulRelin, mulRelinAndAdd, Relinearize, Rotate, Conjugate, SwitchKeys, Rescale, SetScale"),("keys","rlwe/encryptor.go setKey; rlwe/decryptor.go NewDecryptor, WithKey; rlwe/keygen.go"),("encoder","ckks/encoder.go Embed, EncodeCoeffs, Decode"),("fast scheme","fckks/evaluator.go; frlwe/keyswitch.go SwitchKey")],None,"panic or error of the call; words and metadata of everything it was given, and a probe of the object, afterwards")

with open("/verif/properties.jsonl","w") as f:
    for x in P:f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
