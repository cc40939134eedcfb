#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that anchors stay readable)."""
import json, os
R="Reference_Implementation_KEM/"; A="AVX_Implementation_KEM/"; U="Variants/uSaber-90s/ref/"; V="Variants/uSaber-90s/avx2/"; X="Variants/SaberX4_avx2/"
M0="Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/"; M4="Cortex-M_Implementation_KEM/Cortex-M4/src/"
P=[]
def p(id,title,st,over,q,why,files,mech,**kw):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]); a.update(kw)
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=a))

p("S01","Decapsulating an honest ciphertext returns the encapsulated key",
  "For every key pair an implementation generates and every ciphertext it encapsulates to that public key, decapsulation with the matching secret key returns success and exactly the key that encapsulation returned. This holds for every parameter set (Light/Saber/Fire, uniform-secret and 90s variants), in any order of operations and with many keys and ciphertexts alive at once, except for the (cryptographically negligible) decryption failures that the scheme's own arithmetic predicts.",
  ["inputs","histories","configurations"],"all randomness, all interleavings of key generations, encapsulations and decapsulations, all 25 host configurations",
  "The known-answer tests fix 100 seeds per configuration and always run keygen, encapsulate, decapsulate in that order with one key alive; the four-way batched code has no known answers at all.",
  [R+"kem.c",A+"kem.c",U+"kem.c",V+"kem.c",X+"kem4x.c",R+"SABER_indcpa.c"],
  [("Fujisaki-Okamoto transform: derive message and coins, re-encrypt, compare, select",R+"kem.c"),("reconciliation constants h1/h2",R+"SABER_indcpa.c")],
  observe_at=["crypto_kem_keypair/enc/dec"])
p("S02","Every tampered ciphertext is implicitly rejected",
  "Decapsulating a ciphertext that is not exactly the re-encryption of its own decryption returns success and the pseudorandom key obtained by hashing the secret key's rejection value together with the hash of the entire ciphertext, never the key of any honest encapsulation. This holds wherever and however the ciphertext differs (any single bit, any byte range, truncated-to-zero, foreign or random ciphertexts), and the same ciphertext always gets the same rejection key.",
  ["inputs","histories","configurations"],"every ciphertext byte string that is not the honest re-encryption; every key; every configuration",
  "No existing test ever decapsulates a modified ciphertext: comparison, selection and rejection value can be broken without any test noticing.",
  [R+"kem.c",R+"verify.c",A+"kem.c",A+"verify.c",U+"kem.c",U+"verify.c",V+"kem.c",V+"verify.c",X+"kem4x.c",X+"verify.c"],
  [("constant-time comparison over the full ciphertext",R+"verify.c"),("conditional move of z over the pre-key",R+"verify.c"),("final hash over pre-key and H(ct)",R+"kem.c")],
  observe_at=["crypto_kem_dec"])
p("S03","Decapsulation is exact for every secret key and ciphertext byte string",
  "Decapsulation is a total, deterministic function of its two byte-string arguments: for any secret key of the right length (including coefficients outside the sampled range, a stored public key or stored hash that does not match, any rejection value) and any ciphertext it terminates, returns success and yields exactly the key the scheme's definition assigns to these bytes.",
  ["inputs","configurations"],"all secret-key and ciphertext byte strings of the documented lengths",
  "Tests only use secret keys made by key generation and ciphertexts made by encapsulation, i.e. coefficients in [-5,5] and consistent embedded values.",
  [R+"kem.c",R+"SABER_indcpa.c",R+"pack_unpack.c",R+"poly_mul.c",A+"SABER_indcpa.c",A+"pack_unpack.c",X+"SABER_indcpa.c",U+"pack_unpack.c",V+"SABER_indcpa.c"],
  [("unpacking of full-width secret coefficients",R+"pack_unpack.c"),("inner product modulo p",R+"poly.c"),("stored H(pk) used as multi-target salt",R+"kem.c")],
  observe_at=["crypto_kem_dec","indcpa_kem_dec"])
p("S04","Encapsulation is an exact function of the public key bytes and 32 random bytes",
  "Encapsulation draws exactly 32 random bytes, hashes them into the message, derives key material and coins from that message and the hash of the complete public key, and outputs the ciphertext and key that the scheme's definition assigns to these bytes. This holds for every public-key byte string, honest or not; distinct public keys or draws are bound into the resulting key.",
  ["inputs","configurations"],"all public-key byte strings and all 32-byte draws",
  "Known answers exercise only honestly generated public keys for 100 seeds.",
  [R+"kem.c",R+"SABER_indcpa.c",A+"kem.c",A+"SABER_indcpa.c",U+"kem.c",V+"kem.c",X+"kem4x.c",X+"SABER_indcpa.c"],
  [("hashing of RNG output, H(pk) and coins",R+"kem.c"),("public-key encryption with rounding",R+"SABER_indcpa.c")],
  observe_at=["crypto_kem_enc","indcpa_kem_enc"])
p("S05","Key generation is an exact function of its randomness, with a fixed layout",
  "Key generation consumes exactly three 32-byte draws in a fixed order (matrix seed, secret seed, rejection value), never publishes the raw matrix-seed draw but its hash, and outputs exactly the public key and secret key the scheme's definition assigns to those draws. The secret key is always the packed secret vector, the byte-identical public key, the hash of that public key and the untouched rejection value.",
  ["inputs","configurations"],"all 96 bytes of randomness",
  "100 seeds per configuration; the batched implementation's key pairs are never compared to anything.",
  [R+"kem.c",R+"SABER_indcpa.c",R+"poly.c",A+"SABER_indcpa.c",U+"SABER_indcpa.c",V+"SABER_indcpa.c",X+"kem4x.c",X+"SABER_indcpa.c"],
  [("seed hashing, matrix expansion, A^T s with rounding",R+"SABER_indcpa.c"),("secret-key assembly",R+"kem.c")],
  observe_at=["crypto_kem_keypair","randombytes"])
p("S06","All implementations of a parameter set interoperate",
  "Public keys, secret keys and ciphertexts produced by any implementation of a parameter set (reference, AVX2, the variants' reference and AVX2 code, each lane of the four-way code) can be used by any other implementation of the same parameter set and give the same shared key, for honest as well as for rejected ciphertexts. From the same random input all of them output byte-identical keys and ciphertexts, while different parameter sets never silently agree.",
  ["inputs","configurations","histories"],"all pairs of implementations of a parameter set, all randomness, honest and tampered ciphertexts",
  "Each implementation is only tested alone, and only on honest ciphertexts; the batched code is never compared to another implementation.",
  [R+"SABER_params.h",A+"SABER_params.h",U+"SABER_params.h",V+"SABER_params.h",X+"SABER_params.h",R+"pack_unpack.c",A+"pack_unpack.c",X+"pack_unpack.c"],
  [("common wire format",R+"pack_unpack.c"),("vectorised packing",A+"pack_unpack.c")],
  observe_at=["crypto_kem_keypair/enc/dec across configurations"])
p("S07","Polynomial products are exact for all operands",
  "Every multiplication the library performs (single product, accumulated inner product, matrix-vector product in both orientations) equals schoolbook multiplication in Z[x]/(x^256+1) modulo the modulus in use. It does so for every pair of operands, including maximal, sparse, constant and non-reduced coefficients, not only for one uniform and one small operand.",
  ["inputs","configurations"],"all operand polynomials with coefficients up to the modulus (any 13-bit values), all vectors and matrices",
  "Known answers multiply uniform by very small coefficients only; carries and lost bits in the interpolation of large operands are not reached.",
  [R+"poly_mul.c",R+"poly.c",A+"polymul/toom-cook_4way.c",U+"poly_mul.c",V+"polymul/toom-cook_4way.c",X+"polymul/toom-cook_4way.c"],
  [("Toom-Cook-4 evaluation/interpolation with Karatsuba below",R+"poly_mul.c"),("vectorised Toom-Cook with batched schoolbook",A+"polymul/toom-cook_4way.c")],
  observe_at=["poly_mul_acc / toom_cook_4way_avx / inner products","indcpa_kem_enc/dec"])
p("S08","Serialization is lossless and canonical at every coefficient width",
  "Packing any polynomial or vector whose coefficients fit the width (1, 3, 4, 6, 10, 12 or 13 bits) and unpacking it returns the same coefficients, unpacking any byte string and packing it returns the same bytes, and bit i of the little-endian bit string is always bit i mod w of coefficient i div w. Packing of key and ciphertext coefficients ignores bits above the width, and every function touches exactly the documented number of bytes.",
  ["inputs","configurations"],"all coefficient vectors and all byte strings",
  "Tests only see packed values that honest runs produce, and never check the length or the bits above the width.",
  [R+"pack_unpack.c",A+"pack_unpack.c",U+"pack_unpack.c",V+"pack_unpack.c",X+"pack_unpack.c"],
  [("hand-unrolled shifts and masks per width",R+"pack_unpack.c"),("SIMD packing",A+"pack_unpack.c")],
  observe_at=["POLT2BS/BS2POLT, POLVECq/p, POLmsg functions"])
p("S09","Secrets follow the centred binomial (or uniform) map of every byte string",
  "Secret expansion maps its 32-byte seed through the extendable-output function of the variant and turns consecutive groups of bits into coefficients by the exact difference of two popcounts (or the two-bit two's-complement value for uniform-secret variants), coefficient by coefficient and polynomial by polynomial. This is true for every byte string, so coefficients never leave [-mu/2, mu/2] and their distribution is exactly the specified one.",
  ["inputs","configurations"],"all noise byte strings, all seeds",
  "Known answers never look at the sampler itself and cover only expansions of 200 seeds per configuration.",
  [R+"cbd.c",R+"poly.c",A+"cbd.c",U+"cbd.c",U+"poly.c",V+"cbd.c",X+"cbd.c"],
  [("masked popcount additions",R+"cbd.c"),("seed expansion",R+"poly.c")],
  observe_at=["cbd","GenSecret"])
p("S10","SHA3, SHAKE128 and cSHAKE128 are correct for every input and output length",
  "The hash and extendable-output functions return the FIPS 202 digest for every message length (including empty, one below, at and above every multiple of the block size) and, for SHAKE128, every output length; output is a prefix of any longer output, input and output may be the same buffer, and exactly the requested bytes are written. The four-way variants give in each lane what the single function gives. Where cSHAKE128 with a two-byte customisation string is offered, it is SP 800-185's for every string, message and length.",
  ["inputs","configurations"],"all message contents and lengths, all output lengths",
  "The KEM calls these functions with a handful of fixed lengths, and no test calls them directly.",
  [R+"fips202.c",A+"fips202.c",U+"fips202.c",V+"fips202.c",X+"fips202.c",X+"fips202x4.c"],
  [("absorb/pad/squeeze",R+"fips202.c"),("four-way sponge",X+"fips202x4.c")],
  observe_at=["sha3_256","sha3_512","shake128","shake128_4x"])
p("S11","SHA-256 and SHA-512 of the 90s variant are correct for every message length",
  "The hash functions of the 90s variant return the FIPS 180-4 digest for every message and every length, including empty input and all lengths around the padding and block boundaries, write exactly 32 or 64 bytes, and accept input and output in the same buffer.",
  ["inputs","configurations"],"all messages, all lengths",
  "The KEM hashes a few fixed lengths; padding boundaries are never reached.",
  [U+"sha256.c",U+"sha512.c",U+"sha2.h"],
  [("Merkle-Damgard padding and block loop",U+"sha256.c"),("64-bit variant",U+"sha512.c")],
  observe_at=["sha256","sha512"])
p("S12","The AES-256-CTR expansion is correct for every key, nonce and length",
  "The AES-256 counter-mode expansion used by the 90s variant returns the exact keystream (12-byte nonce, 32-bit big-endian block counter from zero) for every key, nonce and output length including zero and non-multiples of the block size, writes exactly the requested bytes, and incremental generation in blocks yields the same stream as one call. The AES-NI stream function, which takes the complete 16-byte initial counter block, yields the same stream and carries its counter as one 128-bit big-endian integer.",
  ["inputs","histories","configurations"],"all keys, nonces, lengths and splits of a stream into block requests",
  "The KEM always uses an all-zero nonce, one call per key and three or four fixed lengths; incremental interfaces are never used.",
  [U+"aes256ctr.c",V+"crypto_stream_aes256ctr.c",U+"poly.c"],
  [("bitsliced AES with counter handling",U+"aes256ctr.c"),("AES-NI with eight-block batches and tail handling",V+"crypto_stream_aes256ctr.c")],
  observe_at=["aes256ctr_prf/init/squeezeblocks","crypto_stream_aes256ctr"])
p("S13","The deterministic random generator follows AES-256-CTR-DRBG over every history",
  "For every seed, optional personalization string and every sequence of requests of arbitrary lengths (zero, short, non-multiples of 16, long), the generator returns success and exactly the bytes of the NIST AES-256-CTR-DRBG without derivation function; its internal state is replaced after every request, re-initialisation restarts the same stream, and exactly the requested bytes are written. The four-way library's one initialisation seeds its five generators (randombytes, randombytes0 to randombytes3) alike, and each then runs on its own: no generator's requests influence another's bytes.",
  ["inputs","histories"],"all seeds, personalization strings and request sequences, including counter carries across byte boundaries",
  "Known-answer runs only use requests of 32 and 48 bytes without personalization; tails, empty requests and multi-byte counter carries are never exercised.",
  [R+"rng.c",A+"rng.c",U+"rng.c",V+"rng.c",X+"rng.c"],
  [("counter increment with carry, block copy, state update",R+"rng.c")],
  state=[dict(name="generator state",meaning="AES key and counter block",where=R+"rng.c")],
  observe_at=["randombytes_init","randombytes","randombytes0 .. randombytes3 (SaberX4)"])
p("S14","The seed expander enforces its length budget and streams consistently",
  "Initialisation refuses a maximum of 2^32 bytes or more; a request with no output buffer, or that is not strictly smaller than the remaining budget, is refused with its own error code and changes nothing; every other request succeeds. The concatenation of all successful outputs is the AES-256 counter keystream of seed, diversifier and budget, regardless of how it is cut into requests, and independent contexts never influence each other.",
  ["inputs","histories"],"all seeds, diversifiers, budgets and request sequences, with failed requests and several contexts interleaved",
  "No test calls the seed expander.",
  [R+"rng.c",A+"rng.c",U+"rng.c",V+"rng.c",X+"rng.c"],
  [("budget check and buffered block generation",R+"rng.c")],
  state=[dict(name="expander context",meaning="buffer, position, remaining budget, key, counter",where=R+"rng.h")],
  observe_at=["seedexpander_init","seedexpander"])
p("S15","The four-way batched KEM is four independent instances of Saber",
  "Each lane of the batched implementation behaves exactly as an independent single Saber instance fed with that lane's inputs and random bytes (drawn lane by lane, in the single instance's order). No lane's public key, ciphertext, secret key or rejection affects another lane, in particular when some lanes carry tampered ciphertexts and others honest ones.",
  ["inputs","histories"],"all contents of the four lanes, all subsets of tampered lanes, all lane permutations",
  "The only test decapsulates four honest ciphertexts; no known answers exist for this implementation.",
  [X+"kem.c",X+"kem4x.c",X+"SABER_indcpa.c",X+"pack_unpack.c",X+"fips202x4.c",X+"cbd.c"],
  [("per-lane comparison and selection",X+"kem4x.c"),("lane interleaving in SIMD packing",X+"pack_unpack.c")],
  observe_at=["crypto_kem_keypair/enc/dec of the batched API"])
p("S16","KEM calls write only their outputs and never modify their inputs",
  "Key generation, encapsulation and decapsulation write every byte of their output buffers and not one byte outside them, never modify the public key, secret key or ciphertext passed in, do not read outside them, and give the same result whatever the buffers contained before and whatever their address alignment.",
  ["inputs","configurations"],"all inputs, all buffer alignments and prior contents, honest and tampered ciphertexts",
  "Tests use a few stack or static arrays whose neighbourhood and prior content nobody inspects.",
  [R+"kem.c",R+"pack_unpack.c",A+"kem.c",A+"pack_unpack.c",U+"kem.c",V+"kem.c",X+"kem.c",X+"pack_unpack.c"],
  [("length constants of keys and ciphertexts",R+"SABER_params.h"),("byte-exact packing",R+"pack_unpack.c")],
  observe_at=["crypto_kem_keypair/enc/dec with guarded, misaligned buffers"])
p("S17","Results do not depend on earlier calls",
  "The result of each KEM operation depends only on its arguments and on the random bytes it draws: for every history of earlier operations (other keys, tampered ciphertexts, repeated or reordered calls, interleaved generator re-initialisations) it is the same as when the operation is the first one executed in a fresh process.",
  ["histories","inputs","configurations"],"all histories of API calls",
  "Tests run one fixed call order and never repeat a call after a failure.",
  [R+"kem.c",A+"SABER_indcpa.c",A+"polymul/toom-cook_4way.c",V+"SABER_indcpa.c",X+"SABER_indcpa.c",R+"poly_mul.c"],
  [("global masks/constants re-initialised per call",A+"SABER_indcpa.c"),("no persistent scratch state",R+"poly_mul.c")],
  observe_at=["crypto_kem_* sequences"])
p("S18","Concurrent decapsulations and re-encryptions do not disturb each other",
  "Any number of threads may decapsulate at the same time, with equal or different keys, honest or tampered ciphertexts: each call returns the key it would return when run alone, under every schedule.",
  ["schedules","inputs","configurations"],"all interleavings of decapsulation calls in any number of threads",
  "All tests are single-threaded.",
  [R+"kem.c",R+"poly_mul.c",A+"kem.c",A+"polymul/toom-cook_4way.c",U+"kem.c",V+"kem.c",X+"kem4x.c"],
  [("stack-allocated scratch space; globals hold constants only",A+"SABER_indcpa.c")],
  observe_at=["crypto_kem_dec from several threads"])
p("S19","Branches and memory addresses do not depend on secrets",
  "For fixed public inputs, the sequence of executed instructions and of accessed memory addresses of key generation, encapsulation and decapsulation is the same whatever the secret values are: secret key, random draws, message, rejection value, and whether (or at which byte) a ciphertext is rejected.",
  ["inputs","configurations"],"all pairs of secrets sharing the same public data",
  "Timing behaviour is invisible to functional tests.",
  [R+"verify.c",R+"kem.c",R+"cbd.c",R+"poly_mul.c",R+"pack_unpack.c",A+"verify.c",A+"cbd.c",U+"aes256ctr.c",X+"verify.c"],
  [("branch-free comparison and selection",R+"verify.c"),("bitsliced AES",U+"aes256ctr.c"),("branch-free sampling",R+"cbd.c")],
  observe_at=["instruction and address traces of crypto_kem_dec/enc/keypair"])
p("S20","The Cortex-M4 implementations are the same KEM",
  "Both Cortex-M4 implementations of each parameter set generate, encapsulate and decapsulate exactly like the scheme's definition: public keys, ciphertexts and shared keys are byte-identical to the reference implementation for the same random input, secret keys too, except that with SABER_COMPRESS_SECRETKEY the secret vector inside is packed with 4 bits per coefficient, and tampered ciphertexts are implicitly rejected, at every position. No operation writes outside its outputs.",
  ["inputs","configurations"],"all randomness, ciphertexts and secret keys, three parameter sets, two implementations",
  "This code is only (partly) compiled by the build and never executed.",
  [M4+"saber/m4-striding/kem.c",M4+"saber/m4-striding/SABER_indcpa.c",M4+"saber/m4-striding/poly.c",M4+"saber/m4-striding/poly_mul.c",M4+"saber/m4-striding/kara.s",M4+"saber/m4-striding/pack_unpack.c",M4+"saber/m4-tc4kara/mult_toom4_256_16.s",M4+"saber/m4-tc4kara/asm_funcs.S",M4+"saber/m4-tc4kara/poly_mul.c",M4+"saber/m4-tc4kara/pack_unpack.c"],
  [("in-place comparison of the re-encryption",M4+"saber/m4-striding/pack_unpack.c"),("assembly Toom-Cook/Karatsuba",M4+"saber/m4-tc4kara/mult_toom4_256_16.s")],
  observe_at=["crypto_kem_* of the ARM code run in an instruction-level emulator"])
p("S21","The Cortex-M0 code is a correct, rejecting KEM with standard hash functions",
  "The Cortex-M0 implementation generates keys, encapsulates and decapsulates exactly as its (earlier-round) scheme definition says, with FIPS 202 SHA3-256, SHA3-512, SHAKE128 and SHAKE256: decapsulation returns the encapsulated key for every honest ciphertext and the hash of rejection value and ciphertext hash for every other one. Its matrix generator delivers the polynomials of the seed's stream one by one, restarting with every new matrix; its packing functions are exact bit-string packings, its cSHAKE functions SP 800-185's, its comparison and conditional move right for every length. No operation writes outside the buffers it owns, and the board's program fits its memory.",
  ["inputs","histories"],"all randomness, keys, ciphertexts, messages, lengths and call histories",
  "This code is only compiled by the build and never executed.",
  [M0+"src/kem.c",M0+"src/SABER_indcpa.c",M0+"src/encode.c",M0+"src/fips202.c",M0+"src/asm_KeccakF-1600.S",M0+"src/pack_unpack.c",M0+"src/poly.c",M0+"src/poly_mul.c",M0+"src/cbd.c",M0+"src/verify.c"],
  [("memory-lean matrix generation",M0+"src/SABER_indcpa.c"),("re-encryption check",M0+"src/kem.c"),("sponge over a bit-interleaved state",M0+"src/fips202.c")],
  observe_at=["crypto_kem_keypair","crypto_kem_enc","crypto_kem_dec","sha3_256","shake128","GenMatrix_poly"])
p("S22","The Cortex-M0 random source delivers every bit of the hardware generator",
  "Initialisation loads all five key words into the hardware generator, each only after the last one was taken, and discards the first 64 bits. After that every byte the random source returns is a byte of the generator's 16-bit data words: for every request length exactly that many bytes are written, consecutive byte pairs are the two halves of successive words, no word is skipped, and no byte is constant or reused.",
  ["inputs","histories"],"all hardware word sequences, response times, request lengths and histories of requests",
  "Hardware support code is compiled but never executed by any test.",
  [M0+"src/prng.c",M0+"include/xmc1100.h"],
  [("word-to-byte splitting",M0+"src/prng.c"),("key loading and warm-up",M0+"src/prng.c")],
  observe_at=["rng_enable and randombytes with a modelled generator"])
p("S23","The parameter-selection scripts compute exact probability laws",
  "The probability utilities behind the published failure probabilities compute exactly the laws they document: centred binomial laws, rounding-error laws, sums and products of independent variables, repeated sums, and two-sided tail weights strictly beyond a bound, for every parameter and every law with finite support.",
  ["inputs"],"all moduli, binomial parameters, laws with finite support and tail bounds",
  "The scripts are only parsed by the build; nothing executes them.",
  ["Scripts/Python_Scripts/select_params/proba_util.py"],
  [("law algebra on dictionaries",'Scripts/Python_Scripts/select_params/proba_util.py')],
  observe_at=["functions of proba_util"])
p("S24","Cortex-M code: branches and addresses do not depend on secrets",
  "On the Cortex-M4 and Cortex-M0 too, for fixed public inputs the sequence of executed instructions, of accessed memory addresses and of operands of variable-time instructions of key generation, encapsulation and decapsulation is the same whatever the secret values are: secret key, random draws, message, rejection value, and whether (or at which byte) a ciphertext is rejected.",
  ["inputs","configurations"],"all pairs of secrets sharing the same public data; 12 Cortex-M4 builds and the Cortex-M0 build",
  "Timing behaviour is invisible to functional tests, and this code is never executed by any test.",
  [M4+"saber/m4-striding/kem.c",M4+"saber/m4-striding/verify.c",M4+"saber/m4-striding/cbd.c",M4+"saber/m4-striding/pack_unpack.c",M4+"saber/m4-striding/SABER_indcpa.c",M4+"saber/m4-tc4kara/poly_mul.c",M0+"src/verify.c",M0+"src/cbd.c",M0+"src/kem.c",M0+"src/poly_mul.c"],
  [("branch-free comparison and selection",M4+"saber/m4-striding/verify.c"),("branch-free sampling",M4+"saber/m4-striding/cbd.c"),("branch-free rejection",M0+"src/kem.c")],
  observe_at=["instruction, address and divider-operand traces of the ARM code in an instruction-level emulator"])
p("S25","The parameter search proposes exactly the best secure parameters",
  "For every law of the secret, modulus q, rank, security bound and failure bound, the parameter search goes through the rounding moduli p from 2^10 upwards as long as the estimated security suffices, and proposes for each of them the smallest reconciliation modulus T (up to p^2/q) whose failure probability, 256 times the weight of decryption noise beyond q/4, is at most the bound; it proposes nothing else and misses nothing, not even where the failure probability is zero. The sizes, costs and failure probability it prints belong to the proposed parameters, and for the published settings they are those of the implemented LightSaber, Saber and FireSaber.",
  ["inputs"],"all laws of secrets, moduli, ranks, bounds and answers of the lattice estimator",
  "The scripts are only parsed by the build; nothing executes them.",
  ["Scripts/Python_Scripts/select_params/select_params.py","Scripts/Python_Scripts/select_params/proba_util.py"],
  [("search over p and T","Scripts/Python_Scripts/select_params/select_params.py"),("failure probability from secret and rounding laws","Scripts/Python_Scripts/select_params/select_params.py")],
  observe_at=["output of search_params and main"])
p("S26","The Cortex-M4 multiplication generator emits exact, aligned multiplication code",
  "For both supported sizes (16 and 32) the assembly that the multiplication generator prints multiplies exactly: kara_strd_mem_asm gives the product of two 64-coefficient polynomials modulo y^64+1 and 2^16, toom_cook_4way_striding_asm adds the product modulo x^256+1 to its result modulo 2^13, for all operands; both preserve the callee-saved registers and write nothing but operands, result and scratch space. The same holds for the delivered files and for generated files after the alignment tool, which for every straight-line function only changes instruction widths: no instruction is lost, changed or reordered, and a 32-bit instruction behind one that can be widened ends up on a four-byte boundary.",
  ["inputs","configurations"],"all operands; both generator sizes; all straight-line assembly functions",
  "The generator and the alignment tool are only parsed by the build; their output is never executed.",
  [M4+"saber/m4-striding/generate-multiplication.py",M4+"saber/m4-striding/fix-alignment.py",M4+"saber/m4-striding/kara.s",M4+"saber/m4-striding/tc.s"],
  [("schoolbook, Karatsuba and Toom-Cook code generation",M4+"saber/m4-striding/generate-multiplication.py"),("alignment tracking and widening",M4+"saber/m4-striding/fix-alignment.py")],
  observe_at=["machine code of the printed assembly in an instruction-level emulator"])
p("S27","The Cortex-M0 board measures time and stack exactly and reports complete lines",
  "On the Cortex-M0 board the number returned by end_tick_count is the number of processor cycles since start_tick_count returned (up to the few dozen of the calls and one interrupt service), for every duration below 2^32 cycles, however often and wherever the 24-bit timer wraps - also while the counter is being stopped - and for any sequence of measurements. UART_Init configures the serial port for 115200 baud, eight data bits and queues of 32 characters whatever the registers held before. Every report (a label of at most 20 characters, 0x, eight upper-case hexadecimal digits, CR LF) arrives on the line complete and in order, however slow the line is and whatever was sent before. The whole program prints one such line per KEM operation with that operation's cycle count; its memory variant survives its own measurement and prints how deep the stack of each operation, and of all three, went. The evaluation script selects, builds and flashes the two variants and prints the board's numbers for the right operation and unit.",
  ["schedules","histories","inputs"],"all durations below 2^32 cycles, all positions of a wrap, all sequences of measurements and reports, all line speeds",
  "No test runs the board's program; wraps at the moment of stopping occur once in millions of measurements.",
  [M0+"src/benchmark.c",M0+"src/uart.c",M0+"src/init.c",M0+"src/main.c",M0+"evaluate.py"],
  [("SysTick_Handler, start_tick_count, end_tick_count",M0+"src/benchmark.c"),("UART_Init, UART_SendTrace, UART_SendAddr",M0+"src/uart.c"),("interrupt vectors in RAM",M0+"src/init.c"),("main, WRITE_CANARY, stack_count",M0+"src/main.c"),("main",M0+"evaluate.py")],
  observe_at=["return values, register writes and characters sent by the machine code in an instruction-level emulator"])
X4K="Variants/SaberX4_avx2/keccak4x/"
p("S28","The Keccak libraries keep independent states under every history of calls",
  "The four-way Keccak library behaves, for every history of calls, as four separate 1600-bit states: initialising, adding, overwriting, clearing and extracting act on exactly the named bytes of the named state (or the named lanes of all four, at any distance of their data) whatever offset and length within a lane, and on nothing else, in memory or in the other states; the permutations are Keccak-p[1600] of 12 and 24 rounds on each state; the absorb loops take every block that fits and report the bytes taken. The two libraries of the Cortex-M0 (ARMv6-M and ARMv7-M machine code, lanes kept as even and odd bits) do the same for one state: clearing, adding, extracting, complementing any bit, permuting, with data anywhere in memory.",
  ["inputs","histories"],"all call histories, states, offsets, lengths, lane counts, distances and data",
  "The scheme uses only the permutation of 24 rounds of the four-way library and whole blocks on the Cortex-M0; no test calls the rest, nor runs the machine code.",
  [X4K+"KeccakP-1600-times4-SIMD256.c",X4K+"KeccakP-1600-times4-SnP.h",X4K+"KeccakP-1600-unrolling.macros",M0+"src/asm_KeccakF-1600.S",M0+"src/keccakf1600.S"],
  [("byte runs of one state",X4K+"KeccakP-1600-times4-SIMD256.c"),("interleaved lanes of all states",X4K+"KeccakP-1600-times4-SIMD256.c"),("absorb loops",X4K+"KeccakP-1600-times4-SIMD256.c"),("bit-interleaved state",M0+"src/keccakf1600.S")],
  observe_at=["KeccakP1600times4_*","KeccakF1600times4_FastLoop_Absorb","KeccakF1600_State*"])
p("S29","The lattice sanity check builds the right lattices and reports what it finds",
  "For every dimension, modulus and number of inputs, and whatever bases lattice reduction returns: the Sage sanity check draws instances A = a1 G + a2 G' + e modulo q and x^n+1 with small secrets and noise (with rounding: the noise that makes A a multiple of 8), the same for every run; gives reduction a basis of exactly the lattice of each instance and each choice of samples; reports success for a block size if and only if a reduction up to it had the secret, up to sign, as its shortest vector, with the time spent on reductions so far; and its summary counts these successes.",
  ["inputs","environment choices"],"all dimensions, moduli, numbers of inputs, bases returned by lattice reduction, orders in which parallel calls end",
  "The security estimates of the parameters rest on this experiment; no test runs it.",
  ["Scripts/Sage_Scripts/sanity_check.sage"],
  [("lattice of an instance","Scripts/Sage_Scripts/sanity_check.sage"),("search for the shortest vector","Scripts/Sage_Scripts/sanity_check.sage"),("summary","Scripts/Sage_Scripts/sanity_check.sage")],
  observe_at=["arguments of lattice reduction and the report, in a stand-in for Sage"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
