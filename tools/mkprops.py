import json
R=["ref/kem.c","avx2/kem.c","ref/indcpa.c","avx2/indcpa.c"]
def P(id,title,st,over,qt,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    return d
A=[]
A.append(P("C01","Key generation equals ML-KEM KeyGen for every seed",
 "For every parameter set (512/768/1024), both implementations and every 64-byte seed, deterministic key generation writes exactly the public key and secret key that FIPS 203 ML-KEM.KeyGen_internal prescribes. In particular the secret key is the encoded secret vector, then the public key, then its SHA3-256 hash, then the rejection secret, and every encoded coefficient of both keys is canonical (below q=3329).",
 ["inputs"],"all 2^512 seeds, 3 parameter sets, 2 implementations",
 "The vectors sample 10000 seeds from one fixed stream; structured seeds and rare sampler/carry paths are never reached.",
 R+["ref/poly.c","ref/ntt.c","ref/cbd.c","avx2/cbd.c","avx2/ntt.S"],
 [("IND-CPA key generation","indcpa_keypair_derand in ref/indcpa.c and avx2/indcpa.c"),("key layout","crypto_kem_keypair_derand in kem.c"),("serialisation","poly_tobytes in poly.c, ntttobytes in avx2/shuffle.S")],
 ["pqcrystals_kyber*_keypair_derand outputs"]))
A.append(P("C02","Encapsulation equals ML-KEM Encaps for every public key and coins",
 "For every byte string of public-key length (including non-canonical coefficient encodings, which are taken modulo q while the hash covers the raw bytes) and every 32-byte message, deterministic encapsulation writes exactly the ciphertext and shared secret prescribed by FIPS 203 ML-KEM.Encaps_internal. The shared secret and ciphertext therefore depend on every byte of the public key and of the coins.",
 ["inputs"],"all public-key byte strings, all coins, 3 parameter sets, 2 implementations",
 "Tests only ever encapsulate to freshly generated honest keys; attacker-chosen keys with coefficients in [q,4095] are never tried.",
 R+["ref/poly.c","ref/polyvec.c","avx2/poly.c","avx2/polyvec.c","avx2/shuffle.S"],
 [("re-encryption","indcpa_enc"),("key/hash derivation","crypto_kem_enc_derand in kem.c"),("compression","poly_compress, polyvec_compress"),("decoding","poly_frombytes, nttfrombytes")],
 ["pqcrystals_kyber*_enc_derand outputs"]))
A.append(P("C03","Decapsulation is total and exact for arbitrary keys and ciphertexts",
 "For every byte string of secret-key length and every byte string of ciphertext length, decapsulation returns 0 and yields exactly the 32 bytes of FIPS 203 ML-KEM.Decaps_internal (with no input validation, coefficients taken modulo q). This includes secret keys whose stored public key, stored hash or secret vector are corrupt, inconsistent or non-canonical: the stored hash and stored rejection secret are used as stored.",
 ["inputs"],"all secret-key byte strings, all ciphertext byte strings, 3 parameter sets, 2 implementations",
 "Tests decapsulate with honest keys (or one fully random key whose result is ignored).",
 R+["ref/poly.c","ref/polyvec.c","avx2/poly.c","avx2/polyvec.c","ref/verify.c","avx2/verify.c"],
 [("decapsulation","crypto_kem_dec in kem.c"),("decryption","indcpa_dec"),("decompression","poly_decompress, polyvec_decompress")],
 ["pqcrystals_kyber*_dec output and return value"]))
A.append(P("C04","Honest parties always agree on the shared secret",
 "For every key pair produced by key generation and every encapsulation to its public key, decapsulation with the matching secret key returns the encapsulator's shared secret, whatever mix of the two implementations performs the three steps, except with the negligible decryption-failure probability of the scheme. Ciphertexts the model accepts are never rejected and never yield another key.",
 ["inputs","histories"],"all seeds, all coins, all assignments of implementations to the three parties, many encapsulations per key and interleaved keys",
 "The test does 1000 random round trips inside one implementation with one ciphertext per key.",
 R+["ref/verify.c","avx2/verify.c"],
 [("accept path","crypto_kem_dec, verify, cmov"),("message encoding","poly_frommsg, poly_tomsg")],
 ["ss of enc against ss of dec"]))
A.append(P("C05","Any altered ciphertext is implicitly rejected",
 "For every honest key pair and ciphertext, decapsulating a ciphertext that differs from the honest one in any way - any single bit, any set of bytes anywhere, differences that cancel under sum or xor, swapped or rotated parts, truncated or mixed ciphertexts - returns 0 and yields SHAKE256(z || received ciphertext), never the encapsulated key. The rejection value depends on every byte of the received ciphertext and of the rejection secret.",
 ["inputs"],"all single-bit flips exhaustively; all pairs of byte positions with cancelling differences sampled; structured multi-byte differences; 3 parameter sets, 2 implementations",
 "The test corrupts one random byte once per iteration and only checks the key differs; a comparison that ignores a position or lets differences cancel survives.",
 R+["ref/verify.c","avx2/verify.c","ref/symmetric-shake.c","avx2/symmetric-shake.c"],
 [("constant-time comparison","verify in verify.c"),("conditional move","cmov in verify.c"),("rejection key","rkprf in symmetric-shake.c")],
 ["dec output compared with independent SHAKE256(z||ct)"]))
A.append(P("C06","Reference and AVX2 implementations are byte-for-byte interchangeable",
 "For every parameter set and every input to key generation, encapsulation and decapsulation - honest or hostile, including non-canonical keys - the reference and the AVX2 implementation produce identical output bytes and return values. Keys, ciphertexts and secret keys written by one can be consumed by the other.",
 ["inputs","configurations"],"all inputs of the three operations, 3 parameter sets; long chained histories in which each output feeds the next operation of the other implementation",
 "Each implementation is tested alone against one hash of honest vectors.",
 ["avx2/indcpa.c","avx2/poly.c","avx2/polyvec.c","avx2/cbd.c","avx2/rejsample.c","avx2/ntt.S","avx2/invntt.S","avx2/basemul.S","avx2/fq.S","avx2/shuffle.S","ref/indcpa.c"],
 [("vectorised arithmetic","avx2/*.S"),("vectorised sampling","avx2/rejsample.c, avx2/cbd.c"),("4-way hashing","avx2/fips202x4.c")],
 ["outputs of the pqcrystals_kyber*_ref_* and *_avx2_* functions on equal inputs"]))
A.append(P("C07","Matrix expansion is exact whatever the XOF outputs",
 "Public-matrix expansion equals FIPS 203 SampleNTT for every possible SHAKE128 output stream: every 12-bit candidate below q is taken in order, every other one is rejected, exactly 256 coefficients are produced, and as many extra blocks are squeezed as needed, independently for every matrix entry and lane. No stream makes it stop early, loop, skip, duplicate or overrun.",
 ["inputs"],"all XOF output streams, including ones (long runs of rejections, exactly 255/256/257 acceptances in the first blocks, boundary values 3328/3329) that no known seed produces",
 "Real SHAKE output needs an extra block with small probability and a second extra block practically never, so those branches and lane combinations are not tested.",
 ["ref/indcpa.c","avx2/indcpa.c","avx2/rejsample.c","avx2/rejsample.h"],
 [("scalar rejection sampling","rej_uniform in indcpa.c"),("vector rejection sampling","rej_uniform_avx in avx2/rejsample.c"),("matrix loop","gen_matrix")],
 ["keypair_derand / enc_derand / dec outputs with the hash layer replaced by a transforming mock"]))
A.append(P("C08","Ring arithmetic is exact at every extreme of its inputs",
 "Key generation, encapsulation and decapsulation compute exact arithmetic modulo q - no overflow, wrong reduction or wrong rounding - for every noise polynomial the binomial sampler can emit (including all-maximal and structured ones), every public matrix and every coefficient an encoded key or ciphertext can carry. The result never depends on an assumption that inputs are random.",
 ["inputs"],"all PRF/XOF outputs and all encodable coefficients; extremes: all +eta, all -eta, deltas, square waves, coefficients 0, 1, q-1, q, 4095, all-ones messages and ciphertexts",
 "Random inputs concentrate in the middle of the ranges; accumulations near the 16-bit limits have negligible probability.",
 ["ref/ntt.c","ref/reduce.c","ref/poly.c","ref/polyvec.c","ref/cbd.c","avx2/ntt.S","avx2/invntt.S","avx2/basemul.S","avx2/fq.S","avx2/cbd.c","avx2/poly.c","avx2/polyvec.c"],
 [("NTT","ntt, invntt"),("reductions","montgomery_reduce, barrett_reduce, fq.inc"),("noise","cbd2, cbd3"),("lazy reduction","polyvec_basemul_acc_montgomery, poly_reduce")],
 ["operation outputs with mocked PRF/XOF streams, against exact integer arithmetic"]))
A.append(P("C09","The PKE layer is exact for arbitrary inputs",
 "The exported public-key-encryption layer (key generation, encryption, decryption) equals FIPS 203 K-PKE for every byte string given as key, message, coins and ciphertext, in both implementations. Decrypting an arbitrary ciphertext under an arbitrary key recovers exactly the rounded message the specification defines, including coefficients on rounding boundaries.",
 ["inputs"],"all byte strings for all arguments of the three functions; messages all 0, all 1, single-bit; ciphertexts with boundary coefficients",
 "Through the KEM only messages that re-encrypt correctly are visible; a wrong decrypted bit of a hostile ciphertext is hidden by rejection.",
 ["ref/indcpa.c","ref/indcpa.h","avx2/indcpa.c","avx2/indcpa.h","ref/poly.c","avx2/poly.c"],
 [("encryption/decryption","indcpa_enc, indcpa_dec"),("message rounding","poly_tomsg, poly_frommsg")],
 ["indcpa_keypair_derand, indcpa_enc, indcpa_dec outputs"]))
A.append(P("C10","No access outside the caller's buffers at any alignment",
 "Every public KEM, PKE and hash entry point reads only within the documented length of its input buffers and writes only within the documented length of its outputs, for buffers at any alignment and placed directly against unmapped memory on either side, and never writes to its const inputs. Internal stack and table accesses stay in bounds as well, for every input.",
 ["inputs","configurations"],"all inputs, all 64 buffer alignments, buffers flush with guard pages before and after, read-only inputs, both implementations under address sanitizer",
 "Tests use aligned stack arrays surrounded by other valid memory, so an over-read or unaligned-store fault goes unnoticed.",
 ["ref/kem.c","avx2/kem.c","avx2/poly.c","avx2/polyvec.c","avx2/fips202x4.c","avx2/rejsample.c","avx2/verify.c","avx2/cbd.c","ref/poly.c","ref/polyvec.c"],
 [("unaligned vector loads/stores","_mm256_loadu_si256 / storeu users in avx2/*.c"),("tail handling","poly_compress, polyvec_compress, verify, keccakx4_absorb_once")],
 ["page faults at guard pages, ASan reports, canary bytes around outputs"]))
A.append(P("C11","No undefined behaviour for any input",
 "No input to any public entry point makes the C code execute undefined behaviour: no signed overflow, invalid shift, misaligned or out-of-bounds typed access, null dereference or out-of-range conversion. This covers hostile keys and ciphertexts, extreme sampler outputs, zero-length hash calls and the KAT helper code.",
 ["inputs"],"all inputs of all KEM, PKE, hash and KAT-helper entry points, honest, hostile and extreme",
 "Undefined behaviour usually produces the expected value on the one compiler used in the tests.",
 ["ref/reduce.c","ref/ntt.c","ref/poly.c","ref/polyvec.c","ref/cbd.c","ref/fips202.c","avx2/poly.c","avx2/polyvec.c","avx2/cbd.c","avx2/rejsample.c","avx2/fips202.c","avx2/fips202x4.c","avx2/keccak4x/KeccakP-1600-times4-SIMD256.c","ref/nistkat/rng.c"],
 [("modular reductions","montgomery_reduce, barrett_reduce"),("packing shifts","poly_compress, load64, load24_littleendian")],
 ["UBSan/ASan reports while running differential workloads"]))
A.append(P("C12","Results depend only on the arguments (no uninitialised data, no history)",
 "Every operation is a pure function of its input bytes: its outputs do not depend on prior contents of the output buffers, stack, registers or vector state, nor on which operations ran before, and no uninitialised byte is ever branched on or copied to an output. Every byte of every output buffer is defined on return.",
 ["inputs","histories"],"all operation histories and memory pre-states: stack and output poison patterns, permuted operation orders; memory tracked bit-precisely by valgrind and MemorySanitizer",
 "A test run has one memory pre-state, usually zero pages, and fixed operation order.",
 R+["avx2/poly.c","avx2/fips202x4.c","ref/fips202.c"],
 [("scratch buffers","buf/cmp/state locals in kem.c, indcpa.c, poly.c"),("discarded noise lanes","poly_getnoise_eta1_4x callers in avx2/indcpa.c")],
 ["outputs under different pre-states; memcheck/MSan definedness of outputs"]))
A.append(P("C13","Operations are thread-safe and reentrant",
 "Concurrent calls from any number of threads on distinct output buffers - sharing read-only keys and ciphertexts - and calls that interrupt one another from signal handlers produce exactly the results of sequential execution, without data races. The deterministic operations and hash functions keep no mutable static or thread-local state between or during calls.",
 ["schedules"],"all interleavings of concurrent keygen/enc/dec/hash calls, all interruption points; race detector plus result comparison plus timer-signal preemption",
 "All tests are single threaded, so a static scratch buffer is invisible.",
 R+["ref/fips202.c","avx2/fips202.c","avx2/fips202x4.c","avx2/consts.c","ref/randombytes.c"],
 [("stack-only state","all locals in kem.c, indcpa.c, poly.c, fips202.c"),("read-only tables","zetas in ref/ntt.c, qdata in avx2/consts.c, idx in avx2/rejsample.c")],
 ["TSan reports; per-call result against the sequential result"]))
A.append(P("C14","No branch or memory address depends on secret data",
 "In the compiled code of key generation, encapsulation and decapsulation, no conditional branch, indirect jump or memory address depends on secret bytes: key-generation seeds, the secret vector, the rejection secret, encapsulation coins, decrypted messages, or whether a ciphertext was accepted. Only public data (the public seed and matrix, the public key, the received ciphertext) may influence control flow and addresses.",
 ["inputs","configurations"],"all secrets, all accept/reject outcomes, 3 parameter sets, 2 implementations, several compilers and optimisation levels",
 "Tests look at values, never at timing or the instruction trace; compilers can turn mask arithmetic into branches.",
 R+["ref/poly.c","ref/verify.c","avx2/verify.c","ref/cbd.c","avx2/poly.c","ref/reduce.c"],
 [("branch-free selection","cmov, cmov_int16 in verify.c"),("message encoding","poly_frommsg"),("comparison","verify")],
 ["valgrind memcheck with secrets marked undefined: conditional-jump and address reports"]))
A.append(P("C15","No variable-time division on secret data",
 "Secret-dependent values are never operands of a hardware division instruction, at any optimisation level of the supported compilers, in key generation, encapsulation or decapsulation. This holds in particular for message decoding and ciphertext compression.",
 ["inputs","configurations"],"all secrets; gcc and clang at -O0..-O3, -Os, -Oz; 3 parameter sets, 2 implementations",
 "Results are right whether or not a division is used, so no functional test can see it (KyberSlash).",
 ["ref/poly.c","ref/polyvec.c","avx2/poly.c","avx2/polyvec.c","ref/reduce.c"],
 [("division-free rounding","poly_compress, polyvec_compress, poly_tomsg")],
 ["operands of every executed div/idiv, taint-tracked by valgrind on instrumented assembly"]))
A.append(P("C16","Randomised calls use exactly their fresh entropy and equal the derandomised ones",
 "Randomised key generation draws exactly 64 bytes and randomised encapsulation exactly 32 bytes from the system random source per call, and their outputs equal the deterministic variants on those bytes; no drawn byte is ignored, altered or reused by a later call. Deterministic variants and decapsulation draw none.",
 ["inputs","histories"],"all random-source outputs (including all-zero, all-one, repeated) and all call sequences, both implementations",
 "Tests cannot tell a partially used or cached seed from a fresh one.",
 ["ref/kem.c","avx2/kem.c"],
 [("entropy draw","crypto_kem_keypair, crypto_kem_enc in kem.c")],
 ["recorded randombytes requests and outputs of the keypair/enc calls"]))
A.append(P("C17","The system RNG wrapper survives every OS behaviour or aborts",
 "The random-bytes function fills exactly the requested bytes, each with a byte delivered by the operating system and in order, whatever sequence of short reads and interruptions the system returns, on every supported back end (Linux getrandom, NetBSD getrandom, /dev/urandom, Windows). When the source fails it aborts; it never returns with bytes that were not delivered and never writes beyond the request.",
 ["fault_sequences","configurations"],"all sequences of {full, short, EINTR, error} results, all request sizes, all four back ends, both copies",
 "On a test machine getrandom always succeeds in full.",
 ["ref/randombytes.c","avx2/randombytes.c"],
 [("retry loop","randombytes in randombytes.c")],
 ["log of faked system calls against returned bytes; abort status of forked children"]))
A.append(P("C18","SHA-3 and SHAKE match FIPS 202 for every length",
 "sha3_256, sha3_512, shake128 and shake256 of both implementations return the FIPS 202 value for every input of every length (including empty, all residues modulo the rate and multi-block) and every output length, and read and write nothing else.",
 ["inputs"],"all inputs and lengths; every length from 0 to several rates, every output length from 0 to several rates, large inputs sampled",
 "The KEM only uses a handful of fixed lengths; padding and tail branches for the others are never tested.",
 ["ref/fips202.c","ref/fips202.h","avx2/fips202.c","avx2/fips202.h"],
 [("padding and absorb","keccak_absorb_once, keccak_finalize"),("squeeze tail","keccak_squeeze"),("permutation","KeccakF1600_StatePermute")],
 ["outputs of the one-shot functions"]))
A.append(P("C19","Incremental SHAKE is independent of chunking",
 "For every way of splitting a message into absorb calls and an output into squeeze calls (including empty chunks, block-boundary chunks and squeezeblocks after absorb_once), the init/absorb/finalize/squeeze interface produces exactly the one-shot SHAKE output; independent states, and copies of a state, do not influence each other.",
 ["histories","inputs"],"all call sequences of the incremental interface over several concurrently live states, all chunkings",
 "The KEM exercises two fixed call patterns; the chunk-boundary branches are not covered by any test.",
 ["ref/fips202.c","avx2/fips202.c"],
 [("partial block state","keccak_state.pos; keccak_absorb, keccak_squeeze")],
 ["random call histories against a byte-at-a-time sponge model"],
 [("pos","bytes absorbed or squeezed in the current block","keccak_state in fips202.h")]))
A.append(P("C20","4-way SHAKE equals four scalar SHAKEs and stays in bounds",
 "For every input length, output length, set of four inputs and buffer alignment, the 4-way SHAKE128/256 interface returns in each lane exactly the scalar SHAKE of that lane's input, reading only the given input bytes and writing only the given output bytes. Lanes may alias the same input and never influence each other.",
 ["inputs"],"all lengths 0..several rates and sampled large ones, all lane contents, aliasing inputs, buffers flush against unmapped pages",
 "The KEM only absorbs 33/34 bytes from over-sized buffers.",
 ["avx2/fips202x4.c","avx2/fips202x4.h","avx2/keccak4x/KeccakP-1600-times4-SIMD256.c"],
 [("gathered absorb","keccakx4_absorb_once"),("scattered squeeze","keccakx4_squeezeblocks"),("vector permutation","KeccakP1600times4_PermuteAll_24rounds")],
 ["outputs per lane; guard pages around all eight buffers"]))
A.append(P("C21","All shared libraries coexist in one process",
 "The shared libraries built by the Makefiles can be loaded together in any order into one process, globally visible, and each parameter set and implementation still computes its own correct results. Each exports only names in its own namespace, needs nothing but the hash libraries, libc and a random-bytes function, keeps no writable global data of its own, and does not ask for an executable stack or text relocations.",
 ["configurations","schedules"],"all load orders of the eight libraries with global symbol visibility",
 "Every test program links exactly one parameter set statically.",
 ["ref/Makefile","avx2/Makefile","ref/params.h","avx2/params.h","ref/fips202.h","avx2/fips202.h","avx2/fips202x4.h","avx2/consts.h"],
 [("namespacing","KYBER_NAMESPACE, FIPS202_NAMESPACE, FIPS202X4_NAMESPACE macros"),("shared targets","shared: in the Makefiles")],
 ["dynamic symbol tables, dlopen orders, results of every library's functions"]))
A.append(P("C22","The KAT DRBG is AES-256 CTR_DRBG for every seed and request sequence",
 "The deterministic generator of the KAT program implements NIST SP 800-90A CTR_DRBG with AES-256 (no derivation function) as in the NIST KAT framework: for every 48-byte entropy input, optional personalisation string and sequence of request lengths, the output bytes, key, counter and reseed count are the model's, including counter carries across all 16 bytes.",
 ["inputs","histories"],"all seeds, personalisation strings and request-length sequences; counters about to carry",
 "The KAT program checks nothing but round-trip success with one fixed seed.",
 ["ref/nistkat/rng.c","ref/nistkat/rng.h"],
 [("generate","randombytes in nistkat/rng.c"),("update","AES256_CTR_DRBG_Update"),("instantiate","randombytes_init")],
 ["randombytes outputs and Key/V after each request"],
 [("DRBG_ctx","Key, V, reseed_counter","nistkat/rng.c")]))
A.append(P("C23","The KAT seed expander is chunking-independent AES-CTR with exact limits",
 "The seed expander outputs the AES-256 counter stream defined by seed, diversifier and maximum length, identically for every way the output is split into requests; it rejects a maximum length of 2^32 or more, a null output pointer and any request reaching or exceeding the remaining length, and a rejected request changes neither output nor state.",
 ["histories","inputs"],"all seeds, diversifiers, maximum lengths and request histories, including block-boundary, zero-length and rejected requests",
 "No test calls it at all.",
 ["ref/nistkat/rng.c","ref/nistkat/rng.h"],
 [("buffered CTR output","seedexpander"),("limits","seedexpander_init, RNG_BAD_* codes")],
 ["outputs, return codes and context after each request"],
 [("AES_XOF_struct","buffer, buffer_pos, length_remaining, key, ctr","nistkat/rng.h")]))
A.append(P("C24","The KAT generator writes exactly the KATs of the algorithm",
 "For each parameter set the KAT program produces request and response files whose 100 entries (seed, pk, sk, ct, ss) are exactly those determined by the NIST KAT procedure, the CTR_DRBG and ML-KEM, independent of compiler and optimisation level and of files left by an earlier run.",
 ["configurations"],"all parameter sets, compilers and optimisation levels, fresh and dirty working directories",
 "The test looks only at the exit status; the file content is never compared.",
 ["ref/nistkat/PQCgenKAT_kem.c","ref/nistkat/rng.c"],
 [("file generation","main, fprintBstr, ReadHex, FindMarker in PQCgenKAT_kem.c")],
 ["the .req and .rsp files against independently generated ones"]))
A.append(P("C25","Calls have no effects beyond their documented outputs",
 "A deterministic operation or hash call changes nothing except its output buffers: inputs are unmodified, every output byte is written, 0 is returned, and it performs no system call, heap allocation, file or terminal output, global-state change, errno change, or change of callee-saved registers, the direction flag, floating-point control state or signal mask.",
 ["inputs","histories"],"all operations and inputs of both implementations, observed under a system-call filter, allocation interposition and register/state snapshots",
 "Tests compare returned keys only; clobbered callee-saved registers or control state show up only in some callers.",
 R+["avx2/ntt.S","avx2/invntt.S","avx2/basemul.S","avx2/shuffle.S","avx2/fq.S"],
 [("assembly calling convention","global routines in avx2/*.S"),("const inputs","api.h prototypes")],
 ["seccomp violations, malloc counters, register snapshots, input/output images around each call"]))
A.append(P("C26","Results do not depend on compiler, optimisation level or build options",
 "Every build of the reference and AVX2 sources with gcc or clang at any optimisation level, with position-independent code, signed or unsigned plain char, link-time optimisation, and the optional BMI rejection sampler computes the same keys, ciphertexts and shared secrets as the specification, for honest and hostile inputs.",
 ["configurations","inputs"],"matrix of compilers x optimisation levels x options, each running the differential workload",
 "The project is tested with one compiler at -O3.",
 ["ref/Makefile","avx2/Makefile","ref/verify.c","ref/reduce.c","avx2/rejsample.c","avx2/cbd.c","avx2/fips202x4.c","avx2/keccak4x/KeccakP-1600-times4-SIMD256.c"],
 [("compiler barriers","cmov in verify.c"),("build options","#ifdef BMI in avx2/rejsample.c")],
 ["differential results of each build"]))
with open("/verif/properties.jsonl","w") as f:
    for d in A: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in A:
    jsonschema.validate(d,s)
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
print(len(A))
