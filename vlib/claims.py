D = "differential runtime monitor: independent executable model as oracle over structured, hostile and random workloads"
CLAIMS = {
 "C01": (D, "exploration", "every output byte of every generated case equals an independent FIPS 203 model; held on the cases executed, not on all seeds"),
 "C02": (D, "exploration", "as C01, for attacker-chosen public keys; every key byte perturbed at least once per run"),
 "C03": (D, "exploration", "as C01, over eleven classes of corrupt/inconsistent secret keys; accepting and rejecting outcomes both required"),
 "C04": (D, "exploration", "histories of mixed-implementation exchanges; secrets compared at the API boundary"),
 "C05": (D, "exploration", "single-bit alterations enumerated exhaustively for the sampled keys, cancelling and structured alterations sampled"),
 "C06": ("differential runtime monitor: lock-step execution of the two implementations", "exploration", "no model involved: any byte difference between implementations on identical input is a violation"),
 "C09": (D, "exploration", "as C01 at the PKE layer; all pairs of compressed coefficient values enumerated for rounding"),
 "C07": ("runtime monitor with a scripted hash layer (adversarial XOF streams) against an executable model, plus ASan/UBSan", "exploration", "14 families of rejection scripts; streams up to ~200 kB; every script is fed identically to code and model"),
 "C08": ("runtime monitor with scripted sampler/matrix streams (extremal, matched) against an executable model, plus ASan/UBSan", "exploration", "matrix and keys chosen against the noise so that Montgomery products are extreme and aligned; held on those executed"),
 "C10": ("guard pages, read-only inputs, canaries; memcheck with NOACCESS fences; AddressSanitizer", "exploration", "every (entry point, buffer, placement of 66) enumerated once natively per quick run; sanitized and memcheck runs sample them"),
 "C11": ("UndefinedBehaviorSanitizer + AddressSanitizer builds (gcc and clang) under hostile workloads", "exploration", "covers the C sources of both implementations, randomness helper code of the KAT program included; assembly has no UB to diagnose"),
 "C18": (D, "exploration", "all input and output lengths 0..1399 enumerated per function, plus lengths above 2^32"),
 "C19": ("online monitor over histories of interleaved, copied incremental hash states against an executable model", "exploration", "random chunkings biased to block boundaries and empty chunks, plus one absorb/squeeze above 2^32 bytes per function"),
 "C20": (D + "; guard pages on all eight buffers", "exploration", "all input and output lengths 0..999 enumerated, plus lengths above 2^32"),
 "C22": ("online monitor of output and internal state after every DRBG step against an executable model", "exploration", "request histories incl. forced counter carries and a request above 2^31 bytes"),
 "C23": ("online monitor of output, state and limits after every expander request against an executable model", "exploration", "request histories incl. exact limits, rejected requests and forced counter carries"),
 "C24": ("offline checker of the files the KAT program writes against files written by the model", "exploration", "7 builds x 3 parameter sets x 5 initial directory states"),
 "C12": ("online monitor of repeated calls under poisoned registers, stack, outputs and call histories; memcheck and MemorySanitizer definedness of every output byte", "exploration", "results in every context are compared with those in a fresh process; MSan covers the C of the reference implementation, memcheck both"),
 "C13": ("ThreadSanitizer; concurrent and signal-interrupted stress with an oracle of sequential results; write-protection of all static, thread-local and heap memory during calls", "exploration", "schedules are those the kernel produced under stress; assembly is outside TSan and covered by result comparison and write protection"),
 "C14": ("dynamic taint monitoring with memcheck: secrets undefined, every executed branch and address observed", "exploration", "compiled code of 11 compiler/option combinations per quick run; paths executed only (the code has few data-independent ones)"),
 "C15": ("instrumented division instructions with memcheck definedness of the operands", "exploration", "every division in the compilers' assembly output of 11 builds is instrumented; held on those executed"),
 "C16": ("monitor of all entropy draws over call histories, outputs compared with the code's own deterministic variants", "exploration", "entropy incl. degenerate values; end to end through the project's randombytes.c on a piecemeal system"),
 "C17": ("online checker of the random-bytes function against a scripted operating system", "exploration", "five back ends x two files x two compilers; scripts of full, short, zero, interrupted and failing calls, and a request above 2^32 bytes"),
 "C21": ("monitor of dynamic loading histories with results compared with a static build; inspection of exports, imports, sections and segments of every library", "exploration", "both compilers; about 170 loading histories each per quick run of 9! orders"),
 "C25": ("system-call filter that kills, register-poisoning trampoline, snapshots of all writable memory around each call", "exploration", "two compilers; each case in a fresh process"),
 "C26": (D + " over a matrix of compilers and options", "exploration", "24 builds per quick run, about 45 per thorough run"),
}
NOT_APPLICABLE = []
HOOKS = None
NOTES = "Everything is decided by executing the code of /repo's working tree under monitors; see DESIGN.md."
