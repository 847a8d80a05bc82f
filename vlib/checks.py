"""One function per property: builds, runs, returns (evaluations, distinct)."""
import os, subprocess, json, re
from .core import HarnessError, HARN, REPO, VERIF, JOBS, clean_env

CHECKS = {}
def check(p):
    def d(f):
        CHECKS[p] = f
        return f
    return d

ORACLE = "oracle model (harness/oracle.c) is FIPS 203; validated by reproducing the project's SHA256SUMS vectors (setup.sh) and an NTT/AES self-test at every start"


def build_kem(ctx, tag="o3", harness=("h_kem.c",), cc="gcc", ref_flags=None, avx_flags=None, hflags=("-O3",), extra=(),
              ref=True, avx2=True, defs=(), hdefs=(), link=(), ks=(2, 3, 4), hashes=True, stub=True, name="h"):
    """Link all implementations plus oracle and harness into one program."""
    rf = list(ref_flags if ref_flags is not None else ctx.project_flags("ref"))
    af = list(avx_flags if avx_flags is not None else ctx.project_flags("avx2"))
    objs = []
    if ref:
        objs += ctx.objs(tag, "ref", ks, cc, rf, hashes=hashes, defs=defs)
    if avx2:
        objs += ctx.objs(tag, "avx2", ks, cc, af, hashes=hashes, defs=defs)
    hd = list(hdefs)
    if not ref:
        hd.append("-DNO_REF")
    if not avx2:
        hd.append("-DNO_AVX2")
    h = list(harness) + ["oracle.c"] + (["rb_stub.c"] if stub else [])
    objs += ctx.harness_objs(tag, h, cc, list(hflags), hd)
    return ctx.link(tag, name, objs + list(extra), cc, link)


def std(ctx, exe, runs, rule, dkey="distinct", ekeys=None):
    for mode, n in runs:
        ctx.run_harness(exe, mode, n)
    ctx.rule = rule
    ev = sum(v for k, v in ctx.stats.items() if (k in ekeys if ekeys else not k.startswith("distinct")))
    return ev, ctx.distinct()


def fuzz(ctx, mode, n):
    """coverage-guided differential run (libFuzzer drives, the model judges); n recipes over all workers"""
    fl = ["-O1", "-fno-strict-aliasing", "-fomit-frame-pointer", "-fsanitize=fuzzer-no-link", "-g0"]
    objs = ctx.objs("fz", "ref", (2, 3, 4), "clang", fl)
    objs += ctx.objs("fz", "avx2", (2, 3, 4), "clang", fl + ctx.arch_flags("avx2"), asm_flags=ctx.arch_flags("avx2"))
    objs += ctx.harness_objs("fz", ["h_fuzz.c", "oracle.c", "rb_stub.c"], "gcc", ["-O3"])
    rt = subprocess.run(["clang", "-print-runtime-dir"], capture_output=True, text=True).stdout.strip()
    lib = next((x for x in (os.path.join(rt, "libclang_rt.fuzzer_no_main-x86_64.a"), os.path.join(rt, "libclang_rt.fuzzer_no_main.a"),
                            "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a") if os.path.exists(x)), None)
    if not lib:
        raise HarnessError("libFuzzer runtime not found")
    exe = ctx.link("fz", "hf", objs + [lib], "clang", ["-lstdc++", "-lpthread", "-lm", "-ldl"])
    def cov(er, label, rep):
        l = re.findall(r"#\d+\s+DONE\s+cov: (\d+) ft: (\d+) corp: (\d+)", er) or re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", er)
        if l:
            ctx.stat("max_fuzz_edges", int(l[-1][0]))
            ctx.stat("max_fuzz_features", int(l[-1][1]))
            ctx.stat("fuzz_corpus", int(l[-1][2]))
    w = JOBS
    cmds = [[exe, "--mode", mode, "--seed", str(ctx.seed), "--worker", str(i), "--workers", str(w), "--n", str(n)] for i in range(w)]
    ctx.run_cmds(cmds, 420, {"VERIF_SCRATCH": ctx.scratch}, "fuzz:" + mode, sanparse=cov)
    if not ctx.viols and ctx.stats.get("max_fuzz_edges", 0) < 20:
        raise HarnessError("libFuzzer observed no coverage")


@check("C01")
def c01(ctx):
    exe = build_kem(ctx)
    fuzz(ctx, "keygen", ctx.n(50000, 750000))
    ctx.assumptions = [ORACLE]
    sizes(ctx)
    return std(ctx, exe, [("keygen", ctx.n(9000, 300000)), ("volkeygen", ctx.n(1200000, 20000000))],
               "case = 64-byte seed (all-zero, all-one, all 512 single-bit seeds, structured, random) x 6 implementations; distinct = different seed; every output byte compared with the model", ekeys=["keygen", "recipes", "volume"])


SIZES = {2: (800, 1632, 768, "Kyber512"), 3: (1184, 2400, 1088, "Kyber768"), 4: (1568, 3168, 1568, "Kyber1024")}
def sizes(ctx):
    """documented sizes in api.h and kem.h"""
    cmds, l = [], []
    for d in ("ref", "avx2"):
        for k in (2, 3, 4):
            exe = ctx.path("sizes", "%s%d" % (d, k))
            cmds.append((["gcc", "-w", "-I" + os.path.join(REPO, d), "-DKYBER_K=%d" % k, "-DDIR=%s" % d, os.path.join(HARN, "sizes.c"), "-o", exe], exe))
            l.append((d, k, exe))
    ctx.cc_many(cmds)
    for d, k, exe in l:
        rc, o, e, to = ctx.run_one([exe], 60)
        pk, sk, ct, nm = SIZES[k]
        want = "%d %d %d 64 32 32 %d %d %d 32 %s\n" % (pk, sk, ct, pk, sk, ct, nm)
        if o != want:
            ctx.viol("%s:k%d:sizes" % (d, k), "api.h/kem.h constants are %r, must be %r" % (o, want), {})
        ctx.stat("size_headers", 1)


@check("C02")
def c02(ctx):
    exe = build_kem(ctx)
    fuzz(ctx, "enc", ctx.n(100000, 1500000))
    ctx.assumptions = [ORACLE]
    return std(ctx, exe, [("encflip", 3 * 1568), ("enc", ctx.n(9000, 300000)), ("volenc", ctx.n(1000000, 20000000))],
               "case = (public key, coins): honest / non-canonical equivalent / hostile keys, every single key byte perturbed once, structured and random coins, 6 implementations; distinct = different (pk, coins)",
               ekeys=["enc_honest_pk", "enc_noncanonical_pk", "enc_hostile_pk", "enc_pk_byte_flips", "recipes", "volume"])


@check("C03")
def c03(ctx):
    exe = build_kem(ctx)
    fuzz(ctx, "dec", ctx.n(80000, 1200000))
    ctx.assumptions = [ORACLE]
    r = std(ctx, exe, [("dec", ctx.n(12000, 400000)), ("voldec", ctx.n(1200000, 20000000))],
            "case = (secret key, ciphertext) over 11 kinds of honest/corrupt/inconsistent keys x consistent/perturbed/hostile ciphertexts; distinct = different (sk, ct); accepting and rejecting outcomes both counted",
            ekeys=["dec_accepting", "dec_rejecting", "recipes"])
    if not ctx.viols and (ctx.stats.get("dec_accepting", 0) == 0 or ctx.stats.get("dec_rejecting", 0) == 0):
        raise HarnessError("one outcome never observed")
    return r


@check("C04")
def c04(ctx):
    exe = build_kem(ctx)
    ctx.assumptions = [ORACLE, "decryption failures (probability below 2^-138) do not occur by chance"]
    return std(ctx, exe, [("agree", ctx.n(18000, 600000)), ("volagree", ctx.n(1800000, 60000000))],
               "case = history of two interleaved key pairs and six exchanges with randomly assigned implementations for the three steps; distinct = different (pk, ciphertext)", ekeys=["exchanges", "volume"])


@check("C05")
def c05(ctx):
    exe = build_kem(ctx)
    fuzz(ctx, "reject", ctx.n(60000, 900000))
    ctx.assumptions = [ORACLE, "an altered ciphertext that is itself an honest encryption under the same key does not occur by chance"]
    return std(ctx, exe, [("reject", 6 * 13 * ctx.n(2, 24)), ("volreject", ctx.n(1600000, 30000000))],
               "case = altered ciphertext of an honest key pair: all single-bit flips, xor- and sum-cancelling pairs, wrap-around sums, runs, swaps, rotations, mixed ciphertexts, many simultaneous low-order changes that keep the message (counts 2..1568, sums brought to 0 modulo 2^8 and 2^16), rejection-secret bits; distinct = different altered ciphertext",
               ekeys=["altered_ciphertexts", "recipes", "volume"])


@check("C06")
def c06(ctx):
    exe = build_kem(ctx)
    return std(ctx, exe, [("cross", ctx.n(9000, 400000)), ("volcross", ctx.n(1200000, 30000000))],
               "case = chain of eight operations, each run by ref and avx2 on identical input (honest and hostile), outputs feeding the next step; distinct = different operation input", ekeys=["paired_calls", "volume"])


@check("C09")
def c09(ctx):
    exe = build_kem(ctx)
    fuzz(ctx, "pke", ctx.n(60000, 900000))
    ctx.assumptions = [ORACLE]
    return std(ctx, exe, [("pkeround", 3 * 256 * ctx.n(1, 4)), ("pke", ctx.n(6000, 200000)), ("volpke", ctx.n(700000, 16000000))],
               "case = PKE call with arbitrary key/message/coins/ciphertext, plus every pair of compressed u- and v-coefficient values under the identity key; distinct = different call input",
               ekeys=["pke_keygen", "pke_enc", "pke_dec", "recipes", "volume"])


def build_mock(ctx, tag, cc, ref_flags, avx_flags, hflags, link=(), hdefs=()):
    objs = ctx.objs(tag, "ref", (2, 3, 4), cc, ref_flags, hashes=False)
    objs += ctx.objs(tag, "avx2", (2, 3, 4), cc, avx_flags, hashes=False)
    cmds = []
    for d in ("ref", "avx2"):
        o = ctx.path(tag, "mock_%s.o" % d)
        cmds.append(([cc] + list(hflags) + ["-w", "-I" + os.path.join(REPO, d), "-I" + HARN] + (["-DX4"] + ctx.arch_flags("avx2") if d == "avx2" else []) +
                     ["-c", os.path.join(HARN, "mock_fips.c"), "-o", o], o))
        objs.append(o)
    ctx.cc_many(cmds)
    objs += ctx.harness_objs(tag, ["h_mock.c", "oracle.c", "rb_stub.c"], cc, list(hflags), hdefs)
    return ctx.link(tag, "hm", objs, cc, link)


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:detect_stack_use_after_return=1",
            "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=0"}
IGN1 = {"VERIF_IGNORE_DIFF": "1"}   # results are other properties' business; bounds reports stay
IGN2 = {"VERIF_IGNORE_DIFF": "2"}   # only crashes, hangs and sanitizer reports count
SANF = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=address"]
HSANF = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fno-sanitize-recover=address"]   # harness: no UBSan


def san_mock(ctx, tag="sanm", cc="gcc", flags=None):
    f = flags or SANF
    return build_mock(ctx, tag, cc, f, f + ctx.arch_flags("avx2"), HSANF, ["-fsanitize=address,undefined"], ["-DSANITIZED"])


def optional_mock(ctx, tag, cc, f):
    try:
        return san_mock(ctx, tag, cc, f)
    except HarnessError as e:
        ctx.notes.append("scripted hash layer does not fit the code any more: %s" % str(e)[-300:])
        return None


def mocked(ctx, mode, nq, nt, sq, st, rule):
    ctx.assumptions = [ORACLE, "the code under test reaches Keccak only through the functions declared in fips202.h/fips202x4.h"]
    try:
        exe = build_mock(ctx, "o3", "gcc", ctx.project_flags("ref"), ctx.project_flags("avx2"), ["-O2"])
        san = san_mock(ctx)
    except HarnessError as e:
        # the hash interface changed shape: the scripted layer cannot stand in for it; observe real streams only
        ctx.notes.append("scripted hash layer does not fit the code any more, real streams only: %s" % str(e)[-300:])
        ctx.extra["scripted_layer"] = False
        exe = build_kem(ctx)
        ctx.run_harness(exe, "pke", ctx.n(nq, nt))
        ctx.rule = "scripted hash layer unavailable: PKE operations on real streams; distinct = different call input"
        return sum(ctx.stats.get(k, 0) for k in ("pke_keygen", "pke_enc", "pke_dec")), ctx.distinct()
    ctx.run_harness(exe, mode, ctx.n(nq, nt))
    # the other compiler, with the optional BMI sampler: the same scripts through other machine code
    alt = build_mock(ctx, "mcl", "clang", ["-O2"], ["-O2", "-DBMI"] + ctx.arch_flags("avx2"), ["-O2"])
    ctx.run_harness(alt, mode, ctx.n(nq // 4, nt // 4), label="clang-bmi:" + mode)
    ctx.run_harness(san, mode, ctx.n(sq, st), env=ASAN_ENV, san=True, label="asan+ubsan:" + mode)
    ctx.rule = rule
    return sum(ctx.stats.get(k, 0) for k in ("keygen", "enc", "dec_accepting", "dec_rejecting", "pke_dec")), ctx.distinct()


@check("C07")
def c07(ctx):
    return mocked(ctx, "xof", 60000, 200000, 600, 10000,
                  "case = one adversarial SHAKE128 stream script per matrix entry (14 families: Bernoulli, edge values, long rejecting prefix, exact accept count of the first batch, stuck at 255, periodic, all 8-candidate masks, holes, constants, different scripts per lane), driven through keygen/enc/dec of all implementations; distinct = different script")


@check("C08")
def c08(ctx):
    return mocked(ctx, "arith", 20000, 200000, 500, 10000,
                  "case = extremal noise script (13 families incl. NTT-row-matched signs) x matrix/key/secret scripts incl. ones chosen so that Montgomery products are extreme and aligned; distinct = different script")


def build_fips(ctx, tag, cc="gcc", ref_flags=None, avx_flags=None, hflags=("-O3", "-march=x86-64-v3"), link=(), hdefs=()):
    rf = list(ref_flags if ref_flags is not None else ctx.project_flags("ref"))
    af = list(avx_flags if avx_flags is not None else ctx.project_flags("avx2"))
    objs = ctx.objs(tag, "ref", (), cc, rf, kem=False) + ctx.objs(tag, "avx2", (), cc, af, kem=False)
    objs += ctx.harness_objs(tag, ["h_fips.c", "oracle.c"], cc, list(hflags), hdefs)
    return ctx.link(tag, "hf", objs, cc, list(link) + ["-lpthread"])


def san_fips(ctx):
    """the hash layer and its harness under ASan: locals and tables of the code under test are fenced as well"""
    return build_fips(ctx, "fsan", ref_flags=HSANF, avx_flags=HSANF + ctx.arch_flags("avx2"), hflags=HSANF + ["-march=x86-64-v3"],
                      hdefs=["-DSANITIZED"], link=["-fsanitize=address"])


def huge(ctx, exe, cases):
    """requests whose length does not fit 32 bits"""
    cmds = [[exe, "--mode", "huge", "--seed", str(ctx.seed), "--n", "1", "--start", str(c)] for c in cases]
    ctx.run_cmds(cmds, 600, None, "fips:huge")


@check("C18")
def c18(ctx):
    exe = build_fips(ctx, "o3")
    ctx.assumptions = ["sponge model validated by the project's KAT digests"]
    huge(ctx, exe, [1, 0, 2, 3, 4, 5])
    ctx.run_harness(exe, "sha", ctx.n(30000, 1000000))
    ctx.run_harness(san_fips(ctx), "sha", ctx.n(3000, 60000), env=ASAN_ENV, san=True, label="asan:sha")
    ctx.rule = "case = (function, variant, input length, output length, placement, content): every input length and every output length 0..1399 enumerated, random and rate-boundary lengths up to 20000, and lengths above 2^32; distinct = different (function, input, output length)"
    return sum(ctx.stats.get(k, 0) for k in ("sha3_calls", "shake_calls", "huge_calls")), ctx.distinct()


@check("C19")
def c19(ctx):
    exe = build_fips(ctx, "o3")
    ctx.assumptions = ["sponge model validated by the project's KAT digests", "squeezeblocks is called only on block boundaries, as its documentation requires"]
    huge(ctx, exe, [6, 7, 8, 9, 10, 11])
    ctx.run_harness(exe, "inc", ctx.n(40000, 1500000))
    ctx.run_harness(san_fips(ctx), "inc", ctx.n(2000, 60000), env=ASAN_ENV, san=True, label="asan:inc")
    ctx.rule = "case = history of 12-60 events (init/absorb/finalize/absorb_once/squeeze/squeezeblocks/state copy) over five interleaved states of four functions; distinct = different chunk-size history"
    return sum(ctx.stats.get(k, 0) for k in ("absorb_calls", "squeeze_calls", "huge_calls")), ctx.distinct()


@check("C20")
def c20(ctx):
    exe = build_fips(ctx, "o3")
    ctx.assumptions = ["sponge model validated by the project's KAT digests"]
    huge(ctx, exe, [12, 13, 14, 15])
    ctx.run_harness(exe, "x4", ctx.n(60000, 1500000))
    ctx.run_harness(san_fips(ctx), "x4", ctx.n(3000, 60000), env=ASAN_ENV, san=True, label="asan:x4")
    ctx.rule = "case = 4-way call: every input length and output length 0..999 enumerated, random ones, aliased lanes, all buffers against guard pages or at random alignment, one-shot and absorb_once+squeezeblocks with state copies, lengths above 2^32; distinct = different (lane input, output length)"
    return ctx.stats.get("x4_calls", 0) + ctx.stats.get("huge_calls", 0), ctx.distinct()


def vg(extra=()):
    return ["valgrind", "-q", "--error-exitcode=0", "--vex-guest-max-insns=25", "--partial-loads-ok=no", "--expensive-definedness-checks=yes"] + list(extra)


@check("C10")
def c10(ctx):
    ctx.assumptions = [ORACLE]
    pf = (ctx.project_flags("ref"), ctx.project_flags("avx2"))
    exe = build_kem(ctx, "o3", ("h_bounds.c",), stub=False, name="hb")
    vge = build_kem(ctx, "vg", ("h_bounds.c",), stub=False, name="hbv", hdefs=["-DVG"], hflags=("-O2",))
    fips = build_fips(ctx, "o3")
    san = build_kem(ctx, "san", ("h_bounds.c",), stub=False, name="hbs", ref_flags=SANF, avx_flags=SANF + ctx.arch_flags("avx2"), hflags=HSANF,
                    hdefs=["-DSANITIZED", "-DHEAP"], link=["-fsanitize=address,undefined"])
    kem = build_kem(ctx, "san", name="hks", ref_flags=SANF, avx_flags=SANF + ctx.arch_flags("avx2"), hflags=HSANF,
                    hdefs=["-DSANITIZED"], link=["-fsanitize=address,undefined"])
    mock = optional_mock(ctx, "sanm", "gcc", SANF)
    for m, q, t in (("xof", 400, 6000), ("arith", 150, 6000)) if mock else ():
        ctx.run_harness(mock, m, ctx.n(q, t), env={**ASAN_ENV, **IGN1}, san=True, label="asan:scripted-" + m)
    full = 6 * 8 * 4 * 66
    ctx.run_harness(exe, "bounds", full * ctx.n(1, 20))
    ctx.run_harness(vge, "bounds", ctx.n(full // 6, full * 2), wrapper=vg(), label="memcheck:bounds", start=0, extra=[])
    ctx.run_harness(san, "bounds", ctx.n(full // 2, full * 4), env={**ASAN_ENV, **IGN1}, san=True, label="asan:bounds")
    for m, q, t in (("keygen", 200, 6000), ("enc", 400, 20000), ("dec", 400, 20000), ("pke", 200, 10000)):
        ctx.run_harness(kem, m, ctx.n(q, t), env={**ASAN_ENV, **IGN1}, san=True, label="asan:" + m)
    for m, q, t in (("sha", 3000, 60000), ("inc", 2000, 60000), ("x4", 6000, 100000)):
        ctx.run_harness(fips, m, ctx.n(q, t), env=IGN1)
    fsan = san_fips(ctx)
    for m, q, t in (("sha", 1500, 30000), ("inc", 800, 30000), ("x4", 2000, 50000)):
        ctx.run_harness(fsan, m, ctx.n(q, t), env={**ASAN_ENV, **IGN1}, san=True, label="asan:" + m)
    ctx.rule = "case = (entry point, implementation, focused buffer, placement: against upper guard page / lower guard page / each of 64 alignments) with inputs read-only; natively, under memcheck with NOACCESS fences, under ASan with exact heap blocks; distinct = different call + placement (hash calls: different input)"
    return sum(v for k, v in ctx.stats.items() if k.startswith(("calls_at", "sha", "x4_calls", "squeeze", "absorb", "enc_", "dec_", "keygen", "pke"))), ctx.distinct()


NIST = os.path.join(REPO, "ref", "nistkat")


def build_rng(ctx, tag, cc="gcc", flags=("-O3",), hflags=("-O2", "-maes"), link=(), stub=False, hdefs=()):
    o = ctx.path(tag, "rng.o")
    ctx.cc_many([([cc, "-w"] + list(flags) + ["-I" + NIST, "-c", os.path.join(NIST, "rng.c"), "-o", o], "rng.c")])
    h = ctx.harness_objs(tag, ["h_rng.c", "oracle.c"] + (["evp_stub.c"] if stub else []), cc, list(hflags) + ["-I" + NIST], hdefs)
    return ctx.link(tag, "hr", h + [o], cc, list(link) + ([] if stub else ["-lcrypto"]))


def rng_huge(ctx):
    """a request of 2^31+77 bytes, with a fast stand-in for libcrypto; skipped when rng.c uses other EVP calls"""
    for opt in ("-O0", "-O3"):
        try:
            exe = build_rng(ctx, "huge" + opt, flags=(opt,), stub=True)
        except HarnessError:
            ctx.notes.append("huge request skipped: rng.c needs more of libcrypto than the stand-in offers")
            continue
        ctx.run_cmds([[exe, "--mode", "huge", "--n", "1", "--seed", str(ctx.seed)]], 400, None, "drbg:huge" + opt)


@check("C22")
def c22(ctx):
    ctx.assumptions = ["AES-256 model validated against FIPS 197 C.3 and AES-NI; libcrypto's AES is trusted to be AES"]
    rng_huge(ctx)
    for cc, fl in (("gcc", "-O3"), ("gcc", "-O0"), ("clang", "-O2")):
        exe = build_rng(ctx, cc + fl, cc, [fl])
        ctx.run_harness(exe, "drbg", ctx.n(10000, 300000))
    ctx.rule = "case = instantiation (entropy, optional personalisation) followed by 1-12 requests/updates of random lengths, with counters forced to carry across every byte; output, key, counter and reseed count compared after each step; distinct = different seed + length history"
    return sum(ctx.stats.get(k, 0) for k in ("drbg_inits", "drbg_requests", "drbg_updates")), ctx.distinct()


@check("C23")
def c23(ctx):
    ctx.assumptions = ["AES-256 model validated against FIPS 197 C.3 and AES-NI; libcrypto's AES is trusted to be AES"]
    for cc, fl in (("gcc", "-O3"), ("gcc", "-O0"), ("clang", "-O2")):
        exe = build_rng(ctx, cc + fl, cc, [fl])
        ctx.run_harness(exe, "exp", ctx.n(8000, 200000))
    ctx.rule = "case = expander (seed, diversifier, maximum length incl. all 32-bit boundaries) with 2-21 requests incl. zero, block-aligned, exact-limit, limit-1, beyond-limit, null output, near-exhausted, carrying block counters; distinct = different seed + request history"
    return sum(ctx.stats.get(k, 0) for k in ("expander_inits", "expander_requests", "expander_rejections")), ctx.distinct()


@check("C24")
def c24(ctx):
    ctx.assumptions = ["the model reproduces the project's own published digests (setup.sh)"]
    src = []
    for s in ctx.makevar("ref", "SOURCESKECCAK"):
        src.append(os.path.join(REPO, "ref", s))
    nf, skip = [], False
    for f in ctx.makevar("ref", "NISTFLAGS"):
        if f.startswith("-W"):
            continue
        nf.append({"-march=native": "-march=x86-64-v3", "-mtune=native": "-mtune=generic"}.get(f, f))
    kat = ctx.path("kat", "okat")
    ctx.cc_many([(["gcc", "-O2", "-w", "-I" + HARN, os.path.join(HARN, "oracle_kat.c"), os.path.join(HARN, "oracle.c"), "-o", kat], "oracle_kat")])
    base = [f for f in nf if not f.startswith("-O") and not f.startswith("-m")]
    builds = [("make", "gcc", nf), ("gcc-O0", "gcc", base + ["-O0"]), ("gcc-O2", "gcc", base + ["-O2"]), ("clang-O3", "clang", [f for f in nf]), ("clang-O0", "clang", base + ["-O0"]),
              ("gcc-Os-uchar", "gcc", base + ["-Os", "-funsigned-char"]), ("gcc-asan", "gcc", base + ["-O1", "-g", "-fsanitize=address,undefined"])]
    if not ctx.quick():
        builds += [("%s%s" % (c, o), c, base + [o]) for c in ("gcc", "clang") for o in ("-O1", "-Os", "-O3")] + [("gcc-lto", "gcc", base + ["-O3", "-flto"]), ("clang-pie", "clang", base + ["-O2", "-fPIC", "-fsigned-char"])]
    exp, cmds = {}, []
    for k in (2, 3, 4):
        os.makedirs(os.path.join(ctx.scratch, "exp%d" % k))
        ctx.cc_many([([kat, str(k), os.path.join(ctx.scratch, "exp%d" % k), "1"], "expected KAT")])
        for t, c, f in builds:
            cmds.append(([c, "-w"] + list(f) + ["-DKYBER_K=%d" % k, "-o", ctx.path("kat", "%s%d" % (t, k))] + src +
                         [os.path.join(NIST, "rng.c"), os.path.join(NIST, "PQCgenKAT_kem.c"), "-lcrypto"], t))
    ctx.cc_many(cmds)
    jobs = []
    for t, c, f in builds:
        for k in (2, 3, 4):
            for dirty in ("clean", "stale", "longer", "garbage", "twice"):
                jobs.append((t, k, dirty))
    import concurrent.futures as cf, shutil
    def run(j):
        t, k, dirty = j
        sk = SIZES[k][1]
        ed = os.path.join(ctx.scratch, "exp%d" % k)
        d = os.path.join(ctx.scratch, "run-%s-%d-%s" % (t, k, dirty))
        os.makedirs(d)
        names = ["PQCkemKAT_%d.req" % sk, "PQCkemKAT_%d.rsp" % sk]
        if dirty == "stale":
            for n in names:
                open(os.path.join(d, n), "w").write("count = 0\nseed = 00\n" * 3)
        elif dirty == "longer":
            for n in names:
                open(os.path.join(d, n), "wb").write(open(os.path.join(ed, n), "rb").read() * 2)
        elif dirty == "garbage":
            for n in names:
                open(os.path.join(d, n), "wb").write(os.urandom(3000))
        exe = ctx.path("kat", "%s%d" % (t, k))
        if ctx.bad and ctx.elapsed() > 150:
            return j, [], 0      # already failing
        for _ in range(2 if dirty == "twice" else 1):
            rc, o, e, to = ctx.run_one([exe], 90, dict(ASAN_ENV), cwd=d)
        res = []
        if to:
            ctx.bad = True
            res.append(("hang", "no result in 90 s"))
        elif rc != 0:
            res.append(("exit", "exit status %s %s %s" % (rc, o[-200:], e[-600:])))
        if "runtime error" in e or "AddressSanitizer" in e:
            res.append(("sanitizer", e[:800]))
        n_ok = 0
        for n in names:
            p = os.path.join(d, n)
            got = open(p, "rb").read() if os.path.exists(p) else b""
            want = open(os.path.join(ed, n), "rb").read()
            if got != want:
                gl, wl = got.split(b"\n"), want.split(b"\n")
                i = next((i for i in range(min(len(gl), len(wl))) if gl[i] != wl[i]), min(len(gl), len(wl)))
                res.append((n.split(".")[1], "first difference in line %d: %r, must be %r" % (i + 1, gl[i][:80] if i < len(gl) else None, wl[i][:80] if i < len(wl) else None)))
            else:
                n_ok += got.count(b"seed = ")
        extra = [x for x in os.listdir(d) if x not in names]
        if extra:
            res.append(("extra-files", str(extra)))
        shutil.rmtree(d)
        return j, res, n_ok
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (t, k, dirty), res, n_ok in ex.map(run, jobs):
            for key, det in res:
                ctx.viol("kyber%d:%s:%s" % (256 * k, t, key), "%s directory: %s" % (dirty, det), {"build": t, "k": k, "dir": dirty})
            ctx.stat("kat_runs", 1)
            ctx.stat("kat_entries_matched", n_ok)
    for j in jobs[:4]:
        ctx.samples.append("build %s K=%d directory %s" % j)
    ctx.rule = "case = (build of the KAT program, parameter set, state of the working directory); both files compared byte for byte with the model's; distinct = different (build, parameter set, directory state)"
    return ctx.stats["kat_runs"], len(jobs)


@check("C11")
def c11(ctx):
    ctx.assumptions = [ORACLE, "undefined behaviour as diagnosed by UBSan/ASan of gcc 13 and clang 18 in the C sources (assembly and intrinsics have none to diagnose)"]
    if True:   # KAT helper: request lengths beyond int
        for cc in ("gcc", "clang"):
            try:
                exe = build_rng(ctx, "huge" + cc, cc, ["-O1", "-g", "-fsanitize=undefined"], stub=True, link=["-fsanitize=undefined"], hdefs=["-DSANITIZED"])
            except HarnessError:
                ctx.notes.append("huge request skipped: rng.c needs more of libcrypto than the stand-in offers")
                continue
            ctx.run_cmds([[exe, "--mode", "huge", "--n", "1", "--seed", str(ctx.seed)]], 400, {**ASAN_ENV, **IGN2}, "ubsan:drbg:huge:" + cc, san=True)
    for cc in ("gcc", "clang"):
        for opt in (("-O1",) if ctx.quick() else ("-O0", "-O1", "-O3")):
            f = ["-g", opt, "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=address"]
            tag, lk = "san%s%s" % (cc, opt), ["-fsanitize=address,undefined"]
            kem = build_kem(ctx, tag, cc=cc, ref_flags=f, avx_flags=f + ctx.arch_flags("avx2"), hflags=HSANF, hdefs=["-DSANITIZED"], link=lk)
            bnd = build_kem(ctx, tag + "b", ("h_bounds.c",), cc=cc, stub=False, ref_flags=f, avx_flags=f + ctx.arch_flags("avx2"), hflags=HSANF, hdefs=["-DSANITIZED", "-DHEAP"], link=lk)
            fips = build_fips(ctx, tag, cc, f, f + ctx.arch_flags("avx2"), HSANF + ctx.arch_flags("avx2"), lk, ["-DSANITIZED"])
            mock = optional_mock(ctx, tag + "m", cc, f)
            rng = build_rng(ctx, tag, cc, f, HSANF + ["-maes"], lk, hdefs=["-DSANITIZED"])
            L = "san:%s%s:" % (cc, opt)
            for exe, m, q, t in ((kem, "keygen", 150, 5000), (kem, "enc", 300, 10000), (kem, "dec", 400, 15000), (kem, "pke", 150, 8000), (kem, "pkeround", 60, 768),
                                 (bnd, "bounds", 1500, 12672), (fips, "sha", 2900, 40000), (fips, "inc", 2000, 50000), (fips, "x4", 1500, 60000),
                                 (mock, "xof", 300, 8000), (mock, "arith", 300, 8000), (rng, "drbg", 500, 20000), (rng, "exp", 500, 20000)):
                if exe:
                    ctx.run_harness(exe, m, ctx.n(q, t), env={**ASAN_ENV, **IGN2}, san=True, label=L + m)
    ctx.rule = "case = call of an entry point (KEM, PKE, hash, 4-way hash, DRBG, expander; hostile inputs, extremal scripted sampler streams, zero lengths, all alignments) in builds instrumented by both compilers; distinct = different input"
    return sum(v for k, v in ctx.stats.items() if not k.startswith(("distinct", "max_", "cases", "candidates", "rejected", "hash_calls", "expander_bytes", "rounding"))), ctx.distinct()


# ------------------------------------------------------------------------------------------------ C16, C17
@check("C16")
def c16(ctx):
    ctx.assumptions = [ORACLE, "the library's only entropy source is randombytes() (C17 and C25 watch the system calls)"]
    exe = build_kem(ctx, "o3", ("h_rand.c",), stub=False, name="hra")
    ctx.run_harness(exe, "rand", ctx.n(12000, 400000))
    ctx.run_harness(exe, "long", 12, workers=12, env={"VP_LONG": str(ctx.n(70000, 1100000))}, wall=3000)
    # end to end: the project's own randombytes.c on a scripted system that delivers piecemeal
    for d in ("ref", "avx2"):
        o = os_backend(ctx, "e2e" + d, d, "linux", "gcc", ["-O3"])
        e2e = build_kem(ctx, "o3", ("h_e2e.c",), stub=False, name="he2e" + d, extra=[o])
        ctx.run_harness(e2e, "e2e", ctx.n(1500, 60000), label="e2e:" + d)
    ctx.rule = "case = history of 6-13 calls (randomised, derandomised, decapsulation; mixed implementations and parameter sets) with recorded entropy, incl. all-zero/all-one/half-zero entropy; distinct = different entropy + call history"
    return sum(ctx.stats.get(k, 0) for k in ("randomised_keygen", "randomised_enc", "dec", "derand_keygen", "derand_enc", "e2e_calls", "long_history_keygen", "long_history_enc")), ctx.distinct()


OSRENAME = ["syscall", "getrandom", "getentropy", "open", "open64", "openat", "openat64", "__open_2", "__open64_2", "read", "__read_chk", "close"]
BACKENDS = {
    "linux": [],
    "netbsd": ["-U__linux__", "-U__linux", "-Ulinux", "-include", os.path.join(HARN, "netbsd", "pre.h")],
    "dev": ["-U__linux__", "-U__linux", "-Ulinux"],
    "oldlinux": ["-I" + os.path.join(HARN, "nogetrandom")],
    "win": ["-U__linux__", "-U__linux", "-Ulinux", "-D_WIN32=1", "-I" + os.path.join(HARN, "win")],
}


def os_backend(ctx, tag, d, be, cc, flags, entry="randombytes"):
    """randombytes.o for one back end, its system calls renamed to the scripted ones"""
    o = ctx.path(tag, "rb_%s_%s.o" % (d, be))
    src = os.path.join(REPO, d)
    ctx.cc_many([([cc, "-w", "-U_FORTIFY_SOURCE"] + list(flags) + BACKENDS[be] + ["-I" + src, "-c", os.path.join(src, "randombytes.c"), "-o", o], o)])
    a = ["objcopy"]
    for s in OSRENAME:
        a += ["--redefine-sym", "%s=fake_%s" % (s, s)]
    ctx.cc_many([(a + ["--redefine-sym", "randombytes=" + entry, o], "objcopy")])
    return o


@check("C17")
def c17(ctx):
    ctx.assumptions = ["the scripted system implements the documented contracts of getrandom, open/read and CryptoAPI; the non-Linux back ends run against it on Linux"]
    for d in ("ref", "avx2"):
        for be in BACKENDS:
            for cc, fl in (("gcc", ["-O3", "-fomit-frame-pointer"]), ("clang", ["-O2"])):
                tag = "%s-%s-%s" % (d, be, cc)
                o = os_backend(ctx, tag, d, be, cc, fl, "uut")
                h = ctx.harness_objs(tag, ["h_os.c", "oracle.c"], "gcc", ["-O2"], ['-DBACKEND="%s"' % be])
                exe = ctx.link(tag, "hos", h + [o], "gcc")
                ctx.run_harness(exe, "os", ctx.n(4000, 150000), label="os:" + tag)
                if cc == "gcc" or not ctx.quick():
                    ctx.run_harness(exe, "huge", 1, label="huge:" + tag)
        o = ctx.path("real", d + ".o")
        src = os.path.join(REPO, d)
        ctx.cc_many([(["gcc", "-w", "-O3", "-Drandombytes=uut", "-I" + src, "-c", os.path.join(src, "randombytes.c"), "-o", o], o)])
        exe = ctx.link("real", "hreal" + d, ctx.harness_objs("real", ["h_real.c", "oracle.c"], "gcc", ["-O2"]) + [o])
        ctx.run_harness(exe, "real", ctx.n(100, 2000), workers=1)
    ctx.rule = "case = 1-4 requests against a scripted system: full, short, interrupted, zero-length and failing calls with stale errno, for 5 back ends (Linux, Linux without getrandom, NetBSD, /dev/urandom, Windows), 2 files, 2 compilers; one request above 2^32 bytes each; distinct = different (lengths, script)"
    if not ctx.viols and not (ctx.stats.get("aborted_on_failure") and ctx.stats.get("interruptions") and ctx.stats.get("short_deliveries")):
        raise HarnessError("a behaviour was never exercised")
    return sum(ctx.stats.get(k, 0) for k in ("requests_filled", "aborted_on_failure", "huge_requests", "real_requests")), ctx.distinct()


# ------------------------------------------------------------------------------------------------ C12, C25
@check("C12")
def c12(ctx):
    ctx.assumptions = [ORACLE, "MemorySanitizer sees the reference implementation only; memcheck sees both"]
    pure = build_kem(ctx, "o3", ("h_pure.c", "tramp.S"), name="hp", hflags=["-O2"] + ctx.arch_flags("avx2"))
    vgx = build_kem(ctx, "o3", ("h_pure.c",), name="hpv", hflags=["-O2"] + ctx.arch_flags("avx2"), hdefs=["-DVG"])
    ctx.run_harness(pure, "pure", ctx.n(4000, 200000))
    ctx.run_harness(pure, "long", 43, workers=43, env={"VP_LONG": str(ctx.n(70000, 1100000))}, wall=3000)
    ctx.run_harness(vgx, "pure", ctx.n(13 * 12, 13 * 300), wrapper=vg(["--undef-value-errors=yes"]), label="memcheck:pure")
    for opt in ctx.n(["-O1"], ["-O0", "-O1", "-O2", "-O3"]):
        f = ["-g", opt, "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins=0", "-fno-sanitize-recover=memory"]
        ms = build_kem(ctx, "msan" + opt, ("h_pure.c",), cc="clang", avx2=False, name="hpm", ref_flags=f, hflags=f + ["-mavx2"],
                       hdefs=["-DMSAN", "-DONLY_REF", "-DSANITIZED"], link=["-fsanitize=memory"])
        ctx.run_harness(ms, "pure", ctx.n(1500, 60000), san=True, label="msan" + opt + ":pure")
    ctx.rule = "case = three jobs (13 operations x implementations x honest/hostile inputs) run under five ambient patterns of stack, registers, vector registers and output buffers, then in random histories incl. the same call with one input byte changed; distinct = different job input"
    return ctx.stats.get("kem_pke_runs", 0) + ctx.stats.get("hash_runs", 0) + ctx.stats.get("long_history_calls", 0), ctx.distinct()


@check("C25")
def c25(ctx):
    ctx.assumptions = [ORACLE, "x86-64 System V ABI"]
    for tag, cc, fl in (("o3", "gcc", None), ("clang", "clang", ["-O2"])):
        exe = build_kem(ctx, tag, ("h_eff.c", "tramp.S"), cc=cc, name="he", hflags=["-O1", "-fno-builtin-malloc"] + ctx.arch_flags("avx2"),
                        ref_flags=fl, avx_flags=(fl + ctx.arch_flags("avx2")) if fl else None, link=["-Wl,-z,now"])
        ctx.run_harness(exe, "eff", ctx.n(6500, 200000), label="effects:" + cc)
    ctx.rule = "case = one operation (13 kinds, honest/hostile inputs) in a fresh process under a filter that kills on any system call, run twice; all writable memory compared before/after; distinct = different job input"
    return ctx.stats.get("calls_watched", 0), ctx.distinct()


# ------------------------------------------------------------------------------------------------ C13
TSAN_ENV = {"TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_thread_leaks=0:history_size=3", "GLIBC_TUNABLES": "glibc.pthread.rseq=0"}


def rb_obj(ctx, tag, d, be, cc, flags):
    o = ctx.path(tag, "rbreal_%s_%s.o" % (d, be))
    src = os.path.join(REPO, d)
    ctx.cc_many([([cc, "-w"] + list(flags) + BACKENDS[be] + ["-I" + src, "-c", os.path.join(src, "randombytes.c"), "-o", o], o)])
    return o


@check("C13")
def c13(ctx):
    ctx.assumptions = [ORACLE, "ThreadSanitizer does not see the assembly files; they are covered by result comparison and by write-protecting all static memory"]
    hf = ["-O2"] + ctx.arch_flags("avx2")
    nat = build_kem(ctx, "o3", ("h_thr.c",), name="ht", hflags=hf, link=["-lpthread"])
    lockd = build_kem(ctx, "o3", ("h_eff.c", "tramp.S"), name="hl", hflags=["-O1", "-fno-builtin-malloc"] + ctx.arch_flags("avx2"), link=["-Wl,-z,now"])
    tf = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"]
    ts = build_kem(ctx, "tsan", ("h_thr.c",), name="hts", ref_flags=tf, avx_flags=tf + ctx.arch_flags("avx2"), hflags=tf + ctx.arch_flags("avx2"),
                   hdefs=["-DSANITIZED"], link=["-fsanitize=thread", "-lpthread"])
    ctx.run_harness(nat, "threads", ctx.n(200, 10000), workers=3)
    ctx.run_harness(nat, "signals", ctx.n(160, 6000))
    ctx.run_harness(lockd, "locked", ctx.n(2600, 100000), env={"GLIBC_TUNABLES": "glibc.pthread.rseq=0"}, label="locked")
    ctx.run_harness(ts, "threads", ctx.n(64, 2500), env=TSAN_ENV, san=True, label="tsan:threads", workers=4)
    for d, be in (("ref", "linux"), ("ref", "dev"), ("avx2", "oldlinux"), ("avx2", "dev")):
        rb = rb_obj(ctx, "tsan", d, be, "gcc", tf)
        tr = build_kem(ctx, "tsan", ("h_thr.c",), stub=False, name="htr%s%s" % (d, be), ref_flags=tf, avx_flags=tf + ctx.arch_flags("avx2"),
                       hflags=tf + ctx.arch_flags("avx2"), hdefs=["-DSANITIZED", "-DRANDOM"], link=["-fsanitize=thread", "-lpthread"], extra=[rb])
        ctx.run_harness(tr, "random", ctx.n(8, 300), env=TSAN_ENV, san=True, label="tsan:random:%s-%s" % (d, be), workers=4)
    ctx.rule = "case = 8 threads running 12-60 operations each over 40 shared read-only jobs; 400 operations interrupted by nested timer signals running others; one operation with all static/TLS/heap memory write-protected; randomised calls from 8 threads over three random back ends; distinct = different per-thread schedule of jobs / job input / secrets"
    return sum(ctx.stats.get(k, 0) for k in ("thread_runs", "interrupted_runs", "calls_with_memory_locked", "randomised_thread_calls")), ctx.distinct()


# ------------------------------------------------------------------------------------------------ C14, C15
CTWRAP = ["-Wl,--wrap=pqcrystals_kyber_fips202_ref_sha3_512", "-Wl,--wrap=pqcrystals_kyber_fips202_avx2_sha3_512"]


def ct_variants(ctx):
    q = [("gcc", ["-O0"]), ("gcc", ["-O1"]), ("gcc", ["-O2"]), ("gcc", ["-Os"]), ("clang", ["-O0"]), ("clang", ["-O1"]), ("clang", ["-O2"]),
         ("clang", ["-O3"]), ("clang", ["-Os"]), ("clang", ["-Oz"])]
    if not ctx.quick():
        q += [("gcc", ["-O3"]), ("gcc", ["-Oz"]), ("gcc", ["-Og"]), ("gcc", ["-Ofast"]), ("gcc", ["-O3", "-march=x86-64-v3"]), ("clang", ["-O3", "-march=x86-64-v3"]),
              ("gcc", ["-O2", "-fno-tree-vectorize"]), ("clang", ["-O2", "-fno-vectorize", "-fno-slp-vectorize"]), ("gcc", ["-O3", "-fPIC", "-funroll-loops"]),
              ("clang", ["-Os", "-fno-vectorize"]), ("clang", ["-O1", "-fno-vectorize"]), ("gcc", ["-O3", "-DBMI"]), ("gcc", ["-O2", "-funsigned-char"])]
    return q


def memcheck_parse(ctx):
    def f(er, label, rep):
        er = er.split("VPCONTROLEND", 1)[-1]
        m = re.search(r"==\d+== ((?:Conditional jump|Use of uninit|Jump to|Syscall param)[^\n]*\n(?:==\d+== +(?:at|by) [^\n]*\n){1,4})", er)
        if m:
            ctx.notes.append("%s: %s" % (label, re.sub(r"==\d+== +", " ", m.group(1)).replace("\n", " | ")))
    return f


def ct_run(ctx, exe, mode, n, var):
    w = min(6, n)   # one implementation per process: each translates only its own code
    return [vg() + [exe, "--mode", mode, "--seed", str(ctx.seed), "--worker", str(i), "--workers", str(w), "--n", str(n), "--var", var] for i in range(w)]


@check("C14")
def c14(ctx):
    ctx.assumptions = ["secrets: d, z, coins, secret vector, rejection secret and everything derived; declassified: the matrix seed, the public key, the received ciphertext, the two outputs after return",
                       "memcheck tracks definedness per bit; timing of instructions other than control flow and addressing is not observed (division: C15)"]
    prs = memcheck_parse(ctx)
    vs = [("gcc-project", "gcc", ctx.project_flags("ref"), ctx.project_flags("avx2"))]
    for cc, f in ct_variants(ctx):
        vs.append((cc + "".join(f), cc, f, f + ctx.arch_flags("avx2")))
    cmds = []
    for name, cc, rf, af in vs:
        exe = build_kem(ctx, "ct" + name, ("h_ct.c",), cc=cc, ref_flags=rf, avx_flags=af, hflags=["-O2"], name="hct", link=CTWRAP, hdefs=[])
        n = 6 * (ctx.n(6, 60) if name == "gcc-project" else ctx.n(3, 24))
        cmds += ct_run(ctx, exe, "ct", n, name)
        ctx.stat("builds", 1)
    ctx.run_cmds(cmds, 600, None, "ct", sanparse=prs)
    ctx.rule = "case = (build, implementation, key generation seed / coins + public key / secret key + ciphertext); every conditional jump, indirect jump and address executed is observed; accepting and rejecting decapsulations; distinct = different (build, parameter set, seed)"
    if not ctx.viols and not (ctx.stats.get("dec_accepting") and ctx.stats.get("dec_rejecting")):
        raise HarnessError("one outcome never observed")
    return sum(ctx.stats.get(k, 0) for k in ("keygen", "enc", "dec")), ctx.distinct()


def build_div(ctx, tag, cc, rf, af):
    """compile to assembly, instrument divisions, assemble, link"""
    from . import divinst
    import concurrent.futures as cf
    jobs = []
    for d, fl in (("ref", rf), ("avx2", af)):
        per_k, hs = ctx.sources(d)
        for k in (2, 3, 4):
            jobs += [(d, s, k, fl) for s in per_k]
        jobs += [(d, s, 0, fl) for s in hs]
    jobs.append(("ctl", "ctl_div.c", 0, rf))
    def one(j):
        d, s, k, fl = j
        src = os.path.join(HARN, s) if d == "ctl" else os.path.join(REPO, d, s)
        inc = HARN if d == "ctl" else os.path.join(REPO, d)
        asm = ctx.path(tag, d, "k%d" % k, s.replace("/", "_") + ".s")
        base = [cc] + list(fl) + ["-w"] + (["-DKYBER_K=%d" % k] if k else []) + ["-I" + inc]
        r = subprocess.run(base + (["-E"] if s.endswith(".S") else ["-S"]) + [src, "-o", asm], env=clean_env(), capture_output=True, text=True, timeout=300)
        if r.returncode:
            raise HarnessError("build failed: %s: %s" % (s, r.stderr[-2000:]))
        t, n = divinst.instrument(open(asm).read(), d + "/" + s)
        open(asm, "w").write(t)
        o = asm[:-2] + ".o"
        r = subprocess.run([cc, "-w", "-c", asm, "-o", o, "-Wa,-I" + inc] + [f for f in fl if f.startswith("-m")], env=clean_env(), capture_output=True, text=True, timeout=300)
        if r.returncode:
            raise HarnessError("assembling the instrumented %s failed: %s" % (s, r.stderr[-2000:]))
        return o, (0 if d == "ctl" else n)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, jobs))
    objs = [o for o, n in res] + ctx.harness_objs("divh", ["h_ct.c", "oracle.c", "rb_stub.c"], "gcc", ["-O2"], ["-DDIVS"])
    exe = ctx.link(tag, "hdiv", objs, "gcc", CTWRAP + ["-no-pie"] + ["-Wl,--wrap=__%s" % f for f in ("udivti3", "umodti3", "divti3", "modti3")])
    return exe, sum(n for o, n in res)


@check("C15")
def c15(ctx):
    ctx.assumptions = ["same secrets as C14", "every div/idiv and floating-point division or square root in the compiler's assembly output is instrumented; 128-bit library division is wrapped"]
    vs = [("gcc-project", "gcc", ctx.project_flags("ref"), ctx.project_flags("avx2"))]
    for cc, f in ct_variants(ctx):
        vs.append((cc + "".join(f), cc, f, f + ctx.arch_flags("avx2")))
    per, cmds = {}, []
    for name, cc, rf, af in vs:
        rf, af = [f if f != "-fPIC" else "-O2" for f in rf], [f if f != "-fPIC" else "-O2" for f in af]
        exe, n = build_div(ctx, "div" + name, cc, rf, af)
        per[name] = n
        ctx.stat("division_sites_in_code_under_test", n)
        cmds += ct_run(ctx, exe, "div", 6 * ctx.n(2, 20), name)
        ctx.stat("builds", 1)
    ctx.run_cmds(cmds, 600, None, "div")
    ctx.extra["division_sites_per_build"] = per
    ctx.rule = "case = (build, implementation, keygen/enc/dec input) with the definedness of every executed division's operands recorded per site; positive controls run first in every process; distinct = different (build, parameter set, seed)"
    return sum(ctx.stats.get(k, 0) for k in ("keygen", "enc", "dec")), ctx.distinct()


# ------------------------------------------------------------------------------------------------ C21
SOLIBS = [("kyber%d_%s" % (256 * k, v), {"ref": "ref/lib/libpqcrystals_kyber%d_ref.so", "avx2": "avx2/libpqcrystals_kyber%d_avx2.so"}[v] % (256 * k))
          for v in ("ref", "avx2") for k in (2, 3, 4)] + \
         [("fips202_ref", "ref/lib/libpqcrystals_fips202_ref.so"), ("fips202_avx2", "avx2/libpqcrystals_fips202_ref.so"),
          ("fips202x4_avx2", "avx2/libpqcrystals_fips202x4_avx2.so")]


def so_deps(n):
    if n.endswith("_ref"):
        return ["fips202_ref"] if n.startswith("kyber") else []
    return ["fips202_avx2", "fips202x4_avx2"] if n.startswith("kyber") else []


def so_namespace(n):
    return "pqcrystals_%s_" % n if n.startswith("kyber") else "pqcrystals_kyber_%s_" % n


def tool(*a):
    r = subprocess.run(list(a), env=clean_env(), capture_output=True, text=True, timeout=120)
    if r.returncode:
        raise HarnessError("%s: %s" % (" ".join(a[:3]), r.stderr[-500:]))
    return r.stdout


def so_inspect(ctx, cc, libs, empty):
    """static shape of each library: exports, imports, writable data, stack, text relocations"""
    exported, imported = {}, {}
    def secs(p):
        r = {}
        for m in re.finditer(r"^\s*\[\s*\d+\]\s+(\S+)\s+(\S+)\s+[0-9a-f]+\s+[0-9a-f]+\s+([0-9a-f]+)\s+[0-9a-f]+\s+([WAXMSILOGTECxop]*)\s", tool("readelf", "-SW", p), re.M):
            r[m.group(1)] = (m.group(2), int(m.group(3), 16), m.group(4))
        return r
    base = secs(empty)
    for n, p in libs.items():
        ex = [l.split()[-1].split("@")[0] for l in tool("nm", "-D", "--defined-only", p).splitlines() if l.strip()]
        im = []
        for l in tool("nm", "-D", "--undefined-only", p).splitlines():
            f = l.split()
            if f:
                im.append((f[-1], f[-2]))
        exported[n], imported[n] = set(ex), im
        ns = so_namespace(n)
        for s in ex:
            ctx.stat("exported_names", 1)
            if not s.startswith(ns):
                ctx.viol("%s:export:%s" % (n, s), "[%s] %s exports %s, outside its namespace %s" % (cc, p, s, ns), {"nm": "nm -D --defined-only " + p})
        for s, (ty, size, fl) in secs(p).items():
            if "T" in fl and size:
                ctx.viol("%s:tls" % n, "[%s] %s has thread-local data in %s (%d bytes)" % (cc, p, s, size))
            elif "W" in fl and not re.match(r"\.(data\.rel\.ro|init_array|fini_array|dynamic|got|ctors|dtors|jcr|tm_clone_table)", s):
                if size > base.get(s, ("", 0, ""))[1]:
                    ctx.viol("%s:writable%s" % (n, s), "[%s] %s has %d bytes of writable data in %s (an empty library: %d)" % (cc, p, size, s, base.get(s, ("", 0, ""))[1]))
        ph = tool("readelf", "-lW", p)
        m = re.search(r"GNU_STACK\s.*?\s([RWE ]{3})\s+0x", ph)
        if not m or "E" in m.group(1):
            ctx.viol("%s:execstack" % n, "[%s] %s asks for an executable stack" % (cc, p))
        for m in re.finditer(r"LOAD\s+\S+\s+\S+\s+\S+\s+\S+\s+\S+\s+([RWE ]{3})", ph):
            if "W" in m.group(1) and "E" in m.group(1):
                ctx.viol("%s:wx" % n, "[%s] %s has a writable and executable segment" % (cc, p))
        dy = tool("readelf", "-dW", p)
        if "TEXTREL" in dy:
            ctx.viol("%s:textrel" % n, "[%s] %s needs text relocations" % (cc, p))
        for m in re.finditer(r"\(NEEDED\).*\[(.*?)\]", dy):
            if not re.match(r"(libc\.|ld-linux|libpqcrystals_fips202)", m.group(1)):
                ctx.viol("%s:needed:%s" % (n, m.group(1)), "[%s] %s needs %s" % (cc, p, m.group(1)))
        ctx.stat("libraries_inspected", 1)
    hashes = exported["fips202_ref"] | exported["fips202_avx2"] | exported["fips202x4_avx2"]
    for n, im in imported.items():
        for s, ty in im:
            ctx.stat("imported_names", 1)
            if "@GLIBC" in s or ty in ("w", "v") and not s.startswith("pqcrystals") or s == "randombytes" or s in hashes:
                continue
            ctx.viol("%s:import:%s" % (n, s), "[%s] %s needs %s, which neither the hash libraries nor libc provide" % (cc, libs[n], s))
    names = sorted(libs)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            for s in exported[a] & exported[b]:
                ctx.viol("collision:%s" % s, "[%s] %s is exported by both %s and %s" % (cc, s, a, b))


@check("C21")
def c21(ctx):
    import random, shutil, concurrent.futures as cf
    ctx.assumptions = ["glibc's dynamic linker on x86-64; results of the libraries are compared with a statically linked build of the same sources"]
    rnd = random.Random(ctx.seed)
    st = build_kem(ctx, "sost", ("h_so.c",), stub=False, name="hso", hflags=["-O2"] + ctx.arch_flags("avx2"), hdefs=["-DSTATIC"])
    rc, o, e, to = ctx.run_one([st] + ["R" + n for n, _ in SOLIBS], 120, {"VP_SEED": str(ctx.seed)})
    want = dict(l.split("\t")[1:3] for l in o.splitlines() if l.startswith("RES"))
    if len(want) != len(SOLIBS):
        raise HarnessError("static baseline failed: %s %s" % (o[-300:], e[-300:]))
    dyn = ctx.path("so", "hso")
    ctx.cc_many([(["gcc", "-O2", "-w", "-I" + HARN] + ctx.arch_flags("avx2") + [os.path.join(HARN, "h_so.c"), os.path.join(HARN, "oracle.c"), "-o", dyn, "-rdynamic", "-ldl"], "h_so")])
    for cc in ("gcc", "clang"):
        root = os.path.join(ctx.scratch, "so-" + cc)
        for d in ("ref", "avx2"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(root, d), ignore=shutil.ignore_patterns("*.o", "*.so", "lib", "test_*", "PQCgenKAT_kem[0-9]*"), symlinks=False)
        cmds = []
        for d in ("ref", "avx2"):
            cmds.append((["make", "-s", "-j8", "-C", os.path.join(root, d), "shared", "CC=" + cc], "make shared in %s with %s" % (d, cc)))
        ctx.cc_many(cmds)
        libs = {n: os.path.join(root, p) for n, p in SOLIBS}
        missing = [p for p in libs.values() if not os.path.exists(p)]
        if missing:
            raise HarnessError("make shared did not produce %s" % missing)
        empty = ctx.path("so", "empty-%s.so" % cc)
        open(ctx.path("so", "empty.c"), "w").write("int vp_empty(void) { return 0; }\n")
        ctx.cc_many([([cc, "-shared", "-fPIC", "-O3", ctx.path("so", "empty.c"), "-o", empty], "empty.so")])
        so_inspect(ctx, cc, libs, empty)
        scripts = []
        names = [n for n, _ in SOLIBS]
        for n in names:   # each alone with what it needs
            scripts.append(["L" + libs[d] for d in so_deps(n)] + ["N" + libs[n], "R" + n])
            scripts.append(["L" + libs[n]] + ["L" + libs[d] for d in so_deps(n)] + ["R" + n])
        for i in range(ctx.n(150, 4000)):
            order = names[:]
            rnd.shuffle(order)
            if i < len(names):   # every library once first, once last
                order = [names[i]] + [x for x in order if x != names[i]]
            elif i < 2 * len(names):
                x0 = names[i - len(names)]
                order = [x for x in order if x != x0] + [x0]
            s, loaded, idx, nopen = [], set(), {}, 0
            for n in order:
                ready = all(d in loaded for d in so_deps(n))
                s.append(("N" if ready and rnd.random() < .5 else "L") + libs[n])
                idx[n] = nopen
                nopen += 1
                loaded.add(n)
                if rnd.random() < .4:
                    c = [x for x in loaded if all(d in loaded for d in so_deps(x))]
                    if c:
                        s.append("R" + rnd.choice(c))
            if rnd.random() < .5:   # unload one library and load it again
                n = rnd.choice([x for x in names if x.startswith("kyber")])
                if rnd.random() < .5:
                    s.append("R" + n)
                s += ["C%d" % idx[n], "L" + libs[n]]
            last = names[:]
            rnd.shuffle(last)
            s += ["R" + n for n in last]
            scripts.append(s)
        def one(s):
            env = {"VP_SEED": str(ctx.seed)}
            if len(s) % 3 == 0:
                env["LD_BIND_NOW"] = ""
            if ctx.bad and ctx.elapsed() > 150:
                return s, None
            r = ctx.run_one([dyn] + s, 120, env)
            ctx.bad = ctx.bad or r[3]
            return s, r
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for s, r in ex.map(one, scripts):
                if r is None:
                    continue
                rc, o, e, to = r
                v, stt, sm, done = ctx.parse(o)
                rep = {"script": s, "compiler": cc}
                for k, d in v:
                    ctx.viol(k, "[%s] %s" % (cc, d), rep)
                for k, x in stt.items():
                    ctx.stat(k, x)
                for l in o.splitlines():
                    if l.startswith("RES"):
                        _, n, dg = l.split("\t")
                        if dg != want[n]:
                            ctx.viol("%s:results" % n, "[%s] %s computes other results among the loaded libraries than linked statically" % (cc, n), rep)
                if not done and not v:
                    ctx.viol("died:%s" % cc, "exit status %s%s, stderr %s" % (rc, ", timeout" if to else "", e[-500:]), rep)
                ctx.stat("loading_histories", 1)
        ctx.samples.append("[%s] %s" % (cc, " ".join(x.replace(root + "/", "") for x in scripts[30])[:500]))
        shutil.rmtree(root)
    ctx.rule = "case = loading history (order of nine libraries, binding mode, calls in between, unload/reload) with every library's results compared with a static build; plus inspection of every export, import, section and segment; two compilers; distinct = different (result, position in history)"
    return ctx.stats.get("library_runs", 0) + ctx.stats.get("exported_names", 0) + ctx.stats.get("imported_names", 0), ctx.stats["loading_histories"]


# ------------------------------------------------------------------------------------------------ C26
@check("C26")
def c26(ctx):
    ctx.assumptions = [ORACLE]
    af = ctx.arch_flags("avx2")
    vs = [("gcc-project", "gcc", ctx.project_flags("ref"), ctx.project_flags("avx2"), [])]
    def add(cc, *fl, **kw):
        f = list(fl)
        vs.append((cc + "".join(f), cc, f + kw.get("ref", []), f + af + kw.get("avx", []), kw.get("link", [])))
    for cc in ("gcc", "clang"):
        for o in ("-O0", "-O1", "-O2", "-O3", "-Os"):
            add(cc, o)
        add(cc, "-O2", "-funsigned-char")
        add(cc, "-O3", "-fPIC", "-fsigned-char")
        add(cc, "-O2", "-DBMI")
        add(cc, "-O3", "-flto", link=["-flto", "-O3"])
        add(cc, "-O3", "-march=x86-64-v3")
    add("clang", "-Oz")
    add("gcc", "-Og", "-DBMI")
    add("gcc", "-O3", "-std=c99", "-DNDEBUG")
    add("gcc", "-O2", "-D_FORTIFY_SOURCE=2", "-fstack-protector-all", "-ftrapv")
    add("clang", "-O2", "-std=c11", "-ffreestanding", "-fwrapv", "-fno-strict-aliasing")
    add("gcc", "-O3", "-ffast-math", "-funroll-loops", "-fno-builtin", "-march=native", "-mtune=native", avx=["-march=native"])
    add("clang", "-O1", "-std=gnu2x", "-DDEBUG", "-fPIE", "-ftrivial-auto-var-init=pattern", "-march=native", avx=["-march=native"])
    if not ctx.quick():
        for cc in ("gcc", "clang"):
            for o in ("-O0", "-O1", "-O3", "-Os"):
                add(cc, o, "-DBMI")
                add(cc, o, "-funsigned-char", "-fPIE")
                add(cc, o, "-fno-strict-aliasing", "-fwrapv")
            add(cc, "-O2", "-fno-vectorize" if cc == "clang" else "-fno-tree-vectorize")
            add(cc, "-O3", "-funroll-loops")
            add(cc, "-O2", "-fno-inline")
            add(cc, "-O2", "-std=gnu11", "-fstack-protector-all")
            add(cc, "-Os", "-flto", link=["-flto", "-Os"])
            add(cc, "-O3", "-DBMI", "-flto", "-march=x86-64-v3", link=["-flto", "-O3"])
            add(cc, "-Ofast")
        add("gcc", "-O1", "-ftrapv")
        add("gcc", "-O3", "-fno-omit-frame-pointer", "-mtune=znver3")
        add("gcc", "-O2", "-fshort-enums", "-fpack-struct=8")
    # one harness and model for all, so only the code under test differs
    h = ctx.harness_objs("c26h", ["h_kem.c", "oracle.c", "rb_stub.c"], "gcc", ["-O3"])
    mock = {}
    try:
        for d in ("ref", "avx2"):
            o = ctx.path("c26h", "mock_%s.o" % d)
            ctx.cc_many([(["gcc", "-O2", "-w", "-I" + os.path.join(REPO, d), "-I" + HARN] + (["-DX4"] + af if d == "avx2" else []) + ["-c", os.path.join(HARN, "mock_fips.c"), "-o", o], o)])
            mock[d] = o
        hm = ctx.harness_objs("c26h", ["h_mock.c"], "gcc", ["-O2"])
    except HarnessError as e:
        ctx.notes.append("scripted hash layer does not fit the code any more: %s" % str(e)[-200:])
        mock = {}
    import concurrent.futures as cf
    def build(v):
        name, cc, rf, aff, lk = v
        ko = ctx.objs("m" + name, "ref", (2, 3, 4), cc, rf, hashes=False) + ctx.objs("m" + name, "avx2", (2, 3, 4), cc, aff, hashes=False)
        ho = ctx.objs("m" + name, "ref", (), cc, rf, kem=False) + ctx.objs("m" + name, "avx2", (), cc, aff, kem=False)
        exe = ctx.link("m" + name, "h", ko + ho + h, cc, lk)
        m = None
        if mock:
            try:
                m = ctx.link("m" + name, "hm", ko + list(mock.values()) + hm + h[1:], cc, lk)
            except HarnessError as e:
                ctx.notes.append("scripted hash layer does not link: %s" % str(e)[-200:])
        return name, exe, m
    with cf.ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(build, vs))
    cmds = []
    for name, exe, m in exes:
        work = [(exe, x) for x in (("keygen", 240, 6000), ("enc", 300, 12000), ("dec", 360, 14000), ("pke", 150, 6000), ("pkeround", 96, 768))]
        if m:
            work += [(m, ("xof", 150, 5000)), (m, ("arith", 130, 5000))]
        for e, (md, q, t) in work:
            n = ctx.n(q, t)
            parts = 1 if ctx.quick() else 4
            cmds += [[e, "--mode", md, "--seed", str(ctx.seed), "--worker", str(i), "--workers", str(parts), "--n", str(n)] for i in range(parts)]
        ctx.stat("builds", 1)
    ctx.run_cmds(cmds, 420, None, "matrix")
    ctx.extra["builds"] = [x[0] for x in exes]
    ctx.rule = "case = (build, operation, input): the keygen/enc/dec/PKE workloads of C01-C03 and C09, honest and hostile, and the scripted streams and noise of C07 and C08, against each build; distinct = different (build, input)"
    return sum(v for k, v in ctx.stats.items() if k in ("keygen", "enc_honest_pk", "enc_noncanonical_pk", "enc_hostile_pk", "dec_accepting", "dec_rejecting", "pke_keygen", "pke_enc", "pke_dec")), ctx.distinct() * len(exes)
