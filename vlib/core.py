"""Driver core: builds /repo's current working tree into a private scratch directory, runs the
harnesses, merges what the monitors observed, and turns it into a verdict + evidence file."""
import concurrent.futures as cf
import array
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
JOBS = min(8, os.cpu_count() or 4)


class HarnessError(Exception):
    """The check itself could not run (build failure, missing tool, nothing observed)."""


def clean_env():
    e = dict(os.environ)
    for v in ("CFLAGS", "NISTFLAGS", "LDFLAGS", "MAKEFLAGS", "CC", "CPPFLAGS", "LD_PRELOAD", "MAKELEVEL"):
        e.pop(v, None)
    e["LC_ALL"] = "C"
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return e


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.viols = []          # (key, detail, repro)
        self.stats = {}
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.level = "exploration"
        self.exhaustive = False
        self._make = {}
        self._objs = {}
        self.notes = []
        self.bad = False

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def elapsed(self):
        return time.time() - self.t0

    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def path(self, *p):
        r = os.path.join(self.scratch, *p)
        os.makedirs(os.path.dirname(r), exist_ok=True)
        return r

    # ---- reporting -----------------------------------------------------------
    def stat(self, name, v):
        if name.startswith("max_"):
            self.stats[name] = max(self.stats.get(name, 0), v)
        else:
            self.stats[name] = self.stats.get(name, 0) + v

    def viol(self, key, detail, repro=None):
        self.viols.append((key, detail, repro or {}))

    # ---- building --------------------------------------------------------------
    def makevar(self, d, var):
        k = (d, var)
        if k not in self._make:
            r = subprocess.run(["make", "-s", "--no-print-directory", "-C", os.path.join(REPO, d),
                                "--eval=vp-print:;@echo $(%s)" % var, "vp-print"],
                               env=clean_env(), capture_output=True, text=True, timeout=60)
            if r.returncode:
                raise HarnessError("cannot read %s from %s/Makefile: %s" % (var, d, r.stderr))
            self._make[k] = r.stdout.split()
        return self._make[k]

    def sources(self, d):
        """(per-K sources, hash sources) of one implementation directory, from its Makefile."""
        allsrc = []
        for s in self.makevar(d, "SOURCESKECCAK"):
            if s.endswith(".o"):
                s = s[:-2] + ".c"
            if s not in allsrc:
                allsrc.append(s)
        def is_hash(s):
            return s.startswith("fips202") or s.startswith("keccak4x/")
        return [s for s in allsrc if not is_hash(s)], [s for s in allsrc if is_hash(s)]

    def project_flags(self, d):
        fl, out, skip = self.makevar(d, "CFLAGS"), [], False
        for f in fl:
            if skip:
                skip = False
                continue
            if f == "-z":
                skip = True
                continue
            if f.startswith("-W"):
                continue
            out.append({"-march=native": "-march=x86-64-v3", "-mtune=native": "-mtune=generic"}.get(f, f))
        return out

    def arch_flags(self, d):
        return [f for f in self.project_flags(d) if f.startswith("-m")]

    def cc_many(self, cmds):
        """cmds: list of (argv, what). Runs compilations in parallel; a failure is a HarnessError."""
        def one(c):
            r = subprocess.run(c[0], env=clean_env(), capture_output=True, text=True, timeout=600)
            return r, c
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r, c in ex.map(one, cmds):
                if r.returncode:
                    raise HarnessError("build failed: %s: %s" % (c[1], r.stderr[-3000:]))

    def objs(self, tag, d, ks, cc, flags, hashes=True, kem=True, defs=(), asm_flags=None, srcdir=None):
        """Compile implementation directory d for the given K values; returns object list."""
        per_k, hsrc = self.sources(d)
        src = srcdir or os.path.join(REPO, d)
        out, cmds = [], []
        def add(s, k):
            o = self.path(tag, d, "k%s" % k, s.replace("/", "_") + ".o")
            fl = list(asm_flags) if (asm_flags is not None and s.endswith(".S")) else list(flags)
            a = [cc] + fl + list(defs) + (["-DKYBER_K=%d" % k] if k else []) + ["-I" + src, "-c", os.path.join(src, s), "-o", o]
            cmds.append((a, s))
            out.append(o)
        if kem:
            for k in ks:
                for s in per_k:
                    add(s, k)
        if hashes:
            for s in hsrc:
                add(s, 0)
        self.cc_many(cmds)
        return out

    def harness_objs(self, tag, files, cc="gcc", flags=("-O2",), defs=()):
        out, cmds = [], []
        for f in files:
            o = self.path(tag, "h", f.replace("/", "_") + ".o")
            cmds.append(([cc] + list(flags) + ["-w"] + list(defs) + ["-I" + HARN, "-c", os.path.join(HARN, f), "-o", o], f))
            out.append(o)
        self.cc_many(cmds)
        return out

    def link(self, tag, name, objs, cc="gcc", flags=()):
        exe = self.path(tag, "exe", name)
        cmd = [([cc] + list(objs) + ["-o", exe] + list(flags), name)]
        try:
            self.cc_many(cmd)
        except HarnessError as e:
            # several implementations define the same global name: C21 judges that; every other check links
            # them together only for its own convenience, so give such names the namespace they lack
            if "multiple definition" not in str(e) or not self.separate(objs):
                raise
            self.cc_many(cmd)
        return exe

    def separate(self, objs):
        groups = {}
        for o in objs:
            m = re.search(r"/(ref|avx2)/k([0234])/[^/]*\.o$", o)
            if m:
                groups.setdefault((m.group(1), int(m.group(2))), []).append(o)
        names = {}
        for g, l in groups.items():
            r = subprocess.run(["nm", "-A", "--defined-only", "-g"] + l, capture_output=True, text=True)
            names[g] = {x.split()[-1] for x in r.stdout.splitlines()
                        if len(x.split()) >= 2 and x.split()[-2] in "TDBRCGS" and not x.split()[-1].startswith(("_", "pqcrystals_"))}
        any_ = False
        for (d, k), l in groups.items():
            ren = {x: "pqcrystals_kyber_fips202_%s_%s" % (d, x) for x in names.get((d, 0), ())}
            if k:
                ren.update({x: "pqcrystals_kyber%d_%s_%s" % (k * 256, d, x) for x in names[(d, k)]})
            if not ren:
                continue
            any_ = True
            a = ["--redefine-sym=%s=%s" % x for x in sorted(ren.items())]
            for o in l:
                subprocess.run(["objcopy"] + a + [o], check=True)
        return any_

    # ---- running --------------------------------------------------------------
    def run_one(self, argv, wall, env=None, cwd=None):
        e = clean_env()
        self._hn = getattr(self, "_hn", 0) + 1
        hf = self.path("hashes", "h%d-%f" % (self._hn, time.time()))
        e["VERIF_HASHES"] = hf
        if env:
            e.update(env)
        out = open(self.path("out", "o%d" % id(argv) + "_%f" % time.time()), "w+b")
        err = open(out.name + ".err", "w+b")
        p = subprocess.Popen(argv, stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=e, cwd=cwd or self.scratch,
                             start_new_session=True)
        to = False
        try:
            p.wait(wall)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        out.seek(0); err.seek(0)
        o = out.read().decode("latin1"); er = err.read().decode("latin1")
        out.close(); err.close(); os.unlink(out.name); os.unlink(err.name)
        return p.returncode, o, er, to

    def distinct(self):
        """distinct case hashes over all worker processes of this run"""
        d = self.path("hashes", "x")
        d = os.path.dirname(d)
        seen = set()
        for f in sorted(os.listdir(d)):
            b = open(os.path.join(d, f), "rb").read()
            a = array.array("Q")
            a.frombytes(b[:len(b) // 8 * 8])
            seen.update(a)
            if len(seen) > 12000000:
                break
        return len(seen)

    def parse(self, o):
        v, st, sm, done = [], {}, [], False
        for l in o.splitlines():
            f = l.split("\t", 2)
            if f[0] == "VIOL" and len(f) >= 2:
                v.append((f[1], f[2] if len(f) > 2 else ""))
            elif f[0] == "STAT" and len(f) == 3:
                st[f[1]] = st.get(f[1], 0) + int(f[2])
            elif f[0] == "SAMPLE":
                sm.append("\t".join(f[1:]))
            elif l == "DONE":
                done = True
        return v, st, sm, done

    def run_harness(self, exe, mode, n, extra=(), workers=None, wall=420, env=None, wrapper=(), label=None,
                    san=False, start=0):
        """Run one harness mode split over worker processes and merge observations."""
        w = workers or JOBS
        w = max(1, min(w, n))
        cmds = []
        for i in range(w):
            cmds.append(list(wrapper) + [exe, "--mode", mode, "--seed", str(self.seed), "--worker", str(i),
                                         "--workers", str(w), "--n", str(n), "--start", str(start)] + [str(x) for x in extra])
        self.run_cmds(cmds, wall, env, label or os.path.basename(exe) + ":" + mode, san)

    def run_cmds(self, cmds, wall=420, env=None, label="", san=False, sanparse=None):
        budget = 820 if self.quick() else 1e9    # an answer is due within 900 s
        def left():
            return budget - (time.time() - self.t0)
        def one(argv):
            if self.bad and time.time() - self.t0 > 150:
                return argv, None      # already failing: no need to sit through more hangs
            r = self.run_one(argv, max(20, min(wall, 300 if self.quick() else wall, left())), env)
            if r[3] and left() > 60:   # watchdog: inconclusive, once more before it counts as a hang
                self.notes.append("watchdog fired once: %s" % label)
                r = self.run_one(argv, max(20, min(wall, 300 if self.quick() else wall, left())), env)
            if r[3] or r[0] not in (0, 3) or "VIOL\t" in r[1]:
                self.bad = True
            return argv, r
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for argv, res in ex.map(one, cmds):
                if res is None:
                    self.notes.append("skipped after a violation: %s" % label)
                    continue
                rc, o, er, to = res
                v, st, sm, done = self.parse(o)
                rep = {"argv": argv, "label": label, "env": env or {}}
                for k, d in v:
                    self.viol(k, d, rep)
                for k, x in st.items():
                    self.stat(k, x)
                self.samples += [label + " | " + s for s in sm]
                if san:
                    self.sanitizer_reports(er, label, rep)
                if sanparse:
                    sanparse(er, label, rep)
                if to:
                    self.viol("hang:" + label, "no result within %d s" % wall, rep)
                elif not done and not v:
                    if san and self.viols:
                        continue
                    if rc == 3:
                        raise HarnessError("%s: %s" % (label, er[-2000:]))
                    # died without its own report: the code under test ended the process
                    self.viol("died:%s" % label, "exit status %s, stderr: %s" % (rc, er[-1500:]), rep)

    def sanitizer_reports(self, er, label, rep):
        seen = set()
        for m in re.finditer(r"(\S+?):(\d+):(\d+): runtime error: ([^\n]*)", er):
            key = "ubsan:%s:%s" % (self.relsrc(m.group(1)), re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(4))[:80])
            if key not in seen:
                seen.add(key)
                self.viol(key, "%s:%s: %s [%s]" % (m.group(1), m.group(2), m.group(4), label), rep)
        for m in re.finditer(r"(AddressSanitizer|MemorySanitizer|ThreadSanitizer)[: ]+([^\n]*)", er):
            if m.group(0).startswith("AddressSanitizer:DEADLYSIGNAL") or m.group(2).startswith("reported ") or "SUMMARY" in er[max(0, m.start() - 10):m.start()]:
                continue
            frames = [f for f in re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+) [^\n]*?([\w./-]+\.[cSh])?(?::\d+)*\n", er[m.end():m.end() + 3000])]
            fn = "?"
            for f in frames:
                if not f[0].startswith("__") and not f[0].startswith("mem"):
                    fn = f[0]
                    break
            kind = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(2)).split(" on ")[0][:50].strip()
            key = "%s:%s:%s" % (m.group(1), kind, fn)
            if key not in seen:
                seen.add(key)
                self.viol(key, er[m.start():m.start() + 1500].replace("\n", " | "), rep)

    def relsrc(self, p):
        return p.replace(REPO + "/", "")

    # ---- the end --------------------------------------------------------------
    def known(self):
        k = []
        p = os.path.join(VERIF, "known-findings.jsonl")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l and not l.startswith("#"):
                    d = json.loads(l)
                    if d.get("property") == self.prop and d.get("status") == "known":
                        k.append(d)
        return k

    def finish(self, evaluations, distinct):
        wall = time.time() - self.t0
        known, real, hit = self.known(), [], {}
        for key, det, rep in self.viols:
            for kf in known:
                if kf["key"] == key:
                    hit[kf["key"]] = kf
                    break
            else:
                real.append((key, det, rep))
        for kf in known:
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, kf["what"], "" if kf["key"] in hit else " (not reproduced in this run)"))
        by = {}
        for key, det, rep in real:
            by.setdefault(key, []).append((det, rep))
        cov = {"evaluations": int(evaluations), "distinct_nontrivial": int(distinct), "rule": self.rule,
               "samples": [s[:600] for s in self.samples[:12]], "observed": {k: v for k, v in sorted(self.stats.items())}}
        if self.exhaustive:
            cov["exhaustive"] = True
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(by)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        self.log("observed", json.dumps(self.stats))
        for nt in list(dict.fromkeys(self.notes))[:40]:
            self.log("note:", nt)
        if by:
            rp = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                       "rerun": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check %s" % (self.seed, self.tier, self.prop),
                       "violations": [{"key": k, "count": len(v), "detail": v[0][0], "run": v[0][1]} for k, v in by.items()]},
                      open(rp, "w"), indent=1)
            for k, v in list(by.items())[:15]:
                self.log("violation %s (x%d): %s" % (k, len(v), v[0][0][:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            return 1
        if evaluations <= 0 or distinct <= 0 or not self.samples:
            raise HarnessError("nothing observed (evaluations=%d distinct=%d samples=%d)" % (evaluations, distinct, len(self.samples)))
        self.log("held on everything explored: %d evaluations, %d distinct" % (evaluations, distinct))
        return 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
