"""Driver of the monitors: builds the library under test from /repo's working
tree, runs harnesses in parallel, merges what they observed, decides the
verdict and writes the evidence file."""
import atexit, concurrent.futures, hashlib, json, os, re, resource, shutil, signal
import struct, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 4)

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
VARIANTS = {
    # name: (compiler, compile flags, link flags)
    "san": ("clang++", f"-O1 -g1 {SAN} -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR", SAN),
    "gsan": ("g++", f"-O1 -g1 {SAN} -D_GLIBCXX_ASSERTIONS", SAN),
    "sanrel": ("clang++", f"-O2 -g1 {SAN} -DNDEBUG -D_GLIBCXX_ASSERTIONS", SAN),
    "rel": ("g++", "-O2 -g1 -DNDEBUG", ""),
    "crel": ("clang++", "-O2 -g1 -DNDEBUG", ""),
    "dbg": ("g++", "-O1 -g1 -D_GLIBCXX_ASSERTIONS", ""),
    "vg": ("g++", "-O1 -g1 -DNDEBUG", ""),
    "tsan": ("clang++", "-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer", "-fsanitize=thread"),
    "pat": ("clang++", "-O1 -g1 -DNDEBUG -ftrivial-auto-var-init=pattern", ""),
    "zero": ("clang++", "-O1 -g1 -DNDEBUG -ftrivial-auto-var-init=zero", ""),
    "fuzz": ("clang++", f"-O1 -g1 -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
             "-fsanitize=fuzzer,address,undefined"),
}
# many instantiations: optimising these harnesses under sanitizers takes longer than running them
HFLAGS = {("c25", "san"): "-O0"}
BASE = "-std=gnu++17 -w -pthread"

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=1:malloc_context_size=12:print_legend=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_signal_unsafe=0:history_size=4",
}


class HarnessError(Exception):
    pass


class Hang(Exception):
    """a case was found not to terminate, which Runner has recorded"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def read_records(path):
    with open(path, "rb") as f:
        while True:
            h = f.read(4)
            if len(h) < 4:
                return
            out = []
            for _ in range(struct.unpack("<I", h)[0]):
                n = struct.unpack("<Q", f.read(8))[0]
                out.append(f.read(n))
            yield out


def write_record(f, fields):
    f.write(struct.pack("<I", len(fields)))
    for x in fields:
        if isinstance(x, str):
            x = x.encode()
        f.write(struct.pack("<Q", len(x)))
        f.write(x)


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"vt-{pid}-")
        atexit.register(shutil.rmtree, self.work, True)
        self.evals = 0
        self.compares = 0
        self.counters = {}
        self.covers = {}
        self.samples = []
        self.hashes = set()
        self.fails = []
        self.notes = []
        self.inconclusive = 0
        self.hung = False
        self.max_case_cpu = 0
        self.njob = 0
        self.srchash = None

    # ---- building ---------------------------------------------------------
    def sources(self):
        src = []
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in sorted(fs):
                if f.endswith((".cpp", ".c", ".cc", ".cxx")):
                    src.append(os.path.join(d, f))
        return sorted(src)

    def hash_tree(self):
        if self.srchash is None:
            h = hashlib.sha256()
            for top in ("src", "include"):
                for d, ds, fs in os.walk(os.path.join(REPO, top)):
                    ds.sort()
                    for f in sorted(fs):
                        p = os.path.join(d, f)
                        h.update(os.path.relpath(p, REPO).encode() + b"\0")
                        with open(p, "rb") as fh:
                            h.update(hashlib.sha256(fh.read()).digest())
            for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
                if f.endswith(".h"):
                    with open(os.path.join(VERIF, "harness", f), "rb") as fh:
                        h.update(fh.read())
            self.srchash = h.hexdigest()
        return self.srchash

    def _compile(self, job):
        src, obj, cxx, flags = job
        if os.path.exists(obj):
            return
        tmp = f"{obj}.{os.getpid()}.{time.time_ns()}.tmp"
        r = sh([cxx] + flags.split() + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise HarnessError(f"compiling {src} failed:\n{r.stderr.decode(errors='replace')[-4000:]}")
        os.rename(tmp, obj)

    def build(self, *wanted):
        """wanted: (harness, variant[, link flags]) tuples; returns executables."""
        wanted = [w if len(w) == 3 else (w[0], w[1], "") for w in wanted]
        cache = os.path.join(VERIF, ".cache")
        os.makedirs(cache, exist_ok=True)
        jobs, links, exes = {}, [], []
        inc = f"-I{REPO}/include -I{REPO}/src -I{VERIF}/harness"
        for harness, variant, lflags in wanted:
            cxx, cflags, vl = VARIANTS[variant]
            flags = f"{BASE} {cflags} {inc}"
            fh = hashlib.sha256((self.hash_tree() + flags + cxx).encode()).hexdigest()[:20]
            d = os.path.join(cache, f"{variant}-{fh}")
            os.makedirs(d, exist_ok=True)
            os.utime(d)
            objs = []
            for s in self.sources():
                o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
                jobs[o] = (s, o, cxx, flags)
                objs.append(o)
            hs = os.path.join(VERIF, "harness", harness + ".cpp")
            with open(hs, "rb") as f:
                hh = hashlib.sha256(f.read() + HFLAGS.get((harness, variant), "").encode()).hexdigest()[:12]
            ho = os.path.join(d, f"h_{harness}_{hh}.o")
            jobs[ho] = (hs, ho, cxx, f"{flags} {HFLAGS.get((harness, variant), '')}")
            exe = os.path.join(d, f"x_{harness}_{hh}_{hashlib.sha256(lflags.encode()).hexdigest()[:6]}")
            exes.append(exe)
            links.append((exe, f"{cxx} -pthread {vl} {ho} {' '.join(objs)} {lflags}"))
        order = sorted(jobs.values(), key=lambda j: 0 if "/harness/" in j[0] or "miniz" in j[0] else 1)
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(self._compile, order))

            def link(l):
                exe, cmd = l
                if os.path.exists(exe):
                    return
                tmp = f"{exe}.{os.getpid()}.{time.time_ns()}.tmp"
                r = sh(cmd.split() + ["-o", tmp])
                if r.returncode != 0:
                    raise HarnessError(f"linking failed: {cmd}\n{r.stderr.decode(errors='replace')[-4000:]}")
                os.rename(tmp, exe)
            list(ex.map(link, dict(links).items()))
        self._prune(cache)
        return exes if len(exes) > 1 else exes[0]

    def _prune(self, cache):
        ds = sorted((os.path.join(cache, x) for x in os.listdir(cache)), key=lambda p: os.stat(p).st_mtime)
        now = time.time()
        for p in ds[:-60]:
            if now - os.stat(p).st_mtime > 3600:
                shutil.rmtree(p, ignore_errors=True)

    # ---- running ----------------------------------------------------------
    def _spawn(self, exe, argv, cpu, wall, env, errpath, prefix=(), progress="", casewall=None):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env or {})
        with open(errpath, "wb") as err:
            p = subprocess.Popen(list(prefix) + [exe] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                 stderr=err, env=e, cwd=self.work, process_group=0)
            try:
                resource.prlimit(p.pid, resource.RLIMIT_CPU, (int(cpu), int(cpu) + 5))
            except OSError:
                pass  # it has ended already, or the clock limit alone applies
            end, rc = time.monotonic() + wall, None
            while rc is None:
                try:
                    rc = p.wait(timeout=max(0.05, min(10, end - time.monotonic())))
                except subprocess.TimeoutExpired:
                    if time.monotonic() >= end or (casewall and self._case_age(progress) > casewall):
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        rc = "timeout"
        return rc

    def _case_age(self, out):
        """how long the process has been in its current case, by the clock"""
        try:
            with open(out + ".progress", "rb") as f:
                idx, _, started = struct.unpack("<QQQ", f.read(24))
            return time.monotonic() - started if idx < 2**63 else 0
        except Exception:
            return 0

    def _progress(self, out):
        try:
            with open(out + ".progress", "rb") as f:
                b = f.read()
            idx, done, _ = struct.unpack("<QQQ", b[:24])
            return idx, done, b[24:].split(b"\0")[0].decode(errors="replace")
        except Exception:
            return 2**64 - 1, 0, ""

    @staticmethod
    def classify(err):
        for pat in (r"SUMMARY: (.*)", r"(runtime error: .*)", r"(terminate called.*(?:\n.*what.*)?)", r"(Assertion .*)", r"(ERROR: .*)"):
            m = re.search(pat, err)
            if m:
                return m.group(1).replace("\n", " ")
        return err.strip().split("\n")[-1][:200] if err.strip() else "no message"

    @staticmethod
    def crash_kind(err, rc):
        m = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
        if m:
            return f"{m.group(1)}-{m.group(2)}"
        if "runtime error" in err:
            return "UndefinedBehaviorSanitizer"
        if "terminate called" in err or "libc++abi" in err:
            return "terminate"
        if "Assertion" in err or "assert" in err:
            return "assertion"
        if isinstance(rc, int) and rc < 0:
            return signal.Signals(-rc).name
        return f"exit{rc}"

    def _shard(self, exe, base, lo, hi, shard, nshards, cpu, wall, env, tag, prefix, okcodes, casecpu, casewall):
        """run one shard, resuming after crashes; returns list of result dicts"""
        results, restarts = [], 0
        while True:
            self_id = f"{tag}-{shard}-{restarts}"
            out = os.path.join(self.work, self_id + ".json")
            errp = os.path.join(self.work, self_id + ".err")
            w = os.path.join(self.work, f"w-{self_id}")
            os.makedirs(w, exist_ok=True)
            argv = base + ["--begin", str(lo), "--end", str(hi), "--shard", str(shard), "--nshards", str(nshards), "--out", out, "--work", w]
            if self.hung:
                return results  # another shard has found a hang: no need to wait for more
            rc = self._spawn(exe, argv, cpu, wall, env, errp, prefix, out, casewall)
            with open(errp, "rb") as f:
                err = f.read(4000000).decode(errors="replace")
            shutil.rmtree(w, ignore_errors=True)
            res = {"rc": rc, "err": err, "evals": 0, "fails": [], "shard": shard}
            if rc == 0 or rc in okcodes:
                if not os.path.exists(out):
                    raise HarnessError(f"{exe} wrote no result: {err[-2000:]}")
                with open(out, encoding="latin-1") as f:
                    res.update(json.load(f))
                with open(out + ".hashes", "rb") as f:
                    hb = f.read()
                res["hashes"] = set(struct.unpack(f"<{len(hb)//8}Q", hb))
                results.append(res)
                return results
            idx, done, note = self._progress(out)
            if rc in (2, 3, 4):
                raise HarnessError(f"{exe} {argv} exited with {rc}: {err[-3000:]}")
            res["evals"] = done
            timeout = rc == "timeout" or rc in (-signal.SIGXCPU, -signal.SIGPROF, -signal.SIGKILL)
            in_case = idx < 2**63
            if timeout:
                if not in_case:
                    raise HarnessError(f"{exe} {argv}: timed out outside a case")
                # run that case alone before believing in a hang
                if self.hung:
                    return results
                w2 = w + "-solo"
                os.makedirs(w2, exist_ok=True)
                argv2 = base + ["--begin", str(idx), "--end", str(idx + 1), "--shard", "0", "--nshards", "1", "--out", out + ".solo", "--work", w2]
                rc2 = self._spawn(exe, argv2, cpu, casewall, env, errp + ".solo", prefix)
                shutil.rmtree(w2, ignore_errors=True)
                if rc2 == "timeout" or rc2 in (-signal.SIGXCPU, -signal.SIGPROF, -signal.SIGKILL):
                    self.hung = True
                    res["fails"] = [{"key": "hang", "count": 1, "case": idx,
                                     "detail": f"case does not finish (run twice: {rc}, {rc2}; limits {casecpu} s of CPU time, {casewall} s): {note}"}]
                else:
                    res["inconclusive"] = 1
            else:
                kind = self.crash_kind(err, rc)
                res["fails"] = [{"key": "crash-" + kind, "count": 1, "case": idx if in_case else -1,
                                 "detail": f"{self.classify(err)} | {note} | rc={rc}\n{err[-6000:]}"}]
            results.append(res)
            restarts += 1
            if not in_case or restarts > 3 or timeout:
                return results
            lo = idx + 1

    def run(self, exe, cases, variant="", mode="", args=None, begin=0, shards=None, cpu=600, wall=700, deadline=400,
            env=None, prefix=(), okcodes=(), seed=None, casecpu=70, casewall=280):
        """run cases [begin, begin+cases) of a harness; merges the results"""
        self.njob += 1
        tag = f"j{self.njob}"
        seed = self.seed if seed is None else seed
        base = ["--seed", str(seed), "--thorough", "1" if self.thorough else "0", "--deadline", str(deadline), "--casecpu", str(casecpu)]
        if mode:
            base += ["--mode", mode]
        for k, v in (args or {}).items():
            base += ["--" + k, str(v)]
        n = min(shards or NCPU, max(1, cases))
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            futs = [ex.submit(self._shard, exe, base, begin, begin + cases, s, n, cpu, wall, env, tag, prefix, okcodes, casecpu, casewall) for s in range(n)]
            allres = [r for f in futs for r in f.result()]
        ran = 0
        for r in allres:
            ran += r["evals"]
            self.merge(r, exe, variant, mode, args, seed)
        if self.hung:
            raise Hang()
        if cases and not ran and not any(r["fails"] for r in allres):
            raise HarnessError(f"{exe}: no case was run")
        return allres

    def merge(self, r, exe="", variant="", mode="", args=None, seed=None):
        self.evals += r.get("evals", 0)
        self.compares += r.get("compares", 0)
        self.inconclusive += r.get("inconclusive", 0)
        self.max_case_cpu = max(self.max_case_cpu, r.get("max_case_cpu", 0))
        for k, v in r.get("counters", {}).items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in r.get("covers", {}).items():
            self.covers.setdefault(k, set()).update(v)
        for s in r.get("samples", []):
            if len(self.samples) < 12:
                self.samples.append(s)
        self.hashes |= r.get("hashes", set())
        if r.get("truncated"):
            self.notes.append("a shard stopped at its deadline")
        for f in r.get("fails", []):
            self.fail(f["key"], f["detail"], count=f["count"], replay={
                "harness": re.sub(r"^x_(.*)_[0-9a-f]{12}_[0-9a-f]{6}$", r"\1", os.path.basename(exe)), "variant": variant,
                "mode": mode, "args": args or {}, "seed": seed, "case": f["case"]})

    # ---- reporting --------------------------------------------------------
    def fail(self, key, detail, count=1, replay=None, blobs=None):
        for f in self.fails:
            if f["key"] == key:
                f["count"] += count
                return
        self.fails.append({"key": key, "detail": detail, "count": count, "replay": replay or {}, "blobs": blobs or {}})

    def check(self, ok, key, detail="", replay=None, blobs=None):
        self.compares += 1
        if not ok:
            self.fail(key, detail() if callable(detail) else detail, replay=replay, blobs=blobs)
        return ok

    def seen(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def cover(self, k, v):
        self.covers.setdefault(k, set()).add(str(v))

    def nontrivial(self, b):
        self.hashes.add(int.from_bytes(hashlib.blake2b(b, digest_size=8).digest(), "little"))

    def sample(self, s, n=12):
        if len(self.samples) < n:
            self.samples.append(s)

    def known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            with open(p) as f:
                for line in f:
                    m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                    if m and m.group(1) == self.pid:
                        out[m.group(2)] = m.group(3)
        return out

    def finish(self, level, rule, assumptions=(), exhaustive=None, extra=None):
        known = self.known()
        new = [f for f in self.fails if f["key"] not in known]
        old = [f for f in self.fails if f["key"] in known]
        for f in old:
            print(f"KNOWN-FINDING: property={self.pid} {f['key']}: {known[f['key']]}")
        if not new and (self.evals == 0 or self.compares == 0):
            raise HarnessError("nothing was observed")
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        for i, f in enumerate(new[:10]):
            rp = os.path.join(VERIF, "replay", f"{self.pid}-{self.tier}-{self.seed}-{i}.json")
            for name, data in f["blobs"].items():
                bp = rp[:-5] + "-" + name
                with open(bp, "wb") as fh:
                    fh.write(data)
            with open(rp, "w") as fh:
                json.dump({"property": self.pid, "tier": self.tier, "key": f["key"], "count": f["count"], "detail": f["detail"], **f["replay"]}, fh, indent=1)
            print(f"  {f['key']} (x{f['count']}): {f['detail'][:600]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
        cov = {
            "evaluations": int(self.evals),
            "distinct_nontrivial": len(self.hashes),
            "rule": rule,
            "samples": self.samples or ["(none)"],
            "oracle_decisions": int(self.compares),
            "observed": dict(sorted(self.counters.items())),
            "distinct_observed": {k: len(v) for k, v in sorted(self.covers.items())},
            "inconclusive_cases": self.inconclusive,
            "longest_case_cpu_s": round(self.max_case_cpu, 2),
        }
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        if self.notes:
            cov["notes"] = sorted(set(self.notes))
        cov.update(extra or {})
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
        print(f"{self.pid} {self.tier} seed={self.seed}: {self.evals} cases, {self.compares} oracle decisions, "
              f"{len(self.hashes)} distinct, {len(new)} violations, {len(old)} known, {ev['wall_s']} s")
        return 1 if new else 0
