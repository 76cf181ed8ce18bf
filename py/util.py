import os, pickle, shutil, subprocess, sys, tempfile, traceback

NCPU = min(8, os.cpu_count() or 4)


class Part:
    """What one worker process observed; has the reporting calls of Runner."""

    def __init__(self):
        self.evals = self.compares = 0
        self.counters, self.covers, self.samples, self.hashes, self.fails = {}, {}, [], set(), {}

    def seen(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def cover(self, k, v):
        self.covers.setdefault(k, set()).add(str(v))

    def nontrivial(self, b):
        import hashlib
        self.hashes.add(int.from_bytes(hashlib.blake2b(b, digest_size=8).digest(), "little"))

    def sample(self, s, n=2):
        if len(self.samples) < n:
            self.samples.append(s)

    def fail(self, key, detail, blobs=None):
        if key in self.fails:
            self.fails[key][0] += 1
        else:
            self.fails[key] = [1, detail, blobs or {}]

    def check(self, ok, key, detail="", blobs=None):
        self.compares += 1
        if not ok:
            self.fail(key, detail() if callable(detail) else detail, blobs)
        return ok


def _call(a):
    fn, arg = a
    p = Part()
    try:
        fn(p, arg)
    except (MemoryError, OSError):
        return "error", traceback.format_exc()
    except Exception:
        # a reference reader that chokes on what the library wrote has refused it
        p.fail("reference-raised", traceback.format_exc()[-3000:])
    return "ok", p


def spread(fn, args, work, wrap):
    """[fn(arg)...] in fresh Python processes (no forks of a process with threads)"""
    args = list(args)
    if not args:
        return []
    n = min(NCPU, len(args))
    d = tempfile.mkdtemp(prefix="py", dir=work)
    ps = []
    try:
        for i in range(n):
            with open(f"{d}/{i}.in", "wb") as f:
                pickle.dump((fn.__module__, fn.__name__, wrap, args[i::n]), f)
            with open(f"{d}/{i}.err", "wb") as err:
                ps.append(subprocess.Popen([sys.executable, "-B", os.path.join(os.path.dirname(os.path.abspath(__file__)), "worker.py"), f"{d}/{i}.in", f"{d}/{i}.out"],
                                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err))
        res = [None] * len(args)
        for i, p in enumerate(ps):
            if p.wait():
                with open(f"{d}/{i}.err", errors="replace") as f:
                    raise RuntimeError(f"worker ended with {p.returncode}: {f.read()[-3000:]}")
            with open(f"{d}/{i}.out", "rb") as f:
                res[i::n] = pickle.load(f)
        return res
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(d, ignore_errors=True)


def pmap(r, fn, args, harness_error):
    """fn(Part, arg) for each arg in worker processes, merged into Runner r"""
    for st, p in spread(fn, args, r.work, True):
        if st == "error":
            raise harness_error(p)
        r.merge({"evals": p.evals, "compares": p.compares, "counters": p.counters, "covers": p.covers,
                 "samples": p.samples, "hashes": p.hashes, "fails": []})
        for k, (n, d, b) in p.fails.items():
            r.fail(k, d, count=n, replay={"seed": r.seed}, blobs=b)
