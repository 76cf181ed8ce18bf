"""What each check runs."""
import concurrent.futures, hashlib, os, re, shlex, shutil, time
import bigzip, driver, util, npyoracle, text, ziporacle

LINK = {}
CHECKS = {}


def prop(f):
    CHECKS[f.__name__] = f
    return f


def setup():
    import driver
    r = driver.Runner("setup", "quick", 1)
    r.build(("c01", "san"), ("c01", "rel"))


@prop
def C01(r):
    san, rel = r.build(("c01", "san"), ("c01", "rel"))
    k = 20 if r.thorough else 1
    r.run(san, 6000 * k, "san")
    r.run(rel, 12000 * k, "rel", begin=100000)
    r.run(rel, 42 * 3 * (4 if r.thorough else 1), "rel", mode="large")
    r.run(san, 42, "san", mode="large", args={"max": 140000})
    r.run(rel, 16 if r.thorough else 2, "rel", mode="huge", shards=2, casecpu=150)
    return r.finish("exploration", "tensors over 14 types x 3 byte orders x 2 memory orders x generated shapes (scalars, zero and huge "
                    "dimensions, up to 40000 dimensions, all header lengths mod 64, millions of elements, more than 4 GiB) x element bit patterns x "
                    "4 entry-point routes; non-trivial = distinct saved byte strings (by 64-bit hash)",
                    ["host is little-endian"])


def pfiles(r, tag):
    return [os.path.join(r.work, f) for f in sorted(os.listdir(r.work)) if f.startswith(tag) and f.endswith(".rec")]


def generate(r, fn, args):
    util.spread(fn, args, r.work, False)


@prop
def C02(r):
    san, rel = r.build(("c02", "san"), ("c02", "rel"))
    k = 12 if r.thorough else 1
    r.run(san, 4000 * k, "san")
    util.pmap(r, npyoracle.check_written, pfiles(r, "j1"), driver.HarnessError)
    r.run(rel, 12000 * k, "rel", begin=50000)
    util.pmap(r, npyoracle.check_written, pfiles(r, "j2"), driver.HarnessError)
    r.run(rel, 84 * k, "rel", mode="large", begin=800000)
    util.pmap(r, npyoracle.check_written, pfiles(r, "j3"), driver.HarnessError)
    return r.finish("exploration", "tensors over 14 types x 3 byte orders x 2 memory orders x generated shapes and bit patterns, saved by the "
                    "library; each file is judged by a strict parser, an independent element encoder and (up to 64 dimensions) NumPy; "
                    "non-trivial = distinct files by 64-bit hash", ["host is little-endian", "NumPy 2.x is the reference reader"])


@prop
def C03(r):
    san, rel = r.build(("c03", "san"), ("c03", "rel"))
    k = 10 if r.thorough else 1
    d = os.path.join(r.work, "in")
    os.makedirs(d)
    nb = 16 * k
    generate(r, npyoracle.make_batch, [(f"{d}/{i}.rec", r.seed * 100003 + i, 500) for i in range(nb)])
    nl = 16 * k
    generate(r, npyoracle.make_large_batch, [(f"{d}/{nb + i}.rec", r.seed * 100019 + i, 10) for i in range(nl)])
    r.run(rel, nb + nl, "rel", args={"in": d})
    r.run(san, nb if r.thorough else nb // 2, "san", args={"in": d})
    return r.finish("exploration", "arrays of every supported dtype written by np.save, numpy.lib.format.write_array (versions 1.0, 2.0) and "
                    "hand-made conforming headers (key order, padding, white space, quotes, final comma, Python 2's long integers), in both byte orders and any memory layout; NumPy's own reading of "
                    "each file is the expected value; non-trivial = distinct files by 64-bit hash", ["NumPy 2.x is the reference"])


@prop
def C04(r):
    san, rel = r.build(("c04", "san"), ("c04", "rel"))
    k = 15 if r.thorough else 1
    r.run(san, 2500 * k, "san")
    r.run(rel, 6000 * k, "rel", begin=100000)
    r.run(rel, 120 * k, "rel", mode="large", begin=900000)
    return r.finish("exploration", "random sequences of 1-12 arrays of mixed types, orders and shapes on one stream, with foreign bytes in "
                    "between, consumed by load / peek+read_values / peek+seek+load on string, file and unseekable streams; the position "
                    "after each operation is compared with where the array was saved; non-trivial = distinct stream contents")


@prop
def C05(r):
    san, rel = r.build(("c05", "san"), ("c05", "rel"))
    k = 10 if r.thorough else 1
    n = 14 * 14 * 3 * 4 + 1 + 20000
    r.run(san, n + 4000 * k, "san")
    r.run(rel, n + 20000 * k, "rel", seed=r.seed + 1)
    return r.finish("exploration", "exhaustive matrix of stored type x requested type x byte order x 4 shapes over 8 loading routes; every string "
                    "of the form [order]char[size] over printable characters plus random mutations of supported dtype strings through "
                    "from_dtype, header_info, peek and load as each type; non-trivial = distinct matrix cells and strings")


@prop
def C06(r):
    san, rel = r.build(("c06", "san"), ("c06", "rel"))
    k = 15 if r.thorough else 1
    r.run(san, 280 * k, "san", mode="prefix")
    r.run(rel, 840 * k, "rel", mode="prefix", begin=10000)
    r.run(rel, 28 * k, "rel", mode="prefix2", begin=20000)
    r.run(rel, 168 * k, "rel", mode="large", begin=30000)
    r.run(san, 9000 * k, "san", mode="malformed")
    r.run(rel, 40000 * k, "rel", mode="malformed", begin=1000000)
    return r.finish("exploration", "every prefix of generated NPY files of every type (long files: every byte near header and end, sampled in "
                    "between), and 15 classes of malformed headers built by grammar-aware mutation so that each is malformed by "
                    "construction, in assert-enabled and NDEBUG builds; non-trivial = distinct files and malformed headers")


def fuzz_one(r, exe, seeds, i, runs, max_time):
    """one libFuzzer process; returns (rc, stderr, artifact bytes or None)"""
    d = os.path.join(r.work, f"fz{i}")
    os.makedirs(os.path.join(d, "corpus"))
    os.makedirs(os.path.join(d, "art"))
    argv = [f"-runs={runs}", f"-max_total_time={max_time}", f"-seed={r.seed * 1000 + i + 1}", "-close_fd_mask=1", "-timeout=60", "-rss_limit_mb=0",
            "-malloc_limit_mb=0", "-max_len=4096", "-len_control=0", "-print_final_stats=1", "-reload=0", f"-artifact_prefix={d}/art/", f"{d}/corpus", seeds]
    rc = r._spawn(exe, argv, max_time * 3 + 200, max_time * 3 + 200, {"VT_WORK": d}, d + "/err")
    with open(d + "/err", "rb") as f:
        err = f.read().decode(errors="replace")
    art = sorted(os.listdir(d + "/art"))
    blob = None
    if art:
        with open(os.path.join(d, "art", art[0]), "rb") as f:
            blob = f.read()
    return rc, err, blob, art


def fuzz(r, exe, seeds, runs, max_time):
    with concurrent.futures.ThreadPoolExecutor(util.NCPU) as ex:
        res = list(ex.map(lambda i: fuzz_one(r, exe, seeds, i, runs, max_time), range(util.NCPU)))
    for rc, err, blob, art in res:
        m = re.search(r"stat::number_of_executed_units: (\d+)", err)
        if m:
            r.evals += int(m.group(1))
            r.compares += int(m.group(1))
            r.seen("coverage-guided inputs", int(m.group(1)))
        m = re.findall(r"cov: (\d+) ft: (\d+)", err)
        if m:
            r.cover("coverage features reached", m[-1][1])
            r.counters["edges covered (best process)"] = max(r.counters.get("edges covered (best process)", 0), int(m[-1][0]))
        if rc == 0:
            continue
        if blob is None:
            raise driver.HarnessError(f"fuzzer ended with {rc}: {err[-3000:]}")
        if art[0].startswith(("timeout", "oom", "slow")):  # believe it only if it happens again alone
            p = os.path.join(r.work, "again")
            with open(p, "wb") as f:
                f.write(blob)
            rc2 = r._spawn(exe, ["-timeout=100", "-rss_limit_mb=0", p], 150, 200, {"VT_WORK": r.work}, p + ".err")
            if rc2 == 0:
                r.inconclusive += 1
                continue
            r.fail("hang", f"input of {len(blob)} bytes: operation does not finish: {blob[:300].hex()}", replay={"fuzz": "c07f"}, blobs={"input.bin": blob})
            continue
        r.fail("crash-" + r.crash_kind(err, rc), f"{r.classify(err)} | input {blob[:300].hex()}\n{err[-5000:]}", replay={"fuzz": "c07f"}, blobs={"input.bin": blob})


VALGRIND = ("valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--num-callers=20", "--undef-value-errors=yes", "--track-origins=no", "--soname-synonyms=somalloc=nouserintercepts")


@prop
def C07(r):
    san, sanrel, vg, fz = r.build(("c07", "san"), ("c07", "sanrel"), ("c07", "vg"), ("c07f", "fuzz"))
    k = 15 if r.thorough else 1
    seeds = os.path.join(r.work, "seeds")
    os.makedirs(seeds)
    r.run(san, 1200 * k, "san", cpu=150 * k, wall=300 * k)
    r.run(sanrel, 600 * k, "sanrel", begin=1000000, cpu=150 * k, wall=300 * k)
    r.run(vg, 24 * k, "vg", begin=2000000, prefix=VALGRIND, cpu=150 * k, wall=300 * k, casecpu=150)
    r.run(san, 1600, "san", mode="seeds", begin=3000000, cpu=150, wall=300)
    if not r.fails:
        fuzz(r, fz, seeds, 4000000 if r.thorough else 30000, 1500 if r.thorough else 25)
    return r.finish("exploration", "hostile inputs to 8 kinds of target (NPY stream and file, header dictionary, dtype string, archive in memory and on "
                    "disk, compressed member): mutations of valid inputs aware of headers, ZIP record fields and DEFLATE, generated "
                    "malformed dictionaries, foreign and ZIP64 records and DEFLATE streams, and coverage-guided fuzzing from these, under "
                    "ASan+UBSan (assert and NDEBUG builds) and memcheck; non-trivial = distinct inputs by 64-bit hash",
                    ["requests for more than 8 MiB of memory fail with bad_alloc", "sanitizers and memcheck see the errors of the executions they watch"])


@prop
def C08(r):
    san, rel = r.build(("c08", "san"), ("c08", "rel"))
    k = 20 if r.thorough else 1
    r.run(san, 1200 * k, "san")
    r.run(rel, 6000 * k, "rel", begin=100000)
    r.run(rel, 24 * k, "rel", mode="many", begin=300000)
    r.run(rel, 120 * k, "rel", mode="large", begin=400000)
    return r.finish("exploration", "random write histories (0-400 writes, colliding and hostile names up to 65535 bytes, all types) over 4 kinds of "
                    "writer x 2 methods x 3 byte orders, then random contains/peek/read/keys histories over 5 kinds of reader, each answer "
                    "compared with a map model; non-trivial = distinct archives by 64-bit hash")


@prop
def C09(r):
    san, rel = r.build(("c09", "san"), ("c09", "rel"))
    k = 12 if r.thorough else 1
    r.run(san, 500 * k, "san")
    util.pmap(r, ziporacle.check_archives, pfiles(r, "j1"), driver.HarnessError)
    r.run(rel, 2500 * k, "rel", begin=100000)
    r.run(rel, 48 * k, "rel", mode="large", begin=300000)
    util.pmap(r, ziporacle.check_archives, pfiles(r, "j2") + pfiles(r, "j3"), driver.HarnessError)
    return r.finish("exploration", "archives written by the library from generated tensors, judged by an own strict parser (every field of every "
                    "record), Python's zipfile, zlib and NumPy; non-trivial = distinct archives by 64-bit hash",
                    ["zlib, zipfile and NumPy are the reference readers"])


@prop
def C10(r):
    san, rel = r.build(("c10", "san"), ("c10", "rel"))
    k = 12 if r.thorough else 1
    d = os.path.join(r.work, "in")
    os.makedirs(d)
    nb = 24 * k
    generate(r, ziporacle.make_archives, [(f"{d}/{i}.rec", r.seed * 100003 + i, 150) for i in range(nb)])
    r.run(rel, nb, "rel", args={"in": d})
    r.run(san, nb // 3, "san", args={"in": d})
    return r.finish("exploration", "archives written by np.savez, np.savez_compressed, zipfile (all levels, seekable or not, forced ZIP64, comments, "
                    "extra fields) and a generator using the liberties of the format (ZIP64 fields anywhere, data descriptors, gaps, stubs, "
                    "permuted directory, DEFLATE strategies, window sizes, flush points, stored blocks); non-trivial = distinct archives",
                    ["NumPy, zipfile and zlib are the reference writers"])


@prop
def C11(r):
    san, rel = r.build(("c11", "san"), ("c11", "rel"))
    r.run(rel, 16 * (150 if r.thorough else 30), "rel")
    r.run(rel, 16 * (40 if r.thorough else 4), "rel", args={"all": 1}, begin=160000)
    r.run(san, 16 * (30 if r.thorough else 2), "san", begin=320000)
    r.run(rel, 320 if r.thorough else 32, "rel", mode="large", begin=400000, casecpu=120)
    d = os.path.join(r.work, "in")
    os.makedirs(d)
    nb = 1600 if r.thorough else 96
    generate(r, ziporacle.make_archives, [(f"{d}/{i}.rec", r.seed * 100019 + i, 6) for i in range(nb)])
    r.run(rel, nb, "rel", mode="foreign", args={"in": d})
    r.run(san, nb // 6, "san", mode="foreign", args={"in": d, "likely": 30, "cap": 300000})
    return r.finish("fault_enumeration", "changes to archives of NumPy, zipfile and a generator using the liberties of the format, mostly to their records; every byte position of generated archives x (all 255 other values for the small ones, 16 values for the others), "
                    "and 2-4 byte bursts in member data, including bursts solved to change each single bit and byte of the CRC-32 alone; a few changes to members of up to 34 MB; each read and peek of each member must throw or be right; non-trivial = distinct "
                    "(archive, position)", ["member names are not each other plus .npy", "requests for more than 64 MiB of memory fail with bad_alloc"])


@prop
def C12(r):
    san, rel = r.build(("c12", "san"), ("c12", "rel"))
    k = 15 if r.thorough else 1
    r.run(rel, 1600 * k, "rel")
    r.run(rel, 150 * k, "rel", mode="big", begin=100000)
    r.run(rel, 120 * k, "rel", mode="comment", begin=300000)
    r.run(san, 100 * k, "san", begin=200000)
    return r.finish("fault_enumeration", "every proper prefix of generated archives (sampled prefixes of large ones), the file of "
                    "a live writer after each write and from inside a tensor's save; what is on disk must be a prefix of the finished archive; "
                    "non-trivial = distinct archives", ["prefixes of archives whose payload contains an end record signature are skipped"])


LINK["c13"] = "-lz"


@prop
def C13(r):
    san, rel = r.build(("c13", "san", LINK["c13"]), ("c13", "rel", LINK["c13"]))
    k = 20 if r.thorough else 1
    r.run(rel, 6000 * k, "rel")
    r.run(rel, 500 * k, "rel", mode="large", begin=100000)
    r.run(san, 700 * k, "san", begin=200000)
    r.run(san, 24 * k, "san", mode="large", begin=300000)
    r.run(rel, 64 * k, "rel", mode="exact", begin=400000)
    return r.finish("exploration", "payloads of 10 styles (constant, random, periodic around the window size, runs, skewed Huffman, far copies...) "
                    "x sizes around window, block and buffer boundaries, compressed by the library and decoded by zlib and back, and "
                    "compressed by zlib with every level/strategy/window/flush and decoded by the library; non-trivial = distinct streams",
                    ["zlib is the reference codec"])


@prop
def C14(r):
    san, gsan, rel = r.build(("c14", "san"), ("c14", "gsan"), ("c14", "rel"))
    k = 20 if r.thorough else 1
    r.run(san, 1200 * k, "san")
    r.run(gsan, 300 * k, "gsan", begin=100000)
    r.run(rel, 5000 * k, "rel", begin=200000)
    r.run(san, 1500 * k, "san", mode="overflow")
    r.run(rel, 12 if r.thorough else 2, "rel", mode="huge", shards=2, casecpu=150)
    return r.finish("exploration", "every shape of up to 3 dimensions of 0-4 and random shapes, in both orders, and shapes of more than 2^32 elements: all in-range indices (sampled above 3000) "
                    "through all accessors, with random negative coordinates, then out-of-range and wrong-arity indices; oversized shapes; "
                    "non-trivial = distinct (shape, order, type)", ["requests for more than 64 MiB of memory fail with bad_alloc"])


@prop
def C15(r):
    san, rel = r.build(("c15", "san"), ("c15", "rel"))
    k = 20 if r.thorough else 1
    r.run(san, 5600 * k, "san")
    r.run(rel, 28000 * k, "rel", begin=100000)
    r.run(rel, 140 * k, "rel", mode="large", begin=900000)
    return r.finish("exploration", "random histories of 5-60 operations (construct, destroy, copy, move, assign, self-assign, element and bulk updates "
                    "of right and wrong size) on a pool of 5 tensors, all compared with value models after every step; non-trivial = "
                    "distinct histories", ["moved-from tensors are only assigned to or destroyed"])


@prop
def C16(r):
    tsan, rel = r.build(("c16", "tsan"), ("c16", "rel"))
    k = 15 if r.thorough else 1
    # every few cases a fresh process: first uses of everything then happen concurrently
    n = 6 * k
    for i in range(n):
        r.run(tsan, 40, "tsan", args={"steps": 25, "shared": i % 2}, begin=1000 * i, okcodes=())
        if r.fails:
            break
    r.run(rel, 700 * k, "rel", begin=1000000)
    r.run(rel, 800 * k, "rel", args={"shared": 1}, begin=2000000)
    return r.finish("exploration", "2-6 threads running random sequences of all library operations on private objects, and of all const operations on tensors, headers, readers and files they share, in fresh processes, under "
                    "ThreadSanitizer and at full speed; every result is compared with the single-threaded run of the same sequence; "
                    "non-trivial = distinct per-thread sequences", ["ThreadSanitizer sees the races of the executions it watched"])


@prop
def C17(r):
    san, rel = r.build(("c17", "san"), ("c17", "rel"))
    k = 15 if r.thorough else 1
    r.run(rel, 6000 * k, "rel")
    r.run(san, 800 * k, "san", begin=100000)
    return r.finish("exploration", "11 locales (thousands separators, groupings, truth names, ctype, order of letters; C.utf8) x global/imbued/both x generated tensors "
                    "with large dimensions and widths: bytes and results compared with those under the classic locale; non-trivial = "
                    "distinct (file, locale, place)", ["locales other than C.utf8 are built from standard facets"])


def journals(r, res):
    """case -> digest, from the journals the shards of a run wrote"""
    out = {}
    for f in sorted(os.listdir(r.work)):
        if f.startswith(f"j{r.njob}-") and f.endswith(".journal"):
            with open(os.path.join(r.work, f), encoding="latin-1") as fh:
                for line in fh:
                    k, d, what = line.rstrip("\n").split(" ", 2)
                    out[k] = (d, what)
    return out


@prop
def C18(r):
    # one compiler: the generator's order of evaluation must not differ
    pat, zero, crel, vg = r.build(("c18", "pat"), ("c18", "zero"), ("c18", "crel"), ("c18", "vg"))
    k = 15 if r.thorough else 1
    for mode, n in (("write", 1500 * k), ("read", 800 * k), ("large", 48 * k)):
        runs = [("crel", crel, 8, {}, {}),
                ("pat", pat, 7, {"MALLOC_PERTURB_": "165", "TZ": "Asia/Tokyo", "LANG": "de_DE.UTF-8"}, {"shift": 86400 * 3650, "noise": 17, "env": 1}),
                ("zero", zero, 5, {"MALLOC_PERTURB_": "1", "TZ": "UTC", "LC_ALL": "C", "HOME": "/nonexistent"}, {"shift": 7, "noise": 4242, "env": 2}),
                ("crel", crel, 8, {"MALLOC_PERTURB_": "254", "MALLOC_ARENA_MAX": "1"}, {"shift": -86400 * 300 & (2**64 - 1)})]
        first = None
        for variant, exe, shards, env, args in runs:
            res = r.run(exe, n, variant, mode=mode, args=args, env=env, shards=shards)
            j = journals(r, res)
            if first is None:
                first = j
                continue
            for key, (d, what) in j.items():
                r.check(key not in first or first[key][0] == d, "differs-between-runs",
                        lambda: f"{mode} case {key} ({what}): {d} in build {variant} with {env} {args}, {first[key][0]} in the first run", replay={"seed": r.seed})
            r.seen("outputs compared between processes", len(j))
            if not r.fails and set(j) != set(first):
                raise driver.HarnessError("runs journalled different cases")
    r.run(vg, 48 * k, "vg", mode="write", begin=500000, prefix=VALGRIND, casecpu=150)
    r.run(vg, 16 * k, "vg", mode="read", begin=600000, prefix=VALGRIND, casecpu=150)
    return r.finish("exploration", "the same generated tensors and call sequences through every stream, file, path-type and member entry point, in four "
                    "differently built processes with different stack and heap fill, clock, time zone, locale variables, earlier operations "
                    "and previous file contents; outputs are compared byte for byte within a process and by digest between processes; "
                    "memcheck on every output byte; all readers on the same intact and damaged bytes; non-trivial = distinct files",
                    ["digests are 64-bit"])


LINK["c16"] = LINK["c19"] = "-ldl"


@prop
def C19(r):
    san, rel = r.build(("c19", "san", LINK["c19"]), ("c19", "rel", LINK["c19"]))
    k = 15 if r.thorough else 1
    r.run(rel, 320 * k, "rel")
    r.run(rel, 280 * k, "rel", mode="large", begin=100000)
    r.run(rel, 336 * (6 if r.thorough else 1), "rel", mode="sweep", begin=14 * 3 * 2 * 4 * 1000)
    r.run(san, 48 * k, "san", begin=200000)
    return r.finish("fault_enumeration", "every element type x byte order x order x way of saving at sizes around and above the stream buffer, and random NPY saves and NPZ write series; for each, every file size limit from 0 to the full size (sampled for large "
                    "outputs), every store call failing with 5 errors (once or from then on, with or without part of the data arriving), "
                    "short and interrupted stores, failing close, /dev/full and 8 kinds of unwritable path; a series which returned "
                    "normally must have left the complete file; non-trivial = distinct outputs", ["a destructor cannot report: there only survival is judged"])


@prop
def C20(r):
    rel, san = r.build(("c20", "rel"), ("c20", "san"))
    d = os.path.join(r.work, "big")
    os.makedirs(d)
    t0 = time.time()
    # more than 65535 members
    n = 24 if r.thorough else 12
    r.run(rel, n, "rel", mode="count", args={"dir": d})
    counts = [65534, 65535, 65536, 65537, 70000, 131072]
    util.pmap(r, bigzip.check_file, [(f"{d}/count-{i}.npz", f"library archive {i} of {counts[i % 6]} members", counts[i % 6]) for i in range(n)
                                     if os.path.exists(f"{d}/count-{i}.npz")], driver.HarnessError)
    py = [(65535, 0), (65536, 0), (70000, 1)] + ([(131073, 0), (200000, 1)] if r.thorough else [])
    generate(r, bigzip.make_count, [(f"{d}/py-{i}.npz", c, z) for i, (c, z) in enumerate(py)])
    r.run(rel, len(py), "rel", mode="pycount", args={"dir": d})
    # far offsets in sparse files
    G2, L, G4 = 1 << 31, 0x8fffffff, 1 << 32
    jobs = []
    for i, (ts, style) in enumerate([([G2, L, G4], "python"), ([G2, L, G4], "plain"), ([G2, G4, 3 << 32], "extra"), ([L, G4], "force64"), ([G4, 1 << 36], "sizes64"),
                                     ([G2 - 1000, G2, L + 400], "plain")]):
        for q in range(6 if r.thorough else 2):
            jobs.append((f"{d}/sparse-{len(jobs)}.npz", r.seed * 1000 + len(jobs), ts, style))
    generate(r, bigzip.make_sparse, jobs)
    r.run(rel, len(jobs), "rel", mode="sparse", args={"dir": d})
    r.run(san, len(jobs), "san", mode="sparse", args={"dir": d})
    # names
    r.run(san, 200 * (10 if r.thorough else 1), "san", mode="names")
    # members written for real
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    if not r.fails:
        r.run(rel, 1, "rel", mode="offsets", args={"dir": d}, deadline=600, casecpu=300, casewall=400)
        if os.path.exists(d + "/offsets.npz"):
            util.pmap(r, bigzip.check_file, [(d + "/offsets.npz", "library archive with far offsets", None)], driver.HarnessError)
            os.unlink(d + "/offsets.npz")
    sizes = [(0x90000000 + 77, 0, 1), ((1 << 32) + 12345, 1, 1)]
    if r.thorough:
        sizes += [((1 << 31) + 5, 0, 0), ((1 << 32) - 129, 0, 1), ((1 << 32) + 1, 0, 1), (0x90000000, 1, 0), ((1 << 32) - 128, 1, 1), (5 << 30, 0, 1)]
    for size, method, kind in sizes:
        if r.fails:
            break
        r.run(rel, 1, "rel", mode="huge", args={"dir": d, "size": size, "method": method, "kind": kind}, deadline=600, casecpu=300, casewall=400)
        p = f"{d}/huge-{size}-{method}.npz"
        if os.path.exists(p):
            util.pmap(r, bigzip.check_file, [(p, f"library archive with a member of {size} bytes, method {method}", None)], driver.HarnessError)
            os.unlink(p)
    return r.finish("exploration", "archives of 65534 to 131072 members by both writers, both methods and by zipfile; sparse archives with members around 2 GiB, "
                    "0x8FFFFFFF, 4 GiB and 64 GiB with ZIP64 fields laid out in 5 ways; a written archive of 4 GiB with members straddling each "
                    "threshold; single members beyond 2 and 4 GiB; names around 65535 bytes; read back by the library, judged by a strict "
                    "parser, zlib and zipfile; non-trivial = distinct archives", ["NumPy, zipfile and zlib are the references"])


WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"
LINK["c21"] = LINK["c22"] = WRAP


@prop
def C21(r):
    san, rel = r.build(("c21", "san", WRAP), ("c21", "rel", WRAP))
    k = 15 if r.thorough else 1
    r.run(rel, 6000 * k, "rel")
    r.run(san, 900 * k, "san", begin=1000000)
    return r.finish("exploration", "random histories of succeeding and failing operations on writers (throwing tensor types, names too long, unsupported "
                    "method, write after close), readers (8 kinds of unusable member, absent names, wrong types, throwing tensor types) and "
                    "single calls on intact and damaged inputs; every success is compared with the history without the failures; blocks and "
                    "descriptors are counted around each history; non-trivial = distinct histories",
                    ["allocations inside libc are not counted"])


@prop
def C22(r):
    san, rel = r.build(("c22", "san", WRAP), ("c22", "rel", WRAP))
    k = 20 if r.thorough else 1
    r.run(rel, 168 * k, "rel")
    r.run(san, 28 * k, "san", begin=1000000)
    return r.finish("fault_enumeration", "for generated tensors of every type: each of 30 operations (saves, loads, peeks, headers, opening, listing, reading "
                    "and writing archives, closing, destroying, copying, assigning) with its k-th memory request failing, alone or with all "
                    "later ones, for every k (sampled above 300); each outcome must be an exception, a failed stream or the right result, and "
                    "leave no block allocated; non-trivial = distinct (tensor, operation)", ["requests made inside libc do not fail"])


@prop
def C23(r):
    san, rel = r.build(("c23", "san"), ("c23", "rel"))
    k = 12 if r.thorough else 1
    r.run(san, 1200 * k, "san")
    util.pmap(r, text.check_written, pfiles(r, "j1"), driver.HarnessError)
    r.run(rel, 4000 * k, "rel", begin=100000)
    util.pmap(r, text.check_written, pfiles(r, "j2"), driver.HarnessError)
    r.run(rel, 20 * min(k, 4), "rel", mode="huge", begin=200000)
    r.run(rel, 24 * min(k, 6), "rel", mode="many", begin=300000)
    util.pmap(r, text.check_written, pfiles(r, "j3") + pfiles(r, "j4"), driver.HarnessError)
    d = os.path.join(r.work, "in")
    os.makedirs(d)
    nb = 16 * k
    generate(r, text.make_batch, [(f"{d}/{i}.rec", r.seed * 100003 + i, 150) for i in range(nb)])
    r.run(rel, nb, "rel", mode="read", args={"in": d})
    r.run(san, nb, "san", mode="read", args={"in": d})
    return r.finish("exploration", "string tensors over 7 styles of text (ASCII, boundary code points, lone surrogates, embedded NULs, supplementary planes), "
                    "with and without trailing NULs, lengths 0 to 12000 and around 65535 to 200001, all shapes and byte orders, through NPY and NPZ and NumPy in both "
                    "directions; non-trivial = distinct files", ["wchar_t holds one UTF-32 code unit", "code points up to 0x10FFFF, the most NumPy can show"])


@prop
def C24(r):
    san, rel = r.build(("c24", "san"), ("c24", "rel"))
    k = 20 if r.thorough else 1
    r.run(san, 1500 * k, "san")
    r.run(rel, 10000 * k, "rel", begin=100000)
    r.run(rel, 160 * k, "rel", mode="large", begin=900000)
    return r.finish("exploration", "random lives of writers: 4 kinds x 2 methods x 3 byte orders x 0-100 writes, over 6 states of the path before, ended by "
                    "close, repeated close and refused writes in any order, the destructor, or an exception; the bytes after each step are "
                    "compared with those of one in-memory writer closed once; non-trivial = distinct (history, archive)")


@prop
def C25(r):
    k = 20 if r.thorough else 1
    try:
        san, rel = r.build(("c25", "san"), ("c25", "rel"))
    except driver.HarnessError as e:
        if "harness/c25.cpp" not in str(e):
            raise
        # the library and a program with its own tensor class compile: only those of users do not
        r.run(r.build(("c01", "rel")), 100, "rel")
        r.check(False, "interface", f"classes with the documented interface no longer compile: {e}", replay={"seed": r.seed})
        return r.finish("exploration", "compilation of 4 user tensor classes; non-trivial = distinct (class, file)")
    r.run(san, 1120 * k, "san")
    r.run(rel, 5600 * k, "rel", begin=100000 - 100000 % 56)
    r.run(rel, 84 * k, "rel", mode="large", begin=500024)
    return r.finish("exploration", "4 user tensor classes (contiguous, scattered, element-wise, transposing matrix) x 14 types x generated shapes and values "
                    "through every entry point, byte for byte and value for value against npy::tensor in both directions; 7 kinds of "
                    "exception thrown from 8 places of the class through every entry point; non-trivial = distinct (class, file)",
                    ["the class offers the interface the documentation lists"])


@prop
def C26(r):
    san, rel, vg = r.build(("c26", "san"), ("c26", "rel"), ("c26", "crel"))
    k = 12 if r.thorough else 1
    r.run(san, 40 * k, "san", mode="convert")
    r.run(rel, 40 * k, "rel", mode="convert", seed=r.seed + 1)
    r.run(vg, 40 * k, "crel", mode="convert", seed=r.seed + 2)
    r.run(san, 2000 * k, "san")
    util.pmap(r, npyoracle.check_written, pfiles(r, "j4"), driver.HarnessError)
    r.run(rel, 6000 * k, "rel", begin=100000)
    r.run(rel, 40 * k, "rel", mode="large", begin=300000)
    util.pmap(r, npyoracle.check_written, pfiles(r, "j5") + pfiles(r, "j6"), driver.HarnessError)
    d = os.path.join(r.work, "in")
    os.makedirs(d)
    nb = 8 * k
    generate(r, npyoracle.make_bool_batch, [(f"{d}/{i}.rec", r.seed * 100003 + i, 200) for i in range(nb)])
    c3 = r.build(("c03", "san"))
    r.run(c3, nb, "san", args={"in": d})
    return r.finish("exploration", "every value of the 8 and 16 bit types, every power of two and its complement, extremes, fractions, subnormals, infinities, NaNs "
                    "and random values of the other arithmetic types through 13 ways of making a boolean, in three builds; boolean tensors "
                    "through NPY and NPZ and NumPy in both directions; non-trivial = distinct values and files")


@prop
def C27(r):
    san, rel = r.build(("c27", "san"), ("c27", "rel"))
    k = 20 if r.thorough else 1
    os.chmod(r.work, 0o755)
    r.run(rel, 900 * k, "rel", mode="missing", args={"drop": 1})
    r.run(san, 500 * k, "san", begin=100000)
    r.run(rel, 2500 * k, "rel", begin=200000)
    r.run(rel, 2500 * k, "rel", args={"drop": 1}, begin=300000)
    return r.finish("exploration", "9 kinds of unusable path through every way of opening; random histories of up to 6 file and in-memory readers over 1-3 "
                    "archives opened, used, moved, closed, used again and destroyed in any order, with a writer and NPY reads in between, "
                    "archives renamed and replaced while open, buffers and paths overwritten after opening; answers are compared with map "
                    "models, descriptors counted after each step, files compared (content, inode, times) afterwards, half of it as a user who "
                    "may not write there; non-trivial = distinct histories", ["POSIX: an open file outlives its name"])


LINK["c28"] = WRAP


@prop
def C28(r):
    rel = r.build(("c28", "rel", WRAP))
    k = 15 if r.thorough else 1
    r.run(rel, 64 * k, "rel", mode="archive")
    r.run(rel, 400 * k, "rel", mode="files", begin=100000)
    r.run(rel, 400 * k, "rel", mode="repeat", begin=200000)
    return r.finish("exploration", "archives of 30 to 3000 members (some 20 MB each) written and read through all kinds of writer and reader, every operation "
                    "metered: bytes held at peak and kept afterwards (every allocation), bytes moved (kernel counters); NPY files of up to 6 MB "
                    "saved, peeked, loaded, refused; whole rounds repeated 50 times must keep nothing; bounds are at least 1.4 times what the "
                    "unchanged library needs and a fraction of the archive; non-trivial = distinct workloads",
                    ["bounds: 8 times the member plus 4 MiB per operation, 1 KiB per directory entry"])


@prop
def C30(r):
    san, rel = r.build(("c30", "san"), ("c30", "rel"))
    k = 15 if r.thorough else 1
    r.run(rel, 480 * k, "rel")
    r.run(rel, 280 * k, "rel", mode="large", begin=100000)
    r.run(san, 48 * k, "san", begin=200000)
    r.run(rel, 480 * k, "rel", mode="pipe", begin=300000)
    r.run(san, 64 * k, "san", mode="pipe", begin=400000)
    return r.finish("fault_enumeration", "NPY files and archives of every element type, way of opening and operation (load, peek, open, read, keys, contains); for each, every read call and every seek call (sampled in large files) "
                    "failing once or from then on, ending early, delivering part of the data first, short or interrupted; archives cut while open and restored; no free descriptor; "
                    "files and archives through named pipes, whole and cut; non-trivial = distinct files", ["the C++ library fetches data with read and lseek"])


CALLGRIND = ("valgrind", "-q", "--tool=callgrind", "--callgrind-out-file=cg.%p", "--soname-synonyms=somalloc=nouserintercepts")


@prop
def C29(r):
    rel = r.build(("c29", "rel"))
    n = 400 if r.thorough else 220
    r.run(rel, n * (6 if r.thorough else 1), "rel", prefix=CALLGRIND, shards=64, casecpu=200, cpu=3000, wall=3000, deadline=2500)
    return r.finish("exploration", "instructions executed (counted by callgrind) by every kind of operation at one size and at 16 times that size, the sizes drawn at random: at most 2.2 times "
                    "proportional growth, and none for what must not depend on the size; non-trivial = distinct operations and sizes", ["instructions stand for work"])


@prop
def C31(r):
    san, gsan, rel = r.build(("c31", "san"), ("c31", "gsan"), ("c31", "rel"))
    k = 15 if r.thorough else 1
    r.run(san, 1500 * k, "san")
    r.run(gsan, 800 * k, "gsan", begin=300000)
    r.run(rel, 6000 * k, "rel", begin=100000)
    r.run(rel, 150 * k, "rel", mode="large", begin=900000)
    return r.finish("exploration", "arrays of every type, order and shape assembled with write_npy_header and write_values in pieces (or the tensor's own save) on "
                    "string, file and unseekable streams, against the bytes of save; headers parsed, peeked, built by hand and copied, each "
                    "used to read the elements in pieces between guard elements; arrays converted from stream to stream piece by piece; "
                    "non-trivial = distinct arrays")


@prop
def C32(r):
    san, tsan, rel = r.build(("c32", "san"), ("c32", "tsan"), ("c32", "rel"))
    k = 12 if r.thorough else 1
    r.run(rel, 1600 * k, "rel")
    r.run(san, 240 * k, "san", begin=100000)
    r.run(tsan, 64 * k, "tsan", mode="threads", begin=200000)
    r.run(tsan, 64 * k, "tsan", begin=300000)
    return r.finish("exploration", "processes which save, load, peek, write and read archives and are refused in random sets of 13 stages of their lives, from constructor functions "
                    "and first static initialisers to last static destructors and destructor functions, ended in four ways; every stage compared with the "
                    "same work in a process which is fully up; non-trivial = distinct (set of stages, work)")


LINK["c33"] = "-ldl"


@prop
def C33(r):
    rel, crel = r.build(("c33", "rel", LINK["c33"]), ("c33", "crel", LINK["c33"]))
    k = 15 if r.thorough else 1
    r.run(rel, 4000 * k, "rel")
    r.run(crel, 1200 * k, "crel", begin=100000)
    r.run(rel, 64 * k, "rel", mode="large", begin=900000)
    return r.finish("exploration", "26 kinds of operation, successful and refused, in processes put into random lawful states (C and C++ locale, rounding mode, flush-to-zero, umask, working "
                    "directory, signal masks and handlers, stream formatting, environment, errno); a snapshot of the state after each and from the caller's stream buffers "
                    "within it, and interposed libc calls in between; non-trivial = distinct (state, data)")


# C34: name: (compiler and options of the library and the second file, of the first file, options of the link, shared library)
BUILDS = {
    "gcc -O0, C++17": ("g++ -std=c++17 -O0", None, "", False),
    "gcc -O3, NDEBUG": ("g++ -std=gnu++17 -O3 -DNDEBUG", None, "", False),
    "gcc -Os, C++23, unsigned char": ("g++ -std=c++23 -Os -funsigned-char", None, "", False),
    "gcc, C++20, debug containers": ("g++ -std=c++20 -O1 -D_GLIBCXX_DEBUG -D_GLIBCXX_DEBUG_PEDANTIC", None, "", False),
    "gcc, old string ABI, trapping overflow": ("g++ -std=c++17 -O2 -D_GLIBCXX_USE_CXX11_ABI=0 -ftrapv -DNDEBUG", None, "", False),
    "gcc, LTO": ("g++ -std=c++20 -O2 -flto=1 -DNDEBUG", None, "-O2 -flto=1", False),
    "clang -O0, unsigned char": ("clang++ -std=c++17 -O0 -funsigned-char -DNDEBUG", None, "", False),
    "clang -O3, C++20": ("clang++ -std=c++20 -O3 -DNDEBUG", None, "", False),
    "clang -O1, C++23, patterned stack": ("clang++ -std=c++2b -O1 -ftrivial-auto-var-init=pattern -ftrapv", None, "", False),
    "library clang NDEBUG C++17, program gcc C++23 unsigned char": ("clang++ -std=c++17 -O2 -DNDEBUG", "g++ -std=c++23 -O0 -funsigned-char -D_GLIBCXX_ASSERTIONS", "", False),
    "library gcc C++20 unsigned char, program clang NDEBUG C++17": ("g++ -std=c++20 -O1 -funsigned-char", "clang++ -std=c++17 -O3 -DNDEBUG", "", False),
    "shared library gcc, program clang C++23": ("g++ -std=c++17 -O2 -fPIC", "clang++ -std=c++2b -O1", "", True),
}


def build_many(r, builds):
    """the C34 program in each of the builds; returns name -> executable, or the compiler's message"""
    inc = f"-I{driver.REPO}/include -I{driver.REPO}/src -w -pthread"
    h = os.path.join(driver.VERIF, "harness")
    client, other = os.path.join(h, "c34_client.cpp"), os.path.join(h, "c34_other.cpp")
    key = hashlib.sha256(r.hash_tree().encode() + b"".join(open(f, "rb").read() for f in (client, other))).hexdigest()[:20]
    top = os.path.join(driver.VERIF, ".cache", f"c34-{key}")
    os.makedirs(top, exist_ok=True)
    os.utime(top)
    jobs, out = [], {}
    for i, (name, (lib, prog, link, shared)) in enumerate(builds.items()):
        d = os.path.join(top, hashlib.sha256(repr((name, lib, prog, link, shared)).encode()).hexdigest()[:12])
        os.makedirs(d, exist_ok=True)
        objs = []
        for s in r.sources() + [other, client]:
            o = os.path.join(d, os.path.basename(s) + ".o")
            cmd = f"{(prog or lib) if s == client else lib} {inc} -c {shlex.quote(s)}"
            objs.append(o)
            jobs.append((name, o, cmd))
        out[name] = (d, objs, lib, prog or lib, link, shared)

    def one(job):
        name, o, cmd = job
        if os.path.exists(o):
            return name, ""
        tmp = f"{o}.{os.getpid()}.{time.time_ns()}.tmp"
        p = driver.sh(shlex.split(cmd) + ["-o", tmp])
        if p.returncode != 0:
            return name, p.stderr.decode(errors="replace")
        os.rename(tmp, o)
        return name, ""

    def join(name):
        d, objs, lib, prog, link, shared = out[name]
        exe = os.path.join(d, "program")
        if os.path.exists(exe):
            return exe, ""
        tmp = f"{exe}.{os.getpid()}.{time.time_ns()}.tmp"
        if shared:
            so = os.path.join(d, "libnpy-under-test.so")
            p = driver.sh(shlex.split(f"{lib} -shared -pthread") + objs[:-1] + ["-o", so + ".tmp"])
            if p.returncode != 0:
                return None, p.stderr.decode(errors="replace")
            os.rename(so + ".tmp", so)
            p = driver.sh(shlex.split(f"{prog} -pthread") + [objs[-1], so, "-Wl,-rpath," + d, "-o", tmp])
        else:
            p = driver.sh(shlex.split(f"{prog} {link} -pthread") + objs + ["-o", tmp])
        if p.returncode != 0:
            return None, p.stderr.decode(errors="replace")
        os.rename(tmp, exe)
        return exe, ""
    errs = {}
    with concurrent.futures.ThreadPoolExecutor(driver.NCPU) as ex:
        for name, e in ex.map(one, sorted(jobs, key=lambda j: "miniz" not in j[1] and "client" not in j[1])):
            if e:
                errs[name] = e
        names = [n for n in builds if n not in errs]
        exes = dict(zip(names, ex.map(join, names)))
    for n, (exe, e) in exes.items():
        if exe is None:
            errs[n] = e
    return {n: exes[n][0] for n in names if n not in errs}, errs


@prop
def C34(r):
    exes, errs = build_many(r, BUILDS)
    first = next(iter(BUILDS))
    if first in errs:
        raise driver.HarnessError(f"compiling failed:\n{errs[first][-3000:]}")
    for n, e in errs.items():
        r.check(False, "does not build", f"{n}: {e[-1500:]}", replay={"seed": r.seed})
    parts, each = 8, (200 if not r.thorough else 4000)

    def one(job):
        name, part = job
        d = os.path.join(r.work, f"c34-{list(BUILDS).index(name)}-{part}")
        os.makedirs(d)
        err = os.path.join(d, "log")
        rc = r._spawn(exes[name], [str(r.seed), str(part * each), str((part + 1) * each), d], 600, 800, {}, err)
        with open(err, encoding="latin-1") as f:
            text = f.read()
        shutil.rmtree(d)
        return name, part, rc, text.split("\n")
    with concurrent.futures.ThreadPoolExecutor(driver.NCPU) as ex:
        got = {(n, p): (rc, lines) for n, p, rc, lines in ex.map(one, [(n, p) for p in range(parts) for n in exes])}
    for (n, p), (rc, lines) in got.items():
        ref = got[(first, p)][1]
        r.evals += each
        r.seen("runs of the program")
        r.cover("builds", n)
        bad = [x for x in lines if " BAD " in x]
        r.check(not bad, "wrong", lambda: f"{n}: {bad[0][:500]}", replay={"seed": r.seed})
        r.check(rc == 0 and "end" in lines, "ended", lambda: f"{n}: {rc}: {' / '.join(lines[-4:])[:600]}", replay={"seed": r.seed})
        if "end" not in ref:
            continue
        for a, b in zip(ref, lines):
            r.compares += 1
            if n == first:
                w = a.split(" ")
                r.seen(w[1] if len(w) > 2 else "end")
                r.nontrivial(" ".join(w[1:3]).encode())
                if len(w) > 3 and w[1] in ("npy", "npz"):
                    r.sample(a)
            elif a != b:
                r.check(False, "differs between builds", f"'{b[:300]}' in {n}, '{a[:300]}' in {first}", replay={"seed": r.seed})
                break
    return r.finish("exploration", "one program of two files (arrays of every type, order and byte order to and from streams, files and building blocks, indexing, archives of both "
                    "methods from writers used in both files, names with high bytes, damaged files, archives and dictionaries, booleans, dtype tables) built with the "
                    "library in twelve ways; every observation of every build compared with the first build's; non-trivial = distinct observations",
                    ["x86-64, libstdc++"])
