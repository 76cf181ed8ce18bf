"""NumPy as the independent implementation of the NPY format."""
import io, random, struct, warnings
import numpy as np
from numpy.lib import format as nf
import driver

warnings.filterwarnings("ignore", "Reading `.npy`")  # Python 2's long integers
NUMPY_CODES = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1", "U"]


def native(arr, descr):
    """elements of arr in the order of its memory layout, little-endian"""
    dt = arr.dtype.newbyteorder("<")
    return arr.astype(dt, copy=False)


def numpy_view(data):
    """(descr, fortran, shape, little-endian payload in stored order, array)"""
    f = io.BytesIO(data)
    version = nf.read_magic(f)
    rd = {(1, 0): nf.read_array_header_1_0, (2, 0): nf.read_array_header_2_0}[version]
    shape, fortran, dtype = rd(f, max_header_size=10**8)
    f.seek(0)
    arr = np.load(f, allow_pickle=False, max_header_size=10**8)
    rest = f.read()
    le = native(arr, dtype)
    return dtype.str, fortran, shape, le.tobytes(order="F" if fortran else "C"), arr, rest


def check_written(p, path):
    for meta, data, le, desc in driver.read_records(path):
        desc = desc.decode("latin-1")
        descr, fortran, shape, case = meta.decode().split(";")
        shape = tuple(int(x) for x in shape.split(",") if x)
        p.evals += 0
        try:
            d, f, s, payload, arr, rest = numpy_view(data)
        except Exception as e:
            p.check(False, "numpy-refuses", f"{desc}: {type(e).__name__}: {e}", {"file.npy": data[:100000]})
            continue
        p.check(d == descr, "numpy-dtype", f"{desc}: NumPy sees {d}, want {descr}", {"file.npy": data[:100000]})
        p.check(f == (fortran == "1"), "numpy-order", desc, {"file.npy": data[:100000]})
        p.check(s == shape and arr.shape == shape, "numpy-shape", f"{desc}: NumPy sees {s}", {"file.npy": data[:100000]})
        p.check(payload == le, "numpy-values", f"{desc}: NumPy's values differ", {"file.npy": data[:100000]})
        p.check(rest == b"", "numpy-trailing", f"{desc}: {len(rest)} bytes left over", {"file.npy": data[:100000]})
        p.seen("files loaded with NumPy")


# ---- files written by NumPy -------------------------------------------------
def strides(shape):
    """elements of the shape without its empty dimensions, which bound NumPy's strides"""
    n = 1
    for d in shape:
        n *= d or 1
    return n


def gen_shape(rnd, cap):
    while True:
        k = rnd.randrange(7)
        if k == 0:
            s = ()
        elif k == 1:
            s = (rnd.randrange(0, 300),)
        elif k == 2:
            s = (rnd.choice([1, 9, 10, 99, 100, 999, 1000, 1001, 4096, 9999, 10000, 65535, 65536, 100000]),)
        elif k == 3:
            s = tuple(rnd.randrange(1, 7) for _ in range(rnd.randrange(2, 6)))
        elif k == 4:
            s = [rnd.randrange(1, 10 ** rnd.randrange(1, 5)) for _ in range(rnd.randrange(1, 6))]
            s[rnd.randrange(len(s))] = 0
            s = tuple(s)
            if strides(s) > 2 ** 56:  # more than NumPy's strides can express
                continue
        elif k == 5:
            s = [1] * rnd.randrange(6, 65)
            for _ in range(4):
                s[rnd.randrange(len(s))] = rnd.randrange(1, 4)
            s = tuple(s)
        else:
            s = tuple(rnd.randrange(1, 60) for _ in range(rnd.randrange(1, 4)))
        n = 1
        for d in s:
            n *= d
        if n <= cap:
            return s


def gen_array(rnd, rng, t, big, shape):
    n = 1
    for d in shape:
        n *= d
    code = NUMPY_CODES[t]
    if code == "U":
        w = rnd.choice([0, 1, 1, 2, 3, 5, 9, 10, 11, 33, 99, 100, 101, 130]) if n < 300 else rnd.choice([1, 2, 4])
        if n == 0 and rnd.random() < 0.5:  # any width NumPy can express costs nothing
            w = min(rnd.randrange(1, 10 ** rnd.randrange(1, 10)), 2 ** 29 - 1, 2 ** 60 // strides(shape))
        elif n <= 4 and rnd.random() < 0.25:
            w = rnd.randrange(1, 10 ** rnd.randrange(2, 6))
        cps = rng.integers(1, 0xD800, size=(n, w), dtype=np.uint32)
        style = rnd.randrange(4)
        if style == 0:
            cps = cps % 95 + 32
        elif style == 1:
            cps = np.where(rng.random((n, w)) < 0.3, cps + 0x10000, cps)
        elif style == 2:
            cps = np.where(rng.random((n, w)) < 0.3, 0, cps)
        a = np.frombuffer(cps.astype("<u4").tobytes(), dtype=f"<U{w}").reshape(shape) if w and n else np.zeros(shape, f"<U{w}")
        return a.astype((">" if big else "<") + f"U{w}"), w
    if code == "b1":
        return (rng.random(n) < rnd.random()).astype("|b1").reshape(shape), 0
    dt = np.dtype(("|" if np.dtype(code).itemsize == 1 else ">" if big else "<") + code)
    raw = rng.integers(0, 256, size=n * dt.itemsize, dtype=np.uint8)
    if rnd.random() < 0.3:
        raw = np.where(rng.random(raw.shape) < 0.6, rnd.choice([0, 10, 13, 26, 32, 127, 128, 255]), raw).astype(np.uint8)
    return np.frombuffer(raw.tobytes(), dtype=dt).reshape(shape), 0


def layouts(rnd, a):
    k = rnd.randrange(4)
    if k == 0:
        return np.ascontiguousarray(a).reshape(a.shape)
    if k == 1:
        return np.asfortranarray(a)
    if k == 2 and a.ndim:
        return np.flip(a, axis=rnd.randrange(a.ndim))  # non-contiguous
    return a.T if a.ndim else a


def custom_header(rnd, descr, fortran, shape):
    """a header another conforming writer could produce"""
    items = [("descr", repr(descr)), ("fortran_order", repr(fortran)), ("shape", repr(shape))]
    rnd.shuffle(items)
    d = "{" + "".join(f"'{k}': {v}, " for k, v in items) + "}"
    if rnd.random() < 0.5:  # any way of writing the literal
        if rnd.random() < 0.5:  # Python 2's long integers
            items = [(k, v if k != "shape" else "(" + ", ".join(f"{n}L" if rnd.random() < 0.8 else str(n) for n in shape) + ("," if len(shape) == 1 else "") + ")") for k, v in items]

        def ws():
            return rnd.choice(["", "", " ", " ", "  ", "\t", " \t ", "\n", "\r\n"])
        q = rnd.choice(["'", "'", '"'])
        d = "{" + ws()
        for i, (k, v) in enumerate(items):
            p = rnd.choice([q, q, "'", '"'])
            v = v.replace("'", rnd.choice([q, "'"])) if k == "descr" else v.replace(", ", "," + ws()) if k == "shape" else v
            d += f"{p}{k}{p}{ws()}:{ws()}{v}{ws()}"
            d += "," + ws() if i + 1 < len(items) or rnd.random() < 0.5 else ""
        d += "}"
    version = rnd.choice([1, 1, 2])
    stat = 10 if version == 1 else 12
    align = rnd.choice([16, 64, 64])
    total = stat + len(d) + 1
    pad = -total % align + align * rnd.choice([0, 0, 1, 2, 7])
    if version == 2 and rnd.random() < 0.1:
        pad += 65536  # a header only version 2.0 can hold
    d = (d + " " * pad + "\n").encode()
    return b"\x93NUMPY" + bytes([version, 0]) + struct.pack("<H" if version == 1 else "<I", len(d)) + d


def gen_file(rnd, rng, t=None, cap=4000, nbytes=0):
    """(record fields) for one NumPy-written file, of about nbytes if that is given"""
    t = rnd.randrange(14) if t is None else t
    big = rnd.random() < 0.5
    shape = gen_shape(rnd, 400 if t == 13 else cap)
    if nbytes:
        n = nbytes // (12 if t == 13 else np.dtype(NUMPY_CODES[t]).itemsize) + 1
        a = rnd.randrange(1, 40)
        shape = rnd.choice([(n,), (a, n // a + 1), (n // a + 1, a), (2, n // (2 * a) + 1, a)])
    a, w = gen_array(rnd, rng, t, big, shape)
    a = layouts(rnd, a)
    shape = a.shape
    k = rnd.randrange(3)
    f = io.BytesIO()
    if k == 0:
        np.save(f, a)
        how = "np.save"
    elif k == 1:
        nf.write_array(f, a, version=rnd.choice([(1, 0), (2, 0)]))
        how = "write_array"
    else:
        fo = a.flags.f_contiguous and not a.flags.c_contiguous
        f.write(custom_header(rnd, a.dtype.str, fo, a.shape))
        f.write(a.tobytes(order="F" if fo else "C"))
        data = f.getvalue()
        how = "custom header " + data[data.index(b"{"):].split(b"}")[0][:200].decode("latin-1")
    data = f.getvalue()
    descr, fortran, sh, payload, arr, rest = numpy_view(data)  # NumPy's own reading is the oracle
    assert sh == shape and rest == b""
    big = descr[0] == ">"
    w = int(descr[2:]) if t == 13 else 0
    desc = f"{how} {descr} {shape if len(shape) < 9 else '(%dd)' % len(shape)} fortran={fortran} v{data[6]}"
    return [str(t), "1" if big else "0", "1" if fortran else "0", ",".join(map(str, shape)), str(w), payload, data, desc]


def make_batch(arg):
    path, seed, n = arg
    rnd = random.Random(seed)
    rng = np.random.default_rng(seed)
    with open(path, "wb") as f:
        for i in range(n):
            driver.write_record(f, gen_file(rnd, rng, t=i % 14, cap=100000 if i % 97 == 0 else 4000))


def make_large_batch(arg):
    path, seed, n = arg
    rnd = random.Random(seed)
    rng = np.random.default_rng(seed)
    with open(path, "wb") as f:
        for i in range(n):
            driver.write_record(f, gen_file(rnd, rng, t=(seed * n + i) % 14, nbytes=int(2 ** rnd.uniform(15, 23))))


def make_bool_batch(arg):
    path, seed, n = arg
    rnd = random.Random(seed)
    rng = np.random.default_rng(seed)
    with open(path, "wb") as f:
        for _ in range(n):
            driver.write_record(f, gen_file(rnd, rng, t=12))
