"""NumPy's view of string tensors."""
import io, random, struct
import numpy as np
import driver


def strings(lens, chars):
    n = struct.unpack(f"<{len(lens) // 4}I", lens)
    u = struct.unpack(f"<{len(chars) // 4}I", chars)
    out, at = [], 0
    for k in n:
        out.append("".join(map(chr, u[at:at + k])))
        at += k
    return out


def check_written(p, path):
    for meta, lens, chars, npy, npz, desc in driver.read_records(path):
        desc = desc.decode("latin-1")
        big, fortran, shape, width = meta.decode().split(";")
        shape = tuple(int(x) for x in shape.split(",") if x)
        want = strings(lens, chars)
        for how in ("npy", "npz"):
            blob = {"file." + how: (npy if how == "npy" else npz)[:200000]}
            try:
                a = np.load(io.BytesIO(npy if how == "npy" else npz), allow_pickle=False)
                if how == "npz":
                    a = a["text"]
            except Exception as e:
                p.check(False, "numpy-refuses-text", f"{desc}: {type(e).__name__}: {e}", blob)
                continue
            p.check(a.shape == shape and a.dtype.kind == "U", "numpy-shape", f"{desc}: {a.dtype} {a.shape}", blob)
            p.check(a.dtype.itemsize == 4 * int(width), "numpy-width", f"{desc}: {a.dtype}", blob)
            got = a.ravel(order="F" if fortran == "1" else "C").tolist()
            p.check(got == want, "numpy-text", lambda: f"{desc}: NumPy sees {[x for x, y in zip(got, want) if x != y][:2]!a}, "
                    f"want {[y for x, y in zip(got, want) if x != y][:2]!a}", blob)
            p.seen("string files loaded with NumPy")


def gen_text(rnd, maxlen, style):
    n = 0 if rnd.random() < 0.15 else rnd.randint(0, maxlen)
    if style == 0:
        return "".join(chr(rnd.randint(32, 126)) for _ in range(n))
    if style == 1:
        return "".join(chr(rnd.choice([1, 10, 13, 0x27, 0x29, 0x7f, 0x80, 0xff, 0x100, 0x0a0a, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff])) for _ in range(n))
    if style == 2:
        return "".join(chr(rnd.randint(0xd800, 0xdfff)) for _ in range(n))
    if style == 3:
        return "".join(rnd.choice("\0abc") for _ in range(n))
    return "".join(chr(rnd.randint(0, 0x10ffff)) for _ in range(n))


def make_batch(arg):
    path, seed, n = arg
    rnd = random.Random(seed)
    with open(path, "wb") as f:
        for i in range(n):
            import npyoracle
            shape = npyoracle.gen_shape(rnd, 300)
            cnt = 1
            for d in shape:
                cnt *= d
            maxlen = rnd.choice([0, 1, 2, 5, 9, 10, 40, 100]) if cnt < 200 else rnd.choice([1, 3, 8])
            if cnt < 5 and rnd.random() < 0.2:
                maxlen = rnd.choice([999, 1000, 5000])
            style = rnd.randrange(6)
            s = [gen_text(rnd, maxlen, style if style < 5 else rnd.randrange(5)) for _ in range(cnt)]
            width = max([len(x) for x in s] + [0]) + rnd.choice([0, 0, 1, 7])
            a = np.array(s, dtype=f"{rnd.choice('<>')}U{width}").reshape(shape) if cnt else np.zeros(shape, f"{rnd.choice('<>')}U{width}")
            a = npyoracle.layouts(rnd, a)
            o, z = io.BytesIO(), io.BytesIO()
            np.save(o, a)
            (np.savez if rnd.random() < 0.5 else np.savez_compressed)(z, text=a)
            back = np.load(io.BytesIO(o.getvalue()), allow_pickle=False)
            fortran = b"'fortran_order': True" in o.getvalue()[:200]
            vals = [x.rstrip("\0") for x in back.ravel(order="F" if fortran else "C").tolist()]
            big = back.dtype.byteorder == ">"
            driver.write_record(f, ["1" if big else "0", "1" if fortran else "0", ",".join(map(str, back.shape)), str(back.dtype.itemsize // 4),
                                    b"".join(struct.pack("<I", len(x)) for x in vals), b"".join(struct.pack("<I", ord(ch)) for x in vals for ch in x),
                                    o.getvalue(), z.getvalue(), f"NumPy strings {back.dtype.str} {back.shape if back.ndim < 9 else back.ndim} style {style}"])
