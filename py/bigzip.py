"""Archives beyond classic ZIP limits: made for the library to read, and the
library's own checked (mapped, not read into memory)."""
import io, mmap, os, random, struct, zipfile, zlib
import numpy as np
import ziporacle


def tiny_value(i):
    return (i * 37 + (i >> 8)) & 255


def npy_bytes(a):
    f = io.BytesIO()
    np.lib.format.write_array(f, a, version=(1, 0))
    return f.getvalue()


def make_count(arg):
    path, n, comp = arg
    head = npy_bytes(np.array([0], "u1"))[:-1]
    with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED if comp else zipfile.ZIP_STORED) as z:
        for i in range(n):
            z.writestr(f"m{i}.npy", head + bytes([tiny_value(i)]))
    with open(path + ".n", "w") as f:
        f.write(str(n))


ZERO_CRC = {}


def zero_crc(n):
    c, z, left = 0, b"\0" * (1 << 24), n
    while left:
        k = min(left, len(z))
        c = zlib.crc32(z[:k], c)
        left -= k
    return c


def make_sparse(arg):
    """small members before, at and beyond chosen offsets; a hole is a stored member of zeros"""
    path, seed, targets, style = arg
    rng = random.Random(seed)
    ents, lines = [], []
    with open(path, "wb") as f:
        pos = 0

        def header(name, crc, cs, us, force64):
            nonlocal pos
            off = pos
            big = force64 or cs >= 0xffffffff or us >= 0xffffffff
            ex = struct.pack("<HHQQ", 1, 16, us, cs) if big else b""
            h = b"PK\3\4" + struct.pack("<HHHHHIIIHH", 45 if big else 20, 0, 0, 0, 0x21, crc, 0xffffffff if big else cs, 0xffffffff if big else us, len(name), len(ex)) + name + ex
            f.seek(pos)
            f.write(h)
            pos += len(h)
            return off

        def small(i):
            nonlocal pos
            name = f"far{i}.npy".encode()
            v = rng.getrandbits(64)
            b = npy_bytes(np.array([v, v ^ (2**64 - 1)], "<u8"))
            off = header(name, zlib.crc32(b), len(b), len(b), style == "force64" and rng.random() < .5)
            f.write(b)
            pos += len(b)
            ents.append((name, zlib.crc32(b), len(b), off))
            lines.append(f"{name.decode()} {v} {off}\n")

        n = 0
        for t in targets:
            room = t - pos - 100  # how far before the target the next header starts
            if room > 200:
                us = room - rng.randrange(0, 40)
                name = f"hole{n}.npy".encode()
                off = header(name, 0, us, us, False)
                pos += us
                ents.append((name, 0, us, off))  # nobody reads it
            for _ in range(4):
                small(n)
                n += 1
        cd = pos
        f.seek(pos)
        for name, crc, size, off in ents:
            fields = b""
            big_s = size >= 0xffffffff or (style == "sizes64")
            limit = 0x7fffffff if style == "python" else 0xffffffff - 1
            big_o = off > limit
            if big_s:
                fields += struct.pack("<QQ", size, size)
            if big_o:
                fields += struct.pack("<Q", off)
            ex = struct.pack("<HH", 1, len(fields)) + fields if fields else b""
            if style == "extra" and rng.random() < .7:
                ex = struct.pack("<HH", 0x5455, 5) + b"\1\0\0\0\0" + ex + struct.pack("<HH", 0x7875, 3) + b"abc"
            f.write(b"PK\1\2" + struct.pack("<HHHHHHIIIHHHHHII", 45, 45 if fields else 20, 0, 0, 0, 0x21, crc, 0xffffffff if big_s else size,
                                           0xffffffff if big_s else size, len(name), len(ex), 0, 0, 0, 0, 0xffffffff if big_o else off) + name + ex)
        end = f.tell()
        if cd > (0x7fffffff if style == "python" else 0xfffffffe) or style == "force64":
            f.write(b"PK\6\6" + struct.pack("<QHHIIQQQQ", 44, 45, 45, 0, 0, len(ents), len(ents), end - cd, cd))
            f.write(b"PK\6\7" + struct.pack("<IQI", 0, end, 1))
            f.write(b"PK\5\6" + struct.pack("<HHHHIIH", 0, 0, 0xffff if style == "force64" else len(ents), 0xffff if style == "force64" else len(ents),
                                           min(end - cd, 0xffffffff), 0xffffffff, 0))
        else:
            f.write(b"PK\5\6" + struct.pack("<HHHHIIH", 0, 0, len(ents), len(ents), end - cd, cd, 0))
    with open(path + ".n", "w") as f:
        f.writelines(lines)


def crc_of(mm, start, n):
    c = 0
    for k in range(start, start + n, 1 << 24):
        c = zlib.crc32(mm[k:min(k + (1 << 24), start + n)], c)
    return c


def check_file(p, arg):
    """one archive of the library's, by its file"""
    path, what, n = arg
    with open(path, "rb") as f:
        mm = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
        try:
            ms, z64 = ziporacle.strict_parse(mm)
        except (ziporacle.Bad, struct.error) as e:
            p.check(False, "structure", f"{what}: {e}")
            return
        p.evals += 1
        p.check(True, "")
        p.seen("library archives parsed")
        if z64:
            p.seen("of them ZIP64")
        if n is not None:
            p.check(len(ms) == n and [m["name"] for m in ms] == [b"m%d.npy" % i for i in range(n)], "member-order", what)
        for i, m in enumerate(ms):
            if n is not None and 300 < i < n - 300 and i % 13 and not 65500 < i < 65600:
                continue
            if m["method"] == 0:
                ok = m["us"] == m["cs"] and crc_of(mm, m["start"], m["cs"]) == m["crc"]
            else:
                d, c, size, k = zlib.decompressobj(-15), 0, 0, m["start"]
                while k < m["start"] + m["cs"] and not d.eof:
                    raw = d.decompress(mm[k:min(k + (1 << 20), m["start"] + m["cs"])])
                    c, size, k = zlib.crc32(raw, c), size + len(raw), k + (1 << 20)
                raw = d.flush()
                c, size = zlib.crc32(raw, c), size + len(raw)
                ok = d.eof and size == m["us"] and c == m["crc"] and not d.unused_data
            p.check(ok, "member-bytes", lambda: f"{what}: {m['name']!r} at {m['offset']}")
            p.seen("library members checked")
            p.seen("bytes of library members checked", m["us"])
            p.cover("zip64 members", m["zip64"])
        try:
            with zipfile.ZipFile(path) as z:
                names = z.namelist()
                p.check([x.encode() for x in names] == [m["name"] for m in ms], "zipfile-names", what)
                infos = z.infolist()
                for i in list(range(min(20, len(infos)))) + list(range(max(0, len(infos) - 20), len(infos))):
                    if infos[i].file_size < 1 << 20:
                        with z.open(infos[i]) as m:
                            a = np.lib.format.read_array(m)
                        if n is not None:
                            p.check(a.shape == (1,) and a[0] == tiny_value(i), "numpy-value", lambda: f"{what} {names[i]}")
                        elif a.dtype == np.uint64:
                            p.check(a.shape == (2,) and int(a[0]) ^ int(a[1]) == 2**64 - 1, "numpy-value", lambda: f"{what} {names[i]}")
                        p.seen("members NumPy read")
        except (zipfile.BadZipFile, ValueError, OSError) as e:
            p.check(False, "zipfile", f"{what}: {e}")
        p.nontrivial(what.encode())
