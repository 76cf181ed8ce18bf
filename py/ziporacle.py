"""Independent ZIP oracles: a strict structural parser, zipfile, zlib, NumPy;
and generators of archives other writers could have produced."""
import io, random, struct, zipfile, zlib
import numpy as np
import driver, npyoracle


class Bad(Exception):
    pass


def need(ok, what):
    if not ok:
        raise Bad(what)


def strict_parse(b):
    """structure of a whole archive: list of dicts in central directory order"""
    need(len(b) >= 22, "shorter than an end record")
    e = len(b) - 22
    need(b[e:e + 4] == b"PK\5\6", "no end record at the end of the file")
    disk, cddisk, nd, n, size, off, cl = struct.unpack("<HHHHIIH", b[e + 4:])
    need(cl == 0, "comment length without comment")
    need(disk == 0 and cddisk == 0, "disk numbers")
    end = e
    z64 = False
    if b[e - 20:e - 16] == b"PK\6\7":
        z64 = True
        d, zo, nd_ = struct.unpack("<IQI", b[e - 16:e])
        need(d == 0 and nd_ == 1, "ZIP64 locator disks")
        need(b[zo:zo + 4] == b"PK\6\6", "ZIP64 end record signature")
        rs, vm, vn, d1, d2, nd64, n64, size64, off64 = struct.unpack("<QHHIIQQQQ", b[zo + 4:zo + 56])
        need(rs == 44 and zo + 56 == e - 20, "ZIP64 end record size")
        need(vn >= 45, "ZIP64 end record version needed")
        need(d1 == 0 and d2 == 0, "ZIP64 end record disks")
        need(n in (0xffff, n64) and nd in (0xffff, nd64), "entry counts disagree")
        need(size in (0xffffffff, size64) and off in (0xffffffff, off64), "directory sizes disagree")
        n, nd, size, off = n64, nd64, size64, off64
        end = zo
    else:
        need(n != 0xffff and size != 0xffffffff and off != 0xffffffff, "ZIP64 value without ZIP64 end record")
    need(n == nd, "entries on disk differ from entries")
    need(off + size == end, "directory does not end at the end record")
    out, p, nxt = [], off, 0

    def z64extra(x, vals):
        seen = False
        q = 0
        while q < len(x):
            need(q + 4 <= len(x), "extra field header cut off")
            tag, ln = struct.unpack("<HH", x[q:q + 4])
            need(q + 4 + ln <= len(x), "extra field overruns")
            if tag == 1:
                need(not seen, "two ZIP64 extra fields")
                seen = True
                f = x[q + 4:q + 4 + ln]
                k = 0
                for key in vals:
                    if vals[key] == 0xffffffff:
                        need(k + 8 <= len(f), "ZIP64 extra field too short")
                        vals[key] = struct.unpack("<Q", f[k:k + 8])[0]
                        k += 8
                need(k == len(f), "ZIP64 extra field too long")
            q += 4 + ln
        if not seen:
            need(all(v != 0xffffffff for v in vals.values()), "ZIP64 value without extra field")
        return seen

    for _ in range(n):
        need(b[p:p + 4] == b"PK\1\2", "central signature")
        vm, vn, fl, me, t, d, crc, cs, us, nl, xl, cl, dk, ia, xa, lo = struct.unpack("<HHHHHHIIIHHHHHII", b[p + 4:p + 46])
        name = b[p + 46:p + 46 + nl]
        v = {"us": us, "cs": cs, "lo": lo}
        s64 = z64extra(b[p + 46 + nl:p + 46 + nl + xl], v)
        need(dk == 0, "disk number start")
        need(len(name) == nl, "name cut off")
        us, cs, lo = v["us"], v["cs"], v["lo"]
        need(lo == nxt, f"member at {lo}, expected at {nxt}")
        need(b[lo:lo + 4] == b"PK\3\4", "local signature")
        lvn, lfl, lme, lt, ld, lcrc, lcs, lus, lnl, lxl = struct.unpack("<HHHHHIIIHH", b[lo + 4:lo + 30])
        lv = {"us": lus, "cs": lcs}
        ls64 = z64extra(b[lo + 30 + lnl:lo + 30 + lnl + lxl], lv)
        need(not ls64 or (lus == 0xffffffff and lcs == 0xffffffff), "local ZIP64 field must hold both sizes")
        need((lfl, lme, lt, ld, lnl) == (fl, me, t, d, nl), "local and central headers differ")
        need((lcrc, lv["cs"], lv["us"]) == (crc, cs, us), "local and central sizes or CRC differ")
        need(b[lo + 30:lo + 30 + lnl] == name, "local and central names differ")
        need(vn <= 45 and vn >= (45 if s64 else 20 if me == 8 else 10), "central version needed")
        need(lvn <= 45 and lvn >= (45 if ls64 else 20 if me == 8 else 10), "local version needed")
        need(fl & ~0x0806 == 0, "flags")
        need(me in (0, 8), "method")
        dm, mo = d & 31, (d >> 5) & 15
        need(1 <= dm and 1 <= mo <= 12, "date is not a date")
        st = lo + 30 + lnl + lxl
        nxt = st + cs
        need(nxt <= off, "data runs into the directory")
        out.append({"name": name, "method": me, "crc": crc, "cs": cs, "us": us, "start": st, "offset": lo, "zip64": s64})
        p += 46 + nl + xl + cl
    need(nxt == off, "gap before the directory")
    need(p == off + size, "directory size")
    return out, z64


def member_bytes(b, m):
    data = bytes(b[m["start"]:m["start"] + m["cs"]])
    if m["method"] == 0:
        return data
    d = zlib.decompressobj(-15)
    raw = d.decompress(data) + d.flush()
    need(d.eof, "DEFLATE stream not finished")
    need(d.unused_data == b"", "bytes after the DEFLATE stream")
    return raw


def check_archives(p, path):
    for rec in driver.read_records(path):
        desc, b = rec[0].decode("latin-1"), rec[1]
        want = [rec[2 + 5 * i:7 + 5 * i] for i in range((len(rec) - 2) // 5)]
        blob = {"archive.npz": b[:300000]}
        try:
            ms, _ = strict_parse(b)
        except (Bad, struct.error) as e:
            p.check(False, "structure", f"{desc}: {e}", blob)
            continue
        p.check([m["name"] for m in ms] == [w[0] for w in want], "names", f"{desc}: names or order differ", blob)
        for m, w in zip(ms, want):
            try:
                raw = member_bytes(b, m)
            except (Bad, zlib.error) as e:
                p.check(False, "data", f"{desc}: {m['name']}: {e}", blob)
                continue
            p.check(raw == w[1], "data", f"{desc}: {m['name']!r}: extracted bytes differ from the saved NPY file", blob)
            p.check(len(raw) == m["us"] and zlib.crc32(raw) == m["crc"], "size-crc", f"{desc}: {m['name']!r}", blob)
            p.seen("members extracted with zlib")
        # Python's zipfile, which judges by the directory
        try:
            with zipfile.ZipFile(io.BytesIO(b)) as z:
                p.check(z.testzip() is None, "zipfile", f"{desc}: testzip", blob)
                infos = z.infolist()
                p.check(len(infos) == len(want), "zipfile", f"{desc}: {len(infos)} members", blob)
                for zi, w in zip(infos, want):
                    if zi.filename.encode("cp437", "replace") == w[0]:
                        p.check(z.read(zi) == w[1], "zipfile", f"{desc}: {zi.filename}", blob)
                        p.seen("members extracted with zipfile")
        except Exception as e:
            p.check(False, "zipfile", f"{desc}: {type(e).__name__}: {e}", blob)
        # NumPy's reading of every member
        for w in want:
            meta, shape = w[2].decode(), tuple(int(x) for x in w[3].decode().split(",") if x)
            descr, fo = meta.split(";")
            if len(shape) > 64:
                continue
            try:
                d, f, s, payload, arr, rest = npyoracle.numpy_view(w[1])
                ok = (d == descr and f == (fo == "1") and s == shape and arr.shape == shape and payload == w[4] and rest == b"")
                p.check(ok, "numpy", f"{desc}: NumPy sees {d} {f} {s}", blob)
            except Exception as e:
                p.check(False, "numpy", f"{desc}: {type(e).__name__}: {e}", blob)
            p.seen("members loaded with NumPy")
        # and through np.load of the archive, when names allow it
        try:
            names = [w[0].decode("ascii") for w in want]
        except UnicodeDecodeError:
            names = None
        if names and len(names) < 50 and all(n.isprintable() and len(n) > 4 for n in names):
            try:
                with np.load(io.BytesIO(b), allow_pickle=False) as z:
                    last = {}
                    for n, w in zip(names, want):
                        last[n] = w
                    p.check(set(z.zip.namelist()) == set(names), "np.load", f"{desc}: {z.zip.namelist()}", blob)
                    for n, w in last.items():
                        a = z[n[:-4]] if n[:-4] in z.files and n[:-4] + ".npy" == n else None
                        if a is not None and n[:-4] not in names and len(a.shape) <= 64:
                            fo = w[2].endswith(b"1")
                            p.check(npyoracle.native(a, a.dtype).tobytes(order="F" if fo else "C") == w[4], "np.load", f"{desc}: {n}", blob)
                            p.seen("members loaded with np.load")
            except Exception as e:
                p.check(False, "np.load", f"{desc}: {type(e).__name__}: {e}", blob)


# ---- archives by other writers ----------------------------------------------
class Unseekable(io.RawIOBase):
    def __init__(self):
        self.b = bytearray()

    def writable(self):
        return True

    def write(self, d):
        self.b += d
        return len(d)


def fld(name, rec):
    """record fields describing one expected member: name + the C03 fields"""
    return [name] + [x if isinstance(x, bytes) else x.encode() for x in rec[:6]]


def zdeflate(rnd, raw):
    k = rnd.randrange(8)
    if k == 0:
        c = zlib.compressobj(rnd.randrange(0, 10), zlib.DEFLATED, -15, rnd.randrange(1, 10), rnd.randrange(0, 5))
        return c.compress(raw) + c.flush(), "any strategy"
    if k == 1:
        c = zlib.compressobj(6, zlib.DEFLATED, -rnd.randrange(9, 16), 8, 0)
        return c.compress(raw) + c.flush(), "small window"
    if k == 2:  # flushed in pieces
        c = zlib.compressobj(rnd.randrange(1, 10), zlib.DEFLATED, -15)
        out, i = b"", 0
        while i < len(raw):
            n = rnd.randrange(1, max(2, len(raw) // 3))
            out += c.compress(raw[i:i + n]) + c.flush(rnd.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH, zlib.Z_BLOCK if hasattr(zlib, "Z_BLOCK") else zlib.Z_SYNC_FLUSH]))
            i += n
        return out + c.flush(), "flush points"
    if k == 3:  # stored blocks of any size, including empty ones
        out, i = b"", 0
        while True:
            n = min(len(raw) - i, rnd.choice([0, 1, 7, 100, 1000, 32768, 65535]))
            fin = 1 if i + n >= len(raw) and rnd.random() < 0.7 else 0
            out += bytes([fin]) + struct.pack("<HH", n, n ^ 0xffff) + raw[i:i + n]
            i += n
            if fin:
                return out, "stored blocks"
    if k == 4:
        c = zlib.compressobj(9, zlib.DEFLATED, -15, 9, zlib.Z_FIXED)
        return c.compress(raw) + c.flush(), "fixed codes"
    if k == 5:
        c = zlib.compressobj(9, zlib.DEFLATED, -15, 9, zlib.Z_RLE)
        return c.compress(raw) + c.flush(), "rle"
    if k == 6:
        c = zlib.compressobj(9, zlib.DEFLATED, -15, 9, zlib.Z_HUFFMAN_ONLY)
        return c.compress(raw) + c.flush(), "huffman only"
    c = zlib.compressobj(rnd.randrange(0, 10), zlib.DEFLATED, -15)
    return c.compress(raw) + c.flush(), "level"


def rnd_extra(rnd, room=0):
    """extra fields a reader must skip"""
    out = b""
    for _ in range(rnd.randrange(0, 4)):
        tag = rnd.choice([0x5455, 0x7875, 0x000a, 0xcafe, 0x9901 & 0xfff0, 0x0007, 0x6375, 0x7075])
        n = rnd.choice([0, 1, 4, 5, 9, 28, 40, 300])
        out += struct.pack("<HH", tag, n) + bytes(rnd.randrange(256) for _ in range(n))
    if rnd.random() < 0.04:  # of any size
        n = int(2 ** rnd.uniform(5, 14.9))
        out += struct.pack("<HH", 0xcafe, n) + rnd.randbytes(n)
    elif room > 40000 and rnd.random() < 0.02:
        n = room - len(out) - 4 - rnd.choice([0, 0, 1, 2, 3, 5, 100])
        out += struct.pack("<HH", 0x7075, n) + rnd.randbytes(n)
    return out


def build_zip(rnd, members):
    """hand-made archive; members: (name, raw, method, comp). Uses every liberty the format leaves to a writer."""
    out = bytearray()
    if rnd.random() < 0.15:
        out += bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, 200))).replace(b"PK", b"QK")  # self-extracting stub
    cds = []
    how = set()
    for name, raw, method, comp in members:
        off = len(out)
        crc, us, cs = zlib.crc32(raw), len(raw), len(comp)
        flags = rnd.choice([0, 0, 2, 4, 6]) if method == 8 else 0
        try:
            name.decode("ascii")
        except UnicodeDecodeError:
            flags |= 0x800
        dd = rnd.random() < 0.25
        l64 = rnd.random() < 0.25
        c64 = rnd.random() < 0.25
        if dd:
            flags |= 8
            how.add("data descriptor")
        lcrc, lcs, lus = (0, 0, 0) if dd and rnd.random() < 0.8 else (crc, cs, us)
        lx = b""
        if l64:
            how.add("local ZIP64")
            z = struct.pack("<HHQQ", 1, 16, lus, lcs)
            lus = lcs = 0xffffffff
            a, b = rnd_extra(rnd), rnd_extra(rnd)
            lx = a + z + b
        elif rnd.random() < 0.12:
            # a field reserved by a writer which then did not need it
            how.add("unneeded local ZIP64")
            lx = rnd_extra(rnd) + struct.pack("<HHQQ", 1, 16, us, cs) + rnd_extra(rnd)
        else:
            lx = rnd_extra(rnd, 65535)
        if lx:
            how.add("local extra")
        t = rnd.randrange(1 << 16)
        d = (rnd.randrange(0, 128) << 9) | (rnd.randrange(1, 13) << 5) | rnd.randrange(1, 29)
        vn = 45 if l64 or c64 else rnd.choice([20, 20, 10 if method == 0 else 20, 45])
        out += b"PK\3\4" + struct.pack("<HHHHHIIIHH", vn, flags, method, t, d, lcrc, lcs, lus, len(name), len(lx)) + name + lx + comp
        if dd:
            if rnd.random() < 0.7:
                out += b"PK\7\x08"
            out += struct.pack("<IQQ", crc, cs, us) if l64 else struct.pack("<III", crc, cs, us)
        elif rnd.random() < 0.1:
            out += bytes(rnd.randrange(1, 60))  # gap
            how.add("gap")
        ccs, cus, coff = cs, us, off
        z = b""
        if c64:
            how.add("central ZIP64")
            which = rnd.randrange(1, 8)
            if which & 1:
                z += struct.pack("<Q", us)
                cus = 0xffffffff
            if which & 2:
                z += struct.pack("<Q", cs)
                ccs = 0xffffffff
            if which & 4:
                z += struct.pack("<Q", off)
                coff = 0xffffffff
            if which in (1, 3, 7) and rnd.random() < 0.3:
                # values which the header already has, and the disk number, after those it needs
                rest = struct.pack("<QQQI", us, cs, off, 0)[len(z):]
                z += rest[:rnd.choice([len(rest), len(rest) - 4])]
                how.add("central ZIP64 with more than needed")
            z = struct.pack("<HH", 1, len(z)) + z
        elif rnd.random() < 0.12:
            how.add("unneeded central ZIP64")
            z = struct.pack("<HHQQQI", 1, 28, us, cs, off, 0)[:rnd.choice([32, 28, 20])]
            z = z[:2] + struct.pack("<H", len(z) - 4) + z[4:]
        cx = rnd_extra(rnd)
        cx += z + rnd_extra(rnd, 65535 - len(cx) - len(z))
        cm = rnd.randbytes(rnd.choice([0, 0, 0, 1, 20, 3000, 65535] if rnd.random() < 0.1 else [0, 0, 0, 1, 20, 3000]))
        if cx:
            how.add("central extra")
        if cm:
            how.add("member comment")
        cds.append(b"PK\1\2" + struct.pack("<HHHHHHIIIHHHHHII", rnd.choice([20, 0x031e, 0x0314, 0x0b3f, 45]), vn, flags, method, t, d, crc, ccs, cus,
                                           len(name), len(cx), len(cm), 0, rnd.choice([0, 1]), rnd.choice([0, 0x81a40000, 0x20]), coff) + name + cx + cm)
    if rnd.random() < 0.2 and len(cds) > 1:
        rnd.shuffle(cds)
        how.add("directory permuted")
    off = len(out)
    cd = b"".join(cds)
    out += cd
    n = len(cds)
    if rnd.random() < 0.25:
        how.add("ZIP64 end record")
        zo = len(out)
        ext = b"" if rnd.random() < 0.7 else struct.pack("<HI", 0x1234, 5) + b"hello"
        out += b"PK\6\6" + struct.pack("<QHHIIQQQQ", 44 + len(ext), 45, 45, 0, 0, n, n, len(cd), off) + ext
        out += b"PK\6\7" + struct.pack("<IQI", 0, zo, 1)
        k = rnd.randrange(1, 8)
        en = 0xffff if k & 1 else n
        es = 0xffffffff if k & 2 else len(cd)
        eo = 0xffffffff if k & 4 else off
    else:
        en, es, eo = n, len(cd), off
    cm = b""
    if rnd.random() < 0.3:
        how.add("archive comment")
        cm = rnd.choice([b"c", b"a comment", b"PK\5\6 not a record", b"PK\5\6" + bytes(18) + b"x", b"PK\5\6" * 9, b"x" * 65535, bytes(1000), b"\0", b"PK"])
    out += b"PK\5\6" + struct.pack("<HHHHIIH", 0, 0, en, en, es, eo, len(cm)) + cm
    return bytes(out), how


def names_for(rnd, n):
    pool = ["arr_0", "arr_1", "arr_2", "x", "weights/layer1", "naïve", "日本語", "a b", "UPPER", "z" * 300, "a.npy", "dir/sub/x", "_", "0", "data-1.5", "тест"]
    return rnd.sample(pool, n)


def with_crc(data, crc):
    """the data with its last four bytes such that it has that checksum"""
    crc32 = zlib.crc32
    data = bytearray(data)
    was, rows = crc32(data), []
    for b in range(32):
        x = bytearray(data)
        x[len(x) - 4 + b // 8] ^= 1 << b % 8
        rows.append((crc32(x) ^ was, 1 << b))
    want, change = was ^ crc, 0
    for b in range(32):
        i = next(i for i, (m, _) in enumerate(rows) if m >> b & 1)
        m, s = rows.pop(i)
        rows = [(n ^ m, t ^ s) if n >> b & 1 else (n, t) for n, t in rows]
        if want >> b & 1:
            want ^= m
            change ^= s
    for i in range(4):
        data[len(data) - 4 + i] ^= change >> 8 * i & 255
    assert crc32(data) == crc
    return bytes(data)


def even_deflate(rnd, data):
    """deflated data exactly as long as the data, if that can be done"""
    for j in range(60):
        c = zlib.compressobj(rnd.choice([1, 6, 9]), zlib.DEFLATED, -15)
        j = min(j, len(data))
        comp = b"\0" + struct.pack("<HH", j, j ^ 0xffff) + data[:j] + c.compress(data[j:]) + c.flush()
        q, rest = divmod(len(data) - len(comp), 5)
        if q >= 0 and rest == 0:
            return b"\0\0\0\xff\xff" * q + comp, "deflate to the same length"
    return zdeflate(rnd, data)


def odd_checksum(rnd, rec):
    """the record of an array of integers with other last elements, such that its file's checksum is unusual"""
    t, big, fortran, shape, w, payload, data, desc = rec
    if int(t) > 7 or len(payload) < 4:
        return rec
    data = with_crc(data, rnd.choice([0, 0, 0xffffffff, 0xffffffff, 1, 0x80000000, 0x04034b50, 0x02014b50, 0x06054b50, 0x08074b50, 0xff, 0xffff0000]))
    return [t, big, fortran, shape, w, npyoracle.numpy_view(data)[3], data, desc + " with an odd checksum"]


def gen_archive(rnd, rng):
    """(kind, archive, description, [fields...])"""
    kind = rnd.randrange(10)
    n = rnd.choice([1, 1, 2, 3, 4, 6])
    recs = [npyoracle.gen_file(rnd, rng, cap=60000 if rnd.random() < 0.05 else 800) for _ in range(n)]
    recs = [odd_checksum(rnd, r) if rnd.random() < 0.08 else r for r in recs]
    names = names_for(rnd, n)
    files = [r[6] for r in recs]
    exp = [fld((nm + ".npy").encode(), r) for nm, r in zip(names, recs)]
    f = io.BytesIO()
    if kind < 2:
        arrays = {}
        for nm, r in zip(names, recs):
            arrays[nm] = np.load(io.BytesIO(r[6]), allow_pickle=False, max_header_size=10**8)
        (np.savez if kind == 0 else np.savez_compressed)(f, **arrays)
        exp = []
        for nm in names:  # what NumPy itself wrote, as NumPy reads it
            a = arrays[nm]
            g = io.BytesIO()
            np.save(g, a)
            d, fo, sh, payload, arr, rest = npyoracle.numpy_view(g.getvalue())
            t = npyoracle.NUMPY_CODES.index("U" if d[1] == "U" else d[1:])
            w = int(d[2:]) if d[1] == "U" else 0
            exp.append(fld((nm + ".npy").encode(), [str(t), "1" if d[0] == ">" else "0", "1" if fo else "0", ",".join(map(str, sh)), str(w), payload]))
        return "R", f.getvalue(), "np.savez" if kind == 0 else "np.savez_compressed", exp
    if kind < 5:
        un = rnd.random() < 0.35
        g = Unseekable() if un else f
        level = rnd.randrange(0, 10)
        meth = rnd.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_DEFLATED])
        force = rnd.random() < 0.3
        how = f"zipfile method={meth} level={level} unseekable={un} force_zip64={force}"
        with zipfile.ZipFile(g, "w", meth, compresslevel=level) as z:
            for nm, data in zip(names, files):
                zi = zipfile.ZipInfo(nm + ".npy", date_time=(rnd.randrange(1980, 2100), rnd.randrange(1, 13), rnd.randrange(1, 29), rnd.randrange(24), rnd.randrange(60), rnd.randrange(60)))
                zi.compress_type = meth
                try:
                    zi._compresslevel = level
                    zi.compress_level = level
                except AttributeError:
                    pass
                zi.external_attr = rnd.choice([0, 0o644 << 16, 0o100755 << 16])
                if rnd.random() < 0.4:
                    zi.extra = rnd_extra(rnd)
                if rnd.random() < 0.3:
                    zi.comment = b"member comment"
                with z.open(zi, "w", force_zip64=force) as h:
                    i = 0
                    while i < len(data):  # in pieces
                        k = rnd.randrange(1, len(data) + 1)
                        h.write(data[i:i + k])
                        i += k
            if rnd.random() < 0.4:
                z.comment = rnd.choice([b"hello", b"PK\5\6", b"y" * 65535, b"\0" * 40])
        return "R", bytes(g.b) if un else f.getvalue(), how, exp
    if kind < 9:
        ms, hows = [], []
        for nm, data in zip(names, files):
            if rnd.random() < 0.3:
                ms.append(((nm + ".npy").encode(), data, 0, data))
            else:
                comp, h = even_deflate(rnd, data) if rnd.random() < 0.08 else zdeflate(rnd, data)
                hows.append(h)
                ms.append(((nm + ".npy").encode(), data, 8, comp))
        b, how = build_zip(rnd, ms)
        return "R", b, "hand-made: " + ", ".join(sorted(how | set(hows))), exp
    # other methods
    k = rnd.randrange(3)
    if k < 2:
        meth = [zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA][k]
        with zipfile.ZipFile(f, "w", meth) as z:
            for nm, data in zip(names, files):
                z.writestr(nm + ".npy", data)
        return "X", f.getvalue(), f"zipfile method={meth}", exp
    meth = rnd.choice([1, 2, 6, 7, 9, 10, 12, 14, 93, 95, 98, 99, 255, 0x800, 0xffff, 0x0108])
    comp = rnd.choice([lambda d: d, lambda d: zdeflate(rnd, d)[0]])
    b, how = build_zip(rnd, [((nm + ".npy").encode(), d, meth, comp(d)) for nm, d in zip(names, files)])
    return "X", b, f"hand-made method={meth}", exp


def make_archives(arg):
    path, seed, n = arg
    rnd = random.Random(seed)
    rng = np.random.default_rng(seed)
    with open(path, "wb") as f:
        for _ in range(n):
            kind, b, desc, exp = gen_archive(rnd, rng)
            fields = [kind, b, desc]
            for e in exp:
                fields += e
            driver.write_record(f, fields)
