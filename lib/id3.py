"""ID3v1 and ID3v2 tags as plain values, and their bytes.  Written from the ID3
specifications, for encoding the abstract files of the specifications and decoding
what the programs wrote; shares nothing with the code under test.

A tag is a dict with the fields of spec/Id3v2.tla (ver, exp, pad, ext, crc, upd,
rst, foot, frames), a frame one with id, data (bytes), tap, fap, ro, gid, cmp,
uns, dli."""
import zlib


class Malformed(Exception):
    pass


def need(c, what):
    if not c:
        raise Malformed(what)


def frame(id, data=b"", **kw):
    f = dict(id=id, data=bytes(data), tap=False, fap=False, ro=False, gid=-1,
             cmp=False, uns=False, dli=False)
    f.update(kw)
    return f


def tag(ver, frames=(), pad=0, **kw):
    t = dict(ver=ver, exp=False, pad=pad, ext=False, crc=False, upd=False, rst=-1,
             foot=False, frames=list(frames))
    t.update(kw)
    return t


def ss(n, k=4):
    return bytes((n >> (7 * i)) & 127 for i in reversed(range(k)))


def from_ss(b):
    need(all(x < 128 for x in b), "not sync-safe")
    n = 0
    for x in b:
        n = n * 128 + x
    return n


def unsync(b, last):
    out = bytearray()
    for i, x in enumerate(b):
        out.append(x)
        if x == 255:
            if i + 1 == len(b):
                if last:
                    out.append(0)
            elif b[i + 1] == 0 or b[i + 1] >= 0xe0:
                out.append(0)
    return bytes(out)


def resync(b):
    return b.replace(b"\xff\0", b"\xff")


def false_sync(b):
    return any(b[i] == 255 and b[i + 1] >= 0xe0 for i in range(len(b) - 1))


def frame_bytes(ver, f, u=False):
    d = f["data"]
    i = f["id"].encode()
    if ver == 2:
        return i + len(d).to_bytes(3, "big") + d
    z = zlib.compress(d) if f["cmp"] else d
    if ver == 3:
        b = (len(d).to_bytes(4, "big") if f["cmp"] else b"") + \
            (bytes([f["gid"]]) if f["gid"] >= 0 else b"") + z
        st = f["tap"] * 128 + f["fap"] * 64 + f["ro"] * 32
        fm = f["cmp"] * 128 + (f["gid"] >= 0) * 32
        return i + len(b).to_bytes(4, "big") + bytes([st, fm]) + b
    dl = f["cmp"] or f["dli"]
    b = (bytes([f["gid"]]) if f["gid"] >= 0 else b"") + (ss(len(d)) if dl else b"") + z
    if u:
        b = unsync(b, True)
    st = f["tap"] * 64 + f["fap"] * 32 + f["ro"] * 16
    fm = (f["gid"] >= 0) * 64 + f["cmp"] * 8 + u * 2 + dl
    return i + ss(len(b)) + bytes([st, fm]) + b


def encode(t, u=False):
    ver = t["ver"]
    plain = b"".join(frame_bytes(ver, f) for f in t["frames"])
    pad = bytes(t["pad"])
    if ver == 2:
        body = plain + pad
        if u:
            body = unsync(body, False)
    elif ver == 3:
        e = b""
        if t["ext"]:
            e = (bytes([0, 0, 0, 10, 128, 0]) if t["crc"] else bytes([0, 0, 0, 6, 0, 0])) \
                + t["pad"].to_bytes(4, "big")
            if t["crc"]:
                e += zlib.crc32(plain).to_bytes(4, "big")
        body = e + plain + pad
        if u:
            body = unsync(body, True)
    else:
        e = b""
        if t["ext"]:
            d = (b"\0" if t["upd"] else b"") + \
                (b"\5" + ss(zlib.crc32(plain + pad), 5) if t["crc"] else b"") + \
                (bytes([1, t["rst"]]) if t["rst"] >= 0 else b"")
            e = ss(6 + len(d)) + bytes([1, t["upd"] * 64 + t["crc"] * 32 + (t["rst"] >= 0) * 16]) + d
        body = e + b"".join(frame_bytes(4, f, u or f["uns"]) for f in t["frames"]) + pad
    tail = bytes([ver, 0, u * 128 + t["ext"] * 64 + t["exp"] * 32 + t["foot"] * 16]) + ss(len(body))
    return b"ID3" + tail + body + (b"3DI" + tail if t["foot"] else b"")


def _inflate(z, n):
    try:
        d = zlib.decompress(z)
    except zlib.error as e:
        raise Malformed("bad compression: %s" % e)
    need(len(d) == n, "wrong decompressed size")
    return d


def decode(s):
    """the tag at the start of s, strictly; returns (tag, length)"""
    need(len(s) >= 10 and s[:3] == b"ID3", "no header")
    ver, fl = s[3], s[5]
    need(ver in (2, 3, 4) and s[4] == 0, "bad version")
    n = from_ss(s[6:10])
    foot = ver == 4 and bool(fl & 16)
    total = 10 + n + (10 if foot else 0)
    need(len(s) >= total, "announced size beyond the data")
    need(not fl & {2: 0x7f, 3: 0x1f, 4: 0x0f}[ver], "bad flags")
    b = s[10:10 + n]
    if foot:
        need(s[10 + n:total] == b"3DI" + s[3:10], "bad footer")
    if ver < 4 and fl & 128:
        need(not false_sync(b), "false sync in unsynchronised tag")
        b = resync(b)
    t = tag(ver, exp=ver > 2 and bool(fl & 32), foot=foot)
    t["unsync"] = bool(fl & 128)
    crc = None
    if ver == 3 and fl & 64:
        t["ext"] = True
        k = int.from_bytes(b[:4], "big")
        need(k in (6, 10) and len(b) >= 4 + k, "bad extended header")
        need(b[4:6] == (b"\x80\0" if k == 10 else b"\0\0"), "bad extended header flags")
        extpad = int.from_bytes(b[6:10], "big")
        if k == 10:
            t["crc"] = True
            crc = int.from_bytes(b[10:14], "big")
        b = b[4 + k:]
    if ver == 4 and fl & 64:
        t["ext"] = True
        k = from_ss(b[:4])
        need(k >= 6 and len(b) >= k and b[4] == 1 and not b[5] & 0x8f, "bad extended header")
        x = b[6:k]
        if b[5] & 64:
            need(x[:1] == b"\0", "bad update flag")
            t["upd"] = True
            x = x[1:]
        if b[5] & 32:
            need(x[:1] == b"\5" and len(x) >= 6, "bad checksum field")
            t["crc"] = True
            crc = from_ss(x[1:6])
            x = x[6:]
        if b[5] & 16:
            need(x[:1] == b"\1" and len(x) >= 2, "bad restrictions")
            t["rst"] = x[1]
            x = x[2:]
        need(not x, "extended header too long")
        b = b[k:]
    hl, idl = (6, 3) if ver == 2 else (10, 4)
    plain = b""
    while b and b[0]:
        need(len(b) >= hl, "frame header cut short")
        i = b[:idl]
        need(all(48 <= c <= 57 or 65 <= c <= 90 for c in i), "bad frame identifier %r" % i)
        if ver == 2:
            k = int.from_bytes(b[3:6], "big")
        elif ver == 3:
            k = int.from_bytes(b[4:8], "big")
        else:
            k = from_ss(b[4:8])
        need(len(b) >= hl + k, "frame cut short")
        d = b[hl:hl + k]
        f = frame(i.decode())
        if ver == 2:
            f["data"] = d
        elif ver == 3:
            st, fm = b[8], b[9]
            need(not st & 0x1f and not fm & 0x1f and not fm & 64, "bad frame flags")
            f.update(tap=bool(st & 128), fap=bool(st & 64), ro=bool(st & 32), cmp=bool(fm & 128))
            m = 0
            if f["cmp"]:
                need(len(d) >= 4, "no decompressed size")
                m = int.from_bytes(d[:4], "big")
                d = d[4:]
            if fm & 32:
                need(len(d) >= 1, "no group")
                f["gid"] = d[0]
                d = d[1:]
            f["data"] = _inflate(d, m) if f["cmp"] else d
        else:
            st, fm = b[8], b[9]
            need(not st & 0x8f and not fm & 0xb0 and not fm & 4, "bad frame flags")
            f.update(tap=bool(st & 64), fap=bool(st & 32), ro=bool(st & 16), cmp=bool(fm & 8),
                     uns=bool(fm & 2), dli=bool(fm & 1))
            if f["uns"]:
                need(not false_sync(d) and d[-1:] != b"\xff", "false sync in unsynchronised frame")
                d = resync(d)
            if fm & 64:
                need(len(d) >= 1, "no group")
                f["gid"] = d[0]
                d = d[1:]
            m = None
            if f["dli"]:
                need(len(d) >= 4, "no data length")
                m = from_ss(d[:4])
                d = d[4:]
            if f["cmp"]:
                need(m is not None, "compressed frame without data length")
                f["data"] = _inflate(d, m)
                f["dli"] = False
            else:
                need(m is None or m == len(d), "wrong data length")
                f["data"] = d
        if ver == 4 and f["uns"]:
            # the checksum is over the frame as it was before unsynchronisation
            body = resync(b[hl:hl + k])
            plain += b[:4] + ss(len(body)) + bytes([b[8], b[9] & ~2]) + body
        else:
            plain += b[:hl + k]
        t["frames"].append(f)
        b = b[hl + k:]
    need(not any(b), "padding is not zero")
    t["pad"] = len(b)
    if ver == 3 and t["ext"]:
        need(extpad == len(b), "extended header announces other padding")
    if crc is not None:
        need(crc == zlib.crc32(plain + (b if ver == 4 else b"")), "wrong checksum")
    return t, total


def same(t):
    """a tag without what unsynchronised output adds to it"""
    t = dict(t)
    t.pop("unsync", None)
    t["frames"] = [dict(f, uns=False) for f in t["frames"]]
    return t


# --------------------------------------------------------------------- files
def v1_kind(s):
    """length of the trailing ID3v1 tag of s"""
    if len(s) >= 128 and s[-128:-125] == b"TAG":
        if len(s) >= 355 and s[-355:-351] == b"TAG+":
            return 355
        return 128
    return 0


def split_file(s):
    """(list of ID3v2 tags as (tag, bytes), audio, ID3v1 bytes)"""
    tags = []
    i = 0
    while s[i:i + 3] == b"ID3" and len(s) - i >= 10 and s[i + 3] in (2, 3, 4):
        t, n = decode(s[i:])
        tags.append((t, s[i:i + n]))
        i += n
    k = v1_kind(s[i:])
    return tags, s[i:len(s) - k], s[len(s) - k:]
