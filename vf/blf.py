"""Independent BLF file builder and strict parser (no vblf code)."""

from __future__ import annotations

import zlib

from .model import SIG, enc

FILE_SIG = b"LOGG"
FILE_HEADER = 144


class Malformed(Exception):
    pass


def u(raw, off, n):
    return int.from_bytes(raw[off:off + n], "little")


def systemtime(t):
    return b"".join(enc("u16", x) for x in t)


TIME0 = (2024, 5, 3, 15, 12, 30, 45, 678)


def file_header(*, app=5, level=6, major=1, minor=2, fsize=0, usize=0, count=0, build=0, start=TIME0, last=TIME0,
                restore=0, reserved=bytes(64), api=4070100, size=FILE_HEADER, sig=FILE_SIG):
    out = (sig + enc("u32", size) + enc("u32", api) + bytes([app, level, major, minor]) + enc("u64", fsize)
           + enc("u64", usize) + enc("u32", count) + enc("u32", build) + systemtime(start) + systemtime(last)
           + enc("u64", restore) + reserved)
    assert len(out) == FILE_HEADER
    return out


def parse_header(raw):
    if len(raw) < FILE_HEADER:
        raise Malformed(f"only {len(raw)} bytes of file header")
    return {
        "signature": bytes(raw[0:4]), "statistics_size": u(raw, 4, 4), "api_number": u(raw, 8, 4),
        "application_id": raw[12], "compression_level": raw[13], "application_major": raw[14],
        "application_minor": raw[15], "file_size": u(raw, 16, 8), "uncompressed_file_size": u(raw, 24, 8),
        "object_count": u(raw, 32, 4), "application_build": u(raw, 36, 4),
        "measurement_start_time": tuple(u(raw, 40 + 2 * i, 2) for i in range(8)),
        "last_object_time": tuple(u(raw, 56 + 2 * i, 2) for i in range(8)),
        "restore_points_offset": u(raw, 72, 8), "reserved": bytes(raw[80:144]),
    }


def deflated(payload, level=6, style=None):
    """A zlib stream; style (wbits, strategy, block length) gives the streams other producers write."""
    if style is None:
        return zlib.compress(payload, level)
    wbits, strategy, block = style
    c = zlib.compressobj(level, zlib.DEFLATED, wbits, 8, strategy)
    if not block:
        return c.compress(payload) + c.flush()
    out = b""
    for a in range(0, len(payload), block):
        out += c.compress(payload[a:a + block]) + c.flush(zlib.Z_FULL_FLUSH if a // block % 2 else zlib.Z_SYNC_FLUSH)
    return out + c.flush()


def random_style(rng):
    """Deflate stream style: window sizes 512 bytes to 32 KiB, strategies, several blocks."""
    if rng.random() < 0.5:
        return None
    return (rng.randint(9, 15), rng.choice((0, 1, 2, 3, 4)), rng.choice((0, 0, 1000, 64, 17)))


def container(payload, *, deflate, zlevel=6, header_size=16, header_version=1, method=None, client=0, version=0,
              usize=None, style=None):
    data = deflated(payload, zlevel, style) if deflate else payload
    if method is None:
        method = 2 if deflate else 0
    return (SIG + enc("u16", header_size) + enc("u16", header_version) + enc("u32", 32 + len(data)) + enc("u32", 10)
            + enc("u32", method) + enc("u16", client) + enc("u16", version)
            + enc("u64", len(payload) if usize is None else usize) + data)


class Container:
    __slots__ = ("off", "end", "method", "usize", "payload", "filler", "hsize", "raw_len")

    def __repr__(self):
        return f"<container @{self.off}..{self.end} method {self.method} {len(self.payload)} bytes>"


def parse_containers(raw, *, strict=True):
    """Containers of a log.  strict: everything must be well-formed up to the end of file;
    otherwise stop at the first incomplete container (a crashed writer's file)."""
    pos = FILE_HEADER
    n = len(raw)
    out = []
    while True:
        start = pos
        while pos < n and raw[pos] == 0:
            pos += 1
        if pos >= n:
            if strict and pos - start > 7:
                raise Malformed(f"{pos - start} zero bytes at end of file")
            return out
        if n - pos < 32:
            if strict:
                raise Malformed(f"incomplete container header at {pos}")
            return out
        if raw[pos:pos + 4] != SIG:
            if not strict:
                return out
            raise Malformed(f"no container at {pos}: {raw[pos:pos + 4]!r}")
        size = u(raw, pos + 8, 4)
        typ = u(raw, pos + 12, 4)
        if typ != 10 or size < 32:
            if not strict:
                return out
            raise Malformed(f"object of type {typ} and size {size} at {pos} instead of a log container")
        if pos + size > n:
            if strict:
                raise Malformed(f"container at {pos} of size {size} exceeds file of {n} bytes")
            return out
        c = Container()
        c.off, c.end, c.filler = pos, pos + size, pos - start
        c.hsize = u(raw, pos + 4, 2)
        c.method = u(raw, pos + 16, 4) & 0xFFFF
        c.usize = u(raw, pos + 24, 4)
        data = bytes(raw[pos + 32:pos + size])
        c.raw_len = len(data)
        if c.method == 0:
            c.payload = data
        elif c.method == 2:
            d = zlib.decompressobj()
            try:
                c.payload = d.decompress(data)
            except zlib.error as ex:
                if not strict:
                    return out
                raise Malformed(f"container at {pos} does not inflate: {ex}") from None
            if not d.eof or d.unused_data:
                if not strict:
                    return out
                raise Malformed(f"container at {pos}: deflate stream incomplete or followed by other data")
        else:
            raise Malformed(f"container at {pos} declares compression method {c.method}")
        if strict or True:
            if c.usize != len(c.payload):
                raise Malformed(f"container at {pos} declares {c.usize} uncompressed bytes, has {len(c.payload)}")
            if u(raw, pos + 16, 4) >> 16:
                raise Malformed(f"container at {pos}: reserved bytes after the compression method are set")
            if c.hsize != 16:
                raise Malformed(f"container at {pos} declares header size {c.hsize}")
            if pos % 8:
                raise Malformed(f"container at {pos} is not 8-byte aligned")
        out.append(c)
        pos = c.end


def locate(payload, encodings, *, start=0, partial=False, max_fill=7):
    """Match the concatenated payload against expected encodings.

    Returns (end positions of the complete encodings, bytes of the partial last one).  With partial=True the
    payload may stop anywhere; otherwise it must hold all of them and only zero filler."""
    pos = 0
    ends = []
    n = len(payload)
    for k, e in enumerate(encodings):
        fill = 0
        while pos < n and payload[pos] == 0:
            pos += 1
            fill += 1
        if fill > max_fill:
            raise Malformed(f"{fill} bytes of filler before object {k}")
        if pos >= n and e:
            if partial:
                return ends, 0
            raise Malformed(f"object {k} of {len(encodings)} is missing from the log")
        got = payload[pos:pos + len(e)]
        if len(got) < len(e) and partial:
            if got != e[:len(got)]:
                raise Malformed(f"object {k}: bytes at {pos} differ from its encoding")
            return ends, len(got)
        if got != e:
            i = next((i for i in range(min(len(got), len(e))) if got[i] != e[i]), min(len(got), len(e)))
            raise Malformed(f"object {k}: bytes at stream offset {pos} differ from its encoding at byte {i}: "
                            f"{got[i:i + 8].hex()} instead of {e[i:i + 8].hex()}")
        pos += len(e)
        ends.append(pos)
    rest = payload[pos:]
    if rest.strip(b"\0") or len(rest) > max_fill:
        raise Malformed(f"{len(rest)} unexpected bytes after the last object: {rest[:16].hex()}")
    return ends, 0


def expected_from(raw, encodings):
    """Number of objects readable from the complete containers in `raw` (a prefix or crash state of a log)."""
    payload = b"".join(c.payload for c in parse_containers(raw, strict=False))
    ends, _ = locate(payload, encodings, partial=True)
    return len(ends)
