"""C15: all ways of reading and all kinds of files deliver the same objects."""

import gzip
import io
import itertools
import mmap
import os
import pathlib
import tempfile

from .. import blf, gen, model as m
from ..iofiles import RecFile

PROP = "C15"
LEVEL = "exploration"
RULE = ("A case runs a random schedule of the ways to ask a reader for objects (next on new and kept iterators, for "
        "loops left early, islice, read_object, zip, list) on a known log and compares the recorded deliveries with "
        "the log's objects; or opens the same log through every kind of file and compares deliveries and file bytes; "
        "or writes the same objects to every kind of file and compares the logs (times masked). Distinct = different "
        "(log, schedule) or (log, file kind); non-trivial = at least two ways used or one object.")
ASSUMPTIONS = ["file objects are positioned at the start of the log and seekable", "times in the file header are masked "
               "when logs of different writers are compared"]
REQUIRED = {"large_logs": 50, "schedules": 300, "deliveries": 3000, "reads_after_end": 500, "source_kinds": 300, "target_kinds": 200, "named_sources": 500, "named_targets": 200,
            "switches": 1000}


class StrPath:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


class Duck:
    """A file object that is no io class."""

    def __init__(self, f):
        self._f = f

    def __getattr__(self, name):
        return getattr(self._f, name)

    read = property(lambda self: self._f.read)
    write = property(lambda self: self._f.write)


# --------------------------------------------------------------------------- schedules of reading

def draw(rng, reader, its):
    """One step: returns (name, list of delivered objects, end reached or not known)."""
    op = rng.randrange(11)
    if op == 0:
        o = reader.read_object()
        return "read_object", [] if o is None else [o], o is None
    if op == 1:
        o = next(iter(reader), None)
        return "next(iter)", [] if o is None else [o], o is None
    if op == 2:
        it = rng.choice(its)
        o = next(it, None)
        return "next(kept)", [] if o is None else [o], o is None
    if op == 3:
        its.append(iter(reader))
        return "iter", [], False
    if op == 4:
        k = rng.randint(1, 5)
        out = []
        end = True
        for o in reader:
            out.append(o)
            if len(out) == k:
                end = False
                break
        return f"for-break {k}", out, end
    if op == 5:
        k = rng.randint(0, 4)
        out = list(itertools.islice(reader, k))
        return f"islice {k}", out, len(out) < k
    if op == 6:
        k = rng.randint(0, 4)
        out = list(itertools.islice(rng.choice(its), k))
        return f"islice(kept) {k}", out, len(out) < k
    if op == 7:
        out = []
        for _ in range(rng.randint(1, 4)):
            o = reader.read_object()
            if o is None:
                return "read_object*", out, True
            out.append(o)
        return "read_object*", out, False
    if op == 8:  # loop that also calls read_object
        out = []
        k = rng.randint(1, 3)
        end = True
        for o in reader:
            out.append(o)
            p = reader.read_object()
            if p is None:
                break
            out.append(p)
            k -= 1
            if not k:
                end = False
                break
        return "for+read_object", out, end
    if op == 9:
        try:
            for o in reader:
                raise LookupError(o)
            return "for-raise", [], True
        except LookupError as ex:
            return "for-raise", [ex.args[0]], False
    its[:] = its[-1:]
    return "drop iterators", [], False


def large(ctx, rng, index):
    """Logs with objects of up to some hundred KiB among small ones."""
    schedule(ctx, rng, index, True)
    ctx.count("large_logs")


def schedule(ctx, rng, index, large=False):
    items = gen.seq(rng, rng.choice((0, 1, 2, 5, 12, 30)) if not large else rng.randint(2, 12), rng.choice((0, 30, 200)))
    if large:
        items = gen.enlarge(rng, items, 4)
        raw = gen.write_log(items, gen.gen_level(rng), rng.choice((4000, 65536, 131072, 1 << 20))).content()
    elif rng.random() < 0.6:
        raw = gen.write_log(items, gen.gen_level(rng), gen.gen_buffer_size(rng)).content()
    else:
        raw, _ = gen.package(rng, items)
    for _ in range(4):
        f = RecFile(raw, max_ops=5000 + 8 * len(raw))
        reader = gen.reader_cls()(f)
        its = [iter(reader)]
        got, log = [], []
        last = None
        while True:
            name, objs, end = draw(rng, reader, its)
            log.append(f"{name}:{len(objs)}")
            got += objs
            ctx.check(len(got) <= len(items), lambda: f"{len(got)} objects delivered of {len(items)} after {log[-30:]}", file=raw)
            if name != last:
                ctx.count("switches")
            last = name
            if end:
                break
            ctx.check(len(log) < 3000, lambda: f"no end after {log[-30:]}", file=raw)
        ctx.no(gen.check_items(items, got), f"schedule {log[-60:]}", file=raw)
        # after the end: nothing more, by any way, any number of times
        for k in range(rng.randint(3, 12)):
            way = rng.randrange(5)
            if way < 2:
                r = reader.read_object()
            elif way == 2:
                r = next(iter(reader), None)
            elif way == 3:
                r = next(rng.choice(its), None)
            else:
                r = next(iter(list(reader)), None)
            ctx.check(r is None, lambda: f"a {type(r).__name__} was delivered after the end ({log[-30:]})", file=raw)
            ctx.count("reads_after_end")
        ctx.check(f.content() == raw and not f.nwrite, "reading wrote to the file", file=raw)
        ctx.count("schedules")
        ctx.count("deliveries", len(got))
        ctx.eval((hash(raw), tuple(log)), len(set(x.split(":")[0] for x in log)) > 1)
    ctx.sample(lambda: {"objects": [i.name for i in items], "schedule": log[:60]})


def exhaustive(ctx, rng, index):
    """All alternations of iteration and read_object over a log of up to 8 objects."""
    n = index % 9
    items = gen.seq(rng, n, 20)
    raw = gen.write_log(items, gen.gen_level(rng), rng.choice((7, 60, 1000))).content()
    pats = range(1 << n) if n < 8 or ctx.thorough else rng.sample(range(1 << n), 64)
    for pat in pats:
        reader = gen.reader_cls()(io.BytesIO(raw))
        kept = iter(reader)
        got = []
        for k in range(n):
            if pat >> k & 1:
                got.append(reader.read_object())
            else:
                got.append(next(kept if pat % 3 else iter(reader), None))
        if any(o is None for o in got):
            ctx.fail(f"pattern {pat:0{n}b} over {n} objects: end reached at {[o is None for o in got]}", file=raw)
        ctx.no(gen.check_items(items, got), f"pattern {pat:0{n}b}", file=raw)
        ctx.check(reader.read_object() is None and reader.read_object() is None and next(iter(reader), None) is None
                  and reader.read_object() is None, f"pattern {pat:0{n}b}: objects after the end", file=raw)
        ctx.count("reads_after_end", 4)
        ctx.count("schedules")
        ctx.count("deliveries", n)
        ctx.eval((hash(raw), pat), 0 < pat < (1 << n) - 1)


# --------------------------------------------------------------------------- kinds of files

NAMES = (" log.blf", "log.blf ", "log.blf\n", "\tlog.blf", "log.blf.", "~", "~root", "~.blf", "$HOME", "$VF_NAME.blf", "${VF_NAME}", "%VF_NAME%",
         "*.blf", "[ab].blf", "?.blf", "a\\b.blf", "file:log.blf", "http:log.blf", "log.blf#x", "log.blf?x=1", "a:b", "CON", "nul",
         "x" * 200, "e\u0301.blf", "\u00e9.blf", "\udcff.blf", "a\u200b.blf", "-", "--", "-1", "0", "1", "None", "...", "log.zip", "log.bz2",
         "{0}.blf", "%d", "log.BLF", "Log.blf", "&amp;.blf", "\x01.blf", "log.tmp", "log.blf~", "|cat", "<log", ">log")


def weird_names(rng):
    if rng.random() < 0.5:
        return rng.choice(NAMES)
    return rng.choice(("log.blf", "a b.blf", "ü.blf", "log", "x.BLF", "日本.blf", "-.blf", "%s.blf", "LOGG", "a'\".blf",
                       "log.blf.gz", ".hidden", "a.asc"))


def decoys(rng, path):
    """Other files that the path must not be taken for."""
    d, n = os.path.split(path)
    os.environ["VF_NAME"] = "decoy"
    out = []
    for o in {n.strip(), n.rstrip("."), n.replace("$VF_NAME", "decoy").replace("${VF_NAME}", "decoy").replace("%VF_NAME%", "decoy"),
              n.split("#")[0].split("?")[0], n.lower(), n.swapcase(), n.partition(":")[2], "a.blf", "b.blf", "log.blf",
              n.encode("utf-8", "replace").decode("ascii", "ignore")} - {n, "", ".", ".."}:
        p = os.path.join(d, o)
        if "/" in o or os.path.lexists(p) or rng.random() < 0.3:
            continue
        body = b"".join(x.raw + bytes(-len(x.raw) % 4) for x in gen.seq(rng, 2, 10))
        with open(p, "wb") as f:
            f.write(blf.file_header(level=0) + blf.container(body, deflate=False))
        out.append(p)
    return out


def detour(rng, kind, path):
    """The same file by another path; symbolic links make '..' and '.' more than text."""
    d, n = os.path.split(path)
    if kind == "dot":
        return os.path.join(d, ".", ".", n)
    if kind == "slashes":
        return d + "///" + n
    if kind == "dotdot":
        sub = os.path.join(d, "sub")
        os.makedirs(sub, exist_ok=True)
        return os.path.join(sub, "..", n)
    if kind == "dotdot-link":  # side/link -> other/deep, so side/link/../n is other/n
        other = d + ".other"
        os.makedirs(os.path.join(other, "deep"), exist_ok=True)
        os.makedirs(d + ".side", exist_ok=True)
        link = os.path.join(d + ".side", "link")
        if not os.path.islink(link):
            os.symlink(os.path.join(other, "deep"), link)
        moved = os.path.join(other, n)
        if not os.path.lexists(moved):
            os.symlink(path, moved)
        return os.path.join(link, "..", n)
    if kind == "dirlink":
        link = d + ".dir"
        if not os.path.islink(link):
            os.symlink(d, link)
        return os.path.join(link, n)
    if kind == "proc":
        return f"/proc/self/cwd/{os.path.relpath(path)}"
    raise AssertionError(kind)


DETOURS = ("dot", "slashes", "dotdot", "dotdot-link", "dirlink", "proc")


def named(ctx, rng, index):
    """Files of any name, by any path leading to them, beside files whose names resemble theirs."""
    items = gen.seq(rng, rng.randint(1, 6), 60)
    raw = gen.write_log(items, 0, 1000).content()
    name = NAMES[index % len(NAMES)]
    path = ctx.path(name)
    d = os.path.dirname(path)
    with open(path, "wb") as f:
        f.write(raw)
    others = decoys(rng, path)
    kept = {p: facts(p) for p in [path, *others]}
    old = os.getcwd()
    os.chdir(d)
    try:
        ways = [(path, "absolute"), (os.fsencode(path), "bytes"), (pathlib.Path(path), "Path"), (name, "name"), (os.fsencode(name), "bytes name"),
                (StrPath(name), "path-like"), (os.path.join(".", name), "relative")] + [(detour(rng, k, path), k) for k in DETOURS]
        for src, how in ways:
            what = f"file {name!r} by {how}"
            try:
                with gen.reader_cls()(src) as r:
                    objs = list(r)
            except Exception as ex:
                ctx.fail(f"{what}: reading raised {type(ex).__name__}: {ex}")
            ctx.no(gen.check_items(items, objs), what, file=raw)
            ctx.count("source_kinds")
            ctx.count("named_sources")
        for p, was in kept.items():
            ctx.check(facts(p) == was, f"reading {name!r} changed {os.path.basename(p)!r}")
        part = gen.seq(rng, rng.randint(0, 4), 60)
        ref = masked(gen.write_log(part, 0, 1000).content())
        for dst, how in rng.sample(ways, 5):
            what = f"log written to {name!r} by {how}"
            new = rng.random() < 0.5 and how != "dotdot-link"
            if new:
                os.unlink(path)
            names = set(os.listdir(d))
            with gen.writer_cls()(dst, 0, 1000) as w:
                for it in part:
                    w.write(it.build())
            ctx.check(os.path.lexists(path), f"{what}: no such file afterwards ({sorted(os.listdir(d))!r})")
            ctx.check(set(os.listdir(d)) == names | {name}, f"{what}: directory holds {sorted(os.listdir(d))!r}")
            with open(path, "rb") as f:
                ctx.check(masked(f.read()) == ref, f"{what}: contents differ from those written to memory")
            for p in others:
                ctx.check(facts(p) == kept[p], f"{what}: changed {os.path.basename(p)!r}")
            ctx.count("target_kinds")
            ctx.count("named_targets")
    finally:
        os.chdir(old)
    ctx.eval((name, raw))


SOURCES = ("str", "bytes", "Path", "PathLike", "PathLike-bytes", "relative", "PurePath", "symlink", "str-subclass",
           "BytesIO", "RecFile", "open", "open-r+", "unbuffered", "small-buffer", "gzip", "spooled", "temp", "mmap",
           "duck", "bufferedreader", "seeked", "readonly")


def source(rng, kind, path, raw):
    """(argument for BlfReader, thing to close)."""
    if kind == "str":
        return path, None
    if kind == "bytes":
        return os.fsencode(path), None
    if kind == "Path":
        return pathlib.Path(path), None
    if kind == "PathLike":
        return StrPath(path), None
    if kind == "PathLike-bytes":
        return StrPath(os.fsencode(path)), None
    if kind == "relative":
        return os.path.relpath(path), None
    if kind == "PurePath":
        return pathlib.PurePosixPath(path), None
    if kind == "symlink":
        link = path + ".lnk"
        if not os.path.islink(link):
            os.symlink(path, link)
        return link, None
    if kind == "str-subclass":
        return type("S", (str,), {})(path), None
    if kind == "BytesIO":
        return io.BytesIO(raw), None
    if kind == "RecFile":
        return RecFile(raw), None
    if kind == "open":
        return open(path, "rb"), None
    if kind == "open-r+":
        return open(path, "r+b"), None
    if kind == "unbuffered":
        return open(path, "rb", buffering=0), None
    if kind == "small-buffer":
        return open(path, "rb", buffering=rng.choice((2, 5, 16, 100))), None
    if kind == "gzip":
        b = io.BytesIO()
        with gzip.GzipFile(fileobj=b, mode="wb") as g:
            g.write(raw)
        return gzip.open(io.BytesIO(b.getvalue()), "rb"), None
    if kind == "spooled":
        s = tempfile.SpooledTemporaryFile(max_size=rng.choice((10, 10 ** 7)))
        s.write(raw)
        s.seek(0)
        return s, None
    if kind == "temp":
        t = tempfile.TemporaryFile()
        t.write(raw)
        t.seek(0)
        return t, None
    if kind == "mmap":
        with open(path, "rb") as f:
            return mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ), None
    if kind == "duck":
        return Duck(io.BytesIO(raw)), None
    if kind == "bufferedreader":
        return io.BufferedReader(io.BytesIO(raw), rng.choice((8, 100, 8192))), None
    if kind == "seeked":
        f = open(path, "rb")
        f.read(rng.randint(0, 200))
        f.seek(0)
        return f, None
    if kind == "readonly":
        os.chmod(path, 0o444)
        return path, None
    raise AssertionError(kind)


def facts(path):
    s = os.stat(path)
    with open(path, "rb") as f:
        return f.read(), s.st_size, s.st_mtime_ns, s.st_ino, s.st_mode


def sources(ctx, rng, index):
    items = gen.seq(rng, rng.randint(0, 10), rng.choice((20, 200, 3000)))
    if rng.random() < 0.5:
        raw = gen.write_log(items, gen.gen_level(rng), gen.gen_buffer_size(rng)).content()
    else:
        raw, _ = gen.package(rng, items)
    path = ctx.path(weird_names(rng))
    with open(path, "wb") as f:
        f.write(raw)
    before = facts(path)
    kinds = SOURCES if index % 5 == 0 else rng.sample(SOURCES, 6)
    for kind in kinds:
        if kind == "readonly":
            continue
        src, _ = source(rng, kind, path, raw)
        how = rng.randrange(3)
        if how == 0:
            with gen.reader_cls()(src) as r:
                objs = list(r)
        elif how == 1:
            r = gen.reader_cls()(src)
            objs = list(iter(r.read_object, None))
            r.__exit__(None, None, None)
        else:
            r = gen.reader_cls()(src)
            objs = []
            while (o := r.read_object() if rng.random() < 0.5 else next(iter(r), None)) is not None:
                objs.append(o)
            r.__exit__(None, None, None)
        ctx.no(gen.check_items(items, objs), f"source {kind}", file=raw)
        ctx.check(facts(path) == before, f"reading from {kind} changed the file", file=raw)
        if kind in ("BytesIO", "RecFile") and not src.closed:
            ctx.check(src.getvalue() == raw, f"reading from {kind} changed it", file=raw)
        ctx.check(os.path.exists(path), f"reading from {kind} removed the file")
        ctx.count("source_kinds")
        ctx.count("source_" + kind)
        ctx.count("deliveries", len(objs))
        ctx.eval((hash(raw), kind), bool(items))
    if index % 5 == 0:
        src, _ = source(rng, "readonly", path, raw)
        with gen.reader_cls()(src) as r:
            ctx.no(gen.check_items(items, list(r)), "source readonly", file=raw)
        os.chmod(path, 0o644)
        ctx.count("source_kinds")
    ctx.sample(lambda: {"kinds": kinds, "objects": [i.name for i in items]})


TARGETS = ("str", "bytes", "Path", "PathLike", "PathLike-bytes", "relative", "str-longer", "Path-longer", "symlink",
           "BytesIO", "RecFile", "open", "open-w+", "open-r+longer", "unbuffered", "spooled", "temp", "named-temp",
           "duck", "bufferedwriter", "bufferedrandom", "int-level")


def target(rng, kind, path):
    """(argument for BlfWriter, function returning the finished bytes)."""
    def disk():
        with open(path, "rb") as f:
            return f.read()

    def old(n):
        with open(path, "wb") as f:
            f.write(rng.randbytes(n))

    if kind in ("str", "int-level"):
        return path, disk
    if kind == "bytes":
        return os.fsencode(path), disk
    if kind == "Path":
        return pathlib.Path(path), disk
    if kind == "PathLike":
        return StrPath(path), disk
    if kind == "PathLike-bytes":
        return StrPath(os.fsencode(path)), disk
    if kind == "relative":
        return os.path.relpath(path), disk
    if kind == "str-longer":
        old(rng.randint(1, 200_000))
        return path, disk
    if kind == "Path-longer":
        old(rng.randint(1, 200_000))
        return pathlib.Path(path), disk
    if kind == "symlink":
        link = path + ".w"
        os.symlink(path, link)
        return link, disk
    if kind == "open":
        return open(path, "wb"), disk
    if kind == "open-w+":
        return open(path, "w+b"), disk
    if kind == "open-r+longer":
        old(rng.randint(0, 100))
        return open(path, "r+b"), disk
    if kind == "unbuffered":
        return open(path, "wb", buffering=0), disk
    if kind in ("BytesIO", "RecFile"):
        f = RecFile()
        return f, f.content
    if kind == "duck":
        f = RecFile()
        return Duck(f), f.content
    if kind == "bufferedwriter":
        f = RecFile()
        return io.BufferedWriter(f, rng.choice((8, 100, 8192))), f.content
    if kind == "bufferedrandom":
        f = RecFile()
        return io.BufferedRandom(f, rng.choice((8, 100, 8192))), f.content
    if kind in ("spooled", "temp", "named-temp"):
        # their contents vanish on close: keep a second handle / copy at close
        class Keep:
            def __init__(self, f):
                self.f, self.kept = f, None

            def __getattr__(self, name):
                return getattr(self.f, name)

            def read(self, n=-1):
                return self.f.read(n)

            def write(self, b):
                return self.f.write(b)

            def close(self):
                if not self.f.closed:
                    self.f.seek(0)
                    self.kept = self.f.read()
                    self.f.close()

        make = {"spooled": lambda: tempfile.SpooledTemporaryFile(max_size=rng.choice((10, 10 ** 7))),
                "temp": tempfile.TemporaryFile, "named-temp": tempfile.NamedTemporaryFile}[kind]
        k = Keep(make())
        return k, lambda: k.kept
    raise AssertionError(kind)


def masked(raw):
    raw = bytearray(raw)
    raw[40:72] = bytes(32)
    return bytes(raw)


def targets(ctx, rng, index):
    items = gen.seq(rng, rng.randint(0, 10), rng.choice((20, 200, 3000)))
    level, bs = gen.gen_level(rng), gen.gen_buffer_size(rng)
    ref = masked(gen.write_log(items, level, bs).content())
    kinds = TARGETS if index % 5 == 0 else rng.sample(TARGETS, 6)
    for kind in kinds:
        path = ctx.path(weird_names(rng))
        dst, result = target(rng, kind, path)
        lv = vb_level(level) if rng.random() < 0.5 else level
        how = rng.randrange(2)
        if how == 0:
            with gen.writer_cls()(dst, lv, bs) as w:
                for it in items:
                    w.write(it.build())
        else:
            w = gen.writer_cls()(dst, compression_level=lv, buffer_size=bs)
            for it in items:
                w.write(it.build())
            w.close()
        raw = result()
        what = f"target {kind} (level {level}, buffer {bs})"
        ctx.check(raw is not None and masked(raw) == ref,
                  lambda: f"{what}: log of {len(raw or b'')} bytes differs from the one written to memory ({len(ref)} bytes) at "
                  f"{next((i for i, (x, y) in enumerate(zip(masked(raw), ref)) if x != y), 'end') if raw else None}", file=raw)
        ctx.count("target_kinds")
        ctx.count("target_" + kind)
        ctx.eval((hash(ref), kind), bool(items))
    ctx.sample(lambda: {"kinds": kinds, "objects": [i.name for i in items], "level": level})


def vb_level(level):
    return gen.vb("constants").Compression(level) if level in [int(x) for x in gen.vb("constants").Compression] else level


def twice(ctx, rng, index):
    """Two readers one after the other on the same path or rewound file object: the same result."""
    items = gen.seq(rng, rng.randint(1, 8), 100)
    raw, _ = gen.package(rng, items)
    if index % 2:
        f = io.BytesIO(raw)
        for _ in range(3):
            f.seek(0)
            r = gen.reader_cls()(f)
            k = rng.choice((None, 0, 1, 2))
            objs = list(itertools.islice(r, k))
            ctx.no(gen.check_items(items[:len(objs)], objs), "file object read again", file=raw)
            ctx.check(k is not None or len(objs) == len(items), f"{len(objs)} of {len(items)} objects", file=raw)
    else:
        path = ctx.path()
        with open(path, "wb") as g:
            g.write(raw)
        readers = [gen.reader_cls()(path) for _ in range(3)]
        for r in readers[::-1]:
            ctx.no(gen.check_items(items, list(r)), "path read again", file=raw)
        for r in readers:
            r.__exit__(None, None, None)
    ctx.count("source_kinds")
    ctx.eval((hash(raw), index % 2))


def rewritten(ctx, rng, index):
    """A path whose file is replaced or overwritten by another of the same size and time between two readings."""
    path = ctx.path()
    total = 400
    for k in range(6):
        n = rng.choice((1, 2, 5, 10))
        sizes = [total // n] * n
        nums = [rng.choice((50, 131, 200)) for _ in sizes]
        items = [gen.RawItem(t, m.raw_object(t, rng.randbytes(x - 16).replace(b"LOBJ", b"lobj"))) for t, x in zip(nums, sizes)]
        raw = gen.write_log(items, 0, 1 << 16).content()
        if rng.random() < 0.5:
            with open(path + "~", "wb") as g:
                g.write(raw)
            os.replace(path + "~", path)
        else:
            with open(path, "wb") as g:
                g.write(raw)
        os.utime(path, ns=(10**18, 10**18))
        how = rng.randrange(3)
        src = path if how == 0 else os.fsencode(path) if how == 1 else pathlib.Path(path)
        with gen.reader_cls()(src) as r:
            ctx.no(gen.check_items(items, list(r)), f"log {k} at the same path", file=raw)
            ctx.check(r.read_object() is None, f"log {k} at the same path: object after the end", file=raw)
            ctx.check(r.file_statistics.pack() == raw[:144], f"log {k} at the same path: header of another log", file=raw)
        ctx.count("source_kinds")
        ctx.count("rewritten_paths")
    ctx.eval(("rewritten", raw))


def families(tier):
    t = tier == "thorough"
    return [
        ("exhaustive", 9 * (60 if t else 6), exhaustive),
        ("sources", 3000 if t else 200, sources),
        ("targets", 3000 if t else 200, targets),
        ("named", 3000 if t else 2 * len(NAMES), named),
        ("twice", 3000 if t else 200, twice),
        ("rewritten", 2000 if t else 100, rewritten),
        ("large", 3000 if t else 150, large),
        ("schedule", 60000 if t else 3000, schedule),
    ]
