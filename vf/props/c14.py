"""C14: I/O failures are reported and never corrupt the log."""

import errno
import io
import os
import struct
import sys
import zlib

from .. import blf, gen, idle, model as m
from ..iofiles import Injected, RecFile
from .c06 import ms_of

PROP = "C14"
LEVEL = "fault_enumeration"
RULE = ("A baseline run counts the file operations of a history; then each operation fails in turn (before storing "
        "anything, after part, after all of it), alone, repeatedly or at random, the caller goes on, and closes until "
        "it works. Monitored: the call that hit the fault raised exactly it; the finished log holds every object "
        "passed to write once, in order, under a truthful header. Distinct = different (history, faulty operations, "
        "stored part); non-trivial = at least one fault fired.")
ASSUMPTIONS = ["a failing write stores a prefix of its data and advances the position by it, and raises; later operations work",
               "write() of the file never stores less than asked for without raising (buffered file objects)"]
REQUIRED = {"large_histories": 50, "faults_write": 1000, "faults_close": 50, "partial_writes": 500,
            "faults_reader": 500, "constructor_faults": 20, "logs_recovered": 1000, "real_file_faults": 4, "device_faults": 300}


class Plan:
    """Fails chosen operations; remembers what fired."""

    def __init__(self, points, stored, repeat=1, exc=None):
        self.points, self.stored, self.repeat = points, stored, repeat
        self.fired = []
        self.left = {p: repeat for p in points}
        self.kinds = []
        self.by_kind = {}
        self.armed = True
        self.exc = exc

    def __call__(self, index, name, data):
        self.kinds.append(name)
        if not self.armed:
            return None
        k = len(self.kinds) - 1
        hit = False
        for p in self.points:
            if p <= k < p + self.repeat:
                hit = True
        if not hit:
            return None
        ex = self.exc() if self.exc else Injected(errno.ENOSPC, f"injected fault at operation {k} ({name})")
        self.fired.append((k, name, ex))
        n = self.stored
        if n == "half":
            n = len(data) // 2
        elif n == "all":
            n = None
        elif n == "but1":
            n = max(0, len(data) - 1)
        return ex, n


def chain(ex):
    out = []
    while ex is not None and ex not in out:
        out.append(ex)
        ex = ex.__cause__ or ex.__context__
    return out


def run(ctx, rng, items, level, bs, plan, what, close_first=False):
    """Returns the finished log, or None if the constructor failed."""
    f = RecFile(fault=plan, max_ops=1_000_000)
    nf = [0]

    def expect(call, name):
        """Run a call; if faults fired in it, it must have raised one of them."""
        before = len(plan.fired)
        try:
            r = call()
        except BaseException as ex:
            mine = [e for _, _, e in plan.fired[before:]]
            if not mine:
                ctx.fail(f"{what}: {name} raised {type(ex).__name__}: {ex} without any fault in this call")
            ctx.check(any(e in chain(ex) for e in mine), f"{what}: {name} hit {mine[0]!r} but raised {type(ex).__name__}: {ex}")
            nf[0] += 1
            return False
        if len(plan.fired) > before:
            ctx.fail(f"{what}: {name} hit {plan.fired[before][2]!r} and returned normally")
        return True if r is None else r

    box = []
    ok = expect(lambda: box.append(gen.writer_cls()(f, level, bs)), "constructor")
    if not box:
        ctx.count("constructor_faults")
        return None
    w = box[0]
    passed = []
    for k, it in enumerate(items):
        o = it.build()
        passed.append(it)
        expect(lambda: w.write(o), f"write of object {k}")
        # a failed write may leave an incomplete container behind, but never a damaged prefix (a later crash is C07)
    tries = 0
    while True:
        tries += 1
        if tries > 3 + 2 * len(plan.points) * plan.repeat:
            plan.armed = False
        if tries > 50 + 4 * len(plan.points) * plan.repeat:
            ctx.fail(f"{what}: close() still fails after {tries} attempts")
        if expect(w.close if tries % 2 else lambda: w.__exit__(None, None, None), f"close attempt {tries}"):
            break
    ctx.check(f.closed, f"{what}: close() returned but the file is open")
    for k, name, _ in plan.fired:
        ctx.count("faults_" + name)
        if name == "write" and plan.stored not in (0,):
            ctx.count("partial_writes")
    raw = f.content()
    try:
        cs = blf.parse_containers(raw)
        blf.locate(b"".join(c.payload for c in cs), [i.raw for i in passed])
    except blf.Malformed as ex:
        ctx.fail(f"{what}: {ex}", file=raw, fired=[(k, n) for k, n, _ in plan.fired])
    h = blf.parse_header(raw)
    usize = 144 + sum(len(i.raw) for i in passed)
    bad = [f"{k} {h[k]} instead of {v}" for k, v in
           (("object_count", len(passed)), ("file_size", len(raw)), ("uncompressed_file_size", usize),
            ("compression_level", level), ("signature", b"LOGG")) if h[k] != v]
    if ms_of(h["measurement_start_time"]) > ms_of(h["last_object_time"]):
        bad.append("measurement start after last object")
    ctx.no(bad, what + ": header", fired=[(k, n) for k, n, _ in plan.fired])
    objs = list(gen.reader_cls()(io.BytesIO(raw)))
    ctx.no(gen.check_items(passed, objs), what, fired=[(k, n) for k, n, _ in plan.fired])
    if plan.fired:
        ctx.count("logs_recovered")
    ctx.eval((tuple(i.raw for i in items), level, bs, tuple(plan.points), plan.stored, plan.repeat), bool(plan.fired))
    return raw


STORED = (0, 1, "half", "but1", "all", 16, 31)


def history(rng):
    items = gen.seq(rng, rng.choice((0, 1, 2, 4, 8)), rng.choice((0, 20, 100)))
    level = gen.gen_level(rng)
    bs = rng.choice((1, 10, 40, 60, 100, 300, 131072))
    if sum(len(i.raw) for i in items) // bs > 40:
        bs = 60
    return items, level, bs


def each(ctx, rng, index):
    """Each operation of the history fails once."""
    items, level, bs = history(rng)
    base = Plan([], 0)
    run(ctx, rng, items, level, bs, base, "without faults")
    n = len(base.kinds)
    pts = range(n) if n <= 60 else sorted(rng.sample(range(n), 60) + [n - 1])
    for p in pts:
        for st in (STORED if base.kinds[p] == "write" else (0,)) if n < 25 or ctx.thorough else (rng.choice(STORED),):
            plan = Plan([p], st)
            run(ctx, rng, items, level, bs, plan, f"operation {p} of {n} ({base.kinds[p]}, stored {st}) fails (level {level}, buffer {bs})")
    ctx.sample(lambda: {"operations": base.kinds[:60], "level": level, "buffer_size": bs,
                        "object_sizes": [len(i.raw) for i in items]})


def repeated(ctx, rng, index):
    """An operation and the following ones fail (the disk stays full for a while)."""
    items, level, bs = history(rng)
    base = Plan([], 0)
    run(ctx, rng, items, level, bs, base, "without faults")
    n = len(base.kinds)
    for _ in range(8):
        p, rep, st = rng.randrange(1, max(2, n)), rng.choice((2, 3, 5, 9)), rng.choice(STORED)
        run(ctx, rng, items, level, bs, Plan([p], st, rep), f"operations {p}..{p + rep - 1} of {n} fail (stored {st}, level {level}, buffer {bs})")


def large(ctx, rng, index):
    """Faults around objects and containers of some hundred KiB."""
    items = gen.enlarge(rng, gen.seq(rng, rng.randint(1, 5), 40), 4)
    level, bs = gen.gen_level(rng), rng.choice((5000, 65536, 100_000, 131072, 300_000, 1 << 20))
    base = Plan([], 0)
    run(ctx, rng, items, level, bs, base, "without faults")
    n = len(base.kinds)
    pts = range(n) if n <= 12 else sorted(rng.sample(range(n), 11) + [n - 1])
    for p in pts:
        st = rng.choice(STORED + (4096, 65536, 70_000)) if base.kinds[p] == "write" else 0
        rep = rng.choice((1, 1, 1, 2))
        run(ctx, rng, items, level, bs, Plan([p], st, rep), f"operation {p} of {n} ({base.kinds[p]}, stored {st}) fails "
            f"{rep} times (large objects, level {level}, buffer {bs})")
    ctx.count("large_histories")


def scattered(ctx, rng, index):
    """Several operations fail here and there."""
    items = gen.seq(rng, rng.randint(3, 12), rng.choice((0, 30, 100)))
    level, bs = gen.gen_level(rng), rng.choice((20, 50, 100, 300))
    base = Plan([], 0)
    run(ctx, rng, items, level, bs, base, "without faults")
    n = len(base.kinds)
    for _ in range(6):
        pts = sorted(rng.sample(range(1, n + 6), min(n + 4, rng.randint(2, 6))))
        st = rng.choice(STORED)
        run(ctx, rng, items, level, bs, Plan(pts, st, rng.choice((1, 1, 2))), f"operations {pts} of {n} fail (stored {st}, level {level}, buffer {bs})")


class OtherError(Exception):
    pass


KINDS = (lambda: OSError(errno.EIO, "io"), lambda: BlockingIOError(11, "again"), lambda: PermissionError(13, "no"),
         OtherError, lambda: ValueError("I/O"), KeyboardInterrupt, lambda: InterruptedError(errno.EINTR, "intr"),
         MemoryError, lambda: TimeoutError("t"), RuntimeError, EOFError, lambda: io.UnsupportedOperation("x"),
         lambda: zlib.error("z"), lambda: struct.error("s"), lambda: ConnectionResetError(104, "reset"), lambda: BrokenPipeError(32, "pipe"),
         lambda: OSError(errno.ENOSPC, "full"), lambda: OSError(errno.ESTALE, "stale"), lambda: OSError("no errno"),
         SystemExit, lambda: KeyError("k"), lambda: IndexError("i"), lambda: AttributeError("a"), lambda: TypeError("t"),
         lambda: NotImplementedError("n"), lambda: RecursionError("r"), lambda: AssertionError("own assertion"),
         lambda: UnicodeDecodeError("utf-8", b"x", 0, 1, "u"), lambda: ArithmeticError("a"), lambda: BufferError("b"),
         lambda: StopAsyncIteration("s"), lambda: Warning("w"), lambda: FileNotFoundError(2, "gone"),
         lambda: IsADirectoryError(21, "dir"), lambda: Exception("plain"), lambda: LookupError("l"))
# what a reader may use itself to signal the end of the data is left out
READER_KINDS = [k for k in KINDS if not isinstance(k(), (EOFError, zlib.error, struct.error, LookupError, AssertionError))]


def kinds(ctx, rng, index):
    """Faults of other exception types are passed on just the same."""
    exc = KINDS[index % len(KINDS)]
    items, level, bs = history(rng)
    base = Plan([], 0)
    run(ctx, rng, items, level, bs, base, "without faults")
    n = len(base.kinds)
    for _ in range(5):
        p, st = rng.randrange(n), rng.choice(STORED)
        run(ctx, rng, items, level, bs, Plan([p], st, 1, exc), f"operation {p} of {n} raises {exc()!r} (stored {st})")
    ctx.count("fault_kinds")


def reader_faults(ctx, rng, index):
    """Each read of a reader fails in turn: the call that hit it raises it, objects before are right."""
    items = gen.seq(rng, rng.choice((0, 1, 3, 6)), 60)
    raw, _ = gen.package(rng, items)
    if len(raw) > 6000:
        raw = gen.write_log(items, 6, 200).content()
    base = Plan([], 0)
    list(gen.reader_cls()(RecFile(raw, fault=base)))
    n = len(base.kinds)
    exc = None if index % 3 == 0 else READER_KINDS[(index // 3 * 2 + index % 3) % len(READER_KINDS)]
    for p in (range(n) if n <= 40 else sorted(rng.sample(range(n), 40))):
        plan = Plan([p], 0, 1, exc)
        what = f"operation {p} of {n} ({base.kinds[p]}) of the reader fails"
        got = []
        use_next = rng.random() < 0.5
        raised = None
        try:
            r = gen.reader_cls()(RecFile(raw, fault=plan))
            ctx.check(not plan.fired, f"{what}: the constructor returned normally")
            it = iter(r)
            while True:
                if use_next:
                    o = next(it, None)
                else:
                    o = r.read_object()
                ctx.check(not plan.fired, f"{what}: {'next' if use_next else 'read_object'} returned {type(o).__name__} normally")
                if o is None:
                    break
                got.append(o)
        except BaseException as ex:
            if not plan.fired:
                raise
            raised = ex
            if plan.fired[0][2] is not ex and isinstance(ex, AssertionError):
                raise
            ctx.check(plan.fired[0][2] in chain(ex), f"{what}: raised {type(ex).__name__}: {ex}")
        ctx.check(raised is not None or not plan.fired, f"{what}: reading ended normally")
        ctx.check(len(got) <= len(items), f"{what}: {len(got)} objects")
        ctx.no(gen.check_items(items[:len(got)], got), what)
        if plan.fired:
            ctx.count("faults_reader")
        ctx.eval((hash(raw), p, use_next), bool(plan.fired))


CHILD = r'''
import os, resource, signal, sys
sys.path[:0] = [os.environ.get("VF_SRC", "/repo/src"), sys.argv[1]]
from random import Random
from vf import gen
path, seed, n, level, bs, limit = sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7])
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
items = gen.seq(Random(seed), n, 200)
hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
w = gen.writer_cls()(path, level, bs)
failed = 0
resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
for k, it in enumerate(items):
    try:
        w.write(it.build())
    except OSError as ex:
        failed += 1
        if failed == 3:  # space is freed
            resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
for _ in range(6):
    try:
        w.close()
        break
    except OSError as ex:
        failed += 1
        resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
print("failed", failed)
'''


def real_file(ctx, rng, index):
    """A real file that cannot grow for a while (file size limit), in a process of its own."""
    from random import Random

    path = ctx.path()
    n, level, bs = rng.randint(30, 120), gen.gen_level(rng), rng.choice((3000, 9000, 20000))
    seed = f"real/{ctx.seed}/{index}"
    items = gen.seq(Random(seed), n, 200)
    full = len(gen.write_log(items, level, bs).content())
    limit = rng.randint(200, max(201, full - 50))
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    what = f"file limited to {limit} of {full} bytes for a while (level {level}, buffer {bs})"
    p = idle.run([sys.executable, "-c", CHILD, here, path, seed, str(n), str(level), str(bs), str(limit)], what)
    ctx.check(p.returncode == 0, f"{what}: process ended with {p.returncode}: {p.stderr.decode()[-1500:]}")
    failed = int(p.stdout.split()[-1])
    ctx.check(failed > 0, f"{what}: no call raised although the file could not grow")
    with open(path, "rb") as f:
        raw = f.read()
    try:
        blf.locate(b"".join(c.payload for c in blf.parse_containers(raw)), [i.raw for i in items])
    except blf.Malformed as ex:
        ctx.fail(f"{what}, {failed} calls failed: {ex}", file=raw)
    h = blf.parse_header(raw)
    ctx.check(h["object_count"] == n and h["file_size"] == len(raw), f"{what}: header {h['object_count']} objects, "
              f"{h['file_size']} bytes; {n} written, {len(raw)} bytes")
    ctx.count("real_file_faults")
    ctx.eval(("real", index, limit))


class RawDisk(io.RawIOBase):
    """A device below io's buffers: write() stores all, stores less and says so, or raises and stores nothing."""

    def __init__(self, faults=None, initial=b""):
        self.b, self.p, self.k = bytearray(initial), 0, 0
        self.faults = faults or {}
        self.fired = []
        self.cur = None

    def readable(self):
        return True

    writable = seekable = readable

    def seek(self, o, w=0):
        self.p = o if w == 0 else self.p + o if w == 1 else len(self.b) + o
        return self.p

    def tell(self):
        return self.p

    def write(self, d):
        d = bytes(d)
        kind = self.faults.get(self.k)
        self.k += 1
        if kind == "raise":
            ex = Injected(errno.EIO, "injected device fault")
            self.fired.append(ex)
            raise ex
        if kind == "short":
            d = d[:max(1, len(d) // 2)]
        if len(self.b) < self.p:
            self.b.extend(bytes(self.p - len(self.b)))
        self.b[self.p:self.p + len(d)] = d
        self.p += len(d)
        return len(d)

    def readinto(self, b):
        d = self.b[self.p:self.p + len(b)]
        b[:len(d)] = d
        self.p += len(d)
        return len(d)

    def truncate(self, n=None):
        del self.b[self.p if n is None else n:]
        return len(self.b)


def buffered(ctx, rng, index):
    """The usual stack: the writer's file is a buffered file, the device below it fails."""
    items = gen.seq(rng, rng.choice((0, 1, 3, 10, 40)), rng.choice((10, 100, 1500)))
    level = gen.gen_level(rng)
    bs = rng.choice((60, 300, 1000, 5000, 8192, 20000, 131072))
    if sum(len(i.raw) for i in items) // bs > 60:
        bs = 1000
    kind, size = (io.BufferedWriter, io.BufferedRandom)[index % 2], rng.choice((8192, 8192, 1, 100, 1 << 17, 1 << 20))

    def go(faults, what):
        disk = RawDisk(faults)
        try:
            w = gen.writer_cls()(kind(disk, size), level, bs)
        except Injected:
            return disk.k
        raised = 0

        def call(fn, name):
            nonlocal raised
            n = len(disk.fired)
            try:
                fn()
            except BaseException as ex:
                ctx.check(any(e in chain(ex) for e in disk.fired[n:]),
                          f"{what}: {name} raised {type(ex).__name__}: {ex}")
                raised += 1
                return False
            ctx.check(len(disk.fired) == n, f"{what}: {name} hit a fault of the device and returned normally")
            return True

        for i in items:
            o = i.build()
            call(lambda: w.write(o), "write")
        for t in range(8 + len(faults)):
            if call(w.close if t % 2 == 0 else lambda: w.__exit__(None, None, None), "close"):
                break
        else:
            ctx.fail(f"{what}: close() keeps failing")
        raw = bytes(disk.b)
        try:
            blf.locate(b"".join(c.payload for c in blf.parse_containers(raw)), [i.raw for i in items])
        except blf.Malformed as ex:
            ctx.fail(f"{what}, {raised} calls raised: {ex}", file=raw)
        h = blf.parse_header(raw)
        ctx.check(h["object_count"] == len(items) and h["file_size"] == len(raw),
                  f"{what}, {raised} calls raised: header says {h['object_count']} objects and {h['file_size']} bytes, "
                  f"{len(items)} written, {len(raw)} bytes")
        ctx.no(gen.check_items(items, gen.read_log(raw)), what)
        if disk.fired:
            ctx.count("device_faults", len(disk.fired))
            ctx.count("logs_recovered")
        ctx.eval((tuple(i.raw for i in items), level, bs, size, kind.__name__, tuple(sorted(faults.items()))), bool(disk.fired))
        return disk.k

    n = go({}, "device without faults")
    pts = range(n) if n <= 12 else sorted({0, n - 1, n - 2, *rng.sample(range(n), 9)})
    for p in pts:
        go({p: "raise"}, f"{kind.__name__}({size}): write {p} of {n} to the device fails (level {level}, buffer {bs})")
        run_ = {p + k: "raise" for k in range(rng.choice((2, 3)))}
        go(run_, f"{kind.__name__}({size}): writes {sorted(run_)} of {n} to the device fail (level {level}, buffer {bs})")
        go({p: "short", p + 1: rng.choice(("raise", "short"))},
           f"{kind.__name__}({size}): write {p} of {n} to the device is short (level {level}, buffer {bs})")


def families(tier):
    t = tier == "thorough"
    return [
        ("real_file", 60 if t else 10, real_file),
        ("buffered", 3000 if t else 120, buffered),
        ("large", 3000 if t else 120, large),
        ("each", 2500 if t else 120, each),
        ("repeated", 5000 if t else 200, repeated),
        ("scattered", 5000 if t else 200, scattered),
        ("kinds", 3000 if t else 120, kinds),
        ("reader_faults", 6000 if t else 250, reader_faults),
    ]
