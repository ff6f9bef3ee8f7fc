"""C16: readers and writers do not influence each other."""

import io
import sys
import threading
from concurrent.futures import ThreadPoolExecutor
from random import Random

from .. import blf, gen, model as m
from ..engine import COV
from ..iofiles import Injected, RecFile
from .c03 import snap
from .c15 import masked

PROP = "C16"
LEVEL = "exploration"
RULE = ("Each of N readers and writers first runs alone; then all run at once, interleaved call by call in a random "
        "schedule or each in a thread of its own under a tiny switch interval, sometimes with some of them abandoned, "
        "failing or being fed the same objects. Every one's log or deliveries must equal its solo result (times in the "
        "header masked). Distinct = different (logs, schedule); non-trivial = at least two parties took turns.")
ASSUMPTIONS = ["each reader and writer is used by one thread at a time, on a file of its own"]
REQUIRED = {"interleaved_histories": 200, "threaded_histories": 40, "turns": 10000, "thread_switches": 2000,
            "parties": 1000, "codec_calls_in_threads": 5000,
            "preemptions_inside_vblf": 20000, "undecodable_objects": 500, "handed_over": 3000,
            "nested_operations": 3000}


class Party:
    """A writer or a reader with its script, driven step by step."""

    def __init__(self, rng, pool, threads=False):
        self.rng = rng
        self.writer = rng.random() < 0.5
        n = rng.choice((0, 1, 5, 12, 25))
        self.items = [rng.choice(pool) if rng.random() < 0.5 else gen.item(rng, 60) for _ in range(n)]
        self.level, self.bs = gen.gen_level(rng), gen.gen_buffer_size(rng)
        if n and rng.random() < 0.04:
            self.items = gen.enlarge(rng, self.items, 2)
            self.bs = max(self.bs, rng.choice((4096, 65536, 131072)))
        self.objs = None
        self.fail = rng.random() < 0.15  # some of its writes fail to encode
        self.disk = False
        self.path = None
        self.early = None
        if self.writer:
            self.expect = masked(gen.write_log(self.items, self.level, self.bs).content())
            if rng.random() < 0.15:
                self.early = rng.randint(0, n)  # abandoned without closing
        else:
            if rng.random() < 0.5:
                self.raw = gen.write_log(self.items, self.level, self.bs).content()
            else:
                self.raw, _ = gen.package(rng, self.items)
            if rng.random() < 0.15:
                self.early = rng.randint(0, n)
        self.seen = {}

    def steps(self):
        """Generator: one API call per step."""
        rng = self.rng
        self.got = []
        if self.writer:
            self.f = RecFile(max_ops=3_000_000)
            w = gen.writer_cls()(self.f, self.level, self.bs)
            yield
            for k, it in enumerate(self.items):
                if k == self.early:
                    self.w = w
                    return
                if self.fail and rng.random() < 0.5:
                    try:
                        w.write(gen.own_object(gen._raiser(gen.PackError("x")), 40))
                    except gen.PackError:
                        pass
                    yield
                w.write(it.build() if self.objs is None else self.objs[id(it)])
                yield
            if self.early is None:
                w.close()
                yield
        else:
            self.f = RecFile(self.raw, max_ops=5000 + 8 * len(self.raw))
            r = gen.reader_cls()(self.f)
            self.stats = snap(r.file_statistics)
            yield
            it = iter(r)
            while True:
                if len(self.got) == self.early:
                    self.r = r
                    return
                o = r.read_object() if rng.random() < 0.5 else next(it, None)
                if o is None:
                    break
                self.got.append(o)
                yield
            self.stats_end = snap(r.file_statistics)
            if rng.random() < 0.5:
                r.__exit__(None, None, None)
                yield

    def verdict(self, ctx, what):
        if self.writer:
            if self.early is None:
                raw = self.f.content()
                ctx.check(masked(raw) == self.expect, lambda: f"{what}: log of writer (level {self.level}, buffer {self.bs}, "
                          f"{len(self.items)} objects) differs from its solo run", got=raw, expected=self.expect)
                h = blf.parse_header(raw)
                ctx.check(h["object_count"] == len(self.items), f"{what}: header counts {h['object_count']} of {len(self.items)}")
        else:
            n = len(self.items) if self.early is None else self.early
            ctx.no(gen.check_items(self.items[:n], self.got), f"{what}: reader", file=self.raw)
            if self.early is None:
                ctx.check(self.stats == self.stats_end, f"{what}: file statistics of a reader changed")
            hdr = blf.parse_header(self.raw)
            if hdr["application_id"] in (0, 1, 2, 3, 4, 5, 6, 7, 8):
                r = dict(self.stats[1])
                ctx.check(r["file_size"][1] == hdr["file_size"] and r["object_count"][1] == hdr["object_count"],
                          f"{what}: file statistics of another log")
        ctx.count("parties")


def make(rng, n):
    pool = gen.seq(rng, 6, 60)
    ps = [Party(rng, pool) for _ in range(n)]
    # some parties share the very same object instances
    if rng.random() < 0.5:
        shared = {}
        for p in ps:
            if p.writer:
                p.objs = shared
                for it in p.items:
                    if id(it) not in shared:
                        shared[id(it)] = it.build()
    return ps


def interleaved(ctx, rng, index):
    ps = make(rng, rng.randint(2, 6))
    for p in ps:
        p.rng = Random(rng.random())
    live = [(k, p.steps()) for k, p in enumerate(ps)]
    order = []
    burst = rng.choice((1, 1, 3, 10))
    while live:
        k, s = rng.choice(live)
        for _ in range(rng.randint(1, burst)):
            try:
                next(s)
                order.append(k)
            except StopIteration:
                live.remove((k, s))
                break
    for p in ps:
        p.verdict(ctx, f"{len(ps)} interleaved")
    # every delivered object is its own
    ids = [id(o) for p in ps if not p.writer for o in p.got]
    ctx.check(len(ids) == len(set(ids)), "the same object instance was delivered twice")
    ctx.count("turns", len(order))
    ctx.count("interleaved_histories")
    ctx.eval((tuple(order), tuple(i.raw for p in ps for i in p.items)), len(set(order)) > 1)
    ctx.sample(lambda: {"schedule": order[:200], "parties": ["writer" if p.writer else "reader" for p in ps]})


def run_threads(ctx, rng, jobs, seconds=40):
    """Run jobs in threads under a tiny switch interval; returns the number of observed switches."""
    errors = []
    trace = []
    gate = threading.Barrier(len(jobs))

    def body(k, job):
        try:
            gate.wait(seconds)
            for _ in job():
                trace.append(k)
        except BaseException as ex:
            errors.append((k, ex))

    old = sys.getswitchinterval()
    inject = rng.random() < 0.7
    if inject:
        COV.start_preempt(Random(rng.random()), rng.choice((0.02, 0.2, 0.5, 1)))
    sys.setswitchinterval(rng.choice((1e-6, 1e-6, 1e-5, 1e-4)))
    try:
        ts = [threading.Thread(target=body, args=(k, j), daemon=True) for k, j in enumerate(jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(seconds)
    finally:
        sys.setswitchinterval(old)
        if inject:
            ctx.count("preemptions_inside_vblf", COV.stop_preempt())
    alive = [k for k, t in enumerate(ts) if t.is_alive()]
    if errors:
        raise errors[0][1]
    ctx.check(not alive, f"threads {alive} did not finish in {seconds} s")
    return sum(1 for a, b in zip(trace, trace[1:]) if a != b), tuple(trace)


def threaded(ctx, rng, index):
    ps = make(rng, rng.randint(2, 6))
    for p in ps:
        p.rng = Random(rng.random())
    sw, trace = run_threads(ctx, rng, [p.steps for p in ps])
    for p in ps:
        p.verdict(ctx, f"{len(ps)} threads")
    ctx.count("thread_switches", sw)
    ctx.count("turns", len(trace))
    ctx.count("threaded_histories")
    ctx.eval((trace, tuple(i.raw for p in ps for i in p.items)), sw > 0)


def handed_over(ctx, rng, index):
    """Every operation runs to its end before the next begins, but threads take turns at each reader and writer."""
    ps = make(rng, rng.randint(1, 5))
    for p in ps:
        p.rng = Random(rng.random())
    live = [(k, p.steps()) for k, p in enumerate(ps)]
    n = rng.randint(2, 4)
    pools = [ThreadPoolExecutor(1) for _ in range(n)]
    fresh = index % 3 == 0  # a thread of its own for every operation
    order = []
    try:
        while live:
            k, s = rng.choice(live)
            if fresh:
                box = []
                t = threading.Thread(target=lambda: box.append(next(s, live)))
                t.start()
                t.join(60)
                if not box:
                    ctx.fail("an operation of a reader or writer failed or did not end in another thread")
                end = box[0] is live
                w = len(order)
            else:
                w = rng.randrange(-1, n)
                end = (next(s, live) if w < 0 else pools[w].submit(next, s, live).result(60)) is live
            order.append((k, w))
            if end:
                live.remove((k, s))
    finally:
        for p in pools:
            p.shutdown()
    for p in ps:
        p.verdict(ctx, f"{len(ps)} handed from thread to thread")
    ctx.count("turns", len(order))
    ctx.count("handed_over", sum(1 for a, b in zip(order, order[1:]) if a[1] != b[1]))
    ctx.eval((tuple(order), tuple(i.raw for p in ps for i in p.items)), len({w for _, w in order}) > 1)


def nested(ctx, rng, index):
    """Readers and writers used from within another one's operations: by an object being encoded, by a file being used."""
    ps = make(rng, rng.randint(2, 4))
    for p in ps:
        p.rng = Random(rng.random())
    inner = [p.steps() for p in ps[1:]]
    p_in = rng.choice((0.2, 0.6, 1))
    depth = [0]
    done = [0]

    def others():
        if depth[0] < 1 and inner and rng.random() < p_in:
            depth[0] += 1
            try:
                for _ in range(rng.choice((1, 1, 2, 8))):
                    if inner:
                        s = rng.choice(inner)
                        if next(s, inner) is inner:
                            inner.remove(s)
                        done[0] += 1
            finally:
                depth[0] -= 1

    def hook(i, name, data):
        others()
        return None

    # the outer one
    items = []
    objs = []
    for it in gen.seq(rng, rng.choice((1, 5, 15)), 60):
        if rng.random() < 0.5:
            raw = gen.raw_item(rng, 60)

            def pack(raw=raw):
                others()
                return raw.raw
            items.append(raw)
            objs.append(gen.own_object(pack, len(raw.raw), raw.num))
        else:
            items.append(it)
            objs.append(it.build())
    level, bs = gen.gen_level(rng), rng.choice((1, 16, 60, 300, 4000))
    use_file = index % 3
    f = RecFile(fault=hook if use_file else None, max_ops=10**6)
    w = gen.writer_cls()(f, level, bs)
    for o in objs:
        w.write(o)
    w.close()
    raw = f.content()
    try:
        blf.locate(b"".join(c.payload for c in blf.parse_containers(raw)), [i.raw for i in items])
    except blf.Malformed as ex:
        ctx.fail(f"log of a writer with {done[0]} operations of others within its own: {ex}", file=raw)
    h = blf.parse_header(raw)
    ctx.check((h["object_count"], h["file_size"], h["uncompressed_file_size"]) == (len(items), len(raw), 144 + sum(len(i.raw) for i in items)),
              "file header of a writer with operations of others within its own", file=raw)
    objs = list(gen.reader_cls()(RecFile(raw, fault=hook, max_ops=10**6)))
    ctx.no(gen.check_items(items, objs), "reader with operations of others within its own", file=raw)
    for s in inner:
        for _ in s:
            pass
    for p in ps[1:]:
        p.verdict(ctx, "used from within others")
    ctx.count("nested_operations", done[0])
    ctx.eval((raw, done[0]), done[0] > 0)


def same_file(ctx, rng, index):
    """Readers at the same log on disk, in threads or interleaved, at different positions; one of them fails."""
    items = gen.seq(rng, rng.randint(3, 30), 100)
    raw = gen.write_log(items, gen.gen_level(rng), rng.choice((50, 300, 3000))).content()
    path = ctx.path()
    with open(path, "wb") as f:
        f.write(raw)
    n = rng.randint(2, 5)
    out = [[] for _ in range(n)]

    def job(k):
        def go():
            with gen.reader_cls()(path) as r:
                for o in r:
                    out[k].append(o)
                    yield
        return go

    if index % 2:
        sw, trace = run_threads(ctx, rng, [job(k) for k in range(n)])
        ctx.count("thread_switches", sw)
        ctx.count("threaded_histories")
    else:
        live = [job(k)() for k in range(n)]
        trace = []
        while live:
            k = rng.randrange(len(live))
            trace.append(k)
            try:
                next(live[k])
            except StopIteration:
                del live[k]
        ctx.count("interleaved_histories")
    for k in range(n):
        ctx.no(gen.check_items(items, out[k]), f"reader {k} of {n} on the same file", file=raw)
    ctx.count("parties", n)
    ctx.count("turns", len(trace))
    ctx.eval((hash(raw), tuple(trace)))


def failing_neighbour(ctx, rng, index):
    """Writers and readers hit by I/O errors, damaged logs and rejected objects next to healthy ones."""
    pool = gen.seq(rng, 6, 60)
    good = [Party(rng, pool) for _ in range(2)]
    steps = [p.steps() for p in good]

    def bad_writer():
        left = [rng.randint(0, 6)]

        def fault(i, name, data):
            left[0] -= 1
            return (Injected(5, "x"), rng.choice((0, 3, None))) if left[0] < 0 else None
        f = RecFile(fault=fault)
        w = None
        for it in pool * 5:
            try:
                if w is None:
                    w = gen.writer_cls()(f, gen.gen_level(rng), rng.choice((10, 100)))
                else:
                    w.write(it.build())
            except Injected:
                pass
            yield

    def bad_reader():
        raw = bytearray(gen.write_log(pool, 6, 50).content())
        for _ in range(20):
            raw[rng.randrange(144, len(raw))] ^= rng.randint(1, 255)
        try:
            for _ in gen.reader_cls()(RecFile(bytes(raw), max_ops=100_000)):
                yield
        except Exception:
            pass

    def bad_types():
        """Objects that cannot be decoded, of the types the good ones have."""
        specs = [i.spec for p in good for i in p.items + pool if hasattr(i, "spec")]
        specs = rng.sample(specs, min(len(specs), 12)) + [rng.choice(m.SPECS) for _ in range(4)]
        for spec in specs:
            it = gen.Item(spec, spec.gen(rng, 20, "std"))
            num = it.v["header.base.object_type"]
            for raw in (m.raw_object(num, b"", 32), m.raw_object(num, rng.randbytes(rng.randint(0, 30)), 32),
                        it.raw[:32] + b"\xff" * (len(it.raw) - 32)):
                try:
                    for _ in gen.reader_cls()(io.BytesIO(blf.file_header() + blf.container(raw, deflate=False))):
                        pass
                    ctx.count("odd_objects_decoded")
                except Exception:
                    ctx.count("undecodable_objects")
                try:
                    gen.writer_cls()(io.BytesIO(), 0, 100).write(gen.reject(rng)[1])
                except (Exception, KeyboardInterrupt):
                    pass
                yield

    def bad_open():
        for junk in (b"", b"LOGG", b"X" * 200, bytes(300)):
            try:
                gen.reader_cls()(io.BytesIO(junk))
            except ValueError:
                pass
            try:
                gen.writer_cls()(io.BytesIO(), 0, 0)
            except ValueError:
                pass
            yield

    live = [(k, s) for k, s in enumerate(steps)] + [(2, bad_writer()), (3, bad_reader()), (4, bad_open()), (5, bad_types())]
    order = []
    while live:
        k = rng.randrange(len(live))
        try:
            next(live[k][1])
            order.append(live[k][0])
        except StopIteration:
            del live[k]
    for p in good:
        p.verdict(ctx, "next to failing ones")
    # and after them
    after = gen.fixed_items(index % 50)
    raw = gen.write_log(after, 0, 500).content()
    ctx.no(gen.check_items(after, gen.read_log(raw)), "a log written and read after failures of other readers and writers")
    ctx.count("turns", len(order))
    ctx.count("interleaved_histories")
    ctx.eval((tuple(order), tuple(i.raw for p in good for i in p.items)))


def codecs(ctx, rng, index):
    """Objects encoded and decoded by several threads at once."""
    n = rng.randint(2, 4)
    spec = rng.choice(m.SPECS) if rng.random() < 0.7 else None
    sets = [[gen.Item(s, s.gen(rng, 80, "std")) for s in [(spec or rng.choice(m.SPECS)) for _ in range(20)]] for _ in range(n)]
    bad = []

    def job(k):
        r = Random(f"{ctx.seed}/{index}/{k}")

        def go():
            objs = [i.build() for i in sets[k]]
            for _ in range(60):
                j = r.randrange(len(objs))
                it = sets[k][j]
                p = objs[j].pack()
                if p != it.raw:
                    bad.append(f"{it.name} encoded in a thread differs from its layout")
                    return
                o = it.spec.cls.unpack(p)
                d = it.check(o)
                if d:
                    bad.append(f"{it.name} decoded in a thread: {d[0]}")
                    return
                objs[j] = o
                yield
        return go

    sw, trace = run_threads(ctx, rng, [job(k) for k in range(n)])
    ctx.no(bad, "threads encoding and decoding")
    ctx.count("thread_switches", sw)
    ctx.count("codec_calls_in_threads", 2 * len(trace))
    ctx.eval((trace, tuple(i.raw for s in sets for i in s)), sw > 0)


def families(tier):
    t = tier == "thorough"
    return [
        ("codecs", 4000 if t else 120, codecs),
        ("threaded", 8000 if t else 300, threaded),
        ("same_file", 4000 if t else 160, same_file),
        ("handed_over", 8000 if t else 300, handed_over),
        ("nested", 20000 if t else 600, nested),
        ("failing_neighbour", 8000 if t else 250, failing_neighbour),
        ("interleaved", 40000 if t else 1500, interleaved),
    ]
