"""Case engine: deterministic cases, sharded over processes, three-valued verdicts, measured evidence.

A property module defines
    PROP, LEVEL, RULE, ASSUMPTIONS, REQUIRED (counter -> minimum per tier or int)
    families(tier) -> list of (name, number of cases, function(ctx, rng, index))
A case calls ctx.check(...)/ctx.fail(...) to report violations, ctx.eval(key) per evaluation and ctx.count(...).
"""

from __future__ import annotations

import gc
import hashlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
from random import Random

from . import idle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VF_SRC", "/repo/src")  # VF_SRC: scratch copies, for developing the checks
OUT = os.environ.get("VF_OUT", VERIF)
PKG = os.path.join(SRC, "vblf") + os.sep
MON = sys.monitoring
TOOL = 3


class Violation(Exception):
    def __init__(self, msg, **details):
        super().__init__(msg)
        self.msg, self.details = msg, details


class Skip(Exception):
    """The case does not apply."""


class CaseTimeout(BaseException):
    pass


class StepBudget(BaseException):
    pass


class Coverage:
    """Lines of vblf executed, at next to no cost (each line reports once per process)."""

    def __init__(self):
        self.lines = set()
        self.budget = None
        self.steps = 0
        self.preempt = None
        self.last_thread = None
        self.switches = 0

    def start(self):
        MON.use_tool_id(TOOL, "vf")
        MON.register_callback(TOOL, MON.events.LINE, self._line)
        MON.set_events(TOOL, MON.events.LINE)

    def _line(self, code, line):
        if not code.co_filename.startswith(PKG):
            return MON.DISABLE
        self.lines.add((code.co_filename[len(PKG):], line))
        if self.budget is not None:
            self.steps += 1
            if self.steps > self.budget:
                self.budget = None
                raise StepBudget(f"more than {self.steps - 1} lines of vblf executed")
            return None
        if self.preempt is not None:
            me = threading.get_ident()
            if me != self.last_thread:
                self.last_thread = me
                self.switches += 1
            if self.preempt.random() < self.preempt_p:
                time.sleep(0)
            return None
        return MON.DISABLE

    def start_preempt(self, rng, p):
        """Threads give way at random lines of vblf until stop_preempt()."""
        self.preempt_p, self.switches, self.last_thread = p, 0, None
        self.preempt = rng
        MON.restart_events()

    def stop_preempt(self):
        self.preempt = None
        return self.switches

    def start_budget(self, n):
        self.steps, self.budget = 0, n
        MON.restart_events()

    def stop_budget(self):
        self.budget = None


COV = Coverage()


def executable_lines():
    out = {}
    for name in sorted(os.listdir(PKG)):
        if not name.endswith(".py"):
            continue
        with open(PKG + name, "rb") as f:
            code = compile(f.read(), PKG + name, "exec")
        lines = set()
        todo = [code]
        while todo:
            c = todo.pop()
            lines |= {ln for _, _, ln in c.co_lines() if ln}
            todo += [k for k in c.co_consts if hasattr(k, "co_lines")]
        out[name] = lines
    return out


class Ctx:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        self.thorough = tier == "thorough"
        self.counters = {}
        self.keys = set()
        self.evaluations = 0
        self.samples = []
        self.sample_seen = 0
        self.case = None
        self._dirs = 0

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def maxi(self, name, n):
        name = "max_" + name
        if n > self.counters.get(name, -1):
            self.counters[name] = n

    def eval(self, key, nontrivial=True, n=1):
        self.evaluations += n
        if nontrivial:
            try:
                k = hash(key)
            except TypeError:
                k = hash(repr(key))
            self.keys.add(k)

    def sample(self, make):
        """Keep a few samples per family (the first of each, then ever rarer ones)."""
        fam = self.case[0]
        have = self.counters.get("@s" + fam, 0)
        if have < 1:
            self.counters["@s" + fam] = have + 1
            d = make() if callable(make) else make
            self.samples.append({"family": fam, "case": self.case[1], **d})

    def fail(self, msg, **details):
        raise Violation(msg, **details)

    def check(self, cond, msg, **details):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, **details)

    def no(self, bad, msg="", **details):
        """Fails if the list of differences is not empty."""
        if bad:
            raise Violation((msg + ": " if msg else "") + "; ".join(map(str, bad[:4])), **details)

    def newdir(self):
        self._dirs += 1
        d = os.path.join(self.tmp, f"d{self._dirs}")
        os.mkdir(d)
        return d

    def path(self, name="log.blf"):
        return os.path.join(self.newdir(), name)

    def cleandirs(self):
        for n in os.listdir(self.tmp):
            shutil.rmtree(os.path.join(self.tmp, n), ignore_errors=True)


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (bytes, bytearray)):
        return x.hex() if len(x) <= 4096 else x[:4096].hex() + f"...({len(x)} bytes)"
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:200]]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x if not isinstance(x, str) else x[:4000]
    return repr(x)[:400]


def in_vblf(exc):
    """Was the exception raised while vblf code was running?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(PKG) or tb.tb_frame.f_globals.get("__name__", "").startswith("vblf."):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


CASE_SECONDS = 60
STEP_SECONDS = 240
STEP_BUDGET = 30_000_000


def run_case(ctx, name, fn, index):
    """None if the case holds, else ('violation'|'inconclusive'|'error', message, details)."""
    def once():
        rng = ctx.rng = Random(f"{ctx.seed}/{ctx.prop}/{name}/{index}")
        ctx.case = (name, index)
        fn(ctx, rng, index)

    def guarded(seconds):
        now = idle._monotonic
        watch, end = idle.Watch(), now() + seconds

        def alarm(signum, frame):
            if now() > end:
                raise CaseTimeout()
            if watch.tick() > idle.IDLE_SECONDS:
                watch.since = now()
                where = "".join(traceback.format_stack(frame)[-6:])
                raise idle.Blocked(f"waits for ever: {where}"[:1500])

        signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, idle.TICK, idle.TICK)
        try:
            once()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    from .iofiles import OpLimit

    try:
        try:
            guarded(CASE_SECONDS if not ctx.thorough else 2 * CASE_SECONDS)
            return None
        except CaseTimeout:
            ctx.count("watchdog_fired")
        # the wall clock proves nothing: repeat the case and count steps
        COV.start_budget(STEP_BUDGET)
        try:
            guarded(STEP_SECONDS)
            return None
        except CaseTimeout:
            return ("inconclusive", f"case took over {STEP_SECONDS} s", {})
        finally:
            COV.stop_budget()
    except Skip:
        ctx.count("skipped")
        return None
    except idle.Blocked as ex:
        return ("violation", str(ex), {})
    except Violation as ex:
        return ("violation", ex.msg, ex.details)
    except StepBudget as ex:
        return ("violation", f"does not end: {ex}", {})
    except OpLimit as ex:
        return ("violation", f"does not end: {ex}", {"traceback": traceback.format_exc()[-3000:]})
    except (Exception, KeyboardInterrupt) as ex:
        tb = traceback.format_exc()
        if in_vblf(ex):
            return ("violation", f"unexpected {type(ex).__name__}: {ex}"[:400], {"traceback": tb[-4000:]})
        if isinstance(ex, AttributeError) and type(ex.obj).__module__.startswith("vblf.") and not str(ex.name).startswith("_"):
            # checks only use fields that objects of the library have
            return ("violation", f"{type(ex.obj).__name__} object without {ex.name}"[:400], {"traceback": tb[-4000:]})
        return ("error", f"harness error: {type(ex).__name__}: {ex}"[:400], {"traceback": tb[-4000:]})


# quick checks that take little time run more of their larger families
SCALE = {"C01": 4, "C02": 5, "C03": 5, "C05": 3, "C07": 2, "C08": 3, "C09": 4, "C10": 4, "C11": 6, "C12": 4, "C13": 3, "C14": 4,
         "C15": 3, "C17": 2, "C18": 5, "C19": 2, "C20": 4, "C22": 2, "C23": 5, "C25": 2}


def families(mod, tier):
    fams = mod.families(tier)
    if tier == "quick" and mod.PROP in SCALE:
        most = {name: n for name, n, _ in mod.families("thorough")}
        fams = [(name, n if n < 60 else max(n, min(n * SCALE[mod.PROP], most[name])), fn) for name, n, fn in fams]
    return fams


def worker(wid, nw, mod, prop, tier, seed, deadline, stop, conn, only):
    try:
        # a directory per worker, removed by the parent too
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        tmp = os.path.join(only["tmp"], f"w{wid}")
        os.mkdir(tmp)
        os.chdir(tmp)
        ctx = Ctx(prop, tier, seed, tmp)
        problems = []
        done = {}
        skipped = 0
        for fi, (name, n, fn) in enumerate(families(mod, tier)):
            if only.get("family") not in (None, name):
                continue
            t_f = time.monotonic()
            for index in range(n):
                if only.get("index") is not None:
                    if index != only["index"]:
                        continue
                elif (index + fi) % nw != wid:
                    continue
                if time.monotonic() > deadline or stop.value:
                    skipped += 1
                    continue
                r = run_case(ctx, name, fn, index)
                done[name] = done.get(name, 0) + 1
                if ctx._dirs and done[name] % 20 == 0:
                    ctx.cleandirs()
                if r is not None:
                    problems.append((name, index) + (r[0], r[1], jsonable(r[2])))
                    if r[0] == "violation":
                        stop.value = 1
                    if len(problems) >= 5:
                        stop.value = 1
            ctx.counters["@t" + name] = round(time.monotonic() - t_f, 2)
            gc.collect()
        conn.send({"counters": ctx.counters, "keys": ctx.keys, "evaluations": ctx.evaluations,
                   "samples": ctx.samples, "problems": problems, "done": done, "skipped": skipped,
                   "lines": COV.lines})
        conn.close()
    except BaseException:
        try:
            conn.send({"crash": traceback.format_exc()})
        except BaseException:
            pass
    finally:
        os._exit(0)


def load_known():
    """Open entries of known_findings.txt as dicts; fixed entries suppress nothing."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("open:"):
                    _, p, mech, what = line.split(None, 3)
                    out.append({"property": p.partition("=")[2], "mechanism": mech.partition("=")[2],
                                "what": what.strip()})
    return out


def main(prop, replay=None, workers=None):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only = {}
    if replay:
        with open(replay) as f:
            r = json.load(f)
        prop, tier, seed = r["property"], r["tier"], r["seed"]
        only = {"family": r["family"], "index": r["index"]}

    COV.start()
    sys.path.insert(0, SRC)
    import vblf
    import vblf.reader
    import vblf.writer  # noqa: F401

    if not os.path.abspath(vblf.__file__).startswith(PKG):
        print(f"ERROR: vblf comes from {vblf.__file__}, not from {SRC}")
        return 2
    import importlib

    mod = importlib.import_module(f"vf.props.{prop.lower()}")

    limit = 600 if tier == "quick" else 780
    deadline = t0 + float(os.environ.get("VERIF_BUDGET_S", limit))
    # keep scratch files in memory when possible
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and \
        shutil.disk_usage("/dev/shm").free > (1 << 30) else None
    only["tmp"] = tempfile.mkdtemp(prefix="vf-", dir=base)
    nw = 1 if replay else int(workers or os.environ.get("VERIF_WORKERS", 0) or min(8, os.cpu_count() or 1))
    mp = multiprocessing.get_context("fork")
    stop = mp.Value("i", 0, lock=False)
    procs = []
    results = []
    crashes = []
    try:
        for wid in range(nw):
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(wid, nw, mod, prop, tier, seed, deadline, stop, b, only))
            p.start()
            b.close()
            procs.append((p, a))
        hard = deadline + STEP_SECONDS / 2
        for p, a in procs:
            left = max(1.0, min(hard, t0 + 870) - time.monotonic())
            if a.poll(left):
                try:
                    r = a.recv()
                    if "crash" in r:
                        crashes.append(r["crash"])
                    else:
                        results.append(r)
                except EOFError:
                    crashes.append("worker died without a report")
            else:
                crashes.append("worker did not report in time")
    finally:
        for p, a in procs:
            if p.is_alive():
                p.join(5)
            if p.is_alive():
                p.kill()
            p.join()
        shutil.rmtree(only["tmp"], ignore_errors=True)

    counters, done, keys, lines, samples, problems = {}, {}, set(), set(), [], []
    evaluations = skipped = 0
    times = {}
    for r in results:
        for k, v in r["counters"].items():
            if k.startswith("@t"):
                times[k[2:]] = max(times.get(k[2:], 0), v)
            elif k.startswith("@"):
                continue
            elif k.startswith("max_"):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        for k, v in r["done"].items():
            done[k] = done.get(k, 0) + v
        keys |= r["keys"]
        lines |= r["lines"]
        samples += r["samples"]
        problems += [tuple(p) for p in r["problems"]]
        evaluations += r["evaluations"]
        skipped += r["skipped"]
    seen = set()
    picked = []
    for s in samples:
        if s["family"] not in seen:
            seen.add(s["family"])
            picked.append(jsonable(s))

    violations = [p for p in problems if p[2] == "violation"]
    others = [p for p in problems if p[2] != "violation"]
    known = [k for k in load_known() if k.get("property") == prop]
    unlisted = []
    reported = set()
    for v in violations:
        mech = (v[4] or {}).get("mechanism") if isinstance(v[4], dict) else None
        hit = next((k for k in known if mech is not None and k.get("mechanism") == mech), None)
        if hit:
            if mech not in reported:
                print(f"KNOWN-FINDING: property={prop} {hit.get('what', mech)}")
            reported.add(mech)
        else:
            unlisted.append(v)

    total = {f: len(ls) for f, ls in executable_lines().items()}
    hit = {}
    exe = executable_lines()
    for f, ln in lines:
        if f in exe and ln in exe[f]:
            hit[f] = hit.get(f, 0) + 1
    wall = round(time.monotonic() - t0, 2)
    if not replay:
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
            "coverage": {
                "evaluations": evaluations, "distinct_nontrivial": len(keys), "rule": mod.RULE, "samples": picked[:20],
                "cases_per_family": done, "cases_not_run": skipped, "observed": counters,
                "seconds_per_family": times,
                "vblf_lines_executed": {f: f"{hit.get(f, 0)}/{n}" for f, n in total.items() if n},
            },
            "assumptions": mod.ASSUMPTIONS, "wall_s": wall, "violations": len(unlisted),
        }
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        path = os.path.join(OUT, "evidence", f"{prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)

    code = 0
    if unlisted:
        rd = os.path.join(OUT, "replays")
        os.makedirs(rd, exist_ok=True)
        for k, (fam, index, _kind, msg, details) in enumerate(sorted(unlisted, key=lambda p: (p[0], p[1]))[:5]):
            tag = hashlib.blake2b(f"{fam}/{index}/{seed}/{tier}".encode(), digest_size=4).hexdigest()
            rp = os.path.join("replays", f"{prop}-{fam}-{index}-{tag}.json")
            if not replay:
                with open(os.path.join(OUT, rp), "w") as f:
                    json.dump({"property": prop, "tier": tier, "seed": seed, "family": fam, "index": index,
                               "message": msg, "details": details,
                               "replay_cmd": f"bash check.sh --replay {rp}"}, f, indent=1)
            else:
                rp = replay
            print(f"  [{fam} #{index}] {msg}"[:1500])
            if replay:
                print(json.dumps(details, indent=1)[:8000])
            print(f"VIOLATION property={prop} replay={rp}")
        code = 1
    else:
        for fam, index, kind, msg, details in others[:5]:
            print(f"INCONCLUSIVE property={prop} [{fam} #{index}] {kind}: {msg}")
            if isinstance(details, dict) and details.get("traceback"):
                print(details["traceback"])
            code = 2
        for c in crashes[:3]:
            print(f"INCONCLUSIVE property={prop} worker: {c}")
            code = 2
        if not replay:
            req = mod.REQUIRED
            for name, least in req.items():
                least = least if isinstance(least, int) else least[0 if tier == "quick" else 1]
                if counters.get(name, 0) < least:
                    print(f"INCONCLUSIVE property={prop}: observed only {counters.get(name, 0)} {name}, need {least}")
                    code = 2
    verdict = {0: "held on everything explored", 1: "VIOLATED", 2: "inconclusive"}[code]
    print(f"{prop} {tier} seed {seed}: {verdict}; {evaluations} evaluations, {len(keys)} distinct, "
          f"cases {sum(done.values())} (+{skipped} not run), {wall} s; "
          + ", ".join(f"{k}={v}" for k, v in sorted(counters.items())))
    return code


if __name__ == "__main__":
    args = sys.argv[1:]
    sys.path.insert(0, VERIF)
    from vf import engine  # one instance, shared with the property modules

    if args and args[0] == "--replay":
        sys.exit(engine.main(None, replay=args[1]))
    sys.exit(engine.main(args[0]))
