"""Recognises processes that wait for ever: they use no processor time and do not wait for a processor either."""

import os
import subprocess
import time

IDLE_SECONDS = 20
TICK = 2.0
USED_PER_TICK = 40_000_000  # ns; looking at it costs less
LOOKING = False  # the monitors of system calls leave out what happens meanwhile
_monotonic, _process_time = time.monotonic, time.process_time  # checks may replace the module's


class Blocked(Exception):
    pass


def used(pid="self"):
    """Nanoseconds in which the threads of a process ran or waited for a processor; None if not known."""
    total = 0
    try:
        for tid in os.listdir(f"/proc/{pid}/task"):
            try:
                with open(f"/proc/{pid}/task/{tid}/schedstat") as f:
                    ran, waited, _ = f.read().split()
                with open(f"/proc/{pid}/task/{tid}/stat") as f:
                    state = f.read().rpartition(")")[2].split()[0]
            except FileNotFoundError:
                continue
            if state == "D":
                return None
            total += int(ran) + int(waited)
    except (OSError, ValueError):
        return None
    return total


def children():
    try:
        os.waitid(os.P_ALL, 0, os.WEXITED | os.WNOHANG | os.WNOWAIT)
        return True
    except ChildProcessError:
        return False


class Watch:
    """Called every TICK seconds; tells for how long a process has been idle."""

    def __init__(self, pid="self"):
        self.pid, self.last, self.since, self.cpu = pid, None, None, 0

    def tick(self):
        global LOOKING
        now = _monotonic()
        cpu = _process_time()
        if self.pid == "self" and cpu - self.cpu > USED_PER_TICK / 1e9:
            self.since, self.cpu, self.last = now, cpu, None
            return 0
        self.cpu = cpu
        LOOKING = True
        try:
            u = used(self.pid)
        finally:
            LOOKING = False
        if u is None or self.last is None or abs(u - self.last) > USED_PER_TICK or (self.pid == "self" and children()):
            self.since = now
        self.last = u
        return now - self.since


def run(cmd, what, seconds=200, **kw):
    """subprocess.run(capture_output=True) that reports a process that waits for ever."""
    with subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw) as p:
        try:
            watch, end = Watch(p.pid), _monotonic() + seconds
            while True:
                try:
                    out, err = p.communicate(timeout=TICK)
                    return subprocess.CompletedProcess(cmd, p.returncode, out, err)
                except subprocess.TimeoutExpired:
                    if watch.tick() > IDLE_SECONDS:
                        raise Blocked(f"{what}: the process waits for ever") from None
                    if _monotonic() > end:
                        raise
        except BaseException:
            p.kill()
            raise
