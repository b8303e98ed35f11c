"""Simulated disk: a scratch directory whose operations may fail."""
import errno
import os

from . import env


class SimCrash(BaseException):
    """The process dies here; only what reached the disk survives."""


ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE}


class Disk:
    def __init__(self, root, rates=None):
        self.root = os.path.abspath(root)
        self.rates = rates or {}
        self.n = 0
        self.full = False
        self.crashed = False
        self.fired = []  # (kind, op) of this operation
        self.counts = {}
        self.ops = 0
        self._len = 0

    def begin(self):
        """A new operation of the workload: space was freed, the process restarted."""
        self.n = 0
        self.full = False
        self.crashed = False
        self.fired = []

    def _point(self, kind, choices):
        k = env.K
        k.preempt()
        self.n += 1
        self.ops += 1
        if self.crashed:
            raise SimCrash()
        slow = self.rates.get("slow", 0)
        if slow:
            us = k.decide("%s:slow%d" % (k.cur.label, self.n),
                          lambda rng: rng.choice([1000, 300_000, 1_000_000, 2_500_000]) if rng.random() < slow else None)
            if us and not k.no_preempt:
                self.counts["SLOW@" + kind] = self.counts.get("SLOW@" + kind, 0) + 1
                k.sleep(us)
        if self.full and kind != "close":
            self.fired.append(("ENOSPC", kind))
            raise OSError(errno.ENOSPC, "No space left on device (simulated)")

        def draw(rng):
            if rng.random() < self.rates.get(kind, 0):
                c = choices[rng.randrange(len(choices))]
                if c in ("SHORT", "TORN", "CRASH"):
                    return [c, rng.randrange(100)]
                return [c]
            return None

        d = k.decide("%s:io%d" % (k.cur.label, self.n), draw)
        if not d or d[0] not in choices:
            return None
        self.counts[d[0] + "@" + kind] = self.counts.get(d[0] + "@" + kind, 0) + 1
        self.fired.append((d[0], kind))
        if d[0] == "ENOSPC":
            self.full = True
        if d[0] in ERR:
            raise OSError(ERR[d[0]], os.strerror(ERR[d[0]]) + " (simulated)")
        return d

    def on_open(self, path, writing):
        d = self._point("open", ["EIO", "ENOSPC", "EACCES", "EMFILE", "CRASH"] if writing else ["EIO", "EACCES"])
        if d:
            self.crashed = True
            raise SimCrash()

    def on_meta(self, kind, path):
        d = self._point("meta", ["EIO", "ENOSPC", "EACCES", "CRASH"])
        if d:
            self.crashed = True
            raise SimCrash()

    def on_close(self, path):
        if self.crashed:
            return
        self._point("close", ["EIO"])

    def before_write(self, path, data, rawwrite):
        """Bytes of data that reach the disk; raises on error."""
        self._len = len(data)
        if self.crashed:
            return 0
        try:
            d = self._point("write", ["EIO", "ENOSPC", "SHORT", "TORN", "CRASH"])
        except SimCrash:
            return 0
        if d is None:
            return len(data)
        n = len(data) * d[1] // 100
        if d[0] == "SHORT":
            return max(1, n)
        if n:
            rawwrite(data[:n])
        if d[0] == "TORN":
            self.full = True
            raise OSError(errno.EIO, "Input/output error (simulated)")
        self.crashed = True
        raise SimCrash()

    def after_write(self, n):
        if self.crashed:
            return self._len
        return n
