"""Deterministic kernel: one thread runs at a time, on a virtual clock.

Every sim thread is a real OS thread parked on its own lock; the kernel hands a
single baton around.  Who runs next, when the clock moves and which faults fire is
decided here only, from a recorded decision table (replay) or from a seeded PRNG
which fills that table (search).  Decisions are keyed by what a thread was doing
("<operation>#<n-th scheduling point in it>"), not by a global counter, so that a
minimised plan keeps the meaning of the remaining decisions.
"""
import _thread


class SimAbort(BaseException):
    """Unwinds a sim thread at the end of a run."""


class Deadlock(Exception):
    pass


class StepLimit(BaseException):
    """Too many steps in a single operation: it does not terminate."""


RUN, SLEEP, BLOCK, DONE, NEW, LOST = "run", "sleep", "block", "done", "new", "lost"


class SimT:
    __slots__ = ("name", "lock", "state", "wake", "seq", "label", "count", "spawned",
                 "waiting", "exc", "blocked_us", "joined", "fn", "timed_out", "daemon", "thread")

    def __init__(self, name):
        self.name = name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = NEW
        self.wake = None
        self.label = name
        self.count = 0
        self.spawned = 0
        self.waiting = None
        self.exc = None
        self.blocked_us = 0
        self.joined = 0
        self.fn = None
        self.timed_out = False
        self.daemon = False
        self.thread = None


class Kernel:
    def __init__(self, decisions, rng=None, gen=None):
        """decisions: recorded table; rng: PRNG filling it (None on replay).

        gen: generation parameters {"p": switch probability at a scheduling point,
        "pf": probability of a non default choice at a forced switch,
        "pstall": probability that the running thread stalls until a sleeper wakes}
        """
        self.dec = decisions
        self.rng = rng
        self.gen = gen or {}
        self.now = 0
        self.threads = []
        self.by_name = {}
        self.ident = {}
        self.aborting = False
        self.no_preempt = 0
        self.in_kernel = 0
        self.steps = 0
        self.step_limit = 400000
        self.trace = []
        self.stats = {"points": 0, "switches": 0, "spawns": 0, "stalls": 0}
        self.sched_hash = 0
        main = SimT("main")
        main.state = RUN
        self.main = main
        self.cur = main
        self.threads.append(main)
        self.by_name["main"] = main
        self.ident[_thread.get_ident()] = main

    # ---------------------------------------------------------------- decisions
    def decide(self, key, draw, default=None):
        """Recorded decision for key; when searching, draw() proposes it."""
        if self.rng is None:
            return self.dec.get(key, default)
        if key in self.dec:
            return self.dec[key]
        v = draw(self.rng)
        if v is not None and v != default:
            self.dec[key] = v
            return v
        return default

    # ------------------------------------------------------------------ threads
    def active(self):
        return self.ident.get(_thread.get_ident())

    def begin(self, label):
        """The current thread starts operation `label`."""
        c = self.cur
        old = (c.label, c.count, c.spawned)
        c.label, c.count, c.spawned = label, 0, 0
        self.steps = 0
        c.blocked_us = 0
        c.joined = 0
        return old

    def end(self, old):
        self.cur.label, self.cur.count, self.cur.spawned = old

    def child_name(self):
        c = self.cur
        return "%s/%d" % (c.label, c.spawned + 1)

    def spawn(self, fn, name=None):
        c = self.cur
        if name is None:
            name = self.child_name()
            c.spawned += 1
        while name in self.by_name:
            name += "'"
        t = SimT(name)
        t.fn = fn
        t.state = RUN
        self.threads.append(t)
        self.by_name[name] = t
        self.stats["spawns"] += 1
        _thread.start_new_thread(self._boot, (t,))
        return t

    def _boot(self, t):
        self.ident[_thread.get_ident()] = t
        t.lock.acquire()
        try:
            if not self.aborting:
                t.fn()
        except SimAbort:
            pass
        except StepLimit as e:
            t.exc = e
        except BaseException as e:  # recorded, as threading.excepthook would
            t.exc = e
        t.state = DONE
        self.ident.pop(_thread.get_ident(), None)
        self._wake_waiters(t)
        t.fn = None
        nxt = self.main if self.aborting else self._pick_forced(t)
        self._give(nxt)

    def _wake_waiters(self, obj):
        for o in self.threads:
            if o.state == BLOCK and o.waiting is obj:
                o.state = RUN
                o.waiting = None
                o.timed_out = False

    def _give(self, t):
        self.cur = t
        t.lock.release()

    def _switch(self, t):
        me = self.cur
        if t is me:
            return
        self.stats["switches"] += 1
        self.sched_hash = (self.sched_hash * 1000003 ^ hash_str(me.label + ">" + t.name)) & 0xFFFFFFFFFFFF
        self._give(t)
        me.lock.acquire()
        if self.aborting and me is not self.main:
            raise SimAbort()

    def _advance(self):
        """Move the clock to the earliest wake-up; False when there is none."""
        best = None
        for o in self.threads:
            if o.wake is not None and o.state in (SLEEP, BLOCK):
                if best is None or o.wake < best:
                    best = o.wake
        if best is None:
            return False
        self._advance_to(best)
        return True

    def _advance_to(self, t):
        if t > self.now:
            d = t - self.now
            for o in self.threads:
                if o.state in (SLEEP, BLOCK):
                    o.blocked_us += d
            self.now = t
        for o in self.threads:
            if o.wake is not None and o.wake <= self.now and o.state in (SLEEP, BLOCK):
                o.timed_out = o.state == BLOCK
                o.state = RUN
                o.wake = None
                o.waiting = None

    def runnable(self):
        return [o for o in self.threads if o.state == RUN]

    def _pick_forced(self, me):
        """The current thread cannot go on: choose another one."""
        me.count += 1
        while True:
            r = self.runnable()
            if r:
                break
            if not self._advance():
                # nobody can ever run again: wake main with a deadlock
                if self.main.state != DONE:
                    self.main.state = RUN
                    self.main.waiting = None
                    self.main.exc = Deadlock(
                        "no thread can run: "
                        + ", ".join("%s=%s" % (o.name, o.state) for o in self.threads if o.state != DONE)
                    )
                    return self.main
        if len(r) == 1:
            return r[0]
        key = "%s#%d!" % (me.label, me.count)

        def draw(rng):
            if rng.random() < self.gen.get("pf", 0):
                return r[rng.randrange(len(r))].name
            return None

        name = self.decide(key, draw)
        t = self.by_name.get(name) if name else None
        return t if t is not None and t.state == RUN else r[0]

    def _yield_forced(self):
        me = self.cur
        if self.aborting and me is not self.main:
            me.state = RUN
            raise SimAbort()
        t = self._pick_forced(me)
        if t is not me:
            self._switch(t)
        if me.exc is not None and isinstance(me.exc, Deadlock):
            e, me.exc = me.exc, None
            raise e

    # ------------------------------------------------------------ yield points
    def step(self, n=1):
        self.steps += n
        if self.steps > self.step_limit:
            self.steps = 0
            raise StepLimit("operation %s takes more than %d steps" % (self.cur.label, self.step_limit))

    def preempt(self, hot=False):
        """A point where the running thread may lose the processor."""
        if self.no_preempt or self.aborting:
            return
        me = self.cur
        if self.ident.get(_thread.get_ident()) is not me:
            return
        self.step()
        others = False
        for o in self.threads:
            if o is not me and (o.state == RUN or o.wake is not None):
                others = True
                break
        if not others:
            return
        me.count += 1
        self.stats["points"] += 1
        key = "%s#%d" % (me.label, me.count)
        if self.rng is not None:
            x = self.rng.random()
            p = self.gen.get("fp" if hot else "p", 0)
            ps = self.gen.get("pstall", 0)
            if x < p:
                r = [o for o in self.threads if o is not me and o.state == RUN]
                if not r:
                    return
                t = r[self.rng.randrange(len(r))]
            elif x < p + ps:
                s = [o for o in self.threads if o.state == SLEEP]
                if not s:
                    return
                t = min(s, key=lambda o: o.wake)
            else:
                return
            self.dec[key] = t.name
        else:
            name = self.dec.get(key)
            if name is None:
                return
            t = self.by_name.get(name)
            if t is None or t is me:
                return
        if t.state == SLEEP:
            self.stats["stalls"] += 1
            self._advance_to(t.wake)
        if t.state == RUN:
            self._switch(t)

    def sleep(self, us):
        me = self.cur
        if us <= 0:
            self.preempt()
            return
        me.state = SLEEP
        me.wake = self.now + int(us)
        self._yield_forced()

    def sleep_until(self, t):
        if t > self.now:
            self.sleep(t - self.now)

    def block(self, obj, us=None):
        """Wait until obj is signalled (or us elapsed). True when signalled."""
        me = self.cur
        me.state = BLOCK
        me.waiting = obj
        me.wake = None if us is None else self.now + int(us)
        me.timed_out = False
        self._yield_forced()
        me.wake = None
        return not me.timed_out

    def join(self, t, us=None):
        me = self.cur
        if t.state == DONE:
            return
        me.joined += 1
        self.block(t, us)

    def end_of_program(self):
        """What the interpreter does when the program ends: daemon threads stop where they are, the others are waited for."""
        for o in self.threads:
            if o is not self.main and o.state != DONE and o.thread is not None and o.thread.daemon:
                o.state, o.wake, o.waiting = LOST, None, None
        while True:
            w = [o.wake for o in self.threads if o is not self.main and o.state != DONE and o.wake is not None and o.wake < 10 ** 14]
            if not w and not any(o.state == RUN for o in self.threads if o is not self.main):
                return
            self.sleep(max(1000, min(w) - self.now) if w else 1000)
            self.steps = 0

    def shutdown(self):
        """Unwind every remaining thread (called from main)."""
        self.aborting = True
        left = []
        for o in list(self.threads):
            if o is not self.main and o.state != DONE:
                left.append(o.name)
                for _ in range(50):
                    if o.state == DONE:
                        break
                    self.cur = o
                    o.lock.release()
                    self.main.lock.acquire()
        self.cur = self.main
        return left


def hash_str(s):
    h = 1469598103934665603
    for c in s.encode():
        h = ((h ^ c) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return h
