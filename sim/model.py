"""Executable reference model: what a user is entitled to expect.

Shares no code with the code under test: instants are integers (microseconds since
1970 UTC), local time comes from zoneinfo, prices are integers.
"""
from datetime import date, datetime, time, timedelta, timezone
from zoneinfo import ZoneInfo

UTC = timezone.utc
BASE = datetime(1970, 1, 1, tzinfo=UTC)
US = timedelta(microseconds=1)
EPS = 1e-6


def to_us(dt):
    return (dt.astimezone(UTC) - BASE) // US


def local(us, zone):
    return (BASE + timedelta(microseconds=us)).astimezone(zone)


def wall_to_us(naive, zone):
    """Instant at which the wall clock first shows `naive` (or skips it)."""
    return to_us(naive.replace(tzinfo=zone, fold=0))


def parse_time(s):
    return time.fromisoformat(s)


def period(unit, q, us, zone):
    """[start, end) of the calendar period containing the instant."""
    dt = local(us, zone)
    if unit == "SECOND":
        s = us - (dt.second % q) * 1_000_000 - dt.microsecond
        return s, s + q * 1_000_000
    if unit == "MINUTE":
        s = us - ((dt.minute % q) * 60 + dt.second) * 1_000_000 - dt.microsecond
        return s, s + q * 60_000_000
    n = dt.replace(tzinfo=None, fold=0)
    if unit == "HOUR":
        a = n.replace(hour=n.hour - n.hour % q, minute=0, second=0, microsecond=0)
        b = a + timedelta(hours=q)
    elif unit == "DAY":
        a = n.replace(hour=0, minute=0, second=0, microsecond=0) - timedelta(days=n.weekday() % q)
        b = a + timedelta(days=q)
    elif unit == "WEEK":
        a = n.replace(hour=0, minute=0, second=0, microsecond=0) - timedelta(days=n.weekday())
        b = a + timedelta(days=7)
    elif unit == "MONTH":
        m = n.month - (n.month - 1) % q
        a = datetime(n.year, m, 1)
        k = m - 1 + q
        b = datetime(n.year + k // 12, k % 12 + 1, 1)
    elif unit == "YEAR":
        y = n.year - n.year % q
        a = datetime(y, 1, 1)
        b = datetime(y + q, 1, 1)
    else:
        raise ValueError(unit)
    return wall_to_us(a, zone), wall_to_us(b, zone)


class MTick:
    """Prices are integers (nb, na) in units of 10^-dec; bid and ask what was delivered."""

    __slots__ = ("us", "nb", "na", "bid", "ask", "value", "uid", "meta")

    def __init__(self, us, nb, na, dec, value, uid):
        self.us, self.nb, self.na, self.value, self.uid = us, nb, na, value, uid
        self.meta = None
        self.bid, self.ask = nb / 10 ** dec, na / 10 ** dec


class MFrame:
    """Ticks of one period; `vals` holds, per indicator, the ticks it may use."""

    __slots__ = ("start", "end", "ticks", "filler", "vals", "idx", "seen")

    def __init__(self, start, end, tick, filler, idx):
        self.start, self.end, self.filler, self.idx = start, end, filler, idx
        self.ticks = [tick]
        self.vals = {}
        self.seen = {}

    first = property(lambda s: s.ticks[0])
    last = property(lambda s: s.ticks[-1])
    high = property(lambda s: max(t.value for t in s.ticks))
    low = property(lambda s: min(t.value for t in s.ticks))


class MFrameSet:
    def __init__(self, cfg, zone):
        self.cfg = cfg
        self.ref, self.unit, self.q, self.max = cfg["ref"], cfg["unit"], cfg["q"], cfg["max"]
        self.zone = zone
        self.inds = {i["ref"]: i for i in cfg["inds"]}
        self.frames = []  # whole history
        self.kept_from = 0
        self.new_frames = []

    def kept(self):
        return self.frames[self.kept_from:]

    def _add(self, start, end, tick, filler, is_open):
        f = MFrame(start, end, tick, filler, len(self.frames))
        self.frames.append(f)
        self._feed_inds(f, tick, is_open)
        self.kept_from = max(self.kept_from, len(self.frames) - self.max)
        self.new_frames.append(f)

    def _feed_inds(self, f, tick, is_open):
        for ref, i in self.inds.items():
            if i["moo"] and not is_open:
                f.vals.setdefault(ref, None)
                continue
            v = f.vals.get(ref)
            if v is None:
                f.vals[ref] = [tick]
            else:
                v.append(tick)

    def on_tick(self, tick, is_open):
        self.new_frames = []
        if self.unit == "TICK":
            self._on_tick_count(tick, is_open)
            return
        cur = self.frames[-1] if self.frames else None
        if cur is not None and tick.us < cur.end:
            cur.ticks.append(tick)
            self._feed_inds(cur, tick, is_open)
            return
        s, e = period(self.unit, self.q, tick.us, self.zone)
        if cur is not None:
            carried, at = cur.last, cur.end
            while at < s:
                _, pe = period(self.unit, self.q, at, self.zone)
                self._add(at, pe, carried, True, is_open)
                at = pe
        self._add(s, e, tick, False, is_open)

    def _on_tick_count(self, tick, is_open):
        cur = self.frames[-1] if self.frames else None
        if cur is not None and len(cur.ticks) < self.q:
            d0 = local(cur.last.us, self.zone).date()
            d1 = local(tick.us, self.zone).date()
            if d1 <= d0:
                cur.ticks.append(tick)
                self._feed_inds(cur, tick, is_open)
                return
        self._add(tick.us, None, tick, False, is_open)


class MTrade:
    """Exact (integer) book-keeping of one trade."""

    def __init__(self, tid, e, s, direction, qty, tick, dec):
        self.tid, self.e, self.s = tid, e, s
        self.sign = 1 if direction == "B" else -1
        self.direction = direction
        self.open_qty = qty
        self.scale = 10 ** dec
        self.dec = dec
        self.open_n = tick.na if self.sign > 0 else tick.nb
        self.cur_n = tick.nb if self.sign > 0 else tick.na
        self.us = tick.us
        self.closes = []  # (qty, price, us)
        self.closed_qty = 0
        self.realised = 0
        self.checked = False
        self.max_n = self.min_n = self.result_n
        self.raw = False  # some close was made at a price of its own
        self.final = None
        self.ref = None

    @property
    def opened(self):
        return self.open_qty - self.closed_qty

    @property
    def closed(self):
        return self.open_qty == self.closed_qty

    @property
    def result_n(self):
        return self.realised + (self.cur_n - self.open_n) * self.sign * (self.open_qty - self.closed_qty)

    open_value = property(lambda s: s.open_n / s.scale)
    cur = property(lambda s: s.cur_n / s.scale)
    max = property(lambda s: s.max_n / s.scale)
    min = property(lambda s: s.min_n / s.scale)

    def result(self):
        return self.result_n / self.scale

    def price(self, n):
        return n / self.scale

    def close_result(self, c):
        return (c[1] - self.open_n) * self.sign * c[0] / self.scale

    def tolerance(self):
        if self.dec <= 2:
            # floats: a few units in the last place of the amounts at stake
            return EPS + 4e-15 * (len(self.closes) + 2) * (
                self.open_qty * (abs(self.open_n) + abs(self.cur_n)) + abs(self.max_n) + abs(self.min_n)
                + sum(q * abs(n) for q, n, _ in self.closes)) / self.scale
        return (0.005 + EPS) * (abs(self.open_qty) + len(self.closes) + 1)

    def update(self, tick):
        if self.closed:
            return
        self.revalue(tick.nb if self.sign > 0 else tick.na)

    def revalue(self, n):
        if self.closed:
            return
        self.cur_n = n
        r = self.result_n
        self.max_n = max(self.max_n, r)
        self.min_n = min(self.min_n, r)

    def close(self, tick, qty):
        """Quantity really closed."""
        self.update(tick)
        o = self.opened
        q = o if qty is None or qty > o else qty
        self.closes.append((q, self.cur_n, tick.us))
        self.closed_qty += q
        self.realised += (self.cur_n - self.open_n) * self.sign * q
        return q

    def close_at(self, n, us, qty):
        """A close at a given price."""
        o = self.opened
        q = o if qty is None or qty > o else qty
        self.raw = True
        self.closes.append((q, n, us))
        self.closed_qty += q
        self.realised += (n - self.open_n) * self.sign * q
        r = self.result_n
        self.max_n = max(self.max_n, r)
        self.min_n = min(self.min_n, r)
        return q

    def uncl(self):
        """Forget the last close: it was never made."""
        q, n, _ = self.closes.pop()
        self.closed_qty -= q
        self.realised -= (n - self.open_n) * self.sign * q


class MEpic:
    def __init__(self, cfg, idx):
        self.cfg, self.idx = cfg, idx
        self.zone = self.last_zone = ZoneInfo(cfg["tz"])
        self.open_t, self.close_t = parse_time(cfg["open"]), parse_time(cfg["close"])
        self.days = cfg["days"] if cfg["days"] is not None else [0, 1, 2, 3, 4]
        self.holidays = {date.fromisoformat(h) for h in cfg["holidays"]}
        self.provider = cfg["provider"]
        self.last = None
        self.market_open = False
        self.framesets = []
        self.strategies = list(cfg["strategies"])
        self.nticks = 0

    def attach(self, fs_cfg):
        fs = MFrameSet(fs_cfg, self.zone)
        self.framesets.append(fs)
        return fs

    def accepts(self, us):
        return self.last is None or us >= self.last.us

    def is_open_at(self, us, zone=None):
        dt = local(us, zone or self.zone)
        t = dt.time()
        return (self.open_t <= t <= self.close_t and dt.weekday() in self.days
                and dt.date() not in self.holidays)

    def on_tick(self, tick):
        before = self.market_open
        self.market_open = self.is_open_at(tick.us)
        self.last = tick
        self.last_zone = self.zone
        self.nticks += 1
        for fs in self.framesets:
            fs.on_tick(tick, self.market_open)
        return before, self.market_open


class MStrategy:
    def __init__(self, idx):
        self.idx = idx
        self.stopped = False
        self.until = None
        self.trades = []

    def active(self, us):
        if self.stopped:
            return False
        if self.until is None:
            return True
        if us < self.until:
            return False
        self.until = None
        return True
