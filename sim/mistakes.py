"""Corrupted messages of the feed and mistakes of the operator, at any point of a run."""
from datetime import date, datetime, timedelta
from decimal import Decimal
from fractions import Fraction

from .model import BASE
from .views import us_of

# what a damaged message holds instead of a price, of a date
BAD_PRICES = [None, "12.5", "", "nan", b"12", [], [12.5], {}, (12.5,), {"bid": 1}, Decimal("12.5"), Fraction(25, 2), 12.5j,
              set(), bytearray(b"1"), date(2020, 1, 6), timedelta(1), range(1)]
BAD_TIMES = [None, "2020-01-06T10:00:00+00:00", "", 1578304800, 1578304800.5, datetime(2020, 1, 6, 10), datetime(2030, 1, 6, 10),
             date(2020, 1, 6), [], {}, Decimal(1578304800), True, b"2020", (2020, 1, 6), timedelta(1)]
BAD_ZONES = ["Mars/Phobos", "", None, "UTC+2", "Nowhere", " Europe/Paris"]
BAD_DIRECTIONS = [None, "BUY", "SELL", 1, -1, 0, ""]
# period lengths each unit admits
LENGTHS = {"SECOND": 60, "MINUTE": 60, "HOUR": 12, "DAY": 7, "WEEK": 1, "MONTH": 12}


def length_allowed(unit, q):
    if q < 1:
        return False
    return unit in ("TICK", "YEAR") or LENGTHS[unit] % q == 0


class MistakesMixin:
    # ------------------------------------------------------------------ what is seen
    def picture(self):
        """Everything instruments, strategies and brokers show (statuses excepted: requests go on meanwhile)."""
        out = []
        for r in self.R_epics:
            t = r.last_tick
            fss = []
            for ref, fs in list(r.frame_sets.items()):
                fr = [(id(f), f.nb_ticks, id(f.first_tick), id(f.last_tick), id(f.high_tick), id(f.low_tick), id(f.previous_frame),
                       id(f.next_frame), f.period_start, f.period_end, [(k, id(v)) for k, v in f.indicators.items()]) for f in fs.frames]
                fss.append((ref, id(fs), fs.ref, fs.unit, fs.unit_quantity, fs.max_frames_in_memory, id(fs.epic), fr,
                            [(k, id(i), id(i.frame_set)) for k, i in fs.indicators.items()]))
            out.append((r.ref, id(t), self._fields(t), r.market_open, r.timezone, r.open_time, r.close_time, list(r.trade_days),
                        list(r.holidays), fss, [(k, id(s)) for k, s in r.strategies.items()], id(r.trade_provider)))
        for s in self.R_strats:
            out.append((s.ref, [(k, id(e)) for k, e in s.epics.items()], s.paused_until, s.stopped, [id(t) for t in s.trades]))
        for p in self.providers:
            out.append([(id(t), t.ref, id(t.epic), id(t.strategy), t.open_quantity, t.opened_quantities, t.open_value,
                         t.current_close_value, t.result, t.max_result, t.min_result, [id(c) for c in t.closes]) for t in p.trades])
        return out

    @staticmethod
    def _fields(t):
        return (t.bid, t.ask, t.spread, t.value, us_of(t.datetime), str(t.datetime), dict(t.meta))

    def refused(self, cat, what, fn, errors):
        """Runs what must be refused by one of the library's errors, and change nothing."""
        k = self.k
        k.no_preempt += 1
        try:
            before = self.picture()
            try:
                got = self.call(what, fn, allow=Exception)
            except errors:
                pass
            except Exception as x:
                self.fail(cat, "%s raises %s: %s instead of the error of the library" % (what, type(x).__name__, x))
            else:
                self.fail(cat, "%s is accepted (%s)" % (what, got))
            after = self.picture()
            if before != after:
                d = next((a, b) for a, b in zip(before + [None], after + [None]) if a != b)
                while isinstance(d[0], (list, tuple)) and isinstance(d[1], (list, tuple)) and len(d[0]) == len(d[1]):
                    d = next((a, b) for a, b in zip(*d) if a != b)
                self.fail(cat, "%s is refused but changes %r to %r" % (what, d[0], d[1]))
        finally:
            k.no_preempt -= 1

    # ------------------------------------------------------------- corrupted messages
    def _message(self, op):
        import arrow
        import dateutil.tz

        dec = self.M_epics[op["e"]].cfg["dec"]
        dt = BASE + timedelta(microseconds=op["us"])
        tz = op.get("tz", "UTC")
        d = dt.astimezone(dateutil.tz.gettz(tz)) if op.get("form") else arrow.get(dt).to(tz)
        return {"datetime": d, "bid": op["b"] / 10 ** dec, "ask": op["a"] / 10 ** dec}

    def op_corrupt(self, op):
        """A damaged message: the tick cannot be built."""
        from estrade import Tick
        from estrade.exceptions import EstradeException

        m = self._message(op)
        f = op["field"]
        if f == "crossed":
            m["bid"] = m["ask"] + op["val"] / 10 ** self.M_epics[op["e"]].cfg["dec"]
        elif f == "datetime":
            m[f] = BAD_TIMES[op["val"] % len(BAD_TIMES)]
        else:
            m[f] = BAD_PRICES[op["val"] % len(BAD_PRICES)]
        self.ev("corrupt", op["id"], f, op["val"])
        self.refused("P21", "a tick with %s" % ", ".join("%s %r" % x for x in sorted(m.items())), lambda: Tick(**m), (EstradeException,))
        self.fault("feed.corrupt")

    def op_execution(self, op):
        """A damaged execution report: a close without a usable date, or such a date put on a trade or a close."""
        from estrade.exceptions import EstradeException

        ts = [m for m in self.m_trades if m.e == op["e"]]
        if not ts:
            return
        m = ts[op["which"] % len(ts)]
        rt = self.real[m.tid]
        v = BAD_TIMES[op["val"] % len(BAD_TIMES)]
        self.ev("execution", op["id"], m.tid, op["val"])
        objs = [rt] + list(rt.closes)
        old = [us_of(x.datetime) for x in objs]
        if op["how"] == 0:
            kw = {"quantity": 1} if op["val"] % 2 else {}
            fn = lambda: rt.close(close_value=rt.open_value, datetime=v, **kw)  # noqa: E731
        else:
            fn = lambda: setattr(objs[op["how"] % len(objs)], "datetime", v)  # noqa: E731
        self.refused("P21", "date %r on a trade or a close" % (v,), fn, (EstradeException,))
        self.ensure([us_of(x.datetime) for x in objs] == old, "P21", "date %r is refused but changes those of trade %s", v, m.tid)
        self.fault("broker.corrupt execution")

    def op_amend(self, op):
        """A damaged correction of a tick already delivered."""
        from estrade.exceptions import EstradeException

        r = self.R_epics[op["e"]]
        if self.M_epics[op["e"]].last is None:
            return
        ts = [r.last_tick]
        for fs in r.frame_sets.values():
            for f in fs.frames[-3:]:
                ts += [f.first_tick, f.high_tick, f.low_tick]
        t = ts[op["which"] % len(ts)]
        f = op["field"]
        bad = BAD_TIMES if f == "datetime" else BAD_PRICES
        v = bad[op["val"] % len(bad)]
        old = self._fields(t)
        self.ev("amend", op["id"], f, op["val"])
        self.refused("P21", "%s set to %r on a tick" % (f, v), lambda: setattr(t, f, v), (EstradeException,))
        self.ensure(self._fields(t) == old, "P21", "%s set to %r is refused but changes the tick: %s instead of %s", f, v, self._fields(t), old)
        self.fault("feed.corrupt correction")

    def provisional(self, op, kw):
        """A tick built from a first message, corrected by a second one before it is delivered."""
        from estrade import Tick

        how = op["fix"]
        first = dict(kw)
        if how & 1:
            first["ask"] = kw["ask"] + 7
        if how & 2:
            first["bid"] = kw["bid"] - 3.25
        if how & 4:
            first["datetime"] = kw["datetime"] - timedelta(hours=7)
        t = self.call("Tick", lambda: Tick(**first))
        for f in ("datetime", "ask", "bid") if how & 8 else ("bid", "ask", "datetime"):
            if first[f] != kw[f]:
                self.call("%s of a tick" % f, lambda: setattr(t, f, kw[f]))
        self.probe("tick corrected before its delivery")
        return t

    def check_tick(self, t, kw, dec):
        """A tick built or corrected shows what it was given."""
        self.ensure(t.bid == kw["bid"] and t.ask == kw["ask"], "P21", "prices of a tick are %r and %r instead of %r and %r", t.bid, t.ask,
                    kw["bid"], kw["ask"])
        self.ensure(t.datetime == kw["datetime"] and t.datetime.utcoffset() == kw["datetime"].utcoffset(), "P21",
                    "date of a tick is %s instead of %s", t.datetime, kw["datetime"])
        self.ensure(t.datetime_utc == kw["datetime"] and t.datetime_utc.utcoffset() == timedelta(0), "P21",
                    "UTC date of a tick is %s instead of %s", t.datetime_utc, kw["datetime"])
        eps = 1e-9 * max(1, abs(t.bid), abs(t.ask))
        self.ensure(t.spread == round(t.spread, 2) and abs(t.spread - (kw["ask"] - kw["bid"])) <= 0.005 + eps, "P21",
                    "spread of (%r, %r) is %r", t.bid, t.ask, t.spread)
        self.ensure(t.value == round(t.value, 2) and abs(t.value - (kw["bid"] + kw["ask"]) / 2) <= 0.0076 + eps, "P21",
                    "value of (%r, %r) is %r", t.bid, t.ask, t.value)

    # ------------------------------------------------------------ operator's mistakes
    def op_mistake(self, op):
        from estrade import Epic
        from estrade.enums import TradeDirection, Unit
        from estrade.exceptions import EpicException, EstradeException, TimeFrameException
        from estrade.graph import FrameSet, RSI

        r, m = self.R_epics[op["e"]], self.M_epics[op["e"]]
        kind, v = op["kind"], op["val"]
        self.ev("mistake", op["id"], kind, v)
        if kind == "zone":
            z = BAD_ZONES[v % len(BAD_ZONES)]
            if op.get("new"):
                self.refused("P23", "an instrument in time zone %r" % (z,), lambda: Epic(timezone=z), (EpicException,))
            else:
                self.refused("P23", "time zone %r" % (z,), lambda: setattr(r, "timezone", z), (EpicException,))
        elif kind == "frames":
            if not m.framesets:
                return
            old = m.framesets[v % len(m.framesets)].ref
            fs = r.frame_sets[old] if op.get("same") else FrameSet(unit=getattr(Unit, op["unit"]), unit_quantity=1, ref=old)
            self.refused("P23", "a second frame set called %s" % old, lambda: r.add_frame_set(fs), (EpicException,))
            if not op.get("same"):
                self.keep_refused.append((fs, None))
        elif kind == "strategy":
            if not m.strategies:
                return
            s = self.R_strats[m.strategies[v % len(m.strategies)]]
            if not op.get("same"):
                x = type(s)(self, 1000 + len(self.keep_refused), s.ref)
                self.keep_refused.append((None, x))
            else:
                x = s
            self.refused("P23", "a second strategy called %s" % s.ref, lambda: r.add_strategy(x), (EpicException,))
            if x is not s:
                self.ensure(not x.epics, "P23", "a refused strategy is given instruments: %s", list(x.epics))
        elif kind == "rsi":
            if not m.framesets:
                return
            fs = m.framesets[v % len(m.framesets)]
            n = fs.max // fs.q + 1 + op.get("more", 0)
            ref = op["ref"]
            if ref == "taken":
                ref = next(iter(fs.inds), "rsi-x")
            rfs = r.frame_sets[fs.ref]
            self.refused("P23", "a RSI of %d periods on %d frames of %d" % (n, fs.max, fs.q),
                         lambda: rfs.add_indicator(RSI(periods=n, ref=ref)), (EstradeException,))
        elif kind == "rsi-used":
            used = [i for x in self.R_epics for f in x.frame_sets.values() for i in f.indicators.values() if type(i) is RSI]
            if not used:
                return
            i = used[v % len(used)]
            q = op["q"]
            fs = self.call("FrameSet", lambda: FrameSet(unit=getattr(Unit, op["unit"]), unit_quantity=q, max_frames_in_memory=max(1, i.periods * q - 1)))
            if i.periods * q > 1:
                old = (i.frame_set, i.epic, i.periods, i.ref)
                self.refused("P23", "a RSI of %d periods on %d frames of %d" % (i.periods, fs.max_frames_in_memory, q),
                             lambda: fs.add_indicator(i), (EstradeException,))
                self.ensure((i.frame_set, i.epic, i.periods, i.ref) == old, "P23", "a RSI in use is changed by a frame set which cannot have it")
                self.probe("RSI in use refused by another frame set")
        elif kind == "rsi-ok":
            fs = self.call("FrameSet", lambda: FrameSet(unit=getattr(Unit, op["unit"]), unit_quantity=op["q"], max_frames_in_memory=op["q"] * v))
            x = RSI(periods=v, ref="r")
            self.call("RSI which fits", lambda: fs.add_indicator(x))
            self.ensure(fs.indicators.get("r") is x and x.frame_set is fs, "P23", "a RSI which fits in memory is not added")
            self.probe("configuration accepted")
            return
        elif kind == "length":
            u, q = op["unit"], v
            make = lambda: FrameSet(unit=getattr(Unit, u), unit_quantity=q, ref="len")  # noqa: E731
            if length_allowed(u, q):
                fs = self.call("a frame set of %d %s" % (q, u), make)
                self.ensure(fs.unit_quantity == q and fs.unit is getattr(Unit, u), "P23", "a frame set of %d %s has %s %s", q, u,
                            fs.unit_quantity, fs.unit)
                self.probe("configuration accepted")
                return
            self.refused("P23", "a frame set of %d %s" % (q, u), make, (TimeFrameException,))
        elif kind == "direction":
            d = BAD_DIRECTIONS[v % len(BAD_DIRECTIONS)]
            s = self.R_strats[m.strategies[0]] if m.strategies else None
            n = len(self.requests)
            self.refused("P23", "a trade of direction %r" % (d,), lambda: r.open_trade(strategy=s, direction=d, quantity=1 + v),
                         (EstradeException,))
            self.ensure(len(self.requests) == n, "P23", "a refused trade is requested from the broker")
        else:
            raise ValueError(kind)
        self.fault("operator.%s" % kind)

    def act_do(self, aid, s, e, a):
        """The same, from a strategy being notified."""
        op = dict(a[1], id=aid, e=e)
        self.probe("mistake made by a strategy")
        getattr(self, "op_" + op["o"])(op)

    def check_refused(self):
        """What was refused was never used."""
        for fs, s in self.keep_refused:
            if fs is not None:
                self.ensure(not fs.frames and fs.epic is None, "P23", "a refused frame set is used: %d frames, instrument %s",
                            len(fs.frames), fs.epic and fs.epic.ref)
            if s is not None:
                self.ensure(not s.epics, "P23", "a refused strategy is given instruments: %s", list(s.epics))
