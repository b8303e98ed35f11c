"""Comparison of what the library shows with the reference model."""
import weakref
from datetime import timezone

from . import env
from .kernel import hash_str
from .model import BASE, EPS, US, local

UTC = timezone.utc
HALF = 0.005 + 1e-6


def us_of(a):
    """Instant of an Arrow."""
    return (a.datetime - BASE) // US


def tid(t):
    return (us_of(t.datetime), t.bid, t.ask)


def same_tick(t, m):
    return (t.value == m.value and abs(t.bid - m.bid) < 1e-9 and abs(t.ask - m.ask) < 1e-9
            and us_of(t.datetime) == m.us)


def show(t):
    return "%s bid %s ask %s" % (t.datetime, t.bid, t.ask)


class ViewsMixin:
    # ------------------------------------------------------------------ last tick
    def check_last(self, e, cat="P01"):
        m, r = self.M_epics[e], self.R_epics[e]
        if m.last is None:
            self.ensure(us_of(r.last_tick.datetime) < 0, cat, "a tick was recorded before any was accepted")
            return
        t = r.last_tick
        self.ensure(same_tick(t, m.last), cat, "last tick of %s is %s instead of %s", m.cfg["ref"], show(t), m.last.uid)
        want = local(m.last.us, m.last_zone)
        self.ensure(t.datetime.datetime.replace(tzinfo=None, fold=0) == want.replace(tzinfo=None, fold=0)
                    and t.datetime.utcoffset() == want.utcoffset(), cat,
                    "last tick shows %s instead of %s", t.datetime, want)
        if cat == "P01":
            self.ensure(t.meta.get("id") == m.last.meta and len(t.meta) <= 1, cat, "metadata of the last tick are %s instead of %s", t.meta,
                        m.last.meta)
        self.ensure(r.market_open == m.market_open, cat, "market open is %s at %s", r.market_open, want)
        if cat == "P08":
            now = m.is_open_at(m.last.us, m.last_zone)  # hours may have been changed since the tick
            self.ensure(bool(r.is_market_open()) == now, cat, "is_market_open() is not %s at %s", now, want)
            # programs may ask about any other tick of the instrument
            told = self.told.setdefault(e, [])
            told[:] = [x for x in told if x[0] is not t] + [(t, m.last.us, m.last_zone)]
            old, us, zone = told[hash_str("%d/%d" % (m.nticks, len(told))) % len(told)]
            now = m.is_open_at(us, zone)
            self.ensure(bool(r.is_market_open(old)) == now, cat, "is_market_open(%s) is not %s", old.datetime, now)
            self.ensure(r.last_tick is t and r.market_open == m.market_open, cat, "asking is_market_open(%s) changed the state", old.datetime)

    # --------------------------------------------------------------------- frames
    def check_frame(self, cat, fs, r, m, cur):
        where = "%s frame %d" % (fs.ref, m.idx)
        self.ensure(us_of(r.period_start) == m.start, cat, "%s starts at %s instead of %s", where, r.period_start,
                    local(m.start, fs.zone))
        if m.end is not None:
            self.ensure(r.period_end is not None and us_of(r.period_end) == m.end, cat,
                        "%s ends at %s instead of %s", where, r.period_end, local(m.end, fs.zone))
        for d in (r.period_start, r.period_end):
            if d is not None and m.end is not None:
                want = local(us_of(d), fs.zone)
                self.ensure(d.datetime.replace(tzinfo=None) == want.replace(tzinfo=None, fold=0) and d.utcoffset() == want.utcoffset(), cat,
                            "%s: bound shown as %s instead of %s", where, d, want)
        self.ensure(same_tick(r.first_tick, m.first), cat, "%s: first tick %s is not %s", where, show(r.first_tick), m.first.uid)
        self.ensure(same_tick(r.last_tick, m.last), cat, "%s: last tick %s is not %s", where, show(r.last_tick), m.last.uid)
        self.ensure(r.high_tick.value == m.high, cat, "%s: high %s instead of %s", where, r.high_tick.value, m.high)
        self.ensure(r.low_tick.value == m.low, cat, "%s: low %s instead of %s", where, r.low_tick.value, m.low)
        n = len(m.ticks)
        if m.filler:
            self.ensure(r.nb_ticks in (0, 1), cat, "%s: silent period counts %d ticks", where, r.nb_ticks)
        else:
            self.ensure(r.nb_ticks == n, cat, "%s counts %d ticks instead of %d", where, r.nb_ticks, n)

    def check_frames(self, e, full, cat=None):
        m, r = self.M_epics[e], self.R_epics[e]
        for fs in m.framesets:
            c = cat or ("P03" if fs.unit == "TICK" else "P02")
            if not self.on(c):
                continue
            rf = r.frame_sets[fs.ref].frames
            kept = fs.kept()
            self.ensure(len(rf) == len(kept), c, "%s has %d frames instead of %d", fs.ref, len(rf), len(kept))
            n = min(len(rf), len(kept))
            if not full:
                n = min(n, 2 + len(fs.new_frames))
            for i in range(1, n + 1):
                self.check_frame(c, fs, rf[-i], kept[-i], i == 1)
            if n:
                f = r.get_frame(fs.ref)
                self.ensure(f is rf[-1], c, "get_frame does not return the current frame of %s", fs.ref)

    # ----------------------------------------------------------- retention (P04)
    def check_chain(self, e, full):
        m, r = self.M_epics[e], self.R_epics[e]
        for fs in m.framesets:
            rfs = r.frame_sets[fs.ref]
            rf = rfs.frames
            kept = fs.kept()
            self.ensure(len(rf) <= fs.max, "P04", "%s keeps %d frames, limit %d", fs.ref, len(rf), fs.max)
            self.ensure(len(rf) == len(kept), "P04", "%s keeps %d frames instead of %d", fs.ref, len(rf), len(kept))
            if not rf:
                continue
            made = fs.__dict__.setdefault("made", weakref.WeakSet())
            for f in rf[-1 - len(fs.new_frames):]:
                try:
                    made.add(f)
                except TypeError:  # a class with slots
                    pass
            for i, f in enumerate(rf):
                k = kept[i]
                self.ensure(us_of(f.period_start) == k.start, "P04", "%s keeps a frame of %s instead of %s", fs.ref,
                            f.period_start, local(k.start, fs.zone))
                self.ensure(f.closed == (i < len(rf) - 1), "P04", "%s: frame %d of %d closed is %s", fs.ref, i, len(rf), f.closed)
                nxt = rf[i + 1] if i < len(rf) - 1 else None
                prv = rf[i - 1] if i else None
                self.ensure(f.next_frame is nxt, "P04", "%s: wrong next frame at %d of %d", fs.ref, i, len(rf))
                self.ensure(f.previous_frame is prv, "P04", "%s: wrong previous frame at %d of %d", fs.ref, i, len(rf))
            offs = {0, 1, len(rf) - 1, len(rf), len(rf) + 1} if full else {0, len(rf) - 1, len(rf)}
            for o in offs:
                f = r.get_frame(fs.ref, o)
                want = rf[-1 - o] if o < len(rf) else None
                self.ensure(f is want, "P04", "%s: get_frame(%d) is wrong", fs.ref, o)
                for ref in fs.inds:
                    v = r.get_indicator_value(fs.ref, ref, o)
                    self.ensure(v is (None if want is None else want[ref]), "P04", "%s: get_indicator_value(%s, %d) is wrong",
                                fs.ref, ref, o)
            # closed frames never change
            snap, new = fs.snap, {}
            for i, f in enumerate(rf):
                k = kept[i]
                s = self.frame_snapshot(fs, f)
                old = snap.get(k.idx)
                if old is not None and i < len(rf) - 1:
                    closed_before, o = old
                    for ref, v in s.items():
                        if ref not in o:
                            if closed_before and v is not None:
                                self.fail("P04", "%s: closed frame %d got a new value of %s" % (fs.ref, k.idx, ref))
                            continue
                        self.ensure(o[ref] == v, "P04", "%s: %s of closed frame %d changed from %r to %r", fs.ref, ref,
                                    k.idx, o[ref], v)
                    self.probe("closed frame compared")
                new[k.idx] = (i < len(rf) - 1, s)
            fs.snap = new

    def check_released(self, e):
        """Nothing the library keeps refers to the frames it removed."""
        env.real_collect()
        for fs in self.M_epics[e].framesets:
            made = fs.__dict__.get("made")
            if made is None:
                continue
            alive = len(made) - len(self.R_epics[e].frame_sets[fs.ref].frames)
            if len(fs.frames) > 2 * fs.max + 2:
                self.probe("release of frames checked")
            self.ensure(alive <= fs.max + 2, "P04", "%s: %d frames are still in memory after they were removed, the limit is %d",
                        fs.ref, alive, fs.max)

    def frame_snapshot(self, fs, f):
        s = {"": (us_of(f.period_start), f.period_end and us_of(f.period_end), id(f.first_tick), id(f.last_tick),
                  f.high_tick.value, f.low_tick.value, f.nb_ticks)}
        for ref, ind in fs.inds.items():
            v = f[ref]
            k = ind["kind"]
            if v is None:
                if k in ("candle", "ha", "sma", "rsi"):
                    s[ref] = None
            elif k in ("candle", "ha"):
                s[ref] = (v.open, v.high, v.low, v.last)
            elif k == "sma":
                s[ref] = tuple(v.get_value(n) for n in (1, 2, ind["n"]) if n <= ind["n"])
            elif k == "rsi":
                s[ref] = v.value
        return s

    # ------------------------------------------------------------------ indicators
    def adopt(self, e, ctx):
        """Whether a silent period has a market-hours indicator is not specified."""
        if ctx.adopted:
            return
        ctx.adopted = True
        r = self.R_epics[e]
        for fs in self.M_epics[e].framesets:
            fillers = [f for f in fs.new_frames if f.filler]
            if not fillers:
                continue
            rf = r.frame_sets[fs.ref].frames
            for ref, ind in fs.inds.items():
                if not ind["moo"]:
                    continue
                seen = None
                for f in reversed(fillers):
                    pos = f.idx - fs.kept_from
                    if 0 <= pos < len(rf) and len(rf) == len(fs.kept()):
                        seen = rf[pos][ref] is not None
                    if seen is not None:
                        f.vals[ref] = [f.first] if seen else None

    def check_indicators(self, e, full, cats):
        m, r = self.M_epics[e], self.R_epics[e]
        for fs in m.framesets:
            if not fs.inds:
                continue
            rf = r.frame_sets[fs.ref].frames
            kept = fs.kept()
            n = min(len(rf), len(kept))
            if not full:
                n = min(n, 1 + len(fs.new_frames))
            for ref, ind in fs.inds.items():
                k = ind["kind"]
                if k in ("candle", "ha"):
                    if k == "ha":
                        self._ha_chain(fs, ref, rf, kept)
                    if "P05" in cats:
                        for i in range(n, 0, -1):
                            self.check_candle(fs, ind, rf[-i], kept[-i], i == 1)
                elif k == "sma":
                    if "P06" in cats:
                        for i in range(n, 0, -1):
                            self.check_sma(fs, ind, rf[-i], kept[-i])
                elif k == "rsi":
                    if "P06" in cats:
                        for i in range(n, 0, -1):
                            self.check_rsi(fs, ind, rf[-i], kept[-i])
                elif k == "user":
                    if "P24" in cats:
                        for i in range(n, 0, -1):
                            self.check_user(fs, ind, rf, len(rf) - i, kept[-i])
                elif "P07" in cats:
                    for i in range(n, 0, -1):
                        self.check_pivot(fs, ind, rf[-i], kept[-i])

    def _present(self, cat, fs, ind, r, m):
        v = r[ind["ref"]]
        ticks = m.vals.get(ind["ref"])
        if m.filler and ind["moo"] and v is None:
            return None, None
        if ticks is None:
            self.ensure(v is None, cat, "%s/%s has a value on frame %d without any tick it may use", fs.ref, ind["ref"], m.idx)
        else:
            self.ensure(v is not None, cat, "%s/%s has no value on frame %d", fs.ref, ind["ref"], m.idx)
        return v, ticks

    def prev_valued(self, fs, ref, m):
        for f in reversed(fs.frames[:m.idx]):
            if f.vals.get(ref) is not None:
                return f
        return None

    def _ha_chain(self, fs, ref, rf, kept):
        """Expected open of every candle, from what previous candles showed."""
        todo = [f for f in fs.frames[getattr(fs, "ha_done_" + ref, 0):] if f.vals.get(ref) is not None]
        for f in todo:
            st = f.seen.get(ref)
            if st is None:
                prev = self.prev_valued(fs, ref, f)
                if prev is None:
                    st = {"open": [f.vals[ref][0].value], "tol": HALF}
                else:
                    ps = prev.seen[ref]
                    opts = [(o + la) / 2 for o, la in ps["shown"]]
                    if f.idx - prev.idx >= fs.max:
                        opts.append(f.vals[ref][0].value)
                    st = {"open": opts, "tol": HALF + ps["err"]}
                f.seen[ref] = st
            t = f.vals[ref]
            vs = [x.value for x in t]
            st["last"] = (vs[0] + max(vs) + min(vs) + vs[-1]) / 4
            pos = f.idx - fs.kept_from
            v = rf[pos][ref] if 0 <= pos < len(rf) and len(rf) == len(kept) else None
            if v is not None:
                st["shown"], st["err"], st["n"] = [(v.open, v.last)], 0.0, len(t)
            elif st.get("n") != len(t):  # never seen with its last tick
                st["shown"] = [(round(o, 2), round(st["last"], 2)) for o in st["open"]]
                st["err"] = 0.011
        setattr(fs, "ha_done_" + ref, max(0, len(fs.frames) - 1))

    def check_candle(self, fs, ind, r, m, current):
        v, ticks = self._present("P05", fs, ind, r, m)
        if v is None:
            return
        where = "%s/%s frame %d" % (fs.ref, ind["ref"], m.idx)
        vals = [t.value for t in ticks]
        o, h, lo, la, cl = v.open, v.high, v.low, v.last, v.close
        hi, low = max(vals), min(vals)
        if ind["kind"] == "candle":
            self.ensure(abs(o - vals[0]) < EPS, "P05", "%s: open %s instead of %s", where, o, vals[0])
            self.ensure(abs(h - hi) < EPS, "P05", "%s: high %s instead of %s", where, h, hi)
            self.ensure(abs(lo - low) < EPS, "P05", "%s: low %s instead of %s", where, lo, low)
            self.ensure(abs(la - vals[-1]) < EPS, "P05", "%s: last %s instead of %s", where, la, vals[-1])
        else:
            mean = (vals[0] + hi + low + vals[-1]) / 4
            self.ensure(abs(la - mean) < HALF, "P05", "%s: last %s instead of %s", where, la, mean)
            st = m.seen.get(ind["ref"])
            if st is not None:
                self.ensure(any(abs(o - x) < st["tol"] for x in st["open"]), "P05", "%s: open %s instead of %s", where, o,
                            st["open"][0])
            self.ensure(abs(h - max(hi, o, la)) < EPS, "P05", "%s: high %s instead of %s", where, h, max(hi, o, la))
            self.ensure(abs(lo - min(low, o, la)) < EPS, "P05", "%s: low %s instead of %s", where, lo, min(low, o, la))
        if current:
            self.ensure(cl is None, "P05", "%s: close is %s before the end of the frame", where, cl)
        else:
            self.ensure(cl is not None and abs(cl - la) < EPS, "P05", "%s: close is %s instead of %s", where, cl, la)
        color = v.color.name
        want = "GREEN" if la > o else "RED" if la < o else "BLACK"
        self.ensure(color == want, "P05", "%s: %s instead of %s", where, color, want)
        self.ensure(abs(v.height - (h - lo)) < HALF, "P05", "%s: height %s", where, v.height)
        self.ensure(v.body is not None and abs(v.body - abs(o - la)) < HALF, "P05", "%s: body %s", where, v.body)
        self.ensure(v.head is not None and abs(v.head - (h - max(o, la))) < HALF, "P05", "%s: head %s", where, v.head)
        self.ensure(v.tail is not None and abs(v.tail - (min(o, la) - lo)) < HALF, "P05", "%s: tail %s", where, v.tail)

    def check_sma(self, fs, ind, r, m):
        v, ticks = self._present("P06", fs, ind, r, m)
        if v is None:
            return
        ref, n = ind["ref"], ind["n"]
        where = "%s/%s frame %d" % (fs.ref, ref, m.idx)
        closes, cut, last_idx = [], None, None
        for f in reversed(fs.frames[max(0, m.idx - 400):m.idx + 1]):
            t = f.vals.get(ref)
            if t is None:
                continue
            if last_idx is not None and cut is None and last_idx - f.idx >= fs.max:
                cut = len(closes)
            last_idx = f.idx
            closes.append(t[-1].value)
            if len(closes) >= n:
                break
        for p in range(1, n + 1):
            got = v.get_value(p)
            opts = [None if len(closes) < p else sum(closes[:p]) / p]
            if cut is not None and p > cut:
                opts.append(None)
            ok = any((got is None) == (x is None) and (x is None or abs(got - x) < HALF) for x in opts)
            self.ensure(ok, "P06", "%s: average of %d is %s instead of %s", where, p, got, opts[0])

    def check_rsi(self, fs, ind, r, m):
        v, ticks = self._present("P06", fs, ind, r, m)
        if v is None:
            return
        n = ind["n"] * fs.q
        where = "%s/%s frame %d" % (fs.ref, ind["ref"], m.idx)
        # searched plans only hold RSI of all hours (see known_findings.json)
        lasts = [f.vals[ind["ref"]][-1].value for f in fs.frames[:m.idx + 1] if f.vals.get(ind["ref"]) is not None]
        if ind["moo"]:
            where += " (open-market hours only)"
            self.probe("rsi of open-market hours")
        else:
            lasts = [f.last.value for f in fs.frames[max(0, m.idx - n):m.idx + 1]]
        if len(lasts) <= n:
            self.ensure(v.value is None, "P06", "%s: RSI %s before enough frames", where, v.value)
            return
        lasts = lasts[-n - 1:]
        ch = [b - a for a, b in zip(lasts, lasts[1:])]
        pos, neg = sum(c for c in ch if c > 0), -sum(c for c in ch if c < 0)
        if neg == 0:
            want = 100
        elif pos == 0:
            want = 0
        else:
            want = 100 - 100 / (1 + pos / neg)
        self.ensure(v.value is not None and abs(v.value - want) < HALF, "P06", "%s: RSI %s instead of %s", where, v.value, want)
        self.probe("rsi compared")

    def check_pivot(self, fs, ind, r, m):
        v, ticks = self._present("P07", fs, ind, r, m)
        if v is None:
            return
        ref = ind["ref"]
        where = "%s/%s frame %d" % (fs.ref, ref, m.idx)
        got = (v.pivot, v.support1, v.support2, v.support3, v.resistance1, v.resistance2, v.resistance3)
        prev = self.prev_valued(fs, ref, m)
        reachable = prev is not None and prev.idx >= fs.kept_from
        if prev is None:
            self.ensure(all(x is None for x in got), "P07", "%s: levels %s without a previous frame", where, got)
            return
        if got[0] is None:
            self.ensure(not reachable, "P07", "%s: no pivot although a previous frame is kept", where)
            self.ensure(all(x is None for x in got), "P07", "%s: levels %s without a pivot", where, got)
            return
        vs = [t.value for t in prev.vals[ref]]
        h, lo, la = max(vs), min(vs), vs[-1]
        if ind["kind"] == "pivot":
            want = (h + lo + la) / 3
        else:
            want = (h + lo + la + ticks[0].value) / 4
        p = got[0]
        self.ensure(abs(p - want) < HALF, "P07", "%s: pivot %s instead of %s", where, p, want)
        levels = (2 * p - h, p - (h - lo), lo - 2 * (h - p), 2 * p - lo, p + (h - lo), h + 2 * (p - lo))
        for name, g, w in zip(("support1", "support2", "support3", "resistance1", "resistance2", "resistance3"), got[1:], levels):
            self.ensure(g is not None and abs(g - w) < HALF, "P07", "%s: %s is %s instead of %s", where, name, g, w)
        self.probe("pivot compared")

    def check_user(self, fs, ind, rf, pos, m):
        """An indicator written by the user, on top of the base class."""
        r = rf[pos]
        v, ticks = self._present("P24", fs, ind, r, m)
        if v is None:
            return
        c, ref = "P24", ind["ref"]
        where = "%s/%s frame %d" % (fs.ref, ref, m.idx)
        self.ensure(v.frame is r, c, "%s: value of another frame", where)
        built = [x for x in v.indicator.built if x[0] is r]
        self.ensure(len(built) == 1 and built[0][2] is v, c, "%s: built %d times", where, len(built))
        self.ensure(same_tick(built[0][1], ticks[0]), c, "%s: built on %s", where, show(built[0][1]))
        calls = [t for t, is_open in v.calls if is_open or not ind["moo"]]
        self.ensure(len(calls) == len(ticks) - 1 and all(same_tick(a, b) for a, b in zip(calls, ticks[1:])), c,
                    "%s: told of %d ticks instead of %d: %s", where, len(calls), len(ticks) - 1, [show(t) for t in calls][:4])
        vs = [t.value for t in ticks]
        self.ensure(same_tick(v.first_tick, ticks[0]), c, "%s: first tick %s", where, show(v.first_tick))
        self.ensure(same_tick(v.last_tick, ticks[-1]), c, "%s: last tick %s", where, show(v.last_tick))
        self.ensure(v.high_tick.value == max(vs) and v.low_tick.value == min(vs), c, "%s: extremes %s and %s", where, v.low_tick.value,
                    v.high_tick.value)
        last = pos == len(rf) - 1
        self.ensure(v.closed == (not last), c, "%s: closed is %s", where, v.closed)
        prev = self.prev_valued(fs, ref, m)
        want = rf[pos - (m.idx - prev.idx)][ref] if prev is not None and prev.idx >= fs.kept_from else None
        self.ensure(v.previous is want, c, "%s: wrong previous value", where)
        self.ensure(v.next is (None if last else rf[pos + 1][ref]), c, "%s: wrong next value", where)
        self.probe("user indicator compared")

    # ------------------------------------------------------------------- one view
    def check_view(self, e, ctx, final):
        m = self.M_epics[e]
        cats = self.cats
        full = final and (m.nticks % self.mode.get("full_every", 8) == 0)
        light = self.light and m.nticks % self.light
        if light:
            full = False
        elif self.on("P01"):
            self.check_last(e)
        if not light:
            self.check_frames(e, full)
        if "P04" in cats and final:
            self.check_chain(e, full)
        if light:
            return
        if self.on("P05", "P06", "P07", "P24"):
            self.check_indicators(e, full, cats)
        if "P08" in cats:
            self.check_last(e, "P08")
            self.check_fresh(e)
        self.check_trades_of_epic(e, full)
        if "P15" in cats and not final:
            self.pv("view", ctx.op, tuple((t.tid, round(self.real[t.tid].result, 4), self.real[t.tid].opened_quantities)
                                          for t in self.m_trades if t.e == e))

    def check_fresh(self, e):
        """When notified a strategy sees an up-to-date world."""
        m, r = self.M_epics[e], self.R_epics[e]
        last = m.last
        for fs in m.framesets:
            f = r.get_frame(fs.ref)
            self.ensure(f is not None and same_tick(f.last_tick, last), "P08", "frame of %s does not include the tick", fs.ref)
            n = len(fs.frames[-1].ticks)
            self.ensure(f.nb_ticks == n, "P08", "frame of %s holds %d ticks instead of %d", fs.ref, f.nb_ticks, n)
            for ref, ind in fs.inds.items():
                if ind["moo"] and not m.market_open:
                    continue
                v = f[ref]
                self.ensure(v is not None and same_tick(v.last_tick, last), "P08", "%s/%s does not include the tick", fs.ref, ref)
                if ind["kind"] == "candle":
                    self.ensure(abs(v.last - last.value) < EPS, "P08", "%s/%s: candle without the tick", fs.ref, ref)
        for t in self.m_trades:
            if t.e == e and not t.closed and t.in_provider:
                rt = self.real[t.tid]
                self.ensure(abs(rt.current_close_value - t.cur) < EPS, "P08", "trade %s valued at %s instead of %s", t.tid,
                            rt.current_close_value, t.cur)

    def check_everything(self, e):
        if self.on("P01"):
            self.check_last(e)
        self.check_frames(e, True)
        if self.on("P04"):
            self.check_chain(e, True)
        if self.on("P05", "P06", "P07", "P24"):
            self.check_indicators(e, True, self.cats)
        self.check_trades_of_epic(e, force=True)

    # ---------------------------------------------------------------------- trades
    def check_trades_of_epic(self, e, full=True, force=False):
        """Every trade; those closed for long only when full."""
        if not self.on("P09", "P10", "P11", "P20"):
            return
        if self.light and not force:
            self.light_n += 1
            if self.light_n % self.light:
                return
        mine = []
        for t in self.m_trades:
            if t.e == e and t is not self.flux:
                mine.append(t)
                if not t.closed:
                    t.checked = False
                    self.check_trade(t)
                elif full or not t.checked:
                    self.check_trade(t)
                    t.checked = True
        if self.on("P10"):
            prov = self.providers[self.M_epics[e].provider]
            flux = self.flux and self.real[self.flux.tid]
            opened = [x for x in prov.opened_trades if x.epic is self.R_epics[e] and x is not flux]
            want = [self.real[t.tid] for t in reversed(mine) if not t.closed and t.in_provider]
            self.ensure(len(opened) == len(want) and {id(x) for x in opened} == {id(x) for x in want}, "P10",
                        "%d trades are listed as open instead of %d", len(opened), len(want))
        if self.on("P20"):
            for s in self.M_epics[e].strategies:
                self.check_strategy(s, e)

    def check_trade(self, t):
        if t is self.flux:
            return  # other threads are closing it
        rt = self.real[t.tid]
        if self.on("P10", "P11"):
            c = "P10" if self.on("P10") else "P11"
            oq, cq, q = rt.opened_quantities, rt.closed_quantities, rt.open_quantity
            self.ensure(q == t.open_qty, c, "trade %s was opened with %s instead of %s", t.tid, q, t.open_qty)
            self.ensure(oq + cq == q and oq >= 0 and cq >= 0, c, "trade %s: open %s and closed %s of %s", t.tid, oq, cq, q)
            self.ensure(oq == t.opened, c, "trade %s: %s open instead of %s", t.tid, oq, t.opened)
            self.ensure(rt.closed == t.closed, c, "trade %s: closed is %s", t.tid, rt.closed)
            self.ensure(len(rt.closes) == len(t.closes), c, "trade %s has %d closes instead of %d", t.tid, len(rt.closes), len(t.closes))
            for x, mc in zip(rt.closes, t.closes):
                cqt, v, us = mc[0], t.price(mc[1]), mc[2]
                self.ensure(x.quantity == cqt, c, "trade %s: a close of %s instead of %s", t.tid, x.quantity, cqt)
                self.ensure(abs(x.close_value - v) < EPS, c, "trade %s: closed at %s instead of %s", t.tid, x.close_value, v)
                self.ensure(us_of(x.datetime) == us, c, "trade %s: closed at the time %s", t.tid, x.datetime)
                res = t.close_result(mc)
                self.ensure(abs(x.result - res) < t.tolerance(), c, "trade %s: result of a close %s instead of %s",
                            t.tid, x.result, res)
                self._rounded(c, t, x.result, cqt, mc[1])
        if self.on("P09", "P11"):
            c = "P09" if self.on("P09") else "P11"
            tol = t.tolerance()
            self.ensure(rt.epic is self.R_epics[t.e], c, "trade %s is on another instrument", t.tid)
            self.ensure((rt.direction.name == "BUY") == (t.sign > 0), c, "trade %s has direction %s", t.tid, rt.direction)
            self.ensure(abs(rt.open_value - t.open_value) < EPS, c, "trade %s opened at %s instead of %s", t.tid, rt.open_value,
                        t.open_value)
            self.ensure(us_of(rt.datetime) == t.us, c, "trade %s opened at the time %s", t.tid, rt.datetime)
            if not t.closed and t.in_provider:
                self.ensure(abs(rt.current_close_value - t.cur) < EPS, c, "trade %s valued at %s instead of %s", t.tid,
                            rt.current_close_value, t.cur)
            if t.in_provider:
                self._results(c, t, rt, tol)
        elif self.on("P10") and t.closed and t.in_provider:
            self._results("P10", t, rt, t.tolerance())

    def _rounded(self, c, t, result, qty, n):
        """A difference of prices of more than two decimals is rounded before it is multiplied."""
        if t.dec <= 2 or not qty:
            return
        cents = result * 100 / qty
        diff = (n - t.open_n) * t.sign * 100 / t.scale
        self.ensure(abs(cents - round(cents)) < 1e-5 and abs(cents - diff) < 0.5 + 1e-5, c,
                    "trade %s: result %s of a quantity of %s is not a difference of %s rounded to two decimals", t.tid, result, qty, diff / 100)

    def _results(self, c, t, rt, tol):
        r = t.result()
        self.ensure(abs(rt.result - r) < tol, c, "trade %s: result %s instead of %s", t.tid, rt.result, r)
        o, d = rt.opened_result, rt.closed_result
        self._rounded(c, t, o, t.opened, t.cur_n)
        for x, mc in zip(rt.closes, t.closes):
            self._rounded(c, t, x.result, mc[0], mc[1])
        want = t.realised / t.scale
        self.ensure(abs(d - want) < tol and abs(o + d - r) < 2 * tol, c, "trade %s: results %s open and %s closed instead of %s and %s",
                    t.tid, o, d, r - want, want)
        self.ensure(abs(rt.result_avg - r / t.open_qty) < HALF + tol, c, "trade %s: average result %s instead of %s", t.tid, rt.result_avg,
                    r / t.open_qty)
        if t.closed_qty:
            self.ensure(abs(rt.closed_result_avg - want / t.closed_qty) < HALF + tol, c, "trade %s: average result of closes %s instead of %s",
                        t.tid, rt.closed_result_avg, want / t.closed_qty)
        if t.closed:
            now = (rt.result, rt.max_result, rt.min_result)
            if t.final is None:
                t.final = now
            self.ensure(t.final == now, c, "trade %s: closed with %r, now %r", t.tid, t.final, now)
        if t.raw and not self.mode.get("strict"):
            return  # see known finding KF4
        self.ensure(abs(rt.max_result - t.max) < tol, c, "trade %s: best result %s instead of %s", t.tid, rt.max_result, t.max)
        self.ensure(abs(rt.min_result - t.min) < tol, c, "trade %s: worst result %s instead of %s", t.tid, rt.min_result, t.min)

    def check_books(self):
        """Lists of the brokers and strategies hold the right trades, in order."""
        if not self.on("P13", "P16", "P17", "P20", "P12"):
            return
        for p, prov in enumerate(self.providers):
            real = [self.known.get(id(x)) for x in prov.trades]
            for x, mt in zip(prov.trades, real):
                self.ensure(mt is not None, "P13", "an unknown trade is in the books")
            mine = [t for t in self.m_trades if t.p == p and t.in_provider]
            if self.mode.get("feeders"):
                for e in range(len(self.M_epics)):
                    a = [t.tid for t in real if t.e == e]
                    b = [t.tid for t in mine if t.e == e]
                    self.ensure(a == b, "P16", "books of instrument %d: %r instead of %r", e, a, b)
            else:
                a, b = [t.tid for t in real], [t.tid for t in mine]
                self.ensure(a == b, "P13", "books: %r instead of %r", a, b)
        for s, ms in enumerate(self.M_strats):
            got = [self.known.get(id(x)) for x in self.R_strats[s].trades]
            self.ensure(None not in got, "P20", "strategy %d has an unknown trade", s)
            want = [t for t in ms.trades if t.in_strategy]
            for e in range(len(self.M_epics)) if s in self.shared else [None]:
                a = [t.tid for t in got if e is None or t.e == e]
                b = [t.tid for t in want if e is None or t.e == e]
                self.ensure(a == b, "P20", "trades of strategy %d: %r instead of %r", s, a, b)

    # ------------------------------------------------------------- strategies (P20)
    def check_strategy(self, s, e=None):
        ms, rs = self.M_strats[s], self.R_strats[s]
        if s in self.shared:
            # other threads open trades meanwhile: only those of this instrument stand still
            if e is not None:
                sel = [t for t in ms.trades if t.in_strategy and t.e == e]
                for open_only in (False, True):
                    want = [self.real[t.tid] for t in reversed(sel) if not (open_only and t.closed)]
                    self._same("P20", s, "trades of %d" % e, rs.get_trades(epics=[self.R_epics[e]], open_only=open_only), want)
                got = list(rs.get_trades(epics=[self.R_epics[e]]))
                self._figures("P20", s, rs.result(got), rs.profit_factor(got), sel, "trades of %d" % e)
            return
        mine = [t for t in ms.trades if t.in_strategy]
        want = [self.real[t.tid] for t in mine]
        c = "P20"
        got = list(rs.trades)
        self.ensure(len(got) == len(want) and all(a is b for a, b in zip(got, want)), c, "strategy %d has %d trades instead of %d",
                    s, len(got), len(want))
        self._same(c, s, "get_trades()", rs.get_trades(), want[::-1])
        self._figures(c, s, rs.result(), rs.profit_factor(), mine, "all its trades")
        self._same(c, s, "open trades", rs.get_trades(open_only=True), [self.real[t.tid] for t in reversed(mine) if not t.closed])

    def check_figures(self):
        if not self.on("P20"):
            return
        import arrow
        for s in range(len(self.M_strats)):
            if s in self.shared:
                for e in range(len(self.M_epics)):
                    self.check_strategy(s, e)
            else:
                self.check_strategy(s)
                self.query_strategy(s, arrow)

    def query_strategy(self, s, arrow):
        c = "P20"
        ms, rs = self.M_strats[s], self.R_strats[s]
        mine = [t for t in ms.trades if t.in_strategy]
        for e in range(len(self.M_epics)):
            for open_only in (False, True):
                sel = [t for t in reversed(mine) if t.e == e and not (open_only and t.closed)]
                ep = [self.R_epics[e]]
                self._same(c, s, "trades of %d" % e, rs.get_trades(epics=ep, open_only=open_only), [self.real[t.tid] for t in sel])
                self._figures(c, s, rs.result(rs.get_trades(epics=ep, open_only=open_only)),
                              rs.profit_factor(rs.get_trades(epics=ep, open_only=open_only)), sel, "trades of %d" % e)
                # dates: trades of one instrument are in chronological order
                for pivot in sorted({t.us for t in sel})[-3:]:
                    for d in (0, 1, -1):
                        when = arrow.get(BASE + (pivot + d) * US).to(self.M_epics[(e + 1) % len(self.M_epics)].cfg["tz"])
                        sub = [t for t in sel if t.us >= pivot + d]
                        self._same(c, s, "trades of %d after %s" % (e, when),
                                   rs.get_trades(epics=ep, open_only=open_only, only_after=when),
                                   [self.real[t.tid] for t in sub])
        # all instruments together
        for open_only in (False, True):
            sel = [t for t in reversed(mine) if not (open_only and t.closed)]
            for pivot in sorted({t.us for t in sel})[-4:]:
                when = arrow.get(BASE + pivot * US)
                sub = [t for t in sel if t.us >= pivot]
                got = list(rs.get_trades(open_only=open_only, only_after=when))
                if not self.mode.get("strict") and sub != sel[:len(sub)]:
                    # known finding: with trades registered out of chronological order the listing stops at
                    # the first older one; anything else is still a violation
                    cut = next(i for i, t in enumerate(sel) if t.us < pivot)
                    if [id(x) for x in got] == [id(self.real[t.tid]) for t in sel[:cut]]:
                        self.probe("known finding KF1 seen")
                        continue
                self._same(c, s, "all trades after %s" % when, got, [self.real[t.tid] for t in sub])
        self._figures(c, s, rs.result([]), rs.profit_factor([]), [], "no trade")
        self._same(c, s, "trades of no instrument", rs.get_trades(epics=[]), [])
        if self.M_strats[s].trades:
            self.ensure(rs.result(rs.get_trades(epics=[])) == 0, c, "strategy %d: result of no instrument", s)
        n = len(self.M_epics)
        if n > 1:
            for out in range(n):
                es = [(out + 1 + i) % n for i in range(n - 1)]
                sel = [t for t in reversed(mine) if t.e in es]
                got = list(rs.get_trades(epics=[self.R_epics[e] for e in es]))
                self._same(c, s, "trades of %r" % es, got, [self.real[t.tid] for t in sel])
                self._figures(c, s, rs.result(got), rs.profit_factor(got), sel, "trades of %r" % es)
        sel = mine[::2]
        self._figures(c, s, rs.result([self.real[t.tid] for t in sel]), rs.profit_factor(iter([self.real[t.tid] for t in sel])), sel,
                      "every other trade")

    def op_query(self, op):
        if not self.on("P20"):
            return
        import arrow
        self.k.no_preempt += 1
        try:
            self.check_strategy(op["s"])
            self.query_strategy(op["s"], arrow)
        finally:
            self.k.no_preempt -= 1

    def _same(self, c, s, what, got, want):
        got = list(got)
        self.ensure(len(got) == len(want) and all(a is b for a, b in zip(got, want)), c, "strategy %d, %s: %r instead of %r", s, what,
                    [self.known[id(x)].tid if self.known.get(id(x)) else "?" for x in got],
                    [self.known[id(x)].tid for x in want])

    def _figures(self, c, s, res, pf, trades, what):
        rs = [t.result() for t in trades]
        want = sum(rs)
        self.ensure(abs(res - want) < HALF, c, "strategy %d, result of %s: %s instead of %s", s, what, res, want)
        pos, neg = sum(x for x in rs if x >= 0), -sum(x for x in rs if x < 0)
        if neg == 0:
            w = pos
        else:
            w = pos / max(neg, 1)
        self.ensure(abs(pf - w) < HALF + 1e-6 * abs(w), c, "strategy %d, profit factor of %s: %s instead of %s", s, what, pf, w)
