"""Seeded generation of plans (workload, configuration, feed and fault mix)."""
import random
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from .model import BASE, local, parse_time, period, to_us, wall_to_us

UTC = timezone.utc
ZONES = ["UTC", "Europe/Paris", "America/New_York", "Asia/Tokyo", "America/Sao_Paulo", "America/Havana",
         "Asia/Kolkata", "Asia/Kathmandu", "Europe/London", "Australia/Sydney", "Asia/Tehran", "Africa/Cairo"]
# half-hour and two-hour clock changes, a day which does not exist, clocks changed at midnight or for a month
ODD = ["Australia/Lord_Howe", "Antarctica/Troll", "Pacific/Apia", "Africa/Casablanca", "America/St_Johns", "Asia/Gaza", "Asia/Pyongyang",
       "America/Caracas", "Europe/Dublin", "Pacific/Chatham", "America/Asuncion", "Asia/Beirut"]
UNITS = {"SECOND": [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60], "MINUTE": [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60],
         "HOUR": [1, 2, 3, 4, 6, 12], "DAY": [1, 7], "WEEK": [1], "MONTH": [1, 2, 3, 4, 6, 12], "YEAR": [1, 2, 3, 5, 10]}
SPAN = {"SECOND": 1, "MINUTE": 60, "HOUR": 3600, "DAY": 86400, "WEEK": 604800, "MONTH": 31 * 86400, "YEAR": 366 * 86400}
ERAS = [tuple(to_us(datetime(*d, tzinfo=UTC)) for d in x) for x in (((2011, 1, 3), (2020, 6, 1)), ((1980, 1, 3), (2029, 1, 1)))]
# arrow knows the clock changes of zones until 2037 only: periods of ten years end before
EARLIEST, LATEST = (to_us(datetime(*d, tzinfo=UTC)) for d in ((1970, 1, 3), (2029, 12, 20)))

_trans = {}


def transitions(zone, era):
    """Instants at which the clocks of a zone change."""
    if (zone, era) in _trans:
        return _trans[zone, era]
    z = ZoneInfo(zone)
    out = []
    step = 2 * 86400_000_000
    t, hi = era
    off = local(t, z).utcoffset()
    while t < hi:
        new = local(t + step, z).utcoffset()
        if off != new:
            a, b = t, t + step
            while b - a > 1_000_000:
                m = (a + b) // 2
                if local(m, z).utcoffset() == off:
                    a = m
                else:
                    b = m
            out.append(b // 1_000_000 * 1_000_000)
        off = new
        t += step
    _trans[zone, era] = out
    return out


class Gen:
    def __init__(self, prop, seed, tier):
        self.r = random.Random("plan/%s/%d" % (prop, seed))
        self.prop, self.seed, self.tier = prop, seed, tier
        self.faults = {}
        self.long = False
        self.deep = False
        self.heap = False
        self.may_be_long = True
        self.era = ERAS[self.p(0.15)]

    def ch(self, *xs):
        return xs[self.r.randrange(len(xs))]

    def p(self, x):
        return self.r.random() < x

    def fault(self, n, c=1):
        self.faults[n] = self.faults.get(n, 0) + c

    # ----------------------------------------------------------------- frame sets
    def frameset(self, ref, unit=None, maxes=(1, 2, 3, 5, 8, 20, 100), inds=(), moo=0.3, late=0.0):
        r = self.r
        if unit is None:
            unit = self.ch("SECOND", "MINUTE", "MINUTE", "HOUR", "HOUR", "DAY", "WEEK", "MONTH", "YEAR", "TICK")
        q = self.ch(*UNITS[unit]) if unit != "TICK" else self.ch(1, 1, 2, 3, 4, 5, 7, 10) if not self.p(0.06) else self.ch(25, 60, 100)
        if self.heap:
            q = 1000 if unit == "TICK" else 1
        mx = self.ch(*maxes) if not self.deep else self.ch(50, 100, 100, 200)
        out = []
        for i, kind in enumerate(inds):
            ind = {"ref": "%s%d" % (kind, i), "kind": kind, "moo": self.p(moo)}
            if kind == "sma":
                ind["n"] = self.ch(1, 2, 3, 5, 12) if not self.deep else self.ch(20, 30, 50, 90)
            if kind == "rsi":
                ind["moo"] = False
                n = max(1, r.randint(1, 6)) if not self.deep else self.ch(9, 14, 21)
                ind["n"] = n
                mx = max(mx, n * q, 2)
            if ind["moo"]:
                mx = max(mx, 2)
            out.append(ind)
        return {"ref": ref, "unit": unit, "q": q, "max": mx, "inds": out}

    def inds(self, kinds, lo=1, hi=3):
        return [self.ch(*kinds) for _ in range(self.r.randint(lo, hi))]

    # ---------------------------------------------------------------------- epics
    def epic(self, i, fs, strategies, provider, start=None, sessions=True, tz=None):
        tz = tz or (self.ch("UTC", "Europe/Paris", "America/New_York") if self.p(0.4) else self.ch(*ODD) if self.p(0.15) else self.ch(*ZONES))
        o, c = "09:30", "17:30"
        if sessions:
            x = self.r.random()
            if x < 0.15:
                o, c = "00:00", "23:59:59.999999"
            elif x < 0.25:
                o, c = "00:00", "12:00"
            elif x < 0.35:
                o, c = "15:45:30", "23:30"
            elif x < 0.4:
                o, c = "02:15", "02:45"
            elif x < 0.45:
                o, c = "18:00", "06:00"
        days = self.ch(None, None, None, [0, 1, 2, 3, 4, 5, 6], [5, 6], [0, 2, 4])
        return {"ref": "EPIC%d" % i, "tz": tz, "open": o, "close": c, "days": days, "holidays": [], "provider": provider,
                "strategies": list(strategies), "fs": list(fs), "dec": 2}

    def smallest(self, fs):
        s = [SPAN[f["unit"]] * f["q"] for f in fs if f["unit"] != "TICK"]
        return min(s) if s else None

    def start(self, cfg, span):
        """An instant close to something that matters."""
        r = self.r
        z = ZoneInfo(cfg["tz"])
        x = r.random()
        tr = transitions(cfg["tz"], self.era)
        lo, hi = self.era
        if tr and x < 0.3:
            t = r.choice(tr) - int(r.random() * 12 * span * 1e6)
            self.fault("clock change")
        elif x < 0.5:
            d = local(r.randrange(lo, hi), z).replace(tzinfo=None, hour=0, minute=0, second=0, microsecond=0)
            tm = parse_time(self.ch(cfg["open"], cfg["close"]))
            t = wall_to_us(d.replace(hour=tm.hour, minute=tm.minute, second=tm.second), z) - int(r.random() * 10 * span * 1e6)
        elif x < 0.65:
            d = local(r.randrange(lo, hi), z).replace(tzinfo=None, hour=0, minute=0, second=0, microsecond=0)
            t = wall_to_us(d, z) - int(r.random() * 10 * span * 1e6)
        elif x < 0.75:
            y = r.randint(local(lo, z).year, local(hi, z).year - 1)
            t = wall_to_us(datetime(y, self.ch(1, 3, 12), 1), z) - int(r.random() * 10 * span * 1e6)
        else:
            t = r.randrange(lo, hi)
        return max(lo - 30 * 86400_000_000, min(hi, t))

    def anchors(self, cfg, t, z):
        """Next instants of interest after t."""
        out = []
        for f in cfg["fs"]:
            if f["unit"] != "TICK":
                out.append(period(f["unit"], f["q"], t, z)[1])
        d = local(t, z).replace(tzinfo=None, hour=0, minute=0, second=0, microsecond=0)
        for k in (0, 1):
            dd = d + timedelta(days=k)
            for tm in (cfg["open"], cfg["close"], "00:00"):
                tt = parse_time(tm)
                out.append(wall_to_us(dd.replace(hour=tt.hour, minute=tt.minute, second=tt.second, microsecond=tt.microsecond), z))
        return [a for a in out if a > t]

    # ----------------------------------------------------------------------- feed
    def source(self, cfg, n, span, max_gap):
        """Ticks as the market emits them: (instant, bid, ask)."""
        r = self.r
        z = ZoneInfo(cfg["tz"])
        dec = cfg["dec"]
        t = cfg.pop("near", None)
        if t is None:
            t = self.start(cfg, span)
        lim = max_gap * span * 1_000_000
        base = self.ch(0, 5, 100, 10_000, 10_000, 1_000_000, -50, 50_000_000)
        vol = self.ch(1, 5, 100, 2000)
        if base <= 100 and vol > 100:
            vol = 5
        flat = self.p(0.15)
        spread = self.ch(0, 0, 1, 2, 10, 51)
        out = []
        v = base
        style = [r.random() + 0.05 for _ in range(8)]
        if self.p(0.3):  # swarm: some styles are off
            for i in r.sample(range(8), 4):
                style[i] = 0
            style[2] += 0.1
        trend = self.ch(0, 0, 0, 1, -1)
        for i in range(n):
            s = r.choices(range(8), style)[0]
            if i == 0:
                pass
            elif s == 0:
                pass
            elif s == 1:
                t += self.ch(1, 999, 1000, 250_000)
            elif s in (2, 3):
                t += int(r.random() * span * 1e6 * 1.2) + 1
            elif s == 4:
                t += int(r.random() * span * 1e6 * 6)
            elif s == 5 and self.p(0.4):
                t += int(r.random() * lim)
                self.fault("feed.outage")
            else:
                a = [x for x in self.anchors(cfg, t, z) if x - t <= lim]
                if a:
                    t = max(t, r.choice(a) + self.ch(0, 0, -1, 1, -1_000_000, 1_000_000))
                else:
                    t += int(r.random() * span * 1e6)
            if t > self.era[1] + 200 * 86400_000_000:
                break
            x = r.random()
            if flat and x < 0.6:
                pass
            elif x < 0.05:
                v = base
            elif x < 0.1:
                v = 0 if base <= 100 else v
            else:
                v += r.randint(-vol, vol) + trend * vol // 2
            sp = spread if self.p(0.8) else r.randint(0, 60)
            out.append((t, v, v + sp))
        return out

    def transport(self, src, e, rate=1.0, span=60):
        """Delivered ticks: lost, late, repeated, with a skewed source clock."""
        r = self.r
        on = [self.p(0.5) for _ in range(5)]
        drop = r.random() * 0.15 * rate if on[0] else 0
        dup = r.random() * 0.15 * rate if on[1] else 0
        late = r.random() * 0.25 * rate if on[2] else 0
        skew_at = r.randrange(len(src) + 1) if on[3] and self.p(0.4 * rate) else None
        skew = 0
        msgs = []
        t0 = src[0][0]
        prev = 0
        for i, (t, b, a) in enumerate(src):
            if i == skew_at:
                skew = int(self.ch(-1, 1, -1) * r.random() * span * 3e6)
                if not EARLIEST < t + skew <= src[-1][0] + skew < LATEST:
                    skew = 0
                self.fault("feed.clock jump")
            at = t - t0 + 1000
            prev = at = max(prev, at)
            if self.p(drop):
                self.fault("feed.drop")
                continue
            lat = self.ch(0, 1, 500, 20_000)
            if self.p(late):
                lat += int(r.random() * span * 1e6 * self.ch(0.01, 1, 4))
                self.fault("feed.delay")
            msgs.append((at + lat, len(msgs), t + skew, b, a))
            if self.p(dup):
                msgs.append((at + lat + int(r.random() * span * 1e6 * self.ch(0, 0.1, 3)), len(msgs), t + skew, b, a))
                self.fault("feed.dup")
        msgs.sort()
        hi = None
        for m in msgs:
            if hi is not None and m[2] < hi:
                self.fault("feed.reorder")
            hi = m[2] if hi is None else max(hi, m[2])
        return msgs

    def feed(self, cfg, e, n, rate=1.0, max_gap=60, tzs=False):
        span = self.smallest(cfg["fs"])
        if span is None:
            span = self.ch(1, 60, 3600, 20_000)
            max_gap = max(4, 200_000 // span)
        if self.heap:
            span, max_gap = min(span, self.ch(1, 10, 60)), 600
        src = self.source(cfg, n, span, max_gap)
        ops = []
        for at, _, t, b, a in self.transport(src, e, rate, span):
            op = {"o": "tick", "e": e, "us": t, "b": b, "a": a, "at": at}
            if tzs and self.p(0.5):
                op["tz"] = self.ch(*ZONES)
                op["form"] = self.ch(0, 0, 1)
            ops.append(op)
        if self.p(0.3):
            seen = {}
            for op in ops:
                seen.setdefault((op["us"], op["b"], op["a"]), []).append(op)
            for l in seen.values():
                if len(l) > 1:
                    for op in l:
                        op["again"] = 1
        if cfg["days"] is not None or self.p(0.5):
            z = ZoneInfo(cfg["tz"])
            ds = sorted({local(t[0], z).date().isoformat() for t in src})
            for d in ds[1:]:
                if self.p(0.15):
                    cfg["holidays"].append(d)
        return ops

    def number(self, ops, prefix="t"):
        for i, o in enumerate(ops):
            o.setdefault("id", "%s%d" % (prefix, i))

    # ---------------------------------------------------------------------- plans
    def plan(self, cats, cfg, ops, scripts=None, mode=None):
        m = {"gran": "jump", "full_every": self.ch(1, 4, 8)}
        m.update(mode or {})
        if self.long:
            m["light"] = self.ch(7, 16, 40)
            if m.get("gran") in ("line", "instr"):
                m["gran"] = "line"
                m["gen"] = {"p": self.ch(0.01, 0.002), "pf": 0.3}
        if self.deep:
            m["light"] = self.ch(5, 11)
        if self.heap:
            m["light"] = self.ch(16, 40)
        if self.p(0.08):
            m["log"] = True
        cfg.setdefault("providers", [{"kind": "bt"}])
        machine = self.ch("UTC", "UTC", "UTC", "AAA8", "BBB-9:30", "CET-1CEST,M3.5.0,M10.5.0/3", "CCC-14")
        self.same_refs(cfg, ops, scripts)
        return {"prop": self.prop, "seed": self.seed, "entropy": self.r.getrandbits(32), "cats": sorted(cats), "cfg": cfg,
                "ops": ops, "scripts": scripts or {}, "mode": m, "decisions": {}, "faults": self.faults, "machine": machine,
                "wall": to_us(datetime(2021, 3, 4, 5, 6, 7, tzinfo=UTC)) + self.r.randrange(10 ** 9)}

    def same_refs(self, cfg, ops, scripts):
        """References are labels: nothing forbids two instruments, or strategies of different instruments, to share one."""
        if not self.p(0.12):
            return
        if self.p(0.7):
            for e in cfg["epics"][1:]:
                e["ref"] = cfg["epics"][0]["ref"]
        if any(o["o"] == "attach_strategy" for o in ops) or any(a[0] == "join" for x in (scripts or {}).values() for a in x):
            return
        on = {s: {i for i, e in enumerate(cfg["epics"]) if s in e["strategies"]} for s in range(len(cfg["strategies"]))}
        for s in range(1, len(on)):
            if not any(on[s] & on[x] for x in range(s)):
                cfg["strategies"][s]["ref"] = cfg["strategies"][0]["ref"]

    def n_ticks(self, lo, hi):
        if self.tier == "thorough" and self.p(0.15):
            hi *= 3
        if self.may_be_long and self.p(0.012):
            self.long = True
            return self.r.randint(hi * 4, hi * 14)
        return self.r.randint(lo, hi)

    def hooks_for(self, s):
        return self.r.choices(["T", "M", "O", "C"], [6, 3, 1, 1])[0]


def market_strategies(g, n):
    return [{"ref": "strat%d" % i} for i in range(n)]


RAISES = ["ZeroDivisionError", "OverflowError", "ArithmeticError", "ValueError", "TypeError", "KeyError", "IndexError", "LookupError",
          "AttributeError", "RuntimeError", "NotImplementedError", "RecursionError", "StopIteration", "AssertionError", "OSError",
          "ConnectionError", "TimeoutError", "MemoryError", "UnicodeError", "NameError", "EpicException", "TradeException", "TickException"]


def add_trading(g, cfg, ops, density=0.3, kinds=None, own=False, cross=0.0):
    """Strategy scripts and outside actions which open and close trades."""
    r = g.r
    scripts = {}
    aids = {}
    new = []
    ticks = {}
    for op in ops:
        if op["o"] == "tick":
            ticks.setdefault(op["e"], []).append(op)
    pos = {}
    kinds = kinds or {"open": 5, "close": 4, "closeall": 0.5, "nopen": 0.4}
    names, weights = list(kinds), list(kinds.values())
    maxq = g.ch(1, 3, 10, 1000, 1000, 1_000_000)
    same = g.p(0.15)
    if g.long:
        density = min(density, 0.25)
    bias = g.ch(0.5, 0.5, 0.8, 0.2)

    def action(s, e, aid, in_T, nested=False):
        k = r.choices(names, weights)[0]
        if nested and k in ("feed", "pause", "stop"):
            return None
        key = (s, e) if own else s
        if k in ("open", "nopen"):
            tgt = None
            if cross and g.p(cross):
                tgt = r.randrange(len(cfg["epics"]))
            aids.setdefault(key, []).append(aid)
            ref = [g.ch("same", "same", "other", None)] if same else []
            return [k, tgt, "B" if g.p(bias) else "S", r.randint(1, maxq), g.ch(0, 0, 1, 2)] + ref
        if k == "feed":
            es = [x for x in ticks if x != e]
            if not es:
                return None
            e2 = r.choice(es)
            l = ticks[e2]
            t = l[min(len(l) - 1, pos.get(e2, 0) + g.ch(0, 0, 1))]
            t = {k: v for k, v in t.items() if k not in ("at", "id", "also")}
            for s2 in cfg["epics"][e2]["strategies"]:
                if g.p(0.4):
                    a = action(s2, e2, "%s/%d/T/0" % (aid, s2), True, nested=True)
                    if a is not None:
                        scripts["%s/%d/T" % (aid, s2)] = [a]
            return ["feed", t]
        if k in ("close", "rclose", "upd"):
            l = aids.get(key)
            if not l:
                return None
            a = l[-1 - min(len(l) - 1, int(r.expovariate(0.5)))]
            if k == "upd":
                return ["upd", a, None if g.p(0.3) else "zero" if g.p(0.15) else r.randint(-300, 300)]
            if k == "rclose":
                t = g.r.choice(ticks[e])
                return ["rclose", a, g.ch(None, 1, 2, r.randint(1, maxq), maxq * 2), "zero" if g.p(0.15) else r.randint(-200, 200),
                        t["us"] + g.ch(0, 1, -1000, 86_400_000_000), g.ch(*ZONES), g.ch(0, 1)]
            return ["close", a, g.ch(None, 1, 1, 2, r.randint(1, maxq), maxq * 2), g.ch(0, 0, 1, 2)]
        if k == "closeall":
            return ["closeall"]
        if k == "raise":
            return ["raise", g.ch("Exception", *RAISES)]
        if k == "join":
            return ["join", r.randrange(len(cfg["strategies"]))]
        ns = len(cfg["strategies"])
        other = None
        if ns > 1 and (not in_T or g.p(0.35)):
            other = r.choice([x for x in range(ns) if x != s])
        elif not in_T:
            return None
        a = ["pause", None, cfg["epics"][e]["tz"] if g.p(0.4) else g.ch(*ZONES)] if k == "pause" else [k]
        return a if other is None else ["on", other, a]

    i = 0
    for op in ops:
        new.append(op)
        if op["o"] != "tick":
            continue
        e = op["e"]
        pos[e] = pos.get(e, 0) + 1
        ss = cfg["epics"][e]["strategies"]
        for s in ss:
            for h in ("T", "M", "O", "C"):
                if not g.p(density * {"T": 1, "M": 0.5, "O": 1, "C": 1}[h]):
                    continue
                acts = []
                for j in range(g.ch(1, 1, 1, 2, 3)):
                    a = action(s, e, "%s/%d/%s/%d" % (op["id"], s, h, len(acts)), h == "T")
                    if a is None:
                        continue
                    x = a[2] if a[0] == "on" else a
                    if x[0] == "pause":
                        x[1] = op["us"] + g.ch(0, 1, 1_000_000, 60_000_000, 3600_000_000, 86400_000_000, -1000)
                    acts.append(a)
                    if a[0] == "raise":
                        break
                if acts:
                    scripts["%s/%d/%s" % (op["id"], s, h)] = acts
        if g.p(density * 0.3) and ss:
            s = r.choice(ss)
            aid = "a%d" % i
            if "feed" in op["id"]:
                aid = "%s.a" % op["id"]
            acts = []
            for j in range(g.ch(1, 1, 2)):
                a = action(s, e, "%s/%d" % (aid, len(acts)), True)
                if a and a[0] not in ("raise", "pause", "feed") and not (a[0] == "on" and a[2][0] == "pause"):
                    acts.append(a)
            if acts:
                o = {"o": "act", "id": aid, "s": s, "e": e, "acts": acts}
                new.append(o)
                i += 1
    return new, scripts


# ------------------------------------------------------------------------- profiles
def p01(g):
    fs = [g.frameset("f%d" % i, inds=g.inds(["candle", "sma"], 0, 1)) for i in range(g.ch(0, 1, 1))]
    c = g.epic(0, fs, [0] if g.p(0.5) else [], 0)
    ops = g.feed(c, 0, g.n_ticks(15, 60), rate=2.0, tzs=True)
    epics = [c]
    if g.p(0.2):
        c2 = g.epic(1, [], c["strategies"], 0, tz=c["tz"] if g.p(0.7) else None)
        if ops and g.p(0.7):
            c2["near"] = ops[0]["us"]
        epics.append(c2)
        ops = sorted(ops + g.feed(c2, 1, g.n_ticks(5, 20), rate=2.0, tzs=True), key=lambda o: (o["at"], o["e"]))
        also(g, epics, ops)
    g.number(ops)
    n = len(c["strategies"])
    cfg = {"epics": epics, "strategies": market_strategies(g, n)}
    scripts = {}
    if n:
        ops, scripts = add_trading(g, cfg, ops, 0.1)
    zones(g, epics, ops)
    if g.p(0.5):
        for o in ops:
            if o["o"] == "tick" and g.p(0.7):
                o["meta"] = o["id"]
    return g.plan(["P01", "P09"] if n else ["P01"], cfg, ops, scripts)


def late_sets(g, ops, mk, n=2):
    for i in range(n):
        if g.p(0.25):
            ops.insert(g.r.randrange(len(ops) + 1), {"o": "attach_fs", "e": 0, "fs": mk("late%d" % i), "id": "x%d" % i})


def inds_of(fs):
    return [x for f in fs for x in f["inds"]]


def frames_profile(g, cats, units, kinds, lo=1, hi=2, moo=0.3, maxes=(1, 2, 3, 5, 8, 20, 100), nfs=(1, 1, 2), ticks=(20, 70), late_ind=True,
                   dec4=0.0):
    def mk(ref):
        u = g.ch(*units) if units else None
        return g.frameset(ref, u, inds=g.inds(kinds, lo, hi) if kinds else (), moo=moo, maxes=maxes)

    if kinds and g.p(0.1):
        # frames looking far back
        g.deep = True
        units = ("SECOND", "MINUTE", "HOUR", "TICK")
        nfs, ticks = (1,), (60, 140)
    elif g.p(0.03):
        # very many ticks in one frame
        g.heap, g.may_be_long = True, False
        units = tuple(u for u in ("DAY", "WEEK", "MONTH", "YEAR", "TICK") if not units or u in units)
        nfs, ticks = (1,), (550, 900)
    fs = [mk("f%d" % i) for i in range(g.ch(*nfs))]
    if not g.heap and any(f["unit"] == "TICK" and f["q"] > 20 for f in fs):
        ticks = (80, 200)
    c = g.epic(0, fs, [], 0)
    if g.p(dec4):
        c["dec"] = 4
    if any(f["unit"] in ("MONTH", "YEAR") for f in fs):
        gap = 6
    else:
        gap = g.ch(3, 10, 60, 120) if not g.deep else g.ch(10, 60, 120)
        if g.p(0.06) and not inds_of(fs):
            gap = 1500
    sm = g.smallest(fs)
    lates = []
    for i in range(2):
        if g.p(0.2):
            f = mk("late%d" % i)
            if f["unit"] == "TICK" or (sm and SPAN[f["unit"]] * f["q"] >= sm):
                lates.append({"o": "attach_fs", "e": 0, "fs": f, "id": "x%d" % i})
    ops = g.feed(c, 0, g.n_ticks(*ticks), rate=0.6, max_gap=gap, tzs=g.p(0.3))
    g.number(ops)
    for x in lates:
        ops.insert(g.r.randrange(len(ops) + 1), x)
    if late_ind and kinds and g.p(0.2):
        ks = [k for k in kinds if k != "rsi"]
        if ks:
            k = g.ch(*ks)
            ind = {"ref": "lateind", "kind": k, "moo": g.p(moo) and fs[0]["max"] >= 2, "n": g.ch(1, 2, 4)}
            ops.insert(g.r.randrange(len(ops) + 1), {"o": "attach_ind", "e": 0, "fs": fs[0]["ref"], "ind": ind, "id": "y0"})
    if any(i["moo"] for i in inds_of(fs)):
        sessions(g, [c], ops, 0.1)
    return g.plan(cats, {"epics": [c], "strategies": []}, ops)


def p02(g):
    return frames_profile(g, ["P02"], ["SECOND", "MINUTE", "MINUTE", "HOUR", "HOUR", "DAY", "WEEK", "MONTH", "YEAR"], None)


def p03(g):
    return frames_profile(g, ["P03"], ["TICK"], None)


def p04(g):
    return frames_profile(g, ["P04"], None, ["candle", "ha", "sma", "rsi", "pivot"], 1, 4, maxes=(1, 1, 2, 3, 4, 6, 10), ticks=(20, 50))


def p05(g):
    return frames_profile(g, ["P05"], None, ["candle", "ha", "ha"], 1, 3, maxes=(1, 2, 3, 5, 8, 20), moo=0.4)


def p06(g):
    return frames_profile(g, ["P06"], None, ["sma", "rsi"], 1, 2, maxes=(2, 3, 5, 8, 20), moo=0.35, late_ind=False)


def p07(g):
    return frames_profile(g, ["P07"], None, ["pivot", "olhc"], 1, 2, maxes=(1, 2, 3, 5, 8, 20), moo=0.4)


def p08(g):
    ns = g.ch(1, 2, 3)
    ne = g.ch(1, 1, 2)
    epics, feeds = [], []
    for e in range(ne):
        fs = [g.frameset("f%d" % i, g.ch("MINUTE", "HOUR", "HOUR", "DAY", "TICK"), inds=g.inds(["candle", "sma", "pivot"], 0, 2)) for i in range(g.ch(0, 1))]
        ss = sorted(g.r.sample(range(ns), g.r.randint(1, ns)))
        c = g.epic(e, fs, ss, 0)
        epics.append(c)
        f = g.feed(c, e, g.n_ticks(15, 50), rate=0.5, max_gap=40)
        feeds += f
    feeds.sort(key=lambda o: (o["at"], o["e"]))
    g.number(feeds)
    cfg = {"epics": epics, "strategies": market_strategies(g, ns)}
    ops, scripts = add_trading(g, cfg, feeds, 0.2, {"open": 3, "close": 2, "pause": 3, "stop": 0.25, "resume": 0.3, "restart": 0.6,
                                                    "join": g.ch(0, 1)})
    for e, c in enumerate(epics):
        for s in range(ns):
            if s not in c["strategies"] and g.p(0.5):
                ops.insert(g.r.randrange(len(ops) + 1), {"o": "attach_strategy", "id": "s%d/%d" % (e, s), "e": e, "s": s})
    sessions(g, epics, ops)
    zones(g, epics, ops)
    return g.plan(["P08"], cfg, ops, scripts)


def zones(g, epics, ops):
    """The time zone of an instrument without frames changed during the run."""
    for e, c in enumerate(epics):
        if c["fs"] or any("also" in o or o["o"] in ("attach_fs", "session") for o in ops) or not g.p(0.25):
            continue
        for i in range(g.ch(1, 1, 2)):
            ops.insert(g.r.randrange(len(ops) + 1), {"o": "zone", "id": "z%d/%d" % (e, i), "e": e, "tz": g.ch(*ZONES)})


def sessions(g, epics, ops, rate=0.15):
    """Trading hours, days and holidays changed during the run."""
    if not g.p(rate):
        return
    for i in range(g.ch(1, 1, 2, 3)):
        e = g.r.randrange(len(epics))
        at = g.r.randrange(len(ops) + 1)
        after = [o for o in ops[at:] if o["o"] == "tick" and o["e"] == e]
        if not after:
            continue
        us = after[min(len(after) - 1, g.ch(0, 1, 2, 5))]["us"]
        now = local(us, ZoneInfo(epics[e]["tz"]))
        o = {"o": "session", "id": "h%d" % i, "e": e}
        x = g.r.random()
        if x < 0.4:
            o["holiday"] = now.date().isoformat()
        elif x < 0.6:
            o["days"] = g.ch([0, 1, 2, 3, 4], [5, 6], [0, 1, 2, 3, 4, 5, 6], [now.weekday()])
        else:
            t = now.replace(microsecond=0).time().isoformat()
            o["open"], o["close"] = g.ch((t, "23:59"), ("00:00", t), ("00:00", "23:59:59.999999"), ("09:30", "17:30"), (t, t))
        if g.p(0.5):
            o["place"] = 1  # lists of the instrument are changed in place
        ops.insert(at, o)


def corruption(g, e, us, b, a):
    if g.p(0.35):
        return {"o": "amend", "e": e, "which": g.r.randrange(40), "field": g.ch("bid", "ask", "datetime"), "val": g.r.randrange(60)}
    if g.p(0.2):
        return {"o": "execution", "e": e, "which": g.r.randrange(40), "how": g.ch(0, 0, 1, 2, 3), "val": g.r.randrange(60)}
    f = g.ch("bid", "ask", "datetime", "crossed")
    return {"o": "corrupt", "e": e, "us": us, "b": b, "a": a, "field": f, "form": g.ch(0, 1),
            "val": g.ch(1, 1, 2, 10, 1000) if f == "crossed" else g.r.randrange(60)}


def mistake(g, e):
    k = g.ch("zone", "frames", "frames", "strategy", "strategy", "rsi", "rsi", "rsi-ok", "rsi-used", "length", "length", "length", "direction")
    o = {"o": "mistake", "e": e, "kind": k, "val": g.r.randrange(60)}
    u = g.ch("SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "YEAR", "TICK")
    if k == "zone" and g.p(0.3):
        o["new"] = 1
    if k in ("frames", "strategy") and g.p(0.3):
        o["same"] = 1
    if k == "frames":
        o["unit"] = u
    if k == "rsi":
        o.update(ref=g.ch("rsi-x", "rsi-x", "rsi-y", "taken"), more=g.ch(0, 0, 1, 1000))
    if k == "rsi-used":
        o.update(unit=u, q=1 if u == "WEEK" else g.ch(*UNITS[u]) if u != "TICK" else g.ch(1, 3, 10))
    if k == "rsi-ok":
        o.update(unit=u, q=1 if u == "WEEK" else g.ch(*UNITS[u]) if u != "TICK" else g.ch(1, 3, 10), val=g.ch(1, 2, 3, 14))
    if k == "length":
        o.update(unit=u, val=g.ch(0, -1, -5, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 20, 24, 25, 30, 31, 45, 60, 61, 120, 360,
                                  g.r.randint(-70, 70)))
    return o


def disturb(g, pl, make, rate):
    """Inserts mistakes between operations, and in callbacks of strategies."""
    ops = []
    n = 0
    es = range(len(pl["cfg"]["epics"]))
    us, b, a = 0, 0, 0
    for o in pl["ops"]:
        ops.append(o)
        if o["o"] == "tick":
            us, b, a = o["us"], o["b"], o["a"]
        while g.p(rate):
            ops.append(dict(make(g, g.r.choice(es), us, b, a), id="m%d" % n))
            n += 1
    pl["ops"] = ops
    for k in sorted(pl["scripts"]):
        if g.p(rate * 2):
            x = make(g, 0, us, b, a)
            l = pl["scripts"][k]
            # the numbers of the other actions stay what they are
            l.insert(len(l) - (l[-1][0] == "raise"), ["do", {i: j for i, j in x.items() if i != "e"}])
    return pl


def p21(g):
    pl = trading(g, ["P21"], ns=(1, 2), ne=(1, 1, 2), fs=True, broker={"slow": 0.2}, rate=1.0, density=0.25, ticks=(10, 40),
                 mode={"gran": "jump", "gen": {"p": 0.05}}, dec4=0.3)
    fix = g.ch(0, 0.2, 0.6)
    for o in pl["ops"]:
        if o["o"] == "tick" and g.p(fix):
            o["fix"] = g.r.randint(1, 15)
    return disturb(g, pl, corruption, g.ch(0.1, 0.3, 0.5))


def p23(g):
    pl = trading(g, ["P23", "P06"], ns=(1, 2, 3), ne=(1, 1, 2), fs=True, broker={"slow": 0.2}, density=0.25, ticks=(6, 30),
                 mode={"gran": "jump", "gen": {"p": 0.05}})
    for e, c in enumerate(pl["cfg"]["epics"]):
        for f in c["fs"]:
            if g.p(0.5):
                f["max"] = g.ch(1, 2, 3, 5, 8, 20, 100)
            if g.p(0.5):
                n = g.ch(1, 2, 3, 5)
                f["inds"] = f["inds"] + [{"ref": "rsi9", "kind": "rsi", "moo": False, "n": n}]
                f["max"] = max(f["max"], n * f["q"], 2)
    zones(g, pl["cfg"]["epics"], pl["ops"])
    return disturb(g, pl, lambda g, e, *x: mistake(g, e), g.ch(0.2, 0.4, 0.6))


def p24(g):
    return frames_profile(g, ["P24"], None, ["user", "user", "candle"], 1, 3, maxes=(1, 2, 3, 5, 8, 20), moo=0.4)


def also(g, epics, feeds):
    """Some ticks are given to several instruments (of one time zone: see known finding KF3)."""
    twins = {e: [x for x, d in enumerate(epics) if x != e and (d["tz"], d["dec"]) == (c["tz"], c["dec"])] for e, c in enumerate(epics)}
    rate = g.ch(0, 0.1, 0.5)
    known = {e: [o["us"] for o in feeds if o["e"] == e] for e in twins}
    spans = {e: g.smallest(c["fs"]) for e, c in enumerate(epics)}
    for o in feeds:
        if twins[o["e"]] and g.p(rate):
            # far from the rest of its feed, a tick would make thousands of silent frames
            near = [e for e in twins[o["e"]] if spans[e] is None
                    or min((abs(o["us"] - u) for u in known[e]), default=1 << 62) < 200e6 * spans[e]]
            if near:
                o["also"] = near


def trading(g, cats, ns=(1, 2), ne=(1, 2), live=0.5, density=0.3, fs=False, mode=None, broker=None, kinds=None, cross=0.1, ticks=(15, 45), dec4=0.15,
            start_fail=0.0, drains=True, rate=0.5):
    ns_, ne_ = g.ch(*ns), g.ch(*ne)
    provs = [{"kind": "live" if g.p(live) else "bt"}]
    if ne_ > 1 and g.p(0.3):
        provs.append({"kind": "live" if g.p(live) else "bt"})
    epics, feeds = [], []
    for e in range(ne_):
        f = [g.frameset("f0", g.ch("MINUTE", "HOUR", "TICK"), inds=g.inds(["candle"], 0, 1))] if fs and g.p(0.6) else []
        ss = sorted(g.r.sample(range(ns_), g.r.randint(1, ns_)))
        c = g.epic(e, f, ss, g.r.randrange(len(provs)))
        if g.p(dec4):
            c["dec"] = 4
        if epics and g.p(0.3):
            c["tz"] = epics[0]["tz"]
            if feeds and g.p(0.7):
                c["near"] = feeds[0]["us"] + g.ch(0, 0, -1000, 30_000_000)
        epics.append(c)
        feeds += g.feed(c, e, g.n_ticks(*ticks), rate=rate, max_gap=20)
    feeds.sort(key=lambda o: (o["at"], o["e"]))
    also(g, epics, feeds)
    g.number(feeds)
    cfg = {"epics": epics, "strategies": market_strategies(g, ns_), "providers": provs}
    if broker:
        cfg["broker"] = broker
    if start_fail:
        cfg["start_fail"] = start_fail
    ops, scripts = add_trading(g, cfg, feeds, density, kinds, cross=cross)
    if drains:
        for i in range(g.ch(0, 0, 1, 2)):
            ops.insert(g.r.randrange(len(ops) + 1), {"o": "drain", "id": "d%d" % i})
    return g.plan(cats, cfg, ops, scripts, mode)


def closes(g, pl, rate):
    """One trade closed and revalued by several threads at the same time, maybe while a tick is delivered."""
    ops, scripts = pl["ops"], pl["scripts"]
    epics = pl["cfg"]["epics"]
    opened = []
    where = {}
    for path, acts in scripts.items():
        where.setdefault(path.split("/")[0], []).append((path, acts))
    out, n = [], 0
    for i, o in enumerate(ops):
        out.append(o)
        for path, acts in where.get(o.get("id"), []) + ([(o["id"], o["acts"])] if o["o"] == "act" else []):
            opened += ["%s/%d" % (path, j) for j, a in enumerate(acts) if a[0] in ("open", "nopen")]
        while opened and g.p(rate):
            t = opened[-1 - min(len(opened) - 1, int(g.r.expovariate(0.5)))]
            l = []
            for _ in range(g.ch(2, 2, 2, 3)):
                if l and g.p(0.25):
                    l.append(["upd", None if g.p(0.4) else "zero" if g.p(0.1) else g.r.randint(-300, 300)])
                else:
                    l.append(["close", g.ch(None, 1, 1, 2, 3, g.r.randint(1, 1000), 1_000_000), g.ch(0, 0, 1, 2)])
            if g.p(0.3):
                us = o.get("us", 0) + g.ch(0, -1000, 86_400_000_000)
                l[g.r.randrange(len(l))] = ["rclose", g.ch(None, 1, 2, g.r.randint(1, 1000), 1_000_000), g.r.randint(-200, 200), us]
            op = {"o": "closes", "id": "m%d" % n, "s": g.r.randrange(len(pl["cfg"]["strategies"])), "t": t, "list": l}
            n += 1
            if g.p(0.4):
                later = [x for x in ops[i:i + 4] if x["o"] == "tick"]
                if later:
                    x = g.r.choice(later)
                    op["tick"] = {"o": "tick", "e": x["e"], **{k: v for k, v in x.items() if k not in ("o", "e", "at", "id", "also", "again")}}
            if "tick" not in op:
                for x in l:
                    if x[0] == "close" and g.p(0.2):
                        x[2] = 3
            out.append(op)
    pl["ops"] = out
    return pl


def p09(g):
    several = g.p(0.2)
    pl = _p09(g, several)
    return closes(g, pl, 0.02 if g.long else 0.3) if several else pl


def _p09(g, several):
    return trading(g, ["P09"], ns=(1, 2, 3), ne=(1, 2, 2, 3), broker={"slow": 0.3, "raise": g.ch(0, 0.2), "refuse": g.ch(0, 0.3)}, mode=sched(g, light=not several), rate=0.8,
                   kinds={"open": 5, "close": 4, "closeall": 0.5, "nopen": 0.4, "feed": g.ch(0, 1), "upd": g.ch(0, 1), "rclose": g.ch(0, 0, 0.6)})


def p10(g):
    several = g.p(0.3)
    pl = _p10(g, several)
    return closes(g, pl, 0.02 if g.long else 0.3) if several else pl


def _p10(g, several):
    return trading(g, ["P10"], ns=(1, 2), broker={"slow": 0.5, "raise": 0.05, "refuse": 0.05}, mode=sched(g, light=not several),
                   kinds={"open": 3, "close": 6, "closeall": 0.7, "nopen": 0.3, "rclose": g.ch(0, 1, 2), "upd": g.ch(0, 1)})


def p11(g):
    pl = trading(g, ["P11"], ns=(1, 2, 3), ne=(1, 2, 2), live=0.0, broker={"slow": 0.3}, mode=sched(g, light=True),
                 kinds={"open": 6, "close": 1.5, "closeall": 0.3, "nopen": g.ch(0, 1), "upd": g.ch(0, 1)}, density=0.35, cross=0.25)
    return pl


def crowd(g, pl, rate):
    """Now and then, many trades at once."""
    epics = pl["cfg"]["epics"]
    if g.long or not g.p(rate):
        return pl
    n = g.ch(40, 70, 120, 160)
    side = pl["mode"].get("feeders") and g.p(0.6)
    if side:
        n = g.ch(40, 70, 120)
        if g.p(0.7):
            pl["cfg"].setdefault("broker", {})["slow"] = g.ch(0, 0.005, 0.02)
    done = False
    for j in range(len(epics) if side else g.ch(1, 1, 2)):
        ticks = [i for i, o in enumerate(pl["ops"]) if o["o"] == "tick" and epics[o["e"]]["strategies"] and (not side or o["e"] == j)]
        if not ticks:
            continue
        i = g.r.choice(ticks)
        o = pl["ops"][i]
        s = g.r.choice(epics[o["e"]]["strategies"])
        d = None if g.p(0.3) else g.ch("B", "S")
        acts = [["open", None, d or g.ch("B", "S"), g.r.randint(1, 5), g.ch(0, 1)] for _ in range(n if side else n // (j + 1))]
        if side:
            # next to one another, as the instruments are fed by different threads
            i = max(k for k in ticks if pl["ops"][k].get("at", 0) <= pl["ops"][ticks[len(ticks) // 2]].get("at", 0)) if g.p(0.5) else ticks[-1]
            o = pl["ops"][i]
        pl["ops"].insert(i + 1, {"o": "act", "id": "%s.crowd%d" % (o["id"], j), "s": s, "e": o["e"], "acts": acts})
        done = True
    if done:
        pl["mode"]["light"] = g.ch(7, 16)
    return pl


def sched(g, light=False, stall=True):
    """How the processor is shared in this run."""
    x = g.r.random()
    if light and x < 0.5:
        return {"gran": "jump", "gen": {"p": 0.1 if g.p(0.5) else 0, "pf": 0.5}}
    gran = "line" if x < 0.75 else ("instr" if not light else "line")
    p = g.ch(0.3, 0.1, 0.03, 0.01) if gran == "line" else g.ch(0.1, 0.03, 0.01, 0.003)
    gen = {"p": p, "pf": g.ch(0, 0.5, 1)}
    if g.p(0.45):
        # switches are frequent at a few places and rare elsewhere
        mod = g.ch(6, 12, 25)
        gen["focus"] = [g.ch("func", "line"), mod, g.r.randrange(mod)]
        gen["fp"] = g.ch(0.7, 0.4, 0.2)
        gen["p"] = g.ch(0.01, 0.002, 0)
    if stall and g.p(0.3):
        gen["pstall"] = g.ch(0.01, 0.003)
    return {"gran": gran, "gen": gen}


def p12(g):
    hang = g.ch(0, 0, 0.2)
    fail = g.ch(0, 0, 0.15)
    pl = trading(g, ["P12"], ns=(1, 2), ne=(1, 2), live=0.7, broker={"slow": 0.4, "raise": 0.15, "refuse": 0.1, "hang": hang}, start_fail=fail,
                   mode=sched(g, stall=False), ticks=(5, 18), density=0.5, drains=not hang)
    if g.p(0.3):
        pl["mode"]["exit"] = 1
    return crowd(g, pl, 0.02)


def p13(g):
    return trading(g, ["P13"], ns=(1, 2), ne=(1, 2), live=0.5, broker={"slow": 0.2, "raise": 0.05}, mode=sched(g), ticks=(5, 18), density=0.5)


def p14(g):
    if g.p(0.4):
        return p14_threads(g)
    fail = g.ch(0, 0, 0.15)
    pl = trading(g, ["P14"], ns=(1, 2), ne=(1, 2), live=0.7, broker={"slow": 0.5, "raise": 0.2, "refuse": 0.1}, start_fail=fail, mode=sched(g),
                 ticks=(5, 18), density=0.5)
    ops = []
    for i, o in enumerate(pl["ops"]):
        ops.append(o)
        if g.p(0.2):
            ops.append({"o": "wait", "id": "w%d" % i, "us": g.ch(0, 10, 1000, 1_000_000, 40_000_000)})
        if g.p(0.4):
            ops.append({"o": "busy", "id": "b%d" % i})
    pl["ops"] = ops
    return pl


def several(g, cats, ticks=(4, 14), live=0.5, density=0.45, broker=None, fs=0.7, kinds=None, ne=(2, 2, 3)):
    """Instruments fed side by side, each by its own thread."""
    ne = g.ch(*ne)
    provs = [{"kind": "live" if g.p(live) else "bt"}]
    if g.p(0.2):
        provs.append({"kind": "bt"})
    epics, ops, strategies = [], [], []
    close = g.p(0.5)
    share = g.p(0.3)
    for e in range(ne):
        f = []
        if g.p(fs):
            f.append(g.frameset("f0", g.ch("MINUTE", "HOUR", "TICK"), maxes=(2, 3, 20), inds=g.inds(["candle", "ha", "sma", "pivot"], 0, 2)))
        n = g.ch(1, 1, 2)
        ss = list(range(len(strategies), len(strategies) + n))
        strategies += [{"ref": "strat%d" % s} for s in ss]
        if share and e:
            ss = sorted(set(ss + [0])) if g.p(0.5) else [0]
        c = g.epic(e, f, ss, g.r.randrange(len(provs)))
        epics.append(c)
        fd = g.feed(c, e, g.n_ticks(*ticks), rate=0.4, max_gap=6)
        for i, o in enumerate(fd):
            o["id"] = "feed%d.t%d" % (e, i)
            # feeds run side by side
            o["at"] = 1000 + (0 if close else i if g.p(0.5) else o["at"] % 50)
        for a, b in zip(fd, fd[1:]):
            b["at"] = max(b["at"], a["at"])
        ops += fd
    cfg = {"epics": epics, "strategies": strategies, "providers": provs, "broker": broker or {}}
    kinds = dict(kinds or {"open": 5, "close": 4, "closeall": 0.5, "nopen": 0.5, "rclose": g.ch(0, 0.5)})
    if share:
        kinds["closeall"] = 0
    ops, scripts = add_trading(g, cfg, ops, density, kinds, own=True)
    sessions(g, epics, ops)
    m = sched(g)
    m["feeders"] = True
    m["full_every"] = 4
    return g.plan(cats, cfg, ops, scripts, m)


def p14_threads(g):
    """Several threads open and close on one broker while others watch it."""
    pl = several(g, ["P14"], ticks=(2, 6), live=0.6, density=0.7, fs=0, ne=(1, 2, 2, 3),
                 broker={"slow": g.ch(0.2, 0.5, 0.8), "raise": g.ch(0, 0.1), "hang": 0})
    ops = pl["ops"]
    for w in range(g.ch(0, 1, 1, 2)):
        for i in range(g.r.randint(2, 8)):
            ops.append({"o": "wait", "id": "watch%d.w%d" % (w, i), "us": g.ch(1, 10, 1000, 1000, 40_000), "th": "watch%d" % w})
            ops.append({"o": "poll", "id": "watch%d.p%d" % (w, i), "n": g.ch(1, 1, 3), "th": "watch%d" % w,
                        "at": 1000 if g.p(0.5) else 0})
    out = []
    for o in ops:
        out.append(o)
        if o["o"] == "tick" and g.p(0.4):
            out.append({"o": "poll", "id": o["id"] + ".p", "n": 1, "e": o["e"]})
    pl["ops"] = out
    return crowd(g, pl, 0.1)


def p15(g):
    pl = trading(g, ["P15", "P02", "P03", "P05", "P08", "P09", "P10", "P11"], ns=(1, 2), ne=(1, 2), live=0.0, fs=True, mode={"gran": "jump", "gen": {}},
                 ticks=(6, 22), density=0.35, broker={"slow": g.ch(0, 0.4)}, dec4=0,
                 kinds={"open": 5, "close": 4, "closeall": 0.5, "nopen": 0.4, "rclose": g.ch(0, 0.7), "feed": g.ch(0, 0.7)})
    modes = [sched(g) for _ in range(1 if g.long else g.ch(2, 3))]
    if g.long:
        for m in modes:
            m.update(gran="line", gen={"p": g.ch(0.01, 0.002), "pf": 0.3})
    pl["schedules"] = [{"mode": dict(pl["mode"], **m), "decisions": {}} for m in modes]
    return pl


def p16(g):
    return several(g, ["P16", "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P20"], live=0.33,
                   density=g.ch(0.45, 0.45, 0.8), broker={"slow": g.ch(0, 0.3), "raise": g.ch(0, 0.1), "refuse": g.ch(0, 0.1)})


def p25(g):
    b = {"slow": 0.4, "raise": g.ch(0, 0.1, 0.3), "refuse": g.ch(0.1, 0.3), "hang": 0}
    kinds = {"open": 5, "close": 5, "closeall": 0.5, "nopen": 0.4, "rclose": g.ch(0, 1), "upd": g.ch(0, 0.5)}
    if g.p(0.4):
        return several(g, ["P25"], ticks=(3, 8), live=0.6, density=0.6, fs=0, ne=(1, 2, 2, 3), broker=b, kinds=kinds)
    return trading(g, ["P25"], ns=(1, 2), ne=(1, 2), live=0.6, broker=b, start_fail=g.ch(0, 0, 0.1), mode=sched(g), ticks=(5, 18), density=0.5, kinds=kinds)


def p17(g):
    pl = trading(g, ["P17", "P01", "P02", "P03", "P05", "P08", "P09", "P10", "P20"], ns=(1, 2, 3), ne=(1, 2), live=0.6, fs=True,
                 broker={"slow": 0.2, "raise": g.ch(0, 0.2, 0.5), "refuse": 0.1}, mode=sched(g, light=True), ticks=(8, 30),
                 kinds={"open": 4, "close": 3, "closeall": 0.3, "raise": g.ch(1, 2, 4), "feed": g.ch(0, 0.7)}, density=0.3, dec4=0)
    return pl


REFS = [None, None, "plain", "with, comma", "quo\"te", "line\nbreak", "crlf\r\nhere", "é漢字🙂", "'single'", " lead and trail ", "=1+1", "a;b\tc",
        ",", "\"", "\n", "\"\"", "0"]


def reporting(g, cats, faults):
    g.may_be_long = False
    pl = trading(g, cats, ns=(1, 2, 3), ne=(1, 2), live=0.5, broker={"slow": 0.3, "raise": 0.1}, mode={"gran": "jump", "gen": {"p": 0.05}},
                 ticks=(3, 20), density=0.5, dec4=0, drains=False)
    cfg = pl["cfg"]
    rate = g.ch(0.02, 0.1, 0.3) if faults else 0
    kinds = ["open", "meta", "write", "close"]
    cfg["disk"] = {k: rate for k in kinds if not faults or g.p(0.7)}
    for i, s in enumerate(cfg["strategies"]):
        if g.p(0.3) and sum(x["ref"] == s["ref"] for x in cfg["strategies"]) == 1:
            s["ref"] = g.ch("str,at", "s\"q\"", "été", "my strat", "x_y-z", "", "") + str(i)
    if g.p(0.3):
        cfg["disk"]["slow"] = g.ch(0.05, 0.3)
    for acts in list(pl["scripts"].values()) + [o["acts"] for o in pl["ops"] if o["o"] == "act"]:
        for a in acts:
            if a[0] == "open" and g.p(0.5):
                a[5:] = [g.ch(*REFS)]
    ops = []
    n = 0
    ns = len(cfg["strategies"])
    wall = pl["wall"]

    def report():
        nonlocal n
        n += 1
        ss = sorted(g.r.sample(range(ns), g.r.randint(1, ns) if not g.p(0.03) else 0))
        return {"o": "report", "id": "r%d" % n, "dir": g.ch("out", "out", "out/sub", "other"), "strats": ss, "details": g.p(0.75)}

    def clock():
        nonlocal wall
        wall += g.ch(0, 0, 1, 999_999, 1_000_000, 5_000_000, -1_000_000, -3_600_000_000, 86400_000_000)
        return {"o": "clock", "id": "c%d" % n, "us": wall}

    several = g.p(0.3)
    if several:
        pl["mode"]["gen"] = {"p": g.ch(0.05, 0.2, 0.5), "pf": 0.5}
        one = report

        def report():  # noqa: F811
            if not g.p(0.6):
                return one()
            l = [one() for _ in range(g.ch(2, 2, 3))]
            if g.p(0.8):
                for x in l:
                    x["dir"] = l[0]["dir"]
            return {"o": "reports", "id": "p%d" % n, "list": l}

    every = g.ch(0.1, 0.2, 0.4)
    for o in pl["ops"]:
        ops.append(o)
        if g.p(every):
            for _ in range(g.ch(1, 1, 2)):
                if g.p(0.7):
                    ops.append(clock())
                ops.append(report())
    for _ in range(g.ch(1, 2, 3)):
        ops.append(clock())
        ops.append(report())
    for i, o in enumerate(ops):
        if o["o"] == "clock":
            o["id"] = "c%d" % i
    pl["ops"] = ops
    crowd(g, pl, 0.03)
    return pl


def p18(g):
    return reporting(g, ["P18"], g.p(0.7))


def p19(g):
    return reporting(g, ["P19"], g.p(0.8))


def p20(g):
    pl = trading(g, ["P20"], kinds={"open": 5, "close": 4, "closeall": 0.5, "nopen": 0.3, "rclose": g.ch(0, 1), "feed": g.ch(0, 0.5)}, ns=(1, 2, 3), ne=(1, 2, 3), live=0.5, broker={"slow": 0.3, "raise": 0.1}, mode=sched(g, light=True), density=0.35, dec4=0,
                 cross=0.2)
    ops = []
    ns = len(pl["cfg"]["strategies"])
    for i, o in enumerate(pl["ops"]):
        ops.append(o)
        if g.p(0.005 if g.long else 0.15):
            ops.append({"o": "query", "id": "q%d" % i, "s": g.r.randrange(ns)})
    pl["ops"] = ops
    return pl


PROFILES = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P06": p06, "P07": p07, "P08": p08, "P09": p09, "P10": p10,
            "P11": p11, "P12": p12, "P13": p13, "P14": p14, "P15": p15, "P16": p16, "P17": p17, "P18": p18, "P19": p19, "P20": p20, "P21": p21, "P23": p23, "P24": p24, "P25": p25}


CROWDS = {"P09": 0.01, "P10": 0.01, "P11": 0.01, "P13": 0.02, "P14": 0.02, "P16": 0.01, "P17": 0.01, "P20": 0.015, "P25": 0.02}


def make(prop, seed, tier="quick"):
    g = Gen(prop, seed, tier)
    pl = PROFILES[prop](g)
    if prop in CROWDS and not any("crowd" in o["id"] for o in pl["ops"]):
        crowd(g, pl, CROWDS[prop])
    return pl
