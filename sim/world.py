"""Executes one plan: the real library inside the simulator, next to the model.

A plan is a JSON object: configuration, operations, strategy scripts and a decision
table (schedule, broker and disk faults).  Executing it is a pure function of the plan
and of the code under test.
"""
import copy
import hashlib
import itertools
import logging
import os
import shutil
import tempfile
from datetime import datetime as RealDT, date as RealDate, timedelta
from zoneinfo import ZoneInfo

from . import env, disk as diskmod
from .kernel import Deadlock, Kernel, SimAbort, StepLimit, hash_str
from .model import (BASE, EPS, MEpic, MStrategy, MTick, MTrade, local,
                    parse_time)
from .mistakes import MistakesMixin
from .reports import ReportsMixin
from .views import ViewsMixin, us_of

FOREVER = 10 ** 15  # us: a broker that never answers


class Violation(BaseException):
    def __init__(self, cat, msg):
        BaseException.__init__(self, cat, msg)
        self.cat, self.msg = cat, msg


class _LogSink(logging.Handler):
    """A program which keeps the log of the library."""

    def __init__(self, world):
        logging.Handler.__init__(self)
        self.world = world

    def createLock(self):
        self.lock = None

    def handle(self, record):
        record.getMessage()
        self.world.log_lines += 1


class ScriptError(Exception):
    """Raised by a strategy callback (injected fault)."""


class BrokerError(Exception):
    """Raised by a broker request (injected fault)."""


def _flavours(base, kinds):
    """The errors a user's code meets: each also is an injected fault of ours."""
    out = {}
    for k in kinds:
        out[k.__name__] = base if k is Exception else type(base.__name__ + k.__name__, (base, k), {})
    return out


SCRIPT_KINDS = _flavours(ScriptError, [
    Exception, ZeroDivisionError, OverflowError, ArithmeticError, ValueError, TypeError, KeyError, IndexError, LookupError, AttributeError,
    RuntimeError, NotImplementedError, RecursionError, StopIteration, AssertionError, OSError, ConnectionError, TimeoutError, MemoryError,
    UnicodeError, NameError])
BROKER_KINDS = _flavours(BrokerError, [
    Exception, ConnectionError, TimeoutError, OSError, ValueError, TypeError, KeyError, RuntimeError, NotImplementedError, StopIteration,
    AssertionError, MemoryError, SystemExit, KeyboardInterrupt])
EPIC_KINDS = ["EpicException", "TradeException", "TickException"]


def script_error(kind):
    if kind in EPIC_KINDS and kind not in SCRIPT_KINDS:
        from estrade import exceptions
        SCRIPT_KINDS.update(_flavours(ScriptError, [getattr(exceptions, kind)]))
    return SCRIPT_KINDS[kind]


class Ctx:
    """One delivery of a tick."""

    __slots__ = ("op", "e", "tick", "todo", "kinds", "queue", "got", "raised", "error", "adopted")

    def __init__(self, op, e, tick, todo=(), kinds=()):
        self.op, self.e, self.tick = op, e, tick
        self.todo, self.kinds, self.queue = list(todo), kinds, []
        self.got = []
        self.raised = self.error = None
        self.adopted = False


_classes = {}


def classes():
    if _classes:
        return _classes
    import estrade
    from estrade import BaseStrategy
    from estrade.trade_provider import BaseTradeProvider, TradeProviderBacktests

    class SimStrategy(BaseStrategy):
        def __init__(self, world, idx, ref):
            BaseStrategy.__init__(self, ref=ref)
            self._w, self._i = world, idx

        def on_every_tick(self, epic):
            self._w.hook(self._i, "T", epic)

        def on_every_tick_market_open(self, epic):
            self._w.hook(self._i, "M", epic)

        def on_market_open(self, epic):
            self._w.hook(self._i, "O", epic)

        def on_market_close(self, epic):
            self._w.hook(self._i, "C", epic)

    class LiveBroker(BaseTradeProvider):
        def __init__(self, world, idx, ref):
            BaseTradeProvider.__init__(self, ref=ref)
            self._w, self._i = world, idx

        def open_trade_request(self, trade):
            return self._w.request(self._i, "open", trade, None)

        def close_trade_request(self, trade_close):
            return self._w.request(self._i, "close", trade_close, None)

    class BacktestBroker(TradeProviderBacktests):
        def __init__(self, world, idx, ref):
            TradeProviderBacktests.__init__(self, ref=ref)
            self._w, self._i = world, idx

        def open_trade_request(self, trade):
            return self._w.request(self._i, "open", trade,
                                   lambda: TradeProviderBacktests.open_trade_request(self, trade))

        def close_trade_request(self, trade_close):
            return self._w.request(self._i, "close", trade_close,
                                   lambda: TradeProviderBacktests.close_trade_request(self, trade_close))

    from estrade.graph.base_indicator import BaseIndicator, BaseIndicatorValue
    from estrade.tick_provider import BaseTickProvider

    class UserValue(BaseIndicatorValue):
        """What a user writes to have an indicator of their own."""

        def __init__(self, indicator, frame):
            BaseIndicatorValue.__init__(self, indicator=indicator, frame=frame)
            self.calls = []

        def on_new_tick(self, tick, market_open):
            BaseIndicatorValue.on_new_tick(self, tick, market_open)
            self.calls.append((tick, market_open))

    class UserIndicator(BaseIndicator):
        def __init__(self, **kw):
            BaseIndicator.__init__(self, value_class=UserValue, **kw)
            self.built = []  # (frame, first tick, value)

        def build_value_from_frame(self, frame, epic_market_open):
            v = BaseIndicator.build_value_from_frame(self, frame, epic_market_open)
            if v is not None:
                self.built.append((frame, frame.last_tick, v))
            return v

    class Feed(BaseTickProvider):
        pass

    _classes.update(Feed=Feed, UI=UserIndicator, estrade=estrade, S=SimStrategy, L=LiveBroker, B=BacktestBroker)
    return _classes


class World(ViewsMixin, ReportsMixin, MistakesMixin):
    def __init__(self, plan, prop, rng=None, keep_log=False):
        self.plan = plan
        self.prop = prop
        self.cats = set(plan["cats"])
        self.rng = rng
        self.mode = plan["mode"]
        self.dec = plan.setdefault("decisions", {})
        self.log = []
        self.plog = []  # schedule independent part
        self.keep_log = keep_log
        self.violation = None
        self.probes = {}
        self.faults = {}
        self.requests = []  # [provider, kind, obj, ended, snapshot]
        self.expected_requests = []  # (provider, kind, obj, launched)
        self.closed_books = False
        self.start_ctx = {}  # sim thread name -> [failed starts] while acting on a live broker
        self.scratch = None
        self.tainted = set()
        self.files = {}
        self.k = None
        self.callers = {"main"}  # threads of the program, as opposed to those of brokers
        self.op_done = 0
        self.log_lines = 0
        self.keep_refused = []  # configuration that was refused: (frame set, strategy)
        self.given_refs = set()
        self.told = {}  # instrument -> ticks it was given: (tick, instant, zone shown)
        self.records = {}  # id(trade or close) -> what must be recorded on it
        self.light, self.light_n = self.mode.get("light", 0), 0
        self.first_us = self.last_us = None

    # ------------------------------------------------------------------ helpers
    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def on(self, *cats):
        return not self.cats.isdisjoint(cats)

    def fail(self, cat, msg):
        if self.violation is None:
            self.violation = (cat, msg)
        raise Violation(cat, msg)

    def ensure(self, cond, cat, msg, *args):
        if not cond:
            self.fail(cat, msg % args if args else msg)

    def ev(self, *a):
        self.log.append(a)

    def pv(self, *a):
        self.plog.append(a)

    # -------------------------------------------------------------------- build
    def build(self):
        C = classes()
        cfg = self.plan["cfg"]
        from estrade import Epic

        self.providers = []
        for i, p in enumerate(cfg["providers"]):
            cls = C["B"] if p["kind"] == "bt" else C["L"]
            self.providers.append(cls(self, i, "broker%d" % i))
        self.R_strats = [C["S"](self, i, s["ref"]) for i, s in enumerate(cfg["strategies"])]
        self.M_strats = [MStrategy(i) for i, s in enumerate(cfg["strategies"])]
        self.R_epics, self.M_epics = [], []
        for i, e in enumerate(cfg["epics"]):
            kw = {}
            if e["days"] is not None:
                kw["trade_days"] = list(e["days"])
            if e["holidays"]:
                kw["holidays"] = [RealDate.fromisoformat(h) for h in e["holidays"]]
            r = self.call("build", lambda: Epic(
                timezone=e["tz"], open_time=parse_time(e["open"]), close_time=parse_time(e["close"]),
                trade_provider=self.providers[e["provider"]], ref=e["ref"], **kw))
            self.R_epics.append(r)
            m = MEpic(e, i)
            self.M_epics.append(m)
            for f in e["fs"]:
                self.attach_fs(i, f)
            for s in e["strategies"]:
                self.call("build", lambda: r.add_strategy(self.R_strats[s]))
        self.feed = C["Feed"](self.R_epics)
        self.given = {}  # tick objects which may be delivered again
        self.twins = len({e["ref"] for e in cfg["epics"]}) < len(cfg["epics"])
        if self.twins:
            self.probe("instruments of one reference")
        self.flux = None  # a trade which several threads are closing
        # strategies used by several threads at once
        self.shared = {s for s in range(len(cfg["strategies"])) if self.mode.get("feeders")
                       and sum(s in e["strategies"] for e in cfg["epics"]) > 1}
        self.e_of = {id(r): i for i, r in enumerate(self.R_epics)}
        self.running = [None] * len(self.R_epics)
        self.m_trades = []  # every trade in the books, in order of registration
        self.by_aid = {}
        self.real = {}  # trade tid -> real Trade
        self.closes = {}  # tid -> [real TradeClose]
        self.raw_closes = set()  # ids of those made without a broker
        self.known = {}  # id(real trade) -> MTrade

    def attach_fs(self, i, f):
        from estrade.graph import FrameSet
        from estrade.enums import Unit

        r = self.R_epics[i]
        fs = FrameSet(unit=getattr(Unit, f["unit"]), unit_quantity=f["q"], ref=f["ref"],
                      max_frames_in_memory=f["max"])
        late = [x for x in f["inds"] if x.get("late")]
        for ind in f["inds"]:
            if not ind.get("late"):
                fs.add_indicator(self.make_ind(ind))
        self.call("build", lambda: r.add_frame_set(fs))
        mfs = self.M_epics[i].attach(dict(f, inds=[x for x in f["inds"] if not x.get("late")]))
        mfs.late = late
        mfs.ha_seen = {}
        mfs.snap = {}
        return mfs

    def make_ind(self, ind):
        from estrade.enums import CandleType, PivotType
        from estrade.graph import CandleSet, Pivot, RSI, SimpleMovingAverage

        kw = {"ref": ind["ref"], "market_open_only": ind["moo"]}
        k = ind["kind"]
        if k == "user":
            return classes()["UI"](**kw)
        if k == "candle":
            return CandleSet(candle_type=CandleType.CLASSIC, **kw)
        if k == "ha":
            return CandleSet(candle_type=CandleType.HEIKIN_ASHI, **kw)
        if k == "pivot":
            return Pivot(pivot_type=PivotType.CLASSIC, **kw)
        if k == "olhc":
            return Pivot(pivot_type=PivotType.OLHC, **kw)
        if k == "sma":
            return SimpleMovingAverage(max_periods=ind["n"], **kw)
        if k == "rsi":
            return RSI(periods=ind["n"], **kw)
        raise ValueError(k)

    # ------------------------------------------------------------ calling the code
    def call(self, what, fn, allow=()):
        try:
            return fn()
        except (Violation, SimAbort, diskmod.SimCrash):
            raise
        except allow:
            raise
        except StepLimit as e:
            self.fail("progress", "%s does not terminate: %s" % (what, e))
        except Deadlock as e:
            self.fail("progress", "%s never returns: %s" % (what, e))
        except BaseException as e:
            if self.violation is not None:
                raise
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            at = [f for f in tb if os.sep + "estrade" + os.sep in f.filename]
            where = " at %s:%s" % (os.path.basename(at[-1].filename), at[-1].name) if at else ""
            self.fail("unexpected", "%s raised %s: %s%s" % (what, type(e).__name__, e, where))

    # ---------------------------------------------------------------------- run
    def run(self):
        plan = self.plan
        gran = self.mode.get("gran")
        k = self.k = Kernel(self.dec, self.rng, self.mode.get("gen"))
        k.step_limit = {None: 400000, "jump": 400000, "line": 1000000, "instr": 3000000}[gran]
        env.activate(k, plan["entropy"], plan.get("wall"), plan.get("machine", "UTC"))
        env.HOOK_START = self._on_start
        env.focus((self.mode.get("gen") or {}).get("focus") if self.rng is not None else None)
        if self.plan["cfg"].get("disk") is not None:
            self.scratch = os.path.realpath(tempfile.mkdtemp(prefix="dst-", dir=SCRATCH_ROOT))
            self.disk = diskmod.Disk(self.scratch, self.plan["cfg"]["disk"])
            env.DISK = self.disk
        else:
            self.disk = None
        error = None
        sink = None
        if self.mode.get("log"):
            sink, logger = _LogSink(self), logging.getLogger("estrade")
            logger.addHandler(sink)
            logger.setLevel(logging.DEBUG)
            logging.disable(logging.NOTSET)
        try:
            try:
                env.granularity(gran)
                self.build()
                ops = plan["ops"]
                if self.mode.get("feeders"):
                    self._run_feeders(ops)
                else:
                    for op in ops:
                        self.execute(op)
                        if self.violation:
                            break
                if not self.violation:
                    self.finish()
            except Violation:
                pass
            except StepLimit as e:
                if self.violation is None:
                    self.violation = ("progress", str(e))
            except Deadlock as e:
                if self.violation is None:
                    self.violation = ("progress", str(e))
            if self.violation is None:
                for t in k.threads:
                    if t.exc is None or isinstance(t.exc, (Violation, BrokerError, SimAbort)):
                        continue
                    self.violation = ("request thread", "%s ended with %s: %s" % (
                        t.name, type(t.exc).__name__, t.exc))
                    break
        except (OSError, MemoryError, KeyboardInterrupt) as e:
            error = e
        except Exception as e:
            # what the code shows cannot even be compared with the model
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-4:]
            if self.violation is None:
                self.violation = ("observation", "%s: %s (%s)" % (type(e).__name__, e, " > ".join(
                    "%s:%s" % (os.path.basename(f.filename), f.name) for f in tb)))
        except BaseException as e:
            error = e
        finally:
            try:
                env.granularity(None)
                k.no_preempt = 0
                k.shutdown()
            finally:
                if sink is not None:
                    logger.removeHandler(sink)
                    logger.setLevel(logging.NOTSET)
                    logging.disable(logging.CRITICAL)
                    self.probe("log records formatted", self.log_lines)
                env.deactivate()
                if self.scratch:
                    shutil.rmtree(self.scratch, ignore_errors=True)
        if error is not None:
            raise error
        return self.result()

    def result(self):
        h = hashlib.sha1(repr(self.log).encode("utf-8", "backslashreplace")).hexdigest()
        k = self.k
        for n, c in (self.disk.counts.items() if self.disk else ()):
            self.fault("disk." + n, c)
        return {
            "violation": None if self.violation is None else
            {"cat": self.violation[0],
             "msg": str(self.violation[1]).replace(self.scratch or "\0", "<scratch>")[:600]},
            "log_hash": h,
            "sched_hash": k.sched_hash,
            "events": len(self.log),
            "sim_us": k.now,
            "feed_us": 0 if self.first_us is None else self.last_us - self.first_us,
            "stats": dict(k.stats),
            "probes": self.probes,
            "faults": self.faults,
            "threads": len(k.threads),
            "ops": self.op_done,
        }

    def _run_feeders(self, ops):
        k = self.k
        per = {}
        for op in ops:
            per.setdefault(op.get("th", "feed%d" % op.get("e", 0)), []).append(op)
        ts = []

        def feeder(lst):
            def f():
                for op in lst:
                    if self.violation:
                        return
                    self.execute(op)
            return f

        self.callers |= set(per)
        for e in sorted(per):
            ts.append(k.spawn(feeder(per[e]), e))
        for t in ts:
            k.join(t)

    # --------------------------------------------------------------- operations
    def execute(self, op):
        k = self.k
        at = op.get("at")
        if at is not None:
            k.sleep_until(at)
        self.op_done += 1
        old = k.begin(op["id"])
        try:
            getattr(self, "op_" + op["o"])(op)
        finally:
            k.end(old)

    def op_wait(self, op):
        self.k.sleep(op["us"])

    def op_clock(self, op):
        env.set_wall(op["us"])
        self.fault("clock.jump")

    def op_attach_fs(self, op):
        self.attach_fs(op["e"], op["fs"])
        self.probe("late frameset")

    def op_session(self, op):
        """The program changes trading hours or holidays between two ticks."""
        r, m = self.R_epics[op["e"]], self.M_epics[op["e"]]
        if "open" in op:
            r.open_time, r.close_time = m.open_t, m.close_t = parse_time(op["open"]), parse_time(op["close"])
        if "days" in op:
            if "place" in op:
                r.trade_days[:] = op["days"]
            else:
                r.trade_days = list(op["days"])
            m.days = list(op["days"])
        if "holiday" in op:
            d = RealDate.fromisoformat(op["holiday"])
            if "place" in op:
                r.holidays.append(d)
            else:
                r.holidays = list(r.holidays) + [d]
            m.holidays.add(d)
        self.probe("trading hours changed")

    def op_zone(self, op):
        """The program changes the time zone of an instrument between two ticks."""
        self.R_epics[op["e"]].timezone = op["tz"]
        m = self.M_epics[op["e"]]
        m.zone = ZoneInfo(op["tz"])
        self.probe("time zone changed")

    def op_attach_ind(self, op):
        m = self.M_epics[op["e"]]
        for mfs in m.framesets:
            if mfs.ref == op["fs"]:
                break
        else:
            return
        ind = op["ind"]
        if ind["ref"] in mfs.inds:
            return
        rfs = self.R_epics[op["e"]].frame_sets[op["fs"]]
        self.call("add_indicator", lambda: rfs.add_indicator(self.make_ind(ind)))
        mfs.inds[ind["ref"]] = ind
        self.probe("late indicator")

    def make_tick(self, op):
        from estrade import Tick
        import arrow
        import dateutil.tz

        dec = self.M_epics[op["e"]].cfg["dec"]
        dt = BASE + timedelta(microseconds=op["us"])
        tz = op.get("tz", "UTC")
        form = op.get("form", 0)
        bid, ask = op["b"] / 10 ** dec, op["a"] / 10 ** dec
        if form == 0:
            d = arrow.get(dt).to(tz)
        else:
            d = dt.astimezone(dateutil.tz.gettz(tz))
        if dec == 0 or op["b"] % 10 ** dec == 0 and op["a"] % 10 ** dec == 0 and op["us"] % 2:
            bid, ask = op["b"] // 10 ** dec, op["a"] // 10 ** dec
        kw = dict({"meta": {"id": op["meta"]}} if "meta" in op else {}, datetime=d, bid=bid, ask=ask)
        t = self.provisional(op, kw) if op.get("fix") else self.call("Tick", lambda: Tick(**kw))
        if self.on("P21"):
            self.check_tick(t, kw, dec)
        return t

    def op_tick(self, op, tick=None):
        from estrade.exceptions import EpicException

        e = op["e"]
        m = self.M_epics[e]
        r = self.R_epics[e]
        if not self.twins:
            x = self.call("get_epic_by_ref", lambda: self.feed.get_epic_by_ref(m.cfg["ref"]))
            self.ensure(x is r, "P01", "the tick provider gives another instrument for %s", m.cfg["ref"])
        if tick is None:
            key = (e, op["us"], op["b"], op["a"])
            if op.get("again") and key in self.given:
                self.probe("tick object delivered again")
                tick = self.given[key]
            else:
                tick = self.make_tick(op)
                if op.get("again"):
                    self.given[key] = tick
        dec = m.cfg["dec"]
        mt = MTick(op["us"], op["b"], op["a"], dec, tick.value, op["id"])
        mt.meta = tick.meta.get("id")
        if self.on("P01"):
            mid = (mt.bid + mt.ask) / 2
            self.ensure(abs(mt.value - mid) < 0.0101, "P01", "tick value %r far from its mid price", tick.value)
        accepted = m.accepts(op["us"])
        self.ev("deliver", op["id"], e, op["us"], op["b"], op["a"])
        if self.first_us is None:
            self.first_us = self.last_us = op["us"]
        self.first_us, self.last_us = min(self.first_us, op["us"]), max(self.last_us, op["us"])
        if not accepted:
            self.probe("tick rejected")
            ctx = Ctx(op["id"], e, None)
            self.running[e] = ctx
            try:
                self.call("on_new_tick of a late tick", lambda: r.on_new_tick(tick), allow=(EpicException,))
            except EpicException:
                pass
            else:
                if self.on("P01"):
                    self.fail("P01", "late tick %s was accepted" % op["id"])
                self.fail("feed", "late tick %s was accepted" % op["id"])
            finally:
                self.running[e] = None
            self.k.no_preempt += 1
            try:
                if self.on("P01"):
                    self.ensure(not ctx.got, "P01", "strategies notified of the rejected tick %s", op["id"])
                    self.check_last(e)
                    self.check_frames(e, not self.light, "P01")
                self.check_trades_of_epic(e)
            finally:
                self.k.no_preempt -= 1
            self._also(op, tick)
            return
        before, is_open = m.on_tick(mt)
        if before != is_open:
            self.probe("market opens" if is_open else "market closes")
        self._model_probes(m)
        for t in self.m_trades:
            if t.e == e and t is not self.flux:
                t.update(mt)
        kinds = []
        if before != is_open:
            kinds.append("O" if is_open else "C")
        if is_open:
            kinds.append("M")
        kinds.append("T")
        ctx = Ctx(op["id"], e, mt, m.strategies, kinds)
        self.running[e] = ctx
        try:
            try:
                self.call("on_new_tick", lambda: r.on_new_tick(tick), allow=(ScriptError,))
            except ScriptError as x:
                if x is not ctx.error:
                    self.fail("P17", "the error raised is not the one of the strategy")
                self.probe("callback error delivered")
            else:
                if ctx.raised is not None and self.on("P17", "P08"):
                    self.fail("P17", "the error raised by a strategy was lost")
        finally:
            self.running[e] = None
        self.after_tick(e, ctx)
        self._also(op, tick)

    def _also(self, op, tick):
        """The same tick object, given to other instruments."""
        for i, e in enumerate(op.get("also", ())):
            if self.running[e] is None:
                self.probe("tick given to several instruments")
                o = dict(op, e=e, id="%s+%d" % (op["id"], e))
                o.pop("also")
                old = self.k.begin(o["id"])
                try:
                    self.op_tick(o, tick)
                finally:
                    self.k.end(old)

    def act_feed(self, aid, s, e0, a):
        """A strategy feeds another instrument from its callback."""
        e = a[1]["e"]
        if self.running[e] is None:
            self.probe("tick delivered by a strategy")
            self.op_tick(dict(a[1], id=aid))

    def _model_probes(self, m):
        for fs in m.framesets:
            nf = fs.new_frames
            if len(nf) > 1:
                self.probe("gap filled", len(nf) - 1)
            if nf and len(fs.frames) > fs.max:
                self.probe("frame evicted")
            for f in nf:
                if f.end is not None and local(f.start, m.zone).utcoffset() != local(f.end, m.zone).utcoffset():
                    self.probe("frame across clock change")

    def after_tick(self, e, ctx):
        self.k.no_preempt += 1
        try:
            if self.violation:
                raise Violation(*self.violation)
            if self.on("P08"):
                if ctx.raised is None:
                    exp = self.next_notification(ctx)
                    self.ensure(exp is None, "P08", "tick %s: notified %r, and not %r", ctx.op, ctx.got, exp)
            if self.on("P25"):
                self.check_records()
            self.adopt(e, ctx)
            self.check_view(e, ctx, final=True)
        finally:
            self.k.no_preempt -= 1

    # -------------------------------------------------------------------- hooks
    def next_notification(self, ctx):
        """The one which is due now: a strategy may be stopped by the one before it."""
        while not ctx.queue and ctx.todo:
            s = ctx.todo.pop(0)
            if self.M_strats[s].active(ctx.tick.us):
                ctx.queue = [(s, kind) for kind in ctx.kinds]
            else:
                self.probe("strategy inactive")
        return ctx.queue.pop(0) if ctx.queue else None

    def hook(self, s, kind, epic):
        if self.k is None or self.violation:
            return
        e = self.e_of.get(id(epic))
        if e is None:
            self.fail("P08", "strategy notified by an unknown instrument")
        if s >= 1000:
            self.fail("P23", "a refused strategy is notified by %s" % self.M_epics[e].cfg["ref"])
        ctx = self.running[e]
        if ctx is None:
            self.fail("P08", "strategy %d notified although no tick is being delivered" % s)
        n = len(ctx.got)
        ctx.got.append((s, kind))
        self.ev("notify", ctx.op, s, kind)
        self.pv("notify", ctx.op, s, kind)
        if ctx.tick is None:
            if self.on("P01", "P08"):
                self.fail("P01", "strategy %d notified of the rejected tick %s" % (s, ctx.op))
            return
        if ctx.raised is None:
            exp = self.next_notification(ctx)
            if self.on("P08"):
                self.ensure(exp == (s, kind), "P08", "tick %s: notification %d is %r, expected %r", ctx.op, n + 1, (s, kind), exp)
        self.k.no_preempt += 1
        try:
            self.adopt(e, ctx)
            self.check_view(e, ctx, final=False)
        finally:
            self.k.no_preempt -= 1
        script = self.plan["scripts"].get("%s/%d/%s" % (ctx.op, s, kind))
        if script:
            base = "%s/%d/%s" % (ctx.op, s, kind)
            for i, a in enumerate(script):
                if a[0] == "raise":
                    ctx.raised = base
                    self.fault("callback raises")
                    self.ev("raise", base)
                    kind = a[1] if len(a) > 1 else "Exception"
                    ctx.error = script_error(kind)(base)
                    raise ctx.error
                self.act("%s/%d" % (base, i), s, e, a)

    def op_act(self, op):
        for i, a in enumerate(op["acts"]):
            self.act("%s/%d" % (op["id"], i), op["s"], op["e"], a)

    # ------------------------------------------------------------------- actions
    def act(self, aid, s, e, a):
        k = self.k
        old = k.begin(aid)
        try:
            getattr(self, "act_" + a[0])(aid, s, e, a)
        finally:
            k.end(old)

    def act_pause(self, aid, s, e, a):
        import arrow

        self.R_strats[s].paused_until = arrow.get(BASE + timedelta(microseconds=a[1])).to(a[2])
        self.M_strats[s].until = a[1]
        self.probe("strategy paused")

    def act_resume(self, aid, s, e, a):
        self.R_strats[s].paused_until = None
        self.M_strats[s].until = None

    def act_stop(self, aid, s, e, a):
        self.R_strats[s].stopped = True
        self.M_strats[s].stopped = True

    def act_restart(self, aid, s, e, a):
        self.R_strats[s].stopped = False
        self.M_strats[s].stopped = False

    def live(self, p):
        return self.plan["cfg"]["providers"][p]["kind"] == "live"

    def _on_start(self, name, thread):
        ctx = self.start_ctx.get(self.k.cur.name)
        if ctx is None:
            return False
        rate = self.plan["cfg"].get("start_fail", 0)
        if not rate:
            return False
        d = self.k.decide("start:" + name, lambda rng: 1 if rng.random() < rate else None)
        if d:
            ctx.append(name)
            self.fault("thread not started")
            self.ev("start-fail", name)
            return True
        return False

    def broker_call(self, aid, p, fn):
        """Calls the library for one operation; returns (value, error, failed starts)."""
        k = self.k
        me = k.cur
        fails = []
        if self.live(p):
            self.start_ctx[me.name] = fails
        b0, j0 = me.blocked_us, me.joined
        try:
            try:
                v, err = self.call("operation %s" % aid, fn, allow=(RuntimeError,)), None
            except RuntimeError as x:
                if not fails:
                    self.fail("unexpected", "operation %s raised RuntimeError: %s" % (aid, x))
                v, err = None, x
        finally:
            self.start_ctx.pop(me.name, None)
        if self.on("P12"):
            self.ensure(me.blocked_us == b0 and me.joined == j0, "P12",
                        "operation %s waited for the broker (%d us)", aid, me.blocked_us - b0)
        return v, err, fails

    def act_open(self, aid, s, e0, a):
        from estrade.enums import TradeDirection

        _, e, d, qty, via = a[:5]
        if e is None:
            e = e0
        m = self.M_epics[e]
        tick = m.last
        if tick is None:
            return
        p = m.provider
        live = self.live(p)
        # --- model
        left = qty
        netted = []
        if not live:
            for t in reversed(self.m_trades):
                if t.e == e and t.s == s and t.direction != d and not t.closed:
                    q = min(t.opened, left)
                    netted.append((t, q))
                    left -= q
                    if left <= 0:
                        break
            for t, q in netted:
                t.close(tick, q)
                self.probe("netting")
            if len(netted) > 1:
                self.probe("netting several trades")
        mt = None
        if left > 0:
            mt = MTrade(aid, e, s, d, left, tick, m.cfg["dec"])
            mt.p = p
        else:
            self.probe("fully netted")
        # --- real
        kw = {"direction": TradeDirection.BUY if d == "B" else TradeDirection.SELL, "quantity": qty}
        if len(a) > 5 and a[5] is not None:
            kw["ref"] = a[5]
            self.given_refs.add(a[5])
            if mt is not None:
                mt.ref = a[5]
        given = self.labels(aid)
        kw.update(copy.deepcopy(given))
        if mt is not None and "ref" in given:
            mt.ref = given["ref"]
        rs, re = None if s is None else self.R_strats[s], self.R_epics[e]
        mark = len(self.requests)
        if via == 0 and rs is not None:
            fn = lambda: rs.open_trade(epic=re, **kw)  # noqa: E731
        elif via == 2:
            fn = lambda: self._open_at_broker(p, re, rs, kw)  # noqa: E731
        elif rs is None:
            fn = lambda: re.open_trade(**kw)  # noqa: E731
        else:
            fn = lambda: re.open_trade(strategy=rs, **kw)  # noqa: E731
        self.ev("open", aid, e, s, d, qty)
        t, err, fails = self.broker_call(aid, p, fn)
        self.k.no_preempt += 1
        try:
            self._opened(aid, mt, t, err, fails, p, s, e, netted, qty, given)
        finally:
            self.k.no_preempt -= 1

    def _open_at_broker(self, p, re, rs, kw):
        from estrade import Trade

        t = Trade.open_from_tick(tick=re.last_tick, epic=re, strategy=rs, **kw)
        self.providers[p].open_trade(t)
        return t

    def _close_at_broker(self, p, rt, kw):
        c = rt.close_from_tick(rt.epic.last_tick, **kw)
        self.providers[p].close_trade(c)
        return c

    def _close_from_epic(self, p, rt, kw):
        c = rt.close_from_epic(**kw)
        self.providers[p].close_trade(c)
        return c

    def act_nopen(self, aid, s, e0, a):
        """A trade which belongs to no strategy."""
        self.probe("trade without strategy")
        self.act_open(aid, None, e0, a)

    def act_rclose(self, aid, s, e0, a):
        """A close recorded at a given price and date (an execution reported by the broker)."""
        import arrow
        import dateutil.tz

        m = self.by_aid.get(a[1])
        if m is None:
            return
        _, _, qty, n, us, tz, form = a
        rt = self.real[m.tid]
        if m.closed:
            self.probe("close of a closed trade")
        kw = {} if qty is None else {"quantity": qty}
        given = self.labels(aid)
        kw.update(copy.deepcopy(given))
        when = arrow.get(BASE + timedelta(microseconds=us)).to(tz)
        if form:
            when = when.datetime
        if n == "zero":
            self.probe("close at zero")
            n = -m.cur_n
        value = (m.cur_n + n) / m.scale
        self.ev("rclose", aid, m.tid, qty)
        q = m.close_at(m.cur_n + n, us, qty)
        c = self.call("close", lambda: rt.close(close_value=value, datetime=when, **kw))
        self.k.no_preempt += 1
        try:
            self.probe("close at a given price")
            self.ensure(len(rt.closes) == len(m.closes) and rt.closes[-1] is c, "P10", "close %s was not kept", aid)
            self.closes[m.tid].append(c)
            self.raw_closes.add(id(c))
            self.record(c, given)
            self.ensure(c.quantity == q, "P10", "close %s of %s closes %s instead of %s", aid, qty, c.quantity, q)
            self.check_trades_of_epic(m.e, False)
        finally:
            self.k.no_preempt -= 1

    def act_upd(self, aid, s, e0, a):
        """A trade revalued by the program, at a price of its own or at the market's."""
        m = self.by_aid.get(a[1])
        if m is None:
            return
        rt = self.real[m.tid]
        self.ev("update", aid, m.tid)
        if a[2] is None:
            if self.M_epics[m.e].last is None:
                return
            self.call("update_from_epic", lambda: rt.update_from_epic())
            m.update(self.M_epics[m.e].last)
        else:
            n = 0 if a[2] == "zero" else m.cur_n + a[2]
            self.call("update", lambda: rt.update(n / m.scale))
            m.revalue(n)
        self.probe("closed trade revalued" if m.closed else "trade revalued")
        self.k.no_preempt += 1
        try:
            self.check_trades_of_epic(m.e, False)
        finally:
            self.k.no_preempt -= 1

    def act_on(self, aid, s, e, a):
        """A strategy pauses or stops another one."""
        self.probe("strategy driven by another")
        getattr(self, "act_" + a[2][0])(aid, a[1], e, a[2])

    def act_join(self, aid, s, e, a):
        """A strategy adds another one to the instrument which notifies it."""
        self.op_attach_strategy({"e": e, "s": a[1]})

    def op_attach_strategy(self, op):
        e, s = op["e"], op["s"]
        if s in self.M_epics[e].strategies:
            return
        self.call("add_strategy", lambda: self.R_epics[e].add_strategy(self.R_strats[s]))
        self.M_epics[e].strategies.append(s)
        self.probe("late strategy" if self.running[e] is None else "strategy added by a strategy")

    def _opened(self, aid, mt, t, err, fails, p, s, e, netted, qty, given):
        prov = self.providers[p]
        if err is not None:  # launch failed: whatever is in the books is adopted
            self.probe("launch error delivered")
            new = [x for x in prov.trades if id(x) not in self.known]
            mine = [] if s is None else [x for x in self.R_strats[s].trades if id(x) not in self.known]
            if mt is not None and (new or mine):
                t = (new or mine)[0]
                mt.in_strategy = bool(mine)
                mt.in_provider = bool(new)
                self._register(aid, mt, t)
                self.record(t, given)
                self.expected_requests.append((p, "open", t, False))
            return
        if self.on("P11", "P10"):
            self.ensure(t is not None, "P11", "open %s returned nothing", aid)
        if mt is not None:
            mt.in_strategy = mt.in_provider = True
            self._register(aid, mt, t)
            self.record(t, given)
            self.expected_requests.append((p, "open", t, True))
        else:
            self.known[id(t)] = None
            self.keep = getattr(self, "keep", [])
            self.keep.append(t)  # ids stay unique
            if self.on("P11", "P12", "P10", "P20"):
                self.ensure(not any(x is t for x in prov.trades), "P11",
                            "open %s: a trade fully netted away is in the books", aid)
        for x, q in netted:
            self._new_close(x, p, "netting of %s" % aid)
        if self.on("P11"):
            for x, q in netted:
                self.check_trade(x)
        self.after_action(aid, p, e)

    def _register(self, aid, mt, t):
        self.m_trades.append(mt)
        self.by_aid[aid] = mt
        if mt.s is not None:
            self.M_strats[mt.s].trades.append(mt)
        mt.registered = True
        self.real[mt.tid] = t
        self.closes[mt.tid] = []
        self.known[id(t)] = mt

    def _new_close(self, m, p, what, launched=True, given=None):
        """One more close is in the model: find the real one."""
        rt = self.real[m.tid]
        n = len(m.closes)
        rc = self.closes[m.tid]
        if len(rt.closes) != n:
            if self.on("P10", "P11", "P12"):
                self.fail("P10", "%s: trade %s has %d closes instead of %d" % (what, m.tid, len(rt.closes), n))
            self.fail("close", "%s: trade %s has %d closes instead of %d" % (what, m.tid, len(rt.closes), n))
        c = rt.closes[-1]
        rc.append(c)
        self.record(c, given or {})
        self.expected_requests.append((p, "close", c, launched))
        return c

    def act_close(self, aid, s, e0, a):
        m = self.by_aid.get(a[1])
        if m is None:
            return
        self._close_one(aid, m, a[2], a[3] if len(a) > 3 else 0, s)

    def _close_one(self, aid, m, qty, via, s=0):
        tick = self.M_epics[m.e].last
        rt = self.real[m.tid]
        rs, re = self.R_strats[s if m.s is None else m.s], self.R_epics[m.e]
        kw = {} if qty is None else {"quantity": qty}
        given = self.labels(aid)
        kw.update(copy.deepcopy(given))
        if m.closed:
            self.probe("close of a closed trade")
        elif qty is not None and qty > m.opened:
            self.probe("over-close")
        if via == 0:
            fn = lambda: rs.close_trade(trade=rt, **kw)  # noqa: E731
        elif via == 2:
            fn = lambda: self._close_at_broker(m.p, rt, kw)  # noqa: E731
        else:
            fn = lambda: re.close_trade(trade=rt, **kw)  # noqa: E731
        self.ev("close", aid, m.tid, qty)
        q = m.close(tick, qty)
        c, err, fails = self.broker_call(aid, m.p, fn)
        self.k.no_preempt += 1
        try:
            if err is not None:
                self.probe("launch error delivered")
                if len(rt.closes) == len(m.closes) - 1:
                    m.uncl()
                elif len(rt.closes) == len(m.closes):
                    self._new_close(m, m.p, aid, False, given)
                else:
                    self.fail("close", "%s: %d closes after a failed launch" % (aid, len(rt.closes)))
                return
            rc = self._new_close(m, m.p, aid, True, given)
            if self.on("P10", "P12"):
                self.ensure(rc is c, "P10", "close %s does not return the close it registered", aid)
            if self.on("P10"):
                self.ensure(c.quantity == q, "P10", "close %s of %s closes %s instead of %s", aid, qty, c.quantity, q)
            self.after_action(aid, m.p, m.e)
        finally:
            self.k.no_preempt -= 1

    def act_closeall(self, aid, s, e0, a):
        ms = [m for m in reversed(self.M_strats[s].trades) if not m.closed and m.in_strategy]
        rs = self.R_strats[s]
        ps = sorted({m.p for m in ms})
        live = any(self.live(p) for p in ps)
        todo = []
        for m in ms:
            m.close(self.M_epics[m.e].last, None)
            todo.append(m)
        self.ev("closeall", aid, [m.tid for m in ms])
        k = self.k
        before = {m.tid: len(self.real[m.tid].closes) for m in ms}
        p0 = next((p for p in ps if self.live(p)), ps[0] if ps else 0)
        _, err, fails = self.broker_call(aid, p0, lambda: rs.close_opened_trades())
        k.no_preempt += 1
        try:
            if err is not None and live:
                self.probe("launch error delivered")
                failed = False
                for m in todo:
                    if len(self.real[m.tid].closes) == before[m.tid]:
                        m.uncl()
                    else:
                        # the close whose launch failed is the last one made
                        self._new_close(m, m.p, aid, None)
                return
            for m in todo:
                self._new_close(m, m.p, aid, True)
            for m in todo:
                if self.on("P10", "P09"):
                    self.check_trade(m)
            if todo:
                self.after_action(aid, todo[0].p, todo[0].e)
        finally:
            k.no_preempt -= 1

    def op_closes(self, op):
        """Several threads of the program close and revalue one trade, maybe while a tick is delivered."""
        import arrow

        k = self.k
        m = self.by_aid.get(op["t"])
        if m is None or not m.in_provider:
            return
        rt = self.real[m.tid]
        me = self.M_epics[m.e]
        rs, re = self.R_strats[op["s"] if m.s is None else m.s], self.R_epics[m.e]
        n0 = len(rt.closes)
        made, items = {}, []
        old, new = me.last, None

        def one(aid, fn, close):
            def f():
                o = k.begin(aid)
                try:
                    c = self.call("operation %s" % aid, fn)
                    if close:
                        made[aid] = c
                    self.ev("done", aid)
                finally:
                    k.end(o)
            return f

        todo = []
        for i, x in enumerate(op["list"]):
            aid = "%s/%d" % (op["id"], i)
            if x[0] == "upd":
                n = None if x[1] is None else 0 if x[1] == "zero" else m.cur_n + x[1]
                items.append(("upd", aid, n))
                fn = (lambda: rt.update_from_epic()) if n is None else (lambda n=n: rt.update(n / m.scale))
            elif x[0] == "rclose":
                kw = {} if x[1] is None else {"quantity": x[1]}
                items.append(("rclose", aid, x[1], m.cur_n + x[2], x[3]))
                fn = lambda kw=kw, n=m.cur_n + x[2], when=arrow.get(BASE + timedelta(microseconds=x[3])): rt.close(  # noqa: E731
                    close_value=n / m.scale, datetime=when, **kw)
            else:
                kw = {} if x[1] is None else {"quantity": x[1]}
                items.append(("close", aid, x[1]))
                if x[2] == 0:
                    fn = lambda kw=kw: rs.close_trade(trade=rt, **kw)  # noqa: E731
                elif x[2] == 2:
                    fn = lambda kw=kw: self._close_from_epic(m.p, rt, kw)  # noqa: E731
                elif x[2] == 3:
                    fn = lambda kw=kw: self._close_at_broker(m.p, rt, kw)  # noqa: E731
                else:
                    fn = lambda kw=kw: re.close_trade(trade=rt, **kw)  # noqa: E731
            todo.append((aid, one(aid, fn, x[0] != "upd")))
        t = op.get("tick")
        if t is not None and t["e"] == m.e and self.running[m.e] is None:
            if me.accepts(t["us"]):
                items += [("tick",), ("valued",)]
            t = dict(t, id=op["id"] + ".t")

            def feed():
                o = k.begin(t["id"])
                try:
                    self.op_tick(t)
                finally:
                    k.end(o)
            todo.append((t["id"], feed))
        self.ev("closes", op["id"], m.tid, len(items))
        self.probe("one trade closed by several threads")
        self.flux = m
        ts = []
        for aid, fn in todo:
            self.callers.add(aid)
            ts.append(k.spawn(fn, aid))
        for th in ts:
            k.join(th)
        self.flux = None
        if self.violation:
            return
        k.no_preempt += 1
        try:
            c = "P10" if self.on("P10") else "P09"
            fresh = list(rt.closes[n0:])
            back = {id(x): aid for aid, x in made.items()}
            recorded = {x[1] for x in items if x[0] == "rclose"}
            self.ensure(sorted(map(id, fresh)) == sorted(back) and len(back) == sum("close" in x[0] for x in items), c,
                        "%s: closes made by several threads are not those which trade %s has", op["id"], m.tid)
            m2 = self._explain(m, rt, items, [back[id(x)] for x in fresh], old, me.last)
            self.ensure(m2 is not None, c, "%s: trade %s: no order of %r explains %r closed at %r, now %r, results %r, %r, %r", op["id"], m.tid,
                        items, [x.quantity for x in fresh], [x.close_value for x in fresh], rt.current_close_value,
                        rt.result, rt.max_result, rt.min_result)
            m.__dict__.update(m2.__dict__)
            for x in fresh:
                self.closes[m.tid].append(x)
                self.record(x, {})
                if back[id(x)] in recorded:
                    self.raw_closes.add(id(x))
                else:
                    self.expected_requests.append((m.p, "close", x, True))
            self.after_action(op["id"], m.p, m.e)
        finally:
            k.no_preempt -= 1

    def _explain(self, m, rt, items, order, old, new):
        """What the trade becomes in some order of the operations which agrees with what it is."""
        want = [x for x in order]
        for perm in itertools.permutations(items):
            if [x[1] for x in perm if "close" in x[0]] != want:
                continue
            names = [x[0] for x in perm]
            if "tick" in names and names.index("tick") > names.index("valued"):
                continue
            m2 = copy.copy(m)
            m2.closes = list(m.closes)
            last = old
            for x in perm:
                if x[0] == "tick":
                    last = new
                elif x[0] == "valued":
                    m2.update(new)
                elif x[0] == "close":
                    m2.close(last, x[2])
                elif x[0] == "rclose":
                    m2.close_at(x[3], x[4], x[2])
                elif x[2] is None:
                    m2.update(last)
                else:
                    m2.revalue(x[2])
            tol = m2.tolerance()
            if len(m2.closes) != len(rt.closes) or rt.opened_quantities != m2.opened:
                continue
            if any(x.quantity != y[0] or abs(x.close_value - m2.price(y[1])) > EPS or us_of(x.datetime) != y[2]
                   for x, y in zip(rt.closes, m2.closes)):
                continue
            if abs(rt.current_close_value - m2.cur) > EPS:
                continue
            if not m2.raw and (abs(rt.max_result - m2.max) > tol or abs(rt.min_result - m2.min) > tol):
                continue
            return m2
        return None

    # ------------------------------------------------------------------- broker
    def request(self, p, kind, obj, confirm):
        k = self.k
        if k is None or k.aborting:
            return obj
        me = k.cur
        k.no_preempt += 1
        try:
            snap = self._snapshot(p, kind, obj)
        finally:
            k.no_preempt -= 1
        rec = [p, kind, obj, False, snap]
        self.requests.append(rec)
        R = self.record(obj) if self.on("P25") else None
        self.ev("request", me.name, kind)
        try:
            if confirm is not None:
                k.preempt()
                lat = self._latency(me.name)
                if lat:
                    k.sleep(lat)
                if R is not None:
                    R["status"].append("CONFIRMED")
                confirm()
                if R is not None:
                    R["status"] = ["CONFIRMED"]
                return obj
            h = hash_str("ack/" + me.name)
            if R is not None and h % 3 == 0:  # acknowledged first
                self.write(obj, R, ("PENDING", "CONFIRMED", "REQUIRED")[h // 3 % 3])
            lat = self._latency(me.name)
            if lat:
                k.sleep(lat)
            else:
                k.preempt()
            rates = self.plan["cfg"].get("broker", {})

            def draw(rng):
                x = rng.random()
                if x < rates.get("raise", 0):
                    return "raise:" + rng.choice(sorted(BROKER_KINDS))
                if x < rates.get("raise", 0) + rates.get("refuse", 0):
                    return rng.choice(["REFUSED", "REFUSED", "PENDING", "CLOSED", "REQUIRED", "CREATED"])
                return None

            out = k.decide("req:" + me.name, draw)
            from estrade.enums import TransactionStatus
            if out is not None and out.startswith("raise:"):
                self.fault("broker raises")
                self.ev("request-raise", me.name)
                if R is not None and h % 2:
                    self.write(obj, R, None, tried=me.name)
                raise BROKER_KINDS[out[6:]](me.name)
            if out is not None:
                self.fault("broker refuses" if out == "REFUSED" else "broker answers otherwise")
            if R is not None:
                self.write(obj, R, out or "CONFIRMED", **{"deal" if out is None else "reason": out or me.name})
                self.probe("answer recorded")
            else:
                obj.status = getattr(TransactionStatus, out or "CONFIRMED")
                obj.meta["deal" if out is None else "reason"] = out or me.name
            return obj
        finally:
            rec[3] = True
            self.ev("request-end", me.name)

    def write(self, obj, R, status, **meta):
        """A broker records its answer."""
        from estrade.enums import TransactionStatus

        self.k.no_preempt += 1
        try:
            if status is not None:
                obj.status = getattr(TransactionStatus, status)
                R["status"] = [status]
            obj.meta.update(meta)
            R["meta"].update(meta)
        finally:
            self.k.no_preempt -= 1

    def labels(self, aid):
        """What a program gives when it opens or closes: reference, metadata, status."""
        if not self.on("P25"):
            return {}
        from estrade.enums import TransactionStatus

        h = hash_str("labels/" + aid)
        kw = {}
        if h % 2:
            kw["ref"] = ("same", "r " + aid, aid)[h // 2 % 3]
        if h // 8 % 3 == 0:
            kw["meta"] = {"by": aid}
        if h // 64 % 4 == 0:
            kw["status"] = (TransactionStatus.PENDING, TransactionStatus.REQUIRED, TransactionStatus.CONFIRMED)[h // 256 % 3]
        return kw

    def record(self, obj, given=None):
        """First sight of a trade or a close; `given` once the call which made it has returned."""
        if not self.on("P25"):
            return None
        R = self.records.get(id(obj))
        if R is None:
            R = self.records[id(obj)] = {"obj": obj, "init": (obj.status, dict(obj.meta), obj.ref), "status": [obj.status.name],
                                         "meta": dict(obj.meta), "ref": obj.ref, "own": False}
        if given is not None:
            st, meta, ref = R["init"]
            R["own"] = "ref" not in given and ref not in self.given_refs
            self.ensure(isinstance(ref, str) and ref == given.get("ref", ref or None), "P25", "reference %r instead of %r", ref, given.get("ref"))
            self.ensure(meta == given.get("meta", {}), "P25", "a trade or close starts with the metadata %s instead of %s", meta, given.get("meta", {}))
            want = given["status"].name if "status" in given else "CREATED"
            self.ensure(st.name == want, "P25", "a trade or close starts as %s instead of %s", st.name, want)
        return R

    def check_records(self):
        """What programs and brokers recorded on trades and closes is still there, and nothing else."""
        own, refs = 0, set()
        for R in self.records.values():
            o = R["obj"]
            what = "trade" if hasattr(o, "closes") else "close"
            self.ensure(o.status.name in R["status"], "P25", "a %s is %s instead of %s", what, o.status.name, " or ".join(R["status"]))
            self.ensure(o.meta == R["meta"], "P25", "a %s has the metadata %s instead of %s", what, o.meta, R["meta"])
            self.ensure(o.ref == R["ref"], "P25", "the reference of a %s went from %r to %r", what, R["ref"], o.ref)
            if R["own"]:
                own += 1
                refs.add(o.ref)
        self.ensure(own < 8 or len(refs) > own * 0.8, "P25", "%d trades and closes without a given reference share %d references", own, len(refs))
        for m in self.m_trades:
            t = self.real[m.tid]
            self.ensure(t.epic is self.R_epics[m.e], "P25", "trade %s has moved to another instrument", m.tid)
            self.ensure(t.strategy is (None if m.s is None else self.R_strats[m.s]), "P25", "trade %s has moved to another strategy", m.tid)
            self.ensure(t.direction.name == ("BUY" if m.direction == "B" else "SELL"), "P25", "trade %s is now a %s", m.tid, t.direction)
            self.ensure(abs(t.open_value - m.open_value) < EPS, "P25", "trade %s was opened at %s, and now at %s", m.tid, m.open_value, t.open_value)
            self.ensure(us_of(t.datetime) == m.us, "P25", "trade %s was opened at another date: %s", m.tid, t.datetime)
            for c in self.closes[m.tid]:
                self.ensure(c.trade is t, "P25", "a close of %s is now one of another trade", m.tid)

    def _latency(self, name):
        rates = self.plan["cfg"].get("broker", {})

        def draw(rng):
            x = rng.random()
            if x < rates.get("hang", 0):
                return FOREVER
            x -= rates.get("hang", 0)
            if x < rates.get("slow", 0):
                return rng.choice([1000, 50_000, 1_000_000, 30_000_000, 3_600_000_000])
            return None

        d = self.k.decide("lat:" + name, draw)
        if d:
            self.fault("broker hangs" if d >= FOREVER else "broker slow")
        return d or 0

    def _snapshot(self, p, kind, obj):
        """What a broker sees when its request starts (judged once the call returns)."""
        if not self.on("P13", "P16"):
            return None
        prov = self.providers[p]
        if kind == "open":
            st = obj.strategy
            return {
                "listed": any(x is obj for x in prov.trades),
                "in_strategy": st is None or any(x is obj for x in st.trades),
                "qty": obj.open_quantity, "value": obj.open_value, "busy": prov.is_alive,
                "max": obj.max_result,
            }
        tr = obj.trade
        return {
            "listed": any(x is obj for x in tr.closes),
            "qty": obj.quantity, "value": obj.close_value, "busy": prov.is_alive,
        }

    # ------------------------------------------------------------ after an action
    def after_action(self, aid, p, e):
        if self.on("P25"):
            self.check_records()
        if self.on("P14"):
            self.check_busy(p, "after " + aid)
        self.check_trades_of_epic(e, False)

    def outstanding(self, p):
        """Requests that are due and have not ended."""
        n = 0
        for pp, kind, obj, launched in self.expected_requests:
            if pp == p and launched:
                n += 1
        for rec in self.requests:
            if rec[0] == p and rec[3]:
                n -= 1
        return n

    def check_busy(self, p, when):
        k = self.k
        # a launch that failed silently makes the count unknown
        if any(x[0] == p and x[3] is None for x in self.expected_requests):
            return
        n = self.outstanding(p)
        alive = self.providers[p].is_alive
        if n > 0:
            self.probe("busy checked")
            self.ensure(alive, "P14", "%s: broker idle although %d requests have not ended", when, n)
        elif not any(t.state != "done" and t.name not in self.callers
                     for t in k.threads):
            self.probe("idle checked")
            self.ensure(not alive, "P14", "%s: broker busy although every request has ended", when)

    def op_busy(self, op):
        self.k.no_preempt += 1
        try:
            if self.on("P14"):
                for p in range(len(self.providers)):
                    self.check_busy(p, op["id"])
        finally:
            self.k.no_preempt -= 1

    def op_poll(self, op):
        """Somebody looks at the brokers while others use them."""
        k = self.k
        for i in range(op["n"]):
            for p, prov in enumerate(self.providers):
                k.no_preempt += 1
                due = [x for x in self.expected_requests if x[0] == p and x[3]]
                unsure = any(x[0] == p and x[3] is None for x in self.expected_requests)
                k.no_preempt -= 1
                alive = self.call("is_alive", lambda: prov.is_alive)
                k.no_preempt += 1
                try:
                    if unsure or not self.on("P14"):
                        continue
                    ended = {}
                    for rec in self.requests:
                        if rec[0] == p and rec[3]:
                            ended[(rec[1], id(rec[2]))] = True
                    left = [x for x in due if (x[1], id(x[2])) not in ended]
                    self.probe("polled busy" if left else "polled")
                    if left:
                        self.ensure(alive, "P14", "%s: broker idle although %d requests have not ended", op["id"], len(left))
                finally:
                    k.no_preempt -= 1

    def op_drain(self, op):
        self.drain()

    def hanging(self):
        return any(t.wake is not None and t.wake >= FOREVER for t in self.k.threads if t.state != "done")

    def drain(self):
        """What a program does before reporting: wait for the brokers."""
        import time

        k = self.k
        if any(v == FOREVER for v in self.dec.values()):
            return False
        limit = None
        for p, prov in enumerate(self.providers):
            while self.call("is_alive", lambda: prov.is_alive):
                if self.violation:
                    raise Violation(*self.violation)
                if self.k.runnable() == [k.cur] and not any(t.wake is not None for t in k.threads if t is not k.cur):
                    if limit is None:
                        limit = k.now + 60_000_000
                    if k.now > limit:
                        self.fail("P14", "the broker stays busy although nothing runs any more")
                nxt = [t.wake for t in k.threads if t.wake is not None and t is not k.cur]
                # poll as a program does, without simulating every poll of a long wait
                step = 0.05 if not nxt else max(0.05, (min(nxt) - k.now) / 1e6 / 3)
                time.sleep(step)
                k.steps = 0
        self.check_requests()
        return True

    def check_requests(self):
        """Every due request was made exactly once, every other one never."""
        if not self.on("P12", "P13", "P16", "P17", "P15", "P14"):
            return
        count = {}
        for p, kind, obj, ended, snap in self.requests:
            key = (p, kind, id(obj))
            count[key] = count.get(key, 0) + 1
        due = {}
        for p, kind, obj, launched in self.expected_requests:
            due[(p, kind, id(obj))] = launched
        if self.on("P12", "P16", "P17", "P15"):
            for key, launched in due.items():
                n = count.get(key, 0)
                if launched is None:
                    self.ensure(n <= 1, "P12", "%d requests for one %s", n, key[1])
                elif launched:
                    self.ensure(n == 1, "P12", "%d requests instead of one for one %s", n, key[1])
                else:
                    self.ensure(n == 0, "P12", "%d requests for a %s whose launch failed", n, key[1])
            for key in count:
                self.ensure(key in due, "P12", "request about an unknown %s", key[1])
        if self.on("P14"):
            for key, launched in due.items():
                if launched:
                    self.ensure(count.get(key, 0) >= 1, "P14",
                                "the broker is idle although the request of one %s was never made", key[1])
        if self.on("P13", "P16"):
            for p, kind, obj, ended, snap in self.requests:
                self._judge_snapshot(p, kind, obj, snap)
        if self.on("P15"):
            from estrade.enums import TransactionStatus
            for m in self.m_trades:
                if self.live(m.p):
                    continue
                rt = self.real[m.tid]
                self.ensure(rt.status == TransactionStatus.CONFIRMED, "P15", "trade %s is %s", m.tid, rt.status)
                for c in rt.closes:
                    if id(c) in self.raw_closes:
                        continue
                    self.ensure(c.status == TransactionStatus.CONFIRMED, "P15", "a close of %s is %s", m.tid, c.status)

    def _judge_snapshot(self, p, kind, obj, s):
        if s is None:
            return
        self.ensure(s["listed"], "P13", "a %s request started before its registration", kind)
        self.ensure(s["busy"], "P13", "a %s request started while its broker was reported idle", kind)
        if kind == "open":
            m = self.known.get(id(obj))
            if m is None:
                return
            self.ensure(s["in_strategy"], "P13", "request of %s started before its strategy knew it", m.tid)
            self.ensure(s["qty"] == m.open_qty, "P13", "request of %s: quantity %s instead of %s", m.tid, s["qty"], m.open_qty)
            self.ensure(abs(s["value"] - m.open_value) < EPS, "P13", "request of %s: price %s", m.tid, s["value"])
        else:
            for tid, lst in self.closes.items():
                for i, c in enumerate(lst):
                    if c is obj:
                        m = self.known[id(self.real[tid])]
                        q, v, us = m.closes[i]
                        v = m.price(v)
                        self.ensure(s["qty"] == q and abs(s["value"] - v) < EPS, "P13",
                                    "close request of %s: %s at %s instead of %s at %s", tid, s["qty"], s["value"], q, v)
                        return

    # ------------------------------------------------------------------- the end
    def finish(self):
        k = self.k
        k.begin("end")
        if self.mode.get("exit"):
            self.program_ends()
            return
        idle = self.drain()
        if idle and self.on("P14"):
            for p in range(len(self.providers)):
                self.check_busy(p, "end")
        k.no_preempt += 1
        try:
            if not idle:
                # brokers that never answer: what is due must still have been asked
                pass
            for e in range(len(self.M_epics)):
                if self.M_epics[e].last is not None:
                    self.check_everything(e)
            self.check_books()
            self.check_figures()
            if self.on("P25"):
                self.check_records()
            self.check_refused()
            if self.plan["prop"] == "P04":
                for e in range(len(self.M_epics)):
                    self.check_released(e)
            if self.disk is not None:
                self.check_files("end")
            self.pv("final", self.final_state())
            self.ev("final", self.final_state())
        finally:
            k.no_preempt -= 1
        if not idle and self.on("P12"):
            self._check_hung_requests()

    def program_ends(self):
        """The program does not wait for its brokers: the requests must be made all the same."""
        if self.k.runnable() != [self.k.main]:
            self.probe("program ends with requests pending")
        self.k.end_of_program()
        self.check_requests()

    def _check_hung_requests(self):
        """With a broker that never answers, requests are made all the same."""
        k = self.k
        k.sleep(10_000_000_000)  # 10^4 s: far below a hang, beyond every latency
        self.check_requests()

    def final_state(self):
        out = []
        for m in self.m_trades:
            rt = self.real[m.tid]
            out.append((m.tid, rt.open_quantity, rt.opened_quantities, rt.open_value, round(rt.result, 4),
                        round(rt.max_result, 4), round(rt.min_result, 4),
                        tuple((c.quantity, c.close_value) for c in rt.closes)))
        return tuple(out)


SCRATCH_ROOT = None
